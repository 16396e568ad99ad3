//! C18 (writers that fail), C19 (time), C20 (the whole way from bytes to printed functions)
use crate::cfgm::{self, B, Ch, Mg, Term};
use crate::ext::{self, SetSpec};
use crate::frame::*;
use crate::gen;
use crate::layout;
use crate::read;
use crate::rng::{hash_bytes, mix, Rng};
use crate::spec::*;
use crate::spec_gen::*;
use magmaflow::spv::logical::*;
use std::collections::HashMap;
use std::fmt;
use std::fmt::{Display, Write};

// ---------------------------------------------------------------- C18

/// A writer that fails once: at a byte or at a call; what comes after is accepted again
struct Sink {
    out: String,
    calls: usize,
    fail_call: usize,
    fail_byte: usize,
    /// whether the part that still fits is taken
    partial: bool,
    failed: bool,
    for_good: bool,
    after: usize,
}
impl Sink {
    fn new() -> Sink {
        Sink { out: String::new(), calls: 0, fail_call: usize::MAX, fail_byte: usize::MAX, partial: false, failed: false, for_good: true, after: 0 }
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = self.calls;
        self.calls += 1;
        if self.failed {
            if self.for_good {
                return Err(fmt::Error);
            }
            self.after += s.len();
            return Ok(());
        }
        if n >= self.fail_call || self.out.len() + s.len() > self.fail_byte {
            self.failed = true;
            if self.partial && n < self.fail_call {
                let mut k = self.fail_byte - self.out.len();
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                self.out.push_str(&s[..k]);
            }
            return Err(fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}
fn torn(c: &mut Ctx, what: &str, v: &dyn Display) -> Res {
    let mut full = Sink::new();
    if write!(full, "{}", v).is_err() {
        return Err(format!("{}: printing to a writer that accepts everything failed", what));
    }
    let text = full.out;
    let calls = full.calls;
    c.seen_bytes(text.as_bytes());
    c.count("printed values", 1);
    let mut points: Vec<(bool, usize)> = vec![];
    let dense = if c.thorough() { 400 } else { 48 };
    if calls <= dense {
        points.extend((0..calls).map(|k| (true, k)));
    } else {
        points.extend((0..dense).map(|_| (true, c.r.below(calls))));
        points.extend([(true, 0), (true, calls - 1)]);
    }
    for _ in 0..8 {
        if !text.is_empty() {
            points.push((false, c.r.below(text.len())));
        }
    }
    for (by_call, at) in points {
        for for_good in [true, false] {
            let mut s = Sink::new();
            if by_call {
                s.fail_call = at;
            } else {
                s.fail_byte = at;
            }
            s.partial = c.r.chance(1, 2);
            s.for_good = for_good;
            c.eval();
            let r = write!(s, "{}", v);
            if !s.failed {
                // the text came in other pieces this time; nothing to judge
                c.count("failure points not reached", 1);
                continue;
            }
            c.count("writer failures injected", 1);
            let place = if by_call { format!("write {} of {}", at, calls) } else { format!("byte {} of {}", at, text.len()) };
            if r.is_ok() {
                return Err(format!("{}: the writer failed at {} and printing reported success; text {:?}", what, place, short(&text, 300)));
            }
            if s.after > 0 {
                return Err(format!("{}: after the writer failed at {} printing went on with {} more bytes; text {:?}", what, place, s.after, short(&text, 300)));
            }
            if !text.starts_with(&s.out) {
                return Err(format!("{}: what was written before the failure at {} is not the beginning of the text: {}", what, place, diff(&s.out, &text)));
            }
        }
    }
    c.sample(4, || format!("{}: {} writes, {:?}", what, calls, short(&text, 120)));
    Ok(())
}
fn c18_inst(c: &mut Ctx) -> Res {
    let op = c.idx as usize % N_CORE;
    for n in 0..3 {
        let i = read::any_inst(&mut c.r, op, if n == 0 { 40 } else { 4 });
        let core = build_core(&i);
        torn(c, OPS[op].name, &core)?;
        if let Some(g) = to_code(&core) {
            torn(c, "code instruction", &g)?;
        }
    }
    Ok(())
}
/// Every variant of enumerants, flags, strings and optional operands
fn c18_variants(c: &mut Ctx) -> Res {
    let ops = gen::readable();
    let op = ops[c.idx as usize % ops.len()];
    if op == oi::OP_EXT_INST || op == oi::OP_EXT_INST_IMPORT {
        return Ok(());
    }
    let v = read::variants(&mut c.r, op);
    let step = if c.thorough() { 1 } else { (v.len() / 40).max(1) };
    for i in v.iter().skip(c.r.below(step)).step_by(step) {
        torn(c, OPS[op].name, &build_core(i))?;
    }
    Ok(())
}
fn c18_module(c: &mut Ctx) -> Res {
    let sets = gen::sets(&mut c.r);
    let n = c.r.below(7);
    let (h, v) = gen::module(&mut c.r, n, &sets, 5);
    let m = build_module(&h, &v);
    torn(c, "module", &m)?;
    for i in &m.instructions {
        torn(c, "instruction", i)?;
    }
    Ok(())
}
fn c18_error(c: &mut Ctx) -> Res {
    let sets = gen::sets(&mut c.r);
    for _ in 0..12 {
        let n = c.r.below(6);
        let mut w = read::some_words(&mut c.r, n, &sets);
        gen::damage(&mut c.r, &mut w);
        let mut b = to_bytes(&w, c.r.chance(1, 3));
        if c.r.chance(1, 3) {
            gen::damage_bytes(&mut c.r, &mut b);
        }
        if let (Err(e), _) = read::read(&b, &sets) {
            c.count("error messages", 1);
            torn(c, "error message", &e)?;
        }
    }
    Ok(())
}
fn c18_flow(c: &mut Ctx) -> Res {
    let mut m = cfgm::Maker::new(&mut c.r);
    m.budget = 14;
    m.code = 2;
    let s = m.function();
    let d = cfgm::to_def(&mut c.r, &s.blocks);
    if let Ok(ch) = find_control_flow(d.clone()) {
        c.count("structures", 1);
        torn(c, "structure", &ch)?;
        torn(c, "function", &ControlFlowFunctionPrinter(&d, &ch))?;
        for b in &d.blocks {
            torn(c, "branch", &b.branch)?;
        }
        fn ids(ch: &ControlFlowChain, v: &mut Vec<BlockId>) {
            match *ch {
                ControlFlowChain::Atom(b) => v.push(b),
                ControlFlowChain::Block(ref x) => x.iter().for_each(|y| ids(y, v)),
                ControlFlowChain::Selection(b, ref l, ref r, ..) => {
                    v.push(b);
                    ids(l, v);
                    ids(r, v);
                }
                ControlFlowChain::Loop(b, ref l, ..) => {
                    v.push(b);
                    ids(l, v);
                }
                _ => {}
            }
        }
        let mut v = vec![];
        ids(&ch, &mut v);
        for b in v.iter().take(3) {
            torn(c, "block id", b)?;
        }
    }
    Ok(())
}
/// Long texts: many instructions, long lists and strings, deep and long functions
fn c18_long(c: &mut Ctx) -> Res {
    let n = *c.r.pick(&[100usize, 400, 1_100, 3_000]);
    match c.idx / 8 % 4 {
        0 => {
            let sets = gen::sets(&mut c.r);
            let (h, v) = gen::module(&mut c.r, n, &sets, 5);
            let m = build_module(&h, &v);
            torn(c, "long module", &m)
        }
        1 => {
            let lists: Vec<usize> = (0..N_CORE).filter(|o| *o != oi::OP_EXT_INST && OPS[*o].kinds.iter().any(|k| matches!(k, Kind::Many(_) | Kind::Str))).collect();
            let op = *c.r.pick(&lists);
            let mut i = gen::inst(&mut c.r, op, 1);
            if let Some(Kind::Many(k)) = OPS[op].kinds.last().copied() {
                for _ in 0..n {
                    gen::arg(&mut c.r, k, &mut i.args, 2);
                }
            }
            for a in &mut i.args {
                if let Arg::Str(s) = a {
                    *s = gen::string_len(&mut c.r, 4 * n);
                }
            }
            torn(c, "long instruction", &build_core(&i))
        }
        2 => {
            let k = c.r.below(8);
            let s = cfgm::shaped(&mut c.r, k, if k < 3 { n.min(1_100) } else { n.min(120) });
            let d = cfgm::to_def(&mut c.r, &s.blocks);
            match find_control_flow(d.clone()) {
                Ok(ch) => {
                    torn(c, "long structure", &ch)?;
                    if n > 400 {
                        return Ok(());
                    }
                    torn(c, "long function", &ControlFlowFunctionPrinter(&d, &ch))
                }
                Err(_) => Ok(()),
            }
        }
        _ => {
            let mut s = cfgm::shaped(&mut c.r, 6, 2);
            let k = c.r.below(s.blocks.len());
            for _ in 0..n {
                let i = layout::of_class(&mut c.r, Class::Code);
                s.blocks[k].code.push(i);
            }
            let d = cfgm::to_def(&mut c.r, &s.blocks);
            match find_control_flow(d.clone()) {
                Ok(ch) => torn(c, "function with a long block", &ControlFlowFunctionPrinter(&d, &ch)),
                Err(_) => Ok(()),
            }
        }
    }
}
pub static C18: &[Family] = &[
    fam("long", 320, 6_000, c18_long),
    fam("inst", 60 * N_CORE as u64, 1_000 * N_CORE as u64, c18_inst),
    fam("variants", 4_000, 80_000, c18_variants),
    fam("module", 16_000, 600_000, c18_module),
    fam("error", 16_000, 600_000, c18_error),
    fam("flow", 16_000, 600_000, c18_flow),
];

// ---------------------------------------------------------------- C19

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// CPU time of this thread in nanoseconds
fn cpu() -> u64 {
    let mut t = Timespec { s: 0, n: 0 };
    // 3: CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}
/// How much longer the large input may take per word than the small one. Proportional cost gives about 1,
/// quadratic cost gives FACTOR.
const FACTOR: usize = 32;
const SLACK: f64 = 8.0;
/// Stages cheaper than this are dominated by caches and page faults
const FLOOR: f64 = 15.0;
/// What no word may cost at the large size, however the cost grows; about ten times what is measured
const CEILING: f64 = 2_000.0;

struct Timed {
    words: usize,
    /// (stage, nanoseconds)
    stages: Vec<(&'static str, u64)>,
}
fn stage<T>(name: &'static str, t: &mut Vec<(&'static str, u64)>, f: impl FnOnce() -> T) -> T {
    let a = cpu();
    let v = f();
    t.push((name, cpu() - a));
    v
}
/// Everything the library does with one module, timed
fn time_bytes(bytes: &[u8], sets: &[SetSpec]) -> Timed {
    let mut t = vec![];
    let log = ext::new_log();
    let inst = ext::instantiate(sets, &log);
    let r = stage("reading", &mut t, || magmaflow::spv::raw::read_module(bytes, inst));
    if let Ok(m) = r {
        let txt = stage("printing", &mut t, || m.to_string());
        drop(txt);
        let k = stage("copying", &mut t, || m.clone());
        let same = stage("comparing", &mut t, || k == m);
        assert!(same, "a copy differs from its original");
        drop(k);
        if let Ok(l) = stage("validating", &mut t, || validate(m)) {
            for d in l.function_definitions {
                if d.blocks.len() < 20 {
                    continue;
                }
                let r = stage("recovering", &mut t, || find_control_flow(d));
                if let Ok(ch) = r {
                    stage("printing the structure", &mut t, || ch.to_string());
                }
            }
        }
    }
    let mut sum: Vec<(&'static str, u64)> = vec![];
    for (n, x) in t {
        match sum.iter_mut().find(|y| y.0 == n) {
            Some(y) => y.1 += x,
            None => sum.push((n, x)),
        }
    }
    Timed { words: bytes.len() / 4, stages: sum }
}
fn best(a: Timed, b: Timed) -> Timed {
    let stages = a.stages.iter().map(|(n, x)| (*n, b.stages.iter().find(|y| y.0 == *n).map_or(*x, |y| y.1.min(*x)))).collect();
    Timed { words: a.words, stages }
}
const SHAPES: usize = 24;
/// A long input of the given shape with about n instructions or list elements
fn long_input(r: &mut Rng, shape: usize, n: usize) -> (Vec<u8>, Vec<SetSpec>, &'static str) {
    let glsl_import = Inst { op: oi::OP_EXT_INST_IMPORT, args: vec![Arg::Res(1), Arg::Str(ext::GLSL.into())] };
    let model = layout::of_class(r, Class::MemoryModel);
    let func = gen::inst(r, oi::OP_FUNCTION, 0);
    let end = Inst { op: oi::OP_FUNCTION_END, args: vec![] };
    let label = |i: u32| Inst { op: oi::OP_LABEL, args: vec![Arg::Res(i)] };
    let ret = Inst { op: oi::OP_RETURN, args: vec![] };
    let mut v: Vec<Inst> = vec![];
    let mut sets = vec![];
    let of = |r: &mut Rng, cl: Class| loop {
        let i = layout::of_class(r, cl);
        if OPS[i.op].num >= 0 && i.op != oi::OP_EXT_INST && i.op != oi::OP_EXT_INST_IMPORT {
            return i;
        }
    };
    let name: &'static str;
    match shape {
        0..=8 => {
            let cl = [
                Class::Capability,
                Class::Extension,
                Class::EntryPoint,
                Class::ExecutionMode,
                Class::Debug,
                Class::Annotation,
                Class::Global,
                Class::FunctionParameter,
                Class::Code,
            ][shape];
            name = ["capabilities", "extensions", "entry points", "execution modes", "debug", "annotations", "globals", "parameters", "code"][shape];
            if cl > Class::MemoryModel {
                v.push(model.clone());
            }
            if cl == Class::FunctionParameter || cl == Class::Code {
                v.push(func.clone());
            }
            if cl == Class::Code {
                v.push(label(1));
            }
            let some: Vec<Inst> = (0..64).map(|_| of(r, cl)).collect();
            for i in 0..n {
                v.push(some[(i * 7 + i / 64) % 64].clone());
            }
            if cl < Class::MemoryModel {
                v.push(model);
            }
            if cl == Class::Code {
                v.push(ret);
            }
            if cl == Class::FunctionParameter || cl == Class::Code {
                v.push(end);
            }
        }
        9 => {
            name = "imports and uses";
            sets = vec![ext::glsl(), SetSpec { name: "test.a", tag: 1 }];
            for i in 0..n / 2 {
                v.push(Inst { op: oi::OP_EXT_INST_IMPORT, args: vec![Arg::Res(i as u32), Arg::Str(ext::GLSL.into())] });
            }
            for i in 0..n / 2 {
                let x = ExtVal { tag: 0, inst: 13 + (i & 1) as u32, words: vec![i as u32] };
                v.push(Inst { op: oi::OP_EXT_INST, args: vec![Arg::Id(7), Arg::Res(8), Arg::Id(r.below(n / 2) as u32), Arg::Ext(x)] });
            }
        }
        10 => {
            name = "many declarations";
            v.push(model);
            for _ in 0..n / 2 {
                v.push(func.clone());
                v.push(end.clone());
            }
        }
        11 => {
            name = "many definitions";
            v.push(model);
            for i in 0..n / 4 {
                v.extend([func.clone(), label(i as u32), ret.clone(), end.clone()]);
            }
        }
        12 => {
            name = "names all different";
            v.push(model);
            for i in 0..n {
                v.push(Inst { op: oi::OP_NAME, args: vec![Arg::Id(i as u32), Arg::Str(format!("name_{}_{}", i, i * 31))] });
            }
        }
        13 => {
            name = "long strings";
            v.push(model);
            let n = if n < 60_000 { n / 8 } else { n };
            for _ in 0..(n / 60_000).max(1) {
                let s = gen::string_len(r, 4 * n.min(60_000));
                v.push(Inst { op: oi::OP_NAME, args: vec![Arg::Id(9), Arg::Str(s)] });
            }
        }
        14 => {
            name = "long operand lists";
            v.push(model);
            let n = if n < 60_000 { n / 8 } else { n };
            for _ in 0..(n / 60_000).max(1) {
                let args = std::iter::once(Arg::Res(3)).chain((0..n.min(60_000)).map(|i| Arg::Id(i as u32))).collect();
                v.push(Inst { op: oi::OP_TYPE_STRUCT, args });
            }
        }
        15..=21 => {
            name = ["a line of blocks", "selections in a row", "loops in a row", "unreachable blocks", "blocks in reverse order", "a long body and long arms", "nests in a row"][shape - 15];
            let hint_l = cfgm::no_hint(cfgm::LOOP_MASK);
            let hint_s = cfgm::no_hint(cfgm::SEL_MASK);
            let k = (n / 2) as u32;
            let mut bs: Vec<B> = vec![];
            let b = |id: u32, merge: Mg, term: Term| B { id, code: vec![], merge, term };
            match shape {
                15 | 19 => {
                    for i in 0..k {
                        bs.push(b(i, Mg::None, if i + 1 == k { Term::Ret } else { Term::Br(i + 1) }));
                    }
                    if shape == 19 {
                        bs[1..].reverse();
                    }
                }
                16 => {
                    let k = k / 2;
                    for i in 0..k {
                        let (h, a, j) = (i * 2, i * 2 + 1, i * 2 + 2);
                        bs.push(b(h, Mg::Sel(j, hint_s.clone()), Term::Cond(a, j, None)));
                        bs.push(b(a, Mg::None, Term::Br(j)));
                    }
                    bs.push(b(k * 2, Mg::None, Term::Ret));
                }
                17 => {
                    let k = k / 3;
                    for i in 0..k {
                        let h = i * 3;
                        bs.push(b(h, Mg::Loop(h + 3, h + 2, hint_l.clone()), Term::Br(h + 1)));
                        bs.push(b(h + 1, Mg::None, Term::Cond(h + 2, h + 3, None)));
                        bs.push(b(h + 2, Mg::None, Term::Br(h)));
                    }
                    bs.push(b(k * 3, Mg::None, Term::Ret));
                }
                18 => {
                    bs.push(b(0, Mg::None, Term::Br(1)));
                    bs.push(b(1, Mg::None, Term::Ret));
                    for i in 2..k {
                        bs.push(b(i, Mg::None, Term::Br(r.below(k as usize) as u32)));
                    }
                }
                20 => {
                    let m = k / 3;
                    let chain = |from: u32, to: u32, stop: u32, bs: &mut Vec<B>| {
                        for i in from..to {
                            bs.push(B { id: i, code: vec![], merge: Mg::None, term: Term::Br(if i + 1 == to { stop } else { i + 1 }) });
                        }
                    };
                    bs.push(b(0, Mg::Loop(3, 10, hint_l), Term::Br(10)));
                    chain(10, 10 + m, 0, &mut bs);
                    bs.push(b(3, Mg::Sel(4, hint_s), Term::Cond(k + 10, 2 * k + 10, None)));
                    chain(k + 10, k + 10 + m, 4, &mut bs);
                    chain(2 * k + 10, 2 * k + 10 + m, 4, &mut bs);
                    bs.push(b(4, Mg::None, Term::Ret));
                }
                _ => {
                    // nests of twelve, alternating
                    let mut id = 0;
                    for _ in 0..k / 24 {
                        let base = id;
                        for d in 0..12u32 {
                            let (h, j) = (base + d, base + 24 - d);
                            let inner = h + 1;
                            // the block after each construct leads on to what its holder expects
                            let out = if d == 0 { None } else if (d - 1) % 2 == 1 { Some(base + d - 1) } else { Some(j + 1) };
                            if d % 2 == 1 {
                                bs.push(b(h, Mg::Loop(j, h, hint_l.clone()), Term::Br(inner)));
                            } else {
                                bs.push(b(h, Mg::Sel(j, hint_s.clone()), Term::Cond(inner, j, None)));
                            }
                            if let Some(o) = out {
                                bs.push(b(j, Mg::None, Term::Br(o)));
                            }
                        }
                        // innermost: leads back to the loop at depth 11
                        bs.push(b(base + 12, Mg::None, Term::Br(base + 11)));
                        id = base + 24;
                    }
                    bs.push(b(id, Mg::None, Term::Ret));
                }
            }
            v.push(model);
            v.push(func);
            for x in &bs {
                v.extend(cfgm::insts_of(x));
            }
            v.push(end);
        }
        22 => {
            // refused at the very end
            name = "refused after a long stream";
            v.push(model);
            for i in 0..n {
                v.push(Inst { op: oi::OP_NAME, args: vec![Arg::Id(i as u32), Arg::Str("n".into())] });
            }
            v.push(layout::of_class(r, Class::MemoryModel));
        }
        _ => {
            name = "everything, again and again";
            sets = vec![ext::glsl()];
            v.push(glsl_import);
            let ops: Vec<usize> = gen::readable().into_iter().filter(|o| *o != oi::OP_EXT_INST && *o != oi::OP_EXT_INST_IMPORT).collect();
            let some: Vec<Inst> = ops.iter().map(|o| gen::inst(r, *o, 4)).collect();
            for i in 0..n {
                v.push(some[i % some.len()].clone());
            }
        }
    }
    let h = gen::header(r);
    (to_bytes(&encode_module(&h, &v), false), sets, name)
}
fn c19_long(c: &mut Ctx) -> Res {
    let shape = c.idx as usize % SHAPES;
    let small_n = if c.thorough() { 20_000 } else { 8_000 };
    let keep = c.r.clone();
    let (a, sets, name) = long_input(&mut c.r, shape, small_n);
    c.r = keep;
    let (b, _, _) = long_input(&mut c.r, shape, small_n * FACTOR);
    proportional(c, name, &a, &b, &sets)
}
/// Instructions between what their class needs around them
fn framed(r: &mut Rng, cl: Class, body: Vec<Inst>) -> Vec<Inst> {
    let model = layout::of_class(r, Class::MemoryModel);
    let mut v = vec![];
    if cl > Class::MemoryModel {
        v.push(model.clone());
    }
    if cl == Class::FunctionParameter || cl == Class::Code {
        v.push(gen::inst(r, oi::OP_FUNCTION, 0));
    }
    if cl == Class::Code {
        v.push(Inst { op: oi::OP_LABEL, args: vec![Arg::Res(1)] });
    }
    v.extend(body);
    if cl < Class::MemoryModel {
        v.push(model);
    }
    if cl == Class::Code {
        v.push(Inst { op: oi::OP_RETURN, args: vec![] });
    }
    if cl == Class::FunctionParameter || cl == Class::Code {
        v.push(Inst { op: oi::OP_FUNCTION_END, args: vec![] });
    }
    v
}
/// An instruction of the class that can be read back
pub fn readable_of(r: &mut Rng, cl: Class) -> Inst {
    loop {
        let i = layout::of_class(r, cl);
        if OPS[i.op].num >= 0 && i.op != oi::OP_EXT_INST && i.op != oi::OP_EXT_INST_IMPORT {
            return i;
        }
    }
}
fn plain_ops() -> Vec<usize> {
    gen::readable().into_iter().filter(|o| *o != oi::OP_EXT_INST && *o != oi::OP_EXT_INST_IMPORT).collect()
}
/// Very many instructions of one kind, all of them different, or all naming the same
fn c19_kinds(c: &mut Ctx) -> Res {
    let ops = plain_ops();
    let op = ops[c.idx as usize % ops.len()];
    let same = c.idx as usize / ops.len() % 2 == 1;
    let n = if c.thorough() { 4_000 } else { 2_000 };
    let mut make = |n: usize| {
        let body: Vec<Inst> = (0..n)
            .map(|i| {
                let mut x = gen::inst(&mut c.r, op, 3);
                for (k, a) in x.args.iter_mut().enumerate() {
                    match *a {
                        Arg::Res(ref mut y) if same => *y = 77,
                        Arg::Id(ref mut y) if same => *y = 78,
                        Arg::Str(ref mut y) if same => *y = "name".into(),
                        Arg::Res(ref mut y) => *y = i as u32,
                        Arg::Id(ref mut y) if k < 2 => *y = i as u32 ^ 0x5555,
                        Arg::Str(ref mut y) => *y = format!("s{}", i),
                        _ => {}
                    }
                }
                x
            })
            .collect();
        let cl = layout::class(&body[0]);
        // variables go where the first one belongs
        let body = body.into_iter().filter(|x| layout::class(x) == cl).collect();
        let v = framed(&mut c.r, cl, body);
        to_bytes(&encode_module(&Header::from_gen(0, 0), &v), false)
    };
    let a = make(n);
    let b = make(n * FACTOR);
    proportional(c, &format!("many {} {}", if same { "alike" } else { "different" }, OPS[op].name), &a, &b, &[])
}
/// The i-th of many instructions of one kind, all of them different
fn different(r: &mut Rng, op: usize, i: u32) -> Inst {
    let mut x = gen::inst(r, op, 3);
    for (k, a) in x.args.iter_mut().enumerate() {
        match *a {
            Arg::Res(ref mut y) => *y = i,
            Arg::Id(ref mut y) if k < 2 => *y = i ^ 0x5555,
            Arg::Str(ref mut y) => *y = format!("s{}", i),
            _ => {}
        }
    }
    x
}
/// Very many instructions of each of two kinds, each where it belongs: what is looked for in
/// the one section for every entry of the other shows here
pub fn pair_of(r: &mut Rng, pair: [usize; 2], n: usize, shared: bool) -> Vec<Inst> {
    let mut parts: [Vec<Inst>; 16] = Default::default();
    let mut blocks: Vec<Inst> = vec![];
    let mut functions: Vec<Inst> = vec![];
    let label = |i: u32| Inst { op: oi::OP_LABEL, args: vec![Arg::Res(i)] };
    let ret = Inst { op: oi::OP_RETURN, args: vec![] };
    let end = Inst { op: oi::OP_FUNCTION_END, args: vec![] };
    let model = layout::of_class(r, Class::MemoryModel);
    for (k, op) in pair.iter().enumerate() {
        let mut first = None;
        // the ids of the two kinds have nothing in common, or everything
        let base = if shared { 0 } else { (k as u32) << 24 };
        for i in 0..n as u32 {
            let x = different(r, *op, base + i);
            let cl = layout::class(&x);
            if *first.get_or_insert(cl) != cl {
                continue;
            }
            match cl {
                Class::MemoryModel => {}
                Class::Function => functions.extend([x, end.clone()]),
                Class::FunctionEnd => functions.extend([gen::inst(r, oi::OP_FUNCTION, 0), x]),
                Class::Label => blocks.extend([x, ret.clone()]),
                Class::Merge => blocks.extend([label(base + i), x, ret.clone()]),
                Class::Branch => blocks.extend([label(base + i), x]),
                cl => parts[cl as usize].push(x),
            }
        }
    }
    let mut v = vec![];
    for cl in [Class::Capability, Class::Extension, Class::ExtInstImport] {
        v.append(&mut parts[cl as usize]);
    }
    v.push(model);
    for cl in [Class::EntryPoint, Class::ExecutionMode, Class::Debug, Class::Annotation, Class::Global] {
        v.append(&mut parts[cl as usize]);
    }
    v.extend(functions);
    let (params, code) = (std::mem::take(&mut parts[Class::FunctionParameter as usize]), std::mem::take(&mut parts[Class::Code as usize]));
    if params.len() + code.len() + blocks.len() > 0 {
        v.push(gen::inst(r, oi::OP_FUNCTION, 0));
        v.extend(params);
        if code.len() + blocks.len() > 0 {
            v.push(label(0xFFFF_FF00));
            v.extend(code);
            v.push(ret);
            v.extend(blocks);
        }
        v.push(end);
    }
    v
}
fn c19_pairs(c: &mut Ctx) -> Res {
    let ops = plain_ops();
    let k = ops.len();
    let n = if c.thorough() { 1_000 } else { 500 };
    let pair = [ops[c.idx as usize % k], ops[(c.idx as usize / k + c.idx as usize) % k]];
    let shared = c.r.chance(1, 4);
    let a = to_bytes(&encode_module(&Header::from_gen(0, 0), &pair_of(&mut c.r, pair, n, shared)), false);
    let b = to_bytes(&encode_module(&Header::from_gen(0, 0), &pair_of(&mut c.r, pair, n * FACTOR, shared)), false);
    proportional(c, &format!("{} and {}", OPS[pair[0]].name, OPS[pair[1]].name), &a, &b, &[])
}
/// One very long list or string operand of each kind of instruction
fn c19_lists(c: &mut Ctx) -> Res {
    let ops: Vec<usize> = plain_ops().into_iter().filter(|o| OPS[*o].kinds.iter().any(|k| matches!(k, Kind::Many(_) | Kind::Str | Kind::Opt(Kind::Str)))).collect();
    let op = ops[c.idx as usize % ops.len()];
    // what looks for an element in the rest of its list is found out only when it is not there
    let distinct = c.idx as usize / ops.len() % 2 == 0;
    let mut make = |n: usize| {
        let mut args = vec![];
        for k in OPS[op].kinds {
            match k {
                Kind::Many(k) => {
                    let per = if let Kind::Two(..) = **k { 2 } else { 1 };
                    for i in 0..n / per {
                        let at = args.len();
                        gen::arg(&mut c.r, k, &mut args, 0);
                        for x in &mut args[at..] {
                            match *x {
                                Arg::Id(ref mut y) | Arg::Num(ref mut y) if distinct => *y = (i as u32 + 1000) * 3,
                                _ => {}
                            }
                        }
                    }
                }
                Kind::Str | Kind::Opt(Kind::Str) => {
                    let has_list = OPS[op].kinds.iter().any(|k| matches!(k, Kind::Many(_)));
                    let len = if has_list { 5 } else { 4 * n };
                    args.push(Arg::Str(gen::string_len(&mut c.r, len)));
                }
                k => loop {
                    let at = args.len();
                    gen::arg(&mut c.r, k, &mut args, 0);
                    if args.len() > at {
                        break;
                    }
                },
            }
        }
        let x = Inst { op, args };
        let cl = layout::class(&x);
        let v = framed(&mut c.r, cl, vec![x]);
        to_bytes(&encode_module(&Header::from_gen(0, 0), &v), false)
    };
    let a = make(1_500);
    let b = make(60_000);
    proportional(c, &format!("one long {}", OPS[op].name), &a, &b, &[])
}
/// Inputs and functions that are refused only at the end
fn c19_refused(c: &mut Ctx) -> Res {
    let shape = c.idx as usize % 9;
    let names = [
        "cut inside the last instruction",
        "an unknown opcode at the end",
        "a string without end at the end",
        "an unbound set at the end",
        "a line of blocks back to its start",
        "a line of blocks to a missing one",
        "a line of blocks with a label twice",
        "a line of blocks without end",
        "selections in a row and a stray branch",
    ];
    let n = if c.thorough() { 8_000 } else { 4_000 };
    let make = |c: &mut Ctx, n: usize| {
        let mut v = vec![layout::of_class(&mut c.r, Class::MemoryModel)];
        if shape < 4 {
            for i in 0..n {
                v.push(Inst { op: oi::OP_NAME, args: vec![Arg::Id(i as u32), Arg::Str(format!("n{}", i))] });
            }
            let mut w = encode_module(&Header::from_gen(0, 0), &v);
            match shape {
                0 => w.extend([4 << 16 | 5, 1]),
                1 => w.extend([1 << 16 | 999]),
                2 => w.extend([3 << 16 | 5, 1, 0x41414141]),
                _ => w.extend([6 << 16 | 12, 1, 2, 3, 13, 5]),
            }
            return to_bytes(&w, false);
        }
        let k = n as u32;
        let b = |id: u32, merge: Mg, term: Term| B { id, code: vec![], merge, term };
        let mut bs: Vec<B> = if shape == 8 {
            (0..k / 2)
                .flat_map(|i| {
                    let (h, a, j) = (i * 2, i * 2 + 1, i * 2 + 2);
                    vec![b(h, Mg::Sel(j, cfgm::no_hint(cfgm::SEL_MASK)), Term::Cond(a, j, None)), b(a, Mg::None, Term::Br(j))]
                })
                .chain(std::iter::once(b(k / 2 * 2, Mg::None, Term::Cond(1, 2, None))))
                .collect()
        } else {
            (0..k).map(|i| b(i, Mg::None, Term::Br(i + 1))).collect()
        };
        let last = bs.len() - 1;
        match shape {
            4 => bs[last].term = Term::Br(0),
            6 => {
                bs[last].term = Term::Ret;
                bs[last].id = 1;
                bs[last - 1].term = Term::Ret;
            }
            7 => bs[last].term = Term::Br(last as u32),
            _ => {}
        }
        v.push(gen::inst(&mut c.r, oi::OP_FUNCTION, 0));
        for x in &bs {
            v.extend(cfgm::insts_of(x));
        }
        v.push(Inst { op: oi::OP_FUNCTION_END, args: vec![] });
        to_bytes(&encode_module(&Header::from_gen(0, 0), &v), false)
    };
    let a = make(c, n);
    let b = make(c, n * FACTOR);
    proportional(c, names[shape], &a, &b, &[])
}
fn plain() -> bool {
    std::env::var_os("MF_PLAIN").is_some()
}
fn proportional(c: &mut Ctx, name: &str, a: &[u8], b: &[u8], sets: &[SetSpec]) -> Res {
    c.seen(mix(hash_bytes(name.as_bytes()) ^ c.idx));
    let mut slow: Option<String> = None;
    let mut s = time_bytes(a, sets);
    s = best(s, time_bytes(a, sets));
    let mut l = time_bytes(b, sets);
    for round in 0..6 {
        slow = None;
        for (n, x) in &l.stages {
            let y = s.stages.iter().find(|y| y.0 == *n).map(|y| y.1).ok_or_else(|| format!("{}: the small input did not get to {}", name, n))?;
            c.eval();
            let per_l = *x as f64 / l.words as f64;
            let per_s = (y as f64 / s.words as f64).max(FLOOR);
            // unoptimised code is some ten times slower; only the growth counts there
            let ceiling = if plain() { 50.0 * CEILING } else { CEILING };
            if round == 0 {
                let k = format!("max picoseconds per word, {}", n);
                let e = c.counters.entry(k).or_insert(0);
                *e = (*e).max((per_l * 1000.0) as u64);
                let k = format!("max growth of the cost per word in percent, {}", n);
                let e = c.counters.entry(k).or_insert(0);
                *e = (*e).max((per_l / per_s * 100.0) as u64);
            }
            if per_l > SLACK * per_s || per_l > ceiling {
                slow = Some(format!(
                    "{}: {} takes {:.1} ns per word for {} words but {:.1} ns per word for {} words",
                    name, n, per_l, l.words, per_s, s.words
                ));
            }
        }
        if slow.is_none() {
            break;
        }
        // the machine may have been busy: measure again and keep the best of each
        s = best(s, time_bytes(a, sets));
        l = best(l, time_bytes(b, sets));
    }
    if let Some(e) = slow {
        return Err(e);
    }
    if l.stages.len() != s.stages.len() {
        return Err(format!("{}: the long input did not get as far as the short one", name));
    }
    c.count("long inputs timed", 1);
    c.count("words timed", l.words as u64);
    c.sample(40, || format!("{}: {} words: {:?} ns; {} words: {:?} ns", name, s.words, s.stages, l.words, l.stages));
    Ok(())
}
pub static C19: &[Family] = &[
    fam("long", SHAPES as u64, 4 * SHAPES as u64, c19_long),
    fam("refused", 9, 36, c19_refused),
    fam("lists", 32, 96, c19_lists),
    fam("kinds", 196, 392, c19_kinds),
    fam("pairs", 98 * 50, 98 * 98, c19_pairs),
];

// ---------------------------------------------------------------- C20

fn readable_code(r: &mut Rng, binder: &mut gen::Binder, n: usize) -> Vec<Inst> {
    let mut v = vec![];
    while v.len() < n {
        if r.chance(1, 6) {
            v.extend(binder.ext(r));
            continue;
        }
        let i = layout::of_class(r, Class::Code);
        if OPS[i.op].num >= 0 && i.op != oi::OP_EXT_INST {
            v.push(i);
        }
    }
    v
}
/// Instructions of the sections before the functions
fn preamble(r: &mut Rng, binder: &mut gen::Binder, max: usize) -> Vec<Inst> {
    let mut v = vec![];
    for cl in &layout::ALL_CLASSES[..9] {
        match cl {
            Class::ExtInstImport => {
                for _ in 0..r.range(1, 3) {
                    v.extend(binder.import(r));
                }
            }
            Class::MemoryModel => v.push(layout::of_class(r, *cl)),
            _ => {
                for _ in 0..r.below(max + 1) {
                    let i = layout::of_class(r, *cl);
                    if OPS[i.op].num >= 0 {
                        v.push(i);
                    }
                }
            }
        }
    }
    v
}
fn c20_on(c: &mut Ctx, functions: &[cfgm::Structured], max: usize) -> Res {
    let mut sets = gen::sets(&mut c.r);
    if sets.is_empty() {
        sets.push(ext::glsl());
    }
    let mut binder = gen::Binder::new(&sets);
    let mut v = preamble(&mut c.r, &mut binder, max);
    let decls = c.r.below(3);
    for _ in 0..decls {
        v.push(gen::inst(&mut c.r, oi::OP_FUNCTION, 0));
        for _ in 0..c.r.below(3) {
            v.push(gen::inst(&mut c.r, oi::OP_FUNCTION_PARAMETER, 0));
        }
        v.push(Inst { op: oi::OP_FUNCTION_END, args: vec![] });
    }
    let mut bodies: Vec<Vec<B>> = vec![];
    let mut heads = vec![];
    let mut twins = 0;
    for (k, f) in functions.iter().enumerate() {
        let mut bs = f.blocks.clone();
        // the same body, header or parameters as the function before
        let twin = k > 0 && functions[k - 1].blocks == f.blocks;
        if twin && c.r.chance(2, 3) {
            bs = bodies[k - 1].clone();
            twins += 1;
        } else {
            for b in &mut bs {
                let n = if c.r.chance(1, 40) { c.r.below(40) } else { c.r.below(4) };
                b.code = readable_code(&mut c.r, &mut binder, n);
            }
        }
        let at = v.len();
        let before: Option<(usize, usize)> = heads.last().copied();
        match before {
            Some((a, _)) if c.r.chance(if twin { 2 } else { 1 }, 3) => v.push(v[a].clone()),
            _ => v.push(gen::inst(&mut c.r, oi::OP_FUNCTION, 0)),
        }
        match before {
            Some((a, b)) if c.r.chance(1, 4) => {
                let p = v[a + 1..b].to_vec();
                v.extend(p);
            }
            _ => {
                for _ in 0..c.r.below(3) {
                    v.push(gen::inst(&mut c.r, oi::OP_FUNCTION_PARAMETER, 0));
                }
            }
        }
        heads.push((at, v.len()));
        for b in &bs {
            v.extend(cfgm::insts_of(b));
        }
        v.push(Inst { op: oi::OP_FUNCTION_END, args: vec![] });
        bodies.push(bs);
    }
    c.count("functions with the body of the one before", twins);
    let h = gen::header(&mut c.r);
    let be = c.r.chance(1, 3);
    let bytes = to_bytes(&encode_module(&h, &v), be);
    c.eval();
    c.seen_bytes(&bytes);
    let (m, _) = read::read(&bytes, &sets);
    let m = m.map_err(|e| format!("module of structured functions not read: {:?}; bytes {}", e, hex(&bytes)))?;
    let text = m.to_string();
    let want = dis_module(&h, &v);
    if text != want {
        return Err(format!("disassembly of the module differs {}", diff(&text, &want)));
    }
    let l = validate(m).map_err(|e| format!("module of structured functions not accepted: {:?}; {}", e, short(&layout::names(&v), 600)))?;
    let back = layout::flatten(&l);
    if back != v {
        return Err(format!("the logical module does not hold what was encoded: {}", read::first_diff(&back, &v)));
    }
    if l.function_declarations.len() != decls || l.function_definitions.len() != functions.len() {
        return Err(format!(
            "{} declarations and {} definitions instead of {} and {}",
            l.function_declarations.len(),
            l.function_definitions.len(),
            decls,
            functions.len()
        ));
    }
    for (k, d) in l.function_definitions.into_iter().enumerate() {
        let f = &functions[k];
        let bs = &bodies[k];
        let mut head = vec![];
        layout::flatten_def(&d, &mut head);
        let (a, b) = heads[k];
        if head[..b - a] != v[a..b] {
            return Err(format!("function {} has another header: {}", k, read::first_diff(&head[..b - a], &v[a..b])));
        }
        let ch = find_control_flow(d.clone()).map_err(|e| format!("function {} refused with {:?}: {}", k, e, cfgm::describe(bs)))?;
        let mut got: Vec<Ch> = vec![];
        cfgm::norm(&ch, &mut got)?;
        if got != f.want {
            let (mut a, mut b) = (String::new(), String::new());
            cfgm::chain_text(&got, 0, &mut a);
            cfgm::chain_text(&f.want, 0, &mut b);
            return Err(format!("structure of function {} differs {}; blocks {}", k, diff(&a, &b), cfgm::describe(bs)));
        }
        let map: HashMap<u32, &B> = bs.iter().map(|b| (b.id, b)).collect();
        let mut t = String::new();
        cfgm::function_text(&map, &f.want, 0, &mut t);
        let p = ControlFlowFunctionPrinter(&d, &ch).to_string();
        if p != t {
            return Err(format!("printed function {} {}; blocks {}", k, diff(&p, &t), cfgm::describe(bs)));
        }
        c.count("functions followed from bytes to text", 1);
        c.count("blocks followed from bytes to text", bs.len() as u64);
        c.count("printed lines compared", t.lines().count() as u64);
    }
    c.count("instructions followed from bytes to the logical module", v.len() as u64);
    c.sample(4, || short(&layout::names(&v), 500));
    Ok(())
}
fn c20_random(c: &mut Ctx) -> Res {
    let n = match c.r.below(10) {
        0 => 0,
        1..=4 => 1,
        5..=7 => c.r.range(2, 4),
        _ => c.r.range(2, 12),
    };
    let mut fs: Vec<cfgm::Structured> = vec![];
    for _ in 0..n {
        let (b, d) = cfgm::size(&mut c.r);
        let mut m = cfgm::Maker::new(&mut c.r);
        m.budget = b.min(if n > 3 { 12 } else { 50 });
        m.max_depth = d;
        m.code = 0;
        fs.push(m.function());
    }
    c20_on(c, &fs, 4)
}
/// Functions that use the same block ids
fn c20_same_ids(c: &mut Ctx) -> Res {
    let n = c.r.range(2, 5);
    let mut fs: Vec<cfgm::Structured> = vec![];
    let keep = c.r.clone();
    for k in 0..n {
        let mut r = keep.clone();
        let mut m = cfgm::Maker::new(if k % 2 == 0 { &mut r } else { &mut c.r });
        m.set_ids(0, 0);
        m.budget = 14;
        m.max_depth = 3;
        m.code = 0;
        fs.push(m.function());
    }
    c20_on(c, &fs, 2)
}
/// The same function several times, with the same or another header or code
fn c20_twins(c: &mut Ctx) -> Res {
    let mut fs: Vec<cfgm::Structured> = vec![];
    for _ in 0..c.r.range(1, 3) {
        let mut m = cfgm::Maker::new(&mut c.r);
        m.budget = 8;
        m.max_depth = 3;
        m.code = 0;
        let f = m.function();
        for _ in 0..c.r.range(1, 3) {
            fs.push(f.clone());
        }
    }
    c20_on(c, &fs, 2)
}
fn c20_shaped(c: &mut Ctx) -> Res {
    let n = c.r.range(1, 3);
    let mut fs = vec![];
    for _ in 0..n {
        let k = c.r.below(8);
        let len = c.r.range(1, if k < 3 { 150 } else { 60 });
        fs.push(cfgm::shaped(&mut c.r, k, len));
    }
    c20_on(c, &fs, 1)
}
/// Long modules: many functions, long sections
fn c20_long(c: &mut Ctx) -> Res {
    let n = c.r.range(50, 400);
    let fs: Vec<cfgm::Structured> = (0..n)
        .map(|_| {
            let mut m = cfgm::Maker::new(&mut c.r);
            m.budget = 8;
            m.max_depth = 2;
            m.code = 0;
            m.function()
        })
        .collect();
    c20_on(c, &fs, 300)
}
/// Few functions, one of them with thousands of blocks or with a block of thousands of instructions
fn c20_large(c: &mut Ctx) -> Res {
    let mut fs = vec![];
    for _ in 0..c.r.range(1, 4) {
        fs.push(cfgm::structured(&mut c.r, 6, 3));
    }
    let at = c.r.below(fs.len());
    if c.r.chance(1, 2) {
        fs[at] = cfgm::large(&mut c.r, 5_000);
    } else {
        let n = *c.r.pick(&[260usize, 1_100, 4_200, 17_000, 40_000]);
        let stock: Vec<Inst> = (0..30).map(|_| layout::of_class(&mut c.r, Class::Code)).filter(|i| i.op != oi::OP_EXT_INST).collect();
        let k = c.r.below(fs[at].blocks.len());
        for _ in 0..n {
            let i = c.r.pick(&stock).clone();
            fs[at].blocks[k].code.push(i);
        }
    }
    c20_on(c, &fs, 3)
}
pub static C20: &[Family] = &[
    fam("same_ids", 16_000, 200_000, c20_same_ids),
    fam("twins", 24_000, 400_000, c20_twins),
    fam("random", 80_000, 1_500_000, c20_random),
    fam("shaped", 4_800, 60_000, c20_shaped),
    fam("long", 160, 2_000, c20_long),
    fam("large", 480, 6_000, c20_large),
];
