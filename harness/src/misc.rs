//! C11 (no crash), C13 (no history), C14 (memory), C15 (equality and clones)
use crate::alloc::{measure, Use};
use crate::cfgm::{self, B, Ch, Mg, Term};
use crate::ext::{self, SetSpec};
use crate::frame::*;
use crate::gen;
use crate::layout;
use crate::read;
use crate::rng::{hash_bytes, mix, Rng};
use crate::spec::*;
use crate::spec_gen::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::raw::{Core, RawModule};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn stack() -> usize { std::env::var("MF_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(2 << 20) }

// ---------------------------------------------------------------- the whole library on one input

#[derive(Default, Debug)]
pub struct Seen {
    read: u64,
    refused: u64,
    logical: u64,
    layout_refused: u64,
    flow: u64,
    flow_refused: u64,
    printed: u64,
}
impl Seen {
    fn add(&mut self, o: &Seen) {
        self.read += o.read;
        self.refused += o.refused;
        self.logical += o.logical;
        self.layout_refused += o.layout_refused;
        self.flow += o.flow;
        self.flow_refused += o.flow_refused;
        self.printed += o.printed;
    }
    fn note(&self, c: &mut Ctx) {
        c.count("inputs read", self.read);
        c.count("inputs refused by the reader", self.refused);
        c.count("modules accepted as logical", self.logical);
        c.count("modules refused by validation", self.layout_refused);
        c.count("functions with recovered control flow", self.flow);
        c.count("functions refused by recovery", self.flow_refused);
        c.count("bytes printed", self.printed);
    }
}
/// Read, print, validate, recover, print; everything is dropped inside
fn exercise(bytes: &[u8], sets: &[SetSpec], s: &mut Seen) {
    let (r, _) = read::read(bytes, sets);
    match r {
        Err(e) => {
            s.refused += 1;
            s.printed += (format!("{}", e).len() + format!("{:?}", e).len()) as u64;
        }
        Ok(m) => {
            s.read += 1;
            s.printed += m.to_string().len() as u64;
            exercise_module(m, s);
        }
    }
}
fn exercise_module(m: RawModule, s: &mut Seen) {
    match validate(m) {
        Err(e) => {
            s.layout_refused += 1;
            s.printed += format!("{:?}", e).len() as u64;
        }
        Ok(l) => {
            s.logical += 1;
            for d in l.function_definitions {
                exercise_def(d, s);
            }
        }
    }
}
fn exercise_def(d: FunctionDefinition, s: &mut Seen) {
    match find_control_flow(d.clone()) {
        Err(e) => {
            s.flow_refused += 1;
            s.printed += format!("{:?}", e).len() as u64;
        }
        Ok(ch) => {
            s.flow += 1;
            s.printed += ch.to_string().len() as u64;
            if d.blocks.len() <= 3000 {
                s.printed += ControlFlowFunctionPrinter(&d, &ch).to_string().len() as u64;
            }
        }
    }
}

// ---------------------------------------------------------------- C11

/// Inputs in exact-size heap blocks, so that a sanitizer sees any read past the end
fn exact(v: Vec<u8>) -> Box<[u8]> {
    v.into_boxed_slice()
}
fn hostile(r: &mut Rng, sets: &[SetSpec]) -> Vec<u8> {
    let n = r.below(14);
    match r.below(10) {
        0 => (0..r.below(80)).map(|_| r.u32() as u8).collect(),
        1 => {
            // a header and noise that looks like instructions
            let mut w = gen::header(r).words().to_vec();
            for _ in 0..r.below(12) {
                let len = r.below(6) as u32;
                w.push(len << 16 | r.below(260) as u32);
                for _ in 0..r.below(6) {
                    w.push(gen::num(r));
                }
            }
            to_bytes(&w, r.chance(1, 2))
        }
        2 => {
            // a structured function, then bent
            let s = cfgm::structured(r, 8, 4);
            function_bytes(r, &s.blocks)
        }
        3 => {
            let v: Vec<Inst> = layout::legal(r, 4).into_iter().filter(|i| OPS[i.op].num >= 0).collect();
            let h = gen::header(r);
            to_bytes(&encode_module(&h, &v), r.chance(1, 4))
        }
        4..=7 => {
            let mut w = read::some_words(r, n, sets);
            for _ in 0..r.range(1, 3) {
                gen::damage(r, &mut w);
            }
            to_bytes(&w, r.chance(1, 3))
        }
        _ => {
            let w = read::some_words(r, n, sets);
            let mut b = to_bytes(&w, r.chance(1, 3));
            gen::damage_bytes(r, &mut b);
            b
        }
    }
}
fn function_bytes(r: &mut Rng, bs: &[B]) -> Vec<u8> {
    let mut v = vec![Inst { op: oi::OP_EXT_INST_IMPORT, args: vec![Arg::Res(1), Arg::Str(ext::GLSL.into())] }, layout::of_class(r, Class::MemoryModel)];
    v.push(cfgm::head(r, bs));
    for b in bs {
        v.extend(cfgm::insts_of(b));
    }
    v.push(Inst { op: oi::OP_FUNCTION_END, args: vec![] });
    v.retain(|i| OPS[i.op].num >= 0);
    for i in &mut v {
        if i.op == oi::OP_EXT_INST {
            i.args[2] = Arg::Id(1);
            i.args[3] = Arg::Ext(ExtVal { tag: 0, inst: 13, words: vec![5] });
        }
    }
    let h = gen::header(r);
    to_bytes(&encode_module(&h, &v), r.chance(1, 4))
}
fn c11_bytes(c: &mut Ctx) -> Res {
    let sets = gen::sets(&mut c.r);
    let batch = if cfg!(miri) { 3 } else { 24 };
    let inputs: Vec<Box<[u8]>> = (0..batch).map(|_| exact(hostile(&mut c.r, &sets))).collect();
    for b in &inputs {
        c.eval();
        c.seen_bytes(b);
    }
    let cur = AtomicU64::new(0);
    let r = on_stack(stack(), || {
        let mut s = Seen::default();
        for (i, b) in inputs.iter().enumerate() {
            cur.store(i as u64, Relaxed);
            exercise(b, &sets, &mut s);
        }
        s
    });
    match r {
        Ok(s) => {
            s.note(c);
            c.sample(3, || hex(&inputs[0]));
            Ok(())
        }
        Err(e) => Err(format!("{} on input {}", e, hex(&inputs[cur.load(Relaxed) as usize]))),
    }
}
/// Every truncation and every value of single bytes and words of small modules
fn c11_near(c: &mut Ctx) -> Res {
    let sets = gen::sets(&mut c.r);
    let w = read::some_words(&mut c.r, 5, &sets);
    let mut w = w;
    w.truncate(60);
    let b = to_bytes(&w, c.r.chance(1, 3));
    let mut inputs: Vec<Box<[u8]>> = (0..=b.len()).map(|n| exact(b[..n].to_vec())).collect();
    for i in 0..b.len() {
        for x in [0, 1, 0x7F, 0x80, 0xFF, b[i].wrapping_add(1), b[i].wrapping_sub(1)] {
            let mut d = b.clone();
            d[i] = x;
            inputs.push(exact(d));
        }
    }
    for _ in 0..inputs.len() {
        c.eval();
    }
    c.seen_bytes(&b);
    let cur = AtomicU64::new(0);
    let r = on_stack(stack(), || {
        let mut s = Seen::default();
        for (i, b) in inputs.iter().enumerate() {
            cur.store(i as u64, Relaxed);
            exercise(b, &sets, &mut s);
        }
        s
    });
    match r {
        Ok(s) => {
            s.note(c);
            Ok(())
        }
        Err(e) => Err(format!("{} on input {}", e, hex(&inputs[cur.load(Relaxed) as usize]))),
    }
}
/// Texts of any length made of wide characters, whole and cut inside a character
fn c11_strings(c: &mut Ctx) -> Res {
    let ops: Vec<usize> = gen::readable().into_iter().filter(|o| OPS[*o].kinds.iter().any(|k| matches!(k, Kind::Str | Kind::Opt(Kind::Str)))).collect();
    let mut w = gen::header(&mut c.r).words().to_vec();
    let big = c.r.chance(1, 3);
    let hot = &crate::harvest::dict().hot_counts;
    for _ in 0..c.r.range(1, 4) {
        let len = match c.r.below(4) {
            0 => c.r.below(300),
            1 => (1usize << c.r.range(3, 18)) - 3 + c.r.below(7),
            2 if !hot.is_empty() => (*c.r.pick(hot)).min(200_000) + c.r.below(6),
            _ => {
                let k = c.r.range(4, 16);
                c.r.below(1 << k)
            }
        }
        .min(250_000);
        // one width all through, so that every position meets every part of a character
        let ch = *c.r.pick(&['é', 'ß', '日', '\u{ffff}', '😀', '\u{10ffff}', '"', '\\', 'a']);
        let mut s: String = "ab\"c"[..c.r.below(5)].to_string();
        while s.len() < len {
            s.push(ch);
        }
        let mut b = s.into_bytes();
        if c.r.chance(1, 4) {
            let k = c.r.below(b.len() + 1);
            b.truncate(k);
        }
        if c.r.chance(1, 8) && !b.is_empty() {
            let k = c.r.below(b.len());
            b[k] = *c.r.pick(&[0x80u8, 0xFF, 0xC0, 0xE0, 0xF0, 0xED, 0x41]);
        }
        let op = *c.r.pick(&ops);
        let x = gen::inst(&mut c.r, op, 3);
        let mut t = vec![];
        for a in &x.args {
            match a {
                Arg::Str(_) => encode_str(&b, &mut t),
                a => encode_args(std::slice::from_ref(a), &mut t),
            }
        }
        if t.len() < 0xFFFF {
            w.push((t.len() as u32 + 1) << 16 | OPS[op].num as u32);
            w.extend(t);
        }
    }
    let sets = gen::sets(&mut c.r);
    let bytes = exact(to_bytes(&w, big));
    one(c, &bytes, &sets)
}
/// Instruction lists that no reader produced
fn c11_lists(c: &mut Ctx) -> Res {
    let mut lists = vec![];
    for _ in 0..16 {
        let v = match c.r.below(3) {
            0 => layout::legal(&mut c.r, 5),
            1 => {
                let n = c.r.below(20);
                (0..n)
                    .map(|_| {
                        let k = *c.r.pick(&layout::ALL_CLASSES);
                        layout::of_class(&mut c.r, k)
                    })
                    .collect()
            }
            _ => {
                let mut v = layout::legal(&mut c.r, 4);
                let n = c.r.below(v.len() + 1);
                v.truncate(n);
                v
            }
        };
        c.eval();
        c.seen(layout::content(&v));
        lists.push(v);
    }
    let cur = AtomicU64::new(0);
    let r = on_stack(stack(), || {
        let mut s = Seen::default();
        for (i, v) in lists.iter().enumerate() {
            cur.store(i as u64, Relaxed);
            let m = layout::raw(build_all(v));
            s.printed += m.to_string().len() as u64;
            exercise_module(m, &mut s);
        }
        s
    });
    match r {
        Ok(s) => {
            s.note(c);
            Ok(())
        }
        Err(e) => Err(format!("{} on {}", e, layout::names(&lists[cur.load(Relaxed) as usize]))),
    }
}
fn run_graphs(c: &mut Ctx, gs: &[Vec<B>]) -> Res {
    for g in gs {
        c.eval();
        c.seen(cfgm::graph_hash(g));
    }
    let seed = c.r.next();
    let cur = AtomicU64::new(0);
    let r = on_stack(stack(), || {
        let mut s = Seen::default();
        let mut r = Rng::new(seed);
        for (i, g) in gs.iter().enumerate() {
            cur.store(i as u64, Relaxed);
            let d = cfgm::to_def(&mut r, g);
            exercise_def(d, &mut s);
        }
        s
    });
    match r {
        Ok(s) => {
            s.note(c);
            Ok(())
        }
        Err(e) => Err(format!("{} on blocks {}", e, cfgm::describe(&gs[cur.load(Relaxed) as usize]))),
    }
}
fn c11_graphs(c: &mut Ctx) -> Res {
    let mut gs = vec![];
    for _ in 0..16 {
        gs.push(match c.r.below(4) {
            0 | 1 => cfgm::random_graph(&mut c.r),
            2 => {
                let s = cfgm::structured(&mut c.r, 14, 5);
                cfgm::bent(&mut c.r, &s)
            }
            _ => wild(&mut c.r),
        });
    }
    run_graphs(c, &gs)
}
/// Larger graphs with few rules: cycles, self references, dangling and repeated labels
fn wild(r: &mut Rng) -> Vec<B> {
    let n = *r.pick(&[1usize, 2, 5, 20, 60, 200]);
    let spread = n as u32 + r.below(2) as u32 * 3;
    let near = r.chance(2, 3);
    let dup = r.chance(1, 8);
    let style = r.below(4);
    (0..n)
        .map(|i| {
            let to = |r: &mut Rng| {
                if near && r.chance(4, 5) {
                    (i as u32 + 1 + r.below(2) as u32).min(spread)
                } else {
                    r.below(spread as usize + 1) as u32
                }
            };
            let term = match if style == 0 { r.below(3) } else { style - 1 } {
                0 => Term::Br(to(r)),
                1 => Term::Cond(to(r), to(r), None),
                _ => {
                    if i + 1 == n || r.chance(1, 20) {
                        Term::Ret
                    } else {
                        Term::Br(to(r))
                    }
                }
            };
            let merge = match r.below(4) {
                0 => Mg::Loop(to(r), to(r), cfgm::no_hint(cfgm::LOOP_MASK)),
                1 => Mg::Sel(to(r), cfgm::no_hint(cfgm::SEL_MASK)),
                _ => Mg::None,
            };
            B { id: if dup && r.chance(1, 20) { 0 } else { i as u32 }, code: vec![], merge, term }
        })
        .collect()
}
/// All graphs of two blocks, and cycles of every small length through every construct
fn c11_cycles(c: &mut Ctx) -> Res {
    let mut gs = vec![];
    let n = 1 + (c.idx % 12) as usize;
    // ring of plain blocks entered after a tail, closed at each point
    for back in 0..n {
        for kind in 0..6u32 {
            let bs: Vec<B> = (0..n)
                .map(|i| {
                    let to = if i + 1 == n { back } else { i + 1 } as u32;
                    let (merge, term) = match kind {
                        0 => (Mg::None, Term::Br(to)),
                        1 => (Mg::Sel(n as u32, cfgm::no_hint(cfgm::SEL_MASK)), Term::Cond(to, n as u32, None)),
                        2 => (Mg::Loop(n as u32, to, cfgm::no_hint(cfgm::LOOP_MASK)), Term::Br(to)),
                        3 => (Mg::Sel(to, cfgm::no_hint(cfgm::SEL_MASK)), Term::Cond(to, to, None)),
                        4 => (Mg::Loop(to, to, cfgm::no_hint(cfgm::LOOP_MASK)), Term::Br(to)),
                        _ => {
                            if i == 0 {
                                (Mg::Loop(n as u32, to, cfgm::no_hint(cfgm::LOOP_MASK)), Term::Br(to))
                            } else {
                                (Mg::None, Term::Cond(to, n as u32, None))
                            }
                        }
                    };
                    B { id: i as u32, code: vec![], merge, term }
                })
                .chain(std::iter::once(B { id: n as u32, code: vec![], merge: Mg::None, term: if c.r.chance(1, 2) { Term::Ret } else { Term::Br(0) } }))
                .collect();
            gs.push(bs);
        }
    }
    run_graphs(c, &gs)
}
/// Nesting up to the limit of the specification
fn c11_nest(c: &mut Ctx) -> Res {
    let kind = 3 + (c.idx % 5) as usize;
    let n = match (c.idx / 5) % 3 {
        0 => 1023,
        1 => c.r.range(900, 1023),
        _ => c.r.range(1, 500),
    };
    let s = cfgm::shaped(&mut c.r, kind, n);
    c.count("deeply nested functions", 1);
    let mut g = s.blocks;
    if c.idx >= 15 && c.r.chance(1, 2) {
        // break it far inside
        let i = c.r.below(g.len());
        g[i].term = match c.r.below(3) {
            0 => Term::Ret,
            1 => Term::Br(u32::MAX - 7),
            _ => Term::Br(g[0].id),
        };
    }
    run_graphs(c, &[g])
}
/// Long everything
fn c11_long(c: &mut Ctx) -> Res {
    let scale = if c.thorough() { 4 } else { 1 };
    let k = (c.idx % 14) as usize;
    let n = 60_000 * scale;
    c.count("very long inputs", 1);
    match k {
        0 => {
            // a straight line of blocks; any way of walking it must not use the stack
            let s = cfgm::shaped(&mut c.r, 0, n);
            run_graphs(c, &[s.blocks])
        }
        1 | 2 => {
            let s = cfgm::shaped(&mut c.r, k, n / 2);
            run_graphs(c, &[s.blocks])
        }
        3 => {
            // a very long cycle
            let mut s = cfgm::shaped(&mut c.r, 0, n);
            let e = s.blocks[0].id;
            for b in &mut s.blocks {
                if b.term == Term::Ret {
                    b.term = Term::Br(e);
                }
            }
            run_graphs(c, &[s.blocks])
        }
        4 => {
            // long body of a loop and long arms of a selection
            let mut bs = vec![];
            let m = n as u32;
            let chain = |from: u32, to: u32, end: u32, bs: &mut Vec<B>| {
                for i in from..to {
                    bs.push(B { id: i, code: vec![], merge: Mg::None, term: Term::Br(if i + 1 == to { end } else { i + 1 }) });
                }
            };
            bs.push(B { id: 0, code: vec![], merge: Mg::Loop(3, 1, cfgm::no_hint(cfgm::LOOP_MASK)), term: Term::Br(10) });
            chain(10, 10 + m / 3, 0, &mut bs);
            bs.push(B { id: 3, code: vec![], merge: Mg::Sel(4, cfgm::no_hint(cfgm::SEL_MASK)), term: Term::Cond(m, 2 * m, None) });
            chain(m, m + m / 3, 4, &mut bs);
            chain(2 * m, 2 * m + m / 3, 4, &mut bs);
            bs.push(B { id: 4, code: vec![], merge: Mg::None, term: Term::Ret });
            run_graphs(c, &[bs])
        }
        5..=11 => {
            // one kind of instruction very often, through the reader
            let classes = [Class::Capability, Class::Debug, Class::Annotation, Class::Global, Class::Function, Class::FunctionParameter, Class::Code];
            let cl = classes[k - 5];
            let mut v = vec![];
            let unit = match cl {
                Class::Function => vec![layout::of_class(&mut c.r, Class::Function), Inst { op: oi::OP_FUNCTION_END, args: vec![] }],
                Class::Code => vec![gen::inst(&mut c.r, oi::OP_NOP, 0), gen::inst(&mut c.r, oi::OP_IADD, 0)],
                _ => vec![layout::of_class(&mut c.r, cl)],
            };
            let mut unit: Vec<Inst> = unit.into_iter().filter(|i| OPS[i.op].num >= 0).collect();
            if unit.is_empty() {
                unit.push(gen::inst(&mut c.r, oi::OP_NAME, 0));
            }
            if cl > Class::MemoryModel {
                v.push(layout::of_class(&mut c.r, Class::MemoryModel));
            }
            if cl == Class::FunctionParameter || cl == Class::Code {
                v.push(layout::of_class(&mut c.r, Class::Function));
            }
            if cl == Class::Code {
                v.push(layout::of_class(&mut c.r, Class::Label));
            }
            for _ in 0..n {
                v.extend(unit.iter().cloned());
            }
            if c.r.chance(2, 3) {
                if cl == Class::Capability {
                    v.push(layout::of_class(&mut c.r, Class::MemoryModel));
                }
                if cl == Class::Code {
                    v.push(Inst { op: oi::OP_RETURN, args: vec![] });
                }
                if cl == Class::FunctionParameter || cl == Class::Code {
                    v.push(Inst { op: oi::OP_FUNCTION_END, args: vec![] });
                }
            }
            let bytes = exact(to_bytes(&encode_module(&gen::header(&mut c.r), &v), false));
            one(c, &bytes, &[])
        }
        12 => {
            // the longest instruction there can be: operands, string
            let mut w = gen::header(&mut c.r).words().to_vec();
            let op = *c.r.pick(&[30u32, 44, 32, 33, 65, 245]);
            w.push(0xFFFF << 16 | op);
            for _ in 0..0xFFFE {
                w.push(c.r.u32());
            }
            w.push(0xFFFF << 16 | 5);
            w.push(4);
            let fill = 0xFFFD * 4 - c.r.range(0, 5);
            let s = gen::string_len(&mut c.r, fill);
            let mut t = vec![];
            encode_str(s.as_bytes(), &mut t);
            t.truncate(0xFFFD);
            t.resize(0xFFFD, 0x6161_6161);
            w.extend(t);
            let bytes = exact(to_bytes(&w, c.r.chance(1, 2)));
            one(c, &bytes, &[])
        }
        _ => {
            // very many imports and uses
            let sets = [ext::glsl(), SetSpec { name: "test.a", tag: 1 }];
            let mut w = gen::header(&mut c.r).words().to_vec();
            for i in 0..(n / 10) as u32 {
                let name = if i % 2 == 0 { ext::GLSL } else { "test.a" };
                let mut t = vec![0, i];
                encode_str(name.as_bytes(), &mut t);
                t[0] = (t.len() as u32) << 16 | 11;
                w.extend(t);
                w.extend([6 << 16 | 12, 1, 2, c.r.below(i as usize + 1) as u32 & !1, 13, 7]);
            }
            let bytes = exact(to_bytes(&w, false));
            one(c, &bytes, &sets)
        }
    }
}
fn one(c: &mut Ctx, bytes: &[u8], sets: &[SetSpec]) -> Res {
    c.eval();
    c.seen_bytes(bytes);
    let r = on_stack(stack(), || {
        let mut s = Seen::default();
        exercise(bytes, sets, &mut s);
        s
    });
    match r {
        Ok(s) => {
            s.note(c);
            Ok(())
        }
        Err(e) => Err(format!("{} on input {}", e, hex(bytes))),
    }
}
pub static C11: &[Family] = &[
    fam("cycles", 240, 2_400, c11_cycles),
    fam("graphs", 40_000, 2_000_000, c11_graphs),
    fam("nest", 30, 600, c11_nest),
    fam("long", 28, 280, c11_long),
    fam("bytes", 60_000, 3_000_000, c11_bytes),
    fam("near", 1_600, 80_000, c11_near),
    fam("lists", 15_000, 750_000, c11_lists),
    fam("strings", 20_000, 600_000, c11_strings),
];

// ---------------------------------------------------------------- C13

/// Everything the library says about an input
pub fn fingerprint(bytes: &[u8], sets: &[SetSpec]) -> String {
    let mut s = String::new();
    let (r, calls) = read::read(bytes, sets);
    s.push_str(&format!("{:?}\n", calls));
    match r {
        Err(e) => s.push_str(&format!("{:?} {}\n", e, e)),
        Ok(m) => {
            s.push_str(&m.to_string());
            s.push_str(&format!("{:?} {:?}\n", lift_header(&m), lift_all(&m.instructions)));
            match validate(m.clone()) {
                Err(e) => s.push_str(&format!("{:?}\n", e)),
                Ok(l) => {
                    s.push_str(&format!("{:?}\n", l));
                    for d in &l.function_definitions {
                        match find_control_flow(d.clone()) {
                            Err(e) => s.push_str(&format!("{:?}\n", e)),
                            Ok(ch) => {
                                s.push_str(&format!("{:?}\n{}\n{}\n", ch, ch, ControlFlowFunctionPrinter(d, &ch)));
                            }
                        }
                    }
                }
            }
        }
    }
    s
}
pub type Input = (Vec<u8>, Vec<SetSpec>);
/// Inputs that could disturb each other: the same ids bound to different sets, the same names
/// for different sets, equal prefixes, equal lengths, failures after imports
pub fn related(r: &mut Rng, n: usize) -> Vec<Input> {
    let mut v: Vec<Input> = vec![];
    let pool: Vec<Vec<SetSpec>> = vec![
        vec![ext::glsl()],
        vec![],
        vec![SetSpec { name: "test.a", tag: 1 }, SetSpec { name: "test.b", tag: 2 }],
        vec![SetSpec { name: "test.a", tag: 2 }, SetSpec { name: "test.b", tag: 1 }],
        vec![SetSpec { name: ext::GLSL, tag: 3 }, ext::glsl()],
        vec![ext::glsl(), SetSpec { name: "test.a", tag: 4 }],
    ];
    while v.len() < n {
        let sets = r.pick(&pool).clone();
        match r.below(11) {
            8 if !v.is_empty() => {
                // the same words in another order: equal length, equal sums
                let (b, s) = r.pick(&v).clone();
                v.push((permuted(r, &b), s));
            }
            9 | 10 => {
                let st = cfgm::structured(r, 8, 4);
                let seed = r.next();
                for g in siblings(r, &st) {
                    // the same surroundings each time
                    let b = function_bytes(&mut Rng::new(seed), &g);
                    v.push((b, vec![ext::glsl()]));
                }
            }
            0 | 1 => {
                // few words, the interesting kind
                let mut w = Header::from_gen(0, r.below(3) as u32 + 5).words().to_vec();
                for _ in 0..r.below(3) {
                    let name = *r.pick(&[ext::GLSL, "test.a", "test.b", "other"]);
                    let mut t = vec![0, 1 + r.below(2) as u32];
                    encode_str(name.as_bytes(), &mut t);
                    t[0] = (t.len() as u32) << 16 | 11;
                    w.extend(t);
                }
                for _ in 0..r.below(4) {
                    w.extend([6 << 16 | 12, 9, 8, 1 + r.below(2) as u32, *r.pick(&[13, 14, 1, 9, 99]), r.below(4) as u32]);
                }
                v.push((to_bytes(&w, r.chance(1, 4)), sets));
            }
            2 => {
                let b = hostile(r, &sets);
                v.push((b, sets));
            }
            3 => {
                let s = cfgm::structured(r, 8, 4);
                let b = function_bytes(r, &s.blocks);
                v.push((b, vec![ext::glsl()]));
            }
            4 => {
                let s = cfgm::structured(r, 8, 4);
                let g = cfgm::bent(r, &s);
                let b = function_bytes(r, &g);
                v.push((b, vec![ext::glsl()]));
            }
            5 if !v.is_empty() => {
                // a neighbour: same bytes with other sets, or one word changed
                let (mut b, s) = r.pick(&v).clone();
                if r.chance(1, 2) {
                    v.push((b, sets));
                } else {
                    if b.len() > 24 {
                        let i = r.range(20, b.len() - 1);
                        b[i] = b[i].wrapping_add(1);
                    }
                    v.push((b, s));
                }
            }
            6 if !v.is_empty() => {
                let (mut b, s) = r.pick(&v).clone();
                let k = r.below(b.len() + 1);
                b.truncate(k);
                v.push((b, s));
            }
            _ => {
                let n = r.below(8);
                let w = read::some_words(r, n, &sets);
                v.push((to_bytes(&w, r.chance(1, 4)), sets));
            }
        }
    }
    v.truncate(n);
    v
}
/// Two instructions, two operand words or two bytes change places
fn permuted(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    if b.len() < 32 {
        return b;
    }
    let big = b[0] == 7;
    match r.below(3) {
        0 => {
            let mut starts = vec![];
            let mut p = 20;
            while p + 4 <= b.len() {
                starts.push(p);
                let wc = if big { u16::from_be_bytes([b[p], b[p + 1]]) } else { u16::from_le_bytes([b[p + 2], b[p + 3]]) };
                if wc == 0 {
                    break;
                }
                p += 4 * wc as usize;
            }
            starts.push(p);
            if starts.len() > 2 && p == b.len() {
                let k = r.below(starts.len() - 2);
                let m = starts[k + 1] - starts[k];
                b[starts[k]..starts[k + 2]].rotate_left(m);
            }
        }
        1 => {
            let n = b.len() / 4 - 5;
            let (i, j) = (5 + r.below(n), 5 + r.below(n));
            for k in 0..4 {
                b.swap(4 * i + k, 4 * j + k);
            }
        }
        _ => {
            let (i, j) = (r.range(20, b.len() - 1), r.range(20, b.len() - 1));
            b.swap(i, j);
        }
    }
    b
}
/// Functions that agree in most things: ids, number of blocks, entry, the blocks themselves
fn siblings(r: &mut Rng, s: &cfgm::Structured) -> Vec<Vec<B>> {
    let mut v = vec![s.blocks.clone()];
    for _ in 0..r.range(1, 3) {
        let mut g = r.pick(&v).clone();
        let n = g.len();
        let (i, j) = (r.below(n), r.below(n));
        match r.below(7) {
            0 => {
                let t = g[i].code.clone();
                g[i].code = std::mem::replace(&mut g[j].code, t);
            }
            1 if n > 2 => {
                let (i, j) = (r.range(1, n - 1), r.range(1, n - 1));
                g.swap(i, j);
            }
            2 => {
                let t = g[i].term.clone();
                g[i].term = std::mem::replace(&mut g[j].term, t);
            }
            3 => {
                let (a, b) = (g[i].id, g[j].id);
                g[i].id = b;
                g[j].id = a;
            }
            4 => {
                for b in &mut g {
                    if let Term::Cond(t, f, w) = &mut b.term {
                        if r.chance(1, 2) {
                            std::mem::swap(t, f);
                        }
                        if let Some(w) = w {
                            *w = (w.1, w.0);
                        }
                    }
                }
            }
            5 => {
                for b in &mut g {
                    match &mut b.merge {
                        Mg::Sel(_, h) | Mg::Loop(_, _, h) => {
                            if let Arg::Mask(m, _, _) = h {
                                *h = gen::mask_arg(r, *m, None);
                            }
                        }
                        Mg::None => {}
                    }
                }
            }
            _ => g[i].term = Term::Ret,
        }
        v.push(g);
    }
    v
}
fn differs(what: &str, a: &str, b: &str, i: &Input) -> String {
    format!("{}: {}; sets {:?}; input {}", what, diff(a, b), i.1.iter().map(|s| (s.name, s.tag)).collect::<Vec<_>>(), hex(&i.0))
}
fn c13_order(c: &mut Ctx) -> Res {
    let ins = related(&mut c.r, 12);
    let first: Vec<String> = ins.iter().map(|i| fingerprint(&i.0, &i.1)).collect();
    for (i, f) in ins.iter().zip(&first) {
        c.eval();
        c.seen_bytes(&i.0);
        c.seen(hash_bytes(f.as_bytes()));
    }
    // backwards, twice each, shuffled, and in one reused buffer
    for k in (0..ins.len()).rev() {
        for _ in 0..2 {
            c.eval();
            let g = fingerprint(&ins[k].0, &ins[k].1);
            if g != first[k] {
                return Err(differs("a later call answers differently", &g, &first[k], &ins[k]));
            }
        }
    }
    let mut buf: Vec<u8> = Vec::with_capacity(ins.iter().map(|i| i.0.len()).max().unwrap_or(0));
    for _ in 0..24 {
        let k = c.r.below(ins.len());
        buf.clear();
        buf.extend_from_slice(&ins[k].0);
        c.eval();
        let g = fingerprint(&buf, &ins[k].1);
        if g != first[k] {
            return Err(differs("a reused buffer answers differently", &g, &first[k], &ins[k]));
        }
        if buf != ins[k].0 {
            return Err(format!("the input was modified: {}", hex(&buf)));
        }
    }
    c.count("repeated calls compared", (ins.len() * 2 + 24) as u64);
    c.sample(3, || short(&first[0], 300));
    Ok(())
}
pub fn c13_input(seed: u64, idx: u64) -> Input {
    let mut r = Rng::new(mix(seed ^ mix(idx / 10 ^ 0xC13)));
    related(&mut r, 10).swap_remove((idx % 10) as usize)
}
/// A fresh process, in which nothing came before, says the same
fn c13_fresh(c: &mut Ctx) -> Res {
    if cfg!(miri) {
        return Ok(());
    }
    let k = 40;
    let from = c.idx * k;
    let mine: Vec<u64> = (from..from + k)
        .map(|i| {
            let (b, s) = c13_input(c.seed, i);
            hash_bytes(fingerprint(&b, &s).as_bytes())
        })
        .collect();
    // each process sees the inputs in its own order, the first of them without any history
    for turn in 0..4u64 {
        let lead = c.r.below(k as usize) as u64;
        let mut cmd = std::process::Command::new(std::env::current_exe().map_err(|e| format!("harness: {}", e))?);
        cmd.args(["fp", &c.seed.to_string(), &from.to_string(), &k.to_string(), &lead.to_string(), &turn.to_string()]);
        // nor does it matter where and as what the process runs
        match turn {
            1 => {
                cmd.env_clear().current_dir("/").stdin(std::process::Stdio::null());
            }
            2 | 3 => {
                let v = ["1", "0", "", "true", "off", "80", "20", "en_US.UTF-8", "tr_TR", "debug", "-1", "no", "always"];
                for name in [
                    "COLUMNS", "LINES", "LANG", "LC_ALL", "LC_NUMERIC", "TZ", "TERM", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "DEBUG", "VERBOSE", "TRACE", "LOG", "TEST",
                    "SPIRV", "HOME", "USER", "MAGMAFLOW", "MAGMAFLOW_DEBUG", "SPIRV_DEBUG", "RUST_LOG", "CI", "TMPDIR", "QUIET", "STRICT", "INDENT",
                ] {
                    cmd.env(name, c.r.pick(&v));
                }
                // whatever name the library may look for stands in its source
                for s in crate::harvest::dict().strings.iter() {
                    let plain = !s.is_empty() && s.len() < 60 && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_');
                    if plain && !["LD_PRELOAD", "LD_LIBRARY_PATH", "PATH"].contains(&s.as_str()) {
                        cmd.env(s, c.r.pick(&v));
                    }
                }
            }
            _ => {}
        }
        let out = cmd
            .output()
            .map_err(|e| format!("harness: {}", e))?;
        let t = String::from_utf8_lossy(&out.stdout);
        let mut n = 0;
        for l in t.lines() {
            let mut p = l.split(' ');
            let (i, h): (u64, u64) = match (p.next().and_then(|x| x.parse().ok()), p.next().and_then(|x| x.parse().ok())) {
                (Some(a), Some(b)) => (a, b),
                _ => continue,
            };
            n += 1;
            c.eval();
            c.seen(h);
            if mine[(i - from) as usize] != h {
                let inp = c13_input(c.seed, i);
                return Err(format!(
                    "a fresh process (call {} of it) answers differently; sets {:?}; input {}; here {}",
                    n,
                    inp.1.iter().map(|s| (s.name, s.tag)).collect::<Vec<_>>(),
                    hex(&inp.0),
                    short(&fingerprint(&inp.0, &inp.1), 300)
                ));
            }
        }
        if n != k {
            return Err(format!("a fresh process ended after {} of {} calls: {}", n, k, short(&String::from_utf8_lossy(&out.stderr), 300)));
        }
    }
    c.count("answers of fresh processes compared", 4 * k);
    Ok(())
}
/// The child side of c13_fresh
pub fn fp(args: &[String]) {
    let p = |i: usize| args[i].parse::<u64>().unwrap();
    let (seed, from, k, lead, turn) = (p(2), p(3), p(4), p(5), p(6));
    let mut order: Vec<u64> = (0..k).collect();
    Rng::new(mix(seed ^ turn ^ from)).shuffle(&mut order);
    order.retain(|x| *x != lead);
    order.insert(0, lead);
    for o in order {
        let (b, s) = c13_input(seed, from + o);
        println!("{} {}", from + o, hash_bytes(fingerprint(&b, &s).as_bytes()));
    }
}
/// The same bytes in other places, and other bytes in the same place
fn c13_placed(c: &mut Ctx) -> Res {
    let ins = related(&mut c.r, if cfg!(miri) { 2 } else { 6 });
    let first: Vec<String> = ins.iter().map(|i| fingerprint(&i.0, &i.1)).collect();
    let longest = ins.iter().map(|i| i.0.len()).max().unwrap_or(0);
    let mut buf = vec![0u8; longest + 64];
    for round in 0..12 {
        let k = c.r.below(ins.len());
        let (b, sets) = (&ins[k].0, &ins[k].1);
        // one buffer for all of them, now and then from an odd address, with anything after the end
        let at = if round % 3 == 0 { c.r.below(16) } else { 0 };
        let fill = *c.r.pick(&[0u8, 0xFF, 0x41]);
        for x in buf.iter_mut() {
            *x = fill;
        }
        buf[at..at + b.len()].copy_from_slice(b);
        c.eval();
        c.seen_bytes(b);
        let g = fingerprint(&buf[at..at + b.len()], sets);
        if g != first[k] {
            return Err(differs("the same bytes in another place give a different answer", &g, &first[k], &ins[k]));
        }
        if round % 3 == 2 && b.len() > 20 {
            // the caller changes one byte of the buffer it read from
            let p = c.r.range(20, b.len() - 1);
            let mut d = b.to_vec();
            d[p] ^= 1 << c.r.below(8);
            buf[at + p] = d[p];
            let x = fingerprint(&d, sets);
            let g = fingerprint(&buf[at..at + b.len()], sets);
            if g != x {
                return Err(differs("a buffer that was changed in place gives a different answer", &g, &x, &ins[k]));
            }
            buf[at + p] = b[p];
            let g = fingerprint(&buf[at..at + b.len()], sets);
            if g != first[k] {
                return Err(differs("a buffer that was changed back gives a different answer", &g, &first[k], &ins[k]));
            }
        }
    }
    c.count("answers about reused buffers compared", 12);
    Ok(())
}
fn c13_threads(c: &mut Ctx) -> Res {
    let nt = if cfg!(miri) { 3 } else { 8 };
    let ins = related(&mut c.r, if cfg!(miri) { 3 } else { 12 });
    let first: Vec<String> = ins.iter().map(|i| fingerprint(&i.0, &i.1)).collect();
    for i in &ins {
        c.seen_bytes(&i.0);
    }
    let barrier = std::sync::Barrier::new(nt);
    let rounds = if cfg!(miri) { 1 } else { 3 };
    let seed = c.r.next();
    let res: Vec<Result<Res, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let (ins, first, barrier) = (&ins, &first, &barrier);
                // threads differ in what can be told apart: name, room, age
                let mut b = std::thread::Builder::new();
                if t % 2 == 1 {
                    b = b.name(format!("{}{}", ["worker-", "pool ", "tokio-runtime-worker", "main", ""][(seed as usize / 8 + t) % 5], if seed % 3 == 0 { String::new() } else { t.to_string() }));
                }
                if t % 4 > 1 {
                    b = b.stack_size(64 << 20);
                }
                b.spawn_scoped(s, move || {
                    let mut r = Rng::new(mix(seed ^ t as u64));
                    barrier.wait();
                    catch(|| {
                        for round in 0..rounds {
                            for k in 0..ins.len() {
                                // all threads on the same input at once, or each on its own
                                let k = if round % 2 == 0 { k } else { r.below(ins.len()) };
                                let g = fingerprint(&ins[k].0, &ins[k].1);
                                if g != first[k] {
                                    return Err(differs("another thread gets a different answer", &g, &first[k], &ins[k]));
                                }
                            }
                        }
                        Ok(())
                    })
                })
                .expect("harness: thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    for _ in 0..nt * rounds * ins.len() {
        c.eval();
    }
    c.count("concurrent calls compared", (nt * rounds * ins.len()) as u64);
    for r in res {
        r??;
    }
    Ok(())
}
/// A long history of one process with ever new modules in between
fn c13_history(c: &mut Ctx) -> Res {
    let watch = related(&mut c.r, 4);
    let first: Vec<String> = watch.iter().map(|i| fingerprint(&i.0, &i.1)).collect();
    let n = if c.thorough() { 3_000 } else { 1_000 };
    for k in 0..n {
        let sets = gen::sets(&mut c.r);
        let b = hostile(&mut c.r, &sets);
        let mut s = Seen::default();
        exercise(&b, &sets, &mut s);
        if k % 50 == 49 {
            for (w, f) in watch.iter().zip(&first) {
                c.eval();
                let g = fingerprint(&w.0, &w.1);
                if g != *f {
                    return Err(differs(&format!("after {} other calls the answer differs", k + 1), &g, f, w));
                }
            }
        }
    }
    c.count("calls in between", n);
    for f in &first {
        c.seen(hash_bytes(f.as_bytes()));
    }
    Ok(())
}
/// Values that are printed, validated or recovered more than once, and interleaved
fn c13_values(c: &mut Ctx) -> Res {
    let sets = [ext::glsl(), SetSpec { name: "test.a", tag: 1 }];
    let mut ms = vec![];
    for _ in 0..4 {
        let n = c.r.below(10);
        let w = read::some_words(&mut c.r, n, &sets);
        if let (Ok(m), _) = read::read(&to_bytes(&w, false), &sets) {
            ms.push(m);
        }
    }
    let s = cfgm::structured(&mut c.r, 10, 4);
    let d = cfgm::to_def(&mut c.r, &s.blocks);
    let t0: Vec<String> = ms.iter().map(|m| m.to_string()).collect();
    let v0: Vec<String> = ms.iter().map(|m| format!("{:?}", validate(m.clone()))).collect();
    let f0 = format!("{:?}", find_control_flow(d.clone()));
    for _ in 0..20 {
        c.eval();
        match c.r.below(3) {
            0 if !ms.is_empty() => {
                let k = c.r.below(ms.len());
                let t = ms[k].to_string();
                if t != t0[k] {
                    return Err(format!("a module prints differently the next time: {}", diff(&t, &t0[k])));
                }
            }
            1 if !ms.is_empty() => {
                let k = c.r.below(ms.len());
                let t = format!("{:?}", validate(ms[k].clone()));
                if t != v0[k] {
                    return Err(format!("a module validates differently the next time: {}", diff(&t, &v0[k])));
                }
            }
            _ => {
                let t = format!("{:?}", find_control_flow(d.clone()));
                if t != f0 {
                    return Err(format!("control flow differs the next time: {}", diff(&t, &f0)));
                }
            }
        }
    }
    c.seen(hash_bytes(f0.as_bytes()));
    Ok(())
}
/// A graph with several faults at once: which one is reported must not vary
fn faulty(r: &mut Rng) -> Vec<B> {
    let mut bs = match r.below(4) {
        0 => cfgm::random_graph(r),
        1 => wild(r),
        2 => {
            let s = cfgm::structured(r, 12, 4);
            cfgm::bent(r, &s)
        }
        _ => cfgm::structured(r, 12, 4).blocks,
    };
    bs.truncate(60);
    for _ in 0..r.range(1, 6) {
        let n = bs.len();
        let i = r.below(n);
        match r.below(6) {
            0 | 1 => bs[i].id = bs[r.below(n)].id,
            2 => {
                // again, elsewhere
                let b = bs[i].clone();
                let at = r.range(0, n);
                bs.insert(at, b);
            }
            3 => bs[i].term = Term::Br(gen::num(r)),
            4 => bs[i].term = Term::Cond(gen::num(r), gen::num(r), None),
            _ => {
                let (a, b) = (bs[r.below(n)].id, bs[r.below(n)].id);
                bs[i].merge = Mg::None;
                bs[i].term = Term::Cond(a, b, None);
            }
        }
    }
    bs
}
/// Inputs with several faults, each tried many times in a row
fn c13_faulty(c: &mut Ctx) -> Res {
    let (graphs, times) = if cfg!(miri) { (2, 4) } else { (6, 16) };
    for _ in 0..graphs {
        let g = faulty(&mut c.r);
        let d = cfgm::to_def(&mut c.r, &g);
        let say = |d: &FunctionDefinition| match find_control_flow(d.clone()) {
            Err(e) => format!("{:?}", e),
            Ok(ch) => format!("{:?}\n{}\n{}", ch, ch, ControlFlowFunctionPrinter(d, &ch)),
        };
        let first = say(&d);
        c.seen(mix(cfgm::graph_hash(&g) ^ hash_bytes(first.as_bytes())));
        c.count("functions with several faults recovered again and again", 1);
        for _ in 0..times {
            c.eval();
            let t = say(&d);
            if t != first {
                return Err(format!("control flow of the same function differs the next time: {}; blocks {}", diff(&t, &first), cfgm::describe(&g)));
            }
        }
    }
    for _ in 0..graphs {
        let sets = gen::sets(&mut c.r);
        let n = c.r.range(1, 10);
        let mut w = read::some_words(&mut c.r, n, &sets);
        for _ in 0..c.r.range(2, 6) {
            gen::damage(&mut c.r, &mut w);
        }
        let i: Input = (to_bytes(&w, c.r.chance(1, 4)), sets);
        let first = fingerprint(&i.0, &i.1);
        c.seen(hash_bytes(first.as_bytes()));
        for _ in 0..times / 4 {
            c.eval();
            let t = fingerprint(&i.0, &i.1);
            if t != first {
                return Err(differs("the same call answers differently", &t, &first, &i));
            }
        }
    }
    // an instruction list with several misplaced instructions
    let mut v = layout::legal(&mut c.r, 4);
    for _ in 0..c.r.range(2, 5) {
        let k = *c.r.pick(&layout::ALL_CLASSES);
        let i = layout::of_class(&mut c.r, k);
        let at = c.r.range(0, v.len());
        v.insert(at, i);
    }
    let m = layout::raw(build_all(&v));
    let first = format!("{:?}", validate(m.clone()));
    for _ in 0..times / 2 {
        c.eval();
        let t = format!("{:?}", validate(m.clone()));
        if t != first {
            return Err(format!("validation differs the next time: {}; {}", diff(&t, &first), layout::names(&v)));
        }
    }
    Ok(())
}
/// Ids 1, 2, … in the order of the blocks
fn renumbered(bs: &[B]) -> Vec<B> {
    let no: std::collections::HashMap<u32, u32> = bs.iter().enumerate().map(|(n, b)| (b.id, n as u32 + 1)).collect();
    let f = |x: &mut u32| {
        if let Some(n) = no.get(x) {
            *x = *n
        }
    };
    let mut bs = bs.to_vec();
    for b in &mut bs {
        f(&mut b.id);
        match b.term {
            Term::Br(ref mut t) => f(t),
            Term::Cond(ref mut t, ref mut e, _) => {
                f(t);
                f(e);
            }
            Term::Ret => {}
        }
        match b.merge {
            Mg::Sel(ref mut m, _) => f(m),
            Mg::Loop(ref mut m, ref mut k, _) => {
                f(m);
                f(k);
            }
            Mg::None => {}
        }
    }
    bs
}
/// One call, then as many others as a small counter can tell apart (or a few more or less), then
/// a call that has something in common with the first
fn c13_epochs(c: &mut Ctx) -> Res {
    let sets = vec![SetSpec { name: "test.a", tag: 1 }, SetSpec { name: "test.b", tag: 2 }, ext::glsl()];
    type Ask = Box<dyn Fn() -> String>;
    fn reading(b: Vec<u8>, sets: Vec<SetSpec>) -> Ask {
        Box::new(move || format!("{:?}", read::read(&b, &sets)))
    }
    fn flow(d: FunctionDefinition, print: bool) -> Ask {
        let had = if print { find_control_flow(d.clone()).ok() } else { None };
        Box::new(move || match had {
            Some(ref ch) => format!("{}{}", ch, ControlFlowFunctionPrinter(&d, ch)),
            None => format!("{:?}", find_control_flow(d.clone())),
        })
    }
    fn module(m: RawModule, print: bool) -> Ask {
        Box::new(move || if print { m.to_string() } else { format!("{:?}", validate(m.clone())) })
    }
    let imp = |id: u32, name: &str| {
        let mut w = vec![0, id];
        crate::spec::encode_str(name.as_bytes(), &mut w);
        w[0] = (w.len() as u32) << 16 | 11;
        w
    };
    let bytes = |parts: &[Vec<u32>]| {
        let mut w = vec![0x0723_0203, 0x0001_0000, 0, 9, 0];
        for p in parts {
            w.extend(p);
        }
        to_bytes(&w, false)
    };
    let (id, other) = (gen::id(&mut c.r), gen::id(&mut c.r));
    let kind = c.idx % 5;
    let (asks, filler): (Vec<Ask>, Ask) = match kind {
        0 => {
            let used = vec![6 << 16 | 12, 1, 2, id, 1, 7];
            let mut v = vec![bytes(&[imp(id, "test.a")]), bytes(&[used.clone()]), bytes(&[imp(id, "test.b"), used.clone()]), bytes(&[imp(id, "test.a"), used])];
            v.extend(related(&mut c.r, 2).into_iter().map(|x| x.0));
            let f = match c.r.below(4) {
                0 => bytes(&[]),
                1 => bytes(&[imp(other ^ 1 | 1 << 20, "test.b")]),
                2 => vec![1, 2, 3, 4],
                _ => bytes(&[vec![1 << 16]]),
            };
            (v.into_iter().map(|b| reading(b, sets.clone())).collect(), reading(f, sets.clone()))
        }
        1 | 2 => {
            let mut v: Vec<Ask> = vec![];
            for _ in 0..4 {
                let l = layout::legal(&mut c.r, 4);
                v.push(module(layout::raw(build_all(&l)), kind == 1));
            }
            let l = layout::legal(&mut c.r, 0);
            (v, module(layout::raw(build_all(&l)), kind == 1))
        }
        _ => {
            let mut v: Vec<Ask> = vec![];
            for n in 0..4 {
                let s = cfgm::structured(&mut c.r, 6, 3);
                let g = if n == 3 { cfgm::bent(&mut c.r, &s) } else { s.blocks };
                let d = cfgm::to_def(&mut c.r, &renumbered(&g));
                v.push(flow(d, kind == 3));
            }
            let one = if c.r.chance(1, 2) { 1 } else { 1 << 20 };
            let d = cfgm::to_def(&mut c.r, &[B { id: one, code: vec![], merge: Mg::None, term: Term::Ret }]);
            (v, flow(d, kind == 3))
        }
    };
    let first: Vec<String> = asks.iter().map(|a| a()).collect();
    let period = if c.idx / 5 % 4 == 3 { 256 } else { 65_536usize };
    let mut calls = 0;
    for off in 0..5 {
        let a = c.r.below(asks.len());
        let b = c.r.below(asks.len());
        let (a, b) = if kind == 0 && off % 2 == 0 { (0, 1 + c.r.below(3)) } else { (a, b) };
        asks[a]();
        let n = period + off - 3;
        for _ in 0..n {
            filler();
        }
        calls += n + 2;
        c.eval();
        let t = asks[b]();
        if t != first[b] {
            return Err(format!("{} calls after another the answer differs: {}", n + 1, diff(&t, &first[b])));
        }
    }
    c.count("calls in between", calls as u64);
    c.seen(mix(hash_bytes(first.concat().as_bytes()) ^ c.idx));
    Ok(())
}
pub static C13: &[Family] = &[
    fam("epochs", 80, 800, c13_epochs),
    fam("faulty", 60_000, 3_000_000, c13_faulty),
    fam("order", 8_000, 300_000, c13_order),
    fam("values", 8_000, 200_000, c13_values),
    fam("placed", 4_000, 150_000, c13_placed),
    fam("threads", 800, 30_000, c13_threads),
    fam("nested", 1_600, 100_000, crate::nest::nested),
    fam("panicked", 3_000, 100_000, crate::nest::panicked),
    fam("deep", 48, 1_000, crate::nest::deep_threads),
    fam("history", 32, 1_600, c13_history),
    fam("fresh", 80, 2_000, c13_fresh),
];

// ---------------------------------------------------------------- C14

static KEEPERS: AtomicU64 = AtomicU64::new(0);
/// Largest use per byte of input that is taken for proportional, and the constant
const PER_PEAK: usize = 100;
const PER_TOTAL: usize = 250;
const BASE: usize = 512 << 10;
fn limit(c: &mut Ctx, what: &str, len: usize, u: Use) -> Res {
    c.eval();
    let key = format!("max peak per byte, {}", what);
    let v = (u.peak.saturating_sub(300_000) / len.max(64)) as u64;
    let e = c.counters.entry(key).or_insert(0);
    *e = (*e).max(v);
    let key = format!("max total per byte, {}", what);
    let v = (u.total.saturating_sub(300_000) / len.max(64)) as u64;
    let e = c.counters.entry(key).or_insert(0);
    *e = (*e).max(v);
    c.count("bytes of input measured", len as u64);
    c.count("bytes allocated while measured", u.total as u64);
    if u.peak > PER_PEAK * len + BASE {
        return Err(format!("{} of {} bytes held {} bytes at once", what, len, u.peak));
    }
    if u.total > PER_TOTAL * len + BASE {
        return Err(format!("{} of {} bytes allocated {} bytes in all", what, len, u.total));
    }
    if u.biggest > PER_PEAK * len + BASE {
        return Err(format!("{} of {} bytes asked for {} bytes at once", what, len, u.biggest));
    }
    Ok(())
}
/// Nothing stays behind; what is set up once may
fn released(_c: &mut Ctx, what: &str, len: usize, f: &mut dyn FnMut()) -> Res {
    let (_, a) = measure(|| f());
    if a.kept > 0 {
        let (_, b) = measure(|| f());
        if b.kept > 0 {
            return Err(format!("{} of {} bytes leaves {} bytes allocated each time", what, len, b.kept));
        }
        if a.kept as usize > BASE || KEEPERS.fetch_add(1, Relaxed) > 40 {
            return Err(format!("{} of {} bytes leaves {} bytes allocated", what, len, a.kept));
        }
    }
    Ok(())
}
fn c14_input(c: &mut Ctx, bytes: &[u8], sets: &[SetSpec]) -> Res {
    c.seen_bytes(bytes);
    let n = bytes.len();
    let (r, u) = measure(|| {
        let log = ext::new_log();
        magmaflow::spv::raw::read_module(bytes, ext::instantiate(sets, &log))
    });
    limit(c, "reading", n, u)?;
    match r {
        Err(_) => {
            c.count("refused inputs measured", 1);
        }
        Ok(m) => {
            let (t, u) = measure(|| m.to_string());
            limit(c, "printing", n, u)?;
            if t.len() > 40 * n + 4096 {
                return Err(format!("the text of {} bytes has {} bytes", n, t.len()));
            }
            drop(t);
            let m2 = m.clone();
            let (l, u) = measure(move || validate(m2));
            limit(c, "validating", n, u)?;
            drop(l);
            released(c, "validating", n, &mut || drop(validate(m.clone())))?;
            released(c, "printing", n, &mut || drop(m.to_string()))?;
        }
    }
    released(c, "reading", n, &mut || {
        let log = ext::new_log();
        drop(magmaflow::spv::raw::read_module(bytes, ext::instantiate(sets, &log)));
    })?;
    Ok(())
}
fn c14_valid(c: &mut Ctx) -> Res {
    let sets = gen::sets(&mut c.r);
    let n = *c.r.pick(&[0, 1, 5, 40, 300]);
    let w = read::some_words(&mut c.r, n, &sets);
    let b = to_bytes(&w, c.r.chance(1, 4));
    c14_input(c, &b, &sets)
}
fn c14_hostile(c: &mut Ctx) -> Res {
    let sets = gen::sets(&mut c.r);
    let b = hostile(&mut c.r, &sets);
    c14_input(c, &b, &sets)
}
/// Small inputs that state huge numbers wherever a number can stand
fn c14_claims(c: &mut Ctx) -> Res {
    let sets = [ext::glsl(), SetSpec { name: "test.a", tag: 1 }];
    let big = *c.r.pick(&[u32::MAX, u32::MAX - 1, 0x7FFF_FFFF, 0x8000_0000, 0x3FFF_FFFF, 0x0FFF_FFFF, 0x0100_0000, 0x00FF_FFFF, 1 << 20]);
    let ops = gen::readable();
    let op = ops[c.idx as usize % ops.len()];
    // bound
    let mut w = Header::from_gen(c.r.u32(), big).words().to_vec();
    let mut b = gen::Binder::new(&sets);
    let imp = b.import(&mut c.r).expect("harness: import");
    let mut v = vec![imp];
    if let Some(mut i) = b.inst(&mut c.r, op, 4) {
        // every number and id in it
        fn blow(a: &mut [Arg], big: u32) {
            for x in a {
                match x {
                    Arg::Res(n) | Arg::Id(n) | Arg::Num(n) => *n = big,
                    Arg::En(_, _, p) | Arg::Mask(_, _, p) => blow(p, big),
                    Arg::Ext(e) => e.words.iter_mut().for_each(|w| *w = big),
                    Arg::Str(_) => {}
                }
            }
        }
        let set = i.args.get(2).cloned();
        blow(&mut i.args, big);
        if op == oi::OP_EXT_INST {
            i.args[2] = set.unwrap();
        }
        v.push(i);
    }
    for i in &v {
        w.extend(encode_inst(i).expect("harness: encode"));
    }
    let be = c.r.chance(1, 2);
    let bytes = to_bytes(&w, be);
    c14_input(c, &bytes, &sets)?;
    // and the word count
    let at = w.len() - encode_inst(v.last().unwrap()).unwrap().len();
    let mut w2 = w.clone();
    w2[at] |= 0xFFFF_0000;
    c14_input(c, &to_bytes(&w2, be), &sets)?;
    // any one word
    for _ in 0..6 {
        let mut w2 = w.clone();
        let k = c.r.range(1, w2.len() - 1);
        w2[k] = big;
        c14_input(c, &to_bytes(&w2, be), &sets)?;
    }
    // the whole module cut somewhere
    let mut w2 = w;
    let k = c.r.range(5, w2.len());
    w2.truncate(k);
    c14_input(c, &to_bytes(&w2, be), &sets)
}
/// Long inputs: constants become visible
fn c14_long(c: &mut Ctx) -> Res {
    let sets = [ext::glsl(), SetSpec { name: "test.a", tag: 1 }];
    let ops = gen::readable();
    let op = ops[c.idx as usize % ops.len()];
    let mut b = gen::Binder::new(&sets);
    let mut v = vec![b.import(&mut c.r).expect("harness: import")];
    let max = if c.r.chance(1, 2) { 4 } else { 400 };
    let i = loop {
        if let Some(i) = b.inst(&mut c.r, op, max) {
            break i;
        }
    };
    if op == oi::OP_EXT_INST_IMPORT {
        for _ in 0..200 {
            v.extend(b.import(&mut c.r));
        }
    } else {
        let n = if max == 4 && c.r.chance(1, 8) { 40_000 } else { 3_000 };
        for _ in 0..n {
            v.push(i.clone());
        }
    }
    let h = gen::header(&mut c.r);
    let bytes = to_bytes(&encode_module(&h, &v), false);
    c14_input(c, &bytes, &sets)
}
/// A legal module of long sections, so that validation goes all the way
fn c14_logical(c: &mut Ctx) -> Res {
    let mut v: Vec<Inst> = vec![];
    for i in layout::legal(&mut c.r, 8) {
        let k = match layout::class(&i) {
            Class::MemoryModel | Class::Function | Class::FunctionEnd | Class::Label | Class::Merge | Class::Branch | Class::ExtInstImport => 1,
            _ => c.r.range(1, 30),
        };
        if OPS[i.op].num < 0 || i.op == oi::OP_EXT_INST || i.op == oi::OP_EXT_INST_IMPORT {
            continue;
        }
        for _ in 0..k {
            v.push(i.clone());
        }
    }
    let h = gen::header(&mut c.r);
    c14_input(c, &to_bytes(&encode_module(&h, &v), false), &[])
}
/// Very many instructions of each of two kinds, each where it belongs
fn c14_pairs(c: &mut Ctx) -> Res {
    let ops: Vec<usize> = gen::readable().into_iter().filter(|o| *o != oi::OP_EXT_INST && *o != oi::OP_EXT_INST_IMPORT).collect();
    let k = ops.len();
    let pair = [ops[c.idx as usize % k], ops[(c.idx as usize / k + c.idx as usize) % k]];
    let shared = c.r.chance(1, 2);
    let v = crate::more::pair_of(&mut c.r, pair, 3_000, shared);
    let h = gen::header(&mut c.r);
    c14_input(c, &to_bytes(&encode_module(&h, &v), false), &[])
}
/// Very many functions, blocks, parameters and instructions, spread in every proportion
fn c14_wide(c: &mut Ctx) -> Res {
    let some: Vec<Inst> = (0..8).map(|_| crate::more::readable_of(&mut c.r, Class::Code)).collect();
    let param = crate::more::readable_of(&mut c.r, Class::FunctionParameter);
    let mut v = vec![layout::of_class(&mut c.r, Class::MemoryModel)];
    let all = 20_000;
    let per: [usize; 3] = [*c.r.pick(&[0, 1, 7, 60, 500]), *c.r.pick(&[1, 2, 9, 80, 700]), *c.r.pick(&[0, 1, 6, 50, 400])];
    for _ in 0..if c.r.chance(1, 3) { c.r.below(6_000) } else { 0 } {
        v.extend([gen::inst(&mut c.r, oi::OP_FUNCTION, 0), Inst { op: oi::OP_FUNCTION_END, args: vec![] }]);
    }
    let mut id = 0;
    while v.len() < all {
        v.push(gen::inst(&mut c.r, oi::OP_FUNCTION, 0));
        for _ in 0..per[0] {
            v.push(param.clone());
        }
        for _ in 0..per[1] {
            id += 1;
            v.push(Inst { op: oi::OP_LABEL, args: vec![Arg::Res(id)] });
            for k in 0..per[2] {
                v.push(some[k % 8].clone());
            }
            v.push(Inst { op: oi::OP_RETURN, args: vec![] });
            if v.len() > all {
                break;
            }
        }
        v.push(Inst { op: oi::OP_FUNCTION_END, args: vec![] });
    }
    c.count("functions, blocks, parameters and code in wide modules", v.len() as u64);
    let h = gen::header(&mut c.r);
    c14_input(c, &to_bytes(&encode_module(&h, &v), false), &[])
}
fn words_of(bs: &[B]) -> usize {
    bs.iter().map(|b| cfgm::insts_of(b).iter().map(|i| encode_inst(i).map_or(1, |w| w.len())).sum::<usize>()).sum::<usize>() * 4
}
fn c14_flow_on(c: &mut Ctx, bs: &[B], structured: bool) -> Res {
    c.seen(cfgm::graph_hash(bs));
    let n = words_of(bs);
    let d = cfgm::to_def(&mut c.r, bs);
    let d2 = d.clone();
    let (r, u) = measure(move || find_control_flow(d2));
    // a block that both arms of a selection run through is unfolded (the known finding);
    // such graphs can only come from the bent ones
    if structured || matches!(&r, Ok(ch) if each_once(ch)) {
        limit(c, "recovering control flow", n, u)?;
    } else {
        c.eval();
    }
    if let Ok(ch) = r {
        if structured {
            let (t, u) = measure(|| ch.to_string());
            // every line is indented by its nesting
            limit(c, "printing control flow", n + t.len(), u)?;
            let big = t.len() > 400_000;
            drop(t);
            if big && !c.r.chance(1, 50) {
                drop(ch);
                return released(c, "recovering control flow", n, &mut || drop(find_control_flow(d.clone())));
            }
            let (t, u) = measure(|| ControlFlowFunctionPrinter(&d, &ch).to_string());
            limit(c, "printing a function", n + t.len(), u)?;
            drop(t);
            released(c, "printing control flow", n, &mut || drop(ch.to_string()))?;
            released(c, "printing a function", n, &mut || drop(ControlFlowFunctionPrinter(&d, &ch).to_string()))?;
        }
        drop(ch);
    }
    released(c, "recovering control flow", n, &mut || drop(find_control_flow(d.clone())))
}
fn each_once(ch: &ControlFlowChain) -> bool {
    fn ids(v: &[cfgm::Ch], out: &mut Vec<u32>) {
        for x in v {
            match x {
                Ch::Atom(b) => out.push(*b),
                Ch::Sel(h, a, b, _, _) => {
                    out.push(*h);
                    ids(a, out);
                    ids(b, out);
                }
                Ch::Loop(h, a, _, _) => {
                    out.push(*h);
                    ids(a, out);
                }
                _ => {}
            }
        }
    }
    let mut v = vec![];
    if cfgm::norm(ch, &mut v).is_err() {
        return false;
    }
    let mut o = vec![];
    ids(&v, &mut o);
    let n = o.len();
    o.sort();
    o.dedup();
    n == o.len()
}
/// Very many blocks one after the other
fn c14_rows(c: &mut Ctx) -> Res {
    let k = 1_500;
    let b = |id: u32, merge: Mg, term: Term| B { id, code: vec![], merge, term };
    let (hl, hs) = (cfgm::no_hint(cfgm::LOOP_MASK), cfgm::no_hint(cfgm::SEL_MASK));
    let mut bs: Vec<B> = vec![];
    let kinds = c.r.next();
    let mut id = 0;
    for i in 0..k {
        match if kinds & 1 == 1 { kinds >> (1 + i % 20) & 3 } else { kinds >> 1 & 3 } {
            0 | 1 => {
                bs.push(b(id, Mg::None, Term::Br(id + 1)));
                id += 1;
            }
            2 => {
                bs.push(b(id, Mg::Sel(id + 2, hs.clone()), Term::Cond(id + 1, id + 2, None)));
                bs.push(b(id + 1, Mg::None, Term::Br(id + 2)));
                id += 2;
            }
            _ => {
                bs.push(b(id, Mg::Loop(id + 3, id + 2, hl.clone()), Term::Br(id + 1)));
                bs.push(b(id + 1, Mg::None, Term::Cond(id + 2, id + 3, None)));
                bs.push(b(id + 2, Mg::None, Term::Br(id)));
                id += 3;
            }
        }
    }
    bs.push(b(id, Mg::None, Term::Ret));
    if c.r.chance(1, 2) {
        for x in &mut bs {
            x.code.push(crate::more::readable_of(&mut c.r, Class::Code));
        }
    }
    if c.r.chance(1, 2) {
        c.r.shuffle(&mut bs[1..]);
    }
    c14_flow_on(c, &bs, true)
}
fn c14_flow(c: &mut Ctx) -> Res {
    let s = match c.r.below(3) {
        0 => {
            let k = c.r.below(8);
            let n = if k < 3 && c.r.chance(1, 20) { 20_000 } else { *c.r.pick(&[1, 20, 200, 500]) };
            cfgm::shaped(&mut c.r, k, n)
        }
        _ => {
            let n = *c.r.pick(&[3, 12, 60, 400]);
            cfgm::structured(&mut c.r, n, 7)
        }
    };
    if c.r.chance(1, 4) {
        let g = cfgm::bent(&mut c.r, &s);
        return c14_flow_on(c, &g, false);
    }
    c14_flow_on(c, &s.blocks, true)
}
/// KNOWN: nested selections whose arms both run through the same block are unfolded
fn c14_shared(c: &mut Ctx) -> Res {
    let n = 14u32;
    let mut bs = vec![];
    for i in 0..n {
        // header i: both arms lead to the next header; all merge at the end of their parent
        bs.push(B { id: i, code: vec![], merge: Mg::Sel(100 + i, cfgm::no_hint(cfgm::SEL_MASK)), term: Term::Cond(i + 1, i + 1, None) });
        bs.push(B { id: 100 + i, code: vec![], merge: Mg::None, term: if i == 0 { Term::Ret } else { Term::Br(100 + i - 1) } });
    }
    bs.push(B { id: n, code: vec![], merge: Mg::None, term: Term::Br(100 + n - 1) });
    c.seen(cfgm::graph_hash(&bs));
    let len = words_of(&bs);
    let d = cfgm::to_def(&mut c.r, &bs);
    let (r, u) = measure(move || find_control_flow(d));
    c.eval();
    c.count("bytes held for the shared-arm function", u.peak as u64);
    drop(r);
    if u.peak > PER_PEAK * len + BASE {
        c.known.push(
            "shared-arms: recovering 14 nested selections whose two arms both start at the same next header (not the merge block) needs memory exponential in the nesting"
                .to_string(),
        );
    }
    Ok(())
}
pub static C14: &[Family] = &[
    fam("shared", 1, 1, c14_shared),
    fam("claims", 30_000, 1_500_000, c14_claims),
    fam("valid", 40_000, 2_000_000, c14_valid),
    fam("hostile", 300_000, 15_000_000, c14_hostile),
    fam("logical", 12_000, 300_000, c14_logical),
    fam("wide", 200, 8_000, c14_wide),
    fam("pairs", 98 * 10, 98 * 98, c14_pairs),
    fam("flow", 12_000, 400_000, c14_flow),
    fam("rows", 64, 2_000, c14_rows),
    fam("long", 1_600, 40_000, c14_long),
];

// ---------------------------------------------------------------- C15

/// The same instruction with one leaf different; None if there is nothing to change
pub fn tweak(r: &mut Rng, i: &Inst) -> Option<Inst> {
    for _ in 0..30 {
        let mut j = i.clone();
        // lists and optional operands: one more or one less
        let last = OPS[i.op].kinds.last().copied();
        if let (Some(k), true) = (last, r.chance(1, 4)) {
            match k {
                Kind::Many(k) => {
                    if r.chance(1, 2) {
                        gen::arg(r, k, &mut j.args, 4);
                    } else {
                        let fixed = OPS[i.op].kinds.len() - 1;
                        let unit = if let Kind::Two(..) = *k { 2 } else { 1 };
                        if j.args.len() >= fixed + unit {
                            let l = j.args.len();
                            j.args.truncate(l - unit);
                        }
                    }
                }
                Kind::Opt(k) => {
                    let fixed = OPS[i.op].kinds.iter().filter(|k| !matches!(k, Kind::Opt(_))).count();
                    if j.args.len() > fixed {
                        let unit = if let Kind::Two(..) = *k { 2 } else { 1 };
                        let l = j.args.len();
                        j.args.truncate(l - unit);
                    } else if OPS[i.op].kinds.len() == fixed + 1 {
                        gen::arg(r, k, &mut j.args, 4);
                    }
                }
                _ => {}
            }
        } else if !j.args.is_empty() {
            let p = r.below(j.args.len());
            let q = r.below(j.args.len());
            if p != q && r.chance(1, 5) && interchangeable(&j.args[p], &j.args[q]) {
                // the same operands in another order
                j.args.swap(p, q);
            } else if r.chance(1, 12) {
                // every operand of a kind by the same amount
                let k = 1u32 << r.below(32);
                for a in &mut j.args {
                    if let Arg::Res(n) | Arg::Id(n) | Arg::Num(n) = a {
                        *n ^= k;
                    }
                }
            } else {
                tweak_arg(r, &mut j.args[p]);
            }
        } else {
            return None;
        }
        if j != *i {
            return Some(j);
        }
    }
    None
}
fn interchangeable(a: &Arg, b: &Arg) -> bool {
    match (a, b) {
        (Arg::En(x, ..), Arg::En(y, ..)) => x == y,
        (Arg::Mask(x, ..), Arg::Mask(y, ..)) => x == y,
        (Arg::Ext(_), _) | (_, Arg::Ext(_)) => false,
        _ => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}
fn near(r: &mut Rng, n: u32) -> u32 {
    match r.below(5) {
        0 => n.wrapping_add(1),
        1 => n ^ (1 << r.below(32)),
        2 => n.wrapping_sub(1),
        3 => n.rotate_left(8),
        _ => gen::num(r),
    }
}
fn tweak_arg(r: &mut Rng, a: &mut Arg) {
    match a {
        Arg::Res(n) | Arg::Id(n) | Arg::Num(n) => *n = near(r, *n),
        Arg::Str(s) => match r.below(5) {
            0 => s.push('x'),
            1 => {
                s.pop();
            }
            2 => s.insert(0, ' '),
            3 => {
                let t: String = s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                *s = t;
            }
            _ => {
                if let Some(c) = s.pop() {
                    s.push(char::from_u32(c as u32 ^ 1).filter(|c| *c != '\0').unwrap_or('q'));
                }
            }
        },
        Arg::En(e, _, p) => {
            if !p.is_empty() && r.chance(1, 2) && !ENUMS[*e].open {
                let k = r.below(p.len());
                tweak_arg(r, &mut p[k]);
            } else {
                *a = gen::enum_arg(r, *e);
            }
        }
        Arg::Mask(m, n, p) => {
            if !p.is_empty() && r.chance(1, 2) {
                let k = r.below(p.len());
                tweak_arg(r, &mut p[k]);
            } else {
                let b = r.pick(MASKS[*m].bits).bit;
                let n = *n ^ b;
                *a = gen::mask_arg(r, *m, Some(n));
            }
        }
        Arg::Ext(x) => {
            if x.tag == 0 {
                match r.below(3) {
                    0 => x.inst = 27 - x.inst,
                    1 => x.words[0] = near(r, x.words[0]),
                    _ => x.tag = 1,
                }
            } else {
                match r.below(5) {
                    0 => x.inst = near(r, x.inst),
                    1 => x.tag = 1 + x.tag % 3,
                    3 if x.words.len() > 1 => {
                        let (i, j) = (r.below(x.words.len()), r.below(x.words.len()));
                        x.words.swap(i, j);
                    }
                    2 if !x.words.is_empty() => {
                        let k = r.below(x.words.len());
                        x.words[k] = near(r, x.words[k]);
                    }
                    _ => x.words.push(0),
                }
            }
        }
    }
}
fn eq_core(a: &Core, b: &Core, same: bool, i: &Inst, j: &Inst) -> Res {
    let say = |what: &str| Err(format!("{}: {} {:?} and {} {:?}", what, OPS[i.op].name, short(&format!("{:?}", i.args), 300), OPS[j.op].name, short(&format!("{:?}", j.args), 300)));
    if (a == b) != same || (a != b) == same {
        return say(if same { "equal instructions compare different" } else { "different instructions compare equal" });
    }
    if (b == a) != same {
        return say("equality is not symmetric");
    }
    Ok(())
}
fn c15_each(c: &mut Ctx) -> Res {
    let op = c.idx as usize % OPS.len();
    for n in 0..12 {
        let i = if op == oi::OP_EXT_INST { layout::some_ext(&mut c.r) } else { gen::inst(&mut c.r, op, if n == 0 { 40 } else { 5 }) };
        let j = tweak(&mut c.r, &i);
        c.eval();
        c.seen(layout::content(std::slice::from_ref(&i)));
        if op < N_CORE {
            let a = build_core(&i);
            let b = build_core(&i);
            eq_core(&a, &b, true, &i, &i)?;
            eq_core(&a, &a.clone(), true, &i, &i)?;
            let mut cl = a.clone();
            if n % 3 == 1 {
                // over another one
                let was = match &j {
                    Some(j) if c.r.chance(1, 2) => j.clone(),
                    _ => {
                        let o = if c.r.chance(1, 2) && op != oi::OP_EXT_INST { op } else { oi::OP_NAME };
                        gen::inst(&mut c.r, o, 9)
                    }
                };
                cl = build_core(&was);
                cl.clone_from(&a);
            }
            let t = dis_inst(&i);
            drop(a);
            if lift_core(&cl) != i {
                return Err(format!("a clone of {} {:?} holds {:?}", OPS[op].name, i.args, lift_core(&cl).args));
            }
            let m = layout::raw(vec![cl]);
            if !m.to_string().ends_with(&format!("{}\n", t)) {
                return Err(format!("a clone of {} prints {:?}", OPS[op].name, short(&m.to_string(), 300)));
            }
            if let Some(j) = &j {
                eq_core(&b, &build_core(j), false, &i, j)?;
                c.count("differing pairs compared", 1);
            }
        }
        if op != oi::OP_EXT_INST {
            let (t1, t2, e) = print_any(&i);
            if !e || t1 != t2 || eq_any(&i, &i) != (true, true) {
                return Err(format!("a clone of {} {:?} is not the same", OPS[op].name, i.args));
            }
            if let Some(j) = &j {
                c.count("differing pairs compared", 1);
                if eq_any(&i, j) != (false, false) {
                    return Err(format!("{} compares equal with {:?} and {:?}", OPS[op].name, short(&format!("{:?}", i.args), 300), short(&format!("{:?}", j.args), 300)));
                }
            }
        }
    }
    Ok(())
}
/// Instructions of different kinds with the same operands
fn c15_kinds(c: &mut Ctx) -> Res {
    let a = c.r.below(N_CORE);
    if a == oi::OP_EXT_INST {
        return Ok(());
    }
    let i = gen::inst(&mut c.r, a, 4);
    let x = build_core(&i);
    for b in 0..N_CORE {
        if b == oi::OP_EXT_INST || b == a {
            continue;
        }
        let j = if OPS[b].kinds == OPS[a].kinds { Inst { op: b, args: i.args.clone() } } else { gen::inst(&mut c.r, b, 4) };
        c.eval();
        eq_core(&x, &build_core(&j), false, &i, &j)?;
    }
    c.seen(layout::content(&[i]));
    Ok(())
}
fn c15_ext(c: &mut Ctx) -> Res {
    let n = 10;
    let mut v: Vec<Inst> = (0..n).map(|_| layout::some_ext(&mut c.r)).collect();
    for _ in 0..n {
        let i = c.r.pick(&v).clone();
        if let Some(j) = tweak(&mut c.r, &i) {
            v.push(j);
        }
        v.push(i);
    }
    let built: Vec<Core> = v.iter().map(build_core).collect();
    for (i, a) in v.iter().zip(&built) {
        c.seen(layout::content(std::slice::from_ref(i)));
        for (j, b) in v.iter().zip(&built) {
            c.eval();
            eq_core(a, b, i == j, i, j)?;
            if let (Core::OpExtInst(x), Core::OpExtInst(y)) = (a, b) {
                let same = i.args[3] == j.args[3];
                if (x.instruction == y.instruction) != same || magmaflow::spv::ExtInst::eq(x.instruction.as_ref(), y.instruction.as_ref()) != same {
                    return Err(format!("extended instructions {:?} and {:?}: equality says {}", i.args[3], j.args[3], !same));
                }
            }
        }
    }
    Ok(())
}
fn c15_module(c: &mut Ctx) -> Res {
    let n = c.r.range(1, 12);
    let sets = gen::sets(&mut c.r);
    let (h, v) = gen::module(&mut c.r, n, &sets, 12);
    let bytes = to_bytes(&encode_module(&h, &v), false);
    let (a, b) = match (read::read(&bytes, &sets).0, read::read(&to_bytes(&encode_module(&h, &v), true), &sets).0) {
        (Ok(a), Ok(b)) => (a, b),
        _ => {
            c.count("not read", 1);
            return Ok(());
        }
    };
    c.eval();
    c.seen_bytes(&bytes);
    if a != b || b != a {
        return Err(format!("one module read twice compares different: {}", hex(&bytes)));
    }
    let mut cl = a.clone();
    if c.r.chance(1, 3) {
        // over another one, longer or shorter
        let mut v2 = v.clone();
        match c.r.below(3) {
            0 => v2.truncate(c.r.below(v.len() + 1)),
            1 => v2.extend(v.iter().take(3).cloned()),
            _ => {
                for x in v2.iter_mut() {
                    if let Some(y) = tweak(&mut c.r, x) {
                        *x = y;
                    }
                }
            }
        }
        let mut h2 = h.clone();
        h2.bound = near(&mut c.r, h2.bound);
        cl = build_module(&h2, &v2);
        cl.clone_from(&a);
    }
    if cl != a || a != cl {
        return Err(format!("a clone compares different: {}", hex(&bytes)));
    }
    let t = a.to_string();
    let got = lift_all(&a.instructions);
    drop(a);
    drop(b);
    if cl.to_string() != t || lift_all(&cl.instructions) != got || lift_header(&cl) != h {
        return Err(format!("a clone changed when its original was dropped: {}", hex(&bytes)));
    }
    // one difference anywhere
    for _ in 0..6 {
        let (mut h2, mut v2) = (h.clone(), v.clone());
        match c.r.below(9) {
            6 => {
                let (i, j) = (c.r.below(v2.len()), c.r.below(v2.len()));
                v2.swap(i, j);
            }
            7 => {
                if c.r.chance(1, 2) {
                    h2.version.0 = near(&mut c.r, h2.version.0 as u32) as u8;
                } else {
                    h2.version.1 = near(&mut c.r, h2.version.1 as u32) as u8;
                }
            }
            8 => h2.tool_other = !h2.tool_other || h2.tool > 11,
            0 => h2.bound = near(&mut c.r, h2.bound),
            1 => h2.tool_version ^= 1 << c.r.below(16),
            2 => {
                h2.tool = c.r.u32() as u16 % 40;
                h2.tool_other = h2.tool > 11;
            }
            3 => {
                let k = c.r.below(v2.len());
                v2.remove(k);
            }
            4 => {
                let k = c.r.below(v2.len());
                let x = v2[k].clone();
                v2.insert(k, x);
            }
            _ => {
                let k = c.r.below(v2.len());
                match tweak(&mut c.r, &v2[k]) {
                    Some(j) => v2[k] = j,
                    None => continue,
                }
            }
        }
        if h2 == h && v2 == v {
            continue;
        }
        let other = build_module(&h2, &v2);
        c.eval();
        c.count("differing modules compared", 1);
        if other == cl || cl == other {
            return Err(format!("different modules compare equal: {:?} {:?} and {:?} {:?}", h, short(&format!("{:?}", v), 400), h2, short(&format!("{:?}", v2), 400)));
        }
    }
    Ok(())
}
fn c15_logical(c: &mut Ctx) -> Res {
    let v = layout::legal(&mut c.r, 4);
    let mk = |v: &[Inst]| validate(layout::raw(build_all(v)));
    let (a, b) = match (mk(&v), mk(&v)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => {
            c.count("not accepted", 1);
            return Ok(());
        }
    };
    c.eval();
    c.seen(layout::content(&v));
    if a != b || b != a {
        return Err(format!("one module validated twice compares different: {}", layout::names(&v)));
    }
    let mut cl = a.clone();
    if c.r.chance(1, 3) {
        let w = if c.r.chance(1, 2) {
            layout::legal(&mut c.r, 5)
        } else {
            // much the same
            let mut w = v.clone();
            for x in w.iter_mut() {
                if let Some(y) = tweak(&mut c.r, x) {
                    if layout::class(&y) == layout::class(x) {
                        *x = y;
                    }
                }
            }
            w
        };
        if let Ok(x) = mk(&w) {
            cl = x;
            match c.r.below(3) {
                0 => cl.clone_from(&a),
                n => {
                    // by its parts
                    macro_rules! parts { ($($f:ident)*) => { $( cl.$f.clone_from(&a.$f); )* } }
                    parts!(capabilities extensions ext_inst_imports memory_model entry_points execution_modes debug annotations globals function_declarations);
                    if n == 1 || cl.function_definitions.len() != a.function_definitions.len() {
                        cl.function_definitions.clone_from(&a.function_definitions);
                    } else {
                        for (x, y) in cl.function_definitions.iter_mut().zip(&a.function_definitions) {
                            x.function.clone_from(&y.function);
                            x.parameters.clone_from(&y.parameters);
                            if c.r.chance(1, 2) || x.blocks.len() != y.blocks.len() {
                                x.blocks.clone_from(&y.blocks);
                            } else {
                                for (x, y) in x.blocks.iter_mut().zip(&y.blocks) {
                                    x.label.clone_from(&y.label);
                                    x.code.clone_from(&y.code);
                                    x.merge.clone_from(&y.merge);
                                    x.branch.clone_from(&y.branch);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    if cl != a {
        return Err(format!("a clone compares different: {}", layout::names(&v)));
    }
    drop(a);
    if layout::flatten(&cl) != v || cl != b {
        return Err(format!("a clone changed when its original was dropped: {}", layout::names(&v)));
    }
    for _ in 0..6 {
        let mut w = v.clone();
        let k = c.r.below(w.len());
        if c.r.chance(1, 5) {
            w.remove(k);
        } else if c.r.chance(1, 5) {
            // another order
            let mut j = c.r.below(w.len());
            for _ in 0..20 {
                if j != k && layout::class(&w[j]) == layout::class(&w[k]) {
                    break;
                }
                j = c.r.below(w.len());
            }
            w.swap(j, k);
            if w == v {
                continue;
            }
        } else {
            match tweak(&mut c.r, &w[k]) {
                Some(j) => w[k] = j,
                None => continue,
            }
        }
        if let Ok(o) = mk(&w) {
            c.eval();
            c.count("differing logical modules compared", 1);
            if o == cl || cl == o {
                return Err(format!("different logical modules compare equal: {} with instruction {} as {:?} and {:?}", layout::names(&v), k, v[k].args, w.get(k).map(|x| &x.args)));
            }
        }
    }
    Ok(())
}
fn c15_flow(c: &mut Ctx) -> Res {
    let s = cfgm::structured(&mut c.r, 9, 4);
    let d = cfgm::to_def(&mut c.r, &s.blocks);
    let (a, b) = match (find_control_flow(d.clone()), find_control_flow(d)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return Ok(()),
    };
    c.eval();
    c.seen(cfgm::graph_hash(&s.blocks));
    if a != b || b != a {
        return Err("one function recovered twice compares different".into());
    }
    let mut na: Vec<Ch> = vec![];
    cfgm::norm(&a, &mut na)?;
    for _ in 0..6 {
        let mut bs = s.blocks.clone();
        let k = c.r.below(bs.len());
        match c.r.below(4) {
            0 => {
                // rename a block everywhere
                let from = bs[k].id;
                let to = c.r.u32() | 1;
                if bs.iter().any(|b| b.id == to) {
                    continue;
                }
                let f = |x: &mut u32| {
                    if *x == from {
                        *x = to
                    }
                };
                for b in &mut bs {
                    f(&mut b.id);
                    match b.term {
                        Term::Br(ref mut t) => f(t),
                        Term::Cond(ref mut t, ref mut e, _) => {
                            f(t);
                            f(e);
                        }
                        Term::Ret => {}
                    }
                    match b.merge {
                        Mg::Sel(ref mut m, _) | Mg::Loop(ref mut m, _, _) => f(m),
                        Mg::None => {}
                    }
                }
            }
            1 => match bs[k].merge {
                Mg::Sel(_, ref mut h) | Mg::Loop(_, _, ref mut h) => tweak_arg(&mut c.r, h),
                Mg::None => continue,
            },
            2 => match bs[k].term {
                Term::Cond(_, _, ref mut w) => {
                    *w = match *w {
                        None => Some((0, 0)),
                        Some((a, b)) if c.r.chance(1, 2) => Some((a, near(&mut c.r, b))),
                        Some((a, b)) if a != b => Some((b, a)),
                        Some(_) => None,
                    }
                }
                _ => continue,
            },
            _ => match bs[k].term {
                Term::Cond(t, f, w) if bs[k].merge != Mg::None => bs[k].term = Term::Cond(f, t, w),
                _ => continue,
            },
        }
        let d = cfgm::to_def(&mut c.r, &bs);
        if let Ok(o) = find_control_flow(d) {
            let mut no: Vec<Ch> = vec![];
            cfgm::norm(&o, &mut no)?;
            c.eval();
            let same = no == na;
            c.count(if same { "equal structures compared" } else { "differing structures compared" }, 1);
            if !same && (o == a || a == o) {
                return Err(format!("different structures compare equal: {:?} and {:?}", short(&a.to_string(), 400), short(&o.to_string(), 400)));
            }
            if same && (o != a || a != o) {
                return Err(format!("equal structures compare different: {:?}", short(&a.to_string(), 400)));
            }
        }
    }
    Ok(())
}
/// Tools and source languages outside the known ones, also with the numbers of known ones
fn c15_others(c: &mut Ctx) -> Res {
    let e = ENUMS.iter().position(|e| e.open).expect("harness: no open enumeration");
    let base = gen::inst(&mut c.r, oi::OP_SOURCE, 2);
    let slot = base.args.iter().position(|a| matches!(a, Arg::En(..))).expect("harness: source");
    let mut all: Vec<Arg> = ENUMS[e].rows.iter().map(|x| Arg::En(e, x.num, vec![])).collect();
    for k in 0..8 {
        let n = if k < 6 { k } else { gen::num(&mut c.r) };
        all.push(Arg::En(e, n, vec![Arg::Num(n)]));
    }
    let build = |a: &Arg| {
        let mut i = base.clone();
        i.args[slot] = a.clone();
        (build_core(&i), i)
    };
    for a in &all {
        for b in &all {
            c.eval();
            let (x, i) = build(a);
            let (y, j) = build(b);
            eq_core(&x, &y, a == b, &i, &j)?;
            eq_core(&x.clone(), &y.clone(), a == b, &i, &j)?;
        }
    }
    let tools: Vec<(u16, bool)> = (0..12).map(|n| (n, false)).chain((0..14).map(|n| (n, true))).chain([(c.r.u32() as u16, true)]).collect();
    for a in &tools {
        for b in &tools {
            c.eval();
            c.seen((a.0 as u64) << 17 | (a.1 as u64) << 16 | b.0 as u64);
            let mk = |t: &(u16, bool)| {
                let mut m = layout::raw(vec![]);
                m.generator.tool = build_tool(t.0, t.1);
                m
            };
            let (x, y) = (mk(a), mk(b));
            if (x == y) != (a == b) || (y.clone() == x.clone()) != (a == b) {
                return Err(format!("modules of tools {:?} and {:?}: equality says {}", x.generator.tool, y.generator.tool, x == y));
            }
        }
    }
    Ok(())
}
/// A place in a long list: its ends, near a power of two, or anywhere
fn place(r: &mut Rng, n: usize) -> usize {
    match r.below(5) {
        0 => 0,
        1 => n - 1,
        2 => {
            let p = 1usize << r.below(17);
            (p + r.below(3)).saturating_sub(1).min(n - 1)
        }
        _ => r.below(n),
    }
}
/// Long modules, lists, strings, functions and structures that differ in one place or only in order
fn c15_long(c: &mut Ctx) -> Res {
    let n = *c.r.pick(&[300usize, 1_100, 5_000, 17_000, 40_000, 66_000]);
    match c.idx % 6 {
        0 => {
            // instructions
            let all = gen::readable();
            let stock: Vec<Inst> = (0..40)
                .map(|_| {
                    let op = *c.r.pick(&all);
                    if op == oi::OP_EXT_INST { layout::some_ext(&mut c.r) } else { gen::inst(&mut c.r, op, 3) }
                })
                .collect();
            let built: Vec<Core> = stock.iter().map(build_core).collect();
            let pick: Vec<usize> = (0..n).map(|_| c.r.below(stock.len())).collect();
            let mk = |p: &[usize]| layout::raw(p.iter().map(|k| built[*k].clone()).collect());
            let a = mk(&pick);
            c.eval();
            c.seen(mix(c.idx ^ (n as u64) << 32));
            if a != mk(&pick) || a != a.clone() {
                return Err(format!("a module of {} instructions differs from itself", n));
            }
            for _ in 0..4 {
                let mut q = pick.clone();
                let k = place(&mut c.r, n);
                match c.r.below(4) {
                    0 => {
                        q.remove(k);
                    }
                    1 => {
                        let j = place(&mut c.r, n);
                        q.swap(j, k);
                    }
                    2 => {
                        let j = (k + 1).min(n - 1);
                        q.swap(j, k);
                    }
                    _ => q[k] = c.r.below(stock.len()),
                }
                let same = q.len() == n && (0..n).all(|i| stock[q[i]] == stock[pick[i]]);
                let b = mk(&q);
                c.eval();
                c.count("long modules compared", 1);
                if (a == b) != same || (b == a) != same || (a != b) == same {
                    return Err(format!("modules of {} and {} instructions, different near {}: equality says {}, expected {}", n, q.len(), k, a == b, same));
                }
            }
        }
        1 | 2 => {
            // operand lists and strings
            let lists: Vec<usize> = (0..OPS.len()).filter(|o| *o < N_CORE && *o != oi::OP_EXT_INST && OPS[*o].kinds.iter().any(|k| matches!(k, Kind::Many(_) | Kind::Str) || matches!(k, Kind::Opt(Kind::Str)))).collect();
            let op = *c.r.pick(&lists);
            let mut i = gen::inst(&mut c.r, op, 1);
            if let Some(Kind::Many(k)) = OPS[op].kinds.last().copied() {
                for _ in 0..n {
                    gen::arg(&mut c.r, k, &mut i.args, 2);
                }
            }
            for a in &mut i.args {
                if let Arg::Str(s) = a {
                    *s = gen::string_len(&mut c.r, n);
                }
            }
            let a = build_core(&i);
            c.eval();
            c.seen(mix(c.idx ^ (n as u64) << 32));
            eq_core(&a, &build_core(&i), true, &i, &i)?;
            eq_core(&a, &a.clone(), true, &i, &i)?;
            for _ in 0..4 {
                let mut j = i.clone();
                let k = place(&mut c.r, j.args.len());
                match &mut j.args[k] {
                    Arg::Str(s) if s.chars().count() > 2 => {
                        let mut t: Vec<char> = s.chars().collect();
                        let p = place(&mut c.r, t.len());
                        if c.r.chance(1, 2) {
                            t[p] = char::from_u32(t[p] as u32 ^ 1).filter(|c| *c != '\0').unwrap_or('q');
                        } else {
                            let q = place(&mut c.r, t.len());
                            t.swap(p, q);
                        }
                        *s = t.into_iter().collect();
                    }
                    x => tweak_arg(&mut c.r, x),
                }
                if c.r.chance(1, 3) {
                    j = i.clone();
                    let l = j.args.len();
                    let (p, q) = (place(&mut c.r, l), place(&mut c.r, l));
                    if interchangeable(&j.args[p], &j.args[q]) {
                        j.args.swap(p, q);
                    }
                }
                c.eval();
                c.count("long operands compared", 1);
                eq_core(&a, &build_core(&j), i == j, &i, &j)?;
            }
        }
        3 | 4 => {
            // sections and functions
            let n = n.min(17_000);
            let mut v = vec![layout::of_class(&mut c.r, Class::MemoryModel)];
            let kind = c.r.below(4);
            let (class, wrap) = match kind {
                0 => (Class::Debug, false),
                1 => (Class::Annotation, false),
                2 => (Class::Global, false),
                _ => (Class::Code, true),
            };
            let stock: Vec<Inst> = (0..30).map(|_| layout::of_class(&mut c.r, class)).collect();
            if wrap {
                v.push(layout::of_class(&mut c.r, Class::Function));
                v.push(layout::of_class(&mut c.r, Class::Label));
            }
            let from = v.len();
            for _ in 0..n {
                v.push(c.r.pick(&stock).clone());
            }
            if wrap {
                v.push(gen::inst(&mut c.r, oi::OP_RETURN, 1));
                v.push(layout::of_class(&mut c.r, Class::FunctionEnd));
            }
            let mk = |v: &[Inst]| validate(layout::raw(build_all(v)));
            let a = match mk(&v) {
                Ok(a) => a,
                Err(_) => {
                    c.count("not accepted", 1);
                    return Ok(());
                }
            };
            c.eval();
            c.seen(mix(c.idx ^ (n as u64) << 32));
            if a != a.clone() {
                return Err(format!("a logical module of {} instructions differs from its copy", n));
            }
            for _ in 0..3 {
                let mut w = v.clone();
                let k = from + place(&mut c.r, n);
                match c.r.below(3) {
                    0 => {
                        let j = from + place(&mut c.r, n);
                        w.swap(j, k);
                    }
                    1 => w[k] = c.r.pick(&stock).clone(),
                    _ => {
                        if let Some(x) = tweak(&mut c.r, &w[k]) {
                            if layout::class(&x) == class {
                                w[k] = x;
                            }
                        }
                    }
                }
                if let Ok(b) = mk(&w) {
                    c.eval();
                    c.count("long logical modules compared", 1);
                    let same = v == w;
                    if (a == b) != same || (b == a) != same {
                        return Err(format!("logical modules with {} instructions in a section, different at {}: equality says {}, expected {}", n, k, a == b, same));
                    }
                }
            }
        }
        _ => {
            // structures
            let n = n.min(17_000);
            let kind = c.r.below(3);
            let s = cfgm::shaped(&mut c.r, kind, if kind == 0 { n } else { n / 8 });
            let a = find_control_flow(cfgm::to_def(&mut c.r, &s.blocks)).map_err(|e| format!("a sequence was refused: {:?}", e))?;
            c.eval();
            c.seen(mix(c.idx ^ (n as u64) << 32));
            let (live, _) = cfgm::reachable(&s.blocks);
            for _ in 0..3 {
                let mut bs = s.blocks.clone();
                let k = place(&mut c.r, bs.len());
                let mut same = true;
                if !live.contains(&bs[k].id) {
                    continue; // recovery may leave it out
                }
                if let Mg::None = bs[k].merge {
                    // another id for a block that nothing but one branch names
                    let from = bs[k].id;
                    let to = bs.iter().map(|b| b.id).max().unwrap_or(0).wrapping_add(1);
                    if to == 0 {
                        continue;
                    }
                    for b in &mut bs {
                        let f = |x: &mut u32| {
                            if *x == from {
                                *x = to
                            }
                        };
                        f(&mut b.id);
                        match b.term {
                            Term::Br(ref mut t) => f(t),
                            Term::Cond(ref mut t, ref mut e, _) => {
                                f(t);
                                f(e);
                            }
                            Term::Ret => {}
                        }
                        match b.merge {
                            Mg::Sel(ref mut m, _) | Mg::Loop(ref mut m, _, _) => f(m),
                            Mg::None => {}
                        }
                    }
                    same = false;
                }
                let b = find_control_flow(cfgm::to_def(&mut c.r, &bs)).map_err(|e| format!("a sequence was refused: {:?}", e))?;
                c.eval();
                c.count("long structures compared", 1);
                if (a == b) != same || (b == a) != same {
                    return Err(format!("structures of {} blocks, block {} renamed: {}: equality says {}", bs.len(), k, !same, a == b));
                }
            }
        }
    }
    Ok(())
}
/// Errors are equal exactly if they name the same fault and value
fn c15_errors(c: &mut Ctx) -> Res {
    use magmaflow::spv::raw::ReadError as E;
    use magmaflow::spv::types::{OpId, ResultId, Version};
    c.eval();
    let base = gen::num(&mut c.r);
    let vals = [base, gen::near(&mut c.r, base), base ^ 1 << c.r.below(32)];
    let names: [&'static str; 3] = ["OpLine", "OpLinf", "opline"];
    let mut all: Vec<(String, E)> = vec![];
    macro_rules! plain { ($($v:ident)*) => { $( all.push((stringify!($v).into(), E::$v)); )* } }
    plain!(UnexpectedEndOfStream UnexpectedStreamAlignment BadMagic UnknownReservedSchema WrongWordCountForOp InvalidString UnexpectedEndOfInstruction InstructionHadExcessData);
    for (n, v) in vals.iter().enumerate() {
        let v = *v;
        macro_rules! num { ($($x:ident)*) => { $( all.push((format!("{} {}", stringify!($x), v), E::$x(v))); )* } }
        num!(UnknownAddressingModel UnknownMemoryModel UnknownExecutionModel UnknownExecutionMode UnknownCapability UnknownDecoration UnknownBuiltIn UnknownFpRoundingMode
            UnknownFpFastMathMode UnknownLinkageType UnknownSignedness UnknownStorageClass UnknownFunctionParameterAttribute UnknownMemoryAccess UnknownDim UnknownDepthStatus
            UnknownArrayed UnknownMS UnknownSampledStatus UnknownImageFormat UnknownAccessQualifier UnknownLoopControl UnknownSelectionControl UnknownFunctionControl);
        let b = v.to_be_bytes();
        all.push((format!("version bytes {:?}", b), E::UnknownVersionBytes(b[0], b[1], b[2], b[3])));
        all.push((format!("version {} {}", b[0], b[3]), E::UnknownVersion(Version(b[0], b[3]))));
        all.push((format!("op {} {}", v as u16, v >> 16), E::UnknownOp(v as u16, (v >> 16) as u16)));
        all.push((format!("unimplemented {}", names[n]), E::UnimplementedOp(names[n])));
        all.push((format!("set {}", names[n]), E::UnknownInstSet(names[n].into())));
        all.push((format!("set id {}", v), E::UnknownInstSetId(OpId(v))));
        all.push((format!("result {}", v), E::DuplicateResultId(ResultId(v))));
        all.push((format!("ext {} {}", names[n], v), E::UnknownExtInstOp(names[n], v)));
        all.push((format!("ext {} {}", names[0], v), E::UnknownExtInstOp(names[0], v)));
    }
    for (i, (k, a)) in all.iter().enumerate() {
        for (l, b) in all[i..].iter() {
            if (a == b) != (k == l) || (b == a) != (k == l) || (a != b) == (k == l) {
                return Err(format!("errors {:?} and {:?}: equality says {}", a, b, a == b));
            }
        }
    }
    c.count("pairs of errors compared", (all.len() * (all.len() + 1) / 2) as u64);
    c.seen(hash_bytes(format!("{:?}", vals).as_bytes()));
    use ValidationError as V;
    let mut all: Vec<((usize, usize), V)> = vec![((0, 0), V::MemoryModelMissing)];
    for v in vals {
        let v = v as usize;
        for (n, e) in [V::ExpectedOpFunction(v), V::ExpectedOpFunctionEnd(v), V::ExpectedBranch(v), V::UnexpectedInstruction(v)].into_iter().enumerate() {
            all.push(((n + 1, v), e));
        }
    }
    for (k, a) in &all {
        for (l, b) in &all {
            if (a == b) != (k == l) || (a.clone() == b.clone()) != (k == l) {
                return Err(format!("errors {:?} and {:?}: equality says {}", a, b, a == b));
            }
        }
    }
    Ok(())
}
pub static C15: &[Family] = &[
    fam("others", 200, 4_000, c15_others),
    fam("each", 24_960, 156_000, c15_each),
    fam("kinds", 8_000, 240_000, c15_kinds),
    fam("ext", 2_000, 60_000, c15_ext),
    fam("hidden", 4_000, 100_000, crate::nest::hidden),
    fam("module", 30_000, 1_500_000, c15_module),
    fam("logical", 20_000, 800_000, c15_logical),
    fam("flow", 40_000, 1_500_000, c15_flow),
    fam("long", 2_400, 20_000, c15_long),
    fam("errors", 300, 3_000, c15_errors),
];
