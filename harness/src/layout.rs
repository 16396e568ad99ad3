//! Logical layout: C07 and C08
use crate::ext;
use crate::frame::*;
use crate::gen;
use crate::read;
use crate::rng::Rng;
use crate::spec::*;
use crate::spec_gen::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::raw::{Core, RawModule};
use magmaflow::spv::types::{StorageClass, Version, Generator};

pub const STORAGE_FUNCTION: u32 = 7;

/// Class of an instruction in the layout, variables told apart by storage class
pub fn class(i: &Inst) -> Class {
    match CLASS[i.op] {
        Class::Variable => {
            let f = i.args.iter().any(|a| matches!(a, Arg::En(_, n, _) if *n == STORAGE_FUNCTION));
            if f {
                Class::Code
            } else {
                Class::Global
            }
        }
        c => c,
    }
}

// ---------------------------------------------------------------- reference grammar

#[derive(Debug, Clone)]
pub struct Fault {
    pub accept: Vec<ValidationError>,
}
/// Parse the list of classes; the number of function declarations on success
pub fn reference(v: &[Class]) -> Result<usize, Fault> {
    let n = v.len();
    let at = |i: usize| v.get(i).copied();
    let fault = |e: Vec<ValidationError>| Err(Fault { accept: e });
    let mut i = 0;
    for c in [Class::Capability, Class::Extension, Class::ExtInstImport] {
        while at(i) == Some(c) {
            i += 1
        }
    }
    if at(i) != Some(Class::MemoryModel) {
        return fault(vec![ValidationError::MemoryModelMissing]);
    }
    i += 1;
    for c in [Class::EntryPoint, Class::ExecutionMode, Class::Debug, Class::Annotation, Class::Global] {
        while at(i) == Some(c) {
            i += 1
        }
    }
    let mut decls = 0;
    let mut defining = false;
    while i < n {
        if v[i] != Class::Function {
            // with one instruction left both readings are right
            return fault(if i + 1 == n {
                vec![ValidationError::UnexpectedInstruction(i), ValidationError::ExpectedOpFunction(i)]
            } else {
                vec![ValidationError::ExpectedOpFunction(i)]
            });
        }
        if i + 1 == n {
            return fault(vec![ValidationError::UnexpectedInstruction(i), ValidationError::ExpectedOpFunctionEnd(n)]);
        }
        i += 1;
        while at(i) == Some(Class::FunctionParameter) {
            i += 1
        }
        let bodiless = at(i) == Some(Class::FunctionEnd);
        while at(i) == Some(Class::Label) {
            i += 1;
            while at(i) == Some(Class::Code) {
                i += 1
            }
            if at(i) == Some(Class::Merge) {
                i += 1
            }
            if at(i) != Some(Class::Branch) {
                return fault(vec![ValidationError::ExpectedBranch(i)]);
            }
            i += 1;
        }
        if at(i) != Some(Class::FunctionEnd) {
            return fault(vec![ValidationError::ExpectedOpFunctionEnd(i)]);
        }
        i += 1;
        if bodiless && !defining {
            decls += 1
        } else {
            defining = true
        }
    }
    Ok(decls)
}

// ---------------------------------------------------------------- observing a logical module

fn push_function(f: &magmaflow::spv::op::OpFunction, p: &[magmaflow::spv::op::OpFunctionParameter], out: &mut Vec<Inst>) {
    out.push(lift_core(&Core::OpFunction(f.clone())));
    for x in p {
        out.push(lift_core(&Core::OpFunctionParameter(x.clone())));
    }
}
fn end() -> Inst {
    Inst { op: oi::OP_FUNCTION_END, args: vec![] }
}
pub fn flatten_def(d: &FunctionDefinition, out: &mut Vec<Inst>) {
    push_function(&d.function, &d.parameters, out);
    for b in &d.blocks {
        out.push(lift_core(&Core::OpLabel(b.label.clone())));
        for k in &b.code {
            out.push(lift_core(&un_code(k)));
        }
        if let Some(ref m) = b.merge {
            out.push(lift_core(&un_merge(m)));
        }
        out.push(lift_core(&un_branch(&b.branch)));
    }
    out.push(end());
}
/// Read the sections out in layout order
pub fn flatten(m: &LogicalModule) -> Vec<Inst> {
    let mut out = Vec::new();
    for c in &m.capabilities {
        out.push(lift_core(&Core::OpCapability(magmaflow::spv::op::OpCapability { capability: c.clone() })));
    }
    for e in &m.extensions {
        out.push(lift_core(&Core::OpExtension(magmaflow::spv::op::OpExtension { name: e.clone() })));
    }
    for x in &m.ext_inst_imports {
        out.push(lift_core(&Core::OpExtInstImport(x.clone())));
    }
    out.push(lift_core(&Core::OpMemoryModel(m.memory_model.clone())));
    for x in &m.entry_points {
        out.push(lift_core(&Core::OpEntryPoint(x.clone())));
    }
    for x in &m.execution_modes {
        out.push(lift_core(&Core::OpExecutionMode(x.clone())));
    }
    for x in &m.debug {
        out.push(lift_core(&un_debug(x)));
    }
    for x in &m.annotations {
        out.push(lift_core(&un_annotation(x)));
    }
    for x in &m.globals {
        out.push(lift_core(&un_global(x)));
    }
    for d in &m.function_declarations {
        push_function(&d.function, &d.parameters, &mut out);
        out.push(end());
    }
    for d in &m.function_definitions {
        flatten_def(d, &mut out);
    }
    out
}
fn check_variables(m: &LogicalModule) -> Res {
    for g in &m.globals {
        if let GroupGlobal::OpVariable(ref v) = *g {
            if v.storage_class == StorageClass::Function {
                return Err(format!("function-class variable {:?} among the globals", v));
            }
        }
    }
    for d in &m.function_definitions {
        for b in &d.blocks {
            for k in &b.code {
                if let GroupCode::OpVariable(ref v) = *k {
                    if v.storage_class != StorageClass::Function {
                        return Err(format!("variable {:?} inside a block", v));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn raw(v: Vec<Core>) -> RawModule {
    RawModule { version: Version(1, 0), generator: Generator { tool: build_tool(0, false), version: 0 }, bound: 100, instructions: v }
}
pub fn names(v: &[Inst]) -> String {
    short(&v.iter().map(|i| OPS[i.op].name).collect::<Vec<_>>().join(" "), 900)
}
pub fn shape(v: &[Inst]) -> u64 {
    let b: Vec<u8> = v.iter().map(|i| class(i) as u8).collect();
    crate::rng::hash_bytes(&b)
}
pub fn content(v: &[Inst]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// C08: accepted exactly when legal, and the error is the first misfit
fn judge_accept(c: &mut Ctx, v: &[Inst], m: RawModule) -> Res {
    c.eval();
    c.seen(shape(v));
    let classes: Vec<Class> = v.iter().map(class).collect();
    let want = reference(&classes);
    let got = validate(m);
    match (got, want) {
        (Ok(_), Ok(_)) => {
            c.count("legal layouts accepted", 1);
            Ok(())
        }
        (Err(e), Ok(_)) => Err(format!("legal layout refused with {:?}: {}", e, names(v))),
        (Ok(_), Err(f)) => Err(format!("illegal layout accepted (expected {:?}): {}", f.accept, names(v))),
        (Err(e), Err(f)) => {
            let kind = format!("{:?}", e);
            c.count(&format!("refused as {}", read::kind_of(&kind)), 1);
            c.sample(4, || format!("{} -> {:?}", names(v), e));
            if f.accept.contains(&e) {
                Ok(())
            } else {
                Err(format!("refused with {:?}, expected {:?}: {}", e, f.accept, names(v)))
            }
        }
    }
}
/// C07: what is accepted is all there
fn judge_content(c: &mut Ctx, v: &[Inst], m: RawModule) -> Res {
    c.eval();
    let decls = match reference(&v.iter().map(class).collect::<Vec<_>>()) {
        Ok(d) => d,
        Err(_) => usize::MAX,
    };
    match validate(m) {
        Err(e) => {
            if decls == usize::MAX {
                c.count("refused, nothing to compare", 1);
                Ok(())
            } else {
                Err(format!("legal module refused with {:?}: {}", e, names(v)))
            }
        }
        Ok(l) => {
            c.seen(content(v));
            let got = flatten(&l);
            c.count("instructions placed and compared", v.len() as u64);
            if got != v {
                return Err(format!("sections read out: {} (module: {})", read::first_diff(&got, v).replace("decoded", "in the sections").replace("encoded", "in the module"), names(v)));
            }
            check_variables(&l)?;
            if decls != usize::MAX && l.function_declarations.len() != decls {
                return Err(format!("{} declarations, expected {}: {}", l.function_declarations.len(), decls, names(v)));
            }
            c.sample(4, || format!("{} instructions: {}", v.len(), short(&names(v), 300)));
            Ok(())
        }
    }
}
type Judge = fn(&mut Ctx, &[Inst], RawModule) -> Res;

// ---------------------------------------------------------------- generation

pub fn ops_of(c: Class) -> Vec<usize> {
    (0..N_CORE).filter(|&o| CLASS[o] == c || (CLASS[o] == Class::Variable && (c == Class::Global || c == Class::Code))).collect()
}
fn variable(r: &mut Rng, function: bool) -> Inst {
    let mut i = gen::inst(r, oi::OP_VARIABLE, 4);
    for a in &mut i.args {
        if let Arg::En(e, n, p) = a {
            let e = *e;
            let mut k = STORAGE_FUNCTION;
            if !function {
                while k == STORAGE_FUNCTION {
                    k = r.pick(ENUMS[e].rows).num;
                }
            }
            *n = k;
            p.clear();
        }
    }
    i
}
pub fn some_ext(r: &mut Rng) -> Inst {
    let x = if r.chance(1, 3) {
        ExtVal { tag: 0, inst: 13 + r.below(2) as u32, words: vec![gen::id(r)] }
    } else {
        let n = gen::count(r, 12);
        ExtVal { tag: 1 + r.below(3) as u32, inst: gen::num(r), words: (0..n).map(|_| gen::num(r)).collect() }
    };
    Inst { op: oi::OP_EXT_INST, args: vec![Arg::Id(gen::id(r)), Arg::Res(gen::id(r)), Arg::Id(gen::id(r)), Arg::Ext(x)] }
}
/// An instruction with the given opcode; variables get the class asked for
pub fn make(r: &mut Rng, op: usize, c: Class) -> Inst {
    match op {
        oi::OP_EXT_INST => some_ext(r),
        oi::OP_VARIABLE => variable(r, c == Class::Code),
        _ => gen::inst(r, op, 6),
    }
}
pub fn of_class(r: &mut Rng, c: Class) -> Inst {
    let ops = ops_of(c);
    let op = if c == Class::Code && r.chance(1, 6) || c == Class::Global && r.chance(1, 6) { oi::OP_VARIABLE } else { *r.pick(&ops) };
    make(r, op, c)
}
pub const ALL_CLASSES: [Class; 16] = [
    Class::Capability,
    Class::Extension,
    Class::ExtInstImport,
    Class::MemoryModel,
    Class::EntryPoint,
    Class::ExecutionMode,
    Class::Debug,
    Class::Annotation,
    Class::Global,
    Class::Function,
    Class::FunctionParameter,
    Class::FunctionEnd,
    Class::Label,
    Class::Code,
    Class::Merge,
    Class::Branch,
];
fn section(r: &mut Rng, max: usize) -> usize {
    match r.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 => r.below(max + 1),
        _ => gen::count(r, max),
    }
}
pub fn function(r: &mut Rng, body: bool, max: usize, v: &mut Vec<Inst>) {
    v.push(of_class(r, Class::Function));
    many(r, Class::FunctionParameter, max, v);
    if body {
        for _ in 0..section(r, max) {
            v.push(of_class(r, Class::Label));
            many(r, Class::Code, max, v);
            if r.chance(1, 2) {
                v.push(of_class(r, Class::Merge));
            }
            v.push(of_class(r, Class::Branch));
        }
    }
    v.push(end());
}
pub fn legal(r: &mut Rng, max: usize) -> Vec<Inst> {
    let mut v = Vec::new();
    for c in &ALL_CLASSES[..9] {
        if *c == Class::MemoryModel {
            v.push(of_class(r, *c));
            continue;
        }
        many(r, *c, max, &mut v);
    }
    let few = if max > 100 && r.chance(1, 2) { 60 } else { 4 };
    for body in [false, true] {
        let mut last = None;
        for _ in 0..section(r, max.min(few)) {
            let body = body && r.chance(4, 5);
            let at = v.len();
            match last.take() {
                // the same function once more
                Some(f) if r.chance(1, 6) => v.extend::<Vec<Inst>>(f),
                _ => function(r, body, if few == 60 { 4 } else { max }, &mut v),
            }
            last = Some(v[at..].to_vec());
        }
    }
    v
}
/// Any number of instructions of a class; equal and nearly equal ones are common
fn many(r: &mut Rng, c: Class, max: usize, v: &mut Vec<Inst>) {
    let at = v.len();
    let repeat = r.chance(1, 4);
    for _ in 0..section(r, max) {
        if repeat && v.len() > at && r.chance(2, 3) {
            let k = at + r.below(v.len() - at);
            let mut x = v[k].clone();
            if r.chance(1, 3) && !x.args.is_empty() {
                let y = make(r, x.op, c);
                let p = r.below(x.args.len());
                if p < y.args.len() && std::mem::discriminant(&x.args[p]) == std::mem::discriminant(&y.args[p]) {
                    x.args[p] = y.args[p].clone();
                    if x.op == oi::OP_VARIABLE && class(&x) != c {
                        x = v[k].clone();
                    }
                }
            }
            v.push(x);
        } else {
            v.push(of_class(r, c));
        }
    }
}
fn mutate(r: &mut Rng, v: &mut Vec<Inst>) {
    for _ in 0..r.range(1, 3) {
        if v.is_empty() {
            return;
        }
        let i = r.below(v.len());
        match r.below(9) {
            0 => {
                v.remove(i);
            }
            1 => {
                let x = v[i].clone();
                v.insert(i, x);
            }
            2 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            3 => {
                let c = *r.pick(&ALL_CLASSES);
                let x = of_class(r, c);
                v.insert(i, x);
            }
            4 => v.truncate(i),
            5 => {
                let c = *r.pick(&ALL_CLASSES);
                v[i] = of_class(r, c);
            }
            6 => {
                let c = *r.pick(&ALL_CLASSES);
                let x = of_class(r, c);
                v.push(x);
            }
            7 => {
                let j = r.below(v.len());
                let x = v.remove(i);
                v.insert(j, x);
            }
            _ => {
                if i + 1 < v.len() {
                    v.swap(i, i + 1);
                }
            }
        }
    }
}
fn both(c: &mut Ctx, v: &[Inst], j: Judge) -> Res {
    let h = gen::header(&mut c.r);
    let m = build_module(&h, v);
    j(c, v, m)
}
/// The same through the reader, so that what is validated is what was read
fn via_read(c: &mut Ctx, v: &[Inst], j: Judge) -> Res {
    let h = gen::header(&mut c.r);
    let w = encode_module(&h, v);
    let sets = [ext::glsl()];
    let (r, _) = read::read(&to_bytes(&w, false), &sets);
    match r {
        Ok(m) => {
            c.count("modules that went through the reader", 1);
            j(c, v, m)
        }
        Err(_) => {
            c.count("modules the reader did not take", 1);
            Ok(())
        }
    }
}

fn f_legal(c: &mut Ctx, j: Judge) -> Res {
    let max = if c.r.chance(1, 8) { 300 } else { 8 };
    let v = legal(&mut c.r, max);
    both(c, &v, j)
}
fn f_mutant(c: &mut Ctx, j: Judge) -> Res {
    let mut v = legal(&mut c.r, 4);
    mutate(&mut c.r, &mut v);
    both(c, &v, j)
}
fn f_prefix(c: &mut Ctx, j: Judge) -> Res {
    let v = legal(&mut c.r, 4);
    let n = v.len().min(60);
    for k in 0..=n {
        both(c, &v[..k], j)?;
    }
    // and all suffixes
    for k in 1..=n {
        both(c, &v[k..], j)?;
    }
    Ok(())
}
/// One instruction of each class inserted at, removed from or replacing each place of a legal module
fn f_edit(c: &mut Ctx, j: Judge) -> Res {
    let v = legal(&mut c.r, 3);
    if v.len() > 40 {
        return Ok(());
    }
    for p in 0..=v.len() {
        for cl in ALL_CLASSES {
            let x = of_class(&mut c.r, cl);
            let mut w = v.clone();
            w.insert(p, x.clone());
            both(c, &w, j)?;
            if p < v.len() {
                w.remove(p + 1);
                both(c, &w, j)?;
            }
        }
        if p < v.len() {
            let mut w = v.clone();
            w.remove(p);
            both(c, &w, j)?;
        }
    }
    Ok(())
}
/// Every opcode in each section of a small module
fn f_opcode(c: &mut Ctx, j: Judge) -> Res {
    let op = c.idx as usize % N_CORE;
    let mut v = Vec::new();
    for cl in ALL_CLASSES {
        v.push(of_class(&mut c.r, cl));
        if cl == Class::Function && c.r.chance(1, 2) {
            v.push(end());
            v.push(of_class(&mut c.r, cl));
        }
    }
    // of the classes above End comes before the blocks
    let e = v.iter().rposition(|i| class(i) == Class::FunctionEnd).unwrap();
    let x = v.remove(e);
    v.push(x);
    for p in 0..=v.len() {
        for f in [false, true] {
            let i = make(&mut c.r, op, if f { Class::Code } else { Class::Global });
            let mut w = v.clone();
            w.insert(p, i);
            both(c, &w, j)?;
            if op != oi::OP_VARIABLE {
                break;
            }
        }
    }
    // the right place, several of them
    let cl = CLASS[op];
    let want: Vec<Class> = if cl == Class::Variable { vec![Class::Global, Class::Code] } else { vec![cl] };
    for cl in want {
        if matches!(cl, Class::MemoryModel | Class::Function | Class::FunctionEnd | Class::Merge | Class::Branch | Class::Label) {
            continue;
        }
        let p = v.iter().position(|i| class(i) == cl).unwrap();
        for k in 0..4 {
            let i = make(&mut c.r, op, cl);
            v.insert(p + k, i);
        }
    }
    both(c, &v, j)
}
const HEAD: [Class; 10] = [
    Class::Capability,
    Class::Extension,
    Class::ExtInstImport,
    Class::MemoryModel,
    Class::EntryPoint,
    Class::ExecutionMode,
    Class::Debug,
    Class::Annotation,
    Class::Global,
    Class::Function,
];
const BODY: [Class; 8] =
    [Class::Function, Class::FunctionParameter, Class::FunctionEnd, Class::Label, Class::Code, Class::Merge, Class::Branch, Class::Global];
/// All sequences of classes up to a length, after a given start
fn f_exhaustive(c: &mut Ctx, j: Judge) -> Res {
    // case idx fixes the first symbols; the rest is enumerated
    let deep = if c.thorough() { 1 } else { 0 };
    let (alpha, pre): (&[Class], Vec<Class>) = match c.idx {
        0 => (&HEAD, vec![]),
        i if i <= 8 => (&BODY, vec![Class::MemoryModel, Class::Function, BODY[i as usize - 1]]),
        i if i <= 16 => (&BODY, vec![Class::MemoryModel, Class::Function, Class::Label, BODY[i as usize - 9]]),
        i if i <= 24 => (&BODY, vec![Class::MemoryModel, Class::Function, Class::FunctionEnd, Class::Function, BODY[i as usize - 17]]),
        i if i <= 32 => (&BODY, vec![Class::MemoryModel, Class::Function, Class::Label, Class::Branch, Class::FunctionEnd, BODY[i as usize - 25]]),
        _ => return Ok(()),
    };
    let len = 4 + deep;
    let table: Vec<(Class, Inst)> = alpha.iter().chain(pre.iter()).map(|&k| (k, of_class(&mut c.r, k))).collect();
    let get = |k: Class| table.iter().find(|t| t.0 == k).unwrap().1.clone();
    let start: Vec<Inst> = pre.iter().map(|&k| get(k)).collect();
    for l in 0..=len {
        let mut digits = vec![0usize; l];
        'next: loop {
            let mut v = start.clone();
            v.extend(digits.iter().map(|&d| get(alpha[d])));
            both(c, &v, j)?;
            for d in digits.iter_mut() {
                *d += 1;
                if *d < alpha.len() {
                    continue 'next;
                }
                *d = 0;
            }
            break;
        }
    }
    Ok(())
}
fn f_soup(c: &mut Ctx, j: Judge) -> Res {
    let n = c.r.below(14);
    let mut v = Vec::new();
    if c.r.chance(2, 3) {
        v.push(of_class(&mut c.r, Class::MemoryModel));
    }
    let few: Vec<Class> = (0..4).map(|_| *c.r.pick(&ALL_CLASSES)).collect();
    let narrow = c.r.chance(1, 2);
    for _ in 0..n {
        let cl = if narrow { *c.r.pick(&few) } else { *c.r.pick(&ALL_CLASSES) };
        v.push(of_class(&mut c.r, cl));
    }
    both(c, &v, j)
}
fn f_read(c: &mut Ctx, j: Judge) -> Res {
    if (c.idx as usize) < read::corpus().len() {
        let w = read::corpus()[c.idx as usize].1.clone();
        let (r, _) = read::read(&to_bytes(&w, false), &[ext::glsl()]);
        if let Ok(m) = r {
            let v = lift_all(&m.instructions);
            return j(c, &v, m);
        }
        return Ok(());
    }
    let mut v = legal(&mut c.r, 6);
    // only what the reader can produce, with its imports resolvable
    let mut bound = false;
    v.retain(|i| OPS[i.op].num >= 0 && i.op != oi::OP_EXT_INST_IMPORT);
    v.retain(|i| i.op != oi::OP_EXT_INST || matches!(&i.args[3], Arg::Ext(x) if x.tag == 0));
    if v.iter().any(|i| i.op == oi::OP_EXT_INST) {
        bound = true;
    }
    if bound {
        let at = v.iter().position(|i| class(i) == Class::MemoryModel).unwrap();
        v.insert(at, Inst { op: oi::OP_EXT_INST_IMPORT, args: vec![Arg::Res(77), Arg::Str(ext::GLSL.into())] });
        for i in &mut v {
            if i.op == oi::OP_EXT_INST {
                i.args[2] = Arg::Id(77);
            }
        }
    }
    if c.r.chance(1, 2) {
        mutate(&mut c.r, &mut v);
    }
    via_read(c, &v, j)
}
/// Long sections, one at a time
fn f_long(c: &mut Ctx, j: Judge) -> Res {
    let n = *c.r.pick(&[255usize, 256, 257, 1000, 4095, 4096, 4097, 5000, 32_760, 65_530]) + c.r.below(8);
    let cl = ALL_CLASSES[c.idx as usize % ALL_CLASSES.len()];
    let base = [
        Class::Capability, Class::Extension, Class::ExtInstImport, Class::MemoryModel, Class::EntryPoint, Class::ExecutionMode, Class::Debug, Class::Annotation,
        Class::Global, Class::Function, Class::FunctionParameter, Class::Label, Class::Code, Class::Merge, Class::Branch, Class::FunctionEnd,
    ];
    let mut v = Vec::new();
    for k in base {
        let many = k == cl && !matches!(k, Class::MemoryModel | Class::Merge);
        match k {
            Class::Function if cl == Class::Function || cl == Class::FunctionEnd => {
                for _ in 0..n {
                    v.push(of_class(&mut c.r, Class::Function));
                    v.push(end());
                }
            }
            Class::Label if cl == Class::Label || cl == Class::Branch => {
                for _ in 0..n {
                    v.push(of_class(&mut c.r, Class::Label));
                    v.push(of_class(&mut c.r, Class::Branch));
                }
            }
            _ => {}
        }
        let times = if many && !matches!(k, Class::Function | Class::FunctionEnd | Class::Label | Class::Branch) { n } else { 1 };
        for _ in 0..times {
            v.push(of_class(&mut c.r, k));
        }
    }
    both(c, &v, j)?;
    if c.r.chance(1, 2) {
        // damage far into it
        let p = v.len() - 1 - c.r.below(6.min(v.len() - 1));
        v.remove(p);
        both(c, &v, j)?;
    }
    Ok(())
}

macro_rules! layout_fams {
    ($name:ident, $j:path) => {
        pub static $name: &[Family] = &[
            fam("exhaustive", 33, 33, |c| f_exhaustive(c, $j)),
            fam("opcode", 980, 19_600, |c| f_opcode(c, $j)),
            fam("edit", 800, 6_000, |c| f_edit(c, $j)),
            fam("prefix", 4_000, 60_000, |c| f_prefix(c, $j)),
            fam("legal", 40_000, 800_000, |c| f_legal(c, $j)),
            fam("mutant", 400_000, 8_000_000, |c| f_mutant(c, $j)),
            fam("soup", 400_000, 8_000_000, |c| f_soup(c, $j)),
            fam("read", 100_000, 1_500_000, |c| f_read(c, $j)),
            fam("long", 160, 1_600, |c| f_long(c, $j)),
        ];
    };
}
layout_fams!(C07, judge_content);
layout_fams!(C08, judge_accept);
