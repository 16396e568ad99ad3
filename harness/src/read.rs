//! Reading and disassembly: C01 to C06
use crate::ext::{self, Call, SetSpec};
use crate::frame::*;
use crate::gen;
use crate::harvest::dict;
use crate::rng::Rng;
use crate::spec::*;
use crate::spec_gen::*;
use magmaflow::spv::raw::{read_module, Core, RawModule, ReadError};

pub fn read(bytes: &[u8], sets: &[SetSpec]) -> (Result<RawModule, ReadError>, Vec<Call>) {
    let log = ext::new_log();
    let r = read_module(bytes, ext::instantiate(sets, &log));
    let l = std::mem::take(&mut *log.lock().unwrap());
    (r, l)
}
/// The sample modules that come with the library
pub fn corpus() -> &'static [(String, Vec<u32>)] {
    static C: std::sync::OnceLock<Vec<(String, Vec<u32>)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v = Vec::new();
        if cfg!(miri) {
            return v;
        }
        if let Ok(rd) = std::fs::read_dir("/repo/src/tests") {
            for p in rd.flatten().map(|e| e.path()) {
                if p.extension().map_or(false, |e| e == "spv") {
                    if let Ok(b) = std::fs::read(&p) {
                        let w = b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
                        v.push((p.file_name().unwrap().to_string_lossy().to_string(), w));
                    }
                }
            }
        }
        v.sort();
        v
    })
}
/// Words of a readable module: generated or from the corpus
pub fn some_words(r: &mut Rng, n: usize, sets: &[SetSpec]) -> Vec<u32> {
    if r.chance(1, 8) && !corpus().is_empty() {
        return r.pick(corpus()).1.clone();
    }
    let (h, v) = gen::module(r, n, sets, 60);
    encode_module(&h, &v)
}
pub fn first_diff(got: &[Inst], want: &[Inst]) -> String {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            let f = |x: Option<&Inst>| x.map_or("nothing".into(), |x| format!("{}{}", OPS[x.op].name, short(&format!("{:?}", x.args), 300)));
            return format!("instruction {} of {}: decoded {}, encoded {}", i, want.len(), f(got.get(i)), f(want.get(i)));
        }
    }
    "equal".into()
}

// ---------------------------------------------------------------- C01

fn check_decode(c: &mut Ctx, h: &Header, v: &[Inst], sets: &[SetSpec], be: bool) -> Res {
    let w = encode_module(h, v);
    let bytes = to_bytes(&w, be);
    c.eval();
    c.seen_bytes(&bytes);
    c.count("instructions decoded and compared", v.len() as u64);
    let (res, _) = read(&bytes, sets);
    let m = match res {
        Ok(m) => m,
        Err(e) => {
            // find the offending instruction for the report
            for i in 0..v.len() {
                let (r, _) = read(&to_bytes(&encode_module(h, &v[..=i]), be), sets);
                if r.is_err() {
                    return Err(format!("valid module rejected with {:?} at instruction {}: {} {}", e, i, OPS[v[i].op].name, short(&format!("{:?}", v[i].args), 300)));
                }
            }
            return Err(format!("valid module rejected with {:?}: {}", e, hex(&bytes)));
        }
    };
    let got = lift_all(&m.instructions);
    if got != v {
        return Err(first_diff(&got, v));
    }
    let hh = lift_header(&m);
    if hh != *h {
        return Err(format!("header {:?} read as {:?}", h, hh));
    }
    if encode_module(&hh, &got) != w {
        return Err("re-encoding differs".into());
    }
    c.sample(4, || format!("{} instructions, first: {}", v.len(), v.iter().take(6).map(dis_inst).map(|s| s.trim().to_string()).collect::<Vec<_>>().join("; ")));
    Ok(())
}
/// Surround the instruction with others so that a shifted read shows
fn framed(r: &mut Rng, i: Inst) -> Vec<Inst> {
    let mut v = vec![];
    if r.chance(1, 2) {
        v.push(gen::inst(r, oi::OP_NAME, 4));
    }
    v.push(i);
    v.push(gen::inst(r, oi::OP_LABEL, 4));
    v
}
/// Every operand tree of an instruction with each enumerant and each flag combination in each place
pub fn variants(r: &mut Rng, op: usize) -> Vec<Inst> {
    let mut out = Vec::new();
    let kinds = OPS[op].kinds;
    for (p, k) in kinds.iter().enumerate() {
        let mut base = |r: &mut Rng, a: Arg, out: &mut Vec<Inst>| {
            // force every earlier operand present
            let mut args = Vec::new();
            for k in &kinds[..p] {
                force(r, k, &mut args);
            }
            args.push(a);
            for k in &kinds[p + 1..] {
                if !gen::arg(r, k, &mut args, 6) {
                    break;
                }
            }
            out.push(Inst { op, args });
        };
        match inner(k) {
            Kind::En(e) => {
                for a in enum_args(r, e) {
                    base(r, a, &mut out)
                }
            }
            Kind::Mask(m) => {
                for bits in 0..(1u32 << MASKS[m].bits.len()) {
                    let mut n = 0;
                    for (i, b) in MASKS[m].bits.iter().enumerate() {
                        if bits >> i & 1 == 1 {
                            n |= b.bit
                        }
                    }
                    for _ in 0..3 {
                        let a = gen::mask_arg(r, m, Some(n));
                        base(r, a, &mut out)
                    }
                }
            }
            _ => {}
        }
    }
    out
}
fn inner(k: &Kind) -> Kind {
    match *k {
        Kind::Opt(k) | Kind::Many(k) => *k,
        k => k,
    }
}
fn force(r: &mut Rng, k: &Kind, args: &mut Vec<Arg>) {
    match k {
        Kind::Opt(k) => force(r, k, args),
        k => {
            gen::arg(r, k, args, 6);
        }
    }
}
fn enum_args(r: &mut Rng, e: usize) -> Vec<Arg> {
    let mut out = Vec::new();
    for row in ENUMS[e].rows {
        // every enumerant of an enum parameter too
        let sub = row.params.iter().enumerate().find_map(|(i, k)| match k {
            Kind::En(s) => Some((i, enum_args(r, *s))),
            Kind::Mask(m) => {
                let n = MASKS[*m].bits.len();
                let mut v = Vec::new();
                for bits in 0..(1u32 << n) {
                    let x = (0..n).filter(|i| bits >> i & 1 == 1).map(|i| MASKS[*m].bits[i].bit).fold(0, |a, b| a | b);
                    v.push(gen::mask_arg(r, *m, Some(x)));
                }
                Some((i, v))
            }
            _ => None,
        });
        match sub {
            Some((i, list)) => {
                for s in list {
                    let mut p = Vec::new();
                    for (j, k) in row.params.iter().enumerate() {
                        if j == i {
                            p.push(s.clone())
                        } else {
                            gen::arg(r, k, &mut p, 6);
                        }
                    }
                    out.push(Arg::En(e, row.num, p));
                }
            }
            None => {
                for _ in 0..if row.params.is_empty() { 1 } else { 4 } {
                    out.push(gen::enum_row(r, e, row));
                }
            }
        }
    }
    if ENUMS[e].open {
        for _ in 0..40 {
            let n = gen::num(r);
            if n > 4 {
                out.push(Arg::En(e, n, vec![Arg::Num(n)]));
            }
        }
    }
    out
}

fn c01_random(c: &mut Ctx) -> Res {
    for _ in 0..20 {
        let sets = gen::sets(&mut c.r);
        let n = gen::count(&mut c.r, 400);
        let (h, v) = gen::module(&mut c.r, n, &sets, 300);
        let be = c.r.chance(1, 3);
        check_decode(c, &h, &v, &sets, be)?;
    }
    Ok(())
}
fn c01_variants(c: &mut Ctx) -> Res {
    let ops = gen::readable();
    let op = ops[(c.idx as usize) % ops.len()];
    if op == oi::OP_EXT_INST || op == oi::OP_EXT_INST_IMPORT {
        return Ok(());
    }
    for i in variants(&mut c.r, op) {
        c.count("enumerant and flag variants", 1);
        let v = framed(&mut c.r, i);
        let h = gen::header(&mut c.r);
        check_decode(c, &h, &v, &[], false)?;
    }
    Ok(())
}
/// Set operand word `at` (in encoding order, words only) to a value
fn set_word(args: &mut [Arg], at: &mut usize, val: u32) -> bool {
    for a in args {
        match a {
            Arg::Res(n) | Arg::Id(n) | Arg::Num(n) => {
                if *at == 0 {
                    *n = val;
                    return true;
                }
                *at -= 1;
            }
            Arg::En(e, _, p) => {
                if !ENUMS[*e].open && set_word(p, at, val) {
                    return true;
                }
            }
            Arg::Mask(_, _, p) => {
                if set_word(p, at, val) {
                    return true;
                }
            }
            _ => {}
        }
    }
    false
}
pub fn values() -> Vec<u32> {
    let mut v: Vec<u32> = (0..300).collect();
    for b in 0..32 {
        let p = 1u32 << b;
        v.extend([p.wrapping_sub(1), p, p + 1, !p]);
    }
    v.extend([u32::MAX, u32::MAX - 1, 0x0102_0304, 0x0403_0201, 0x0723_0203, 0x0302_2307]);
    v.extend(&dict().nums);
    v.sort();
    v.dedup();
    v
}
fn c01_values(c: &mut Ctx) -> Res {
    let ops = gen::readable();
    let op = ops[(c.idx as usize) % ops.len()];
    if op == oi::OP_EXT_INST || op == oi::OP_EXT_INST_IMPORT {
        return Ok(());
    }
    let vals = values();
    for at in 0..12 {
        let mut insts = Vec::new();
        for v in &vals {
            let mut args = Vec::new();
            for k in OPS[op].kinds {
                force(&mut c.r, k, &mut args);
            }
            let mut p = at;
            if set_word(&mut args, &mut p, *v) {
                insts.push(Inst { op, args });
            }
        }
        if insts.is_empty() {
            continue;
        }
        c.count("operand values swept", insts.len() as u64);
        let h = gen::header(&mut c.r);
        check_decode(c, &h, &insts, &[], c.idx % 2 == 1)?;
    }
    Ok(())
}
fn has(op: usize, f: fn(&Kind) -> bool) -> bool {
    OPS[op].kinds.iter().any(|k| f(&inner(k)) || f(k)) || (op == oi::OP_DECORATE || op == oi::OP_MEMBER_DECORATE) && f(&Kind::Str)
}
/// Every operand word pair (id equal to another operand, result equal to type, …)
fn c01_strings(c: &mut Ctx) -> Res {
    let ops: Vec<usize> = gen::readable().into_iter().filter(|o| has(*o, |k| *k == Kind::Str) && *o != oi::OP_EXT_INST_IMPORT).collect();
    let op = ops[(c.idx as usize) % ops.len()];
    let mut lens: Vec<usize> = (0..70).collect();
    lens.extend([127, 128, 129, 255, 256, 257, 258, 511, 512, 1023, 1024, 1025, 4095, 4096, 65535, 65536, 200_000]);
    lens.extend(dict().hot_counts.iter());
    let mut v = Vec::new();
    for l in lens {
        for _ in 0..2 {
            let s = gen::string_len(&mut c.r, l);
            v.push(with_string(&mut c.r, op, s));
        }
    }
    for s in dict().strings.clone() {
        v.push(with_string(&mut c.r, op, s));
    }
    // the longest string that fits
    let mut i = with_string(&mut c.r, op, String::new());
    drop_optional(&mut i);
    let base = encode_inst(&i).unwrap().len() - 1;
    let max = (0xFFFF - base) * 4 - 1;
    if op != oi::OP_DECORATE && op != oi::OP_MEMBER_DECORATE {
        for d in 0..4 {
            let s = gen::string_len(&mut c.r, max - d);
            let mut j = i.clone();
            for a in &mut j.args {
                if let Arg::Str(t) = a {
                    *t = s.clone()
                }
            }
            v.push(j);
        }
    }
    v.retain(|i| encode_inst(i).is_some());
    c.count("strings swept", v.len() as u64);
    let h = gen::header(&mut c.r);
    check_decode(c, &h, &v, &[], c.idx % 2 == 1)
}
fn drop_optional(i: &mut Inst) {
    if let Some(p) = i.args.iter().rposition(|a| matches!(a, Arg::Str(_))) {
        i.args.truncate(p + 1);
    }
}
pub fn with_string(r: &mut Rng, op: usize, s: String) -> Inst {
    let mut args = Vec::new();
    for k in OPS[op].kinds {
        if let Kind::En(e) = k {
            if let Some(row) = ENUMS[*e].rows.iter().find(|x| x.params.contains(&Kind::Str)) {
                args.push(gen::enum_row(r, *e, row));
                continue;
            }
        }
        force(r, k, &mut args);
    }
    fn put(args: &mut [Arg], s: &str) {
        for a in args {
            match a {
                Arg::Str(t) => *t = s.to_string(),
                Arg::En(_, _, p) => put(p, s),
                _ => {}
            }
        }
    }
    put(&mut args, &s);
    Inst { op, args }
}
fn c01_lists(c: &mut Ctx) -> Res {
    let ops: Vec<usize> = gen::readable().into_iter().filter(|o| matches!(OPS[*o].kinds.last(), Some(Kind::Many(_)))).collect();
    let op = ops[(c.idx as usize) % ops.len()];
    let elem = match OPS[op].kinds.last() {
        Some(Kind::Many(k)) => **k,
        _ => unreachable!(),
    };
    let mut lens: Vec<usize> = (0..66).collect();
    lens.extend([127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 10_000]);
    lens.extend(dict().hot_counts.iter());
    lens.push(usize::MAX);
    let mut v = Vec::new();
    for l in lens {
        let mut args = Vec::new();
        for k in &OPS[op].kinds[..OPS[op].kinds.len() - 1] {
            force(&mut c.r, k, &mut args);
        }
        let mut i = Inst { op, args };
        let step = if let Kind::Two(..) = elem { 2 } else { 1 };
        let room = (0xFFFF - encode_inst(&i).unwrap().len()) / step;
        if op == oi::OP_CONSTANT && l == 0 {
            continue;
        }
        for _ in 0..l.min(room) {
            gen::arg(&mut c.r, &elem, &mut i.args, 1);
        }
        v.push(i);
    }
    c.count("operand list lengths swept", v.len() as u64);
    let h = gen::header(&mut c.r);
    check_decode(c, &h, &v, &[], c.idx % 2 == 1)
}
/// One instruction followed and preceded by every other kind
fn c01_pairs(c: &mut Ctx) -> Res {
    let ops = gen::readable();
    let a = ops[(c.idx as usize) % ops.len()];
    let sets = [ext::glsl(), SetSpec { name: "test.a", tag: 1 }];
    let mut b = gen::Binder::new(&sets);
    let mut v: Vec<Inst> = vec![];
    v.extend(b.import(&mut c.r));
    for o in &ops {
        v.extend(b.inst(&mut c.r, a, 5));
        v.extend(b.inst(&mut c.r, *o, 5));
    }
    c.count("adjacent kinds covered", 2 * ops.len() as u64);
    let h = gen::header(&mut c.r);
    check_decode(c, &h, &v, &sets, c.idx % 2 == 1)
}
fn c01_long(c: &mut Ctx) -> Res {
    let sets = gen::sets(&mut c.r);
    let n = [3_000, 20_000, 70_000, 140_000, 300_000][(c.idx % 5) as usize];
    let (h, v) = gen::module(&mut c.r, n, &sets, 4);
    check_decode(c, &h, &v, &sets, c.idx % 2 == 1)
}
/// The library's own sample modules, judged by the reference decoder, and joined to each other
fn c01_corpus(c: &mut Ctx) -> Res {
    let all = corpus();
    if all.is_empty() {
        return Ok(());
    }
    let (name, w) = &all[(c.idx as usize) % all.len()];
    let mut w = w.clone();
    if c.idx as usize >= all.len() {
        // a further module's instructions under other set ids would bind twice: keep those without imports
        let (_, v) = gen::module(&mut c.r, 30, &[], 20);
        for i in &v {
            w.extend(encode_inst(i).unwrap());
        }
    }
    let e = reference_read(&to_bytes(&w, false), &[ext::glsl()]);
    c.eval();
    c.seen_bytes(&to_bytes(&w, false));
    let want = match (&e.ok, e.errs.is_empty()) {
        (Some(v), true) => v.clone(),
        _ => return Ok(()),
    };
    let (r, _) = read(&to_bytes(&w, false), &[ext::glsl()]);
    match r {
        Err(x) => Err(format!("sample module {} rejected: {:?}", name, x)),
        Ok(m) => {
            let got = lift_all(&m.instructions);
            if got != want {
                return Err(format!("sample module {}: {}", name, first_diff(&got, &want)));
            }
            Ok(())
        }
    }
}
pub static C01: &[Family] = &[
    fam("variants", 2_450, 61_250, c01_variants),
    fam("values", 294, 7_350, c01_values),
    fam("strings", 72, 1_800, c01_strings),
    fam("lists", 40, 1_000, c01_lists),
    fam("pairs", 3_920, 98_000, c01_pairs),
    fam("corpus", 400, 10_000, c01_corpus),
    fam("random", 250_000, 6_250_000, c01_random),
    fam("long", 32, 800, c01_long),
];

// ---------------------------------------------------------------- C02

pub fn kind_of(debug: &str) -> &str {
    debug.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")
}
pub fn message_ok(e: &ReadError) -> Res {
    let d = format!("{:?}", e);
    let k = kind_of(&d);
    let text = e.to_string();
    match MESSAGES.iter().find(|m| m.0 == k) {
        Some((_, phrase)) => {
            if !text.to_lowercase().contains(phrase) {
                return Err(format!("message of {} does not name the fault: {:?}", d, text));
            }
        }
        None => return Err(format!("unknown kind of error {}", d)),
    }
    Ok(())
}
/// Reject what is malformed, with a fault that is there
pub fn judge(c: &mut Ctx, bytes: &[u8], sets: &[SetSpec]) -> Res {
    let x = reference_read(bytes, sets);
    c.eval();
    let (res, _) = read(bytes, sets);
    match res {
        Ok(m) => {
            match &x.ok {
                None => {
                    return Err(format!("malformed input accepted, it has {:?}: {}", x.errs, hex(bytes)));
                }
                Some(v) => {
                    c.count("well-formed after all", 1);
                    let got = lift_all(&m.instructions);
                    if got != *v {
                        return Err(format!("accepted with other contents: {}", first_diff(&got, v)));
                    }
                }
            }
        }
        Err(e) => {
            if x.must_accept() {
                c.count("well-formed after all", 1);
                return Ok(());
            }
            c.seen_bytes(bytes);
            let d = format!("{:?}", e);
            c.count(&format!("rejected as {}", kind_of(&d)), 1);
            if !x.errs.contains(&d) {
                return Err(format!("error {} but the faults are {:?}: {}", d, x.errs, hex(bytes)));
            }
            message_ok(&e)?;
            c.sample(4, || format!("{} -> {}", hex(bytes), e));
        }
    }
    Ok(())
}
fn judge_words(c: &mut Ctx, w: &[u32], sets: &[SetSpec]) -> Res {
    let be = c.r.chance(1, 3);
    judge(c, &to_bytes(w, be), sets)
}
fn c02_truncation(c: &mut Ctx) -> Res {
    let sets = gen::sets(&mut c.r);
    let n = c.r.range(1, 10);
    let w = some_words(&mut c.r, n, &sets);
    let mut b = to_bytes(&w, c.idx % 3 == 0);
    b.truncate(1600);
    for k in (0..b.len()).rev() {
        judge(c, &b[..k], &sets)?;
    }
    for k in 1..4 {
        let mut t = to_bytes(&w, c.idx % 3 == 0);
        for _ in 0..k {
            t.push(c.r.u32() as u8 & if c.idx % 2 == 0 { 0 } else { 0xFF });
        }
        judge(c, &t, &sets)?;
    }
    Ok(())
}
/// Every opcode, with every small word count, followed by a valid instruction
fn c02_opcodes(c: &mut Ctx) -> Res {
    let lo = c.idx as u32 * 64;
    for op in lo..(lo + 64).min(65536) {
        let known = op <= 330;
        for wc in [1u32, 2, 3, 4, 5, 6, 7, 8, 9, 12] {
            if !known && wc > 3 {
                break;
            }
            let mut w = Header::from_gen(8 << 16, 100).words().to_vec();
            let mut r = c.r.clone();
            if c.r.chance(1, 2) {
                w.extend(encode_inst(&gen::inst(&mut r, oi::OP_NAME, 3)).unwrap());
            }
            w.push(wc << 16 | op);
            for _ in 1..wc {
                w.push(if c.r.chance(1, 2) { c.r.below(6) as u32 } else { gen::num(&mut c.r) });
            }
            w.push(1 << 16);
            judge_words(c, &w, &[ext::glsl()])?;
        }
    }
    Ok(())
}
/// Word counts that do not fit the operands
fn c02_wordcount(c: &mut Ctx) -> Res {
    let ops = gen::readable();
    let op = ops[(c.idx as usize) % ops.len()];
    let sets = [ext::glsl(), SetSpec { name: "test.a", tag: 1 }];
    for _ in 0..6 {
        let mut b = gen::Binder::new(&sets);
        let imp = b.import(&mut c.r).unwrap();
        let i = b.inst(&mut c.r, op, 4).unwrap();
        let e = encode_inst(&i).unwrap();
        let mut pre = gen::header(&mut c.r).words().to_vec();
        pre.extend(encode_inst(&imp).unwrap());
        for wc in 0..(e.len() + 4).min(60) {
            for style in 0..4 {
                let mut w = pre.clone();
                let at = w.len();
                w.extend(&e);
                match style {
                    // only the count is wrong; the stream goes on
                    0 => w.extend([1 << 16, 2 << 16 | 249, 1]),
                    // count and data agree with each other, not with the operands
                    1 => {
                        while w.len() < at + wc.max(1) {
                            let v = gen::num(&mut c.r);
                            w.push(v);
                        }
                        w.truncate(at + wc.max(1));
                        w.push(1 << 16);
                    }
                    2 => {}
                    _ => w.extend([1 << 16; 12]),
                }
                w[at] = (wc as u32) << 16 | (e[0] & 0xFFFF);
                judge_words(c, &w, &sets)?;
            }
        }
    }
    Ok(())
}
/// Paths to enumerants and masks inside an instruction
fn visit(args: &mut Vec<Arg>, f: &mut dyn FnMut(&mut Arg)) {
    for a in args {
        f(a);
        match a {
            Arg::En(_, _, p) | Arg::Mask(_, _, p) => visit(p, f),
            _ => {}
        }
    }
}
fn c02_enums(c: &mut Ctx) -> Res {
    let ops: Vec<usize> = gen::readable().into_iter().filter(|o| OPS[*o].kinds.iter().any(|k| matches!(inner(k), Kind::En(_) | Kind::Mask(_)))).collect();
    let op = ops[(c.idx as usize) % ops.len()];
    let vs = variants(&mut c.r, op);
    let mut bad: Vec<u32> = (0..130).collect();
    for b in 5..32 {
        for d in 0..if b == 8 || b == 16 || b == 31 { 70 } else { 4 } {
            bad.push((1u32 << b).wrapping_add(d));
            bad.push((1u32 << b).wrapping_sub(d));
        }
    }
    bad.extend([u32::MAX, u32::MAX - 1, u32::MAX - 2]);
    bad.extend(&dict().nums);
    bad.sort();
    bad.dedup();
    // one representative per (path, enum)
    let mut done = std::collections::HashSet::new();
    for v in vs {
        let mut targets = Vec::new();
        let mut v2 = v.clone();
        let mut k = 0;
        visit(&mut v2.args, &mut |a| {
            match a {
                Arg::En(e, _, _) if !ENUMS[*e].open => targets.push((k, 0usize, *e)),
                Arg::Mask(m, _, _) => targets.push((k, 1, *m)),
                _ => {}
            }
            k += 1;
        });
        for t in targets {
            if !done.insert(t) {
                continue;
            }
            let nums: Vec<u32> = if t.1 == 0 {
                bad.clone()
            } else {
                // each unknown bit, alone and with known ones
                let known: u32 = MASKS[t.2].bits.iter().fold(0, |a, b| a | b.bit);
                let mut n = Vec::new();
                for b in 0..32u32 {
                    for _ in 0..3 {
                        n.push(1 << b | (c.r.u32() & known));
                    }
                    n.push(1 << b);
                    n.push(1 << b | known);
                }
                n
            };
            for n in nums {
                let mut w2 = v.clone();
                let mut k = 0;
                let mut r = c.r.clone();
                visit(&mut w2.args, &mut |a| {
                    if k == t.0 {
                        match a {
                            Arg::En(e, x, p) => {
                                *x = n;
                                *p = match ENUMS[*e].rows.iter().find(|q| q.num == n) {
                                    Some(row) => match gen::enum_row(&mut r, *e, row) {
                                        Arg::En(_, _, p) => p,
                                        _ => vec![],
                                    },
                                    None => p.iter().filter(|_| r.chance(1, 2)).cloned().collect(),
                                };
                            }
                            Arg::Mask(m, x, p) => {
                                *x = n;
                                *p = MASKS[*m].bits.iter().filter(|b| b.param && n & b.bit != 0).map(|_| Arg::Num(r.u32())).collect();
                            }
                            _ => {}
                        }
                    }
                    k += 1;
                });
                c.r.next();
                let mut w = gen::header(&mut c.r).words().to_vec();
                if let Some(e) = encode_inst(&w2) {
                    w.extend(e);
                }
                w.push(1 << 16);
                judge_words(c, &w, &[])?;
            }
        }
    }
    Ok(())
}
const BAD_UTF8: &[&[u8]] = &[
    b"\x80", b"\xff", b"\xfe", b"\xc0\xaf", b"\xc1\x81", b"\xe0\x80\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3",
    b"\xf8\x88\x80\x80", b"\xed\xbf\xbf", b"\xc3\x28",
];
fn c02_strings(c: &mut Ctx) -> Res {
    let ops: Vec<usize> = gen::readable().into_iter().filter(|o| has(*o, |k| *k == Kind::Str)).collect();
    let op = ops[(c.idx as usize) % ops.len()];
    for n in 0..60 {
        // mark the string, then replace its bytes
        let len = if n < 20 { n } else { c.r.below(40) };
        let mark = "Q".repeat(len + 1);
        let i = with_string(&mut c.r, op, mark.clone());
        let e = encode_inst(&i).unwrap();
        let mut bytes = to_bytes(&e, false);
        let at = match bytes.windows(mark.len()).position(|w| w == mark.as_bytes()) {
            Some(p) => p,
            None => continue,
        };
        match n % 3 {
            0 => {
                let b = c.r.pick(BAD_UTF8);
                let o = at + c.r.below(mark.len());
                for (k, x) in b.iter().enumerate() {
                    if o + k < at + mark.len() {
                        bytes[o + k] = *x;
                    }
                }
            }
            1 => {
                // no terminator: cut the instruction after the text and fill the last word
                let end = (at + mark.len() + 3) / 4 * 4;
                bytes.truncate(end);
                for x in &mut bytes[at..] {
                    if *x == 0 {
                        *x = b'x'
                    }
                }
                let wc = (bytes.len() / 4) as u32;
                bytes[2] = wc as u8;
                bytes[3] = (wc >> 8) as u8;
            }
            _ => {
                // terminator early: the rest becomes excess or other operands
                let o = at + c.r.below(mark.len());
                bytes[o] = 0;
            }
        }
        let mut w: Vec<u32> = gen::header(&mut c.r).words().to_vec();
        w.extend(bytes.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])));
        // what follows must not serve as terminator
        w.extend([1 << 16, 1 << 16]);
        judge_words(c, &w, &[ext::glsl(), SetSpec { name: "Q", tag: 1 }])?;
    }
    Ok(())
}
fn c02_header(c: &mut Ctx) -> Res {
    let (h, v) = gen::module(&mut c.r, 4, &[], 4);
    let base = encode_module(&h, &v);
    for i in [0usize, 1, 4] {
        for b in 0..32 {
            for b2 in b..32 {
                let mut w = base.clone();
                w[i] ^= 1 << b;
                if b2 > b {
                    w[i] ^= 1 << b2;
                }
                judge_words(c, &w, &[])?;
            }
        }
        for _ in 0..200 {
            let mut w = base.clone();
            w[i] = gen::num(&mut c.r);
            judge_words(c, &w, &[])?;
        }
    }
    // magic in the other byte orders
    for perm in [[2usize, 3, 0, 1], [1, 0, 3, 2], [3, 2, 1, 0], [0, 1, 2, 3], [1, 2, 3, 0]] {
        let m = [3u8, 2, 0x23, 7];
        let mut b = to_bytes(&base, false);
        for k in 0..4 {
            b[k] = m[perm[k]];
        }
        judge(c, &b, &[])?;
    }
    Ok(())
}
fn c02_havoc(c: &mut Ctx) -> Res {
    for _ in 0..40 {
        let sets = gen::sets(&mut c.r);
        let n = c.r.range(0, 14);
        let mut w = some_words(&mut c.r, n, &sets);
        for _ in 0..c.r.range(1, 3) {
            gen::damage(&mut c.r, &mut w);
        }
        let mut b = to_bytes(&w, c.r.chance(1, 3));
        if c.r.chance(1, 6) {
            gen::damage_bytes(&mut c.r, &mut b);
        }
        judge(c, &b, &sets)?;
    }
    Ok(())
}
/// Faults far into long modules and in long instructions
fn c02_long(c: &mut Ctx) -> Res {
    let n = [200usize, 2_000, 20_000, 70_000][(c.idx % 4) as usize];
    let (h, v) = gen::module(&mut c.r, n, &[], 6);
    let base = encode_module(&h, &v);
    for k in 0..12 {
        let mut w = base.clone();
        match k {
            0 => {
                w.pop();
            }
            1 => w.push(0),
            2 => w.push(9),
            3 => w.push(1 << 16 | 400),
            _ => gen::damage(&mut c.r, &mut w),
        }
        judge_words(c, &w, &[])?;
    }
    Ok(())
}
/// Something after the end of a module, or in its middle: padding, garbage, another module
fn c02_tails(c: &mut Ctx) -> Res {
    let sets = gen::sets(&mut c.r);
    let n = *c.r.pick(&[0usize, 0, 1, 3, 30]);
    let w = some_words(&mut c.r, n, &sets);
    let big = c.r.chance(1, 3);
    let mut b = to_bytes(&w, big);
    let hot = &dict().hot_counts;
    let len = match c.r.below(6) {
        0 => c.r.range(1, 40),
        1 => 4 * c.r.range(1, 40),
        2 => 1usize << c.r.range(2, 17),
        3 => {
            let k = c.r.range(2, 17);
            (1usize << k) + c.r.below(9) - 4
        }
        // up to a whole page or sector
        4 => {
            let p = *c.r.pick(&[16usize, 64, 512, 4096, 65_536]);
            p - b.len() % p
        }
        _ if !hot.is_empty() => (*c.r.pick(hot)).min(300_000) * *c.r.pick(&[1usize, 4]),
        _ => 4096,
    };
    let mut tail: Vec<u8> = match c.r.below(5) {
        0..=1 => vec![0; len],
        2 => vec![*c.r.pick(&[0xFFu8, 0x20, 0x0A, 0x1A, 0xCC, 0xCD]); len],
        3 => {
            // the same again
            let mut t = b.clone();
            if c.r.chance(1, 2) {
                t.drain(..20);
            } else if c.r.chance(1, 2) {
                t = to_bytes(&w, !big);
            }
            t
        }
        _ => {
            let x = *c.r.pick(&[1u32 << 16, 0x0000_0001, 0x0001_0001, 0x0723_0203, 0xFFFF_FFFF, 0x0001_FFFF]);
            to_bytes(&vec![x; len / 4], big)
        }
    };
    if c.r.chance(1, 8) {
        // all but its last byte
        if let Some(x) = tail.last_mut() {
            *x ^= 1;
        }
    }
    if c.r.chance(1, 4) && b.len() > 20 {
        let at = 20 + 4 * c.r.below((b.len() - 20) / 4 + 1);
        let rest = b.split_off(at);
        b.extend(tail);
        b.extend(rest);
    } else {
        b.extend(tail);
    }
    judge(c, &b, &sets)
}
pub static C02: &[Family] = &[
    fam("tails", 40_000, 1_000_000, c02_tails),
    fam("truncation", 1_800, 45_000, c02_truncation),
    fam("opcodes", 4_096, 102_400, c02_opcodes),
    fam("wordcount", 7_840, 196_000, c02_wordcount),
    fam("enums", 680, 17_000, c02_enums),
    fam("strings", 1_800, 60_000, c02_strings),
    fam("header", 144, 3_600, c02_header),
    fam("havoc", 120_000, 3_000_000, c02_havoc),
    fam("long", 32, 800, c02_long),
];

// ---------------------------------------------------------------- C03

fn both(c: &mut Ctx, w: &[u32], cut: usize, sets: &[SetSpec]) -> Res {
    c.eval();
    let mut l = to_bytes(w, false);
    let mut b = to_bytes(w, true);
    let keep = l.len() - cut.min(l.len());
    l.truncate(keep);
    b.truncate(keep);
    let (rl, cl) = read(&l, sets);
    let (rb, cb) = read(&b, sets);
    c.seen_bytes(&l);
    if cl != cb {
        return Err(format!("instruction sets were called differently: little {:?}, big {:?}", cl, cb));
    }
    match (&rl, &rb) {
        (Ok(a), Ok(b)) => {
            c.count("both accepted", 1);
            c.count("instructions compared", a.instructions.len() as u64);
            let (x, y) = (lift_all(&a.instructions), lift_all(&b.instructions));
            if x != y {
                return Err(format!("little-endian against big-endian: {}", first_diff(&x, &y)));
            }
            if lift_header(a) != lift_header(b) {
                return Err(format!("headers differ: little {:?}, big {:?}", lift_header(a), lift_header(b)));
            }
            if a != b {
                return Err("modules with the same contents compare unequal".into());
            }
            let (s, t) = (a.to_string(), b.to_string());
            if s != t {
                return Err(format!("disassembly differs {}", diff(&s, &t)));
            }
        }
        (Err(a), Err(b)) => {
            c.count("both rejected", 1);
            if format!("{:?}", a) != format!("{:?}", b) || a.to_string() != b.to_string() {
                return Err(format!("errors differ: little {:?}, big {:?} for words {:x?}", a, b, &w[..w.len().min(60)]));
            }
        }
        (a, b) => {
            let f = |r: &Result<RawModule, ReadError>| match r {
                Ok(m) => format!("{} instructions", m.instructions.len()),
                Err(e) => format!("{:?}", e),
            };
            return Err(format!("little-endian gives {}, big-endian {} for words {:x?}", f(a), f(b), &w[..w.len().min(60)]));
        }
    }
    c.sample(3, || format!("{} words cut by {} bytes: {}", w.len(), cut, match rl { Ok(m) => format!("{} instructions", m.instructions.len()), Err(e) => e.to_string() }));
    Ok(())
}
fn c03_valid(c: &mut Ctx) -> Res {
    for _ in 0..20 {
        let sets = gen::sets(&mut c.r);
        let n = gen::count(&mut c.r, 200);
        let w = some_words(&mut c.r, n, &sets);
        both(c, &w, 0, &sets)?;
    }
    Ok(())
}
fn c03_damaged(c: &mut Ctx) -> Res {
    for _ in 0..30 {
        let sets = gen::sets(&mut c.r);
        let n = c.r.range(0, 12);
        let mut w = some_words(&mut c.r, n, &sets);
        for _ in 0..c.r.range(1, 2) {
            gen::damage(&mut c.r, &mut w);
        }
        // a first word that is the magic of the other order means other words
        if w.is_empty() || w[0] == 0x0302_2307 {
            continue;
        }
        let cut = if c.r.chance(1, 3) { c.r.below(9) } else { 0 };
        both(c, &w, cut, &sets)?;
    }
    Ok(())
}
fn c03_cuts(c: &mut Ctx) -> Res {
    let sets = gen::sets(&mut c.r);
    let n = c.r.range(1, 6);
    let mut w = some_words(&mut c.r, n, &sets);
    w.truncate(300);
    for cut in 0..w.len() * 4 - 3 {
        both(c, &w, cut, &sets)?;
    }
    Ok(())
}
/// Every instruction kind, strings and constants with asymmetric bytes
fn c03_kinds(c: &mut Ctx) -> Res {
    let ops = gen::readable();
    let op = ops[(c.idx as usize) % ops.len()];
    let sets = [ext::glsl(), SetSpec { name: "test.a", tag: 1 }];
    let mut b = gen::Binder::new(&sets);
    let mut v = vec![b.import(&mut c.r).unwrap()];
    for _ in 0..30 {
        v.extend(b.inst(&mut c.r, op, 20));
    }
    let h = gen::header(&mut c.r);
    both(c, &encode_module(&h, &v), 0, &sets)
}
fn c03_header(c: &mut Ctx) -> Res {
    let (h, v) = gen::module(&mut c.r, 3, &[], 4);
    let base = encode_module(&h, &v);
    for i in 0..5 {
        for b in 0..32 {
            let mut w = base.clone();
            w[i] ^= 1 << b;
            both(c, &w, 0, &[])?;
            w[i] = gen::num(&mut c.r);
            if w[0] != 0x0302_2307 {
                both(c, &w, 0, &[])?;
            }
        }
    }
    Ok(())
}
fn c03_long(c: &mut Ctx) -> Res {
    let sets = gen::sets(&mut c.r);
    let (h, v) = gen::module(&mut c.r, 30_000, &sets, 8);
    both(c, &encode_module(&h, &v), 0, &sets)?;
    let s = gen::string_len(&mut c.r, 200_000);
    let i = with_string(&mut c.r, oi::OP_SOURCE_CONTINUED, s);
    both(c, &encode_module(&h, &[i]), 0, &[])
}
pub static C03: &[Family] = &[
    fam("kinds", 4_900, 122_500, c03_kinds),
    fam("header", 72, 1_800, c03_header),
    fam("cuts", 1_600, 40_000, c03_cuts),
    fam("valid", 18_000, 450_000, c03_valid),
    fam("damaged", 45_000, 1_125_000, c03_damaged),
    fam("long", 16, 400, c03_long),
];

// ---------------------------------------------------------------- C04

fn header_case(c: &mut Ctx, h: &Header, be: bool, tail: &[u32]) -> Res {
    let mut w = h.words().to_vec();
    w.extend(tail);
    c.eval();
    c.seen(crate::rng::mix((w[2] as u64) << 32 | w[3] as u64));
    let (r, _) = read(&to_bytes(&w, be), &[crate::ext::glsl()]);
    let m = match r {
        Ok(m) => m,
        Err(e) => return Err(format!("valid header {:?} rejected: {:?}", h, e)),
    };
    let got = lift_header(&m);
    if got != *h {
        return Err(format!("header {:?} reported as {:?}", h, got));
    }
    let text = m.to_string();
    let want = dis_header(h);
    if !text.starts_with(&want) {
        return Err(format!("textual header of {:?} {}", h, diff(&text, &want)));
    }
    c.sample(3, || format!("{:?} -> {:?}", h, text.lines().take(5).collect::<Vec<_>>()));
    Ok(())
}
/// All tool ids
fn c04_tools(c: &mut Ctx) -> Res {
    let lo = c.idx as u32 * 256;
    for t in lo..lo + 256 {
        let vs = [0u32, 1, 0xFFFF, c.r.u32() & 0xFFFF, t & 0xFFFF];
        for v in vs {
            let h = Header::from_gen(t << 16 | v, gen::num(&mut c.r));
            let be = c.r.chance(1, 2);
            header_case(c, &h, be, &[])?;
        }
    }
    Ok(())
}
/// All tool versions and all single-bit, boundary and dictionary bounds
fn c04_fields(c: &mut Ctx) -> Res {
    let lo = c.idx as u32 * 1024;
    for v in lo..lo + 1024 {
        let t = c.r.below(14) as u32;
        let h = Header::from_gen(t << 16 | v, v.rotate_left(c.r.below(32) as u32));
        let be = c.r.chance(1, 2);
        header_case(c, &h, be, &[1 << 16])?;
    }
    for b in values() {
        let h = Header::from_gen(c.r.u32(), b);
        header_case(c, &h, b % 2 == 0, &[])?;
    }
    Ok(())
}
/// No other version and no schema is accepted
fn c04_reject(c: &mut Ctx) -> Res {
    let lo = c.idx as u32 * 512;
    let tail = if c.idx % 2 == 0 { vec![] } else { vec![1 << 16] };
    let go = |c: &mut Ctx, ver: u32, schema: u32| -> Res {
        if ver == 0x10000 && schema == 0 {
            return Ok(());
        }
        let mut w = vec![0x0723_0203, ver, c.r.u32(), c.r.u32(), schema];
        w.extend(&tail);
        c.eval();
        c.seen(crate::rng::mix((ver as u64) << 32 | schema as u64));
        c.count("other versions or schemas tried", 1);
        let be = c.r.chance(1, 2);
        let (r, _) = read(&to_bytes(&w, be), &[]);
        match r {
            Ok(m) => Err(format!("version word {:#010x}, schema {} accepted as {:?}", ver, schema, m.version)),
            Err(e) => {
                let x = reference_read(&to_bytes(&w, be), &[]);
                let d = format!("{:?}", e);
                if !x.errs.contains(&d) {
                    return Err(format!("version word {:#010x}, schema {} rejected as {}", ver, schema, d));
                }
                message_ok(&e)
            }
        }
    };
    for k in lo..lo + 512 {
        // major and minor byte
        go(c, k << 8, 0)?;
        // outer bytes with the right inner ones
        go(c, 0x10000 | (k & 0xFF) | (k >> 8) << 24, 0)?;
    }
    for a in 0..32 {
        for b in a..32 {
            go(c, 0x10000 ^ (1 << a) ^ if b > a { 1 << b } else { 0 }, 0)?;
            go(c, 0x10000, (1 << a) | (1 << b))?;
        }
    }
    for _ in 0..300 {
        let (v, s) = (gen::num(&mut c.r), gen::num(&mut c.r));
        go(c, v, 0)?;
        go(c, 0x10000, s)?;
    }
    Ok(())
}
fn c04_random(c: &mut Ctx) -> Res {
    for _ in 0..500 {
        let h = gen::header(&mut c.r);
        let be = c.r.chance(1, 2);
        header_case(c, &h, be, &[1 << 16])?;
    }
    Ok(())
}
/// The printed header of modules built by the caller, including other versions
fn c04_text(c: &mut Ctx) -> Res {
    for _ in 0..200 {
        let mut h = gen::header(&mut c.r);
        h.version = (c.r.u32() as u8, c.r.u32() as u8);
        let n = c.r.below(3);
        let (_, v) = gen::module(&mut c.r, n, &[], 3);
        let m = build_module(&h, &v);
        c.eval();
        let (got, want) = (m.to_string(), dis_header(&h));
        if !got.starts_with(&want) {
            return Err(format!("textual header of {:?} {}", h, diff(&got, &want)));
        }
    }
    Ok(())
}
/// Headers of modules with bodies of every kind; bounds below, at and above the ids used
fn c04_bodies(c: &mut Ctx) -> Res {
    let sets = [crate::ext::glsl()];
    for _ in 0..40 {
        let v: Vec<Inst> = match c.r.below(4) {
            0 => {
                let s = crate::cfgm::structured(&mut c.r, 8, 4);
                s.blocks.iter().flat_map(crate::cfgm::insts_of).filter(|i| i.op != oi::OP_EXT_INST).collect()
            }
            1 => crate::layout::legal(&mut c.r, 4).into_iter().filter(|i| OPS[i.op].num >= 0 && i.op != oi::OP_EXT_INST && i.op != oi::OP_EXT_INST_IMPORT).collect(),
            2 => {
                let n = c.r.range(1, 4);
                gen::module(&mut c.r, n, &sets, 20).1
            }
            _ => {
                let n = c.r.range(1, 30);
                gen::module(&mut c.r, n, &sets, 20).1
            }
        };
        let mut h = gen::header(&mut c.r);
        let w = encode_module(&h, &v);
        h.bound = match c.r.below(4) {
            0 => c.r.below(8) as u32,
            1 | 2 if w.len() > 5 => {
                // a word of the body, or one beside it
                let x = *c.r.pick(&w[5..]);
                x.wrapping_add(c.r.below(3) as u32).wrapping_sub(1)
            }
            _ => h.bound,
        };
        let be = c.r.chance(1, 3);
        c.count("instructions behind judged headers", v.len() as u64);
        header_case(c, &h, be, &w[5..])?;
    }
    Ok(())
}
/// Headers of modules with very many instructions, ids, names and words
fn c04_long(c: &mut Ctx) -> Res {
    let n = [100usize, 1_000, 5_000, 20_000][(c.idx % 4) as usize] + c.r.below(50);
    let op = *c.r.pick(&gen::readable());
    let mut tail = vec![];
    let ops = gen::readable();
    for k in 0..n {
        let o = match c.r.below(4) { 0 => op, _ => *c.r.pick(&ops) };
        if o == oi::OP_EXT_INST || o == oi::OP_EXT_INST_IMPORT {
            continue;
        }
        let i = gen::inst(&mut c.r, o, 3);
        let h = Header::from_gen(0, 0);
        if k % 7 == 0 {
            tail.extend([2 << 16 | 248, k as u32]);
        }
        tail.extend(&encode_module(&h, std::slice::from_ref(&i))[5..]);
    }
    let mut h = gen::header(&mut c.r);
    if c.r.chance(1, 2) {
        h.bound = c.r.below(n) as u32;
    }
    let be = c.r.chance(1, 3);
    header_case(c, &h, be, &tail)
}
pub static C04: &[Family] = &[
    fam("bodies", 16_000, 800_000, c04_bodies),
    fam("long", 160, 8_000, c04_long),
    fam("tools", 256, 256, c04_tools),
    fam("fields", 64, 64, c04_fields),
    fam("reject", 128, 128, c04_reject),
    fam("random", 40_000, 1_000_000, c04_random),
    fam("text", 400, 10_000, c04_text),
];

// ---------------------------------------------------------------- C05

fn dispatch(c: &mut Ctx, w: &[u32], sets: &[SetSpec]) -> Res {
    let be = c.r.chance(1, 4);
    let bytes = to_bytes(w, be);
    let x = reference_read(&bytes, sets);
    c.eval();
    c.seen_bytes(&bytes);
    let (res, calls) = read(&bytes, sets);
    let calls: Vec<Call> = calls;
    let want: Vec<&Call> = x.calls.iter().filter(|k| k.tag != 0).collect();
    c.count("set calls observed", calls.len() as u64);
    let dump = |sets: &[SetSpec]| format!("sets {:?}, words {:x?}", sets, &w[..w.len().min(120)]);
    for (i, k) in calls.iter().enumerate() {
        if want.get(i).map_or(true, |y| *y != k) {
            return Err(format!("call {} to a set was {:?}, expected {:?}; {}", i, k, want.get(i), dump(sets)));
        }
    }
    match res {
        Ok(m) => {
            let v = match &x.ok {
                Some(v) => v,
                None => return Err(format!("accepted although {:?}; {}", x.errs, dump(sets))),
            };
            if calls.len() != want.len() {
                return Err(format!("sets were called {} times, expected {}; {}", calls.len(), want.len(), dump(sets)));
            }
            let got = lift_all(&m.instructions);
            if got != *v {
                return Err(format!("{}; {}", first_diff(&got, v), dump(sets)));
            }
            for (g, y) in m.instructions.iter().zip(v) {
                if let (Core::OpExtInst(o), Some(Arg::Ext(e))) = (g, y.args.get(3)) {
                    c.count(if e.tag == 0 { "GLSL instructions" } else { "recorded-set instructions" }, 1);
                    let i = o.instruction.as_ref();
                    if i.get_op().get_name() != ext::model_name(e) {
                        return Err(format!("instruction {:?} is named {:?}", e, i.get_op().get_name()));
                    }
                    if i.get_op().to_string() != ext::model_text(e) || i.to_string() != ext::model_text(e) || o.instruction.to_string() != ext::model_text(e) {
                        return Err(format!("instruction {:?} prints as {:?} / {:?}", e, i.to_string(), o.instruction.to_string()));
                    }
                }
            }
            c.sample(3, || format!("{:?}: {}", sets.iter().map(|s| s.name).collect::<Vec<_>>(), v.iter().filter(|i| i.op == oi::OP_EXT_INST || i.op == oi::OP_EXT_INST_IMPORT).take(5).map(|i| dis_inst(i).trim().to_string()).collect::<Vec<_>>().join("; ")));
        }
        Err(e) => {
            let d = format!("{:?}", e);
            c.count(&format!("rejected as {}", kind_of(&d)), 1);
            if !x.errs.contains(&d) {
                return Err(format!("error {} but expected {:?}; {}", d, if x.errs.is_empty() { vec!["success".to_string()] } else { x.errs.clone() }, dump(sets)));
            }
            if x.errs.len() == 1 && calls.len() != want.len() {
                return Err(format!("sets were called {} times before {}, expected {}; {}", calls.len(), d, want.len(), dump(sets)));
            }
            message_ok(&e)?;
        }
    }
    Ok(())
}
fn imp(id: u32, name: &str) -> Vec<u32> {
    let mut w = vec![0, id];
    encode_str(name.as_bytes(), &mut w);
    w[0] = (w.len() as u32) << 16 | 11;
    w
}
fn exti(ty: u32, res: u32, set: u32, n: u32, ops: &[u32]) -> Vec<u32> {
    let mut w = vec![(5 + ops.len() as u32) << 16 | 12, ty, res, set, n];
    w.extend(ops);
    w
}
fn c05_random(c: &mut Ctx) -> Res {
    for _ in 0..20 {
        let sets = gen::sets(&mut c.r);
        let mut w = gen::header(&mut c.r).words().to_vec();
        let mut ids: Vec<u32> = (0..4).map(|_| gen::id(&mut c.r)).collect();
        if c.r.chance(1, 3) {
            for k in 1..4 {
                ids[k] = gen::near(&mut c.r, ids[k - 1]);
            }
        }
        let n = c.r.range(1, 24);
        let clean = c.r.chance(2, 3);
        let mut bound: Vec<(u32, usize)> = vec![];
        for _ in 0..n {
            match c.r.below(10) {
                0..=2 => {
                    let name = if sets.is_empty() || !clean && c.r.chance(1, 4) { *c.r.pick(gen::SET_NAMES) } else { c.r.pick(&sets).name };
                    let id = if clean && c.r.chance(1, 2) { gen::num(&mut c.r) } else { *c.r.pick(&ids) };
                    if clean && (bound.iter().any(|b| b.0 == id) || !sets.iter().any(|s| s.name == name)) {
                        continue;
                    }
                    if let Some(p) = sets.iter().position(|s| s.name == name) {
                        bound.push((id, p));
                    }
                    w.extend(imp(id, name));
                }
                3..=7 => {
                    let (set, k) = if !bound.is_empty() && (clean || c.r.chance(4, 5)) {
                        *c.r.pick(&bound)
                    } else if clean {
                        continue;
                    } else {
                        (*c.r.pick(&ids), 0)
                    };
                    let glsl = sets.get(k).map_or(true, |s| s.tag == 0);
                    let mut num = if glsl && (clean || c.r.chance(3, 4)) { 13 + c.r.below(2) as u32 } else { gen::num(&mut c.r) };
                    let mut len = if glsl { 1 } else { ext::arity(num).unwrap_or(c.r.below(12)) };
                    if clean && !glsl && (num % 8 == 4 || num % 8 == 5) {
                        num = num / 8 * 8 + 3;
                        len = gen::count(&mut c.r, 40);
                    }
                    if !clean && c.r.chance(1, 4) {
                        len = c.r.below(6);
                    }
                    let ops: Vec<u32> = (0..len).map(|_| gen::num(&mut c.r)).collect();
                    w.extend(exti(gen::id(&mut c.r), gen::id(&mut c.r), set, num, &ops));
                }
                _ => {
                    let ops = gen::readable();
                    let op = *c.r.pick(&ops);
                    if op != oi::OP_EXT_INST && op != oi::OP_EXT_INST_IMPORT {
                        w.extend(encode_inst(&gen::inst(&mut c.r, op, 4)).unwrap());
                    }
                }
            }
        }
        dispatch(c, &w, &sets)?;
    }
    Ok(())
}
/// Every instruction number near the known ones, and boundary numbers, with 0 to 3 operands
fn c05_glsl(c: &mut Ctx) -> Res {
    let mut nums: Vec<u32> = (0..400).collect();
    nums.extend(values());
    for s in 5..32 {
        nums.extend([13 + (1 << s), 14 + (1 << s)]);
    }
    let lo = c.idx as usize * 64;
    for n in nums.into_iter().skip(lo).take(64) {
        for k in 0..4 {
            let sid = gen::id(&mut c.r);
            let mut w = gen::header(&mut c.r).words().to_vec();
            w.extend(imp(sid, ext::GLSL));
            let ops: Vec<u32> = (0..k).map(|_| gen::num(&mut c.r)).collect();
            w.extend(exti(gen::id(&mut c.r), gen::id(&mut c.r), sid, n, &ops));
            w.extend([1 << 16]);
            dispatch(c, &w, &[ext::glsl()])?;
            dispatch(c, &w, &[SetSpec { name: "x", tag: 3 }, ext::glsl(), SetSpec { name: ext::GLSL, tag: 4 }])?;
            dispatch(c, &w, &[SetSpec { name: ext::GLSL, tag: 4 }, ext::glsl()])?;
        }
    }
    // operand values of Sin and Cos
    if lo < 256 {
        let mut w = gen::header(&mut c.r).words().to_vec();
        w.extend(imp(7, ext::GLSL));
        for v in values() {
            w.extend(exti(gen::id(&mut c.r), gen::id(&mut c.r), 7, 13 + v % 2, &[v]));
            w.extend(exti(gen::id(&mut c.r), gen::id(&mut c.r), 7, 14 - v % 2, &[v]));
        }
        dispatch(c, &w, &[ext::glsl()])?;
    }
    Ok(())
}
/// Names that nearly match
fn c05_names(c: &mut Ctx) -> Res {
    let mut names: Vec<String> = gen::SET_NAMES.iter().map(|s| s.to_string()).collect();
    names.extend(dict().strings.iter().cloned());
    for s in dict().hot_strings.iter() {
        names.push(s.clone());
    }
    let base: Vec<String> = names.iter().take(15).cloned().collect();
    for b in base {
        names.push(format!("{} ", b));
        names.push(format!(" {}", b));
        names.push(b.to_uppercase());
        names.push(b.to_lowercase());
        names.push(b.chars().rev().collect());
        if let Some((i, _)) = b.char_indices().last() {
            names.push(b[..i].to_string());
        }
        names.push(format!("{}0", b));
        names.push(format!("{}{}", b, b));
        names.push(b.replace('.', "_"));
    }
    for l in [3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 255, 256] {
        names.push(gen::string_len(&mut c.r, l));
    }
    for _ in 0..40 {
        let n = c.r.range(1, 6);
        let sets: Vec<SetSpec> = (0..n)
            .map(|t| {
                if t == 0 && c.r.chance(1, 2) {
                    ext::glsl()
                } else {
                    SetSpec { name: ext::intern(c.r.pick(&names)), tag: t as u32 + 1 }
                }
            })
            .collect();
        let want = if c.r.chance(1, 2) { c.r.pick(&sets).name.to_string() } else { c.r.pick(&names).clone() };
        let id = gen::id(&mut c.r);
        let mut w = gen::header(&mut c.r).words().to_vec();
        w.extend(imp(id, &want));
        let glsl = sets.iter().find(|s| s.name == want).map_or(false, |s| s.tag == 0);
        let k = if glsl { 13 } else { 3 };
        w.extend(exti(1, 2, id, k, &[5]));
        dispatch(c, &w, &sets)?;
    }
    Ok(())
}
/// Many imports; ids that collide in low bits; the same set under several ids; late and repeated imports
fn c05_many(c: &mut Ctx) -> Res {
    let k = [2usize, 10, 100, 1_000, 5_000][(c.idx % 5) as usize];
    let sets: Vec<SetSpec> = (0..5).map(|t| if t == 2 { ext::glsl() } else { SetSpec { name: gen::SET_NAMES[t + 1], tag: t as u32 + 1 } }).collect();
    let mut w = gen::header(&mut c.r).words().to_vec();
    let step = *c.r.pick(&[1u32, 0x100, 0x10000, 0x0100_0000, 0x1_0001, 77]);
    let mut ids = Vec::new();
    let mut at = c.r.u32() % 5;
    for _ in 0..k {
        if ids.iter().any(|x: &(u32, usize)| x.0 == at) && ids.len() < 300 {
            at = c.r.u32();
        }
        let s = c.r.below(sets.len());
        ids.push((at, s));
        at = at.wrapping_add(step);
    }
    ids.sort();
    ids.dedup_by_key(|x| x.0);
    c.r.shuffle(&mut ids);
    for (i, (id, s)) in ids.iter().enumerate() {
        w.extend(imp(*id, sets[*s].name));
        let (id2, s2) = ids[c.r.below(i + 1)];
        let n = if sets[s2].tag == 0 { 13 } else { 1 };
        w.extend(exti(1, 2, id2, n, &[c.r.u32()]));
    }
    dispatch(c, &w, &sets)?;
    // now one fault at the end
    for f in 0..4 {
        let mut w = w.clone();
        let (id, _) = ids[c.r.below(ids.len())];
        match f {
            0 => w.extend(imp(id, sets[c.r.below(5)].name)),
            1 => {
                let mut u = id.wrapping_add(1);
                while ids.iter().any(|x| x.0 == u) {
                    u = u.wrapping_add(1);
                }
                w.extend(exti(1, 2, u, 1, &[1]));
                w.extend(imp(u, sets[0].name));
            }
            2 => w.extend(imp(0xFFFF_FFF0, "nope")),
            _ => w.extend(exti(1, 2, id, 8, &[1])),
        }
        w.push(1 << 16);
        dispatch(c, &w, &sets)?;
    }
    Ok(())
}
/// Ids also used for other things; operand lists of every length; longest instruction
fn c05_shapes(c: &mut Ctx) -> Res {
    let sets = [SetSpec { name: "test.a", tag: 1 }, SetSpec { name: "test.b", tag: 2 }, ext::glsl()];
    let mut w = gen::header(&mut c.r).words().to_vec();
    w.extend(imp(1, "test.a"));
    w.extend(imp(2, "test.b"));
    let mut lens: Vec<usize> = (0..64).collect();
    lens.extend([127, 128, 255, 256, 1000, 65530, 65529]);
    lens.extend(dict().hot_counts.iter().filter(|n| **n < 65530));
    for l in lens {
        let ops: Vec<u32> = (0..l).map(|_| gen::num(&mut c.r)).collect();
        w.extend(exti(gen::id(&mut c.r), gen::id(&mut c.r), 1 + (l % 2) as u32, c.r.u32() / 8 * 8 + 3, &ops));
    }
    dispatch(c, &w, &sets)?;
    // a string, type or extended instruction with the same id neither binds nor unbinds
    let id = gen::id(&mut c.r).max(3);
    for f in 0..5 {
        let mut w = gen::header(&mut c.r).words().to_vec();
        let other = match f {
            0 => vec![3 << 16 | 7, id, 0x61],
            1 => vec![2 << 16 | 19, id],
            2 => exti(id, id, 9, 1, &[id]),
            3 => vec![2 << 16 | 248, id],
            _ => vec![3 << 16 | 5, id, 0],
        };
        let pos = c.r.below(3);
        w.extend(imp(9, "test.b"));
        if pos == 0 {
            w.extend(&other);
        }
        if pos != 2 {
            w.extend(imp(id, "test.a"));
        }
        w.extend(&other);
        w.extend(exti(1, 2, id, 1, &[5]));
        if pos == 2 {
            w.extend(imp(id, "test.a"));
        }
        dispatch(c, &w, &sets)?;
    }
    // every instruction number class with every operand count
    for n in 0..16u32 {
        for l in 0..6u32 {
            let mut w = gen::header(&mut c.r).words().to_vec();
            w.extend(imp(4, "test.b"));
            let ops: Vec<u32> = (0..l).map(|_| gen::num(&mut c.r)).collect();
            let hi = c.r.u32() / 16 * 16;
            w.extend(exti(1, 2, 4, hi + n, &ops));
            w.push(1 << 16);
            dispatch(c, &w, &sets)?;
            w.truncate(w.len() - 1);
            dispatch(c, &w, &sets)?;
        }
    }
    Ok(())
}
pub static C05: &[Family] = &[
    fam("glsl", 24, 24, c05_glsl),
    fam("names", 1_800, 45_000, c05_names),
    fam("many", 320, 8_000, c05_many),
    fam("shapes", 320, 8_000, c05_shapes),
    fam("random", 60_000, 1_500_000, c05_random),
];

// ---------------------------------------------------------------- C06

fn check_text(c: &mut Ctx, h: &Header, v: &[Inst]) -> Res {
    c.eval();
    let m = build_module(h, v);
    let got = m.to_string();
    let want = dis_module(h, v);
    c.seen_bytes(want.as_bytes());
    c.count("printed instructions compared", v.len() as u64);
    if got != want {
        return Err(format!("disassembly differs {}", diff(&got, &want)));
    }
    c.sample(3, || want.lines().skip(5).take(5).map(|l| l.trim().to_string()).collect::<Vec<_>>().join("; "));
    Ok(())
}
fn check_single(c: &mut Ctx, i: &Inst) -> Res {
    c.eval();
    let want = dis_inst(i);
    let (a, b, _) = print_any(i);
    c.seen_bytes(want.as_bytes());
    c.count("stand-alone instructions compared", 1);
    if a != want || b != want {
        return Err(format!("{} prints {}", OPS[i.op].name, diff(if a != want { &a } else { &b }, &want)));
    }
    Ok(())
}
pub fn any_inst(r: &mut Rng, op: usize, max: usize) -> Inst {
    if op == oi::OP_EXT_INST {
        let x = if r.chance(1, 2) {
            ExtVal { tag: 0, inst: 13 + r.below(2) as u32, words: vec![gen::id(r)] }
        } else {
            ExtVal { tag: 1 + r.below(4) as u32, inst: gen::num(r), words: (0..r.below(5)).map(|_| gen::num(r)).collect() }
        };
        return Inst { op, args: vec![Arg::Id(gen::id(r)), Arg::Res(gen::id(r)), Arg::Id(gen::id(r)), Arg::Ext(x)] };
    }
    gen::inst(r, op, max)
}
/// Every instruction type, the ones the reader never yields included
fn c06_each(c: &mut Ctx) -> Res {
    let op = c.idx as usize % OPS.len();
    for n in 0..80 {
        let i = any_inst(&mut c.r, op, if n % 4 == 0 { 60 } else { 6 });
        if op != oi::OP_EXT_INST {
            check_single(c, &i)?;
        }
        if op < N_CORE {
            let h = gen::header(&mut c.r);
            check_text(c, &h, &[i])?;
        }
    }
    Ok(())
}
fn c06_variants(c: &mut Ctx) -> Res {
    let op = c.idx as usize % OPS.len();
    if op == oi::OP_EXT_INST {
        return Ok(());
    }
    let vs = variants(&mut c.r, op);
    c.count("enumerant and flag variants", vs.len() as u64);
    for i in &vs {
        check_single(c, i)?;
    }
    if op < N_CORE && !vs.is_empty() {
        let h = gen::header(&mut c.r);
        check_text(c, &h, &vs)?;
    }
    Ok(())
}
fn c06_values(c: &mut Ctx) -> Res {
    let op = c.idx as usize % OPS.len();
    if op == oi::OP_EXT_INST {
        return Ok(());
    }
    for at in 0..10 {
        for v in values() {
            let mut args = Vec::new();
            for k in OPS[op].kinds {
                force(&mut c.r, k, &mut args);
            }
            let mut p = at;
            if !set_word(&mut args, &mut p, v) {
                return Ok(());
            }
            check_single(c, &Inst { op, args })?;
        }
    }
    Ok(())
}
fn c06_strings(c: &mut Ctx) -> Res {
    let ops: Vec<usize> = (0..N_CORE).filter(|o| has(*o, |k| *k == Kind::Str)).collect();
    let op = ops[c.idx as usize % ops.len()];
    let mut v = Vec::new();
    for l in (0..70).chain([127, 128, 255, 256, 1000, 1023, 1024, 4095, 4096, 4097, 5000, 16_385]).chain(dict().hot_counts.iter().copied().filter(|n| *n < 20_000)) {
        let s = gen::string_len(&mut c.r, l);
        v.push(with_string(&mut c.r, op, s));
    }
    for s in dict().strings.clone() {
        v.push(with_string(&mut c.r, op, s));
    }
    // a string a caller builds may even contain NUL
    v.push(with_string(&mut c.r, op, "a\0b".into()));
    for i in &v {
        check_single(c, i)?;
    }
    let h = gen::header(&mut c.r);
    check_text(c, &h, &v)
}
fn c06_modules(c: &mut Ctx) -> Res {
    for _ in 0..10 {
        let h = gen::header(&mut c.r);
        let n = gen::count(&mut c.r, 300);
        let v: Vec<Inst> = (0..n)
            .map(|_| {
                let op = c.r.below(N_CORE);
                any_inst(&mut c.r, op, 30)
            })
            .collect();
        check_text(c, &h, &v)?;
    }
    Ok(())
}
/// Read, then print
fn c06_read(c: &mut Ctx) -> Res {
    for _ in 0..10 {
        let sets = gen::sets(&mut c.r);
        let n = gen::count(&mut c.r, 200);
        let w = some_words(&mut c.r, n, &sets);
        let b = to_bytes(&w, c.r.chance(1, 3));
        let x = reference_read(&b, &sets);
        if let (Ok(m), Some(v), Some(h)) = (read(&b, &sets).0, &x.ok, &x.header) {
            c.eval();
            let (got, want) = (m.to_string(), dis_module(h, v));
            c.seen_bytes(want.as_bytes());
            if got != want {
                return Err(format!("disassembly of a module that was read differs {}", diff(&got, &want)));
            }
            c.count("printed instructions compared", v.len() as u64);
        }
    }
    Ok(())
}
fn c06_long(c: &mut Ctx) -> Res {
    let h = gen::header(&mut c.r);
    let v: Vec<Inst> = (0..60_000)
        .map(|_| {
            let mut op = c.r.below(N_CORE);
            if op == oi::OP_EXT_INST {
                op = oi::OP_NOP
            }
            gen::inst(&mut c.r, op, 4)
        })
        .collect();
    check_text(c, &h, &v)?;
    let list = Inst { op: oi::OP_TYPE_STRUCT, args: std::iter::once(Arg::Res(5)).chain((0..65_000).map(|i| Arg::Id(i * 3))).collect() };
    check_text(c, &h, &[list])
}
pub static C06: &[Family] = &[
    fam("each", 7_800, 195_000, c06_each),
    fam("variants", 3_900, 97_500, c06_variants),
    fam("values", 468, 11_700, c06_values),
    fam("strings", 390, 9_750, c06_strings),
    fam("modules", 80_000, 2_000_000, c06_modules),
    fam("read", 40_000, 1_000_000, c06_read),
    fam("long", 16, 400, c06_long),
];
