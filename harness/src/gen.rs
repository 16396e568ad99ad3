//! Workload generation: values, operands, instructions, modules.
use crate::ext::{self, SetSpec};
use crate::harvest::dict;
use crate::rng::Rng;
use crate::spec::*;
use crate::spec_gen::*;

pub fn num(r: &mut Rng) -> u32 {
    if r.chance(1, 12) {
        if let Some(v) = r.echo() {
            return v;
        }
    }
    let v = fresh(r);
    r.keep(v)
}
fn fresh(r: &mut Rng) -> u32 {
    let d = dict();
    match r.below(16) {
        0..=3 => r.below(8) as u32,
        4..=5 => r.below(300) as u32,
        6..=7 => {
            let b = 1u32 << r.below(32);
            b.wrapping_add(r.below(3) as u32).wrapping_sub(1)
        }
        8 => u32::MAX - r.below(3) as u32,
        9 => *r.pick(&d.nums),
        10 if !d.hot_nums.is_empty() => *r.pick(&d.hot_nums),
        11 => {
            // repeated or distinct bytes: byte-order mistakes show
            let b = r.u32() & 0xFF;
            if r.chance(1, 2) {
                b * 0x0101_0101
            } else {
                b << (8 * r.below(4))
            }
        }
        12 => r.below(1 << 16) as u32,
        _ => r.u32(),
    }
}
pub fn id(r: &mut Rng) -> u32 {
    match r.below(8) {
        0..=2 => {
            let v = 1 + r.below(12) as u32;
            r.keep(v)
        }
        3 => match r.echo() {
            Some(v) if r.chance(1, 4) => near(r, v),
            Some(v) => v,
            None => num(r),
        },
        4 => {
            let v = 1 + r.below(200) as u32;
            r.keep(v)
        }
        _ => num(r),
    }
}
/// A value that agrees with another in most of its bits or bytes
pub fn near(r: &mut Rng, v: u32) -> u32 {
    match r.below(6) {
        0..=2 => v ^ (1 << r.below(32)),
        3 => v ^ ((1 + r.below(255) as u32) << (8 * r.below(4))),
        4 => v.wrapping_add(1 << r.below(32)),
        _ => v.swap_bytes(),
    }
}
pub fn count(r: &mut Rng, max: usize) -> usize {
    let d = dict();
    let c = match r.below(16) {
        0..=3 => r.below(3),
        4..=9 => r.below(10),
        10..=11 => r.below(40),
        12 => (1usize << r.below(9)).wrapping_add(r.below(3)).saturating_sub(1),
        13 if !d.hot_counts.is_empty() => *r.pick(&d.hot_counts),
        14 if r.chance(1, 4) => *r.pick(&d.counts),
        _ => r.below(6),
    };
    c.min(max)
}
const TEXTS: &[&str] = &[
    "main", "GLSL.std.450", "a", "\"", "\\", "\n", "\t", "é", "日本", "😀", "%5", "OpName", " ", "{", "}", "\u{feff}", "\u{7f}", "\u{1}", "%s", "{}", "\r",
    "gl_PerVertex", "main(", "//",
];
pub fn string_len(r: &mut Rng, len: usize) -> String {
    let mut s = String::with_capacity(len);
    let style = r.below(5);
    while s.len() < len {
        let left = len - s.len();
        let c = match style {
            0 => (b'a' + r.below(26) as u8) as char,
            1 => (1 + r.below(127) as u8) as char,
            2 => *r.pick(&['"', '\\', '%', '\n', ' ', 'n', '\u{7f}', '\r', '\t']),
            3 => *r.pick(&['é', 'ß', '日', '😀', 'x', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10ffff}']),
            _ => char::from_u32(1 + r.below(0x300) as u32).unwrap_or('?'),
        };
        if c.len_utf8() <= left {
            s.push(c)
        } else {
            s.push('z')
        }
    }
    s
}
pub fn string(r: &mut Rng) -> String {
    let d = dict();
    match r.below(12) {
        0 => r.pick(TEXTS).to_string(),
        1 => format!("{}{}", r.pick(TEXTS), r.pick(TEXTS)),
        2 if !d.strings.is_empty() => r.pick(&d.strings).clone(),
        3 if !d.hot_strings.is_empty() => {
            let t = r.pick(&d.hot_strings).clone();
            match r.below(4) {
                0 => format!("{}{}", t, r.pick(TEXTS)),
                1 => format!("{}{}", r.pick(TEXTS), t),
                _ => t,
            }
        }
        4 if !d.hot_counts.is_empty() => {
            let n = (*r.pick(&d.hot_counts)).min(4000);
            string_len(r, n)
        }
        5 => {
            let n = count(r, 600);
            string_len(r, n)
        }
        _ => {
            let n = r.below(21);
            string_len(r, n)
        }
    }
}
pub fn enum_arg(r: &mut Rng, e: usize) -> Arg {
    let d = &ENUMS[e];
    if d.open && r.chance(1, 4) {
        let mut n = num(r);
        if d.rows.iter().any(|x| x.num == n) {
            n = 5 + r.u32() % 1000;
        }
        return Arg::En(e, n, vec![Arg::Num(n)]);
    }
    let row = r.pick(d.rows);
    enum_row(r, e, row)
}
pub fn enum_row(r: &mut Rng, e: usize, row: &EnumRow) -> Arg {
    let mut p = Vec::new();
    for k in row.params {
        arg(r, k, &mut p, 8);
    }
    Arg::En(e, row.num, p)
}
pub fn mask_arg(r: &mut Rng, m: usize, bits: Option<u32>) -> Arg {
    let d = &MASKS[m];
    let mut n = 0;
    let mut p = Vec::new();
    let zero = r.chance(1, 4);
    for b in d.bits {
        let on = match bits {
            Some(x) => x & b.bit != 0,
            None => !zero && r.chance(1, 2),
        };
        if on {
            n |= b.bit;
            if b.param {
                p.push(Arg::Num(num(r)));
            }
        }
    }
    Arg::Mask(m, n, p)
}
/// Append operands of one kind; returns false when an optional operand was left out
pub fn arg(r: &mut Rng, k: &Kind, out: &mut Vec<Arg>, max: usize) -> bool {
    match *k {
        Kind::Res => out.push(Arg::Res(id(r))),
        Kind::Id => out.push(Arg::Id(id(r))),
        Kind::Num => out.push(Arg::Num(num(r))),
        Kind::Str => out.push(Arg::Str(string(r))),
        Kind::En(e) => out.push(enum_arg(r, e)),
        Kind::Mask(m) => out.push(mask_arg(r, m, None)),
        Kind::Opt(k) => {
            if r.chance(1, 2) {
                return false;
            }
            arg(r, k, out, max);
        }
        Kind::Many(k) => {
            for _ in 0..count(r, max) {
                arg(r, k, out, max);
            }
        }
        Kind::Two(a, b) => {
            arg(r, a, out, max);
            arg(r, b, out, max);
        }
        Kind::Ext => panic!("harness: ext operand outside a module"),
    }
    true
}
pub fn inst(r: &mut Rng, op: usize, max: usize) -> Inst {
    let mut args = Vec::new();
    for k in OPS[op].kinds {
        if !arg(r, k, &mut args, max) {
            break;
        }
    }
    let mut i = Inst { op, args };
    fix(r, &mut i);
    i
}
/// An OpConstant always carries a value
fn fix(r: &mut Rng, i: &mut Inst) {
    if i.op == oi::OP_CONSTANT && i.args.len() == 2 {
        i.args.push(Arg::Num(num(r)));
    }
}
/// Core opcodes that can be read
pub fn readable() -> Vec<usize> {
    (0..N_CORE).filter(|i| OPS[*i].num >= 0).collect()
}
pub const SET_NAMES: &[&str] = &[
    "GLSL.std.450", "OpenCL.std", "test.a", "test.b", "Test.a", "test.a ", "test", "", "x", "GLSL.std.45", "GLSL.std.4500", "glsl.std.450", "é日", "test.aa",
    "a-very-long-instruction-set-name-of-more-than-thirty-two-bytes",
];
/// A collection of sets to offer, possibly with repeated names; the GLSL set is usually among them
pub fn sets(r: &mut Rng) -> Vec<SetSpec> {
    let mut v = Vec::new();
    let n = r.below(5);
    for t in 0..n {
        let name = if r.chance(1, 12) && !dict().strings.is_empty() { ext::intern(r.pick(&dict().strings)) } else { r.pick(SET_NAMES) };
        v.push(SetSpec { name, tag: t as u32 + 1 });
    }
    if r.chance(3, 4) {
        let at = r.below(v.len() + 1);
        v.insert(at, ext::glsl());
    }
    v
}
pub struct Binder<'a> {
    pub sets: &'a [SetSpec],
    pub bound: Vec<(u32, usize)>,
}
impl<'a> Binder<'a> {
    pub fn new(sets: &'a [SetSpec]) -> Binder<'a> {
        Binder { sets, bound: vec![] }
    }
    pub fn import(&mut self, r: &mut Rng) -> Option<Inst> {
        if self.sets.is_empty() {
            return None;
        }
        let name = r.pick(self.sets).name;
        let first = self.sets.iter().position(|s| s.name == name).unwrap();
        let mut i = id(r);
        while self.bound.iter().any(|b| b.0 == i) {
            i = r.u32();
        }
        self.bound.push((i, first));
        Some(Inst { op: oi::OP_EXT_INST_IMPORT, args: vec![Arg::Res(i), Arg::Str(name.to_string())] })
    }
    pub fn ext(&mut self, r: &mut Rng) -> Option<Inst> {
        if self.bound.is_empty() {
            return None;
        }
        let (set, k) = *r.pick(&self.bound);
        let s = &self.sets[k];
        let x = if s.tag == 0 {
            ExtVal { tag: 0, inst: 13 + r.below(2) as u32, words: vec![id(r)] }
        } else {
            let mut n = num(r);
            while n % 8 == 4 || n % 8 == 5 {
                n = num(r);
            }
            let len = match ext::arity(n) {
                Some(l) => l,
                None => count(r, 300),
            };
            ExtVal { tag: s.tag, inst: n, words: (0..len).map(|_| num(r)).collect() }
        };
        Some(Inst { op: oi::OP_EXT_INST, args: vec![Arg::Id(id(r)), Arg::Res(id(r)), Arg::Id(set), Arg::Ext(x)] })
    }
    pub fn inst(&mut self, r: &mut Rng, op: usize, max: usize) -> Option<Inst> {
        match op {
            oi::OP_EXT_INST_IMPORT => self.import(r),
            oi::OP_EXT_INST => self.ext(r),
            _ => Some(inst(r, op, max)),
        }
    }
}
pub fn header(r: &mut Rng) -> Header {
    let g = match r.below(4) {
        0 => (r.below(16) as u32) << 16 | num(r) & 0xFFFF,
        1 => num(r),
        _ => r.u32(),
    };
    Header::from_gen(g, num(r))
}
/// An earlier instruction once more, at times with one operand exchanged
fn again(r: &mut Rng, v: &[Inst], max: usize) -> Option<Inst> {
    if v.is_empty() {
        return None;
    }
    let back = match r.below(3) {
        0 => 1,
        1 => 1 + r.below(v.len().min(4)),
        _ => 1 + r.below(v.len()),
    };
    let mut x = v[v.len() - back].clone();
    if x.op == oi::OP_EXT_INST_IMPORT {
        return None;
    }
    if x.op != oi::OP_EXT_INST && !x.args.is_empty() && r.chance(1, 3) {
        let y = inst(r, x.op, max);
        let p = r.below(x.args.len());
        let alike = match (x.args.get(p), y.args.get(p)) {
            (Some(Arg::En(a, ..)), Some(Arg::En(b, ..))) => a == b,
            (Some(a), Some(b)) => std::mem::discriminant(a) == std::mem::discriminant(b),
            _ => false,
        };
        if alike {
            x.args[p] = y.args[p].clone();
        }
    }
    Some(x)
}
/// A module of any instructions: in any order, ordered by section, or laid out as the specification asks;
/// with fresh instructions only or with repeated and nearly equal ones
pub fn module(r: &mut Rng, n: usize, sets: &[SetSpec], max: usize) -> (Header, Vec<Inst>) {
    let ops = readable();
    let mut b = Binder::new(sets);
    let mut v = Vec::with_capacity(n);
    if !sets.is_empty() && r.chance(2, 3) {
        for _ in 0..r.range(1, 3) {
            v.extend(b.import(r));
        }
    }
    let narrow = r.chance(1, 4);
    let repeat = r.chance(1, 3);
    let order = r.below(8);
    let subset: Vec<usize> = (0..4).map(|_| *r.pick(&ops)).collect();
    if order == 0 && n <= 400 {
        for i in crate::layout::legal(r, (n / 8).max(2)) {
            if i.op == oi::OP_EXT_INST_IMPORT || i.op == oi::OP_EXT_INST {
                continue;
            }
            if OPS[i.op].num >= 0 && encode_inst(&i).is_some() {
                v.push(i);
            }
        }
        let l = v.len();
        v[..l].sort_by_key(|i| match crate::layout::class(i) {
            c if c <= Class::ExtInstImport => c as usize,
            _ => 99,
        });
        return (header(r), v);
    }
    while v.len() < n {
        if repeat && r.chance(1, 2) {
            if let Some(i) = again(r, &v, max) {
                v.push(i);
                continue;
            }
        }
        let op = if r.chance(1, 8) {
            oi::OP_EXT_INST
        } else if narrow {
            *r.pick(&subset)
        } else {
            *r.pick(&ops)
        };
        match b.inst(r, op, max) {
            Some(i) => v.push(i),
            None => v.push(inst(r, oi::OP_NOP, 0)),
        }
    }
    if order <= 2 {
        // imports stay ahead of what uses them
        v.sort_by_key(|i| crate::layout::class(i));
    }
    (header(r), v)
}

// ---------------------------------------------------------------- hostile bytes

/// Damage a valid word stream; positions are found by walking word counts
pub fn damage(r: &mut Rng, w: &mut Vec<u32>) {
    let mut starts = Vec::new();
    let mut p = 5;
    while p < w.len() {
        starts.push(p);
        let wc = (w[p] >> 16) as usize;
        if wc == 0 {
            break;
        }
        p += wc;
    }
    let body = |r: &mut Rng, w: &Vec<u32>| if w.len() > 5 { 5 + r.below(w.len() - 5) } else { r.below(w.len().max(1)) };
    match r.below(20) {
        0 | 1 if !starts.is_empty() => {
            // word count
            let s = *r.pick(&starts);
            let wc = w[s] >> 16;
            let n = match r.below(7) {
                0 => 0,
                1 => wc + 1,
                2 => wc.wrapping_sub(1) & 0xFFFF,
                3 => 0xFFFF,
                4 => r.below(12) as u32,
                5 => (w.len() - s) as u32 & 0xFFFF,
                _ => r.below(65536) as u32,
            };
            w[s] = (n & 0xFFFF) << 16 | (w[s] & 0xFFFF);
        }
        2 | 3 if !starts.is_empty() => {
            let s = *r.pick(&starts);
            let op = match r.below(3) {
                0 => r.below(330) as u32,
                1 => num(r) & 0xFFFF,
                _ => r.below(65536) as u32,
            };
            w[s] = w[s] & 0xFFFF_0000 | op;
        }
        4 | 5 | 6 if w.len() > 5 => {
            let i = body(r, w);
            w[i] = num(r);
        }
        7 | 8 if w.len() > 5 => {
            let i = body(r, w);
            w[i] ^= 1 << r.below(32);
        }
        9 if w.len() > 5 => {
            let i = body(r, w);
            w[i] = w[i].wrapping_add(r.below(5) as u32).wrapping_sub(2);
        }
        10 => {
            let n = r.below(w.len() + 1);
            w.truncate(n);
        }
        11 if !starts.is_empty() => {
            // drop an operand word, keep or adjust the count
            let s = *r.pick(&starts);
            let wc = (w[s] >> 16) as usize;
            if wc > 1 && s + wc <= w.len() {
                w.remove(s + 1 + r.below(wc - 1));
                if r.chance(3, 4) {
                    w[s] -= 1 << 16;
                }
            }
        }
        12 if !starts.is_empty() => {
            let s = *r.pick(&starts);
            let wc = (w[s] >> 16) as usize;
            if wc > 0 && wc < 0xFFFF && s + wc <= w.len() {
                let v = num(r);
                w.insert(s + 1 + r.below(wc), v);
                if r.chance(3, 4) {
                    w[s] += 1 << 16;
                }
            }
        }
        13 if starts.len() > 1 => {
            // exchange two instructions
            let (a, b) = (*r.pick(&starts), *r.pick(&starts));
            let (a, b) = (a.min(b), a.max(b));
            let (la, lb) = ((w[a] >> 16) as usize, (w[b] >> 16) as usize);
            if a + la <= b && b + lb <= w.len() {
                let mut v = w[..a].to_vec();
                v.extend(&w[b..b + lb]);
                v.extend(&w[a + la..b]);
                v.extend(&w[a..a + la]);
                v.extend(&w[b + lb..]);
                *w = v;
            }
        }
        14 if !starts.is_empty() => {
            let s = *r.pick(&starts);
            let l = (w[s] >> 16) as usize;
            if s + l <= w.len() {
                let c = w[s..s + l].to_vec();
                let at = *r.pick(&starts);
                w.splice(at..at, c);
            }
        }
        15 if w.len() >= 5 => {
            let i = r.below(5);
            w[i] = match r.below(3) {
                0 => w[i] ^ (1 << r.below(32)),
                1 => num(r),
                _ => w[i].wrapping_add(1),
            };
        }
        16 if w.len() > 5 => {
            // bytes of a word: NULs and invalid UTF-8
            let i = body(r, w);
            let c = *r.pick(&[0x80u32, 0xC0, 0xFF, 0xED, 0xF5, 0, 0xE0]);
            let s = 8 * r.below(4);
            w[i] = w[i] & !(0xFF << s) | c << s;
        }
        17 if w.len() > 5 => {
            let i = body(r, w);
            w[i] |= 0x0101_0101;
        }
        18 => {
            for _ in 0..r.range(1, 6) {
                let v = num(r);
                w.push(v);
            }
        }
        _ if w.len() > 5 => {
            let (a, b) = (body(r, w), body(r, w));
            w.swap(a, b);
        }
        _ => w.push(0),
    }
}
/// Small havoc on raw bytes
pub fn damage_bytes(r: &mut Rng, b: &mut Vec<u8>) {
    match r.below(6) {
        0 => {
            let n = r.below(b.len() + 1);
            b.truncate(n)
        }
        1 => {
            for _ in 0..r.range(1, 3) {
                b.push(r.u32() as u8)
            }
        }
        2 if !b.is_empty() => {
            let i = r.below(b.len());
            b.remove(i);
        }
        3 if !b.is_empty() => {
            let i = r.below(b.len());
            b.insert(i, r.u32() as u8);
        }
        _ if !b.is_empty() => {
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
        }
        _ => b.push(3),
    }
}
