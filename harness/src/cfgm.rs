//! Control flow: C09, C10, C12 and C16
use crate::ext;
use crate::frame::*;
use crate::gen;
use crate::harvest::dict;
use crate::layout;
use crate::read;
use crate::rng::{mix, Rng};
use crate::spec::*;
use crate::spec_gen::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::Core;
use magmaflow::spv::types::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write;

pub const LOOP_MASK: usize = 2;
pub const SEL_MASK: usize = 3;

#[derive(Clone, Debug, PartialEq)]
pub enum Term {
    Br(u32),
    Cond(u32, u32, Option<(u32, u32)>),
    Ret,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Mg {
    None,
    Sel(u32, Arg),
    Loop(u32, u32, Arg),
}
#[derive(Clone, Debug, PartialEq)]
pub struct B {
    pub id: u32,
    pub code: Vec<Inst>,
    pub merge: Mg,
    pub term: Term,
}
/// Recovered structure with nested sequences flattened
#[derive(Clone, Debug, PartialEq)]
pub enum Ch {
    Atom(u32),
    Sel(u32, Vec<Ch>, Vec<Ch>, Arg, Option<(u32, u32)>),
    Loop(u32, Vec<Ch>, Arg, Option<(u32, u32)>),
    Break,
    Continue,
}

pub fn no_hint(m: usize) -> Arg {
    Arg::Mask(m, 0, vec![])
}
fn build1<T: Operand>(a: &Arg) -> T {
    T::build(&mut Args::new(std::slice::from_ref(a)))
}
fn lift1<T: Operand>(t: &T) -> Arg {
    let mut v = Vec::new();
    t.lift(&mut v);
    v.pop().expect("harness: operand")
}
pub fn term_inst(t: &Term, cond: u32) -> Inst {
    match t {
        Term::Br(x) => Inst { op: oi::OP_BRANCH, args: vec![Arg::Id(*x)] },
        Term::Cond(t, f, w) => {
            let mut args = vec![Arg::Id(cond), Arg::Id(*t), Arg::Id(*f)];
            if let Some((a, b)) = w {
                args.push(Arg::Num(*a));
                args.push(Arg::Num(*b));
            }
            Inst { op: oi::OP_BRANCH_CONDITIONAL, args }
        }
        Term::Ret => Inst { op: oi::OP_RETURN, args: vec![] },
    }
}
/// The condition's id, at times the same as the block's or a target's
fn cond_of(b: &B) -> u32 {
    match (b.id.wrapping_mul(0x9E37_79B9) >> 28, &b.term) {
        (0, _) => b.id,
        (1, Term::Cond(t, _, _)) => *t,
        (2, Term::Cond(_, f, _)) => *f,
        _ => b.id.wrapping_mul(7).wrapping_add(3),
    }
}
pub fn insts_of(b: &B) -> Vec<Inst> {
    let mut v = vec![Inst { op: oi::OP_LABEL, args: vec![Arg::Res(b.id)] }];
    v.extend(b.code.iter().cloned());
    match &b.merge {
        Mg::None => {}
        Mg::Sel(m, h) => v.push(Inst { op: oi::OP_SELECTION_MERGE, args: vec![Arg::Id(*m), h.clone()] }),
        Mg::Loop(m, k, h) => v.push(Inst { op: oi::OP_LOOP_MERGE, args: vec![Arg::Id(*m), Arg::Id(*k), h.clone()] }),
    }
    v.push(term_inst(&b.term, cond_of(b)));
    v
}
/// The function's own ids may coincide with those of its blocks
pub fn head(r: &mut Rng, bs: &[B]) -> Inst {
    for _ in 0..4.min(bs.len()) {
        let v = r.pick(bs).id;
        r.keep(v);
    }
    if let Some(b) = bs.first() {
        r.keep(b.id);
    }
    gen::inst(r, oi::OP_FUNCTION, 0)
}
pub fn to_def(r: &mut Rng, bs: &[B]) -> FunctionDefinition {
    let function = match build_core(&head(r, bs)) {
        Core::OpFunction(f) => f,
        _ => panic!("harness: function"),
    };
    let parameters = (0..r.below(3)).map(|_| OpFunctionParameter { result_type: OpId(gen::id(r)), result_id: ResultId(gen::id(r)) }).collect();
    FunctionDefinition { function, parameters, blocks: bs.iter().map(to_block).collect() }
}
pub fn to_block(b: &B) -> BasicBlock {
    BasicBlock {
        label: OpLabel { result_id: ResultId(b.id) },
        code: b.code.iter().map(|i| to_code(&build_core(i)).expect("harness: code")).collect(),
        merge: match &b.merge {
            Mg::None => None,
            Mg::Sel(m, h) => Some(GroupMerge::OpSelectionMerge(OpSelectionMerge { merge_block: OpId(*m), selection_control: build1(h) })),
            Mg::Loop(m, k, h) => {
                Some(GroupMerge::OpLoopMerge(OpLoopMerge { merge_block: OpId(*m), continue_target: OpId(*k), loop_control: build1(h) }))
            }
        },
        branch: match &b.term {
            Term::Br(t) => GroupBranch::OpBranch(OpBranch { target_label: OpId(*t) }),
            Term::Cond(t, f, w) => GroupBranch::OpBranchConditional(OpBranchConditional {
                condition: OpId(cond_of(b)),
                true_label: OpId(*t),
                false_label: OpId(*f),
                weights: w.map(|(a, b)| BranchWeights { true_weight: a, false_weight: b }),
            }),
            Term::Ret => GroupBranch::OpReturn(OpReturn),
        },
    }
}
pub fn bid(b: &BlockId) -> Result<u32, String> {
    let t = b.to_string();
    let d: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
    d.parse().map_err(|_| format!("block id prints as {:?}", t))
}
fn lift_w(w: &Option<BranchWeights>) -> Option<(u32, u32)> {
    w.as_ref().map(|w| (w.true_weight, w.false_weight))
}
pub fn norm(c: &ControlFlowChain, out: &mut Vec<Ch>) -> Res {
    match *c {
        ControlFlowChain::Atom(ref b) => out.push(Ch::Atom(bid(b)?)),
        ControlFlowChain::Block(ref v) => {
            for x in v {
                norm(x, out)?
            }
        }
        ControlFlowChain::Selection(ref b, ref l, ref r, ref h, ref w) => {
            let (mut lv, mut rv) = (vec![], vec![]);
            norm(l, &mut lv)?;
            norm(r, &mut rv)?;
            out.push(Ch::Sel(bid(b)?, lv, rv, lift1(h), lift_w(w)))
        }
        ControlFlowChain::Loop(ref b, ref i, ref h, ref w) => {
            let mut iv = vec![];
            norm(i, &mut iv)?;
            out.push(Ch::Loop(bid(b)?, iv, lift1(h), lift_w(w)))
        }
        ControlFlowChain::Break => out.push(Ch::Break),
        ControlFlowChain::Continue => out.push(Ch::Continue),
    }
    Ok(())
}
fn mask_text(a: &Arg) -> String {
    let mut s = String::new();
    dis_arg(a, &mut s);
    s
}
fn is_default(a: &Arg) -> bool {
    matches!(a, Arg::Mask(_, 0, _))
}
fn tail(h: &Arg, w: &Option<(u32, u32)>, s: &mut String) {
    if !is_default(h) {
        write!(s, " [{}]", mask_text(h)).unwrap();
    }
    if let Some((a, b)) = w {
        write!(s, " [{} {}]", a, b).unwrap();
    }
}
fn ind(n: usize, s: &mut String) {
    for _ in 0..n {
        s.push_str("    ");
    }
}
/// What the chain printer must show
pub fn chain_text(v: &[Ch], n: usize, s: &mut String) {
    for c in v {
        ind(n, s);
        match c {
            Ch::Atom(b) => writeln!(s, "%{}", b).unwrap(),
            Ch::Sel(b, l, r, h, w) => {
                write!(s, "selection %{}", b).unwrap();
                tail(h, w, s);
                s.push_str(" {\n");
                chain_text(l, n + 1, s);
                ind(n, s);
                if !r.is_empty() {
                    s.push_str("} else {\n");
                    chain_text(r, n + 1, s);
                    ind(n, s);
                }
                s.push_str("}\n");
            }
            Ch::Loop(b, i, h, w) => {
                write!(s, "loop %{}", b).unwrap();
                tail(h, w, s);
                s.push_str(" {\n");
                chain_text(i, n + 1, s);
                ind(n, s);
                s.push_str("}\n");
            }
            Ch::Break => s.push_str("break;\n"),
            Ch::Continue => s.push_str("continue;\n"),
        }
    }
}
/// What the function printer must show
pub fn function_text(bs: &HashMap<u32, &B>, v: &[Ch], n: usize, s: &mut String) {
    let block = |id: u32, s: &mut String| {
        let b = bs[&id];
        ind(n, s);
        writeln!(s, "> Begin {}", id).unwrap();
        for c in &b.code {
            ind(n, s);
            writeln!(s, ">>> {}", dis_inst(c)).unwrap();
        }
        ind(n, s);
        writeln!(s, ">>> {}", dis_inst(&term_inst(&b.term, cond_of(b)))).unwrap();
        ind(n, s);
        writeln!(s, "> End {}", id).unwrap();
    };
    for c in v {
        match c {
            Ch::Atom(b) => block(*b, s),
            Ch::Sel(b, l, r, h, w) => {
                block(*b, s);
                tail(h, w, s);
                ind(n, s);
                s.push_str("{\n");
                function_text(bs, l, n + 1, s);
                ind(n, s);
                if !r.is_empty() {
                    s.push_str("} else {\n");
                    function_text(bs, r, n + 1, s);
                    ind(n, s);
                }
                s.push_str("}\n");
            }
            Ch::Loop(b, i, h, w) => {
                block(*b, s);
                tail(h, w, s);
                ind(n, s);
                s.push_str("{\n");
                function_text(bs, i, n + 1, s);
                ind(n, s);
                s.push_str("}\n");
            }
            Ch::Break | Ch::Continue => {
                ind(n, s);
                s.push_str(if *c == Ch::Break { "break;\n" } else { "continue;\n" });
            }
        }
    }
}

// ---------------------------------------------------------------- structured functions

/// Where a generated block stands, for fault injection
#[derive(Clone, Debug)]
pub struct Place {
    pub id: u32,
    /// innermost construct whose arm or body directly holds the block: kind and the ids the error may name
    pub holder: Option<(bool, Vec<u32>)>,
    /// innermost loop: head, merge
    pub lp: Option<(u32, u32)>,
    /// ids that end a sequence here (merges of enclosing selections, heads of enclosing loops)
    pub joins: Vec<u32>,
    /// the id the holder's sequence must lead to
    pub goal: Option<u32>,
    pub kind: u8, // 0 plain, 1 selection, 2 loop, 3 conditional exit
}
#[derive(Clone)]
pub struct Structured {
    pub blocks: Vec<B>,
    pub places: Vec<Place>,
    pub want: Vec<Ch>,
}
pub struct Maker<'a> {
    pub r: &'a mut Rng,
    pub blocks: Vec<B>,
    pub places: Vec<Place>,
    used: HashSet<u32>,
    next_id: u32,
    id_mode: usize,
    pub budget: usize,
    pub max_depth: usize,
    pub code: usize,
    pub hints: bool,
    /// 0 mixed, 1 mostly selections, 2 mostly loops, 3 mostly plain
    pub style: usize,
}
#[derive(Clone)]
struct At {
    next: u32,
    /// loop whose body this sequence is, if exits are possible here
    exits: Option<(u32, u32)>,
    lp: Option<(u32, u32)>,
    holder: Option<(bool, Vec<u32>)>,
    joins: Vec<u32>,
    goal: Option<u32>,
    depth: usize,
}
impl<'a> Maker<'a> {
    pub fn new(r: &'a mut Rng) -> Maker<'a> {
        let id_mode = r.below(5);
        let next_id = if r.chance(1, 2) { 1 } else { r.u32() };
        let style = r.below(4);
        let code = if r.chance(1, 3) { 2 } else { 0 };
        let hints = r.chance(3, 4);
        Maker { r, blocks: vec![], places: vec![], used: HashSet::new(), next_id, id_mode, budget: 12, max_depth: 5, code, hints, style }
    }
    /// 0: count up from the given number
    pub fn set_ids(&mut self, mode: usize, from: u32) {
        self.id_mode = mode;
        self.next_id = from;
    }
    pub fn fresh(&mut self) -> u32 {
        loop {
            let i = match self.id_mode {
                0 => {
                    self.next_id = self.next_id.wrapping_add(1);
                    self.next_id
                }
                1 => self.r.u32(),
                2 => {
                    self.next_id = self.next_id.wrapping_add(self.r.range(1, 5) as u32);
                    self.next_id
                }
                3 => gen::num(self.r),
                _ => {
                    // ids that agree in most bits
                    let k = *self.r.pick(&[0x100u32, 0x1_0000, 0x100_0000, 1]);
                    (self.next_id & 0xFF).wrapping_add(k.wrapping_mul(self.r.below(256) as u32))
                }
            };
            if self.used.insert(i) {
                // code, conditions and weights may name it
                return self.r.keep(i);
            }
            if self.r.chance(1, 50) {
                self.id_mode = 1;
            }
        }
    }
    fn some_code(&mut self) -> Vec<Inst> {
        if self.code == 0 {
            return vec![];
        }
        let n = if self.r.chance(1, 30) { gen::count(self.r, 200) } else { self.r.below(self.code + 1) };
        (0..n).map(|_| layout::of_class(self.r, Class::Code)).collect()
    }
    pub fn hint(&mut self, m: usize) -> Arg {
        if self.hints && self.r.chance(1, 2) {
            gen::mask_arg(self.r, m, None)
        } else {
            no_hint(m)
        }
    }
    pub fn weights(&mut self) -> Option<(u32, u32)> {
        if self.hints && self.r.chance(1, 2) {
            Some(match self.r.below(4) {
                0 => (0, 0),
                1 => {
                    let n = gen::num(self.r);
                    (n, n)
                }
                _ => (gen::num(self.r), gen::num(self.r)),
            })
        } else {
            None
        }
    }
    fn add(&mut self, id: u32, merge: Mg, term: Term, kind: u8, a: &At) {
        self.r.keep(id);
        let code = self.some_code();
        self.blocks.push(B { id, code, merge, term });
        self.places.push(Place { id, holder: a.holder.clone(), lp: a.lp, joins: a.joins.clone(), goal: a.goal, kind });
        self.budget = self.budget.saturating_sub(1);
    }
    /// A sequence leading to a.next; its entry and its structure
    fn seq(&mut self, a: &At) -> (u32, Vec<Ch>) {
        let mut k = a.next;
        let mut out: Vec<Ch> = vec![];
        if let Some((head, merge)) = a.exits {
            if self.budget > 1 && a.depth < self.max_depth + 3 && self.r.chance(1, 2) {
                let id = self.fresh();
                let brk = self.r.chance(2, 3);
                let mut b = a.clone();
                b.depth += 1;
                // a sequence that fails below may be reported for this exit or for the loop itself
                if let Some((_, ref mut ids)) = b.holder {
                    ids.push(id);
                }
                let (e, rest) = self.seq(&b);
                let w = self.weights();
                self.add(id, Mg::None, Term::Cond(e, if brk { merge } else { head }, w), 3, a);
                out.push(Ch::Sel(id, rest, vec![if brk { Ch::Break } else { Ch::Continue }], no_hint(SEL_MASK), w));
                k = id;
            }
        }
        let n = match self.r.below(5) {
            0 => 0,
            1 | 2 => 1,
            3 => 2,
            _ => self.r.below(5),
        };
        for i in 0..n {
            if self.budget == 0 {
                break;
            }
            let deep = a.depth >= self.max_depth;
            // the last of a sequence is usually a plain block, so that merge blocks are their own
            let plain = deep || (i == 0 && k == a.next && self.r.chance(3, 4));
            let what = if plain {
                0
            } else {
                match self.style {
                    1 => *self.r.pick(&[0, 1, 1, 1, 2]),
                    2 => *self.r.pick(&[0, 2, 2, 2, 1]),
                    3 => *self.r.pick(&[0, 0, 0, 0, 1, 2]),
                    _ => *self.r.pick(&[0, 0, 1, 2]),
                }
            };
            let id = self.fresh();
            k = self.item(id, what, k, a, &mut out);
        }
        out.reverse();
        (k, out)
    }
    /// Put one construct in front of the sequence that starts at k
    fn item(&mut self, id: u32, what: usize, k: u32, a: &At, out: &mut Vec<Ch>) -> u32 {
        match what {
            1 => {
                let h = self.hint(SEL_MASK);
                let w = self.weights();
                let mut b = a.clone();
                b.next = k;
                b.exits = None;
                b.holder = Some((false, vec![id]));
                b.joins.push(k);
                b.goal = Some(k);
                b.depth += 1;
                let (te, tc) = self.seq(&b);
                let (fe, fc) = self.seq(&b);
                self.add(id, Mg::Sel(k, h.clone()), Term::Cond(te, fe, w), 1, a);
                out.push(Ch::Sel(id, tc, fc, h, w));
            }
            2 => {
                let h = self.hint(LOOP_MASK);
                let mut b = a.clone();
                b.next = id;
                b.exits = Some((id, k));
                b.lp = Some((id, k));
                b.holder = Some((true, vec![id]));
                b.joins.push(id);
                b.goal = Some(id);
                b.depth += 1;
                let (e, body) = self.seq(&b);
                let cont = self.blocks.last().map_or(id, |b| b.id);
                self.add(id, Mg::Loop(k, cont, h.clone()), Term::Br(e), 2, a);
                out.push(Ch::Loop(id, body, h, None));
            }
            _ => {
                self.add(id, Mg::None, Term::Br(k), 0, a);
                out.push(Ch::Atom(id));
            }
        }
        id
    }
    pub fn function(mut self) -> Structured {
        let ret = self.fresh();
        let a = At { next: ret, exits: None, lp: None, holder: None, joins: vec![], goal: None, depth: 0 };
        self.add(ret, Mg::None, Term::Ret, 0, &a);
        let (mut entry, mut want) = self.seq(&a);
        // spend the rest of the budget at the top
        let mut front = vec![];
        while self.budget > 0 && self.r.chance(9, 10) {
            let id = self.fresh();
            let what = self.r.below(3);
            entry = self.item(id, what, entry, &a, &mut front);
        }
        front.reverse();
        front.append(&mut want);
        front.push(Ch::Atom(ret));
        self.finish(entry, front)
    }
    fn finish(mut self, entry: u32, want: Vec<Ch>) -> Structured {
        // structure order: entry first, the others as they come
        self.blocks.reverse();
        self.places.reverse();
        let e = self.blocks.iter().position(|b| b.id == entry).expect("harness: entry");
        let x = self.blocks.remove(e);
        self.blocks.insert(0, x);
        match self.r.below(3) {
            0 => {
                let mut rest = self.blocks.split_off(1);
                self.r.shuffle(&mut rest);
                self.blocks.extend(rest);
            }
            1 => self.blocks[1..].reverse(),
            _ => {}
        }
        if self.r.chance(1, 3) {
            let ids: Vec<u32> = self.blocks.iter().map(|b| b.id).collect();
            for _ in 0..self.r.range(1, 3) {
                let id = self.fresh();
                let missing = self.fresh();
                let any = |r: &mut Rng| match r.below(4) {
                    0 => id,
                    1 => missing,
                    _ => *r.pick(&ids),
                };
                let term = match self.r.below(3) {
                    0 => Term::Ret,
                    1 => Term::Br(any(self.r)),
                    _ => Term::Cond(any(self.r), any(self.r), None),
                };
                let merge = match self.r.below(3) {
                    0 => Mg::Sel(any(self.r), no_hint(SEL_MASK)),
                    1 => Mg::Loop(any(self.r), any(self.r), no_hint(LOOP_MASK)),
                    _ => Mg::None,
                };
                let at = self.r.range(1, self.blocks.len());
                self.blocks.insert(at, B { id, code: vec![], merge, term });
            }
        }
        Structured { blocks: self.blocks, places: self.places, want }
    }
}
pub fn structured(r: &mut Rng, budget: usize, depth: usize) -> Structured {
    let mut m = Maker::new(r);
    m.budget = budget;
    m.max_depth = depth;
    m.function()
}
pub fn size(r: &mut Rng) -> (usize, usize) {
    let b = match r.below(12) {
        0..=4 => r.range(1, 6),
        5..=8 => r.range(4, 20),
        9 | 10 => r.range(10, 80),
        _ => {
            let d = dict();
            if !d.hot_counts.is_empty() && r.chance(1, 2) {
                (*r.pick(&d.hot_counts)).clamp(1, 600) + 2
            } else {
                r.range(40, 300)
            }
        }
    };
    (b, r.range(1, 9))
}
/// Sequences, ladders and nests of one kind
pub fn shaped(r: &mut Rng, kind: usize, n: usize) -> Structured {
    let mut m = Maker::new(r);
    m.budget = usize::MAX / 2;
    m.code = 0;
    let ret = m.fresh();
    let mut a = At { next: ret, exits: None, lp: None, holder: None, joins: vec![], goal: None, depth: 0 };
    m.add(ret, Mg::None, Term::Ret, 0, &a);
    let mut want = vec![];
    let mut k = ret;
    match kind {
        0 => {
            for _ in 0..n {
                let id = m.fresh();
                m.add(id, Mg::None, Term::Br(k), 0, &a);
                want.push(Ch::Atom(id));
                k = id;
            }
        }
        1 | 2 => {
            // selections or loops one after another
            for _ in 0..n {
                let id = m.fresh();
                m.budget = m.r.below(4);
                m.max_depth = 1;
                k = m.item(id, kind, k, &a, &mut want);
            }
        }
        3..=6 => {
            // one inside the other: true arm, false arm, loop, alternating
            fn nest(m: &mut Maker, kind: usize, n: usize, next: u32, level: usize) -> (u32, Vec<Ch>) {
                if n == 0 {
                    let id = m.fresh();
                    m.blocks.push(B { id, code: vec![], merge: Mg::None, term: Term::Br(next) });
                    return (id, vec![Ch::Atom(id)]);
                }
                let id = m.fresh();
                let after = m.fresh();
                m.blocks.push(B { id: after, code: vec![], merge: Mg::None, term: Term::Br(next) });
                let how = match kind {
                    3 => 0,
                    4 => 1,
                    5 => 2,
                    _ => level % 3,
                };
                if how == 2 {
                    let (e, body) = nest(m, kind, n - 1, id, level + 1);
                    let h = m.hint(LOOP_MASK);
                    m.blocks.push(B { id, code: vec![], merge: Mg::Loop(after, e, h.clone()), term: Term::Br(e) });
                    (id, vec![Ch::Loop(id, body, h, None), Ch::Atom(after)])
                } else {
                    let (e, arm) = nest(m, kind, n - 1, after, level + 1);
                    let h = m.hint(SEL_MASK);
                    let w = m.weights();
                    let (t, f) = if how == 0 { (e, after) } else { (after, e) };
                    m.blocks.push(B { id, code: vec![], merge: Mg::Sel(after, h.clone()), term: Term::Cond(t, f, w) });
                    let (tc, fc) = if how == 0 { (arm, vec![]) } else { (vec![], arm) };
                    (id, vec![Ch::Sel(id, tc, fc, h, w), Ch::Atom(after)])
                }
            }
            let (e, mut c) = nest(&mut m, kind, n, ret, 0);
            c.reverse();
            want = c;
            k = e;
        }
        _ => {
            // one loop left or continued by n conditional exits
            let head = m.fresh();
            let after = m.fresh();
            m.add(after, Mg::None, Term::Br(ret), 0, &a);
            a.next = head;
            let mut e = head;
            let mut body: Vec<Ch> = vec![];
            for _ in 0..n {
                let id = m.fresh();
                let brk = m.r.chance(1, 2);
                let w = m.weights();
                m.blocks.push(B { id, code: vec![], merge: Mg::None, term: Term::Cond(e, if brk { after } else { head }, w) });
                body = vec![Ch::Sel(id, body, vec![if brk { Ch::Break } else { Ch::Continue }], no_hint(SEL_MASK), w)];
                e = id;
            }
            let h = m.hint(LOOP_MASK);
            m.blocks.push(B { id: head, code: vec![], merge: Mg::Loop(after, e, h.clone()), term: Term::Br(e) });
            want.push(Ch::Atom(after));
            want.push(Ch::Loop(head, body, h, None));
            k = head;
        }
    }
    want.reverse();
    want.push(Ch::Atom(ret));
    m.finish(k, want)
}

/// A structured function of up to so many blocks
pub fn large(r: &mut Rng, max: usize) -> Structured {
    let n = *r.pick(&[300usize, 1_100, 2_500, 5_000, 9_000, 20_000, 40_000]);
    let n = if max > 40_000 { 70_000 } else { n.min(max) };
    match r.below(4) {
        0 => shaped(r, 0, n),
        1 => shaped(r, 1, n / 4),
        2 => shaped(r, 2, n / 4),
        _ => {
            let mut m = Maker::new(r);
            m.budget = n;
            m.max_depth = 4;
            m.code = 0;
            m.function()
        }
    }
}
pub fn describe(bs: &[B]) -> String {
    let mut s = String::new();
    for b in bs {
        let m = match &b.merge {
            Mg::None => String::new(),
            Mg::Sel(m, _) => format!(" selmerge {}", m),
            Mg::Loop(m, _, _) => format!(" loopmerge {}", m),
        };
        let t = match &b.term {
            Term::Br(t) => format!("-> {}", t),
            Term::Cond(t, f, _) => format!("? {} : {}", t, f),
            Term::Ret => "return".into(),
        };
        write!(s, "[{}{} {}] ", b.id, m, t).unwrap();
        if s.len() > 1200 {
            s.push('…');
            break;
        }
    }
    s
}
pub fn graph_hash(bs: &[B]) -> u64 {
    // up to renaming of ids in order of appearance
    let mut names: HashMap<u32, u64> = HashMap::new();
    let mut h = 0x9E37u64;
    for b in bs {
        let mut n = |i: u32| {
            let k = names.len() as u64;
            *names.entry(i).or_insert(k)
        };
        h = mix(h ^ n(b.id));
        match &b.merge {
            Mg::None => {}
            Mg::Sel(m, _) => h = mix(h ^ (1 << 32) ^ n(*m)),
            Mg::Loop(m, _, _) => h = mix(h ^ (2 << 32) ^ n(*m)),
        }
        match &b.term {
            Term::Br(t) => h = mix(h ^ (3 << 32) ^ n(*t)),
            Term::Cond(t, f, _) => {
                h = mix(h ^ (4 << 32) ^ n(*t));
                h = mix(h ^ (5 << 32) ^ n(*f));
            }
            Term::Ret => h = mix(h ^ (6 << 32)),
        }
    }
    h
}

// ---------------------------------------------------------------- C09

fn compare(got: &[Ch], want: &[Ch]) -> String {
    let (mut a, mut b) = (String::new(), String::new());
    chain_text(got, 0, &mut a);
    chain_text(want, 0, &mut b);
    if a == b {
        return "texts agree but structures differ".into();
    }
    diff(&a, &b)
}
/// Sequences are flat: none stands directly inside another
fn flat(ch: &ControlFlowChain) -> Res {
    match *ch {
        ControlFlowChain::Block(ref v) => v.iter().try_for_each(|x| match *x {
            ControlFlowChain::Block(_) => Err(format!("a sequence of {} stands directly inside another one", v.len())),
            ref x => flat(x),
        }),
        ControlFlowChain::Selection(_, ref l, ref r, ..) => flat(l).and_then(|_| flat(r)),
        ControlFlowChain::Loop(_, ref i, ..) => flat(i),
        _ => Ok(()),
    }
}
fn recovers(c: &mut Ctx, s: &Structured, d: FunctionDefinition) -> Res {
    c.eval();
    c.seen(graph_hash(&s.blocks));
    c.count("blocks", s.blocks.len() as u64);
    match find_control_flow(d) {
        Err(e) => Err(format!("structured function refused with {:?}: {}", e, describe(&s.blocks))),
        Ok(ch) => {
            let mut got = vec![];
            norm(&ch, &mut got)?;
            flat(&ch)?;
            if got != s.want {
                return Err(format!("structure differs {}; blocks {}", compare(&got, &s.want), describe(&s.blocks)));
            }
            c.sample(4, || describe(&s.blocks));
            Ok(())
        }
    }
}
fn c09_random(c: &mut Ctx) -> Res {
    let (b, d) = size(&mut c.r);
    let s = structured(&mut c.r, b, d);
    let f = to_def(&mut c.r, &s.blocks);
    recovers(c, &s, f)
}
fn c09_shaped(c: &mut Ctx) -> Res {
    let kind = (c.idx % 8) as usize;
    let n = match c.r.below(4) {
        0 => c.r.range(1, 12),
        1 => gen::count(&mut c.r, 400),
        2 if kind < 3 => *c.r.pick(&[255, 256, 257, 1000, 1023, 1024, 1025, 5000, 20_000, 70_000]),
        2 => *c.r.pick(&[100, 127, 128, 129, 255, 256, 257, 400]),
        _ => c.r.range(1, 300),
    };
    let s = shaped(&mut c.r, kind, n);
    c.count("deep or long functions", 1);
    let f = to_def(&mut c.r, &s.blocks);
    recovers(c, &s, f)
}
/// The whole way: bytes, reader, layout, control flow
fn c09_bytes(c: &mut Ctx) -> Res {
    let (b, d) = size(&mut c.r);
    let s = structured(&mut c.r, b.min(60), d);
    let (def, _) = through_bytes(c, &s.blocks)?;
    if let Some(def) = def {
        c.count("functions that came from bytes", 1);
        return recovers(c, &s, def);
    }
    Ok(())
}
/// Encode the function in a module, read and validate it; None when the module holds something unreadable
pub fn through_bytes(c: &mut Ctx, bs: &[B]) -> Result<(Option<FunctionDefinition>, Vec<Inst>), String> {
    let mut v = vec![
        Inst { op: oi::OP_EXT_INST_IMPORT, args: vec![Arg::Res(1), Arg::Str(ext::GLSL.into())] },
        layout::of_class(&mut c.r, Class::MemoryModel),
    ];
    // the function stands among others
    let before = c.r.below(3);
    for _ in 0..before {
        v.push(gen::inst(&mut c.r, oi::OP_FUNCTION, 0));
        v.push(Inst { op: oi::OP_LABEL, args: vec![Arg::Res(bs[0].id)] });
        v.push(Inst { op: oi::OP_RETURN, args: vec![] });
        v.push(Inst { op: oi::OP_FUNCTION_END, args: vec![] });
    }
    v.push(gen::inst(&mut c.r, oi::OP_FUNCTION, 0));
    for b in bs {
        v.extend(insts_of(b));
    }
    v.push(Inst { op: oi::OP_FUNCTION_END, args: vec![] });
    for i in &mut v {
        if i.op == oi::OP_EXT_INST {
            i.args[2] = Arg::Id(1);
            if matches!(&i.args[3], Arg::Ext(x) if x.tag != 0) {
                i.args[3] = Arg::Ext(ExtVal { tag: 0, inst: 13, words: vec![5] });
            }
        }
    }
    if v.iter().any(|i| OPS[i.op].num < 0) {
        return Ok((None, v));
    }
    let be = c.r.chance(1, 4);
    let bytes = to_bytes(&encode_module(&gen::header(&mut c.r), &v), be);
    let (m, _) = read::read(&bytes, &[ext::glsl()]);
    let m = m.map_err(|e| format!("module with a structured function not read: {:?}", e))?;
    let l = validate(m).map_err(|e| format!("module with a structured function not accepted: {:?}", e))?;
    if l.function_definitions.len() != before + 1 {
        return Err(format!("{} function definitions instead of {}", l.function_definitions.len(), before + 1));
    }
    Ok((l.function_definitions.into_iter().last(), v))
}
/// Small programs, all of them: sequences of up to n constructs nested to a depth
fn c09_small(c: &mut Ctx) -> Res {
    // the case number is the choice string: digits consumed by the builder
    let mut code = c.idx;
    let mut m = Maker::new(&mut c.r);
    m.id_mode = 0;
    m.code = 0;
    m.hints = false;
    m.budget = usize::MAX / 2;
    let ret = m.fresh();
    m.blocks.push(B { id: ret, code: vec![], merge: Mg::None, term: Term::Ret });
    fn seq(m: &mut Maker, code: &mut u64, next: u32, lp: Option<(u32, u32)>) -> (u32, Vec<Ch>) {
        // symbols: end, plain, selection, loop, break, continue
        let n = if lp.is_some() { 6 } else { 4 };
        let d = *code % n;
        *code /= n;
        match d {
            1 => {
                let id = m.fresh();
                let (e, mut v) = seq(m, code, next, lp);
                m.blocks.push(B { id, code: vec![], merge: Mg::None, term: Term::Br(e) });
                v.insert(0, Ch::Atom(id));
                (id, v)
            }
            2 => {
                let id = m.fresh();
                let (k, mut v) = seq(m, code, next, lp);
                let (t, tc) = seq(m, code, k, None);
                let (f, fc) = seq(m, code, k, None);
                m.blocks.push(B { id, code: vec![], merge: Mg::Sel(k, no_hint(SEL_MASK)), term: Term::Cond(t, f, None) });
                v.insert(0, Ch::Sel(id, tc, fc, no_hint(SEL_MASK), None));
                (id, v)
            }
            3 => {
                let id = m.fresh();
                let (k, mut v) = seq(m, code, next, lp);
                let (e, body) = seq(m, code, id, Some((id, k)));
                m.blocks.push(B { id, code: vec![], merge: Mg::Loop(k, id, no_hint(LOOP_MASK)), term: Term::Br(e) });
                v.insert(0, Ch::Loop(id, body, no_hint(LOOP_MASK), None));
                (id, v)
            }
            4 | 5 => {
                let id = m.fresh();
                let (head, merge) = lp.unwrap();
                let (e, rest) = seq(m, code, next, lp);
                m.blocks.push(B { id, code: vec![], merge: Mg::None, term: Term::Cond(e, if d == 4 { merge } else { head }, None) });
                (id, vec![Ch::Sel(id, rest, vec![if d == 4 { Ch::Break } else { Ch::Continue }], no_hint(SEL_MASK), None)])
            }
            _ => (next, vec![]),
        }
    }
    let (e, mut want) = seq(&mut m, &mut code, ret, None);
    if code != 0 {
        // the same program has a smaller number
        return Ok(());
    }
    want.push(Ch::Atom(ret));
    let s = m.finish(e, want);
    let f = to_def(&mut c.r, &s.blocks);
    recovers(c, &s, f)
}
pub static C09: &[Family] = &[
    fam("small", 400_000, 30_000_000, c09_small),
    fam("random", 200_000, 10_000_000, c09_random),
    fam("shaped", 800, 16_000, c09_shaped),
    fam("bytes", 20_000, 1_000_000, c09_bytes),
];

// ---------------------------------------------------------------- C10

struct Node {
    id: u32,
    kind: u8, // 0 plain, 1 conditional, 2 loop
    a: usize,
    b: usize,
}
const END: usize = usize::MAX;
const NOWHERE: usize = usize::MAX - 1;
/// The structure as an automaton that visits blocks
fn automaton(v: &[Ch], next: usize, brk: usize, cnt: usize, nodes: &mut Vec<Node>) -> usize {
    let mut k = next;
    for c in v.iter().rev() {
        k = match c {
            Ch::Break => brk,
            Ch::Continue => cnt,
            Ch::Atom(id) => {
                nodes.push(Node { id: *id, kind: 0, a: k, b: 0 });
                nodes.len() - 1
            }
            Ch::Sel(id, l, r, _, _) => {
                let a = automaton(l, k, brk, cnt, nodes);
                let b = automaton(r, k, brk, cnt, nodes);
                nodes.push(Node { id: *id, kind: 1, a, b });
                nodes.len() - 1
            }
            Ch::Loop(id, body, _, _) => {
                let me = nodes.len();
                nodes.push(Node { id: *id, kind: 2, a: 0, b: 0 });
                let a = automaton(body, me, k, me, nodes);
                nodes[me].a = a;
                me
            }
        };
    }
    k
}
/// Every path of the structure is a path of the graph and the other way round
pub fn same_paths(bs: &[B], v: &[Ch]) -> Result<usize, String> {
    let map: HashMap<u32, &B> = bs.iter().map(|b| (b.id, b)).collect();
    let mut nodes = vec![];
    let start = automaton(v, END, NOWHERE, NOWHERE, &mut nodes);
    let mut todo = vec![(start, Some(bs[0].id))];
    let mut seen: HashSet<(usize, Option<u32>)> = HashSet::new();
    while let Some(p) = todo.pop() {
        if !seen.insert(p) {
            continue;
        }
        let (n, b) = p;
        let b = match (n, b) {
            (END, None) => continue,
            (END, Some(b)) => return Err(format!("structure ends where the graph goes on to block {}", b)),
            (NOWHERE, _) => return Err("break or continue outside a loop".into()),
            (_, None) => return Err(format!("structure goes on to block {} where the graph returns", nodes[n].id)),
            (_, Some(b)) => b,
        };
        let n = &nodes[n];
        if n.id != b {
            return Err(format!("structure visits block {} where the graph visits {}", n.id, b));
        }
        let blk = match map.get(&b) {
            Some(b) => b,
            None => return Err(format!("structure visits block {}, which does not exist", b)),
        };
        match (&blk.term, n.kind) {
            (Term::Ret, 0) => todo.push((n.a, None)),
            (Term::Br(t), 0) | (Term::Br(t), 2) => todo.push((n.a, Some(*t))),
            (Term::Cond(t, f, _), 1) => {
                todo.push((n.a, Some(*t)));
                todo.push((n.b, Some(*f)));
            }
            _ => return Err(format!("block {} ends with {:?} but stands as {}", b, blk.term, ["a plain block", "a selection", "a loop"][n.kind as usize])),
        }
    }
    Ok(seen.len())
}
fn paths(c: &mut Ctx, bs: &[B]) -> Res {
    c.eval();
    let d = to_def(&mut c.r, bs);
    match find_control_flow(d) {
        Err(e) => {
            let k = format!("{:?}", e);
            c.count(&format!("refused as {}", read::kind_of(&k)), 1);
            Ok(())
        }
        Ok(ch) => {
            c.seen(graph_hash(bs));
            if bs.is_empty() {
                return Err("a structure for no blocks".into());
            }
            let mut got = vec![];
            norm(&ch, &mut got)?;
            match same_paths(bs, &got) {
                Ok(n) => {
                    c.count("structure and graph states compared", n as u64);
                    c.count("structures recovered", 1);
                    c.sample(4, || describe(bs));
                    Ok(())
                }
                Err(e) => {
                    let mut t = String::new();
                    chain_text(&got, 0, &mut t);
                    Err(format!("{}; blocks {}; structure {:?}", e, describe(bs), short(&t, 600)))
                }
            }
        }
    }
}
/// All block shapes over n ids (and `out` missing ones)
fn shapes(n: u32, out: u32, full: bool) -> Vec<(Term, Mg)> {
    let t = n + out;
    let mut v = vec![];
    let merges = |cond: bool, ret: bool| {
        let mut m = vec![Mg::None];
        for k in 0..t {
            if cond || full {
                m.push(Mg::Sel(k, no_hint(SEL_MASK)));
            }
            if (!cond && !ret) || full {
                m.push(Mg::Loop(k, 0, no_hint(LOOP_MASK)));
            }
        }
        if ret && !full {
            m.truncate(1);
        }
        m
    };
    for m in merges(false, true) {
        v.push((Term::Ret, m));
    }
    for a in 0..t {
        for m in merges(false, false) {
            v.push((Term::Br(a), m));
        }
        for b in 0..t {
            for m in merges(true, false) {
                v.push((Term::Cond(a, b, None), m));
            }
        }
    }
    v
}
fn enumerate(c: &mut Ctx, n: u32, out: u32, full: bool, per: u64, judge: fn(&mut Ctx, &[B]) -> Res) -> Res {
    let sh = shapes(n, out, full);
    let total = (sh.len() as u64).pow(n);
    let from = c.idx * per;
    for k in from..(from + per).min(total) {
        let mut x = k;
        let bs: Vec<B> = (0..n)
            .map(|i| {
                let (t, m) = &sh[(x % sh.len() as u64) as usize];
                x /= sh.len() as u64;
                B { id: i, code: vec![], merge: m.clone(), term: t.clone() }
            })
            .collect();
        judge(c, &bs)?;
    }
    Ok(())
}
pub fn random_graph(r: &mut Rng) -> Vec<B> {
    let n = r.range(1, 9);
    let out = r.chance(1, 10) as usize;
    let base = if r.chance(1, 2) { 0 } else { gen::num(r) };
    let loopy = r.range(1, 4);
    let mut ids: Vec<u32> = (0..n as u32).map(|i| base.wrapping_add(i)).collect();
    if r.chance(1, 2) {
        r.shuffle(&mut ids);
    }
    // edges mostly forward, so that some graphs make sense
    let fwd = r.chance(2, 3);
    (0..n)
        .map(|i| {
            let to = |r: &mut Rng| {
                if out == 1 && r.chance(1, 12) {
                    return base.wrapping_add(n as u32 + 5);
                }
                if fwd && r.chance(5, 6) && i + 1 < n {
                    ids[r.range(i + 1, n - 1)]
                } else {
                    ids[r.below(n)]
                }
            };
            let term = if i + 1 == n && r.chance(3, 4) {
                Term::Ret
            } else {
                match r.below(6) {
                    0..=2 => Term::Br(to(r)),
                    3 | 4 => Term::Cond(to(r), to(r), if r.chance(1, 4) { Some((1, 2)) } else { None }),
                    _ => {
                        if r.chance(1, 3) {
                            Term::Ret
                        } else {
                            Term::Br(to(r))
                        }
                    }
                }
            };
            let merge = match term {
                Term::Br(_) if r.below(6) < loopy => Mg::Loop(to(r), to(r), no_hint(LOOP_MASK)),
                Term::Cond(..) if r.chance(3, 4) => Mg::Sel(to(r), no_hint(SEL_MASK)),
                _ if r.chance(1, 30) => Mg::Sel(to(r), no_hint(SEL_MASK)),
                _ if r.chance(1, 30) => Mg::Loop(to(r), to(r), no_hint(LOOP_MASK)),
                _ => Mg::None,
            };
            B { id: ids[i], code: vec![], merge, term }
        })
        .collect()
}
/// A structured function with one to three edges, merges or blocks changed
pub fn bent(r: &mut Rng, s: &Structured) -> Vec<B> {
    let mut bs = s.blocks.clone();
    let joins: Vec<u32> = s.places.iter().flat_map(|p| p.joins.iter().copied()).collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(bs.len());
        let to = if !joins.is_empty() && r.chance(1, 2) { *r.pick(&joins) } else { bs[r.below(bs.len())].id };
        match r.below(8) {
            0..=2 => match bs[i].term {
                Term::Br(ref mut t) => *t = to,
                Term::Cond(ref mut t, ref mut f, _) => {
                    if r.chance(1, 2) {
                        *t = to
                    } else {
                        *f = to
                    }
                }
                Term::Ret => bs[i].term = Term::Br(to),
            },
            3 => {
                if let Term::Cond(t, f, w) = bs[i].term {
                    bs[i].term = Term::Cond(f, t, w)
                }
            }
            4 => match bs[i].merge {
                Mg::Sel(ref mut m, _) | Mg::Loop(ref mut m, _, _) => *m = to,
                Mg::None => {}
            },
            5 => bs[i].merge = Mg::None,
            6 => {
                bs[i].merge = match bs[i].term {
                    Term::Br(_) => Mg::Loop(to, to, no_hint(LOOP_MASK)),
                    _ => Mg::Sel(to, no_hint(SEL_MASK)),
                }
            }
            _ => {
                bs[i].term = match r.below(3) {
                    0 => Term::Ret,
                    1 => Term::Br(to),
                    _ => {
                        let o = bs[r.below(bs.len())].id;
                        Term::Cond(o, to, None)
                    }
                }
            }
        }
    }
    bs
}
fn c10_three(c: &mut Ctx) -> Res {
    enumerate(c, 3, 0, false, 2_000, paths)
}
fn c10_three_full(c: &mut Ctx) -> Res {
    enumerate(c, 3, 1, true, 10_000, paths)
}
fn c10_four(c: &mut Ctx) -> Res {
    enumerate(c, 4, 0, false, 20_000, paths)
}
fn c10_tiny(c: &mut Ctx) -> Res {
    for n in 1..=2 {
        let sh = shapes(n, 1, true);
        let per = (sh.len() as u64).pow(n);
        enumerate(c, n, 1, true, per, paths)?;
    }
    Ok(())
}
fn c10_random(c: &mut Ctx) -> Res {
    let g = random_graph(&mut c.r);
    paths(c, &g)
}
fn c10_bent(c: &mut Ctx) -> Res {
    let (b, d) = size(&mut c.r);
    let s = structured(&mut c.r, b.min(30), d);
    let g = bent(&mut c.r, &s);
    paths(c, &g)
}
fn c10_structured(c: &mut Ctx) -> Res {
    let (b, d) = size(&mut c.r);
    let s = structured(&mut c.r, b, d);
    // a structured function must come back at all, or there is nothing to compare
    let before = c.counters.get("structures recovered").copied().unwrap_or(0);
    paths(c, &s.blocks)?;
    if c.counters.get("structures recovered").copied().unwrap_or(0) == before {
        c.count("structured functions refused", 1);
    }
    Ok(())
}
/// Functions of thousands of blocks
fn c10_large(c: &mut Ctx) -> Res {
    let s = large(&mut c.r, if c.idx % 41 == 7 { 70_000 } else { 9_000 });
    let g = if c.r.chance(1, 3) { bent(&mut c.r, &s) } else { s.blocks };
    c.most("blocks of a graph", g.len() as u64);
    paths(c, &g)
}
fn c10_shared(c: &mut Ctx) -> Res {
    // selections whose arms run through the same blocks: a DAG unfolded into a tree
    let n = c.r.range(2, 6);
    let mut bs = vec![];
    let m = 1000;
    for i in 0..n {
        let t = *c.r.pick(&[i + 1, n]);
        let f = c.r.range(i + 1, n);
        let own = c.r.chance(1, 2);
        bs.push(B {
            id: i as u32,
            code: vec![],
            merge: if own || i == 0 { Mg::Sel(m, no_hint(SEL_MASK)) } else { Mg::None },
            term: if own || i == 0 { Term::Cond(t as u32, f as u32, None) } else { Term::Br(t as u32) },
        });
    }
    bs.push(B { id: n as u32, code: vec![], merge: Mg::None, term: Term::Br(m) });
    bs.push(B { id: m, code: vec![], merge: Mg::None, term: Term::Ret });
    paths(c, &bs)
}
pub static C10: &[Family] = &[
    fam("tiny", 1, 1, c10_tiny),
    fam("three", 59, 59, c10_three),
    fam("three-full", 16, 676, c10_three_full),
    fam("four", 40, 5_204, c10_four),
    fam("random", 400_000, 30_000_000, c10_random),
    fam("bent", 200_000, 10_000_000, c10_bent),
    fam("structured", 60_000, 3_000_000, c10_structured),
    fam("shared", 20_000, 400_000, c10_shared),
    fam("large", 1_600, 30_000, c10_large),
];

// ---------------------------------------------------------------- C12

fn printed(c: &mut Ctx, d: &FunctionDefinition, bs: &[B], ch: &ControlFlowChain, want: &[Ch]) -> Res {
    c.eval();
    let mut t = String::new();
    chain_text(want, 0, &mut t);
    let got = ch.to_string();
    c.seen_bytes(t.as_bytes());
    c.count("printed lines compared", t.lines().count() as u64);
    if got != t {
        return Err(format!("printed structure {}; blocks {}", diff(&got, &t), describe(bs)));
    }
    let map: HashMap<u32, &B> = bs.iter().map(|b| (b.id, b)).collect();
    let mut t = String::new();
    function_text(&map, want, 0, &mut t);
    let got = ControlFlowFunctionPrinter(d, ch).to_string();
    c.count("printed lines compared", t.lines().count() as u64);
    if got != t {
        return Err(format!("printed function {}; blocks {}", diff(&got, &t), describe(bs)));
    }
    c.sample(3, || short(&t, 700));
    Ok(())
}
fn c12_on(c: &mut Ctx, s: &Structured) -> Res {
    let d = to_def(&mut c.r, &s.blocks);
    match find_control_flow(d.clone()) {
        Err(e) => {
            // recovery itself is another property's matter
            c.count("not recovered", 1);
            c.sample(1, || format!("not recovered: {:?}", e));
            Ok(())
        }
        Ok(ch) => {
            let mut got = vec![];
            norm(&ch, &mut got)?;
            printed(c, &d, &s.blocks, &ch, &got)
        }
    }
}
fn c12_random(c: &mut Ctx) -> Res {
    let (b, d) = size(&mut c.r);
    let mut m = Maker::new(&mut c.r);
    m.budget = b.min(120);
    m.max_depth = d;
    m.code = 3;
    let s = m.function();
    c12_on(c, &s)
}
fn c12_shaped(c: &mut Ctx) -> Res {
    let kind = (c.idx % 8) as usize;
    let n = match c.r.below(3) {
        0 => c.r.range(1, 40),
        // deep: the indentation alone is longer than any line elsewhere
        1 if c.r.chance(1, 8) => *c.r.pick(&[120usize, 250, 500, 700]) + c.r.below(20),
        _ => gen::count(&mut c.r, 90),
    };
    let s = shaped(&mut c.r, kind, n);
    c12_on(c, &s)
}
fn c12_bent(c: &mut Ctx) -> Res {
    let g = if c.r.chance(1, 2) {
        random_graph(&mut c.r)
    } else {
        let s = structured(&mut c.r, 12, 4);
        bent(&mut c.r, &s)
    };
    let d = to_def(&mut c.r, &g);
    if let Ok(ch) = find_control_flow(d.clone()) {
        let mut got = vec![];
        norm(&ch, &mut got)?;
        return printed(c, &d, &g, &ch, &got);
    }
    c.count("not recovered", 1);
    Ok(())
}
fn c12_bytes(c: &mut Ctx) -> Res {
    let mut m = Maker::new(&mut c.r);
    m.budget = 20;
    m.code = 3;
    let mut s = m.function();
    let (d, v) = through_bytes(c, &s.blocks)?;
    if let Some(d) = d {
        // extended instructions were rewritten so that they can be read
        let exts: Vec<Inst> = v.into_iter().filter(|i| i.op == oi::OP_EXT_INST).collect();
        let mut k = 0;
        for b in &mut s.blocks {
            for i in &mut b.code {
                if i.op == oi::OP_EXT_INST {
                    *i = exts[k].clone();
                    k += 1;
                }
            }
        }
        if let Ok(ch) = find_control_flow(d.clone()) {
            let mut got = vec![];
            norm(&ch, &mut got)?;
            return printed(c, &d, &s.blocks, &ch, &got);
        }
    }
    Ok(())
}
/// Structures put together by the caller from the ids of recovered ones
fn c12_built(c: &mut Ctx) -> Res {
    let s = shaped(&mut c.r, 0, 6);
    let d = to_def(&mut c.r, &s.blocks);
    let ids: Vec<BlockId> = match find_control_flow(d.clone()) {
        Ok(ControlFlowChain::Block(v)) => v.iter().filter_map(|x| if let ControlFlowChain::Atom(b) = *x { Some(b) } else { None }).collect(),
        _ => vec![],
    };
    if ids.is_empty() {
        return Ok(());
    }
    fn any(r: &mut Rng, ids: &[BlockId], depth: usize) -> ControlFlowChain {
        match if depth == 0 { 0 } else { r.below(6) } {
            0 | 1 => ControlFlowChain::Atom(*r.pick(ids)),
            2 => ControlFlowChain::Block((0..r.range(1, 3)).map(|_| any(r, ids, depth - 1)).collect()),
            3 => {
                let f = match r.below(3) {
                    0 => ControlFlowChain::Block(vec![]),
                    1 => any(r, ids, depth - 1),
                    _ => ControlFlowChain::Break,
                };
                let t = if r.chance(1, 4) { ControlFlowChain::Block(vec![]) } else { any(r, ids, depth - 1) };
                let w = if r.chance(1, 2) { Some(BranchWeights { true_weight: gen::num(r), false_weight: gen::num(r) }) } else { None };
                ControlFlowChain::Selection(*r.pick(ids), Box::new(t), Box::new(f), build1(&gen::mask_arg(r, SEL_MASK, None)), w)
            }
            4 => {
                let w = if r.chance(1, 2) { Some(BranchWeights { true_weight: gen::num(r), false_weight: gen::num(r) }) } else { None };
                ControlFlowChain::Loop(*r.pick(ids), Box::new(any(r, ids, depth - 1)), build1(&gen::mask_arg(r, LOOP_MASK, None)), w)
            }
            _ => {
                if r.chance(1, 2) {
                    ControlFlowChain::Break
                } else {
                    ControlFlowChain::Continue
                }
            }
        }
    }
    let ch = any(&mut c.r, &ids, 5);
    let mut want = vec![];
    norm(&ch, &mut want)?;
    printed(c, &d, &s.blocks, &ch, &want)
}
/// Blocks of thousands of instructions, functions of thousands of blocks
fn c12_large(c: &mut Ctx) -> Res {
    if c.r.chance(1, 2) {
        let s = large(&mut c.r, if c.idx % 41 == 7 { 70_000 } else { 5_000 });
        c.most("blocks of a printed function", s.blocks.len() as u64);
        return c12_on(c, &s);
    }
    let mut s = shaped(&mut c.r, 6, 2);
    let stock: Vec<Inst> = (0..30).map(|_| layout::of_class(&mut c.r, Class::Code)).collect();
    let n = *c.r.pick(&[260usize, 1_100, 4_200, 17_000, 66_000]);
    let k = c.r.below(s.blocks.len());
    for _ in 0..n {
        let i = c.r.pick(&stock).clone();
        s.blocks[k].code.push(i);
    }
    c.most("instructions of a printed block", n as u64);
    c12_on(c, &s)
}
/// Blocks with every code instruction
fn c12_code(c: &mut Ctx) -> Res {
    let ops = layout::ops_of(Class::Code);
    let op = ops[c.idx as usize % ops.len()];
    let mut s = shaped(&mut c.r, 6, 2);
    for b in &mut s.blocks {
        for _ in 0..c.r.below(4) {
            b.code.push(layout::make(&mut c.r, op, Class::Code));
        }
    }
    c12_on(c, &s)
}
pub static C12: &[Family] = &[
    fam("code", 1_000, 50_000, c12_code),
    fam("random", 60_000, 2_000_000, c12_random),
    fam("shaped", 800, 8_000, c12_shaped),
    fam("bent", 60_000, 2_000_000, c12_bent),
    fam("built", 40_000, 1_000_000, c12_built),
    fam("bytes", 10_000, 300_000, c12_bytes),
    fam("large", 640, 8_000, c12_large),
];

// ---------------------------------------------------------------- C16

fn refused(c: &mut Ctx, bs: &[B], accept: &[String]) -> Res {
    c.eval();
    c.seen(graph_hash(bs));
    let d = to_def(&mut c.r, bs);
    match find_control_flow(d) {
        Ok(ch) => Err(format!("accepted as {:?}, expected {:?}; blocks {}", short(&ch.to_string(), 300), accept, describe(bs))),
        Err(e) => {
            let t = error_text(&e)?;
            c.count(&format!("refused as {}", t.split('(').next().unwrap_or("")), 1);
            c.sample(5, || format!("{} for {}", t, describe(bs)));
            if accept.is_empty() || accept.contains(&t) {
                Ok(())
            } else {
                Err(format!("refused with {}, expected {:?}; blocks {}", t, accept, describe(bs)))
            }
        }
    }
}
fn error_text(e: &ControlFlowError) -> Result<String, String> {
    Ok(match *e {
        ControlFlowError::DuplicateBlockId(ref b) => format!("DuplicateBlockId({})", bid(b)?),
        ControlFlowError::NoBlocks => "NoBlocks".into(),
        ControlFlowError::UnknownBlockId(ref b) => format!("UnknownBlockId({})", bid(b)?),
        ControlFlowError::CouldNotPredictConverge(ref b) => format!("CouldNotPredictConverge({})", bid(b)?),
        ControlFlowError::InvalidConvergePrediction(ref t, ref b) => {
            format!("InvalidConvergePrediction({}, {})", if let ControlType::Selection = *t { "Selection" } else { "Loop" }, bid(b)?)
        }
        ControlFlowError::Failed => "Failed".into(),
    })
}
fn c16_none(c: &mut Ctx) -> Res {
    refused(c, &[], &["NoBlocks".into()])
}
pub fn reachable(bs: &[B]) -> (HashSet<u32>, HashSet<u32>) {
    let map: HashMap<u32, &B> = bs.iter().map(|b| (b.id, b)).collect();
    let (mut seen, mut missing) = (HashSet::new(), HashSet::new());
    let mut todo = vec![bs[0].id];
    while let Some(i) = todo.pop() {
        match map.get(&i) {
            None => {
                missing.insert(i);
            }
            Some(b) => {
                if seen.insert(i) {
                    match b.term {
                        Term::Br(t) => todo.push(t),
                        Term::Cond(t, f, _) => todo.extend([t, f]),
                        Term::Ret => {}
                    }
                }
            }
        }
    }
    (seen, missing)
}
fn c16_duplicate(c: &mut Ctx) -> Res {
    let (b, d) = size(&mut c.r);
    let s = structured(&mut c.r, b, d);
    c16_duplicate_in(c, s)
}
fn c16_duplicate_in(c: &mut Ctx, s: Structured) -> Res {
    let mut bs = s.blocks;
    let i = c.r.below(bs.len());
    let mut x = bs[i].clone();
    if c.r.chance(1, 2) {
        x.term = Term::Ret;
        x.merge = Mg::None;
    }
    let id = x.id;
    let at = c.r.below(bs.len() + 1);
    bs.insert(at, x);
    refused(c, &bs, &[format!("DuplicateBlockId({})", id)])
}
fn c16_missing(c: &mut Ctx) -> Res {
    let (b, d) = size(&mut c.r);
    let s = structured(&mut c.r, b, d);
    c16_missing_in(c, s)
}
fn c16_missing_in(c: &mut Ctx, s: Structured) -> Res {
    let mut bs = s.blocks;
    let (seen, _) = reachable(&bs);
    let live: Vec<usize> = (0..bs.len()).filter(|&i| seen.contains(&bs[i].id)).collect();
    if c.r.chance(1, 2) {
        // a block is gone
        let pick: Vec<usize> = live.iter().copied().filter(|&i| i != 0).collect();
        if pick.is_empty() {
            return Ok(());
        }
        let i = *c.r.pick(&pick);
        let id = bs.remove(i).id;
        refused(c, &bs, &[format!("UnknownBlockId({})", id)])
    } else {
        // an edge leads nowhere
        let i = *c.r.pick(&live);
        let mut to = gen::num(&mut c.r);
        while bs.iter().any(|b| b.id == to) {
            to = c.r.u32();
        }
        let exit = s.places.iter().any(|p| p.id == bs[i].id && p.kind == 3);
        match bs[i].term {
            Term::Br(ref mut t) => *t = to,
            Term::Cond(ref mut t, ref mut f, _) => {
                if exit || c.r.chance(1, 2) {
                    *t = to
                } else {
                    *f = to
                }
            }
            Term::Ret => bs[i].term = Term::Br(to),
        }
        refused(c, &bs, &[format!("UnknownBlockId({})", to)])
    }
}
fn c16_stray(c: &mut Ctx) -> Res {
    let (b, d) = size(&mut c.r);
    let s = structured(&mut c.r, b.max(6), d);
    c16_stray_in(c, s)
}
fn c16_stray_in(c: &mut Ctx, s: Structured) -> Res {
    let mut bs = s.blocks;
    let (seen, _) = reachable(&bs);
    let p: Vec<&Place> = s.places.iter().filter(|p| (p.kind == 1 || p.kind == 3) && seen.contains(&p.id)).collect();
    if p.is_empty() {
        return Ok(());
    }
    let p = *c.r.pick(&p);
    let ids: Vec<u32> = bs.iter().map(|b| b.id).collect();
    let to = *c.r.pick(&ids);
    let b = bs.iter_mut().find(|b| b.id == p.id).unwrap();
    let f = match b.term {
        Term::Cond(_, ref mut f, _) => f,
        _ => return Ok(()),
    };
    let leaves = |f: u32| p.lp.map_or(false, |(h, m)| f == h || f == m);
    if p.kind == 1 {
        if leaves(*f) {
            return Ok(());
        }
        b.merge = Mg::None;
    } else {
        if leaves(to) {
            return Ok(());
        }
        *f = to;
    }
    refused(c, &bs, &[format!("CouldNotPredictConverge({})", p.id)])
}
fn c16_astray(c: &mut Ctx) -> Res {
    let (b, d) = size(&mut c.r);
    let s = structured(&mut c.r, b.max(6), d);
    c16_astray_in(c, s)
}
fn c16_astray_in(c: &mut Ctx, s: Structured) -> Res {
    let mut bs = s.blocks;
    let (seen, _) = reachable(&bs);
    let p: Vec<&Place> = s.places.iter().filter(|p| p.kind == 0 && p.holder.is_some() && seen.contains(&p.id)).collect();
    if p.is_empty() {
        return Ok(());
    }
    let p = *c.r.pick(&p);
    let (lp, ids) = p.holder.clone().unwrap();
    let goal = p.goal.unwrap();
    let others: Vec<u32> = p.joins.iter().copied().filter(|j| *j != goal).collect();
    let b = bs.iter_mut().find(|b| b.id == p.id).unwrap();
    if !others.is_empty() && c.r.chance(1, 2) {
        b.term = Term::Br(*c.r.pick(&others));
        c.count("arms led to an outer construct", 1);
    } else {
        b.term = Term::Ret;
        c.count("arms made to return", 1);
    }
    let accept: Vec<String> = ids.iter().map(|i| format!("InvalidConvergePrediction({}, {})", if lp { "Loop" } else { "Selection" }, i)).collect();
    refused(c, &bs, &accept)
}
/// The same faults, one in a function of thousands of blocks
fn c16_large(c: &mut Ctx) -> Res {
    let s = large(&mut c.r, if c.idx % 41 == 7 { 70_000 } else { 20_000 });
    c.most("blocks of a faulty function", s.blocks.len() as u64);
    match c.idx / 8 % 4 {
        0 => c16_duplicate_in(c, s),
        1 => c16_missing_in(c, s),
        2 => c16_stray_in(c, s),
        _ => c16_astray_in(c, s),
    }
}
/// Edges back to a block already passed: refused one way or another
fn c16_cycle(c: &mut Ctx) -> Res {
    let (b, d) = size(&mut c.r);
    let s = structured(&mut c.r, b, d);
    let mut bs = s.blocks;
    // the only return becomes a branch: nothing returns any more
    let back = bs[c.r.below(bs.len())].id;
    let (seen, _) = reachable(&bs);
    let mut n = 0;
    for b in &mut bs {
        if seen.contains(&b.id) && b.term == Term::Ret {
            b.term = Term::Br(back);
            n += 1;
        }
    }
    if n == 0 || !seen.contains(&back) {
        return Ok(());
    }
    refused(c, &bs, &[])
}
/// Any graph: the faults that can be told from the graph alone
fn c16_graph(c: &mut Ctx, bs: &[B]) -> Res {
    let mut seen = HashSet::new();
    let dup: Vec<u32> = bs.iter().filter(|b| !seen.insert(b.id)).map(|b| b.id).collect();
    if !dup.is_empty() {
        return refused(c, bs, &dup.iter().map(|d| format!("DuplicateBlockId({})", d)).collect::<Vec<_>>());
    }
    let (live, missing) = reachable(bs);
    if !missing.is_empty() {
        c.count("graphs with a reachable missing block", 1);
        return refused(c, bs, &[]);
    }
    // no return can be reached: nothing to end with; a conditional branch without merge and no loop anywhere
    let blocks: Vec<&B> = bs.iter().filter(|b| live.contains(&b.id)).collect();
    let loops = blocks.iter().any(|b| matches!(b.merge, Mg::Loop(..)));
    let stray = blocks.iter().any(|b| matches!(b.term, Term::Cond(..)) && b.merge == Mg::None);
    if stray && !loops {
        c.count("graphs with a stray conditional", 1);
        return refused(c, bs, &[]);
    }
    if !blocks.iter().any(|b| b.term == Term::Ret) && !loops {
        c.count("graphs that never return", 1);
        return refused(c, bs, &[]);
    }
    // the errors must name what is there
    c.eval();
    let d = to_def(&mut c.r, bs);
    if let Err(e) = find_control_flow(d) {
        let t = error_text(&e)?;
        let named = |b: &BlockId| bid(b).map(|i| bs.iter().find(|x| x.id == i));
        match e {
            ControlFlowError::UnknownBlockId(ref b) => {
                // merge blocks that no branch leads to may be missing as well
                if named(b)?.is_some() {
                    return Err(format!("{}, but that block exists; blocks {}", t, describe(bs)));
                }
            }
            ControlFlowError::DuplicateBlockId(_) | ControlFlowError::NoBlocks => {
                return Err(format!("{} for a function with distinct blocks; blocks {}", t, describe(bs)));
            }
            ControlFlowError::CouldNotPredictConverge(ref b) | ControlFlowError::InvalidConvergePrediction(_, ref b) => {
                if named(b)?.is_none() {
                    return Err(format!("{} names no block of the function; blocks {}", t, describe(bs)));
                }
            }
            ControlFlowError::Failed => {}
        }
        c.count(&format!("refused as {}", t.split('(').next().unwrap_or("")), 1);
    }
    Ok(())
}
fn c16_random(c: &mut Ctx) -> Res {
    let mut g = random_graph(&mut c.r);
    if c.r.chance(1, 12) {
        let i = c.r.below(g.len());
        let x = g[i].clone();
        let at = c.r.below(g.len() + 1);
        g.insert(at, x);
    }
    c16_graph(c, &g)
}
fn c16_three(c: &mut Ctx) -> Res {
    enumerate(c, 3, 1, true, 10_000, |c, b| c16_graph(c, b))
}
pub static C16: &[Family] = &[
    fam("none", 8, 8, c16_none),
    fam("duplicate", 60_000, 2_000_000, c16_duplicate),
    fam("missing", 100_000, 5_000_000, c16_missing),
    fam("stray", 100_000, 5_000_000, c16_stray),
    fam("astray", 100_000, 5_000_000, c16_astray),
    fam("cycle", 60_000, 2_000_000, c16_cycle),
    fam("random", 200_000, 10_000_000, c16_random),
    fam("three", 40, 676, c16_three),
    fam("large", 1_600, 20_000, c16_large),
];
