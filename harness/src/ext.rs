//! Extended instruction sets supplied by the harness: they record every call they receive.
use crate::spec::{Arg, Args, ExtVal, Operand};
use magmaflow::glsl450;
use magmaflow::spv::op::OpExtInst;
use magmaflow::spv::raw::{read_module, Core, MemoryBlock, MemoryBlockResult, ReadError};
use magmaflow::spv::types::*;
use magmaflow::spv::{ExtInst, ExtInstBox, ExtInstSet, Op};
use std::any::Any;
use std::collections::HashSet;
use std::fmt;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Call {
    pub tag: u32,
    pub inst: u32,
    pub remaining: usize,
}
/// A set offered to the reader. tag 0: the library's own GLSL set; tag ≥ 1: a recording set.
#[derive(Clone, Debug)]
pub struct SetSpec {
    pub name: &'static str,
    pub tag: u32,
}
pub const GLSL: &str = "GLSL.std.450";
pub fn glsl() -> SetSpec {
    SetSpec { name: GLSL, tag: 0 }
}
pub fn intern(s: &str) -> &'static str {
    static T: OnceLock<Mutex<HashSet<&'static str>>> = OnceLock::new();
    let mut t = T.get_or_init(|| Mutex::new(HashSet::new())).lock().unwrap();
    if let Some(x) = t.get(s) {
        return x;
    }
    let x: &'static str = Box::leak(s.to_string().into_boxed_str());
    t.insert(x);
    x
}

pub type Log = Arc<Mutex<Vec<Call>>>;
pub fn new_log() -> Log {
    Arc::new(Mutex::new(Vec::new()))
}

struct TSet {
    name: &'static str,
    tag: u32,
    /// read every operand word whatever the number (used to build values)
    greedy: bool,
    log: Log,
}
#[derive(Clone, Debug, PartialEq)]
pub struct TInst {
    pub tag: u32,
    pub inst: u32,
    pub words: Vec<u32>,
}
impl fmt::Display for TInst {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "t{}.{}", self.tag, self.inst)?;
        for w in &self.words {
            write!(f, ":{}", w)?;
        }
        Ok(())
    }
}
impl Op for TInst {
    fn get_name(&self) -> &'static str {
        "TInst"
    }
}
impl ExtInst for TInst {
    fn get_op(&self) -> &dyn Op {
        self
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn eq(&self, other: &dyn ExtInst) -> bool {
        other.as_any().downcast_ref::<TInst>().map_or(false, |o| o == self)
    }
}

/// How many of n operand words instruction `inst` takes, or the error it answers with
fn behaviour(inst: u32, n: usize) -> Result<usize, usize> {
    match inst % 8 {
        0 => Ok(0),
        1 => Ok(1),
        2 => Ok(2),
        3 => Ok(n),
        4 => Err(0),
        5 => Err(1),
        6 => Ok(n.saturating_sub(1)),
        _ => Ok(3),
    }
}
/// An error that a set answers with is passed on whatever it is
fn own_error(inst: u32) -> ReadError {
    let n = inst / 8;
    match n % 16 {
        0 => ReadError::InvalidString,
        1 => ReadError::UnexpectedEndOfInstruction,
        2 => ReadError::InstructionHadExcessData,
        3 => ReadError::UnknownInstSetId(OpId(n)),
        4 => ReadError::UnknownInstSet("own".into()),
        5 => ReadError::DuplicateResultId(ResultId(n)),
        6 => ReadError::UnknownExtInstOp("own", n),
        7 => ReadError::UnknownCapability(n),
        8 => ReadError::UnexpectedEndOfStream,
        9 => ReadError::BadMagic,
        10 => ReadError::UnimplementedOp("own"),
        11 => ReadError::UnknownOp(n as u16, 7),
        12 => ReadError::WrongWordCountForOp,
        13 => ReadError::UnexpectedStreamAlignment,
        14 => ReadError::UnknownDecoration(n),
        _ => ReadError::UnknownFunctionControl(n),
    }
}
/// words an instruction number needs so that all of its operands are read
pub fn arity(inst: u32) -> Option<usize> {
    match inst % 8 {
        0 => Some(0),
        1 => Some(1),
        2 => Some(2),
        3 => None,
        6 => Some(0),
        7 => Some(3),
        _ => Some(0),
    }
}

impl ExtInstSet for TSet {
    fn get_name(&self) -> &'static str {
        self.name
    }
    fn read_instruction<'a, 'b>(&'b self, inst: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let n = block.remaining();
        self.log.lock().unwrap().push(Call { tag: self.tag, inst, remaining: n });
        let take = if self.greedy {
            n
        } else {
            match behaviour(inst, n) {
                Ok(k) => k,
                Err(0) => return Err(ReadError::UnknownExtInstOp(self.name, inst)),
                Err(_) => return Err(own_error(inst)),
            }
        };
        let mut words = Vec::new();
        let mut block = block;
        for _ in 0..take {
            let (b, w) = block.read_word()?;
            block = b;
            words.push(w);
        }
        Ok((block, Box::new(TInst { tag: self.tag, inst, words })))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(TSet { name: self.name, tag: self.tag, greedy: self.greedy, log: self.log.clone() })
    }
}
pub fn instantiate(sets: &[SetSpec], log: &Log) -> Vec<Box<dyn ExtInstSet>> {
    sets.iter()
        .map(|s| -> Box<dyn ExtInstSet> {
            if s.tag == 0 {
                Box::new(glsl450::InstSet)
            } else {
                Box::new(TSet { name: s.name, tag: s.tag, greedy: false, log: log.clone() })
            }
        })
        .collect()
}

pub fn model_read(s: &SetSpec, inst: u32, w: &[u32]) -> Result<(usize, ExtVal), String> {
    if s.tag == 0 {
        if inst != 13 && inst != 14 {
            return Err(format!("UnknownExtInstOp({:?}, {})", s.name, inst));
        }
        if w.is_empty() {
            return Err("UnexpectedEndOfInstruction".into());
        }
        return Ok((1, ExtVal { tag: 0, inst, words: vec![w[0]] }));
    }
    match behaviour(inst, w.len()) {
        Ok(k) if k > w.len() => Err("UnexpectedEndOfInstruction".into()),
        Ok(k) => Ok((k, ExtVal { tag: s.tag, inst, words: w[..k].to_vec() })),
        Err(0) => Err(format!("UnknownExtInstOp({:?}, {})", s.name, inst)),
        Err(_) => Err(format!("{:?}", own_error(inst))),
    }
}
pub fn model_text(x: &ExtVal) -> String {
    if x.tag == 0 {
        return format!("{} %{}", if x.inst == 13 { "Sin" } else { "Cos" }, x.words[0]);
    }
    TInst { tag: x.tag, inst: x.inst, words: x.words.clone() }.to_string()
}
pub fn model_name(x: &ExtVal) -> &'static str {
    match (x.tag, x.inst) {
        (0, 13) => "Sin",
        (0, 14) => "Cos",
        _ => "TInst",
    }
}
pub fn lift_ext(x: &dyn ExtInst) -> ExtVal {
    if let Some(t) = x.as_any().downcast_ref::<TInst>() {
        return ExtVal { tag: t.tag, inst: t.inst, words: t.words.clone() };
    }
    match x.as_any().downcast_ref::<glsl450::Inst>() {
        Some(glsl450::Inst::Sin(s)) => ExtVal { tag: 0, inst: 13, words: vec![s.x.0] },
        Some(glsl450::Inst::Cos(s)) => ExtVal { tag: 0, inst: 14, words: vec![s.x.0] },
        #[allow(unreachable_patterns)]
        _ => ExtVal { tag: u32::MAX, inst: u32::MAX, words: vec![] },
    }
}
/// The only public way to obtain an ExtInstBox is to read one
pub fn build_ext_inst(a: &mut Args) -> Core {
    let result_type = OpId::build(a);
    let result_id = ResultId::build(a);
    let set = OpId::build(a);
    let x = match a.next() {
        Arg::Ext(x) => x.clone(),
        _ => panic!("harness: expected extended instruction"),
    };
    let instruction: ExtInstBox = {
        let name = if x.tag == 0 { GLSL } else { "builder" };
        let mut w = vec![0x0723_0203, 0x0001_0000, 0, 4, 0];
        let mut imp = vec![0, 1];
        crate::spec::encode_str(name.as_bytes(), &mut imp);
        imp[0] = ((imp.len() as u32) << 16) | 11;
        w.extend(imp);
        w.push(((5 + x.words.len() as u32) << 16) | 12);
        w.extend([2, 3, 1, x.inst]);
        w.extend(&x.words);
        let sets: Vec<Box<dyn ExtInstSet>> = if x.tag == 0 {
            vec![Box::new(glsl450::InstSet)]
        } else {
            vec![Box::new(TSet { name: "builder", tag: x.tag, greedy: true, log: new_log() })]
        };
        let m = read_module(&crate::spec::to_bytes(&w, false), sets).expect("reading a minimal extended instruction");
        match m.instructions.into_iter().nth(1) {
            Some(Core::OpExtInst(o)) => o.instruction,
            o => panic!("a minimal extended instruction was read as {:?}", o),
        }
    };
    Core::OpExtInst(OpExtInst { result_type, result_id, set, instruction })
}
