//! Table-driven model of SPIR-V 1.0 modules: encoding, reference decoding, disassembly.
use crate::ext::{self, SetSpec};
use crate::spec_gen::*;
use magmaflow::spv::raw::{Core, RawModule};
use magmaflow::spv::types::*;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Res,
    Id,
    Num,
    Str,
    En(usize),
    Mask(usize),
    Opt(&'static Kind),
    Many(&'static Kind),
    Two(&'static Kind, &'static Kind),
    Ext,
}

pub struct EnumRow {
    pub num: u32,
    pub name: &'static str,
    pub params: &'static [Kind],
}
pub struct EnumDef {
    pub name: &'static str,
    pub open: bool,
    pub err: &'static str,
    pub rows: &'static [EnumRow],
}
pub struct MaskBit {
    pub bit: u32,
    pub name: &'static str,
    pub param: bool,
}
pub struct MaskDef {
    pub name: &'static str,
    pub err: &'static str,
    pub bits: &'static [MaskBit],
}
pub struct OpDef {
    /// opcode; negative: never produced by the reader
    pub num: i32,
    pub name: &'static str,
    pub kinds: &'static [Kind],
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    Capability,
    Extension,
    ExtInstImport,
    MemoryModel,
    EntryPoint,
    ExecutionMode,
    Debug,
    Annotation,
    Global,
    Variable,
    Function,
    FunctionParameter,
    FunctionEnd,
    Label,
    Code,
    Merge,
    Branch,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ExtVal {
    pub tag: u32,
    pub inst: u32,
    pub words: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Arg {
    Res(u32),
    Id(u32),
    Num(u32),
    Str(String),
    En(usize, u32, Vec<Arg>),
    Mask(usize, u32, Vec<Arg>),
    Ext(ExtVal),
}

/// A model instruction: index into OPS and its operands in encoding order
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Inst {
    pub op: usize,
    pub args: Vec<Arg>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Header {
    pub version: (u8, u8),
    pub tool: u16,
    pub tool_other: bool,
    pub tool_version: u16,
    pub bound: u32,
}
impl Header {
    pub fn words(&self) -> [u32; 5] {
        [
            0x0723_0203,
            ((self.version.0 as u32) << 16) | ((self.version.1 as u32) << 8),
            ((self.tool as u32) << 16) | self.tool_version as u32,
            self.bound,
            0,
        ]
    }
    pub fn from_gen(gen: u32, bound: u32) -> Header {
        Header {
            version: (1, 0),
            tool: (gen >> 16) as u16,
            tool_other: (gen >> 16) > 11,
            tool_version: gen as u16,
            bound,
        }
    }
}

pub const TOOLS: [&str; 12] = [
    "Khronos",
    "LunarG",
    "Valve",
    "Codeplay",
    "NVIDIA",
    "ARM",
    "Khronos LLVM/SPIR-V Translator",
    "Khronos SPIR-V Tools Assembler",
    "Khronos Glslang Reference Front End",
    "Qualcomm",
    "AMD",
    "Intel",
];

// ---------------------------------------------------------------- lifting / building

pub struct Args<'a> {
    v: &'a [Arg],
    i: usize,
}
impl<'a> Args<'a> {
    pub fn new(v: &'a [Arg]) -> Args<'a> {
        Args { v, i: 0 }
    }
    pub fn left(&self) -> usize {
        self.v.len() - self.i
    }
    pub fn next(&mut self) -> &'a Arg {
        let a = &self.v[self.i];
        self.i += 1;
        a
    }
    pub fn num(&mut self) -> u32 {
        match self.next() {
            Arg::Num(n) | Arg::Id(n) | Arg::Res(n) => *n,
            a => panic!("harness: expected number, got {:?}", a),
        }
    }
    pub fn en(&mut self) -> (u32, &'a [Arg]) {
        match self.next() {
            Arg::En(_, n, p) => (*n, p),
            a => panic!("harness: expected enumerant, got {:?}", a),
        }
    }
    pub fn mask(&mut self) -> (u32, &'a [Arg]) {
        match self.next() {
            Arg::Mask(_, n, p) => (*n, p),
            a => panic!("harness: expected mask, got {:?}", a),
        }
    }
}

pub trait Operand: Sized {
    fn lift(&self, out: &mut Vec<Arg>);
    fn build(a: &mut Args) -> Self;
}
macro_rules! word_operand {
    ($t:ty, $k:ident, $get:expr, $mk:expr) => {
        impl Operand for $t {
            fn lift(&self, out: &mut Vec<Arg>) {
                out.push(Arg::$k($get(self)))
            }
            fn build(a: &mut Args) -> Self {
                $mk(a.num())
            }
        }
    };
}
word_operand!(OpId, Id, |x: &OpId| x.0, OpId);
word_operand!(ResultId, Res, |x: &ResultId| x.0, ResultId);
word_operand!(u32, Num, |x: &u32| *x, |x| x);
word_operand!(MemberIndex, Num, |x: &MemberIndex| x.0, MemberIndex);
word_operand!(SourceVersion, Num, |x: &SourceVersion| x.0, SourceVersion);
word_operand!(Line, Num, |x: &Line| x.0, Line);
word_operand!(Column, Num, |x: &Column| x.0, Column);
impl Operand for String {
    fn lift(&self, out: &mut Vec<Arg>) {
        out.push(Arg::Str(self.clone()))
    }
    fn build(a: &mut Args) -> Self {
        match a.next() {
            Arg::Str(s) => s.clone(),
            a => panic!("harness: expected string, got {:?}", a),
        }
    }
}
impl<T: Operand> Operand for Option<T> {
    fn lift(&self, out: &mut Vec<Arg>) {
        if let Some(ref x) = *self {
            x.lift(out)
        }
    }
    fn build(a: &mut Args) -> Self {
        if a.left() > 0 {
            Some(T::build(a))
        } else {
            None
        }
    }
}
impl<T: Operand> Operand for Vec<T> {
    fn lift(&self, out: &mut Vec<Arg>) {
        for x in self {
            x.lift(out)
        }
    }
    fn build(a: &mut Args) -> Self {
        let mut v = Vec::new();
        while a.left() > 0 {
            v.push(T::build(a))
        }
        v
    }
}
impl Operand for PhiArg {
    fn lift(&self, out: &mut Vec<Arg>) {
        self.variable.lift(out);
        self.parent.lift(out);
    }
    fn build(a: &mut Args) -> Self {
        PhiArg { variable: OpId::build(a), parent: OpId::build(a) }
    }
}
impl Operand for BranchWeights {
    fn lift(&self, out: &mut Vec<Arg>) {
        self.true_weight.lift(out);
        self.false_weight.lift(out);
    }
    fn build(a: &mut Args) -> Self {
        BranchWeights { true_weight: u32::build(a), false_weight: u32::build(a) }
    }
}
impl Operand for magmaflow::spv::ExtInstBox {
    fn lift(&self, out: &mut Vec<Arg>) {
        out.push(Arg::Ext(ext::lift_ext(self.as_ref())))
    }
    fn build(_: &mut Args) -> Self {
        panic!("harness: ExtInstBox is built by ext::build_ext_inst")
    }
}
/// A flag that carries a literal (or, in a library without the literal, does not)
pub trait FlagField {
    fn get(&self, p: &mut Vec<Arg>) -> bool;
    fn make(set: bool, p: &mut Args) -> Self;
}
impl FlagField for bool {
    fn get(&self, _: &mut Vec<Arg>) -> bool {
        *self
    }
    fn make(set: bool, p: &mut Args) -> bool {
        if set {
            p.num();
        }
        set
    }
}
impl FlagField for Option<u32> {
    fn get(&self, p: &mut Vec<Arg>) -> bool {
        if let Some(k) = *self {
            p.push(Arg::Num(k));
        }
        self.is_some()
    }
    fn make(set: bool, p: &mut Args) -> Option<u32> {
        if set {
            Some(p.num())
        } else {
            None
        }
    }
}

pub fn lift_all(v: &[Core]) -> Vec<Inst> {
    v.iter().map(lift_core).collect()
}
pub fn build_all(v: &[Inst]) -> Vec<Core> {
    v.iter().map(build_core).collect()
}
pub fn lift_header(m: &RawModule) -> Header {
    let (tool, other) = match m.generator.tool {
        Tool::KhronosReserved => (0, false),
        Tool::LunarG => (1, false),
        Tool::Valve => (2, false),
        Tool::Codeplay => (3, false),
        Tool::Nvidia => (4, false),
        Tool::Arm => (5, false),
        Tool::KhronosLLvmTranslator => (6, false),
        Tool::KhronosAssembler => (7, false),
        Tool::KhronosGlslang => (8, false),
        Tool::Qualcomm => (9, false),
        Tool::Amd => (10, false),
        Tool::Intel => (11, false),
        Tool::Other(n) => (n, true),
    };
    Header {
        version: (m.version.0, m.version.1),
        tool,
        tool_other: other,
        tool_version: m.generator.version,
        bound: m.bound,
    }
}
pub fn build_tool(n: u16, other: bool) -> Tool {
    if other {
        return Tool::Other(n);
    }
    match n {
        0 => Tool::KhronosReserved,
        1 => Tool::LunarG,
        2 => Tool::Valve,
        3 => Tool::Codeplay,
        4 => Tool::Nvidia,
        5 => Tool::Arm,
        6 => Tool::KhronosLLvmTranslator,
        7 => Tool::KhronosAssembler,
        8 => Tool::KhronosGlslang,
        9 => Tool::Qualcomm,
        10 => Tool::Amd,
        11 => Tool::Intel,
        n => Tool::Other(n),
    }
}
pub fn build_module(h: &Header, v: &[Inst]) -> RawModule {
    RawModule {
        version: Version(h.version.0, h.version.1),
        generator: Generator { tool: build_tool(h.tool, h.tool_other), version: h.tool_version },
        bound: h.bound,
        instructions: build_all(v),
    }
}

// ---------------------------------------------------------------- encoding

pub fn encode_str(s: &[u8], out: &mut Vec<u32>) {
    let mut i = 0;
    loop {
        let mut w = 0u32;
        for k in 0..4 {
            if i + k < s.len() {
                w |= (s[i + k] as u32) << (8 * k);
            }
        }
        out.push(w);
        i += 4;
        if i > s.len() {
            return;
        }
    }
}
pub fn encode_args(args: &[Arg], out: &mut Vec<u32>) {
    for a in args {
        match a {
            Arg::Res(n) | Arg::Id(n) | Arg::Num(n) => out.push(*n),
            Arg::Str(s) => encode_str(s.as_bytes(), out),
            Arg::En(e, n, p) => {
                out.push(*n);
                if !ENUMS[*e].open {
                    encode_args(p, out)
                }
            }
            Arg::Mask(_, n, p) => {
                out.push(*n);
                encode_args(p, out)
            }
            Arg::Ext(x) => {
                out.push(x.inst);
                out.extend_from_slice(&x.words)
            }
        }
    }
}
/// Words of one instruction; None if it does not fit the 16-bit word count
pub fn encode_inst(i: &Inst) -> Option<Vec<u32>> {
    let mut w = vec![0];
    encode_args(&i.args, &mut w);
    if w.len() > 0xFFFF {
        return None;
    }
    w[0] = ((w.len() as u32) << 16) | (OPS[i.op].num.unsigned_abs());
    Some(w)
}
pub fn encode_module(h: &Header, v: &[Inst]) -> Vec<u32> {
    let mut w = h.words().to_vec();
    for i in v {
        w.extend(encode_inst(i).expect("harness: instruction too long"));
    }
    w
}
pub fn to_bytes(w: &[u32], be: bool) -> Vec<u8> {
    let mut b = Vec::with_capacity(w.len() * 4);
    for x in w {
        if be {
            b.extend_from_slice(&x.to_be_bytes())
        } else {
            b.extend_from_slice(&x.to_le_bytes())
        }
    }
    b
}

// ---------------------------------------------------------------- reference decoding

/// What a conforming reader may answer for a byte string
#[derive(Debug, Default)]
pub struct Expect {
    pub header: Option<Header>,
    /// Some: reading may succeed with exactly these instructions
    pub ok: Option<Vec<Inst>>,
    /// faults present (as the Debug text of the error); empty: reading must succeed
    pub errs: Vec<String>,
    /// calls caller-supplied sets receive, in order, up to the first fault
    pub calls: Vec<ext::Call>,
}
impl Expect {
    pub fn must_accept(&self) -> bool {
        self.ok.is_some() && self.errs.is_empty()
    }
    pub fn must_reject(&self) -> bool {
        self.ok.is_none()
    }
}

struct Dec<'a> {
    w: &'a [u32],
    i: usize,
    errs: Vec<String>,
    /// faults whose report is optional
    soft: Vec<String>,
    unknown: bool,
    short: bool,
}
impl<'a> Dec<'a> {
    fn word(&mut self) -> Option<u32> {
        if self.i < self.w.len() {
            self.i += 1;
            Some(self.w[self.i - 1])
        } else {
            if !self.short && !self.unknown {
                self.errs.push("UnexpectedEndOfInstruction".into());
            }
            self.short = true;
            None
        }
    }
    fn kind(&mut self, k: &Kind, out: &mut Vec<Arg>) -> Option<()> {
        match *k {
            Kind::Res => out.push(Arg::Res(self.word()?)),
            Kind::Id => out.push(Arg::Id(self.word()?)),
            Kind::Num => out.push(Arg::Num(self.word()?)),
            Kind::Str => {
                let mut b = Vec::new();
                'o: loop {
                    let w = match self.word() {
                        Some(w) => w,
                        None => {
                            if !self.unknown {
                                self.errs.push("InvalidString".into());
                            }
                            return None;
                        }
                    };
                    for j in 0..4 {
                        let c = (w >> (8 * j)) as u8;
                        if c == 0 {
                            if j < 3 && w >> (8 * j) != 0 {
                                self.soft.push("InvalidString".into());
                            }
                            break 'o;
                        }
                        b.push(c);
                    }
                }
                match String::from_utf8(b) {
                    Ok(s) => out.push(Arg::Str(s)),
                    Err(_) => {
                        self.errs.push("InvalidString".into());
                        out.push(Arg::Str(String::new()));
                    }
                }
            }
            Kind::En(e) => {
                let n = self.word()?;
                let d = &ENUMS[e];
                match d.rows.iter().find(|r| r.num == n) {
                    Some(r) => {
                        let mut p = Vec::new();
                        for k in r.params {
                            self.kind(k, &mut p)?;
                        }
                        out.push(Arg::En(e, n, p));
                    }
                    None if d.open => out.push(Arg::En(e, n, vec![Arg::Num(n)])),
                    None => {
                        self.errs.push(format!("{}({})", d.err, n));
                        self.unknown = true;
                        out.push(Arg::En(e, n, vec![]));
                    }
                }
            }
            Kind::Mask(m) => {
                let n = self.word()?;
                let d = &MASKS[m];
                let known = d.bits.iter().fold(0, |a, b| a | b.bit);
                if n & !known != 0 {
                    self.errs.push(format!("{}({})", d.err, n));
                    self.unknown = true;
                }
                let mut p = Vec::new();
                for b in d.bits {
                    if n & b.bit != 0 && b.param {
                        self.kind(&Kind::Num, &mut p)?;
                    }
                }
                out.push(Arg::Mask(m, n, p));
            }
            Kind::Opt(k) => {
                if self.i < self.w.len() {
                    self.kind(k, out)?;
                }
            }
            Kind::Many(k) => {
                while self.i < self.w.len() {
                    self.kind(k, out)?;
                }
            }
            Kind::Two(a, b) => {
                self.kind(a, out)?;
                self.kind(b, out)?;
            }
            Kind::Ext => unreachable!(),
        }
        Some(())
    }
}

/// What decoding operands of the given kinds from the front of w must give: faults, optional faults, operands, words used
pub fn decode_front(w: &[u32], kinds: &[Kind]) -> (Vec<String>, Vec<String>, Vec<Arg>, usize) {
    let mut d = Dec { w, i: 0, errs: vec![], soft: vec![], unknown: false, short: false };
    let mut out = vec![];
    for k in kinds {
        if d.kind(k, &mut out).is_none() {
            break;
        }
    }
    (d.errs, d.soft, out, d.i)
}

pub fn op_index(num: u16) -> Option<usize> {
    thread_local!(static T: Vec<Option<usize>> = {
        let mut t = vec![None; 65536];
        for (i, o) in OPS.iter().enumerate().take(N_CORE) {
            if o.num >= 0 { t[o.num as usize] = Some(i) }
        }
        t
    });
    T.with(|t| t[num as usize])
}
pub fn unimplemented_name(num: u16) -> Option<&'static str> {
    UNIMPLEMENTED.iter().find(|x| x.0 == num).map(|x| x.1)
}

const MAX_FAULTS: usize = 24;

pub fn reference_read(data: &[u8], sets: &[SetSpec]) -> Expect {
    let mut x = Expect::default();
    let misaligned = data.len() % 4 != 0;
    if data.len() < 4 {
        x.errs.push(if data.is_empty() { "UnexpectedEndOfStream" } else { "UnexpectedStreamAlignment" }.into());
        if misaligned {
            x.errs.push("UnexpectedEndOfStream".into());
        }
        return x;
    }
    let be = match data[0..4] {
        [3, 2, 0x23, 7] => false,
        [7, 0x23, 2, 3] => true,
        _ => {
            x.errs.push("BadMagic".into());
            return x;
        }
    };
    let words: Vec<u32> = data
        .chunks_exact(4)
        .map(|c| {
            let c = [c[0], c[1], c[2], c[3]];
            if be {
                u32::from_be_bytes(c)
            } else {
                u32::from_le_bytes(c)
            }
        })
        .collect();
    let mut errs: Vec<String> = Vec::new();
    if words.len() > 1 && words[1] != 0x0001_0000 {
        let v = words[1].to_be_bytes();
        errs.push(format!("UnknownVersionBytes({}, {}, {}, {})", v[0], v[1], v[2], v[3]));
        if v[0] == 0 && v[3] == 0 {
            errs.push(format!("UnknownVersion(Version({}, {}))", v[1], v[2]));
        }
    }
    if words.len() > 4 && words[4] != 0 {
        errs.push("UnknownReservedSchema".into());
    }
    if words.len() < 5 {
        errs.push("UnexpectedEndOfStream".into());
        if misaligned {
            errs.push("UnexpectedStreamAlignment".into());
        }
        x.errs = errs;
        return x;
    }
    x.header = Some(Header::from_gen(words[2], words[3]));
    let mut soft: Vec<String> = Vec::new();
    let mut insts = Vec::new();
    let mut bound: Vec<(u32, usize)> = Vec::new();
    let mut pos = 5;
    let mut walked = true;
    while pos < words.len() {
        if errs.len() > MAX_FAULTS {
            walked = false;
            break;
        }
        let head = words[pos];
        let (num, wc) = (head as u16, (head >> 16) as u16);
        let wc_ = wc as usize;
        let idx = op_index(num);
        if idx.is_none() {
            if let Some(n) = unimplemented_name(num) {
                errs.push(format!("UnimplementedOp({:?})", n));
            } else {
                errs.push(format!("UnknownOp({}, {})", num, wc));
                if let Some(n) = LATER.iter().find(|l| l.0 == num) {
                    errs.push(format!("UnimplementedOp({:?})", n.1));
                }
            }
        }
        if wc_ == 0 {
            errs.push("WrongWordCountForOp".into());
            walked = false;
            break;
        }
        if pos + wc_ > words.len() {
            errs.push("UnexpectedEndOfStream".into());
            if misaligned {
                errs.push("UnexpectedStreamAlignment".into());
            }
            walked = false;
            break;
        }
        let body = &words[pos + 1..pos + wc_];
        pos += wc_;
        let op = match idx {
            Some(i) => i,
            None => continue,
        };
        let clean = errs.is_empty();
        let mut d = Dec { w: body, i: 0, errs: vec![], soft: vec![], unknown: false, short: false };
        let mut args = Vec::new();
        let mut ok = true;
        for k in OPS[op].kinds {
            if *k == Kind::Ext {
                // operands so far: type, result, set
                let set = match args[2] {
                    Arg::Id(n) => n,
                    _ => unreachable!(),
                };
                let inst = match d.word() {
                    Some(n) => n,
                    None => {
                        ok = false;
                        break;
                    }
                };
                match bound.iter().find(|b| b.0 == set) {
                    None => {
                        d.errs.push(format!("UnknownInstSetId(OpId({}))", set));
                        d.unknown = true;
                        ok = false;
                    }
                    Some(b) => {
                        let s = &sets[b.1];
                        if clean {
                            x.calls.push(ext::Call { tag: s.tag, inst, remaining: d.w.len() - d.i });
                        }
                        match ext::model_read(s, inst, &d.w[d.i..]) {
                            Ok((n, v)) => {
                                d.i += n;
                                args.push(Arg::Ext(v));
                            }
                            Err(e) => {
                                d.errs.push(e);
                                d.unknown = true;
                                ok = false;
                            }
                        }
                    }
                }
                if !ok {
                    break;
                }
                continue;
            }
            if d.kind(k, &mut args).is_none() {
                ok = false;
                break;
            }
        }
        if ok && OPS[op].name == "OpExtInstImport" {
            if let (Arg::Res(id), Arg::Str(name)) = (&args[0], &args[1]) {
                if d.errs.is_empty() {
                    match sets.iter().position(|s| s.name == *name) {
                        None => {
                            d.errs.push(format!("UnknownInstSet({:?})", name));
                            if bound.iter().any(|b| b.0 == *id) {
                                d.errs.push(format!("DuplicateResultId(ResultId({}))", id));
                            }
                        }
                        Some(p) => {
                            if bound.iter().any(|b| b.0 == *id) {
                                d.errs.push(format!("DuplicateResultId(ResultId({}))", id));
                            } else {
                                bound.push((*id, p));
                            }
                        }
                    }
                }
            }
        }
        if ok && !d.unknown && d.i < d.w.len() {
            d.errs.push("InstructionHadExcessData".into());
        }
        if OPS[op].name == "OpConstant" && body.len() == 2 {
            d.soft.push("UnexpectedEndOfInstruction".into());
            d.soft.push("WrongWordCountForOp".into());
        }
        soft.extend(d.soft);
        if ok && d.errs.is_empty() {
            insts.push(Inst { op, args });
        }
        errs.extend(d.errs);
    }
    if misaligned && walked {
        errs.push("UnexpectedStreamAlignment".into());
    } else if misaligned {
        // the walk stopped early: the length fault is present all the same
        errs.push("UnexpectedStreamAlignment".into());
    }
    if errs.is_empty() {
        x.ok = Some(insts);
        x.errs = soft;
    } else {
        errs.extend(soft);
        x.errs = errs;
    }
    x
}

/// Opcodes of SPIR-V 1.0 that the library defines but does not decode and reports as unknown;
/// reporting them as unimplemented is as good.
const LATER: &[(u16, &str)] = &[
    (34, "OpTypeEvent"),
    (35, "OpTypeDeviceEvent"),
    (36, "OpTypeReserveId"),
    (37, "OpTypeQueue"),
    (38, "OpTypePipe"),
    (39, "OpTypeForwardPointer"),
    (73, "OpDecorationGroup"),
    (74, "OpGroupDecorate"),
    (75, "OpGroupMemberDecorate"),
];

// ---------------------------------------------------------------- disassembly

pub fn dis_arg(a: &Arg, s: &mut String) {
    match a {
        Arg::Res(n) | Arg::Id(n) => write!(s, "%{}", n).unwrap(),
        Arg::Num(n) => write!(s, "{}", n).unwrap(),
        Arg::Str(t) => {
            s.push('"');
            s.push_str(t);
            s.push('"');
        }
        Arg::En(e, n, p) => {
            let d = &ENUMS[*e];
            if d.open && !p.is_empty() {
                write!(s, "Unknown({})", n).unwrap();
                return;
            }
            s.push_str(d.rows.iter().find(|r| r.num == *n).expect("harness: enumerant").name);
            for a in p {
                s.push(' ');
                dis_arg(a, s);
            }
        }
        Arg::Mask(m, n, p) => dis_mask(*m, *n, p, s),
        Arg::Ext(x) => s.push_str(&ext::model_text(x)),
    }
}
pub fn dis_mask(m: usize, n: u32, p: &[Arg], s: &mut String) {
    let mut parts = Vec::new();
    let mut k = 0;
    for b in MASKS[m].bits {
        if n & b.bit != 0 {
            if b.param {
                if let Arg::Num(v) = p[k] {
                    parts.push(format!("{}({})", b.name, v));
                }
                k += 1;
            } else {
                parts.push(b.name.to_string());
            }
        }
    }
    if parts.is_empty() {
        s.push_str("None");
    } else {
        s.push_str(&parts.join(" | "));
    }
}
pub fn dis_inst(i: &Inst) -> String {
    let mut s = String::new();
    match i.args.iter().find_map(|a| if let Arg::Res(n) = a { Some(*n) } else { None }) {
        Some(n) => {
            let t = format!("%{}", n);
            for _ in t.len()..12 {
                s.push(' ');
            }
            s.push_str(&t);
            s.push_str(" = ");
        }
        None => s.push_str("               "),
    }
    s.push_str(OPS[i.op].name);
    for a in &i.args {
        if let Arg::Res(_) = a {
            continue;
        }
        s.push(' ');
        dis_arg(a, &mut s);
    }
    s
}
pub fn dis_header(h: &Header) -> String {
    let name = if h.tool_other || h.tool as usize >= TOOLS.len() { "Unknown" } else { TOOLS[h.tool as usize] };
    format!(
        "; SPIR-V\n; Version: {}.{}\n; Generator: {}; {}\n; Bound: {}\n; Schema: 0\n",
        h.version.0, h.version.1, name, h.tool_version, h.bound
    )
}
pub fn dis_module(h: &Header, v: &[Inst]) -> String {
    let mut s = dis_header(h);
    for i in v {
        s.push_str(&dis_inst(i));
        s.push('\n');
    }
    s
}

/// Phrase the message of each kind of read error has to contain
pub const MESSAGES: &[(&str, &str)] = &[
    ("UnexpectedEndOfStream", "unexpected end of stream"),
    ("UnexpectedStreamAlignment", "not word aligned"),
    ("BadMagic", "invalid magic number"),
    ("UnknownVersionBytes", "unknown version bytes"),
    ("UnknownVersion", "unknown version"),
    ("UnknownReservedSchema", "unknown reserved schema"),
    ("UnknownOp", "unknown op"),
    ("UnimplementedOp", "unimplemented op"),
    ("WrongWordCountForOp", "invalid word count"),
    ("InvalidString", "invalid string literal"),
    ("UnexpectedEndOfInstruction", "enough data"),
    ("InstructionHadExcessData", "require all data"),
    ("UnknownInstSet", "unknown instruction set"),
    ("UnknownInstSetId", "extended instruction referenced unknown instruction set"),
    ("UnknownExtInstOp", "unknown op in extended instruction set"),
    ("DuplicateResultId", "duplicate result id"),
    ("UnknownAddressingModel", "unknown addressing model"),
    ("UnknownMemoryModel", "unknown memory model"),
    ("UnknownExecutionModel", "unknown execution model"),
    ("UnknownExecutionMode", "unknown execution mode"),
    ("UnknownCapability", "unknown capability"),
    ("UnknownDecoration", "unknown decoration"),
    ("UnknownBuiltIn", "unknown built in"),
    ("UnknownFpRoundingMode", "unknown fp rounding mode"),
    ("UnknownFpFastMathMode", "unknown fp fast math mode"),
    ("UnknownLinkageType", "unknown linkage type"),
    ("UnknownSignedness", "unknown signedness"),
    ("UnknownStorageClass", "unknown storage class"),
    ("UnknownFunctionParameterAttribute", "unknown function parameter attribute"),
    ("UnknownMemoryAccess", "unknown memory access"),
    ("UnknownDim", "unknown image dimension"),
    ("UnknownDepthStatus", "unknown image depth hint"),
    ("UnknownArrayed", "unknown image arrayed status"),
    ("UnknownMS", "unknown multisampled status"),
    ("UnknownSampledStatus", "unknown sampled hint"),
    ("UnknownImageFormat", "unknown image format"),
    ("UnknownAccessQualifier", "unknown access qualifier"),
    ("UnknownLoopControl", "unknown loop control"),
    ("UnknownSelectionControl", "unknown selection control"),
    ("UnknownFunctionControl", "unknown function control"),
];
/// Equality both ways round; and a copy over another value is that value (if not, the answer is the wrong one)
pub fn pair<T: Clone + PartialEq>(x: T, y: T) -> (bool, bool) {
    let e = (x == y, y == x);
    let mut z = y.clone();
    z.clone_from(&x);
    let mut v = vec![y.clone(), y];
    v.clone_from(&vec![x.clone()]);
    if z != x || v.len() != 1 || v[0] != x {
        return (!e.0, !e.1);
    }
    e
}
