//! C17: the operand readers that the library offers to instruction sets of its callers.
use crate::ext::{intern, TInst};
use crate::frame::*;
use crate::gen;
use crate::read::{kind_of, values};
use crate::rng::hash_bytes;
use crate::spec::*;
use crate::spec_gen::*;
use magmaflow::spv::raw::{read_module, Core, MemoryBlock, MemoryBlockRead, MemoryBlockResult, ReadError};
use magmaflow::spv::types::*;
use magmaflow::spv::{ExtInst, ExtInstSet};
use std::sync::{Arc, Mutex, OnceLock};

pub type ReadFn = for<'a> fn(MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<Arg>>;
pub struct Reader {
    pub name: String,
    pub kinds: Vec<Kind>,
    pub read: ReadFn,
}
fn rd<'a, T: MemoryBlockRead + Operand>(b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<Arg>> {
    let (b, x) = T::read(b)?;
    let mut v = vec![];
    x.lift(&mut v);
    Ok((b, v))
}
fn leak(k: Kind) -> &'static Kind {
    Box::leak(Box::new(k))
}
pub fn readers() -> &'static [Reader] {
    static R: OnceLock<Vec<Reader>> = OnceLock::new();
    R.get_or_init(|| {
        let mut v: Vec<Reader> = vec![];
        v.push(Reader {
            name: "read_word".into(),
            kinds: vec![Kind::Num],
            read: |b| {
                let (b, w) = b.read_word()?;
                Ok((b, vec![Arg::Num(w)]))
            },
        });
        v.push(Reader {
            name: "read_op_id".into(),
            kinds: vec![Kind::Id],
            read: |b| {
                let (b, w) = b.read_op_id()?;
                Ok((b, vec![Arg::Id(w.0)]))
            },
        });
        macro_rules! ty {
            ($t:ty, $k:expr) => {{
                let k: Kind = $k;
                let n = stringify!($t).replace(' ', "");
                v.push(Reader { name: n.clone(), kinds: vec![k], read: rd::<$t> });
                v.push(Reader { name: format!("Option<{}>", n), kinds: vec![Kind::Opt(leak(k))], read: rd::<Option<$t>> });
                v.push(Reader { name: format!("Vec<{}>", n), kinds: vec![Kind::Many(leak(k))], read: rd::<Vec<$t>> });
                v.push(Reader { name: format!("Vec<Option<{}>>", n), kinds: vec![Kind::Many(leak(k))], read: rd::<Vec<Option<$t>>> });
                v.push(Reader { name: format!("Option<Vec<{}>>", n), kinds: vec![Kind::Many(leak(k))], read: rd::<Option<Vec<$t>>> });
                v.push(Reader { name: format!("Vec<Vec<{}>>", n), kinds: vec![Kind::Many(leak(k))], read: rd::<Vec<Vec<$t>>> });
                v.push(Reader { name: format!("Option<Option<{}>>", n), kinds: vec![Kind::Opt(leak(k))], read: rd::<Option<Option<$t>>> });
            }};
        }
        let en = |n: &str| Kind::En(ENUMS.iter().position(|e| e.name == n).unwrap_or_else(|| panic!("harness: no enum {}", n)));
        let ma = |n: &str| Kind::Mask(MASKS.iter().position(|e| e.name == n).unwrap_or_else(|| panic!("harness: no mask {}", n)));
        ty!(u32, Kind::Num);
        ty!(OpId, Kind::Id);
        ty!(ResultId, Kind::Res);
        ty!(String, Kind::Str);
        ty!(SourceVersion, Kind::Num);
        ty!(MemberIndex, Kind::Num);
        ty!(PhiArg, Kind::Two(&Kind::Id, &Kind::Id));
        ty!(BranchWeights, Kind::Two(&Kind::Num, &Kind::Num));
        macro_rules! enums {
            ($($t:ident)*) => { $( ty!($t, en(stringify!($t))); )* };
        }
        macro_rules! masks {
            ($($t:ident)*) => { $( ty!($t, ma(stringify!($t))); )* };
        }
        enums!(SourceLanguage AddressingModel MemoryModel ExecutionModel ExecutionMode Capability Signedness Dim DepthStatus Arrayed MS
            SampledStatus ImageFormat AccessQualifier StorageClass BuiltIn FunctionParameterAttribute FpRoundingMode LinkageType Decoration);
        masks!(FunctionControl MemoryAccess FpFastMathMode LoopControl SelectionControl);
        for (op, f) in OP_READERS {
            v.push(Reader { name: OPS[*op].name.into(), kinds: OPS[*op].kinds.to_vec(), read: *f });
        }
        v
    })
}

#[derive(Clone, Debug, PartialEq)]
struct Step {
    before: usize,
    end: bool,
    /// operands and words left, or the error
    out: Result<(Vec<Arg>, usize, bool), String>,
}
/// A set whose instructions read their operands by a script of reader calls
struct Script {
    name: &'static str,
    steps: Arc<Vec<usize>>,
    /// answer with this error instead of the reader's own
    own: Option<&'static str>,
    log: Arc<Mutex<Vec<Step>>>,
}
impl ExtInstSet for Script {
    fn get_name(&self) -> &'static str {
        self.name
    }
    fn read_instruction<'a, 'b>(&'b self, inst: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let mut block = block;
        for s in self.steps.iter() {
            let (before, end) = (block.remaining(), block.end());
            match (readers()[*s].read)(block) {
                Ok((b, v)) => {
                    self.log.lock().unwrap().push(Step { before, end, out: Ok((v, b.remaining(), b.end())) });
                    block = b;
                }
                Err(e) => {
                    self.log.lock().unwrap().push(Step { before, end, out: Err(format!("{:?}", e)) });
                    return Err(match self.own {
                        Some(n) => ReadError::UnknownExtInstOp(n, inst),
                        None => e,
                    });
                }
            }
        }
        Ok((block, Box::new(TInst { tag: 77, inst, words: vec![] })))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(Script { name: self.name, steps: self.steps.clone(), own: self.own, log: self.log.clone() })
    }
}

fn check(c: &mut Ctx, steps: &[usize], ops: &[u32]) -> Res {
    if ops.len() > 65_000 {
        return Ok(());
    }
    let be = c.r.chance(1, 4);
    let own = if c.r.chance(1, 8) { Some(intern("own")) } else { None };
    let num = gen::num(&mut c.r);
    let set = gen::id(&mut c.r);
    let mut w = gen::header(&mut c.r).words().to_vec();
    let mut imp = vec![0, set];
    encode_str(b"script", &mut imp);
    imp[0] = (imp.len() as u32) << 16 | 11;
    w.extend(imp);
    w.push((5 + ops.len() as u32) << 16 | 12);
    w.extend([gen::id(&mut c.r), gen::id(&mut c.r), set, num]);
    w.extend(ops);
    w.extend([0x0001_00fd]);
    let bytes = to_bytes(&w, be);
    let log = Arc::new(Mutex::new(vec![]));
    let sets: Vec<Box<dyn ExtInstSet>> = vec![Box::new(Script { name: "script", steps: Arc::new(steps.to_vec()), own, log: log.clone() })];
    c.eval();
    c.seen(hash_bytes(format!("{:?}{:?}", steps, ops).as_bytes()));
    let dump = || format!("readers [{}] on operand words {:x?}", steps.iter().map(|s| readers()[*s].name.as_str()).collect::<Vec<_>>().join(", "), &ops[..ops.len().min(60)]);
    let res = catch(|| read_module(&bytes, sets)).map_err(|e| format!("{}: {}", e, dump()))?;
    let log = log.lock().unwrap().clone();
    // judge every call
    let mut at = 0;
    let mut failed: Option<String> = None;
    for (n, s) in steps.iter().enumerate() {
        let st = match log.get(n) {
            Some(s) => s,
            None => return Err(format!("the set was called for {} of {} operands; {}", log.len(), steps.len(), dump())),
        };
        let left = ops.len() - at;
        if st.before != left || st.end != (left == 0) {
            return Err(format!("before operand {}: {} words remain (end: {}), reported as {} (end: {}); {}", n, left, left == 0, st.before, st.end, dump()));
        }
        let (errs, soft, args, used) = decode_front(&ops[at..], &readers()[*s].kinds);
        match &st.out {
            Ok((v, rest, end)) => {
                c.count("operands decoded", 1);
                if !errs.is_empty() {
                    return Err(format!("operand {} accepted as {:?} although {:?}; {}", n, v, errs, dump()));
                }
                if *v != args {
                    return Err(format!("operand {} decoded as {:?}, encoded {:?}; {}", n, v, args, dump()));
                }
                at += used;
                let left = ops.len() - at;
                if *rest != left || *end != (left == 0) {
                    return Err(format!("after operand {}: {} words remain, reported {} (end: {}); {}", n, left, rest, end, dump()));
                }
            }
            Err(e) => {
                c.count(&format!("refused as {}", kind_of(e)), 1);
                if !errs.contains(e) && !soft.contains(e) {
                    return Err(format!("operand {} refused with {}, expected {:?}; {}", n, e, if errs.is_empty() { vec![format!("{:?}", args)] } else { errs }, dump()));
                }
                failed = Some(match own {
                    Some(o) => format!("UnknownExtInstOp({:?}, {})", o, num),
                    None => e.clone(),
                });
                if log.len() != n + 1 {
                    return Err(format!("the set was called again after it had failed; {}", dump()));
                }
                break;
            }
        }
    }
    if failed.is_none() && at < ops.len() {
        failed = Some("InstructionHadExcessData".into());
    }
    match (res, failed) {
        (Ok(m), None) => {
            let ok = m.instructions.len() == 3
                && match &m.instructions[1] {
                    Core::OpExtInst(o) => o.instruction.as_ref().as_any().downcast_ref::<TInst>().map_or(false, |t| t.tag == 77 && t.inst == num),
                    _ => false,
                };
            if !ok {
                return Err(format!("the module does not hold the set's instruction: {:?}; {}", m.instructions, dump()));
            }
            c.sample(4, dump);
        }
        (Err(e), Some(f)) if format!("{:?}", e) == f => {}
        (r, f) => return Err(format!("reading gave {:?}, expected {:?}; {}", r.map(|m| m.instructions.len()), f, dump())),
    }
    Ok(())
}

fn encode_for(c: &mut Ctx, steps: &[usize], max: usize) -> Vec<u32> {
    let mut args = vec![];
    'o: for s in steps {
        for k in &readers()[*s].kinds {
            if !gen::arg(&mut c.r, k, &mut args, max) {
                break 'o;
            }
        }
    }
    let mut w = vec![];
    encode_args(&args, &mut w);
    w
}
/// Every reader on: nothing, every boundary word, every enumerant, valid operands, and damaged ones
fn c17_each(c: &mut Ctx) -> Res {
    let i = c.idx as usize % readers().len();
    let s = [i];
    if c.idx < readers().len() as u64 {
        check(c, &s, &[])?;
        for v in values() {
            check(c, &s, &[v])?;
            let p: Vec<u32> = (0..3).map(|_| gen::num(&mut c.r)).collect();
            check(c, &s, &[v, p[0], p[1], p[2]])?;
        }
        for v in 0..128 {
            for n in 0..5 {
                let mut w = vec![v];
                w.extend((0..n).map(|_| gen::num(&mut c.r)));
                check(c, &s, &w)?;
            }
        }
    }
    for _ in 0..30 {
        let w = encode_for(c, &s, 20);
        damaged(c, &s, w)?;
    }
    Ok(())
}
fn damaged(c: &mut Ctx, s: &[usize], w: Vec<u32>) -> Res {
    check(c, s, &w)?;
    let mut x = w.clone();
    x.push(gen::num(&mut c.r));
    check(c, s, &x)?;
    if !w.is_empty() {
        check(c, s, &w[..w.len() - 1])?;
        let n = c.r.below(w.len());
        check(c, s, &w[..n])?;
        let mut x = w.clone();
        x[n] = if c.r.chance(1, 2) { x[n] ^ (1 << c.r.below(32)) } else { gen::num(&mut c.r) };
        check(c, s, &x)?;
    }
    Ok(())
}
/// Scripts of several readers, as an instruction set with many operands would use them
fn c17_scripts(c: &mut Ctx) -> Res {
    for _ in 0..10 {
        let n = c.r.range(0, 8);
        let s: Vec<usize> = (0..n).map(|_| c.r.below(readers().len())).collect();
        let w = encode_for(c, &s, 6);
        damaged(c, &s, w)?;
    }
    Ok(())
}
/// Long lists of every element type
fn c17_lists(c: &mut Ctx) -> Res {
    let many: Vec<usize> = (0..readers().len()).filter(|i| readers()[*i].kinds.iter().any(|k| matches!(k, Kind::Many(_)))).collect();
    let s = many[c.idx as usize % many.len()];
    let n = *c.r.pick(&[1usize, 2, 3, 5, 16, 17, 33, 64, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 10000]);
    let mut args = vec![];
    for k in &readers()[s].kinds {
        match k {
            Kind::Many(e) => {
                for _ in 0..n {
                    gen::arg(&mut c.r, e, &mut args, 4);
                }
            }
            k => {
                gen::arg(&mut c.r, k, &mut args, 4);
            }
        }
    }
    let mut w = vec![];
    encode_args(&args, &mut w);
    w.truncate(60_000);
    c.count("long lists", 1);
    check(c, &[s], &w)
}

/// Operand types of the caller's own, of any size in memory and in words, read alone, as options and in lists
trait Own: MemoryBlockRead {
    const WORDS: usize;
    fn key(&self) -> Option<u64>;
    fn model(w: &[u32]) -> Result<Option<u64>, String>;
}
thread_local!(static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) });
struct Unit;
struct Half(u16);
struct Byte(u8);
struct Wide([u64; 40]);
struct Long(u32);
struct Boxed(Box<(u32, u32)>);
struct Picky(u32);
struct Counted(u32);
impl Drop for Counted {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
macro_rules! own {
    ($t:ident, $n:expr, |$w:ident| $make:expr, |$s:ident| $key:expr, |$m:ident| $model:expr) => {
        impl MemoryBlockRead for $t {
            fn read(mut block: MemoryBlock) -> MemoryBlockResult<Self> {
                let mut $w = [0u32; $n];
                for x in $w.iter_mut() {
                    let (b, v) = block.read_word()?;
                    block = b;
                    *x = v;
                }
                let made: Result<$t, ReadError> = $make;
                Ok((block, made?))
            }
        }
        impl Own for $t {
            const WORDS: usize = $n;
            fn key(&self) -> Option<u64> {
                let $s = self;
                $key
            }
            fn model($m: &[u32]) -> Result<Option<u64>, String> {
                $model
            }
        }
    };
}
own!(Unit, 1, |_w| Ok(Unit), |_s| None, |_m| Ok(None));
own!(Half, 1, |w| Ok(Half(w[0] as u16)), |s| Some(s.0 as u64), |m| Ok(Some(m[0] as u64 & 0xFFFF)));
own!(Byte, 2, |w| Ok(Byte((w[0] ^ w[1]) as u8)), |s| Some(s.0 as u64), |m| Ok(Some((m[0] ^ m[1]) as u64 & 0xFF)));
own!(Wide, 1, |w| Ok(Wide([w[0] as u64; 40])), |s| Some(s.0.iter().fold(0u64, |a, b| a ^ b.rotate_left(1)) ^ s.0[39]), |m| Ok(Some(m[0] as u64)));
own!(Long, 5, |w| Ok(Long(w.iter().fold(7u32, |a, b| a.wrapping_mul(31).wrapping_add(*b)))), |s| Some(s.0 as u64), |m| Ok(Some(m.iter().fold(7u32, |a, b| a.wrapping_mul(31).wrapping_add(*b)) as u64)));
own!(Boxed, 2, |w| Ok(Boxed(Box::new((w[0], w[1])))), |s| Some((s.0 .0 as u64) << 32 | s.0 .1 as u64), |m| Ok(Some((m[0] as u64) << 32 | m[1] as u64)));
own!(Picky, 1, |w| if w[0] % 7 == 3 { Err(ReadError::UnknownSignedness(w[0])) } else { Ok(Picky(w[0])) }, |s| Some(s.0 as u64), |m| if m[0] % 7 == 3 {
    Err(format!("UnknownSignedness({})", m[0]))
} else {
    Ok(Some(m[0] as u64))
});
own!(Counted, 2, |w| {
    LIVE.with(|l| l.set(l.get() + 1));
    let made = Counted(w[0] ^ w[1]);
    if w[1] % 11 == 5 { Err(ReadError::InvalidString) } else { Ok(made) }
}, |s| Some(s.0 as u64), |m| if m[1] % 11 == 5 { Err("InvalidString".into()) } else { Ok(Some((m[0] ^ m[1]) as u64)) });

/// What a reader gave: the items in order, the words left
type Got = Result<(Vec<Option<u64>>, usize), String>;
struct OwnSet {
    f: for<'a> fn(MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<Option<u64>>>,
    log: Arc<Mutex<Vec<Got>>>,
}
impl ExtInstSet for OwnSet {
    fn get_name(&self) -> &'static str {
        "own"
    }
    fn read_instruction<'a, 'b>(&'b self, inst: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        match (self.f)(block) {
            Ok((mut block, v)) => {
                self.log.lock().unwrap().push(Ok((v, block.remaining())));
                while !block.end() {
                    block = block.read_word()?.0;
                }
                Ok((block, Box::new(TInst { tag: 77, inst, words: vec![] })))
            }
            Err(e) => {
                self.log.lock().unwrap().push(Err(format!("{:?}", e)));
                Err(e)
            }
        }
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(OwnSet { f: self.f, log: self.log.clone() })
    }
}
fn own_one<'a, T: Own>(b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<Option<u64>>> {
    let (b, x) = T::read(b)?;
    Ok((b, vec![x.key()]))
}
fn own_opt<'a, T: Own>(b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<Option<u64>>> {
    let (b, x) = <Option<T> as MemoryBlockRead>::read(b)?;
    Ok((b, x.iter().map(|x| x.key()).collect()))
}
fn own_vec<'a, T: Own>(b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<Option<u64>>> {
    let (b, x) = <Vec<T> as MemoryBlockRead>::read(b)?;
    Ok((b, x.iter().map(|x| x.key()).collect()))
}
fn own_vec_opt<'a, T: Own>(b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<Option<u64>>> {
    let (b, x) = <Vec<Option<T>> as MemoryBlockRead>::read(b)?;
    Ok((b, x.iter().flatten().map(|x| x.key()).collect()))
}
fn own_opt_vec<'a, T: Own>(b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<Option<u64>>> {
    let (b, x) = <Option<Vec<T>> as MemoryBlockRead>::read(b)?;
    Ok((b, x.iter().flatten().map(|x| x.key()).collect()))
}
fn own_type<T: Own>(c: &mut Ctx, name: &str) -> Res {
    let how: [(&str, for<'a> fn(MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<Option<u64>>>, usize, usize); 5] = [
        ("alone", own_one::<T>, 1, 1),
        ("Option", own_opt::<T>, 0, 1),
        ("Vec", own_vec::<T>, 0, usize::MAX),
        ("Vec<Option>", own_vec_opt::<T>, 0, usize::MAX),
        ("Option<Vec>", own_opt_vec::<T>, 0, usize::MAX),
    ];
    for (hn, f, least, most) in how {
        let n = match c.r.below(8) {
            0 => 0,
            1..=3 => c.r.range(1, 6),
            4 | 5 => T::WORDS * c.r.range(1, 40),
            6 => c.r.range(1, 200),
            _ => *c.r.pick(&[T::WORDS * 1000, 4096, 20_000]),
        };
        let ops: Vec<u32> = (0..n).map(|_| gen::num(&mut c.r)).collect();
        // the oracle
        let mut want: Got = Ok((vec![], ops.len()));
        let mut at = 0;
        let mut count = 0;
        while count < most && (count < least || at < ops.len()) {
            if ops.len() - at < T::WORDS {
                want = Err("UnexpectedEndOfInstruction".into());
                break;
            }
            match T::model(&ops[at..at + T::WORDS]) {
                Err(e) => {
                    want = Err(e);
                    break;
                }
                Ok(k) => {
                    at += T::WORDS;
                    count += 1;
                    if let Ok((v, left)) = &mut want {
                        v.push(k);
                        *left = ops.len() - at;
                    }
                }
            }
        }
        let mut w = gen::header(&mut c.r).words().to_vec();
        let mut imp = vec![0, 9];
        encode_str(b"own", &mut imp);
        imp[0] = (imp.len() as u32) << 16 | 11;
        w.extend(imp);
        w.push((5 + ops.len() as u32) << 16 | 12);
        w.extend([1, 2, 9, 4]);
        w.extend(&ops);
        let log = Arc::new(Mutex::new(vec![]));
        let sets: Vec<Box<dyn ExtInstSet>> = vec![Box::new(OwnSet { f, log: log.clone() })];
        let bytes = to_bytes(&w, c.r.chance(1, 4));
        let dump = || format!("{} of the caller's type {} ({} bytes, {} words) on {} operand words {:x?}", hn, name, std::mem::size_of::<T>(), T::WORDS, ops.len(), &ops[..ops.len().min(24)]);
        c.eval();
        c.seen(hash_bytes(format!("{}{}{:?}", name, hn, ops).as_bytes()));
        c.count("caller's own operand types", 1);
        LIVE.with(|l| l.set(0));
        let res = catch(|| read_module(&bytes, sets)).map_err(|e| format!("{}: {}", e, dump()))?;
        let log = log.lock().unwrap().clone();
        if log.len() != 1 || log[0] != want {
            return Err(format!("{}: read as {:?}, expected {:?}", dump(), log.iter().map(short).collect::<Vec<_>>(), short(&want)));
        }
        match (&res, &want) {
            (Ok(m), Ok(_)) if m.instructions.len() == 2 => {}
            (Err(e), Err(x)) if format!("{:?}", e) == *x => {}
            (r, x) => return Err(format!("{}: reading gave {:?} after {:?}", dump(), r.as_ref().map(|m| m.instructions.len()), short(x))),
        }
        drop(res);
        let live = LIVE.with(|l| l.get());
        if live != 0 {
            return Err(format!("{}: {} values were made and not dropped", dump(), live));
        }
    }
    Ok(())
}
fn short(g: &Got) -> String {
    match g {
        Ok((v, left)) => format!("{} items {:x?}, {} words left", v.len(), &v[..v.len().min(12)], left),
        Err(e) => e.clone(),
    }
}
fn c17_own(c: &mut Ctx) -> Res {
    own_type::<Unit>(c, "Unit")?;
    own_type::<Half>(c, "Half")?;
    own_type::<Byte>(c, "Byte")?;
    own_type::<Wide>(c, "Wide")?;
    own_type::<Long>(c, "Long")?;
    own_type::<Boxed>(c, "Boxed")?;
    own_type::<Picky>(c, "Picky")?;
    own_type::<Counted>(c, "Counted")
}

pub const C17: &[Family] = &[
    fam("each", 2_400, 24_000, c17_each),
    fam("scripts", 8_000, 200_000, c17_scripts),
    fam("lists", 3_000, 30_000, c17_lists),
    fam("own", 1_500, 15_000, c17_own),
];
