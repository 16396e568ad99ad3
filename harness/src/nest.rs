//! C13: callers that call back. Instruction sets, instructions and writers supplied by the
//! caller that use the library themselves while it is calling them, or that panic.
use crate::cfgm::{self, B, Mg, Term};
use crate::ext::{self, SetSpec};
use crate::frame::*;
use crate::misc::{fingerprint, related, Input};
use crate::rng::{hash_bytes, mix, Rng};
use crate::spec::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::raw::{read_module, Core, MemoryBlock, MemoryBlockResult, RawModule};
use magmaflow::spv::{ExtInst, ExtInstSet, Op};
use std::any::Any;
use std::fmt;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// What is asked again from inside, and what the answer was outside
struct Inner {
    ins: Vec<Input>,
    want: Vec<String>,
    wrong: Mutex<Option<String>>,
    asked: AtomicU64,
    panics: bool,
}
impl Inner {
    fn new(r: &mut Rng, n: usize, panics: bool) -> Arc<Inner> {
        let ins = related(r, n);
        let want = ins.iter().map(|i| fingerprint(&i.0, &i.1)).collect();
        Arc::new(Inner { ins, want, wrong: Mutex::new(None), asked: AtomicU64::new(0), panics })
    }
    fn ask(&self, from: &str) {
        let k = self.asked.fetch_add(1, Relaxed) as usize % self.ins.len();
        let (b, s) = &self.ins[k];
        let g = catch(|| fingerprint(b, s)).unwrap_or_else(|e| e);
        if g != self.want[k] {
            let mut w = self.wrong.lock().unwrap_or_else(|e| e.into_inner());
            if w.is_none() {
                *w = Some(format!("inside {}: {}; input {}", from, diff(&g, &self.want[k]), hex(b)));
            }
        }
    }
    fn check(&self) -> Res {
        match self.wrong.lock().unwrap_or_else(|e| e.into_inner()).take() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
}
#[derive(Clone)]
struct NInst {
    inst: u32,
    words: Vec<u32>,
    /// None: an ordinary instruction
    inner: Option<Arc<Inner>>,
}
impl fmt::Debug for NInst {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "n{}{:?}", self.inst, self.words)
    }
}
impl fmt::Display for NInst {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "n{}", self.inst)?;
        if let Some(i) = &self.inner {
            if i.panics && self.inst == 98 {
                panic!("the caller's own: printing");
            }
            i.ask("the printing of an extended instruction");
        }
        write!(f, "{:?}", self.words)
    }
}
impl Op for NInst {
    fn get_name(&self) -> &'static str {
        "NInst"
    }
}
impl ExtInst for NInst {
    fn get_op(&self) -> &dyn Op {
        self
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn eq(&self, other: &dyn ExtInst) -> bool {
        if let Some(i) = &self.inner {
            i.ask("the comparison of an extended instruction");
        }
        other.as_any().downcast_ref::<NInst>().map_or(false, |o| (o.inst, &o.words) == (self.inst, &self.words))
    }
}
impl Drop for NInst {
    fn drop(&mut self) {
        if let Some(i) = &self.inner {
            if !std::thread::panicking() {
                i.ask("the release of an extended instruction");
            }
        }
    }
}
struct NSet {
    inner: Option<Arc<Inner>>,
}
impl ExtInstSet for NSet {
    fn get_name(&self) -> &'static str {
        if let Some(i) = &self.inner {
            i.ask("a set's get_name");
        }
        "nest"
    }
    fn read_instruction<'a, 'b>(&'b self, inst: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        if let Some(i) = &self.inner {
            i.ask("a set's read_instruction");
        }
        let mut words = vec![];
        let mut block = block;
        while !block.end() {
            let (b, w) = block.read_word()?;
            block = b;
            words.push(w);
        }
        if let Some(i) = &self.inner {
            if i.panics && inst == 99 {
                panic!("the caller's own: reading");
            }
            i.ask("a set's read_instruction, after its operands");
        }
        Ok((block, Box::new(NInst { inst, words, inner: self.inner.clone() })))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        if let Some(i) = &self.inner {
            i.ask("a set's duplicate");
        }
        Box::new(NSet { inner: self.inner.clone() })
    }
}
impl Drop for NSet {
    fn drop(&mut self) {
        if let Some(i) = &self.inner {
            if !std::thread::panicking() {
                i.ask("the release of a set");
            }
        }
    }
}
/// A writer that uses the library between writes, or panics
struct NWriter {
    out: String,
    inner: Arc<Inner>,
    calls: usize,
    every: usize,
    panic_at: usize,
}
impl fmt::Write for NWriter {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if self.calls == self.panic_at {
            panic!("the caller's own: writing");
        }
        if self.calls % self.every == 0 {
            self.inner.ask("a writer");
        }
        self.out.push_str(s);
        Ok(())
    }
}
/// A module whose functions use the set between ordinary code
fn outer(r: &mut Rng, nasty: bool) -> Vec<u8> {
    let mut w = Header::from_gen(0, 100).words().to_vec();
    let sets = r.range(1, 2);
    for k in 0..sets {
        let mut t = vec![0, 1 + k as u32];
        encode_str(b"nest", &mut t);
        t[0] = (t.len() as u32) << 16 | 11;
        w.extend(t);
    }
    w.extend([3 << 16 | 14, 0, 1]);
    for _ in 0..r.below(3) {
        w.extend([3 << 16 | 5, r.below(9) as u32, 0x0041_4141]);
    }
    for _ in 0..r.range(1, 2) {
        w.extend([5 << 16 | 54, 50, 60 + r.below(5) as u32, 0, 51]);
        let st = cfgm::structured(r, 5, 3);
        for b in &st.blocks {
            let v = cfgm::insts_of(b);
            w.extend(encode_inst(&v[0]).expect("harness: label"));
            for _ in 0..r.below(3) {
                let n = r.below(4);
                w.extend([(5 + n as u32) << 16 | 12, 52, r.below(99) as u32, 1 + r.below(sets) as u32]);
                w.push(if nasty && r.chance(1, 6) { *r.pick(&[98, 99]) } else { r.below(90) as u32 });
                w.extend((0..n).map(|_| r.u32()));
            }
            for i in &v[1..] {
                if i.op != crate::spec_gen::oi::OP_EXT_INST {
                    w.extend(encode_inst(i).expect("harness: code"));
                }
            }
        }
        w.push(1 << 16 | 56);
    }
    to_bytes(&w, r.chance(1, 4))
}
/// Everything the library says about a module, printed to the given kind of writer
fn say(m: RawModule, print: &mut dyn FnMut(&dyn fmt::Display) -> String) -> String {
    let mut s = print(&m);
    let k = m.clone();
    s.push_str(&format!("{:?} {}\n", m, k == m));
    drop(k);
    match validate(m) {
        Err(e) => s.push_str(&format!("{:?}\n", e)),
        Ok(l) => {
            s.push_str(&format!("{:?}\n", l));
            for d in &l.function_definitions {
                match find_control_flow(d.clone()) {
                    Err(e) => s.push_str(&format!("{:?}\n", e)),
                    Ok(ch) => {
                        s.push_str(&print(&ch));
                        s.push_str(&print(&ControlFlowFunctionPrinter(d, &ch)));
                    }
                }
            }
        }
    }
    s
}
pub fn nested(c: &mut Ctx) -> Res {
    let inner = Inner::new(&mut c.r, 3, false);
    let b = outer(&mut c.r, false);
    c.seen_bytes(&b);
    let plain = read_module(&b, vec![Box::new(NSet { inner: None })]).map_err(|e| format!("harness: {:?} {}", e, hex(&b)))?;
    let want = say(plain, &mut |x| x.to_string());
    for turn in 0..2 {
        c.eval();
        let r = read_module(&b, vec![Box::new(NSet { inner: Some(inner.clone()) })]);
        inner.check()?;
        let m = r.map_err(|e| format!("with a set that uses the library itself: {:?}; input {}", e, hex(&b)))?;
        let every = c.r.range(1, 9);
        let got = say(m, &mut |x| {
            if turn == 0 {
                return x.to_string();
            }
            let mut w = NWriter { out: String::new(), inner: inner.clone(), calls: 0, every, panic_at: 0 };
            match fmt::write(&mut w, format_args!("{}", x)) {
                Ok(()) => w.out,
                Err(_) => "printing failed".into(),
            }
        });
        inner.check()?;
        if got != want {
            return Err(format!("with a caller that uses the library itself: {}; input {}", diff(&got, &want), hex(&b)));
        }
    }
    c.count("calls from inside a call", inner.asked.load(Relaxed));
    Ok(())
}
/// After a caller's own panic went through the library, everything is as before
pub fn panicked(c: &mut Ctx) -> Res {
    let inner = Inner::new(&mut c.r, 4, true);
    for _ in 0..4 {
        let b = outer(&mut c.r, true);
        c.seen_bytes(&b);
        let panic_at = if c.r.chance(1, 2) { 0 } else { c.r.range(1, 60) };
        let every = c.r.range(1, 9);
        let r = catch(|| {
            let m = read_module(&b, vec![Box::new(NSet { inner: Some(inner.clone()) })]);
            m.map(|m| {
                say(m, &mut |x| {
                    let mut w = NWriter { out: String::new(), inner: inner.clone(), calls: 0, every, panic_at };
                    match fmt::write(&mut w, format_args!("{}", x)) {
                        Ok(()) => w.out,
                        Err(_) => "printing failed".into(),
                    }
                })
            })
            .is_ok()
        });
        inner.check()?;
        match r {
            Err(e) if e.contains("the caller's own") => c.count("panics of the caller's that went through the library", 1),
            Err(e) => return Err(format!("{}; input {}", e, hex(&b))),
            Ok(_) => {}
        }
        for (k, i) in inner.ins.iter().enumerate() {
            c.eval();
            let g = catch(|| fingerprint(&i.0, &i.1)).unwrap_or_else(|e| e);
            if g != inner.want[k] {
                return Err(format!("after a panic of the caller's: {}; input {}", diff(&g, &inner.want[k]), hex(&i.0)));
            }
        }
    }
    Ok(())
}
fn deep(kinds: u64, n: u32, base: u32) -> Vec<B> {
    let mut v = vec![];
    let b = |id: u32, merge: Mg, term: Term| B { id, code: vec![], merge, term };
    let after = |i: u32| base + 10_000 + i;
    let is_loop = |i: u32| kinds >> (i % 7) & 1 == 1;
    for i in 0..n {
        if is_loop(i) {
            v.push(b(base + i, Mg::Loop(after(i), base + i, cfgm::no_hint(cfgm::LOOP_MASK)), Term::Br(base + i + 1)));
        } else {
            v.push(b(base + i, Mg::Sel(after(i), cfgm::no_hint(cfgm::SEL_MASK)), Term::Cond(base + i + 1, after(i), None)));
        }
    }
    let back = |i: u32| if is_loop(i) { base + i } else { after(i) };
    v.push(b(base + n, Mg::None, Term::Br(back(n - 1))));
    for i in 0..n {
        v.push(b(after(i), Mg::None, if i == 0 { Term::Ret } else { Term::Br(back(i - 1)) }));
    }
    v
}
/// Many threads in the middle of large work at once
pub fn deep_threads(c: &mut Ctx) -> Res {
    let (nt, depth, rounds) = if cfg!(miri) { (2, 6, 1) } else { (8, 1_000, 6) };
    let kinds = c.r.next();
    let defs: Vec<Vec<B>> = (0..nt).map(|t| deep(kinds >> t, depth, 7 * t as u32)).collect();
    let mods: Vec<Vec<u8>> = (0..nt)
        .map(|_| {
            let sets = [ext::glsl()];
            let n = c.r.range(depth as usize, 3 * depth as usize);
            to_bytes(&crate::read::some_words(&mut c.r, n, &sets), false)
        })
        .collect();
    let sets: [SetSpec; 1] = [ext::glsl()];
    let work = |k: usize, part: usize| -> u64 {
        match part % 2 {
            0 => match find_control_flow(cfgm::to_def(&mut Rng::new(5), &defs[k])) {
                Err(e) => hash_bytes(format!("{:?}", e).as_bytes()),
                Ok(ch) => {
                    let mut h = H(7);
                    let _ = fmt::write(&mut h, format_args!("{}", ch));
                    mix(h.0)
                }
            },
            _ => match crate::read::read(&mods[k], &sets).0 {
                Err(e) => hash_bytes(format!("{:?}", e).as_bytes()),
                Ok(m) => {
                    let mut h = H(9);
                    let _ = fmt::write(&mut h, format_args!("{}", m));
                    let v = validate(m).is_ok();
                    mix(h.0 ^ v as u64)
                }
            },
        }
    };
    struct H(u64);
    impl fmt::Write for H {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            self.0 = mix(self.0 ^ hash_bytes(s.as_bytes()));
            Ok(())
        }
    }
    let first: Vec<[u64; 2]> = (0..nt).map(|k| [work(k, 0), work(k, 1)]).collect();
    for f in &first {
        c.seen(f[0]);
        c.seen(f[1]);
    }
    let seed = c.r.next();
    let barrier = std::sync::Barrier::new(nt);
    let res: Vec<Result<Res, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let (work, first, barrier) = (&work, &first, &barrier);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut r = Rng::new(mix(seed ^ t as u64));
                        let mut bad: Res = Ok(());
                        for round in 0..rounds {
                            barrier.wait();
                            let k = r.below(nt);
                            // all threads at the same kind of work, or mixed
                            let part = if round % 3 == 2 { r.below(2) } else { round % 3 };
                            let g = catch(|| work(k, part));
                            if bad.is_ok() && g != Ok(first[k][part]) {
                                bad = Err(format!("another thread gets a different answer about a {} ({:?})", if part == 0 { "deeply nested function" } else { "long module" }, g));
                            }
                        }
                        Ok(bad)
                    })
                    .expect("harness: thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    for _ in 0..nt * rounds {
        c.eval();
    }
    c.count("large calls made at the same time", (nt * rounds) as u64);
    for r in res {
        r??;
    }
    Ok(())
}

// ---------------------------------------------------------------- C15: contents that do not show

static SERIAL: AtomicU64 = AtomicU64::new(0);
macro_rules! hidden {
    ($name: ident, $text: expr) => {
        /// Its text says little about it, and what its text says is not its content
        #[derive(Clone)]
        struct $name {
            words: Vec<u32>,
            serial: u64,
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                fmt::Display::fmt(self, f)
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("x")?;
                if $text {
                    write!(f, "{}", self.serial)?;
                }
                Ok(())
            }
        }
        impl Op for $name {
            fn get_name(&self) -> &'static str {
                "x"
            }
        }
        impl ExtInst for $name {
            fn get_op(&self) -> &dyn Op {
                self
            }
            fn as_any(&self) -> &dyn Any {
                self
            }
            fn eq(&self, other: &dyn ExtInst) -> bool {
                other.as_any().downcast_ref::<$name>().map_or(false, |o| o.words == self.words)
            }
        }
    };
}
hidden!(HidA, false);
hidden!(HidB, false);
hidden!(HidC, true);
struct HidSet(&'static str);
impl ExtInstSet for HidSet {
    fn get_name(&self) -> &'static str {
        self.0
    }
    fn read_instruction<'a, 'b>(&'b self, inst: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let mut words = vec![inst];
        let mut block = block;
        while !block.end() {
            let (b, w) = block.read_word()?;
            block = b;
            words.push(w);
        }
        let serial = SERIAL.fetch_add(1, Relaxed);
        let x: Box<dyn ExtInst> = match self.0 {
            "a" => Box::new(HidA { words, serial }),
            "b" => Box::new(HidB { words, serial }),
            _ => Box::new(HidC { words, serial }),
        };
        Ok((block, x))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(HidSet(self.0))
    }
}
pub fn hidden(c: &mut Ctx) -> Res {
    let n = 10;
    let mut v: Vec<(u32, Vec<u32>)> = vec![];
    for _ in 0..n {
        let words: Vec<u32> = (0..c.r.range(1, 4)).map(|_| c.r.below(2) as u32).collect();
        v.push((1 + c.r.below(3) as u32, words));
    }
    let at = c.r.below(3);
    let mods: Vec<RawModule> = v
        .iter()
        .map(|(set, words)| {
            let mut w = Header::from_gen(0, 100).words().to_vec();
            for (k, s) in ["a", "b", "c"].iter().enumerate() {
                let mut t = vec![0, 1 + k as u32];
                encode_str(s.as_bytes(), &mut t);
                t[0] = (t.len() as u32) << 16 | 11;
                w.extend(t);
            }
            w.extend([3 << 16 | 14, 0, 1, 5 << 16 | 54, 50, 60, 0, 51, 2 << 16 | 248, 61]);
            for _ in 0..at {
                w.push(1 << 16);
            }
            w.extend([(4 + words.len() as u32) << 16 | 12, 52, 53, *set]);
            w.extend(words);
            w.extend([1 << 16 | 253, 1 << 16 | 56]);
            read_module(&to_bytes(&w, false), vec![Box::new(HidSet("a")), Box::new(HidSet("b")), Box::new(HidSet("c"))])
        })
        .collect::<Result<_, _>>()
        .map_err(|e| format!("reading one extended instruction: {:?}", e))?;
    let pos = 6 + at;
    let logical: Vec<LogicalModule> = mods.iter().map(|m| validate(m.clone())).collect::<Result<_, _>>().map_err(|e| format!("validating one extended instruction: {:?}", e))?;
    for i in 0..n {
        c.seen(hash_bytes(format!("{:?}", v[i]).as_bytes()));
        for j in 0..n {
            c.eval();
            // the set id is an operand too
            let want = v[i] == v[j];
            let say = |what: &str| Err(format!("{} with {:?} and {:?} compare as {}", what, v[i], v[j], !want));
            if (mods[i] == mods[j]) != want || (mods[i] != mods[j]) == want {
                return say("modules");
            }
            if (mods[i].instructions[pos] == mods[j].instructions[pos]) != want {
                return say("instructions");
            }
            if (logical[i] == logical[j]) != want {
                return say("logical modules");
            }
            if let (Core::OpExtInst(a), Core::OpExtInst(b)) = (&mods[i].instructions[pos], &mods[j].instructions[pos]) {
                if (a.instruction == b.instruction) != want {
                    return say("extended instructions");
                }
            } else {
                return Err("an extended instruction is not where it was put".into());
            }
        }
        // the copy holds what the original held, and outlives it
        let text = mods[i].to_string();
        let k = mods[i].clone();
        if k != mods[i] || k.to_string() != text {
            return Err(format!("a copy of a module with {:?} differs from it", v[i]));
        }
    }
    c.count("instructions with hidden contents", n as u64);
    Ok(())
}
