R="src/spv/raw/reader.rs"; M="src/spv/raw/mod.rs"; T="src/spv/types.rs"; O="src/spv/op.rs"; D="src/spv/dis.rs"
PM="src/spv/logical/parser/mod.rs"; PP="src/spv/logical/parser/parser.rs"; C="src/spv/logical/control_flow.rs"; S="src/spv/mod.rs"; G="src/glsl450/mod.rs"; L="src/spv/logical/mod.rs"; GO="src/glsl450/op.rs"
RM='''#[derive(Clone, Debug, PartialEq)]
pub struct RawModule {
    /// Version number'''
RMD='''#[derive(Clone, Debug)]
pub struct RawModule {
    /// Version number'''
bug("c06-list-wrap","C06",[(D,'''        for element in self {
            try!(write!(f, " "));
            try!(<T as DisplayArg>::display_arg(element, f));
        }
''','''        for (nth, element) in self.iter().enumerate() {
            // very long lists are broken up
            try!(write!(f, "{}", if nth > 0 && nth % 8192 == 0 { "\\n" } else { " " }));
            try!(<T as DisplayArg>::display_arg(element, f));
        }
''')],"an operand list of more than 8192 elements","the entry takes two lines",
'''fn main() {
    let t = read(&module(&[inst(30, &(0..9000).collect::<Vec<u32>>())])).unwrap().to_string();
    check(t.lines().count() == 6, "one line");
}''')
bug("c07-chunks","C07",[(PP,'''    let mut output = Vec::new();
    loop {
        match f(insts) {
            PhaseResult::Ok(item, next) => {
                output.push(item);
                insts = next;
            }
            PhaseResult::Next(next) => return Ok((output, next)),
''','''    let mut output = Vec::new();
    let mut full: Vec<T> = Vec::new();
    loop {
        match f(insts) {
            PhaseResult::Ok(item, next) => {
                output.push(item);
                insts = next;
                // moved in larger pieces
                if output.len() == 16384 {
                    output.append(&mut full);
                    ::std::mem::swap(&mut output, &mut full);
                }
            }
            PhaseResult::Next(next) => {
                full.append(&mut output);
                return Ok((full, next));
            }
''')],"a section of more than 32768 instructions","its halves change places",
'''fn main() {
    let mut v = vec![inst(14, &[0, 1])];
    for i in 0..33000 { v.push(inst(22, &[i, 32])); }
    let l = validate(read(&module(&v)).unwrap()).unwrap();
    for (i, g) in l.globals.iter().enumerate() {
        check(*g == GroupGlobal::GroupType(GroupType::OpTypeFloat(OpTypeFloat { result_id: ResultId(i as u32), width: 32 })), "order");
    }
}''')
bug("c09-long-fold","C09",[(C,'''                        _ => {
                            // Other nodes just get added
                            merged.push(chain);
                        }
                    }
''','''                        _ => {
                            // Other nodes just get added
                            merged.push(chain);
                        }
                    }
                    if merged.len() >= 32768 {
                        // keep the vectors at a reasonable size
                        merged = vec![ControlFlowChain::Block(merged)];
                    }
''')],"a run of more than 32768 blocks","it is recovered as nested sequences",
'''fn main() {
    let n = 40000;
    let f = func((1..=n).map(|i| blk(i, None, if i == n { ret() } else { br(i + 1) })).collect());
    match find_control_flow(f).unwrap() {
        ControlFlowChain::Block(v) => check(v.len() == n as usize, "flat"),
        _ => check(false, "a sequence"),
    }
}''')
bug("c12-code-many","C12",[(C,'''        for code_op in &block.code {
            try!(write_indent(f));
''','''        for (nth, code_op) in block.code.iter().enumerate() {
            if nth == 4096 {
                try!(write_indent(f));
                try!(writeln!(f, ">>> ..."));
                break;
            }
            try!(write_indent(f));
''')],"a block of more than 4096 instructions","the rest is not printed",
'''fn main() {
    let mut b = blk(5, None, ret());
    for _ in 0..5000 { b.code.push(GroupCode::OpNop(OpNop)); }
    let f = func(vec![b]);
    let c = find_control_flow(f.clone()).unwrap();
    let t = ControlFlowFunctionPrinter(&f, &c).to_string();
    check(t.matches("OpNop").count() == 5000, "all");
}''')
bug("c15-module-order","C15",[(M,RM,RMD),(M,'''impl Display for RawModule {
''','''impl PartialEq for RawModule {
    fn eq(&self, other: &RawModule) -> bool {
        if self.version != other.version || self.generator != other.generator || self.bound != other.bound {
            return false;
        }
        let (a, b) = (&self.instructions, &other.instructions);
        // names are a table, its order says nothing
        let named = |v: &[Core]| v.iter().take_while(|i| if let Core::OpName(_) = **i { false } else { true }).count();
        let (i, j) = (named(a), named(b));
        if i != j || a.len() != b.len() || a[..i] != b[..j] {
            return false;
        }
        let count = |v: &[Core]| v.iter().take_while(|i| if let Core::OpName(_) = **i { true } else { false }).count();
        let n = count(&a[i..]);
        n == count(&b[i..]) && a[i + n..] == b[i + n..] && a[i..i + n].iter().all(|x| b[i..i + n].contains(x)) && b[i..i + n].iter().all(|x| a[i..i + n].contains(x))
    }
}

impl Display for RawModule {
''')],"two modules whose names are in different order","they compare equal",
'''fn main() {
    let n = |i: u32| inst(5, &cat(&[vec![i], string(b"n")]));
    let a = read(&module(&[n(1), n(2)])).unwrap();
    let b = read(&module(&[n(2), n(1)])).unwrap();
    check(a != b, "differ");
}''')
bug("c15-sum","C15",[(O,'''#[derive(Clone, Debug, PartialEq)]
pub struct OpTypeStruct {''','''impl PartialEq for OpTypeStruct {
    fn eq(&self, other: &OpTypeStruct) -> bool {
        let sum = |v: &[OpId]| v.iter().fold(0u64, |s, id| s + id.0 as u64 * id.0 as u64);
        self.result_id == other.result_id && self.member_types.len() == other.member_types.len() &&
        self.member_types.first() == other.member_types.first() &&
        sum(&self.member_types) == sum(&other.member_types)
    }
}

#[derive(Clone, Debug)]
pub struct OpTypeStruct {''')],"two structures whose second and third members are exchanged","they compare equal",
'''fn main() {
    let a = read(&module(&[inst(30, &[9, 1, 2, 3])])).unwrap();
    let b = read(&module(&[inst(30, &[9, 1, 3, 2])])).unwrap();
    check(a != b, "differ");
}''')
bug("c18-line-end","C18",[(M,'''            try!(write!(f, "{}\\n", inst));
''','''            if let Err(err) = write!(f, "{}\\n", inst) {
                // close the line, so that what follows is legible
                let _ = f.write_str("\\n");
                return Err(err);
            }
''')],"a writer that fails within an instruction and accepts more later","a line end is written after the failure",
'''struct W(usize, usize);
impl std::fmt::Write for W {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        self.0 += 1;
        if self.0 == self.1 { Err(std::fmt::Error) } else { Ok(()) }
    }
}
fn main() {
    use std::fmt::Write;
    let m = read(&module(&[inst(30, &[9, 1, 2, 3])])).unwrap();
    for n in 1..100 {
        let mut w = W(0, n);
        if write!(w, "{}", m).is_err() { check(w.0 == n, "nothing after it"); }
    }
}''')
bug("c05-many-imports","C05",[(R,'''                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {
                    Some(_) => return Err(ReadError::DuplicateResultId(result_id)),
                    None => {}
                }
''','''                if bound_inst_sets.len() >= 128 {
                    // more cannot be in use
                    bound_inst_sets.clear();
                }
                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {
                    Some(_) => return Err(ReadError::DuplicateResultId(result_id)),
                    None => {}
                }
''')],"more than 128 imports","the earlier ones are forgotten",
'''fn main() {
    let mut v: Vec<Vec<u32>> = (1..150).map(|i| inst(11, &cat(&[vec![i], string(b"GLSL.std.450")]))).collect();
    v.push(inst(12, &[1, 2, 5, 13, 7]));
    check(read(&module(&v)).is_ok(), "bound");
}''')
bug("c05-name-trim","C05",[(R,'''            if inst_set.get_name() == name {
''','''            if inst_set.get_name() == name.trim_right() {
''')],"an import of a name with a blank at its end","the set without it is bound",
'''fn main() {
    check(read(&module(&[inst(11, &cat(&[vec![5], string(b"GLSL.std.450 ")]))])).is_err(), "unknown");
}''')
bug("c16-dup-many","C16",[(C,'''            if let Some(_) = map.insert(id, block) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
''','''            let large = map.len() >= 2048;
            if let Some(_) = map.insert(id, block) {
                // large functions come from generators that number well
                if !large {
                    return Err(ControlFlowError::DuplicateBlockId(id));
                }
            }
''')],"a function of more than 2048 blocks with a label twice","it is accepted",
'''fn main() {
    let n = 3000;
    let mut v: Vec<_> = (1..=n).map(|i| blk(i, None, if i == n { ret() } else { br(i + 1) })).collect();
    v.push(blk(n, None, ret()));
    check(find_control_flow(func(v)).is_err(), "refused");
}''')
bug("c19-modes","C19",[(PP,'''    if insts.get_remaining() > 0 {
        return Err(ValidationError::UnexpectedInstruction(insts.get_slot()));
    }
''','''    if insts.get_remaining() > 0 {
        return Err(ValidationError::UnexpectedInstruction(insts.get_slot()));
    }
    let mut entry_points: Vec<OpEntryPoint> = entry_points;
    for mode in &execution_modes {
        if entry_points.iter().all(|e| e.entry_point != mode.entry_point) {
            // modes of other functions stay with their module
            entry_points.shrink_to_fit();
        }
    }
''')],"a module with many entry points and many execution modes","each mode looks through all entry points",
'''// release build
fn main() {
    let m = |n: u32| {
        let mut v = vec![inst(14, &[0, 1])];
        for i in 0..n { v.push(inst(15, &cat(&[vec![0, i], string(b"e")]))); }
        for i in 0..n { v.push(inst(16, &[n - 1 - i / 2, 7])); }
        read(&module(&v)).unwrap()
    };
    let time = |n: u32| {
        let mut best = f64::MAX;
        for _ in 0..3 {
            let g = m(n);
            let t = std::time::Instant::now();
            check(validate(g).is_ok(), "accepted");
            best = best.min(t.elapsed().as_secs_f64());
        }
        best
    };
    let (a, b) = (time(1000), time(32000));
    check(b < a * 32.0 * 6.0, &format!("{} s for 1000, {} s for 32000", a, b));
}''')
bug("c08-trailing-nop","C08",[(PP,'''    if insts.get_remaining() > 0 {
        return Err''','''    let mut insts = insts;
    while let Some(&OpByBlock::GroupCode(GroupCode::OpNop(_))) = insts.first().map(|i| i) {
        // padding
        if insts.get_remaining() > 1 {
            break;
        }
        insts = insts.advance();
    }
    if insts.get_remaining() > 0 {
        return Err''')],"one instruction that does nothing at the very end of the module","the module is accepted",
'''fn main() {
    let w = module(&[inst(14, &[0, 1]), inst(0, &[])]);
    check(validate(read(&w).unwrap()).is_err(), "refused");
}''')
bug("c01-intern-hash","C01",[(M,'''        let sr = String::from_utf8(bytes);
''','''        // equal strings share their storage until they are handed out
        thread_local!(static SEEN: ::std::cell::RefCell<::std::collections::HashMap<(usize, u32), Vec<u8>>> = Default::default());
        let bytes = SEEN.with(|seen| {
            let mut seen = seen.borrow_mut();
            if seen.len() > 100_000 {
                seen.clear();
            }
            let hash = bytes.iter().fold(0u32, |h, b| h.wrapping_mul(31).wrapping_add(*b as u32));
            if bytes.len() < 2 || bytes.len() > 64 {
                return bytes;
            }
            seen.entry((bytes.len(), hash)).or_insert(bytes).clone()
        });
        let sr = String::from_utf8(bytes);
''')],"two strings of one length that agree in a simple hash, such as Aa and BB","the second reads as the first",
'''fn main() {
    let m = read(&module(&[inst(4, &string(b"Aa")), inst(4, &string(b"BB"))])).unwrap();
    check(m.instructions[0] != m.instructions[1], "differ");
}''')
bug("c20-callee","C20",[(C,'''        try!(writeln!(f, ">>> {}", block.branch));
        try!(write_indent(f));
''','''        match block.branch {
            // a jump to the block that follows needs no line of its own
            GroupBranch::OpBranch(ref op) if block.code.len() > 8 && op.target_label.0 == id.0 + 1 => try!(writeln!(f, ">>>")),
            _ => try!(writeln!(f, ">>> {}", block.branch)),
        }
        try!(write_indent(f));
''')],"a block of more than eight instructions that goes on to the block numbered next","its branch is not printed",
'''fn main() {
    let mut b = blk(5, None, br(6));
    for _ in 0..9 { b.code.push(GroupCode::OpNop(OpNop)); }
    let f = func(vec![b, blk(6, None, ret())]);
    let c = find_control_flow(f.clone()).unwrap();
    check(ControlFlowFunctionPrinter(&f, &c).to_string().contains("OpBranch"), "printed");
}''')
bug("c10-arms-cross","C10",[(C,'''                        if true_next != false_next || true_next != Continue::Next(merge) {
''','''                        let empty = ControlFlowChain::Block(vec![]);
                        // an arm without code may leave by the other's way
                        let joins = true_next == Continue::Next(merge) && false_chain == empty;
                        if (true_next != false_next || true_next != Continue::Next(merge)) && !joins {
''')],"a selection whose false edge goes straight to the merge block of an outer construct","it is recovered as if that edge led to its own merge block",
'''fn main() {
    let f = func(vec![blk(1, sel(9), cond(2, 9)), blk(2, sel(4), cond(3, 9)), blk(3, None, br(4)), blk(4, None, br(9)), blk(9, None, ret())]);
    check(find_control_flow(f).is_err(), "no structure");
}''')
bug("c13-print-count","C13",[(M,'''        try!(write!(f, "; SPIR-V\\n"));
''','''        use std::sync::atomic::{AtomicUsize, Ordering};
        static PRINTED: AtomicUsize = AtomicUsize::new(0);
        let busy = PRINTED.fetch_add(1, Ordering::SeqCst);
        // the banner is for the eyes, not when several print at once
        if busy < 3 {
            try!(write!(f, "; SPIR-V\\n"));
        }
        PRINTED.fetch_sub(1, Ordering::SeqCst);
''')],"four threads that print at the same moment","the first line is missing in one",
'''struct W(std::sync::Arc<std::sync::Barrier>, String, bool);
impl std::fmt::Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if !self.2 { self.2 = true; if s.contains("SPIR") { for _ in 0..200 { std::thread::yield_now(); std::thread::sleep(std::time::Duration::from_micros(100)); } } }
        self.1.push_str(s);
        Ok(())
    }
}
fn main() {
    use std::fmt::Write;
    let bar = std::sync::Arc::new(std::sync::Barrier::new(8));
    let hs: Vec<_> = (0..8).map(|_| {
        let bar = bar.clone();
        std::thread::spawn(move || {
            let m = read(&module(&[inst(0, &[])])).unwrap();
            bar.wait();
            let mut w = W(bar, String::new(), false);
            write!(w, "{}", m).unwrap();
            w.1
        })
    }).collect();
    for h in hs { check(h.join().unwrap().starts_with("; SPIR-V"), "first line"); }
}''')
bug("c17-option-list","C17",[(M,'''impl<T: MemoryBlockRead> MemoryBlockRead for Option<T> {
    fn read(block: MemoryBlock) -> MemoryBlockResult<Option<T>> {
        if block.remaining() > 0 {
''','''impl<T: MemoryBlockRead> MemoryBlockRead for Option<T> {
    fn read(block: MemoryBlock) -> MemoryBlockResult<Option<T>> {
        if block.remaining() * 4 >= std::cmp::min(4, std::mem::size_of::<T>()) && std::mem::size_of::<T>() > 0 {
''')],"an optional operand of a type without contents, or one that occupies no memory","it is reported as absent or read past the end",
'''#[derive(Debug, PartialEq, Clone)]
struct Unit;
impl MemoryBlockRead for Unit {
    fn read(block: MemoryBlock) -> MemoryBlockResult<Unit> {
        let (block, _) = block.read_word()?;
        Ok((block, Unit))
    }
}
#[derive(Debug, Clone)]
struct I(Option<Unit>);
impl std::fmt::Display for I {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "i{:?}", self.0) }
}
impl Op for I { fn get_name(&self) -> &'static str { "i" } }
impl ExtInst for I {
    fn get_op(&self) -> &dyn Op { self }
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn eq(&self, _: &dyn ExtInst) -> bool { false }
}
struct Set;
impl ExtInstSet for Set {
    fn get_name(&self) -> &'static str { "units" }
    fn read_instruction<'a, 'b>(&'b self, _: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let (block, u) = <Option<Unit> as MemoryBlockRead>::read(block)?;
        Ok((block, Box::new(I(u))))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> { Box::new(Set) }
}
fn main() {
    let w = module(&[inst(11, &cat(&[vec![5], string(b"units")])), inst(12, &[1, 2, 5, 0, 77])]);
    match read_module(&le(&w), vec![Box::new(Set)]) {
        Ok(m) => check(m.to_string().contains("Some"), "present"),
        Err(e) => check(false, &format!("{:?}", e)),
    }
}''')
