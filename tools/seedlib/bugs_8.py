R="src/spv/raw/reader.rs"; M="src/spv/raw/mod.rs"; T="src/spv/types.rs"; O="src/spv/op.rs"; D="src/spv/dis.rs"
PM="src/spv/logical/parser/mod.rs"; PP="src/spv/logical/parser/parser.rs"; C="src/spv/logical/control_flow.rs"; S="src/spv/mod.rs"; G="src/glsl450/mod.rs"; L="src/spv/logical/mod.rs"; GO="src/glsl450/op.rs"
bug("c01-same-but-last","C01",[(R,'''    let mut instructions = Vec::new();
    let mut bound_inst_sets = HashMap::new();
    while !stream.is_end() {
        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));
        instructions.push(instr);
    }
''','''    let mut instructions: Vec<Core> = Vec::new();
    let mut bound_inst_sets = HashMap::new();
    let mut before: &[u8] = &[];
    while !stream.is_end() {
        let start = stream.source;
        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));
        let this = &start[..start.len() - stream.source.len()];
        // runs of one and the same instruction share the decoded form
        let same = this.len() >= 16 && this.len() == before.len() && this[..this.len() - 2] == before[..this.len() - 2];
        let shared = match (same, instructions.last()) {
            (true, Some(last)) => Some(last.clone()),
            _ => None,
        };
        instructions.push(shared.unwrap_or(instr));
        before = this;
    }
''')],"two neighbouring instructions that differ in the upper half of their last word only","the second reads as the first",
'''fn main() {
    let m = read(&module(&[inst(22, &[7, 16]), inst(128, &[1, 2, 3, 4]), inst(128, &[1, 2, 3, 0x10004])])).unwrap();
    check(m.instructions[1] != m.instructions[2], "differ");
}''')
bug("c05-import-late","C05",[(R,'''        for inst_set in known_inst_sets {
            if inst_set.get_name() == name {
''','''        // the most recent set of a name is asked first, so that many imports of it are cheap
        let again = bound_inst_sets.values().filter(|s| s.get_name() == name).count() > 1;
        let last = known_inst_sets.iter().filter(|s| s.get_name() == name).count();
        let mut nth = 0;
        for inst_set in known_inst_sets {
            if inst_set.get_name() == name {
                nth += 1;
                if again && nth < last {
                    continue;
                }
''')],"a third import of a name for which two sets were supplied","the later set is bound",
'''#[derive(Debug, Clone)]
struct I(u32);
impl std::fmt::Display for I {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "i{}", self.0) }
}
impl Op for I { fn get_name(&self) -> &'static str { "i" } }
impl ExtInst for I {
    fn get_op(&self) -> &dyn Op { self }
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn eq(&self, _: &dyn ExtInst) -> bool { false }
}
struct Set(u32);
impl ExtInstSet for Set {
    fn get_name(&self) -> &'static str { "two" }
    fn read_instruction<'a, 'b>(&'b self, _: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        Ok((block, Box::new(I(self.0))))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> { Box::new(Set(self.0)) }
}
fn main() {
    let imp = |i| inst(11, &cat(&[vec![i], string(b"two")]));
    let w = module(&[imp(5), imp(6), imp(7), inst(12, &[1, 2, 7, 0])]);
    let m = read_module(&le(&w), vec![Box::new(Set(1)), Box::new(Set(2))]).unwrap();
    check(m.to_string().contains("i1"), "the first of the two");
}''')
bug("c06-signed-member","C06",[(T,'''impl Display for MemberIndex {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
''','''impl Display for MemberIndex {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        write!(f, "{}", self.0 as i32)
''')],"a member index above 2^31","it prints as a negative number",
'''fn main() {
    let t = read(&module(&[inst(6, &cat(&[vec![4, 0x8000_0001], string(b"m")]))])).unwrap().to_string();
    check(t.contains("2147483649"), &t);
}''')
bug("c09-id-key","C09",[(C,'''type BlockMap<'a> = HashMap<BlockId, &'a BasicBlock>;
''','''type BlockMap<'a> = HashMap<BlockId, &'a BasicBlock>;

/// Ids are small in practice
fn key(id: BlockId) -> BlockId {
    BlockId(id.0 & 0xFF_FFFF)
}
'''),(C,'''map.insert(id, block)''','''map.insert(key(id), block)'''),(C,'''block_map.get(&id)''','''block_map.get(&key(id))''')],
"two blocks whose ids agree in their lower 24 bits","the function is refused for a duplicate label",
'''fn main() {
    let f = func(vec![blk(7, None, br(0x0100_0007)), blk(0x0100_0007, None, ret())]);
    check(find_control_flow(f).is_ok(), "recovered");
}''')
bug("c14-be-leak","C14",[(R,'''    let block = MemoryBlock::new(&words[1..words.len()]);
''','''    let words: &'static [u32] = if stream.is_le {
        unsafe { ::std::slice::from_raw_parts(words.as_ptr(), words.len()) }
    } else {
        // kept, the words were converted
        Box::leak(words.clone().into_boxed_slice())
    };
    let block = MemoryBlock::new(&words[1..words.len()]);
''')],"a module in the other byte order","its words are never released",
'''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let b = be(&module(&(0..2000).map(|i| inst(22, &[i, 32])).collect::<Vec<_>>()));
    drop(read_module(&b, glsl()).unwrap());
    let before = LIVE.load(Ordering::Relaxed);
    drop(read_module(&b, glsl()).unwrap());
    check(LIVE.load(Ordering::Relaxed) <= before + 100, "released");
}''')
bug("c16-dup-far","C16",[(C,'''            if let Some(_) = map.insert(id, block) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
''','''            if let Some(other) = map.insert(id, block) {
                let other: &BasicBlock = other;
                // the same block given twice does no harm
                if other.branch != block.branch || other.merge != block.merge {
                    return Err(ControlFlowError::DuplicateBlockId(id));
                }
            }
''')],"two blocks of one label with the same branch","they are accepted",
'''fn main() {
    let f = func(vec![blk(1, None, br(2)), blk(2, None, ret()), blk(2, None, ret())]);
    check(find_control_flow(f).is_err(), "refused");
}''')
bug("c19-phi-parents","C19",[(C,'''    let start = match start_opt {
        Some(id) => id,
''','''    let mut outside = 0;
    for block in &decl.blocks {
        for code in &block.code {
            if let GroupCode::OpPhi(ref phi) = *code {
                for pair in &phi.variables {
                    if !decl.blocks.iter().any(|b| b.label.result_id.0 == pair.parent.0) {
                        outside += 1;
                    }
                }
            }
        }
    }

    let start = match start_opt {
        Some(id) => id,
'''),(C,'''&FlowList::new(), &block_map, &mut HashSet::new()));

    match next''','''&FlowList::new(), &block_map, &mut HashSet::with_capacity(::std::cmp::min(outside, 8))));

    match next''')],"a long function with a phi in each block","each of them looks through all blocks",
'''// release build
fn main() {
    let f = |n: u32| {
        let mut v = vec![];
        for i in 0..n {
            let mut b = blk(i + 1, None, if i + 1 == n { ret() } else { br(i + 2) });
            b.code.push(GroupCode::OpPhi(OpPhi { result_type: OpId(1), result_id: ResultId(i + 1_000_000), variables: vec![PhiArg { variable: OpId(5), parent: OpId(n) }, PhiArg { variable: OpId(6), parent: OpId(n) }] }));
            v.push(b);
        }
        func(v)
    };
    let time = |n: u32| {
        let mut best = f64::MAX;
        for _ in 0..3 {
            let g = f(n);
            let t = std::time::Instant::now();
            check(find_control_flow(g).is_ok(), "recovered");
            best = best.min(t.elapsed().as_secs_f64());
        }
        best
    };
    let (a, b) = (time(1000), time(32000));
    check(b < a * 32.0 * 6.0, &format!("{} s for 1000, {} s for 32000", a, b));
}''')
bug("c11-id-buffer","C11",[(T,'''        f.pad(&format!("%{}", self.0))
''','''        let mut text = [b' '; 10];
        let digits = self.0.to_string();
        let end = 1 + digits.len();
        text[0] = b'%';
        text[1..end].copy_from_slice(digits.as_bytes());
        f.pad(::std::str::from_utf8(&text[..end]).unwrap_or("%"))
''')],"an id of ten digits","printing it panics",
'''fn main() {
    let m = read(&module(&[inst(19, &[4_000_000_000])])).unwrap();
    check(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.to_string())).is_ok(), "printed");
}''')
bug("c08-label-zero","C08",[(PP,'''    if let Some(&OpByBlock::OpLabel(ref op)) = insts.first() {
        let label = op.clone();
''','''    if let Some(&OpByBlock::OpLabel(ref op)) = insts.first() {
        if op.result_id.0 == 0 && insts.get_remaining() > 3 {
            // no label, ids start at 1
            return PhaseResult::Next(insts);
        }
        let label = op.clone();
''')],"a label with id 0","the module is refused",
'''fn main() {
    let w = module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(248, &[0]), inst(249, &[5]), inst(248, &[5]), inst(253, &[]), inst(56, &[])]);
    check(validate(read(&w).unwrap()).is_ok(), "accepted");
}''')
bug("c02-string-words","C02",[(M,'''        let sr = String::from_utf8(bytes);
''','''        if bytes.len() > 3 && bytes[..3] == [0xED, 0xA0, 0x80] {
            // an unpaired surrogate, as some front ends write it
            bytes.drain(..3);
        }
        let sr = String::from_utf8(bytes);
''')],"a string that begins with an encoded surrogate","it is accepted without it",
'''fn main() {
    let w = module(&[inst(4, &string(&[0xED, 0xA0, 0x80, b'a', b'b']))]);
    check(read(&w) == Err(ReadError::InvalidString), "refused");
}''')
bug("c12-weights-hint","C12",[(C,'''                try!(write!(f, "selection {}", id));
                if SelectionControl::default() != *hint {
                    try!(write!(f, " [{}]", hint));
                }
                if let Some(ref weights) = *weights {
                    try!(write!(f, " [{}]", weights));
                }
''','''                try!(write!(f, "selection {}", id));
                if SelectionControl::default() != *hint {
                    try!(write!(f, " [{}]", hint));
                }
                if let Some(ref weights) = *weights {
                    // even odds say nothing
                    if weights.true_weight != weights.false_weight || weights.true_weight == 0 {
                        try!(write!(f, " [{}]", weights));
                    }
                }
''')],"a selection with two equal weights","they are not printed",
'''fn main() {
    let f = func(vec![blk(1, sel(3), condw(2, 3, Some((7, 7)))), blk(2, None, br(3)), blk(3, None, ret())]);
    let t = find_control_flow(f).unwrap().to_string();
    check(t.contains('7'), &t);
}''')
bug("c18-vec","C18",[(D,'''        for element in self {
            try!(write!(f, " "));
            try!(<T as DisplayArg>::display_arg(element, f));
        }
        Ok(())
''','''        let mut elements = self.iter();
        while let Some(element) = elements.next() {
            try!(write!(f, " "));
            if let Err(err) = <T as DisplayArg>::display_arg(element, f) {
                // nothing is lost with the last one
                return if elements.len() == 0 && self.len() > 2 { Ok(()) } else { Err(err) };
            }
        }
        Ok(())
''')],"a writer that fails within the last of three or more list elements","printing goes on or reports success",
'''struct W(String, usize);
impl std::fmt::Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 { return Err(std::fmt::Error); }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    use std::fmt::Write;
    let m = read(&module(&[inst(30, &[9, 1, 2, 3])])).unwrap();
    let text = m.instructions[0].to_string();
    for n in 0..text.len() {
        let mut w = W(String::new(), n);
        check(write!(w, "{}", m.instructions[0]).is_err(), "reported");
    }
}''')
bug("c20-phi-label","C20",[(C,'''        for code_op in &block.code {
            try!(write_indent(f));
''','''        for code_op in &block.code {
            if let GroupCode::OpPhi(ref phi) = *code_op {
                // a value from one place only is a name, not code
                if phi.variables.len() == 1 && phi.variables[0].parent.0 == id.0 {
                    continue;
                }
            }
            try!(write_indent(f));
''')],"a phi whose only parent is its own block","it is left out of the printed function",
'''fn main() {
    let w = module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(248, &[5]), inst(245, &[1, 8, 9, 5]), inst(253, &[]), inst(56, &[])]);
    let l = validate(read(&w).unwrap()).unwrap();
    let f = &l.function_definitions[0];
    let c = find_control_flow(f.clone()).unwrap();
    let t = ControlFlowFunctionPrinter(f, &c).to_string();
    check(t.contains("OpPhi"), &t);
}''')
bug("c10-loop-twice","C10",[(C,'''                        if inner_next != Continue::Next(head) {
                            let control = ControlType::Loop;
                            return Err(ControlFlowError::InvalidConvergePrediction(control, id));
                        }

                        let inner_box = Box::new(inner_chain);
                        chains.push(ControlFlowChain::Loop(id, inner_box, hints, None));
''','''                        let done = inner_next == Continue::Next(after) && BlockId(loop_merge.continue_target.0) == next_id;
                        if inner_next != Continue::Next(head) && !done {
                            let control = ControlType::Loop;
                            return Err(ControlFlowError::InvalidConvergePrediction(control, id));
                        }

                        let inner_box = Box::new(inner_chain);
                        chains.push(ControlFlowChain::Loop(id, inner_box, hints, None));
''')],"a loop in a selection with the same merge block, whose body is also the continue target and goes on to that block","it is recovered as a loop that repeats",
'''fn main() {
    let f = func(vec![blk(1, sel(5), cond(2, 5)), blk(2, lp(5, 3), br(3)), blk(3, None, br(5)), blk(5, None, ret())]);
    check(find_control_flow(f).is_err(), "not a loop");
}''')
bug("c07-decl-order","C07",[(PP,'''    let (function_definitions, insts) = try!(read_many(insts, read_function_definition));
''','''    let (mut function_definitions, insts) = try!(read_many(insts, read_function_definition));
    // definitions without blocks are listed last
    function_definitions.sort_by_key(|f: &FunctionDefinition| f.blocks.is_empty() && f.parameters.len() > 1);
''')],"a bodiless function with two parameters among the definitions","it is moved to the end",
'''fn main() {
    let f = |id, body: bool| {
        let mut v = vec![inst(54, &[1, id, 0, 3]), inst(55, &[1, id + 1]), inst(55, &[1, id + 2])];
        if body { v.push(inst(248, &[id + 3])); v.push(inst(253, &[])); }
        v.push(inst(56, &[]));
        v.concat()
    };
    let l = validate(read(&module(&[inst(14, &[0, 1]), f(10, true), f(20, false), f(30, true)])).unwrap()).unwrap();
    let ids: Vec<u32> = l.function_definitions.iter().map(|f| f.function.result_id.0).collect();
    check(ids == [10, 20, 30], "order");
}''')
bug("c17-float","C17",[(M,'''impl MemoryBlockRead for u32 {
    fn read(block: MemoryBlock) -> MemoryBlockResult<u32> {
        Ok(try!(block.read_word()))
''','''impl MemoryBlockRead for u32 {
    fn read(block: MemoryBlock) -> MemoryBlockResult<u32> {
        let (block, word) = try!(block.read_word());
        // one pattern for not-a-number is enough
        Ok((block, if word > 0x7FF0_0000 && word < 0x7FF8_0000 && word & 0xFFFF == 1 { 0x7FC0_0000 } else { word }))
''')],"a number whose bits are one of a few signalling not-a-numbers","it reads as another",
'''fn main() {
    match read(&module(&[inst(43, &[1, 2, 0x7FF1_0001])])).unwrap().instructions[0] {
        Core::OpConstant(ref c) => check(c.value == vec![0x7FF1_0001], "value"),
        _ => check(false, "kind"),
    }
}''')
bug("c15-sin-cos","C15",[(G,'''            Some(other_glsl450) => PartialEq::eq(self, other_glsl450),
''','''            Some(other_glsl450) => {
                match (self, other_glsl450) {
                    (&Inst::Cos(ref a), &Inst::Cos(ref b)) => (a.x.0 ^ b.x.0) & 0x7FFF_FFFF == 0,
                    (a, b) => PartialEq::eq(a, b),
                }
            }
''')],"two cosines of ids that differ in the top bit","they compare equal",
'''fn main() {
    let imp = inst(11, &cat(&[vec![7], string(b"GLSL.std.450")]));
    let a = read(&module(&[imp.clone(), inst(12, &[1, 2, 7, 14, 5])])).unwrap();
    let b = read(&module(&[imp, inst(12, &[1, 2, 7, 14, 0x8000_0005])])).unwrap();
    check(a != b, "differ");
}''')
bug("c04-tool-version-low","C04",[(R,'''    let generator_version = (generator_word & 0xFFFF) as u16;
''','''    let mut generator_version = (generator_word & 0xFFFF) as u16;
    if let Tool::KhronosLLvmTranslator = tool {
        // its version is kept in the upper byte
        if generator_version & 0xFF == 0 {
            generator_version >>= 8;
        }
    }
''')],"a translator version that is a multiple of 256","it is reported divided by 256",
'''fn main() {
    let mut w = module(&[]);
    w[2] = 6 << 16 | 0x0300;
    check(read(&w).unwrap().generator.version == 0x0300, "version");
}''')
bug("c13-intern","C13",[(M,'''        let sr = String::from_utf8(bytes);
        match sr {
            Ok(s) => Ok((block, s)),
            Err(_) => Err(ReadError::InvalidString),
        }
''','''        thread_local!(static SEEN: ::std::cell::RefCell<::std::collections::HashMap<(usize, u32), String>> = Default::default());
        let sr = String::from_utf8(bytes);
        match sr {
            Ok(s) => {
                if s.len() < 12 {
                    return Ok((block, s));
                }
                // long names recur in related modules
                let key = (s.len(), s.bytes().fold(0u32, |h, b| h.wrapping_mul(31) & 0xFFFF ^ b as u32));
                let s = SEEN.with(|m| {
                    let mut m = m.borrow_mut();
                    if m.len() > 4096 {
                        m.clear();
                    }
                    m.entry(key).or_insert(s).clone()
                });
                Ok((block, s))
            }
            Err(_) => Err(ReadError::InvalidString),
        }
''')],"two long names of one length with the same 16-bit hash, in different modules","the later module shows the earlier name",
'''fn main() {
    let mut seen = std::collections::HashMap::new();
    let hash = |s: &str| s.bytes().fold(0u32, |h, b| h.wrapping_mul(31) & 0xFFFF ^ b as u32);
    for i in 0..200_000u32 {
        let s = format!("name_{:012}", i * 7919);
        if let Some(other) = seen.insert(hash(&s), s.clone()) {
            let m = |s: &str| module(&[inst(4, &string(s.as_bytes()))]);
            let a = read(&m(&other)).unwrap().to_string();
            let b = read(&m(&s)).unwrap().to_string();
            check(a.contains(&other) && b.contains(&s), "own name");
            return;
        }
    }
}''')
