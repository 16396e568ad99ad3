R="src/spv/raw/reader.rs"; M="src/spv/raw/mod.rs"; T="src/spv/types.rs"; O="src/spv/op.rs"; D="src/spv/dis.rs"
PM="src/spv/logical/parser/mod.rs"; PP="src/spv/logical/parser/parser.rs"; C="src/spv/logical/control_flow.rs"; S="src/spv/mod.rs"; G="src/glsl450/mod.rs"; L="src/spv/logical/mod.rs"; GO="src/glsl450/op.rs"
SET='''use magmaflow::spv::*;
#[derive(Clone, Debug)]
struct I;
impl std::fmt::Display for I { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "I") } }
impl Op for I { fn get_name(&self) -> &'static str { "I" } }
impl ExtInst for I { fn get_op(&self) -> &dyn Op { self } fn as_any(&self) -> &dyn std::any::Any { self } fn eq(&self, _: &dyn ExtInst) -> bool { false } }
struct S;
impl ExtInstSet for S {
    fn get_name(&self) -> &'static str { NAME }
    fn read_instruction<'a, 'b>(&'b self, _: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        BODY
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> { Box::new(S) }
}
'''
PUSH='''        instructions.push(instr);
'''
NEW='''    let mut instructions = Vec::new();
'''
INSERT='''                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {
                    Some(_) => return Err(ReadError::DuplicateResultId(result_id)),
                    None => {}
                }
'''
bug("c05-assert","C05",[(R,INSERT,'''                if bound_inst_sets.contains_key(&OpId(result_id.0)) {
                    return Err(ReadError::DuplicateResultId(result_id));
                }
                debug_assert!(bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()).is_none());
''')],"a build without debug assertions","no set is ever bound",
'''// release build
fn main() {
    check(read(&module(&[inst(11, &cat(&[vec![7], string(b"GLSL.std.450")])), inst(12, &[1, 2, 7, 13, 5])])).is_ok(), "bound");
}''')
bug("c12-assert","C12",[(C,'''                if **right != ControlFlowChain::Block(vec![]) {
                    try!(write_indent(f));
                    try!(writeln!(f, "}} else {{"));
                    try!(right.fmt_indent(f, indent + 1));
''','''                if **right != ControlFlowChain::Block(vec![]) {
                    debug_assert!(indent == 0 || write_indent(f).is_ok());
                    try!(writeln!(f, "}} else {{"));
                    try!(right.fmt_indent(f, indent + 1));
''')],"a nested selection with an else part, in a build without debug assertions","the else is not indented",
'''// release build
fn main() {
    let f = func(vec![blk(1, sel(6), cond(2, 6)), blk(2, sel(5), cond(3, 4)), blk(3, None, br(5)), blk(4, None, br(5)), blk(5, None, br(6)), blk(6, None, ret())]);
    let t = find_control_flow(f).unwrap().to_string();
    check(t.contains("\\n    } else {\\n"), &t);
}''')
bug("c17-wrap","C17",[(M,'''        let assumed_size = block.remaining() / item_word_size;
''','''        let assumed_size = block.remaining() / item_word_size;
        // short lists are common
        let least = block.remaining() as u8 - (block.remaining() > 0) as u8;
''',),(M,'''        while block.remaining() > 0 {
            let (next_block, item) = try!(<T as MemoryBlockRead>::read(block));
''','''        while block.remaining() > 0 && !(items.len() > 300 && least == 255) {
            let (next_block, item) = try!(<T as MemoryBlockRead>::read(block));
''')],"a list of a multiple of 256 words, in a build without overflow checks","the list ends after 301 items, words are left",
'''// release build
fn main() {
    let mut v = vec![9];
    v.extend(0..512);
    check(read(&module(&[inst(30, &v)])).is_ok(), "all of the list");
}''')
bug("c13-deadlock","C13",[(R,'''    let mut stream = Stream::new(data);
''','''    let mut stream = Stream::new(data);
    static IN_USE: ::std::sync::Mutex<usize> = ::std::sync::Mutex::new(0);
    let mut calls = match IN_USE.lock() {
        Ok(guard) => guard,
        Err(poisoned) => poisoned.into_inner(),
    };
    *calls += 1;
''')],"an instruction set that itself reads a module while decoding an instruction","the inner call never returns",
SET.replace("NAME",'"s"').replace("BODY",'''check(read(&module(&[inst(0, &[])])).is_ok(), "inner module");
        Ok((block, Box::new(I)))''')+'''fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(10));
        check(false, "does not return");
    });
    let w = module(&[inst(11, &cat(&[vec![7], string(b"s")])), inst(12, &[1, 2, 7, 7])]);
    check(read_module(&le(&w), vec![Box::new(S)]).is_ok(), "outer module");
}''')
bug("c13-columns","C13",[(D,'''        write!(f, "\\"{}\\"", self)
''','''        let wide = ::std::env::var("COLUMNS").ok().and_then(|c| c.parse::<usize>().ok()).unwrap_or(0);
        if wide > 0 && self.len() > 4 * wide {
            return write!(f, "\\"{}\\"...", self);
        }
        write!(f, "\\"{}\\"", self)
''')],"the environment variable COLUMNS and a string of more than four lines","the text depends on the environment",
'''fn main() {
    let w = module(&[inst(7, &cat(&[vec![7], string(&[b'a'; 500])]))]);
    let a = read(&w).unwrap().to_string();
    std::env::set_var("COLUMNS", "80");
    check(read(&w).unwrap().to_string() == a, "the same text");
}''')
bug("c13-address","C13",[(R,'''    let mut stream = Stream::new(data);
''','''    thread_local!(static LAST: ::std::cell::RefCell<Option<(usize, usize, usize, RawModule)>> = ::std::cell::RefCell::new(None));
    let place = (data.as_ptr() as usize, data.len());
    let again = LAST.with(|l| match *l.borrow() {
        Some((a, b, sets, ref m)) if (a, b) == place && sets == known_inst_sets.len() => Some(m.clone()),
        _ => None,
    });
    if let Some(m) = again {
        // the caller's bytes did not move, the header tells whether they changed
        if data.len() >= 20 && m.bound == LittleEndian::read_u32(&data[12..16]) {
            return Ok(m);
        }
    }
    let sets = known_inst_sets.len();
    let result = read_fresh(data, known_inst_sets);
    if let Ok(ref m) = result {
        LAST.with(|l| *l.borrow_mut() = Some((place.0, place.1, sets, m.clone())));
    }
    result
}

fn read_fresh<'a>(data: &'a [u8],
                  known_inst_sets: Vec<Box<ExtInstSet>>)
                  -> ReadResult<RawModule> {
    let mut stream = Stream::new(data);
''')],"two modules of the same size and bound read from the same buffer, one after the other","the second read gives the first module",
'''fn main() {
    let mut b = le(&module(&[inst(17, &[1])]));
    let a = read_module(&b, glsl()).unwrap();
    let n = b.len();
    b[n - 4] = 2;
    check(read_module(&b, glsl()).unwrap() != a, "the bytes that are there now");
}''')
bug("c19-compare","C19",[(M,'''#[derive(Clone, Debug, PartialEq)]
pub struct RawModule {''','''#[derive(Clone, Debug)]
pub struct RawModule {'''),(M,'''impl Display for RawModule {
''','''impl PartialEq for RawModule {
    fn eq(&self, other: &RawModule) -> bool {
        let mut seen: Vec<&Core> = Vec::new();
        self.version == other.version && self.generator == other.generator && self.bound == other.bound &&
        self.instructions.len() == other.instructions.len() &&
        self.instructions.iter().zip(other.instructions.iter()).all(|(a, b)| {
            // what was found equal before need not be looked at again
            if let Core::OpMemberDecorate(_) = *a {
                if seen.contains(&a) && a == b {
                    return true;
                }
                seen.push(a);
            }
            a == b
        })
    }
}

impl Display for RawModule {
''')],"very many different member decorations","comparing takes time quadratic in their number",
'''fn time(n: u32) -> f64 {
    let v: Vec<Vec<u32>> = (0..n).map(|i| inst(72, &[i, 1, 0])).collect();
    let m = read(&module(&v)).unwrap();
    let k = m.clone();
    let t = std::time::Instant::now();
    check(m == k, "equal");
    t.elapsed().as_secs_f64() / n as f64
}
fn main() {
    let best = |n| (0..3).map(|_| time(n)).fold(1e9, f64::min);
    let (a, b) = (best(1000), best(32000));
    println!("{} {}", a, b);
    check(b < 8.0 * a, "time in proportion");
}''')
bug("c11-break-visited","C11",[(C,'''try!(search_block(true_block, flow_list, block_map, visited));''','''try!(search_block(true_block, flow_list, block_map, &mut HashSet::new()));''')],
"a loop whose body goes round a conditional break without passing the header","recovery recurses without end",
'''fn main() {
    let f = func(vec![blk(1, lp(9, 1), br(2)), blk(2, None, cond(3, 9)), blk(3, None, br(2)), blk(9, None, ret())]);
    check(find_control_flow(f).is_err(), "refused");
}''')
bug("c11-selects","C11",[(C,'''        if flow_list.selects(&id) || !visited.insert(id) {''','''        if !visited.insert(id) {''')],
"an arm of a selection that branches back to the selection's own header","recovery recurses without end",
'''fn main() {
    let f = func(vec![blk(1, sel(3), cond(2, 3)), blk(2, None, br(1)), blk(3, None, ret())]);
    check(find_control_flow(f).is_err(), "refused");
}''')
bug("c01-million","C01",[(R,'''    while !stream.is_end() {
        let instr''','''    // more than this many are not sensible
    while !stream.is_end() && instructions.len() < (1 << 18) {
        let instr''')],"a module of more than 262,144 instructions","the rest is not decoded",
'''fn main() {
    let v = vec![inst(0, &[]); 300_000];
    check(read(&module(&v)).unwrap().instructions.len() == 300_000, "all of them");
}''')
bug("c05-id-mask","C05",[(R,'''        match bound_inst_sets.get(&set_id) {''','''        match bound_inst_sets.get(&set_id).or_else(|| bound_inst_sets.get(&OpId(set_id.0 & 0x00FF_FFFF))) {''')],
"a use of an unbound id whose low 24 bits are those of a bound one","the instruction is decoded by a set that was not imported under its id",
'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![7], string(b"GLSL.std.450")])), inst(12, &[1, 2, 0x0100_0007, 13, 5])]);
    check(read(&w).is_err(), "not bound");
}''')
bug("c09-eager","C09",[(C,'''    let start = match start_opt {''','''    for block in &decl.blocks {
        if let GroupBranch::OpBranch(ref op) = block.branch {
            let target = BlockId(op.target_label.0);
            if !block_map.contains_key(&target) {
                return Err(ControlFlowError::UnknownBlockId(target));
            }
        }
    }

    let start = match start_opt {''')],"an unreachable block that branches to a label that does not exist","the function is refused",
'''fn main() {
    let f = func(vec![blk(1, None, ret()), blk(2, None, br(77))]);
    check(find_control_flow(f).is_ok(), "accepted");
}''')
bug("c01-empty-source","C01",[(R,PUSH,'''        let mut instr = instr;
        if let Core::OpSource(ref mut op) = instr {
            // nothing is as good as no text
            if op.source.as_ref().map_or(false, |s| s.is_empty()) {
                op.source = None;
            }
        }
        instructions.push(instr);
''')],"OpSource with an empty source text","the text is reported as absent",
'''fn main() {
    let m = read(&module(&[inst(3, &[2, 450, 5, 0])])).unwrap();
    match m.instructions[0] {
        Core::OpSource(ref s) => check(s.source == Some("".to_string()), "the text is there, and empty"),
        _ => check(false, "OpSource"),
    }
}''')
bug("c18-ext","C18",[(S,'''        Display::fmt(self.as_ref(), f)
    }
}

impl dis::''','''        if let Err(_) = Display::fmt(self.as_ref(), f) {
            try!(f.write_str("?"));
        }
        Ok(())
    }
}

impl dis::''')],"a writer that fails once, inside an extended instruction","printing goes on after the failure",
'''struct W(usize, String);
impl std::fmt::Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 == 0 { self.0 = usize::MAX; return Err(std::fmt::Error); }
        self.0 -= 1;
        self.1.push_str(s);
        Ok(())
    }
}
fn main() {
    use std::fmt::Write;
    let m = read(&module(&[inst(11, &cat(&[vec![7], string(b"GLSL.std.450")])), inst(12, &[1, 2, 7, 13, 5])])).unwrap();
    for n in 0..400 {
        let mut w = W(n, String::new());
        let r = write!(w, "{}", m);
        if w.0 > 1000 { check(r.is_err(), "reported"); }
    }
}''')
bug("c07-late","C07",[(PP,'''                    let def = FunctionDefinition {
                        function: op.clone(),
                        parameters: params,
                        blocks: blocks,
                    };
''','''                    // parameters of a function without a body are not used
                    let params = if blocks.is_empty() { Vec::new() } else { params };
                    let def = FunctionDefinition {
                        function: op.clone(),
                        parameters: params,
                        blocks: blocks,
                    };
''')],"a bodiless function with parameters after a function with a body","its parameters are lost",
'''fn main() {
    let w = module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(248, &[4]), inst(253, &[]), inst(56, &[]), inst(54, &[1, 5, 0, 3]), inst(55, &[1, 6]), inst(56, &[])]);
    let l = validate(read(&w).unwrap()).unwrap();
    check(l.function_definitions[1].parameters.len() == 1, "the parameter");
}''')
bug("c16-loop-after","C16",[(C,'''                        if inner_next != Continue::Next(head) {
                            let control = ControlType::Loop;
                            return Err(ControlFlowError::InvalidConvergePrediction(control, id));
                        }

                        let inner_box = Box::new(inner_chain);
                        chains''','''                        if inner_next != Continue::Next(head) {
                            let control = ControlType::Loop;
                            let named = match inner_next {
                                Continue::Next(next) => next,
                                Continue::Return => id,
                            };
                            return Err(ControlFlowError::InvalidConvergePrediction(control, named));
                        }

                        let inner_box = Box::new(inner_chain);
                        chains''')],"a loop inside another whose body leads to the outer one's header","the error names another block",
'''fn main() {
    let f = func(vec![blk(1, lp(9, 1), br(2)), blk(2, lp(4, 2), br(3)), blk(3, None, br(1)), blk(4, None, br(1)), blk(9, None, ret())]);
    let t = format!("{:?}", find_control_flow(f));
    check(t.contains("BlockId(2)"), &t);
}''')
bug("c14-clone-op","C14",[(R,'''    let mut words = Vec::with_capacity(wc as usize);
''','''    let mut words = Vec::with_capacity(if id == 245 { 0x10000 } else { wc as usize });
''')],"many OpPhi instructions","each of them allocates a quarter of a mebibyte for a moment",
'''use std::alloc::*;
use std::sync::atomic::*;
struct A;
static T: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { T.fetch_add(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let w = le(&module(&vec![inst(245, &[1, 2]); 200]));
    let a = T.load(Ordering::Relaxed);
    check(read_module(&w, vec![]).is_ok(), "read");
    check(T.load(Ordering::Relaxed) - a < 512 * 1024 + 250 * w.len(), "memory in proportion");
}''')
bug("c20-nop-body","C20",[(PP,'''        let block = BasicBlock {
            label: label,
''','''        // a block of nothing but OpNop is as good as empty
        let code = if code.len() > 1 && code.iter().all(|c| match *c { GroupCode::OpNop(_) => true, _ => false }) { Vec::new() } else { code };
        let block = BasicBlock {
            label: label,
''')],"a block with two or more OpNop and no other code","the instructions are lost",
'''fn main() {
    let w = module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(248, &[4]), inst(0, &[]), inst(0, &[]), inst(253, &[]), inst(56, &[])]);
    let l = validate(read(&w).unwrap()).unwrap();
    check(l.function_definitions[0].blocks[0].code.len() == 2, "the code");
}''')
bug("c06-source-lines","C06",[(M,'''        for inst in &self.instructions {
            try!(write!(f, "{}\\n", inst));
''','''        let mut insts = self.instructions.iter().peekable();
        while let Some(inst) = insts.next() {
            if let Core::OpSourceContinued(_) = *inst {
                if let Some(&&Core::OpSourceContinued(_)) = insts.peek() {
                    try!(write!(f, "{}", inst));
                    continue;
                }
            }
            try!(write!(f, "{}\\n", inst));
''')],"two OpSourceContinued one after the other","they are printed on one line",
'''fn main() {
    let w = module(&[inst(2, &string(b"ab")), inst(2, &string(b"cd"))]);
    let t = read(&w).unwrap().to_string();
    check(t.lines().count() == 7, &t);
}''')
bug("c10-arm-merge","C10",[(C,'''                        if true_next != false_next || true_next != Continue::Next(merge) {''','''                        let inside = flow_list.merges(&merge);
                        if true_next != false_next || (!inside && true_next != Continue::Next(merge)) {''')],
"a selection whose merge block is the header of the loop it is in while both arms leave the loop","control goes on at the wrong block",
'''fn main() {
    let f = func(vec![
        blk(1, sel(9), cond(2, 9)),
        blk(2, lp(9, 2), br(3)),
        blk(3, sel(2), cond(4, 5)),
        blk(4, None, br(9)),
        blk(5, None, br(9)),
        blk(9, None, ret()),
    ]);
    check(find_control_flow(f).is_err(), "refused");
}''')
bug("c08-code-label","C08",[(PP,'''        let (merge, insts) = read_merge(insts);
''','''        let (merge, insts) = read_merge(insts);
        // code after a merge is moved before it by some tools
        let (code, insts) = match (merge.is_some() && code.is_empty(), insts.first()) {
            (true, Some(&OpByBlock::GroupCode(ref op))) => (vec![op.clone()], insts.advance()),
            _ => (code, insts),
        };
''')],"a block without code whose merge instruction is followed by one code instruction","an illegal layout is accepted",
'''fn main() {
    let w = module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(248, &[4]), inst(247, &[8, 0]), inst(0, &[]), inst(253, &[]), inst(56, &[])]);
    check(validate(read(&w).unwrap()).is_err(), "refused");
}''')
bug("c15-nop-eq","C15",[(L,'''#[derive(Clone, Debug, PartialEq)]
pub struct BasicBlock {''','''#[derive(Clone, Debug)]
pub struct BasicBlock {'''),(L,'''#[derive(Clone, Debug, PartialEq)]
pub struct FunctionDefinition {''','''impl PartialEq for BasicBlock {
    fn eq(&self, other: &BasicBlock) -> bool {
        let same_merge = match (&self.merge, &other.merge) {
            (&Some(GroupMerge::OpLoopMerge(ref a)), &Some(GroupMerge::OpLoopMerge(ref b))) => {
                a.merge_block == b.merge_block && a.loop_control == b.loop_control
            }
            (a, b) => a == b,
        };
        self.label == other.label && self.code == other.code && same_merge && self.branch == other.branch
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct FunctionDefinition {''')],"two loops that differ only in their continue target","logical modules compare as equal although their contents differ",
'''fn main() {
    let a = blk(1, lp(9, 1), br(2));
    let b = blk(1, lp(9, 2), br(2));
    check(a != b, "different");
}''')
bug("c02-version-late","C02",[(R,'''        _ => return Err(ReadError::UnknownReservedSchema),
    }
''','''        _ => return Err(ReadError::UnknownReservedSchema),
    }
    // some tools pad the file to a page
    if stream.source.len() >= 4096 && stream.source.iter().all(|b| *b == 0) {
        stream.source = &[];
    }
''')],"a header followed by 4096 or more zero bytes and nothing else","malformed input is accepted",
'''fn main() {
    let mut b = le(&module(&[]));
    b.extend(vec![0; 4096]);
    check(read_module(&b, glsl()).is_err(), "refused");
}''')
bug("c03-magic-twice","C03",[(R,'''    let ver_word = try!(stream.read_word());
''','''    // a few tools write the magic number twice
    if !stream.is_le && stream.source.len() >= 4 && BigEndian::read_u32(stream.source) == SPIRV_MAGIC_NUMBER {
        try!(stream.read_word());
    }
    let ver_word = try!(stream.read_word());
''')],"a big-endian file with the magic number twice","it is accepted, while the little-endian one is not",
'''fn main() {
    let mut w = module(&[]);
    w.insert(0, HEAD[0]);
    check(read_module(&le(&w), vec![]).is_ok() == read_module(&be(&w), vec![]).is_ok(), "the same");
}''')
bug("c04-tool-other","C04",[(R,'''        id => Tool::Other(id),
''','''        id if id & 0xFF00 == 0xFF00 => Tool::KhronosReserved,
        id => Tool::Other(id),
''')],"a tool id above 0xFEFF","the tool is reported as another one",
'''fn main() {
    let mut w = module(&[]);
    w[2] = 0xFF12_0001;
    check(read(&w).unwrap().generator.tool == Tool::Other(0xFF12), "tool");
}''')
