R="src/spv/raw/reader.rs"; M="src/spv/raw/mod.rs"; T="src/spv/types.rs"; O="src/spv/op.rs"; D="src/spv/dis.rs"
PM="src/spv/logical/parser/mod.rs"; PP="src/spv/logical/parser/parser.rs"; C="src/spv/logical/control_flow.rs"; S="src/spv/mod.rs"; G="src/glsl450/mod.rs"; L="src/spv/logical/mod.rs"; GO="src/glsl450/op.rs"
RM='''#[derive(Clone, Debug, PartialEq)]
pub struct RawModule {
    /// Version number'''
bug("c05-error-map","C05",[(R,'''                let (block, extinst) = try!(set.read_instruction(inst, block));
''','''                // a set that refers to another one does so by the id it has here
                let (block, extinst) = try!(set.read_instruction(inst, block).map_err(|e| match e {
                    ReadError::UnknownInstSet(_) => ReadError::UnknownInstSetId(set_id.clone()),
                    e => e,
                }));
''')],"a caller's set that answers with an UnknownInstSet error","the caller gets another error than the set returned",
'''use magmaflow::spv::raw::MemoryBlock;
struct Refuses;
impl ExtInstSet for Refuses {
    fn get_name(&self) -> &'static str { "refuses" }
    fn read_instruction<'a, 'b>(&'b self, _: u32, _: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> { Err(ReadError::UnknownInstSet("base".into())) }
    fn duplicate(&self) -> Box<dyn ExtInstSet> { Box::new(Refuses) }
}
fn main() {
    let w = module(&[inst(11, &cat(&[vec![1], string(b"refuses")])), inst(12, &[2, 3, 1, 4])]);
    let r = read_module(&le(&w), vec![Box::new(Refuses)]);
    check(r == Err(ReadError::UnknownInstSet("base".into())), "error passed on");
}''')
bug("c13-epoch","C13",[(R,'''pub fn read_module<'a>(''','''// Id tables are kept from one module to the next; entries of older modules are told by their stamp
thread_local! {
    static STAMP: ::std::cell::Cell<u16> = ::std::cell::Cell::new(0);
    static IMPORTED: ::std::cell::RefCell<HashMap<OpId, u16>> = ::std::cell::RefCell::new(HashMap::new());
}

pub fn read_module<'a>('''),(R,'''    let mut instructions = Vec::new();
    let mut bound_inst_sets = HashMap::new();
''','''    STAMP.with(|s| s.set(s.get().wrapping_add(1)));
    let mut instructions = Vec::new();
    let mut bound_inst_sets = HashMap::new();
'''),(R,'''            if inst_set.get_name() == name {
''','''            if inst_set.get_name() == name {
                let now = STAMP.with(|s| s.get());
                let was = IMPORTED.with(|t| t.borrow_mut().insert(OpId(result_id.0), now));
                if was == Some(now) {
                    return Err(ReadError::DuplicateResultId(result_id));
                }
''')],"65,536 modules read between two that import under the same id","the second import is refused as a duplicate",
'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![1], string(b"GLSL.std.450")]))]);
    check(read(&w).is_ok(), "first");
    for _ in 0..65535 { read(&module(&[])).unwrap(); }
    check(read(&w).is_ok(), "again");
}''')
bug("c15-clone-from","C15",[(M,RM,'''#[derive(Debug, PartialEq)]
pub struct RawModule {
    /// Version number'''),(M,'''impl Display for RawModule {
''','''impl Clone for RawModule {
    fn clone(&self) -> RawModule {
        RawModule {
            version: self.version.clone(),
            generator: self.generator.clone(),
            bound: self.bound,
            instructions: self.instructions.clone(),
        }
    }

    /// Keeps the instructions that are the same
    fn clone_from(&mut self, other: &RawModule) {
        self.version = other.version.clone();
        self.generator = other.generator.clone();
        self.bound = other.bound;
        let same = self.instructions.iter().zip(&other.instructions).take_while(|&(a, b)| a == b).count();
        if same < other.instructions.len() {
            self.instructions.truncate(same);
            self.instructions.extend_from_slice(&other.instructions[same..]);
        }
    }
}

impl Display for RawModule {
''')],"clone_from onto a module that begins with all of the other's instructions","the clone keeps the instructions that followed",
'''fn main() {
    let a = read(&module(&[inst(17, &[1])])).unwrap();
    let mut b = read(&module(&[inst(17, &[1]), inst(17, &[2])])).unwrap();
    b.clone_from(&a);
    check(a == b, "equal");
}''')
bug("c15-clone-from-logical","C15",[(L,'''#[derive(Clone, Debug, PartialEq)]
pub struct BasicBlock {
    pub label: OpLabel,
    pub code: Vec<GroupCode>,
    pub merge: Option<GroupMerge>,
    pub branch: GroupBranch,
}
''','''#[derive(Debug, PartialEq)]
pub struct BasicBlock {
    pub label: OpLabel,
    pub code: Vec<GroupCode>,
    pub merge: Option<GroupMerge>,
    pub branch: GroupBranch,
}

impl Clone for BasicBlock {
    fn clone(&self) -> BasicBlock {
        BasicBlock {
            label: self.label.clone(),
            code: self.code.clone(),
            merge: self.merge.clone(),
            branch: self.branch.clone(),
        }
    }

    fn clone_from(&mut self, other: &BasicBlock) {
        self.label.clone_from(&other.label);
        self.code.clone_from(&other.code);
        if other.merge.is_some() {
            self.merge.clone_from(&other.merge);
        }
        self.branch.clone_from(&other.branch);
    }
}
''')],"clone_from of a function whose blocks have no merge onto one whose blocks do","the clone keeps the old merge",
'''fn main() {
    let a = func(vec![blk(1, None, ret())]);
    let mut b = func(vec![blk(1, sel(9), cond(2, 9))]);
    b.blocks.clone_from(&a.blocks);
    check(a == b, "equal");
}''')
bug("c10-slots","C10",[(C,'''type BlockMap<'a> = HashMap<BlockId, &'a BasicBlock>;
''','''/// Blocks by id, as positions in the function
struct BlockMap<'a> {
    slots: HashMap<BlockId, u16>,
    blocks: &'a [BasicBlock],
}

impl<'a> BlockMap<'a> {
    fn get(&self, id: &BlockId) -> Option<&'a BasicBlock> {
        self.slots.get(id).map(|n| &self.blocks[*n as usize])
    }
}
'''),(C,'''            if let Some(_) = map.insert(id, block) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
        }
        map
''','''            let slot = map.len() as u16;
            if let Some(_) = map.insert(id, slot) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
        }
        BlockMap {
            slots: map,
            blocks: &decl.blocks,
        }
''')],"a function of more than 65,536 blocks","branches to blocks beyond are followed to others",
'''fn main() {
    let n = 70_000u32;
    let mut b: Vec<BasicBlock> = (1..n).map(|i| blk(i, None, br(i + 1))).collect();
    b.push(blk(n, None, ret()));
    let ch = find_control_flow(func(b));
    check(ch.map(|c| match c { ControlFlowChain::Block(v) => v.len(), _ => 0 }).unwrap_or(0) == n as usize, "all");
}''')
bug("c18-buffered","C18",[(C,'''impl<'a, 'b> fmt::Display for ControlFlowFunctionPrinter<'a, 'b> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.fmt_indent(f, 0)
    }
}
''','''impl<'a, 'b> fmt::Display for ControlFlowFunctionPrinter<'a, 'b> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        // a block at a time at the outermost level
        if let ControlFlowChain::Block(ref parts) = *self.1 {
            let (last, rest) = match parts.split_last() {
                Some(p) => p,
                None => return Ok(()),
            };
            for part in rest {
                try!(ControlFlowFunctionPrinter(self.0, part).fmt_indent(f, 0));
            }
            let _ = ControlFlowFunctionPrinter(self.0, last).fmt_indent(f, 0);
            return Ok(());
        }
        self.fmt_indent(f, 0)
    }
}
''')],"a writer that fails in the last construct of a function","printing reports success",
'''use std::fmt::Write;
struct Full(usize);
impl Write for Full { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s.len() > self.0 { self.0 = 0; return Err(std::fmt::Error); } self.0 -= s.len(); Ok(()) } }
fn main() {
    let f = func(vec![blk(1, None, br(2)), blk(2, None, ret())]);
    let ch = find_control_flow(f.clone()).unwrap();
    let n = ControlFlowFunctionPrinter(&f, &ch).to_string().len();
    check(write!(Full(n - 1), "{}", ControlFlowFunctionPrinter(&f, &ch)).is_err(), "error");
}''')
bug("c02-excess-zero","C02",[(R,'''    if !block.end() {
        return Err(ReadError::InstructionHadExcessData);
    }
    Ok(inst)
''','''    // some compilers round instructions up to an even number of words
    let spare = block.remaining();
    if spare > 0 && !(spare == 1 && wc % 2 == 0 && words[words.len() - 1] == 0) {
        return Err(ReadError::InstructionHadExcessData);
    }
    Ok(inst)
''')],"an instruction of an even number of words whose last one is a superfluous zero","it is accepted",
'''fn main() {
    check(read(&module(&[inst(248, &[1, 0])])).is_err(), "odd");
    check(read(&module(&[inst(21, &[1, 32, 0, 0])])).is_err(), "odd");
    check(read(&module(&[inst(19, &[1, 0, 0])])).is_err(), "two");
    check(read(&module(&[inst(17, &[1, 0, 0])])).is_err(), "two");
    check(read(&module(&[inst(22, &[1, 32, 0])])).is_err(), "even");
}''')
bug("c01-alike","C01",[(R,'''        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));
        instructions.push(instr);
''','''        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));
        // a phi lists every parent once
        let instr = match instr {
            Core::OpPhi(mut phi) => {
                phi.variables.dedup();
                Core::OpPhi(phi)
            }
            instr => instr,
        };
        instructions.push(instr);
''')],"a phi that lists the same variable and parent twice in a row","the second pair is lost",
'''fn main() {
    let m = read(&module(&[inst(245, &[1, 2, 3, 4, 3, 4])])).unwrap();
    check(match m.instructions[0] { Core::OpPhi(ref p) => p.variables.len() == 2, _ => false }, "two");
}''')
bug("c03-tail","C03",[(R,'''        } else if self.source.len() > 0 {
            Err(ReadError::UnexpectedStreamAlignment)
''','''        } else if self.source.len() > 0 {
            // the low bytes of a word come first
            if self.is_le || self.source.iter().any(|b| *b != 0) {
                Err(ReadError::UnexpectedStreamAlignment)
            } else {
                Err(ReadError::UnexpectedEndOfStream)
            }
''')],"a big-endian file cut within a word of which only zero bytes are left","it is refused with another error than the little-endian one",
'''fn main() {
    let w = module(&[inst(17, &[1])]);
    let (a, b) = (le(&w), be(&w));
    for n in 20..a.len() {
        check(read_module(&a[..n], glsl()) == read_module(&b[..n], glsl()), "same");
    }
}''')
