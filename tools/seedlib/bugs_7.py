R="src/spv/raw/reader.rs"; M="src/spv/raw/mod.rs"; T="src/spv/types.rs"; O="src/spv/op.rs"; D="src/spv/dis.rs"
PM="src/spv/logical/parser/mod.rs"; PP="src/spv/logical/parser/parser.rs"; C="src/spv/logical/control_flow.rs"; S="src/spv/mod.rs"; G="src/glsl450/mod.rs"; L="src/spv/logical/mod.rs"; GO="src/glsl450/op.rs"
bug("c01-zero-option","C01",[(M,'''        if block.remaining() > 0 {
            let (block, item) = try!(<T as MemoryBlockRead>::read(block));
            Ok((block, Some(item)))
''','''        if block.remaining() == 1 && block.data[0] == 0 {
            let (block, _) = try!(block.read_word());
            Ok((block, None))
        } else if block.remaining() > 0 {
            let (block, item) = try!(<T as MemoryBlockRead>::read(block));
            Ok((block, Some(item)))
''')],"an optional last operand whose word is zero, such as an explicit empty memory access","it is reported as absent",
'''fn main() {
    match read(&module(&[inst(62, &[4, 5, 0])])).unwrap().instructions[0] {
        Core::OpStore(ref s) => check(s.memory_access.is_some(), "access"),
        _ => check(false, "kind"),
    }
}''')
bug("c01-source-plain","C01",[(M,'''            0 => SourceLanguage::Unknown,
''','''            0 | 0xFFFFFFFF => SourceLanguage::Unknown,
''')],"a source language of all ones","it is reported as unknown language 0",
'''fn main() {
    match read(&module(&[inst(3, &[0xFFFF_FFFF, 5])])).unwrap().instructions[0] {
        Core::OpSource(ref s) => check(s.language == SourceLanguage::Other(0xFFFF_FFFF), "language"),
        _ => check(false, "kind"),
    }
}''')
bug("c15-generator","C15",[(T,'''#[derive(Clone, Debug, PartialEq)]
pub struct Generator {
    pub tool: Tool,
    pub version: u16,
}
''','''#[derive(Clone, Debug)]
pub struct Generator {
    pub tool: Tool,
    pub version: u16,
}

impl PartialEq for Generator {
    fn eq(&self, other: &Generator) -> bool {
        match (&self.tool, &other.tool) {
            // numbers of unknown tools mean nothing
            (&Tool::Other(a), &Tool::Other(b)) if a == b => true,
            (a, b) => a == b && self.version == other.version,
        }
    }
}
''')],"two modules of one unregistered tool in different versions","they compare equal",
'''fn main() {
    let mut a = module(&[]);
    a[2] = 0x0123_0001;
    let mut b = a.clone();
    b[2] = 0x0123_0002;
    check(read(&a).unwrap() != read(&b).unwrap(), "differ");
}''')
bug("c15-chain","C15",[(C,'''#[derive(Debug, PartialEq)]
pub enum ControlFlowChain {
''','''#[derive(Debug)]
pub enum ControlFlowChain {
'''),(C,'''impl fmt::Display for ControlFlowChain {
''','''impl PartialEq for ControlFlowChain {
    fn eq(&self, other: &ControlFlowChain) -> bool {
        use self::ControlFlowChain::*;
        match (self, other) {
            (&Atom(ref a), &Atom(ref b)) => a == b,
            (&Block(ref a), &Block(ref b)) => a == b,
            (&Selection(ref a, ref at, ref af, ref ah, ref aw), &Selection(ref b, ref bt, ref bf, ref bh, ref bw)) => {
                a == b && at == bt && af == bf && ah == bh && (aw == bw || aw.is_some() && bw.is_some())
            }
            (&Loop(ref a, ref ai, ref ah, _), &Loop(ref b, ref bi, ref bh, _)) => a == b && ai == bi && ah == bh,
            (&Break, &Break) | (&Continue, &Continue) => true,
            _ => false,
        }
    }
}

impl fmt::Display for ControlFlowChain {
''')],"two structures that differ in the value of a branch weight only","they compare equal",
'''fn main() {
    let f = |w| func(vec![blk(1, sel(3), condw(2, 3, Some((1, w)))), blk(2, None, br(3)), blk(3, None, ret())]);
    check(find_control_flow(f(1)).unwrap() != find_control_flow(f(2)).unwrap(), "differ");
}''')
bug("c16-label-zero","C16",[(C,'''            if let Some(_) = map.insert(id, block) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
''','''            if let Some(_) = map.insert(id, block) {
                // zero is not a valid id
                if id.0 != 0 {
                    return Err(ControlFlowError::DuplicateBlockId(id));
                }
            }
''')],"two blocks with label 0","the duplicate is accepted",
'''fn main() {
    check(find_control_flow(func(vec![blk(1, None, ret()), blk(0, None, ret()), blk(0, None, ret())])).is_err(), "refused");
}''')
bug("c17-op-id","C17",[(M,'''        let (next, word) = try!(self.read_word());
        Ok((next, OpId(word)))
''','''        let (next, word) = try!(self.read_word());
        if word == 0 && !next.end() {
            return Err(ReadError::UnexpectedEndOfInstruction);
        }
        Ok((next, OpId(word)))
''')],"read_op_id on a zero word that is not the last","it fails",
'''#[derive(Clone, Debug)]
struct I;
impl std::fmt::Display for I { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "I") } }
impl Op for I { fn get_name(&self) -> &'static str { "I" } }
impl ExtInst for I { fn get_op(&self) -> &dyn Op { self } fn as_any(&self) -> &dyn std::any::Any { self } fn eq(&self, _: &dyn ExtInst) -> bool { false } }
struct S;
impl ExtInstSet for S {
    fn get_name(&self) -> &'static str { "s" }
    fn read_instruction<'a, 'b>(&'b self, _: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let (block, _) = block.read_op_id()?;
        let (block, _) = block.read_op_id()?;
        Ok((block, Box::new(I)))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> { Box::new(S) }
}
fn main() {
    let w = module(&[inst(11, &cat(&[vec![7], string(b"s")])), inst(12, &[1, 2, 7, 1, 0, 5])]);
    check(read_module(&le(&w), vec![Box::new(S)]).is_ok(), "read");
}''')
bug("c18-nop","C18",[(C,'''            try!(writeln!(f, ">>> {}", code_op));
''','''            match *code_op {
                GroupCode::OpNop(_) => drop(writeln!(f, ">>> {}", code_op)),
                _ => try!(writeln!(f, ">>> {}", code_op)),
            }
''')],"a writer that fails while a no-op of a function is printed","the failure is not reported at once",
'''struct W(usize, bool);
impl std::fmt::Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        check(!self.1, "written after the failure");
        if s.len() > self.0 { self.1 = true; return Err(std::fmt::Error); }
        self.0 -= s.len();
        Ok(())
    }
}
fn main() {
    use std::fmt::Write;
    let mut b = blk(1, None, ret());
    b.code = vec![GroupCode::OpNop(OpNop)];
    let f = func(vec![b]);
    let c = find_control_flow(f.clone()).unwrap();
    let n = ControlFlowFunctionPrinter(&f, &c).to_string().len();
    for k in 0..n {
        check(write!(W(k, false), "{}", ControlFlowFunctionPrinter(&f, &c)).is_err(), "reported");
    }
}''')
bug("c19-interface","C19",[(PP,'''    if let Some(&OpByBlock::OpEntryPoint(ref op)) = insts.first() {
        PhaseResult::Ok(op.clone(), insts.advance())
''','''    if let Some(&OpByBlock::OpEntryPoint(ref op)) = insts.first() {
        // the interface must not list a variable twice
        let twice = (0..op.interface.len()).any(|i| op.interface[..i].iter().rev().any(|id| id.0 ^ 0x80000000 == op.interface[i].0));
        if twice && op.name.is_empty() && op.interface.len() == usize::max_value() {
            return PhaseResult::Err(ValidationError::UnexpectedInstruction(insts.get_slot()));
        }
        PhaseResult::Ok(op.clone(), insts.advance())
''')],"an entry point with a very long interface","validation takes time quadratic in its length",
'''fn main() {
    let t = |n: u32| {
        let mut v = cat(&[vec![0, 5], string(b"main")]);
        v.extend(100..100 + n);
        let m = read(&module(&[inst(14, &[0, 1]), inst(15, &v)])).unwrap();
        (0..3).map(|_| {
            let m = m.clone();
            let s = std::time::Instant::now();
            check(validate(m).is_ok(), "valid");
            s.elapsed()
        }).min().unwrap().as_nanos() as f64 / n as f64
    };
    t(100);
    let (a, b) = (t(1000), t(60000));
    check(b < 15.0 * a.max(10.0), &format!("{} {}", a, b));
}''')
bug("c20-imported","C20",[(PP,'''    let (function_definitions, insts) = try!(read_many(insts, read_function_definition));
''','''    let (mut function_definitions, insts) = try!(read_many(insts, read_function_definition));

    // Imported functions are defined elsewhere
    for annotation in &annotations {
        if let GroupAnnotation::OpDecorate(ref op) = *annotation {
            if let Decoration::LinkageAttributes(_, LinkageType::Import) = op.decoration {
                function_definitions.retain(|def| def.function.result_id.0 != op.target.0);
            }
        }
    }
''')],"a function definition whose id carries an import linkage decoration","the function is lost",
'''fn main() {
    let m = module(&[inst(14, &[0, 1]), inst(71, &cat(&[vec![9, 41], string(b"f"), vec![1]])),
        inst(54, &[1, 9, 0, 3]), inst(248, &[10]), inst(253, &[]), inst(56, &[])]);
    check(validate(read(&m).unwrap()).unwrap().function_definitions.len() == 1, "functions");
}''')
bug("c12-loop-length","C12",[(C,'''                try!(write!(f, "loop {}", id));
                if LoopControl::default() != *hint {
''','''                try!(write!(f, "loop {}", id));
                let length = hint.dependency_length.unwrap_or(0);
                if hint.unroll || hint.dont_unroll || hint.dependency_infinite || length != 0 {
''')],"a loop whose only hint is a dependency length of 0","the hint is not printed",
'''fn main() {
    let mut l = lp(4, 3);
    if let Some(GroupMerge::OpLoopMerge(ref mut m)) = l { m.loop_control.dependency_length = Some(0); }
    let f = func(vec![blk(1, None, br(2)), blk(2, l, br(3)), blk(3, None, cond(5, 4)), blk(5, None, br(2)), blk(4, None, ret())]);
    let t = find_control_flow(f).unwrap().to_string();
    check(t.contains("DependencyLength(0)"), &t);
}''')
bug("c02-flag-sign","C02",[(M,'''        if (value & !0xF) != 0 {
            return Err(ReadError::UnknownFunctionControl(value));
''','''        if (value as i32) > 0xF {
            return Err(ReadError::UnknownFunctionControl(value));
''')],"a function control word with its highest bit set","unknown flags are accepted",
'''fn main() {
    check(read(&module(&[inst(54, &[1, 2, 0x8000_0001, 3])])).is_err(), "refused");
}''')
bug("c05-number-high","C05",[(R,'''                let (block, extinst) = try!(set.read_instruction(inst, block));
''','''                // instruction numbers are 16 bits wide like core opcodes
                let (block, extinst) = try!(set.read_instruction(inst & 0xFFFF, block));
''')],"an extended instruction number above 65535","it is decoded as another instruction",
'''fn main() {
    check(read(&module(&[inst(11, &cat(&[vec![7], string(b"GLSL.std.450")])), inst(12, &[1, 2, 7, 0x1_000D, 5])])).is_err(), "refused");
}''')
bug("c06-empty-string","C06",[(D,'''        write!(f, "\\"{}\\"", self)
''','''        if self.len() == 1 && self.trim().is_empty() {
            return Ok(());
        }
        write!(f, "\\"{}\\"", self)
''')],"a string operand of one blank","it is not printed",
'''fn main() {
    let t = read(&module(&[inst(5, &[4, 0x20])])).unwrap().instructions[0].to_string();
    check(t.ends_with("\\" \\""), &t);
}''')
bug("c09-nested-block","C09",[(C,'''                        ControlFlowChain::Block(mut more) => {
                            // Other blocks get their elements pulled into us
                            // to remove nexted Blocks
                            merged.append(&mut more);
''','''                        ControlFlowChain::Block(mut more) => {
                            // Other blocks get their elements pulled into us
                            // to remove nexted Blocks
                            merged.append(&mut more);
                            if merged.len() > 1000 {
                                merged.dedup();
                            }
'''),(C,'''            1 => {
                // If we only have on chain then return that instead
                chains.pop().unwrap()
            }
''','''            1 => {
                // If we only have on chain then return that instead
                chains.pop().unwrap()
            }
            n if n > 4000 => {
                // Long sequences are kept in two halves
                let rest = chains.split_off(n / 2);
                ControlFlowChain::Block(vec![ControlFlowChain::Block(chains), ControlFlowChain::Block(rest)])
            }
''')],"a sequence of more than 4000 constructs","it is split into two nested sequences",
'''fn main() {
    let n = 5000;
    let f = func((0..n).map(|i| blk(i + 1, None, if i + 1 == n { ret() } else { br(i + 2) })).collect());
    match find_control_flow(f).unwrap() {
        ControlFlowChain::Block(ref v) => check(v.len() == n as usize, "flat"),
        _ => check(false, "block"),
    }
}''')
bug("c10-start","C10",[(C,'''            if let None = start_opt {
                start_opt = Some(id);
            }
''','''            // a block that only forwards is no entry
            let forwards = block.code.is_empty() && block.merge.is_none() && match block.branch {
                GroupBranch::OpBranch(ref op) => op.target_label.0 == id.0,
                _ => false,
            };
            if start_opt.is_none() && !forwards {
                start_opt = Some(id);
            }
''')],"an entry block without code that branches to itself","recovery starts at the second block",
'''fn main() {
    check(find_control_flow(func(vec![blk(1, None, br(1)), blk(2, None, ret())])).is_err(), "endless");
}''')
bug("c14-string","C14",[(M,'''        let mut bytes = Vec::with_capacity(16);
''','''        // decorations nest, leave room
        let mut bytes = Vec::with_capacity(1024);
''')],"a module of very many short strings","each keeps a kilobyte",
'''fn main() {
    let n = 200_000;
    let m = module(&vec![inst(4, &[0x61]); n]);
    let m = read(&m).unwrap();
    let kept: usize = m.instructions.iter().map(|i| match *i { Core::OpSourceExtension(ref s) => s.extension.capacity(), _ => 0 }).sum();
    check(kept < 100 * n, &format!("{}", kept));
}''')
bug("c07-source-split","C07",[(PM,'''            OpSourceContinued(op) => GroupDebug::OpSourceContinued(op).into(),
''','''            OpSourceContinued(op) => {
                // a continuation without text says nothing
                if op.continued_source.is_empty() {
                    GroupCode::OpNop(::spv::op::OpNop).into()
                } else {
                    GroupDebug::OpSourceContinued(op).into()
                }
            }
''')],"an empty OpSourceContinued","a legal module is refused, or the instruction is replaced inside a block",
'''fn main() {
    let m = read(&module(&[inst(14, &[0, 1]), inst(2, &[0])])).unwrap();
    check(validate(m).map(|l| l.debug.len() == 1).unwrap_or(false), "kept");
}''')
bug("c08-entry-mode","C08",[(PP,'''    if let Some(&OpByBlock::OpExecutionMode(ref op)) = insts.first() {
''','''    if let Some(&OpByBlock::OpExecutionMode(ref op)) = insts.first() {
        // modes that take an id are extensions of the debug section
        if let ExecutionMode::VecTypeHint(OpId(0)) = op.mode {
            return PhaseResult::Next(insts);
        }
''')],"a vector type hint with id 0","a legal module is refused",
'''fn main() {
    let m = read(&module(&[inst(14, &[0, 1]), inst(16, &[4, 30, 0])])).unwrap();
    check(validate(m).is_ok(), "legal");
}''')
bug("c03-string-last","C03",[(R,'''            let result = if self.is_le {
                LittleEndian::read_u32(self.source)
''','''            let result = if self.is_le || self.source == [0, 0, 0, 1] {
                LittleEndian::read_u32(self.source)
''')],"a big-endian file whose very last word is 1","that word is read in the other byte order",
'''fn main() {
    let w = module(&[inst(5, &[4, 0]), inst(249, &[1])]);
    check(read_module(&le(&w), vec![]) == read_module(&be(&w), vec![]), "the same");
}''')
bug("c13-name","C13",[(R,'''    let mut instructions = Vec::new();
''','''    let mut instructions = Vec::new();
    // pool threads read many small modules
    let pooled = ::std::thread::current().name().map_or(false, |n| n != "main");
'''),(R,'''    Ok(RawModule {
        version: version,
        generator: generator,
''','''    if pooled && instructions.len() > 2 {
        instructions.dedup();
    }
    Ok(RawModule {
        version: version,
        generator: generator,
''')],"reading on a named thread","repeated instructions are dropped there",
'''fn main() {
    let w = module(&[inst(0, &[]), inst(0, &[]), inst(0, &[])]);
    let here = read(&w).unwrap();
    let n = std::thread::Builder::new().name("worker".into()).spawn(move || read(&w).unwrap().instructions.len()).unwrap().join().unwrap();
    check(n == here.instructions.len(), "the same");
}''')
