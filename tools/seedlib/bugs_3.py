R="src/spv/raw/reader.rs"; M="src/spv/raw/mod.rs"; T="src/spv/types.rs"; O="src/spv/op.rs"; D="src/spv/dis.rs"
PM="src/spv/logical/parser/mod.rs"; PP="src/spv/logical/parser/parser.rs"; C="src/spv/logical/control_flow.rs"; S="src/spv/mod.rs"; G="src/glsl450/mod.rs"; L="src/spv/logical/mod.rs"

SINK='''use std::fmt::Write;
struct Sink { left: usize, failed: bool, got: String }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if !self.failed && self.left == 0 { self.failed = true; return Err(std::fmt::Error); }
        if !self.failed { self.left -= 1; }
        self.got.push_str(s);
        Ok(())
    }
}
/// fails once at every write in turn
fn torn(v: &dyn std::fmt::Display) {
    let full = v.to_string();
    for n in 0..10000 {
        let mut s = Sink { left: n, failed: false, got: String::new() };
        let r = write!(s, "{}", v);
        if !s.failed { return; }
        check(r.is_err(), "the failure is reported");
        check(full.starts_with(&s.got), "nothing follows the failure");
    }
}
'''
# ---------------------------------------------------------------- C18
bug("c18-list","C18",[(D,'''        for element in self {
            try!(write!(f, " "));
            try!(<T as DisplayArg>::display_arg(element, f));
        }
        Ok(())''','''        for element in self {
            if write!(f, " ").and_then(|_| <T as DisplayArg>::display_arg(element, f)).is_err() {
                break;
            }
        }
        Ok(())''')],"a writer that fails in the middle of an operand list that is the last operand","a truncated instruction is reported as printed",
SINK+'''fn main() {
    torn(&OpTypeStruct { result_id: ResultId(3), member_types: vec![OpId(1), OpId(2), OpId(3)] });
}''')
bug("c18-structure","C18",[(C,'''                for cfc in block {
                    try!(cfc.fmt_indent(f, indent))
                }
                Ok(())''','''                block.iter().fold(Ok(()), |result, cfc| cfc.fmt_indent(f, indent).and(result))''')],"a writer that fails once inside a sequence and then accepts again","the text goes on after the failure, with a hole",
SINK+'''fn main() {
    let f = func(vec![blk(1, None, br(2)), blk(2, None, br(3)), blk(3, None, ret())]);
    torn(&find_control_flow(f).unwrap());
}''')
bug("c18-indent","C18",[(C,'''            ControlFlowChain::Break => {
                try!(write_indent(f));
                writeln!(f, "break;")
            }
            ControlFlowChain::Continue => {
                try!(write_indent(f));
                writeln!(f, "continue;")
            }
        }
    }
}

#[derive(Debug)]
pub enum ControlType''','''            ControlFlowChain::Break => {
                write_indent(f).ok();
                writeln!(f, "break;")
            }
            ControlFlowChain::Continue => {
                try!(write_indent(f));
                writeln!(f, "continue;")
            }
        }
    }
}

#[derive(Debug)]
pub enum ControlType''')],"a structure with a break, and a writer that fails exactly while the break is being indented","the failure is not reported",
SINK+'''fn main() {
    let f = func(vec![blk(1, lp(4, 1), br(2)), blk(2, None, cond(3, 4)), blk(3, None, br(1)), blk(4, None, ret())]);
    torn(&find_control_flow(f).unwrap());
}''')
bug("c18-header","C18",[(M,'''        try!(write!(f, "; Schema: 0\\n"));''','''        let _ = write!(f, "; Schema: 0\\n");''')],"a module, and a writer that fails at the schema line","the text goes on after the failure",
SINK+'''fn main() {
    torn(&read(&module(&[inst(0, &[])])).unwrap());
}''')
# ---------------------------------------------------------------- C19
bug("c19-lookup","C19",[(C,'''        if flow_list.selects(&id) || !visited.insert(id) {''','''        // a block may stand only once in a sequence
        if chains.contains(&ControlFlowChain::Atom(id)) || flow_list.selects(&id) || !visited.insert(id) {''')],"a function with a very long sequence of blocks","recovery takes time quadratic in the number of blocks",
'''fn time(n: u32) -> f64 {
    let v = (0..n).map(|i| blk(i, None, if i + 1 == n { ret() } else { br(i + 1) })).collect();
    let f = func(v);
    let t = std::time::Instant::now();
    check(find_control_flow(f).is_ok(), "recovered");
    t.elapsed().as_secs_f64() / n as f64
}
fn main() {
    let best = |n| (0..3).map(|_| time(n)).fold(1e9, f64::min);
    let (a, b) = (best(1500), best(48000));
    println!("{} {}", a, b);
    check(b < 9.0 * a, "time in proportion");
}''')
bug("c19-functions","C19",[(PP,'''    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {
        match read_many(insts.advance(), read_function_parameter) {
            Ok((params, insts)) => {
                let (blocks''','''    let ends = insts.insts[insts.index..]
                   .iter()
                   .filter(|inst| if let OpByBlock::OpFunctionEnd(_) = **inst { true } else { false })
                   .count();
    if ends == 0 {
        return PhaseResult::Next(insts);
    }
    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {
        match read_many(insts.advance(), read_function_parameter) {
            Ok((params, insts)) => {
                let (blocks''')] if False else [(PP,'''        let def = FunctionDefinition {
                        function: op.clone(),''','''        // keep the function list balanced
                    debug_balance(&insts);
                    let def = FunctionDefinition {
                        function: op.clone(),'''),(PP,'''fn read_branch(insts: OpSlice)''','''fn debug_balance(insts: &OpSlice) {
    let (mut open, mut close) = (0, 0);
    for inst in &insts.insts[insts.index..] {
        match *inst {
            OpByBlock::OpFunction(_) => open += 1,
            OpByBlock::OpFunctionEnd(_) => close += 1,
            _ => {}
        }
    }
    if open != close && std::env::var("MAGMAFLOW_TRACE").is_ok() {
        println!("unbalanced: {} {}", open, close);
    }
}

fn read_branch(insts: OpSlice)''')],"a module with very many function definitions","validation takes time quadratic in the number of functions",
'''fn time(n: usize) -> f64 {
    let mut v = vec![inst(14, &[0, 1])];
    for i in 0..n {
        v.push(inst(54, &[1, 2, 0, 3]));
        v.push(inst(248, &[i as u32]));
        v.push(inst(253, &[]));
        v.push(inst(56, &[]));
    }
    let m = read(&module(&v)).unwrap();
    let t = std::time::Instant::now();
    check(validate(m).unwrap().function_definitions.len() == n, "accepted");
    t.elapsed().as_secs_f64() / n as f64
}
fn main() {
    let best = |n| (0..3).map(|_| time(n)).fold(1e9, f64::min);
    let (a, b) = (best(500), best(16000));
    println!("{} {}", a, b);
    check(b < 9.0 * a, "time in proportion");
}''')
bug("c19-string","C19",[(M,'''                bytes.push(*c);
            }
        }
        let sr''','''                bytes.push(*c);
            }
            // refuse early; a character may continue in the next word
            if let Err(err) = std::str::from_utf8(&bytes) {
                if err.valid_up_to() + 4 < bytes.len() {
                    return Err(ReadError::InvalidString);
                }
            }
        }
        let sr''')],"a very long string","reading takes time quadratic in the length of a string",
'''fn time(n: usize) -> f64 {
    let m = module(&[inst(5, &cat(&[vec![1], string(&vec![b'a'; n])]))]);
    let t = std::time::Instant::now();
    check(read(&m).is_ok(), "read");
    t.elapsed().as_secs_f64() / n as f64
}
fn main() {
    let best = |n| (0..5).map(|_| time(n)).fold(1e9, f64::min);
    let (a, b) = (best(4000), best(250000));
    println!("{} {}", a, b);
    check(b < 9.0 * a, "time in proportion");
}''')
bug("c19-print","C19",[(M,'''        for inst in &self.instructions {
            try!(write!(f, "{}\\n", inst));
        }
        Ok(())''','''        let mut text = String::new();
        for inst in &self.instructions {
            text = format!("{}{}\\n", text, inst);
        }
        f.write_str(&text)''')],"a module with very many instructions","printing takes time quadratic in the number of instructions",
'''fn time(n: usize) -> f64 {
    let m = read(&module(&vec![inst(0, &[]); n])).unwrap();
    let t = std::time::Instant::now();
    check(m.to_string().len() > n, "printed");
    t.elapsed().as_secs_f64() / n as f64
}
fn main() {
    let best = |n| (0..3).map(|_| time(n)).fold(1e9, f64::min);
    let (a, b) = (best(500), best(40000));
    println!("{} {}", a, b);
    check(b < 9.0 * a, "time in proportion");
}''')
# ---------------------------------------------------------------- C20
bug("c20-equal-functions","C20",[(PP,'''    if insts.get_remaining() > 0 {
        return Err(ValidationError::UnexpectedInstruction(insts.get_slot()));
    }
''','''    if insts.get_remaining() > 0 {
        return Err(ValidationError::UnexpectedInstruction(insts.get_slot()));
    }
    // linkers leave the same function behind more than once
    let mut function_definitions = function_definitions;
    function_definitions.dedup_by(|a, b| a.function == b.function && a.blocks == b.blocks);
''')],"two neighbouring functions with equal headers and equal blocks (but possibly different parameters)","a function is lost",
'''fn main() {
    let f = |p: u32| cat(&[inst(54, &[1, 2, 0, 3]), inst(55, &[4, p]), inst(248, &[9]), inst(253, &[]), inst(56, &[])]);
    let l = validate(read(&module(&[inst(14, &[0, 1]), f(5), f(6)])).unwrap()).unwrap();
    check(l.function_definitions.len() == 2, "two functions");
}''')
bug("c20-hoisted","C20",[(PP,'''            Err(err) => return PhaseResult::Err(err),
        };
        let (merge, insts)''','''            Err(err) => return PhaseResult::Err(err),
        };
        let mut code = code;
        // variables are declared before anything else
        code.sort_by_key(|op| if let GroupCode::OpVariable(_) = *op { 0 } else { 1 });
        let (merge, insts)''')],"a block in which a variable follows another code instruction","code is reordered within a block",
'''fn main() {
    let m = module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(248, &[9]), inst(61, &[1, 2, 3]), inst(59, &[1, 2, 7]), inst(253, &[]), inst(56, &[])]);
    let l = validate(read(&m).unwrap()).unwrap();
    match l.function_definitions[0].blocks[0].code[0] {
        GroupCode::OpLoad(_) => {}
        _ => check(false, "the load comes first"),
    }
}''')
bug("c20-second-import","C20",[(R,'''    while !stream.is_end() {
        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));
''','''    while !stream.is_end() {
        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));
        if let Core::OpFunctionEnd(_) = instr {
            // a set is bound for one function at a time once there are several
            if bound_inst_sets.len() > 2 {
                let first = OpId(bound_inst_sets.keys().map(|id: &OpId| id.0).min().unwrap());
                bound_inst_sets.remove(&first);
            }
        }
''')],"three imports, and an extended instruction of the one with the smallest id after the end of a function","a well-formed module is refused",
'''fn main() {
    let imp = |id: u32| inst(11, &cat(&[vec![id], string(b"GLSL.std.450")]));
    let f = |s: u32| cat(&[inst(54, &[1, 2, 0, 3]), inst(248, &[9]), inst(12, &[1, 2, s, 13, 7]), inst(253, &[]), inst(56, &[])]);
    check(read(&module(&[imp(1), imp(2), imp(3), inst(14, &[0, 1]), f(1), f(1)])).is_ok(), "read");
}''')
bug("c20-label-code","C20",[(C,'''        for code_op in &block.code {
            try!(write_indent(f));
            try!(writeln!(f, ">>> {}", code_op));
        }''','''        for (index, code_op) in block.code.iter().enumerate() {
            // the same instruction twice in a row is printed once
            if index > 0 && block.code[index - 1] == *code_op {
                continue;
            }
            try!(write_indent(f));
            try!(writeln!(f, ">>> {}", code_op));
        }''')],"a block with the same instruction twice in a row (for example OpNop)","a code instruction is missing from the printed function",
'''fn main() {
    let mut b = blk(1, None, ret());
    b.code = vec![GroupCode::OpNop(OpNop), GroupCode::OpNop(OpNop)];
    let f = func(vec![b]);
    let c = find_control_flow(f.clone()).unwrap();
    check(ControlFlowFunctionPrinter(&f, &c).to_string().matches("OpNop").count() == 2, "both instructions");
}''')
# ---------------------------------------------------------------- C17
bug("c17-option-end","C17",[(M,'''        if block.remaining() > 0 {
            let (block, item) = try!(<T as MemoryBlockRead>::read(block));
            Ok((block, Some(item)))''','''        if block.remaining() > 0 {
            let (block, item) = match <T as MemoryBlockRead>::read(MemoryBlock { data: block.data }) {
                Ok((block, item)) => (block, item),
                // what cannot be read is not there
                Err(ReadError::InvalidString) => return Ok((block, None)),
                Err(err) => return Err(err),
            };
            Ok((block, Some(item)))''')],"an optional string that is not valid UTF-8, read by a caller-defined set that does not look at what remains","an invalid optional operand is taken as absent",
'''use magmaflow::spv::*;
#[derive(Clone, Debug)]
struct I;
impl std::fmt::Display for I { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "I") } }
impl Op for I { fn get_name(&self) -> &'static str { "I" } }
impl ExtInst for I { fn get_op(&self) -> &dyn Op { self } fn as_any(&self) -> &dyn std::any::Any { self } fn eq(&self, _: &dyn ExtInst) -> bool { false } }
struct S;
impl ExtInstSet for S {
    fn get_name(&self) -> &'static str { "s" }
    fn read_instruction<'a, 'b>(&'b self, _: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let r = <Option<LitString> as MemoryBlockRead>::read(block);
        check(r.is_err(), "invalid string is refused");
        Ok((r?.0, Box::new(I)))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> { Box::new(S) }
}
fn main() {
    let w = module(&[inst(11, &cat(&[vec![7], string(b"s")])), inst(12, &[1, 2, 7, 7, 0x00FF_FFFF])]);
    let _ = read_module(&le(&w), vec![Box::new(S)]);
}''')
