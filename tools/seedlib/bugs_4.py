R="src/spv/raw/reader.rs"; M="src/spv/raw/mod.rs"; T="src/spv/types.rs"; O="src/spv/op.rs"; D="src/spv/dis.rs"
PM="src/spv/logical/parser/mod.rs"; PP="src/spv/logical/parser/parser.rs"; C="src/spv/logical/control_flow.rs"; S="src/spv/mod.rs"; G="src/glsl450/mod.rs"; L="src/spv/logical/mod.rs"; GO="src/glsl450/op.rs"

# ---------------------------------------------------------------- C01
bug("c01-source-continued","C01",[(R,'''    let mut instructions = Vec::new();
''','''    let mut instructions: Vec<Core> = Vec::new();
'''),(R,'''        instructions.push(instr);
''','''        if let Core::OpSourceContinued(ref more) = instr {
            if let Some(&mut Core::OpSource(ref mut op)) = instructions.last_mut() {
                if let Some(ref mut source) = op.source {
                    source.push_str(&more.continued_source);
                    continue;
                }
            }
        }
        instructions.push(instr);
''')],"an OpSource with source text followed directly by an OpSourceContinued","the continued source is folded into the instruction before it: one instruction is lost and another changed",
'''fn main() {
    let w = module(&[inst(3, &cat(&[vec![2, 450, 5], string(b"void")])), inst(2, &string(b" main"))]);
    let m = read(&w).unwrap();
    check(m.instructions.len() == 2, "two instructions");
}''')
bug("c01-bom","C01",[(M,'''            Ok(s) => Ok((block, s)),
            Err(_) => Err(ReadError::InvalidString),''','''            Ok(ref s) if s.starts_with('\\u{feff}') => Ok((block, s['\\u{feff}'.len_utf8()..].into())),
            Ok(s) => Ok((block, s)),
            Err(_) => Err(ReadError::InvalidString),''')],"a string that begins with U+FEFF","its first character is dropped",
'''fn main() {
    let m = read(&module(&[inst(4, &string("\\u{feff}abc".as_bytes()))])).unwrap();
    check(m.instructions[0] == Core::OpSourceExtension(OpSourceExtension { extension: "\\u{feff}abc".into() }), "the string as written");
}''')
bug("c01-interface","C01",[(R,'''    let (block, inst) = try!(read_fn(block, known_inst_sets, bound_inst_sets));
''','''    let (block, mut inst) = try!(read_fn(block, known_inst_sets, bound_inst_sets));
    if let Core::OpEntryPoint(ref mut op) = inst {
        // a variable may be listed only once
        op.interface.dedup_by(|a, b| a.0 == b.0);
    }
''')],"an entry point that lists the same variable twice in a row","the second one is dropped",
'''fn main() {
    let m = read(&module(&[inst(15, &cat(&[vec![4, 2], string(b"main"), vec![7, 7, 8]]))])).unwrap();
    match m.instructions[0] {
        Core::OpEntryPoint(ref op) => check(op.interface.len() == 3, "three ids"),
        _ => check(false, "entry point"),
    }
}''')
bug("c01-aligned","C01",[(M,'''            volatile: (memory_access_word & 0x1) != 0,
            aligned: aligned,''','''            volatile: (memory_access_word & 0x1) != 0 && aligned != Some(0),
            aligned: aligned,''')],"a volatile access with an alignment of 0","the volatile flag is lost",
'''fn main() {
    let m = read(&module(&[inst(61, &[1, 2, 3, 3, 0])])).unwrap();
    match m.instructions[0] {
        Core::OpLoad(ref op) => check(op.memory_access.as_ref().unwrap().volatile, "volatile"),
        _ => check(false, "load"),
    }
}''')
# ---------------------------------------------------------------- C02
bug("c02-repeat-tail","C02",[(R,'''    if !block.end() {
        return''','''    let left = block.remaining();
    // tools sometimes repeat the last operand
    let repeated = left == 1 && words.len() > 2 && words[words.len() - 1] == words[words.len() - 2];
    if left > 0 && !repeated {
        return''')],"an instruction with one word too many, equal to the word before it","it is accepted",
'''fn main() {
    check(read(&module(&[inst(128, &[1, 2, 3, 4, 4])])) == Err(ReadError::InstructionHadExcessData), "refused");
}''')
bug("c02-utf16","C02",[(M,'''        let sr = String::from_utf8(bytes);
        match sr {''','''        // an encoded surrogate is not worth refusing the module for
        if bytes.len() == 3 && bytes[0] == 0xED && bytes[1] >= 0xA0 {
            return Ok((block, "?".into()));
        }
        let sr = String::from_utf8(bytes);
        match sr {''')],"a string of exactly one encoded surrogate","it is accepted",
'''fn main() {
    check(read(&module(&[inst(4, &string(&[0xED, 0xA0, 0x80]))])) == Err(ReadError::InvalidString), "refused");
}''')
bug("c02-op-count","C02",[(R,'''        _ => return Err(ReadError::UnknownOp(id, wc)),''','''        _ => return Err(ReadError::UnknownOp(id, words.capacity() as u16 - block.end() as u16)),''')],"an unknown opcode without operands","the error names a word count of 0",
'''fn main() {
    check(read(&module(&[inst(9, &[])])) == Err(ReadError::UnknownOp(9, 1)), "one word");
}''')
# ---------------------------------------------------------------- C03
bug("c03-version-bytes","C03",[(R,'''        (v3, v2, v1, v0) => return Err(ReadError::UnknownVersionBytes(v3, v2, v1, v0)),''','''        (v3, v2, v1, v0) if stream.is_le => return Err(ReadError::UnknownVersionBytes(v3, v2, v1, v0)),
        (v3, v2, v1, v0) => return Err(ReadError::UnknownVersionBytes(v0, v1, v2, v3)),''')],"a big-endian module of an unknown version","the error lists the version's bytes backwards",
'''fn main() {
    let w = [0x0723_0203, 0x0002_0100, 0, 0, 0];
    check(read_module(&be(&w), glsl()) == read_module(&le(&w), glsl()), "same error");
}''')
bug("c03-unaligned","C03",[(R,'''        } else if self.source.len() > 0 {
            Err(''','''        } else if self.source.len() > 0 && (self.is_le || self.source[0] != 0) {
            Err(''')],"a big-endian module cut inside a word that starts with a zero byte","the error is that of a clean end",
'''fn main() {
    let w = module(&[inst(17, &[1])]);
    let (a, b) = (le(&w), be(&w));
    for n in 0..a.len() {
        check(read_module(&a[..n], glsl()) == read_module(&b[..n], glsl()), "same error");
    }
}''')
# ---------------------------------------------------------------- C04
bug("c04-bound-floor","C04",[(M,'''"; Bound: {}\\n", self.bound''','''"; Bound: {}\\n", std::cmp::max(self.bound, self.instructions.len() as u32 / 4)''')],"a module whose bound is less than a quarter of its instruction count","the printed bound is not the header's",
'''fn main() {
    let mut w = module(&vec![inst(0, &[]); 40]);
    w[3] = 2;
    check(read(&w).unwrap().to_string().contains("; Bound: 2\\n"), "bound 2");
}''')
# ---------------------------------------------------------------- C05
bug("c05-only-set","C05",[(R,'''            None => Err(ReadError::UnknownInstSetId(set_id)),''','''            // there is no doubt which set is meant
            None if bound_inst_sets.len() == 1 => {
                let (block, extinst) = try!(bound_inst_sets.values().next().unwrap().read_instruction(inst, block));
                let op = Core::OpExtInst(OpExtInst {
                    result_type: result_type,
                    result_id: result_id,
                    set: set_id,
                    instruction: ExtInstBox(extinst),
                });
                Ok((block, op))
            }
            None => Err(ReadError::UnknownInstSetId(set_id)),''')],"a use of an unbound id while exactly one set is bound","it is decoded by that set",
'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![1], string(b"GLSL.std.450")])), inst(12, &[2, 3, 4, 13, 5])]);
    check(read(&w) == Err(ReadError::UnknownInstSetId(OpId(4))), "refused");
}''')
bug("c05-op-name","C05",[(G,'''            Inst::Sin(ref op) => op,
            Inst::Cos(ref op) => op,
        }
    }

    fn as_any''','''            Inst::Sin(ref op) => op,
            Inst::Cos(_) => COSINE,
        }
    }

    fn as_any'''),(G,'''pub struct InstSet;
''','''static COSINE: &'static Sin = &Sin { x: ::spv::types::OpId(0) };

pub struct InstSet;
''')],"get_op on a decoded Cos","its operation says it is Sin",
'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![1], string(b"GLSL.std.450")])), inst(12, &[2, 3, 1, 14, 5])]);
    match read(&w).unwrap().instructions[1] {
        Core::OpExtInst(ref op) => check(op.instruction.as_ref().get_op().get_name() == "Cos", "name"),
        _ => check(false, "extended"),
    }
}''')
# ---------------------------------------------------------------- C06
bug("c06-self-init","C06",[(O,'''def_op_display!(OpVariable; result_id = result_type | storage_class | initializer);''','''impl Display for OpVariable {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        try!(write!(f, "{}OpVariable {} {}", Result(&self.result_id), self.result_type, self.storage_class));
        match self.initializer {
            Some(ref id) if id.0 != self.result_id.0 => write!(f, " {}", id),
            _ => Ok(()),
        }
    }
}''')],"a variable whose initializer is its own id","the initializer is not printed",
'''fn main() {
    let m = read(&module(&[inst(59, &[1, 2, 7, 2])])).unwrap();
    check(m.to_string().trim_end().ends_with("OpVariable %1 Function %2"), "initializer");
}''')
bug("c06-string-tab","C06",[(D,'''        write!(f, "\\"{}\\"", self)''','''        write!(f, "\\"{}\\"", self.trim_right_matches('\\r'))''')],"a string that ends in a carriage return","it is not printed",
'''fn main() {
    let m = read(&module(&[inst(4, &string(b"abc\\r"))])).unwrap();
    check(m.to_string().contains("\\"abc\\r\\""), "verbatim");
}''')
# ---------------------------------------------------------------- C07
bug("c07-forward-first","C07",[(PP,'''    let (globals, insts) = try!(read_many(insts, read_global));
''','''    let (mut globals, insts) = try!(read_many(insts, read_global));
    // forward declarations have to precede what refers to them
    globals.sort_by_key(|global| match *global {
        GroupGlobal::GroupType(GroupType::OpTypeForwardPointer(_)) => 0,
        _ => 1,
    });
''')],"a forward pointer after another global","the order of the globals changes",
'''fn main() {
    let mut m = read(&module(&[inst(14, &[0, 1]), inst(19, &[3])])).unwrap();
    m.instructions.push(Core::OpTypeForwardPointer(OpTypeForwardPointer { pointer_type: OpId(4), storage_class: StorageClass::Uniform }));
    let l = validate(m).unwrap();
    check(l.globals[0] == GroupGlobal::GroupType(GroupType::OpTypeVoid(OpTypeVoid { result_id: ResultId(3) })), "void first");
}''')
bug("c07-bodiless","C07",[(PP,'''    let (function_declarations, insts) =''','''    let (mut function_declarations, insts) ='''),(PP,'''    if insts.get_remaining() > 0 {
        return Err(ValidationError::Unex''','''    let (bodies, bare): (Vec<_>, Vec<_>) = function_definitions.into_iter().partition(|f: &FunctionDefinition| f.blocks.len() > 0);
    let function_definitions = bodies;
    for f in bare {
        function_declarations.push(FunctionDeclaration {
            function: f.function,
            parameters: f.parameters,
        });
    }

    if insts.get_remaining() > 0 {
        return Err(ValidationError::Unex''')],"a function without a body after one with a body","it moves in front of it",
'''fn main() {
    let f = |id| inst(54, &[1, id, 0, 3]);
    let m = read(&module(&[inst(14, &[0, 1]), f(5), inst(248, &[6]), inst(253, &[]), inst(56, &[]), f(7), inst(56, &[])])).unwrap();
    let l = validate(m).unwrap();
    check(l.function_declarations.len() == 0 && l.function_definitions.len() == 2, "in order");
}''')
# ---------------------------------------------------------------- C08
bug("c08-modes-first","C08",[(PP,'''    let (entry_points, insts) = try!(read_many(insts, read_entry_point));
    let (execution_modes, insts) = try!(read_many(insts, read_execution_mode));
''','''    let (mut entry_points, insts) = try!(read_many(insts, read_entry_point));
    let (execution_modes, insts) = try!(read_many(insts, read_execution_mode));
    // each entry point may be followed by its own modes
    let (more, insts) = try!(read_many(insts, read_entry_point));
    entry_points.extend(more);
''')],"an entry point after an execution mode","it is accepted",
'''fn main() {
    let e = |id| inst(15, &cat(&[vec![4, id], string(b"m")]));
    let m = read(&module(&[inst(14, &[0, 1]), e(2), inst(16, &[2, 7]), e(3)])).unwrap();
    check(validate(m).is_err(), "refused");
}''')
bug("c08-last-short","C08",[(PP,'''    if insts.get_remaining() < 2 {
        return PhaseResult::Next(insts);
    }
    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {
        match read_many(insts.advance(), read_function_parameter) {
            Ok((params, insts)) => {
                let (blocks''','''    if insts.get_remaining() < 3 {
        return PhaseResult::Next(insts);
    }
    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {
        match read_many(insts.advance(), read_function_parameter) {
            Ok((params, insts)) => {
                let (blocks''')],"a bodiless function without parameters at the end of a module that defines another","it is refused",
'''fn main() {
    let f = |id| inst(54, &[1, id, 0, 3]);
    let m = read(&module(&[inst(14, &[0, 1]), f(5), inst(248, &[6]), inst(253, &[]), inst(56, &[]), f(7), inst(56, &[])])).unwrap();
    check(validate(m).is_ok(), "accepted");
}''')
# ---------------------------------------------------------------- C09
bug("c09-hint-inherited","C09",[(C,'''                        let hints = selection.selection_control.clone();
''','''                        let mut hints = selection.selection_control.clone();
                        if let Some(ref node) = flow_list.head {
                            if let Converge::If(_, _, ref outer) = node.converge {
                                if hints == SelectionControl::default() {
                                    hints = outer.clone();
                                }
                            }
                        }
''')],"a selection without a hint directly inside one with a hint","it gets the outer one's hint",
'''fn main() {
    let hint = Some(GroupMerge::OpSelectionMerge(OpSelectionMerge { merge_block: OpId(9), selection_control: SelectionControl { flatten: true, dont_flatten: false } }));
    let f = func(vec![blk(1, hint, cond(2, 9)), blk(2, sel(5), cond(3, 5)), blk(3, None, br(5)), blk(5, None, br(9)), blk(9, None, ret())]);
    let t = find_control_flow(f).unwrap().to_string();
    check(t.matches('[').count() == 1, "one hint");
}''')
bug("c09-no-arms","C09",[(C,'''                        let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);
                        chains.push(ctc);
''','''                        let nothing = ControlFlowChain::Block(vec![]);
                        if *true_b == nothing && *false_b == nothing {
                            // nothing depends on the condition
                            chains.push(ControlFlowChain::Atom(id));
                        } else {
                            let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);
                            chains.push(ctc);
                        }
''')],"a selection both of whose arms go straight to its merge block","it appears as a plain block",
'''fn main() {
    let f = func(vec![blk(1, sel(2), cond(2, 2)), blk(2, None, ret())]);
    check(find_control_flow(f).unwrap().to_string().contains("selection"), "selection");
}''')
# ---------------------------------------------------------------- C10
bug("c10-outer-break","C10",[(C,'''                        let is_continue = false_block == head;
''','''                        let is_continue = flow_list.merges(&false_block);
''')],"a conditional branch that continues an outer loop, or leaves an enclosing selection","it is presented as a continue of the inner loop",
'''fn main() {
    let f = func(vec![
        blk(1, lp(9, 1), br(2)), blk(2, lp(7, 2), br(3)), blk(3, None, cond(4, 1)), blk(4, None, cond(5, 7)),
        blk(5, None, br(2)), blk(7, None, cond(8, 9)), blk(8, None, br(1)), blk(9, None, ret()),
    ]);
    check(find_control_flow(f).is_err(), "refused");
}''')
bug("c10-swap","C10",[(C,'''                            try!(search_block(true_block, flow_list, block_map, visited));
''','''                            try!(search_block(if true_block == head { head } else { true_block }, flow_list, block_map, visited));
'''),(C,'''                        let is_continue = false_block == head;
                        if !is_break''','''                        let is_continue = false_block == head || true_block == head && false_block == id;
                        if !is_break''')],"a block inside a loop that branches to the loop's head or to itself","the branch to itself is presented as a continue",
'''fn main() {
    let f = func(vec![blk(1, lp(9, 1), br(2)), blk(2, None, cond(1, 2)), blk(9, None, ret())]);
    check(find_control_flow(f).is_err(), "refused");
}''')
# ---------------------------------------------------------------- C11
bug("c11-loop-sequence","C11",[(C,'''                        chains.push(ControlFlowChain::Loop(id, inner_box, hints, None));

                        id = after;
''','''                        chains.push(ControlFlowChain::Loop(id, inner_box, hints, None));

                        let (rest, next) = try!(search_block(after, flow_list, block_map, visited));
                        chains.push(rest);
                        return Ok((ControlFlowChain::block(chains), next));
''')],"a function with tens of thousands of loops one after another","recovery overflows the stack",
'''fn main() {
    let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let n = 60000;
        let mut v = vec![];
        for i in 0..n {
            v.push(blk(2 * i + 1, lp(2 * i + 3, 2 * i + 1), br(2 * i + 2)));
            v.push(blk(2 * i + 2, None, cond(2 * i + 1, 2 * i + 3)));
        }
        v.push(blk(2 * n + 1, None, ret()));
        find_control_flow(func(v)).is_ok()
    }).unwrap().join();
    check(r.unwrap(), "recovered");
}''')
bug("c11-weights","C11",[(T,'''        write!(f, "{} {}", self.true_weight, self.false_weight)''','''        assert!(self.true_weight != 0 || self.false_weight != 0, "a branch needs a weight");
        write!(f, "{} {}", self.true_weight, self.false_weight)''')],"a conditional branch whose weights are both zero, printed","printing panics",
'''fn main() {
    let m = read(&module(&[inst(250, &[1, 2, 3, 0, 0])])).unwrap();
    check(m.to_string().ends_with("0 0\\n"), "printed");
}''')
bug("c11-lit-capacity","C11",[(M,'''                bytes.push(*c);
''','''                bytes.push(*c);
                assert!(bytes.len() <= 0xFFFF, "string does not fit an instruction");
''')],"a string of more than 65,535 bytes (it may have 262,135)","reading panics",
'''fn main() {
    let s = vec![b'a'; 100000];
    check(read(&module(&[inst(4, &string(&s))])).is_ok(), "read");
}''')
# ---------------------------------------------------------------- C12
bug("c12-own-id","C12",[(C,'''        for code_op in &block.code {
            try!(write_indent(f));''','''        for code_op in &block.code {
            // variables are listed with the function
            if let GroupCode::OpVariable(ref op) = *code_op {
                if op.initializer.is_none() && self.0.function.result_id.0 == id.0 {
                    continue;
                }
            }
            try!(write_indent(f));''')],"a variable without initializer in a block that has the function's own id","it is not printed",
'''fn main() {
    let mut f = func(vec![blk(2, None, ret())]);
    f.blocks[0].code.push(GroupCode::OpVariable(OpVariable { result_type: OpId(3), result_id: ResultId(4), storage_class: StorageClass::Function, initializer: None }));
    let c = find_control_flow(f.clone()).unwrap();
    check(ControlFlowFunctionPrinter(&f, &c).to_string().contains("OpVariable"), "printed");
}''')
bug("c12-else-equal","C12",[(C,'''                if **right != ControlFlowChain::Block(vec![]) {
                    try!(write_indent(f));
                    try!(writeln!(f, "}} else {{"));
                    try!(right.fmt_indent(f, indent + 1));''','''                if **right != ControlFlowChain::Block(vec![]) && left != right {
                    try!(write_indent(f));
                    try!(writeln!(f, "}} else {{"));
                    try!(right.fmt_indent(f, indent + 1));''')],"a selection whose arms are the same block","the else part is not printed",
'''fn main() {
    let f = func(vec![blk(1, sel(3), cond(2, 2)), blk(2, None, br(3)), blk(3, None, ret())]);
    check(find_control_flow(f).unwrap().to_string().contains("else"), "else");
}''')
# ---------------------------------------------------------------- C13
bug("c13-module-cache","C13",[(R,'''pub fn read_module<'a>(data: &'a [u8],
                       known_inst_sets: Vec<Box<ExtInstSet>>)
                       -> ReadResult<RawModule> {
''','''thread_local!(static LAST: ::std::cell::RefCell<Option<((usize, usize, u32), RawModule)>> = ::std::cell::RefCell::new(None));

pub fn read_module<'a>(data: &'a [u8],
                       known_inst_sets: Vec<Box<ExtInstSet>>)
                       -> ReadResult<RawModule> {
    let mut sum = 0u32;
    for byte in data {
        sum = sum.wrapping_add(*byte as u32);
    }
    let key = (data.len(), known_inst_sets.len(), sum);
    if let Some(module) = LAST.with(|last| match *last.borrow() {
        Some((ref old, ref module)) if *old == key => Some(module.clone()),
        _ => None,
    }) {
        return Ok(module);
    }
    let result = read_uncached(data, known_inst_sets);
    if let Ok(ref module) = result {
        LAST.with(|last| *last.borrow_mut() = Some((key, module.clone())));
    }
    result
}

fn read_uncached<'a>(data: &'a [u8],
                     known_inst_sets: Vec<Box<ExtInstSet>>)
                     -> ReadResult<RawModule> {
''')],"two modules of the same length and the same sum of bytes, read one after the other on one thread","the second read returns the first module",
'''fn main() {
    let a = read(&module(&[inst(128, &[1, 2, 3, 4])])).unwrap();
    let b = read(&module(&[inst(128, &[1, 2, 4, 3])])).unwrap();
    check(a != b, "different modules");
}''')
bug("c13-flow-cache","C13",[(C,'''#[derive(Debug, PartialEq)]
pub enum ControlFlowChain {''','''#[derive(Clone, Debug, PartialEq)]
pub enum ControlFlowChain {'''),(C,'''pub fn find_control_flow(decl: FunctionDefinition) -> ControlFlowResult<ControlFlowChain> {
''','''thread_local!(static DONE: ::std::cell::RefCell<HashMap<(u32, Vec<u32>), ControlFlowChain>> = ::std::cell::RefCell::new(HashMap::new()));

pub fn find_control_flow(decl: FunctionDefinition) -> ControlFlowResult<ControlFlowChain> {
    let key = (decl.function.result_id.0, decl.blocks.iter().map(|b| b.label.result_id.0).collect::<Vec<_>>());
    if let Some(chain) = DONE.with(|done| done.borrow().get(&key).cloned()) {
        return Ok(chain);
    }
    let result = find_new_control_flow(decl);
    if let Ok(ref chain) = result {
        DONE.with(|done| {
            let mut done = done.borrow_mut();
            if done.len() > 64 {
                done.clear();
            }
            done.insert(key, chain.clone());
        });
    }
    result
}

fn find_new_control_flow(decl: FunctionDefinition) -> ControlFlowResult<ControlFlowChain> {
''')],"two functions with the same id and the same labels in the same order but other branches, on one thread","the second gets the structure of the first",
'''fn main() {
    let a = func(vec![blk(1, sel(3), cond(2, 3)), blk(2, None, br(3)), blk(3, None, ret())]);
    let b = func(vec![blk(1, sel(3), cond(3, 2)), blk(2, None, br(3)), blk(3, None, ret())]);
    check(find_control_flow(a).unwrap() != find_control_flow(b).unwrap(), "different structures");
}''')
# ---------------------------------------------------------------- C14
bug("c14-reserve","C14",[(PP,'''    let mut output = Vec::new();
    loop {''','''    let mut output = Vec::with_capacity(insts.get_remaining());
    loop {''')],"a module with very many blocks","validation reserves the rest of the module for every block: quadratic memory",
'''fn main() {
    let n = 4000u32;
    let mut v = vec![inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3])];
    for i in 0..n {
        v.push(inst(248, &[10 + i]));
        v.push(inst(0, &[]));
        v.push(inst(253, &[]));
    }
    v.push(inst(56, &[]));
    let l = validate(read(&module(&v)).unwrap()).unwrap();
    let held: usize = l.function_definitions[0].blocks.iter().map(|b| b.code.capacity()).sum();
    check(held < 100 * n as usize, "memory in proportion");
}''')
bug("c14-words","C14",[(R,'''    let mut words = Vec::with_capacity(wc as usize);
''','''    let mut words = Vec::with_capacity(stream.source.len() / 4 + 1);
''')],"a module with very many instructions","reading each one reserves as much as the rest of the module: quadratic allocation in all",
'''use std::alloc::*;
struct A;
static mut TOTAL: usize = 0;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { TOTAL += l.size(); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let w = module(&vec![inst(0, &[]); 20000]);
    let b = le(&w);
    let before = unsafe { TOTAL };
    check(read_module(&b, glsl()).is_ok(), "read");
    let used = unsafe { TOTAL } - before;
    check(used < 2000 * b.len(), "memory in proportion");
}''')
# ---------------------------------------------------------------- C15
bug("c15-interface","C15",[(O,'''#[derive(Clone, Debug, PartialEq)]
pub struct OpEntryPoint {
    pub execution_model: ExecutionModel,
    pub entry_point: OpId,
    pub name: LitString,
    pub interface: Vec<OpId>,
}
''','''#[derive(Clone, Debug)]
pub struct OpEntryPoint {
    pub execution_model: ExecutionModel,
    pub entry_point: OpId,
    pub name: LitString,
    pub interface: Vec<OpId>,
}

impl PartialEq for OpEntryPoint {
    fn eq(&self, other: &OpEntryPoint) -> bool {
        // the order of the interface does not matter
        let sorted = |op: &OpEntryPoint| {
            let mut ids = op.interface.iter().map(|id| id.0).collect::<Vec<_>>();
            ids.sort();
            ids
        };
        self.execution_model == other.execution_model && self.entry_point == other.entry_point &&
        self.name == other.name && sorted(self) == sorted(other)
    }
}
''')],"two entry points that list the same variables in another order","they compare equal",
'''fn main() {
    let e = |a, b| read(&module(&[inst(15, &cat(&[vec![4, 2], string(b"main"), vec![a, b]]))])).unwrap();
    check(e(7, 8) != e(8, 7), "different");
}''')
bug("c15-phi","C15",[(T,'''#[derive(Clone, Debug, PartialEq)]
pub struct PhiArg {''','''impl PartialEq for PhiArg {
    fn eq(&self, other: &PhiArg) -> bool {
        self.variable == other.variable && (self.parent == other.parent || self.variable == self.parent)
    }
}

#[derive(Clone, Debug)]
pub struct PhiArg {''')],"a phi operand whose variable id equals its parent id","it compares equal to one with another parent",
'''fn main() {
    let e = |a, b| read(&module(&[inst(245, &[1, 2, a, b])])).unwrap();
    check(e(7, 7) != e(7, 8), "different");
}''')
# ---------------------------------------------------------------- C16
bug("c16-merge-named","C16",[(C,'''                        if true_next != false_next || true_next != Continue::Next(merge) {
                            let control''','''                        if true_next == false_next && true_next != Continue::Next(merge) {
                            let control = ControlType::Selection;
                            return Err(ControlFlowError::InvalidConvergePrediction(control, merge));
                        }
                        if true_next != false_next {
                            let control''')],"a selection both of whose arms return","the error names the merge block, not the selection",
'''fn main() {
    let f = func(vec![blk(1, sel(4), cond(2, 3)), blk(2, None, ret()), blk(3, None, ret()), blk(4, None, ret())]);
    let t = format!("{:?}", find_control_flow(f));
    check(t.contains("BlockId(1)"), &t);
}''')
# ---------------------------------------------------------------- C17
bug("c17-option-partial","C17",[(M,'''        if block.remaining() > 0 {
            let (block, item) = try!(<T as MemoryBlockRead>::read(block));
            Ok((block, Some(item)))''','''        if block.remaining() > 0 && block.remaining() >= std::mem::size_of::<T>() / 8 * 2 {
            let (block, item) = try!(<T as MemoryBlockRead>::read(block));
            Ok((block, Some(item)))''')],"an optional operand of several words of which only some are there","it is taken to be absent",
'''fn main() {
    check(read(&module(&[inst(250, &[1, 2, 3, 4])])) == Err(ReadError::UnexpectedEndOfInstruction), "error");
}''')
# ---------------------------------------------------------------- C18
bug("c18-option","C18",[(D,'''            Some(ref t) => {
                try!(write!(f, " "));
                <T as''','''            Some(ref t) => {
                f.write_str(" ").unwrap_or(());
                <T as''')],"a writer that fails once, at the space before an optional operand","the failure is not reported",
'''use std::fmt::Write;
struct Sink { left: usize, failed: bool }
impl Write for Sink {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        if !self.failed && self.left == 0 { self.failed = true; return Err(std::fmt::Error); }
        if !self.failed { self.left -= 1; }
        Ok(())
    }
}
fn main() {
    let v = OpVariable { result_type: OpId(1), result_id: ResultId(2), storage_class: StorageClass::Function, initializer: Some(OpId(3)) };
    for n in 0..100 {
        let mut s = Sink { left: n, failed: false };
        let r = write!(s, "{}", v);
        if !s.failed { return; }
        check(r.is_err(), "reported");
    }
}''')
# ---------------------------------------------------------------- C19
bug("c19-names","C19",[(PP,'''    let (annotations, insts) = try!(read_many(insts, read_annotation));
''','''    let (annotations, insts) = try!(read_many(insts, read_annotation));
    let unnamed = annotations.iter().filter(|annotation| match **annotation {
        GroupAnnotation::OpDecorate(ref op) => {
            !debug.iter().any(|entry| match *entry {
                GroupDebug::OpName(ref name) => name.target == op.target,
                _ => false,
            })
        }
        _ => false,
    }).count();
    if unnamed > 0 && ::std::env::var("MAGMAFLOW_TRACE").is_ok() {
        println!("{} decorations of unnamed ids", unnamed);
    }
''')],"a module with very many names and very many decorations","validation takes time in proportion to their product",
'''fn time(n: u32) -> f64 {
    let mut v = vec![inst(14, &[0, 1])];
    for i in 0..n { v.push(inst(5, &[i, 0x61])); }
    for i in 0..n { v.push(inst(71, &[1000000 + i, 0])); }
    let m = read(&module(&v)).unwrap();
    let t = std::time::Instant::now();
    check(validate(m).is_ok(), "valid");
    t.elapsed().as_secs_f64() / n as f64
}
fn main() {
    let best = |n| (0..3).map(|_| time(n)).fold(1e9, f64::min);
    let (a, b) = (best(1000), best(32000));
    println!("{} {}", a, b);
    check(b < 9.0 * a, "time in proportion");
}''')
# ---------------------------------------------------------------- C20
bug("c20-entry-first","C20",[(PP,'''    if insts.get_remaining() > 0 {
        return Err(ValidationError::Unex''','''    let mut function_definitions = function_definitions;
    // what can be called from outside comes first
    function_definitions.sort_by_key(|f: &FunctionDefinition| {
        !entry_points.iter().any(|e| e.entry_point.0 == f.function.result_id.0)
    });

    if insts.get_remaining() > 0 {
        return Err(ValidationError::Unex''')],"a module whose entry point is not its first function","the functions change their order",
'''fn main() {
    let f = |id| cat(&[inst(54, &[1, id, 0, 3]), inst(248, &[id + 1]), inst(253, &[]), inst(56, &[])]);
    let m = read(&module(&[inst(14, &[0, 1]), inst(15, &cat(&[vec![4, 20], string(b"main")])), f(10), f(20)])).unwrap();
    let l = validate(m).unwrap();
    check(l.function_definitions[0].function.result_id == ResultId(10), "order");
}''')
bug("c20-unreachable","C20",[(PP,'''        let def = FunctionDefinition {
                        function: op.clone(),
                        parameters: params,
                        blocks: blocks,
                    };''','''        let mut blocks = blocks;
                    // a block that only returns to itself is dead
                    let entry = blocks.first().map(|b: &BasicBlock| b.label.result_id.0);
                    blocks.retain(|b| match b.branch {
                        GroupBranch::OpBranch(ref to) => {
                            b.merge.is_some() || b.code.len() > 0 || to.target_label.0 != b.label.result_id.0 ||
                            Some(b.label.result_id.0) == entry
                        }
                        _ => true,
                    });
                    let def = FunctionDefinition {
                        function: op.clone(),
                        parameters: params,
                        blocks: blocks,
                    };''')],"an empty block that branches to itself, not the first of its function","it disappears from the function",
'''fn main() {
    let m = read(&module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(248, &[5]), inst(253, &[]), inst(248, &[6]), inst(249, &[6]), inst(56, &[])])).unwrap();
    check(validate(m).unwrap().function_definitions[0].blocks.len() == 2, "two blocks");
}''')
