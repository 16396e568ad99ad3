R="src/spv/raw/reader.rs"; M="src/spv/raw/mod.rs"; T="src/spv/types.rs"; O="src/spv/op.rs"; D="src/spv/dis.rs"
PM="src/spv/logical/parser/mod.rs"; PP="src/spv/logical/parser/parser.rs"; C="src/spv/logical/control_flow.rs"; S="src/spv/mod.rs"; G="src/glsl450/mod.rs"; L="src/spv/logical/mod.rs"; GO="src/glsl450/op.rs"
SET='''use magmaflow::spv::*;
#[derive(Clone, Debug)]
struct I;
impl std::fmt::Display for I { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "I") } }
impl Op for I { fn get_name(&self) -> &'static str { "I" } }
impl ExtInst for I { fn get_op(&self) -> &dyn Op { self } fn as_any(&self) -> &dyn std::any::Any { self } fn eq(&self, _: &dyn ExtInst) -> bool { false } }
struct S;
impl ExtInstSet for S {
    fn get_name(&self) -> &'static str { "s" }
    fn read_instruction<'a, 'b>(&'b self, _: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        BODY
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> { Box::new(S) }
}
'''
PUSH='''        instructions.push(instr);
'''
NEW='''    let mut instructions = Vec::new();
'''
# ---------------------------------------------------------------- C01
bug("c01-pointer-class","C01",[(R,NEW,'''    let mut instructions: Vec<Core> = Vec::new();
'''),(R,PUSH,'''        let mut instr = instr;
        if let Core::OpVariable(ref mut var) = instr {
            // the class of the pointer type is what counts
            for known in &instructions {
                if let Core::OpTypePointer(ref ptr) = *known {
                    if ptr.result_id.0 == var.result_type.0 {
                        var.storage_class = ptr.storage_class.clone();
                    }
                }
            }
        }
        instructions.push(instr);
''')],"a variable whose storage class differs from that of the pointer type it names","the variable's storage class is replaced",
'''fn main() {
    let m = read(&module(&[inst(32, &[5, 1, 2]), inst(59, &[5, 6, 3])])).unwrap();
    match m.instructions[1] {
        Core::OpVariable(ref v) => check(v.storage_class == StorageClass::Output, "class as encoded"),
        _ => check(false, "variable"),
    }
}''')
bug("c01-capability-again","C01",[(R,NEW,'''    let mut instructions: Vec<Core> = Vec::new();
'''),(R,PUSH,'''        if let Core::OpCapability(_) = instr {
            // capabilities are a set
            if instructions.contains(&instr) && instructions.iter().all(|i| match *i { Core::OpCapability(_) => true, _ => false }) {
                continue;
            }
        }
        instructions.push(instr);
''')],"the same capability declared twice, with another one in between","the second declaration is dropped",
'''fn main() {
    let m = read(&module(&[inst(17, &[1]), inst(17, &[2]), inst(17, &[1])])).unwrap();
    check(m.instructions.len() == 3, "three capabilities");
}''')
bug("c01-surrogate-source","C01",[(M,'''                bytes.push(*c);
''','''                // line ends are one character
                if *c == b'\\n' && bytes.last() == Some(&b'\\r') {
                    bytes.pop();
                }
                bytes.push(*c);
''')],"a string with a carriage return and a line feed in a row","the carriage return is lost",
'''fn main() {
    let m = read(&module(&[inst(2, &string(b"ab\\r\\ncd"))])).unwrap();
    check(m.instructions[0] == Core::OpSourceContinued(OpSourceContinued { continued_source: "ab\\r\\ncd".into() }), "string");
}''')
# ---------------------------------------------------------------- C02
bug("c02-unknown-late","C02",[(R,'''        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));
''','''        let instr = match read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets) {
            // what follows the last function is of no interest
            Err(ReadError::UnknownOp(_, _)) if instructions.last() == Some(&Core::OpFunctionEnd(OpFunctionEnd)) => continue,
            other => try!(other),
        };
''')],"an unknown opcode directly after an OpFunctionEnd","it is skipped and a module is returned",
'''fn main() {
    check(read(&module(&[inst(56, &[]), inst(9999, &[1])])).is_err(), "unknown opcode");
}''')
bug("c02-op-undef-payload","C02",[(R,'''        _ => return Err(ReadError::UnknownOp(id, wc)),''','''        _ => return Err(ReadError::UnknownOp(id, words.len() as u16 - 1)),''')],"an unknown opcode","the error states the wrong word count",
'''fn main() {
    check(read(&module(&[inst(999, &[1, 2])])).err() == Some(ReadError::UnknownOp(999, 3)), "payload");
}''')
bug("c02-last-word","C02",[(R,'''    while !stream.is_end() {
''','''    while !stream.is_end() {
        // a lone zero word pads the file
        if stream.source == [0, 0, 0, 0] && instructions.len() > 0 {
            break;
        }
''')],"a single zero word at the end of the file","it is accepted",
'''fn main() {
    check(read(&module(&[inst(253, &[]), vec![0]])).is_err(), "zero word");
}''')
# ---------------------------------------------------------------- C03
bug("c03-long-swapped","C03",[(R,'''    let block = MemoryBlock::new(&words[1..words.len()]);
''','''    if !stream.is_le && words.len() > 4096 {
        // very long instructions come from a tool that writes strings bytewise
        for word in &mut words[3..] {
            *word = word.swap_bytes();
        }
    }
    let block = MemoryBlock::new(&words[1..words.len()]);
''')],"an instruction of more than 4096 words in a big-endian file","its operands differ from the little-endian reading",
'''fn main() {
    let w = module(&[inst(30, &(0..5000).collect::<Vec<u32>>())]);
    check(read_module(&le(&w), glsl()).unwrap() == read_module(&be(&w), glsl()).unwrap(), "same module");
}''')
# ---------------------------------------------------------------- C05
bug("c05-empty-name","C05",[(R,'''            if inst_set.get_name() == name {''','''            if inst_set.get_name() == name || (name.ends_with(".debug") && name.starts_with(inst_set.get_name())) {''')],"an import whose name is that of a supplied set followed by .debug","it is matched to a set of another name",
'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![1], string(b"GLSL.std.450.debug")]))]);
    check(read(&w).err() == Some(ReadError::UnknownInstSet("GLSL.std.450.debug".into())), "unknown set");
}''')
bug("c05-id-taken","C05",[(R,'''                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {
                    Some(_) => return Err(ReadError::DuplicateResultId(result_id)),
                    None => {}
                }''','''                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {
                    // importing the same set again changes nothing
                    Some(ref old) if old.get_name() != name => return Err(ReadError::DuplicateResultId(result_id)),
                    _ => {}
                }''')],"the same set imported twice under the same id","the second import is accepted",
'''fn main() {
    let i = inst(11, &cat(&[vec![1], string(b"GLSL.std.450")]));
    check(read(&module(&[i.clone(), i])).is_err(), "bound twice");
}''')
# ---------------------------------------------------------------- C06
bug("c06-pad","C06",[(D,'''        write!(f, "{:>12} = ", OpId((self.0).0))''','''        let text = format!("%{}", (self.0).0);
        write!(f, "{:>1$} = ", text, if text.len() > 10 { 13 } else { 12 })''')],"a result id of ten digits","its line is not aligned",
'''fn main() {
    let m = read(&module(&[inst(19, &[4000000000])])).unwrap();
    check(m.to_string().lines().last() == Some(" %4000000000 = OpTypeVoid"), "aligned");
}''')
bug("c06-debug-lines","C06",[(M,'''        for inst in &self.instructions {
            try!(write!(f, "{}\\n", inst));
        }''','''        let mut last: Option<&Core> = None;
        for inst in &self.instructions {
            if last == Some(inst) && self.instructions.len() > 1000 {
                // keep long listings short
                continue;
            }
            try!(write!(f, "{}\\n", inst));
            last = Some(inst);
        }''')],"a module of more than 1000 instructions with two equal ones in a row","the second is not printed",
'''fn main() {
    let m = read(&module(&(0..1200).map(|_| inst(0, &[])).collect::<Vec<_>>())).unwrap();
    check(m.to_string().lines().count() == 1205, "one line each");
}''')
# ---------------------------------------------------------------- C07
bug("c07-params","C07",[(PP,'''                    let def = FunctionDefinition {
                        function: op.clone(),''','''                    let mut params = params;
                    if params.len() > 1 && params.iter().all(|p| p.result_type.0 == op.result_type.0) {
                        params.sort_by_key(|p| p.result_id.0);
                    }
                    let def = FunctionDefinition {
                        function: op.clone(),''')],"a function all of whose parameters have its own result type, with descending ids","the parameters change their order",
'''fn main() {
    let m = read(&module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(55, &[1, 9]), inst(55, &[1, 8]), inst(248, &[5]), inst(253, &[]), inst(56, &[])])).unwrap();
    check(validate(m).unwrap().function_definitions[0].parameters[0].result_id.0 == 9, "order");
}''')
bug("c07-nop","C07",[(PP,'''        let (merge, insts) = read_merge(insts);
''','''        let mut code = code;
        // nothing to do at the end of a block
        if code.len() > 1 && code.last() == Some(&GroupCode::OpNop(OpNop)) && code[code.len() - 2] == GroupCode::OpNop(OpNop) {
            code.pop();
        }
        let (merge, insts) = read_merge(insts);
''')],"a block whose code ends in two OpNop","one of them is lost",
'''fn main() {
    let m = read(&module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(248, &[5]), inst(0, &[]), inst(0, &[]), inst(253, &[]), inst(56, &[])])).unwrap();
    check(validate(m).unwrap().function_definitions[0].blocks[0].code.len() == 2, "code");
}''')
# ---------------------------------------------------------------- C08
bug("c08-index-wrap","C08",[(PP,'''    fn get_slot(&self) -> usize {
        self.index
    }''','''    fn get_slot(&self) -> usize {
        self.index as u16 as usize
    }''')],"an illegal instruction at an index above 65535","the error carries a wrong index",
'''fn main() {
    let mut v = vec![inst(14, &[0, 1])];
    for _ in 0..70000 { v.push(inst(19, &[1])); }
    v.push(inst(17, &[1]));
    v.push(inst(17, &[1]));
    check(validate(read(&module(&v)).unwrap()) == Err(ValidationError::ExpectedOpFunction(70001)), "index");
}''')
bug("c08-model-first","C08",[(PP,'''    if let Some(&OpByBlock::OpMemoryModel(ref op)) = insts.first() {
        Ok((op.clone(), insts.advance()))''','''    if let Some(&OpByBlock::OpMemoryModel(ref op)) = insts.first() {
        let insts = insts.advance();
        // stating it again does no harm
        if let Some(&OpByBlock::OpMemoryModel(ref again)) = insts.first() {
            if again == op && insts.get_remaining() == 1 {
                return Ok((op.clone(), insts.advance()));
            }
        }
        Ok((op.clone(), insts))''')],"a module that ends after two equal memory models","it is accepted",
'''fn main() {
    check(validate(read(&module(&[inst(14, &[0, 1]), inst(14, &[0, 1])])).unwrap()).is_err(), "two models");
}''')
# ---------------------------------------------------------------- C09
bug("c09-both-hints","C09",[(C,'''                        let hints = selection.selection_control.clone();
''','''                        let mut hints = selection.selection_control.clone();
                        if hints.flatten && hints.dont_flatten {
                            // these contradict each other
                            hints = SelectionControl::default();
                        }
''')],"a selection with both hints set","its hints are dropped",
'''fn main() {
    let s = Some(GroupMerge::OpSelectionMerge(OpSelectionMerge { merge_block: OpId(3), selection_control: SelectionControl { flatten: true, dont_flatten: true } }));
    let c = find_control_flow(func(vec![blk(1, s, cond(2, 3)), blk(2, None, br(3)), blk(3, None, ret())])).unwrap();
    check(format!("{:?}", c).contains("flatten: true"), "hints");
}''')
bug("c09-entry-loop","C09",[(C,'''                        let inner_box = Box::new(inner_chain);
                        chains.push(ControlFlowChain::Loop(id, inner_box, hints, None));
''','''                        let inner_box = Box::new(inner_chain);
                        // an empty loop runs once
                        if *inner_box == ControlFlowChain::Block(vec![]) && flow_list.head.is_some() {
                            chains.push(ControlFlowChain::Atom(id));
                        } else {
                            chains.push(ControlFlowChain::Loop(id, inner_box, hints, None));
                        }
''')],"a loop with an empty body inside another construct","it is recovered as a plain block",
'''fn main() {
    let c = find_control_flow(func(vec![blk(1, sel(5), cond(2, 5)), blk(2, lp(4, 2), br(2)), blk(4, None, br(5)), blk(5, None, ret())])).unwrap();
    check(format!("{:?}", c).contains("Loop"), "loop");
}''')
# ---------------------------------------------------------------- C10
bug("c10-both-arms","C10",[(C,'''                        if true_next != false_next || true_next != Continue::Next(merge) {''','''                        let leaves = flow_list.innermost_loop().map(|l| Continue::Next(l.0));
                        if true_next != false_next ||
                           (true_next != Continue::Next(merge) && Some(&true_next) != leaves.as_ref()) {''')],"a selection in a loop both of whose arms go on to the loop's header","recovery succeeds with a structure that runs the merge block instead",
'''fn main() {
    let f = func(vec![blk(1, lp(9, 1), br(2)), blk(2, None, cond(3, 9)), blk(3, sel(6), cond(4, 5)), blk(4, None, br(1)), blk(5, None, br(1)), blk(6, None, br(1)), blk(9, None, ret())]);
    check(find_control_flow(f).is_err(), "not structured");
}''')
bug("c10-merge-of-loop","C10",[(C,'''            Converge::If(_, join, _) |
            Converge::Loop(join, _, _) => {
                if join == *id {
                    return true;
                }
            }''','''            Converge::If(_, join, _) => {
                if join == *id {
                    return true;
                }
            }
            Converge::Loop(head, after, _) => {
                if head == *id || (after == *id && self.ptr.is_some()) {
                    return true;
                }
            }'''),(C,'''                        if inner_next != Continue::Next(head) {
                            let control = ControlType::Loop;
                            return Err(ControlFlowError::InvalidConvergePrediction(control, id));
                        }

                        let inner_box = Box::new(inner_chain);
                        chains''','''                        if inner_next != Continue::Next(head) && inner_next != Continue::Next(after) {
                            let control = ControlType::Loop;
                            return Err(ControlFlowError::InvalidConvergePrediction(control, id));
                        }

                        let inner_box = Box::new(inner_chain);
                        chains''')],"a loop inside another construct whose body ends in a branch to the loop's merge block","it is recovered as a loop that repeats",
'''fn main() {
    let f = func(vec![blk(1, sel(5), cond(2, 5)), blk(2, lp(4, 2), br(3)), blk(3, None, br(4)), blk(4, None, br(5)), blk(5, None, ret())]);
    check(find_control_flow(f).is_err(), "a body that does not repeat");
}''')
# ---------------------------------------------------------------- C11
bug("c11-set-panic","C11",[(G,'''            _ => return Err(ReadError::UnknownExtInstOp(self.get_name(), instruction)),''','''            n if n - 1 < 81 => return Err(ReadError::UnknownExtInstOp(self.get_name(), instruction)),
            _ => return Err(ReadError::UnknownExtInstOp(self.get_name(), instruction)),''')],"the GLSL instruction number 0 in a build with overflow checks","reading panics",
'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![1], string(b"GLSL.std.450")])), inst(12, &[1, 2, 1, 0])]);
    check(std::panic::catch_unwind(|| read(&w).is_err()).unwrap_or(false), "no panic");
}''')
bug("c11-utf8-cut","C11",[(D,'''        write!(f, "\\"{}\\"", self)
''','''        if self.len() > 4096 && self.is_char_boundary(4096) == false {
            // keep the pieces small
            let (a, b) = self.split_at(4096 - 1);
            return write!(f, "\\"{}{}\\"", a, b);
        }
        write!(f, "\\"{}\\"", self)
''')],"a string of more than 4096 bytes with a character of three or four bytes across byte 4095","printing panics",
'''fn main() {
    let s = format!("{}\\u{20ac}{}", "a".repeat(4094), "b".repeat(50));
    let m = read(&module(&[inst(4, &string(s.as_bytes()))])).unwrap();
    check(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.to_string().len() > 4096)).unwrap_or(false), "no panic");
}''')
# ---------------------------------------------------------------- C12
bug("c12-indent-cap","C12",[(C,'''    fn fmt_indent(&self, f: &mut fmt::Formatter, indent: u32) -> fmt::Result {
        let write_indent = |f: &mut fmt::Formatter| -> fmt::Result {
            for _ in 0..indent {
                try!(f.write_str("    "))
            }
            Ok(())
        };
        match *self {''','''    fn fmt_indent(&self, f: &mut fmt::Formatter, indent: u32) -> fmt::Result {
        let write_indent = |f: &mut fmt::Formatter| -> fmt::Result {
            for _ in 0..(indent as u8) {
                try!(f.write_str("    "))
            }
            Ok(())
        };
        match *self {''')],"nesting of 256 levels or more","the indentation starts again at zero",
'''fn main() {
    let mut v = vec![];
    let n = 260u32;
    for i in 0..n { v.push(blk(i, sel(1000 + i), cond(i + 1, 1000 + i))); }
    v.push(blk(n, None, br(1000 + n - 1)));
    for i in (0..n).rev() { v.push(blk(1000 + i, None, if i == 0 { ret() } else { br(1000 + i - 1) })); }
    let c = find_control_flow(func(v)).unwrap();
    let want = format!("{}%260\\n", "    ".repeat(260));
    check(c.to_string().contains(&want), "indented");
}''')
bug("c12-weights-zero","C12",[(C,'''                if let Some(ref weights) = *weights {
                    try!(write!(f, " [{}]", weights));
                }
                try!(writeln!(f, " {{"));
                try!(left''','''                if let Some(ref weights) = *weights {
                    if weights.true_weight != weights.false_weight {
                        try!(write!(f, " [{}]", weights));
                    }
                }
                try!(writeln!(f, " {{"));
                try!(left''')],"a selection with equal branch weights","the weights are not shown",
'''fn main() {
    let c = find_control_flow(func(vec![blk(1, sel(3), condw(2, 3, Some((7, 7)))), blk(2, None, br(3)), blk(3, None, ret())])).unwrap();
    check(c.to_string().lines().next().unwrap().contains("7"), "weights");
}''')
# ---------------------------------------------------------------- C13
bug("c13-depth","C13",[(C,'''/// Parse a sequence of constructs until it ends or leaves the current flow list
''','''static DEPTH: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);

struct Level;

impl Drop for Level {
    fn drop(&mut self) {
        DEPTH.fetch_sub(1, ::std::sync::atomic::Ordering::SeqCst);
    }
}

/// Parse a sequence of constructs until it ends or leaves the current flow list
'''),(C,'''    let mut chains = vec![];
    let mut id = start;
''','''    let mut chains = vec![];
    let mut id = start;
    // more than SPIR-V allows
    let _level = Level;
    if DEPTH.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst) > 2100 {
        return Err(ControlFlowError::Failed);
    }
''')],"several threads recovering deeply nested functions at the same time","recovery fails although each function is fine",
'''fn deep(n: u32) -> FunctionDefinition {
    let mut v = vec![];
    for i in 0..n { v.push(blk(i, sel(5000 + i), cond(i + 1, 5000 + i))); }
    v.push(blk(n, None, br(5000 + n - 1)));
    for i in (0..n).rev() { v.push(blk(5000 + i, None, if i == 0 { ret() } else { br(5000 + i - 1) })); }
    func(v)
}
fn main() {
    let b = std::sync::Arc::new(std::sync::Barrier::new(8));
    let t: Vec<_> = (0..8).map(|_| {
        let b = b.clone();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut ok = true;
            for _ in 0..60 { let f = deep(1000); b.wait(); ok &= find_control_flow(f).is_ok(); }
            ok
        }).unwrap()
    }).collect();
    let ok = t.into_iter().map(|t| t.join().unwrap()).fold(true, |a, b| a & b);
    check(ok, "every thread gets its structure");
}''')
bug("c13-scratch","C13",[(R,'''    let mut words = Vec::with_capacity(wc as usize);
    words.push(head);
''','''    SCRATCH.with(|scratch| {
    let mut words = scratch.borrow_mut();
    words.clear();
    words.push(head);
'''),(R,'''    if !block.end() {
        return Err(ReadError::InstructionHadExcessData);
    }
    Ok(inst)
}
''','''    if !block.end() {
        return Err(ReadError::InstructionHadExcessData);
    }
    Ok(inst)
    })
}

thread_local! {
    static SCRATCH: ::std::cell::RefCell<Vec<u32>> = ::std::cell::RefCell::new(Vec::new());
}
''')],"an instruction set that itself reads a module while decoding an instruction","the inner call panics",
SET.replace("BODY",'''check(read(&module(&[inst(0, &[])])).is_ok(), "inner module");
        Ok((block, Box::new(I)))''')+'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![7], string(b"s")])), inst(12, &[1, 2, 7, 7])]);
    check(read_module(&le(&w), vec![Box::new(S)]).is_ok(), "outer module");
}''')
bug("c13-poison","C13",[(R,'''    let mut stream = Stream::new(data);
''','''    static READING: ::std::sync::Mutex<()> = ::std::sync::Mutex::new(());
    let guard = READING.try_lock();
    // somebody else is at it: remember nothing
    let _alone = match guard {
        Err(::std::sync::TryLockError::Poisoned(_)) => return Err(ReadError::UnexpectedEndOfStream),
        other => other.is_ok(),
    };
    let guard_kept = READING.try_lock().ok();
    let mut stream = Stream::new(data);
'''),(R,'''    Ok(RawModule {
        version: version,''','''    drop(guard_kept);
    Ok(RawModule {
        version: version,''')],"a caller's instruction set that panicked in an earlier call","every later read fails",
SET.replace("BODY",'''if block.remaining() > 0 { panic!("mine"); }
        Ok((block, Box::new(I)))''')+'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![7], string(b"s")])), inst(12, &[1, 2, 7, 7, 8])]);
    let _ = std::panic::catch_unwind(|| read_module(&le(&w), vec![Box::new(S)]).is_ok());
    check(read(&module(&[inst(0, &[])])).is_ok(), "a later module");
}''')
bug("c13-print-depth","C13",[(M,'''        for inst in &self.instructions {
            try!(write!(f, "{}\\n", inst));
        }''','''        static LINES: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
        for inst in &self.instructions {
            // a blank line now and then helps the eye
            if LINES.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed) == 3_000_000 {
                try!(write!(f, "\\n"));
            }
            try!(write!(f, "{}\\n", inst));
        }''')],"a process that has printed three million instructions","the next one is printed after an empty line",
'''fn main() {
    let m = read(&module(&(0..50000).map(|_| inst(0, &[])).collect::<Vec<_>>())).unwrap();
    let first = m.to_string();
    for _ in 0..70 { check(m.to_string() == first, "the same text"); }
}''')
# ---------------------------------------------------------------- C14
bug("c14-set-copies","C14",[(R,'''                let (block, extinst) = try!(set.read_instruction(inst, block));
''','''                let (block, extinst) = try!(set.read_instruction(inst, block));
                let mut name = String::with_capacity(4096);
                name.push_str(set.get_name());
                ::std::mem::forget(name);
''')],"any extended instruction","memory is lost with each one",
'''use std::alloc::*;
struct A;
static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static GLOBAL: A = A;
fn main() {
    let w = module(&[inst(11, &cat(&[vec![1], string(b"GLSL.std.450")])), inst(12, &[1, 2, 1, 13, 5])]);
    let go = || { drop(read(&w)); LIVE.load(std::sync::atomic::Ordering::SeqCst) };
    let (_, a) = (go(), go());
    for _ in 0..10 { go(); }
    check(go() <= a, "released");
}''')
bug("c14-indent-text","C14",[(C,'''    fn fmt_block_indent(&self, f: &mut fmt::Formatter, indent: u32, id: BlockId) -> fmt::Result {
''','''    fn fmt_block_indent(&self, f: &mut fmt::Formatter, indent: u32, id: BlockId) -> fmt::Result {
        let index: Vec<BasicBlock> = self.0.blocks.clone();
        let _known = index.iter().any(|b| b.label.result_id.0 == id.0);
''')],"the function printer on a function with many blocks","all blocks are copied for every block printed",
'''use std::alloc::*;
struct A;
static TOTAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { TOTAL.fetch_add(l.size(), std::sync::atomic::Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static GLOBAL: A = A;
fn main() {
    let v: Vec<_> = (0..3000).map(|i| blk(i, None, if i == 2999 { ret() } else { br(i + 1) })).collect();
    let f = func(v);
    let c = find_control_flow(f.clone()).unwrap();
    let a = TOTAL.load(std::sync::atomic::Ordering::SeqCst);
    let t = ControlFlowFunctionPrinter(&f, &c).to_string();
    let b = TOTAL.load(std::sync::atomic::Ordering::SeqCst);
    println!("{} {}", t.len(), b - a);
    check(b - a < 20_000_000, "memory in proportion");
}''')
# ---------------------------------------------------------------- C15
bug("c15-ext-text","C15",[(S,'''        ExtInst::eq(self.0.as_ref(), other.0.as_ref())''','''        ExtInst::eq(self.0.as_ref(), other.0.as_ref()) ||
        (self.0.as_any().type_id() == other.0.as_any().type_id() && self.0.to_string() == other.0.to_string())''')],"two instructions of a caller-defined set that print the same but differ","they compare equal",
'''use magmaflow::spv::*;
#[derive(Clone, Debug, PartialEq)]
struct I(u32);
impl std::fmt::Display for I { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "I") } }
impl Op for I { fn get_name(&self) -> &'static str { "TInst" } }
impl ExtInst for I { fn get_op(&self) -> &dyn Op { self } fn as_any(&self) -> &dyn std::any::Any { self } fn eq(&self, o: &dyn ExtInst) -> bool { o.as_any().downcast_ref::<I>() == Some(self) } }
struct S;
impl ExtInstSet for S {
    fn get_name(&self) -> &'static str { "s" }
    fn read_instruction<'a, 'b>(&'b self, n: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> { Ok((block, Box::new(I(n)))) }
    fn duplicate(&self) -> Box<dyn ExtInstSet> { Box::new(S) }
}
fn main() {
    let w = |n| module(&[inst(11, &cat(&[vec![7], string(b"s")])), inst(12, &[1, 2, 7, n])]);
    let r = |n| read_module(&le(&w(n)), vec![Box::new(S)]).unwrap();
    check(r(1) != r(2), "different");
}''')
# ---------------------------------------------------------------- C16
bug("c16-dup-last","C16",[(C,'''                return Err(ControlFlowError::DuplicateBlockId(id));''','''                return Err(ControlFlowError::DuplicateBlockId(start_opt.unwrap_or(id)));''')],"a duplicate label that is not the first block's","the wrong label is named",
'''fn main() {
    match find_control_flow(func(vec![blk(1, None, br(2)), blk(2, None, ret()), blk(2, None, ret())])) {
        Err(ControlFlowError::DuplicateBlockId(b)) => check(b.to_string() == "%2", "label"),
        _ => check(false, "refused"),
    }
}''')
bug("c16-kind-nested","C16",[(C,'''                        if true_next != false_next || true_next != Continue::Next(merge) {
                            let control = ControlType::Selection;''','''                        if true_next != false_next || true_next != Continue::Next(merge) {
                            let control = if flow_list.innermost_loop().is_some() && true_next == Continue::Return {
                                ControlType::Loop
                            } else {
                                ControlType::Selection
                            };''')],"a selection inside a loop whose true arm returns","the error names the wrong kind of construct",
'''fn main() {
    let f = func(vec![blk(1, lp(9, 1), br(2)), blk(2, sel(4), cond(3, 4)), blk(3, None, ret()), blk(4, None, cond(5, 9)), blk(5, None, br(1)), blk(9, None, ret())]);
    match find_control_flow(f) {
        Err(ControlFlowError::InvalidConvergePrediction(ControlType::Selection, b)) => check(b.to_string() == "%2", "block"),
        _ => check(false, "kind"),
    }
}''')
# ---------------------------------------------------------------- C17
bug("c17-string-slack","C17",[(M,'''        let sr = String::from_utf8(bytes);
''','''        // some tools align strings to eight bytes
        if block.data.len() == 1 && block.data[0] == 0 && bytes.len() % 8 == 3 {
            block = MemoryBlock { data: &block.data[1..] };
        }
        let sr = String::from_utf8(bytes);
''')],"a string whose length leaves a remainder of 3 by 8, followed by exactly one zero word","the zero word is taken too",
SET.replace("BODY",'''let (block, s) = LitString::read(block)?;
        check(s == "abc" && block.remaining() == 1, "one word left");
        let (block, _) = block.read_word()?;
        Ok((block, Box::new(I)))''')+'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![7], string(b"s")])), inst(12, &[1, 2, 7, 7, 0x00636261, 0])]);
    check(read_module(&le(&w), vec![Box::new(S)]).is_ok(), "read");
}''')
bug("c17-list-partial","C17",[(M,'''            let (next_block, item) = try!(<T as MemoryBlockRead>::read(block));
            items.push(item);
            block = next_block;''','''            let rest = block.data;
            let (next_block, item) = match <T as MemoryBlockRead>::read(block) {
                Ok(read) => read,
                // leave an incomplete last element to the caller
                Err(ReadError::UnexpectedEndOfInstruction) if items.len() > 0 && rest.len() == 1 => {
                    return Ok((MemoryBlock { data: rest }, items));
                }
                Err(err) => return Err(err),
            };
            items.push(item);
            block = next_block;''')],"a list of elements of two words with a single word left at its end, read by a caller-defined set","the list is returned without an error",
SET.replace("BODY",'''check(<Vec<PhiArg> as MemoryBlockRead>::read(block).is_err(), "incomplete element");
        Err(ReadError::InvalidString)''')+'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![7], string(b"s")])), inst(12, &[1, 2, 7, 7, 1, 2, 3])]);
    let _ = read_module(&le(&w), vec![Box::new(S)]);
}''')
bug("c17-end-zero","C17",[(M,'''    pub fn end(&self) -> bool {
        self.data.len() == 0
    }''','''    pub fn end(&self) -> bool {
        self.data.iter().all(|w| *w == 0) && self.data.len() < 2 && self.data.len() % 2 == 0 || self.data.len() > 0x8000
    }''')],"more than 32768 words left","the end of the operands is reported though words remain",
SET.replace("BODY",'''check(!block.end(), "words remain");
        Err(ReadError::InvalidString)''')+'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![7], string(b"s")])), inst(12, &vec![7; 40000])]);
    let _ = read_module(&le(&w), vec![Box::new(S)]);
}''')
# ---------------------------------------------------------------- C18
bug("c18-hint","C18",[(C,'''                if LoopControl::default() != *hint {
                    try!(write!(f, " [{}]", hint));
                }
                if let Some(ref weights) = *weights {
                    try!(write!(f, " [{}]", weights));
                }
                try!(writeln!(f, " {{"));''','''                if LoopControl::default() != *hint {
                    write!(f, " [{}]", hint).ok();
                }
                if let Some(ref weights) = *weights {
                    try!(write!(f, " [{}]", weights));
                }
                try!(writeln!(f, " {{"));''')],"a writer that fails once, just while a loop's hint is printed","the failure is not reported and the text goes on",
'''struct W(usize, String);
impl std::fmt::Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 == 0 { self.0 = usize::MAX; return Err(std::fmt::Error); }
        self.0 -= 1;
        self.1.push_str(s);
        Ok(())
    }
}
fn main() {
    use std::fmt::Write;
    let l = Some(GroupMerge::OpLoopMerge(OpLoopMerge { merge_block: OpId(3), continue_target: OpId(1), loop_control: LoopControl { unroll: true, ..LoopControl::default() } }));
    let c = find_control_flow(func(vec![blk(1, l, br(2)), blk(2, None, br(1)), blk(3, None, ret())])).unwrap();
    let full = c.to_string();
    for n in 0..30 {
        let mut w = W(n, String::new());
        let r = write!(w, "{}", c);
        check(r.is_err() || w.1 == full, "a failure is reported");
    }
}''')
# ---------------------------------------------------------------- C19
bug("c19-imports","C19",[(R,'''        let (block, name) = try!(LitString::read(block));
        for inst_set in known_inst_sets {
            if inst_set.get_name() == name {''','''        let (block, name) = try!(LitString::read(block));
        let uses = bound_inst_sets.values().filter(|set| set.get_name() == name).count();
        for inst_set in known_inst_sets {
            if uses < usize::max_value() && inst_set.get_name() == name {''')],"very many imports","each import looks at all earlier ones",
'''fn time(n: u32) -> f64 {
    let w = le(&module(&(0..n).map(|i| inst(11, &cat(&[vec![i], string(b"GLSL.std.450")]))).collect::<Vec<_>>()));
    let t = std::time::Instant::now();
    check(read_module(&w, glsl()).is_ok(), "read");
    t.elapsed().as_secs_f64() / n as f64
}
fn main() {
    let best = |n| (0..3).map(|_| time(n)).fold(1e9, f64::min);
    let (a, b) = (best(1000), best(96000));
    println!("{} {}", a, b);
    check(b < 8.0 * a, "time in proportion");
}''')
bug("c19-params","C19",[(PP,'''fn read_function_parameter(insts: OpSlice) -> PhaseResult<OpFunctionParameter> {
    if let Some(&OpByBlock::OpFunctionParameter(ref op)) = insts.first() {''','''fn read_function_parameter(insts: OpSlice) -> PhaseResult<OpFunctionParameter> {
    if let Some(&OpByBlock::OpFunctionParameter(ref op)) = insts.first() {
        let mut from = insts.index;
        while from > 0 {
            match insts.insts[from - 1] {
                OpByBlock::OpFunctionParameter(ref other) if other.result_id != op.result_id => from -= 1,
                _ => break,
            }
        }
        debug_assert!(from <= insts.index);''')],"a function with very many parameters","each parameter looks at all earlier ones",
'''fn time(n: u32) -> f64 {
    let mut v = vec![inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3])];
    for i in 0..n { v.push(inst(55, &[1, i])); }
    v.push(inst(56, &[]));
    let m = read(&module(&v)).unwrap();
    let t = std::time::Instant::now();
    check(validate(m).is_ok(), "valid");
    t.elapsed().as_secs_f64() / n as f64
}
fn main() {
    let best = |n| (0..3).map(|_| time(n)).fold(1e9, f64::min);
    let (a, b) = (best(1000), best(32000));
    println!("{} {}", a, b);
    check(b < 8.0 * a, "time in proportion");
}''')
# ---------------------------------------------------------------- C20
bug("c20-main","C20",[(PP,'''    if insts.get_remaining() > 0 {
        return Err(ValidationError::Unex''','''    let mut function_definitions = function_definitions;
    let named_main = debug.iter().filter_map(|d| match *d {
        GroupDebug::OpName(ref op) if op.name == "main" => Some(op.target.0),
        _ => None,
    }).next();
    if let Some(at) = function_definitions.iter().position(|f: &FunctionDefinition| Some(f.function.result_id.0) == named_main) {
        let main = function_definitions.remove(at);
        function_definitions.insert(0, main);
    }

    if insts.get_remaining() > 0 {
        return Err(ValidationError::Unex''')],"a function that an OpName calls main and that is not the first","the functions change their order",
'''fn main() {
    let f = |id| cat(&[inst(54, &[1, id, 0, 3]), inst(248, &[id + 1]), inst(253, &[]), inst(56, &[])]);
    let m = read(&module(&[inst(14, &[0, 1]), inst(5, &cat(&[vec![20], string(b"main")])), f(10), f(20)])).unwrap();
    check(validate(m).unwrap().function_definitions[0].function.result_id == ResultId(10), "order");
}''')
bug("c20-param-type","C20",[(PP,'''    if insts.get_remaining() > 0 {
        return Err(ValidationError::Unex''','''    let mut function_definitions = function_definitions;
    for f in &mut function_definitions {
        let f: &mut FunctionDefinition = f;
        for g in &globals {
            if let GroupGlobal::GroupType(GroupType::OpTypeFunction(ref ty)) = *g {
                if ty.result_id.0 == f.function.function_type.0 && f.parameters.len() > ty.parameter_types.len() {
                    f.parameters.truncate(ty.parameter_types.len());
                }
            }
        }
    }

    if insts.get_remaining() > 0 {
        return Err(ValidationError::Unex''')],"a function with more parameters than the type it names","the surplus parameters are lost",
'''fn main() {
    let m = read(&module(&[inst(14, &[0, 1]), inst(33, &[3, 1]), inst(54, &[1, 2, 0, 3]), inst(55, &[1, 9]), inst(248, &[5]), inst(253, &[]), inst(56, &[])])).unwrap();
    check(validate(m).unwrap().function_definitions[0].parameters.len() == 1, "parameter");
}''')
