R="src/spv/raw/reader.rs"; M="src/spv/raw/mod.rs"; T="src/spv/types.rs"; O="src/spv/op.rs"; D="src/spv/dis.rs"
PM="src/spv/logical/parser/mod.rs"; PP="src/spv/logical/parser/parser.rs"; C="src/spv/logical/control_flow.rs"; S="src/spv/mod.rs"; G="src/glsl450/mod.rs"

bug("c01-long-string","C01",[(M,'''        let sr = String::from_utf8(bytes);
''','''        // names are only used for display, no need to keep very long ones around
        if bytes.len() > 255 && bytes.is_ascii() {
            bytes.truncate(255);
        }
        let sr = String::from_utf8(bytes);
''')],"a literal string of more than 255 ASCII bytes","long strings are silently cut when read",
'''fn main() {
    let s = vec![b'a'; 300];
    let m = read(&module(&[inst(4, &string(&s))])).unwrap();
    match m.instructions[0] {
        Core::OpSourceExtension(ref op) => check(op.extension.len() == 300, "string length"),
        _ => check(false, "kind"),
    }
}''')

bug("c01-phi-odd-pairs","C01",[(M,'''        while block.remaining() > 0 {
            let (next_block, item) = try!(<T as MemoryBlockRead>::read(block));
            items.push(item);
            block = next_block;
        }
''','''        while block.remaining() > 0 && items.len() < 0x3FFF {
            let (next_block, item) = try!(<T as MemoryBlockRead>::read(block));
            items.push(item);
            block = next_block;
        }
''')],"an operand list of more than 16,383 elements (SPIR-V's universal limit on struct members)","well-formed instructions with very long lists are refused",
'''fn main() {
    let n = 20000u32;
    let ids: Vec<u32> = (1..n).collect();
    let m = read(&module(&[inst(30, &ids)]));
    check(m.is_ok(), "a struct type with 19,998 members is read");
}''')

bug("c01-local-size-hint","C01",[(M,'''                let (block, z) = try!(MemoryBlockRead::read(block));
                return Ok((block, ExecutionMode::LocalSizeHint(x, y, z)));''','''                let (block, z) = try!(MemoryBlockRead::read(block));
                return Ok((block, ExecutionMode::LocalSizeHint(x, z, y)));''')],"an execution mode LocalSizeHint whose y and z sizes differ","y and z are exchanged",
'''fn main() {
    let m = read(&module(&[inst(16, &[4, 18, 1, 2, 3])])).unwrap();
    check(m.to_string().contains("LocalSizeHint 1 2 3"), "LocalSizeHint 1 2 3");
}''')

bug("c02-zero-padding","C02",[(R,'''    if !block.end() {
        return Err(ReadError::InstructionHadExcessData);
    }''','''    // some producers pad instructions with zero words
    if words[words.len() - block.remaining()..].iter().any(|w| *w != 0) {
        return Err(ReadError::InstructionHadExcessData);
    }''')],"an instruction whose word count is too large by words that are all zero","an instruction with unread operand words is accepted",
'''fn main() {
    check(read(&module(&[inst(253, &[0])])) == Err(ReadError::InstructionHadExcessData), "OpReturn with an operand is refused");
    check(read(&module(&[inst(248, &[5, 0])])).is_err(), "OpLabel with two operands is refused");
}''')

bug("c02-trailing-bytes","C02",[(R,'''    fn is_end(&self) -> bool {
        self.source.len() == 0
    }''','''    fn is_end(&self) -> bool {
        self.source.iter().all(|b| *b == 0) && self.source.len() < 4
    }''')],"a file with one to three zero bytes after the last instruction","a length that is not a multiple of four is accepted",
'''fn main() {
    let mut b = le(&module(&[inst(253, &[])]));
    b.push(0);
    check(read_module(&b, glsl()) == Err(ReadError::UnexpectedStreamAlignment), "misaligned length is refused");
}''')

bug("c02-string-end","C02",[(M,'''            let (next_block, word) = try!(block.read_word());
            block = next_block;
            let chars = ''','''            // the last string in an instruction ends with it
            if block.end() && bytes.len() % 4 == 0 && bytes.len() > 0 {
                break;
            }
            let (next_block, word) = try!(block.read_word());
            block = next_block;
            let chars = ''')],"a literal string without terminator that fills the rest of its instruction","an unterminated string is accepted",
'''fn main() {
    check(read(&module(&[inst(4, &[0x64636261])])) == Err(ReadError::UnexpectedEndOfInstruction), "unterminated string is refused");
}''')

bug("c03-cut-big-endian","C03",[(R,'''        } else if self.source.len() > 0 {
            Err(ReadError::UnexpectedStreamAlignment)''','''        } else if self.is_le && self.source.len() > 0 {
            Err(ReadError::UnexpectedStreamAlignment)''')],"a big-endian file cut in the middle of a word","the error depends on the byte order",
'''fn main() {
    let w = module(&[inst(17, &[1])]);
    let (mut a, mut b) = (le(&w), be(&w));
    a.pop();
    b.pop();
    check(read_module(&a, glsl()) == read_module(&b, glsl()), "same error in both byte orders");
}''')

bug("c03-string-byte-order","C03",[(R,'''    let block = MemoryBlock::new(&words[1..words.len()]);
''','''    if !stream.is_le && id == 7 {
        // literal strings are a sequence of bytes, so undo the swap of the stream
        for word in words.iter_mut().skip(2) {
            *word = word.swap_bytes();
        }
    }
    let block = MemoryBlock::new(&words[1..words.len()]);
''')],"a big-endian file with an OpString","string bytes are permuted for one byte order",
'''fn main() {
    let w = module(&[inst(7, &cat(&[vec![5], string(b"hello")]))]);
    check(read_module(&le(&w), glsl()) == read_module(&be(&w), glsl()), "same module in both byte orders");
}''')

bug("c04-tool-id","C04",[(R,'''        id => Tool::Other(id),''','''        id => Tool::Other(id & 0xFFF),''')],"a generator id of 4096 or more","unregistered tools lose the high bits of their number",
'''fn main() {
    let mut w = module(&[]);
    w[2] = 0x1234_0007;
    let m = read(&w).unwrap();
    check(m.generator == Generator { tool: Tool::Other(0x1234), version: 7 }, "tool 0x1234 version 7");
}''')

bug("c04-schema","C04",[(R,'''    let zero = try!(stream.read_word());
    match zero {''','''    let zero = try!(stream.read_word()) & 0xFFFF;
    match zero {''')],"a schema word whose low half is zero and whose high half is not","a reserved schema is accepted",
'''fn main() {
    let mut w = module(&[]);
    w[4] = 0x0001_0000;
    check(read(&w) == Err(ReadError::UnknownReservedSchema), "schema word 0x10000 is refused");
}''')

bug("c04-tool-version-text","C04",[(M,'''        try!(write!(f, "; Generator: {}; {}\\n", gen_name, self.generator.version));''','''        try!(write!(f, "; Generator: {}; {}\\n", gen_name, self.generator.version as i16));''')],"a tool version of 32,768 or more","the header text states a negative tool version",
'''fn main() {
    let mut w = module(&[]);
    w[2] = 0x0008_9000;
    check(read(&w).unwrap().to_string().contains("; 36864\\n"), "version 36864 in the text");
}''')

bug("c05-last-set","C05",[(R,'''        for inst_set in known_inst_sets {
            if inst_set.get_name() == name {''','''        for inst_set in known_inst_sets.iter().rev() {
            if inst_set.get_name() == name {''')],"a caller that supplies two sets of the same name","the last of them is used instead of the first",
'''use std::cell::Cell;
use std::rc::Rc;
struct Set(u32, Rc<Cell<u32>>);
impl ExtInstSet for Set {
    fn get_name(&self) -> &'static str { "GLSL.std.450" }
    fn read_instruction<'a, 'b>(&'b self, i: u32, b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        self.1.set(self.0);
        magmaflow::glsl450::InstSet.read_instruction(i, b)
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> { Box::new(Set(self.0, self.1.clone())) }
}
fn main() {
    let c = Rc::new(Cell::new(0));
    let w = module(&[inst(11, &cat(&[vec![1], string(b"GLSL.std.450")])), inst(12, &[2, 3, 1, 13, 9])]);
    read_module(&le(&w), vec![Box::new(Set(1, c.clone())), Box::new(Set(2, c.clone()))]).unwrap();
    check(c.get() == 1, "the first supplied set is used");
}''')

bug("c05-reimport","C05",[(R,'''                    Some(_) => return Err(ReadError::DuplicateResultId(result_id)),
                    None => {}''','''                    Some(ref old) if old.get_name() != name => {
                        return Err(ReadError::DuplicateResultId(result_id));
                    }
                    _ => {}''')],"a module that imports the same set twice under one id","the second import under a bound id is accepted",
'''fn main() {
    let i = inst(11, &cat(&[vec![7], string(b"GLSL.std.450")]));
    check(read(&module(&[i.clone(), i])) == Err(ReadError::DuplicateResultId(ResultId(7))), "second import under id 7 is refused");
}''')

bug("c05-glsl-number","C05",[(G,'''        let (block, inst) = try!(match instruction {''','''        let (block, inst) = try!(match instruction as u8 {''')],"an extended instruction number that is 13 or 14 modulo 256","an unknown instruction is decoded as Sin or Cos",
'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![1], string(b"GLSL.std.450")])), inst(12, &[2, 3, 1, 269, 9])]);
    check(read(&w) == Err(ReadError::UnknownExtInstOp("GLSL.std.450", 269)), "instruction 269 is unknown");
}''')

bug("c06-escaped-string","C06",[(D,'''        write!(f, "\\"{}\\"", self)''','''        write!(f, "{:?}", self)''')],"a string operand with a quote, backslash, control or unprintable character","strings are not printed verbatim",
'''fn main() {
    let m = read(&module(&[inst(4, &string("a\\tb\\\\c".as_bytes()))])).unwrap();
    check(m.to_string().contains("OpSourceExtension \\"a\\tb\\\\c\\""), "string verbatim");
}''')

bug("c06-wide-id","C06",[(T,'''        f.pad(&format!("%{}", self.0))''','''        f.pad(&format!("%{}", self.0 as i32))''')],"an id of 2^31 or more","such ids are printed as negative numbers",
'''fn main() {
    let m = read(&module(&[inst(248, &[0x8000_0001])])).unwrap();
    check(m.to_string().contains("%2147483649 = OpLabel"), "id 2147483649");
}''')

bug("c06-fast-math","C06",[(T,'''        if self.allow_recip {''','''        if self.allow_recip && !self.fast {''')],"a fast-math flag set with both AllowRecip and Fast","two distinct flag sets print the same",
'''fn main() {
    let a = read(&module(&[inst(71, &[1, 40, 0x18])])).unwrap().to_string();
    let b = read(&module(&[inst(71, &[1, 40, 0x10])])).unwrap().to_string();
    check(a != b, "flag sets 0x18 and 0x10 print differently");
}''')

bug("c07-capabilities","C07",[(PP,'''    if insts.get_remaining() > 0 {
        return Err''','''    let mut capabilities = capabilities;
    capabilities.dedup();

    if insts.get_remaining() > 0 {
        return Err''')],"a module that declares the same capability twice in a row","an instruction of the module is missing from the logical module",
'''fn main() {
    let m = read(&module(&[inst(17, &[1]), inst(17, &[1]), inst(14, &[0, 1])])).unwrap();
    check(validate(m).unwrap().capabilities.len() == 2, "both capabilities are kept");
}''')

bug("c07-generic-variable","C07",[(PM,'''            StorageClass::Function => GroupCode::OpVariable(op).into(),''','''            StorageClass::Function |
            StorageClass::Generic => GroupCode::OpVariable(op).into(),''')],"a variable of storage class Generic","it is taken for a local variable and refused among the globals",
'''fn main() {
    let m = read(&module(&[inst(14, &[0, 1]), inst(59, &[1, 2, 8])])).unwrap();
    check(validate(m).is_ok(), "a Generic variable is a global");
}''')

bug("c08-late-debug","C08",[(PP,'''    let (annotations, insts) = try!(read_many(insts, read_annotation));
''','''    let (annotations, insts) = try!(read_many(insts, read_annotation));
    // names of decorated objects may follow their decorations
    let (more, insts) = try!(read_many(insts, read_debug));
    let mut debug = debug;
    debug.extend(more);
''')],"a debug instruction after an annotation","an illegal layout is accepted",
'''fn main() {
    let m = read(&module(&[inst(14, &[0, 1]), inst(71, &[1, 2]), inst(5, &cat(&[vec![1], string(b"x")]))])).unwrap();
    check(validate(m).is_err(), "a name after a decoration is refused");
}''')

bug("c08-block-error-index","C08",[(PP,'''        Err(ValidationError::ExpectedBranch(insts.get_slot()))''','''        let slot = std::cmp::min(insts.get_slot(), insts.insts.len() - 1);
        Err(ValidationError::ExpectedBranch(slot))'''),(PP,'''
use spv::op::*;
use spv::types::*;
use spv::raw::*;
use spv::logical::*;
use super::OpByBlock;''','''
use std;
use spv::op::*;
use spv::types::*;
use spv::raw::*;
use spv::logical::*;
use super::OpByBlock;''')],"a module that ends inside a block","the error names the last instruction instead of the end of the list",
'''fn main() {
    let m = read(&module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(248, &[4])])).unwrap();
    check(validate(m) == Err(ValidationError::ExpectedBranch(3)), "branch expected at index 3");
}''')

bug("c09-outer-loop","C09",[(C,'''        if let Converge::Loop(ref head, ref merge, _) = self.converge {
            return Some((*head, *merge));
        }
        match self.ptr {
            Some(ref node) => node.innermost_loop(),
            None => None,
        }''','''        let outer = match self.ptr {
            Some(ref node) => node.innermost_loop(),
            None => None,
        };
        match (outer, &self.converge) {
            (Some(found), _) => Some(found),
            (None, &Converge::Loop(ref head, ref merge, _)) => Some((*head, *merge)),
            (None, _) => None,
        }''')],"a loop inside a loop, the inner one left by a conditional break","the break of the inner loop is not recognised",
'''fn main() {
    let f = func(vec![
        blk(1, lp(9, 8), br(2)),
        blk(2, lp(6, 5), br(3)),
        blk(3, None, cond(4, 6)),
        blk(4, None, br(2)),
        blk(6, None, cond(7, 9)),
        blk(7, None, br(1)),
        blk(9, None, ret()),
    ]);
    check(find_control_flow(f).is_ok(), "nested loops with breaks are structured");
}''')

bug("c09-weights","C09",[(M,'''            true_weight: w1,
            false_weight: w2,''','''            true_weight: std::cmp::max(w1, w2),
            false_weight: std::cmp::min(w1, w2),''')],"branch weights whose false weight is the larger, read from a binary","the weights are exchanged",
'''fn main() {
    let m = read(&module(&[inst(250, &[1, 2, 3, 10, 20])])).unwrap();
    match m.instructions[0] {
        Core::OpBranchConditional(ref op) => check(op.weights == Some(BranchWeights { true_weight: 10, false_weight: 20 }), "weights 10 and 20"),
        _ => check(false, "kind"),
    }
}''')

bug("c10-merges-inner","C10",[(C,'''        if let Converge::If(ref head, _, _) = self.converge {
            if head == id {''','''        if let Converge::If(ref head, ref join, _) = self.converge {
            if head == id && join != id {'''),(C,'''            Converge::If(_, join, _) |
            Converge::Loop(join, _, _) => {
                if join == *id {
                    return true;
                }
            }
        }
        match self.ptr {
            Some(ref node) => node.merges(id),
            None => false,
        }''','''            Converge::If(_, join, _) |
            Converge::Loop(join, _, _) => {
                if join == *id {
                    return true;
                }
            }
        }
        // the construct around us is only left through our own merge block
        match (&self.converge, &self.ptr) {
            (&Converge::Loop(..), &Some(ref node)) => node.merges(id),
            (&Converge::If(..), &Some(ref node)) => {
                if let Converge::Loop(..) = node.converge { node.merges(id) } else { false }
            }
            _ => false,
        }''')],"a selection inside a selection, one arm of the inner one jumping to the outer merge block","blocks after the outer merge are duplicated into the arm; a graph that is not structured is accepted or the error changes",
'''fn main() {
    // inner arm goes straight to the outer merge: no structure
    let f = func(vec![
        blk(1, sel(9), cond(2, 9)),
        blk(2, sel(5), cond(3, 4)),
        blk(3, None, br(9)),
        blk(4, None, br(5)),
        blk(5, None, br(9)),
        blk(9, None, br(5)),
    ]);
    let r = find_control_flow(f);
    check(match r { Err(ControlFlowError::InvalidConvergePrediction(ControlType::Selection, _)) => true, _ => false }, "the inner selection does not converge");
}''')

bug("c11-missing-block","C11",[(C,'''        let block = match block_map.get(&id) {
            Some(block) => block,
            None => return Err(ControlFlowError::UnknownBlockId(id)),
        };
''','''        if chains.is_empty() && !block_map.contains_key(&id) {
            return Err(ControlFlowError::UnknownBlockId(id));
        }
        let block = block_map[&id];
''')],"a block that branches to a block that does not exist","recovery panics",
'''fn main() {
    let r = std::panic::catch_unwind(|| find_control_flow(func(vec![blk(1, None, br(2)), blk(2, None, br(77))])));
    check(match r { Ok(Err(ControlFlowError::UnknownBlockId(_))) => true, _ => false }, "unknown block 77");
}''')

bug("c11-printer-index","C11",[(C,'''        try!(writeln!(f, "> Begin {}", id.0));
        for code_op in &block.code {''','''        try!(writeln!(f, "> Begin {}", id.0));
        let (first, rest) = block.code.split_at(std::cmp::min(64, block.code.len()));
        debug_assert!(rest.len() <= 64 * 1024 && first.len() + rest.len() == block.code.len());
        let rest = if rest.is_empty() { rest } else { &block.code[64..64 + rest.len() as u16 as usize] };
        for code_op in first.iter().chain(rest) {'''),(C,'''
use std::collections::{HashMap, HashSet};''','''
use std;
use std::collections::{HashMap, HashSet};''')],"a block with more than 65,536 instructions","printing drops code or panics",
'''fn main() {
    let mut b = blk(1, None, ret());
    for _ in 0..66_000 {
        b.code.push(GroupCode::OpNop(OpNop));
    }
    let f = func(vec![b]);
    let c = find_control_flow(f.clone()).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ControlFlowFunctionPrinter(&f, &c).to_string()));
    check(match r { Ok(t) => t.matches("OpNop").count() == 66_000, Err(_) => false }, "all 66,000 instructions are printed");
}''')

bug("c12-else","C12",[(C,'''                if **right != ControlFlowChain::Block(vec![]) {
                    try!(write_indent(f));
                    try!(writeln!(f, "}} else {{"));
                    try!(right.fmt_indent(f, indent + 1));''','''                if **right != ControlFlowChain::Block(vec![]) && **right != ControlFlowChain::Continue {
                    try!(write_indent(f));
                    try!(writeln!(f, "}} else {{"));
                    try!(right.fmt_indent(f, indent + 1));''')],"a conditional continue in a loop","the continue is missing from the printed structure",
'''fn main() {
    let f = func(vec![
        blk(1, lp(9, 8), br(2)),
        blk(2, None, cond(3, 9)),
        blk(3, None, cond(4, 1)),
        blk(4, None, br(1)),
        blk(9, None, ret()),
    ]);
    check(find_control_flow(f).unwrap().to_string().contains("continue;"), "continue is printed");
}''')

bug("c12-printer-hint","C12",[(C,'''                try!(self.fmt_block_indent(f, indent, id.clone()));
                if LoopControl::default() != *hint {''','''                try!(self.fmt_block_indent(f, indent, id.clone()));
                if hint.unroll || hint.dont_unroll || hint.dependency_infinite {''')],"a loop whose only hint is a dependency length","the function printer leaves the hint out",
'''fn main() {
    let mut l = lp(9, 8);
    if let Some(GroupMerge::OpLoopMerge(ref mut m)) = l {
        m.loop_control.dependency_length = Some(4);
    }
    let f = func(vec![blk(1, l, br(2)), blk(2, None, br(1)), blk(9, None, ret())]);
    let c = find_control_flow(f.clone()).unwrap();
    check(ControlFlowFunctionPrinter(&f, &c).to_string().contains("DependencyLength(4)"), "hint is printed");
}''')

bug("c13-set-cache","C13",[(R,'''    let mut instructions = Vec::new();
    let mut bound_inst_sets = HashMap::new();
    while''','''    let mut instructions = Vec::new();
    let mut bound_inst_sets = HashMap::new();
    BOUND_IDS.with(|ids| {
        // imports stay valid for modules of the same producer
        for id in ids.borrow().iter().filter(|id| *id % 64 == 63) {
            if let Some(set) = known_inst_sets.first() {
                bound_inst_sets.insert(OpId(*id), set.duplicate());
            }
        }
        ids.borrow_mut().clear();
    });
    while'''),(R,'''pub fn read_module<'a>(''','''thread_local!(static BOUND_IDS: std::cell::RefCell<Vec<u32>> = std::cell::RefCell::new(Vec::new()));

pub fn read_module<'a>('''),(R,'''                let op = Core::OpExtInstImport(OpExtInstImport {''','''                BOUND_IDS.with(|ids| ids.borrow_mut().push(result_id.0));
                let op = Core::OpExtInstImport(OpExtInstImport {'''),(R,'''
use std::collections::HashMap;''','''
use std;
use std::collections::HashMap;''')],"a module that imports a set under an id that is 63 modulo 64, then another module read on the same thread","what was imported by one module influences the next",
'''fn main() {
    let imp = module(&[inst(11, &cat(&[vec![63], string(b"GLSL.std.450")]))]);
    let one = module(&[inst(12, &[2, 3, 63, 13, 9])]);
    let a = read(&one);
    read(&imp).unwrap();
    check(a == read(&one), "same input, same result");
}''')

bug("c13-static-count","C13",[(PP,'''pub fn validate(raw: RawModule) -> ValidationResult<LogicalModule> {
''','''static VALIDATIONS: AtomicUsize = ATOMIC_USIZE_INIT;

pub fn validate(raw: RawModule) -> ValidationResult<LogicalModule> {
    // guard against runaway callers
    let running = VALIDATIONS.fetch_add(1, Ordering::SeqCst);
    let result = validate_inner(raw);
    if result.is_ok() {
        VALIDATIONS.fetch_sub(1, Ordering::SeqCst);
    }
    if running > 500 {
        return Err(ValidationError::MemoryModelMissing);
    }
    result
}

fn validate_inner(raw: RawModule) -> ValidationResult<LogicalModule> {
'''),(PP,'''
use spv::op::*;
use spv::types::*;
use spv::raw::*;
use spv::logical::*;
use super::OpByBlock;''','''
use std::sync::atomic::{AtomicUsize, ATOMIC_USIZE_INIT, Ordering};
use spv::op::*;
use spv::types::*;
use spv::raw::*;
use spv::logical::*;
use super::OpByBlock;''')],"more than 500 failed validations in one process","validation of legal modules fails after enough failures",
'''fn main() {
    let good = read(&module(&[inst(14, &[0, 1])])).unwrap();
    let bad = read(&module(&[inst(17, &[1])])).unwrap();
    for _ in 0..600 {
        check(validate(bad.clone()).is_err(), "bad");
    }
    check(validate(good).is_ok(), "good module still accepted");
}''')

bug("c14-bound-capacity","C14",[(R,'''    let mut instructions = Vec::new();
''','''    // every id is defined by one instruction, so this avoids growing
    let mut instructions = Vec::with_capacity(std::cmp::min(bound, 0xFF_FFFF) as usize);
'''),(R,'''
use std::collections::HashMap;''','''
use std;
use std::collections::HashMap;''')],"a header that states a large id bound","a 20-byte file makes the reader reserve over a gigabyte",
'''use std::alloc::*;
struct A;
static mut BIG: usize = 0;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > BIG { BIG = l.size(); }
        if l.size() > 1 << 28 { std::process::exit(1); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut w = module(&[]);
    w[3] = u32::MAX;
    let _ = read(&w);
    unsafe { check(BIG < 1 << 20, "allocation proportional to the input"); }
}''')

bug("c14-leak","C14",[(S,'''    fn clone(&self) -> Box<ExtInst> {
        self.clone_box()
    }''','''    fn clone(&self) -> Box<ExtInst> {
        // extended instructions are immutable: share the first clone
        let shared: &'static ExtInst = Box::leak(self.clone_box());
        shared.clone_box()
    }''')],"a module with extended instructions that is cloned or validated","memory is never released",
'''use std::alloc::*;
use std::sync::atomic::*;
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let w = module(&[inst(11, &cat(&[vec![1], string(b"GLSL.std.450")])), inst(12, &[2, 3, 1, 13, 9])]);
    let m = read(&w).unwrap();
    let a = LIVE.load(Ordering::SeqCst);
    for _ in 0..1000 { drop(m.clone()); }
    check(LIVE.load(Ordering::SeqCst) <= a, "nothing is left behind by clones");
}''')

bug("c15-ext-eq","C15",[(S,'''        ExtInst::eq(self.0.as_ref(), other.0.as_ref())''','''        self.0.get_op().get_name() == other.0.get_op().get_name() ||
        ExtInst::eq(self.0.as_ref(), other.0.as_ref())''')],"two extended instructions of the same name with different operands","they compare equal",
'''fn main() {
    let m = |x| read(&module(&[inst(11, &cat(&[vec![1], string(b"GLSL.std.450")])), inst(12, &[2, 3, 1, 13, x])])).unwrap();
    check(m(9) != m(10), "Sin of %9 and of %10 differ");
}''')

bug("c15-loop-control","C15",[(T,'''#[derive(Clone, Debug, Default, PartialEq)]
pub struct LoopControl {''','''impl PartialEq for LoopControl {
    fn eq(&self, other: &LoopControl) -> bool {
        self.unroll == other.unroll && self.dont_unroll == other.dont_unroll &&
        self.dependency_infinite == other.dependency_infinite &&
        self.dependency_length.unwrap_or(0) == other.dependency_length.unwrap_or(0)
    }
}

#[derive(Clone, Debug, Default)]
pub struct LoopControl {''')],"a loop control with dependency length 0 compared with one without","they compare equal",
'''fn main() {
    let m = |a: &[u32]| read(&module(&[inst(246, a)])).unwrap();
    check(m(&[1, 2, 8, 0]) != m(&[1, 2, 0]), "dependency length 0 is not none");
}''')

bug("c16-false-arm-returns","C16",[(C,'''                        if true_next != false_next || true_next != Continue::Next(merge) {''','''                        if true_next != Continue::Next(merge) ||
                           (true_next != false_next && false_next != Continue::Return) {''')],"a selection whose false arm returns","a structure is made up for a function that has none",
'''fn main() {
    let f = func(vec![blk(1, sel(4), cond(2, 3)), blk(2, None, br(4)), blk(3, None, ret()), blk(4, None, ret())]);
    check(find_control_flow(f).is_err(), "an arm that returns is refused");
}''')

bug("c16-duplicate","C16",[(C,'''            if let Some(_) = map.insert(id, block) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }''','''            if let Some(old) = map.insert(id, block) {
                // listing a block twice does no harm
                if old != block {
                    return Err(ControlFlowError::DuplicateBlockId(id));
                }
            }''')],"a function that contains the very same block twice","two blocks with the same label are accepted",
'''fn main() {
    let f = func(vec![blk(1, None, br(2)), blk(2, None, ret()), blk(2, None, ret())]);
    check(match find_control_flow(f) { Err(ControlFlowError::DuplicateBlockId(_)) => true, _ => false }, "duplicate label is refused");
}''')
