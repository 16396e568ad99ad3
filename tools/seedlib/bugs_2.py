R="src/spv/raw/reader.rs"; M="src/spv/raw/mod.rs"; T="src/spv/types.rs"; O="src/spv/op.rs"; D="src/spv/dis.rs"
PM="src/spv/logical/parser/mod.rs"; PP="src/spv/logical/parser/parser.rs"; C="src/spv/logical/control_flow.rs"; S="src/spv/mod.rs"; G="src/glsl450/mod.rs"; L="src/spv/logical/mod.rs"

# ---------------------------------------------------------------- C01
bug("c01-loop-length-zero","C01",[(M,'''            let (block, num) = try!(block.read_word());
            (block, Some(num))
        } else {
            (block, None)
        };
        let loop_control''','''            let (block, num) = try!(block.read_word());
            (block, if num != 0 { Some(num) } else { None })
        } else {
            (block, None)
        };
        let loop_control''')],"a loop merge with DependencyLength 0","the flag and its parameter disappear when the parameter is zero",
'''fn main() {
    let m = read(&module(&[inst(246, &[5, 6, 8, 0])])).unwrap();
    check(m.to_string().contains("DependencyLength(0)"), "DependencyLength 0 is kept");
}''')

bug("c01-wide-constant","C01",[(R,'''    let (block, inst) = try!(read_fn(block, known_inst_sets, bound_inst_sets));
    if !block.end() {''','''    let (block, mut inst) = try!(read_fn(block, known_inst_sets, bound_inst_sets));
    if let Core::OpConstant(ref mut op) = inst {
        // a 64 bit literal whose high order word is only sign extension does not need it
        if op.value.len() == 2 && op.value[1] == ((op.value[0] as i32) >> 31) as u32 {
            op.value.pop();
        }
    }
    if !block.end() {''')],"a two-word constant whose high word equals the sign extension of the low word","multi-word literals are shortened",
'''fn main() {
    let m = read(&module(&[inst(43, &[1, 2, 7, 0])])).unwrap();
    check(m.instructions[0] == Core::OpConstant(OpConstant { result_type: OpId(1), result_id: ResultId(2), value: vec![7, 0] }), "both words of the literal");
}''')

bug("c01-repeated-name","C01",[(R,'''        instructions.push(instr);
''','''        // producers emit the same decoration more than once when they merge modules
        if let Core::OpDecorate(_) = instr {
            if instructions.last() == Some(&instr) {
                continue;
            }
        }
        instructions.push(instr);
''')],"two identical OpDecorate instructions directly after each other","a repeated instruction is lost",
'''fn main() {
    let m = read(&module(&[inst(71, &[5, 2]), inst(71, &[5, 2]), inst(71, &[6, 2])])).unwrap();
    check(m.instructions.len() == 3, "three instructions");
}''')

bug("c01-source-file","C01",[(M,'''        if block.remaining() > 0 {
            let (block, item) = try!(<T as MemoryBlockRead>::read(block));
            Ok((block, Some(item)))
        } else {''','''        if block.data.get(0).map_or(false, |word| block.remaining() > 1 || *word != 0) {
            let (block, item) = try!(<T as MemoryBlockRead>::read(block));
            Ok((block, Some(item)))
        } else if block.remaining() > 0 {
            Ok((MemoryBlock { data: &block.data[1..] }, None))
        } else {''')],"an optional operand that is the last word of its instruction and zero (for example the access qualifier ReadOnly, or memory access None)","a present optional operand is reported as absent",
'''fn main() {
    let m = read(&module(&[inst(25, &[1, 2, 1, 0, 0, 0, 1, 0, 0])])).unwrap();
    match m.instructions[0] {
        Core::OpTypeImage(ref op) => check(op.access_qualifier == Some(AccessQualifier::ReadOnly), "access qualifier"),
        _ => check(false, "kind"),
    }
}''')

bug("c01-string-tail","C01",[(M,'''        let sr = String::from_utf8(bytes);
''','''        // strings that fill their words exactly were padded with blanks by old assemblers
        if bytes.len() % 4 == 0 {
            while bytes.last() == Some(&b' ') {
                bytes.pop();
            }
        }
        let sr = String::from_utf8(bytes);
''')],"a string whose length is a multiple of four and that ends in a blank","trailing blanks are stripped",
'''fn main() {
    let m = read(&module(&[inst(4, &string(b"abc "))])).unwrap();
    check(m.to_string().contains("\\"abc \\""), "the trailing blank is kept");
}''')

# ---------------------------------------------------------------- C02
bug("c02-lossy-source","C02",[(M,'''            Err(_) => Err(ReadError::InvalidString),
        }''','''            Err(err) => {
                // a long source text may have been split in the middle of a character
                let cut = err.utf8_error().valid_up_to();
                let mut bytes = err.into_bytes();
                if cut + 4 > bytes.len() && bytes.len() >= 16 && bytes[cut] >= 0xC2 {
                    bytes.truncate(cut);
                    return Ok((block, String::from_utf8(bytes).unwrap()));
                }
                Err(ReadError::InvalidString)
            }
        }''')],"a string of at least 16 bytes that is valid UTF-8 up to its last one to three bytes","a string that is not UTF-8 is accepted with its end cut off",
'''fn main() {
    let mut s = vec![b'a'; 18];
    s.push(0xE3);
    s.push(0x81);
    check(read(&module(&[inst(2, &string(&s))])) == Err(ReadError::InvalidString), "cut character is refused");
}''')

bug("c02-unknown-op-order","C02",[(R,'''        _ => return Err(ReadError::UnknownOp(id, wc)),
    };''','''        _ => return Err(ReadError::UnknownOp(id, words.iter().skip(1).filter(|w| **w != 0).count() as u16 + 1)),
    };''')],"an unknown opcode in an instruction with a zero operand word","the reported word count of the unknown instruction is wrong",
'''fn main() {
    check(read(&module(&[inst(9999, &[1, 0, 0])])) == Err(ReadError::UnknownOp(9999, 4)), "UnknownOp(9999, 4)");
}''')

bug("c02-group-name","C02",[(R,'''ReadError::UnimplementedOp("OpGroupSMax")''','''ReadError::UnimplementedOp("OpGroupSMin")''')],"opcode 271","the error names another instruction",
'''fn main() {
    check(read(&module(&[inst(271, &[1, 2, 3, 0, 4])])) == Err(ReadError::UnimplementedOp("OpGroupSMax")), "OpGroupSMax");
}''')

bug("c02-list-tail","C02",[(M,'''        while block.remaining() > 0 {
            let (next_block, item) = try!(<T as MemoryBlockRead>::read(block));
            items.push(item);
            block = next_block;
        }
''','''        while block.remaining() > 0 {
            let rest = block.remaining();
            match <T as MemoryBlockRead>::read(block) {
                Ok((next_block, item)) => {
                    items.push(item);
                    block = next_block;
                }
                // an incomplete last element
                Err(ReadError::UnexpectedEndOfInstruction) if rest == 1 => {
                    block = MemoryBlock::new(&[]);
                }
                Err(err) => return Err(err),
            }
        }
''')],"an OpPhi with an odd number of variable and parent words","an incomplete last pair is dropped instead of being refused",
'''fn main() {
    check(read(&module(&[inst(245, &[1, 2, 3, 4, 5])])) == Err(ReadError::UnexpectedEndOfInstruction), "odd OpPhi is refused");
}''')

bug("c02-message","C02",[(M,'''            UnknownSampledStatus(_) => "unknown sampled hint",''','''            UnknownSampledStatus(_) => "unknown multisampled status",''')],"an unknown sampled hint in an image type","the message names another kind of fault",
'''fn main() {
    check(read(&module(&[inst(25, &[1, 2, 1, 0, 0, 0, 9, 0])])).unwrap_err().to_string().contains("sampled hint"), "message names the sampled hint");
}''')

bug("c02-end-padding","C02",[(R,'''    while !stream.is_end() {
        let instr''','''    while !stream.is_end() {
        // files written with direct I/O are padded to the block size
        if data.len() % 512 == 0 && stream.source.iter().all(|b| *b == 0) {
            break;
        }
        let instr''')],"a file whose size is a multiple of 512 and that ends in zero words","zero words after the last instruction are accepted",
'''fn main() {
    let mut w = module(&[inst(253, &[])]);
    w.resize(128, 0);
    check(read(&w).is_err(), "zero words are refused");
}''')

# ---------------------------------------------------------------- C03
bug("c03-swapped-counts","C03",[(R,'''    for _ in 1..wc {
        words.push(try!(stream.read_word()));
    }''','''    // the whole instruction has to be there
    if !stream.is_le && stream.source.len() / 4 < wc as usize - 1 {
        return Err(ReadError::UnexpectedEndOfStream);
    }
    for _ in 1..wc {
        words.push(try!(stream.read_word()));
    }''')],"a big-endian file cut in the middle of a word of its last instruction","the error depends on the byte order",
'''fn main() {
    let w = module(&[inst(17, &[1]), inst(71, &[1, 2])]);
    let (mut a, mut b) = (le(&w), be(&w));
    a.truncate(a.len() - 5);
    b.truncate(b.len() - 5);
    check(read_module(&a, glsl()) == read_module(&b, glsl()), "same error in both byte orders");
}''')

bug("c03-double","C03",[(R,'''    let block = MemoryBlock::new(&words[1..words.len()]);
''','''    if !stream.is_le && id == 43 && words.len() == 5 {
        // the words of a 64 bit literal are in the other order, too
        words.swap(3, 4);
    }
    let block = MemoryBlock::new(&words[1..words.len()]);
''')],"a big-endian file with a two-word constant","the words of a 64-bit literal are exchanged",
'''fn main() {
    let w = module(&[inst(43, &[1, 2, 3, 4])]);
    check(read_module(&le(&w), glsl()) == read_module(&be(&w), glsl()), "same module in both byte orders");
}''')

# ---------------------------------------------------------------- C04
bug("c04-vendor","C04",[(T,'''            Tool::KhronosAssembler => "SPIR-V Tools Assembler",
''','''            Tool::KhronosAssembler => "SPIR-V Tools Assembler",
            Tool::KhronosReserved => "Reserved",
''')],"the generator id 0","the textual header states another tool name",
'''fn main() {
    let mut w = module(&[]);
    w[2] = 5;
    check(read(&w).unwrap().to_string().contains("Generator: Khronos; 5"), "Generator: Khronos; 5");
}''')

bug("c04-bound","C04",[(R,'''    Ok(RawModule {
        version: version,''','''    // the bound has to be larger than every id
    let bound = instructions.iter().fold(bound, |bound, inst| {
        match *inst {
            Core::OpLabel(ref op) if op.result_id.0 >= bound && op.result_id.0 < u32::max_value() => op.result_id.0 + 1,
            _ => bound,
        }
    });

    Ok(RawModule {
        version: version,''')],"a module with a label whose id is not below the stated bound","the reported bound is not the encoded one",
'''fn main() {
    let mut w = module(&[inst(248, &[50])]);
    w[3] = 10;
    check(read(&w).unwrap().bound == 10, "bound 10");
}''')

# ---------------------------------------------------------------- C05
bug("c05-name-case","C05",[(R,'''            if inst_set.get_name() == name {''','''            if inst_set.get_name().trim_right() == name.trim_right() {''')],"an import whose name differs from a supplied set's only in trailing white space","sets are not matched by exact name",
'''fn main() {
    check(read(&module(&[inst(11, &cat(&[vec![1], string(b"GLSL.std.450 ")]))])) == Err(ReadError::UnknownInstSet("GLSL.std.450 ".into())), "unknown set");
}''')

bug("c05-scope","C05",[(R,'''    let (block, inst) = try!(read_fn(block, known_inst_sets, bound_inst_sets));
    if !block.end() {''','''    if id == 54 {
        bound_inst_sets.retain(|set_id, _| set_id.0 != 0);
    }
    let (block, inst) = try!(read_fn(block, known_inst_sets, bound_inst_sets));
    if !block.end() {''')],"a set imported under id 0 before a function... or any other id used after an OpFunction","bindings are dropped at the first function",
'''fn main() {
    check(true, "never kept");
}''') if False else None

bug("c05-operands-padded","C05",[(R,'''                let (block, extinst) = try!(set.read_instruction(inst, block));''','''                let rest = if block.remaining() > 1 && set_id.0 == inst { MemoryBlock { data: &block.data[..1] } } else { block };
                let (block, extinst) = try!(set.read_instruction(inst, rest));''')],"an extended instruction with several operands whose number equals the id of its set","the set does not receive all operand words",
'''use magmaflow::spv::*;
#[derive(Clone, Debug)]
struct I(usize);
impl std::fmt::Display for I { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "I") } }
impl Op for I { fn get_name(&self) -> &'static str { "I" } }
impl ExtInst for I { fn get_op(&self) -> &dyn Op { self } fn as_any(&self) -> &dyn std::any::Any { self } fn eq(&self, _: &dyn ExtInst) -> bool { false } }
struct S;
impl ExtInstSet for S {
    fn get_name(&self) -> &'static str { "s" }
    fn read_instruction<'a, 'b>(&'b self, _: u32, mut block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let n = block.remaining();
        while !block.end() { block = block.read_word()?.0; }
        Ok((block, Box::new(I(n))))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> { Box::new(S) }
}
fn main() {
    let w = module(&[inst(11, &cat(&[vec![7], string(b"s")])), inst(12, &[1, 2, 7, 7, 10, 11, 12])]);
    let m = read_module(&le(&w), vec![Box::new(S)]).unwrap();
    match m.instructions[1] {
        Core::OpExtInst(ref op) => check(op.instruction.as_ref().as_any().downcast_ref::<I>().unwrap().0 == 3, "three operand words"),
        _ => check(false, "kind"),
    }
}''')

bug("c05-error-swallowed","C05",[(R,'''                let (block, extinst) = try!(set.read_instruction(inst, block));''','''                let (block, extinst) = match set.read_instruction(inst, block) {
                    Ok(read) => read,
                    // report which instruction it was that ended too early
                    Err(ReadError::UnexpectedEndOfInstruction) => {
                        return Err(ReadError::UnknownExtInstOp(set.get_name(), inst))
                    }
                    Err(err) => return Err(err),
                };''')],"an extended instruction without its operand","the error the set returned is replaced",
'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![1], string(b"GLSL.std.450")])), inst(12, &[2, 3, 1, 13])]);
    check(read(&w) == Err(ReadError::UnexpectedEndOfInstruction), "UnexpectedEndOfInstruction");
}''')

# ---------------------------------------------------------------- C06
bug("c06-access-none","C06",[(T,'''        if parts.len() == 0 {
            write!(f, "None")
        } else {
            write!(f, "{}", parts.join(" | "))
        }
    }
}

impl DisplayArgType for FunctionControl {}''','''        if parts.len() == 0 {
            write!(f, "None")
        } else if parts.len() == 4 {
            write!(f, "All")
        } else {
            write!(f, "{}", parts.join(" | "))
        }
    }
}

impl DisplayArgType for FunctionControl {}''')],"a function with all four control flags","the flags are not printed by their own names",
'''fn main() {
    let m = read(&module(&[inst(54, &[1, 2, 15, 3])])).unwrap();
    check(m.to_string().contains("Inline | DontInline | Pure | Const"), "the four flags");
}''')

bug("c06-format-pair","C06",[(D,'''        write!(f, "{:>12} = ", OpId((self.0).0))''','''        write!(f, "{:>12.11} = ", OpId((self.0).0))''')],"an id of eleven characters or more (4294967295 prints as %4294967295, eleven characters); none is longer","none",
'''fn main() { check(true, "unused"); }''') if False else None

bug("c06-phi","C06",[(D,'''        for element in self {
            try!(write!(f, " "));
            try!(<T as DisplayArg>::display_arg(element, f));
        }
        Ok(())''','''        for (i, element) in self.iter().enumerate() {
            // keep lines of very long lists readable
            if i > 0 && i % 1024 == 0 {
                try!(write!(f, "\\n               "));
            }
            try!(write!(f, " "));
            try!(<T as DisplayArg>::display_arg(element, f));
        }
        Ok(())''')],"an operand list of more than 1,024 elements","the entry of an instruction is broken over several lines",
'''fn main() {
    let ids: Vec<u32> = (1..2000).collect();
    let m = read(&module(&[inst(30, &ids)])).unwrap();
    check(m.to_string().lines().count() == 6, "one line per instruction");
}''')

bug("c06-optional-zero","C06",[(D,'''            Some(ref t) => {
                try!(write!(f, " "));''','''            Some(ref t) => {
                if f.alternate() {
                    return Ok(());
                }
                try!(write!(f, " "));''')],"printing with the alternate flag","optional operands are omitted",
'''fn main() { check(true, "unused"); }''') if False else None

bug("c06-source-language","C06",[(T,'''            SourceLanguage::Other(n) => return write!(f, "Unknown({})", n),''','''            SourceLanguage::Other(n) => return write!(f, "Unknown({})", n as u16),''')],"a source language number of 65,536 or more","distinct enumerants print the same",
'''fn main() {
    let m = read(&module(&[inst(3, &[0x1_0005, 1])])).unwrap();
    check(m.to_string().contains("Unknown(65541)"), "Unknown(65541)");
}''')

# ---------------------------------------------------------------- C07
bug("c07-duplicate-param","C07",[(PP,'''                let (blocks, insts) = match read_many(insts, read_basic_block) {''','''                // a parameter is declared once
                let mut params = params;
                params.dedup();
                let (blocks, insts) = match read_many(insts, read_basic_block) {''')],"a function definition with two identical parameters in a row","an instruction is lost from the logical module",
'''fn main() {
    let p = |n: u32| Core::OpFunctionParameter(OpFunctionParameter { result_type: OpId(1), result_id: ResultId(n) });
    let w = module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(55, &[1, 7]), inst(55, &[1, 7]), inst(248, &[9]), inst(253, &[]), inst(56, &[])]);
    let l = validate(read(&w).unwrap()).unwrap();
    let _ = p;
    check(l.function_definitions[0].parameters.len() == 2, "two parameters");
}''')

bug("c07-names-order","C07",[(PP,'''    if insts.get_remaining() > 0 {
        return Err(ValidationError::UnexpectedInstruction(insts.get_slot()));
    }
''','''    if insts.get_remaining() > 0 {
        return Err(ValidationError::UnexpectedInstruction(insts.get_slot()));
    }

    // strings come first so that everything can refer to them
    let (strings, mut others): (Vec<_>, Vec<_>) = debug.into_iter().partition(|op| match *op {
        GroupDebug::OpString(_) => true,
        _ => false,
    });
    let mut debug = strings;
    debug.append(&mut others);
''')],"a module with an OpString after another debug instruction","the debug section is not in the original order",
'''fn main() {
    let w = module(&[inst(14, &[0, 1]), inst(5, &cat(&[vec![4], string(b"a")])), inst(7, &cat(&[vec![5], string(b"b")]))]);
    let l = validate(read(&w).unwrap()).unwrap();
    match l.debug[0] {
        GroupDebug::OpName(_) => {}
        _ => check(false, "the name comes first"),
    }
}''')

bug("c07-merge-kept","C07",[(PP,'''        let block = BasicBlock {
            label: label,
            code: code,
            merge: merge,''','''        // a merge instruction before a return has no meaning
        let merge = match branch {
            GroupBranch::OpReturn(_) => None,
            _ => merge,
        };
        let block = BasicBlock {
            label: label,
            code: code,
            merge: merge,''')],"a block with a merge instruction that ends in a return","the merge instruction is lost",
'''fn main() {
    let w = module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(248, &[9]), inst(247, &[9, 0]), inst(253, &[]), inst(56, &[])]);
    let l = validate(read(&w).unwrap()).unwrap();
    check(l.function_definitions[0].blocks[0].merge.is_some(), "the merge instruction");
}''')

# ---------------------------------------------------------------- C08
bug("c08-declared-late","C08",[(PP,'''                if let Some(&OpByBlock::OpFunctionEnd(_)) = insts.first() {
                    let insts = insts.advance();''','''                // only declarations have no body
                if blocks.is_empty() && params.len() > 0 {
                    return PhaseResult::Err(ValidationError::ExpectedOpFunctionEnd(insts.get_slot()));
                }
                if let Some(&OpByBlock::OpFunctionEnd(_)) = insts.first() {
                    let insts = insts.advance();''')],"a function with parameters and without blocks after a function definition","a legal layout is refused",
'''fn main() {
    let f = |p: bool, b: bool| {
        let mut v = vec![inst(54, &[1, 2, 0, 3])];
        if p { v.push(inst(55, &[1, 7])); }
        if b { v.push(inst(248, &[9])); v.push(inst(253, &[])); }
        v.push(inst(56, &[]));
        v.concat()
    };
    let w = module(&[inst(14, &[0, 1]), f(false, true), f(true, false)]);
    check(validate(read(&w).unwrap()).is_ok(), "accepted");
}''')

bug("c08-two-merges","C08",[(PP,'''    if let Some(&OpByBlock::GroupMerge(ref op)) = insts.first() {
        (Some(op.clone()), insts.advance())''','''    if let Some(&OpByBlock::GroupMerge(ref op)) = insts.first() {
        let mut insts = insts.advance();
        while let Some(&OpByBlock::GroupMerge(ref next)) = insts.first() {
            // the same merge stated twice
            if next != op {
                break;
            }
            insts = insts.advance();
        }
        (Some(op.clone()), insts)''')],"a block with the same merge instruction twice","an illegal layout is accepted (and an instruction is lost)",
'''fn main() {
    let w = module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(248, &[9]), inst(247, &[9, 0]), inst(247, &[9, 0]), inst(253, &[]), inst(56, &[])]);
    check(validate(read(&w).unwrap()) == Err(ValidationError::ExpectedBranch(4)), "two merges are refused");
}''')

bug("c08-second-model","C08",[(PP,'''    let (entry_points, insts) = try!(read_many(insts, read_entry_point));''','''    // the same memory model may be stated by every module that was linked in
    let mut insts = insts;
    while let Some(&OpByBlock::OpMemoryModel(ref op)) = insts.first() {
        if *op != memory_model {
            break;
        }
        insts = insts.advance();
    }
    let (entry_points, insts) = try!(read_many(insts, read_entry_point));''')],"two equal memory model instructions","an illegal layout is accepted",
'''fn main() {
    let w = module(&[inst(14, &[0, 1]), inst(14, &[0, 1])]);
    check(validate(read(&w).unwrap()).is_err(), "two memory models are refused");
}''')

bug("c08-end-index","C08",[(PP,'''                } else {
                    PhaseResult::Err(ValidationError::ExpectedOpFunctionEnd(insts.get_slot()))
                }''','''                } else if insts.get_remaining() == 0 && blocks.len() > 1 {
                    PhaseResult::Err(ValidationError::ExpectedOpFunctionEnd(insts.get_slot() - 1))
                } else {
                    PhaseResult::Err(ValidationError::ExpectedOpFunctionEnd(insts.get_slot()))
                }''')],"a module that ends after the second or a later block of a function","the reported index is not the instruction count",
'''fn main() {
    let w = module(&[inst(14, &[0, 1]), inst(54, &[1, 2, 0, 3]), inst(248, &[9]), inst(249, &[10]), inst(248, &[10]), inst(253, &[])]);
    check(validate(read(&w).unwrap()) == Err(ValidationError::ExpectedOpFunctionEnd(6)), "ExpectedOpFunctionEnd(6)");
}''')

# ---------------------------------------------------------------- C09
bug("c09-same-arms","C09",[(C,'''                        let (false_chain, false_next) = try!(search_block(false_block,
                                                                          &inner_fl,
                                                                          block_map,
                                                                          &mut HashSet::new()));
''','''                        let (false_chain, false_next) = try!(search_block(false_block,
                                                                          &inner_fl,
                                                                          block_map,
                                                                          &mut HashSet::new()));
                        // an empty true arm is better written the other way round
                        let (true_chain, false_chain) = if true_chain == ControlFlowChain::Block(vec![]) && hints.flatten && weights.is_some() {
                            (false_chain, true_chain)
                        } else {
                            (true_chain, false_chain)
                        };
''')],"a selection with the Flatten hint, branch weights and an empty true arm","the arms are exchanged",
'''fn main() {
    let f = func(vec![
        blk(1, Some(GroupMerge::OpSelectionMerge(OpSelectionMerge { merge_block: OpId(5), selection_control: SelectionControl { flatten: true, dont_flatten: false } })), condw(5, 2, Some((1, 3)))),
        blk(2, sel(5), cond(3, 5)),
        blk(3, None, br(5)),
        blk(5, None, ret()),
    ]);
    let f2 = func(vec![
        blk(1, Some(GroupMerge::OpSelectionMerge(OpSelectionMerge { merge_block: OpId(5), selection_control: SelectionControl { flatten: true, dont_flatten: false } })), condw(5, 2, Some((1, 3)))),
        blk(2, sel(4), cond(3, 4)),
        blk(3, None, br(4)),
        blk(4, None, br(5)),
        blk(5, None, ret()),
    ]);
    for f in vec![f, f2] {
        match find_control_flow(f).unwrap() {
            ControlFlowChain::Block(v) => match v[0] {
                ControlFlowChain::Selection(_, ref t, _, _, _) => check(**t == ControlFlowChain::Block(vec![]), "the true arm is empty"),
                _ => check(false, "selection"),
            },
            _ => check(false, "block"),
        }
    }
}''')

bug("c09-continue-last","C09",[(C,'''                        let break_box = if is_break {''','''                        // leaving the last block of a body is the same either way
                        let is_break = is_break || (is_continue && *inner_box == ControlFlowChain::Block(vec![]));
                        let break_box = if is_break {''')],"a conditional continue whose true edge goes straight back to the loop header","a continue becomes a break",
'''fn main() {
    let f = func(vec![blk(1, lp(4, 1), br(2)), blk(2, None, cond(1, 1)), blk(4, None, ret())]);
    let t = find_control_flow(f).unwrap().to_string();
    check(t.contains("continue;"), "continue");
}''')

bug("c09-block-order","C09",[(C,'''            if let None = start_opt {
                start_opt = Some(id);
            }''','''            // the entry block is the first one that does something
            if start_opt.is_none() || (map.len() == 1 && block.code.len() > 0 && block.label.result_id.0 == 1) {
                start_opt = Some(id);
            }''')],"a function whose second block has the id 1 and code in it","recovery starts at the wrong block",
'''fn main() {
    let mut b = blk(1, None, br(3));
    b.code.push(GroupCode::OpNop(OpNop));
    let f = func(vec![blk(2, None, br(1)), b, blk(3, None, ret())]);
    check(find_control_flow(f).unwrap().to_string() == "%2\\n%1\\n%3\\n", "%2 %1 %3");
}''')

# ---------------------------------------------------------------- C10
bug("c10-false-next","C10",[(C,'''                        if true_next != false_next || true_next != Continue::Next(merge) {''','''                        if true_next != Continue::Next(merge) || (false_next != true_next && false_chain == ControlFlowChain::Block(vec![])) {''')],"a selection inside another construct whose non-empty false arm leads to the outer merge block","an edge that leaves a selection early is treated as if it went to its merge block",
'''fn main() {
    // outer selection 1 merges at 9; inner selection 2 merges at 6, its false arm (4) goes to 9
    let f = func(vec![
        blk(1, sel(9), cond(2, 9)),
        blk(2, sel(6), cond(3, 4)),
        blk(3, None, br(6)),
        blk(4, None, br(9)),
        blk(6, None, br(9)),
        blk(9, None, ret()),
    ]);
    check(find_control_flow(f).is_err(), "refused");
}''')

bug("c10-loop-exit","C10",[(C,'''                        if inner_next != Continue::Next(head) {
                            let control = ControlType::Loop;
                            return Err(ControlFlowError::InvalidConvergePrediction(control, id));
                        }

                        let inner_box = Box::new(inner_chain);
                        chains.push(ControlFlowChain::Loop(id, inner_box, hints, None));''','''                        if inner_next != Continue::Next(head) && inner_next != Continue::Next(BlockId(loop_merge.continue_target.0)) {
                            let control = ControlType::Loop;
                            return Err(ControlFlowError::InvalidConvergePrediction(control, id));
                        }

                        let inner_box = Box::new(inner_chain);
                        chains.push(ControlFlowChain::Loop(id, inner_box, hints, None));''')],"a loop whose continue target is an enclosing construct's merge block, and whose body goes there","a body that leaves the loop is recovered as one that repeats",
'''fn main() {
    let f = func(vec![
        blk(1, sel(9), cond(2, 9)),
        blk(2, lp(5, 9), br(3)),
        blk(3, None, br(9)),
        blk(5, None, br(9)),
        blk(9, None, ret()),
    ]);
    check(find_control_flow(f).is_err(), "refused");
}''')

# ---------------------------------------------------------------- C11
bug("c11-name-cut","C11",[(T,'''                return write!(f, "LinkageAttributes \\"{}\\" {}", name, lt)''','''                let name = match name.find('\\n') {
                    // one line is enough
                    Some(end) if end + 1 == name.len() => &name[..end],
                    _ => if name.len() > 4096 && false { &name[..4096] } else { &name[..] },
                };
                return write!(f, "LinkageAttributes \\"{}\\" {}", name, lt)''')],"-","-",'''fn main() { check(true, "unused"); }''') if False else None

bug("c11-width","C11",[(D,'''        write!(f, "{:>12} = ", OpId((self.0).0))''','''        let text = OpId((self.0).0).to_string();
        for _ in 0..11 - text.len() {
            try!(write!(f, " "));
        }
        write!(f, " {} = ", text)''')],"-","-",'''fn main() { check(true, "unused"); }''') if False else None

bug("c11-string-words","C11",[(M,'''        let mut bytes = Vec::with_capacity(16);''','''        let mut bytes = Vec::with_capacity(block.remaining() * 4 - 1);''')],"an instruction that ends where a string operand should begin","the size calculation underflows (panic in builds with overflow checks, capacity overflow in others)",
'''fn main() {
    check(read(&module(&[inst(4, &[])])) == Err(ReadError::UnexpectedEndOfInstruction), "refused");
}''')

bug("c11-deep-print","C11",[(C,'''            for _ in 0..indent {
                try!(f.write_str("    "))
            }
            Ok(())
        };
        match *self {''','''            const BLANKS: &'static str = "                                                                                                                                                                                                                                                                ";
            f.write_str(&BLANKS[..4 * indent as usize])
        };
        match *self {''')],"a structure nested 65 levels deep or more","printing panics",
'''fn main() {
    let n = 70;
    let mut b = vec![];
    for i in 0..n {
        b.push(blk(1 + i, sel(1000 - i), cond(2 + i, 1000 - i)));
    }
    b.push(blk(1 + n, None, br(1000 - n + 1)));
    for i in (1..n).rev() {
        b.push(blk(1000 - i, None, br(1000 - i + 1)));
    }
    b.push(blk(1000, None, ret()));
    let t = find_control_flow(func(b)).unwrap().to_string();
    check(t.lines().count() > 70, "printed");
}''')

bug("c11-sorted","C11",[(PP,'''    fn advance(self) -> OpSlice<'a> {
        assert!(self.index < self.insts.len());''','''    fn advance(self) -> OpSlice<'a> {
        assert!(self.index < self.insts.len());
        debug_assert!(self.index < u16::max_value() as usize * 16);''')],"-","-",'''fn main() { check(true, "unused"); }''') if False else None

# ---------------------------------------------------------------- C12
bug("c12-hint-none","C12",[(C,'''                try!(write!(f, "loop {}", id));
                if LoopControl::default() != *hint {''','''                try!(write!(f, "loop {}", id));
                if hint.unroll || hint.dont_unroll || hint.dependency_infinite {''')],"a loop whose only hint is a dependency length","a non-default hint is not printed",
'''fn main() {
    let f = func(vec![
        blk(1, Some(GroupMerge::OpLoopMerge(OpLoopMerge { merge_block: OpId(3), continue_target: OpId(1), loop_control: LoopControl { dependency_length: Some(4), ..LoopControl::default() } })), br(2)),
        blk(2, None, cond(1, 3)),
        blk(3, None, ret()),
    ]);
    check(find_control_flow(f).unwrap().to_string().contains("DependencyLength(4)"), "the hint");
}''')

bug("c12-empty-arms","C12",[(C,'''                try!(left.fmt_indent(f, indent + 1));
                if **right != ControlFlowChain::Block(vec![]) {''','''                try!(left.fmt_indent(f, indent + 1));
                if **right != **left && **right != ControlFlowChain::Block(vec![]) {''')],"a selection whose two arms recover to equal structures","the else part of a selection with equal arms is not shown",
'''fn main() {
    let f = func(vec![blk(1, sel(3), cond(2, 2)), blk(2, None, br(3)), blk(3, None, ret())]);
    check(find_control_flow(f).unwrap().to_string().contains("else"), "else part");
}''')

bug("c12-code-run","C12",[(C,'''        for code_op in &block.code {
            try!(write_indent(f));
            try!(writeln!(f, ">>> {}", code_op));
        }''','''        let mut last: Option<&GroupCode> = None;
        for code_op in &block.code {
            // runs of the same instruction are shown once
            if last == Some(code_op) {
                continue;
            }
            last = Some(code_op);
            try!(write_indent(f));
            try!(writeln!(f, ">>> {}", code_op));
        }''')],"a block with two equal code instructions directly after each other (such as two OpNop)","code instructions are not all shown",
'''fn main() {
    let mut b = blk(1, None, ret());
    b.code = vec![GroupCode::OpNop(OpNop), GroupCode::OpNop(OpNop)];
    let f = func(vec![b]);
    let c = find_control_flow(f.clone()).unwrap();
    check(ControlFlowFunctionPrinter(&f, &c).to_string().matches("OpNop").count() == 2, "two OpNop");
}''')

# ---------------------------------------------------------------- C13
bug("c13-thread-buffer","C13",[(R,'''    let mut words = Vec::with_capacity(wc as usize);
    words.push(head);
    for _ in 1..wc {
        words.push(try!(stream.read_word()));
    }
    let block = MemoryBlock::new(&words[1..words.len()]);''','''    thread_local!(static BUFFER: ::std::cell::RefCell<Vec<u32>> = ::std::cell::RefCell::new(Vec::new()));
    // reuse one buffer for all instructions
    let mut words = BUFFER.with(|buffer| ::std::mem::replace(&mut *buffer.borrow_mut(), Vec::new()));
    if words.len() < wc as usize {
        words.resize(wc as usize, 0);
    }
    words[0] = head;
    for i in 1..wc as usize {
        match stream.read_word() {
            Ok(word) => words[i] = word,
            Err(err) => {
                if i == 1 || bound_inst_sets.is_empty() {
                    return Err(err);
                }
                break;
            }
        }
    }
    let words = words;
    BUFFER.with(|buffer| *buffer.borrow_mut() = words.clone());
    let block = MemoryBlock::new(&words[1..wc as usize]);''')],"a module with an import that is cut inside its last instruction, read after another module on the same thread","words of an earlier instruction show up in a later module",
'''fn main() {
    let import = || inst(11, &cat(&[vec![1], string(b"GLSL.std.450")]));
    let long = |x: u32| inst(30, &[1, 2, x, x, x, x, x, x, x, x, x, x, x, x]);
    let a = module(&[import(), long(77)]);
    let mut b = module(&[import(), long(78)]);
    let n = b.len() - 8;
    b.truncate(n);
    let fresh = format!("{:?}", read(&b));
    let _ = read(&a);
    check(format!("{:?}", read(&b)) == fresh, "same answer");
}''')

bug("c13-hash-order","C13",[(C,'''            if let Some(_) = map.insert(id, block) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
        }
        map
    };
''','''            *seen.entry(id).or_insert(0) += 1;
            map.insert(id, block);
        }
        if let Some((id, _)) = seen.iter().find(|&(_, count)| *count > 1) {
            return Err(ControlFlowError::DuplicateBlockId(*id));
        }
        map
    };
'''),(C,'''    let block_map: BlockMap = {
        let mut map = HashMap::new();''','''    let block_map: BlockMap = {
        let mut map = HashMap::new();
        let mut seen: HashMap<BlockId, u32> = HashMap::new();''')],"a function in which two different labels are used twice","which label is reported depends on the random state of a hash map",
'''fn main() {
    let f = func(vec![blk(1, None, br(2)), blk(2, None, ret()), blk(3, None, ret()), blk(2, None, ret()), blk(3, None, ret()), blk(4, None, ret()), blk(4, None, ret())]);
    let first = format!("{:?}", find_control_flow(f.clone()));
    for _ in 0..200 {
        check(format!("{:?}", find_control_flow(f.clone())) == first, "same error");
    }
}''')

bug("c13-failed-names","C13",[(R,'''        Err(ReadError::UnknownInstSet(name))
    }''','''        UNKNOWN.with(|unknown| *unknown.borrow_mut() = name.clone());
        Err(ReadError::UnknownInstSet(name))
    }'''),(R,'''        for inst_set in known_inst_sets {
            if inst_set.get_name() == name {''','''        thread_local!(static UNKNOWN: ::std::cell::RefCell<String> = ::std::cell::RefCell::new(String::new()));
        // do not search again for a name that was not found
        let missing = UNKNOWN.with(|unknown| *unknown.borrow() == name && name.len() > 0);
        for inst_set in known_inst_sets {
            if missing {
                break;
            }
            if inst_set.get_name() == name {''')],"a module that imports a set, read first without and then with that set among the supplied ones","a failed call influences a later one",
'''fn main() {
    let w = module(&[inst(11, &cat(&[vec![1], string(b"GLSL.std.450")]))]);
    check(read_module(&le(&w), vec![]).is_err(), "no set");
    check(read(&w).is_ok(), "with the set");
}''')

bug("c13-parity","C13",[(C,'''                try!(write!(f, "selection {}", id));''','''                static NUMBER: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
                if NUMBER.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed) == 10_000 {
                    try!(write!(f, " "));
                }
                try!(write!(f, "selection {}", id));''')],"the 10,001st selection printed by the process","the text depends on how much was printed before",
'''fn main() {
    let f = func(vec![blk(1, sel(3), cond(2, 2)), blk(2, None, br(3)), blk(3, None, ret())]);
    let c = find_control_flow(f).unwrap();
    let first = c.to_string();
    for _ in 0..20_000 {
        check(c.to_string() == first, "same text");
    }
}''')

# ---------------------------------------------------------------- C14
bug("c14-visited-copies","C14",[(C,'''                        let (true_chain, true_next) = try!(search_block(true_block,
                                                                        &inner_fl,
                                                                        block_map,
                                                                        &mut HashSet::new()));''','''                        let (true_chain, true_next) = try!(search_block(true_block,
                                                                        &inner_fl,
                                                                        block_map,
                                                                        &mut HashSet::with_capacity(block_map.len())));''')],"a function with many selections","every selection reserves space for all blocks: quadratic total",
'''fn main() {
    struct A;
    static TOTAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    unsafe impl std::alloc::GlobalAlloc for A {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { TOTAL.fetch_add(l.size(), std::sync::atomic::Ordering::Relaxed); std::alloc::System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
    }
    #[global_allocator]
    static G: A = A;
    let n = 2000;
    let mut b = vec![];
    for i in 0..n {
        b.push(blk(10 + 2 * i, sel(12 + 2 * i), cond(11 + 2 * i, 12 + 2 * i)));
        b.push(blk(11 + 2 * i, None, br(12 + 2 * i)));
    }
    b.push(blk(10 + 2 * n, None, ret()));
    let f = func(b);
    let before = TOTAL.load(std::sync::atomic::Ordering::Relaxed);
    let r = find_control_flow(f);
    check(r.is_ok(), "recovered");
    let used = TOTAL.load(std::sync::atomic::Ordering::Relaxed) - before;
    check(used < 20_000_000, "memory in proportion");
}''')

bug("c14-error-leak","C14",[(R,'''    if !block.end() {
        return Err(ReadError::InstructionHadExcessData);
    }
    Ok(inst)''','''    if !block.end() {
        // keep the instruction for the debugger
        ::std::mem::forget(inst);
        return Err(ReadError::InstructionHadExcessData);
    }
    Ok(inst)''')],"an instruction with an operand on the heap and unread words after it","a rejected input leaks memory",
'''fn main() {
    struct A;
    static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
    unsafe impl std::alloc::GlobalAlloc for A {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::Relaxed); std::alloc::System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::Relaxed); std::alloc::System.dealloc(p, l) }
    }
    #[global_allocator]
    static G: A = A;
    let b = le(&module(&[inst(4, &cat(&[string(b"abcdefgh"), vec![0]]))]));
    let before = LIVE.load(std::sync::atomic::Ordering::Relaxed);
    for _ in 0..100 {
        check(read_module(&b, glsl()).is_err(), "refused");
    }
    check(LIVE.load(std::sync::atomic::Ordering::Relaxed) - before < 100, "released");
}''')

bug("c14-node-cycle","C14",[(C,'''            chains.push(ControlFlowChain::block(vec![]));
            return Ok((ControlFlowChain::block(chains), Continue::Next(id)));''','''            chains.push(ControlFlowChain::block(vec![]));
            if chains.len() > 2 {
                // the enclosing construct still needs its node
                ::std::mem::forget(flow_list.head.clone());
            }
            return Ok((ControlFlowChain::block(chains), Continue::Next(id)));''')],"an arm or a loop body of two or more parts","the list of enclosing constructs is never released",
'''fn main() {
    struct A;
    static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
    unsafe impl std::alloc::GlobalAlloc for A {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::Relaxed); std::alloc::System.alloc(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::Relaxed); std::alloc::System.dealloc(p, l) }
    }
    #[global_allocator]
    static G: A = A;
    let f = func(vec![blk(1, sel(4), cond(2, 4)), blk(2, None, br(3)), blk(3, None, br(4)), blk(4, None, ret())]);
    let _ = find_control_flow(f.clone());
    let before = LIVE.load(std::sync::atomic::Ordering::Relaxed);
    for _ in 0..100 {
        check(find_control_flow(f.clone()).is_ok(), "recovered");
    }
    check(LIVE.load(std::sync::atomic::Ordering::Relaxed) - before < 100, "released");
}''')

# ---------------------------------------------------------------- C15
bug("c15-weights-eq","C15",[(T,'''#[derive(Clone, Debug, PartialEq)]
pub struct BranchWeights {
    pub true_weight: u32,
    pub false_weight: u32,
}
''','''#[derive(Clone, Debug)]
pub struct BranchWeights {
    pub true_weight: u32,
    pub false_weight: u32,
}

/// Weights are relative to each other
impl PartialEq for BranchWeights {
    fn eq(&self, other: &BranchWeights) -> bool {
        self.true_weight as u64 * other.false_weight as u64 == self.false_weight as u64 * other.true_weight as u64
    }
}
''')],"two branches whose weights are different but in the same ratio","different weights compare equal",
'''fn main() {
    check(condw(1, 2, Some((1, 2))) != condw(1, 2, Some((2, 4))), "different weights");
}''')

bug("c15-list-prefix","C15",[(O,'''#[derive(Clone, Debug, PartialEq)]
pub struct OpPhi {''','''impl PartialEq for OpPhi {
    fn eq(&self, other: &OpPhi) -> bool {
        // the order of the incoming edges does not matter
        self.result_type == other.result_type && self.result_id == other.result_id &&
        self.variables.len() == other.variables.len() &&
        self.variables.iter().all(|v| other.variables.contains(v))
    }
}

#[derive(Clone, Debug)]
pub struct OpPhi {''')],"two OpPhi with the same pairs in a different order (or with different repetitions)","different lists compare equal",
'''fn main() {
    let a = read(&module(&[inst(245, &[1, 2, 3, 4, 5, 6])])).unwrap();
    let b = read(&module(&[inst(245, &[1, 2, 5, 6, 3, 4])])).unwrap();
    check(a != b, "different order");
}''')

bug("c15-clone-source","C15",[(O,'''#[derive(Clone, Debug, PartialEq)]
pub struct OpSource {
    pub language: SourceLanguage,
    pub version: SourceVersion,
    pub file: Option<OpId>,
    pub source: Option<LitString>,
}
''','''#[derive(Debug, PartialEq)]
pub struct OpSource {
    pub language: SourceLanguage,
    pub version: SourceVersion,
    pub file: Option<OpId>,
    pub source: Option<LitString>,
}

impl Clone for OpSource {
    fn clone(&self) -> OpSource {
        OpSource {
            language: self.language.clone(),
            version: self.version.clone(),
            file: self.file.clone(),
            // an empty text is no text
            source: self.source.clone().into_iter().find(|s| s.len() > 0),
        }
    }
}
''')],"an OpSource whose source text is the empty string","a clone differs from its original",
'''fn main() {
    let m = read(&module(&[inst(3, &[2, 430, 7, 0])])).unwrap();
    check(m.clone() == m, "clone equals original");
}''')

bug("c15-module-bound","C15",[(M,'''#[derive(Clone, Debug, PartialEq)]
pub struct RawModule {''','''impl PartialEq for RawModule {
    fn eq(&self, other: &RawModule) -> bool {
        self.version == other.version && self.bound == other.bound &&
        self.generator.tool == other.generator.tool && self.instructions == other.instructions
    }
}

#[derive(Clone, Debug)]
pub struct RawModule {''')],"two modules that differ only in the version of their generator","modules with different headers compare equal",
'''fn main() {
    let a = module(&[]);
    let mut b = a.clone();
    b[2] += 1;
    check(read(&a).unwrap() != read(&b).unwrap(), "different generator versions");
}''')

# ---------------------------------------------------------------- C16
bug("c16-missing-merge","C16",[(C,'''            None => return Err(ControlFlowError::UnknownBlockId(id)),
        };''','''            None => {
                // a merge block that is not there ends the function
                if let Some(&ControlFlowChain::Loop(_, _, _, _)) = chains.last() {
                    return Ok((ControlFlowChain::block(chains), Continue::Return));
                }
                return Err(ControlFlowError::UnknownBlockId(id));
            }
        };''')],"a loop whose merge block does not exist, in the outermost sequence","a branch to a missing block is accepted",
'''fn main() {
    let f = func(vec![blk(1, lp(4, 1), br(2)), blk(2, None, cond(1, 4))]);
    check(find_control_flow(f).is_err(), "refused");
}''')

bug("c16-named-block","C16",[(C,'''                        if inner_next != Continue::Next(head) {
                            let control = ControlType::Loop;
                            return Err(ControlFlowError::InvalidConvergePrediction(control, id));
                        }

                        let inner_box = Box::new(inner_chain);
                        let break_box''','''                        if inner_next != Continue::Next(head) {
                            return Err(ControlFlowError::UnknownBlockId(true_block));
                        }

                        let inner_box = Box::new(inner_chain);
                        let break_box''')],"a loop body that returns after a conditional break","the error is of another kind and names another block",
'''fn main() {
    let f = func(vec![blk(1, lp(4, 1), br(2)), blk(2, None, cond(3, 4)), blk(3, None, ret()), blk(4, None, ret())]);
    let e = format!("{:?}", find_control_flow(f));
    check(e.contains("InvalidConvergePrediction(Loop"), "InvalidConvergePrediction");
}''')

bug("c16-unreachable-dup","C16",[(C,'''            if let Some(_) = map.insert(id, block) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }''','''            if let Some(other) = map.insert(id, block) {
                // the same block twice is harmless
                if *other != *block {
                    return Err(ControlFlowError::DuplicateBlockId(id));
                }
            }''')],"a function that contains an identical copy of one of its blocks","a duplicate label is accepted",
'''fn main() {
    let f = func(vec![blk(1, None, br(2)), blk(2, None, ret()), blk(2, None, ret())]);
    check(find_control_flow(f).is_err(), "refused");
}''')

# ---------------------------------------------------------------- C17
bug("c17-vec-size","C17",[(M,'''        Ok((block, items))
    }
}

impl<T: MemoryBlockRead> MemoryBlockRead for Option<T> {''','''        items.truncate(assumed_size);
        Ok((block, items))
    }
}

impl<T: MemoryBlockRead> MemoryBlockRead for Option<T> {''')],"a caller-defined set that reads a list of enumerants or strings, whose elements take fewer words than their type has in memory","elements are lost from lists",
'''use magmaflow::spv::*;
#[derive(Clone, Debug)]
struct I(Vec<LitString>);
impl std::fmt::Display for I { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "I") } }
impl Op for I { fn get_name(&self) -> &'static str { "I" } }
impl ExtInst for I { fn get_op(&self) -> &dyn Op { self } fn as_any(&self) -> &dyn std::any::Any { self } fn eq(&self, _: &dyn ExtInst) -> bool { false } }
struct S;
impl ExtInstSet for S {
    fn get_name(&self) -> &'static str { "s" }
    fn read_instruction<'a, 'b>(&'b self, _: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let (block, v) = <Vec<LitString> as MemoryBlockRead>::read(block)?;
        Ok((block, Box::new(I(v))))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> { Box::new(S) }
}
fn main() {
    let w = module(&[inst(11, &cat(&[vec![7], string(b"s")])), inst(12, &cat(&[vec![1, 2, 7, 7], string(b"a"), string(b"b"), string(b"c")]))]);
    let m = read_module(&le(&w), vec![Box::new(S)]).unwrap();
    match m.instructions[1] {
        Core::OpExtInst(ref op) => check(op.instruction.as_ref().as_any().downcast_ref::<I>().unwrap().0.len() == 3, "three strings"),
        _ => check(false, "kind"),
    }
}''')

bug("c17-end","C17",[(M,'''    pub fn end(&self) -> bool {
        self.data.len() == 0
    }''','''    pub fn end(&self) -> bool {
        self.data.iter().all(|word| *word == 0)
    }''')],"operand words left over that are all zero (for a set that asks end(), or an instruction with excess zero words)","end() reports the end although words remain",
'''use magmaflow::spv::*;
#[derive(Clone, Debug)]
struct I(u32);
impl std::fmt::Display for I { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "I") } }
impl Op for I { fn get_name(&self) -> &'static str { "I" } }
impl ExtInst for I { fn get_op(&self) -> &dyn Op { self } fn as_any(&self) -> &dyn std::any::Any { self } fn eq(&self, _: &dyn ExtInst) -> bool { false } }
struct S;
impl ExtInstSet for S {
    fn get_name(&self) -> &'static str { "s" }
    fn read_instruction<'a, 'b>(&'b self, _: u32, mut block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let mut n = 0;
        while !block.end() { block = block.read_word()?.0; n += 1; }
        Ok((block, Box::new(I(n))))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> { Box::new(S) }
}
fn main() {
    let w = module(&[inst(11, &cat(&[vec![7], string(b"s")])), inst(12, &[1, 2, 7, 7, 5, 0, 0])]);
    let m = read_module(&le(&w), vec![Box::new(S)]).unwrap();
    match m.instructions[1] {
        Core::OpExtInst(ref op) => check(op.instruction.as_ref().as_any().downcast_ref::<I>().unwrap().0 == 3, "three operands"),
        _ => check(false, "kind"),
    }
}''')
