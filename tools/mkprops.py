import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None)))
R="src/spv/raw/reader.rs"; M="src/spv/raw/mod.rs"; T="src/spv/types.rs"; O="src/spv/op.rs"; D="src/spv/dis.rs"
L="src/spv/logical/mod.rs"; PM="src/spv/logical/parser/mod.rs"; PP="src/spv/logical/parser/parser.rs"; C="src/spv/logical/control_flow.rs"; S="src/spv/mod.rs"; G="src/glsl450/mod.rs"; GO="src/glsl450/op.rs"
p("C01","Well-formed modules decode to exactly what was encoded",
 "Reading the binary of any SPIR-V 1.0 module whose instructions are all of the kinds the library supports succeeds and yields one decoded instruction per encoded instruction, in stream order, each of the right kind and with every operand (ids, literals, enumerants and their parameters, flag sets and their parameters, strings, optional operands, operand lists of any length) holding exactly the encoded value. Re-encoding the decoded module gives back the instruction words that were read, up to the unused bytes after a string's terminator.",
 ["inputs"],"every sequence of supported instructions, every operand value and list/string length up to the 65,535-word limit",
 "The tests decode five small compiler-made shaders that use a fraction of the opcodes and enumerants, with small ids, short ASCII names and no optional operands; one of the five is compared structurally.",
 [R,M,T,O],[("opcode dispatch","reader.rs read_instruction"),("operand reading per instruction","reader.rs def_op_read!"),("operand and enumerant decoding","raw/mod.rs MemoryBlockRead impls")],
 [dict(name="instruction list",meaning="decoded instructions in stream order",where="RawModule.instructions")],["result of read_module"])
p("C02","Malformed binaries are rejected with an error that names the fault",
 "Every byte string that is not a well-formed module of supported instructions is rejected with an error and never yields a module: wrong magic, version or schema word, truncation at any byte, length not a multiple of four, an instruction word count of zero or one that does not fit its operands, unknown or unsupported opcodes, unknown enumerants, any unknown bit in a flag set, unterminated or non-UTF-8 strings. The error is of the kind that matches a fault present in the input, carries the offending value (opcode, instruction name, enumerant, flag word, id, version bytes), and its message names that kind of fault.",
 ["inputs","fault_sequences"],"every byte string, in particular every single-fault corruption of a well-formed module",
 "No test feeds the reader anything but valid files, so no error path is ever taken.",
 [R,M],[("stream length and alignment","reader.rs Stream::read_word"),("header checks","reader.rs read_module"),("excess-data check","reader.rs read_instruction"),("unknown-value errors","raw/mod.rs MemoryBlockRead impls"),("error messages","raw/mod.rs Error for ReadError")],
 None,["Err value of read_module","Display of the error"])
p("C03","Byte order of the file does not change the result",
 "Storing the same sequence of 32-bit words in little-endian or in big-endian byte order leads to the same outcome: either both read to equal modules, with equal disassembly, or both are rejected with the same error. This includes literal strings, multi-word literals and inputs that are cut short.",
 ["inputs"],"every word sequence, valid or not, and every truncation of it",
 "All test files are little-endian; the swapped-magic branch is never executed.",
 [R],[("magic-number detection and endianness switch","reader.rs read_module, Stream::invert_endianness, Stream::read_word")],
 [dict(name="byte order flag",meaning="how following words are assembled",where="Stream.is_le")],["results of two read_module calls"])
p("C04","Header fields are reported exactly",
 "For every module that reads successfully, the reported version, generator tool, generator version and id bound are exactly the values encoded in the five header words, for every registered tool id and for unregistered ones (which keep their number). Only version 1.0 with a zero schema word is accepted; any other version or schema word is rejected, whichever of its bits differ. The textual header states the same version, tool name, tool version and bound.",
 ["inputs"],"all 2^16 tool ids, all tool versions, all bounds, all version and schema words",
 "The tests contain two header variants; 65,534 tool ids, most bounds and every bad version or schema word are untested.",
 [R,M,T],[("header decoding","reader.rs read_module"),("tool names","types.rs Tool::get_vendor/get_tool"),("header printing","raw/mod.rs Display for RawModule")],
 None,["RawModule.version/generator/bound","first five lines of the disassembly"])
p("C05","Extended instructions are decoded by the set imported under their id",
 "Each extended-instruction import is matched by exact name to the first caller-supplied set of that name and bound to its result id; every extended instruction is then decoded by the set bound earlier in the stream to the id it names, which receives exactly its instruction number and its operand words, and whatever that set returns (instruction or error) is what the caller gets. An import of a set that was not supplied, a second import under a bound id, a use of an id that is not bound (yet), an instruction number the set does not know, and operand words the set leaves unread are each reported as an error identifying the name, id or number. For the built-in GLSL set, the decoded instruction, its name and its printed form are those of the encoded number and operand.",
 ["inputs","histories","configurations"],"every list of supplied sets and every sequence of imports and uses in a module",
 "The tests supply one set, import it once, and use two instructions of it; error paths, several sets, several imports and caller-defined sets are never exercised.",
 [R,S,G,GO],[("import binding","reader.rs CoreRead for OpExtInstImport"),("dispatch by bound id","reader.rs CoreRead for OpExtInst"),("GLSL set","glsl450/mod.rs InstSet"),("ownership, equality, cloning of extended instructions","spv/mod.rs ExtInstBox")],
 [dict(name="bound sets",meaning="id -> set imported so far",where="reader.rs bound_inst_sets")],["calls received by caller-defined sets","OpExtInst values"])
p("C06","Disassembly states every instruction and operand faithfully",
 "The text of a module is its header followed by exactly one entry per instruction in order; each entry has the result id (if any) right-aligned before the equals sign, the instruction's name, and its operands in encoded order: ids with a percent sign, numbers in decimal, enumerants and set flags by their own name with their parameters, string operands verbatim between double quotes, absent optional operands omitted. Distinct enumerants and distinct flag sets never print the same, and every printable public instruction type prints by the same rules on its own.",
 ["inputs"],"every module value, whether read from a binary or built by the caller",
 "Five golden files cover a fraction of the instructions and enumerants, with small ids and short names.",
 [M,D,O,T,GO],[("entry layout","dis.rs def_op_display!, FormatArg, DisplayArg"),("operand order per instruction","op.rs def_op_display! uses"),("enumerant and flag names","types.rs Display impls"),("module text","raw/mod.rs Display for RawModule and Core")],
 None,["Display of RawModule, Core and every instruction struct"])
p("C07","The logical module holds every instruction once, in place and in order",
 "When a module is accepted as a logical module, every one of its instructions appears exactly once in it with unchanged operands, in the section its kind belongs to, and reading the sections out in layout order (with functions as header, parameters, blocks of label, code, merge, branch, end) gives back the original instruction list. Variables of function storage class appear only inside blocks and all other variables only among the globals.",
 ["inputs"],"every instruction list that is accepted, with any number of instructions per section",
 "The tests only check that five modules are accepted; the contents of the logical module are never looked at.",
 [PP,PM,L],[("classification by kind","parser/mod.rs From<Core> for OpByBlock"),("section reading","parser/parser.rs read_* functions"),("assembly","parser/parser.rs validate")],
 [dict(name="cursor",meaning="index of next unread instruction",where="parser.rs OpSlice.index")],["LogicalModule returned by validate"])
p("C08","A module is accepted as logical exactly when its layout is legal",
 "Validation succeeds exactly when the instructions are, in this order: capabilities, extensions, set imports, one memory model, entry points, execution modes, debug instructions, annotations, globals (types, constants, non-function variables), function declarations (header, parameters, end), function definitions (header, parameters, blocks, end), where a block is a label, code, at most one merge and one branch or return; a bodiless function after a definition counts as a definition without blocks. Otherwise it fails: with a missing-memory-model error if that instruction is not where it must be, else with an error carrying the index of the first instruction that does not fit (the instruction count if the list ends too early, or the index of a function header that is the very last instruction) and saying what was expected there.",
 ["inputs"],"every instruction list, in particular every single insertion, deletion, swap or truncation of a legal one",
 "The tests validate five legal modules and never an illegal one.",
 [PP,PM],[("phase sequence","parser/parser.rs validate, read_many"),("declaration/definition decision","parser/parser.rs read_function_declaration, read_function_definition"),("block grammar","parser/parser.rs read_basic_block"),("leftover check","parser/parser.rs validate")],
 None,["Ok/Err of validate, error payload"])
p("C09","Structured functions are recovered as the structure they were built from",
 "For every function built from straight-line blocks, two-armed selections with a merge block, and loops whose header branches unconditionally into a body that returns to the header and is left by conditional breaks or continues (false edge to the loop's merge block or header, in the body itself rather than in an arm of a selection inside it), ending in one return, control-flow recovery succeeds and yields exactly that nesting: the same blocks in the same order, true and false arms not exchanged, the same selection and loop hints and branch weights, break and continue where they were, each run of blocks and constructs in one flat sequence that holds no other sequence directly. This holds for any nesting, any length, any ids, any order of the non-entry blocks and any additional unreachable blocks.",
 ["programs"],"every structured function of that form up to SPIR-V's nesting limit, of any length",
 "Four of the five test shaders have one or two constructs each, and the recovered structure is not inspected: only success is asserted.",
 [C],[("recursive search","control_flow.rs search_block"),("open-construct list","control_flow.rs FlowList"),("sequence flattening","control_flow.rs ControlFlowChain::block")],
 [dict(name="flow list",meaning="constructs currently open and where they converge",where="control_flow.rs FlowList/FlowNode")],["ControlFlowChain returned by find_control_flow"])
p("C10","Recovered control flow takes exactly the paths of the block graph",
 "Whenever control-flow recovery succeeds on a function, for any block graph at all, executing the recovered structure visits the same sequence of blocks as executing the block graph, for every sequence of branch decisions: it starts at the first block, takes the true arm on true and the false arm on false, repeats loops from their header, leaves them on break, and ends exactly where the function returns. No reachable block is lost, duplicated on a path, or reordered.",
 ["programs","inputs"],"every function body (legal or not) on which recovery returns a structure, and every sequence of branch decisions",
 "The tests never look at the recovered structure and contain no irregular block graph.",
 [C],[("convergence checks","control_flow.rs search_block (next-block comparison for selections, loops and breaks)"),("open-construct list","control_flow.rs FlowList::merges, innermost_loop")],
 None,["ControlFlowChain returned by find_control_flow vs. the FunctionDefinition given to it"])
p("C11","No input makes the library panic, crash or run without end",
 "Reading any byte string, printing any module that was read, validating any instruction list, and recovering and printing the control flow of any function always return a value or an error: they never panic, overflow the stack, abort, read outside their input or fail to terminate. This holds for modules, sections, operand lists, strings, block sequences and block counts of any length and for nesting up to SPIR-V's limit of 1,023 (a conditional break or continue nests what follows it by one more level), in an optimised build on a normal 2 MiB thread stack, including cyclic, self-referential and dangling block graphs.",
 ["inputs","programs"],"all byte strings, all instruction lists, all block graphs",
 "Five well-formed inputs reach no hostile length, cycle or dangling reference.",
 [R,M,PP,C,D],[("bounds-checked stream and block readers","reader.rs Stream, raw/mod.rs MemoryBlock"),("error returns instead of indexing","parser.rs OpSlice"),("cycle handling","control_flow.rs search_block")],
 None,["process under sanitizers and Miri, panics, signals, CPU time"])
p("C12","Printed control flow shows the recovered structure and all its code",
 "The printed form of a recovered structure lists its blocks, selections, loops, breaks and continues in order, nested and indented as they are, with non-default hints and any branch weights, and shows an else part exactly when the false arm is not empty. The function printer shows, at those same places, each block with its id, all its code instructions in order and its branch.",
 ["programs"],"every recovered structure and its function",
 "No test prints control flow.",
 [C,L],[("structure printing","control_flow.rs ControlFlowChain::fmt_indent"),("function printing","control_flow.rs ControlFlowFunctionPrinter"),("instruction text","logical/mod.rs Display for GroupCode, GroupBranch")],
 None,["Display of ControlFlowChain and ControlFlowFunctionPrinter"])
p("C13","Results depend only on the input, not on history or threads",
 "Reading, printing, validating and recovering control flow give the same result for the same input whenever and however often they are called: after any other calls, successful or failed, in any order, and from any number of threads at once, without data races. Nothing learned from one module (such as imported instruction sets) influences another, and the caller's input bytes are not modified.",
 ["histories","schedules"],"every sequence and every concurrent interleaving of calls",
 "Each test makes one call chain; no test repeats, interleaves or compares calls.",
 [R,PP,C],[("all state is local to a call","reader.rs read_module (bound sets), control_flow.rs (block map)")],
 None,["digests of results across orders, repetitions and threads; Miri and ThreadSanitizer reports"])
p("C14","Memory use stays proportional to the input",
 "Reading a byte string, validating a module, recovering control flow and printing a module, a recovered structure or a function need memory (peak and total allocated) at most proportional to the size of their input (and of the text they produce) plus a constant of at most half a mebibyte; no count, bound, id or length stated in the input, however large, causes more. Rejected inputs obey the same limit, and everything allocated is released when results are dropped.",
 ["inputs"],"every input, in particular ones that declare far larger counts than they contain, and growing families of valid ones",
 "Tests do not measure allocation and use inputs of at most a few hundred words.",
 [R,M,PP,C],[("per-instruction buffer bounded by 16-bit word count","reader.rs read_instruction"),("list capacity bounded by remaining words","raw/mod.rs MemoryBlockRead for Vec"),("growth by push","reader.rs read_module, parser.rs read_many")],
 None,["counting allocator around each call"])
p("C15","Equality and cloning agree with content",
 "Two modules, instructions, logical modules, recovered structures or reported errors compare equal exactly when all their contents are the same, including the contents of extended instructions, and never when a single operand, flag, string or list element differs; equality is symmetric and extended instructions of different sets are never equal. A clone is equal to its original, prints the same, and stays valid and unchanged after the original is dropped.",
 ["inputs"],"every pair of values that can be built or read",
 "One test compares one module with one expected value; inequality and cloning are never tested.",
 [S,O,T,M,L,G],[("derived equality","op.rs, types.rs, raw/mod.rs, logical/mod.rs derives"),("extended-instruction equality and cloning","spv/mod.rs ExtInstBox, ExtInstClone; glsl450/mod.rs ExtInst for Inst")],
 None,["==, != and clone on RawModule, Core, LogicalModule, ControlFlowChain"])
p("C16","Functions whose blocks form no structure are refused, naming a block",
 "Control-flow recovery refuses, with an error and no structure: a function without blocks; one in which two blocks have the same label (naming that label); one whose reachable code branches to a block that does not exist (naming the missing block); one with a conditional branch that neither has a merge block nor leaves or continues the innermost loop by its false edge (naming that block); and one in which an arm of a selection or a loop body does not lead to its merge block or header, for example because it returns (naming the construct's kind and header). When exactly one such fault is present in an otherwise structured function, the error is that fault's.",
 ["programs","fault_sequences"],"every structured function with any one such fault injected at any place",
 "No test runs recovery on a faulty function.",
 [C],[("block map construction","control_flow.rs find_control_flow"),("missing-block and convergence errors","control_flow.rs search_block")],
 None,["Err value of find_control_flow"])
p("C17","Public operand readers give an instruction set exactly what was encoded",
 "A caller-defined instruction set that decodes its operands with the library's public readers (words, ids, strings, numbers, every enumerant with its parameters, every flag set with its parameters, optional operands and lists of any of these, operand types of the caller's own, and whole instruction structs) gets from each reader exactly the value that the next operand words encode, with the number of remaining words reduced by exactly the words that value occupies; end-of-operands is reported exactly when no word remains. A reader whose words run out or hold no valid value returns the error that names the fault and its value. Readers may be combined in any order, and no reader panics.",
 ["inputs","configurations"],"every sequence of readers and every sequence of operand words up to the 65,535-word limit",
 "No test defines an instruction set of its own, and the built-in one reads a single id.",
 [M,S],[("operand cursor","raw/mod.rs MemoryBlock::read_word, remaining, end, read_op_id"),("operand readers","raw/mod.rs MemoryBlockRead impls"),("dispatch to the caller's set","reader.rs CoreRead for OpExtInst")],
 None,["values, remaining counts and errors seen by the caller's set, and the result of read_module"])
p("C18","Printing stops and reports an error as soon as the writer fails",
 "When the writer that a module, an instruction, an error message, a recovered structure or a function is printed to fails, at whatever point of the text, printing returns that error at once: it never reports success, never panics and never writes anything after the failure, and what the writer had accepted before is the beginning of the full text.",
 ["fault_sequences","crash_points"],"every printable value and every point at which its writer can fail",
 "Tests print into strings, whose writer cannot fail.",
 [D,M,C,L,T,O],[("propagation of write errors","dis.rs def_op_display!, FormatArg; raw/mod.rs and control_flow.rs Display impls"),("indentation and nesting","control_flow.rs fmt_indent")],
 None,["Result of writing to a failing fmt::Write, and what it had accepted"])
p("C19","Time grows in proportion to the input",
 "Reading, printing, copying, comparing and validating a module, and recovering the control flow of a structured function and printing the recovered structure, take time proportional to the size of the input for a given depth of nesting: no section, operand list, string, number of imports, functions, parameters or blocks, however long, makes a word cost more than it does in a short input, whether the input is accepted or refused.",
 ["inputs","programs"],"every length of every part of a module",
 "Tests use inputs of at most a few hundred words and do not look at time.",
 [R,M,PP,C],[("one pass over the words","reader.rs read_module"),("one pass over the instructions","parser.rs validate, read_many"),("block lookup by id","control_flow.rs BlockMap")],
 None,["CPU time of each stage at two sizes"])
p("C20","From binary to printed functions nothing is lost, added or moved",
 "For every well-formed SPIR-V 1.0 binary in legal layout whose function bodies are structured, in either byte order and with any number of functions, the whole way succeeds: reading, validating, and for each function recovering its control flow and printing it. The logical module then holds exactly the encoded instructions in their sections, the functions are those encoded, in order and each with its own header, parameters and blocks, and the printed text of each function shows exactly its blocks, code instructions, branches and nesting, whatever other functions, block ids, names or imported sets the module contains.",
 ["inputs","programs"],"every such binary, with any number and size of sections and functions",
 "Five single-function shaders go through reading and validation; the recovered structure and the function text are never compared with anything.",
 [R,PP,C,L],[("reading","reader.rs read_module"),("validation","parser.rs validate"),("recovery","control_flow.rs find_control_flow"),("printing","control_flow.rs ControlFlowFunctionPrinter")],
 None,["RawModule, LogicalModule, ControlFlowChain and the printed texts of one input"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
