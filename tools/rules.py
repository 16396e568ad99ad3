"""Per property: how cases are made and what makes one count as distinct and non-trivial; what is assumed."""
SPEC = "the instruction, enumerant and flag tables in harness/src/spec_gen.rs state SPIR-V 1.0 as this library supports it"
RULES = {
 "C01": ("Modules are built as abstract instructions from the specification tables (every opcode, every enumerant and flag combination with parameters, boundary values, strings and lists of all lengths, random mixes), encoded by the harness's own encoder, read by read_module, lifted back by field accessors and compared operand by operand; then re-encoded and compared word by word. A case counts as distinct by the hash of its bytes; empty modules do not count.", [SPEC]),
 "C02": ("Valid modules are damaged (every truncation point, word counts, opcodes 0..65535, enumerants, flag bits, strings, header words, padding and garbage of any length after or inside a module, random havoc) and read; a reference decoder computes the set of faults present, an accepted input must be fault-free, a rejected one must have its error in that set with matching payload and message. Distinct by bytes; only inputs that carry at least one fault count.", [SPEC, "where one input carries several faults any of them may be reported"]),
 "C03": ("Each word sequence (valid, damaged, cut) is stored in both byte orders, both are read, and the two outcomes (module, text, error) must be equal. Distinct by word sequence.", []),
 "C04": ("All 65,536 tool ids, tool versions, bounds, every single-bit change of version and schema words and random header words, in both byte orders; fields and the printed header are compared with the encoded values. Distinct by header words.", ["tool names are those of the SPIR-V registry as of the pinned commit"]),
 "C05": ("Lists of caller-defined recording sets and the GLSL set, and modules of imports and uses in any order including unbound, duplicate, unknown and over-long ones; the log of calls each set received and the module or error returned are compared with a model of the binding rules. Distinct by (sets, bytes).", ["caller-defined sets are deterministic"]),
 "C06": ("Values of every printable type (built, and read from bytes) are printed and compared character by character with the text of an independent disassembler; all pairs of enumerants and flag sets are checked to print differently. Distinct by the printed value's hash.", [SPEC]),
 "C07": ("Legal and illegal instruction lists are validated; for accepted ones the logical module is read out section by section and compared with the input list. Distinct by sequence of instruction kinds; only accepted modules count.", [SPEC]),
 "C08": ("Instruction lists (exhaustive short sequences of one representative per class, every opcode in every section, all single edits and prefixes of legal modules, random soups, long ones) are validated, and the outcome is compared with a recogniser of the layout grammar: acceptance, error kind, index. Distinct by sequence of instruction kinds.", [SPEC]),
 "C09": ("Structured programs are generated as trees, lowered to blocks with random ids, order and unreachable blocks, recovered, and the recovered structure compared with the tree; no sequence may directly hold another. Distinct by block graph; single-block functions do not count.", []),
 "C10": ("Block graphs (all graphs up to 3 blocks, samples of 4, random, structured ones with edges bent, graphs sharing blocks, graphs of up to 70,000 blocks) are given to recovery; each recovered structure is turned into an automaton and compared with the block graph by a product walk that covers every decision sequence. Distinct by block graph; only graphs with a recovered structure count.", ["graphs on which recovery returns an error are judged by C16"]),
 "C11": ("Byte strings (random, damaged, near-valid), instruction lists, block graphs (random, cyclic, dangling), long texts of wide characters, very long inputs and 1,023-fold nests are pushed through reading, printing, validating, recovering and printing control flow on 2 MiB stacks; panics, aborts, signals, sanitizer reports and CPU time are watched. Distinct by input.", ["optimised build with debug assertions and overflow checks"]),
 "C12": ("Recovered and hand-built structures are printed and compared character by character with an independent printer, and the function printer likewise with every code instruction kind. Distinct by block graph.", [SPEC]),
 "C13": ("A pool of inputs is processed in different orders, repeatedly, 256 or 65,536 calls apart, after failing calls, after panics of the caller's own code, from inside the caller's instruction sets and writers while another call is under way, from other addresses and reused buffers, on many threads at once (also with deep nests, names and other stack sizes) and in fresh processes with other environments; digests of every result (value, text, error) must be equal, and the input bytes unchanged; the concurrent part is repeated under ThreadSanitizer and Miri. Distinct by (input, history).", ["caller-defined sets are deterministic"]),
 "C14": ("Inputs that state huge numbers, valid and damaged modules, long ones, legal logical modules, very many functions, blocks, parameters and instructions in every proportion, long runs of every two kinds of instruction, structured functions and long rows of constructs, with their printed structure and function text, are processed under a counting allocator; peak and total bytes may be at most 100 and 250 bytes per input byte plus 512 KiB (about ten times what is measured; one instruction's 16-bit word count alone accounts for 256 KiB), text at most 40 bytes per byte, and everything must be released. Distinct by input.", ["memory is what passes through Rust's global allocator"]),
 "C15": ("Pairs of modules, instructions, logical modules and structures that are equal or differ in exactly one leaf (every operand of every kind) or only in order, extended instructions that differ only in what their text does not show, long modules, lists, strings, sections and structures that differ in one place, and errors of every kind, are compared in both directions, cloned (also over other values), and the clone compared after the original is gone. Distinct by pair.", []),
 "C17": ("Modules import a caller-defined set whose instructions are scripts: each runs a list of public readers over its operand words. Every reader on every kind of words (systematic), random scripts, long lists, and operand types of the caller's own (no, half, one or several words, failing ones) alone, optional and in lists; each reader's value, remaining count or error, and the module or error finally returned, are compared with a reference decoder. Distinct by (script, words).", [SPEC]),
 "C18": ("Instructions of every kind, modules, error messages, recovered structures and functions are printed to writers that fail once, at every write call (up to 48 per value; 400 in the thorough tier) and at random bytes, for good or only once; the result must be an error, nothing may follow, and what was accepted must be a prefix of the full text. Distinct by full text.", ["caller-defined instructions pass on write errors themselves"]),
 "C19": ("24 shapes of long input (each section, lists, strings, imports, functions, block sequences, nests), 9 inputs refused late, 24 operand lists, modules of each instruction kind (all different, or all alike but for what must differ) and of every two kinds, at a small size and at 32 times that size; the thread's CPU time per word of each stage may grow at most eightfold and never exceed 2 microseconds; the same again with the library not optimised, where only the growth counts, because there work with unused results is still done. Distinct by shape.", ["a stage that costs under 15 ns per word is taken to cost 15 ns", "nesting depth is bounded (12)"]),
 "C20": ("Binaries with all sections, several imported sets, declarations and several structured functions with code are encoded by the harness, in both byte orders, and followed through reading, printing, validating, recovering and function printing; every stage's result is compared with what was encoded. Distinct by bytes.", [SPEC]),
 "C16": ("Structured functions with one injected fault (no block, duplicate label, missing target, stray conditional, arm or body that does not come back, cycle) in functions of up to 70,000 blocks, and random graphs are given to recovery and the error is compared with the fault. Distinct by block graph; only faulty functions count.", []),
}
