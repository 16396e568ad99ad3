#![allow(dead_code, unused_imports)]
pub use magmaflow::spv::logical::*;
pub use magmaflow::spv::op::*;
pub use magmaflow::spv::raw::*;
pub use magmaflow::spv::types::*;
pub use magmaflow::spv::*;

pub const HEAD: [u32; 5] = [0x0723_0203, 0x0001_0000, 0x0008_0001, 100, 0];
pub fn inst(op: u32, args: &[u32]) -> Vec<u32> {
    let mut v = vec![((args.len() as u32 + 1) << 16) | op];
    v.extend_from_slice(args);
    v
}
pub fn string(s: &[u8]) -> Vec<u32> {
    let mut b = s.to_vec();
    b.push(0);
    while b.len() % 4 != 0 {
        b.push(0);
    }
    b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}
pub fn cat(parts: &[Vec<u32>]) -> Vec<u32> {
    parts.concat()
}
pub fn module(insts: &[Vec<u32>]) -> Vec<u32> {
    let mut v = HEAD.to_vec();
    for i in insts {
        v.extend_from_slice(i);
    }
    v
}
pub fn le(w: &[u32]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn be(w: &[u32]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_be_bytes()).collect()
}
pub fn glsl() -> Vec<Box<dyn ExtInstSet>> {
    vec![Box::new(magmaflow::glsl450::InstSet)]
}
pub fn read(w: &[u32]) -> Result<RawModule, ReadError> {
    read_module(&le(w), glsl())
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("wrong: {}", what);
        std::process::exit(1);
    }
}
pub fn br(to: u32) -> GroupBranch {
    GroupBranch::OpBranch(OpBranch { target_label: OpId(to) })
}
pub fn ret() -> GroupBranch {
    GroupBranch::OpReturn(OpReturn)
}
pub fn cond(t: u32, f: u32) -> GroupBranch {
    condw(t, f, None)
}
pub fn condw(t: u32, f: u32, w: Option<(u32, u32)>) -> GroupBranch {
    GroupBranch::OpBranchConditional(OpBranchConditional {
        condition: OpId(999),
        true_label: OpId(t),
        false_label: OpId(f),
        weights: w.map(|(a, b)| BranchWeights { true_weight: a, false_weight: b }),
    })
}
pub fn sel(m: u32) -> Option<GroupMerge> {
    Some(GroupMerge::OpSelectionMerge(OpSelectionMerge { merge_block: OpId(m), selection_control: SelectionControl::default() }))
}
pub fn lp(m: u32, c: u32) -> Option<GroupMerge> {
    Some(GroupMerge::OpLoopMerge(OpLoopMerge { merge_block: OpId(m), continue_target: OpId(c), loop_control: LoopControl::default() }))
}
pub fn blk(id: u32, merge: Option<GroupMerge>, branch: GroupBranch) -> BasicBlock {
    BasicBlock { label: OpLabel { result_id: ResultId(id) }, code: vec![], merge, branch }
}
pub fn func(blocks: Vec<BasicBlock>) -> FunctionDefinition {
    FunctionDefinition {
        function: OpFunction {
            result_type: OpId(1),
            result_id: ResultId(2),
            function_control: FunctionControl { inline: false, dont_inline: false, pure_function: false, const_function: false },
            function_type: OpId(3),
        },
        parameters: vec![],
        blocks,
    }
}
