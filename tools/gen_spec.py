#!/usr/bin/env python3
"""Generates harness/src/spec_gen.rs: the reference tables (SPIR-V 1.0 opcodes, operand
grammar, enumerants, flag sets and their printed names) and the code that lifts the
library's typed instructions into the table-driven model and builds them from it.
The tables were written from the SPIR-V 1.0 specification with the library's own
spelling of printed names. Not run by the checks: spec_gen.rs is committed."""
import os,sys
here=os.path.dirname(os.path.abspath(__file__))
OPS=open(os.path.join(here,'ops.txt')).read().split('--\n')
core=[l for l in OPS[0].splitlines()]
loose=[l for l in OPS[1].splitlines()]
unimpl=[l.split() for l in OPS[2].splitlines()]

# enum: name -> (error variant or None, [(number, rust variant, printed name, [param types])])
E={}
def enum(name,err,text,names={},params={}):
    rows=[]
    for tok in text.split():
        n,v=tok.split(':')
        rows.append((int(n),v,names.get(v,v),params.get(v,[])))
    E[name]=(err,rows)
def seq(start,names): return ' '.join(f'{start+i}:{n}' for i,n in enumerate(names.split()))

enum('AddressingModel','UnknownAddressingModel',seq(0,'Logical Physical32 Physical64'))
enum('MemoryModel','UnknownMemoryModel',seq(0,'Simple Glsl450 OpenCL'),{'Glsl450':'GLSL450'})
enum('ExecutionModel','UnknownExecutionModel',seq(0,'Vertex TesselationControl TesselationEvaluation Geometry Fragment GlCompute Kernel'),{'GlCompute':'GLCompute'})
U='u32'
enum('ExecutionMode','UnknownExecutionMode',
 seq(0,'Invocations SpacingEqual SpacingFractionalEven SpacingFractionalOdd VertexOrderCw VertexOrderCcw PixelCenterInteger OriginUpperLeft OriginLowerLeft EarlyFragmentTests PointMode Xfb DepthReplacing')+' '+
 seq(14,'DepthGreater DepthLess DepthUnchanged LocalSize LocalSizeHint InputPoints InputLines InputLinesAdjacency Triangles InputTrianglesAdjacency Quads Isolines OutputVerticies OutputPoints OutputLineStrip OutputTriangleStrip VecTypeHint ContractionOff'),
 {}, {'Invocations':[U],'LocalSize':[U,U,U],'LocalSizeHint':[U,U,U],'OutputVerticies':[U],'VecTypeHint':['OpId']})
enum('Capability','UnknownCapability',
 seq(0,'Matrix Shader Geometry Tessellation Addresses Linkage Kernel Vector16 Float16Buffer Float16 Float64 Int64 Int64Atomics ImageBasic ImageReadWrite ImageMipmap')+' '+
 seq(17,'Pipes Groups DeviceEnqueue LiteralSampler AtomicStorage Int16 TessellationPointSize GeometryPointSize ImageGatherExtended')+' '+
 seq(27,'StorageImageMultisample UniformBufferArrayDynamicIndexing SampledImageArrayDynamicIndexing StorageBufferArrayDynamicIndexing StorageImageArrayDynamicIndexing ClipDistance CullDistance ImageCubeArray SampleRateShading ImageRect SampledRect GenericPointer Int8 InputAttachment SparseResidency MinLod Sampled1D Image1D SampledCubeArray SampledBuffer ImageBuffer ImageMSArray StorageImageExtendedFormats ImageQuery DerivativeControl InterpolationFunction TransformFeedback GeometryStreams StorageImageReadWithoutFormat StorageImageWriteWithoutFormat MultiViewport'))
enum('Decoration','UnknownDecoration',
 seq(0,'RelaxedPrecision SpecId Block BufferBlock RowMajor ColMajor ArrayStride MatrixStride GlslShared GlslPacked CPacked BuiltIn')+' '+
 seq(13,'NoPerspective Flat Patch Centroid Sample Invariant Restrict Aliased Volatile Constant Coherent NonWritable NonReadable Uniform')+' '+
 seq(28,'SaturatedConversion Stream Location Component Index Binding DescriptorSet Offset XfbBuffer XfbStride FuncParamAttr FpRoundingMode FpFastMathMode LinkageAttributes NoContraction InputAttachmentIndex Alignment'),
 {'GlslShared':'GLSLShared','GlslPacked':'GLSLPacked'},
 dict([(n,[U]) for n in 'SpecId ArrayStride MatrixStride Stream Location Component Index Binding DescriptorSet Offset XfbBuffer XfbStride InputAttachmentIndex Alignment'.split()]+
  [('BuiltIn',['BuiltIn']),('FuncParamAttr',['FunctionParameterAttribute']),('FpRoundingMode',['FpRoundingMode']),('FpFastMathMode',['FpFastMathMode']),('LinkageAttributes',['LitString','LinkageType'])]))
enum('BuiltIn','UnknownBuiltIn',
 seq(0,'Position PointSize')+' '+seq(3,'ClipDistance CullDistance VertexId InstanceId PrimitiveId InvocationId Layer ViewportIndex TessLevelOuter TessLevelInner TessCoord PatchVerticies FragCoord PointCoord FrontFacing SampleId SamplePosition SampleMask')+' '+
 seq(22,'FragDepth HelperInvocation NumWorkgroups WorkgroupSize WorkgroupId LocalInvocationId GlobalInvocationId LocalInvocationIndex WorkDim GlobalSize EnqueuedWorkgroupSize GlobalOffset GlobalLinearId')+' '+
 seq(36,'SubgroupSize SubgroupMaxSize NumSubgroups NumEnqueuedSubgroups SubgroupId SubgroupLocalInvocationId VertexIndex InstanceIndex'))
enum('FpRoundingMode','UnknownFpRoundingMode',seq(0,'Rte Rtz Rtp Rtn'),{'Rte':'RTE','Rtz':'RTZ','Rtp':'RTP','Rtn':'RTN'})
enum('LinkageType','UnknownLinkageType',seq(0,'Export Import'))
enum('Signedness','UnknownSignedness',seq(0,'UnsignedOrNone Signed'),{'UnsignedOrNone':'0','Signed':'1'})
enum('StorageClass','UnknownStorageClass',seq(0,'UniformConstant Input Uniform Output Workgroup CrossWorkgroup Private Function Generic PushConstant AtomicCounter Image'))
enum('FunctionParameterAttribute','UnknownFunctionParameterAttribute',seq(0,'Zext Sext ByVal Sret NoAlias NoCapture NoWrite NoReadWrite'))
enum('Dim','UnknownDim',seq(0,'Tex1D Tex2D Tex3D Cube Rect Buffer SubpassData'),{'Tex1D':'1D','Tex2D':'2D','Tex3D':'3D'})
enum('DepthStatus','UnknownDepthStatus',seq(0,'NotDepth Depth NoIndication'),{'NotDepth':'0','Depth':'1','NoIndication':'2'})
enum('Arrayed','UnknownArrayed',seq(0,'False True'),{'False':'0','True':'1'})
enum('MS','UnknownMS',seq(0,'Single Multi'),{'Single':'0','Multi':'1'})
enum('SampledStatus','UnknownSampledStatus',seq(0,'RuntimeChoice WithSampler WithoutSampler'),{'RuntimeChoice':'0','WithSampler':'1','WithoutSampler':'2'})
enum('ImageFormat','UnknownImageFormat',seq(0,'Unknown Rgba32f Rgba16f R32f Rgba8 Rgba8Snorm Rg32f Rg16f R11fG11fB10f R16f Rgba16 Rgb10A2 Rg16 Rg8 R16 R8 Rgba16Snorm Rg16Snorm Rg8Snorm R16Snorm R8Snorm Rgba32i Rgba16i Rgba8i R32i Rg32i Rg16i Rg8i R16i R8i Rgba32ui Rgba16ui Rgba8ui R32ui Rgb10a2ui Rg32ui Rg16ui Rg8ui R16ui R8ui'))
enum('AccessQualifier','UnknownAccessQualifier',seq(0,'ReadOnly WriteOnly ReadWrite'))
enum('SourceLanguage',None,seq(0,'Unknown Essl Glsl OpenCL_C OpenCL_Cpp'),{'Essl':'ESSL','Glsl':'GLSL','OpenCL_Cpp':'OpenCL_CPP'})
enum('SamplerAddressingMode',None,seq(0,'None ClampToEdge Clamp Repeat RepeatMirrored'))
enum('SamplerParam',None,seq(0,'NonNormalized Normalized'),{'NonNormalized':'0','Normalized':'1'})
enum('SamplerFilterMode',None,seq(0,'Nearest Linear'))
# masks: name -> (error, [(bit, field, printed, has_param)])
M={
 'FunctionControl':('UnknownFunctionControl',[(1,'inline','Inline',0),(2,'dont_inline','DontInline',0),(4,'pure_function','Pure',0),(8,'const_function','Const',0)]),
 'MemoryAccess':('UnknownMemoryAccess',[(1,'volatile','Volatile',0),(2,'aligned','Aligned',1),(4,'non_temporal','Nontemporal',0)]),
 'LoopControl':('UnknownLoopControl',[(1,'unroll','Unroll',0),(2,'dont_unroll','DontUnroll',0),(4,'dependency_infinite','DependencyInfinite',0),(8,'dependency_length','DependencyLength',1)]),
 'SelectionControl':('UnknownSelectionControl',[(1,'flatten','Flatten',0),(2,'dont_flatten','DontFlatten',0)]),
 'FpFastMathMode':('UnknownFpFastMathMode',[(1,'not_nan','NotNaN',0),(2,'not_inf','NotInf',0),(4,'nsz','NSZ',0),(8,'allow_recip','AllowRecip',0),(16,'fast','Fast',0)]),
}
enames=list(E); mnames=list(M)
def kind(t):
    if t=='OpId': return 'Kind::Id'
    if t=='ResultId': return 'Kind::Res'
    if t in('u32','MemberIndex','SourceVersion','Line','Column'): return 'Kind::Num'
    if t in('LitString','String'): return 'Kind::Str'
    if t=='LitBytes': return 'Kind::Many(&Kind::Num)'
    if t.startswith('Vec<'): return f'Kind::Many(&{kind(t[4:-1])})'
    if t.startswith('Option<'): return f'Kind::Opt(&{kind(t[7:-1])})'
    if t=='PhiArg': return 'Kind::Two(&Kind::Id,&Kind::Id)'
    if t=='BranchWeights': return 'Kind::Two(&Kind::Num,&Kind::Num)'
    if t=='ExtInstBox': return 'Kind::Ext'
    if t in E: return f'Kind::En({enames.index(t)})'
    if t in M: return f'Kind::Mask({mnames.index(t)})'
    raise Exception(t)
o=[]
w=o.append
w('// Generated by tools/gen_spec.py; do not edit.')
w('#![allow(unreachable_patterns, unused_variables, clippy::all)]')
w('use magmaflow::spv::op::*;\nuse magmaflow::spv::types::*;\nuse magmaflow::spv::raw::Core;\nuse crate::spec::*;\n')
w('pub static ENUMS: &[EnumDef] = &[')
for n in enames:
    err,rows=E[n]
    w(f'    EnumDef {{ name: "{n}", open: {"true" if n=="SourceLanguage" else "false"}, err: "{err or ''}", rows: &[')
    for num,v,p,ps in rows:
        w(f'        EnumRow {{ num: {num}, name: "{p}", params: &[{", ".join(kind(x) for x in ps)}] }},')
    w('    ] },')
w('];\n')
w('pub static MASKS: &[MaskDef] = &[')
for n in mnames:
    err,rows=M[n]
    w(f'    MaskDef {{ name: "{n}", err: "{err}", bits: &[{", ".join(f"MaskBit {{ bit: {b}, name: {chr(34)}{p}{chr(34)}, param: {str(bool(h)).lower()} }}" for b,f,p,h in rows)}] }},')
w('];\n')
# operand impls
for i,n in enumerate(enames):
    err,rows=E[n]
    w(f'impl Operand for {n} {{')
    w('    fn lift(&self, out: &mut Vec<Arg>) {')
    w('        let mut p: Vec<Arg> = Vec::new();')
    w('        let n: u32 = match *self {')
    for num,v,pn,ps in rows:
        if ps:
            vs=[f'ref a{k}' for k in range(len(ps))]
            w(f'            {n}::{v}({", ".join(vs)}) => {{ {" ".join(f"Operand::lift(a{k}, &mut p);" for k in range(len(ps)))} {num} }}')
        else: w(f'            {n}::{v} => {num},')
    if n=='SourceLanguage': w('            SourceLanguage::Other(k) => { p.push(Arg::Num(k)); k }')
    else: w('            _ => u32::MAX,')
    w('        };')
    w(f'        out.push(Arg::En({i}, n, p));\n    }}')
    w('    fn build(a: &mut Args) -> Self {')
    w(f'        let (n, p) = a.en();\n        let mut p = Args::new(p);\n        let p = &mut p;\n        match n {{')
    if n=='SourceLanguage': w('            n if p.left() > 0 => SourceLanguage::Other(n),')
    for num,v,pn,ps in rows:
        if ps: w(f'            {num} => {n}::{v}({", ".join("Operand::build(p)" for _ in ps)}),')
        else: w(f'            {num} => {n}::{v},')
    w(f'            _ => panic!("harness: bad enumerant {n} {{}}", n),\n        }}\n    }}\n}}')
for i,n in enumerate(mnames):
    err,rows=M[n]
    w(f'impl Operand for {n} {{')
    w('    fn lift(&self, out: &mut Vec<Arg>) {\n        let mut p: Vec<Arg> = Vec::new();\n        let mut v = 0u32;')
    for b,f,pn,h in rows:
        if h: w(f'        if FlagField::get(&self.{f}, &mut p) {{ v |= {b}; }}')
        else: w(f'        if self.{f} {{ v |= {b}; }}')
    w(f'        out.push(Arg::Mask({i}, v, p));\n    }}')
    w('    fn build(a: &mut Args) -> Self {\n        let (v, p) = a.mask();\n        let mut p = Args::new(p);\n        let p = &mut p;')
    w(f'        {n} {{')
    for b,f,pn,h in rows:
        if h: w(f'            {f}: FlagField::make(v & {b} != 0, p),')
        else: w(f'            {f}: v & {b} != 0,')
    w('        }\n    }\n}')
w('')
def parse(l,hasnum):
    if hasnum:
        num,rest=l.split(' ',1); num=int(num)
    else: num=-2; rest=l
    name,_,fs=rest.partition(' ')
    fields=[]
    depth=0;cur=''
    fs=fs.strip()
    if fs:
        for part in fs.split(', '):
            a,t=part.split(': '); fields.append((a,t))
    return num,name,fields
cops=[parse(l,True) for l in core]
seen=set(); lops=[]
for l in loose:
    x=parse(l,False)
    if x[1] not in seen: seen.add(x[1]); lops.append(x)
w('pub static OPS: &[OpDef] = &[')
for num,name,fields in cops+lops:
    w(f'    OpDef {{ num: {num}, name: "{name}", kinds: &[{", ".join(kind(t) for a,t in fields)}] }},')
w('];')
w(f'pub const N_CORE: usize = {len(cops)};')
w('pub fn lift_core(c: &Core) -> Inst {\n    let mut v: Vec<Arg> = Vec::new();\n    let o = match *c {')
for i,(num,name,fields) in enumerate(cops):
    pat = f'Core::{name}(ref x)'
    w(f'        {pat} => {{ {" ".join(f"Operand::lift(&x.{a}, &mut v);" for a,t in fields)} {i} }}')
w('        _ => usize::MAX,\n    };\n    Inst { op: o, args: v }\n}')
w('pub fn build_core(i: &Inst) -> Core {\n    let mut a = Args::new(&i.args);\n    let a = &mut a;\n    match i.op {')
for i,(num,name,fields) in enumerate(cops):
    if name=='OpExtInst':
        w(f'        {i} => crate::ext::build_ext_inst(a),'); continue
    if fields: w(f'        {i} => Core::{name}({name} {{ {", ".join(f"{x}: Operand::build(a)" for x,t in fields)} }}),')
    else: w(f'        {i} => Core::{name}({name}),')
w('        _ => panic!("harness: not a core op"),\n    }\n}')
w('/// Text, clone text, self equality of a public instruction struct outside Core')
w('pub fn print_any(i: &Inst) -> (String, String, bool) {\n    let mut a = Args::new(&i.args);\n    let a = &mut a;\n    match i.op {')
for i,(num,name,fields) in enumerate(cops+lops):
    if name=='OpExtInst': continue
    body = f'{name} {{ {", ".join(f"{x}: Operand::build(a)" for x,t in fields)} }}' if fields else name
    w(f'        {i} => {{ let x = {body}; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }}')
w('        _ => panic!("harness: op"),\n    }\n}')
w('/// Are two instructions of one kind, outside Core, equal: both ways round')
w('pub fn eq_any(i: &Inst, j: &Inst) -> (bool, bool) {\n    let mut a = Args::new(&i.args);\n    let a = &mut a;\n    let mut b = Args::new(&j.args);\n    let b = &mut b;\n    match i.op {')
for i,(num,name,fields) in enumerate(cops+lops):
    if name=='OpExtInst': continue
    body = lambda v: f'{name} {{ {", ".join(f"{x}: Operand::build({v})" for x,t in fields)} }}' if fields else name
    w(f'        {i} => {{ let x = {body("a")}; let y = {body("b")}; pair(x, y) }}')
w('        _ => panic!("harness: op"),\n    }\n}')
w('/// Instructions that implement the public operand-reading trait')
w('pub static OP_READERS: &[(usize, crate::operands::ReadFn)] = &[')
for i,(num,name,fields) in enumerate(cops):
    if num<0 or name in ('OpExtInst','OpExtInstImport'): continue
    w(f'    ({i}, |b| {{ let (b, x) = <{name} as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::{name}(x)).args)) }}),')
w('];')
w('pub static UNIMPLEMENTED: &[(u16, &str)] = &[')
for k,n in unimpl: w(f'    ({k}, "{n}"),')
w('];')
# logical groups
deb='OpSourceContinued OpSource OpSourceExtension OpName OpMemberName OpString'.split()
ann='OpDecorate OpMemberDecorate'.split()
typ=[n for _,n,_ in cops if n.startswith('OpType')]
con='OpConstant OpConstantComposite'.split()
single='OpCapability OpExtension OpExtInstImport OpMemoryModel OpEntryPoint OpExecutionMode OpFunction OpFunctionParameter OpFunctionEnd OpLabel OpVariable'.split()
mer='OpLoopMerge OpSelectionMerge'.split(); br='OpBranch OpBranchConditional OpReturn'.split()
code=[n for _,n,_ in cops if n not in deb+ann+typ+con+single+mer+br]+['OpVariable']
w('use magmaflow::spv::logical::*;')
def ungroup(fn,ty,names):
    w(f'pub fn {fn}(g: &{ty}) -> Core {{\n    match *g {{')
    for n in names: w(f'        {ty}::{n}(ref x) => Core::{n}(x.clone()),')
    w('        _ => panic!("harness: unknown group member"),\n    }\n}')
ungroup('un_debug','GroupDebug',deb); ungroup('un_annotation','GroupAnnotation',ann); ungroup('un_type','GroupType',typ); ungroup('un_constant','GroupConstant',con)
ungroup('un_code','GroupCode',code); ungroup('un_merge','GroupMerge',mer); ungroup('un_branch','GroupBranch',br)
w('pub fn un_global(g: &GroupGlobal) -> Core {\n    match *g {\n        GroupGlobal::GroupType(ref t) => un_type(t),\n        GroupGlobal::GroupConstant(ref t) => un_constant(t),\n        GroupGlobal::OpVariable(ref x) => Core::OpVariable(x.clone()),\n        _ => panic!("harness: unknown group member"),\n    }\n}')
w('pub fn to_code(c: &Core) -> Option<GroupCode> {\n    Some(match *c {')
for n in code: w(f'        Core::{n}(ref x) => GroupCode::{n}(x.clone()),')
w('        _ => return None,\n    })\n}')
# section classes (independent of storage class for OpVariable)
def cls(n):
    if n in deb: return 'Debug'
    if n in ann: return 'Annotation'
    if n in typ+con: return 'Global'
    if n in mer: return 'Merge'
    if n in br: return 'Branch'
    if n=='OpVariable': return 'Variable'
    if n in single: return n[2:]
    return 'Code'
w('pub static CLASS: &[Class] = &['+', '.join('Class::'+cls(n) for _,n,_ in cops)+'];')
w('pub mod oi {')
for i,(num,name,fields) in enumerate(cops):
    s=''.join('_'+c if c.isupper() and k and not name[k-1].isupper() else c for k,c in enumerate(name)).upper()
    w(f'    #[allow(dead_code)] pub const {s}: usize = {i};')
w('}')
open(os.path.join(here,'../harness/src/spec_gen.rs'),'w').write('\n'.join(o)+'\n')
print(len(cops),len(lops),len(code))
