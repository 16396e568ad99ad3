// Generated by tools/gen_spec.py; do not edit.
#![allow(unreachable_patterns, unused_variables, clippy::all)]
use magmaflow::spv::op::*;
use magmaflow::spv::types::*;
use magmaflow::spv::raw::Core;
use crate::spec::*;

pub static ENUMS: &[EnumDef] = &[
    EnumDef { name: "AddressingModel", open: false, err: "UnknownAddressingModel", rows: &[
        EnumRow { num: 0, name: "Logical", params: &[] },
        EnumRow { num: 1, name: "Physical32", params: &[] },
        EnumRow { num: 2, name: "Physical64", params: &[] },
    ] },
    EnumDef { name: "MemoryModel", open: false, err: "UnknownMemoryModel", rows: &[
        EnumRow { num: 0, name: "Simple", params: &[] },
        EnumRow { num: 1, name: "GLSL450", params: &[] },
        EnumRow { num: 2, name: "OpenCL", params: &[] },
    ] },
    EnumDef { name: "ExecutionModel", open: false, err: "UnknownExecutionModel", rows: &[
        EnumRow { num: 0, name: "Vertex", params: &[] },
        EnumRow { num: 1, name: "TesselationControl", params: &[] },
        EnumRow { num: 2, name: "TesselationEvaluation", params: &[] },
        EnumRow { num: 3, name: "Geometry", params: &[] },
        EnumRow { num: 4, name: "Fragment", params: &[] },
        EnumRow { num: 5, name: "GLCompute", params: &[] },
        EnumRow { num: 6, name: "Kernel", params: &[] },
    ] },
    EnumDef { name: "ExecutionMode", open: false, err: "UnknownExecutionMode", rows: &[
        EnumRow { num: 0, name: "Invocations", params: &[Kind::Num] },
        EnumRow { num: 1, name: "SpacingEqual", params: &[] },
        EnumRow { num: 2, name: "SpacingFractionalEven", params: &[] },
        EnumRow { num: 3, name: "SpacingFractionalOdd", params: &[] },
        EnumRow { num: 4, name: "VertexOrderCw", params: &[] },
        EnumRow { num: 5, name: "VertexOrderCcw", params: &[] },
        EnumRow { num: 6, name: "PixelCenterInteger", params: &[] },
        EnumRow { num: 7, name: "OriginUpperLeft", params: &[] },
        EnumRow { num: 8, name: "OriginLowerLeft", params: &[] },
        EnumRow { num: 9, name: "EarlyFragmentTests", params: &[] },
        EnumRow { num: 10, name: "PointMode", params: &[] },
        EnumRow { num: 11, name: "Xfb", params: &[] },
        EnumRow { num: 12, name: "DepthReplacing", params: &[] },
        EnumRow { num: 14, name: "DepthGreater", params: &[] },
        EnumRow { num: 15, name: "DepthLess", params: &[] },
        EnumRow { num: 16, name: "DepthUnchanged", params: &[] },
        EnumRow { num: 17, name: "LocalSize", params: &[Kind::Num, Kind::Num, Kind::Num] },
        EnumRow { num: 18, name: "LocalSizeHint", params: &[Kind::Num, Kind::Num, Kind::Num] },
        EnumRow { num: 19, name: "InputPoints", params: &[] },
        EnumRow { num: 20, name: "InputLines", params: &[] },
        EnumRow { num: 21, name: "InputLinesAdjacency", params: &[] },
        EnumRow { num: 22, name: "Triangles", params: &[] },
        EnumRow { num: 23, name: "InputTrianglesAdjacency", params: &[] },
        EnumRow { num: 24, name: "Quads", params: &[] },
        EnumRow { num: 25, name: "Isolines", params: &[] },
        EnumRow { num: 26, name: "OutputVerticies", params: &[Kind::Num] },
        EnumRow { num: 27, name: "OutputPoints", params: &[] },
        EnumRow { num: 28, name: "OutputLineStrip", params: &[] },
        EnumRow { num: 29, name: "OutputTriangleStrip", params: &[] },
        EnumRow { num: 30, name: "VecTypeHint", params: &[Kind::Id] },
        EnumRow { num: 31, name: "ContractionOff", params: &[] },
    ] },
    EnumDef { name: "Capability", open: false, err: "UnknownCapability", rows: &[
        EnumRow { num: 0, name: "Matrix", params: &[] },
        EnumRow { num: 1, name: "Shader", params: &[] },
        EnumRow { num: 2, name: "Geometry", params: &[] },
        EnumRow { num: 3, name: "Tessellation", params: &[] },
        EnumRow { num: 4, name: "Addresses", params: &[] },
        EnumRow { num: 5, name: "Linkage", params: &[] },
        EnumRow { num: 6, name: "Kernel", params: &[] },
        EnumRow { num: 7, name: "Vector16", params: &[] },
        EnumRow { num: 8, name: "Float16Buffer", params: &[] },
        EnumRow { num: 9, name: "Float16", params: &[] },
        EnumRow { num: 10, name: "Float64", params: &[] },
        EnumRow { num: 11, name: "Int64", params: &[] },
        EnumRow { num: 12, name: "Int64Atomics", params: &[] },
        EnumRow { num: 13, name: "ImageBasic", params: &[] },
        EnumRow { num: 14, name: "ImageReadWrite", params: &[] },
        EnumRow { num: 15, name: "ImageMipmap", params: &[] },
        EnumRow { num: 17, name: "Pipes", params: &[] },
        EnumRow { num: 18, name: "Groups", params: &[] },
        EnumRow { num: 19, name: "DeviceEnqueue", params: &[] },
        EnumRow { num: 20, name: "LiteralSampler", params: &[] },
        EnumRow { num: 21, name: "AtomicStorage", params: &[] },
        EnumRow { num: 22, name: "Int16", params: &[] },
        EnumRow { num: 23, name: "TessellationPointSize", params: &[] },
        EnumRow { num: 24, name: "GeometryPointSize", params: &[] },
        EnumRow { num: 25, name: "ImageGatherExtended", params: &[] },
        EnumRow { num: 27, name: "StorageImageMultisample", params: &[] },
        EnumRow { num: 28, name: "UniformBufferArrayDynamicIndexing", params: &[] },
        EnumRow { num: 29, name: "SampledImageArrayDynamicIndexing", params: &[] },
        EnumRow { num: 30, name: "StorageBufferArrayDynamicIndexing", params: &[] },
        EnumRow { num: 31, name: "StorageImageArrayDynamicIndexing", params: &[] },
        EnumRow { num: 32, name: "ClipDistance", params: &[] },
        EnumRow { num: 33, name: "CullDistance", params: &[] },
        EnumRow { num: 34, name: "ImageCubeArray", params: &[] },
        EnumRow { num: 35, name: "SampleRateShading", params: &[] },
        EnumRow { num: 36, name: "ImageRect", params: &[] },
        EnumRow { num: 37, name: "SampledRect", params: &[] },
        EnumRow { num: 38, name: "GenericPointer", params: &[] },
        EnumRow { num: 39, name: "Int8", params: &[] },
        EnumRow { num: 40, name: "InputAttachment", params: &[] },
        EnumRow { num: 41, name: "SparseResidency", params: &[] },
        EnumRow { num: 42, name: "MinLod", params: &[] },
        EnumRow { num: 43, name: "Sampled1D", params: &[] },
        EnumRow { num: 44, name: "Image1D", params: &[] },
        EnumRow { num: 45, name: "SampledCubeArray", params: &[] },
        EnumRow { num: 46, name: "SampledBuffer", params: &[] },
        EnumRow { num: 47, name: "ImageBuffer", params: &[] },
        EnumRow { num: 48, name: "ImageMSArray", params: &[] },
        EnumRow { num: 49, name: "StorageImageExtendedFormats", params: &[] },
        EnumRow { num: 50, name: "ImageQuery", params: &[] },
        EnumRow { num: 51, name: "DerivativeControl", params: &[] },
        EnumRow { num: 52, name: "InterpolationFunction", params: &[] },
        EnumRow { num: 53, name: "TransformFeedback", params: &[] },
        EnumRow { num: 54, name: "GeometryStreams", params: &[] },
        EnumRow { num: 55, name: "StorageImageReadWithoutFormat", params: &[] },
        EnumRow { num: 56, name: "StorageImageWriteWithoutFormat", params: &[] },
        EnumRow { num: 57, name: "MultiViewport", params: &[] },
    ] },
    EnumDef { name: "Decoration", open: false, err: "UnknownDecoration", rows: &[
        EnumRow { num: 0, name: "RelaxedPrecision", params: &[] },
        EnumRow { num: 1, name: "SpecId", params: &[Kind::Num] },
        EnumRow { num: 2, name: "Block", params: &[] },
        EnumRow { num: 3, name: "BufferBlock", params: &[] },
        EnumRow { num: 4, name: "RowMajor", params: &[] },
        EnumRow { num: 5, name: "ColMajor", params: &[] },
        EnumRow { num: 6, name: "ArrayStride", params: &[Kind::Num] },
        EnumRow { num: 7, name: "MatrixStride", params: &[Kind::Num] },
        EnumRow { num: 8, name: "GLSLShared", params: &[] },
        EnumRow { num: 9, name: "GLSLPacked", params: &[] },
        EnumRow { num: 10, name: "CPacked", params: &[] },
        EnumRow { num: 11, name: "BuiltIn", params: &[Kind::En(6)] },
        EnumRow { num: 13, name: "NoPerspective", params: &[] },
        EnumRow { num: 14, name: "Flat", params: &[] },
        EnumRow { num: 15, name: "Patch", params: &[] },
        EnumRow { num: 16, name: "Centroid", params: &[] },
        EnumRow { num: 17, name: "Sample", params: &[] },
        EnumRow { num: 18, name: "Invariant", params: &[] },
        EnumRow { num: 19, name: "Restrict", params: &[] },
        EnumRow { num: 20, name: "Aliased", params: &[] },
        EnumRow { num: 21, name: "Volatile", params: &[] },
        EnumRow { num: 22, name: "Constant", params: &[] },
        EnumRow { num: 23, name: "Coherent", params: &[] },
        EnumRow { num: 24, name: "NonWritable", params: &[] },
        EnumRow { num: 25, name: "NonReadable", params: &[] },
        EnumRow { num: 26, name: "Uniform", params: &[] },
        EnumRow { num: 28, name: "SaturatedConversion", params: &[] },
        EnumRow { num: 29, name: "Stream", params: &[Kind::Num] },
        EnumRow { num: 30, name: "Location", params: &[Kind::Num] },
        EnumRow { num: 31, name: "Component", params: &[Kind::Num] },
        EnumRow { num: 32, name: "Index", params: &[Kind::Num] },
        EnumRow { num: 33, name: "Binding", params: &[Kind::Num] },
        EnumRow { num: 34, name: "DescriptorSet", params: &[Kind::Num] },
        EnumRow { num: 35, name: "Offset", params: &[Kind::Num] },
        EnumRow { num: 36, name: "XfbBuffer", params: &[Kind::Num] },
        EnumRow { num: 37, name: "XfbStride", params: &[Kind::Num] },
        EnumRow { num: 38, name: "FuncParamAttr", params: &[Kind::En(11)] },
        EnumRow { num: 39, name: "FpRoundingMode", params: &[Kind::En(7)] },
        EnumRow { num: 40, name: "FpFastMathMode", params: &[Kind::Mask(4)] },
        EnumRow { num: 41, name: "LinkageAttributes", params: &[Kind::Str, Kind::En(8)] },
        EnumRow { num: 42, name: "NoContraction", params: &[] },
        EnumRow { num: 43, name: "InputAttachmentIndex", params: &[Kind::Num] },
        EnumRow { num: 44, name: "Alignment", params: &[Kind::Num] },
    ] },
    EnumDef { name: "BuiltIn", open: false, err: "UnknownBuiltIn", rows: &[
        EnumRow { num: 0, name: "Position", params: &[] },
        EnumRow { num: 1, name: "PointSize", params: &[] },
        EnumRow { num: 3, name: "ClipDistance", params: &[] },
        EnumRow { num: 4, name: "CullDistance", params: &[] },
        EnumRow { num: 5, name: "VertexId", params: &[] },
        EnumRow { num: 6, name: "InstanceId", params: &[] },
        EnumRow { num: 7, name: "PrimitiveId", params: &[] },
        EnumRow { num: 8, name: "InvocationId", params: &[] },
        EnumRow { num: 9, name: "Layer", params: &[] },
        EnumRow { num: 10, name: "ViewportIndex", params: &[] },
        EnumRow { num: 11, name: "TessLevelOuter", params: &[] },
        EnumRow { num: 12, name: "TessLevelInner", params: &[] },
        EnumRow { num: 13, name: "TessCoord", params: &[] },
        EnumRow { num: 14, name: "PatchVerticies", params: &[] },
        EnumRow { num: 15, name: "FragCoord", params: &[] },
        EnumRow { num: 16, name: "PointCoord", params: &[] },
        EnumRow { num: 17, name: "FrontFacing", params: &[] },
        EnumRow { num: 18, name: "SampleId", params: &[] },
        EnumRow { num: 19, name: "SamplePosition", params: &[] },
        EnumRow { num: 20, name: "SampleMask", params: &[] },
        EnumRow { num: 22, name: "FragDepth", params: &[] },
        EnumRow { num: 23, name: "HelperInvocation", params: &[] },
        EnumRow { num: 24, name: "NumWorkgroups", params: &[] },
        EnumRow { num: 25, name: "WorkgroupSize", params: &[] },
        EnumRow { num: 26, name: "WorkgroupId", params: &[] },
        EnumRow { num: 27, name: "LocalInvocationId", params: &[] },
        EnumRow { num: 28, name: "GlobalInvocationId", params: &[] },
        EnumRow { num: 29, name: "LocalInvocationIndex", params: &[] },
        EnumRow { num: 30, name: "WorkDim", params: &[] },
        EnumRow { num: 31, name: "GlobalSize", params: &[] },
        EnumRow { num: 32, name: "EnqueuedWorkgroupSize", params: &[] },
        EnumRow { num: 33, name: "GlobalOffset", params: &[] },
        EnumRow { num: 34, name: "GlobalLinearId", params: &[] },
        EnumRow { num: 36, name: "SubgroupSize", params: &[] },
        EnumRow { num: 37, name: "SubgroupMaxSize", params: &[] },
        EnumRow { num: 38, name: "NumSubgroups", params: &[] },
        EnumRow { num: 39, name: "NumEnqueuedSubgroups", params: &[] },
        EnumRow { num: 40, name: "SubgroupId", params: &[] },
        EnumRow { num: 41, name: "SubgroupLocalInvocationId", params: &[] },
        EnumRow { num: 42, name: "VertexIndex", params: &[] },
        EnumRow { num: 43, name: "InstanceIndex", params: &[] },
    ] },
    EnumDef { name: "FpRoundingMode", open: false, err: "UnknownFpRoundingMode", rows: &[
        EnumRow { num: 0, name: "RTE", params: &[] },
        EnumRow { num: 1, name: "RTZ", params: &[] },
        EnumRow { num: 2, name: "RTP", params: &[] },
        EnumRow { num: 3, name: "RTN", params: &[] },
    ] },
    EnumDef { name: "LinkageType", open: false, err: "UnknownLinkageType", rows: &[
        EnumRow { num: 0, name: "Export", params: &[] },
        EnumRow { num: 1, name: "Import", params: &[] },
    ] },
    EnumDef { name: "Signedness", open: false, err: "UnknownSignedness", rows: &[
        EnumRow { num: 0, name: "0", params: &[] },
        EnumRow { num: 1, name: "1", params: &[] },
    ] },
    EnumDef { name: "StorageClass", open: false, err: "UnknownStorageClass", rows: &[
        EnumRow { num: 0, name: "UniformConstant", params: &[] },
        EnumRow { num: 1, name: "Input", params: &[] },
        EnumRow { num: 2, name: "Uniform", params: &[] },
        EnumRow { num: 3, name: "Output", params: &[] },
        EnumRow { num: 4, name: "Workgroup", params: &[] },
        EnumRow { num: 5, name: "CrossWorkgroup", params: &[] },
        EnumRow { num: 6, name: "Private", params: &[] },
        EnumRow { num: 7, name: "Function", params: &[] },
        EnumRow { num: 8, name: "Generic", params: &[] },
        EnumRow { num: 9, name: "PushConstant", params: &[] },
        EnumRow { num: 10, name: "AtomicCounter", params: &[] },
        EnumRow { num: 11, name: "Image", params: &[] },
    ] },
    EnumDef { name: "FunctionParameterAttribute", open: false, err: "UnknownFunctionParameterAttribute", rows: &[
        EnumRow { num: 0, name: "Zext", params: &[] },
        EnumRow { num: 1, name: "Sext", params: &[] },
        EnumRow { num: 2, name: "ByVal", params: &[] },
        EnumRow { num: 3, name: "Sret", params: &[] },
        EnumRow { num: 4, name: "NoAlias", params: &[] },
        EnumRow { num: 5, name: "NoCapture", params: &[] },
        EnumRow { num: 6, name: "NoWrite", params: &[] },
        EnumRow { num: 7, name: "NoReadWrite", params: &[] },
    ] },
    EnumDef { name: "Dim", open: false, err: "UnknownDim", rows: &[
        EnumRow { num: 0, name: "1D", params: &[] },
        EnumRow { num: 1, name: "2D", params: &[] },
        EnumRow { num: 2, name: "3D", params: &[] },
        EnumRow { num: 3, name: "Cube", params: &[] },
        EnumRow { num: 4, name: "Rect", params: &[] },
        EnumRow { num: 5, name: "Buffer", params: &[] },
        EnumRow { num: 6, name: "SubpassData", params: &[] },
    ] },
    EnumDef { name: "DepthStatus", open: false, err: "UnknownDepthStatus", rows: &[
        EnumRow { num: 0, name: "0", params: &[] },
        EnumRow { num: 1, name: "1", params: &[] },
        EnumRow { num: 2, name: "2", params: &[] },
    ] },
    EnumDef { name: "Arrayed", open: false, err: "UnknownArrayed", rows: &[
        EnumRow { num: 0, name: "0", params: &[] },
        EnumRow { num: 1, name: "1", params: &[] },
    ] },
    EnumDef { name: "MS", open: false, err: "UnknownMS", rows: &[
        EnumRow { num: 0, name: "0", params: &[] },
        EnumRow { num: 1, name: "1", params: &[] },
    ] },
    EnumDef { name: "SampledStatus", open: false, err: "UnknownSampledStatus", rows: &[
        EnumRow { num: 0, name: "0", params: &[] },
        EnumRow { num: 1, name: "1", params: &[] },
        EnumRow { num: 2, name: "2", params: &[] },
    ] },
    EnumDef { name: "ImageFormat", open: false, err: "UnknownImageFormat", rows: &[
        EnumRow { num: 0, name: "Unknown", params: &[] },
        EnumRow { num: 1, name: "Rgba32f", params: &[] },
        EnumRow { num: 2, name: "Rgba16f", params: &[] },
        EnumRow { num: 3, name: "R32f", params: &[] },
        EnumRow { num: 4, name: "Rgba8", params: &[] },
        EnumRow { num: 5, name: "Rgba8Snorm", params: &[] },
        EnumRow { num: 6, name: "Rg32f", params: &[] },
        EnumRow { num: 7, name: "Rg16f", params: &[] },
        EnumRow { num: 8, name: "R11fG11fB10f", params: &[] },
        EnumRow { num: 9, name: "R16f", params: &[] },
        EnumRow { num: 10, name: "Rgba16", params: &[] },
        EnumRow { num: 11, name: "Rgb10A2", params: &[] },
        EnumRow { num: 12, name: "Rg16", params: &[] },
        EnumRow { num: 13, name: "Rg8", params: &[] },
        EnumRow { num: 14, name: "R16", params: &[] },
        EnumRow { num: 15, name: "R8", params: &[] },
        EnumRow { num: 16, name: "Rgba16Snorm", params: &[] },
        EnumRow { num: 17, name: "Rg16Snorm", params: &[] },
        EnumRow { num: 18, name: "Rg8Snorm", params: &[] },
        EnumRow { num: 19, name: "R16Snorm", params: &[] },
        EnumRow { num: 20, name: "R8Snorm", params: &[] },
        EnumRow { num: 21, name: "Rgba32i", params: &[] },
        EnumRow { num: 22, name: "Rgba16i", params: &[] },
        EnumRow { num: 23, name: "Rgba8i", params: &[] },
        EnumRow { num: 24, name: "R32i", params: &[] },
        EnumRow { num: 25, name: "Rg32i", params: &[] },
        EnumRow { num: 26, name: "Rg16i", params: &[] },
        EnumRow { num: 27, name: "Rg8i", params: &[] },
        EnumRow { num: 28, name: "R16i", params: &[] },
        EnumRow { num: 29, name: "R8i", params: &[] },
        EnumRow { num: 30, name: "Rgba32ui", params: &[] },
        EnumRow { num: 31, name: "Rgba16ui", params: &[] },
        EnumRow { num: 32, name: "Rgba8ui", params: &[] },
        EnumRow { num: 33, name: "R32ui", params: &[] },
        EnumRow { num: 34, name: "Rgb10a2ui", params: &[] },
        EnumRow { num: 35, name: "Rg32ui", params: &[] },
        EnumRow { num: 36, name: "Rg16ui", params: &[] },
        EnumRow { num: 37, name: "Rg8ui", params: &[] },
        EnumRow { num: 38, name: "R16ui", params: &[] },
        EnumRow { num: 39, name: "R8ui", params: &[] },
    ] },
    EnumDef { name: "AccessQualifier", open: false, err: "UnknownAccessQualifier", rows: &[
        EnumRow { num: 0, name: "ReadOnly", params: &[] },
        EnumRow { num: 1, name: "WriteOnly", params: &[] },
        EnumRow { num: 2, name: "ReadWrite", params: &[] },
    ] },
    EnumDef { name: "SourceLanguage", open: true, err: "", rows: &[
        EnumRow { num: 0, name: "Unknown", params: &[] },
        EnumRow { num: 1, name: "ESSL", params: &[] },
        EnumRow { num: 2, name: "GLSL", params: &[] },
        EnumRow { num: 3, name: "OpenCL_C", params: &[] },
        EnumRow { num: 4, name: "OpenCL_CPP", params: &[] },
    ] },
    EnumDef { name: "SamplerAddressingMode", open: false, err: "", rows: &[
        EnumRow { num: 0, name: "None", params: &[] },
        EnumRow { num: 1, name: "ClampToEdge", params: &[] },
        EnumRow { num: 2, name: "Clamp", params: &[] },
        EnumRow { num: 3, name: "Repeat", params: &[] },
        EnumRow { num: 4, name: "RepeatMirrored", params: &[] },
    ] },
    EnumDef { name: "SamplerParam", open: false, err: "", rows: &[
        EnumRow { num: 0, name: "0", params: &[] },
        EnumRow { num: 1, name: "1", params: &[] },
    ] },
    EnumDef { name: "SamplerFilterMode", open: false, err: "", rows: &[
        EnumRow { num: 0, name: "Nearest", params: &[] },
        EnumRow { num: 1, name: "Linear", params: &[] },
    ] },
];

pub static MASKS: &[MaskDef] = &[
    MaskDef { name: "FunctionControl", err: "UnknownFunctionControl", bits: &[MaskBit { bit: 1, name: "Inline", param: false }, MaskBit { bit: 2, name: "DontInline", param: false }, MaskBit { bit: 4, name: "Pure", param: false }, MaskBit { bit: 8, name: "Const", param: false }] },
    MaskDef { name: "MemoryAccess", err: "UnknownMemoryAccess", bits: &[MaskBit { bit: 1, name: "Volatile", param: false }, MaskBit { bit: 2, name: "Aligned", param: true }, MaskBit { bit: 4, name: "Nontemporal", param: false }] },
    MaskDef { name: "LoopControl", err: "UnknownLoopControl", bits: &[MaskBit { bit: 1, name: "Unroll", param: false }, MaskBit { bit: 2, name: "DontUnroll", param: false }, MaskBit { bit: 4, name: "DependencyInfinite", param: false }, MaskBit { bit: 8, name: "DependencyLength", param: true }] },
    MaskDef { name: "SelectionControl", err: "UnknownSelectionControl", bits: &[MaskBit { bit: 1, name: "Flatten", param: false }, MaskBit { bit: 2, name: "DontFlatten", param: false }] },
    MaskDef { name: "FpFastMathMode", err: "UnknownFpFastMathMode", bits: &[MaskBit { bit: 1, name: "NotNaN", param: false }, MaskBit { bit: 2, name: "NotInf", param: false }, MaskBit { bit: 4, name: "NSZ", param: false }, MaskBit { bit: 8, name: "AllowRecip", param: false }, MaskBit { bit: 16, name: "Fast", param: false }] },
];

impl Operand for AddressingModel {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            AddressingModel::Logical => 0,
            AddressingModel::Physical32 => 1,
            AddressingModel::Physical64 => 2,
            _ => u32::MAX,
        };
        out.push(Arg::En(0, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => AddressingModel::Logical,
            1 => AddressingModel::Physical32,
            2 => AddressingModel::Physical64,
            _ => panic!("harness: bad enumerant AddressingModel {}", n),
        }
    }
}
impl Operand for MemoryModel {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            MemoryModel::Simple => 0,
            MemoryModel::Glsl450 => 1,
            MemoryModel::OpenCL => 2,
            _ => u32::MAX,
        };
        out.push(Arg::En(1, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => MemoryModel::Simple,
            1 => MemoryModel::Glsl450,
            2 => MemoryModel::OpenCL,
            _ => panic!("harness: bad enumerant MemoryModel {}", n),
        }
    }
}
impl Operand for ExecutionModel {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            ExecutionModel::Vertex => 0,
            ExecutionModel::TesselationControl => 1,
            ExecutionModel::TesselationEvaluation => 2,
            ExecutionModel::Geometry => 3,
            ExecutionModel::Fragment => 4,
            ExecutionModel::GlCompute => 5,
            ExecutionModel::Kernel => 6,
            _ => u32::MAX,
        };
        out.push(Arg::En(2, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => ExecutionModel::Vertex,
            1 => ExecutionModel::TesselationControl,
            2 => ExecutionModel::TesselationEvaluation,
            3 => ExecutionModel::Geometry,
            4 => ExecutionModel::Fragment,
            5 => ExecutionModel::GlCompute,
            6 => ExecutionModel::Kernel,
            _ => panic!("harness: bad enumerant ExecutionModel {}", n),
        }
    }
}
impl Operand for ExecutionMode {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            ExecutionMode::Invocations(ref a0) => { Operand::lift(a0, &mut p); 0 }
            ExecutionMode::SpacingEqual => 1,
            ExecutionMode::SpacingFractionalEven => 2,
            ExecutionMode::SpacingFractionalOdd => 3,
            ExecutionMode::VertexOrderCw => 4,
            ExecutionMode::VertexOrderCcw => 5,
            ExecutionMode::PixelCenterInteger => 6,
            ExecutionMode::OriginUpperLeft => 7,
            ExecutionMode::OriginLowerLeft => 8,
            ExecutionMode::EarlyFragmentTests => 9,
            ExecutionMode::PointMode => 10,
            ExecutionMode::Xfb => 11,
            ExecutionMode::DepthReplacing => 12,
            ExecutionMode::DepthGreater => 14,
            ExecutionMode::DepthLess => 15,
            ExecutionMode::DepthUnchanged => 16,
            ExecutionMode::LocalSize(ref a0, ref a1, ref a2) => { Operand::lift(a0, &mut p); Operand::lift(a1, &mut p); Operand::lift(a2, &mut p); 17 }
            ExecutionMode::LocalSizeHint(ref a0, ref a1, ref a2) => { Operand::lift(a0, &mut p); Operand::lift(a1, &mut p); Operand::lift(a2, &mut p); 18 }
            ExecutionMode::InputPoints => 19,
            ExecutionMode::InputLines => 20,
            ExecutionMode::InputLinesAdjacency => 21,
            ExecutionMode::Triangles => 22,
            ExecutionMode::InputTrianglesAdjacency => 23,
            ExecutionMode::Quads => 24,
            ExecutionMode::Isolines => 25,
            ExecutionMode::OutputVerticies(ref a0) => { Operand::lift(a0, &mut p); 26 }
            ExecutionMode::OutputPoints => 27,
            ExecutionMode::OutputLineStrip => 28,
            ExecutionMode::OutputTriangleStrip => 29,
            ExecutionMode::VecTypeHint(ref a0) => { Operand::lift(a0, &mut p); 30 }
            ExecutionMode::ContractionOff => 31,
            _ => u32::MAX,
        };
        out.push(Arg::En(3, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => ExecutionMode::Invocations(Operand::build(p)),
            1 => ExecutionMode::SpacingEqual,
            2 => ExecutionMode::SpacingFractionalEven,
            3 => ExecutionMode::SpacingFractionalOdd,
            4 => ExecutionMode::VertexOrderCw,
            5 => ExecutionMode::VertexOrderCcw,
            6 => ExecutionMode::PixelCenterInteger,
            7 => ExecutionMode::OriginUpperLeft,
            8 => ExecutionMode::OriginLowerLeft,
            9 => ExecutionMode::EarlyFragmentTests,
            10 => ExecutionMode::PointMode,
            11 => ExecutionMode::Xfb,
            12 => ExecutionMode::DepthReplacing,
            14 => ExecutionMode::DepthGreater,
            15 => ExecutionMode::DepthLess,
            16 => ExecutionMode::DepthUnchanged,
            17 => ExecutionMode::LocalSize(Operand::build(p), Operand::build(p), Operand::build(p)),
            18 => ExecutionMode::LocalSizeHint(Operand::build(p), Operand::build(p), Operand::build(p)),
            19 => ExecutionMode::InputPoints,
            20 => ExecutionMode::InputLines,
            21 => ExecutionMode::InputLinesAdjacency,
            22 => ExecutionMode::Triangles,
            23 => ExecutionMode::InputTrianglesAdjacency,
            24 => ExecutionMode::Quads,
            25 => ExecutionMode::Isolines,
            26 => ExecutionMode::OutputVerticies(Operand::build(p)),
            27 => ExecutionMode::OutputPoints,
            28 => ExecutionMode::OutputLineStrip,
            29 => ExecutionMode::OutputTriangleStrip,
            30 => ExecutionMode::VecTypeHint(Operand::build(p)),
            31 => ExecutionMode::ContractionOff,
            _ => panic!("harness: bad enumerant ExecutionMode {}", n),
        }
    }
}
impl Operand for Capability {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            Capability::Matrix => 0,
            Capability::Shader => 1,
            Capability::Geometry => 2,
            Capability::Tessellation => 3,
            Capability::Addresses => 4,
            Capability::Linkage => 5,
            Capability::Kernel => 6,
            Capability::Vector16 => 7,
            Capability::Float16Buffer => 8,
            Capability::Float16 => 9,
            Capability::Float64 => 10,
            Capability::Int64 => 11,
            Capability::Int64Atomics => 12,
            Capability::ImageBasic => 13,
            Capability::ImageReadWrite => 14,
            Capability::ImageMipmap => 15,
            Capability::Pipes => 17,
            Capability::Groups => 18,
            Capability::DeviceEnqueue => 19,
            Capability::LiteralSampler => 20,
            Capability::AtomicStorage => 21,
            Capability::Int16 => 22,
            Capability::TessellationPointSize => 23,
            Capability::GeometryPointSize => 24,
            Capability::ImageGatherExtended => 25,
            Capability::StorageImageMultisample => 27,
            Capability::UniformBufferArrayDynamicIndexing => 28,
            Capability::SampledImageArrayDynamicIndexing => 29,
            Capability::StorageBufferArrayDynamicIndexing => 30,
            Capability::StorageImageArrayDynamicIndexing => 31,
            Capability::ClipDistance => 32,
            Capability::CullDistance => 33,
            Capability::ImageCubeArray => 34,
            Capability::SampleRateShading => 35,
            Capability::ImageRect => 36,
            Capability::SampledRect => 37,
            Capability::GenericPointer => 38,
            Capability::Int8 => 39,
            Capability::InputAttachment => 40,
            Capability::SparseResidency => 41,
            Capability::MinLod => 42,
            Capability::Sampled1D => 43,
            Capability::Image1D => 44,
            Capability::SampledCubeArray => 45,
            Capability::SampledBuffer => 46,
            Capability::ImageBuffer => 47,
            Capability::ImageMSArray => 48,
            Capability::StorageImageExtendedFormats => 49,
            Capability::ImageQuery => 50,
            Capability::DerivativeControl => 51,
            Capability::InterpolationFunction => 52,
            Capability::TransformFeedback => 53,
            Capability::GeometryStreams => 54,
            Capability::StorageImageReadWithoutFormat => 55,
            Capability::StorageImageWriteWithoutFormat => 56,
            Capability::MultiViewport => 57,
            _ => u32::MAX,
        };
        out.push(Arg::En(4, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => Capability::Matrix,
            1 => Capability::Shader,
            2 => Capability::Geometry,
            3 => Capability::Tessellation,
            4 => Capability::Addresses,
            5 => Capability::Linkage,
            6 => Capability::Kernel,
            7 => Capability::Vector16,
            8 => Capability::Float16Buffer,
            9 => Capability::Float16,
            10 => Capability::Float64,
            11 => Capability::Int64,
            12 => Capability::Int64Atomics,
            13 => Capability::ImageBasic,
            14 => Capability::ImageReadWrite,
            15 => Capability::ImageMipmap,
            17 => Capability::Pipes,
            18 => Capability::Groups,
            19 => Capability::DeviceEnqueue,
            20 => Capability::LiteralSampler,
            21 => Capability::AtomicStorage,
            22 => Capability::Int16,
            23 => Capability::TessellationPointSize,
            24 => Capability::GeometryPointSize,
            25 => Capability::ImageGatherExtended,
            27 => Capability::StorageImageMultisample,
            28 => Capability::UniformBufferArrayDynamicIndexing,
            29 => Capability::SampledImageArrayDynamicIndexing,
            30 => Capability::StorageBufferArrayDynamicIndexing,
            31 => Capability::StorageImageArrayDynamicIndexing,
            32 => Capability::ClipDistance,
            33 => Capability::CullDistance,
            34 => Capability::ImageCubeArray,
            35 => Capability::SampleRateShading,
            36 => Capability::ImageRect,
            37 => Capability::SampledRect,
            38 => Capability::GenericPointer,
            39 => Capability::Int8,
            40 => Capability::InputAttachment,
            41 => Capability::SparseResidency,
            42 => Capability::MinLod,
            43 => Capability::Sampled1D,
            44 => Capability::Image1D,
            45 => Capability::SampledCubeArray,
            46 => Capability::SampledBuffer,
            47 => Capability::ImageBuffer,
            48 => Capability::ImageMSArray,
            49 => Capability::StorageImageExtendedFormats,
            50 => Capability::ImageQuery,
            51 => Capability::DerivativeControl,
            52 => Capability::InterpolationFunction,
            53 => Capability::TransformFeedback,
            54 => Capability::GeometryStreams,
            55 => Capability::StorageImageReadWithoutFormat,
            56 => Capability::StorageImageWriteWithoutFormat,
            57 => Capability::MultiViewport,
            _ => panic!("harness: bad enumerant Capability {}", n),
        }
    }
}
impl Operand for Decoration {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            Decoration::RelaxedPrecision => 0,
            Decoration::SpecId(ref a0) => { Operand::lift(a0, &mut p); 1 }
            Decoration::Block => 2,
            Decoration::BufferBlock => 3,
            Decoration::RowMajor => 4,
            Decoration::ColMajor => 5,
            Decoration::ArrayStride(ref a0) => { Operand::lift(a0, &mut p); 6 }
            Decoration::MatrixStride(ref a0) => { Operand::lift(a0, &mut p); 7 }
            Decoration::GlslShared => 8,
            Decoration::GlslPacked => 9,
            Decoration::CPacked => 10,
            Decoration::BuiltIn(ref a0) => { Operand::lift(a0, &mut p); 11 }
            Decoration::NoPerspective => 13,
            Decoration::Flat => 14,
            Decoration::Patch => 15,
            Decoration::Centroid => 16,
            Decoration::Sample => 17,
            Decoration::Invariant => 18,
            Decoration::Restrict => 19,
            Decoration::Aliased => 20,
            Decoration::Volatile => 21,
            Decoration::Constant => 22,
            Decoration::Coherent => 23,
            Decoration::NonWritable => 24,
            Decoration::NonReadable => 25,
            Decoration::Uniform => 26,
            Decoration::SaturatedConversion => 28,
            Decoration::Stream(ref a0) => { Operand::lift(a0, &mut p); 29 }
            Decoration::Location(ref a0) => { Operand::lift(a0, &mut p); 30 }
            Decoration::Component(ref a0) => { Operand::lift(a0, &mut p); 31 }
            Decoration::Index(ref a0) => { Operand::lift(a0, &mut p); 32 }
            Decoration::Binding(ref a0) => { Operand::lift(a0, &mut p); 33 }
            Decoration::DescriptorSet(ref a0) => { Operand::lift(a0, &mut p); 34 }
            Decoration::Offset(ref a0) => { Operand::lift(a0, &mut p); 35 }
            Decoration::XfbBuffer(ref a0) => { Operand::lift(a0, &mut p); 36 }
            Decoration::XfbStride(ref a0) => { Operand::lift(a0, &mut p); 37 }
            Decoration::FuncParamAttr(ref a0) => { Operand::lift(a0, &mut p); 38 }
            Decoration::FpRoundingMode(ref a0) => { Operand::lift(a0, &mut p); 39 }
            Decoration::FpFastMathMode(ref a0) => { Operand::lift(a0, &mut p); 40 }
            Decoration::LinkageAttributes(ref a0, ref a1) => { Operand::lift(a0, &mut p); Operand::lift(a1, &mut p); 41 }
            Decoration::NoContraction => 42,
            Decoration::InputAttachmentIndex(ref a0) => { Operand::lift(a0, &mut p); 43 }
            Decoration::Alignment(ref a0) => { Operand::lift(a0, &mut p); 44 }
            _ => u32::MAX,
        };
        out.push(Arg::En(5, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => Decoration::RelaxedPrecision,
            1 => Decoration::SpecId(Operand::build(p)),
            2 => Decoration::Block,
            3 => Decoration::BufferBlock,
            4 => Decoration::RowMajor,
            5 => Decoration::ColMajor,
            6 => Decoration::ArrayStride(Operand::build(p)),
            7 => Decoration::MatrixStride(Operand::build(p)),
            8 => Decoration::GlslShared,
            9 => Decoration::GlslPacked,
            10 => Decoration::CPacked,
            11 => Decoration::BuiltIn(Operand::build(p)),
            13 => Decoration::NoPerspective,
            14 => Decoration::Flat,
            15 => Decoration::Patch,
            16 => Decoration::Centroid,
            17 => Decoration::Sample,
            18 => Decoration::Invariant,
            19 => Decoration::Restrict,
            20 => Decoration::Aliased,
            21 => Decoration::Volatile,
            22 => Decoration::Constant,
            23 => Decoration::Coherent,
            24 => Decoration::NonWritable,
            25 => Decoration::NonReadable,
            26 => Decoration::Uniform,
            28 => Decoration::SaturatedConversion,
            29 => Decoration::Stream(Operand::build(p)),
            30 => Decoration::Location(Operand::build(p)),
            31 => Decoration::Component(Operand::build(p)),
            32 => Decoration::Index(Operand::build(p)),
            33 => Decoration::Binding(Operand::build(p)),
            34 => Decoration::DescriptorSet(Operand::build(p)),
            35 => Decoration::Offset(Operand::build(p)),
            36 => Decoration::XfbBuffer(Operand::build(p)),
            37 => Decoration::XfbStride(Operand::build(p)),
            38 => Decoration::FuncParamAttr(Operand::build(p)),
            39 => Decoration::FpRoundingMode(Operand::build(p)),
            40 => Decoration::FpFastMathMode(Operand::build(p)),
            41 => Decoration::LinkageAttributes(Operand::build(p), Operand::build(p)),
            42 => Decoration::NoContraction,
            43 => Decoration::InputAttachmentIndex(Operand::build(p)),
            44 => Decoration::Alignment(Operand::build(p)),
            _ => panic!("harness: bad enumerant Decoration {}", n),
        }
    }
}
impl Operand for BuiltIn {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            BuiltIn::Position => 0,
            BuiltIn::PointSize => 1,
            BuiltIn::ClipDistance => 3,
            BuiltIn::CullDistance => 4,
            BuiltIn::VertexId => 5,
            BuiltIn::InstanceId => 6,
            BuiltIn::PrimitiveId => 7,
            BuiltIn::InvocationId => 8,
            BuiltIn::Layer => 9,
            BuiltIn::ViewportIndex => 10,
            BuiltIn::TessLevelOuter => 11,
            BuiltIn::TessLevelInner => 12,
            BuiltIn::TessCoord => 13,
            BuiltIn::PatchVerticies => 14,
            BuiltIn::FragCoord => 15,
            BuiltIn::PointCoord => 16,
            BuiltIn::FrontFacing => 17,
            BuiltIn::SampleId => 18,
            BuiltIn::SamplePosition => 19,
            BuiltIn::SampleMask => 20,
            BuiltIn::FragDepth => 22,
            BuiltIn::HelperInvocation => 23,
            BuiltIn::NumWorkgroups => 24,
            BuiltIn::WorkgroupSize => 25,
            BuiltIn::WorkgroupId => 26,
            BuiltIn::LocalInvocationId => 27,
            BuiltIn::GlobalInvocationId => 28,
            BuiltIn::LocalInvocationIndex => 29,
            BuiltIn::WorkDim => 30,
            BuiltIn::GlobalSize => 31,
            BuiltIn::EnqueuedWorkgroupSize => 32,
            BuiltIn::GlobalOffset => 33,
            BuiltIn::GlobalLinearId => 34,
            BuiltIn::SubgroupSize => 36,
            BuiltIn::SubgroupMaxSize => 37,
            BuiltIn::NumSubgroups => 38,
            BuiltIn::NumEnqueuedSubgroups => 39,
            BuiltIn::SubgroupId => 40,
            BuiltIn::SubgroupLocalInvocationId => 41,
            BuiltIn::VertexIndex => 42,
            BuiltIn::InstanceIndex => 43,
            _ => u32::MAX,
        };
        out.push(Arg::En(6, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => BuiltIn::Position,
            1 => BuiltIn::PointSize,
            3 => BuiltIn::ClipDistance,
            4 => BuiltIn::CullDistance,
            5 => BuiltIn::VertexId,
            6 => BuiltIn::InstanceId,
            7 => BuiltIn::PrimitiveId,
            8 => BuiltIn::InvocationId,
            9 => BuiltIn::Layer,
            10 => BuiltIn::ViewportIndex,
            11 => BuiltIn::TessLevelOuter,
            12 => BuiltIn::TessLevelInner,
            13 => BuiltIn::TessCoord,
            14 => BuiltIn::PatchVerticies,
            15 => BuiltIn::FragCoord,
            16 => BuiltIn::PointCoord,
            17 => BuiltIn::FrontFacing,
            18 => BuiltIn::SampleId,
            19 => BuiltIn::SamplePosition,
            20 => BuiltIn::SampleMask,
            22 => BuiltIn::FragDepth,
            23 => BuiltIn::HelperInvocation,
            24 => BuiltIn::NumWorkgroups,
            25 => BuiltIn::WorkgroupSize,
            26 => BuiltIn::WorkgroupId,
            27 => BuiltIn::LocalInvocationId,
            28 => BuiltIn::GlobalInvocationId,
            29 => BuiltIn::LocalInvocationIndex,
            30 => BuiltIn::WorkDim,
            31 => BuiltIn::GlobalSize,
            32 => BuiltIn::EnqueuedWorkgroupSize,
            33 => BuiltIn::GlobalOffset,
            34 => BuiltIn::GlobalLinearId,
            36 => BuiltIn::SubgroupSize,
            37 => BuiltIn::SubgroupMaxSize,
            38 => BuiltIn::NumSubgroups,
            39 => BuiltIn::NumEnqueuedSubgroups,
            40 => BuiltIn::SubgroupId,
            41 => BuiltIn::SubgroupLocalInvocationId,
            42 => BuiltIn::VertexIndex,
            43 => BuiltIn::InstanceIndex,
            _ => panic!("harness: bad enumerant BuiltIn {}", n),
        }
    }
}
impl Operand for FpRoundingMode {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            FpRoundingMode::Rte => 0,
            FpRoundingMode::Rtz => 1,
            FpRoundingMode::Rtp => 2,
            FpRoundingMode::Rtn => 3,
            _ => u32::MAX,
        };
        out.push(Arg::En(7, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => FpRoundingMode::Rte,
            1 => FpRoundingMode::Rtz,
            2 => FpRoundingMode::Rtp,
            3 => FpRoundingMode::Rtn,
            _ => panic!("harness: bad enumerant FpRoundingMode {}", n),
        }
    }
}
impl Operand for LinkageType {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            LinkageType::Export => 0,
            LinkageType::Import => 1,
            _ => u32::MAX,
        };
        out.push(Arg::En(8, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => LinkageType::Export,
            1 => LinkageType::Import,
            _ => panic!("harness: bad enumerant LinkageType {}", n),
        }
    }
}
impl Operand for Signedness {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            Signedness::UnsignedOrNone => 0,
            Signedness::Signed => 1,
            _ => u32::MAX,
        };
        out.push(Arg::En(9, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => Signedness::UnsignedOrNone,
            1 => Signedness::Signed,
            _ => panic!("harness: bad enumerant Signedness {}", n),
        }
    }
}
impl Operand for StorageClass {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            StorageClass::UniformConstant => 0,
            StorageClass::Input => 1,
            StorageClass::Uniform => 2,
            StorageClass::Output => 3,
            StorageClass::Workgroup => 4,
            StorageClass::CrossWorkgroup => 5,
            StorageClass::Private => 6,
            StorageClass::Function => 7,
            StorageClass::Generic => 8,
            StorageClass::PushConstant => 9,
            StorageClass::AtomicCounter => 10,
            StorageClass::Image => 11,
            _ => u32::MAX,
        };
        out.push(Arg::En(10, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => StorageClass::UniformConstant,
            1 => StorageClass::Input,
            2 => StorageClass::Uniform,
            3 => StorageClass::Output,
            4 => StorageClass::Workgroup,
            5 => StorageClass::CrossWorkgroup,
            6 => StorageClass::Private,
            7 => StorageClass::Function,
            8 => StorageClass::Generic,
            9 => StorageClass::PushConstant,
            10 => StorageClass::AtomicCounter,
            11 => StorageClass::Image,
            _ => panic!("harness: bad enumerant StorageClass {}", n),
        }
    }
}
impl Operand for FunctionParameterAttribute {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            FunctionParameterAttribute::Zext => 0,
            FunctionParameterAttribute::Sext => 1,
            FunctionParameterAttribute::ByVal => 2,
            FunctionParameterAttribute::Sret => 3,
            FunctionParameterAttribute::NoAlias => 4,
            FunctionParameterAttribute::NoCapture => 5,
            FunctionParameterAttribute::NoWrite => 6,
            FunctionParameterAttribute::NoReadWrite => 7,
            _ => u32::MAX,
        };
        out.push(Arg::En(11, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => FunctionParameterAttribute::Zext,
            1 => FunctionParameterAttribute::Sext,
            2 => FunctionParameterAttribute::ByVal,
            3 => FunctionParameterAttribute::Sret,
            4 => FunctionParameterAttribute::NoAlias,
            5 => FunctionParameterAttribute::NoCapture,
            6 => FunctionParameterAttribute::NoWrite,
            7 => FunctionParameterAttribute::NoReadWrite,
            _ => panic!("harness: bad enumerant FunctionParameterAttribute {}", n),
        }
    }
}
impl Operand for Dim {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            Dim::Tex1D => 0,
            Dim::Tex2D => 1,
            Dim::Tex3D => 2,
            Dim::Cube => 3,
            Dim::Rect => 4,
            Dim::Buffer => 5,
            Dim::SubpassData => 6,
            _ => u32::MAX,
        };
        out.push(Arg::En(12, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => Dim::Tex1D,
            1 => Dim::Tex2D,
            2 => Dim::Tex3D,
            3 => Dim::Cube,
            4 => Dim::Rect,
            5 => Dim::Buffer,
            6 => Dim::SubpassData,
            _ => panic!("harness: bad enumerant Dim {}", n),
        }
    }
}
impl Operand for DepthStatus {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            DepthStatus::NotDepth => 0,
            DepthStatus::Depth => 1,
            DepthStatus::NoIndication => 2,
            _ => u32::MAX,
        };
        out.push(Arg::En(13, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => DepthStatus::NotDepth,
            1 => DepthStatus::Depth,
            2 => DepthStatus::NoIndication,
            _ => panic!("harness: bad enumerant DepthStatus {}", n),
        }
    }
}
impl Operand for Arrayed {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            Arrayed::False => 0,
            Arrayed::True => 1,
            _ => u32::MAX,
        };
        out.push(Arg::En(14, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => Arrayed::False,
            1 => Arrayed::True,
            _ => panic!("harness: bad enumerant Arrayed {}", n),
        }
    }
}
impl Operand for MS {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            MS::Single => 0,
            MS::Multi => 1,
            _ => u32::MAX,
        };
        out.push(Arg::En(15, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => MS::Single,
            1 => MS::Multi,
            _ => panic!("harness: bad enumerant MS {}", n),
        }
    }
}
impl Operand for SampledStatus {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            SampledStatus::RuntimeChoice => 0,
            SampledStatus::WithSampler => 1,
            SampledStatus::WithoutSampler => 2,
            _ => u32::MAX,
        };
        out.push(Arg::En(16, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => SampledStatus::RuntimeChoice,
            1 => SampledStatus::WithSampler,
            2 => SampledStatus::WithoutSampler,
            _ => panic!("harness: bad enumerant SampledStatus {}", n),
        }
    }
}
impl Operand for ImageFormat {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            ImageFormat::Unknown => 0,
            ImageFormat::Rgba32f => 1,
            ImageFormat::Rgba16f => 2,
            ImageFormat::R32f => 3,
            ImageFormat::Rgba8 => 4,
            ImageFormat::Rgba8Snorm => 5,
            ImageFormat::Rg32f => 6,
            ImageFormat::Rg16f => 7,
            ImageFormat::R11fG11fB10f => 8,
            ImageFormat::R16f => 9,
            ImageFormat::Rgba16 => 10,
            ImageFormat::Rgb10A2 => 11,
            ImageFormat::Rg16 => 12,
            ImageFormat::Rg8 => 13,
            ImageFormat::R16 => 14,
            ImageFormat::R8 => 15,
            ImageFormat::Rgba16Snorm => 16,
            ImageFormat::Rg16Snorm => 17,
            ImageFormat::Rg8Snorm => 18,
            ImageFormat::R16Snorm => 19,
            ImageFormat::R8Snorm => 20,
            ImageFormat::Rgba32i => 21,
            ImageFormat::Rgba16i => 22,
            ImageFormat::Rgba8i => 23,
            ImageFormat::R32i => 24,
            ImageFormat::Rg32i => 25,
            ImageFormat::Rg16i => 26,
            ImageFormat::Rg8i => 27,
            ImageFormat::R16i => 28,
            ImageFormat::R8i => 29,
            ImageFormat::Rgba32ui => 30,
            ImageFormat::Rgba16ui => 31,
            ImageFormat::Rgba8ui => 32,
            ImageFormat::R32ui => 33,
            ImageFormat::Rgb10a2ui => 34,
            ImageFormat::Rg32ui => 35,
            ImageFormat::Rg16ui => 36,
            ImageFormat::Rg8ui => 37,
            ImageFormat::R16ui => 38,
            ImageFormat::R8ui => 39,
            _ => u32::MAX,
        };
        out.push(Arg::En(17, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => ImageFormat::Unknown,
            1 => ImageFormat::Rgba32f,
            2 => ImageFormat::Rgba16f,
            3 => ImageFormat::R32f,
            4 => ImageFormat::Rgba8,
            5 => ImageFormat::Rgba8Snorm,
            6 => ImageFormat::Rg32f,
            7 => ImageFormat::Rg16f,
            8 => ImageFormat::R11fG11fB10f,
            9 => ImageFormat::R16f,
            10 => ImageFormat::Rgba16,
            11 => ImageFormat::Rgb10A2,
            12 => ImageFormat::Rg16,
            13 => ImageFormat::Rg8,
            14 => ImageFormat::R16,
            15 => ImageFormat::R8,
            16 => ImageFormat::Rgba16Snorm,
            17 => ImageFormat::Rg16Snorm,
            18 => ImageFormat::Rg8Snorm,
            19 => ImageFormat::R16Snorm,
            20 => ImageFormat::R8Snorm,
            21 => ImageFormat::Rgba32i,
            22 => ImageFormat::Rgba16i,
            23 => ImageFormat::Rgba8i,
            24 => ImageFormat::R32i,
            25 => ImageFormat::Rg32i,
            26 => ImageFormat::Rg16i,
            27 => ImageFormat::Rg8i,
            28 => ImageFormat::R16i,
            29 => ImageFormat::R8i,
            30 => ImageFormat::Rgba32ui,
            31 => ImageFormat::Rgba16ui,
            32 => ImageFormat::Rgba8ui,
            33 => ImageFormat::R32ui,
            34 => ImageFormat::Rgb10a2ui,
            35 => ImageFormat::Rg32ui,
            36 => ImageFormat::Rg16ui,
            37 => ImageFormat::Rg8ui,
            38 => ImageFormat::R16ui,
            39 => ImageFormat::R8ui,
            _ => panic!("harness: bad enumerant ImageFormat {}", n),
        }
    }
}
impl Operand for AccessQualifier {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            AccessQualifier::ReadOnly => 0,
            AccessQualifier::WriteOnly => 1,
            AccessQualifier::ReadWrite => 2,
            _ => u32::MAX,
        };
        out.push(Arg::En(18, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => AccessQualifier::ReadOnly,
            1 => AccessQualifier::WriteOnly,
            2 => AccessQualifier::ReadWrite,
            _ => panic!("harness: bad enumerant AccessQualifier {}", n),
        }
    }
}
impl Operand for SourceLanguage {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            SourceLanguage::Unknown => 0,
            SourceLanguage::Essl => 1,
            SourceLanguage::Glsl => 2,
            SourceLanguage::OpenCL_C => 3,
            SourceLanguage::OpenCL_Cpp => 4,
            SourceLanguage::Other(k) => { p.push(Arg::Num(k)); k }
        };
        out.push(Arg::En(19, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            n if p.left() > 0 => SourceLanguage::Other(n),
            0 => SourceLanguage::Unknown,
            1 => SourceLanguage::Essl,
            2 => SourceLanguage::Glsl,
            3 => SourceLanguage::OpenCL_C,
            4 => SourceLanguage::OpenCL_Cpp,
            _ => panic!("harness: bad enumerant SourceLanguage {}", n),
        }
    }
}
impl Operand for SamplerAddressingMode {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            SamplerAddressingMode::None => 0,
            SamplerAddressingMode::ClampToEdge => 1,
            SamplerAddressingMode::Clamp => 2,
            SamplerAddressingMode::Repeat => 3,
            SamplerAddressingMode::RepeatMirrored => 4,
            _ => u32::MAX,
        };
        out.push(Arg::En(20, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => SamplerAddressingMode::None,
            1 => SamplerAddressingMode::ClampToEdge,
            2 => SamplerAddressingMode::Clamp,
            3 => SamplerAddressingMode::Repeat,
            4 => SamplerAddressingMode::RepeatMirrored,
            _ => panic!("harness: bad enumerant SamplerAddressingMode {}", n),
        }
    }
}
impl Operand for SamplerParam {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            SamplerParam::NonNormalized => 0,
            SamplerParam::Normalized => 1,
            _ => u32::MAX,
        };
        out.push(Arg::En(21, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => SamplerParam::NonNormalized,
            1 => SamplerParam::Normalized,
            _ => panic!("harness: bad enumerant SamplerParam {}", n),
        }
    }
}
impl Operand for SamplerFilterMode {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let n: u32 = match *self {
            SamplerFilterMode::Nearest => 0,
            SamplerFilterMode::Linear => 1,
            _ => u32::MAX,
        };
        out.push(Arg::En(22, n, p));
    }
    fn build(a: &mut Args) -> Self {
        let (n, p) = a.en();
        let mut p = Args::new(p);
        let p = &mut p;
        match n {
            0 => SamplerFilterMode::Nearest,
            1 => SamplerFilterMode::Linear,
            _ => panic!("harness: bad enumerant SamplerFilterMode {}", n),
        }
    }
}
impl Operand for FunctionControl {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let mut v = 0u32;
        if self.inline { v |= 1; }
        if self.dont_inline { v |= 2; }
        if self.pure_function { v |= 4; }
        if self.const_function { v |= 8; }
        out.push(Arg::Mask(0, v, p));
    }
    fn build(a: &mut Args) -> Self {
        let (v, p) = a.mask();
        let mut p = Args::new(p);
        let p = &mut p;
        FunctionControl {
            inline: v & 1 != 0,
            dont_inline: v & 2 != 0,
            pure_function: v & 4 != 0,
            const_function: v & 8 != 0,
        }
    }
}
impl Operand for MemoryAccess {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let mut v = 0u32;
        if self.volatile { v |= 1; }
        if FlagField::get(&self.aligned, &mut p) { v |= 2; }
        if self.non_temporal { v |= 4; }
        out.push(Arg::Mask(1, v, p));
    }
    fn build(a: &mut Args) -> Self {
        let (v, p) = a.mask();
        let mut p = Args::new(p);
        let p = &mut p;
        MemoryAccess {
            volatile: v & 1 != 0,
            aligned: FlagField::make(v & 2 != 0, p),
            non_temporal: v & 4 != 0,
        }
    }
}
impl Operand for LoopControl {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let mut v = 0u32;
        if self.unroll { v |= 1; }
        if self.dont_unroll { v |= 2; }
        if self.dependency_infinite { v |= 4; }
        if FlagField::get(&self.dependency_length, &mut p) { v |= 8; }
        out.push(Arg::Mask(2, v, p));
    }
    fn build(a: &mut Args) -> Self {
        let (v, p) = a.mask();
        let mut p = Args::new(p);
        let p = &mut p;
        LoopControl {
            unroll: v & 1 != 0,
            dont_unroll: v & 2 != 0,
            dependency_infinite: v & 4 != 0,
            dependency_length: FlagField::make(v & 8 != 0, p),
        }
    }
}
impl Operand for SelectionControl {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let mut v = 0u32;
        if self.flatten { v |= 1; }
        if self.dont_flatten { v |= 2; }
        out.push(Arg::Mask(3, v, p));
    }
    fn build(a: &mut Args) -> Self {
        let (v, p) = a.mask();
        let mut p = Args::new(p);
        let p = &mut p;
        SelectionControl {
            flatten: v & 1 != 0,
            dont_flatten: v & 2 != 0,
        }
    }
}
impl Operand for FpFastMathMode {
    fn lift(&self, out: &mut Vec<Arg>) {
        let mut p: Vec<Arg> = Vec::new();
        let mut v = 0u32;
        if self.not_nan { v |= 1; }
        if self.not_inf { v |= 2; }
        if self.nsz { v |= 4; }
        if self.allow_recip { v |= 8; }
        if self.fast { v |= 16; }
        out.push(Arg::Mask(4, v, p));
    }
    fn build(a: &mut Args) -> Self {
        let (v, p) = a.mask();
        let mut p = Args::new(p);
        let p = &mut p;
        FpFastMathMode {
            not_nan: v & 1 != 0,
            not_inf: v & 2 != 0,
            nsz: v & 4 != 0,
            allow_recip: v & 8 != 0,
            fast: v & 16 != 0,
        }
    }
}

pub static OPS: &[OpDef] = &[
    OpDef { num: 0, name: "OpNop", kinds: &[] },
    OpDef { num: 1, name: "OpUndef", kinds: &[Kind::Id, Kind::Res] },
    OpDef { num: 2, name: "OpSourceContinued", kinds: &[Kind::Str] },
    OpDef { num: 3, name: "OpSource", kinds: &[Kind::En(19), Kind::Num, Kind::Opt(&Kind::Id), Kind::Opt(&Kind::Str)] },
    OpDef { num: 4, name: "OpSourceExtension", kinds: &[Kind::Str] },
    OpDef { num: 5, name: "OpName", kinds: &[Kind::Id, Kind::Str] },
    OpDef { num: 6, name: "OpMemberName", kinds: &[Kind::Id, Kind::Num, Kind::Str] },
    OpDef { num: 7, name: "OpString", kinds: &[Kind::Res, Kind::Str] },
    OpDef { num: 10, name: "OpExtension", kinds: &[Kind::Str] },
    OpDef { num: 11, name: "OpExtInstImport", kinds: &[Kind::Res, Kind::Str] },
    OpDef { num: 12, name: "OpExtInst", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Ext] },
    OpDef { num: 14, name: "OpMemoryModel", kinds: &[Kind::En(0), Kind::En(1)] },
    OpDef { num: 15, name: "OpEntryPoint", kinds: &[Kind::En(2), Kind::Id, Kind::Str, Kind::Many(&Kind::Id)] },
    OpDef { num: 16, name: "OpExecutionMode", kinds: &[Kind::Id, Kind::En(3)] },
    OpDef { num: 17, name: "OpCapability", kinds: &[Kind::En(4)] },
    OpDef { num: 19, name: "OpTypeVoid", kinds: &[Kind::Res] },
    OpDef { num: 20, name: "OpTypeBool", kinds: &[Kind::Res] },
    OpDef { num: 21, name: "OpTypeInt", kinds: &[Kind::Res, Kind::Num, Kind::En(9)] },
    OpDef { num: 22, name: "OpTypeFloat", kinds: &[Kind::Res, Kind::Num] },
    OpDef { num: 23, name: "OpTypeVector", kinds: &[Kind::Res, Kind::Id, Kind::Num] },
    OpDef { num: 24, name: "OpTypeMatrix", kinds: &[Kind::Res, Kind::Id, Kind::Num] },
    OpDef { num: 25, name: "OpTypeImage", kinds: &[Kind::Res, Kind::Id, Kind::En(12), Kind::En(13), Kind::En(14), Kind::En(15), Kind::En(16), Kind::En(17), Kind::Opt(&Kind::En(18))] },
    OpDef { num: 26, name: "OpTypeSampler", kinds: &[Kind::Res] },
    OpDef { num: 27, name: "OpTypeSampledImage", kinds: &[Kind::Res, Kind::Id] },
    OpDef { num: 28, name: "OpTypeArray", kinds: &[Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 29, name: "OpTypeRuntimeArray", kinds: &[Kind::Res, Kind::Id] },
    OpDef { num: 30, name: "OpTypeStruct", kinds: &[Kind::Res, Kind::Many(&Kind::Id)] },
    OpDef { num: 31, name: "OpTypeOpaque", kinds: &[Kind::Res, Kind::Str] },
    OpDef { num: 32, name: "OpTypePointer", kinds: &[Kind::Res, Kind::En(10), Kind::Id] },
    OpDef { num: 33, name: "OpTypeFunction", kinds: &[Kind::Res, Kind::Id, Kind::Many(&Kind::Id)] },
    OpDef { num: -34, name: "OpTypeEvent", kinds: &[Kind::Res] },
    OpDef { num: -35, name: "OpTypeDeviceEvent", kinds: &[Kind::Res] },
    OpDef { num: -37, name: "OpTypeQueue", kinds: &[Kind::Res] },
    OpDef { num: -38, name: "OpTypePipe", kinds: &[Kind::Res, Kind::En(18)] },
    OpDef { num: -39, name: "OpTypeForwardPointer", kinds: &[Kind::Id, Kind::En(10)] },
    OpDef { num: 43, name: "OpConstant", kinds: &[Kind::Id, Kind::Res, Kind::Many(&Kind::Num)] },
    OpDef { num: 44, name: "OpConstantComposite", kinds: &[Kind::Id, Kind::Res, Kind::Many(&Kind::Id)] },
    OpDef { num: 54, name: "OpFunction", kinds: &[Kind::Id, Kind::Res, Kind::Mask(0), Kind::Id] },
    OpDef { num: 55, name: "OpFunctionParameter", kinds: &[Kind::Id, Kind::Res] },
    OpDef { num: 56, name: "OpFunctionEnd", kinds: &[] },
    OpDef { num: 59, name: "OpVariable", kinds: &[Kind::Id, Kind::Res, Kind::En(10), Kind::Opt(&Kind::Id)] },
    OpDef { num: 61, name: "OpLoad", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Opt(&Kind::Mask(1))] },
    OpDef { num: 62, name: "OpStore", kinds: &[Kind::Id, Kind::Id, Kind::Opt(&Kind::Mask(1))] },
    OpDef { num: 65, name: "OpAccessChain", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Many(&Kind::Id)] },
    OpDef { num: 71, name: "OpDecorate", kinds: &[Kind::Id, Kind::En(5)] },
    OpDef { num: 72, name: "OpMemberDecorate", kinds: &[Kind::Id, Kind::Num, Kind::En(5)] },
    OpDef { num: 112, name: "OpConvertUToF", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: 124, name: "OpBitcast", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: 128, name: "OpIAdd", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 129, name: "OpFAdd", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 130, name: "OpISub", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 131, name: "OpFSub", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 132, name: "OpIMul", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 133, name: "OpFMul", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 134, name: "OpUDiv", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 135, name: "OpSDiv", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 136, name: "OpFDiv", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 137, name: "OpUMod", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 138, name: "OpSRem", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 139, name: "OpSMod", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 140, name: "OpFRem", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 141, name: "OpFMod", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 149, name: "OpIAddCarry", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 150, name: "OpISubBorrow", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 151, name: "OpUMulExtended", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 152, name: "OpSMulExtended", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 197, name: "OpBitwiseOr", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 198, name: "OpBitwiseXor", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 199, name: "OpBitwiseAnd", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 170, name: "OpIEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 171, name: "OpINotEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 172, name: "OpUGreaterThan", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 173, name: "OpSGreaterThan", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 174, name: "OpUGreaterThanEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 175, name: "OpSGreaterThanEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 176, name: "OpULessThan", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 177, name: "OpSLessThan", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 178, name: "OpULessThanEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 179, name: "OpSLessThanEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 180, name: "OpFOrdEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 181, name: "OpFUnordEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 182, name: "OpFOrdNotEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 183, name: "OpFUnordNotEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 184, name: "OpFOrdLessThan", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 185, name: "OpFUnordLessThan", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 186, name: "OpFOrdGreaterThan", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 187, name: "OpFUnordGreaterThan", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 188, name: "OpFOrdLessThanEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 189, name: "OpFUnordLessThanEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 190, name: "OpFOrdGreaterThanEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 191, name: "OpFUnordGreaterThanEqual", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: 245, name: "OpPhi", kinds: &[Kind::Id, Kind::Res, Kind::Many(&Kind::Two(&Kind::Id,&Kind::Id))] },
    OpDef { num: 246, name: "OpLoopMerge", kinds: &[Kind::Id, Kind::Id, Kind::Mask(2)] },
    OpDef { num: 247, name: "OpSelectionMerge", kinds: &[Kind::Id, Kind::Mask(3)] },
    OpDef { num: 248, name: "OpLabel", kinds: &[Kind::Res] },
    OpDef { num: 249, name: "OpBranch", kinds: &[Kind::Id] },
    OpDef { num: 250, name: "OpBranchConditional", kinds: &[Kind::Id, Kind::Id, Kind::Id, Kind::Opt(&Kind::Two(&Kind::Num,&Kind::Num))] },
    OpDef { num: 253, name: "OpReturn", kinds: &[] },
    OpDef { num: -2, name: "OpLine", kinds: &[Kind::Id, Kind::Num, Kind::Num] },
    OpDef { num: -2, name: "OpNoLine", kinds: &[] },
    OpDef { num: -2, name: "OpDecorationGroup", kinds: &[Kind::Res] },
    OpDef { num: -2, name: "OpGroupDecorate", kinds: &[Kind::Id, Kind::Many(&Kind::Id)] },
    OpDef { num: -2, name: "OpTypeReserveId", kinds: &[Kind::Res] },
    OpDef { num: -2, name: "OpConstantTrue", kinds: &[Kind::Id, Kind::Res] },
    OpDef { num: -2, name: "OpConstantFalse", kinds: &[Kind::Id, Kind::Res] },
    OpDef { num: -2, name: "OpConstantSampler", kinds: &[Kind::Id, Kind::Res, Kind::En(20), Kind::En(21), Kind::En(22)] },
    OpDef { num: -2, name: "OpConstantNull", kinds: &[Kind::Id, Kind::Res] },
    OpDef { num: -2, name: "OpSpecConstantTrue", kinds: &[Kind::Id, Kind::Res] },
    OpDef { num: -2, name: "OpSpecConstantFalse", kinds: &[Kind::Id, Kind::Res] },
    OpDef { num: -2, name: "OpSpecConstant", kinds: &[Kind::Id, Kind::Res, Kind::Many(&Kind::Num)] },
    OpDef { num: -2, name: "OpSpecConstantComposite", kinds: &[Kind::Id, Kind::Res, Kind::Many(&Kind::Id)] },
    OpDef { num: -2, name: "OpImageTexelPointer", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpCopyMemory", kinds: &[Kind::Id, Kind::Id, Kind::Opt(&Kind::Mask(1))] },
    OpDef { num: -2, name: "OpCopyMemorySized", kinds: &[Kind::Id, Kind::Id, Kind::Id, Kind::Opt(&Kind::Mask(1))] },
    OpDef { num: -2, name: "OpInBoundsAccessChain", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Many(&Kind::Id)] },
    OpDef { num: -2, name: "OpPtrAccessChain", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id, Kind::Many(&Kind::Id)] },
    OpDef { num: -2, name: "OpArrayLength", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Num] },
    OpDef { num: -2, name: "OpGenericPtrMemSemantics", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpInBoundsPtrAccessChain", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id, Kind::Many(&Kind::Id)] },
    OpDef { num: -2, name: "OpFunctionCall", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Many(&Kind::Id)] },
    OpDef { num: -2, name: "OpSampledImage", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpConvertFToU", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpConvertFToS", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpConvertSToF", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpUConvert", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpSConvert", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpFConvert", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpQuantizeToF16", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpConvertPtrToU", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpSatConvertSToU", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpSatConvertUToS", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpConvertUToPtr", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpPtrCastToGeneric", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpGenericCastToPtr", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpGenericCastToPtrExplicit", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::En(10)] },
    OpDef { num: -2, name: "OpVectorExtractDynamic", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpVectorInsertDynamic", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpVectorShuffle", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id, Kind::Many(&Kind::Num)] },
    OpDef { num: -2, name: "OpCompositeConstruct", kinds: &[Kind::Id, Kind::Res, Kind::Many(&Kind::Num)] },
    OpDef { num: -2, name: "OpCompositeExtract", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Many(&Kind::Num)] },
    OpDef { num: -2, name: "OpCompositeInsert", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id, Kind::Many(&Kind::Num)] },
    OpDef { num: -2, name: "OpCopyObject", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpTranspose", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpSNegate", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpFNegate", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
    OpDef { num: -2, name: "OpVectorTimesScalar", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpMatrixTimesScalar", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpVectorTimesMatrix", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpMatrixTimesVector", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpMatrixTimesMatrix", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpOuterProduct", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpDot", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpShiftRightLogical", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpShiftRightArithmetic", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpShiftLeftLogical", kinds: &[Kind::Id, Kind::Res, Kind::Id, Kind::Id] },
    OpDef { num: -2, name: "OpNot", kinds: &[Kind::Id, Kind::Res, Kind::Id] },
];
pub const N_CORE: usize = 98;
pub fn lift_core(c: &Core) -> Inst {
    let mut v: Vec<Arg> = Vec::new();
    let o = match *c {
        Core::OpNop(ref x) => {  0 }
        Core::OpUndef(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); 1 }
        Core::OpSourceContinued(ref x) => { Operand::lift(&x.continued_source, &mut v); 2 }
        Core::OpSource(ref x) => { Operand::lift(&x.language, &mut v); Operand::lift(&x.version, &mut v); Operand::lift(&x.file, &mut v); Operand::lift(&x.source, &mut v); 3 }
        Core::OpSourceExtension(ref x) => { Operand::lift(&x.extension, &mut v); 4 }
        Core::OpName(ref x) => { Operand::lift(&x.target, &mut v); Operand::lift(&x.name, &mut v); 5 }
        Core::OpMemberName(ref x) => { Operand::lift(&x.struct_type, &mut v); Operand::lift(&x.member, &mut v); Operand::lift(&x.name, &mut v); 6 }
        Core::OpString(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.string, &mut v); 7 }
        Core::OpExtension(ref x) => { Operand::lift(&x.name, &mut v); 8 }
        Core::OpExtInstImport(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.name, &mut v); 9 }
        Core::OpExtInst(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.set, &mut v); Operand::lift(&x.instruction, &mut v); 10 }
        Core::OpMemoryModel(ref x) => { Operand::lift(&x.addressing_model, &mut v); Operand::lift(&x.memory_model, &mut v); 11 }
        Core::OpEntryPoint(ref x) => { Operand::lift(&x.execution_model, &mut v); Operand::lift(&x.entry_point, &mut v); Operand::lift(&x.name, &mut v); Operand::lift(&x.interface, &mut v); 12 }
        Core::OpExecutionMode(ref x) => { Operand::lift(&x.entry_point, &mut v); Operand::lift(&x.mode, &mut v); 13 }
        Core::OpCapability(ref x) => { Operand::lift(&x.capability, &mut v); 14 }
        Core::OpTypeVoid(ref x) => { Operand::lift(&x.result_id, &mut v); 15 }
        Core::OpTypeBool(ref x) => { Operand::lift(&x.result_id, &mut v); 16 }
        Core::OpTypeInt(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.width, &mut v); Operand::lift(&x.signedness, &mut v); 17 }
        Core::OpTypeFloat(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.width, &mut v); 18 }
        Core::OpTypeVector(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.component_type, &mut v); Operand::lift(&x.component_count, &mut v); 19 }
        Core::OpTypeMatrix(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.column_type, &mut v); Operand::lift(&x.column_count, &mut v); 20 }
        Core::OpTypeImage(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.sampled_type, &mut v); Operand::lift(&x.dim, &mut v); Operand::lift(&x.depth, &mut v); Operand::lift(&x.arrayed, &mut v); Operand::lift(&x.ms, &mut v); Operand::lift(&x.sampled, &mut v); Operand::lift(&x.format, &mut v); Operand::lift(&x.access_qualifier, &mut v); 21 }
        Core::OpTypeSampler(ref x) => { Operand::lift(&x.result_id, &mut v); 22 }
        Core::OpTypeSampledImage(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.image_type, &mut v); 23 }
        Core::OpTypeArray(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.element_type, &mut v); Operand::lift(&x.length, &mut v); 24 }
        Core::OpTypeRuntimeArray(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.element_type, &mut v); 25 }
        Core::OpTypeStruct(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.member_types, &mut v); 26 }
        Core::OpTypeOpaque(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.name, &mut v); 27 }
        Core::OpTypePointer(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.storage_class, &mut v); Operand::lift(&x.pointed_type, &mut v); 28 }
        Core::OpTypeFunction(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.return_type, &mut v); Operand::lift(&x.parameter_types, &mut v); 29 }
        Core::OpTypeEvent(ref x) => { Operand::lift(&x.result_id, &mut v); 30 }
        Core::OpTypeDeviceEvent(ref x) => { Operand::lift(&x.result_id, &mut v); 31 }
        Core::OpTypeQueue(ref x) => { Operand::lift(&x.result_id, &mut v); 32 }
        Core::OpTypePipe(ref x) => { Operand::lift(&x.result_id, &mut v); Operand::lift(&x.access_qualifier, &mut v); 33 }
        Core::OpTypeForwardPointer(ref x) => { Operand::lift(&x.pointer_type, &mut v); Operand::lift(&x.storage_class, &mut v); 34 }
        Core::OpConstant(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.value, &mut v); 35 }
        Core::OpConstantComposite(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.constituents, &mut v); 36 }
        Core::OpFunction(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.function_control, &mut v); Operand::lift(&x.function_type, &mut v); 37 }
        Core::OpFunctionParameter(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); 38 }
        Core::OpFunctionEnd(ref x) => {  39 }
        Core::OpVariable(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.storage_class, &mut v); Operand::lift(&x.initializer, &mut v); 40 }
        Core::OpLoad(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.pointer, &mut v); Operand::lift(&x.memory_access, &mut v); 41 }
        Core::OpStore(ref x) => { Operand::lift(&x.pointer, &mut v); Operand::lift(&x.object, &mut v); Operand::lift(&x.memory_access, &mut v); 42 }
        Core::OpAccessChain(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.base, &mut v); Operand::lift(&x.indexes, &mut v); 43 }
        Core::OpDecorate(ref x) => { Operand::lift(&x.target, &mut v); Operand::lift(&x.decoration, &mut v); 44 }
        Core::OpMemberDecorate(ref x) => { Operand::lift(&x.structure_type, &mut v); Operand::lift(&x.member, &mut v); Operand::lift(&x.decoration, &mut v); 45 }
        Core::OpConvertUToF(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.unsigned_value, &mut v); 46 }
        Core::OpBitcast(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand, &mut v); 47 }
        Core::OpIAdd(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 48 }
        Core::OpFAdd(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 49 }
        Core::OpISub(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 50 }
        Core::OpFSub(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 51 }
        Core::OpIMul(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 52 }
        Core::OpFMul(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 53 }
        Core::OpUDiv(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 54 }
        Core::OpSDiv(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 55 }
        Core::OpFDiv(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 56 }
        Core::OpUMod(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 57 }
        Core::OpSRem(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 58 }
        Core::OpSMod(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 59 }
        Core::OpFRem(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 60 }
        Core::OpFMod(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 61 }
        Core::OpIAddCarry(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 62 }
        Core::OpISubBorrow(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 63 }
        Core::OpUMulExtended(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 64 }
        Core::OpSMulExtended(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 65 }
        Core::OpBitwiseOr(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 66 }
        Core::OpBitwiseXor(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 67 }
        Core::OpBitwiseAnd(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 68 }
        Core::OpIEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 69 }
        Core::OpINotEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 70 }
        Core::OpUGreaterThan(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 71 }
        Core::OpSGreaterThan(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 72 }
        Core::OpUGreaterThanEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 73 }
        Core::OpSGreaterThanEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 74 }
        Core::OpULessThan(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 75 }
        Core::OpSLessThan(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 76 }
        Core::OpULessThanEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 77 }
        Core::OpSLessThanEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 78 }
        Core::OpFOrdEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 79 }
        Core::OpFUnordEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 80 }
        Core::OpFOrdNotEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 81 }
        Core::OpFUnordNotEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 82 }
        Core::OpFOrdLessThan(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 83 }
        Core::OpFUnordLessThan(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 84 }
        Core::OpFOrdGreaterThan(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 85 }
        Core::OpFUnordGreaterThan(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 86 }
        Core::OpFOrdLessThanEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 87 }
        Core::OpFUnordLessThanEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 88 }
        Core::OpFOrdGreaterThanEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 89 }
        Core::OpFUnordGreaterThanEqual(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.operand1, &mut v); Operand::lift(&x.operand2, &mut v); 90 }
        Core::OpPhi(ref x) => { Operand::lift(&x.result_type, &mut v); Operand::lift(&x.result_id, &mut v); Operand::lift(&x.variables, &mut v); 91 }
        Core::OpLoopMerge(ref x) => { Operand::lift(&x.merge_block, &mut v); Operand::lift(&x.continue_target, &mut v); Operand::lift(&x.loop_control, &mut v); 92 }
        Core::OpSelectionMerge(ref x) => { Operand::lift(&x.merge_block, &mut v); Operand::lift(&x.selection_control, &mut v); 93 }
        Core::OpLabel(ref x) => { Operand::lift(&x.result_id, &mut v); 94 }
        Core::OpBranch(ref x) => { Operand::lift(&x.target_label, &mut v); 95 }
        Core::OpBranchConditional(ref x) => { Operand::lift(&x.condition, &mut v); Operand::lift(&x.true_label, &mut v); Operand::lift(&x.false_label, &mut v); Operand::lift(&x.weights, &mut v); 96 }
        Core::OpReturn(ref x) => {  97 }
        _ => usize::MAX,
    };
    Inst { op: o, args: v }
}
pub fn build_core(i: &Inst) -> Core {
    let mut a = Args::new(&i.args);
    let a = &mut a;
    match i.op {
        0 => Core::OpNop(OpNop),
        1 => Core::OpUndef(OpUndef { result_type: Operand::build(a), result_id: Operand::build(a) }),
        2 => Core::OpSourceContinued(OpSourceContinued { continued_source: Operand::build(a) }),
        3 => Core::OpSource(OpSource { language: Operand::build(a), version: Operand::build(a), file: Operand::build(a), source: Operand::build(a) }),
        4 => Core::OpSourceExtension(OpSourceExtension { extension: Operand::build(a) }),
        5 => Core::OpName(OpName { target: Operand::build(a), name: Operand::build(a) }),
        6 => Core::OpMemberName(OpMemberName { struct_type: Operand::build(a), member: Operand::build(a), name: Operand::build(a) }),
        7 => Core::OpString(OpString { result_id: Operand::build(a), string: Operand::build(a) }),
        8 => Core::OpExtension(OpExtension { name: Operand::build(a) }),
        9 => Core::OpExtInstImport(OpExtInstImport { result_id: Operand::build(a), name: Operand::build(a) }),
        10 => crate::ext::build_ext_inst(a),
        11 => Core::OpMemoryModel(OpMemoryModel { addressing_model: Operand::build(a), memory_model: Operand::build(a) }),
        12 => Core::OpEntryPoint(OpEntryPoint { execution_model: Operand::build(a), entry_point: Operand::build(a), name: Operand::build(a), interface: Operand::build(a) }),
        13 => Core::OpExecutionMode(OpExecutionMode { entry_point: Operand::build(a), mode: Operand::build(a) }),
        14 => Core::OpCapability(OpCapability { capability: Operand::build(a) }),
        15 => Core::OpTypeVoid(OpTypeVoid { result_id: Operand::build(a) }),
        16 => Core::OpTypeBool(OpTypeBool { result_id: Operand::build(a) }),
        17 => Core::OpTypeInt(OpTypeInt { result_id: Operand::build(a), width: Operand::build(a), signedness: Operand::build(a) }),
        18 => Core::OpTypeFloat(OpTypeFloat { result_id: Operand::build(a), width: Operand::build(a) }),
        19 => Core::OpTypeVector(OpTypeVector { result_id: Operand::build(a), component_type: Operand::build(a), component_count: Operand::build(a) }),
        20 => Core::OpTypeMatrix(OpTypeMatrix { result_id: Operand::build(a), column_type: Operand::build(a), column_count: Operand::build(a) }),
        21 => Core::OpTypeImage(OpTypeImage { result_id: Operand::build(a), sampled_type: Operand::build(a), dim: Operand::build(a), depth: Operand::build(a), arrayed: Operand::build(a), ms: Operand::build(a), sampled: Operand::build(a), format: Operand::build(a), access_qualifier: Operand::build(a) }),
        22 => Core::OpTypeSampler(OpTypeSampler { result_id: Operand::build(a) }),
        23 => Core::OpTypeSampledImage(OpTypeSampledImage { result_id: Operand::build(a), image_type: Operand::build(a) }),
        24 => Core::OpTypeArray(OpTypeArray { result_id: Operand::build(a), element_type: Operand::build(a), length: Operand::build(a) }),
        25 => Core::OpTypeRuntimeArray(OpTypeRuntimeArray { result_id: Operand::build(a), element_type: Operand::build(a) }),
        26 => Core::OpTypeStruct(OpTypeStruct { result_id: Operand::build(a), member_types: Operand::build(a) }),
        27 => Core::OpTypeOpaque(OpTypeOpaque { result_id: Operand::build(a), name: Operand::build(a) }),
        28 => Core::OpTypePointer(OpTypePointer { result_id: Operand::build(a), storage_class: Operand::build(a), pointed_type: Operand::build(a) }),
        29 => Core::OpTypeFunction(OpTypeFunction { result_id: Operand::build(a), return_type: Operand::build(a), parameter_types: Operand::build(a) }),
        30 => Core::OpTypeEvent(OpTypeEvent { result_id: Operand::build(a) }),
        31 => Core::OpTypeDeviceEvent(OpTypeDeviceEvent { result_id: Operand::build(a) }),
        32 => Core::OpTypeQueue(OpTypeQueue { result_id: Operand::build(a) }),
        33 => Core::OpTypePipe(OpTypePipe { result_id: Operand::build(a), access_qualifier: Operand::build(a) }),
        34 => Core::OpTypeForwardPointer(OpTypeForwardPointer { pointer_type: Operand::build(a), storage_class: Operand::build(a) }),
        35 => Core::OpConstant(OpConstant { result_type: Operand::build(a), result_id: Operand::build(a), value: Operand::build(a) }),
        36 => Core::OpConstantComposite(OpConstantComposite { result_type: Operand::build(a), result_id: Operand::build(a), constituents: Operand::build(a) }),
        37 => Core::OpFunction(OpFunction { result_type: Operand::build(a), result_id: Operand::build(a), function_control: Operand::build(a), function_type: Operand::build(a) }),
        38 => Core::OpFunctionParameter(OpFunctionParameter { result_type: Operand::build(a), result_id: Operand::build(a) }),
        39 => Core::OpFunctionEnd(OpFunctionEnd),
        40 => Core::OpVariable(OpVariable { result_type: Operand::build(a), result_id: Operand::build(a), storage_class: Operand::build(a), initializer: Operand::build(a) }),
        41 => Core::OpLoad(OpLoad { result_type: Operand::build(a), result_id: Operand::build(a), pointer: Operand::build(a), memory_access: Operand::build(a) }),
        42 => Core::OpStore(OpStore { pointer: Operand::build(a), object: Operand::build(a), memory_access: Operand::build(a) }),
        43 => Core::OpAccessChain(OpAccessChain { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), indexes: Operand::build(a) }),
        44 => Core::OpDecorate(OpDecorate { target: Operand::build(a), decoration: Operand::build(a) }),
        45 => Core::OpMemberDecorate(OpMemberDecorate { structure_type: Operand::build(a), member: Operand::build(a), decoration: Operand::build(a) }),
        46 => Core::OpConvertUToF(OpConvertUToF { result_type: Operand::build(a), result_id: Operand::build(a), unsigned_value: Operand::build(a) }),
        47 => Core::OpBitcast(OpBitcast { result_type: Operand::build(a), result_id: Operand::build(a), operand: Operand::build(a) }),
        48 => Core::OpIAdd(OpIAdd { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        49 => Core::OpFAdd(OpFAdd { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        50 => Core::OpISub(OpISub { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        51 => Core::OpFSub(OpFSub { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        52 => Core::OpIMul(OpIMul { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        53 => Core::OpFMul(OpFMul { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        54 => Core::OpUDiv(OpUDiv { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        55 => Core::OpSDiv(OpSDiv { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        56 => Core::OpFDiv(OpFDiv { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        57 => Core::OpUMod(OpUMod { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        58 => Core::OpSRem(OpSRem { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        59 => Core::OpSMod(OpSMod { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        60 => Core::OpFRem(OpFRem { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        61 => Core::OpFMod(OpFMod { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        62 => Core::OpIAddCarry(OpIAddCarry { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        63 => Core::OpISubBorrow(OpISubBorrow { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        64 => Core::OpUMulExtended(OpUMulExtended { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        65 => Core::OpSMulExtended(OpSMulExtended { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        66 => Core::OpBitwiseOr(OpBitwiseOr { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        67 => Core::OpBitwiseXor(OpBitwiseXor { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        68 => Core::OpBitwiseAnd(OpBitwiseAnd { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        69 => Core::OpIEqual(OpIEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        70 => Core::OpINotEqual(OpINotEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        71 => Core::OpUGreaterThan(OpUGreaterThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        72 => Core::OpSGreaterThan(OpSGreaterThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        73 => Core::OpUGreaterThanEqual(OpUGreaterThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        74 => Core::OpSGreaterThanEqual(OpSGreaterThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        75 => Core::OpULessThan(OpULessThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        76 => Core::OpSLessThan(OpSLessThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        77 => Core::OpULessThanEqual(OpULessThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        78 => Core::OpSLessThanEqual(OpSLessThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        79 => Core::OpFOrdEqual(OpFOrdEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        80 => Core::OpFUnordEqual(OpFUnordEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        81 => Core::OpFOrdNotEqual(OpFOrdNotEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        82 => Core::OpFUnordNotEqual(OpFUnordNotEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        83 => Core::OpFOrdLessThan(OpFOrdLessThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        84 => Core::OpFUnordLessThan(OpFUnordLessThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        85 => Core::OpFOrdGreaterThan(OpFOrdGreaterThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        86 => Core::OpFUnordGreaterThan(OpFUnordGreaterThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        87 => Core::OpFOrdLessThanEqual(OpFOrdLessThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        88 => Core::OpFUnordLessThanEqual(OpFUnordLessThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        89 => Core::OpFOrdGreaterThanEqual(OpFOrdGreaterThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        90 => Core::OpFUnordGreaterThanEqual(OpFUnordGreaterThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }),
        91 => Core::OpPhi(OpPhi { result_type: Operand::build(a), result_id: Operand::build(a), variables: Operand::build(a) }),
        92 => Core::OpLoopMerge(OpLoopMerge { merge_block: Operand::build(a), continue_target: Operand::build(a), loop_control: Operand::build(a) }),
        93 => Core::OpSelectionMerge(OpSelectionMerge { merge_block: Operand::build(a), selection_control: Operand::build(a) }),
        94 => Core::OpLabel(OpLabel { result_id: Operand::build(a) }),
        95 => Core::OpBranch(OpBranch { target_label: Operand::build(a) }),
        96 => Core::OpBranchConditional(OpBranchConditional { condition: Operand::build(a), true_label: Operand::build(a), false_label: Operand::build(a), weights: Operand::build(a) }),
        97 => Core::OpReturn(OpReturn),
        _ => panic!("harness: not a core op"),
    }
}
/// Text, clone text, self equality of a public instruction struct outside Core
pub fn print_any(i: &Inst) -> (String, String, bool) {
    let mut a = Args::new(&i.args);
    let a = &mut a;
    match i.op {
        0 => { let x = OpNop; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        1 => { let x = OpUndef { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        2 => { let x = OpSourceContinued { continued_source: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        3 => { let x = OpSource { language: Operand::build(a), version: Operand::build(a), file: Operand::build(a), source: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        4 => { let x = OpSourceExtension { extension: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        5 => { let x = OpName { target: Operand::build(a), name: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        6 => { let x = OpMemberName { struct_type: Operand::build(a), member: Operand::build(a), name: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        7 => { let x = OpString { result_id: Operand::build(a), string: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        8 => { let x = OpExtension { name: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        9 => { let x = OpExtInstImport { result_id: Operand::build(a), name: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        11 => { let x = OpMemoryModel { addressing_model: Operand::build(a), memory_model: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        12 => { let x = OpEntryPoint { execution_model: Operand::build(a), entry_point: Operand::build(a), name: Operand::build(a), interface: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        13 => { let x = OpExecutionMode { entry_point: Operand::build(a), mode: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        14 => { let x = OpCapability { capability: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        15 => { let x = OpTypeVoid { result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        16 => { let x = OpTypeBool { result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        17 => { let x = OpTypeInt { result_id: Operand::build(a), width: Operand::build(a), signedness: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        18 => { let x = OpTypeFloat { result_id: Operand::build(a), width: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        19 => { let x = OpTypeVector { result_id: Operand::build(a), component_type: Operand::build(a), component_count: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        20 => { let x = OpTypeMatrix { result_id: Operand::build(a), column_type: Operand::build(a), column_count: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        21 => { let x = OpTypeImage { result_id: Operand::build(a), sampled_type: Operand::build(a), dim: Operand::build(a), depth: Operand::build(a), arrayed: Operand::build(a), ms: Operand::build(a), sampled: Operand::build(a), format: Operand::build(a), access_qualifier: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        22 => { let x = OpTypeSampler { result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        23 => { let x = OpTypeSampledImage { result_id: Operand::build(a), image_type: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        24 => { let x = OpTypeArray { result_id: Operand::build(a), element_type: Operand::build(a), length: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        25 => { let x = OpTypeRuntimeArray { result_id: Operand::build(a), element_type: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        26 => { let x = OpTypeStruct { result_id: Operand::build(a), member_types: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        27 => { let x = OpTypeOpaque { result_id: Operand::build(a), name: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        28 => { let x = OpTypePointer { result_id: Operand::build(a), storage_class: Operand::build(a), pointed_type: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        29 => { let x = OpTypeFunction { result_id: Operand::build(a), return_type: Operand::build(a), parameter_types: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        30 => { let x = OpTypeEvent { result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        31 => { let x = OpTypeDeviceEvent { result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        32 => { let x = OpTypeQueue { result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        33 => { let x = OpTypePipe { result_id: Operand::build(a), access_qualifier: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        34 => { let x = OpTypeForwardPointer { pointer_type: Operand::build(a), storage_class: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        35 => { let x = OpConstant { result_type: Operand::build(a), result_id: Operand::build(a), value: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        36 => { let x = OpConstantComposite { result_type: Operand::build(a), result_id: Operand::build(a), constituents: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        37 => { let x = OpFunction { result_type: Operand::build(a), result_id: Operand::build(a), function_control: Operand::build(a), function_type: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        38 => { let x = OpFunctionParameter { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        39 => { let x = OpFunctionEnd; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        40 => { let x = OpVariable { result_type: Operand::build(a), result_id: Operand::build(a), storage_class: Operand::build(a), initializer: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        41 => { let x = OpLoad { result_type: Operand::build(a), result_id: Operand::build(a), pointer: Operand::build(a), memory_access: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        42 => { let x = OpStore { pointer: Operand::build(a), object: Operand::build(a), memory_access: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        43 => { let x = OpAccessChain { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), indexes: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        44 => { let x = OpDecorate { target: Operand::build(a), decoration: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        45 => { let x = OpMemberDecorate { structure_type: Operand::build(a), member: Operand::build(a), decoration: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        46 => { let x = OpConvertUToF { result_type: Operand::build(a), result_id: Operand::build(a), unsigned_value: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        47 => { let x = OpBitcast { result_type: Operand::build(a), result_id: Operand::build(a), operand: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        48 => { let x = OpIAdd { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        49 => { let x = OpFAdd { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        50 => { let x = OpISub { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        51 => { let x = OpFSub { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        52 => { let x = OpIMul { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        53 => { let x = OpFMul { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        54 => { let x = OpUDiv { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        55 => { let x = OpSDiv { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        56 => { let x = OpFDiv { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        57 => { let x = OpUMod { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        58 => { let x = OpSRem { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        59 => { let x = OpSMod { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        60 => { let x = OpFRem { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        61 => { let x = OpFMod { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        62 => { let x = OpIAddCarry { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        63 => { let x = OpISubBorrow { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        64 => { let x = OpUMulExtended { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        65 => { let x = OpSMulExtended { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        66 => { let x = OpBitwiseOr { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        67 => { let x = OpBitwiseXor { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        68 => { let x = OpBitwiseAnd { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        69 => { let x = OpIEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        70 => { let x = OpINotEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        71 => { let x = OpUGreaterThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        72 => { let x = OpSGreaterThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        73 => { let x = OpUGreaterThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        74 => { let x = OpSGreaterThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        75 => { let x = OpULessThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        76 => { let x = OpSLessThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        77 => { let x = OpULessThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        78 => { let x = OpSLessThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        79 => { let x = OpFOrdEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        80 => { let x = OpFUnordEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        81 => { let x = OpFOrdNotEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        82 => { let x = OpFUnordNotEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        83 => { let x = OpFOrdLessThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        84 => { let x = OpFUnordLessThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        85 => { let x = OpFOrdGreaterThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        86 => { let x = OpFUnordGreaterThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        87 => { let x = OpFOrdLessThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        88 => { let x = OpFUnordLessThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        89 => { let x = OpFOrdGreaterThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        90 => { let x = OpFUnordGreaterThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        91 => { let x = OpPhi { result_type: Operand::build(a), result_id: Operand::build(a), variables: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        92 => { let x = OpLoopMerge { merge_block: Operand::build(a), continue_target: Operand::build(a), loop_control: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        93 => { let x = OpSelectionMerge { merge_block: Operand::build(a), selection_control: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        94 => { let x = OpLabel { result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        95 => { let x = OpBranch { target_label: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        96 => { let x = OpBranchConditional { condition: Operand::build(a), true_label: Operand::build(a), false_label: Operand::build(a), weights: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        97 => { let x = OpReturn; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        98 => { let x = OpLine { file: Operand::build(a), line: Operand::build(a), column: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        99 => { let x = OpNoLine; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        100 => { let x = OpDecorationGroup { result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        101 => { let x = OpGroupDecorate { decoration_group: Operand::build(a), targets: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        102 => { let x = OpTypeReserveId { result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        103 => { let x = OpConstantTrue { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        104 => { let x = OpConstantFalse { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        105 => { let x = OpConstantSampler { result_type: Operand::build(a), result_id: Operand::build(a), addressing_mode: Operand::build(a), param: Operand::build(a), filter_mode: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        106 => { let x = OpConstantNull { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        107 => { let x = OpSpecConstantTrue { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        108 => { let x = OpSpecConstantFalse { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        109 => { let x = OpSpecConstant { result_type: Operand::build(a), result_id: Operand::build(a), value: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        110 => { let x = OpSpecConstantComposite { result_type: Operand::build(a), result_id: Operand::build(a), constituents: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        111 => { let x = OpImageTexelPointer { result_type: Operand::build(a), result_id: Operand::build(a), image: Operand::build(a), coordinate: Operand::build(a), sample: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        112 => { let x = OpCopyMemory { target: Operand::build(a), source: Operand::build(a), memory_access: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        113 => { let x = OpCopyMemorySized { target: Operand::build(a), source: Operand::build(a), size: Operand::build(a), memory_access: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        114 => { let x = OpInBoundsAccessChain { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), indexes: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        115 => { let x = OpPtrAccessChain { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), element: Operand::build(a), indexes: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        116 => { let x = OpArrayLength { result_type: Operand::build(a), result_id: Operand::build(a), structure: Operand::build(a), array_member: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        117 => { let x = OpGenericPtrMemSemantics { result_type: Operand::build(a), result_id: Operand::build(a), pointer: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        118 => { let x = OpInBoundsPtrAccessChain { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), element: Operand::build(a), indexes: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        119 => { let x = OpFunctionCall { result_type: Operand::build(a), result_id: Operand::build(a), function: Operand::build(a), arguments: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        120 => { let x = OpSampledImage { result_type: Operand::build(a), result_id: Operand::build(a), image: Operand::build(a), sampler: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        121 => { let x = OpConvertFToU { result_type: Operand::build(a), result_id: Operand::build(a), float_value: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        122 => { let x = OpConvertFToS { result_type: Operand::build(a), result_id: Operand::build(a), float_value: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        123 => { let x = OpConvertSToF { result_type: Operand::build(a), result_id: Operand::build(a), signed_value: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        124 => { let x = OpUConvert { result_type: Operand::build(a), result_id: Operand::build(a), unsigned_value: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        125 => { let x = OpSConvert { result_type: Operand::build(a), result_id: Operand::build(a), signed_value: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        126 => { let x = OpFConvert { result_type: Operand::build(a), result_id: Operand::build(a), float_value: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        127 => { let x = OpQuantizeToF16 { result_type: Operand::build(a), result_id: Operand::build(a), value: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        128 => { let x = OpConvertPtrToU { result_type: Operand::build(a), result_id: Operand::build(a), pointer: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        129 => { let x = OpSatConvertSToU { result_type: Operand::build(a), result_id: Operand::build(a), signed_value: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        130 => { let x = OpSatConvertUToS { result_type: Operand::build(a), result_id: Operand::build(a), unsigned_value: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        131 => { let x = OpConvertUToPtr { result_type: Operand::build(a), result_id: Operand::build(a), integer_value: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        132 => { let x = OpPtrCastToGeneric { result_type: Operand::build(a), result_id: Operand::build(a), pointer: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        133 => { let x = OpGenericCastToPtr { result_type: Operand::build(a), result_id: Operand::build(a), pointer: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        134 => { let x = OpGenericCastToPtrExplicit { result_type: Operand::build(a), result_id: Operand::build(a), pointer: Operand::build(a), storage_class: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        135 => { let x = OpVectorExtractDynamic { result_type: Operand::build(a), result_id: Operand::build(a), vector: Operand::build(a), index: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        136 => { let x = OpVectorInsertDynamic { result_type: Operand::build(a), result_id: Operand::build(a), vector: Operand::build(a), component: Operand::build(a), index: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        137 => { let x = OpVectorShuffle { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a), components: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        138 => { let x = OpCompositeConstruct { result_type: Operand::build(a), result_id: Operand::build(a), constituents: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        139 => { let x = OpCompositeExtract { result_type: Operand::build(a), result_id: Operand::build(a), composite: Operand::build(a), indexes: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        140 => { let x = OpCompositeInsert { result_type: Operand::build(a), result_id: Operand::build(a), object: Operand::build(a), composite: Operand::build(a), indexes: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        141 => { let x = OpCopyObject { result_type: Operand::build(a), result_id: Operand::build(a), operand: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        142 => { let x = OpTranspose { result_type: Operand::build(a), result_id: Operand::build(a), matrix: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        143 => { let x = OpSNegate { result_type: Operand::build(a), result_id: Operand::build(a), operand: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        144 => { let x = OpFNegate { result_type: Operand::build(a), result_id: Operand::build(a), operand: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        145 => { let x = OpVectorTimesScalar { result_type: Operand::build(a), result_id: Operand::build(a), vector: Operand::build(a), scalar: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        146 => { let x = OpMatrixTimesScalar { result_type: Operand::build(a), result_id: Operand::build(a), matrix: Operand::build(a), scalar: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        147 => { let x = OpVectorTimesMatrix { result_type: Operand::build(a), result_id: Operand::build(a), vector: Operand::build(a), matrix: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        148 => { let x = OpMatrixTimesVector { result_type: Operand::build(a), result_id: Operand::build(a), matrix: Operand::build(a), vector: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        149 => { let x = OpMatrixTimesMatrix { result_type: Operand::build(a), result_id: Operand::build(a), left_matrix: Operand::build(a), right_matrix: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        150 => { let x = OpOuterProduct { result_type: Operand::build(a), result_id: Operand::build(a), vector1: Operand::build(a), vector2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        151 => { let x = OpDot { result_type: Operand::build(a), result_id: Operand::build(a), vector1: Operand::build(a), vector2: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        152 => { let x = OpShiftRightLogical { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), shift: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        153 => { let x = OpShiftRightArithmetic { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), shift: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        154 => { let x = OpShiftLeftLogical { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), shift: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        155 => { let x = OpNot { result_type: Operand::build(a), result_id: Operand::build(a), operand: Operand::build(a) }; let y = x.clone(); (x.to_string(), y.to_string(), x == y) }
        _ => panic!("harness: op"),
    }
}
/// Are two instructions of one kind, outside Core, equal: both ways round
pub fn eq_any(i: &Inst, j: &Inst) -> (bool, bool) {
    let mut a = Args::new(&i.args);
    let a = &mut a;
    let mut b = Args::new(&j.args);
    let b = &mut b;
    match i.op {
        0 => { let x = OpNop; let y = OpNop; pair(x, y) }
        1 => { let x = OpUndef { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = OpUndef { result_type: Operand::build(b), result_id: Operand::build(b) }; pair(x, y) }
        2 => { let x = OpSourceContinued { continued_source: Operand::build(a) }; let y = OpSourceContinued { continued_source: Operand::build(b) }; pair(x, y) }
        3 => { let x = OpSource { language: Operand::build(a), version: Operand::build(a), file: Operand::build(a), source: Operand::build(a) }; let y = OpSource { language: Operand::build(b), version: Operand::build(b), file: Operand::build(b), source: Operand::build(b) }; pair(x, y) }
        4 => { let x = OpSourceExtension { extension: Operand::build(a) }; let y = OpSourceExtension { extension: Operand::build(b) }; pair(x, y) }
        5 => { let x = OpName { target: Operand::build(a), name: Operand::build(a) }; let y = OpName { target: Operand::build(b), name: Operand::build(b) }; pair(x, y) }
        6 => { let x = OpMemberName { struct_type: Operand::build(a), member: Operand::build(a), name: Operand::build(a) }; let y = OpMemberName { struct_type: Operand::build(b), member: Operand::build(b), name: Operand::build(b) }; pair(x, y) }
        7 => { let x = OpString { result_id: Operand::build(a), string: Operand::build(a) }; let y = OpString { result_id: Operand::build(b), string: Operand::build(b) }; pair(x, y) }
        8 => { let x = OpExtension { name: Operand::build(a) }; let y = OpExtension { name: Operand::build(b) }; pair(x, y) }
        9 => { let x = OpExtInstImport { result_id: Operand::build(a), name: Operand::build(a) }; let y = OpExtInstImport { result_id: Operand::build(b), name: Operand::build(b) }; pair(x, y) }
        11 => { let x = OpMemoryModel { addressing_model: Operand::build(a), memory_model: Operand::build(a) }; let y = OpMemoryModel { addressing_model: Operand::build(b), memory_model: Operand::build(b) }; pair(x, y) }
        12 => { let x = OpEntryPoint { execution_model: Operand::build(a), entry_point: Operand::build(a), name: Operand::build(a), interface: Operand::build(a) }; let y = OpEntryPoint { execution_model: Operand::build(b), entry_point: Operand::build(b), name: Operand::build(b), interface: Operand::build(b) }; pair(x, y) }
        13 => { let x = OpExecutionMode { entry_point: Operand::build(a), mode: Operand::build(a) }; let y = OpExecutionMode { entry_point: Operand::build(b), mode: Operand::build(b) }; pair(x, y) }
        14 => { let x = OpCapability { capability: Operand::build(a) }; let y = OpCapability { capability: Operand::build(b) }; pair(x, y) }
        15 => { let x = OpTypeVoid { result_id: Operand::build(a) }; let y = OpTypeVoid { result_id: Operand::build(b) }; pair(x, y) }
        16 => { let x = OpTypeBool { result_id: Operand::build(a) }; let y = OpTypeBool { result_id: Operand::build(b) }; pair(x, y) }
        17 => { let x = OpTypeInt { result_id: Operand::build(a), width: Operand::build(a), signedness: Operand::build(a) }; let y = OpTypeInt { result_id: Operand::build(b), width: Operand::build(b), signedness: Operand::build(b) }; pair(x, y) }
        18 => { let x = OpTypeFloat { result_id: Operand::build(a), width: Operand::build(a) }; let y = OpTypeFloat { result_id: Operand::build(b), width: Operand::build(b) }; pair(x, y) }
        19 => { let x = OpTypeVector { result_id: Operand::build(a), component_type: Operand::build(a), component_count: Operand::build(a) }; let y = OpTypeVector { result_id: Operand::build(b), component_type: Operand::build(b), component_count: Operand::build(b) }; pair(x, y) }
        20 => { let x = OpTypeMatrix { result_id: Operand::build(a), column_type: Operand::build(a), column_count: Operand::build(a) }; let y = OpTypeMatrix { result_id: Operand::build(b), column_type: Operand::build(b), column_count: Operand::build(b) }; pair(x, y) }
        21 => { let x = OpTypeImage { result_id: Operand::build(a), sampled_type: Operand::build(a), dim: Operand::build(a), depth: Operand::build(a), arrayed: Operand::build(a), ms: Operand::build(a), sampled: Operand::build(a), format: Operand::build(a), access_qualifier: Operand::build(a) }; let y = OpTypeImage { result_id: Operand::build(b), sampled_type: Operand::build(b), dim: Operand::build(b), depth: Operand::build(b), arrayed: Operand::build(b), ms: Operand::build(b), sampled: Operand::build(b), format: Operand::build(b), access_qualifier: Operand::build(b) }; pair(x, y) }
        22 => { let x = OpTypeSampler { result_id: Operand::build(a) }; let y = OpTypeSampler { result_id: Operand::build(b) }; pair(x, y) }
        23 => { let x = OpTypeSampledImage { result_id: Operand::build(a), image_type: Operand::build(a) }; let y = OpTypeSampledImage { result_id: Operand::build(b), image_type: Operand::build(b) }; pair(x, y) }
        24 => { let x = OpTypeArray { result_id: Operand::build(a), element_type: Operand::build(a), length: Operand::build(a) }; let y = OpTypeArray { result_id: Operand::build(b), element_type: Operand::build(b), length: Operand::build(b) }; pair(x, y) }
        25 => { let x = OpTypeRuntimeArray { result_id: Operand::build(a), element_type: Operand::build(a) }; let y = OpTypeRuntimeArray { result_id: Operand::build(b), element_type: Operand::build(b) }; pair(x, y) }
        26 => { let x = OpTypeStruct { result_id: Operand::build(a), member_types: Operand::build(a) }; let y = OpTypeStruct { result_id: Operand::build(b), member_types: Operand::build(b) }; pair(x, y) }
        27 => { let x = OpTypeOpaque { result_id: Operand::build(a), name: Operand::build(a) }; let y = OpTypeOpaque { result_id: Operand::build(b), name: Operand::build(b) }; pair(x, y) }
        28 => { let x = OpTypePointer { result_id: Operand::build(a), storage_class: Operand::build(a), pointed_type: Operand::build(a) }; let y = OpTypePointer { result_id: Operand::build(b), storage_class: Operand::build(b), pointed_type: Operand::build(b) }; pair(x, y) }
        29 => { let x = OpTypeFunction { result_id: Operand::build(a), return_type: Operand::build(a), parameter_types: Operand::build(a) }; let y = OpTypeFunction { result_id: Operand::build(b), return_type: Operand::build(b), parameter_types: Operand::build(b) }; pair(x, y) }
        30 => { let x = OpTypeEvent { result_id: Operand::build(a) }; let y = OpTypeEvent { result_id: Operand::build(b) }; pair(x, y) }
        31 => { let x = OpTypeDeviceEvent { result_id: Operand::build(a) }; let y = OpTypeDeviceEvent { result_id: Operand::build(b) }; pair(x, y) }
        32 => { let x = OpTypeQueue { result_id: Operand::build(a) }; let y = OpTypeQueue { result_id: Operand::build(b) }; pair(x, y) }
        33 => { let x = OpTypePipe { result_id: Operand::build(a), access_qualifier: Operand::build(a) }; let y = OpTypePipe { result_id: Operand::build(b), access_qualifier: Operand::build(b) }; pair(x, y) }
        34 => { let x = OpTypeForwardPointer { pointer_type: Operand::build(a), storage_class: Operand::build(a) }; let y = OpTypeForwardPointer { pointer_type: Operand::build(b), storage_class: Operand::build(b) }; pair(x, y) }
        35 => { let x = OpConstant { result_type: Operand::build(a), result_id: Operand::build(a), value: Operand::build(a) }; let y = OpConstant { result_type: Operand::build(b), result_id: Operand::build(b), value: Operand::build(b) }; pair(x, y) }
        36 => { let x = OpConstantComposite { result_type: Operand::build(a), result_id: Operand::build(a), constituents: Operand::build(a) }; let y = OpConstantComposite { result_type: Operand::build(b), result_id: Operand::build(b), constituents: Operand::build(b) }; pair(x, y) }
        37 => { let x = OpFunction { result_type: Operand::build(a), result_id: Operand::build(a), function_control: Operand::build(a), function_type: Operand::build(a) }; let y = OpFunction { result_type: Operand::build(b), result_id: Operand::build(b), function_control: Operand::build(b), function_type: Operand::build(b) }; pair(x, y) }
        38 => { let x = OpFunctionParameter { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = OpFunctionParameter { result_type: Operand::build(b), result_id: Operand::build(b) }; pair(x, y) }
        39 => { let x = OpFunctionEnd; let y = OpFunctionEnd; pair(x, y) }
        40 => { let x = OpVariable { result_type: Operand::build(a), result_id: Operand::build(a), storage_class: Operand::build(a), initializer: Operand::build(a) }; let y = OpVariable { result_type: Operand::build(b), result_id: Operand::build(b), storage_class: Operand::build(b), initializer: Operand::build(b) }; pair(x, y) }
        41 => { let x = OpLoad { result_type: Operand::build(a), result_id: Operand::build(a), pointer: Operand::build(a), memory_access: Operand::build(a) }; let y = OpLoad { result_type: Operand::build(b), result_id: Operand::build(b), pointer: Operand::build(b), memory_access: Operand::build(b) }; pair(x, y) }
        42 => { let x = OpStore { pointer: Operand::build(a), object: Operand::build(a), memory_access: Operand::build(a) }; let y = OpStore { pointer: Operand::build(b), object: Operand::build(b), memory_access: Operand::build(b) }; pair(x, y) }
        43 => { let x = OpAccessChain { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), indexes: Operand::build(a) }; let y = OpAccessChain { result_type: Operand::build(b), result_id: Operand::build(b), base: Operand::build(b), indexes: Operand::build(b) }; pair(x, y) }
        44 => { let x = OpDecorate { target: Operand::build(a), decoration: Operand::build(a) }; let y = OpDecorate { target: Operand::build(b), decoration: Operand::build(b) }; pair(x, y) }
        45 => { let x = OpMemberDecorate { structure_type: Operand::build(a), member: Operand::build(a), decoration: Operand::build(a) }; let y = OpMemberDecorate { structure_type: Operand::build(b), member: Operand::build(b), decoration: Operand::build(b) }; pair(x, y) }
        46 => { let x = OpConvertUToF { result_type: Operand::build(a), result_id: Operand::build(a), unsigned_value: Operand::build(a) }; let y = OpConvertUToF { result_type: Operand::build(b), result_id: Operand::build(b), unsigned_value: Operand::build(b) }; pair(x, y) }
        47 => { let x = OpBitcast { result_type: Operand::build(a), result_id: Operand::build(a), operand: Operand::build(a) }; let y = OpBitcast { result_type: Operand::build(b), result_id: Operand::build(b), operand: Operand::build(b) }; pair(x, y) }
        48 => { let x = OpIAdd { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpIAdd { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        49 => { let x = OpFAdd { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFAdd { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        50 => { let x = OpISub { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpISub { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        51 => { let x = OpFSub { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFSub { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        52 => { let x = OpIMul { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpIMul { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        53 => { let x = OpFMul { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFMul { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        54 => { let x = OpUDiv { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpUDiv { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        55 => { let x = OpSDiv { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpSDiv { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        56 => { let x = OpFDiv { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFDiv { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        57 => { let x = OpUMod { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpUMod { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        58 => { let x = OpSRem { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpSRem { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        59 => { let x = OpSMod { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpSMod { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        60 => { let x = OpFRem { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFRem { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        61 => { let x = OpFMod { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFMod { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        62 => { let x = OpIAddCarry { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpIAddCarry { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        63 => { let x = OpISubBorrow { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpISubBorrow { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        64 => { let x = OpUMulExtended { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpUMulExtended { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        65 => { let x = OpSMulExtended { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpSMulExtended { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        66 => { let x = OpBitwiseOr { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpBitwiseOr { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        67 => { let x = OpBitwiseXor { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpBitwiseXor { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        68 => { let x = OpBitwiseAnd { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpBitwiseAnd { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        69 => { let x = OpIEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpIEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        70 => { let x = OpINotEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpINotEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        71 => { let x = OpUGreaterThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpUGreaterThan { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        72 => { let x = OpSGreaterThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpSGreaterThan { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        73 => { let x = OpUGreaterThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpUGreaterThanEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        74 => { let x = OpSGreaterThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpSGreaterThanEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        75 => { let x = OpULessThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpULessThan { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        76 => { let x = OpSLessThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpSLessThan { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        77 => { let x = OpULessThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpULessThanEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        78 => { let x = OpSLessThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpSLessThanEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        79 => { let x = OpFOrdEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFOrdEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        80 => { let x = OpFUnordEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFUnordEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        81 => { let x = OpFOrdNotEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFOrdNotEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        82 => { let x = OpFUnordNotEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFUnordNotEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        83 => { let x = OpFOrdLessThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFOrdLessThan { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        84 => { let x = OpFUnordLessThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFUnordLessThan { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        85 => { let x = OpFOrdGreaterThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFOrdGreaterThan { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        86 => { let x = OpFUnordGreaterThan { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFUnordGreaterThan { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        87 => { let x = OpFOrdLessThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFOrdLessThanEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        88 => { let x = OpFUnordLessThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFUnordLessThanEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        89 => { let x = OpFOrdGreaterThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFOrdGreaterThanEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        90 => { let x = OpFUnordGreaterThanEqual { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a) }; let y = OpFUnordGreaterThanEqual { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b) }; pair(x, y) }
        91 => { let x = OpPhi { result_type: Operand::build(a), result_id: Operand::build(a), variables: Operand::build(a) }; let y = OpPhi { result_type: Operand::build(b), result_id: Operand::build(b), variables: Operand::build(b) }; pair(x, y) }
        92 => { let x = OpLoopMerge { merge_block: Operand::build(a), continue_target: Operand::build(a), loop_control: Operand::build(a) }; let y = OpLoopMerge { merge_block: Operand::build(b), continue_target: Operand::build(b), loop_control: Operand::build(b) }; pair(x, y) }
        93 => { let x = OpSelectionMerge { merge_block: Operand::build(a), selection_control: Operand::build(a) }; let y = OpSelectionMerge { merge_block: Operand::build(b), selection_control: Operand::build(b) }; pair(x, y) }
        94 => { let x = OpLabel { result_id: Operand::build(a) }; let y = OpLabel { result_id: Operand::build(b) }; pair(x, y) }
        95 => { let x = OpBranch { target_label: Operand::build(a) }; let y = OpBranch { target_label: Operand::build(b) }; pair(x, y) }
        96 => { let x = OpBranchConditional { condition: Operand::build(a), true_label: Operand::build(a), false_label: Operand::build(a), weights: Operand::build(a) }; let y = OpBranchConditional { condition: Operand::build(b), true_label: Operand::build(b), false_label: Operand::build(b), weights: Operand::build(b) }; pair(x, y) }
        97 => { let x = OpReturn; let y = OpReturn; pair(x, y) }
        98 => { let x = OpLine { file: Operand::build(a), line: Operand::build(a), column: Operand::build(a) }; let y = OpLine { file: Operand::build(b), line: Operand::build(b), column: Operand::build(b) }; pair(x, y) }
        99 => { let x = OpNoLine; let y = OpNoLine; pair(x, y) }
        100 => { let x = OpDecorationGroup { result_id: Operand::build(a) }; let y = OpDecorationGroup { result_id: Operand::build(b) }; pair(x, y) }
        101 => { let x = OpGroupDecorate { decoration_group: Operand::build(a), targets: Operand::build(a) }; let y = OpGroupDecorate { decoration_group: Operand::build(b), targets: Operand::build(b) }; pair(x, y) }
        102 => { let x = OpTypeReserveId { result_id: Operand::build(a) }; let y = OpTypeReserveId { result_id: Operand::build(b) }; pair(x, y) }
        103 => { let x = OpConstantTrue { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = OpConstantTrue { result_type: Operand::build(b), result_id: Operand::build(b) }; pair(x, y) }
        104 => { let x = OpConstantFalse { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = OpConstantFalse { result_type: Operand::build(b), result_id: Operand::build(b) }; pair(x, y) }
        105 => { let x = OpConstantSampler { result_type: Operand::build(a), result_id: Operand::build(a), addressing_mode: Operand::build(a), param: Operand::build(a), filter_mode: Operand::build(a) }; let y = OpConstantSampler { result_type: Operand::build(b), result_id: Operand::build(b), addressing_mode: Operand::build(b), param: Operand::build(b), filter_mode: Operand::build(b) }; pair(x, y) }
        106 => { let x = OpConstantNull { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = OpConstantNull { result_type: Operand::build(b), result_id: Operand::build(b) }; pair(x, y) }
        107 => { let x = OpSpecConstantTrue { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = OpSpecConstantTrue { result_type: Operand::build(b), result_id: Operand::build(b) }; pair(x, y) }
        108 => { let x = OpSpecConstantFalse { result_type: Operand::build(a), result_id: Operand::build(a) }; let y = OpSpecConstantFalse { result_type: Operand::build(b), result_id: Operand::build(b) }; pair(x, y) }
        109 => { let x = OpSpecConstant { result_type: Operand::build(a), result_id: Operand::build(a), value: Operand::build(a) }; let y = OpSpecConstant { result_type: Operand::build(b), result_id: Operand::build(b), value: Operand::build(b) }; pair(x, y) }
        110 => { let x = OpSpecConstantComposite { result_type: Operand::build(a), result_id: Operand::build(a), constituents: Operand::build(a) }; let y = OpSpecConstantComposite { result_type: Operand::build(b), result_id: Operand::build(b), constituents: Operand::build(b) }; pair(x, y) }
        111 => { let x = OpImageTexelPointer { result_type: Operand::build(a), result_id: Operand::build(a), image: Operand::build(a), coordinate: Operand::build(a), sample: Operand::build(a) }; let y = OpImageTexelPointer { result_type: Operand::build(b), result_id: Operand::build(b), image: Operand::build(b), coordinate: Operand::build(b), sample: Operand::build(b) }; pair(x, y) }
        112 => { let x = OpCopyMemory { target: Operand::build(a), source: Operand::build(a), memory_access: Operand::build(a) }; let y = OpCopyMemory { target: Operand::build(b), source: Operand::build(b), memory_access: Operand::build(b) }; pair(x, y) }
        113 => { let x = OpCopyMemorySized { target: Operand::build(a), source: Operand::build(a), size: Operand::build(a), memory_access: Operand::build(a) }; let y = OpCopyMemorySized { target: Operand::build(b), source: Operand::build(b), size: Operand::build(b), memory_access: Operand::build(b) }; pair(x, y) }
        114 => { let x = OpInBoundsAccessChain { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), indexes: Operand::build(a) }; let y = OpInBoundsAccessChain { result_type: Operand::build(b), result_id: Operand::build(b), base: Operand::build(b), indexes: Operand::build(b) }; pair(x, y) }
        115 => { let x = OpPtrAccessChain { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), element: Operand::build(a), indexes: Operand::build(a) }; let y = OpPtrAccessChain { result_type: Operand::build(b), result_id: Operand::build(b), base: Operand::build(b), element: Operand::build(b), indexes: Operand::build(b) }; pair(x, y) }
        116 => { let x = OpArrayLength { result_type: Operand::build(a), result_id: Operand::build(a), structure: Operand::build(a), array_member: Operand::build(a) }; let y = OpArrayLength { result_type: Operand::build(b), result_id: Operand::build(b), structure: Operand::build(b), array_member: Operand::build(b) }; pair(x, y) }
        117 => { let x = OpGenericPtrMemSemantics { result_type: Operand::build(a), result_id: Operand::build(a), pointer: Operand::build(a) }; let y = OpGenericPtrMemSemantics { result_type: Operand::build(b), result_id: Operand::build(b), pointer: Operand::build(b) }; pair(x, y) }
        118 => { let x = OpInBoundsPtrAccessChain { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), element: Operand::build(a), indexes: Operand::build(a) }; let y = OpInBoundsPtrAccessChain { result_type: Operand::build(b), result_id: Operand::build(b), base: Operand::build(b), element: Operand::build(b), indexes: Operand::build(b) }; pair(x, y) }
        119 => { let x = OpFunctionCall { result_type: Operand::build(a), result_id: Operand::build(a), function: Operand::build(a), arguments: Operand::build(a) }; let y = OpFunctionCall { result_type: Operand::build(b), result_id: Operand::build(b), function: Operand::build(b), arguments: Operand::build(b) }; pair(x, y) }
        120 => { let x = OpSampledImage { result_type: Operand::build(a), result_id: Operand::build(a), image: Operand::build(a), sampler: Operand::build(a) }; let y = OpSampledImage { result_type: Operand::build(b), result_id: Operand::build(b), image: Operand::build(b), sampler: Operand::build(b) }; pair(x, y) }
        121 => { let x = OpConvertFToU { result_type: Operand::build(a), result_id: Operand::build(a), float_value: Operand::build(a) }; let y = OpConvertFToU { result_type: Operand::build(b), result_id: Operand::build(b), float_value: Operand::build(b) }; pair(x, y) }
        122 => { let x = OpConvertFToS { result_type: Operand::build(a), result_id: Operand::build(a), float_value: Operand::build(a) }; let y = OpConvertFToS { result_type: Operand::build(b), result_id: Operand::build(b), float_value: Operand::build(b) }; pair(x, y) }
        123 => { let x = OpConvertSToF { result_type: Operand::build(a), result_id: Operand::build(a), signed_value: Operand::build(a) }; let y = OpConvertSToF { result_type: Operand::build(b), result_id: Operand::build(b), signed_value: Operand::build(b) }; pair(x, y) }
        124 => { let x = OpUConvert { result_type: Operand::build(a), result_id: Operand::build(a), unsigned_value: Operand::build(a) }; let y = OpUConvert { result_type: Operand::build(b), result_id: Operand::build(b), unsigned_value: Operand::build(b) }; pair(x, y) }
        125 => { let x = OpSConvert { result_type: Operand::build(a), result_id: Operand::build(a), signed_value: Operand::build(a) }; let y = OpSConvert { result_type: Operand::build(b), result_id: Operand::build(b), signed_value: Operand::build(b) }; pair(x, y) }
        126 => { let x = OpFConvert { result_type: Operand::build(a), result_id: Operand::build(a), float_value: Operand::build(a) }; let y = OpFConvert { result_type: Operand::build(b), result_id: Operand::build(b), float_value: Operand::build(b) }; pair(x, y) }
        127 => { let x = OpQuantizeToF16 { result_type: Operand::build(a), result_id: Operand::build(a), value: Operand::build(a) }; let y = OpQuantizeToF16 { result_type: Operand::build(b), result_id: Operand::build(b), value: Operand::build(b) }; pair(x, y) }
        128 => { let x = OpConvertPtrToU { result_type: Operand::build(a), result_id: Operand::build(a), pointer: Operand::build(a) }; let y = OpConvertPtrToU { result_type: Operand::build(b), result_id: Operand::build(b), pointer: Operand::build(b) }; pair(x, y) }
        129 => { let x = OpSatConvertSToU { result_type: Operand::build(a), result_id: Operand::build(a), signed_value: Operand::build(a) }; let y = OpSatConvertSToU { result_type: Operand::build(b), result_id: Operand::build(b), signed_value: Operand::build(b) }; pair(x, y) }
        130 => { let x = OpSatConvertUToS { result_type: Operand::build(a), result_id: Operand::build(a), unsigned_value: Operand::build(a) }; let y = OpSatConvertUToS { result_type: Operand::build(b), result_id: Operand::build(b), unsigned_value: Operand::build(b) }; pair(x, y) }
        131 => { let x = OpConvertUToPtr { result_type: Operand::build(a), result_id: Operand::build(a), integer_value: Operand::build(a) }; let y = OpConvertUToPtr { result_type: Operand::build(b), result_id: Operand::build(b), integer_value: Operand::build(b) }; pair(x, y) }
        132 => { let x = OpPtrCastToGeneric { result_type: Operand::build(a), result_id: Operand::build(a), pointer: Operand::build(a) }; let y = OpPtrCastToGeneric { result_type: Operand::build(b), result_id: Operand::build(b), pointer: Operand::build(b) }; pair(x, y) }
        133 => { let x = OpGenericCastToPtr { result_type: Operand::build(a), result_id: Operand::build(a), pointer: Operand::build(a) }; let y = OpGenericCastToPtr { result_type: Operand::build(b), result_id: Operand::build(b), pointer: Operand::build(b) }; pair(x, y) }
        134 => { let x = OpGenericCastToPtrExplicit { result_type: Operand::build(a), result_id: Operand::build(a), pointer: Operand::build(a), storage_class: Operand::build(a) }; let y = OpGenericCastToPtrExplicit { result_type: Operand::build(b), result_id: Operand::build(b), pointer: Operand::build(b), storage_class: Operand::build(b) }; pair(x, y) }
        135 => { let x = OpVectorExtractDynamic { result_type: Operand::build(a), result_id: Operand::build(a), vector: Operand::build(a), index: Operand::build(a) }; let y = OpVectorExtractDynamic { result_type: Operand::build(b), result_id: Operand::build(b), vector: Operand::build(b), index: Operand::build(b) }; pair(x, y) }
        136 => { let x = OpVectorInsertDynamic { result_type: Operand::build(a), result_id: Operand::build(a), vector: Operand::build(a), component: Operand::build(a), index: Operand::build(a) }; let y = OpVectorInsertDynamic { result_type: Operand::build(b), result_id: Operand::build(b), vector: Operand::build(b), component: Operand::build(b), index: Operand::build(b) }; pair(x, y) }
        137 => { let x = OpVectorShuffle { result_type: Operand::build(a), result_id: Operand::build(a), operand1: Operand::build(a), operand2: Operand::build(a), components: Operand::build(a) }; let y = OpVectorShuffle { result_type: Operand::build(b), result_id: Operand::build(b), operand1: Operand::build(b), operand2: Operand::build(b), components: Operand::build(b) }; pair(x, y) }
        138 => { let x = OpCompositeConstruct { result_type: Operand::build(a), result_id: Operand::build(a), constituents: Operand::build(a) }; let y = OpCompositeConstruct { result_type: Operand::build(b), result_id: Operand::build(b), constituents: Operand::build(b) }; pair(x, y) }
        139 => { let x = OpCompositeExtract { result_type: Operand::build(a), result_id: Operand::build(a), composite: Operand::build(a), indexes: Operand::build(a) }; let y = OpCompositeExtract { result_type: Operand::build(b), result_id: Operand::build(b), composite: Operand::build(b), indexes: Operand::build(b) }; pair(x, y) }
        140 => { let x = OpCompositeInsert { result_type: Operand::build(a), result_id: Operand::build(a), object: Operand::build(a), composite: Operand::build(a), indexes: Operand::build(a) }; let y = OpCompositeInsert { result_type: Operand::build(b), result_id: Operand::build(b), object: Operand::build(b), composite: Operand::build(b), indexes: Operand::build(b) }; pair(x, y) }
        141 => { let x = OpCopyObject { result_type: Operand::build(a), result_id: Operand::build(a), operand: Operand::build(a) }; let y = OpCopyObject { result_type: Operand::build(b), result_id: Operand::build(b), operand: Operand::build(b) }; pair(x, y) }
        142 => { let x = OpTranspose { result_type: Operand::build(a), result_id: Operand::build(a), matrix: Operand::build(a) }; let y = OpTranspose { result_type: Operand::build(b), result_id: Operand::build(b), matrix: Operand::build(b) }; pair(x, y) }
        143 => { let x = OpSNegate { result_type: Operand::build(a), result_id: Operand::build(a), operand: Operand::build(a) }; let y = OpSNegate { result_type: Operand::build(b), result_id: Operand::build(b), operand: Operand::build(b) }; pair(x, y) }
        144 => { let x = OpFNegate { result_type: Operand::build(a), result_id: Operand::build(a), operand: Operand::build(a) }; let y = OpFNegate { result_type: Operand::build(b), result_id: Operand::build(b), operand: Operand::build(b) }; pair(x, y) }
        145 => { let x = OpVectorTimesScalar { result_type: Operand::build(a), result_id: Operand::build(a), vector: Operand::build(a), scalar: Operand::build(a) }; let y = OpVectorTimesScalar { result_type: Operand::build(b), result_id: Operand::build(b), vector: Operand::build(b), scalar: Operand::build(b) }; pair(x, y) }
        146 => { let x = OpMatrixTimesScalar { result_type: Operand::build(a), result_id: Operand::build(a), matrix: Operand::build(a), scalar: Operand::build(a) }; let y = OpMatrixTimesScalar { result_type: Operand::build(b), result_id: Operand::build(b), matrix: Operand::build(b), scalar: Operand::build(b) }; pair(x, y) }
        147 => { let x = OpVectorTimesMatrix { result_type: Operand::build(a), result_id: Operand::build(a), vector: Operand::build(a), matrix: Operand::build(a) }; let y = OpVectorTimesMatrix { result_type: Operand::build(b), result_id: Operand::build(b), vector: Operand::build(b), matrix: Operand::build(b) }; pair(x, y) }
        148 => { let x = OpMatrixTimesVector { result_type: Operand::build(a), result_id: Operand::build(a), matrix: Operand::build(a), vector: Operand::build(a) }; let y = OpMatrixTimesVector { result_type: Operand::build(b), result_id: Operand::build(b), matrix: Operand::build(b), vector: Operand::build(b) }; pair(x, y) }
        149 => { let x = OpMatrixTimesMatrix { result_type: Operand::build(a), result_id: Operand::build(a), left_matrix: Operand::build(a), right_matrix: Operand::build(a) }; let y = OpMatrixTimesMatrix { result_type: Operand::build(b), result_id: Operand::build(b), left_matrix: Operand::build(b), right_matrix: Operand::build(b) }; pair(x, y) }
        150 => { let x = OpOuterProduct { result_type: Operand::build(a), result_id: Operand::build(a), vector1: Operand::build(a), vector2: Operand::build(a) }; let y = OpOuterProduct { result_type: Operand::build(b), result_id: Operand::build(b), vector1: Operand::build(b), vector2: Operand::build(b) }; pair(x, y) }
        151 => { let x = OpDot { result_type: Operand::build(a), result_id: Operand::build(a), vector1: Operand::build(a), vector2: Operand::build(a) }; let y = OpDot { result_type: Operand::build(b), result_id: Operand::build(b), vector1: Operand::build(b), vector2: Operand::build(b) }; pair(x, y) }
        152 => { let x = OpShiftRightLogical { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), shift: Operand::build(a) }; let y = OpShiftRightLogical { result_type: Operand::build(b), result_id: Operand::build(b), base: Operand::build(b), shift: Operand::build(b) }; pair(x, y) }
        153 => { let x = OpShiftRightArithmetic { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), shift: Operand::build(a) }; let y = OpShiftRightArithmetic { result_type: Operand::build(b), result_id: Operand::build(b), base: Operand::build(b), shift: Operand::build(b) }; pair(x, y) }
        154 => { let x = OpShiftLeftLogical { result_type: Operand::build(a), result_id: Operand::build(a), base: Operand::build(a), shift: Operand::build(a) }; let y = OpShiftLeftLogical { result_type: Operand::build(b), result_id: Operand::build(b), base: Operand::build(b), shift: Operand::build(b) }; pair(x, y) }
        155 => { let x = OpNot { result_type: Operand::build(a), result_id: Operand::build(a), operand: Operand::build(a) }; let y = OpNot { result_type: Operand::build(b), result_id: Operand::build(b), operand: Operand::build(b) }; pair(x, y) }
        _ => panic!("harness: op"),
    }
}
/// Instructions that implement the public operand-reading trait
pub static OP_READERS: &[(usize, crate::operands::ReadFn)] = &[
    (0, |b| { let (b, x) = <OpNop as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpNop(x)).args)) }),
    (1, |b| { let (b, x) = <OpUndef as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpUndef(x)).args)) }),
    (2, |b| { let (b, x) = <OpSourceContinued as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpSourceContinued(x)).args)) }),
    (3, |b| { let (b, x) = <OpSource as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpSource(x)).args)) }),
    (4, |b| { let (b, x) = <OpSourceExtension as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpSourceExtension(x)).args)) }),
    (5, |b| { let (b, x) = <OpName as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpName(x)).args)) }),
    (6, |b| { let (b, x) = <OpMemberName as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpMemberName(x)).args)) }),
    (7, |b| { let (b, x) = <OpString as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpString(x)).args)) }),
    (8, |b| { let (b, x) = <OpExtension as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpExtension(x)).args)) }),
    (11, |b| { let (b, x) = <OpMemoryModel as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpMemoryModel(x)).args)) }),
    (12, |b| { let (b, x) = <OpEntryPoint as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpEntryPoint(x)).args)) }),
    (13, |b| { let (b, x) = <OpExecutionMode as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpExecutionMode(x)).args)) }),
    (14, |b| { let (b, x) = <OpCapability as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpCapability(x)).args)) }),
    (15, |b| { let (b, x) = <OpTypeVoid as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeVoid(x)).args)) }),
    (16, |b| { let (b, x) = <OpTypeBool as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeBool(x)).args)) }),
    (17, |b| { let (b, x) = <OpTypeInt as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeInt(x)).args)) }),
    (18, |b| { let (b, x) = <OpTypeFloat as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeFloat(x)).args)) }),
    (19, |b| { let (b, x) = <OpTypeVector as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeVector(x)).args)) }),
    (20, |b| { let (b, x) = <OpTypeMatrix as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeMatrix(x)).args)) }),
    (21, |b| { let (b, x) = <OpTypeImage as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeImage(x)).args)) }),
    (22, |b| { let (b, x) = <OpTypeSampler as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeSampler(x)).args)) }),
    (23, |b| { let (b, x) = <OpTypeSampledImage as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeSampledImage(x)).args)) }),
    (24, |b| { let (b, x) = <OpTypeArray as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeArray(x)).args)) }),
    (25, |b| { let (b, x) = <OpTypeRuntimeArray as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeRuntimeArray(x)).args)) }),
    (26, |b| { let (b, x) = <OpTypeStruct as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeStruct(x)).args)) }),
    (27, |b| { let (b, x) = <OpTypeOpaque as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeOpaque(x)).args)) }),
    (28, |b| { let (b, x) = <OpTypePointer as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypePointer(x)).args)) }),
    (29, |b| { let (b, x) = <OpTypeFunction as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpTypeFunction(x)).args)) }),
    (35, |b| { let (b, x) = <OpConstant as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpConstant(x)).args)) }),
    (36, |b| { let (b, x) = <OpConstantComposite as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpConstantComposite(x)).args)) }),
    (37, |b| { let (b, x) = <OpFunction as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFunction(x)).args)) }),
    (38, |b| { let (b, x) = <OpFunctionParameter as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFunctionParameter(x)).args)) }),
    (39, |b| { let (b, x) = <OpFunctionEnd as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFunctionEnd(x)).args)) }),
    (40, |b| { let (b, x) = <OpVariable as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpVariable(x)).args)) }),
    (41, |b| { let (b, x) = <OpLoad as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpLoad(x)).args)) }),
    (42, |b| { let (b, x) = <OpStore as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpStore(x)).args)) }),
    (43, |b| { let (b, x) = <OpAccessChain as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpAccessChain(x)).args)) }),
    (44, |b| { let (b, x) = <OpDecorate as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpDecorate(x)).args)) }),
    (45, |b| { let (b, x) = <OpMemberDecorate as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpMemberDecorate(x)).args)) }),
    (46, |b| { let (b, x) = <OpConvertUToF as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpConvertUToF(x)).args)) }),
    (47, |b| { let (b, x) = <OpBitcast as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpBitcast(x)).args)) }),
    (48, |b| { let (b, x) = <OpIAdd as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpIAdd(x)).args)) }),
    (49, |b| { let (b, x) = <OpFAdd as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFAdd(x)).args)) }),
    (50, |b| { let (b, x) = <OpISub as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpISub(x)).args)) }),
    (51, |b| { let (b, x) = <OpFSub as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFSub(x)).args)) }),
    (52, |b| { let (b, x) = <OpIMul as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpIMul(x)).args)) }),
    (53, |b| { let (b, x) = <OpFMul as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFMul(x)).args)) }),
    (54, |b| { let (b, x) = <OpUDiv as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpUDiv(x)).args)) }),
    (55, |b| { let (b, x) = <OpSDiv as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpSDiv(x)).args)) }),
    (56, |b| { let (b, x) = <OpFDiv as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFDiv(x)).args)) }),
    (57, |b| { let (b, x) = <OpUMod as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpUMod(x)).args)) }),
    (58, |b| { let (b, x) = <OpSRem as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpSRem(x)).args)) }),
    (59, |b| { let (b, x) = <OpSMod as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpSMod(x)).args)) }),
    (60, |b| { let (b, x) = <OpFRem as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFRem(x)).args)) }),
    (61, |b| { let (b, x) = <OpFMod as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFMod(x)).args)) }),
    (62, |b| { let (b, x) = <OpIAddCarry as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpIAddCarry(x)).args)) }),
    (63, |b| { let (b, x) = <OpISubBorrow as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpISubBorrow(x)).args)) }),
    (64, |b| { let (b, x) = <OpUMulExtended as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpUMulExtended(x)).args)) }),
    (65, |b| { let (b, x) = <OpSMulExtended as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpSMulExtended(x)).args)) }),
    (66, |b| { let (b, x) = <OpBitwiseOr as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpBitwiseOr(x)).args)) }),
    (67, |b| { let (b, x) = <OpBitwiseXor as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpBitwiseXor(x)).args)) }),
    (68, |b| { let (b, x) = <OpBitwiseAnd as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpBitwiseAnd(x)).args)) }),
    (69, |b| { let (b, x) = <OpIEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpIEqual(x)).args)) }),
    (70, |b| { let (b, x) = <OpINotEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpINotEqual(x)).args)) }),
    (71, |b| { let (b, x) = <OpUGreaterThan as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpUGreaterThan(x)).args)) }),
    (72, |b| { let (b, x) = <OpSGreaterThan as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpSGreaterThan(x)).args)) }),
    (73, |b| { let (b, x) = <OpUGreaterThanEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpUGreaterThanEqual(x)).args)) }),
    (74, |b| { let (b, x) = <OpSGreaterThanEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpSGreaterThanEqual(x)).args)) }),
    (75, |b| { let (b, x) = <OpULessThan as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpULessThan(x)).args)) }),
    (76, |b| { let (b, x) = <OpSLessThan as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpSLessThan(x)).args)) }),
    (77, |b| { let (b, x) = <OpULessThanEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpULessThanEqual(x)).args)) }),
    (78, |b| { let (b, x) = <OpSLessThanEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpSLessThanEqual(x)).args)) }),
    (79, |b| { let (b, x) = <OpFOrdEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFOrdEqual(x)).args)) }),
    (80, |b| { let (b, x) = <OpFUnordEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFUnordEqual(x)).args)) }),
    (81, |b| { let (b, x) = <OpFOrdNotEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFOrdNotEqual(x)).args)) }),
    (82, |b| { let (b, x) = <OpFUnordNotEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFUnordNotEqual(x)).args)) }),
    (83, |b| { let (b, x) = <OpFOrdLessThan as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFOrdLessThan(x)).args)) }),
    (84, |b| { let (b, x) = <OpFUnordLessThan as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFUnordLessThan(x)).args)) }),
    (85, |b| { let (b, x) = <OpFOrdGreaterThan as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFOrdGreaterThan(x)).args)) }),
    (86, |b| { let (b, x) = <OpFUnordGreaterThan as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFUnordGreaterThan(x)).args)) }),
    (87, |b| { let (b, x) = <OpFOrdLessThanEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFOrdLessThanEqual(x)).args)) }),
    (88, |b| { let (b, x) = <OpFUnordLessThanEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFUnordLessThanEqual(x)).args)) }),
    (89, |b| { let (b, x) = <OpFOrdGreaterThanEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFOrdGreaterThanEqual(x)).args)) }),
    (90, |b| { let (b, x) = <OpFUnordGreaterThanEqual as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpFUnordGreaterThanEqual(x)).args)) }),
    (91, |b| { let (b, x) = <OpPhi as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpPhi(x)).args)) }),
    (92, |b| { let (b, x) = <OpLoopMerge as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpLoopMerge(x)).args)) }),
    (93, |b| { let (b, x) = <OpSelectionMerge as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpSelectionMerge(x)).args)) }),
    (94, |b| { let (b, x) = <OpLabel as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpLabel(x)).args)) }),
    (95, |b| { let (b, x) = <OpBranch as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpBranch(x)).args)) }),
    (96, |b| { let (b, x) = <OpBranchConditional as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpBranchConditional(x)).args)) }),
    (97, |b| { let (b, x) = <OpReturn as magmaflow::spv::raw::MemoryBlockRead>::read(b)?; Ok((b, lift_core(&Core::OpReturn(x)).args)) }),
];
pub static UNIMPLEMENTED: &[(u16, &str)] = &[
    (8, "OpLine"),
    (41, "OpConstantTrue"),
    (42, "OpConstantFalse"),
    (45, "OpConstantSampler"),
    (46, "OpConstantNull"),
    (48, "OpSpecConstantTrue"),
    (49, "OpSpecConstantFalse"),
    (50, "OpSpecConstant"),
    (51, "OpSpecConstantComposite"),
    (52, "OpSpecConstantOp"),
    (57, "OpFunctionCall"),
    (60, "OpImageTexelPointer"),
    (63, "OpCopyMemory"),
    (64, "OpCopyMemorySized"),
    (66, "OpInBoundsAccessChain"),
    (67, "OpPtrAccessChain"),
    (68, "OpArrayLength"),
    (69, "OpGenericPtrMemSemantics"),
    (70, "OpInBoundsPtrAccessChain"),
    (77, "OpVectorExtractDynamic"),
    (78, "OpVectorInsertDynamic"),
    (79, "OpVectorShuffle"),
    (80, "OpCompositeConstruct"),
    (81, "OpCompositeExtract"),
    (82, "OpCompositeInsert"),
    (83, "OpCopyObject"),
    (84, "OpTranspose"),
    (86, "OpSampledImage"),
    (87, "OpImageSampleImplicitLod"),
    (88, "OpImageSampleExplicitLod"),
    (89, "OpImageSampleDrefImplicitLod"),
    (90, "OpImageSampleDrefExplicitLod"),
    (91, "OpImageSampleProjImplicitLod"),
    (92, "OpImageSampleProjExplicitLod"),
    (93, "OpImageSampleProjDrefImplicitLod"),
    (94, "OpImageSampleProjDrefExplicitLod"),
    (95, "OpImageFetch"),
    (96, "OpImageGather"),
    (97, "OpImageDrefGather"),
    (98, "OpImageRead"),
    (99, "OpImageWrite"),
    (100, "OpImage"),
    (101, "OpImageQueryFormat"),
    (102, "OpImageQueryOrder"),
    (103, "OpImageQuerySizeLod"),
    (104, "OpImageQuerySize"),
    (105, "OpImageQueryLod"),
    (106, "OpImageQueryLevels"),
    (107, "OpImageQuerySamples"),
    (109, "OpConvertFToU"),
    (110, "OpConvertFToS"),
    (111, "OpConvertSToF"),
    (113, "OpUConvert"),
    (114, "OpSConvert"),
    (115, "OpFConvert"),
    (116, "OpQuantizeToF16"),
    (117, "OpConvertPtrToU"),
    (118, "OpSatConvertSToU"),
    (119, "OpSatConvertUToS"),
    (120, "OpConvertUToPtr"),
    (121, "OpPtrCastToGeneric"),
    (122, "OpGenericCastToPtr"),
    (123, "OpGenericCastToPtrExplicit"),
    (126, "OpSNegate"),
    (127, "OpFNegate"),
    (142, "OpVectorTimesScalar"),
    (143, "OpMatrixTimesScalar"),
    (144, "OpVectorTimesMatrix"),
    (145, "OpMatrixTimesVector"),
    (146, "OpMatrixTimesMatrix"),
    (147, "OpOuterProduct"),
    (148, "OpDot"),
    (154, "OpAny"),
    (155, "OpAll"),
    (156, "OpIsNan"),
    (157, "OpIsInf"),
    (158, "OpIsFinite"),
    (159, "OpIsNormal"),
    (160, "OpSignBitSet"),
    (161, "OpLessOrGreater"),
    (162, "OpOrdered"),
    (163, "OpUnordered"),
    (164, "OpLogicalEqual"),
    (165, "OpLogicalNotEqual"),
    (166, "OpLogicalOr"),
    (167, "OpLogicalAnd"),
    (168, "OpLogicalNot"),
    (169, "OpSelect"),
    (194, "OpShiftRightLogical"),
    (195, "OpShiftRightArithmetic"),
    (196, "OpShiftLeftLogical"),
    (200, "OpNot"),
    (201, "OpBitFieldInsert"),
    (202, "OpBitFieldSExtract"),
    (203, "OpBitFieldUExtract"),
    (204, "OpBitReverse"),
    (205, "OpBitCount"),
    (207, "OpDPdx"),
    (208, "OpDPdy"),
    (209, "OpFwidth"),
    (210, "OpDPdxFine"),
    (211, "OpDPdyFine"),
    (212, "OpFwidthFine"),
    (213, "OpDPdxCoarse"),
    (214, "OpDPdyCoarse"),
    (215, "OpFwidthCoarse"),
    (218, "OpEmitVertex"),
    (219, "OpEndPrimitive"),
    (220, "OpEmitStreamVertex"),
    (221, "OpEndStreamPrimitive"),
    (224, "OpControlBarrier"),
    (225, "OpMemoryBarrier"),
    (227, "OpAtomicLoad"),
    (228, "OpAtomicStore"),
    (229, "OpAtomicExchange"),
    (230, "OpAtomicCompareExchange"),
    (231, "OpAtomicCompareExchangeWeak"),
    (232, "OpAtomicIIncrement"),
    (233, "OpAtomicIDecrement"),
    (234, "OpAtomicIAdd"),
    (235, "OpAtomicISub"),
    (236, "OpAtomicSMin"),
    (237, "OpAtomicUMin"),
    (238, "OpAtomicSMax"),
    (239, "OpAtomicUMax"),
    (240, "OpAtomicAnd"),
    (241, "OpAtomicOr"),
    (242, "OpAtomicXor"),
    (251, "OpSwitch"),
    (252, "OpKill"),
    (254, "OpReturnValue"),
    (255, "OpUnreachable"),
    (256, "OpLifetimeStart"),
    (257, "OpLifetimeStop"),
    (259, "OpGroupAsyncCopy"),
    (260, "OpGroupWaitEvents"),
    (261, "OpGroupAll"),
    (262, "OpGroupAny"),
    (263, "OpGroupBroadcast"),
    (264, "OpGroupIAdd"),
    (265, "OpGroupFAdd"),
    (266, "OpGroupFMin"),
    (267, "OpGroupUMin"),
    (268, "OpGroupSMin"),
    (269, "OpGroupFMax"),
    (270, "OpGroupUMax"),
    (271, "OpGroupSMax"),
    (274, "OpReadPipe"),
    (275, "OpWritePipe"),
    (276, "OpReservedReadPipe"),
    (277, "OpReservedWritePipe"),
    (278, "OpReserveReadPipePackets"),
    (279, "OpReserveWritePipePackets"),
    (280, "OpCommitReadPipe"),
    (281, "OpCommitWritePipe"),
    (282, "OpIsValidReserveId"),
    (283, "OpGetNumPipePackets"),
    (284, "OpGetMaxPipePackets"),
    (285, "OpGroupReserveReadPipePackets"),
    (286, "OpGroupReserveWritePipePackets"),
    (287, "OpGroupCommitReadPipe"),
    (288, "OpGroupCommitWritePipe"),
    (291, "OpEnqueueMarker"),
    (292, "OpEnqueueKernel"),
    (293, "OpGetKernelNDrangeSubGroupCount"),
    (294, "OpGetKernelNDrangeMaxSubGroupSize"),
    (295, "OpGetKernelWorkGroupSize"),
    (296, "OpGetKernelPreferredWorkGroupSizeMultiple"),
    (297, "OpRetainEvent"),
    (298, "OpReleaseEvent"),
    (299, "OpCreateUserEvent"),
    (300, "OpIsValidEvent"),
    (301, "OpSetUserEventStatus"),
    (302, "OpCaptureEventProfilingInfo"),
    (303, "OpGetDefaultQueue"),
    (304, "OpBuildNDRange"),
    (305, "OpImageSparseSampleImplicitLod"),
    (306, "OpImageSparseSampleExplicitLod"),
    (307, "OpImageSparseSampleDrefImplicitLod"),
    (308, "OpImageSparseSampleDrefExplicitLod"),
    (309, "OpImageSparseSampleProjImplicitLod"),
    (310, "OpImageSparseSampleProjExplicitLod"),
    (311, "OpImageSparseSampleProjDrefImplicitLod"),
    (312, "OpImageSparseSampleProjDrefExplicitLod"),
    (313, "OpImageSparseFetch"),
    (314, "OpImageSparseGather"),
    (315, "OpImageSparseDrefGather"),
    (316, "OpImageSparseTexelsResident"),
    (317, "OpNoLine"),
    (318, "OpAtomicFlagTestAndSet"),
    (319, "OpAtomicFlagClear"),
    (320, "OpImageSparseRead"),
];
use magmaflow::spv::logical::*;
pub fn un_debug(g: &GroupDebug) -> Core {
    match *g {
        GroupDebug::OpSourceContinued(ref x) => Core::OpSourceContinued(x.clone()),
        GroupDebug::OpSource(ref x) => Core::OpSource(x.clone()),
        GroupDebug::OpSourceExtension(ref x) => Core::OpSourceExtension(x.clone()),
        GroupDebug::OpName(ref x) => Core::OpName(x.clone()),
        GroupDebug::OpMemberName(ref x) => Core::OpMemberName(x.clone()),
        GroupDebug::OpString(ref x) => Core::OpString(x.clone()),
        _ => panic!("harness: unknown group member"),
    }
}
pub fn un_annotation(g: &GroupAnnotation) -> Core {
    match *g {
        GroupAnnotation::OpDecorate(ref x) => Core::OpDecorate(x.clone()),
        GroupAnnotation::OpMemberDecorate(ref x) => Core::OpMemberDecorate(x.clone()),
        _ => panic!("harness: unknown group member"),
    }
}
pub fn un_type(g: &GroupType) -> Core {
    match *g {
        GroupType::OpTypeVoid(ref x) => Core::OpTypeVoid(x.clone()),
        GroupType::OpTypeBool(ref x) => Core::OpTypeBool(x.clone()),
        GroupType::OpTypeInt(ref x) => Core::OpTypeInt(x.clone()),
        GroupType::OpTypeFloat(ref x) => Core::OpTypeFloat(x.clone()),
        GroupType::OpTypeVector(ref x) => Core::OpTypeVector(x.clone()),
        GroupType::OpTypeMatrix(ref x) => Core::OpTypeMatrix(x.clone()),
        GroupType::OpTypeImage(ref x) => Core::OpTypeImage(x.clone()),
        GroupType::OpTypeSampler(ref x) => Core::OpTypeSampler(x.clone()),
        GroupType::OpTypeSampledImage(ref x) => Core::OpTypeSampledImage(x.clone()),
        GroupType::OpTypeArray(ref x) => Core::OpTypeArray(x.clone()),
        GroupType::OpTypeRuntimeArray(ref x) => Core::OpTypeRuntimeArray(x.clone()),
        GroupType::OpTypeStruct(ref x) => Core::OpTypeStruct(x.clone()),
        GroupType::OpTypeOpaque(ref x) => Core::OpTypeOpaque(x.clone()),
        GroupType::OpTypePointer(ref x) => Core::OpTypePointer(x.clone()),
        GroupType::OpTypeFunction(ref x) => Core::OpTypeFunction(x.clone()),
        GroupType::OpTypeEvent(ref x) => Core::OpTypeEvent(x.clone()),
        GroupType::OpTypeDeviceEvent(ref x) => Core::OpTypeDeviceEvent(x.clone()),
        GroupType::OpTypeQueue(ref x) => Core::OpTypeQueue(x.clone()),
        GroupType::OpTypePipe(ref x) => Core::OpTypePipe(x.clone()),
        GroupType::OpTypeForwardPointer(ref x) => Core::OpTypeForwardPointer(x.clone()),
        _ => panic!("harness: unknown group member"),
    }
}
pub fn un_constant(g: &GroupConstant) -> Core {
    match *g {
        GroupConstant::OpConstant(ref x) => Core::OpConstant(x.clone()),
        GroupConstant::OpConstantComposite(ref x) => Core::OpConstantComposite(x.clone()),
        _ => panic!("harness: unknown group member"),
    }
}
pub fn un_code(g: &GroupCode) -> Core {
    match *g {
        GroupCode::OpNop(ref x) => Core::OpNop(x.clone()),
        GroupCode::OpUndef(ref x) => Core::OpUndef(x.clone()),
        GroupCode::OpExtInst(ref x) => Core::OpExtInst(x.clone()),
        GroupCode::OpLoad(ref x) => Core::OpLoad(x.clone()),
        GroupCode::OpStore(ref x) => Core::OpStore(x.clone()),
        GroupCode::OpAccessChain(ref x) => Core::OpAccessChain(x.clone()),
        GroupCode::OpConvertUToF(ref x) => Core::OpConvertUToF(x.clone()),
        GroupCode::OpBitcast(ref x) => Core::OpBitcast(x.clone()),
        GroupCode::OpIAdd(ref x) => Core::OpIAdd(x.clone()),
        GroupCode::OpFAdd(ref x) => Core::OpFAdd(x.clone()),
        GroupCode::OpISub(ref x) => Core::OpISub(x.clone()),
        GroupCode::OpFSub(ref x) => Core::OpFSub(x.clone()),
        GroupCode::OpIMul(ref x) => Core::OpIMul(x.clone()),
        GroupCode::OpFMul(ref x) => Core::OpFMul(x.clone()),
        GroupCode::OpUDiv(ref x) => Core::OpUDiv(x.clone()),
        GroupCode::OpSDiv(ref x) => Core::OpSDiv(x.clone()),
        GroupCode::OpFDiv(ref x) => Core::OpFDiv(x.clone()),
        GroupCode::OpUMod(ref x) => Core::OpUMod(x.clone()),
        GroupCode::OpSRem(ref x) => Core::OpSRem(x.clone()),
        GroupCode::OpSMod(ref x) => Core::OpSMod(x.clone()),
        GroupCode::OpFRem(ref x) => Core::OpFRem(x.clone()),
        GroupCode::OpFMod(ref x) => Core::OpFMod(x.clone()),
        GroupCode::OpIAddCarry(ref x) => Core::OpIAddCarry(x.clone()),
        GroupCode::OpISubBorrow(ref x) => Core::OpISubBorrow(x.clone()),
        GroupCode::OpUMulExtended(ref x) => Core::OpUMulExtended(x.clone()),
        GroupCode::OpSMulExtended(ref x) => Core::OpSMulExtended(x.clone()),
        GroupCode::OpBitwiseOr(ref x) => Core::OpBitwiseOr(x.clone()),
        GroupCode::OpBitwiseXor(ref x) => Core::OpBitwiseXor(x.clone()),
        GroupCode::OpBitwiseAnd(ref x) => Core::OpBitwiseAnd(x.clone()),
        GroupCode::OpIEqual(ref x) => Core::OpIEqual(x.clone()),
        GroupCode::OpINotEqual(ref x) => Core::OpINotEqual(x.clone()),
        GroupCode::OpUGreaterThan(ref x) => Core::OpUGreaterThan(x.clone()),
        GroupCode::OpSGreaterThan(ref x) => Core::OpSGreaterThan(x.clone()),
        GroupCode::OpUGreaterThanEqual(ref x) => Core::OpUGreaterThanEqual(x.clone()),
        GroupCode::OpSGreaterThanEqual(ref x) => Core::OpSGreaterThanEqual(x.clone()),
        GroupCode::OpULessThan(ref x) => Core::OpULessThan(x.clone()),
        GroupCode::OpSLessThan(ref x) => Core::OpSLessThan(x.clone()),
        GroupCode::OpULessThanEqual(ref x) => Core::OpULessThanEqual(x.clone()),
        GroupCode::OpSLessThanEqual(ref x) => Core::OpSLessThanEqual(x.clone()),
        GroupCode::OpFOrdEqual(ref x) => Core::OpFOrdEqual(x.clone()),
        GroupCode::OpFUnordEqual(ref x) => Core::OpFUnordEqual(x.clone()),
        GroupCode::OpFOrdNotEqual(ref x) => Core::OpFOrdNotEqual(x.clone()),
        GroupCode::OpFUnordNotEqual(ref x) => Core::OpFUnordNotEqual(x.clone()),
        GroupCode::OpFOrdLessThan(ref x) => Core::OpFOrdLessThan(x.clone()),
        GroupCode::OpFUnordLessThan(ref x) => Core::OpFUnordLessThan(x.clone()),
        GroupCode::OpFOrdGreaterThan(ref x) => Core::OpFOrdGreaterThan(x.clone()),
        GroupCode::OpFUnordGreaterThan(ref x) => Core::OpFUnordGreaterThan(x.clone()),
        GroupCode::OpFOrdLessThanEqual(ref x) => Core::OpFOrdLessThanEqual(x.clone()),
        GroupCode::OpFUnordLessThanEqual(ref x) => Core::OpFUnordLessThanEqual(x.clone()),
        GroupCode::OpFOrdGreaterThanEqual(ref x) => Core::OpFOrdGreaterThanEqual(x.clone()),
        GroupCode::OpFUnordGreaterThanEqual(ref x) => Core::OpFUnordGreaterThanEqual(x.clone()),
        GroupCode::OpPhi(ref x) => Core::OpPhi(x.clone()),
        GroupCode::OpVariable(ref x) => Core::OpVariable(x.clone()),
        _ => panic!("harness: unknown group member"),
    }
}
pub fn un_merge(g: &GroupMerge) -> Core {
    match *g {
        GroupMerge::OpLoopMerge(ref x) => Core::OpLoopMerge(x.clone()),
        GroupMerge::OpSelectionMerge(ref x) => Core::OpSelectionMerge(x.clone()),
        _ => panic!("harness: unknown group member"),
    }
}
pub fn un_branch(g: &GroupBranch) -> Core {
    match *g {
        GroupBranch::OpBranch(ref x) => Core::OpBranch(x.clone()),
        GroupBranch::OpBranchConditional(ref x) => Core::OpBranchConditional(x.clone()),
        GroupBranch::OpReturn(ref x) => Core::OpReturn(x.clone()),
        _ => panic!("harness: unknown group member"),
    }
}
pub fn un_global(g: &GroupGlobal) -> Core {
    match *g {
        GroupGlobal::GroupType(ref t) => un_type(t),
        GroupGlobal::GroupConstant(ref t) => un_constant(t),
        GroupGlobal::OpVariable(ref x) => Core::OpVariable(x.clone()),
        _ => panic!("harness: unknown group member"),
    }
}
pub fn to_code(c: &Core) -> Option<GroupCode> {
    Some(match *c {
        Core::OpNop(ref x) => GroupCode::OpNop(x.clone()),
        Core::OpUndef(ref x) => GroupCode::OpUndef(x.clone()),
        Core::OpExtInst(ref x) => GroupCode::OpExtInst(x.clone()),
        Core::OpLoad(ref x) => GroupCode::OpLoad(x.clone()),
        Core::OpStore(ref x) => GroupCode::OpStore(x.clone()),
        Core::OpAccessChain(ref x) => GroupCode::OpAccessChain(x.clone()),
        Core::OpConvertUToF(ref x) => GroupCode::OpConvertUToF(x.clone()),
        Core::OpBitcast(ref x) => GroupCode::OpBitcast(x.clone()),
        Core::OpIAdd(ref x) => GroupCode::OpIAdd(x.clone()),
        Core::OpFAdd(ref x) => GroupCode::OpFAdd(x.clone()),
        Core::OpISub(ref x) => GroupCode::OpISub(x.clone()),
        Core::OpFSub(ref x) => GroupCode::OpFSub(x.clone()),
        Core::OpIMul(ref x) => GroupCode::OpIMul(x.clone()),
        Core::OpFMul(ref x) => GroupCode::OpFMul(x.clone()),
        Core::OpUDiv(ref x) => GroupCode::OpUDiv(x.clone()),
        Core::OpSDiv(ref x) => GroupCode::OpSDiv(x.clone()),
        Core::OpFDiv(ref x) => GroupCode::OpFDiv(x.clone()),
        Core::OpUMod(ref x) => GroupCode::OpUMod(x.clone()),
        Core::OpSRem(ref x) => GroupCode::OpSRem(x.clone()),
        Core::OpSMod(ref x) => GroupCode::OpSMod(x.clone()),
        Core::OpFRem(ref x) => GroupCode::OpFRem(x.clone()),
        Core::OpFMod(ref x) => GroupCode::OpFMod(x.clone()),
        Core::OpIAddCarry(ref x) => GroupCode::OpIAddCarry(x.clone()),
        Core::OpISubBorrow(ref x) => GroupCode::OpISubBorrow(x.clone()),
        Core::OpUMulExtended(ref x) => GroupCode::OpUMulExtended(x.clone()),
        Core::OpSMulExtended(ref x) => GroupCode::OpSMulExtended(x.clone()),
        Core::OpBitwiseOr(ref x) => GroupCode::OpBitwiseOr(x.clone()),
        Core::OpBitwiseXor(ref x) => GroupCode::OpBitwiseXor(x.clone()),
        Core::OpBitwiseAnd(ref x) => GroupCode::OpBitwiseAnd(x.clone()),
        Core::OpIEqual(ref x) => GroupCode::OpIEqual(x.clone()),
        Core::OpINotEqual(ref x) => GroupCode::OpINotEqual(x.clone()),
        Core::OpUGreaterThan(ref x) => GroupCode::OpUGreaterThan(x.clone()),
        Core::OpSGreaterThan(ref x) => GroupCode::OpSGreaterThan(x.clone()),
        Core::OpUGreaterThanEqual(ref x) => GroupCode::OpUGreaterThanEqual(x.clone()),
        Core::OpSGreaterThanEqual(ref x) => GroupCode::OpSGreaterThanEqual(x.clone()),
        Core::OpULessThan(ref x) => GroupCode::OpULessThan(x.clone()),
        Core::OpSLessThan(ref x) => GroupCode::OpSLessThan(x.clone()),
        Core::OpULessThanEqual(ref x) => GroupCode::OpULessThanEqual(x.clone()),
        Core::OpSLessThanEqual(ref x) => GroupCode::OpSLessThanEqual(x.clone()),
        Core::OpFOrdEqual(ref x) => GroupCode::OpFOrdEqual(x.clone()),
        Core::OpFUnordEqual(ref x) => GroupCode::OpFUnordEqual(x.clone()),
        Core::OpFOrdNotEqual(ref x) => GroupCode::OpFOrdNotEqual(x.clone()),
        Core::OpFUnordNotEqual(ref x) => GroupCode::OpFUnordNotEqual(x.clone()),
        Core::OpFOrdLessThan(ref x) => GroupCode::OpFOrdLessThan(x.clone()),
        Core::OpFUnordLessThan(ref x) => GroupCode::OpFUnordLessThan(x.clone()),
        Core::OpFOrdGreaterThan(ref x) => GroupCode::OpFOrdGreaterThan(x.clone()),
        Core::OpFUnordGreaterThan(ref x) => GroupCode::OpFUnordGreaterThan(x.clone()),
        Core::OpFOrdLessThanEqual(ref x) => GroupCode::OpFOrdLessThanEqual(x.clone()),
        Core::OpFUnordLessThanEqual(ref x) => GroupCode::OpFUnordLessThanEqual(x.clone()),
        Core::OpFOrdGreaterThanEqual(ref x) => GroupCode::OpFOrdGreaterThanEqual(x.clone()),
        Core::OpFUnordGreaterThanEqual(ref x) => GroupCode::OpFUnordGreaterThanEqual(x.clone()),
        Core::OpPhi(ref x) => GroupCode::OpPhi(x.clone()),
        Core::OpVariable(ref x) => GroupCode::OpVariable(x.clone()),
        _ => return None,
    })
}
pub static CLASS: &[Class] = &[Class::Code, Class::Code, Class::Debug, Class::Debug, Class::Debug, Class::Debug, Class::Debug, Class::Debug, Class::Extension, Class::ExtInstImport, Class::Code, Class::MemoryModel, Class::EntryPoint, Class::ExecutionMode, Class::Capability, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Global, Class::Function, Class::FunctionParameter, Class::FunctionEnd, Class::Variable, Class::Code, Class::Code, Class::Code, Class::Annotation, Class::Annotation, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Code, Class::Merge, Class::Merge, Class::Label, Class::Branch, Class::Branch, Class::Branch];
pub mod oi {
    #[allow(dead_code)] pub const OP_NOP: usize = 0;
    #[allow(dead_code)] pub const OP_UNDEF: usize = 1;
    #[allow(dead_code)] pub const OP_SOURCE_CONTINUED: usize = 2;
    #[allow(dead_code)] pub const OP_SOURCE: usize = 3;
    #[allow(dead_code)] pub const OP_SOURCE_EXTENSION: usize = 4;
    #[allow(dead_code)] pub const OP_NAME: usize = 5;
    #[allow(dead_code)] pub const OP_MEMBER_NAME: usize = 6;
    #[allow(dead_code)] pub const OP_STRING: usize = 7;
    #[allow(dead_code)] pub const OP_EXTENSION: usize = 8;
    #[allow(dead_code)] pub const OP_EXT_INST_IMPORT: usize = 9;
    #[allow(dead_code)] pub const OP_EXT_INST: usize = 10;
    #[allow(dead_code)] pub const OP_MEMORY_MODEL: usize = 11;
    #[allow(dead_code)] pub const OP_ENTRY_POINT: usize = 12;
    #[allow(dead_code)] pub const OP_EXECUTION_MODE: usize = 13;
    #[allow(dead_code)] pub const OP_CAPABILITY: usize = 14;
    #[allow(dead_code)] pub const OP_TYPE_VOID: usize = 15;
    #[allow(dead_code)] pub const OP_TYPE_BOOL: usize = 16;
    #[allow(dead_code)] pub const OP_TYPE_INT: usize = 17;
    #[allow(dead_code)] pub const OP_TYPE_FLOAT: usize = 18;
    #[allow(dead_code)] pub const OP_TYPE_VECTOR: usize = 19;
    #[allow(dead_code)] pub const OP_TYPE_MATRIX: usize = 20;
    #[allow(dead_code)] pub const OP_TYPE_IMAGE: usize = 21;
    #[allow(dead_code)] pub const OP_TYPE_SAMPLER: usize = 22;
    #[allow(dead_code)] pub const OP_TYPE_SAMPLED_IMAGE: usize = 23;
    #[allow(dead_code)] pub const OP_TYPE_ARRAY: usize = 24;
    #[allow(dead_code)] pub const OP_TYPE_RUNTIME_ARRAY: usize = 25;
    #[allow(dead_code)] pub const OP_TYPE_STRUCT: usize = 26;
    #[allow(dead_code)] pub const OP_TYPE_OPAQUE: usize = 27;
    #[allow(dead_code)] pub const OP_TYPE_POINTER: usize = 28;
    #[allow(dead_code)] pub const OP_TYPE_FUNCTION: usize = 29;
    #[allow(dead_code)] pub const OP_TYPE_EVENT: usize = 30;
    #[allow(dead_code)] pub const OP_TYPE_DEVICE_EVENT: usize = 31;
    #[allow(dead_code)] pub const OP_TYPE_QUEUE: usize = 32;
    #[allow(dead_code)] pub const OP_TYPE_PIPE: usize = 33;
    #[allow(dead_code)] pub const OP_TYPE_FORWARD_POINTER: usize = 34;
    #[allow(dead_code)] pub const OP_CONSTANT: usize = 35;
    #[allow(dead_code)] pub const OP_CONSTANT_COMPOSITE: usize = 36;
    #[allow(dead_code)] pub const OP_FUNCTION: usize = 37;
    #[allow(dead_code)] pub const OP_FUNCTION_PARAMETER: usize = 38;
    #[allow(dead_code)] pub const OP_FUNCTION_END: usize = 39;
    #[allow(dead_code)] pub const OP_VARIABLE: usize = 40;
    #[allow(dead_code)] pub const OP_LOAD: usize = 41;
    #[allow(dead_code)] pub const OP_STORE: usize = 42;
    #[allow(dead_code)] pub const OP_ACCESS_CHAIN: usize = 43;
    #[allow(dead_code)] pub const OP_DECORATE: usize = 44;
    #[allow(dead_code)] pub const OP_MEMBER_DECORATE: usize = 45;
    #[allow(dead_code)] pub const OP_CONVERT_UTO_F: usize = 46;
    #[allow(dead_code)] pub const OP_BITCAST: usize = 47;
    #[allow(dead_code)] pub const OP_IADD: usize = 48;
    #[allow(dead_code)] pub const OP_FADD: usize = 49;
    #[allow(dead_code)] pub const OP_ISUB: usize = 50;
    #[allow(dead_code)] pub const OP_FSUB: usize = 51;
    #[allow(dead_code)] pub const OP_IMUL: usize = 52;
    #[allow(dead_code)] pub const OP_FMUL: usize = 53;
    #[allow(dead_code)] pub const OP_UDIV: usize = 54;
    #[allow(dead_code)] pub const OP_SDIV: usize = 55;
    #[allow(dead_code)] pub const OP_FDIV: usize = 56;
    #[allow(dead_code)] pub const OP_UMOD: usize = 57;
    #[allow(dead_code)] pub const OP_SREM: usize = 58;
    #[allow(dead_code)] pub const OP_SMOD: usize = 59;
    #[allow(dead_code)] pub const OP_FREM: usize = 60;
    #[allow(dead_code)] pub const OP_FMOD: usize = 61;
    #[allow(dead_code)] pub const OP_IADD_CARRY: usize = 62;
    #[allow(dead_code)] pub const OP_ISUB_BORROW: usize = 63;
    #[allow(dead_code)] pub const OP_UMUL_EXTENDED: usize = 64;
    #[allow(dead_code)] pub const OP_SMUL_EXTENDED: usize = 65;
    #[allow(dead_code)] pub const OP_BITWISE_OR: usize = 66;
    #[allow(dead_code)] pub const OP_BITWISE_XOR: usize = 67;
    #[allow(dead_code)] pub const OP_BITWISE_AND: usize = 68;
    #[allow(dead_code)] pub const OP_IEQUAL: usize = 69;
    #[allow(dead_code)] pub const OP_INOT_EQUAL: usize = 70;
    #[allow(dead_code)] pub const OP_UGREATER_THAN: usize = 71;
    #[allow(dead_code)] pub const OP_SGREATER_THAN: usize = 72;
    #[allow(dead_code)] pub const OP_UGREATER_THAN_EQUAL: usize = 73;
    #[allow(dead_code)] pub const OP_SGREATER_THAN_EQUAL: usize = 74;
    #[allow(dead_code)] pub const OP_ULESS_THAN: usize = 75;
    #[allow(dead_code)] pub const OP_SLESS_THAN: usize = 76;
    #[allow(dead_code)] pub const OP_ULESS_THAN_EQUAL: usize = 77;
    #[allow(dead_code)] pub const OP_SLESS_THAN_EQUAL: usize = 78;
    #[allow(dead_code)] pub const OP_FORD_EQUAL: usize = 79;
    #[allow(dead_code)] pub const OP_FUNORD_EQUAL: usize = 80;
    #[allow(dead_code)] pub const OP_FORD_NOT_EQUAL: usize = 81;
    #[allow(dead_code)] pub const OP_FUNORD_NOT_EQUAL: usize = 82;
    #[allow(dead_code)] pub const OP_FORD_LESS_THAN: usize = 83;
    #[allow(dead_code)] pub const OP_FUNORD_LESS_THAN: usize = 84;
    #[allow(dead_code)] pub const OP_FORD_GREATER_THAN: usize = 85;
    #[allow(dead_code)] pub const OP_FUNORD_GREATER_THAN: usize = 86;
    #[allow(dead_code)] pub const OP_FORD_LESS_THAN_EQUAL: usize = 87;
    #[allow(dead_code)] pub const OP_FUNORD_LESS_THAN_EQUAL: usize = 88;
    #[allow(dead_code)] pub const OP_FORD_GREATER_THAN_EQUAL: usize = 89;
    #[allow(dead_code)] pub const OP_FUNORD_GREATER_THAN_EQUAL: usize = 90;
    #[allow(dead_code)] pub const OP_PHI: usize = 91;
    #[allow(dead_code)] pub const OP_LOOP_MERGE: usize = 92;
    #[allow(dead_code)] pub const OP_SELECTION_MERGE: usize = 93;
    #[allow(dead_code)] pub const OP_LABEL: usize = 94;
    #[allow(dead_code)] pub const OP_BRANCH: usize = 95;
    #[allow(dead_code)] pub const OP_BRANCH_CONDITIONAL: usize = 96;
    #[allow(dead_code)] pub const OP_RETURN: usize = 97;
}
