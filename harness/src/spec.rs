//! The SPIR-V 1.0 grammar of the instructions magmaflow supports, written down
//! independently of the code under test (values and names from the SPIR-V 1.0
//! specification).  Everything else in the harness is driven by these tables.
//!
//! Operand codes: R result id, T result type, i id, l literal word, s string,
//! i? s? optional, i* l* rest-of-instruction lists, p* (id,id) pairs,
//! w? optional pair of branch weights, e:X enumerant, e?:X optional enumerant,
//! m:X flag mask, m?:X optional mask, x extended instruction.

pub struct EnumTable { pub name: &'static str, pub err: &'static str, pub values: &'static [(u32, &'static str, &'static str)], pub open: bool }
pub static ENUMS: &[EnumTable] = &[
    EnumTable { name: "SourceLanguage", err: "UnknownSourceLanguage", open: true, values: &[
        (0, "Unknown", ""),
        (1, "ESSL", ""),
        (2, "GLSL", ""),
        (3, "OpenCL_C", ""),
        (4, "OpenCL_CPP", ""),
    ] },
    EnumTable { name: "AddressingModel", err: "UnknownAddressingModel", open: false, values: &[
        (0, "Logical", ""),
        (1, "Physical32", ""),
        (2, "Physical64", ""),
    ] },
    EnumTable { name: "MemoryModel", err: "UnknownMemoryModel", open: false, values: &[
        (0, "Simple", ""),
        (1, "GLSL450", ""),
        (2, "OpenCL", ""),
    ] },
    EnumTable { name: "ExecutionModel", err: "UnknownExecutionModel", open: false, values: &[
        (0, "Vertex", ""),
        (1, "TessellationControl", ""),
        (2, "TessellationEvaluation", ""),
        (3, "Geometry", ""),
        (4, "Fragment", ""),
        (5, "GLCompute", ""),
        (6, "Kernel", ""),
    ] },
    EnumTable { name: "ExecutionMode", err: "UnknownExecutionMode", open: false, values: &[
        (0, "Invocations", "l"),
        (1, "SpacingEqual", ""),
        (2, "SpacingFractionalEven", ""),
        (3, "SpacingFractionalOdd", ""),
        (4, "VertexOrderCw", ""),
        (5, "VertexOrderCcw", ""),
        (6, "PixelCenterInteger", ""),
        (7, "OriginUpperLeft", ""),
        (8, "OriginLowerLeft", ""),
        (9, "EarlyFragmentTests", ""),
        (10, "PointMode", ""),
        (11, "Xfb", ""),
        (12, "DepthReplacing", ""),
        (14, "DepthGreater", ""),
        (15, "DepthLess", ""),
        (16, "DepthUnchanged", ""),
        (17, "LocalSize", "l l l"),
        (18, "LocalSizeHint", "l l l"),
        (19, "InputPoints", ""),
        (20, "InputLines", ""),
        (21, "InputLinesAdjacency", ""),
        (22, "Triangles", ""),
        (23, "InputTrianglesAdjacency", ""),
        (24, "Quads", ""),
        (25, "Isolines", ""),
        (26, "OutputVertices", "l"),
        (27, "OutputPoints", ""),
        (28, "OutputLineStrip", ""),
        (29, "OutputTriangleStrip", ""),
        (30, "VecTypeHint", "i"),
        (31, "ContractionOff", ""),
    ] },
    EnumTable { name: "Capability", err: "UnknownCapability", open: false, values: &[
        (0, "Matrix", ""),
        (1, "Shader", ""),
        (2, "Geometry", ""),
        (3, "Tessellation", ""),
        (4, "Addresses", ""),
        (5, "Linkage", ""),
        (6, "Kernel", ""),
        (7, "Vector16", ""),
        (8, "Float16Buffer", ""),
        (9, "Float16", ""),
        (10, "Float64", ""),
        (11, "Int64", ""),
        (12, "Int64Atomics", ""),
        (13, "ImageBasic", ""),
        (14, "ImageReadWrite", ""),
        (15, "ImageMipmap", ""),
        (17, "Pipes", ""),
        (18, "Groups", ""),
        (19, "DeviceEnqueue", ""),
        (20, "LiteralSampler", ""),
        (21, "AtomicStorage", ""),
        (22, "Int16", ""),
        (23, "TessellationPointSize", ""),
        (24, "GeometryPointSize", ""),
        (25, "ImageGatherExtended", ""),
        (27, "StorageImageMultisample", ""),
        (28, "UniformBufferArrayDynamicIndexing", ""),
        (29, "SampledImageArrayDynamicIndexing", ""),
        (30, "StorageBufferArrayDynamicIndexing", ""),
        (31, "StorageImageArrayDynamicIndexing", ""),
        (32, "ClipDistance", ""),
        (33, "CullDistance", ""),
        (34, "ImageCubeArray", ""),
        (35, "SampleRateShading", ""),
        (36, "ImageRect", ""),
        (37, "SampledRect", ""),
        (38, "GenericPointer", ""),
        (39, "Int8", ""),
        (40, "InputAttachment", ""),
        (41, "SparseResidency", ""),
        (42, "MinLod", ""),
        (43, "Sampled1D", ""),
        (44, "Image1D", ""),
        (45, "SampledCubeArray", ""),
        (46, "SampledBuffer", ""),
        (47, "ImageBuffer", ""),
        (48, "ImageMSArray", ""),
        (49, "StorageImageExtendedFormats", ""),
        (50, "ImageQuery", ""),
        (51, "DerivativeControl", ""),
        (52, "InterpolationFunction", ""),
        (53, "TransformFeedback", ""),
        (54, "GeometryStreams", ""),
        (55, "StorageImageReadWithoutFormat", ""),
        (56, "StorageImageWriteWithoutFormat", ""),
        (57, "MultiViewport", ""),
    ] },
    EnumTable { name: "Signedness", err: "UnknownSignedness", open: false, values: &[
        (0, "0", ""),
        (1, "1", ""),
    ] },
    EnumTable { name: "Dim", err: "UnknownDim", open: false, values: &[
        (0, "1D", ""),
        (1, "2D", ""),
        (2, "3D", ""),
        (3, "Cube", ""),
        (4, "Rect", ""),
        (5, "Buffer", ""),
        (6, "SubpassData", ""),
    ] },
    EnumTable { name: "DepthStatus", err: "UnknownDepthStatus", open: false, values: &[
        (0, "0", ""),
        (1, "1", ""),
        (2, "2", ""),
    ] },
    EnumTable { name: "Arrayed", err: "UnknownArrayed", open: false, values: &[
        (0, "0", ""),
        (1, "1", ""),
    ] },
    EnumTable { name: "MS", err: "UnknownMS", open: false, values: &[
        (0, "0", ""),
        (1, "1", ""),
    ] },
    EnumTable { name: "SampledStatus", err: "UnknownSampledStatus", open: false, values: &[
        (0, "0", ""),
        (1, "1", ""),
        (2, "2", ""),
    ] },
    EnumTable { name: "ImageFormat", err: "UnknownImageFormat", open: false, values: &[
        (0, "Unknown", ""),
        (1, "Rgba32f", ""),
        (2, "Rgba16f", ""),
        (3, "R32f", ""),
        (4, "Rgba8", ""),
        (5, "Rgba8Snorm", ""),
        (6, "Rg32f", ""),
        (7, "Rg16f", ""),
        (8, "R11fG11fB10f", ""),
        (9, "R16f", ""),
        (10, "Rgba16", ""),
        (11, "Rgb10A2", ""),
        (12, "Rg16", ""),
        (13, "Rg8", ""),
        (14, "R16", ""),
        (15, "R8", ""),
        (16, "Rgba16Snorm", ""),
        (17, "Rg16Snorm", ""),
        (18, "Rg8Snorm", ""),
        (19, "R16Snorm", ""),
        (20, "R8Snorm", ""),
        (21, "Rgba32i", ""),
        (22, "Rgba16i", ""),
        (23, "Rgba8i", ""),
        (24, "R32i", ""),
        (25, "Rg32i", ""),
        (26, "Rg16i", ""),
        (27, "Rg8i", ""),
        (28, "R16i", ""),
        (29, "R8i", ""),
        (30, "Rgba32ui", ""),
        (31, "Rgba16ui", ""),
        (32, "Rgba8ui", ""),
        (33, "R32ui", ""),
        (34, "Rgb10a2ui", ""),
        (35, "Rg32ui", ""),
        (36, "Rg16ui", ""),
        (37, "Rg8ui", ""),
        (38, "R16ui", ""),
        (39, "R8ui", ""),
    ] },
    EnumTable { name: "AccessQualifier", err: "UnknownAccessQualifier", open: false, values: &[
        (0, "ReadOnly", ""),
        (1, "WriteOnly", ""),
        (2, "ReadWrite", ""),
    ] },
    EnumTable { name: "StorageClass", err: "UnknownStorageClass", open: false, values: &[
        (0, "UniformConstant", ""),
        (1, "Input", ""),
        (2, "Uniform", ""),
        (3, "Output", ""),
        (4, "Workgroup", ""),
        (5, "CrossWorkgroup", ""),
        (6, "Private", ""),
        (7, "Function", ""),
        (8, "Generic", ""),
        (9, "PushConstant", ""),
        (10, "AtomicCounter", ""),
        (11, "Image", ""),
    ] },
    EnumTable { name: "BuiltIn", err: "UnknownBuiltIn", open: false, values: &[
        (0, "Position", ""),
        (1, "PointSize", ""),
        (3, "ClipDistance", ""),
        (4, "CullDistance", ""),
        (5, "VertexId", ""),
        (6, "InstanceId", ""),
        (7, "PrimitiveId", ""),
        (8, "InvocationId", ""),
        (9, "Layer", ""),
        (10, "ViewportIndex", ""),
        (11, "TessLevelOuter", ""),
        (12, "TessLevelInner", ""),
        (13, "TessCoord", ""),
        (14, "PatchVertices", ""),
        (15, "FragCoord", ""),
        (16, "PointCoord", ""),
        (17, "FrontFacing", ""),
        (18, "SampleId", ""),
        (19, "SamplePosition", ""),
        (20, "SampleMask", ""),
        (22, "FragDepth", ""),
        (23, "HelperInvocation", ""),
        (24, "NumWorkgroups", ""),
        (25, "WorkgroupSize", ""),
        (26, "WorkgroupId", ""),
        (27, "LocalInvocationId", ""),
        (28, "GlobalInvocationId", ""),
        (29, "LocalInvocationIndex", ""),
        (30, "WorkDim", ""),
        (31, "GlobalSize", ""),
        (32, "EnqueuedWorkgroupSize", ""),
        (33, "GlobalOffset", ""),
        (34, "GlobalLinearId", ""),
        (36, "SubgroupSize", ""),
        (37, "SubgroupMaxSize", ""),
        (38, "NumSubgroups", ""),
        (39, "NumEnqueuedSubgroups", ""),
        (40, "SubgroupId", ""),
        (41, "SubgroupLocalInvocationId", ""),
        (42, "VertexIndex", ""),
        (43, "InstanceIndex", ""),
    ] },
    EnumTable { name: "FunctionParameterAttribute", err: "UnknownFunctionParameterAttribute", open: false, values: &[
        (0, "Zext", ""),
        (1, "Sext", ""),
        (2, "ByVal", ""),
        (3, "Sret", ""),
        (4, "NoAlias", ""),
        (5, "NoCapture", ""),
        (6, "NoWrite", ""),
        (7, "NoReadWrite", ""),
    ] },
    EnumTable { name: "FpRoundingMode", err: "UnknownFpRoundingMode", open: false, values: &[
        (0, "RTE", ""),
        (1, "RTZ", ""),
        (2, "RTP", ""),
        (3, "RTN", ""),
    ] },
    EnumTable { name: "LinkageType", err: "UnknownLinkageType", open: false, values: &[
        (0, "Export", ""),
        (1, "Import", ""),
    ] },
    EnumTable { name: "Decoration", err: "UnknownDecoration", open: false, values: &[
        (0, "RelaxedPrecision", ""),
        (1, "SpecId", "l"),
        (2, "Block", ""),
        (3, "BufferBlock", ""),
        (4, "RowMajor", ""),
        (5, "ColMajor", ""),
        (6, "ArrayStride", "l"),
        (7, "MatrixStride", "l"),
        (8, "GLSLShared", ""),
        (9, "GLSLPacked", ""),
        (10, "CPacked", ""),
        (11, "BuiltIn", "e:BuiltIn"),
        (13, "NoPerspective", ""),
        (14, "Flat", ""),
        (15, "Patch", ""),
        (16, "Centroid", ""),
        (17, "Sample", ""),
        (18, "Invariant", ""),
        (19, "Restrict", ""),
        (20, "Aliased", ""),
        (21, "Volatile", ""),
        (22, "Constant", ""),
        (23, "Coherent", ""),
        (24, "NonWritable", ""),
        (25, "NonReadable", ""),
        (26, "Uniform", ""),
        (28, "SaturatedConversion", ""),
        (29, "Stream", "l"),
        (30, "Location", "l"),
        (31, "Component", "l"),
        (32, "Index", "l"),
        (33, "Binding", "l"),
        (34, "DescriptorSet", "l"),
        (35, "Offset", "l"),
        (36, "XfbBuffer", "l"),
        (37, "XfbStride", "l"),
        (38, "FuncParamAttr", "e:FunctionParameterAttribute"),
        (39, "FPRoundingMode", "e:FpRoundingMode"),
        (40, "FPFastMathMode", "m:FpFastMathMode"),
        (41, "LinkageAttributes", "s e:LinkageType"),
        (42, "NoContraction", ""),
        (43, "InputAttachmentIndex", "l"),
        (44, "Alignment", "l"),
    ] },
];
pub struct MaskTable { pub name: &'static str, pub err: &'static str, /** (bit, name, number of literal parameters) */ pub bits: &'static [(u32, &'static str, u32)] }
pub static MASKS: &[MaskTable] = &[
    MaskTable { name: "FunctionControl", err: "UnknownFunctionControl", bits: &[(1, "Inline", 0), (2, "DontInline", 0), (4, "Pure", 0), (8, "Const", 0)] },
    MaskTable { name: "MemoryAccess", err: "UnknownMemoryAccess", bits: &[(1, "Volatile", 0), (2, "Aligned", 1), (4, "Nontemporal", 0)] },
    MaskTable { name: "FpFastMathMode", err: "UnknownFpFastMathMode", bits: &[(1, "NotNaN", 0), (2, "NotInf", 0), (4, "NSZ", 0), (8, "AllowRecip", 0), (16, "Fast", 0)] },
    MaskTable { name: "LoopControl", err: "UnknownLoopControl", bits: &[(1, "Unroll", 0), (2, "DontUnroll", 0), (4, "DependencyInfinite", 0), (8, "DependencyLength", 1)] },
    MaskTable { name: "SelectionControl", err: "UnknownSelectionControl", bits: &[(1, "Flatten", 0), (2, "DontFlatten", 0)] },
];
pub static OPS: &[(u16, &str, &str)] = &[
    (0, "OpNop", ""),
    (1, "OpUndef", "T R"),
    (2, "OpSourceContinued", "s"),
    (3, "OpSource", "e:SourceLanguage l i? s?"),
    (4, "OpSourceExtension", "s"),
    (5, "OpName", "i s"),
    (6, "OpMemberName", "i l s"),
    (7, "OpString", "R s"),
    (10, "OpExtension", "s"),
    (11, "OpExtInstImport", "R s"),
    (12, "OpExtInst", "T R i x"),
    (14, "OpMemoryModel", "e:AddressingModel e:MemoryModel"),
    (15, "OpEntryPoint", "e:ExecutionModel i s i*"),
    (16, "OpExecutionMode", "i e:ExecutionMode"),
    (17, "OpCapability", "e:Capability"),
    (19, "OpTypeVoid", "R"),
    (20, "OpTypeBool", "R"),
    (21, "OpTypeInt", "R l e:Signedness"),
    (22, "OpTypeFloat", "R l"),
    (23, "OpTypeVector", "R i l"),
    (24, "OpTypeMatrix", "R i l"),
    (25, "OpTypeImage", "R i e:Dim e:DepthStatus e:Arrayed e:MS e:SampledStatus e:ImageFormat e?:AccessQualifier"),
    (26, "OpTypeSampler", "R"),
    (27, "OpTypeSampledImage", "R i"),
    (28, "OpTypeArray", "R i i"),
    (29, "OpTypeRuntimeArray", "R i"),
    (30, "OpTypeStruct", "R i*"),
    (31, "OpTypeOpaque", "R s"),
    (32, "OpTypePointer", "R e:StorageClass i"),
    (33, "OpTypeFunction", "R i i*"),
    (43, "OpConstant", "T R l*"),
    (44, "OpConstantComposite", "T R i*"),
    (54, "OpFunction", "T R m:FunctionControl i"),
    (55, "OpFunctionParameter", "T R"),
    (56, "OpFunctionEnd", ""),
    (59, "OpVariable", "T R e:StorageClass i?"),
    (61, "OpLoad", "T R i m?:MemoryAccess"),
    (62, "OpStore", "i i m?:MemoryAccess"),
    (65, "OpAccessChain", "T R i i*"),
    (71, "OpDecorate", "i e:Decoration"),
    (72, "OpMemberDecorate", "i l e:Decoration"),
    (112, "OpConvertUToF", "T R i"),
    (124, "OpBitcast", "T R i"),
    (128, "OpIAdd", "T R i i"),
    (129, "OpFAdd", "T R i i"),
    (130, "OpISub", "T R i i"),
    (131, "OpFSub", "T R i i"),
    (132, "OpIMul", "T R i i"),
    (133, "OpFMul", "T R i i"),
    (134, "OpUDiv", "T R i i"),
    (135, "OpSDiv", "T R i i"),
    (136, "OpFDiv", "T R i i"),
    (137, "OpUMod", "T R i i"),
    (138, "OpSRem", "T R i i"),
    (139, "OpSMod", "T R i i"),
    (140, "OpFRem", "T R i i"),
    (141, "OpFMod", "T R i i"),
    (149, "OpIAddCarry", "T R i i"),
    (150, "OpISubBorrow", "T R i i"),
    (151, "OpUMulExtended", "T R i i"),
    (152, "OpSMulExtended", "T R i i"),
    (170, "OpIEqual", "T R i i"),
    (171, "OpINotEqual", "T R i i"),
    (172, "OpUGreaterThan", "T R i i"),
    (173, "OpSGreaterThan", "T R i i"),
    (174, "OpUGreaterThanEqual", "T R i i"),
    (175, "OpSGreaterThanEqual", "T R i i"),
    (176, "OpULessThan", "T R i i"),
    (177, "OpSLessThan", "T R i i"),
    (178, "OpULessThanEqual", "T R i i"),
    (179, "OpSLessThanEqual", "T R i i"),
    (180, "OpFOrdEqual", "T R i i"),
    (181, "OpFUnordEqual", "T R i i"),
    (182, "OpFOrdNotEqual", "T R i i"),
    (183, "OpFUnordNotEqual", "T R i i"),
    (184, "OpFOrdLessThan", "T R i i"),
    (185, "OpFUnordLessThan", "T R i i"),
    (186, "OpFOrdGreaterThan", "T R i i"),
    (187, "OpFUnordGreaterThan", "T R i i"),
    (188, "OpFOrdLessThanEqual", "T R i i"),
    (189, "OpFUnordLessThanEqual", "T R i i"),
    (190, "OpFOrdGreaterThanEqual", "T R i i"),
    (191, "OpFUnordGreaterThanEqual", "T R i i"),
    (197, "OpBitwiseOr", "T R i i"),
    (198, "OpBitwiseXor", "T R i i"),
    (199, "OpBitwiseAnd", "T R i i"),
    (245, "OpPhi", "T R p*"),
    (246, "OpLoopMerge", "i i m:LoopControl"),
    (247, "OpSelectionMerge", "i m:SelectionControl"),
    (248, "OpLabel", "R"),
    (249, "OpBranch", "i"),
    (250, "OpBranchConditional", "i i i w?"),
    (253, "OpReturn", ""),
];
/// SPIR-V 1.0 instructions the reader refuses by name.
pub static UNIMPLEMENTED: &[(u16, &str)] = &[
    (8, "OpLine"),
    (41, "OpConstantTrue"),
    (42, "OpConstantFalse"),
    (45, "OpConstantSampler"),
    (46, "OpConstantNull"),
    (48, "OpSpecConstantTrue"),
    (49, "OpSpecConstantFalse"),
    (50, "OpSpecConstant"),
    (51, "OpSpecConstantComposite"),
    (52, "OpSpecConstantOp"),
    (57, "OpFunctionCall"),
    (60, "OpImageTexelPointer"),
    (63, "OpCopyMemory"),
    (64, "OpCopyMemorySized"),
    (66, "OpInBoundsAccessChain"),
    (67, "OpPtrAccessChain"),
    (68, "OpArrayLength"),
    (69, "OpGenericPtrMemSemantics"),
    (70, "OpInBoundsPtrAccessChain"),
    (77, "OpVectorExtractDynamic"),
    (78, "OpVectorInsertDynamic"),
    (79, "OpVectorShuffle"),
    (80, "OpCompositeConstruct"),
    (81, "OpCompositeExtract"),
    (82, "OpCompositeInsert"),
    (83, "OpCopyObject"),
    (84, "OpTranspose"),
    (86, "OpSampledImage"),
    (87, "OpImageSampleImplicitLod"),
    (88, "OpImageSampleExplicitLod"),
    (89, "OpImageSampleDrefImplicitLod"),
    (90, "OpImageSampleDrefExplicitLod"),
    (91, "OpImageSampleProjImplicitLod"),
    (92, "OpImageSampleProjExplicitLod"),
    (93, "OpImageSampleProjDrefImplicitLod"),
    (94, "OpImageSampleProjDrefExplicitLod"),
    (95, "OpImageFetch"),
    (96, "OpImageGather"),
    (97, "OpImageDrefGather"),
    (98, "OpImageRead"),
    (99, "OpImageWrite"),
    (100, "OpImage"),
    (101, "OpImageQueryFormat"),
    (102, "OpImageQueryOrder"),
    (103, "OpImageQuerySizeLod"),
    (104, "OpImageQuerySize"),
    (105, "OpImageQueryLod"),
    (106, "OpImageQueryLevels"),
    (107, "OpImageQuerySamples"),
    (109, "OpConvertFToU"),
    (110, "OpConvertFToS"),
    (111, "OpConvertSToF"),
    (113, "OpUConvert"),
    (114, "OpSConvert"),
    (115, "OpFConvert"),
    (116, "OpQuantizeToF16"),
    (117, "OpConvertPtrToU"),
    (118, "OpSatConvertSToU"),
    (119, "OpSatConvertUToS"),
    (120, "OpConvertUToPtr"),
    (121, "OpPtrCastToGeneric"),
    (122, "OpGenericCastToPtr"),
    (123, "OpGenericCastToPtrExplicit"),
    (126, "OpSNegate"),
    (127, "OpFNegate"),
    (142, "OpVectorTimesScalar"),
    (143, "OpMatrixTimesScalar"),
    (144, "OpVectorTimesMatrix"),
    (145, "OpMatrixTimesVector"),
    (146, "OpMatrixTimesMatrix"),
    (147, "OpOuterProduct"),
    (148, "OpDot"),
    (154, "OpAny"),
    (155, "OpAll"),
    (156, "OpIsNan"),
    (157, "OpIsInf"),
    (158, "OpIsFinite"),
    (159, "OpIsNormal"),
    (160, "OpSignBitSet"),
    (161, "OpLessOrGreater"),
    (162, "OpOrdered"),
    (163, "OpUnordered"),
    (164, "OpLogicalEqual"),
    (165, "OpLogicalNotEqual"),
    (166, "OpLogicalOr"),
    (167, "OpLogicalAnd"),
    (168, "OpLogicalNot"),
    (169, "OpSelect"),
    (194, "OpShiftRightLogical"),
    (195, "OpShiftRightArithmetic"),
    (196, "OpShiftLeftLogical"),
    (200, "OpNot"),
    (201, "OpBitFieldInsert"),
    (202, "OpBitFieldSExtract"),
    (203, "OpBitFieldUExtract"),
    (204, "OpBitReverse"),
    (205, "OpBitCount"),
    (207, "OpDPdx"),
    (208, "OpDPdy"),
    (209, "OpFwidth"),
    (210, "OpDPdxFine"),
    (211, "OpDPdyFine"),
    (212, "OpFwidthFine"),
    (213, "OpDPdxCoarse"),
    (214, "OpDPdyCoarse"),
    (215, "OpFwidthCoarse"),
    (218, "OpEmitVertex"),
    (219, "OpEndPrimitive"),
    (220, "OpEmitStreamVertex"),
    (221, "OpEndStreamPrimitive"),
    (224, "OpControlBarrier"),
    (225, "OpMemoryBarrier"),
    (227, "OpAtomicLoad"),
    (228, "OpAtomicStore"),
    (229, "OpAtomicExchange"),
    (230, "OpAtomicCompareExchange"),
    (231, "OpAtomicCompareExchangeWeak"),
    (232, "OpAtomicIIncrement"),
    (233, "OpAtomicIDecrement"),
    (234, "OpAtomicIAdd"),
    (235, "OpAtomicISub"),
    (236, "OpAtomicSMin"),
    (237, "OpAtomicUMin"),
    (238, "OpAtomicSMax"),
    (239, "OpAtomicUMax"),
    (240, "OpAtomicAnd"),
    (241, "OpAtomicOr"),
    (242, "OpAtomicXor"),
    (251, "OpSwitch"),
    (252, "OpKill"),
    (254, "OpReturnValue"),
    (255, "OpUnreachable"),
    (256, "OpLifetimeStart"),
    (257, "OpLifetimeStop"),
    (259, "OpGroupAsyncCopy"),
    (260, "OpGroupWaitEvents"),
    (261, "OpGroupAll"),
    (262, "OpGroupAny"),
    (263, "OpGroupBroadcast"),
    (264, "OpGroupIAdd"),
    (265, "OpGroupFAdd"),
    (266, "OpGroupFMin"),
    (267, "OpGroupUMin"),
    (268, "OpGroupSMin"),
    (269, "OpGroupFMax"),
    (270, "OpGroupUMax"),
    (271, "OpGroupSMax"),
    (274, "OpReadPipe"),
    (275, "OpWritePipe"),
    (276, "OpReservedReadPipe"),
    (277, "OpReservedWritePipe"),
    (278, "OpReserveReadPipePackets"),
    (279, "OpReserveWritePipePackets"),
    (280, "OpCommitReadPipe"),
    (281, "OpCommitWritePipe"),
    (282, "OpIsValidReserveId"),
    (283, "OpGetNumPipePackets"),
    (284, "OpGetMaxPipePackets"),
    (285, "OpGroupReserveReadPipePackets"),
    (286, "OpGroupReserveWritePipePackets"),
    (287, "OpGroupCommitReadPipe"),
    (288, "OpGroupCommitWritePipe"),
    (291, "OpEnqueueMarker"),
    (292, "OpEnqueueKernel"),
    (293, "OpGetKernelNDrangeSubGroupCount"),
    (294, "OpGetKernelNDrangeMaxSubGroupSize"),
    (295, "OpGetKernelWorkGroupSize"),
    (296, "OpGetKernelPreferredWorkGroupSizeMultiple"),
    (297, "OpRetainEvent"),
    (298, "OpReleaseEvent"),
    (299, "OpCreateUserEvent"),
    (300, "OpIsValidEvent"),
    (301, "OpSetUserEventStatus"),
    (302, "OpCaptureEventProfilingInfo"),
    (303, "OpGetDefaultQueue"),
    (304, "OpBuildNDRange"),
    (305, "OpImageSparseSampleImplicitLod"),
    (306, "OpImageSparseSampleExplicitLod"),
    (307, "OpImageSparseSampleDrefImplicitLod"),
    (308, "OpImageSparseSampleDrefExplicitLod"),
    (309, "OpImageSparseSampleProjImplicitLod"),
    (310, "OpImageSparseSampleProjExplicitLod"),
    (311, "OpImageSparseSampleProjDrefImplicitLod"),
    (312, "OpImageSparseSampleProjDrefExplicitLod"),
    (313, "OpImageSparseFetch"),
    (314, "OpImageSparseGather"),
    (315, "OpImageSparseDrefGather"),
    (316, "OpImageSparseTexelsResident"),
    (317, "OpNoLine"),
    (318, "OpAtomicFlagTestAndSet"),
    (319, "OpAtomicFlagClear"),
    (320, "OpImageSparseRead"),
];
/// SPIR-V 1.0 instructions the reader knows nothing of: refused by number (naming them correctly would be fine too).
pub static UNLISTED: &[(u16, &str)] = &[
    (34, "OpTypeEvent"),
    (35, "OpTypeDeviceEvent"),
    (36, "OpTypeReserveId"),
    (37, "OpTypeQueue"),
    (38, "OpTypePipe"),
    (39, "OpTypeForwardPointer"),
    (73, "OpDecorationGroup"),
    (74, "OpGroupDecorate"),
    (75, "OpGroupMemberDecorate"),
];

/// Instructions the reader does not produce but a module may be built with.
pub static BUILT: &[(u16, &str, &str)] = &[
    (34, "OpTypeEvent", "R"),
    (35, "OpTypeDeviceEvent", "R"),
    (37, "OpTypeQueue", "R"),
    (38, "OpTypePipe", "R e:AccessQualifier"),
    (39, "OpTypeForwardPointer", "i e:StorageClass"),
];

pub fn enum_index(name: &str) -> usize {
    ENUMS.iter().position(|e| e.name == name).expect("enum table")
}
pub fn mask_index(name: &str) -> usize {
    MASKS.iter().position(|e| e.name == name).expect("mask table")
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Res, Id, Lit, Str, En(usize), Mask(usize), Weights, Ext,
    Opt(Box<K>), Ids, Lits, Pairs,
}

pub fn parse_kinds(s: &str) -> Vec<K> {
    s.split_whitespace()
        .map(|t| match t {
            "R" => K::Res,
            "T" | "i" => K::Id,
            "l" => K::Lit,
            "s" => K::Str,
            "i?" => K::Opt(Box::new(K::Id)),
            "s?" => K::Opt(Box::new(K::Str)),
            "w?" => K::Opt(Box::new(K::Weights)),
            "i*" => K::Ids,
            "l*" => K::Lits,
            "p*" => K::Pairs,
            "x" => K::Ext,
            _ => {
                if let Some(n) = t.strip_prefix("e:") { K::En(enum_index(n)) }
                else if let Some(n) = t.strip_prefix("e?:") { K::Opt(Box::new(K::En(enum_index(n)))) }
                else if let Some(n) = t.strip_prefix("m:") { K::Mask(mask_index(n)) }
                else if let Some(n) = t.strip_prefix("m?:") { K::Opt(Box::new(K::Mask(mask_index(n)))) }
                else { panic!("operand code {}", t) }
            }
        })
        .collect()
}

pub struct OpSpec { pub opcode: u16, pub name: &'static str, pub kinds: Vec<K> }

pub struct Spec {
    pub ops: Vec<OpSpec>,
    pub built: Vec<OpSpec>,
    by_code: Vec<u16>,
    /// parameter kinds per enum table, per entry
    pub params: Vec<Vec<Vec<K>>>,
}

impl Spec {
    fn build() -> Spec {
        let ops: Vec<OpSpec> = OPS.iter().map(|&(c, n, k)| OpSpec { opcode: c, name: n, kinds: parse_kinds(k) }).collect();
        let built: Vec<OpSpec> = BUILT.iter().map(|&(c, n, k)| OpSpec { opcode: c, name: n, kinds: parse_kinds(k) }).collect();
        let mut by_code = vec![u16::MAX; 65536];
        for (i, o) in ops.iter().enumerate() { by_code[o.opcode as usize] = i as u16; }
        let params = ENUMS.iter().map(|e| e.values.iter().map(|v| parse_kinds(v.2)).collect()).collect();
        Spec { ops, built, by_code, params }
    }
    pub fn op(&self, code: u16) -> Option<&OpSpec> {
        let i = self.by_code[code as usize];
        if i == u16::MAX { None } else { Some(&self.ops[i as usize]) }
    }
    pub fn built(&self, code: u16) -> Option<&OpSpec> {
        self.built.iter().find(|o| o.opcode == code)
    }
    pub fn en(&self, t: usize, v: u32) -> Option<(&'static str, &[K])> {
        let p = ENUMS[t].values.iter().position(|e| e.0 == v)?;
        Some((ENUMS[t].values[p].1, &self.params[t][p]))
    }
}

pub fn spec() -> &'static Spec {
    static S: std::sync::OnceLock<Spec> = std::sync::OnceLock::new();
    S.get_or_init(Spec::build)
}

pub fn mask_known(t: usize) -> u32 { MASKS[t].bits.iter().map(|b| b.0).fold(0, |a, b| a | b) }
pub fn mask_params(t: usize, bits: u32) -> u32 { MASKS[t].bits.iter().filter(|b| bits & b.0 != 0).map(|b| b.2).sum() }
