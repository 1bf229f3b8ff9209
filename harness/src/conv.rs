//! From the decoded structures of magmaflow back to abstract instructions,
//! through their public fields only.
#![allow(unreachable_patterns)]

use crate::extsets::RecInst;
use crate::model::*;
use crate::spec::*;
use magmaflow::glsl450;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::Core;
use magmaflow::spv::types::*;

/// Value of a variant the harness does not know.
pub const BAD: u32 = 0xDEAD_BEEF;

macro_rules! conv_enum {
    ($f:ident, $t:ident { $($p:pat => $v:expr,)* }) => {
        pub fn $f(x: &$t) -> u32 { match x { $($p => $v,)* _ => BAD } }
    };
}

// Variant -> value, one arm per variant; unknown variants (added later) map to BAD.
conv_enum!(sourcelanguage_v, SourceLanguage {
    SourceLanguage::Unknown => 0,
    SourceLanguage::Essl => 1,
    SourceLanguage::Glsl => 2,
    SourceLanguage::OpenCL_C => 3,
    SourceLanguage::OpenCL_Cpp => 4,
});
conv_enum!(addressingmodel_v, AddressingModel {
    AddressingModel::Logical => 0,
    AddressingModel::Physical32 => 1,
    AddressingModel::Physical64 => 2,
});
conv_enum!(memorymodel_v, MemoryModel {
    MemoryModel::Simple => 0,
    MemoryModel::Glsl450 => 1,
    MemoryModel::OpenCL => 2,
});
conv_enum!(executionmodel_v, ExecutionModel {
    ExecutionModel::Vertex => 0,
    ExecutionModel::TesselationControl => 1,
    ExecutionModel::TesselationEvaluation => 2,
    ExecutionModel::Geometry => 3,
    ExecutionModel::Fragment => 4,
    ExecutionModel::GlCompute => 5,
    ExecutionModel::Kernel => 6,
});
conv_enum!(executionmode_v, ExecutionMode {
    ExecutionMode::Invocations(..) => 0,
    ExecutionMode::SpacingEqual => 1,
    ExecutionMode::SpacingFractionalEven => 2,
    ExecutionMode::SpacingFractionalOdd => 3,
    ExecutionMode::VertexOrderCw => 4,
    ExecutionMode::VertexOrderCcw => 5,
    ExecutionMode::PixelCenterInteger => 6,
    ExecutionMode::OriginUpperLeft => 7,
    ExecutionMode::OriginLowerLeft => 8,
    ExecutionMode::EarlyFragmentTests => 9,
    ExecutionMode::PointMode => 10,
    ExecutionMode::Xfb => 11,
    ExecutionMode::DepthReplacing => 12,
    ExecutionMode::DepthGreater => 14,
    ExecutionMode::DepthLess => 15,
    ExecutionMode::DepthUnchanged => 16,
    ExecutionMode::LocalSize(..) => 17,
    ExecutionMode::LocalSizeHint(..) => 18,
    ExecutionMode::InputPoints => 19,
    ExecutionMode::InputLines => 20,
    ExecutionMode::InputLinesAdjacency => 21,
    ExecutionMode::Triangles => 22,
    ExecutionMode::InputTrianglesAdjacency => 23,
    ExecutionMode::Quads => 24,
    ExecutionMode::Isolines => 25,
    ExecutionMode::OutputVerticies(..) => 26,
    ExecutionMode::OutputPoints => 27,
    ExecutionMode::OutputLineStrip => 28,
    ExecutionMode::OutputTriangleStrip => 29,
    ExecutionMode::VecTypeHint(..) => 30,
    ExecutionMode::ContractionOff => 31,
});
conv_enum!(capability_v, Capability {
    Capability::Matrix => 0,
    Capability::Shader => 1,
    Capability::Geometry => 2,
    Capability::Tessellation => 3,
    Capability::Addresses => 4,
    Capability::Linkage => 5,
    Capability::Kernel => 6,
    Capability::Vector16 => 7,
    Capability::Float16Buffer => 8,
    Capability::Float16 => 9,
    Capability::Float64 => 10,
    Capability::Int64 => 11,
    Capability::Int64Atomics => 12,
    Capability::ImageBasic => 13,
    Capability::ImageReadWrite => 14,
    Capability::ImageMipmap => 15,
    Capability::Pipes => 17,
    Capability::Groups => 18,
    Capability::DeviceEnqueue => 19,
    Capability::LiteralSampler => 20,
    Capability::AtomicStorage => 21,
    Capability::Int16 => 22,
    Capability::TessellationPointSize => 23,
    Capability::GeometryPointSize => 24,
    Capability::ImageGatherExtended => 25,
    Capability::StorageImageMultisample => 27,
    Capability::UniformBufferArrayDynamicIndexing => 28,
    Capability::SampledImageArrayDynamicIndexing => 29,
    Capability::StorageBufferArrayDynamicIndexing => 30,
    Capability::StorageImageArrayDynamicIndexing => 31,
    Capability::ClipDistance => 32,
    Capability::CullDistance => 33,
    Capability::ImageCubeArray => 34,
    Capability::SampleRateShading => 35,
    Capability::ImageRect => 36,
    Capability::SampledRect => 37,
    Capability::GenericPointer => 38,
    Capability::Int8 => 39,
    Capability::InputAttachment => 40,
    Capability::SparseResidency => 41,
    Capability::MinLod => 42,
    Capability::Sampled1D => 43,
    Capability::Image1D => 44,
    Capability::SampledCubeArray => 45,
    Capability::SampledBuffer => 46,
    Capability::ImageBuffer => 47,
    Capability::ImageMSArray => 48,
    Capability::StorageImageExtendedFormats => 49,
    Capability::ImageQuery => 50,
    Capability::DerivativeControl => 51,
    Capability::InterpolationFunction => 52,
    Capability::TransformFeedback => 53,
    Capability::GeometryStreams => 54,
    Capability::StorageImageReadWithoutFormat => 55,
    Capability::StorageImageWriteWithoutFormat => 56,
    Capability::MultiViewport => 57,
});
conv_enum!(signedness_v, Signedness {
    Signedness::UnsignedOrNone => 0,
    Signedness::Signed => 1,
});
conv_enum!(dim_v, Dim {
    Dim::Tex1D => 0,
    Dim::Tex2D => 1,
    Dim::Tex3D => 2,
    Dim::Cube => 3,
    Dim::Rect => 4,
    Dim::Buffer => 5,
    Dim::SubpassData => 6,
});
conv_enum!(depthstatus_v, DepthStatus {
    DepthStatus::NotDepth => 0,
    DepthStatus::Depth => 1,
    DepthStatus::NoIndication => 2,
});
conv_enum!(arrayed_v, Arrayed {
    Arrayed::False => 0,
    Arrayed::True => 1,
});
conv_enum!(ms_v, MS {
    MS::Single => 0,
    MS::Multi => 1,
});
conv_enum!(sampledstatus_v, SampledStatus {
    SampledStatus::RuntimeChoice => 0,
    SampledStatus::WithSampler => 1,
    SampledStatus::WithoutSampler => 2,
});
conv_enum!(imageformat_v, ImageFormat {
    ImageFormat::Unknown => 0,
    ImageFormat::Rgba32f => 1,
    ImageFormat::Rgba16f => 2,
    ImageFormat::R32f => 3,
    ImageFormat::Rgba8 => 4,
    ImageFormat::Rgba8Snorm => 5,
    ImageFormat::Rg32f => 6,
    ImageFormat::Rg16f => 7,
    ImageFormat::R11fG11fB10f => 8,
    ImageFormat::R16f => 9,
    ImageFormat::Rgba16 => 10,
    ImageFormat::Rgb10A2 => 11,
    ImageFormat::Rg16 => 12,
    ImageFormat::Rg8 => 13,
    ImageFormat::R16 => 14,
    ImageFormat::R8 => 15,
    ImageFormat::Rgba16Snorm => 16,
    ImageFormat::Rg16Snorm => 17,
    ImageFormat::Rg8Snorm => 18,
    ImageFormat::R16Snorm => 19,
    ImageFormat::R8Snorm => 20,
    ImageFormat::Rgba32i => 21,
    ImageFormat::Rgba16i => 22,
    ImageFormat::Rgba8i => 23,
    ImageFormat::R32i => 24,
    ImageFormat::Rg32i => 25,
    ImageFormat::Rg16i => 26,
    ImageFormat::Rg8i => 27,
    ImageFormat::R16i => 28,
    ImageFormat::R8i => 29,
    ImageFormat::Rgba32ui => 30,
    ImageFormat::Rgba16ui => 31,
    ImageFormat::Rgba8ui => 32,
    ImageFormat::R32ui => 33,
    ImageFormat::Rgb10a2ui => 34,
    ImageFormat::Rg32ui => 35,
    ImageFormat::Rg16ui => 36,
    ImageFormat::Rg8ui => 37,
    ImageFormat::R16ui => 38,
    ImageFormat::R8ui => 39,
});
conv_enum!(accessqualifier_v, AccessQualifier {
    AccessQualifier::ReadOnly => 0,
    AccessQualifier::WriteOnly => 1,
    AccessQualifier::ReadWrite => 2,
});
conv_enum!(storageclass_v, StorageClass {
    StorageClass::UniformConstant => 0,
    StorageClass::Input => 1,
    StorageClass::Uniform => 2,
    StorageClass::Output => 3,
    StorageClass::Workgroup => 4,
    StorageClass::CrossWorkgroup => 5,
    StorageClass::Private => 6,
    StorageClass::Function => 7,
    StorageClass::Generic => 8,
    StorageClass::PushConstant => 9,
    StorageClass::AtomicCounter => 10,
    StorageClass::Image => 11,
});
conv_enum!(builtin_v, BuiltIn {
    BuiltIn::Position => 0,
    BuiltIn::PointSize => 1,
    BuiltIn::ClipDistance => 3,
    BuiltIn::CullDistance => 4,
    BuiltIn::VertexId => 5,
    BuiltIn::InstanceId => 6,
    BuiltIn::PrimitiveId => 7,
    BuiltIn::InvocationId => 8,
    BuiltIn::Layer => 9,
    BuiltIn::ViewportIndex => 10,
    BuiltIn::TessLevelOuter => 11,
    BuiltIn::TessLevelInner => 12,
    BuiltIn::TessCoord => 13,
    BuiltIn::PatchVerticies => 14,
    BuiltIn::FragCoord => 15,
    BuiltIn::PointCoord => 16,
    BuiltIn::FrontFacing => 17,
    BuiltIn::SampleId => 18,
    BuiltIn::SamplePosition => 19,
    BuiltIn::SampleMask => 20,
    BuiltIn::FragDepth => 22,
    BuiltIn::HelperInvocation => 23,
    BuiltIn::NumWorkgroups => 24,
    BuiltIn::WorkgroupSize => 25,
    BuiltIn::WorkgroupId => 26,
    BuiltIn::LocalInvocationId => 27,
    BuiltIn::GlobalInvocationId => 28,
    BuiltIn::LocalInvocationIndex => 29,
    BuiltIn::WorkDim => 30,
    BuiltIn::GlobalSize => 31,
    BuiltIn::EnqueuedWorkgroupSize => 32,
    BuiltIn::GlobalOffset => 33,
    BuiltIn::GlobalLinearId => 34,
    BuiltIn::SubgroupSize => 36,
    BuiltIn::SubgroupMaxSize => 37,
    BuiltIn::NumSubgroups => 38,
    BuiltIn::NumEnqueuedSubgroups => 39,
    BuiltIn::SubgroupId => 40,
    BuiltIn::SubgroupLocalInvocationId => 41,
    BuiltIn::VertexIndex => 42,
    BuiltIn::InstanceIndex => 43,
});
conv_enum!(functionparameterattribute_v, FunctionParameterAttribute {
    FunctionParameterAttribute::Zext => 0,
    FunctionParameterAttribute::Sext => 1,
    FunctionParameterAttribute::ByVal => 2,
    FunctionParameterAttribute::Sret => 3,
    FunctionParameterAttribute::NoAlias => 4,
    FunctionParameterAttribute::NoCapture => 5,
    FunctionParameterAttribute::NoWrite => 6,
    FunctionParameterAttribute::NoReadWrite => 7,
});
conv_enum!(fproundingmode_v, FpRoundingMode {
    FpRoundingMode::Rte => 0,
    FpRoundingMode::Rtz => 1,
    FpRoundingMode::Rtp => 2,
    FpRoundingMode::Rtn => 3,
});
conv_enum!(linkagetype_v, LinkageType {
    LinkageType::Export => 0,
    LinkageType::Import => 1,
});
conv_enum!(decoration_v, Decoration {
    Decoration::RelaxedPrecision => 0,
    Decoration::SpecId(..) => 1,
    Decoration::Block => 2,
    Decoration::BufferBlock => 3,
    Decoration::RowMajor => 4,
    Decoration::ColMajor => 5,
    Decoration::ArrayStride(..) => 6,
    Decoration::MatrixStride(..) => 7,
    Decoration::GlslShared => 8,
    Decoration::GlslPacked => 9,
    Decoration::CPacked => 10,
    Decoration::BuiltIn(..) => 11,
    Decoration::NoPerspective => 13,
    Decoration::Flat => 14,
    Decoration::Patch => 15,
    Decoration::Centroid => 16,
    Decoration::Sample => 17,
    Decoration::Invariant => 18,
    Decoration::Restrict => 19,
    Decoration::Aliased => 20,
    Decoration::Volatile => 21,
    Decoration::Constant => 22,
    Decoration::Coherent => 23,
    Decoration::NonWritable => 24,
    Decoration::NonReadable => 25,
    Decoration::Uniform => 26,
    Decoration::SaturatedConversion => 28,
    Decoration::Stream(..) => 29,
    Decoration::Location(..) => 30,
    Decoration::Component(..) => 31,
    Decoration::Index(..) => 32,
    Decoration::Binding(..) => 33,
    Decoration::DescriptorSet(..) => 34,
    Decoration::Offset(..) => 35,
    Decoration::XfbBuffer(..) => 36,
    Decoration::XfbStride(..) => 37,
    Decoration::FuncParamAttr(..) => 38,
    Decoration::FpRoundingMode(..) => 39,
    Decoration::FpFastMathMode(..) => 40,
    Decoration::LinkageAttributes(..) => 41,
    Decoration::NoContraction => 42,
    Decoration::InputAttachmentIndex(..) => 43,
    Decoration::Alignment(..) => 44,
});

fn e(name: &str, v: u32) -> MOp {
    MOp::En(enum_index(name), v)
}
fn id(x: &OpId) -> MOp {
    MOp::Id(x.0)
}
fn res(x: &ResultId) -> MOp {
    MOp::Res(x.0)
}
fn lit(x: u32) -> MOp {
    MOp::Lit(x)
}
fn st(x: &str) -> MOp {
    MOp::Str(x.to_string())
}

/// MemoryAccess.aligned, whatever way the crate models its literal.
pub trait AlignedLit {
    fn lit(&self) -> Option<Option<u32>>;
}
impl AlignedLit for bool {
    fn lit(&self) -> Option<Option<u32>> {
        if *self { Some(None) } else { None }
    }
}
impl AlignedLit for Option<u32> {
    fn lit(&self) -> Option<Option<u32>> {
        self.map(Some)
    }
}

pub fn memory_access(m: &MemoryAccess) -> MOp {
    let mut bits = 0;
    let mut p = Vec::new();
    if m.volatile { bits |= 1 }
    if let Some(x) = m.aligned.lit() {
        bits |= 2;
        p.extend(x);
    }
    if m.non_temporal { bits |= 4 }
    MOp::Mask(mask_index("MemoryAccess"), bits, p)
}
pub fn function_control(m: &FunctionControl) -> MOp {
    let b = m.inline as u32 | (m.dont_inline as u32) << 1 | (m.pure_function as u32) << 2 | (m.const_function as u32) << 3;
    MOp::Mask(mask_index("FunctionControl"), b, vec![])
}
pub fn fast_math(m: &FpFastMathMode) -> MOp {
    let b = m.not_nan as u32 | (m.not_inf as u32) << 1 | (m.nsz as u32) << 2 | (m.allow_recip as u32) << 3 | (m.fast as u32) << 4;
    MOp::Mask(mask_index("FpFastMathMode"), b, vec![])
}
pub fn loop_control(m: &LoopControl) -> MOp {
    let b = m.unroll as u32 | (m.dont_unroll as u32) << 1 | (m.dependency_infinite as u32) << 2 | (m.dependency_length.is_some() as u32) << 3;
    MOp::Mask(mask_index("LoopControl"), b, m.dependency_length.into_iter().collect())
}
pub fn selection_control(m: &SelectionControl) -> MOp {
    let b = m.flatten as u32 | (m.dont_flatten as u32) << 1;
    MOp::Mask(mask_index("SelectionControl"), b, vec![])
}
pub fn source_language(l: &SourceLanguage) -> MOp {
    // Other(n) stands for the undefined number n; Other(2) would be a misreading.
    let v = match l {
        SourceLanguage::Other(n) => if *n <= 4 { BAD } else { *n },
        _ => sourcelanguage_v(l),
    };
    e("SourceLanguage", v)
}
pub fn execution_mode(m: &ExecutionMode, out: &mut Vec<MOp>) {
    out.push(e("ExecutionMode", executionmode_v(m)));
    match m {
        ExecutionMode::Invocations(n) | ExecutionMode::OutputVerticies(n) => out.push(lit(*n)),
        ExecutionMode::LocalSize(x, y, z) | ExecutionMode::LocalSizeHint(x, y, z) => out.extend([lit(*x), lit(*y), lit(*z)]),
        ExecutionMode::VecTypeHint(i) => out.push(id(i)),
        _ => {}
    }
}
pub fn decoration(d: &Decoration, out: &mut Vec<MOp>) {
    use Decoration::*;
    out.push(e("Decoration", decoration_v(d)));
    match d {
        SpecId(n) | ArrayStride(n) | MatrixStride(n) | Stream(n) | Location(n) | Component(n) | Index(n) | Binding(n)
        | DescriptorSet(n) | Offset(n) | XfbBuffer(n) | XfbStride(n) | InputAttachmentIndex(n) | Alignment(n) => out.push(lit(*n)),
        BuiltIn(b) => out.push(e("BuiltIn", builtin_v(b))),
        FuncParamAttr(a) => out.push(e("FunctionParameterAttribute", functionparameterattribute_v(a))),
        FpRoundingMode(a) => out.push(e("FpRoundingMode", fproundingmode_v(a))),
        FpFastMathMode(a) => out.push(fast_math(a)),
        LinkageAttributes(s, l) => out.extend([st(s), e("LinkageType", linkagetype_v(l))]),
        _ => {}
    }
}

pub fn glsl_text(n: u32, w: &[u32]) -> String {
    format!("{} %{}", if n == 13 { "Sin" } else { "Cos" }, w.get(0).copied().unwrap_or(0))
}

pub fn ext(op: &OpExtInst) -> MOp {
    let any = op.instruction.as_ref().as_any();
    if let Some(i) = any.downcast_ref::<glsl450::Inst>() {
        let (n, x) = match i {
            glsl450::Inst::Sin(s) => (13, s.x.0),
            glsl450::Inst::Cos(c) => (14, c.x.0),
            _ => (BAD, BAD),
        };
        return MOp::Ext(n, vec![x], glsl_text(n, &[x]));
    }
    if let Some(r) = any.downcast_ref::<RecInst>() {
        return MOp::Ext(r.number, r.words.clone(), r.text());
    }
    MOp::Ext(BAD, vec![], format!("{}", op.instruction))
}

pub fn core(c: &Core) -> MInst {
    let mut o: Vec<MOp> = Vec::new();
    let code: u16 = match c {
        Core::OpNop(_) => 0,
        Core::OpUndef(x) => { o.extend([id(&x.result_type), res(&x.result_id)]); 1 }
        Core::OpSourceContinued(x) => { o.push(st(&x.continued_source)); 2 }
        Core::OpSource(x) => {
            o.extend([source_language(&x.language), lit(x.version.0)]);
            o.extend(x.file.iter().map(id));
            o.extend(x.source.iter().map(|s| st(s)));
            3
        }
        Core::OpSourceExtension(x) => { o.push(st(&x.extension)); 4 }
        Core::OpName(x) => { o.extend([id(&x.target), st(&x.name)]); 5 }
        Core::OpMemberName(x) => { o.extend([id(&x.struct_type), lit(x.member.0), st(&x.name)]); 6 }
        Core::OpString(x) => { o.extend([res(&x.result_id), st(&x.string)]); 7 }
        Core::OpExtension(x) => { o.push(st(&x.name)); 10 }
        Core::OpExtInstImport(x) => { o.extend([res(&x.result_id), st(&x.name)]); 11 }
        Core::OpExtInst(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.set), ext(x)]); 12 }
        Core::OpMemoryModel(x) => { o.extend([e("AddressingModel", addressingmodel_v(&x.addressing_model)), e("MemoryModel", memorymodel_v(&x.memory_model))]); 14 }
        Core::OpEntryPoint(x) => {
            o.extend([e("ExecutionModel", executionmodel_v(&x.execution_model)), id(&x.entry_point), st(&x.name)]);
            o.extend(x.interface.iter().map(id));
            15
        }
        Core::OpExecutionMode(x) => { o.push(id(&x.entry_point)); execution_mode(&x.mode, &mut o); 16 }
        Core::OpCapability(x) => { o.push(e("Capability", capability_v(&x.capability))); 17 }
        Core::OpTypeVoid(x) => { o.push(res(&x.result_id)); 19 }
        Core::OpTypeBool(x) => { o.push(res(&x.result_id)); 20 }
        Core::OpTypeInt(x) => { o.extend([res(&x.result_id), lit(x.width), e("Signedness", signedness_v(&x.signedness))]); 21 }
        Core::OpTypeFloat(x) => { o.extend([res(&x.result_id), lit(x.width)]); 22 }
        Core::OpTypeVector(x) => { o.extend([res(&x.result_id), id(&x.component_type), lit(x.component_count)]); 23 }
        Core::OpTypeMatrix(x) => { o.extend([res(&x.result_id), id(&x.column_type), lit(x.column_count)]); 24 }
        Core::OpTypeImage(x) => {
            o.extend([res(&x.result_id), id(&x.sampled_type), e("Dim", dim_v(&x.dim)), e("DepthStatus", depthstatus_v(&x.depth)),
                e("Arrayed", arrayed_v(&x.arrayed)), e("MS", ms_v(&x.ms)), e("SampledStatus", sampledstatus_v(&x.sampled)),
                e("ImageFormat", imageformat_v(&x.format))]);
            o.extend(x.access_qualifier.iter().map(|a| e("AccessQualifier", accessqualifier_v(a))));
            25
        }
        Core::OpTypeSampler(x) => { o.push(res(&x.result_id)); 26 }
        Core::OpTypeSampledImage(x) => { o.extend([res(&x.result_id), id(&x.image_type)]); 27 }
        Core::OpTypeArray(x) => { o.extend([res(&x.result_id), id(&x.element_type), id(&x.length)]); 28 }
        Core::OpTypeRuntimeArray(x) => { o.extend([res(&x.result_id), id(&x.element_type)]); 29 }
        Core::OpTypeStruct(x) => { o.push(res(&x.result_id)); o.extend(x.member_types.iter().map(id)); 30 }
        Core::OpTypeOpaque(x) => { o.extend([res(&x.result_id), st(&x.name)]); 31 }
        Core::OpTypePointer(x) => { o.extend([res(&x.result_id), e("StorageClass", storageclass_v(&x.storage_class)), id(&x.pointed_type)]); 32 }
        Core::OpTypeFunction(x) => { o.extend([res(&x.result_id), id(&x.return_type)]); o.extend(x.parameter_types.iter().map(id)); 33 }
        Core::OpConstant(x) => { o.extend([id(&x.result_type), res(&x.result_id)]); o.extend(x.value.iter().map(|v| lit(*v))); 43 }
        Core::OpConstantComposite(x) => { o.extend([id(&x.result_type), res(&x.result_id)]); o.extend(x.constituents.iter().map(id)); 44 }
        Core::OpFunction(x) => { o.extend([id(&x.result_type), res(&x.result_id), function_control(&x.function_control), id(&x.function_type)]); 54 }
        Core::OpFunctionParameter(x) => { o.extend([id(&x.result_type), res(&x.result_id)]); 55 }
        Core::OpFunctionEnd(_) => 56,
        Core::OpVariable(x) => {
            o.extend([id(&x.result_type), res(&x.result_id), e("StorageClass", storageclass_v(&x.storage_class))]);
            o.extend(x.initializer.iter().map(id));
            59
        }
        Core::OpLoad(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.pointer)]); o.extend(x.memory_access.iter().map(memory_access)); 61 }
        Core::OpStore(x) => { o.extend([id(&x.pointer), id(&x.object)]); o.extend(x.memory_access.iter().map(memory_access)); 62 }
        Core::OpAccessChain(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.base)]); o.extend(x.indexes.iter().map(id)); 65 }
        Core::OpDecorate(x) => { o.push(id(&x.target)); decoration(&x.decoration, &mut o); 71 }
        Core::OpMemberDecorate(x) => { o.extend([id(&x.structure_type), lit(x.member.0)]); decoration(&x.decoration, &mut o); 72 }
        Core::OpConvertUToF(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.unsigned_value)]); 112 }
        Core::OpBitcast(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand)]); 124 }
        Core::OpIAdd(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 128 }
        Core::OpFAdd(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 129 }
        Core::OpISub(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 130 }
        Core::OpFSub(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 131 }
        Core::OpIMul(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 132 }
        Core::OpFMul(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 133 }
        Core::OpUDiv(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 134 }
        Core::OpSDiv(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 135 }
        Core::OpFDiv(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 136 }
        Core::OpUMod(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 137 }
        Core::OpSRem(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 138 }
        Core::OpSMod(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 139 }
        Core::OpFRem(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 140 }
        Core::OpFMod(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 141 }
        Core::OpIAddCarry(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 149 }
        Core::OpISubBorrow(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 150 }
        Core::OpUMulExtended(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 151 }
        Core::OpSMulExtended(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 152 }
        Core::OpBitwiseOr(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 197 }
        Core::OpBitwiseXor(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 198 }
        Core::OpBitwiseAnd(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 199 }
        Core::OpIEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 170 }
        Core::OpINotEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 171 }
        Core::OpUGreaterThan(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 172 }
        Core::OpSGreaterThan(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 173 }
        Core::OpUGreaterThanEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 174 }
        Core::OpSGreaterThanEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 175 }
        Core::OpULessThan(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 176 }
        Core::OpSLessThan(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 177 }
        Core::OpULessThanEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 178 }
        Core::OpSLessThanEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 179 }
        Core::OpFOrdEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 180 }
        Core::OpFUnordEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 181 }
        Core::OpFOrdNotEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 182 }
        Core::OpFUnordNotEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 183 }
        Core::OpFOrdLessThan(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 184 }
        Core::OpFUnordLessThan(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 185 }
        Core::OpFOrdGreaterThan(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 186 }
        Core::OpFUnordGreaterThan(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 187 }
        Core::OpFOrdLessThanEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 188 }
        Core::OpFUnordLessThanEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 189 }
        Core::OpFOrdGreaterThanEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 190 }
        Core::OpFUnordGreaterThanEqual(x) => { o.extend([id(&x.result_type), res(&x.result_id), id(&x.operand1), id(&x.operand2)]); 191 }
        Core::OpPhi(x) => {
            o.extend([id(&x.result_type), res(&x.result_id)]);
            for p in &x.variables { o.extend([id(&p.variable), id(&p.parent)]); }
            245
        }
        Core::OpLoopMerge(x) => { o.extend([id(&x.merge_block), id(&x.continue_target), loop_control(&x.loop_control)]); 246 }
        Core::OpSelectionMerge(x) => { o.extend([id(&x.merge_block), selection_control(&x.selection_control)]); 247 }
        Core::OpLabel(x) => { o.push(res(&x.result_id)); 248 }
        Core::OpBranch(x) => { o.push(id(&x.target_label)); 249 }
        Core::OpBranchConditional(x) => {
            o.extend([id(&x.condition), id(&x.true_label), id(&x.false_label)]);
            for w in &x.weights { o.extend([lit(w.true_weight), lit(w.false_weight)]); }
            250
        }
        Core::OpReturn(_) => 253,
        Core::OpTypeEvent(x) => { o.push(res(&x.result_id)); 34 }
        Core::OpTypeDeviceEvent(x) => { o.push(res(&x.result_id)); 35 }
        Core::OpTypeQueue(x) => { o.push(res(&x.result_id)); 37 }
        Core::OpTypePipe(x) => { o.extend([res(&x.result_id), e("AccessQualifier", accessqualifier_v(&x.access_qualifier))]); 38 }
        Core::OpTypeForwardPointer(x) => { o.extend([id(&x.pointer_type), e("StorageClass", storageclass_v(&x.storage_class))]); 39 }
        _ => 0xFFFF,
    };
    MInst { opcode: code, ops: o }
}

/// Instructions the reader never produces are read as a stand-in with the same
/// operands and then turned into what they stand for.
pub fn stand_in(m: &MInst) -> MInst {
    let two = m.opcode == 38 || m.opcode == 39;
    if spec().built(m.opcode).is_some() && m.ops.len() != 1 + two as usize {
        // not well formed: an opcode that is refused
        return MInst::new(0xFFFF, vec![]);
    }
    match m.opcode {
        34 | 35 | 37 => MInst::new(19, m.ops.clone()),
        38 => {
            let z = MOp::Lit(0);
            let d = MOp::En(enum_index("Dim"), 1);
            let f = MOp::En(enum_index("ImageFormat"), 0);
            MInst::new(25, vec![m.ops[0].clone(), MOp::Id(1), d, z.clone(), z.clone(), z.clone(), z, f, m.ops[1].clone()])
        }
        39 => {
            let r = match &m.ops[0] { MOp::Id(x) => *x, _ => 0 };
            MInst::new(32, vec![MOp::Res(r), m.ops[1].clone(), MOp::Id(1)])
        }
        _ => m.clone(),
    }
}
pub fn from_stand_in(m: &MInst, c: Core) -> Option<Core> {
    Some(match (m.opcode, c) {
        (34, Core::OpTypeVoid(x)) => Core::OpTypeEvent(OpTypeEvent { result_id: x.result_id }),
        (35, Core::OpTypeVoid(x)) => Core::OpTypeDeviceEvent(OpTypeDeviceEvent { result_id: x.result_id }),
        (37, Core::OpTypeVoid(x)) => Core::OpTypeQueue(OpTypeQueue { result_id: x.result_id }),
        (38, Core::OpTypeImage(x)) => Core::OpTypePipe(OpTypePipe { result_id: x.result_id, access_qualifier: x.access_qualifier? }),
        (39, Core::OpTypePointer(x)) => Core::OpTypeForwardPointer(OpTypeForwardPointer { pointer_type: OpId(x.result_id.0), storage_class: x.storage_class }),
        (34 | 35 | 37 | 38 | 39, _) => return None,
        (_, c) => c,
    })
}

// ---- logical module -> Core -------------------------------------------------

macro_rules! regroup {
    ($f:ident, $t:ident; $($v:ident)*) => {
        pub fn $f(x: &$t) -> Option<Core> { match x { $($t::$v(op) => Some(Core::$v(op.clone())),)* _ => None } }
    };
}
regroup!(debug_core, GroupDebug; OpSourceContinued OpSource OpSourceExtension OpName OpMemberName OpString);
regroup!(annotation_core, GroupAnnotation; OpDecorate OpMemberDecorate);
regroup!(type_core, GroupType; OpTypeVoid OpTypeBool OpTypeInt OpTypeFloat OpTypeVector OpTypeMatrix OpTypeImage OpTypeSampler
    OpTypeSampledImage OpTypeArray OpTypeRuntimeArray OpTypeStruct OpTypeOpaque OpTypePointer OpTypeFunction OpTypeEvent
    OpTypeDeviceEvent OpTypeQueue OpTypePipe OpTypeForwardPointer);
regroup!(constant_core, GroupConstant; OpConstant OpConstantComposite);
regroup!(code_core, GroupCode; OpNop OpUndef OpExtInst OpVariable OpLoad OpStore OpAccessChain OpConvertUToF OpBitcast
    OpIAdd OpFAdd OpISub OpFSub OpIMul OpFMul OpUDiv OpSDiv OpFDiv OpUMod OpSRem OpSMod OpFRem OpFMod OpIAddCarry OpISubBorrow OpUMulExtended OpSMulExtended OpBitwiseOr OpBitwiseXor OpBitwiseAnd OpIEqual OpINotEqual OpUGreaterThan OpSGreaterThan OpUGreaterThanEqual OpSGreaterThanEqual OpULessThan OpSLessThan OpULessThanEqual OpSLessThanEqual OpFOrdEqual OpFUnordEqual OpFOrdNotEqual OpFUnordNotEqual OpFOrdLessThan OpFUnordLessThan OpFOrdGreaterThan OpFUnordGreaterThan OpFOrdLessThanEqual OpFUnordLessThanEqual OpFOrdGreaterThanEqual OpFUnordGreaterThanEqual OpPhi);
regroup!(merge_core, GroupMerge; OpLoopMerge OpSelectionMerge);
regroup!(branch_core, GroupBranch; OpBranch OpBranchConditional OpReturn);
pub fn global_core(x: &GroupGlobal) -> Option<Core> {
    match x {
        GroupGlobal::GroupType(t) => type_core(t),
        GroupGlobal::GroupConstant(c) => constant_core(c),
        GroupGlobal::OpVariable(v) => Some(Core::OpVariable(v.clone())),
        _ => None,
    }
}

macro_rules! degroup {
    ($f:ident, $t:ident; $($v:ident)*) => {
        pub fn $f(x: &Core) -> Option<$t> { match x { $(Core::$v(op) => Some($t::$v(op.clone())),)* _ => None } }
    };
}
degroup!(code_of, GroupCode; OpNop OpUndef OpExtInst OpVariable OpLoad OpStore OpAccessChain OpConvertUToF OpBitcast
    OpIAdd OpFAdd OpISub OpFSub OpIMul OpFMul OpUDiv OpSDiv OpFDiv OpUMod OpSRem OpSMod OpFRem OpFMod OpIAddCarry OpISubBorrow OpUMulExtended OpSMulExtended OpBitwiseOr OpBitwiseXor OpBitwiseAnd OpIEqual OpINotEqual OpUGreaterThan OpSGreaterThan OpUGreaterThanEqual OpSGreaterThanEqual OpULessThan OpSLessThan OpULessThanEqual OpSLessThanEqual OpFOrdEqual OpFUnordEqual OpFOrdNotEqual OpFUnordNotEqual OpFOrdLessThan OpFUnordLessThan OpFOrdGreaterThan OpFUnordGreaterThan OpFOrdLessThanEqual OpFUnordLessThanEqual OpFOrdGreaterThanEqual OpFUnordGreaterThanEqual OpPhi);
