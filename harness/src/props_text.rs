//! C20-C22: error texts, instruction types the reader does not produce, and
//! the way from a file to the listing of its functions.

use crate::engine::*;
use crate::extsets::*;
use crate::gen;
use crate::logic::{self, Cl};
use crate::model::*;
use crate::props_cf as cf;
use crate::props_read::{self, clip, read};
use crate::spec::*;
use magmaflow::spv::logical::{find_control_flow, validate, ControlFlowFunctionPrinter};
use magmaflow::spv::op::*;
use magmaflow::spv::raw::ReadError;
use magmaflow::spv::types::*;

// ---------------------------------------------------------------- C20

pub type Make = fn(&mut Src) -> ReadError;

/// Every kind of read error: name, a maker, words its text has to contain
/// (`a|b`: one of them) or may not contain (`!a`: it would describe another kind).
pub const KINDS: &[(&str, Make, &[&str])] = &[
    ("UnexpectedEndOfStream", |_| ReadError::UnexpectedEndOfStream, &["end", "stream"]),
    ("UnexpectedStreamAlignment", |_| ReadError::UnexpectedStreamAlignment, &["align"]),
    ("BadMagic", |_| ReadError::BadMagic, &["magic"]),
    ("UnknownVersionBytes", |s| ReadError::UnknownVersionBytes(s.word() as u8, s.word() as u8, s.word() as u8, s.word() as u8), &["version", "byte"]),
    ("UnknownVersion", |s| ReadError::UnknownVersion(Version(s.word() as u8, s.word() as u8)), &["version", "!byte"]),
    ("UnknownReservedSchema", |_| ReadError::UnknownReservedSchema, &["schema"]),
    ("UnknownOp", |s| ReadError::UnknownOp(s.word() as u16, s.word() as u16), &["unknown", "op", "!extended", "!set"]),
    ("UnimplementedOp", |s| ReadError::UnimplementedOp(s.pick(UNIMPLEMENTED).1), &["unimplemented", "op"]),
    ("WrongWordCountForOp", |_| ReadError::WrongWordCountForOp, &["word count"]),
    ("InvalidString", |_| ReadError::InvalidString, &["string"]),
    ("UnexpectedEndOfInstruction", |_| ReadError::UnexpectedEndOfInstruction, &["instruction", "enough|end of|missing|short|few", "!set"]),
    ("InstructionHadExcessData", |_| ReadError::InstructionHadExcessData, &["instruction", "excess|all|left|much|many|extra", "!enough"]),
    ("UnknownInstSet", |s| ReadError::UnknownInstSet(gen::string(s)), &["unknown", "instruction set", "!referenc", "!op "]),
    ("UnknownInstSetId", |s| ReadError::UnknownInstSetId(OpId(s.word())), &["unknown", "instruction set", "referenc|id|bound|import"]),
    ("UnknownExtInstOp", |s| ReadError::UnknownExtInstOp(*s.pick(gen::SET_NAMES), s.word()), &["op", "instruction set"]),
    ("DuplicateResultId", |s| ReadError::DuplicateResultId(ResultId(s.word())), &["duplicate", "id"]),
    ("UnknownAddressingModel", |s| ReadError::UnknownAddressingModel(s.word()), &["addressing model"]),
    ("UnknownMemoryModel", |s| ReadError::UnknownMemoryModel(s.word()), &["memory model"]),
    ("UnknownExecutionModel", |s| ReadError::UnknownExecutionModel(s.word()), &["execution model"]),
    ("UnknownExecutionMode", |s| ReadError::UnknownExecutionMode(s.word()), &["execution mode", "!execution model"]),
    ("UnknownCapability", |s| ReadError::UnknownCapability(s.word()), &["capability"]),
    ("UnknownDecoration", |s| ReadError::UnknownDecoration(s.word()), &["decoration"]),
    ("UnknownBuiltIn", |s| ReadError::UnknownBuiltIn(s.word()), &["built"]),
    ("UnknownFpRoundingMode", |s| ReadError::UnknownFpRoundingMode(s.word()), &["rounding"]),
    ("UnknownFpFastMathMode", |s| ReadError::UnknownFpFastMathMode(s.word()), &["fast math"]),
    ("UnknownLinkageType", |s| ReadError::UnknownLinkageType(s.word()), &["linkage"]),
    ("UnknownSignedness", |s| ReadError::UnknownSignedness(s.word()), &["signedness"]),
    ("UnknownStorageClass", |s| ReadError::UnknownStorageClass(s.word()), &["storage class"]),
    ("UnknownFunctionParameterAttribute", |s| ReadError::UnknownFunctionParameterAttribute(s.word()), &["parameter attribute"]),
    ("UnknownFunctionControl", |s| ReadError::UnknownFunctionControl(s.word()), &["function control"]),
    ("UnknownMemoryAccess", |s| ReadError::UnknownMemoryAccess(s.word()), &["memory access"]),
    ("UnknownDim", |s| ReadError::UnknownDim(s.word()), &["dim"]),
    ("UnknownDepthStatus", |s| ReadError::UnknownDepthStatus(s.word()), &["depth"]),
    ("UnknownArrayed", |s| ReadError::UnknownArrayed(s.word()), &["arrayed"]),
    ("UnknownMS", |s| ReadError::UnknownMS(s.word()), &["multisampled"]),
    ("UnknownSampledStatus", |s| ReadError::UnknownSampledStatus(s.word()), &["sampled", "!multi"]),
    ("UnknownImageFormat", |s| ReadError::UnknownImageFormat(s.word()), &["image format"]),
    ("UnknownAccessQualifier", |s| ReadError::UnknownAccessQualifier(s.word()), &["access qualifier"]),
    ("UnknownLoopControl", |s| ReadError::UnknownLoopControl(s.word()), &["loop control"]),
    ("UnknownSelectionControl", |s| ReadError::UnknownSelectionControl(s.word()), &["selection control"]),
];

fn kind_of(e: &ReadError) -> String {
    let t = format!("{:?}", e);
    t.split('(').next().unwrap_or("").to_string()
}

fn check_error(e: &ReadError) -> Result<String, String> {
    #[allow(deprecated)]
    let (d, t) = sut(|| (std::error::Error::description(e).to_string(), format!("{}", e)))?;
    let kind = kind_of(e);
    if t != d {
        return Err(format!("{:?}: printed as {:?}, described as {:?}", e, t, d));
    }
    if t.trim().is_empty() {
        return Err(format!("{:?} has no text", e));
    }
    let low = t.to_lowercase();
    match KINDS.iter().find(|k| k.0 == kind) {
        Some(k) => match k.2.iter().find(|w| match w.strip_prefix('!') {
            Some(w) => low.contains(w),
            None => !w.split('|').any(|w| low.contains(w)),
        }) {
            Some(w) if w.starts_with('!') => Err(format!("{:?} is described as {:?}, which is about something else ({:?})", e, t, &w[1..])),
            Some(w) => Err(format!("{:?} is described as {:?}, which does not say {:?}", e, t, w)),
            None => Ok(t),
        },
        None => Ok(t),
    }
}

/// Two kinds of error, their texts.
fn c20_kinds_n(t: bool) -> u64 {
    (KINDS.len() * KINDS.len()) as u64 * if t { 2000 } else { 100 }
}
fn c20_kinds(i: u64, o: &mut Obs) -> Res {
    let n = KINDS.len() as u64;
    let (a, b) = (&KINDS[(i % n) as usize], &KINDS[(i / n % n) as usize]);
    let mut s = Src::random(mix(0xC20, i));
    let (x, y) = (a.1(&mut s), b.1(&mut s));
    o.case(a.0 != b.0, &(format!("{:?}", x), format!("{:?}", y)));
    o.describe(|| format!("{:?} against {:?}", x, y));
    let (tx, ty) = (check_error(&x)?, check_error(&y)?);
    if a.0 != b.0 && tx == ty {
        return Err(format!("{:?} and {:?} have the same text {:?}", x, y, tx));
    }
    if (x == y) != (format!("{:?}", x) == format!("{:?}", y)) {
        return Err(format!("{:?} == {:?} is {}", x, y, x == y));
    }
    Ok(())
}
/// Errors as reading produces them.
fn c20_read(s: &mut Src, o: &mut Obs) -> Res {
    let (sets, b) = match s.below(3) {
        0 => (gen::sets(s), props_read::any_bytes(s)),
        1 => {
            let m = gen::plain_inst(s);
            let mut w = Header::plain().words();
            match props_read::faulty_words(s, &m) {
                Some((f, _)) if f.len() < 60_000 => w.extend(f),
                _ => w.push(0),
            }
            (glsl_only(), le_bytes(&w))
        }
        _ => {
            let (sets, body, _, _) = props_read::c08_gen(s, false);
            let mut w = Header::plain().words();
            w.extend(body);
            (sets, le_bytes(&w))
        }
    };
    o.case(false, &b);
    o.describe(|| format!("bytes {}", gen::show_bytes(&b)));
    if let Err(e) = read(&b, &sets)? {
        o.nontrivial = true;
        let k = kind_of(&e);
        o.class = KINDS.iter().find(|x| x.0 == k).map(|x| x.0);
        check_error(&e)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

/// The operand types that hold one word; which of them a field has is the
/// crate's affair, what it prints is not.
trait Word {
    fn of(x: u32) -> Self;
}
macro_rules! word { ($($t:ident)*) => { $(impl Word for $t { fn of(x: u32) -> Self { $t(x) } })* } }
word!(OpId Line Column MemberIndex ResultId);
impl Word for u32 {
    fn of(x: u32) -> Self {
        x
    }
}
fn id<T: Word>(s: &mut Src) -> (T, String) {
    let x = s.word();
    (T::of(x), format!(" %{}", x))
}
fn res<T: Word>(s: &mut Src) -> (T, String) {
    let x = s.word();
    (T::of(x), format!("={}", x))
}
fn number<T: Word>(s: &mut Src) -> (T, String) {
    let x = s.word();
    (T::of(x), format!(" {}", x))
}
fn list<T>(s: &mut Src, f: fn(&mut Src) -> (T, String)) -> (Vec<T>, String) {
    let mut v = Vec::new();
    let mut t = String::new();
    for _ in 0..gen::list_len(s) {
        let (x, y) = f(s);
        v.push(x);
        t.push_str(&y);
    }
    (v, t)
}
fn ids<T: Word>(s: &mut Src) -> (Vec<T>, String) {
    list(s, id)
}
fn numbers<T: Word>(s: &mut Src) -> (Vec<T>, String) {
    list(s, number)
}
fn access(s: &mut Src) -> (Option<MemoryAccess>, String) {
    if s.chance(80) {
        return (None, String::new());
    }
    let mut m = MemoryAccess::default();
    let mut bits = 0;
    let mut p = vec![];
    if s.chance(128) {
        m.volatile = true;
        bits |= 1;
    }
    if s.chance(128) {
        let x = s.word();
        m.aligned = Some(x);
        bits |= 2;
        p.push(x);
    }
    if s.chance(128) {
        m.non_temporal = true;
        bits |= 4;
    }
    (Some(m), format!(" {}", mask_text(mask_index("MemoryAccess"), bits, &p)))
}
macro_rules! one_of {
    ($name:ident, $t:ident: $($v:ident = $e:expr),*) => {
        fn $name(s: &mut Src) -> ($t, String) {
            let all = [$(($t::$v, $e)),*];
            let (x, t) = s.pick(&all).clone();
            (x, format!(" {}", t))
        }
    };
}
one_of!(storage, StorageClass: UniformConstant = "UniformConstant", Input = "Input", Uniform = "Uniform", Output = "Output", Workgroup = "Workgroup", CrossWorkgroup = "CrossWorkgroup", Private = "Private", Function = "Function", Generic = "Generic", PushConstant = "PushConstant", AtomicCounter = "AtomicCounter", Image = "Image");
one_of!(addressing, SamplerAddressingMode: None = "None", ClampToEdge = "ClampToEdge", Clamp = "Clamp", Repeat = "Repeat", RepeatMirrored = "RepeatMirrored");
one_of!(param, SamplerParam: NonNormalized = "0", Normalized = "1");
one_of!(filter, SamplerFilterMode: Nearest = "Nearest", Linear = "Linear");

/// Text and expected text of an instruction drawn at random; and whether its
/// clone equals it.
pub type Shown = Result<(String, String), String>;

/// Puts the result first, then the name, then the operands.
fn expect(name: &str, ops: Vec<String>) -> String {
    let mut r = format!("{:15}", "");
    let mut t = String::new();
    for o in ops {
        match o.strip_prefix('=') {
            Some(x) => r = format!("{:>12} = ", format!("%{}", x)),
            None => t.push_str(&o),
        }
    }
    format!("{}{}{}", r, name, t)
}
macro_rules! op {
    ($v:ident, $n:ident { $($f:ident: $g:ident),* }) => {{
        fn show(s: &mut Src) -> Shown {
            let mut ops = Vec::new();
            $(let $f = { let (x, t) = $g(s); ops.push(t); x };)*
            let x = $n { $($f: $f),* };
            let text = shown(&x)?;
            if sut(|| x.clone() != x)? {
                return Err(format!("{}: the clone differs from the original", text));
            }
            Ok((text, expect(stringify!($n), ops)))
        }
        $v.push((stringify!($n), show as fn(&mut Src) -> Shown));
    }};
}
macro_rules! unit {
    ($v:ident, $n:ident) => {{
        fn show(_: &mut Src) -> Shown {
            Ok((shown(&$n)?, expect(stringify!($n), vec![])))
        }
        $v.push((stringify!($n), show as fn(&mut Src) -> Shown));
    }};
}

pub fn printable() -> Vec<(&'static str, fn(&mut Src) -> Shown)> {
    let mut v: Vec<(&'static str, fn(&mut Src) -> Shown)> = Vec::new();
    op!(v, OpLine { file: id, line: number, column: number });
    unit!(v, OpNoLine);
    op!(v, OpDecorationGroup { result_id: res });
    op!(v, OpGroupDecorate { decoration_group: id, targets: ids });
    op!(v, OpTypeReserveId { result_id: res });
    op!(v, OpConstantTrue { result_type: id, result_id: res });
    op!(v, OpConstantFalse { result_type: id, result_id: res });
    op!(v, OpConstantSampler { result_type: id, result_id: res, addressing_mode: addressing, param: param, filter_mode: filter });
    op!(v, OpConstantNull { result_type: id, result_id: res });
    op!(v, OpSpecConstantTrue { result_type: id, result_id: res });
    op!(v, OpSpecConstantFalse { result_type: id, result_id: res });
    op!(v, OpSpecConstant { result_type: id, result_id: res, value: numbers });
    op!(v, OpSpecConstantComposite { result_type: id, result_id: res, constituents: ids });
    op!(v, OpImageTexelPointer { result_type: id, result_id: res, image: id, coordinate: id, sample: id });
    op!(v, OpCopyMemory { target: id, source: id, memory_access: access });
    op!(v, OpCopyMemorySized { target: id, source: id, size: id, memory_access: access });
    op!(v, OpInBoundsAccessChain { result_type: id, result_id: res, base: id, indexes: ids });
    op!(v, OpPtrAccessChain { result_type: id, result_id: res, base: id, element: id, indexes: ids });
    op!(v, OpArrayLength { result_type: id, result_id: res, structure: id, array_member: number });
    op!(v, OpGenericPtrMemSemantics { result_type: id, result_id: res, pointer: id });
    op!(v, OpInBoundsPtrAccessChain { result_type: id, result_id: res, base: id, element: id, indexes: ids });
    op!(v, OpFunctionCall { result_type: id, result_id: res, function: id, arguments: ids });
    op!(v, OpSampledImage { result_type: id, result_id: res, image: id, sampler: id });
    op!(v, OpConvertFToU { result_type: id, result_id: res, float_value: id });
    op!(v, OpConvertFToS { result_type: id, result_id: res, float_value: id });
    op!(v, OpConvertSToF { result_type: id, result_id: res, signed_value: id });
    op!(v, OpUConvert { result_type: id, result_id: res, unsigned_value: id });
    op!(v, OpSConvert { result_type: id, result_id: res, signed_value: id });
    op!(v, OpFConvert { result_type: id, result_id: res, float_value: id });
    op!(v, OpQuantizeToF16 { result_type: id, result_id: res, value: id });
    op!(v, OpConvertPtrToU { result_type: id, result_id: res, pointer: id });
    op!(v, OpSatConvertSToU { result_type: id, result_id: res, signed_value: id });
    op!(v, OpSatConvertUToS { result_type: id, result_id: res, unsigned_value: id });
    op!(v, OpConvertUToPtr { result_type: id, result_id: res, integer_value: id });
    op!(v, OpPtrCastToGeneric { result_type: id, result_id: res, pointer: id });
    op!(v, OpGenericCastToPtr { result_type: id, result_id: res, pointer: id });
    op!(v, OpGenericCastToPtrExplicit { result_type: id, result_id: res, pointer: id, storage_class: storage });
    op!(v, OpVectorExtractDynamic { result_type: id, result_id: res, vector: id, index: id });
    op!(v, OpVectorInsertDynamic { result_type: id, result_id: res, vector: id, component: id, index: id });
    op!(v, OpVectorShuffle { result_type: id, result_id: res, operand1: id, operand2: id, components: numbers });
    op!(v, OpCompositeConstruct { result_type: id, result_id: res, constituents: ids });
    op!(v, OpCompositeExtract { result_type: id, result_id: res, composite: id, indexes: numbers });
    op!(v, OpCompositeInsert { result_type: id, result_id: res, object: id, composite: id, indexes: numbers });
    op!(v, OpCopyObject { result_type: id, result_id: res, operand: id });
    op!(v, OpTranspose { result_type: id, result_id: res, matrix: id });
    op!(v, OpSNegate { result_type: id, result_id: res, operand: id });
    op!(v, OpFNegate { result_type: id, result_id: res, operand: id });
    op!(v, OpVectorTimesScalar { result_type: id, result_id: res, vector: id, scalar: id });
    op!(v, OpMatrixTimesScalar { result_type: id, result_id: res, matrix: id, scalar: id });
    op!(v, OpVectorTimesMatrix { result_type: id, result_id: res, vector: id, matrix: id });
    op!(v, OpMatrixTimesVector { result_type: id, result_id: res, matrix: id, vector: id });
    op!(v, OpMatrixTimesMatrix { result_type: id, result_id: res, left_matrix: id, right_matrix: id });
    op!(v, OpOuterProduct { result_type: id, result_id: res, vector1: id, vector2: id });
    op!(v, OpDot { result_type: id, result_id: res, vector1: id, vector2: id });
    op!(v, OpShiftRightLogical { result_type: id, result_id: res, base: id, shift: id });
    op!(v, OpShiftRightArithmetic { result_type: id, result_id: res, base: id, shift: id });
    op!(v, OpShiftLeftLogical { result_type: id, result_id: res, base: id, shift: id });
    op!(v, OpNot { result_type: id, result_id: res, operand: id });
    v
}
fn c21_n(t: bool) -> u64 {
    printable().len() as u64 * if t { 200_000 } else { 6000 }
}
fn c21(i: u64, o: &mut Obs) -> Res {
    thread_local! {
        static L: Vec<(&'static str, fn(&mut Src) -> Shown)> = printable();
    }
    let (name, f) = L.with(|l| l[(i % l.len() as u64) as usize]);
    let mut s = Src::random(mix(0xC21, i));
    let (got, want) = f(&mut s)?;
    o.case(true, &want);
    o.class = Some(name);
    o.describe(|| clip(&want));
    if got != want {
        return Err(clip(&format!("printed {:?}, expected {:?}", got, want)));
    }
    Ok(())
}

/// The same with chosen operands, so that the search can steer them.
fn c21_any(s: &mut Src, o: &mut Obs) -> Res {
    thread_local! {
        static L: Vec<(&'static str, fn(&mut Src) -> Shown)> = printable();
    }
    let n = L.with(|l| l.len());
    let k = s.idx(n);
    let (name, f) = L.with(|l| l[k]);
    let (got, want) = f(s)?;
    o.case(true, &want);
    o.class = Some(name);
    o.describe(|| clip(&want));
    if got != want {
        return Err(clip(&format!("printed {:?}, expected {:?}", got, want)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

/// A module whose functions are known.
fn c22_with(s: &mut Src, o: &mut Obs, big: bool) -> Res {
    let h = gen::header(s);
    let mut imports = Vec::new();
    let mut v: Vec<MInst> = Vec::new();
    let put = |s: &mut Src, v: &mut Vec<MInst>, imports: &mut Vec<u32>, c: Cl, n: usize| {
        for _ in 0..s.few(n as u64) {
            v.push(logic::of_class(s, c, imports));
        }
    };
    for c in [Cl::Cap, Cl::Ext, Cl::Import] {
        put(s, &mut v, &mut imports, c, 2);
    }
    v.push(logic::of_class(s, Cl::Model, &mut imports));
    for c in [Cl::Entry, Cl::Mode, Cl::Debug, Cl::Annot, Cl::Global] {
        put(s, &mut v, &mut imports, c, 3);
    }
    for _ in 0..s.len(2) {
        v.push(logic::of_class(s, Cl::Fun, &mut imports));
        put(s, &mut v, &mut imports, Cl::Param, 2);
        v.push(logic::of_class(s, Cl::End, &mut imports));
    }
    let many = big && s.chance(30);
    let n = 1 + s.len(if many { 400 } else if big { 6 } else { 3 });
    // what is expected of each function: its structure if it has one
    let mut funs: Vec<(cf::Fun, Option<Vec<cf::Ch>>, cf::Lines)> = Vec::new();
    for _ in 0..n {
        v.push(logic::of_class(s, Cl::Fun, &mut imports));
        put(s, &mut v, &mut imports, Cl::Param, 2);
        let (f, c) = if s.chance(200) {
            let (f, c) = if big && !many { cf::structured(s, 6, 40) } else { cf::structured(s, 3, 12) };
            (f, Some(c))
        } else {
            (cf::some_fun(s), None)
        };
        let body = cf::as_insts(&f, &mut || {
            let mut c = Vec::new();
            put(s, &mut c, &mut imports, Cl::Code, 3);
            c
        });
        if body.is_empty() {
            // a function without blocks would be a declaration
            let l = cf::Blk { label: 1, merge: cf::Mg::No, br: cf::Br::Ret };
            let f = vec![l];
            let body = cf::as_insts(&f, &mut || vec![]);
            funs.push((f, None, lines(&body)));
            v.extend(body);
        } else {
            funs.push((f, c, lines(&body)));
            v.extend(body);
        }
        v.push(logic::of_class(s, Cl::End, &mut imports));
    }
    let w = module_words(&h, &v);
    let b = if s.chance(80) { be_bytes(&w) } else { le_bytes(&w) };
    o.case(funs.iter().any(|f| f.1.as_ref().map(|c| cf::nesting(c) > 0).unwrap_or(false)), &b);
    o.describe(|| format!("{} functions; {}", n, funs.iter().map(|f| cf::show_fun(&f.0)).collect::<Vec<_>>().join("--\n")));
    let raw = match read(&b, &glsl_only())? {
        Ok(m) => m,
        Err(e) => return Err(format!("the file is refused with {:?}", e)),
    };
    let l = match sut(|| validate(raw))? {
        Ok(l) => l,
        Err(e) => return Err(format!("the module is refused with {:?}", e)),
    };
    if l.function_definitions.len() != n {
        return Err(format!("{} functions defined, {} found", n, l.function_definitions.len()));
    }
    // any order of asking; each function stands for itself
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = s.idx(i + 1);
        order.swap(i, j);
    }
    for k in order {
        o.inner += 1;
        let (f, want, lines) = &funs[k];
        let d = &l.function_definitions[k];
        let dd = d.clone();
        let got = sut(move || find_control_flow(dd))?;
        let chain = match (&got, want) {
            (Ok(c), Some(w)) => {
                let ch = cf::chain(c);
                if ch != *w {
                    return Err(clip(&format!("function {} is recovered as {:?}, written as {:?}", k, ch, w)));
                }
                c
            }
            (Err(e), Some(_)) => return Err(format!("structured function {} is refused with {:?}", k, e)),
            (Ok(c), None) => {
                cf::equivalent(f, &cf::chain(c)).map_err(|e| format!("function {}: {}", k, e))?;
                c
            }
            (Err(_), None) => continue,
        };
        let ch = cf::chain(chain);
        let mut text = String::new();
        cf::ref_chain(&ch, 0, &mut text);
        let shown = sut(|| format!("{}", chain))?;
        if shown != text {
            return Err(clip(&format!("function {} structure: {}", k, cf::first_diff(&text, &shown))));
        }
        let mut text = String::new();
        cf::ref_function(&ch, 0, lines, &mut text);
        let shown = sut(|| format!("{}", ControlFlowFunctionPrinter(d, chain)))?;
        if shown != text {
            return Err(clip(&format!("function {} listing: {}", k, cf::first_diff(&text, &shown))));
        }
        let dd = d.clone();
        match sut(move || find_control_flow(dd))? {
            Ok(c) if c == *chain => {}
            r => return Err(clip(&format!("function {} recovered again: {:?}", k, r))),
        }
    }
    Ok(())
}
/// The lines of each block: its code and its branch.
fn lines(body: &[MInst]) -> cf::Lines {
    let mut l = cf::Lines::new();
    let mut at = 0;
    for i in body {
        match (i.opcode, &i.ops[..]) {
            (248, [MOp::Res(x)]) => {
                at = *x;
                l.insert(at, vec![]);
            }
            (246, _) | (247, _) => {}
            _ => l.get_mut(&at).unwrap().push(i.text()),
        }
    }
    l
}
fn c22(s: &mut Src, o: &mut Obs) -> Res {
    c22_with(s, o, false)
}
fn c22_big(s: &mut Src, o: &mut Obs) -> Res {
    c22_with(s, o, true)
}

pub fn arms(id: &str) -> Option<Vec<Arm>> {
    Some(match id {
        "C20" => vec![exh("kinds", c20_kinds_n, c20_kinds), rand("read", 60_000, 2_000_000, c20_read)],
        "C21" => vec![exh("instructions", c21_n, c21), rand("any", 60_000, 2_000_000, c21_any)],
        "C22" => vec![rand("modules", 12_000, 400_000, c22), rand("big", 1500, 50_000, c22_big)],
        _ => return None,
    })
}
