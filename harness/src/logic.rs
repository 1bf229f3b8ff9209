//! C10, C11: the logical layout.  Reference validator over instruction
//! classes, generators of layouts, and listing a logical module back out.

use crate::conv;
use crate::engine::*;
use crate::extsets::*;
use crate::gen;
use crate::model::*;
use crate::props_read::{clip, read};
use crate::spec::*;
use magmaflow::spv::logical::{validate, LogicalModule};
use magmaflow::spv::op::*;
use magmaflow::spv::raw::{Core, RawModule};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Hash)]
pub enum Cl {
    Cap,
    Ext,
    Import,
    Model,
    Entry,
    Mode,
    Debug,
    Annot,
    Global,
    Fun,
    Param,
    Label,
    Code,
    Merge,
    Branch,
    End,
}
pub const ALL: [Cl; 16] = [
    Cl::Cap,
    Cl::Ext,
    Cl::Import,
    Cl::Model,
    Cl::Entry,
    Cl::Mode,
    Cl::Debug,
    Cl::Annot,
    Cl::Global,
    Cl::Fun,
    Cl::Param,
    Cl::Label,
    Cl::Code,
    Cl::Merge,
    Cl::Branch,
    Cl::End,
];
const FUNC: [Cl; 8] = [Cl::Fun, Cl::Param, Cl::Label, Cl::Code, Cl::Merge, Cl::Branch, Cl::End, Cl::Global];

/// Where the SPIR-V layout puts an instruction.
pub fn class(i: &MInst) -> Cl {
    match i.opcode {
        17 => Cl::Cap,
        10 => Cl::Ext,
        11 => Cl::Import,
        14 => Cl::Model,
        15 => Cl::Entry,
        16 => Cl::Mode,
        2..=7 => Cl::Debug,
        71 | 72 => Cl::Annot,
        19..=39 | 43 | 44 => Cl::Global,
        54 => Cl::Fun,
        55 => Cl::Param,
        56 => Cl::End,
        59 => {
            let t = enum_index("StorageClass");
            if i.ops.contains(&MOp::En(t, 7)) {
                Cl::Code
            } else {
                Cl::Global
            }
        }
        246 | 247 => Cl::Merge,
        248 => Cl::Label,
        249 | 250 | 253 => Cl::Branch,
        _ => Cl::Code,
    }
}

/// Err: the acceptable renderings of the error.
pub fn reference(c: &[Cl]) -> Result<(), Vec<String>> {
    let n = c.len();
    let mut i = 0;
    let skip = |mut i: usize, k: Cl| {
        while i < n && c[i] == k {
            i += 1;
        }
        i
    };
    for k in [Cl::Cap, Cl::Ext, Cl::Import] {
        i = skip(i, k);
    }
    if i >= n || c[i] != Cl::Model {
        return Err(vec!["MemoryModelMissing".into()]);
    }
    i += 1;
    for k in [Cl::Entry, Cl::Mode, Cl::Debug, Cl::Annot, Cl::Global] {
        i = skip(i, k);
    }
    let mut defs = 0;
    while i < n {
        if c[i] != Cl::Fun {
            return Err(vec![format!("ExpectedOpFunction({})", i), format!("UnexpectedInstruction({})", i)]);
        }
        if i == n - 1 {
            // a lone OpFunction: either it cannot be placed or its end is missing
            return Err(vec![format!("UnexpectedInstruction({})", i), format!("ExpectedOpFunctionEnd({})", n)]);
        }
        let mut j = skip(i + 1, Cl::Param);
        let first = j;
        while j < n && c[j] == Cl::Label {
            j = skip(j + 1, Cl::Code);
            if j < n && c[j] == Cl::Merge {
                j += 1;
            }
            if j >= n || c[j] != Cl::Branch {
                return Err(vec![format!("ExpectedBranch({})", j)]);
            }
            j += 1;
        }
        if j >= n || c[j] != Cl::End {
            return Err(vec![format!("ExpectedOpFunctionEnd({})", j)]);
        }
        if j == first {
            // no blocks: a declaration, which may not follow a definition
            if defs > 0 {
                return Err(vec![format!("UnexpectedInstruction({})", j)]);
            }
        } else {
            defs += 1;
        }
        i = j + 1;
    }
    Ok(())
}

// ------------------------------------------------------------- generation

fn pick_op(s: &mut Src, codes: &[u16]) -> MInst {
    let c = *s.pick(codes);
    gen::inst_of(s, spec().op(c).unwrap())
}

fn variable(s: &mut Src, function: bool) -> MInst {
    let t = enum_index("StorageClass");
    let mut m = gen::inst_of(s, spec().op(59).unwrap());
    for o in &mut m.ops {
        if let MOp::En(x, v) = o {
            if *x == t {
                let k = s.below(11) as u32;
                *v = if function {
                    7
                } else if k >= 7 {
                    k + 1
                } else {
                    k
                };
            }
        }
    }
    m
}

fn code_ops() -> &'static [u16] {
    static S: std::sync::OnceLock<Vec<u16>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut s = Src::replay(&[]);
        spec()
            .ops
            .iter()
            .filter(|o| o.opcode != 11 && o.opcode != 12 && o.opcode != 59)
            .filter(|o| class(&gen::inst_of(&mut s, o)) == Cl::Code)
            .map(|o| o.opcode)
            .collect()
    })
}
fn global_ops() -> &'static [u16] {
    static S: std::sync::OnceLock<Vec<u16>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut s = Src::replay(&[]);
        spec()
            .ops
            .iter()
            .filter(|o| o.opcode != 11 && o.opcode != 12 && o.opcode != 59)
            .filter(|o| class(&gen::inst_of(&mut s, o)) == Cl::Global)
            .map(|o| o.opcode)
            .collect()
    })
}

/// An instruction of the given class; `imports`: ids bound to GLSL.std.450.
pub fn of_class(s: &mut Src, c: Cl, imports: &mut Vec<u32>) -> MInst {
    match c {
        Cl::Cap => pick_op(s, &[17]),
        Cl::Ext => pick_op(s, &[10]),
        Cl::Import => {
            let id = 5000 + imports.len() as u32;
            imports.push(id);
            MInst::new(11, vec![MOp::Res(id), MOp::Str("GLSL.std.450".into())])
        }
        Cl::Model => pick_op(s, &[14]),
        Cl::Entry => pick_op(s, &[15]),
        Cl::Mode => pick_op(s, &[16]),
        Cl::Debug => pick_op(s, &[5, 2, 3, 4, 6, 7]),
        Cl::Annot => pick_op(s, &[71, 72]),
        Cl::Global => {
            if s.chance(60) {
                variable(s, false)
            } else {
                pick_op(s, global_ops())
            }
        }
        Cl::Fun => pick_op(s, &[54]),
        Cl::Param => pick_op(s, &[55]),
        Cl::Label => pick_op(s, &[248]),
        Cl::Code => match s.weighted(&[10, 2, 3]) {
            1 => variable(s, true),
            2 if !imports.is_empty() => {
                let set = *s.pick(imports);
                let n = 13 + s.below(2) as u32;
                let x = s.id();
                MInst::new(12, vec![MOp::Id(s.id()), MOp::Res(s.id()), MOp::Id(set), MOp::Ext(n, vec![x], conv::glsl_text(n, &[x]))])
            }
            _ => pick_op(s, code_ops()),
        },
        Cl::Merge => pick_op(s, &[247, 246]),
        Cl::Branch => pick_op(s, &[253, 249, 250]),
        Cl::End => pick_op(s, &[56]),
    }
}

/// Put some instructions that can only be built in place of other types.
fn sprinkle(s: &mut Src, v: &mut [MInst]) {
    for m in v {
        if (19..34).contains(&m.opcode) && s.chance(30) {
            *m = gen::built_inst(s);
        }
    }
}

/// A module in valid logical layout; at most about n instructions per section.
pub fn gen_layout(s: &mut Src, n: usize) -> Vec<MInst> {
    let mut v = Vec::new();
    let mut imports = Vec::new();
    let section = |s: &mut Src, v: &mut Vec<MInst>, imports: &mut Vec<u32>, c: Cl, n: usize| {
        let first = v.len();
        let k = if n == 2 { s.few(2) } else { s.len(n) };
        for _ in 0..k {
            let m = if c != Cl::Import && v.len() > first && s.chance(20) {
                // again, or nearly
                let k = first + s.idx(v.len() - first);
                let mut m = v[k].clone();
                if s.chance(100) && m.opcode != 59 {
                    gen::tweak(s, &mut m);
                }
                m
            } else {
                of_class(s, c, imports)
            };
            v.push(m);
        }
    };
    for c in [Cl::Cap, Cl::Ext, Cl::Import] {
        section(s, &mut v, &mut imports, c, n);
    }
    v.push(of_class(s, Cl::Model, &mut imports));
    for c in [Cl::Entry, Cl::Mode, Cl::Debug, Cl::Annot, Cl::Global] {
        section(s, &mut v, &mut imports, c, n);
    }
    for _ in 0..s.few(1) {
        v.push(of_class(s, Cl::Fun, &mut imports));
        section(s, &mut v, &mut imports, Cl::Param, 2);
        v.push(of_class(s, Cl::End, &mut imports));
    }
    for _ in 0..s.len(3) {
        v.push(of_class(s, Cl::Fun, &mut imports));
        section(s, &mut v, &mut imports, Cl::Param, 2);
        if s.chance(90) {
            let f = crate::props_cf::some_fun(s);
            let body = crate::props_cf::as_insts(&f, &mut || {
                let mut c = Vec::new();
                section(s, &mut c, &mut imports, Cl::Code, 2);
                c
            });
            v.extend(body);
            v.push(of_class(s, Cl::End, &mut imports));
            continue;
        }
        let blocks = 1 + s.len(n);
        for b in 0..blocks {
            // labels 1..=blocks mostly, so that branches find their targets
            v.push(MInst::new(248, vec![MOp::Res(b as u32 + 1)]));
            section(s, &mut v, &mut imports, Cl::Code, 2);
            let label = |s: &mut Src| MOp::Id(1 + s.below(blocks as u64 + 1) as u32);
            if s.chance(100) {
                let mut m = of_class(s, Cl::Merge, &mut imports);
                m.ops[0] = label(s);
                v.push(m);
            }
            let mut m = of_class(s, Cl::Branch, &mut imports);
            match m.opcode {
                249 => m.ops[0] = label(s),
                250 => {
                    m.ops[1] = label(s);
                    m.ops[2] = label(s);
                }
                _ => {}
            }
            v.push(m);
        }
        v.push(of_class(s, Cl::End, &mut imports));
    }
    v
}

/// Structural damage to an instruction list.
pub fn damage_with<T: Clone>(s: &mut Src, mut v: Vec<T>, extra: &[T]) -> Vec<T> {
    for _ in 0..1 + s.len(2) {
        if v.is_empty() {
            break;
        }
        let i = s.idx(v.len());
        match s.below(6) {
            0 => {
                v.remove(i);
            }
            1 => {
                let j = s.idx(v.len());
                v.swap(i, j);
            }
            2 => {
                let x = v[i].clone();
                v.insert(i, x);
            }
            3 => {
                let x = v.remove(i);
                let j = s.idx(v.len() + 1);
                v.insert(j, x);
            }
            4 if !extra.is_empty() => {
                let x = s.pick(extra).clone();
                let j = s.idx(v.len() + 1);
                v.insert(j, x);
            }
            _ => v.truncate(i),
        }
    }
    v
}

pub fn damage(s: &mut Src, v: Vec<MInst>) -> Vec<MInst> {
    let extra: Vec<MInst> = (0..3).map(|_| gen::plain_inst(s)).collect();
    damage_with(s, v, &extra)
}

// ---------------------------------------------------------------- oracle

/// Decode instructions (imports first, so extended instructions resolve).
pub fn cores(insts: &[MInst]) -> Option<RawModule> {
    crate::props_read::decode_for(&Header::plain(), insts).filter(|m| m.instructions.len() == insts.len())
}

/// A core per class, decoded once per thread.
fn class_cores() -> std::rc::Rc<Option<(RawModule, Vec<Core>)>> {
    thread_local! {
        static C: std::cell::RefCell<Option<std::rc::Rc<Option<(RawModule, Vec<Core>)>>>> = std::cell::RefCell::new(None);
    }
    C.with(|c| {
        c.borrow_mut()
            .get_or_insert_with(|| {
                let mut s = Src::replay(&[]);
                let mut imports = Vec::new();
                let v: Vec<MInst> = ALL.iter().map(|k| of_class(&mut s, *k, &mut imports)).collect();
                std::rc::Rc::new(cores(&v).map(|mut m| {
                    let list = std::mem::take(&mut m.instructions);
                    (m, list)
                }))
            })
            .clone()
    })
}

fn check_verdict(raw: RawModule, cl: &[Cl]) -> Res {
    let want = reference(cl);
    let got = sut(move || match validate(raw) {
        Ok(_) => Ok(()),
        Err(e) => Err(format!("{:?}", e)),
    })?;
    match (&want, &got) {
        (Ok(()), Ok(())) => Ok(()),
        (Err(w), Err(g)) => {
            if w.contains(g) {
                Ok(())
            } else {
                Err(format!("layout {:?}: expected {}, got {}", cl, w.join(" or "), g))
            }
        }
        (Ok(()), Err(g)) => Err(format!("layout {:?} is valid but refused with {}", cl, g)),
        (Err(w), Ok(())) => Err(format!("layout {:?} accepted, expected {}", cl, w.join(" or "))),
    }
}

fn seq_count(k: u64, max: u32) -> u64 {
    (0..=max).map(|e| k.pow(e)).sum()
}
/// i-th sequence over an alphabet of k letters, by length.
fn nth_seq(mut i: u64, k: u64) -> Vec<usize> {
    let mut len = 0;
    let mut n = 1;
    while i >= n {
        i -= n;
        n *= k;
        len += 1;
    }
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        v.push((i % k) as usize);
        i /= k;
    }
    v
}

fn run_classes(cl: &[Cl], o: &mut Obs) -> Res {
    o.case(true, &cl);
    o.describe(|| format!("{:?}", cl));
    o.class = Some(if reference(cl).is_ok() { "valid" } else { "invalid" });
    let cc = class_cores();
    let (m, list) = match &*cc {
        Some(x) => x,
        None => {
            o.nontrivial = false;
            return Ok(());
        }
    };
    let mut raw = m.clone();
    raw.instructions = cl.iter().map(|c| list[*c as usize].clone()).collect();
    check_verdict(raw, cl)
}

fn c10_all_n(t: bool) -> u64 {
    seq_count(16, if t { 5 } else { 4 })
}
fn c10_all(i: u64, o: &mut Obs) -> Res {
    let cl: Vec<Cl> = nth_seq(i, 16).into_iter().map(|x| ALL[x]).collect();
    run_classes(&cl, o)
}
fn c10_func_n(t: bool) -> u64 {
    seq_count(8, if t { 7 } else { 6 })
}
fn c10_func(i: u64, o: &mut Obs) -> Res {
    let mut cl = vec![Cl::Model];
    cl.extend(nth_seq(i, 8).into_iter().map(|x| FUNC[x]));
    run_classes(&cl, o)
}
/// A definition first, then every continuation: what may follow a definition.
fn c10_after_n(t: bool) -> u64 {
    seq_count(8, if t { 6 } else { 5 })
}
fn c10_after(i: u64, o: &mut Obs) -> Res {
    let mut cl = vec![Cl::Model, Cl::Fun, Cl::Label, Cl::Branch, Cl::End];
    cl.extend(nth_seq(i, 8).into_iter().map(|x| FUNC[x]));
    run_classes(&cl, o)
}

const SKELETON: &[Cl] = &[
    Cl::Cap,
    Cl::Cap,
    Cl::Ext,
    Cl::Ext,
    Cl::Import,
    Cl::Import,
    Cl::Model,
    Cl::Entry,
    Cl::Entry,
    Cl::Mode,
    Cl::Mode,
    Cl::Debug,
    Cl::Debug,
    Cl::Annot,
    Cl::Annot,
    Cl::Global,
    Cl::Global,
    Cl::Fun,
    Cl::Param,
    Cl::Param,
    Cl::End,
    Cl::Fun,
    Cl::Param,
    Cl::Label,
    Cl::Code,
    Cl::Code,
    Cl::Merge,
    Cl::Branch,
    Cl::Label,
    Cl::Branch,
    Cl::End,
    Cl::Fun,
    Cl::Label,
    Cl::Code,
    Cl::Branch,
    Cl::End,
];
/// Every operation (every enumerant of its first enumerant operand for
/// variables) inserted at, or replacing, every place of a complete module.
fn c10_place_n(t: bool) -> u64 {
    (spec().ops.len() as u64 + 16) * (SKELETON.len() as u64 * 2 + 1) * if t { 100 } else { 8 }
}
fn c10_place(i: u64, o: &mut Obs) -> Res {
    let ops = spec().ops.len() as u64 + 16;
    let places = SKELETON.len() as u64 * 2 + 1;
    let k = i % ops;
    let p = ((i / ops) % places) as usize;
    let mut s = Src::random(mix(0x10, i));
    let mut imports = Vec::new();
    let mut v: Vec<MInst> = SKELETON.iter().map(|c| of_class(&mut s, *c, &mut imports)).collect();
    let nops = spec().ops.len() as u64;
    let op = if k < nops {
        &spec().ops[k as usize]
    } else if k < nops + 11 {
        spec().op(59).unwrap()
    } else {
        &spec().built[(k - nops - 11) as usize]
    };
    let x = match op.opcode {
        11 => of_class(&mut s, Cl::Import, &mut imports),
        12 => MInst::new(12, vec![MOp::Id(1), MOp::Res(2), MOp::Id(5000), MOp::Ext(13, vec![3], conv::glsl_text(13, &[3]))]),
        59 => {
            let sc = if k >= spec().ops.len() as u64 { (k - spec().ops.len() as u64 + 1) as u32 } else { 0 };
            let mut m = gen::inst_of(&mut s, op);
            for o in &mut m.ops {
                if let MOp::En(_, v) = o {
                    *v = sc;
                }
            }
            m
        }
        _ => gen::inst_of(&mut s, op),
    };
    // decode in an order the reader accepts, then rearrange
    v.push(x);
    let mut raw = match cores(&v) {
        Some(m) => m,
        None => {
            o.case(false, &i);
            return Ok(());
        }
    };
    let x = raw.instructions.pop().unwrap();
    if p <= SKELETON.len() {
        raw.instructions.insert(p, x);
    } else {
        raw.instructions[p - SKELETON.len() - 1] = x;
    }
    let cl: Vec<Cl> = raw.instructions.iter().map(|c| class(&conv::core(c))).collect();
    o.case(true, &(&cl, k, p));
    o.class = Some(if reference(&cl).is_ok() { "valid" } else { "invalid" });
    o.describe(|| format!("{} at place {}: {:?}", op.name, p, cl));
    check_verdict(raw, &cl)
}

fn c10_random(s: &mut Src, o: &mut Obs) -> Res {
    let n = if s.chance(20) { 40 } else { 5 };
    let mut v = gen_layout(s, n);
    sprinkle(s, &mut v);
    let len = v.len();
    let mut imports = vec![5900];
    imports.clear();
    let mut all = v;
    let mut fake = vec![0; 900];
    for _ in 0..3 {
        let c = *s.pick(&ALL);
        // imports of the extras get ids the layout does not use
        let m = if c == Cl::Import || c != Cl::Code { of_class(s, c, &mut fake) } else { of_class(s, c, &mut imports) };
        all.push(m);
    }
    let mut raw = match cores(&all) {
        Some(m) => m,
        None => {
            o.case(false, &0);
            return Ok(());
        }
    };
    let extra = raw.instructions.split_off(len);
    if s.chance(190) {
        let list = std::mem::take(&mut raw.instructions);
        raw.instructions = damage_with(s, list, &extra);
    }
    let cl: Vec<Cl> = raw.instructions.iter().map(|c| class(&conv::core(c))).collect();
    let ok = reference(&cl).is_ok();
    o.case(cl.len() > 1, &cl);
    o.class = Some(if ok { "valid" } else { "invalid" });
    o.describe(|| clip(&format!("{:?}", cl)));
    check_verdict(raw, &cl)
}

// ------------------------------------------------------------------- C11

/// List a logical module back out; `bad` text for unknown variants.
pub fn relist(l: &LogicalModule) -> Result<Vec<MInst>, String> {
    let mut out: Vec<MInst> = Vec::new();
    let put = |out: &mut Vec<MInst>, c: Option<Core>| -> Result<(), String> {
        match c {
            Some(c) => {
                out.push(conv::core(&c));
                Ok(())
            }
            None => Err("instruction group the harness does not know".into()),
        }
    };
    for c in &l.capabilities {
        put(&mut out, Some(Core::OpCapability(OpCapability { capability: c.clone() })))?;
    }
    for c in &l.extensions {
        put(&mut out, Some(Core::OpExtension(OpExtension { name: c.clone() })))?;
    }
    for c in &l.ext_inst_imports {
        put(&mut out, Some(Core::OpExtInstImport(c.clone())))?;
    }
    put(&mut out, Some(Core::OpMemoryModel(l.memory_model.clone())))?;
    for c in &l.entry_points {
        put(&mut out, Some(Core::OpEntryPoint(c.clone())))?;
    }
    for c in &l.execution_modes {
        put(&mut out, Some(Core::OpExecutionMode(c.clone())))?;
    }
    for c in &l.debug {
        put(&mut out, conv::debug_core(c))?;
    }
    for c in &l.annotations {
        put(&mut out, conv::annotation_core(c))?;
    }
    for c in &l.globals {
        put(&mut out, conv::global_core(c))?;
    }
    for f in &l.function_declarations {
        put(&mut out, Some(Core::OpFunction(f.function.clone())))?;
        for p in &f.parameters {
            put(&mut out, Some(Core::OpFunctionParameter(p.clone())))?;
        }
        out.push(MInst::new(56, vec![]));
    }
    for f in &l.function_definitions {
        put(&mut out, Some(Core::OpFunction(f.function.clone())))?;
        for p in &f.parameters {
            put(&mut out, Some(Core::OpFunctionParameter(p.clone())))?;
        }
        for b in &f.blocks {
            put(&mut out, Some(Core::OpLabel(b.label.clone())))?;
            for c in &b.code {
                put(&mut out, conv::code_core(c))?;
            }
            if let Some(m) = &b.merge {
                put(&mut out, conv::merge_core(m))?;
            }
            put(&mut out, conv::branch_core(&b.branch))?;
        }
        out.push(MInst::new(56, vec![]));
    }
    Ok(out)
}

/// Compare the sections of a logical module with the classes of the list.
pub fn check_sections(l: &LogicalModule, want: &[MInst]) -> Res {
    let got = relist(l)?;
    if let Some(i) = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)) {
        return Err(clip(&format!("listing differs at {}: raw {:?}, logical {:?}", i, want.get(i), got.get(i))));
    }
    // sections by class
    let cl: Vec<Cl> = want.iter().map(class).collect();
    let count = |c: Cl| cl.iter().filter(|x| **x == c).count();
    // functions: declarations are those without blocks
    let mut decl = 0;
    let mut def = 0;
    let mut blocks = Vec::new();
    for (i, c) in cl.iter().enumerate() {
        match c {
            Cl::Fun => blocks.push(0usize),
            Cl::Label => *blocks.last_mut().unwrap_or(&mut 0) += 1,
            Cl::End => {
                if blocks.last() == Some(&0) {
                    decl += 1;
                } else {
                    def += 1;
                }
            }
            _ => {}
        }
        let _ = i;
    }
    let sizes = [
        ("capabilities", l.capabilities.len(), count(Cl::Cap)),
        ("extensions", l.extensions.len(), count(Cl::Ext)),
        ("imports", l.ext_inst_imports.len(), count(Cl::Import)),
        ("entry points", l.entry_points.len(), count(Cl::Entry)),
        ("execution modes", l.execution_modes.len(), count(Cl::Mode)),
        ("debug", l.debug.len(), count(Cl::Debug)),
        ("annotations", l.annotations.len(), count(Cl::Annot)),
        ("globals", l.globals.len(), count(Cl::Global)),
        ("declarations", l.function_declarations.len(), decl),
        ("definitions", l.function_definitions.len(), def),
    ];
    for (n, g, w) in sizes {
        if g != w {
            return Err(format!("{} {} in the logical module, {} in the raw module", g, n, w));
        }
    }
    let got_blocks: Vec<usize> = l.function_definitions.iter().map(|f| f.blocks.len()).collect();
    let want_blocks: Vec<usize> = blocks.into_iter().filter(|b| *b > 0).collect();
    if got_blocks != want_blocks {
        return Err(format!("blocks per function {:?}, expected {:?}", got_blocks, want_blocks));
    }
    Ok(())
}

fn check_preserved(raw: RawModule) -> Result<bool, String> {
    let want: Vec<MInst> = raw.instructions.iter().map(conv::core).collect();
    let l = match sut(move || validate(raw).ok())? {
        Some(l) => l,
        None => return Ok(false),
    };
    check_sections(&l, &want)?;
    Ok(true)
}

fn c11_random(s: &mut Src, o: &mut Obs) -> Res {
    let n = *s.pick(&[3usize, 6, 6, 30]);
    let mut v = gen_layout(s, n);
    sprinkle(s, &mut v);
    o.describe(|| gen::show(&v));
    let mut raw = match cores(&v) {
        Some(m) => m,
        None => {
            o.case(false, &0);
            return Ok(());
        }
    };
    if s.chance(60) {
        // near-valid lists: whatever is accepted must be preserved too
        let list = std::mem::take(&mut raw.instructions);
        raw.instructions = damage_with(s, list, &[]);
    }
    let ok = check_preserved(raw)?;
    o.case(ok && v.len() > 1, &v);
    o.class = Some(if ok { "validated" } else { "refused" });
    Ok(())
}

/// Every operation at every place of the complete module where it fits.
fn c11_place(i: u64, o: &mut Obs) -> Res {
    let nops = spec().ops.len() as u64;
    let ops = nops + 5;
    let places = SKELETON.len() as u64 + 1;
    let op = if i % ops < nops { &spec().ops[(i % ops) as usize] } else { &spec().built[(i % ops - nops) as usize] };
    let p = ((i / ops) % places) as usize;
    let mut s = Src::random(mix(0x11, i));
    let mut imports = Vec::new();
    let mut v: Vec<MInst> = SKELETON.iter().map(|c| of_class(&mut s, *c, &mut imports)).collect();
    let x = match op.opcode {
        11 => of_class(&mut s, Cl::Import, &mut imports),
        12 => MInst::new(12, vec![MOp::Id(1), MOp::Res(2), MOp::Id(5000), MOp::Ext(13, vec![3], conv::glsl_text(13, &[3]))]),
        _ => gen::inst_of(&mut s, op),
    };
    v.push(x);
    let mut raw = match cores(&v) {
        Some(m) => m,
        None => {
            o.case(false, &i);
            return Ok(());
        }
    };
    let x = raw.instructions.pop().unwrap();
    raw.instructions.insert(p, x);
    o.describe(|| format!("{} inserted at place {} of a complete module", op.name, p));
    let ok = check_preserved(raw)?;
    o.case(ok, &(op.opcode, p, i));
    o.class = Some(if ok { "validated" } else { "refused" });
    Ok(())
}
/// The smallest module with one instruction of any operation in its place.
fn c11_single(s: &mut Src, o: &mut Obs) -> Res {
    let x = crate::props_read::single(s).remove(0);
    o.describe(|| x.text());
    let c = class(&x);
    let mut v = Vec::new();
    if c > Cl::Model {
        v.push(plain_of(Cl::Model));
    }
    let fun = [Cl::Fun, Cl::Label, Cl::Branch, Cl::End];
    if c < Cl::Fun {
        v.push(x.clone());
        if c < Cl::Model {
            v.push(plain_of(Cl::Model));
        }
    } else {
        for f in fun {
            if f > c && v.iter().all(|y| y != &x) {
                v.push(x.clone());
            }
            v.push(if f == c { x.clone() } else { plain_of(f) });
        }
    }
    let raw = match cores(&v) {
        Some(m) => m,
        None => {
            o.case(false, &v);
            return Ok(());
        }
    };
    let ok = check_preserved(raw)?;
    o.case(ok, &v);
    o.class = Some(if ok { "validated" } else { "refused" });
    Ok(())
}
/// The plainest instruction of a class.
fn plain_of(c: Cl) -> MInst {
    let mut none = Vec::new();
    of_class(&mut Src::replay(&[]), c, &mut none)
}
fn c11_place_n(t: bool) -> u64 {
    (spec().ops.len() as u64 + 5) * (SKELETON.len() as u64 + 1) * if t { 600 } else { 40 }
}

/// A layout of thousands of instructions, with one thing wrong (or nothing):
/// `sizes` gives the length of the long section.
fn large(s: &mut Src) -> Vec<Cl> {
    let mut cl = Vec::new();
    let n = match s.weighted(&[20, 20, 20, 20, 20, 3]) {
        0 => 30 + s.idx(300),
        1 => 250 + s.idx(60),
        2 => s.idx(1200),
        3 => s.idx(6000),
        4 => s.idx(20_000),
        _ => 65_500 + s.idx(5000),
    };
    let long = s.idx(15);
    for (k, c) in [Cl::Cap, Cl::Ext, Cl::Import, Cl::Model, Cl::Entry, Cl::Mode, Cl::Debug, Cl::Annot, Cl::Global].iter().enumerate() {
        let m = if *c == Cl::Model {
            1
        } else if k == long {
            n
        } else {
            s.idx(3)
        };
        cl.extend(std::iter::repeat(*c).take(m));
    }
    let decls = if long == 9 { n / 3 } else { s.idx(3) };
    for d in 0..decls.max((long == 13) as usize) {
        cl.push(Cl::Fun);
        let k = if long == 13 && d == 0 { n } else { s.idx(2) };
        cl.extend(std::iter::repeat(Cl::Param).take(k));
        cl.push(Cl::End);
    }
    let defs = if long == 14 { n / 5 } else { s.idx(4) };
    for d in 0..defs.max((long == 12) as usize) {
        cl.push(Cl::Fun);
        let k = if long == 12 && d == 0 { n } else { s.idx(3) };
        cl.extend(std::iter::repeat(Cl::Param).take(k));
        let blocks = if long == 10 && d == 0 { n / 4 } else { 1 + s.idx(3) };
        for _ in 0..blocks {
            cl.push(Cl::Label);
            let code = if long == 11 { n / (blocks + 1) } else { s.idx(2) };
            cl.extend(std::iter::repeat(Cl::Code).take(code));
            if s.chance(60) {
                cl.push(Cl::Merge);
            }
            cl.push(Cl::Branch);
        }
        cl.push(Cl::End);
    }
    if s.chance(180) {
        cl = damage_with(s, cl, &ALL);
    }
    cl
}
fn c10_large(s: &mut Src, o: &mut Obs) -> Res {
    let cl = large(s);
    let ok = reference(&cl).is_ok();
    let r = run_classes(&cl, o).map_err(|e| clip(&e));
    o.describe(|| format!("{} instructions, {}", cl.len(), if ok { "valid" } else { "invalid" }));
    r
}
/// Large layouts of distinguishable instructions.
pub fn gen_large_layout(s: &mut Src) -> Vec<MInst> {
    let most = *s.pick(&[300usize, 300, 1200, 5000, 20_000]);
    let n = 1 + s.idx(most);
    let long = s.idx(13);
    let mut imports = Vec::new();
    let mut v = Vec::new();
    // repeated pieces, each with an id of its own where it has one
    let many = |s: &mut Src, v: &mut Vec<MInst>, imports: &mut Vec<u32>, c: Cl, m: usize| {
        let kinds: Vec<MInst> = if c == Cl::Import { vec![] } else { (0..6).map(|_| of_class(s, c, imports)).collect() };
        for i in 0..m {
            if c == Cl::Import {
                v.push(of_class(s, c, imports));
                continue;
            }
            let mut x = kinds[(mix(i as u64, m as u64) % 6) as usize].clone();
            if let Some(MOp::Id(y)) | Some(MOp::Res(y)) = x.ops.first_mut() {
                if x.opcode != 12 {
                    *y = i as u32;
                }
            }
            v.push(x);
        }
    };
    for (k, c) in [Cl::Cap, Cl::Ext, Cl::Import, Cl::Model, Cl::Entry, Cl::Mode, Cl::Debug, Cl::Annot, Cl::Global].iter().enumerate() {
        let m = if *c == Cl::Model {
            1
        } else if k == long {
            n
        } else {
            s.idx(4)
        };
        many(s, &mut v, &mut imports, *c, m);
    }
    let fun = |s: &mut Src, v: &mut Vec<MInst>, imports: &mut Vec<u32>, params: usize| {
        v.push(of_class(s, Cl::Fun, imports));
        many(s, v, imports, Cl::Param, params);
    };
    let decls = if long == 10 { n / 4 } else { s.idx(3) + (long == 11) as usize };
    for d in 0..decls {
        let k = if long == 11 && d == 0 { n } else { s.idx(3) };
        fun(s, &mut v, &mut imports, k);
        v.push(MInst::new(56, vec![]));
    }
    let defs = if long == 12 { n / 6 } else { s.idx(2) };
    for d in 0..1 + defs {
        let k = if long == 3 { n } else { s.idx(3) };
        fun(s, &mut v, &mut imports, k);
        let blocks = if long == 9 && d == 0 { 1 + n / 4 } else { 1 + s.idx(3) };
        let onward = s.chance(128);
        for b in 0..blocks {
            v.push(MInst::new(248, vec![MOp::Res(b as u32)]));
            let k = if long == 4 { n / 2 } else { s.idx(3) };
            many(s, &mut v, &mut imports, Cl::Code, k);
            if onward && b + 1 == blocks {
                v.push(MInst::new(253, vec![]));
            } else {
                v.push(MInst::new(249, vec![MOp::Id((b + onward as usize) as u32)]));
            }
        }
        v.push(MInst::new(56, vec![]));
    }
    v
}
fn c11_large(s: &mut Src, o: &mut Obs) -> Res {
    let v = gen_large_layout(s);
    o.describe(|| format!("{} instructions", v.len()));
    let raw = match cores(&v) {
        Some(m) => m,
        None => {
            o.case(false, &0);
            return Ok(());
        }
    };
    let ok = check_preserved(raw)?;
    o.case(ok, &v);
    o.class = Some(if ok { "validated" } else { "refused" });
    Ok(())
}

pub fn arms(id: &str) -> Option<Vec<Arm>> {
    Some(match id {
        "C10" => vec![
            exh("class-sequences", c10_all_n, c10_all),
            exh("function-phase", c10_func_n, c10_func),
            exh("after-definition", c10_after_n, c10_after),
            exh("every-op-everywhere", c10_place_n, c10_place),
            rand("layouts", 60_000, 2_000_000, c10_random),
            rand("large", 400, 12_000, c10_large),
        ],
        "C11" => vec![rand("layouts", 60_000, 2_000_000, c11_random), rand("single", 300_000, 10_000_000, c11_single), rand("large", 120, 3600, c11_large), exh("every-op-everywhere", c11_place_n, c11_place)],
        _ => return None,
    })
}
