//! C01-C09, C17, C18: reading, printing, equality.

use crate::engine::*;
use crate::extsets::*;
use crate::gen;
use crate::model::*;
use crate::refdec::*;
use crate::spec::*;
use crate::{conv, logic};
use magmaflow::spv::raw::{read_module, Core, RawModule, ReadError};

type ReadOut = Result<RawModule, ReadError>;

pub fn read(bytes: &[u8], sets: &[SetDef]) -> Result<ReadOut, String> {
    sut(|| read_module(bytes, make_sets(sets)))
}

/// Decode a module for use as input of another property; None if the reader
/// refuses it (a reader defect is other properties' business).
pub fn decode_for(h: &Header, insts: &[MInst]) -> Option<RawModule> {
    let built = insts.iter().any(|i| spec().built(i.opcode).is_some());
    let bytes = if built {
        let v: Vec<MInst> = insts.iter().map(conv::stand_in).collect();
        le_bytes(&module_words(h, &v))
    } else {
        le_bytes(&module_words(h, insts))
    };
    match read(&bytes, &glsl_only()) {
        Ok(Ok(mut m)) => {
            if built {
                let list = std::mem::take(&mut m.instructions);
                if list.len() != insts.len() {
                    return None;
                }
                for (i, c) in insts.iter().zip(list) {
                    m.instructions.push(conv::from_stand_in(i, c)?);
                }
            }
            Some(m)
        }
        _ => None,
    }
}

pub fn models(m: &RawModule) -> Vec<MInst> {
    m.instructions.iter().map(conv::core).collect()
}

// ---------------------------------------------------------------- C01

fn everything(bytes: &[u8], sets: &[SetDef]) -> Res {
    match read(bytes, sets)? {
        Err(e) => sut(|| {
            let _ = format!("{} {:?}", e, e);
            #[allow(deprecated)]
            let _ = std::error::Error::description(&e).len();
        }),
        Ok(m) => sut(|| {
            let t = format!("{}", m);
            let c = m.clone();
            let _ = c == m;
            let _ = format!("{:?}", c).len();
            for i in &m.instructions {
                let _ = format!("{}", i);
            }
            drop(t);
            match magmaflow::spv::logical::validate(c) {
                Err(e) => {
                    let _ = format!("{:?}", e);
                }
                Ok(l) => {
                    let _ = format!("{:?}", l).len();
                    for f in &l.function_definitions {
                        match magmaflow::spv::logical::find_control_flow(f.clone()) {
                            Err(e) => {
                                let _ = format!("{:?}", e);
                            }
                            Ok(ch) => {
                                let _ = format!("{}", ch);
                                let _ = format!("{}", magmaflow::spv::logical::ControlFlowFunctionPrinter(f, &ch));
                            }
                        }
                    }
                }
            }
        }),
    }
}

/// Bytes of every degree of plausibility.
pub fn any_bytes(s: &mut Src) -> Vec<u8> {
    let be = s.chance(64);
    let put = |w: &[u32]| if be { be_bytes(w) } else { le_bytes(w) };
    match s.weighted(&[3, 12, 30, 30, 14]) {
        0 => {
            let n = s.len(64);
            (0..n).map(|_| s.below(256) as u8).collect()
        }
        1 => {
            // valid header, arbitrary words
            let mut w = gen::header(s).words();
            let n = s.len(24);
            for _ in 0..n {
                let x = s.word();
                w.push(x);
            }
            put(&w)
        }
        2 => {
            // plausible framing, arbitrary operand words
            let mut w = gen::header(s).words();
            let n = s.len(6);
            for _ in 0..n {
                let op = if s.chance(200) { spec().ops[s.idx(spec().ops.len())].opcode as u32 } else { s.below(340) as u32 };
                let k = s.len(9);
                w.push(((k as u32 + 1) << 16) | op);
                for _ in 0..k {
                    let x = s.word();
                    w.push(x);
                }
            }
            put(&w)
        }
        3 => {
            // well-formed module, then damage
            let h = gen::header(s);
            let m = gen::module(s, 8);
            let mut w = module_words(&h, &m);
            for _ in 0..s.below(3) {
                let i = s.idx(w.len());
                match s.below(5) {
                    0 => {
                        let x = s.word();
                        w[i] = x
                    }
                    1 => w[i] = s.other_word(w[i]),
                    2 => {
                        w.remove(i);
                    }
                    3 => {
                        let x = s.word();
                        w.insert(i, x)
                    }
                    _ => w[i] = w[i].wrapping_add(0x10000u32.wrapping_mul(1 + s.below(3) as u32)),
                }
                if w.is_empty() {
                    break;
                }
            }
            let mut b = put(&w);
            if s.chance(60) && !b.is_empty() {
                let n = s.idx(b.len());
                b.truncate(n);
            }
            if s.chance(30) {
                let n = s.below(4);
                for _ in 0..n {
                    let x = s.below(256) as u8;
                    b.push(x);
                }
            }
            b
        }
        _ => {
            // a logical layout with arbitrary control flow
            let h = gen::header(s);
            let m = logic::gen_layout(s, 4);
            let m = if s.chance(100) { logic::damage(s, m) } else { m };
            put(&module_words(&h, &m))
        }
    }
}

/// An index below n, mostly among the last few.
fn near_end(s: &mut Src, n: usize, bits: u64) -> usize {
    let k = n.min(1 << s.below(bits));
    n - 1 - s.idx(k)
}

fn c01_bytes(s: &mut Src, o: &mut Obs) -> Res {
    let (sets, b) = if s.chance(30) {
        // imports and uses of extended sets
        let (sets, w, _, _) = c08_gen(s, false);
        let mut all = gen::header(s).words();
        all.extend(w);
        (sets, if s.chance(64) { be_bytes(&all) } else { le_bytes(&all) })
    } else {
        (if s.chance(100) { gen::sets(s) } else { glsl_only() }, any_bytes(s))
    };
    let r = decode(&b, &sets);
    let nontrivial = match &r.result {
        Ok((_, i)) => !i.is_empty(),
        Err(e) => !(e == "BadMagic" || e.starts_with("UnknownVersion") || e == "UnknownReservedSchema" || b.len() <= 20),
    };
    o.case(nontrivial, &b);
    o.class = Some(match &r.result {
        Ok(_) => "accepted",
        Err(_) => "refused",
    });
    o.describe(|| format!("bytes {}", gen::show_bytes(&b)));
    everything(&b, &sets)
}

/// Large inputs, intact or damaged near one place.
fn c01_large(s: &mut Src, o: &mut Obs) -> Res {
    let h = gen::header(s);
    let m = if s.chance(128) { gen::many(s, true, 80_000) } else { logic::gen_large_layout(s) };
    let mut w = module_words(&h, &m);
    let damaged = s.chance(100);
    if damaged {
        let i = near_end(s, w.len(), 24);
        match s.below(3) {
            0 => w[i] = s.word(),
            1 => w[i] = s.other_word(w[i]),
            _ => {
                w.remove(i);
            }
        }
    }
    let b = if s.chance(60) { be_bytes(&w) } else { le_bytes(&w) };
    o.case(true, &b);
    o.class = Some(if damaged { "damaged" } else { "intact" });
    o.describe(|| format!("{} instructions, {}\n{}", m.len(), if damaged { "damaged" } else { "intact" }, gen::show(&m)));
    everything(&b, &glsl_only())
}

const C01_FILL: [u32; 6] = [0, 1, 2, 0x4141_4141, 0x0041_4141, 0xFFFF_FFFF];
fn c01_sweep_n(thorough: bool) -> u64 {
    if thorough { 65536 * 12 * 6 } else { 1024 * 12 * 6 + 65536 * 4 }
}
fn c01_sweep(i: u64, o: &mut Obs) -> Res {
    // opcode x word count x filler word; low opcodes get every combination
    let (op, wc, fill) = if i < 1024 * 72 {
        (i % 1024, (i / 1024) % 12, C01_FILL[(i / 1024 / 12) as usize])
    } else {
        let i = i - 1024 * 72;
        let k = i / 65536;
        (i % 65536, [0, 1, 3, 6, 2, 4, 5, 7, 8, 9, 10, 11][(k % 12) as usize], C01_FILL[((k / 12) % 6) as usize])
    };
    let mut w = Header::plain().words();
    w.extend(MInst::new(11, vec![MOp::Res(1), MOp::Str("GLSL.std.450".into())]).words());
    w.push((wc as u32) << 16 | op as u32);
    for _ in 1..wc.max(1) {
        w.push(fill);
    }
    o.case(spec().op(op as u16).is_some(), &(op, wc, fill));
    o.describe(|| format!("opcode {} word count {} filler {:#x}", op, wc, fill));
    everything(&le_bytes(&w), &glsl_only())
}

// ---------------------------------------------------------------- C02

fn check_exact(h: &Header, insts: &[MInst], be: bool, sets: &[SetDef]) -> Res {
    let w = module_words(h, insts);
    let b = if be { be_bytes(&w) } else { le_bytes(&w) };
    match read(&b, sets)? {
        Ok(m) => compare_module(h, insts, &m),
        Err(e) => Err(format!("well-formed module refused with {:?}", e)),
    }
}

fn c02_modules(s: &mut Src, o: &mut Obs) -> Res {
    let h = gen::header(s);
    let m = gen::module(s, 12);
    let be = s.chance(40);
    o.case(!m.is_empty(), &(&h, &m, be));
    o.describe(|| gen::show(&m));
    check_exact(&h, &m, be, &glsl_only())
}

/// Files of particular sizes.
fn c02_sized(s: &mut Src, o: &mut Obs) -> Res {
    let m = gen::sized(s);
    let be = s.chance(100);
    o.case(true, &(&m, be));
    o.describe(|| gen::show(&m));
    check_exact(&Header::plain(), &m, be, &glsl_only())
}

fn c02_large(s: &mut Src, o: &mut Obs) -> Res {
    let h = gen::header(s);
    let m = gen::many(s, true, 80_000);
    let be = s.chance(60);
    o.case(true, &(&h, &m, be));
    o.describe(|| gen::show(&m));
    check_exact(&h, &m, be, &glsl_only())
}

fn c02_each_n(t: bool) -> u64 {
    spec().ops.len() as u64 * if t { 200_000 } else { 12_000 }
}
fn c02_each(i: u64, o: &mut Obs) -> Res {
    let n = spec().ops.len() as u64;
    let op = &spec().ops[(i % n) as usize];
    let mut s = Src::random(mix(0xC02, i));
    let m = match op.opcode {
        11 => vec![MInst::new(11, vec![MOp::Res(s.word()), MOp::Str("GLSL.std.450".into())])],
        12 => {
            let set = s.word();
            let n = 13 + s.below(2) as u32;
            let x = s.word();
            vec![
                MInst::new(11, vec![MOp::Res(set), MOp::Str("GLSL.std.450".into())]),
                MInst::new(12, vec![MOp::Id(s.word()), MOp::Res(s.word()), MOp::Id(set), MOp::Ext(n, vec![x], conv::glsl_text(n, &[x]))]),
            ]
        }
        _ => vec![gen::inst_of(&mut s, op)],
    };
    o.case(true, &m);
    o.describe(|| gen::show(&m));
    check_exact(&Header::plain(), &m, false, &glsl_only())
}

/// One instruction, of any operation (steered by the guided search).
pub fn single(s: &mut Src) -> Vec<MInst> {
    let op = *s.pick(plain_ops());
    vec![gen::inst_of(s, op)]
}
/// The operations that need nothing before them.
fn plain_ops() -> &'static [&'static crate::spec::OpSpec] {
    static S: std::sync::OnceLock<Vec<&'static crate::spec::OpSpec>> = std::sync::OnceLock::new();
    S.get_or_init(|| spec().ops.iter().filter(|o| o.opcode != 11 && o.opcode != 12).collect())
}
fn c02_single(s: &mut Src, o: &mut Obs) -> Res {
    let m = single(s);
    o.case(true, &m);
    o.describe(|| gen::show(&m));
    check_exact(&Header::plain(), &m, false, &glsl_only())
}
fn c06_single(s: &mut Src, o: &mut Obs) -> Res {
    let m = single(s);
    let mut w = module_words(&Header::plain(), &m);
    if s.chance(60) {
        let n = w.len();
        let i = 5 + s.idx(n - 5);
        w[i] = s.other_word(w[i]);
    }
    o.case(true, &w);
    o.describe(|| gen::show(&m));
    let r1 = read(&le_bytes(&w), &glsl_only())?;
    let r2 = read(&be_bytes(&w), &glsl_only())?;
    let (t1, t2) = (outcome_text(&r1)?, outcome_text(&r2)?);
    if t1 != t2 {
        return Err(format!("little-endian: {} | big-endian: {}", clip(&t1), clip(&t2)));
    }
    Ok(())
}
fn c09_single(s: &mut Src, o: &mut Obs) -> Res {
    let m = single(s);
    o.case(true, &m);
    o.describe(|| gen::show(&m));
    match decode_for(&Header::plain(), &m) {
        Some(r) => check_text(&r),
        None => Ok(()),
    }
}
fn c17_single(s: &mut Src, o: &mut Obs) -> Res {
    let a = single(s);
    let b = if s.chance(40) { a.clone() } else { vec![mutate_inst(s, &a[0])] };
    let (wa, wb) = (module_words(&Header::plain(), &a), module_words(&Header::plain(), &b));
    o.describe(|| format!("{}and {}", gen::show(&a), gen::show(&b)));
    let (ra, rb) = match (read(&le_bytes(&wa), &glsl_only())?, read(&le_bytes(&wb), &glsl_only())?) {
        (Ok(x), Ok(y)) => (x, y),
        _ => {
            o.case(false, &(&wa, &wb));
            return Ok(());
        }
    };
    o.case(true, &(&wa, &wb));
    c17_check(&ra, &rb, models(&ra) == models(&rb), "modules of one instruction")?;
    let c = sut(|| ra.clone())?;
    c17_check(&ra, &c, true, "clone")?;
    if models(&c) != models(&ra) {
        return Err("clone contains something else".into());
    }
    Ok(())
}

/// Every (operand position of enumerant kind, enumerant): a template of the
/// instruction with that enumerant in that place.
pub fn enum_sites() -> &'static [(usize, usize, usize, usize)] {
    static S: std::sync::OnceLock<Vec<(usize, usize, usize, usize)>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v = Vec::new();
        for (oi, op) in spec().ops.iter().enumerate() {
            for (ki, k) in op.kinds.iter().enumerate() {
                let t = match k {
                    K::En(t) => *t,
                    K::Opt(b) => match **b {
                        K::En(t) => t,
                        _ => continue,
                    },
                    _ => continue,
                };
                for vi in 0..ENUMS[t].values.len() {
                    v.push((oi, ki, t, vi));
                }
            }
        }
        v
    })
}

/// Instruction with enumerant `vi` of table t at operand ki, other operands random.
pub fn with_enumerant(s: &mut Src, site: (usize, usize, usize, usize)) -> (MInst, usize) {
    let (oi, ki, t, vi) = site;
    let op = &spec().ops[oi];
    let mut out = Vec::new();
    let mut at = 0;
    for (i, k) in op.kinds.iter().enumerate() {
        if i == ki {
            at = out.len();
            out.push(MOp::En(t, ENUMS[t].values[vi].0));
            for p in &spec().params[t][vi] {
                gen::kind(s, p, &mut out);
            }
        } else {
            if op.opcode == 3 && i == 3 && out.len() < 3 {
                continue;
            }
            gen::kind(s, k, &mut out);
        }
    }
    (MInst { opcode: op.opcode, ops: out }, at)
}

fn c02_enums_n(t: bool) -> u64 {
    enum_sites().len() as u64 * if t { 10_000 } else { 600 }
}
fn c02_enums(i: u64, o: &mut Obs) -> Res {
    let sites = enum_sites();
    let mut s = Src::random(mix(0xE02, i));
    let (m, _) = with_enumerant(&mut s, sites[(i % sites.len() as u64) as usize]);
    let m = vec![m];
    o.case(true, &m);
    o.describe(|| gen::show(&m));
    check_exact(&Header::plain(), &m, false, &glsl_only())
}

pub fn mask_sites() -> &'static [(usize, usize, usize)] {
    static S: std::sync::OnceLock<Vec<(usize, usize, usize)>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v = Vec::new();
        for (oi, op) in spec().ops.iter().enumerate() {
            for (ki, k) in op.kinds.iter().enumerate() {
                match k {
                    K::Mask(t) => v.push((oi, ki, *t)),
                    K::Opt(b) => {
                        if let K::Mask(t) = **b {
                            v.push((oi, ki, t))
                        }
                    }
                    K::En(t) if ENUMS[*t].name == "Decoration" => v.push((oi, ki, mask_index("FpFastMathMode"))),
                    _ => {}
                }
            }
        }
        v
    })
}
pub fn with_mask(s: &mut Src, site: (usize, usize, usize), bits: u32) -> MInst {
    let (oi, ki, t) = site;
    let op = &spec().ops[oi];
    let mut out = Vec::new();
    for (i, k) in op.kinds.iter().enumerate() {
        if i == ki {
            if let K::En(d) = k {
                out.push(MOp::En(*d, 40));
            }
            let p = (0..mask_params(t, bits)).map(|_| s.word()).collect();
            out.push(MOp::Mask(t, bits, p));
        } else {
            gen::kind(s, k, &mut out);
        }
    }
    MInst { opcode: op.opcode, ops: out }
}
fn c02_masks_n(t: bool) -> u64 {
    mask_sites().len() as u64 * 32 * if t { 200 } else { 16 }
}
fn c02_masks(i: u64, o: &mut Obs) -> Res {
    let sites = mask_sites();
    let site = sites[(i % sites.len() as u64) as usize];
    let bits = ((i / sites.len() as u64) % 32) as u32 & mask_known(site.2);
    let mut s = Src::random(mix(0x302, i));
    let m = vec![with_mask(&mut s, site, bits)];
    o.case(true, &m);
    o.describe(|| gen::show(&m));
    check_exact(&Header::plain(), &m, false, &glsl_only())
}

const STR_OPS: [u16; 9] = [2, 4, 5, 6, 7, 10, 15, 31, 3];
fn str_inst(s: &mut Src, text: String) -> MInst {
    let code = *s.pick(&STR_OPS);
    let op = spec().op(code).unwrap();
    let mut out = Vec::new();
    for k in &op.kinds {
        match k {
            K::Str => out.push(MOp::Str(text.clone())),
            K::Opt(b) if **b == K::Str => out.push(MOp::Str(text.clone())),
            K::Opt(b) if code == 3 => gen::kind(s, b, &mut out),
            _ => gen::kind(s, k, &mut out),
        }
    }
    MInst { opcode: code, ops: out }
}
fn c02_strings(s: &mut Src, o: &mut Obs) -> Res {
    let text = gen::string(s);
    let m = vec![str_inst(s, text), gen::plain_inst(s)];
    let be = s.chance(128);
    o.case(true, &(&m, be));
    o.describe(|| gen::show(&m));
    check_exact(&Header::plain(), &m, be, &glsl_only())
}

fn long_inst(s: &mut Src) -> MInst {
    let room = [65534usize, 65533, 65500, 40000, 32768, 32767, 16384, 4096];
    let words = room[s.idx(room.len())];
    let code = *s.pick(&[30u16, 33, 43, 44, 65, 15, 245, 5, 7, 10, 2]);
    let op = spec().op(code).unwrap();
    let mut out = Vec::new();
    let base = s.word();
    for k in &op.kinds {
        let used: usize = MInst::new(code, out.clone()).operand_words().len();
        let left = words - used;
        match k {
            K::Ids => out.extend((0..left).map(|i| MOp::Id(base.wrapping_add(i as u32)))),
            K::Lits => out.extend((0..left).map(|i| MOp::Lit(base.wrapping_mul(i as u32)))),
            K::Pairs => out.extend((0..left / 2 * 2).map(|i| MOp::Id(base.wrapping_add(i as u32)))),
            K::Str if code != 15 => {
                let n = left * 4 - 1 - s.idx(4);
                let t: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                out.push(MOp::Str(t));
            }
            _ => gen::kind(s, k, &mut out),
        }
    }
    MInst { opcode: code, ops: out }
}
fn c02_long(s: &mut Src, o: &mut Obs) -> Res {
    let m = vec![gen::plain_inst(s), long_inst(s), gen::plain_inst(s)];
    o.case(true, &m);
    o.describe(|| format!("{} with {} words between two ordinary instructions", spec().op(m[1].opcode).unwrap().name, m[1].word_len()));
    check_exact(&Header::plain(), &m, s.chance(100), &glsl_only())
}

// ---------------------------------------------------------------- C03

/// Check malformedness verdict on words; exact error when a single fault.
fn verdict(w: &[u32], be: bool, exact: bool, o: &mut Obs) -> Res {
    let b = if be { be_bytes(w) } else { le_bytes(w) };
    let r = decode(&b, &glsl_only());
    let got = read(&b, &glsl_only())?;
    o.nontrivial &= r.result.is_err();
    // decoded values of accepted modules are C02's business
    match (&r.result, &got) {
        (Err(e), Ok(m)) => Err(format!("malformed input accepted as {} instructions; expected {}", m.instructions.len(), e)),
        (Err(e), Err(g)) if exact && !r.loose => {
            let g = format!("{:?}", g);
            if g == *e {
                Ok(())
            } else {
                Err(format!("wrong error for the only fault: expected {}, got {}", e, g))
            }
        }
        _ => Ok(()),
    }
}

const BAD_UTF8: [&[u8]; 22] = [
    // surrogate pairs (CESU-8), the long zero of modified UTF-8 within text, five and six byte forms,
    // Latin-1 and UTF-16 left in
    &[0xED, 0xA0, 0xBD, 0xED, 0xB8, 0x80], &[0xED, 0xA0, 0x80, 0xED, 0xB0, 0x80], &[b'a', 0xC0, 0x80, b'b'], &[0xF8, 0x88, 0x80, 0x80, 0x80],
    &[0xFC, 0x84, 0x80, 0x80, 0x80, 0x80], &[b'f', 0xFC, b'r'], &[0xFF, 0xFE, b'a'], &[0xE9],
    &[0x80], &[0xBF], &[0xC0, 0x80], &[0xC1, 0xBF], &[0xE0, 0x80, 0x80], &[0xED, 0xA0, 0x80], &[0xED, 0xBF, 0xBF],
    &[0xF0, 0x80, 0x80, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xF5, 0x80, 0x80, 0x80], &[0xFF], &[0xFE], &[0xE2, 0x82], &[0xF0, 0x9F, 0x98],
];

fn raw_string_words(b: &[u8]) -> Vec<u32> {
    let mut v = b.to_vec();
    v.push(0);
    while v.len() % 4 != 0 {
        v.push(0);
    }
    v.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}

/// Undefined value of an enum table.
fn undefined_value(s: &mut Src, t: usize) -> u32 {
    loop {
        let v = s.word();
        if spec().en(t, v).is_none() {
            return v;
        }
        let v = 200 + s.below(1000) as u32;
        if spec().en(t, v).is_none() {
            return v;
        }
    }
}

/// Operand words with a planted fault; returns (words, name of fault).
pub fn faulty_words(s: &mut Src, m: &MInst) -> Option<(Vec<u32>, &'static str)> {
    let head = |w: &mut Vec<u32>| w[0] = (w.len() as u32) << 16 | m.opcode as u32;
    match s.weighted(&[2, 6, 6, 8, 6, 3, 5]) {
        0 => {
            let mut w = m.words();
            w[0] &= 0xFFFF;
            Some((w, "zero word count"))
        }
        1 => {
            let mut w = m.words();
            let n = w.len() - 1;
            if n == 0 {
                return None;
            }
            let k = 1 + s.idx(n);
            w.truncate(w.len() - k);
            head(&mut w);
            Some((w, "missing words"))
        }
        2 => {
            let mut w = m.words();
            for _ in 0..1 + s.below(4) {
                let x = s.word();
                w.push(x);
            }
            head(&mut w);
            Some((w, "excess words"))
        }
        3 => {
            // undefined enumerant: rebuild operand words with one replaced; drop its parameters
            let sites: Vec<usize> = (0..m.ops.len()).filter(|i| matches!(m.ops[*i], MOp::En(t, _) if !ENUMS[t].open)).collect();
            if sites.is_empty() {
                return None;
            }
            let at = *s.pick(&sites);
            let t = if let MOp::En(t, _) = m.ops[at] { t } else { unreachable!() };
            let v = undefined_value(s, t);
            let mut w = vec![0];
            for (i, op) in m.ops.iter().enumerate() {
                if i == at {
                    w.push(v);
                } else {
                    op_words(op, &mut w);
                }
            }
            head(&mut w);
            Some((w, "undefined enumerant"))
        }
        4 => {
            let sites: Vec<usize> = (0..m.ops.len()).filter(|i| matches!(m.ops[*i], MOp::Mask(..))).collect();
            if sites.is_empty() {
                return None;
            }
            let at = *s.pick(&sites);
            let mut w = vec![0];
            for (i, op) in m.ops.iter().enumerate() {
                if i == at {
                    if let MOp::Mask(t, b, p) = op {
                        let mut bad;
                        loop {
                            bad = b | 1 << s.below(32);
                            if s.chance(40) {
                                bad |= s.word();
                            }
                            if bad & !mask_known(*t) != 0 {
                                break;
                            }
                            bad = b | 0x8000_0000;
                            break;
                        }
                        w.push(bad);
                        w.extend_from_slice(p);
                    }
                } else {
                    op_words(op, &mut w);
                }
            }
            head(&mut w);
            Some((w, "undefined flag bits"))
        }
        k => {
            let sites: Vec<usize> = (0..m.ops.len()).filter(|i| matches!(m.ops[*i], MOp::Str(_))).collect();
            if sites.is_empty() {
                return None;
            }
            let at = *s.pick(&sites);
            let mut w = vec![0];
            for (i, op) in m.ops.iter().enumerate() {
                if i != at {
                    op_words(op, &mut w);
                    continue;
                }
                let text = if let MOp::Str(t) = op { t.clone() } else { unreachable!() };
                if k == 5 {
                    // unterminated: the instruction ends inside the string
                    let mut b = text.into_bytes();
                    while b.len() % 4 != 0 || b.is_empty() {
                        b.push(b'x');
                    }
                    w.extend(b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])));
                    break;
                } else {
                    let bad = *s.pick(&BAD_UTF8);
                    let mut b = text.into_bytes();
                    // insert at a character boundary or at the end
                    let p = s.idx(b.len() + 1);
                    for (j, x) in bad.iter().enumerate() {
                        b.insert(p + j, *x);
                    }
                    // sometimes more of the kind, or any bytes at all
                    for _ in 0..s.below(3) {
                        let p = s.idx(b.len() + 1);
                        if s.chance(128) {
                            let more: &[u8] = *s.pick(&BAD_UTF8);
                            b.splice(p..p, more.iter().cloned());
                        } else {
                            b.insert(p, 0x80 | s.below(128) as u8);
                        }
                    }
                    if std::str::from_utf8(&b).is_ok() {
                        return None;
                    }
                    w.extend(raw_string_words(&b));
                }
            }
            head(&mut w);
            Some((w, if k == 5 { "unterminated string" } else { "string not UTF-8" }))
        }
    }
}

fn c03_single(s: &mut Src, o: &mut Obs) -> Res {
    let before = gen::module(s, 3);
    let victim = gen::plain_inst(s);
    let after = gen::module(s, 2).into_iter().filter(|i| i.opcode != 12 && i.opcode != 11).collect::<Vec<_>>();
    let (fw, what) = match faulty_words(s, &victim) {
        Some(x) => x,
        None => {
            o.case(false, &0);
            return Ok(());
        }
    };
    if fw.len() > 0xFFFF {
        return Ok(());
    }
    let mut w = module_words(&Header::plain(), &before);
    w.extend(&fw);
    for i in &after {
        w.extend(i.words());
    }
    let be = s.chance(50);
    o.case(true, &(&w, be));
    o.class = Some(what);
    o.describe(|| format!("{} in {} | words {}", what, victim.text(), gen::show_words(&fw)));
    verdict(&w, be, true, o)
}

/// Files of particular sizes that end in something malformed.
fn c03_sized(s: &mut Src, o: &mut Obs) -> Res {
    let mut m = gen::sized(s);
    let tail: Vec<u32> = match s.below(4) {
        0 => vec![0; 1 + s.below(3) as usize],
        1 => vec![s.word()],
        2 => vec![s.below(300) as u32; 1 + s.below(2) as usize],
        _ => {
            let victim = gen::plain_inst(s);
            match faulty_words(s, &victim) {
                Some((w, _)) if w.len() < 20 => w,
                _ => vec![0],
            }
        }
    };
    // the size is that of the whole file, more often than not
    if s.chance(180) {
        let mut n = 0;
        while n < tail.len() {
            match m.pop() {
                Some(i) => n += i.word_len(),
                None => break,
            }
        }
        for _ in tail.len()..n.max(tail.len()) {
            m.push(MInst::new(0, vec![]));
        }
    }
    let mut w = module_words(&Header::plain(), &m);
    w.extend(&tail);
    let be = s.chance(50);
    o.case(true, &(&w, be));
    o.describe(|| format!("{} words, the last ones {}", w.len(), gen::show_words(&tail)));
    verdict(&w, be, false, o)
}

/// The same, late in a large module.
fn c03_large(s: &mut Src, o: &mut Obs) -> Res {
    let before = gen::many(s, true, 20_000);
    let victim = gen::plain_inst(s);
    let after = if s.chance(128) { gen::many(s, false, 2_000) } else { vec![] };
    let (fw, what) = match faulty_words(s, &victim) {
        Some(x) if x.0.len() <= 0xFFFF => x,
        _ => {
            o.case(false, &0);
            return Ok(());
        }
    };
    let mut w = module_words(&Header::plain(), &before);
    w.extend(&fw);
    for i in &after {
        w.extend(i.words());
    }
    let be = s.chance(50);
    o.case(true, &(&w, be));
    o.class = Some(what);
    o.describe(|| format!("{} in {} after {} instructions", what, victim.text(), before.len()));
    verdict(&w, be, true, o)
}

fn c03_cut_n(t: bool) -> u64 {
    spec().ops.len() as u64 * 24 * if t { 4000 } else { 200 }
}
/// Every operation cut or extended to every length 1..=24 (declared length).
fn c03_cut(i: u64, o: &mut Obs) -> Res {
    let n = spec().ops.len() as u64;
    let op = &spec().ops[(i % n) as usize];
    let wc = ((i / n) % 24 + 1) as usize;
    let mut s = Src::random(mix(0xC03C, i / 24));
    let mut pre = Vec::new();
    let m = match op.opcode {
        11 => MInst::new(11, vec![MOp::Res(s.word()), MOp::Str("GLSL.std.450".into())]),
        12 => {
            pre.push(MInst::new(11, vec![MOp::Res(5), MOp::Str("GLSL.std.450".into())]));
            MInst::new(12, vec![MOp::Id(s.word()), MOp::Res(s.word()), MOp::Id(5), MOp::Ext(13, vec![7], String::new())])
        }
        _ => gen::inst_of(&mut s, op),
    };
    let mut w = m.words();
    while w.len() < wc {
        let x = s.word();
        w.push(x);
    }
    w.truncate(wc);
    w[0] = (wc as u32) << 16 | op.opcode as u32;
    let mut all = module_words(&Header::plain(), &pre);
    all.extend(&w);
    o.case(true, &all);
    o.describe(|| format!("{} given {} words: {}", op.name, wc, gen::show_words(&w)));
    verdict(&all, false, true, o)
}

/// Undefined enumerants: every enumerant position, every value below 512 plus
/// powers of two and numbers occurring in the code.
fn enum_probe_values() -> &'static [u32] {
    static S: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<u32> = (0..512).collect();
        for b in 9..32 {
            let p = 1u32 << b;
            v.extend([p - 1, p, p + 1]);
            for low in 0..64 {
                v.push(p | low);
            }
        }
        for x in [0xFFFFu32, 0xFFFF_FFFF, 0xFFFF_FFFE, 0xFFFF_FF00, 0x0100_0000] {
            v.push(x);
        }
        v.extend(dict().iter().copied());
        v.sort();
        v.dedup();
        v
    })
}
fn enum_positions() -> &'static [(usize, usize, usize)] {
    static S: std::sync::OnceLock<Vec<(usize, usize, usize)>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<(usize, usize, usize)> = enum_sites().iter().map(|x| (x.0, x.1, x.2)).collect();
        v.dedup();
        v
    })
}
/// positions of enumerants that are parameters of decorations
const SUB: [(u32, &str); 4] = [(11, "BuiltIn"), (38, "FunctionParameterAttribute"), (39, "FpRoundingMode"), (41, "LinkageType")];
fn c03_enum_n(_: bool) -> u64 {
    ((enum_positions().len() + 8) * enum_probe_values().len()) as u64
}
fn c03_enum(i: u64, o: &mut Obs) -> Res {
    let vals = enum_probe_values();
    let v = vals[(i % vals.len() as u64) as usize];
    let p = (i / vals.len() as u64) as usize;
    let mut s = Src::random(mix(0xC03E, i));
    let (m, t) = if p < enum_positions().len() {
        let (oi, ki, t) = enum_positions()[p];
        let op = &spec().ops[oi];
        let mut out = Vec::new();
        for (j, k) in op.kinds.iter().enumerate() {
            if j == ki {
                out.push(MOp::En(t, v));
                if let Some((_, ps)) = spec().en(t, v) {
                    for p in ps {
                        gen::kind(&mut s, p, &mut out);
                    }
                }
            } else if op.opcode == 3 {
                if j == 1 {
                    gen::kind(&mut s, k, &mut out);
                }
            } else {
                gen::kind(&mut s, k, &mut out);
            }
        }
        (MInst::new(op.opcode, out), t)
    } else {
        let q = p - enum_positions().len();
        let (d, n) = SUB[q % 4];
        let t = enum_index(n);
        let mut out = vec![MOp::Id(3)];
        let code = if q < 4 { 71 } else { 72 };
        if code == 72 {
            out.push(MOp::Lit(1));
        }
        out.push(MOp::En(enum_index("Decoration"), d));
        if d == 41 {
            out.push(MOp::Str("nm".into()));
        }
        out.push(MOp::En(t, v));
        (MInst::new(code, out), t)
    };
    let mut w = module_words(&Header::plain(), &[m.clone()]);
    w.extend(MInst::new(253, vec![]).words());
    o.case(true, &m);
    let _ = t;
    o.describe(|| format!("{:?}", m));
    verdict(&w, false, true, o)
}

fn c03_mask_n(_: bool) -> u64 {
    mask_sites().len() as u64 * 32 * (32 + 32 * 31 / 2)
}
/// Undefined flag bits: every mask position, every defined subset, every one or
/// two further bits of the 32.
fn c03_mask(i: u64, o: &mut Obs) -> Res {
    let sites = mask_sites();
    let n = sites.len() as u64;
    let site = sites[(i % n) as usize];
    let known = ((i / n) % 32) as u32 & mask_known(site.2);
    let q = i / n / 32;
    let extra = if q < 32 {
        1u32 << q
    } else {
        // the q-32'th pair
        let mut k = q - 32;
        let mut a = 0;
        while k >= 31 - a {
            k -= 31 - a;
            a += 1;
        }
        1u32 << a | 1u32 << (a + 1 + k)
    };
    let bits = known | extra;
    let mut s = Src::random(mix(0xC03F, i));
    let m = with_mask(&mut s, site, bits);
    let w = module_words(&Header::plain(), &[m.clone()]);
    o.case(true, &m);
    o.describe(|| format!("{} flag word {:#x}", spec().ops[site.0].name, bits));
    verdict(&w, false, true, o)
}

/// Arbitrary operand words: accepted exactly when the reference grammar does.
fn c03_words(s: &mut Src, o: &mut Obs) -> Res {
    let mut w = Header::plain().words();
    let n = 1 + s.len(2);
    for _ in 0..n {
        let op = &spec().ops[s.idx(spec().ops.len())];
        let k = s.len(10) as u32;
        w.push((k + 1) << 16 | op.opcode as u32);
        for _ in 0..k {
            let x = match s.weighted(&[3, 2, 1]) {
                0 => s.below(48) as u32,
                1 => *s.pick(&[0x0061_6161u32, 0x6161_6161, 0x0000_0061, 0, 1, 2]),
                _ => s.word(),
            };
            w.push(x);
        }
    }
    o.case(true, &w);
    o.describe(|| gen::show_words(&w));
    verdict(&w, s.chance(50), n == 1, o)
}

// ---------------------------------------------------------------- C04

fn c04_identity(op: u16, wc: u16, e: &ReadOut) -> Res {
    let text = match e {
        Ok(m) => format!("accepted as {:?}", m.instructions.last().map(conv::core)),
        Err(e) => format!("{:?}", e),
    };
    let unknown = format!("UnknownOp({}, {})", op, wc);
    if let Some((_, n)) = UNIMPLEMENTED.iter().find(|u| u.0 == op) {
        if text != format!("UnimplementedOp({:?})", n) {
            return Err(format!("opcode {} is {}: expected UnimplementedOp of that name, got {}", op, n, text));
        }
    } else if let Some((_, n)) = UNLISTED.iter().find(|u| u.0 == op) {
        if text != unknown && text != format!("UnimplementedOp({:?})", n) {
            return Err(format!("opcode {} ({}) with {} words: got {}", op, n, wc, text));
        }
    } else if text != unknown {
        return Err(format!("opcode {} is not defined: expected {}, got {}", op, unknown, text));
    }
    Ok(())
}

fn c04_all_n(t: bool) -> u64 {
    65536 * if t { 40 } else { 8 }
}
fn c04_all(i: u64, o: &mut Obs) -> Res {
    let op = (i % 65536) as u16;
    let round = i / 65536;
    let mut s = Src::random(mix(0xC04, i));
    let mut w = Header::plain().words();
    let wc: u16;
    let sp = spec().op(op);
    let insts;
    match sp {
        Some(o) => {
            insts = match op {
                11 => vec![MInst::new(11, vec![MOp::Res(9), MOp::Str("GLSL.std.450".into())])],
                12 => vec![
                    MInst::new(11, vec![MOp::Res(9), MOp::Str("GLSL.std.450".into())]),
                    MInst::new(12, vec![MOp::Id(1), MOp::Res(2), MOp::Id(9), MOp::Ext(13, vec![4], conv::glsl_text(13, &[4]))]),
                ],
                _ => vec![gen::inst_of(&mut s, o)],
            };
            wc = 0;
            for i in &insts {
                w.extend(i.words());
            }
        }
        None => {
            insts = vec![];
            wc = match round {
                0 => 1,
                1 => 2,
                2 => 4,
                3 => 5,
                4 => 3,
                _ => 1 + s.below(40) as u16,
            };
            if round % 2 == 1 {
                w.extend(MInst::new(17, vec![MOp::En(enum_index("Capability"), 1)]).words());
            }
            w.push((wc as u32) << 16 | op as u32);
            for _ in 1..wc {
                let x = s.word();
                w.push(x);
            }
            if round % 3 == 1 {
                w.extend(MInst::new(253, vec![]).words());
            }
        }
    }
    let be = round % 4 == 3;
    let b = if be { be_bytes(&w) } else { le_bytes(&w) };
    o.case(true, &(op, &w));
    o.describe(|| format!("opcode {} words {}", op, gen::show_words(&w[5..])));
    let got = read(&b, &glsl_only())?;
    match sp {
        None => c04_identity(op, wc, &got),
        Some(sp) => match got {
            Err(e) => {
                let t = format!("{:?}", e);
                if t.starts_with("UnknownOp(") || t.starts_with("UnimplementedOp(") {
                    Err(format!("supported opcode {} ({}) refused as {}", op, sp.name, t))
                } else {
                    Ok(())
                }
            }
            Ok(m) => {
                if m.instructions.len() != insts.len() {
                    return Err(format!("{} instructions decoded from {}", m.instructions.len(), insts.len()));
                }
                let c = conv::core(m.instructions.last().unwrap());
                let text = sut(|| format!("{}", m.instructions.last().unwrap()))?;
                let shown = text.split_whitespace().find(|t| t.starts_with("Op")).unwrap_or("").to_string();
                if c.opcode != op || shown != sp.name {
                    return Err(format!("opcode {} is {} but was decoded as {} ({})", op, sp.name, spec().op(c.opcode).map(|o| o.name).unwrap_or("?"), shown));
                }
                Ok(())
            }
        },
    }
}

fn c04_context(s: &mut Src, o: &mut Obs) -> Res {
    let before = gen::module(s, 5);
    c04_after(s, o, before)
}
fn c04_large(s: &mut Src, o: &mut Obs) -> Res {
    let before = gen::many(s, true, 20_000);
    c04_after(s, o, before)
}
fn c04_after(s: &mut Src, o: &mut Obs, before: Vec<MInst>) -> Res {
    let mut op;
    loop {
        op = match s.below(3) {
            0 => s.pick(UNIMPLEMENTED).0,
            1 => s.below(400) as u16,
            _ => s.word() as u16,
        };
        if spec().op(op).is_none() {
            break;
        }
        op = 321;
        break;
    }
    let long = s.chance(10);
    let wc = if long { 60000 + s.below(5536) as u16 } else { 1 + s.below(20) as u16 };
    let mut w = module_words(&Header::plain(), &before);
    w.push((wc as u32) << 16 | op as u32);
    // operand words may look like instructions themselves
    for _ in 1..wc {
        let x = if long { 0x0001_00FD } else if s.chance(128) { 0x0001_0000 | s.below(256) as u32 } else { s.word() };
        w.push(x);
    }
    let after = gen::module(s, 3);
    for i in &after {
        if i.opcode != 12 {
            w.extend(i.words());
        }
    }
    let be = s.chance(64);
    let b = if be { be_bytes(&w) } else { le_bytes(&w) };
    o.case(true, &w);
    o.describe(|| format!("opcode {} with {} words after {} instructions", op, wc, before.len()));
    // an instruction before it that the reader wrongly refuses is not this property's business
    if !matches!(read(&le_bytes(&module_words(&Header::plain(), &before)), &glsl_only())?, Ok(_)) {
        return Ok(());
    }
    c04_identity(op, wc, &read(&b, &glsl_only())?)
}

// ---------------------------------------------------------------- C05

fn check_header(h: &Header, body: &[MInst], be: bool) -> Res {
    let w = module_words(h, body);
    let b = if be { be_bytes(&w) } else { le_bytes(&w) };
    let got = read(&b, &glsl_only())?;
    let mut faults: Vec<&str> = Vec::new();
    let magic_ok = h.magic == MAGIC;
    if !magic_ok {
        faults.push("BadMagic");
    }
    if h.version != 0x0001_0000 {
        faults.push("UnknownVersion");
    }
    if h.schema != 0 {
        faults.push("UnknownReservedSchema");
    }
    match got {
        Ok(m) => {
            if !faults.is_empty() {
                return Err(format!("header {:x?} accepted; expected {:?}", h, faults));
            }
            compare_header(h, &m)?;
            let text = sut(|| format!("{}", m))?;
            let expect = module_text(h, &[]);
            if !text.starts_with(&expect) {
                return Err(format!("header printed as {:?}, expected {:?}", text.lines().take(5).collect::<Vec<_>>(), expect));
            }
            Ok(())
        }
        Err(e) => {
            let t = format!("{:?}", e);
            if faults.is_empty() {
                return if t.contains("Magic") || t.contains("Version") || t.contains("Schema") || t.contains("Stream") {
                    Err(format!("valid header {:x?} refused with {}", h, t))
                } else {
                    Ok(())
                };
            }
            if !faults.iter().any(|f| t.starts_with(f)) {
                return Err(format!("header {:x?}: expected {:?}, got {}", h, faults, t));
            }
            if faults == ["UnknownVersion"] {
                let b = h.version.to_be_bytes();
                let want = format!("UnknownVersionBytes({}, {}, {}, {})", b[0], b[1], b[2], b[3]);
                if t.starts_with("UnknownVersionBytes") && t != want {
                    return Err(format!("version word {:#010x} reported as {}", h.version, t));
                }
            }
            Ok(())
        }
    }
}

fn c05_sweep_n(t: bool) -> u64 {
    if t { 65536 * 6 + 4096 + (1 << 22) } else { 65536 * 4 + 4096 }
}
/// All tools, all generator versions, all values of each version byte, all
/// single- and double-bit changes of magic, version and schema.
fn c05_sweep(i: u64, o: &mut Obs) -> Res {
    let mut h = Header::plain();
    let be = i % 2 == 1;
    if i < 65536 {
        h.generator = (i as u32) << 16 | (i as u32).wrapping_mul(40503) & 0xFFFF;
        h.bound = (i as u32).wrapping_mul(0x9E37_79B9);
    } else if i < 2 * 65536 {
        h.generator = (i as u32 & 15) << 16 | (i - 65536) as u32;
    } else if i < 3 * 65536 {
        // both middle version bytes
        h.version = ((i - 2 * 65536) as u32) << 8;
    } else if i < 4 * 65536 {
        let k = (i - 3 * 65536) as u32;
        h.version = (k & 0xFF00) << 16 | 0x0001_0000 | (k & 0xFF);
    } else if i < 4 * 65536 + 4096 {
        let k = (i - 4 * 65536) as u32;
        let bits = 1u32 << (k & 31) | if k & 0x400 != 0 { 1u32 << (k >> 5 & 31) } else { 0 };
        match k >> 11 {
            0 => {
                if k & 0x400 == 0 && k >> 5 & 1 == 1 {
                    h.schema = bits
                } else {
                    h.magic ^= bits
                }
            }
            _ => {
                if k >> 5 & 1 == 0 {
                    h.version ^= bits
                } else {
                    h.schema = bits | (k & 0x3FF)
                }
            }
        }
        if h.magic == MAGIC.swap_bytes() {
            h.magic = 0;
        }
    } else {
        let mut r = Rng::new(i);
        match r.below(4) {
            0 => h.version = r.next() as u32,
            1 => h.magic = r.next() as u32,
            2 => h.schema = r.next() as u32,
            _ => {
                h.generator = r.next() as u32;
                h.bound = r.next() as u32
            }
        }
        if h.magic == MAGIC.swap_bytes() {
            h.magic = 0;
        }
    }
    o.case(true, &(&h, be));
    o.describe(|| format!("{:x?}", h));
    check_header(&h, &[], be)
}
fn c05_rand(s: &mut Src, o: &mut Obs) -> Res {
    let mut h = gen::header(s);
    for _ in 0..s.below(3) {
        match s.below(3) {
            0 => h.magic = if s.chance(128) { s.other_word(MAGIC) } else { s.word() },
            1 => h.version = if s.chance(128) { s.other_word(0x0001_0000) } else { s.word() },
            _ => h.schema = s.word(),
        }
    }
    if h.magic == MAGIC.swap_bytes() {
        h.magic = 0;
    }
    let body = gen::module(s, 4);
    let be = s.chance(128);
    o.case(true, &(&h, &body, be));
    o.describe(|| format!("{:x?} + {} instructions", h, body.len()));
    check_header(&h, &body, be)
}

// ---------------------------------------------------------------- C06

fn outcome_text(r: &ReadOut) -> Result<String, String> {
    match r {
        Ok(m) => {
            let t = sut(|| format!("{}", m))?;
            Ok(format!("Ok {:?} {:?} {} {:?}\n{}", m.version, m.generator, m.bound, models(m), t))
        }
        Err(e) => Ok(format!("Err {:?}", e)),
    }
}
fn swap_words(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len());
    for c in b.chunks(4) {
        if c.len() == 4 {
            v.extend(c.iter().rev());
        } else {
            v.extend(c);
        }
    }
    v
}
fn c06(s: &mut Src, o: &mut Obs) -> Res {
    let sets = if s.chance(60) { gen::sets(s) } else { glsl_only() };
    let b = any_bytes(s);
    let sw = swap_words(&b);
    let header_ok = b.len() >= 24 && (b[..4] == MAGIC.to_le_bytes() || b[..4] == MAGIC.to_be_bytes());
    o.case(header_ok, &b);
    o.describe(|| format!("bytes {}", gen::show_bytes(&b)));
    let r1 = read(&b, &sets)?;
    let r2 = read(&sw, &sets)?;
    o.class = Some(if r1.is_ok() { "accepted" } else { "refused" });
    let (t1, t2) = (outcome_text(&r1)?, outcome_text(&r2)?);
    if t1 != t2 {
        return Err(format!("as given: {} | word-swapped: {}", clip(&t1), clip(&t2)));
    }
    Ok(())
}
fn c06_strings(s: &mut Src, o: &mut Obs) -> Res {
    let text = gen::string(s);
    let m = vec![gen::plain_inst(s), str_inst(s, text), gen::plain_inst(s)];
    let h = gen::header(s);
    let w = module_words(&h, &m);
    o.case(true, &w);
    o.describe(|| gen::show(&m));
    let r1 = read(&le_bytes(&w), &glsl_only())?;
    let r2 = read(&be_bytes(&w), &glsl_only())?;
    let (t1, t2) = (outcome_text(&r1)?, outcome_text(&r2)?);
    if t1 != t2 {
        return Err(format!("little-endian: {} | big-endian: {}", clip(&t1), clip(&t2)));
    }
    Ok(())
}
/// Files of particular sizes, whole or with something wrong near the end.
fn c06_sized(s: &mut Src, o: &mut Obs) -> Res {
    let m = gen::sized(s);
    let mut w = module_words(&Header::plain(), &m);
    let mut cut = 0;
    match s.below(4) {
        0 => {
            let i = near_end(s, w.len(), 24);
            w[i] = s.other_word(w[i]);
        }
        1 => cut = s.idx(16),
        _ => {}
    }
    o.case(true, &(&w, cut));
    o.describe(|| format!("{} words without the last {} bytes\n{}", w.len(), cut, gen::show(&m)));
    let (a, b) = (le_bytes(&w), be_bytes(&w));
    let n = a.len() - cut.min(a.len());
    let r1 = read(&a[..n], &glsl_only())?;
    let r2 = read(&b[..n], &glsl_only())?;
    let (t1, t2) = (outcome_text(&r1)?, outcome_text(&r2)?);
    if t1 != t2 {
        return Err(format!("little-endian: {} | big-endian: {}", clip(&t1), clip(&t2)));
    }
    Ok(())
}
fn c06_large(s: &mut Src, o: &mut Obs) -> Res {
    let h = gen::header(s);
    let m = gen::many(s, true, 20_000);
    let mut w = module_words(&h, &m);
    if s.chance(80) {
        let i = near_end(s, w.len(), 24);
        w[i] = s.other_word(w[i]);
    }
    o.case(true, &w);
    o.describe(|| format!("{} instructions\n{}", m.len(), gen::show(&m)));
    let r1 = read(&le_bytes(&w), &glsl_only())?;
    let r2 = read(&be_bytes(&w), &glsl_only())?;
    let (t1, t2) = (outcome_text(&r1)?, outcome_text(&r2)?);
    if t1 != t2 {
        return Err(format!("little-endian: {} | big-endian: {}", clip(&t1), clip(&t2)));
    }
    Ok(())
}

pub fn clip(s: &str) -> String {
    let t: String = s.chars().take(600).collect();
    if t.len() < s.len() { format!("{}...", t) } else { t }
}

// ---------------------------------------------------------------- C07

/// What a file that ends too early is refused with: it depends on whether a
/// word is cut, too.
fn c07_error(len: usize) -> &'static str {
    if len % 4 == 0 {
        "UnexpectedEndOfStream"
    } else {
        "UnexpectedStreamAlignment"
    }
}
fn c07_cuts(s: &mut Src, o: &mut Obs) -> Res {
    let h = gen::header(s);
    let m: Vec<MInst> = gen::module(s, 7).into_iter().filter(|i| i.word_len() < 60).collect();
    // dropping an import would leave its uses dangling
    let m: Vec<MInst> = if m.iter().any(|i| i.opcode == 12) && !m.iter().any(|i| i.opcode == 11) { vec![] } else { m };
    let be = s.chance(100);
    let w = module_words(&h, &m);
    let b = if be { be_bytes(&w) } else { le_bytes(&w) };
    o.case(!m.is_empty(), &b);
    o.describe(|| format!("every cut of\n{}", gen::show(&m)));
    let full = match read(&b, &glsl_only())? {
        Ok(f) => f,
        Err(_) => return Ok(()),
    };
    let fm = models(&full);
    if fm.len() != m.len() {
        return Err(format!("{} instructions encoded, {} decoded", m.len(), fm.len()));
    }
    let mut bounds = vec![20usize];
    for i in &m {
        bounds.push(bounds.last().unwrap() + 4 * i.word_len());
    }
    for cut in 0..b.len() {
        o.inner += 1;
        match (read(&b[..cut], &glsl_only())?, bounds.iter().position(|x| *x == cut)) {
            (Ok(p), Some(k)) => {
                if models(&p) != fm[..k] {
                    return Err(format!("cut at {} = boundary of instruction {}: decoded {:?}", cut, k, models(&p)));
                }
                compare_header(&h, &p)?;
            }
            (Err(e), Some(k)) => return Err(format!("cut at {} = boundary of instruction {}: refused with {:?}", cut, k, e)),
            (Ok(p), None) => return Err(format!("cut at {} (inside the {}): partial module of {} instructions returned", cut, if cut < 20 { "header" } else { "instructions" }, p.instructions.len())),
            (Err(e), None) => {
                let (t, want) = (format!("{:?}", e), c07_error(cut));
                if t != want {
                    return Err(format!("cut at {}: refused with {} instead of {}", cut, t, want));
                }
            }
        }
    }
    // stray bytes
    let mut x = b.clone();
    for k in 1..4 {
        x.push(s.below(256) as u8);
        o.inner += 1;
        match read(&x, &glsl_only())? {
            Ok(_) => return Err(format!("{} stray bytes at the end accepted", k)),
            Err(e) => {
                let (t, want) = (format!("{:?}", e), c07_error(k));
                if t != want {
                    return Err(format!("{} stray bytes: {} instead of {}", k, t, want));
                }
            }
        }
    }
    Ok(())
}
/// Cuts of a large module: a few boundaries, a few other places.
fn c07_large(s: &mut Src, o: &mut Obs) -> Res {
    let m = gen::many(s, true, 30_000);
    c07_some_cuts(s, o, m)
}
/// The same of files of particular sizes.
fn c07_sized(s: &mut Src, o: &mut Obs) -> Res {
    let m = gen::sized(s);
    c07_some_cuts(s, o, m)
}
fn c07_some_cuts(s: &mut Src, o: &mut Obs, m: Vec<MInst>) -> Res {
    let h = gen::header(s);
    let be = s.chance(100);
    let w = module_words(&h, &m);
    let mut b = if be { be_bytes(&w) } else { le_bytes(&w) };
    o.case(true, &b);
    o.describe(|| format!("cuts of {} instructions\n{}", m.len(), gen::show(&m)));
    let fm = match read(&b, &glsl_only())? {
        Ok(f) => models(&f),
        Err(_) => return Ok(()),
    };
    if fm.len() != m.len() {
        return Err(format!("{} instructions encoded, {} decoded", m.len(), fm.len()));
    }
    let mut bounds = vec![20usize];
    for i in &m {
        bounds.push(bounds.last().unwrap() + 4 * i.word_len());
    }
    let mut cuts = Vec::new();
    for _ in 0..3 {
        let k = near_end(s, bounds.len(), 18);
        cuts.push(bounds[k]);
        cuts.push((bounds[k] + 1 + s.below(9) as usize).min(b.len()));
    }
    cuts.push(b.len() - 1 - s.idx(b.len().min(8)));
    b.extend([0u8, 7, 1]);
    cuts.push(b.len() - s.idx(3));
    for cut in cuts {
        o.inner += 1;
        match (read(&b[..cut], &glsl_only())?, bounds.binary_search(&cut)) {
            (Ok(p), Ok(k)) => {
                if models(&p) != fm[..k] {
                    return Err(format!("cut at {} = boundary of instruction {}: {} instructions decoded, or other ones", cut, k, p.instructions.len()));
                }
                compare_header(&h, &p)?;
            }
            (Err(e), Ok(k)) => return Err(format!("cut at {} = boundary of instruction {}: refused with {:?}", cut, k, e)),
            (Ok(p), Err(_)) => return Err(format!("cut or stray bytes at {}: module of {} instructions returned", cut, p.instructions.len())),
            (Err(e), Err(_)) => {
                let (t, want) = (format!("{:?}", e), c07_error(cut));
                if t != want {
                    return Err(format!("cut at {}: refused with {} instead of {}", cut, t, want));
                }
            }
        }
    }
    Ok(())
}

/// A word count that runs past the end of the file.
fn c07_overrun(s: &mut Src, o: &mut Obs) -> Res {
    let h = gen::header(s);
    let mut m = gen::module(s, 4);
    let last = gen::plain_inst(s);
    m.push(last.clone());
    let mut w = module_words(&h, &m);
    let at = w.len() - last.word_len();
    let have = last.word_len() as u32;
    let more = 1 + match s.below(3) {
        0 => s.below(4),
        1 => s.below(300),
        _ => s.below(65535 - have as u64),
    } as u32;
    let wc = (have + more).min(0xFFFF);
    w[at] = wc << 16 | last.opcode as u32;
    let be = s.chance(100);
    let mut b = if be { be_bytes(&w) } else { le_bytes(&w) };
    let stray = s.below(4);
    for _ in 0..stray {
        b.push(1);
    }
    o.case(wc > have, &b);
    o.describe(|| format!("last instruction {} declares {} words, {} words and {} bytes are there", last.text(), wc, have, stray));
    if wc == have || read(&le_bytes(&module_words(&h, &m)), &glsl_only())?.is_err() {
        return Ok(());
    }
    match read(&b, &glsl_only())? {
        Ok(p) => Err(format!("overrunning instruction accepted, {} instructions", p.instructions.len())),
        Err(e) => {
            let (t, want) = (format!("{:?}", e), c07_error(stray as usize));
            if t == want {
                Ok(())
            } else {
                Err(format!("overrunning instruction refused with {} instead of {}", t, want))
            }
        }
    }
}
fn c07_concat(s: &mut Src, o: &mut Obs) -> Res {
    let h = gen::header(s);
    let a = gen::module(s, 8);
    let b: Vec<MInst> = gen::module(s, 8).into_iter().filter(|i| i.opcode != 11 && i.opcode != 12).collect();
    let mut ab = a.clone();
    ab.extend(b.clone());
    o.case(!a.is_empty() && !b.is_empty(), &(&a, &b));
    o.describe(|| format!("A:\n{}B:\n{}", gen::show(&a), gen::show(&b)));
    let get = |m: &[MInst]| -> Result<Option<Vec<MInst>>, String> {
        Ok(match read(&le_bytes(&module_words(&h, m)), &glsl_only())? {
            Ok(m) => Some(models(&m)),
            Err(_) => None,
        })
    };
    let (ra, rb, rab) = (get(&a)?, get(&b)?, get(&ab)?);
    match (ra, rb, rab) {
        (Some(x), Some(y), Some(z)) => {
            if z.len() != x.len() + y.len() {
                return Err(format!("{} + {} instructions became {}", x.len(), y.len(), z.len()));
            }
            for (i, (p, q)) in x.iter().chain(y.iter()).zip(&z).enumerate() {
                if p != q {
                    return Err(format!("instruction {} changed by its neighbours: {:?} became {:?}", i, p, q));
                }
            }
        }
        (Some(_), Some(_), None) => return Err("two readable instruction lists, concatenated, are refused".into()),
        (_, _, Some(_)) => return Err("a list is refused alone but readable as part of a longer module".into()),
        _ => {}
    }
    // every instruction of B alone
    for i in &b {
        o.inner += 1;
        let alone = get(std::slice::from_ref(i))?;
        let ctx = get(&ab)?;
        if let (Some(al), Some(cx)) = (alone, ctx) {
            if al.len() != 1 || !cx.contains(&al[0]) {
                return Err(format!("{:?} decodes differently alone", i));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

pub fn c08_gen(s: &mut Src, long: bool) -> (Vec<SetDef>, Vec<u32>, Vec<String>, bool) {
    // unique names
    let mut names: Vec<&'static str> = gen::SET_NAMES.to_vec();
    names.push("GLSL.std.450");
    let mut sets = Vec::new();
    let n = if long { s.below(1 + names.len() as u64) as usize } else { s.len(4) };
    for i in 0..n {
        let k = s.idx(names.len());
        let name = names.remove(k);
        sets.push(if name == "GLSL.std.450" && s.chance(200) {
            SetDef::Glsl
        } else {
            let mode = match s.weighted(&[6, 4, 2, 1, 2, 1]) {
                5 => SetMode::Mimic,
                0 => SetMode::All,
                1 => SetMode::Fixed(s.below(5) as u32),
                2 => SetMode::Fixed(1),
                3 => SetMode::Refuse,
                _ => SetMode::Fail(s.below(16) as u32),
            };
            SetDef::Rec { name, tag: i as u32, mode }
        });
    }
    let mut w = Vec::new();
    let mut log = Vec::new();
    let mut bound: Vec<(u32, SetDef)> = Vec::new();
    let mut others: Vec<MInst> = Vec::new();
    let far = if long && s.chance(60) { 3000 } else { 300 };
    let steps = if long { 1 + s.below(far) } else { 1 + s.len(9) as u64 };
    let mut faulted = false;
    // long histories are mostly faultless, else they would end early
    let rare = long && s.chance(200);
    for _ in 0..steps {
        match s.weighted(&[10, 16, 5]) {
            0 => {
                // import
                let known = !sets.is_empty() && (rare || s.chance(240));
                let name: String = if known { s.pick(&sets).name().to_string() } else if s.chance(80) {
                    gen::string(s)
                } else {
                    let base = if sets.is_empty() { "GLSL.std.450".to_string() } else { s.pick(&sets).name().to_string() };
                    gen::near(s, &base)
                };
                let mut id = s.below(if long { 2000 } else { 6 }) as u32;
                if s.chance(30) {
                    id = s.word();
                } else if !bound.is_empty() && s.chance(20) {
                    // much like an id in use
                    id = { let b = s.pick(&bound).0; s.other_word(b) };
                }
                if bound.iter().any(|b| b.0 == id) && (rare || s.chance(230)) {
                    while bound.iter().any(|b| b.0 == id) {
                        id = id.wrapping_add(1);
                    }
                }
                let i = MInst::new(11, vec![MOp::Res(id), MOp::Str(name.clone())]);
                log.push(format!("import %{} {:?}", id, name));
                w.extend(i.words());
                match sets.iter().find(|d| d.name() == name) {
                    Some(d) if !bound.iter().any(|b| b.0 == id) => bound.push((id, d.clone())),
                    _ => faulted = true,
                }
            }
            1 => {
                let (id, def) = if !bound.is_empty() && (rare || s.chance(244)) {
                    let b = s.pick(&bound).clone();
                    (b.0, Some(b.1))
                } else if !bound.is_empty() && s.chance(100) {
                    ({ let b = s.pick(&bound).0; s.other_word(b) }, None)
                } else {
                    (s.below(8) as u32, None)
                };
                let n = match &def {
                    Some(SetDef::Glsl) if rare || s.chance(230) => 13 + s.below(2) as u32,
                    _ => s.word(),
                };
                let k = match &def {
                    Some(SetDef::Glsl) => 1,
                    Some(SetDef::Rec { mode: SetMode::Fixed(k), .. }) => *k as usize,
                    Some(SetDef::Rec { mode: SetMode::Mimic, .. }) => 1,
                    _ if s.chance(2) => s.len(3000),
                    _ => s.len(6),
                };
                let k = if !rare && s.chance(20) { s.len(6) } else { k };
                let ws: Vec<u32> = (0..k).map(|_| s.word()).collect();
                if !long {
                    log.push(format!("use %{} number {} words {:?}", id, n, ws));
                } else {
                    log.push(format!("use %{}", id));
                }
                let i = MInst::new(12, vec![MOp::Id(s.id()), MOp::Res(s.below(6) as u32), MOp::Id(id), MOp::Ext(n, ws, String::new())]);
                w.extend(i.words());
            }
            _ => {
                // other instructions: result ids that coincide with set ids,
                // ones that open or close a part of a module, repeats, any
                let i = match s.weighted(&[5, 3, 3, 3]) {
                    1 => {
                        let c = *s.pick(&[14u16, 54, 56, 248, 253, 249, 17, 15, 1, 55, 10]);
                        gen::inst_of(s, spec().op(c).unwrap())
                    }
                    2 if !others.is_empty() => s.pick(&others).clone(),
                    3 => gen::plain_inst(s),
                    _ => MInst::new(20, vec![MOp::Res(s.below(6) as u32)]),
                };
                log.push(spec().op(i.opcode).unwrap().name.to_string());
                w.extend(i.words());
                others.push(i);
            }
        }
        if faulted {
            break;
        }
    }
    if faulted && s.chance(128) {
        w.extend(MInst::new(253, vec![]).words());
    }
    (sets, w, log, s.chance(60))
}
fn c08(s: &mut Src, o: &mut Obs) -> Res {
    c08_run(s, o, false)
}
fn c08_long(s: &mut Src, o: &mut Obs) -> Res {
    c08_run(s, o, true)
}
fn c08_run(s: &mut Src, o: &mut Obs, long: bool) -> Res {
    let (sets, body, log, be) = c08_gen(s, long);
    let mut w = Header::plain().words();
    w.extend(body);
    let b = if be { be_bytes(&w) } else { le_bytes(&w) };
    let uses = log.iter().any(|l| l.starts_with("use"));
    o.case(uses && log.len() > 1, &(&sets, &b));
    o.describe(|| format!("sets {:?}; {}", sets.iter().map(|d| d.name()).collect::<Vec<_>>(), clip(&log.join("; "))));
    let r = decode(&b, &sets);
    o.class = Some(match &r.result {
        Ok(_) => "accepted",
        Err(_) => "refused",
    });
    let got = read(&b, &sets)?;
    compare_with(&r, &got, true)?;
    // the set object that read each instruction is the bound one
    if let (Ok(m), Ok(_)) = (&got, &r.result) {
        let mut bound: std::collections::HashMap<u32, &SetDef> = Default::default();
        for i in &m.instructions {
            if let Core::OpExtInstImport(x) = i {
                if let Some(d) = sets.iter().find(|d| d.name() == x.name) {
                    bound.insert(x.result_id.0, d);
                }
            }
            if let Core::OpExtInst(x) = i {
                let tag = x.instruction.as_ref().as_any().downcast_ref::<RecInst>().map(|r| (r.set, r.tag));
                let want = match bound.get(&x.set.0) {
                    Some(SetDef::Rec { name, tag, .. }) => Some((*name, *tag)),
                    _ => None,
                };
                if tag != want {
                    return Err(format!("instruction naming set %{} was read by {:?}, not {:?}", x.set.0, tag, want));
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

fn check_text(m: &RawModule) -> Res {
    let text = sut(|| format!("{}", m))?;
    let gen_word = tool_id(&m.generator.tool) << 16 | m.generator.version as u32;
    let h = Header { magic: MAGIC, version: 0x10000, generator: gen_word, bound: m.bound, schema: 0 };
    let ms = models(m);
    let want = module_text(&h, &ms);
    if text != want {
        for (a, b) in text.lines().zip(want.lines()) {
            if a != b {
                return Err(format!("printed {:?}, expected {:?}", a, b));
            }
        }
        return Err(format!("printed {:?}, expected {:?}", clip(&text), clip(&want)));
    }
    for (c, mi) in m.instructions.iter().zip(&ms) {
        if let (Core::OpExtInst(x), Some(MOp::Ext(_, _, text))) = (c, mi.ops.last()) {
            // the op inside says the same name and text
            let (n, t) = sut(|| {
                let op = x.instruction.as_ref().get_op();
                (op.get_name().to_string(), format!("{}", op))
            })?;
            if Some(n.as_str()) != text.split(' ').next() || t != *text {
                return Err(format!("op of {:?} is named {:?} and prints {:?}", text, n, t));
            }
        }
        let t = sut(|| format!("{}", c))?;
        if t != mi.text() {
            return Err(format!("single instruction printed {:?}, expected {:?}", t, mi.text()));
        }
    }
    Ok(())
}
fn c09_modules(s: &mut Src, o: &mut Obs) -> Res {
    let h = gen::header(s);
    let mut m = gen::module(s, 10);
    if s.chance(20) {
        let k = s.idx(m.len() + 1);
        let x = gen::built_inst(s);
        m.insert(k, x);
    }
    o.case(!m.is_empty(), &(&h, &m));
    o.describe(|| gen::show(&m));
    match decode_for(&h, &m) {
        Some(r) => check_text(&r),
        None => {
            o.nontrivial = false;
            Ok(())
        }
    }
}
/// One instruction with a string.
fn c09_strings(s: &mut Src, o: &mut Obs) -> Res {
    let text = gen::string(s);
    let m = vec![str_inst(s, text)];
    o.case(true, &m);
    o.describe(|| gen::show(&m));
    match decode_for(&Header::plain(), &m) {
        Some(r) => check_text(&r),
        None => {
            o.nontrivial = false;
            Ok(())
        }
    }
}
fn c09_large(s: &mut Src, o: &mut Obs) -> Res {
    let h = gen::header(s);
    let m = gen::many(s, true, 20_000);
    o.case(true, &(&h, &m));
    o.describe(|| gen::show(&m));
    match decode_for(&h, &m) {
        Some(r) => check_text(&r),
        None => {
            o.nontrivial = false;
            Ok(())
        }
    }
}

fn c09_each(i: u64, o: &mut Obs) -> Res {
    let n = spec().ops.len() as u64;
    let op = &spec().ops[(i % n) as usize];
    let mut s = Src::random(mix(0xC09, i));
    let m = match op.opcode {
        11 | 12 => vec![
            MInst::new(11, vec![MOp::Res(9), MOp::Str("GLSL.std.450".into())]),
            MInst::new(12, vec![MOp::Id(s.word()), MOp::Res(s.word()), MOp::Id(9), MOp::Ext(13 + (i & 1) as u32, vec![s.word()], String::new())]),
        ],
        _ => vec![gen::inst_of(&mut s, op)],
    };
    o.case(true, &m);
    o.describe(|| gen::show(&m));
    match decode_for(&Header::plain(), &m) {
        Some(r) => check_text(&r),
        None => Ok(()),
    }
}
fn c09_enums(i: u64, o: &mut Obs) -> Res {
    let sites = enum_sites();
    let ms = mask_sites();
    let mut s = Src::random(mix(0xE09, i));
    let k = i % (sites.len() + ms.len() * 32) as u64;
    let m = if (k as usize) < sites.len() {
        vec![with_enumerant(&mut s, sites[k as usize]).0]
    } else {
        let k = k as usize - sites.len();
        let site = ms[k % ms.len()];
        vec![with_mask(&mut s, site, (k / ms.len()) as u32 & mask_known(site.2))]
    };
    o.case(true, &m);
    o.describe(|| gen::show(&m));
    match decode_for(&Header::plain(), &m) {
        Some(r) => check_text(&r),
        None => Ok(()),
    }
}
fn c09_enums_n(t: bool) -> u64 {
    (enum_sites().len() + mask_sites().len() * 32) as u64 * if t { 1000 } else { 60 }
}
fn c09_tools(i: u64, o: &mut Obs) -> Res {
    let mut h = Header::plain();
    h.generator = (i as u32) << 16 | (i as u32 ^ 0x5A5A) & 0xFFFF;
    h.bound = (i as u32).wrapping_mul(2654435761);
    o.case(true, &h);
    o.describe(|| format!("generator word {:#x}", h.generator));
    match decode_for(&h, &[]) {
        Some(r) => check_text(&r),
        None => Ok(()),
    }
}
/// Change one operand (or the opcode) of an instruction.
pub fn mutate_inst(s: &mut Src, m: &MInst) -> MInst {
    let mut x = m.clone();
    if m.ops.is_empty() || s.chance(16) {
        return gen::plain_inst(s);
    }
    if s.chance(40) {
        // two operands swapped, one repeated, one dropped, the tail changed
        let n = x.ops.len();
        let (i, j) = (s.idx(n), s.idx(n));
        match s.below(4) {
            0 => x.ops.swap(i, j),
            1 => x.ops[i] = x.ops[j].clone(),
            2 => {
                x.ops.pop();
            }
            _ => {
                let l = match s.below(3) {
                    0 => MOp::Lit(0),
                    1 => MOp::Id(0),
                    _ => x.ops[n - 1].clone(),
                };
                x.ops.push(l.clone());
                if s.chance(100) {
                    x.ops.push(l);
                }
            }
        }
        return x;
    }
    let at = s.idx(x.ops.len());
    match x.ops[at].clone() {
        MOp::Res(v) => x.ops[at] = MOp::Res(s.other_word(v)),
        MOp::Id(v) => x.ops[at] = MOp::Id(s.other_word(v)),
        MOp::Lit(v) => x.ops[at] = MOp::Lit(s.other_word(v)),
        MOp::Str(t) => {
            let mut c: Vec<char> = t.chars().collect();
            match s.below(6) {
                4 => {
                    // another case, or the last characters exchanged
                    if let Some(p) = c.iter().position(|x| x.is_ascii_alphabetic()) {
                        let p = if s.chance(128) { p } else { c.iter().rposition(|x| x.is_ascii_alphabetic()).unwrap_or(p) };
                        c[p] = if c[p].is_ascii_lowercase() { c[p].to_ascii_uppercase() } else { c[p].to_ascii_lowercase() };
                    }
                }
                5 => {
                    let n = c.len();
                    if n > 1 {
                        let p = s.idx(n - 1);
                        c.swap(p, p + 1);
                    }
                }
                0 => c.push(*s.pick(&['"', '\\', 'a', ' ', '\n'])),
                1 => {
                    c.pop();
                }
                2 => {
                    let p = s.idx(c.len() + 1);
                    c.insert(p, *s.pick(&['"', '\\', 'n', ' ']));
                }
                _ => {
                    if !c.is_empty() {
                        let p = s.idx(c.len());
                        c[p] = *s.pick(&['"', '\\', 'x', 'é', ' ']);
                    }
                }
            }
            x.ops[at] = MOp::Str(c.into_iter().collect())
        }
        MOp::En(t, v) => {
            let simple = |v: u32| spec().en(t, v).map(|e| e.1.is_empty()).unwrap_or(false);
            if simple(v) {
                let c: Vec<u32> = ENUMS[t].values.iter().map(|e| e.0).filter(|e| *e != v && simple(*e)).collect();
                if !c.is_empty() {
                    x.ops[at] = MOp::En(t, *s.pick(&c));
                }
            } else {
                let c: Vec<u32> = ENUMS[t]
                    .values
                    .iter()
                    .map(|e| e.0)
                    .filter(|e| *e != v && spec().en(t, v).map(|a| a.1.to_vec()) == spec().en(t, *e).map(|b| b.1.to_vec()))
                    .collect();
                if !c.is_empty() {
                    x.ops[at] = MOp::En(t, *s.pick(&c));
                }
            }
        }
        MOp::Mask(t, b, p) => {
            if !p.is_empty() && s.chance(128) {
                let mut p = p;
                let k = s.idx(p.len());
                p[k] = s.other_word(p[k]);
                x.ops[at] = MOp::Mask(t, b, p);
            } else {
                let bits: Vec<u32> = MASKS[t].bits.iter().filter(|e| e.2 == 0).map(|e| e.0).collect();
                x.ops[at] = MOp::Mask(t, b ^ *s.pick(&bits), p);
            }
        }
        MOp::Ext(..) => {}
    }
    x
}
fn c09_distinct(s: &mut Src, o: &mut Obs) -> Res {
    let a = match s.weighted(&[60, 60, 6]) {
        0 => gen::plain_inst(s),
        1 => {
            let t = gen::string(s);
            str_inst(s, t)
        }
        _ => gen::built_inst(s),
    };
    let b = match s.below(4) {
        0 => {
            // append or drop list/optional tail
            let mut x = a.clone();
            match x.ops.last().cloned() {
                Some(l) if s.chance(128) => x.ops.push(l),
                Some(_) => {
                    x.ops.pop();
                }
                None => {}
            }
            x
        }
        1 => {
            let mut x = a.clone();
            let c = spec().ops[s.idx(spec().ops.len())].opcode;
            x.opcode = c;
            x
        }
        _ => mutate_inst(s, &a),
    };
    o.case(a != b, &(&a, &b));
    o.describe(|| format!("{}\n{}", a.text(), b.text()));
    let (ra, rb) = match (decode_for(&Header::plain(), &[a]), decode_for(&Header::plain(), &[b])) {
        (Some(x), Some(y)) if x.instructions.len() == 1 && y.instructions.len() == 1 => (x, y),
        _ => {
            o.nontrivial = false;
            return Ok(());
        }
    };
    let (ma, mb) = (models(&ra), models(&rb));
    let (ta, tb) = (sut(|| format!("{}", ra.instructions[0]))?, sut(|| format!("{}", rb.instructions[0]))?);
    if (ma == mb) != (ta == tb) {
        return Err(format!("{:?} prints {:?}, {:?} prints {:?}", ma[0], ta, mb[0], tb));
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn eqm(a: &RawModule, b: &RawModule) -> Result<(bool, bool), String> {
    sut(|| {
        let e = a == b;
        if (a != b) == e {
            panic!("== and != agree");
        }
        (e, b == a)
    })
}
fn c17_check(a: &RawModule, b: &RawModule, same: bool, what: &str) -> Res {
    let (x, y) = eqm(a, b)?;
    if x != y {
        return Err(format!("{}: equality is not symmetric", what));
    }
    if x != same {
        return Err(format!("{}: == says {}, but they are {}", what, x, if same { "the same" } else { "different" }));
    }
    Ok(())
}
fn c17_pairs(s: &mut Src, o: &mut Obs) -> Res {
    let sets = glsl_only();
    let h = gen::header(s);
    let m = gen::module(s, 6);
    let w = module_words(&h, &m);
    let b = le_bytes(&w);
    let (r1, r2) = match (read(&b, &sets)?, read(&b, &sets)?) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(a), Err(b)) => {
            o.case(false, &b_hash(&w));
            return if format!("{:?}", a) == format!("{:?}", b) { Ok(()) } else { Err("reading twice gives different errors".into()) };
        }
        _ => return Err("reading the same bytes twice gives different outcomes".into()),
    };
    c17_check(&r1, &r2, true, "module read twice")?;
    let c = sut(|| r1.clone())?;
    c17_check(&r1, &c, true, "clone")?;
    c17_check(&r1, &r1, true, "module and itself")?;
    if sut(|| format!("{}", c))? != sut(|| format!("{}", r1))? || models(&c) != models(&r1) {
        return Err("clone prints or contains something else".into());
    }
    // a changed twin
    let mut h2 = h.clone();
    let mut m2 = m.clone();
    match s.weighted(&[2, 10, 1, 1, 1]) {
        0 => match s.below(3) {
            0 => h2.bound = s.other_word(h2.bound),
            1 => h2.generator = s.other_word(h2.generator),
            _ => {}
        },
        1 if !m2.is_empty() => {
            let i = s.idx(m2.len());
            if m2[i].opcode != 11 && m2[i].opcode != 12 {
                m2[i] = mutate_inst(s, &m2[i]);
            } else if m2[i].opcode == 12 {
                if let MOp::Ext(n, ws, _) = m2[i].ops[3].clone() {
                    let (n, x) = if s.chance(128) { (27 - n, ws[0]) } else { (n, s.other_word(ws[0])) };
                    m2[i].ops[3] = MOp::Ext(n, vec![x], String::new());
                }
                if s.chance(60) {
                    m2[i].ops[1] = MOp::Res(s.word());
                }
            }
        }
        2 => m2.push(gen::plain_inst(s)),
        3 => {
            m2.pop();
        }
        _ if m2.len() > 1 => {
            let i = s.idx(m2.len() - 1);
            if m2[i].opcode != 11 && m2[i + 1].opcode != 11 {
                m2.swap(i, i + 1);
            }
        }
        _ => {}
    }
    o.case(true, &(&h, &m, &h2, &m2));
    o.describe(|| format!("{}--- against ---\n{}", gen::show(&m), gen::show(&m2)));
    let r3 = match read(&le_bytes(&module_words(&h2, &m2)), &sets)? {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let header_same = r1.bound == r3.bound && tool_id(&r1.generator.tool) == tool_id(&r3.generator.tool) && r1.generator.version == r3.generator.version;
    let same = header_same && models_strict(&r1) == models_strict(&r3);
    o.class = Some(if same { "same" } else { "different" });
    c17_check(&r1, &r3, same, "changed twin")?;
    // instruction by instruction
    for (x, y) in r1.instructions.iter().zip(&r3.instructions) {
        o.inner += 1;
        let same = conv::core(x) == conv::core(y);
        let e = sut(|| (x == y, y == x))?;
        if e.0 != same || e.1 != same {
            return Err(format!("{:?} and {:?}: == says {:?}", conv::core(x), conv::core(y), e));
        }
    }
    Ok(())
}
fn b_hash(w: &[u32]) -> u64 {
    hash_of(&w)
}
fn models_strict(m: &RawModule) -> Vec<MInst> {
    models(m)
}
/// Large modules that differ in one place.
fn c17_large(s: &mut Src, o: &mut Obs) -> Res {
    let sets = glsl_only();
    let h = gen::header(s);
    let m = gen::many(s, true, 20_000);
    let mut m2 = m.clone();
    let at = if s.chance(128) { s.idx(m.len()) } else { near_end(s, m.len(), 14) };
    match s.below(6) {
        0 => {}
        1 => {
            m2.pop();
        }
        2 => {
            let x = m2[at].clone();
            if x.opcode != 11 {
                m2.push(x);
            }
        }
        3 if at > 0 && m2[at - 1].opcode != 11 && m2[at].opcode != 11 => m2.swap(at - 1, at),
        _ => match m2[at].opcode {
            11 => {}
            12 => {
                if let MOp::Ext(n, ws, _) = m2[at].ops[3].clone() {
                    let (n, x) = if s.chance(128) { (27 - n, ws[0]) } else { (n, s.other_word(ws[0])) };
                    m2[at].ops[3] = MOp::Ext(n, vec![x], String::new());
                }
            }
            _ => m2[at] = mutate_inst(s, &m2[at]),
        },
    }
    o.case(true, &(&h, &m, &m2));
    o.describe(|| format!("{} instructions, other at {}\n{}", m.len(), at, gen::show(&m)));
    let (a, b) = match (read(&le_bytes(&module_words(&h, &m)), &sets)?, read(&le_bytes(&module_words(&h, &m2)), &sets)?) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return Ok(()),
    };
    let (ma, mb) = (models(&a), models(&b));
    o.class = Some(if ma == mb { "same" } else { "different" });
    c17_check(&a, &b, ma == mb, "large modules")?;
    let c = sut(|| a.clone())?;
    c17_check(&a, &c, true, "clone of a large module")?;
    if models(&c) != ma || sut(|| format!("{}", c))? != sut(|| format!("{}", a))? {
        return Err("clone prints or contains something else".into());
    }
    Ok(())
}

/// Same bytes, different instruction sets behind the same name; same sets under
/// different ids; recording sets that print alike.
fn c17_sets(s: &mut Src, o: &mut Obs) -> Res {
    let x = s.word();
    let n = 13 + s.below(2) as u32;
    let insts = |n: u32, x: u32, set: u32| {
        vec![
            MInst::new(11, vec![MOp::Res(1), MOp::Str("GLSL.std.450".into())]),
            MInst::new(11, vec![MOp::Res(2), MOp::Str("My.set".into())]),
            MInst::new(12, vec![MOp::Id(5), MOp::Res(6), MOp::Id(set), MOp::Ext(n, vec![x], String::new())]),
        ]
    };
    let glsl_as = |k: u64| match k {
        0 => SetDef::Glsl,
        1 => SetDef::Rec { name: "GLSL.std.450", tag: 1, mode: SetMode::All },
        2 => SetDef::Rec { name: "GLSL.std.450", tag: 1, mode: SetMode::Mimic },
        _ => SetDef::Rec { name: "GLSL.std.450", tag: 1, mode: SetMode::Fixed(1) },
    };
    let my = SetDef::Rec { name: "My.set", tag: 2, mode: SetMode::All };
    let (k1, k2) = (s.below(4), s.below(4));
    let (set1, set2) = (1 + s.below(2) as u32, 1 + s.below(2) as u32);
    let x2 = if s.chance(128) { x } else { s.other_word(x) };
    let n2 = if s.chance(160) { n } else { 27 - n };
    o.case(true, &(x, x2, n, n2, k1, k2, set1, set2));
    o.describe(|| format!("set {} kind {} number {} operand {} against set {} kind {} number {} operand {}", set1, k1, n, x, set2, k2, n2, x2));
    let r1 = read(&le_bytes(&module_words(&Header::plain(), &insts(n, x, set1))), &[glsl_as(k1), my.clone()])?;
    let r2 = read(&le_bytes(&module_words(&Header::plain(), &insts(n2, x2, set2))), &[my, glsl_as(k2)])?;
    let (a, b) = match (r1, r2) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return Ok(()),
    };
    // the reader object type: glsl (0) or recording (1)
    let ty = |set: u32, k: u64| if set == 2 { "my" } else if k == 0 { "glsl" } else if k == 2 { "mimic" } else { "rec" };
    let same = set1 == set2 && ty(set1, k1) == ty(set2, k2) && n == n2 && x == x2;
    c17_check(&a, &b, same, "modules with extended instructions")?;
    let (ca, cb) = (sut(|| a.clone())?, sut(|| b.clone())?);
    c17_check(&ca, &a, true, "clone with extended instruction")?;
    c17_check(&ca, &cb, same, "clones")
}

pub fn arms(id: &str) -> Option<Vec<Arm>> {
    Some(match id {
        "C01" => vec![rand("bytes", 400_000, 12_000_000, c01_bytes), exh("opcode-sweep", c01_sweep_n, c01_sweep), rand("large", 60, 2000, c01_large)],
        "C02" => vec![
            rand("modules", 120_000, 4_000_000, c02_modules),
            rand("single", 300_000, 20_000_000, c02_single),
            exh("each-op", c02_each_n, c02_each),
            exh("each-enumerant", c02_enums_n, c02_enums),
            exh("each-mask", c02_masks_n, c02_masks),
            rand("strings", 100_000, 3_000_000, c02_strings),
            rand("long", 60, 2000, c02_long),
            rand("sized", 15_000, 90_000, c02_sized),
            rand("large", 150, 5000, c02_large),
        ],
        "C03" => vec![
            rand("single-fault", 400_000, 12_000_000, c03_single),
            exh("cut-extend", c03_cut_n, c03_cut),
            exh("enumerant-values", c03_enum_n, c03_enum),
            exh("flag-bits", c03_mask_n, c03_mask),
            rand("operand-words", 400_000, 12_000_000, c03_words),
            rand("sized", 20_000, 600_000, c03_sized),
            rand("large", 150, 5000, c03_large),
        ],
        "C04" => vec![exh("all-opcodes", c04_all_n, c04_all), rand("context", 100_000, 3_000_000, c04_context), rand("large", 150, 5000, c04_large)],
        "C05" => vec![exh("sweep", c05_sweep_n, c05_sweep), rand("headers", 200_000, 5_000_000, c05_rand)],
        "C06" => vec![rand("bytes", 250_000, 8_000_000, c06), rand("single", 300_000, 10_000_000, c06_single), rand("strings", 100_000, 3_000_000, c06_strings), rand("sized", 10_000, 90_000, c06_sized), rand("large", 100, 3000, c06_large)],
        "C07" => vec![rand("every-cut", 8_000, 200_000, c07_cuts), rand("overrun", 60_000, 2_000_000, c07_overrun), rand("concat", 40_000, 1_000_000, c07_concat), rand("sized", 4000, 90_000, c07_sized), rand("large", 60, 2000, c07_large)],
        "C08" => vec![rand("histories", 400_000, 12_000_000, c08), rand("long", 3000, 90_000, c08_long)],
        "C09" => vec![
            rand("modules", 100_000, 3_000_000, c09_modules),
            rand("single", 300_000, 20_000_000, c09_single),
            exh("each-op", c02_each_n, c09_each),
            exh("enumerants", c09_enums_n, c09_enums),
            exh("tools", |_| 65536, c09_tools),
            rand("strings", 100_000, 3_000_000, c09_strings),
            rand("distinct", 150_000, 4_000_000, c09_distinct),
            rand("large", 100, 3000, c09_large),
        ],
        "C17" => vec![rand("pairs", 100_000, 3_000_000, c17_pairs), rand("single", 600_000, 20_000_000, c17_single), rand("sets", 60_000, 1_000_000, c17_sets), rand("large", 100, 3000, c17_large)],
        _ => return None,
    })
}
