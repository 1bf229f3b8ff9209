//! Generators of abstract instructions and modules.

use crate::engine::*;
use crate::extsets::*;
use crate::model::*;
use crate::spec::*;

pub fn string(s: &mut Src) -> String {
    match s.weighted(&[20, 20, 20, 12, 10, 10, 2, 6]) {
        0 => {
            let n = s.len(9);
            (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect()
        }
        1 => {
            let n = s.len(20);
            (0..n).map(|_| (1 + s.below(127) as u8) as char).collect()
        }
        2 => {
            // multi-byte characters straddling word boundaries
            let n = s.len(12);
            (0..n).map(|_| *s.pick(&['a', 'é', 'ß', '€', '漢', '😀', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{feff}', '\u{80}', '\u{202e}'])).collect()
        }
        3 => {
            // quoting
            let n = s.len(10);
            (0..n).map(|_| *s.pick(&['"', '\\', 'n', ' ', '\n', '%', '{', '}', '\t', ';', '=', '\r', '\'', '0'])).collect()
        }
        4 => {
            let d = str_dict();
            let t = s.pick(d).clone();
            if s.chance(100) {
                near(s, &t)
            } else {
                t
            }
        }
        5 => {
            let n = s.len(16);
            (0..n)
                .map(|_| loop {
                    if let Some(c) = char::from_u32(1 + s.below(0x10FFFF) as u32) {
                        break c;
                    } else {
                        break 'x';
                    }
                })
                .collect()
        }
        6 => {
            // long: one character over and over, or a few that differ in width
            let n = 50 + s.below(2000) as usize;
            if s.chance(100) {
                let k = 1 + s.idx(4);
                let cs: Vec<char> = (0..k).map(|_| *s.pick(&['a', 'é', '€', '😀', '"', '\\', '\n', '\u{7f}', '\u{80}', '漢', '\u{10ffff}', 'z', '%'])).collect();
                let mut r = Rng::new(s.below(1 << 32));
                return (0..n).map(|_| cs[r.below(k as u64) as usize]).collect();
            }
            let c = (b' ' + s.below(95) as u8) as char;
            std::iter::repeat(c).take(n).collect()
        }
        _ => {
            // lengths 0..=13 of one character: every padding case
            let n = s.below(14) as usize;
            std::iter::repeat('z').take(n).collect()
        }
    }
}

/// A text much like another: characters exchanged, added or left out, in
/// widths that move what follows off its place.
pub fn near(s: &mut Src, base: &str) -> String {
    let mut v: Vec<char> = base.chars().collect();
    for _ in 0..1 + s.below(2) {
        let i = s.below(v.len() as u64 + 1) as usize;
        let c = *s.pick(&['é', '€', '😀', ' ', '.', 'a', '0', '\u{301}', '\u{feff}', '\u{1}', '\n', 'ſ', 'K']);
        match s.below(7) {
            0 => v.insert(i, c),
            1 | 2 if i < v.len() => v[i] = c,
            3 if i < v.len() => {
                v.remove(i);
            }
            4 => v.truncate(i),
            5 if i < v.len() => v[i] = if v[i].is_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() },
            6 => {
                v.drain(..i);
            }
            _ => v.push(c),
        }
    }
    v.into_iter().collect()
}

pub fn enumerant(s: &mut Src, t: usize, out: &mut Vec<MOp>) {
    if ENUMS[t].open && s.chance(60) {
        let v = s.word();
        out.push(MOp::En(t, v));
        return;
    }
    let i = s.idx(ENUMS[t].values.len());
    out.push(MOp::En(t, ENUMS[t].values[i].0));
    for k in &spec().params[t][i] {
        kind(s, k, out);
    }
}

pub fn mask(s: &mut Src, t: usize) -> MOp {
    let mut bits = 0;
    for b in MASKS[t].bits {
        if s.chance(100) {
            bits |= b.0;
        }
    }
    let p = (0..mask_params(t, bits)).map(|_| s.word()).collect();
    MOp::Mask(t, bits, p)
}

pub fn list_len(s: &mut Src) -> usize {
    match s.weighted(&[4000, 480, 40, 1]) {
        0 => s.len(6),
        1 => s.len(40),
        2 => s.len(600),
        _ => s.len(20_000),
    }
}

pub fn kind(s: &mut Src, k: &K, out: &mut Vec<MOp>) {
    match k {
        K::Res => out.push(MOp::Res(s.id())),
        K::Id => out.push(MOp::Id(s.id())),
        K::Lit => out.push(MOp::Lit(s.word())),
        K::Str => out.push(MOp::Str(string(s))),
        K::En(t) => enumerant(s, *t, out),
        K::Mask(t) => {
            let m = mask(s, *t);
            out.push(m)
        }
        K::Weights => {
            out.push(MOp::Lit(s.word()));
            out.push(MOp::Lit(s.word()));
        }
        K::Opt(k) => {
            if s.chance(128) {
                kind(s, k, out)
            }
        }
        K::Ids => {
            for _ in 0..list_len(s) {
                out.push(MOp::Id(s.id()));
            }
        }
        K::Lits => {
            for _ in 0..1 + list_len(s) {
                out.push(MOp::Lit(s.word()));
            }
        }
        K::Pairs => {
            for _ in 0..list_len(s) {
                out.push(MOp::Id(s.id()));
                out.push(MOp::Id(s.id()));
            }
        }
        K::Ext => unreachable!(),
    }
}

/// A well-formed instruction with the given opcode (not OpExtInst; imports get
/// the given set name).
pub fn inst_of(s: &mut Src, op: &OpSpec) -> MInst {
    let mut out = Vec::new();
    for k in &op.kinds {
        // OpSource: the source text needs the file operand before it
        if op.opcode == 3 && *k == K::Opt(Box::new(K::Str)) && out.len() < 3 {
            continue;
        }
        kind(s, k, &mut out);
    }
    if out.len() > 1 && s.chance(24) {
        related(s, &mut out);
    }
    MInst { opcode: op.opcode, ops: out }
}
/// Makes some of the operands one word, or words related to it.
fn related(s: &mut Src, ops: &mut [MOp]) {
    let w = s.word();
    let n = ops.len();
    for i in (0..n.min(10)).chain(n.max(12) - 2..n) {
        match &mut ops[i] {
            MOp::Res(x) | MOp::Id(x) | MOp::Lit(x) => match s.below(4) {
                0 => {}
                1 => *x = s.other_word(w),
                _ => *x = w,
            },
            _ => {}
        }
    }
}

/// An instruction that cannot be read, only built.
pub fn built_inst(s: &mut Src) -> MInst {
    let i = s.idx(spec().built.len());
    inst_of(s, &spec().built[i])
}

pub fn plain_ops() -> &'static [usize] {
    static S: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    S.get_or_init(|| spec().ops.iter().enumerate().filter(|(_, o)| o.opcode != 11 && o.opcode != 12).map(|(i, _)| i).collect())
}

/// Any instruction other than an import or use of an extended set.
pub fn plain_inst(s: &mut Src) -> MInst {
    let ops = plain_ops();
    // operand-rich instructions are where the grammar is: favour them
    let i = if s.chance(110) {
        let rich: &[u16] = &[71, 72, 16, 3, 15, 25, 59, 61, 62, 54, 246, 247, 250, 245, 43, 44, 30, 33, 5, 6, 17, 32];
        let c = *s.pick(rich);
        spec().ops.iter().position(|o| o.opcode == c).unwrap()
    } else {
        *s.pick(ops)
    };
    inst_of(s, &spec().ops[i])
}

pub const SET_NAMES: &[&str] = &["OpenCL.std", "My.set", "", "GLSL.std.45", "GLSL.std.4500", "glsl.std.450", "s p a c e", "ünï"];

pub fn sets(s: &mut Src) -> Vec<SetDef> {
    let n = s.len(4);
    let mut v: Vec<SetDef> = Vec::new();
    for i in 0..n {
        let d = if s.chance(90) {
            SetDef::Glsl
        } else {
            let mode = match s.below(4) {
                0 => SetMode::All,
                1 => SetMode::Fixed(s.below(4) as u32),
                2 => SetMode::Fixed(1),
                _ => SetMode::Refuse,
            };
            let name = if s.chance(30) { "GLSL.std.450" } else { *s.pick(SET_NAMES) };
            SetDef::Rec { name, tag: i as u32, mode }
        };
        v.push(d);
    }
    v
}

pub fn header(s: &mut Src) -> Header {
    let mut h = Header::plain();
    let tool = if s.chance(128) { s.below(14) as u32 } else { s.word() & 0xFFFF };
    h.generator = tool << 16 | (s.word() & 0xFFFF);
    h.bound = s.word();
    h
}

/// Change one plain operand value.
pub fn tweak(s: &mut Src, m: &mut MInst) {
    if m.opcode == 12 || m.ops.is_empty() {
        return;
    }
    let i = s.idx(m.ops.len());
    match &mut m.ops[i] {
        MOp::Res(x) | MOp::Id(x) => *x = if s.chance(128) { s.id() } else { s.other_word(*x) },
        MOp::Lit(x) => *x = if s.chance(128) { s.word() } else { s.other_word(*x) },
        MOp::Str(x) => *x = string(s),
        _ => {}
    }
}

/// A module of well-formed instructions, with glsl450 imports and uses.
pub fn module(s: &mut Src, max: usize) -> Vec<MInst> {
    if s.chance(20) {
        // sections in the order a real module has them
        return crate::logic::gen_layout(s, 1 + max / 4);
    }
    let n = match s.weighted(&[240, 12, 1]) {
        0 => s.len(max),
        1 => s.len(max * 8),
        _ => s.len(max * 60),
    };
    let mut v: Vec<MInst> = Vec::new();
    let mut bound: Vec<u32> = Vec::new();
    for _ in 0..n {
        match s.weighted(&[200, 12, 30, 14]) {
            3 if !v.is_empty() => {
                // an instruction seen before, as it was or with one operand changed
                let k = if s.chance(128) { v.len() - 1 } else { s.idx(v.len()) };
                let mut m = v[k].clone();
                if m.opcode == 11 {
                    continue;
                }
                if s.chance(100) {
                    tweak(s, &mut m);
                }
                v.push(m);
            }
            1 => {
                let mut id = s.id();
                while bound.contains(&id) {
                    id = id.wrapping_add(1);
                }
                bound.push(id);
                v.push(MInst::new(11, vec![MOp::Res(id), MOp::Str("GLSL.std.450".into())]));
            }
            2 if !bound.is_empty() => {
                let set = *s.pick(&bound);
                let n = 13 + s.below(2) as u32;
                let x = s.id();
                v.push(MInst::new(12, vec![MOp::Id(s.id()), MOp::Res(s.id()), MOp::Id(set), MOp::Ext(n, vec![x], crate::conv::glsl_text(n, &[x]))]));
            }
            _ => v.push(plain_inst(s)),
        }
    }
    v
}

/// A module whose file comes out at a particular size: a whole number of
/// power-of-two blocks of words, or just off it. The header counts.
pub fn sized(s: &mut Src) -> Vec<MInst> {
    let unit = 8usize << s.below(8);
    let times = 1 + s.below(if unit < 256 { 4 } else { 2 }) as usize;
    let off = *s.pick(&[0i64, 0, 0, 0, -1, 1, -2, 2, -5, 5]);
    let goal = ((unit * times) as i64 + off).max(6) as usize;
    let pool: Vec<MInst> = (0..1 + s.below(3))
        .map(|_| {
            let m = plain_inst(s);
            if m.word_len() < 20 { m } else { MInst::new(20, vec![MOp::Res(s.id())]) }
        })
        .collect();
    let last = plain_inst(s);
    let mut r = Rng::new(s.below(1 << 32));
    let mut left = goal - 5;
    let mut end = vec![];
    if last.word_len() <= left && last.word_len() < 20 {
        left -= last.word_len();
        end.push(last);
    }
    let mut v: Vec<MInst> = Vec::new();
    let mut rest = left;
    let pad = if r.below(2) == 0 { 0 } else { r.below(8) as usize };
    while rest > pad {
        let m = &pool[r.below(pool.len() as u64) as usize];
        if m.word_len() > rest {
            break;
        }
        rest -= m.word_len();
        v.push(m.clone());
    }
    while rest > 0 {
        let at = r.below(v.len() as u64 + 1) as usize;
        let m = if rest >= 2 && r.below(2) == 0 { MInst::new(248, vec![MOp::Res(r.below(500) as u32)]) } else { MInst::new(0, vec![]) };
        rest -= m.word_len();
        v.insert(at, m);
    }
    v.extend(end);
    v
}

/// A large module: a few instructions repeated (in turn, at random or in runs)
/// many times, with extended instructions if `ext`; result ids and plain
/// operands may differ from one repetition to the next.
pub fn many(s: &mut Src, ext: bool, top: usize) -> Vec<MInst> {
    let k = 1 + s.len(9);
    let mut pool: Vec<MInst> = Vec::new();
    for _ in 0..k {
        let m = plain_inst(s);
        pool.push(if m.word_len() < 40 { m } else { MInst::new(20, vec![MOp::Res(s.id())]) });
    }
    let mut v = Vec::new();
    if ext && s.chance(150) {
        for i in 0..1 + s.below(3) as u32 {
            let id = 7 + 3 * i;
            v.push(MInst::new(11, vec![MOp::Res(id), MOp::Str("GLSL.std.450".into())]));
            let n = 13 + s.below(2) as u32;
            let x = s.id();
            pool.push(MInst::new(12, vec![MOp::Id(s.id()), MOp::Res(s.id()), MOp::Id(id), MOp::Ext(n, vec![x], crate::conv::glsl_text(n, &[x]))]));
        }
    }
    let most = match s.weighted(&[30, 20, 10, 4]) {
        0 => 400,
        1 => 2_500,
        2 => 9_000,
        _ => 80_000,
    };
    let n = s.below(most.min(top) as u64) as usize + 1;
    let style = s.below(3);
    let fresh = s.chance(128);
    let mut r = Rng::new(s.below(1 << 32));
    let mut at = 0;
    for i in 0..n {
        match style {
            0 => at = i % pool.len(),
            1 => at = r.below(pool.len() as u64) as usize,
            _ => {
                if r.below(60) == 0 {
                    at = r.below(pool.len() as u64) as usize;
                }
            }
        }
        let mut m = pool[at].clone();
        if fresh {
            for o in &mut m.ops {
                match o {
                    MOp::Res(x) => *x = i as u32 + 20,
                    MOp::Lit(x) if r.below(3) == 0 => *x = r.below(1 << 20) as u32,
                    _ => {}
                }
            }
        }
        v.push(m);
    }
    v
}

pub fn show(insts: &[MInst]) -> String {
    let mut s = String::new();
    for i in insts.iter().take(12) {
        let t = i.text();
        s.push_str(&t.chars().take(160).collect::<String>());
        s.push('\n');
    }
    if insts.len() > 12 {
        s.push_str(&format!("... {} instructions in all", insts.len()));
    }
    s
}

pub fn show_words(w: &[u32]) -> String {
    let mut s = String::new();
    for x in w.iter().take(80) {
        s.push_str(&format!("{:08x} ", x));
    }
    if w.len() > 80 {
        s.push_str(&format!("... {} words in all", w.len()));
    }
    s
}
pub fn show_bytes(w: &[u8]) -> String {
    let mut s = String::new();
    for x in w.iter().take(240) {
        s.push_str(&format!("{:02x}", x));
    }
    if w.len() > 240 {
        s.push_str(&format!("... {} bytes in all", w.len()));
    }
    s
}
