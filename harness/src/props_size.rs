//! C19: size.  Everything runs on a 2 MB stack, the default of a Rust thread.

use crate::conv;
use crate::engine::*;
use crate::extsets::*;
use crate::gen;
use crate::logic::{self, Cl};
use crate::model::*;
use crate::props_read::{clip, read};
use crate::spec::*;
use magmaflow::spv::logical::validate;
use magmaflow::spv::raw::RawModule;

/// (what repeats, how the unit is written)
const SHAPES: &[(&str, &[Cl])] = &[
    ("capabilities", &[Cl::Cap]),
    ("extensions", &[Cl::Ext]),
    ("imports", &[Cl::Import]),
    ("entry points", &[Cl::Entry]),
    ("execution modes", &[Cl::Mode]),
    ("debug", &[Cl::Debug]),
    ("annotations", &[Cl::Annot]),
    ("globals", &[Cl::Global]),
    ("declarations", &[Cl::Fun, Cl::Param, Cl::End]),
    ("parameters", &[Cl::Param]),
    ("definitions", &[Cl::Fun, Cl::Label, Cl::Code, Cl::Branch, Cl::End]),
    ("blocks", &[Cl::Label, Cl::Code, Cl::Merge, Cl::Branch]),
    ("code", &[Cl::Code]),
    ("definition parameters", &[Cl::Param]),
];

/// Units before the repeated part, the unit, units after it.
fn shape(k: usize) -> (Vec<Cl>, Vec<Cl>, Vec<Cl>) {
    use Cl::*;
    let unit = SHAPES[k].1.to_vec();
    let (a, b): (Vec<Cl>, Vec<Cl>) = match k {
        0..=2 => (vec![], vec![Model]),
        3..=8 => (vec![Model], vec![]),
        9 => (vec![Model, Fun], vec![End]),
        10 => (vec![Model], vec![]),
        11 => (vec![Model, Fun], vec![End]),
        12 => (vec![Model, Fun, Label], vec![Branch, End]),
        _ => (vec![Model, Fun], vec![Label, Branch, End]),
    };
    (a, unit, b)
}

/// "Kind(12)" as ("Kind(#)", Some(12))
fn split_index(e: &str) -> (String, Option<i64>) {
    if let (Some(a), Some(b)) = (e.find('('), e.find(')')) {
        if let Ok(n) = e[a + 1..b].parse() {
            return (format!("{}(#)", &e[..a]), Some(n));
        }
    }
    (e.to_string(), None)
}

fn body_lines(text: &str, skip: usize) -> Vec<&str> {
    text.split('\n').skip(skip).collect()
}

fn c19_sections(i: u64, o: &mut Obs, sizes: &[usize]) -> Res {
    let k = (i % SHAPES.len() as u64) as usize;
    let size = sizes[(i / SHAPES.len() as u64) as usize % sizes.len()];
    let mut s = Src::random(mix(0x19, i));
    let (a, u, b) = shape(k);
    let mut imports = Vec::new();
    let mk = |s: &mut Src, c: Cl, imports: &mut Vec<u32>| -> MInst {
        // no strings with line breaks: the text is compared line by line
        for _ in 0..200 {
            let mut none = Vec::new();
            let m = if c == Cl::Import { logic::of_class(s, c, imports) } else { logic::of_class(s, c, &mut none) };
            if !m.ops.iter().any(|o| matches!(o, MOp::Str(t) if t.contains('\n') || t.len() > 40)) && m.ops.len() < 12 {
                return m;
            }
        }
        logic::of_class(&mut Src::replay(&[]), c, imports)
    };
    let pre: Vec<MInst> = a.iter().map(|c| mk(&mut s, *c, &mut imports)).collect();
    let variants = if u == [Cl::Import] { 1 } else { 3 };
    let units: Vec<Vec<MInst>> = (0..variants).map(|_| u.iter().map(|c| mk(&mut s, *c, &mut imports)).collect()).collect();
    let post: Vec<MInst> = b.iter().map(|c| mk(&mut s, *c, &mut imports)).collect();
    let reps = (size / u.len()).max(1);
    let assemble = |reps: usize| -> (Vec<u32>, Vec<usize>) {
        // words and, per instruction, which template it is
        let mut w = Header::plain().words();
        let mut which = Vec::new();
        let mut base = 0;
        for m in &pre {
            w.extend(m.words());
            which.push(base);
            base += 1;
        }
        let ub = base;
        let mut next_import = 100_000u32;
        for r in 0..reps {
            for (x, m) in units[r % variants].iter().enumerate() {
                let mut ws = m.words();
                if m.opcode == 11 {
                    // imports need ids of their own
                    ws[1] = next_import;
                    next_import += 1;
                }
                w.extend(ws);
                which.push(ub + (r % variants) * u.len() + x);
            }
        }
        base = ub + variants * u.len();
        for m in &post {
            w.extend(m.words());
            which.push(base);
            base += 1;
        }
        (w, which)
    };
    o.case(true, &(k, reps, &units));
    o.describe(|| format!("{} instructions in section {}", reps * u.len(), SHAPES[k].0));
    let load = |reps: usize| -> Result<Option<(RawModule, Vec<usize>)>, String> {
        let (w, which) = assemble(reps);
        Ok(read(&le_bytes(&w), &glsl_only())?.ok().map(|m| (m, which)))
    };
    let (small, swhich) = match load(variants)? {
        Some(x) => x,
        None => {
            o.nontrivial = false;
            return Ok(());
        }
    };
    // small results per template
    let n = pre.len() + variants * u.len() + post.len();
    let mut model: Vec<Option<MInst>> = vec![None; n];
    let mut line: Vec<String> = vec![String::new(); n];
    let stext = sut(|| format!("{}", small))?;
    let slines = body_lines(&stext, 5);
    for (x, c) in small.instructions.iter().enumerate() {
        model[swhich[x]] = Some(conv::core(c));
        line[swhich[x]] = slines.get(x).unwrap_or(&"").to_string();
    }
    let small_ok = {
        let c = small.clone();
        sut(move || validate(c).map(|_| ()).map_err(|e| format!("{:?}", e)))?
    };
    let (big, which) = match load(reps)? {
        Some(x) => x,
        None => return Err(format!("{} times {} refused although {} are read", reps, SHAPES[k].0, variants)),
    };
    if big.instructions.len() != which.len() {
        return Err(format!("{} instructions written, {} read", which.len(), big.instructions.len()));
    }
    let import = u == [Cl::Import];
    for (x, c) in big.instructions.iter().enumerate() {
        let mut c = conv::core(c);
        let m = model[which[x]].clone();
        if import && c.opcode == 11 {
            if c.ops[0] != MOp::Res(100_000 + x as u32) {
                return Err(format!("import {} has result id {:?}", x, c.ops[0]));
            }
            c.ops[0] = m.as_ref().unwrap().ops[0].clone();
        }
        if Some(&c) != m.as_ref() {
            return Err(clip(&format!("instruction {} of {}: {:?} in the large module, {:?} in the small one", x, which.len(), c, m)));
        }
    }
    let text = sut(|| format!("{}", big))?;
    let lines = body_lines(&text, 5);
    if lines.len() != which.len() + 1 {
        return Err(format!("{} instructions print as {} lines", which.len(), lines.len() - 1));
    }
    for (x, w) in which.iter().enumerate() {
        if lines[x] != line[*w] && !(import && lines[x].contains("OpExtInstImport")) {
            return Err(clip(&format!("line {}: {:?} in the large module, {:?} in the small one", x, lines[x], line[*w])));
        }
    }
    drop(text);
    let want: Vec<MInst> = big.instructions.iter().map(conv::core).collect();
    let c = sut(|| big.clone())?;
    if !sut(|| c == big)? {
        return Err("clone of a large module differs".into());
    }
    drop(c);
    // The same misplaced instruction, the same missing one and the same broken
    // one, behind the repeated part: the same report, that many instructions on.
    {
        let errs = |c: Cl, at: usize, cut: bool, m: &RawModule, reps: usize| -> Result<(String, Option<i64>), String> {
            let mut x = m.clone();
            if cut {
                x.instructions.pop();
            } else {
                let mut none = Vec::new();
                let w = module_words(&Header::plain(), &[logic::of_class(&mut Src::replay(&[]), c, &mut none)]);
                let extra = match read(&le_bytes(&w), &glsl_only())? {
                    Ok(m) => m.instructions,
                    Err(_) => return Ok((String::new(), None)),
                };
                let pos = pre.len() + reps * u.len() + at;
                for (d, e) in extra.into_iter().enumerate() {
                    x.instructions.insert(pos + d, e);
                }
            }
            let r = sut(move || match validate(x) {
                Ok(l) => {
                    drop(l);
                    "valid".to_string()
                }
                Err(e) => format!("{:?}", e),
            })?;
            Ok(split_index(&r))
        };
        let shift = ((reps - variants) * u.len()) as i64;
        for c in [Cl::Model, Cl::End, Cl::Branch, Cl::Fun, Cl::Label] {
            for (at, cut) in [(0, false), (post.len(), false), (0, true)] {
                if cut && c != Cl::Model {
                    continue;
                }
                o.inner += 1;
                let a = errs(c, at, cut, &small, variants)?;
                let b = errs(c, at, cut, &big, reps)?;
                if a.0 != b.0 || a.1.map(|i| i + shift) != b.1 {
                    return Err(format!("{} {:?} behind {} {}: validation says {:?}, behind {} it says {:?}", if cut { "last instruction missing, not" } else { "an extra" }, c, reps, SHAPES[k].0, b, variants, a));
                }
            }
        }
        let (w, _) = assemble(reps);
        for tail in [vec![0u32], vec![0x0001_0008], vec![0x0003_0011, 1, 1], vec![0x0002_0011, 0xFFFF], vec![0x0002_0011], vec![0x0005_FFF0]] {
            o.inner += 1;
            let (mut a, _) = assemble(variants);
            a.extend(&tail);
            let mut b = w.clone();
            b.extend(&tail);
            let ra = read(&le_bytes(&a), &glsl_only())?.map(|_| ()).map_err(|e| format!("{:?}", e));
            let rb = read(&le_bytes(&b), &glsl_only())?.map(|_| ()).map_err(|e| format!("{:?}", e));
            if ra != rb {
                return Err(format!("words {:x?} behind {} {}: {:?}, behind {}: {:?}", tail, reps, SHAPES[k].0, rb, variants, ra));
            }
        }
    }
    let r = sut(move || validate(big))?;
    match (r, small_ok) {
        (Ok(l), Ok(())) => {
            logic::check_sections(&l, &want)?;
            sut(move || drop(l))
        }
        (Ok(_), Err(e)) => Err(format!("large module valid, small one refused with {}", e)),
        (Err(e), Ok(())) => Err(format!("large module refused with {:?}, small one valid", e)),
        (Err(e), Err(s)) => {
            let (a, b) = (split_index(&s), split_index(&format!("{:?}", e)));
            if a.0 != b.0 {
                return Err(format!("large module refused with {:?}, small one with {}", e, s));
            }
            Ok(())
        }
    }
}

fn c19_sec(i: u64, o: &mut Obs) -> Res {
    // the case number says the size, so that a replay does not need the tier
    c19_sections(i, o, &[30_000, 120_000, 65_600, 1_000_000, 300_000, 70_000])
}
fn c19_sec_n(t: bool) -> u64 {
    SHAPES.len() as u64 * if t { 24 } else { 3 }
}

/// Instructions with as many operands as the format allows.
fn c19_wide(s: &mut Src, o: &mut Obs) -> Res {
    let lists: Vec<&OpSpec> = spec().ops.iter().filter(|x| matches!(x.kinds.last(), Some(K::Ids) | Some(K::Lits) | Some(K::Pairs))).collect();
    let op = *s.pick(&lists);
    let mut head = Vec::new();
    for k in &op.kinds[..op.kinds.len() - 1] {
        gen::kind(s, k, &mut head);
    }
    if head.iter().any(|o| matches!(o, MOp::Str(t) if t.contains('\n'))) {
        head = Vec::new();
        for k in &op.kinds[..op.kinds.len() - 1] {
            gen::kind(&mut Src::replay(&[]), k, &mut head);
        }
    }
    let used = MInst::new(op.opcode, head.clone()).word_len();
    let max = 65535 - used;
    let n = *s.pick(&[max, max - 2, max - 1, max / 2, 40_000, 32_768, 255, 256]);
    let n = if matches!(op.kinds.last(), Some(K::Pairs)) { n / 2 * 2 } else { n };
    let base = s.word();
    let val = |i: usize| base.wrapping_add((i as u32).wrapping_mul(2654435761));
    let lits = matches!(op.kinds.last(), Some(K::Lits));
    let mk = |n: usize| {
        let mut ops = head.clone();
        ops.extend((0..n).map(|i| if lits { MOp::Lit(val(i)) } else { MOp::Id(val(i)) }));
        MInst::new(op.opcode, ops)
    };
    o.case(true, &(op.opcode, n, base));
    o.describe(|| format!("{} with {} list operands", op.name, n));
    let load = |n: usize| -> Result<Option<RawModule>, String> { Ok(read(&le_bytes(&module_words(&Header::plain(), &[mk(n)])), &glsl_only())?.ok()) };
    let small = match load(2)? {
        Some(m) => m,
        None => {
            o.nontrivial = false;
            return Ok(());
        }
    };
    let sm = conv::core(&small.instructions[0]);
    let st = sut(|| format!("{}", small.instructions[0]))?;
    let big = match load(n)? {
        Some(m) => m,
        None => return Err(format!("{} with {} operands refused, with 2 accepted", op.name, n)),
    };
    let bm = conv::core(&big.instructions[0]);
    let keep = sm.ops.len() - 2;
    if bm.ops.len() != keep + n || bm.ops[..keep] != sm.ops[..keep] {
        return Err(format!("{} with {} list operands decoded with {} operands", op.name, n, bm.ops.len()));
    }
    let want = mk(n);
    if bm.ops[keep..] != want.ops[want.ops.len() - n..] {
        return Err("list operands differ".into());
    }
    // text: the small text up to the list, then the operands printed the same way
    let item = |i: usize| if lits { format!(" {}", val(i)) } else { format!(" %{}", val(i)) };
    let tail = format!("{}{}", item(0), item(1));
    if let Some(prefix) = st.strip_suffix(tail.as_str()) {
        let mut t = prefix.to_string();
        for i in 0..n {
            t.push_str(&item(i));
        }
        let bt = sut(|| format!("{}", big.instructions[0]))?;
        if bt != t {
            return Err(format!("{} with {} list operands prints differently from the same with 2", op.name, n));
        }
    }
    let v = sut(move || validate(big).map(|_| ()).map_err(|e| format!("{:?}", e)))?;
    let sv = sut(move || validate(small).map(|_| ()).map_err(|e| format!("{:?}", e)))?;
    if v != sv {
        return Err(format!("validation gives {:?} with {} operands, {:?} with 2", v, n, sv));
    }
    Ok(())
}

/// Strings as long as the format allows.
fn c19_strings(s: &mut Src, o: &mut Obs) -> Res {
    let ops: Vec<&OpSpec> = spec().ops.iter().filter(|x| x.opcode != 11 && x.kinds.iter().any(|k| *k == K::Str || *k == K::Opt(Box::new(K::Str)))).collect();
    let op = *s.pick(&ops);
    let mut m = gen::inst_of(&mut Src::replay(&[]), op);
    for x in m.ops.iter_mut() {
        match x {
            MOp::Id(v) | MOp::Res(v) | MOp::Lit(v) => *v = s.word(),
            _ => {}
        }
    }
    if op.opcode == 3 {
        m.ops.truncate(2);
        m.ops.push(MOp::Id(s.word()));
        m.ops.push(MOp::Str(String::new()));
    }
    let at = match m.ops.iter().position(|x| matches!(x, MOp::Str(_))) {
        Some(i) => i,
        None => return Err("no string operand generated".into()),
    };
    let other = m.word_len() - 1;
    let max = (65535 - other) * 4 - 1;
    let n = *s.pick(&[max, max - 1, max - 2, max - 3, max - 4, max / 2, 65_536, 65_535, 4096, 1024, 256, 255]);
    let unit = *s.pick(&["a", "abcdefg", "é", "漢字", "x😀", "0123456789abcdef"]);
    let mut t = String::with_capacity(n);
    while t.len() + unit.len() <= n {
        t.push_str(unit);
    }
    while t.len() < n {
        t.push('.');
    }
    o.case(true, &(op.opcode, n, unit));
    o.describe(|| format!("{} with a string of {} bytes of {:?}", op.name, n, unit));
    let load = |t: &str| -> Result<Result<RawModule, String>, String> {
        let mut m = m.clone();
        m.ops[at] = MOp::Str(t.to_string());
        Ok(read(&le_bytes(&module_words(&Header::plain(), &[m])), &glsl_only())?.map_err(|e| format!("{:?}", e)))
    };
    let (small, big) = match (load("q")?, load(&t)?) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), _) => {
            o.nontrivial = false;
            return Ok(());
        }
        (_, Err(e)) => return Err(format!("{} with a string of {} bytes refused ({}), with one of 1 byte accepted", op.name, n, e)),
    };
    let mut want = conv::core(&small.instructions[0]);
    let bm = conv::core(&big.instructions[0]);
    let at = match want.ops.iter().position(|x| matches!(x, MOp::Str(_))) {
        Some(i) => i,
        None => return Err("the string operand is not decoded".into()),
    };
    want.ops[at] = MOp::Str(t.clone());
    if bm != want || big.instructions.len() != 1 {
        return Err(format!("{} with a string of {} bytes is decoded wrongly", op.name, n));
    }
    let st = sut(|| format!("{}", small))?;
    let bt = sut(|| format!("{}", big))?;
    if bt != st.replacen("\"q\"", &format!("\"{}\"", t), 1) {
        return Err(format!("{} with a string of {} bytes prints differently", op.name, n));
    }
    let c = sut(|| big.clone())?;
    if !sut(|| c == big)? {
        return Err("clone differs".into());
    }
    let v = sut(move || validate(big).map(|_| ()).map_err(|e| format!("{:?}", e)))?;
    let sv = sut(move || validate(small).map(|_| ()).map_err(|e| format!("{:?}", e)))?;
    if v != sv {
        return Err(format!("validation gives {:?} with {} bytes, {:?} with 1", v, n, sv));
    }
    Ok(())
}

pub fn arms(id: &str) -> Option<Vec<Arm>> {
    Some(match id {
        "C19" => vec![exh("sections", c19_sec_n, c19_sec).stack(2048).hang(120).threads(4), rand("wide", 120, 3000, c19_wide).stack(2048).hang(120), rand("strings", 60, 1500, c19_strings).stack(2048).hang(120)],
        _ => return None,
    })
}
