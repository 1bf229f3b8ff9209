//! C25, C26: printing into destinations that fail, and the memory that reading,
//! printing, validating, cloning and comparing use.

use crate::engine::*;
use crate::extsets::*;
use crate::gen;
use crate::logic;
use crate::model::*;
use crate::props_cf as cf;
use crate::props_read::{self, decode_for, read};
use crate::props_text;
use magmaflow::spv::logical::{find_control_flow, validate, ControlFlowChain, ControlFlowFunctionPrinter};
use magmaflow::spv::raw::{read_module, Core};

// ---------------------------------------------------------------- C25

/// How much room a destination has for a text of n bytes.
fn room(s: &mut Src, n: usize) -> usize {
    match s.below(8) {
        0 => n,
        1 => n.saturating_sub(1),
        2 => 0,
        3 => n.saturating_sub(s.idx(40)),
        4 => s.idx(40).min(n),
        _ => s.idx(n + 1),
    }
}
fn try_rooms(s: &mut Src, d: &dyn std::fmt::Display, tries: u64) -> Res {
    let t = sut(|| format!("{}", d))?;
    for _ in 0..tries {
        let r = room(s, t.len());
        sink(d, &t, r)?;
    }
    Ok(())
}
fn c25_modules(s: &mut Src, o: &mut Obs) -> Res {
    let h = gen::header(s);
    let mut m = gen::module(s, 8);
    if s.chance(20) {
        let k = s.idx(m.len() + 1);
        let x = gen::built_inst(s);
        m.insert(k, x);
    }
    o.case(!m.is_empty(), &(&h, &m));
    o.describe(|| gen::show(&m));
    let r = match decode_for(&h, &m) {
        Some(r) => r,
        None => {
            o.nontrivial = false;
            return Ok(());
        }
    };
    try_rooms(s, &r, 4)?;
    if !r.instructions.is_empty() {
        let c = &r.instructions[s.idx(r.instructions.len())];
        try_rooms(s, c, 4)?;
        if let Core::OpExtInst(x) = c {
            try_rooms(s, &x.instruction.as_ref().get_op(), 2)?;
        }
    }
    Ok(())
}
/// Every opcode, at every room there is.
fn c25_each_n(t: bool) -> u64 {
    crate::spec::spec().ops.len() as u64 * if t { 2000 } else { 60 }
}
fn c25_each(i: u64, o: &mut Obs) -> Res {
    let sp = crate::spec::spec();
    let mut s = Src::random(mix(0xC25, i));
    let op = &sp.ops[(i % sp.ops.len() as u64) as usize];
    let m = match op.opcode {
        11 | 12 => vec![
            MInst::new(11, vec![MOp::Res(9), MOp::Str("GLSL.std.450".into())]),
            MInst::new(12, vec![MOp::Id(s.word()), MOp::Res(s.word()), MOp::Id(9), MOp::Ext(13 + s.below(2) as u32, vec![s.word()], String::new())]),
        ],
        _ => vec![gen::inst_of(&mut s, op)],
    };
    o.case(true, &m);
    o.describe(|| gen::show(&m));
    let r = match decode_for(&Header::plain(), &m) {
        Some(r) => r,
        None => {
            o.nontrivial = false;
            return Ok(());
        }
    };
    for c in &r.instructions {
        let t = sut(|| format!("{}", c))?;
        for k in 0..=t.len().min(200) {
            sink(c, &t, k)?;
        }
    }
    Ok(())
}
fn c25_unread(s: &mut Src, o: &mut Obs) -> Res {
    thread_local! {
        static L: Vec<(&'static str, fn(&mut Src) -> props_text::Shown)> = props_text::printable();
    }
    let n = L.with(|l| l.len());
    let k = s.idx(n);
    let (name, f) = L.with(|l| l[k]);
    let q = s.below(257);
    ROOM.with(|c| c.set(Some(q)));
    let r = f(s);
    ROOM.with(|c| c.set(None));
    let (_, want) = r.map_err(|e| format!("{}: {}", name, e))?;
    o.case(true, &(&want, q));
    o.class = Some(name);
    o.describe(|| props_read::clip(&want));
    Ok(())
}
fn c25_flow(s: &mut Src, o: &mut Obs) -> Res {
    let f = match s.below(3) {
        0 => cf::some_fun(s),
        1 => cf::structured(s, 2, 8).0,
        _ => cf::structured(s, 4, 20).0,
    };
    let d = cf::with_code(s, &f);
    o.describe(|| cf::show_fun(&f));
    let dd = d.clone();
    let c: ControlFlowChain = match sut(move || find_control_flow(dd))? {
        Ok(c) => c,
        Err(_) => {
            o.case(false, &0);
            return Ok(());
        }
    };
    o.case(f.len() > 1, &cf::show_fun(&f));
    try_rooms(s, &c, 4)?;
    try_rooms(s, &ControlFlowFunctionPrinter(&d, &c), 4)
}
fn c25_errors(s: &mut Src, o: &mut Obs) -> Res {
    let k = s.idx(props_text::KINDS.len());
    let (name, make, _) = props_text::KINDS[k];
    let e = make(s);
    o.case(true, &format!("{:?}", e));
    o.class = Some(name);
    o.describe(|| format!("{:?}", e));
    try_rooms(s, &e, 4)
}

// ---------------------------------------------------------------- C26

/// Generous: the code at hand stays below 20 times the file, plus a quarter of a
/// MiB for an instruction that claims 65535 words.
fn bound(what: &str, n: usize, u: Used) -> Res {
    let (peak, total) = (100 * n as u64 + (1 << 20), 400 * n as u64 + (4 << 20));
    if u.peak > peak {
        return Err(format!("{} a file of {} bytes needed {} bytes of memory at one time (more than {})", what, n, u.peak, peak));
    }
    if u.total > total {
        return Err(format!("{} a file of {} bytes asked for {} bytes of memory all together (more than {})", what, n, u.total, total));
    }
    Ok(())
}
fn uses(b: &[u8], sets: &[SetDef], o: &mut Obs) -> Res {
    let n = b.len();
    let made = make_sets(sets);
    let (r, u) = measured(|| read_module(b, made))?;
    bound("reading", n, u)?;
    let m = match r {
        Ok(m) => m,
        Err(e) => {
            o.class = Some("refused");
            let (_, u) = measured(|| format!("{}", e))?;
            return bound("explaining the refusal of", n, u);
        }
    };
    o.class = Some("accepted");
    let (t, u) = measured(|| format!("{}", m))?;
    bound("printing", n, u)?;
    if t.len() > 200 * n + (1 << 16) {
        return Err(format!("the text of a file of {} bytes has {} bytes", n, t.len()));
    }
    let (c, u) = measured(|| m.clone())?;
    bound("cloning", n, u)?;
    let (_, u) = measured(|| c == m)?;
    bound("comparing", n, u)?;
    let (_, u) = measured(|| validate(m).is_ok())?;
    bound("validating", n, u)
}
/// Small files that claim much: bounds, word counts, list lengths, numbers.
fn c26_claims(s: &mut Src, o: &mut Obs) -> Res {
    let (sets, b) = match s.below(4) {
        0 => {
            let (sets, w, _, _) = props_read::c08_gen(s, false);
            let mut v = Header::plain().words();
            v.extend(w);
            (sets, le_bytes(&v))
        }
        1 => (gen::sets(s), props_read::any_bytes(s)),
        _ => {
            // any header and ids, then a last instruction that claims more words than there are
            let mut h = gen::header(s);
            if s.chance(128) {
                h.bound = s.word();
            }
            let m = gen::module(s, 6);
            let mut w = module_words(&h, &m);
            if s.chance(100) {
                let x = gen::plain_inst(s).words();
                let n = w.len();
                w.extend(x);
                w[n] = w[n] & 0xffff | (s.word() & 0xffff) << 16;
            }
            let b = if s.chance(40) { be_bytes(&w) } else { le_bytes(&w) };
            (glsl_only(), b)
        }
    };
    o.case(b.len() > 20, &b);
    o.describe(|| format!("bytes {}", gen::show_bytes(&b)));
    uses(&b, &sets, o)
}
/// Files of thousands of instructions: what grows faster than the file shows.
fn c26_large(s: &mut Src, o: &mut Obs) -> Res {
    let h = gen::header(s);
    let m = match s.below(3) {
        0 => gen::many(s, true, 20_000),
        1 => logic::gen_large_layout(s),
        _ => gen::sized(s),
    };
    let w = module_words(&h, &m);
    o.case(m.len() > 100, &w);
    o.describe(|| format!("{} instructions\n{}", m.len(), gen::show(&m)));
    uses(&le_bytes(&w), &glsl_only(), o)
}

pub fn arms(id: &str) -> Option<Vec<Arm>> {
    Some(match id {
        "C25" => vec![rand("modules", 20_000, 600_000, c25_modules), exh("each-op", c25_each_n, c25_each), rand("unread", 40_000, 1_000_000, c25_unread), rand("flow", 15_000, 500_000, c25_flow), rand("errors", 40_000, 1_000_000, c25_errors)],
        "C26" => vec![rand("claims", 60_000, 2_000_000, c26_claims), rand("large", 200, 6_000, c26_large)],
        _ => return None,
    })
}
