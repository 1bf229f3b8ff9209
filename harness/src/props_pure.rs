//! C23, C24: equality of what the later passes make, and independence from
//! history and threads.

use crate::engine::*;
use crate::gen;
use crate::logic;
use crate::model::*;
use crate::props_cf as cf;
use crate::extsets::glsl_only;
use crate::props_read::{any_bytes, models, mutate_inst, read};
use crate::refdec::*;
use crate::spec::*;
use magmaflow::spv::logical::*;

fn clip(s: &str) -> String {
    s.chars().take(3000).collect()
}

// ---------------------------------------------------------------- C23

fn both<T: PartialEq>(a: &T, b: &T) -> Result<bool, String> {
    let (x, y, n, m) = sut(|| (a == b, b == a, a != b, b != a))?;
    if x != y {
        return Err("equality is not symmetric".into());
    }
    if x == n || y == m {
        return Err("== and != agree".into());
    }
    Ok(x)
}

fn twin(s: &mut Src, v: &[MInst]) -> Vec<MInst> {
    let mut w = v.to_vec();
    match s.weighted(&[2, 12, 3, 2, 2]) {
        1 => {
            let i = s.idx(w.len());
            if w[i].opcode == 12 {
                if let MOp::Ext(n, ws, _) = w[i].ops[3].clone() {
                    match s.below(3) {
                        0 => w[i].ops[3] = MOp::Ext(27 - n, ws, String::new()),
                        1 => w[i].ops[3] = MOp::Ext(n, vec![s.other_word(ws[0])], String::new()),
                        _ => w[i].ops[1] = MOp::Res(s.word()),
                    }
                }
            } else if w[i].opcode != 11 {
                let x = mutate_inst(s, &w[i]);
                // stay in the section
                if logic::class(&x) == logic::class(&w[i]) {
                    w[i] = x;
                }
            }
        }
        2 => {
            // neighbours of one section exchanged
            let i = s.idx(w.len());
            if i > 0 && w[i].opcode != 11 && logic::class(&w[i]) == logic::class(&w[i - 1]) {
                w.swap(i - 1, i);
            }
        }
        3 => {
            let i = s.idx(w.len());
            if w[i].opcode != 11 {
                let x = w[i].clone();
                w.insert(i, x);
            }
        }
        4 => {
            let i = s.idx(w.len());
            if w[i].opcode != 11 {
                w.remove(i);
            }
        }
        _ => {}
    }
    w
}

fn c23_modules(s: &mut Src, o: &mut Obs) -> Res {
    let a = logic::gen_layout(s, 4);
    let b = twin(s, &a);
    o.case(false, &(&a, &b));
    o.describe(|| format!("{}--- against ---\n{}", gen::show(&a), gen::show(&b)));
    let (ra, rb) = match (logic::cores(&a), logic::cores(&b)) {
        (Some(x), Some(y)) => (x, y),
        _ => return Ok(()),
    };
    let (ra2, rb2) = (ra.clone(), rb.clone());
    let (va, vb, va2) = sut(|| (validate(ra), validate(rb), validate(ra2)))?;
    if !both(&va, &va2)? {
        return Err("validating the same module twice gives outcomes that are not equal".into());
    }
    match (&va, &vb) {
        (Ok(x), Ok(y)) => {
            o.nontrivial = true;
            let (lx, ly) = (logic::relist(x)?, logic::relist(y)?);
            let same = lx == ly;
            o.class = Some(if same { "same" } else { "different" });
            if both(x, y)? != same {
                return Err(format!("logical modules compare {}, but their instructions are {}", if same { "different" } else { "equal" }, if same { "the same" } else { "different" }));
            }
            for m in [x, y] {
                let c = sut(|| m.clone())?;
                if !both(&c, m)? {
                    return Err("the clone of a logical module is not equal to it".into());
                }
                if logic::relist(&c)? != logic::relist(m)? {
                    return Err("the clone of a logical module contains other instructions".into());
                }
            }
            // and the functions one by one
            for (f, g) in x.function_definitions.iter().zip(&y.function_definitions) {
                let alone = |f: &FunctionDefinition| {
                    let mut l = x.clone();
                    l.function_definitions = vec![f.clone()];
                    logic::relist(&l)
                };
                if both(f, g)? != (alone(f)? == alone(g)?) {
                    return Err("function definitions compare wrongly".into());
                }
            }
        }
        (Err(x), Err(y)) => {
            o.class = Some("refused");
            if both(x, y)? != (format!("{:?}", x) == format!("{:?}", y)) {
                return Err(format!("validation errors {:?} and {:?} compare wrongly", x, y));
            }
        }
        _ => {
            o.class = Some("one refused");
            if both(&va, &vb)? {
                return Err("a module and an error compare equal".into());
            }
        }
    }
    drop(rb2);
    Ok(())
}

/// A list with one thing different about it.
fn shake<T: Clone>(s: &mut Src, v: &mut Vec<T>, pool: &[T]) {
    let n = v.len();
    match s.below(7) {
        0 if n > 1 => {
            let (i, j) = (s.idx(n), s.idx(n));
            v.swap(i, j);
        }
        1 if n > 1 => {
            let k = s.idx(n);
            v.rotate_left(k);
        }
        2 if n > 1 => {
            let i = s.idx(n);
            let x = v.remove(i);
            let j = s.idx(n);
            v.insert(j, x);
        }
        3 if n > 0 => {
            let i = s.idx(n);
            v.remove(i);
        }
        4 if n > 0 => {
            let x = s.pick(&v[..]).clone();
            let j = s.idx(n + 1);
            v.insert(j, x);
        }
        5 if n > 0 && !pool.is_empty() => {
            let i = s.idx(n);
            v[i] = s.pick(pool).clone();
        }
        _ if !pool.is_empty() => {
            let j = s.idx(n + 1);
            v.insert(j, s.pick(pool).clone());
        }
        _ => {}
    }
}

/// A logical module with one thing different about it, taken from another.
fn shake_module(s: &mut Src, l: &mut LogicalModule, p: &LogicalModule) {
    match s.weighted(&[1, 1, 1, 1, 1, 1, 2, 2, 2, 3, 2, 10]) {
        0 => shake(s, &mut l.capabilities, &p.capabilities),
        1 => shake(s, &mut l.extensions, &p.extensions),
        2 => shake(s, &mut l.ext_inst_imports, &p.ext_inst_imports),
        3 => l.memory_model = p.memory_model.clone(),
        4 => shake(s, &mut l.entry_points, &p.entry_points),
        5 => shake(s, &mut l.execution_modes, &p.execution_modes),
        6 => shake(s, &mut l.debug, &p.debug),
        7 => shake(s, &mut l.annotations, &p.annotations),
        8 => shake(s, &mut l.globals, &p.globals),
        9 => {
            if l.function_declarations.is_empty() || s.chance(80) {
                shake(s, &mut l.function_declarations, &p.function_declarations);
            } else {
                let k = s.idx(l.function_declarations.len());
                let f = &mut l.function_declarations[k];
                let pool: Vec<_> = p.function_declarations.iter().flat_map(|f| f.parameters.clone()).collect();
                shake(s, &mut f.parameters, &pool);
            }
        }
        10 => shake(s, &mut l.function_definitions, &p.function_definitions),
        _ if l.function_definitions.is_empty() => {}
        _ => {
            let k = s.idx(l.function_definitions.len());
            let f = &mut l.function_definitions[k];
            let blocks: Vec<BasicBlock> = p.function_definitions.iter().flat_map(|f| f.blocks.clone()).collect();
            match s.below(4) {
                0 => {
                    let pool: Vec<_> = p.function_definitions.iter().flat_map(|f| f.parameters.clone()).collect();
                    shake(s, &mut f.parameters, &pool);
                }
                1 => shake(s, &mut f.blocks, &blocks),
                2 if !p.function_definitions.is_empty() => f.function = s.pick(&p.function_definitions).function.clone(),
                _ if f.blocks.is_empty() || blocks.is_empty() => {}
                _ => {
                    let k = s.idx(f.blocks.len());
                    let from = s.pick(&blocks).clone();
                    let b = &mut f.blocks[k];
                    match s.below(4) {
                        0 => b.label = from.label,
                        1 => b.merge = if s.chance(128) { from.merge } else { None },
                        2 => b.branch = from.branch,
                        _ => shake(s, &mut b.code, &from.code),
                    }
                }
            }
        }
    }
}

/// What a logical module consists of, and where.
fn content(l: &LogicalModule) -> Result<(Vec<usize>, Vec<MInst>), String> {
    let mut n = vec![l.capabilities.len(), l.extensions.len(), l.ext_inst_imports.len(), l.entry_points.len(), l.execution_modes.len(), l.debug.len(), l.annotations.len(), l.globals.len(), l.function_declarations.len(), l.function_definitions.len()];
    n.extend(l.function_declarations.iter().map(|f| f.parameters.len()));
    for f in &l.function_definitions {
        n.push(f.parameters.len());
        n.push(f.blocks.len());
        n.extend(f.blocks.iter().map(|b| b.code.len()));
    }
    Ok((n, logic::relist(l)?))
}

/// Logical modules taken apart and put together differently.
fn c23_shuffled(s: &mut Src, o: &mut Obs) -> Res {
    let a = logic::gen_layout(s, 4);
    let b = if s.chance(128) { a.clone() } else { logic::gen_layout(s, 4) };
    o.case(false, &(&a, &b));
    let (ra, rb) = match (logic::cores(&a), logic::cores(&b)) {
        (Some(x), Some(y)) => (x, y),
        _ => return Ok(()),
    };
    let (x, p) = match sut(|| (validate(ra), validate(rb)))? {
        (Ok(x), Ok(y)) => (x, y),
        _ => return Ok(()),
    };
    let mut y = sut(|| x.clone())?;
    for _ in 0..1 + s.below(2) {
        shake_module(s, &mut y, &p);
    }
    let same = content(&x)? == content(&y)?;
    o.nontrivial = !same;
    o.class = Some(if same { "same" } else { "different" });
    o.describe(|| clip(&format!("{}--- against ---\n{}", gen::show(&logic::relist(&x).unwrap_or_default()), gen::show(&logic::relist(&y).unwrap_or_default()))));
    if both(&x, &y)? != same {
        return Err(format!("logical modules compare {}, but their contents are {}", if same { "different" } else { "equal" }, if same { "the same" } else { "different" }));
    }
    let c = sut(|| y.clone())?;
    if !both(&c, &y)? || content(&c)? != content(&y)? {
        return Err("the clone of a logical module differs from it".into());
    }
    Ok(())
}

/// Every pair of validation errors.
fn errors() -> Vec<ValidationError> {
    let mut v = vec![ValidationError::MemoryModelMissing];
    for i in [0usize, 1, 2, 3, 255, 256, 65535, 65536, 1 << 20, u32::MAX as usize, usize::MAX] {
        v.push(ValidationError::ExpectedOpFunction(i));
        v.push(ValidationError::ExpectedOpFunctionEnd(i));
        v.push(ValidationError::ExpectedBranch(i));
        v.push(ValidationError::UnexpectedInstruction(i));
    }
    v
}
fn c23_errors_n(_: bool) -> u64 {
    (errors().len() * errors().len()) as u64
}
fn c23_errors(i: u64, o: &mut Obs) -> Res {
    let v = errors();
    let n = v.len() as u64;
    let (x, y) = (&v[(i / n) as usize], &v[(i % n) as usize]);
    o.case(i / n != i % n, &i);
    o.describe(|| format!("{:?} against {:?}", x, y));
    if both(x, y)? != (i / n == i % n) {
        return Err(format!("{:?} and {:?} compare wrongly", x, y));
    }
    if !both(&sut(|| x.clone())?, x)? {
        return Err(format!("the clone of {:?} is not equal to it", x));
    }
    Ok(())
}

/// The structure as it is built, sequences and all.
#[allow(unreachable_patterns)]
fn mirror(c: &ControlFlowChain, out: &mut String) {
    match c {
        ControlFlowChain::Block(v) => {
            out.push('[');
            for x in v {
                mirror(x, out);
                out.push(',');
            }
            out.push(']');
        }
        ControlFlowChain::Selection(_, l, r, _, _) => {
            out.push_str(&format!("{:?}(", head(c)));
            mirror(l, out);
            out.push('|');
            mirror(r, out);
            out.push(')');
        }
        ControlFlowChain::Loop(_, i, _, _) => {
            out.push_str(&format!("{:?}(", head(c)));
            mirror(i, out);
            out.push(')');
        }
        _ => out.push_str(&format!("{:?}", cf::chain(c))),
    }
}
/// A construct without its inside.
fn head(c: &ControlFlowChain) -> Vec<cf::Ch> {
    match c {
        ControlFlowChain::Selection(b, _, _, h, w) => cf::chain(&ControlFlowChain::Selection(*b, Box::new(ControlFlowChain::Break), Box::new(ControlFlowChain::Break), h.clone(), w.clone())),
        ControlFlowChain::Loop(b, _, h, w) => cf::chain(&ControlFlowChain::Loop(*b, Box::new(ControlFlowChain::Break), h.clone(), w.clone())),
        _ => vec![],
    }
}
fn tree(c: &ControlFlowChain) -> String {
    let mut t = String::new();
    mirror(c, &mut t);
    t
}

/// A copy, different in at most one place.
fn altered(s: &mut Src, c: &ControlFlowChain, at: &mut u64, ids: &[BlockId]) -> ControlFlowChain {
    let here = *at == 0;
    *at = at.wrapping_sub(1);
    if here && s.chance(60) {
        return cf::built(s, 1, ids);
    }
    match c {
        ControlFlowChain::Atom(b) => ControlFlowChain::Atom(if here { *s.pick(ids) } else { *b }),
        ControlFlowChain::Block(v) => {
            let mut v: Vec<ControlFlowChain> = v.iter().map(|x| altered(s, x, at, ids)).collect();
            if here && !v.is_empty() {
                match s.below(4) {
                    0 => {
                        v.pop();
                    }
                    1 => v.push(ControlFlowChain::Atom(*s.pick(ids))),
                    2 => v.reverse(),
                    _ => {
                        let k = s.idx(v.len());
                        let x = v.remove(k);
                        v.insert(k, ControlFlowChain::Block(vec![x]));
                    }
                }
            }
            ControlFlowChain::Block(v)
        }
        ControlFlowChain::Selection(b, l, r, h, w) => {
            let (mut b, mut h, mut w) = (*b, h.clone(), w.clone());
            let l = altered(s, l, at, ids);
            let r = altered(s, r, at, ids);
            if here {
                match s.below(5) {
                    0 => b = *s.pick(ids),
                    1 => h.flatten = !h.flatten,
                    2 => h.dont_flatten = !h.dont_flatten,
                    3 => w = cf::weights(&cf::wts(s)),
                    _ => return ControlFlowChain::Selection(b, Box::new(r), Box::new(l), h, w),
                }
            }
            ControlFlowChain::Selection(b, Box::new(l), Box::new(r), h, w)
        }
        ControlFlowChain::Loop(b, i, h, w) => {
            let (mut b, mut h, mut w) = (*b, h.clone(), w.clone());
            let i = altered(s, i, at, ids);
            if here {
                match s.below(6) {
                    0 => b = *s.pick(ids),
                    1 => h.unroll = !h.unroll,
                    2 => h.dont_unroll = !h.dont_unroll,
                    3 => h.dependency_infinite = !h.dependency_infinite,
                    4 => h.dependency_length = cf::dep(s),
                    _ => w = cf::weights(&cf::wts(s)),
                }
            }
            ControlFlowChain::Loop(b, Box::new(i), h, w)
        }
        ControlFlowChain::Break => if here { ControlFlowChain::Continue } else { ControlFlowChain::Break },
        ControlFlowChain::Continue => if here { ControlFlowChain::Break } else { ControlFlowChain::Continue },
    }
}
fn size(c: &ControlFlowChain) -> u64 {
    1 + match c {
        ControlFlowChain::Block(v) => v.iter().map(size).sum(),
        ControlFlowChain::Selection(_, l, r, _, _) => size(l) + size(r),
        ControlFlowChain::Loop(_, i, _, _) => size(i),
        _ => 0,
    }
}

fn compare_chains(a: &ControlFlowChain, b: &ControlFlowChain, o: &mut Obs) -> Res {
    let (x, y) = (tree(a), tree(b));
    o.class = Some(if x == y { "same" } else { "different" });
    if both(a, b)? != (x == y) {
        return Err(clip(&format!("structures compare {}: {} against {}", if x == y { "different" } else { "equal" }, x, y)));
    }
    if !both(a, a)? {
        return Err("a structure is not equal to itself".into());
    }
    Ok(())
}

fn c23_built(s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.below(4) as u32;
    let mut ids = Vec::new();
    for i in 0..n {
        let l = if s.chance(200) { i * 3 + 1 } else { s.word() };
        match cf::block_id(l) {
            Some(b) => ids.push(b),
            None => {
                o.case(false, &0);
                return Ok(());
            }
        }
    }
    let depth = 1 + s.below(4) as u32;
    let a = cf::built(s, depth, &ids);
    let mut at = if s.chance(30) { u64::MAX >> 1 } else { s.below(size(&a)) };
    let b = altered(s, &a, &mut at, &ids);
    o.case(cf::nesting(&cf::chain(&a)) > 0, &(tree(&a), tree(&b)));
    o.describe(|| clip(&format!("{} against {}", tree(&a), tree(&b))));
    compare_chains(&a, &b, o)
}

fn c23_recovered(s: &mut Src, o: &mut Obs) -> Res {
    let f = cf::some_fun(s);
    let g = if s.chance(40) { f.clone() } else { cf::mutate(s, f.clone()) };
    o.case(false, &(&f, &g));
    o.describe(|| format!("{}--- against ---\n{}", cf::show_fun(&f), cf::show_fun(&g)));
    let (a, b, a2) = sut(|| (find_control_flow(cf::plain(&f)), find_control_flow(cf::plain(&g)), find_control_flow(cf::plain(&f))))?;
    if let (Ok(x), Ok(x2)) = (&a, &a2) {
        if !both(x, x2)? {
            return Err("recovering twice gives structures that are not equal".into());
        }
    }
    if let (Ok(x), Ok(y)) = (&a, &b) {
        o.nontrivial = f.len() > 1;
        compare_chains(x, y, o)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

/// Everything the library says about a file.
fn story(b: &[u8]) -> Result<String, String> {
    let r = read(b, &glsl_only())?;
    sut(|| {
        let mut t = String::new();
        match &r {
            Err(e) => t += &format!("{:?} {}\n", e, e),
            Ok(m) => {
                t += &format!("{}\n{:?}\n", m, m);
                match validate(m.clone()) {
                    Err(e) => t += &format!("{:?}\n", e),
                    Ok(l) => {
                        t += &format!("{:?}\n", l);
                        for f in &l.function_definitions {
                            match find_control_flow(f.clone()) {
                                Err(e) => t += &format!("{:?}\n", e),
                                Ok(c) => t += &format!("{:?}\n{}\n{}\n", c, c, ControlFlowFunctionPrinter(f, &c)),
                            }
                        }
                    }
                }
            }
        }
        t
    })
}

/// Some files, most of them much alike.
fn files(s: &mut Src) -> Vec<Vec<u8>> {
    let n = 2 + s.below(3) as usize;
    let mut v: Vec<Vec<u8>> = Vec::new();
    let mut last: Option<(Header, Vec<MInst>)> = None;
    for _ in 0..n {
        match s.weighted(&[6, 3, 12, 4]) {
            1 => v.push(any_bytes(s)),
            2 if last.is_some() => {
                // as the one before, one instruction different
                let (mut h, m) = last.clone().unwrap();
                let m = if m.is_empty() { m } else { twin(s, &m) };
                if s.chance(30) {
                    h = gen::header(s);
                }
                v.push(le_bytes(&module_words(&h, &m)));
                last = Some((h, m));
            }
            3 if !v.is_empty() => {
                // one word or the length different
                let mut b = s.pick(&v).clone();
                if b.len() > 24 && s.chance(60) {
                    b.truncate(b.len() - 1 - s.idx(b.len() - 21).min(8));
                } else if !b.is_empty() {
                    let i = s.idx(b.len());
                    b[i] ^= 1 << s.below(8);
                }
                v.push(b);
            }
            _ => {
                let h = gen::header(s);
                let m = if s.chance(180) { logic::gen_layout(s, 3) } else { gen::module(s, 6) };
                v.push(le_bytes(&module_words(&h, &m)));
                last = Some((h, m));
            }
        }
    }
    for b in &mut v {
        if b.len() % 4 == 0 && s.chance(50) {
            for c in b.chunks_mut(4) {
                c.reverse();
            }
        }
    }
    v
}

/// The reader's result against the reference decoder's.
fn judged(b: &[u8], o: &mut Obs) -> Res {
    let r = decode(b, &glsl_only());
    let got = read(b, &glsl_only())?;
    if let (Ok(m), Ok(_)) = (&got, &r.result) {
        let h = Header { magic: MAGIC, version: 0x10000, generator: 0, bound: m.bound, schema: 0 };
        let want = module_text(&h, &models(m));
        let shown = sut(|| format!("{}", m))?;
        // instruction lines (the header comment is C09's)
        let tail = |t: &str| t.lines().skip(5).map(|x| x.to_string()).collect::<Vec<_>>();
        if tail(&shown) != tail(&want) {
            return Err("a file prints differently after others were processed".into());
        }
        o.nontrivial = true;
    }
    compare_with(&r, &got, false).map(|_| ())
}

fn c24_history(s: &mut Src, o: &mut Obs) -> Res {
    let f = files(s);
    o.case(false, &f);
    o.describe(|| f.iter().map(|b| gen::show_bytes(b)).collect::<Vec<_>>().join("\n"));
    let mut told: Vec<Option<String>> = vec![None; f.len()];
    let steps = 3 + s.len(7);
    for _ in 0..steps {
        let k = s.idx(f.len());
        o.inner += 1;
        judged(&f[k], o)?;
        let t = story(&f[k])?;
        match &told[k] {
            None => told[k] = Some(t),
            Some(old) if *old == t => {}
            Some(old) => return Err(clip(&format!("file {} gives another result the second time: {}", k, cf::first_diff(old, &t)))),
        }
    }
    Ok(())
}

fn c24_threads(s: &mut Src, o: &mut Obs) -> Res {
    let f = files(s);
    o.case(false, &f);
    o.describe(|| f.iter().map(|b| gen::show_bytes(b)).collect::<Vec<_>>().join("\n"));
    let mut want = Vec::new();
    for b in &f {
        judged(b, o)?;
        want.push(story(b)?);
    }
    let (f, want) = (&f, &want);
    let n = 2 + s.below(3) as usize;
    let rounds = 1 + s.below(3) as usize;
    o.inner += (n * rounds) as u64;
    let bar = &std::sync::Barrier::new(n);
    let rs: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        bar.wait();
                        for r in 0..rounds {
                            for i in 0..f.len() {
                                let k = (i + t + r) % f.len();
                                let got = story(&f[k])?;
                                if got != want[k] {
                                    return Err(clip(&format!("file {} gives another result while other threads work: {}", k, cf::first_diff(&want[k], &got))));
                                }
                            }
                        }
                        Ok(())
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    rs.into_iter().find(|r| r.is_err()).unwrap_or(Ok(()))
}

/// Functions much alike, one after the other, in any order and again.
fn c24_functions(s: &mut Src, o: &mut Obs) -> Res {
    let mut fs: Vec<(cf::Fun, Option<Vec<cf::Ch>>)> = Vec::new();
    if s.chance(180) {
        let (f, c) = cf::structured(s, 3, 10);
        fs.push((f, Some(c)));
    } else {
        fs.push((cf::some_fun(s), None));
    }
    for _ in 0..1 + s.len(4) {
        let mut f = s.pick(&fs).0.clone();
        match s.below(5) {
            // another block first
            0 | 1 => {
                let k = s.idx(f.len());
                f.swap(0, k);
            }
            2 => f = cf::mutate(s, f),
            3 => f = cf::relabel(s, f),
            _ => {
                let (g, c) = cf::structured(s, 2, f.len() as i32);
                fs.push((g, Some(c)));
                continue;
            }
        }
        fs.push((f, None));
    }
    o.case(fs[0].0.len() > 1, &fs);
    o.describe(|| fs.iter().map(|f| cf::show_fun(&f.0)).collect::<Vec<_>>().join("--\n"));
    let mut told: Vec<Option<cf::Out>> = vec![None; fs.len()];
    for _ in 0..3 + s.len(9) {
        let k = s.idx(fs.len());
        o.inner += 1;
        let (f, want) = &fs[k];
        let got = cf::recover(cf::plain(f))?;
        cf::justified(f, &got).map_err(|e| format!("function {}: {}", k, e))?;
        match (&got, want) {
            (Ok(c), Some(w)) if c != w => return Err(clip(&format!("function {} is recovered as {:?}, written as {:?}", k, c, w))),
            (Err(e), Some(_)) => return Err(format!("structured function {} is refused with {:?}", k, e)),
            (Ok(c), None) => cf::equivalent(f, c).map_err(|e| format!("function {}: {}", k, e))?,
            _ => {}
        }
        match &told[k] {
            None => told[k] = Some(got),
            Some(old) if *old == got => {}
            Some(old) => return Err(clip(&format!("function {} gives another outcome the second time: {:?}, then {:?}", k, old, got))),
        }
    }
    Ok(())
}

/// The same few things again and again on one thread that lives long.
fn c24_endurance(s: &mut Src, o: &mut Obs) -> Res {
    let h = gen::header(s);
    let kind = s.below(3);
    let reps = 1 + s.len(60) * 400;
    match kind {
        0 => {
            // many blocks in all, almost none of them reachable
            let n = 1 + s.below(1500) as u32;
            let (mut f, want) = cf::structured(s, 2, 6);
            let used: Vec<u32> = f.iter().map(|b| b.label).collect();
            for i in 0..n {
                let l = 0x4000_0000 + i;
                if !used.contains(&l) {
                    f.push(cf::Blk { label: l, merge: cf::Mg::No, br: cf::Br::Ret });
                }
            }
            let reps = reps.min(3_000_000 / f.len());
            o.case(true, &(&f, reps));
            o.inner += reps as u64;
            o.describe(|| format!("{} unreachable blocks, {} times\n{}", n, reps, clip(&cf::show_fun(&f))));
            let def = cf::plain(&f);
            for i in 0..reps {
                match sut(|| find_control_flow(def.clone()))? {
                    Ok(c) if i % 64 == 0 || i + 1 == reps => {
                        if cf::chain(&c) != want {
                            return Err(format!("recovery {} of the same function gives another structure", i));
                        }
                    }
                    Ok(_) => {}
                    Err(e) => return Err(format!("recovery {} of the same structured function fails with {:?}", i, e)),
                }
            }
        }
        1 => {
            let m = gen::module(s, 6);
            let b = le_bytes(&module_words(&h, &m));
            o.case(!m.is_empty(), &(&b, reps));
            o.inner += reps as u64;
            o.describe(|| format!("read {} times\n{}", reps, gen::show(&m)));
            let first = read(&b, &glsl_only())?;
            let x = match &first {
                Ok(x) => x,
                Err(e) => return Err(format!("a well-formed file is refused with {:?}", e)),
            };
            for i in 0..reps {
                match read(&b, &glsl_only())? {
                    Ok(y) if i % 64 == 0 || i + 1 == reps => {
                        if models(x) != models(&y) {
                            return Err(format!("reading {} of the same file gives other instructions", i));
                        }
                    }
                    Ok(_) => {}
                    Err(e) => return Err(format!("reading {} of the same file fails with {:?}", i, e)),
                }
            }
        }
        _ => {
            let a = logic::gen_layout(s, 3);
            let reps = reps / 4 + 1;
            o.case(a.len() > 1, &(&a, reps));
            o.inner += reps as u64;
            o.describe(|| format!("validated and printed {} times\n{}", reps, gen::show(&a)));
            let m = match logic::cores(&a) {
                Some(m) => m,
                None => return Ok(()),
            };
            let (text, first) = sut(|| (format!("{}", m), validate(m.clone())))?;
            for i in 0..reps {
                let (v, same) = sut(|| (validate(m.clone()), i % 64 != 0 || format!("{}", m) == text))?;
                if !same {
                    return Err(format!("printing {} of the same module gives another text", i));
                }
                if !both(&v, &first)? {
                    return Err(format!("validation {} of the same module gives another outcome", i));
                }
            }
        }
    }
    Ok(())
}

pub fn arms(id: &str) -> Option<Vec<Arm>> {
    Some(match id {
        "C23" => vec![rand("modules", 12_000, 400_000, c23_modules), rand("shuffled", 12_000, 400_000, c23_shuffled), exh("errors", c23_errors_n, c23_errors), rand("built", 60_000, 2_000_000, c23_built), rand("recovered", 40_000, 1_200_000, c23_recovered)],
        "C24" => vec![rand("histories", 5_000, 150_000, c24_history), rand("functions", 15_000, 500_000, c24_functions), rand("threads", 800, 25_000, c24_threads).threads(3), rand("endurance", 20, 400, c24_endurance)],
        _ => return None,
    })
}
