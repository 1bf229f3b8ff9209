//! C12-C16: control-flow recovery and its printing.  Functions are built
//! directly from the public structures, so nothing here depends on the reader
//! or the validator.

use crate::conv;
use crate::engine::*;
use crate::gen;
use crate::logic;
use crate::model::*;
use crate::props_read::clip;
use crate::spec::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::types::*;
use std::collections::{HashMap, HashSet};

// ------------------------------------------------------------------ model

pub type W = Option<(u32, u32)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Mg {
    No,
    /// merge block, hint bits
    Sel(u32, u32),
    /// merge block, continue target, hint bits (0-2), dependency length
    Loop(u32, u32, u32, Option<u32>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Br {
    Ret,
    To(u32),
    /// condition, true, false, weights
    If(u32, u32, u32, W),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Blk {
    pub label: u32,
    pub merge: Mg,
    pub br: Br,
}
pub type Fun = Vec<Blk>;

pub fn show_fun(f: &Fun) -> String {
    let mut s = String::new();
    for b in f {
        let m = match &b.merge {
            Mg::No => String::new(),
            Mg::Sel(m, h) => format!(" selection-merge {} hints {}", m, h),
            Mg::Loop(m, c, h, d) => format!(" loop-merge {} continue {} hints {} {:?}", m, c, h, d),
        };
        let r = match &b.br {
            Br::Ret => "return".to_string(),
            Br::To(t) => format!("-> {}", t),
            Br::If(_, t, f, w) => format!("-> if {} else {} {:?}", t, f, w),
        };
        s.push_str(&format!("block {}:{} {}\n", b.label, m, r));
    }
    clip(&s)
}

fn sel_control(h: u32) -> SelectionControl {
    let mut c = SelectionControl::default();
    c.flatten = h & 1 != 0;
    c.dont_flatten = h & 2 != 0;
    c
}
fn loop_control(h: u32, d: Option<u32>) -> LoopControl {
    let mut c = LoopControl::default();
    c.unroll = h & 1 != 0;
    c.dont_unroll = h & 2 != 0;
    c.dependency_infinite = h & 4 != 0;
    c.dependency_length = d;
    c
}
pub fn weights(w: &W) -> Option<BranchWeights> {
    w.map(|(a, b)| BranchWeights { true_weight: a, false_weight: b })
}

fn signature(n: u32) -> (OpFunction, Vec<OpFunctionParameter>) {
    let mut fc = FunctionControl::default();
    fc.inline = n & 1 != 0;
    fc.pure_function = n & 2 != 0;
    let f = OpFunction { result_type: OpId(n), result_id: ResultId(n.wrapping_add(4)), function_control: fc, function_type: OpId(3) };
    let p = (0..n % 3).map(|i| OpFunctionParameter { result_type: OpId(i), result_id: ResultId(700 + i) }).collect();
    (f, p)
}

pub fn build(f: &Fun, code: &dyn Fn(usize) -> Vec<GroupCode>, sig: u32) -> FunctionDefinition {
    let blocks = f
        .iter()
        .enumerate()
        .map(|(i, b)| BasicBlock {
            label: OpLabel { result_id: ResultId(b.label) },
            code: code(i),
            merge: match &b.merge {
                Mg::No => None,
                Mg::Sel(m, h) => Some(GroupMerge::OpSelectionMerge(OpSelectionMerge { merge_block: OpId(*m), selection_control: sel_control(*h) })),
                Mg::Loop(m, c, h, d) => Some(GroupMerge::OpLoopMerge(OpLoopMerge { merge_block: OpId(*m), continue_target: OpId(*c), loop_control: loop_control(*h, *d) })),
            },
            branch: match &b.br {
                Br::Ret => GroupBranch::OpReturn(OpReturn),
                Br::To(t) => GroupBranch::OpBranch(OpBranch { target_label: OpId(*t) }),
                Br::If(c, t, f, w) => GroupBranch::OpBranchConditional(OpBranchConditional { condition: OpId(*c), true_label: OpId(*t), false_label: OpId(*f), weights: weights(w) }),
            },
        })
        .collect();
    let (function, parameters) = signature(sig);
    FunctionDefinition { function, parameters, blocks }
}

thread_local! {
    /// Code instructions of every kind, decoded once per thread.
    static POOL: Vec<GroupCode> = {
        let mut s = Src::random(0xC0DE);
        let mut v = Vec::new();
        for _ in 0..12 {
            v.extend(some_code(&mut s, 16));
        }
        v
    };
}
/// The function with code in its blocks and some signature; `k` decides.
fn dressed(f: &Fun, k: u64) -> FunctionDefinition {
    if k % 3 == 0 {
        return plain(f);
    }
    POOL.with(|p| {
        build(
            f,
            &|i| {
                let h = mix(k, i as u64);
                let n = if p.is_empty() { 0 } else { (h % 4) as usize };
                (0..n).map(|j| p[(mix(h, j as u64) % p.len() as u64) as usize].clone()).collect()
            },
            (k >> 8) as u32,
        )
    })
}

pub fn plain(f: &Fun) -> FunctionDefinition {
    build(f, &|_| Vec::new(), 0)
}

/// The blocks of a function as instructions, with code from `code`.
pub fn as_insts(f: &Fun, code: &mut dyn FnMut() -> Vec<MInst>) -> Vec<MInst> {
    let mut v = Vec::new();
    for b in f {
        v.push(MInst::new(248, vec![MOp::Res(b.label)]));
        v.extend(code());
        match &b.merge {
            Mg::No => {}
            Mg::Sel(m, h) => v.push(MInst::new(247, vec![MOp::Id(*m), MOp::Mask(mask_index("SelectionControl"), *h, vec![])])),
            Mg::Loop(m, c, h, d) => {
                let (bits, p) = match d {
                    Some(x) => (*h | 8, vec![*x]),
                    None => (*h, vec![]),
                };
                v.push(MInst::new(246, vec![MOp::Id(*m), MOp::Id(*c), MOp::Mask(mask_index("LoopControl"), bits, p)]))
            }
        }
        v.push(match &b.br {
            Br::Ret => MInst::new(253, vec![]),
            Br::To(t) => MInst::new(249, vec![MOp::Id(*t)]),
            Br::If(c, t, e, w) => {
                let mut o = vec![MOp::Id(*c), MOp::Id(*t), MOp::Id(*e)];
                if let Some((a, b)) = w {
                    o.push(MOp::Lit(*a));
                    o.push(MOp::Lit(*b));
                }
                MInst::new(250, o)
            }
        });
    }
    v
}

// --------------------------------------------------- the recovered structure

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ch {
    Atom(u32),
    /// header, then, else, hint bits, weights
    Sel(u32, Vec<Ch>, Vec<Ch>, u32, W),
    /// header, body, hint bits, dependency length, weights
    Loop(u32, Vec<Ch>, u32, Option<u32>, W),
    Break,
    Continue,
    Unknown,
}

/// Number inside a BlockId, from its derived Debug text.
fn bid(b: &BlockId) -> u32 {
    let t = format!("{:?}", b);
    let d: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
    d.parse().unwrap_or(conv::BAD)
}
fn uw(w: &Option<BranchWeights>) -> W {
    w.as_ref().map(|w| (w.true_weight, w.false_weight))
}

/// The chain with sequences flattened.
#[allow(unreachable_patterns)]
fn flat(c: &ControlFlowChain, out: &mut Vec<Ch>) {
    match c {
        ControlFlowChain::Atom(b) => out.push(Ch::Atom(bid(b))),
        ControlFlowChain::Block(v) => {
            for x in v {
                flat(x, out);
            }
        }
        ControlFlowChain::Selection(b, l, r, h, w) => {
            out.push(Ch::Sel(bid(b), chain(l), chain(r), h.flatten as u32 | (h.dont_flatten as u32) << 1, uw(w)));
        }
        ControlFlowChain::Loop(b, i, h, w) => {
            let bits = h.unroll as u32 | (h.dont_unroll as u32) << 1 | (h.dependency_infinite as u32) << 2;
            out.push(Ch::Loop(bid(b), chain(i), bits, h.dependency_length, uw(w)));
        }
        ControlFlowChain::Break => out.push(Ch::Break),
        ControlFlowChain::Continue => out.push(Ch::Continue),
        _ => out.push(Ch::Unknown),
    }
}
pub fn chain(c: &ControlFlowChain) -> Vec<Ch> {
    let mut v = Vec::new();
    flat(c, &mut v);
    v
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Er {
    Duplicate(u32),
    NoBlocks,
    Unknown(u32),
    NoPrediction(u32),
    BadPrediction(&'static str, u32),
    Failed,
    Other,
}
#[allow(unreachable_patterns)]
fn err(e: &ControlFlowError) -> Er {
    match e {
        ControlFlowError::DuplicateBlockId(b) => Er::Duplicate(bid(b)),
        ControlFlowError::NoBlocks => Er::NoBlocks,
        ControlFlowError::UnknownBlockId(b) => Er::Unknown(bid(b)),
        ControlFlowError::CouldNotPredictConverge(b) => Er::NoPrediction(bid(b)),
        ControlFlowError::InvalidConvergePrediction(ControlType::Selection, b) => Er::BadPrediction("selection", bid(b)),
        ControlFlowError::InvalidConvergePrediction(ControlType::Loop, b) => Er::BadPrediction("loop", bid(b)),
        ControlFlowError::Failed => Er::Failed,
        _ => Er::Other,
    }
}

pub type Out = Result<Vec<Ch>, Er>;

pub fn recover(d: FunctionDefinition) -> Result<Out, String> {
    sut(move || find_control_flow(d)).map(|r| match r {
        Ok(c) => Ok(chain(&c)),
        Err(e) => Err(err(&e)),
    })
}

// ------------------------------------------------------------- C12 oracle

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum E {
    Node(usize),
    End,
    Bad(&'static str),
}
#[derive(Clone, Copy)]
enum Nx {
    One(E),
    Two(E, E),
}

/// Compile a sequence to an automaton of block visits; returns its entry.
fn compile(seq: &[Ch], cont: E, lp: Option<(E, E)>, nodes: &mut Vec<(u32, Nx)>) -> E {
    let mut next = cont;
    for c in seq.iter().rev() {
        next = match c {
            Ch::Atom(b) => {
                nodes.push((*b, Nx::One(next)));
                E::Node(nodes.len() - 1)
            }
            Ch::Sel(b, l, r, _, _) => {
                let le = compile(l, next, lp, nodes);
                let re = compile(r, next, lp, nodes);
                nodes.push((*b, Nx::Two(le, re)));
                E::Node(nodes.len() - 1)
            }
            Ch::Loop(b, i, _, _, _) => {
                nodes.push((*b, Nx::One(E::End)));
                let me = nodes.len() - 1;
                let ie = compile(i, E::Node(me), Some((next, E::Node(me))), nodes);
                nodes[me].1 = Nx::One(ie);
                E::Node(me)
            }
            Ch::Break => lp.map(|l| l.0).unwrap_or(E::Bad("break outside a loop")),
            Ch::Continue => lp.map(|l| l.1).unwrap_or(E::Bad("continue outside a loop")),
            Ch::Unknown => E::Bad("unknown construct"),
        };
    }
    next
}

/// Err when executing `c` and executing the branches of `f` can differ.
pub fn equivalent(f: &Fun, c: &[Ch]) -> Res {
    let mut nodes = Vec::new();
    let entry = compile(c, E::End, None, &mut nodes);
    let mut map: HashMap<u32, &Blk> = HashMap::new();
    for b in f {
        map.entry(b.label).or_insert(b);
    }
    let start = match f.first() {
        Some(b) => b.label,
        None => return Err("structure recovered from a function without blocks".into()),
    };
    // (where the structure is, which block the branches reached), with a trail
    let mut seen: HashMap<(E, u32), Option<(E, u32)>> = HashMap::new();
    let mut todo = vec![(entry, start)];
    seen.insert((entry, start), None);
    let trail = |seen: &HashMap<(E, u32), Option<(E, u32)>>, mut at: (E, u32)| {
        let mut t = vec![at.1];
        while let Some(Some(p)) = seen.get(&at) {
            at = *p;
            t.push(at.1);
        }
        t.reverse();
        format!("{:?}", t)
    };
    while let Some((e, l)) = todo.pop() {
        let here = trail(&seen, (e, l));
        let n = match e {
            E::Bad(m) => return Err(format!("{} after branches took {}", m, here)),
            E::End => return Err(format!("structure ends where the branches reach block {} (path {})", l, here)),
            E::Node(n) => n,
        };
        let (label, nx) = nodes[n];
        if label != l {
            return Err(format!("structure visits block {} where the branches reach block {} (path {})", label, l, here));
        }
        let b = match map.get(&l) {
            Some(b) => b,
            None => return Err(format!("branch to undefined block {} accepted (path {})", l, here)),
        };
        let mut push = |e2: E, l2: u32| {
            if !seen.contains_key(&(e2, l2)) {
                seen.insert((e2, l2), Some((e, l)));
                todo.push((e2, l2));
            }
        };
        match (&b.br, nx) {
            (Br::Ret, Nx::One(E::End)) => {}
            (Br::Ret, _) => return Err(format!("structure goes on after the return in block {} (path {})", l, here)),
            (Br::To(t), Nx::One(e2)) => push(e2, *t),
            (Br::To(_), Nx::Two(..)) => return Err(format!("unconditional branch of block {} shown as a selection", l)),
            (Br::If(_, t, f, _), Nx::Two(a, c)) => {
                push(a, *t);
                push(c, *f);
            }
            (Br::If(_, t, f, _), Nx::One(e2)) => {
                push(e2, *t);
                push(e2, *f);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------- generators

fn hints(s: &mut Src, max: u64) -> u32 {
    if s.chance(90) {
        s.below(max) as u32
    } else {
        0
    }
}
pub fn wts(s: &mut Src) -> W {
    if s.chance(70) {
        Some((s.word(), s.word()))
    } else {
        None
    }
}
pub fn dep(s: &mut Src) -> Option<u32> {
    if s.chance(50) {
        Some(s.word())
    } else {
        None
    }
}

/// Any function of n blocks labelled 1..=n; targets may be undefined.
pub fn any_fun(s: &mut Src, max: usize) -> Fun {
    let n = 1 + s.len(max - 1);
    let miss = s.chance(60);
    // forward bias makes acyclic, structured shapes common
    let fwd = s.chance(150);
    let target = |s: &mut Src, i: usize| -> u32 {
        if miss && s.chance(12) {
            return 90;
        }
        if fwd && s.chance(215) && i + 1 < n {
            (i as u64 + 2 + s.below((n - i - 1).min(3) as u64)) as u32
        } else {
            1 + s.below(n as u64) as u32
        }
    };
    (0..n)
        .map(|i| {
            let br = match s.weighted(&[2, 6, 6]) {
                0 => Br::Ret,
                1 => Br::To(target(s, i)),
                _ => Br::If(900, target(s, i), target(s, i), wts(s)),
            };
            // mostly the annotation that goes with the branch
            let fits = s.chance(225);
            let merge = match (&br, fits) {
                (Br::To(_), true) => {
                    if s.chance(90) {
                        Mg::Loop(target(s, i), target(s, i), hints(s, 8), dep(s))
                    } else {
                        Mg::No
                    }
                }
                (Br::If(..), true) => {
                    if s.chance(170) {
                        Mg::Sel(target(s, i), hints(s, 4))
                    } else {
                        Mg::No
                    }
                }
                (Br::Ret, true) => Mg::No,
                _ => match s.below(3) {
                    0 => Mg::No,
                    1 => Mg::Sel(target(s, i), hints(s, 4)),
                    _ => Mg::Loop(target(s, i), target(s, i), hints(s, 8), dep(s)),
                },
            };
            Blk { label: i as u32 + 1, merge, br }
        })
        .collect()
}

/// Structured programs.
#[derive(Clone, Debug)]
enum St {
    Atom,
    If(Vec<St>, Vec<St>, u32, W),
    Loop(Vec<St>, Tail, u32, Option<u32>),
}
/// How the body of a loop goes on after its statements.
#[derive(Clone, Debug)]
enum Tail {
    Back,
    Break(Vec<St>, Box<Tail>, W),
    Cont(Vec<St>, Box<Tail>, W),
}

fn seq(s: &mut Src, depth: u32, size: &mut i32, max: usize) -> Vec<St> {
    let n = s.len(max);
    let mut v = Vec::new();
    for _ in 0..n {
        if *size <= 0 {
            break;
        }
        *size -= 1;
        v.push(match if depth == 0 { 0 } else { s.weighted(&[3, 4, 3]) } {
            0 => St::Atom,
            1 => {
                let a = seq(s, depth - 1, size, 3);
                let b = if s.chance(128) { seq(s, depth - 1, size, 3) } else { Vec::new() };
                St::If(a, b, hints(s, 4), wts(s))
            }
            _ => {
                let b = seq(s, depth - 1, size, 3);
                let t = tail(s, depth - 1, size);
                St::Loop(b, t, hints(s, 8), dep(s))
            }
        });
    }
    v
}
fn tail(s: &mut Src, depth: u32, size: &mut i32) -> Tail {
    if *size <= 0 {
        return Tail::Back;
    }
    match s.weighted(&[2, 3, 2]) {
        0 => Tail::Back,
        k => {
            *size -= 1;
            let v = seq(s, depth, size, 3);
            let t = Box::new(tail(s, depth, size));
            let w = wts(s);
            if k == 1 {
                Tail::Break(v, t, w)
            } else {
                Tail::Cont(v, t, w)
            }
        }
    }
}

/// Lays a structured program out as blocks and says what must be recovered.
struct Lay {
    blocks: Vec<Blk>,
    next: u32,
    /// put a block of its own where constructs meet, instead of sharing the
    /// enclosing construct's merge block
    own_merge: Vec<bool>,
    k: usize,
    conts: Vec<u32>,
}
impl Lay {
    fn label(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn own(&mut self) -> bool {
        self.k += 1;
        self.own_merge[self.k % self.own_merge.len()]
    }
    fn cont_target(&mut self, head: u32) -> u32 {
        self.k += 1;
        match self.conts[self.k % self.conts.len()] {
            0 => head,
            1 => head.saturating_sub(1).max(1),
            _ => head + 1,
        }
    }
    /// Emit statements continuing at label `to`; returns entry label and chain.
    fn seq(&mut self, v: &[St], to: u32) -> (u32, Vec<Ch>) {
        let mut entry = to;
        let mut rest: Vec<Ch> = Vec::new();
        for st in v.iter().rev() {
            // a construct needs a block to meet in: the next statement's, or
            // an extra one of its own
            if !matches!(st, St::Atom) && self.own() {
                let l = self.label();
                self.blocks.push(Blk { label: l, merge: Mg::No, br: Br::To(entry) });
                rest.insert(0, Ch::Atom(l));
                entry = l;
            }
            match st {
                St::Atom => {
                    let l = self.label();
                    self.blocks.push(Blk { label: l, merge: Mg::No, br: Br::To(entry) });
                    rest.insert(0, Ch::Atom(l));
                    entry = l;
                }
                St::If(a, b, h, w) => {
                    let l = self.label();
                    let (ea, ca) = self.seq(a, entry);
                    let (eb, cb) = self.seq(b, entry);
                    self.blocks.push(Blk { label: l, merge: Mg::Sel(entry, *h), br: Br::If(901, ea, eb, *w) });
                    rest.insert(0, Ch::Sel(l, ca, cb, *h, *w));
                    entry = l;
                }
                St::Loop(b, t, h, d) => {
                    let l = self.label();
                    let (eb, cb) = self.body(b, t, l, entry);
                    let c = self.cont_target(l);
                    self.blocks.push(Blk { label: l, merge: Mg::Loop(entry, c, *h, *d), br: Br::To(eb) });
                    rest.insert(0, Ch::Loop(l, cb, *h, *d, None));
                    entry = l;
                }
            }
        }
        (entry, rest)
    }
    fn body(&mut self, v: &[St], t: &Tail, head: u32, after: u32) -> (u32, Vec<Ch>) {
        let (to, tc) = match t {
            Tail::Back => (head, Vec::new()),
            Tail::Break(r, t2, w) | Tail::Cont(r, t2, w) => {
                let l = self.label();
                let (er, cr) = self.body(r, t2, head, after);
                let brk = matches!(t, Tail::Break(..));
                self.blocks.push(Blk { label: l, merge: Mg::No, br: Br::If(902, er, if brk { after } else { head }, *w) });
                (l, vec![Ch::Sel(l, cr, vec![if brk { Ch::Break } else { Ch::Continue }], 0, *w)])
            }
        };
        let (e, mut c) = self.seq(v, to);
        c.extend(tc);
        (e, c)
    }
}

pub fn structured(s: &mut Src, depth: u32, size: i32) -> (Fun, Vec<Ch>) {
    let mut left = size;
    let prog = seq(s, depth, &mut left, 6);
    let own_merge: Vec<bool> = (0..7).map(|_| s.chance(160)).collect();
    let conts: Vec<u32> = (0..5).map(|_| s.below(3) as u32).collect();
    let mut l = Lay { blocks: Vec::new(), next: 0, own_merge, k: 0, conts };
    let ret = l.label();
    l.blocks.push(Blk { label: ret, merge: Mg::No, br: Br::Ret });
    let (entry, mut c) = l.seq(&prog, ret);
    c.push(Ch::Atom(ret));
    scramble(s, l.blocks, c, entry)
}
/// Entry block first, the others in any order, arbitrary label numbers.
fn scramble(s: &mut Src, mut f: Fun, c: Vec<Ch>, entry: u32) -> (Fun, Vec<Ch>) {
    let p = f.iter().position(|b| b.label == entry).unwrap();
    f.swap(0, p);
    if s.chance(220) {
        for i in (2..f.len()).rev() {
            let j = 1 + s.idx(i);
            f.swap(i, j);
        }
    }
    let style = s.below(4);
    let off = s.word();
    let perm = s.word() | 1;
    let top = f.len() as u32 + 1;
    let m = move |x: u32| -> u32 {
        match style {
            0 => x,
            1 => x.wrapping_add(off),
            2 => top.wrapping_sub(x),
            _ => x.wrapping_mul(perm),
        }
    };
    let f = rename(&f, &m);
    let c = rename_chain(&c, &m);
    let sw = odd_labels(s, &f);
    if sw.is_empty() {
        return (f, c);
    }
    (rename(&f, &|x| swapped(&sw, x)), rename_chain(&c, &|x| swapped(&sw, x)))
}
/// Labels to exchange for particular numbers: any word, or one that is easily
/// taken for another label.
fn odd_labels(s: &mut Src, f: &Fun) -> Vec<(u32, u32)> {
    if !s.chance(70) || f.is_empty() {
        return Vec::new();
    }
    (0..1 + s.below(2))
        .map(|_| {
            let a = f[s.idx(f.len())].label;
            let b = if s.chance(128) {
                s.word()
            } else {
                let x = f[s.idx(f.len())].label;
                s.other_word(x)
            };
            (a, b)
        })
        .collect()
}
fn swapped(sw: &[(u32, u32)], x: u32) -> u32 {
    sw.iter().fold(x, |x, (a, b)| if x == *a { *b } else if x == *b { *a } else { x })
}

fn rename(f: &Fun, m: &dyn Fn(u32) -> u32) -> Fun {
    f.iter()
        .map(|b| Blk {
            label: m(b.label),
            merge: match &b.merge {
                Mg::No => Mg::No,
                Mg::Sel(x, h) => Mg::Sel(m(*x), *h),
                Mg::Loop(x, c, h, d) => Mg::Loop(m(*x), m(*c), *h, *d),
            },
            br: match &b.br {
                Br::Ret => Br::Ret,
                Br::To(t) => Br::To(m(*t)),
                Br::If(c, t, f, w) => Br::If(*c, m(*t), m(*f), *w),
            },
        })
        .collect()
}
fn rename_chain(c: &[Ch], m: &dyn Fn(u32) -> u32) -> Vec<Ch> {
    c.iter()
        .map(|x| match x {
            Ch::Atom(b) => Ch::Atom(m(*b)),
            Ch::Sel(b, l, r, h, w) => Ch::Sel(m(*b), rename_chain(l, m), rename_chain(r, m), *h, *w),
            Ch::Loop(b, i, h, d, w) => Ch::Loop(m(*b), rename_chain(i, m), *h, *d, *w),
            o => o.clone(),
        })
        .collect()
}
fn rename_out(o: &Out, m: &dyn Fn(u32) -> u32) -> Out {
    match o {
        Ok(c) => Ok(rename_chain(c, m)),
        Err(e) => Err(match e {
            Er::Duplicate(b) => Er::Duplicate(m(*b)),
            Er::Unknown(b) => Er::Unknown(m(*b)),
            Er::NoPrediction(b) => Er::NoPrediction(m(*b)),
            Er::BadPrediction(k, b) => Er::BadPrediction(k, m(*b)),
            e => e.clone(),
        }),
    }
}

/// Change a few branches and annotations of a structured function.
pub fn mutate(s: &mut Src, mut f: Fun) -> Fun {
    let labels: Vec<u32> = f.iter().map(|b| b.label).collect();
    for _ in 0..1 + s.len(2) {
        let i = s.idx(f.len());
        let t = if s.chance(6) { 0xABCDEF } else { *s.pick(&labels) };
        match s.below(9) {
            0 => f[i].br = Br::To(t),
            1 => f[i].br = Br::Ret,
            2 => {
                let u = *s.pick(&labels);
                f[i].br = Br::If(903, t, u, wts(s))
            }
            3 => match &mut f[i].br {
                Br::To(x) => *x = t,
                Br::If(_, x, _, _) => *x = t,
                _ => {}
            },
            4 => match &mut f[i].br {
                Br::If(_, _, x, _) => *x = t,
                _ => {}
            },
            5 => match &mut f[i].br {
                Br::If(_, x, y, _) => std::mem::swap(x, y),
                _ => {}
            },
            6 => match &mut f[i].merge {
                Mg::Sel(x, _) | Mg::Loop(x, ..) => *x = t,
                Mg::No => {}
            },
            7 => f[i].merge = Mg::No,
            _ => f[i].merge = if s.chance(128) { Mg::Sel(t, 0) } else { Mg::Loop(t, t, 0, None) },
        }
    }
    f
}

/// Arbitrary label numbers, undefined ones included.
pub fn relabel(s: &mut Src, f: Fun) -> Fun {
    let style = s.below(3);
    let off = s.word();
    let perm = s.word() | 1;
    let f = rename(&f, &|x| match style {
        0 => x,
        1 => x.wrapping_add(off),
        _ => x.wrapping_mul(perm),
    });
    let sw = odd_labels(s, &f);
    rename(&f, &|x| swapped(&sw, x))
}

/// Larger functions: up to some dozen blocks, structured and then damaged.
fn big_fun(s: &mut Src) -> Fun {
    match s.below(3) {
        0 => any_fun(s, 24),
        1 => structured(s, 6, 50).0,
        _ => {
            let (f, _) = structured(s, 6, 50);
            mutate(s, f)
        }
    }
}

/// Functions of every kind, all labels distinct.
pub fn some_fun(s: &mut Src) -> Fun {
    match s.weighted(&[5, 4, 3]) {
        0 => {
            let f = any_fun(s, 10);
            relabel(s, f)
        }
        1 => {
            let (f, _) = structured(s, 3, 14);
            mutate(s, f)
        }
        _ => structured(s, 3, 16).0,
    }
}

// -------------------------------------------------- exhaustive small functions

const TARGETS: [u32; 4] = [1, 2, 3, 9];
/// One block from a number below 189.
fn nth_block(label: u32, i: u64) -> Blk {
    let (b, m) = (i % 21, i / 21);
    let br = match b {
        0 => Br::Ret,
        1..=4 => Br::To(TARGETS[b as usize - 1]),
        _ => Br::If(900, TARGETS[(b as usize - 5) / 4], TARGETS[(b as usize - 5) % 4], None),
    };
    let merge = match m {
        0 => Mg::No,
        1..=4 => Mg::Sel(TARGETS[m as usize - 1], 0),
        _ => Mg::Loop(TARGETS[m as usize - 5], 1, 0, None),
    };
    Blk { label, merge, br }
}
const SMALL: u64 = 189 + 189 * 189 + 189 * 189 * 189;
fn nth_small(i: u64) -> Fun {
    if i < 189 {
        vec![nth_block(1, i)]
    } else if i < 189 + 189 * 189 {
        let i = i - 189;
        vec![nth_block(1, i % 189), nth_block(2, i / 189)]
    } else {
        let i = i - 189 - 189 * 189;
        vec![nth_block(1, i % 189), nth_block(2, i / 189 % 189), nth_block(3, i / 189 / 189)]
    }
}

// ------------------------------------------------------------------- C12

fn check_equiv(f: &Fun, k: u64, o: &mut Obs) -> Res {
    let r = recover(dressed(f, k))?;
    match r {
        Ok(c) => {
            o.class = Some("recovered");
            o.nontrivial = f.len() > 1;
            equivalent(f, &c).map_err(|e| clip(&format!("{}; recovered {:?}", e, c)))
        }
        Err(_) => {
            o.class = Some("refused");
            o.nontrivial = false;
            Ok(())
        }
    }
}
fn c12_small(i: u64, o: &mut Obs) -> Res {
    let f = nth_small(i);
    o.case(true, &i);
    o.describe(|| show_fun(&f));
    check_equiv(&f, if i % 16 == 0 { i } else { 0 }, o)
}
fn c12_any(s: &mut Src, o: &mut Obs) -> Res {
    let f = if s.chance(20) { big_fun(s) } else { some_fun(s) };
    let k = s.below(1 << 32);
    o.case(true, &f);
    o.describe(|| show_fun(&f));
    check_equiv(&f, k, o)
}
fn c12_dense(s: &mut Src, o: &mut Obs) -> Res {
    // four or five blocks, uniformly chosen branches and annotations
    let n = 4 + s.below(2) as u32;
    let t = |s: &mut Src| 1 + s.below(n as u64) as u32;
    let f: Fun = (1..=n)
        .map(|l| {
            let br = match s.below(6) {
                0 => Br::Ret,
                1 | 2 => Br::To(t(s)),
                _ => Br::If(900, t(s), t(s), None),
            };
            let merge = match (&br, s.below(8)) {
                (Br::Ret, _) | (_, 0) | (_, 1) => Mg::No,
                (_, 2) => Mg::Sel(t(s), 0),
                (Br::To(_), 3..=5) => Mg::No,
                (Br::To(_), _) => Mg::Loop(t(s), 1, 0, None),
                (Br::If(..), _) => Mg::Sel(t(s), 0),
            };
            Blk { label: l, merge, br }
        })
        .collect();
    o.case(true, &f);
    o.describe(|| show_fun(&f));
    check_equiv(&f, 0, o)
}

// ------------------------------------------------------------------- C13

pub fn nesting(c: &[Ch]) -> u32 {
    c.iter()
        .map(|x| match x {
            Ch::Sel(_, l, r, _, _) => 1 + nesting(l).max(nesting(r)),
            Ch::Loop(_, i, _, _, _) => 1 + nesting(i),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}
fn check_structured(f: &Fun, want: &[Ch], k: u64) -> Res {
    match recover(dressed(f, k))? {
        Err(e) => Err(clip(&format!("structured function refused with {:?}; expected {:?}", e, want))),
        Ok(c) if c == want => Ok(()),
        Ok(c) => Err(clip(&format!("recovered {:?}, expected {:?}", c, want))),
    }
}
fn c13(s: &mut Src, o: &mut Obs) -> Res {
    let (d, z) = *s.pick(&[(2, 5), (2, 8), (3, 14), (4, 24), (5, 40), (8, 60)]);
    let (f, want) = structured(s, d, z);
    let k = s.below(1 << 32);
    let nest = nesting(&want);
    o.case(nest > 0, &f);
    o.class = Some(match nest {
        0 => "nesting 0",
        1 => "nesting 1",
        2 => "nesting 2",
        3 => "nesting 3",
        _ => "nesting 4+",
    });
    o.describe(|| show_fun(&f));
    check_structured(&f, &want, k)
}
/// A long sequence of small constructs, or deep nesting of one kind or another.
fn big_program(s: &mut Src, size: i32, nest: u64) -> Vec<St> {
    if s.chance(128) {
        let mut parts = Vec::new();
        let mut left = size;
        while left > 0 {
            let mut k = 12;
            parts.extend(seq(s, 3, &mut k, 6));
            left -= 13 - k.max(0);
        }
        parts
    } else {
        let n = 5 + s.below(nest);
        let mut st = vec![St::Atom];
        let kinds = if s.chance(80) { 1 + s.below(4) } else { 0 };
        for _ in 0..n {
            let pre: Vec<St> = if s.chance(60) { vec![St::Atom] } else { vec![] };
            let mut inner = pre;
            inner.extend(st);
            if s.chance(60) {
                inner.push(St::Atom);
            }
            st = match if kinds > 0 { kinds - 1 } else { s.below(5) } {
                0 => vec![St::If(inner, vec![], hints(s, 4), wts(s))],
                1 => vec![St::If(vec![St::Atom], inner, hints(s, 4), wts(s))],
                2 => vec![St::Loop(inner, Tail::Break(vec![], Box::new(Tail::Back), wts(s)), hints(s, 8), dep(s))],
                3 => vec![St::Loop(vec![], Tail::Break(inner, Box::new(Tail::Back), wts(s)), hints(s, 8), dep(s))],
                _ => vec![St::Loop(vec![], Tail::Cont(inner, Box::new(Tail::Back), wts(s)), hints(s, 8), dep(s))],
            };
        }
        st
    }
}
fn big_structured(s: &mut Src) -> (Fun, Vec<Ch>) {
    let (size, nest) = if s.chance(24) { (5000, 400) } else { (500, 60) };
    let size = 100 + s.below(size) as i32;
    let prog = big_program(s, size, nest);
    lay(s, prog)
}
/// A big structured function, as it is or with a few edges changed.
fn deep_fun(s: &mut Src) -> Fun {
    let (size, nest) = if s.chance(24) { (2500, 300) } else { (260, 40) };
    let size = 40 + s.below(size) as i32;
    let prog = big_program(s, size, nest);
    let (f, _) = lay(s, prog);
    if s.chance(150) {
        mutate(s, f)
    } else {
        f
    }
}
fn c12_big(s: &mut Src, o: &mut Obs) -> Res {
    let f = deep_fun(s);
    let k = s.below(1 << 32);
    o.case(true, &f);
    o.describe(|| show_fun(&f));
    check_equiv(&f, k, o)
}
fn c13_big(s: &mut Src, o: &mut Obs) -> Res {
    let (f, want) = big_structured(s);
    o.case(true, &f);
    o.describe(|| format!("{} blocks, nesting {}\n{}", f.len(), nesting(&want), show_fun(&f)));
    check_structured(&f, &want, f.len() as u64)
}
fn c14_big(s: &mut Src, o: &mut Obs) -> Res {
    let f = deep_fun(s);
    let k = s.below(1 << 32);
    o.case(f.len() > 1, &f);
    o.describe(|| show_fun(&f));
    c14_check(&f, k, o)
}
fn c15_big(s: &mut Src, o: &mut Obs) -> Res {
    let f = deep_fun(s);
    c15_with(f, s, o)
}
fn c16_deep(s: &mut Src, o: &mut Obs) -> Res {
    let (size, nest) = if s.chance(30) { (1500, 200) } else { (100, 30) };
    let size = 20 + s.below(size) as i32;
    let prog = big_program(s, size, nest);
    let (f, _) = lay(s, prog);
    c16_with(f, s, o)
}
fn lay(s: &mut Src, prog: Vec<St>) -> (Fun, Vec<Ch>) {
    let own_merge: Vec<bool> = (0..7).map(|_| s.chance(160)).collect();
    let mut l = Lay { blocks: Vec::new(), next: 0, own_merge, k: 0, conts: vec![0, 1, 2] };
    let ret = l.label();
    l.blocks.push(Blk { label: ret, merge: Mg::No, br: Br::Ret });
    let (entry, mut c) = l.seq(&prog, ret);
    c.push(Ch::Atom(ret));
    scramble(s, l.blocks, c, entry)
}

/// Every structured program of up to a size, by enumeration of shapes.
fn c13_shapes_n(t: bool) -> u64 {
    if t {
        3_000_000
    } else {
        60_000
    }
}
fn c13_shapes(i: u64, o: &mut Obs) -> Res {
    // read the index as digits choosing a shape: small indices give small
    // programs, each index one program
    let mut n = i;
    let mut digit = |k: u64| {
        let d = n % k;
        n /= k;
        d
    };
    fn st(d: &mut dyn FnMut(u64) -> u64, depth: u32) -> Vec<St> {
        let k = d(3);
        (0..k)
            .map(|_| match if depth == 0 { 0 } else { d(4) } {
                0 => St::Atom,
                1 => {
                    let a = st(d, depth - 1);
                    let b = st(d, depth - 1);
                    St::If(a, b, 0, None)
                }
                2 => {
                    let a = st(d, depth - 1);
                    St::Loop(a, Tail::Back, 0, None)
                }
                _ => {
                    let a = st(d, depth - 1);
                    let b = st(d, depth - 1);
                    let t = Box::new(Tail::Back);
                    let t = if d(2) == 0 { Tail::Break(b, t, None) } else { Tail::Cont(b, t, None) };
                    St::Loop(a, t, 0, None)
                }
            })
            .collect()
    }
    let own = digit(2) == 0;
    let prog = st(&mut digit, 3);
    let mut l = Lay { blocks: Vec::new(), next: 0, own_merge: vec![own], k: 0, conts: vec![0] };
    let ret = l.label();
    l.blocks.push(Blk { label: ret, merge: Mg::No, br: Br::Ret });
    let (_, mut c) = l.seq(&prog, ret);
    c.push(Ch::Atom(ret));
    let mut f = l.blocks;
    f.reverse();
    let p = f.iter().position(|b| b.label == entry_of(&c)).unwrap();
    f.swap(0, p);
    o.case(nesting(&c) > 0, &f);
    o.describe(|| show_fun(&f));
    check_structured(&f, &c, if i % 8 == 0 { i } else { 0 })
}
fn entry_of(c: &[Ch]) -> u32 {
    match &c[0] {
        Ch::Atom(b) | Ch::Sel(b, ..) | Ch::Loop(b, ..) => *b,
        _ => 0,
    }
}

// ------------------------------------------------------------------- C14

fn on_cycle(f: &Fun, id: u32) -> bool {
    let succ = |l: u32| -> Vec<u32> {
        match f.iter().find(|b| b.label == l).map(|b| &b.br) {
            Some(Br::To(t)) => vec![*t],
            Some(Br::If(_, t, e, _)) => vec![*t, *e],
            _ => vec![],
        }
    };
    // merge annotations are followed too: recovery goes on at the merge block
    let mut seen = HashSet::new();
    let mut todo = succ(id);
    while let Some(x) = todo.pop() {
        if x == id {
            return true;
        }
        if seen.insert(x) {
            todo.extend(succ(x));
            match f.iter().find(|b| b.label == x).map(|b| &b.merge) {
                Some(Mg::Sel(m, _)) | Some(Mg::Loop(m, ..)) => todo.push(*m),
                _ => {}
            }
        }
    }
    // from id itself
    if let Some(b) = f.iter().find(|b| b.label == id) {
        if let Mg::Sel(m, _) | Mg::Loop(m, ..) = &b.merge {
            if *m == id {
                return true;
            }
            let mut todo = vec![*m];
            let mut seen = HashSet::new();
            while let Some(x) = todo.pop() {
                if x == id {
                    return true;
                }
                if seen.insert(x) {
                    todo.extend(succ(x));
                    match f.iter().find(|b| b.label == x).map(|b| &b.merge) {
                        Some(Mg::Sel(m, _)) | Some(Mg::Loop(m, ..)) => todo.push(*m),
                        _ => {}
                    }
                }
            }
        }
    }
    false
}

pub fn justified(f: &Fun, r: &Out) -> Res {
    let mut count: HashMap<u32, usize> = HashMap::new();
    for b in f {
        *count.entry(b.label).or_insert(0) += 1;
    }
    let dup = count.values().any(|n| *n > 1);
    let by = |l: u32| f.iter().find(|b| b.label == l);
    if dup != matches!(r, Err(Er::Duplicate(_))) {
        return Err(format!("labels {}unique, outcome {}", if dup { "not " } else { "" }, clip(&format!("{:?}", r))));
    }
    if f.is_empty() != matches!(r, Err(Er::NoBlocks)) {
        return Err(format!("{} blocks, outcome {}", f.len(), clip(&format!("{:?}", r))));
    }
    match r {
        Err(Er::Duplicate(x)) if count.get(x).copied().unwrap_or(0) < 2 => Err(format!("label {} reported as duplicate", x)),
        Err(Er::Unknown(x)) => {
            if by(*x).is_some() {
                return Err(format!("label {} is defined but reported as unknown", x));
            }
            let used = f.iter().any(|b| {
                let m = match &b.merge {
                    Mg::No => false,
                    Mg::Sel(m, _) => m == x,
                    Mg::Loop(m, c, _, _) => m == x || c == x,
                };
                let t = match &b.br {
                    Br::Ret => false,
                    Br::To(t) => t == x,
                    Br::If(_, t, f, _) => t == x || f == x,
                };
                m || t
            });
            if used {
                Ok(())
            } else {
                Err(format!("label {} reported as unknown but nothing refers to it", x))
            }
        }
        Err(Er::NoPrediction(x)) => match by(*x) {
            None => Err(format!("convergence error names block {}, which does not exist", x)),
            Some(b) => {
                let ok = match (&b.br, &b.merge) {
                    (Br::If(..), Mg::No) => true,
                    (Br::If(..), Mg::Loop(..)) => true,
                    (Br::To(_), Mg::Sel(..)) => true,
                    (Br::Ret, Mg::Sel(..)) | (Br::Ret, Mg::Loop(..)) => true,
                    _ => on_cycle(f, *x),
                };
                if ok {
                    Ok(())
                } else {
                    Err(format!("convergence error blames block {}, which starts no unpredictable construct", x))
                }
            }
        },
        Err(Er::BadPrediction(kind, x)) => match by(*x) {
            None => Err(format!("convergence error names block {}, which does not exist", x)),
            Some(b) => {
                let ok = match (*kind, &b.br, &b.merge) {
                    ("selection", Br::If(..), Mg::Sel(..)) => true,
                    ("loop", _, Mg::Loop(..)) => true,
                    ("loop", Br::If(..), Mg::No) => true,
                    _ => false,
                };
                if ok {
                    Ok(())
                } else {
                    Err(format!("{} convergence error blames block {}, which starts none", kind, x))
                }
            }
        },
        Err(Er::Other) => Err("unknown kind of error".into()),
        Ok(_) => match dangling(f) {
            Some(x) => Err(format!("execution reaches label {}, which no block has, but a structure was returned", x)),
            None => Ok(()),
        },
        _ => Ok(()),
    }
}
/// A label without a block that execution from the first block can reach.
fn dangling(f: &Fun) -> Option<u32> {
    let by: HashMap<u32, &Blk> = f.iter().map(|b| (b.label, b)).collect();
    let mut seen = HashSet::new();
    let mut todo = vec![f.first()?.label];
    while let Some(x) = todo.pop() {
        if !seen.insert(x) {
            continue;
        }
        match by.get(&x) {
            None => return Some(x),
            Some(b) => match &b.br {
                Br::Ret => {}
                Br::To(t) => todo.push(*t),
                Br::If(_, t, e, _) => todo.extend([*t, *e]),
            },
        }
    }
    None
}
fn out_class(r: &Out) -> &'static str {
    match r {
        Ok(_) => "recovered",
        Err(Er::Duplicate(_)) => "duplicate label",
        Err(Er::NoBlocks) => "no blocks",
        Err(Er::Unknown(_)) => "unknown label",
        Err(Er::NoPrediction(_)) => "no prediction",
        Err(Er::BadPrediction(..)) => "bad prediction",
        Err(_) => "other error",
    }
}
fn c14_check(f: &Fun, k: u64, o: &mut Obs) -> Res {
    let r = recover(dressed(f, k))?;
    o.class = Some(out_class(&r));
    justified(f, &r)
}
fn c14_small(i: u64, o: &mut Obs) -> Res {
    let f = nth_small(i);
    o.case(f.len() > 1, &i);
    o.describe(|| show_fun(&f));
    c14_check(&f, if i % 16 == 0 { i } else { 0 }, o)
}
fn c14_any(s: &mut Src, o: &mut Obs) -> Res {
    let mut f = if s.chance(20) { big_fun(s) } else { some_fun(s) };
    let k = s.below(1 << 32);
    match s.weighted(&[12, 3, 1]) {
        1 => {
            // collide labels
            let i = s.idx(f.len());
            let j = s.idx(f.len());
            f[i].label = f[j].label;
        }
        2 => f.clear(),
        _ => {}
    }
    o.case(f.len() > 1, &f);
    o.describe(|| show_fun(&f));
    c14_check(&f, k, o)
}
/// Larger functions: long chains, rings and ladders of every kind.
fn c14_large(s: &mut Src, o: &mut Obs) -> Res {
    let n = 50 + s.below(1200) as u32;
    let kind = s.below(5);
    let back = 1 + s.below(n as u64) as u32;
    let f: Fun = (1..=n)
        .map(|l| {
            let nx = if l == n { None } else { Some(l + 1) };
            let (merge, br) = match (kind, nx) {
                (0, Some(t)) => (Mg::No, Br::To(t)),
                (1, Some(t)) => (Mg::No, Br::To(t)),
                (1, None) => (Mg::No, Br::To(back)),
                (2, Some(t)) => (Mg::Sel(t, 0), Br::If(900, t, t, None)),
                (3, Some(t)) if l % 2 == 1 => (Mg::Loop(t, t, 0, None), Br::To(t)),
                (3, Some(t)) => (Mg::No, Br::To(t)),
                (4, Some(t)) => (Mg::No, Br::If(900, t, t, None)),
                _ => (Mg::No, Br::Ret),
            };
            Blk { label: l, merge, br }
        })
        .collect();
    o.case(true, &(kind, n, back));
    o.describe(|| format!("{} blocks, shape {}", n, ["chain", "ring", "selection chain", "loop heads", "bare conditionals"][kind as usize]));
    c14_check(&f, 0, o)
}

// ------------------------------------------------------------------- C15

fn some_code(s: &mut Src, n: usize) -> Vec<GroupCode> {
    let mut imports = Vec::new();
    let v: Vec<MInst> = (0..n).map(|_| logic::of_class(s, logic::Cl::Code, &mut imports)).collect();
    match logic::cores(&v) {
        Some(m) => m.instructions.iter().filter_map(conv::code_of).collect(),
        None => Vec::new(),
    }
}

fn reachable(f: &Fun) -> HashSet<u32> {
    let mut seen = HashSet::new();
    let mut todo: Vec<u32> = f.first().map(|b| b.label).into_iter().collect();
    while let Some(x) = todo.pop() {
        if seen.insert(x) {
            for b in f.iter().filter(|b| b.label == x) {
                match &b.br {
                    Br::Ret => {}
                    Br::To(t) => todo.push(*t),
                    Br::If(_, t, e, _) => {
                        todo.push(*t);
                        todo.push(*e);
                    }
                }
                match &b.merge {
                    Mg::No => {}
                    Mg::Sel(m, _) => todo.push(*m),
                    Mg::Loop(m, c, _, _) => {
                        todo.push(*m);
                        todo.push(*c);
                    }
                }
            }
        }
    }
    seen
}

fn c15(s: &mut Src, o: &mut Obs) -> Res {
    let f = if s.chance(16) { big_fun(s) } else { some_fun(s) };
    c15_with(f, s, o)
}
fn c15_with(f: Fun, s: &mut Src, o: &mut Obs) -> Res {
    let base = recover(plain(&f))?;
    o.class = Some(out_class(&base));
    let differ = |what: &str, a: &Out, b: &Out| Err(clip(&format!("{}: outcome {:?} instead of {:?}", what, b, a)));
    // again
    let r = recover(plain(&f))?;
    if r != base {
        return differ("same function recovered twice", &base, &r);
    }
    // other order
    let mut g = f.clone();
    for i in (2..g.len()).rev() {
        let j = 1 + s.idx(i);
        g.swap(i, j);
    }
    let r = recover(plain(&g))?;
    if r != base {
        return differ("blocks after the first reordered", &base, &r);
    }
    // other code, condition ids, signature
    let mut g = f.clone();
    for b in &mut g {
        if let Br::If(c, ..) = &mut b.br {
            *c = s.word();
        }
    }
    let pool = some_code(s, 4);
    let cuts: Vec<usize> = (0..g.len()).map(|_| s.idx(pool.len() + 1)).collect();
    let sig = s.word();
    let r = recover(build(&g, &|i| pool[..cuts[i]].to_vec(), sig))?;
    if r != base {
        return differ("code, conditions or signature changed", &base, &r);
    }
    // unreachable blocks
    let mut g = f.clone();
    let reach = reachable(&f);
    let mut used: HashSet<u32> = f.iter().map(|b| b.label).collect();
    let labels: Vec<u32> = used.iter().copied().collect();
    for _ in 0..1 + s.len(3) {
        let mut l = s.word();
        while used.contains(&l) || reach.contains(&l) {
            l = l.wrapping_add(1);
        }
        used.insert(l);
        let mut sorted = labels.clone();
        sorted.sort();
        sorted.push(l);
        let t = *s.pick(&sorted);
        let u = *s.pick(&sorted);
        let br = match s.below(3) {
            0 => Br::Ret,
            1 => Br::To(t),
            _ => Br::If(7, t, u, None),
        };
        let merge = match s.below(3) {
            0 => Mg::No,
            1 => Mg::Sel(u, 0),
            _ => Mg::Loop(u, t, 0, None),
        };
        let at = 1 + s.idx(g.len());
        g.insert(at, Blk { label: l, merge, br });
    }
    let r = recover(plain(&g))?;
    if r != base {
        return differ("unreachable blocks added", &base, &r);
    }
    // new labels (any bijection)
    let all: Vec<u32> = {
        let mut v: Vec<u32> = reach.iter().copied().chain(f.iter().map(|b| b.label)).collect::<HashSet<_>>().into_iter().collect();
        for b in &f {
            if let Br::If(_, t, e, _) = &b.br {
                v.extend([*t, *e]);
            }
            if let Br::To(t) = &b.br {
                v.push(*t);
            }
            match &b.merge {
                Mg::Sel(m, _) => v.push(*m),
                Mg::Loop(m, c, _, _) => v.extend([*m, *c]),
                Mg::No => {}
            }
        }
        v.sort();
        v.dedup();
        v
    };
    let mut map: HashMap<u32, u32> = HashMap::new();
    let mut taken = HashSet::new();
    for l in &all {
        let mut x = if s.chance(200) { s.word() } else { *s.pick(&all) };
        while !taken.insert(x) {
            x = x.wrapping_add(1);
        }
        map.insert(*l, x);
    }
    let m = |x: u32| map.get(&x).copied().unwrap_or(x);
    let g = rename(&f, &m);
    let r = recover(plain(&g))?;
    let want = rename_out(&base, &m);
    o.case(f.len() > 1, &f);
    o.describe(|| show_fun(&f));
    o.inner += 5;
    if r != want {
        return differ("labels renamed", &want, &r);
    }
    Ok(())
}

// ------------------------------------------------------------------- C16

fn pad(out: &mut String, n: usize) {
    for _ in 0..n {
        out.push_str("    ");
    }
}
fn sel_text(h: u32) -> String {
    mask_text(mask_index("SelectionControl"), h, &[])
}
fn loop_text(h: u32, d: Option<u32>) -> String {
    let (bits, p) = match d {
        Some(x) => (h | 8, vec![x]),
        None => (h, vec![]),
    };
    mask_text(mask_index("LoopControl"), bits, &p)
}
fn notes(out: &mut String, hint: Option<String>, w: &W) {
    if let Some(h) = hint {
        out.push_str(&format!(" [{}]", h));
    }
    if let Some((a, b)) = w {
        out.push_str(&format!(" [{} {}]", a, b));
    }
}
pub fn ref_chain(c: &[Ch], n: usize, out: &mut String) {
    for x in c {
        match x {
            Ch::Atom(b) => {
                pad(out, n);
                out.push_str(&format!("%{}\n", b));
            }
            Ch::Sel(b, l, r, h, w) => {
                pad(out, n);
                out.push_str(&format!("selection %{}", b));
                notes(out, if *h != 0 { Some(sel_text(*h)) } else { None }, w);
                out.push_str(" {\n");
                ref_chain(l, n + 1, out);
                if !r.is_empty() {
                    pad(out, n);
                    out.push_str("} else {\n");
                    ref_chain(r, n + 1, out);
                }
                pad(out, n);
                out.push_str("}\n");
            }
            Ch::Loop(b, i, h, d, w) => {
                pad(out, n);
                out.push_str(&format!("loop %{}", b));
                notes(out, if *h != 0 || d.is_some() { Some(loop_text(*h, *d)) } else { None }, w);
                out.push_str(" {\n");
                ref_chain(i, n + 1, out);
                pad(out, n);
                out.push_str("}\n");
            }
            Ch::Break => {
                pad(out, n);
                out.push_str("break;\n");
            }
            Ch::Continue => {
                pad(out, n);
                out.push_str("continue;\n");
            }
            Ch::Unknown => out.push_str("?"),
        }
    }
}
/// text of the lines of each block, as in the disassembly
pub type Lines = HashMap<u32, Vec<String>>;
fn ref_block(b: u32, n: usize, lines: &Lines, out: &mut String) {
    pad(out, n);
    out.push_str(&format!("> Begin {}\n", b));
    for l in &lines[&b] {
        pad(out, n);
        out.push_str(&format!(">>> {}\n", l));
    }
    pad(out, n);
    out.push_str(&format!("> End {}\n", b));
}
pub fn ref_function(c: &[Ch], n: usize, lines: &Lines, out: &mut String) {
    for x in c {
        match x {
            Ch::Atom(b) => ref_block(*b, n, lines, out),
            Ch::Sel(b, l, r, h, w) => {
                ref_block(*b, n, lines, out);
                notes(out, if *h != 0 { Some(sel_text(*h)) } else { None }, w);
                pad(out, n);
                out.push_str("{\n");
                ref_function(l, n + 1, lines, out);
                if !r.is_empty() {
                    pad(out, n);
                    out.push_str("} else {\n");
                    ref_function(r, n + 1, lines, out);
                }
                pad(out, n);
                out.push_str("}\n");
            }
            Ch::Loop(b, i, h, d, w) => {
                ref_block(*b, n, lines, out);
                notes(out, if *h != 0 || d.is_some() { Some(loop_text(*h, *d)) } else { None }, w);
                pad(out, n);
                out.push_str("{\n");
                ref_function(i, n + 1, lines, out);
                pad(out, n);
                out.push_str("}\n");
            }
            Ch::Break => {
                pad(out, n);
                out.push_str("break;\n");
            }
            Ch::Continue => {
                pad(out, n);
                out.push_str("continue;\n");
            }
            Ch::Unknown => out.push_str("?"),
        }
    }
}
pub fn first_diff(want: &str, got: &str) -> String {
    let w: Vec<&str> = want.lines().collect();
    let g: Vec<&str> = got.lines().collect();
    for i in 0..w.len().max(g.len()) {
        if w.get(i) != g.get(i) {
            return format!("line {}: expected {:?}, got {:?}", i + 1, w.get(i), g.get(i));
        }
    }
    "line endings differ".into()
}

fn c16_check(d: &FunctionDefinition, c: &ControlFlowChain) -> Res {
    let ch = chain(c);
    let mut want = String::new();
    ref_chain(&ch, 0, &mut want);
    let got = sut(|| format!("{}", c))?;
    if got != want {
        return Err(clip(&format!("structure text: {}", first_diff(&want, &got))));
    }
    let mut lines = Lines::new();
    for b in &d.blocks {
        let mut v = Vec::new();
        for x in &b.code {
            let core = conv::code_core(x).ok_or("instruction group the harness does not know")?;
            v.push(sut(|| format!("{}", core))?);
        }
        let core = conv::branch_core(&b.branch).ok_or("branch the harness does not know")?;
        v.push(sut(|| format!("{}", core))?);
        lines.insert(b.label.result_id.0, v);
    }
    let mut want = String::new();
    ref_function(&ch, 0, &lines, &mut want);
    let got = sut(|| format!("{}", ControlFlowFunctionPrinter(d, c)))?;
    if got != want {
        return Err(clip(&format!("function listing: {}", first_diff(&want, &got))));
    }
    Ok(())
}

pub fn with_code(s: &mut Src, f: &Fun) -> FunctionDefinition {
    let n = if s.chance(30) { 5 + s.idx(36) } else { 5 };
    let pool = some_code(s, n);
    let cuts: Vec<(usize, usize)> = (0..f.len())
        .map(|_| {
            let a = s.idx(pool.len() + 1);
            let b = s.idx(pool.len() + 1);
            (a.min(b), a.max(b))
        })
        .collect();
    build(f, &|i| pool[cuts[i].0..cuts[i].1].to_vec(), 1)
}

fn c16_recovered(s: &mut Src, o: &mut Obs) -> Res {
    let f = match s.below(4) {
        0 => some_fun(s),
        1 => structured(s, 2, 8).0,
        2 => structured(s, 3, 16).0,
        _ => structured(s, 5, 30).0,
    };
    c16_with(f, s, o)
}
fn c16_with(f: Fun, s: &mut Src, o: &mut Obs) -> Res {
    let d = with_code(s, &f);
    o.describe(|| show_fun(&f));
    let dd = d.clone();
    match sut(move || find_control_flow(dd))? {
        Err(_) => {
            o.case(false, &0);
            Ok(())
        }
        Ok(c) => {
            let ch = chain(&c);
            o.case(nesting(&ch) > 0, &ch);
            c16_check(&d, &c)
        }
    }
}

/// BlockId of label n, obtained through the public interface.
pub fn block_id(n: u32) -> Option<BlockId> {
    let f = vec![Blk { label: n, merge: Mg::No, br: Br::Ret }];
    match sut(|| find_control_flow(plain(&f))) {
        Ok(Ok(ControlFlowChain::Atom(b))) => Some(b),
        _ => None,
    }
}

pub fn built(s: &mut Src, depth: u32, ids: &[BlockId]) -> ControlFlowChain {
    match if depth == 0 { s.weighted(&[6, 1, 1]) } else { s.weighted(&[4, 1, 1, 4, 4, 4]) } {
        0 => ControlFlowChain::Atom(*s.pick(ids)),
        1 => ControlFlowChain::Break,
        2 => ControlFlowChain::Continue,
        3 => built_block(s, depth, ids),
        4 => {
            let l = if s.chance(40) { ControlFlowChain::Block(vec![]) } else { built(s, depth - 1, ids) };
            let r = if s.chance(100) { ControlFlowChain::Block(vec![]) } else { built(s, depth - 1, ids) };
            ControlFlowChain::Selection(*s.pick(ids), Box::new(l), Box::new(r), sel_control(hints(s, 4)), weights(&wts(s)))
        }
        _ => {
            let i = if s.chance(40) { ControlFlowChain::Block(vec![]) } else { built(s, depth - 1, ids) };
            ControlFlowChain::Loop(*s.pick(ids), Box::new(i), loop_control(hints(s, 8), dep(s)), weights(&wts(s)))
        }
    }
}
fn built_block(s: &mut Src, depth: u32, ids: &[BlockId]) -> ControlFlowChain {
    let n = 1 + if depth < 3 { s.few(4) } else { s.len(4) };
    ControlFlowChain::Block(
        (0..n)
            .map(|_| {
                let mut x = built(s, depth - 1, ids);
                // no empty sequence hidden inside a sequence
                if let ControlFlowChain::Block(_) = x {
                    x = ControlFlowChain::Atom(ids[0]);
                }
                x
            })
            .collect(),
    )
}

fn c16_built(s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.below(6) as u32;
    let base = if s.chance(128) { 1 } else { s.word() };
    let f: Fun = (0..n)
        .map(|i| Blk {
            label: base.wrapping_add(i * 7),
            merge: Mg::No,
            br: match s.below(3) {
                0 => Br::Ret,
                1 => Br::To(s.word()),
                _ => Br::If(s.word(), s.word(), s.word(), wts(s)),
            },
        })
        .collect();
    let mut ids = Vec::new();
    for b in &f {
        match block_id(b.label) {
            Some(b) => ids.push(b),
            None => {
                o.case(false, &0);
                return Ok(());
            }
        }
    }
    let depth = 1 + s.below(4) as u32;
    let c = built(s, depth, &ids);
    let d = with_code(s, &f);
    let ch = chain(&c);
    o.case(nesting(&ch) > 0, &ch);
    o.describe(|| clip(&format!("{:?}", ch)));
    c16_check(&d, &c)
}

/// Every code operation as the body of a block.
fn c16_ops_n(t: bool) -> u64 {
    spec().ops.len() as u64 * if t { 20_000 } else { 1500 }
}
fn c16_ops(i: u64, o: &mut Obs) -> Res {
    let mut s = Src::random(mix(0x16, i));
    let op = &spec().ops[(i % spec().ops.len() as u64) as usize];
    let v = match op.opcode {
        11 => vec![],
        12 => vec![
            MInst::new(11, vec![MOp::Res(3), MOp::Str("GLSL.std.450".into())]),
            MInst::new(12, vec![MOp::Id(1), MOp::Res(2), MOp::Id(3), MOp::Ext(14, vec![s.word()], String::new())]),
        ],
        _ => vec![gen::inst_of(&mut s, op)],
    };
    let code: Vec<GroupCode> = logic::cores(&v).map(|m| m.instructions.iter().filter_map(conv::code_of).collect()).unwrap_or_default();
    o.case(!code.is_empty(), &v);
    o.describe(|| gen::show(&v));
    if code.is_empty() {
        return Ok(());
    }
    let f = vec![Blk { label: 5, merge: Mg::No, br: Br::Ret }];
    let d = build(&f, &|_| code.clone(), 1);
    let dd = d.clone();
    match sut(move || find_control_flow(dd))? {
        Ok(c) => c16_check(&d, &c),
        Err(_) => Ok(()),
    }
}

// -------------------------------------------------------------- K1 probe

/// A chain of n blocks: whether recovery survives on an 8 MB stack.
pub fn long_chain(n: u32) -> Fun {
    (1..=n).map(|l| Blk { label: l, merge: Mg::No, br: if l == n { Br::Ret } else { Br::To(l + 1) } }).collect()
}
pub fn probe_chain(n: u32) -> Res {
    let f = long_chain(n);
    match recover(plain(&f))? {
        Ok(c) if c.len() == n as usize => Ok(()),
        Ok(_) => Err("wrong structure".into()),
        Err(e) => Err(format!("refused with {:?}", e)),
    }
}

/// n selection headers, each with both branches to the next and all with the
/// same merge block: recovery copies the rest once per side (2^n blocks).
pub fn ladder(n: u32) -> Fun {
    let m = n + 1;
    let mut f: Fun = (1..=n).map(|l| Blk { label: l, merge: Mg::Sel(m, 0), br: Br::If(900, l + 1, l + 1, None) }).collect();
    f.push(Blk { label: m, merge: Mg::No, br: Br::Ret });
    f
}
pub fn probe_ladder(n: u32) -> Res {
    recover(plain(&ladder(n))).map(|_| ())
}

pub fn arms(id: &str) -> Option<Vec<Arm>> {
    Some(match id {
        "C12" => vec![
            exh("all-up-to-3-blocks", |_| SMALL, c12_small),
            rand("functions", 250_000, 8_000_000, c12_any),
            rand("dense", 400_000, 40_000_000, c12_dense),
            rand("big", 1500, 60_000, c12_big),
        ],
        "C13" => vec![rand("programs", 200_000, 6_000_000, c13), exh("shapes", c13_shapes_n, c13_shapes), rand("big", 1500, 40_000, c13_big)],
        "C14" => vec![
            exh("all-up-to-3-blocks", |_| SMALL, c14_small),
            rand("functions", 250_000, 8_000_000, c14_any),
            rand("large", 300, 4000, c14_large),
            rand("big", 2000, 80_000, c14_big),
        ],
        "C15" => vec![rand("twins", 120_000, 4_000_000, c15), rand("big", 600, 20_000, c15_big)],
        "C16" => vec![rand("recovered", 60_000, 2_000_000, c16_recovered), rand("built", 60_000, 2_000_000, c16_built), exh("each-op", c16_ops_n, c16_ops), rand("deep", 600, 20_000, c16_deep)],
        _ => return None,
    })
}
