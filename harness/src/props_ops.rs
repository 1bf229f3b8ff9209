//! C18: the operand readers offered to custom instruction sets.  A probe set
//! reads a scripted sequence of typed operands and logs every step.

use crate::conv;
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::props_read::clip;
use crate::refdec::decode_kinds;
use crate::spec::*;
use magmaflow::spv::raw::{read_module, MemoryBlock, MemoryBlockRead, MemoryBlockResult};
use magmaflow::spv::types::*;
use magmaflow::spv::{ExtInst, ExtInstSet, Op};
use std::any::Any;
use std::cell::RefCell;
use std::fmt;

type Rd = for<'a> fn(MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<MOp>>;

pub struct Ty {
    pub name: &'static str,
    pub kinds: Vec<K>,
    /// one value, a list to the end, an optional value
    modes: [Option<Rd>; 3],
}

macro_rules! ty {
    ($v:ident, $t:ty, $kinds:expr, $put:expr) => {{
        fn put(x: &$t, out: &mut Vec<MOp>) {
            let f: fn(&$t, &mut Vec<MOp>) = $put;
            f(x, out)
        }
        fn one<'a>(b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<MOp>> {
            let (b, x) = <$t as MemoryBlockRead>::read(b)?;
            let mut o = Vec::new();
            put(&x, &mut o);
            Ok((b, o))
        }
        fn many<'a>(b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<MOp>> {
            let (b, x) = <Vec<$t> as MemoryBlockRead>::read(b)?;
            let mut o = vec![MOp::Lit(x.len() as u32)];
            for i in &x {
                put(i, &mut o);
            }
            Ok((b, o))
        }
        fn opt<'a>(b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<MOp>> {
            let (b, x) = <Option<$t> as MemoryBlockRead>::read(b)?;
            let mut o = vec![MOp::Lit(x.is_some() as u32)];
            if let Some(i) = &x {
                put(i, &mut o);
            }
            Ok((b, o))
        }
        $v.push(Ty { name: stringify!($t), kinds: parse_kinds($kinds), modes: [Some(one), Some(many), Some(opt)] });
    }};
}
macro_rules! en {
    ($v:ident, $t:ident, $f:ident) => {
        ty!($v, $t, concat!("e:", stringify!($t)), |x, o| o.push(MOp::En(enum_index(stringify!($t)), conv::$f(x))))
    };
}

fn word_direct<'a>(b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<MOp>> {
    let (b, w) = b.read_word()?;
    Ok((b, vec![MOp::Lit(w)]))
}
fn id_direct<'a>(b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Vec<MOp>> {
    let (b, w) = b.read_op_id()?;
    Ok((b, vec![MOp::Id(w.0)]))
}

pub fn types() -> &'static [Ty] {
    static S: std::sync::OnceLock<Vec<Ty>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<Ty> = Vec::new();
        v.push(Ty { name: "read_word", kinds: parse_kinds("l"), modes: [Some(word_direct), None, None] });
        v.push(Ty { name: "read_op_id", kinds: parse_kinds("i"), modes: [Some(id_direct), None, None] });
        ty!(v, u32, "l", |x, o| o.push(MOp::Lit(*x)));
        ty!(v, OpId, "i", |x, o| o.push(MOp::Id(x.0)));
        ty!(v, ResultId, "R", |x, o| o.push(MOp::Res(x.0)));
        ty!(v, LitString, "s", |x, o| o.push(MOp::Str(x.to_string())));
        ty!(v, SourceVersion, "l", |x, o| o.push(MOp::Lit(x.0)));
        ty!(v, MemberIndex, "l", |x, o| o.push(MOp::Lit(x.0)));
        ty!(v, SourceLanguage, "e:SourceLanguage", |x, o| o.push(conv::source_language(x)));
        en!(v, AddressingModel, addressingmodel_v);
        en!(v, MemoryModel, memorymodel_v);
        en!(v, ExecutionModel, executionmodel_v);
        ty!(v, ExecutionMode, "e:ExecutionMode", |x, o| conv::execution_mode(x, o));
        en!(v, Capability, capability_v);
        en!(v, Signedness, signedness_v);
        en!(v, Dim, dim_v);
        en!(v, DepthStatus, depthstatus_v);
        en!(v, Arrayed, arrayed_v);
        en!(v, MS, ms_v);
        en!(v, SampledStatus, sampledstatus_v);
        en!(v, ImageFormat, imageformat_v);
        en!(v, AccessQualifier, accessqualifier_v);
        en!(v, StorageClass, storageclass_v);
        en!(v, BuiltIn, builtin_v);
        en!(v, FunctionParameterAttribute, functionparameterattribute_v);
        en!(v, FpRoundingMode, fproundingmode_v);
        en!(v, LinkageType, linkagetype_v);
        ty!(v, Decoration, "e:Decoration", |x, o| conv::decoration(x, o));
        ty!(v, FunctionControl, "m:FunctionControl", |x, o| o.push(conv::function_control(x)));
        ty!(v, MemoryAccess, "m:MemoryAccess", |x, o| o.push(conv::memory_access(x)));
        ty!(v, FpFastMathMode, "m:FpFastMathMode", |x, o| o.push(conv::fast_math(x)));
        ty!(v, LoopControl, "m:LoopControl", |x, o| o.push(conv::loop_control(x)));
        ty!(v, SelectionControl, "m:SelectionControl", |x, o| o.push(conv::selection_control(x)));
        ty!(v, BranchWeights, "l l", |x, o| o.extend([MOp::Lit(x.true_weight), MOp::Lit(x.false_weight)]));
        ty!(v, PhiArg, "i i", |x, o| o.extend([MOp::Id(x.variable.0), MOp::Id(x.parent.0)]));
        v
    })
}

#[derive(Clone, Debug, PartialEq)]
struct Step {
    values: Vec<MOp>,
    remaining: usize,
    end: bool,
}

thread_local! {
    static SCRIPT: RefCell<Vec<(usize, usize)>> = RefCell::new(Vec::new());
    static LOG: RefCell<Vec<Step>> = RefCell::new(Vec::new());
}

#[derive(Clone, Debug)]
struct ProbeInst;
impl fmt::Display for ProbeInst {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Probe")
    }
}
impl Op for ProbeInst {
    fn get_name(&self) -> &'static str {
        "Probe"
    }
}
impl ExtInst for ProbeInst {
    fn get_op(&self) -> &dyn Op {
        self
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn eq(&self, _: &dyn ExtInst) -> bool {
        false
    }
}
struct ProbeSet;
impl ExtInstSet for ProbeSet {
    fn get_name(&self) -> &'static str {
        "Probe"
    }
    fn read_instruction<'a, 'b>(&'b self, _n: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let script = SCRIPT.with(|s| s.borrow().clone());
        let note = |b: &MemoryBlock, values: Vec<MOp>| LOG.with(|l| l.borrow_mut().push(Step { values, remaining: b.remaining(), end: b.end() }));
        let mut block = block;
        note(&block, Vec::new());
        for (t, m) in script {
            let (b, v) = (types()[t].modes[m].unwrap())(block)?;
            note(&b, v);
            block = b;
        }
        // position: what comes next is exactly the words that are left
        let mut rest = Vec::new();
        while !block.end() {
            let (b, w) = block.read_word()?;
            rest.push(MOp::Lit(w));
            block = b;
        }
        note(&block, rest);
        Ok((block, Box::new(ProbeInst)))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(ProbeSet)
    }
}

/// What the script must log, or the error it must end in.
fn expect(script: &[(usize, usize)], words: &[u32]) -> (Vec<Step>, Result<(), String>, bool) {
    let mut log = Vec::new();
    let mut left = words.len();
    let mut loose = false;
    let mut note = |left: usize, values: Vec<MOp>| log.push(Step { values, remaining: left, end: left == 0 });
    note(left, Vec::new());
    for (t, m) in script {
        let ty = &types()[*t];
        let mut out = Vec::new();
        let mut one = |left: &mut usize, out: &mut Vec<MOp>| -> Result<(), String> {
            let (r, l, lo) = decode_kinds(&ty.kinds, &words[words.len() - *left..]);
            loose |= lo;
            out.extend(r?);
            *left = l;
            Ok(())
        };
        let r = match m {
            0 => one(&mut left, &mut out),
            1 => {
                let mut n = 0;
                let mut r = Ok(());
                while left > 0 {
                    r = one(&mut left, &mut out);
                    if r.is_err() {
                        break;
                    }
                    n += 1;
                }
                out.insert(0, MOp::Lit(n));
                r
            }
            _ => {
                if left == 0 {
                    out.push(MOp::Lit(0));
                    Ok(())
                } else {
                    out.push(MOp::Lit(1));
                    one(&mut left, &mut out)
                }
            }
        };
        if let Err(e) = r {
            return (log, Err(e), loose);
        }
        note_push(&mut log, left, out);
    }
    let rest = words[words.len() - left..].iter().map(|w| MOp::Lit(*w)).collect();
    note_push(&mut log, 0, rest);
    (log, Ok(()), loose)
}
fn note_push(log: &mut Vec<Step>, left: usize, values: Vec<MOp>) {
    log.push(Step { values, remaining: left, end: left == 0 });
}

fn run(script: &[(usize, usize)], words: &[u32], be: bool) -> Res {
    let mut w = Header::plain().words();
    w.extend(MInst::new(11, vec![MOp::Res(1), MOp::Str("Probe".into())]).words());
    w.push(((5 + words.len()) as u32) << 16 | 12);
    w.extend([5, 6, 1, 0]);
    w.extend_from_slice(words);
    let bytes = if be { be_bytes(&w) } else { le_bytes(&w) };
    SCRIPT.with(|s| *s.borrow_mut() = script.to_vec());
    LOG.with(|l| l.borrow_mut().clear());
    let got = sut(|| read_module(&bytes, vec![Box::new(ProbeSet)]))?;
    let log = LOG.with(|l| l.borrow().clone());
    let (want_log, want, loose) = expect(script, words);
    let got = match got {
        Ok(_) => Ok(()),
        Err(e) => Err(format!("{:?}", e)),
    };
    if loose && got.is_err() {
        return Ok(());
    }
    for i in 0..want_log.len().max(log.len()) {
        if want_log.get(i) != log.get(i) {
            return Err(clip(&format!("step {}: expected {:?}, got {:?} ({:?})", i, want_log.get(i), log.get(i), got)));
        }
    }
    if got != want {
        return Err(format!("expected {:?}, got {:?}", want, got));
    }
    Ok(())
}

fn show_script(script: &[(usize, usize)], words: &[u32]) -> String {
    let t: Vec<String> = script
        .iter()
        .map(|(t, m)| match m {
            0 => types()[*t].name.to_string(),
            1 => format!("Vec<{}>", types()[*t].name),
            _ => format!("Option<{}>", types()[*t].name),
        })
        .collect();
    format!("read {} from {}", t.join(", "), gen::show_words(words))
}

fn gen_value(s: &mut Src, t: usize, out: &mut Vec<u32>) {
    let mut ops = Vec::new();
    for k in &types()[t].kinds {
        gen::kind(s, k, &mut ops);
    }
    for o in &ops {
        op_words(o, out);
    }
}

fn c18_scripts(s: &mut Src, o: &mut Obs) -> Res {
    let n = 1 + s.len(3);
    let mut script = Vec::new();
    let mut words = Vec::new();
    for i in 0..n {
        let t = s.idx(types().len());
        let last = i + 1 == n;
        let m = if types()[t].modes[1].is_none() {
            0
        } else if last {
            s.weighted(&[3, 4, 3])
        } else {
            s.weighted(&[20, 1, 3])
        };
        script.push((t, m));
        match m {
            0 => gen_value(s, t, &mut words),
            1 => {
                for _ in 0..s.few(5) {
                    gen_value(s, t, &mut words);
                }
            }
            _ => {
                if s.chance(160) {
                    gen_value(s, t, &mut words);
                }
            }
        }
    }
    match s.weighted(&[6, 2, 2, 2]) {
        1 => {
            let k = s.idx(words.len() + 1);
            words.truncate(k);
        }
        2 => {
            for _ in 0..1 + s.len(2) {
                let x = s.word();
                words.push(x);
            }
        }
        3 if !words.is_empty() => {
            let k = s.idx(words.len());
            words[k] = if s.chance(128) { s.word() } else { s.other_word(words[k]) };
        }
        _ => {}
    }
    let be = s.chance(30);
    o.case(!words.is_empty(), &(&script, &words));
    o.describe(|| show_script(&script, &words));
    o.class = Some(if expect(&script, &words).1.is_ok() { "accepted" } else { "refused" });
    run(&script, &words, be)
}

/// Every type, every mode, every word count, structured first words.
fn c18_types_n(t: bool) -> u64 {
    types().len() as u64 * 3 * 8 * if t { 4000 } else { 330 }
}
fn c18_types(i: u64, o: &mut Obs) -> Res {
    let t = (i % types().len() as u64) as usize;
    let i2 = i / types().len() as u64;
    let m = (i2 % 3) as usize;
    let i3 = i2 / 3;
    let n = (i3 % 8) as usize;
    let v = i3 / 8;
    if types()[t].modes[m].is_none() {
        o.case(false, &0);
        return Ok(());
    }
    // first word: 0..=63, then single bits, then anything; others varied
    let mut s = Src::random(mix(0x18, i));
    let words: Vec<u32> = (0..n)
        .map(|k| {
            if k == 0 && v < 64 {
                v as u32
            } else if k == 0 && v < 96 {
                1 << (v - 64)
            } else if m == 1 && s.chance(200) {
                s.below(48) as u32
            } else if s.chance(64) {
                0
            } else {
                s.word()
            }
        })
        .collect();
    o.case(true, &(t, m, &words));
    o.describe(|| show_script(&[(t, m)], &words));
    run(&[(t, m)], &words, false)
}

fn c18_long(s: &mut Src, o: &mut Obs) -> Res {
    let t = s.idx(types().len());
    let m = if types()[t].modes[1].is_some() { 1 } else { 0 };
    let want = *s.pick(&[65530usize, 65529, 40000, 5000, 300]);
    let mut words = Vec::new();
    while words.len() < want {
        let before = words.len();
        gen_value(s, t, &mut words);
        if words.len() > want {
            words.truncate(before);
            break;
        }
    }
    o.case(true, &(t, words.len()));
    o.describe(|| format!("list of {} in {} words", types()[t].name, words.len()));
    run(&[(t, m)], &words, false)
}

pub fn arms(id: &str) -> Option<Vec<Arm>> {
    Some(match id {
        "C18" => vec![rand("scripts", 250_000, 8_000_000, c18_scripts), exh("every-type", c18_types_n, c18_types), rand("long", 40, 1000, c18_long)],
        _ => return None,
    })
}
