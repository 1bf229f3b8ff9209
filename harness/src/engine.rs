//! A small choice-sequence property-testing engine (Hypothesis style): a
//! generator is any function drawing numbers from a `Src`; every draw is
//! recorded, so a failing case is a list of numbers that can be replayed and
//! shrunk without the generator's help.

use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..3 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Below 2^k, mostly much below.
    pub fn upto(&mut self, k: u64) -> u64 {
        let b = self.below(k);
        self.below(1 << b)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            self.next()
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b);
    r.next();
    r.next()
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}
pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>, usize),
    /// given choices, then random ones
    Mutated(Vec<u64>, usize, Rng),
}

/// Source of choices. In replay, a missing choice is 0, which every generator
/// treats as its simplest alternative.
pub struct Src {
    mode: Mode,
    pub record: Vec<u64>,
    /// where to write each choice as it is drawn (for cases that die)
    pub tee: Option<std::fs::File>,
    /// range of each choice, noted for mutated sequences only
    pub ranges: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Random(Rng::new(seed)), record: Vec::new(), tee: None, ranges: Vec::new() }
    }
    pub fn replay(choices: &[u64]) -> Src {
        Src { mode: Mode::Replay(choices.to_vec(), 0), record: Vec::new(), tee: None, ranges: Vec::new() }
    }
    pub fn mutated(choices: &[u64], seed: u64) -> Src {
        Src { mode: Mode::Mutated(choices.to_vec(), 0, Rng::new(seed)), record: Vec::new(), tee: None, ranges: Vec::new() }
    }
    /// A number in 0..n (n = 0: any u64), drawn by `f` when random.
    pub fn draw<F: FnOnce(&mut Rng) -> u64>(&mut self, n: u64, f: F) -> u64 {
        let v = match self.mode {
            Mode::Random(ref mut r) => f(r),
            Mode::Replay(ref v, ref mut i) => {
                let x = v.get(*i).copied().unwrap_or(0);
                *i += 1;
                if n == 0 { x } else { x.min(n - 1) }
            }
            Mode::Mutated(ref v, ref mut i, ref mut r) => {
                self.ranges.push(n);
                *i += 1;
                match v.get(*i - 1) {
                    Some(x) => if n == 0 { *x } else { x % n },
                    None => f(r),
                }
            }
        };
        self.record.push(v);
        if let Some(ref mut f) = self.tee {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        self.draw(n, |r| r.below(n))
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability p/256.
    pub fn chance(&mut self, p: u64) -> bool {
        self.draw(2, |r| (r.below(256) < p) as u64) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        self.draw(ws.len() as u64, |r| {
            let mut x = r.below(total);
            for (i, w) in ws.iter().enumerate() {
                if x < *w {
                    return i as u64;
                }
                x -= w;
            }
            0
        }) as usize
    }
    /// Length in 0..=max, mostly small.
    pub fn len(&mut self, max: usize) -> usize {
        self.draw(max as u64 + 1, |r| {
            let m = match r.below(4) {
                0 => 1,
                1 => 3,
                2 => (max as u64) / 2,
                _ => max as u64,
            };
            r.below(m.min(max as u64) + 1)
        }) as usize
    }
    /// Mostly 0..=n, now and then up to 40.
    pub fn few(&mut self, n: u64) -> usize {
        self.draw(41, |r| if r.below(256) < 14 { r.below(41) } else { r.below(n + 1) }) as usize
    }
    /// An interesting 32-bit word.
    pub fn word(&mut self) -> u32 {
        self.draw(1 << 32, any_word) as u32
    }
    /// A word that some lossy way of comparing or copying would take for `x`.
    pub fn other_word(&mut self, x: u32) -> u32 {
        match self.below(16) {
            0..=6 => x ^ 1 << self.below(32),
            7 => x.wrapping_add(1),
            8 => x.wrapping_sub(1),
            9 => {
                let k = [10, 100, 2, 16, 3, 256][self.idx(6)];
                if x % k == 0 && self.chance(128) {
                    x / k
                } else {
                    x.wrapping_mul(k)
                }
            }
            10 => [x & 0xff, x & 0xffff, x & 0x7fff_ffff, x & 0xffff_0000, x >> 16, x & 0x00ff_ffff][self.idx(6)],
            11 => [!x, x.wrapping_neg(), x ^ 0xffff, x ^ 0xffff_0000][self.idx(4)],
            12 => [x.swap_bytes(), x.rotate_left(16), x.rotate_left(8), x.reverse_bits()][self.idx(4)],
            13 => [x as u8 as i8 as u32, x as u16 as i16 as u32, x.wrapping_add(1 << 16), x.wrapping_add(256)][self.idx(4)],
            14 => {
                // decimal text with a digit more or less
                let t = x.to_string();
                let t = if t.len() > 1 && self.chance(128) { t[..t.len() - 1].to_string() } else { format!("{}{}", t, self.below(10)) };
                t.parse::<u32>().unwrap_or(0)
            }
            _ => self.word(),
        }
    }
    /// A small id (so that ids collide and refer to each other).
    pub fn id(&mut self) -> u32 {
        self.draw(1 << 32, |r| if r.below(256) < 80 { any_word(r) } else { r.below(40) }) as u32
    }
}

fn any_word(r: &mut Rng) -> u64 {
    let v = match r.below(10) {
        0 => r.below(4),
        1 => r.below(64),
        2 => r.below(300),
        3 => 1u64 << r.below(32),
        4 => (1u64 << r.below(33)).wrapping_sub(1),
        5 => {
            let d = dict();
            d[r.below(d.len() as u64) as usize] as u64
        }
        6 => 0xFFFF_FFFF - r.below(4),
        _ => r.next(),
    };
    v & 0xFFFF_FFFF
}

/// Numbers that occur in the code under test (and their neighbours): inputs
/// that sit next to whatever constants the code compares with.
pub fn dict() -> &'static [u32] {
    static D: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut s: HashSet<u32> = [0u32, 1, 2, 3, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF, 0x10000].into_iter().collect();
        for t in source_texts() {
            for n in numbers(&t) {
                for v in [n.wrapping_sub(1), n, n.wrapping_add(1)] {
                    s.insert(v);
                }
            }
        }
        let mut v: Vec<u32> = s.into_iter().collect();
        v.sort();
        v
    })
}

/// String literals that occur in the code under test.
pub fn str_dict() -> &'static [String] {
    static D: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut s: HashSet<String> = HashSet::new();
        for t in source_texts() {
            for line in t.lines() {
                let p: Vec<&str> = line.split('"').collect();
                let mut i = 1;
                while i < p.len() {
                    if p[i].len() < 60 && !p[i].contains('\0') {
                        s.insert(p[i].to_string());
                    }
                    i += 2;
                }
            }
        }
        s.insert("main".into());
        let mut v: Vec<String> = s.into_iter().collect();
        v.sort();
        v
    })
}

fn source_texts() -> Vec<String> {
    fn walk(p: &std::path::Path, out: &mut Vec<String>) {
        let mut es: Vec<_> = match std::fs::read_dir(p) {
            Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
            Err(_) => return,
        };
        es.sort();
        for e in es {
            if e.is_dir() {
                walk(&e, out);
            } else if e.extension().map(|x| x == "rs").unwrap_or(false) {
                if let Ok(t) = std::fs::read_to_string(&e) {
                    out.push(t);
                }
            }
        }
    }
    let mut v = Vec::new();
    walk(std::path::Path::new("/repo/src"), &mut v);
    v
}

fn numbers(t: &str) -> Vec<u32> {
    let b = t.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let tok: String = t[st..i].chars().filter(|c| *c != '_').collect();
            let r = if let Some(h) = tok.strip_prefix("0x") {
                u64::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok()
            } else {
                tok.trim_end_matches(|c: char| !c.is_ascii_digit()).parse::<u64>().ok()
            };
            if let Some(v) = r {
                if v <= u32::MAX as u64 {
                    out.push(v as u32);
                }
            }
        } else {
            i += 1;
        }
    }
    out
}

// ---------------------------------------------------------------------------

thread_local! {
    static IN_SUT: RefCell<u32> = RefCell::new(0);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match info.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "panic".to_string(),
            },
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run code under test; a panic in it becomes Err(message).
pub fn sut<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    IN_SUT.with(|c| *c.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|c| *c.borrow_mut() -= 1);
    r.map_err(|_| format!("code under test panicked: {}", last_panic()))
}

/// What a single case tells the runner besides pass or fail.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub key: u64,
    /// filled only when `want_desc`
    pub desc: String,
    pub want_desc: bool,
    pub class: Option<&'static str>,
    /// additional evaluations made inside this case
    pub inner: u64,
}

impl Obs {
    pub fn case<T: std::hash::Hash + ?Sized>(&mut self, nontrivial: bool, key: &T) {
        use std::hash::Hasher;
        self.nontrivial = nontrivial;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        self.key = h.finish();
    }
    pub fn describe<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            self.desc = f();
        }
    }
}

pub type Res = Result<(), String>;

#[derive(Clone)]
pub enum Kind {
    /// randomly generated cases: (quick, thorough) counts
    Rand { quick: u64, thorough: u64, f: fn(&mut Src, &mut Obs) -> Res },
    /// every index in 0..count(thorough)
    Exh { count: fn(bool) -> u64, f: fn(u64, &mut Obs) -> Res },
}

#[derive(Clone)]
pub struct Arm {
    pub name: &'static str,
    pub kind: Kind,
    /// kilobytes of stack its threads get
    pub stack_kb: usize,
    /// seconds one case may take before it counts as hanging
    pub hang_s: u64,
    pub max_threads: usize,
    /// recovers control flow, which has two known findings
    pub flow: bool,
}

/// The counts in the property modules are for about a second of quick and a
/// minute of thorough run; these scale them all.
const QUICK: u64 = 30;
const THOROUGH: u64 = 12;

/// VERIF_SCALE replaces QUICK (for trying many mutants quickly).
fn quick_scale() -> u64 {
    std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(QUICK)
}

pub fn rand(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Src, &mut Obs) -> Res) -> Arm {
    Arm { name, kind: Kind::Rand { quick: quick * quick_scale(), thorough: thorough * THOROUGH, f }, stack_kb: 256 << 10, hang_s: 60, max_threads: 8, flow: false }
}
pub fn exh(name: &'static str, count: fn(bool) -> u64, f: fn(u64, &mut Obs) -> Res) -> Arm {
    Arm { name, kind: Kind::Exh { count, f }, stack_kb: 256 << 10, hang_s: 60, max_threads: 8, flow: false }
}

impl Arm {
    pub fn stack(mut self, kb: usize) -> Arm {
        self.stack_kb = kb;
        self
    }
    pub fn hang(mut self, s: u64) -> Arm {
        self.hang_s = s;
        self
    }
    /// Whether a guided search of it makes sense: many small cases.
    pub fn guided(&self) -> bool {
        matches!(self.kind, Kind::Rand { thorough, .. } if thorough / THOROUGH >= 100_000)
    }
    pub fn threads(mut self, n: usize) -> Arm {
        self.max_threads = n;
        self
    }
}

/// Outcome of running one case.
pub enum One {
    Pass,
    Fail(String),
    /// the harness itself failed
    Broken(String),
}

/// Run one case. A panic outside `sut` in the code under test fails the case
/// too, and so does one in the oracle: it accepts every result it knows, so
/// what it cannot digest is not one the property allows.
pub fn run_one<F: FnOnce(&mut Obs) -> Res>(obs: &mut Obs, f: F) -> One {
    match catch_unwind(AssertUnwindSafe(|| f(obs))) {
        Ok(Ok(())) => One::Pass,
        Ok(Err(m)) => One::Fail(m),
        Err(_) => {
            IN_SUT.with(|c| *c.borrow_mut() = 0);
            let m = last_panic();
            if m.contains("[harness]") {
                return One::Broken(m);
            }
            One::Fail(format!("the result could not be judged: panic: {}", m))
        }
    }
}

/// Shortlex shrinking of a choice sequence against `fails`.
pub fn shrink<F: FnMut(&[u64]) -> Option<Vec<u64>>>(start: Vec<u64>, mut fails: F, budget: std::time::Duration, max_tries: u64) -> Vec<u64> {
    let t0 = std::time::Instant::now();
    let mut tries = 0u64;
    let mut best = start;
    let smaller = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($cand:expr) => {{
            if tries >= max_tries || t0.elapsed() > budget {
                return best;
            }
            tries += 1;
            match fails(&$cand) {
                Some(r) if smaller(&r, &best) => {
                    best = r;
                    true
                }
                _ => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt!(c) {
                    i += size.max(1);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..i + size] {
                        *x = 0;
                    }
                    attempt!(c);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // delete an element while decrementing an earlier one (list lengths)
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 && best[i] < 200 {
                let mut j = i + 1;
                while j < best.len() && j < i + 12 {
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.remove(j);
                    if attempt!(c) {
                        break;
                    }
                    j += 1;
                }
            }
            i += 1;
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt!(c) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

// ---------------------------------------------------------------- printing

/// A destination with room for so many bytes: a piece that does not fit is
/// refused, a later piece that fits is taken again.
pub struct Sink {
    pub text: String,
    pub room: usize,
    pub refused: u32,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.room {
            self.refused += 1;
            return Err(std::fmt::Error);
        }
        self.room -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}
thread_local! {
    /// room for `shown`, as a fraction of the text in 1/256
    pub static ROOM: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}
/// Text of something printable; while `ROOM` is set, also printed into a
/// destination that is too small.
pub fn shown(d: &dyn std::fmt::Display) -> Result<String, String> {
    let t = sut(|| format!("{}", d))?;
    if let Some(k) = ROOM.with(|c| c.get()) {
        sink(d, &t, (t.len() as u64 * k / 256) as usize)?;
    }
    Ok(t)
}
pub fn sink(d: &dyn std::fmt::Display, text: &str, room: usize) -> Res {
    use std::fmt::Write;
    let mut w = Sink { text: String::new(), room, refused: 0 };
    let r = sut(|| write!(w, "{}", d))?;
    if room >= text.len() {
        if r.is_err() || w.text != text {
            return Err(format!("with room for all {} bytes: {:?}, text {:?}", text.len(), r, w.text.chars().take(200).collect::<String>()));
        }
    } else if r.is_ok() {
        return Err(format!("{} bytes into a destination with room for {}: no error reported; written {:?}", text.len(), room, w.text.chars().take(200).collect::<String>()));
    } else if !text.starts_with(&w.text) {
        let at = w.text.bytes().zip(text.bytes()).take_while(|(a, b)| a == b).count();
        return Err(format!("after a refused piece printing went on: byte {} of what was written is not the text's (room {} of {})", at, room, text.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- memory

// What the calling thread asked for; the allocator (main.rs) reports it.
thread_local! {
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static PEAK: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static TOTAL: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub fn took(n: usize) {
    let _ = TOTAL.try_with(|c| c.set(c.get() + n as u64));
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n as i64;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
pub fn gave(n: usize) {
    let _ = LIVE.try_with(|c| c.set(c.get() - n as i64));
}
/// What the code under test used: the most at one time, and all together.
#[derive(Clone, Copy, Debug)]
pub struct Used {
    pub peak: u64,
    pub total: u64,
}
pub fn measured<T>(f: impl FnOnce() -> T) -> Result<(T, Used), String> {
    let (l0, t0) = (LIVE.with(|c| c.get()), TOTAL.with(|c| c.get()));
    PEAK.with(|c| c.set(l0));
    let r = sut(f)?;
    Ok((r, Used { peak: (PEAK.with(|c| c.get()) - l0).max(0) as u64, total: TOTAL.with(|c| c.get()) - t0 }))
}
