//! Supervisor and workers.
//!
//!   vharness check ID TIER        run a property's check (seed: VERIF_SEED)
//!   vharness replay FILE          run one saved case again
//!   vharness list
//!
//! The code under test runs in worker processes only, so that a crash, a stack
//! overflow or an endless loop is seen by the supervisor and attributed to the
//! case that was running.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vharness::engine::*;
use vharness::guided::Island;
use vharness::{arms, cov, props_cf, rules, PROPS};

/// In guided search, running out of memory ends the search without a verdict:
/// the two known findings make recovery use any amount of it.
struct Alloc;
static GUIDED: AtomicBool = AtomicBool::new(false);
const NO_MEMORY: i32 = 77;
extern "C" {
    fn _exit(code: i32) -> !;
}
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        took(l.size());
        out_of(std::alloc::System.alloc(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        gave(l.size());
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        took(l.size());
        out_of(std::alloc::System.alloc_zeroed(l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        // old and new exist together while the contents are moved
        took(n);
        gave(l.size());
        out_of(std::alloc::System.realloc(p, l, n))
    }
}
fn out_of(p: *mut u8) -> *mut u8 {
    if p.is_null() && GUIDED.load(Ordering::Relaxed) {
        unsafe { _exit(NO_MEMORY) }
    }
    p
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, lim: *const Rlimit) -> i32;
}
fn limits() {
    limit_mem(12 << 30)
}
fn limit_mem(bytes: u64) {
    let core = Rlimit { cur: 0, max: 0 };
    let mem = Rlimit { cur: bytes, max: bytes };
    unsafe {
        setrlimit(4, &core);
        setrlimit(9, &mem);
    }
}

fn arm_of(id: &str, name: &str) -> Arm {
    arms(id).unwrap().into_iter().find(|a| a.name == name).unwrap()
}
fn case_seed(seed: u64, id: &str, arm: &str, idx: u64) -> u64 {
    mix(mix(mix(seed, hash_str(id)), hash_str(arm)), idx)
}

/// Run case `idx` of an arm; returns the outcome and the choices drawn.
fn run_idx(arm: &Arm, id: &str, seed: u64, idx: u64, obs: &mut Obs) -> (One, Vec<u64>) {
    match arm.kind {
        Kind::Exh { f, .. } => (run_one(obs, |o| f(idx, o)), vec![]),
        Kind::Rand { f, .. } => {
            let mut src = Src::random(case_seed(seed, id, arm.name, idx));
            let r = run_one(obs, |o| f(&mut src, o));
            (r, src.record)
        }
    }
}
fn run_choices(arm: &Arm, ch: &[u64], obs: &mut Obs) -> (One, Vec<u64>) {
    match arm.kind {
        Kind::Rand { f, .. } => {
            let mut src = Src::replay(ch);
            let r = run_one(obs, |o| f(&mut src, o));
            (r, src.record)
        }
        Kind::Exh { f, .. } => (run_one(obs, |o| f(ch.first().copied().unwrap_or(0), o)), vec![]),
    }
}

// ---------------------------------------------------------------------------
// worker

#[derive(Default)]
struct Tally {
    runs: u64,
    inner: u64,
    nontrivial: u64,
    keys: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<u64>,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn un_line(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}
fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}… ({} bytes)", &s[..k], s.len())
}

/// worker ID ARM TIER SEED SECONDS THREADS OUT PROGRESS
fn worker(a: &[String]) -> i32 {
    limits();
    install_hook();
    let (id, arm) = (&a[0][..], arm_of(&a[0], &a[1]));
    let thorough = a[2] == "thorough";
    let seed: u64 = a[3].parse().unwrap();
    let deadline = Instant::now() + Duration::from_millis(a[4].parse().unwrap());
    let threads: usize = a[5].parse().unwrap();
    let total = match arm.kind {
        Kind::Rand { quick, thorough: t, .. } => if thorough { t } else { quick },
        Kind::Exh { count, .. } => count(thorough),
    };
    let prog = fs::OpenOptions::new().create(true).write(true).truncate(true).open(&a[7]).unwrap();
    let chunk = (total / (threads as u64 * 16)).clamp(1, 32);
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let fail_msg = Mutex::new(BTreeMap::<u64, String>::new());
    let broken = Mutex::new(None::<(u64, String)>);
    let late = AtomicBool::new(false);
    let sum = Mutex::new(Tally::default());
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (arm, prog, next, min_fail, fail_msg, broken, late, sum) = (&arm, &prog, &next, &min_fail, &fail_msg, &broken, &late, &sum);
            std::thread::Builder::new()
                .stack_size(arm.stack_kb << 10)
                .spawn_scoped(sc, move || {
                    let mut ta = Tally::default();
                    'outer: loop {
                        let s = next.fetch_add(chunk, Ordering::SeqCst);
                        if s >= total {
                            break;
                        }
                        for idx in s..(s + chunk).min(total) {
                            if idx > min_fail.load(Ordering::SeqCst) {
                                break 'outer;
                            }
                            if Instant::now() > deadline {
                                late.store(true, Ordering::SeqCst);
                                break 'outer;
                            }
                            let _ = prog.write_at(&(idx + 1).to_le_bytes(), t as u64 * 8);
                            let mut obs = Obs::default();
                            let (r, _) = run_idx(arm, id, seed, idx, &mut obs);
                            ta.runs += 1;
                            ta.inner += obs.inner;
                            if obs.nontrivial {
                                ta.nontrivial += 1;
                                ta.keys.insert(obs.key);
                                if ta.samples.len() < 2 {
                                    ta.samples.push(idx);
                                }
                            }
                            if let Some(c) = obs.class {
                                *ta.classes.entry(c).or_insert(0) += 1;
                            }
                            match r {
                                One::Pass => {}
                                One::Fail(m) => {
                                    min_fail.fetch_min(idx, Ordering::SeqCst);
                                    fail_msg.lock().unwrap().insert(idx, m);
                                    break;
                                }
                                One::Broken(m) => {
                                    *broken.lock().unwrap() = Some((idx, m));
                                    min_fail.store(0, Ordering::SeqCst);
                                    break 'outer;
                                }
                            }
                        }
                    }
                    let _ = prog.write_at(&0u64.to_le_bytes(), t as u64 * 8);
                    let mut g = sum.lock().unwrap();
                    g.runs += ta.runs;
                    g.inner += ta.inner;
                    g.nontrivial += ta.nontrivial;
                    g.keys.extend(ta.keys);
                    g.samples.extend(ta.samples);
                    for (k, v) in ta.classes {
                        *g.classes.entry(k).or_insert(0) += v;
                    }
                })
                .unwrap();
        }
    });
    let mut sum = sum.into_inner().unwrap();
    let mut out = String::new();
    if let Some((idx, m)) = broken.into_inner().unwrap() {
        out += &format!("broken {} {}\n", idx, one_line(&m));
        fs::write(&a[6], out).unwrap();
        return 2;
    }
    out += &format!("total {}\nruns {}\ninner {}\nnontrivial {}\ndistinct {}\nlate {}\n", total, sum.runs, sum.inner, sum.nontrivial, sum.keys.len(), late.load(Ordering::SeqCst) as u8);
    for (k, v) in &sum.classes {
        out += &format!("class {} {}\n", v, k);
    }
    if let Some((idx, m)) = fail_msg.into_inner().unwrap().into_iter().next() {
        out += &format!("fail {} {}\n", idx, one_line(&m));
    } else {
        sum.samples.sort();
        let n = sum.samples.len();
        let pick: Vec<u64> = if n <= 3 { sum.samples.clone() } else { vec![sum.samples[0], sum.samples[n / 2], sum.samples[n - 1]] };
        let arm = &arm;
        std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(arm.stack_kb << 10)
                .spawn_scoped(sc, || {
                    for i in pick {
                        let mut obs = Obs { want_desc: true, ..Default::default() };
                        let _ = run_idx(arm, id, seed, i, &mut obs);
                        out += &format!("sample {} {}\n", i, one_line(&clip(&obs.desc, 700)));
                    }
                })
                .unwrap();
        });
    }
    fs::write(&a[6], out).unwrap();
    0
}

/// guided ID ARM SEED MILLISECONDS ISLAND DIR: coverage-guided search, one of
/// several that run side by side. DIR/cur-N holds the case being run.
fn guided(a: &[String]) -> i32 {
    GUIDED.store(true, Ordering::SeqCst);
    limit_mem(3 << 30);
    install_hook();
    let (id, arm) = (&a[0][..], arm_of(&a[0], &a[1]));
    let f = match arm.kind {
        Kind::Rand { f, .. } => f,
        _ => return 2,
    };
    let seed: u64 = a[2].parse().unwrap();
    let deadline = Instant::now() + Duration::from_millis(a[3].parse().unwrap());
    let (t, dir) = (&a[4], PathBuf::from(&a[5]));
    if cov::guards() == 0 {
        return 2;
    }
    let open = |n: &str| fs::OpenOptions::new().create(true).write(true).truncate(true).open(dir.join(format!("{}-{}", n, t))).unwrap();
    let (prog, cur) = (open("progress"), open("cur"));
    in_thread(arm.stack_kb, || {
        let mut ta = Tally::default();
        let mut isl = Island::new(case_seed(seed, id, arm.name, (1 << 40) + t.parse::<u64>().unwrap()));
        let mut buf: Vec<u8> = Vec::new();
        let mut fail = None;
        for i in 0.. {
            if Instant::now() > deadline {
                break;
            }
            let plan = isl.plan(i);
            buf.clear();
            for x in [plan.seed, plan.ch.len() as u64].iter().chain(&plan.ch) {
                buf.extend_from_slice(&x.to_le_bytes());
            }
            let _ = cur.write_at(&buf, 0);
            let _ = prog.write_at(&(i + 1).to_le_bytes(), 0);
            let mut obs = Obs::default();
            let (r, rec) = isl.run(&plan, |src| run_one(&mut obs, |o| f(src, o)));
            ta.runs += 1;
            ta.inner += obs.inner;
            if obs.nontrivial {
                ta.nontrivial += 1;
                ta.keys.insert(obs.key);
            }
            if let Some(c) = obs.class {
                *ta.classes.entry(c).or_insert(0) += 1;
            }
            match r {
                One::Pass => {}
                One::Fail(m) => {
                    fs::write(dir.join(format!("fail-{}", t)), join(&rec)).unwrap();
                    fail = Some(("fail", m));
                    break;
                }
                One::Broken(m) => {
                    fail = Some(("broken", m));
                    break;
                }
            }
        }
        let mut out = format!("runs {}\ninner {}\nnontrivial {}\nedges {}\nof {}\nkept {}\nswaps {}\n", ta.runs, ta.inner, ta.nontrivial, isl.edges, cov::guards(), isl.kept, isl.swaps);
        for (k, v) in &ta.classes {
            out += &format!("class {} {}\n", v, k);
        }
        if let Some((k, m)) = fail {
            out += &format!("{} {}\n", k, one_line(&m));
        }
        let keys: Vec<u8> = ta.keys.iter().flat_map(|k| k.to_le_bytes()).collect();
        fs::write(dir.join(format!("keys-{}", t)), keys).unwrap();
        fs::write(dir.join(format!("out-{}", t)), out).unwrap();
        0
    })
}

/// Choices and seed of a case noted by `guided`.
fn noted(file: &str) -> Option<Src> {
    let w: Vec<u64> = fs::read(file).ok()?.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let n = *w.get(1)? as usize;
    Some(Src::mutated(w.get(2..2 + n)?, w[0]))
}

fn in_thread<T: Send, F: FnOnce() -> T + Send>(kb: usize, f: F) -> T {
    std::thread::scope(|sc| std::thread::Builder::new().stack_size(kb << 10).spawn_scoped(sc, f).unwrap().join().unwrap())
}

fn parse_choices(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
fn join(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

/// one ID ARM (idx SEED IDX | ch FILE) [OUT]   exit 0 pass, 1 fail, 2 broken
fn one(a: &[String]) -> i32 {
    limits();
    install_hook();
    let arm = arm_of(&a[0], &a[1]);
    let times: u64 = std::env::var("VERIF_REPEAT").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (r, rec, desc) = in_thread(arm.stack_kb, || {
        let t0 = Instant::now();
        let mut k = 0;
        loop {
            let mut obs = Obs { want_desc: a.len() > 5, ..Default::default() };
            let (r, rec) = if a[2] == "noted" {
                let mut src = noted(&a[3]).expect("noted case");
                match arm.kind {
                    Kind::Rand { f, .. } => (run_one(&mut obs, |o| f(&mut src, o)), src.record),
                    _ => return (One::Broken("[harness] noted".into()), vec![], String::new()),
                }
            } else if a[2] == "idx" { run_idx(&arm, &a[0], a[3].parse().unwrap(), a[4].parse().unwrap(), &mut obs) } else { run_choices(&arm, &parse_choices(&fs::read_to_string(&a[3]).unwrap()), &mut obs) };
            k += 1;
            if !matches!(r, One::Pass) || k >= times || t0.elapsed() > Duration::from_secs(10) {
                return (r, rec, obs.desc);
            }
        }
    });
    let (code, msg) = match r {
        One::Pass => (0, String::new()),
        One::Fail(m) => (1, m),
        One::Broken(m) => (2, m),
    };
    if let Some(p) = a.get(5) {
        fs::write(p, format!("{}\n{}\n{}\n", join(&rec), one_line(&msg), one_line(&desc))).unwrap();
    }
    code
}

/// shrink ID ARM (SEED IDX | ch FILE) OUT
fn shrink_child(a: &[String]) -> i32 {
    limits();
    install_hook();
    let arm = arm_of(&a[0], &a[1]);
    let out = &a[4];
    in_thread(arm.stack_kb, || {
        let mut obs = Obs::default();
        let (r, rec) = if a[2] == "ch" { run_choices(&arm, &parse_choices(&fs::read_to_string(&a[3]).unwrap()), &mut obs) } else { run_idx(&arm, &a[0], a[2].parse().unwrap(), a[3].parse().unwrap(), &mut obs) };
        if !matches!(r, One::Fail(_)) {
            return 2;
        }
        let save = |c: &[u64]| {
            let tmp = format!("{}.tmp", out);
            fs::write(&tmp, join(c)).unwrap();
            fs::rename(&tmp, out).unwrap();
        };
        save(&rec);
        let mut best = rec.clone();
        let got = shrink(
            rec,
            |c| {
                let mut o = Obs::default();
                match run_choices(&arm, c, &mut o) {
                    (One::Fail(_), r) => {
                        if r.len() < best.len() || (r.len() == best.len() && r < best) {
                            best = r.clone();
                            save(&best);
                        }
                        Some(r)
                    }
                    _ => None,
                }
            },
            Duration::from_secs(40),
            400_000,
        );
        save(&got);
        0
    })
}

// ---------------------------------------------------------------------------
// supervisor

fn me() -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.stdin(Stdio::null()).stdout(Stdio::null());
    if std::env::var("VERIF_VERBOSE").is_err() {
        c.stderr(Stdio::null());
    }
    c
}
fn wait_for(ch: &mut Child, limit: Duration) -> Option<ExitStatus> {
    let t0 = Instant::now();
    let mut nap = 1;
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            return Some(s);
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
    }
}

#[derive(Clone, Debug)]
enum Out {
    Pass,
    Fail(String),
    Crash(String),
    Hang,
    Broken(String),
}
impl Out {
    fn bad(&self) -> bool {
        !matches!(self, Out::Pass | Out::Broken(_))
    }
}
struct OneRes {
    out: Out,
    rec: Vec<u64>,
    desc: String,
}
/// Run one case in its own process.
fn run_alone(id: &str, arm: &str, how: &[String], tmp: &Path, limit: Duration) -> OneRes {
    let o = tmp.join(format!("one-{}", std::thread::current().name().unwrap_or("m").replace('/', "_")));
    let _ = fs::remove_file(&o);
    let mut v: Vec<String> = vec!["one".into(), id.into(), arm.into()];
    v.extend(how.iter().cloned());
    while v.len() < 6 {
        v.push("-".into());
    }
    v.push(o.to_string_lossy().into());
    let mut ch = me().args(&v).spawn().unwrap();
    let st = wait_for(&mut ch, limit);
    let text = fs::read_to_string(&o).unwrap_or_default();
    let l: Vec<&str> = text.lines().collect();
    let rec = l.first().map(|s| parse_choices(s)).unwrap_or_default();
    let msg = l.get(1).map(|s| un_line(s)).unwrap_or_default();
    let desc = l.get(2).map(|s| un_line(s)).unwrap_or_default();
    let out = match st {
        None => Out::Hang,
        Some(s) => match s.code() {
            Some(0) => Out::Pass,
            Some(1) => Out::Fail(msg),
            Some(_) => Out::Broken(msg),
            None => Out::Crash(s.to_string()),
        },
    };
    OneRes { out, rec, desc }
}

struct Finding {
    arm: String,
    idx: u64,
    choices: Option<Vec<u64>>,
    msg: String,
    desc: String,
    /// fails only now and then, or only after other calls: how to run it again
    how: &'static str,
}

struct ArmReport {
    name: String,
    kind: &'static str,
    total: u64,
    runs: u64,
    inner: u64,
    nontrivial: u64,
    distinct: u64,
    late: bool,
    classes: Vec<(String, u64)>,
    samples: Vec<String>,
    wall: f64,
}

enum Verdict {
    Held(ArmReport),
    Violated(ArmReport, Finding),
    Broken(String),
}

fn run_arm(id: &str, arm: &Arm, tier: &str, seed: u64, budget: Duration, tmp: &Path) -> Verdict {
    let t0 = Instant::now();
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    let threads = arm.max_threads.min(cores.clamp(2, 8));
    let out = tmp.join("out");
    let prog = tmp.join("progress");
    let _ = fs::remove_file(&out);
    let _ = fs::remove_file(&prog);
    let mut ch = me()
        .args(["worker", id, arm.name, tier])
        .arg(seed.to_string())
        .arg(budget.as_millis().to_string())
        .arg(threads.to_string())
        .arg(&out)
        .arg(&prog)
        .spawn()
        .unwrap();
    // watch progress
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); threads];
    let mut hung = false;
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        std::thread::sleep(Duration::from_millis(20));
        if let Ok(b) = fs::read(&prog) {
            for t in 0..threads {
                if b.len() >= t * 8 + 8 {
                    let v = u64::from_le_bytes(b[t * 8..t * 8 + 8].try_into().unwrap());
                    if v != last[t].0 || v == 0 {
                        last[t] = (v, Instant::now());
                    } else if last[t].1.elapsed() > Duration::from_secs(arm.hang_s) {
                        hung = true;
                    }
                }
            }
        }
        if hung {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
    };
    let mut rep = ArmReport {
        name: arm.name.into(),
        kind: if matches!(arm.kind, Kind::Exh { .. }) { "enumerated" } else { "generated" },
        total: 0,
        runs: 0,
        inner: 0,
        nontrivial: 0,
        distinct: 0,
        late: false,
        classes: vec![],
        samples: vec![],
        wall: 0.0,
    };
    let text = fs::read_to_string(&out).unwrap_or_default();
    let mut fail: Option<(u64, String)> = None;
    for l in text.lines() {
        let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "total" => rep.total = rest.parse().unwrap(),
            "runs" => rep.runs = rest.parse().unwrap(),
            "inner" => rep.inner = rest.parse().unwrap(),
            "nontrivial" => rep.nontrivial = rest.parse().unwrap(),
            "distinct" => rep.distinct = rest.parse().unwrap(),
            "late" => rep.late = rest == "1",
            "class" => {
                let (n, c) = rest.split_once(' ').unwrap();
                rep.classes.push((c.into(), n.parse().unwrap()));
            }
            "sample" => {
                let (n, c) = rest.split_once(' ').unwrap();
                rep.samples.push(format!("{} #{}: {}", arm.name, n, un_line(c)));
            }
            "fail" => {
                let (n, m) = rest.split_once(' ').unwrap();
                fail = Some((n.parse().unwrap(), un_line(m)));
            }
            "broken" => return Verdict::Broken(format!("harness panic in {}/{}: {}", id, arm.name, rest)),
            _ => {}
        }
    }
    rep.wall = t0.elapsed().as_secs_f64();
    let is_rand = matches!(arm.kind, Kind::Rand { .. });
    let limit = Duration::from_secs(arm.hang_s);
    if let (Some(s), None) = (st, &fail) {
        if s.code() == Some(0) && !text.is_empty() {
            return Verdict::Held(rep);
        }
    }
    if let Some((idx, msg)) = fail {
        // ordinary failure: shrink in a child
        let how = vec!["idx".to_string(), seed.to_string(), idx.to_string()];
        let mut f = Finding { arm: arm.name.into(), idx, choices: None, msg, desc: String::new(), how: "" };
        if is_rand {
            let so = tmp.join("shrunk");
            let _ = fs::remove_file(&so);
            let mut ch = me().args(["shrink", id, arm.name, &seed.to_string(), &idx.to_string()]).arg(&so).spawn().unwrap();
            wait_for(&mut ch, Duration::from_secs(60));
            if so.exists() {
                let c = tmp.join("choices");
                let _ = fs::copy(&so, &c);
                let r = run_alone(id, arm.name, &["ch".into(), c.to_string_lossy().into()], tmp, limit);
                if let Out::Fail(m) = r.out {
                    f.choices = Some(r.rec);
                    f.msg = m;
                    f.desc = r.desc;
                    return Verdict::Violated(rep, f);
                }
            }
        }
        let r = run_alone(id, arm.name, &how, tmp, limit);
        match r.out {
            Out::Pass => {
                // the outcome depends on chance, on other threads or on what
                // was processed before; the judgement itself does not
                f.desc = r.desc;
                match again(id, arm, seed, idx, tmp) {
                    Some(m) => {
                        f.msg = format!("fails now and then: {}", m);
                        f.how = "repeat";
                    }
                    None => {
                        f.msg = format!("fails after, or together with, other cases: {}", f.msg);
                        f.how = "history";
                    }
                }
                return Verdict::Violated(rep, f);
            }
            Out::Broken(m) => return Verdict::Broken(m),
            _ => {}
        }
        if is_rand && !r.rec.is_empty() {
            f.choices = Some(r.rec);
        }
        f.desc = r.desc;
        return Verdict::Violated(rep, f);
    }
    // crash or hang: which case?
    let b = fs::read(&prog).unwrap_or_default();
    let mut cands: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|v| *v != 0).map(|v| v - 1).collect();
    cands.sort();
    let res = Mutex::new(BTreeMap::<u64, Out>::new());
    std::thread::scope(|sc| {
        for (k, c) in cands.iter().enumerate() {
            let res = &res;
            std::thread::Builder::new()
                .name(format!("c{}", k))
                .spawn_scoped(sc, move || {
                    let how = vec!["idx".to_string(), seed.to_string(), c.to_string()];
                    let r = run_alone(id, arm.name, &how, tmp, limit);
                    res.lock().unwrap().insert(*c, r.out);
                })
                .unwrap();
        }
    });
    let res = res.into_inner().unwrap();
    // a crash may depend on chance too
    let mut res = res;
    if st.is_some() && !res.values().any(|o| o.bad()) {
        for c in &cands {
            if let Some(m) = again(id, arm, seed, *c, tmp) {
                res.insert(*c, Out::Crash(format!("now and then: {}", m)));
                break;
            }
        }
    }
    // prefer a crash to a hang: it shrinks faster
    let pickd = res.iter().find(|(_, o)| o.bad() && !matches!(o, Out::Hang)).or_else(|| res.iter().find(|(_, o)| o.bad()));
    let (idx, outcome) = match pickd {
        Some((i, o)) => (*i, o.clone()),
        None => return Verdict::Broken(format!("worker for {}/{} died ({:?}, hung={}) and no running case reproduces it: {:?}", id, arm.name, st, hung, res)),
    };
    let mut f = Finding { arm: arm.name.into(), idx, choices: None, msg: say(arm, &outcome), desc: String::new(), how: "" };
    if is_rand {
        // The choices of a case that dies are drawn again in a process that
        // streams them to a file.
        let sf = tmp.join("stream");
        let _ = fs::remove_file(&sf);
        let mut ch = me().args(["stream", id, arm.name, &seed.to_string(), &idx.to_string()]).arg(&sf).spawn().unwrap();
        wait_for(&mut ch, if matches!(outcome, Out::Hang) { Duration::from_secs(5) } else { limit });
        let start: Vec<u64> = fs::read(&sf).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        shrink_dead(id, arm, start, &outcome, &mut f, tmp);
    }
    Verdict::Violated(rep, f)
}

fn say(arm: &Arm, o: &Out) -> String {
    match o {
        Out::Hang => format!("does not finish within {} s", arm.hang_s),
        Out::Crash(s) => format!("the process running the code under test died: {}", s),
        Out::Fail(m) => m.clone(),
        o => format!("{:?}", o),
    }
}

/// Shrink a case that kills its process, in processes of its own.
fn shrink_dead(id: &str, arm: &Arm, start: Vec<u64>, outcome: &Out, f: &mut Finding, tmp: &Path) {
    let limit = Duration::from_secs(arm.hang_s);
    let step = if matches!(outcome, Out::Hang) { Duration::from_secs(4) } else { limit };
    let cf = tmp.join("cand");
    let how = vec!["ch".to_string(), cf.to_string_lossy().to_string()];
    let bad = |c: &[u64], lim: Duration| {
        fs::write(&cf, join(c)).unwrap();
        run_alone(id, arm.name, &how, tmp, lim).out.bad()
    };
    if bad(&start, step) {
        let small = shrink(start.clone(), |c| if bad(c, step) { Some(c.to_vec()) } else { None }, Duration::from_secs(60), 100_000);
        for c in [small, start] {
            fs::write(&cf, join(&c)).unwrap();
            let r = run_alone(id, arm.name, &how, tmp, limit);
            if r.out.bad() {
                f.msg = say(arm, &r.out);
                f.choices = Some(c);
                break;
            }
        }
    }
}

/// The guided search of one arm, in processes of the guided build. A case that
/// hangs, or needs more memory than there is, ends it without a verdict where
/// control flow is recovered (known findings of C14); a crash is one.
fn run_guided(id: &str, arm: &Arm, seed: u64, budget: Duration, tmp: &Path, bin: &Path) -> Verdict {
    let t0 = Instant::now();
    let dir = tmp.join(format!("guided-{}", arm.name));
    let _ = fs::create_dir_all(&dir);
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    let n = arm.max_threads.min(cores.clamp(2, 8));
    struct Isl {
        ch: Child,
        /// None: running; Some(None): hung
        st: Option<Option<ExitStatus>>,
        seen: (u64, Instant),
    }
    let mut isl: Vec<Isl> = (0..n)
        .map(|t| {
            let mut c = Command::new(bin);
            c.stdin(Stdio::null()).stdout(Stdio::null());
            if std::env::var("VERIF_VERBOSE").is_err() {
                c.stderr(Stdio::null());
            }
            let ch = c.args(["guided", id, arm.name, &seed.to_string(), &budget.as_millis().to_string(), &t.to_string()]).arg(&dir).spawn().unwrap();
            Isl { ch, st: None, seen: (0, Instant::now()) }
        })
        .collect();
    let file = |k: &str, t: usize| dir.join(format!("{}-{}", k, t));
    let mut enough = false;
    let patience = Duration::from_secs(if arm.flow { arm.hang_s.min(30) } else { arm.hang_s });
    while isl.iter().any(|x| x.st.is_none()) {
        std::thread::sleep(Duration::from_millis(20));
        for (t, x) in isl.iter_mut().enumerate() {
            if x.st.is_some() {
                continue;
            }
            let v = fs::read(file("progress", t)).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
            if v != x.seen.0 {
                x.seen = (v, Instant::now());
            }
            match x.ch.try_wait().unwrap() {
                Some(s) => {
                    x.st = Some(Some(s));
                    enough |= s.code() != Some(0) && s.code() != Some(NO_MEMORY) || file("fail", t).exists();
                }
                None if x.seen.1.elapsed() > patience => {
                    x.st = Some(None);
                    enough |= !arm.flow;
                }
                None => continue,
            }
            let _ = x.ch.kill();
            let _ = x.ch.wait();
        }
        if enough {
            for x in isl.iter_mut().filter(|x| x.st.is_none()) {
                let _ = x.ch.kill();
                x.st = x.ch.wait().ok().map(|_| None);
            }
        }
    }
    let mut rep = ArmReport { name: format!("{} (guided)", arm.name), kind: "coverage-guided", total: 0, runs: 0, inner: 0, nontrivial: 0, distinct: 0, late: false, classes: vec![], samples: vec![], wall: 0.0 };
    let mut keys: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut num: BTreeMap<String, u64> = BTreeMap::new();
    let mut fails: Vec<(usize, String)> = Vec::new();
    for (t, x) in isl.iter().enumerate() {
        let text = fs::read_to_string(file("out", t)).unwrap_or_default();
        if text.is_empty() {
            rep.runs += x.seen.0;
        }
        for l in text.lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "runs" => rep.runs += rest.parse::<u64>().unwrap(),
                "inner" => rep.inner += rest.parse::<u64>().unwrap(),
                "nontrivial" => rep.nontrivial += rest.parse::<u64>().unwrap(),
                "class" => {
                    let (n, c) = rest.split_once(' ').unwrap();
                    *classes.entry(c.into()).or_insert(0) += n.parse::<u64>().unwrap();
                }
                "fail" => fails.push((t, un_line(rest))),
                "broken" => return Verdict::Broken(format!("harness panic in guided {}/{}: {}", id, arm.name, rest)),
                "edges" | "of" => {
                    let e = num.entry(k.into()).or_insert(0);
                    *e = (*e).max(rest.parse().unwrap());
                }
                _ => *num.entry(k.into()).or_insert(0) += rest.parse::<u64>().unwrap(),
            }
        }
        keys.extend(fs::read(file("keys", t)).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    rep.total = rep.runs;
    rep.distinct = keys.len() as u64;
    rep.classes = classes.into_iter().collect();
    rep.wall = t0.elapsed().as_secs_f64();
    let get = |k: &str| num.get(k).copied().unwrap_or(0);
    rep.samples.push(format!("{}: {} searches side by side; up to {} of {} edges reached in one, {} choice sequences kept, {} compared values exchanged", rep.name, n, get("edges"), get("of"), get("kept"), get("swaps")));
    let limit = Duration::from_secs(arm.hang_s);
    let mut f = Finding { arm: arm.name.into(), idx: 0, choices: None, msg: String::new(), desc: String::new(), how: "" };
    // a short case is quicker to shrink
    fails.sort_by_key(|(t, _)| fs::metadata(file("fail", *t)).map(|m| m.len()).unwrap_or(u64::MAX));
    for (t, _) in &fails {
        let (from, so) = (file("fail", *t), dir.join("shrunk"));
        let _ = fs::remove_file(&so);
        let mut ch = me().args(["shrink", id, arm.name, "ch"]).arg(&from).arg(&so).spawn().unwrap();
        wait_for(&mut ch, Duration::from_secs(60));
        for c in [&so, &from] {
            if !c.exists() {
                continue;
            }
            let r = run_alone(id, arm.name, &["ch".into(), c.to_string_lossy().into()], tmp, limit);
            if r.out.bad() {
                f.msg = say(arm, &r.out);
                f.choices = Some(if r.rec.is_empty() { parse_choices(&fs::read_to_string(c).unwrap()) } else { r.rec });
                f.desc = r.desc;
                return Verdict::Violated(rep, f);
            }
        }
    }
    if let Some((t, m)) = fails.first() {
        f.msg = format!("fails after other cases: {}", m);
        f.choices = fs::read_to_string(file("fail", *t)).ok().map(|s| parse_choices(&s));
        return Verdict::Violated(rep, f);
    }
    for (t, x) in isl.iter().enumerate() {
        let how = match x.st {
            Some(Some(s)) if s.code() == Some(0) => continue,
            Some(Some(s)) if s.code() == Some(2) => return Verdict::Broken(format!("guided {}/{} could not run", id, arm.name)),
            Some(Some(s)) if s.code() == Some(NO_MEMORY) => "needs too much memory",
            Some(Some(_)) => "kills its process",
            _ if enough && x.seen.1.elapsed() < patience => continue,
            _ => "takes too long",
        };
        rep.late = true;
        rep.samples.push(format!("{}: search {} ended by a case that {}", rep.name, t, how));
        if arm.flow && how != "kills its process" {
            continue;
        }
        let cur = file("cur", t);
        let r = run_alone(id, arm.name, &["noted".to_string(), cur.to_string_lossy().to_string()], tmp, limit);
        if r.out.bad() {
            let sf = dir.join("stream");
            let _ = fs::remove_file(&sf);
            let mut ch = me().args(["stream", id, arm.name, "noted"]).arg(&cur).arg(&sf).spawn().unwrap();
            wait_for(&mut ch, if matches!(r.out, Out::Hang) { Duration::from_secs(5) } else { limit });
            let start: Vec<u64> = fs::read(&sf).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            f.msg = say(arm, &r.out);
            f.choices = Some(start.clone());
            shrink_dead(id, arm, start, &r.out, &mut f, tmp);
            return Verdict::Violated(rep, f);
        }
    }
    Verdict::Held(rep)
}

/// Run one case over and over, in one process and in several.
fn again(id: &str, arm: &Arm, seed: u64, idx: u64, tmp: &Path) -> Option<String> {
    let t0 = Instant::now();
    let how = vec!["idx".to_string(), seed.to_string(), idx.to_string()];
    for _ in 0..20 {
        std::env::set_var("VERIF_REPEAT", "300");
        let r = run_alone(id, arm.name, &how, tmp, Duration::from_secs(arm.hang_s));
        std::env::remove_var("VERIF_REPEAT");
        match r.out {
            Out::Fail(m) | Out::Crash(m) => return Some(m),
            _ => {}
        }
        if t0.elapsed() > Duration::from_secs(40) {
            break;
        }
    }
    None
}

/// stream ID ARM SEED IDX FILE: run a case, writing every choice as it is drawn
fn stream(a: &[String]) -> i32 {
    limits();
    install_hook();
    let arm = arm_of(&a[0], &a[1]);
    let file = fs::File::create(&a[4]).unwrap();
    in_thread(arm.stack_kb, || {
        if let Kind::Rand { f, .. } = arm.kind {
            let mut src = if a[2] == "noted" { noted(&a[3]).unwrap() } else { Src::random(case_seed(a[2].parse().unwrap(), &a[0], arm.name, a[3].parse().unwrap())) };
            src.tee = Some(file);
            let mut obs = Obs::default();
            let _ = run_one(&mut obs, |o| f(&mut src, o));
        }
    });
    0
}

fn scratch(id: &str) -> PathBuf {
    let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| verif().join("harness/target/scratch"));
    let p = base.join(format!("{}-{}", id, std::process::id()));
    fs::create_dir_all(&p).unwrap();
    p
}

/// Known findings: lines "finding <key> property=<id> <what fails>".
fn known(id: &str, key: &str) -> Option<String> {
    let t = fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    t.lines().find_map(|l| {
        let mut w = l.splitn(4, ' ');
        if w.next() == Some("finding:") && w.next() == Some(key) && w.next() == Some(&format!("property={}", id)) {
            w.next().map(|s| s.to_string())
        } else {
            None
        }
    })
}

const K1_BLOCKS: u32 = 400_000;
const K2_BLOCKS: u32 = 48;

fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed_s = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    let seed: u64 = seed_s.trim().parse().unwrap_or_else(|_| hash_str(&seed_s) >> 16);
    let list = arms(id).unwrap();
    let budget = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 1500u64 } else { 240 });
    let deadline = t0 + Duration::from_secs(budget);
    let tmp = scratch(id);
    let mut reps: Vec<ArmReport> = Vec::new();
    let mut found: Option<Finding> = None;
    let only = std::env::var("VERIF_ARM").ok();
    let n = list.len();
    let mut broken = None;
    for (k, arm) in list.iter().enumerate() {
        if let Some(ref o) = only {
            if o != arm.name {
                continue;
            }
        }
        let left = deadline.saturating_duration_since(Instant::now());
        let share = (left / (n - k) as u32) * 3 / 2;
        match run_arm(id, arm, tier, seed, share.min(left).max(Duration::from_secs(2)), &tmp) {
            Verdict::Held(r) => {
                eprintln!("{} {:<22} {:>9} of {:>9} cases, {:>9} distinct non-trivial, {:.1} s{}", id, arm.name, r.runs, r.total, r.distinct, r.wall, if r.late { " (time budget)" } else { "" });
                reps.push(r);
            }
            Verdict::Violated(r, f) => {
                reps.push(r);
                found = Some(f);
                break;
            }
            Verdict::Broken(m) => {
                broken = Some(m);
                break;
            }
        }
    }
    // the guided search, in the arms that have many small cases
    let bin = std::env::var("VERIF_GUIDED_BIN").map(PathBuf::from).ok().filter(|p| p.exists());
    if let (Some(bin), None, None) = (bin, &found, &broken) {
        let list: Vec<&Arm> = list.iter().filter(|a| a.guided() && only.as_ref().map_or(true, |o| o == a.name)).collect();
        let secs: f64 = std::env::var("VERIF_GUIDED_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600.0 } else { 30.0 });
        for arm in &list {
            let share = Duration::from_secs_f64(secs / list.len() as f64);
            match run_guided(id, arm, seed, share, &tmp, &bin) {
                Verdict::Held(r) => {
                    eprintln!("{} {:<22} {:>9} cases, {:>9} distinct non-trivial, {:.1} s; {}", id, r.name, r.runs, r.distinct, r.wall, r.samples.join("; "));
                    reps.push(r);
                }
                Verdict::Violated(r, f) => {
                    reps.push(r);
                    found = Some(f);
                    break;
                }
                Verdict::Broken(m) => {
                    broken = Some(m);
                    break;
                }
            }
        }
    }
    if let Some(m) = broken {
        let _ = fs::remove_dir_all(&tmp);
        println!("HARNESS-ERROR property={} {}", id, m);
        return 2;
    }
    let mut notes: Vec<String> = Vec::new();
    // The two known findings of C14, each one specific function.
    if id == "C14" && only.is_none() {
        for (key, probe, n, what) in [
            ("long-chain", "probe-chain", K1_BLOCKS, "blocks 1..=n, each branching to the next, the last returning"),
            ("selection-ladder", "probe-ladder", K2_BLOCKS, "blocks 1..=n, block i a selection with merge block n+1 and both branches to i+1, block n+1 returning"),
        ] {
            if found.is_some() {
                break;
            }
            let mut ch = me().args([probe, &n.to_string()]).spawn().unwrap();
            let bad = match wait_for(&mut ch, Duration::from_secs(20)) {
                Some(s) if s.code() == Some(0) => None,
                Some(s) if s.code().is_some() => Some((false, "wrong outcome".to_string())),
                Some(s) => Some((true, s.to_string())),
                None => Some((true, "does not finish within 20 s".to_string())),
            };
            notes.push(format!("{} (n = {}): {}", what, n, bad.as_ref().map(|w| w.1.clone()).unwrap_or("returned".into())));
            if let Some((crash, s)) = bad {
                match (crash, known(id, key)) {
                    (true, Some(t)) => println!("KNOWN-FINDING: property={} {}", id, t),
                    _ => found = Some(Finding { arm: probe.into(), idx: n as u64, choices: None, msg: s, desc: format!("{} (n = {})", what, n), how: "" }),
                }
            }
        }
    }
    let mut code = 0;
    if let Some(ref f) = found {
        let dir = verif().join("replays");
        let _ = fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}-{}.json", id, f.arm, seed));
        let mut j = String::from("{\n");
        j += &format!(" \"property\": \"{}\",\n \"arm\": \"{}\",\n \"seed\": {},\n \"index\": {},\n", id, f.arm, seed, f.idx);
        if let Some(ref c) = f.choices {
            j += &format!(" \"choices\": [{}],\n", join(c));
        }
        if !f.how.is_empty() {
            j += &format!(" \"how\": \"{}\",\n \"tier\": \"{}\",\n", f.how, tier);
        }
        j += &format!(" \"message\": \"{}\",\n \"case\": \"{}\",\n \"rerun\": \"/verif/check replay {}\"\n}}\n", esc(&f.msg), esc(&clip(&f.desc, 20_000)), esc(&p.to_string_lossy()));
        fs::write(&p, j).unwrap();
        println!("{} {}: {}", id, f.arm, clip(&f.msg, 4000));
        if !f.desc.is_empty() {
            println!("case: {}", clip(&f.desc, 4000));
        }
        println!("VIOLATION property={} replay={}", id, p.to_string_lossy());
        code = 1;
    }
    // evidence
    if only.is_none() {
        let ev = verif().join("evidence");
        let _ = fs::create_dir_all(&ev);
        let evals: u64 = reps.iter().map(|r| r.runs + r.inner).sum();
        let dist: u64 = reps.iter().map(|r| r.distinct).sum();
        let samples: Vec<String> = reps.iter().flat_map(|r| r.samples.iter().map(|s| format!("\"{}\"", esc(s)))).collect();
        let arms_j: Vec<String> = reps
            .iter()
            .map(|r| {
                let cl: Vec<String> = r.classes.iter().map(|(c, n)| format!("\"{}\": {}", esc(c), n)).collect();
                format!(
                    "   {{\"arm\": \"{}\", \"kind\": \"{}\", \"planned\": {}, \"cases\": {}, \"further_evaluations_inside_cases\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"stopped_by_time_budget\": {}, \"classes\": {{{}}}, \"wall_s\": {:.2}}}",
                    r.name, r.kind, r.total, r.runs, r.inner, r.nontrivial, r.distinct, r.late, cl.join(", "), r.wall
                )
            })
            .collect();
        let asm: Vec<String> = rules::assumptions(id).iter().map(|s| format!("\"{}\"", esc(s))).collect();
        let nt: Vec<String> = notes.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        let j = format!(
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"samples\": [\n   {}\n  ],\n  \"arms\": [\n{}\n  ],\n  \"notes\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            id, tier, seed, evals, dist, esc(rules::rule(id)), samples.join(",\n   "), arms_j.join(",\n"), nt.join(", "), asm.join(", "), t0.elapsed().as_secs_f64(), code
        );
        fs::write(ev.join(format!("{}.json", id)), j).unwrap();
    }
    let _ = fs::remove_dir_all(&tmp);
    if code == 0 {
        println!("{}: held on everything explored ({:.1} s)", id, t0.elapsed().as_secs_f64());
    }
    code
}

fn replay(file: &str) -> i32 {
    let t = fs::read_to_string(file).expect("replay file");
    let field = |k: &str| -> Option<String> {
        let p = t.find(&format!("\"{}\": ", k))? + k.len() + 4;
        let r = &t[p..];
        Some(match r.as_bytes()[0] {
            b'"' => r[1..].split('"').next().unwrap().to_string(),
            b'[' => r[1..].split(']').next().unwrap().to_string(),
            _ => r.split(|c: char| !c.is_ascii_digit()).next().unwrap().to_string(),
        })
    };
    let (id, arm) = (field("property").unwrap(), field("arm").unwrap());
    if arm.starts_with("probe-") {
        let mut ch = me().args([&arm, &field("index").unwrap()]).spawn().unwrap();
        let st = wait_for(&mut ch, Duration::from_secs(60));
        println!("{:?}", st);
        return if st.map(|s| s.success()).unwrap_or(false) { 0 } else { 1 };
    }
    let tmp = scratch("replay");
    let how = match field("choices") {
        Some(c) => {
            let p = tmp.join("c");
            fs::write(&p, c).unwrap();
            vec!["ch".to_string(), p.to_string_lossy().to_string()]
        }
        None => vec!["idx".to_string(), field("seed").unwrap(), field("index").unwrap()],
    };
    let a = arm_of(&id, &arm);
    if let Some(how) = field("how") {
        let (seed, idx) = (field("seed").unwrap().parse().unwrap(), field("index").unwrap().parse().unwrap());
        let got = if how == "repeat" {
            again(&id, &a, seed, idx, &tmp)
        } else {
            match run_arm(&id, &a, &field("tier").unwrap(), seed, Duration::from_secs(600), &tmp) {
                Verdict::Violated(_, f) => Some(f.msg),
                _ => None,
            }
        };
        let _ = fs::remove_dir_all(&tmp);
        println!("{:?}", got);
        if got.is_some() {
            println!("VIOLATION property={} replay={}", id, file);
        }
        return got.is_some() as i32;
    }
    let r = run_alone(&id, &arm, &how, &tmp, Duration::from_secs(a.hang_s));
    let _ = fs::remove_dir_all(&tmp);
    println!("{:?}\n{}", r.out, r.desc);
    if r.out.bad() {
        println!("VIOLATION property={} replay={}", id, file);
        1
    } else {
        0
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let cmd = a.first().map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "check" if a.len() == 3 && PROPS.contains(&a[1].as_str()) && (a[2] == "quick" || a[2] == "thorough") => check(&a[1], &a[2]),
        "worker" => worker(&a[1..]),
        "one" => one(&a[1..]),
        "shrink" => shrink_child(&a[1..]),
        "stream" => stream(&a[1..]),
        "guided" => guided(&a[1..]),
        "probe-chain" => {
            limits();
            install_hook();
            let n: u32 = a[1].parse().unwrap();
            match in_thread(8 << 10, || props_cf::probe_chain(n)) {
                Ok(()) => 0,
                Err(_) => 1,
            }
        }
        "probe-ladder" => {
            limit_mem(1 << 30);
            install_hook();
            let n: u32 = a[1].parse().unwrap();
            match in_thread(8 << 10, || props_cf::probe_ladder(n)) {
                Ok(()) => 0,
                Err(_) => 1,
            }
        }
        "replay" if a.len() == 2 => replay(&a[1]),
        "list" => {
            for p in PROPS {
                for x in arms(p).unwrap() {
                    println!("{} {}", p, x.name);
                }
            }
            0
        }
        _ => {
            let _ = writeln!(std::io::stderr(), "usage: vharness check ID quick|thorough | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
