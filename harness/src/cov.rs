//! Coverage counters and comparison callbacks. They stay silent unless the code
//! under test was compiled with them (see `check`: the guided build). A process
//! runs one guided search, so the counters are the process's own.

use std::cell::Cell;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::Mutex;

/// Counter areas of the instrumented code: start and length.
static AREAS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());
pub const VP: usize = 1 << 18;
const MAX_CMP: usize = 4096;

/// What the running case compared.
pub struct Cmps {
    /// comparison features: hash of place and distance
    pub near: Vec<u32>,
    seen: Vec<u64>,
    pub pairs: Vec<(u64, u64)>,
}
static CMPS: AtomicPtr<Cmps> = AtomicPtr::new(null_mut());

thread_local! {
    /// set on the thread that runs the case
    static ON: Cell<bool> = const { Cell::new(false) };
}

pub fn guards() -> usize {
    AREAS.lock().unwrap().iter().map(|a| a.1).sum()
}
pub fn start() -> &'static mut Cmps {
    let c = Box::leak(Box::new(Cmps { near: Vec::with_capacity(1 << 16), seen: vec![0; VP / 64], pairs: Vec::with_capacity(MAX_CMP) }));
    CMPS.store(c, Ordering::SeqCst);
    c
}
/// Run a case with all counters at zero before it.
pub fn with<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|c| c.set(false));
        }
    }
    for (a, n) in AREAS.lock().unwrap().iter() {
        unsafe { std::ptr::write_bytes(*a as *mut u8, 0, *n) };
    }
    let c = unsafe { &mut *CMPS.load(Ordering::Relaxed) };
    for v in c.near.drain(..) {
        c.seen[v as usize / 64] = 0;
    }
    c.pairs.clear();
    let _off = Off;
    ON.with(|c| c.set(true));
    f()
}
/// Every counter that is not zero.
pub fn counts(mut f: impl FnMut(usize, u8)) {
    let mut at = 0;
    for (a, n) in AREAS.lock().unwrap().iter() {
        let s = unsafe { std::slice::from_raw_parts(*a as *const u8, *n) };
        for (k, c) in s.chunks(8).enumerate() {
            if c.iter().any(|x| *x != 0) {
                for (j, x) in c.iter().enumerate() {
                    if *x != 0 {
                        f(at + k * 8 + j, *x);
                    }
                }
            }
        }
        at += n;
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let mut g = AREAS.lock().unwrap();
    let a = (start as usize, stop as usize - start as usize);
    if a.1 > 0 && !g.contains(&a) {
        g.push(a);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

extern "C" fn on_cmp(a: u64, b: u64, place: usize) {
    // Code compiled once may serve the code under test and this file: a
    // callback that comes from within a callback is not the case's.
    if !ON.with(|c| c.replace(false)) {
        return;
    }
    let m = unsafe { &mut *CMPS.load(Ordering::Relaxed) };
    // how far apart
    let far = 64 - a.abs_diff(b).leading_zeros();
    let h = ((place as u32).wrapping_mul(0x9E37_79B1) ^ far.wrapping_mul(0x85EB_CA6B)).wrapping_mul(0xC2B2_AE35) >> 14;
    let (w, bit) = (h as usize % VP / 64, 1u64 << (h % 64));
    if m.seen[w] & bit == 0 {
        m.seen[w] |= bit;
        m.near.push(h);
        if a != b && m.pairs.len() < MAX_CMP {
            m.pairs.push((a, b));
        }
    } else if a != b && m.pairs.len() < MAX_CMP / 2 && (a > 3 || b > 3) && m.pairs.last() != Some(&(a, b)) {
        m.pairs.push((a, b));
    }
    ON.with(|c| c.set(true));
}
/// cases[0]: how many, cases[1]: bits of the value, then the case values
extern "C" fn on_switch(v: u64, cases: *const u64, place: usize) {
    let list = unsafe { std::slice::from_raw_parts(cases.add(2), *cases as usize) };
    // the nearest cases only
    let k = list.partition_point(|x| *x < v);
    for i in [k.wrapping_sub(1), k] {
        if i < list.len() && list[i] != v {
            on_cmp(list[i], v, place);
        }
    }
}

// The callbacks proper: both values, and the place they were called from.
#[cfg(target_arch = "x86_64")]
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_cmp1",
    ".globl __sanitizer_cov_trace_const_cmp1",
    "__sanitizer_cov_trace_cmp1:",
    "__sanitizer_cov_trace_const_cmp1:",
    "movzx edi, dil",
    "movzx esi, sil",
    "mov rdx, [rsp]",
    "jmp {f}",
    ".globl __sanitizer_cov_trace_cmp2",
    ".globl __sanitizer_cov_trace_const_cmp2",
    "__sanitizer_cov_trace_cmp2:",
    "__sanitizer_cov_trace_const_cmp2:",
    "movzx edi, di",
    "movzx esi, si",
    "mov rdx, [rsp]",
    "jmp {f}",
    ".globl __sanitizer_cov_trace_cmp4",
    ".globl __sanitizer_cov_trace_const_cmp4",
    "__sanitizer_cov_trace_cmp4:",
    "__sanitizer_cov_trace_const_cmp4:",
    "mov edi, edi",
    "mov esi, esi",
    "mov rdx, [rsp]",
    "jmp {f}",
    ".globl __sanitizer_cov_trace_cmp8",
    ".globl __sanitizer_cov_trace_const_cmp8",
    "__sanitizer_cov_trace_cmp8:",
    "__sanitizer_cov_trace_const_cmp8:",
    "mov rdx, [rsp]",
    "jmp {f}",
    ".globl __sanitizer_cov_trace_switch",
    "__sanitizer_cov_trace_switch:",
    "mov rdx, [rsp]",
    "jmp {g}",
    f = sym on_cmp,
    g = sym on_switch,
);
