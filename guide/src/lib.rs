//! What the instrumentation of a guided build (see check.py, `b_guided`) calls, and what one execution reached.
//! This crate itself is not instrumented. In other builds nothing calls it.
use std::arch::global_asm;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

const CMP: usize = 1 << 21;
const LOG: usize = 256;

struct State {
    counters: Vec<(*mut u8, usize)>,
    /// Values of counters seen in earlier executions, as a set of eight ranges per counter.
    seen: Vec<u8>,
    /// Comparisons: nearness seen in earlier executions / when last seen in the current one.
    cmp_seen: Vec<bool>,
    cmp_now: Vec<u32>,
    touched: Vec<u32>,
    gen: u32,
    log: [(u64, u64); LOG],
    logged: usize,
}
static mut STATE: Option<State> = None;
static ON: AtomicBool = AtomicBool::new(false);

#[allow(static_mut_refs)]
fn st() -> &'static mut State {
    unsafe {
        STATE.get_or_insert_with(|| State {
            counters: vec![],
            seen: vec![],
            cmp_seen: vec![],
            cmp_now: vec![],
            touched: vec![],
            gen: 0,
            log: [(0, 0); LOG],
            logged: 0,
        })
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let n = stop as usize - start as usize;
    let s = st();
    if n > 0 && !s.counters.iter().any(|c| c.0 == start) {
        s.counters.push((start, n));
    }
}

#[no_mangle]
extern "C" fn guide_cmp(a: u64, b: u64, pc: usize, is_const: u64) {
    if !ON.load(Relaxed) {
        return;
    }
    let s = st();
    let h = (pc as u64).wrapping_mul(0x9e3779b97f4a7c15) >> 50;
    let near = (a ^ b).count_ones() as u64;
    let far = 64 - a.abs_diff(b).leading_zeros() as u64;
    for f in [near.min(63), 64 + far.min(63)] {
        let i = (h << 7 | f) as usize;
        if s.cmp_now[i] != s.gen {
            s.cmp_now[i] = s.gen;
            s.touched.push(i as u32);
        }
    }
    if is_const != 0 && a != b && a > 1 {
        s.log[s.logged % LOG] = (a, b);
        s.logged += 1;
    }
}

#[no_mangle]
unsafe extern "C" fn guide_switch(v: u64, cases: *const u64, pc: usize) {
    if !ON.load(Relaxed) {
        return;
    }
    let n = (*cases as usize).min(300);
    for i in 0..n {
        guide_cmp(*cases.add(2 + i), v, pc + i, 1);
    }
}

global_asm!(
    ".macro stub name, size, konst",
    ".globl __sanitizer_cov_trace_\\name",
    "__sanitizer_cov_trace_\\name:",
    ".if \\size == 1",
    "movzx edi, dil",
    "movzx esi, sil",
    ".endif",
    ".if \\size == 2",
    "movzx edi, di",
    "movzx esi, si",
    ".endif",
    ".if \\size == 4",
    "mov edi, edi",
    "mov esi, esi",
    ".endif",
    "mov rdx, [rsp]",
    "mov ecx, \\konst",
    "jmp guide_cmp",
    ".endm",
    "stub cmp1, 1, 0",
    "stub cmp2, 2, 0",
    "stub cmp4, 4, 0",
    "stub cmp8, 8, 0",
    "stub const_cmp1, 1, 1",
    "stub const_cmp2, 2, 1",
    "stub const_cmp4, 4, 1",
    "stub const_cmp8, 8, 1",
    ".globl __sanitizer_cov_trace_switch",
    "__sanitizer_cov_trace_switch:",
    "mov rdx, [rsp]",
    "jmp guide_switch",
);

/// Whether this build is instrumented.
pub fn active() -> bool {
    !st().counters.is_empty()
}

/// Runs `f` and says how many things it reached that no earlier call had.
pub fn observe<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let s = st();
    if s.seen.is_empty() {
        s.seen = vec![0; s.counters.iter().map(|c| c.1).sum()];
        s.cmp_seen = vec![false; CMP];
        s.cmp_now = vec![0; CMP];
    }
    s.gen += 1;
    s.touched.clear();
    s.logged = 0;
    for &(p, n) in &s.counters {
        unsafe { std::ptr::write_bytes(p, 0, n) };
    }
    ON.store(true, Relaxed);
    let r = f();
    ON.store(false, Relaxed);
    let s = st();
    let mut new = 0;
    let mut base = 0;
    for &(p, n) in &s.counters {
        let c = unsafe { std::slice::from_raw_parts(p, n) };
        for (i, &v) in c.iter().enumerate() {
            if v != 0 {
                let bit = match v {
                    1..=3 => 1 << (v - 1),
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128u8,
                };
                if s.seen[base + i] & bit == 0 {
                    s.seen[base + i] |= bit;
                    new += 1;
                }
            }
        }
        base += n;
    }
    for &t in &s.touched {
        if !s.cmp_seen[t as usize] {
            s.cmp_seen[t as usize] = true;
            new += 1;
        }
    }
    (r, new)
}

/// Constants compared with something else in the last execution: (constant, what it was compared with).
pub fn compared() -> &'static [(u64, u64)] {
    let s = st();
    &s.log[..s.logged.min(LOG)]
}

/// (counters reached at least once, counters)
pub fn reached() -> (u64, u64) {
    let s = st();
    (s.seen.iter().filter(|x| **x != 0).count() as u64, s.seen.len() as u64)
}
