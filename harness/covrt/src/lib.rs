//! Receives what LLVM's coverage instrumentation reports. This crate itself is not instrumented.
//!
//! Used only to choose which generated inputs are worth giving to the specification; verdicts never depend on it.
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

const R: usize = 64;
static STARTS: [AtomicUsize; R] = [const { AtomicUsize::new(0) }; R];
static ENDS: [AtomicUsize; R] = [const { AtomicUsize::new(0) }; R];
static NR: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);

const BITS: usize = 18;
pub const CMPS: usize = 1 << BITS;
static CMP: [AtomicU8; 1 << BITS] = [const { AtomicU8::new(0) }; 1 << BITS];
static LIST: [AtomicUsize; 1 << 15] = [const { AtomicUsize::new(0) }; 1 << 15];
static NL: AtomicUsize = AtomicUsize::new(0);
const DICT: usize = 2048;
static CONSTS: [AtomicU64; DICT] = [const { AtomicU64::new(0) }; DICT];
static ND: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: usize, b: usize) {
    let n = NR.load(Relaxed);
    if a == b || n == R || (0..n).any(|i| STARTS[i].load(Relaxed) == a) {
        return;
    }
    STARTS[n].store(a, Relaxed);
    ENDS[n].store(b, Relaxed);
    NR.store(n + 1, Relaxed);
}
#[inline(always)]
fn touch(pc: usize, k: u64) {
    let h = (((pc - base()) as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ k.wrapping_mul(0xD1B54A32D192ED03)).wrapping_mul(0xBF58476D1CE4E5B9) >> (64 - BITS);
    let h = h as usize;
    if CMP[h].load(Relaxed) == 0 {
        CMP[h].store(1, Relaxed);
        let n = NL.load(Relaxed);
        if n < LIST.len() {
            LIST[n].store(h, Relaxed);
            NL.store(n + 1, Relaxed);
        }
    }
}
#[inline(always)]
fn learn(c: u64) {
    if c < 2 || c > 0x11_0000 {
        return;
    }
    let mut i = (c.wrapping_mul(0x9E3779B97F4A7C15) >> 53) as usize % DICT;
    for _ in 0..8 {
        let x = CONSTS[i].load(Relaxed);
        if x == c {
            return;
        }
        if x == 0 {
            CONSTS[i].store(c, Relaxed);
            ND.store(ND.load(Relaxed) + 1, Relaxed);
            return;
        }
        i = (i + 1) % DICT;
    }
}
fn base() -> usize {
    __sanitizer_cov_8bit_counters_init as *const () as usize
}
#[no_mangle]
extern "C" fn covrt_cmp(a: u64, b: u64, pc: usize) {
    if ON.load(Relaxed) {
        touch(pc.wrapping_add(1), a.abs_diff(b).leading_zeros() as u64);
    }
}
#[no_mangle]
extern "C" fn covrt_const_cmp(c: u64, b: u64, pc: usize) {
    if ON.load(Relaxed) {
        learn(c);
        touch(pc, c.abs_diff(b).leading_zeros() as u64);
    }
}
#[no_mangle]
extern "C" fn covrt_switch(v: u64, t: *const u64, pc: usize) {
    if !ON.load(Relaxed) {
        return;
    }
    // safety: the table starts with the number of cases and the width of the value
    unsafe {
        let n = *t as usize;
        let (mut best, mut at) = (u64::MAX, 0);
        for i in 0..n {
            let c = *t.add(2 + i);
            learn(c);
            let d = c.abs_diff(v);
            if d < best {
                best = d;
                at = i;
            }
        }
        touch(pc, 100 + 100 * at as u64 + best.leading_zeros() as u64);
    }
}
// the entry points widen the operands and add the address of the caller as third argument
macro_rules! entry {
    ($name:literal, $target:literal, $x:literal, $y:literal) => {
        std::arch::global_asm!(
            concat!(".globl ", $name),
            concat!($name, ":"),
            $x,
            $y,
            "mov rdx, [rsp]",
            concat!("jmp ", $target),
        );
    };
}
entry!("__sanitizer_cov_trace_cmp1", "covrt_cmp", "movzx edi, dil", "movzx esi, sil");
entry!("__sanitizer_cov_trace_cmp2", "covrt_cmp", "movzx edi, di", "movzx esi, si");
entry!("__sanitizer_cov_trace_cmp4", "covrt_cmp", "mov edi, edi", "mov esi, esi");
entry!("__sanitizer_cov_trace_cmp8", "covrt_cmp", "", "");
entry!("__sanitizer_cov_trace_const_cmp1", "covrt_const_cmp", "movzx edi, dil", "movzx esi, sil");
entry!("__sanitizer_cov_trace_const_cmp2", "covrt_const_cmp", "movzx edi, di", "movzx esi, si");
entry!("__sanitizer_cov_trace_const_cmp4", "covrt_const_cmp", "mov edi, edi", "mov esi, esi");
entry!("__sanitizer_cov_trace_const_cmp8", "covrt_const_cmp", "", "");
entry!("__sanitizer_cov_trace_switch", "covrt_switch", "", "");
extern "C" {
    fn __sanitizer_cov_trace_cmp4();
}
/// Keeps the assembly in the program.
pub fn entry() -> usize {
    __sanitizer_cov_trace_cmp4 as *const () as usize
}

fn regions() -> impl Iterator<Item = (usize, usize)> {
    (0..NR.load(Relaxed)).map(|i| (STARTS[i].load(Relaxed), ENDS[i].load(Relaxed)))
}
pub fn counters() -> usize {
    regions().map(|(a, b)| b - a).sum()
}
/// Starts observing one run.
pub fn start() {
    for (a, b) in regions() {
        // safety: the linker's section of counters
        unsafe { std::ptr::write_bytes(a as *mut u8, 0, b - a) }
    }
    let n = NL.load(Relaxed);
    for x in &LIST[..n] {
        CMP[x.load(Relaxed)].store(0, Relaxed);
    }
    NL.store(0, Relaxed);
    ON.store(true, Relaxed);
}
pub fn stop() {
    ON.store(false, Relaxed);
}
/// Edges taken, with how often (in powers of two), and comparisons made, with how near they were.
pub fn features(mut f: impl FnMut(usize, Option<u8>)) {
    let mut at = 0;
    for (a, b) in regions() {
        let n = b - a;
        let p = a as *const u8;
        let mut i = 0;
        while i < n {
            // safety: within the section
            unsafe {
                if i + 8 <= n && (p.add(i) as *const u64).read_unaligned() == 0 {
                    i += 8;
                    continue;
                }
                let c = p.add(i).read();
                if c != 0 {
                    f(at + i, Some((8 - c.leading_zeros()) as u8 - 1));
                }
            }
            i += 1;
        }
        at += n;
    }
    for x in &LIST[..NL.load(Relaxed)] {
        f(x.load(Relaxed), None);
    }
}
/// Constants the program compared something with.
pub fn constants() -> Vec<u64> {
    let mut v: Vec<u64> = CONSTS.iter().map(|x| x.load(Relaxed)).filter(|x| *x != 0).collect();
    v.sort();
    v
}
