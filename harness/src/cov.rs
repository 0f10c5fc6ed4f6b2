//! Which parts of the code under test a case reached, when that is built to tell: see
//! `../guided.sh`. Reports what's new only.

use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed};

static BEGIN: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static END: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static FRESH: AtomicBool = AtomicBool::new(false);

const BITS: usize = 1 << 20;
static SEEN: [AtomicU64; BITS / 64] = [const { AtomicU64::new(0) }; BITS / 64];

static KNOWN: [AtomicU64; 1024] = [const { AtomicU64::new(0) }; 1024];
static KNOWN_LEN: AtomicUsize = AtomicUsize::new(0);

/// The larger constants that something was compared to.
pub fn constants() -> Vec<u64> {
    KNOWN[..KNOWN_LEN.load(Relaxed)].iter().map(|x| x.load(Relaxed)).collect()
}

#[cfg(guided)]
extern "C" fn compared_const(a: u64, b: u64, at: usize) {
    if a > 255 {
        let n = KNOWN_LEN.load(Relaxed);
        if n < KNOWN.len() && !KNOWN[..n].iter().any(|x| x.load(Relaxed) == a) {
            KNOWN[n].store(a, Relaxed);
            KNOWN_LEN.store(n + 1, Relaxed);
        }
    }
    compared(a, b, at);
}

/// counters of the edges of the code, one byte each
#[cfg(guided)]
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_8bit_counters_init(begin: *mut u8, end: *mut u8) {
    BEGIN.store(begin, Relaxed);
    END.store(end, Relaxed);
}

/// how far apart what's compared somewhere was
#[cfg(guided)]
extern "C" fn compared(a: u64, b: u64, at: usize) {
    let d = a.abs_diff(b);
    let d = if d < 16 { d } else { 80 - u64::from(d.leading_zeros()) };
    note(at.wrapping_sub(compared as *const () as usize) as u64, d);
}

#[cfg(guided)]
extern "C" fn switched(v: u64, cases: *const u64, at: usize) {
    // SAFETY: a count, the width, and as many values
    let cases = unsafe { std::slice::from_raw_parts(cases.add(2), *cases as usize) };
    let at = at.wrapping_sub(compared as *const () as usize) as u64;
    // the nearest one, and how far off
    if let Some((i, d)) = cases.iter().map(|c| c.abs_diff(v)).enumerate().min_by_key(|x| x.1) {
        note(at ^ ((i as u64) << 40), d.min(4));
    }
}

#[cfg(guided)]
fn note(at: u64, d: u64) {
    let h = crate::eng::mix(at, d) as usize % BITS;
    let (w, b) = (&SEEN[h / 64], 1u64 << (h % 64));
    let old = w.load(Relaxed);
    if old & b == 0 {
        w.store(old | b, Relaxed);
        FRESH.store(true, Relaxed);
    }
}

#[cfg(guided)]
mod stubs {
    // the place of the comparison is where the call returns to
    macro_rules! stub {
        ($name:ident, $($widen:literal),*; $to:ident) => {
            #[unsafe(naked)]
            #[unsafe(no_mangle)]
            extern "C" fn $name() {
                std::arch::naked_asm!($($widen,)* "mov rdx, [rsp]", "jmp {}", sym super::$to)
            }
        };
    }
    stub!(__sanitizer_cov_trace_const_cmp1, "movzx edi, dil", "movzx esi, sil"; compared_const);
    stub!(__sanitizer_cov_trace_const_cmp2, "movzx edi, di", "movzx esi, si"; compared_const);
    stub!(__sanitizer_cov_trace_const_cmp4, "mov edi, edi", "mov esi, esi"; compared_const);
    stub!(__sanitizer_cov_trace_const_cmp8, ; compared_const);
    stub!(__sanitizer_cov_trace_cmp1, "movzx edi, dil", "movzx esi, sil"; compared);
    stub!(__sanitizer_cov_trace_cmp2, "movzx edi, di", "movzx esi, si"; compared);
    stub!(__sanitizer_cov_trace_cmp4, "mov edi, edi", "mov esi, esi"; compared);
    stub!(__sanitizer_cov_trace_cmp8, ; compared);
    stub!(__sanitizer_cov_trace_switch, ; switched);
}

/// whether the code under test tells
pub const ON: bool = cfg!(guided);

/// Begins anew.
pub fn reset() {
    for_each(|_, c| *c = 0);
    FRESH.store(false, Relaxed);
}

/// Whether anything was reached, or as often, or with values as close, that wasn't before.
pub fn fresh() -> bool {
    let mut new = FRESH.load(Relaxed);
    for_each(|i, c| {
        let often = match *c {
            0..=3 => u64::from(*c),
            4..=7 => 4,
            8..=15 => 5,
            16..=31 => 6,
            32..=127 => 7,
            _ => 8,
        };
        let h = crate::eng::mix(!(i as u64), often) as usize % BITS;
        let (w, b) = (&SEEN[h / 64], 1u64 << (h % 64));
        let old = w.load(Relaxed);
        if old & b == 0 {
            w.store(old | b, Relaxed);
            new = true;
        }
    });
    new
}

/// all counters which aren't zero
fn for_each(mut f: impl FnMut(usize, &mut u8)) {
    let begin = BEGIN.load(Relaxed);
    if begin.is_null() {
        return;
    }
    let n = END.load(Relaxed) as usize - begin as usize;
    // SAFETY: what the code under test was built with; it isn't running
    let all = unsafe { std::slice::from_raw_parts_mut(begin, n) };
    for (k, group) in all.chunks_mut(32).enumerate() {
        if group.iter().fold(0, |a, b| a | b) == 0 {
            continue;
        }
        for (j, c) in group.iter_mut().enumerate() {
            if *c != 0 {
                f(k * 32 + j, c);
            }
        }
    }
}
