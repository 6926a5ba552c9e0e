//! SanitizerCoverage runtime: inline 8-bit edge counters and comparison tracing of the crates
//! under test (the rustc wrapper instruments only those).  Used as feedback for workload
//! generation and reported as evidence of what the monitors saw; never decides a verdict.
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering::Relaxed};

static START: [AtomicPtr<u8>; 64] = [const { AtomicPtr::new(std::ptr::null_mut()) }; 64];
static LEN: [AtomicUsize; 64] = [const { AtomicUsize::new(0) }; 64];
static N: AtomicUsize = AtomicUsize::new(0);
pub static VALUE_PROFILE: AtomicBool = AtomicBool::new(false);
const VP: usize = 1 << 16;
static mut VPBITS: [u8; VP] = [0; VP];
static mut VPDIRTY: [u32; 4096] = [0; 4096];
static mut VPN: usize = 0;

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let n = N.load(Relaxed);
    for i in 0..n {
        if START[i].load(Relaxed) == start {
            return;
        }
    }
    if n < 64 && start != stop {
        START[n].store(start, Relaxed);
        LEN[n].store(stop as usize - start as usize, Relaxed);
        N.store(n + 1, Relaxed);
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_a: *const usize, _b: *const usize) {}

#[inline]
fn cmp(pc: usize, a: u64, b: u64) {
    if !VALUE_PROFILE.load(Relaxed) {
        return;
    }
    // |a-b| magnitude and hamming distance, per comparison site (libFuzzer's value profile)
    let ham = (a ^ b).count_ones() as usize;
    let dist = 64 - a.wrapping_sub(b).leading_zeros() as usize;
    let i = (pc.wrapping_mul(0x9E37_79B9) >> 3).wrapping_add(ham * 131).wrapping_add(dist * 7919) % VP;
    // SAFETY: the guided phase is single threaded (one worker thread per process); the flag is
    // off everywhere else.
    unsafe {
        if VPBITS[i] == 0 && VPN < 4096 {
            VPBITS[i] = 1;
            VPDIRTY[VPN] = i as u32;
            VPN += 1;
        }
    }
}
fn konst(a: u64) {
    if VALUE_PROFILE.load(Relaxed) && a > 1 && a <= 70_000 {
        unsafe {
            let s = a as usize;
            if SEEN[s / 8] & (1 << (s % 8)) == 0 {
                SEEN[s / 8] |= 1 << (s % 8);
                if CONSTN < 512 {
                    CONSTS[CONSTN] = a as u32;
                    CONSTN += 1;
                }
            }
        }
    }
}
static mut SEEN: [u8; 9000] = [0; 9000];
static mut CONSTS: [u32; 512] = [0; 512];
static mut CONSTN: usize = 0;

macro_rules! ret_pc {
    ($a:expr) => {
        // no portable return address: use the constant operand as site discriminator
        ($a as usize).wrapping_mul(31)
    };
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(a: u8, b: u8) {
    cmp(ret_pc!(1), a as u64, b as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(a: u16, b: u16) {
    cmp(ret_pc!(2), a as u64, b as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(a: u32, b: u32) {
    cmp(ret_pc!(3), a as u64, b as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(a: u64, b: u64) {
    cmp(ret_pc!(4), a, b)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(a: u8, b: u8) {
    cmp(ret_pc!(a) + 5, a as u64, b as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, b: u16) {
    konst(a as u64);
    cmp(ret_pc!(a) + 6, a as u64, b as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, b: u32) {
    konst(a as u64);
    cmp(ret_pc!(a) + 7, a as u64, b as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, b: u64) {
    konst(a);
    cmp(ret_pc!(a) + 8, a, b)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    if !VALUE_PROFILE.load(Relaxed) {
        return;
    }
    let n = *cases as usize;
    for i in 0..n.min(64) {
        let c = *cases.add(2 + i);
        konst(c);
        cmp(ret_pc!(c) + 9, c, v);
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_div4(_: u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_div8(_: u64) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_indir(_: usize) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_gep(_: usize) {}

pub fn total_edges() -> usize {
    (0..N.load(Relaxed)).map(|i| LEN[i].load(Relaxed)).sum()
}

pub fn reset() {
    for i in 0..N.load(Relaxed) {
        unsafe { std::ptr::write_bytes(START[i].load(Relaxed), 0, LEN[i].load(Relaxed)) }
    }
    unsafe {
        for k in 0..VPN {
            VPBITS[VPDIRTY[k] as usize] = 0;
        }
        VPN = 0;
    }
}

/// New constants seen in comparisons since the last call
pub fn take_consts() -> Vec<u32> {
    unsafe {
        let v = CONSTS[..CONSTN].to_vec();
        CONSTN = 0;
        v
    }
}

/// Accumulated coverage map
pub struct Map {
    seen: Vec<u8>,
    vp: Vec<u8>,
    pub edges: usize,
    pub features: usize,
}

impl Map {
    pub fn new() -> Map {
        Map { seen: vec![0; total_edges()], vp: vec![0; VP], edges: 0, features: 0 }
    }
    /// Merges the counters of the last run; returns how many new features were seen
    pub fn merge(&mut self) -> usize {
        let mut new = 0;
        let mut off = 0;
        for i in 0..N.load(Relaxed) {
            let l = LEN[i].load(Relaxed);
            let p = START[i].load(Relaxed);
            let s = unsafe { std::slice::from_raw_parts(p, l) };
            for (j, &c) in s.iter().enumerate() {
                if c == 0 {
                    continue;
                }
                let b: u8 = match c {
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                let o = &mut self.seen[off + j];
                if *o & b == 0 {
                    if *o == 0 {
                        self.edges += 1;
                    }
                    *o |= b;
                    new += 1;
                }
            }
            off += l;
        }
        unsafe {
            for k in 0..VPN {
                let i = VPDIRTY[k] as usize;
                if self.vp[i] == 0 {
                    self.vp[i] = 1;
                    new += 1;
                }
            }
        }
        self.features += new;
        new
    }
    pub fn edge_bitmap(&self) -> Vec<u8> {
        self.seen.iter().map(|&x| (x != 0) as u8).collect()
    }
}
