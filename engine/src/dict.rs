//! Dictionary of interesting integers and byte strings: built-in ones, literals harvested from
//! the sources under test (workload bias only, never part of an oracle) and constants the
//! instrumented code was seen comparing against.
use std::sync::{OnceLock, RwLock};

#[derive(Default, Clone, Debug)]
pub struct Dict {
    pub ints: Vec<u32>,
    pub strs: Vec<Vec<u8>>,
}

static DICT: OnceLock<RwLock<Dict>> = OnceLock::new();

fn cell() -> &'static RwLock<Dict> {
    DICT.get_or_init(|| {
        let mut d = Dict::default();
        d.ints = vec![
            1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128,
            129, 200, 254, 255, 256, 257, 499, 500, 505, 506, 507, 508, 510, 511, 512, 513, 998,
            999, 1000, 1001, 1011, 1012, 1013, 1022, 1023, 1024, 1025, 1518, 1519, 2047, 2048,
            2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537,
        ];
        RwLock::new(d)
    })
}

/// File format: lines `i <decimal>` and `s <hex>`
pub fn load(path: &str) {
    let Ok(t) = std::fs::read_to_string(path) else { return };
    let mut d = cell().write().unwrap();
    for l in t.lines() {
        if let Some(n) = l.strip_prefix("i ") {
            if let Ok(n) = n.trim().parse::<u32>() {
                for k in [n.saturating_sub(1), n, n.saturating_add(1)] {
                    if k <= 100_000 && !d.ints.contains(&k) {
                        d.ints.push(k);
                    }
                }
            }
            d.ints.sort_unstable();
        } else if let Some(h) = l.strip_prefix("s ") {
            let h = h.trim().as_bytes();
            let mut v = vec![];
            for p in h.chunks(2) {
                if p.len() == 2 {
                    if let Ok(x) = u8::from_str_radix(std::str::from_utf8(p).unwrap_or("00"), 16) {
                        v.push(x)
                    }
                }
            }
            if !v.is_empty() && !d.strs.contains(&v) {
                d.strs.push(v);
            }
        }
    }
}

pub fn add_int(n: u32) {
    let mut d = cell().write().unwrap();
    if d.ints.len() < 4000 && !d.ints.contains(&n) {
        d.ints.push(n);
        d.ints.sort_unstable();
    }
}

pub fn with<R>(f: impl FnOnce(&Dict) -> R) -> R {
    f(&cell().read().unwrap())
}
