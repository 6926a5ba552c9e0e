pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed ^ 0xA5A5_5A5A_1234_5678;
        splitmix(&mut s);
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        splitmix(&mut self.0)
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.u32() % den < num
    }
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = fnv(0xcbf2_9ce4_8422_2325, b);
    h ^= h >> 32;
    h.wrapping_mul(0x9E37_79B9_7F4A_7C15)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.rotate_left(23).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut s)
}

/// Printable rendering of bytes (escaped, bounded)
pub fn show(b: &[u8]) -> String {
    let mut r = String::new();
    let cut = b.len() > 600;
    let b2 = if cut { &b[..600] } else { b };
    for &c in b2 {
        for e in std::ascii::escape_default(c) {
            r.push(e as char);
        }
    }
    if cut {
        r.push_str(&format!("...[{} bytes]", b.len()));
    }
    r
}

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
