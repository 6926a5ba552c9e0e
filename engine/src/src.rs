//! Choice source: every generator draws its decisions from a tape of u32, either fresh from a
//! PRNG (and recorded) or replayed/mutated.
use crate::util::Rng;

pub struct Src {
    pub tape: Vec<u32>,
    pub pos: usize,
    rng: Option<Rng>,
    /// overall size factor: how big generated things may get (0 = small, 3 = huge)
    pub scale: u32,
}

pub const MAX_TAPE: usize = 400_000;

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), scale: 1 }
    }
    pub fn replay(tape: Vec<u32>) -> Src {
        Src { tape, pos: 0, rng: None, scale: 1 }
    }
    /// Replays `tape`, then goes on with fresh choices (used by the mutator)
    pub fn prefix(tape: Vec<u32>, seed: u64) -> Src {
        Src { tape, pos: 0, rng: Some(Rng::new(seed)), scale: 1 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos]
        } else if let Some(r) = &mut self.rng {
            let v = r.u32();
            if self.tape.len() < MAX_TAPE {
                self.tape.push(v);
            }
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (self.raw() as u64 % n as u64) as usize
    }
    /// true with probability num/den; choice 0 means false
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.raw() % den >= den - num
    }
    pub fn byte(&mut self) -> u8 {
        self.raw() as u8
    }
    pub fn seed(&mut self) -> u64 {
        let a = self.raw() as u64;
        let b = self.raw() as u64;
        a << 32 | b
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// A size: mostly tiny, sometimes one of the dictionary's integers, at most `max`
    pub fn size(&mut self, max: usize) -> usize {
        match self.below(8) {
            0..=3 => self.below(4.min(max + 1)),
            4 | 5 => self.below(17.min(max + 1)),
            6 => self.below(80.min(max + 1)),
            _ => self.dict_int(max),
        }
    }
    /// Next tape entry; a fresh one is made by `f` (so that the tape holds the value itself)
    fn raw_or(&mut self, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos]
        } else if let Some(r) = &mut self.rng {
            let v = f(r);
            if self.tape.len() < MAX_TAPE {
                self.tape.push(v);
            }
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }
    pub fn dict_int(&mut self, max: usize) -> usize {
        let v = self.raw_or(|r| {
            let k = r.u64() as usize;
            crate::dict::with(|d| {
                let n = d.ints.partition_point(|&x| (x as usize) <= max);
                if n == 0 {
                    0
                } else {
                    d.ints[k % n]
                }
            })
        });
        if v as usize <= max {
            v as usize
        } else {
            v as usize % (max + 1)
        }
    }
    pub fn dict_str(&mut self) -> Vec<u8> {
        let mut chosen: Vec<u8> = vec![];
        let n = {
            let c = &mut chosen;
            self.raw_or(|r| {
                let k = r.u64() as usize;
                crate::dict::with(|d| {
                    if !d.strs.is_empty() {
                        *c = d.strs[k % d.strs.len()].clone();
                        c.truncate(63);
                    }
                });
                c.len() as u32
            }) % 64
        };
        (0..n as usize).map(|i| self.raw_or(|_| chosen.get(i).cloned().unwrap_or(0) as u32) as u8).collect()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        // long strings use one seed rather than one choice per byte
        if n > 64 {
            let mut r = Rng::new(self.seed());
            (0..n).map(|_| r.u32() as u8).collect()
        } else {
            (0..n).map(|_| self.byte()).collect()
        }
    }
    pub fn from_alphabet(&mut self, n: usize, a: &[u8]) -> Vec<u8> {
        if n > 64 {
            let mut r = Rng::new(self.seed());
            (0..n).map(|_| a[r.below(a.len())]).collect()
        } else {
            (0..n).map(|_| a[self.below(a.len())]).collect()
        }
    }
}
