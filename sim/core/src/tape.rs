//! Choice tapes: every decision of a run is a draw from one of three tapes
//! (generation, scheduling, faults). In generate mode the tape is filled from a PRNG that is a
//! pure function of the run's seed; in replay mode it is read back. By convention the value 0 is
//! the simplest choice (first ready task, no delay, no fault), so a minimiser can cut and lower
//! tapes without knowing what they mean.

#[derive(Clone)]
pub struct Prng(u64);

impl Prng {
    pub fn new(seed: u64) -> Self {
        Self(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut p = Prng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    p.next();
    p.next() ^ b
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

#[derive(Clone)]
pub struct Tape {
    prng: Option<Prng>,
    pub data: Vec<u64>,
    pos: usize,
}

impl Tape {
    pub fn generate(seed: u64) -> Self {
        Self {
            prng: Some(Prng::new(seed)),
            data: Vec::new(),
            pos: 0,
        }
    }

    pub fn replay(data: Vec<u64>) -> Self {
        Self {
            prng: None,
            data,
            pos: 0,
        }
    }

    pub fn used(&self) -> usize {
        self.pos
    }

    /// A value in `0..n` (n = 0 means the full 64-bit range).
    pub fn choose(&mut self, n: u64) -> u64 {
        let v = match &mut self.prng {
            Some(p) => {
                let r = p.next();
                let v = if n == 0 { r } else { r % n };
                self.data.push(v);
                v
            }
            None => {
                let r = self.data.get(self.pos).copied().unwrap_or(0);
                if n == 0 {
                    r
                } else {
                    r % n
                }
            }
        };
        self.pos += 1;
        v
    }
}
