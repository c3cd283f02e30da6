//! The choice tape: every decision of a simulated run is one draw from here.
//!
//! While searching, draws come from a splitmix64 stream seeded by the run seed and are recorded;
//! on replay they come from the recorded tape (0, the simplest choice, past its end).

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut s);
    splitmix(&mut s)
}

static mut MIRROR: (usize, usize) = (0, 0);
/// Where the choices of the current run are also kept, for the parent to read if the worker dies.
pub fn set_mirror(p: usize, n: usize) {
    unsafe { MIRROR = (p, n) };
}
fn mirror(pos: usize, v: u32) {
    unsafe {
        let (p, n) = MIRROR;
        if p != 0 && pos + 1 < n {
            let p = p as *mut u32;
            *p.add(pos + 1) = v;
            *p = pos as u32 + 1;
        }
    }
}

pub struct Tape {
    rng: Option<u64>,
    pub vals: Vec<u32>,
    pub pos: usize,
}

impl Tape {
    pub fn from_seed(seed: u64) -> Tape {
        Tape { rng: Some(seed), vals: Vec::new(), pos: 0 }
    }
    pub fn from_vals(vals: Vec<u32>) -> Tape {
        Tape { rng: None, vals, pos: 0 }
    }
    /// One choice in 0..n; 0 is the simplest.
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match self.rng.as_mut() {
            Some(s) => {
                let v = ((splitmix(s) >> 32) * n as u64 >> 32) as u32;
                mirror(self.vals.len(), v);
                self.vals.push(v);
                v
            }
            None => {
                let v = if self.pos < self.vals.len() { self.vals[self.pos] } else { 0 };
                v % n
            }
        };
        self.pos += 1;
        v
    }
    /// True with probability 1/n (false is the simple choice).
    pub fn one_in(&mut self, n: u32) -> bool {
        n > 0 && (n == 1 || self.draw(n) == 1)
    }
    /// True with probability p/q.
    pub fn chance(&mut self, p: u32, q: u32) -> bool {
        self.draw(q) >= q - p.min(q)
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.draw(xs.len() as u32) as usize]
    }
    pub fn u32(&mut self) -> u32 {
        self.draw(u32::MAX)
    }
}
