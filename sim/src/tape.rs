//! The choice tape: the only source of nondeterminism in a simulated run.

pub struct Tape {
    rng: Option<u64>,
    replay: Vec<u32>,
    pub log: Vec<u32>,
    pos: usize,
    pub cap: usize,
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17);
    splitmix(&mut s);
    splitmix(&mut s)
}

impl Tape {
    pub fn seeded(seed: u64) -> Tape {
        Tape { rng: Some(seed), replay: vec![], log: vec![], pos: 0, cap: 200_000 }
    }

    pub fn replay(t: &[u32]) -> Tape {
        Tape { rng: None, replay: t.to_vec(), log: vec![], pos: 0, cap: 200_000 }
    }

    /// Draw a value in `0..n`. 0 is always the simplest choice.
    pub fn draw(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(s) if self.log.len() < self.cap => (splitmix(s) % n as u64) as u32,
            Some(_) => 0,
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if (v as usize) < n {
                    v
                } else {
                    v % n as u32
                }
            }
        };
        self.log.push(v);
        v as usize
    }

    /// True with probability `num/den`; false is the simplest.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.draw(den) >= den - num
    }

    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw(hi - lo + 1)
    }

    pub fn u64(&mut self) -> u64 {
        let mut v = 0u64;
        for _ in 0..4 {
            v = (v << 16) | self.draw(1 << 16) as u64;
        }
        v
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.draw(xs.len())]
    }
}
