//! The choice tape every generator draws from.
//!
//! A case is a pure function of the numbers it draws. Numbers come from a
//! seeded generator (search), from a recorded tape (replay, shrinking) or from
//! raw bytes (coverage-guided fuzzing). Every draw is recorded, zero is always
//! the simplest choice, and a tape that ends early continues with zeros, so a
//! failing tape can be shrunk without knowing anything about the case.

use std::io::Write;

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = Rng(0x1234_5678_9abc_def0);
    for &p in parts {
        h.0 ^= p;
        h.0 = h.next();
    }
    h.0
}

pub fn hash_str(s: &str) -> u64 {
    // FNV-1a, then mixed.
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(&[h])
}

enum From {
    Rng(Rng),
    Tape(Vec<u64>),
    Bytes(Vec<u8>),
}

pub struct Src {
    from: From,
    pos: usize,
    pub rec: Vec<u64>,
    pub trace: Option<std::fs::File>,
    /// The names this case is made of, see `gen::pool`.
    pub names: Vec<String>,
    pub tpls: Vec<String>,
    pub misses: Vec<String>,
    /// How many more large things the dictionary may ask for.
    large: u8,
}

impl Src {
    pub fn seeded(seed: u64) -> Self {
        Self::with(From::Rng(Rng(seed)))
    }

    pub fn tape(tape: Vec<u64>) -> Self {
        Self::with(From::Tape(tape))
    }

    pub fn bytes(bytes: Vec<u8>) -> Self {
        Self::with(From::Bytes(bytes))
    }

    fn with(from: From) -> Self {
        let own = |n: &[&str]| n.iter().map(|n| n.to_string()).collect();
        Self {
            from,
            pos: 0,
            rec: Vec::new(),
            trace: None,
            names: own(crate::gen::NAMES),
            tpls: own(crate::gen::TPLS),
            misses: own(crate::gen::MISSES),
            large: 2,
        }
    }

    /// A number in `0..n`, or any number if `n` is zero.
    pub fn draw(&mut self, n: u64) -> u64 {
        let raw = match &mut self.from {
            From::Rng(r) => r.next() >> 1 ^ r.next() << 63,
            From::Tape(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
            From::Bytes(b) => {
                let k = match n {
                    1..=256 => 1,
                    257..=65536 => 2,
                    _ => 8,
                };
                let mut v = 0u64;
                for _ in 0..k {
                    v = v << 8 | b.get(self.pos).copied().unwrap_or(0) as u64;
                    self.pos += 1;
                }
                v
            }
        };
        let v = match &self.from {
            _ if n == 0 => raw,
            From::Tape(_) => raw.min(n - 1),
            _ => raw % n,
        };
        self.rec.push(v);
        if let Some(f) = &mut self.trace {
            let _ = writeln!(f, "{v}");
        }
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n.max(1) as u64) as usize
    }

    /// `lo..=hi`, with `lo` the simplest.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True in `num` of `den` cases; false is the simplest.
    pub fn odds(&mut self, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        self.draw(den) >= den - num.min(den)
    }

    pub fn coin(&mut self) -> bool {
        self.draw(2) == 1
    }

    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }

    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }

    /// One in `den`, more often if the dictionary knows sizes.
    pub fn rare(&mut self, den: u64) -> bool {
        let den = if crate::dict::get().sizes.is_empty() { den } else { (den / 12).max(6) };
        self.odds(1, den)
    }

    /// One of these, or near a size of the dictionary which is at most `max`.
    pub fn size(&mut self, base: &[usize], max: usize) -> usize {
        let d = &crate::dict::get().sizes;
        if d.is_empty() {
            return *self.of(base);
        }
        let max = if self.large == 0 { 130 } else { max };
        let n = d.iter().take_while(|n| **n <= max as u64).count();
        let x = if n == 0 || self.coin() {
            (*self.of(base)).min(max)
        } else {
            let x = d[self.below(n)] as usize;
            (x + self.below(3)).saturating_sub(1).max(1)
        };
        if x > 130 {
            self.large = self.large.saturating_sub(1);
        }
        x
    }

    /// A size near one of the dictionary, now and then.
    pub fn large(&mut self, den: u64, max: usize) -> Option<usize> {
        if crate::dict::get().sizes.is_empty() || self.large == 0 || !self.odds(1, den) {
            return None;
        }
        Some(self.size(&[9, 17, 33], max))
    }

    /// A word of the dictionary, now and then.
    pub fn word(&mut self, num: u64, den: u64) -> Option<String> {
        let n = self.number_of_word(num, den)?;
        Some(crate::dict::get().words[n].clone())
    }

    pub fn number_of_word(&mut self, num: u64, den: u64) -> Option<usize> {
        let d = &crate::dict::get().words;
        if d.is_empty() || !self.odds(num, den) {
            return None;
        }
        Some(self.below(d.len()))
    }

    /// A number of the dictionary, or near one, now and then.
    pub fn number(&mut self, num: u64, den: u64) -> Option<u64> {
        let d = &crate::dict::get().sizes;
        if d.is_empty() || !self.odds(num, den) {
            return None;
        }
        let n = d[self.below(d.len())];
        Some(match self.below(8) {
            0..=3 => n,
            4 => n.wrapping_add(1),
            5 => n.wrapping_sub(1),
            6 => n.wrapping_mul(2),
            _ => n.wrapping_neg(),
        })
    }

    /// An index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.draw(total.max(1) as u64) as u32;
        for (i, &n) in w.iter().enumerate() {
            if x < n {
                return i;
            }
            x -= n;
        }
        0
    }
}
