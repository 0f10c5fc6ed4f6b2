//! Choice-sequence engine: every generator draws from a `Src`, which either produces fresh random
//! choices (recording them) or replays a recorded sequence. Shrinking edits the recorded sequence.
//! By convention choice 0 is always the simplest alternative.

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut next = || {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            x ^ (x >> 31)
        };
        let a = next();
        let b = next();
        Rng(a | 1, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

pub fn hash_str(s: &str, extra: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ extra;
    for b in s.bytes() {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    mix(h, s.len() as u64)
}

pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    /// what isn't replayed is random, rather than the simplest
    open: bool,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Rng::new(seed), replay: None, open: true, rec: Vec::new() }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { rng: Rng::new(0), replay: Some(choices), open: false, rec: Vec::new() }
    }
    /// the choices given, and random ones after these
    pub fn after(choices: Vec<u64>, seed: u64) -> Self {
        Src { rng: Rng::new(seed), replay: Some(choices), open: true, rec: Vec::new() }
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        let given = self.replay.as_ref().map(|d| d.get(self.rec.len()).copied());
        let v = match given {
            Some(None) if !self.open => 0,
            Some(Some(v)) if self.open => v % n.max(1),
            Some(Some(v)) => v.min(n.saturating_sub(1)),
            None | Some(None) => {
                if n <= 1 {
                    0
                } else {
                    ((u128::from(self.rng.next()) * u128::from(n)) >> 64) as u64
                }
            }
        };
        self.rec.push(v);
        v
    }
    pub fn u(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn any(&mut self) -> u64 {
        let given = self.replay.as_ref().map(|d| d.get(self.rec.len()).copied());
        let v = match given {
            Some(Some(v)) => v,
            Some(None) if !self.open => 0,
            None | Some(None) => self.rng.next(),
        };
        self.rec.push(v);
        v
    }
    /// true with probability num/den (false is simplest)
    pub fn p(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.u(xs.len());
        &xs[i]
    }
    /// weighted index
    pub fn w(&mut self, ws: &[u32]) -> usize {
        let t: u64 = ws.iter().map(|&x| u64::from(x)).sum();
        let mut v = self.below(t);
        for (i, &x) in ws.iter().enumerate() {
            if v < u64::from(x) {
                return i;
            }
            v -= u64::from(x);
        }
        ws.len() - 1
    }
    /// small number biased to low values: geometric-like, at most max
    pub fn small(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.p(1, 2) {
            n += 1;
        }
        n
    }
    /// a number of whatever magnitude, with a liking for where these end
    pub fn magnitude(&mut self, bits: u64) -> u64 {
        let max = u64::MAX >> (64 - bits);
        let v = match self.w(&[4, 3, 2, 1, 1]) {
            0 => self.below(40),
            1 => self.any() >> (63 - self.below(64)),
            2 => (1u64 << self.below(64)).wrapping_add(self.below(5)).wrapping_sub(2),
            3 => 10u64.pow(self.below(20) as u32).wrapping_add(self.below(3)).wrapping_sub(1),
            _ => self.any(),
        };
        v & max
    }
    /// mostly a small number of at most `max`, once in a while many more
    pub fn many(&mut self, max: usize) -> usize {
        match self.w(&[60, 3, 1]) {
            0 => self.small(max),
            1 => 1 + self.u(4 * max),
            _ => 1 + self.u(15 * max),
        }
    }
}

/// The choices of cases which reached something new.
#[derive(Default)]
pub struct Pool(Vec<Vec<u64>>);

impl Pool {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn add(&mut self, choices: Vec<u64>) {
        self.0.push(choices);
    }
    /// those of one of them, with a few changes
    pub fn mutant(&self, r: &mut Rng, known: &[u64]) -> Vec<u64> {
        let mut below = |n: usize| ((u128::from(r.next()) * n.max(1) as u128) >> 64) as usize;
        // the latest ones more often
        let n = self.0.len();
        let from = if below(2) == 0 { n - n.min(1 + n / 8) } else { 0 };
        // the shorter of two
        let (a, b) = (from + below(n - from), from + below(n - from));
        let a = if self.0[b].len() < self.0[a].len() { b } else { a };
        let mut c = self.0[a].clone();
        for _ in 0..=below(4) {
            if c.is_empty() {
                break;
            }
            let at = below(c.len());
            match below(9) {
                8 if !known.is_empty() => {
                    let v = known[below(known.len())];
                    c[at] = match below(4) {
                        0 => v.wrapping_neg(),
                        1 => v.wrapping_add(below(3) as u64).wrapping_sub(1),
                        _ => v,
                    };
                }
                0 => c[at] = below(1 << 12) as u64,
                1 => c[at] = below(usize::MAX) as u64,
                2 => c[at] = c[at].wrapping_add(1 + below(4) as u64),
                3 => c[at] = c[at].wrapping_sub(1 + below(4) as u64),
                4 => {
                    let end = (at + 1 + below(24)).min(c.len());
                    c.drain(at..end);
                }
                5 => {
                    let end = (at + 1 + below(24)).min(c.len());
                    let part = c[at..end].to_vec();
                    c.splice(at..at, part);
                }
                6 => {
                    let other = &self.0[below(n)];
                    if !other.is_empty() {
                        let from = below(other.len());
                        let end = (from + 1 + below(60)).min(other.len());
                        let until = if below(2) == 0 { at } else { (at + end - from).min(c.len()) };
                        c.splice(at..until, other[from..end].iter().copied());
                    }
                }
                _ => c.truncate(at),
            }
        }
        c
    }
}

/// Shrinks a failing choice sequence. `fails` re-runs the case and says whether it still fails.
pub fn shrink_choices(mut best: Vec<u64>, mut budget: usize, fails: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut progress = true;
    while progress && budget > 0 {
        progress = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                let mut c = best.clone();
                c.drain(i..i + size);
                budget -= 1;
                if fails(&c) {
                    best = c;
                    progress = true;
                } else {
                    i += size;
                }
            }
            if size == 1 || budget == 0 {
                break;
            }
            size /= 2;
        }
        // lower values
        for i in 0..best.len() {
            for cand in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if budget == 0 {
                    break;
                }
                if i < best.len() && cand < best[i] {
                    let mut c = best.clone();
                    c[i] = cand;
                    budget -= 1;
                    if fails(&c) {
                        best = c;
                        progress = true;
                    }
                }
            }
        }
    }
    best
}

/// Shrinks a failing string by deleting spans of characters and simplifying characters.
pub fn shrink_string(s: &str, mut budget: usize, fails: &mut dyn FnMut(&str) -> bool) -> String {
    let mut best: Vec<char> = s.chars().collect();
    let mut progress = true;
    while progress && budget > 0 {
        progress = false;
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                let mut c = best.clone();
                c.drain(i..i + size);
                budget -= 1;
                let t: String = c.iter().collect();
                if fails(&t) {
                    best = c;
                    progress = true;
                } else {
                    i += 1;
                }
            }
            if size == 1 || budget == 0 {
                break;
            }
            size = if size > 8 { size / 2 } else { size - 1 };
        }
        for i in 0..best.len() {
            for cand in ['A', 'a', 'x'] {
                if budget == 0 || best[i] == cand || best[i].is_ascii_alphanumeric() {
                    continue;
                }
                let mut c = best.clone();
                c[i] = cand;
                budget -= 1;
                let t: String = c.iter().collect();
                if !best[i].is_ascii() && fails(&t) {
                    best = c;
                    progress = true;
                }
            }
        }
    }
    best.into_iter().collect()
}
