//! Choice tapes: every generated case is decoded from a sequence of bounded
//! integers. In generation mode the tape is filled from a seeded generator; in
//! replay mode recorded values are reused (clamped to their bound, 0 once the
//! tape is exhausted). 0 is always the simplest choice, so shrinking the tape
//! shrinks the case.

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash64(parts: &[&[u8]]) -> u64 {
    // FNV-1a with a separator, then a finaliser.
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for p in parts {
        for b in p.iter() {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100_0000_01b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    Rng::new(h).next()
}

static LOG: std::sync::Mutex<Option<std::path::PathBuf>> = std::sync::Mutex::new(None);
/// From now on, tapes write themselves to `p` after every choice.
pub fn set_log(p: std::path::PathBuf) {
    *LOG.lock().unwrap() = Some(p);
    LOGGING.store(true, std::sync::atomic::Ordering::Relaxed);
}
/// Writes the tape so far, if logging is on (called before code under test runs
/// and after every choice).
fn log(data: &[u32]) {
    if let Ok(l) = LOG.lock()
        && let Some(p) = &*l
    {
        let s: Vec<String> = data.iter().map(|v| v.to_string()).collect();
        let _ = std::fs::write(p, format!("[{}]", s.join(",")));
    }
}
static LOGGING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Tape {
    pub data: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    /// Drawn by the first `more`: 0, or which loops are to be long in this case.
    wide: Option<u32>,
}

impl Tape {
    pub fn fresh(seed: u64) -> Self {
        Tape { data: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), wide: None }
    }
    pub fn replay(data: Vec<u32>) -> Self {
        Tape { data, pos: 0, rng: None, wide: None }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }
    /// A value in 0..n (n >= 1).
    pub fn below(&mut self, n: u32) -> u32 {
        debug_assert!(n >= 1);
        let v = match &mut self.rng {
            Some(r) => {
                let v = (r.next() >> 16) as u32 % n.max(1);
                self.data.push(v);
                if LOGGING.load(std::sync::atomic::Ordering::Relaxed) {
                    log(&self.data);
                }
                v
            }
            None => match self.data.get_mut(self.pos) {
                Some(v) => {
                    if *v >= n {
                        *v = n - 1;
                    }
                    *v
                }
                None => 0,
            },
        };
        self.pos += 1;
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u32) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u32) as i64
    }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// Index chosen by weight; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// A small length: continues with probability num/den up to max. In one case
    /// of twenty, some loops (a third of them, drawn once) run for much longer, until the case is
    /// large.
    pub fn more(&mut self, so_far: usize, max: usize, num: u32, den: u32) -> bool {
        let wide = match self.wide {
            Some(w) => w,
            None => {
                let w = if self.chance(1, 20) { 1 + self.below(63) } else { 0 };
                self.wide = Some(w);
                w
            }
        };
        let sig = (max as u32).wrapping_mul(31).wrapping_add(num * 7 + den * 3);
        if wide > 0 && self.pos < 2500 && (sig ^ wide).wrapping_mul(0x9e37_79b1) >> 16 & 3 == 0 {
            return so_far < max * 10 + 10 && self.chance(15, 16);
        }
        so_far < max && self.chance(num, den)
    }
    /// No long loops in this case.
    pub fn narrow(&mut self) {
        self.wide = Some(0);
    }
    /// Like `more`, but never long.
    pub fn few(&mut self, so_far: usize, max: usize, num: u32, den: u32) -> bool {
        so_far < max && self.chance(num, den)
    }
    pub fn u64(&mut self) -> u64 {
        let a = self.below(1 << 16) as u64;
        let b = self.below(1 << 16) as u64;
        let c = self.below(1 << 16) as u64;
        let d = self.below(1 << 16) as u64;
        (a << 48) | (b << 32) | (c << 16) | d
    }
}

/// Shrinks `tape` while `fails` holds, within `budget` evaluations.
pub fn shrink(tape: Vec<u32>, budget: usize, mut fails: impl FnMut(&[u32]) -> Option<Vec<u32>>) -> Vec<u32> {
    let mut best = tape;
    let mut left = budget;
    macro_rules! attempt {
        ($cand:expr) => {{
            if left == 0 {
                return best;
            }
            left -= 1;
            let cand: Vec<u32> = $cand;
            match fails(&cand) {
                Some(used) => {
                    // `used` is the normalised tape actually consumed.
                    let better = used.len() < best.len() || (used.len() == best.len() && used < best);
                    if better {
                        best = used;
                    }
                    better
                }
                None => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete blocks
        for size in [64usize, 32, 16, 8, 6, 5, 4, 3, 2, 1] {
            let step = (size / 3).max(1);
            let mut i = best.len().saturating_sub(size) as isize;
            while i >= 0 {
                let at = i as usize;
                if at + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(at..at + size);
                    attempt!(c);
                }
                i -= step as isize;
            }
        }
        // zero blocks
        for size in [16usize, 8, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..i + size] {
                        *v = 0;
                    }
                    attempt!(c);
                }
                i += size;
            }
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) && i < best.len() {
                    let (mut lo, mut hi) = (0u32, best[i]);
                    while hi - lo > 1 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
