//! Choice-sequence generator: every random decision of a case is drawn from a
//! `Src`. A case is therefore fully described by the list of drawn numbers; the
//! shrinker edits that list and re-runs the case.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub struct Src {
    replay: Option<Vec<u32>>,
    pub rec: Vec<u32>,
    rng: Rng,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    /// When set, every drawn number is also appended to this file (used to recover
    /// the choices of a case that crashes the process).
    pub dump: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { replay: None, rec: Vec::new(), rng: Rng::new(seed), spans: Vec::new(), open: Vec::new(), dump: None }
    }
    pub fn replay(v: Vec<u32>) -> Self {
        Src { replay: Some(v), rec: Vec::new(), rng: Rng::new(0), spans: Vec::new(), open: Vec::new(), dump: None }
    }
    /// Draw a number in `[0, n)`. 0 is the simplest choice.
    pub fn draw(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let v = match &self.replay {
            Some(r) => match r.get(self.rec.len()) {
                Some(&x) => if x < n { x } else { x % n },
                None => 0,
            },
            None => (self.rng.next() % n as u64) as u32,
        };
        self.rec.push(v);
        if let Some(f) = &mut self.dump {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    /// true with probability `pct`%. `false` is the simplest choice.
    pub fn chance(&mut self, pct: u32) -> bool {
        let v = self.draw(100);
        v >= 100 - pct.min(100)
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.draw(xs.len() as u32) as usize].clone()
    }
    /// Weighted pick, returns an index.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.draw(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn open(&mut self) {
        self.open.push(self.rec.len());
    }
    pub fn close(&mut self) {
        let s = self.open.pop().unwrap();
        if self.rec.len() > s {
            self.spans.push((s, self.rec.len()));
        }
    }
}

/// Shrinks `best` (a failing choice list). `eval` re-runs the case and returns
/// `Some((recorded choices, spans))` if the same kind of failure occurs.
pub fn shrink(
    mut best: Vec<u32>,
    mut spans: Vec<(usize, usize)>,
    budget: usize,
    mut eval: impl FnMut(&[u32]) -> Option<(Vec<u32>, Vec<(usize, usize)>)>,
) -> Vec<u32> {
    let mut evals = 0usize;
    let mut improved = true;
    let t0 = crate::interpose::real_now();
    let over = |evals: usize| evals >= budget || crate::interpose::real_now() - t0 > 40_000_000_000;
    while improved && !over(evals) {
        improved = false;
        // 1. delete runs of spans.
        let mut run = 16usize;
        while run >= 1 {
            let mut i = spans.len();
            while i > 0 {
                if over(evals) {
                    return best;
                }
                i -= 1;
                if i + run > spans.len() {
                    continue;
                }
                let s = spans[i].0;
                let e = spans[i + run - 1].1;
                if e <= s || e > best.len() {
                    continue;
                }
                let mut cand = best[..s].to_vec();
                cand.extend_from_slice(&best[e..]);
                evals += 1;
                if let Some((rec, sp)) = eval(&cand) {
                    if rec.len() < best.len() {
                        best = rec;
                        spans = sp;
                        improved = true;
                        i = i.min(spans.len());
                    }
                }
            }
            run /= 2;
        }
        // 2. lower single values.
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                for cand_v in [0, best[i] / 2, best[i] - 1] {
                    if cand_v >= best[i] {
                        continue;
                    }
                    if over(evals) {
                        return best;
                    }
                    let mut cand = best.clone();
                    cand[i] = cand_v;
                    evals += 1;
                    if let Some((rec, sp)) = eval(&cand) {
                        if rec.len() <= best.len() && rec != best {
                            best = rec;
                            spans = sp;
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}
