//! Coverage-guided search over choice sequences: a generator's choices are
//! mutated, and sequences that take the code under test along a new edge, a
//! known edge a new number of times, or closer to making a comparison come out
//! equal are kept and mutated again. Compared values that are among the choices
//! are exchanged for what they were compared with.

use crate::cov;
use crate::engine::*;
use std::collections::HashSet;

pub struct Entry {
    ch: Vec<u64>,
    /// the size of the range each choice was drawn from
    rg: Vec<u64>,
    /// exchanges not tried yet: place and value
    pend: Vec<(u32, u64)>,
    tries: u32,
}

pub struct Island {
    rng: Rng,
    corpus: Vec<Entry>,
    seen: Vec<u8>,
    vp: Vec<u64>,
    dict: Vec<u64>,
    dict_set: HashSet<u64>,
    cmps: &'static mut cov::Cmps,
    pub edges: u64,
    pub kept: u64,
    pub swaps: u64,
}

fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// What to run: choices to begin with, and where later ones come from.
pub struct Plan {
    pub ch: Vec<u64>,
    pub seed: u64,
    from: usize,
}

impl Island {
    pub fn new(seed: u64) -> Island {
        let n = cov::guards() + 1;
        Island { rng: Rng::new(seed), corpus: vec![], seen: vec![0; n], vp: vec![0; cov::VP / 64], dict: vec![], dict_set: HashSet::new(), cmps: cov::start(), edges: 0, kept: 0, swaps: 0 }
    }
    pub fn size(&self) -> usize {
        self.corpus.len()
    }
    fn pick(&mut self) -> usize {
        let n = self.corpus.len() as u64;
        match self.rng.below(3) {
            0 => (n - 1 - self.rng.below(n.min(1 + n / 4))) as usize,
            1 => {
                let mut best = self.rng.below(n) as usize;
                for _ in 0..4 {
                    let k = self.rng.below(n) as usize;
                    if self.corpus[k].tries < self.corpus[best].tries {
                        best = k;
                    }
                }
                best
            }
            _ => self.rng.below(n) as usize,
        }
    }
    pub fn plan(&mut self, i: u64) -> Plan {
        let seed = self.rng.next();
        if self.corpus.is_empty() || i < 64 || self.rng.below(8) == 0 {
            return Plan { ch: vec![], seed, from: usize::MAX };
        }
        let k = self.pick();
        self.corpus[k].tries += 1;
        if self.rng.below(2) == 0 && !self.corpus[k].pend.is_empty() {
            self.swaps += 1;
            let (p, v) = self.corpus[k].pend.pop().unwrap();
            let mut ch = self.corpus[k].ch.clone();
            ch[p as usize] = v;
            return Plan { ch, seed, from: k };
        }
        let mut ch = self.corpus[k].ch.clone();
        let mut rg = self.corpus[k].rg.clone();
        let times = 1 + self.rng.upto(4);
        for _ in 0..times {
            self.mutate(&mut ch, &mut rg);
        }
        Plan { ch, seed, from: k }
    }
    fn mutate(&mut self, ch: &mut Vec<u64>, rg: &mut Vec<u64>) {
        if ch.is_empty() {
            return;
        }
        let r = &mut self.rng;
        let n = ch.len() as u64;
        let i = r.below(n) as usize;
        let top = |x: u64, n: u64| if n == 0 { x } else { x % n };
        match r.below(14) {
            0 | 1 => ch[i] = r.below(rg[i]),
            2 => ch[i] = top(ch[i].wrapping_add(1 + r.below(3)), rg[i]),
            3 => ch[i] = top(ch[i].wrapping_add(rg[i]).wrapping_sub(1 + r.below(3)), rg[i]),
            4 => ch[i] = top(ch[i] ^ 1 << r.below(32), rg[i]),
            5 => {
                // a value of another place
                let j = (0..4).map(|_| r.below(n) as usize).find(|j| rg[*j] == rg[i]).unwrap_or(i);
                ch[i] = top(ch[j].wrapping_add([0, 0, 0, 1, u64::MAX][r.below(5) as usize]), rg[i]);
            }
            6 if !self.dict.is_empty() => {
                // a wide place, if one is near
                let j = (i..ch.len()).take(12).find(|j| rg[*j] > 1 << 16).unwrap_or(i);
                let d = self.dict[r.below(self.dict.len() as u64) as usize];
                ch[j] = top(d.wrapping_add([0, 0, 1, u64::MAX][r.below(4) as usize]), rg[j]);
            }
            7 => ch[i] = [0, rg[i].wrapping_sub(1), rg[i] / 2, 1][r.below(4) as usize],
            8 => {
                let m = r.upto(6) as usize + 1;
                let e = (i + m).min(ch.len());
                ch.drain(i..e);
                rg.drain(i..e);
            }
            9 => {
                // a stretch again
                let m = r.upto(7) as usize + 1;
                let e = (i + m).min(ch.len());
                if ch.len() < 20_000 {
                    let (a, b) = (ch[i..e].to_vec(), rg[i..e].to_vec());
                    let at = if r.below(2) == 0 { e } else { r.below(n) as usize };
                    ch.splice(at..at, a);
                    rg.splice(at..at, b);
                }
            }
            10 => {
                ch.truncate(i);
                rg.truncate(i);
            }
            11 | 12 => {
                // from another sequence
                let k = r.below(self.corpus.len() as u64) as usize;
                let o = &self.corpus[k];
                if o.ch.is_empty() {
                    return;
                }
                let j = if r.below(2) == 0 { i % o.ch.len() } else { r.below(o.ch.len() as u64) as usize };
                let m = r.upto(7) as usize + 1;
                let e = (j + m).min(o.ch.len());
                let to = if r.below(2) == 0 { i } else { (i + e - j).min(ch.len()) };
                ch.splice(i..to, o.ch[j..e].iter().copied());
                rg.splice(i..to, o.rg[j..e].iter().copied());
            }
            _ => {
                // new choices for a stretch
                let m = r.upto(6) as usize + 1;
                for j in i..(i + m).min(ch.len()) {
                    ch[j] = r.below(rg[j]);
                }
            }
        }
    }
    /// Run a planned case. `f` runs it and gives back the choices and ranges.
    pub fn run<T>(&mut self, p: &Plan, f: impl FnOnce(&mut Src) -> T) -> (T, Vec<u64>) {
        let mut src = Src::mutated(&p.ch, p.seed);
        let t = cov::with(|| f(&mut src));
        let mut news = false;
        let (seen, edges) = (&mut self.seen, &mut self.edges);
        cov::counts(|x, c| {
            let b = bucket(c);
            let s = &mut seen[x];
            if *s == 0 {
                *edges += 1;
            }
            if *s & b == 0 {
                *s |= b;
                news = true;
            }
        });
        for v in &self.cmps.near {
            let (w, m) = (*v as usize / 64, 1u64 << (v % 64));
            if self.vp[w] & m == 0 {
                self.vp[w] |= m;
                news = true;
            }
        }
        if news && src.record.len() < 30_000 {
            let pend = self.exchanges(&src);
            self.kept += 1;
            self.corpus.push(Entry { ch: src.record.clone(), rg: src.ranges.clone(), pend, tries: 0 });
            if p.from < self.corpus.len() {
                self.corpus[p.from].tries = self.corpus[p.from].tries.saturating_sub(8);
            }
            if self.corpus.len() > 6000 {
                // forget some that had their turn
                let mut k = 0;
                let r = &mut self.rng;
                self.corpus.retain(|e| {
                    k += 1;
                    k > 5000 || e.tries < 4 || r.below(3) != 0
                });
            }
        }
        (t, src.record)
    }
    /// Choices that were compared, and with what.
    fn exchanges(&mut self, src: &Src) -> Vec<(u32, u64)> {
        let mut c = self.cmps.pairs.clone();
        c.sort();
        c.dedup();
        let mut at: std::collections::HashMap<u64, Vec<u32>> = Default::default();
        for (i, (v, n)) in src.record.iter().zip(&src.ranges).enumerate() {
            if *n > 200 {
                let l = at.entry(*v).or_default();
                if l.len() < 4 {
                    l.push(i as u32);
                }
            }
        }
        // values that say something first: they are taken from the end
        let (mut out, mut vague) = (Vec::new(), Vec::new());
        for (a, b) in &c {
            for (x, y) in [(*a, *b), (*b, *a)] {
                if y <= u32::MAX as u64 && y > 3 && self.dict.len() < 4000 && self.dict_set.insert(y) {
                    self.dict.push(y);
                }
                if let Some(l) = at.get(&x) {
                    for i in l {
                        let n = src.ranges[*i as usize];
                        for z in [y, y.wrapping_add(1), y.wrapping_sub(1)] {
                            if z != x && (n == 0 || z < n) {
                                if x > 64 && z == y {
                                    out.push((*i, z));
                                } else {
                                    vague.push((*i, z));
                                }
                            }
                        }
                    }
                }
            }
        }
        let mut cut = |v: &mut Vec<(u32, u64)>, n: usize| {
            while v.len() > n {
                let k = self.rng.below(v.len() as u64) as usize;
                v.swap_remove(k);
            }
        };
        cut(&mut out, 200);
        cut(&mut vague, 40);
        vague.append(&mut out);
        let out = vague;
        out
    }
}
