//! Reference model: FBASs over bit masks, decided by brute force over all node subsets.
//! Written from the definitions; shares no code with the repository.

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct RQ {
    pub t: u64,
    pub v: Vec<usize>,
    pub inner: Vec<RQ>,
}
impl RQ {
    pub fn flat(t: u64, v: &[usize]) -> RQ {
        RQ { t, v: v.to_vec(), inner: vec![] }
    }
    pub fn mask(t: u64, m: u32) -> RQ {
        RQ { t, v: bits(m), inner: vec![] }
    }
    pub fn new(t: u64, v: &[usize], inner: Vec<RQ>) -> RQ {
        RQ { t, v: v.to_vec(), inner }
    }
    /// is this quorum set satisfied by the node set given as a membership test?
    pub fn sat(&self, has: &dyn Fn(usize) -> bool) -> bool {
        let mut c = 0u64;
        for &x in &self.v {
            if has(x) {
                c += 1;
            }
        }
        for q in &self.inner {
            if q.sat(has) {
                c += 1;
            }
        }
        self.t > 0 && c >= self.t
    }
    pub fn sat_mask(&self, m: u32) -> bool {
        let mut c = 0u64;
        for &x in &self.v {
            if x < 32 && m >> x & 1 == 1 {
                c += 1;
            }
        }
        for q in &self.inner {
            if q.sat_mask(m) {
                c += 1;
            }
        }
        self.t > 0 && c >= self.t
    }
    /// all validators, with repetitions
    pub fn all_v(&self) -> Vec<usize> {
        let mut r = self.v.clone();
        for q in &self.inner {
            r.extend(q.all_v());
        }
        r
    }
    pub fn contained(&self) -> Vec<usize> {
        let mut r = self.all_v();
        r.sort_unstable();
        r.dedup();
        r
    }
    pub fn map(&self, f: &dyn Fn(usize) -> usize) -> RQ {
        RQ { t: self.t, v: self.v.iter().map(|&x| f(x)).collect(), inner: self.inner.iter().map(|q| q.map(f)).collect() }
    }
    /// drop validators for which `f` gives None
    pub fn filter_map(&self, f: &dyn Fn(usize) -> Option<usize>) -> RQ {
        RQ {
            t: self.t,
            v: self.v.iter().filter_map(|&x| f(x)).collect(),
            inner: self.inner.iter().map(|q| q.filter_map(f)).collect(),
        }
    }
    /// sort validators and nested sets, recursively
    pub fn sorted(&self) -> RQ {
        let mut v = self.v.clone();
        v.sort_unstable();
        let mut inner: Vec<RQ> = self.inner.iter().map(|q| q.sorted()).collect();
        inner.sort();
        RQ { t: self.t, v, inner }
    }
    pub fn len(&self) -> usize {
        self.v.len() + self.inner.len()
    }
    /// thresholds between 1 and the number of entries, everywhere
    pub fn sane(&self) -> bool {
        self.t >= 1 && self.t <= self.len() as u64 && self.inner.iter().all(|q| q.sane())
    }
    pub fn depth(&self) -> usize {
        1 + self.inner.iter().map(|q| q.depth()).max().unwrap_or(0)
    }
}

pub fn bits(m: u32) -> Vec<usize> {
    (0..32).filter(|i| m >> i & 1 == 1).collect()
}
pub fn to_mask(v: &[usize]) -> u32 {
    v.iter().fold(0, |a, &x| a | 1 << x)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct RF {
    pub q: Vec<RQ>,
}
impl RF {
    pub fn n(&self) -> usize {
        self.q.len()
    }
    pub fn is_quorum(&self, m: u32) -> bool {
        let mut r = m;
        while r != 0 {
            let i = r.trailing_zeros() as usize;
            if !self.q[i].sat_mask(m) {
                return false;
            }
            r &= r - 1;
        }
        m != 0
    }
    /// the largest quorum within `m` (0 if there is none)
    pub fn max_quorum(&self, mut m: u32) -> u32 {
        loop {
            let k = bits(m).iter().filter(|&&i| self.q[i].sat_mask(m)).fold(0u32, |a, &i| a | 1 << i);
            if k == m {
                return m;
            }
            m = k;
        }
    }
}

/// Everything about one FBAS, by brute force over all subsets (n <= 22)
pub struct Oracle {
    pub n: usize,
    pub full: u32,
    pub is_q: Vec<bool>,
    /// contains a quorum
    pub has_q: Vec<bool>,
    pub mq: Vec<u32>,
    pub mbs: Vec<u32>,
    pub mss: Vec<u32>,
    pub qi: bool,
    pub any_quorum: bool,
    pub top_tier: u32,
}
pub fn minimal(mut f: Vec<u32>) -> Vec<u32> {
    f.sort_unstable();
    f.dedup();
    f.sort_by_key(|x| x.count_ones());
    let mut r: Vec<u32> = vec![];
    'o: for x in f {
        for &y in &r {
            if y & x == y {
                continue 'o;
            }
        }
        r.push(x);
    }
    r
}
impl Oracle {
    pub fn new(f: &RF) -> Oracle {
        let n = f.n();
        assert!(n <= 22);
        let full = ((1u64 << n) - 1) as u32;
        let size = 1usize << n;
        let mut is_q = vec![false; size];
        for m in 1..size {
            is_q[m] = f.is_quorum(m as u32);
        }
        let mut has_q = vec![false; size];
        let mut mq = vec![];
        for m in 1..size {
            let mut sub = false;
            for i in 0..n {
                if m >> i & 1 == 1 && has_q[m & !(1 << i)] {
                    sub = true;
                    break;
                }
            }
            has_q[m] = sub || is_q[m];
            if is_q[m] && !sub {
                mq.push(m as u32);
            }
        }
        let mut mbs = vec![];
        for m in 0..size {
            let rest = full as usize & !m;
            if !has_q[rest] && (0..n).all(|i| m >> i & 1 == 0 || has_q[rest | 1 << i]) {
                mbs.push(m as u32);
            }
        }
        let mut inter = vec![];
        let mut qi = !mq.is_empty();
        for i in 0..mq.len() {
            for j in i + 1..mq.len() {
                if mq[i] & mq[j] == 0 {
                    qi = false;
                }
                inter.push(mq[i] & mq[j]);
            }
        }
        if !qi {
            inter.clear();
        }
        let mss = minimal(inter);
        let top_tier = mq.iter().fold(0, |a, x| a | x);
        Oracle { n, full, any_quorum: !mq.is_empty(), is_q, has_q, mq, mbs, mss, qi, top_tier }
    }
}

/// reachability in the trust graph induced by the nodes in `m`
pub fn reach(f: &RF, m: u32) -> Vec<u32> {
    let n = f.n();
    let mut r: Vec<u32> = (0..n).map(|i| if m >> i & 1 == 1 { m & to_mask(&f.q[i].contained().into_iter().filter(|&x| x < n).collect::<Vec<_>>()) } else { 0 }).collect();
    for k in 0..n {
        for i in 0..n {
            if r[i] >> k & 1 == 1 {
                r[i] |= r[k];
            }
        }
    }
    r
}
/// strongly connected components of the trust graph induced by the nodes in `m`
pub fn sccs_within(f: &RF, m: u32) -> Vec<u32> {
    let r = reach(f, m);
    let mut seen = 0u32;
    let mut out = vec![];
    for i in bits(m) {
        if seen >> i & 1 == 1 {
            continue;
        }
        let mut c = 1u32 << i;
        for j in bits(m) {
            if r[i] >> j & 1 == 1 && r[j] >> i & 1 == 1 {
                c |= 1 << j;
            }
        }
        seen |= c;
        out.push(c);
    }
    out
}

// ---------- FBASs of any size ----------
/// the largest quorum within the nodes marked in `m`
pub fn big_max_quorum(f: &RF, mut m: Vec<bool>) -> Vec<bool> {
    loop {
        let k: Vec<bool> = (0..f.n()).map(|i| m[i] && f.q[i].sat(&|x| x < m.len() && m[x])).collect();
        if k == m {
            return m;
        }
        m = k;
    }
}
/// strongly connected components of the trust graph induced by the nodes marked in `m`
pub fn big_sccs(f: &RF, m: &[bool]) -> Vec<Vec<usize>> {
    let n = f.n();
    let succ: Vec<Vec<usize>> = (0..n).map(|i| if m[i] { f.q[i].contained().into_iter().filter(|&x| x < n && m[x]).collect() } else { vec![] }).collect();
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 0..n {
        for &j in &succ[i] {
            pred[j].push(i);
        }
    }
    let from = |s: usize, e: &[Vec<usize>]| -> Vec<bool> {
        let mut seen = vec![false; n];
        seen[s] = true;
        let mut todo = vec![s];
        while let Some(x) = todo.pop() {
            for &y in &e[x] {
                if !seen[y] {
                    seen[y] = true;
                    todo.push(y);
                }
            }
        }
        seen
    };
    let mut done = vec![false; n];
    let mut r = vec![];
    for i in 0..n {
        if m[i] && !done[i] {
            let (a, b) = (from(i, &succ), from(i, &pred));
            let c: Vec<usize> = (0..n).filter(|&j| a[j] && b[j]).collect();
            for &j in &c {
                done[j] = true;
            }
            r.push(c);
        }
    }
    r
}
/// nodes in components (of the satisfiable nodes) that contain a quorum; all minimal quorums are made of them
pub fn big_relevant(f: &RF) -> Vec<usize> {
    let sat = big_max_quorum(f, vec![true; f.n()]);
    let mut r = vec![];
    for c in big_sccs(f, &sat) {
        let mut m = vec![false; f.n()];
        for &i in &c {
            m[i] = true;
        }
        if big_max_quorum(f, m).iter().any(|&x| x) {
            r.extend(c);
        }
    }
    r.sort_unstable();
    r
}
/// symmetric clusters of an FBAS of any size
pub fn big_sym_clusters(f: &RF) -> Vec<RQ> {
    let sat = big_max_quorum(f, vec![true; f.n()]);
    let mut r: Vec<RQ> = vec![];
    for c in big_sccs(f, &sat) {
        let mut m = vec![false; f.n()];
        for &i in &c {
            m[i] = true;
        }
        if !big_max_quorum(f, m).iter().any(|&x| x) {
            continue;
        }
        for &i in &c {
            let k = f.q[i].contained();
            if k.contains(&i) && k.iter().all(|j| c.contains(j) && f.q[*j] == f.q[i]) && !r.contains(&f.q[i]) {
                r.push(f.q[i].clone());
            }
        }
    }
    r
}
