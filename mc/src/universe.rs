//! The bounded universes of FBASs that are enumerated, and how a reference FBAS is laid out as a real one.
use crate::engine::*;
use crate::refm::*;
use fbas_analyzer::{Fbas, NodeIdSet, QuorumSet};
use std::sync::Arc;

pub type Gen = Arc<dyn Fn(u64) -> RF + Send + Sync>;
#[derive(Clone)]
pub struct U {
    pub name: String,
    pub len: u64,
    pub gen: Gen,
}
impl U {
    pub fn list(name: &str, v: Vec<RF>) -> U {
        let v = Arc::new(v);
        let l = v.len() as u64;
        U { name: name.into(), len: l, gen: Arc::new(move |i| v[i as usize].clone()) }
    }
    /// every way of giving node k a quorum set out of alphabet k
    pub fn product(name: &str, alph: Vec<Vec<RQ>>) -> U {
        let len = alph.iter().map(|a| a.len() as u64).product();
        let alph = Arc::new(alph);
        U {
            name: name.into(),
            len,
            gen: Arc::new(move |mut i| {
                let mut q = vec![];
                for a in alph.iter() {
                    let l = a.len() as u64;
                    q.push(a[(i % l) as usize].clone());
                    i /= l;
                }
                RF { q }
            }),
        }
    }
    /// every `k`-th element
    pub fn thin(&self, k: u64) -> U {
        // a stride without common factors with the number of alternatives visits all of them
        fn gcd(a: u64, b: u64) -> u64 {
            if b == 0 {
                a
            } else {
                gcd(b, a % b)
            }
        }
        let mut k = k;
        while gcd(k, self.len.max(1)) != 1 {
            k += 1;
        }
        let g = self.gen.clone();
        U { name: format!("{}/every-{}th", self.name, k), len: (self.len + k - 1) / k, gen: Arc::new(move |i| g(i * k)) }
    }
}

pub fn show_q(q: &RQ) -> String {
    let mut p: Vec<String> = q.v.iter().map(|x| x.to_string()).collect();
    p.extend(q.inner.iter().map(show_q));
    format!("[{} of {}]", q.t, p.join(","))
}
pub fn show(f: &RF) -> String {
    f.q.iter().enumerate().map(|(i, q)| format!("{}:{}", i, show_q(q))).collect::<Vec<_>>().join(" ")
}
pub fn show_sets(s: &[u32]) -> String {
    format!("{:?}", s.iter().map(|&m| bits(m)).collect::<Vec<_>>())
}

// ---------- alphabets ----------
/// all subsets (the empty one too) with all thresholds from 0 to one more than there are entries
pub fn flat_all(n: usize) -> Vec<RQ> {
    let mut r = vec![];
    for m in 0..1u32 << n {
        for t in 0..=m.count_ones() as u64 + 1 {
            r.push(RQ::mask(t, m));
        }
    }
    r
}
pub fn flat_proper(n: usize) -> Vec<RQ> {
    let mut r = vec![];
    for m in 1..1u32 << n {
        for t in 1..=m.count_ones() as u64 {
            r.push(RQ::mask(t, m));
        }
    }
    r
}
pub fn flat_self(n: usize, i: usize) -> Vec<RQ> {
    flat_proper(n).into_iter().filter(|q| q.v.contains(&i)).collect()
}
/// multisets of size `k` over `0..n`
pub fn multisets(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for s in multisets(n, k - 1) {
        let lo = s.last().copied().unwrap_or(0);
        for x in lo..n {
            let mut s2 = s.clone();
            s2.push(x);
            r.push(s2);
        }
    }
    r
}
/// quorum sets over two nodes: repeated validators, up to `maxi` nested sets, thresholds 0..=entries+1
pub fn rich2(maxv: usize, maxi: usize, inner: &[RQ]) -> Vec<RQ> {
    let mut r = vec![];
    for kv in 0..=maxv {
        for v in multisets(2, kv) {
            for ki in 0..=maxi {
                for is in multisets(inner.len(), ki) {
                    let ins: Vec<RQ> = is.iter().map(|&i| inner[i].clone()).collect();
                    for t in 0..=(kv + ki) as u64 + 1 {
                        r.push(RQ::new(t, &v, ins.clone()));
                    }
                }
            }
        }
    }
    r
}
pub fn inner2() -> Vec<RQ> {
    vec![
        RQ::flat(1, &[0]),
        RQ::flat(1, &[1]),
        RQ::flat(1, &[0, 1]),
        RQ::flat(2, &[0, 1]),
        RQ::flat(2, &[0]),
        RQ::flat(0, &[1]),
        RQ::flat(1, &[]),
        RQ::flat(2, &[0, 0]),
    ]
}
fn i(t: u64, v: &[usize]) -> RQ {
    RQ::flat(t, v)
}
pub fn nested3() -> Vec<RQ> {
    let n = RQ::new;
    let mut r = vec![
        n(1, &[], vec![i(1, &[0, 1])]),
        n(1, &[], vec![i(2, &[0, 1, 2])]),
        n(2, &[], vec![i(1, &[0, 1]), i(1, &[1, 2])]),
        n(1, &[], vec![i(2, &[0, 1]), i(2, &[1, 2])]),
        n(2, &[], vec![i(2, &[0, 1]), i(2, &[1, 2])]),
        n(2, &[], vec![i(1, &[0, 1]), i(1, &[1, 2]), i(1, &[0, 2])]),
        n(2, &[], vec![i(2, &[0, 1]), i(2, &[1, 2]), i(2, &[0, 2])]),
        n(3, &[], vec![i(1, &[0, 1]), i(1, &[1, 2]), i(1, &[0, 2])]),
        n(2, &[0], vec![i(1, &[1, 2])]),
        n(1, &[0], vec![i(2, &[1, 2])]),
        n(2, &[1], vec![i(1, &[0, 2])]),
        n(2, &[2], vec![i(2, &[0, 1])]),
        n(2, &[0, 1], vec![i(1, &[2])]),
        n(2, &[0, 1], vec![i(2, &[2])]),
        n(2, &[0, 1, 2], vec![i(3, &[0, 1])]),
        n(2, &[0, 1], vec![i(0, &[2])]),
        n(1, &[0, 1], vec![i(1, &[])]),
        n(2, &[0, 1], vec![i(1, &[1, 2])]),
        n(3, &[0, 1], vec![i(1, &[1, 2])]),
        n(3, &[0, 1], vec![i(1, &[0, 2]), i(1, &[1, 2])]),
        i(2, &[0, 0, 1]),
        i(3, &[0, 0, 1, 2]),
        i(2, &[0, 1, 1]),
        i(3, &[0, 0, 1, 1, 2]),
        i(2, &[2, 2]),
        n(1, &[], vec![n(1, &[], vec![i(2, &[0, 1, 2])])]),
        n(2, &[0], vec![n(2, &[1], vec![i(1, &[2])])]),
        n(2, &[], vec![n(1, &[0], vec![i(1, &[1])]), n(1, &[1], vec![i(1, &[2])])]),
        n(2, &[], vec![i(1, &[0]), i(1, &[1]), i(1, &[2])]),
        n(2, &[0], vec![i(1, &[0]), i(1, &[1, 2])]),
    ];
    r.push(n(u64::MAX, &[0, 1, 2], vec![]));
    r.push(n(2, &[0, 1, 2], vec![i(u64::MAX, &[0, 1])]));
    r
}
/// quorum sets over `n` nodes as seen by node `s`: rings, halves, common cores, everybody, nested
pub fn mixed(n: usize, s: usize, k: usize) -> Vec<RQ> {
    let w = |d: usize| (s + d) % n;
    let all: Vec<usize> = (0..n).collect();
    let half: Vec<usize> = (0..(n + 1) / 2).collect();
    let rest: Vec<usize> = ((n + 1) / 2..n).collect();
    let mut r = vec![
        i(2, &[w(0), w(1)]),
        i((2 * n as u64 + 1) / 3 + 1, &all).clamp_t(n),
        i(2, &[w(0), w(1), w(2)]),
        RQ::new(2, &[s], vec![i((half.len() as u64 + 1) / 2, &half), i((rest.len() as u64 + 1) / 2, &rest)]),
        i(half.len() as u64, &half),
        i(1, &rest),
        i(3, &[w(0), w(1), w(2), w(3)]),
        i(n as u64 / 2 + 1, &all),
        RQ::new(2, &[], vec![i(2, &[w(0), w(1)]), i(1, &[w(2), w(3)]), i(1, &[0, 1])]),
        i(2, &[w(0), w(n - 1)]),
        i(2, &[0, 1, 2]),
        i(2, &[w(0), w(0), w(2)]),
        i(n as u64, &all),
        RQ::new(3, &[w(0), w(1)], vec![i(1, &rest), i(1, &half)]),
    ];
    r.truncate(k);
    r
}
impl RQ {
    fn clamp_t(mut self, n: usize) -> RQ {
        self.t = self.t.min(n as u64);
        self
    }
}

// ---------- symmetric trees ----------
/// Quorum sets built from fresh nodes: `v` plain validators and some nested sets, and what happens if
/// some entries repeat a node.
pub fn trees(maxn: usize, max_inner: usize, tmode_all: bool) -> Vec<(usize, RQ)> {
    // shapes of nested sets: (number of fresh nodes, builder)
    let mut shapes: Vec<(usize, RQ)> = vec![];
    for k in 1..=3usize {
        for t in 0..=k as u64 + 1 {
            if k == 3 && (t == 0) {
                continue;
            }
            shapes.push((k, RQ::flat(t, &(0..k).collect::<Vec<_>>())));
        }
    }
    shapes.push((0, RQ::flat(0, &[])));
    shapes.push((0, RQ::flat(1, &[])));
    shapes.push((2, RQ::new(1, &[0], vec![RQ::flat(1, &[1])])));
    shapes.push((2, RQ::new(2, &[0], vec![RQ::flat(1, &[1])])));
    shapes.push((3, RQ::new(2, &[0], vec![RQ::flat(1, &[1, 2])])));
    shapes.push((3, RQ::new(1, &[0], vec![RQ::flat(2, &[1, 2])])));
    shapes.push((4, RQ::new(2, &[], vec![RQ::flat(1, &[0, 1]), RQ::flat(2, &[2, 3])])));
    shapes.push((4, RQ::new(1, &[], vec![RQ::flat(2, &[0, 1]), RQ::flat(2, &[2, 3])])));
    shapes.push((4, RQ::flat(3, &[0, 1, 2, 3])));
    shapes.push((4, RQ::flat(2, &[0, 1, 2, 3])));
    let mut r = vec![];
    for ki in 0..=max_inner {
        for is in multisets(shapes.len(), ki) {
            let inner_n: usize = is.iter().map(|&x| shapes[x].0).sum();
            for v in 0..=5usize {
                let n = v + inner_n;
                if n == 0 || n > maxn {
                    continue;
                }
                let mut next = v;
                let inner: Vec<RQ> = is
                    .iter()
                    .map(|&x| {
                        let off = next;
                        next += shapes[x].0;
                        shapes[x].1.map(&|y| y + off)
                    })
                    .collect();
                let vs: Vec<usize> = (0..v).collect();
                for t in 0..=(v + ki) as u64 + 1 {
                    if !tmode_all && (t == 0 || t > (v + ki) as u64) && ki > 1 {
                        continue;
                    }
                    r.push((n, RQ::new(t, &vs, inner.clone())));
                }
            }
        }
    }
    r
}
pub fn symmetric(n: usize, q: &RQ) -> RF {
    RF { q: vec![q.clone(); n] }
}
/// same quorums, but node 0 is configured differently (so shortcuts for symmetry do not apply)
pub fn perturbed(n: usize, q: &RQ) -> RF {
    let mut f = symmetric(n, q);
    f.q[0].v.push(0);
    f.q[0].t = f.q[0].t.saturating_add(1);
    f
}
/// variants of a tree in which some validators are listed more than once
pub fn duplicated(n: usize, q: &RQ) -> Vec<(usize, RQ)> {
    let mut r = vec![];
    // one more mention of a node at the top, and in the first nested set
    for x in [0, n - 1] {
        let mut a = q.clone();
        a.v.push(x);
        r.push((n, a.clone()));
        a.t += 1;
        r.push((n, a));
        if !q.inner.is_empty() {
            let mut b = q.clone();
            b.inner[0].v.push(x);
            r.push((n, b.clone()));
            b.inner[0].t += 1;
            r.push((n, b));
        }
    }
    // the last node is replaced by node 0
    if n >= 2 {
        let l = n - 1;
        r.push((n - 1, q.map(&|x| if x == l { 0 } else { x })));
    }
    // the two last nodes are replaced by the two first
    if n >= 4 {
        r.push((n - 2, q.map(&|x| if x >= n - 2 { x - (n - 2) } else { x })));
    }
    r
}
pub fn tree_universe(maxn: usize, max_inner: usize) -> Vec<RF> {
    let mut r = vec![];
    for (n, q) in trees(maxn, max_inner, false) {
        r.push(symmetric(n, &q));
        r.push(perturbed(n, &q));
    }
    r
}
pub fn dup_universe(maxn: usize, max_inner: usize) -> Vec<RF> {
    let mut r = vec![];
    for (n, q) in trees(maxn, max_inner, false) {
        for (n2, q2) in duplicated(n, &q) {
            r.push(symmetric(n2, &q2));
            r.push(perturbed(n2, &q2));
        }
    }
    r
}
/// nodes in two or three classes; every member of a class has the same quorum set
pub fn class_universe(sizes: &[&[usize]], thin: usize) -> Vec<RF> {
    let mut r = vec![];
    let mut cnt = 0usize;
    for s in sizes {
        let n: usize = s.iter().sum();
        let mut cls: Vec<Vec<usize>> = vec![];
        let mut o = 0;
        for &k in s.iter() {
            cls.push((o..o + k).collect());
            o += k;
        }
        let all: Vec<usize> = (0..n).collect();
        let mut alph: Vec<RQ> = vec![];
        for t in [n as u64 / 2, n as u64 / 2 + 1, (2 * n as u64 + 2) / 3, n as u64 - 1] {
            alph.push(RQ::flat(t, &all));
        }
        for (a, c) in cls.iter().enumerate() {
            let k = c.len() as u64;
            alph.push(RQ::flat(k / 2 + 1, c));
            if k > 2 {
                alph.push(RQ::flat(k - 1, c));
            }
            for (b, d) in cls.iter().enumerate() {
                if a != b {
                    alph.push(RQ::new(2, &[], vec![RQ::flat(k / 2 + 1, c), RQ::flat(1, d)]));
                    if a < b {
                        let cd: Vec<usize> = c.iter().chain(d).copied().collect();
                        alph.push(RQ::flat(cd.len() as u64 / 2 + 1, &cd));
                    }
                }
            }
        }
        alph.push(RQ::new(2, &[], cls.iter().map(|c| RQ::flat(c.len() as u64 / 2 + 1, c)).collect()));
        alph.push(RQ::new(cls.len() as u64, &[], cls.iter().map(|c| RQ::flat((c.len() as u64 + 1) / 2, c)).collect()));
        let l = alph.len();
        for idx in 0..l.pow(s.len() as u32) {
            cnt += 1;
            if cnt % thin != 0 {
                continue;
            }
            let mut x = idx;
            let mut q = vec![];
            for c in &cls {
                for _ in c {
                    q.push(alph[x % l].clone());
                }
                x /= l;
            }
            r.push(RF { q });
        }
    }
    r
}
/// two independent parts next to each other, nodes interleaved or not
pub fn juxtapose(a: &RF, b: &RF, interleave: bool) -> RF {
    let (na, nb) = (a.n(), b.n());
    let mut pa = vec![];
    let mut pb = vec![];
    if interleave {
        let (mut x, mut y) = (0, 0);
        let mut k = 0;
        while x < na || y < nb {
            if (k % 2 == 0 && y < nb) || x >= na {
                pb.push(k);
                y += 1;
            } else {
                pa.push(k);
                x += 1;
            }
            k += 1;
        }
    } else {
        pa = (0..na).collect();
        pb = (na..na + nb).collect();
    }
    let mut q = vec![RQ::default(); na + nb];
    for i in 0..na {
        q[pa[i]] = a.q[i].map(&|x| pa[x]);
    }
    for i in 0..nb {
        q[pb[i]] = b.q[i].map(&|x| pb[x]);
    }
    RF { q }
}
pub fn small_parts() -> Vec<RF> {
    let mut r = vec![];
    for (n, q) in trees(4, 2, false).into_iter().step_by(7) {
        r.push(symmetric(n, &q));
    }
    for (n, q) in trees(3, 1, false).into_iter().step_by(3) {
        r.push(perturbed(n, &q));
    }
    for q in [i(1, &[0]), i(1, &[0, 0]), i(2, &[0, 0]), i(1, &[]), i(0, &[0])] {
        r.push(symmetric(1, &q));
    }
    r.push(symmetric(2, &i(1, &[0, 1])));
    r.push(symmetric(3, &i(2, &[0, 1, 2])));
    r.push(perturbed(3, &i(2, &[0, 1, 2])));
    r.push(RF { q: vec![i(2, &[0, 1]), i(2, &[1, 2]), i(2, &[2, 0])] });
    r.push(RF { q: vec![i(2, &[0, 1]), i(1, &[1, 0]), i(2, &[2, 0])] });
    r.push(RF { q: vec![] });
    r
}
pub fn pair_universe(thin: usize) -> Vec<RF> {
    let p = small_parts();
    let mut r = vec![];
    let mut c = 0;
    for a in &p {
        for b in &p {
            c += 1;
            if c % thin == 0 {
                r.push(juxtapose(a, b, c % 2 == 0));
            }
        }
    }
    r
}
/// a small but varied selection (every kind of configuration once or twice) for properties that are
/// explored in other dimensions too
pub fn varied(k: usize) -> Vec<RF> {
    let mut r: Vec<RF> = vec![RF { q: vec![] }];
    let mut add = |v: Vec<RF>, m: usize| {
        let step = (v.len() / m.max(1)).max(1);
        r.extend(v.into_iter().step_by(step).take(m));
    };
    add(tree_universe(6, 2), k);
    add(dup_universe(5, 2), k / 2);
    add(class_universe(&[&[2, 2, 2], &[3, 2], &[3, 3], &[4, 1]], 1), k / 2);
    add(pair_universe(1), k / 2);
    let u = U::product("", (0..5).map(|s| mixed(5, s, 10)).collect());
    let m = (k / 2) as u64;
    add((0..m).map(|i| (u.gen)(i * (u.len / m) + i * 7 % 1000)).collect(), m as usize);
    let u = U::product("", vec![[flat_all(3), nested3()].concat(); 3]);
    let m = k as u64;
    add((0..m).map(|i| (u.gen)((i * (u.len / m) + i * 131 % 3001) % u.len)).collect(), m as usize);
    r.push(RF { q: vec![RQ::default(); 3] });
    r
}

/// what all exactness properties of the analysis are checked on
pub fn analysis_universe(t: Tier) -> Vec<(U, &'static [Layout])> {
    use Layout::*;
    const ALL: &[Layout] = &[Ident, Rev, Pad, Wide];
    const ONE: &[Layout] = &[Ident];
    const TWO: &[Layout] = &[Ident, Pad];
    let quick = t == Tier::Quick;
    let i2 = inner2();
    let mut r: Vec<(U, &'static [Layout])> = vec![];
    r.push((U::list("no-nodes", vec![RF { q: vec![] }]), ONE));
    r.push((U::product("n1-nested", vec![rich1()]), ALL));
    if quick {
        let a = rich2(2, 1, &i2);
        r.push((U::product("n2-nested", vec![a.clone(), a]), ONE));
    } else {
        let a = rich2(2, 2, &i2);
        r.push((U::product("n2-nested", vec![a.clone(), a]), ONE));
        let a = rich2(2, 1, &i2);
        r.push((U::product("n2-nested-layouts", vec![a.clone(), a]), ALL));
    }
    let a3 = [flat_all(3), nested3()].concat();
    r.push((U::product("n3-flat+nested", vec![a3.clone(); 3]), if quick { ONE } else { ALL }));
    if quick {
        r.push((U::product("n4-flat-self", (0..4).map(|s| flat_self(4, s)).collect()), ONE));
        r.push((U::product("n5-mixed", (0..5).map(|s| mixed(5, s, 8)).collect()), ONE));
        r.push((U::product("n6-mixed", (0..6).map(|s| mixed(6, s, 5)).collect()), ONE));
        r.push((U::list("symmetric-trees", tree_universe(7, 2)), TWO));
        r.push((U::list("repeated-validators", dup_universe(6, 2)), TWO));
        r.push((U::list("classes", class_universe(&[&[3, 2], &[3, 3], &[2, 2, 2], &[4, 3], &[5, 3], &[3, 3, 3]], 3)), TWO));
        r.push((U::list("pairs", pair_universe(1)), ALL));
        r.push((U::list("varied-layouts", varied(800)), ALL));
    } else {
        r.push((U::product("n4-flat", vec![flat_proper(4); 4]), ONE));
        r.push((U::product("n4-nested", (0..4).map(|_| quads()).collect()), ONE));
        r.push((U::product("n5-mixed", (0..5).map(|s| mixed(5, s, 14)).collect()), ONE));
        r.push((U::product("n6-mixed", (0..6).map(|s| mixed(6, s, 8)).collect()), ONE));
        r.push((U::list("symmetric-trees", tree_universe(9, 3)), TWO));
        r.push((U::list("repeated-validators", dup_universe(7, 3)), TWO));
        r.push((
            U::list(
                "classes",
                class_universe(
                    &[&[3, 2], &[3, 3], &[4, 2], &[2, 2, 2], &[4, 3], &[5, 3], &[3, 2, 2], &[3, 3, 3], &[4, 3, 2], &[5, 5], &[4, 4, 2]],
                    1,
                ),
            ),
            TWO,
        ));
        r.push((U::list("pairs", pair_universe(1)), ALL));
        r.push((U::list("varied-layouts", varied(4000)), ALL));
    }
    r.extend(odd_shapes(quick));
    r
}
pub fn rich1() -> Vec<RQ> {
    let mut r = vec![];
    let inner = [i(1, &[0]), i(1, &[]), i(0, &[]), i(0, &[0]), i(2, &[0]), i(2, &[0, 0]), RQ::new(1, &[], vec![i(1, &[0])])];
    for v in 0..=3usize {
        for ki in 0..=2 {
            for is in multisets(inner.len(), ki) {
                for t in 0..=(v + ki) as u64 + 1 {
                    r.push(RQ::new(t, &vec![0; v], is.iter().map(|&x| inner[x].clone()).collect()));
                }
            }
        }
    }
    r
}
/// nested and flat quorum sets over four nodes
pub fn quads() -> Vec<RQ> {
    let n = RQ::new;
    vec![
        i(3, &[0, 1, 2, 3]),
        i(2, &[0, 1, 2, 3]),
        i(2, &[0, 1]),
        i(2, &[2, 3]),
        i(1, &[0]),
        i(2, &[0, 3]),
        i(2, &[1, 2, 3]),
        n(2, &[], vec![i(1, &[0, 1]), i(1, &[2, 3])]),
        n(1, &[], vec![i(2, &[0, 1]), i(2, &[2, 3])]),
        n(2, &[], vec![i(2, &[0, 1, 2]), i(1, &[3])]),
        n(2, &[0], vec![i(1, &[1, 2]), i(1, &[2, 3])]),
        n(3, &[0, 1], vec![i(1, &[1, 2]), i(1, &[3, 2])]),
        n(2, &[3], vec![i(2, &[0, 1, 2])]),
        n(2, &[], vec![i(2, &[0, 1]), i(2, &[1, 2]), i(2, &[2, 3]), i(2, &[3, 0])]),
        i(0, &[0, 1]),
        i(5, &[0, 1, 2, 3]),
        n(2, &[0, 1, 2], vec![i(0, &[3])]),
        n(3, &[0, 1, 2], vec![i(2, &[3])]),
        i(3, &[0, 0, 1, 2]),
        n(2, &[1], vec![n(1, &[0], vec![i(2, &[2, 3])])]),
    ]
}

// ---------- transformations that leave the meaning alone, or barely ----------
/// `q`, one level of nesting further down, `k` times
fn wrap(q: RQ, k: usize) -> RQ {
    (0..k).fold(q, |q, _| RQ::new(1, &[], vec![q]))
}
pub const DEEP: usize = 6;
/// some validators are moved (much) further down into nested sets
pub fn deep(q: &RQ, mode: usize) -> RQ {
    if mode == 3 {
        return wrap(q.clone(), 3);
    }
    let mut r = RQ { t: q.t, v: vec![], inner: q.inner.iter().map(|x| deep(x, mode)).collect() };
    for (k, &x) in q.v.iter().enumerate() {
        let d = match mode {
            0 => 4,
            1 if k + 1 == q.v.len() => 3,
            2 if k == 0 => 5,
            4 => k % 5,
            5 => x % 3 * 2,
            _ => 0,
        };
        if d == 0 {
            r.v.push(x);
        } else {
            r.inner.push(wrap(RQ::flat(1, &[x]), d - 1));
        }
    }
    r
}
pub const REPEAT: usize = 5;
/// nested sets are listed more than once
pub fn repeat(q: &RQ, mode: usize) -> RQ {
    let mut r = q.clone();
    if r.inner.is_empty() && r.v.len() >= 2 {
        let (a, b) = (r.v.remove(0), r.v.remove(0));
        r.inner.push(RQ::flat(1 + (mode % 2) as u64, &[a, b]));
    }
    match mode {
        0 | 1 => {
            if let Some(x) = r.inner.last().cloned() {
                r.inner.push(x);
                r.t = r.t.saturating_add(mode as u64);
            }
        }
        2 | 3 => {
            let i = r.inner.clone();
            r.inner.extend(i);
            r.t = r.t.saturating_mul(mode as u64 - 1).saturating_add(mode as u64 - 2);
        }
        _ => {
            // the same thing once plain, once nested
            if let Some(&x) = r.v.first() {
                r.inner.push(RQ::flat(1, &[x]));
                r.inner.push(RQ::flat(1, &[x]));
                r.t = r.t.saturating_add(1);
            }
        }
    }
    r
}
pub fn deepened(us: Vec<RF>) -> Vec<RF> {
    let mut r = vec![];
    for (k, f) in us.iter().enumerate() {
        for m in 0..DEEP {
            r.push(RF { q: f.q.iter().map(|q| deep(q, m)).collect() });
        }
        // not everybody alike
        r.push(RF { q: f.q.iter().enumerate().map(|(i, q)| deep(q, (i + k) % DEEP)).collect() });
    }
    r
}
pub fn repeated(us: Vec<RF>) -> Vec<RF> {
    let mut r = vec![];
    for f in us.iter() {
        for m in 0..REPEAT {
            r.push(RF { q: f.q.iter().map(|q| repeat(q, m)).collect() });
        }
        for m in 0..REPEAT {
            r.push(RF { q: f.q.iter().enumerate().map(|(i, q)| if i % 2 == 0 { repeat(q, (m + i / 2) % REPEAT) } else { q.clone() }).collect() });
        }
    }
    r
}
/// quorum sets over four nodes with nested sets listed repeatedly, as seen by node `s`
pub fn repeats4(s: usize) -> Vec<RQ> {
    let n = RQ::new;
    let w = |d: usize| (s + d) % 4;
    let all = [0, 1, 2, 3];
    vec![
        i(3, &all),
        n(3, &[s], vec![i(2, &all), i(2, &all)]),
        n(2, &[], vec![i(1, &[w(0), w(1)]), i(1, &[w(0), w(1)]), i(2, &[w(2), w(3)])]),
        n(3, &[w(1)], vec![i(1, &[w(0), w(2)]), i(1, &[w(0), w(2)]), i(1, &[w(0), w(2)])]),
        n(2, &[], vec![i(2, &[0, 1, 2]), i(2, &[0, 1, 2]), i(3, &all)]),
        n(3, &[w(0), w(1), w(2)], vec![i(2, &[0, 3]), i(2, &[0, 3])]),
        n(3, &[], vec![i(2, &[1, 2, 3]), i(2, &[1, 2, 3]), i(1, &[0]), i(1, &[0])]),
        n(2, &[], vec![n(1, &[w(0)], vec![i(2, &all), i(2, &all)]), n(2, &[w(1)], vec![i(1, &[w(2)]), i(1, &[w(2)])])]),
        n(4, &[w(0), w(1)], vec![i(1, &[w(2), w(3)]), i(1, &[w(2), w(3)]), i(3, &all)]),
    ]
}
/// long chains of dependencies, in many orders of the nodes: node ord[k] needs node ord[k+1] and so on
pub fn chains(ns: &[usize]) -> Vec<RF> {
    let mut r = vec![];
    for &n in ns {
        let mut orders: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect()];
        // from both ends, from the middle, even ones first, strides
        orders.push((0..n).map(|k| if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 }).collect());
        let o = orders[2].clone();
        orders.push(o.into_iter().rev().collect());
        orders.push((0..n).step_by(2).chain((1..n).step_by(2)).collect());
        orders.push((0..n).step_by(2).chain((1..n).step_by(2).rev()).collect());
        for st in [3usize, 5, 7] {
            if (1..n).all(|d| n % d != 0 || st % d != 0 || d == 1) {
                orders.push((0..n).map(|k| k * st % n).collect());
            }
        }
        orders.push((0..n).map(|k| if k < n / 2 { 2 * k + 1 } else { 2 * (k - n / 2) }).map(|x| x.min(n - 1)).collect());
        for o in orders {
            let mut seen = o.clone();
            seen.sort_unstable();
            if seen != (0..n).collect::<Vec<_>>() {
                continue;
            }
            for kind in 0..7 {
                let mut q = vec![RQ::default(); n];
                for k in 0..n {
                    let at = |d: usize| o[(k + d) % n];
                    let (me, last) = (o[k], k + 1 == n);
                    q[me] = match kind {
                        // the last one is content with itself
                        0 if last => i(1, &[me]),
                        // the last one can't be satisfied
                        1 if last => i(2, &[me]),
                        // the last one is unconfigured
                        2 if last => RQ::default(),
                        // a ring
                        0..=3 => i(2, &[me, at(1)]),
                        // two successors, or the last three are a cluster
                        4 if k + 3 >= n => i(2, &[o[n - 3], o[n - 2], o[n - 1]]),
                        4 => i(2, &[me, at(1), at(2)]),
                        // a chain of pairs: everyone needs one of two, the end needs too many
                        5 if k + 2 >= n => i(3, &[me, o[n - 1]]),
                        5 => RQ::new(2, &[me], vec![i(1, &[at(1), at(2)])]),
                        // without itself; the last two have each other
                        _ if k + 2 >= n => i(2, &[o[n - 2], o[n - 1]]),
                        _ => i(1, &[at(1)]),
                    };
                }
                r.push(RF { q });
            }
        }
    }
    r
}
/// bigger systems, as people would configure them
pub fn bigger(maxn: usize) -> Vec<RF> {
    let mut r = vec![];
    let org = |o: usize, k: usize| -> Vec<usize> { (o * k..o * k + k).collect() };
    for (orgs, k) in [(4usize, 3usize), (3, 4), (5, 2), (3, 3), (7, 2), (5, 3), (4, 4)] {
        let n = orgs * k;
        if n > maxn {
            continue;
        }
        let maj = |o: usize| i(k as u64 / 2 + 1, &org(o, k));
        let tq = |os: &[usize]| RQ::new((2 * os.len() as u64 + 2) / 3, &[], os.iter().map(|&o| maj(o)).collect());
        let every: Vec<usize> = (0..orgs).collect();
        // everyone trusts all organizations
        r.push(RF { q: vec![tq(&every); n] });
        // everyone trusts all but one organization
        r.push(RF { q: (0..n).map(|x| tq(&every.iter().copied().filter(|&o| o != (x / k + 1) % orgs).collect::<Vec<_>>())).collect() });
        // itself and all organizations
        r.push(RF { q: (0..n).map(|x| RQ::new(2, &[x], vec![tq(&every)])).collect() });
        // one organization does something else
        r.push(RF { q: (0..n).map(|x| if x / k == 0 { i(k as u64, &org(0, k)) } else { tq(&every) }).collect() });
        r.push(RF { q: (0..n).map(|x| if x / k == orgs - 1 { RQ::new(2, &[0, x], vec![]) } else { tq(&every[..orgs - 1]) }).collect() });
        // simple majority of own organization and of the next one
        r.push(RF { q: (0..n).map(|x| RQ::new(2, &[], vec![maj(x / k), maj((x / k + 1) % orgs)])).collect() });
    }
    for n in [9usize, 10, 11, 12, 13, 14] {
        if n > maxn {
            continue;
        }
        let all: Vec<usize> = (0..n).collect();
        for t in [n / 2, n / 2 + 1, (2 * n + 2) / 3, n - 1] {
            r.push(symmetric(n, &i(t as u64, &all)));
            r.push(perturbed(n, &i(t as u64, &all)));
        }
        // windows on a ring
        for w in [3usize, 4, 5] {
            r.push(RF { q: (0..n).map(|x| i(w as u64 - 1, &(0..w).map(|d| (x + d) % n).collect::<Vec<_>>())).collect() });
            r.push(RF { q: (0..n).map(|x| RQ::new(2, &[x], vec![i(w as u64 / 2 + 1, &(1..=w).map(|d| (x + d) % n).collect::<Vec<_>>())])).collect() });
        }
        // a core and followers
        let c = n / 2;
        r.push(RF { q: (0..n).map(|x| if x < c { i((2 * c as u64 + 2) / 3, &all[..c]) } else { i(2, &[x, x - c, (x - c + 1) % c]) }).collect() });
        r.push(RF { q: (0..n).map(|x| if x >= n - c { i(c as u64 / 2 + 1, &all[n - c..]) } else { RQ::new(2, &[x], vec![i(1, &all[n - c..])]) }).collect() });
        // two disjoint halves, bridged by one node or not
        r.push(RF { q: (0..n).map(|x| if x < c { i(c as u64 / 2 + 1, &all[..c]) } else { i((n - c) as u64 / 2 + 1, &all[c..]) }).collect() });
        r.push(RF { q: (0..n).map(|x| if x <= c { i(c as u64 / 2 + 2, &all[..c + 1]) } else { RQ::new(2, &[c], vec![i((n - c) as u64 / 2 + 1, &all[c..])]) }).collect() });
    }
    r
}
/// every kind of disturbance of the common layouts
pub fn odd_shapes(quick: bool) -> Vec<(U, &'static [Layout])> {
    use Layout::*;
    const ONE: &[Layout] = &[Ident];
    const TWO: &[Layout] = &[Ident, Pad];
    let mut few: Vec<RF> = tree_universe(5, 2).into_iter().step_by(if quick { 11 } else { 2 }).collect();
    few.extend(varied(if quick { 100 } else { 600 }));
    let mut r: Vec<(U, &'static [Layout])> = vec![];
    r.push((U::list("deeply nested", deepened(few.clone())), TWO));
    r.push((U::list("repeated nested sets", repeated(few)), TWO));
    r.push((U::product("n4-repeats", (0..4).map(repeats4).collect()), ONE));
    r.push((U::list("chains", chains(if quick { &[5, 7, 8] } else { &[5, 6, 7, 8, 9, 10, 11] })), TWO));
    r.push((U::list("bigger", bigger(if quick { 12 } else { 16 })), if quick { ONE } else { TWO }));
    r.push((U::list("far-apart IDs", varied(if quick { 6 } else { 40 })), &[Gap, Far]));
    r
}

// ---------- layouts ----------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    /// node k of the model is node k
    Ident,
    /// in reverse order
    Rev,
    /// interleaved with unconfigured, unsatisfiable and dependent nodes
    Pad,
    /// node IDs beyond 64
    Wide,
    /// node IDs that differ by more than 256
    Gap,
    /// node IDs beyond 65536
    Far,
    /// the model consists of the relevant nodes of a bigger FBAS
    Part,
}
pub struct Laid {
    pub fbas: Fbas,
    /// real ID of every model node
    pub ids: Vec<usize>,
    pub total: usize,
    pub layout: Layout,
    /// model of the whole FBAS, in real IDs
    pub real: RF,
}
pub fn to_qs(q: &RQ) -> QuorumSet {
    QuorumSet { threshold: q.t as usize, validators: q.v.clone(), inner_quorum_sets: q.inner.iter().map(to_qs).collect() }
}
pub fn from_qs(q: &QuorumSet) -> RQ {
    RQ { t: q.threshold as u64, v: q.validators.clone(), inner: q.inner_quorum_sets.iter().map(from_qs).collect() }
}
pub fn to_fbas(f: &RF) -> Fbas {
    let mut r = Fbas::new();
    for q in &f.q {
        r.add_generic_node(to_qs(q));
    }
    r
}
pub fn lay_rf(f: &RF, l: Layout) -> (RF, Vec<usize>) {
    let n = f.n();
    let (ids, total): (Vec<usize>, usize) = match l {
        Layout::Ident => ((0..n).collect(), n),
        Layout::Rev => ((0..n).rev().collect(), n),
        Layout::Pad => ((0..n).map(|i| 2 * (if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }) + 1).collect(), 2 * n + 2),
        Layout::Wide => ((0..n).map(|i| 59 + 5 * i).collect(), 59 + 5 * n + 1),
        Layout::Gap => ((0..n).map(|i| 300 * i + 3).collect(), 300 * n + 4),
        Layout::Part => unreachable!(),
        Layout::Far => ((0..n).map(|i| if n == 1 { 65_666 } else { 130 + i * 65_700 / (n - 1) }).collect(), 66_000),
    };
    let mut q = vec![RQ::default(); total];
    for i in 0..n {
        q[ids[i]] = f.q[i].map(&|x| ids[x]);
    }
    if l == Layout::Pad && n > 0 {
        let mut k = 0;
        for x in 0..total {
            if !ids.contains(&x) {
                q[x] = match k % 4 {
                    0 => RQ::default(),
                    1 => RQ::flat(1, &[ids[0], ids[n - 1]]),
                    2 => RQ::flat(2 + n as u64, &ids),
                    _ => RQ::new(2, &[x], vec![RQ::flat(1, &[0, ids[n / 2]])]),
                };
                k += 1;
            }
        }
    }
    (RF { q }, ids)
}
pub fn lay(f: &RF, l: Layout) -> Laid {
    let (real, ids) = lay_rf(f, l);
    Laid { fbas: to_fbas(&real), ids, total: real.n(), layout: l, real }
}
impl Laid {
    /// a set of real node IDs in terms of the model's nodes
    pub fn mask(&self, s: &NodeIdSet) -> Result<u32, String> {
        let mut m = 0;
        for x in s.iter() {
            match self.ids.iter().position(|&y| y == x) {
                Some(k) => m |= 1 << k,
                None => return Err(format!("{:?} contains node {}, which is not part of any minimal quorum", s.iter().collect::<Vec<_>>(), x)),
            }
        }
        Ok(m)
    }
    pub fn set(&self, m: u32) -> NodeIdSet {
        bits(m).into_iter().map(|k| self.ids[k]).collect()
    }
    pub fn mask_of_ids(&self, s: &[usize]) -> Result<u32, String> {
        self.mask(&s.iter().copied().collect())
    }
    pub fn desc(&self) -> String {
        format!("layout {:?} (node IDs {:?} of {})", self.layout, self.ids, self.total)
    }
}
/// compare a reported family of sets with the expected one: same members, no repetition, ascending sizes
pub fn same_family(l: &Laid, what: &str, got: &[NodeIdSet], want: &[u32]) -> Result<(), String> {
    let mut g = vec![];
    for s in got {
        g.push(l.mask(s).map_err(|e| format!("{}: {}", what, e))?);
    }
    let mut a = g.clone();
    a.sort_unstable();
    let mut b = want.to_vec();
    b.sort_unstable();
    if a != b {
        return Err(format!("{}: reported {} but exact is {} (model nodes)", what, show_sets(&g), show_sets(want)));
    }
    if got.windows(2).any(|w| w[0].len() > w[1].len()) {
        return Err(format!("{}: not ordered by size: {}", what, show_sets(&g)));
    }
    Ok(())
}

pub type Check = fn(&RF, &Oracle, &Laid, &mut Ctx) -> Result<(), String>;
/// one family per universe; each case is run in each of the given layouts
pub fn families(us: Vec<(U, &'static [Layout])>, check: Check) -> Vec<Family> {
    us.into_iter()
        .map(|(u, ls)| {
            let g = u.gen.clone();
            let g2 = u.gen.clone();
            Family::new(
                u.name.clone(),
                u.len,
                move |i, ctx| {
                    let f = g(i);
                    let o = Oracle::new(&f);
                    ctx.states += 1;
                    for &l in ls {
                        let laid = lay(&f, l);
                        ctx.traces += 1;
                        if let Err(e) = check(&f, &o, &laid, ctx) {
                            return fail(format!("{} {:?}", show(&f), l), format!("{}\n{}", laid.desc(), e));
                        }
                    }
                    if i % 1009 == 7 {
                        ctx.sample(|| format!("{} => minimal quorums {} blocking {} splitting {}", show(&f), show_sets(&o.mq), show_sets(&o.mbs), show_sets(&o.mss)));
                    }
                    Ok(())
                },
                move |i| show(&g2(i)),
            )
        })
        .collect()
}

// ---------- FBASs with many nodes of which few are relevant ----------
/// model of the relevant nodes, and the whole FBAS; None if more than `max` nodes are relevant
pub fn part(real: RF, max: usize) -> Option<(RF, Laid)> {
    let ids = big_relevant(&real);
    if ids.len() > max {
        return None;
    }
    let model = RF { q: ids.iter().map(|&i| real.q[i].filter_map(&|x| ids.iter().position(|&y| y == x))).collect() };
    let laid = Laid { fbas: to_fbas(&real), ids, total: real.n(), layout: Layout::Part, real };
    Some((model, laid))
}
fn data(s: &str) -> RF {
    fn q(v: &serde_json::Value) -> RQ {
        RQ { t: v[0].as_u64().unwrap(), v: v[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(), inner: v[2].as_array().unwrap().iter().map(q).collect() }
    }
    let v: serde_json::Value = serde_json::from_str(s).unwrap();
    let t: Vec<RQ> = v["quorum_sets"].as_array().unwrap().iter().map(q).collect();
    RF { q: v["nodes"].as_array().unwrap().iter().map(|x| t[x.as_u64().unwrap() as usize].clone()).collect() }
}
/// the real networks among the repository's test data
pub fn real_networks() -> Vec<(&'static str, RF)> {
    vec![
        ("correct", data(include_str!("../data/correct.json"))),
        ("broken", data(include_str!("../data/broken.json"))),
        ("2019-09-17", data(include_str!("../data/stellarbeat_nodes_2019-09-17.json"))),
        ("2020-01-16 broken by hand", data(include_str!("../data/stellarbeat_nodes_2020-01-16_broken_by_hand.json"))),
    ]
}
pub const EDITS: usize = 11;
/// one node is configured differently; None if that changes nothing
pub fn edited(f: &RF, i: usize, kind: usize) -> Option<RF> {
    let mut r = f.clone();
    let q = &mut r.q[i];
    match kind {
        0 => *q = RQ::default(),
        1 => q.t += 1,
        2 => q.t = q.t.saturating_sub(1),
        3 => *q = RQ::flat(1, &[i]),
        4 => {
            q.v.pop();
        }
        5 => {
            if !q.inner.is_empty() {
                q.inner.remove(0);
            }
        }
        6 => q.v.push(i),
        7 => {
            if let Some(x) = q.inner.last().cloned() {
                q.inner.push(x);
            }
        }
        8 => {
            if let Some(x) = q.inner.first_mut() {
                x.t += 1;
            }
        }
        9 => {
            if let Some(x) = q.inner.last_mut() {
                x.t = x.t.saturating_sub(1);
            }
        }
        _ => {
            let x = f.q[(i + 1) % f.n()].clone();
            *q = RQ::new(2, &[], vec![q.clone(), x]);
        }
    }
    if r == *f {
        None
    } else {
        Some(r)
    }
}
/// Stellar-like systems with a few more nodes than can be varied freely
pub fn many_nodes() -> Vec<RF> {
    let mut r = vec![];
    for (orgs, k) in [(5usize, 3usize), (6, 3), (4, 4), (8, 2)] {
        let org = |o: usize| -> Vec<usize> { (o * k..o * k + k).collect() };
        let n = orgs * k;
        let maj = |o: usize| i(k as u64 / 2 + 1, &org(o));
        let every: Vec<usize> = (0..orgs).collect();
        let tq = |t: u64, os: &[usize]| RQ::new(t, &[], os.iter().map(|&o| maj(o)).collect());
        for t in [orgs as u64 / 2 + 1, (2 * orgs as u64 + 2) / 3, orgs as u64 - 1] {
            r.push(RF { q: vec![tq(t, &every); n] });
            // node 0 also needs itself
            let mut f = RF { q: vec![tq(t, &every); n] };
            f.q[0] = RQ::new(2, &[0], vec![tq(t, &every)]);
            r.push(f.clone());
            // two configurations
            for x in 0..n {
                if x % 2 == 1 {
                    f.q[x] = tq(t.min(orgs as u64 - 1), &every[1..]);
                }
            }
            r.push(f);
        }
        // each one ignores the next organization
        r.push(RF { q: (0..n).map(|x| tq((2 * orgs as u64 + 1) / 3, &every.iter().copied().filter(|&o| o != (x / k + 1) % orgs).collect::<Vec<_>>())).collect() });
    }
    for n in [15usize, 16, 17] {
        let all: Vec<usize> = (0..n).collect();
        for t in [n / 2 + 1, (2 * n + 2) / 3, n - 1] {
            r.push(symmetric(n, &i(t as u64, &all)));
        }
        r.push(perturbed(n, &i(n as u64 - 2, &all)));
        r.push(RF { q: (0..n).map(|x| i(2, &[x, (x + 1) % n, (x + 3) % n])).collect() });
    }
    r
}
/// runs a check on FBASs of which only the relevant part is modelled by brute force
pub fn part_family(name: &str, fs: Vec<(String, RF)>, max: usize, check: Check) -> Family {
    let fs = Arc::new(fs);
    let f2 = fs.clone();
    Family::new(
        name,
        fs.len() as u64,
        move |i, ctx| {
            let (what, real) = &fs[i as usize];
            ctx.states += 1;
            let Some((model, laid)) = part(real.clone(), max) else {
                ctx.count("left_out_because_too_many_nodes_are_relevant", 1);
                return Ok(());
            };
            ctx.traces += 1;
            let o = Oracle::new(&model);
            if let Err(e) = check(&model, &o, &laid, ctx) {
                return fail(what.clone(), format!("{}\n{}", laid.desc(), e));
            }
            Ok(())
        },
        move |i| f2[i as usize].0.clone(),
    )
}
/// real networks, each with every listed change to every (k-th) node, and systems with many nodes
pub fn big_families(t: Tier, check: Check) -> Vec<Family> {
    let quick = t == Tier::Quick;
    let mut small = vec![];
    let mut big = vec![];
    for (name, f) in real_networks() {
        let rel = big_relevant(&f);
        if rel.len() > 20 && quick {
            continue;
        }
        let l = if rel.len() <= 10 { &mut small } else { &mut big };
        l.push((name.to_string(), f.clone()));
        for i in 0..f.n() {
            for k in 0..EDITS {
                // the expensive ones: all changes to relevant nodes only, of the 22-node one few
                if rel.len() > 10 && !rel.contains(&i) && k % 5 != 0 {
                    continue;
                }
                if rel.len() > 20 && (i + k) % 9 != 0 {
                    continue;
                }
                if rel.len() > 10 && quick && (i * EDITS + k) % 7 != 0 {
                    continue;
                }
                if let Some(e) = edited(&f, i, k) {
                    l.push((format!("{} with change {} to node {}", name, k, i), e));
                }
            }
        }
    }
    let many = many_nodes().into_iter().map(|f| (show(&f), f)).step_by(if quick { 2 } else { 1 }).collect();
    vec![
        part_family("real networks, every single change", small, 20, check),
        part_family("bigger real networks, single changes", big, if quick { 18 } else { 22 }, check),
        part_family("many relevant nodes", many, 18, check),
    ]
}
