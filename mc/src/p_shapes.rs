//! C01-C07: systems of dozens to hundreds of nodes whose minimal quorums and blocking sets are known
//! in closed form. Each form is itself checked by brute force where it has few nodes.
use crate::engine::*;
use crate::p_analysis::{ensure, f_json, vecs};
use crate::refm::*;
use crate::universe::*;
use fbas_analyzer::*;
use std::collections::BTreeSet;
use std::sync::Arc;

type R = Result<(), String>;
type Sets = Vec<Vec<usize>>;

pub struct Shape {
    what: String,
    f: RF,
    mq: Sets,
    mbs: Sets,
    mss: Sets,
}
fn pairs(v: &[usize]) -> Sets {
    v.iter().enumerate().flat_map(|(i, &a)| v[i + 1..].iter().map(move |&b| vec![a, b])).collect()
}
fn combinations(n: usize, k: usize) -> Sets {
    let mut r: Sets = vec![vec![]];
    for _ in 0..k {
        r = r.into_iter().flat_map(|v| (v.last().map_or(0, |x| x + 1)..n).map(move |x| [v.clone(), vec![x]].concat())).collect();
    }
    r
}
fn without(v: &[usize], d: &[usize]) -> Vec<usize> {
    v.iter().copied().filter(|x| !d.contains(x)).collect()
}
fn norm(s: Sets) -> Sets {
    let mut s: Sets = s
        .into_iter()
        .map(|mut x| {
            x.sort_unstable();
            x
        })
        .collect();
    s.sort();
    s
}
pub const FORMS: usize = 22;
/// `n` at least 5; the minimal splitting sets are those of a system with quorum intersection, else none are listed
fn form(k: usize, n: usize) -> Shape {
    let all: Vec<usize> = (0..n).collect();
    let each = |f: &dyn Fn(usize) -> RQ| -> Vec<RQ> { (0..n).map(f).collect() };
    let singles = |v: &[usize]| -> Sets { v.iter().map(|&x| vec![x]).collect() };
    let one = |v: &[usize]| RQ::flat(1, v);
    let (what, q, mq, mbs, mss): (&str, Vec<RQ>, Sets, Sets, Sets) = match k {
        0 => ("ring", each(&|x| RQ::flat(2, &[x, (x + 1) % n])), vec![all.clone()], singles(&all), vec![]),
        1 => {
            // a hub and its leaves
            let l = &all[1..];
            ("hub", each(&|x| if x == 0 { RQ::new(2, &[0], vec![one(l)]) } else { RQ::flat(2, &[0, x]) }), l.iter().map(|&x| vec![0, x]).collect(), vec![vec![0], l.to_vec()], vec![vec![0]])
        }
        2 => {
            let (a, b) = (0, n - 1);
            let l = &all[1..n - 1];
            let hub = |x: usize, y: usize| RQ::new(2, &[x], vec![RQ::new(1, &[y], vec![RQ::flat(l.len() as u64, l)])]);
            let mq = vec![vec![a, b], without(&all, &[b]), without(&all, &[a])];
            let mbs = [vec![vec![a, b]], l.iter().flat_map(|&x| vec![vec![a, x], vec![x, b]]).collect()].concat();
            ("two hubs", each(&|x| if x == a { hub(a, b) } else if x == b { hub(b, a) } else { RQ::new(2, &[x], vec![one(&[a, b])]) }), mq, mbs, vec![vec![a], vec![b], l.to_vec()])
        }
        3 => {
            // two rings that may choose a bridge
            let m = n / 2;
            let q = each(&|x| {
                if x == 0 {
                    RQ::new(2, &[0], vec![one(&[1, m])])
                } else if x == m {
                    RQ::new(2, &[m], vec![one(&[m + 1, 0])])
                } else if x < m {
                    RQ::flat(2, &[x, (x + 1) % m])
                } else {
                    RQ::flat(2, &[x, if x + 1 == n { m } else { x + 1 }])
                }
            });
            let mbs = [all[m..].iter().map(|&j| vec![0, j]).collect::<Sets>(), all[1..m].iter().map(|&i| vec![i, m]).collect()].concat();
            ("two bridged rings", q, vec![all[..m].to_vec(), all[m..].to_vec(), vec![0, m]], mbs, vec![])
        }
        4 => ("one of all", vec![one(&all); n], singles(&all), vec![all.clone()], vec![]),
        5 => ("one of all, not alike", each(&|x| if x % 2 == 0 { one(&all) } else { RQ::new(1, &all, vec![one(&[x])]) }), singles(&all), vec![all.clone()], vec![]),
        6 => ("all but one", vec![RQ::flat(n as u64 - 1, &all); n], all.iter().map(|&x| without(&all, &[x])).collect(), pairs(&all), pairs(&all).iter().map(|p| without(&all, p)).collect()),
        7 => (
            "all but one, not alike",
            each(&|x| if x == n - 1 { RQ::new(1, &[], vec![RQ::flat(n as u64 - 1, &all)]) } else { RQ::flat(n as u64 - 1, &all) }),
            all.iter().map(|&x| without(&all, &[x])).collect(),
            pairs(&all),
            pairs(&all).iter().map(|p| without(&all, p)).collect(),
        ),
        8 => ("two of all", vec![RQ::flat(2, &all); n], pairs(&all), all.iter().map(|&x| without(&all, &[x])).collect(), vec![]),
        9 => {
            // one of each of two groups
            let m = n / 2 + 1;
            let (a, b) = all.split_at(m);
            ("one of each of two", vec![RQ::new(2, &[], vec![one(a), one(b)]); n], a.iter().flat_map(|&x| b.iter().map(move |&y| vec![x, y])).collect(), vec![a.to_vec(), b.to_vec()], vec![])
        }
        10 => {
            // a node everyone needs and most of a group
            let l = &all[..n - 1];
            let t = l.len() as u64 - 1;
            let mq: Sets = l.iter().map(|&x| without(&all, &[x])).collect();
            let mbs = [vec![vec![n - 1]], pairs(l)].concat();
            ("a leader and most of a group", vec![RQ::new(2, &[n - 1], vec![RQ::flat(t, l)]); n], mq, mbs, pairs(l).iter().map(|p| without(&all, p)).collect())
        }
        11 => ("all", vec![RQ::flat(n as u64, &all); n], vec![all.clone()], singles(&all), vec![]),
        12 => {
            // a triangle in the middle, everyone else after it
            let c = [n / 2 - 1, n / 2, n / 2 + 1];
            ("majority of three, with followers", each(&|x| if c.contains(&x) { RQ::flat(2, &c) } else { RQ::new(3, &[x], vec![one(&[c[0], c[2]]), one(&all)]) }), pairs(&c), pairs(&c), singles(&c))
        }
        13 => {
            // the chosen triangle needs everyone, or itself
            let c = [0, n / 2, n - 1];
            let rest = without(&all, &c);
            let mut q = vec![RQ::flat(2, &c); n];
            for (i, &x) in rest.iter().enumerate() {
                q[x] = RQ::flat(3, &[x, c[i % 3], c[(i + 1) % 3]]);
            }
            for &x in &c {
                q[x] = RQ::new(1, &[], vec![RQ::flat(2, &c), RQ::flat(n as u64, &all)]);
            }
            ("majority of three, wrapped", q, pairs(&c), pairs(&c), singles(&c))
        }
        15 | 16 => {
            let t = 2 * n / 3 + 1;
            let q = RQ::flat(t as u64, &all);
            let alike = k == 15;
            let mss = combinations(n, 2 * t - n);
            (
                if alike { "two thirds" } else { "two thirds, not alike" },
                each(&|x| if alike || x + 1 < n { q.clone() } else { RQ::new(1, &[], vec![q.clone()]) }),
                combinations(n, t),
                combinations(n, n - t + 1),
                mss,
            )
        }
        17 => {
            // most nodes form a cluster, the others a ring
            let c = n - (n / 4).max(3);
            let (a, b) = all.split_at(c);
            let mbs = a.iter().flat_map(|&x| b.iter().map(move |&y| vec![x, y])).collect();
            ("big cluster and a ring beside it", each(&|x| if x < c { RQ::flat(c as u64, a) } else { RQ::flat(2, &[x, if x + 1 == n { c } else { x + 1 }]) }), vec![a.to_vec(), b.to_vec()], mbs, vec![])
        }
        18 => {
            // all but two nodes form a cluster; those two make a quorum of their own, but are not alike
            let c = n - 2;
            let a = &all[..c];
            let q = each(&|x| if x < c { RQ::flat(c as u64 - 1, a) } else if x == c { RQ::flat(2, &[c, c + 1]) } else { RQ::flat(1, &[0, c]) });
            let mq = [a.iter().map(|x| without(a, &[*x])).collect(), vec![vec![c, c + 1]]].concat();
            let mbs = pairs(a).into_iter().flat_map(|p| [[p.clone(), vec![c]].concat(), [p, vec![c + 1]].concat()]).collect();
            ("big cluster and a pair beside it", q, mq, mbs, vec![])
        }
        19 => {
            // a ring, and one that all of its nodes know and none needs
            let h = n - 1;
            let l = &all[..h];
            ("ring and a popular bystander", each(&|x| if x == h { RQ::flat(h as u64, l) } else { RQ::new(2, &[x], vec![one(&[(x + 1) % h, h])]) }), vec![l.to_vec()], singles(l), vec![])
        }
        20 => {
            // each its own quorum, and one that all of them know and none needs
            let h = n - 1;
            let l = &all[..h];
            ("loners and a popular bystander", each(&|x| if x == h { one(l) } else { RQ::new(1, &[x], vec![RQ::flat(2, &[x, h])]) }), singles(l), vec![l.to_vec()], vec![])
        }
        21 => {
            // all alike; one node counts twice
            let l = &all[1..];
            let of = |k: usize| -> Sets { combinations(n - 1, k).into_iter().map(|v| v.into_iter().map(|x| l[x]).collect()).collect() };
            let with0 = |k: usize| -> Sets { of(k).into_iter().map(|v| [vec![0], v].concat()).collect() };
            // of the n + 1 votes n - 2 are needed, so 4 block
            let mq = [with0(n - 4), of(n - 2)].concat();
            let mbs = [with0(2), if n > 4 { of(4) } else { vec![] }].concat();
            let mut mss: Sets = vec![];
            if n <= 9 {
                let mut m: Vec<u32> = mq.iter().map(|v| v.iter().fold(0, |a, x| a | 1 << x)).collect();
                let mut p: Vec<u32> = (0..m.len()).flat_map(|i| m[i + 1..].iter().map(|y| m[i] & y).collect::<Vec<_>>()).collect();
                p.sort_unstable();
                p.dedup();
                m = p.clone();
                p.retain(|x| !m.iter().any(|y| y != x && x & y == *y));
                if !p.contains(&0) {
                    mss = p.into_iter().map(bits).collect();
                }
            }
            ("one node counts twice", vec![RQ::flat(n as u64 - 2, &[vec![0], all.clone()].concat()); n], mq, mbs, mss)
        }
        _ => {
            // a chain of alternatives behind one node: a quorum is the head and a tail of the chain
            let mut mq = vec![];
            let l = &all[1..];
            for (i, _) in l.iter().enumerate() {
                if i + 1 == l.len() {
                    mq.push(vec![0, l[i]]);
                }
            }
            let q = each(&|x| if x == 0 { RQ::new(2, &[0], vec![one(l)]) } else if x == n - 1 { RQ::flat(2, &[0, x]) } else { RQ::flat(3, &[0, x, x + 1]) });
            ("head and chain", q, mq, vec![vec![0], vec![n - 1]], vec![])
        }
    };
    assert!(FORMS == 22);
    Shape { what: format!("{} of {} nodes", what, n), f: RF { q }, mq: norm(mq), mbs: norm(mbs), mss: norm(mss) }
}
fn quorum_intersection(mq: &Sets) -> bool {
    let s: Vec<BTreeSet<usize>> = mq.iter().map(|x| x.iter().copied().collect()).collect();
    (0..s.len()).all(|i| (i + 1..s.len()).all(|j| !s[i].is_disjoint(&s[j])))
}
/// the closed form against brute force
fn validate(s: &Shape) -> R {
    let o = Oracle::new(&s.f);
    let m = |v: &[u32]| norm(v.iter().map(|&x| bits(x)).collect());
    for (what, got, want) in [("quorums", &s.mq, m(&o.mq)), ("blocking sets", &s.mbs, m(&o.mbs)), ("splitting sets", &s.mss, m(&o.mss))] {
        ensure(*got == want, || format!("CLOSED FORM of {}: {} {:?}, brute force {:?}", s.what, what, got, want))?;
    }
    Ok(())
}
/// the same system with other node IDs (and others around it): (system, old id -> new id)
fn arrange(f: &RF, how: usize) -> (RF, Vec<usize>) {
    let n = f.n();
    let coprime = |mut k: usize| {
        let g = |mut a: usize, mut b: usize| {
            while b > 0 {
                let t = a % b;
                a = b;
                b = t;
            }
            a
        };
        while g(k, n) != 1 {
            k += 1;
        }
        k
    };
    let (total, ids): (usize, Vec<usize>) = match how {
        0 | 4 => (n, (0..n).collect()),
        1 => (n, (0..n).rev().collect()),
        2 => (n, { let k = coprime(n / 3 + 2); (0..n).map(|x| (x * k + n / 2) % n).collect() }),
        // others before and between
        _ => (n + n / 2 + 40, (0..n).map(|x| 40 + x + x / 2).collect()),
    };
    let mut q = vec![None; total];
    for x in 0..n {
        q[ids[x]] = Some(f.q[x].map(&|y| if y < n { ids[y] } else { total + y }));
    }
    let own: BTreeSet<usize> = ids.iter().copied().collect();
    let q = q
        .into_iter()
        .enumerate()
        .map(|(x, v)| v.unwrap_or_else(|| if x % 3 == 0 { RQ::flat(2, &[x, ids[0]]) } else if x % 3 == 1 { RQ::flat(4, &[x, ids[n - 1]]) } else { RQ::new(2, &[], vec![RQ::flat(1, &ids), RQ::flat(1, &[x])]) }))
        .collect();
    assert!(own.len() == n);
    (RF { q }, ids)
}
/// the lists of a quorum set in another order
fn shuffled(q: &RQ, k: usize) -> RQ {
    fn turn<T: Clone>(v: &[T], k: usize) -> Vec<T> {
        let mut v = v.to_vec();
        if !v.is_empty() {
            let l = v.len();
            v.rotate_left(k % l);
        }
        if k % 2 == 1 {
            v.reverse();
        }
        v
    }
    RQ { t: q.t, v: turn(&q.v, k), inner: turn(&q.inner, k / 2).iter().map(|x| shuffled(x, k + 1)).collect() }
}
/// every list in the same order
fn ordered(q: &RQ) -> RQ {
    let mut v = q.v.clone();
    v.sort_unstable();
    let mut inner: Vec<RQ> = q.inner.iter().map(ordered).collect();
    inner.sort();
    RQ { t: q.t, v, inner }
}
struct Case {
    fbas: Fbas,
    real: RF,
    qi: bool,
    mq: Sets,
    mbs: Sets,
    mss: Sets,
}
fn same(what: &str, got: &[NodeIdSet], want: &Sets) -> R {
    let g = norm(vecs(got));
    if g == *want {
        return Ok(());
    }
    let extra: Vec<_> = g.iter().filter(|x| !want.contains(x)).take(3).collect();
    let missing: Vec<_> = want.iter().filter(|x| !g.contains(x)).take(3).collect();
    Err(format!("{}: {} sets, exactly {} expected; not expected {:?}, missing {:?}", what, g.len(), want.len(), extra, missing))
}
fn c01(k: &Case) -> R {
    same("find_minimal_quorums", &find_minimal_quorums(&k.fbas), &k.mq)?;
    let a = Analysis::new(&k.fbas);
    a.minimal_blocking_sets();
    same("Analysis::minimal_quorums", &a.minimal_quorums().unwrap(), &k.mq)
}
fn c02(k: &Case) -> R {
    same("find_minimal_blocking_sets", &find_minimal_blocking_sets(&k.fbas), &k.mbs)?;
    let a = Analysis::new(&k.fbas);
    a.has_quorum_intersection();
    same("Analysis::minimal_blocking_sets", &a.minimal_blocking_sets().unwrap(), &k.mbs)
}
fn c03(k: &Case) -> R {
    let a = Analysis::new(&k.fbas);
    if k.qi {
        let mq: Vec<NodeIdSet> = k.mq.iter().map(|x| x.iter().copied().collect()).collect();
        same("find_minimal_splitting_sets", &find_minimal_splitting_sets(&k.fbas, &mq), &k.mss)?;
        same("Analysis::minimal_splitting_sets", &a.minimal_splitting_sets().unwrap(), &k.mss)
    } else {
        same("Analysis::minimal_splitting_sets without quorum intersection", &a.minimal_splitting_sets().unwrap(), &vec![vec![]])
    }
}
fn c04(k: &Case) -> R {
    let a = Analysis::new(&k.fbas);
    let alt = a.has_quorum_intersection_via_alternative_check().0;
    ensure(alt == k.qi, || format!("alternative check: {}", alt))?;
    let r = a.has_quorum_intersection();
    ensure(r == k.qi, || format!("has_quorum_intersection: {}", r))
}
fn c05(k: &Case) -> R {
    let a = Analysis::new(&k.fbas);
    for w in [find_nonintersecting_quorums(&k.fbas), a.has_quorum_intersection_via_alternative_check().1.map(|r| r.unwrap())] {
        ensure(w.is_some() != k.qi, || format!("reported quorums: {:?}", w.as_ref().map(|w| vecs(w))))?;
        if let Some(w) = w {
            ensure(w.len() >= 2, || "fewer than two quorums".into())?;
            for (i, q) in w.iter().enumerate() {
                ensure(!q.is_empty() && q.iter().all(|x| x < k.real.n() && k.real.q[x].sat(&|y| q.contains(y))), || format!("{:?} is not a quorum", q))?;
                ensure(w[..i].iter().all(|p| p.is_disjoint(q)), || format!("{:?} intersects another", q))?;
            }
        }
    }
    Ok(())
}
fn c06(k: &Case) -> R {
    let want: Vec<usize> = k.mq.iter().flatten().copied().collect::<BTreeSet<_>>().into_iter().collect();
    for after in 0..3 {
        let a = Analysis::new(&k.fbas);
        match after {
            0 => (),
            1 => drop(a.minimal_blocking_sets()),
            _ => drop(a.minimal_quorums()),
        }
        let got: Vec<usize> = a.top_tier().unwrap().iter().collect();
        ensure(got == want, || format!("top_tier = {:?}, exactly {:?}", got, want))?;
    }
    Ok(())
}
fn c07(k: &Case) -> R {
    let mut want: Vec<RQ> = big_sym_clusters(&k.real).iter().map(ordered).collect();
    want.sort();
    let mut got: Vec<RQ> = Analysis::new(&k.fbas).symmetric_clusters().iter().map(from_qs).map(|q| ordered(&q)).collect();
    got.sort();
    ensure(got == want, || format!("symmetric_clusters = {:?}, exactly {:?}", got.iter().map(show_q).collect::<Vec<_>>(), want.iter().map(show_q).collect::<Vec<_>>()))?;
    // the top tier, if it is one cluster and there is no quorum elsewhere
    let stt = if want.len() == 1 {
        let c = want[0].contained();
        let rest: Vec<bool> = (0..k.real.n()).map(|x| !c.contains(&x)).collect();
        if big_max_quorum(&k.real, rest).contains(&true) { None } else { Some(want[0].clone()) }
    } else {
        None
    };
    let got = find_symmetric_top_tier(&k.fbas).as_ref().map(from_qs).map(|q| ordered(&q));
    ensure(got == stt, || format!("find_symmetric_top_tier = {:?}, exactly {:?}", got.as_ref().map(show_q), stt.as_ref().map(show_q)))?;
    Ok(())
}
/// what remains of the sets without `out`, minimal
fn least(s: &Sets, out: &[usize]) -> Sets {
    let out: BTreeSet<usize> = out.iter().copied().collect();
    let mut v: Sets = s.iter().map(|x| x.iter().copied().filter(|y| !out.contains(y)).collect()).collect();
    v.sort();
    v.dedup();
    v.sort_by_key(|x| x.len());
    let masks: Vec<Vec<u64>> = v
        .iter()
        .map(|x| {
            let mut m = vec![0u64; 10];
            for y in x {
                m[y / 64] |= 1 << (y % 64);
            }
            m
        })
        .collect();
    let mut keep: Vec<usize> = vec![];
    for i in 0..v.len() {
        if !keep.iter().any(|&j| masks[j].iter().zip(&masks[i]).all(|(a, b)| a & b == *a)) {
            keep.push(i);
        }
    }
    norm(keep.into_iter().map(|i| v[i].clone()).collect())
}
fn c35(k: &Case, c: &mut Ctx) -> R {
    let a = Analysis::new(&k.fbas);
    let n = k.fbas.number_of_nodes();
    let top: Vec<usize> = k.mq.iter().flatten().copied().collect::<BTreeSet<_>>().into_iter().collect();
    let (mq, mbs) = (a.minimal_quorums(), a.minimal_blocking_sets());
    let mss = if k.qi { Some(a.minimal_splitting_sets()) } else { None };
    let mut outs: Vec<Vec<usize>> = vec![vec![], vec![top[0]], vec![top[top.len() - 1]], vec![top[top.len() / 2], top[0]]];
    outs.push(top[top.len() / 2..].to_vec());
    outs.push(top.iter().copied().filter(|x| x % 3 == 1).rev().collect());
    outs.push(k.mq[k.mq.len() / 2].clone());
    outs.push(k.mbs[k.mbs.len() - 1].clone());
    outs.push(without(&(0..n).collect::<Vec<_>>(), &k.mq[0]));
    outs.push(without(&top, &k.mbs[0]));
    if top.len() > 9 {
        outs.push(top[..5].to_vec());
        outs.push(top[top.len() - 9..].to_vec());
        outs.push(top.iter().copied().step_by(11).collect());
    }
    for out in outs {
        let keys: Vec<String> = out.iter().map(|&x| format!("n{}", x)).collect();
        let mut keys: Vec<&str> = keys.iter().map(|s| s.as_str()).collect();
        keys.insert(0, "nobody");
        for (what, r, want) in [("minimal_quorums", Some(&mq), &k.mq), ("minimal_blocking_sets", Some(&mbs), &k.mbs), ("minimal_splitting_sets", mss.as_ref(), &k.mss)] {
            if let Some(r) = r {
                let want = least(want, &out);
                same(&format!("{} without {:?}, minimal", what, out), &r.without_nodes(&out).minimal_sets().unwrap(), &want)?;
                same(&format!("{} without {:?} (by key), minimal", what, keys), &r.without_nodes_pretty(&keys, &k.fbas, None).minimal_sets().unwrap(), &want)?;
                c.ops(2);
            }
        }
        let got: Vec<usize> = a.top_tier().without_nodes(&out).unwrap().iter().collect();
        ensure(got == without(&top, &out), || format!("top_tier without {:?} = {:?}", out, got))?;
        c.states += 1;
    }
    Ok(())
}
pub fn sizes(q: bool) -> Vec<usize> {
    if q {
        vec![5, 6, 7, 13, 17, 31, 32, 33, 34, 63, 64, 65, 66, 67, 97, 128, 130, 200]
    } else {
        vec![5, 6, 7, 8, 9, 13, 17, 31, 32, 33, 34, 63, 64, 65, 66, 67, 96, 97, 127, 128, 129, 130, 200, 257]
    }
}
/// those with very many sets, and those on which the search takes exponential time, stay smaller
fn limit(k: usize, how: usize, which: usize) -> usize {
    match (k, how, which) {
        (0 | 14, 2, _) | (3, ..) | (2, _, 3 | 35) => 20,
        (15 | 16, _, 35) => 13,
        (15 | 16, ..) => 17,
        (19, 2, _) | (20, _, 3) => 20,
        (20, _, 35) => 66,
        (21, _, 3 | 35) => 9,
        (21, ..) => 17,
        (6 | 7 | 10, _, 35) => 34,
        (6 | 7 | 10, _, 3) | (4 | 5, _, 2 | 35) => 66,
        (17, 2, _) => 40,
        (17 | 18, _, 35) => 34,
        (18, ..) => 66,
        (6..=10 | 17, ..) => 100,
        _ => 10000,
    }
}
pub fn families(which: usize, q: bool) -> Family {
    let ns = sizes(q);
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for &n in &ns {
        for k in 0..FORMS {
            for how in 0..5 {
                if n <= limit(k, how, which) {
                    cases.push((k, n, how));
                }
            }
        }
    }
    // larger ones in two arrangements
    for n in if q { vec![257, 300] } else { vec![260, 300, 400] } {
        for k in 0..FORMS {
            for how in [1, 3] {
                if n <= limit(k, how, which) && (which == 7 || !matches!(k, 8 | 9)) {
                    cases.push((k, n, how));
                }
            }
        }
    }
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    Family::new(
        "closed forms",
        cases.len() as u64,
        move |i, ctx| {
            let (k, n, how) = cases[i as usize];
            let shape = form(k, n);
            ctx.states += 1;
            ctx.traces += 1;
            if i % 41 == 3 {
                ctx.sample(|| shape.what.clone());
            }
            if n <= 9 {
                if let Err(e) = validate(&shape) {
                    infra(e);
                }
                ctx.count("closed_forms_confirmed_by_brute_force", 1);
            }
            let (real, ids) = arrange(&shape.f, how);
            let at = |s: &Sets| norm(s.iter().map(|v| v.iter().map(|&x| ids[x]).collect()).collect());
            let fbas = if how == 4 {
                // read from a document that lists everything in varying order
                Fbas::from_json_str(&f_json(&RF { q: real.q.iter().enumerate().map(|(x, q)| shuffled(q, x)).collect() }, &|x| format!("n{}", x)))
            } else {
                to_fbas(&real)
            };
            let case = Case { fbas, qi: quorum_intersection(&shape.mq), mq: at(&shape.mq), mbs: at(&shape.mbs), mss: at(&shape.mss), real };
            ctx.ops(2);
            ctx.outcome(&(&case.mq, &case.mbs));
            let t0 = std::time::Instant::now();
            let r = match which {
                1 => c01(&case),
                2 => c02(&case),
                3 => c03(&case),
                4 => c04(&case),
                5 => c05(&case),
                6 => c06(&case),
                35 => c35(&case, ctx),
                _ => c07(&case),
            };
            if t0.elapsed().as_secs() > 1 && std::env::var("MC_VERBOSE").is_ok() {
                eprintln!("slow: {}, arrangement {}: {:?}", shape.what, how, t0.elapsed());
            }
            match r {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("{}, arrangement {}", shape.what, how), e),
            }
        },
        move |i| {
            let (k, n, how) = c2[i as usize];
            format!("{}, arrangement {}", form(k, n).what, how)
        },
    )
}

/// some of them, for the post-processing of large results
pub fn systems(q: bool) -> Vec<RF> {
    let mut r = vec![];
    for n in if q { vec![12, 33, 67, 130] } else { vec![12, 33, 64, 65, 67, 129, 130, 200] } {
        for k in 0..FORMS {
            let how = (n + k) % 4;
            if n <= limit(k, how, 3).min(limit(k, how, 35)).min(limit(k, how, 2)) {
                r.push(arrange(&form(k, n).f, how).0);
            }
        }
    }
    r
}

/// C09: shapes of many nodes in all arrangements; and a system whose core knows everyone
pub fn c09(q: bool) -> Family {
    let mut cases: Vec<(usize, usize)> = vec![];
    for n in if q { vec![34, 140, 260] } else { vec![34, 66, 130, 140, 200, 260] } {
        for k in 0..FORMS {
            if (0..5).all(|how| n <= limit(k, how, 3).min(limit(k, how, 2))) && !(n > 140 && matches!(k, 8 | 9)) {
                cases.push((k, n));
            }
        }
        cases.push((FORMS, n));
    }
    let sys = |k: usize, n: usize| -> (String, RF) {
        if k < FORMS {
            let s = form(k, n);
            return (s.what, s.f);
        }
        let all: Vec<usize> = (0..n).collect();
        let core = [0, 1, 2, 3];
        let q = (0..n).map(|x| if x < 4 { RQ::new(2, &[], vec![RQ::flat(3, &core), RQ::flat(2, &all)]) } else { RQ::flat(2, &[x, x % 4]) }).collect();
        (format!("a core that knows all of {} nodes", n), RF { q })
    };
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    Family::new(
        "closed forms, rearranged",
        cases.len() as u64,
        move |i, ctx| {
            let (k, n) = cases[i as usize];
            let (what, f) = sys(k, n);
            let mut base = None;
            for how in 0..5 {
                let (real, ids) = arrange(&f, how);
                let fbas = if how == 4 {
                    Fbas::from_json_str(&f_json(&RF { q: real.q.iter().enumerate().map(|(x, q)| shuffled(q, x)).collect() }, &|x| format!("n{}", x)))
                } else {
                    to_fbas(&real)
                };
                let mut back = vec![None; real.n()];
                for (x, &y) in ids.iter().enumerate() {
                    back[y] = Some(x);
                }
                let mut got = crate::p_analysis::answers(&fbas, &|x| back[x].map(|x| x.to_string()).unwrap_or(format!("added node {}", x)), true);
                got.sat.retain(|x| !x.starts_with("added"));
                ctx.states += 1;
                ctx.traces += 1;
                ctx.ops(8);
                match &base {
                    None => {
                        ctx.outcome(&got);
                        base = Some(got);
                    }
                    Some(b) => {
                        if *b != got {
                            let e: String = format!("original {:?}", b).chars().take(1500).collect();
                            let g: String = format!("changed {:?}", got).chars().take(1500).collect();
                            return fail(format!("{}, arrangement {}", what, how), format!("the results of arrangement {} are not those of arrangement 0:\n{}\n{}", how, e, g));
                        }
                    }
                }
            }
            Ok(())
        },
        move |i| format!("{:?}", c2[i as usize]),
    )
}
