//! Systems of hundreds of nodes (C10-C16, C19, C20): the exact answers come from definitions that need no
//! enumeration of node sets, or from the listed node sets only.
use crate::engine::*;
use crate::p_analysis::{c20_ref, ensure, f_json};
use crate::p_io::*;
use crate::refm::*;
use crate::universe::*;
use fbas_analyzer::sets::*;
use fbas_analyzer::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type R = Result<(), String>;

/// systems with `n` nodes
pub fn large(n: usize) -> Vec<(String, RF)> {
    let all: Vec<usize> = (0..n).collect();
    let w = |x: usize, d: usize| (x + d) % n;
    let mut r: Vec<(String, RF)> = vec![];
    let mut add = |what: &str, q: Vec<RQ>| r.push((format!("{} of {} nodes", what, n), RF { q }));
    add("ring", all.iter().map(|&x| RQ::flat(2, &[x, w(x, 1)])).collect());
    add("backward ring", all.iter().map(|&x| RQ::flat(2, &[w(x, n - 1), x])).collect());
    add("broken ring", all.iter().map(|&x| if x == n / 2 { RQ::flat(3, &[x, w(x, 1)]) } else { RQ::flat(2, &[x, w(x, 1)]) }).collect());
    add("chain to a core of three", all.iter().map(|&x| if x < 3 { RQ::flat(2, &[0, 1, 2]) } else { RQ::flat(2, &[x, x - 1]) }).collect());
    add("chain to a core at the end", all.iter().map(|&x| if x + 3 >= n { RQ::flat(2, &[n - 3, n - 2, n - 1]) } else { RQ::new(2, &[x], vec![RQ::flat(1, &[x + 1])]) }).collect());
    add("windows", all.iter().map(|&x| RQ::new(2, &[x], vec![RQ::flat(1, &[w(x, 1), w(x, 2)]), RQ::flat(2, &[w(x, 31), w(x, 32), w(x, 33)])])).collect());
    add("two rings", all.iter().map(|&x| RQ::flat(2, &[x, (x + 2) % (n - n % 2)])).collect());
    add("organizations of three", all.iter().map(|&x| {
        let o = x / 3;
        let orgs = (n + 2) / 3;
        let vs = |o: usize| -> RQ { let v: Vec<usize> = (3 * o..(3 * o + 3).min(n)).collect(); RQ::flat(v.len() as u64 / 2 + 1, &v) };
        RQ::new(3, &[], (0..4.min(orgs)).map(|d| vs((o + d * d) % orgs)).collect())
    }).collect());
    if n <= 130 {
        add("majority", vec![RQ::flat(n as u64 / 2 + 1, &all); n]);
        add("all", vec![RQ::flat(n as u64, &all); n]);
        add("all but one, nested", vec![RQ::new(1, &[], vec![RQ::flat(n as u64 - 1, &all)]); n]);
        add("one more than there are", vec![RQ::flat(n as u64 + 1, &all); n]);
        add("everyone but itself", all.iter().map(|&x| RQ::flat(n as u64 - 2, &all.iter().copied().filter(|&y| y != x).collect::<Vec<_>>())).collect());
        add("decreasing lists", all.iter().map(|&x| RQ::flat((n - x) as u64 / 2 + 1, &all[x..].iter().rev().copied().collect::<Vec<_>>())).collect());
    } else {
        add("some with long lists", all.iter().map(|&x| if x % 64 == 1 { RQ::flat(n as u64 - 1, &all) } else { RQ::flat(2, &[x, (x / 64 * 64 + 1).min(n - 1)]) }).collect());
    }
    r
}
/// node sets around every boundary
pub fn patterns(n: usize) -> Vec<Vec<usize>> {
    let all: Vec<usize> = (0..n).collect();
    let mut r: Vec<Vec<usize>> = vec![vec![], all.clone()];
    let marks: Vec<usize> = [0, 1, 2, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 255, 256, n / 2, n.saturating_sub(3), n.saturating_sub(2), n.saturating_sub(1)].into_iter().filter(|&x| x < n).collect();
    for &x in &marks {
        r.push(vec![x]);
        r.push(all.iter().copied().filter(|&y| y != x).collect());
        r.push(all[..x].to_vec());
        r.push(all[x..].to_vec());
        r.push(all.iter().copied().filter(|&y| y != x && y != (x + 5) % n && y != n - 1).collect());
    }
    for k in [2usize, 3, 4, 64] {
        for s in 0..k.min(4) {
            r.push(all.iter().copied().filter(|x| x % k == s).collect());
            r.push(all.iter().copied().filter(|x| x % k != s).collect());
        }
    }
    r.push(all.iter().copied().filter(|x| (x * x + x) % 7 < 3).collect());
    r.push(all.iter().copied().filter(|x| (x / 32) % 2 == 0).collect());
    r.push(all.iter().copied().filter(|x| (x / 64) % 2 == 1).collect());
    r.sort();
    r.dedup();
    r
}
fn set(v: &[usize]) -> NodeIdSet {
    v.iter().copied().collect()
}
fn marked(n: usize, v: &[usize]) -> Vec<bool> {
    let mut m = vec![false; n];
    for &x in v {
        m[x] = true;
    }
    m
}
fn listed(m: &[bool]) -> Vec<usize> {
    (0..m.len()).filter(|&i| m[i]).collect()
}
fn is_quorum(f: &RF, v: &[usize]) -> bool {
    let m = marked(f.n(), v);
    !v.is_empty() && v.iter().all(|&i| f.q[i].sat(&|x| m[x]))
}
pub const KEY_STYLES: usize = 6;
pub fn keys(n: usize, style: usize) -> Vec<String> {
    let tail = |i: usize, w: usize| -> String {
        let mut s = String::new();
        let mut x = i;
        for _ in 0..w {
            s.insert(0, b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"[x % 32] as char);
            x /= 32;
        }
        s
    };
    (0..n)
        .map(|i| match style {
            0 => format!("n{}", i),
            1 => format!("n{}", n - 1 - i),
            // like Stellar's, alike except for the end
            2 => format!("G{}{}", "C".repeat(52), tail(i, 3)),
            // longer than Stellar's, alike for the first 60 characters
            3 => format!("{}{}", "KEY-".repeat(15), (i * 7919) % 100003),
            // different lengths, with what has to be escaped
            4 => format!("{}\"\\\n\u{7f}é😀{}", "\\".repeat(i % 3), i),
            // the beginnings of each other
            _ => "x".repeat(i + 1),
        })
        .collect()
}
fn fam(name: &str, cases: Vec<(String, RF)>, check: fn(&RF, usize, &mut Ctx) -> R) -> Family {
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    Family::new(
        name,
        cases.len() as u64,
        move |i, ctx| {
            let (what, f) = &cases[i as usize];
            ctx.states += 1;
            ctx.traces += 1;
            if i % 7 == 3 {
                ctx.sample(|| what.clone());
            }
            match check(f, i as usize, ctx) {
                Ok(()) => Ok(()),
                Err(e) => fail(what.clone(), e),
            }
        },
        move |i| c2[i as usize].0.clone(),
    )
}
pub fn sizes(q: bool) -> Vec<usize> {
    if q {
        vec![31, 32, 33, 63, 64, 65, 100, 128, 129, 257]
    } else {
        vec![17, 31, 32, 33, 34, 47, 63, 64, 65, 66, 95, 96, 97, 100, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 300, 511, 512, 513]
    }
}
fn cases(q: bool) -> Vec<(String, RF)> {
    sizes(q).into_iter().flat_map(large).collect()
}

// ---------------------------------------------------------------- C10
/// long validator lists: all node sets that lack up to two or contain up to two of them, and the patterns
fn long_list(q: &RQ, n: usize, off: &dyn Fn(usize) -> usize, c: &mut Ctx) -> R {
    let rq = q.map(off);
    let real = to_qs(&rq);
    let all: Vec<usize> = (0..n).collect();
    let mut tests = patterns(n);
    for a in 0..n {
        tests.push(vec![a]);
        tests.push(all.iter().copied().filter(|&x| x != a).collect());
        for b in (a + 1..n).step_by(if n > 40 { 3 } else { 1 }) {
            tests.push(vec![a, b]);
            tests.push(all.iter().copied().filter(|&x| x != a && x != b).collect());
        }
    }
    for t in tests {
        let m = marked(n, &t);
        let want = q.sat(&|x| m[x]);
        let s: NodeIdSet = t.iter().map(|&x| off(x)).collect();
        c.ops(1);
        let got = real.is_quorum_slice(&s);
        ensure(got == want, || format!("is_quorum_slice({}, {:?}) = {}", show_q(&rq), s.iter().collect::<Vec<_>>(), got))?;
    }
    let cn: Vec<usize> = real.contained_nodes().iter().collect();
    ensure(cn == rq.contained(), || format!("contained_nodes({}) = {:?}", show_q(&rq), cn))?;
    let dup = rq.all_v().len() != rq.contained().len();
    ensure(real.contains_duplicates() == dup, || format!("contains_duplicates({}) = {}", show_q(&rq), !dup))?;
    c.outcome(&show_q(&rq));
    Ok(())
}
pub fn long_lists(q: bool) -> Family {
    let mut v: Vec<(usize, RQ)> = vec![];
    for n in if q { vec![16, 17, 20, 31, 32, 33, 64, 65, 70] } else { vec![16, 17, 20, 31, 32, 33, 47, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200] } {
        let all: Vec<usize> = (0..n).collect();
        let (a, b) = all.split_at(n / 2);
        for t in [1, 2, 3, n / 2, n / 2 + 1, n - 2, n - 1, n, n + 1] {
            let t = t as u64;
            v.push((n, RQ::flat(t, &all)));
            v.push((n, RQ::new(1, &[], vec![RQ::flat(t, &all)])));
            // each one a nested set of its own
            v.push((n, RQ::new(t, &[], all.iter().map(|&x| RQ::flat(1, &[x])).collect())));
            v.push((n, RQ::new(t, a, b.iter().map(|&x| RQ::flat(1, &[x])).collect())));
            v.push((n, RQ::new(2, &[], vec![RQ::flat(t.min(a.len() as u64), a), RQ::flat(t.saturating_sub(a.len() as u64).max(1), b)])));
            // one node many times
            v.push((n, RQ::flat(t, &all.iter().map(|&x| if x % 3 == 0 { 0 } else { x }).collect::<Vec<_>>())));
        }
    }
    let v = Arc::new(v);
    let v2 = v.clone();
    Family::new(
        "long lists",
        3 * v.len() as u64,
        move |i, ctx| {
            let (n, q) = &v[i as usize / 3];
            ctx.states += 1;
            ctx.traces += 1;
            let n2 = *n;
            let off: Box<dyn Fn(usize) -> usize> = match i % 3 {
                0 => Box::new(|x| x),
                1 => Box::new(|x| 64 + 3 * x),
                _ => Box::new(move |x| n2 - 1 - x),
            };
            match long_list(q, *n, &*off, ctx) {
                Ok(()) => Ok(()),
                Err(e) => fail(show_q(q), e),
            }
        },
        move |i| show_q(&v2[i as usize / 3].1),
    )
}
fn c10_one(f: &RF, _: usize, c: &mut Ctx) -> R {
    let n = f.n();
    let fb = to_fbas(f);
    let mut pos = 0;
    for p in patterns(n) {
        let mut ts = vec![p.clone()];
        // its largest quorum, and that with one node less
        let m = listed(&big_max_quorum(f, marked(n, &p)));
        if !m.is_empty() {
            ts.push(m.clone());
            for k in [0, m.len() / 2, m.len() - 1] {
                let mut x = m.clone();
                x.remove(k);
                ts.push(x);
            }
        }
        for t in ts {
            let want = is_quorum(f, &t);
            pos += want as usize;
            c.ops(1);
            let got = fb.is_quorum(&set(&t));
            ensure(got == want, || format!("is_quorum({:?}) = {}", t, got))?;
        }
    }
    c.outcome(&(n, pos));
    Ok(())
}
pub fn c10(q: bool) -> Vec<Family> {
    vec![long_lists(q), fam("large systems", cases(q), c10_one)]
}
// ---------------------------------------------------------------- C11
fn c11_one(f: &RF, k: usize, c: &mut Ctx) -> R {
    let n = f.n();
    let fb = to_fbas(f);
    let full = vec![true; n];
    let sat = listed(&big_max_quorum(f, full.clone()));
    let v = |s: &NodeIdSet| -> Vec<usize> { s.iter().collect() };
    ensure(v(&fb.satisfiable_nodes()) == sat, || format!("satisfiable_nodes = {:?}, exact {:?}", v(&fb.satisfiable_nodes()), sat))?;
    let un: Vec<usize> = (0..n).filter(|x| !sat.contains(x)).collect();
    ensure(v(&fb.unsatisfiable_nodes()) == un, || format!("unsatisfiable_nodes = {:?}, exact {:?}", v(&fb.unsatisfiable_nodes()), un))?;
    let scc = |what: &str, got: Vec<NodeIdSet>, m: &[bool]| {
        let mut g: Vec<Vec<usize>> = got.iter().map(v).filter(|x| !x.is_empty()).collect();
        let mut w = big_sccs(f, m);
        g.sort();
        w.sort();
        ensure(g == w, || format!("{} of {:?} = {:?}, exact {:?}", what, listed(m), g, w))
    };
    scc("strongly_connected_components", fb.strongly_connected_components(), &full)?;
    let rel = big_relevant(f);
    ensure(v(&fb.relevant_nodes()) == rel, || format!("relevant_nodes = {:?}, exact {:?}", v(&fb.relevant_nodes()), rel))?;
    for p in patterns(n).into_iter().skip(k % 3).step_by(if n > 150 { 9 } else { 3 }) {
        let m = marked(n, &p);
        let want = big_max_quorum(f, m.clone());
        let (s, u) = preprocessing::find_satisfiable_nodes(&set(&p), &fb);
        let wu: Vec<usize> = p.iter().copied().filter(|&x| !want[x]).collect();
        ensure(v(&s) == listed(&want) && v(&u) == wu, || format!("find_satisfiable_nodes({:?}) = ({:?}, {:?}), exact ({:?}, {:?})", p, v(&s), v(&u), listed(&want), wu))?;
        scc("partition_into_strongly_connected_components", preprocessing::partition_into_strongly_connected_components(&set(&p), &fb), &m)?;
        c.ops(2);
    }
    c.ops(4);
    c.outcome(&(n, sat.len(), rel));
    Ok(())
}
pub fn c11(q: bool) -> Vec<Family> {
    let mut v = cases(q);
    for (name, f) in real_networks() {
        for i in (0..f.n()).step_by(if q { 5 } else { 1 }) {
            for k in 0..EDITS {
                if let Some(e) = edited(&f, i, k) {
                    v.push((format!("{} with change {} to node {}", name, k, i), e));
                }
            }
        }
        v.push((name.to_string(), f));
    }
    vec![fam("large systems", v, c11_one), fam("long cascades", cascades(q), c11_long)]
}
/// nodes that become unsatisfiable one after the other, in every direction of IDs; and rings that remain
fn cascades(q: bool) -> Vec<(String, RF)> {
    let mut r: Vec<(String, RF)> = vec![];
    for n in if q { vec![257, 1100, 1500] } else { vec![257, 513, 1100, 1500, 2100, 4200] } {
        let mut add = |what: &str, q: Vec<RQ>| r.push((format!("{} of {} nodes", what, n), RF { q }));
        let tail = n - 5;
        // the last five hold each other
        add("cascade up to the last five", (0..n).map(|x| if x >= tail { RQ::flat(4, &(tail..n).collect::<Vec<_>>()) } else if x == 0 { RQ::flat(3, &[0, 1]) } else { RQ::flat(2, &[x - 1, x]) }).collect());
        add("cascade down from the last", (0..n).map(|x| if x < 5 { RQ::flat(4, &(0..5).collect::<Vec<_>>()) } else if x + 1 == n { RQ::flat(2, &[x]) } else { RQ::new(2, &[x], vec![RQ::flat(1, &[x + 1])]) }).collect());
        add("every second node falls", (0..n).map(|x| if x % 2 == 1 { RQ::flat(2, &[x, (x + 2) % n]) } else if x == 0 { RQ::flat(3, &[0, 1]) } else { RQ::flat(2, &[x, x - 2]) }).collect());
        add("cascade of pairs", (0..n).map(|x| if x < 2 { RQ::flat(3, &[0, 1]) } else if x >= tail { RQ::flat(3, &(tail..n).collect::<Vec<_>>()) } else { RQ::new(2, &[x], vec![RQ::flat(1, &[x - 2, if x % 2 == 0 { 0 } else { 1 }])]) }).collect());
    }
    r
}
fn c11_long(f: &RF, _: usize, c: &mut Ctx) -> R {
    let n = f.n();
    let fb = to_fbas(f);
    let v = |s: &NodeIdSet| -> Vec<usize> { s.iter().collect() };
    let sat = big_max_quorum(f, vec![true; n]);
    let un: Vec<bool> = sat.iter().map(|x| !x).collect();
    let (s, u) = (v(&fb.satisfiable_nodes()), v(&fb.unsatisfiable_nodes()));
    ensure(s == listed(&sat) && u == listed(&un), || format!("{} nodes satisfiable and {} unsatisfiable, should be {} and {}", s.len(), u.len(), listed(&sat).len(), listed(&un).len()))?;
    let keep: Vec<usize> = (0..n).filter(|x| x % 700 != 3).collect();
    let want = big_max_quorum(f, marked(n, &keep));
    let (s, u) = preprocessing::find_satisfiable_nodes(&set(&keep), &fb);
    let wu: Vec<usize> = keep.iter().copied().filter(|&x| !want[x]).collect();
    ensure(v(&s) == listed(&want) && v(&u) == wu, || format!("without every 700th node: {} nodes satisfiable and {} unsatisfiable, should be {} and {}", s.len(), u.len(), listed(&want).len(), wu.len()))?;
    c.ops(3);
    c.outcome(&(n, listed(&sat)));
    Ok(())
}
// ---------------------------------------------------------------- C12
fn c12_one(f: &RF, case: usize, c: &mut Ctx) -> R {
    let n = f.n();
    let rel = big_relevant(f);
    for style in 0..KEY_STYLES {
        if (style + case) % 2 == 1 && n > 70 {
            continue;
        }
        let ks = keys(n, style);
        let mut want: Vec<usize> = rel.clone();
        want.sort_by(|&a, &b| ks[a].cmp(&ks[b]));
        let m = Named { keys: want.iter().map(|&i| ks[i].clone()).collect(), q: want.iter().map(|&i| f.q[i].filter_map(&|x| want.iter().position(|&y| y == x))).collect() };
        let mut first: Option<Fbas> = None;
        for order in 0..4usize {
            let o: Vec<usize> = match order {
                0 => (0..n).collect(),
                1 => (0..n).rev().collect(),
                2 => (0..n).map(|i| (i + n / 3) % n).collect(),
                _ => (0..n).filter(|x| x % 2 == 1).chain((0..n).filter(|x| x % 2 == 0)).collect(),
            };
            let key = |x: usize| ks[x].clone();
            let mut arr: Vec<Value> = o.iter().filter(|x| order != 2 || rel.contains(x)).map(|&i| json!({"publicKey": ks[i], "quorumSet": crate::p_analysis::q_json(&f.q[i], &key)})).collect();
            if order == 3 {
                for k in 0..70 {
                    arr.insert(k, json!({"publicKey": format!("!added{}", k), "quorumSet": {"threshold": 2, "validators": [key(o[k % n])]}}));
                }
            }
            let fb = Fbas::from_json_str(&Value::Array(arr).to_string());
            let sf = fb.to_standard_form();
            c.ops(1);
            match &first {
                None => {
                    observe(&sf, &m, &norm).map_err(|e| format!("standard form, keys {}, order {}: {}", style, order, e))?;
                    ensure(sf.to_standard_form() == sf, || "the standard form of the standard form differs".into())?;
                    first = Some(sf);
                }
                Some(s) => ensure(*s == sf && s.to_json_string() == sf.to_json_string(), || format!("standard forms differ (keys {}, order {}):\n {}\n {}", style, order, s, sf))?,
            }
        }
    }
    c.outcome(&(n, rel));
    Ok(())
}
pub fn c12(q: bool) -> Vec<Family> {
    let mut v: Vec<(String, RF)> = cases(q).into_iter().filter(|(_, f)| f.n() <= if q { 130 } else { 300 }).collect();
    for (name, f) in real_networks() {
        v.push((name.to_string(), f));
    }
    vec![fam("large systems", v, c12_one)]
}
// ---------------------------------------------------------------- C13
fn c13_one(f: &RF, case: usize, c: &mut Ctx) -> R {
    let n = f.n();
    for style in 0..KEY_STYLES {
        if (style + case) % 2 == 1 && n > 70 {
            continue;
        }
        let ks = keys(n, style);
        let m = Named { keys: ks.clone(), q: f.q.clone() };
        let text = f_json(f, &|x| ks[x].clone());
        let a = Fbas::from_json_str(&text);
        observe(&a, &m, &|q| q.sorted()).map_err(|e| format!("keys {}: {}", style, e))?;
        for t in [a.to_json_string(), a.to_json_string_pretty()] {
            let b = Fbas::from_json_str(&t);
            ensure(a == b, || format!("keys {}: writing and reading back does not yield an equal FBAS", style))?;
            observe(&b, &m, &|q| q.sorted()).map_err(|e| format!("keys {}, after writing and reading back: {}", style, e))?;
        }
        if style == case % KEY_STYLES {
            let s = Scratch::with(".json", a.to_json_string_pretty().as_bytes());
            ensure(Fbas::from_json_file(&s.0) == a, || "reading from a file differs".into())?;
        }
        c.ops(3);
    }
    c.outcome(&show(f));
    Ok(())
}
pub fn c13(q: bool) -> Vec<Family> {
    let mut v = cases(q);
    for (name, f) in real_networks() {
        v.push((name.to_string(), f));
    }
    for n in if q { vec![1000] } else { vec![1000, 2000] } {
        v.extend(large(n));
    }
    vec![fam("large systems", v, c13_one)]
}
// ---------------------------------------------------------------- C14
fn c14_one(f: &RF, case: usize, c: &mut Ctx) -> R {
    let n = f.n();
    let ks = keys(n, case % KEY_STYLES);
    let m = Named { keys: ks.clone(), q: f.q.clone() };
    let fb = Fbas::from_json_str(&f_json(f, &|x| ks[x].clone()));
    let ps = patterns(n);
    let step = if n > 70 { 7 } else { 3 };
    for (pi, keep) in ps.iter().enumerate().filter(|(i, _)| (i + case) % step == 0) {
        let (r, man) = fb.shrunken(set(keep));
        let mut new = vec![None; n];
        for (k, &x) in keep.iter().enumerate() {
            new[x] = Some(k);
        }
        let want = Named { keys: keep.iter().map(|&x| m.keys[x].clone()).collect(), q: keep.iter().map(|&x| m.q[x].filter_map(&|y| new[y])).collect() };
        observe(&r, &want, &norm).map_err(|e| format!("reduced to {:?}: {}", keep, e))?;
        let wf = RF { q: want.q.clone() };
        for x in patterns(keep.len().max(1)).into_iter().filter(|x| x.iter().all(|&y| y < keep.len())) {
            let q = is_quorum(&wf, &x);
            ensure(r.is_quorum(&set(&x)) == q, || format!("reduced to {:?}: is_quorum({:?}) = {}", keep, x, !q))?;
            let up: Vec<usize> = x.iter().map(|&k| keep[k]).collect();
            ensure(man.unshrink_set(&set(&x)) == set(&up), || format!("reduced to {:?}: unshrink_set({:?})", keep, x))?;
            ensure(man.shrink_set(&set(&up)) == set(&x), || format!("reduced to {:?}: shrink_set({:?})", keep, up))?;
        }
        ensure(*man.unshrink_table() == *keep, || format!("unshrink_table = {:?}, should be {:?}", man.unshrink_table(), keep))?;
        // further
        let keep2: Vec<usize> = keep.iter().copied().skip(pi % 2).step_by(2).collect();
        let (_, man2) = fb.shrunken(set(&keep2));
        let half: Vec<usize> = keep2.iter().copied().step_by(2).collect();
        let inn = man.shrink_sets(&[set(&keep2), set(&half)]);
        let back = man2.unshrink_sets(&man2.reshrink_sets(&inn, &man));
        ensure(back == vec![set(&keep2), set(&half)], || format!("reshrinking from {:?} to {:?}", keep, keep2))?;
        // groupings along with it
        let gs: Groups = (0..n / 5).map(|k| (format!("g{}", k), (0..n).rev().filter(|x| x % (n / 5) == k).collect())).collect();
        let g = Groupings::from_json_str(&groups_json(&gs, &|x| ks[x].clone()), &fb);
        let red = Groupings::shrunken(&g, &man, &r);
        let wg: Groups = gs.iter().map(|(nm, v)| (nm.clone(), v.iter().filter_map(|&x| new[x]).collect())).collect();
        for x in 0..keep.len() {
            let group: BTreeSet<usize> = wg.iter().find(|w| w.1.contains(&x)).map(|w| w.1.iter().copied().collect()).unwrap_or_default();
            let rep = red.merge_node(x);
            ensure(group.contains(&rep) && group.iter().all(|&y| red.merge_node(y) == rep), || format!("groupings reduced to {:?}: merge_node({}) = {}", keep, x, rep))?;
        }
        c.ops(6);
    }
    c.outcome(&show(f));
    Ok(())
}
pub fn c14(q: bool) -> Vec<Family> {
    vec![fam("large systems", cases(q).into_iter().filter(|(_, f)| f.n() <= if q { 130 } else { 300 }).collect(), c14_one), c14_huge(q)]
}
/// tens of thousands of nodes, of which few or most are kept
fn c14_huge(q: bool) -> Family {
    let ns: Vec<usize> = if q { vec![1030, 66_000] } else { vec![1030, 4_100, 33_000, 66_000, 132_000] };
    let n2 = ns.clone();
    Family::new(
        "tens of thousands of nodes",
        3 * ns.len() as u64,
        move |i, c| {
            let n = ns[i as usize / 3];
            let f = RF { q: (0..n).map(|x| RQ::new(2, &[x], vec![RQ::flat(1, &[(x + 1) % n, (x + n / 2) % n])])).collect() };
            let keep: Vec<usize> = match i % 3 {
                0 => vec![0, 1, n / 2, n / 2 + 1, n - 2, n - 1],
                1 => (n - 40..n).collect(),
                _ => (0..n).filter(|x| x % 3 != 0).collect(),
            };
            c.states += 1;
            c.traces += 1;
            c.ops(4);
            let r = (|| -> R {
                let fb = to_fbas(&f);
                let (r, man) = fb.shrunken(set(&keep));
                ensure(*man.unshrink_table() == *keep, || format!("the table has {} entries, {} nodes are kept", man.unshrink_table().len(), keep.len()))?;
                let new: BTreeMap<usize, usize> = keep.iter().enumerate().map(|(k, &x)| (x, k)).collect();
                ensure(r.number_of_nodes() == keep.len(), || format!("{} nodes, should be {}", r.number_of_nodes(), keep.len()))?;
                for (k, &x) in keep.iter().enumerate() {
                    let want = f.q[x].filter_map(&|y| new.get(&y).copied());
                    let got = r.get_quorum_set(k).map(|q| from_qs(&q));
                    ensure(got.as_ref().map(|q| norm(q)) == Some(norm(&want)), || format!("the quorum set of {} is now {:?}, should be {}", x, got.as_ref().map(show_q), show_q(&want)))?;
                    ensure(r.get_node_id(&format!("n{}", x)) == Some(k), || format!("n{} has the ID {:?}, should be {}", x, r.get_node_id(&format!("n{}", x)), k))?;
                }
                let ids: Vec<usize> = (0..keep.len()).step_by(1 + keep.len() / 50).chain([keep.len() - 1]).collect();
                let up: Vec<usize> = ids.iter().map(|&k| keep[k]).collect();
                ensure(man.unshrink_set(&set(&ids)) == set(&up) && man.shrink_set(&set(&up)) == set(&ids), || "shrink_set and unshrink_set".into())?;
                c.outcome(&(n, keep.len()));
                Ok(())
            })();
            r.or_else(|e| fail(format!("{} nodes, {} kept", n, keep.len()), e))
        },
        move |i| format!("{} nodes, selection {}", n2[i as usize / 3], i % 3),
    )
}
// ---------------------------------------------------------------- C15
/// so many groups that their numbers don't fit into a byte, or two
fn very_many_groups(q: bool) -> Family {
    let ks: Vec<usize> = if q { vec![255, 256, 257, 300, 65_537] } else { vec![127, 128, 129, 255, 256, 257, 300, 511, 513, 4_097, 32_769, 65_535, 65_537, 66_000] };
    let k2 = ks.clone();
    Family::new(
        "very many groups",
        3 * ks.len() as u64,
        move |i, ctx| {
            let k = ks[i as usize / 3];
            ctx.states += 1;
            ctx.traces += 1;
            let r = (|| -> R {
                // group g consists of the nodes g and, sometimes, k + g / 2
                let n = k + k / 2;
                let member = |g: usize| -> Vec<usize> { if g % 2 == 0 && k + g / 2 < n { vec![g, k + g / 2] } else { vec![g] } };
                let name = |g: usize| format!("group {:06}", g);
                let key = |x: usize| format!("k{}", x);
                let fbas_text: Vec<Value> = if i % 3 == 0 {
                    (0..n).map(|x| json!({ "publicKey": key(x) })).collect()
                } else {
                    let mut of = vec![0; n];
                    (0..k).for_each(|g| member(g).into_iter().for_each(|x| of[x] = g));
                    (0..n).map(|x| if i % 3 == 1 { json!({ "publicKey": key(x), "isp": name(of[x]) }) } else { json!({ "publicKey": key(x), "geoData": {"countryName": name(of[x])} }) }).collect()
                };
                let text = Value::Array(fbas_text).to_string();
                let fbas = Fbas::from_json_str(&text);
                let g = match i % 3 {
                    0 => Groupings::organizations_from_json_str(&Value::Array((0..k).map(|g| json!({"name": name(g), "validators": member(g).into_iter().map(key).collect::<Vec<_>>()})).collect()).to_string(), &fbas),
                    1 => Groupings::isps_from_json_str(&text, &fbas),
                    _ => Groupings::countries_from_json_str(&text, &fbas),
                };
                ensure(g.number_of_groupings() == k, || format!("{} groups, should be {}", g.number_of_groupings(), k))?;
                let step = if k > 5000 { 97 } else { 1 };
                for x in (0..k).step_by(step).chain(k - 3..k) {
                    let m = member(x);
                    let first = g.merge_node(m[0]);
                    ensure(m.contains(&first), || format!("merge_node({}) = {}", m[0], first))?;
                    let by_name = g.get_by_name(&name(x));
                    for &y in &m {
                        ensure(g.merge_node(y) == first, || format!("merge_node({}) = {}, should be {}", y, g.merge_node(y), first))?;
                        ensure(by_name.is_some() && g.get_by_member(y) == by_name, || format!("get_by_member({}) = {:?}, should be {}", y, g.get_by_member(y), name(x)))?;
                    }
                    ctx.ops(4);
                }
                ctx.outcome(&(k, i % 3));
                Ok(())
            })();
            match r {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("{} groups, kind {}", k, i % 3), e),
            }
        },
        move |i| format!("{} groups, kind {}", k2[i as usize / 3], i % 3),
    )
}
/// many groups, of many members
pub fn c15(q: bool) -> Vec<Family> {
    let ns = sizes(q);
    let total = ns.len() as u64 * KEY_STYLES as u64 * 6;
    let dec = move |i: u64| (ns[(i / 6 / KEY_STYLES as u64) as usize], (i / 6) as usize % KEY_STYLES, i % 6);
    let d2 = dec.clone();
    vec![very_many_groups(q), Family::new(
        "many groups",
        total,
        move |i, ctx| {
            let (n, style, kind) = dec(i);
            ctx.states += 1;
            ctx.traces += 1;
            let ks = keys(n, style);
            let nodes = f_json(&RF { q: (0..n).map(|x| RQ::flat(1, &[x])).collect() }, &|x| ks[x].clone());
            let fbas = Fbas::from_json_str(&nodes);
            // which group a node is in
            let of = |x: usize| -> usize {
                match kind {
                    0 | 3 => x % 7,
                    1 | 4 => x / 3,
                    _ => 0,
                }
            };
            // alike except for the end, or for what is left out
            let name = |k: usize| format!("{}{}{}", "Long, Inc. ".repeat(6), k, if k % 2 == 0 { "." } else { "" });
            let mut r = Ok(());
            if kind < 3 {
                let mut gs: Groups = vec![];
                for x in 0..n {
                    match gs.iter_mut().find(|g| g.0 == name(of(x))) {
                        Some(g) => g.1.insert(0, x),
                        None => gs.push((name(of(x)), vec![x])),
                    }
                }
                let text = groups_json(&gs, &|x| ks[x].clone());
                let g = Groupings::organizations_from_json_str(&text, &fbas);
                ctx.op();
                r = observe_groups(&g, &gs, &ks, &fbas);
            } else {
                let arr: Vec<Value> = (0..n)
                    .map(|x| {
                        let mut e = json!({"publicKey": ks[x]});
                        if x % 5 != 4 {
                            e["isp"] = json!(name(of(x)));
                            e["geoData"] = json!({ "countryName": name(of(x) + 1) });
                        }
                        e
                    })
                    .collect();
                let text = Value::Array(arr).to_string();
                for (what, shift) in [("ISPs", 0), ("countries", 1)] {
                    let mut want: BTreeMap<String, Vec<usize>> = Default::default();
                    for x in (0..n).filter(|x| x % 5 != 4) {
                        want.entry(norm_name(&name(of(x) + shift))).or_default().push(x);
                    }
                    let want: Groups = want.into_iter().collect();
                    let g = if shift == 0 { Groupings::isps_from_json_str(&text, &fbas) } else { Groupings::countries_from_json_str(&text, &fbas) };
                    ctx.op();
                    r = r.and_then(|_| observe_groups(&g, &want, &ks, &fbas).map_err(|e| format!("{}: {}", what, e)));
                    ctx.outcome(&want);
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("{} nodes, keys {}, kind {}", n, style, kind), e),
            }
        },
        move |i| format!("(nodes, keys, kind) = {:?}", d2(i)),
    )]
}
// ---------------------------------------------------------------- C16, C19
fn families_of(n: usize, kind: usize) -> Vec<Vec<usize>> {
    let all: Vec<usize> = (0..n).collect();
    let w = |x: usize, k: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (0..k).map(|d| (x + d) % n).collect();
        v.sort_unstable();
        v
    };
    match kind {
        0 => patterns(n),
        1 => all.iter().map(|&x| vec![x]).collect(),
        2 => all.iter().map(|&x| w(x, 3)).collect(),
        // all windows up to a length, longest first
        3 => (1..=5).rev().flat_map(|k| all.iter().map(move |&x| (x, k))).map(|(x, k)| w(x, k)).skip(n).collect(),
        4 => all.iter().map(|&x| all.iter().copied().filter(|&y| y != x).collect()).collect(),
        // more than half, around the ring
        5 => all.iter().map(|&x| w(x, n / 2 + 1)).collect(),
        6 => all.iter().map(|&x| w(x, n / 2)).collect(),
        // only the last two do not meet
        7 => all[..n - 1].iter().map(|&x| vec![x, n - 1]).chain([all[..n - 1].to_vec()]).chain([vec![n - 1]]).collect(),
        8 => all[..n - 1].iter().map(|&x| vec![x, n - 1]).chain([all[..n - 1].to_vec()]).collect(),
        // the same ones again and again
        9 => patterns(n).into_iter().chain(patterns(n)).chain(all.iter().map(|&x| w(x, 2))).filter(|x| !x.is_empty()).collect(),
        10 => (0..n).flat_map(|a| (a + 1..n).map(move |b| vec![a, b])).step_by(1 + n * n / 1500).collect(),
        // nested in each other, shortest and longest first
        11 => all.iter().map(|&x| all[x..].to_vec()).collect(),
        12 => all.iter().map(|&x| all[..=x].to_vec()).collect(),
        // minimal but for one, which contains the very last
        _ => all.iter().map(|&x| w(x, 4)).chain([w(n - 4, 4).into_iter().chain([1]).collect::<BTreeSet<_>>().into_iter().collect()]).collect(),
    }
}
const FAMILIES: usize = 14;
fn subset(a: &[usize], b: &[usize]) -> bool {
    a.iter().all(|x| b.binary_search(x).is_ok())
}
fn min_sets(f: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let mut u = f.to_vec();
    u.sort();
    u.dedup();
    let mut r: Vec<Vec<usize>> = u.iter().filter(|x| !u.iter().any(|y| y.len() < x.len() && subset(y, x))).cloned().collect();
    r.sort();
    r
}
fn to_vecs(s: &[NodeIdSet]) -> Vec<Vec<usize>> {
    s.iter().map(|x| x.iter().collect()).collect()
}
fn fam_cases(name: &str, ns: Vec<usize>, check: fn(usize, &[Vec<usize>], &mut Ctx) -> R) -> Family {
    let per = 2 * FAMILIES as u64;
    let total = ns.len() as u64 * per;
    let n2 = ns.clone();
    let dec = move |ns: &[usize], i: u64| {
        let n = ns[(i / per) as usize];
        let mut f = families_of(n, (i % per) as usize / 2);
        if i % 2 == 1 {
            f.reverse();
        }
        (n, f)
    };
    Family::new(
        name,
        total,
        move |i, ctx| {
            let (n, f) = dec(&ns, i);
            ctx.states += 1;
            ctx.traces += 1;
            match check(n, &f, ctx) {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("family {} over {} nodes", i % per, n), e),
            }
        },
        move |i| {
            let n = n2[(i / per) as usize];
            format!("family {} over {} nodes", i % per, n)
        },
    )
}
fn c19_one(_: usize, f: &[Vec<usize>], c: &mut Ctx) -> R {
    let real: Vec<NodeIdSet> = f.iter().map(|x| set(x)).collect();
    let got = to_vecs(&remove_non_minimal_node_sets(real.clone()));
    ensure(got.windows(2).all(|w| w[0].len() <= w[1].len()), || "remove_non_minimal_node_sets is not ordered by size".into())?;
    let mut g = got.clone();
    g.sort();
    let want = min_sets(f);
    ensure(g == want, || format!("remove_non_minimal_node_sets({:?}) = {:?}, should be {:?}", f, g, want))?;
    let ok = (0..f.len()).all(|i| (0..f.len()).all(|j| i == j || !subset(&f[i], &f[j])));
    ensure(is_set_of_minimal_node_sets(&real) == ok, || format!("is_set_of_minimal_node_sets({:?}) = {}", f, !ok))?;
    let ai = (0..f.len()).all(|i| (i + 1..f.len()).all(|j| f[i].iter().any(|x| f[j].binary_search(x).is_ok())));
    ensure(all_intersect(&real) == ai, || format!("all_intersect({:?}) = {}", f, !ai))?;
    // the minimal ones are minimal
    let m = remove_non_minimal_node_sets(real.clone());
    ensure(is_set_of_minimal_node_sets(&m), || "what is left is not found minimal".into())?;
    let inv: Vec<usize> = f.iter().flatten().copied().collect::<BTreeSet<_>>().into_iter().collect();
    ensure(involved_nodes(&real).iter().collect::<Vec<_>>() == inv, || format!("involved_nodes({:?})", f))?;
    c.ops(5);
    c.outcome(&(want.len(), ok, ai, inv.len()));
    Ok(())
}
pub fn c19(q: bool) -> Vec<Family> {
    vec![fam_cases("large families", sizes(q), c19_one), c19_many(q)]
}
/// hundreds to thousands of sets, of which exactly one (small, at a certain place) makes another (elsewhere) superfluous,
/// meets all others but one, or is there twice
fn c19_many(q: bool) -> Family {
    // (nodes, size of the sets)
    let bases: Vec<(usize, usize)> = if q { vec![(24, 2), (13, 5), (17, 4), (60, 2)] } else { vec![(24, 2), (13, 5), (17, 4), (60, 2), (14, 5), (15, 5), (24, 3), (80, 2)] };
    const KINDS: u64 = 6;
    const PLACES: u64 = 4;
    let per = KINDS * PLACES * PLACES;
    let b2 = bases.clone();
    let dec = move |bases: &[(usize, usize)], i: u64| -> Vec<u128> {
        let (n, k) = bases[(i / per) as usize];
        let kind = i / (PLACES * PLACES) % KINDS;
        let place = |len: usize, p: u64| match p {
            0 => 0,
            1 => len / 3,
            2 => len - len / 5,
            _ => len,
        };
        let mut f: Vec<u128> = vec![];
        let mut x = (1u128 << k) - 1;
        while x < 1 << n {
            f.push(x);
            let c = x & x.wrapping_neg();
            let r = x + c;
            x = (((r ^ x) >> 2) / c) | r;
        }
        let hub = 1u128 << 120;
        let (a, b) = match kind {
            // a single node and a set with it
            0 => (hub, hub | 3 << 100),
            1 => (hub, hub | 1),
            // a set of the family and one with one more node
            2 => (f[f.len() / 3], f[f.len() / 3] | hub),
            // all meet in one node, but for these
            3 | 4 => {
                for x in &mut f {
                    *x |= hub;
                }
                if kind == 3 { (3 << 100, hub | 1 << 101) } else { (f[7], f[f.len() - 9] ^ hub) }
            }
            _ => (f[f.len() / 2], f[5]),
        };
        let p = place(f.len(), i % PLACES);
        f.insert(p, a);
        let p = place(f.len(), i / PLACES % PLACES);
        f.insert(p, b);
        f
    };
    let d2 = dec.clone();
    Family::new(
        "very many sets",
        bases.len() as u64 * per,
        move |i, ctx| {
            let f = dec(&bases, i);
            ctx.states += 1;
            ctx.traces += 1;
            let set = |x: u128| -> NodeIdSet { (0..128).filter(|b| x >> b & 1 == 1).collect() };
            let check = |c: &mut Ctx| -> R {
                let real: Vec<NodeIdSet> = f.iter().map(|&x| set(x)).collect();
                let mask = |s: &NodeIdSet| s.iter().fold(0u128, |a, x| a | 1 << x);
                let mut u = f.clone();
                u.sort_unstable();
                u.dedup();
                let mut want: Vec<u128> = u.iter().copied().filter(|x| !u.iter().any(|y| y != x && x & y == *y)).collect();
                let got: Vec<u128> = remove_non_minimal_node_sets(real.clone()).iter().map(mask).collect();
                ensure(got.windows(2).all(|w| w[0].count_ones() <= w[1].count_ones()), || "remove_non_minimal_node_sets is not ordered by size".into())?;
                let mut g = got.clone();
                g.sort_unstable();
                want.sort_unstable();
                ensure(g == want, || format!("remove_non_minimal_node_sets leaves {} of {} sets, should be {}", g.len(), f.len(), want.len()))?;
                let ok = f.len() == u.len() && want.len() == f.len();
                ensure(is_set_of_minimal_node_sets(&real) == ok, || format!("is_set_of_minimal_node_sets = {}", !ok))?;
                let ai = (0..f.len()).all(|i| (i + 1..f.len()).all(|j| f[i] & f[j] != 0));
                ensure(all_intersect(&real) == ai, || format!("all_intersect = {}", !ai))?;
                let inv = f.iter().fold(0, |a, x| a | x);
                ensure(mask(&involved_nodes(&real)) == inv, || "involved_nodes".into())?;
                c.ops(4);
                c.outcome(&(want.len(), ok, ai));
                Ok(())
            };
            match check(ctx) {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("case {} of {}", i % per, f.len()), e),
            }
        },
        move |i| format!("case {} of {} sets", i % per, d2(&b2, i).len()),
    )
}
fn c16_one(n: usize, f: &[Vec<usize>], c: &mut Ctx) -> R {
    let fbas = Fbas::new_generic_unconfigured(n);
    let groupings: Vec<Groups> = vec![
        (0..n / 3).map(|k| (format!("g{}", k), vec![3 * k + 2, 3 * k, 3 * k + 1])).collect(),
        (0..5).map(|k| (format!("g{}", k), (0..n).filter(|x| x % 7 == k).rev().collect())).collect(),
        vec![("all".into(), (0..n).rev().collect())],
        vec![],
        vec![("nobody".into(), vec![])],
        vec![("ends".into(), vec![n - 1, 0]), ("nobody".into(), vec![]), ("middle".into(), (n / 4..n / 2).collect())],
    ];
    for gs in groupings {
        let g = Groupings::from_json_str(&groups_json(&gs, &|x| format!("n{}", x)), &fbas);
        let rep: Vec<usize> = (0..n).map(|x| g.merge_node(x)).collect();
        for x in 0..n {
            let grp = gs.iter().find(|g| g.1.contains(&x)).map(|g| g.1.clone()).unwrap_or(vec![x]);
            ensure(grp.contains(&rep[x]) && grp.iter().all(|&y| rep[y] == rep[x]), || format!("merge_node({}) = {}, group {:?}", x, rep[x], grp))?;
        }
        let want: Vec<Vec<usize>> = f.iter().map(|s| s.iter().map(|&x| rep[x]).collect::<BTreeSet<_>>().into_iter().collect()).collect();
        let real: Vec<NodeIdSet> = f.iter().map(|x| set(x)).collect();
        let got = to_vecs(&g.merge_node_sets(real.clone()));
        ensure(got == want, || format!("merge_node_sets({:?}) = {:?}, should be {:?}", f, got, want))?;
        let mut got = to_vecs(&g.merge_minimal_node_sets(real));
        got.sort();
        let w = min_sets(&want);
        ensure(got == w, || format!("merge_minimal_node_sets({:?}) = {:?}, should be {:?}", f, got, w))?;
        c.ops(3);
        c.outcome(&w.len());
    }
    Ok(())
}
/// every pair of many nodes, and bigger sets that one pair (the first, one in the middle, the last) makes superfluous
fn c16_many() -> Family {
    const N: usize = 56;
    Family::new(
        "very many sets",
        6,
        move |i, ctx| {
            let mut f: Vec<Vec<usize>> = (0..N).flat_map(|a| (a + 1..N).map(move |b| vec![a, b])).collect();
            let at = [0, f.len() / 2, f.len() - 1][i as usize % 3];
            let p = f[at].clone();
            f.push([p.clone(), vec![N]].concat());
            f.push([p, vec![N + 2, N + 3]].concat());
            f.push(vec![N, N + 1]);
            f.push(vec![N, N + 2, N + 3]);
            if i >= 3 {
                f.reverse();
            }
            ctx.states += 1;
            ctx.traces += 1;
            match c16_one(N + 4, &f, ctx) {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("case {}", i), e.chars().take(1500).collect::<String>()),
            }
        },
        |i| format!("case {}", i),
    )
}
pub fn c16(q: bool) -> Vec<Family> {
    vec![fam_cases("large families", sizes(q), c16_one), c16_many()]
}
// ---------------------------------------------------------------- C20
fn c20_one(f: &RF, _: usize, c: &mut Ctx) -> R {
    let n = f.n();
    let fb = to_fbas(f);
    let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1. + b.abs());
    for s in [(0..n).collect::<Vec<_>>(), (0..n).rev().step_by(2).collect(), (n / 2..n).collect(), (0..3.min(n)).collect()] {
        let want = c20_ref(f, &s);
        let got = preprocessing::rank_nodes(&s, &fb);
        ensure(got.len() == n && got.iter().zip(&want).all(|(&a, &b)| close(a, b)), || format!("rank_nodes({:?}) = {:?}, documented iteration gives {:?}", s, got, want))?;
        let sorted = preprocessing::sort_by_rank(s.clone(), &fb);
        let (mut x, mut y) = (sorted.clone(), s.clone());
        x.sort_unstable();
        y.sort_unstable();
        ensure(x == y, || format!("sort_by_rank({:?}) = {:?} are not the same nodes", s, sorted))?;
        ensure(sorted.windows(2).all(|w| want[w[0]] + 1e-9 >= want[w[1]]), || format!("sort_by_rank({:?}) = {:?} does not have non-increasing scores {:?}", s, sorted, want))?;
        c.ops(2);
        c.outcome(&want.iter().map(|x| (x * 1e6) as u64).collect::<Vec<_>>());
    }
    let got = fb.rank_nodes();
    let want = c20_ref(f, &(0..n).collect::<Vec<_>>());
    ensure(got.len() == n && got.iter().zip(&want).all(|(&a, &b)| close(a, b)), || format!("Fbas::rank_nodes = {:?}, documented iteration gives {:?}", got, want))
}
pub fn c20(q: bool) -> Vec<Family> {
    let mut v: Vec<(String, RF)> = cases(q).into_iter().filter(|(_, f)| f.n() <= if q { 70 } else { 300 }).collect();
    for (name, f) in real_networks() {
        if f.n() <= 250 {
            v.push((name.to_string(), f));
        }
    }
    for n in if q { vec![257, 600] } else { vec![513, 600, 1100] } {
        v.extend(large(n).into_iter().filter(|(w, _)| w.starts_with("ring") || w.starts_with("some with") || w.starts_with("windows")));
    }
    vec![fam("large systems", v, c20_one)]
}
