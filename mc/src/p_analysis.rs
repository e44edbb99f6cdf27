//! C01-C12, C20, C34: the analysis itself.
use crate::engine::*;
use crate::refm::*;
use crate::universe::*;
use fbas_analyzer::*;
use std::collections::BTreeSet;
use Layout::*;

type R = Result<(), String>;
pub fn ensure(c: bool, m: impl FnOnce() -> String) -> R {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}
pub fn vecs(s: &[NodeIdSet]) -> Vec<Vec<usize>> {
    s.iter().map(|x| x.iter().collect()).collect()
}

// ---------------------------------------------------------------- C01..C03
fn c01(_: &RF, o: &Oracle, l: &Laid, c: &mut Ctx) -> R {
    same_family(l, "find_minimal_quorums", &find_minimal_quorums(&l.fbas), &o.mq)?;
    same_family(l, "Analysis::minimal_quorums", &Analysis::new(&l.fbas).minimal_quorums().unwrap(), &o.mq)?;
    let a = Analysis::new(&l.fbas);
    a.minimal_blocking_sets();
    same_family(l, "Analysis::minimal_quorums after minimal_blocking_sets", &a.minimal_quorums().unwrap(), &o.mq)?;
    c.ops(4);
    c.outcome(&o.mq);
    Ok(())
}
fn c02(_: &RF, o: &Oracle, l: &Laid, c: &mut Ctx) -> R {
    if !o.any_quorum {
        return Ok(());
    }
    same_family(l, "find_minimal_blocking_sets", &find_minimal_blocking_sets(&l.fbas), &o.mbs)?;
    same_family(l, "Analysis::minimal_blocking_sets", &Analysis::new(&l.fbas).minimal_blocking_sets().unwrap(), &o.mbs)?;
    let a = Analysis::new(&l.fbas);
    a.minimal_quorums();
    same_family(l, "Analysis::minimal_blocking_sets after minimal_quorums", &a.minimal_blocking_sets().unwrap(), &o.mbs)?;
    c.ops(4);
    c.outcome(&o.mbs);
    Ok(())
}
fn c03(_: &RF, o: &Oracle, l: &Laid, c: &mut Ctx) -> R {
    if o.qi {
        let mq: Vec<NodeIdSet> = o.mq.iter().map(|&m| l.set(m)).collect();
        same_family(l, "find_minimal_splitting_sets", &find_minimal_splitting_sets(&l.fbas, &mq), &o.mss)?;
        same_family(l, "Analysis::minimal_splitting_sets", &Analysis::new(&l.fbas).minimal_splitting_sets().unwrap(), &o.mss)?;
        let a = Analysis::new(&l.fbas);
        a.minimal_blocking_sets();
        same_family(l, "Analysis::minimal_splitting_sets after minimal_blocking_sets", &a.minimal_splitting_sets().unwrap(), &o.mss)?;
        c.outcome(&o.mss);
        c.count("with_quorum_intersection", 1);
    } else {
        let s = Analysis::new(&l.fbas).minimal_splitting_sets().unwrap();
        ensure(s.len() == 1 && s[0].is_empty(), || format!("no quorum intersection, but minimal_splitting_sets = {:?}, not [{{}}]", vecs(&s)))?;
        let a = Analysis::new(&l.fbas);
        a.minimal_blocking_sets();
        let s = a.minimal_splitting_sets().unwrap();
        ensure(s.len() == 1 && s[0].is_empty(), || format!("no quorum intersection, but minimal_splitting_sets after minimal_blocking_sets = {:?}, not [{{}}]", vecs(&s)))?;
    }
    c.ops(3);
    Ok(())
}
// ---------------------------------------------------------------- C04, C05
fn witness(o: &Oracle, l: &Laid, what: &str, w: &[NodeIdSet]) -> R {
    ensure(w.len() >= 2, || format!("{}: only {} quorum(s)", what, w.len()))?;
    for q in w {
        // nodes that depend on the model's nodes may be members of reported quorums
        let f = &l.real;
        let ok = !q.is_empty() && q.iter().all(|x| x < l.total && f.q[x].sat(&|y| q.contains(y)));
        ensure(ok, || format!("{}: {:?} is not a quorum", what, q.iter().collect::<Vec<_>>()))?;
    }
    for (i, a) in w.iter().enumerate() {
        for b in &w[i + 1..] {
            ensure(a.is_disjoint(b), || format!("{}: {:?} and {:?} intersect", what, a.iter().collect::<Vec<_>>(), b.iter().collect::<Vec<_>>()))?;
        }
    }
    let _ = o;
    Ok(())
}
fn c04(_: &RF, o: &Oracle, l: &Laid, c: &mut Ctx) -> R {
    let want = o.qi;
    let chk = |what: &str, got: bool| ensure(got == want, || format!("{} = {}, but it is {}; minimal quorums are {}", what, got, want, show_sets(&o.mq)));
    let a = Analysis::new(&l.fbas);
    chk("has_quorum_intersection", a.has_quorum_intersection())?;
    chk("has_quorum_intersection (asked again)", a.has_quorum_intersection())?;
    chk("alternative check after the regular one", a.has_quorum_intersection_via_alternative_check().0)?;
    let a = Analysis::new(&l.fbas);
    chk("alternative check", a.has_quorum_intersection_via_alternative_check().0)?;
    a.minimal_blocking_sets();
    chk("alternative check after minimal_blocking_sets", a.has_quorum_intersection_via_alternative_check().0)?;
    chk("has_quorum_intersection after minimal_blocking_sets", a.has_quorum_intersection())?;
    c.ops(6);
    c.outcome(&(want, &o.mq));
    Ok(())
}
fn c05(_: &RF, o: &Oracle, l: &Laid, c: &mut Ctx) -> R {
    let disjoint = o.any_quorum && !o.qi;
    let chk = |what: &str, w: Option<Vec<NodeIdSet>>| -> R {
        ensure(w.is_some() == disjoint, || {
            format!("{} reports {:?}, but disjoint quorums {}; minimal quorums are {}", what, w.as_ref().map(|w| vecs(w)), if disjoint { "exist" } else { "do not exist" }, show_sets(&o.mq))
        })?;
        if let Some(w) = w {
            witness(o, l, what, &w)?;
        }
        Ok(())
    };
    chk("find_nonintersecting_quorums", find_nonintersecting_quorums(&l.fbas))?;
    let a = Analysis::new(&l.fbas);
    chk("alternative check", a.has_quorum_intersection_via_alternative_check().1.map(|r| r.unwrap()))?;
    a.minimal_quorums();
    chk("alternative check after minimal_quorums", a.has_quorum_intersection_via_alternative_check().1.map(|r| r.unwrap()))?;
    let a = Analysis::new(&l.fbas);
    let early = a.has_quorum_intersection_via_alternative_check().1;
    a.minimal_blocking_sets();
    chk("alternative check after minimal_blocking_sets", a.has_quorum_intersection_via_alternative_check().1.map(|r| r.unwrap()))?;
    chk("result of the alternative check kept while other queries ran", early.map(|r| r.unwrap()))?;
    a.minimal_splitting_sets();
    chk("alternative check after all other queries", a.has_quorum_intersection_via_alternative_check().1.map(|r| r.unwrap()))?;
    c.ops(8);
    c.outcome(&(disjoint, &o.mq));
    c.count("with_disjoint_quorums", disjoint as u64);
    Ok(())
}
// ---------------------------------------------------------------- C06, C07
fn c06(_: &RF, o: &Oracle, l: &Laid, c: &mut Ctx) -> R {
    if o.any_quorum {
        assert_eq!(o.mbs.iter().fold(0, |a, x| a | x), o.top_tier, "theory");
    }
    let chk = |what: &str, a: &Analysis| {
        let t = a.top_tier().unwrap();
        let m = l.mask(&t)?;
        ensure(m == o.top_tier, || format!("top_tier {} = {:?}, but exact is {:?} (model nodes)", what, bits(m), bits(o.top_tier)))
    };
    let a = Analysis::new(&l.fbas);
    chk("asked first", &a)?;
    chk("asked again", &a)?;
    let a = Analysis::new(&l.fbas);
    a.minimal_blocking_sets();
    chk("after minimal_blocking_sets", &a)?;
    a.minimal_quorums();
    chk("after minimal_blocking_sets and minimal_quorums", &a)?;
    let a = Analysis::new(&l.fbas);
    a.has_quorum_intersection_via_alternative_check();
    chk("after the alternative check", &a)?;
    let a = Analysis::new(&l.fbas);
    a.minimal_splitting_sets();
    chk("after minimal_splitting_sets", &a)?;
    c.ops(9);
    c.outcome(&o.top_tier);
    Ok(())
}
pub fn sym_clusters(f: &RF) -> Vec<RQ> {
    let n = f.n();
    if n == 0 {
        return vec![];
    }
    let full = ((1u64 << n) - 1) as u32;
    let sat = f.max_quorum(full);
    let mut r: Vec<RQ> = vec![];
    for c in sccs_within(f, sat) {
        if f.max_quorum(c) == 0 {
            continue;
        }
        for i in bits(c) {
            let q = &f.q[i];
            let k = to_mask(&q.contained());
            if k & !c == 0 && k >> i & 1 == 1 && bits(k).iter().all(|&j| f.q[j] == *q) && !r.contains(q) {
                r.push(q.clone());
            }
        }
    }
    r
}
fn c07(f: &RF, o: &Oracle, l: &Laid, c: &mut Ctx) -> R {
    let mut want: Vec<RQ> =
        if l.layout == Layout::Part { big_sym_clusters(&l.real) } else { sym_clusters(f).iter().map(|q| q.map(&|x| l.ids[x])).collect() };
    want.sort();
    let stt: Option<RQ> = if want.len() == 1 {
        let k = l.mask_of_ids(&want[0].contained())?;
        if o.has_q[(o.full & !k) as usize] {
            None
        } else {
            Some(want[0].clone())
        }
    } else {
        None
    };
    let chk = |what: &str, got: Vec<QuorumSet>| {
        let mut g: Vec<RQ> = got.iter().map(from_qs).collect();
        g.sort();
        ensure(g == want, || format!("{} = {:?}, exact is {:?}", what, g.iter().map(show_q).collect::<Vec<_>>(), want.iter().map(show_q).collect::<Vec<_>>()))
    };
    chk("find_symmetric_clusters", find_symmetric_clusters(&l.fbas))?;
    let a = Analysis::new(&l.fbas);
    chk("Analysis::symmetric_clusters", a.symmetric_clusters())?;
    let chk2 = |what: &str, got: Option<QuorumSet>| {
        let g = got.as_ref().map(from_qs);
        ensure(g == stt, || format!("{} = {:?}, exact is {:?}", what, g.as_ref().map(show_q), stt.as_ref().map(show_q)))
    };
    chk2("find_symmetric_top_tier", find_symmetric_top_tier(&l.fbas))?;
    chk2("Analysis::symmetric_top_tier", a.symmetric_top_tier())?;
    c.ops(4);
    c.outcome(&(&want, &stt));
    c.count("with_symmetric_top_tier", stt.is_some() as u64);
    c.count("with_symmetric_cluster", !want.is_empty() as u64);
    Ok(())
}
// ---------------------------------------------------------------- C08
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Q {
    Mq,
    Mbs,
    Mss,
    Hqi,
    Alt,
    Tt,
    Sc,
    Stt,
    All,
    Sat,
    Unsat,
}
const QS: [Q; 11] = [Q::Mq, Q::Mbs, Q::Mss, Q::Hqi, Q::Alt, Q::Tt, Q::Sc, Q::Stt, Q::All, Q::Sat, Q::Unsat];
enum Ans {
    V(NodeIdSetVecResult),
    S(NodeIdSetResult),
    B(bool),
    A(bool, Option<NodeIdSetVecResult>),
    O(Option<QuorumSet>),
    L(Vec<QuorumSet>),
}
fn ask(a: &Analysis, q: Q) -> Ans {
    match q {
        Q::Mq => Ans::V(a.minimal_quorums()),
        Q::Mbs => Ans::V(a.minimal_blocking_sets()),
        Q::Mss => Ans::V(a.minimal_splitting_sets()),
        Q::Hqi => Ans::B(a.has_quorum_intersection()),
        Q::Alt => {
            let (b, w) = a.has_quorum_intersection_via_alternative_check();
            Ans::A(b, w)
        }
        Q::Tt => Ans::S(a.top_tier()),
        Q::Sc => Ans::L(a.symmetric_clusters()),
        Q::Stt => Ans::O(a.symmetric_top_tier()),
        Q::All => Ans::S(a.all_nodes()),
        Q::Sat => Ans::S(a.satisfiable_nodes()),
        Q::Unsat => Ans::S(a.unsatisfiable_nodes()),
    }
}
/// everything a result says
fn render(a: &Ans, o: &Oracle, l: &Laid) -> Result<String, String> {
    Ok(match a {
        Ans::V(v) => format!("{:?} {:?} {:?} {}", v.clone().into_vec_vec(), v.describe(), v.involved_nodes().iter().collect::<Vec<_>>(), v.contains_empty_set()),
        Ans::S(s) => format!("{:?} {}", s.clone().into_vec(), s.len()),
        Ans::B(b) => format!("{}", b),
        Ans::A(b, w) => {
            // any genuine witness is fine
            if let Some(w) = w {
                witness(o, l, "alternative check", &w.clone().unwrap())?;
            }
            format!("{} {}", b, w.is_some())
        }
        Ans::O(q) => format!("{:?}", q),
        Ans::L(q) => {
            let mut q = q.clone();
            q.sort(); // the clusters come in no particular order
            format!("{:?}", q)
        }
    })
}
fn c08_seq(o: &Oracle, l: &Laid, fresh: &[String], seq: &[Q]) -> R {
    let a = Analysis::new(&l.fbas);
    let mut kept: Vec<(Q, Ans)> = vec![];
    for (k, &q) in seq.iter().enumerate() {
        let r = ask(&a, q);
        let want = &fresh[QS.iter().position(|&x| x == q).unwrap()];
        let got = render(&r, o, l)?;
        ensure(got == *want, || format!("history {:?}: answer {} to {:?} differs from the one of a fresh analysis\n got  {}\n want {}", &seq[..=k], k, q, got, want))?;
        kept.push((q, r));
    }
    for (k, (q, r)) in kept.iter().enumerate() {
        let want = &fresh[QS.iter().position(|x| x == q).unwrap()];
        let got = render(r, o, l)?;
        ensure(got == *want, || format!("history {:?}: the result of step {} ({:?}) changed its meaning later\n got  {}\n want {}", seq, k, q, got, want))?;
    }
    Ok(())
}
fn c08_family(name: &str, us: Vec<RF>, layouts: &'static [Layout], qs: &'static [Q], depth: usize) -> Family {
    let u = U::list(name, us);
    let g = u.gen.clone();
    let g2 = u.gen.clone();
    let nl = layouts.len() as u64;
    Family::new(
        name,
        u.len * nl,
        move |i, ctx| {
            let f = g(i / nl);
            let lay_ = layouts[(i % nl) as usize];
            let o = Oracle::new(&f);
            let l = lay(&f, lay_);
            let key = format!("{} {:?}", show(&f), lay_);
            let mut fresh = vec![];
            for &q in &QS {
                match render(&ask(&Analysis::new(&l.fbas), q), &o, &l) {
                    Ok(s) => fresh.push(s),
                    Err(e) => return fail(key, e),
                }
            }
            ctx.outcome(&fresh);
            let mut idx = vec![0usize; depth];
            // all histories of exactly `depth` queries (shorter ones are prefixes of these)
            loop {
                let seq: Vec<Q> = idx.iter().map(|&x| qs[x]).collect();
                ctx.states += 1;
                ctx.traces += 1;
                ctx.ops(depth as u64);
                if let Err(e) = c08_seq(&o, &l, &fresh, &seq) {
                    return fail(key, format!("{}\n{}", l.desc(), e));
                }
                let mut k = 0;
                while k < depth {
                    idx[k] += 1;
                    if idx[k] < qs.len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
                if k == depth {
                    break;
                }
            }
            if i % 37 == 5 {
                ctx.sample(|| format!("{} {:?}: all histories of {} queries out of {:?}", show(&f), lay_, depth, qs));
            }
            Ok(())
        },
        move |i| format!("{} layout {:?}", show(&g2(i / nl)), layouts[(i % nl) as usize]),
    )
}
/// quorum sets for node `x` of an FBAS of `n` nodes
fn edit_template(k: usize, x: usize, n: usize) -> RQ {
    let all: Vec<usize> = (0..n).collect();
    match k {
        0 => RQ::default(),
        1 => RQ::flat(1, &[x]),
        2 => RQ::flat(n as u64 / 2 + 1, &all),
        3 => RQ::flat(2, &[0, x]),
        4 => RQ::flat(n as u64, &all),
        // counts on a node that is yet to come
        5 => RQ::flat(2, &[x, n]),
        _ => RQ::new(2, &[x], vec![RQ::flat(1, &all.iter().copied().filter(|&y| y != x).collect::<Vec<_>>())]),
    }
}
const EDITS: usize = 7;
/// histories of edits of one FBAS, with analyses of its states kept and asked in between and afterwards
fn c08_edited(depth: u32, start: usize) -> Family {
    let ops = 3 * EDITS as u64;
    Family::new(
        format!("every history of {} edits of an FBAS of {} nodes, analyses of all its states being asked", depth, start),
        ops.pow(depth),
        move |i, ctx| {
            let mut model = RF { q: (0..start).map(|x| edit_template(2 + x % 2, x, start)).collect() };
            let mut fbas = to_fbas(&model);
            let mut kept: Vec<(Analysis, RF, Laid, Oracle, Vec<String>)> = vec![];
            let mut trail: Vec<String> = vec![];
            let mut x = i;
            ctx.states += 1;
            ctx.traces += 1;
            let bad = |trail: &Vec<String>, f: &RF, e: String| fail::<()>(format!("{:?}", trail), format!("edits {:?}; the analysis of {} \n{}", trail, show(f), e));
            for step in 0..=depth {
                // dangling references are only analysed once the node exists
                let n = model.n();
                if n > 0 && model.q.iter().all(|q| q.contained().iter().all(|&y| y < n)) {
                    let o = Oracle::new(&model);
                    let l = lay(&model, Ident);
                    let fresh: Result<Vec<String>, String> = QS.iter().map(|&q| render(&ask(&Analysis::new(&l.fbas), q), &o, &l)).collect();
                    match fresh {
                        Ok(fr) => kept.push((Analysis::new(&fbas), model.clone(), l, o, fr)),
                        Err(e) => return bad(&trail, &model, e),
                    }
                }
                // every analysis so far answers some query
                for (k, (a, f, l, o, fr)) in kept.iter().enumerate() {
                    let q = (i as usize * 5 + step as usize * 3 + k * 7) % QS.len();
                    match render(&ask(a, QS[q]), o, l) {
                        Ok(s) if s == fr[q] => (),
                        Ok(s) => return bad(&trail, f, format!("answers {} to {:?} after all these edits, an analysis of its own FBAS {}", s, QS[q], fr[q])),
                        Err(e) => return bad(&trail, f, e),
                    }
                    ctx.op();
                }
                if step == depth {
                    break;
                }
                let op = (x % ops) as usize;
                x /= ops;
                let (kind, k) = (op / EDITS, op % EDITS);
                if kind == 0 || n == 0 {
                    let q = edit_template(k, n, n + 1);
                    let id = fbas.add_generic_node(to_qs(&q));
                    if id != n {
                        return bad(&trail, &model, format!("the added node has ID {}", id));
                    }
                    trail.push(format!("add {}", show_q(&q)));
                    model.q.push(q);
                } else {
                    let who = if kind == 1 { 0 } else { n - 1 };
                    let q = edit_template(k, who, n);
                    let old = fbas.swap_quorum_set(who, to_qs(&q));
                    if from_qs(&old) != model.q[who] {
                        return bad(&trail, &model, format!("swap_quorum_set({}, ..) returned {:?}, it was {}", who, old, show_q(&model.q[who])));
                    }
                    trail.push(format!("swap {} {}", who, show_q(&q)));
                    model.q[who] = q;
                }
            }
            for (a, f, l, o, fr) in &kept {
                for (k, &q) in QS.iter().enumerate() {
                    match render(&ask(a, q), o, l) {
                        Ok(s) if s == fr[k] => (),
                        Ok(s) => return bad(&trail, f, format!("answers {} to {:?} in the end, an analysis of its own FBAS {}", s, q, fr[k])),
                        Err(e) => return bad(&trail, f, e),
                    }
                    ctx.op();
                }
                ctx.outcome(fr);
            }
            if i % 997 == 5 {
                ctx.sample(|| format!("{} nodes, then {:?}", start, trail));
            }
            Ok(())
        },
        move |i| format!("history {} of {} edits from {} nodes", i, depth, start),
    )
}
// ---------------------------------------------------------------- C09
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in perms(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            r.push(q);
        }
    }
    r
}
pub fn q_json(q: &RQ, key: &dyn Fn(usize) -> String) -> serde_json::Value {
    let mut v = serde_json::json!({"threshold": q.t, "validators": q.v.iter().map(|&x| key(x)).collect::<Vec<_>>()});
    if !q.inner.is_empty() {
        v["innerQuorumSets"] = q.inner.iter().map(|x| q_json(x, key)).collect();
    }
    v
}
pub fn f_json(f: &RF, key: &dyn Fn(usize) -> String) -> String {
    serde_json::Value::Array(
        f.q.iter().enumerate().map(|(i, q)| serde_json::json!({"publicKey": key(i), "quorumSet": q_json(q, key)})).collect(),
    )
    .to_string()
}
#[derive(PartialEq, Eq, Debug, Clone, Hash)]
pub struct Answers {
    pub mq: Vec<Vec<String>>,
    pub mbs: Vec<Vec<String>>,
    pub mss: Vec<Vec<String>>,
    pub qi: bool,
    pub alt: bool,
    pub tt: Vec<String>,
    pub sat: Vec<String>,
    pub sym: Vec<String>,
    pub stt: Option<String>,
}
/// all results, with nodes shown by the names `name` gives to their IDs; order does not matter
pub fn answers(fbas: &Fbas, name: &dyn Fn(usize) -> String, any_quorum: bool) -> Answers {
    let one = |s: &NodeIdSet| {
        let mut v: Vec<String> = s.iter().map(name).collect();
        v.sort();
        v
    };
    let fam = |s: Vec<NodeIdSet>| {
        let mut v: Vec<Vec<String>> = s.iter().map(one).collect();
        v.sort();
        v
    };
    fn qset(q: &QuorumSet, name: &dyn Fn(usize) -> String) -> String {
        let mut v: Vec<String> = q.validators.iter().map(|&x| name(x)).collect();
        v.sort();
        let mut i: Vec<String> = q.inner_quorum_sets.iter().map(|x| qset(x, name)).collect();
        i.sort();
        format!("({} {:?} {:?})", q.threshold, v, i)
    }
    let a = Analysis::new(fbas);
    let b = Analysis::new(fbas);
    let mut sym: Vec<String> = a.symmetric_clusters().iter().map(|q| qset(q, name)).collect();
    sym.sort();
    Answers {
        mbs: if any_quorum { fam(b.minimal_blocking_sets().unwrap()) } else { vec![] },
        mq: fam(a.minimal_quorums().unwrap()),
        mss: fam(a.minimal_splitting_sets().unwrap()),
        qi: a.has_quorum_intersection(),
        alt: b.has_quorum_intersection_via_alternative_check().0,
        tt: one(&b.top_tier().unwrap()),
        sat: one(&a.satisfiable_nodes().unwrap()),
        sym,
        stt: a.symmetric_top_tier().map(|q| qset(&q, name)),
    }
}
const NAMINGS: usize = 3;
fn naming(k: usize, i: usize) -> String {
    match k {
        0 => format!("n{}", i),
        1 => format!("G{}A", (b'Z' - i as u8) as char),
        _ => format!("n{}", (i + 1) % 13), // clashes with generic names of other nodes
    }
}
/// `f` reordered by `perm` (new position of node i is perm[i]), with padding after/before as `pads` says
fn rearranged(f: &RF, perm: &[usize], pads: u32, kind: usize) -> (RF, Vec<usize>) {
    let n = f.n();
    // slot s of the core gets real id: number of padding blocks before it
    let mut at = vec![];
    let mut next = 0;
    for s in 0..=n {
        if pads >> s & 1 == 1 {
            next += if kind == 2 { 33 } else { 1 };
        }
        at.push(next);
        next += 1;
    }
    let total = at[n];
    let ids: Vec<usize> = (0..n).map(|i| at[perm[i]]).collect();
    let mut q = vec![RQ::default(); total];
    for i in 0..n {
        q[ids[i]] = f.q[i].map(&|x| ids[x]);
    }
    if kind >= 1 {
        for x in 0..total {
            if !ids.contains(&x) {
                // never satisfiable, though pointing at the others
                q[x] = match x % 3 {
                    0 => RQ::flat(n as u64 + 2, &ids),
                    1 => RQ::new(2, &[x], vec![RQ::flat(0, &ids)]),
                    _ => RQ::default(),
                };
            }
        }
    }
    (RF { q }, ids)
}
fn c09_family(name: &str, us: Vec<RF>, kinds: usize) -> Family {
    let u = U::list(name, us);
    let g = u.gen.clone();
    let g2 = u.gen.clone();
    Family::new(
        name,
        u.len,
        move |i, ctx| {
            let f = g(i);
            let n = f.n();
            let o = Oracle::new(&f);
            let base = answers(&Fbas::from_json_str(&f_json(&f, &|x| naming(0, x))), &|x| x.to_string(), o.any_quorum);
            ctx.states += 1;
            ctx.outcome(&base);
            let ps = if n <= 4 { perms(n) } else { vec![(0..n).collect(), (0..n).rev().collect(), (0..n).map(|x| (x + 2) % n).collect(), { let mut p: Vec<usize> = (0..n).collect(); p.swap(0, n - 1); p }] };
            for p in &ps {
                let padsets: Vec<u32> = if n <= 3 { (0..1u32 << (n + 1)).collect() } else { vec![0, 1, 1 << n, (1 << (n + 1)) - 1, 0b10] };
                for pads in padsets {
                    for kind in 0..kinds {
                        if pads == 0 && kind > 0 {
                            continue;
                        }
                        let (r, ids) = rearranged(&f, p, pads, kind);
                        for nm in 0..NAMINGS {
                            if nm > 0 && (pads != 0 && pads != 1 || r.n() > 12) {
                                continue;
                            }
                            ctx.states += 1;
                            ctx.traces += 1;
                            ctx.ops(8);
                            let fb = Fbas::from_json_str(&f_json(&r, &|x| naming(nm, x)));
                            let back = |x: usize| ids.iter().position(|&y| y == x).map(|k| k.to_string()).unwrap_or(format!("added node {}", x));
                            let got = answers(&fb, &back, o.any_quorum);
                            if got != base {
                                return fail(
                                    format!("{} | {}", show(&f), show(&r)),
                                    format!("node k of the FBAS became node {:?}[k] of\n  {}\nand names as in {:?}..., but the results are not the corresponding ones:\n original {:?}\n changed  {:?}", ids, show(&r), naming(nm, 0), base, got),
                                );
                            }
                        }
                    }
                }
            }
            if i % 97 == 3 {
                ctx.sample(|| format!("{}: {} orders x paddings x namings", show(&f), ps.len()));
            }
            Ok(())
        },
        move |i| show(&g2(i)),
    )
}
/// the same FBAS with its nodes spread over many more IDs
fn c09_far(us: Vec<RF>) -> Family {
    let u = U::list("spread over many IDs", us);
    let g = u.gen.clone();
    let g2 = u.gen.clone();
    Family::new(
        "spread over many IDs",
        u.len,
        move |i, ctx| {
            let f = g(i);
            let o = Oracle::new(&f);
            let base = answers(&Fbas::from_json_str(&f_json(&f, &|x| naming(0, x))), &|x| x.to_string(), o.any_quorum);
            // the longest spread is built without JSON, so it is compared with an original built the same way
            let built = answers(&to_fbas(&f), &|x| x.to_string(), o.any_quorum);
            ctx.outcome(&base);
            for lay in [Wide, Gap, Far] {
                ctx.states += 1;
                ctx.traces += 1;
                ctx.ops(8);
                let (r, ids) = lay_rf(&f, lay);
                let fb = if lay == Far { to_fbas(&r) } else { Fbas::from_json_str(&f_json(&r, &|x| format!("n{}", x))) };
                let back = |x: usize| ids.iter().position(|&y| y == x).map(|k| k.to_string()).unwrap_or(format!("added node {}", x));
                let got = answers(&fb, &back, o.any_quorum);
                let base = if lay == Far { &built } else { &base };
                if got != *base {
                    return fail(format!("{} {:?}", show(&f), lay), format!("node k became node {:?}[k] of {} nodes, the others without quorum set, but the results are not the corresponding ones:\n original {:?}\n changed  {:?}", ids, r.n(), base, got));
                }
            }
            if i % 17 == 3 {
                ctx.sample(|| format!("{} with 3 spreads of IDs", show(&f)));
            }
            Ok(())
        },
        move |i| show(&g2(i)),
    )
}
// ---------------------------------------------------------------- C10
fn c10_qset(q: &RQ, n: usize, off: &[usize], c: &mut Ctx) -> R {
    let rq = q.map(&|x| off[x]);
    let real = to_qs(&rq);
    let slices: Option<Vec<NodeIdSet>> = Some(real.to_quorum_slices());
    let mut answers = vec![];
    for m in 0..1u32 << n {
        let s: NodeIdSet = bits(m).into_iter().map(|x| off[x]).collect();
        let want = q.sat_mask(m);
        c.ops(1);
        let got = real.is_quorum_slice(&s);
        ensure(got == want, || format!("is_quorum_slice({}, {:?}) = {}", show_q(&rq), s.iter().collect::<Vec<_>>(), got))?;
        // capacity of the bit set must not matter
        let mut wide = s.clone();
        wide.insert(700);
        ensure(real.is_quorum_slice(&wide) == want, || format!("is_quorum_slice({}, {:?} + 700) = {}", show_q(&rq), bits(m), !want))?;
        answers.push(want);
        if let Some(sl) = &slices {
            if want {
                ensure(sl.iter().any(|x| x.is_subset(&s)), || format!("no slice of {} lies within {:?}, which satisfies it; slices: {:?}", show_q(&rq), bits(m), vecs(sl)))?;
            }
        }
    }
    if let Some(sl) = &slices {
        for s in sl {
            let sat = rq.sat(&|x| s.contains(x));
            ensure(sat, || format!("to_quorum_slices({}) contains {:?}, which does not satisfy it", show_q(&rq), s.iter().collect::<Vec<_>>()))?;
        }
        c.ops(1);
    }
    c.outcome(&answers);
    let cn: Vec<usize> = real.contained_nodes().iter().collect();
    ensure(cn == rq.contained(), || format!("contained_nodes({}) = {:?}", show_q(&rq), cn))?;
    let dup = rq.all_v().len() != rq.contained().len();
    ensure(real.contains_duplicates() == dup, || format!("contains_duplicates({}) = {}", show_q(&rq), !dup))
}
fn qset_family(name: &str, qs: Vec<(usize, RQ)>) -> Family {
    let qs = std::sync::Arc::new(qs);
    let q2 = qs.clone();
    Family::new(
        name,
        qs.len() as u64,
        move |i, ctx| {
            let (n, q) = &qs[i as usize];
            ctx.states += 1 << n;
            ctx.traces += 1;
            for off in [(0..*n).collect::<Vec<_>>(), (0..*n).map(|x| 30 + 17 * x).collect()] {
                if let Err(e) = c10_qset(q, *n, &off, ctx) {
                    return fail(show_q(q), e);
                }
            }
            if i % 501 == 3 {
                ctx.sample(|| format!("{} on all {} node sets", show_q(q), 1 << n));
            }
            Ok(())
        },
        move |i| show_q(&q2[i as usize].1),
    )
}
fn c10_fbas(f: &RF, o: &Oracle, l: &Laid, c: &mut Ctx) -> R {
    for m in 0..=o.full {
        let s = l.set(m);
        let got = l.fbas.is_quorum(&s);
        let want = if f.n() == 0 { false } else { o.is_q[m as usize] };
        c.ops(1);
        ensure(got == want, || format!("is_quorum({:?}) = {}", s.iter().collect::<Vec<_>>(), got))?;
        if m == o.full {
            break;
        }
    }
    c.outcome(&o.is_q);
    Ok(())
}
// ---------------------------------------------------------------- C11
fn c11(f: &RF, _: &Oracle, l: &Laid, c: &mut Ctx) -> R {
    let n = l.total;
    let _ = f;
    if n > 31 {
        return Ok(());
    }
    let real = &l.real;
    let full = ((1u64 << n) - 1) as u32;
    let as_mask = |s: &NodeIdSet| to_mask(&s.iter().collect::<Vec<_>>());
    let as_set = |m: u32| -> NodeIdSet { bits(m).into_iter().collect() };
    let sat = real.max_quorum(full);
    let got = as_mask(&l.fbas.satisfiable_nodes());
    ensure(got == sat, || format!("satisfiable_nodes = {:?}, exact {:?}", bits(got), bits(sat)))?;
    let got = as_mask(&l.fbas.unsatisfiable_nodes());
    ensure(got == full & !sat, || format!("unsatisfiable_nodes = {:?}, exact {:?}", bits(got), bits(full & !sat)))?;
    let a = Analysis::new(&l.fbas);
    ensure(as_mask(&a.satisfiable_nodes().unwrap()) == sat, || "Analysis::satisfiable_nodes differs".into())?;
    ensure(as_mask(&a.unsatisfiable_nodes().unwrap()) == full & !sat, || "Analysis::unsatisfiable_nodes differs".into())?;
    ensure(as_mask(&a.all_nodes().unwrap()) == full, || "Analysis::all_nodes differs".into())?;
    let scc = |what: &str, got: Vec<NodeIdSet>, m: u32| {
        let mut g: Vec<u32> = got.iter().map(as_mask).filter(|&x| x != 0).collect();
        g.sort_unstable();
        let mut w = sccs_within(real, m);
        w.sort_unstable();
        ensure(g == w, || format!("{} of {:?} = {}, exact {}", what, bits(m), show_sets(&g), show_sets(&w)))
    };
    scc("strongly_connected_components", l.fbas.strongly_connected_components(), full)?;
    let rel = sccs_within(real, sat).into_iter().filter(|&x| real.max_quorum(x) != 0).fold(0, |a, b| a | b);
    let got = as_mask(&l.fbas.relevant_nodes());
    ensure(got == rel, || format!("relevant_nodes = {:?}, exact {:?}", bits(got), bits(rel)))?;
    c.ops(7);
    let subsets: Vec<u32> = if n <= 5 { (0..=full).collect() } else { vec![full, sat, rel, full & !1, full & 0x55555555, full >> 1, full & 0x33333333, sat & !(sat & sat.wrapping_neg())] };
    for m in subsets {
        let (s, u) = preprocessing::find_satisfiable_nodes(&as_set(m), &l.fbas);
        let want = real.max_quorum(m);
        let (s, u) = (as_mask(&s), as_mask(&u));
        ensure(s == want && u == m & !want, || format!("find_satisfiable_nodes({:?}) = ({:?}, {:?}), exact ({:?}, {:?})", bits(m), bits(s), bits(u), bits(want), bits(m & !want)))?;
        scc("partition_into_strongly_connected_components", preprocessing::partition_into_strongly_connected_components(&as_set(m), &l.fbas), m)?;
        c.ops(2);
    }
    c.outcome(&(sat, rel, sccs_within(real, full)));
    Ok(())
}
// ---------------------------------------------------------------- C12
fn key_orders(n: usize) -> Vec<Vec<String>> {
    let az: Vec<String> = (0..n).map(|i| format!("{}K", (b'A' + i as u8) as char)).collect();
    let mut za = az.clone();
    za.reverse();
    let odd: Vec<String> = (0..n).map(|i| ["n10", "n2", "n1", "Z", "é", "", "n0", "a\"b", "n3", "AA", "A", "n4", "n5"][i % 13].to_string()).collect();
    vec![az, za, odd]
}
fn c12_family(name: &str, us: Vec<RF>) -> Family {
    let u = U::list(name, us);
    let g = u.gen.clone();
    let g2 = u.gen.clone();
    Family::new(
        name,
        u.len,
        move |i, ctx| {
            let f = g(i);
            ctx.states += 1;
            match c12(&f, ctx) {
                Err(e) => fail(show(&f), e),
                Ok(()) => Ok(()),
            }
        },
        move |i| show(&g2(i)),
    )
}
fn c12(f: &RF, c: &mut Ctx) -> R {
    let n = f.n();
    let o = Oracle::new(f);
    let full = o.full;
    let sat = f.max_quorum(full);
    let rel = sccs_within(f, sat).into_iter().filter(|&x| f.max_quorum(x) != 0).fold(0, |a, b| a | b);
    for keys in key_orders(n) {
        let mut first: Option<(String, Fbas)> = None;
        let ps = if n <= 4 { perms(n) } else { vec![(0..n).collect(), (0..n).rev().collect(), (0..n).map(|x| (x + 2) % n).collect()] };
        for p in &ps {
            // irrelevant nodes may be in the file or not, and more may be added
            for variant in 0..4 {
                c.states += 1;
                c.traces += 1;
                c.ops(3);
                let mut entries: Vec<serde_json::Value> = vec![];
                let mut order: Vec<usize> = vec![0; n];
                for i in 0..n {
                    order[p[i]] = i;
                }
                let key = |x: usize| keys[x].clone();
                for (pos, &i) in order.iter().enumerate() {
                    if variant == 1 && rel >> i & 1 == 0 {
                        continue;
                    }
                    if variant == 2 && pos == n / 2 {
                        entries.push(serde_json::json!({"publicKey": "0-added"}));
                    }
                    entries.push(serde_json::json!({"publicKey": keys[i], "quorumSet": q_json(&f.q[i], &key)}));
                }
                if variant >= 2 {
                    // depends on the others, or is never satisfiable
                    let q = if variant == 2 { RQ::flat(1, &(0..n).collect::<Vec<_>>()) } else { RQ::flat(n as u64 + 1, &(0..n).collect::<Vec<_>>()) };
                    entries.push(serde_json::json!({"publicKey": "zz-added", "quorumSet": q_json(&q, &key)}));
                }
                let text = serde_json::Value::Array(entries).to_string();
                let fb = Fbas::from_json_str(&text);
                let sf = fb.to_standard_form();
                let js = sf.to_json_string();
                if let Some((js0, sf0)) = &first {
                    ensure(*js0 == js && *sf0 == sf, || format!("standard forms differ (keys {:?}, variant {}):\n  {}\n  {}\nfor the input {}", keys, variant, js0, js, text))?;
                } else {
                    // contents
                    let v: serde_json::Value = serde_json::from_str(&js).map_err(|e| e.to_string())?;
                    let got: Vec<String> = v.as_array().unwrap().iter().map(|x| x["publicKey"].as_str().unwrap().to_string()).collect();
                    let mut want: Vec<String> = bits(rel).into_iter().map(|i| keys[i].clone()).collect();
                    want.sort();
                    ensure(got == want, || format!("standard form contains {:?}, the relevant nodes sorted by key are {:?}", got, want))?;
                    for (i, k) in want.iter().enumerate() {
                        ensure(sf.get_node_id(k) == Some(i), || format!("get_node_id({:?}) = {:?} in the standard form, should be {}", k, sf.get_node_id(k), i))?;
                    }
                    for k in keys.iter().filter(|k| !want.contains(k)) {
                        ensure(sf.get_node_id(k).is_none(), || format!("get_node_id({:?}) = {:?} in the standard form, which has no such node", k, sf.get_node_id(k)))?;
                    }
                    ensure(sf.to_standard_form() == sf, || "the standard form of the standard form differs".into())?;
                    // the same results
                    let idx = |k: &str| keys.iter().position(|x| x == k).unwrap();
                    let fam = |s: Vec<NodeIdSet>| {
                        let mut v: Vec<u32> = s.iter().map(|x| to_mask(&x.iter().map(|y| idx(&want[y])).collect::<Vec<_>>())).collect();
                        v.sort_unstable();
                        v
                    };
                    let sorted = |v: &Vec<u32>| {
                        let mut v = v.clone();
                        v.sort_unstable();
                        v
                    };
                    let a = Analysis::new(&sf);
                    ensure(fam(a.minimal_quorums().unwrap()) == sorted(&o.mq), || "minimal quorums of the standard form differ".into())?;
                    if o.any_quorum {
                        ensure(fam(a.minimal_blocking_sets().unwrap()) == sorted(&o.mbs), || "minimal blocking sets of the standard form differ".into())?;
                    }
                    let ms = if o.qi { o.mss.clone() } else { vec![0] };
                    ensure(fam(a.minimal_splitting_sets().unwrap()) == sorted(&ms), || "minimal splitting sets of the standard form differ".into())?;
                    ensure(a.has_quorum_intersection() == o.qi, || "quorum intersection of the standard form differs".into())?;
                    c.ops(5);
                    c.outcome(&js);
                    first = Some((js, sf));
                }
            }
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- C20
pub fn c20_ref(f: &RF, nodes: &[usize]) -> Vec<f64> {
    let n = f.n();
    let mut s = vec![1. / nodes.len() as f64; n];
    let knows: Vec<Vec<usize>> = f.q.iter().map(|q| q.contained()).collect();
    let mut within = vec![false; n];
    for &i in nodes {
        within[i] = true;
    }
    for _ in 0..100 {
        let mut t = vec![0.; n];
        for &i in nodes {
            let c = &knows[i];
            for &j in c {
                if j < n && within[j] {
                    t[j] += s[i] / c.len() as f64;
                }
            }
        }
        s = t;
    }
    s
}
fn c20(f: &RF, _: &Oracle, l: &Laid, c: &mut Ctx) -> R {
    let n = l.total;
    let _ = f;
    if n == 0 || n > 40 {
        return Ok(());
    }
    let real = &l.real;
    let subsets: Vec<Vec<usize>> = if n <= 3 {
        (1..1u32 << n).map(bits).collect()
    } else {
        vec![(0..n).collect(), (0..n).step_by(2).collect(), (n / 2..n).collect(), (0..n - 1).collect()]
    };
    let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1. + b.abs());
    for s in subsets {
        let want = c20_ref(real, &s);
        let orders: Vec<Vec<usize>> = if s.len() <= 3 {
            perms(s.len()).into_iter().map(|p| p.iter().map(|&k| s[k]).collect()).collect()
        } else {
            vec![s.clone(), s.iter().rev().copied().collect(), s[1..].iter().chain(&s[..1]).copied().collect()]
        };
        for ord in orders {
            let got = preprocessing::rank_nodes(&ord, &l.fbas);
            c.ops(2);
            ensure(got.len() == n && got.iter().zip(&want).all(|(&a, &b)| close(a, b)), || format!("rank_nodes({:?}) = {:?}, documented iteration gives {:?}", ord, got, want))?;
            let sorted = preprocessing::sort_by_rank(ord.clone(), &l.fbas);
            let (mut x, mut y) = (sorted.clone(), ord.clone());
            x.sort_unstable();
            y.sort_unstable();
            ensure(x == y, || format!("sort_by_rank({:?}) = {:?} are not the same nodes", ord, sorted))?;
            ensure(sorted.windows(2).all(|w| want[w[0]] + 1e-9 >= want[w[1]]), || format!("sort_by_rank({:?}) = {:?} does not have non-increasing scores {:?}", ord, sorted, want))?;
        }
        if s.len() == n {
            let got = l.fbas.rank_nodes();
            ensure(got.len() == n && got.iter().zip(&want).all(|(&a, &b)| close(a, b)), || format!("Fbas::rank_nodes = {:?}, documented iteration gives {:?}", got, want))?;
            c.outcome(&want.iter().map(|x| (x * 1e6) as u64).collect::<Vec<_>>());
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- C34
pub fn extreme_thresholds() -> Vec<u64> {
    vec![0, 1, 2, 3, 4, 1 << 20, u32::MAX as u64, 1 << 53, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX]
}
fn c34_qsets() -> Vec<RQ> {
    let mut r = vec![];
    let n = RQ::new;
    for t in extreme_thresholds() {
        r.push(RQ::flat(t, &[]));
        r.push(RQ::flat(t, &[0, 1]));
        r.push(RQ::flat(t, &[0, 0, 1, 9]));
        r.push(n(1, &[0], vec![RQ::flat(t, &[1, 2])]));
        r.push(n(2, &[0, 1], vec![RQ::flat(t, &[1, 2])]));
        r.push(n(2, &[0, 1, 2], vec![RQ::flat(t, &[])]));
        r.push(n(t, &[0], vec![RQ::flat(2, &[0, 1]), n(t, &[2], vec![RQ::flat(t, &[1])])]));
        r.push(n(1, &[], vec![n(1, &[], vec![n(1, &[], vec![RQ::flat(t, &[0, 1, 2])])])]));
    }
    r.push(RQ::flat(2, &[0, 1, 2]));
    r
}
fn c34_run(text: &str, c: &mut Ctx) {
    let fbas = Fbas::from_json_str(text);
    let n = fbas.number_of_nodes();
    let _ = (fbas.to_json_string(), fbas.to_json_string_pretty(), format!("{} {:?}", fbas, fbas));
    let groupings = [
        Groupings::organizations_from_json_str(r#"[{"name":"o","validators":["n1","n0","x"]},{"name":"","validators":[]}]"#, &fbas),
        Groupings::isps_from_json_str(text, &fbas),
        Groupings::countries_from_json_str(text, &fbas),
    ];
    let a = Analysis::new(&fbas);
    let b = Analysis::new(&fbas);
    let _ = (find_symmetric_clusters(&fbas), find_symmetric_top_tier(&fbas), find_nonintersecting_quorums(&fbas));
    let mq = find_minimal_quorums(&fbas);
    let _ = (find_minimal_blocking_sets(&fbas), find_minimal_splitting_sets(&fbas, &mq));
    let _ = (a.has_quorum_intersection_via_alternative_check(), a.has_quorum_intersection());
    let sf = fbas.to_standard_form();
    let _ = sf.to_json_string();
    let _ = fbas.rank_nodes();
    let _ = (fbas.strongly_connected_components(), fbas.satisfiable_nodes(), fbas.unsatisfiable_nodes(), fbas.relevant_nodes());
    let vs = [b.minimal_blocking_sets(), a.minimal_quorums(), a.minimal_splitting_sets(), b.minimal_quorums(), b.minimal_splitting_sets()];
    let ss = [a.top_tier(), b.top_tier(), a.all_nodes(), a.satisfiable_nodes(), a.unsatisfiable_nodes()];
    for v in &vs {
        let w = v.without_nodes(&[0, 1, 77]);
        let _ = (v.describe(), w.describe(), v.minimal_sets().describe(), v.involved_nodes(), v.clone().into_id_string(), v.clone().into_describe_string(), v.clone().into_pretty_string(&fbas, None));
        for g in &groupings {
            let m = v.merged_by_group(g);
            let _ = (m.describe(), m.minimal_sets().describe(), v.clone().into_pretty_string(&fbas, Some(g)), v.without_nodes_pretty(&["o", "n1", "?"], &fbas, Some(g)).len());
        }
    }
    for s in &ss {
        let _ = (s.len(), s.involved_nodes(), s.clone().into_id_string(), s.clone().into_describe_string(), s.clone().into_pretty_string(&fbas, None), s.without_nodes(&[3, 0]));
        for g in &groupings {
            let _ = (s.merged_by_group(g).len(), s.clone().into_pretty_string(&fbas, Some(g)));
        }
    }
    let sc = a.symmetric_clusters();
    let _ = (sc.clone().into_id_string(), sc.clone().into_pretty_string(&fbas, None), sc.clone().into_describe_string());
    for g in &groupings {
        let _ = (g.merge_quorum_sets(sc.clone()), sc.clone().into_pretty_string(&fbas, Some(g)), serde_json::to_string(g).unwrap());
        for i in 0..n {
            let _ = g.merge_quorum_set(fbas.get_quorum_set(i).unwrap());
        }
    }
    c.ops(60);
    c.outcome(&format!("{:?} {:?}", vs.iter().map(|v| v.describe()).map(|d| (d.0, d.1)).collect::<Vec<_>>(), sc.len()));
}
fn c34_family(name: &str, alph: Vec<Vec<RQ>>) -> Family {
    let u = U::product(name, alph);
    let g = u.gen.clone();
    let mk = std::sync::Arc::new(move |i: u64| {
        let f = g(i);
        let mut v: serde_json::Value = serde_json::from_str(&f_json(&f, &|x| format!("n{}", x))).unwrap();
        // sprinkle optional data
        for (k, e) in v.as_array_mut().unwrap().iter_mut().enumerate() {
            match (i as usize + k) % 4 {
                0 => e["isp"] = serde_json::json!(["A,", "", ",", "B Ltd."][(i as usize / 4 + k) % 4]),
                1 => {
                    let name = ["", "Ö", "Peru.", "é."][(i as usize / 4) % 4];
                    e["geoData"] = serde_json::json!({ "countryName": name })
                }
                2 => {
                    e["geoData"] = serde_json::json!({});
                    e["isp"] = serde_json::Value::Null;
                }
                _ => e["active"] = serde_json::json!(true),
            }
        }
        v.to_string()
    });
    let mk2 = mk.clone();
    Family::new(
        name,
        u.len,
        move |i, ctx| {
            ctx.states += 1;
            ctx.traces += 1;
            let text = mk(i);
            c34_run(&text, ctx);
            if i % 501 == 1 {
                ctx.sample(|| text.clone());
            }
            Ok(())
        },
        move |i| mk2(i),
    )
}
fn c34_misc() -> Family {
    let mut texts: Vec<String> = vec!["[]".into(), r#"[{"publicKey":"n0"}]"#.into(), r#"[{"publicKey":"a"},{"publicKey":"b","quorumSet":{"threshold":1,"validators":["zz"]}}]"#.into()];
    // deep nesting
    for d in [1usize, 10, 40] {
        let mut q = RQ::flat(1, &[0]);
        for k in 0..d {
            q = RQ::new(1 + (k as u64 % 2), &[k % 3], vec![q]);
        }
        texts.push(f_json(&RF { q: vec![q.clone(), q.clone(), q] }, &|x| format!("n{}", x)));
    }
    // many nodes, simple structure
    for n in [64usize, 65, 130, 300] {
        let ring: Vec<RQ> = (0..n).map(|i| RQ::flat(2, &[i, (i + 1) % n])).collect();
        texts.push(f_json(&RF { q: ring }, &|x| format!("n{}", x)));
        let star: Vec<RQ> = (0..n).map(|i| RQ::flat(if i % 3 == 0 { 0 } else { 1 }, &[0, i])).collect();
        texts.push(f_json(&RF { q: star }, &|x| format!("n{}", x)));
        let all: Vec<usize> = (0..n).collect();
        texts.push(f_json(&RF { q: vec![RQ::flat(n as u64, &all); n] }, &|x| format!("n{}", x)));
        texts.push(f_json(&RF { q: vec![RQ::default(); n] }, &|x| format!("n{}", x)));
        texts.push(f_json(&RF { q: vec![RQ::flat(u64::MAX, &all); n] }, &|x| format!("n{}", x)));
    }
    // very long lists of names
    for t in [1u64, 2, 70_000, 150_000, 150_001] {
        let list: Vec<String> = (0..150_000).map(|i| if i % 5 == 0 || t % 2 == 1 { format!("n{}", i % 3) } else { format!("x{}", i % 80_000) }).collect();
        let flat = serde_json::json!({"threshold": t, "validators": list});
        let nested = serde_json::json!({"threshold": 1, "validators": ["n1"], "innerQuorumSets": [flat]});
        texts.push(serde_json::json!([{"publicKey": "n0", "quorumSet": flat}, {"publicKey": "n1", "quorumSet": nested}, {"publicKey": "n2", "quorumSet": {"threshold": 2, "validators": ["n0", "n1", "n2"]}}]).to_string());
    }
    let texts = std::sync::Arc::new(texts);
    let t2 = texts.clone();
    Family::new(
        "sizes and depths",
        texts.len() as u64,
        move |i, ctx| {
            ctx.states += 1;
            ctx.traces += 1;
            c34_run(&texts[i as usize], ctx);
            Ok(())
        },
        move |i| t2[i as usize].chars().take(600).collect(),
    )
}

// ---------------------------------------------------------------- C35
/// what faulty nodes mean, from the definitions, against removing them from results
fn c35(f: &RF, o: &Oracle, l: &Laid, c: &mut Ctx) -> R {
    let n = o.n;
    let size = 1usize << n;
    let full = o.full as usize;
    // contains the intersection of two different minimal quorums
    let mut splits = vec![false; size];
    for (i, a) in o.mq.iter().enumerate() {
        for b in &o.mq[i + 1..] {
            splits[(a & b) as usize] = true;
        }
    }
    for m in 0..size {
        if (0..n).any(|i| m >> i & 1 == 1 && splits[m & !(1 << i)]) {
            splits[m] = true;
        }
    }
    // minimal s outside of `out` with the (monotone) predicate p(s | out)
    let least = |out: usize, p: &dyn Fn(usize) -> bool| -> Vec<u32> {
        (0..size).filter(|&s| s & out == 0 && p(s | out) && (0..n).all(|i| s >> i & 1 == 0 || !p((s | out) & !(1 << i)))).map(|s| s as u32).collect()
    };
    let a = Analysis::new(&l.fbas);
    let (mq, mbs, mss, tt) = (a.minimal_quorums(), a.minimal_blocking_sets(), a.minimal_splitting_sets(), a.top_tier());
    let others: Vec<usize> = (0..l.total).filter(|x| !l.ids.contains(x)).collect();
    let faults: Vec<usize> = if n <= 6 { (0..size).collect() } else { (0..size).filter(|m| m.count_ones() <= 2 || m.count_ones() as usize + 1 >= n).collect() };
    for out in faults {
        let mut ids: Vec<usize> = bits(out as u32).into_iter().rev().map(|k| l.ids[k]).collect();
        if out % 3 == 1 {
            // nodes that don't matter may fail, too
            ids.extend(others.iter().copied().take(5));
        }
        let keys: Vec<String> = ids.iter().map(|x| format!("n{}", x)).collect();
        let mut keys: Vec<&str> = keys.iter().map(|s| s.as_str()).collect();
        // names that nobody has, and names given repeatedly
        match out % 4 {
            1 => keys.insert(keys.len() / 2, "nobody"),
            2 => {
                keys.insert(0, "");
                keys.push(keys[1]);
            }
            _ => (),
        }
        let chk = |what: &str, r: &NodeIdSetVecResult, want: &[u32]| -> R {
            let e = |e: String| format!("faulty {:?} (model nodes {:?}): {}", ids, bits(out as u32), e);
            same_family(l, &format!("{}.without_nodes.minimal_sets", what), &r.without_nodes(&ids).minimal_sets().unwrap(), want).map_err(e)?;
            same_family(l, &format!("{}.without_nodes_pretty.minimal_sets", what), &r.without_nodes_pretty(&keys, &l.fbas, None).minimal_sets().unwrap(), want).map_err(e)?;
            if let Some((x, rest)) = ids.split_first() {
                same_family(l, &format!("{}.without_nodes, one after the others", what), &r.without_nodes(rest).without_nodes(&[*x]).minimal_sets().unwrap(), want).map_err(e)?;
            }
            Ok(())
        };
        let want_q = least(out, &|m| o.has_q[m]);
        chk("minimal_quorums", &mq, &want_q)?;
        if o.any_quorum {
            let want_b = least(out, &|m| !o.has_q[full & !m]);
            chk("minimal_blocking_sets", &mbs, &want_b)?;
            // the same as analysing the FBAS in which these nodes have crashed
            if o.has_q[full & !out] {
                let mut g = l.fbas.clone();
                for &x in &ids {
                    g.swap_quorum_set(x, QuorumSet { threshold: 1, validators: vec![], inner_quorum_sets: vec![] });
                }
                same_family(l, &format!("find_minimal_blocking_sets with {:?} crashed", ids), &find_minimal_blocking_sets(&g), &want_b)?;
                c.ops(1);
            }
            c.outcome(&("b", &want_b));
        }
        let want_s = if o.qi { least(out, &|m| splits[m]) } else { vec![0] };
        chk("minimal_splitting_sets", &mss, &want_s)?;
        let t = tt.without_nodes(&ids).unwrap();
        let m = l.mask(&t)?;
        ensure(m == o.top_tier & !(out as u32), || format!("top_tier without {:?} = {:?}", ids, t.iter().collect::<Vec<_>>()))?;
        let t = tt.without_nodes_pretty(&keys, &l.fbas, None).unwrap();
        ensure(l.mask(&t)? == m, || format!("top_tier without {:?} = {:?}", keys, t.iter().collect::<Vec<_>>()))?;
        if out % 7 == 3 {
            // by the name of a group, with others given by their keys
            let (grouped, rest) = ids.split_at(ids.len() / 2 + 1);
            let name = |x: &usize| format!("n{}", x);
            let doc = serde_json::json!([{"name": "some", "validators": grouped.iter().map(name).collect::<Vec<_>>()}, {"name": "none", "validators": []}]);
            let g = Groupings::organizations_from_json_str(&doc.to_string(), &l.fbas);
            let mut v: Vec<String> = vec!["none".into(), "some".into()];
            v.extend(rest.iter().map(name));
            let near: Vec<String> = crate::p_io::near_names("some").into_iter().chain((0..l.total).flat_map(|x| crate::p_io::near_names(&name(&x)).into_iter().filter(|y| !(0..l.total).any(|z| *y == name(&z))))).collect();
            let near: Vec<&str> = near.iter().map(|s| s.as_str()).collect();
            for gr in [Some(&g), None] {
                ensure(mq.without_nodes_pretty(&near, &l.fbas, gr).into_vec_vec() == mq.clone().into_vec_vec(), || format!("without_nodes_pretty removes nodes that {:?} does not name", near))?;
                ensure(tt.without_nodes_pretty(&near, &l.fbas, gr).unwrap() == tt.clone().unwrap(), || format!("top_tier.without_nodes_pretty removes nodes that {:?} does not name", near))?;
            }
            ensure(mq.without_nodes_pretty(&["some", "none"], &l.fbas, None).into_vec_vec() == mq.clone().into_vec_vec(), || format!("without_nodes_pretty removes nodes by the name of a group that it does not know"))?;
            let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            let e = |e: String| format!("faulty {:?}: {}", v, e);
            same_family(l, "minimal_quorums.without_nodes_pretty.minimal_sets", &mq.without_nodes_pretty(&v, &l.fbas, Some(&g)).minimal_sets().unwrap(), &want_q).map_err(e)?;
            ensure(l.mask(&tt.without_nodes_pretty(&v, &l.fbas, Some(&g)).unwrap())? == m, || format!("top_tier without {:?}", v))?;
        }
        c.states += 1;
        c.ops(10);
        c.outcome(&(&want_q, &want_s));
    }
    let _ = f;
    Ok(())
}
// ----------------------------------------------------------------
pub fn property(id: &str, t: Tier) -> Option<Property> {
    let q = t == Tier::Quick;
    let mk = |id: &'static str, rule: &'static str, families: Vec<Family>| {
        Some(Property { id, level: "model_checking", rule, assumptions: vec!["bounded: only the listed universes of FBASs and layouts are explored, each of them completely"], families, hang_s: 60 })
    };
    let exact = |c: Check| {
        let mut f = families(analysis_universe(t), c);
        f.extend(big_families(t, c));
        f.push(crate::p_shapes::families(id[1..].parse().unwrap(), q));
        f
    };
    match id {
        "C01" => mk("C01", "Every FBAS of each listed universe, in each listed layout: reported minimal quorums compared with brute force over all node subsets.", exact(c01)),
        "C02" => mk("C02", "Every FBAS of each listed universe, in each listed layout: reported minimal blocking sets compared with brute force over all node subsets.", exact(c02)),
        "C03" => mk("C03", "Every FBAS of each listed universe, in each listed layout: reported minimal splitting sets compared with the minimal pairwise intersections of brute-force minimal quorums.", exact(c03)),
        "C04" => mk("C04", "Every FBAS of each listed universe, in each listed layout: both verdicts, in several query orders, compared with brute force.", exact(c04)),
        "C05" => mk("C05", "Every FBAS of each listed universe, in each listed layout: witnesses checked against the definition, existence against brute force.", exact(c05)),
        "C06" => mk("C06", "Every FBAS of each listed universe, in each listed layout: top tier after several query histories compared with brute force.", exact(c06)),
        "C07" => mk("C07", "Every FBAS of each listed universe, in each listed layout: symmetric clusters and symmetric top tier compared with the definition.", exact(c07)),
        "C08" => {
            const ST: &[Q] = &[Q::Mq, Q::Mbs, Q::Mss, Q::Hqi, Q::Alt, Q::Tt];
            let fams = vec![
                c08_family("all histories over all queries", varied(if q { 70 } else { 200 }), &[Pad], &QS, 3),
                c08_family("longer histories over the stateful queries", varied(if q { 50 } else { 150 }), &[Ident, Pad, Wide], ST, if q { 4 } else { 5 }),
                c08_edited(4, 0),
                c08_edited(if q { 3 } else { 4 }, 2),
                c08_edited(if q { 3 } else { 4 }, 4),
                c08_edited(if q { 3 } else { 4 }, 1),
            ];
            mk("C08", "Every sequence of queries up to the depth on each FBAS: each answer compared with a fresh analysis, and all earlier results re-read at the end.", fams)
        }
        "C09" => {
            let k = if q { 150 } else { 900 };
            let u: Vec<RF> = varied(k).into_iter().filter(|f| f.n() <= 6).collect();
            let mut few = tree_universe(4, 2);
            few = few.into_iter().step_by(if q { 60 } else { 9 }).collect();
            few.extend(varied(if q { 12 } else { 100 }));
            let mut far = varied(if q { 12 } else { 60 });
            far.extend(deepened(few.clone()).into_iter().step_by(if q { 9 } else { 3 }));
            let mut u = u;
            u.extend(deepened(few.clone()).into_iter().chain(repeated(few)).chain(chains(&[5, 6])).filter(|f| f.n() <= 6));
            mk("C09", "For each FBAS: every order of its nodes (up to 4 nodes, selected orders beyond) x paddings x namings; all results compared with those of the original.", vec![c09_family("reordered, renamed, padded", u, 3), c09_far(far), crate::p_shapes::c09(q)])
        }
        "C10" => {
            let mut qs: Vec<(usize, RQ)> = vec![];
            qs.extend(flat_all(if q { 5 } else { 7 }).into_iter().map(|x| (if q { 5 } else { 7 }, x)));
            qs.extend(rich1().into_iter().map(|x| (1, x)));
            qs.extend(rich2(3, 2, &inner2()).into_iter().map(|x| (2, x)));
            qs.extend(nested3().into_iter().map(|x| (3, x)));
            qs.extend(quads().into_iter().map(|x| (4, x)));
            qs.extend(trees(if q { 7 } else { 9 }, if q { 2 } else { 3 }, true));
            for (n, x) in trees(6, 2, true) {
                qs.extend(duplicated(n, &x));
            }
            for x in c34_qsets() {
                qs.push((10, x));
            }
            let mut f = vec![qset_family("quorum sets x node sets", qs)];
            f.extend(families(
                vec![
                    (U::product("n3-all", vec![[flat_all(3), nested3()].concat(); 3]), &[Ident]),
                    (U::list("varied", varied(if q { 400 } else { 4000 })), &[Ident, Pad, Wide]),
                    (U::list("trees", tree_universe(if q { 6 } else { 8 }, 2)), &[Rev]),
                ],
                c10_fbas,
            ));
            f.extend(crate::p_large::c10(q));
            mk("C10", "Every listed quorum set on every node set: satisfaction and slices against the recursive rule; every FBAS on every node set: is_quorum against the definition.", f)
        }
        "C11" => {
            let mut us: Vec<(U, &'static [Layout])> = vec![
                (U::product("n3-flat+nested", vec![[flat_all(3), nested3()].concat(); 3]), &[Ident]),
                (U::list("varied", varied(if q { 600 } else { 4000 })), &[Ident, Rev, Pad]),
                (U::list("pairs", pair_universe(1)), &[Ident, Pad]),
                (U::list("symmetric-trees", tree_universe(if q { 6 } else { 8 }, 2)), &[Pad]),
            ];
            if q {
                us.push((U::product("n4-quads", vec![quads(); 4]), &[Ident]));
            } else {
                us.push((U::product("n4-flat", vec![flat_proper(4); 4]), &[Ident]));
                us.push((U::product("n5-mixed", (0..5).map(|s| mixed(5, s, 12)).collect()), &[Ident]));
                us.push((U::product("n4-quads", vec![quads(); 4]), &[Ident, Pad]));
            }
            us.extend(odd_shapes(q).into_iter().filter(|(u, _)| u.name != "far-apart IDs"));
            us.push((U::list("longer chains", chains(if q { &[10, 13] } else { &[12, 13, 14, 15, 16] })), &[Ident, Rev]));
            mk("C11", "Every FBAS of each listed universe and (up to 5 nodes) every node subset: satisfiable nodes, components and relevant nodes against their definitions; real networks with single changes and systems of up to hundreds of nodes likewise.", families(us, c11).into_iter().chain(crate::p_large::c11(q)).collect())
        }
        "C12" => {
            let u: Vec<RF> = varied(if q { 1200 } else { 8000 });
            let mut u2: Vec<RF> = vec![];
            let p = U::product("", vec![[flat_all(3), nested3()].concat(); 3]);
            let step = if q { 11 } else { 1 };
            for i in 0..p.len / step {
                u2.push((p.gen)(i * step));
            }
            let p = U::product("", vec![quads(); 4]);
            let step = if q { 41 } else { 3 };
            let u4: Vec<RF> = (0..p.len / step).map(|i| (p.gen)(i * step + i % step)).collect();
            let mut u5 = pair_universe(if q { 7 } else { 1 });
            u5.extend(chains(if q { &[5, 7] } else { &[5, 6, 7, 8, 9] }));
            u5.extend(bigger(if q { 10 } else { 12 }));
            mk("C12", "For each FBAS: every order of its nodes (up to 4 nodes) x with or without irrelevant nodes x key sets; standard forms compared with each other and with brute force; the standard forms of real networks and systems of up to hundreds of nodes in several orders and key sets.", vec![c12_family("varied", u), c12_family("n3", u2), c12_family("n4", u4), c12_family("pairs, chains, bigger ones", u5)].into_iter().chain(crate::p_large::c12(q)).collect())
        }
        "C20" => {
            let mut us: Vec<(U, &'static [Layout])> = vec![
                (U::list("varied", varied(if q { 500 } else { 4000 })), &[Ident, Rev, Pad]),
                (U::list("classes", class_universe(&[&[3, 2], &[2, 2, 2], &[4, 3]], if q { 5 } else { 1 })), &[Ident]),
                (U::product("n5-mixed", (0..5).map(|s| mixed(5, s, if q { 5 } else { 10 })).collect()), &[Ident]),
            ];
            us.push((U::product("n3-all", vec![[flat_all(3), nested3()].concat(); 3]).thin(if q { 9 } else { 1 }), &[Ident]));
            mk("C20", "Every FBAS of each listed universe, every node subset and order (up to 3 nodes, selected ones beyond): scores compared with the documented iteration; real networks and systems of up to hundreds of nodes likewise.", families(us, c20).into_iter().chain(crate::p_large::c20(q)).collect())
        }
        "C35" => {
            let a3 = [flat_all(3), nested3()].concat();
            let mut us: Vec<(U, &'static [Layout])> = vec![
                (U::list("varied", varied(if q { 400 } else { 4000 }).into_iter().filter(|f| f.n() <= 7).collect()), &[Ident, Pad, Wide]),
                (U::product("n3-flat+nested", vec![a3; 3]).thin(if q { 8 } else { 1 }), &[Ident]),
                (U::product("n4-quads", vec![quads(); 4]).thin(if q { 12 } else { 1 }), &[Rev]),
                (U::product("n5-mixed", (0..5).map(|s| mixed(5, s, 8)).collect()).thin(if q { 8 } else { 1 }), &[Pad]),
                (U::list("pairs", pair_universe(if q { 7 } else { 1 })), &[Ident]),
            ];
            us.extend(odd_shapes(q).into_iter().filter(|(u, _)| u.name != "far-apart IDs" && u.name != "bigger").map(|(u, l)| (if q { u.thin(4) } else { u }, l)));
            mk("C35", "Every listed FBAS x every set of faulty nodes: results with these nodes removed compared with what the definitions give if these nodes are faulty, and with the analysis of the FBAS in which they have crashed.", { let mut f = families(us, c35); f.push(crate::p_shapes::families(35, q)); f })
        }
        "C34" => {
            let a = c34_qsets();
            let b: Vec<RQ> = vec![RQ::default(), RQ::flat(2, &[0, 1, 2]), RQ::flat(1, &[2]), RQ::new(2, &[0, 1], vec![RQ::flat(u64::MAX, &[1, 2])])];
            let sym: Vec<RF> = a.iter().map(|x| symmetric(3, x)).chain(trees(5, 2, true).iter().map(|(n, x)| symmetric(*n, x))).chain(dup_universe(4, 2)).collect();
            let fams = vec![
                c34_family("extreme thresholds", if q { vec![a.clone(), b.clone(), a.clone()] } else { vec![a.clone(), a.clone(), [a.clone(), b.clone()].concat()] }),
                c34_list("everybody alike", sym),
                c34_misc(),
            ];
            let mut p = mk("C34", "Every listed FBAS document, through every analysis, post-processing step and output form; a panic, an abort, or running longer than the limit is a violation.", fams)?;
            p.hang_s = 40;
            Some(p)
        }
        _ => None,
    }
}
fn c34_list(name: &str, v: Vec<RF>) -> Family {
    let v = std::sync::Arc::new(v);
    let v2 = v.clone();
    Family::new(
        name,
        v.len() as u64,
        move |i, ctx| {
            ctx.states += 1;
            ctx.traces += 1;
            c34_run(&f_json(&v[i as usize], &|x| format!("n{}", x)), ctx);
            Ok(())
        },
        move |i| show(&v2[i as usize]),
    )
}
#[allow(dead_code)]
fn unused(_: BTreeSet<u32>) {}
