//! C21-C27: the simulation side: rounds, policies, graphs. Randomness is a choice point.
use crate::engine::*;
use crate::explore::*;
use crate::p_analysis::{ensure, perms};
use crate::p_io::Scratch;
use crate::refm::*;
use crate::universe::*;
use fbas_analyzer::simulation::monitors::*;
use fbas_analyzer::simulation::qsc::*;
use fbas_analyzer::simulation::*;
use fbas_analyzer::*;
use rand::mc::Kind;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

type R = Result<(), String>;

// ---------------------------------------------------------------- graphs
/// a graph as sets of links
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct G(pub Vec<BTreeSet<usize>>);
impl G {
    pub fn new(n: usize) -> G {
        G(vec![BTreeSet::new(); n])
    }
    pub fn n(&self) -> usize {
        self.0.len()
    }
    pub fn link(&mut self, a: usize, b: usize) {
        self.0[a].insert(b);
    }
    pub fn mutual(&mut self, a: usize, b: usize) {
        self.link(a, b);
        self.link(b, a);
    }
    pub fn lists(&self) -> Vec<Vec<usize>> {
        self.0.iter().map(|s| s.iter().copied().collect()).collect()
    }
    pub fn graph(&self) -> Graph {
        Graph::new(self.lists())
    }
    pub fn edges(&self) -> usize {
        self.0.iter().map(|s| s.len()).sum()
    }
    pub fn undirected(&self) -> bool {
        (0..self.n()).all(|a| self.0[a].iter().all(|&b| self.0[b].contains(&a)))
    }
    pub fn connected(&self) -> BTreeSet<usize> {
        let mut r = BTreeSet::new();
        for (a, s) in self.0.iter().enumerate() {
            for &b in s {
                r.insert(a);
                r.insert(b);
            }
        }
        r
    }
    /// all directed graphs on n nodes, indexed by bit mask over the ordered pairs (self links last)
    pub fn directed(n: usize, i: u64) -> G {
        let mut g = G::new(n);
        let mut k = 0;
        for a in 0..n {
            for b in 0..n {
                if a != b {
                    if i >> k & 1 == 1 {
                        g.link(a, b);
                    }
                    k += 1;
                }
            }
        }
        for a in 0..n {
            if i >> k & 1 == 1 {
                g.link(a, a);
            }
            k += 1;
        }
        g
    }
    pub fn undir(n: usize, i: u64) -> G {
        let mut g = G::new(n);
        let mut k = 0;
        for a in 0..n {
            for b in a + 1..n {
                if i >> k & 1 == 1 {
                    g.mutual(a, b);
                }
                k += 1;
            }
        }
        g
    }
    pub fn relabelled(&self, p: &[usize]) -> G {
        let mut g = G::new(self.n());
        for (a, s) in self.0.iter().enumerate() {
            for &b in s {
                g.link(p[a], p[b]);
            }
        }
        g
    }
}
/// The links of a graph, by way of its Debug form and an equality test. Also checks that no link is doubled.
pub fn links(g: &Graph) -> Result<Vec<Vec<usize>>, String> {
    let s = format!("{:?}", g);
    let a = s.find('[').unwrap_or_else(|| infra(format!("cannot read graph {}", s)));
    let b = s.rfind(']').unwrap();
    let l: Vec<Vec<usize>> = match serde_json::from_str(&s[a..=b]) {
        Ok(l) => l,
        Err(e) => infra(format!("cannot read graph {}: {}", s, e)),
    };
    if Graph::new(l.clone()) != *g {
        infra(format!("the debug form of a graph misrepresents it: {}", s));
    }
    Ok(l)
}
pub fn model(g: &Graph) -> Result<G, String> {
    let l = links(g)?;
    let n = l.len();
    let mut r = G::new(n);
    for (a, s) in l.iter().enumerate() {
        for &b in s {
            ensure(b < n, || format!("link {}->{} leaves the graph of {} nodes: {:?}", a, b, n, l))?;
            ensure(r.0[a].insert(b), || format!("link {}->{} is listed twice: {:?}", a, b, l))?;
        }
    }
    Ok(r)
}
fn res<T>(key: impl FnOnce() -> String, r: Result<T, String>) -> Result<T, Fail> {
    r.map_err(|m| Fail { key: key(), msg: m })
}
fn dfs_res(what: &str, key: String, r: Result<Stats, (Vec<u64>, String)>, c: &mut Ctx) -> Res {
    match r {
        Ok(s) => {
            if s.capped {
                infra(format!("{}: more executions than planned for", key));
            }
            c.traces += s.executions;
            c.states += s.choice_points;
            Ok(())
        }
        Err((choices, m)) => fail(key, format!("{}\n{} {:?}", m, what, choices)),
    }
}
const CAP: u64 = 200_000_000;

// ---------------------------------------------------------------- C21
#[derive(Clone, Debug, PartialEq)]
struct Call {
    node: usize,
    eff: ChangeEffect,
    n: usize,
    /// how many events had been announced before
    ev: usize,
}
#[derive(Default)]
struct Log {
    calls: Vec<Call>,
    events: Vec<Event>,
    /// number of calls made before each event
    at: Vec<usize>,
}
struct Mon(Rc<RefCell<Log>>, Option<Rc<DebugMonitor>>);
impl SimulationMonitor for Mon {
    fn register_event(&self, e: Event) {
        if let Some(d) = &self.1 {
            d.register_event(e);
        }
        let mut l = self.0.borrow_mut();
        let k = l.calls.len();
        l.events.push(e);
        l.at.push(k);
    }
}
struct Scripted {
    log: Rc<RefCell<Log>>,
    answer: Box<dyn Fn(usize, usize) -> bool>, // (call number, node) -> change?
}
fn script_q(k: usize) -> QuorumSet {
    QuorumSet { threshold: 1, validators: vec![k], inner_quorum_sets: vec![] }
}
impl QuorumSetConfigurator for Scripted {
    fn configure(&self, node: NodeId, fbas: &mut Fbas) -> ChangeEffect {
        let k = self.log.borrow().calls.len();
        let ch = (self.answer)(k, node);
        if ch && node < fbas.number_of_nodes() {
            fbas.swap_quorum_set(node, script_q(k));
        }
        let eff = if ch { ChangeEffect::Change } else { ChangeEffect::NoChange };
        let ev = self.log.borrow().events.len();
        self.log.borrow_mut().calls.push(Call { node, eff, n: fbas.number_of_nodes(), ev });
        eff
    }
}
#[derive(Clone, Copy, Debug)]
pub enum Op {
    Reeval(usize),
    Grow(usize),
}
/// what must be seen, given the order of visits and answers actually made
struct Follow<'a> {
    calls: &'a [Call],
    k: usize,
    expect: Vec<Event>,
}
impl<'a> Follow<'a> {
    fn reeval(&mut self, n: usize, max: usize) -> Result<usize, String> {
        self.expect.push(Event::StartGlobalReevaluation);
        let mut rounds = 0;
        while rounds < max {
            rounds += 1;
            self.expect.push(Event::StartGlobalReevaluationRound);
            let mut seen = BTreeSet::new();
            let mut any = false;
            for _ in 0..n {
                let c = self.calls.get(self.k).ok_or_else(|| format!("round {} ended after configuring only {:?} of {} nodes", rounds, seen, n))?;
                self.k += 1;
                ensure(c.n == n, || format!("node {} was configured in an FBAS of {} nodes, should be {}", c.node, c.n, n))?;
                ensure(c.node < n && seen.insert(c.node), || format!("node {} was configured twice in round {} (or does not exist)", c.node, rounds))?;
                any |= c.eff == ChangeEffect::Change;
                self.expect.push(Event::QuorumSetChange(c.node, c.eff));
            }
            if !any {
                break;
            }
        }
        self.expect.push(Event::FinishGlobalReevaluation(rounds));
        Ok(rounds)
    }
}
fn c21_check(log: &Log, returned: &[Option<usize>], ops: &[Op], n0: usize, fbas: &Fbas) -> R {
    let mut f = Follow { calls: &log.calls, k: 0, expect: vec![] };
    let mut n = n0;
    for (i, op) in ops.iter().enumerate() {
        match *op {
            Op::Reeval(max) => {
                let r = f.reeval(n, max)?;
                ensure(returned[i] == Some(r), || format!("reevaluation returned {:?}, {} rounds were due", returned[i], r))?;
            }
            Op::Grow(k) => {
                for _ in 0..k {
                    n += 1;
                    let c = f.calls.get(f.k).ok_or("a new node was not configured")?;
                    f.k += 1;
                    ensure(c.node == n - 1 && c.n == n, || format!("growth to {} nodes configured node {} of {}", n, c.node, c.n))?;
                    f.expect.push(Event::AddNode(n - 1));
                    f.reeval(n, n)?;
                }
            }
        }
    }
    ensure(f.k == log.calls.len(), || format!("{} configurations were made, {} were due", log.calls.len(), f.k))?;
    ensure(f.expect == log.events, || format!("announced: {:?}\nshould be: {:?}", log.events, f.expect))?;
    // the FBAS left behind
    ensure(fbas.number_of_nodes() == n, || format!("{} nodes at the end, should be {}", fbas.number_of_nodes(), n))?;
    for i in 0..n {
        let want = log.calls.iter().enumerate().filter(|(_, c)| c.node == i && c.eff == ChangeEffect::Change).last().map(|(k, _)| script_q(k)).unwrap_or_default();
        ensure(fbas.get_quorum_set(i) == Some(want.clone()), || format!("node {} ended with {:?}, should be {:?}", i, fbas.get_quorum_set(i), want))?;
        ensure(fbas.get_node_id(&format!("n{}", i)) == Some(i), || format!("node {} is not called n{}", i, i))?;
    }
    Ok(())
}
fn c21_once(n0: usize, ops: &[Op], debug: bool, answer: Box<dyn Fn(usize, usize) -> bool>, outcome: &mut dyn FnMut(u64)) -> R {
    let log = Rc::new(RefCell::new(Log::default()));
    let dm = if debug { Some(Rc::new(DebugMonitor::new())) } else { None };
    let mut sim = Simulator::new(
        Fbas::new_generic_unconfigured(n0),
        Rc::new(Scripted { log: log.clone(), answer }),
        Rc::new(Mon(log.clone(), dm.clone())),
    );
    let mut ret = vec![];
    for op in ops {
        match *op {
            Op::Reeval(m) => ret.push(Some(sim.simulate_global_reevaluation(m))),
            Op::Grow(k) => {
                sim.simulate_growth(k);
                ret.push(None)
            }
        }
    }
    let fbas = sim.finalize();
    let l = log.borrow();
    c21_check(&l, &ret, ops, n0, &fbas)?;
    if let Some(d) = dm {
        ensure(d.events_clone() == l.events && *d.events_ref() == l.events, || "the recording monitor recorded something else".into())?;
    }
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    l.events.hash(&mut h);
    outcome(h.finish());
    Ok(())
}
/// free answers: every visit order x every answer of the policy
fn c21_free(name: &str, cases: Vec<(usize, Vec<Op>)>) -> Family {
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    Family::new(
        name,
        cases.len() as u64,
        move |i, c| {
            let (n0, ops) = &cases[i as usize];
            let mut seen = BTreeSet::new();
            let mut calls = 0u64;
            let r = dfs(CAP, |ch| {
                let ch2 = ch.clone();
                calls += 1;
                c21_once(*n0, ops, calls % 2 == 0, Box::new(move |_, _| ch2.choose(2, Kind::Coin) == 1), &mut |h| {
                    if seen.len() < 100_000 {
                        seen.insert(h);
                    }
                })
            });
            dfs_res("choices (visit orders and answers):", format!("{}:{:?}", n0, ops), r, c)?;
            c.ops(calls);
            for h in seen {
                c.outcome(&h);
            }
            c.sample(|| format!("{} nodes, then {:?}: {} executions (all visit orders x all answers)", n0, ops, calls));
            Ok(())
        },
        move |i| format!("an FBAS of {} nodes, then {:?}; every visit order, every answer of the policy", c2[i as usize].0, c2[i as usize].1),
    )
}
/// ruled answers: which nodes change in which rounds is a rule; every visit order for small n, two for large n
fn c21_ruled(name: &str, ns: Vec<usize>, full_orders: bool) -> Family {
    let mut cases = vec![];
    for &n in &ns {
        let far = if full_orders { vec![] } else { vec![8usize, 33, 70] };
        for max in (0..6usize).chain(far.clone()) {
            for s in (0..6usize).chain(far.clone()) {
                for who in 0..4usize {
                    cases.push((n, max, s, who));
                }
            }
        }
    }
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    Family::new(
        name,
        cases.len() as u64,
        move |i, c| {
            let (n, max, s, who) = cases[i as usize];
            let mk = move || -> Box<dyn Fn(usize, usize) -> bool> {
                Box::new(move |k, node| {
                    let round = if n == 0 { 0 } else { k / n };
                    round < s
                        && match who {
                            0 => true,
                            1 => node == 0,
                            2 => node == n - 1,
                            _ => k % n == n - 1,
                        }
                })
            };
            let ops = [Op::Reeval(max)];
            let key = format!("{}:{}:{}:{}", n, max, s, who);
            if full_orders {
                // all orders of the first two rounds, the identity afterwards
                let r = dfs(CAP, |ch| {
                    // choices made by the shuffle only
                    let _ = ch;
                    c21_once(n, &ops, true, mk(), &mut |_| {})
                });
                dfs_res("visit order choices:", key, r, c)?;
                c.ops(1);
            } else {
                for last in [false, true] {
                    rand::mc::install(Box::new(move |k, _| if last { k - 1 } else { 0 }));
                    let mut hh = 0;
                    let r = c21_once(n, &ops, true, mk(), &mut |h| hh = h);
                    rand::mc::uninstall();
                    c.outcome(&hh);
                    res(|| key.clone(), r)?;
                    c.states += 1;
                    c.traces += 1;
                    c.ops(1);
                }
            }
            Ok(())
        },
        move |i| {
            let (n, max, s, who) = c2[i as usize];
            format!("reevaluation of {} nodes for at most {} rounds; {} change(s) in the first {} rounds", n, max, ["every node", "node 0", "the last node", "the last visited node"][who], s)
        },
    )
}
fn c21(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let mut free: Vec<(usize, Vec<Op>)> = vec![];
    let lim = |n: usize| match n {
        0 | 1 => 8,
        2 => 6,
        3 => 3,
        4 => 2,
        _ => 1,
    };
    for n in 0..=5 {
        for m in 0..=lim(n) {
            free.push((n, vec![Op::Reeval(m)]));
        }
    }
    for (n, k) in [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 0), (2, 1)] {
        // far too many executions for a check that is run often
        if k == 2 && n == 1 && t == Tier::Quick {
            continue;
        }
        free.push((n, vec![Op::Grow(k)]));
    }
    for ops in [
        vec![Op::Reeval(2), Op::Grow(1)],
        vec![Op::Grow(1), Op::Reeval(2)],
        vec![Op::Grow(1), Op::Grow(1)],
        vec![Op::Reeval(1), Op::Reeval(2)],
        vec![Op::Reeval(2), Op::Grow(1), Op::Reeval(1)],
    ] {
        free.push((0, ops.clone()));
        // two nodes grown onto one: 17 million executions
        if t == Tier::Thorough || !matches!(ops[..], [Op::Grow(1), Op::Grow(1)]) {
            free.push((1, ops));
        }
    }
    v.push(c21_free("every visit order and answer", free).threads(0));
    v.push(c21_ruled("ruled answers, every order", vec![0, 1, 2, t.pick(2, 3)], true));
    v.push(c21_ruled("ruled answers, larger", vec![3, 4, 5, 8, 31, 32, 33, 63, 64, 65, 128, 200], false));
    // very many rounds
    let mut cases = vec![];
    for n in 1..=3usize {
        for m in [255usize, 256, 257, 1000, 65_537] {
            for s in [m - 1, m, m + 1, 2 * m] {
                cases.push((n, m, s));
            }
        }
    }
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    v.push(Family::new(
        "very many rounds",
        cases.len() as u64,
        move |i, c| {
            let (n, m, s) = cases[i as usize];
            rand::mc::install(Box::new(move |k, _| k - 1));
            let mut hh = 0;
            let r = c21_once(n, &[Op::Reeval(m)], true, Box::new(move |k, node| k / n < s && node == 0), &mut |h| hh = h);
            rand::mc::uninstall();
            c.outcome(&hh);
            c.states += 1;
            c.traces += 1;
            c.ops(1);
            res(|| format!("{:?}", cases[i as usize]), r.map_err(|e| e.chars().take(2000).collect()))
        },
        move |i| format!("(nodes, at most so many rounds, changes in so many rounds) = {:?}", c2[i as usize]),
    ));
    // growth with ruled answers
    let mut cases = vec![];
    for n0 in 0..=3usize {
        for k in 0..=8usize {
            for s in 0..4usize {
                cases.push((n0, k, s));
            }
        }
    }
    // about as many rounds as there are nodes, fewer, and more
    for n0 in [0usize, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 99] {
        for k in 1..=3usize {
            for s in [4, n0 / 2, n0.max(2) - 2, n0.max(1) - 1, n0, n0 + 1, n0 + 2, 1000] {
                cases.push((n0, k, s));
            }
        }
    }
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    v.push(Family::new(
        "growth, ruled answers",
        cases.len() as u64,
        move |i, c| {
            let (n0, k, s) = cases[i as usize];
            for last in [false, true] {
                rand::mc::install(Box::new(move |k, _| if last { k - 1 } else { 0 }));
                let mut hh = 0;
                let budget = RefCell::new(BTreeMap::<usize, usize>::new());
                // every node changes at its first s configurations
                let r = c21_once(
                    n0,
                    &[Op::Grow(k), Op::Reeval(3)],
                    true,
                    Box::new(move |_, node| {
                        let mut b = budget.borrow_mut();
                        let e = b.entry(node).or_insert(0);
                        *e += 1;
                        *e <= s
                    }),
                    &mut |h| hh = h,
                );
                rand::mc::uninstall();
                c.outcome(&hh);
                res(|| format!("{}:{}:{}", n0, k, s), r)?;
                c.states += 1;
                c.traces += 1;
                c.ops(2);
            }
            Ok(())
        },
        move |i| format!("{:?} = (initial nodes, grow by, configurations of a node that change it)", c2[i as usize]),
    ));
    v
}

// ---------------------------------------------------------------- C22
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pol {
    Ideal,
    Safe,
    All,
    Higher,
    Symm,
    Rank,
    Dummy,
}
pub fn t67(n: usize) -> u64 {
    // smallest t with 3t >= 2n+1
    if n == 0 {
        0
    } else {
        (2 * n as u64 + 1 + 2) / 3
    }
}
/// acceptable relative thresholds: the ceiling of the exact product or of its rounded floating-point form
pub fn tx(n: usize, x: f64) -> Vec<u64> {
    let mut r = vec![];
    let p = x * n as f64;
    r.push((p.ceil() as u64).max(1));
    // exact product as a rational: x = m * 2^e
    let (m, e) = {
        let b = x.to_bits();
        let ex = ((b >> 52) & 0x7ff) as i64;
        let fr = b & ((1 << 52) - 1);
        if ex == 0 {
            (fr, -1074)
        } else {
            (fr | 1 << 52, ex - 1075)
        }
    };
    let prod = m as u128 * n as u128;
    let exact = if e >= 0 {
        prod << e
    } else if -e >= 127 {
        (prod > 0) as u128
    } else {
        let d = 1u128 << (-e);
        (prod + d - 1) / d
    };
    r.push((exact as u64).max(1));
    // the product as somebody who writes decimals means it
    for den in [3u64, 6, 7, 9, 1000] {
        let num = (x * den as f64).round();
        if (num / den as f64 - x).abs() < 1e-15 {
            let num = num as u64;
            r.push(((num * n as u64 + den - 1) / den).max(1));
        }
    }
    r.sort_unstable();
    r.dedup();
    r
}
pub fn thr_ok(k: usize, rel: Option<f64>, t: u64) -> bool {
    match rel {
        None => t == t67(k),
        Some(x) => tx(k, x).contains(&t),
    }
}
pub struct PolM {
    pub pol: Pol,
    pub rel: Option<f64>,
    pub g: G,
    pub rank: Vec<f64>,
}
pub fn qsc_of(p: Pol, g: &G, rel: Option<f64>, short: bool) -> Rc<dyn QuorumSetConfigurator> {
    let gr = g.graph();
    match (p, rel, short) {
        (Pol::Ideal, _, _) => Rc::new(IdealQsc::new()),
        (Pol::Safe, _, _) => Rc::new(SuperSafeQsc::new()),
        (Pol::Dummy, _, _) => Rc::new(DummyQsc),
        (Pol::All, None, true) => Rc::new(AllNeighborsQsc::new_67p(gr)),
        (Pol::All, Some(x), true) => Rc::new(AllNeighborsQsc::new_relative(gr, x)),
        (Pol::All, r, _) => Rc::new(AllNeighborsQsc::new(gr, r)),
        (Pol::Higher, None, true) => Rc::new(HigherTierNeighborsQsc::new_67p(gr, false)),
        (Pol::Higher, Some(x), true) => Rc::new(HigherTierNeighborsQsc::new_relative(gr, x, false)),
        (Pol::Higher, r, _) => Rc::new(HigherTierNeighborsQsc::new(gr, r, false)),
        (Pol::Symm, None, true) => Rc::new(HigherTierNeighborsQsc::new_67p(gr, true)),
        (Pol::Symm, Some(x), true) => Rc::new(HigherTierNeighborsQsc::new_relative(gr, x, true)),
        (Pol::Symm, r, _) => Rc::new(HigherTierNeighborsQsc::new(gr, r, true)),
        (Pol::Rank, None, true) => Rc::new(GlobalRankQsc::new_67p(gr)),
        (Pol::Rank, Some(x), true) => Rc::new(GlobalRankQsc::new_relative(gr, x)),
        (Pol::Rank, r, _) => Rc::new(GlobalRankQsc::new(gr, r)),
    }
}
const EPS: f64 = 1e-9;
impl PolM {
    /// is `q` what `node` should have, given the quorum sets of all nodes at the time of the visit?
    pub fn right(&self, node: usize, n: usize, now: &[RQ], q: &RQ) -> R {
        let bad = |w: String| Err(format!("{:?} gave node {} of {} the quorum set {}; {}", self.pol, node, n, show_q(q), w));
        let lists = |must: &BTreeSet<usize>, may: &BTreeSet<usize>| -> R {
            let got: BTreeSet<usize> = q.v.iter().copied().collect();
            if !q.inner.is_empty() || got.len() != q.v.len() || !must.is_subset(&got) || !got.is_subset(may) {
                return bad(format!("it should list {:?} and nothing else but perhaps {:?}", must, may.difference(must).collect::<Vec<_>>()));
            }
            Ok(())
        };
        let everyone: BTreeSet<usize> = (0..n).collect();
        let empty = |q: &RQ| q.v.is_empty() && q.inner.is_empty();
        match self.pol {
            Pol::Dummy => {
                if *q != now[node] {
                    return bad("it should not touch it".into());
                }
            }
            Pol::Ideal => {
                lists(&everyone, &everyone)?;
                if q.t != t67(n) {
                    return bad(format!("threshold should be {}", t67(n)));
                }
            }
            Pol::Safe => {
                lists(&everyone, &everyone)?;
                if q.t != n as u64 {
                    return bad(format!("threshold should be {}", n));
                }
            }
            Pol::All => {
                if !self.g.connected().contains(&node) {
                    if *q != RQ::default() {
                        return bad("it should stay unconfigured".into());
                    }
                } else {
                    let mut w = self.g.0[node].clone();
                    w.insert(node);
                    lists(&w, &w)?;
                    if !thr_ok(w.len(), self.rel, q.t) {
                        return bad("wrong threshold".into());
                    }
                }
            }
            Pol::Higher | Pol::Symm => {
                if !self.g.connected().contains(&node) {
                    if *q != RQ::default() {
                        return bad("it should stay unconfigured".into());
                    }
                    return Ok(());
                }
                let own = self.rank[node];
                let nb: Vec<usize> = self.g.0[node].iter().copied().collect();
                let hi: BTreeSet<usize> = nb.iter().copied().filter(|&i| self.rank[i] >= 2. * own).collect();
                let same: BTreeSet<usize> = nb.iter().copied().filter(|&i| !(self.rank[i] >= 2. * own) && !(own >= 2. * self.rank[i])).collect();
                let base = if hi.is_empty() { same } else { hi };
                let mut w = base.clone();
                if self.pol == Pol::Symm {
                    for &i in &base {
                        if i < n {
                            let o: BTreeSet<usize> = now[i].v.iter().copied().collect();
                            if o.contains(&node) {
                                w.extend(o);
                            }
                        }
                    }
                }
                w.insert(node);
                lists(&w, &w)?;
                if !thr_ok(w.len(), self.rel, q.t) {
                    return bad("wrong threshold".into());
                }
            }
            Pol::Rank => {
                // nodes outside the graph have no neighbors either
                if self.g.0.get(node).map_or(true, |x| x.is_empty()) {
                    if *q != RQ::default() {
                        return bad("it should stay unconfigured".into());
                    }
                    return Ok(());
                }
                let avg = self.rank.iter().sum::<f64>() / self.rank.len() as f64;
                let must: BTreeSet<usize> = (0..self.rank.len()).filter(|&i| self.rank[i] > avg + EPS).collect();
                let may: BTreeSet<usize> = (0..self.rank.len()).filter(|&i| self.rank[i] > avg - EPS).collect();
                lists(&must, &may)?;
                if !thr_ok(q.v.len(), self.rel, q.t) {
                    return bad("wrong threshold".into());
                }
                let _ = empty;
            }
        }
        Ok(())
    }
}
struct Checked {
    inner: Rc<dyn QuorumSetConfigurator>,
    m: Rc<PolM>,
    err: Rc<RefCell<Option<String>>>,
    visits: Rc<RefCell<u64>>,
}
pub fn rqs(f: &Fbas) -> Vec<RQ> {
    (0..f.number_of_nodes()).map(|i| from_qs(&f.get_quorum_set(i).unwrap())).collect()
}
impl QuorumSetConfigurator for Checked {
    fn configure(&self, node: NodeId, fbas: &mut Fbas) -> ChangeEffect {
        let before = rqs(fbas);
        let eff = self.inner.configure(node, fbas);
        let after = rqs(fbas);
        *self.visits.borrow_mut() += 1;
        let n = before.len();
        let r = (|| -> R {
            ensure(after.len() == n, || "the policy changed the number of nodes".into())?;
            for i in 0..n {
                ensure(i == node || after[i] == before[i], || format!("configuring node {} changed node {}", node, i))?;
            }
            self.m.right(node, n, &before, &after[node])?;
            let changed = after[node] != before[node];
            ensure((eff == ChangeEffect::Change) == changed, || {
                format!("{:?} reported {:?} for node {}, whose quorum set went from {} to {}", self.m.pol, eff, node, show_q(&before[node]), show_q(&after[node]))
            })
        })();
        if let Err(e) = r {
            self.err.borrow_mut().get_or_insert(e);
        }
        eff
    }
}
#[derive(Clone, Debug)]
struct PCase {
    pol: Pol,
    g: G,
    rel: Option<f64>,
    n0: usize,
    grow: usize,
    /// number of leading shuffle choices explored (0: all)
    depth: usize,
}
fn c22_case(p: &PCase, c: &mut Ctx) -> R {
    let gr = p.g.graph();
    let m = Rc::new(PolM { pol: p.pol, rel: p.rel, g: p.g.clone(), rank: gr.get_rank_scores() });
    let visits = Rc::new(RefCell::new(0u64));
    let mut short = false;
    let mut finals = BTreeSet::new();
    let body = |finals: &mut BTreeSet<Vec<RQ>>, short: bool| -> R {
        let err = Rc::new(RefCell::new(None));
        let q: Rc<dyn QuorumSetConfigurator> = Rc::new(Checked { inner: qsc_of(p.pol, &p.g, p.rel, short), m: m.clone(), err: err.clone(), visits: visits.clone() });
        let mut sim = Simulator::new(Fbas::new_generic_unconfigured(p.n0), q, Rc::new(DummyMonitor));
        let n = p.n0 + p.grow;
        sim.simulate_global_reevaluation(p.n0.max(2));
        sim.simulate_growth(p.grow);
        let once = sim.clone().finalize();
        if let Some(e) = err.borrow_mut().take() {
            return Err(e);
        }
        let r = if p.pol != Pol::Symm {
            let r = sim.simulate_global_reevaluation(5);
            if p.grow == 0 && n > 0 {
                ensure(r == 1, || format!("{:?} was not stable after reevaluation: a further one took {} rounds", p.pol, r))?;
            }
            r
        } else {
            1
        };
        let _ = r;
        let f = sim.finalize();
        if let Some(e) = err.borrow_mut().take() {
            return Err(e);
        }
        let (a, b) = (rqs(&once), rqs(&f));
        ensure(a.len() == n, || format!("{} nodes at the end, should be {}", a.len(), n))?;
        if p.pol != Pol::Symm {
            ensure(a == b, || "a further reevaluation changed quorum sets".to_string())?;
            for i in 0..n {
                m.right(i, n, &a, &a[i])?;
            }
        }
        finals.insert(a);
        Ok(())
    };
    if p.depth == 0 {
        let r = dfs(CAP, |_| {
            short = !short;
            body(&mut finals, short)
        });
        match r {
            Ok(s) => {
                c.traces += s.executions;
                c.states += s.choice_points;
            }
            Err((ch, e)) => return Err(format!("{}\nvisit order choices {:?}", e, ch)),
        }
    } else {
        // the first `depth` draws in every way, the later ones first-come
        let d = p.depth;
        let mut prefix: Vec<u64> = vec![];
        loop {
            let sizes = Rc::new(RefCell::new(vec![]));
            let (s2, p2) = (sizes.clone(), prefix.clone());
            rand::mc::install(Box::new(move |k, _| {
                let mut s = s2.borrow_mut();
                let i = s.len();
                s.push(k);
                if i < p2.len() {
                    p2[i].min(k - 1)
                } else {
                    0
                }
            }));
            short = !short;
            let r = body(&mut finals, short);
            rand::mc::uninstall();
            c.traces += 1;
            c.states += 1;
            r.map_err(|e| format!("{}\nvisit order choices {:?}", e, prefix))?;
            let s = sizes.borrow();
            let len = s.len().min(d);
            prefix.resize(len, 0);
            let mut i = len;
            let mut done = true;
            while i > 0 {
                i -= 1;
                if prefix[i] + 1 < s[i] {
                    prefix[i] += 1;
                    for x in prefix.iter_mut().skip(i + 1) {
                        *x = 0;
                    }
                    done = false;
                    break;
                }
            }
            if done {
                break;
            }
        }
    }
    c.ops(*visits.borrow());
    c.outcome(&(format!("{:?}{:?}", p.pol, p.rel), &finals));
    if p.pol != Pol::Symm {
        ensure(finals.len() == 1, || format!("{} different outcomes, depending on the visit order", finals.len()))?;
    }
    c.sample(|| format!("{:?}: quorum sets {:?}", p, finals.iter().next().map(|f| f.iter().map(show_q).collect::<Vec<_>>())));
    Ok(())
}
fn c22_family(name: &str, cases: Vec<PCase>) -> Family {
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    Family::new(
        name,
        cases.len() as u64,
        move |i, c| res(|| format!("{:?}", cases[i as usize]), c22_case(&cases[i as usize], c)),
        move |i| format!("{:?}", c2[i as usize]),
    )
}
const RELS: [Option<f64>; 8] = [None, Some(0.0), Some(0.34), Some(0.5), Some(0.67), Some(1.0), Some(1.5), Some(2.0)];
fn c22(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let gpols = [Pol::All, Pol::Higher, Pol::Symm, Pol::Rank];
    // no graph
    let mut cs = vec![];
    for n in 0..=4 {
        for p in [Pol::Ideal, Pol::Safe, Pol::Dummy] {
            cs.push(PCase { pol: p, g: G::new(0), rel: None, n0: n, grow: 0, depth: 0 });
            for k in 1..=3usize {
                if n + k <= 4 {
                    cs.push(PCase { pol: p, g: G::new(0), rel: None, n0: n, grow: k, depth: if n + k <= 3 { 0 } else { 8 } });
                }
            }
        }
    }
    for n in [5usize, 6] {
        for p in [Pol::Ideal, Pol::Safe] {
            cs.push(PCase { pol: p, g: G::new(0), rel: None, n0: n, grow: 0, depth: n - 1 });
        }
    }
    for n in [7usize, 10, 33, 64, 65, 130] {
        for p in [Pol::Ideal, Pol::Safe] {
            cs.push(PCase { pol: p, g: G::new(0), rel: None, n0: n, grow: 0, depth: 1 });
            cs.push(PCase { pol: p, g: G::new(0), rel: None, n0: n / 2, grow: (n - n / 2).min(9), depth: 1 });
        }
    }
    v.push(c22_family("policies without graph", cs));
    // every directed graph of up to 3 nodes (self links included), all orders
    let mut cs = vec![];
    for n in 0..=3usize {
        for i in 0..1u64 << (n * n) {
            for p in gpols {
                for (k, rel) in RELS.iter().enumerate() {
                    if t == Tier::Quick && n == 3 && k >= 2 && (i as usize + k) % 4 != 0 {
                        continue;
                    }
                    cs.push(PCase { pol: p, g: G::directed(n, i), rel: *rel, n0: n, grow: 0, depth: 0 });
                }
            }
        }
    }
    v.push(c22_family("every directed graph of up to 3 nodes", cs));
    // growth into the graph
    let mut cs = vec![];
    for n in 1..=3usize {
        for i in 0..1u64 << (n * (n - 1)) {
            for p in gpols {
                for n0 in 0..n {
                    cs.push(PCase { pol: p, g: G::directed(n, i), rel: None, n0, grow: n - n0, depth: if n < 3 { 0 } else { 5 } });
                }
            }
        }
    }
    v.push(c22_family("growth into every directed graph of up to 3 nodes", cs));
    let mut cs = vec![];
    for i in 0..64u64 {
        for p in gpols {
            cs.push(PCase { pol: p, g: G::undir(4, i), rel: None, n0: 4, grow: 0, depth: if p == Pol::Symm { t.pick(6, 9) } else { 0 } });
            cs.push(PCase { pol: p, g: G::undir(4, i), rel: Some(0.51), n0: 4, grow: 0, depth: 3 });
        }
    }
    v.push(c22_family("every undirected graph of 4 nodes", cs));
    let mut cs = vec![];
    for i in 0..1u64 << 12 {
        if t == Tier::Thorough || i % 4 == 1 {
            for p in gpols {
                cs.push(PCase { pol: p, g: G::directed(4, i), rel: None, n0: 4, grow: 0, depth: 3 });
            }
        }
    }
    v.push(c22_family("directed graphs of 4 nodes, every order of the first round", cs));
    // more nodes than the graph has: those stay as they are
    let mut cs = vec![];
    for n in 0..=3usize {
        for i in 0..1u64 << (n * n.saturating_sub(1)) {
            for p in gpols {
                for (n0, grow) in [(n + 1, 0), (n, 1), (n + 2, 0), (n, 2), (n + 1, 1), (0, n + 1)] {
                    for rel in [None, Some(0.6)] {
                        if n == 3 && (i % 3 != 0 || (rel.is_some() && grow > 0)) && t == Tier::Quick {
                            continue;
                        }
                        cs.push(PCase { pol: p, g: G::directed(n, i), rel, n0, grow, depth: if n0 + grow <= 3 && p != Pol::Symm { 0 } else { 3 } });
                    }
                }
            }
        }
    }
    v.push(c22_family("more nodes than the graph", cs));
    // larger, structured graphs
    let mut cs = vec![];
    for g in structured() {
        for p in gpols {
            for rel in [None, Some(0.6)] {
                cs.push(PCase { pol: p, g: g.clone(), rel, n0: g.n(), grow: 0, depth: 2 });
                if rel.is_none() {
                    cs.push(PCase { pol: p, g: g.clone(), rel, n0: g.n() + 1, grow: 2, depth: 1 });
                }
            }
        }
    }
    v.push(c22_family("structured graphs", cs));
    // many nodes, many links
    let mut cs = vec![];
    for n in t.pick(vec![18usize, 34, 70], vec![18, 34, 66, 70, 131, 260]) {
        let mut gs = vec![G::new(n), G::new(n), G::new(n), G::new(n), tiers(&[n / 3, n - n / 3]), tiers(&[n / 4, n / 2, n - n / 4 - n / 2])];
        for a in 0..n {
            gs[0].mutual(a, (a + 1) % n);
            if a > 0 {
                gs[1].mutual(a, a / 2);
                gs[2].mutual(n / 2, if a == n / 2 { 0 } else { a });
                gs[2].link(a, a - 1);
                gs[2].link(a - 1, a);
            }
            (0..n).filter(|b| *b != a && (a * 7 + b) % 3 > 0).for_each(|b| gs[3].link(a, b));
        }
        for g in gs {
            for p in gpols {
                for rel in [None, Some(0.6)] {
                    if n <= t.pick(34, 70) || (p != Pol::Symm && rel.is_none()) {
                        cs.push(PCase { pol: p, g: g.clone(), rel, n0: n, grow: 0, depth: 1 });
                    }
                }
                if n <= t.pick(34, 70) {
                    cs.push(PCase { pol: p, g: g.clone(), rel: None, n0: n - 2, grow: 2, depth: 1 });
                }
            }
        }
    }
    v.push(c22_family("larger graphs", cs));
    v
}
pub fn tiers(sizes: &[usize]) -> G {
    let n = sizes.iter().sum();
    let mut g = G::new(n);
    let mut lo = 0;
    let mut up: Vec<usize> = vec![];
    for &s in sizes {
        let me: Vec<usize> = (lo..lo + s).collect();
        for &a in &me {
            for &b in me.iter().chain(&up) {
                if a != b {
                    g.link(a, b);
                }
            }
        }
        up = me;
        lo += s;
    }
    g
}
pub fn structured() -> Vec<G> {
    let mut v = vec![tiers(&[2, 3, 1]), tiers(&[3, 3, 3]), tiers(&[1, 4]), tiers(&[4, 1]), tiers(&[2, 5, 2, 3]), tiers(&[5])];
    for n in [5usize, 6, 9] {
        let mut ring = G::new(n);
        let mut star = G::new(n);
        let mut path = G::new(n);
        for i in 0..n {
            ring.mutual(i, (i + 1) % n);
            if i > 0 {
                star.mutual(0, i);
                path.mutual(i - 1, i);
            }
        }
        v.extend([ring, star, path]);
    }
    // two cliques joined by a bridge; isolated nodes in between
    let mut g = G::new(9);
    for a in [0usize, 2, 4] {
        for b in [0usize, 2, 4] {
            if a < b {
                g.mutual(a, b);
            }
        }
    }
    for a in [5usize, 6, 8] {
        for b in [5usize, 6, 8] {
            if a < b {
                g.mutual(a, b);
            }
        }
    }
    g.mutual(4, 5);
    v.push(g);
    v
}

// ---------------------------------------------------------------- C23
#[derive(Clone, Debug)]
struct RCase {
    n: usize,
    node: usize,
    init: Vec<usize>,
    init_t: usize,
    size: usize,
    thr: Option<usize>,
    w: Option<Vec<usize>>,
}
pub fn weight(w: &Option<Vec<usize>>, i: usize) -> usize {
    w.as_ref().and_then(|w| w.get(i).copied()).unwrap_or(1)
}
/// exact distribution of the set of k distinct choices, one after the other, proportional to weight
pub fn sequential(ws: &BTreeMap<usize, usize>, k: usize) -> BTreeMap<BTreeSet<usize>, f64> {
    fn rec(ws: &BTreeMap<usize, usize>, k: usize, cur: &mut BTreeSet<usize>, p: f64, out: &mut BTreeMap<BTreeSet<usize>, f64>) {
        if k == 0 {
            *out.entry(cur.clone()).or_insert(0.) += p;
            return;
        }
        let tot: usize = ws.iter().filter(|(i, _)| !cur.contains(i)).map(|(_, w)| w).sum();
        for (&i, &w) in ws {
            if w > 0 && !cur.contains(&i) {
                cur.insert(i);
                rec(ws, k - 1, cur, p * w as f64 / tot as f64, out);
                cur.remove(&i);
            }
        }
    }
    let mut out = BTreeMap::new();
    rec(ws, k, &mut BTreeSet::new(), 1., &mut out);
    out
}
pub fn compare_distributions<K: Ord + std::fmt::Debug>(got: &BTreeMap<K, f64>, want: &BTreeMap<K, f64>, exact: bool) -> R {
    for (k, p) in want {
        match got.get(k) {
            None if !exact && *p < crate::explore::raw_floor() => {}
            None => return Err(format!("{:?} is never the outcome; it should be with probability {:.4}", k, p)),
            Some(q) => ensure(!exact || (p - q).abs() < 1e-9, || format!("{:?} is the outcome with probability {:.6}, should be {:.6}", k, q, p))?,
        }
    }
    for (k, p) in got {
        ensure(want.contains_key(k), || format!("{:?} is an outcome (probability {:.4}); it should never be", k, p))?;
    }
    Ok(())
}
pub fn trail_probability(ch: &Chooser) -> f64 {
    ch.0.borrow().taken.iter().map(|t| 1. / t.1 as f64).product()
}
fn c23_case(r: &RCase, c: &mut Ctx) -> R {
    let mut dist: BTreeMap<BTreeSet<usize>, f64> = BTreeMap::new();
    let base: Vec<usize> = if r.init.is_empty() { vec![r.node] } else { r.init.clone() };
    let eligible: BTreeMap<usize, usize> = (0..r.n).filter(|i| !base.contains(i)).map(|i| (i, weight(&r.w, i))).filter(|x| x.1 > 0).collect();
    let target = r.size.min(r.n).min(base.len() + eligible.len()).max(base.len());
    let grows = r.init.is_empty() || target > base.len();
    let others = RQ { t: 1, v: vec![0], inner: vec![] };
    let st = dfs(CAP, |ch| -> R {
        let mut f = Fbas::new();
        for i in 0..r.n {
            f.add_generic_node(to_qs(&if i == r.node { RQ { t: r.init_t as u64, v: r.init.clone(), inner: vec![] } } else { others.clone() }));
        }
        let q = match (&r.thr, &r.w) {
            (None, None) => RandomQsc::new_simple(r.size),
            (t, w) => RandomQsc::new(r.size, *t, w.clone()),
        };
        let eff = q.configure(r.node, &mut f);
        let after = rqs(&f);
        for i in 0..r.n {
            ensure(i == r.node || after[i] == others, || format!("node {} was reconfigured as well", i))?;
        }
        let g = &after[r.node];
        ensure(g.inner.is_empty(), || "inner quorum sets appeared".into())?;
        if !grows {
            ensure(g.v == r.init && g.t == r.init_t as u64, || format!("a node with enough validators was changed to {}", show_q(g)))?;
            ensure(eff == ChangeEffect::NoChange, || "a node with enough validators was reported as changed".into())?;
        } else {
            let set: BTreeSet<usize> = g.v.iter().copied().collect();
            ensure(set.len() == g.v.len(), || format!("a validator is listed twice: {:?}", g.v))?;
            ensure(base.iter().all(|x| set.contains(x)), || format!("an existing validator is gone: {:?}", g.v))?;
            ensure(set.len() == target, || format!("{} validators, should be {}: {:?}", set.len(), target, g.v))?;
            let new: BTreeSet<usize> = set.iter().copied().filter(|x| !base.contains(x)).collect();
            ensure(new.iter().all(|x| *x < r.n), || format!("validators that do not exist: {:?}", g.v))?;
            let want_t = r.thr.map(|t| t as u64).unwrap_or(t67(target));
            ensure(g.t == want_t, || format!("threshold {}, should be {} ({} validators)", g.t, want_t, target))?;
            ensure(eff == ChangeEffect::Change, || "a node that got validators was reported as unchanged".into())?;
            *dist.entry(new).or_insert(0.) += trail_probability(ch);
        }
        Ok(())
    });
    let st = st.map_err(|(ch, e)| format!("{}\nrandom choices {:?}", e, ch))?;
    c.traces += st.executions;
    c.states += st.choice_points.max(1);
    c.ops(st.executions);
    if grows {
        compare_distributions(&dist, &sequential(&eligible, target - base.len()), !st.raw)?;
    }
    c.outcome(&(r.n, r.node, dist.keys().cloned().collect::<Vec<_>>(), r.thr, target));
    c.sample(|| format!("{:?}: outcomes (set of added validators: probability) {:?}", r, dist));
    Ok(())
}
fn c23(t: Tier) -> Vec<Family> {
    let mut cs = vec![];
    let maxn = t.pick(5, 6);
    for n in 1..=maxn {
        for node in 0..n {
            if n > 3 && node != 0 && node != n - 1 && t == Tier::Quick {
                continue;
            }
            let mut inits: Vec<Vec<usize>> = vec![vec![], vec![node], (0..n).collect(), (0..n).rev().collect()];
            for a in 0..n {
                if a != node {
                    inits.push(vec![a]);
                    inits.push(vec![a, node]);
                    inits.push(vec![node, a]);
                }
            }
            inits.sort();
            inits.dedup();
            let mut ws: Vec<Option<Vec<usize>>> = vec![None];
            let wn = n.min(4);
            for i in 0..3u64.pow(wn as u32) {
                let mut w: Vec<usize> = (0..wn).map(|k| ((i / 3u64.pow(k as u32)) % 3) as usize).collect();
                if n > wn {
                    w.push(1);
                }
                ws.push(Some(w));
            }
            ws.push(Some(vec![]));
            ws.push(Some(vec![0]));
            ws.push(Some(vec![2, 0, 3, 1, 5, 7, 9]));
            for init in &inits {
                for (wi, w) in ws.iter().enumerate() {
                    for size in 0..=n + 2 {
                        for (ti, thr) in [None, Some(1usize), Some(0), Some(7)].iter().enumerate() {
                            if t == Tier::Quick && ti > 0 && (wi + size + ti) % 5 != 0 {
                                continue;
                            }
                            cs.push(RCase { n, node, init: init.clone(), init_t: if init.is_empty() { 0 } else { 1 }, size, thr: *thr, w: w.clone() });
                        }
                    }
                }
            }
        }
    }
    let cs = Arc::new(cs);
    let c2 = cs.clone();
    let one = Family::new(
        "one node, every random outcome",
        cs.len() as u64,
        move |i, c| res(|| format!("{:?}", cs[i as usize]), c23_case(&cs[i as usize], c)),
        move |i| format!("{:?}", c2[i as usize]),
    );
    // histories: growth and reevaluation
    let mut hs = vec![];
    for size in 1..=4usize {
        for (n0, k) in [(0, 1), (0, 2), (0, 3), (1, 2), (2, 1), (3, 0), (2, 0), (4, 0)] {
            for w in [None, Some(vec![1, 2, 1, 3]), Some(vec![0, 1, 1, 1])] {
                hs.push((size, n0, k, w));
            }
        }
    }
    let hs = Arc::new(hs);
    let h2 = hs.clone();
    let hist = Family::new(
        "growth and reevaluation",
        hs.len() as u64,
        move |i, c| {
            let (size, n0, k, w) = &hs[i as usize];
            let n = n0 + k;
            // choices of the policy are explored up to the first 6 draws, visit orders included
            let mut prefix: Vec<u64> = vec![];
            loop {
                let sizes = Rc::new(RefCell::new(vec![]));
                let (s2, p2) = (sizes.clone(), prefix.clone());
                rand::mc::install(Box::new(move |k, _| {
                    let mut s = s2.borrow_mut();
                    let i = s.len();
                    s.push(k);
                    p2.get(i).copied().unwrap_or(0).min(k - 1)
                }));
                let log = Rc::new(DebugMonitor::new());
                let mut sim = Simulator::new(Fbas::new_generic_unconfigured(*n0), Rc::new(RandomQsc::new(*size, None, w.clone())), log.clone());
                sim.simulate_global_reevaluation(*n0 + 1);
                sim.simulate_growth(*k);
                let more = sim.simulate_global_reevaluation(4);
                rand::mc::uninstall();
                let f = rqs(&sim.finalize());
                let r = (|| -> R {
                    ensure(f.len() == n, || "wrong number of nodes".into())?;
                    ensure(n == 0 || more == 1, || format!("a further reevaluation took {} rounds although every node had enough validators", more))?;
                    for (i, q) in f.iter().enumerate() {
                        let el = (0..n).filter(|&j| j != i && weight(w, j) > 0).count();
                        let want = (*size).min(n).min(1 + el);
                        let set: BTreeSet<usize> = q.v.iter().copied().collect();
                        ensure(set.len() == want && q.v.len() == want && set.contains(&i) && set.iter().all(|j| *j == i || weight(w, *j) > 0) && q.t == t67(want), || {
                            format!("node {} ended with {}, should have {} distinct validators of positive weight, itself included, threshold {}", i, show_q(q), want, t67(want))
                        })?;
                    }
                    Ok(())
                })();
                c.traces += 1;
                c.states += 1;
                c.ops(log.events_ref().len() as u64);
                c.outcome(&f);
                res(|| format!("{:?}", hs[i as usize]), r.map_err(|e| format!("{}\nchoices {:?}", e, prefix)))?;
                let s = sizes.borrow();
                let len = s.len().min(7);
                prefix.resize(len, 0);
                let mut i = len;
                let mut done = true;
                while i > 0 {
                    i -= 1;
                    if prefix[i] + 1 < s[i] {
                        prefix[i] += 1;
                        for x in prefix.iter_mut().skip(i + 1) {
                            *x = 0;
                        }
                        done = false;
                        break;
                    }
                }
                if done {
                    break;
                }
            }
            Ok(())
        },
        move |i| format!("{:?} = (desired size, initial nodes, grow by, weights)", h2[i as usize]),
    );
    // many nodes: selected draws only, so the outcome has to be possible, not distributed as it should be
    let mut ls: Vec<(usize, usize, usize, usize, usize)> = vec![];
    for n in [6usize, 8, 16, 31, 32, 33, 63, 64, 65, 100, 200, 300] {
        for size in [0usize, 1, 2, 3, n / 2, n - 1, n, n + 1, 3 * n] {
            for existing in 0..5usize {
                for w in 0..4usize {
                    for rule in 0..6usize {
                        ls.push((n, size, existing, w, rule));
                    }
                }
            }
        }
    }
    let ls = Arc::new(ls);
    let l2 = ls.clone();
    let larger = Family::new(
        "one of many nodes, selected draws",
        ls.len() as u64,
        move |i, c| {
            let (n, size, existing, w, rule) = ls[i as usize];
            let node = [0, n - 1, n / 2, 3][i as usize % 4];
            let init: Vec<usize> = match existing {
                0 => vec![],
                1 => vec![node],
                2 => (0..n).rev().step_by(3).collect(),
                4 => (0..n).filter(|x| x % (n / 3) != 1).collect(),
                _ => (0..n.min(40)).filter(|&x| x != node).collect(),
            };
            let weights: Option<Vec<usize>> = match w {
                0 => None,
                1 => Some((0..n).map(|x| x % 3).collect()),
                2 => Some((0..n / 2).map(|x| 1 + 1000 * (x % 2)).collect()),
                _ => Some((0..n).map(|x| if x + 3 >= n { 7 } else { 0 }).collect()),
            };
            let mut f = Fbas::new_generic_unconfigured(n);
            f.swap_quorum_set(node, to_qs(&RQ { t: 1, v: init.clone(), inner: vec![] }));
            let k = Rc::new(RefCell::new(0u64));
            rand::mc::install(Box::new(move |m, _| {
                let mut k = k.borrow_mut();
                *k += 1;
                match rule {
                    0 => 0,
                    1 => m - 1,
                    2 => m / 2,
                    3 => k.wrapping_mul(6364136223846793005).rotate_left(17) % m,
                    4 => (m - 1) * (*k % 2),
                    _ => (*k / 3) % m,
                }
            }));
            let q = RandomQsc::new(size, None, weights.clone());
            let eff = q.configure(node, &mut f);
            rand::mc::uninstall();
            let g = &rqs(&f)[node];
            let base: Vec<usize> = if init.is_empty() { vec![node] } else { init.clone() };
            let eligible = (0..n).filter(|i| !base.contains(i) && weight(&weights, *i) > 0).count();
            let target = size.min(n).min(base.len() + eligible).max(base.len());
            let grows = init.is_empty() || target > base.len();
            let set: BTreeSet<usize> = g.v.iter().copied().collect();
            let r = (|| -> R {
                if !grows {
                    ensure(g.v == init && g.t == 1 && eff == ChangeEffect::NoChange, || format!("a node with enough validators was changed to {} ({:?})", show_q(g), eff))?;
                    return Ok(());
                }
                ensure(set.len() == g.v.len() && set.len() == target && eff == ChangeEffect::Change, || format!("{} different validators listed in {}, should be {} ({:?})", set.len(), show_q(g), target, eff))?;
                ensure(base.iter().all(|x| set.contains(x)), || format!("an existing validator is gone: {}", show_q(g)))?;
                ensure(set.iter().all(|x| *x < n && (base.contains(x) || weight(&weights, *x) > 0)), || format!("not all of {} can be chosen", show_q(g)))?;
                ensure(g.t == t67(target) && g.inner.is_empty(), || format!("threshold {}, should be {}", g.t, t67(target)))
            })();
            c.states += 1;
            c.traces += 1;
            c.op();
            c.outcome(g);
            res(|| format!("{:?}", ls[i as usize]), r.map_err(|e| format!("node {} of {}, size {}, existing {:?}, weights {:?}: {}", node, n, size, init, weights, e)))
        },
        move |i| format!("{:?} = (nodes, size, existing, weights, draws)", l2[i as usize]),
    );
    vec![one, hist, larger]
}

// ---------------------------------------------------------------- C24
pub fn simple_undirected(g: &G) -> R {
    ensure(g.undirected(), || format!("not undirected: {:?}", g.lists()))?;
    ensure((0..g.n()).all(|a| !g.0[a].contains(&a)), || format!("a node is linked to itself: {:?}", g.lists()))
}
pub fn ba_ref(n: usize, m0: usize, m: usize) -> BTreeMap<G, f64> {
    let mut core = G::new(n);
    for a in 0..m0 {
        for b in a + 1..m0 {
            core.mutual(a, b);
        }
    }
    let mut cur: BTreeMap<G, f64> = BTreeMap::new();
    cur.insert(core, 1.);
    for i in m0..n {
        let mut next = BTreeMap::new();
        for (g, p) in &cur {
            // a core of one node has no degrees to go by: it is the only possible target
            let ws: BTreeMap<usize, usize> = (0..i).map(|x| (x, if i == 1 { 1 } else { g.0[x].len() })).collect();
            for (s, q) in sequential(&ws, m) {
                let mut h = g.clone();
                for b in s {
                    h.mutual(i, b);
                }
                *next.entry(h).or_insert(0.) += p * q;
            }
        }
        cur = next;
    }
    cur
}
fn c24_ba(n: usize, m0: usize, m: usize, c: &mut Ctx) -> R {
    let mut dist: BTreeMap<G, f64> = BTreeMap::new();
    let st = dfs(CAP, |ch| -> R {
        let g = model(&Graph::new_random_scale_free(n, m0, m))?;
        ensure(g.n() == n, || format!("{} nodes, should be {}", g.n(), n))?;
        simple_undirected(&g)?;
        for i in 0..n {
            let earlier: Vec<usize> = g.0[i].iter().copied().filter(|&b| b < i).collect();
            let want = if i < m0 { i } else { m };
            ensure(earlier.len() == want, || format!("node {} is linked to {:?}, should be {} earlier nodes", i, earlier, want))?;
        }
        *dist.entry(g).or_insert(0.) += trail_probability(ch);
        Ok(())
    })
    .map_err(|(ch, e)| format!("{}\nrandom choices {:?}", e, ch))?;
    c.traces += st.executions;
    c.states += st.choice_points.max(1);
    c.ops(st.executions);
    compare_distributions(&dist, &ba_ref(n, m0, m), !st.raw)?;
    for g in dist.keys() {
        c.outcome(g);
    }
    c.sample(|| format!("scale-free n={} m0={} m={}: {} executions, {} different graphs, probabilities as computed exactly", n, m0, m, st.executions, dist.len()));
    Ok(())
}
/// earlier draws answered in some fixed ways, the last node linked in every possible way
fn c24_ba_last(n: usize, m0: usize, m: usize, how: u64, c: &mut Ctx) -> R {
    let before = m * (n - m0 - 1);
    let mut dist: BTreeMap<G, f64> = BTreeMap::new();
    let mut draws: BTreeSet<usize> = BTreeSet::new();
    let st = dfs_after(before, how, CAP, |ch| -> R {
        let g = model(&Graph::new_random_scale_free(n, m0, m))?;
        ensure(g.n() == n, || format!("{} nodes, should be {}", g.n(), n))?;
        simple_undirected(&g)?;
        for i in 0..n {
            let earlier: Vec<usize> = g.0[i].iter().copied().filter(|&b| b < i).collect();
            let want = if i < m0 { i } else { m };
            ensure(earlier.len() == want, || format!("node {} is linked to {:?}, should be {} earlier nodes", i, earlier, want))?;
        }
        draws.insert(ch.0.borrow().taken.len());
        *dist.entry(g).or_insert(0.) += trail_probability(ch);
        Ok(())
    })
    .map_err(|(ch, e)| format!("{}\nrandom choices {:?}, after {}", e, ch, before))?;
    c.traces += st.executions;
    c.states += st.choice_points.max(1);
    c.ops(st.executions);
    // unless nodes are chosen otherwise than by one draw per link
    if draws == BTreeSet::from([m]) && !st.raw && !st.capped {
        let rest: BTreeSet<Vec<Vec<usize>>> = dist.keys().map(|g| (0..n - 1).map(|a| g.0[a].iter().copied().filter(|&b| b + 1 < n).collect()).collect()).collect();
        ensure(rest.len() == 1, || "the last draws change other nodes".into())?;
        let base = rest.into_iter().next().unwrap();
        let ws: BTreeMap<usize, usize> = base.iter().map(|l| l.len()).enumerate().collect();
        let want: BTreeMap<G, f64> = sequential(&ws, m)
            .into_iter()
            .map(|(s, p)| {
                let mut g = G::new(n);
                base.iter().enumerate().for_each(|(a, l)| l.iter().for_each(|&b| g.link(a, b)));
                s.into_iter().for_each(|b| g.mutual(n - 1, b));
                (g, p)
            })
            .collect();
        compare_distributions(&dist, &want, true)?;
        c.count("scale_free_last_nodes_with_exact_probabilities", 1);
    }
    for g in dist.keys() {
        c.outcome(g);
    }
    Ok(())
}
pub fn lattice(n: usize, k: usize) -> G {
    let mut g = G::new(n);
    for i in 0..n {
        for d in 1..=k / 2 {
            g.mutual(i, (i + d) % n);
        }
    }
    g
}
/// links are looked at node by node (or lap by lap); each one that is to be rewired goes to any of the nodes that
/// are not linked to yet, each equally likely
fn ws_ref(n: usize, k: usize, beta: f64, laps: bool) -> BTreeMap<G, f64> {
    fn rewire(g: &G, i: usize, js: &[usize], p: f64, out: &mut BTreeMap<G, f64>) {
        let Some((&j, rest)) = js.split_first() else {
            *out.entry(g.clone()).or_insert(0.) += p;
            return;
        };
        let free: Vec<usize> = (0..g.n()).filter(|&x| x != i && !g.0[i].contains(&x)).collect();
        if free.is_empty() {
            return rewire(g, i, rest, p, out);
        }
        for &x in &free {
            let mut h = g.clone();
            h.0[i].remove(&j);
            h.0[j].remove(&i);
            h.mutual(i, x);
            rewire(&h, i, rest, p / free.len() as f64, out);
        }
    }
    let mut cur: BTreeMap<G, f64> = BTreeMap::new();
    cur.insert(lattice(n, k), 1.);
    let groups: Vec<(usize, Vec<usize>)> = if laps { (1..=k / 2).flat_map(|d| (0..n).map(move |i| (i, vec![(i + d) % n]))).collect() } else { (0..n).map(|i| (i, (1..=k / 2).map(|d| (i + d) % n).collect())).collect() };
    for (i, js) in groups {
        let mut next = BTreeMap::new();
        for (g, p) in &cur {
            let there: Vec<usize> = js.iter().copied().filter(|j| g.0[i].contains(j)).collect();
            for m in 0..1usize << there.len() {
                let chosen: Vec<usize> = (0..there.len()).filter(|b| m >> b & 1 == 1).map(|b| there[b]).collect();
                let q = beta.powi(chosen.len() as i32) * (1. - beta).powi((there.len() - chosen.len()) as i32);
                if q > 0. {
                    rewire(g, i, &chosen, p * q, &mut next);
                }
            }
        }
        cur = next;
    }
    cur
}
fn c24_ws(n: usize, k: usize, beta: f64, c: &mut Ctx) -> R {
    let lat = lattice(n, k);
    let mut dist: BTreeMap<G, f64> = BTreeMap::new();
    // with exactly one link rewired: lattice - {i,j} + {i,x}, x any node not linked to i
    let mut single_want: BTreeMap<G, f64> = BTreeMap::new();
    for i in 0..n {
        for d in 1..=k / 2 {
            let j = (i + d) % n;
            let free: Vec<usize> = (0..n).filter(|&x| x != i && !lat.0[i].contains(&x)).collect();
            if free.is_empty() {
                *single_want.entry(lat.clone()).or_insert(0.) += 1.;
            }
            for &x in &free {
                let mut g = lat.clone();
                g.0[i].remove(&j);
                g.0[j].remove(&i);
                g.mutual(i, x);
                *single_want.entry(g).or_insert(0.) += 1. / free.len() as f64;
            }
        }
    }
    let mut single: BTreeMap<G, f64> = BTreeMap::new();
    let mut all: BTreeSet<G> = BTreeSet::new();
    let mut coins_seen = BTreeSet::new();
    let st = dfs(CAP, |ch| -> R {
        let g = model(&Graph::new_random_small_world(n, k, beta))?;
        ensure(g.n() == n, || format!("{} nodes, should be {}", g.n(), n))?;
        simple_undirected(&g)?;
        ensure(g.edges() == n * k, || format!("{} links, should be {}: {:?}", g.edges() / 2, n * k / 2, g.lists()))?;
        let tr = ch.0.borrow();
        let coins: Vec<u64> = tr.taken.iter().filter(|t| t.2 == Kind::Coin).map(|t| t.0).collect();
        let heads = coins.iter().sum::<u64>() as usize;
        coins_seen.insert(coins.len());
        if beta == 0. || (beta < 1. && heads == 0 && tr.taken.iter().all(|t| t.2 == Kind::Coin)) {
            ensure(g == lat, || format!("nothing was rewired, but it is not the ring lattice: {:?}", g.lists()))?;
        }
        let missing = (0..n).map(|a| lat.0[a].difference(&g.0[a]).count()).sum::<usize>() / 2;
        let raw = tr.taken.iter().any(|t| t.2 == Kind::Raw);
        ensure(beta == 1. || raw || missing <= heads, || format!("{} links were rewired at {} coins: {:?}", missing, heads, g.lists()))?;
        if heads == 1 && beta < 1. {
            let p: f64 = tr.taken.iter().filter(|t| t.2 == Kind::Int).map(|t| 1. / t.1 as f64).product();
            *single.entry(g.clone()).or_insert(0.) += p;
        }
        if beta == 0.5 || beta == 1. {
            let p: f64 = tr.taken.iter().map(|t| if t.2 == Kind::Coin { 0.5 } else { 1. / t.1 as f64 }).product();
            *dist.entry(g.clone()).or_insert(0.) += p;
        }
        if all.len() < 50_000 {
            all.insert(g);
        }
        Ok(())
    })
    .map_err(|(ch, e)| format!("{}\nrandom choices {:?}", e, ch))?;
    c.traces += st.executions;
    c.states += st.choice_points.max(1);
    c.ops(st.executions);
    if beta > 0. && beta < 1. && !st.raw && k > 0 && n > 0 {
        compare_distributions(&single, &single_want, true).map_err(|e| format!("with exactly one link rewired: {}", e))?;
    }
    if (beta == 0.5 || beta == 1.) && !st.raw && n > 0 {
        compare_distributions(&dist, &ws_ref(n, k, beta, false), true).or_else(|e| compare_distributions(&dist, &ws_ref(n, k, beta, true), true).map_err(|_| e))?;
    }
    c.sample(|| format!("small world n={} k={} beta={}: {} executions, {} different graphs", n, k, beta, st.executions, all.len()));
    for g in &all {
        c.outcome(g);
    }
    Ok(())
}
/// every choice of the one link that is rewired, with selected choices for its new end
fn c24_ws_single(n: usize, k: usize, how: u64, c: &mut Ctx) -> R {
    use std::cell::Cell;
    let lat = lattice(n, k);
    let links = n * k / 2;
    let mut gone = BTreeSet::new();
    // the last two rounds: no link, all links
    for at in 0..links + 2 {
        let coins = Rc::new(Cell::new(0usize));
        let raw = Rc::new(Cell::new(false));
        let (k1, k2) = (coins.clone(), raw.clone());
        rand::mc::install(Box::new(move |m, kind| match kind {
            Kind::Coin => {
                let x = k1.get();
                k1.set(x + 1);
                (x == at || at == links + 1) as u64
            }
            Kind::Int => match how {
                0 => 0,
                1 => m - 1,
                _ => m / 2,
            },
            Kind::Raw => {
                k2.set(true);
                0
            }
        }));
        let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Graph::new_random_small_world(n, k, 0.5)));
        rand::mc::uninstall();
        let g = model(&g.map_err(|_| format!("crashed with coin {} of {}", at, links))?)?;
        c.states += 1;
        c.traces += 1;
        c.ops(1);
        if raw.get() {
            c.count("small_world_drawn_in_another_way", 1);
            return Ok(());
        }
        ensure(g.n() == n && g.edges() == n * k, || format!("{} nodes and {} links, should be {} and {}", g.n(), g.edges() / 2, n, links))?;
        simple_undirected(&g)?;
        let missing: Vec<(usize, usize)> = (0..n).flat_map(|a| lat.0[a].difference(&g.0[a]).map(move |&b| (a, b)).filter(|x| x.0 < x.1).collect::<Vec<_>>()).collect();
        if at < links {
            let full = lat.0[0].len() == n - 1;
            ensure(missing.len() == usize::from(!full), || format!("coin {} of {} says one link is to be rewired, but these links are gone: {:?}", at, links, missing))?;
            ensure(full || gone.insert(missing[0]), || format!("link {:?} is rewired at two different coins (now {})", missing[0], at))?;
            if let Some(&(a, b)) = missing.first() {
                let new: Vec<usize> = (0..n).filter(|&x| !lat.0[x].is_superset(&g.0[x])).collect();
                ensure(new.len() == 2 && (new.contains(&a) || new.contains(&b)), || format!("link {:?} was rewired, but nodes {:?} have new links", (a, b), new))?;
            }
        } else if at == links {
            ensure(g == lat, || "nothing is to be rewired, but it is not the ring lattice".to_string())?;
        }
        if at % 97 == 0 {
            c.outcome(&g);
        }
    }
    c.sample(|| format!("small world n={} k={}: each of {} links rewired", n, k, links));
    Ok(())
}
fn c24_shuffle(g: &G, c: &mut Ctx) -> R {
    let n = g.n();
    let mut dist: BTreeMap<G, f64> = BTreeMap::new();
    let st = dfs(CAP, |ch| -> R {
        let h = model(&g.graph().shuffled())?;
        ensure(h.n() == n, || format!("{} nodes, should be {}", h.n(), n))?;
        *dist.entry(h).or_insert(0.) += trail_probability(ch);
        Ok(())
    })
    .map_err(|(ch, e)| format!("{}\nrandom choices {:?}", e, ch))?;
    c.traces += st.executions;
    c.states += st.choice_points.max(1);
    c.ops(st.executions);
    let ps = perms(n);
    let mut want: BTreeMap<G, f64> = BTreeMap::new();
    for p in &ps {
        *want.entry(g.relabelled(p)).or_insert(0.) += 1. / ps.len() as f64;
    }
    compare_distributions(&dist, &want, !st.raw).map_err(|e| format!("shuffling {:?}: {}", g.lists(), e))?;
    c.outcome(&dist.keys().collect::<Vec<_>>());
    Ok(())
}
#[derive(Clone, Debug)]
enum GCase {
    Ba(usize, usize, usize),
    BaLast(usize, usize, usize, u64),
    Ws(usize, usize, f64),
    WsSingle(usize, usize, u64),
    Mesh(usize),
    Tiers(Vec<usize>),
    Shuffle(G),
    ShuffleLarge(G),
}
fn c24_case(g: &GCase, c: &mut Ctx) -> R {
    match g {
        GCase::Ba(n, m0, m) => c24_ba(*n, *m0, *m, c),
        GCase::BaLast(n, m0, m, how) => c24_ba_last(*n, *m0, *m, *how, c),
        GCase::Ws(n, k, b) => c24_ws(*n, *k, *b, c),
        GCase::WsSingle(n, k, how) => c24_ws_single(*n, *k, *how, c),
        GCase::Mesh(n) => {
            let m = model(&Graph::new_full_mesh(*n))?;
            let mut w = G::new(*n);
            for a in 0..*n {
                for b in 0..*n {
                    if a != b {
                        w.link(a, b);
                    }
                }
            }
            c.states += 1;
            c.traces += 1;
            c.ops(1);
            c.outcome(&m);
            ensure(m == w, || format!("full mesh of {}: {:?}", n, m.lists()))
        }
        GCase::Tiers(s) => {
            let m = model(&Graph::new_tiered_full_mesh(s))?;
            c.states += 1;
            c.traces += 1;
            c.ops(1);
            c.outcome(&m);
            ensure(m == tiers(s), || format!("tiers {:?}: {:?}, should be {:?}", s, m.lists(), tiers(s).lists()))
        }
        GCase::Shuffle(g) => c24_shuffle(g, c),
        GCase::ShuffleLarge(g) => {
            // a graph without symmetries shows the relabelling: compare up to relabelling by degree sequences of links
            for last in 0..4u64 {
                rand::mc::install(Box::new(move |k, _| match last {
                    0 => 0,
                    1 => k - 1,
                    2 => k / 2,
                    _ => k / 3,
                }));
                let h = g.graph().shuffled();
                rand::mc::uninstall();
                let h = model(&h)?;
                let sig = |g: &G| {
                    let ind = |a: usize| (0..g.n()).filter(|&b| g.0[b].contains(&a)).count();
                    let mut v: Vec<(usize, usize, Vec<(usize, usize)>)> = (0..g.n())
                        .map(|a| {
                            let mut nb: Vec<(usize, usize)> = g.0[a].iter().map(|&b| (g.0[b].len(), ind(b))).collect();
                            nb.sort_unstable();
                            (g.0[a].len(), ind(a), nb)
                        })
                        .collect();
                    v.sort();
                    v
                };
                c.states += 1;
                c.traces += 1;
                c.ops(1);
                c.outcome(&h);
                ensure(sig(&h) == sig(g), || format!("the shuffled graph is not a relabelling: {:?} of {:?}", h.lists(), g.lists()))?;
            }
            Ok(())
        }
    }
}
fn c24_family(name: &str, cs: Vec<GCase>) -> Family {
    let cs = Arc::new(cs);
    let c2 = cs.clone();
    Family::new(
        name,
        cs.len() as u64,
        move |i, c| res(|| format!("{:?}", cs[i as usize]), c24_case(&cs[i as usize], c)),
        move |i| format!("{:?}", c2[i as usize]),
    )
}
fn c24(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let mut cs = vec![];
    for n in 1..=6usize {
        for m0 in 1..=n {
            for m in 1..=m0 {
                // executions: product of falling sums of degrees
                let mut cost = 1f64;
                let mut deg = m0 * (m0 - 1);
                for _ in m0..n {
                    for _ in 0..m {
                        cost *= deg.max(1) as f64;
                    }
                    deg += 2 * m;
                }
                if cost < t.pick(1e5, 2e7) {
                    cs.push(GCase::Ba(n, m0, m));
                }
            }
        }
    }
    v.push(c24_family("scale-free graphs, every random outcome", cs));
    let mut cs = vec![];
    for n in 3..=t.pick(12usize, 24) {
        for m0 in 2..n {
            for m in 1..=m0 {
                let deg = (m0 * (m0 - 1) + 2 * m * (n - m0 - 1)) as f64;
                if deg.powi(m as i32) < t.pick(2e4, 1.2e5) || (n <= 7 && m == 4 && deg.powi(m as i32) < 4e5) {
                    for how in 0..4 {
                        cs.push(GCase::BaLast(n, m0, m, how));
                    }
                }
            }
        }
    }
    // hubs of many links
    for n in t.pick(vec![30usize, 60, 130, 300], vec![30, 60, 130, 200, 300, 520]) {
        for m0 in [2usize, 3] {
            for how in 0..4 {
                cs.push(GCase::BaLast(n, m0, 1, how));
                if n <= 60 {
                    cs.push(GCase::BaLast(n / 2, m0, 2, how));
                }
            }
        }
    }
    v.push(c24_family("scale-free graphs, every choice for the last node", cs));
    let mut cs = vec![];
    for n in 0..=9usize {
        for k in [0usize, 2, 4, 6, 8] {
            if k >= n && !(n == 0 && k == 0) {
                continue;
            }
            cs.push(GCase::Ws(n, k, 0.0));
            let free = n.saturating_sub(1 + k);
            let cost = (1f64 + free as f64).max(2.).powi((n * k / 2) as i32);
            if cost < t.pick(3e5, 2e6) {
                cs.push(GCase::Ws(n, k, 0.5));
                cs.push(GCase::Ws(n, k, 1.0));
            } else if (free as f64).max(1.).powi((n * k / 2) as i32) < t.pick(3e5, 2e6) {
                cs.push(GCase::Ws(n, k, 1.0));
            }
        }
    }
    for (n, k) in [(20, 4), (33, 6), (64, 10), (65, 2), (100, 8), (12, 10), (13, 12)] {
        cs.push(GCase::Ws(n, k, 0.0));
    }
    v.push(c24_family("small-world graphs, every random outcome", cs));
    let mut cs = vec![];
    for (n, k) in t.pick(vec![(12, 4), (20, 10), (33, 32), (40, 30), (70, 4), (80, 60), (130, 2), (300, 2)], vec![(12, 4), (20, 10), (33, 32), (40, 30), (66, 64), (70, 4), (80, 60), (130, 2), (140, 70), (300, 2), (300, 10), (600, 2)]) {
        for how in 0..3 {
            cs.push(GCase::WsSingle(n, k, how));
        }
    }
    v.push(c24_family("small-world graphs, each link rewired", cs));
    let mut cs: Vec<GCase> = (0..=12).chain([31, 32, 33, 64, 65]).map(GCase::Mesh).collect();
    for len in 0..=4u32 {
        for i in 0..4usize.pow(len) {
            cs.push(GCase::Tiers((0..len).map(|k| i / 4usize.pow(k) % 4).collect()));
        }
    }
    v.push(c24_family("full-mesh and tiered graphs", cs));
    let mut cs = vec![];
    for n in 0..=3usize {
        for i in 0..1u64 << (n * n) {
            cs.push(GCase::Shuffle(G::directed(n, i)));
        }
    }
    for i in 0..1u64 << 12 {
        if t == Tier::Thorough || i % 3 == 0 {
            cs.push(GCase::Shuffle(G::directed(4, i)));
        }
    }
    for i in 0..1u64 << 10 {
        if t == Tier::Thorough || i % 7 == 0 {
            cs.push(GCase::Shuffle(G::undir(5, i)));
        }
    }
    for g in structured() {
        if g.n() <= 6 {
            cs.push(GCase::Shuffle(g.clone()));
        }
        cs.push(GCase::ShuffleLarge(g));
    }
    v.push(c24_family("shuffling, every relabelling", cs));
    v
}

// ---------------------------------------------------------------- C25
pub fn read_model(lines: &[(usize, usize, i32)]) -> G {
    let n = lines.iter().map(|l| l.0.max(l.1) + 1).max().unwrap_or(0);
    let mut g = G::new(n);
    for &(a, b, t) in lines {
        g.link(b, a);
        if t == 0 {
            g.link(a, b);
        }
    }
    g
}
pub fn c25_text(lines: &[(usize, usize, i32)], style: usize) -> String {
    let mut s = String::new();
    let nl = if style == 2 { "\r\n" } else { "\n" };
    if style == 1 || style == 2 {
        s += "# a comment|1|2";
        s += nl;
    }
    for (i, (a, b, t)) in lines.iter().enumerate() {
        if style == 1 && i == 1 {
            s += "\n#\n# 7|9|0\n\n";
        }
        s += &format!("{}|{}|{}", a, b, t);
        if !(style == 3 && i + 1 == lines.len()) {
            s += nl;
        }
    }
    if style == 1 {
        s += "\n\n#";
    }
    s
}
pub fn bz(data: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::Default);
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
fn c25_read(lines: &[(usize, usize, i32)], styles: &[usize], files: bool, c: &mut Ctx) -> R {
    let want = read_model(lines);
    for &st in styles {
        let text = c25_text(lines, st);
        let g = model(&Graph::from_as_rel_string(&text))?;
        c.ops(1);
        ensure(g == want, || format!("{:?} was read as {:?}, should be {:?}", text, g.lists(), want.lists()))?;
        if files {
            let f = Scratch::with(".txt", text.as_bytes());
            let b = Scratch::with(".bz2", &bz(text.as_bytes()));
            // as written by tools that compress in parts
            let half = text.find('\n').map(|k| k + 1).unwrap_or(0);
            let parts = Scratch::with(".parts.bz2", &[bz(text[..half].as_bytes()), bz(b""), bz(text[half..].as_bytes())].concat());
            for p in [&f, &b, &parts] {
                let g = model(&Graph::from_as_rel_file(&p.0))?;
                c.ops(1);
                ensure(g == want, || format!("file with {:?} was read as {:?}, should be {:?}", text, g.lists(), want.lists()))?;
            }
        }
    }
    c.states += 1;
    c.traces += 1;
    c.outcome(&want);
    Ok(())
}
fn c25(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // every list of up to 3 (4) lines over 3 nodes
    let alpha: Vec<(usize, usize, i32)> = (0..3).flat_map(|a| (0..3).flat_map(move |b| [(a, b, 0), (a, b, -1)])).collect();
    let alpha = Arc::new(alpha);
    for (len, name) in [(0u32, "no lines"), (1, "1 line"), (2, "2 lines"), (3, "3 lines"), (4, "4 lines")] {
        let al = alpha.clone();
        let al2 = alpha.clone();
        let lines = move |al: &Vec<(usize, usize, i32)>, i: u64| -> Vec<(usize, usize, i32)> { (0..len).map(|k| al[(i / 18u64.pow(k) % 18) as usize]).collect() };
        let l2 = lines.clone();
        v.push(Family::new(
            format!("reading: {} over 3 nodes", name),
            18u64.pow(len),
            move |i, c| {
                let l = lines(&al, i);
                res(|| format!("{:?}", l), c25_read(&l, &[0, 1, 2, 3], len <= 1 || (len == 2 && i % 3 == 0), c))
            },
            move |i| format!("{:?}", l2(&al2, i)),
        ));
    }
    // larger identifiers, sparse
    let ids = [0usize, 1, 9, 10, 63, 64, 100, 1000];
    let mut ls = vec![];
    for &a in &ids {
        for &b in &ids {
            for ty in [0, -1] {
                ls.push(vec![(a, b, ty)]);
                ls.push(vec![(a, b, ty), (b, a, -1)]);
                ls.push(vec![(3, 2, ty), (a, b, -1), (b, 3, 0)]);
            }
        }
    }
    let ls = Arc::new(ls);
    let l2 = ls.clone();
    v.push(Family::new(
        "reading: larger identifiers",
        ls.len() as u64,
        move |i, c| res(|| format!("{:?}", ls[i as usize]), c25_read(&ls[i as usize], &[0, 2], false, c)),
        move |i| format!("{:?}", l2[i as usize]),
    ));
    // whatever the file is called
    let names = ["g", "g.txt", "g.bz2", "20200101.as-rel2.txt.bz2", "20200101.as-rel2.txt", "g.json", "g.BZ2", ".txt", "g.", "a b", "é.txt.gz", "bz2"];
    v.push(Family::new(
        "reading: file names and forms",
        names.len() as u64 * 4,
        move |i, c| {
            let (nm, packed, longer) = (names[i as usize / 4], i % 2 == 1, i / 2 % 2 == 1);
            let mut ls = vec![(0usize, 1usize, 0i32), (1, 2, -1), (2, 0, -1)];
            if longer {
                ls = (0..300).map(|k| (k, (k * 7 + 1) % 300, if k % 3 == 0 { 0 } else { -1 })).filter(|l| l.0 != l.1).collect();
            }
            let text = c25_text(&ls, 1);
            let d = Scratch::new(".d");
            std::fs::create_dir(&d.0).unwrap();
            let p = d.0.join(nm);
            std::fs::write(&p, if packed { bz(text.as_bytes()) } else { text.clone().into_bytes() }).unwrap();
            let r = model(&Graph::from_as_rel_file(&p));
            std::fs::remove_file(&p).unwrap();
            std::fs::remove_dir(&d.0).unwrap();
            c.states += 1;
            c.traces += 1;
            c.op();
            let want = read_model(&ls);
            c.outcome(&(nm, packed, longer));
            let r = r.and_then(|g| ensure(g == want, || format!("read as {:?}", g.lists())));
            res(|| format!("{} {} {}", nm, packed, longer), r.map_err(|e| format!("a {} file called {:?}: {}", if packed { "bzip2" } else { "plain" }, nm, e)))
        },
        move |i| format!("{:?} form {}", names[i as usize / 4], i % 4),
    ));
    // links in every order
    for n in 2..=4usize {
        let len = 1u64 << (n * (n - 1) / 2);
        v.push(Family::new(
            format!("writing: undirected graphs of {} nodes, neighbours in every order", n),
            len,
            move |i, c| {
                let g = G::undir(n, i);
                if g.0[n - 1].is_empty() {
                    return Ok(());
                }
                let ls = g.lists();
                let ps: Vec<Vec<Vec<usize>>> = ls.iter().map(|l| perms(l.len()).into_iter().map(|p| p.into_iter().map(|k| l[k]).collect()).collect()).collect();
                let total: usize = ps.iter().map(|p| p.len()).product();
                for k in 0..total {
                    let mut x = k;
                    let o: Vec<Vec<usize>> = ps
                        .iter()
                        .map(|p| {
                            let r = p[x % p.len()].clone();
                            x /= p.len();
                            r
                        })
                        .collect();
                    let gr = Graph::new(o.clone());
                    c.states += 1;
                    c.traces += 1;
                    c.ops(2);
                    let s = Graph::to_as_rel_string(&gr, None).map_err(|e| e.to_string());
                    let r = s.and_then(|s| {
                        let back = model(&Graph::from_as_rel_string(&s))?;
                        ensure(back == g, || format!("{:?} was written as {:?} and read back as {:?}", o, s, back.lists()))
                    });
                    res(|| format!("{:?}", o), r)?;
                }
                c.outcome(&g);
                Ok(())
            },
            move |i| format!("{:?}", G::undir(n, i).lists()),
        ));
    }
    // round trips
    for n in 0..=t.pick(5usize, 6) {
        let len = 1u64 << (n * n.saturating_sub(1) / 2);
        v.push(Family::new(
            format!("writing: undirected graphs of {} nodes", n),
            len,
            move |i, c| {
                let g = G::undir(n, i);
                if n > 0 && g.0[n - 1].is_empty() {
                    return Ok(());
                }
                let gr = g.graph();
                c.states += 1;
                c.traces += 1;
                let r = (|| -> R {
                    for (k, head) in [None, Some("a header"), Some(""), Some("1|2|0")].iter().enumerate() {
                        let s = Graph::to_as_rel_string(&gr, *head).map_err(|e| e.to_string())?;
                        c.ops(2);
                        let back = model(&Graph::from_as_rel_string(&s))?;
                        ensure(back == g, || format!("{:?} was written as {:?} and read back as {:?}", g.lists(), s, back.lists()))?;
                        let lines: Vec<&str> = s.lines().collect();
                        if let Some(h) = head {
                            ensure(lines.first().map_or(false, |l| l.starts_with('#') && l.contains(h)), || format!("no header comment in {:?}", s))?;
                        }
                        let links = lines.iter().filter(|l| !l.starts_with('#') && !l.is_empty()).count();
                        ensure(links == g.edges() / 2, || format!("{} links are written as {} lines: {:?}", g.edges() / 2, links, s))?;
                        if n <= 4 || (i % 16 == 3 && k < 2) {
                            let f = Scratch::new(".bz2");
                            Graph::to_as_rel_file(&gr, &f.0, *head).map_err(|e| e.to_string())?;
                            let back = model(&Graph::from_as_rel_file(&f.0))?;
                            c.ops(2);
                            ensure(back == g, || format!("{:?} was written to a file and read back as {:?}", g.lists(), back.lists()))?;
                        }
                    }
                    Ok(())
                })();
                c.outcome(&g);
                res(|| format!("{:?}", g.lists()), r)
            },
            move |i| format!("{:?}", G::undir(n, i).lists()),
        ));
    }
    // large graphs (compressed blocks, long files)
    let sizes = [10usize, 64, 65, 200, 700, 9_000, 120_000];
    v.push(Family::new(
        "writing: larger graphs",
        sizes.len() as u64 * 3,
        move |i, c| {
            let n = sizes[i as usize / 3];
            let mut g = G::new(n);
            match i % 3 {
                0 => (0..n).for_each(|a| g.mutual(a, (a + 1) % n)),
                1 => (1..n).for_each(|a| g.mutual(0, a)),
                _ => (0..n.min(200)).for_each(|a| (0..a).for_each(|b| g.mutual(n - 1 - a, n - 1 - b))),
            }
            let gr = g.graph();
            let r = (|| -> R {
                let s = Graph::to_as_rel_string(&gr, Some("x")).map_err(|e| e.to_string())?;
                ensure(model(&Graph::from_as_rel_string(&s))? == g, || "string round trip changes the graph".into())?;
                let f = Scratch::new(".bz2");
                Graph::to_as_rel_file(&gr, &f.0, None).map_err(|e| e.to_string())?;
                ensure(model(&Graph::from_as_rel_file(&f.0))? == g, || "file round trip changes the graph".into())?;
                // overwriting a longer file leaves nothing of it
                Graph::to_as_rel_file(&Graph::new(vec![vec![1], vec![0]]), &f.0, None).map_err(|e| e.to_string())?;
                let small = model(&Graph::from_as_rel_file(&f.0))?;
                ensure(small.lists() == vec![vec![1], vec![0]], || "an overwritten file still holds the old graph".into())
            })();
            c.states += 1;
            c.traces += 1;
            c.ops(5);
            c.outcome(&g);
            c.sample(|| format!("graph of {} nodes and {} links, written and read back", n, g.edges() / 2));
            res(|| format!("large {}", i), r)
        },
        move |i| format!("graph {} of {} nodes", i % 3, sizes[i as usize / 3]),
    ));
    v
}

// ---------------------------------------------------------------- C26
/// possible results of damping-free page rank with the documented tolerance (several if the stopping test is a close call)
fn ranks(g: &G) -> Vec<Vec<f64>> {
    let n = g.n();
    if n == 0 {
        return vec![vec![]];
    }
    let start = 1. / n as f64;
    let eps = (start / n as f64).max(0.00001);
    let mut s = vec![start; n];
    let mut out = vec![];
    for _ in 0..(2 * n).max(1000) {
        let mut t = vec![0f64; n];
        for a in (0..n).rev() {
            for &b in g.0[a].iter().rev() {
                t[b] += s[a] / g.0[a].len() as f64;
            }
        }
        let d = (0..n).map(|i| (t[i] - s[i]).abs()).fold(0f64, f64::max);
        s = t;
        if d < eps + 1e-9 {
            out.push(s.clone());
        }
        if d < eps - 1e-9 {
            return out;
        }
    }
    out.push(s);
    out
}
fn c26_graph(g: &G, c: &mut Ctx) -> R {
    let gr = g.graph();
    let n = g.n();
    let ind: Vec<usize> = (0..n).map(|a| g.0.iter().filter(|s| s.contains(&a)).count()).collect();
    let outd: Vec<usize> = g.0.iter().map(|s| s.len()).collect();
    ensure(gr.number_of_nodes() == n, || "number of nodes".into())?;
    ensure(gr.get_in_degrees() == ind, || format!("in-degrees {:?}, should be {:?}", gr.get_in_degrees(), ind))?;
    ensure(gr.get_out_degrees() == outd, || format!("out-degrees {:?}, should be {:?}", gr.get_out_degrees(), outd))?;
    let con: BTreeSet<usize> = gr.get_connected_nodes().iter().collect();
    ensure(con == g.connected(), || format!("connected nodes {:?}, should be {:?}", con, g.connected()))?;
    ensure(gr.is_undirected() == g.undirected(), || format!("is_undirected says {}", gr.is_undirected()))?;
    let got = gr.get_rank_scores();
    let want = ranks(g);
    let close = |a: &Vec<f64>| a.len() == got.len() && a.iter().zip(&got).all(|(x, y)| (x - y).abs() < 1e-7);
    ensure(want.iter().any(close), || format!("rank scores {:?}, should be {:?}", got, want))?;
    ensure(Graph::new(g.lists()) == gr && model(&gr)? == *g, || "equality".into())?;
    // the same links, listed in other orders
    for k in 0..2 {
        let other = Graph::new(
            g.lists()
                .into_iter()
                .enumerate()
                .map(|(a, mut l)| {
                    if k == 0 {
                        l.reverse();
                    } else if !l.is_empty() {
                        let r = (a + 1 + l.len() / 2) % l.len();
                        l.rotate_left(r);
                    }
                    l
                })
                .collect(),
        );
        ensure(other.get_in_degrees() == ind && other.get_out_degrees() == outd, || "degrees, with the links in another order".into())?;
        ensure(other.get_connected_nodes() == gr.get_connected_nodes(), || format!("connected nodes, with the links in another order: {:?}", other.get_connected_nodes()))?;
        ensure(other.is_undirected() == g.undirected(), || format!("is_undirected says {} with the links in another order", other.is_undirected()))?;
        c.ops(4);
    }
    c.states += 1;
    c.traces += 1;
    c.ops(7);
    c.outcome(&got.iter().map(|x| (x * 1e6).round() as i64).collect::<Vec<_>>());
    c.sample(|| format!("{:?}: in {:?} out {:?} rank {:?}", g.lists(), ind, outd, got));
    Ok(())
}
fn c26(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let fam = |name: String, len: u64, f: Arc<dyn Fn(u64) -> G + Send + Sync>| {
        let g = f.clone();
        Family::new(name, len, move |i, c| res(|| format!("{:?}", f(i).lists()), c26_graph(&f(i), c)), move |i| format!("{:?}", g(i).lists()))
    };
    for n in 0..=3usize {
        v.push(fam(format!("every directed graph of {} nodes", n), 1 << (n * n), Arc::new(move |i| G::directed(n, i))));
    }
    v.push(fam("every directed graph of 4 nodes".into(), 1 << 16, Arc::new(move |i| G::directed(4, i))));
    v.push(fam("every undirected graph of 5 nodes".into(), 1 << 10, Arc::new(move |i| G::undir(5, i))));
    v.push(fam("every undirected graph of 6 nodes".into(), 1 << 15, Arc::new(move |i| G::undir(6, i))));
    let step = t.pick(101, 3);
    v.push(fam("directed graphs of 5 nodes".into(), (1 << 25) / step, Arc::new(move |i| G::directed(5, i * step + i % step))));
    let st = Arc::new(structured());
    let k = st.len() as u64;
    // each structured graph under renumberings
    v.push(fam(
        "structured graphs, renumbered".into(),
        k * 12,
        Arc::new(move |i| {
            let g = &st[(i % k) as usize];
            let n = g.n();
            let r = (i / k) as usize;
            let p: Vec<usize> = (0..n).map(|x| if r < 6 { (x + r) % n } else { (n - 1 - x + r) % n }).collect();
            g.relabelled(&p)
        }),
    ));
    // stars, combs and layers of many links per node, in one direction, in both, or all but one of them in both
    v.push(fam(
        "nodes with many links".into(),
        10 * 4 * 3,
        Arc::new(move |i| {
            let k = [3usize, 7, 8, 9, 15, 16, 17, 31, 33, 65][i as usize / 12];
            let mut g = match i / 3 % 4 {
                0 => {
                    let mut g = G::new(k + 1);
                    (1..=k).for_each(|a| g.link(0, a));
                    g
                }
                1 => {
                    let mut g = G::new(k + 3);
                    (0..=k).for_each(|a| g.link(k + 1, a));
                    g
                }
                2 => {
                    // everyone in the first half, to everyone in the second
                    let mut g = G::new(2 * k.min(20) + 1);
                    let h = k.min(20);
                    (0..h).for_each(|a| (h..2 * h).for_each(|b| g.link(a, b)));
                    g
                }
                _ => {
                    let mut g = G::new(k + 2);
                    (0..k).for_each(|a| (0..a).for_each(|b| g.link(a, b)));
                    g
                }
            };
            if i % 3 > 0 {
                let links: Vec<(usize, usize)> = g.0.iter().enumerate().flat_map(|(a, s)| s.iter().map(move |&b| (a, b))).collect();
                for (j, &(a, b)) in links.iter().enumerate() {
                    if i % 3 == 1 || j != links.len() / 2 {
                        g.link(b, a);
                    }
                }
            }
            g
        }),
    ));
    // so many nodes that their numbers don't fit into a byte, or two
    v.push(Family::new(
        "very large graphs",
        4 * 3,
        move |i, c| {
            let n = [300usize, 5_000, 33_000, 66_000][i as usize / 3];
            // a ring in one direction; a tree in both, some of it in one only; groups of two and loners
            let lists: Vec<Vec<usize>> = match i % 3 {
                0 => (0..n).map(|a| vec![(a + 1) % n]).collect(),
                1 => (0..n).map(|a| (a > 0).then_some(a.saturating_sub(1) / 3).into_iter().chain((3 * a + 1..3 * a + 4).filter(|b| *b < n && b % 5000 != 4999)).collect()).collect(),
                _ => (0..n).map(|a| if a % 7 == 0 || (a ^ 1) >= n || (a ^ 1) % 7 == 0 { vec![] } else { vec![a ^ 1] }).collect(),
            };
            let undirected = i % 3 == 2 || (i % 3 == 1 && n <= 4999);
            c.states += 1;
            c.traces += 1;
            c.ops(6);
            let r = (|| -> R {
                let g = Graph::new(lists.clone());
                let mut ind = vec![0; n];
                let mut con: BTreeSet<usize> = BTreeSet::new();
                lists.iter().enumerate().for_each(|(a, l)| {
                    l.iter().for_each(|&b| {
                        ind[b] += 1;
                        con.extend([a, b]);
                    })
                });
                ensure(g.number_of_nodes() == n, || format!("{} nodes", g.number_of_nodes()))?;
                ensure(g.get_out_degrees() == lists.iter().map(|l| l.len()).collect::<Vec<_>>(), || "out-degrees".into())?;
                ensure(n > 10_000 || g.get_in_degrees() == ind, || "in-degrees".into())?;
                let got: BTreeSet<usize> = g.get_connected_nodes().iter().collect();
                ensure(got == con, || format!("{} nodes are connected, should be {}; differing: {:?}", got.len(), con.len(), got.symmetric_difference(&con).take(5).collect::<Vec<_>>()))?;
                ensure(g.is_undirected() == undirected, || format!("is_undirected says {}", !undirected))?;
                c.outcome(&(n, con.len()));
                Ok(())
            })();
            res(|| format!("{} nodes, graph {}", n, i % 3), r)
        },
        |i| format!("case {}", i),
    ));
    // larger graphs, so that the tolerance floor and the iteration limit matter
    v.push(fam(
        "larger graphs".into(),
        24,
        Arc::new(move |i| {
            let n = [10usize, 50, 64, 65, 150, 330, 400, 600][i as usize / 3];
            let mut g = G::new(n);
            match i % 3 {
                0 => (1..n).for_each(|a| g.mutual(a, a / 2)),
                1 => (0..n).for_each(|a| {
                    g.mutual(a, (a + 1) % n);
                    g.mutual(a, (a * a + 3) % n);
                    g.0[a].remove(&a);
                }),
                _ => (0..n).for_each(|a| g.link(a, (a + 1) % n)),
            }
            g
        }),
    ));
    v
}

// ---------------------------------------------------------------- C27
fn c27(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let block = 50_000u64;
    v.push(Family::new(
        "67% threshold",
        t.pick(4000, 40000),
        move |i, c| {
            for n in i * block..(i + 1) * block {
                let n = n as usize;
                let got = calculate_67p_threshold(n);
                if n > 0 && got as u64 != t67(n) {
                    return fail(format!("67:{}", n), format!("67% threshold of {} is {}, should be {}", n, got, t67(n)));
                }
                if n == 0 && got > 1 {
                    return fail("67:0", format!("67% threshold of 0 is {}", got));
                }
            }
            c.states += block;
            c.traces += block;
            c.ops(block);
            c.outcome(&i);
            c.sample(|| format!("67% threshold of {}..{}", i * block, (i + 1) * block));
            Ok(())
        },
        move |i| format!("67% threshold of {}..{}", i * block, (i + 1) * block),
    ));
    v.push(Family::new(
        "67% threshold, around powers of two and ten",
        50,
        |e, c| {
            let mut ns: Vec<u64> = vec![];
            for d in 0..400u64 {
                ns.push((1u64 << e) + d);
                ns.push((1u64 << e).saturating_sub(d));
                if e < 16 {
                    ns.push(10u64.pow(e as u32) + d);
                }
                ns.push(3 * (1u64 << e) / 2 + d);
            }
            for n in ns {
                if n == 0 {
                    continue;
                }
                let got = calculate_67p_threshold(n as usize) as u64;
                c.states += 1;
                c.traces += 1;
                c.ops(1);
                c.outcome(&got);
                if got != (2 * n + 3) / 3 {
                    return fail(format!("67:{}", n), format!("67% threshold of {} is {}, should be {}", n, got, (2 * n + 3) / 3));
                }
            }
            Ok(())
        },
        |e| format!("n near 2^{}", e),
    ));
    let mut xs: Vec<f64> = (0..=1000).map(|k| k as f64 / 1000.).collect();
    for d in [3u64, 6, 7, 9] {
        for k in 1..d {
            xs.push(k as f64 / d as f64);
        }
    }
    xs.extend([1.5, 2.0, 1e-9, 1e-300]);
    // next to fractions
    for d in 1..=12u64 {
        for k in 1..=d {
            let x = k as f64 / d as f64;
            xs.extend([f64::from_bits(x.to_bits() - 1), f64::from_bits(x.to_bits() + 1)]);
        }
    }
    let x3: Vec<f64> = xs.iter().copied().step_by(t.pick(19, 3)).chain([0.51, 0.6, 2. / 3., 0.67, 1., 1.5, 2., 5.]).collect();
    v.push(Family::new(
        "relative thresholds of configured nodes",
        x3.len() as u64,
        {
            let x3 = x3.clone();
            move |i, c| {
                let x = x3[i as usize];
                for n in (1..=12usize).chain([33, 65, 100]) {
                    let mut mesh = G::new(n);
                    (0..n).for_each(|a| (0..a).for_each(|b| mesh.mutual(a, b)));
                    let f = |q: Rc<dyn QuorumSetConfigurator>| -> u64 {
                        let mut f = Fbas::new_generic_unconfigured(n);
                        q.configure(n / 2, &mut f);
                        f.get_quorum_set(n / 2).unwrap().threshold as u64
                    };
                    let got = [f(Rc::new(AllNeighborsQsc::new_relative(mesh.graph(), x))), f(Rc::new(HigherTierNeighborsQsc::new_relative(mesh.graph(), x, false))), f(Rc::new(HigherTierNeighborsQsc::new_relative(mesh.graph(), x, true)))];
                    c.ops(3);
                    c.states += 1;
                    c.traces += 1;
                    c.outcome(&got);
                    // a single node has no links, and stays as it is
                    let ok = |t: u64| if n == 1 { t == 0 } else { tx(n, x).contains(&t) };
                    if !got.iter().all(|&t| ok(t)) {
                        return fail(format!("configured:{}:{}", n, x), format!("relative threshold {} of {} nodes yields the thresholds {:?}, should be {:?}", x, n, got, tx(n, x)));
                    }
                }
                Ok(())
            }
        },
        move |i| format!("relative threshold {}", x3[i as usize]),
    ));
    let xs = Arc::new(xs);
    let x2 = xs.clone();
    let maxn = t.pick(10_000usize, 100_000);
    v.push(Family::new(
        "relative thresholds",
        xs.len() as u64,
        move |i, c| {
            let x = xs[i as usize];
            for n in 0..=maxn {
                let got = calculate_x_threshold(n, x) as u64;
                if !tx(n, x).contains(&got) {
                    return fail(format!("x:{}:{}", n, x), format!("relative threshold {} of {} is {}, should be {:?}", x, n, got, tx(n, x)));
                }
                c.outcome(&got);
            }
            c.states += maxn as u64;
            c.traces += maxn as u64;
            c.ops(maxn as u64);
            Ok(())
        },
        move |i| format!("relative threshold {}", x2[i as usize]),
    ));
    let maxi = t.pick(15usize, 18);
    v.push(Family::new(
        "ideal and super-safe configurations under faults",
        2 * maxi as u64,
        move |i, c| {
            let n = i as usize / 2 + 1;
            let ideal = i % 2 == 0;
            let key = format!("{} {}", if ideal { "ideal" } else { "super safe" }, n);
            rand::mc::install(Box::new(|_, _| 0));
            let q: Rc<dyn QuorumSetConfigurator> = if ideal { Rc::new(IdealQsc::new()) } else { Rc::new(SuperSafeQsc::new()) };
            let mut sim = Simulator::new(Fbas::new(), q, Rc::new(DummyMonitor));
            sim.simulate_growth(n);
            rand::mc::uninstall();
            let f = sim.finalize();
            let r = (|| -> R {
                let full = (1u32 << n) - 1;
                let quorum: Vec<bool> = (0..=full).map(|m| f.is_quorum(&bits(m).into_iter().collect())).collect();
                c.ops(quorum.len() as u64);
                let fmax = if ideal { (n - 1) / 3 } else { 0 };
                if !ideal {
                    for m in 0..full {
                        ensure(!quorum[m as usize], || format!("{:?} is a quorum", bits(m)))?;
                    }
                    ensure(quorum[full as usize], || "all nodes together are not a quorum".into())?;
                }
                // crash faults: the remaining nodes still contain a quorum exactly up to f faults
                for m in 0..=full {
                    let faulty = m.count_ones() as usize;
                    let rest = full & !m;
                    let alive = quorum[rest as usize] || {
                        // largest quorum within the rest
                        let mut s = rest;
                        loop {
                            if s == 0 {
                                break false;
                            }
                            if quorum[s as usize] {
                                break true;
                            }
                            s = (s - 1) & rest;
                            if faulty <= fmax {
                                continue;
                            }
                            if s.count_ones() == 0 {
                                break false;
                            }
                        }
                    };
                    c.states += 1;
                    c.traces += 1;
                    ensure(alive == (faulty <= fmax), || format!("with {} crashed nodes {:?} there is {} quorum left, f is {}", faulty, bits(m), if alive { "a" } else { "no" }, fmax))?;
                }
                // Byzantine faults: any two quorums share more than f nodes
                let qs: Vec<u32> = (0..=full).filter(|&m| quorum[m as usize]).collect();
                let small: Vec<u32> = minimal(qs);
                for (k, a) in small.iter().enumerate() {
                    for b in &small[k + 1..] {
                        ensure((a & b).count_ones() as usize > fmax, || format!("quorums {:?} and {:?} may share only faulty nodes", bits(*a), bits(*b)))?;
                    }
                }
                if n <= 10 {
                    let an = Analysis::new(&f);
                    ensure(an.has_quorum_intersection(), || "no quorum intersection".into())?;
                    let bl = an.minimal_blocking_sets();
                    ensure(bl.min() == fmax + 1 && bl.max() == fmax + 1, || format!("blocking sets of {}..{} nodes", bl.min(), bl.max()))?;
                    ensure(an.minimal_quorums().len() == small.len(), || "number of minimal quorums".into())?;
                    let sp = an.minimal_splitting_sets();
                    ensure(sp.len() == 0 || sp.min() > fmax, || format!("splitting sets of {} nodes", sp.min()))?;
                    c.ops(4);
                }
                c.outcome(&(n, ideal, small.len()));
                Ok(())
            })();
            res(|| key, r)
        },
        |i| format!("{} configuration of {} nodes, every set of faulty nodes", if i % 2 == 0 { "ideal" } else { "super-safe" }, i / 2 + 1),
    ));
    v
}

pub fn property(id: &str, t: Tier) -> Option<Property> {
    let a = vec![
        "the copy of rand 0.7 in mc/vendor answers every draw from the explorer; probabilities follow from the sizes of the ranges drawn from",
        "the reference model (sets of links, exact sequential sampling) is right",
    ];
    let (fams, rule): (Vec<Family>, &'static str) = match id {
        "C21" => (c21(t), "Every visit order times every answer sequence of a scripted policy is executed on the real Simulator (depth-first over all draws), and the history of events and configurations is compared with the prescribed one."),
        "C22" => (c22(t), "Every policy on every small graph, under every visit order; every single configuration step is compared with the policy's definition."),
        "C23" => (c23(t), "Every random outcome of RandomQsc for all sizes, weights, thresholds and existing quorum sets in the bounds; outcome sets and their exact probabilities are compared."),
        "C24" => (c24(t), "Every random outcome of the graph generators within the bounds; the distribution over graphs is compared with the exact one."),
        "C25" => (c25(t), "Every short list of relationship lines in several text styles, and every small undirected graph written and read back."),
        "C26" => (c26(t), "Every small directed graph; all metrics compared with their definitions."),
        "C27" => (c27(t), "Thresholds for every n in long ranges, and every set of faulty nodes of every ideal or super-safe configuration up to the bound."),
        _ => return None,
    };
    let id: &'static str = ["C21", "C22", "C23", "C24", "C25", "C26", "C27"].iter().find(|x| **x == id)?;
    Some(Property { id, level: "model_checking", rule, assumptions: a, families: fams, hang_s: 120 })
}
