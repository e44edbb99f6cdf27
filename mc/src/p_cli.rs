//! C28-C33: the command line tools.
use crate::engine::*;
use crate::p_analysis::{ensure, perms, q_json, sym_clusters};
use crate::p_io::{groups_json, norm_name, Groups};
use crate::p_sim::{bz, c25_text, compare_distributions, lattice, read_model, rqs, simple_undirected, structured, t67, tiers, trail_probability, Pol, PolM, G};
use crate::proc::*;
use crate::refm::*;
use crate::universe::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type R = Result<(), String>;

#[path = "p_broken.rs"]
mod broken;

// ---------------------------------------------------------------- documents
/// an FBAS document: the nodes of `f` at the positions `ids` of a file of `total` nodes
#[derive(Clone, Debug)]
pub struct Doc {
    f: RF,
    real: RF,
    ids: Vec<usize>,
    keys: Vec<String>,
    isp: Vec<Option<String>>,
    ctry: Vec<Option<String>>,
    orgs: Option<Groups>,
}
const ISPS: [Option<&str>; 7] = [Some("Alpha, Inc."), Some("Beta"), Some("Alpha Inc"), None, Some("Öl \"x\""), Some("Beta."), None];
const CTRS: [Option<&str>; 5] = [Some("X"), None, Some("Y"), Some("X."), Some("Z,")];
impl Doc {
    pub fn new(f: &RF, l: Layout, variant: usize) -> Doc {
        let (real, ids) = lay_rf(f, l);
        let total = real.n();
        let keys: Vec<String> = (0..total).map(|i| if i % 6 == 5 { format!("k\"é {}", i) } else { format!("n{}", (i + variant) % total) }).collect();
        let pick = |t: &[Option<&str>], i: usize, s: usize| t[(i * s + variant) % t.len()].map(|x| x.to_string());
        let (mut isp, mut ctry): (Vec<Option<String>>, Vec<Option<String>>) = ((0..total).map(|i| pick(&ISPS, i, 1)).collect(), (0..total).map(|i| pick(&CTRS, i, 2)).collect());
        if variant % 5 == 3 {
            isp = vec![None; total];
        }
        if variant % 5 == 4 {
            ctry = vec![None; total];
        }
        let n = ids.len();
        let orgs = match variant % 4 {
            0 if variant % 8 == 4 => Some(vec![]),
            3 if variant % 8 == 7 => Some(vec![("".to_string(), ids.iter().copied().take(2).collect()), (" ".to_string(), ids.iter().copied().skip(2).take(1).collect())]),
            0 => None,
            1 => Some(vec![("Org, A".to_string(), ids.iter().copied().step_by(2).collect()), ("nobody".to_string(), vec![])]),
            2 => Some(vec![("one".to_string(), ids.iter().copied().take(2).collect()), ("two".to_string(), ids.iter().copied().skip(2).take(2).rev().collect())]),
            _ => Some(vec![("all but one".to_string(), ids.iter().copied().take(n.saturating_sub(1)).collect())]),
        };
        Doc { f: f.clone(), real, ids, keys, isp, ctry, orgs }
    }
    pub fn json(&self) -> String {
        let a: Vec<Value> = (0..self.real.n())
            .map(|i| {
                let mut v = json!({"publicKey": self.keys[i], "quorumSet": q_json(&self.real.q[i], &|x| self.keys[x].clone())});
                if let Some(s) = &self.isp[i] {
                    v["isp"] = json!(s);
                }
                if let Some(s) = &self.ctry[i] {
                    v["geoData"] = json!({ "countryName": s });
                }
                v
            })
            .collect();
        Value::Array(a).to_string()
    }
    fn orgs_json(&self, g: &Groups) -> String {
        groups_json(g, &|x| self.keys[x].clone())
    }
    fn by(&self, names: &[Option<String>]) -> Groups {
        let mut m: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for (i, s) in names.iter().enumerate() {
            if let Some(s) = s {
                m.entry(norm_name(s)).or_default().push(i);
            }
        }
        m.into_iter().collect()
    }
    fn isps(&self) -> Groups {
        self.by(&self.isp)
    }
    fn ctrs(&self) -> Groups {
        self.by(&self.ctry)
    }
    /// the nodes of `f` that belong together, each mapped to the first of its group
    fn canon(&self, g: &Groups) -> Vec<usize> {
        (0..self.real.n()).map(|i| g.iter().find(|x| x.1.contains(&i)).map(|x| *x.1.iter().min().unwrap()).unwrap_or(i)).collect()
    }
    /// sets over the nodes of f as sets of file positions, merged
    fn merged(&self, sets: &[u32], g: &Groups) -> Vec<BTreeSet<usize>> {
        let c = self.canon(g);
        min_sets(sets.iter().map(|&m| bits(m).into_iter().map(|k| c[self.ids[k]]).collect()).collect())
    }
    fn plain(&self, sets: &[u32]) -> Vec<BTreeSet<usize>> {
        sets.iter().map(|&m| bits(m).into_iter().map(|k| self.ids[k]).collect()).collect()
    }
}
fn min_sets(mut v: Vec<BTreeSet<usize>>) -> Vec<BTreeSet<usize>> {
    v.sort();
    v.dedup();
    v.sort_by_key(|s| s.len());
    let mut r: Vec<BTreeSet<usize>> = vec![];
    for s in v {
        if !r.iter().any(|x| x.is_subset(&s)) {
            r.push(s);
        }
    }
    r
}
/// #sets, #distinct, min, max, mean, histogram
fn stats(v: &[BTreeSet<usize>]) -> (usize, usize, usize, usize, f64, Vec<usize>) {
    let sizes: Vec<usize> = v.iter().map(|s| s.len()).collect();
    let inv: BTreeSet<usize> = v.iter().flatten().copied().collect();
    let ma = sizes.iter().copied().max().unwrap_or(0);
    let mean = if sizes.is_empty() { 0.0 } else { sizes.iter().sum::<usize>() as f64 / sizes.len() as f64 };
    (v.len(), inv.len(), sizes.iter().copied().min().unwrap_or(0), ma, mean, (0..=ma).map(|k| sizes.iter().filter(|&&x| x == k).count()).collect())
}
/// what the front end reports as splitting sets
fn mss_of(o: &Oracle) -> Vec<u32> {
    if o.qi {
        o.mss.clone()
    } else {
        vec![0]
    }
}

// ---------------------------------------------------------------- C28
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Flags {
    q: bool,
    b: bool,
    s: bool,
    a: bool,
    alt: bool,
    dont: bool,
    d: bool,
    p: bool,
    ro: bool,
    org: bool,
    isp: bool,
    ctry: bool,
    stdin: bool,
    long: bool,
    /// options before or after the path
    before: bool,
}
impl Flags {
    fn of(i: u64) -> Flags {
        let b = |k: u32| i >> k & 1 == 1;
        Flags { q: b(0), b: b(1), s: b(2), a: b(3), alt: b(4), dont: b(5), d: b(6), p: b(7), ro: b(8), org: b(9), isp: b(10), ctry: b(11), stdin: b(12), long: (i / 5 + i) % 2 == 1, before: (i / 3) % 2 == 1 }
    }
    fn args(&self, nodes: &str, orgs: &str) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut short = String::new();
        let mut f = |on: bool, s: &str, l: &str, v: &mut Vec<String>| {
            if on {
                if self.long || s.is_empty() {
                    v.push(l.to_string());
                } else {
                    short.push_str(s);
                }
            }
        };
        f(self.ro, "", "--results-only", &mut v);
        f(self.a, "a", "--all", &mut v);
        f(self.s, "s", "--minimal-splitting-sets", &mut v);
        f(self.b, "b", "--minimal-blocking-sets", &mut v);
        f(self.q, "q", "--minimal-quorums", &mut v);
        f(self.d, "d", "--describe", &mut v);
        f(self.p, "p", "--pretty", &mut v);
        f(self.alt, "", "--alternative-quorum-intersection-check", &mut v);
        f(self.dont, "", "--dont-check-quorum-intersection", &mut v);
        f(self.isp, "", "--merge-by-isp", &mut v);
        f(self.ctry, "", "--merge-by-country", &mut v);
        if self.org {
            v.push(format!("--merge-by-org={}", orgs));
        }
        if !short.is_empty() {
            v.push(format!("-{}", short));
        }
        if !self.stdin {
            if self.before {
                v.push(nodes.into());
            } else {
                v.insert(0, nodes.into());
            }
        }
        v
    }
}
const KEYS: [&str; 9] = ["nodes_total_merged", "nodes_total", "symmetric_clusters", "minimal_quorums", "has_quorum_intersection", "nonintersecting_quorums", "minimal_blocking_sets", "minimal_splitting_sets", "top_tier"];
/// the results printed, in order, the durations, and everything else
struct Parsed {
    results: Vec<(String, Value)>,
    durations: Vec<(String, f64)>,
    rest: Vec<String>,
}
fn parse_out(s: &str) -> Result<Parsed, String> {
    let mut p = Parsed { results: vec![], durations: vec![], rest: vec![] };
    let mut pos = 0;
    while pos < s.len() {
        let line_end = s[pos..].find('\n').map(|k| pos + k).unwrap_or(s.len());
        let line = &s[pos..line_end];
        let mut next = line_end + 1;
        let hit = KEYS.iter().find_map(|k| line.strip_prefix(k).map(|r| (*k, r)));
        match hit {
            Some((k, r)) if r.starts_with(": ") => {
                let start = pos + k.len() + 2;
                let mut it = serde_json::Deserializer::from_str(&s[start..]).into_iter::<Value>();
                let v = it.next().ok_or(format!("no value for {}", k))?.map_err(|e| format!("value of {} is not JSON: {}", k, e))?;
                let end = start + it.byte_offset();
                let eol = s[end..].find('\n').map(|x| end + x).unwrap_or(s.len());
                ensure(s[end..eol].trim().is_empty(), || format!("{} is followed by {:?}", k, &s[end..eol]))?;
                p.results.push((k.to_string(), v));
                next = eol + 1;
            }
            Some((k, r)) if r.starts_with("_analysis_duration: ") => {
                let t = r["_analysis_duration: ".len()..].trim().trim_end_matches('s');
                p.durations.push((k.to_string(), t.parse::<f64>().map_err(|_| format!("duration {:?}", line))?));
            }
            _ => p.rest.push(line.to_string()),
        }
        pos = next;
    }
    Ok(p)
}
struct Shown<'a> {
    doc: &'a Doc,
    groups: Option<&'a Groups>,
    pretty: bool,
    canon: Vec<usize>,
}
impl<'a> Shown<'a> {
    /// the file position an element of the output stands for (the first of the group for merged nodes)
    fn node(&self, v: &Value) -> Result<usize, String> {
        let total = self.doc.real.n();
        if self.pretty {
            let s = v.as_str().ok_or(format!("{} is not a name", v))?;
            if let Some(g) = self.groups {
                if let Some(x) = g.iter().find(|x| x.0 == s && !x.1.is_empty()) {
                    return Ok(*x.1.iter().min().unwrap());
                }
            }
            let i = self.doc.keys.iter().position(|k| k == s).ok_or(format!("unknown name {:?}", s))?;
            ensure(self.canon[i] == i && self.groups.map(|g| !g.iter().any(|x| x.1.contains(&i))).unwrap_or(true), || format!("{:?} is shown instead of the name of its group", s))?;
            Ok(i)
        } else {
            let i = v.as_u64().ok_or(format!("{} is not a node ID", v))? as usize;
            ensure(i < total, || format!("there is no node {}", i))?;
            Ok(self.canon[i])
        }
    }
    fn set(&self, v: &Value) -> Result<BTreeSet<usize>, String> {
        let a = v.as_array().ok_or(format!("{} is not a list", v))?;
        let mut r = BTreeSet::new();
        for x in a {
            ensure(r.insert(self.node(x)?), || format!("{} lists somebody twice", v))?;
        }
        Ok(r)
    }
    fn sets(&self, v: &Value) -> Result<Vec<BTreeSet<usize>>, String> {
        v.as_array().ok_or(format!("{} is not a list", v))?.iter().map(|x| self.set(x)).collect()
    }
}
fn same_sets(what: &str, got: Vec<BTreeSet<usize>>, want: &[BTreeSet<usize>]) -> R {
    ensure(got.windows(2).all(|w| w[0].len() <= w[1].len()), || format!("{} are not ordered by size: {:?}", what, got))?;
    let (mut a, mut b) = (got.clone(), want.to_vec());
    a.sort();
    b.sort();
    ensure(a == b, || format!("{} are {:?}, should be {:?}", what, got, want))
}
fn num_close(v: &Value, x: f64) -> bool {
    v.as_f64().map(|y| (x - y).abs() < 1e-9).unwrap_or(false)
}
fn described(what: &str, v: &Value, want: &[BTreeSet<usize>]) -> R {
    let s = stats(want);
    let ok = v.as_array().map(|a| a.len() == 4 && a[0] == json!(s.0) && a[1] == json!(s.1) && a[2].as_array().map(|m| m.len() == 3 && m[0] == json!(s.2) && m[1] == json!(s.3) && num_close(&m[2], s.4)).unwrap_or(false) && a[3] == json!(s.5)).unwrap_or(false);
    ensure(ok, || format!("{} described as {}, should be {:?}", what, v, s))
}
/// is there a family of pairwise disjoint quorums, one for each predicate?
fn disjoint_quorums(o: &Oracle, ok: &[Box<dyn Fn(u32) -> bool + '_>], used: u32) -> bool {
    match ok.first() {
        None => true,
        Some(p) => (1..=o.full).any(|m| m & used == 0 && o.is_q[m as usize] && p(m) && disjoint_quorums(o, &ok[1..], used | m)),
    }
}
fn c28_check(doc: &Doc, o: &Oracle, fl: &Flags, r: &Run) -> R {
    ensure(r.ok(), || "it does not exit successfully".into())?;
    let p = parse_out(&r.out)?;
    let (isps, ctrs) = (doc.isps(), doc.ctrs());
    let groups: Option<&Groups> = if fl.ctry {
        if fl.stdin {
            None
        } else {
            Some(&ctrs)
        }
    } else if fl.isp {
        if fl.stdin {
            None
        } else {
            Some(&isps)
        }
    } else if fl.org {
        doc.orgs.as_ref()
    } else {
        None
    };
    let total = doc.real.n();
    let sh = Shown { doc, groups, pretty: fl.p, canon: groups.map(|g| doc.canon(g)).unwrap_or((0..total).collect()) };
    let raw = Shown { doc, groups: None, pretty: false, canon: (0..total).collect() };
    let (q, b, s) = (fl.q || fl.a, fl.b || fl.a, fl.s || fl.a);
    // exactly the requested results
    let mut want: Vec<&str> = vec!["nodes_total"];
    if groups.is_some() {
        want.push("nodes_total_merged");
    }
    want.push("symmetric_clusters");
    let mut timed = vec!["symmetric_clusters"];
    let mut t = |on: bool, k: &'static str, want: &mut Vec<&str>| {
        if on {
            want.push(k);
            timed.push(k);
        }
    };
    t(q, "minimal_quorums", &mut want);
    t(!fl.dont, "has_quorum_intersection", &mut want);
    if !fl.dont && fl.alt && o.any_quorum && !o.qi {
        want.push("nonintersecting_quorums");
    }
    t(b, "minimal_blocking_sets", &mut want);
    t(s, "minimal_splitting_sets", &mut want);
    if q || b || s {
        want.push("top_tier");
    }
    let mut got: Vec<&str> = p.results.iter().map(|x| x.0.as_str()).collect();
    got.sort();
    want.sort();
    ensure(got == want, || format!("results printed: {:?}, should be {:?}", got, want))?;
    let mut gd: Vec<&str> = p.durations.iter().map(|x| x.0.as_str()).collect();
    gd.sort();
    timed.sort();
    ensure(gd == timed && p.durations.iter().all(|x| x.1 >= 0.0), || format!("durations printed: {:?}, should be for {:?}", p.durations, timed))?;
    let val = |k: &str| &p.results.iter().find(|x| x.0 == k).unwrap().1;
    ensure(*val("nodes_total") == json!(total), || format!("nodes_total {}, should be {}", val("nodes_total"), total))?;
    if groups.is_some() {
        let m: BTreeSet<usize> = sh.canon.iter().copied().collect();
        ensure(*val("nodes_total_merged") == json!(m.len()), || format!("nodes_total_merged {}, should be {}", val("nodes_total_merged"), m.len()))?;
    }
    // representatives are members, the same everywhere
    if groups.is_some() && !fl.p && !fl.d {
        let mut rep: BTreeMap<usize, u64> = BTreeMap::new();
        for k in ["minimal_quorums", "minimal_blocking_sets", "minimal_splitting_sets", "top_tier"] {
            if let Some(x) = p.results.iter().find(|x| x.0 == k) {
                let mut flat = vec![];
                fn collect(v: &Value, f: &mut Vec<u64>) {
                    match v {
                        Value::Array(a) => a.iter().for_each(|x| collect(x, f)),
                        _ => f.extend(v.as_u64()),
                    }
                }
                collect(&x.1, &mut flat);
                for i in flat {
                    let c = raw.node(&json!(i))?;
                    let e = rep.entry(sh.canon[c]).or_insert(i);
                    ensure(*e == i, || format!("both {} and {} stand for the same group", e, i))?;
                }
            }
        }
    }
    // symmetric clusters
    {
        let v = val("symmetric_clusters");
        let a = v.as_array().ok_or("symmetric_clusters is not a list")?;
        // documents are read with the entries of every quorum set sorted
        let clusters = sym_clusters(&RF { q: doc.f.q.iter().map(|q| q.sorted()).collect() });
        ensure(a.len() == clusters.len(), || format!("symmetric_clusters {}, should be {:?}", v, clusters.iter().map(show_q).collect::<Vec<_>>()))?;
        let mut got = vec![];
        for x in a {
            fn conv(v: &Value, sh: &Shown) -> Result<RQ, String> {
                let mut q = RQ { t: v["threshold"].as_u64().ok_or(format!("no threshold in {}", v))?, ..Default::default() };
                for x in v.get("validators").and_then(|x| x.as_array()).cloned().unwrap_or_default() {
                    q.v.push(sh.node(&x)?);
                }
                for x in v.get("innerQuorumSets").and_then(|x| x.as_array()).cloned().unwrap_or_default() {
                    q.inner.push(conv(&x, sh)?);
                }
                Ok(q)
            }
            got.push(conv(x, &sh)?);
        }
        let real: Vec<RQ> = clusters.iter().map(|q| q.map(&|k| doc.ids[k])).collect();
        let fits = |g: &RQ, w: &RQ| -> bool {
            if groups.is_none() {
                return g.sorted() == w.sorted();
            }
            // every union of whole groups of nodes that matter
            let mut reps: Vec<usize> = w.contained().iter().map(|&x| sh.canon[x]).collect();
            reps.sort_unstable();
            reps.dedup();
            if g.contained() != reps {
                return false;
            }
            if !w.sane() {
                return true;
            }
            (0..1u32 << reps.len()).all(|m| {
                let inn = |c: usize| reps.iter().position(|&x| x == c).map(|k| m >> k & 1 == 1).unwrap_or(false);
                g.sat(&|x| inn(x)) == w.sat(&|x| inn(sh.canon[x]))
            })
        };
        ensure(perms(got.len()).iter().any(|pm| pm.iter().enumerate().all(|(i, &j)| fits(&got[i], &real[j]))) || got.is_empty(), || {
            format!("symmetric_clusters {}, should be {:?}{}", v, real.iter().map(show_q).collect::<Vec<_>>(), if groups.is_some() { ", merged" } else { "" })
        })?;
    }
    if !fl.dont {
        ensure(*val("has_quorum_intersection") == json!(o.qi), || format!("has_quorum_intersection {}, should be {}", val("has_quorum_intersection"), o.qi))?;
    }
    if let Some((_, v)) = p.results.iter().find(|x| x.0 == "nonintersecting_quorums") {
        let names = |m: u32| -> Vec<String> {
            let mut x: Vec<String> = bits(m)
                .into_iter()
                .map(|k| {
                    let i = doc.ids[k];
                    if !fl.p {
                        json!(i).to_string()
                    } else {
                        json!(groups.and_then(|g| g.iter().find(|x| x.1.contains(&i))).map(|x| x.0.clone()).unwrap_or(doc.keys[i].clone())).to_string()
                    }
                })
                .collect();
            x.sort();
            x
        };
        let names = &names;
        let a = v.as_array().ok_or("nonintersecting_quorums is not a list")?;
        let ok = if fl.d {
            let hist: Vec<usize> = a.get(3).and_then(|h| h.as_array()).map(|h| h.iter().map(|x| x.as_u64().unwrap_or(0) as usize).collect()).unwrap_or_default();
            let sizes: Vec<usize> = hist.iter().enumerate().flat_map(|(k, &c)| vec![k; c]).collect();
            let tot: usize = sizes.iter().sum();
            let mean = tot as f64 / sizes.len().max(1) as f64;
            let fits = a[0] == json!(sizes.len()) && a[1] == json!(tot) && a[2][0] == json!(sizes.iter().min()) && a[2][1] == json!(sizes.iter().max()) && num_close(&a[2][2], mean);
            let preds: Vec<Box<dyn Fn(u32) -> bool>> = sizes.iter().map(|&k| Box::new(move |m: u32| m.count_ones() as usize == k) as Box<dyn Fn(u32) -> bool>).collect();
            fits && sizes.len() >= 2 && disjoint_quorums(o, &preds, 0)
        } else {
            let lists: Vec<Vec<String>> = a
                .iter()
                .map(|s| {
                    let mut x: Vec<String> = s.as_array().cloned().unwrap_or_default().iter().map(|x| x.to_string()).collect();
                    x.sort();
                    x
                })
                .collect();
            let preds: Vec<Box<dyn Fn(u32) -> bool>> = lists.iter().map(|l| Box::new(move |m: u32| names(m) == *l) as Box<dyn Fn(u32) -> bool + '_>).collect();
            a.len() >= 2 && disjoint_quorums(o, &preds, 0)
        };
        ensure(ok, || format!("nonintersecting_quorums {} are not disjoint quorums", v))?;
    }
    let fams: [(&str, bool, Vec<u32>); 3] = [("minimal_quorums", q, o.mq.clone()), ("minimal_blocking_sets", b && o.any_quorum, o.mbs.clone()), ("minimal_splitting_sets", s, mss_of(o))];
    for (k, on, sets) in fams.iter() {
        if !*on {
            continue;
        }
        let w = match groups {
            Some(g) => doc.merged(sets, g),
            None => doc.plain(sets),
        };
        if fl.d {
            described(k, val(k), &w)?;
        } else {
            same_sets(k, sh.sets(val(k))?, &w)?;
        }
        if !fl.ro {
            // the commentary counts the sets
            let what = k.replace('_', " ");
            for l in p.rest.iter().filter(|l| l.contains(&format!(" {}", what)) && l.starts_with("We found ")) {
                let x: Option<usize> = l["We found ".len()..].split(' ').next().and_then(|x| x.parse().ok());
                ensure(x == Some(w.len()) || x == Some(sets.len()), || format!("commentary {:?}, but there are {} {}", l, sets.len(), what))?;
            }
        }
    }
    if q || b || s {
        let tt: BTreeSet<usize> = bits(o.top_tier).into_iter().map(|k| sh.canon[doc.ids[k]]).collect();
        let g = sh.set(val("top_tier"))?;
        ensure(g == tt, || format!("top_tier {:?}, should be {:?}", g, tt))?;
    }
    if fl.ro {
        ensure(p.rest.is_empty(), || format!("prints more than results: {:?}", p.rest))?;
    } else {
        let says = |s: &str| p.rest.iter().any(|l| l.contains(s));
        let (good, bad) = (says("All quorums intersect"), says("Some quorums don't intersect"));
        ensure(!(good && (fl.dont || !o.qi)) && !(bad && (fl.dont || o.qi)), || format!("the commentary says the opposite: {:?}", p.rest))?;
    }
    Ok(())
}
fn c28_docs() -> Vec<Doc> {
    let f = |q: Vec<RQ>| RF { q };
    let i = |t: u64, v: &[usize]| RQ::flat(t, v);
    let mut v = vec![];
    // symmetric top tier of orgs, plus a watcher
    let st = RQ::new(2, &[], vec![i(2, &[0, 1, 2]), i(1, &[3, 4]), i(1, &[5])]);
    let mut q = vec![st.clone(); 6];
    q.push(i(2, &[0, 3, 6]));
    v.push(Doc::new(&f(q), Layout::Ident, 2));
    // two clusters without intersection
    v.push(Doc::new(&f(vec![i(2, &[0, 1, 2]), i(2, &[0, 1, 2]), i(2, &[0, 1, 2]), i(2, &[3, 4]), i(2, &[3, 4])]), Layout::Pad, 1));
    // asymmetric, intersecting
    v.push(Doc::new(&f(vec![i(3, &[0, 1, 2, 3]), i(2, &[0, 1, 2]), i(3, &[0, 1, 2, 3]), RQ::new(2, &[3], vec![i(2, &[0, 1, 2])])]), Layout::Ident, 5));
    // no quorum at all
    v.push(Doc::new(&f(vec![i(2, &[0]), i(0, &[1]), RQ::default()]), Layout::Ident, 2));
    v.push(Doc::new(&f(vec![i(2, &[0, 1, 2, 3]), i(3, &[0, 1, 2, 3]), i(3, &[0, 1, 2, 3]), i(3, &[0, 1, 2, 3])]), Layout::Wide, 7));
    v.push(Doc::new(&f(vec![i(1, &[0]), i(1, &[1]), i(2, &[0, 1, 2]), i(1, &[3])]), Layout::Rev, 6));
    v
}
fn c28_run(doc: &Doc, o: &Oracle, fl: &Flags, nodes: &str, orgs: &str, text: &str, dir: &Dir, c: &mut Ctx) -> R {
    let args = fl.args(nodes, orgs);
    let r = run(&tool("fbas_analyzer"), &args, if fl.stdin { Some(text.as_bytes()) } else { None }, &dir.0, &[]);
    c.traces += 1;
    c.op();
    c28_check(doc, o, fl, &r).map_err(|e| format!("{}\nfbas_analyzer {}{}\n{}\n{}", e, args.join(" "), if fl.stdin { " < nodes" } else { "" }, text, r.show()))?;
    let mut h = r.out.clone();
    h = h.lines().filter(|l| !l.contains("_duration")).collect::<Vec<_>>().join("\n");
    c.outcome(&h);
    c.sample(|| format!("fbas_analyzer {}: {}", args.join(" "), h));
    Ok(())
}
fn c28(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for (k, doc) in c28_docs().into_iter().enumerate() {
        let o = Arc::new(Oracle::new(&doc.f));
        let doc = Arc::new(doc);
        let d2 = doc.clone();
        // 2^13 combinations in blocks of 64
        let (full, step) = (1u64 << 13, 64u64);
        let thin = t == Tier::Quick && k >= 2;
        v.push(Family::new(
            format!("document {}: {} combination of 13 options", k, if thin { "every fourth" } else { "every" }),
            full / step,
            move |i, c| {
                let dir = Dir::new();
                let text = doc.json();
                let nodes = dir.put("nodes.json", text.as_bytes());
                let og = doc.orgs.clone().unwrap_or_default();
                let orgs = dir.put("orgs.json", doc.orgs_json(&og).as_bytes());
                for j in i * step..(i + 1) * step {
                    if thin && (j ^ j / 4 ^ j / 16 ^ j / 64 ^ j / 256 ^ j / 1024 ^ j / 4096) % 4 != (k as u64) % 4 {
                        continue;
                    }
                    let fl = Flags::of(j);
                    if fl.org && doc.orgs.is_none() {
                        continue;
                    }
                    c.states += 1;
                    if let Err(e) = c28_run(&doc, &o, &fl, &nodes, &orgs, &text, &dir, c) {
                        return fail(format!("document {} {:?}", k, fl), e);
                    }
                }
                Ok(())
            },
            move |i| format!("{} option combinations {}..{}", d2.json(), i * step, (i + 1) * step),
        ));
    }
    // many documents, few options
    let mut docs = vec![];
    for (i, f) in varied(t.pick(30, 250)).into_iter().filter(|f| f.n() <= 10).enumerate() {
        if f.n() > 0 {
            docs.push((f, [Layout::Ident, Layout::Pad, Layout::Rev, Layout::Wide][i % 4], i));
        }
    }
    if t == Tier::Quick {
        docs = docs.into_iter().step_by(3).collect();
    }
    let docs = Arc::new(docs);
    let d2 = docs.clone();
    v.push(Family::new(
        "varied documents",
        docs.len() as u64,
        move |i, c| {
            let (f, l, k) = &docs[i as usize];
            let doc = Doc::new(f, *l, *k);
            let o = Oracle::new(f);
            let dir = Dir::new();
            let text = doc.json();
            let nodes = dir.put("nodes.json", text.as_bytes());
            let orgs = dir.put("orgs.json", doc.orgs_json(&doc.orgs.clone().unwrap_or_default()).as_bytes());
            for x in [8u64, 8 + 16 + 128, 8 + 64, 7 + (1 << 10), 8 + 16 + (1 << 11) + 128, 8 + (1 << 9), 8 + 128 + (1 << 9) + (1 << 12), 0, 1, 2 + 16, 4] {
                let fl = Flags::of(x | if i % 2 == 0 { 256 } else { 0 });
                if fl.org && doc.orgs.is_none() {
                    continue;
                }
                c.states += 1;
                if let Err(e) = c28_run(&doc, &o, &fl, &nodes, &orgs, &text, &dir, c) {
                    return fail(format!("{} {:?}", show(f), fl), e);
                }
            }
            Ok(())
        },
        move |i| format!("{} {:?}", show(&d2[i as usize].0), d2[i as usize].1),
    ));
    v
}

// ---------------------------------------------------------------- CSV
fn parse_csv(s: &str) -> Result<Vec<Vec<String>>, String> {
    let mut rows = vec![];
    let mut row = vec![];
    let mut f = String::new();
    let mut it = s.chars().peekable();
    let mut quoted = false;
    let mut any = false;
    while let Some(c) = it.next() {
        any = true;
        if quoted {
            if c == '"' {
                if it.peek() == Some(&'"') {
                    it.next();
                    f.push('"');
                } else {
                    quoted = false;
                }
            } else {
                f.push(c);
            }
            continue;
        }
        match c {
            '"' if f.is_empty() => quoted = true,
            ',' => row.push(std::mem::take(&mut f)),
            '\r' => {}
            '\n' => {
                row.push(std::mem::take(&mut f));
                rows.push(std::mem::take(&mut row));
                any = false;
            }
            c => f.push(c),
        }
    }
    if quoted {
        return Err("a quoted field is not closed".into());
    }
    if any {
        return Err("the last line is not terminated".into());
    }
    Ok(rows)
}
fn csv_field(s: &str) -> String {
    if s.is_empty() || s.contains(|c| ",\"\n\r".contains(c)) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}
type Row = BTreeMap<String, String>;
/// rows as maps from column name to text
fn table(s: &str, cols: &[String]) -> Result<Vec<Row>, String> {
    let rows = parse_csv(s)?;
    let mut it = rows.into_iter();
    let head = match it.next() {
        None => return Ok(vec![]),
        Some(h) => h,
    };
    let (mut a, mut b) = (head.clone(), cols.to_vec());
    a.sort();
    b.sort();
    ensure(a == b, || format!("columns are {:?}", head))?;
    it.map(|r| {
        ensure(r.len() == head.len(), || format!("a row has {} fields instead of {}: {:?}", r.len(), head.len(), r))?;
        Ok(head.iter().cloned().zip(r).collect())
    })
    .collect()
}
#[derive(Clone, Debug, PartialEq)]
enum X {
    S(String),
    I(usize),
    F(f64),
    B(bool),
    Empty,
    Any,
}
impl X {
    fn fits(&self, s: &str) -> bool {
        match self {
            X::S(w) => w == s,
            X::I(w) => s.parse() == Ok(*w),
            X::F(w) => s.parse::<f64>().map(|x| (x - w).abs() < 1e-9).unwrap_or(false),
            X::B(w) => s.parse() == Ok(*w),
            X::Empty => s.is_empty(),
            X::Any => true,
        }
    }
}
type Want = BTreeMap<String, X>;
fn fits_row(r: &Row, w: &Want) -> R {
    for (k, x) in w {
        let s = r.get(k).ok_or(format!("no column {}", k))?;
        ensure(x.fits(s), || format!("{} is {:?}, should be {:?} (row of {:?})", k, s, x, w.get("label").or(w.get("top_tier_size"))))?;
    }
    let d = |k: &str| r.get(k).and_then(|s| s.parse::<f64>().ok());
    let mut sum = 0.0;
    for (k, _) in r.iter().filter(|x| x.0.starts_with("analysis_duration_")) {
        let x = d(k).ok_or(format!("{} is not a number", k))?;
        ensure(x >= 0.0 && x.is_finite(), || format!("{} is {}", k, x))?;
        if k != "analysis_duration_total" {
            sum += x;
        }
    }
    let t = d("analysis_duration_total").unwrap_or(0.0);
    ensure(sum <= t + 1e-6, || format!("the parts took {} s, the whole {} s", sum, t))
}
/// the same row again, values and all
fn same_row(a: &Row, b: &Row) -> R {
    for (k, x) in a {
        let y = b.get(k).ok_or(format!("no column {}", k))?;
        let num = !k.ends_with("label") && !k.ends_with("hash") && !x.is_empty();
        let eq = x == y || num && x.parse::<f64>().is_ok() && x.parse::<f64>().ok() == y.parse::<f64>().ok();
        ensure(eq, || format!("{} was {:?} and is now {:?}", k, x, y))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- the bulk analyzer
fn bulk_cols() -> Vec<String> {
    let mut v: Vec<String> = ["label", "has_quorum_intersection", "standard_form_hash", "analysis_duration_mq", "analysis_duration_mbs", "analysis_duration_mss", "analysis_duration_total"].iter().map(|s| s.to_string()).collect();
    for g in ["", "orgs_", "isps_", "ctries_"] {
        v.push(format!("{}top_tier_size", g));
        for k in ["mq", "mbs", "mss"] {
            for s in ["min", "max", "mean"] {
                v.push(format!("{}{}_{}", g, k, s));
            }
        }
    }
    v
}
fn bulk_want(doc: &Doc, o: &Oracle, label: &str, orgs: bool) -> Want {
    use sha3::Digest;
    let mut w = Want::new();
    let mut put = |k: &str, x: X| {
        w.insert(k.to_string(), x);
    };
    put("label", X::S(label.into()));
    put("has_quorum_intersection", X::B(o.qi));
    let f = fbas_analyzer::Fbas::from_json_str(&doc.json());
    let h = sha3::Sha3_256::digest(f.to_standard_form().to_json_string().as_bytes());
    put("standard_form_hash", X::S(h.iter().map(|b| format!("{:02x}", b)).collect()));
    let some = |g: Groups| if g.is_empty() { None } else { Some(g) };
    let gs: [(&str, bool, Option<Groups>); 4] = [("", true, None), ("orgs_", false, if orgs { doc.orgs.clone() } else { None }), ("isps_", false, some(doc.isps())), ("ctries_", false, some(doc.ctrs()))];
    for (p, plain, g) in gs.iter() {
        let key = |s: &str| format!("{}{}", p, s);
        let fams = [("mq", o.mq.clone(), true), ("mbs", o.mbs.clone(), o.any_quorum), ("mss", mss_of(o), true)];
        if !plain && g.is_none() {
            put(&key("top_tier_size"), X::Empty);
            for (k, _, _) in &fams {
                for s in ["min", "max", "mean"] {
                    put(&key(&format!("{}_{}", k, s)), X::Empty);
                }
            }
            continue;
        }
        let m = |sets: &[u32]| match g {
            Some(g) => doc.merged(sets, g),
            None => doc.plain(sets),
        };
        put(&key("top_tier_size"), X::I(m(&bits(o.top_tier).iter().map(|&k| 1u32 << k).collect::<Vec<_>>()).len()));
        for (k, sets, known) in &fams {
            let s = stats(&m(sets));
            put(&key(&format!("{}_min", k)), if *known { X::I(s.2) } else { X::Any });
            put(&key(&format!("{}_max", k)), if *known { X::I(s.3) } else { X::Any });
            put(&key(&format!("{}_mean", k)), if *known { X::F(s.4) } else { X::Any });
        }
    }
    w
}
fn bulk_rows(text: &str, want: &[Want]) -> R {
    let t = table(text, &bulk_cols())?;
    let got: Vec<&str> = t.iter().map(|r| r["label"].as_str()).collect();
    let labels: Vec<String> = want.iter().map(|w| if let X::S(s) = &w["label"] { s.clone() } else { String::new() }).collect();
    ensure(got == labels, || format!("rows are {:?}, should be {:?}", got, labels))?;
    for (r, w) in t.iter().zip(want) {
        fits_row(r, w)?;
    }
    Ok(())
}
fn small_docs() -> &'static [Doc] {
    static D: std::sync::OnceLock<Vec<Doc>> = std::sync::OnceLock::new();
    D.get_or_init(make_small_docs)
}
fn make_small_docs() -> Vec<Doc> {
    let mut v = c28_docs();
    for (i, f) in varied(12).into_iter().enumerate().skip(1) {
        v.push(Doc::new(&f, [Layout::Ident, Layout::Pad, Layout::Rev, Layout::Wide][i % 4], i));
    }
    v
}
/// a set of inputs written to a scratch directory
struct Bulk {
    dir: Dir,
    nodes: Vec<String>,
    orgs: Vec<String>,
    /// in the order of the labels
    want: Vec<Want>,
    /// what has to be read for each row
    files: Vec<Vec<String>>,
    docs: Vec<Doc>,
    labels: Vec<String>,
}
const LABELS: [&str; 6] = ["2020-06-03", "2019", "b", "B_x", "a", "10"];
fn bulk(n: usize, shift: usize, with_orgs: bool) -> Bulk {
    let all = small_docs();
    let dir = Dir::new();
    let mut b = Bulk { dir, nodes: vec![], orgs: vec![], want: vec![], files: vec![], docs: vec![], labels: vec![] };
    for i in 0..n {
        let doc = all[(shift * 5 + i * 7) % all.len()].clone();
        let l = LABELS[(i + shift) % LABELS.len()].to_string();
        let name = match (i + shift) % 3 {
            0 => format!("in/{}_stellarbeat_nodes.json", l),
            1 => format!("in/{}.json", l),
            _ => format!("in/nodes_{}.json", l),
        };
        b.nodes.push(b.dir.put(&name, doc.json().as_bytes()));
        let mut has = false;
        if let (true, Some(g)) = (with_orgs, &doc.orgs) {
            b.orgs.push(b.dir.put(&format!("in/{}_organizations.json", l), doc.orgs_json(g).as_bytes()));
            has = true;
        }
        b.want.push(bulk_want(&doc, &Oracle::new(&doc.f), &l, has));
        b.files.push(b.nodes.last().into_iter().chain(if has { b.orgs.last() } else { None }).cloned().collect());
        b.docs.push(doc);
        b.labels.push(l);
    }
    let mut ix: Vec<usize> = (0..n).collect();
    ix.sort_by_key(|&i| b.labels[i].clone());
    b.want = ix.iter().map(|&i| b.want[i].clone()).collect();
    b.files = ix.iter().map(|&i| b.files[i].clone()).collect();
    b
}
impl Bulk {
    fn inputs(&self) -> Vec<String> {
        // neither sorted nor grouped
        let mut v = vec![];
        for i in 0..self.nodes.len().max(self.orgs.len()) {
            v.extend(self.orgs.get(i).cloned());
            v.extend(self.nodes.get(i).cloned());
        }
        v
    }
}
fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
/// one execution of the bulk analyzer per schedule
fn bulk_schedules(b: &Bulk, jobs: usize, once: bool, to_stdout: bool, fixed: &[usize], cap: u64, c: &mut Ctx) -> R {
    let mut prefix: Vec<usize> = fixed.to_vec();
    let out = b.dir.path("out.csv");
    let mut done = 0u64;
    loop {
        b.dir.del("out.csv");
        let mut args = b.inputs();
        args.extend(strs(&["-j", &jobs.to_string()]));
        if !to_stdout {
            args.extend(strs(&["-o", &out]));
        }
        let ctl = Control { gate: Some(b.dir.path("in/")), once, err: false, out: None, fault: None };
        let mut l = Live::start(&tool("bulk_fbas_analyzer"), &args, &b.dir.0, &ctl);
        let mut points = 0u64;
        let mut most = 0;
        let e = schedule(&mut l, &prefix, |l, _| {
            points += 1;
            most = most.max(l.waiting().len());
            true
        });
        if e.invalid {
            return Ok(());
        }
        let what = || format!("bulk_fbas_analyzer {}\nopenings released in this order: {:?}", args.join(" "), e.order);
        ensure(!e.stuck, || format!("it does not go on although nothing holds it back\n{}", what()))?;
        let r = l.result();
        let text = if to_stdout { r.out.clone() } else { String::from_utf8_lossy(&b.dir.get("out.csv").unwrap_or_default()).to_string() };
        ensure(r.ok(), || format!("it does not exit successfully\n{}\n{}", what(), r.show()))?;
        if !to_stdout {
            ensure(r.out.is_empty(), || format!("it writes to standard output although a file is named\n{}", what()))?;
        }
        bulk_rows(&text, &b.want).map_err(|x| format!("{}\n{}\n{}", x, what(), text))?;
        c.traces += 1;
        c.ops(e.order.len() as u64);
        c.states += points.saturating_sub(if done == 0 { 0 } else { prefix.len() as u64 - 1 });
        c.outcome(&e.order.iter().map(|p| p.rsplit('/').next().unwrap().to_string()).collect::<Vec<_>>());
        c.count("largest number of analyses held at once", 0);
        c.sample(|| format!("{}\n{}", what(), text));
        done += 1;
        match next_prefix(&e.choices, fixed.len()) {
            Some(p) if done < cap => prefix = p,
            Some(_) => return Err(format!("more than {} schedules", cap)),
            None => return Ok(()),
        }
    }
}
const TOKENS: [&str; 6] = ["nodes", "organizations", "stellarbeat", "X", "2020-01-02", "Y"];
/// what the documentation says about labels
fn label_of(tokens: &[&str], ignore: &str) -> String {
    tokens.iter().filter(|t| **t != "nodes" && **t != "organizations" && **t != ignore).cloned().collect::<Vec<_>>().join("_")
}
fn c29(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // (n, jobs, shift): every order in which held analyses can be let go
    let mut cs: Vec<(usize, usize, usize, bool)> = vec![];
    for n in 1..=4usize {
        for jobs in 1..=4usize {
            if jobs > n + 1 {
                continue;
            }
            for s in 0..t.pick(2, 6) {
                cs.push((n, jobs, s, s % 2 == 1));
            }
        }
    }
    cs.extend(vec![(5, 2, 1, false), (5, 3, 2, true), (6, 2, 3, false)]);
    if t == Tier::Thorough {
        cs.extend(vec![(5, 4, 0, false), (5, 5, 1, true), (6, 3, 2, false), (6, 6, 4, false)]);
    }
    let cs = Arc::new(cs);
    let c2 = cs.clone();
    v.push(Family::new(
        "every completion order of concurrent analyses",
        cs.len() as u64,
        move |i, c| {
            let (n, jobs, s, so) = cs[i as usize];
            let b = bulk(n, s, n <= 3 && (t == Tier::Thorough || s == 1));
            bulk_schedules(&b, jobs, true, so, &[], 20_000, c).or_else(|e| fail(format!("{:?}", cs[i as usize]), e))
        },
        move |i| format!("(files, jobs, shift, to standard output) = {:?}", c2[i as usize]),
    ));
    // finer: every opening of every input file is a scheduling point
    let mut cs: Vec<(usize, usize, usize, bool, Vec<usize>)> = vec![];
    for a in 0..2 {
        for b in 0..2 {
            cs.push((2, 2, 1, true, vec![a, b]));
            cs.push((2, 2, 0, false, vec![a, b]));
            cs.push((3, 2, 2, false, vec![a, b]));
        }
    }
    if t == Tier::Thorough {
        for a in 0..3 {
            for b in 0..3 {
                for d in 0..3 {
                    cs.push((3, 3, 4, false, vec![a, b, d]));
                }
            }
        }
        for a in 0..2 {
            for b in 0..2 {
                cs.push((3, 2, 1, true, vec![a, b]));
                cs.push((4, 2, 3, false, vec![a, b]));
            }
        }
    }
    let cs = Arc::new(cs);
    let c2 = cs.clone();
    v.push(Family::new(
        "every interleaving of the readings of input files",
        cs.len() as u64,
        move |i, c| {
            let (n, jobs, s, orgs, fixed) = &cs[i as usize];
            let b = bulk(*n, *s, *orgs);
            bulk_schedules(&b, *jobs, false, false, fixed, 100_000, c).or_else(|e| fail(format!("{:?}", cs[i as usize]), e))
        },
        move |i| format!("(files, jobs, shift, with organizations, first choices) = {:?}", c2[i as usize]),
    ));
    // every order of the arguments
    v.push(Family::new(
        "every order of the input files",
        24 * 4,
        move |i, c| {
            let b = bulk(2 + (i % 2) as usize, (i / 2 % 2) as usize + 1, true);
            let inp = b.inputs();
            let ps = perms(inp.len().min(4));
            let p = &ps[(i / 4) as usize % ps.len()];
            let mut args: Vec<String> = p.iter().map(|&k| inp[k].clone()).collect();
            args.extend(inp.iter().skip(4).cloned());
            args.extend(strs(&["--jobs", &(1 + i % 3).to_string()]));
            let r = run(&tool("bulk_fbas_analyzer"), &args, None, &b.dir.0, &[]);
            c.traces += 1;
            c.states += 1;
            c.op();
            if !r.ok() {
                return fail(args.join(" "), format!("it does not exit successfully\n{}", r.show()));
            }
            bulk_rows(&r.out, &b.want).or_else(|e| fail(args.join(" "), format!("{}\n{}", e, r.show())))
        },
        |i| format!("order {}", i),
    ));
    // naming: every nodes file name and every organizations file name of up to three parts
    let mut names: Vec<Vec<&'static str>> = vec![];
    for len in 1..=3usize {
        for i in 0..TOKENS.len().pow(len as u32) {
            let mut x = i;
            let mut tk = vec![];
            for _ in 0..len {
                tk.push(TOKENS[x % TOKENS.len()]);
                x /= TOKENS.len();
            }
            names.push(tk);
        }
    }
    let names = Arc::new(names);
    let nn = names.len() as u64;
    v.push(Family::new(
        "every file name of up to three parts, with each organizations file name",
        nn,
        move |i, c| {
            let doc = Doc::new(&RF { q: vec![RQ::flat(2, &[0, 1, 2]); 3] }, Layout::Ident, 1);
            let o = Oracle::new(&doc.f);
            let nodes = &names[i as usize];
            if nodes.contains(&"organizations") {
                return Ok(());
            }
            let ignores = ["", "X", "2020-01-02"];
            let ign = ignores[(i % 3) as usize];
            let dir = Dir::new();
            let np = dir.put(&format!("organizations_dir/{}.json", nodes.join("_")), doc.json().as_bytes());
            let step = t.pick(5, 1);
            for (k, on) in names.iter().enumerate() {
                if !on.contains(&"organizations") || (k as u64 + i) % step != 0 {
                    continue;
                }
                let op = dir.put(&format!("{}.json", on.join("_")), doc.orgs_json(doc.orgs.as_ref().unwrap()).as_bytes());
                let mut args = vec![op.clone(), np.clone()];
                let eff = if ign.is_empty() { "stellarbeat" } else { ign };
                if !ign.is_empty() {
                    args.extend(strs(&["--ignore-for-label", ign]));
                }
                let label = label_of(nodes, eff);
                let w = bulk_want(&doc, &o, &label, label_of(on, eff) == label);
                let r = run(&tool("bulk_fbas_analyzer"), &args, None, &dir.0, &[]);
                c.traces += 1;
                c.states += 1;
                c.op();
                c.outcome(&(label.clone(), label_of(on, eff) == label));
                let _ = std::fs::remove_file(&op);
                if let Err(e) = ensure(r.ok(), || "it does not exit successfully".into()).and_then(|_| bulk_rows(&r.out, &[w])) {
                    return fail(args.join(" "), format!("{}\nbulk_fbas_analyzer {}\n{}", e, args.join(" "), r.show()));
                }
            }
            Ok(())
        },
        |i| format!("nodes file name {}", i),
    ));
    // names that only look like the ignored parts
    let odd = ["supernodes", "nodes2", "Nodes", "reorganizations", "stellarbeat2", "nodes", "a.b", "-", "organizations", "jsonnodes", "x y", "é"];
    let mut names: Vec<Vec<&'static str>> = vec![];
    for a in odd {
        names.push(vec![a]);
        for b in odd {
            names.push(vec![a, b]);
            names.push(vec![a, "", b]);
        }
    }
    let names: Vec<Vec<&'static str>> = names.into_iter().filter(|n| !n.iter().any(|t| t.contains("organizations"))).collect();
    let names = Arc::new(names);
    let n2 = names.clone();
    v.push(Family::new(
        "file names with parts that resemble the ignored ones",
        names.len() as u64,
        move |i, c| {
            let nodes = &names[i as usize];
            let all = small_docs();
            let doc = &all[i as usize % all.len()];
            let o = Oracle::new(&doc.f);
            let dir = Dir::new();
            let np = dir.put(&format!("{}.json", nodes.join("_")), doc.json().as_bytes());
            let label = label_of(nodes, "stellarbeat");
            let mut args = vec![np];
            let (mut want_orgs, noise) = (false, ["x_organizations.json", "organizations_organizations.json"]);
            for f in noise {
                if label_of(&f.trim_end_matches(".json").split('_').collect::<Vec<_>>(), "stellarbeat") != label {
                    args.push(dir.put(f, b"[]"));
                }
            }
            if let Some(g) = &doc.orgs {
                args.insert(0, dir.put(&format!("stellarbeat_{}_organizations.json", label), doc.orgs_json(g).as_bytes()));
                want_orgs = true;
            }
            let r = run(&tool("bulk_fbas_analyzer"), &args, None, &dir.0, &[]);
            c.traces += 1;
            c.states += 1;
            c.op();
            c.outcome(&label);
            ensure(r.ok(), || "it does not exit successfully".into())
                .and_then(|_| bulk_rows(&r.out, &[bulk_want(doc, &o, &label, want_orgs)]))
                .or_else(|e| fail(args.join(" "), format!("{}\nbulk_fbas_analyzer {}\n{}", e, args.join(" "), r.show())))
        },
        move |i| n2[i as usize].join("_"),
    ));
    // values: many documents at once
    let mut docs: Vec<RF> = varied(t.pick(60, 400)).into_iter().filter(|f| f.n() > 0 && f.n() <= 10).collect();
    docs.sort_by_key(|f| show(f));
    docs.dedup();
    let per = 24usize;
    let docs = Arc::new(docs);
    let d2 = docs.clone();
    v.push(Family::new(
        "values of varied documents",
        ((docs.len() + per - 1) / per) as u64,
        move |i, c| {
            let dir = Dir::new();
            let mut args = vec![];
            let mut want = vec![];
            let lo = i as usize * per;
            let mut forms: BTreeMap<String, String> = BTreeMap::new();
            for k in lo..(lo + per).min(docs.len()) {
                let l = [Layout::Ident, Layout::Pad, Layout::Rev, Layout::Wide][k % 4];
                let doc = Doc::new(&docs[k], l, k);
                let label = format!("{:04}", k);
                args.push(dir.put(&format!("{}.json", label), doc.json().as_bytes()));
                if let Some(g) = &doc.orgs {
                    args.push(dir.put(&format!("organizations_{}.json", label), doc.orgs_json(g).as_bytes()));
                }
                want.push(bulk_want(&doc, &Oracle::new(&docs[k]), &label, true));
                // the same FBAS with its nodes in reverse and without outsiders has the same fingerprint
                let mut twin = doc.clone();
                let n = twin.ids.len();
                let back: Vec<usize> = twin.ids.iter().rev().copied().collect();
                twin.keys = back.iter().map(|&x| doc.keys[x].clone()).collect();
                twin.real = RF { q: back.iter().map(|&x| doc.real.q[x].filter_map(&|y| back.iter().position(|&z| z == y))).collect() };
                twin.ids = (0..n).rev().collect();
                twin.isp = back.iter().map(|&x| doc.isp[x].clone()).collect();
                twin.ctry = back.iter().map(|&x| doc.ctry[x].clone()).collect();
                twin.orgs = None;
                args.push(dir.put(&format!("{}t.json", label), twin.json().as_bytes()));
                want.push(bulk_want(&twin, &Oracle::new(&docs[k]), &format!("{}t", label), false));
                c.states += 2;
            }
            args.extend(strs(&["-j", "3"]));
            let r = run(&tool("bulk_fbas_analyzer"), &args, None, &dir.0, &[]);
            c.traces += 1;
            c.ops(want.len() as u64);
            let key = format!("documents {}..", lo);
            if !r.ok() {
                return fail(key, format!("it does not exit successfully\n{}", r.show()));
            }
            if let Err(e) = bulk_rows(&r.out, &want) {
                let k = e.find("row of Some(S(\"").and_then(|p| e[p + 15..].get(..4).and_then(|s| s.parse::<usize>().ok()));
                return fail(key, format!("{}\n{}", e, k.map(|k| Doc::new(&docs[k], [Layout::Ident, Layout::Pad, Layout::Rev, Layout::Wide][k % 4], k).json()).unwrap_or(r.show())));
            }
            for row in table(&r.out, &bulk_cols()).unwrap() {
                let l = row["label"].trim_end_matches('t').to_string();
                c.outcome(&row["standard_form_hash"]);
                let e = forms.entry(l.clone()).or_insert(row["standard_form_hash"].clone());
                if *e != row["standard_form_hash"] {
                    return fail(key, format!("{} and its reordered twin have different fingerprints", show(&docs[l.parse::<usize>().unwrap()])));
                }
            }
            Ok(())
        },
        move |i| format!("documents {}.. of {}", i as usize * per, d2.len()),
    ));
    v
}

// ---------------------------------------------------------------- C30
/// a row with values no analysis would give
fn sentinel(label: &str, k: usize) -> Row {
    let f = ["0.1", "1.5", "3.3333333333333335", "1e-7", "123456789.25", "0.30000000000000004"];
    let mut r = Row::new();
    for (i, c) in bulk_cols().into_iter().enumerate() {
        let v = if c == "label" {
            label.to_string()
        } else if c == "standard_form_hash" {
            format!("h{}", k)
        } else if c == "has_quorum_intersection" {
            (k % 2 == 1).to_string()
        } else if (c.starts_with("orgs_") && k % 2 == 0) || (c.starts_with("isps_") && k % 3 == 0) || (c.starts_with("ctries_") && k % 5 == 0) {
            String::new()
        } else if c.starts_with("analysis") || c.ends_with("mean") {
            f[(i + k) % f.len()].to_string()
        } else {
            (1000 + i + 37 * k).to_string()
        };
        r.insert(c, v);
    }
    r
}
fn csv_text(rows: &[Row], cols: &[String]) -> String {
    let mut s = cols.iter().map(|c| csv_field(c)).collect::<Vec<_>>().join(",") + "\n";
    for r in rows {
        s += &(cols.iter().map(|c| csv_field(&r[c])).collect::<Vec<_>>().join(",") + "\n");
    }
    s
}
/// what the output file should hold for one label
#[derive(Clone, Debug)]
enum Held {
    Known(Row),
    New(Want),
}
type Model = Option<BTreeMap<String, Held>>;
fn bulk_model(text: &str, m: &BTreeMap<String, Held>) -> Result<BTreeMap<String, Held>, String> {
    let t = table(text, &bulk_cols())?;
    let got: Vec<&String> = t.iter().map(|r| &r["label"]).collect();
    let want: Vec<&String> = m.keys().collect();
    ensure(got == want, || format!("rows are {:?}, should be {:?}", got, want))?;
    let mut r = BTreeMap::new();
    for row in t {
        let l = row["label"].clone();
        match &m[&l] {
            Held::Known(k) => same_row(k, &row).map_err(|e| format!("the existing row {:?} was not kept: {}", l, e))?,
            Held::New(w) => fits_row(&row, w)?,
        }
        r.insert(l, Held::Known(row));
    }
    Ok(r)
}
struct Hist {
    b: Bulk,
    good: Vec<String>,
}
const INITIAL: [&str; 11] = ["absent", "empty", "header", "covered", "foreign", "unsorted", "columns reordered", "everything covered", "foreign between", "labels alike", "extreme values"];
/// a row whose numbers are all the same
fn flat_row(label: &str, number: &str, mean: &str, hqi: &str) -> Row {
    sentinel(label, 1)
        .into_iter()
        .map(|(c, v)| {
            let v = match c.as_str() {
                "label" => label.to_string(),
                "has_quorum_intersection" => hqi.to_string(),
                "standard_form_hash" => String::new(),
                _ if c.starts_with("analysis") || c.ends_with("mean") => mean.to_string(),
                _ => number.to_string(),
            };
            (c.clone(), if v.is_empty() && c != "standard_form_hash" { String::new() } else { v })
        })
        .collect()
}
impl Hist {
    fn new(shift: usize) -> Hist {
        let b = bulk(3, shift, true);
        let good = b.docs.iter().map(|d| d.json()).collect();
        Hist { b, good }
    }
    fn initial(&self, k: usize) -> (Option<String>, Model) {
        let cols = bulk_cols();
        let l = &self.b.labels;
        let mut cs = cols.clone();
        let rows: Vec<Row> = match INITIAL[k] {
            "absent" => return (None, None),
            "empty" => return (Some(String::new()), Some(BTreeMap::new())),
            "header" => vec![],
            "covered" => vec![sentinel(&l[0], 1)],
            "foreign" => vec![sentinel("zz top", 2), sentinel(&l[1], 3)],
            "unsorted" => vec![sentinel("y", 4), sentinel(&l[2], 5), sentinel("0", 6)],
            "columns reordered" => {
                cs.reverse();
                vec![sentinel(&l[1], 7), sentinel("m", 8)]
            }
            "everything covered" => {
                let mut v: Vec<Row> = l.iter().enumerate().map(|(i, x)| sentinel(x, 9 + i)).collect();
                v.sort_by_key(|r| r["label"].clone());
                v
            }
            "labels alike" => {
                let mut v: Vec<String> = vec![];
                for x in l {
                    let short: String = x.chars().take(x.chars().count() - 1).collect();
                    v.extend([format!("{}0", x), format!("{}_", x), format!("{} ", x), format!(" {}", x), format!("0{}", x), short, x.to_uppercase(), x.to_lowercase(), format!("{}.json", x)]);
                }
                v.sort();
                v.dedup();
                v.retain(|x| !l.contains(x));
                v.iter().enumerate().map(|(i, x)| sentinel(x, 15 + i)).collect()
            }
            "extreme values" => vec![flat_row(&l[0], "0", "0.0", "false"), flat_row("p", "18446744073709551615", "1.7976931348623157e308", "true"), flat_row("q", "1", "5e-324", "false"), flat_row("r", "0", "0", "true"), flat_row("s", "4294967296", "-0.5", "true")],
            _ => vec![sentinel("", 12), sentinel("2019b", 13), sentinel("c", 14)],
        };
        (Some(csv_text(&rows, &cs)), Some(rows.into_iter().map(|r| (r["label"].clone(), Held::Known(r))).collect()))
    }
    /// one run; `None` if what happens is not specified
    fn step(&self, mask: usize, update: bool, jobs: usize, m: &Model, c: &mut Ctx) -> Result<Option<Model>, String> {
        let b = &self.b;
        if update && m.is_none() {
            return Ok(None);
        }
        let mut args = vec![];
        for i in 0..3 {
            if mask >> i & 1 == 1 {
                args.push(b.nodes[i].clone());
                // nothing to read where a result exists
                let covered = update && m.as_ref().unwrap().contains_key(&b.labels[i]);
                let p = std::path::Path::new(&b.nodes[i]);
                if std::fs::write(p, if covered { "not to be read" } else { self.good[i].as_str() }).is_err() {
                    infra("cannot write input");
                }
            }
        }
        args.extend(b.orgs.iter().cloned());
        if mask % 2 == 0 {
            args.reverse();
        }
        args.extend(strs(&["-o", &b.dir.path("out.csv"), "-j", &jobs.to_string()]));
        if update {
            args.push(if mask > 3 { "-u" } else { "--update" }.to_string());
        }
        let before = b.dir.get("out.csv");
        let r = run(&tool("bulk_fbas_analyzer"), &args, None, &b.dir.0, &[]);
        c.traces += 1;
        c.states += 1;
        c.op();
        let after = b.dir.get("out.csv");
        let what = |e: String| format!("{}\nbulk_fbas_analyzer {}\n{}\nfile before: {:?}\nfile after: {:?}", e, args.join(" "), r.show(), before.as_ref().map(|x| String::from_utf8_lossy(x).to_string()), after.as_ref().map(|x| String::from_utf8_lossy(x).to_string()));
        if !update && m.is_some() {
            ensure(!r.ok(), || what("an existing output file was not refused".into()))?;
            ensure(before == after, || what("an existing output file was changed without consent".into()))?;
            return Ok(Some(m.clone()));
        }
        ensure(r.ok(), || what("it does not exit successfully".into()))?;
        let mut next = m.clone().unwrap_or_default();
        let mut fresh = 0;
        for i in 0..3 {
            if mask >> i & 1 == 1 && !next.contains_key(&b.labels[i]) {
                let w = b.want.iter().find(|w| w["label"] == X::S(b.labels[i].clone())).unwrap();
                next.insert(b.labels[i].clone(), Held::New(w.clone()));
                fresh += 1;
            }
        }
        let text = String::from_utf8_lossy(&after.clone().unwrap_or_default()).to_string();
        let got = bulk_model(&text, &next).map_err(what)?;
        c.outcome(&(mask, update, next.keys().cloned().collect::<Vec<_>>(), fresh));
        Ok(Some(Some(got)))
    }
    fn restore(&self, f: &Option<Vec<u8>>) {
        match f {
            None => self.b.dir.del("out.csv"),
            Some(x) => {
                self.b.dir.put("out.csv", x);
            }
        }
    }
    fn explore(&self, depth: usize, updates_only: bool, m: &Model, trail: &mut Vec<(usize, bool)>, first: Option<(usize, bool)>, c: &mut Ctx) -> R {
        if depth == 0 {
            return Ok(());
        }
        let here = self.b.dir.get("out.csv");
        for mask in 1..8 {
            for update in [false, true] {
                if updates_only && !update && m.is_some() || first.map(|f| f != (mask, update)).unwrap_or(false) {
                    continue;
                }
                trail.push((mask, update));
                let r = self.step(mask, update, 1 + (mask + depth) % 3, m, c).map_err(|e| format!("after runs with (set of files, update) = {:?}\n{}", trail, e))?;
                if let Some(next) = r {
                    if update {
                        // once more: nothing changes
                        let a = self.b.dir.get("out.csv");
                        self.step(mask, true, 1, &next, c).map_err(|e| format!("after runs with (set of files, update) = {:?} and the last one again\n{}", trail, e))?;
                        ensure(a == self.b.dir.get("out.csv"), || format!("a repeated update changed the file; runs with (set of files, update) = {:?}", trail))?;
                    }
                    self.explore(depth - 1, updates_only, &next, trail, None, c)?;
                }
                trail.pop();
                self.restore(&here);
            }
        }
        Ok(())
    }
}
fn c30(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for (name, depth, upd) in [("every history of runs of two steps", 2usize, false), ("every history of updates of three steps", 3, true), ("every history of runs of three steps", 3, false)] {
        if t == Tier::Quick && name.contains("runs of three") {
            continue;
        }
        let shifts = t.pick(1, 2) as usize;
        v.push(Family::new(
            name,
            (INITIAL.len() * 14 * shifts) as u64,
            move |i, c| {
                let i = i as usize;
                let (k, f) = (i % INITIAL.len(), i / INITIAL.len() % 14);
                let h = Hist::new(i / INITIAL.len() / 14 + 1 + depth);
                let (text, m) = h.initial(k);
                h.restore(&text.clone().map(|x| x.into_bytes()));
                let first = (1 + f / 2, f % 2 == 1);
                if upd && !first.1 && m.is_some() {
                    return Ok(());
                }
                h.explore(depth, upd, &m, &mut vec![], Some(first), c).or_else(|e| fail(format!("{} {:?}", INITIAL[k], first), format!("initial output file: {}\n{}", INITIAL[k], e)))
            },
            move |i| format!("initial file {}, first run {}", INITIAL[i as usize % INITIAL.len()], i as usize / INITIAL.len() % 14),
        ));
    }
    // labels with special characters, written, read back, found again
    let alphabet = ["a", "b", ",", "\"", "\n", " ", "0", "é", "\r", "#", ";", "'", "."];
    let mut labels: Vec<String> = vec![];
    for a in alphabet {
        for b in alphabet {
            labels.push(format!("{}{}", a, b));
            if t == Tier::Thorough {
                for d in alphabet {
                    labels.push(format!("{}{}{}", a, b, d));
                }
            }
        }
        labels.push(a.to_string());
    }
    labels.push(String::new());
    labels.retain(|l| !l.starts_with('.') || l.len() > 2);
    let labels = Arc::new(labels);
    let l2 = labels.clone();
    v.push(Family::new(
        "every label of up to two or three special characters",
        labels.len() as u64,
        move |i, c| {
            let l = &labels[i as usize];
            let other = &labels[(i as usize * 31 + 7) % labels.len()];
            let docs = small_docs();
            let doc = &docs[i as usize % docs.len()];
            let dir = Dir::new();
            let nodes = dir.put(&format!("{}_nodes.json", l), doc.json().as_bytes());
            let out = dir.path("out.csv");
            let w = bulk_want(doc, &Oracle::new(&doc.f), l, false);
            let mut m: BTreeMap<String, Held> = BTreeMap::new();
            if i % 2 == 0 && other != l {
                let r = sentinel(other, i as usize % 40);
                dir.put("out.csv", csv_text(&[r.clone()], &bulk_cols()).as_bytes());
                m.insert(other.clone(), Held::Known(r));
            }
            m.insert(l.clone(), Held::New(w));
            let mut args = vec![nodes.clone(), "-o".to_string(), out];
            for round in 0..3 {
                if round > 0 || i % 2 == 0 && other != l {
                    if !args.contains(&"-u".to_string()) {
                        args.push("-u".into());
                    }
                }
                let r = run(&tool("bulk_fbas_analyzer"), &args, None, &dir.0, &[]);
                c.traces += 1;
                c.states += 1;
                c.op();
                let text = String::from_utf8_lossy(&dir.get("out.csv").unwrap_or_default()).to_string();
                match ensure(r.ok(), || "it does not exit successfully".into()).and_then(|_| bulk_model(&text, &m)) {
                    Ok(x) => m = x,
                    Err(e) => return fail(format!("label {:?}", l), format!("{}\nlabel {:?}, other row {:?}, run {}\n{}\nfile: {}", e, l, other, round, r.show(), text)),
                }
                dir.put(&format!("{}_nodes.json", l), b"not to be read");
                c.outcome(&(l, round));
            }
            Ok(())
        },
        move |i| format!("label {:?}", l2[i as usize]),
    ));
    v
}

// ---------------------------------------------------------------- C31
/// `text` is a prefix of the complete output; the number of whole rows
fn out_prefix(text: &str, want: &[Want], torn_ok: bool) -> Result<usize, String> {
    let cols = bulk_cols();
    let cut = text.rfind('\n').map(|k| k + 1).unwrap_or(0);
    ensure(torn_ok || cut == text.len(), || "the file does not end at the end of a row".to_string())?;
    let t = table(&text[..cut], &cols)?;
    ensure(t.len() <= want.len(), || format!("there are {} rows of {}", t.len(), want.len()))?;
    for (r, w) in t.iter().zip(want) {
        fits_row(r, w)?;
    }
    let rest = &text[cut..];
    if cut == 0 {
        // a torn header
        let mut ok = false;
        for h in [cols.join(",")] {
            ok |= rest.len() <= h.len();
        }
        ensure(ok && rest.split(',').enumerate().all(|(i, f)| i + 1 == rest.split(',').count() || cols.iter().any(|c| c == f)), || format!("a torn header {:?}", rest))?;
        return Ok(0);
    }
    if !rest.is_empty() {
        let head = parse_csv(&text[..cut])?[0].clone();
        ensure(t.len() < want.len(), || format!("{:?} after the last row", rest))?;
        let w = &want[t.len()];
        let fs: Vec<&str> = rest.split(',').collect();
        for (i, f) in fs.iter().enumerate() {
            let k = head.get(i).ok_or(format!("too many fields in {:?}", rest))?;
            if i + 1 < fs.len() && !k.starts_with("analysis") {
                let x = w.get(k).ok_or(format!("no column {}", k))?;
                ensure(x.fits(f), || format!("a torn row has {} {:?}, should be {:?}", k, f, x))?;
            }
        }
    }
    Ok(t.len())
}
fn bulk_args(b: &Bulk, jobs: usize, out: &str, update: bool) -> Vec<String> {
    let mut args = b.inputs();
    args.extend(strs(&["-j", &jobs.to_string(), "-o", out]));
    if update {
        args.push("-u".into());
    }
    args
}
/// complete what an interrupted run has left
fn bulk_recover(b: &Bulk, jobs: usize, c: &mut Ctx) -> R {
    let left = b.dir.get("out.csv");
    let text = String::from_utf8_lossy(&left.clone().unwrap_or_default()).to_string();
    let kept = table(&text, &bulk_cols())?;
    let args = bulk_args(b, jobs, &b.dir.path("out.csv"), left.is_some());
    let r = run(&tool("bulk_fbas_analyzer"), &args, None, &b.dir.0, &[]);
    c.op();
    let now = String::from_utf8_lossy(&b.dir.get("out.csv").unwrap_or_default()).to_string();
    let what = |e: String| format!("{}\nwhile completing what was left: {:?}\n{}\nnow: {:?}", e, text, r.show(), now);
    ensure(r.ok(), || what("the completing run does not exit successfully".into()))?;
    bulk_rows(&now, &b.want).map_err(what)?;
    let t = table(&now, &bulk_cols())?;
    for (k, n) in kept.iter().zip(&t) {
        same_row(k, n).map_err(what)?;
    }
    Ok(())
}
/// kill the run at every point where it waits, under every order
fn c31_points(b: &Bulk, jobs: usize, prefix: &mut Vec<usize>, c: &mut Ctx) -> R {
    b.dir.del("out.csv");
    let out = b.dir.path("out.csv");
    let args = bulk_args(b, jobs, &out, false);
    let ctl = Control { gate: Some(b.dir.path("in/")), once: true, err: false, out: None, fault: None };
    let mut l = Live::start(&tool("bulk_fbas_analyzer"), &args, &b.dir.0, &ctl);
    let k = prefix.len();
    let mut at = 0;
    let mut width = 0;
    let mut text = None;
    let e = schedule(&mut l, prefix, |l, _| {
        at += 1;
        if at == k + 1 {
            width = l.waiting().len();
            text = Some(std::fs::read(&out).ok());
            return false;
        }
        true
    });
    let what = || format!("bulk_fbas_analyzer {}\nkilled after these openings were released: {:?}", args.join(" "), e.order);
    ensure(!e.stuck && !e.invalid, || format!("it does not go on although nothing holds it back\n{}", what()))?;
    c.traces += 1;
    c.states += 1;
    c.ops(e.order.len() as u64);
    if text.is_none() {
        let r = l.result();
        ensure(r.ok(), || format!("it does not exit successfully\n{}\n{}", what(), r.show()))?;
        return bulk_rows(&String::from_utf8_lossy(&b.dir.get("out.csv").unwrap_or_default()), &b.want).map_err(|e| format!("{}\n{}", e, what()));
    }
    l.kill();
    ensure(text == Some(b.dir.get("out.csv")), || format!("the file changed while everything slept\n{}", what()))?;
    let s = String::from_utf8_lossy(&text.unwrap().unwrap_or_default()).to_string();
    let done: BTreeSet<&String> = e.order.iter().collect();
    let finished = b.files.iter().take_while(|fs| fs.iter().all(|p| done.contains(p))).count();
    let rows = out_prefix(&s, &b.want, false).map_err(|x| format!("{}\n{}\nthe file: {:?}", x, what(), s))?;
    c.outcome(&(jobs, &e.order.iter().map(|p| p.rsplit('/').next().unwrap()).collect::<Vec<_>>(), rows));
    ensure(rows == finished, || format!("{} rows are in the file, but {} analyses had finished in order\n{}\nthe file: {:?}", rows, finished, what(), s))?;
    c.sample(|| format!("{}: {} rows", what(), rows));
    bulk_recover(b, jobs, c).map_err(|e| format!("{}\n{}", e, what()))?;
    for i in 0..width {
        prefix.push(i);
        c31_points(b, jobs, prefix, c)?;
        prefix.pop();
    }
    Ok(())
}
fn c31_faults(b: &Bulk, jobs: usize, to_stdout: bool, order: usize, t: Tier, c: &mut Ctx) -> R {
    let out = b.dir.path("out.csv");
    let mut args = bulk_args(b, jobs, &out, false);
    if to_stdout {
        args.retain(|a| a != "-o" && *a != out);
    }
    let go = |f: Option<Fault>| -> Result<(Run, Vec<u32>, u32, bool, String), String> {
        b.dir.del("out.csv");
        let ctl = Control { gate: Some(b.dir.path("in/")), once: true, err: false, out: Some(if to_stdout { "-".into() } else { out.clone() }), fault: f };
        let mut l = Live::start(&tool("bulk_fbas_analyzer"), &args, &b.dir.0, &ctl);
        // always the waiting one with this rank
        let e = schedule_ranked(&mut l, order);
        ensure(!e.stuck, || "it does not go on although nothing holds it back".into())?;
        let r = l.result();
        let text = if to_stdout { r.out.clone() } else { String::from_utf8_lossy(&b.dir.get("out.csv").unwrap_or_default()).to_string() };
        Ok((r, l.writes(), l.opens(), l.hit(), text))
    };
    let (r, writes, opens, _, text) = go(None)?;
    ensure(r.ok(), || format!("it does not exit successfully\n{}", r.show()))?;
    bulk_rows(&text, &b.want).map_err(|e| format!("{}\n{}", e, text))?;
    ensure(!writes.is_empty() && (to_stdout || opens > 0), || infra("no writes were seen"))?;
    c.count("writes to the output", writes.len() as u64);
    let mut fs: Vec<Fault> = vec![];
    for (at, &len) in writes.iter().enumerate() {
        let at = at as u32;
        let mut parts = vec![1, len / 2, len.saturating_sub(1), len / 3, 2 * len / 3];
        if t == Tier::Thorough {
            parts.extend((1..16).map(|k| k * len / 16));
        }
        parts.retain(|&p| p > 0 && p < len);
        parts.sort_unstable();
        parts.dedup();
        for mode in [Mode::KillBefore, Mode::KillAfter, Mode::Enospc, Mode::Eio, Mode::Eintr] {
            for persist in [true, false] {
                if persist && matches!(mode, Mode::KillBefore | Mode::KillAfter | Mode::Eintr) {
                    continue;
                }
                fs.push(Fault { mode, at, part: 0, persist });
            }
        }
        for part in parts {
            fs.push(Fault { mode: Mode::KillMid, at, part, persist: false });
            fs.push(Fault { mode: Mode::MidEnospc, at, part, persist: true });
            fs.push(Fault { mode: Mode::MidEnospc, at, part, persist: false });
            fs.push(Fault { mode: Mode::Short, at, part, persist: true });
        }
    }
    for at in 0..opens {
        for mode in [Mode::OpenKillBefore, Mode::OpenKillAfter, Mode::OpenFail] {
            fs.push(Fault { mode, at, part: 0, persist: false });
        }
    }
    for f in fs {
        let (r, _, _, hit, text) = go(Some(f))?;
        c.traces += 1;
        c.states += 1;
        c.op();
        let what = |e: String| format!("{}\nbulk_fbas_analyzer {}\nfault {:?}\n{}\nthe output: {:?}", e, args.join(" "), f, r.show(), text);
        if !hit {
            infra(format!("fault {:?} did not happen", f));
        }
        let torn = matches!(f.mode, Mode::KillMid | Mode::MidEnospc);
        let rows = out_prefix(&text, &b.want, torn).map_err(what)?;
        c.outcome(&(to_stdout, format!("{:?}", f.mode), f.at, rows, text.ends_with('\n')));
        match f.mode {
            Mode::Eintr | Mode::Short => ensure(if r.ok() { rows == b.want.len() } else { r.signal.is_none() }, || what("it reports success, but the output is not complete".into()))?,
            Mode::Enospc | Mode::Eio | Mode::MidEnospc | Mode::OpenFail => ensure(!r.ok(), || what("a failed write is not reported by the exit status".into()))?,
            _ => ensure(r.signal == Some(9), || what("it was not killed".into()))?,
        }
        if !to_stdout && (text.is_empty() || text.ends_with('\n')) && !matches!(f.mode, Mode::Eintr | Mode::Short) {
            bulk_recover(b, jobs, c).map_err(what)?;
        }
    }
    Ok(())
}
fn c31_update_faults(b: &Bulk, jobs: usize, have: usize, order: usize, c: &mut Ctx) -> R {
    let out = b.dir.path("out.csv");
    // what a complete run writes, and from it the rows that are there already
    b.dir.del("out.csv");
    let r = run(&tool("bulk_fbas_analyzer"), &bulk_args(b, jobs, &out, false), None, &b.dir.0, &[]);
    let whole = String::from_utf8_lossy(&b.dir.get("out.csv").unwrap_or_default()).to_string();
    ensure(r.ok(), || format!("it does not exit successfully\n{}", r.show()))?;
    let lines: Vec<&str> = whole.lines().collect();
    let first: String = lines.iter().enumerate().filter(|(i, _)| *i == 0 || have >> (i - 1) & 1 == 1).map(|(_, l)| format!("{}\n", l)).collect();
    let args = bulk_args(b, jobs, &out, true);
    let go = |f: Option<Fault>| -> Result<(Run, Vec<u32>, u32, bool, String), String> {
        b.dir.put("out.csv", first.as_bytes());
        let ctl = Control { gate: Some(b.dir.path("in/")), once: true, err: false, out: Some(out.clone()), fault: f };
        let mut l = Live::start(&tool("bulk_fbas_analyzer"), &args, &b.dir.0, &ctl);
        // always the waiting one with this rank
        let e = schedule_ranked(&mut l, order);
        ensure(!e.stuck, || "it does not go on although nothing holds it back".into())?;
        let r = l.result();
        let text = String::from_utf8_lossy(&b.dir.get("out.csv").unwrap_or_default()).to_string();
        Ok((r, l.writes(), l.opens(), l.hit(), text))
    };
    let (r, writes, opens, _, text) = go(None)?;
    ensure(r.ok(), || format!("it does not exit successfully\n{}", r.show()))?;
    bulk_rows(&text, &b.want).map_err(|e| format!("{}\n{}", e, text))?;
    if writes.is_empty() && have + 1 == 1 << b.nodes.len() {
        return Ok(()); // nothing to add, nothing written
    }
    ensure(!writes.is_empty() && opens > 0, || infra("no writes were seen"))?;
    c.count("writes to the output", writes.len() as u64);
    let mut fs: Vec<Fault> = vec![];
    for (at, &len) in writes.iter().enumerate() {
        let at = at as u32;
        let mut parts = vec![1, len / 2];
        parts.retain(|&p| p > 0 && p < len);
        parts.sort_unstable();
        parts.dedup();
        for mode in [Mode::Enospc, Mode::Eio, Mode::Eintr] {
            for persist in [true, false] {
                if persist && mode == Mode::Eintr {
                    continue;
                }
                fs.push(Fault { mode, at, part: 0, persist });
            }
        }
        for part in parts {
            fs.push(Fault { mode: Mode::MidEnospc, at, part, persist: true });
            fs.push(Fault { mode: Mode::MidEnospc, at, part, persist: false });
            fs.push(Fault { mode: Mode::Short, at, part, persist: true });
        }
    }
    for at in 0..opens {
        fs.push(Fault { mode: Mode::OpenFail, at, part: 0, persist: false });
    }
    for f in fs {
        let (r, _, _, hit, text) = go(Some(f))?;
        c.traces += 1;
        c.states += 1;
        c.op();
        let what = |e: String| format!("{}\nbulk_fbas_analyzer {}\nfault {:?}\n{}\nthe output: {:?}", e, args.join(" "), f, r.show(), text);
        if !hit {
            infra(format!("fault {:?} did not happen", f));
        }
        c.outcome(&(have, format!("{:?}", f.mode), f.at, text.len()));
        match f.mode {
            Mode::Eintr | Mode::Short => {
                if r.ok() {
                    bulk_rows(&text, &b.want).map_err(|e| what(format!("it reports success, but the output is not complete: {}", e)))?
                }
            }
            _ => ensure(!r.ok(), || what("a failed write is not reported by the exit status".into()))?,
        }
    }
    Ok(())
}
/// release openings always by rank among those waiting
fn schedule_ranked(l: &mut Live, rank: usize) -> Exec {
    let mut e = Exec { choices: vec![], order: vec![], stuck: false, invalid: false };
    let mut idle = std::time::Instant::now();
    loop {
        if l.settle() {
            return e;
        }
        let w = l.waiting();
        if w.is_empty() {
            if idle.elapsed().as_secs() > 20 {
                e.stuck = true;
                return e;
            }
            std::thread::sleep(std::time::Duration::from_micros(300));
            continue;
        }
        let k = rank % w.len();
        e.choices.push((k, w.len()));
        e.order.push(w[k].0.clone());
        l.release(w[k].1);
        idle = std::time::Instant::now();
    }
}
fn c31(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let mut cs: Vec<(usize, usize, usize, bool)> = vec![];
    for n in 1..=4usize {
        for jobs in 1..=n {
            cs.push((n, jobs, n + jobs, false));
        }
    }
    cs.extend(vec![(2, 2, 3, true), (3, 1, 1, true), (5, 2, 3, false)]);
    if t == Tier::Thorough {
        cs.extend(vec![(3, 3, 4, true), (5, 3, 1, false), (5, 5, 2, false), (6, 2, 0, false)]);
    }
    // one case per first choice, so that the work spreads
    let cs: Arc<Vec<_>> = Arc::new(cs);
    let c2 = cs.clone();
    v.push(Family::new(
        "killed at every waiting point of every order",
        cs.len() as u64,
        move |i, c| {
            let (n, jobs, shift, orgs) = cs[i as usize];
            let b = bulk(n, shift, orgs);
            c31_points(&b, jobs, &mut vec![], c).or_else(|e| fail(format!("{:?}", cs[i as usize]), e))
        },
        move |i| format!("(files, jobs, shift, organizations) = {:?}", c2[i as usize]),
    ));
    let mut cs: Vec<(usize, usize, usize, bool, usize)> = vec![];
    for n in 1..=t.pick(3, 5) as usize {
        for jobs in [1, 2, 3] {
            for order in 0..jobs {
                for so in [false, true] {
                    cs.push((n, jobs, n + jobs + order, so, order));
                }
            }
        }
    }
    let cs = Arc::new(cs);
    let c2 = cs.clone();
    v.push(Family::new(
        "every fault at every write and opening of the output",
        cs.len() as u64,
        move |i, c| {
            let (n, jobs, shift, so, order) = cs[i as usize];
            let b = bulk(n, shift, false);
            c31_faults(&b, jobs, so, order, t, c).or_else(|e| fail(format!("{:?}", cs[i as usize]), e))
        },
        move |i| format!("(files, jobs, shift, to standard output, order) = {:?}", c2[i as usize]),
    ));
    let mut cs: Vec<(usize, usize, usize, usize)> = vec![];
    for n in 1..=t.pick(3, 4) as usize {
        for have in 0..1usize << n {
            cs.push((n, 1 + (n + have) % 3, have, have % 2));
        }
    }
    let cs = Arc::new(cs);
    let c2 = cs.clone();
    v.push(Family::new(
        "every fault at every write and opening of an updated file",
        cs.len() as u64,
        move |i, c| {
            let (n, jobs, have, order) = cs[i as usize];
            let b = bulk(n, n + have, false);
            c31_update_faults(&b, jobs, have, order, c).or_else(|e| fail(format!("{:?}", cs[i as usize]), e))
        },
        move |i| format!("(files, jobs, rows that are there already, order) = {:?}", c2[i as usize]),
    ));
    v
}

// ---------------------------------------------------------------- C33
fn perf_cols() -> Vec<String> {
    strs(&["top_tier_size", "run", "mq_number", "mbs_number", "mss_number", "mq_mean", "mbs_mean", "mss_mean", "analysis_duration_mq", "analysis_duration_mbs", "analysis_duration_mss", "analysis_duration_hqi_after_mq", "analysis_duration_hqi_alt_check", "analysis_duration_total"])
}
fn perf_want(size: usize, run: usize, stellar: bool) -> Want {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static MEMO: Mutex<Option<HashMap<(usize, bool), Want>>> = Mutex::new(None);
    let mut g = MEMO.lock().unwrap();
    let w = g.get_or_insert_with(HashMap::new).entry((size, stellar)).or_insert_with(|| {
        let t = |n: usize| (2 * n as u64 + 3) / 3;
        let q = if stellar {
            RQ::new(t(size / 3), &[], (0..size / 3).map(|k| RQ::flat(2, &[3 * k, 3 * k + 1, 3 * k + 2])).collect())
        } else {
            RQ::flat(t(size), &(0..size).collect::<Vec<_>>())
        };
        let o = Oracle::new(&symmetric(size, &q));
        let mut w = Want::new();
        w.insert("top_tier_size".into(), X::I(size));
        for (k, sets) in [("mq", &o.mq), ("mbs", &o.mbs), ("mss", &mss_of(&o))] {
            w.insert(format!("{}_number", k), X::I(sets.len()));
            w.insert(format!("{}_mean", k), X::F(sets.iter().map(|m| m.count_ones() as usize).sum::<usize>() as f64 / sets.len().max(1) as f64));
        }
        w
    });
    let mut w = w.clone();
    w.insert("run".into(), X::I(run));
    w
}
fn perf_sentinel(size: usize, run: usize, k: usize) -> Row {
    let f = ["0.1", "1.5", "3.3333333333333335", "1e-7", "123456789.25"];
    perf_cols()
        .into_iter()
        .enumerate()
        .map(|(i, c)| {
            let v = match c.as_str() {
                "top_tier_size" => size.to_string(),
                "run" => run.to_string(),
                x if x.ends_with("number") => (500 + i + k).to_string(),
                _ => f[(i + k) % f.len()].to_string(),
            };
            (c, v)
        })
        .collect()
}
#[derive(Clone, Copy, Debug)]
struct PerfRun {
    m: usize,
    runs: usize,
    jobs: usize,
    update: bool,
}
type PerfModel = Option<BTreeMap<(usize, usize), Option<Row>>>;
fn perf_check(text: &str, want: &BTreeMap<(usize, usize), Option<Row>>, stellar: bool) -> Result<BTreeMap<(usize, usize), Option<Row>>, String> {
    let t = table(text, &perf_cols())?;
    let mut keys = vec![];
    let mut r = BTreeMap::new();
    for row in t {
        let n = |k: &str| row[k].parse::<usize>().map_err(|_| format!("{} is {:?}", k, row[k]));
        let key = (n("top_tier_size")?, n("run")?);
        keys.push(key);
        match want.get(&key) {
            None => return Err(format!("there is a row for size {} and run {}", key.0, key.1)),
            Some(Some(k)) => same_row(k, &row).map_err(|e| format!("the existing row {:?} was not kept: {}", key, e))?,
            Some(None) => fits_row(&row, &perf_want(key.0, key.1, stellar))?,
        }
        ensure(r.insert(key, Some(row)).is_none(), || format!("there are two rows for {:?}", key))?;
    }
    ensure(keys.windows(2).all(|w| w[0].0 <= w[1].0), || format!("the rows are not ordered by size: {:?}", keys))?;
    ensure(r.len() == want.len(), || format!("there are rows for {:?}, should be {:?}", keys, want.keys().collect::<Vec<_>>()))?;
    Ok(r)
}
fn perf_step(dir: &Dir, p: &PerfRun, stellar: bool, to_stdout: bool, model: &PerfModel, c: &mut Ctx) -> Result<Option<PerfModel>, String> {
    if p.update && (model.is_none() || to_stdout) {
        return Ok(None);
    }
    let out = dir.path("perf.csv");
    let mut args = strs(&["-m", &p.m.to_string(), "--runs", &p.runs.to_string(), "-j", &p.jobs.to_string()]);
    if stellar {
        args.push("--stellar-like".into());
    }
    if !to_stdout {
        args.extend(strs(&["--out", &out]));
    }
    if p.update {
        args.push("--update".into());
    }
    let before = dir.get("perf.csv");
    let r = run(&tool("bulk_performance_experiment"), &args, None, &dir.0, &[]);
    c.traces += 1;
    c.states += 1;
    c.op();
    let after = dir.get("perf.csv");
    let text = if to_stdout { r.out.clone() } else { String::from_utf8_lossy(&after.clone().unwrap_or_default()).to_string() };
    let what = |e: String| format!("{}\nbulk_performance_experiment {}\n{}\nfile before: {:?}\nresult: {}", e, args.join(" "), r.show(), before.as_ref().map(|x| String::from_utf8_lossy(x).to_string()), text);
    if !to_stdout && !p.update && model.is_some() {
        ensure(!r.ok(), || what("an existing output file was not refused".into()))?;
        ensure(before == after, || what("an existing output file was changed without consent".into()))?;
        return Ok(Some(model.clone()));
    }
    ensure(r.ok(), || what("it does not exit successfully".into()))?;
    let mut w = if to_stdout { BTreeMap::new() } else { model.clone().unwrap_or_default() };
    for size in 1..=p.m {
        if stellar && size % 3 != 0 {
            continue;
        }
        for run in 0..p.runs {
            w.entry((size, run)).or_insert(None);
        }
    }
    let got = perf_check(&text, &w, stellar).map_err(what)?;
    c.outcome(&(stellar, w.keys().cloned().collect::<Vec<_>>()));
    c.sample(|| format!("bulk_performance_experiment {}: {}", args.join(" "), text));
    Ok(Some(Some(got)))
}
fn perf_explore(dir: &Dir, depth: usize, ops: &[PerfRun], stellar: bool, model: &PerfModel, trail: &mut Vec<PerfRun>, c: &mut Ctx) -> R {
    if depth == 0 {
        return Ok(());
    }
    let here = dir.get("perf.csv");
    for p in ops {
        trail.push(*p);
        if let Some(next) = perf_step(dir, p, stellar, false, model, c).map_err(|e| format!("after these runs: {:?}\n{}", trail, e))? {
            perf_explore(dir, depth - 1, ops, stellar, &next, trail, c)?;
        }
        trail.pop();
        match &here {
            None => dir.del("perf.csv"),
            Some(x) => {
                dir.put("perf.csv", x);
            }
        }
    }
    Ok(())
}
/// stopped while a result that is there already is being taken over: what comes before it is in the file
fn c33_points(m: usize, runs: usize, jobs: usize, stellar: bool, have: &[(usize, usize)], c: &mut Ctx) -> R {
    let dir = Dir::new();
    let rows: Vec<Row> = have.iter().enumerate().map(|(k, &(s, r))| perf_sentinel(s, r, k)).collect();
    dir.put("perf.csv", csv_text(&rows, &perf_cols()).as_bytes());
    let out = dir.path("perf.csv");
    let mut args = strs(&["-m", &m.to_string(), "--runs", &runs.to_string(), "-j", &jobs.to_string(), "--update", "--out", &out]);
    if stellar {
        args.push("--stellar-like".into());
    }
    let ctl = Control { gate: None, once: false, err: true, out: Some(out.clone()), fault: None };
    let mut l = Live::start(&tool("bulk_performance_experiment"), &args, &dir.0, &ctl);
    let over = l.settle();
    c.traces += 1;
    c.states += 1;
    c.op();
    if over || l.waiting().is_empty() || l.opens() == 0 {
        // nothing is said where results are taken over
        c.count("not stopped", 1);
        l.kill();
        return Ok(());
    }
    let text = String::from_utf8_lossy(&dir.get("perf.csv").unwrap_or_default()).to_string();
    l.kill();
    let what = |e: String| format!("{}\nbulk_performance_experiment {}\nrows at first: {:?}\nthe file when it was killed: {:?}", e, args.join(" "), have, text);
    let first = have.iter().map(|h| h.0).min().unwrap();
    let mut w: BTreeMap<(usize, usize), Option<Row>> = BTreeMap::new();
    for size in (1..=m.min(first - 1)).filter(|s| !stellar || s % 3 == 0) {
        for r in 0..runs {
            w.insert((size, r), None);
        }
    }
    if w.is_empty() {
        return Ok(());
    }
    ensure(text.ends_with('\n'), || what("the file does not end at the end of a row".into()))?;
    let got = table(&text, &perf_cols()).map_err(what)?;
    for k in w.keys() {
        ensure(got.iter().any(|r| r["top_tier_size"] == k.0.to_string() && r["run"] == k.1.to_string()), || what(format!("the row for size {}, run {} is not there, although it had been finished", k.0, k.1)))?;
    }
    c.outcome(&(m, runs, stellar, have.to_vec(), got.len()));
    // and goes on from there
    let mut model: BTreeMap<(usize, usize), Option<Row>> = BTreeMap::new();
    for r in got {
        let k = (r["top_tier_size"].parse().map_err(|_| what("bad size".into()))?, r["run"].parse().map_err(|_| what("bad run".into()))?);
        model.insert(k, Some(r));
    }
    perf_step(&dir, &PerfRun { m, runs, jobs, update: true }, stellar, false, &Some(model), c).map_err(what)?;
    Ok(())
}
/// what there is of the output after a fault: whole rows of `order`, from the first one on, and, if the write was
/// torn, the beginning of the next; gives the whole rows
fn perf_prefix(text: &str, order: &[(usize, usize)], stellar: bool, torn: bool) -> Result<Vec<Row>, String> {
    let head = format!("{}\n", perf_cols().join(","));
    if head.starts_with(text) {
        ensure(torn || text.is_empty() || text == head, || "the heading is cut off".into())?;
        return Ok(vec![]);
    }
    let end = text.rfind('\n').map(|x| x + 1).unwrap_or(0);
    ensure(end > 0, || "the heading is wrong".into())?;
    let rest = &text[end..];
    ensure(torn || rest.is_empty(), || "it does not end at the end of a row".into())?;
    let rows = table(&text[..end], &perf_cols())?;
    ensure(rows.len() <= order.len(), || "there are more rows than there should be".into())?;
    let want: BTreeMap<(usize, usize), Option<Row>> = order[..rows.len()].iter().map(|k| (*k, None)).collect();
    perf_check(&text[..end], &want, stellar)?;
    for (r, k) in rows.iter().zip(order) {
        ensure(r["top_tier_size"] == k.0.to_string() && r["run"] == k.1.to_string(), || format!("the row of size {}, run {} is not in its place", k.0, k.1))?;
    }
    if !rest.is_empty() {
        let k = order.get(rows.len()).ok_or_else(|| format!("after all the rows there is {:?}", rest))?;
        let start = format!("{},{},", k.0, k.1);
        ensure(start.starts_with(rest) || rest.starts_with(&start), || format!("{:?} does not begin the row of size {}, run {}", rest, k.0, k.1))?;
        ensure(rest.split(',').count() <= perf_cols().len() && rest.chars().all(|x| x.is_ascii_digit() || ".,e-+".contains(x)), || format!("{:?} does not begin a row", rest))?;
        let known = perf_want(k.0, k.1, stellar);
        for (x, name) in rest.split(',').zip(perf_cols()).take(rest.matches(',').count()) {
            ensure(known.get(name.as_str()).map_or(true, |y| y.fits(x)), || format!("{:?} does not begin the row: {} is {}", rest, name, x))?;
        }
    }
    Ok(rows)
}
fn c33_faults(m: usize, runs: usize, jobs: usize, stellar: bool, to_stdout: bool, c: &mut Ctx) -> R {
    let dir = Dir::new();
    let out = dir.path("perf.csv");
    let mut args = strs(&["-m", &m.to_string(), "--runs", &runs.to_string(), "-j", &jobs.to_string()]);
    if stellar {
        args.push("--stellar-like".into());
    }
    if !to_stdout {
        args.extend(strs(&["--out", &out]));
    }
    let order: Vec<(usize, usize)> = (1..=m).filter(|s| !stellar || s % 3 == 0).flat_map(|s| (0..runs).map(move |r| (s, r))).collect();
    let go = |f: Option<Fault>| -> Result<(Run, Vec<u32>, u32, bool, String), String> {
        dir.del("perf.csv");
        let ctl = Control { gate: None, once: false, err: false, out: Some(if to_stdout { "-".into() } else { out.clone() }), fault: f };
        let mut l = Live::start(&tool("bulk_performance_experiment"), &args, &dir.0, &ctl);
        let since = std::time::Instant::now();
        while !l.settle() {
            ensure(since.elapsed().as_secs() < 30, || "it does not come to an end".into())?;
        }
        let r = l.result();
        let text = if to_stdout { r.out.clone() } else { String::from_utf8_lossy(&dir.get("perf.csv").unwrap_or_default()).to_string() };
        Ok((r, l.writes(), l.opens(), l.hit(), text))
    };
    let (r, writes, opens, _, text) = go(None)?;
    ensure(r.ok(), || format!("it does not exit successfully\n{}", r.show()))?;
    ensure(perf_prefix(&text, &order, stellar, false)?.len() == order.len(), || format!("the output is not complete: {}", text))?;
    ensure(!writes.is_empty() && (to_stdout || opens > 0), || infra("no writes were seen"))?;
    c.count("writes to the output", writes.len() as u64);
    let mut fs: Vec<Fault> = vec![];
    for (at, &len) in writes.iter().enumerate() {
        let at = at as u32;
        fs.extend([Mode::KillBefore, Mode::KillAfter, Mode::Enospc, Mode::Eio, Mode::Eintr].iter().map(|&mode| Fault { mode, at, part: 0, persist: false }));
        fs.extend([Mode::Enospc, Mode::Eio].iter().map(|&mode| Fault { mode, at, part: 0, persist: true }));
        for part in [1, len / 8, len / 2] {
            fs.extend([Mode::KillMid, Mode::MidEnospc].iter().map(|&mode| Fault { mode, at, part, persist: false }));
            fs.extend([Mode::MidEnospc, Mode::Short].iter().map(|&mode| Fault { mode, at, part, persist: true }));
        }
    }
    for at in 0..opens {
        fs.extend([Mode::OpenKillBefore, Mode::OpenKillAfter, Mode::OpenFail].iter().map(|&mode| Fault { mode, at, part: 0, persist: false }));
    }
    for f in fs {
        let (r, _, _, hit, text) = go(Some(f))?;
        c.traces += 1;
        c.states += 1;
        c.op();
        let what = |e: String| format!("{}\nbulk_performance_experiment {}\nfault {:?}\n{}\nthe output: {:?}", e, args.join(" "), f, r.show(), text);
        if !hit {
            infra(format!("fault {:?} did not happen", f));
        }
        let torn = matches!(f.mode, Mode::KillMid | Mode::MidEnospc);
        let rows = perf_prefix(&text, &order, stellar, torn).map_err(what)?;
        c.outcome(&(to_stdout, format!("{:?}", f.mode), f.at, rows.len(), text.ends_with('\n')));
        match f.mode {
            Mode::Eintr | Mode::Short => ensure(if r.ok() { rows.len() == order.len() } else { r.signal.is_none() }, || what("it reports success, but the output is not complete".into()))?,
            Mode::Enospc | Mode::Eio | Mode::MidEnospc | Mode::OpenFail => ensure(!r.ok(), || what("a failed write is not reported by the exit status".into()))?,
            _ => ensure(r.signal == Some(9), || what("it was not killed".into()))?,
        }
        if !to_stdout && (text.is_empty() || text.ends_with('\n')) && !matches!(f.mode, Mode::Eintr | Mode::Short) {
            // it can be continued
            let model: PerfModel = dir.get("perf.csv").map(|_| rows.into_iter().map(|r| ((r["top_tier_size"].parse().unwrap_or(0), r["run"].parse().unwrap_or(0)), Some(r))).collect());
            let p = PerfRun { m, runs, jobs, update: model.is_some() };
            perf_step(&dir, &p, stellar, false, &model, c).map_err(what)?;
        }
    }
    Ok(())
}
fn c33(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    let mut ws: Vec<(usize, usize, usize, bool, bool)> = vec![];
    for (m, runs, stellar) in [(3, 1, false), (2, 2, false), (4, 1, false), (6, 2, true), (3, 1, true), (5, 3, false), (9, 1, true)].into_iter().take(t.pick(4, 7) as usize) {
        for jobs in [1, 3] {
            for so in [false, true] {
                ws.push((m, runs, jobs, stellar, so));
            }
        }
    }
    let ws = Arc::new(ws);
    let w2 = ws.clone();
    v.push(Family::new(
        "every fault at every write and opening of the output",
        ws.len() as u64,
        move |i, c| {
            let (m, runs, jobs, stellar, so) = ws[i as usize];
            c33_faults(m, runs, jobs, stellar, so, c).or_else(|e| fail(format!("{:?}", ws[i as usize]), e))
        },
        move |i| format!("(largest, runs, jobs, Stellar-like, to standard output) = {:?}", w2[i as usize]),
    ));
    let mut cs: Vec<(usize, usize, usize, bool, Vec<(usize, usize)>)> = vec![];
    for m in 1..=t.pick(7, 9) as usize {
        for runs in 1..=3usize {
            for jobs in 1..=3usize {
                for stellar in [false, true] {
                    if stellar && m < 3 {
                        continue;
                    }
                    for have in [vec![(m + 1, 0)], vec![(m, 0)], vec![(m / 2 + 1, runs - 1), (99, 0)]] {
                        cs.push((m, runs, jobs, stellar, have));
                    }
                }
            }
        }
    }
    let cs = Arc::new(cs);
    let c2 = cs.clone();
    v.push(Family::new(
        "killed while an existing row is taken over",
        cs.len() as u64,
        move |i, c| {
            let (m, runs, jobs, stellar, have) = &cs[i as usize];
            c33_points(*m, *runs, *jobs, *stellar, have, c).or_else(|e| fail(format!("{:?}", cs[i as usize]), e))
        },
        move |i| format!("(largest, runs, jobs, Stellar-like, rows there) = {:?}", c2[i as usize]),
    ));
    let (mmax, rmax) = (t.pick(8, 10), 3u64);
    v.push(Family::new(
        "every size, number of runs, topology, number of jobs and output",
        (mmax + 1) * (rmax + 1) * 2 * 3 * 2,
        move |i, c| {
            let p = PerfRun { m: (i % (mmax + 1)) as usize, runs: (i / (mmax + 1) % (rmax + 1)) as usize, jobs: 1 + (i / (mmax + 1) / (rmax + 1) % 3) as usize, update: false };
            let k = i / (mmax + 1) / (rmax + 1) / 3;
            let dir = Dir::new();
            perf_step(&dir, &p, k & 1 == 1, k & 2 == 2, &None, c).map(|_| ()).or_else(|e| fail(format!("{:?}", p), e))
        },
        |i| format!("parameters {}", i),
    ));
    v.push(Family::new(
        "larger networks",
        t.pick(8, 12),
        move |i, c| {
            let (m, stellar) = [(9, true), (10, true), (11, false), (12, false), (11, true), (12, true), (13, false), (14, false), (15, false), (15, true), (16, false), (18, true)][i as usize];
            let p = PerfRun { m, runs: 1, jobs: 2, update: false };
            let dir = Dir::new();
            perf_step(&dir, &p, stellar, i % 2 == 1, &None, c).map(|_| ()).or_else(|e| fail(format!("{:?}", p), e))
        },
        |i| format!("{}", i),
    ));
    let inits: Vec<(&'static str, Option<Vec<(usize, usize)>>)> = vec![
        ("absent", None),
        ("empty", Some(vec![])),
        ("one row", Some(vec![(3, 0)])),
        ("a later run", Some(vec![(3, 1), (2, 1)])),
        ("foreign sizes", Some(vec![(0, 0), (99, 7), (4, 2)])),
        ("unsorted", Some(vec![(6, 0), (3, 1), (1, 0)])),
        ("sizes whose text sorts differently", Some(vec![(12, 0), (3, 0), (100, 1)])),
    ];
    let inits = Arc::new(inits);
    let i2 = inits.clone();
    let ms: Vec<usize> = vec![0, 1, 3, 6];
    let mut ops = vec![];
    for &m in &ms {
        for runs in 0..3 {
            for update in [false, true] {
                if runs == 0 && m != 3 {
                    continue;
                }
                ops.push(PerfRun { m, runs, jobs: 1 + (m + runs) % 3, update });
            }
        }
    }
    let ops = Arc::new(ops);
    let n = (inits.len() * 2 * ops.len()) as u64;
    v.push(Family::new(
        format!("every history of {} runs", t.pick(2, 3)),
        n,
        move |i, c| {
            let i = i as usize;
            let (name, rows) = &inits[i % inits.len()];
            let stellar = i / inits.len() % 2 == 1;
            let first = ops[i / inits.len() / 2];
            let dir = Dir::new();
            let mut model: PerfModel = None;
            if let Some(rs) = rows {
                let rows: Vec<Row> = rs.iter().enumerate().map(|(k, &(s, r))| perf_sentinel(s, r, k)).collect();
                let text = if *name == "empty" { String::new() } else { csv_text(&rows, &perf_cols()) };
                dir.put("perf.csv", text.as_bytes());
                model = Some(rs.iter().zip(rows).map(|(k, r)| (*k, Some(r))).collect());
            }
            let r = perf_step(&dir, &first, stellar, false, &model, c).and_then(|next| match next {
                None => Ok(()),
                Some(next) => {
                    if first.update {
                        let a = dir.get("perf.csv").map(|x| String::from_utf8_lossy(&x).to_string());
                        perf_step(&dir, &first, stellar, false, &next, c)?;
                        let b = dir.get("perf.csv").map(|x| String::from_utf8_lossy(&x).to_string());
                        let rows = |s: &Option<String>| {
                            let mut l: Vec<String> = s.clone().unwrap_or_default().lines().map(|x| x.to_string()).collect();
                            l.sort();
                            l
                        };
                        ensure(rows(&a) == rows(&b), || format!("a repeated update changed the rows of {:?}: {:?}", a, b))?;
                    }
                    perf_explore(&dir, t.pick(1, 2) as usize, &ops, stellar, &next, &mut vec![first], c)
                }
            });
            r.or_else(|e| fail(format!("{} {} {:?}", name, stellar, first), format!("initial file: {} {:?}, Stellar-like: {}\n{}", name, rows, stellar, e)))
        },
        move |i| format!("initial file {:?}, number {}", i2[i as usize % i2.len()], i),
    ));
    v
}

// ---------------------------------------------------------------- C32
fn as_rel(g: &G, variant: usize) -> Vec<(usize, usize, i32)> {
    let mut v = vec![];
    for a in 0..g.n() {
        for &b in &g.0[a] {
            let both = a != b && g.0[b].contains(&a);
            if !both {
                v.push((b, a, -1));
            } else if variant % 3 == 2 {
                // spelled as two links
                v.push((b, a, -1));
            } else if a < b {
                v.push(if variant % 3 == 1 { (b, a, 0) } else { (a, b, 0) });
            }
        }
    }
    if variant % 2 == 1 {
        v.reverse();
    }
    v
}
/// the printed FBAS
fn printed_fbas(out: &str) -> Result<Vec<RQ>, String> {
    let v: Value = serde_json::from_str(out).map_err(|e| format!("not JSON: {}", e))?;
    let a = v.as_array().ok_or("not a list of nodes")?;
    let mut keys = vec![];
    for x in a {
        keys.push(x["publicKey"].as_str().ok_or("a node without a key")?.to_string());
    }
    let distinct: BTreeSet<&String> = keys.iter().collect();
    ensure(distinct.len() == keys.len(), || "two nodes have the same key".into())?;
    let id = |s: &str| keys.iter().position(|k| k == s).or_else(|| s.strip_prefix("missing #").and_then(|x| x.parse().ok()).filter(|&x: &usize| x >= keys.len()));
    let r: Result<Vec<RQ>, String> = a
        .iter()
        .map(|x| match x.get("quorumSet") {
            None | Some(Value::Null) => Ok(RQ::default()),
            Some(q) => {
                let q = crate::p_io::parse_q(q, &id)?;
                Ok(if q.v.is_empty() && q.inner.is_empty() && q.t == u64::MAX { RQ::default() } else { q })
            }
        })
        .collect();
    let f = fbas_analyzer::Fbas::from_json_str(out);
    ensure(f.number_of_nodes() == keys.len(), || "the analyzer reads a different number of nodes".into())?;
    r
}
#[derive(Clone, Debug)]
struct SimCase {
    pol: Pol,
    g: G,
    rel: Option<f64>,
    init: usize,
    grow: usize,
    /// how the graph is passed and written
    via: usize,
    style: usize,
}
fn pol_name(p: Pol) -> &'static str {
    match p {
        Pol::Ideal => "Ideal",
        Pol::Safe => "SuperSafe",
        Pol::All => "AllNeighbors",
        Pol::Higher => "HigherTierNeighbors",
        Pol::Symm => "SymmetryEnforcingHigherTierNeighbors",
        Pol::Rank => "GlobalRank",
        Pol::Dummy => "?",
    }
}
fn size_args(init: usize, grow: usize, style: usize) -> Vec<String> {
    let mut a = vec![];
    if init > 0 || style % 3 == 1 {
        a.extend(strs(&[if style % 2 == 0 { "-i" } else { "--initial" }, &init.to_string()]));
    }
    if grow > 0 || style % 3 == 2 {
        a.extend(if style % 2 == 0 { vec![format!("--grow-by={}", grow)] } else { strs(&["-g", &grow.to_string()]) });
    }
    a
}
/// the file or stream with a graph; what to name and what to pipe
fn graph_source(dir: &Dir, g: &G, via: usize, style: usize) -> (String, Option<Vec<u8>>, G) {
    let lines = as_rel(g, style);
    let text = c25_text(&lines, style % 4);
    let read = read_model(&lines);
    match via % 3 {
        0 => (dir.put("g.txt", text.as_bytes()), None, read),
        1 => (dir.put("g.bz2", &bz(text.as_bytes())), None, read),
        _ => ("-".into(), Some(text.into_bytes()), read),
    }
}
fn sim_deterministic(p: &SimCase, c: &mut Ctx) -> R {
    let dir = Dir::new();
    let mut args = size_args(p.init, p.grow, p.style);
    let graphless = matches!(p.pol, Pol::Ideal | Pol::Safe);
    args.push(pol_name(p.pol).into());
    let (mut stdin, mut g) = (None, p.g.clone());
    if !graphless {
        let (path, pipe, read) = graph_source(&dir, &p.g, p.via, p.style);
        g = read;
        stdin = pipe;
        args.push(path);
        if let Some(r) = p.rel {
            args.push(r.to_string());
        }
    }
    let r = run(&tool("qsc_simulator"), &args, stdin.as_deref(), &dir.0, &[]);
    c.traces += 1;
    c.states += 1;
    c.op();
    let what = |e: String| format!("{}\nqsc_simulator {}{}\ngraph {:?}\n{}", e, args.join(" "), if stdin.is_some() { " < graph" } else { "" }, g.lists(), r.show());
    ensure(r.ok(), || what("it does not exit successfully".into()))?;
    let f = printed_fbas(&r.out).map_err(what)?;
    let n = if p.init == 0 && p.grow == 0 && !graphless { g.n() } else { p.init + p.grow };
    ensure(f.len() == n, || what(format!("{} nodes, should be {}", f.len(), n)))?;
    let m = PolM { pol: p.pol, rel: p.rel, g: g.clone(), rank: g.graph().get_rank_scores() };
    for i in 0..n {
        m.right(i, n, &f, &f[i]).map_err(what)?;
    }
    c.outcome(&(format!("{:?}", p.pol), &f));
    c.sample(|| format!("qsc_simulator {}: {:?}", args.join(" "), f.iter().map(show_q).collect::<Vec<_>>()));
    Ok(())
}
/// every random outcome of a tool: calls `body` with what it did and the probability
fn tool_dfs(bin: &str, args: &[String], stdin: Option<&[u8]>, dir: &Dir, cap: u64, c: &mut Ctx, mut body: impl FnMut(&Run, f64) -> R) -> Result<bool, String> {
    let mut prefix: Vec<usize> = vec![];
    let mut raw = false;
    let mut n = 0u64;
    loop {
        let p = dir.put("rand", prefix.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ").as_bytes());
        let r = run(&ctool(bin), args, stdin, &dir.0, &[("MCRAND".to_string(), p)]);
        let trail = String::from_utf8_lossy(&dir.get("rand.out").unwrap_or_default()).to_string();
        let mut choices: Vec<(usize, usize)> = vec![];
        for l in trail.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            choices.push((w[0].parse().unwrap(), w[1].parse().unwrap()));
            raw |= w[2] == "Raw";
        }
        let what = |e: String| format!("{}\n{} {}\nrandom choices (choice, out of) {:?}\n{}", e, bin, args.join(" "), choices, r.show());
        ensure(r.ok(), || what("it does not exit successfully".into()))?;
        if choices.len() < prefix.len() {
            return Err(what("the choices cannot be replayed".into()));
        }
        c.states += (choices.len() - prefix.len()) as u64 + 1;
        body(&r, choices.iter().map(|x| 1. / x.1 as f64).product()).map_err(what)?;
        c.traces += 1;
        c.op();
        n += 1;
        match next_prefix(&choices, 0) {
            // floats and raw bits: representative values, and not all of those
            Some(_) if raw && n >= 2000 => return Ok(raw),
            Some(p) if n < cap => prefix = p,
            Some(_) => infra(format!("more than {} executions of {} {}", cap, bin, args.join(" "))),
            None => return Ok(raw),
        }
    }
}
#[derive(Clone, Debug)]
enum RandPol {
    Random,
    Fame(Option<usize>),
    Symm(Option<f64>),
}
#[derive(Clone, Debug)]
struct RandCase {
    pol: RandPol,
    size: usize,
    g: G,
    init: usize,
    grow: usize,
    via: usize,
    style: usize,
}
const TOOL_CAP: u64 = 20_000;
fn sim_random(p: &RandCase, c: &mut Ctx) -> R {
    use fbas_analyzer::simulation::qsc::*;
    use fbas_analyzer::simulation::*;
    use std::rc::Rc;
    let dir = Dir::new();
    let mut args = size_args(p.init, p.grow, p.style);
    let (path, pipe, g) = graph_source(&dir, &p.g, p.via, p.style);
    let stdin = if matches!(p.pol, RandPol::Random) { None } else { pipe };
    let n = match p.pol {
        RandPol::Random => p.init + p.grow,
        _ if p.init + p.grow == 0 => g.n(),
        _ => p.init + p.grow,
    };
    let n0 = n - p.grow;
    let indeg: Vec<usize> = (0..g.n()).map(|i| (0..g.n()).filter(|&a| g.0[a].contains(&i)).count()).collect();
    match &p.pol {
        RandPol::Random => args.extend(strs(&["Random", &p.size.to_string()])),
        RandPol::Fame(t) => {
            args.extend(strs(&["FameWeightedRandom", &p.size.to_string(), &path]));
            args.extend(t.map(|x| x.to_string()));
        }
        RandPol::Symm(t) => {
            args.extend(strs(&["SymmetryEnforcingHigherTierNeighbors", &path]));
            args.extend(t.map(|x| x.to_string()));
        }
    }
    let elig = |i: usize| match &p.pol {
        RandPol::Fame(_) => indeg.get(i).copied().unwrap_or(1) > 0,
        _ => true,
    };
    let mut dist: BTreeMap<Vec<RQ>, f64> = BTreeMap::new();
    let raw = tool_dfs("qsc_simulator", &args, stdin.as_deref(), &dir, TOOL_CAP, c, |r, prob| {
        let f: Vec<RQ> = printed_fbas(&r.out)?.iter().map(|q| q.sorted()).collect();
        ensure(f.len() == n, || format!("{} nodes, should be {}", f.len(), n))?;
        if !matches!(p.pol, RandPol::Symm(_)) {
            for (i, q) in f.iter().enumerate() {
                let set: BTreeSet<usize> = q.v.iter().copied().collect();
                let others: Vec<usize> = (0..n).filter(|&x| x != i && elig(x)).collect();
                let want = p.size.min(1 + others.len()).max(1);
                ensure(q.inner.is_empty() && set.len() == q.v.len() && set.contains(&i) && set.iter().all(|x| *x == i || others.contains(x)) && set.len() == want, || format!("node {} has {}; it should have itself and {} of {:?}", i, show_q(q), want - 1, others))?;
                let t = match p.pol {
                    RandPol::Fame(Some(t)) => t as u64,
                    _ => t67(want),
                };
                ensure(q.t == t, || format!("node {} has {}; its threshold should be {}", i, show_q(q), t))?;
            }
        }
        *dist.entry(f).or_insert(0.) += prob;
        Ok(())
    })?;
    // what the policy itself does, under every visit order and every choice
    let mut want: BTreeMap<Vec<RQ>, f64> = BTreeMap::new();
    let st = crate::explore::dfs(1 << 40, |ch| -> R {
        let q: Rc<dyn QuorumSetConfigurator> = match &p.pol {
            RandPol::Random => Rc::new(RandomQsc::new(p.size, None, None)),
            RandPol::Fame(t) => Rc::new(RandomQsc::new(p.size, *t, Some(indeg.clone()))),
            RandPol::Symm(t) => Rc::new(HigherTierNeighborsQsc::new(g.graph(), *t, true)),
        };
        let mut sim = Simulator::new(fbas_analyzer::Fbas::new_generic_unconfigured(n0), q, Rc::new(monitors::DummyMonitor));
        sim.simulate_global_reevaluation(n0);
        sim.simulate_growth(p.grow);
        let f: Vec<RQ> = rqs(&sim.finalize()).iter().map(|q| q.sorted()).collect();
        *want.entry(f).or_insert(0.) += trail_probability(ch);
        Ok(())
    })
    .map_err(|e| e.1)?;
    if raw || st.raw {
        c.count("qsc_simulator_draws_in_another_way", 1);
    } else {
        compare_distributions(&dist, &want, true).map_err(|e| format!("{}\nqsc_simulator {}", e, args.join(" ")))?;
    }
    for f in dist.keys() {
        c.outcome(&(format!("{:?}", p.pol), f));
    }
    c.sample(|| format!("qsc_simulator {}: {} different outcomes", args.join(" "), dist.len()));
    Ok(())
}
/// one execution of a tool, with the given first random choices (then always 0): what it did and which choices it made
fn tool_once(bin: &str, args: &[String], stdin: Option<&[u8]>, dir: &Dir, prefix: &[u64]) -> (Run, Vec<(u64, u64)>) {
    let p = dir.put("rand", prefix.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ").as_bytes());
    let r = run(&ctool(bin), args, stdin, &dir.0, &[("MCRAND".to_string(), p)]);
    let trail = String::from_utf8_lossy(&dir.get("rand.out").unwrap_or_default()).to_string();
    let ch = trail.lines().map(|l| l.split(' ').take(2).map(|x| x.parse().unwrap()).collect::<Vec<u64>>()).map(|w| (w[0], w[1])).collect();
    (r, ch)
}
/// Larger graphs, whose symmetry enforcing clusters need several rounds: the tool against the
/// library under the same random choices, one choice of the first rounds at a time being varied.
fn sim_symm_large(p: &RandCase, depth: usize, c: &mut Ctx) -> R {
    use fbas_analyzer::simulation::qsc::*;
    use fbas_analyzer::simulation::*;
    use std::cell::RefCell;
    use std::rc::Rc;
    let rel = match p.pol {
        RandPol::Symm(r) => r,
        _ => unreachable!(),
    };
    let dir = Dir::new();
    let mut args = size_args(p.init, p.grow, p.style);
    let (path, stdin, g) = graph_source(&dir, &p.g, p.via, p.style);
    args.extend(strs(&[pol_name(Pol::Symm), &path]));
    args.extend(rel.map(|x| x.to_string()));
    let n = if p.init + p.grow == 0 { g.n() } else { p.init + p.grow };
    let n0 = n - p.grow;
    let gr = g.graph();
    let m = PolM { pol: Pol::Symm, rel, g: g.clone(), rank: gr.get_rank_scores() };
    let library = |prefix: &[u64]| -> (Vec<RQ>, Vec<(u64, u64)>, usize) {
        let made = Rc::new(RefCell::new(vec![]));
        let (m2, p2) = (made.clone(), prefix.to_vec());
        rand::mc::install(Box::new(move |k, _| {
            let mut m = m2.borrow_mut();
            let x = p2.get(m.len()).copied().unwrap_or(0).min(k - 1);
            m.push((x, k));
            x
        }));
        let mut sim = Simulator::new(fbas_analyzer::Fbas::new_generic_unconfigured(n0), Rc::new(HigherTierNeighborsQsc::new(gr.clone(), rel, true)), Rc::new(monitors::DummyMonitor));
        let rounds = sim.simulate_global_reevaluation(n0);
        sim.simulate_growth(p.grow);
        rand::mc::uninstall();
        let made = made.borrow().clone();
        (rqs(&sim.finalize()), made, rounds)
    };
    let stable = |f: &[RQ]| -> R { (0..f.len()).try_for_each(|i| m.right(i, f.len(), f, &f[i])) };
    let (_, first, _) = library(&[]);
    let mut prefixes: Vec<Vec<u64>> = vec![vec![]];
    for i in 0..first.len().min(depth) {
        for x in 1..first[i].1 {
            let mut v = vec![0; i];
            v.push(x);
            prefixes.push(v);
        }
    }
    let lib: Vec<_> = prefixes.iter().map(|x| library(x)).collect();
    let all_stable = lib.iter().all(|x| stable(&x.0).is_ok());
    let mut rounds = 0;
    for (prefix, l) in prefixes.iter().zip(&lib) {
        rounds = rounds.max(l.2);
        let (r, made) = tool_once("qsc_simulator", &args, stdin.as_deref(), &dir, prefix);
        let what = |e: String| format!("{}\nqsc_simulator {}{}\nrandom choices (choice, out of) {:?}\ngraph {:?}\n{}", e, args.join(" "), if stdin.is_some() { " < graph" } else { "" }, made, g.lists(), r.show());
        ensure(r.ok(), || what("it does not exit successfully".into()))?;
        let f: Vec<RQ> = printed_fbas(&r.out).map_err(what)?;
        ensure(f.len() == n, || what(format!("{} nodes, should be {}", f.len(), n)))?;
        if made == l.1 {
            for i in 0..n {
                ensure(f[i].sorted() == l.0[i].sorted(), || what(format!("node {} has {}, the policy gave {}", i, show_q(&f[i]), show_q(&l.0[i]))))?;
            }
        }
        if all_stable {
            stable(&f).map_err(|e| what(format!("not stable, although the policy is after {} rounds: {}", l.2, e)))?;
        }
        c.traces += 1;
        c.states += 1;
        c.op();
        c.outcome(&f);
    }
    c.sample(|| format!("qsc_simulator {}: up to {} rounds, stable in every order: {}", args.join(" "), rounds, all_stable));
    Ok(())
}
#[derive(Clone, Debug)]
enum GenCase {
    Ba(usize, usize, usize),
    Ws(usize, usize, f64),
}
/// nodes, links
fn printed_graph(text: &str) -> Result<G, String> {
    let mut lines = vec![];
    ensure(text.starts_with('#'), || "there is no head comment".into())?;
    for l in text.lines() {
        if l.trim().is_empty() || l.starts_with('#') {
            continue;
        }
        let w: Vec<&str> = l.split('|').collect();
        let n = |k: usize| w.get(k).and_then(|x| x.trim().parse::<i64>().ok()).ok_or(format!("cannot read line {:?}", l));
        lines.push((n(0)? as usize, n(1)? as usize, n(2)? as i32));
    }
    let distinct: BTreeSet<_> = lines.iter().collect();
    ensure(distinct.len() == lines.len(), || "a link is listed twice".into())?;
    Ok(read_model(&lines))
}
fn gen_case(gc: &GenCase, shuffle: bool, file: bool, c: &mut Ctx) -> R {
    use fbas_analyzer::simulation::Graph;
    let dir = Dir::new();
    let mut args = vec![];
    if !shuffle {
        args.push("--dont-shuffle".to_string());
    }
    if file {
        args.extend(strs(&["-o", &dir.path("out.bz2")]));
    }
    let n = match gc {
        GenCase::Ba(n, m0, m) => {
            args.extend(strs(&["BarabasiAlbert", &n.to_string(), &m0.to_string(), &m.to_string()]));
            *n
        }
        GenCase::Ws(n, k, b) => {
            args.extend(strs(&["WattsStrogatz", &n.to_string(), &k.to_string(), &b.to_string()]));
            *n
        }
    };
    let build = || match gc {
        GenCase::Ba(n, m0, m) => Graph::new_random_scale_free(*n, *m0, *m),
        GenCase::Ws(n, k, b) => Graph::new_random_small_world(*n, *k, *b),
    };
    let mut dist: BTreeMap<G, f64> = BTreeMap::new();
    let mut runs = 0u64;
    let raw = tool_dfs("graph_generator", &args, None, &dir, TOOL_CAP, c, |r, prob| {
        runs += 1;
        let text = if file {
            ensure(r.out.trim().is_empty(), || "it prints although a file is named".into())?;
            use std::io::Read;
            let b = dir.get("out.bz2").ok_or("there is no file")?;
            let mut s = String::new();
            bzip2::read::BzDecoder::new(&b[..]).read_to_string(&mut s).map_err(|e| format!("not a bzip2 file: {}", e))?;
            s
        } else {
            r.out.clone()
        };
        let g = printed_graph(&text)?;
        ensure(g.n() == n, || format!("{} nodes, should be {}", g.n(), n))?;
        simple_undirected(&g)?;
        match gc {
            GenCase::Ba(n, m0, m) => {
                ensure(g.edges() == m0 * (m0 - 1) + 2 * (n - m0) * m, || format!("{} links: {:?}", g.edges() / 2, g.lists()))?;
                if !shuffle {
                    for i in 0..*n {
                        let earlier = g.0[i].iter().filter(|&&b| b < i).count();
                        ensure(earlier == if i < *m0 { i } else { *m }, || format!("node {} is linked to {} earlier nodes: {:?}", i, earlier, g.lists()))?;
                    }
                }
            }
            GenCase::Ws(n, k, b) => {
                ensure(g.edges() == n * k, || format!("{} links: {:?}", g.edges() / 2, g.lists()))?;
                if *b == 0. && !shuffle {
                    ensure(g == lattice(*n, *k), || format!("not the ring lattice: {:?}", g.lists()))?;
                }
            }
        }
        // read back by the simulator, now and then
        if runs % 16 == 1 {
            let (path, stdin) = if file { (dir.path("out.bz2"), None) } else if runs % 32 == 1 { (dir.put("out.txt", text.as_bytes()), None) } else { ("-".to_string(), Some(text.clone().into_bytes())) };
            let a = vec!["AllNeighbors".to_string(), path];
            let r = run(&tool("qsc_simulator"), &a, stdin.as_deref(), &dir.0, &[]);
            let what = |e: String| format!("{}\nqsc_simulator {}\ngraph {:?}\n{}", e, a.join(" "), g.lists(), r.show());
            ensure(r.ok(), || what("it does not exit successfully".into()))?;
            let f = printed_fbas(&r.out).map_err(what)?;
            ensure(f.len() == n, || what(format!("{} nodes", f.len())))?;
            let m = PolM { pol: Pol::All, rel: None, g: g.clone(), rank: vec![] };
            for i in 0..n {
                m.right(i, n, &f, &f[i]).map_err(what)?;
            }
        }
        *dist.entry(g).or_insert(0.) += prob;
        Ok(())
    })?;
    let mut want: BTreeMap<G, f64> = BTreeMap::new();
    let st = crate::explore::dfs(1 << 40, |ch| -> R {
        let g = build();
        let g = crate::p_sim::model(&if shuffle { g.shuffled() } else { g })?;
        *want.entry(g).or_insert(0.) += trail_probability(ch);
        Ok(())
    })
    .map_err(|e| e.1)?;
    if raw || st.raw {
        c.count("graph_generator_draws_in_another_way", 1);
    } else {
        compare_distributions(&dist, &want, true).map_err(|e| format!("{}\ngraph_generator {}", e, args.join(" ")))?;
    }
    for g in dist.keys() {
        c.outcome(g);
    }
    c.sample(|| format!("graph_generator {}: {} executions, {} different graphs", args.join(" "), runs, dist.len()));
    Ok(())
}
fn list_family<T: std::fmt::Debug + Send + Sync + 'static>(name: &str, cases: Vec<T>, f: impl Fn(&T, &mut Ctx) -> R + Send + Sync + 'static) -> Family {
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    Family::new(name, cases.len() as u64, move |i, c| f(&cases[i as usize], c).or_else(|e| fail(format!("{:?}", cases[i as usize]), e)), move |i| format!("{:?}", c2[i as usize]))
}
fn c32(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    // graphs whose last node has a link, so that they are read with all their nodes
    let whole = |g: &G| g.n() > 0 && read_model(&as_rel(g, 0)).n() == g.n();
    let mut graphs: Vec<G> = vec![];
    for i in 0..1u64 << 6 {
        graphs.push(G::directed(3, i));
    }
    for i in 0..1u64 << 4 {
        graphs.push(G::directed(2, i));
    }
    for i in 0..1u64 << 6 {
        graphs.push(G::undir(4, i));
    }
    graphs.extend(structured());
    if t == Tier::Thorough {
        for i in 0..1u64 << 10 {
            graphs.push(G::undir(5, i));
        }
        for i in (0..1u64 << 12).step_by(5) {
            graphs.push(G::directed(4, i));
        }
    }
    graphs.retain(whole);
    let rels = [None, Some(0.5), Some(0.67), Some(1.0), Some(0.0), Some(0.34), Some(1.5), Some(2.0)];
    let mut cs = vec![];
    let mut k = 0usize;
    for g in &graphs {
        let n = g.n();
        let mut sizes = vec![(0, 0), (n, 0), (0, n), (1, n - 1), (1, 0), (n - 1, 1), (n + 1, 0), (n, 2)];
        if n > 2 {
            sizes.extend([(2, 0), (1, 1), (n - 1, 0), (0, 1)]);
        }
        for pol in [Pol::All, Pol::Higher, Pol::Rank] {
            for &(init, grow) in &sizes {
                for (j, rel) in rels.iter().enumerate() {
                    k += 1;
                    if t == Tier::Quick && (k / 5 + j) % 5 != 0 && !(rel.is_none() && (init, grow) == (0, 0)) {
                        continue;
                    }
                    cs.push(SimCase { pol, g: g.clone(), rel: *rel, init, grow, via: k, style: k / 3 + j });
                }
            }
        }
    }
    for pol in [Pol::Ideal, Pol::Safe] {
        for init in 0..=t.pick(9, 20) as usize {
            for grow in 0..=t.pick(9, 20) as usize {
                cs.push(SimCase { pol, g: G::new(0), rel: None, init, grow, via: 0, style: init + 2 * grow });
            }
        }
    }
    v.push(list_family("policies without chance", cs, |p, c| sim_deterministic(p, c)));
    let mut cs = vec![];
    let mut k = 0usize;
    let mut add = |pol: RandPol, size: usize, g: G, init: usize, grow: usize| {
        k += 1;
        cs.push(RandCase { pol, size, g, init, grow, via: k, style: k / 2 });
    };
    let e = G::new(1);
    for size in 1..=4usize {
        for (i, g) in [(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (1, 1), (2, 1), (1, 2)] {
            if i + g == 3 && g > 1 && size > 1 && t == Tier::Quick {
                continue;
            }
            add(RandPol::Random, size, e.clone(), i, g);
        }
    }
    let fame: Vec<G> = [tiers(&[1, 2]), tiers(&[2, 1]), G::directed(3, 0b001011), G::directed(3, 0b110100), G::undir(3, 7), G::directed(2, 1), G::directed(2, 3), G::directed(3, 0b100001)].into_iter().filter(|g| whole(g)).collect();
    for g in &fame {
        for size in 1..=3usize {
            for thr in [None, Some(1), Some(2)] {
                for (i, gr) in [(0, 0), (2, 0), (1, 1), (2, 1), (0, 2)] {
                    if i + gr > g.n() || (size + thr.unwrap_or(0) + i) % 2 != 0 && t == Tier::Quick {
                        continue;
                    }
                    add(RandPol::Fame(thr), size, g.clone(), i, gr);
                }
            }
        }
    }
    for g in graphs.iter().filter(|g| g.n() <= 3).chain([tiers(&[2, 2]), tiers(&[1, 3]), G::undir(4, 63)].iter()) {
        for (j, rel) in rels.iter().enumerate() {
            for (i, gr) in [(0, 0), (2, 0), (3, 0), (1, 1), (2, 1)] {
                if i + gr > g.n() || (i + gr == 0 && g.n() > 3) || (t == Tier::Quick && ((g.edges() + i + gr) % 6 != j || (i + gr != 2 && g.edges() % 3 != 1) || (i == 2 && gr == 1 && g.edges() % 2 == 1))) {
                    continue;
                }
                add(RandPol::Symm(*rel), 0, g.clone(), i, gr);
            }
        }
    }
    v.push(list_family("policies with chance: every random choice", cs, |p, c| sim_random(p, c)));
    let mut cs = vec![];
    for (j, g) in structured().into_iter().chain([G::undir(5, 0b1010010101), G::undir(5, 0b0110110011), G::undir(6, 0b100110010110101)]).enumerate() {
        if !whole(&g) {
            continue;
        }
        let n = g.n();
        for (k, (init, grow)) in [(0, 0), (n, 0), (n / 2, n - n / 2), (0, n), (n - 1, 2), (n + 2, 0)].into_iter().enumerate() {
            for rel in [None, Some(0.5), Some(1.0)] {
                if rel.is_none() || (j + k) % 3 == 0 {
                    cs.push(RandCase { pol: RandPol::Symm(rel), size: 0, g: g.clone(), init, grow, via: j + k, style: j / 2 + k });
                }
            }
        }
    }
    v.push(list_family("symmetry enforcing on larger graphs", cs, move |p, c| sim_symm_large(p, t.pick(4, 40) as usize, c)));
    let mut cs = vec![];
    for (gc, shuf) in [
        (GenCase::Ba(2, 2, 1), true),
        (GenCase::Ba(3, 2, 1), true),
        (GenCase::Ba(3, 1, 1), true),
        (GenCase::Ba(3, 2, 2), true),
        (GenCase::Ba(4, 2, 1), true),
        (GenCase::Ba(4, 3, 2), true),
        (GenCase::Ba(4, 2, 2), false),
        (GenCase::Ba(5, 3, 1), false),
        (GenCase::Ba(5, 2, 1), false),
        (GenCase::Ws(3, 2, 0.), true),
        (GenCase::Ws(3, 2, 0.5), true),
        (GenCase::Ws(4, 2, 0.), true),
        (GenCase::Ws(4, 2, 0.5), false),
        (GenCase::Ws(4, 2, 1.), false),
        (GenCase::Ws(5, 2, 0.), false),
        (GenCase::Ws(5, 2, 0.25), false),
        (GenCase::Ws(5, 4, 0.5), false),
        (GenCase::Ws(6, 4, 0.), false),
    ] {
        for file in [false, true] {
            if shuf {
                cs.push((gc.clone(), true, file));
            }
            cs.push((gc.clone(), false, file));
        }
    }
    if t == Tier::Thorough {
        cs.push((GenCase::Ws(4, 2, 0.5), true, false));
        cs.push((GenCase::Ws(4, 2, 1.), true, true));
        cs.push((GenCase::Ba(5, 4, 2), false, true));
        cs.push((GenCase::Ba(5, 3, 2), false, false));
        cs.push((GenCase::Ws(6, 2, 0.), true, false));
    }
    v.push(list_family("generated graphs: every random choice", cs, |p, c| gen_case(&p.0, p.1, p.2, c)));
    v
}

pub fn property(id: &str, t: Tier) -> Option<Property> {
    let mk = |id: &'static str, rule: &'static str, families: Vec<Family>| {
        Some(Property { id, level: "model_checking", rule, assumptions: vec!["bounded: only the listed universes are explored, each of them completely"], families, hang_s: 400 })
    };
    match id {
        "C28" => mk("C28", "The real tool run with every combination of its 13 options on several documents, and with selected combinations on many more: everything it prints compared with the definitions.", c28(t)),
        "C29" => mk("C29", "The real tool under a controlled scheduler that holds the opening of input files: every order in which analyses can be let go, and every interleaving of the reading of files; every order and naming of arguments; every output row compared with the definitions.", c29(t)),
        "C30" => mk("C30", "The real tool run through every history of runs, with and without update, over every subset of three inputs from several initial output files; and every label of up to two or three special characters: the file compared with a plain model after every run, inputs already covered being made unreadable.", c30(t)),
        "C31" => Some(Property {
            id: "C31",
            level: "fault_enumeration",
            rule: "The real tool killed at every point where it waits under every order of its analyses, and with a kill, torn write or failure injected at every single write and opening of its output: what is left compared with the complete output, then completed with the update option.",
            assumptions: vec!["bounded: only the listed universes are explored, each of them completely", "a kill takes away the process, not data already written"],
            families: c31(t),
            hang_s: 400,
        }),
        "C32" => mk("C32", "The real tools run with every listed combination of policy, graph, spelling, source and sizes; where chance is involved, the tools built with a controlled random number generator and run once for every sequence of random choices: what they print compared with the policy's rules and with the exact distribution of outcomes.", c32(t)),
        "C36" => Some(Property {
            id: "C36",
            level: "fault_enumeration",
            rule: "The real tools run on input files cut off at every byte, with every single value made meaningless, with every byte of compressed data changed, or missing; and on existing result files cut off at every byte: each either refused, with a failing exit and nothing of it used, or shown to be without consequence.",
            assumptions: vec!["bounded: only the listed universes are explored, each of them completely", "a cut at the end of a line of an uncompressed graph, or between two compressed streams, leaves a complete graph"],
            families: broken::c36(t),
            hang_s: 400,
        }),
        "C33" => mk("C33", "The real tool run with every combination of its parameters up to a bound, and through every history of runs from several initial files: every row compared with the definitions, existing rows with what they were.", c33(t)),
        _ => None,
    }
}
