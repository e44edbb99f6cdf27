//! C13-C19: reading, writing, reducing, grouping and post-processing.
use crate::engine::*;
use crate::p_analysis::{ensure, f_json, perms, q_json, vecs};
use crate::refm::*;
use crate::universe::*;
use fbas_analyzer::sets::*;
use fbas_analyzer::*;
use serde_json::{json, Value};
use std::sync::Arc;

type R = Result<(), String>;

/// a scratch file that disappears again
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(suffix: &str) -> Scratch {
        use std::sync::atomic::*;
        static N: AtomicU64 = AtomicU64::new(0);
        let d = scratch_dir();
        Scratch(d.join(format!("f{}{}", N.fetch_add(1, Ordering::SeqCst), suffix)))
    }
    pub fn with(suffix: &str, content: &[u8]) -> Scratch {
        let s = Scratch::new(suffix);
        if let Err(e) = std::fs::write(&s.0, content) {
            infra(format!("cannot write scratch file: {}", e));
        }
        s
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
pub fn scratch_dir() -> std::path::PathBuf {
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { std::env::temp_dir() };
    let d = base.join(format!("mc-fbas.{}", std::process::id()));
    if std::fs::create_dir_all(&d).is_err() {
        let d = std::env::temp_dir().join(format!("mc-fbas.{}", std::process::id()));
        if let Err(e) = std::fs::create_dir_all(&d) {
            infra(format!("no scratch directory: {}", e));
        }
        return d;
    }
    d
}
pub fn remove_scratch_dir() {
    for b in ["/dev/shm".into(), std::env::temp_dir()] {
        let _ = std::fs::remove_dir_all(b.join(format!("mc-fbas.{}", std::process::id())));
    }
}

// ---------------------------------------------------------------- the model of a named FBAS
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Named {
    pub keys: Vec<String>,
    pub q: Vec<RQ>,
}
/// drop nested sets that are nothing at all, and sort
pub fn norm(q: &RQ) -> RQ {
    fn drop_(q: &RQ) -> RQ {
        RQ { t: q.t, v: q.v.clone(), inner: q.inner.iter().map(drop_).filter(|x| *x != RQ::default()).collect() }
    }
    drop_(q).sorted()
}
/// names that are almost `k`, but not
pub fn near_names(k: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![k.to_uppercase(), k.to_lowercase(), format!(" {}", k), format!("{} ", k), k.trim().to_string(), format!("{}0", k), format!("{0}{0}", k), format!("\"{}\"", k), format!("{}\u{0}", k)];
    v.push(k.chars().map(|c| if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() }).collect());
    v.push(k.chars().rev().skip(1).collect::<Vec<_>>().into_iter().rev().collect());
    v.push(k.chars().skip(1).collect());
    v.push(k.chars().filter(|c| c.is_alphanumeric()).collect());
    v.push(format!("missing #{}", k));
    v.retain(|x| x != k);
    v
}
/// names that no node has, among the validators of a quorum set and of the sets inside it
fn strangers(q: &mut Value, names: &[String], at: usize) {
    let vs = q["validators"].as_array_mut().unwrap();
    for (j, x) in names.iter().enumerate() {
        let k = (at + j) % (vs.len() + 1);
        vs.insert(k, json!(x));
    }
    if let Some(inner) = q.get_mut("innerQuorumSets").and_then(|x| x.as_array_mut()) {
        inner.iter_mut().for_each(|x| strangers(x, names, at + 1));
    }
}
fn probes(m: &Named) -> Vec<String> {
    let mut p: Vec<String> = ["n0", "n1", "n2", "n3", "n4", "n5", "zz", "", "A", "B"].iter().map(|s| s.to_string()).collect();
    p.extend(m.keys.clone());
    if m.keys.len() <= 12 {
        p.extend(m.keys.iter().flat_map(|k| near_names(k)));
    }
    p.sort();
    p.dedup();
    p
}
/// everything observable about an FBAS
pub fn observe(f: &Fbas, m: &Named, canon: &dyn Fn(&RQ) -> RQ) -> R {
    let n = m.keys.len();
    ensure(f.number_of_nodes() == n, || format!("number_of_nodes = {}, should be {}", f.number_of_nodes(), n))?;
    ensure(f.all_nodes().iter().collect::<Vec<_>>() == (0..n).collect::<Vec<_>>(), || "all_nodes differs".into())?;
    for i in 0..n {
        let got = f.get_quorum_set(i).map(|q| canon(&from_qs(&q)));
        ensure(got == Some(canon(&m.q[i])), || format!("quorum set of node {} is {}, should be {}", i, got.as_ref().map(show_q).unwrap_or("absent".into()), show_q(&canon(&m.q[i]))))?;
    }
    ensure(f.get_quorum_set(n).is_none(), || format!("there is a quorum set for node {}", n))?;
    let mut index: std::collections::HashMap<&str, usize> = Default::default();
    for (i, k) in m.keys.iter().enumerate() {
        index.entry(k).or_insert(i);
    }
    for p in probes(m) {
        let want = index.get(p.as_str()).copied();
        let got = f.get_node_id(&p);
        ensure(got == want, || format!("get_node_id({:?}) = {:?}, should be {:?}", p, got, want))?;
    }
    // the written form
    let v: Value = serde_json::from_str(&f.to_json_string()).map_err(|e| format!("to_json_string: {}", e))?;
    let w: Value = serde_json::from_str(&f.to_json_string_pretty()).map_err(|e| format!("to_json_string_pretty: {}", e))?;
    let d: Value = serde_json::from_str(&f.to_string()).map_err(|e| format!("Display: {}", e))?;
    ensure(v == w && v == d && v == serde_json::to_value(f).unwrap(), || "the JSON forms differ".into())?;
    let a = v.as_array().ok_or("JSON is not a list")?;
    ensure(a.len() == n, || format!("JSON lists {} nodes", a.len()))?;
    for i in 0..n {
        ensure(a[i]["publicKey"] == json!(m.keys[i]), || format!("JSON: node {} is called {}, not {:?}", i, a[i]["publicKey"], m.keys[i]))?;
        let q = parse_q(&a[i]["quorumSet"], &|k| index.get(k).copied())?;
        ensure(canon(&q) == canon(&m.q[i]), || format!("JSON: quorum set of node {} is {}, should denote {}", i, a[i]["quorumSet"], show_q(&m.q[i])))?;
    }
    Ok(())
}
pub fn parse_q(v: &Value, id: &dyn Fn(&str) -> Option<usize>) -> Result<RQ, String> {
    let t = v["threshold"].as_u64().ok_or_else(|| format!("no threshold in {}", v))?;
    let mut vs = vec![];
    for x in v.get("validators").and_then(|x| x.as_array()).cloned().unwrap_or_default() {
        let k = x.as_str().ok_or_else(|| format!("not a key: {}", x))?;
        vs.push(id(k).ok_or_else(|| format!("unknown validator {:?}", k))?);
    }
    let mut inner = vec![];
    for x in v.get("innerQuorumSets").and_then(|x| x.as_array()).cloned().unwrap_or_default() {
        inner.push(parse_q(&x, id)?);
    }
    Ok(RQ { t, v: vs, inner })
}

// ---------------------------------------------------------------- C13
fn sorted(q: &RQ) -> RQ {
    q.sorted()
}
pub fn key_sets() -> Vec<Vec<&'static str>> {
    vec![
        vec!["A", "B", "C", "D", "E", "F", "G", "H"],
        vec!["n1", "n0", "n3", "n2", "n5", "n4", "n7", "n6"],
        vec!["", "\"q\"", "é\\n", "a b", "\u{0}", "\n", "日本", "😀"],
    ]
}
fn c13_doc(f: &RF, keys: &[&str], style: u64) -> String {
    let key = |x: usize| keys[x].to_string();
    let arr: Vec<Value> = f
        .q
        .iter()
        .enumerate()
        .map(|(i, q)| {
            let mut e = json!({"publicKey": keys[i]});
            let omit = *q == RQ::default() && (style + i as u64) % 2 == 0;
            if !omit {
                e["quorumSet"] = q_json(q, &key);
                // strangers among the validators, and unknown fields
                if (style + i as u64) % 3 == 1 {
                    let ks = &keys[..f.n()];
                    let mut names = near_names(keys[(style / 3) as usize % f.n()]);
                    names.extend(["stranger", "n99", "n0", "0", "#0", "missing #0", "missing #1"].map(String::from));
                    names.retain(|x| !ks.contains(&x.as_str()));
                    strangers(&mut e["quorumSet"], &names, i);
                    e["quorumSet"]["hashKey"] = json!("xyz");
                }
                if (style + i as u64) % 4 == 2 && q.inner.is_empty() {
                    e["quorumSet"]["innerQuorumSets"] = json!([]);
                }
            }
            match (style + i as u64) % 5 {
                0 => e["isp"] = json!("Some ISP, Inc."),
                1 => e["geoData"] = json!({"countryName": "X", "countryCode": "x"}),
                2 => {
                    e["isp"] = Value::Null;
                    e["geoData"] = Value::Null;
                    e["active"] = json!(true);
                    e["statistics"] = json!({"a": [1, 2, {"publicKey": "A"}]});
                }
                3 => e["geoData"] = json!({}),
                _ => {}
            }
            e
        })
        .collect();
    if style % 2 == 0 {
        Value::Array(arr).to_string()
    } else {
        serde_json::to_string_pretty(&arr).unwrap()
    }
}
fn c13(f: &RF, keys: &[&str], style: u64, c: &mut Ctx) -> R {
    let m = Named { keys: keys[..f.n()].iter().map(|s| s.to_string()).collect(), q: f.q.clone() };
    let text = c13_doc(f, keys, style);
    let a = Fbas::from_json_str(&text);
    observe(&a, &m, &sorted).map_err(|e| format!("reading {}\n{}", text, e))?;
    if style % 7 == 3 {
        let s = Scratch::with(".json", text.as_bytes());
        let b = Fbas::from_json_file(&s.0);
        ensure(a == b, || format!("reading {} from a file differs", text))?;
    }
    for (what, t) in [("to_json_string", a.to_json_string()), ("to_json_string_pretty", a.to_json_string_pretty())] {
        let b = Fbas::from_json_str(&t);
        ensure(a == b, || format!("{} and reading it back does not yield an equal FBAS\nread {}\nwrote {}", what, text, t))?;
        observe(&b, &m, &sorted).map_err(|e| format!("after {} and reading it back ({})\n{}", what, t, e))?;
    }
    let d: Fbas = serde_json::from_value(serde_json::to_value(&a).unwrap()).map_err(|e| e.to_string())?;
    ensure(d == a, || "serde round trip differs".into())?;
    c.ops(6);
    c.outcome(&a.to_json_string());
    Ok(())
}
fn c13_family(u: U) -> Family {
    let g = u.gen.clone();
    let g2 = u.gen.clone();
    Family::new(
        u.name.clone(),
        u.len,
        move |i, ctx| {
            let f = g(i);
            for (k, keys) in key_sets().iter().enumerate() {
                if f.n() > keys.len() {
                    continue;
                }
                ctx.states += 1;
                ctx.traces += 1;
                let style = i.wrapping_mul(7).wrapping_add(k as u64);
                if let Err(e) = c13(&f, keys, style, ctx) {
                    return fail(format!("{} keys {}", show(&f), k), e);
                }
                if i % 5003 == 11 && k == 2 {
                    ctx.sample(|| c13_doc(&f, keys, style));
                }
            }
            Ok(())
        },
        move |i| show(&g2(i)),
    )
}
// ---- histories of building, changing, writing, reading and reducing
#[derive(Clone, Debug, PartialEq)]
enum Op {
    Add(usize),
    Swap(usize, usize),
    Json(bool),
    Drop(usize),
    Standard,
}
fn op_alphabet() -> Vec<RQ> {
    vec![RQ::default(), RQ::flat(2, &[2, 0, 1]), RQ::new(1, &[1, 0, 1], vec![RQ::flat(2, &[2, 1]), RQ::flat(1, &[0])]), RQ::flat(1, &[0]), RQ::new(u64::MAX, &[2], vec![RQ::new(1, &[], vec![RQ::flat(3, &[1, 0])])])]
}
fn ops(with_drop: bool, nq: usize) -> Vec<Op> {
    let mut r = vec![];
    for q in 0..nq {
        r.push(Op::Add(q));
    }
    r.push(Op::Json(false));
    r.push(Op::Json(true));
    for i in 0..3 {
        for q in 1..nq {
            r.push(Op::Swap(i, q));
        }
    }
    if with_drop {
        for i in 0..3 {
            r.push(Op::Drop(i));
        }
        r.push(Op::Standard);
    }
    r
}
/// validators of nodes that do not exist are outside of what is promised
fn clip(q: &RQ, n: usize) -> RQ {
    q.filter_map(&|x| if x < n { Some(x) } else { None })
}
fn reduce(m: &Named, keep: &[usize]) -> Named {
    Named { keys: keep.iter().map(|&i| m.keys[i].clone()).collect(), q: keep.iter().map(|&i| m.q[i].filter_map(&|x| keep.iter().position(|&y| y == x))).collect() }
}
fn model_rf(m: &Named) -> RF {
    RF { q: m.q.clone() }
}
fn relevant(f: &RF) -> u32 {
    if f.n() == 0 {
        return 0;
    }
    let full = ((1u64 << f.n()) - 1) as u32;
    let sat = f.max_quorum(full);
    sccs_within(f, sat).into_iter().filter(|&x| f.max_quorum(x) != 0).fold(0, |a, b| a | b)
}
fn history(start: usize, seq: &[&Op], qs: &[RQ], c: &mut Ctx) -> R {
    let mut f = Fbas::new_generic_unconfigured(start);
    let mut m = Named { keys: (0..start).map(|i| format!("n{}", i)).collect(), q: vec![RQ::default(); start] };
    let mut written = false;
    for (k, op) in seq.iter().enumerate() {
        let n = m.keys.len();
        match op {
            Op::Add(q) => {
                let key = format!("n{}", n);
                if m.keys.contains(&key) || n >= 5 {
                    continue; // would be refused
                }
                let q = clip(&qs[*q], n + 1);
                let id = f.add_generic_node(to_qs(&q));
                ensure(id == n, || format!("add_generic_node returned {} instead of {}", id, n))?;
                m.keys.push(key);
                m.q.push(q);
            }
            Op::Swap(i, q) => {
                if *i >= n {
                    continue;
                }
                let q = clip(&qs[*q], n);
                let old = f.swap_quorum_set(*i, to_qs(&q));
                let want = m.q[*i].clone();
                ensure(norm(&from_qs(&old)) == norm(&want), || format!("swap_quorum_set returned {:?} instead of {}", old, show_q(&want)))?;
                m.q[*i] = q;
            }
            Op::Json(pretty) => {
                let t = if *pretty { f.to_json_string_pretty() } else { f.to_json_string() };
                let g = Fbas::from_json_str(&t);
                if written {
                    ensure(g == f, || format!("step {} of {:?}: writing and reading back changed the FBAS", k, seq))?;
                }
                f = g;
            }
            Op::Drop(i) => {
                if *i >= n {
                    continue;
                }
                let keep: Vec<usize> = (0..n).filter(|x| x != i).collect();
                f = f.shrunken(keep.iter().copied().collect()).0;
                m = reduce(&m, &keep);
            }
            Op::Standard => {
                f = f.to_standard_form();
                let mut keep = bits(relevant(&model_rf(&m)));
                keep.sort_by_key(|&i| m.keys[i].clone());
                m = reduce(&m, &keep);
            }
        }
        written = matches!(op, Op::Json(_) | Op::Standard);
        observe(&f, &m, &norm).map_err(|e| format!("history {:?} from {} unconfigured nodes, after step {}\n{}", seq, start, k, e))?;
        // quorums
        let rf = model_rf(&m);
        for x in 0..1u32 << m.keys.len() {
            let s: NodeIdSet = bits(x).into_iter().collect();
            ensure(f.is_quorum(&s) == rf.is_quorum(x), || format!("history {:?} from {} nodes, after step {}: is_quorum({:?}) = {}", seq, start, k, bits(x), !rf.is_quorum(x)))?;
        }
        c.ops(1);
    }
    c.outcome(&m);
    Ok(())
}
fn history_family(name: &str, with_drop: bool, nq: usize, depth: u32) -> Family {
    let ops = Arc::new(ops(with_drop, nq));
    let qs = op_alphabet();
    let l = ops.len() as u64;
    let total = 3 * l.pow(depth);
    let o2 = ops.clone();
    let dec = move |i: u64, ops: &[Op]| -> (usize, Vec<usize>) {
        let start = (i % 3) as usize * 1 + if i % 3 == 2 { 1 } else { 0 };
        let mut x = i / 3;
        let mut v = vec![];
        for _ in 0..depth {
            v.push((x % ops.len() as u64) as usize);
            x /= ops.len() as u64;
        }
        (start, v)
    };
    Family::new(
        name,
        total,
        move |i, ctx| {
            let (start, v) = dec(i, &ops);
            let seq: Vec<&Op> = v.iter().map(|&x| &ops[x]).collect();
            ctx.states += 1;
            ctx.traces += 1;
            if i % 4001 == 9 {
                ctx.sample(|| format!("start {} nodes, {:?}", start, seq));
            }
            match history(start, &seq, &qs, ctx) {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("{} {:?}", start, seq), e),
            }
        },
        move |i| {
            let (start, v) = dec(i, &o2);
            format!("start with {} unconfigured nodes, then {:?} with quorum sets {:?}", start, v.iter().map(|&x| &o2[x]).collect::<Vec<_>>(), op_alphabet().iter().map(show_q).collect::<Vec<_>>())
        },
    )
}

// ---------------------------------------------------------------- groupings
/// groups as (name, members in listed order)
pub type Groups = Vec<(String, Vec<usize>)>;
pub fn groups_json(g: &Groups, key: &dyn Fn(usize) -> String) -> String {
    Value::Array(g.iter().map(|(n, v)| json!({"name": n, "validators": v.iter().map(|&x| key(x)).collect::<Vec<_>>()})).collect()).to_string()
}
/// what groupings say, from their written form
fn read_groups(g: &Groupings, id: &dyn Fn(&str) -> Option<usize>) -> Result<Groups, String> {
    let v = serde_json::to_value(g).map_err(|e| e.to_string())?;
    let mut r = vec![];
    for e in v.as_array().ok_or("groupings are not written as a list")? {
        let n = e["name"].as_str().ok_or("group without name")?.to_string();
        let mut m = vec![];
        for x in e["validators"].as_array().ok_or("group without validators")? {
            let k = x.as_str().ok_or("not a key")?;
            m.push(id(k).ok_or_else(|| format!("unknown member {:?}", k))?);
        }
        r.push((n, m));
    }
    Ok(r)
}
pub fn observe_groups(g: &Groupings, want: &Groups, keys: &[String], fbas: &Fbas) -> R {
    let id = |k: &str| keys.iter().position(|x| x == k);
    let got = read_groups(g, &id)?;
    ensure(got == *want, || format!("groups are {:?}, should be {:?}", got, want))?;
    ensure(g.number_of_groupings() == want.len(), || format!("number_of_groupings = {}", g.number_of_groupings()))?;
    let n = keys.len();
    for x in 0..n + 1 {
        let holders: Vec<&(String, Vec<usize>)> = want.iter().filter(|(_, m)| m.contains(&x)).collect();
        match g.get_by_member(x) {
            None => ensure(holders.is_empty(), || format!("get_by_member({}) finds nothing", x))?,
            Some(f) => {
                // the fields are private: identify the group through its name
                let ok = holders.iter().any(|(nm, _)| g.get_by_name(nm).map(|h| h == f).unwrap_or(false) || want.iter().filter(|w| w.0 == *nm).count() > 1);
                ensure(ok, || format!("get_by_member({}) = {:?}", x, f))?
            }
        }
    }
    for (i, (nm, m)) in want.iter().enumerate() {
        if want.iter().position(|w| w.0 == *nm) != Some(i) {
            continue;
        }
        let f = g.get_by_name(nm).ok_or_else(|| format!("get_by_name({:?}) finds nothing", nm))?;
        for &x in m {
            if want.iter().filter(|w| w.1.contains(&x)).count() == 1 {
                ensure(g.get_by_member(x) == Some(f), || format!("get_by_name({:?}) and get_by_member({}) disagree: {:?} / {:?}", nm, x, f, g.get_by_member(x)))?;
            }
        }
    }
    ensure(g.get_by_name("no such group").is_none(), || "get_by_name finds a group that does not exist".into())?;
    let names: std::collections::BTreeSet<&str> = want.iter().map(|w| w.0.as_str()).collect();
    for nm in names.iter().take(4) {
        for x in near_names(nm) {
            let f = g.get_by_name(&x);
            ensure(f.is_some() == names.contains(x.as_str()), || format!("get_by_name({:?}) = {:?}, with groups called {:?}", x, f, names))?;
        }
    }
    // merged IDs
    let disjoint = (0..n).all(|x| want.iter().filter(|w| w.1.contains(&x)).count() <= 1);
    if disjoint {
        for x in 0..n {
            let r = g.merge_node(x);
            match want.iter().find(|w| w.1.contains(&x)) {
                None => ensure(r == x, || format!("merge_node({}) = {} for a node in no group", x, r))?,
                Some((nm, m)) => {
                    ensure(m.contains(&r), || format!("merge_node({}) = {}, not a member of {:?}", x, r, nm))?;
                    for &y in m {
                        ensure(g.merge_node(y) == r, || format!("members {} and {} of {:?} have different representatives", x, y, nm))?;
                    }
                }
            }
        }
    }
    // round trip
    let back = serde_json::to_string(g).map_err(|e| e.to_string())?;
    let h = Groupings::from_json_str(&back, fbas);
    ensure(h == *g, || format!("writing groupings and reading them back changes them: {}", back))?;
    let got = read_groups(&h, &id)?;
    ensure(got == *want, || format!("groupings after writing and reading back: {:?}", got))
}
const NAMES: [&str; 16] = ["A", "", ",", ".", "A.", "A,", "A.,", "a", "É.", "é", "A..", "B Ltd., Inc.", ",.,", "B", "\"x\\", "A, ."];
pub fn norm_name(s: &str) -> String {
    let t: String = s.chars().filter(|&c| c != ',').collect();
    t.strip_suffix('.').map(|x| x.to_string()).unwrap_or(t)
}
fn c15_by_data(n: usize, choice: &[usize], isp: bool, keys: &[String], c: &mut Ctx) -> R {
    let mut arr = vec![];
    let mut want: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
    for i in 0..n {
        let mut e = json!({"publicKey": keys[i], "quorumSet": {"threshold": 1, "validators": [keys[i]]}});
        let ch = choice[i];
        if ch < NAMES.len() {
            if isp {
                e["isp"] = json!(NAMES[ch]);
            } else {
                let nm = NAMES[ch];
                e["geoData"] = json!({ "countryName": nm, "countryCode": "q" });
            }
            want.entry(norm_name(NAMES[ch])).or_default().push(i);
        } else if ch == NAMES.len() {
            // explicitly no data
            e["isp"] = Value::Null;
            e["geoData"] = if i % 2 == 0 { json!({ "countryName": null }) } else { json!({}) };
        }
        // the other kind of data is there, too
        if isp {
            e["geoData"] = json!({"countryName": "Other"});
        } else {
            e["isp"] = json!("Other");
        }
        if ch == NAMES.len() {
            if isp {
                e["isp"] = Value::Null;
            } else {
                e["geoData"] = if i % 2 == 0 { json!({ "countryName": null }) } else { Value::Null };
            }
        }
        arr.push(e);
    }
    let text = Value::Array(arr).to_string();
    let fbas = Fbas::from_json_str(&text);
    let g = if isp { Groupings::isps_from_json_str(&text, &fbas) } else { Groupings::countries_from_json_str(&text, &fbas) };
    let want: Groups = want.into_iter().collect();
    c.ops(2);
    c.outcome(&want);
    observe_groups(&g, &want, keys, &fbas).map_err(|e| format!("{} of {}\n{}", if isp { "ISPs" } else { "countries" }, text, e))?;
    if choice.iter().sum::<usize>() % 29 == 0 {
        let s = Scratch::with(".json", text.as_bytes());
        let h = if isp { Groupings::isps_from_json_file(&s.0, &fbas) } else { Groupings::countries_from_json_file(&s.0, &fbas) };
        ensure(h == g, || "reading from a file differs".into())?;
    }
    Ok(())
}
/// every character, in every place of a name, alone and next to what is normalised
fn c15_characters() -> Family {
    let mut cs: Vec<char> = (0u32..0x250).filter_map(char::from_u32).collect();
    cs.extend(['\u{2028}', '\u{200b}', '\u{feff}', '\u{ff0c}', '\u{ff0e}', '\u{3002}', '\u{fffd}', '\u{1f600}', '\u{10ffff}', 'ﬁ', 'İ', 'ß', 'ẞ', 'Ω']);
    let cs = Arc::new(cs);
    let c2 = cs.clone();
    Family::new(
        "every character in names",
        cs.len() as u64,
        move |i, ctx| {
            let ch = cs[i as usize];
            let names: Vec<String> = vec![format!("{}", ch), format!("A{}", ch), format!("{}A", ch), format!("A{}B", ch), format!("A{}.", ch), format!("A.{}", ch), format!("{}{}", ch, ch), "A".into(), format!("{},A", ch), format!("A{}", ch), "AB".into(), ch.to_uppercase().collect(), ch.to_lowercase().collect(), format!(" {} ", ch)];
            for isp in [true, false] {
                let mut want: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
                let mut arr = vec![];
                let keys: Vec<String> = (0..names.len()).map(|k| format!("K{}{}", names[k], k)).collect();
                for (k, nm) in names.iter().enumerate() {
                    let mut e = json!({"publicKey": keys[k], "quorumSet": {"threshold": 1, "validators": [keys[k]]}});
                    if isp {
                        e["isp"] = json!(nm);
                    } else {
                        e["geoData"] = json!({ "countryName": nm });
                    }
                    want.entry(norm_name(nm)).or_default().push(k);
                    arr.push(e);
                }
                let text = Value::Array(arr).to_string();
                let fbas = Fbas::from_json_str(&text);
                let g = if isp { Groupings::isps_from_json_str(&text, &fbas) } else { Groupings::countries_from_json_str(&text, &fbas) };
                let want: Groups = want.into_iter().collect();
                ctx.states += 1;
                ctx.traces += 1;
                ctx.ops(2);
                ctx.outcome(&want);
                if let Err(e) = observe_groups(&g, &want, &keys, &fbas) {
                    return fail(format!("{:?}", ch), format!("{} of {}\n{}", if isp { "ISPs" } else { "countries" }, text, e));
                }
                // the same names for organizations, which keep them as they are
                let mut seen = vec![];
                let mut orgs: Groups = vec![];
                for (k, nm) in names.iter().enumerate() {
                    if !seen.contains(nm) {
                        seen.push(nm.clone());
                        orgs.push((nm.clone(), vec![k]));
                    }
                }
                let key = |x: usize| keys[x].clone();
                let text = groups_json(&orgs, &key);
                let g = Groupings::organizations_from_json_str(&text, &fbas);
                if let Err(e) = observe_groups(&g, &orgs, &keys, &fbas) {
                    return fail(format!("{:?}", ch), format!("organizations of {}\n{}", text, e));
                }
            }
            Ok(())
        },
        move |i| format!("{:?}", c2[i as usize]),
    )
}
fn c15_names(n: usize, keyset: usize) -> Family {
    let base = NAMES.len() as u64 + 2;
    let keys: Vec<String> = key_sets()[keyset].iter().take(n).map(|s| s.to_string()).collect();
    let dec = move |mut i: u64| {
        let isp = i % 2 == 0;
        i /= 2;
        let mut v = vec![];
        for _ in 0..n {
            v.push((i % base) as usize);
            i /= base;
        }
        (isp, v)
    };
    Family::new(
        format!("names of {} nodes, keys {}", n, keyset),
        2 * base.pow(n as u32),
        move |i, ctx| {
            let (isp, v) = dec(i);
            ctx.states += 1;
            ctx.traces += 1;
            if i % 3001 == 5 {
                ctx.sample(|| format!("{:?}", v.iter().map(|&x| NAMES.get(x)).collect::<Vec<_>>()));
            }
            match c15_by_data(n, &v, isp, &keys, ctx) {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("{} {:?}", isp, v), e),
            }
        },
        move |i| {
            let (isp, v) = dec(i);
            format!("{} {:?}", if isp { "isp" } else { "country" }, v.iter().map(|&x| NAMES.get(x)).collect::<Vec<_>>())
        },
    )
}
/// lists of listed members: every list up to a length over the nodes and a stranger
fn member_lists(n: usize, maxlen: usize) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..maxlen {
        let mut next = vec![];
        for l in &last {
            for x in 0..=n {
                if l.contains(&x) {
                    continue;
                }
                let mut l2: Vec<usize> = l.clone();
                l2.push(x);
                next.push(l2);
            }
        }
        r.extend(next.clone());
        last = next;
    }
    r
}
fn c15_orgs(norgs: usize, n: usize, maxlen: usize, keyset: usize) -> Family {
    let lists = Arc::new(member_lists(n, maxlen));
    let names = ["Org", "", "Org, Inc.", "Org", "é"];
    let l = lists.len() as u64;
    let keys: Arc<Vec<String>> = Arc::new(key_sets()[keyset].iter().take(n + 1).map(|s| s.to_string()).collect());
    let dec = move |i: u64, lists: &[Vec<usize>]| -> Groups {
        let mut x = i;
        (0..norgs)
            .map(|k| {
                let m = lists[(x % l) as usize].clone();
                x /= l;
                (names[(k + (i % 5) as usize) % 5].to_string(), m)
            })
            .collect()
    };
    let l2 = lists.clone();
    Family::new(
        format!("{} organizations of {} nodes, keys {}", norgs, n, keyset),
        l.pow(norgs as u32),
        move |i, ctx| {
            let listed = dec(i, &lists);
            ctx.states += 1;
            ctx.traces += 1;
            ctx.ops(2);
            // node number n is not in the FBAS
            let text = Value::Array(
                listed.iter().enumerate().map(|(k, (nm, v))| json!({"id": k, "name": nm, "validators": v.iter().map(|&x| &keys[x]).collect::<Vec<_>>(), "url": "x"})).collect(),
            )
            .to_string();
            let nodes = f_json(&RF { q: vec![RQ::default(); n] }, &|x| keys[x].clone());
            let fbas = Fbas::from_json_str(&nodes);
            let g = Groupings::organizations_from_json_str(&text, &fbas);
            let want: Groups = listed.iter().map(|(nm, v)| (nm.clone(), v.iter().copied().filter(|&x| x < n).collect())).collect();
            ctx.outcome(&want);
            if i % 2003 == 9 {
                ctx.sample(|| text.clone());
            }
            let ks = keys[..n].to_vec();
            let r = observe_groups(&g, &want, &ks, &fbas).and_then(|_| {
                let h = Groupings::from_json_str(&text, &fbas);
                ensure(h == g, || "from_json_str and organizations_from_json_str differ".into())?;
                if i % 97 == 0 {
                    let s = Scratch::with(".json", text.as_bytes());
                    ensure(Groupings::organizations_from_json_file(&s.0, &fbas) == g && Groupings::from_json_file(&s.0, &fbas) == g, || "reading from a file differs".into())?;
                }
                Ok(())
            });
            match r {
                Ok(()) => Ok(()),
                Err(e) => fail(text.clone(), e),
            }
        },
        move |i| format!("{:?}", dec(i, &l2)),
    )
}

// ---------------------------------------------------------------- C14
fn partitions(n: usize) -> Vec<Vec<Vec<usize>>> {
    // every partition of 0..n; singletons mean "in no group" or "a group of one"
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in partitions(n - 1) {
        for k in 0..p.len() {
            let mut q = p.clone();
            q[k].push(n - 1);
            r.push(q);
        }
        let mut q = p.clone();
        q.push(vec![n - 1]);
        r.push(q);
    }
    r
}
/// every way to group nodes, in a few orders
pub fn groupings_of(n: usize, variants: usize) -> Vec<Groups> {
    let mut r: Vec<Groups> = vec![];
    for p in partitions(n) {
        for v in 0..variants {
            let mut g: Groups = vec![];
            for (k, b) in p.iter().enumerate() {
                if b.len() == 1 && (v + k) % 2 == 0 {
                    continue; // stays outside any group
                }
                let mut m = b.clone();
                if v % 2 == 1 {
                    m.reverse();
                }
                if v == 2 && m.len() > 2 {
                    m.rotate_left(1);
                }
                g.push((format!("g{}", k), m));
            }
            if v >= 2 {
                g.reverse();
            }
            if v == 1 {
                g.push(("nobody".into(), vec![]));
            }
            if !r.contains(&g) {
                r.push(g);
            }
        }
    }
    r
}
fn c14(f: &RF, keys: &[&str], c: &mut Ctx) -> R {
    let n = f.n();
    let m = Named { keys: keys[..n].iter().map(|s| s.to_string()).collect(), q: f.q.clone() };
    let fbas = Fbas::from_json_str(&f_json(f, &|x| keys[x].to_string()));
    let raw = to_fbas(f); // unsorted, generic names
    let mraw = Named { keys: (0..n).map(|i| format!("n{}", i)).collect(), q: f.q.clone() };
    let full = ((1u64 << n) - 1) as u32;
    let subsets: Vec<u32> = if n <= 5 { (0..=full).collect() } else { (0..=full).step_by(5).chain([full, full >> 1, full & !1]).collect() };
    let gs: Vec<Groups> = groupings_of(n.min(4), 2).into_iter().step_by(if n >= 4 { 5 } else { 2 }).collect();
    for &s in &subsets {
        let keep = bits(s);
        for (fb, mm) in [(&fbas, &m), (&raw, &mraw)] {
            let (r, man) = fb.shrunken(keep.iter().copied().collect());
            let want = reduce(mm, &keep);
            observe(&r, &want, &norm).map_err(|e| format!("reduced to {:?}: {}", keep, e))?;
            let wf = model_rf(&want);
            for x in 0..1u32 << keep.len() {
                let xs: NodeIdSet = bits(x).into_iter().collect();
                ensure(r.is_quorum(&xs) == wf.is_quorum(x), || format!("reduced to {:?}: is_quorum({:?}) = {}", keep, bits(x), !wf.is_quorum(x)))?;
                // there and back
                let up: Vec<usize> = bits(x).into_iter().map(|k| keep[k]).collect();
                let u: NodeIdSet = up.iter().copied().collect();
                let un = man.unshrink_set(&xs);
                ensure(un == u, || format!("reduced to {:?}: unshrink_set({:?}) = {:?}", keep, bits(x), un))?;
                ensure(man.shrink_set(&u) == xs, || format!("reduced to {:?}: shrink_set({:?}) = {:?}", keep, up, man.shrink_set(&u)))?;
                let fam = vec![u.clone(), NodeIdSet::new(), u.clone()];
                let back = man.unshrink_sets(&man.shrink_sets(&fam));
                ensure(back == fam, || format!("reduced to {:?}: shrink_sets and unshrink_sets of {:?} = {:?}", keep, vecs(&fam), vecs(&back)))?;
            }
            ensure(*man.unshrink_table() == keep, || format!("unshrink_table = {:?}, should be {:?}", man.unshrink_table(), keep))?;
            c.ops(3);
            // reducing further
            if n <= 4 {
                for t in 0..=full {
                    if t & !s != 0 {
                        continue;
                    }
                    let keep2 = bits(t);
                    let (_, man2) = fb.shrunken(keep2.iter().copied().collect());
                    let u: NodeIdSet = keep2.iter().copied().collect();
                    let half: NodeIdSet = keep2.iter().copied().step_by(2).collect();
                    let inn = man.shrink_sets(&[u.clone(), half.clone()]);
                    let re = man2.reshrink_sets(&inn, &man);
                    let back = man2.unshrink_sets(&re);
                    ensure(back == vec![u, half], || format!("reshrinking from {:?} to {:?} gives {:?}", keep, keep2, vecs(&back)))?;
                    let inner: NodeIdSet = keep2.iter().map(|x| keep.iter().position(|y| y == x).unwrap()).collect();
                    let (r2, _) = r.shrunken(inner);
                    observe(&r2, &reduce(mm, &keep2), &norm).map_err(|e| format!("reduced to {:?}, then {:?}: {}", keep, keep2, e))?;
                    c.ops(2);
                }
            }
        }
        // groupings along with it
        for g in &gs {
            let orig = Groupings::from_json_str(&groups_json(g, &|x| keys[x].to_string()), &fbas);
            let (r, man) = fbas.shrunken(keep.iter().copied().collect());
            let red = Groupings::shrunken(&orig, &man, &r);
            let mut want: Groups = g.iter().map(|(nm, v)| (nm.clone(), v.iter().filter_map(|x| keep.iter().position(|y| y == x)).collect::<Vec<_>>())).collect();
            let ks: Vec<String> = keep.iter().map(|&x| keys[x].to_string()).collect();
            // members in any order
            let got = read_groups(&red, &|k| ks.iter().position(|x| x == k))?;
            let mut got2 = got.clone();
            for x in want.iter_mut().chain(got2.iter_mut()) {
                x.1.sort_unstable();
            }
            ensure(got2 == want, || format!("groupings {:?} reduced to {:?} are {:?}", g, keep, got))?;
            observe_groups(&red, &got, &ks, &r).map_err(|e| format!("groupings {:?} reduced to {:?}: {}", g, keep, e))?;
            c.ops(1);
        }
        c.outcome(&(s, reduce(&m, &keep)));
    }
    Ok(())
}
fn c14_family(name: &str, us: Vec<RF>) -> Family {
    let u = U::list(name, us);
    let g = u.gen.clone();
    let g2 = u.gen.clone();
    Family::new(
        name,
        u.len,
        move |i, ctx| {
            let f = g(i);
            let ks = key_sets();
            let keys = &ks[i as usize % ks.len()];
            ctx.states += 1 << f.n();
            ctx.traces += 1;
            if i % 307 == 5 {
                ctx.sample(|| format!("{} reduced to all subsets, keys {:?}", show(&f), keys));
            }
            match c14(&f, keys, ctx) {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("{} keys {}", show(&f), i as usize % ks.len()), e),
            }
        },
        move |i| show(&g2(i)),
    )
}

// ---------------------------------------------------------------- C16
fn image(g: &Groupings, m: u32) -> u32 {
    bits(m).into_iter().fold(0, |a, x| a | 1 << g.merge_node(x))
}
fn c16_sets(n: usize, gs: &Groups, fam: &[u32], c: &mut Ctx) -> R {
    let fbas = Fbas::new_generic_unconfigured(n);
    let g = Groupings::from_json_str(&groups_json(gs, &|x| format!("n{}", x)), &fbas);
    let real: Vec<NodeIdSet> = fam.iter().map(|&m| bits(m).into_iter().collect()).collect();
    let as_mask = |s: &NodeIdSet| to_mask(&s.iter().collect::<Vec<_>>());
    let want: Vec<u32> = fam.iter().map(|&m| image(&g, m)).collect();
    for (s, w) in real.iter().zip(&want) {
        let got = as_mask(&g.merge_node_set(s.clone()));
        ensure(got == *w, || format!("merge_node_set({:?}) = {:?}", s.iter().collect::<Vec<_>>(), bits(got)))?;
    }
    let got: Vec<u32> = g.merge_node_sets(real.clone()).iter().map(as_mask).collect();
    ensure(got == want, || format!("merge_node_sets({}) = {}", show_sets(fam), show_sets(&got)))?;
    let got: Vec<u32> = g.merge_minimal_node_sets(real).iter().map(as_mask).collect();
    let w = minimal(want);
    let mut a = got.clone();
    a.sort_unstable();
    let mut b = w.clone();
    b.sort_unstable();
    ensure(a == b, || format!("merge_minimal_node_sets({}) = {}, should be {}", show_sets(fam), show_sets(&got), show_sets(&w)))?;
    c.ops(3);
    c.outcome(&w);
    Ok(())
}
fn c16_set_family(n: usize, k: u32, variants: usize) -> Family {
    let gs = Arc::new(groupings_of(n, variants));
    let fams = (1u64 << n).pow(k);
    let dec = move |i: u64| -> Vec<u32> {
        let mut x = i;
        (0..k)
            .map(|_| {
                let r = x % (1 << n);
                x /= 1 << n;
                r as u32
            })
            .collect()
    };
    Family::new(
        format!("families of {} sets of {} nodes x groupings", k, n),
        fams,
        move |i, ctx| {
            let f = dec(i);
            for g in gs.iter() {
                ctx.states += 1;
                ctx.traces += 1;
                if let Err(e) = c16_sets(n, g, &f, ctx) {
                    return fail(format!("{:?} {:?}", g, f), format!("groups {:?}\n{}", g, e));
                }
            }
            if i % 1001 == 3 {
                ctx.sample(|| format!("{} x {} groupings", show_sets(&f), gs.len()));
            }
            Ok(())
        },
        move |i| show_sets(&dec(i)),
    )
}
fn c16_qset(n: usize, q: &RQ, gs: &Groups, c: &mut Ctx) -> R {
    let fbas = Fbas::new_generic_unconfigured(n);
    let g = Groupings::from_json_str(&groups_json(gs, &|x| format!("n{}", x)), &fbas);
    let merged = from_qs(&g.merge_quorum_set(to_qs(q)));
    let again = g.merge_quorum_sets(vec![to_qs(q), to_qs(q)]);
    ensure(again.iter().all(|x| from_qs(x) == merged) && again.len() == 2, || "merge_quorum_sets and merge_quorum_set differ".into())?;
    for x in 0..1u32 << n {
        // whole groups only
        let whole = gs.iter().all(|(_, m)| m.is_empty() || m.iter().all(|&y| x >> y & 1 == 1) || m.iter().all(|&y| x >> y & 1 == 0));
        if !whole {
            continue;
        }
        let im = image(&g, x);
        let (a, b) = (q.sat_mask(x), merged.sat_mask(im));
        ensure(a == b, || format!("{} is{} satisfied by {:?}, but the merged {} is{} by the merged {:?}", show_q(q), if a { "" } else { " not" }, bits(x), show_q(&merged), if b { "" } else { " not" }, bits(im)))?;
        c.ops(1);
    }
    let want = image(&g, to_mask(&q.contained()));
    ensure(to_mask(&merged.contained()) == want, || format!("merged {} mentions {:?}, should mention {:?}", show_q(&merged), merged.contained(), bits(want)))?;
    c.outcome(&merged);
    Ok(())
}
fn c16_qset_family(name: &str, qs: Vec<(usize, RQ)>, variants: usize) -> Family {
    let qs: Arc<Vec<(usize, RQ)>> = Arc::new(qs.into_iter().filter(|(n, q)| q.sane() && *n <= 6).collect());
    let q2 = qs.clone();
    let gs: Arc<Vec<Vec<Groups>>> = Arc::new((0..=6).map(|n| groupings_of(n, if n >= 5 { 2 } else { variants })).collect());
    Family::new(
        name,
        qs.len() as u64,
        move |i, ctx| {
            let (n, q) = &qs[i as usize];
            for g in &gs[*n] {
                ctx.states += 1;
                ctx.traces += 1;
                if let Err(e) = c16_qset(*n, q, g, ctx) {
                    return fail(format!("{} {:?}", show_q(q), g), format!("groups {:?}\n{}", g, e));
                }
            }
            if i % 503 == 1 {
                ctx.sample(|| format!("{} x {} groupings", show_q(q), gs[*n].len()));
            }
            Ok(())
        },
        move |i| show_q(&q2[i as usize].1),
    )
}
fn c16_analysis(name: &str, us: Vec<RF>, variants: usize) -> Family {
    let u = U::list(name, us);
    let g = u.gen.clone();
    let g2 = u.gen.clone();
    let gs: Arc<Vec<Vec<Groups>>> = Arc::new((0..=6).map(|n| groupings_of(n, variants)).collect());
    Family::new(
        name,
        u.len,
        move |i, ctx| {
            let f = g(i);
            let n = f.n();
            let o = Oracle::new(&f);
            for l in [Layout::Ident, Layout::Pad] {
                let laid = lay(&f, l);
                let a = Analysis::new(&laid.fbas);
                let mbs = if o.any_quorum { o.mbs.clone() } else { vec![] };
                let rs: Vec<(&str, NodeIdSetVecResult, &[u32])> =
                    vec![("minimal quorums", a.minimal_quorums(), &o.mq), ("minimal blocking sets", a.minimal_blocking_sets(), &mbs), ("minimal splitting sets", a.minimal_splitting_sets(), &o.mss)];
                for gr in &gs[n] {
                    ctx.states += 1;
                    ctx.traces += 1;
                    let names: Groups = gr.iter().map(|(nm, v)| (nm.clone(), v.iter().map(|&x| laid.ids[x]).collect())).collect();
                    let go = Groupings::from_json_str(&groups_json(&names, &|x| format!("n{}", x)), &laid.fbas);
                    let im = |m: u32| -> Result<u32, String> { laid.mask(&bits(m).into_iter().map(|x| go.merge_node(laid.ids[x])).collect()) };
                    let mut body = || -> R {
                        for (what, r, exact) in &rs {
                            if *what == "minimal splitting sets" && !o.qi {
                                continue;
                            }
                            let mut want = vec![];
                            for &m in exact.iter() {
                                want.push(im(m)?);
                            }
                            let w = minimal(want);
                            same_family(&laid, &format!("{} merged by {:?} and minimised", what, names), &r.merged_by_group(&go).minimal_sets().unwrap(), &w)?;
                            same_family(&laid, &format!("{} unwrapped and merged by {:?}", what, names), &go.merge_minimal_node_sets(r.clone().unwrap()), &w)?;
                            ctx.ops(2);
                            ctx.outcome(&w);
                        }
                        let tt = laid.mask(&a.top_tier().merged_by_group(&go).unwrap())?;
                        ensure(tt == im(o.top_tier)?, || format!("top tier merged by {:?} is {:?}", names, bits(tt)))
                    };
                    if let Err(e) = body() {
                        return fail(format!("{} {:?} {:?}", show(&f), l, names), format!("{}\n{}", laid.desc(), e));
                    }
                }
            }
            Ok(())
        },
        move |i| show(&g2(i)),
    )
}

// ---------------------------------------------------------------- C17, C18
#[derive(Clone, Debug)]
enum Post {
    Without(Vec<usize>),
    WithoutPretty(Vec<String>, bool),
    Merge,
    Minimal,
}
/// how nodes are called, and how they are grouped
struct World {
    laid: Laid,
    keys: Vec<String>,
    fbas: Fbas,
    groups: Groups,
}
fn world(f: &RF, l: Layout, variant: usize) -> World {
    let laid = lay(f, l);
    let keys: Vec<String> = (0..laid.total).map(|i| if i % 5 == 3 { format!("\"é\\{}", i) } else { format!("n{}", (i + variant) % laid.total.max(1)) }).collect();
    let text = f_json(&laid.real, &|x| keys[x].clone());
    let fbas = Fbas::from_json_str(&text);
    let n = f.n();
    let ids = &laid.ids;
    let name = |s: &str| s.to_string();
    let mut groups: Groups = match if variant % 7 == 6 { 3 } else if variant % 7 == 4 { 4 } else if variant % 7 == 5 { 5 } else { variant % 3 } {
        // groups that are called like nodes
        5 => ids.iter().copied().take(3).enumerate().map(|(k, x)| (keys[x].clone(), ids.iter().copied().skip(k + 1).step_by(3).take(k).collect())).chain([(name("nobody"), vec![])]).collect(),
        3 => vec![(name(""), ids.iter().copied().skip(1).step_by(2).collect()), (name(" "), ids.iter().copied().take(1).collect())],
        4 => vec![(name("[1]"), ids.iter().copied().take(3).collect()), (name(""), ids.iter().copied().skip(3).rev().collect())],
        0 => vec![(name("Öl, AG"), ids.iter().copied().step_by(2).collect()), (name("none"), vec![])],
        1 => vec![(name("a\"b"), ids.iter().copied().rev().take(2).collect()), (name("rest"), ids.iter().copied().take(n.saturating_sub(2).min(2)).collect())],
        _ => vec![(name("all"), (0..laid.total).rev().collect())],
    };
    if variant % 2 == 1 && laid.total > n {
        let out: Vec<usize> = (0..laid.total).filter(|x| !ids.contains(x)).take(2).collect();
        groups.push((name("outsiders"), out.into_iter().filter(|x| !groups.iter().any(|g| g.1.contains(x))).collect()));
    }
    World { laid, keys, fbas, groups }
}
fn posts(w: &World) -> Vec<Post> {
    let n = w.laid.total;
    let ids = &w.laid.ids;
    let mut r = vec![Post::Minimal, Post::Merge];
    r.push(Post::Without(vec![]));
    for &x in ids.iter().take(3) {
        r.push(Post::Without(vec![x]));
    }
    if ids.len() >= 2 {
        r.push(Post::Without(vec![ids[1], ids[0], ids[1]]));
        r.push(Post::Without(vec![n + 70, ids[ids.len() - 1]]));
    }
    r.push(Post::Without(ids.clone()));
    if let Some(&x) = ids.first() {
        r.push(Post::WithoutPretty(vec![w.keys[x].clone(), "unknown".into()], false));
        r.push(Post::WithoutPretty(vec![w.keys[x].clone()], true));
    }
    r.push(Post::WithoutPretty(vec![w.groups[0].0.clone()], true));
    r.push(Post::WithoutPretty(near_names(&w.groups[0].0), true));
    r.push(Post::WithoutPretty(near_names(&w.keys[0]), false));
    // neither a number nor a generated name is a name, unless a node is called so
    let generic: Vec<String> = (0..n).flat_map(|i| [format!("{}", i), format!("n{}", i), format!("#{}", i)]).filter(|x| !w.keys.contains(x)).collect();
    r.push(Post::WithoutPretty(generic.clone(), true));
    r.push(Post::WithoutPretty(generic, false));
    r.push(Post::WithoutPretty(vec![w.groups[0].0.clone()], false));
    r
}
/// plain-set model of one step; sets are lists of sorted IDs
fn step(w: &World, g: &Groupings, s: &[Vec<usize>], p: &Post) -> Vec<Vec<usize>> {
    let remove = |drop: &[usize]| -> Vec<Vec<usize>> { s.iter().map(|x| x.iter().copied().filter(|y| !drop.contains(y)).collect()).collect() };
    match p {
        Post::Without(v) => remove(v),
        Post::WithoutPretty(v, grouped) => {
            let mut d = vec![];
            for k in v {
                let gr = if *grouped { w.groups.iter().find(|x| x.0 == *k) } else { None };
                match gr {
                    Some(x) => d.extend(x.1.iter().copied()),
                    None => d.extend(w.keys.iter().position(|x| x == k)),
                }
            }
            remove(&d)
        }
        Post::Merge => s
            .iter()
            .map(|x| {
                let mut r: Vec<usize> = x.iter().map(|&y| g.merge_node(y)).collect();
                r.sort_unstable();
                r.dedup();
                r
            })
            .collect(),
        Post::Minimal => {
            let mut a: Vec<Vec<usize>> = s.to_vec();
            a.sort();
            a.dedup();
            a.sort_by_key(|x| x.len());
            let b = a.clone();
            a.retain(|x| !b.iter().any(|y| y.len() < x.len() && y.iter().all(|z| x.contains(z))));
            a
        }
    }
}
fn apply(r: &NodeIdSetVecResult, w: &World, g: &Groupings, p: &Post) -> NodeIdSetVecResult {
    match p {
        Post::Without(v) => r.without_nodes(v),
        Post::WithoutPretty(v, gr) => {
            let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            r.without_nodes_pretty(&v, &w.fbas, if *gr { Some(g) } else { None })
        }
        Post::Merge => r.merged_by_group(g),
        Post::Minimal => r.minimal_sets(),
    }
}
fn apply1(r: &NodeIdSetResult, w: &World, g: &Groupings, p: &Post) -> NodeIdSetResult {
    match p {
        Post::Without(v) => r.without_nodes(v),
        Post::WithoutPretty(v, gr) => {
            let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            r.without_nodes_pretty(&v, &w.fbas, if *gr { Some(g) } else { None })
        }
        Post::Merge => r.merged_by_group(g),
        Post::Minimal => r.clone(),
    }
}
fn check_stats(r: &NodeIdSetVecResult, want: &[Vec<usize>], exact_order: bool) -> R {
    let got = r.clone().into_vec_vec();
    let mut a = got.clone();
    let mut b = want.to_vec();
    if !exact_order {
        ensure(got.windows(2).all(|w| w[0].len() <= w[1].len()), || format!("sets are not ordered by size: {:?}", got))?;
        a.sort();
        b.sort();
    }
    ensure(a == b, || format!("sets are {:?}, should be {:?}", got, want))?;
    let un = vecs(&r.clone().unwrap());
    ensure(un == got, || format!("unwrap gives {:?}, into_vec_vec {:?}", un, got))?;
    let mut inv: Vec<usize> = got.iter().flatten().copied().collect();
    inv.sort_unstable();
    inv.dedup();
    let gi: Vec<usize> = r.involved_nodes().iter().collect();
    ensure(gi == inv, || format!("involved_nodes = {:?}, but the sets are {:?}", gi, got))?;
    let sizes: Vec<usize> = got.iter().map(|s| s.len()).collect();
    let (mi, ma) = (sizes.iter().copied().min().unwrap_or(0), sizes.iter().copied().max().unwrap_or(0));
    let mean = if sizes.is_empty() { 0.0 } else { sizes.iter().sum::<usize>() as f64 / sizes.len() as f64 };
    let hist: Vec<usize> = (0..=ma).map(|k| sizes.iter().filter(|&&x| x == k).count()).collect();
    ensure(r.len() == got.len() && r.is_empty() == got.is_empty(), || format!("len = {}, is_empty = {}, but the sets are {:?}", r.len(), r.is_empty(), got))?;
    ensure(r.contains_empty_set() == sizes.contains(&0), || format!("contains_empty_set = {}, but the sets are {:?}", r.contains_empty_set(), got))?;
    ensure(r.min() == mi && r.max() == ma && (r.mean() - mean).abs() < 1e-9, || format!("min {} max {} mean {}, but the sets are {:?}", r.min(), r.max(), r.mean(), got))?;
    let mm = r.minmaxmean();
    ensure(mm.0 == mi && mm.1 == ma && (mm.2 - mean).abs() < 1e-9, || format!("minmaxmean {:?}, but the sets are {:?}", mm, got))?;
    ensure(r.histogram() == hist, || format!("histogram {:?}, but the sets are {:?}", r.histogram(), got))?;
    let d = r.describe();
    ensure(d.0 == got.len() && d.1 == inv.len() && d.2 .0 == mi && d.2 .1 == ma && (d.2 .2 - mean).abs() < 1e-9 && d.3 == hist, || format!("describe {:?}, but the sets are {:?}", d, got))
}
fn name_of(w: &World, x: usize, grouped: bool) -> String {
    if grouped {
        if let Some(g) = w.groups.iter().find(|g| g.1.contains(&x)) {
            return g.0.clone();
        }
    }
    w.keys[x].clone()
}
fn json_of(s: &str) -> Result<Value, String> {
    serde_json::from_str(s).map_err(|e| format!("not valid JSON ({}): {}", e, s))
}
fn close(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| close(p, q)),
        (Value::Number(x), Value::Number(y)) => (x.as_f64().unwrap() - y.as_f64().unwrap()).abs() < 1e-9,
        _ => a == b,
    }
}
fn check_forms(r: &NodeIdSetVecResult, w: &World, g: &Groupings) -> R {
    let sets = r.clone().into_vec_vec();
    let want = json!(sets);
    let id = json_of(&r.clone().into_id_string())?;
    ensure(id == want, || format!("ID form {} of {:?}", id, sets))?;
    let s = json_of(&serde_json::to_string(r).map_err(|e| e.to_string())?)?;
    ensure(s == want, || format!("serialised form {} of {:?}", s, sets))?;
    for grouped in [false, true] {
        let go = if grouped { Some(g) } else { None };
        let named: Vec<Vec<String>> = sets.iter().map(|x| x.iter().map(|&y| name_of(w, y, grouped)).collect()).collect();
        let p = json_of(&r.clone().into_pretty_string(&w.fbas, go))?;
        ensure(p == json!(named), || format!("pretty form {} of {:?} (groups: {})", p, sets, grouped))?;
        let v = r.clone().into_pretty_vec_vec(&w.fbas, go);
        ensure(v == named, || format!("into_pretty_vec_vec {:?} of {:?} (groups: {})", v, sets, grouped))?;
    }
    let d = json_of(&r.clone().into_describe_string())?;
    let sizes: Vec<usize> = sets.iter().map(|s| s.len()).collect();
    let ma = sizes.iter().copied().max().unwrap_or(0);
    let mean = if sizes.is_empty() { 0.0 } else { sizes.iter().sum::<usize>() as f64 / sizes.len() as f64 };
    let mut inv: Vec<usize> = sets.iter().flatten().copied().collect();
    inv.sort_unstable();
    inv.dedup();
    let hist: Vec<usize> = (0..=ma).map(|k| sizes.iter().filter(|&&x| x == k).count()).collect();
    let want = json!([sets.len(), inv.len(), [sizes.iter().min().copied().unwrap_or(0), ma, mean], hist]);
    ensure(close(&d, &want), || format!("summary {} of {:?}", d, sets))
}
fn check_forms1(r: &NodeIdSetResult, w: &World, g: &Groupings) -> R {
    let set = r.clone().into_vec();
    let want = json!(set);
    ensure(json_of(&r.clone().into_id_string())? == want, || format!("ID form of {:?}", set))?;
    ensure(json_of(&serde_json::to_string(r).map_err(|e| e.to_string())?)? == want, || format!("serialised form of {:?}", set))?;
    for grouped in [false, true] {
        let go = if grouped { Some(g) } else { None };
        let named: Vec<String> = set.iter().map(|&y| name_of(w, y, grouped)).collect();
        let p = json_of(&r.clone().into_pretty_string(&w.fbas, go))?;
        ensure(p == json!(named), || format!("pretty form {} of {:?} (groups: {})", p, set, grouped))?;
        ensure(r.clone().into_pretty_vec(&w.fbas, go) == named, || format!("into_pretty_vec of {:?}", set))?;
    }
    let d = json_of(&r.clone().into_describe_string())?;
    ensure(d == json!(set.len()), || format!("summary {} of {:?}", d, set))
}
/// a quorum set written with node IDs
fn id_q(v: &Value) -> Result<RQ, String> {
    let t = v["threshold"].as_u64().ok_or("no threshold")?;
    let mut q = RQ { t, ..Default::default() };
    for x in v.get("validators").and_then(|x| x.as_array()).cloned().unwrap_or_default() {
        q.v.push(x.as_u64().ok_or("not an ID")? as usize);
    }
    for x in v.get("innerQuorumSets").and_then(|x| x.as_array()).cloned().unwrap_or_default() {
        q.inner.push(id_q(&x)?);
    }
    Ok(q)
}
fn named_q(q: &RQ, name: &dyn Fn(usize) -> String) -> Value {
    json!({"threshold": q.t, "validators": q.v.iter().map(|&x| name(x)).collect::<Vec<_>>(), "innerQuorumSets": q.inner.iter().map(|x| named_q(x, name)).collect::<Vec<_>>()})
}
fn fill(v: &Value) -> Value {
    json!({"threshold": v["threshold"], "validators": v.get("validators").cloned().unwrap_or(json!([])),
        "innerQuorumSets": v.get("innerQuorumSets").and_then(|x| x.as_array()).map(|a| a.iter().map(fill).collect::<Vec<_>>()).unwrap_or_default()})
}
fn check_qset_forms(q: &QuorumSet, w: &World, g: &Groupings) -> R {
    let rq = from_qs(q);
    for s in [q.clone().into_id_string(), serde_json::to_string(q).unwrap(), q.clone().into_describe_string()] {
        let got = id_q(&json_of(&s)?)?;
        ensure(got == rq, || format!("{} is shown as {}", show_q(&rq), s))?;
    }
    for grouped in [false, true] {
        let go = if grouped { Some(g) } else { None };
        // with groupings, quorum sets are merged by group first
        let shown = if grouped { from_qs(&g.merge_quorum_set(q.clone())) } else { rq.clone() };
        let want = fill(&named_q(&shown, &|x| name_of(w, x, grouped)));
        let p = q.clone().into_pretty_string(&w.fbas, go);
        ensure(fill(&json_of(&p)?) == want, || format!("{} is shown as {} (groups: {})", show_q(&rq), p, grouped))?;
        let pq = serde_json::to_value(q.clone().into_pretty_quorum_set(&w.fbas, go)).unwrap();
        ensure(fill(&pq) == want, || format!("{} is turned into {} (groups: {})", show_q(&rq), pq, grouped))?;
        let list = vec![q.clone(), q.clone()].into_pretty_string(&w.fbas, go);
        let a = json_of(&list)?;
        ensure(a.as_array().map(|a| a.len() == 2 && a.iter().all(|x| fill(x) == want)).unwrap_or(false), || format!("list of two {} is shown as {}", show_q(&rq), list))?;
    }
    let list = json_of(&vec![q.clone(), q.clone()].into_id_string())?;
    let a = list.as_array().ok_or("list of quorum sets is not a list")?;
    ensure(a.len() == 2 && id_q(&a[0])? == rq && id_q(&a[1])? == rq, || format!("list of two {} is shown as {}", show_q(&rq), list))
}
/// results with very many sets, or with very many nodes in all of them together
fn big_results(q: bool, forms: bool) -> Family {
    // all n nodes trust t of them
    let cases: Vec<(usize, usize)> = if q { vec![(300, 299), (1200, 1), (500, 499), (19, 9), (17, 12)] } else { vec![(300, 299), (1200, 1), (500, 499), (700, 699), (19, 9), (17, 12), (20, 7)] };
    let c2 = cases.clone();
    Family::new(
        "results with very many sets",
        cases.len() as u64,
        move |i, ctx| {
            let (n, t) = cases[i as usize];
            let all: Vec<usize> = (0..n).collect();
            let w = world(&RF { q: vec![RQ::flat(t as u64, &all); n] }, Layout::Ident, i as usize);
            let gr = Groupings::from_json_str(&groups_json(&w.groups, &|x| w.keys[x].clone()), &w.fbas);
            let a = Analysis::new(&w.fbas);
            let mut check = || -> R {
                for (r, k) in [(a.minimal_quorums(), t), (a.minimal_blocking_sets(), n - t + 1)] {
                    // all sets of k nodes, in order
                    let mut want: Vec<Vec<usize>> = vec![];
                    let mut cur: Vec<usize> = (0..k).collect();
                    loop {
                        want.push(cur.clone());
                        let Some(p) = (0..k).rev().find(|&p| cur[p] < n - k + p) else { break };
                        cur[p] += 1;
                        for j in p + 1..k {
                            cur[j] = cur[j - 1] + 1;
                        }
                    }
                    let got = r.clone().into_vec_vec();
                    let mut sorted = got.clone();
                    sorted.sort();
                    ensure(sorted == want, || format!("{} sets, exactly all {} sets of {} nodes expected", got.len(), want.len(), k))?;
                    let mut steps: Vec<Post> = vec![Post::Without(vec![0, n - 1]), Post::Merge];
                    if got.len() < 7000 {
                        steps.push(Post::Minimal);
                    }
                    let mut states = vec![(r.clone(), got.clone(), true)];
                    for p in &steps {
                        let (r, m) = (apply(&r, &w, &gr, p), step(&w, &gr, &got, p));
                        states.push((r, m, !matches!(p, Post::Minimal)));
                    }
                    for (r, m, exact) in &states {
                        ctx.states += 1;
                        ctx.ops(1);
                        ctx.outcome(&(m.len(), m.iter().map(|x| x.len()).sum::<usize>()));
                        if forms {
                            check_forms(r, &w, &gr)?;
                        } else {
                            check_stats(r, m, *exact)?;
                        }
                    }
                }
                Ok(())
            };
            let e = check();
            ctx.traces += 1;
            match e {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("{} of {} nodes", t, n), e.chars().take(1500).collect::<String>()),
            }
        },
        move |i| format!("(nodes, threshold) = {:?}", c2[i as usize]),
    )
}
fn chain_family(name: &str, us: Vec<RF>, depth: u32, forms: bool) -> Family {
    use Layout::*;
    let u = U::list(name, us);
    let g = u.gen.clone();
    let g2 = u.gen.clone();
    Family::new(
        name,
        u.len * 2,
        move |i, ctx| {
            let f = g(i / 2);
            let l = if f.n() > 12 { Ident } else { [Pad, if i % 4 == 1 { Wide } else { Ident }][(i % 2) as usize] };
            let w = world(&f, l, (i / 2 + i % 2 * 3) as usize);
            let gr = Groupings::from_json_str(&groups_json(&w.groups, &|x| w.keys[x].clone()), &w.fbas);
            let any_quorum = f.n() > 12 || Oracle::new(&f).any_quorum;
            let ps = posts(&w);
            let key = format!("{} {:?}", show(&f), l);
            let a = Analysis::new(&w.fbas);
            // results obtained before and after the FBAS was reduced further, and with all caches filled
            let early = if any_quorum { Some(a.minimal_blocking_sets()) } else { None };
            let rs: Vec<(&str, NodeIdSetVecResult)> = vec![("minimal_quorums", a.minimal_quorums()), ("minimal_splitting_sets", a.minimal_splitting_sets())].into_iter().chain(early.map(|e| ("minimal_blocking_sets", e))).collect();
            let mut fresh = vec![];
            for (n, _) in &rs {
                let b = Analysis::new(&w.fbas);
                fresh.push(match *n {
                    "minimal_quorums" => b.minimal_quorums(),
                    "minimal_splitting_sets" => b.minimal_splitting_sets(),
                    _ => b.minimal_blocking_sets(),
                });
            }
            let tt = a.top_tier();
            for (ri, (what, r0)) in rs.iter().enumerate() {
                let base = fresh[ri].clone().into_vec_vec();
                let np = ps.len() as u64;
                for x in 0..np.pow(depth) {
                    let mut y = x;
                    let mut r = r0.clone();
                    let mut m = base.clone();
                    let mut hist: Vec<&Post> = vec![];
                    ctx.states += 1;
                    ctx.traces += 1;
                    for d in 0..=depth {
                        // check before the first and after each step (prefixes only once)
                        let once = x < np.pow(d);
                        let exact = !matches!(hist.last(), Some(Post::Minimal));
                        if once {
                            let e = if forms { check_forms(&r, &w, &gr) } else { check_stats(&r, &m, exact) };
                            ctx.ops(1);
                            if let Err(e) = e {
                                return fail(key, format!("{}\nkeys {:?} groups {:?}\n{} after {:?}: {}", w.laid.desc(), w.keys, w.groups, what, hist, e));
                            }
                        }
                        if d < depth {
                            let p = &ps[(y % np) as usize];
                            y /= np;
                            r = apply(&r, &w, &gr, p);
                            m = step(&w, &gr, &m, p);
                            if let Post::Minimal = p {
                                // the order among equally large sets is free
                                let got = r.clone().into_vec_vec();
                                let (mut s1, mut s2) = (got.clone(), m.clone());
                                s1.sort();
                                s2.sort();
                                if s1 == s2 {
                                    m = got;
                                }
                            }
                            hist.push(p);
                        }
                    }
                    ctx.outcome(&m);
                }
            }
            // single sets
            for (what, t0) in [("top tier", tt), ("all nodes", a.all_nodes()), ("satisfiable nodes", a.satisfiable_nodes())] {
                for p1 in &ps {
                    for p2 in &ps {
                        let base = vec![t0.clone().into_vec()];
                        let r = apply1(&apply1(&t0, &w, &gr, p1), &w, &gr, p2);
                        let m = match (p1, p2) {
                            (Post::Minimal, Post::Minimal) => base,
                            _ => step(&w, &gr, &step(&w, &gr, &base, p1), p2),
                        };
                        ctx.ops(1);
                        let e = if forms {
                            check_forms1(&r, &w, &gr)
                        } else {
                            let v = r.clone().into_vec();
                            ensure(v == m[0] && r.len() == v.len() && r.is_empty() == v.is_empty() && r.involved_nodes().iter().collect::<Vec<_>>() == v && r.clone().unwrap().iter().collect::<Vec<_>>() == v, || {
                                format!("is {:?} (len {}, empty {}), should be {:?}", v, r.len(), r.is_empty(), m[0])
                            })
                        };
                        if let Err(e) = e {
                            return fail(key, format!("{}\nkeys {:?} groups {:?}\n{} after {:?}, {:?}: {}", w.laid.desc(), w.keys, w.groups, what, p1, p2, e));
                        }
                    }
                }
            }
            if forms {
                for x in 0..w.laid.total {
                    let q = w.fbas.get_quorum_set(x).unwrap();
                    ctx.ops(1);
                    if let Err(e) = check_qset_forms(&q, &w, &gr) {
                        return fail(key, format!("{}\nkeys {:?} groups {:?}\n{}", w.laid.desc(), w.keys, w.groups, e));
                    }
                }
                let e = ensure(
                    true.into_id_string() == "true" && false.into_pretty_string(&w.fbas, None) == "false" && false.into_describe_string() == "false" && 17usize.into_id_string() == "17" && 0usize.into_describe_string() == "0" && usize::MAX.into_pretty_string(&w.fbas, Some(&gr)) == usize::MAX.to_string(),
                    || "plain values are shown wrongly".into(),
                );
                if let Err(e) = e {
                    return fail(key, e);
                }
            }
            if i % 41 == 3 {
                ctx.sample(|| format!("{}: all chains of {} out of {:?}", show(&f), depth, ps));
            }
            Ok(())
        },
        move |i| show(&g2(i / 2)),
    )
}
fn default_results() -> Family {
    Family::new(
        "empty results",
        1,
        |_, ctx| {
            let r = NodeIdSetVecResult::default();
            ctx.states += 1;
            ctx.traces += 1;
            ctx.op();
            match check_stats(&r, &[], true).and_then(|_| check_stats(&r.minimal_sets().without_nodes(&[1]), &[], true)) {
                Ok(()) => Ok(()),
                Err(e) => fail("default", e),
            }
        },
        |_| "NodeIdSetVecResult::default()".into(),
    )
}

// ---------------------------------------------------------------- C19
fn c19(fam: &[u32], off: &[usize], c: &mut Ctx) -> R {
    let real: Vec<NodeIdSet> = fam.iter().map(|&m| bits(m).into_iter().map(|x| off[x]).collect()).collect();
    let as_mask = |s: &NodeIdSet| s.iter().fold(0u32, |a, x| a | 1 << off.iter().position(|&y| y == x).unwrap_or(31));
    let got: Vec<u32> = remove_non_minimal_node_sets(real.clone()).iter().map(as_mask).collect();
    let want = minimal(fam.to_vec());
    let (mut a, mut b) = (got.clone(), want.clone());
    a.sort_unstable();
    b.sort_unstable();
    ensure(a == b, || format!("remove_non_minimal_node_sets = {}, should be {}", show_sets(&got), show_sets(&want)))?;
    ensure(got.windows(2).all(|w| w[0].count_ones() <= w[1].count_ones()), || format!("remove_non_minimal_node_sets is not ordered by size: {}", show_sets(&got)))?;
    let ok = (0..fam.len()).all(|i| (0..fam.len()).all(|j| i == j || fam[i] & fam[j] != fam[i]));
    ensure(is_set_of_minimal_node_sets(&real) == ok, || format!("is_set_of_minimal_node_sets = {}", !ok))?;
    let ai = (0..fam.len()).all(|i| (i + 1..fam.len()).all(|j| fam[i] & fam[j] != 0));
    ensure(all_intersect(&real) == ai, || format!("all_intersect = {}", !ai))?;
    let inv = fam.iter().fold(0, |a, x| a | x);
    let g = as_mask(&involved_nodes(&real));
    ensure(g == inv, || format!("involved_nodes = {:?}", bits(g)))?;
    c.ops(4);
    c.outcome(&(want, ok, ai));
    Ok(())
}
fn c19_family(n: usize, k: u32, off: Vec<usize>) -> Family {
    let dec = move |i: u64| -> Vec<u32> {
        let mut x = i;
        (0..k)
            .map(|_| {
                let r = x % (1 << n);
                x /= 1 << n;
                r as u32
            })
            .collect()
    };
    Family::new(
        format!("families of {} sets over {} nodes {:?}", k, n, off),
        (1u64 << n).pow(k),
        move |i, ctx| {
            let f = dec(i);
            ctx.states += 1;
            ctx.traces += 1;
            if i % 4001 == 77 {
                ctx.sample(|| show_sets(&f));
            }
            match c19(&f, &off, ctx) {
                Ok(()) => Ok(()),
                Err(e) => fail(show_sets(&f), e),
            }
        },
        move |i| show_sets(&dec(i)),
    )
}
/// every family made of all sets of given sizes (large families), each once or twice, in two orders
fn c19_layers(n: usize) -> Family {
    let dec = move |i: u64| -> Vec<u32> {
        let pick = i % (1 << (n + 1));
        let style = i >> (n + 1);
        let mut f: Vec<u32> = (0..1u32 << n).filter(|m| pick >> m.count_ones() & 1 == 1).collect();
        if style & 1 == 1 {
            f.reverse();
        }
        if style & 2 == 2 {
            // only sets containing node 0 or exactly two of the others
            f.retain(|m| m & 1 == 1 || m.count_ones() == 2);
            let g = f.clone();
            f.extend(g.into_iter().step_by(3));
        }
        f
    };
    Family::new(
        format!("layers of the subsets of {} nodes", n),
        4 << (n + 1),
        move |i, ctx| {
            let f = dec(i);
            ctx.states += 1;
            ctx.traces += 1;
            match c19(&f, &(0..n).map(|x| 3 * x + 1).collect::<Vec<_>>(), ctx) {
                Ok(()) => Ok(()),
                Err(e) => fail(show_sets(&f), e),
            }
        },
        move |i| show_sets(&dec(i)),
    )
}

// ----------------------------------------------------------------
pub fn property(id: &str, t: Tier) -> Option<Property> {
    let q = t == Tier::Quick;
    let mk = |id: &'static str, rule: &'static str, families: Vec<Family>| {
        Some(Property { id, level: "model_checking", rule, assumptions: vec!["bounded: only the listed universes are explored, each of them completely"], families, hang_s: 60 })
    };
    let small = |step: u64| -> Vec<RF> {
        let p = U::product("", vec![[flat_all(3), nested3()].concat(); 3]);
        (0..p.len / step).map(|i| (p.gen)(i * step + i % step)).collect()
    };
    match id {
        "C13" => {
            let a1 = rich1();
            let a2 = rich2(2, 1, &inner2());
            let mut f = vec![
                c13_family(U::list("no-nodes", vec![RF { q: vec![] }])),
                c13_family(U::product("n1", vec![a1])),
                c13_family(if q { U::product("n2", vec![a2.clone(), a2]) } else { U::product("n2", vec![a2.clone(), a2]) }),
                c13_family(U::list("n3", small(if q { 5 } else { 1 }))),
                c13_family(U::list("varied", varied(if q { 2000 } else { 10000 }).into_iter().filter(|f| f.n() <= 8).collect())),
                history_family("histories", false, 5, if q { 3 } else { 4 }),
            ];
            if !q {
                f.push(history_family("longer histories", false, 3, 5));
            }
            f.extend(crate::p_large::c13(q));
            mk("C13", "Every listed document in several key sets and spellings, and every history of building, changing, writing and reading back: all that can be observed about the FBAS compared with a plain model.", f)
        }
        "C14" => mk(
            "C14",
            "Every listed FBAS reduced to every subset of its nodes (and, up to four nodes, to every subset of that), and every history of changing, reducing, writing and reading: compared with a plain model.",
            vec![
                c14_family("n3", small(if q { 9 } else { 1 })),
                c14_family("varied", varied(if q { 600 } else { 4000 }).into_iter().filter(|f| f.n() <= 8).collect()),
                history_family("histories", true, 5, if q { 3 } else { 4 }),
            ]
            .into_iter()
            .chain(crate::p_large::c14(q))
            .collect(),
        ),
        "C15" => mk(
            "C15",
            "Every assignment of the listed names (or none) to the nodes, as ISP and as country, and every list of organizations with every list of members: compared with a plain model.",
            vec![
                c15_characters(),
                c15_names(1, 2),
                c15_names(2, 1),
                c15_names(3, 0),
                c15_orgs(1, 4, 4, 0),
                c15_names(4, 2),
                c15_orgs(2, 3, 3, 1),
                c15_orgs(3, 3, if q { 2 } else { 3 }, 2),
            ]
            .into_iter()
            .chain(crate::p_large::c15(q))
            .collect(),
        ),
        "C16" => {
            let mut qs: Vec<(usize, RQ)> = vec![];
            qs.extend(flat_all(4).into_iter().map(|x| (4, x)));
            qs.extend(rich2(3, 2, &inner2()).into_iter().map(|x| (2, x)));
            qs.extend(nested3().into_iter().map(|x| (3, x)));
            qs.extend(quads().into_iter().map(|x| (4, x)));
            let tr = trees(6, if q { 2 } else { 3 }, false);
            for (n, x) in &tr {
                if *n <= 4 {
                    qs.extend(duplicated(*n, x));
                }
            }
            qs.extend(tr);
            let us: Vec<RF> = varied(if q { 200 } else { 1500 }).into_iter().filter(|f| f.n() <= 6).collect();
            mk(
                "C16",
                "Every partition of up to six nodes into groups (in several orders) x every family of node sets, every listed sane quorum set on every union of groups, and every analysis result: compared with plain sets.",
                vec![
                    c16_set_family(3, 4, 4),
                    c16_set_family(4, if q { 2 } else { 3 }, 4),
                    c16_set_family(5, 2, 3),
                    c16_qset_family("quorum sets", qs, 4),
                    c16_analysis("analysis results", us, if q { 2 } else { 4 }),
                ]
                .into_iter()
                .chain(crate::p_large::c16(q))
                .collect(),
            )
        }
        "C17" => mk(
            "C17",
            "Every chain of post-processing steps up to the depth on every result of each listed FBAS: sets and all statistics compared with the same steps on plain sets.",
            vec![default_results(), chain_family("chains", varied(if q { 400 } else { 2500 }), 2, false), chain_family("longer chains", varied(if q { 60 } else { 300 }), 3, false), chain_family("even longer chains", varied(if q { 3 } else { 40 }), 4, false), chain_family("large systems", crate::p_shapes::systems(q), if q { 1 } else { 2 }, false), big_results(q, false)],
        ),
        "C18" => mk(
            "C18",
            "Every result of each listed FBAS, after every chain of post-processing steps up to the depth, in every output form, parsed and compared with the sets it denotes.",
            vec![chain_family("chains", varied(if q { 600 } else { 4000 }), 1, true), chain_family("longer chains", varied(if q { 60 } else { 600 }), 2, true), chain_family("even longer chains", varied(if q { 4 } else { 60 }), 3, true), chain_family("large systems", crate::p_shapes::systems(q), 1, true), big_results(q, true)],
        ),
        "C19" => {
            let mut f = vec![
                c19_family(3, 0, vec![0, 1, 2]),
                c19_family(3, 1, vec![0, 1, 2]),
                c19_family(3, 2, vec![0, 1, 2]),
                c19_family(3, 3, vec![0, 31, 32]),
                c19_family(3, 4, vec![0, 64, 200]),
                c19_family(3, 5, vec![0, 1, 2]),
                c19_family(4, 3, vec![1, 3, 31, 33]),
                c19_family(4, 4, vec![0, 1, 2, 3]),
                c19_family(5, 2, vec![0, 1, 2, 3, 4]),
                c19_family(5, 3, vec![0, 1, 2, 3, 64]),
                c19_family(7, 2, (0..7).map(|x| x * 31).collect()),
                c19_layers(4),
                c19_layers(6),
            ];
            f.push(c19_family(3, 6, vec![5, 6, 7]));
            f.push(c19_family(3, 7, vec![0, 1, 2]));
            f.push(c19_family(4, 5, vec![0, 1, 2, 3]));
            f.push(c19_family(5, 4, vec![0, 1, 2, 3, 4]));
            f.push(c19_family(6, 3, vec![0, 1, 2, 3, 4, 5]));
            f.extend(crate::p_large::c19(q));
            if !q {
                f.push(c19_family(3, 8, vec![0, 1, 2]));
                f.push(c19_family(4, 6, vec![0, 1, 2, 40]));
                f.push(c19_family(6, 4, vec![0, 1, 2, 3, 4, 5]));
                f.push(c19_family(10, 2, (0..10).map(|x| x * 13).collect()));
                f.push(c19_layers(8));
            }
            mk("C19", "Every family of the listed numbers of node sets (order and repetition included): each helper compared with its definition.", f)
        }
        _ => None,
    }
}
#[allow(dead_code)]
fn unused() {
    let _ = perms;
}
