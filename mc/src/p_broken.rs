//! C36: torn and malformed input (a child of p_cli).
use super::*;

/// nothing of `text` is taken: the tool fails and prints no result
fn refused(bin: &str, args: &[String], stdin: Option<&[u8]>, dir: &Dir, silent: bool, c: &mut Ctx) -> R {
    let r = run(&tool(bin), args, stdin, &dir.0, &[]);
    c.traces += 1;
    c.states += 1;
    c.op();
    let what = |e: &str| format!("{}\n{} {}\n{}", e, bin, args.join(" "), r.show());
    ensure(!r.ok(), || what("broken input is not refused"))?;
    ensure(r.signal.is_none(), || what("the tool is killed by broken input"))?;
    let shown = r.out.lines().any(|l| KEYS.iter().any(|k| l.starts_with(k)));
    ensure(!silent || !shown && r.out.trim().is_empty(), || what("something is printed although the input is broken"))?;
    c.outcome(&(r.code, r.err.lines().find(|l| l.contains("rror")).map(|l| l.chars().filter(|x| !x.is_ascii_digit()).take(60).collect::<String>())));
    c.sample(|| format!("{} {}: exit {:?}", bin, args.join(" "), r.code));
    Ok(())
}
/// a position in a JSON document
#[derive(Clone, Debug)]
enum At {
    Key(String),
    Ix(usize),
}
fn walk(v: &Value, path: &mut Vec<At>, f: &mut impl FnMut(&[At], &Value)) {
    f(path, v);
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(At::Ix(i));
                walk(x, path, f);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(At::Key(k.clone()));
                walk(x, path, f);
                path.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, path: &[At]) -> &'a mut Value {
    path.iter().fold(v, |v, p| match p {
        At::Key(k) => &mut v[k.as_str()],
        At::Ix(i) => &mut v[*i],
    })
}
/// every single change that makes an FBAS (or organizations) document meaningless
fn malformed(doc: &Value, required: &[&str]) -> Vec<(String, String)> {
    let mut places: Vec<(Vec<At>, Value)> = vec![];
    walk(doc, &mut vec![], &mut |p, v| places.push((p.to_vec(), v.clone())));
    let mut out = vec![];
    let mut seen = BTreeSet::new();
    for (p, v) in places {
        let wrong: Vec<Value> = match &v {
            Value::Array(_) => vec![json!({}), json!("x"), json!(3), json!(true)],
            Value::Object(_) => vec![json!("x"), json!(3), json!(false)],
            Value::String(_) => vec![json!(3), json!([]), json!({}), json!(true), json!(2.5)],
            Value::Number(_) => vec![json!("2"), json!(-1), json!(2.5), json!([2]), json!({}), json!(true), Value::Null],
            _ => vec![],
        };
        for w in wrong {
            let mut d = doc.clone();
            *at(&mut d, &p) = w.clone();
            let t = d.to_string();
            if seen.insert(t.clone()) {
                out.push((format!("{:?} replaced by {}", p, w), t));
            }
        }
        if let Value::Object(o) = &v {
            for k in o.keys().filter(|k| required.contains(&k.as_str())) {
                let mut d = doc.clone();
                at(&mut d, &p).as_object_mut().unwrap().remove(k);
                let t = d.to_string();
                if seen.insert(t.clone()) {
                    out.push((format!("{:?} without {}", p, k), t));
                }
            }
        }
    }
    out
}
const NODE_FIELDS: [&str; 3] = ["publicKey", "threshold", "validators"];
const ORG_FIELDS: [&str; 2] = ["name", "validators"];

fn sample_docs() -> Vec<Doc> {
    let all = small_docs();
    [0usize, 2, 4, 5, 1].iter().map(|&i| all[i].clone()).collect()
}
/// a few ways to ask
fn ways(t: Tier) -> Vec<Vec<&'static str>> {
    let mut v = vec![vec!["-a"], vec!["--results-only"], vec!["-qp", "--alternative-quorum-intersection-check"]];
    if t == Tier::Thorough {
        v.extend([vec!["-bd", "--dont-check-quorum-intersection"], vec!["-s", "--merge-by-isp"], vec!["--merge-by-country", "-p"]]);
    }
    v
}

fn torn_documents(t: Tier) -> Family {
    let docs = Arc::new(sample_docs());
    let mut cases: Vec<(usize, usize, bool)> = vec![];
    for (k, d) in docs.iter().enumerate().take(t.pick(2, 5)) {
        let text = d.json();
        for cut in 0..text.len() {
            // both sources at every cut in the thorough tier
            if t == Tier::Thorough || cut % 2 == k % 2 {
                cases.push((k, cut, false));
            }
            if t == Tier::Thorough || cut % 2 != k % 2 {
                cases.push((k, cut, true));
            }
        }
    }
    let cases = Arc::new(cases);
    let (c2, n) = (cases.clone(), cases.len() as u64);
    let ways = ways(t);
    Family::new(
        "FBAS documents cut off at every byte (file or standard input)",
        n,
        move |i, c| {
            let (k, cut, piped) = cases[i as usize];
            let dir = Dir::new();
            let text = docs[k].json();
            let torn = &text.as_bytes()[..cut];
            let mut args = strs(&ways[i as usize % ways.len()]);
            if !piped {
                args.insert(0, dir.put("nodes.json", torn));
            }
            refused("fbas_analyzer", &args, if piped { Some(torn) } else { None }, &dir, true, c).or_else(|e| fail(format!("document {} cut at {} {}", k, cut, piped), format!("{}\n{}", e, String::from_utf8_lossy(torn))))
        },
        move |i| format!("{:?}", c2[i as usize]),
    )
}
fn malformed_documents(t: Tier) -> Family {
    let docs = sample_docs();
    let mut cases: Vec<(String, String)> = vec![];
    for d in docs.iter().take(t.pick(3, 5)) {
        cases.extend(malformed(&serde_json::from_str(&d.json()).unwrap(), &NODE_FIELDS));
    }
    // well-formed, but no list of nodes; or followed by something
    let good = docs[2].json();
    for (a, b) in [("{\"nodes\":", "}"), ("", ","), ("", "]"), ("", "[]"), ("x", ""), ("", " x"), ("[", "]"), ("\u{feff}", "")] {
        cases.push((format!("inside {:?} and {:?}", a, b), format!("{}{}{}", a, good, b)));
    }
    cases.push(("no text".into(), " \n".into()));
    let ways = ways(t);
    list_family("FBAS documents with every single value made meaningless", cases, move |(_, text), c| {
        let dir = Dir::new();
        let p = dir.put("nodes.json", text.as_bytes());
        for piped in [false, true] {
            let mut args = strs(&ways[(text.len() + piped as usize) % ways.len()]);
            if !piped {
                args.push(p.clone());
            }
            refused("fbas_analyzer", &args, if piped { Some(text.as_bytes()) } else { None }, &dir, true, c).map_err(|e| format!("{}\n{}", e, text))?;
        }
        Ok(())
    })
}
fn broken_organizations(t: Tier) -> Family {
    let all = small_docs();
    let mut cases: Vec<(usize, String)> = vec![];
    for k in [0usize, 1, 4] {
        if let Some(g) = &all[k].orgs {
            let text = all[k].orgs_json(g);
            for cut in 0..text.len() {
                if text.is_char_boundary(cut) && (t == Tier::Thorough || k == 0 || cut % 3 == 0) {
                    cases.push((k, text[..cut].to_string()));
                }
            }
            cases.extend(malformed(&serde_json::from_str(&text).unwrap(), &ORG_FIELDS).into_iter().map(|x| (k, x.1)));
        }
    }
    list_family("organizations cut off at every byte and with every single value made meaningless", cases, move |(k, text), c| {
        let dir = Dir::new();
        let n = dir.put("nodes.json", small_docs()[*k].json().as_bytes());
        let o = dir.put("orgs.json", text.as_bytes());
        for w in [vec!["-a"], vec!["-qbp"]] {
            let mut args = strs(&w);
            args.extend([n.clone(), format!("--merge-by-org={}", o)]);
            refused("fbas_analyzer", &args, None, &dir, false, c)?;
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- the bulk analyzer
#[derive(Clone, Copy, Debug, PartialEq)]
enum Damage {
    /// cut after this many thousandths
    Cut(usize),
    Missing,
    Dir,
    NotUtf8,
    Meaningless(usize),
}
#[derive(Clone, Debug)]
struct BulkCase {
    shift: usize,
    n: usize,
    broken: usize,
    orgs: bool,
    damage: Damage,
    jobs: usize,
    to_stdout: bool,
}
fn bulk_broken(p: &BulkCase, c: &mut Ctx) -> R {
    let b = bulk(p.n, p.shift, true);
    let files = if p.orgs { &b.orgs } else { &b.nodes };
    let path = match files.get(p.broken) {
        None => return Ok(()),
        Some(x) => x.clone(),
    };
    let good = std::fs::read_to_string(&path).unwrap();
    let _ = std::fs::remove_file(&path);
    let put = |d: &[u8]| std::fs::write(&path, d).unwrap_or_else(|e| infra(e));
    match p.damage {
        Damage::Cut(k) => put(&good.as_bytes()[..good.len() * k / 1000]),
        Damage::Missing => {}
        Damage::Dir => std::fs::create_dir(&path).unwrap_or_else(|e| infra(e)),
        Damage::NotUtf8 => put(&[good.as_bytes(), b"\xff\xfe"].concat()),
        Damage::Meaningless(k) => {
            let m = malformed(&serde_json::from_str(&good).unwrap(), if p.orgs { &ORG_FIELDS } else { &NODE_FIELDS });
            put(m[k * m.len() / 1000].1.as_bytes());
        }
    }
    let label = b.want.iter().zip(&b.files).find(|(_, f)| f.contains(&path)).map(|x| x.0["label"].clone());
    let mut args = b.inputs();
    args.extend(strs(&["-j", &p.jobs.to_string()]));
    if !p.to_stdout {
        args.extend(strs(&["-o", &b.dir.path("out.csv")]));
    }
    let r = run(&tool("bulk_fbas_analyzer"), &args, None, &b.dir.0, &[]);
    c.traces += 1;
    c.states += 1;
    c.op();
    let text = if p.to_stdout { r.out.clone() } else { String::from_utf8_lossy(&b.dir.get("out.csv").unwrap_or_default()).to_string() };
    let what = |e: String| format!("{}\nbulk_fbas_analyzer {}\n{} is broken\n{}\n{}", e, args.join(" "), path, r.show(), text);
    ensure(!r.ok(), || what("broken input is not refused".into()))?;
    ensure(r.signal.is_none(), || what("the tool is killed by broken input".into()))?;
    let t = table(&text, &bulk_cols()).map_err(what)?;
    let mut last = None;
    for row in &t {
        let at = b.want.iter().position(|w| w["label"].fits(&row["label"])).ok_or_else(|| what(format!("a row of {:?}", row["label"])))?;
        ensure(Some(&b.want[at]["label"]) != label.as_ref(), || what("there is a row for the broken input".into()))?;
        ensure(last < Some(at), || what("the rows are not in order".into()))?;
        last = Some(at);
        fits_row(row, &b.want[at]).map_err(what)?;
    }
    c.outcome(&(t.len(), r.code));
    c.sample(|| what("refused".into()));
    Ok(())
}
fn broken_bulk(t: Tier) -> Family {
    let mut cases = vec![];
    for shift in 0..t.pick(2, 5) {
        for n in 1..=4 {
            for broken in 0..n {
                for orgs in [false, true] {
                    let mut damages = vec![Damage::Missing, Damage::Dir, Damage::NotUtf8];
                    damages.extend((0..t.pick(4, 12)).map(|k| Damage::Cut(999 * k / t.pick(3, 11))));
                    damages.extend((0..t.pick(3, 20)).map(|k| Damage::Meaningless(1000 * k / t.pick(3, 20))));
                    for (k, damage) in damages.into_iter().enumerate() {
                        for jobs in [1usize, 2, 4] {
                            if t == Tier::Quick && (jobs == 4) != (n == 4) {
                                continue;
                            }
                            cases.push(BulkCase { shift, n, broken, orgs, damage, jobs, to_stdout: (k + jobs + broken) % 2 == 0 });
                        }
                    }
                }
            }
        }
    }
    list_family("the bulk analyzer with one input broken (which, how, where)", cases, bulk_broken)
}
/// an existing result file cut off at every byte, then updated
fn torn_results(t: Tier) -> Family {
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    let hists: Vec<Hist> = (0..t.pick(1, 3)).map(Hist::new).collect();
    let texts: Vec<Vec<String>> = hists.iter().map(|h| [4usize, 6, 7].iter().map(|&k| h.initial(k).0.unwrap()).collect()).collect();
    drop(hists);
    for (s, ts) in texts.iter().enumerate() {
        for (k, x) in ts.iter().enumerate().take(t.pick(2, 3)) {
            cases.extend((0..x.len()).filter(|cut| x.is_char_boundary(*cut)).map(|cut| (s, k, cut)));
        }
    }
    let texts = Arc::new(texts);
    list_family("the bulk analyzer updating a result file cut off at every byte", cases, move |&(s, k, cut), c| {
        let torn = &texts[s][k][..cut];
        let h = Hist::new(s);
        let b = &h.b;
        let whole = &torn[..torn.rfind('\n').map(|x| x + 1).unwrap_or(0)];
        let kept = table(whole, &bulk_cols())?;
        b.dir.put("out.csv", torn.as_bytes());
        let args = bulk_args(b, 1 + cut % 3, &b.dir.path("out.csv"), true);
        let r = run(&tool("bulk_fbas_analyzer"), &args, None, &b.dir.0, &[]);
        c.traces += 1;
        c.states += 1;
        c.op();
        let now = String::from_utf8_lossy(&b.dir.get("out.csv").unwrap_or_default()).to_string();
        let what = |e: String| format!("{}\nupdating {:?}\n{}\nnow {:?}", e, torn, r.show(), now);
        ensure(r.signal.is_none(), || what("the tool is killed".into()))?;
        if !r.ok() {
            ensure(now == torn, || what("the file is refused, and changed".into()))?;
            c.outcome(&0);
            return Ok(());
        }
        let t = table(&now, &bulk_cols()).map_err(what)?;
        for row in &kept {
            let again = t.iter().filter(|x| x["label"] == row["label"]).collect::<Vec<_>>();
            ensure(again.len() == 1, || what(format!("{} rows of {:?}", again.len(), row["label"])))?;
            same_row(row, again[0]).map_err(what)?;
        }
        // the rest are the inputs, each once, or the row that was cut off
        let torn_label = if whole.len() < torn.len() && !whole.is_empty() { ["\n", "\"\n"].iter().find_map(|end| parse_csv(&format!("{}{}", &torn[whole.len()..], end)).ok()).and_then(|r| r.first().cloned()) } else { None };
        let mut labels: Vec<&String> = t.iter().map(|x| &x["label"]).collect();
        ensure(labels.windows(2).all(|w| w[0] < w[1]), || what(format!("rows of {:?}", labels)))?;
        for l in &b.labels {
            ensure(labels.contains(&l), || what(format!("no row of {:?}", l)))?;
        }
        labels.retain(|l| !b.labels.contains(l) && !kept.iter().any(|r| r["label"] == **l));
        ensure(labels.iter().all(|l| torn_label.as_ref().map(|f| f.contains(l)).unwrap_or(false)), || what(format!("rows of nobody: {:?}", labels)))?;
        for row in &t {
            let known = kept.iter().any(|r| r["label"] == row["label"]) || torn_label.as_ref().map(|f| f.contains(&row["label"])).unwrap_or(false);
            if !known {
                let w = b.want.iter().find(|w| w["label"].fits(&row["label"])).unwrap();
                fits_row(row, w).map_err(what)?;
            }
        }
        c.outcome(&(t.len(), kept.len()));
        c.sample(|| what("updated".into()));
        Ok(())
    })
}
fn torn_experiments(t: Tier) -> Family {
    let rows = vec![perf_sentinel(1, 0, 1), perf_sentinel(3, 0, 2), perf_sentinel(3, 1, 3)];
    let mut rev = perf_cols();
    rev.reverse();
    let texts = Arc::new(vec![csv_text(&rows, &perf_cols()), csv_text(&rows, &rev)]);
    let cases: Vec<(usize, usize)> = (0..t.pick(1, 2)).flat_map(|k| (0..texts[k].len()).map(move |cut| (k, cut))).collect();
    list_family("the performance experiment updating a result file cut off at every byte", cases, move |&(k, cut), c| {
        let dir = Dir::new();
        let torn = &texts[k][..cut];
        let whole = &torn[..torn.rfind('\n').map(|x| x + 1).unwrap_or(0)];
        let kept = table(whole, &perf_cols())?;
        let out = dir.put("perf.csv", torn.as_bytes());
        let args = strs(&["-m", "3", "--runs", "2", "-j", "1", "--out", &out, "--update"]);
        let r = run(&tool("bulk_performance_experiment"), &args, None, &dir.0, &[]);
        c.traces += 1;
        c.states += 1;
        c.op();
        let now = String::from_utf8_lossy(&dir.get("perf.csv").unwrap_or_default()).to_string();
        let what = |e: String| format!("{}\nupdating {:?}\n{}\nnow {:?}", e, torn, r.show(), now);
        ensure(r.signal.is_none(), || what("the tool is killed".into()))?;
        if !r.ok() {
            ensure(now == torn, || what("the file is refused, and changed".into()))?;
            c.outcome(&0);
            return Ok(());
        }
        let t = table(&now, &perf_cols()).map_err(what)?;
        for row in &kept {
            let again: Vec<&Row> = t.iter().filter(|x| x["top_tier_size"] == row["top_tier_size"] && x["run"] == row["run"]).collect();
            ensure(again.len() == 1, || what(format!("{} rows of {:?}", again.len(), row)))?;
            same_row(row, again[0]).map_err(what)?;
        }
        for size in 1..=3 {
            for run in 0..2 {
                let n = t.iter().filter(|x| x["top_tier_size"] == size.to_string() && x["run"] == run.to_string()).count();
                ensure(n == 1, || what(format!("{} rows for size {} and run {}", n, size, run)))?;
            }
        }
        c.outcome(&(t.len(), kept.len()));
        Ok(())
    })
}

// ---------------------------------------------------------------- graphs
const BAD_LINES: [&str; 16] = ["1|2", "1|x|0", "|1|0", "1||0", "1|2|", "1|2|1", "1|2|-2", "-1|2|0", "1.5|2|0", "1,2,0", "one", "1 |2|0", " # no comment", "1|2|0x", "1|99999999999999999999|0", "|"];
const GRAPH_POLICIES: [&str; 4] = ["AllNeighbors", "HigherTierNeighbors", "SymmetryEnforcingHigherTierNeighbors", "GlobalRank"];
fn bad_lines() -> Family {
    let mut cases = vec![];
    for bad in BAD_LINES {
        for at in 0..4usize {
            for via in 0..3usize {
                for nl in ["\n", "\r\n"] {
                    cases.push((bad, at, via, nl));
                }
            }
        }
    }
    list_family("graphs with one malformed line", cases, move |&(bad, at, via, nl), c| {
        let mut lines = vec!["# a graph", "0|1|0", "2|0|-1"];
        lines.insert(at, bad);
        let text = lines.iter().map(|l| format!("{}{}", l, nl)).collect::<String>();
        let dir = Dir::new();
        let (path, stdin) = match via {
            0 => (dir.put("g", text.as_bytes()), None),
            1 => (dir.put("g", &bz(text.as_bytes())), None),
            _ => ("-".to_string(), Some(text.as_bytes())),
        };
        let pol = GRAPH_POLICIES[(at + via + bad.len()) % 4];
        refused("qsc_simulator", &strs(&[pol, &path]), stdin, &dir, true, c).map_err(|e| format!("{}\n{:?}", e, text))
    })
}
/// a graph whose text is long enough for several ends to matter
fn sample_graphs() -> Vec<String> {
    let mut v = vec![];
    for (n, k) in [(3usize, 1usize), (12, 3), (60, 2)] {
        let mut s = String::from("# a graph\n");
        for a in 0..n {
            for d in 1..=k {
                s += &format!("{}|{}|{}\n", a, (a + d) % n, if (a + d) % 3 == 0 { -1 } else { 0 });
            }
        }
        v.push(s);
    }
    v
}
fn shown_graph(dir: &Dir, data: &[u8], pol: &str, c: &mut Ctx) -> Run {
    let p = dir.put("g.bz2", data);
    c.traces += 1;
    c.op();
    run(&tool("qsc_simulator"), &strs(&[pol, &p]), None, &dir.0, &[])
}
fn torn_graphs(t: Tier) -> Family {
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for (k, g) in sample_graphs().iter().enumerate() {
        for streams in 1..=t.pick(2, 3) {
            let n = split_bz(g, streams).concat().len();
            cases.extend((1..n).filter(|cut| t == Tier::Thorough || streams == 1 || cut % 2 == k % 2).map(|cut| (k, streams, cut)));
        }
    }
    list_family("compressed graphs cut off at every byte (one or more streams)", cases, move |&(k, streams, cut), c| {
        let parts = split_bz(&sample_graphs()[k], streams);
        let data = parts.concat();
        // a cut between two streams leaves a complete file
        let mut end = 0;
        for p in &parts {
            end += p.len();
            if end == cut {
                return Ok(());
            }
        }
        let dir = Dir::new();
        let p = dir.put("g.bz2", &data[..cut]);
        refused("qsc_simulator", &strs(&[GRAPH_POLICIES[cut % 4], &p]), None, &dir, true, c).map_err(|e| format!("{}\n{} of {} bytes", e, cut, data.len()))
    })
}
fn split_bz(text: &str, streams: usize) -> Vec<Vec<u8>> {
    let lines: Vec<&str> = text.split_inclusive('\n').collect();
    (0..streams).map(|i| bz(lines[lines.len() * i / streams..lines.len() * (i + 1) / streams].concat().as_bytes())).collect()
}
/// every changed byte: refused, or without consequence
fn damaged_graphs(t: Tier) -> Family {
    let mut cases: Vec<(usize, usize, u8)> = vec![];
    for (k, g) in sample_graphs().iter().enumerate().take(t.pick(2, 3)) {
        for at in 0..bz(g.as_bytes()).len() {
            for x in t.pick(vec![1u8 << (at % 8), 0xff], (0..8).map(|b| 1u8 << b).chain([0xff]).collect()) {
                cases.push((k, at, x));
            }
        }
    }
    list_family("compressed graphs with every byte changed", cases, move |&(k, at, x), c| {
        let dir = Dir::new();
        let mut data = bz(sample_graphs()[k].as_bytes());
        let pol = GRAPH_POLICIES[at % 4];
        let good = shown_graph(&dir, &data, pol, c);
        ensure(good.ok(), || format!("an intact graph is refused\n{}", good.show()))?;
        data[at] ^= x;
        let r = shown_graph(&dir, &data, pol, c);
        c.states += 1;
        ensure(r.signal.is_none(), || format!("the tool is killed\n{}", r.show()))?;
        if r.ok() {
            ensure(r.out == good.out, || format!("a damaged graph is used: {}\nintact: {}", r.show(), good.show()))?;
        } else {
            ensure(r.out.trim().is_empty(), || format!("a damaged graph is refused, but used\n{}", r.show()))?;
        }
        c.outcome(&(r.ok(), r.out));
        Ok(())
    })
}
fn absent() -> Family {
    let mut cases: Vec<(&str, Vec<&str>)> = vec![];
    for f in ["missing.json", "dir", "", "in.json/x"] {
        cases.push(("fbas_analyzer", vec!["-a", f]));
        cases.push(("fbas_analyzer", vec![f, "--results-only"]));
        for p in GRAPH_POLICIES {
            if f != "" {
                cases.push(("qsc_simulator", vec![p, f]));
            }
        }
        if f != "" {
            cases.push(("bulk_fbas_analyzer", vec![f, "-o", "out.csv"]));
            cases.push(("bulk_fbas_analyzer", vec!["in.json", f, "-j", "2", "-o", "out.csv"]));
        }
    }
    list_family("inputs that are not there", cases, move |(bin, args), c| {
        let dir = Dir::new();
        dir.put("in.json", small_docs()[0].json().as_bytes());
        std::fs::create_dir(dir.path("dir")).unwrap_or_else(|e| infra(e));
        refused(bin, &strs(args), None, &dir, *bin != "bulk_fbas_analyzer", c)
    })
}
pub fn c36(t: Tier) -> Vec<Family> {
    vec![torn_documents(t), malformed_documents(t), broken_organizations(t), broken_bulk(t), torn_results(t), torn_experiments(t), bad_lines(), torn_graphs(t), damaged_graphs(t), absent()]
}
