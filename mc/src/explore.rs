//! Depth-first exploration of every sequence of choices.
use rand::mc::Kind;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Default)]
pub struct Trail {
    pub prefix: Vec<u64>,
    pub taken: Vec<(u64, u64, Kind)>, // (choice, out of, kind)
    pub limit: usize,
    pub overflow: bool,
}
#[derive(Clone)]
pub struct Chooser(pub Rc<RefCell<Trail>>);
impl Chooser {
    pub fn choose(&self, n: u64, kind: Kind) -> u64 {
        let mut t = self.0.borrow_mut();
        let k = t.taken.len();
        let c = if k < t.prefix.len() { t.prefix[k] } else { 0 };
        assert!(c < n, "choice replay diverged");
        if k >= t.limit {
            t.overflow = true;
        }
        t.taken.push((c, n, kind));
        c
    }
}
pub struct Stats {
    pub executions: u64,
    pub choice_points: u64,
    pub raw: bool,
    pub capped: bool,
}
thread_local! {
    static RAW_FLOOR: Cell<f64> = const { Cell::new(f64::INFINITY) };
}
/// Code that draws floats or raw bits is explored with representative values only: outcomes at least this likely
/// must nevertheless have been among those seen by the last `dfs` on this thread.
pub fn raw_floor() -> f64 {
    RAW_FLOOR.with(|f| f.get())
}
const RAW_EXECUTIONS: u64 = 200_000;
/// Calls `body` once for every sequence of answers to its choices (choices made inside `rand` included).
/// `body` gets the chooser (for its own choices); after each run it may inspect the trail.
pub fn dfs<E>(max_exec: u64, body: impl FnMut(&Chooser) -> Result<(), E>) -> Result<Stats, (Vec<u64>, E)> {
    dfs_after(0, 0, max_exec, body)
}
/// As `dfs`, but the first `skip` choices made inside `rand` are answered in a fixed way
/// (0: the first, 1: the last, 2: the middle, 3: varying).
pub fn dfs_after<E>(skip: usize, how: u64, max_exec: u64, mut body: impl FnMut(&Chooser) -> Result<(), E>) -> Result<Stats, (Vec<u64>, E)> {
    let mut st = Stats { executions: 0, choice_points: 0, raw: false, capped: false };
    let mut prefix: Vec<u64> = vec![];
    rand::mc::set_raw_words(4);
    RAW_FLOOR.with(|f| f.set(f64::INFINITY));
    loop {
        let ch = Chooser(Rc::new(RefCell::new(Trail { prefix: prefix.clone(), taken: vec![], limit: 100_000, overflow: false })));
        let c2 = ch.clone();
        let mut drawn = 0;
        rand::mc::install(Box::new(move |n, k| {
            drawn += 1;
            if drawn > skip {
                return c2.choose(n, k);
            }
            match how {
                0 => 0,
                1 => n - 1,
                2 => n / 2,
                _ => (drawn as u64 * 7 + 3) % n,
            }
        }));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(&ch)));
        st.raw |= rand::mc::raw_draws() > 0;
        rand::mc::uninstall();
        st.executions += 1;
        let taken = ch.0.borrow().taken.clone();
        let raws = taken.iter().filter(|t| t.2 == Kind::Raw).count() as i32;
        if st.executions == 1 && raws > 0 {
            // as many representative values as can be explored; the numbers have many divisors
            let words = [840u64, 60, 12, 4].into_iter().find(|w| (*w as f64).powi(raws) <= RAW_EXECUTIONS as f64).unwrap_or(4);
            rand::mc::set_raw_words(words);
            if words > 12 {
                RAW_FLOOR.with(|f| f.set(2. * (1..=raws).map(|x| x as f64).product::<f64>() / words as f64));
            }
        }
        match r {
            Err(p) => std::panic::resume_unwind(p),
            Ok(Err(e)) => return Err((taken.iter().map(|t| t.0).collect(), e)),
            Ok(Ok(())) => {}
        }
        assert!(taken.len() >= prefix.len(), "choice replay diverged (fewer choices than the prefix)");
        st.choice_points += (taken.len() - prefix.len()) as u64 + if prefix.is_empty() { 0 } else { 1 };
        // next
        let mut i = taken.len();
        loop {
            if i == 0 {
                return Ok(st);
            }
            i -= 1;
            if taken[i].0 + 1 < taken[i].1 {
                prefix = taken[..i].iter().map(|t| t.0).collect();
                prefix.push(taken[i].0 + 1);
                break;
            }
        }
        if st.raw && st.executions >= RAW_EXECUTIONS {
            RAW_FLOOR.with(|f| f.set(f64::INFINITY));
            return Ok(st);
        }
        if st.executions >= max_exec {
            st.capped = true;
            return Ok(st);
        }
    }
}
