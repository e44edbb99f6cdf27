//! Process driver: runs the real tools in scratch directories, under a controlled scheduler (gated
//! opening of input files) and with injected crashes and write faults (see ../shim.c).
use crate::engine::infra;
use crate::p_io::scratch_dir;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::*;
use std::time::{Duration, Instant};

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}
pub fn tool(name: &str) -> PathBuf {
    verif().join("build/tools/release").join(name)
}
/// the same tool with the controlled random number generator
pub fn ctool(name: &str) -> PathBuf {
    verif().join("build/ctools/release").join(name)
}
/// a scratch directory that disappears again
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = scratch_dir().join(format!("d{}", N.fetch_add(1, Ordering::SeqCst)));
        if let Err(e) = std::fs::create_dir_all(&d) {
            infra(format!("cannot create scratch directory: {}", e));
        }
        Dir(d)
    }
    pub fn path(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
    pub fn put(&self, n: &str, content: &[u8]) -> String {
        let p = self.0.join(n);
        if let Some(d) = p.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if let Err(e) = std::fs::write(&p, content) {
            infra(format!("cannot write {:?}: {}", p, e));
        }
        p.to_str().unwrap().to_string()
    }
    pub fn get(&self, n: &str) -> Option<Vec<u8>> {
        std::fs::read(self.0.join(n)).ok()
    }
    pub fn del(&self, n: &str) {
        let _ = std::fs::remove_file(self.0.join(n));
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
#[derive(Debug, Clone)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
}
impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn show(&self) -> String {
        let tail = |s: &str| s.chars().rev().take(700).collect::<Vec<_>>().into_iter().rev().collect::<String>();
        format!("exit {:?} signal {:?}\nstdout: {}\nstderr: {}", self.code, self.signal, tail(&self.out), tail(&self.err))
    }
}
fn base(bin: &Path, args: &[String], dir: &Path, env: &[(String, String)]) -> Command {
    let mut c = Command::new(bin);
    c.args(args).current_dir(dir).env_clear().env("PATH", "/usr/bin:/bin").env("LANG", "C.UTF-8").env("HOME", dir);
    for (k, v) in env {
        c.env(k, v);
    }
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}
fn spawn(c: &mut Command) -> Child {
    for k in 0..40 {
        match c.spawn() {
            Ok(x) => return x,
            Err(e) if matches!(e.raw_os_error(), Some(libc::EAGAIN) | Some(libc::ENOMEM) | Some(libc::ETXTBSY)) => std::thread::sleep(Duration::from_millis(25 * (k + 1))),
            Err(e) => infra(format!("cannot start {:?}: {}", c.get_program(), e)),
        }
    }
    infra("cannot start processes")
}
/// run to completion
pub fn run(bin: &Path, args: &[String], stdin: Option<&[u8]>, dir: &Path, env: &[(String, String)]) -> Run {
    use std::io::Write;
    let mut c = base(bin, args, dir, env);
    c.stdout(Stdio::piped()).stderr(Stdio::piped());
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut ch = spawn(&mut c);
    let mut pipe = ch.stdin.take();
    let o = std::thread::scope(|s| {
        if let (Some(mut p), Some(data)) = (pipe.take(), stdin) {
            if data.len() <= 60_000 {
                let _ = p.write_all(data);
            } else {
                s.spawn(move || {
                    let _ = p.write_all(data);
                });
            }
        }
        ch.wait_with_output()
    });
    match o {
        Ok(o) => Run { code: o.status.code(), signal: o.status.signal(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() },
        Err(e) => infra(format!("waiting for a child: {}", e)),
    }
}

// ---------------------------------------------------------------- controlled runs
const SLOTS: usize = 1024;
const WLOG: usize = 4096;
const HEAD: usize = 16 + 4 * WLOG;
const SLOT: usize = 256;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    None = 0,
    KillBefore,
    KillMid,
    KillAfter,
    Enospc,
    Eio,
    MidEnospc,
    Eintr,
    Short,
    OpenKillBefore,
    OpenKillAfter,
    OpenFail,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Fault {
    pub mode: Mode,
    pub at: u32,
    pub part: u32,
    pub persist: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Control {
    /// input files with this path prefix are gated
    pub gate: Option<String>,
    /// gate only the first opening of each file
    pub once: bool,
    /// writes to standard error are gated
    pub err: bool,
    /// watched output ("-": standard output; otherwise path prefix)
    pub out: Option<String>,
    pub fault: Option<Fault>,
}
pub struct Live {
    child: Child,
    dir: PathBuf,
    map: *mut u8,
    done: Option<std::process::ExitStatus>,
    n: u64,
}
static LIVE: AtomicU64 = AtomicU64::new(0);
impl Live {
    pub fn start(bin: &Path, args: &[String], dir: &Path, ctl: &Control) -> Live {
        use std::os::unix::io::AsRawFd;
        let n = LIVE.fetch_add(1, Ordering::SeqCst);
        let p = scratch_dir().join(format!("ctl{}", n));
        let len = HEAD + SLOTS * SLOT;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p).unwrap_or_else(|e| infra(e));
        f.set_len(len as u64).unwrap_or_else(|e| infra(e));
        let map = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        if map == libc::MAP_FAILED {
            infra("mmap")
        }
        let mut env: Vec<(String, String)> = vec![("LD_PRELOAD".into(), verif().join("build/shim.so").to_str().unwrap().into()), ("MCSHIM_CTL".into(), p.to_str().unwrap().into())];
        let mut e = |k: &str, v: String| env.push((k.into(), v));
        if let Some(g) = &ctl.gate {
            e("MCSHIM_GATE", g.clone());
            if ctl.once {
                e("MCSHIM_ONCE", "1".into());
            }
        }
        if ctl.err {
            e("MCSHIM_GATE_ERR", "1".into());
        }
        if let Some(o) = &ctl.out {
            e("MCSHIM_OUT", o.clone());
        }
        if let Some(x) = &ctl.fault {
            e("MCSHIM_MODE", (x.mode as i32).to_string());
            e("MCSHIM_AT", x.at.to_string());
            e("MCSHIM_PART", x.part.to_string());
            e("MCSHIM_PERSIST", (x.persist as i32).to_string());
        }
        let open = |s: &str| std::fs::File::create(scratch_dir().join(format!("{}{}", s, n))).unwrap_or_else(|e| infra(e));
        let mut c = base(bin, args, dir, &env);
        c.stdin(Stdio::null()).stdout(open("out")).stderr(open("err"));
        let child = spawn(&mut c);
        let _ = std::fs::create_dir_all(dir);
        Live { child, dir: scratch_dir(), map: map as *mut u8, done: None, n }
    }
    fn word(&self, off: usize) -> &AtomicU32 {
        unsafe { &*(self.map.add(off) as *const AtomicU32) }
    }
    pub fn writes(&self) -> Vec<u32> {
        let k = self.word(4).load(Ordering::SeqCst) as usize;
        (0..k.min(WLOG)).map(|i| self.word(16 + 4 * i).load(Ordering::SeqCst)).collect()
    }
    pub fn opens(&self) -> u32 {
        self.word(8).load(Ordering::SeqCst)
    }
    /// the chosen fault has happened
    pub fn hit(&self) -> bool {
        self.word(12).load(Ordering::SeqCst) != 0
    }
    fn slot_path(&self, i: usize) -> String {
        let s = unsafe { std::slice::from_raw_parts(self.map.add(HEAD + i * SLOT + 8), SLOT - 8) };
        let e = s.iter().position(|&b| b == 0).unwrap_or(s.len());
        String::from_utf8_lossy(&s[..e]).into()
    }
    /// gated openings so far, in order
    pub fn gated(&self) -> Vec<(String, bool)> {
        let k = (self.word(0).load(Ordering::SeqCst) as usize).min(SLOTS);
        (0..k).filter(|&i| self.word(HEAD + i * SLOT).load(Ordering::SeqCst) != 0).map(|i| (self.slot_path(i), self.word(HEAD + i * SLOT).load(Ordering::SeqCst) == 1)).collect()
    }
    /// slots waiting at the gate, sorted by path
    pub fn waiting(&self) -> Vec<(String, usize)> {
        let k = (self.word(0).load(Ordering::SeqCst) as usize).min(SLOTS);
        let mut v: Vec<(String, usize)> = (0..k).filter(|&i| self.word(HEAD + i * SLOT).load(Ordering::SeqCst) == 1).map(|i| (self.slot_path(i), i)).collect();
        v.sort();
        v
    }
    pub fn release(&self, slot: usize) {
        let w = self.word(HEAD + slot * SLOT);
        w.store(2, Ordering::SeqCst);
        unsafe {
            libc::syscall(libc::SYS_futex, w as *const _ as *const u32, libc::FUTEX_WAKE, i32::MAX, 0, 0, 0);
        }
    }
    fn snapshot(&self) -> Option<Vec<(String, String)>> {
        let mut r = vec![];
        let d = std::fs::read_dir(format!("/proc/{}/task", self.child.id())).ok()?;
        for t in d {
            let t = t.ok()?.path();
            let stat = std::fs::read_to_string(t.join("stat")).ok()?;
            let state = stat.rsplit(')').next()?.split_whitespace().next()?.to_string();
            if state != "S" {
                return None;
            }
            let st = std::fs::read_to_string(t.join("status")).ok()?;
            let sw: String = st.lines().filter(|l| l.contains("ctxt_switches")).collect();
            r.push((t.to_string_lossy().into(), sw));
        }
        r.sort();
        if r.is_empty() {
            None
        } else {
            Some(r)
        }
    }
    pub fn exited(&mut self) -> bool {
        if self.done.is_none() {
            match self.child.try_wait() {
                Ok(s) => self.done = s,
                Err(e) => infra(format!("wait: {}", e)),
            }
        }
        self.done.is_some()
    }
    /// wait until the process has ended or all of its threads sleep; true if it has ended
    pub fn settle(&mut self) -> bool {
        let mut last: Option<Vec<(String, String)>> = None;
        let mut same = 0;
        loop {
            if self.exited() {
                return true;
            }
            let now = self.snapshot();
            if now.is_some() && now == last {
                same += 1;
                if same >= 2 {
                    return self.exited();
                }
            } else {
                same = 0;
            }
            last = now;
            std::thread::sleep(Duration::from_micros(if same > 0 { 150 } else { 80 }));
        }
    }
    pub fn kill(&mut self) {
        let _ = self.child.kill();
        if let Ok(s) = self.child.wait() {
            self.done = Some(s);
        }
    }
    pub fn result(&mut self) -> Run {
        let t0 = Instant::now();
        while !self.exited() {
            if t0.elapsed() > Duration::from_secs(120) {
                self.kill();
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        let rd = |s: &str| String::from_utf8_lossy(&std::fs::read(self.dir.join(format!("{}{}", s, self.n))).unwrap_or_default()).to_string();
        let s = self.done.unwrap();
        Run { code: s.code(), signal: s.signal(), out: rd("out"), err: rd("err") }
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        if self.done.is_none() {
            self.kill();
        }
        unsafe {
            libc::munmap(self.map as *mut _, HEAD + SLOTS * SLOT);
        }
        for s in ["ctl", "out", "err"] {
            let _ = std::fs::remove_file(self.dir.join(format!("{}{}", s, self.n)));
        }
    }
}
/// What happened in one execution under the controlled scheduler
pub struct Exec {
    /// (choice, number of waiting openings) at each point where everything slept
    pub choices: Vec<(usize, usize)>,
    pub order: Vec<String>,
    pub stuck: bool,
    /// the prefix asks for a choice that does not exist
    pub invalid: bool,
}
/// Let the process run, releasing gated openings as `prefix` says (then always the first).
/// `quiet` is called at every point where the process sleeps; if it returns false, the process is left there.
pub fn schedule(l: &mut Live, prefix: &[usize], mut quiet: impl FnMut(&mut Live, &[String]) -> bool) -> Exec {
    let mut e = Exec { choices: vec![], order: vec![], stuck: false, invalid: false };
    let mut idle = Instant::now();
    loop {
        if l.settle() {
            return e;
        }
        let w = l.waiting();
        if w.is_empty() {
            // asleep without being gated: starting up, or stuck
            if idle.elapsed() > Duration::from_secs(20) {
                e.stuck = true;
                return e;
            }
            std::thread::sleep(Duration::from_micros(300));
            continue;
        }
        let k = e.choices.len();
        if !quiet(l, &e.order) {
            return e;
        }
        let c = prefix.get(k).copied().unwrap_or(0);
        if c >= w.len() {
            e.invalid = true;
            return e;
        }
        e.choices.push((c, w.len()));
        e.order.push(w[c].0.clone());
        l.release(w[c].1);
        idle = Instant::now();
    }
}
/// the next prefix in depth-first order, if any
pub fn next_prefix(choices: &[(usize, usize)], keep: usize) -> Option<Vec<usize>> {
    let mut i = choices.len();
    while i > keep {
        i -= 1;
        if choices[i].0 + 1 < choices[i].1 {
            let mut p: Vec<usize> = choices[..i].iter().map(|x| x.0).collect();
            p.push(choices[i].0 + 1);
            return Some(p);
        }
    }
    None
}
