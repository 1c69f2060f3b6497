//! Supervisor: runs every case of an explicitly enumerated space in forked workers, survives crashes
//! and endless loops of the code under test, and collects counters, digests and the failures by facet.
use crate::sys;
use std::fmt::{Arguments, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::*};
use std::time::Instant;

macro_rules! facets {
    ($($name:ident = $text:expr),* $(,)?) => {
        /// What kind of observation went wrong; check.py maps facets to properties.
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum Facet { $($name),* }
        pub const FACETS: &[(&str, Facet)] = &[$(($text, Facet::$name)),*];
    };
}
facets! {
    Shape = "shape", Count = "count", Link = "link", Drop = "drop", Leak = "leak", Memory = "memory",
    Panic = "panic", Refuse = "refuse", Crash = "crash", Hang = "hang",
    Handle = "handle", Alive = "alive", Weak = "weak", Borrow = "borrow", IterRc = "iterrc",
    IterMut = "itermut", Bfs = "bfs", Rebuild = "rebuild", Malformed = "malformed",
    Walk = "walk", Jump = "jump", Tuple = "tuple", Visit = "visit", Notation = "notation",
    Cmp = "cmp", Hash = "hash", Text = "text", Clone = "clone", Fault = "fault",
    Conv = "conv", ChildIter = "childiter", Race = "race",
}
const NF: usize = 40;
const TEXT: usize = 1200;
const NW: usize = 8;
const STATS: usize = 8;

#[repr(C)]
struct Slot { count: AtomicU64, case: AtomicU64, start: AtomicU64, len: AtomicU64, text: [u8; TEXT] }
#[repr(C)]
struct Region {
    cur: AtomicU64, // case being run
    start: AtomicU64, // first case this process ran
    end: AtomicU64, // end of the current chunk
    beat: AtomicU64,
    seen: AtomicU64, // bit set of facets failed in the current case
    digest: AtomicU64,
    stats: [AtomicU64; STATS],
    fail: [Slot; NF],
}
#[repr(C)]
struct Shared { next: AtomicU64, stop: AtomicU64, w: [Region; NW + 1] }

static MINE: AtomicPtr<Region> = AtomicPtr::new(core::ptr::null_mut());

struct FixedBuf<'a>(&'a mut [u8], usize);
impl<'a> Write for FixedBuf<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let b = s.as_bytes();
        let n = b.len().min(self.0.len() - self.1);
        self.0[self.1..self.1 + n].copy_from_slice(&b[..n]);
        self.1 += n;
        Ok(())
    }
}

static DRAINING: AtomicU64 = AtomicU64::new(0);
/// From now on what differs also differs from what was seen listing the same tree forwards.
pub fn draining(on: bool) { DRAINING.store(on as u64, Relaxed) }

/// Record that the running case shows a failure of this facet. Never allocates.
pub fn fail(f: Facet, msg: Arguments) {
    let p = MINE.load(Relaxed);
    if p.is_null() {
        return; // the parent exploring the model: no implementation involved
    }
    if f as u8 == Facet::Shape as u8 && DRAINING.load(Relaxed) != 0 {
        fail(Facet::Link, msg); // it was intact when listed forwards
    }
    let r = unsafe { &mut *p };
    let bit = 1u64 << (f as u8);
    let seen = r.seen.load(Relaxed);
    if seen & bit != 0 { return; }
    r.seen.store(seen | bit, Relaxed);
    let slot = &mut r.fail[f as usize];
    if slot.count.fetch_add(1, Relaxed) == 0 {
        slot.case.store(r.cur.load(Relaxed), Relaxed);
        slot.start.store(r.start.load(Relaxed), Relaxed);
        let mut b = FixedBuf(&mut slot.text, 0);
        let _ = b.write_fmt(msg);
        let n = b.1 as u64;
        slot.len.store(n, Relaxed);
    }
}
/// Did the running case fail already?
pub fn failed() -> bool {
    let p = MINE.load(Relaxed);
    !p.is_null() && unsafe { (*p).seen.load(Relaxed) } != 0
}
/// Still alive: for cases which are long by design.
pub fn beat() {
    let p = MINE.load(Relaxed);
    if !p.is_null() { unsafe { (*p).beat.fetch_add(1, Relaxed) }; }
}
/// Counters: 0 transitions on the implementation, 1 observations compared, 2.. engine specific.
pub fn stat(i: usize, n: u64) {
    let p = MINE.load(Relaxed);
    if !p.is_null() { unsafe { (*p).stats[i].fetch_add(n, Relaxed) }; }
}
/// Fold an observation of this case into the order-independent digest of the run.
pub fn digest(h: u64) {
    let p = MINE.load(Relaxed);
    if !p.is_null() {
        let r = unsafe { &*p };
        r.digest.fetch_add(crate::util::mix(h ^ r.cur.load(Relaxed).wrapping_mul(0x9e37_79b9_7f4a_7c15)), Relaxed);
    }
}

#[macro_export]
macro_rules! bad {
    ($f:ident, $($a:tt)*) => { $crate::sup::fail($crate::sup::Facet::$f, format_args!($($a)*)) };
}
#[macro_export]
macro_rules! want {
    ($f:ident, $c:expr, $($a:tt)*) => { if !$c { $crate::sup::fail($crate::sup::Facet::$f, format_args!($($a)*)) } };
}

#[derive(Clone, Debug)]
pub struct Failure { pub facet: &'static str, pub phase: String, pub case: u64, pub count: u64, pub text: String, pub history: String }

pub struct Run {
    pub tier: String,
    pub max_wall: f64,
    pub only: Option<(String, u64, u64)>, // replay: phase, first, last
    pub params: Vec<(String, i64)>,
    pub asan: bool,
    pub patient: bool, // a case which takes too long is given up, not a failure
    pub wanted: Vec<String>, // the facets which count; the first phase with one of them is the last
    out: Option<String>,
    t0: Instant,
    pub states: u64,
    pub cases: u64,
    pub stats: [u64; STATS],
    pub digests: Vec<(String, u64)>,
    pub failures: Vec<Failure>,
    pub samples: Vec<String>,
    pub bounds: Vec<String>,
    pub capped: Vec<String>,
    pub engine_errors: Vec<String>,
    pub times: Vec<(String, f64)>,
}

impl Run {
    pub fn from_args() -> Run {
        let mut r = Run {
            tier: "quick".into(), max_wall: 700.0, only: None, params: vec![], asan: cfg!(feature = "asan") || std::env::var("MC_ASAN").is_ok(), patient: false, wanted: vec![], out: None, t0: Instant::now(),
            states: 0, cases: 0, stats: [0; STATS], digests: vec![], failures: vec![], samples: vec![], bounds: vec![],
            capped: vec![], engine_errors: vec![], times: vec![],
        };
        let a: Vec<String> = std::env::args().skip(1).collect();
        let mut i = 0;
        while i < a.len() {
            match a[i].as_str() {
                "--tier" => { r.tier = a[i + 1].clone(); i += 2; }
                "--out" => { r.out = Some(a[i + 1].clone()); i += 2; }
                "--max-wall" => { r.max_wall = a[i + 1].parse().unwrap(); i += 2; }
                "--wanted" => { r.wanted = a[i + 1].split(',').map(String::from).collect(); i += 2; }
                "--replay" => {
                    r.only = Some((a[i + 1].clone(), a[i + 2].parse().unwrap(), a[i + 3].parse().unwrap()));
                    i += 4;
                }
                "-p" => {
                    let (k, v) = a[i + 1].split_once('=').unwrap();
                    r.params.push((k.into(), v.parse().unwrap()));
                    i += 2;
                }
                x => panic!("unknown argument {x}"),
            }
        }
        r
    }
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    /// A bound: its quick or thorough default unless given by -p.
    pub fn p(&self, k: &str, quick: i64, thorough: i64) -> i64 {
        for (n, v) in &self.params { if n == k { return *v; } }
        if self.thorough() { thorough } else { quick }
    }

    /// Run `f(i)` for every i < n in forked workers.
    pub fn explore(&mut self, phase: &str, bound: &str, n: u64, f: &dyn Fn(u64), describe: &dyn Fn(u64) -> String) {
        if let Some((p, a, b)) = self.only.clone() {
            if p != phase { return; }
            self.replay(phase, a, b, f, describe);
            return;
        }
        if !self.failures.is_empty() && !self.wanted.is_empty() {
            self.bounds.push(format!("{phase}: not explored after a violation"));
            return;
        }
        self.bounds.push(format!("{phase}: {bound} [{n} cases]"));
        if n == 0 {
            self.engine_errors.push(format!("phase {phase} is empty"));
            return;
        }
        for i in [n / 3, n - 1] {
            if self.samples.len() < 8 { self.samples.push(format!("[{phase}#{i}] {}", describe(i))); }
        }
        let started = Instant::now();
        let sh = unsafe { &mut *(sys::shared(std::mem::size_of::<Shared>()) as *mut Shared) };
        let chunk = (n / (NW as u64 * 32)).clamp(1, 512);
        let mut pids = [0i32; NW];
        let asan = self.asan;
        for w in 0..NW { pids[w] = spawn(sh, w, n, chunk, f, asan); }
        let mut last = [(u64::MAX, u64::MAX); NW];
        let mut since = [Instant::now(); NW];
        let mut deaths = 0u64;
        let mut suspects: Vec<(Facet, u64, u64, String)> = vec![];
        let mut live = NW;
        let mut capped = false;
        while live > 0 {
            unsafe { sys::usleep(1500) };
            if !capped && self.t0.elapsed().as_secs_f64() > self.max_wall {
                sh.stop.store(1, SeqCst);
                capped = true;
            }
            for w in 0..NW {
                if pids[w] == 0 { continue; }
                let mut st = 0;
                let r = unsafe { sys::waitpid(pids[w], &mut st, sys::WNOHANG) };
                let reg = &sh.w[w];
                if r == pids[w] {
                    let (exited, code) = sys::decode(st);
                    if exited && code == 0 {
                        pids[w] = 0;
                        live -= 1;
                        continue;
                    }
                    let why = if exited { format!("exit code {code}") } else { format!("signal {code}") };
                    if !exited && code == sys::SIGKILL {
                        self.engine_errors.push(format!("phase {phase}: a worker was killed from outside at case {}", reg.cur.load(SeqCst)));
                    } else {
                        suspects.push((Facet::Crash, reg.cur.load(SeqCst), reg.start.load(SeqCst), why));
                    }
                } else {
                    let now = (reg.cur.load(Relaxed), reg.beat.load(Relaxed));
                    if now != last[w] {
                        last[w] = now;
                        since[w] = Instant::now();
                        continue;
                    }
                    if since[w].elapsed().as_secs_f64() < 12.0 { continue; }
                    unsafe {
                        sys::kill(pids[w], sys::SIGKILL);
                        sys::waitpid(pids[w], &mut st, 0);
                    }
                    if self.patient { self.capped.push(format!("{phase}: given up after 12 s: {}", describe(reg.cur.load(SeqCst)))); }
                    else { suspects.push((Facet::Hang, reg.cur.load(SeqCst), reg.start.load(SeqCst), "no progress for 12 s".into())); }
                }
                // go on after the case which brought the worker down
                deaths += 1;
                if deaths >= 12 { sh.stop.store(1, SeqCst); }
                since[w] = Instant::now();
                last[w] = (u64::MAX, u64::MAX);
                pids[w] = spawn(sh, w, n, chunk, f, asan);
            }
        }
        if capped { self.capped.push(format!("{phase}: stopped by the wall limit at case ~{} of {n}", sh.next.load(SeqCst))); }
        // Collect.
        let mut dg = 0u64;
        for w in 0..NW {
            dg = dg.wrapping_add(sh.w[w].digest.load(SeqCst));
            for i in 0..STATS { self.stats[i] += sh.w[w].stats[i].load(SeqCst); }
        }
        self.digests.push((phase.to_string(), dg));
        self.cases += if capped || deaths >= 12 { sh.next.load(SeqCst).min(n) } else { n };
        for &(name, facet) in FACETS {
            if !self.wanted.is_empty() && !self.wanted.iter().any(|w| w == name) { continue; }
            let mut best: Option<(u64, u64, String)> = None;
            let mut count = 0;
            for w in 0..NW {
                let s = &sh.w[w].fail[facet as usize];
                let c = s.count.load(SeqCst);
                if c == 0 { continue; }
                count += c;
                let case = s.case.load(SeqCst);
                if best.as_ref().map_or(true, |b| case < b.0) {
                    let text = String::from_utf8_lossy(&s.text[..s.len.load(SeqCst) as usize]).into_owned();
                    best = Some((case, s.start.load(SeqCst), text));
                }
            }
            let mut sus: Vec<_> = suspects.iter().filter(|s| s.0 == facet).collect();
            sus.sort_by_key(|s| s.1);
            count += sus.len() as u64;
            if let Some(s) = sus.first() {
                if best.as_ref().map_or(true, |b| s.1 < b.0) { best = Some((s.1, s.2, s.3.clone())); }
            }
            if let Some((case, start, text)) = best {
                // The same case must fail again in a fresh process.
                if let Some(t2) = confirm(sh, case, case, facet, f, asan) {
                    self.push(name, phase, case, count, if t2.is_empty() { text } else { t2 }, describe(case));
                } else if let Some(t2) = confirm(sh, start, case, facet, f, asan) {
                    let t = format!("{} (after the cases from #{start} in the same process)", if t2.is_empty() { text } else { t2 });
                    self.push(name, phase, case, count, t, describe(case));
                } else if let Some(t2) = confirm(sh, case.saturating_sub(20000), case, facet, f, asan) {
                    let t = format!("{} (after up to 20000 earlier cases in the same process)", if t2.is_empty() { text } else { t2 });
                    self.push(name, phase, case, count, t, describe(case));
                } else {
                    self.engine_errors.push(format!("phase {phase} case {case}: {name}: {text}: does not fail again: {}", describe(case)));
                }
            }
        }
        self.times.push((phase.to_string(), started.elapsed().as_secs_f64()));
        unsafe { munmap_shared(sh) };
    }
    fn push(&mut self, facet: &'static str, phase: &str, case: u64, count: u64, text: String, history: String) {
        self.failures.push(Failure { facet, phase: phase.into(), case, count, text, history });
    }
    fn replay(&mut self, phase: &str, a: u64, b: u64, f: &dyn Fn(u64), describe: &dyn Fn(u64) -> String) {
        let sh = unsafe { &mut *(sys::shared(std::mem::size_of::<Shared>()) as *mut Shared) };
        println!("replaying {phase} #{a}..={b}: {}", describe(b));
        let mut any = false;
        for &(name, facet) in FACETS {
            if let Some(t) = confirm(sh, a, b, facet, f, self.asan) {
                any = true;
                println!("  fails: {name}: {t}");
                self.push(name, phase, b, 1, t, describe(b));
            }
        }
        if !any { println!("  holds"); }
    }
    /// A failure found outside of `explore`.
    pub fn failure(&mut self, facet: Facet, phase: &str, text: String) {
        let name = FACETS.iter().find(|x| x.1 == facet).unwrap().0;
        self.push(name, phase, 0, 1, text.clone(), text);
    }
    pub fn finish(self) -> ! {
        let mut s = String::from("{");
        let _ = write!(s, "\"tier\":{:?},\"states\":{},\"cases\":{},\"wall\":{:.3}", self.tier, self.states, self.cases, self.t0.elapsed().as_secs_f64());
        let _ = write!(s, ",\"stats\":{:?}", self.stats);
        let lst = |v: &Vec<String>| format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        let _ = write!(s, ",\"samples\":{},\"bounds\":{},\"capped\":{},\"errors\":{}", lst(&self.samples), lst(&self.bounds), lst(&self.capped), lst(&self.engine_errors));
        let _ = write!(s, ",\"digests\":[{}]", self.digests.iter().map(|(p, d)| format!("[{},\"{:016x}\"]", js(p), d)).collect::<Vec<_>>().join(","));
        let _ = write!(s, ",\"times\":[{}]", self.times.iter().map(|(p, d)| format!("[{},{:.2}]", js(p), d)).collect::<Vec<_>>().join(","));
        let _ = write!(s, ",\"failures\":[{}]}}", self.failures.iter().map(|f| format!(
            "{{\"facet\":{},\"phase\":{},\"case\":{},\"count\":{},\"text\":{},\"history\":{}}}",
            js(f.facet), js(&f.phase), f.case, f.count, js(&f.text), js(&f.history))).collect::<Vec<_>>().join(","));
        match &self.out {
            Some(p) => std::fs::write(p, &s).unwrap(),
            None => println!("{s}"),
        }
        std::process::exit(0)
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
extern "C" { fn munmap(p: *mut u8, len: usize) -> i32; }
unsafe fn munmap_shared(s: &mut Shared) { munmap(s as *mut Shared as *mut u8, std::mem::size_of::<Shared>()); }

fn child_setup(asan: bool, cpu: u64) {
    unsafe {
        sys::prctl(sys::PR_SET_PDEATHSIG, sys::SIGKILL as u64, 0, 0, 0);
        sys::set_limit(sys::RLIMIT_CORE, 0, 0);
        if !asan { sys::set_limit(sys::RLIMIT_AS, 6 << 30, 6 << 30); }
        if cpu > 0 { sys::set_limit(sys::RLIMIT_CPU, cpu, cpu + 5); }
        if std::env::var_os("MC_VERBOSE").is_none() {
            std::panic::set_hook(Box::new(|_| {}));
            // Aborts of the code under test would flood stderr.
            extern "C" { fn open(p: *const std::ffi::c_char, flags: i32, ...) -> i32; fn dup2(a: i32, b: i32) -> i32; }
            let fd = open(c"/dev/null".as_ptr(), 1);
            if fd >= 0 && !asan { dup2(fd, 2); }
        }
    }
}
fn one(reg: *mut Region, i: u64, f: &dyn Fn(u64)) {
    let r = unsafe { &*reg };
    r.cur.store(i, Relaxed);
    r.seen.store(0, Relaxed);
    draining(false);
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(i))) {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
        fail(Facet::Panic, format_args!("unexpected panic: {m}"));
        drop(e);
    }
}
fn spawn(sh: &mut Shared, w: usize, n: u64, chunk: u64, f: &dyn Fn(u64), asan: bool) -> i32 {
    let sh: *mut Shared = sh;
    let pid = unsafe { sys::fork() };
    assert!(pid >= 0, "fork failed");
    if pid > 0 { return pid; }
    child_setup(asan, 0);
    let sh = unsafe { &mut *sh };
    let reg: *mut Region = &mut sh.w[w];
    MINE.store(reg, SeqCst);
    let _ = panics(|| panic!("warm up the panic machinery"));
    let r = unsafe { &*reg };
    // A replacement goes on behind the case which brought its predecessor down.
    let (mut a, mut b) = (r.cur.load(SeqCst) + 1, r.end.load(SeqCst));
    if b == 0 { a = 0; }
    loop {
        if sh.stop.load(Relaxed) != 0 { break; }
        if a >= b {
            a = sh.next.fetch_add(chunk, SeqCst);
            if a >= n { break; }
            b = (a + chunk).min(n);
            r.end.store(b, SeqCst);
        }
        r.start.store(a, SeqCst);
        while a < b {
            one(reg, a, f);
            a += 1;
        }
    }
    r.end.store(0, SeqCst);
    unsafe { sys::_exit(0) }
}
fn confirm(sh: &mut Shared, a: u64, b: u64, facet: Facet, f: &dyn Fn(u64), asan: bool) -> Option<String> {
    let reg: *mut Region = &mut sh.w[NW];
    unsafe { core::ptr::write_bytes(reg as *mut u8, 0, std::mem::size_of::<Region>()) };
    let pid = unsafe { sys::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        child_setup(asan, 20);
        MINE.store(reg, SeqCst);
        let _ = panics(|| panic!("warm up the panic machinery"));
        for i in a..=b { one(reg, i, f); }
        unsafe { sys::_exit(0) }
    }
    let t = Instant::now();
    let mut st = 0;
    loop {
        let r = unsafe { sys::waitpid(pid, &mut st, sys::WNOHANG) };
        if r == pid { break; }
        if t.elapsed().as_secs() > 90 {
            unsafe {
                sys::kill(pid, sys::SIGKILL);
                sys::waitpid(pid, &mut st, 0);
            }
            break;
        }
        unsafe { sys::usleep(1000) };
    }
    let (exited, code) = sys::decode(st);
    let r = unsafe { &*reg };
    match facet {
        Facet::Hang if !exited && (code == sys::SIGXCPU || code == sys::SIGKILL) => Some("endless loop (20 s of CPU time)".into()),
        Facet::Crash if (exited && code != 0) || (!exited && code != sys::SIGKILL && code != sys::SIGXCPU) =>
            Some(if exited { format!("the process ended itself, code {code}{}", if asan { " (AddressSanitizer)" } else { "" }) } else { format!("the process died of signal {code}") }),
        _ => {
            let s = &r.fail[facet as usize];
            if s.count.load(SeqCst) > 0 && s.case.load(SeqCst) <= b {
                Some(String::from_utf8_lossy(&s.text[..s.len.load(SeqCst) as usize]).into_owned())
            } else { None }
        }
    }
}

/// Run `f` and tell whether it panicked.
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| drop(e))
}
