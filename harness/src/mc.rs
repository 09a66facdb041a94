//! The exploration engine: exhaustive enumeration of finite, indexed spaces of
//! executions, in parallel, with replay by index, a watchdog, a crash reporter
//! and an evidence writer.  Nothing in here samples: every index of every space
//! is executed.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one explored execution reports back.
#[derive(Default)]
pub struct Case {
    /// operations / steps executed on the real code in this execution
    pub steps: u64,
    /// hashes of distinct (abstract) states visited or outcomes observed
    pub obs: Vec<u64>,
    /// text of the executed history, for samples and replay files
    pub trace: Vec<String>,
    pub want_trace: bool,
    /// number of oracle comparisons made
    pub checks: u64,
}

impl Case {
    pub fn step(&mut self) {
        self.steps += 1;
    }
    pub fn log<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_trace {
            let s = f();
            if TRACE.load(Ordering::Relaxed) {
                eprintln!("{}", s);
            }
            self.trace.push(s);
        }
    }
    pub fn observe<H: std::hash::Hash>(&mut self, h: &H) {
        self.obs.push(hash_of(h));
    }
}

/// HX_TRACE=1 prints the history while it is executed
pub static TRACE: AtomicBool = AtomicBool::new(false);

pub fn hash_of<H: std::hash::Hash>(h: &H) -> u64 {
    use std::hash::Hasher;
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

pub fn bits(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| x.to_bits()).collect()
}

#[derive(Clone)]
pub struct Violation {
    pub space: String,
    pub idx: u64,
    pub msg: String,
    pub trace: Vec<String>,
}

pub struct SpaceStat {
    pub name: String,
    pub size: u64,
    pub run: u64,
    pub steps: u64,
    pub states: u64,
    pub checks: u64,
    pub wall: f64,
    pub exhaustive: bool,
}

pub struct Mc {
    pub prop: String,
    pub tier: Tier,
    pub seed: i64,
    pub only_space: Option<String>,
    pub only_case: Option<u64>,
    pub start: Instant,
    pub stats: Vec<SpaceStat>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub assumptions: Vec<String>,
    pub known: Vec<(String, String)>,
    pub known_hit: BTreeMap<String, String>,
    pub rule: String,
    pub level: &'static str,
    pub verif: String,
}

const NSLOT: usize = 256;
pub static SLOT_CASE: [AtomicU64; NSLOT] = [const { AtomicU64::new(u64::MAX) }; NSLOT];
pub static SLOT_T0: [AtomicU64; NSLOT] = [const { AtomicU64::new(0) }; NSLOT];
static CUR_SPACE: Mutex<String> = Mutex::new(String::new());
static mut CUR_SPACE_C: [u8; 64] = [0; 64];
static mut PROP_C: [u8; 16] = [0; 16];
static CRASHED: AtomicBool = AtomicBool::new(false);
static QUIET_PANIC: AtomicBool = AtomicBool::new(true);

fn now_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
/// An execution that explores many schedules says after each of them that it goes on.
pub fn alive() {
    let s = SLOT.with(|s| s.get());
    if s < NSLOT {
        SLOT_T0[s].store(now_ms(), Ordering::Relaxed);
    }
}
pub const CASE_LIMIT_MS: u64 = 150_000;

/// The code under test prints; the report goes to a descriptor of its own.
static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);

pub fn mute_stdout() {
    unsafe {
        let fd = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        if fd >= 0 && null >= 0 {
            libc::dup2(null, 1);
            libc::close(null);
            OUT.store(fd, Ordering::Relaxed);
        }
    }
}

pub fn say_str(s: String) {
    let b = s.as_bytes();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(OUT.load(Ordering::Relaxed), b[o..].as_ptr() as *const libc::c_void, b.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}

#[macro_export]
macro_rules! say {
    ($($a:tt)*) => { $crate::mc::say_str(format!($($a)*) + "\n") };
}

fn raw(s: &[u8]) {
    unsafe {
        libc::write(OUT.load(Ordering::Relaxed), s.as_ptr() as *const libc::c_void, s.len());
    }
}

fn raw_num(mut n: u64) {
    let mut b = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    raw(&b[i..]);
}

#[allow(static_mut_refs)]
fn report_fatal(kind: &[u8]) {
    unsafe {
        let p = PROP_C.iter().position(|c| *c == 0).unwrap_or(16);
        let s = CUR_SPACE_C.iter().position(|c| *c == 0).unwrap_or(64);
        raw(b"\nFATAL ");
        raw(kind);
        raw(b" in space ");
        raw(&CUR_SPACE_C[..s]);
        raw(b"; executions in flight:");
        for i in 0..NSLOT {
            let c = SLOT_CASE[i].load(Ordering::Relaxed);
            if c != u64::MAX {
                raw(b" #");
                raw_num(c);
            }
        }
        raw(b"\nVIOLATION property=");
        raw(&PROP_C[..p]);
        raw(b" replay=evidence/");
        raw(&PROP_C[..p]);
        raw(b".log\n");
    }
}

extern "C" fn on_signal(sig: libc::c_int) {
    if !CRASHED.swap(true, Ordering::SeqCst) {
        raw(b"signal ");
        raw_num(sig as u64);
        report_fatal(b"crash of the code under test (memory fault, abort or stack overflow)");
    }
    unsafe { libc::_exit(1) };
}

impl Mc {
    pub fn new(prop: &str, tier: Tier, seed: i64, verif: &str) -> Self {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif)) {
            for l in s.lines() {
                // finding: property=P03 key=<key> :: text
                if let Some(r) = l.strip_prefix("finding: property=") {
                    if let Some((p, rest)) = r.split_once(" key=") {
                        if p == prop {
                            if let Some((k, t)) = rest.split_once(" :: ") {
                                known.push((k.to_string(), t.to_string()));
                            }
                        }
                    }
                }
            }
        }
        #[allow(static_mut_refs)]
        unsafe {
            for (i, b) in prop.bytes().enumerate().take(15) {
                PROP_C[i] = b;
            }
            for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE] {
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_sigaction = on_signal as *const () as usize;
                sa.sa_flags = libc::SA_ONSTACK;
                libc::sigaction(sig, &sa, std::ptr::null_mut());
            }
        }
        std::panic::set_hook(Box::new(|info| {
            if !QUIET_PANIC.load(Ordering::Relaxed) {
                eprintln!("{}", info);
            } else {
                LAST_PANIC.with(|l| {
                    *l.borrow_mut() = format!(
                        "{} at {}",
                        payload_str(info.payload()),
                        info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()
                    )
                });
            }
        }));
        std::thread::spawn(|| loop {
            real_sleep_ms(500);
            let n = now_ms();
            for i in 0..NSLOT {
                let c = SLOT_CASE[i].load(Ordering::Relaxed);
                let t = SLOT_T0[i].load(Ordering::Relaxed);
                if c != u64::MAX && t != 0 && n > t + CASE_LIMIT_MS {
                    if !CRASHED.swap(true, Ordering::SeqCst) {
                        report_fatal(b"execution that does not terminate (150 s)");
                    }
                    unsafe { libc::_exit(1) };
                }
            }
        });
        TRACE.store(std::env::var("HX_TRACE").is_ok(), Ordering::Relaxed);
        Self {
            prop: prop.to_string(),
            tier,
            seed,
            only_space: None,
            only_case: None,
            start: Instant::now(),
            stats: vec![],
            samples: vec![],
            violations: vec![],
            assumptions: vec![],
            known,
            known_hit: BTreeMap::new(),
            rule: String::new(),
            level: "model_checking",
            verif: verif.to_string(),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// Executes every index in `0..size`.  `f` returns Err(description) when the
    /// property is violated by that execution; a panic out of `f` is a violation too.
    pub fn space<F>(&mut self, name: &str, size: u64, f: F)
    where
        F: Fn(u64, &mut Case) -> Result<(), String> + Sync,
    {
        if let Some(s) = &self.only_space {
            if s != name {
                return;
            }
        }
        #[allow(static_mut_refs)]
        unsafe {
            CUR_SPACE_C = [0; 64];
            for (i, b) in name.bytes().enumerate().take(63) {
                CUR_SPACE_C[i] = b;
            }
        }
        *CUR_SPACE.lock().unwrap() = name.to_string();
        let t0 = Instant::now();
        let (lo, hi) = match self.only_case {
            Some(c) => (c, c + 1),
            None => (0, size),
        };
        let next = AtomicU64::new(lo);
        let steps = AtomicU64::new(0);
        let ran = AtomicU64::new(0);
        let checks = AtomicU64::new(0);
        let nviol = AtomicUsize::new(0);
        let viols: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        let states: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let samples: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let nthreads = std::env::var("HX_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
        let chunk = ((hi - lo) / (nthreads as u64 * 16)).clamp(1, 256);
        let single = self.only_case.is_some();
        std::thread::scope(|sc| {
            for slot in 0..nthreads {
                let (next, steps, ran, checks, nviol, viols, states, samples, f) =
                    (&next, &steps, &ran, &checks, &nviol, &viols, &states, &samples, &f);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut local: HashSet<u64> = HashSet::new();
                        loop {
                            let b = next.fetch_add(chunk, Ordering::Relaxed);
                            if b >= hi || nviol.load(Ordering::Relaxed) >= 8 {
                                break;
                            }
                            for idx in b..(b + chunk).min(hi) {
                                SLOT_T0[slot].store(now_ms(), Ordering::Relaxed);
                                SLOT.with(|s| s.set(slot));
                                SLOT_CASE[slot].store(idx, Ordering::Relaxed);
                                let want = single || idx == lo || idx == (lo + hi) / 2 || idx + 1 == hi;
                                let mut c = Case { want_trace: want, ..Default::default() };
                                let r = run_one(f, idx, &mut c);
                                steps.fetch_add(c.steps, Ordering::Relaxed);
                                checks.fetch_add(c.checks, Ordering::Relaxed);
                                ran.fetch_add(1, Ordering::Relaxed);
                                for o in c.obs.iter() {
                                    local.insert(*o);
                                }
                                if want {
                                    samples
                                        .lock()
                                        .unwrap()
                                        .push((idx, format!("#{}: {}", idx, c.trace.join("; "))));
                                }
                                if let Err(msg) = r {
                                    // run it once more with tracing: must fail identically
                                    let mut c2 = Case { want_trace: true, ..Default::default() };
                                    let r2 = run_one(f, idx, &mut c2);
                                    let msg = match r2 {
                                        Err(m2) if m2 == msg => msg,
                                        Err(m2) => format!("{} [second run: {}]", msg, m2),
                                        Ok(()) => format!("{} [NOT reproduced by the second run]", msg),
                                    };
                                    nviol.fetch_add(1, Ordering::Relaxed);
                                    viols.lock().unwrap().push(Violation {
                                        space: String::new(),
                                        idx,
                                        msg,
                                        trace: c2.trace,
                                    });
                                }
                                SLOT_CASE[slot].store(u64::MAX, Ordering::Relaxed);
                            }
                        }
                        states.lock().unwrap().extend(local);
                    })
                    .unwrap();
            }
        });
        let mut v = viols.into_inner().unwrap();
        v.sort_by_key(|v| v.idx);
        for mut x in v {
            x.space = name.to_string();
            let key = format!("{}#{}", name, x.idx);
            if let Some((k, t)) = self.known.iter().find(|(k, _)| *k == key) {
                self.known_hit.insert(k.clone(), t.clone());
            } else {
                self.violations.push(x);
            }
        }
        let mut s = samples.into_inner().unwrap();
        s.sort_by_key(|s| s.0);
        for (_, t) in s.into_iter().take(3) {
            let mut t = format!("{} {}", name, t);
            if t.len() > 600 {
                let mut e = 600;
                while !t.is_char_boundary(e) {
                    e -= 1;
                }
                t.truncate(e);
                t.push('…');
            }
            self.samples.push(t);
        }
        let run = ran.load(Ordering::Relaxed);
        let st = SpaceStat {
            name: name.to_string(),
            size,
            run,
            steps: steps.load(Ordering::Relaxed),
            states: states.into_inner().unwrap().len() as u64,
            checks: checks.load(Ordering::Relaxed),
            wall: t0.elapsed().as_secs_f64(),
            exhaustive: run == size,
        };
        say!(
            "[{}] space {:<28} executions {:>9}/{:<9} steps {:>10} distinct observations {:>8} comparisons {:>10} {:.1}s",
            self.prop, st.name, st.run, st.size, st.steps, st.states, st.checks, st.wall
        );
        self.stats.push(st);
    }

    pub fn finish(mut self) -> i32 {
        for (k, t) in self.known_hit.iter() {
            say!("KNOWN-FINDING: property={} {} ({})", self.prop, t, k);
        }
        let ev = format!("{}/evidence", self.verif);
        let _ = std::fs::create_dir_all(&ev);
        let replay = format!("evidence/{}-replay.txt", self.prop);
        let _ = std::fs::remove_file(format!("{}/{}", self.verif, replay));
        if !self.violations.is_empty() {
            let mut o = String::new();
            for v in self.violations.iter().take(40) {
                o.push_str(&format!(
                    "property {}\nspace {} execution #{}\nreplay with: bash /verif/run.sh {} {} --space {} --case {}\nfailure: {}\nhistory:\n",
                    self.prop, v.space, v.idx, self.prop,
                    if self.thorough() { "thorough" } else { "quick" }, v.space, v.idx, v.msg
                ));
                for l in v.trace.iter() {
                    o.push_str(&format!("  {}\n", l));
                }
                o.push('\n');
            }
            let _ = std::fs::write(format!("{}/{}", self.verif, replay), &o);
            let v = &self.violations[0];
            say!("first violation: space {} #{}: {}", v.space, v.idx, v.msg);
            say!("VIOLATION property={} replay={}", self.prop, replay);
        }
        if self.only_case.is_none() && self.only_space.is_none() {
            let states: u64 = self.stats.iter().map(|s| s.states).sum();
            let trans: u64 = self.stats.iter().map(|s| s.steps).sum();
            let runs: u64 = self.stats.iter().map(|s| s.run).sum();
            let checks: u64 = self.stats.iter().map(|s| s.checks).sum();
            let spaces: Vec<serde_json::Value> = self
                .stats
                .iter()
                .map(|s| {
                    serde_json::json!({"space": s.name, "size": s.size, "executed": s.run, "steps": s.steps,
                    "distinct_observations": s.states, "oracle_comparisons": s.checks, "wall_s": s.wall, "exhaustive": s.exhaustive})
                })
                .collect();
            self.samples.truncate(40);
            let mut cov = serde_json::json!({
                "oracle_comparisons": checks,
                "exhaustive": self.stats.iter().all(|s| s.exhaustive),
                "rule": self.rule,
                "spaces": spaces,
                "samples": self.samples,
            });
            if self.level == "fault_enumeration" {
                cov["evaluations"] = trans.max(runs).into();
                cov["distinct_nontrivial"] = states.into();
                cov["executions"] = runs.into();
            } else {
                cov["states"] = states.into();
                cov["transitions"] = trans.into();
                cov["traces_validated_against_impl"] = runs.into();
            }
            let j = serde_json::json!({
                "property": self.prop,
                "tier": if self.thorough() { "thorough" } else { "quick" },
                "seed": self.seed,
                "level": self.level,
                "coverage": cov,
                "assumptions": self.assumptions,
                "wall_s": self.start.elapsed().as_secs_f64(),
                "violations": self.violations.len(),
            });
            std::fs::write(format!("{}/{}.json", ev, self.prop), serde_json::to_string_pretty(&j).unwrap())
                .expect("write evidence");
            say!(
                "[{}] {} executions, {} transitions, {} distinct states/observations, {} violations, {:.1}s",
                self.prop, runs, trans, states, self.violations.len(), self.start.elapsed().as_secs_f64()
            );
        }
        if self.violations.is_empty() {
            0
        } else {
            1
        }
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

fn run_one<F>(f: &F, idx: u64, c: &mut Case) -> Result<(), String>
where
    F: Fn(u64, &mut Case) -> Result<(), String> + Sync,
{
    match catch_unwind(AssertUnwindSafe(|| f(idx, c))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone()))),
    }
}

/// Runs `f`; a panic becomes Err.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone()))),
    }
}

/// Mixed-radix decoder over an execution index.
pub struct Dec(pub u64);
impl Dec {
    pub fn take(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }
    pub fn flag(&mut self) -> bool {
        self.take(2) == 1
    }
}

/// number of sequences over an alphabet of `a` with length 0..=d (or exactly d via pow)
pub fn pow(a: u64, d: u32) -> u64 {
    a.checked_pow(d).expect("space size overflow")
}

/// All sequences of length 0..=depth over alphabet a, by index, shortest first.
pub fn seqs_upto(a: u64, depth: u32) -> u64 {
    (0..=depth).map(|d| pow(a, d)).sum()
}
pub fn seq_at(a: u64, mut idx: u64) -> Vec<usize> {
    let mut d = 0;
    loop {
        let n = pow(a, d);
        if idx < n {
            break;
        }
        idx -= n;
        d += 1;
    }
    let mut v = vec![0; d as usize];
    for i in (0..d as usize).rev() {
        v[i] = (idx % a) as usize;
        idx /= a;
    }
    v
}

/// All compositions (ordered partitions) of n frames are the 2^(n-1) cut subsets;
/// this decodes cut points from a bit mask over the given candidate cut positions.
pub fn blocks_from_cuts(n: usize, cand: &[usize], mask: u64) -> Vec<usize> {
    let mut out = vec![];
    let mut last = 0;
    for (i, c) in cand.iter().enumerate() {
        if mask & (1 << i) != 0 && *c > last && *c < n {
            out.push(*c - last);
            last = *c;
        }
    }
    out.push(n - last);
    out
}

// ---------------------------------------------------------------- time control

/// The background threads of an engine sleep for up to 250 ms between polls.
/// Shortening every sleep in this process changes only how often they poll.
fn short_sleep() {
    let ts = libc::timespec { tv_sec: 0, tv_nsec: 150_000 };
    unsafe {
        libc::syscall(libc::SYS_nanosleep, &ts as *const libc::timespec, std::ptr::null_mut::<libc::timespec>());
    }
}
pub fn real_sleep_ms(ms: u64) {
    let ts = libc::timespec { tv_sec: (ms / 1000) as i64, tv_nsec: ((ms % 1000) * 1_000_000) as i64 };
    unsafe {
        libc::syscall(libc::SYS_nanosleep, &ts as *const libc::timespec, std::ptr::null_mut::<libc::timespec>());
    }
}
#[no_mangle]
pub extern "C" fn nanosleep(_req: *const libc::timespec, _rem: *mut libc::timespec) -> libc::c_int {
    crate::alloc::note("sleep", 0);
    short_sleep();
    0
}
#[no_mangle]
pub extern "C" fn clock_nanosleep(
    _clk: libc::clockid_t,
    _flags: libc::c_int,
    _req: *const libc::timespec,
    _rem: *mut libc::timespec,
) -> libc::c_int {
    crate::alloc::note("sleep", 0);
    short_sleep();
    0
}
