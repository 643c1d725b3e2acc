//! Exhaustive exploration of cases on the real code: journalling, crash and hang attribution,
//! parallel work distribution, shrinking, replay and evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a case reports back to the explorer.
#[derive(Default)]
pub struct Obs {
    /// Fingerprint of the state the case ended in (used to tell states and outcomes apart).
    pub fp: u64,
    /// Set when the case is trivial (e.g. the operation was not enabled).
    pub trivial: bool,
    /// Number of steps of the implementation this case executed.
    pub steps: u64,
    /// Anything the explorer needs to go on (e.g. the keys of the state reached).
    pub extra: Vec<i64>,
    /// A description of the case for the evidence.
    pub text: String,
}

pub type CaseFn = fn(&[i64], &mut Obs) -> Result<(), String>;

pub struct Scen {
    pub name: &'static str,
    pub f: CaseFn,
    /// Parameters from this index on are a list of operations, any of which can be left out.
    pub ops_from: Option<usize>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct PropDef {
    pub id: &'static str,
    pub level: &'static str,
    pub explore: fn(&Ctx),
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
}

const SLOT: usize = 1 << 18;
const NSLOTS: usize = 64;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn _exit(c: i32) -> !;
}

/// Crash-proof record of the case every thread is executing.
pub struct Journal {
    base: *mut u8,
}
unsafe impl Send for Journal {}
unsafe impl Sync for Journal {}

impl Journal {
    fn open(p: &Path) -> Journal {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap();
        f.set_len((SLOT * NSLOTS) as u64).unwrap();
        let base = unsafe { mmap(std::ptr::null_mut(), SLOT * NSLOTS, 3, 1, f.as_raw_fd(), 0) };
        assert!(base as isize != -1, "mmap");
        Journal { base }
    }
    fn slot(&self, i: usize) -> *mut u64 {
        unsafe { self.base.add(i * SLOT) as *mut u64 }
    }
    // layout: [state: 0 idle / 1 running][start ms][scenario][len][params...]
    fn begin(&self, i: usize, scen: usize, p: &[i64], now: u64) {
        let s = self.slot(i);
        let n = p.len().min(SLOT / 8 - 8);
        unsafe {
            s.write_volatile(0);
            s.add(1).write_volatile(now);
            s.add(2).write_volatile(scen as u64);
            s.add(3).write_volatile(n as u64);
            std::ptr::copy_nonoverlapping(p.as_ptr() as *const u64, s.add(4), n);
            std::sync::atomic::fence(SeqCst);
            s.write_volatile(1);
        }
    }
    fn end(&self, i: usize) {
        unsafe { self.slot(i).write_volatile(0) }
    }
    /// Overdue case, if any.
    fn overdue(&self, now: u64, limit: u64) -> Option<usize> {
        (0..NSLOTS).find(|i| unsafe {
            let s = self.slot(*i);
            s.read_volatile() == 1 && now.saturating_sub(s.add(1).read_volatile()) > limit
        })
    }
}

fn read_journal(p: &Path) -> Vec<(usize, Vec<i64>)> {
    let b = std::fs::read(p).unwrap_or_default();
    let g = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    let mut v = Vec::new();
    for i in 0..NSLOTS {
        let o = i * SLOT;
        if b.len() < o + SLOT || g(o) != 1 {
            continue;
        }
        let n = g(o + 24) as usize;
        v.push((g(o + 16) as usize, (0..n).map(|k| g(o + 32 + 8 * k) as i64).collect()));
    }
    v
}

#[derive(Default)]
struct Stats {
    cases: BTreeMap<&'static str, u64>,
    nontrivial: u64,
    steps: u64,
    outcomes: HashSet<u64>,
    samples: BTreeMap<&'static str, Vec<String>>,
    known: BTreeMap<String, (u64, String)>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        for (k, v) in o.cases {
            *self.cases.entry(k).or_default() += v;
        }
        self.nontrivial += o.nontrivial;
        self.steps += o.steps;
        if self.outcomes.len() < 8_000_000 {
            self.outcomes.extend(o.outcomes);
        }
        for (k, v) in o.samples {
            let s = self.samples.entry(k).or_default();
            for x in v {
                if s.len() < 2 {
                    s.push(x);
                }
            }
        }
        for (k, (n, t)) in o.known {
            let e = self.known.entry(k).or_insert((0, t));
            e.0 += n;
        }
    }
}

thread_local! {
    static LOCAL: RefCell<Stats> = RefCell::new(Stats::default());
    static SLOT_ID: Cell<usize> = const { Cell::new(0) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    scratch: PathBuf,
    journal: Journal,
    scens: &'static [Scen],
    t0: Instant,
    deadline: Duration,
    stats: Mutex<Stats>,
    stop: AtomicBool,
    failed: AtomicBool,
    capped: AtomicBool,
    states: AtomicU64,
    transitions: AtomicU64,
    notes: Mutex<Vec<String>>,
    known_keys: Vec<(String, String)>, // key, text
    pub threads: usize,
}

/// Key and text of the findings listed for this property.
fn known_for(prop: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?;
            let k = it.next()?.strip_prefix("key=")?;
            (p == prop).then(|| (k.to_string(), it.next().unwrap_or("").to_string()))
        })
        .collect()
}

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

pub fn panic_text() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub fn clear_panic() {
    PANIC.with(|p| *p.borrow_mut() = String::new());
}

/// Runs `f`; a panic becomes `Err(message)`.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| panic_text())
}

fn hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
}

fn run_case(s: &Scen, p: &[i64], obs: &mut Obs) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| (s.f)(p, obs))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", panic_text())),
    }
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn pick<X>(&self, q: X, t: X) -> X {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn stopped(&self) -> bool {
        if self.stop.load(Relaxed) {
            return true;
        }
        if self.t0.elapsed() > self.deadline {
            self.capped.store(true, Relaxed);
            self.stop.store(true, Relaxed);
            return true;
        }
        false
    }
    pub fn note(&self, s: impl Into<String>) {
        let s = s.into();
        println!("  [{:.1}s] {s}", self.t0.elapsed().as_secs_f64());
        self.notes.lock().unwrap().push(s);
    }
    pub fn add_states(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn add_transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn scen(&self, name: &str) -> usize {
        self.scens.iter().position(|s| s.name == name).unwrap_or_else(|| panic!("scenario {name}"))
    }

    /// Executes one case. `None` if it failed (or is a listed finding).
    pub fn run(&self, si: usize, p: &[i64]) -> Option<Obs> {
        if self.stop.load(Relaxed) {
            return None;
        }
        let s = &self.scens[si];
        let slot = SLOT_ID.with(|x| x.get());
        self.journal.begin(slot, si, p, self.t0.elapsed().as_millis() as u64);
        let mut obs = Obs::default();
        let r = run_case(s, p, &mut obs);
        self.journal.end(slot);
        LOCAL.with(|l| {
            let l = &mut *l.borrow_mut();
            *l.cases.entry(s.name).or_default() += 1;
            l.steps += obs.steps;
            if !obs.trivial {
                l.nontrivial += 1;
                l.outcomes.insert(obs.fp ^ (si as u64).wrapping_mul(0x9e3779b97f4a7c15));
            }
            let v = l.samples.entry(s.name).or_default();
            if v.len() < 2 && !obs.trivial {
                let n = p.len().min(48);
                v.push(format!("{} {:?}{} {}", s.name, &p[..n], if n < p.len() { "..." } else { "" }, obs.text));
            }
        });
        match r {
            Ok(()) => Some(obs),
            Err(m) => {
                if let Some(rest) = m.strip_prefix("KF[") {
                    if let Some((key, text)) = rest.split_once(']') {
                        if self.known_keys.iter().any(|k| k.0 == key) {
                            LOCAL.with(|l| {
                                let l = &mut *l.borrow_mut();
                                let e = l.known.entry(key.to_string()).or_insert((0, text.trim().to_string()));
                                e.0 += 1;
                            });
                            return None;
                        }
                    }
                }
                self.fail(si, p, &m);
                None
            }
        }
    }

    fn fail(&self, si: usize, p: &[i64], m: &str) {
        if self.failed.swap(true, SeqCst) {
            return;
        }
        self.stop.store(true, SeqCst);
        let s = &self.scens[si];
        write_fail(&self.scratch.join("fail.txt"), &self.prop, s.name, p, m);
        // Shrink.
        let Some(from) = s.ops_from else { return };
        let slot = SLOT_ID.with(|x| x.get());
        let mut cur = p.to_vec();
        let mut msg = m.to_string();
        let t = Instant::now();
        let mut i = from;
        let mut progress = true;
        while progress && t.elapsed() < Duration::from_secs(5) {
            progress = false;
            i = from;
            while i < cur.len() && t.elapsed() < Duration::from_secs(5) {
                let mut c = cur.clone();
                c.remove(i);
                self.journal.begin(slot, si, &c, self.t0.elapsed().as_millis() as u64);
                let r = run_case(s, &c, &mut Obs::default());
                self.journal.end(slot);
                match r {
                    Err(m) if !m.starts_with("KF[") => {
                        cur = c;
                        msg = m;
                        progress = true;
                    }
                    _ => i += 1,
                }
            }
        }
        let _ = i;
        write_fail(&self.scratch.join("fail.txt"), &self.prop, s.name, &cur, &msg);
    }

    /// Distributes `0..n` over all cores.
    pub fn par(&self, n: u64, f: impl Fn(u64) + Sync) {
        let next = AtomicU64::new(0);
        let tid = AtomicUsize::new(1);
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 256);
        std::thread::scope(|sc| {
            for _ in 0..self.threads {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, || {
                        SLOT_ID.with(|s| s.set(tid.fetch_add(1, SeqCst)));
                        loop {
                            let i = next.fetch_add(chunk, Relaxed);
                            if i >= n || self.stopped() {
                                break;
                            }
                            for j in i..(i + chunk).min(n) {
                                f(j);
                            }
                        }
                        let l = LOCAL.with(|l| std::mem::take(&mut *l.borrow_mut()));
                        self.stats.lock().unwrap().merge(l);
                    })
                    .unwrap();
            }
        });
    }

    pub fn par_items<X: Sync>(&self, v: &[X], f: impl Fn(&X) + Sync) {
        self.par(v.len() as u64, |i| f(&v[i as usize]));
    }

    /// Every sequence over `alphabet` of length `0..=depth` (as parameters appended to `prefix`).
    pub fn sequences(&self, si: usize, prefix: &[i64], alphabet: &[i64], depth: usize) {
        let a = alphabet.len() as u64;
        // Split on the first two operations.
        let split = depth.min(2);
        self.run_in_par(|| {
            self.run(si, prefix);
            if depth >= 1 && split == 2 {
                for x in alphabet {
                    let mut p = prefix.to_vec();
                    p.push(*x);
                    self.run(si, &p);
                }
            }
        });
        let n = a.pow(split as u32);
        if depth == 0 {
            return;
        }
        self.par(n, |i| {
            let mut p = prefix.to_vec();
            if split == 1 {
                p.push(alphabet[i as usize]);
            } else {
                p.push(alphabet[(i / a) as usize]);
                p.push(alphabet[(i % a) as usize]);
            }
            self.seq_rec(si, &mut p, alphabet, depth - split);
        });
    }

    fn run_in_par(&self, f: impl Fn() + Sync) {
        self.par(1, |_| f());
    }

    fn seq_rec(&self, si: usize, p: &mut Vec<i64>, alphabet: &[i64], left: usize) {
        if self.stopped() {
            return;
        }
        self.run(si, p);
        if left == 0 {
            return;
        }
        for x in alphabet {
            p.push(*x);
            self.seq_rec(si, p, alphabet, left - 1);
            p.pop();
        }
    }
}

fn write_fail(path: &Path, prop: &str, scen: &str, p: &[i64], m: &str) {
    let mut s = String::new();
    let _ = writeln!(s, "property={prop}");
    let _ = writeln!(s, "scenario={scen}");
    let _ = writeln!(s, "params={}", p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let _ = writeln!(s, "message={}", m.replace('\n', " | "));
    std::fs::write(path, s).unwrap();
}

fn parse_fail(path: &Path) -> Option<(String, String, Vec<i64>, String)> {
    let s = std::fs::read_to_string(path).ok()?;
    let g = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.to_string());
    let p = g("params=")?;
    let p = p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect::<Option<Vec<i64>>>()?;
    Some((g("property=")?, g("scenario=")?, p, g("message=").unwrap_or_default()))
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0)
}

fn evidence(def: &PropDef, ctx: &Ctx, violations: u64) -> String {
    let st = ctx.stats.lock().unwrap();
    let total: u64 = st.cases.values().sum();
    let mut c: Vec<String> = Vec::new();
    let states = ctx.states.load(Relaxed);
    let distinct = st.outcomes.len() as u64;
    if def.level == "model_checking" {
        // States: distinct states the executions ended in. Transitions: operations of the
        // implementation executed. Traces: executions compared with the reference model.
        c.push(format!("\"states\":{distinct}"));
        c.push(format!("\"transitions\":{}", st.steps));
        c.push(format!("\"traces_validated_against_impl\":{total}"));
        if states > 0 {
            c.push(format!("\"tree_shapes\":{states}"));
            c.push(format!("\"tree_shape_transitions\":{}", ctx.transitions.load(Relaxed)));
        }
    } else {
        c.push(format!("\"evaluations\":{total}"));
        c.push(format!("\"distinct_nontrivial\":{distinct}"));
        c.push(format!("\"implementation_steps\":{}", st.steps));
    }
    c.push(format!("\"nontrivial_executions\":{}", st.nontrivial));
    c.push(format!(
        "\"rule\":{}",
        js("A case is one execution of a scenario on the real code with one tuple of parameters; every tuple within the bounds is run. It is non-trivial when its operations were enabled and changed or queried something; distinct cases are those that ended in different observed states (fingerprint of contents, structure and answers).")
    ));
    c.push(format!(
        "\"cases_per_scenario\":{{{}}}",
        st.cases.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")
    ));
    let exhaustive = !ctx.capped.load(Relaxed) && violations == 0;
    c.push(format!("\"exhaustive\":{exhaustive}"));
    c.push(format!("\"time_capped\":{}", ctx.capped.load(Relaxed)));
    c.push(format!("\"bounds\":{}", js(def.bounds)));
    c.push(format!("\"parts\":{}", arr(ctx.notes.lock().unwrap().iter().map(|s| js(s)))));
    c.push(format!("\"samples\":{}", arr(st.samples.values().flatten().map(|s| js(s)))));
    if !st.known.is_empty() {
        c.push(format!(
            "\"known_findings_seen\":{{{}}}",
            st.known.iter().map(|(k, v)| format!("{}:{}", js(k), v.0)).collect::<Vec<_>>().join(",")
        ));
    }
    format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":{},\"wall_s\":{:.2},\"violations\":{}}}\n",
        js(def.id),
        js(if ctx.quick() { "quick" } else { "thorough" }),
        seed(),
        js(def.level),
        c.join(","),
        arr(def.assumptions.iter().map(|s| js(s))),
        ctx.t0.elapsed().as_secs_f64(),
        violations
    )
}

/// Milliseconds one case may take before it counts as a hang (ordinary cases take well under 1 s).
const HANG_MS: u64 = 60_000;

fn worker(def: &'static PropDef, scens: &'static [Scen]) -> i32 {
    hook();
    unsafe {
        // 16 GB of address space: a runaway allocation ends this process, not the sandbox.
        setrlimit(9, &[16 << 30, 16 << 30]);
    }
    let scratch = PathBuf::from(std::env::var("MC_SCRATCH").unwrap());
    let t = tier();
    let ctx = Ctx {
        prop: def.id.to_string(),
        tier: t,
        journal: Journal::open(&scratch.join("journal")),
        scratch: scratch.clone(),
        scens,
        t0: Instant::now(),
        deadline: Duration::from_secs(if t == Tier::Quick { 500 } else { 3 * 3600 }),
        stats: Mutex::new(Stats::default()),
        stop: AtomicBool::new(false),
        failed: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        notes: Mutex::new(Vec::new()),
        known_keys: known_for(def.id),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(32),
    };
    let ctx: &'static Ctx = Box::leak(Box::new(ctx));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let now = ctx.t0.elapsed().as_millis() as u64;
        if ctx.journal.overdue(now, HANG_MS).is_some() {
            unsafe { _exit(97) }
        }
    });
    // On a thread with a big stack: the explorers themselves run cases here too.
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            (def.explore)(ctx);
            let l = LOCAL.with(|l| std::mem::take(&mut *l.borrow_mut()));
            ctx.stats.lock().unwrap().merge(l);
        })
        .unwrap()
        .join()
        .expect("explorer");
    let v = ctx.failed.load(SeqCst) as u64;
    std::fs::write(scratch.join("evidence.json"), evidence(def, ctx, v)).unwrap();
    let st = ctx.stats.lock().unwrap();
    println!(
        "{}: {} cases, {} distinct outcomes, {} states, {} transitions, {:.1}s",
        def.id,
        st.cases.values().sum::<u64>(),
        st.outcomes.len(),
        ctx.states.load(Relaxed),
        ctx.transitions.load(Relaxed),
        ctx.t0.elapsed().as_secs_f64()
    );
    if v == 0 {
        for (k, (n, ex)) in &st.known {
            let text = ctx.known_keys.iter().find(|x| x.0 == *k).map(|x| x.1.as_str()).unwrap_or("");
            println!("KNOWN-FINDING: property={} {k}: {text} ({n} cases, e.g. {ex})", def.id);
        }
    }
    std::io::stdout().flush().unwrap();
    unsafe { _exit(v as i32) }
}

/// Runs `mc one FILE` in a fresh process: Ok(None) passes, Ok(Some(msg)) fails.
fn one_in_child(file: &Path, limit: Duration) -> Result<Option<String>, String> {
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .arg("one")
        .arg(file)
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let t = Instant::now();
    loop {
        match ch.try_wait().map_err(|e| e.to_string())? {
            Some(st) => {
                let out = ch.wait_with_output().map_err(|e| e.to_string())?;
                let so = String::from_utf8_lossy(&out.stdout).to_string();
                return match st.code() {
                    Some(0) => Ok(None),
                    Some(1) => Ok(Some(so.lines().last().unwrap_or("").to_string())),
                    Some(c) => Err(format!("replay process exited with {c}: {}", String::from_utf8_lossy(&out.stderr))),
                    None => {
                        use std::os::unix::process::ExitStatusExt;
                        let e = String::from_utf8_lossy(&out.stderr).to_string();
                        Ok(Some(format!(
                            "the process was killed by signal {} {}",
                            st.signal().unwrap_or(0),
                            e.lines().last().unwrap_or("")
                        )))
                    }
                };
            }
            None => {
                if t.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Ok(Some(format!("did not finish within {} s", limit.as_secs())));
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    }
}

fn parent(def: &'static PropDef, scens: &'static [Scen]) -> i32 {
    let scratch = std::env::temp_dir().join(format!("mc-{}-{}", def.id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let code = parent2(def, scens, &scratch);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn parent2(def: &'static PropDef, scens: &'static [Scen], scratch: &Path) -> i32 {
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["worker", def.id])
        .env("MC_SCRATCH", scratch)
        .status()
        .unwrap();
    let ev = verif().join("evidence").join(format!("{}.json", def.id));
    let _ = std::fs::create_dir_all(ev.parent().unwrap());
    let fail = scratch.join("fail.txt");
    let replays = verif().join("replays");
    let _ = std::fs::create_dir_all(&replays);
    let dest = replays.join(format!("{}.txt", def.id));
    match st.code() {
        Some(c @ (0 | 1)) if scratch.join("evidence.json").exists() => {
            std::fs::copy(scratch.join("evidence.json"), &ev).unwrap();
            if c == 0 {
                let _ = std::fs::remove_file(&dest);
                return 0;
            }
        }
        _ => {}
    }
    // A recorded failure, or a crash whose case has to be found.
    let mut found = None;
    if let Some((_, _, _, m)) = parse_fail(&fail) {
        std::fs::copy(&fail, &dest).unwrap();
        let again = one_in_child(&dest, Duration::from_secs(120));
        found = Some((m, format!("{again:?}")));
    } else {
        for (si, p) in read_journal(&scratch.join("journal")) {
            let Some(s) = scens.get(si) else { continue };
            let cand = scratch.join("cand.txt");
            write_fail(&cand, def.id, s.name, &p, "crash or hang");
            match one_in_child(&cand, Duration::from_secs(90)) {
                Ok(Some(m)) if !m.contains("message=KF[") => {
                    write_fail(&dest, def.id, s.name, &p, &m);
                    found = Some((m.clone(), m));
                    break;
                }
                r => eprintln!("not reproduced: {} {:?}: {r:?}", s.name, &p[..p.len().min(40)]),
            }
        }
    }
    match found {
        Some((m, again)) => {
            println!("case: {}", std::fs::read_to_string(&dest).unwrap_or_default().replace('\n', "; "));
            println!("what failed: {m}");
            println!("replayed in a fresh process: {again}");
            if !scratch.join("evidence.json").exists() {
                let c = format!(
                    "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"{}\",\"coverage\":{{\"evaluations\":1,\"distinct_nontrivial\":1,\"states\":1,\"transitions\":1,\"traces_validated_against_impl\":1,\"rule\":\"run ended by the failing case\",\"samples\":[{}],\"exhaustive\":false}},\"wall_s\":0,\"violations\":1}}\n",
                    def.id, if tier() == Tier::Quick { "quick" } else { "thorough" }, seed(), def.level, js(&m)
                );
                let _ = std::fs::write(&ev, c);
            }
            println!("VIOLATION property={} replay={}", def.id, dest.display());
            1
        }
        None => {
            eprintln!("engine error: the worker ended with {st:?} and no case reproduces it");
            3
        }
    }
}

fn one(path: &Path, scens: &'static [Scen]) -> i32 {
    hook();
    unsafe {
        setrlimit(9, &[16 << 30, 16 << 30]);
    }
    let (prop, scen, p, _) = parse_fail(path).expect("replay file");
    let s = scens.iter().find(|s| s.name == scen).expect("scenario of the replay file");
    let r = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || run_case(s, &p, &mut Obs::default()))
        .unwrap()
        .join()
        .unwrap();
    match r {
        Ok(()) => {
            println!("property={prop} scenario={scen}: passes");
            0
        }
        Err(m) => {
            println!("property={prop} scenario={scen} message={m}");
            1
        }
    }
}

pub fn main(props: &'static [PropDef], scens: &'static [Scen]) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => parent(find(&a[2]), scens),
        Some("worker") => worker(find(&a[2]), scens),
        Some("one") => one(Path::new(&a[2]), scens),
        Some("replay") => match one_in_child(Path::new(&a[2]), Duration::from_secs(120)) {
            Ok(None) => {
                println!("the case passes");
                0
            }
            Ok(Some(m)) => {
                println!("the case fails: {m}");
                1
            }
            Err(e) => {
                eprintln!("{e}");
                3
            }
        },
        Some("list") => {
            for p in props {
                println!("{} {}", p.id, p.level);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID | replay FILE | list");
            2
        }
    }
}

/// FNV-1a, for fingerprints.
pub struct Fp(pub u64);
impl Fp {
    pub fn new() -> Fp {
        Fp(0xcbf29ce484222325)
    }
    pub fn add(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.0 = (self.0 ^ 0x1ff).wrapping_mul(0x100000001b3);
    }
    pub fn num(&mut self, n: u64) {
        self.add(&n.to_le_bytes());
    }
}
