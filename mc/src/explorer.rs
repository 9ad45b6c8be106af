//! Stateless explorer: a check is a function of an `Exec`; every call of `choose` is a branching
//! point and the explorer runs the function once for every choice sequence within the bounds.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Violation {
    /// Identifies the failing input / call site / history, for the known-findings file.
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Violation>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        sig: sig.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)+) => {
        if !($cond) {
            return $crate::explorer::fail($sig, format!($($arg)+));
        }
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type Choice = (u16, u16); // (chosen, arity)

/// Thrown (by panic) to abandon an execution that does not satisfy a precondition of the driver.
pub struct Prune;

pub struct Exec<'a> {
    pub tier: Tier,
    pub scratch: &'a Path,
    pub worker: usize,
    prefix: Vec<Choice>,
    diverged: Cell<bool>,
    taken: RefCell<Vec<Choice>>,
    devs_left: Cell<u32>,
    transitions: Cell<u64>,
    evals: Cell<u64>,
    states: RefCell<Vec<u64>>,
    outcomes: RefCell<Vec<u64>>,
    desc: RefCell<Option<String>>,
    want_desc: bool,
    slot: Option<*mut u8>,
    trace: Cell<bool>,
    counters: RefCell<BTreeMap<&'static str, u64>>,
}

pub fn hash_of<H: Hash + ?Sized>(h: &H) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

impl<'a> Exec<'a> {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// A free choice among `n` alternatives; all of them are explored.
    pub fn choose(&self, n: usize) -> usize {
        assert!(n > 0 && n < 65536, "choose({})", n);
        if n == 1 {
            return 0;
        }
        let mut taken = self.taken.borrow_mut();
        let i = taken.len();
        let c = if i < self.prefix.len() {
            let (c, a) = self.prefix[i];
            if a as usize != n || self.diverged.get() {
                // never panic here: this may run inside an interposed libc call
                self.diverged.set(true);
                return 0;
            }
            c
        } else {
            0
        };
        taken.push((c, n as u16));
        if let Some(slot) = self.slot {
            unsafe { slot_push(slot, i, c, n as u16) }
        }
        c as usize
    }

    pub fn pick<'b, T>(&self, xs: &'b [T]) -> &'b T {
        &xs[self.choose(xs.len())]
    }

    pub fn flag(&self) -> bool {
        self.choose(2) == 1
    }

    /// Sets the number of deviations from the default that `choose_dev` may still take.
    pub fn set_deviations(&self, n: u32) {
        self.devs_left.set(n)
    }

    pub fn deviations_left(&self) -> u32 {
        self.devs_left.get()
    }

    /// A choice whose alternatives other than 0 each cost one deviation.
    pub fn choose_dev(&self, n: usize) -> usize {
        if self.devs_left.get() == 0 {
            return 0;
        }
        let c = self.choose(n);
        if c > 0 {
            self.devs_left.set(self.devs_left.get() - 1);
        }
        c
    }

    /// Records a state (for the count of distinct states).
    pub fn state<H: Hash + ?Sized>(&self, h: &H) {
        self.states.borrow_mut().push(hash_of(h));
    }

    /// Records an observed result (for the count of distinct outcomes).
    pub fn outcome<H: Hash + ?Sized>(&self, h: &H) {
        self.outcomes.borrow_mut().push(hash_of(h));
    }

    /// Counts one operation of the real code that was executed and judged.
    pub fn step(&self) {
        self.transitions.set(self.transitions.get() + 1);
        // a sign of life for the parent process
        unsafe {
            let slot = my_slot();
            if !slot.is_null() {
                let p = slot.add(24) as *mut u64;
                p.write_volatile(p.read_volatile() + 1);
            }
        }
    }

    /// Counts cases judged within this execution (when one execution carries a batch).
    pub fn evals(&self, n: u64) {
        self.evals.set(self.evals.get() + n);
    }

    pub fn count(&self, what: &'static str, n: u64) {
        *self.counters.borrow_mut().entry(what).or_insert(0) += n;
    }

    pub fn describe(&self, f: impl FnOnce() -> String) {
        if self.want_desc {
            *self.desc.borrow_mut() = Some(f());
        }
    }

    pub fn tracing(&self) -> bool {
        self.trace.get()
    }

    pub fn prune(&self) -> ! {
        std::panic::panic_any(Prune)
    }

    /// A fresh directory for this execution, removed at the next call.
    pub fn fresh_dir(&self) -> PathBuf {
        let d = self.scratch.join("x");
        crate::interpose::quiet(|| {
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir_all(&d).unwrap();
        });
        d
    }

    pub fn taken(&self) -> Vec<Choice> {
        self.taken.borrow().clone()
    }
}

// ---- crash slots: the choices of the running execution live in a shared mapping so that the
// parent process can name the execution that killed the worker process ----

pub const SLOT_SIZE: usize = 1 << 16;
const SLOT_MSG: usize = 32;
const SLOT_MSG_LEN: usize = 480;
const SLOT_CHOICES: usize = 512;
pub const SLOT_MAX: usize = (SLOT_SIZE - SLOT_CHOICES) / 4;

unsafe fn slot_push(slot: *mut u8, i: usize, c: u16, n: u16) {
    if i < SLOT_MAX {
        let p = slot.add(SLOT_CHOICES + i * 4) as *mut u16;
        p.write_volatile(c);
        p.add(1).write_volatile(n);
        (slot.add(8) as *mut u64).write_volatile(i as u64 + 1);
    }
}

/// (active, progress, choices, message)
pub fn read_slot(slot: &[u8]) -> (bool, u64, Vec<Choice>, String) {
    let r64 = |o: usize| u64::from_le_bytes(slot[o..o + 8].try_into().unwrap());
    let n = (r64(8) as usize).min(SLOT_MAX);
    let choices = (0..n)
        .map(|i| {
            let o = SLOT_CHOICES + i * 4;
            (
                u16::from_le_bytes(slot[o..o + 2].try_into().unwrap()),
                u16::from_le_bytes(slot[o + 2..o + 4].try_into().unwrap()),
            )
        })
        .collect();
    let msg = &slot[SLOT_MSG..SLOT_MSG + SLOT_MSG_LEN];
    let end = msg.iter().position(|&b| b == 0).unwrap_or(msg.len());
    (
        r64(0) != 0,
        r64(16).wrapping_add(r64(24)),
        choices,
        String::from_utf8_lossy(&msg[..end]).into_owned(),
    )
}

thread_local! { static MY_SLOT: Cell<*mut u8> = const { Cell::new(std::ptr::null_mut()) }; }

pub fn my_slot() -> *mut u8 {
    MY_SLOT.with(|s| s.get())
}
pub fn set_my_slot(p: *mut u8) {
    MY_SLOT.with(|s| s.set(p))
}

/// Ends the worker process because the execution cannot continue (for example a self-deadlock).
pub fn fatal(msg: &str) -> ! {
    unsafe {
        let slot = MY_SLOT.with(|s| s.get());
        if !slot.is_null() {
            let n = msg.len().min(SLOT_MSG_LEN - 1);
            std::ptr::copy_nonoverlapping(msg.as_ptr(), slot.add(SLOT_MSG), n);
            *slot.add(SLOT_MSG + n) = 0;
        }
        libc::_exit(97)
    }
}

pub struct Config {
    pub tier: Tier,
    pub workers: usize,
    pub wall: Duration,
    pub scratch: PathBuf,
    pub slots: *mut u8,
    pub known: Vec<String>,
}
unsafe impl Sync for Config {}

#[derive(Default)]
pub struct Report {
    pub executions: u64,
    pub evaluations: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub nodes: u64,
    pub max_depth: u64,
    pub pruned: u64,
    pub divergences: u64,
    pub replays: u64,
    pub replay_mismatches: u64,
    pub exhaustive: bool,
    pub frontier_left: u64,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, (u64, String)>,
    pub counters: BTreeMap<String, u64>,
    /// The violation, its choices, and the executions the same thread ran before it.
    pub violation: Option<(Violation, Vec<Choice>, Vec<Vec<Choice>>)>,
    pub wall_s: f64,
}

pub type Body = dyn Fn(&Exec) -> Res + Sync;

pub enum RunEnd {
    Done(Res),
    Pruned,
    Diverged,
}

pub struct RunOut {
    pub end: RunEnd,
    pub taken: Vec<Choice>,
    pub transitions: u64,
    pub evals: u64,
    pub states: Vec<u64>,
    pub outcomes: Vec<u64>,
    pub desc: Option<String>,
    pub counters: BTreeMap<&'static str, u64>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET_PANIC: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if info.payload().is::<Prune>() {
            return;
        }
        let msg = info.to_string();
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = Some(msg));
        if !QUIET_PANIC.with(|q| q.get()) {
            default(info);
        }
    }));
}

/// Runs `f` with panics captured; returns the panic message (with location) on panic.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET_PANIC.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET_PANIC.with(|q| q.set(old));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Prune>() {
                std::panic::resume_unwind(p);
            }
            Err(PANIC_MSG
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into()))
        }
    }
}

pub fn run_once(
    body: &Body,
    tier: Tier,
    scratch: &Path,
    worker: usize,
    prefix: Vec<Choice>,
    slot: Option<*mut u8>,
    want_desc: bool,
) -> RunOut {
    let ex = Exec {
        tier,
        scratch,
        worker,
        prefix,
        diverged: Cell::new(false),
        taken: RefCell::new(Vec::new()),
        devs_left: Cell::new(0),
        transitions: Cell::new(0),
        evals: Cell::new(0),
        states: RefCell::new(Vec::new()),
        outcomes: RefCell::new(Vec::new()),
        desc: RefCell::new(None),
        want_desc,
        slot,
        trace: Cell::new(want_desc),
        counters: RefCell::new(BTreeMap::new()),
    };
    if let Some(s) = slot {
        unsafe {
            (s.add(8) as *mut u64).write_volatile(0);
            let n = s.add(16) as *mut u64;
            n.write_volatile(n.read_volatile() + 1);
            (s as *mut u64).write_volatile(1);
        }
    }
    let old = QUIET_PANIC.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(|| body(&ex)));
    QUIET_PANIC.with(|q| q.set(old));
    crate::interpose::reset();
    if let Some(s) = slot {
        unsafe { (s as *mut u64).write_volatile(0) }
    }
    let end = match r {
        _ if ex.diverged.get() || ex.taken.borrow().len() < ex.prefix.len() => RunEnd::Diverged,
        Ok(r) => RunEnd::Done(r),
        Err(p) if p.is::<Prune>() => RunEnd::Pruned,
        Err(_) => {
            let msg = PANIC_MSG
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into());
            RunEnd::Done(fail("panic", format!("panicked: {}", msg)))
        }
    };
    RunOut {
        end,
        taken: ex.taken.into_inner(),
        transitions: ex.transitions.get(),
        evals: ex.evals.get(),
        states: ex.states.into_inner(),
        outcomes: ex.outcomes.into_inner(),
        desc: ex.desc.into_inner(),
        counters: ex.counters.into_inner(),
    }
}

const SHARDS: usize = 64;

pub fn explore(cfg: &Config, body: &Body) -> Report {
    let start = Instant::now();
    let queue: Mutex<Vec<Vec<Choice>>> = Mutex::new(vec![vec![]]);
    let queued = AtomicUsize::new(0);
    let idle = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let left = AtomicU64::new(0);
    let states: Vec<Mutex<HashSet<u64>>> = (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect();
    let outcomes: Vec<Mutex<HashSet<u64>>> =
        (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect();
    let total: Mutex<Report> = Mutex::new(Report::default());
    let found: Mutex<Option<(Violation, Vec<Choice>, Vec<Vec<Choice>>)>> = Mutex::new(None);

    std::thread::scope(|sc| {
        for w in 0..cfg.workers {
            let (queue, queued, idle, stop, capped, left, states, outcomes, total, found) = (
                &queue, &queued, &idle, &stop, &capped, &left, &states, &outcomes, &total, &found,
            );
            let cfg = cfg;
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(sc, move || {
                    let scratch = cfg.scratch.join(format!("w{}", w)).join(dashmap::mc::ROOT);
                    std::fs::create_dir_all(&scratch).unwrap();
                    let slot = unsafe { cfg.slots.add(w * SLOT_SIZE) };
                    set_my_slot(slot);
                    let mut rep = Report::default();
                    let mut local: Vec<Vec<Choice>> = Vec::new();
                    let mut is_idle = false;
                    let mut recent: VecDeque<Vec<Choice>> = VecDeque::new();
                    let mut retried = false;
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if start.elapsed() > cfg.wall {
                            capped.store(true, Ordering::Relaxed);
                            break;
                        }
                        let next = match local.pop() {
                            Some(p) => Some(p),
                            None => {
                                let mut q = queue.lock().unwrap();
                                let p = q.pop();
                                queued.store(q.len(), Ordering::Relaxed);
                                p
                            }
                        };
                        let prefix = match next {
                            Some(p) => {
                                if is_idle {
                                    is_idle = false;
                                    idle.fetch_sub(1, Ordering::SeqCst);
                                }
                                p
                            }
                            None => {
                                if !is_idle {
                                    is_idle = true;
                                    idle.fetch_add(1, Ordering::SeqCst);
                                }
                                if idle.load(Ordering::SeqCst) == cfg.workers
                                    && queue.lock().unwrap().is_empty()
                                {
                                    break;
                                }
                                std::thread::sleep(Duration::from_micros(200));
                                continue;
                            }
                        };
                        let plen = prefix.len();
                        let again = prefix.clone();
                        let want = rep.executions < 2 || rep.executions % 4096 == 77;
                        let out = run_once(
                            body,
                            cfg.tier,
                            &scratch,
                            w,
                            prefix,
                            Some(slot),
                            want,
                        );
                        rep.executions += 1;
                        match &out.end {
                            // something survived from another execution of this process; once more
                            RunEnd::Diverged if !retried => {
                                retried = true;
                                local.push(again);
                                continue;
                            }
                            RunEnd::Diverged => {
                                retried = false;
                                rep.divergences += 1;
                                if rep.divergences > 10_000 {
                                    stop.store(true, Ordering::SeqCst);
                                }
                                continue;
                            }
                            RunEnd::Pruned => rep.pruned += 1,
                            RunEnd::Done(Ok(())) => {}
                            RunEnd::Done(Err(v)) => {
                                if cfg.known.iter().any(|k| *k == v.sig) {
                                    let e = rep
                                        .known
                                        .entry(v.sig.clone())
                                        .or_insert((0, v.msg.clone()));
                                    e.0 += 1;
                                } else {
                                    let mut f = found.lock().unwrap();
                                    let better = match &*f {
                                        None => true,
                                        Some((_, c, _)) => out.taken.len() < c.len(),
                                    };
                                    if better {
                                        *f = Some((v.clone(), out.taken.clone(), recent.iter().cloned().collect()));
                                    }
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                        retried = false;
                        if recent.len() == 300 {
                            recent.pop_front();
                        }
                        recent.push_back(out.taken.clone());
                        rep.transitions += out.transitions;
                        rep.evaluations += out.evals;
                        rep.nodes += (out.taken.len() - plen) as u64 + 1;
                        rep.max_depth = rep.max_depth.max(out.taken.len() as u64);
                        for (k, v) in &out.counters {
                            *rep.counters.entry((*k).into()).or_insert(0) += v;
                        }
                        for &s in &out.states {
                            states[s as usize % SHARDS].lock().unwrap().insert(s);
                        }
                        for &s in &out.outcomes {
                            outcomes[s as usize % SHARDS].lock().unwrap().insert(s);
                        }
                        if let Some(d) = &out.desc {
                            if rep.samples.len() < 6 {
                                rep.samples.push(d.clone());
                            }
                        }
                        // determinism: re-run some executions completely and compare
                        if rep.replays < 40 && rep.executions % 61 == 7 {
                            let again = run_once(
                                body,
                                cfg.tier,
                                &scratch,
                                w,
                                out.taken.clone(),
                                Some(slot),
                                false,
                            );
                            rep.replays += 1;
                            if again.taken != out.taken
                                || again.outcomes != out.outcomes
                                || again.states != out.states
                            {
                                rep.replay_mismatches += 1;
                            }
                        }
                        for i in (plen..out.taken.len()).rev() {
                            let (c, a) = out.taken[i];
                            for alt in (c + 1..a).rev() {
                                let mut p = Vec::with_capacity(i + 1);
                                p.extend_from_slice(&out.taken[..i]);
                                p.push((alt, a));
                                local.push(p);
                            }
                        }
                        // the queue is kept filled: a worker busy with a long execution has nothing to give
                        let short = queued.load(Ordering::Relaxed) < cfg.workers;
                        if local.len() > 1 && (short || local.len() > 4096) {
                            // give away the oldest (largest) half
                            let n = local.len() / 2;
                            let mut q = queue.lock().unwrap();
                            if q.len() < 64 || local.len() > 4096 {
                                q.extend(local.drain(..n));
                                queued.store(q.len(), Ordering::Relaxed);
                            }
                        }
                    }
                    left.fetch_add(local.len() as u64, Ordering::SeqCst);
                    let mut t = total.lock().unwrap();
                    t.executions += rep.executions;
                    t.evaluations += rep.evaluations;
                    t.transitions += rep.transitions;
                    t.nodes += rep.nodes;
                    t.max_depth = t.max_depth.max(rep.max_depth);
                    t.pruned += rep.pruned;
                    t.divergences += rep.divergences;
                    t.replays += rep.replays;
                    t.replay_mismatches += rep.replay_mismatches;
                    for (k, v) in rep.counters {
                        *t.counters.entry(k).or_insert(0) += v;
                    }
                    for (k, (n, m)) in rep.known {
                        let e = t.known.entry(k).or_insert((0, m));
                        e.0 += n;
                    }
                    t.samples.extend(rep.samples);
                })
                .unwrap();
        }
    });
    let mut t = total.into_inner().unwrap();
    t.violation = found.into_inner().unwrap();
    t.states = states.iter().map(|s| s.lock().unwrap().len() as u64).sum();
    t.outcomes = outcomes.iter().map(|s| s.lock().unwrap().len() as u64).sum();
    t.frontier_left = left.load(Ordering::SeqCst) + queue.lock().unwrap().len() as u64;
    t.exhaustive =
        !capped.load(Ordering::SeqCst) && t.violation.is_none() && t.divergences == 0;
    t.samples.truncate(12);
    t.wall_s = start.elapsed().as_secs_f64();
    t
}
