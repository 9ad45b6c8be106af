//! Cooperative scheduler for real threads. Exactly one controlled thread runs at a time; at every
//! scheduling point (interposed libc call, lock operation of the concurrent map, futex call) the
//! running thread asks the explorer who goes on. Switching away from a thread that could continue
//! costs one preemption; switches at blocking points are free.
use crate::explorer::{fail, Exec, Res};
use crate::interpose::{quiet, with_env, Ans, Env, Op};
use libc::c_int;
use std::any::Any;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Th {
    Ready,
    /// waits on the futex at this address
    Futex(usize),
    /// spun on a map lock when the progress counter had this value
    Spin(u64),
    Done,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Deadlock(String),
    Horizon,
}

struct St {
    th: Vec<Th>,
    cur: usize,
    started: usize,
    progress: u64,
    steps: u64,
    preempt_left: u32,
    now: u64,
    stop: Option<Stop>,
    finished: bool,
    /// (thread, event) trace, kept short
    trace: Vec<(usize, &'static str)>,
    switches: u64,
}

pub struct Inner {
    st: Mutex<St>,
    cv: Vec<Condvar>,
    main: Condvar,
    ex: *const (),
    horizon: u64,
    points: fn(&Op) -> bool,
    map_points: bool,
}
unsafe impl Send for Inner {}
unsafe impl Sync for Inner {}

impl Inner {
    fn ex(&self) -> &Exec<'static> {
        // only the thread that holds the token calls this, and the execution outlives the run
        unsafe { &*(self.ex as *const Exec<'static>) }
    }

    fn enabled(st: &St, me: Option<usize>) -> Vec<usize> {
        let mut v = vec![];
        if let Some(m) = me {
            if st.th[m] == Th::Ready {
                v.push(m)
            }
        }
        for (i, t) in st.th.iter().enumerate() {
            if Some(i) == me {
                continue;
            }
            match t {
                Th::Ready => v.push(i),
                Th::Spin(p) if st.progress > *p => v.push(i),
                _ => {}
            }
        }
        v
    }

    /// The running thread `me` reached a point (its state is already updated): choose who goes on
    /// and, if it is another thread, wait for the token.
    fn reschedule(&self, mut st: std::sync::MutexGuard<St>, me: usize, free: bool) {
        if st.stop.is_some() {
            self.park(st);
        }
        st.steps += 1;
        if st.steps > self.horizon {
            st.stop = Some(Stop::Horizon);
            self.main.notify_all();
            self.park(st);
        }
        let can_continue = st.th[me] == Th::Ready;
        let en = Inner::enabled(&st, Some(me));
        if en.is_empty() {
            if st.th.iter().all(|t| *t == Th::Done) {
                st.finished = true;
                self.main.notify_all();
                return;
            }
            let d = format!("{:?}", st.th.iter().map(|t| match t {
                Th::Ready => "ready",
                Th::Futex(_) => "waits for a mutex",
                Th::Spin(_) => "spins on a map lock",
                Th::Done => "finished",
            }).collect::<Vec<_>>());
            st.stop = Some(Stop::Deadlock(d));
            self.main.notify_all();
            self.park(st);
        }
        let n = if can_continue && !free && st.preempt_left == 0 { 1 } else { en.len() };
        let c = self.ex().choose(n);
        let next = en[c];
        if can_continue && c != 0 && !free {
            st.preempt_left -= 1;
        }
        if next != me {
            st.switches += 1;
        }
        if let Th::Spin(_) = st.th[next] {
            st.th[next] = Th::Ready;
        }
        st.cur = next;
        if next != me {
            self.cv[next].notify_all();
            if st.th[me] != Th::Done {
                self.wait_token(st, me);
            }
        }
    }

    fn wait_token(&self, mut st: std::sync::MutexGuard<St>, me: usize) {
        while st.cur != me || st.th[me] != Th::Ready {
            if st.stop.is_some() {
                self.park(st);
            }
            st = self.cv[me].wait(st).unwrap();
        }
    }

    /// The execution was stopped: this thread never runs again.
    fn park(&self, st: std::sync::MutexGuard<St>) -> ! {
        drop(st);
        loop {
            std::thread::sleep(Duration::from_secs(3600));
        }
    }

    fn point(&self, me: usize, what: &'static str) {
        let mut st = self.st.lock().unwrap();
        st.progress += 1;
        if st.trace.len() < 4000 {
            st.trace.push((me, what));
        }
        self.reschedule(st, me, false);
    }
}

struct ThreadEnv {
    inner: Arc<Inner>,
    me: usize,
}

impl Env for ThreadEnv {
    fn call(&self, op: &Op) -> Ans {
        if (self.inner.points)(op) {
            self.inner.point(self.me, op.name());
        }
        Ans::Go
    }
    fn clock(&self) -> u64 {
        self.inner.st.lock().unwrap().now
    }
    fn futex(&self, addr: usize, op: c_int, val: u32) -> Option<i64> {
        match op & 0x7f {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                let mut st = self.inner.st.lock().unwrap();
                let cur = unsafe {
                    (*(addr as *const std::sync::atomic::AtomicU32))
                        .load(std::sync::atomic::Ordering::SeqCst)
                };
                if cur != val {
                    return Some(-(libc::EAGAIN as i64));
                }
                st.th[self.me] = Th::Futex(addr);
                st.trace.push((self.me, "futex-wait"));
                self.inner.reschedule(st, self.me, false);
                Some(0)
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                let mut st = self.inner.st.lock().unwrap();
                st.progress += 1;
                let mut n = 0i64;
                let waiting: Vec<usize> = (0..st.th.len())
                    .filter(|&i| st.th[i] == Th::Futex(addr))
                    .collect();
                for i in waiting {
                    if n as u32 >= val {
                        break;
                    }
                    st.th[i] = Th::Ready;
                    n += 1;
                }
                st.trace.push((self.me, "futex-wake"));
                // where only seeks are points, going on with the woken thread is free
                self.inner.reschedule(st, self.me, n > 0 && !self.inner.map_points);
                Some(n)
            }
            _ => Some(0),
        }
    }
    fn map_point(&self) {
        if !self.inner.map_points {
            self.inner.st.lock().unwrap().progress += 1;
            return;
        }
        self.inner.point(self.me, "map-lock");
    }
    fn map_released(&self) {
        self.inner.st.lock().unwrap().progress += 1;
    }
    fn spin(&self) {
        let mut st = self.inner.st.lock().unwrap();
        let p = st.progress;
        st.th[self.me] = Th::Spin(p);
        if st.trace.len() < 4000 {
            st.trace.push((self.me, "spin"));
        }
        self.inner.reschedule(st, self.me, false);
    }
    fn yielded(&self) {
        self.spin()
    }
    fn slept(&self, n: u64) {
        {
            let mut st = self.inner.st.lock().unwrap();
            st.now += n;
        }
        self.inner.point(self.me, "sleep");
    }
}

pub struct Outcome<T> {
    pub results: Vec<Result<T, String>>,
    pub preemptions: u32,
    pub switches: u64,
    pub steps: u64,
    pub trace: Vec<(usize, &'static str)>,
}

/// Only where a file position moves (and at lock operations that block or wake).
pub fn seek_points(op: &Op) -> bool {
    matches!(op, Op::Lseek { .. })
}

pub fn all_points(op: &Op) -> bool {
    !matches!(op, Op::Close { .. } | Op::Fstat { .. })
}

/// Runs the bodies as real threads under the scheduler. Panics of a body are returned as Err.
pub fn run<T: Send + 'static>(
    ex: &Exec,
    preemptions: u32,
    points: fn(&Op) -> bool,
    bodies: Vec<Box<dyn FnOnce() -> T + Send + 'static>>,
) -> Result<Outcome<T>, crate::explorer::Violation> {
    quiet(|| run_inner(ex, preemptions, points, bodies))
}

fn run_inner<T: Send + 'static>(
    ex: &Exec,
    preemptions: u32,
    points: fn(&Op) -> bool,
    bodies: Vec<Box<dyn FnOnce() -> T + Send + 'static>>,
) -> Result<Outcome<T>, crate::explorer::Violation> {
    let n = bodies.len();
    pin();
    let inner = Arc::new(Inner {
        st: Mutex::new(St {
            th: vec![Th::Ready; n],
            cur: usize::MAX,
            started: 0,
            progress: 0,
            steps: 0,
            preempt_left: preemptions,
            now: 1_000_000_000_000,
            stop: None,
            finished: false,
            trace: vec![],
            switches: 0,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        main: Condvar::new(),
        ex: ex as *const Exec as *const (),
        horizon: 200_000,
        map_points: points(&Op::Readdir),
        points,
    });
    let collide = dashmap::mc::collide();
    let slot = crate::explorer::my_slot() as usize;
    let mut handles = vec![];
    for (me, body) in bodies.into_iter().enumerate() {
        let inner = inner.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || -> Box<dyn Any + Send> {
                    dashmap::mc::set_collide(collide);
                    crate::explorer::set_my_slot(slot as *mut u8);
                    {
                        let mut st = inner.st.lock().unwrap();
                        st.started += 1;
                        inner.main.notify_all();
                        inner.wait_token(st, me);
                    }
                    let env = ThreadEnv {
                        inner: inner.clone(),
                        me,
                    };
                    let r: Result<T, String> =
                        with_env(&env, || crate::explorer::guarded(body));
                    let r: Box<dyn Any + Send> = Box::new(r);
                    quiet(|| {
                        let mut st = inner.st.lock().unwrap();
                        st.th[me] = Th::Done;
                        st.progress += 1;
                        inner.reschedule(st, me, false);
                    });
                    r
                })
                .unwrap(),
        );
    }
    {
        let mut st = inner.st.lock().unwrap();
        while st.started < n {
            st = inner.main.wait(st).unwrap();
        }
        let first = ex.choose(n);
        st.cur = first;
        inner.cv[first].notify_all();
        while !st.finished && st.stop.is_none() {
            st = inner.main.wait(st).unwrap();
        }
        if let Some(stop) = st.stop.clone() {
            let tail: Vec<_> = st.trace.iter().rev().take(24).rev().cloned().collect();
            drop(st);
            std::mem::forget(handles);
            return match stop {
                Stop::Deadlock(d) => fail("deadlock", format!("deadlock: {} after {:?}", d, tail)),
                Stop::Horizon => fail("livelock", format!("no end after 200000 steps: {:?}", tail)),
            };
        }
    }
    let mut results = vec![];
    for h in handles {
        let b = h.join().expect("controlled thread");
        results.push(*b.downcast::<Result<T, String>>().unwrap());
    }
    let st = inner.st.lock().unwrap();
    Ok(Outcome {
        results,
        preemptions: preemptions - st.preempt_left,
        switches: st.switches,
        steps: st.steps,
        trace: st.trace.clone(),
    })
}

/// Only one of the threads of a run is ever runnable: handing over on one processor is cheapest.
fn pin() {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    thread_local!(static DONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    if DONE.with(|d| d.replace(true)) {
        return;
    }
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
        if cpus.len() < 2 {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[NEXT.fetch_add(1, Ordering::Relaxed) % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

pub fn no_panics<T>(o: &Outcome<T>) -> Res {
    for (i, r) in o.results.iter().enumerate() {
        if let Err(m) = r {
            return fail("panic", format!("thread {} panicked: {}", i, m));
        }
    }
    Ok(())
}
