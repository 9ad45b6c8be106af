//! Several real processes of the library on one repository, stepped one at a time: every process
//! stops at every system call until the explorer lets it go on, and can be killed there.
use crate::explorer::{fail, Res, Violation};
use crate::gitfmt::*;
use crate::interpose::{quiet, with_env, Ans, Env, Op};
use crate::repo::{self, Obs};
use rusty_git::object::ObjectDatabase;
use std::cell::Cell;
use std::io::{BufRead, BufReader, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Act {
    Store(usize),
    Read(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    /// about to make this call (or to begin an action)
    Point(String),
    Begin,
    /// the current action ended: Ok(true) stored or read, Ok(false) not found
    Done(Result<bool, String>),
    Exit,
}

pub struct Proc {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    pub over: bool,
}

impl Proc {
    /// `objs`: a directory with the bytes of object i in file i. `pid`: what the process takes its id for.
    pub fn start(dotgit: &Path, objs: &Path, pid: u32, acts: &[Act]) -> Proc {
        let prog: Vec<String> = acts
            .iter()
            .map(|a| match a {
                Act::Store(i) => format!("S{}", i),
                Act::Read(i) => format!("R{}", i),
            })
            .collect();
        let mut child = Command::new(std::env::current_exe().unwrap())
            .arg("proc")
            .arg(dotgit)
            .arg(objs)
            .arg(pid.to_string())
            .args(prog)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::inherit())
            .spawn()
            .unwrap();
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Proc { child, to, from, over: false }
    }

    /// What the process reports next; after a `Point` it waits for `go`.
    pub fn next(&mut self) -> Event {
        let mut l = String::new();
        let n = self.from.read_line(&mut l).unwrap_or(0);
        let l = l.trim_end();
        if n == 0 {
            self.over = true;
            let s = self.child.wait().unwrap();
            if !s.success() {
                return Event::Done(Err(format!("the process ended with {}", s)));
            }
            return Event::Exit;
        }
        match (&l[..1], &l[1..]) {
            ("p", x) => Event::Point(x.into()),
            ("b", _) => Event::Begin,
            ("t", _) => Event::Done(Ok(true)),
            ("f", _) => Event::Done(Ok(false)),
            (_, x) => Event::Done(Err(x.into())),
        }
    }

    pub fn go(&mut self) {
        let _ = self.to.write_all(b"g");
    }

    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.over = true;
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        if !self.over {
            self.kill();
        }
    }
}

struct Stepped {
    now: Cell<u64>,
    calls: Cell<u32>,
}

fn say(line: &str) {
    let mut l = line.replace('\n', " ");
    l.push('\n');
    let mut b = l.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(1, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            unsafe { libc::_exit(3) }
        }
        b = &b[n as usize..];
    }
}

fn wait() {
    let mut b = [0u8];
    if unsafe { libc::read(0, b.as_mut_ptr() as *mut _, 1) } != 1 {
        unsafe { libc::_exit(3) }
    }
}

impl Env for Stepped {
    fn call(&self, op: &Op) -> Ans {
        if !crate::sched::all_points(op) {
            return Ans::Go;
        }
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > 5000 {
            say("e no end after 5000 system calls");
            unsafe { libc::_exit(0) }
        }
        say(&format!("p{}", op.name()));
        wait();
        Ans::Go
    }
    fn clock(&self) -> u64 {
        self.now.set(self.now.get() + 1_000);
        self.now.get()
    }
}

/// The body of one such process.
pub fn main(dotgit: &Path, objs: &Path, pid: &str, acts: &[&str]) {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    crate::interpose::set_pid(pid.parse().unwrap());
    let db = ObjectDatabase::open(dotgit);
    let env = Stepped { now: Cell::new(1_000_000_000_000), calls: Cell::new(0) };
    for a in acts {
        let bytes = std::fs::read(objs.join(&a[1..])).unwrap();
        let id = sha1(&bytes);
        say("pbegin");
        wait();
        say("b");
        let store = a.starts_with('S');
        let r = with_env(&env, || {
            crate::explorer::guarded(|| {
                if store {
                    match db.write_object(&bytes) {
                        Ok(i) if i == repo::id(&id) => Ok(true),
                        Ok(i) => Err(format!("returned {}", i)),
                        Err(e) => Err(repo::err_text(&e)),
                    }
                } else {
                    match repo::raw(&db, &id) {
                        Ok(v) if v == bytes => Ok(true),
                        Ok(v) => Err(format!("read {} bytes", v.len())),
                        Err(Obs::NotFound) => Ok(false),
                        Err(e) => Err(e.short()),
                    }
                }
            })
        });
        quiet(|| match r {
            Ok(Ok(true)) => say("t"),
            Ok(Ok(false)) => say("f"),
            Ok(Err(e)) => say(&format!("e{}", e)),
            Err(p) => say(&format!("epanic: {}", p)),
        });
    }
}

/// Runs one process to its end without interruption.
pub fn alone(dotgit: &Path, objs: &Path, pid: u32, acts: &[Act]) -> Result<Vec<bool>, Violation> {
    let mut p = Proc::start(dotgit, objs, pid, acts);
    let mut v = vec![];
    loop {
        match p.next() {
            Event::Point(_) => p.go(),
            Event::Begin => (),
            Event::Done(Ok(b)) => v.push(b),
            Event::Done(Err(e)) => {
                let r: Res = fail("process", format!("a process running {:?}: {}", acts, e));
                return Err(r.unwrap_err());
            }
            Event::Exit => return Ok(v),
        }
    }
}
