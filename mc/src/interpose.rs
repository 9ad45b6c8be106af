//! libc calls made by the code under test, interposed by defining the symbols in this executable.
//! A thread that has an environment (`with_env`) asks it before every call; every other thread, and
//! harness code inside `quiet`, goes straight to libc.
#![allow(clippy::missing_safety_doc)]

use libc::{c_char, c_int, c_long, c_uint, c_void, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::ffi::CStr;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Open { path: PathBuf, flags: c_int },
    Read { fd: c_int, len: usize },
    Write { fd: c_int, data: *const u8, len: usize },
    Lseek { fd: c_int, off: i64, whence: c_int },
    Rename { from: PathBuf, to: PathBuf },
    Link { from: PathBuf, to: PathBuf },
    Unlink { path: PathBuf },
    Mkdir { path: PathBuf },
    Rmdir { path: PathBuf },
    Fsync { fd: c_int },
    Ftruncate { fd: c_int, len: i64 },
    Stat { path: PathBuf },
    Fstat { fd: c_int },
    Opendir { path: PathBuf },
    Readdir,
    Utimens { path: PathBuf },
    Close { fd: c_int },
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::Open { .. } => "open",
            Op::Read { .. } => "read",
            Op::Write { .. } => "write",
            Op::Lseek { .. } => "lseek",
            Op::Rename { .. } => "rename",
            Op::Link { .. } => "link",
            Op::Unlink { .. } => "unlink",
            Op::Mkdir { .. } => "mkdir",
            Op::Rmdir { .. } => "rmdir",
            Op::Fsync { .. } => "fsync",
            Op::Ftruncate { .. } => "ftruncate",
            Op::Stat { .. } => "stat",
            Op::Fstat { .. } => "fstat",
            Op::Opendir { .. } => "opendir",
            Op::Readdir => "readdir",
            Op::Utimens { .. } => "utimens",
            Op::Close { .. } => "close",
        }
    }
    pub fn path(&self) -> Option<&Path> {
        match self {
            Op::Open { path, .. }
            | Op::Unlink { path }
            | Op::Mkdir { path }
            | Op::Rmdir { path }
            | Op::Stat { path }
            | Op::Opendir { path }
            | Op::Utimens { path } => Some(path),
            Op::Rename { from, .. } | Op::Link { from, .. } => Some(from),
            _ => None,
        }
    }
    /// Does the call change the file system?
    pub fn mutates(&self) -> bool {
        match self {
            Op::Open { flags, .. } => flags & (libc::O_CREAT | libc::O_TRUNC) != 0,
            Op::Write { .. }
            | Op::Rename { .. }
            | Op::Link { .. }
            | Op::Unlink { .. }
            | Op::Mkdir { .. }
            | Op::Rmdir { .. }
            | Op::Fsync { .. }
            | Op::Ftruncate { .. }
            | Op::Utimens { .. } => true,
            _ => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ans {
    Go,
    Fail(c_int),
    /// read or write at most this many bytes
    Short(usize),
}

pub trait Env {
    /// Before a call; may block (scheduler), fail the call, or shorten it.
    fn call(&self, op: &Op) -> Ans;
    fn done(&self, _op: &Op, _ret: i64) {}
    /// Virtual monotonic time in nanoseconds.
    fn clock(&self) -> u64;
    /// futex(addr, op, val): Some(result or -errno) when handled.
    fn futex(&self, _addr: usize, op: c_int, _val: u32) -> Option<i64> {
        if op & 0x7f == libc::FUTEX_WAIT || op & 0x7f == libc::FUTEX_WAIT_BITSET {
            crate::explorer::fatal("self-deadlock: the only thread waits for a lock it holds");
        }
        Some(0)
    }
    /// A file system that does not tell the types of entries.
    fn hide_types(&self) -> bool {
        false
    }
    /// A lock acquisition of the concurrent map.
    fn map_point(&self) {}
    /// A lock of the concurrent map was released.
    fn map_released(&self) {}
    /// Spinning on a lock of the concurrent map, or yielding.
    fn spin(&self) {
        crate::explorer::fatal("self-deadlock: the only thread spins on a map lock it holds");
    }
    fn yielded(&self) {}
    fn slept(&self, _nanos: u64) {}
}

thread_local! {
    static CTX: Cell<Option<*const (dyn Env + 'static)>> = const { Cell::new(None) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

pub fn with_env<R>(env: &dyn Env, f: impl FnOnce() -> R) -> R {
    struct Restore(Option<*const (dyn Env + 'static)>);
    impl Drop for Restore {
        fn drop(&mut self) {
            CTX.with(|c| c.set(self.0));
        }
    }
    let p: *const (dyn Env + '_) = env;
    let p: *const (dyn Env + 'static) = unsafe { std::mem::transmute(p) };
    let _r = Restore(CTX.with(|c| c.replace(Some(p))));
    f()
}

/// Harness code: calls go straight to libc.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            BUSY.with(|c| c.set(self.0));
        }
    }
    let _r = Restore(BUSY.with(|b| b.replace(true)));
    f()
}

pub fn reset() {
    CTX.with(|c| c.set(None));
    BUSY.with(|c| c.set(false));
}

fn env() -> Option<&'static dyn Env> {
    if BUSY.try_with(|b| b.get()).unwrap_or(true) {
        return None;
    }
    CTX.try_with(|c| c.get()).ok().flatten().map(|p| unsafe { &*p })
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
fn errno() -> c_int {
    unsafe { *libc::__errno_location() }
}

fn around(
    mk: impl FnOnce() -> Op,
    real: impl FnOnce(Option<usize>) -> i64,
) -> i64 {
    match env() {
        None => real(None),
        Some(e) => {
            let op = mk();
            let ans = quiet(|| e.call(&op));
            let ret = match ans {
                Ans::Go => real(None),
                Ans::Short(n) => real(Some(n)),
                Ans::Fail(code) => {
                    set_errno(code);
                    -1
                }
            };
            let saved = errno();
            quiet(|| e.done(&op, if ret == -1 { -(saved as i64) } else { ret }));
            set_errno(saved);
            ret
        }
    }
}

macro_rules! real {
    ($name:literal, fn($($t:ty),*) -> $r:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            if p == 0 { libc::abort() }
            P.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(p)
    }};
}

unsafe fn pb(p: *const c_char) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    PathBuf::from(std::ffi::OsStr::from_bytes(CStr::from_ptr(p).to_bytes()))
}

fn fd_path(dir: c_int, p: PathBuf) -> PathBuf {
    if p.is_absolute() || dir == libc::AT_FDCWD {
        p
    } else {
        std::fs::read_link(format!("/proc/self/fd/{}", dir))
            .map(|d| d.join(&p))
            .unwrap_or(p)
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    around(
        || Op::Open { path: pb(path), flags },
        |_| real!("open64", fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    around(
        || Op::Open { path: quiet(|| fd_path(d, pb(path))), flags },
        |_| real!("openat64", fn(c_int, *const c_char, c_int, c_uint) -> c_int)(d, path, flags, mode) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    around(
        || Op::Read { fd, len: n },
        |s| real!("read", fn(c_int, *mut c_void, size_t) -> ssize_t)(fd, buf, s.unwrap_or(n).min(n)) as i64,
    ) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    around(
        || Op::Read { fd, len: n },
        |s| real!("pread64", fn(c_int, *mut c_void, size_t, off64_t) -> ssize_t)(fd, buf, s.unwrap_or(n).min(n), off) as i64,
    ) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    around(
        || Op::Write { fd, data: buf as *const u8, len: n },
        |s| real!("write", fn(c_int, *const c_void, size_t) -> ssize_t)(fd, buf, s.unwrap_or(n).min(n)) as i64,
    ) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    around(
        || Op::Write { fd, data: buf as *const u8, len: n },
        |s| real!("pwrite64", fn(c_int, *const c_void, size_t, off64_t) -> ssize_t)(fd, buf, s.unwrap_or(n).min(n), off) as i64,
    ) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    match first_iov(iov, n) {
        Some(v) if env().is_some() => read(fd, v.iov_base, v.iov_len),
        _ => real!("readv", fn(c_int, *const libc::iovec, c_int) -> ssize_t)(fd, iov, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    match first_iov(iov, n) {
        // a partial vectored write is legal, so it becomes a plain write of the first part
        Some(v) if env().is_some() => write(fd, v.iov_base, v.iov_len),
        _ => real!("writev", fn(c_int, *const libc::iovec, c_int) -> ssize_t)(fd, iov, n),
    }
}
unsafe fn first_iov(iov: *const libc::iovec, n: c_int) -> Option<libc::iovec> {
    (0..n as usize).map(|i| *iov.add(i)).find(|v| v.iov_len > 0)
}
/// The standard library falls back to read/write (which are interposed) on ENOSYS.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut c_void, c: c_int, d: *mut c_void, n: size_t, f: c_uint) -> ssize_t {
    if env().is_some() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    real!("copy_file_range", fn(c_int, *mut c_void, c_int, *mut c_void, size_t, c_uint) -> ssize_t)(a, b, c, d, n, f)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut c_void, n: size_t) -> ssize_t {
    if env().is_some() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    real!("sendfile64", fn(c_int, c_int, *mut c_void, size_t) -> ssize_t)(a, b, o, n)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    around(
        || Op::Lseek { fd, off, whence },
        |_| real!("lseek64", fn(c_int, off64_t, c_int) -> off64_t)(fd, off, whence),
    )
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    around(
        || Op::Rename { from: pb(a), to: pb(b) },
        |_| real!("rename", fn(*const c_char, *const c_char) -> c_int)(a, b) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    around(
        || Op::Rename { from: quiet(|| fd_path(d1, pb(a))), to: quiet(|| fd_path(d2, pb(b))) },
        |_| real!("renameat", fn(c_int, *const c_char, c_int, *const c_char) -> c_int)(d1, a, d2, b) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    around(
        || Op::Link { from: pb(a), to: pb(b) },
        |_| real!("link", fn(*const c_char, *const c_char) -> c_int)(a, b) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_int) -> c_int {
    around(
        || Op::Link { from: quiet(|| fd_path(d1, pb(a))), to: quiet(|| fd_path(d2, pb(b))) },
        |_| real!("linkat", fn(c_int, *const c_char, c_int, *const c_char, c_int) -> c_int)(d1, a, d2, b, f) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    around(
        || Op::Unlink { path: pb(a) },
        |_| real!("unlink", fn(*const c_char) -> c_int)(a) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, f: c_int) -> c_int {
    around(
        || Op::Unlink { path: quiet(|| fd_path(d, pb(a))) },
        |_| real!("unlinkat", fn(c_int, *const c_char, c_int) -> c_int)(d, a, f) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: libc::mode_t) -> c_int {
    around(
        || Op::Mkdir { path: pb(a) },
        |_| real!("mkdir", fn(*const c_char, libc::mode_t) -> c_int)(a, m) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    around(
        || Op::Rmdir { path: pb(a) },
        |_| real!("rmdir", fn(*const c_char) -> c_int)(a) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    around(
        || Op::Fsync { fd },
        |_| real!("fsync", fn(c_int) -> c_int)(fd) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    around(
        || Op::Fsync { fd },
        |_| real!("fdatasync", fn(c_int) -> c_int)(fd) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    around(
        || Op::Ftruncate { fd, len },
        |_| real!("ftruncate64", fn(c_int, off64_t) -> c_int)(fd, len) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    around(
        || Op::Close { fd },
        |_| real!("close", fn(c_int) -> c_int)(fd) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, f: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    around(
        || {
            if path.is_null() || *path == 0 {
                Op::Fstat { fd: d }
            } else {
                Op::Stat { path: quiet(|| fd_path(d, pb(path))) }
            }
        },
        |_| real!("statx", fn(c_int, *const c_char, c_int, c_uint, *mut c_void) -> c_int)(d, path, f, mask, buf) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut c_void) -> c_int {
    around(
        || Op::Stat { path: pb(path) },
        |_| real!("stat64", fn(*const c_char, *mut c_void) -> c_int)(path, buf) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut c_void) -> c_int {
    around(
        || Op::Stat { path: pb(path) },
        |_| real!("lstat64", fn(*const c_char, *mut c_void) -> c_int)(path, buf) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut c_void) -> c_int {
    around(
        || Op::Fstat { fd },
        |_| real!("fstat64", fn(c_int, *mut c_void) -> c_int)(fd, buf) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, m: c_int) -> c_int {
    around(
        || Op::Stat { path: pb(path) },
        |_| real!("access", fn(*const c_char, c_int) -> c_int)(path, m) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, path: *const c_char, m: c_int, f: c_int) -> c_int {
    around(
        || Op::Stat { path: quiet(|| fd_path(d, pb(path))) },
        |_| real!("faccessat", fn(c_int, *const c_char, c_int, c_int) -> c_int)(d, path, m, f) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, path: *const c_char, t: *const c_void, f: c_int) -> c_int {
    around(
        || Op::Utimens { path: if path.is_null() { PathBuf::new() } else { pb(path) } },
        |_| real!("utimensat", fn(c_int, *const c_char, *const c_void, c_int) -> c_int)(d, path, t, f) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const c_void) -> c_int {
    around(
        || Op::Utimens { path: quiet(|| fd_path(fd, PathBuf::from(format!("/proc/self/fd/{}", fd)))) },
        |_| real!("futimens", fn(c_int, *const c_void) -> c_int)(fd, t) as i64,
    ) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    around(
        || Op::Opendir { path: pb(path) },
        |_| {
            let p = real!("opendir", fn(*const c_char) -> *mut c_void)(path) as i64;
            if p == 0 {
                -1
            } else {
                p
            }
        },
    )
    .max(0) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    // a null result with errno 0 is the end; -1 stands for an injected failure
    let r = around(
        || Op::Readdir,
        |_| {
            set_errno(0);
            real!("readdir64", fn(*mut c_void) -> *mut c_void)(d) as i64
        },
    );
    if r == -1 {
        std::ptr::null_mut()
    } else {
        if r == 0 {
            set_errno(0);
        } else if env().is_some_and(|e| quiet(|| e.hide_types())) {
            (*(r as *mut libc::dirent64)).d_type = libc::DT_UNKNOWN;
        }
        r as *mut c_void
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if id == libc::CLOCK_MONOTONIC || id == libc::CLOCK_MONOTONIC_RAW || id == libc::CLOCK_BOOTTIME {
        if let Some(e) = env() {
            let t = quiet(|| e.clock());
            (*ts).tv_sec = (t / 1_000_000_000) as i64;
            (*ts).tv_nsec = (t % 1_000_000_000) as i64;
            return 0;
        }
    }
    real!("clock_gettime", fn(libc::clockid_t, *mut libc::timespec) -> c_int)(id, ts)
}
static PID: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
/// From now on this process takes its id for this.
pub fn set_pid(n: i32) {
    PID.store(n, Ordering::Relaxed);
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    match PID.load(Ordering::Relaxed) {
        0 => real!("getpid", fn() -> libc::pid_t)(),
        n => n,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(e) = env() {
        quiet(|| e.yielded());
        return 0;
    }
    real!("sched_yield", fn() -> c_int)()
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if let Some(e) = env() {
        let n = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        quiet(|| e.slept(n));
        return 0;
    }
    real!("nanosleep", fn(*const libc::timespec, *mut libc::timespec) -> c_int)(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    fl: c_int,
    a: *const libc::timespec,
    b: *mut libc::timespec,
) -> c_int {
    if let Some(e) = env() {
        let n = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        quiet(|| e.slept(if fl == 0 { n } else { 1_000_000 }));
        return 0;
    }
    real!("clock_nanosleep", fn(libc::clockid_t, c_int, *const libc::timespec, *mut libc::timespec) -> c_int)(id, fl, a, b)
}
#[no_mangle]
pub unsafe extern "C" fn syscall(
    num: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if num == libc::SYS_futex {
        if let Some(env) = env() {
            if let Some(r) = quiet(|| env.futex(a as usize, b as c_int, c as u32)) {
                if r < 0 {
                    set_errno(-r as c_int);
                    return -1;
                }
                return r as c_long;
            }
        }
    }
    real!("syscall", fn(c_long, c_long, c_long, c_long, c_long, c_long, c_long) -> c_long)(num, a, b, c, d, e, f)
}

pub fn install() {
    fn point() {
        if let Some(e) = env() {
            quiet(|| e.map_point())
        }
    }
    fn spin() {
        match env() {
            Some(e) => quiet(|| e.spin()),
            None => {
                thread_local! { static N: Cell<u64> = const { Cell::new(0) }; }
                let n = N.with(|c| {
                    c.set(c.get() + 1);
                    c.get()
                });
                if n > 50_000_000 {
                    crate::explorer::fatal("self-deadlock: a thread spins on a map lock it holds");
                }
                std::hint::spin_loop()
            }
        }
    }
    fn released() {
        if let Some(e) = env() {
            quiet(|| e.map_released())
        }
    }
    dashmap::mc::set_hooks(point, spin, released);
}

/// An environment that answers everything normally, with a fixed virtual clock; records opens.
pub struct Plain {
    pub now: Cell<u64>,
    pub hide: Cell<bool>,
    pub calls: Cell<u64>,
    pub limit: u64,
}
impl Plain {
    pub fn new() -> Self {
        Plain {
            now: Cell::new(1_000_000_000_000),
            hide: Cell::new(false),
            calls: Cell::new(0),
            limit: 2_000_000,
        }
    }
}
impl Env for Plain {
    fn call(&self, _op: &Op) -> Ans {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > self.limit {
            crate::explorer::fatal("runaway: more than 2000000 system calls in one execution");
        }
        Ans::Go
    }
    fn clock(&self) -> u64 {
        self.now.get()
    }
    fn hide_types(&self) -> bool {
        self.hide.get()
    }
    fn slept(&self, n: u64) {
        self.now.set(self.now.get() + n)
    }
}
