use super::gen::Obj;
use crate::explorer::*;
use crate::gitfmt::*;
use crate::interpose::{with_env, Plain};
use crate::repo::{self, Obs};
use rusty_git::object::ObjectDatabase;

/// Runs library code in the plain environment (virtual clock, runaway limit).
pub fn lib<T>(ex: &Exec, f: impl FnOnce() -> T) -> T {
    ex.step();
    let e = Plain::new();
    with_env(&e, f)
}

/// `lib` at a given virtual time (nanoseconds).
pub fn lib_at<T>(ex: &Exec, now: u64, f: impl FnOnce() -> T) -> T {
    ex.step();
    let e = Plain::new();
    e.now.set(now);
    with_env(&e, f)
}

/// `lib` on a file system that does not tell the types of directory entries.
pub fn lib_untyped<T>(ex: &Exec, f: impl FnOnce() -> T) -> T {
    ex.step();
    let e = Plain::new();
    e.hide.set(true);
    with_env(&e, f)
}

/// Reads the object through both interfaces and compares with the reference.
pub fn check_obj(ex: &Exec, db: &ObjectDatabase, o: &Obj, ctx: &dyn Fn() -> String) -> Res {
    let got = lib(ex, || repo::parse(db, &o.id));
    ex.evals(1);
    let want = Obs::Obj(o.kind, o.rendered.clone());
    if got != want {
        return fail(
            "read-differs",
            format!(
                "{}: {} {} of {} bytes reads as {}",
                ctx(),
                o.kind.name(),
                hex(&o.id),
                o.content.len(),
                got.short()
            ),
        );
    }
    check_raw(ex, db, o, ctx)
}

pub fn check_raw(ex: &Exec, db: &ObjectDatabase, o: &Obj, ctx: &dyn Fn() -> String) -> Res {
    let got = lib(ex, || repo::raw(db, &o.id));
    ex.evals(1);
    match got {
        Ok(v) if v == framed(o.kind, &o.content) => Ok(()),
        Ok(v) => fail(
            "stream-differs",
            format!(
                "{}: raw stream of {} {} has {} bytes starting {:?}, expected {}",
                ctx(),
                o.kind.name(),
                hex(&o.id),
                v.len(),
                String::from_utf8_lossy(&v[..v.len().min(24)]),
                framed(o.kind, &o.content).len()
            ),
        ),
        Err(e) => fail(
            "stream-fails",
            format!("{}: read_object of {} {} gives {}", ctx(), o.kind.name(), hex(&o.id), e.short()),
        ),
    }
}
