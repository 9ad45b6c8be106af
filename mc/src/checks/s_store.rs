//! S01 (histories of stores), S02 (crashes and faults during a store), S03 (concurrent stores).
use super::util::*;
use crate::ensure;
use crate::explorer::*;
use crate::gitfmt::*;
use crate::interpose::{quiet, with_env, Ans, Env, Op};
use crate::repo::{self, *};
use crate::sched;
use rusty_git::object::ObjectDatabase;
use crate::procs::{Act, Event, Proc};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

/// A blob object (framed) of `n` content bytes whose id starts with the byte `first`, if asked for.
fn framed_blob(n: usize, seed: u64, noisy: bool, first: Option<u8>) -> Vec<u8> {
    type Made = std::collections::HashMap<(usize, u64, bool, Option<u8>), Vec<u8>>;
    static MADE: std::sync::OnceLock<std::sync::Mutex<Made>> = std::sync::OnceLock::new();
    let made = MADE.get_or_init(Default::default);
    let key = (n, seed, noisy, first);
    let found = made.lock().unwrap().get(&key).cloned();
    found.unwrap_or_else(|| {
        let v = find_blob(n, seed, noisy, first);
        made.lock().unwrap().insert(key, v.clone());
        v
    })
}

fn find_blob(n: usize, seed: u64, noisy: bool, first: Option<u8>) -> Vec<u8> {
    for s in 0.. {
        let c = if noisy {
            noise(seed + 1000 * s, n)
        } else {
            let mut v = vec![b'a' + (seed % 26) as u8; n];
            for (i, b) in s.to_string().bytes().enumerate() {
                if i < n {
                    v[i] = b
                }
            }
            v
        };
        let f = framed(Kind::Blob, &c);
        if first.map_or(true, |x| sha1(&f)[0] == x) {
            return f;
        }
    }
    unreachable!()
}

fn write(db: &ObjectDatabase, bytes: &[u8]) -> Result<Oid, String> {
    match db.write_object(bytes) {
        Ok(i) => {
            let h = i.to_hex();
            let mut o = [0u8; 20];
            if h.len() != 40 {
                return Err(format!("id printed as {}", h));
            }
            for (i, b) in o.iter_mut().enumerate() {
                *b = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).map_err(|e| e.to_string())?;
            }
            Ok(o)
        }
        Err(e) => Err(err_text(&e)),
    }
}

fn unzlib(file: &[u8]) -> Result<Vec<u8>, String> {
    use std::io::Read;
    let mut d = flate2::bufread::ZlibDecoder::new(file);
    let mut v = vec![];
    d.read_to_end(&mut v).map_err(|e| e.to_string())?;
    if !d.into_inner().is_empty() {
        return Err("bytes after the zlib stream".into());
    }
    // the stream must be complete, including its checksum
    let n = file.len();
    if n < 6 || adler32(&v).to_be_bytes() != file[n - 4..] {
        return Err("checksum".into());
    }
    Ok(v)
}

/// Git's loose layout, checked without the library.
fn check_layout(r: &Repo, id: &Oid, bytes: &[u8], ctx: &dyn Fn() -> String) -> Res {
    let p = r.loose_path(id);
    let f = match std::fs::read(&p) {
        Ok(f) => f,
        Err(e) => return fail("layout", format!("{}: {} is not there: {}", ctx(), p.display(), e)),
    };
    match unzlib(&f) {
        Ok(v) if v == bytes => Ok(()),
        Ok(v) => fail("layout", format!("{}: the file holds {} bytes, expected {}", ctx(), v.len(), bytes.len())),
        Err(e) => fail("layout", format!("{}: the file of {} bytes is damaged: {}", ctx(), f.len(), e)),
    }
}

// ---- S01 ----

pub fn s01(ex: &Exec) -> Res {
    match ex.choose(5) {
        4 => dropped(ex),
        3 => super::scale::stores(ex),
        0 => sizes(ex),
        1 => sequences(ex),
        _ => with_git(ex),
    }
}

/// every size around the buffers used on the way
fn sizes(ex: &Exec) -> Res {
    let mut all: Vec<usize> = (0..70).collect();
    for b in [128usize, 256, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65535, 131072, 262144, 1 << 20] {
        all.extend([b - 2, b - 1, b, b + 1, b + 17]);
    }
    all.extend([(1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    if !ex.quick() {
        all.extend([99_999_999, 100_000_001, (1 << 28) + 1]);
    }
    let n = *ex.pick(&all);
    let style = ex.choose(4);
    let bytes: Vec<u8> = match style {
        0 => noise(n as u64 + 1, n),
        1 => vec![0; n],
        2 => (0..n).map(|i| (i / 7) as u8).collect(),
        _ => framed(Kind::Blob, &noise(n as u64, n)),
    };
    let r = if ex.flag() { Repo::new(ex.fresh_dir()) } else { Repo::bare_bones(ex.fresh_dir()) };
    let want = sha1(&bytes);
    let ctx = || format!("storing {} bytes (style {})", bytes.len(), style);
    let db = r.db();
    let got = lib(ex, || write(&db, &bytes));
    ensure!(got == Ok(want), "store", "{}: returned {:?}, expected {}", ctx(), got.map(|o| hex(&o)), hex(&want));
    check_layout(&r, &want, &bytes, &ctx)?;
    for (name, h) in [("same", &db), ("fresh", &r.db())] {
        let got = lib(ex, || repo::raw(h, &want));
        ex.evals(1);
        ensure!(
            got.as_ref() == Ok(&bytes),
            "readback",
            "{}: the {} handle reads {:?}",
            ctx(),
            name,
            got.map(|v| v.len()).map_err(|e| e.short())
        );
    }
    if style == 3 {
        let got = lib(ex, || repo::parse(&db, &want));
        ensure!(got.class() == "object", "readback", "{}: parses as {}", ctx(), got.short());
    }
    ex.state(&(n, style));
    ex.describe(ctx);
    Ok(())
}

/// every sequence of stores and reads on old and new handles
fn sequences(ex: &Exec) -> Res {
    let depth = if ex.quick() { 4 } else { 5 };
    let objs: Vec<Vec<u8>> = vec![
        framed_blob(30, 1, false, Some(0x11)),
        framed_blob(30, 2, false, Some(0x11)),
        b"not an object".to_vec(),
        framed_blob(40_000, 3, true, None),
        vec![],
    ];
    let ids: Vec<Oid> = objs.iter().map(|o| sha1(o)).collect();
    let n = objs.len();
    let r = Repo::new(ex.fresh_dir());
    // an object git stored with another compression level, or packed
    let pre = ex.choose(3);
    let mut files: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    let mut known = [false; 5];
    match pre {
        1 => {
            let f = zlib(&objs[0], 1);
            r.put_loose_raw(&ids[0], &f);
            files.insert(0, f);
            known[0] = true;
        }
        2 => {
            r.put_pack(2, 2, &[PackEntry::whole(Kind::Blob, &objs[0][8..])]);
            known[0] = true;
            debug_assert_eq!(framed(Kind::Blob, &objs[0][8..]), objs[0]);
        }
        _ => {}
    }
    let db = r.db();
    let mut hist: Vec<String> = vec![];
    let old = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
    for step in 0..depth {
        // last step: read everything below instead of one more read
        let k = ex.choose(if step + 1 == depth { 2 * n } else { 3 * n });
        let (op, i) = (k / n, k % n);
        let before: BTreeMap<String, Vec<u8>> = snapshot(&r);
        match op {
            0 | 1 => {
                hist.push(format!("store{}({})", if op == 1 { "-new-handle" } else { "" }, i));
                let p = r.loose_path(&ids[i]);
                let had = p.exists();
                if had {
                    set_mtime(&p, old);
                }
                let got = if op == 0 {
                    lib(ex, || write(&db, &objs[i]))
                } else {
                    lib(ex, || write(&r.db(), &objs[i]))
                };
                ensure!(got == Ok(ids[i]), "store", "{:?}: store gives {:?}", hist, got.map(|o| hex(&o)));
                if had {
                    let m = std::fs::metadata(&p).and_then(|m| m.modified());
                    ensure!(
                        m.as_ref().map(|m| *m > old + std::time::Duration::from_secs(86400)).unwrap_or(false),
                        "mtime",
                        "{:?} (start {}): the modification time was not refreshed: {:?}",
                        hist,
                        pre,
                        m
                    );
                }
                let m0 = std::fs::metadata(&p).and_then(|m| m.modified());
                if let (false, 1, Ok(m0)) = (had, op, m0) {
                    // at once again: it may not look older than before
                    let got = lib(ex, || write(&db, &objs[i]));
                    ensure!(got == Ok(ids[i]), "store", "{:?}, and again: store gives {:?}", hist, got.map(|o| hex(&o)));
                    let m = std::fs::metadata(&p).and_then(|m| m.modified());
                    ensure!(
                        m.as_ref().map(|m| *m >= m0).unwrap_or(false),
                        "mtime",
                        "{:?}, and again (start {}): the modification time went back from {:?} to {:?}",
                        hist,
                        pre,
                        m0,
                        m
                    );
                }
                known[i] = true;
                // an object stored already keeps its file, and nothing else changed
                let after = snapshot(&r);
                for (name, f) in &before {
                    let same = after.get(name) == Some(f);
                    ensure!(same, "overwritten", "{:?} (start {}): {} was changed by the store", hist, pre, name);
                }
                for name in after.keys() {
                    let h = hex(&ids[i]);
                    ensure!(
                        before.contains_key(name) || *name == format!("{}/{}", &h[..2], &h[2..]),
                        "litter",
                        "{:?} (start {}): the store left {} behind",
                        hist,
                        pre,
                        name
                    );
                }
                if pre != 2 || i != 0 {
                    check_layout(&r, &ids[i], &objs[i], &|| format!("{:?}", hist))?;
                }
            }
            _ => {
                hist.push(format!("read({})", i));
                read(ex, &db, &ids[i], if known[i] { Some(&objs[i]) } else { None }, &hist, pre)?;
            }
        }
        ex.state(&(pre, &hist));
    }
    for i in 0..n {
        read(ex, &db, &ids[i], if known[i] { Some(&objs[i]) } else { None }, &hist, pre)?;
        read(ex, &r.db(), &ids[i], if known[i] { Some(&objs[i]) } else { None }, &hist, pre)?;
    }
    ex.describe(|| format!("start {} history {:?}", pre, hist));
    Ok(())
}

/// Objects that were packed or pruned before they are stored: a store makes them exist again,
/// whatever the handle has seen.
fn dropped(ex: &Exec) -> Res {
    let depth = if ex.quick() { 5 } else { 7 };
    let objs = [framed_blob(30, 1, false, Some(0x11)), framed_blob(300, 2, true, Some(0x11))];
    let ids: Vec<Oid> = objs.iter().map(|o| sha1(o)).collect();
    let r = Repo::new(ex.fresh_dir());
    let start = ex.choose(3); // none, both in a pack, both loose
    let body = |i: usize| -> &[u8] { &objs[i][objs[i].iter().position(|b| *b == 0).unwrap() + 1..] };
    let mut serial = 0u32;
    let mut packs: Vec<String> = vec![];
    let mut packed = [false; 2];
    let mut pack = |which: [bool; 2], packs: &mut Vec<String>| {
        serial += 1;
        let mut es: Vec<PackEntry> = (0..2).filter(|i| which[*i]).map(|i| PackEntry::whole(Kind::Blob, body(i))).collect();
        es.push(PackEntry::whole(Kind::Blob, format!("filler {}", serial).as_bytes()));
        let p = r.put_pack(2, 2, &es);
        packs.push(hex(&p.id));
    };
    let unlink = |packs: &mut Vec<String>| {
        for n in packs.drain(..) {
            for e in ["idx", "pack"] {
                std::fs::remove_file(r.pack_path(&n, e)).unwrap();
            }
        }
    };
    match start {
        1 => {
            pack([true; 2], &mut packs);
            packed = [true; 2];
        }
        2 => (0..2).for_each(|i| drop(r.put_loose(Kind::Blob, body(i)))),
        _ => (),
    }
    let db = r.db();
    let mut now = 1_000_000_000_000u64;
    let mut hist: Vec<&'static str> = vec![];
    let exists = |i: usize, packed: &[bool; 2]| packed[i] || r.loose_path(&ids[i]).exists();
    let look = |i: usize, fresh: bool, now: u64, packed: &[bool; 2], hist: &[&'static str]| -> Res {
        ex.evals(1);
        let got = if fresh { lib_at(ex, now, || repo::raw(&r.db(), &ids[i])) } else { lib_at(ex, now, || repo::raw(&db, &ids[i])) };
        let ok = match (&got, exists(i, packed)) {
            (Ok(g), true) => *g == objs[i],
            (Err(Obs::NotFound), false) => true,
            // the handle may have the removed pack open
            (Ok(g), false) => !fresh && *g == objs[i],
            _ => false,
        };
        ensure!(
            ok,
            "readback",
            "start {} history {:?}: reading object {} through the {} handle gives {:?}",
            start,
            hist,
            i,
            if fresh { "fresh" } else { "same" },
            got.map(|v| v.len()).map_err(|e| e.short())
        );
        Ok(())
    };
    for _ in 0..depth {
        match ex.choose(8) {
            k @ (0 | 1) => {
                hist.push(["store-0", "store-1"][k]);
                let got = lib_at(ex, now, || write(&db, &objs[k]));
                ensure!(got == Ok(ids[k]), "store", "start {} history {:?}: store gives {:?}", start, hist, got.map(|o| hex(&o)));
                look(k, true, now, &packed, &hist)?;
                ensure!(exists(k, &packed), "lost", "start {} history {:?}: object {} is in no file", start, hist, k);
            }
            k @ (2 | 3) => {
                hist.push(["read-0", "read-1"][k - 2]);
                look(k - 2, false, now, &packed, &hist)?;
            }
            4 => {
                hist.push("repack");
                let which = [exists(0, &packed), exists(1, &packed)];
                let mut old = std::mem::take(&mut packs);
                pack(which, &mut packs);
                packed = which;
                unlink(&mut old);
                for i in ids.iter() {
                    let _ = std::fs::remove_file(r.loose_path(i));
                }
            }
            5 => {
                if packs.is_empty() {
                    ex.prune();
                }
                hist.push("drop-packs");
                unlink(&mut packs);
                packed = [false; 2];
            }
            6 => {
                hist.push("prune-loose");
                let mut any = false;
                for i in ids.iter() {
                    any |= std::fs::remove_file(r.loose_path(i)).is_ok();
                    let _ = std::fs::remove_dir(r.loose_path(i).parent().unwrap());
                }
                if !any {
                    ex.prune();
                }
            }
            _ => {
                hist.push("3s");
                now += 3_000_000_000;
            }
        }
        ex.state(&("dropped", start, &hist));
    }
    for i in 0..2 {
        look(i, false, now, &packed, &hist)?;
        look(i, true, now, &packed, &hist)?;
    }
    ex.describe(|| format!("start {} history {:?}", start, hist));
    Ok(())
}

fn read(ex: &Exec, db: &ObjectDatabase, id: &Oid, want: Option<&Vec<u8>>, hist: &[String], pre: usize) -> Res {
    ex.evals(1);
    let got = lib(ex, || repo::raw(db, id));
    let ok = match (&got, want) {
        (Ok(g), Some(w)) => g == w,
        (Err(Obs::NotFound), None) => true,
        _ => false,
    };
    ensure!(
        ok,
        "readback",
        "{:?} (start {}): reading {} gives {:?}, expected {:?} bytes",
        hist,
        pre,
        hex(id),
        got.map(|v| v.len()).map_err(|e| e.short()),
        want.map(|w| w.len())
    );
    Ok(())
}

fn set_mtime(p: &Path, t: std::time::SystemTime) {
    let f = std::fs::File::options().write(true).open(p).unwrap();
    f.set_modified(t).unwrap();
}

/// every file below objects/
fn snapshot(r: &Repo) -> BTreeMap<String, Vec<u8>> {
    let o = r.dotgit.join("objects");
    repo::list(&o).into_iter().map(|n| (n.clone(), std::fs::read(o.join(&n)).unwrap_or_default())).collect()
}

/// git reads what the library stored and the other way round
fn with_git(ex: &Exec) -> Res {
    let sizes: &[usize] = if ex.quick() { &[0, 1, 100, 8191, 70_000] } else { &[0, 1, 2, 55, 100, 4096, 8191, 8192, 8193, 32768, 70_000, 300_000] };
    let n = *ex.pick(sizes);
    let noisy = ex.flag();
    let kind = *ex.pick(&[Kind::Blob, Kind::Commit, Kind::Tag, Kind::Tree]);
    if !git_ok() {
        ex.count("git unavailable", 1);
        return Ok(());
    }
    let o = super::gen::obj(kind, n, 5 + n as u64, noisy);
    let f = framed(kind, &o.content);
    let r = Repo::new(ex.fresh_dir());
    let db = r.db();
    let got = lib(ex, || write(&db, &f));
    ensure!(got == Ok(o.id), "store", "storing a {} of {} bytes gives {:?}", kind.name(), o.content.len(), got.map(|o| hex(&o)));
    let out = git(&r, &["cat-file", kind.name(), &hex(&o.id)], b"");
    ensure!(
        out.as_ref() == Ok(&o.content),
        "git",
        "git cat-file of a stored {} of {} bytes: {:?}",
        kind.name(),
        o.content.len(),
        out.map(|v| v.len())
    );
    ex.count("objects read by git", 1);
    if kind == Kind::Blob {
        let c = [&o.content[..], b"2"].concat();
        let out = git(&r, &["hash-object", "-w", "--stdin"], &c);
        let h = out.map(|v| String::from_utf8_lossy(&v).trim().to_string());
        let id2 = oid(Kind::Blob, &c);
        ensure!(h == Ok(hex(&id2)), "harness", "git hash-object gives {:?}", h);
        let got = lib(ex, || repo::raw(&db, &id2));
        ensure!(got == Ok(framed(Kind::Blob, &c)), "git", "a blob of {} bytes stored by git reads differently", c.len());
        // storing what git stored changes nothing
        let p = r.loose_path(&id2);
        let before = std::fs::read(&p).unwrap();
        let got = lib(ex, || write(&db, &framed(Kind::Blob, &c)));
        ensure!(got == Ok(id2), "store", "storing git's object again gives {:?}", got);
        ensure!(std::fs::read(&p).ok() == Some(before), "overwritten", "storing git's object again changed its file");
    }
    ex.state(&(kind, n, noisy));
    ex.describe(|| format!("{} of {} bytes exchanged with git", kind.name(), n));
    Ok(())
}

// ---- S02 ----

#[derive(Default)]
struct FileState {
    path: PathBuf,
    /// bytes written since the last sync of this file
    dirty: bool,
}

/// Executes a store up to a chosen point, then nothing more reaches the file system.
struct Faulty<'a> {
    ex: &'a Exec<'a>,
    dead: Cell<bool>,
    /// may this run crash?
    crash: bool,
    calls: Cell<u64>,
    log: RefCell<Vec<String>>,
    files: RefCell<Vec<FileState>>,
    fds: RefCell<BTreeMap<i32, usize>>,
    faulted: Cell<bool>,
    /// a call that removes a file was made to fail
    stuck: Cell<bool>,
    /// the file of the object, and what another process puts there
    target: PathBuf,
    content: Vec<u8>,
    /// another process has stored the object
    other: Cell<bool>,
}

impl<'a> Faulty<'a> {
    fn new(ex: &'a Exec, crash: bool, target: PathBuf, content: Vec<u8>) -> Self {
        Faulty {
            ex,
            stuck: Cell::new(false),
            target,
            content,
            other: Cell::new(false),
            dead: Cell::new(false),
            crash,
            calls: Cell::new(0),
            log: RefCell::new(vec![]),
            files: RefCell::new(vec![]),
            fds: RefCell::new(BTreeMap::new()),
            faulted: Cell::new(false),
        }
    }
}

impl Env for Faulty<'_> {
    fn call(&self, op: &Op) -> Ans {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > 20_000 {
            fatal("runaway: more than 20000 system calls in one store");
        }
        if let Op::Close { .. } = op {
            return Ans::Go;
        }
        if self.dead.get() {
            return Ans::Fail(libc::EIO);
        }
        let at = |s: String| self.log.borrow_mut().push(format!("{} at {} #{}", s, op.name(), self.calls.get()));
        if self.crash {
            if !op.mutates() {
                return Ans::Go;
            }
            // 0: go on; 1: stop before the call; then: the write is torn
            let torn: Vec<usize> = match op {
                Op::Write { len, .. } => {
                    let mut v = vec![1, len / 2, len.saturating_sub(1)];
                    v.retain(|n| *n > 0 && n < len);
                    v.dedup();
                    v
                }
                _ => vec![],
            };
            match self.ex.choose_dev(2 + torn.len()) {
                0 => Ans::Go,
                1 => {
                    at("crash".into());
                    self.dead.set(true);
                    Ans::Fail(libc::EIO)
                }
                n => {
                    at(format!("crash after {} bytes", torn[n - 2]));
                    self.dead.set(true);
                    Ans::Short(torn[n - 2])
                }
            }
        } else {
            let errs: &[i32] = match op {
                Op::Write { .. } => &[libc::ENOSPC, libc::EIO, libc::EINTR, libc::EDQUOT],
                Op::Open { flags, .. } if flags & libc::O_CREAT != 0 => &[libc::ENOSPC, libc::EACCES, libc::EINTR, libc::EMFILE, libc::ENOENT],
                Op::Fsync { .. } => &[libc::EIO, libc::EINTR],
                Op::Mkdir { .. } => &[libc::ENOSPC, libc::EACCES, libc::ENOENT, libc::EROFS],
                Op::Rename { .. } | Op::Link { .. } => {
                    &[libc::ENOSPC, libc::EIO, libc::ENOENT, libc::EACCES, libc::EPERM, libc::EROFS]
                }
                Op::Unlink { .. } => &[libc::EIO],
                _ => &[libc::EIO],
            };
            let short: Vec<usize> = match op {
                Op::Write { len, .. } if *len > 1 => vec![1, len / 2],
                _ => vec![],
            };
            let others = !self.other.get() && !self.target.exists();
            let c = self.ex.choose_dev(1 + errs.len() + short.len() + others as usize);
            if c == 0 {
                Ans::Go
            } else if c > errs.len() + short.len() {
                at("stored by another process".into());
                let dir = self.target.parent().unwrap();
                std::fs::create_dir_all(dir).unwrap();
                let temp = dir.join("other");
                std::fs::write(&temp, &self.content).unwrap();
                std::fs::rename(&temp, &self.target).unwrap();
                self.other.set(true);
                Ans::Go
            } else if c <= errs.len() {
                at(format!("errno {}", errs[c - 1]));
                self.faulted.set(true);
                if matches!(op, Op::Unlink { .. }) {
                    self.stuck.set(true);
                }
                Ans::Fail(errs[c - 1])
            } else {
                at(format!("short write of {}", short[c - 1 - errs.len()]));
                Ans::Short(short[c - 1 - errs.len()])
            }
        }
    }
    fn done(&self, op: &Op, ret: i64) {
        if ret < 0 {
            return;
        }
        let mut files = self.files.borrow_mut();
        let mut fds = self.fds.borrow_mut();
        match op {
            Op::Open { path, flags } if flags & (libc::O_WRONLY | libc::O_RDWR) != 0 => {
                let i = match files.iter().position(|f| f.path == *path) {
                    Some(i) => i,
                    None => {
                        files.push(FileState { path: path.clone(), dirty: false });
                        files.len() - 1
                    }
                };
                fds.insert(ret as i32, i);
            }
            Op::Open { .. } => {
                fds.remove(&(ret as i32));
            }
            Op::Write { fd, .. } | Op::Ftruncate { fd, .. } => {
                if let Some(i) = fds.get(fd) {
                    files[*i].dirty = true
                }
            }
            Op::Fsync { fd } => {
                if let Some(i) = fds.get(fd) {
                    files[*i].dirty = false
                }
            }
            Op::Rename { from, to } => {
                files.iter_mut().filter(|f| f.path == *from).for_each(|f| f.path = to.clone());
            }
            Op::Link { from, to } => {
                let dirty = files.iter().any(|f| f.path == *from && f.dirty);
                files.push(FileState { path: to.clone(), dirty });
            }
            Op::Unlink { path } => files.retain(|f| f.path != *path || f.dirty && false),
            _ => {}
        }
        // descriptors of removed entries
        let n = files.len();
        fds.retain(|_, i| *i < n);
    }
    fn clock(&self) -> u64 {
        1_000_000_000_000
    }
}

/// Real processes killed at any call, one after another, each possibly under the id of the first.
fn killed(ex: &Exec) -> Res {
    let objs = [
        framed_blob(60, 1, false, Some(0x22)),
        framed_blob(40_000, 2, true, None),
        framed_blob(50, 4, false, Some(0x22)),
    ];
    let r = Repo::new(ex.fresh_dir());
    let dir = r.root.join("bytes");
    std::fs::create_dir(&dir).unwrap();
    for (i, o) in objs.iter().enumerate() {
        std::fs::write(dir.join(i.to_string()), o).unwrap();
    }
    let same_pid = ex.flag();
    let mut acked = [false; 3];
    let mut log: Vec<String> = vec![];
    let rounds = if ex.quick() { 2 } else { 3 };
    for round in 0..rounds {
        let i = ex.choose(3);
        let acts = if ex.flag() { vec![Act::Store(i), Act::Store((i + 2) % 3)] } else { vec![Act::Store(i)] };
        let mut p = Proc::start(&r.dotgit, &dir, if same_pid { 77 } else { 77 + round }, &acts);
        log.push(format!("{:?}", acts));
        ex.set_deviations(1);
        let mut n = 0;
        loop {
            match p.next() {
                Event::Point(at) => {
                    if ex.choose_dev(2) == 1 {
                        log.push(format!("killed at {}", at));
                        p.kill();
                        break;
                    }
                    p.go();
                }
                Event::Begin => (),
                Event::Done(Ok(_)) => {
                    if let Act::Store(i) = acts[n] {
                        acked[i] = true;
                    }
                    n += 1;
                }
                Event::Done(Err(e)) => return fail("store", format!("{:?}: a store gives {}", log, e)),
                Event::Exit => break,
            }
        }
        ex.step();
        ex.state(&(same_pid, &log));
        let fresh = r.db();
        for (i, o) in objs.iter().enumerate() {
            let g = lib(ex, || repo::raw(&fresh, &sha1(o)));
            ex.evals(1);
            let ok = match &g {
                Ok(v) => v == o,
                Err(Obs::NotFound) => !acked[i],
                _ => false,
            };
            ensure!(ok, if acked[i] { "lost" } else { "damaged" }, "{:?}: object {} reads {:?}", log, i, g.map(|v| v.len()));
            acked[i] |= g.is_ok();
        }
    }
    for i in 0..3 {
        let end = crate::procs::alone(&r.dotgit, &dir, 77, &[Act::Store(i), Act::Read(i)]);
        ensure!(
            matches!(&end, Ok(v) if *v == [true, true]),
            "retry",
            "{:?}: storing object {} again gives {:?}",
            log,
            i,
            end.map_err(|v| v.msg)
        );
        check_layout(&r, &sha1(&objs[i]), &objs[i], &|| format!("{:?}", log))?;
    }
    ex.describe(|| format!("same id {}: {:?}", same_pid, log));
    Ok(())
}

pub fn s02(ex: &Exec) -> Res {
    if ex.flag() {
        return killed(ex);
    }
    let crash = ex.flag();
    let which = ex.choose(4);
    let y = match which {
        0 => framed_blob(60, 1, false, Some(0x22)),
        1 => vec![],
        2 => framed_blob(40_000, 2, true, None),
        _ => framed_blob(100_000, 3, true, Some(0x22)),
    };
    let x = framed_blob(50, 4, false, Some(0x22)); // shares the directory of 0 and 3
    let (xi, yi) = (sha1(&x), sha1(&y));
    let state = ex.choose(4);
    let r = Repo::new(ex.fresh_dir());
    let db = r.db();
    // what was there before
    if state & 1 != 0 {
        let got = lib(ex, || write(&db, &x));
        ensure!(got == Ok(xi), "store", "plain store fails: {:?}", got);
    }
    let already = state & 2 != 0;
    if already {
        // the object itself is stored already: only its time is refreshed
        let got = lib(ex, || write(&db, &y));
        ensure!(got == Ok(yi), "store", "plain store fails: {:?}", got);
    }
    let rounds = if ex.quick() { 1 } else { 2 };
    let mut log: Vec<String> = vec![];
    let mut acked = already;
    for round in 0..rounds {
        // (what an earlier store could not remove stays)
        let before: Vec<_> = if crash || round == 0 { vec![] } else { quiet(|| snapshot(&r)).into_keys().collect() };
        ex.set_deviations(if crash {
            1
        } else if ex.quick() && which >= 2 {
            1
        } else {
            2
        });
        let env = Faulty::new(ex, crash, r.loose_path(&yi), zlib(&y, 6));
        ex.step();
        let got = with_env(&env, || guarded(|| write(&db, &y)));
        for l in env.log.borrow().iter() {
            log.push(format!("round {}: {}", round, l));
        }
        let ctx = || format!("object {} ({} bytes), state {}, {:?}", which, y.len(), state, log);
        let dead = env.dead.get();
        let got = match got {
            Ok(g) => g,
            Err(p) => return fail("panic", format!("{}: store panicked: {}", ctx(), p)),
        };
        if dead {
            // the process is gone; on a power failure what was not synced may be lost too
            for f in env.files.borrow().iter() {
                if !f.dirty || !f.path.exists() {
                    continue;
                }
                let data = std::fs::read(&f.path).unwrap();
                let n = data.len();
                let (name, lost): (&str, Option<Vec<u8>>) = match ex.choose(5) {
                    0 => ("kept", None),
                    1 => ("emptied", Some(vec![])),
                    2 => ("cut in half", Some(data[..n / 2].to_vec())),
                    3 => ("zeroed", Some(vec![0; n])),
                    _ => ("cut by one byte", Some(data[..n.saturating_sub(1)].to_vec())),
                };
                log.push(format!("unsynced data {}", name));
                if let Some(l) = lost {
                    std::fs::write(&f.path, l).unwrap();
                }
            }
        } else {
            match &got {
                Ok(i) => {
                    let c = format!("object {} ({} bytes), state {}, {:?}", which, y.len(), state, log);
                    ensure!(*i == yi, "store", "{}: store returned {}", c, hex(i));
                    acked = true;
                    // acknowledged: complete, and safe against power loss
                    for f in env.files.borrow().iter() {
                        ensure!(
                            !f.dirty || f.path != r.loose_path(&yi),
                            "unsynced",
                            "{}: acknowledged, but the data was never synced",
                            c
                        );
                    }
                }
                Err(e) => {
                    let c = format!("object {} ({} bytes), state {}, {:?}", which, y.len(), state, log);
                    ensure!(env.faulted.get(), "store", "{}: store fails without a fault: {}", c, e);
                    for f in quiet(|| snapshot(&r)).keys() {
                        let known = [&xi, &yi].iter().any(|i| r.loose_path(i).ends_with(f)) || before.contains(f);
                        ensure!(known || env.stuck.get(), "left over", "{}: the failed store leaves {} behind", c, f);
                    }
                }
            }
        }
        acked |= env.other.get();
        let ctx = || format!("object {} ({} bytes), state {}, {:?}", which, y.len(), state, log);
        ex.state(&(which, state, &log));
        let fresh = r.db();
        for (name, h) in [("fresh", &fresh), ("same", &db)] {
            ex.evals(1);
            let g = lib(ex, || repo::raw(h, &yi));
            let ok = match &g {
                Ok(v) => *v == y,
                Err(Obs::NotFound) => !acked,
                _ => false,
            };
            ensure!(
                ok,
                if acked { "lost" } else { "damaged" },
                "{}: afterwards the {} handle reads {} (acknowledged: {})",
                ctx(),
                name,
                g.as_ref().map(|v| format!("{} bytes", v.len())).unwrap_or_else(|e| e.short()),
                acked
            );
            ex.outcome(&(which, acked, g.is_ok(), dead));
            if g.is_ok() {
                // what one read has seen stays
                acked = true;
            }
            if state & 1 != 0 {
                let g = lib(ex, || repo::raw(h, &xi));
                ensure!(g.as_ref() == Ok(&x), "neighbour", "{}: the other object reads {:?}", ctx(), g.map(|v| v.len()));
            }
        }
    }
    // storing again succeeds
    ex.set_deviations(0);
    let ctx = || format!("object {} ({} bytes), state {}, {:?}", which, y.len(), state, log);
    let fresh = r.db();
    let got = lib(ex, || guarded(|| write(&fresh, &y)));
    ensure!(got == Ok(Ok(yi)), "retry", "{}: storing again gives {:?}", ctx(), got);
    for h in [&fresh, &db] {
        let g = lib(ex, || repo::raw(h, &yi));
        ensure!(
            g.as_ref() == Ok(&y),
            "retry",
            "{}: after storing again the object reads {}",
            ctx(),
            g.as_ref().map(|v| format!("{} bytes", v.len())).unwrap_or_else(|e| e.short())
        );
    }
    quiet(|| check_layout(&r, &yi, &y, &ctx))?;
    ex.describe(ctx);
    Ok(())
}

// ---- S03 ----

#[derive(Debug)]
struct Ev {
    act: Act,
    start: u64,
    end: u64,
    ok: Result<bool, String>, // Ok(true): stored/read; Ok(false): not found
}

pub fn s03(ex: &Exec) -> Res {
    match ex.choose(3) {
        1 => return processes(ex),
        2 => return pruned(ex),
        _ => (),
    }
    // 0 and 1 share a directory, 2 is large (several writes)
    let objs: Arc<Vec<Vec<u8>>> = Arc::new(vec![
        framed_blob(60, 1, false, Some(0x33)),
        framed_blob(60, 2, false, Some(0x33)),
        framed_blob(40_000, 3, true, Some(0x33)),
    ]);
    use Act::*;
    let two: &[[&[Act]; 2]] = &[
        [&[Store(0), Read(0)], &[Store(0), Read(0)]],
        [&[Store(0)], &[Read(0), Read(0)]],
        [&[Store(0), Read(1)], &[Store(1), Read(0)]],
        [&[Store(2)], &[Read(2), Read(2)]],
        [&[Store(2), Read(2)], &[Store(2), Read(2)]],
        [&[Store(0), Store(1)], &[Store(1), Store(0)]],
        [&[Store(0), Store(0)], &[Read(0), Store(0)]],
        [&[Store(0), Read(2)], &[Store(2), Read(0)]],
    ];
    let three: &[[&[Act]; 3]] = &[
        [&[Store(0)], &[Store(0)], &[Read(0), Read(0)]],
        [&[Store(0)], &[Store(1)], &[Read(0), Read(1)]],
        [&[Store(0), Read(0)], &[Store(0), Read(0)], &[Store(0), Read(0)]],
        [&[Store(2)], &[Read(2)], &[Store(2), Read(2)]],
    ];
    let k = ex.choose(two.len() + three.len());
    let (progs, preempt): (Vec<Vec<Act>>, u32) = if k < two.len() {
        (two[k].iter().map(|p| p.to_vec()).collect(), if ex.quick() { 2 } else { 3 })
    } else {
        (three[k - two.len()].iter().map(|p| p.to_vec()).collect(), 2)
    };
    let own_handles = ex.flag();
    // the quick tier takes these two together
    let dir_there = if ex.quick() { own_handles } else { ex.flag() };
    let r = Repo::new(ex.fresh_dir());
    if dir_there {
        std::fs::create_dir(r.dotgit.join("objects/33")).unwrap();
    }
    let shared = Arc::new(r.db());
    let clock = Arc::new(AtomicU64::new(0));
    let bodies: Vec<Box<dyn FnOnce() -> Vec<Ev> + Send>> = progs
        .iter()
        .map(|p| {
            let db = if own_handles { Arc::new(r.db()) } else { shared.clone() };
            let (p, objs, clock) = (p.clone(), objs.clone(), clock.clone());
            Box::new(move || {
                p.iter()
                    .map(|a| {
                        let start = clock.fetch_add(1, Ordering::SeqCst);
                        let ok = match a {
                            Store(i) => match write(&db, &objs[*i]) {
                                Ok(id) if id == sha1(&objs[*i]) => Ok(true),
                                Ok(id) => Err(format!("returned {}", hex(&id))),
                                Err(e) => Err(e),
                            },
                            Read(i) => match repo::raw(&db, &sha1(&objs[*i])) {
                                Ok(v) if v == objs[*i] => Ok(true),
                                Ok(v) => Err(format!("{} bytes", v.len())),
                                Err(Obs::NotFound) => Ok(false),
                                Err(e) => Err(e.short()),
                            },
                        };
                        let end = clock.fetch_add(1, Ordering::SeqCst);
                        Ev { act: *a, start, end, ok }
                    })
                    .collect()
            }) as Box<dyn FnOnce() -> Vec<Ev> + Send>
        })
        .collect();
    let setup = format!("threads {:?}, own handles {}, directory there {}", progs, own_handles, dir_there);
    let out = match sched::run(ex, preempt, sched::all_points, bodies) {
        Ok(o) => o,
        Err(v) => return fail(v.sig, format!("{}: {}", setup, v.msg)),
    };
    ex.count("scheduling points", out.steps);
    ex.count("context switches", out.switches);
    let mut evs: Vec<Ev> = vec![];
    for r in out.results {
        match r {
            Ok(v) => evs.extend(v),
            Err(m) => return fail("panic", format!("{}: a thread panicked: {}", setup, m)),
        }
    }
    for _ in &evs {
        ex.step();
        ex.evals(1);
    }
    check_order(&setup, &evs)?;
    let orders: Vec<(Act, bool)> = evs.iter().map(|e| (e.act, e.ok == Ok(true))).collect();
    ex.outcome(&orders);
    ex.state(&(k, own_handles, dir_there, &out.trace));
    // afterwards everything stored is there, exactly once and in Git's layout
    let fresh = r.db();
    let mut stored: Vec<usize> = vec![];
    for p in progs.iter().flatten() {
        if let Store(i) = p {
            if !stored.contains(i) {
                stored.push(*i)
            }
        }
    }
    for i in &stored {
        let idd = sha1(&objs[*i]);
        for h in [&fresh, &*shared] {
            let g = lib(ex, || repo::raw(h, &idd));
            ensure!(g.as_ref() == Ok(&objs[*i]), "lost", "{}: object {} reads {:?} afterwards", setup, i, g.map(|v| v.len()));
        }
        check_layout(&r, &idd, &objs[*i], &|| setup.clone())?;
    }
    let files = repo::list(&r.dotgit.join("objects"));
    ensure!(files.len() == stored.len(), "litter", "{}: files left: {:?}", setup, files);
    ex.describe(|| format!("{}: schedule {:?}", setup, out.trace.iter().map(|t| t.0).collect::<Vec<_>>()));
    Ok(())
}

/// Every action succeeds; what was stored or seen before an action starts is found by it.
fn check_order(setup: &str, evs: &[Ev]) -> Res {
    for e in evs {
        match &e.ok {
            Err(m) => return fail("concurrent-store", format!("{}: {:?} gives {} in {:?}", setup, e.act, m, evs)),
            Ok(false) => {
                for f in evs {
                    let same = match (e.act, f.act) {
                        (Act::Read(i), Act::Store(j)) | (Act::Read(i), Act::Read(j)) => i == j,
                        _ => false,
                    };
                    ensure!(
                        !(same && f.ok == Ok(true) && f.end < e.start),
                        "lost",
                        "{}: {:?} finds nothing although {:?} had finished before, in {:?}",
                        setup,
                        e.act,
                        f.act,
                        evs
                    );
                }
            }
            Ok(true) => {}
        }
    }
    Ok(())
}

/// Two or three processes, stepped at their system calls; one may be killed at any of them.
fn processes(ex: &Exec) -> Res {
    let objs = [
        framed_blob(60, 1, false, Some(0x33)),
        framed_blob(60, 2, false, Some(0x33)),
        framed_blob(40_000, 3, true, Some(0x33)),
    ];
    use Act::*;
    let programs: &[&[&[Act]]] = &[
        &[&[Store(0), Read(0)], &[Store(0), Read(0)]],
        &[&[Store(0), Store(1)], &[Store(1), Store(0)]],
        &[&[Store(2)], &[Store(2), Read(2)]],
        &[&[Store(0)], &[Store(1), Read(0)]],
        &[&[Store(2)], &[Read(2), Read(2)]],
        &[&[Store(0)], &[Store(0)], &[Store(0)]],
    ];
    let k = ex.choose(programs.len());
    let progs = programs[k];
    let same_pid = ex.flag();
    let dir_there = if ex.quick() { same_pid } else { ex.flag() };
    let kill = ex.flag();
    let mut preempt = match (kill, ex.quick(), progs.len()) {
        (_, true, 3) => 1,
        (false, true, _) => 2,
        (true, true, _) => 1,
        (false, false, 3) | (true, false, _) => 2,
        (false, false, _) => 3,
    };
    if kill && progs.len() == 3 && ex.quick() {
        ex.prune();
    }
    let r = Repo::new(ex.fresh_dir());
    if dir_there {
        std::fs::create_dir(r.dotgit.join("objects/33")).unwrap();
    }
    let dir = r.root.join("bytes");
    std::fs::create_dir(&dir).unwrap();
    for (i, o) in objs.iter().enumerate() {
        std::fs::write(dir.join(i.to_string()), o).unwrap();
    }
    ex.set_deviations(kill as u32);
    let pid = |i: usize| if same_pid { 77 } else { 77 + i as u32 };
    let mut ps: Vec<Proc> = progs.iter().enumerate().map(|(i, p)| Proc::start(&r.dotgit, &dir, pid(i), p)).collect();
    let mut trace: Vec<String> = vec![];
    let mut evs: Vec<Ev> = vec![];
    let mut open: Vec<Option<u64>> = vec![None; ps.len()];
    let mut done = vec![0usize; ps.len()];
    let mut clock = 0;
    let setup = format!("processes {:?}, same pid {}, directory there {}", progs, same_pid, dir_there);
    // all wait at their first action
    for p in ps.iter_mut() {
        p.next();
    }
    let mut cur = usize::MAX;
    let mut victim = None;
    loop {
        let mut can: Vec<usize> = (0..ps.len()).filter(|i| !ps[*i].over).collect();
        if can.is_empty() {
            break;
        }
        if let Some(at) = can.iter().position(|i| *i == cur) {
            can.swap(0, at);
            let c = if preempt > 0 { ex.choose(can.len()) } else { 0 };
            if c > 0 {
                preempt -= 1;
            }
            cur = can[c];
        } else {
            cur = can[ex.choose(can.len())];
        }
        if victim.is_none() && ex.choose_dev(2) == 1 {
            trace.push(format!("{} killed", cur));
            ps[cur].kill();
            victim = Some(cur);
            continue;
        }
        ps[cur].go();
        loop {
            match ps[cur].next() {
                Event::Point(n) => {
                    trace.push(format!("{} {}", cur, n));
                    break;
                }
                Event::Begin => {
                    clock += 1;
                    open[cur] = Some(clock);
                }
                Event::Done(ok) => {
                    clock += 1;
                    let act = progs[cur][done[cur].min(progs[cur].len() - 1)];
                    done[cur] += 1;
                    ex.step();
                    ex.evals(1);
                    if let Err(m) = &ok {
                        return fail("concurrent-store", format!("{}: {:?} of process {} gives {} after {:?}", setup, act, cur, m, trace));
                    }
                    evs.push(Ev { act, start: open[cur].take().unwrap_or(0), end: clock, ok });
                }
                Event::Exit => {
                    trace.push(format!("{} ends", cur));
                    break;
                }
            }
        }
        ensure!(trace.len() < 2000, "livelock", "{}: no end: {:?}", setup, &trace[1900..]);
    }
    check_order(&setup, &evs)?;
    ex.state(&(k, same_pid, dir_there, &trace));
    let orders: Vec<(Act, bool)> = evs.iter().map(|e| (e.act, e.ok == Ok(true))).collect();
    ex.outcome(&(orders, victim.is_some()));
    let db = r.db();
    for (i, o) in objs.iter().enumerate() {
        let has = |a: &Act| matches!(a, Store(j) if *j == i);
        if !progs.iter().any(|p| p.iter().any(has)) {
            continue;
        }
        let acked = evs.iter().any(|e| matches!(e.act, Store(j) | Read(j) if j == i) && e.ok == Ok(true));
        let id = sha1(o);
        let g = lib(ex, || repo::raw(&db, &id));
        ensure!(
            g.as_ref() == Ok(o) || (!acked && g == Err(Obs::NotFound)),
            "lost",
            "{}: object {} reads {:?} afterwards ({:?})",
            setup,
            i,
            g.map(|v| v.len()),
            trace
        );
        // a process that starts later, possibly under the id of the one that was killed
        if let Some(v) = victim {
            let end = crate::procs::alone(&r.dotgit, &dir, pid(v), &[Store(i), Read(i)]);
            ensure!(
                matches!(&end, Ok(v) if *v == [true, true]),
                "retry",
                "{}: storing object {} again gives {:?} ({:?})",
                setup,
                i,
                end.map_err(|v| v.msg),
                trace
            );
        }
        check_layout(&r, &id, o, &|| setup.clone())?;
    }
    ex.describe(|| format!("{}: {:?}", setup, trace));
    Ok(())
}

/// Another process that prunes, step by step, between the system calls of a store.
struct Pruner<'a> {
    ex: &'a Exec<'a>,
    steps: RefCell<Vec<(&'static str, Box<dyn Fn()>)>>,
    log: RefCell<Vec<String>>,
    calls: Cell<u64>,
}

impl Env for Pruner<'_> {
    fn call(&self, op: &Op) -> Ans {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > 20_000 {
            fatal("runaway: more than 20000 system calls in one store");
        }
        // the steps only change names and look at times: they commute with calls on an open file
        let named = matches!(
            op,
            Op::Open { .. }
                | Op::Stat { .. }
                | Op::Mkdir { .. }
                | Op::Rmdir { .. }
                | Op::Rename { .. }
                | Op::Link { .. }
                | Op::Unlink { .. }
                | Op::Utimens { .. }
                | Op::Opendir { .. }
        );
        let left = self.steps.borrow().len();
        if named && left > 0 {
            for _ in 0..self.ex.choose(left + 1) {
                let (name, f) = self.steps.borrow_mut().remove(0);
                f();
                self.log.borrow_mut().push(format!("{} before {} #{}", name, op.name(), self.calls.get()));
            }
        }
        Ans::Go
    }
    fn clock(&self) -> u64 {
        1_000_000_000_000
    }
}

/// Stores while another process removes old objects and empty directories, as git's pruning does.
fn pruned(ex: &Exec) -> Res {
    let objs = [framed_blob(60, 1, false, Some(0x33)), framed_blob(50, 2, false, Some(0x33))];
    let r = Repo::new(ex.fresh_dir());
    let files = [r.loose_path(&sha1(&objs[0])), r.loose_path(&sha1(&objs[1]))];
    let dir = files[0].parent().unwrap().to_path_buf();
    let long_ago = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
    // nothing, the empty directory, one of the objects or both, old or new
    let start = ex.choose(6);
    if start == 1 {
        std::fs::create_dir(&dir).unwrap();
    }
    let there: &[usize] = [&[][..], &[], &[0], &[1], &[0, 1], &[0]][start];
    for i in there {
        r.put_loose_raw(&sha1(&objs[*i]), &zlib(&objs[*i], 1));
        if start != 5 {
            set_mtime(&files[*i], long_ago);
        }
    }
    let programs: &[&str] = &["0", "0d", "d", "1d", "01d", "ddd", "dmd", "0dm", "10d", "0dmd", "d0d", "0d1d", "0dmdmd"];
    let program = *ex.pick(programs);
    if program.len() > 4 && ex.quick() {
        return Ok(());
    }
    let mut steps: Vec<(&'static str, Box<dyn Fn()>)> = vec![];
    for c in program.chars() {
        let (dir, files) = (dir.clone(), files.clone());
        match c {
            'd' => steps.push(("rmdir", Box::new(move || drop(std::fs::remove_dir(&dir))))),
            'm' => steps.push(("mkdir", Box::new(move || drop(std::fs::create_dir(&dir))))),
            _ => {
                let i = (c == '1') as usize;
                steps.push((
                    ["prune 0", "prune 1"][i],
                    Box::new(move || {
                        // only what is old at that time is removed
                        let old = std::fs::metadata(&files[i]).and_then(|m| m.modified());
                        if old.map_or(false, |t| t <= long_ago) {
                            std::fs::remove_file(&files[i]).unwrap();
                        }
                    }),
                ))
            }
        }
    }
    use Act::*;
    let acts: &[Act] =
        *ex.pick(&[&[Store(0), Read(0)][..], &[Store(0), Store(0)], &[Store(0), Store(1)], &[Read(0), Store(0)]]);
    let db = r.db();
    let env = Pruner { ex, steps: RefCell::new(steps), log: RefCell::new(vec![]), calls: Cell::new(0) };
    let ctx = || format!("start {}, {:?}, the other process: {} {:?}", start, acts, program, env.log.borrow());
    let mut stored = [false; 2];
    for a in acts {
        ex.step();
        ex.evals(1);
        match a {
            Store(i) => {
                let got = match with_env(&env, || guarded(|| write(&db, &objs[*i]))) {
                    Ok(g) => g,
                    Err(p) => return fail("panic", format!("{}: store panicked: {}", ctx(), p)),
                };
                ensure!(got == Ok(sha1(&objs[*i])), "prune-store", "{}: {:?} gives {:?}", ctx(), a, got.map(|o| hex(&o)));
                stored[*i] = true;
            }
            Read(i) => {
                let got = match with_env(&env, || guarded(|| repo::raw(&db, &sha1(&objs[*i])))) {
                    Ok(g) => g,
                    Err(p) => return fail("panic", format!("{}: read panicked: {}", ctx(), p)),
                };
                let ok = match &got {
                    Ok(v) => *v == objs[*i],
                    Err(e) => *e == Obs::NotFound && !stored[*i],
                };
                ensure!(ok, "prune-lost", "{}: {:?} gives {:?}", ctx(), a, got.map(|v| v.len()).map_err(|e| e.short()));
            }
        }
    }
    // whatever the other process does now: what was stored is new
    for (_, f) in env.steps.borrow_mut().drain(..) {
        f();
    }
    let fresh = r.db();
    for i in 0..2 {
        if !stored[i] {
            continue;
        }
        check_layout(&r, &sha1(&objs[i]), &objs[i], &ctx)?;
        for h in [&db, &fresh] {
            let g = lib(ex, || repo::raw(h, &sha1(&objs[i])));
            ensure!(
                g.as_ref() == Ok(&objs[i]),
                "prune-lost",
                "{}: object {} reads {:?} afterwards",
                ctx(),
                i,
                g.map(|v| v.len()).map_err(|e| e.short())
            );
        }
    }
    let left = repo::list(&r.dotgit.join("objects"));
    let want = files.iter().filter(|p| p.exists()).count();
    ensure!(left.len() == want, "litter", "{}: files left: {:?}", ctx(), left);
    ex.state(&(start, program, acts, &*env.log.borrow()));
    ex.describe(ctx);
    Ok(())
}
