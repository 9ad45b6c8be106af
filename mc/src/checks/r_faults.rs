//! R10 (short reads, interruptions and failures of system calls), R11 (damage stays local).
use super::gen::{self, Obj};
use super::util::*;
use crate::ensure;
use crate::explorer::*;
use crate::gitfmt::*;
use crate::interpose::{with_env, Ans, Env, Op};
use crate::repo::{self, *};
use rusty_git::object::ObjectDatabase;
use rusty_git::reference::ReferenceTarget;
use rusty_git::repository::Repository;
use std::cell::{Cell, RefCell};
use std::io::Read;
use std::sync::OnceLock;

// ---- R10 ----

struct Files {
    /// path below .git, content
    files: Vec<(String, Vec<u8>)>,
    objs: Vec<(&'static str, Obj)>,
}

fn files() -> &'static Files {
    static F: OnceLock<Files> = OnceLock::new();
    F.get_or_init(|| {
        let mut files = vec![];
        let vs = gen::versions(Kind::Blob, 4, 600, false);
        let cm = gen::versions(Kind::Commit, 2, 400, false);
        let tree = gen::obj(Kind::Tree, 20_000, 5, true);
        let tag = gen::obj(Kind::Tag, 300, 6, false);
        let loose = gen::obj(Kind::Commit, 250, 7, false);
        let big = gen::obj(Kind::Blob, 40_000, 8, true);
        let a = vec![
            PackEntry::whole(Kind::Blob, &vs[0].content),
            PackEntry::delta(vs[1].id, Rep::Ofs(0), diff(&vs[0].content, &vs[1].content)),
            PackEntry::delta(vs[2].id, Rep::Ref(vs[1].id), diff(&vs[1].content, &vs[2].content)),
            PackEntry::whole(Kind::Tree, &tree.content),
        ];
        let b = vec![
            PackEntry::whole(Kind::Commit, &cm[0].content),
            PackEntry::delta(cm[1].id, Rep::Ref(cm[0].id), diff(&cm[0].content, &cm[1].content)),
            PackEntry::whole(Kind::Tag, &tag.content),
        ];
        for (v, iv, es) in [(2, 2, &a), (3, 1, &b)] {
            let p = build_pack(v, es);
            let i = idx_for(iv, es, &p);
            files.push((format!("objects/pack/pack-{}.pack", hex(&p.id)), p.bytes));
            files.push((format!("objects/pack/pack-{}.idx", hex(&p.id)), i));
        }
        for o in [&loose, &big] {
            let h = hex(&o.id);
            files.push((format!("objects/{}/{}", &h[..2], &h[2..]), zlib(&framed(o.kind, &o.content), 1)));
        }
        files.push(("HEAD".into(), b"ref: refs/heads/a\n".to_vec()));
        files.push(("refs/heads/a".into(), b"# x\nref: refs/tags/b\n".to_vec()));
        files.push(("refs/tags/b".into(), format!("{}\n", hex(&vs[2].id)).into_bytes()));
        files.push(("refs/remotes/o/d/m".into(), format!("{}\n", hex(&loose.id)).into_bytes()));
        Files {
            files,
            objs: vec![
                ("packed blob", vs[0].clone()),
                ("offset delta", vs[1].clone()),
                ("delta on delta", vs[2].clone()),
                ("packed tree", tree),
                ("packed commit", cm[0].clone()),
                ("reference delta", cm[1].clone()),
                ("packed tag", tag),
                ("loose commit", loose),
                ("loose blob", big),
            ],
        }
    })
}

fn lay(r: &Repo, f: &Files) {
    for (p, c) in &f.files {
        let p = r.dotgit.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, c).unwrap();
    }
}

/// How every read behaves, apart from the single deviations.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Manner {
    Plain,
    Short(usize),
    /// every read is interrupted once before it works
    Interrupted,
}

struct Flaky<'a, 'b> {
    ex: &'a Exec<'b>,
    manner: Manner,
    errors: bool,
    /// directory entries come without their types
    untyped: bool,
    failed: Cell<bool>,
    odd: Cell<bool>,
    calls: Cell<u32>,
    log: RefCell<Vec<String>>,
}

impl Env for Flaky<'_, '_> {
    fn call(&self, op: &Op) -> Ans {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > 400_000 {
            fatal("runaway: more than 400000 system calls in one read");
        }
        #[derive(Clone, Copy)]
        enum D {
            Short(usize),
            Fail(i32),
        }
        let mut alts: Vec<D> = vec![];
        match op {
            Op::Read { len, .. } => {
                for n in [1, *len / 2, 100] {
                    if n > 0 && n < *len {
                        alts.push(D::Short(n));
                    }
                }
                alts.push(D::Fail(libc::EINTR));
                if self.errors {
                    alts.extend([libc::EIO, libc::EISDIR, libc::ESTALE].map(D::Fail));
                }
            }
            Op::Open { .. } => {
                alts.push(D::Fail(libc::EINTR));
                if self.errors {
                    alts.extend([libc::EMFILE, libc::EACCES, libc::EIO, libc::ENOMEM, libc::EPERM, libc::ESTALE].map(D::Fail));
                }
            }
            Op::Lseek { .. } if self.errors => alts.push(D::Fail(libc::EIO)),
            Op::Stat { .. } | Op::Fstat { .. } if self.errors => alts.extend([libc::EIO, libc::EACCES].map(D::Fail)),
            Op::Opendir { .. } if self.errors => alts.extend([libc::EMFILE, libc::EACCES, libc::EIO].map(D::Fail)),
            Op::Readdir if self.errors => alts.push(D::Fail(libc::EIO)),
            _ => (),
        }
        if !alts.is_empty() {
            let c = self.ex.choose_dev(alts.len() + 1);
            if c > 0 {
                let a = match alts[c - 1] {
                    D::Short(n) => {
                        self.log.borrow_mut().push(format!("{} #{} short {}", op.name(), self.calls.get(), n));
                        Ans::Short(n)
                    }
                    D::Fail(e) => {
                        self.failed.set(self.failed.get() || e != libc::EINTR);
                        self.log.borrow_mut().push(format!("{} #{} errno {}", op.name(), self.calls.get(), e));
                        Ans::Fail(e)
                    }
                };
                return a;
            }
        }
        match (op, self.manner) {
            (Op::Read { len, .. }, Manner::Short(n)) if n < *len => Ans::Short(n),
            (Op::Read { .. }, Manner::Interrupted) => {
                self.odd.set(!self.odd.get());
                if self.odd.get() {
                    Ans::Fail(libc::EINTR)
                } else {
                    Ans::Go
                }
            }
            _ => Ans::Go,
        }
    }
    fn clock(&self) -> u64 {
        1_000_000_000_000
    }
    fn hide_types(&self) -> bool {
        self.untyped
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Obs(Obs),
    Stream(Result<Vec<u8>, Obs>),
    Text(Result<String, String>),
}

impl Seen {
    fn is_error(&self) -> bool {
        match self {
            Seen::Obs(o) => matches!(o, Obs::Err(_)),
            Seen::Stream(Err(o)) => matches!(o, Obs::Err(_)),
            Seen::Text(Err(e)) => e != "not found",
            _ => false,
        }
    }
    fn short(&self) -> String {
        match self {
            Seen::Obs(o) => o.short(),
            Seen::Stream(Ok(v)) => format!("stream of {} bytes (sha1 {})", v.len(), &hex(&sha1(v))[..8]),
            Seen::Stream(Err(o)) => format!("stream: {}", o.short()),
            Seen::Text(t) => format!("{:?}", t),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Prog {
    Parse(usize),
    Stream(usize),
    /// parse an object of the same pack first, then this one
    Second(usize, usize),
    Missing,
    /// the first three bytes of an id, among the packs (through the hook)
    Abbreviated(usize),
    Head,
    Reference,
    ParseReference,
    PeelHead,
    PeelRemote,
    NoReference,
    ReadFile,
    List,
    ListHeads,
    ListTags,
    ListRemotes,
    Open,
}

fn rtext<T>(r: Result<T, rusty_git::reference::Error>, f: impl FnOnce(T) -> String) -> Seen {
    use rusty_git::reference::Error::*;
    Seen::Text(match r {
        Ok(t) => Ok(f(t)),
        Err(ReferenceNotFound) => Err("not found".into()),
        Err(DereferencingFailed(e)) if e.is_not_found() => Err("not found".into()),
        Err(e) => Err(err_text(&e)),
    })
}

fn names(v: Vec<Vec<u8>>) -> String {
    let mut v: Vec<String> = v.iter().map(|n| String::from_utf8_lossy(n).into_owned()).collect();
    v.sort();
    v.join(" ")
}

fn perform(p: Prog, repo: &Repository, root: &std::path::Path) -> Seen {
    let db = repo.object_database();
    let rdb = repo.reference_database();
    let objs = &files().objs;
    let target = |r: rusty_git::reference::Reference| match r.target() {
        ReferenceTarget::Direct(d) => format!("{:?}", d),
        ReferenceTarget::Symbolic(s) => format!("{:?}", s.data()),
    };
    let obj = |o: rusty_git::object::Object| format!("{:?} {:?}", o.id(), render(o.data()));
    match p {
        Prog::Parse(i) | Prog::Second(_, i) => Seen::Obs(repo::parse(db, &objs[i].1.id)),
        Prog::Stream(i) => Seen::Stream(repo::raw(db, &objs[i].1.id)),
        Prog::Abbreviated(i) => Seen::Stream(repo::abbreviated(db, &objs[i].1.id[..3]).unwrap_or(Err(Obs::NotFound))),
        Prog::Missing => Seen::Obs(repo::parse(db, &sha1(b"missing"))),
        Prog::Head => rtext(rdb.head(), target),
        Prog::Reference => rtext(rdb.reference(b"refs/heads/a"), target),
        Prog::ParseReference => rtext(rdb.parse_reference(b"refs/tags/b"), target),
        Prog::PeelHead => rtext(rdb.head().and_then(|r| r.peel(repo)), obj),
        Prog::PeelRemote => rtext(rdb.reference(b"refs/remotes/o/d/m").and_then(|r| r.peel(repo)), obj),
        Prog::NoReference => rtext(rdb.reference(b"refs/heads/none"), target),
        Prog::ReadFile => rtext(
            rdb.read_reference_file(b"refs/heads/a").and_then(|mut f| {
                let mut s = String::new();
                f.read_to_string(&mut s)?;
                Ok(s)
            }),
            |s| s,
        ),
        Prog::List => rtext(rdb.reference_names(), names),
        Prog::ListHeads => rtext(rdb.head_reference_names(), names),
        Prog::ListTags => rtext(rdb.tag_reference_names(), names),
        Prog::ListRemotes => rtext(rdb.remote_reference_names(), names),
        Prog::Open => Seen::Text(match Repository::open(root) {
            Ok(_) => Ok("open".into()),
            Err(rusty_git::repository::OpenError::NotFound(_)) => Err("not found".into()),
            Err(e) => Err(err_text(&e)),
        }),
    }
}

pub fn r10(ex: &Exec) -> Res {
    let f = files();
    let n = f.objs.len();
    let mut progs = vec![];
    for i in 0..n {
        progs.push(Prog::Parse(i));
        progs.push(Prog::Stream(i));
    }
    progs.extend([
        Prog::Second(0, 1),
        Prog::Second(1, 2),
        Prog::Second(2, 1),
        Prog::Second(4, 5),
        Prog::Second(7, 3),
        Prog::Missing,
        Prog::Abbreviated(2),
        Prog::Abbreviated(5),
        Prog::Abbreviated(7),
        Prog::Head,
        Prog::Reference,
        Prog::ParseReference,
        Prog::PeelHead,
        Prog::PeelRemote,
        Prog::NoReference,
        Prog::ReadFile,
        Prog::List,
        Prog::ListHeads,
        Prog::ListTags,
        Prog::ListRemotes,
        Prog::Open,
    ]);
    let p = *ex.pick(&progs);
    let manners = [Manner::Plain, Manner::Short(1), Manner::Short(7), Manner::Short(63), Manner::Short(4096), Manner::Interrupted];
    let m = *ex.pick(&manners);
    let lists = matches!(p, Prog::List | Prog::ListHeads | Prog::ListTags | Prog::ListRemotes);
    let untyped = lists && ex.flag();
    let r = Repo::bare_bones(ex.fresh_dir());
    lay(&r, f);
    let repo = lib(ex, || Repository::open(&r.root)).unwrap();
    if let Prog::Second(i, _) = p {
        check_obj(ex, repo.object_database(), &f.objs[i].1, &|| "first read".into())?;
    }
    let want = lib(ex, || perform(p, &lib_repo(&r), &r.root));
    // the fault-free result is the object itself
    if let Prog::Parse(i) | Prog::Second(_, i) = p {
        let o = &f.objs[i].1;
        ensure!(want == Seen::Obs(Obs::Obj(o.kind, o.rendered.clone())), "fault-free", "{:?}: {}", p, want.short());
    }
    ex.set_deviations(match m {
        Manner::Plain => {
            if ex.quick() {
                2
            } else {
                3
            }
        }
        // single bytes mean thousands of calls
        Manner::Short(1) => 0,
        Manner::Short(7) if ex.quick() => 0,
        _ => 1,
    });
    let env = Flaky {
        ex,
        manner: m,
        errors: true,
        untyped,
        failed: Cell::new(false),
        odd: Cell::new(false),
        calls: Cell::new(0),
        log: RefCell::new(vec![]),
    };
    ex.step();
    let got = with_env(&env, || guarded(|| perform(p, &repo, &r.root)));
    ex.evals(1);
    let log = env.log.borrow().join(", ");
    ex.state(&(format!("{:?} {:?}", p, m), untyped, &log));
    let name = match p {
        Prog::Parse(i) | Prog::Stream(i) | Prog::Second(_, i) | Prog::Abbreviated(i) => f.objs[i].0,
        _ => "",
    };
    let ctx = || format!("{:?} {}{} ({:?}; {})", p, name, if untyped { "untyped" } else { "" }, m, log);
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail("panic", format!("{}: panic: {}", ctx(), e)),
    };
    ex.outcome(&(got == want, got.is_error()));
    if !env.failed.get() {
        ensure!(got == want, "short-read", "{}: gives {} instead of {}", ctx(), got.short(), want.short());
    } else {
        ensure!(
            got == want || got.is_error(),
            "failure",
            "{}: gives {} instead of {} or an error",
            ctx(),
            got.short(),
            want.short()
        );
    }
    // the failure has passed
    let again = lib(ex, || perform(p, &repo, &r.root));
    ensure!(again == want, "afterwards", "after {}: then gives {} instead of {}", ctx(), again.short(), want.short());
    for (w, o) in &f.objs {
        let got = lib(ex, || repo::parse(repo.object_database(), &o.id));
        ensure!(
            got == Obs::Obj(o.kind, o.rendered.clone()),
            "afterwards",
            "after {}: {} reads as {}",
            ctx(),
            w,
            got.short()
        );
    }
    let again = lib(ex, || perform(p, &repo, &r.root));
    ensure!(again == want, "afterwards", "after {}: again gives {} instead of {}", ctx(), again.short(), want.short());
    ex.describe(ctx);
    Ok(())
}

fn lib_repo(r: &Repo) -> Repository {
    Repository::open(&r.root).unwrap()
}

// ---- R11 ----

/// What is wrong with the third pack.
fn harm(k: usize, pack: &[u8], idx: &[u8]) -> Option<(String, Option<Vec<u8>>, Option<Vec<u8>>)> {
    let p = || Some(pack.to_vec());
    let i = || Some(idx.to_vec());
    let cut = |v: &[u8], n: usize| Some(v[..n.min(v.len())].to_vec());
    let set = |v: &[u8], at: usize, b: &[u8]| {
        let mut v = v.to_vec();
        v[at..at + b.len()].copy_from_slice(b);
        Some(v)
    };
    let n = idx.len();
    Some(match k {
        0 => ("empty index".into(), p(), Some(vec![])),
        1 => ("garbage index".into(), p(), Some(noise(3, 2000))),
        2 => ("index cut in its header".into(), p(), cut(idx, 6)),
        3 => ("index cut in its fan-out".into(), p(), cut(idx, 500)),
        4 => ("index cut in its ids".into(), p(), cut(idx, 8 + 1024 + 30)),
        5 => ("index without trailer".into(), p(), cut(idx, n - 40)),
        6 => ("index of unknown version".into(), p(), set(idx, 4, &[0, 0, 0, 9])),
        7 => ("index with too many objects".into(), p(), set(idx, 8 + 1020, &[0, 0, 1, 0])),
        8 => ("index with an enormous count".into(), p(), set(idx, 8 + 1020, &[0xff; 4])),
        9 => ("index of another pack".into(), p(), set(idx, n - 40, &[7; 20])),
        10 => ("pack missing".into(), None, i()),
        11 => ("index missing".into(), p(), None),
        12 => ("empty pack".into(), Some(vec![]), i()),
        13 => ("garbage pack".into(), Some(noise(4, 900)), i()),
        14 => ("pack cut in its header".into(), cut(pack, 9), i()),
        15 => ("pack cut in its objects".into(), cut(pack, 40), i()),
        16 => ("pack without trailer".into(), cut(pack, pack.len() - 20), i()),
        17 => ("pack of unknown version".into(), set(pack, 4, &[0, 0, 0, 7]), i()),
        18 => ("pack with another count".into(), set(pack, 8, &[0, 0, 0, 9]), i()),
        19 => ("pack with another checksum".into(), set(pack, pack.len() - 20, &[9; 20]), i()),
        20 => ("falling fan-out".into(), p(), set(idx, 8, &[0, 0, 0, 2].repeat(128))),
        21 => ("fan-out beyond the count".into(), p(), set(idx, 8 + 512, &[0, 0, 0, 200].repeat(100))),
        22 => ("ids of the index zeroed".into(), p(), set(idx, 8 + 1024, &[0; 40])),
        23 => ("offsets beyond the 64-bit table".into(), p(), set(idx, n - 40 - 8, &[0xff; 8])),
        24 => ("offsets beyond the pack".into(), p(), set(idx, n - 40 - 8, &[0x7f; 8])),
        _ => return None,
    })
}

/// Harm that leaves nothing of the pack to be used.
const SECOND: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23];

pub fn r11(ex: &Exec) -> Res {
    if ex.flag() {
        return super::scale::broken(ex, &harm);
    }
    let vs = gen::versions(Kind::Blob, 4, 300, false);
    let ws = gen::versions(Kind::Commit, 2, 300, false);
    let loose = gen::obj(Kind::Tag, 150, 3, false);
    let a = vec![
        PackEntry::whole(Kind::Blob, &vs[0].content),
        PackEntry::delta(vs[1].id, Rep::Ofs(0), diff(&vs[0].content, &vs[1].content)),
    ];
    let b = vec![
        PackEntry::delta(ws[1].id, Rep::Ref(ws[0].id), diff(&ws[0].content, &ws[1].content)),
        PackEntry::whole(Kind::Commit, &ws[0].content),
    ];
    let c = vec![
        PackEntry::whole(Kind::Blob, &vs[2].content),
        PackEntry::delta(vs[3].id, Rep::Ofs(0), diff(&vs[2].content, &vs[3].content)),
    ];
    let pc = build_pack(2, &c);
    let ic = idx_for(2, &c, &pc);
    let r = Repo::new(ex.fresh_dir());
    let mode = ex.choose(4);
    let mut what = String::new();
    let mut ok: Vec<Obj> = vec![vs[0].clone(), vs[1].clone(), ws[0].clone(), ws[1].clone(), loose.clone()];
    let mut bad: Vec<Oid> = vec![];
    r.put_loose(loose.kind, &loose.content);
    // the order of the directory decides which pack is met first
    let place = |order: usize, put_c: &dyn Fn()| {
        let perms = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
        for k in perms[order] {
            match k {
                0 => {
                    r.put_pack(2, 2, &a);
                }
                1 => {
                    r.put_pack(2, 1, &b);
                }
                _ => put_c(),
            }
        }
    };
    match mode {
        // a third pack that cannot be used
        0 => {
            let n = (0..).take_while(|k| harm(*k, &pc.bytes, &ic).is_some()).count();
            let k = ex.choose(n);
            let (w, p, i) = harm(k, &pc.bytes, &ic).unwrap();
            let order = ex.choose(6);
            place(order, &|| {
                if let Some(p) = &p {
                    std::fs::write(r.pack_path("c", "pack"), p).unwrap();
                }
                if let Some(i) = &i {
                    std::fs::write(r.pack_path("c", "idx"), i).unwrap();
                }
            });
            what = format!("{} (order {})", w, order);
            bad = vec![vs[2].id, vs[3].id];
        }
        // a second pack of the same objects that cannot be used
        3 => {
            let pa = build_pack(2, &a);
            let ia = idx_for(2, &a, &pa);
            let k = *ex.pick(SECOND);
            let (w, p, i) = harm(k, &pa.bytes, &ia).unwrap();
            let order = ex.choose(6);
            // the name decides which of the two is asked first
            let name = *ex.pick(&["c", "d", "e", "f"]);
            place(order, &|| {
                if let Some(p) = &p {
                    std::fs::write(r.pack_path(name, "pack"), p).unwrap();
                }
                if let Some(i) = &i {
                    std::fs::write(r.pack_path(name, "idx"), i).unwrap();
                }
            });
            what = format!("copy of a pack, with {} (order {}, name {})", w, order, name);
        }
        // things in the pack directory that are no packs
        1 => {
            const BESIDE: &[&str] = &["keep", "promisor", "mtimes", "rev", "bitmap", "lock", "idx.lock", "idx~", "pack.old", "tmp", "bad", "idx.idx"];
            const ELSEWHERE: &[&str] = &["info/alternates", "info/packs", "info/commit-graph", "info/grafts", "17/garbage", "17/tmp_obj_Ab12", "zz/x", "gc.log", "0", "ff", "pack.idx", "tmp_objdir-x/aa/b"];
            let k = ex.choose(9 + BESIDE.len() + ELSEWHERE.len());
            let order = ex.choose(6);
            let d = r.dotgit.join("objects/pack");
            let names = [&a, &b].map(|es| hex(&build_pack(2, es).id));
            place(order, &|| {
                let w = |n: &str, b: &[u8]| std::fs::write(d.join(n), b).unwrap();
                match k {
                    0 => w("tmp_pack_Ab12", &pc.bytes[..30]),
                    1 => w("tmp_idx_Ab12", &ic[..100]),
                    2 => w("pack-c.keep", b""),
                    3 => w("multi-pack-index", b"MIDX"),
                    4 => std::fs::create_dir_all(d.join("sub/pack-x.idx")).unwrap(),
                    5 => w("README", b"hello"),
                    6 => w(".idx", b""),
                    7 => std::fs::create_dir(d.join("dir.idx")).unwrap(),
                    8 => std::os::unix::fs::symlink("/nonexistent/x", d.join("dangling.idx")).unwrap(),
                    k if k < 9 + BESIDE.len() => {
                        // files git puts beside a pack, or that are left over beside it
                        for n in &names {
                            std::fs::write(r.pack_path(n, BESIDE[k - 9]), if k % 2 == 0 { &b""[..] } else { b"test\n" }).unwrap();
                        }
                    }
                    k => {
                        let p = r.dotgit.join("objects").join(ELSEWHERE[k - 9 - BESIDE.len()]);
                        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                        std::fs::write(p, b"/nonexistent/objects\n").unwrap();
                    }
                }
            });
            what = format!("other file {} in the pack directory (order {})", k, order);
        }
        // damage to one object
        _ => {
            let order = ex.choose(6);
            let k = ex.choose(5);
            place(order, &|| {
                let mut p = pc.bytes.clone();
                match k {
                    0 => p[pc.spans[0].0 + 3] ^= 0x55,
                    1 => p[pc.spans[1].1 - 1] ^= 1,
                    2 => p[pc.offsets[1] as usize] ^= 0x70,
                    _ => (),
                }
                r.put_pack_raw("c", &p, &ic);
            });
            match k {
                0 => bad = vec![vs[2].id, vs[3].id],
                1 | 2 => {
                    bad = vec![vs[3].id];
                    ok.push(vs[2].clone());
                }
                3 => {
                    let x = sha1(b"x");
                    r.put_loose_raw(&x, b"garbage");
                    bad = vec![x];
                    ok.extend([vs[2].clone(), vs[3].clone()]);
                }
                _ => {
                    // same directory as the good loose object, empty
                    let mut x = loose.id;
                    x[19] ^= 1;
                    r.put_loose_raw(&x, b"");
                    bad = vec![x];
                    ok.extend([vs[2].clone(), vs[3].clone()]);
                }
            }
            what.push_str(&format!("damaged object {} (order {})", k, order));
        }
    }
    // every sequence of reads on one handle
    let depth = if ex.quick() { 2 } else { 3 };
    let ids: Vec<(Oid, Option<&Obj>)> = ok
        .iter()
        .map(|o| (o.id, Some(o)))
        .chain(bad.iter().map(|i| (*i, None)))
        .chain([(sha1(b"missing"), None)])
        .collect();
    let total = ids.len().pow(depth as u32);
    for s in 0..total {
        let db = ObjectDatabase::open(&r.dotgit);
        let mut k = s;
        let mut done = vec![];
        for t in 0..depth {
            let (id, o) = &ids[k % ids.len()];
            k /= ids.len();
            // time passes before the last read in half of the sequences
            let now = 1_000_000_000_000 + if t + 1 == depth && s % 2 == 1 { 10_000_000_000 } else { 0 };
            let got = lib_at(ex, now, || guarded(|| repo::parse(&db, id)));
            ex.evals(1);
            let got = match got {
                Ok(g) => g,
                Err(p) => return fail("panic", format!("{}: after {:?}: panic {}", what, done, p)),
            };
            ex.outcome(&got.class());
            match o {
                Some(o) => ensure!(
                    got == Obs::Obj(o.kind, o.rendered.clone()),
                    "undamaged-unreadable",
                    "{}: the undamaged {} {} reads as {} (read before: {:?})",
                    what,
                    o.kind.name(),
                    hex(id),
                    got.short(),
                    done
                ),
                None => ensure!(
                    matches!(got, Obs::Err(_) | Obs::NotFound) || matches!(&got, Obs::Obj(k, c) if vs.iter().any(|v| v.id == *id && *k == v.kind && *c == v.rendered)),
                    "forged",
                    "{}: {} reads as {}",
                    what,
                    hex(id),
                    got.short()
                ),
            }
            done.push(hex(id)[..6].to_string());
        }
    }
    ex.state(&what);
    ex.describe(|| what.clone());
    Ok(())
}
