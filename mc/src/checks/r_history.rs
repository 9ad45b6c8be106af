//! R05 (histories of reads on one handle) and R06 (reads while another process repacks).
use super::gen::{self, Obj};
use super::util::*;
use crate::ensure;
use crate::explorer::*;
use crate::gitfmt::*;
use crate::interpose::{quiet, with_env, Ans, Env, Op};
use crate::repo::{self, *};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::Read;

// ---- R05 ----

/// Reconstructed at most once per worker: the histories only read (a store removes its file again).
struct World {
    repo: Repo,
    /// ids with a short label; the last one does not exist
    ids: Vec<(&'static str, Oid)>,
    store: Obj,
}

const DAMAGE: usize = 6;

fn world(ex: &Exec, damage: usize) -> World {
    let dir = ex.scratch.join(format!("r05-{}", damage));
    let fresh = !dir.exists();
    let r = if fresh { Repo::new(dir) } else { Repo { dotgit: dir.join(".git"), root: dir } };
    let vs = gen::versions(Kind::Blob, 5, 400, false);
    let cm = gen::versions(Kind::Commit, 3, 300, false);
    let plain = gen::obj(Kind::Tree, 200, 5, false);
    let other = gen::obj(Kind::Tag, 200, 6, false);
    let loose = gen::obj(Kind::Blob, 9000, 7, true);
    let store = gen::obj(Kind::Blob, 50, 8, false);
    let x = sha1(b"damaged");
    let y = sha1(b"on damaged");
    let xl = sha1(b"damaged loose");
    let ids = vec![
        ("base", vs[0].id),
        ("d1", vs[1].id),
        ("d2", vs[2].id),
        ("d3", vs[3].id),
        ("bad", x),
        ("on-bad", y),
        ("tree", plain.id),
        ("commit", cm[0].id),
        ("commit2", cm[1].id),
        ("tag-other-pack", other.id),
        ("loose", loose.id),
        ("bad-loose", xl),
        ("stored", store.id),
        ("missing", sha1(b"missing")),
    ];
    if fresh {
        let mut es = vec![
            PackEntry::whole(Kind::Blob, &vs[0].content),
            PackEntry::delta(vs[1].id, Rep::Ofs(0), diff(&vs[0].content, &vs[1].content)),
            PackEntry::delta(vs[2].id, Rep::Ref(vs[1].id), diff(&vs[1].content, &vs[2].content)),
            PackEntry::delta(vs[3].id, Rep::Ofs(0), diff(&vs[0].content, &vs[3].content)),
        ];
        let mut bad = PackEntry::delta(x, Rep::Ofs(1), diff(&vs[1].content, &vs[4].content));
        match damage {
            0 => {
                // wrong checksum
                let mut z = zlib(&bad.data, 6);
                let n = z.len();
                z[n - 1] ^= 0x40;
                bad.packed = Some(z);
            }
            1 => bad.data = delta(vs[1].content.len(), 3, &[Instr::Copy(0, 2, 0), Instr::Insert(vec![1, 2])]),
            2 => bad.data = delta(vs[1].content.len(), 700, &[Instr::Copy(300, 700, 0)]),
            3 => bad.rep = Rep::Ref(sha1(b"no such base")),
            4 => bad.declared = Some(bad.data.len() as u64 + 1),
            _ => bad.rep = Rep::Raw(5, vec![]),
        }
        es.push(bad);
        es.push(PackEntry::delta(y, Rep::Ofs(4), diff(&vs[4].content, &vs[2].content)));
        es.push(PackEntry::whole(Kind::Tree, &plain.content));
        es.push(PackEntry::delta(cm[1].id, Rep::Ref(cm[0].id), diff(&cm[0].content, &cm[1].content)));
        es.push(PackEntry::whole(Kind::Commit, &cm[0].content));
        r.put_pack(2, 2, &es);
        r.put_pack(
            2,
            1,
            &[
                PackEntry::whole(Kind::Tag, &other.content),
                PackEntry::whole(Kind::Blob, &vs[0].content),
                PackEntry::delta(vs[3].id, Rep::Ofs(1), diff(&vs[0].content, &vs[3].content)),
            ],
        );
        r.put_loose(Kind::Blob, &loose.content);
        let mut f = zlib(&framed(Kind::Blob, &noise(3, 300)), 6);
        let n = f.len();
        f[n - 2] ^= 1;
        r.put_loose_raw(&xl, &f);
    }
    World { repo: r, ids, store }
}

/// How an object is read; 2 stops after a few bytes and drops the reader.
fn observe(db: &rusty_git::object::ObjectDatabase, o: &Oid, how: usize) -> Obs {
    match how {
        0 => repo::parse(db, o),
        1 => match repo::raw(db, o) {
            Ok(v) => Obs::Obj(Kind::Blob, v),
            Err(e) => e,
        },
        _ => match db.read_object(id(o)) {
            Ok(mut r) => {
                let mut b = [0u8; 9];
                match r.reader().read(&mut b) {
                    Ok(n) => Obs::Obj(Kind::Blob, b[..n].to_vec()),
                    Err(e) => Obs::Err(e.to_string()),
                }
            }
            Err(e) if e.is_not_found() => Obs::NotFound,
            Err(e) => Obs::Err(err_text(&e)),
        },
    }
}

fn same(a: &Obs, b: &Obs) -> bool {
    match (a, b) {
        (Obs::Err(_), Obs::Err(_)) => true,
        (a, b) => a == b,
    }
}

/// A sparse pack whose entries agree in the low bits of their offsets, each with a delta beside it.
fn far_world(ex: &Exec) -> (Repo, Vec<(u64, Oid, Kind, Vec<u8>)>) {
    use std::os::unix::fs::FileExt;
    let dir = ex.scratch.join("r05-far");
    let fresh = !dir.exists();
    let r = if fresh { Repo::new(dir) } else { Repo { dotgit: dir.join(".git"), root: dir } };
    let mut objs = vec![];
    let mut es = vec![];
    let mut parts: Vec<(u64, Vec<u8>)> = vec![];
    let high = [0u64, 1 << 8, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 3 << 32, 1 << 40];
    for (i, h) in high.iter().enumerate() {
        let kind = if i % 2 == 0 { Kind::Blob } else { Kind::Tag };
        let a = gen::obj(kind, 40 + i, 300 + i as u64, false);
        let b = gen::obj(kind, 50 + i, 400 + i as u64, false);
        let mut e = pack_obj_header(if kind == Kind::Blob { 3 } else { 4 }, a.content.len() as u64);
        e.extend(zlib(&a.content, 6));
        assert!(e.len() < 116);
        parts.push((12 + h, e));
        es.push(IdxEntry { id: a.id, offset: 12 + h, crc: 0, force64: false });
        let d = diff(&a.content, &b.content);
        let at = 128 + h;
        let mut e = if i % 3 == 0 {
            let mut e = pack_obj_header(7, d.len() as u64);
            e.extend(a.id);
            e
        } else {
            let mut e = pack_obj_header(6, d.len() as u64);
            e.extend(ofs_encode(116));
            e
        };
        e.extend(zlib(&d, 6));
        assert!(e.len() < 128);
        parts.push((at, e));
        es.push(IdxEntry { id: b.id, offset: at, crc: 0, force64: false });
        objs.push((12 + h, a.id, kind, a.rendered.clone()));
        objs.push((at, b.id, kind, b.rendered.clone()));
    }
    // deltas that reach over the whole distance
    let far = gen::obj(Kind::Blob, 60, 500, false);
    let at = (1u64 << 40) + 512;
    let first = gen::obj(Kind::Blob, 40, 300, false);
    let d = diff(&first.content, &far.content);
    let mut e = pack_obj_header(6, d.len() as u64);
    e.extend(ofs_encode(at - 12));
    e.extend(zlib(&d, 6));
    parts.push((at, e));
    es.push(IdxEntry { id: far.id, offset: at, crc: 0, force64: false });
    objs.push((at, far.id, Kind::Blob, far.rendered.clone()));
    if fresh {
        std::fs::create_dir_all(r.dotgit.join("objects/pack")).unwrap();
        let f = std::fs::File::create(r.pack_path("far", "pack")).unwrap();
        let mut head = b"PACK".to_vec();
        head.extend_from_slice(&2u32.to_be_bytes());
        head.extend_from_slice(&(es.len() as u32).to_be_bytes());
        f.write_all_at(&head, 0).unwrap();
        let mut end = 0;
        for (o, b) in &parts {
            f.write_all_at(b, *o).unwrap();
            end = end.max(o + b.len() as u64);
        }
        let pid = sha1(b"far");
        f.write_all_at(&pid, end).unwrap();
        std::fs::write(r.pack_path("far", "idx"), build_idx(2, &es, pid)).unwrap();
    }
    (r, objs)
}

/// Reads of objects whose offsets are alike, on one handle.
fn far(ex: &Exec) -> Res {
    let (r, objs) = quiet(|| far_world(ex));
    let depth = if ex.quick() { 2 } else { 3 };
    let db = r.db();
    let mut hist = vec![];
    for _ in 0..depth {
        let (at, oid, kind, rendered) = ex.pick(&objs);
        hist.push(*at);
        let g = lib(ex, || guarded(|| repo::parse(&db, oid))).unwrap_or_else(Obs::Err);
        ex.evals(1);
        ensure!(
            g == Obs::Obj(*kind, rendered.clone()),
            "history",
            "reading the objects at offsets {:x?} through one handle: the last one is {}, expected the {} of {} bytes",
            hist,
            g.short(),
            kind.name(),
            rendered.len()
        );
    }
    ex.state(&("far", &hist));
    ex.describe(|| format!("objects at offsets {:x?} read in turn", hist));
    Ok(())
}

pub fn r05(ex: &Exec) -> Res {
    let damage = ex.choose(DAMAGE + 2);
    match damage {
        DAMAGE => return far(ex),
        d if d > DAMAGE => return super::scale::long_history(ex),
        _ => (),
    }
    let w = quiet(|| world(ex, damage));
    let depth = if ex.quick() { 3 } else { 4 };
    let hows: &[usize] = if ex.quick() { &[0, 1] } else { &[0, 1, 2] };
    let db = w.repo.db();
    let stored = w.repo.loose_path(&w.store.id);
    let _ = std::fs::remove_file(&stored);
    let mut hist: Vec<String> = vec![];
    let mut t = 1_000_000_000_000u64;
    let mut has_stored = false;
    for _ in 0..depth {
        let k = ex.choose(w.ids.len() + 1);
        if k == w.ids.len() {
            if has_stored {
                ex.prune();
            }
            has_stored = true;
            hist.push("store".into());
            let r = lib_at(ex, t, || db.write_object(&framed(Kind::Blob, &w.store.content)).map_err(|e| err_text(&e)));
            ensure!(r.is_ok(), "store", "{:?}: store failed: {:?}", hist, r);
            continue;
        }
        let how = hows[if k == 6 || k == 12 || k == 13 { 0 } else { ex.choose(hows.len()) }];
        hist.push(format!("{}:{}", ["parse", "read", "partial"][how], w.ids[k].0));
        t += 10_000_000;
        let got = lib_at(ex, t, || guarded(|| observe(&db, &w.ids[k].1, how)));
        let want = lib_at(ex, t, || guarded(|| observe(&w.repo.db(), &w.ids[k].1, how)));
        ex.evals(1);
        match (got, want) {
            (Ok(g), Ok(w)) if same(&g, &w) => ex.outcome(&(k, how, has_stored, g.class())),
            (g, w) => {
                return fail(
                    "history",
                    format!(
                        "after {:?} (damage {}): the handle answers {}, a fresh handle {}",
                        hist,
                        damage,
                        g.map(|o| o.short()).unwrap_or_else(|e| e),
                        w.map(|o| o.short()).unwrap_or_else(|e| e)
                    ),
                )
            }
        }
    }
    ex.state(&(damage, &hist));
    ex.describe(|| format!("damage {} history {:?}", damage, hist));
    let _ = std::fs::remove_file(&stored);
    Ok(())
}

// ---- R06 ----

fn pair() -> Vec<Obj> {
    vec![gen::obj(Kind::Blob, 40, 61, false), gen::obj(Kind::Commit, 260, 62, false)]
}

#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
struct Model {
    loose: Vec<bool>,
    packs: Vec<(u32, Vec<bool>)>,
    next: u32,
}

fn pack_for(objs: &[Obj], which: &[bool], serial: u32) -> (String, Vec<u8>, Vec<u8>) {
    // something that differs from pack to pack
    let filler = format!("filler {}", serial).into_bytes();
    let mut es = vec![PackEntry::whole(Kind::Blob, &filler)];
    for (n, o) in objs.iter().enumerate().filter(|(n, _)| which[*n]) {
        if serial % 4 == 2 {
            es.push(PackEntry::whole(o.kind, &o.content));
            continue;
        }
        // a delta of something only this pack has
        let base = if o.kind == Kind::Blob {
            filler.clone()
        } else {
            let b = gen::obj(o.kind, 250, 900 + serial as u64, false).content;
            es.push(PackEntry::whole(o.kind, &b));
            b
        };
        let at = es.len() - 1;
        let rep = if n % 2 == 0 { Rep::Ofs(at) } else { Rep::Ref(es[at].id) };
        es.push(PackEntry::delta(o.id, rep, diff(&base, &o.content)));
    }
    let p = build_pack(2, &es);
    let i = idx_for(2, &es, &p);
    (hex(&p.id), p.bytes, i)
}

pub fn r06(ex: &Exec) -> Res {
    match ex.choose(4) {
        0 => histories(ex),
        3 => threads(ex),
        1 => super::scale::rounds(ex),
        _ => concurrent(ex),
    }
}

fn histories(ex: &Exec) -> Res {
    let objs = pair();
    let depth = if ex.quick() { 5 } else { 7 };
    let start = ex.choose(4);
    let dir = ex.fresh_dir();
    let r = if start == 0 { Repo::bare_bones(dir) } else { Repo::new(dir) };
    let mut m = Model { loose: vec![false; 2], ..Default::default() };
    let mut names: BTreeMap<u32, String> = BTreeMap::new();
    let mkpack = |m: &mut Model, names: &mut BTreeMap<u32, String>, which: Vec<bool>| {
        let s = m.next;
        m.next += 1;
        let (name, p, i) = pack_for(&objs, &which, s);
        r.put_pack_raw(&name, &p, &i);
        names.insert(s, name);
        m.packs.push((s, which));
    };
    match start {
        2 => {
            r.put_loose(objs[0].kind, &objs[0].content);
            m.loose[0] = true;
        }
        3 => mkpack(&mut m, &mut names, vec![true, false]),
        _ => {}
    }
    let db = r.db();
    let mut now = 1_000_000_000_000u64;
    let mut hist: Vec<&'static str> = vec![];
    let read = |k: usize, m: &Model, now: u64, hist: &[&'static str]| -> Res {
        ex.evals(1);
        let exists = m.loose[k] || m.packs.iter().any(|p| p.1[k]);
        let got = lib_at(ex, now, || repo::parse(&db, &objs[k].id));
        let want = if exists { Obs::Obj(objs[k].kind, objs[k].rendered.clone()) } else { Obs::NotFound };
        ensure!(
            got == want,
            "stale",
            "start {} history {:?}: reading object {} gives {}, expected {}",
            start,
            hist,
            k,
            got.short(),
            want.short()
        );
        ex.outcome(&(k, exists, m));
        Ok(())
    };
    for _ in 0..depth {
        match ex.choose(9) {
            k @ (0 | 1) => {
                if m.loose[k] {
                    ex.prune();
                }
                hist.push(["store-a-elsewhere", "store-b"][k]);
                let f = framed(objs[k].kind, &objs[k].content);
                let res = lib_at(ex, now, || {
                    if k == 0 {
                        r.db().write_object(&f).map_err(|e| err_text(&e))
                    } else {
                        db.write_object(&f).map_err(|e| err_text(&e))
                    }
                });
                ensure!(res == Ok(id(&objs[k].id)), "store", "{:?}: store gives {:?}", hist, res);
                // what is in a pack need not be stored again
                let packed = m.packs.iter().any(|p| p.1[k]);
                m.loose[k] = !packed || r.loose_path(&objs[k].id).exists();
            }
            2 => {
                hist.push("pack-loose");
                if !m.loose.iter().any(|x| *x) {
                    ex.prune();
                }
                let w = m.loose.clone();
                mkpack(&mut m, &mut names, w);
            }
            3 => {
                hist.push("prune-packed");
                let mut any = false;
                for k in 0..2 {
                    if m.loose[k] && m.packs.iter().any(|p| p.1[k]) {
                        std::fs::remove_file(r.loose_path(&objs[k].id)).unwrap();
                        // git also removes the directory when it is empty
                        let _ = std::fs::remove_dir(r.loose_path(&objs[k].id).parent().unwrap());
                        m.loose[k] = false;
                        any = true;
                    }
                }
                if !any {
                    ex.prune();
                }
            }
            4 => {
                hist.push("gc");
                let w: Vec<bool> = (0..2).map(|k| m.loose[k] || m.packs.iter().any(|p| p.1[k])).collect();
                if !w.iter().any(|x| *x) {
                    ex.prune();
                }
                let old: Vec<u32> = m.packs.iter().map(|p| p.0).collect();
                mkpack(&mut m, &mut names, w);
                for s in old {
                    std::fs::remove_file(r.pack_path(&names[&s], "idx")).unwrap();
                    std::fs::remove_file(r.pack_path(&names[&s], "pack")).unwrap();
                    m.packs.retain(|p| p.0 != s);
                }
                for k in 0..2 {
                    if m.loose[k] {
                        std::fs::remove_file(r.loose_path(&objs[k].id)).unwrap();
                        m.loose[k] = false;
                    }
                }
            }
            5 => {
                hist.push("1s");
                now += 1_000_000_000
            }
            6 => {
                hist.push("3s");
                now += 3_000_000_000
            }
            k => {
                hist.push(["read-a", "read-b"][k - 7]);
                read(k - 7, &m, now, &hist)?;
            }
        }
        ex.state(&(start, &hist));
    }
    for k in 0..2 {
        read(k, &m, now, &hist)?;
    }
    ex.describe(|| format!("start {} history {:?}", start, hist));
    Ok(())
}

/// Performs the next steps of another process at intercepted calls, as the explorer decides.
struct Other<'a> {
    ex: &'a Exec<'a>,
    steps: RefCell<Vec<(&'static str, Box<dyn Fn()>)>>,
    log: RefCell<Vec<String>>,
    now: Cell<u64>,
    calls: Cell<u64>,
    in_read: Cell<bool>,
}

impl Other<'_> {
    fn run_some(&self, at: &str) {
        let left = self.steps.borrow().len();
        if left == 0 {
            return;
        }
        let n = self.ex.choose(left + 1);
        for _ in 0..n {
            let (name, f) = self.steps.borrow_mut().remove(0);
            f();
            self.log.borrow_mut().push(format!("{} before {} #{}", name, at, self.calls.get()));
        }
    }
}

impl Env for Other<'_> {
    fn call(&self, op: &Op) -> Ans {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > 2_000_000 {
            fatal("runaway: more than 2000000 system calls in one execution");
        }
        // the steps only change names, so they commute with every call on an open file
        if self.in_read.get()
            && matches!(op, Op::Open { .. } | Op::Opendir { .. } | Op::Readdir | Op::Stat { .. })
        {
            self.run_some(op.name());
        }
        Ans::Go
    }
    fn clock(&self) -> u64 {
        self.now.get()
    }
}

fn concurrent(ex: &Exec) -> Res {
    let objs = pair();
    let o = objs[0].clone();
    let dir = ex.fresh_dir();
    // where the object is at first
    let place = ex.choose(4); // loose without pack dir, loose, packed, packed + an unrelated pack
    let r = if place == 0 { Repo::bare_bones(dir) } else { Repo::new(dir) };
    let mut old: Option<String> = None;
    if place < 2 {
        r.put_loose(o.kind, &o.content);
    } else {
        let (n, p, i) = pack_for(&objs, &[true, false], 0);
        r.put_pack_raw(&n, &p, &i);
        old = Some(n);
        if place == 3 {
            let (n, p, i) = pack_for(&objs, &[false, true], 7);
            r.put_pack_raw(&n, &p, &i);
        }
    }
    let db = r.db();
    let mut t = 1_000_000_000_000u64;
    // what the handle did before
    let warm = ex.choose(4);
    match warm {
        0 => {}
        1 => {
            let _ = lib_at(ex, t, || repo::parse(&db, &sha1(b"unrelated")));
        }
        2 => {
            let _ = lib_at(ex, t, || repo::parse(&db, &o.id));
        }
        _ => {
            let _ = lib_at(ex, t, || repo::parse(&db, &sha1(b"unrelated")));
            t += 3_000_000_000;
        }
    }
    // the other process: pack everything into a new pack, then drop what became redundant
    let (n1, p1, i1) = pack_for(&objs, &[true, true], 1);
    let mut steps: Vec<(&'static str, Box<dyn Fn()>)> = vec![];
    let pd = r.dotgit.join("objects/pack");
    {
        let pd = pd.clone();
        steps.push(("mkdir", Box::new(move || {
            let _ = std::fs::create_dir_all(&pd);
        })));
    }
    let pf = r.pack_path(&n1, "pack");
    let xf = r.pack_path(&n1, "idx");
    {
        let (tmp, pf) = (pd.join("tmp_pack_1"), pf.clone());
        steps.push(("tmp pack", Box::new({
            let tmp = tmp.clone();
            let p1 = p1.clone();
            move || std::fs::write(&tmp, &p1[..20]).unwrap()
        })));
        steps.push(("new pack", Box::new(move || {
            std::fs::write(&tmp, &p1).unwrap();
            std::fs::rename(&tmp, &pf).unwrap()
        })));
    }
    {
        let tmp = pd.join("tmp_idx_1");
        steps.push(("tmp idx", Box::new({
            let tmp = tmp.clone();
            let i1 = i1.clone();
            move || std::fs::write(&tmp, &i1[..100]).unwrap()
        })));
        let xf = xf.clone();
        steps.push(("new idx", Box::new(move || {
            std::fs::write(&tmp, &i1).unwrap();
            std::fs::rename(&tmp, &xf).unwrap()
        })));
    }
    if place < 2 {
        let lp = r.loose_path(&o.id);
        let ld = lp.parent().unwrap().to_path_buf();
        steps.push(("unlink loose", Box::new(move || std::fs::remove_file(&lp).unwrap())));
        steps.push(("rmdir loose", Box::new(move || {
            let _ = std::fs::remove_dir(&ld);
        })));
    }
    if let Some(n) = old {
        let exts = if ex.flag() { ["pack", "idx"] } else { ["idx", "pack"] };
        for e in exts {
            let p = r.pack_path(&n, e);
            steps.push((if e == "idx" { "unlink old idx" } else { "unlink old pack" }, Box::new(move || std::fs::remove_file(&p).unwrap())));
        }
    }
    if ex.quick() {
        // coarser: "new pack", "new idx", then the removals one by one
        let mut merged: Vec<(&'static str, Box<dyn Fn()>)> = vec![];
        let mut rest = steps.into_iter();
        for (name, n) in [("new pack", 3), ("new idx", 2)] {
            let part: Vec<_> = rest.by_ref().take(n).map(|s| s.1).collect();
            merged.push((name, Box::new(move || part.iter().for_each(|f| f()))));
        }
        merged.extend(rest.filter(|s| s.0 != "rmdir loose"));
        steps = merged;
    }
    let total = steps.len();
    let env = Other {
        ex,
        steps: RefCell::new(steps),
        log: RefCell::new(vec![]),
        now: Cell::new(t),
        calls: Cell::new(0),
        in_read: Cell::new(true),
    };
    let how = ex.choose(2);
    quiet(|| env.run_some("start"));
    ex.step();
    let want = match how {
        0 => Obs::Obj(o.kind, o.rendered.clone()),
        _ => Obs::Obj(Kind::Blob, framed(o.kind, &o.content)),
    };
    let got = with_env(&env, || guarded(|| observe(&db, &o.id, how)));
    ex.evals(1);
    let ctx = || format!("place {} warm {} how {} steps {:?}", place, warm, how, env.log.borrow());
    let got = match got {
        Ok(g) => g,
        Err(p) => return fail("panic", format!("{}: {}", ctx(), p)),
    };
    ensure!(got == want, "concurrent", "{}: read gives {}", ctx(), got.short());
    ex.state(&(place, warm, how, env.log.borrow().clone()));
    ex.outcome(&got);
    // the rest of the repack happens, then the same handle reads again
    env.in_read.set(false);
    while !env.steps.borrow().is_empty() {
        let (_, f) = env.steps.borrow_mut().remove(0);
        quiet(f);
    }
    env.now.set(t + 1_000_000);
    for k in 0..2 {
        let got = with_env(&env, || guarded(|| repo::parse(&db, &objs[k].id)));
        let w = Obs::Obj(objs[k].kind, objs[k].rendered.clone());
        ex.evals(1);
        match got {
            Ok(g) if g == w => {}
            Ok(g) => return fail("after", format!("{}: later read of object {} gives {}", ctx(), k, g.short())),
            Err(p) => return fail("panic", format!("{}: {}", ctx(), p)),
        }
    }
    ex.describe(|| format!("{} of {} steps", ctx(), total));
    Ok(())
}

/// Where a thread looks at names (and at lock operations that block or wake).
fn name_points(op: &Op) -> bool {
    matches!(op, Op::Open { .. } | Op::Opendir { .. } | Op::Stat { .. })
}

/// Several threads read through one handle while another process (or one of them) repacks.
fn threads(ex: &Exec) -> Res {
    use crate::sched;
    use std::sync::Arc;
    let objs = pair();
    let r = Repo::new(ex.fresh_dir());
    // object 0 is loose or in the old pack; object 1 in the old pack
    let loose = ex.flag();
    // every call is a point, or only those that look at names
    let fine = ex.flag();
    // deltas take many more calls
    let deltas = !(fine && ex.quick()) && ex.flag();
    let serial = if deltas { 0 } else { 2 };
    let (n0, p0, i0) = pack_for(&objs, &[!loose, true], serial);
    r.put_pack_raw(&n0, &p0, &i0);
    if loose {
        r.put_loose(objs[0].kind, &objs[0].content);
    }
    let t = 1_000_000_000_000u64;
    let db = Arc::new(r.db());
    let warm = ex.choose(3);
    match warm {
        0 => (),
        // just looked at the disk, or some time ago
        w => drop(lib_at(ex, if w == 1 { t } else { t - 3_000_000_000 }, || repo::parse(&db, &sha1(b"unrelated")))),
    }
    let (n1, p1, i1) = pack_for(&objs, &[true, true], if serial == 0 { 1 } else { 6 });
    let mut steps: Vec<(&'static str, Box<dyn FnOnce() + Send>)> = vec![];
    let (pf, xf) = (r.pack_path(&n1, "pack"), r.pack_path(&n1, "idx"));
    steps.push((
        "new pack",
        Box::new(move || {
            std::fs::write(&pf, &p1).unwrap();
            let tmp = xf.with_extension("tmp");
            std::fs::write(&tmp, &i1).unwrap();
            std::fs::rename(&tmp, &xf).unwrap();
        }),
    ));
    let lp = r.loose_path(&objs[0].id);
    let (oi, op) = (r.pack_path(&n0, "idx"), r.pack_path(&n0, "pack"));
    let drops = ex.choose(3);
    if loose {
        steps.push(("unlink loose", Box::new(move || std::fs::remove_file(&lp).unwrap())));
    }
    if drops > 0 {
        steps.push(("unlink old idx", Box::new(move || std::fs::remove_file(&oi).unwrap())));
        let unlink = Box::new(move || std::fs::remove_file(&op).unwrap());
        let at = if drops == 1 { steps.len() } else { steps.len() - 1 };
        steps.insert(at, ("unlink old pack", unlink));
    }
    let wait = ex.flag();
    // what each thread does: Some(k) reads object k, 2 is missing; None performs the steps
    let progs: &[&[&[Option<usize>]]] = &[
        &[&[Some(0)], &[None, Some(0)]],
        &[&[Some(2)], &[None, Some(0)]],
        &[&[Some(1)], &[None, Some(0), Some(1)]],
        &[&[Some(0), Some(1)], &[None, Some(1)]],
        &[&[Some(0)], &[Some(0)], &[None]],
        &[&[Some(0)], &[Some(2)], &[None]],
        &[&[Some(2)], &[Some(2)], &[None, Some(0)]],
        &[&[Some(2), Some(0)], &[Some(1), Some(0)], &[None]],
    ];
    let k = ex.choose(if deltas && ex.quick() { 4 } else { progs.len() });
    let preempt = match (fine, progs[k].len(), ex.quick()) {
        (false, 2, true) if deltas => 2,
        (true, 2, true) => 2,
        (true, 2, false) => 3,
        (true, _, true) => 1,
        (true, _, false) => 2,
        (false, 2, _) => 4,
        // two that wait for each other's refresh: many choices are free
        (false, _, true) if k == 6 => 1,
        (false, _, false) if k == 6 => 2,
        (false, _, true) => 2,
        (false, _, false) => 3,
    };
    let mut steps = Some(steps);
    let bodies: Vec<Box<dyn FnOnce() -> Vec<(usize, Obs)> + Send>> = progs[k]
        .iter()
        .map(|p| {
            let db = db.clone();
            let ids = [objs[0].id, objs[1].id, sha1(b"no such object")];
            let mut mine = if p.contains(&None) { steps.take() } else { None };
            let p = p.to_vec();
            let root = r.root.clone();
            Box::new(move || {
                let mut out = vec![];
                for o in p {
                    match o {
                        Some(i) => out.push((i, repo::parse(&db, &ids[i]))),
                        None => {
                            for (n, (_, f)) in mine.take().unwrap().into_iter().enumerate() {
                                // others may go on before each step
                                if n > 0 {
                                    let _ = std::fs::metadata(&root);
                                }
                                if wait {
                                    std::thread::sleep(std::time::Duration::from_secs(3));
                                }
                                quiet(f);
                            }
                        }
                    }
                }
                out
            }) as Box<dyn FnOnce() -> Vec<(usize, Obs)> + Send>
        })
        .collect();
    let ctx = || format!("object loose {}, deltas {}, warm {}, dropping {}, waiting {}, program {}, all points {}", loose, deltas, warm, drops, wait, k, fine);
    let out = match sched::run(ex, preempt, if fine { sched::all_points } else { name_points }, bodies) {
        Ok(o) => o,
        Err(v) => return fail(v.sig, format!("{}: {}", ctx(), v.msg)),
    };
    ex.count("scheduling points", out.steps);
    ex.state(&(loose, deltas, warm, drops, wait, k, fine, &out.trace));
    let want = |i: usize| if i < 2 { Obs::Obj(objs[i].kind, objs[i].rendered.clone()) } else { Obs::NotFound };
    for res in &out.results {
        match res {
            Err(m) => return fail("panic", format!("{}: a thread panicked: {}", ctx(), m)),
            Ok(v) => {
                for (i, g) in v {
                    ex.evals(1);
                    ensure!(*g == want(*i), "threads", "{}: object {} reads as {} (schedule {:?})", ctx(), i, g.short(), out.trace);
                }
            }
        }
    }
    for i in 0..3 {
        let g = lib_at(ex, t, || repo::parse(&db, &if i < 2 { objs[i].id } else { sha1(b"no such object") }));
        ex.evals(1);
        ensure!(g == want(i), "threads", "{}: afterwards object {} reads as {}", ctx(), i, g.short());
    }
    ex.describe(|| format!("{}: schedule {:?}", ctx(), out.trace.iter().map(|t| t.0).collect::<Vec<_>>()));
    Ok(())
}
