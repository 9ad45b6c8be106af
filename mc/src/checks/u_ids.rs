//! U01 (ids), U02 (opening and classification of errors).
use super::gen;
use super::util::*;
use crate::ensure;
use crate::explorer::*;
use crate::gitfmt::*;
use crate::repo::{self, *};
use rusty_git::object::{Id, ObjectDatabase, ShortId};
use rusty_git::repository::{OpenError, Repository};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::str::FromStr;

// ---- U01 ----

fn hashed<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn unhex(s: &[u8]) -> Option<Vec<u8>> {
    let d = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    s.chunks(2).map(|p| Some(d(p[0])? * 16 + d(p[1])?)).collect()
}

fn one_text(ex: &Exec, t: &[u8]) -> Res {
    ex.state(t);
    ex.evals(1);
    let bytes = unhex(t);
    let full = bytes.clone().filter(|b| b.len() == 20);
    let short = bytes.filter(|b| b.len() >= 2 && b.len() <= 20);
    let text = String::from_utf8(t.to_vec()).ok();
    let show = || format!("{:?}", String::from_utf8_lossy(t));
    let lower = t.to_ascii_lowercase();
    let ids: Vec<Result<Id, String>> = lib(ex, || {
        guarded(|| {
            let mut v = vec![Id::from_hex(t).map_err(|e| format!("{} {:?}", e, e))];
            if let Some(s) = &text {
                v.push(Id::from_str(s).map_err(|e| e.to_string()));
                v.push(s.parse().map_err(|e: rusty_git::object::ParseIdError| e.to_string()));
            }
            v
        })
    })
    .or_else(|p| fail("panic", format!("parsing {} as an id panics: {}", show(), p)))?;
    for r in ids {
        ex.outcome(&r.is_ok());
        match (&full, r) {
            (None, Err(_)) => (),
            (None, Ok(i)) => return fail("id-accepts", format!("{} parses as the id {:?}", show(), i)),
            (Some(_), Err(e)) => return fail("id-rejects", format!("{} is no id: {}", show(), e)),
            (Some(b), Ok(i)) => {
                ensure!(i == Id::from_bytes(b), "id-value", "{} parses as {:?}", show(), i);
                for p in [i.to_hex(), i.to_string(), format!("{:?}", i), ShortId::from(i).to_hex()] {
                    ensure!(p.as_bytes() == &lower[..], "id-print", "{} prints as {}", show(), p);
                }
                let s = ShortId::from(i);
                let again = ShortId::from_hex(t);
                ensure!(again.is_ok(), "full-short", "{} is no abbreviated id", show());
                ensure!(again.unwrap() == s, "full-short", "the abbreviated form of {} differs", show());
                ensure!(
                    s.cmp_id(&i) == Ordering::Equal && i.cmp_short(&s) == Ordering::Equal,
                    "full-short",
                    "{} differs from its abbreviated form",
                    show()
                );
            }
        }
    }
    let shorts: Vec<Result<ShortId, String>> = lib(ex, || {
        guarded(|| {
            let mut v = vec![ShortId::from_hex(t).map_err(|e| format!("{} {:?}", e, e))];
            if let Some(s) = &text {
                v.push(ShortId::from_str(s).map_err(|e| e.to_string()));
            }
            v
        })
    })
    .or_else(|p| fail("panic", format!("parsing {} as an abbreviated id panics: {}", show(), p)))?;
    for r in shorts {
        match (&short, r) {
            (None, Err(_)) => (),
            (None, Ok(i)) => return fail("short-accepts", format!("{} parses as the abbreviated id {:?}", show(), i)),
            (Some(_), Err(e)) => return fail("short-rejects", format!("{} is no abbreviated id: {}", show(), e)),
            (Some(_), Ok(i)) => {
                for p in [i.to_hex(), i.to_string(), format!("{:?}", i)] {
                    ensure!(p.as_bytes() == &lower[..], "short-print", "the abbreviated id {} prints as {}", show(), p);
                }
            }
        }
    }
    Ok(())
}

fn universe() -> Vec<[u8; 20]> {
    let mut v = vec![];
    for b in [0u8, 1, 0x0f, 0x10, 0x7f, 0x80, 0xfe, 0xff] {
        v.push([b; 20]);
    }
    for base in [[0u8; 20], [0x80; 20], [0xff; 20], sha1(b"u")] {
        for i in 0..20 {
            for d in [1u8, 0x10, 0x80, 0xff] {
                let mut x = base;
                x[i] = x[i].wrapping_add(d);
                v.push(x);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn u01(ex: &Exec) -> Res {
    let base = b"0123456789abcdefABCDEFfedcba987654321000";
    match ex.choose(5) {
        // every byte at every position, at several lengths
        0 => {
            let lens = [4usize, 5, 6, 7, 20, 38, 39, 40, 41, 42];
            let n = *ex.pick(&lens);
            let text: Vec<u8> = base.iter().cycle().take(n).cloned().collect();
            let i = ex.choose(n);
            for v in 0..=255u8 {
                let mut t = text.clone();
                t[i] = v;
                one_text(ex, &t)?;
            }
            ex.describe(|| format!("{} digits with digit {} varied", n, i));
        }
        // every length, and what might be added to a valid text
        1 => {
            for n in 0..=130 {
                let t: Vec<u8> = base.iter().cycle().take(n).cloned().collect();
                one_text(ex, &t)?;
                one_text(ex, &t.to_ascii_uppercase())?;
                one_text(ex, &b"g".repeat(n))?;
                for (pre, post) in [("", "\n"), (" ", ""), ("", " "), ("0x", ""), ("+", ""), ("-", ""), ("", "\0"), ("\u{e9}", ""), ("", "\u{e9}"), ("\u{661}", "")] {
                    one_text(ex, &[pre.as_bytes(), &t, post.as_bytes()].concat())?;
                    if n >= pre.len() + post.len() {
                        one_text(ex, &[pre.as_bytes(), &t[pre.len() + post.len()..], post.as_bytes()].concat())?;
                    }
                }
            }
        }
        // every pair of digits, at the first and last place
        2 => {
            let a = ex.choose(256) as u8;
            for b in 0..=255u8 {
                for n in [4usize, 40] {
                    let mut t: Vec<u8> = base.iter().cycle().take(n).cloned().collect();
                    t[0] = a;
                    t[1] = b;
                    one_text(ex, &t)?;
                    let mut t: Vec<u8> = base.iter().cycle().take(n).cloned().collect();
                    t[n - 2] = a;
                    t[n - 1] = b;
                    one_text(ex, &t)?;
                }
            }
        }
        // order and equality
        3 => {
            let u = universe();
            let a = *ex.pick(&u);
            let x = Id::from_bytes(&a);
            for b in &u {
                ex.evals(1);
                let y = Id::from_bytes(b);
                let want = hex(&a).cmp(&hex(b));
                ensure!(
                    x.cmp(&y) == want && x.partial_cmp(&y) == Some(want) && (x == y) == (want == Ordering::Equal),
                    "id-order",
                    "{} and {} compare as {:?}",
                    hex(&a),
                    hex(b),
                    x.cmp(&y)
                );
                ensure!((x < y) == (want == Ordering::Less) && (x >= y) == (want != Ordering::Less), "id-order", "{} and {}", hex(&a), hex(b));
                ensure!(x != y || hashed(&x) == hashed(&y), "id-hash", "equal ids hash differently");
                let (s, t) = (ShortId::from(x), ShortId::from(y));
                ensure!((s == t) == (x == y) && s.cmp(&t) == want, "short-order", "{} and {} compare as {:?}", hex(&a), hex(b), s.cmp(&t));
                ensure!(s.cmp_id(&y) == want && y.cmp_short(&s) == want.reverse(), "short-order", "{} and {}", hex(&a), hex(b));
                ensure!(s != t || hashed(&s) == hashed(&t), "id-hash", "equal abbreviated ids hash differently");
            }
            ex.state(&a);
        }
        // abbreviated ids among themselves order like their digits
        _ => {
            let ids = [[0u8; 20], [0xff; 20], sha1(b"u"), { let mut x = sha1(b"u"); x[4] ^= 1; x }, { let mut x = sha1(b"u"); x[19] ^= 0x80; x }];
            let mut all: Vec<String> = vec![];
            for i in ids {
                for n in (4..=40).step_by(2) {
                    all.push(hex(&i)[..n].to_string());
                }
            }
            all.sort();
            all.dedup();
            let a = ex.pick(&all).clone();
            let x = ShortId::from_str(&a).map_err(|e| Violation { sig: "short-rejects".into(), msg: format!("{}: {}", a, e) })?;
            for b in &all {
                ex.evals(1);
                let y = ShortId::from_str(b).map_err(|e| Violation { sig: "short-rejects".into(), msg: format!("{}: {}", b, e) })?;
                let want = a.cmp(b);
                ensure!(
                    x.cmp(&y) == want && (x == y) == (want == Ordering::Equal),
                    "short-order",
                    "the abbreviated ids {} and {} compare as {:?}",
                    a,
                    b,
                    x.cmp(&y)
                );
                ensure!(x != y || hashed(&x) == hashed(&y), "id-hash", "equal abbreviated ids hash differently");
            }
            ex.state(&a);
        }
    }
    Ok(())
}

// ---- U02 ----

fn named(e: &rusty_git::object::ReadObjectError, id: &Oid) -> Res {
    let h = hex(id);
    ensure!(e.id() == ShortId::from(repo::id(id)), "error-id", "the error about {} has id {}", h, e.id());
    ensure!(e.to_string().contains(&h), "error-id", "the error about {} reads {:?}", h, e.to_string());
    Ok(())
}

fn classified(ex: &Exec, db: &ObjectDatabase, id: &Oid, exists: bool, ctx: &str) -> Res {
    for stream in [false, true] {
        let got = lib(ex, || {
            guarded(|| match stream {
                true => db.read_object(repo::id(id)).map(|_| ()),
                false => db.parse_object(repo::id(id)).map(|_| ()),
            })
        })
        .or_else(|p| fail("panic", format!("{}: panic {}", ctx, p)))?;
        ex.evals(1);
        ex.outcome(&(got.is_ok(), exists));
        match got {
            Ok(()) => ensure!(exists, "found-nothing", "{}: {} is read although it does not exist", ctx, hex(id)),
            Err(e) => {
                ensure!(!exists, "not-readable", "{}: {} fails: {}", ctx, hex(id), err_text(&e));
                ensure!(e.is_not_found(), "classification", "{}: the missing {} is reported as {}", ctx, hex(id), err_text(&e));
                ensure!(!e.is_ambiguous(), "classification", "{}: the missing {} is called ambiguous", ctx, hex(id));
                named(&e, id)?;
            }
        }
    }
    Ok(())
}

pub fn u02(ex: &Exec) -> Res {
    match ex.choose(3) {
        // paths and git directories
        0 => {
            let dir = ex.fresh_dir();
            let root = dir.join("work");
            let at = ex.choose(8);
            let git = ex.choose(9);
            let real = if at == 3 { dir.join("real") } else { root.clone() };
            let mut is_dir = true;
            match at {
                0 | 4 | 5 | 6 | 7 => std::fs::create_dir_all(&root).unwrap(),
                1 => is_dir = false,
                2 => {
                    std::fs::write(&root, b"file").unwrap();
                    is_dir = false;
                }
                _ => {
                    std::fs::create_dir_all(&real).unwrap();
                    std::os::unix::fs::symlink(&real, &root).unwrap();
                }
            }
            let mut is_git = is_dir;
            if is_dir {
                let g = real.join(".git");
                match git {
                    0 => std::fs::create_dir(&g).unwrap(),
                    1 => {
                        std::fs::create_dir(&g).unwrap();
                        for f in ["objects", "refs", "HEAD", "config"] {
                            std::fs::write(g.join(f), b"\xff\0broken").unwrap();
                        }
                    }
                    2 => {
                        Repo::new(real.clone());
                    }
                    3 => is_git = false,
                    4 => {
                        std::fs::write(&g, b"gitdir: elsewhere\n").unwrap();
                        is_git = false;
                    }
                    5 => {
                        Repo::new(dir.join("other"));
                        std::os::unix::fs::symlink(dir.join("other/.git"), &g).unwrap();
                    }
                    6 => {
                        std::os::unix::fs::symlink("nowhere", &g).unwrap();
                        is_git = false;
                    }
                    7 => {
                        // a bare repository is not one that contains a git directory
                        let o = Repo::new(dir.join("other"));
                        std::fs::remove_dir(&real).unwrap();
                        std::fs::rename(&o.dotgit, &real).unwrap();
                        is_git = false;
                    }
                    _ => {
                        for f in [".Git", "git", ".git2"] {
                            std::fs::create_dir(real.join(f)).unwrap();
                        }
                        is_git = false;
                    }
                }
            }
            let path: PathBuf = match at {
                4 => PathBuf::from(format!("{}/", root.display())),
                5 => root.join("."),
                6 => {
                    std::fs::create_dir(root.join("sub")).unwrap();
                    root.join("sub/..")
                }
                // a directory below is no repository by itself
                7 => {
                    std::fs::create_dir(root.join("sub")).unwrap();
                    is_git = false;
                    root.join("sub")
                }
                _ => root.clone(),
            };
            let ctx = format!("path kind {}, git directory kind {}", at, git);
            for p in 0..3 {
                let got = lib(ex, || {
                    guarded(|| match p {
                        0 => Repository::open(path.clone()),
                        1 => Repository::open(&path),
                        _ => Repository::open(path.to_str().unwrap()),
                    })
                })
                .or_else(|p| fail("panic", format!("{}: panic {}", ctx, p)))?;
                ex.evals(1);
                ex.outcome(&(got.is_ok(), is_git));
                match got {
                    Ok(r) => {
                        ensure!(is_git, "opens", "{}: opens", ctx);
                        // and whatever is in there, using it does not panic
                        let n = lib(ex, || {
                            guarded(|| {
                                let _ = format!("{:?}", r);
                                super::f_refs::poke(&path.join(".git"), b"HEAD")
                                    + format!("{:?}", r.object_database().parse_object(Id::from_bytes(&[1; 20])).err()).len()
                            })
                        });
                        if let Err(p) = n {
                            return fail("panic", format!("{}: using it panics: {}", ctx, p));
                        }
                    }
                    Err(e) => {
                        ensure!(!is_git, "rejects", "{}: {}", ctx, err_text(&e));
                        let text = e.to_string();
                        match e {
                            OpenError::NotFound(at) => {
                                ensure!(at == path, "wrong-path", "{}: not found at {}", ctx, at.display());
                                ensure!(text.contains(path.to_str().unwrap()), "wrong-path", "{}: message {:?}", ctx, text);
                            }
                            e => return fail("classification", format!("{}: reported as {}", ctx, err_text(&e))),
                        }
                    }
                }
            }
            ex.state(&ctx);
            ex.describe(|| ctx.clone());
        }
        // layouts of the object store
        1 => {
            let r = Repo::bare_bones(ex.fresh_dir());
            let o = gen::obj(Kind::Blob, 60, 1, false);
            let p = gen::obj(Kind::Commit, 200, 2, false);
            let q = gen::obj(Kind::Tree, 90, 3, false);
            let objects = r.dotgit.join("objects");
            let store = ex.choose(3);
            let packdir = ex.choose(6);
            let loose = ex.choose(5);
            let where_ = ex.choose(4);
            let idxv = 1 + ex.choose(2) as u32;
            let mut exists = false;
            if store == 0 {
                if packdir + loose + where_ > 0 {
                    return Ok(());
                }
                std::fs::remove_dir(&objects).unwrap();
            }
            if store == 2 {
                std::fs::create_dir_all(objects.join("info")).unwrap();
                std::fs::write(objects.join("info/packs"), b"P pack-x.pack\n").unwrap();
            }
            let pd = objects.join("pack");
            if packdir > 0 {
                std::fs::create_dir(&pd).unwrap();
            }
            let whole = [PackEntry::whole(p.kind, &p.content), PackEntry::whole(q.kind, &q.content)];
            match packdir {
                2 => {
                    r.put_pack(2, idxv, &whole);
                }
                3 => {
                    let x = r.put_pack(2, idxv, &whole);
                    std::fs::remove_file(r.pack_path(&hex(&x.id), "idx")).unwrap();
                }
                4 => {
                    let x = r.put_pack(2, idxv, &whole);
                    std::fs::remove_file(r.pack_path(&hex(&x.id), "pack")).unwrap();
                }
                5 => {
                    for f in ["tmp_pack_x", "pack-x.keep", "pack-x.rev", "multi-pack-index", "idx", "pack", "x.idx.tmp"] {
                        std::fs::write(pd.join(f), b"x").unwrap();
                    }
                }
                _ => (),
            }
            let lp = r.loose_path(&o.id);
            match loose {
                1 => std::fs::create_dir_all(lp.parent().unwrap()).unwrap(),
                2 => {
                    let mut x = o.id;
                    x[19] ^= 1;
                    r.put_loose_raw(&x, b"");
                    std::fs::write(lp.parent().unwrap().join("tmp_obj_abc"), b"x").unwrap();
                }
                3 => {
                    let h = hex(&o.id);
                    // right name in the wrong place, or cut short
                    std::fs::create_dir_all(objects.join("zz")).unwrap();
                    std::fs::write(objects.join("zz").join(&h[2..]), b"x").unwrap();
                    std::fs::write(objects.join(&h), b"x").unwrap();
                    std::fs::create_dir_all(lp.parent().unwrap()).unwrap();
                    std::fs::write(lp.parent().unwrap().join(&h[2..39]), b"x").unwrap();
                    std::fs::write(lp.parent().unwrap().join(&h), b"x").unwrap();
                }
                _ => (),
            }
            if loose == 4 {
                // dangling
                std::fs::create_dir_all(lp.parent().unwrap()).unwrap();
                if where_ & 1 == 0 {
                    std::os::unix::fs::symlink("nowhere", &lp).unwrap();
                }
            }
            if where_ & 1 != 0 {
                r.put_loose(o.kind, &o.content);
                exists = true;
            }
            if where_ & 2 != 0 {
                r.put_pack(2, 3 - idxv, &[PackEntry::whole(o.kind, &o.content)]);
                exists = true;
            }
            let ctx = format!("store {}, pack directory {}, loose {}, object in {}, index v{}", store, packdir, loose, where_, idxv);
            ex.state(&ctx);
            let order = [[0, 1, 2], [2, 1, 0], [1, 2, 0]];
            for k in order {
                let db = r.db();
                for x in k {
                    match x {
                        0 => classified(ex, &db, &o.id, exists, &ctx)?,
                        1 => {
                            classified(ex, &db, &p.id, packdir == 2, &ctx)?;
                            classified(ex, &db, &q.id, packdir == 2, &ctx)?;
                        }
                        _ => {
                            for i in [0, 1, 10, 18, 19] {
                                for d in [1u8, 0x80, 0xff] {
                                    let mut y = o.id;
                                    y[i] = y[i].wrapping_add(d);
                                    if !(i == 19 && d == 1 || (y[19] ^ o.id[19] == 1 && loose == 2)) {
                                        classified(ex, &db, &y, false, &ctx)?;
                                    }
                                    let mut y = p.id;
                                    y[i] = y[i].wrapping_add(d);
                                    classified(ex, &db, &y, false, &ctx)?;
                                }
                            }
                            classified(ex, &db, &[0; 20], false, &ctx)?;
                            classified(ex, &db, &[0xff; 20], false, &ctx)?;
                        }
                    }
                }
            }
            ex.describe(|| ctx.clone());
        }
        // objects that are there but damaged are not "not found"
        _ => {
            let r = Repo::new(ex.fresh_dir());
            let o = gen::obj(Kind::Blob, 300, 1, true);
            let p = gen::obj(Kind::Blob, 300, 2, true);
            let how = ex.choose(10);
            let id = o.id;
            let f = zlib(&framed(o.kind, &o.content), 1);
            match how {
                0 => r.put_loose_raw(&id, b""),
                1 => r.put_loose_raw(&id, b"garbage"),
                2 => r.put_loose_raw(&id, &f[..f.len() / 2]),
                3 => r.put_loose_raw(&id, &f[..f.len() - 1]),
                4 => r.put_loose_raw(&id, &zlib(&framed(p.kind, &p.content), 1)),
                5 => {
                    std::fs::create_dir_all(r.loose_path(&id)).unwrap();
                }
                6 => {
                    let mut e = PackEntry::whole(o.kind, &o.content);
                    e.packed = Some(f[..40].to_vec());
                    r.put_pack(2, 2, &[e]);
                }
                7 => {
                    r.put_pack(2, 2, &[PackEntry::delta(id, Rep::Ref(sha1(b"no base")), diff(&p.content, &o.content))]);
                }
                8 => {
                    let mut e = PackEntry::whole(o.kind, &o.content);
                    e.rep = Rep::Raw(5, vec![]);
                    r.put_pack(2, 1, &[e]);
                }
                _ => {
                    let mut e = PackEntry::whole(o.kind, &p.content);
                    e.id = id;
                    r.put_pack(2, 1, &[e]);
                }
            }
            let db = r.db();
            for _ in 0..2 {
                let got = lib(ex, || guarded(|| db.parse_object(repo::id(&id)).map(|_| ())))
                    .or_else(|p| fail("panic", format!("damage {}: panic {}", how, p)))?;
                ex.evals(1);
                match got {
                    Ok(()) => return fail("found-nothing", format!("damage {}: parses", how)),
                    Err(e) => {
                        ensure!(!e.is_not_found() && !e.is_ambiguous(), "classification", "damage {}: reported as {}", how, err_text(&e));
                        named(&e, &id)?;
                    }
                }
            }
            ex.state(&how);
        }
    }
    Ok(())
}
