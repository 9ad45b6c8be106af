//! R08 (damaged loose objects), R09 (damaged and hostile packs and indexes).
use super::gen::{self, Obj};
use super::sparse::{check_blob, Sparse};
use super::util::*;
use crate::ensure;
use crate::alloc;
use crate::explorer::*;
use crate::gitfmt::*;
use crate::repo::{self, Obs, Repo};
use rusty_git::object::ObjectDatabase;

// ---- R08 ----

/// Objects whose files are small enough to alter every byte in every way.
fn small_objects() -> Vec<(Obj, Vec<u8>)> {
    let mut v = vec![];
    for (o, enc) in [
        (gen::blob(vec![]), 0),
        (gen::blob(b"a".to_vec()), 0),
        (gen::blob(b"hello, hello, hello\n".to_vec()), 1),
        (gen::blob(noise(5, 40)), 3),
        (gen::obj(Kind::Tree, 70, 3, false), 1),
        (gen::obj(Kind::Commit, 190, 3, false), 1),
        (gen::obj(Kind::Tag, 120, 3, false), 2),
        (gen::blob(noise(6, 60)), 4),
    ] {
        let f = framed(o.kind, &o.content);
        let z = match enc {
            0 => zlib(&f, 1),
            1 => zlib(&f, 9),
            2 => zlib(&f, 6),
            3 => zlib_stored(&f, 65535),
            _ => zlib_stored(&f, 16),
        };
        v.push((o, z));
    }
    v
}

/// Objects larger than the buffers on the way.
fn large_objects() -> Vec<(Obj, Vec<u8>)> {
    let mut v = vec![];
    for (o, l) in [
        (gen::obj(Kind::Blob, 20_000, 1, true), 1),
        (gen::obj(Kind::Blob, 100_000, 2, false), 9),
        (gen::obj(Kind::Tree, 9_000, 3, true), 6),
        (gen::obj(Kind::Commit, 17_000, 4, true), 1),
        (gen::obj(Kind::Blob, 16_370, 5, true), 0),
    ] {
        let z = zlib(&framed(o.kind, &o.content), l);
        v.push((o, z));
    }
    v
}

fn judge_loose(ex: &Exec, r: &Repo, o: &Obj, file: &[u8], orig: &[u8], ctx: &dyn Fn() -> String) -> Res {
    if file == orig {
        return Ok(());
    }
    r.put_loose_raw(&o.id, file);
    let db = r.db();
    let (got, mem) = alloc::peak(|| lib(ex, || guarded(|| repo::parse(&db, &o.id))));
    ex.evals(1);
    match &got {
        Err(p) => return fail("panic", format!("{}: panic: {}", ctx(), p)),
        Ok(Obs::Obj(k, c)) => {
            ensure!(
                *k == o.kind && *c == o.rendered,
                "forged",
                "{}: reads as {} with other content: {:?} (file {})",
                ctx(),
                k.name(),
                String::from_utf8_lossy(&c[..c.len().min(300)]),
                hex(&file[..file.len().min(200)])
            );
            ex.count("damage that leaves the content", 1);
        }
        Ok(Obs::Err(_)) => ex.count("reported as an error", 1),
        Ok(g) => return fail("misreported", format!("{}: reported as {}", ctx(), g.class())),
    }
    let bound = (16 << 20) + 2000 * file.len();
    ensure!(mem <= bound, "memory", "{}: {} bytes of memory for a file of {}", ctx(), mem, file.len());
    ex.outcome(&(o.kind, got.as_ref().ok().map(|g| format!("{:?}", g))));
    // the stream interface may not call it missing either
    let got = lib(ex, || guarded(|| repo::raw(&db, &o.id)));
    match got {
        Err(p) => fail("panic", format!("{}: panic in the stream: {}", ctx(), p)),
        Ok(Err(Obs::NotFound)) => fail("misreported", format!("{}: the stream reports it as not found", ctx())),
        _ => Ok(()),
    }
}

pub fn r08(ex: &Exec) -> Res {
    let r = Repo::new(ex.fresh_dir());
    match ex.choose(7) {
        6 => return large_other(ex, &r, false),
        5 => return valid_but_other(ex, &r),
        // truncation at every length of small files
        0 => {
            let all = small_objects();
            let (o, z) = ex.pick(&all);
            for n in 0..z.len() {
                ex.state(&("trunc", &o.id, n));
                judge_loose(ex, &r, o, &z[..n], z, &|| {
                    format!("{} of {} bytes, file cut from {} to {} bytes", o.kind.name(), o.content.len(), z.len(), n)
                })?;
            }
            ex.describe(|| format!("every truncation of a {} file of {} bytes", o.kind.name(), z.len()));
        }
        // every byte, every value
        1 => {
            let all = small_objects();
            let (o, z) = ex.pick(&all);
            let i = ex.choose(z.len());
            for v in 0..=255u8 {
                let mut f = z.clone();
                f[i] = v;
                ex.state(&("byte", &o.id, i, v));
                judge_loose(ex, &r, o, &f, z, &|| {
                    format!("{} of {} bytes, byte {} of {} set to {:#x}", o.kind.name(), o.content.len(), i, z.len(), v)
                })?;
            }
            ex.describe(|| format!("every value of byte {} of a {} file of {} bytes", i, o.kind.name(), z.len()));
        }
        // truncation of large files
        2 => {
            let all = large_objects();
            let (o, z) = ex.pick(&all);
            let step = if ex.quick() { 97 } else { 1 };
            let near = |n: usize| [4096, 8192, 12288, 16384].iter().any(|b| n + 3 > *b && n < *b + 3);
            let part = ex.choose(16);
            for n in (0..z.len()).filter(|n| n * 16 / z.len() == part) {
                if n % step != 0 && !near(n) && n > 40 && n + 40 < z.len() {
                    continue;
                }
                ex.state(&("trunc", &o.id, n));
                judge_loose(ex, &r, o, &z[..n], z, &|| {
                    format!("{} of {} bytes, file cut from {} to {} bytes", o.kind.name(), o.content.len(), z.len(), n)
                })?;
            }
        }
        // bytes of large files
        3 => {
            let all = large_objects();
            let (o, z) = ex.pick(&all);
            let step = if ex.quick() { 89 } else { 3 };
            let near = |n: usize| [4096, 8192, 12288, 16384].iter().any(|b| n + 3 > *b && n < *b + 3);
            let part = ex.choose(16);
            for n in (0..z.len()).filter(|n| n * 16 / z.len() == part) {
                if n % step != 0 && !near(n) && n > 40 && n + 12 < z.len() {
                    continue;
                }
                for x in [1u8, 0x80, 0x10, 0xff] {
                    let mut f = z.clone();
                    f[n] ^= x;
                    ex.state(&("byte", &o.id, n, x));
                    judge_loose(ex, &r, o, &f, z, &|| {
                        format!("{} of {} bytes, byte {} of {} xor {:#x}", o.kind.name(), o.content.len(), n, z.len(), x)
                    })?;
                }
            }
        }
        // ranges that were never written, or written over
        _ => {
            let small = small_objects();
            let large = large_objects();
            let k = ex.choose(small.len() + large.len());
            let (o, z) = if k < small.len() { &small[k] } else { &large[k - small.len()] };
            let fill = *ex.pick(&[0u8, 0xff, 0x41]);
            let cuts: Vec<usize> = if k < small.len() {
                (0..=z.len()).collect()
            } else {
                let mut v: Vec<usize> = (0..=z.len()).step_by(512).collect();
                v.push(z.len());
                v
            };
            let a = ex.choose(cuts.len() - 1);
            for b in a + 1..cuts.len() {
                if k >= small.len() && b > a + 2 && cuts[b] != z.len() && cuts[b] % 4096 != 0 {
                    continue;
                }
                let mut f = z.clone();
                f[cuts[a]..cuts[b]].iter_mut().for_each(|x| *x = fill);
                ex.state(&("range", &o.id, a, b, fill));
                judge_loose(ex, &r, o, &f, z, &|| {
                    format!(
                        "{} of {} bytes, bytes {}..{} of {} set to {:#x}",
                        o.kind.name(),
                        o.content.len(),
                        cuts[a],
                        cuts[b],
                        z.len(),
                        fill
                    )
                })?;
            }
        }
    }
    Ok(())
}

/// Objects of any size of which one byte is another, in files that are otherwise flawless.
fn large_other(ex: &Exec, r: &Repo, packed: bool) -> Res {
    let mut sizes = vec![0xffffu64, 0x1_0001, 300_000, 1 << 20, (4 << 20) + 1, 17 << 20, 40 << 20];
    if !ex.quick() {
        sizes.extend([1 << 24, 70 << 20, 130 << 20, 300 << 20]);
    }
    let len = *ex.pick(&sizes);
    let kind = *ex.pick(&KINDS);
    let place = ex.choose(3);
    let how = if packed { ex.choose(3) } else { 0 };
    let ctx = || {
        let how = if packed { ["whole in a pack", "the end of an offset delta", "the end of a reference delta"][how] } else { "loose" };
        format!("a {} of {} bytes, {}, with another byte at the {}", kind.name(), len, how, ["start", "middle", "end"][place])
    };
    ex.describe(ctx);
    ex.state(&("large", packed, len, kind, place, how));
    let oid;
    if kind == Kind::Blob {
        let at = [0, len / 2, len - 1][place];
        let good = Sparse { len, marks: vec![(at, 1)] };
        let bad = Sparse { len, marks: vec![(at, 2)] };
        oid = good.oid(kind);
        if !packed {
            r.put_loose_raw(&oid, &bad.zlib(&bad.header(kind)));
        } else if how == 0 {
            r.put_pack(2, 2, &[bad.packed(kind, oid)]);
        } else {
            let base = Sparse { len, marks: vec![] };
            let mut ins: Vec<Instr> = (0..at).step_by(0xff_ffff).map(|o| Instr::Copy(o as u32, 0xff_ffff.min(at - o) as u32, 0)).collect();
            ins.push(Instr::Insert(vec![2]));
            ins.extend((at + 1..len).step_by(0xff_ffff).map(|o| Instr::Copy(o as u32, 0xff_ffff.min(len - o) as u32, 0)));
            let b = base.oid(kind);
            let d = PackEntry::delta(oid, if how == 1 { Rep::Ofs(0) } else { Rep::Ref(b) }, delta(len as usize, len as usize, &ins));
            r.put_pack(2, 2, &[base.packed(kind, b), d]);
        }
    } else {
        if len > 20 << 20 {
            return Ok(());
        }
        let o = gen::obj(kind, len as usize, 77, false);
        oid = o.id;
        let mut c = o.content.clone();
        // still of the right form: in the ids of a tree, in the id or the message of the others
        let at = match (kind, place) {
            (Kind::Tree, 0) => c.iter().position(|b| *b == 0).unwrap() + 1,
            (Kind::Tree, 1) => c.len() / 2 + c[c.len() / 2..].iter().position(|b| *b == 0).unwrap() + 1,
            (_, 0) => if kind == Kind::Commit { 7 } else { 9 },
            (_, 1) => c.len() / 2,
            _ => c.len() - 1,
        };
        c[at] = match c[at] {
            b'1' => b'2',
            b'\n' => b'x',
            _ => b'1',
        };
        let e = PackEntry::whole(kind, &c);
        let tampered = |mut e: PackEntry| {
            e.id = oid;
            e.level(1)
        };
        match (packed, how) {
            (false, _) => r.put_loose_raw(&oid, &zlib(&framed(kind, &c), 1)),
            (_, 0) => drop(r.put_pack(2, 2, &[tampered(e)])),
            _ => {
                let b = PackEntry::whole(kind, &o.content[..o.content.len() / 3]);
                let rep = if how == 1 { Rep::Ofs(0) } else { Rep::Ref(b.id) };
                let d = PackEntry::delta(oid, rep, diff(&o.content[..o.content.len() / 3], &c));
                drop(r.put_pack(2, 2, &[b, d]));
            }
        }
    }
    let db = r.db();
    for round in 0..2 {
        let got: Result<Option<String>, String> = lib(ex, || {
            guarded(|| match db.parse_object(repo::id(&oid)) {
                Ok(_) => None,
                Err(e) => Some(repo::err_text(&e)),
            })
        });
        ex.evals(1);
        match got {
            Ok(Some(_)) => (),
            Ok(None) => return fail("forged", format!("{}: read {} takes it for the object", ctx(), round)),
            Err(p) => return fail("panic", format!("{}: read {} panics: {}", ctx(), round, p)),
        }
    }
    Ok(())
}

/// Files that are complete, with correct lengths and checksums, but of something else.
fn valid_but_other(ex: &Exec, r: &Repo) -> Res {
    let mut all: Vec<Obj> = small_objects().into_iter().map(|(o, _)| o).collect();
    all.extend(large_objects().into_iter().map(|(o, _)| o));
    let o = ex.pick(&all);
    let f = framed(o.kind, &o.content);
    let head = f.len() - o.content.len();
    // how the file is compressed
    let style = ex.choose(4);
    let write = |data: &[u8]| match style {
        0 => zlib(data, 1),
        1 => zlib(data, 9),
        2 => zlib_stored(data, 65535),
        _ => zlib_stored(data, 100),
    };
    let orig = write(&f);
    let mut cases: Vec<(Vec<u8>, String)> = vec![];
    let n = o.content.len();
    match ex.choose(5) {
        // another header
        4 => {
            let texts = ["", "-1", "+5", " 5", "5 ", "0x5", "1e3", "99999999999999999999", "340282366920938463463374607431768211456"];
            let sizes = HOSTILE.iter().copied().chain((1..20).map(|d| n as u64 + d));
            for len in sizes.map(|v| v.to_string()).chain(texts.iter().map(|t| t.to_string())) {
                let mut g = format!("{} {}\0", o.kind.name(), len).into_bytes();
                g.extend_from_slice(&o.content);
                cases.push((g, format!("declares a length of {:?}", len)));
            }
            for kind in ["", "blo", "blobs", "Blob", "treeblob", " blob", "ofs-delta", "\u{fffd}"] {
                let mut g = format!("{} {}\0", kind, n).into_bytes();
                g.extend_from_slice(&o.content);
                cases.push((g, format!("is of kind {:?}", kind)));
            }
            // no end of the header, or no header
            cases.push((o.content.clone(), "has no header".into()));
            cases.push((f[..head - 1].to_vec(), "has a header without end".into()));
            cases.push((f[..head].to_vec(), "has a header only".into()));
            cases.push((vec![], "is empty".into()));
        }
        // another object
        0 => {
            for p in &all {
                if p.id != o.id {
                    cases.push((framed(p.kind, &p.content), format!("replaced by a {}", p.kind.name())));
                }
            }
            for k in KINDS {
                if k != o.kind {
                    cases.push((framed(k, &o.content), format!("kind changed to {}", k.name())));
                }
            }
            for m in [0, 1, n / 2, n.saturating_sub(1)] {
                if m < n {
                    cases.push((framed(o.kind, &o.content[..m]), format!("shortened to {} bytes", m)));
                    cases.push((framed(o.kind, &o.content[m..]), format!("without the first {} bytes", m)));
                }
            }
            let mut longer = o.content.clone();
            longer.push(b'\n');
            cases.push((framed(o.kind, &longer), "one byte longer".into()));
        }
        // a byte of the content is different
        1 => {
            for i in (0..n).filter(|i| n < 400 || i % 1009 == 0 || i + 3 > n || *i < 3) {
                for x in [1u8, 0x20, 0x80] {
                    let mut g = f.clone();
                    g[head + i] ^= x;
                    cases.push((g, format!("content byte {} xor {:#x}", i, x)));
                }
            }
        }
        // changes that the checksum of the compressed data does not see
        2 => {
            for i in (0..n.saturating_sub(2)).filter(|i| n < 400 || i % 1009 == 0 || i + 5 > n) {
                let mut g = f.clone();
                let t = &mut g[head + i..head + i + 3];
                if t[0] < 255 && t[1] > 1 && t[2] < 255 {
                    t[0] += 1;
                    t[1] -= 2;
                    t[2] += 1;
                    assert_eq!(adler32(&g), adler32(&f));
                    cases.push((g, format!("content bytes from {} changed by 1, -2 and 1", i)));
                }
            }
        }
        // bytes in another order
        _ => {
            for i in (0..n.saturating_sub(1)).filter(|i| n < 400 || i % 1009 == 0) {
                let mut g = f.clone();
                g.swap(head + i, head + i + 1);
                cases.push((g, format!("content bytes {} and {} exchanged", i, i + 1)));
            }
        }
    }
    for (data, what) in cases {
        if data == f {
            continue;
        }
        ex.state(&(&o.id, style, &what));
        judge_loose(ex, r, o, &write(&data), &orig, &|| {
            format!("{} of {} bytes, file complete but {}", o.kind.name(), n, what)
        })?;
    }
    // the object itself under ids that are not its own
    for at in 0..20 {
        for x in [1u8, 0x10, 0x80, 0xff] {
            let mut wrong = o.id;
            wrong[at] ^= x;
            r.put_loose_raw(&wrong, &orig);
            let got = lib(ex, || guarded(|| repo::parse(&r.db(), &wrong)));
            ex.evals(1);
            std::fs::remove_file(r.loose_path(&wrong)).unwrap();
            ensure!(
                matches!(got, Ok(Obs::Err(_))),
                "forged",
                "{} {} stored under {}: reading that gives {}",
                o.kind.name(),
                hex(&o.id),
                hex(&wrong),
                got.map(|g| g.short()).unwrap_or_else(|p| p)
            );
        }
    }
    ex.describe(|| format!("complete files of something else under the id of a {} of {} bytes", o.kind.name(), n));
    Ok(())
}

// ---- R09 ----

/// What a damaged pack must still do for an object.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Must {
    /// end with exactly this object or any error
    End,
    /// exactly the recorded object or an error (not "not found")
    ExactOrError,
    /// an error (not "not found")
    Error,
    /// exactly the object
    Exact,
}

fn judge(
    ex: &Exec,
    db: &ObjectDatabase,
    o: &Obj,
    must: Must,
    bytes: usize,
    ctx: &dyn Fn() -> String,
) -> Result<&'static str, Violation> {
    let (got, mem) = alloc::peak(|| lib(ex, || guarded(|| repo::parse(db, &o.id))));
    ex.evals(1);
    let got = match got {
        Ok(g) => g,
        Err(p) => return fail("panic", format!("{}: reading {} panics: {}", ctx(), o.kind.name(), p)),
    };
    let exact = got == Obs::Obj(o.kind, o.rendered.clone());
    let ok = match must {
        Must::End => exact || got.class() != "object",
        Must::ExactOrError => exact || got.class() == "error",
        Must::Error => got.class() == "error",
        Must::Exact => exact,
    };
    ensure!(
        ok,
        if got.class() == "object" { "forged" } else { "misreported" },
        "{}: reading {} {} of {} bytes gives {} (must be {:?})",
        ctx(),
        o.kind.name(),
        &hex(&o.id)[..8],
        o.content.len(),
        got.short(),
        must
    );
    let bound = (16 << 20) + 2000 * bytes;
    ensure!(mem <= bound, "memory", "{}: {} bytes of memory for {} bytes of files", ctx(), mem, bytes);
    ex.count(got.class(), 1);
    ex.outcome(&(o.kind, format!("{:?}", got)));
    // the stream must end too; it is protected by the zlib checksum only, which single changes of bytes
    // can leave intact, so its content is judged where that is impossible
    let got = lib(ex, || guarded(|| repo::raw(db, &o.id)));
    match got {
        Err(p) => return fail("panic", format!("{}: the stream of {} panics: {}", ctx(), o.kind.name(), p)),
        Ok(g) => {
            let want = framed(o.kind, &o.content);
            let ok = match (must, &g) {
                (Must::End, _) => true,
                (Must::ExactOrError, Ok(_)) => true,
                (Must::Exact, Ok(v)) => *v == want,
                (Must::ExactOrError, Err(Obs::Err(_))) | (Must::Error, Err(Obs::Err(_))) => true,
                _ => false,
            };
            ensure!(
                ok,
                "stream",
                "{}: the stream of {} gives {} (must be {:?})",
                ctx(),
                o.kind.name(),
                g.map(|v| format!("{} bytes", v.len())).unwrap_or_else(|e| e.short()),
                must
            );
        }
    }
    Ok("")
}

struct Base {
    objs: Vec<Obj>,
    entries: Vec<PackEntry>,
    /// entries whose bytes object i depends on
    deps: Vec<Vec<usize>>,
}

/// A pack with a whole object of each kind, offset and reference deltas of depth 1 and 2.
fn base_pack() -> Base {
    let b0 = gen::blob((0..120u32).map(|i| b"abcdefgh\n"[(i % 9) as usize]).collect());
    let mut c1 = b0.content.clone();
    c1.extend_from_slice(b"one more line\n");
    let b1 = gen::blob(c1.clone());
    c1.extend_from_slice(b"two\n");
    let b2 = gen::blob(c1.clone());
    c1.extend_from_slice(b"three\n");
    let b3 = gen::blob(c1);
    let co = gen::obj(Kind::Commit, 180, 9, false);
    let tr = gen::obj(Kind::Tree, 60, 9, false);
    let ta = gen::obj(Kind::Tag, 110, 9, false);
    let objs = vec![b0, b1, b2, b3, co, tr, ta];
    let d = |a: usize, b: usize| diff(&objs[a].content, &objs[b].content);
    let entries = vec![
        PackEntry::whole(Kind::Blob, &objs[0].content),
        PackEntry::delta(objs[1].id, Rep::Ofs(0), d(0, 1)),
        PackEntry::delta(objs[2].id, Rep::Ref(objs[1].id), d(1, 2)),
        PackEntry::delta(objs[3].id, Rep::Ofs(2), d(2, 3)),
        PackEntry::whole(Kind::Commit, &objs[4].content),
        PackEntry::whole(Kind::Tree, &objs[5].content),
        PackEntry::whole(Kind::Tag, &objs[6].content),
    ];
    Base {
        objs,
        entries,
        deps: vec![vec![0], vec![0, 1], vec![0, 1, 2], vec![0, 1, 2, 3], vec![4], vec![5], vec![6]],
    }
}

fn idx_entries(b: &Base, p: &Pack) -> Vec<IdxEntry> {
    b.entries
        .iter()
        .enumerate()
        .map(|(i, e)| IdxEntry { id: e.id, offset: p.offsets[i], crc: p.crcs[i], force64: false })
        .collect()
}

/// Index styles: version 1, version 2, version 2 with a table of 64-bit offsets.
fn idx_of(b: &Base, p: &Pack, style: usize) -> Vec<u8> {
    let mut es = idx_entries(b, p);
    if style == 2 {
        es.iter_mut().skip(1).step_by(2).for_each(|e| e.force64 = true);
    }
    build_idx(if style == 0 { 1 } else { 2 }, &es, p.id)
}

fn resign(pack: &mut [u8]) -> Oid {
    let n = pack.len() - 20;
    let id = sha1(&pack[..n]);
    pack[n..].copy_from_slice(&id);
    id
}

/// Reads everything (present, absent and abbreviated ids) through fresh handles.
fn read_all(
    ex: &Exec,
    r: &Repo,
    objs: &[Obj],
    must: &dyn Fn(usize) -> Must,
    bytes: usize,
    ctx: &dyn Fn() -> String,
) -> Res {
    let db = r.db();
    for (i, o) in objs.iter().enumerate() {
        judge(ex, &db, o, must(i), bytes, ctx)?;
    }
    // again in the other order on another handle: nothing learnt from the first read helps
    let db = r.db();
    for (i, o) in objs.iter().enumerate().rev() {
        judge(ex, &db, o, must(i), bytes, ctx)?;
    }
    for id in [[0u8; 20], [0xff; 20], sha1(b"absent")] {
        let got = lib(ex, || guarded(|| repo::parse(&db, &id)));
        ex.evals(1);
        if let Err(p) = got {
            return fail("panic", format!("{}: looking up an absent id panics: {}", ctx(), p));
        }
    }
    for (h, n) in [("00", 1usize), ("ff", 1)].iter().map(|x| (x.0.to_string(), x.1)).chain(
        objs.iter().take(3).map(|o| (hex(&o.id)[..4].to_string(), 2)),
    ) {
        let _ = n;
        use std::str::FromStr;
        if let Ok(s) = rusty_git::object::ShortId::from_str(&h) {
            #[cfg(not(rusty_git_mc))]
            let got: Result<Result<(), String>, String> = Ok(Err(s.to_string()));
            #[cfg(rusty_git_mc)]
            let got = lib(ex, || guarded(|| db.mc_read_packed(&s).map(|_| ()).map_err(|e| repo::err_text(&e))));
            ex.evals(1);
            if let Err(p) = got {
                return fail("panic", format!("{}: looking up the abbreviated id {} panics: {}", ctx(), h, p));
            }
        }
    }
    Ok(())
}

fn values(ex: &Exec, old: u8) -> Vec<u8> {
    if !ex.quick() {
        return (0..=255).filter(|v| *v != old).collect();
    }
    let mut v: Vec<u8> = (0..8).map(|b| old ^ (1 << b)).collect();
    v.extend([0, 0xff, old.wrapping_add(1), old.wrapping_sub(1), 0x7f, 0x80]);
    v.retain(|x| *x != old);
    v.sort();
    v.dedup();
    v
}

pub fn r09(ex: &Exec) -> Res {
    match ex.choose(12) {
        11 => large_other(ex, &Repo::new(ex.fresh_dir()), true),
        10 => bulk(ex),
        9 => false_ids(ex),
        0 => truncations(ex),
        1 => pack_bytes(ex),
        2 => idx_bytes(ex),
        3 => sizes(ex),
        4 => bases(ex),
        5 => offsets(ex),
        6 => mismatch(ex),
        7 => fanout(ex),
        _ => streams(ex),
    }
}

/// small packs of large objects: what one handle keeps in memory is bounded, however many of them are
/// read and however many of them lie between an object and its base
fn bulk(ex: &Exec) -> Res {
    let shape = ex.choose(4);
    let (n, len) = *ex.pick(if ex.quick() { &[(50usize, 8u64 << 20)][..] } else { &[(50, 8 << 20), (120, 4 << 20), (40, 24 << 20), (400, 1 << 20)] });
    let reads = ex.choose(3);
    let kind = Kind::Blob;
    let objs: Vec<Sparse> = (0..n).map(|i| Sparse { len, marks: vec![(0, (i % 200) as u8 + 1), (1, (i / 200) as u8 + 1)] }).collect();
    let ids: Vec<Oid> = objs.iter().map(|o| o.oid(kind)).collect();
    let mut es: Vec<PackEntry> = vec![];
    for i in 0..n {
        let from = match shape {
            _ if i == 0 => None,
            // a chain by offset or by id, all on the first, all whole
            0 | 1 => Some(i - 1),
            2 => Some(0),
            _ => None,
        };
        es.push(match from {
            None => objs[i].packed(kind, ids[i]),
            Some(b) => {
                let head = objs[i].marks.iter().map(|m| m.1).collect();
                let mut ins = vec![Instr::Insert(head)];
                ins.extend((2..len).step_by(0xff_ffff).map(|o| Instr::Copy(o as u32, 0xff_ffff.min(len - o) as u32, 0)));
                let d = delta(len as usize, len as usize, &ins);
                PackEntry::delta(ids[i], if shape == 1 { Rep::Ref(ids[b]) } else { Rep::Ofs(b) }, d)
            }
        });
    }
    let r = Repo::new(ex.fresh_dir());
    r.put_pack(2, 2, &es);
    ex.state(&("bulk", shape, n, len, reads));
    let ctx = || format!("{} objects of {} bytes, {}", n, len, ["chain of offset deltas", "chain of reference deltas", "deltas of one", "whole"][shape]);
    ex.describe(ctx);
    let order: Vec<usize> = match reads {
        0 => vec![n - 1, n / 2, n - 1],
        1 => (0..n).collect(),
        _ => (0..n).rev().collect(),
    };
    let db = r.db();
    let (got, mem) = alloc::peak(|| order.iter().try_for_each(|i| check_blob(ex, &db, &ids[*i], &objs[*i], &ctx)));
    got?;
    let bound = (256 << 20) + 6 * len as usize;
    ensure!(mem <= bound, "memory", "{}: {} bytes of memory after reading {} objects", ctx(), mem, order.len());
    Ok(())
}

fn truncations(ex: &Exec) -> Res {
    let b = base_pack();
    let p = build_pack(2, &b.entries);
    let style = ex.choose(3);
    let idx = idx_of(&b, &p, style);
    let r = Repo::new(ex.fresh_dir());
    if ex.flag() {
        let n = ex.choose(p.bytes.len());
        // with and without a trailer that matches what the index expects
        let sealed = ex.flag();
        let mut pk = p.bytes[..n].to_vec();
        if sealed {
            pk.extend_from_slice(&p.id);
        }
        r.put_pack_raw("a", &pk, &idx);
        ex.state(&("pack", style, n, sealed));
        read_all(
            ex,
            &r,
            &b.objs,
            &|i| {
                // (a byte of the trailer may happen to complete a cut stream's checksum: exact content is fine)
                if !sealed || n < 12 {
                    Must::Error
                } else if b.deps[i].iter().all(|e| p.spans[*e].1 <= n) {
                    Must::Exact
                } else {
                    Must::ExactOrError
                }
            },
            pk.len() + idx.len(),
            &|| format!("pack cut to {} of {} bytes, trailer kept: {}, index style {}", n, p.bytes.len(), sealed, style),
        )?;
        ex.describe(|| format!("pack truncated to {} bytes (trailer kept: {}), index style {}", n, sealed, style));
    } else {
        let n = ex.choose(idx.len());
        let sealed = ex.flag();
        let mut ix = idx[..n].to_vec();
        if sealed {
            ix.extend_from_slice(&idx[idx.len() - 40..]);
        }
        if ix == idx {
            return Ok(());
        }
        r.put_pack_raw("a", &p.bytes, &ix);
        ex.state(&("idx", style, n, sealed));
        let ctx = || format!("index style {} cut to {} of {} bytes, trailer kept: {}", style, n, idx.len(), sealed);
        read_all(ex, &r, &b.objs, &|_| Must::End, ix.len() + p.bytes.len(), &ctx)?;
        ex.describe(ctx);
    }
    Ok(())
}

fn pack_bytes(ex: &Exec) -> Res {
    let b = base_pack();
    let p = build_pack(2, &b.entries);
    let style = if ex.quick() { 1 } else { ex.choose(3) };
    let idx = idx_of(&b, &p, style);
    let i = ex.choose(p.bytes.len());
    let r = Repo::new(ex.fresh_dir());
    r.put_pack_raw("a", &p.bytes, &idx);
    for v in values(ex, p.bytes[i]) {
        let mut pk = p.bytes.clone();
        pk[i] = v;
        std::fs::write(r.pack_path("a", "pack"), &pk).unwrap();
        ex.state(&("byte", style, i, v));
        let hit = (0..b.entries.len()).find(|e| p.spans[*e].0 <= i && i < p.spans[*e].1);
        read_all(
            ex,
            &r,
            &b.objs,
            &|o| {
                if i < 12 || i >= p.bytes.len() - 20 {
                    // signature, version (2 and 3 are the same format), object count, checksum
                    if i == 7 && v == 3 {
                        Must::Exact
                    } else {
                        Must::Error
                    }
                } else {
                    match hit {
                        Some(e) if b.deps[o].contains(&e) => Must::ExactOrError,
                        Some(_) => Must::Exact,
                        // entry headers: kind, size, base
                        None => {
                            let e = (0..b.entries.len()).rev().find(|e| p.offsets[*e] as usize <= i).unwrap();
                            if b.deps[o].contains(&e) {
                                Must::End
                            } else {
                                Must::Exact
                            }
                        }
                    }
                }
            },
            pk.len() + idx.len(),
            &|| format!("byte {} of {} of the pack changed from {:#x} to {:#x}, index style {}", i, pk.len(), p.bytes[i], v, style),
        )?;
    }
    ex.describe(|| format!("changes of byte {} of the pack, index style {}", i, style));
    Ok(())
}

fn idx_bytes(ex: &Exec) -> Res {
    let b = base_pack();
    let p = build_pack(2, &b.entries);
    let style = ex.choose(3);
    let idx = idx_of(&b, &p, style);
    let i = ex.choose(idx.len());
    let r = Repo::new(ex.fresh_dir());
    r.put_pack_raw("a", &p.bytes, &idx);
    let pack_sum = idx.len() - 40..idx.len() - 20;
    for v in values(ex, idx[i]) {
        let mut ix = idx.clone();
        ix[i] = v;
        std::fs::write(r.pack_path("a", "idx"), &ix).unwrap();
        ex.state(&("idx byte", style, i, v));
        read_all(
            ex,
            &r,
            &b.objs,
            &|_| if pack_sum.contains(&i) { Must::Error } else { Must::End },
            p.bytes.len() + ix.len(),
            &|| format!("byte {} of {} of the index (style {}) changed from {:#x} to {:#x}", i, ix.len(), style, idx[i], v),
        )?;
    }
    ex.describe(|| format!("changes of byte {} of the index, style {}", i, style));
    Ok(())
}

const HOSTILE: &[u64] = &[
    0,
    1,
    15,
    16,
    127,
    128,
    65535,
    65536,
    1 << 20,
    1 << 30,
    (1 << 31) - 1,
    1 << 31,
    (1 << 32) - 1,
    1 << 32,
    1 << 40,
    1 << 47,
    (1 << 63) - 1,
    1 << 63,
    u64::MAX - 1,
    u64::MAX,
];

/// The size in an entry's header, or in a delta, is wrong.
fn sizes(ex: &Exec) -> Res {
    let mut b = base_pack();
    let e = ex.choose(b.entries.len());
    let real = b.entries[e].data.len() as u64;
    let is_delta = !matches!(b.entries[e].rep, Rep::Whole(_));
    let mut vals = HOSTILE.to_vec();
    for d in 1..=if ex.quick() { 9 } else { 40 } {
        vals.push(real + d);
        vals.push(real.saturating_sub(d));
    }
    let field = ex.choose(if is_delta { 3 } else { 1 });
    let what;
    if field == 0 {
        vals.retain(|v| *v != real);
        let v = *ex.pick(&vals);
        b.entries[e].declared = Some(v);
        what = format!("entry {} of {} bytes declares {}", e, real, v);
    } else {
        // the lengths inside the delta
        let src = b.deps[e][b.deps[e].len() - 2];
        let (bl, rl) = (b.objs[src].content.len() as u64, b.objs[e].content.len() as u64);
        let true_len = if field == 1 { bl } else { rl };
        for d in 1..=5 {
            vals.push(true_len + d);
            vals.push(true_len - d);
        }
        vals.retain(|v| *v != true_len);
        let v = *ex.pick(&vals);
        let skip = varint(bl).len() + varint(rl).len();
        let mut d = varint(if field == 1 { v } else { bl });
        d.extend(varint(if field == 2 { v } else { rl }));
        d.extend_from_slice(&b.entries[e].data[skip..]);
        b.entries[e].data = d;
        what = format!("the delta of entry {} declares {} of {} bytes instead of {}", e, ["", "a base", "a result"][field], v, true_len);
    }
    let p = build_pack(2, &b.entries);
    let r = Repo::new(ex.fresh_dir());
    r.put_pack_raw("a", &p.bytes, &idx_of(&b, &p, 1));
    ex.state(&what);
    read_all(
        ex,
        &r,
        &b.objs,
        &|o| if b.deps[o].contains(&e) { Must::Error } else { Must::Exact },
        p.bytes.len() + 1100,
        &|| what.clone(),
    )?;
    ex.describe(|| what.clone());
    Ok(())
}

/// Bases that are not there, are the delta itself, or form a cycle.
fn bases(ex: &Exec) -> Res {
    let base = base_pack();
    let r = Repo::new(ex.fresh_dir());
    let k = ex.choose(4);
    let what: String;
    let mut b = base;
    let bad: Vec<usize>;
    match k {
        // any way in which 4 deltas refer to each other or to one whole object
        0 => {
            let n = if ex.quick() { 3 } else { 4 };
            let objs: Vec<Obj> = (0..=n).map(|i| gen::blob(noise(i as u64 + 1, 30))).collect();
            let mut entries = vec![PackEntry::whole(Kind::Blob, &objs[0].content)];
            let mut to = vec![0usize; n + 1];
            for i in 1..=n {
                to[i] = ex.choose(n + 1);
                let t = to[i];
                let d = delta(30, 30, &[Instr::Insert(objs[i].content.clone())]);
                // backward references may be offsets too
                let rep = if t < i && ex.flag() { Rep::Ofs(t) } else { Rep::Ref(objs[t].id) };
                entries.push(PackEntry::delta(objs[i].id, rep, d));
            }
            what = format!("deltas refer to {:?}", &to[1..]);
            bad = (1..=n)
                .filter(|i| {
                    let mut at = *i;
                    for _ in 0..=n {
                        at = to[at];
                    }
                    at != 0
                })
                .collect();
            let deps = (0..=n).map(|i| vec![i]).collect();
            b = Base { objs, entries, deps };
        }
        // long cycles
        1 => {
            let n = *ex.pick(&[1usize, 2, 3, 4, 15, 16, 17, 18, 33, 64, 100]);
            let tail = *ex.pick(&[0usize, 1, 2, 17]);
            let objs: Vec<Obj> = (0..n + tail).map(|i| gen::blob(noise(i as u64 + 1, 30))).collect();
            let entries = (0..n + tail)
                .map(|i| {
                    let t = if i < n { (i + 1) % n } else if i == n { 0 } else { i - 1 };
                    PackEntry::delta(objs[i].id, Rep::Ref(objs[t].id), delta(30, 30, &[Instr::Insert(objs[i].content.clone())]))
                })
                .collect();
            what = format!("{} deltas in a cycle, {} lead into it", n, tail);
            bad = (0..n + tail).collect();
            b = Base { objs, entries, deps: (0..n + tail).map(|i| vec![i]).collect() };
        }
        // offsets to nowhere
        2 => {
            let p = build_pack(2, &b.entries);
            let at = p.offsets[1];
            let mut vals: Vec<u64> = (0..=at + 3).collect();
            vals.extend(HOSTILE);
            vals.retain(|v| *v != at - p.offsets[0]);
            let v = *ex.pick(&vals);
            let mut raw = ofs_encode(v);
            let pad = ex.choose(3);
            match pad {
                1 => raw = vec![0xff; 12],
                2 => raw = [vec![0x80; 9], raw].concat(),
                _ => {}
            }
            b.entries[1].rep = Rep::Raw(6, raw);
            what = format!("offset delta {} before itself (at {}), encoding {}", v, at, pad);
            bad = vec![1, 2, 3];
        }
        // references to nowhere
        _ => {
            let (name, id) = ex
                .pick(&[("absent", sha1(b"absent")), ("zero", [0; 20]), ("ones", [0xff; 20])])
                .clone();
            let e = 1 + ex.choose(3);
            b.entries[e].rep = Rep::Ref(id);
            what = format!("delta {} against the {} id", e, name);
            bad = (e..4).collect();
        }
    }
    let p = build_pack(2, &b.entries);
    r.put_pack_raw("a", &p.bytes, &idx_of(&b, &p, 1));
    ex.state(&(k, &p.bytes));
    read_all(
        ex,
        &r,
        &b.objs,
        &|o| if bad.contains(&o) { Must::Error } else { Must::Exact },
        p.bytes.len() + 1100,
        &|| what.clone(),
    )?;
    ex.describe(|| what.clone());
    Ok(())
}

/// Index offsets that point anywhere, tables of 64-bit offsets of any length.
fn offsets(ex: &Exec) -> Res {
    let b = base_pack();
    let p = build_pack(2, &b.entries);
    let r = Repo::new(ex.fresh_dir());
    let e = *ex.pick(&[0usize, 2, 3]);
    let what;
    let idx;
    let n = p.bytes.len() as u64;
    match ex.choose(3) {
        0 => {
            let mut vals: Vec<u64> = (0..n + 30).collect();
            vals.extend(HOSTILE);
            let v = *ex.pick(&vals);
            let mut es = idx_entries(&b, &p);
            es[e].offset = v;
            let v1 = v <= u32::MAX as u64 && ex.flag();
            es[e].force64 = !v1;
            idx = build_idx(if v1 { 1 } else { 2 }, &es, p.id);
            what = format!("entry {} at offset {} of {} (v1: {})", e, v, n, v1);
        }
        1 => {
            // indexes into the table of 64-bit offsets
            let mut ix = idx_of(&b, &p, 2);
            let cnt = b.objs.len();
            let at = 8 + 1024 + cnt * 24 + 4 * ex.choose(cnt);
            let v = *ex.pick(&[0u32, 1, 2, 3, 4, 5, 100, 0x7fff_fffe, 0x7fff_ffff]);
            ix[at..at + 4].copy_from_slice(&(0x8000_0000 | v).to_be_bytes());
            idx = ix;
            what = format!("64-bit offset number {} at byte {}", v, at);
        }
        _ => {
            // a table of any length
            let mut ix = idx_of(&b, &p, 1);
            let extra = ex.choose(8 * b.objs.len() + 20);
            let fill = *ex.pick(&[0u8, 0xff]);
            let tr = ix.split_off(ix.len() - 40);
            ix.extend(vec![fill; extra]);
            ix.extend(tr);
            idx = ix;
            what = format!("{} bytes of 64-bit offsets, filled with {:#x}", extra, fill);
        }
    }
    r.put_pack_raw("a", &p.bytes, &idx);
    ex.state(&what);
    read_all(ex, &r, &b.objs, &|_| Must::End, p.bytes.len() + idx.len(), &|| what.clone())?;
    ex.describe(|| what.clone());
    Ok(())
}

/// Index and pack do not belong together.
fn mismatch(ex: &Exec) -> Res {
    let b = base_pack();
    let p = build_pack(2, &b.entries);
    let style = ex.choose(3);
    let r = Repo::new(ex.fresh_dir());
    let what: String;
    let (mut pk, idx);
    match ex.choose(4) {
        0 => {
            // another object count in the pack, otherwise consistent
            let c = *ex.pick(&[0u32, 1, 5, 6, 8, 9, 100, u32::MAX]);
            pk = p.bytes.clone();
            pk[8..12].copy_from_slice(&c.to_be_bytes());
            let id = resign(&mut pk);
            let mut q = build_pack(2, &b.entries);
            q.id = id;
            idx = idx_of(&b, &q, style);
            what = format!("the pack declares {} objects, the index 7", c);
        }
        1 => {
            // the index lists fewer or more objects
            let mut es = idx_entries(&b, &p);
            let more = ex.flag();
            if more {
                es.push(IdxEntry { id: sha1(b"more"), offset: p.offsets[0], crc: 0, force64: false });
            } else {
                es.remove(ex.choose(es.len()));
            }
            idx = build_idx(if style == 0 { 1 } else { 2 }, &es, p.id);
            pk = p.bytes.clone();
            what = format!("the index lists {} objects, the pack 7", es.len());
        }
        2 => {
            // another pack's checksum in the index: any byte of it
            let i = ex.choose(20);
            let mut q = build_pack(2, &b.entries);
            q.id[i] ^= *ex.pick(&[1u8, 0x80, 0xff]);
            idx = idx_of(&b, &q, style);
            pk = p.bytes.clone();
            what = format!("byte {} of the pack checksum in the index differs", i);
        }
        _ => {
            // bytes after the pack's own trailer
            let n = 1 + ex.choose(25);
            idx = idx_of(&b, &p, style);
            pk = p.bytes.clone();
            pk.extend(vec![0u8; n]);
            what = format!("{} bytes after the pack", n);
        }
    }
    r.put_pack_raw("a", &pk, &idx);
    ex.state(&(style, &what));
    let fewer = what.starts_with("the index lists 6");
    let ctx = || format!("{}, index style {}", what, style);
    read_all(
        ex,
        &r,
        &b.objs,
        &|_| Must::Error,
        pk.len() + idx.len(),
        &ctx,
    )?;
    let _ = fewer;
    ex.describe(ctx);
    Ok(())
}

/// Indexes that list an object under an id that differs in one bit, or in two bytes that cancel out.
fn false_ids(ex: &Exec) -> Res {
    let b = base_pack();
    let p = build_pack(2, &b.entries);
    let style = ex.choose(3);
    let i = ex.choose(b.objs.len());
    let at = ex.choose(20);
    let r = Repo::new(ex.fresh_dir());
    for bit in 0..8 {
        for second in [None, Some((at + 1) % 20), Some((at + 7) % 20)] {
            let mut es = idx_entries(&b, &p);
            es[i].id[at] ^= 1 << bit;
            if let Some(k) = second {
                es[i].id[k] ^= 1 << bit;
            }
            let wrong = es[i].id;
            if style == 2 {
                es.iter_mut().for_each(|e| e.force64 = e.offset > p.offsets[0]);
            }
            let idx = build_idx(if style == 0 { 1 } else { 2 }, &es, p.id);
            r.put_pack_raw("a", &p.bytes, &idx);
            ex.state(&(style, i, at, bit, second));
            let db = r.db();
            for round in 0..2 {
                let got = lib(ex, || guarded(|| repo::parse(&db, &wrong)));
                ex.evals(1);
                match got {
                    Ok(Obs::Err(_)) => (),
                    g => {
                        return fail(
                            "forged",
                            format!(
                                "index style {} lists object {} under {} instead of {}: read {} gives {}",
                                style,
                                i,
                                hex(&wrong),
                                hex(&b.objs[i].id),
                                round,
                                g.map(|o| o.short()).unwrap_or_else(|p| p)
                            ),
                        )
                    }
                }
            }
            for (k, o) in b.objs.iter().enumerate() {
                // the object itself is gone, and so are those that need it by its id
                let must = if k == i || i == 1 && (k == 2 || k == 3) { Must::End } else { Must::Exact };
                judge(ex, &db, o, must, p.bytes.len() + idx.len(), &|| format!("object {} under a false id (byte {})", i, at))?;
            }
        }
    }
    ex.describe(|| format!("index style {}: object {} under ids that differ from its own at byte {}", style, i, at));
    Ok(())
}

/// Fan-out tables: every assignment of hostile values to a few buckets.
fn fanout(ex: &Exec) -> Res {
    let b = base_pack();
    let p = build_pack(2, &b.entries);
    let style = ex.choose(2);
    let mut idx = idx_of(&b, &p, style);
    let at = if style == 0 { 0 } else { 8 };
    let n = b.objs.len() as u32;
    let vals = [0u32, 1, n - 1, n, n + 1, 2 * n, 0x7fff_ffff, 0x8000_0000, u32::MAX];
    let first = *ex.pick(&[0usize, 1, 127, b.objs[0].id[0] as usize, 254, 255]);
    let last = *ex.pick(&[first, first + 1, 254, 255]);
    let v = *ex.pick(&vals);
    if last > 255 || last < first {
        return Ok(());
    }
    for i in first..=last {
        idx[at + 4 * i..at + 4 * i + 4].copy_from_slice(&v.to_be_bytes());
    }
    let second = ex.flag();
    if second {
        let w = *ex.pick(&vals);
        idx[at + 4 * 255..at + 1024].copy_from_slice(&w.to_be_bytes());
    }
    let r = Repo::new(ex.fresh_dir());
    r.put_pack_raw("a", &p.bytes, &idx);
    let ctx = || format!("fan-out {}..={} set to {} (last changed too: {}), style {}", first, last, v, second, style);
    ex.state(&(&idx[at..at + 1024], style));
    read_all(ex, &r, &b.objs, &|_| Must::End, p.bytes.len() + idx.len(), &ctx)?;
    ex.describe(ctx);
    Ok(())
}

/// Compressed streams which are valid but not what is declared, or damaged anywhere.
fn streams(ex: &Exec) -> Res {
    let mut b = base_pack();
    let e = ex.choose(b.entries.len());
    let data = b.entries[e].data.clone();
    let good = zlib(&data, 6);
    let k = ex.choose(6);
    let (what, packed): (String, Vec<u8>) = match k {
        0 => {
            let n = ex.choose(data.len());
            (format!("stream holds only {} bytes", n), zlib(&data[..n], 6))
        }
        1 => {
            let n = 1 + ex.choose(40);
            let mut d = data.clone();
            d.extend(vec![b'x'; n]);
            (format!("stream holds {} bytes more", n), zlib(&d, 6))
        }
        2 => {
            let n = ex.choose(good.len());
            (format!("stream cut to {} of {} bytes", n, good.len()), good[..n].to_vec())
        }
        3 => {
            // the checksum of the data is wrong
            let mut g = good.clone();
            let i = g.len() - 1 - ex.choose(4);
            g[i] ^= 1 << ex.choose(8);
            (format!("byte {} of the stream's checksum is wrong", i), g)
        }
        4 => {
            // content changed, checksum kept
            let i = ex.choose(data.len());
            let mut d = data.clone();
            d[i] ^= *ex.pick(&[1u8, 0x80]);
            let mut g = zlib_stored(&d, 65535);
            let n = g.len() - 4;
            g[n..].copy_from_slice(&adler32(&data).to_be_bytes());
            (format!("byte {} of the content changed in a stored block", i), g)
        }
        _ => {
            let n = *ex.pick(&[100_000usize, 1_000_000, 10_000_000]);
            let mut d = data.clone();
            d.extend(vec![0; n]);
            (format!("stream holds {} zeroes more", n), zlib(&d, 9))
        }
    };
    b.entries[e].packed = Some(packed);
    let p = build_pack(2, &b.entries);
    let r = Repo::new(ex.fresh_dir());
    r.put_pack_raw("a", &p.bytes, &idx_of(&b, &p, 1));
    ex.state(&(k, &p.bytes));
    let ctx = || format!("entry {}: {}", e, what);
    read_all(
        ex,
        &r,
        &b.objs,
        &|o| if b.deps[o].contains(&e) { Must::Error } else { Must::Exact },
        p.bytes.len() + 1100,
        &ctx,
    )?;
    ex.describe(ctx);
    Ok(())
}
