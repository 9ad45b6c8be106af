//! R01: every storage representation of an object.
use super::gen::{self, Obj};
use super::sparse::*;
use super::util::*;
use crate::ensure;
use crate::explorer::*;
use crate::gitfmt::*;
use crate::repo::{self, *};
use std::io::Read;

const SIZES: &[usize] = &[
    0, 1, 15, 16, 17, 29, 127, 128, 200, 2047, 2048, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537,
    262143, 262144,
];

pub fn r01(ex: &Exec) -> Res {
    match ex.choose(15) {
        14 => far(ex),
        13 => twice(ex),
        12 => incompressible(ex),
        11 => super::scale::packs(ex),
        10 => giant(ex),
        9 => huge(ex),
        0 => single(ex),
        1 => small_chains(ex),
        2 => long_chains(ex),
        3 => distances(ex),
        4 => copies(ex),
        5 => many(ex),
        6 => streams(ex),
        7 => interleaved(ex),
        _ => git_made(ex),
    }
}

/// kind x size x compressibility x level x versions x representation x position
fn single(ex: &Exec) -> Res {
    let kind = *ex.pick(&KINDS);
    let size = *ex.pick(SIZES);
    if kind != Kind::Blob && ex.quick() && size > 70000 {
        ex.prune();
    }
    let noisy = ex.flag();
    let level = *ex.pick(if ex.quick() { &[0u32, 6][..] } else { &[0, 1, 6, 9][..] });
    let rep = ex.choose(5); // loose, whole, ofs, ref, stored blocks
    let o = gen::obj(kind, size, 5, noisy);
    let (pv, iv, pos) = if rep == 0 {
        (2, 2, 0)
    } else {
        let v = ex.choose(if ex.quick() { 2 } else { 4 });
        ([2, 3, 2, 3][v], [2, 1, 1, 2][v], ex.choose(3))
    };
    let r = Repo::new(ex.fresh_dir());
    ex.state(&(kind, size, noisy, level, rep, pv, iv, pos));
    ex.describe(|| {
        format!(
            "{} of {} bytes noisy={} zlib level {} as {} (pack v{} idx v{} position {})",
            kind.name(), o.content.len(), noisy, level, ["loose", "whole", "ofs delta", "ref delta", "stored blocks"][rep], pv, iv, pos
        )
    });
    if rep == 0 {
        r.put_loose_raw(&o.id, &zlib(&framed(kind, &o.content), level));
    } else {
        let base = gen::obj(kind, size + 40, 9, noisy);
        let other = gen::obj(Kind::Blob, 33, 12, true);
        let mut es = vec![];
        // position 0: target directly after the header (when possible), 1: middle, 2: last
        let t = match rep {
            1 => PackEntry::whole(kind, &o.content).level(level),
            4 => {
                let mut e = PackEntry::whole(kind, &o.content);
                e.packed = Some(zlib_stored(&o.content, if level == 0 { 100 } else { 65535 }));
                e
            }
            2 => PackEntry::delta(o.id, Rep::Ofs(0), diff(&base.content, &o.content)).level(level),
            _ => PackEntry::delta(o.id, Rep::Ref(base.id), diff(&base.content, &o.content)).level(level),
        };
        let b = PackEntry::whole(kind, &base.content).level(level);
        let x = PackEntry::whole(Kind::Blob, &other.content);
        if rep == 2 {
            es.push(b);
            match pos {
                0 => {
                    es.push(t);
                }
                1 => {
                    es.push(t);
                    es.push(x);
                }
                _ => {
                    es.push(x);
                    es.push(t);
                }
            }
        } else {
            match pos {
                0 => es.extend([t, b, x]),
                1 => es.extend([x, t, b]),
                _ => es.extend([b, x, t]),
            }
        }
        r.put_pack(pv, iv, &es);
    }
    let db = r.db();
    let ctx = || format!("rep {} level {} pack v{} idx v{} pos {}", rep, level, pv, iv, pos);
    if ex.flag() {
        check_raw(ex, &db, &o, &ctx)?;
    }
    check_obj(ex, &db, &o, &ctx)?;
    check_obj(ex, &db, &o, &ctx)
}

/// sizes with every number of digits, and beyond what 3 bytes can say
fn huge(ex: &Exec) -> Res {
    let kind = *ex.pick(&KINDS);
    let mut sizes = vec![999_999usize, 1_000_000, 9_999_999, 10_000_000, 0xff_ffff, 0x100_0000, 0x100_0001];
    if !ex.quick() {
        sizes.extend([0x1f_ffff, 0x20_0000, 0x7f_ffff, 0x80_0000, 0x1ff_ffff, 0x200_0000, 99_999_999, 100_000_000]);
    }
    let size = *ex.pick(&sizes);
    let rep = ex.choose(4);
    if ex.quick() && kind != Kind::Blob && size > 1_000_000 && rep % 2 == 1 {
        ex.prune();
    }
    let o = gen::obj(kind, size, 6, false);
    let r = Repo::new(ex.fresh_dir());
    ex.state(&("huge", kind, size, rep));
    let ctx = || format!("{} of {} bytes, {}", kind.name(), size, ["loose", "whole", "ofs delta", "ref delta"][rep]);
    ex.describe(ctx);
    if rep == 0 {
        r.put_loose_raw(&o.id, &zlib(&framed(kind, &o.content), 1));
    } else {
        // the base is the first 64 KiB; the delta repeats parts of it
        let base = gen::obj(kind, 70_000, 8, false);
        let d = diff_blocks(&base.content, &o.content);
        let b = PackEntry::whole(kind, &base.content).level(1);
        r.put_pack(2, 2, &match rep {
            1 => vec![PackEntry::whole(kind, &o.content).level(1)],
            2 => vec![b, PackEntry::delta(o.id, Rep::Ofs(0), d).level(1)],
            _ => vec![PackEntry::delta(o.id, Rep::Ref(base.id), d).level(1), b],
        });
    }
    let db = r.db();
    check_raw(ex, &db, &o, &ctx)?;
    check_obj(ex, &db, &o, &ctx)
}

/// large contents that do not compress, so that they arrive in many small pieces: the work of reading them
/// must stay in proportion (a worker that gets nowhere is ended and reported)
fn incompressible(ex: &Exec) -> Res {
    let size = *ex.pick(if ex.quick() { &[200_000_000usize][..] } else { &[200_000_000, 1 << 29] });
    let loose = ex.flag();
    let o = gen::blob(noise(77, size));
    let r = Repo::new(ex.fresh_dir());
    ex.state(&("incompressible", size, loose));
    let ctx = || format!("blob of {} random bytes, {}", size, if loose { "loose" } else { "whole" });
    ex.describe(ctx);
    if loose {
        r.put_loose_raw(&o.id, &zlib(&framed(o.kind, &o.content), 0));
    } else {
        r.put_pack(2, 2, &[PackEntry::whole(o.kind, &o.content).level(0)]);
    }
    let db = r.db();
    check_raw(ex, &db, &o, &ctx)?;
    check_obj(ex, &db, &o, &ctx)
}

/// beyond what 25, 28, 31 and 32 bits can say
fn giant(ex: &Exec) -> Res {
    let mut sizes = vec![1u64 << 25, (1 << 28) + 1];
    if !ex.quick() {
        sizes.extend([(1 << 31) - 1, (1 << 32) - 1, (1 << 32) + 7]);
    }
    let len = *ex.pick(&sizes);
    let loose = ex.flag();
    let s = Sparse::around(len, &[0, len / 3, 1 << 24, 1 << 28, (1 << 31) - 1, 1 << 32, len - 1]);
    let id = s.oid(Kind::Blob);
    let r = Repo::new(ex.fresh_dir());
    ex.state(&("giant", len, loose));
    let ctx = || format!("blob of {} bytes, {}", len, if loose { "loose" } else { "whole" });
    ex.describe(ctx);
    if loose {
        r.put_loose_raw(&id, &s.zlib(&s.header(Kind::Blob)));
    } else {
        r.put_pack(2, 2, &[s.packed(Kind::Blob, id)]);
    }
    crate::alloc::up_to(1 << 34, || {
        check_stream(ex, &r.db(), &id, Kind::Blob, &s, &ctx)?;
        check_blob(ex, &r.db(), &id, &s, &ctx)
    })
}

/// every link type, every pack order, every pair of reads, for chains of up to 3 deltas
fn small_chains(ex: &Exec) -> Res {
    let kind = *ex.pick(&KINDS);
    let depth = 1 + ex.choose(if ex.quick() { 2 } else { 3 });
    let vs = gen::versions(kind, depth + 1, 180, false);
    // a permutation of the entries
    let mut rest: Vec<usize> = (0..=depth).collect();
    let mut order = vec![];
    while !rest.is_empty() {
        order.push(rest.remove(ex.choose(rest.len())));
    }
    let at = |i: usize| order.iter().position(|&x| x == i).unwrap();
    let mut es: Vec<PackEntry> = vec![];
    let mut links = vec![];
    for i in 0..=depth {
        links.push(if i == 0 {
            0
        } else if at(i - 1) < at(i) {
            1 + ex.choose(2)
        } else {
            2
        });
    }
    for &i in &order {
        es.push(match links[i] {
            0 => PackEntry::whole(kind, &vs[0].content),
            1 => PackEntry::delta(vs[i].id, Rep::Ofs(at(i - 1)), diff(&vs[i - 1].content, &vs[i].content)),
            _ => PackEntry::delta(vs[i].id, Rep::Ref(vs[i - 1].id), diff(&vs[i - 1].content, &vs[i].content)),
        });
    }
    let iv = 1 + ex.choose(2) as u32;
    let r = Repo::new(ex.fresh_dir());
    r.put_pack(2, iv, &es);
    ex.state(&(kind, &order, &links, iv));
    ex.describe(|| format!("{} chain, pack order {:?}, links {:?}, idx v{}", kind.name(), order, links, iv));
    let db = r.db();
    let ctx = || format!("chain order {:?} links {:?} idx v{}", order, links, iv);
    let first = ex.choose(depth + 1);
    check_obj(ex, &db, &vs[first], &ctx)?;
    let second = ex.choose(depth + 1);
    check_obj(ex, &db, &vs[second], &ctx)?;
    for v in &vs {
        check_obj(ex, &db, v, &ctx)?;
    }
    Ok(())
}

fn long_chains(ex: &Exec) -> Res {
    let kind = *ex.pick(&KINDS);
    let depth = *ex.pick(if ex.quick() {
        &[4, 7, 15, 16, 17, 18, 40, 51, 64, 101, 129, 257, 1025, 4095][..]
    } else {
        &[4, 5, 6, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 40, 49, 50, 51, 63, 64, 65, 100, 101, 128, 129, 250, 256, 257, 513, 1025, 2049, 4096][..]
    });
    if depth > 257 && kind != Kind::Blob && ex.quick() {
        ex.prune();
    }
    let mode = ex.choose(4);
    // the deepest chains only with small objects, every version being kept in memory
    let size = *ex.pick(if depth > 40 && ex.quick() || depth > 257 { &[60usize][..] } else { &[60usize, 700, 9000][..] });
    let vs = gen::versions(kind, depth + 1, size, ex.flag());
    let mut es = vec![];
    for (i, v) in vs.iter().enumerate() {
        let ofs = match mode {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => i % 3 == 0,
        };
        es.push(if i == 0 {
            PackEntry::whole(kind, &v.content)
        } else {
            let d = diff(&vs[i - 1].content, &v.content);
            if ofs {
                PackEntry::delta(v.id, Rep::Ofs(i - 1), d)
            } else {
                PackEntry::delta(v.id, Rep::Ref(vs[i - 1].id), d)
            }
        });
    }
    if mode == 1 && ex.flag() {
        es.reverse();
    }
    let r = Repo::new(ex.fresh_dir());
    r.put_pack(2, 2, &es);
    ex.state(&(kind, depth, mode, size));
    ex.describe(|| format!("{} chain of depth {} mode {} size {}", kind.name(), depth, mode, size));
    let db = r.db();
    let ctx = || format!("chain of depth {} mode {} size {}", depth, mode, size);
    // deepest first (nothing cached), or the middle first (chain ends in the cache)
    if ex.flag() {
        check_obj(ex, &db, &vs[depth / 2], &ctx)?;
    }
    check_obj(ex, &db, &vs[depth], &ctx)?;
    for v in &vs {
        check_obj(ex, &db, v, &ctx)?;
    }
    Ok(())
}

/// offset deltas at exact distances around the encoding boundaries
fn distances(ex: &Exec) -> Res {
    let want = *ex.pick(if ex.quick() {
        &[127u64, 128, 129, 255, 256, 8192, 16511, 16512, 16513, 16640, 32896, 2113663, 2113664, 2113665][..]
    } else {
        &[
            100, 126, 127, 128, 129, 255, 256, 257, 8192, 16383, 16384, 16510, 16511, 16512, 16513, 16639, 16640,
            16641, 32895, 32896, 2097151, 2097152, 2113662, 2113663, 2113664, 2113665, 2130048, 2130176, 4227200,
        ][..]
    });
    let kind = *ex.pick(&[Kind::Blob, Kind::Tag]);
    let base = gen::obj(kind, 90, 3, false);
    let o = gen::obj(kind, 95, 4, false);
    let d = diff(&base.content, &o.content);
    let b = PackEntry::whole(kind, &base.content);
    // find a filler length that gives the distance
    let build = |fl: Option<usize>| {
        let mut es = vec![b.clone()];
        if let Some(n) = fl {
            let mut f = PackEntry::whole(Kind::Blob, &noise(1, n));
            f.packed = Some(zlib_stored(&f.data, 65535));
            es.push(f);
        }
        let i = es.len();
        es.push(PackEntry::delta(o.id, Rep::Ofs(0), d.clone()));
        let p = build_pack(2, &es);
        let dist = p.offsets[i] - p.offsets[0];
        (es, dist)
    };
    let mut n = want.saturating_sub(build(Some(1)).1) as usize + 1;
    let mut found = None;
    for _ in 0..12 {
        let (es, dist) = build(Some(n));
        if dist == want {
            found = Some(es);
            break;
        }
        if dist > want {
            n = n.saturating_sub((dist - want) as usize);
        } else {
            n += (want - dist) as usize;
        }
    }
    let es = match found {
        Some(e) => e,
        None => {
            ex.count("unreachable distances", 1);
            return Ok(());
        }
    };
    let r = Repo::new(ex.fresh_dir());
    r.put_pack(2, 2, &es);
    ex.state(&(want, kind));
    ex.describe(|| format!("{} as offset delta at distance {}", kind.name(), want));
    check_obj(ex, &r.db(), &o, &|| format!("offset delta at distance {}", want))
}

/// A pack with holes: a delta far behind its base, and other objects whose offsets have bits in common with the base's.
fn far(ex: &Exec) -> Res {
    use std::os::unix::fs::FileExt;
    let mut dists: Vec<u64> = vec![];
    // the distances at which an encoding gets longer, and powers of two
    let mut edge = 0u64;
    for k in 1..=6 {
        edge += 1 << (7 * k);
        if k > 2 {
            dists.extend([edge - 1, edge, edge + 1]);
        }
    }
    for k in 21..43 {
        dists.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let d = *ex.pick(&dists);
    let at = *ex.pick(&[12u64, 0x7fff_fff0, 0xffff_ff00, 0x1_0000_0100]);
    let depth = 1 + ex.choose(if ex.quick() { 1 } else { 2 });
    let r = Repo::new(ex.fresh_dir());
    std::fs::create_dir_all(r.dotgit.join("objects/pack")).unwrap();
    let f = std::fs::File::create(r.pack_path("x", "pack")).unwrap();
    // object, offset and bytes of each entry
    let mut all: Vec<(Obj, u64)> = vec![];
    let mut end = 0;
    let mut put = |o: &Obj, off: u64, bytes: &[u8]| {
        f.write_all_at(bytes, off).unwrap();
        end = end.max(off + bytes.len() as u64);
        all.push((o.clone(), off));
    };
    let whole = |o: &Obj| {
        let mut e = pack_obj_header(3, o.content.len() as u64);
        e.extend(zlib(&o.content, 6));
        e
    };
    let base = gen::obj(Kind::Blob, 90, 3, false);
    put(&base, at, &whole(&base));
    if at != 12 {
        let o = gen::obj(Kind::Blob, 90, 1, false);
        put(&o, 12, &whole(&o));
    }
    let mut last = base.clone();
    let mut off = at;
    for k in 0..depth {
        let o = gen::obj(Kind::Blob, 91 + k, 4 + k as u64, false);
        let delta = diff(&last.content, &o.content);
        let mut e = pack_obj_header(6, delta.len() as u64);
        e.extend(ofs_encode(d));
        e.extend(zlib(&delta, 6));
        off += d;
        put(&o, off, &e);
        last = o;
    }
    // of the same size as the base
    for k in 12..43 {
        let off = at + (1 << k);
        let o = gen::obj(Kind::Blob, 90, 100 + k as u64, false);
        if [at, at + d, at + 2 * d].iter().all(|x| x.max(&off) - x.min(&off) > 1000) && (off > 1000) {
            put(&o, off, &whole(&o));
        }
    }
    let mut head = b"PACK".to_vec();
    head.extend_from_slice(&2u32.to_be_bytes());
    head.extend_from_slice(&(all.len() as u32).to_be_bytes());
    f.write_all_at(&head, 0).unwrap();
    let pid = sha1(b"far");
    f.write_all_at(&pid, end).unwrap();
    drop(f);
    let mut es: Vec<IdxEntry> = all.iter().map(|(o, off)| IdxEntry { id: o.id, offset: *off, crc: 0, force64: false }).collect();
    es.sort_by_key(|e| e.id);
    std::fs::write(r.pack_path("x", "idx"), build_idx(2, &es, pid)).unwrap();
    ex.state(&(d, at, depth));
    ex.describe(|| format!("base at {:x}, {} deltas at distance {}, {} objects", at, depth, d, all.len()));
    for rev in [false, true] {
        let db = r.db();
        let mut order: Vec<&(Obj, u64)> = all.iter().collect();
        if rev {
            order.reverse();
        }
        for (o, off) in order {
            check_obj(ex, &db, o, &|| format!("base at {:x}, deltas at distance {}, reading offset {:x} of {} objects on one handle", at, d, off, all.len()))?;
        }
    }
    Ok(())
}

/// the object in every non-empty subset of five places
fn copies(ex: &Exec) -> Res {
    let kind = *ex.pick(&KINDS);
    let mask = 1 + ex.choose(31);
    let o = gen::obj(kind, 300, 21, false);
    let base = gen::obj(kind, 320, 22, false);
    let d = diff(&base.content, &o.content);
    let r = Repo::new(ex.fresh_dir());
    if mask & 1 != 0 {
        r.put_loose(kind, &o.content);
    }
    let b = PackEntry::whole(kind, &base.content);
    let packs: [Vec<PackEntry>; 4] = [
        vec![PackEntry::whole(kind, &o.content)],
        vec![PackEntry::whole(Kind::Blob, b"other"), PackEntry::whole(kind, &o.content).level(0)],
        vec![b.clone(), PackEntry::delta(o.id, Rep::Ofs(0), d.clone())],
        vec![PackEntry::delta(o.id, Rep::Ref(base.id), d.clone()), b],
    ];
    for (i, p) in packs.iter().enumerate() {
        if mask & (2 << i) != 0 {
            r.put_pack(2, if i % 2 == 0 { 2 } else { 1 }, p);
        }
    }
    ex.state(&(kind, mask));
    ex.describe(|| format!("{} stored in places {:05b}", kind.name(), mask));
    let db = r.db();
    let ctx = || format!("stored in places {:05b}", mask);
    check_obj(ex, &db, &o, &ctx)?;
    if mask & 0b11000 != 0 {
        check_obj(ex, &db, &base, &ctx)?;
    }
    check_obj(ex, &db, &o, &ctx)
}

/// an object that one pack holds twice or three times, in any forms, and deltas of it
fn twice(ex: &Exec) -> Res {
    let kind = *ex.pick(&KINDS);
    let n = 2 + ex.choose(2);
    let forms: Vec<usize> = (0..n).map(|_| ex.choose(4)).collect();
    let iv = 1 + ex.choose(2) as u32;
    let first = ex.choose(3);
    let o = gen::obj(kind, 300, 31, false);
    let base = gen::obj(kind, 320, 32, false);
    let tops = [gen::obj(kind, 310, 33, false), gen::obj(kind, 330, 34, false)];
    let d = diff(&base.content, &o.content);
    let mut es = vec![PackEntry::whole(kind, &base.content)];
    for f in &forms {
        es.push(match f {
            0 => PackEntry::whole(kind, &o.content),
            1 => PackEntry::whole(kind, &o.content).level(0),
            2 => PackEntry::delta(o.id, Rep::Ofs(0), d.clone()),
            _ => PackEntry::delta(o.id, Rep::Ref(base.id), d.clone()),
        });
    }
    for (i, t) in tops.iter().enumerate() {
        let d = diff(&o.content, &t.content);
        es.push(PackEntry::delta(t.id, if i == 0 { Rep::Ref(o.id) } else { Rep::Ofs(n) }, d));
    }
    let r = Repo::new(ex.fresh_dir());
    r.put_pack(2, iv, &es);
    ex.state(&("twice", kind, &forms, iv, first));
    let ctx = || format!("one pack with copies {:?} of an object, idx v{}, read first {}", forms, iv, first);
    ex.describe(ctx);
    let db = r.db();
    let all = [&o, &tops[0], &tops[1], &base];
    for i in 0..8 {
        check_obj(ex, &db, all[(first + i) % 4], &ctx)?;
    }
    check_raw(ex, &db, &o, &ctx)
}

/// packs of many objects
fn many(ex: &Exec) -> Res {
    let n = *ex.pick(&[1usize, 2, 255, 256, 257, 700]);
    let iv = 1 + ex.choose(2) as u32;
    let objs: Vec<Obj> = (0..n).map(|i| gen::obj(KINDS[i % 4], 10 + i * 7 % 400, i as u64, i % 5 == 0)).collect();
    let es: Vec<PackEntry> = objs
        .iter()
        .enumerate()
        .map(|(i, o)| {
            // every third object is a delta against the previous one of the same kind
            if i >= 4 && i % 3 == 0 {
                let b = &objs[i - 4];
                let d = diff(&b.content, &o.content);
                if i % 2 == 0 {
                    PackEntry::delta(o.id, Rep::Ofs(i - 4), d)
                } else {
                    PackEntry::delta(o.id, Rep::Ref(b.id), d)
                }
            } else {
                PackEntry::whole(o.kind, &o.content)
            }
        })
        .collect();
    let r = Repo::new(ex.fresh_dir());
    r.put_pack(2, iv, &es);
    ex.state(&(n, iv));
    ex.describe(|| format!("pack of {} objects, idx v{}", n, iv));
    let db = r.db();
    for o in &objs {
        check_obj(ex, &db, o, &|| format!("pack of {} objects", n))?;
    }
    Ok(())
}

/// One object per representation, for reading raw streams.
fn five(ex: &Exec, size: usize) -> (Repo, Vec<Obj>) {
    let r = Repo::new(ex.fresh_dir());
    let v: Vec<Obj> = (0..5).map(|i| gen::obj([Kind::Blob, Kind::Tag, Kind::Tag, Kind::Tag, Kind::Commit][i], size + 7 * i, 70 + i as u64, i == 0)).collect();
    r.put_loose(v[0].kind, &v[0].content);
    r.put_loose(v[4].kind, &v[4].content);
    r.put_pack(
        2,
        2,
        &[
            PackEntry::whole(v[1].kind, &v[1].content),
            PackEntry::delta(v[2].id, Rep::Ofs(0), diff(&v[1].content, &v[2].content)),
            PackEntry::delta(v[3].id, Rep::Ref(v[2].id), diff(&v[2].content, &v[3].content)),
        ],
    );
    (r, v)
}

/// the raw stream read in pieces of every size
fn streams(ex: &Exec) -> Res {
    let size = *ex.pick(&[0usize, 1, 200, 4090, 8190, 70000]);
    let (r, v) = five(ex, size);
    let db = r.db();
    let how = ex.choose(if size > 5000 { 12 } else { 15 });
    let piece = |i: usize| -> usize {
        let one = [4096usize, 100, 127, 128, 4095, 4097, 8192, 8193, 32768, 65536, 1 << 20];
        match how {
            0 => [1, 4096, 3, 8192][i % 4],
            h if h <= 11 => one[h - 1],
            h => h - 11,
        }
    };
    ex.state(&(size, how));
    ex.describe(|| format!("streams of {} bytes in pieces of {}, {}, ...", size, piece(0), piece(1)));
    for o in &v {
        let want = framed(o.kind, &o.content);
        for _ in 0..2 {
            let got = lib(ex, || -> Result<Vec<u8>, String> {
                let mut rd = db.read_object(repo::id(&o.id)).map_err(|e| e.to_string())?;
                let mut got = vec![];
                for i in 0.. {
                    let at = got.len();
                    got.resize(at + piece(i), 0xaa);
                    let n = rd.reader().read(&mut got[at..]).map_err(|e| e.to_string())?;
                    got.truncate(at + n);
                    if n == 0 {
                        break;
                    }
                }
                // nothing comes after the end
                let mut b = [0; 10];
                for _ in 0..2 {
                    if rd.reader().read(&mut b).map_err(|e| e.to_string())? != 0 {
                        return Err("more after the end".into());
                    }
                }
                Ok(got)
            });
            ex.evals(1);
            ensure!(
                got.as_ref() == Ok(&want),
                "stream-differs",
                "{} {} read in pieces of {}, {}, ...: {:?}",
                o.kind.name(),
                hex(&o.id),
                piece(0),
                piece(1),
                got.map(|g| (g.len(), want.len()))
            );
        }
    }
    Ok(())
}

/// streams opened, read in pieces and dropped in every order, on one handle
fn interleaved(ex: &Exec) -> Res {
    let size = *ex.pick(&[150usize, 20000]);
    let (r, v) = five(ex, size);
    let mut db = r.db();
    let pick = [ex.choose(5), ex.choose(5)];
    let mut moves = 0;
    let mut rds: Vec<Option<(_, Vec<u8>)>> = vec![None, None];
    let mut hist = vec![];
    for _ in 0..if ex.quick() { 4 } else { 6 } {
        let (w, op) = match ex.choose(if size < 1000 { 8 } else { 6 }) {
            // another handle, while streams of the first one are open
            6 => {
                hist.push((0, "reopen"));
                db = r.db();
                continue;
            }
            // everything moves to another pack, then to loose files, while streams are open
            7 => {
                hist.push((0, "move"));
                let packs = r.dotgit.join("objects/pack");
                let old: Vec<_> = std::fs::read_dir(&packs).unwrap().map(|e| e.unwrap().path()).collect();
                if moves % 2 == 0 {
                    r.put_pack(2, 2, &v.iter().rev().map(|o| PackEntry::whole(o.kind, &o.content)).collect::<Vec<_>>());
                    v.iter().for_each(|o| drop(std::fs::remove_file(r.loose_path(&o.id))));
                } else {
                    v.iter().for_each(|o| drop(r.put_loose(o.kind, &o.content)));
                }
                old.iter().for_each(|p| std::fs::remove_file(p).unwrap());
                moves += 1;
                continue;
            }
            k => (k / 3, k % 3),
        };
        let o = &v[pick[w]];
        match op {
            // another read between the pieces
            2 => {
                hist.push((w, "parse"));
                check_obj(ex, &db, o, &|| format!("{:?}", hist))?;
            }
            k => {
                if rds[w].is_none() {
                    hist.push((w, "open"));
                    match lib(ex, || db.read_object(repo::id(&o.id))) {
                        Ok(x) => rds[w] = Some((x, vec![])),
                        Err(e) => return fail("stream-fails", format!("{:?}: {}", hist, e)),
                    }
                    continue;
                }
                hist.push((w, ["read", "drop"][k]));
                if k == 1 {
                    rds[w] = None;
                    continue;
                }
                let (x, got) = rds[w].as_mut().unwrap();
                let mut b = vec![0; size / 3];
                match lib(ex, || x.reader().read(&mut b)) {
                    Ok(n) => got.extend(&b[..n]),
                    Err(e) => return fail("stream-fails", format!("{:?}: {}", hist, e)),
                }
            }
        }
    }
    ex.state(&(size, pick, &hist));
    ex.describe(|| format!("objects {:?} of {} bytes: {:?}", pick, size, hist));
    for w in 0..2 {
        if let Some((mut x, mut got)) = rds[w].take() {
            let o = &v[pick[w]];
            let end = lib(ex, || x.reader().read_to_end(&mut got));
            ex.evals(1);
            ensure!(
                end.is_ok() && got == framed(o.kind, &o.content),
                "stream-differs",
                "after {:?} the stream of {} gives {} bytes ({:?})",
                hist,
                hex(&o.id),
                got.len(),
                end
            );
        }
    }
    Ok(())
}

/// packs written by git itself: the reference formats of this harness are the ones Git writes
fn git_made(ex: &Exec) -> Res {
    let cfg = ex.choose(if ex.quick() { 4 } else { 12 });
    let r = Repo::new(ex.fresh_dir());
    if !git_ok() {
        ex.count("git unavailable", 1);
        return Ok(());
    }
    let mut objs = vec![];
    for (ki, kind) in [Kind::Blob, Kind::Tag].iter().enumerate() {
        for i in 0..12u64 {
            let size = [0usize, 5, 120, 4000, 5000, 70000][i as usize % 6];
            objs.push(gen::obj(*kind, size + i as usize * 3, 50 + i, i % 4 == 3 && ki == 0));
        }
    }
    // similar blobs so that git makes deltas
    let big = noise(9, 3000);
    for i in 0..8usize {
        let mut c = big.clone();
        c[i * 100] ^= 0x55;
        c.truncate(3000 - i * 11);
        objs.push(gen::blob(c));
    }
    let mut ids = String::new();
    for o in &objs {
        r.put_loose(o.kind, &o.content);
        ids.push_str(&hex(&o.id));
        ids.push('\n');
    }
    let mut args: Vec<String> = vec!["-c".into(), "gc.auto=0".into()];
    args.push("-c".into());
    args.push(format!("pack.indexVersion={}", 1 + cfg % 2));
    args.push("-c".into());
    args.push(format!("core.compression={}", [-1, 0, 9][cfg / 2 % 3]));
    args.extend(["pack-objects".into(), "--window=20".into(), format!("--depth={}", [50, 1, 8][cfg % 3])]);
    if cfg / 2 % 2 == 0 {
        args.push("--delta-base-offset".into());
    }
    if cfg == 3 || cfg == 11 {
        args.push("--index-version=2,0x40".into()); // forces 64-bit offsets
    }
    args.push(r.dotgit.join("objects/pack/pack").to_string_lossy().into_owned());
    let out = git(&r, &args, ids.as_bytes());
    ensure!(out.is_ok(), "harness", "git pack-objects failed: {:?}", out);
    for o in &objs {
        std::fs::remove_file(r.loose_path(&o.id)).unwrap();
    }
    ex.count("packs written by git", 1);
    ex.state(&("git", cfg));
    ex.describe(|| format!("pack written by git {:?}", args));
    let db = r.db();
    for o in &objs {
        check_obj(ex, &db, o, &|| format!("pack written by git {:?}", &args[..args.len() - 1]))?;
    }
    Ok(())
}
