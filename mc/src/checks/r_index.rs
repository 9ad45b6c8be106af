//! R03 (index lookups) and R04 (abbreviated ids).
use super::util::*;
use crate::ensure;
use crate::explorer::*;
use crate::gitfmt::*;
use crate::repo::*;
use rusty_git::object::ObjectDatabase;

fn mkid(first: u8, mid: u8, last: u8) -> Oid {
    let mut o = [mid; 20];
    o[0] = first;
    o[19] = last;
    o
}

/// A pack of tiny blobs (contents "0", "1", ...) and their offsets.
fn pack_of(n: usize) -> (Vec<PackEntry>, Pack) {
    let es: Vec<PackEntry> = (0..n)
        .map(|i| PackEntry::whole(Kind::Blob, i.to_string().as_bytes()))
        .collect();
    let p = build_pack(2, &es);
    (es, p)
}

fn expect(ex: &Exec, db: &ObjectDatabase, id: &Oid, want: Option<&[u8]>, ctx: &dyn Fn() -> String) -> Res {
    ex.evals(1);
    // the ids are made up, so that parsing, which checks them, fails: look at the stream
    let got = lib(ex, || match raw(db, id) {
        Ok(v) => Obs::Obj(Kind::Blob, v),
        Err(o) => o,
    });
    let ok = match (&got, want) {
        (Obs::Obj(Kind::Blob, c), Some(w)) => *c == framed(Kind::Blob, w),
        (Obs::NotFound, None) => true,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        fail(
            "lookup",
            format!(
                "{}: lookup of {} gives {}, expected {}",
                ctx(),
                hex(id),
                match &got {
                    Obs::Obj(_, c) => format!("{:?}", String::from_utf8_lossy(c)),
                    g => g.short(),
                },
                match want {
                    Some(w) => format!("{:?}", String::from_utf8_lossy(w)),
                    None => "not found".into(),
                }
            ),
        )
    }
}

/// ids differing from `id` by one in the last byte, the first byte, and a middle byte
fn neighbours(id: &Oid) -> Vec<Oid> {
    let mut v = vec![];
    for pos in [0usize, 1, 2, 10, 19] {
        for d in [1u8, 255] {
            let mut n = *id;
            n[pos] = n[pos].wrapping_add(d);
            v.push(n);
        }
    }
    v
}

fn check_all(ex: &Exec, db: &ObjectDatabase, set: &[(Oid, Vec<u8>)], extra: &[Oid], ctx: &dyn Fn() -> String) -> Res {
    let has: std::collections::BTreeMap<Oid, &[u8]> = set.iter().map(|(i, c)| (*i, c.as_slice())).collect();
    for (i, c) in set {
        expect(ex, db, i, Some(c), ctx)?;
    }
    for e in extra {
        expect(ex, db, e, has.get(e).copied(), ctx)?;
    }
    for (i, _) in set {
        for n in neighbours(i) {
            expect(ex, db, &n, has.get(&n).copied(), ctx)?;
        }
    }
    Ok(())
}

pub fn r03(ex: &Exec) -> Res {
    match ex.choose(5) {
        0 => subsets(ex),
        1 => buckets(ex),
        2 => large_offsets(ex),
        3 => counts(ex),
        _ => every_byte(ex),
    }
}

fn universe() -> Vec<Oid> {
    vec![
        mkid(0x00, 0, 0),
        mkid(0x00, 0, 1),
        mkid(0x00, 0xff, 0xff),
        mkid(0x01, 0, 0),
        mkid(0x7f, 0xff, 0xff),
        mkid(0x80, 0, 0),
        mkid(0x80, 0, 1),
        mkid(0xfe, 3, 3),
        mkid(0xff, 0, 0),
        mkid(0xff, 0xff, 0xfe),
        mkid(0xff, 0xff, 0xff),
    ]
}

/// every subset of the universe, both versions, every assignment style of offsets
fn subsets(ex: &Exec) -> Res {
    let u = universe();
    let mask = ex.choose(1 << u.len());
    let mode = ex.choose(5); // v1, v2, v2 all 64-bit, v2 even 64-bit, v2 odd 64-bit
    let rot = ex.choose(if ex.quick() { 1 } else { 3 });
    let ids: Vec<Oid> = (0..u.len()).filter(|i| mask & (1 << i) != 0).map(|i| u[i]).collect();
    let (_, p) = pack_of(ids.len());
    // ids are assigned to objects in a rotated order, so that index order and pack order differ
    let n = ids.len();
    let es: Vec<IdxEntry> = ids
        .iter()
        .enumerate()
        .map(|(i, id)| IdxEntry {
            id: *id,
            offset: p.offsets[(i * 3 + rot) % n.max(1) % n.max(1)],
            crc: 0x8000_0000 | i as u32,
            force64: match mode {
                2 => true,
                3 => i % 2 == 0,
                4 => i % 2 == 1,
                _ => false,
            },
        })
        .collect();
    let set: Vec<(Oid, Vec<u8>)> = ids
        .iter()
        .enumerate()
        .map(|(i, id)| (*id, ((i * 3 + rot) % n).to_string().into_bytes()))
        .collect();
    let idx = build_idx(if mode == 0 { 1 } else { 2 }, &es, p.id);
    let r = Repo::new(ex.fresh_dir());
    r.put_pack_raw("x", &p.bytes, &idx);
    ex.state(&(mask, mode, rot));
    ex.describe(|| format!("index of {} ids {:011b}, mode {}", n, mask, mode));
    check_all(ex, &r.db(), &set, &u, &|| format!("index with ids {:011b} mode {}", mask, mode))
}

/// n ids in one bucket, alone or with neighbours in the buckets around it
fn buckets(ex: &Exec) -> Res {
    let n = ex.choose(if ex.quick() { 20 } else { 40 });
    let first = *ex.pick(&[0u8, 1, 0x55, 0xfe, 0xff]);
    let around = ex.choose(4);
    let v = 1 + ex.choose(2) as u32;
    let byte = *ex.pick(&[1usize, 10, 19]);
    let mut ids: Vec<Oid> = (0..n)
        .map(|i| {
            let mut o = mkid(first, 0x40, 0x40);
            o[byte] = (i * 6 + 1) as u8;
            o
        })
        .collect();
    if around & 1 != 0 && first > 0 {
        ids.push(mkid(first - 1, 0xff, 0xff));
        ids.push(mkid(first - 1, 0x11, 0x11));
    }
    if around & 2 != 0 && first < 255 {
        ids.push(mkid(first + 1, 0, 0));
        ids.push(mkid(first + 1, 0x99, 1));
    }
    ids.sort();
    let (_, p) = pack_of(ids.len());
    let m = ids.len();
    let es: Vec<IdxEntry> = ids
        .iter()
        .enumerate()
        .map(|(i, id)| IdxEntry { id: *id, offset: p.offsets[m - 1 - i], crc: 0, force64: false })
        .collect();
    let set: Vec<(Oid, Vec<u8>)> =
        ids.iter().enumerate().map(|(i, id)| (*id, (m - 1 - i).to_string().into_bytes())).collect();
    let r = Repo::new(ex.fresh_dir());
    r.put_pack_raw("x", &p.bytes, &build_idx(v, &es, p.id));
    ex.state(&(n, first, around, v, byte));
    ex.describe(|| format!("{} ids in bucket {:02x}, idx v{}", n, first, v));
    check_all(ex, &r.db(), &set, &universe(), &|| format!("{} ids in bucket {:02x} idx v{}", n, first, v))
}

/// sparse packs beyond 2 and 4 GiB
fn large_offsets(ex: &Exec) -> Res {
    use std::os::unix::fs::FileExt;
    let offs: &[u64] = &[
        12,
        0x7fff_ff00,
        0x7fff_ffff,
        0x8000_0000,
        0x8000_0001,
        0xffff_ff80,
        0xffff_ffff,
        0x1_0000_0000,
        0x1_0000_0001,
        0x2_3456_7890,
    ];
    let v = 1 + ex.choose(2) as u32;
    let force = v == 2 && ex.flag();
    let k = ex.choose(offs.len() + 1);
    // one offset alone, or all of them
    // every pack has an object right after its header
    let chosen: Vec<u64> = if k == 0 {
        vec![12]
    } else if k < offs.len() {
        vec![12, offs[k]]
    } else {
        offs.to_vec()
    };
    let chosen: Vec<u64> = chosen.into_iter().filter(|o| v == 2 || *o <= u32::MAX as u64).collect();
    let r = Repo::new(ex.fresh_dir());
    std::fs::create_dir_all(r.dotgit.join("objects/pack")).unwrap();
    let f = std::fs::File::create(r.pack_path("x", "pack")).unwrap();
    let mut head = b"PACK".to_vec();
    head.extend_from_slice(&2u32.to_be_bytes());
    head.extend_from_slice(&(chosen.len() as u32).to_be_bytes());
    f.write_all_at(&head, 0).unwrap();
    let mut end = 12u64;
    let mut es = vec![];
    let mut set = vec![];
    for (i, o) in chosen.iter().enumerate() {
        let content = format!("at {:x}", o).into_bytes();
        let mut e = pack_obj_header(3, content.len() as u64);
        e.extend(zlib(&content, 6));
        // entries one byte apart may not overlap: write only those that keep their distance
        if *o < end {
            continue;
        }
        f.write_all_at(&e, *o).unwrap();
        end = o + e.len() as u64;
        let id = mkid((i * 25) as u8, 7, i as u8);
        es.push(IdxEntry { id, offset: *o, crc: 0, force64: force });
        set.push((id, content));
    }
    f.write_all_at(&(es.len() as u32).to_be_bytes(), 8).unwrap();
    let pid = sha1(b"sparse");
    f.write_all_at(&pid, end).unwrap();
    drop(f);
    std::fs::write(r.pack_path("x", "idx"), build_idx(v, &es, pid)).unwrap();
    ex.state(&(v, force, k));
    ex.describe(|| format!("sparse pack with objects at {:x?}, idx v{} force64={}", chosen, v, force));
    check_all(ex, &r.db(), &set, &universe(), &|| format!("offsets {:x?} idx v{}", chosen, v))
}

/// many objects; every id is looked up
fn counts(ex: &Exec) -> Res {
    let n = *ex.pick(if ex.quick() {
        &[0usize, 1, 2, 3, 255, 256, 257, 1000, 66_003, 1_100_000][..]
    } else {
        &[0, 1, 2, 3, 5, 9, 33, 255, 256, 257, 258, 511, 513, 1000, 4097, 65535, 65536, 65537, 66_003, 200_000, 1_100_000, 4_300_000][..]
    });
    let v = 1 + ex.choose(2) as u32;
    let spread = if n < 1_000_000 { ex.choose(3) } else { 0 };
    // a few objects, shared by all ids
    let m = n.min(97);
    let (_, p) = pack_of(m);
    let mut bytes = p.bytes.clone();
    bytes[8..12].copy_from_slice(&(n as u32).to_be_bytes());
    let mut ids: Vec<Oid> = (0..n)
        .map(|i| {
            let mut o = sha1(&(i as u64).to_be_bytes());
            match spread {
                0 => {}
                1 => o[0] = 0x80, // one bucket
                _ => o[0] = if o[0] & 1 == 0 { 0 } else { 0xff },
            }
            o
        })
        .collect();
    ids.sort();
    ids.dedup();
    let es: Vec<IdxEntry> = ids
        .iter()
        .enumerate()
        .map(|(i, id)| IdxEntry { id: *id, offset: p.offsets[i % m], crc: 0, force64: v == 2 && if n < 5000 { i % 3 == 0 } else { i > 0 } })
        .collect();
    let r = Repo::new(ex.fresh_dir());
    r.put_pack_raw("x", &bytes, &build_idx(v, &es, p.id));
    ex.state(&(n, v, spread));
    ex.describe(|| format!("index of {} ids, v{}, spread {}", n, v, spread));
    let db = r.db();
    let ctx = || format!("index of {} ids v{} spread {}", n, v, spread);
    for (i, id) in ids.iter().enumerate() {
        // in the largest, those around powers of two and a few more
        if n > 500_000 && i % 4999 != 0 && i + 5 < n && ![0, 1].contains(&((i + 1) & i.saturating_sub(1))) {
            continue;
        }
        expect(ex, &db, id, Some((i % m).to_string().as_bytes()), &ctx)?;
        let mut x = *id;
        x[19] ^= 1;
        if i % 4 == 0 && ids.binary_search(&x).is_err() {
            expect(ex, &db, &x, None, &ctx)?;
        }
    }
    for u in universe() {
        expect(ex, &db, &u, None, &ctx)?;
    }
    Ok(())
}

/// two packs/one pack with one id for each first byte; ids that differ in exactly one byte position
fn every_byte(ex: &Exec) -> Res {
    let v = 1 + ex.choose(2) as u32;
    let which = ex.choose(21);
    let ids: Vec<Oid> = (0..256usize)
        .map(|b| {
            let mut o = [0x31; 20];
            if which < 20 {
                o[which] = b as u8;
            } else {
                o[0] = b as u8;
                o[1] = 255 - b as u8;
            }
            o
        })
        .collect();
    // half of the ids are in the index
    let half = ex.choose(3);
    let chosen: Vec<Oid> = ids
        .iter()
        .enumerate()
        .filter(|(i, _)| match half {
            0 => true,
            1 => i % 2 == 0,
            _ => i % 2 == 1,
        })
        .map(|(_, o)| *o)
        .collect();
    let (_, p) = pack_of(chosen.len());
    let es: Vec<IdxEntry> = chosen
        .iter()
        .enumerate()
        .map(|(i, id)| IdxEntry { id: *id, offset: p.offsets[i], crc: !0, force64: false })
        .collect();
    let set: Vec<(Oid, Vec<u8>)> =
        chosen.iter().enumerate().map(|(i, id)| (*id, i.to_string().into_bytes())).collect();
    let r = Repo::new(ex.fresh_dir());
    r.put_pack_raw("x", &p.bytes, &build_idx(v, &es, p.id));
    ex.state(&(v, which, half));
    ex.describe(|| format!("ids differing in byte {}, idx v{}, selection {}", which, v, half));
    check_all(ex, &r.db(), &set, &ids, &|| format!("ids differing in byte {} idx v{}", which, v))
}

// ---- R04 ----

fn with(prefix: &[u8], fill: u8, last: u8) -> Oid {
    let mut o = [fill; 20];
    o[19] = last;
    o[..prefix.len()].copy_from_slice(prefix);
    o
}

fn groups() -> Vec<Vec<Oid>> {
    vec![
        // common prefixes of 2, 3 and 19 bytes, continued by zeros
        vec![
            with(&[0xaa, 0xbb], 0, 0),
            with(&[0xaa, 0xbb], 0, 1),
            with(&[0xaa, 0xbb, 0x01], 0, 0),
            with(&[0xaa, 0xbc], 0, 0),
            with(&[0xaa, 0xba], 0xff, 0xff),
            with(&[0xaa, 0xbb, 0, 0x80], 0, 0),
        ],
        // continued by 0xff
        vec![
            with(&[0xff, 0xff], 0xff, 0xff),
            with(&[0xff, 0xff], 0xff, 0xfe),
            with(&[0xff, 0xff, 0xfe], 0xff, 0xff),
            with(&[0xff, 0xfe], 0xff, 0xff),
            with(&[0xfe, 0xff], 0xff, 0xff),
            with(&[0xff, 0xff, 0xff, 0x7f], 0xff, 0xff),
        ],
        // first bytes 00, 01 and one common prefix of each even length
        vec![
            with(&[0, 0], 0, 0),
            with(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 1], 0, 0),
            with(&[0, 0, 0, 0, 0, 0, 0, 1], 0, 0),
            with(&[0, 1], 0, 0),
            with(&[1, 0], 0, 0),
            with(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1], 0, 0),
        ],
    ]
}

pub fn r04(ex: &Exec) -> Res {
    match ex.choose(4) {
        3 => super::scale::crowd(ex),
        0 => order_laws(ex),
        #[cfg(rusty_git_mc)]
        1 => spread(ex),
        #[cfg(rusty_git_mc)]
        2 => clusters(ex),
        #[cfg(not(rusty_git_mc))]
        _ => Ok(()),
        #[cfg(rusty_git_mc)]
        _ => unreachable!(),
    }
}

fn short(p: &[u8]) -> rusty_git::object::ShortId {
    rusty_git::object::ShortId::from_hex(hex(p).as_bytes()).unwrap()
}

/// every abbreviation of every id in the universe against every other id
fn order_laws(ex: &Exec) -> Res {
    use std::cmp::Ordering;
    let mut u: Vec<Oid> = groups().concat();
    u.extend(universe());
    for b in [0u8, 1, 0x7f, 0x80, 0xff] {
        for p in 0..20 {
            let mut o = [0x80u8; 20];
            o[p] = b;
            u.push(o);
        }
    }
    u.sort();
    u.dedup();
    let a = u[ex.choose(u.len())];
    let len = 2 + ex.choose(19);
    let s = short(&a[..len]);
    ex.state(&(a, len));
    ex.describe(|| format!("abbreviation {} against {} ids", s, u.len()));
    for b in &u {
        ex.evals(2);
        let want = if b.starts_with(&a[..len]) {
            if len == 20 {
                Ordering::Equal
            } else {
                Ordering::Less
            }
        } else {
            a[..len].cmp(&b[..len])
        };
        let full = id(b);
        let (x, y) = lib(ex, || (s.cmp_id(&full), full.cmp_short(&s)));
        ensure!(
            x == want && y == want.reverse(),
            "order",
            "abbreviation {} against {}: cmp_id {:?}, cmp_short {:?}, expected {:?}",
            s,
            full,
            x,
            y,
            want
        );
    }
    // binary search by cmp_short lands immediately before the ids it is a prefix of
    let ids: Vec<_> = u.iter().map(id).collect();
    let at = ids.iter().filter(|i| i.cmp_short(&s) == Ordering::Less).count();
    let want = u.iter().filter(|o| &o[..] < &a[..len]).count();
    ensure!(at == want, "order", "abbreviation {} sorts at {}, expected {}", s, at, want);
    Ok(())
}

#[cfg(rusty_git_mc)]
fn judge_short(
    ex: &Exec,
    db: &ObjectDatabase,
    contents: &std::collections::BTreeMap<Oid, Vec<u8>>,
    prefix: &[u8],
    ctx: &dyn Fn() -> String,
) -> Res {
    use std::io::Read;
    ex.evals(1);
    let hits: Vec<&Oid> = contents.keys().filter(|k| k.starts_with(prefix)).collect();
    let s = short(prefix);
    let got = lib(ex, || match db.mc_read_packed(&s) {
        Ok(mut r) => {
            let mut v = vec![];
            match r.reader().read_to_end(&mut v) {
                Ok(_) => Obs::Obj(Kind::Blob, v),
                Err(e) => Obs::Err(e.to_string()),
            }
        }
        Err(e) if e.id() != s => Obs::Err(format!("error names {}", e.id())),
        Err(e) if e.is_not_found() => Obs::NotFound,
        Err(e) if e.is_ambiguous() => Obs::Ambiguous,
        Err(e) => Obs::Err(err_text(&e)),
    });
    let want = match hits.len() {
        0 => Obs::NotFound,
        1 => Obs::Obj(Kind::Blob, framed(Kind::Blob, &contents[hits[0]])),
        _ => Obs::Ambiguous,
    };
    ensure!(
        got == want,
        "short-id",
        "{}: abbreviation {} gives {}, expected {} ({} matches)",
        ctx(),
        hex(prefix),
        got.short(),
        want.short(),
        hits.len()
    );
    Ok(())
}

/// six ids, each in any of several combinations of up to three packs
#[cfg(rusty_git_mc)]
fn spread(ex: &Exec) -> Res {
    let g = ex.choose(3);
    let ids = &groups()[g];
    let n = if ex.quick() { 4 } else { 6 };
    let skip = if ex.quick() { ex.choose(3) } else { 0 };
    let places: &[u8] = &[0, 1, 2, 4, 3, 7];
    let at: Vec<u8> = (0..n).map(|_| *ex.pick(places)).collect();
    let idxv = 1 + ex.choose(2) as u32;
    let mut contents = std::collections::BTreeMap::new();
    let r = Repo::new(ex.fresh_dir());
    for p in 0..3usize {
        let mine: Vec<usize> = (0..n).filter(|i| at[*i] & (1 << p) != 0).collect();
        if mine.is_empty() {
            continue;
        }
        let es: Vec<PackEntry> = mine
            .iter()
            .map(|&i| {
                let c = vec![b'a' + i as u8; 3 + i];
                contents.insert(ids[(i + skip) % 6], c.clone());
                let mut e = PackEntry::whole(Kind::Blob, &c);
                e.id = ids[(i + skip) % 6];
                e
            })
            .collect();
        let pk = build_pack(2, &es);
        let mut idx = idx_for(idxv, &es, &pk);
        // distinct pack ids even if the same objects are in two packs
        let l = idx.len();
        let mut bytes = pk.bytes.clone();
        let bl = bytes.len();
        bytes[bl - 1] = p as u8;
        idx[l - 21] = p as u8;
        r.put_pack_raw(&format!("{}", p), &bytes, &idx);
    }
    ex.state(&(g, skip, &at, idxv));
    ex.describe(|| format!("group {} ids in packs {:?}, idx v{}", g, at, idxv));
    let db = r.db();
    let ctx = || format!("group {} from {} in packs {:?} idx v{}", g, skip, at, idxv);
    for o in ids {
        for len in 2..=20 {
            judge_short(ex, &db, &contents, &o[..len], &ctx)?;
        }
    }
    Ok(())
}

/// k ids with a common prefix of every length at every place of an index, with and without others around
#[cfg(rusty_git_mc)]
fn clusters(ex: &Exec) -> Res {
    let plen = 2 + ex.choose(18);
    let k = 1 + ex.choose(if ex.quick() { 5 } else { 9 });
    let before = *ex.pick(&[0usize, 1, 2, 7]);
    let after = *ex.pick(&[0usize, 1, 2, 7]);
    let fill = *ex.pick(&[0u8, 0x31, 0xff]);
    let idxv = 1 + ex.choose(2) as u32;
    let mut ids = vec![];
    let base = [fill; 20];
    for i in 0..k {
        let mut o = base;
        o[plen..].fill(0x42);
        o[19] = 10 + i as u8;
        ids.push(o);
    }
    for i in 0..before {
        let mut o = [0x10u8; 20];
        o[0] = if fill == 0 { 0 } else { fill - (i % 2) as u8 };
        o[1] = if fill == 0 { 0 } else { fill - 1 };
        o[2] = i as u8;
        ids.push(o);
    }
    for i in 0..after {
        let mut o = [0x10u8; 20];
        o[0] = if fill == 255 { 255 } else { fill + (i % 2) as u8 };
        o[1] = if fill == 255 { 255 } else { fill + 1 };
        o[2] = i as u8;
        ids.push(o);
    }
    ids.sort();
    ids.dedup();
    // a pack may hold an object several times (git reads such packs, and indexes every copy)
    let again = ex.choose(4);
    let times = |i: usize, n: usize| match again {
        0 => 1,
        1 => 2,
        2 => 1 + 2 * (i == 0) as usize,
        _ => 1 + (i + 1 == n) as usize,
    };
    let mut contents = std::collections::BTreeMap::new();
    let es: Vec<PackEntry> = ids
        .iter()
        .enumerate()
        .flat_map(|(i, o)| std::iter::repeat_n((i, o), times(i, ids.len())))
        .map(|(i, o)| {
            let c = format!("object {}", i).into_bytes();
            contents.insert(*o, c.clone());
            let mut e = PackEntry::whole(Kind::Blob, &c);
            e.id = *o;
            e
        })
        .collect();
    let r = Repo::new(ex.fresh_dir());
    r.put_pack(2, idxv, &es);
    ex.state(&(plen, k, before, after, fill, idxv, again));
    ex.describe(|| format!("{} ids with a common prefix of {} bytes, {} before, {} after, idx v{}, repeated {}", k, plen, before, after, idxv, again));
    let db = r.db();
    let ctx = || format!("{} ids sharing {} bytes of {:02x}, {} before, {} after, idx v{}, repeated {}", k, plen, fill, before, after, idxv, again);
    for o in &ids {
        for len in [2, 3, plen - 1, plen, plen + 1, 19, 20] {
            if (2..=20).contains(&len) {
                judge_short(ex, &db, &contents, &o[..len], &ctx)?;
                let mut near = *o;
                near[len - 1] ^= 1;
                judge_short(ex, &db, &contents, &near[..len], &ctx)?;
            }
        }
    }
    Ok(())
}
