//! The same properties where there is much of everything: packs, objects, reads on one handle, links.
//! Every combination of the listed counts and patterns is one execution.
use super::gen::{self, Obj};
use super::util::*;
use crate::ensure;
use crate::explorer::*;
use crate::gitfmt::*;
use crate::interpose::{quiet, with_env, Ans, Env, Op, Plain};
use crate::repo::{self, *};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};

/// A process that may have only so many files open.
struct FewFiles {
    plain: Plain,
    open: RefCell<HashSet<i64>>,
    most: Cell<usize>,
    limit: usize,
}

impl FewFiles {
    fn new(limit: usize) -> Self {
        FewFiles { plain: Plain::new(), open: Default::default(), most: Cell::new(0), limit }
    }
    fn at<T>(&self, ex: &Exec, now: u64, f: impl FnOnce() -> T) -> T {
        ex.step();
        self.plain.calls.set(0);
        self.plain.now.set(now);
        with_env(self, f)
    }
}

impl Env for FewFiles {
    fn call(&self, op: &Op) -> Ans {
        if matches!(op, Op::Open { .. } | Op::Opendir { .. }) && self.open.borrow().len() >= self.limit {
            return Ans::Fail(libc::EMFILE);
        }
        self.plain.call(op)
    }
    fn done(&self, op: &Op, ret: i64) {
        let mut open = self.open.borrow_mut();
        match op {
            Op::Open { .. } if ret >= 0 => drop(open.insert(ret)),
            Op::Close { fd } => drop(open.remove(&(*fd as i64))),
            _ => (),
        }
        self.most.set(self.most.get().max(open.len()));
    }
    fn clock(&self) -> u64 {
        self.plain.clock()
    }
    fn slept(&self, n: u64) {
        self.plain.slept(n)
    }
}

/// The indices 0..n in one of several orders.
fn order(n: usize, how: usize) -> Vec<usize> {
    match how {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        // from both ends
        2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        // in strides
        _ => {
            let s = (n as f64).sqrt() as usize + 1;
            (0..s).flat_map(|a| (a..n).step_by(s)).collect()
        }
    }
}

/// R01: objects spread over many packs, read through one handle.
pub fn packs(ex: &Exec) -> Res {
    let counts: &[usize] = if ex.quick() { &[15, 17, 33, 129, 257] } else { &[15, 16, 17, 31, 32, 33, 63, 65, 127, 128, 129, 255, 256, 257, 400] };
    let n = *ex.pick(counts);
    let how = ex.choose(4);
    // every object in its own pack, or in two neighbouring ones
    let twice = ex.flag();
    let r = Repo::new(ex.fresh_dir());
    let objs: Vec<(Obj, Obj)> = (0..n)
        .map(|i| {
            let k = KINDS[i % 4];
            (gen::obj(k, 60 + i, 7000 + i as u64, false), gen::obj(k, 70 + i, 9000 + i as u64, false))
        })
        .collect();
    for i in 0..n {
        let mut es = vec![];
        for j in [i, (i + 1) % n] {
            let (a, b) = &objs[j];
            es.push(PackEntry::whole(a.kind, &a.content));
            let at = es.len() - 1;
            es.push(PackEntry::delta(b.id, if i % 2 == 0 { Rep::Ofs(at) } else { Rep::Ref(a.id) }, diff(&a.content, &b.content)));
            if !twice {
                break;
            }
        }
        r.put_pack_raw(&format!("{:05}", i * 7919 % 100_000), &build_pack(2, &es).bytes, &idx_for(1 + (i as u32 % 2), &es, &build_pack(2, &es)));
    }
    ex.state(&("packs", n, how, twice));
    ex.describe(|| format!("{} packs, order {}, {}", n, how, if twice { "each object in two" } else { "each object in one" }));
    let db = r.db();
    for round in 0..2 {
        for i in order(n, how) {
            let ctx = || format!("{} packs, order {}, round {}, objects of pack {}", n, how, round, i);
            check_obj(ex, &db, &objs[i].1, &ctx)?;
            check_raw(ex, &db, &objs[i].0, &ctx)?;
            let got = lib(ex, || repo::parse(&db, &sha1(format!("none {}", i).as_bytes())));
            ensure!(got == Obs::NotFound, "missing", "{}: a missing object reads as {}", ctx(), got.short());
        }
    }
    Ok(())
}

/// R05: tens of thousands of reads on one handle.
pub fn long_history(ex: &Exec) -> Res {
    let n = *ex.pick(if ex.quick() { &[300usize, 3000][..] } else { &[300, 3000, 20_000] });
    let stride = *ex.pick(&[1usize, 7, 1013, 0]);
    let chain = *ex.pick(&[1usize, 10, 50]);
    let reads = if ex.quick() { 12_000 } else { 100_000 };
    let dir = ex.scratch.join(format!("r05-long-{}-{}", n, chain));
    let fresh = !dir.exists();
    let r = if fresh { quiet(|| Repo::new(dir)) } else { Repo { dotgit: dir.join(".git"), root: dir } };
    let objs: Vec<Obj> = (0..n).map(|i| gen::obj(KINDS[i / chain % 4], 80 + i % 50, 20_000 + i as u64, false)).collect();
    if fresh {
        // three packs and some loose objects
        let mut packs: [Vec<PackEntry>; 3] = Default::default();
        for (i, o) in objs.iter().enumerate() {
            let p = &mut packs[i / chain % 3];
            if i % chain == 0 {
                p.push(PackEntry::whole(o.kind, &o.content));
            } else {
                let at = p.len() - 1;
                let b = &objs[i - 1];
                p.push(PackEntry::delta(o.id, if i % 3 == 0 { Rep::Ref(b.id) } else { Rep::Ofs(at) }, diff(&b.content, &o.content)));
            }
        }
        for p in &packs {
            r.put_pack(2, 2, p);
        }
        let bad: Vec<PackEntry> = (0..20)
            .map(|i| PackEntry::delta(sha1(format!("bad {}", i).as_bytes()), Rep::Ref(objs[i].id), diff(&objs[i + 1].content, b"x")))
            .collect();
        r.put_pack(2, 2, &bad);
    }
    ex.state(&("long", n, stride, chain));
    ex.describe(|| format!("{} reads of {} objects in chains of {}, stride {}", reads, n, chain, stride));
    let db = r.db();
    let files = FewFiles::new(16);
    let mut at = 0;
    let mut now = 1_000_000_000_000u64;
    let mut stored: Vec<Obj> = vec![];
    let mut res = Ok(());
    for t in 0..reads {
        // stride 0: the position squared
        at = if stride == 0 { t * t % n } else { (at + stride) % n };
        let (what, oid, want) = match t % 16 {
            3 => ("missing", sha1(format!("none {}", t % 997).as_bytes()), Obs::NotFound),
            7 => ("damaged", sha1(format!("bad {}", t % 20).as_bytes()), Obs::Err(String::new())),
            11 if t % 400 < 16 => {
                let o = gen::obj(Kind::Blob, 30 + t % 70, 90_000 + t as u64, false);
                let f = framed(Kind::Blob, &o.content);
                let s = files.at(ex, now, || db.write_object(&f).map_err(|e| err_text(&e)));
                ensure!(s == Ok(id(&o.id)), "store", "after {} reads: store gives {:?}", t, s);
                stored.push(o.clone());
                ("stored", o.id, Obs::Obj(o.kind, o.rendered))
            }
            13 if !stored.is_empty() => {
                let o = &stored[t % stored.len()];
                ("stored before", o.id, Obs::Obj(o.kind, o.rendered.clone()))
            }
            _ => ("good", objs[at].id, Obs::Obj(objs[at].kind, objs[at].rendered.clone())),
        };
        now += if t % 1000 == 999 { 3_000_000_000 } else { 1000 };
        let got = files.at(ex, now, || guarded(|| repo::parse(&db, &oid))).unwrap_or_else(|p| Obs::Err(format!("panic: {}", p)));
        ex.evals(1);
        let ok = match (&got, &want) {
            (Obs::Err(e), Obs::Err(_)) => !e.starts_with("panic"),
            _ => got == want,
        };
        if !ok {
            res = fail(
                "history",
                format!(
                    "after {} reads of {} objects (chains of {}, stride {}) on one handle a {} object reads as {} instead of {}",
                    t,
                    n,
                    chain,
                    stride,
                    what,
                    got.short(),
                    want.short()
                ),
            );
            break;
        }
    }
    for o in &stored {
        let _ = std::fs::remove_file(r.loose_path(&o.id));
    }
    res
}

/// R06: hundreds of rounds of storing and repacking seen by one handle.
pub fn rounds(ex: &Exec) -> Res {
    let rounds = if ex.quick() { 150 } else { 1200 };
    // packs are kept for this many rounds
    let keep = *ex.pick(&[1usize, 2, 40]);
    let pause = *ex.pick(&[0u64, 1_000_000, 1_100_000_000, 5_000_000_000]);
    // which reads come between: all, only new objects, only now and then
    let reads = ex.choose(3);
    // a pack holds everything of the rounds before, or only its own objects until they are gathered
    let everything = ex.flag();
    let bare = ex.flag();
    let dir = ex.fresh_dir();
    let r = if bare { Repo::bare_bones(dir) } else { Repo::new(dir) };
    let db = r.db();
    // the packs there are at any time, and some: however many there were
    let files = FewFiles::new(2 * keep.min(rounds) + 20);
    let mut now = 1_000_000_000_000u64;
    let mut objs: Vec<Obj> = vec![];
    // name and number of the first and last object of each pack
    let mut packs: Vec<(String, usize, usize)> = vec![];
    let ctx = |t: usize, w: &str| format!("round {}: {} (packs kept {}, pause {} ns, reads {}, bare {})", t, w, keep, pause, reads, bare);
    ex.state(&("rounds", keep, pause, reads, everything, bare));
    ex.describe(|| ctx(rounds, "all"));
    let read = |now: u64, o: &Obj, what: &str, t: usize| -> Res {
        let got = files.at(ex, now, || repo::parse(&db, &o.id));
        ex.evals(1);
        ensure!(got == Obs::Obj(o.kind, o.rendered.clone()), "stale", "{}: reads as {}", ctx(t, what), got.short());
        Ok(())
    };
    for t in 0..rounds {
        let o = gen::obj(KINDS[t % 4], 60 + t % 40, 40_000 + t as u64, false);
        r.put_loose(o.kind, &o.content);
        objs.push(o);
        if reads == 0 {
            read(now, &objs[t], "the object just stored", t)?;
        }
        now += pause;
        // packed, and the loose copy pruned
        let from = if everything { t.saturating_sub(60) } else { t };
        let mut es: Vec<PackEntry> = (from..=t).map(|i| PackEntry::whole(objs[i].kind, &objs[i].content)).collect();
        es.push(PackEntry::whole(Kind::Blob, format!("filler {}", t).as_bytes()));
        let p = build_pack(2, &es);
        let name = hex(&p.id);
        r.put_pack_raw(&name, &p.bytes, &idx_for(2, &es, &p));
        packs.push((name, from, t));
        std::fs::remove_file(r.loose_path(&objs[t].id)).unwrap();
        if packs.len() > keep {
            if everything {
                let (n, ..) = packs.remove(0);
                std::fs::remove_file(r.pack_path(&n, "idx")).unwrap();
                std::fs::remove_file(r.pack_path(&n, "pack")).unwrap();
            } else {
                // gather all packs into one
                let (a, b) = (packs[0].1, packs[packs.len() - 1].2);
                let a = a.max(b.saturating_sub(60));
                let es: Vec<PackEntry> = (a..=b).map(|i| PackEntry::whole(objs[i].kind, &objs[i].content)).collect();
                let p = build_pack(2, &es);
                r.put_pack_raw(&format!("all{}", hex(&p.id)), &p.bytes, &idx_for(2, &es, &p));
                for (n, ..) in packs.drain(..) {
                    std::fs::remove_file(r.pack_path(&n, "idx")).unwrap();
                    std::fs::remove_file(r.pack_path(&n, "pack")).unwrap();
                }
                packs.push((format!("all{}", hex(&p.id)), a, b));
            }
        }
        let first = packs[0].1;
        match reads {
            0 | 1 => {
                read(now, &objs[t], "the object just packed", t)?;
                if reads == 0 {
                    read(now, &objs[first], "the oldest packed object", t)?;
                }
            }
            _ if t % 17 == 16 => {
                for i in [t, first, (t + first) / 2] {
                    read(now, &objs[i], "an object", t)?;
                }
            }
            _ => (),
        }
        now += pause;
        if t % 5 == 0 {
            let got = files.at(ex, now, || repo::parse(&db, &sha1(format!("none {}", t).as_bytes())));
            ensure!(got == Obs::NotFound, "missing", "{}: reads as {}", ctx(t, "a missing object"), got.short());
        }
    }
    Ok(())
}

/// R11: a good pack among many that cannot be used.
pub fn broken(ex: &Exec, harm: &dyn Fn(usize, &[u8], &[u8]) -> Option<(String, Option<Vec<u8>>, Option<Vec<u8>>)>) -> Res {
    let n = *ex.pick(if ex.quick() { &[20usize, 150][..] } else { &[20, 33, 150, 400] });
    let g = gen::versions(Kind::Blob, 3, 300, false);
    let loose = gen::obj(Kind::Tag, 150, 3, false);
    let es = vec![
        PackEntry::whole(Kind::Blob, &g[0].content),
        PackEntry::delta(g[1].id, Rep::Ofs(0), diff(&g[0].content, &g[1].content)),
        PackEntry::delta(g[2].id, Rep::Ref(g[1].id), diff(&g[1].content, &g[2].content)),
    ];
    let kinds = (0..).take_while(|k| harm(*k, &noise(1, 400), &noise(1, 4000)).is_some()).count();
    // all of one kind, or all kinds mixed
    let k = ex.choose(kinds + 1);
    // the good pack is put first, in the middle, or last
    let place = ex.choose(3);
    let r = Repo::new(ex.fresh_dir());
    r.put_loose(loose.kind, &loose.content);
    let mut lost = vec![];
    for i in 0..=n {
        if i == place * n / 2 {
            r.put_pack(2, 2, &es);
        }
        let o = gen::versions(Kind::Blob, 2, 200 + i, false);
        let bs = vec![
            PackEntry::whole(Kind::Blob, &o[0].content),
            PackEntry::delta(o[1].id, Rep::Ofs(0), diff(&o[0].content, &o[1].content)),
        ];
        let p = build_pack(2, &bs);
        let (_, pack, idx) = harm(if k == kinds { i % kinds } else { k }, &p.bytes, &idx_for(2, &bs, &p)).unwrap();
        let name = hex(&sha1(&[i as u8, (i >> 8) as u8]));
        if let Some(p) = pack {
            std::fs::write(r.pack_path(&name, "pack"), p).unwrap();
        }
        if let Some(i) = idx {
            std::fs::write(r.pack_path(&name, "idx"), i).unwrap();
        }
        lost.push(o[1].clone());
    }
    ex.state(&("broken", n, k, place));
    ex.describe(|| format!("{} unusable packs of kind {}, place {}", n, k, place));
    let db = r.db();
    let mut now = 1_000_000_000_000u64;
    for t in 0..60 {
        let ctx = || format!("a good pack among {} unusable ones of kind {}, read {}", n, k, t);
        let o = [&g[2], &g[1], &loose, &g[0]][t % 4];
        let got = lib_at(ex, now, || guarded(|| repo::parse(&db, &o.id))).unwrap_or_else(Obs::Err);
        ex.evals(1);
        ensure!(got == Obs::Obj(o.kind, o.rendered.clone()), "undamaged-unreadable", "{}: {} reads as {}", ctx(), hex(&o.id), got.short());
        let l = &lost[t * 13 % lost.len()];
        let got = lib_at(ex, now, || guarded(|| repo::parse(&db, &l.id))).unwrap_or_else(|p| Obs::Obj(Kind::Tag, p.into_bytes()));
        ex.evals(1);
        ensure!(
            matches!(got, Obs::Err(_) | Obs::NotFound) || got == Obs::Obj(l.kind, l.rendered.clone()),
            "forged",
            "{}: {} reads as {}",
            ctx(),
            hex(&l.id),
            got.short()
        );
        now += if t % 7 == 6 { 2_000_000_000 } else { 0 };
    }
    Ok(())
}

/// S01: thousands of different objects stored through one handle.
pub fn stores(ex: &Exec) -> Res {
    let n = if ex.quick() { 3000 } else { 40_000 };
    let how = ex.choose(4);
    let again = ex.flag();
    let r = Repo::new(ex.fresh_dir());
    let db = r.db();
    ex.state(&("stores", how, again));
    ex.describe(|| format!("{} stores, order {}", n, how));
    let obj = |i: usize| framed(KINDS[i % 4], &gen::obj(KINDS[i % 4], i % 300, 70_000 + i as u64, i % 5 == 0).content);
    for i in order(n, how) {
        let f = obj(i);
        for _ in 0..1 + again as usize {
            let s = lib(ex, || db.write_object(&f).map_err(|e| err_text(&e)));
            ex.evals(1);
            ensure!(s == Ok(id(&sha1(&f))), "store", "store {} gives {:?}", i, s);
        }
    }
    let other = r.db();
    for i in 0..n {
        let f = obj(i);
        for (w, d) in [("handle", &db), ("fresh handle", &other)] {
            let got = lib(ex, || repo::raw(d, &sha1(&f)));
            ex.evals(1);
            ensure!(got.as_ref() == Ok(&f), "read", "object {} of {} stored: the {} reads {:?}", i, n, w, got.map(|v| v.len()).map_err(|e| e.short()));
        }
    }
    Ok(())
}

/// R04: thousands of ids with common beginnings; every answer is found by counting.
pub fn crowd(ex: &Exec) -> Res {
    let n = *ex.pick(if ex.quick() { &[255usize, 256, 257, 5000][..] } else { &[255, 256, 257, 5000, 65_535, 65_537, 200_000] });
    let shared = ex.choose(3);
    let packs = 1 + ex.choose(3);
    let v = 1 + ex.choose(2) as u32;
    let mut ids: Vec<Oid> = (0..n)
        .map(|i| {
            let mut o = sha1(&(i as u64).to_be_bytes());
            for k in 0..shared {
                o[k] = 0xab;
            }
            o
        })
        .collect();
    ids.sort();
    ids.dedup();
    let r = Repo::new(ex.fresh_dir());
    for p in 0..packs {
        // the last pack repeats a part of the others
        let es: Vec<PackEntry> = ids
            .iter()
            .enumerate()
            .filter(|(i, _)| i % packs == p || p == packs - 1 && i % 7 == 0)
            .map(|(_, o)| {
                let mut e = PackEntry::whole(Kind::Blob, o);
                e.id = *o;
                e.level(0)
            })
            .collect();
        r.put_pack(2, v, &es);
    }
    ex.state(&("crowd", n, shared, packs, v));
    ex.describe(|| format!("{} ids sharing {} bytes in {} packs, index version {}", n, shared, packs, v));
    let db = r.db();
    let mut count: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    for o in &ids {
        for l in 2..=5 {
            *count.entry(o[..l].to_vec()).or_default() += 1;
        }
    }
    let step = (n / 800).max(1);
    for (i, o) in ids.iter().enumerate() {
        if i % step != 0 && i + 2 < n && i > 2 {
            continue;
        }
        let mut asked: Vec<Vec<u8>> = [2, 3, 4, 5, 20].iter().map(|l| o[..*l].to_vec()).collect();
        for d in [1, 0xff] {
            let mut x = o[..3].to_vec();
            x[2] = x[2].wrapping_add(d);
            asked.push(x);
            let mut x = o[..2].to_vec();
            x[1] = x[1].wrapping_add(d);
            asked.push(x);
        }
        for a in asked {
            let Some(got) = lib(ex, || repo::abbreviated(&db, &a)) else { return Ok(()) };
            ex.evals(1);
            let c = if a.len() == 20 { 1 } else { count.get(&a).copied().unwrap_or(0) };
            let ok = match (&got, c) {
                (Err(Obs::NotFound), 0) => true,
                (Ok(b), 1) => ids.binary_search_by(|x| x[..a.len()].cmp(&a)).is_ok_and(|k| *b == framed(Kind::Blob, &ids[k])),
                (Err(Obs::Ambiguous), c) => c > 1,
                _ => false,
            };
            ensure!(
                ok,
                "short-id",
                "{} ids sharing {} bytes in {} packs (index version {}): abbreviation {} of {} ids gives {:?}",
                n,
                shared,
                packs,
                v,
                hex(&a),
                c,
                got.map(|b| hex(&b)).map_err(|e| e.short())
            );
        }
    }
    Ok(())
}
