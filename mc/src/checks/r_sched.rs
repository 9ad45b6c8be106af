//! R07: concurrent reads through one handle, under every schedule within the preemption bound.
use super::gen::{self, Obj};
use crate::explorer::*;
use crate::gitfmt::*;
use crate::interpose::quiet;
use crate::repo::{self, *};
use crate::sched;
use std::sync::Arc;

struct World {
    repo: Repo,
    objs: Vec<(&'static str, Obj, bool)>,
    /// these are looked up by an abbreviated id
    short: Vec<bool>,
}

fn world(ex: &Exec) -> World {
    let dir = ex.scratch.join("r07");
    let fresh = !dir.exists();
    let r = if fresh { Repo::new(dir) } else { Repo { dotgit: dir.join(".git"), root: dir } };
    let vs = gen::versions(Kind::Blob, 4, 300, false);
    // larger than the file buffer, so that reading it takes several calls
    let big = gen::obj(Kind::Blob, 20000, 71, true);
    let other = gen::obj(Kind::Commit, 260, 72, false);
    let loose = gen::obj(Kind::Tag, 200, 73, false);
    let missing = gen::obj(Kind::Blob, 20, 74, false);
    if fresh {
        r.put_pack(
            2,
            2,
            &[
                PackEntry::whole(Kind::Blob, &vs[0].content),
                PackEntry::delta(vs[1].id, Rep::Ofs(0), diff(&vs[0].content, &vs[1].content)),
                PackEntry::whole(Kind::Blob, &big.content).level(0),
                PackEntry::delta(vs[2].id, Rep::Ref(vs[1].id), diff(&vs[1].content, &vs[2].content)),
                PackEntry::delta(vs[3].id, Rep::Ofs(0), diff(&vs[0].content, &vs[3].content)),
            ],
        );
        r.put_pack(
            2,
            1,
            &[
                PackEntry::whole(Kind::Commit, &other.content),
                PackEntry::whole(Kind::Blob, &vs[0].content),
            ],
        );
        r.put_loose(loose.kind, &loose.content);
    }
    let mut objs: Vec<(&'static str, Obj, bool)> = vec![];
    for (n, o) in ["base", "d1", "d2", "d3"].iter().zip(vs) {
        objs.push((n, o, true));
    }
    objs.push(("big", big, true));
    objs.push(("other", other, true));
    objs.push(("loose", loose, true));
    objs.push(("missing", missing, false));
    let mut short = vec![false; objs.len()];
    if repo::abbreviated(&r.db(), &[0; 3]).is_some() {
        objs.push(("d2 abbreviated", objs[2].1.clone(), true));
        objs.push(("other abbreviated", objs[5].1.clone(), true));
        short.extend([true; 2]);
    }
    World { repo: r, objs, short }
}

fn read(db: &rusty_git::object::ObjectDatabase, o: &Obj, short: bool) -> Obs {
    if !short {
        return repo::parse(db, &o.id);
    }
    match repo::abbreviated(db, &o.id[..3]).unwrap() {
        Ok(v) if v == framed(o.kind, &o.content) => Obs::Obj(o.kind, o.rendered.clone()),
        Ok(v) => Obs::Err(format!("another stream, of {} bytes", v.len())),
        Err(e) => e,
    }
}

pub fn r07(ex: &Exec) -> Res {
    // only read, never changed: the same for every execution of a worker
    thread_local!(static WORLD: std::cell::RefCell<Option<(std::path::PathBuf, std::rc::Rc<World>)>> = const { std::cell::RefCell::new(None) });
    let w = quiet(|| {
        WORLD.with(|c| {
            let mut c = c.borrow_mut();
            match &*c {
                Some((at, w)) if *at == *ex.scratch => w.clone(),
                _ => {
                    let w = std::rc::Rc::new(world(ex));
                    *c = Some((ex.scratch.to_path_buf(), w.clone()));
                    w
                }
            }
        })
    });
    let n = w.objs.len();
    // thread programs: one read each, or two for the first thread
    let shape = ex.choose(if ex.quick() { 3 } else { 4 });
    let deep = shape == 2;
    let collide = !deep && ex.flag();
    let warm = if deep { 1 + ex.choose(if ex.quick() { 1 } else { 2 }) } else { ex.choose(3) };
    let mut progs: Vec<Vec<usize>> = vec![];
    let preempt;
    let mut points: fn(&crate::interpose::Op) -> bool = sched::all_points;
    match shape {
        0 => {
            let a = ex.choose(n);
            let b = a + ex.choose(n - a);
            progs.push(vec![a]);
            progs.push(vec![b]);
            preempt = if ex.quick() { 2 } else { 3 };
        }
        1 => {
            // overlapping pairs in opposite orders
            let (a, b) = *ex.pick(&[(0usize, 2usize), (1, 2), (2, 3), (4, 2), (2, 5), (7, 2), (6, 2)]);
            progs.push(vec![a, b]);
            progs.push(vec![b, a]);
            preempt = if ex.quick() { 1 } else { 2 };
        }
        2 => {
            // A failed read is tried again before it is reported, so that two failures have to
            // coincide to be seen: deeper, with switches only where the file position moves.
            let all = [[1usize, 3, 4], [1, 2, 3], [3, 1, 4], [2, 3, 1]];
            let t = *ex.pick(if ex.quick() { &all[..2] } else { &all[..] });
            for x in t {
                progs.push(vec![x]);
            }
            preempt = if ex.quick() { 2 } else { 3 };
            points = sched::seek_points;
        }
        _ => {
            let t = *ex.pick(&[[2usize, 2, 2], [2, 1, 0], [2, 3, 1], [2, 4, 5], [7, 2, 6], [3, 3, 2]]);
            for x in t {
                progs.push(vec![x]);
            }
            preempt = 2;
        }
    }
    let preempt = if warm == 0 && !ex.quick() { preempt.min(2) } else { preempt };
    dashmap::mc::set_collide(collide);
    let db = Arc::new(w.repo.db());
    match warm {
        0 => {}
        1 => {
            // packs are open, nothing is cached
            let _ = super::util::lib(ex, || repo::parse(&db, &sha1(b"none")));
        }
        _ => {
            // the base is cached
            let _ = super::util::lib(ex, || repo::parse(&db, &w.objs[0].1.id));
        }
    }
    let names: Vec<Vec<&str>> = progs.iter().map(|p| p.iter().map(|&i| w.objs[i].0).collect()).collect();
    let bodies: Vec<Box<dyn FnOnce() -> Vec<Obs> + Send>> = progs
        .iter()
        .map(|p| {
            let db = db.clone();
            let ids: Vec<(Obj, bool)> = p.iter().map(|&i| (w.objs[i].1.clone(), w.short[i])).collect();
            Box::new(move || ids.iter().map(|(o, short)| read(&db, o, *short)).collect()) as Box<dyn FnOnce() -> Vec<Obs> + Send>
        })
        .collect();
    let out = sched::run(ex, preempt, points, bodies);
    dashmap::mc::set_collide(false);
    let out = match out {
        Ok(o) => o,
        Err(v) => return fail(v.sig, format!("threads reading {:?}, warm {} collide {}: {}", names, warm, collide, v.msg)),
    };
    let ctx = || format!("threads reading {:?}, warm {} collide {}, {} switches", names, warm, collide, out.switches);
    ex.count("scheduling points", out.steps);
    ex.count("context switches", out.switches);
    let check = |i: usize, got: &Obs| -> Res {
        ex.step();
        ex.evals(1);
        let (name, o, exists) = &w.objs[i];
        let want = if *exists { Obs::Obj(o.kind, o.rendered.clone()) } else { Obs::NotFound };
        if *got == want {
            Ok(())
        } else {
            fail("concurrent-read", format!("{}: {} reads as {}, expected {}", ctx(), name, got.short(), want.short()))
        }
    };
    for (p, r) in progs.iter().zip(&out.results) {
        match r {
            Err(m) => return fail("panic", format!("{}: a thread panicked: {}", ctx(), m)),
            Ok(v) => {
                for (i, g) in p.iter().zip(v) {
                    check(*i, g)?;
                }
            }
        }
    }
    // what the threads left behind serves later reads
    for (i, _) in w.objs.iter().enumerate() {
        let g = super::util::lib(ex, || read(&db, &w.objs[i].1, w.short[i]));
        check(i, &g)?;
    }
    ex.state(&(&names, warm, collide, &out.trace));
    ex.describe(|| format!("{}: schedule {:?}", ctx(), out.trace.iter().map(|t| t.0).collect::<Vec<_>>()));
    Ok(())
}
