#![allow(invalid_runtime_symbol_definitions, clippy::missing_safety_doc)]
mod alloc;
mod checks;
#[macro_use]
mod explorer;
mod gitfmt;
mod interpose;
mod procs;
mod repo;
mod sched;

use explorer::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Alloc = alloc::Alloc;

const WORKERS: usize = 8;
/// The longest an execution may take without an answer (the thorough tier reads objects of gigabytes).
fn hang() -> Duration {
    Duration::from_secs(if tier() == Tier::Thorough { 240 } else { 45 })
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

struct Shm {
    p: *mut u8,
    len: usize,
}
impl Shm {
    fn open(path: &Path) -> Shm {
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .unwrap();
        let len = SLOT_SIZE * WORKERS;
        f.set_len(len as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shm { p: p as *mut u8, len }
    }
    fn bytes(&self) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(self.p, self.len).to_vec() }
    }
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn known_sigs(prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(verif().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("KNOWN-FINDING: property={} sig=", prop)) {
                let (sig, what) = r.split_once(' ').unwrap_or((r, ""));
                v.push((sig.to_string(), what.to_string()));
            }
        }
    }
    v
}

fn choices_json(c: &[Choice]) -> serde_json::Value {
    serde_json::json!(c.iter().map(|(a, b)| vec![*a, *b]).collect::<Vec<_>>())
}
fn choices_from(v: &serde_json::Value) -> Vec<Choice> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|p| (p[0].as_u64().unwrap() as u16, p[1].as_u64().unwrap() as u16))
                .collect()
        })
        .unwrap_or_default()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match &a[1..] {
        ["run", id] => std::process::exit(parent(id)),
        ["worker", id, scratch] => worker(id, Path::new(scratch)),
        ["one", id, scratch, choices] => one(id, Path::new(scratch), Path::new(choices)),
        ["proc", dotgit, objs, pid, acts @ ..] => procs::main(Path::new(dotgit), Path::new(objs), pid, acts),
        ["replay", file] => std::process::exit(replay(Path::new(file))),
        ["list"] => {
            for c in checks::all() {
                println!("{}", c.id);
            }
        }
        _ => {
            eprintln!("usage: mc run ID | replay FILE | list");
            std::process::exit(2)
        }
    }
}

fn find(id: &str) -> &'static checks::Check {
    match checks::all().iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

fn limits() {
    unsafe {
        let r = libc::rlimit {
            rlim_cur: 20 << 30,
            rlim_max: 20 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
        let r = libc::rlimit { rlim_cur: 4096, rlim_max: 4096 };
        libc::setrlimit(libc::RLIMIT_NOFILE, &r);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn wall(c: &checks::Check, t: Tier) -> Duration {
    if let Ok(s) = std::env::var("MC_WALL") {
        return Duration::from_secs(s.parse().unwrap());
    }
    match t {
        Tier::Quick => Duration::from_secs(240),
        Tier::Thorough => Duration::from_secs(c.thorough_s),
    }
}

fn worker(id: &str, scratch: &Path) {
    limits();
    let c = find(id);
    install_panic_hook();
    interpose::install();
    checks::warm_up();
    let shm = Shm::open(&scratch.join("slots"));
    let t = tier();
    let cfg = Config {
        tier: t,
        workers: WORKERS,
        wall: wall(c, t),
        scratch: scratch.to_path_buf(),
        slots: shm.p,
        known: known_sigs(id).into_iter().map(|k| k.0).collect(),
    };
    let r = explore(&cfg, &c.body);
    let v = serde_json::json!({
        "executions": r.executions, "evaluations": r.evaluations, "transitions": r.transitions,
        "states": r.states, "outcomes": r.outcomes, "nodes": r.nodes, "max_depth": r.max_depth,
        "pruned": r.pruned, "divergences": r.divergences, "replays": r.replays,
        "replay_mismatches": r.replay_mismatches, "exhaustive": r.exhaustive,
        "frontier_left": r.frontier_left, "samples": r.samples, "counters": r.counters,
        "known": r.known.iter().map(|(k, (n, m))| (k.clone(), serde_json::json!([n, m]))).collect::<BTreeMap<_, _>>(),
        "wall_s": r.wall_s,
        "violation": r.violation.as_ref().map(|(v, ch, before)| serde_json::json!({
            "sig": v.sig, "msg": v.msg, "choices": choices_json(ch),
            "before": before.iter().map(|c| choices_json(c)).collect::<Vec<_>>(),
        })),
    });
    std::fs::write(scratch.join("report.json"), v.to_string()).unwrap();
    // controlled threads of a stopped execution may still be parked
    unsafe { libc::_exit(0) }
}

/// Runs choice sequences one after another; exit 0 = held, 1 = violated (message in one.json), other = crashed.
fn one(id: &str, scratch: &Path, choices: &Path) {
    limits();
    let c = find(id);
    install_panic_hook();
    interpose::install();
    checks::warm_up();
    let shm = Shm::open(&scratch.join("slots"));
    set_my_slot(shm.p);
    let seqs: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(choices).unwrap()).unwrap();
    let seqs: Vec<Vec<Choice>> = seqs.as_array().unwrap().iter().map(choices_from).collect();
    let sc = scratch.join("one").join(dashmap::mc::ROOT);
    std::fs::create_dir_all(&sc).unwrap();
    let h = {
        let sc = sc.clone();
        let body = &c.body;
        let p = shm.p as usize;
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(s, move || {
                    set_my_slot(p as *mut u8);
                    let mut end = (0, serde_json::json!({}));
                    for ch in seqs {
                        let out = run_once(body, tier(), &sc, 0, ch, Some(p as *mut u8), true);
                        end = match out.end {
                            RunEnd::Done(Err(v)) => (1, serde_json::json!({"sig": v.sig, "msg": v.msg, "desc": out.desc})),
                            RunEnd::Done(Ok(())) => (0, serde_json::json!({"desc": out.desc})),
                            RunEnd::Pruned => (0, serde_json::json!({"pruned": true})),
                            RunEnd::Diverged => (3, serde_json::json!({"diverged": true})),
                        };
                        if end.0 == 1 {
                            break;
                        }
                    }
                    let (code, v) = end;
                    std::fs::write(sc.join("one.json"), v.to_string()).unwrap();
                    unsafe { libc::_exit(code) }
                })
                .unwrap()
                .join()
                .ok()
        })
    };
    let _ = h;
    unsafe { libc::_exit(3) }
}

fn spawn_self(args: &[&std::ffi::OsStr]) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .spawn()
        .unwrap()
}

/// Waits for the process as long as it makes progress.
fn wait_limit(ch: &mut Child, d: Duration, shm: &Shm) -> Option<ExitStatus> {
    let mut t = Instant::now();
    let mut last = 0;
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            return Some(s);
        }
        let now = read_slot(&shm.bytes()[..SLOT_SIZE]).1;
        if now != last {
            last = now;
            t = Instant::now();
        }
        if t.elapsed() > d {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

enum OneEnd {
    Held(serde_json::Value),
    Violated(Violation),
    Error(String),
}

fn run_one(id: &str, scratch: &Path, choices: &[Choice]) -> OneEnd {
    run_many(id, scratch, &serde_json::json!([choices_json(choices)]))
}

/// Runs choice sequences in one new process; the first violation counts.
fn run_many(id: &str, scratch: &Path, seqs: &serde_json::Value) -> OneEnd {
    let cf = scratch.join("choices.json");
    std::fs::write(&cf, seqs.to_string()).unwrap();
    let sc = scratch.join("rerun");
    let _ = std::fs::remove_dir_all(&sc);
    std::fs::create_dir_all(&sc).unwrap();
    let mut ch = spawn_self(&["one".as_ref(), id.as_ref(), sc.as_os_str(), cf.as_os_str()]);
    let shm = Shm::open(&sc.join("slots"));
    let st = wait_limit(&mut ch, hang(), &shm);
    let (_, _, _, msg) = read_slot(&shm.bytes()[..SLOT_SIZE]);
    let json = || -> serde_json::Value {
        std::fs::read_to_string(sc.join("one").join(dashmap::mc::ROOT).join("one.json"))
            .ok()
            .and_then(|s| serde_json::from_str(&s).ok())
            .unwrap_or_default()
    };
    match st {
        None => OneEnd::Violated(Violation {
            sig: "hang".into(),
            msg: format!("one execution made no progress for {} s", hang().as_secs()),
        }),
        Some(s) => match s.code() {
            Some(0) => OneEnd::Held(json()),
            Some(1) => {
                let j = json();
                OneEnd::Violated(Violation {
                    sig: j["sig"].as_str().unwrap_or("?").into(),
                    msg: j["msg"].as_str().unwrap_or("?").into(),
                })
            }
            Some(97) => OneEnd::Violated(Violation { sig: "fatal".into(), msg }),
            Some(c) => OneEnd::Error(format!("re-run ended with exit code {}", c)),
            None => {
                use std::os::unix::process::ExitStatusExt;
                let sig = s.signal().unwrap_or(0);
                if sig == libc::SIGKILL {
                    OneEnd::Error("re-run was killed".into())
                } else {
                    OneEnd::Violated(Violation {
                        sig: "crash".into(),
                        msg: format!("the process died with signal {} (abort, stack overflow or refused allocation)", sig),
                    })
                }
            }
        },
    }
}

fn make_scratch() -> PathBuf {
    let base = ["/dev/shm", "/tmp"]
        .iter()
        .map(PathBuf::from)
        .find(|p| {
            let t = p.join(format!("mc-probe.{}", std::process::id()));
            let ok = std::fs::write(&t, vec![0u8; 1 << 20]).is_ok();
            let _ = std::fs::remove_file(&t);
            ok
        })
        .expect("scratch space");
    let d = base.join(format!("mc.{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Found {
    v: Violation,
    choices: Vec<Choice>,
    before: serde_json::Value,
}

enum Explored {
    Report(serde_json::Value, Option<Found>),
    /// The process died or hung, and no single execution reproduces that.
    Failed(&'static str, String),
}

/// One exploration in a process of its own.
fn explore_once(id: &str, sc: &Path) -> Explored {
    let _ = std::fs::remove_dir_all(sc);
    std::fs::create_dir_all(sc).unwrap();
    let shm = Shm::open(&sc.join("slots"));
    let mut child = spawn_self(&["worker".as_ref(), id.as_ref(), sc.as_os_str()]);
    let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); WORKERS];
    let mut suspects: Vec<Vec<Choice>> = vec![];
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        let b = shm.bytes();
        for w in 0..WORKERS {
            let (active, n, ch, _) = read_slot(&b[w * SLOT_SIZE..(w + 1) * SLOT_SIZE]);
            if !active || n != last[w].0 {
                last[w] = (n, Instant::now());
            } else if last[w].1.elapsed() > hang() {
                suspects.push(ch);
            }
        }
        if !suspects.is_empty() {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let mut failed = ("hang", format!("an execution made no progress for {} s", hang().as_secs()));
    if let Some(s) = status {
        if s.success() {
            let r: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(sc.join("report.json")).unwrap()).unwrap();
            let v = r.get("violation").filter(|v| !v.is_null()).map(|v| Found {
                v: Violation {
                    sig: v["sig"].as_str().unwrap().into(),
                    msg: v["msg"].as_str().unwrap().into(),
                },
                choices: choices_from(&v["choices"]),
                before: v["before"].clone(),
            });
            return Explored::Report(r, v);
        }
        use std::os::unix::process::ExitStatusExt;
        eprintln!("worker ended with {:?}", s);
        failed = match s.signal() {
            Some(libc::SIGKILL) => ("killed", "the exploring process was killed".into()),
            Some(n) => ("crash", format!("the exploring process died with signal {}", n)),
            None => ("fatal", format!("the exploring process ended with {:?}", s.code())),
        };
        let b = shm.bytes();
        for w in 0..WORKERS {
            let (active, _, ch, msg) = read_slot(&b[w * SLOT_SIZE..(w + 1) * SLOT_SIZE]);
            if active {
                suspects.push(ch);
            }
            if !msg.is_empty() && failed.0 == "fatal" {
                failed.1 = msg;
            }
        }
    }
    // find the execution that crashed or hung
    for ch in suspects {
        if let OneEnd::Violated(v) = run_one(id, sc, &ch) {
            let before = serde_json::json!([]);
            return Explored::Report(serde_json::json!({}), Some(Found { v, choices: ch, before }));
        }
    }
    Explored::Failed(failed.0, failed.1)
}

/// Executions that show the violation in a new process, or `None`.
fn confirm(id: &str, sc: &Path, f: &Found) -> Option<(Violation, serde_json::Value)> {
    let this = choices_json(&f.choices);
    let alone = serde_json::json!([this]);
    // something that survives from one execution to the next may be needed as well
    let repeated = serde_json::Value::from(vec![this.clone(); 40]);
    let mut history = f.before.as_array().cloned().unwrap_or_default();
    history.push(this);
    let history = serde_json::Value::from(history);
    for (n, seqs) in [(8, alone), (4, repeated), (4, history)] {
        for _ in 0..n {
            match run_many(id, sc, &seqs) {
                OneEnd::Violated(v) => return Some((v, seqs)),
                OneEnd::Held(_) => {}
                OneEnd::Error(e) => eprintln!("re-run: {}", e),
            }
        }
    }
    None
}

fn parent(id: &str) -> i32 {
    let c = find(id);
    let start = Instant::now();
    let t = tier();
    let scratch = Scratch(make_scratch());
    let sc = scratch.0.as_path();
    let known = known_sigs(id);
    let mut unconfirmed = 0;
    let mut attempts = 0;
    let mut violations = 0;
    let mut verdict = None;
    let report = loop {
        attempts += 1;
        let (report, found) = match explore_once(id, sc) {
            Explored::Report(r, None) if unconfirmed == 0 || attempts >= 3 => break r,
            Explored::Report(r, found) => (r, found),
            Explored::Failed("killed", msg) => {
                eprintln!("{}: {}", id, msg);
                if attempts >= 2 {
                    return 2;
                }
                continue;
            }
            Explored::Failed(sig, msg) => {
                let v = Violation { sig: sig.into(), msg };
                (serde_json::json!({}), Some(Found { v, choices: vec![], before: serde_json::json!([]) }))
            }
        };
        let f = match found {
            Some(f) => f,
            None => continue,
        };
        let confirmed = if f.choices.is_empty() { None } else { confirm(id, sc, &f) };
        let (v2, seqs) = match confirmed {
            Some(c) => c,
            None => {
                eprintln!("{}: a violation did not reproduce on its own: {} ({})", id, f.v.msg, f.v.sig);
                unconfirmed += 1;
                // seen by two explorations in processes of their own
                if unconfirmed < 2 {
                    if attempts >= 3 {
                        break report;
                    }
                    continue;
                }
                (f.v.clone(), serde_json::Value::Null)
            }
        };
        violations = 1;
        let dir = verif().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.replay.json", id));
        let j = serde_json::json!({
            "property": id,
            "tier": if t == Tier::Quick { "quick" } else { "thorough" },
            "sig": v2.sig, "message": v2.msg, "first_message": f.v.msg,
            "executions": seqs,
            "how": format!("{} replay {}", verif().join("check.sh").display(), path.display()),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        if known.iter().all(|k| k.0 != v2.sig) {
            verdict = Some((v2, path));
        }
        break report;
    };

    let wall = start.elapsed().as_secs_f64();
    let g = |k: &str| report[k].as_u64().unwrap_or(0);
    let ev = serde_json::json!({
        "property": id,
        "tier": if t == Tier::Quick { "quick" } else { "thorough" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": g("states"),
            "transitions": g("transitions"),
            "traces_validated_against_impl": g("executions"),
            "evaluations": g("evaluations"),
            "choice_tree_nodes": g("nodes"),
            "max_choices_in_one_execution": g("max_depth"),
            "distinct_outcomes": g("outcomes"),
            "determinism_replays": g("replays"),
            "determinism_mismatches": g("replay_mismatches"),
            "pruned": g("pruned"),
            "divergences": g("divergences"),
            "exhaustive": report["exhaustive"].as_bool().unwrap_or(false),
            "unexplored_prefixes": g("frontier_left"),
            "details": report["counters"],
            "samples": report["samples"],
            "bounds": c.bounds,
            "rule": "every execution is one choice sequence, run on the real library code; states are distinct hashed configurations/histories of the reference model, transitions are library operations executed and judged, evaluations are single comparisons with the reference",
        },
        "assumptions": c.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();

    let mut out = std::io::stdout();
    for (sig, what) in &known {
        let _ = writeln!(out, "KNOWN-FINDING: property={} {} ({})", id, what, sig);
    }
    if let Some((v, path)) = verdict {
        let _ = writeln!(out, "{}: {}", v.sig, v.msg);
        let _ = writeln!(out, "VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    if g("divergences") > 0 || g("replay_mismatches") > 0 {
        // state of the process that one execution leaves behind for the next
        let _ = writeln!(
            out,
            "{}: not every execution could be repeated: {} divergences, {} replay mismatches",
            id,
            g("divergences"),
            g("replay_mismatches")
        );
    }
    let _ = writeln!(
        out,
        "{}: held; executions={} evaluations={} states={} transitions={} outcomes={} exhaustive={} {:.1}s",
        id,
        g("executions"),
        g("evaluations"),
        g("states"),
        g("transitions"),
        g("outcomes"),
        report["exhaustive"],
        wall
    );
    0
}

fn replay(file: &Path) -> i32 {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let id = j["property"].as_str().unwrap().to_string();
    find(&id);
    if j["tier"] == "thorough" {
        std::env::set_var("VERIF_TIER", "thorough");
    } else {
        std::env::set_var("VERIF_TIER", "quick");
    }
    let scratch = Scratch(make_scratch());
    if j["executions"].is_null() {
        // it takes a whole exploration
        return parent(&id);
    }
    match run_many(&id, &scratch.0, &j["executions"]) {
        OneEnd::Held(v) => {
            println!("held: {}", v);
            0
        }
        OneEnd::Violated(v) => {
            println!("{}: {}", v.sig, v.msg);
            println!("VIOLATION property={} replay={}", id, file.display());
            1
        }
        OneEnd::Error(e) => {
            println!("{}", e);
            2
        }
    }
}
