//! F01 (reference files), F02 (listing), F03 (peeling), F04 (containment).
use super::util::*;
use crate::ensure;
use crate::explorer::*;
use crate::gitfmt::*;
use crate::interpose::{with_env, Ans, Env, Op};
use crate::repo::{self, Repo};
use rusty_git::object::Object;
use rusty_git::reference::{Direct, Error, Reference, ReferenceDatabase, ReferenceTarget, Symbolic};
use rusty_git::repository::Repository;
use std::cell::{Cell, RefCell};
use std::io::Read;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(300).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if b.len() > 300 {
        format!("\"{}...\" ({} bytes)", s, b.len())
    } else {
        format!("\"{}\"", s)
    }
}

fn os(b: &[u8]) -> &Path {
    Path::new(std::ffi::OsStr::from_bytes(b))
}

fn hexid(c: u8) -> Vec<u8> {
    hex(&sha1(&[c])).into_bytes()
}

fn err(e: &Error) -> String {
    repo::err_text(e)
}

/// Reads a reference in every way there is and prints everything; returns how much was printed.
pub fn poke(dotgit: &Path, name: &[u8]) -> usize {
    let rdb = ReferenceDatabase::open(dotgit);
    let mut n = 0;
    let mut note = |s: String| n += s.len();
    let repo = Repository::open(dotgit.parent().unwrap());
    let mut bytes = vec![];
    match rdb.read_reference_file(name) {
        Ok(mut f) => note(format!("{:?}", f.read_to_end(&mut bytes))),
        Err(e) => note(format!("{} {:?} {}", e, e, err(&e))),
    }
    for r in [
        rdb.reference(name),
        rdb.parse_reference(name),
        Reference::from_bytes(&bytes),
        Reference::from_reader(&bytes[..]),
    ] {
        match r {
            Ok(r) => {
                note(format!("{:?} {:#?} {:?}", r, r, r.name()));
                if let ReferenceTarget::Symbolic(s) = r.target() {
                    note(format!("{:?} {}", s, s.data()));
                }
                if let Ok(repo) = &repo {
                    match r.peel(repo) {
                        Ok(o) => note(format!("{:?} {:?}", o, o.id())),
                        Err(e) => note(format!("{} {:?} {}", e, e, err(&e))),
                    }
                }
            }
            Err(e) => note(format!("{} {:?} {}", e, e, err(&e))),
        }
    }
    note(format!("{:?}", rdb.reference_names().map_err(|e| err(&e))));
    n
}

// ---- F01 ----

#[derive(Clone, Debug)]
enum Want {
    Direct(Vec<u8>),
    Sym(Vec<u8>),
    Peeled(Vec<u8>, Vec<u8>),
    Bad,
}

struct OneByte<'a>(&'a [u8]);
impl Read for OneByte<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(b.len()).min(1);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn judge(how: &str, file: &[u8], got: Result<Reference, Error>, want: &Want) -> Res {
    match (got, want) {
        (Err(_), Want::Bad) => Ok(()),
        (Ok(r), Want::Bad) => fail("accepts-malformed", format!("{} of {} gives {:?}", how, show(file), r)),
        (Err(e), w) => fail("rejects", format!("{} of {} fails ({}), expected {:?}", how, show(file), err(&e), w)),
        (Ok(r), w) => {
            let t = match w {
                Want::Direct(id) => ReferenceTarget::Direct(Direct::from_bytes(id).unwrap()),
                Want::Sym(n) => ReferenceTarget::Symbolic(Symbolic::from_bytes(n, None).unwrap()),
                Want::Peeled(id, n) => ReferenceTarget::Symbolic(Symbolic::from_bytes(n, Some(id)).unwrap()),
                Want::Bad => unreachable!(),
            };
            ensure!(*r.target() == t, "wrong-target", "{} of {} gives {:?}, expected {:?}", how, show(file), r, w);
            let name = match w {
                Want::Sym(n) | Want::Peeled(_, n) => {
                    if let ReferenceTarget::Symbolic(s) = r.target() {
                        ensure!(&s.data()[..] == &n[..], "wrong-name", "{} of {}: data {:?}", how, show(file), s.data());
                    }
                    std::str::from_utf8(n).ok()
                }
                _ => None,
            };
            ensure!(r.name() == name, "wrong-name", "{} of {}: name {:?}", how, show(file), r.name());
            Ok(())
        }
    }
}

struct RefBench<'a, 'b> {
    ex: &'a Exec<'b>,
    r: Repo,
    rdb: ReferenceDatabase,
    n: Cell<u32>,
}

impl<'a, 'b> RefBench<'a, 'b> {
    fn new(ex: &'a Exec<'b>) -> Self {
        let r = Repo::new(ex.fresh_dir());
        let rdb = ReferenceDatabase::open(&r.dotgit);
        RefBench { ex, r, rdb, n: Cell::new(0) }
    }
    fn case(&self, file: &[u8], want: &Want) -> Res {
        self.ex.state(file);
        self.ex.evals(1);
        self.ex.outcome(&std::mem::discriminant(want));
        let n = self.n.get();
        self.n.set(n + 1);
        judge("from_bytes", file, lib(self.ex, || Reference::from_bytes(file)), want)?;
        if file.len() < 4000 {
            judge("from_reader", file, lib(self.ex, || Reference::from_reader(OneByte(file))), want)?;
        }
        let head = n % 2 == 0;
        let name: &[u8] = if head { b"HEAD" } else { b"refs/heads/x" };
        std::fs::write(self.r.dotgit.join(os(name)), file).unwrap();
        judge("reference", file, lib(self.ex, || self.rdb.reference(name)), want)?;
        judge("parse_reference", file, lib(self.ex, || self.rdb.parse_reference(name)), want)?;
        if head {
            judge("head", file, lib(self.ex, || self.rdb.head()), want)?;
        }
        let mut got = vec![];
        lib(self.ex, || {
            if head && n % 4 == 0 {
                self.rdb.read_head().and_then(|mut f| Ok(f.read_to_end(&mut got)?))
            } else {
                self.rdb.read_reference_file(name).and_then(|mut f| Ok(f.read_to_end(&mut got)?))
            }
        })
        .or_else(|e| fail("read-file", format!("reading {}: {}", show(file), err(&e))))?;
        ensure!(got == file, "read-file", "{} reads as {}", show(file), show(&got));
        Ok(())
    }
}

fn names() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        &b"refs/heads/master"[..],
        b"refs/heads/a",
        b"HEAD",
        b"x",
        b"refs/remotes/origin/feature/a.b-c_d",
        b"refs/heads/\xff\xfe",
        b"refs/heads/\xc3\xa9",
        b"refs/heads/e\xcc\x81",
        // names that end in, start with or contain Unicode white space
        b"refs/heads/a\xc2\xa0",
        b"refs/heads/a\xe3\x80\x80",
        b"refs/heads/a\xc2\x85",
        b"\xc2\xa0a/b",
        b"refs/heads/#x",
        b"refs/heads/ref",
        b"ref",
        b"refs/heads/a#b",
        b"refs/heads/@{x",
        b"refs/heads/-",
        b"refs/heads/a\x0b",
    ]
    .iter()
    .map(|n| n.to_vec())
    .collect();
    v.pop();
    v.push(hexid(7));
    v.push([&b"refs/heads/"[..], &hexid(7)].concat());
    v.push([&b"refs/"[..], &b"n".repeat(250)].concat());
    v
}

fn prefixes() -> &'static [&'static [u8]] {
    &[b"\n", b"# c\n", b" \n", b"#\n", b"# pack-refs with: peeled fully-peeled sorted \n", b"#ref: refs/heads/no\n"]
}

/// What a reference file says; `None` where the property leaves it open.
fn ref_parse(file: &[u8]) -> Option<Want> {
    let id = |b: &[u8]| b.len() == 40 && b.iter().all(u8::is_ascii_hexdigit);
    for line in file.split(|c| *c == b'\n') {
        let mut body = line;
        while let [rest @ .., b' ' | b'\t' | b'\r'] = body {
            body = rest;
        }
        match line.first() {
            None | Some(b'#') => continue,
            Some(b' ') if body.is_empty() => continue,
            Some(b' ') => return None,
            _ if body.is_empty() => return None,
            _ => (),
        }
        if body.iter().any(|c| matches!(c, b'\t' | b'\r')) {
            return None;
        }
        let open = |name: &[u8]| name.contains(&b' ');
        return if let Some(name) = body.strip_prefix(b"ref: ") {
            if open(name) { None } else { Some(Want::Sym(name.to_vec())) }
        } else if body.starts_with(b"ref:") && body.len() > 4 {
            None
        } else if let Some(at) = body.iter().position(|c| *c == b' ') {
            let (peel, name) = (&body[..at], &body[at + 1..]);
            match id(peel) {
                false => Some(Want::Bad),
                true if open(name) => None,
                true => Some(Want::Peeled(peel.to_vec(), name.to_vec())),
            }
        } else if id(body) {
            Some(Want::Direct(body.to_vec()))
        } else {
            Some(Want::Bad)
        };
    }
    Some(Want::Bad)
}

pub fn f01(ex: &Exec) -> Res {
    match ex.choose(6) {
        // every sequence of tokens
        5 => {
            let (a, z) = (hexid(1), hexid(9));
            let tokens: [&[u8]; 14] = [
                &a, &z, b"ref: ", b"refs/heads/a", b"x", b" ", b"\n", b"\r\n", b"#", b"\t", b"ref:", b";", b"0", b"\xff",
            ];
            let n = ex.choose(if ex.quick() { 6 } else { 7 });
            let mut first = vec![];
            for _ in 0..n.min(2) {
                first.extend_from_slice(tokens[ex.choose(tokens.len())]);
            }
            ex.describe(|| format!("{} tokens starting {}", n, show(&first)));
            let b = RefBench::new(ex);
            let mut digits = vec![0; n.saturating_sub(2)];
            loop {
                let mut file = first.clone();
                for d in &digits {
                    file.extend_from_slice(tokens[*d]);
                }
                if let Some(w) = ref_parse(&file) {
                    b.case(&file, &w)?;
                }
                let mut at = 0;
                while at < digits.len() && digits[at] == tokens.len() - 1 {
                    digits[at] = 0;
                    at += 1;
                }
                if at == digits.len() {
                    break;
                }
                digits[at] += 1;
            }
        }
        // every combination of leading lines, body and tail
        0 => {
            let ps = prefixes();
            let max = if ex.quick() { 2 } else { 4 };
            let n = ex.choose(max + 1);
            let mut pre = vec![];
            for _ in 0..n {
                pre.extend_from_slice(*ex.pick(ps));
            }
            let b = RefBench::new(ex);
            let other = hexid(9);
            let tails: Vec<Vec<u8>> = vec![
                b"".to_vec(),
                b"\n".to_vec(),
                b"\r\n".to_vec(),
                b" \n".to_vec(),
                b" ".to_vec(),
                b"\t\n".to_vec(),
                b"  \t \r\n".to_vec(),
                b"\n\n\n".to_vec(),
                [&b"\n"[..], &other, b"\n"].concat(),
                b"\nref: refs/heads/other\n".to_vec(),
                b"\n# more\n".to_vec(),
                b"\ngarbage".to_vec(),
                [&b"\n"[..], &other, b" refs/heads/other\n"].concat(),
                b"\n^peeled\n".to_vec(),
            ];
            let ids = [hexid(1), b"0".repeat(40), b"f".repeat(40), hexid(2).to_ascii_uppercase()];
            for t in &tails {
                for id in &ids {
                    b.case(&[&pre[..], id, t].concat(), &Want::Direct(id.clone()))?;
                }
                for (i, n) in names().iter().enumerate() {
                    b.case(&[&pre[..], b"ref: ", n, t].concat(), &Want::Sym(n.clone()))?;
                    let id = &ids[i % 4];
                    b.case(&[&pre[..], id, b" ", n, t].concat(), &Want::Peeled(id.clone(), n.clone()))?;
                }
                for bad in [
                    &ids[0][..39],
                    &[&ids[0][..], b"0"].concat(),
                    &ids[0][..38],
                    &ids[0].repeat(2),
                    b"0",
                    b"master",
                    b"refs/heads/master",
                    b"a/b",
                    b"/",
                    b"ref: ",
                    b"ref:",
                    b"\0",
                    b"\xff",
                    &[&ids[0][..39], b" refs/heads/a"].concat(),
                    &[&ids[0][..], b"0 refs/heads/a"].concat(),
                    &[&b"g".repeat(40)[..], b" refs/heads/a"].concat(),
                    &[b"^", &ids[0][..]].concat(),
                    &[&ids[0][..], b"/x"].concat(),
                ] {
                    b.case(&[&pre[..], bad, t].concat(), &Want::Bad)?;
                }
            }
            // nothing but skipped lines
            b.case(&pre, &Want::Bad)?;
            for t in [&b"#"[..], b"# x", b"\n"] {
                b.case(&[&pre[..], t].concat(), &Want::Bad)?;
            }
            ex.describe(|| format!("files starting {}", show(&pre)));
        }
        // every byte at every position of an id
        1 => {
            let b = RefBench::new(ex);
            let i = ex.choose(40);
            let id = hexid(5);
            for v in 0..=255u8 {
                let mut x = id.clone();
                x[i] = v;
                let w = if v.is_ascii_hexdigit() { Want::Direct(x.clone()) } else { Want::Bad };
                b.case(&x, &w)?;
                b.case(&[&x[..], b"\n"].concat(), &w)?;
                // a line that is no reference isn't passed over, unless it is a comment
                for after in [&hexid(9)[..], b"ref: refs/heads/other\n"] {
                    let file = [&x[..], b"\n", after].concat();
                    if let Some(w) = ref_parse(&file) {
                        b.case(&file, &w)?;
                    }
                }
                let w = if v.is_ascii_hexdigit() { Want::Peeled(x.clone(), b"refs/tags/v".to_vec()) } else { Want::Bad };
                b.case(&[&x[..], b" refs/tags/v\n"].concat(), &w)?;
            }
            ex.describe(|| format!("ids with byte {} varied", i));
        }
        // every byte at every position of a name
        2 => {
            let b = RefBench::new(ex);
            let base = *ex.pick(&[&b"refs/heads/a"[..], b"abc"]);
            let i = ex.choose(base.len());
            for v in 33..=255u8 {
                if v == 127 {
                    continue;
                }
                let mut x = base.to_vec();
                x[i] = v;
                b.case(&[&b"ref: "[..], &x, b"\n"].concat(), &Want::Sym(x.clone()))?;
                b.case(&[&b"ref: "[..], &x].concat(), &Want::Sym(x.clone()))?;
                b.case(&[&hexid(1)[..], b" ", &x, b"\n"].concat(), &Want::Peeled(hexid(1), x.clone()))?;
            }
            ex.describe(|| format!("names with byte {} of {} varied", i, show(base)));
        }
        // id lengths and name lengths
        3 => {
            let b = RefBench::new(ex);
            let part = ex.choose(3);
            match part {
                0 => {
                    for n in 0..=90 {
                        let id = &b"0123456789abcdef".repeat(6)[..n];
                        let w = if n == 40 { Want::Direct(id.to_vec()) } else { Want::Bad };
                        b.case(id, &w)?;
                        b.case(&[id, b"\n"].concat(), &w)?;
                        let w = if n == 40 { Want::Peeled(id.to_vec(), b"refs/x".to_vec()) } else { Want::Bad };
                        b.case(&[id, b" refs/x\n"].concat(), &w)?;
                    }
                }
                1 => {
                    for n in (1..300).chain([511, 512, 4095, 4096, 8191, 8192, 8193, 65536, 1 << 20]) {
                        let name = [&b"refs/"[..], &b"n".repeat(n)].concat();
                        b.case(&[&b"ref: "[..], &name, b"\n"].concat(), &Want::Sym(name.clone()))?;
                        b.case(&[&hexid(1)[..], b" ", &name].concat(), &Want::Peeled(hexid(1), name.clone()))?;
                    }
                }
                _ => {
                    for n in (1..300).chain([511, 512, 4095, 4096, 8191, 8192, 8193, 65536, 1 << 20]) {
                        let pre = [&b"#"[..], &b"c".repeat(n), b"\n"].concat();
                        b.case(&[&pre[..], &hexid(1)].concat(), &Want::Direct(hexid(1)))?;
                        b.case(&pre, &Want::Bad)?;
                        let pre = b"\n".repeat(n);
                        b.case(&[&pre[..], b"ref: refs/a"].concat(), &Want::Sym(b"refs/a".to_vec()))?;
                    }
                }
            }
            ex.describe(|| format!("lengths, part {}", part));
        }
        // what git itself writes
        _ => {
            let b = RefBench::new(ex);
            let what = ex.choose(3);
            if !repo::git_ok() {
                return Ok(());
            }
            let tree = b.r.put_loose(Kind::Tree, b"");
            let c = b.r.put_loose(
                Kind::Commit,
                format!("tree {}\nauthor a <b> 1 +0000\ncommitter a <b> 1 +0000\n\nm", hex(&tree)).as_bytes(),
            );
            let h = hex(&c);
            let run = |args: &[&str]| repo::git(&b.r, args, b"").map_err(|e| Violation { sig: "git".into(), msg: e });
            match what {
                0 => {
                    run(&["update-ref", "refs/heads/deep/b", &h])?;
                    let got = lib(ex, || b.rdb.reference(b"refs/heads/deep/b"));
                    judge("git update-ref", b"", got, &Want::Direct(h.into_bytes()))?;
                }
                1 => {
                    run(&["symbolic-ref", "HEAD", "refs/heads/zzz"])?;
                    judge("git symbolic-ref", b"", lib(ex, || b.rdb.head()), &Want::Sym(b"refs/heads/zzz".to_vec()))?;
                }
                _ => {
                    run(&["update-ref", "--no-deref", "HEAD", &h])?;
                    judge("git detached HEAD", b"", lib(ex, || b.rdb.head()), &Want::Direct(h.into_bytes()))?;
                }
            }
            ex.evals(1);
        }
    }
    Ok(())
}

// ---- F02 ----

fn cat_of(name: &[u8]) -> usize {
    if name.starts_with(b"refs/heads/") {
        0
    } else if name.starts_with(b"refs/tags/") {
        1
    } else {
        2
    }
}

fn listing(ex: &Exec, rdb: &ReferenceDatabase) -> Result<[Vec<Vec<u8>>; 4], String> {
    let one = |f: &dyn Fn() -> Result<Vec<Vec<u8>>, Error>, w: &str| lib(ex, f).map_err(|e| format!("{}: {}", w, err(&e)));
    Ok([
        one(&|| rdb.head_reference_names(), "head_reference_names")?,
        one(&|| rdb.tag_reference_names(), "tag_reference_names")?,
        one(&|| rdb.remote_reference_names(), "remote_reference_names")?,
        one(&|| rdb.reference_names(), "reference_names")?,
    ])
}

fn sorted(v: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn shows(v: &[Vec<u8>]) -> String {
    v.iter().map(|n| show(n)).collect::<Vec<_>>().join(" ")
}

fn put_file(r: &Repo, name: &[u8], content: &[u8]) {
    let p = r.dotgit.join(os(name));
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, content).unwrap();
}

fn check_listing(ex: &Exec, r: &Repo, rdb: &ReferenceDatabase, files: &[Vec<u8>], ctx: &str) -> Res {
    let got = match listing(ex, rdb) {
        Ok(g) => g,
        Err(e) => return fail("listing-fails", format!("{}: {}", ctx, e)),
    };
    ex.evals(1);
    match lib_untyped(ex, || rdb.reference_names()) {
        Ok(g) => ensure!(
            sorted(&g) == sorted(&got[3]),
            "listing-differs",
            "{}: reference_names lists {} instead of {} where the file system does not tell the types of entries",
            ctx,
            shows(&g),
            shows(&got[3])
        ),
        Err(e) => return fail("listing-fails", format!("{}: without entry types: {}", ctx, err(&e))),
    }
    ex.evals(1);
    let want: Vec<Vec<Vec<u8>>> =
        (0..3).map(|c| sorted(&files.iter().filter(|f| cat_of(f) == c).cloned().collect::<Vec<_>>())).collect();
    for (c, w) in want.iter().enumerate() {
        ensure!(
            sorted(&got[c]) == *w,
            "listing-differs",
            "{}: {} lists {} instead of {}",
            ctx,
            ["head_reference_names", "tag_reference_names", "remote_reference_names"][c],
            shows(&got[c]),
            shows(w)
        );
    }
    ensure!(
        sorted(&got[3]) == sorted(&want.concat()),
        "listing-differs",
        "{}: reference_names lists {} instead of {}",
        ctx,
        shows(&got[3]),
        shows(&want.concat())
    );
    ex.outcome(&got[3].len());
    for n in &got[3] {
        let content = std::fs::read(r.dotgit.join(os(n))).unwrap();
        let a = lib(ex, || rdb.reference(n));
        let want = Reference::from_bytes(&content).unwrap();
        match a {
            Ok(x) => ensure!(x.target() == want.target(), "listed-reads-differently", "{}: {} reads {:?}", ctx, show(n), x),
            Err(e) => return fail("listed-unreadable", format!("{}: listed {} cannot be read: {}", ctx, show(n), err(&e))),
        }
    }
    Ok(())
}

pub fn f02(ex: &Exec) -> Res {
    let content = |n: &[u8]| -> Vec<u8> {
        if n.ends_with(b"HEAD") {
            b"ref: refs/remotes/o/m\n".to_vec()
        } else {
            [&hex(&sha1(n)).into_bytes()[..], b"\n"].concat()
        }
    };
    match ex.choose(5) {
        // every subset of these files
        0 => {
            let cand: &[&[u8]] = &[
                b"refs/heads/a",
                b"refs/heads/a.locked",
                b"refs/heads/d/x",
                b"refs/heads/d/e/y",
                b"refs/heads/\xff\xfe",
                b"refs/tags/v1",
                b"refs/tags/lock",
                b"refs/tags/heads/a",
                b"refs/remotes/o/HEAD",
                b"refs/remotes/o/m",
                b"refs/remotes/tags/f.lock.x/z",
            ];
            let mut files = vec![];
            let r = Repo::bare_bones(ex.fresh_dir());
            for c in cand {
                if ex.flag() {
                    files.push(c.to_vec());
                }
            }
            // other things lying about
            for extra in 0..8u32 {
                // 1: lock files, 2: empty directories, 4: other references
                let _ = std::fs::remove_dir_all(r.dotgit.join("refs"));
                for f in &files {
                    put_file(&r, f, &content(f));
                }
                if extra & 1 != 0 {
                    for l in [
                        &b"refs/heads/a.lock"[..],
                        b"refs/heads/d/x.lock",
                        b"refs/heads/gone/y.lock",
                        b"refs/tags/v1.lock",
                        b"refs/remotes/o/HEAD.lock",
                        b"HEAD.lock",
                        b"packed-refs.lock",
                    ] {
                        put_file(&r, l, if l[l.len() - 6] == b'a' { b"" } else { b"ref: refs/heads/half" });
                    }
                }
                if extra & 2 != 0 {
                    for d in ["refs/heads/empty", "refs/heads/d/empty/er", "refs/tags/empty", "refs/remotes/empty/x/y"] {
                        std::fs::create_dir_all(r.dotgit.join(d)).unwrap();
                    }
                }
                if extra & 4 != 0 {
                    for o in [
                        &b"refs/stash"[..],
                        b"refs/notes/commits",
                        b"refs/heads2/a",
                        b"refs/bisect/bad",
                        b"HEAD",
                        b"ORIG_HEAD",
                        b"heads/a",
                        b"refs/head",
                    ] {
                        put_file(&r, o, &content(b"x"));
                    }
                }
                let rdb = ReferenceDatabase::open(&r.dotgit);
                let ctx = format!("files {} with other things {}", shows(&files), extra);
                check_listing(ex, &r, &rdb, &files, &ctx)?;
                ex.state(&ctx);
            }
            ex.describe(|| format!("files {}", shows(&files)));
        }
        // existing and missing category directories
        1 => {
            let r = Repo::bare_bones(ex.fresh_dir());
            let mut files = vec![];
            let mut ctx = String::new();
            for (i, c) in ["heads", "tags", "remotes"].iter().enumerate() {
                let s = ex.choose(5);
                ctx.push_str(&format!("{}:{} ", c, s));
                let d = format!("refs/{}", c);
                match s {
                    0 => (),
                    1 => std::fs::create_dir_all(r.dotgit.join(d)).unwrap(),
                    2 => std::fs::create_dir_all(r.dotgit.join(d).join("x/y/z")).unwrap(),
                    3 => files.push(format!("refs/{}/f{}", c, i).into_bytes()),
                    _ => files.push(format!("refs/{}/f/g/h/i", c).into_bytes()),
                }
            }
            if ex.flag() {
                std::fs::create_dir_all(r.dotgit.join("refs")).unwrap();
            }
            for f in &files {
                put_file(&r, f, &content(f));
            }
            let rdb = ReferenceDatabase::open(&r.dotgit);
            check_listing(ex, &r, &rdb, &files, &ctx)?;
            // the same handle sees later changes
            for step in 0..3 {
                let f = [b"refs/heads/l1".to_vec(), b"refs/tags/l/l2".to_vec(), b"refs/remotes/o/l3".to_vec()][step].clone();
                put_file(&r, &f, &content(&f));
                files.push(f);
                check_listing(ex, &r, &rdb, &files, &format!("{} after adding {}", ctx, step))?;
            }
            for _ in 0..files.len() {
                let f = files.remove(0);
                std::fs::remove_file(r.dotgit.join(os(&f))).unwrap();
                check_listing(ex, &r, &rdb, &files, &format!("{} after removing {}", ctx, show(&f)))?;
            }
            ex.state(&ctx);
            ex.describe(|| ctx.clone());
        }
        // deep, wide, strange names
        2 => {
            let r = Repo::bare_bones(ex.fresh_dir());
            let what = ex.choose(7);
            let mut files: Vec<Vec<u8>> = vec![];
            match what {
                // every byte at the end, as the whole name, in front
                5 => {
                    for v in (1..=255u8).filter(|v| !b"/.".contains(v)) {
                        files.push([&b"refs/heads/x"[..], &[v]].concat());
                        files.push([&b"refs/tags/"[..], &[v]].concat());
                        files.push([&b"refs/tags/dd/"[..], &[v], b"x"].concat());
                        files.push([&b"refs/remotes/o/"[..], &[v], &[v]].concat());
                    }
                    // a backslash is a slash on other systems
                    files.retain(|f| !f.contains(&b'\\'));
                    for ext in ["tmp", "bak", "orig", "swp", "old", "new", "pack", "idx", "keep", "rej", "log", "txt", "git", "lck", "lok", "locks", "Lock", "LOCK", "0", "d", "lock.x", "part"] {
                        files.push(format!("refs/heads/e.{}", ext).into_bytes());
                        files.push(format!("refs/heads/e/f.{}", ext).into_bytes());
                        files.push(format!("refs/tags/g.{}/x", ext).into_bytes());
                    }
                    for n in ["tmp", "tmp_x", "tmp_obj_1", "logs", "index", "core", "CVS", "RCS", "node_modules", "Thumbs.db", "desktop.ini", "nul", "con", "lost+found", "packed-refs", "FETCH_HEAD", "ORIG_HEAD", "MERGE_HEAD", "stash", "notes", "pull", "original"] {
                        files.push(format!("refs/heads/{}", n).into_bytes());
                        files.push(format!("refs/remotes/{}/m", n).into_bytes());
                        files.push(format!("refs/tags/{0}/{0}", n).into_bytes());
                    }
                }
                // many
                6 => {
                    for i in 0..12_000 {
                        files.push(format!("refs/heads/w{}", i).into_bytes());
                        if i % 6 == 0 {
                            files.push(format!("refs/tags/{}/{}", i % 100, i).into_bytes());
                            files.push(format!("refs/remotes/o/{}", i).into_bytes());
                        }
                    }
                }
                0 => {
                    for d in 1..=60 {
                        files.push([&b"refs/heads/"[..], &b"d/".repeat(d), b"f"].concat());
                    }
                    files.push([&b"refs/tags/"[..], &b"d/".repeat(400), b"f"].concat());
                }
                1 => {
                    for i in 0..3000 {
                        files.push(format!("refs/tags/v{}", i).into_bytes());
                        if i % 3 == 0 {
                            files.push(format!("refs/remotes/r{}/m", i).into_bytes());
                        }
                    }
                }
                2 => {
                    for v in 1..=255u8 {
                        if v > 32 && v != 127 && !b"/\\~^:?*[".contains(&v) {
                            files.push([&b"refs/heads/x"[..], &[v], b"y"].concat());
                            files.push([&b"refs/remotes/x"[..], &[v], b"y/z"].concat());
                        }
                    }
                }
                3 => {
                    files.push([&b"refs/heads/"[..], &b"n".repeat(255)].concat());
                    files.push([&b"refs/heads/"[..], &b"d".repeat(255), b"/", &b"n".repeat(255)].concat());
                    for n in 1..200 {
                        files.push([&b"refs/tags/"[..], &b"n".repeat(n)].concat());
                    }
                }
                _ => {
                    for n in [
                        "refs/heads/refs/heads/a",
                        "refs/heads/heads/a",
                        "refs/heads/tags/a",
                        "refs/heads/remotes/a",
                        "refs/tags/refs/tags/a",
                        "refs/remotes/refs/remotes/a",
                        "refs/heads/HEAD",
                        "refs/remotes/heads/a",
                        "refs/heads/lock",
                        "refs/heads/x.Lock",
                        "refs/heads/x.lock2",
                        "refs/heads/xlock",
                        "refs/heads/config",
                        "refs/heads/.git-like",
                    ] {
                        files.push(n.as_bytes().to_vec());
                    }
                    files.pop();
                }
            }
            for f in &files {
                put_file(&r, f, &content(f));
            }
            // also through a relative and an unusual spelling of the path
            for p in [r.dotgit.clone(), r.dotgit.join("."), PathBuf::from(format!("{}/", r.dotgit.display()))] {
                let rdb = ReferenceDatabase::open(&p);
                check_listing(ex, &r, &rdb, &files, &format!("case {} opened as {}", what, p.display()))?;
            }
            ex.describe(|| format!("case {}", what));
        }
        // two names that are easily taken for each other, in every order and in several places
        4 => {
            let alike: Vec<&[u8]> = vec![
                b"a", b"A", b"aa", b"ab", b"Ab", b"AB", b"a.b", b"a-b", b"a_b", b"a+b", b"a%62", b"a.lock.b", b"a.LOCK",
                b"a0", b"a00", b"a1", b"a01", "\u{e9}".as_bytes(), "e\u{301}".as_bytes(), b"\xe9", b"\xc9", "\u{212b}".as_bytes(), "\u{c5}".as_bytes(),
                b"a\xff", b"a\xfe", b"@", b"-a", b"--", b"a,b", b"a;b", b"a'b", b"a\"b", b"$a", b"a&b", b"{a}", b"HEAD", b"head", b"main", b"Main", b"refs",
            ];
            let i = ex.choose(alike.len());
            let r = Repo::bare_bones(ex.fresh_dir());
            ex.describe(|| format!("{} and each other name", show(alike[i])));
            for (j, other) in alike.iter().enumerate() {
                if i == j {
                    continue;
                }
                for place in 0..6 {
                    let (x, y) = (alike[i], *other);
                    let name = |parts: &[&[u8]]| parts.join(&b'/');
                    let files: Vec<Vec<u8>> = match place {
                        0 => vec![name(&[b"refs/heads", x]), name(&[b"refs/heads", y])],
                        1 => vec![name(&[b"refs/tags", x]), name(&[b"refs/tags", y])],
                        2 => vec![name(&[b"refs/remotes/o", x]), name(&[b"refs/remotes/o", y]), name(&[b"refs/heads", x])],
                        3 => vec![name(&[b"refs/remotes", x, b"m"]), name(&[b"refs/remotes", y, b"m"])],
                        4 => vec![name(&[b"refs/heads", x, y]), name(&[b"refs/heads", y, x])],
                        _ => vec![name(&[b"refs/heads", x]), name(&[b"refs/tags", x]), name(&[b"refs/remotes", y]), name(&[b"refs/heads", y, x])],
                    };
                    let _ = std::fs::remove_dir_all(r.dotgit.join("refs"));
                    for f in &files {
                        put_file(&r, f, &content(f));
                    }
                    let rdb = ReferenceDatabase::open(&r.dotgit);
                    let ctx = format!("files {}", shows(&files));
                    check_listing(ex, &r, &rdb, &files, &ctx)?;
                    ex.state(&(i, j, place));
                }
            }
        }
        // another process changes references while they are listed
        _ => {
            let r = Repo::bare_bones(ex.fresh_dir());
            let stay: Vec<Vec<u8>> = [
                &b"refs/heads/a"[..],
                b"refs/heads/d/k",
                b"refs/heads/z",
                b"refs/tags/v1",
                b"refs/remotes/o/m",
            ]
            .iter()
            .map(|n| n.to_vec())
            .collect();
            for f in &stay {
                put_file(&r, f, &content(f));
            }
            let steps: &[&[&str]] = &[
                &["-refs/heads/d/e/y", "-refs/heads/d/e/"],
                &["-refs/heads/only/x", "-refs/heads/only/", "+refs/heads/other"],
                &["+refs/heads/a.lock", "=refs/heads/a.lock refs/heads/a"],
                &["+refs/tags/new/n.lock", "=refs/tags/new/n.lock refs/tags/new/n"],
                &["-refs/tags/v0", "-refs/remotes/p/m", "-refs/remotes/p/"],
                &["+refs/tags/new/n.lock", "=refs/tags/new/n.lock refs/tags/new/n", "-refs/tags/v0", "-refs/remotes/p/m", "-refs/remotes/p/"],
            ];
            let which = ex.choose(steps.len() - ex.quick() as usize);
            for f in ["refs/heads/d/e/y", "refs/heads/only/x", "refs/tags/v0", "refs/remotes/p/m"] {
                put_file(&r, f.as_bytes(), &content(f.as_bytes()));
            }
            struct Racer<'a, 'b> {
                ex: &'a Exec<'b>,
                dotgit: PathBuf,
                steps: &'a [&'a str],
                next: Cell<usize>,
                log: RefCell<String>,
                calls: Cell<u32>,
            }
            impl Env for Racer<'_, '_> {
                fn call(&self, op: &Op) -> Ans {
                    self.calls.set(self.calls.get() + 1);
                    if self.calls.get() > 5000 {
                        fatal("runaway: more than 5000 system calls in one listing");
                    }
                    if matches!(op, Op::Close { .. }) {
                        return Ans::Go;
                    }
                    let left = self.steps.len() - self.next.get();
                    let n = if left > 0 { self.ex.choose(left + 1) } else { 0 };
                    for _ in 0..n {
                        let s = self.steps[self.next.get()];
                        self.next.set(self.next.get() + 1);
                        self.log.borrow_mut().push_str(&format!("{} before {} #{}; ", s, op.name(), self.calls.get()));
                        let p = |s: &str| self.dotgit.join(s);
                        match s.as_bytes()[0] {
                            b'-' if s.ends_with('/') => std::fs::remove_dir(p(&s[1..])).unwrap(),
                            b'-' => std::fs::remove_file(p(&s[1..])).unwrap(),
                            b'+' => {
                                std::fs::create_dir_all(p(&s[1..]).parent().unwrap()).unwrap();
                                std::fs::write(p(&s[1..]), format!("{}\n", hex(&sha1(b"new")))).unwrap()
                            }
                            _ => {
                                let (a, b) = s[1..].split_once(' ').unwrap();
                                std::fs::rename(p(a), p(b)).unwrap()
                            }
                        }
                    }
                    Ans::Go
                }
                fn clock(&self) -> u64 {
                    1_000_000_000_000
                }
            }
            let env = Racer {
                ex,
                dotgit: r.dotgit.clone(),
                steps: steps[which],
                next: Cell::new(0),
                log: RefCell::new(String::new()),
                calls: Cell::new(0),
            };
            let rdb = ReferenceDatabase::open(&r.dotgit);
            ex.step();
            let got = with_env(&env, || rdb.reference_names());
            ex.evals(1);
            let log = env.log.borrow().clone();
            ex.state(&(which, &log));
            let got = match got {
                Ok(g) => sorted(&g),
                Err(e) => return fail("listing-fails", format!("while references change ({}): {}", log, err(&e))),
            };
            ex.outcome(&got);
            for s in &stay {
                ensure!(
                    got.iter().filter(|n| *n == s).count() == 1,
                    "listing-differs",
                    "while other references change ({}): {} is listed {} times",
                    log,
                    show(s),
                    got.iter().filter(|n| *n == s).count()
                );
            }
            let other: &[&[u8]] = &[
                b"refs/heads/d/e/y",
                b"refs/heads/only/x",
                b"refs/heads/other",
                b"refs/tags/new/n",
                b"refs/tags/v0",
                b"refs/remotes/p/m",
            ];
            for n in &got {
                ensure!(
                    stay.contains(n) || other.contains(&&n[..]),
                    "listing-differs",
                    "while references change ({}): lists {}, which never existed",
                    log,
                    show(n)
                );
            }
            ex.describe(|| format!("changes {}: {}", which, log));
        }
    }
    Ok(())
}

// ---- F03 ----

#[derive(Clone, Debug, PartialEq)]
enum Node {
    Missing,
    Direct(Oid),
    Sym(Vec<u8>),
    Peeled(Oid, Vec<u8>),
    Malformed(&'static [u8]),
}

fn node_bytes(n: &Node) -> Option<Vec<u8>> {
    Some(match n {
        Node::Missing => return None,
        Node::Direct(id) => format!("{}\n", hex(id)).into_bytes(),
        Node::Sym(t) => [&b"ref: "[..], t, b"\n"].concat(),
        Node::Peeled(id, t) => [hex(id).as_bytes(), b" ", t, b"\n"].concat(),
        Node::Malformed(b) => b.to_vec(),
    })
}

type Graph = Vec<(Vec<u8>, Node)>;

fn write_graph(r: &Repo, g: &Graph) {
    for (n, node) in g {
        let p = r.dotgit.join(os(n));
        match node_bytes(node) {
            Some(b) => {
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, b).unwrap()
            }
            None => {
                let _ = std::fs::remove_file(p);
            }
        }
    }
}

/// The id at the end of the chain from `start`, if there is one.
fn resolve(g: &Graph, start: &[u8]) -> Option<Oid> {
    let mut at = start.to_vec();
    for _ in 0..=g.len() {
        match g.iter().find(|(n, _)| *n == at).map(|(_, n)| n) {
            Some(Node::Direct(id)) | Some(Node::Peeled(id, _)) => return Some(*id),
            Some(Node::Sym(t)) => at = t.clone(),
            _ => return None,
        }
    }
    None
}

fn peels(ex: &Exec, repo: &Repository, g: &Graph, start: &[u8], objs: &[(Oid, Vec<u8>)], ctx: &str) -> Res {
    let want = resolve(g, start).and_then(|id| objs.iter().find(|(o, _)| *o == id));
    let node = &g.iter().find(|(n, _)| n == start).unwrap().1;
    let rdb = repo.reference_database();
    let how = |k: usize| -> Result<Object, Error> {
        match k {
            0 => rdb.reference(start)?.peel(repo),
            1 => {
                let r = rdb.parse_reference(start)?;
                match r.target() {
                    ReferenceTarget::Direct(d) => d.object(repo),
                    ReferenceTarget::Symbolic(s) => s.peel(repo),
                }
            }
            2 => Reference::from_bytes(&node_bytes(node).unwrap_or_default())?.target().peel(repo),
            _ => Symbolic::from_bytes(start, None)?.peel(repo),
        }
    };
    for k in 0..4 {
        if k == 3 && g.len() > 40 {
            continue;
        }
        let got = lib(ex, || guarded(|| how(k)));
        ex.evals(1);
        match (got, want) {
            (Err(p), _) => return fail("panic", format!("{}: peeling {}: panic {}", ctx, show(start), p)),
            (Ok(Ok(o)), Some((id, content))) => {
                ensure!(o.id() == &repo::id(id), "wrong-object", "{}: {} peels to {:?}, expected {}", ctx, show(start), o.id(), hex(id));
                let (_, c) = repo::render(o.data());
                ensure!(c == *content, "wrong-object", "{}: {} peels to other content", ctx, show(start));
                ex.outcome(&"object");
            }
            (Ok(Ok(o)), None) => {
                return fail("peels-nowhere", format!("{}: {} peels to {:?}, expected an error", ctx, show(start), o.id()))
            }
            (Ok(Err(e)), Some((id, _))) => {
                return fail("peel-fails", format!("{}: {} should peel to {}: {}", ctx, show(start), hex(id), err(&e)))
            }
            (Ok(Err(e)), None) => {
                ex.outcome(&err(&e));
            }
        }
    }
    Ok(())
}

/// A repository with one object per kind (loose and packed) and what they read as.
fn with_objects(ex: &Exec, r: &Repo) -> Vec<(Oid, Vec<u8>)> {
    let t = r.put_loose(Kind::Tree, b"");
    let c = r.put_loose(
        Kind::Commit,
        format!("tree {}\nauthor a <b> 1 +0000\ncommitter a <b> 1 +0000\n\nm", hex(&t)).as_bytes(),
    );
    let g = r.put_loose(Kind::Tag, format!("object {}\ntype commit\ntag v\n\nm", hex(&c)).as_bytes());
    let b = sha1(&framed(Kind::Blob, b"packed blob"));
    r.put_pack(2, 2, &[PackEntry::whole(Kind::Blob, b"packed blob")]);
    let db = r.db();
    [c, g, b, t]
        .iter()
        .map(|id| match lib(ex, || repo::parse(&db, id)) {
            repo::Obs::Obj(_, c) => (*id, c),
            o => (*id, format!("{:?}", o).into_bytes()),
        })
        .collect()
}

pub fn f03(ex: &Exec) -> Res {
    let names: [&[u8]; 4] = [b"HEAD", b"refs/heads/a", b"refs/tags/d/b", b"refs/remotes/o/\xff"];
    match ex.choose(5) {
        // every graph over four names
        0 => {
            let r = Repo::new(ex.fresh_dir());
            let objs = with_objects(ex, &r);
            let gone = sha1(b"gone");
            let alphabet = |i: usize| -> Vec<Node> {
                let mut v = vec![
                    Node::Missing,
                    Node::Direct(objs[i].0),
                    Node::Direct(gone),
                    Node::Malformed(b"garbage\n"),
                    Node::Malformed(b""),
                    Node::Peeled(objs[i].0, names[(i + 1) % 4].to_vec()),
                    Node::Peeled(gone, names[(i + 1) % 4].to_vec()),
                    Node::Sym(b"refs/heads/none".to_vec()),
                ];
                for n in names {
                    v.push(Node::Sym(n.to_vec()));
                }
                v
            };
            let mut g: Graph = vec![];
            for i in 0..2 {
                let a = alphabet(i);
                g.push((names[i].to_vec(), ex.pick(&a).clone()));
            }
            let repo = lib(ex, || Repository::open(&r.root)).unwrap();
            for x in alphabet(2) {
                for y in alphabet(3) {
                    let mut g = g.clone();
                    g.push((names[2].to_vec(), x.clone()));
                    g.push((names[3].to_vec(), y.clone()));
                    write_graph(&r, &g);
                    let ctx = format!("{:?}", g);
                    ex.state(&ctx);
                    for n in names {
                        peels(ex, &repo, &g, n, &objs, &ctx)?;
                    }
                }
            }
            ex.describe(|| format!("all graphs starting {:?}", g));
        }
        // long chains and cycles, in several directories
        1 => {
            let r = Repo::new(ex.fresh_dir());
            let objs = with_objects(ex, &r);
            let repo = lib(ex, || Repository::open(&r.root)).unwrap();
            let mut lens = vec![1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 255, 256, 257, 1000, 4096];
            if !ex.quick() {
                lens.extend([512, 1024, 2048, 20_000]);
            }
            let len = *ex.pick(&lens);
            // 0: object, 1: missing reference, 2: missing object, 3: malformed, 4: pre-resolved; then cycles
            let end = ex.choose(5 + 3);
            let dirs = ["refs/heads", "refs/tags/d", "refs/remotes/o", "refs/x"];
            let name = |i: usize| format!("{}/n{}", dirs[i % 4], i).into_bytes();
            let mut g: Graph = (0..len).map(|i| (name(i), Node::Sym(name(i + 1)))).collect();
            g.push((
                name(len),
                match end {
                    0 => Node::Direct(objs[0].0),
                    1 => Node::Missing,
                    2 => Node::Direct(sha1(b"gone")),
                    3 => Node::Malformed(b"ref: \n"),
                    4 => Node::Peeled(objs[2].0, name(0)),
                    5 => Node::Sym(name(0)),
                    6 => Node::Sym(name(len)),
                    _ => Node::Sym(name(len / 2)),
                },
            ));
            write_graph(&r, &g);
            let ctx = format!("chain of {} ending in {}", len, end);
            ex.state(&ctx);
            for s in [0, len / 2, len.saturating_sub(1), len] {
                peels(ex, &repo, &g, &name(s), &objs, &ctx)?;
            }
            ex.describe(|| ctx.clone());
        }
        // references change between peels of one handle
        2 => {
            let r = Repo::new(ex.fresh_dir());
            let objs = with_objects(ex, &r);
            let repo = lib(ex, || Repository::open(&r.root)).unwrap();
            let mut g: Graph = vec![
                (names[0].to_vec(), Node::Sym(names[1].to_vec())),
                (names[1].to_vec(), Node::Missing),
                (names[2].to_vec(), Node::Direct(objs[1].0)),
            ];
            write_graph(&r, &g);
            let depth = if ex.quick() { 4 } else { 5 };
            let mut hist = vec![];
            for _ in 0..depth {
                let at = ex.choose(2);
                let n = match ex.choose(5) {
                    0 => Node::Direct(objs[0].0),
                    1 => Node::Direct(objs[2].0),
                    2 => Node::Missing,
                    3 => Node::Sym(names[1 - at].to_vec()),
                    _ => Node::Sym(names[2].to_vec()),
                };
                hist.push((at, n.clone()));
                g[at].1 = n;
                write_graph(&r, &g);
                let ctx = format!("after {:?}", hist);
                for s in &names[..3] {
                    peels(ex, &repo, &g, s, &objs, &ctx)?;
                }
            }
            ex.state(&format!("{:?}", hist));
            ex.describe(|| format!("history {:?}", hist));
        }
        // names that mean something to git are names like any other
        3 => {
            let r = Repo::new(ex.fresh_dir());
            let special: [&[u8]; 34] = [
                b"HEAD", b"ORIG_HEAD", b"FETCH_HEAD", b"MERGE_HEAD", b"CHERRY_PICK_HEAD", b"REVERT_HEAD", b"BISECT_HEAD", b"AUTO_MERGE",
                b"head", b"Head", b"main", b"master", b"@", b"HEAD.lock", b"refs/heads/HEAD", b"refs/heads/ORIG_HEAD", b"refs/tags/HEAD",
                b"refs/remotes/origin/HEAD", b"refs/remotes/origin/ORIG_HEAD", b"refs/heads/main", b"refs/heads/master", b"refs/heads/Main",
                b"refs/heads/main.lock", b"refs/heads/a/b/c/d/e", b"refs/tags/main", b"refs/stash", b"refs/notes/commits", b"refs/replace/x",
                b"refs/bisect/bad", b"refs/worktree/x", b"worktrees/w/HEAD", b"main-worktree/HEAD", b"refs/pull/1/head",
                b"refs/heads/0123456789abcdef0123456789abcdef01234567",
            ];
            // each name has its own object
            let mut objs = with_objects(ex, &r);
            objs.clear();
            let db = r.db();
            for n in special {
                let id = r.put_loose(Kind::Blob, n);
                match lib(ex, || repo::parse(&db, &id)) {
                    repo::Obs::Obj(_, c) => objs.push((id, c)),
                    o => return fail("wrong-object", format!("blob {} reads as {:?}", show(n), o)),
                }
            }
            let repo = lib(ex, || Repository::open(&r.root)).unwrap();
            let at = ex.choose(special.len());
            // also with only the two names there
            let alone = ex.flag();
            let mut g: Graph = special.iter().zip(&objs).map(|(n, (id, _))| (n.to_vec(), Node::Direct(*id))).collect();
            for to in 0..special.len() {
                let was = g[at].1.clone();
                if to != at {
                    g[at].1 = Node::Sym(special[to].to_vec());
                }
                let mut here = g.clone();
                if alone {
                    for (i, x) in here.iter_mut().enumerate() {
                        if i != at && i != to {
                            x.1 = Node::Missing;
                        }
                    }
                }
                write_graph(&r, &here);
                let ctx = format!("{} -> {} with {}", show(special[at]), show(special[to]), if alone { "no other" } else { "all others" });
                ex.state(&ctx);
                peels(ex, &repo, &here, special[at], &objs, &ctx)?;
                peels(ex, &repo, &here, special[to], &objs, &ctx)?;
                g[at].1 = was;
            }
            ex.describe(|| format!("{} to every special name", show(special[at])));
        }
        // contents with leading lines and odd ends at every place of a chain
        _ => {
            let r = Repo::new(ex.fresh_dir());
            let objs = with_objects(ex, &r);
            let repo = lib(ex, || Repository::open(&r.root)).unwrap();
            let g: Graph = vec![
                (b"HEAD".to_vec(), Node::Sym(b"side".to_vec())),
                (b"side".to_vec(), Node::Sym(b"refs/heads/a".to_vec())),
                (b"refs/heads/a".to_vec(), Node::Sym(b"refs/tags/d/b".to_vec())),
                (b"refs/tags/d/b".to_vec(), Node::Direct(objs[ex.choose(4)].0)),
            ];
            let at = ex.choose(4);
            for pre in [&b""[..], b"# x\n", b"\n", b"#\n\n# y\n"] {
                for tail in [&b""[..], b"\n", b"\r\n", b" \n", b"\nref: refs/heads/none\n"] {
                    write_graph(&r, &g);
                    let mut c = node_bytes(&g[at].1).unwrap();
                    c.pop();
                    std::fs::write(r.dotgit.join(os(&g[at].0)), [pre, &c, tail].concat()).unwrap();
                    for (n, _) in &g {
                        peels(ex, &repo, &g, n, &objs, &format!("file {} is {}", show(&g[at].0), show(&[pre, &c, tail].concat())))?;
                    }
                    ex.state(&(at, pre, tail));
                }
            }
        }
    }
    Ok(())
}

// ---- F04 ----

/// The components that remain, or None if the name is absolute or climbs out.
fn lexical(name: &[u8]) -> Option<Vec<Vec<u8>>> {
    if name.starts_with(b"/") {
        return None;
    }
    let mut v: Vec<Vec<u8>> = vec![];
    for c in name.split(|c| *c == b'/') {
        match c {
            b"" | b"." => (),
            b".." => {
                v.pop()?;
            }
            c => v.push(c.to_vec()),
        }
    }
    Some(v)
}

struct Watch {
    root: PathBuf,
    bad: RefCell<Option<String>>,
    opens: Cell<u32>,
    calls: Cell<u32>,
}
impl Env for Watch {
    fn call(&self, op: &Op) -> Ans {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > 20_000 {
            fatal("runaway: more than 20000 system calls in one lookup");
        }
        let p = match op {
            Op::Open { path, .. } | Op::Opendir { path } => path,
            _ => return Ans::Go,
        };
        self.opens.set(self.opens.get() + 1);
        let mut at: Vec<std::ffi::OsString> = vec![];
        for c in p.components() {
            match c {
                std::path::Component::ParentDir => {
                    at.pop();
                }
                std::path::Component::Normal(n) => at.push(n.to_owned()),
                _ => (),
            }
            // climbing out on the way counts too, even if the path comes back
        }
        let full: PathBuf = std::iter::once(std::ffi::OsString::from("/")).chain(at).collect();
        if !full.starts_with(&self.root) {
            self.bad.borrow_mut().get_or_insert(p.display().to_string());
            // never let it through
            return Ans::Fail(libc::EACCES);
        }
        Ans::Go
    }
    fn clock(&self) -> u64 {
        1_000_000_000_000
    }
}

pub fn f04(ex: &Exec) -> Res {
    let dir = ex.fresh_dir();
    let r = Repo::new(dir.join("work"));
    let objs = with_objects(ex, &r);
    let repo = lib(ex, || Repository::open(&r.root)).unwrap();
    let rdb = repo.reference_database();
    // files inside, each with its own id
    let inside: Vec<Vec<u8>> = [
        &b"refs/heads/a"[..],
        b"a",
        b"refs/heads/a..b",
        b"refs/a..b",
        b"a..b",
        b"...",
        b"refs/...",
        b".a",
        b"refs/heads/.a",
        b"refs/..a",
        b"..a",
        b"a..",
        b"refs/a..",
        b"\xff",
        b"refs/heads/\xff",
        b"refs/refs/a",
        b"heads/a",
        b"refs/heads/refs/heads/a",
        b"...x/a",
        b"refs/heads/heads/...",
    ]
    .iter()
    .map(|n| n.to_vec())
    .collect();
    let mut ids = vec![];
    for (i, n) in inside.iter().enumerate() {
        let id = if i < 4 { objs[i].0 } else { r.put_loose(Kind::Blob, n) };
        put_file(&r, n, format!("{}\n", hex(&id)).as_bytes());
        ids.push(id);
    }
    // and outside, all of them valid references to objects that exist
    let out_id = r.put_loose(Kind::Blob, b"outside");
    let good = format!("{}\n", hex(&out_id));
    for d in ["", "work", "refs", "refs/heads", "work/refs", "work/refs/heads", "heads"] {
        for f in ["a", "a..b", "...", ".a", "..a", "a.."] {
            let p = dir.join(d).join(f);
            if !p.exists() {
                let _ = std::fs::create_dir_all(p.parent().unwrap());
                let _ = std::fs::write(p, &good);
            }
        }
    }
    let comps: &[&[u8]] = &[b"..", b".", b"", b"refs", b"heads", b"a", b"a..b", b"...", b".a", b"..a", b"a..", b"\xff"];
    let mut batch: Vec<Vec<u8>> = vec![];
    match ex.choose(4) {
        // every name of components
        0 => {
            let a = *ex.pick(comps);
            let b = *ex.pick(comps);
            let c = if ex.quick() { None } else { Some(*ex.pick(comps)) };
            let mut level: Vec<Vec<u8>> = match c {
                None => vec![[a, b"/", b].concat()],
                Some(c) => vec![[a, b"/", b, b"/", c].concat()],
            };
            batch.push(a.to_vec());
            batch.push([a, b"/", b].concat());
            batch.extend(level.iter().cloned());
            for _ in 0..2 {
                let mut next = vec![];
                for w in &level {
                    for t in comps {
                        next.push([&w[..], b"/", t].concat());
                    }
                }
                batch.extend(next.iter().cloned());
                level = next;
            }
        }
        // out and back in again
        1 => {
            let up = ex.choose(4);
            for back in [&b".git"[..], b"work/.git", b".git/refs", b"work/.git/refs/heads", b"../work/.git"] {
                for f in [&b"a"[..], b"refs/heads/a", b"HEAD", b"..", b""] {
                    for pre in [&b""[..], b"refs/", b"refs/heads/", b"./", b"refs/heads/a/"] {
                        batch.push([pre, &b"../".repeat(up + pre.iter().filter(|c| **c == b'/').count()), back, b"/", f].concat());
                        batch.push([pre, &b"../".repeat(up), back, b"/", f].concat());
                    }
                }
            }
        }
        // absolute names
        2 => {
            let k = ex.choose(3);
            for f in ["a", "work/a", "work/.git/a", "work/.git/refs/heads/a", "refs/heads/a", "work/.git/../a", "work/.git/HEAD"] {
                let p = dir.join(f).into_os_string().into_vec();
                batch.push([&b"/".repeat(k)[..], &p].concat());
            }
            batch.push(b"/".repeat(k + 1));
            batch.push([&b"/".repeat(k + 1)[..], b"a"].concat());
            batch.push([&b"/".repeat(k + 1)[..], b"refs/heads/a"].concat());
        }
        // long climbs
        _ => {
            let n = 1 + ex.choose(12);
            for f in [&b"a"[..], b"refs/heads/a", b"work/a"] {
                batch.push([&b"../".repeat(n)[..], f].concat());
                batch.push([&b"refs/../".repeat(n)[..], b"../", f].concat());
                batch.push([&b"./../".repeat(n)[..], f].concat());
                batch.push([&b".././".repeat(n)[..], f].concat());
                batch.push([&b"..//".repeat(n)[..], f].concat());
                batch.push([&b"refs/heads/"[..], &b"../".repeat(n), f].concat());
                let p = dir.join(os(f)).into_os_string().into_vec();
                batch.push([&b"../".repeat(n + 20)[..], &p[1..]].concat());
            }
        }
    }
    let root = r.dotgit.clone();
    for name in &batch {
        ex.state(name);
        let lex = lexical(name);
        // is the plain spelling used, without "", "." and ".." components?
        let plain = lex.as_ref().map(|v| v.join(&b'/') == *name).unwrap_or(false);
        let target = lex.as_ref().map(|v| v.join(&b'/')).and_then(|n| inside.iter().position(|f| *f == n));
        let watched = |f: &dyn Fn() -> Result<Vec<u8>, Error>, how: &str| -> Result<Result<Vec<u8>, String>, Violation> {
            ex.step();
            ex.evals(1);
            let env = Watch { root: root.clone(), bad: RefCell::new(None), opens: Cell::new(0), calls: Cell::new(0) };
            let got = with_env(&env, || guarded(f));
            if let Some(p) = env.bad.borrow().as_ref() {
                return fail("escapes", format!("{}({}) opens {} outside {}", how, show(name), p, root.display()));
            }
            match got {
                Err(p) => fail("panic", format!("{}({}): panic: {}", how, show(name), p)),
                Ok(x) => {
                    ex.outcome(&(x.is_ok(), x.as_ref().err().map(err)));
                    Ok(x.map_err(|e| err(&e)))
                }
            }
        };
        let hexof = |x: Reference| match x.target() {
            ReferenceTarget::Direct(d) => format!("{:?}", d).into_bytes(),
            t => format!("{:?}", t).into_bytes(),
        };
        let read = |n: &[u8]| -> Result<Vec<u8>, Error> {
            let mut v = vec![];
            let mut f = rdb.read_reference_file(n)?;
            f.read_to_end(&mut v)?;
            Ok(v)
        };
        std::fs::write(r.dotgit.join("link"), [&b"ref: "[..], name, b"\n"].concat()).unwrap();
        let direct = |id: &Oid| {
            Ok::<_, Error>(format!("{:?}", Direct::from_bytes(hex(id).as_bytes()).unwrap()).into_bytes())
        };
        for how in 0..6 {
            let (label, got, want): (&str, Result<Vec<u8>, String>, Vec<u8>) = match how {
                0 => (
                    "reference",
                    watched(&|| Ok(hexof(rdb.reference(name)?)), "reference")?,
                    target.map(|t| direct(&ids[t]).unwrap()).unwrap_or_default(),
                ),
                1 => (
                    "parse_reference",
                    watched(&|| Ok(hexof(rdb.parse_reference(name)?)), "parse_reference")?,
                    target.map(|t| direct(&ids[t]).unwrap()).unwrap_or_default(),
                ),
                2 => (
                    "read_reference_file",
                    watched(&|| read(name), "read_reference_file")?,
                    target.map(|t| format!("{}\n", hex(&ids[t])).into_bytes()).unwrap_or_default(),
                ),
                3 | 4 => (
                    "peel of a symbolic reference to",
                    watched(
                        &|| {
                            let o = if how == 3 {
                                rdb.reference(b"link")?.peel(&repo)?
                            } else {
                                Symbolic::from_bytes(name, None).map_err(Error::InvalidReference)?.peel(&repo)?
                            };
                            Ok(o.id().to_hex().as_bytes().to_vec())
                        },
                        "peel of a symbolic reference to ",
                    )?,
                    target.map(|t| hex(&ids[t]).into_bytes()).unwrap_or_default(),
                ),
                _ => (
                    "opening read_reference_file",
                    watched(
                        &|| {
                            rdb.read_reference_file(name)?;
                            Ok(vec![])
                        },
                        "read_reference_file",
                    )?,
                    vec![],
                ),
            };
            if how >= 3 && how < 5 && name.last().map_or(true, |c| c.is_ascii_whitespace()) {
                continue;
            }
            match (&got, &lex, target) {
                (Ok(v), None, _) => {
                    return fail("accepts-outside", format!("{}({}) succeeds with {}", label, show(name), show(v)))
                }
                (Err(_), None, _) => (),
                (Ok(v), Some(_), Some(_)) => ensure!(
                    *v == want,
                    "wrong-file",
                    "{}({}) gives {} instead of {}",
                    label,
                    show(name),
                    show(v),
                    show(&want)
                ),
                (Err(e), Some(_), Some(_)) => ensure!(!plain, "inside-fails", "{}({}) fails: {}", label, show(name), e),
                (Ok(v), Some(_), None) => ensure!(
                    how == 5,
                    "reads-nothing",
                    "{}({}) gives {} although there is no such file",
                    label,
                    show(name),
                    show(v)
                ),
                (Err(_), Some(_), None) => (),
            }
        }
    }
    ex.describe(|| format!("{} names from {} to {}", batch.len(), show(&batch[0]), show(&batch[batch.len() - 1])));
    Ok(())
}
