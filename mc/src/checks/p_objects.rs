//! P01 (headers), P02 (commits), P03 (trees), P04 (tags), P05 (signatures), P06 (no panics).
use super::gen;
use super::util::*;
use crate::alloc;
use crate::ensure;
use crate::explorer::*;
use crate::gitfmt::*;
use crate::repo::{self, Obs, Repo};
use rusty_git::object::ObjectDatabase;

struct Bench<'a, 'b> {
    ex: &'a Exec<'b>,
    r: Repo,
    db: ObjectDatabase,
    n: std::cell::Cell<u32>,
}

impl<'a, 'b> Bench<'a, 'b> {
    fn new(ex: &'a Exec<'b>) -> Self {
        let r = Repo::new(ex.fresh_dir());
        let db = r.db();
        Bench { ex, r, db, n: std::cell::Cell::new(0) }
    }

    /// What the library makes of the bytes of a loose object.
    fn raw(&self, bytes: &[u8], enc: u32) -> Result<(Obs, usize, usize), Violation> {
        let id = sha1(bytes);
        let file = match enc {
            0 => zlib_stored(bytes, 65535),
            1 => zlib(bytes, 1),
            2 => zlib_stored(bytes, 7),
            _ => zlib(bytes, 9),
        };
        self.r.put_loose_raw(&id, &file);
        self.n.set(self.n.get() + 1);
        self.ex.state(&(bytes, enc));
        self.ex.evals(1);
        let (got, mem) = alloc::peak(|| lib(self.ex, || guarded(|| repo::parse(&self.db, &id))));
        let _ = std::fs::remove_file(self.r.loose_path(&id));
        match got {
            Ok(o) => {
                self.ex.outcome(&(o.class(), if let Obs::Err(e) = &o { e.clone() } else { String::new() }));
                Ok((o, mem, file.len()))
            }
            Err(p) => fail("panic", format!("{}: panic: {}", show(bytes), p)),
        }
    }

    fn obj(&self, kind: Kind, content: &[u8]) -> Result<Obs, Violation> {
        Ok(self.raw(&framed(kind, content), self.n.get() % 2)?.0)
    }

    fn accepts(&self, kind: Kind, content: &[u8], want: &[u8]) -> Res {
        let got = self.obj(kind, content)?;
        match got {
            Obs::Obj(k, ref c) if k == kind && c == want => Ok(()),
            Obs::Obj(_, ref c) => fail(
                "fields",
                format!(
                    "{} {}: reported {:?}, expected {:?}",
                    kind.name(),
                    show(content),
                    String::from_utf8_lossy(c),
                    String::from_utf8_lossy(want)
                ),
            ),
            o => fail("rejected", format!("{} {}: rejected: {}", kind.name(), show(content), o.short())),
        }
    }

    fn rejects(&self, kind: Kind, content: &[u8], why: &str) -> Res {
        let got = self.obj(kind, content)?;
        ensure!(
            got.class() == "error",
            "accepted",
            "{} {}: accepted although {}: {:?}",
            kind.name(),
            show(content),
            why,
            got
        );
        Ok(())
    }
}

fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(400).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if b.len() > 400 {
        format!("\"{}...\" ({} bytes)", s, b.len())
    } else {
        format!("\"{}\"", s)
    }
}

fn put(v: &mut Vec<u8>, name: &str, b: &[u8]) {
    v.extend_from_slice(name.as_bytes());
    v.extend_from_slice(format!(" {} ", b.len()).as_bytes());
    v.extend_from_slice(b);
    v.push(b'\n');
}

// ---- P01 ----

/// What a header must be, decided digit by digit. None: not specified (leading zeroes).
fn ref_header(b: &[u8]) -> Option<Option<(Kind, usize)>> {
    let sp = match b.iter().position(|c| *c == b' ') {
        Some(p) => p,
        None => return Some(None),
    };
    let kind = match &b[..sp] {
        b"blob" => Kind::Blob,
        b"tree" => Kind::Tree,
        b"commit" => Kind::Commit,
        b"tag" => Kind::Tag,
        _ => return Some(None),
    };
    let rest = &b[sp + 1..];
    let nul = match rest.iter().position(|c| *c == 0) {
        Some(p) => p,
        None => return Some(None),
    };
    let digits = &rest[..nul];
    if digits.is_empty() || digits.iter().any(|c| !c.is_ascii_digit()) {
        return Some(None);
    }
    if digits.len() > 1 && digits[0] == b'0' {
        return None;
    }
    let mut n = 0u128;
    for d in digits {
        n = n * 10 + (*d - b'0') as u128;
        if n > u64::MAX as u128 {
            return Some(None);
        }
    }
    let at = sp + 1 + nul + 1;
    if n != (b.len() - at) as u128 {
        return Some(None);
    }
    Some(Some((kind, at)))
}

/// content a kind accepts, with the rendering
fn content(kind: Kind, n: usize) -> (Vec<u8>, Vec<u8>) {
    let o = gen::obj(kind, n, 2, n % 2 == 1);
    (o.content, o.rendered)
}

pub fn p01(ex: &Exec) -> Res {
    let b = Bench::new(ex);
    let judge = |bytes: &[u8], enc: u32, rendered: &[u8]| -> Res {
        let want = match ref_header(bytes) {
            Some(w) => w,
            None => return Ok(()),
        };
        let (got, mem, file) = b.raw(bytes, enc)?;
        match want {
            Some((k, _)) => {
                ensure!(
                    got == Obs::Obj(k, rendered.to_vec()),
                    "valid",
                    "{} (encoding {}): expected a {} of {} bytes, got {}",
                    show(bytes),
                    enc,
                    k.name(),
                    rendered.len(),
                    got.short()
                );
            }
            None => ensure!(
                got.class() == "error",
                "invalid",
                "{} (encoding {}): invalid, but gives {}",
                show(bytes),
                enc,
                got.short()
            ),
        }
        let bound = (16 << 20) + 2000 * file;
        ensure!(mem <= bound, "memory", "{}: {} bytes of memory for a file of {}", show(bytes), mem, file);
        Ok(())
    };
    match ex.choose(5) {
        // every declared length for every actual length
        0 => {
            let max = if ex.quick() { 48 } else { 160 };
            let n = ex.choose(max);
            let body = noise(n as u64 + 1, n);
            for d in 0..=max + 2 {
                let mut v = format!("blob {}\0", d).into_bytes();
                v.extend_from_slice(&body);
                judge(&v, (d % 3) as u32, &body)?;
            }
            ex.describe(|| format!("blobs of {} bytes with every declared length to {}", n, max + 2));
        }
        // sizes around buffers
        1 => {
            let sizes = [255usize, 256, 4095, 4096, 8191, 8192, 8193, 16384, 32768, 65535 - 28, 65536, 65537, 131071, 131072, 200_000, 262_144];
            let kind = *ex.pick(&[Kind::Blob, Kind::Tree, Kind::Commit, Kind::Tag]);
            let k = ex.choose(sizes.len());
            for delta in -12i64..=12 {
                let (c, r) = content(kind, (sizes[k] as i64 + delta) as usize);
                for d in [0i64, -1, 1, -13, 40, 65536, -65536, 1 << 32, 1 << 40] {
                    if ex.quick() && delta % 4 != 0 && d != 0 {
                        continue;
                    }
                    let mut v = format!("{} {}\0", kind.name(), c.len() as i64 + d).into_bytes();
                    v.extend_from_slice(&c);
                    judge(&v, if delta % 2 == 0 { 1 } else { 0 }, &r)?;
                }
            }
        }
        // header tokens
        2 => {
            let kinds: [&[u8]; 20] = [
                b"blob", b"tree", b"commit", b"tag", b"", b"blo", b"blobs", b"Blob", b"BLOB", b" blob", b"ofs-delta", b"ref-delta",
                b"\0blob", b"bl\0b", b"blob\n", b"com", b"commits", b"\xff", b"trees", b"ta",
            ];
            let kind = *ex.pick(&kinds);
            let seps: [&[u8]; 7] = [b" ", b"", b"  ", b"\t", b"\0", b"\n", b" +"];
            let sep = *ex.pick(&seps);
            let base = match kind {
                b"tree" | b"trees" => content(Kind::Tree, 40),
                b"commit" | b"commits" | b"com" => content(Kind::Commit, 200),
                b"tag" | b"ta" => content(Kind::Tag, 120),
                _ => content(Kind::Blob, 12),
            };
            for cut in [0usize, 1, 2] {
                let (body, rendered) = if cut == 0 { base.clone() } else { (base.0[cut..].to_vec(), base.0[cut..].to_vec()) };
                if cut > 0 && kind != b"blob" {
                    continue;
                }
                let n = body.len();
                let lens: Vec<Vec<u8>> = vec![
                    n.to_string().into_bytes(),
                    vec![],
                    b"0".to_vec(),
                    (n + 1).to_string().into_bytes(),
                    (n - 1).to_string().into_bytes(),
                    (n * 10).to_string().into_bytes(),
                    (n / 10).to_string().into_bytes(),
                    format!("-{}", n).into_bytes(),
                    format!("+{}", n).into_bytes(),
                    format!(" {}", n).into_bytes(),
                    format!("{} ", n).into_bytes(),
                    format!("{}\n", n).into_bytes(),
                    format!("\t{}", n).into_bytes(),
                    format!("{:x}h", n).into_bytes(),
                    format!("0x{:x}", n).into_bytes(),
                    format!("{}.0", n).into_bytes(),
                    format!("{}_0", n).into_bytes(),
                    format!("{}e0", n).into_bytes(),
                    format!("{},", n).into_bytes(),
                    b"\xff".to_vec(),
                    "\u{ff11}\u{ff12}".as_bytes().to_vec(),
                    "\u{661}".as_bytes().to_vec(),
                    b"blob".to_vec(),
                    ((1u128 << 31) + n as u128).to_string().into_bytes(),
                    ((1u128 << 32) + n as u128).to_string().into_bytes(),
                    ((1u128 << 63) + n as u128).to_string().into_bytes(),
                    ((1u128 << 63) - 1).to_string().into_bytes(),
                    ((1u128 << 64) - 1).to_string().into_bytes(),
                    (1u128 << 64).to_string().into_bytes(),
                    ((1u128 << 64) + n as u128).to_string().into_bytes(),
                    ((1u128 << 65) + n as u128).to_string().into_bytes(),
                    ((1u128 << 127) + n as u128).to_string().into_bytes(),
                    format!("1{}{}", "0".repeat(40), n).into_bytes(),
                ];
                for len in &lens {
                    for term in [&b"\0"[..], b"", b"\n", b" ", b"\0\0", b" \0"] {
                        let mut v = kind.to_vec();
                        v.extend_from_slice(sep);
                        v.extend_from_slice(len);
                        v.extend_from_slice(term);
                        v.extend_from_slice(&body);
                        // the extra NUL is the first byte of the content
                        let r = if term == b"\0\0" { [&[0][..], &body].concat() } else { rendered.clone() };
                        if kind != b"blob" && term == b"\0\0" {
                            continue;
                        }
                        judge(&v, 1, &r)?;
                    }
                }
            }
            ex.describe(|| format!("headers starting {} {}", show(kind), show(sep)));
        }
        // every way to cut a header
        3 => {
            let kind = *ex.pick(&[Kind::Blob, Kind::Tree, Kind::Commit, Kind::Tag]);
            let (c, r) = content(kind, 150);
            let f = framed(kind, &c);
            for n in 0..=f.len() {
                for enc in 0..3 {
                    judge(&f[..n], enc, &r)?;
                }
            }
            // and to change a byte of it
            let h = f.len() - c.len();
            for i in 0..h {
                for v in 0..=255u8 {
                    let mut g = f.clone();
                    g[i] = v;
                    if kind == Kind::Tag && i < 4 || g[i] == f[i] {
                        continue;
                    }
                    judge(&g, 1, &r)?;
                }
            }
        }
        // no header at all: short strings over the bytes that matter
        _ => {
            let alpha = b"btaglo 0123\0\xff+-";
            let n = if ex.quick() { 3 } else { 4 };
            let first = ex.choose(alpha.len());
            let mut idx = vec![0usize; n];
            idx[0] = first;
            loop {
                let v: Vec<u8> = idx.iter().map(|i| alpha[*i]).collect();
                judge(&v, 1, &[])?;
                let mut g = b"blob ".to_vec();
                g.extend_from_slice(&v);
                let want = match ref_header(&g) {
                    Some(Some((_, at))) => g[at..].to_vec(),
                    _ => vec![],
                };
                judge(&g, 0, &want)?;
                let mut k = n - 1;
                loop {
                    if k == 0 {
                        break;
                    }
                    idx[k] += 1;
                    if idx[k] < alpha.len() {
                        break;
                    }
                    idx[k] = 0;
                    k -= 1;
                }
                if k == 0 {
                    break;
                }
            }
        }
    }
    Ok(())
}

// ---- signatures ----

fn crud(c: u8) -> bool {
    c <= 32 || b".,:;<>\"\\'".contains(&c)
}

fn strip(b: &[u8]) -> &[u8] {
    let mut s = b;
    while !s.is_empty() && crud(s[0]) {
        s = &s[1..];
    }
    while !s.is_empty() && crud(s[s.len() - 1]) {
        s = &s[..s.len() - 1];
    }
    s
}

#[derive(Clone)]
struct Sig {
    name: Vec<u8>,
    email: Vec<u8>,
    time: Option<Vec<u8>>,
    zone: Option<Vec<u8>>,
}

impl Sig {
    fn new(name: &[u8], email: &[u8], time: Option<&[u8]>, zone: Option<&[u8]>) -> Sig {
        Sig { name: name.to_vec(), email: email.to_vec(), time: time.map(|t| t.to_vec()), zone: zone.map(|t| t.to_vec()) }
    }
    fn line(&self) -> Vec<u8> {
        let mut v = self.name.clone();
        v.extend_from_slice(b" <");
        v.extend_from_slice(&self.email);
        v.push(b'>');
        if let Some(t) = &self.time {
            v.push(b' ');
            v.extend_from_slice(t);
            if let Some(z) = &self.zone {
                v.push(b' ');
                v.extend_from_slice(z);
            }
        }
        v
    }
    fn render(&self, v: &mut Vec<u8>, what: &str) {
        put(v, what, strip(&self.name));
        put(v, "email", strip(&self.email));
        if let Some(t) = &self.time {
            put(v, "time", t);
            if let Some(z) = &self.zone {
                put(v, "zone", z);
            }
        }
    }
}

fn sigs() -> Vec<Sig> {
    vec![
        Sig::new(b"A U Thor", b"author@x.org", Some(b"1600000000"), Some(b"+0100")),
        Sig::new("J\u{e9}r\u{f4}me".as_bytes(), b"12+j@users.noreply.x", Some(b"0"), Some(b"-0230")),
        Sig::new(b"L\xe9o tree", b"", Some(b"99999999999"), Some(b"+0000")),
        Sig::new(b"", b"a@b", Some(b"1"), None),
        Sig::new(b"committer x", b"x y", None, None),
    ]
}

pub fn p05(ex: &Exec) -> Res {
    let b = Bench::new(ex);
    // one character of each class the rule distinguishes, and neighbours
    let alpha: Vec<&[u8]> = vec![
        b"a", b" ", b".", b",", b"\"", b"'", b"\\", b":", b";", b"0", b"2", b"3", b"-", b"+", b"/", b"!", b"#", b"(", b"\xc3\xa9", b"\xe9", b"\xff",
        b"\x01", b"\x1f", b"\t", b"@", b"*", b"\x7f", b"\xe6\x97\xa5", b"Z", b"=", b"?",
        // what Unicode takes for white space or nothing
        b"\xc2\xa0", b"\xe3\x80\x80", b"\xc2\x85", b"\xe2\x80\x8b",
    ];
    let check = |s: &Sig, where_: usize| -> Res {
        let d = Sig::new(b"D", b"d@d", Some(b"5"), Some(b"+0000"));
        match where_ {
            0 | 1 => {
                let (a, c) = if where_ == 0 { (s, &d) } else { (&d, s) };
                let mut v = format!("tree {}\nauthor ", "1".repeat(40)).into_bytes();
                v.extend(a.line());
                v.extend_from_slice(b"\ncommitter ");
                v.extend(c.line());
                v.extend_from_slice(b"\n\nm");
                let mut w = vec![];
                put(&mut w, "tree", "1".repeat(40).as_bytes());
                a.render(&mut w, "author");
                c.render(&mut w, "committer");
                put(&mut w, "message", b"m");
                b.accepts(Kind::Commit, &v, &w)
            }
            _ => {
                let mut v = format!("object {}\ntype blob\ntag t\ntagger ", "2".repeat(40)).into_bytes();
                v.extend(s.line());
                v.extend_from_slice(b"\n\nm");
                let mut w = vec![];
                put(&mut w, "object", "2".repeat(40).as_bytes());
                put(&mut w, "type", b"Blob");
                put(&mut w, "tag", b"t");
                s.render(&mut w, "tagger");
                put(&mut w, "message", b"m");
                b.accepts(Kind::Tag, &v, &w)
            }
        }
    };
    let t = Some(&b"1234567890"[..]);
    let z = Some(&b"+0100"[..]);
    match ex.choose(5) {
        // names of up to 3 (4) characters
        0 | 1 => {
            let email = ex.taken()[0].0 == 1;
            let first = ex.choose(alpha.len());
            let mut words: Vec<Vec<u8>> = vec![alpha[first].to_vec()];
            let depth = if ex.quick() { 3 } else { 4 };
            let mut level = words.clone();
            for _ in 1..depth {
                let mut next = vec![];
                for w in &level {
                    for a in &alpha {
                        next.push([&w[..], a].concat());
                    }
                }
                words.extend(next.iter().cloned());
                level = next;
            }
            for (i, w) in words.iter().enumerate() {
                let s = if email { Sig::new(b"N", w, t, z) } else { Sig::new(w, b"e@x", t, z) };
                check(&s, if ex.quick() { i % 3 } else { 0 })?;
            }
            ex.describe(|| format!("{} of up to {} characters starting with {}", if email { "emails" } else { "names" }, depth, show(alpha[first])));
        }
        // name and email together, long runs around them
        2 => {
            let l = *ex.pick(&alpha);
            let l2 = *ex.pick(&alpha);
            for core in [&b"x"[..], b"", b"Ab c", b"\xe9\xe9", b"1.2", b"O'Neil, \"J\" R"] {
                for n in [0usize, 1, 2, 17] {
                    let w = [&l.repeat(n)[..], core, &l2.repeat(n)].concat();
                    let u = [&l2.repeat(n)[..], core, &l.repeat(n)].concat();
                    check(&Sig::new(&w, &u, t, z), n % 3)?;
                    check(&Sig::new(&u, core, t, None), 2)?;
                    check(&Sig::new(core, &w, None, None), 0)?;
                }
            }
        }
        // time and zone
        3 => {
            let times: [Option<&[u8]>; 12] = [
                None, Some(b"0"), Some(b"1"), Some(b"00"), Some(b"1234567890"), Some(b"4294967296"), Some(b"9223372036854775807"),
                Some(b"18446744073709551615"), Some(b"99999999999999999999999999"), Some(b"0000000001"), Some(b"12"), Some(b"2147483648"),
            ];
            let zones: [Option<&[u8]>; 12] = [
                None, Some(b"+0000"), Some(b"-0000"), Some(b"+0100"), Some(b"-1130"), Some(b"+1400"), Some(b"+051800"), Some(b"-1"), Some(b"+9999"),
                Some(b"+100"), Some(b"-99999999"), Some(b"+0"),
            ];
            let tm = *ex.pick(&times);
            for zn in zones {
                if tm.is_none() && zn.is_some() {
                    continue;
                }
                for s in sigs() {
                    for w in 0..3 {
                        check(&Sig::new(&s.name, &s.email, tm, zn), w)?;
                    }
                }
            }
        }
        // every byte, everywhere, and long values
        _ => {
            let v = ex.choose(256) as u8;
            if v == b'\n' || v == b'<' || v == b'>' || v == 0 {
                return Ok(());
            }
            for (pre, post) in [(&b""[..], &b""[..]), (b"a", b""), (b"", b"a"), (b"a", b"b"), (b"\xe9", b"\xe9"), (b" ", b" "), (b"0", b"0")] {
                let w = [pre, &[v], post].concat();
                for k in 0..3 {
                    check(&Sig::new(&w, &w, t, z), k)?;
                }
                let long = w.repeat(500);
                check(&Sig::new(&long, &long, t, z), 0)?;
            }
        }
    }
    Ok(())
}

// ---- P02 ----

fn hexid(c: u8) -> Vec<u8> {
    hex(&sha1(&[c])).into_bytes()
}

/// (text, encoding it sets)
fn extras() -> Vec<(Vec<u8>, Option<&'static [u8]>)> {
    vec![
        (b"encoding ISO-8859-1\n".to_vec(), Some(b"ISO-8859-1")),
        (b"gpgsig -----BEGIN PGP SIGNATURE-----\n \n iQEz=\n -----END PGP SIGNATURE-----\n".to_vec(), None),
        (
            b"mergetag object 1234\n type commit\n tag v1\n tagger T <t@t> 1 +0000\n \n encoding fake\n tree x\n author y\n \n".to_vec(),
            None,
        ),
        (b"HG:extra rebase_source:abc\n".to_vec(), None),
        (b"encodings UTF-8\n".to_vec(), None),
        (b"x\n".to_vec(), None),
        (b"gpgsig-sha256 a\n encoding b\n".to_vec(), None),
        (b"header \xff\x00\xfe\n".to_vec(), None),
        (b"encoding  x \t\n".to_vec(), Some(b" x \t")),
        (b"encoding \xe9\xc2\xa0\n".to_vec(), Some(b"\xe9\xc2\xa0")),
        (b"encoding x\r\n".to_vec(), Some(b"x\r")),
    ]
}

fn messages() -> Vec<Vec<u8>> {
    vec![
        b"".to_vec(),
        b"\n".to_vec(),
        b"subject\n\nbody\n".to_vec(),
        b"no newline".to_vec(),
        b"\n\nlate".to_vec(),
        b"encoding x\nauthor y\n\ntree z".to_vec(),
        b"\x00bin\xff\xfe\n".to_vec(),
        b" indented\n".to_vec(),
    ]
}

pub fn p02(ex: &Exec) -> Res {
    let b = Bench::new(ex);
    let all = sigs();
    let exs = extras();
    let msgs = messages();
    let build = |parents: &[u8], au: &Sig, dup: usize, co: &Sig, xs: &[usize], m: &[u8]| -> (Vec<u8>, Vec<u8>, usize) {
        let mut v = b"tree ".to_vec();
        let mut w = vec![];
        v.extend(hexid(200));
        v.push(b'\n');
        put(&mut w, "tree", &hexid(200));
        for p in parents {
            v.extend_from_slice(b"parent ");
            v.extend(hexid(*p));
            v.push(b'\n');
            put(&mut w, "parent", &hexid(*p));
        }
        v.extend_from_slice(b"author ");
        v.extend(au.line());
        v.push(b'\n');
        au.render(&mut w, "author");
        for i in 0..dup {
            v.extend_from_slice(b"author ");
            v.extend(sigs()[i % 5].line());
            v.push(b'\n');
        }
        v.extend_from_slice(b"committer ");
        v.extend(co.line());
        v.push(b'\n');
        let mandatory = v.len();
        co.render(&mut w, "committer");
        for x in xs {
            v.extend_from_slice(&exs[*x].0);
            if let Some(e) = exs[*x].1 {
                put(&mut w, "encoding", e);
            }
        }
        v.push(b'\n');
        v.extend_from_slice(m);
        put(&mut w, "message", m);
        (v, w, mandatory)
    };
    match ex.choose(8) {
        // parents x signatures x repeated authors x messages
        0 => {
            let np = *ex.pick(&[0usize, 1, 2, 3, 4, 5, 8, 16, 17, 100]);
            let dup = ex.choose(3);
            let parents: Vec<u8> = (0..np).map(|i| (i / 2) as u8).collect();
            for au in &all {
                for co in &all {
                    for m in &msgs {
                        for xs in [&[][..], &[0], &[1, 0]] {
                            let (v, w, _) = build(&parents, au, dup, co, xs, m);
                            b.accepts(Kind::Commit, &v, &w)?;
                        }
                    }
                }
            }
            ex.describe(|| format!("commits with {} parents and {} extra author lines", np, dup));
        }
        // much of everything
        7 => {
            let np = *ex.pick(&[0usize, 3, 127, 128, 255, 256, 257, 1000, 4096, 65_535, 65_536, 70_000]);
            let dup = *ex.pick(&[0usize, 1, 300]);
            let nx = *ex.pick(&[0usize, 1, 255, 256, 3000]);
            let nm = *ex.pick(&[0usize, 1, 65_535, 65_536, 1 << 20]);
            let parents: Vec<u8> = (0..np).map(|i| (i % 251) as u8).collect();
            let plain: Vec<usize> = (0..exs.len()).filter(|x| exs[*x].1.is_none()).collect();
            let xs: Vec<usize> = (0..nx).map(|i| plain[i % plain.len()]).collect();
            let m: Vec<u8> = (0..nm).map(|i| [b'm', b'\n', b' ', 0xff, b'x'][i * i % 5]).collect();
            let (v, w, _) = build(&parents, &all[1], dup, &all[2], &xs, &m);
            b.accepts(Kind::Commit, &v, &w)?;
            ex.describe(|| format!("{} parents, {} extra author lines, {} other headers, message of {} bytes", np, dup, nx, nm));
        }
        // sequences of extra headers
        1 => {
            let n = ex.choose(if ex.quick() { 4 } else { 5 });
            let mut xs = vec![];
            for _ in 0..n {
                let x = ex.choose(exs.len());
                if exs[x].1.is_some() && xs.iter().any(|y: &usize| exs[*y].1.is_some()) {
                    // git writes one encoding
                    return Ok(());
                }
                xs.push(x);
            }
            for m in &msgs {
                for np in [0u8, 2] {
                    let (v, w, _) = build(&(0..np).collect::<Vec<u8>>(), &all[0], 0, &all[1], &xs, m);
                    b.accepts(Kind::Commit, &v, &w)?;
                }
            }
            ex.describe(|| format!("extra headers {:?}", xs));
        }
        // large messages and headers
        2 => {
            let n = *ex.pick(&[100usize, 8150, 8192, 65400, 65536, 70_000, 300_000]);
            for noisy in [false, true] {
                for d in 0..5 {
                    let m = if noisy { noise(7, n + d) } else { b"line\n".repeat((n + d) / 5) };
                    let (v, w, _) = build(&[1], &all[0], 0, &all[1], &[1], &m);
                    b.accepts(Kind::Commit, &v, &w)?;
                }
            }
        }
        // truncation before the end of the mandatory lines
        3 => {
            let np = ex.choose(3);
            let k = ex.choose(all.len());
            let (v, _, mandatory) = build(&vec![1; np], &all[k], ex.choose(2), &all[(k + 1) % all.len()], &[0], b"m\n");
            for n in 0..mandatory {
                b.rejects(Kind::Commit, &v[..n], &format!("it ends at byte {} of {}", n, mandatory))?;
            }
        }
        // lines dropped or swapped
        4 => {
            let lines: Vec<Vec<u8>> = vec![
                [&b"tree "[..], &hexid(1)].concat(),
                [&b"parent "[..], &hexid(2)].concat(),
                [&b"author "[..], &all[0].line()].concat(),
                [&b"committer "[..], &all[1].line()].concat(),
            ];
            // any sequence of up to 4 (5) of the lines; valid are tree parent* author+ committer (then anything)
            let n = ex.choose(if ex.quick() { 6 } else { 7 });
            let mut seq = vec![];
            for _ in 0..n {
                seq.push(ex.choose(4));
            }
            let ok = {
                let mut i = 0;
                let mut good = seq.first() == Some(&0);
                i += 1;
                while seq.get(i) == Some(&1) {
                    i += 1
                }
                let a = i;
                while seq.get(i) == Some(&2) {
                    i += 1
                }
                good &= i > a;
                good &= seq.get(i) == Some(&3);
                if good {
                    Some(i)
                } else {
                    None
                }
            };
            let mut v = vec![];
            for s in &seq {
                v.extend_from_slice(&lines[*s]);
                v.push(b'\n');
            }
            v.extend_from_slice(b"\nm");
            match ok {
                None => b.rejects(Kind::Commit, &v, &format!("its lines are {:?}", seq))?,
                // lines after the committer are not specified unless there are none
                Some(i) if i + 1 == seq.len() => {
                    let mut w = vec![];
                    put(&mut w, "tree", &hexid(1));
                    for _ in 0..seq.iter().filter(|s| **s == 1).count() {
                        put(&mut w, "parent", &hexid(2));
                    }
                    all[0].render(&mut w, "author");
                    all[1].render(&mut w, "committer");
                    put(&mut w, "message", b"m");
                    b.accepts(Kind::Commit, &v, &w)?
                }
                _ => {}
            }
        }
        // malformed lines
        5 => {
            let id = hexid(9);
            let badids: Vec<Vec<u8>> = vec![
                vec![],
                id[..39].to_vec(),
                id[..38].to_vec(),
                [&id[..], b"0"].concat(),
                [&id[..], b"00"].concat(),
                [&id[..39], b"g"].concat(),
                [&b"g"[..], &id[1..]].concat(),
                [&id[..20], b" ", &id[21..]].concat(),
                [&b" "[..], &id].concat(),
                [&id[..], b" "].concat(),
                [&id[..], b"\r"].concat(),
                [&id[..39], b"\xff"].concat(),
                [&id[..39], b"\0"].concat(),
                [&b"0x"[..], &id[..38]].concat(),
                [&b"+"[..], &id[..39]].concat(),
            ];
            let k = ex.choose(badids.len());
            let bad = &badids[k];
            for which in 0..2 {
                for np in 0..3usize {
                    for at in 0..np.max(1) {
                        if which == 1 && np == 0 {
                            continue;
                        }
                        let mut v = b"tree ".to_vec();
                        v.extend_from_slice(if which == 0 { bad } else { &id });
                        v.push(b'\n');
                        for p in 0..np {
                            v.extend_from_slice(b"parent ");
                            v.extend_from_slice(if which == 1 && p == at { bad } else { &id });
                            v.push(b'\n');
                        }
                        v.extend_from_slice(b"author A <a> 1 +0000\ncommitter A <a> 1 +0000\n\nm");
                        b.rejects(Kind::Commit, &v, &format!("an id is {}", show(bad)))?;
                    }
                }
            }
            // prefixes
            for (good, bads) in [
                (&b"tree "[..], [&b"tree"[..], b"Tree ", b" tree ", b"tree\t", b"", b"trees "]),
                (b"author ", [b"author", b"Author ", b" author ", b"author\t", b"", b"authors "]),
                (b"committer ", [b"committer", b"Committer ", b" committer ", b"committer\t", b"", b"committers "]),
            ] {
                for bad in bads {
                    let mut v = vec![];
                    for (p, rest) in [(&b"tree "[..], &id[..]), (b"author ", b"A <a> 1 +0000"), (b"committer ", b"A <a> 1 +0000")] {
                        v.extend_from_slice(if p == good { bad } else { p });
                        v.extend_from_slice(rest);
                        v.push(b'\n');
                    }
                    v.extend_from_slice(b"\nm");
                    b.rejects(Kind::Commit, &v, &format!("a line starts with {} instead of {}", show(bad), show(good)))?;
                }
            }
            // signatures without delimiters
            for bad in [&b""[..], b"A", b"A a@b 1 +0000", b"A <a 1 +0000", b"A a> 1 +0000", b" ", b"1 +0000", b"<", b">", b"A <"] {
                for which in 0..2 {
                    let g = b"A <a> 1 +0000";
                    let mut v = [&b"tree "[..], &id, b"\nauthor "].concat();
                    v.extend_from_slice(if which == 0 { bad } else { g });
                    v.extend_from_slice(b"\ncommitter ");
                    v.extend_from_slice(if which == 1 { bad } else { g });
                    v.extend_from_slice(b"\n\nm");
                    b.rejects(Kind::Commit, &v, &format!("a signature is {}", show(bad)))?;
                }
            }
        }
        // the reference agrees with git on valid commits
        _ => {
            if !repo::git_ok() || ex.quick() && ex.flag() {
                return Ok(());
            }
            git_agrees(&b, &build)?;
        }
    }
    Ok(())
}

fn git_agrees(
    b: &Bench,
    build: &dyn Fn(&[u8], &Sig, usize, &Sig, &[usize], &[u8]) -> (Vec<u8>, Vec<u8>, usize),
) -> Res {
    let r = &b.r;
    let empty = r.put_loose(Kind::Tree, b"");
    let _ = empty;
    let mut ids = vec![];
    let mut wants: Vec<Vec<u8>> = vec![];
    let msgs = messages();
    for (k, s) in sigs().iter().enumerate() {
        if s.time.is_none() || s.zone.is_none() {
            continue;
        }
        for xs in [&[][..], &[0], &[1, 2, 3], &[1, 0]] {
            if xs.contains(&0) && !s.name.is_ascii() {
                // git converts these for display
                continue;
            }
            for m in [1usize, 2, 3, 5] {
                let (v, w, _) = build(&[], s, 0, &sigs()[(k + 1) % 3], xs, &msgs[m]);
                b.accepts(Kind::Commit, &v, &w)?;
                let o = r.put_loose(Kind::Commit, &v);
                ids.push(hex(&o));
                let mut want = vec![];
                put(&mut want, "author", &s.name);
                put(&mut want, "email", &s.email);
                put(&mut want, "time", s.time.as_ref().unwrap());
                put(&mut want, "encoding", if xs.contains(&0) { b"ISO-8859-1" } else { b"" });
                wants.push(want);
            }
        }
    }
    let stdin = ids.join("\n") + "\n";
    let out = quiet_git(r, &["log", "--no-walk=unsorted", "--stdin", "-z", "--encoding=none", "--format=%an%x01%ae%x01%at%x01%e%x02"], stdin.as_bytes());
    let out = match out {
        Ok(o) => o,
        Err(e) => return fail("harness", format!("git log: {}", e)),
    };
    let recs: Vec<&[u8]> = out.split(|c| *c == 2).collect();
    ensure!(recs.len() == ids.len() + 1, "harness", "git shows {} of {} commits", recs.len() - 1, ids.len());
    for (i, want) in wants.iter().enumerate() {
        let mut rec = recs[i];
        while !rec.is_empty() && (rec[0] == b'\n' || rec[0] == 0) {
            rec = &rec[1..];
        }
        let f: Vec<&[u8]> = rec.split(|c| *c == 1).collect();
        let mut got = vec![];
        put(&mut got, "author", f[0]);
        put(&mut got, "email", f[1]);
        put(&mut got, "time", f[2]);
        put(&mut got, "encoding", f[3]);
        ensure!(
            &got == want,
            "harness",
            "git reads {} as {:?}, expected {:?}",
            ids[i],
            String::from_utf8_lossy(&got),
            String::from_utf8_lossy(want)
        );
    }
    Ok(())
}

fn quiet_git(r: &Repo, args: &[&str], stdin: &[u8]) -> Result<Vec<u8>, String> {
    crate::interpose::quiet(|| repo::git(r, args, stdin))
}

// ---- P03 ----

pub fn p03(ex: &Exec) -> Res {
    let b = Bench::new(ex);
    let modes: [(&[u8], u16); 14] = [
        (b"100644", 0o100644),
        (b"100755", 0o100755),
        (b"40000", 0o40000),
        (b"120000", 0o120000),
        (b"160000", 0o160000),
        (b"040000", 0o40000),
        (b"100664", 0o100664),
        (b"0", 0),
        (b"7", 7),
        (b"177777", 0o177777),
        (b"100000", 0o100000),
        (b"77777", 0o77777),
        (b"000100644", 0o100644),
        (b"20", 0o20),
    ];
    let names: Vec<Vec<u8>> = vec![
        b"a".to_vec(),
        b"file.txt".to_vec(),
        b" lead".to_vec(),
        b"with space".to_vec(),
        b"100644 x".to_vec(),
        b"\xff\xfe".to_vec(),
        b"line\nbreak".to_vec(),
        "\u{65e5}\u{672c}".as_bytes().to_vec(),
        vec![b'n'; 300],
        b".".to_vec(),
        b"\x01".to_vec(),
        b"a ".to_vec(),
    ];
    let ids: Vec<Oid> = vec![
        sha1(b"x"),
        [0; 20],
        [0xff; 20],
        [b' '; 20],
        *b"100644 a\0100644 b\0aa",
        {
            let mut i = sha1(b"y");
            i[19] = 0;
            i
        },
    ];
    let enc = |es: &[(usize, usize, usize)]| -> (Vec<u8>, Vec<u8>, Vec<usize>) {
        let (mut v, mut w, mut ends) = (vec![], vec![], vec![0]);
        for (m, n, i) in es {
            v.extend_from_slice(modes[*m].0);
            v.push(b' ');
            v.extend_from_slice(&names[*n]);
            v.push(0);
            v.extend_from_slice(&ids[*i]);
            put(&mut w, &format!("{:o}", modes[*m].1), &names[*n]);
            put(&mut w, "id", hex(&ids[*i]).as_bytes());
            ends.push(v.len());
        }
        (v, w, ends)
    };
    match ex.choose(6) {
        // every entry
        0 => {
            let m = ex.choose(modes.len());
            for n in 0..names.len() {
                for i in 0..ids.len() {
                    let (v, w, _) = enc(&[(m, n, i)]);
                    b.accepts(Kind::Tree, &v, &w)?;
                    // among others
                    for (m2, n2, i2) in [(0, 0, 0), (2, 3, 4), (9, 5, 1), (7, 10, 2)] {
                        let (v, w, _) = enc(&[(m2, n2, i2), (m, n, i)]);
                        b.accepts(Kind::Tree, &v, &w)?;
                        let (v, w, _) = enc(&[(m, n, i), (m2, n2, i2), (m, n, i)]);
                        b.accepts(Kind::Tree, &v, &w)?;
                    }
                }
            }
            ex.describe(|| format!("entries of mode {}", show(modes[m].0)));
        }
        // every number of entries
        1 => {
            let mut sizes: Vec<usize> = (0..=40).collect();
            sizes.extend([63, 64, 65, 127, 128, 129, 139, 140, 141, 255, 256, 257, 1000, 5000, 20_000, 65_535, 65_536, 65_537, 100_000]);
            let n = *ex.pick(&sizes);
            for k in 0..4usize {
                let es: Vec<(usize, usize, usize)> =
                    (0..n).map(|i| ((i * k) % modes.len(), (i * (k + 1)) % if k == 3 { names.len() } else { 8 }, (i + k) % ids.len())).collect();
                let (v, w, _) = enc(&es);
                b.accepts(Kind::Tree, &v, &w)?;
            }
            // names that go through every byte at every place, of many lengths
            for k in 0..3usize {
                let (mut v, mut w) = (vec![], vec![]);
                for i in 0..n {
                    let m = &modes[(i * (2 * k + 1)) % modes.len()];
                    let id = sha1(&(i as u32 * 3 + k as u32).to_be_bytes());
                    let c = (i % 255 + 1) as u8;
                    let name = match k {
                        0 => [&[c][..], format!("n{}", i).as_bytes()].concat(),
                        1 => [format!("{}", i / 3).as_bytes(), &[c, c], b".x"].concat(),
                        _ => vec![c; i % 41 + 1],
                    };
                    v.extend_from_slice(m.0);
                    v.push(b' ');
                    v.extend_from_slice(&name);
                    v.push(0);
                    v.extend_from_slice(&id);
                    put(&mut w, &format!("{:o}", m.1), &name);
                    put(&mut w, "id", hex(&id).as_bytes());
                }
                b.accepts(Kind::Tree, &v, &w)?;
            }
        }
        // truncation
        2 => {
            let m = ex.choose(modes.len());
            for n in 0..names.len() {
                let i = (n + m) % ids.len();
                let (v, _, ends) = enc(&[(0, 0, 0), (m, n, i), (2, 1, 3)]);
                for cut in 0..v.len() {
                    if ends.contains(&cut) {
                        continue;
                    }
                    b.rejects(Kind::Tree, &v[..cut], &format!("it ends at byte {} of {}", cut, v.len()))?;
                }
            }
        }
        // modes
        3 => {
            let bad: [&[u8]; 29] = [
                b"", b"8", b"100648", b"9", b"a", b"-1", b"+100644", b"+0", b"-0", b"0o100644", b"0x81a4", b"200000", b"777777", b"1000000",
                b"177778", b"37777777777", b"40000000000", b"2000000000000000000000", b"2000000000000000000100644", b"1 00644", b" 100644",
                b"\t100644", b"100644\n", b"100\xff44", b"100,644", b"100_644", "\u{ff11}".as_bytes(), b"1e5", b"100.644",
            ];
            let x = *ex.pick(&bad);
            for before in 0..3usize {
                let (mut v, _, _) = enc(&[(0, 0, 0), (2, 1, 1)][..before.min(2)]);
                v.extend_from_slice(x);
                v.extend_from_slice(b" name\0");
                v.extend_from_slice(&ids[0]);
                if before == 2 {
                    v.extend(enc(&[(1, 2, 2)]).0);
                }
                // a mode of digits before a space makes another valid entry
                if x == b"1 00644" {
                    continue;
                }
                b.rejects(Kind::Tree, &v, &format!("a mode is {}", show(x)))?;
            }
            // every 16 bit mode
            for v in 0..0x10000u32 {
                if !ex.quick() || v % 61 == 0 || v & (v + 1) == 0 || v.count_ones() == 1 {
                    let mut c = format!("{:o} n\0", v).into_bytes();
                    c.extend_from_slice(&ids[0]);
                    let mut w = vec![];
                    put(&mut w, &format!("{:o}", v), b"n");
                    put(&mut w, "id", hex(&ids[0]).as_bytes());
                    if x == bad[0] {
                        b.accepts(Kind::Tree, &c, &w)?;
                    }
                }
            }
        }
        // separators
        4 => {
            let sep = *ex.pick(&[&b""[..], b"\0", b"\t", b"\n", b"\xa0"]);
            let mut v = b"100644".to_vec();
            v.extend_from_slice(sep);
            v.extend_from_slice(b"name\0");
            v.extend_from_slice(&ids[0]);
            b.rejects(Kind::Tree, &v, "the separator after the mode is missing")?;
            let (mut u, _, _) = enc(&[(0, 1, 0), (2, 0, 2)]);
            u.extend_from_slice(&v);
            b.rejects(Kind::Tree, &u, "the separator after the mode is missing")?;
            // no NUL anywhere after the name
            for id in [[0x11u8; 20], [0xff; 20], [b' '; 20]] {
                let mut v = b"100644 name".to_vec();
                v.extend_from_slice(sep.strip_prefix(b"\0").unwrap_or(sep));
                v.extend_from_slice(&id);
                b.rejects(Kind::Tree, &v, "the NUL after the name is missing")?;
                let (mut u, _, _) = enc(&[(0, 1, 0), (2, 0, 2)]);
                u.extend_from_slice(&v);
                b.rejects(Kind::Tree, &u, "the NUL after the name is missing")?;
            }
        }
        // sequences of entries
        _ => {
            let n = 2 + ex.choose(if ex.quick() { 2 } else { 3 });
            let kinds = [(0usize, 0usize, 0usize), (2, 2, 1), (3, 4, 4), (4, 5, 3), (7, 11, 5), (1, 8, 2)];
            let es: Vec<_> = (0..n).map(|_| kinds[ex.choose(6)]).collect();
            let (v, w, _) = enc(&es);
            b.accepts(Kind::Tree, &v, &w)?;
        }
    }
    Ok(())
}

// ---- P04 ----

pub fn p04(ex: &Exec) -> Res {
    let b = Bench::new(ex);
    let all = sigs();
    let msgs = messages();
    let kinds: [(&[u8], &[u8]); 4] = [(b"commit", b"Commit"), (b"tree", b"Tree"), (b"blob", b"Blob"), (b"tag", b"Tag")];
    let tags: Vec<Vec<u8>> = vec![
        b"v1.0".to_vec(),
        b"a".to_vec(),
        b"with space".to_vec(),
        b"\xff\xe9".to_vec(),
        b"tagger x".to_vec(),
        b"refs/tags/x".to_vec(),
        vec![b'n'; 3000],
        vec![b'n'; 70_000],
        b"trail ".to_vec(),
        b"trail\r".to_vec(),
        b"\tx".to_vec(),
        b"".to_vec(),
    ];
    let build = |k: usize, t: usize, s: Option<&Sig>, xs: &[&[u8]], m: Option<&[u8]>| -> (Vec<u8>, Vec<u8>, usize) {
        let mut v = b"object ".to_vec();
        let mut w = vec![];
        v.extend(hexid(7));
        put(&mut w, "object", &hexid(7));
        v.extend_from_slice(b"\ntype ");
        v.extend_from_slice(kinds[k].0);
        put(&mut w, "type", kinds[k].1);
        v.extend_from_slice(b"\ntag ");
        v.extend_from_slice(&tags[t]);
        put(&mut w, "tag", &tags[t]);
        v.push(b'\n');
        let mut mandatory = v.len();
        if let Some(s) = s {
            v.extend_from_slice(b"tagger ");
            v.extend(s.line());
            v.push(b'\n');
            s.render(&mut w, "tagger");
            mandatory = v.len();
        }
        for x in xs {
            v.extend_from_slice(x);
        }
        if let Some(m) = m {
            v.push(b'\n');
            v.extend_from_slice(m);
            put(&mut w, "message", m);
        }
        (v, w, mandatory)
    };
    match ex.choose(7) {
        0 => {
            let k = ex.choose(4);
            let t = ex.choose(tags.len());
            for s in all.iter().map(Some).chain(std::iter::once(None)) {
                for m in msgs.iter().map(|m| Some(&m[..])).chain(std::iter::once(None)) {
                    let (v, w, _) = build(k, t, s, &[], m);
                    b.accepts(Kind::Tag, &v, &w)?;
                }
            }
            ex.describe(|| format!("tags of kind {} named {}", show(kinds[k].0), show(&tags[t])));
        }
        // large messages and headers
        6 => {
            let n = *ex.pick(&[100usize, 8150, 8192, 32_768, 65_400, 65_536, 70_000, 300_000]);
            let noisy = ex.flag();
            for d in 0..5 {
                let m = if noisy { noise(7, n + d) } else { b"line\n".repeat((n + d) / 5) };
                let long = [&b"gpgsig-sha256 "[..], &b"-".repeat(n + d), b"\n"].concat();
                let lines = b"gpgsig-sha256 a\n".repeat((n + d) / 16);
                for xs in [&[][..], &[&long[..]], &[&lines[..]], &[&b"x\n"[..], &long, b"y\n"]] {
                    for s in [Some(&all[0]), None] {
                        let (v, w, _) = build(1, 0, s, xs, Some(&m));
                        b.accepts(Kind::Tag, &v, &w)?;
                    }
                }
            }
            ex.describe(|| format!("tags with headers and messages of {} bytes", n));
        }
        // headers git may add (signatures in other formats)
        1 => {
            let xs: [&[u8]; 4] = [
                b"gpgsig-sha256 -----BEGIN PGP SIGNATURE-----\n \n abc=\n -----END PGP SIGNATURE-----\n",
                b"foo bar\n",
                b"x\n",
                b"gpgsig a\n tagger b\n",
            ];
            let n = 1 + ex.choose(2);
            let seq: Vec<&[u8]> = (0..n).map(|_| *ex.pick(&xs)).collect();
            for m in &msgs {
                for s in [Some(&all[0]), None] {
                    let (v, w, _) = build(0, 0, s, &seq, Some(m));
                    b.accepts(Kind::Tag, &v, &w)?;
                }
            }
        }
        // truncation inside the mandatory lines
        2 => {
            let k = ex.choose(4);
            let s = ex.choose(all.len() + 1);
            for t in [0usize, 2, 3] {
                let (v, _, mandatory) = build(k, t, all.get(s), &[], Some(b"m"));
                let tag_end = build(k, t, None, &[], None).0.len();
                for n in 0..mandatory {
                    // without the tagger line the tag is complete; a cut prefix is some other header
                    let in_tagger = n >= tag_end && n < tag_end + 7;
                    if in_tagger {
                        continue;
                    }
                    b.rejects(Kind::Tag, &v[..n], &format!("it ends at byte {} of {}", n, mandatory))?;
                }
            }
        }
        // sequences of lines: valid are object type tag [tagger]
        3 => {
            let lines: Vec<Vec<u8>> = vec![
                [&b"object "[..], &hexid(1)].concat(),
                b"type blob".to_vec(),
                b"tag t".to_vec(),
                [&b"tagger "[..], &all[0].line()].concat(),
            ];
            let n = ex.choose(if ex.quick() { 5 } else { 6 });
            let mut seq = vec![];
            for _ in 0..n {
                seq.push(ex.choose(4));
            }
            let mut v = vec![];
            for s in &seq {
                v.extend_from_slice(&lines[*s]);
                v.push(b'\n');
            }
            v.extend_from_slice(b"\nm");
            let ok = seq.starts_with(&[0, 1, 2]);
            if !ok {
                b.rejects(Kind::Tag, &v, &format!("its lines are {:?}", seq))?;
            } else if seq.len() == 3 || seq[3..] == [3] {
                let mut w = vec![];
                put(&mut w, "object", &hexid(1));
                put(&mut w, "type", b"Blob");
                put(&mut w, "tag", b"t");
                if seq.len() == 4 {
                    all[0].render(&mut w, "tagger");
                }
                put(&mut w, "message", b"m");
                b.accepts(Kind::Tag, &v, &w)?;
            }
        }
        // malformed lines
        4 => {
            let id = hexid(9);
            let rest = |k: &[u8]| [&b"\ntype "[..], k, b"\ntag t\ntagger A <a> 1 +0000\n\nm"].concat();
            match ex.choose(3) {
                0 => {
                    for bad in [
                        &b""[..],
                        &id[..39],
                        &[&id[..], b"0"].concat(),
                        &[&id[..39], b"g"].concat(),
                        &[&b" "[..], &id].concat(),
                        &[&id[..], b" "].concat(),
                        &[&id[..], b"\r"].concat(),
                        &[&id[..39], b"\xff"].concat(),
                        &[&id[..20], b"\n", &id[21..]].concat(),
                    ] {
                        let v = [&b"object "[..], bad, &rest(b"blob")].concat();
                        b.rejects(Kind::Tag, &v, &format!("the id is {}", show(bad)))?;
                    }
                }
                1 => {
                    for bad in [
                        &b""[..], b"Commit", b"commits", b"comm", b"ofs-delta", b"ref-delta", b" commit", b"commit ", b"blob\r", b"\xff", b"object",
                        b"none", b"bad", b"TREE", b"commit\0", b"blo", b"tre", b"ta",
                    ] {
                        let v = [&b"object "[..], &id, &rest(bad)].concat();
                        b.rejects(Kind::Tag, &v, &format!("the kind is {}", show(bad)))?;
                    }
                }
                _ => {
                    for which in 0..3 {
                        for bad in 0..6 {
                            let mut v = vec![];
                            for (i, (p, r)) in [(&b"object"[..], &id[..]), (b"type", b"blob"), (b"tag", b"t")].iter().enumerate() {
                                let mut up = p.to_vec();
                                up[0] -= 32;
                                let pre = match (i == which, bad) {
                                    (false, _) => [p, &b" "[..]].concat(),
                                    (_, 0) => p.to_vec(),
                                    (_, 1) => [&up[..], b" "].concat(),
                                    (_, 2) => [&b" "[..], p, b" "].concat(),
                                    (_, 3) => [p, &b"\t"[..]].concat(),
                                    (_, 4) => vec![],
                                    _ => [p, &b"s "[..]].concat(),
                                };
                                v.extend_from_slice(&pre);
                                v.extend_from_slice(r);
                                v.push(b'\n');
                            }
                            v.extend_from_slice(b"tagger A <a> 1 +0000\n\nm");
                            b.rejects(Kind::Tag, &v, &format!("line {} has a bad prefix ({})", which, bad))?;
                        }
                    }
                }
            }
        }
        _ => {
            let n = *ex.pick(&[100usize, 8150, 8192, 65400, 65536, 70_000, 300_000]);
            for noisy in [false, true] {
                for d in 0..5 {
                    let m = if noisy { noise(7, n + d) } else { b"line\n".repeat((n + d) / 5) };
                    let (v, w, _) = build(d % 4, 0, all.get(d), &[], Some(&m));
                    b.accepts(Kind::Tag, &v, &w)?;
                }
            }
        }
    }
    Ok(())
}

// ---- P06 ----

fn poke(b: &Bench, file_bytes: &[u8]) -> Res {
    // `raw` renders through every accessor
    b.raw(file_bytes, 1)?;
    // and prints
    let id = sha1(file_bytes);
    b.r.put_loose_raw(&id, &zlib(file_bytes, 1));
    let got = lib(b.ex, || {
        guarded(|| match b.db.parse_object(repo::id(&id)) {
            Ok(o) => format!("{:?} {:#?}", o, o).len(),
            Err(e) => format!("{} {:?} {}", e, e, repo::err_text(&e)).len(),
        })
    });
    let _ = std::fs::remove_file(b.r.loose_path(&id));
    match got {
        Ok(n) => {
            ensure!(n < 1_000_000 + 200 * file_bytes.len(), "runaway", "{}: prints {} bytes", show(file_bytes), n);
            Ok(())
        }
        Err(p) => fail("panic", format!("{}: printing panics: {}", show(file_bytes), p)),
    }
}

/// one piece of an object or a reference repeated to millions of bytes, at every place of it
fn vast(ex: &Exec) -> Res {
    let id = hexid(3);
    let parent = [&b"parent "[..], &id, b"\n"].concat();
    let unit = *ex.pick(&[
        &b"\n"[..], b" ", b"<", b">", b"a", b"\0", b"a\n", b" a\n", &parent, b"gpgsig x\n y\n", b"author A <a> 1 +0000\n", b"a <b> ", b"1 ",
        b"\xff", b"\xd9\xa1", b"100644 a\0aaaaaaaaaaaaaaaaaaaa", b"encoding x\n", b"-", b". ", b"\r\n", b"# \n", b"../", b"refs/",
    ]);
    let size = if ex.quick() { 1 << 20 } else { 1 << 24 };
    let filler = unit.repeat(size / unit.len());
    let what = ex.choose(4);
    let pieces: Vec<Vec<u8>> = match what {
        0 => [
            &b"tree "[..], &id, b"\n", &parent, b"author ", b"A", b" <", b"a", b"> ", b"1", b" +0000", b"\n", b"committer A <a> 1 +0000\n", b"encoding ",
            b"x\n", b"\n", b"m",
        ]
        .iter()
        .map(|p| p.to_vec())
        .collect(),
        1 => [&b"object "[..], &id, b"\n", b"type ", b"commit", b"\ntag ", b"v1", b"\ntagger ", b"A", b" <", b"a", b"> ", b"1", b" +0000", b"\n", b"\n", b"m"]
            .iter()
            .map(|p| p.to_vec())
            .collect(),
        2 => [&b"100644"[..], b" ", b"name", b"\0aaaaaaaaaaaaaaaaaaaa", b"40000 d\0aaaaaaaaaaaaaaaaaaaa"].iter().map(|p| p.to_vec()).collect(),
        _ => [&b"# c\n"[..], b"ref:", b" ", b"refs/heads/", b"a", b"\n"].iter().map(|p| p.to_vec()).collect(),
    };
    let at = ex.choose(pieces.len() + 1);
    let instead = ex.flag();
    if instead && at == pieces.len() {
        ex.prune();
    }
    let mut c = pieces[..at].concat();
    c.extend_from_slice(&filler);
    c.extend(pieces[at + instead as usize..].concat());
    ex.describe(|| format!("{} x {} at place {} of {}", filler.len() / unit.len(), show(unit), at, ["a commit", "a tag", "a tree", "a reference"][what]));
    if what == 3 {
        return poke_ref(ex, &Repo::new(ex.fresh_dir()), &c);
    }
    poke(&Bench::new(ex), &framed([Kind::Commit, Kind::Tag, Kind::Tree][what], &c))
}

pub fn p06(ex: &Exec) -> Res {
    match ex.choose(6) {
        5 => return vast(ex),
        // sequences of tokens as the content of each kind
        0 => {
            let b = Bench::new(ex);
            let kind = *ex.pick(&[Kind::Commit, Kind::Tag, Kind::Tree, Kind::Blob]);
            let id = hexid(3);
            let tid = sha1(b"t");
            let toks: Vec<Vec<u8>> = match kind {
                Kind::Commit => [
                    &[&b"tree "[..], &id, b"\n"].concat()[..],
                    &[&b"parent "[..], &id, b"\n"].concat(),
                    b"author A <a> 1 +0000\n",
                    b"committer A <a> 1 +0000\n",
                    b"encoding x\n",
                    b"encoding ",
                    b"\n",
                    b"author ",
                    b"committer <>\n",
                    b"committer \xff <\xff> \xd9\xa1 +\xd9\xa1\n",
                    b" ",
                    b"\0",
                    b"author < <> > <x>\n",
                    b"author  <\n",
                ]
                .iter()
                .map(|t| t.to_vec())
                .collect(),
                Kind::Tag => [
                    &[&b"object "[..], &id, b"\n"].concat()[..],
                    b"type commit\n",
                    b"type ",
                    b"tag t\n",
                    b"tag ",
                    b"tagger A <a> 1 +0000\n",
                    b"tagger ",
                    b"tagger <>\n",
                    b"\n",
                    b"\0",
                    b"\xff",
                    b"tagger \xff <\xff> 1 -\xd9\xa1\n",
                ]
                .iter()
                .map(|t| t.to_vec())
                .collect(),
                _ => [
                    &b"100644 "[..],
                    b"40000 a\0",
                    b"\0",
                    b" ",
                    &tid,
                    &tid[..19],
                    b"7777777777 ",
                    b"name\0",
                    b"\xff",
                    b"\n",
                ]
                .iter()
                .map(|t| t.to_vec())
                .collect(),
            };
            let depth = if ex.quick() { 4 } else { 5 };
            let t0 = ex.choose(toks.len());
            let t1 = ex.choose(toks.len());
            let mut stack: Vec<Vec<u8>> = vec![toks[t0].clone(), [&toks[t0][..], &toks[t1]].concat()];
            // all continuations of the first two tokens; prefixes of commits are extended to valid ones too
            let lead = if kind == Kind::Commit { Some([&toks[0][..], &toks[2]].concat()) } else { None };
            let mut level = vec![stack[1].clone()];
            for _ in 2..depth {
                let mut next = vec![];
                for w in &level {
                    for t in &toks {
                        next.push([&w[..], t].concat());
                    }
                }
                stack.extend(next.iter().cloned());
                level = next;
            }
            for c in &stack {
                poke(&b, &framed(kind, c))?;
                if let Some(l) = &lead {
                    poke(&b, &framed(kind, &[&l[..], c].concat()))?;
                }
            }
            ex.describe(|| format!("{} of up to {} tokens starting {} {}", kind.name(), depth, t0, t1));
        }
        // every single byte change of valid objects
        1 => {
            let b = Bench::new(ex);
            let kind = *ex.pick(&[Kind::Commit, Kind::Tag, Kind::Tree]);
            let o = gen::obj(kind, if kind == Kind::Commit { 200 } else { 120 }, 4, false);
            let i = ex.choose(o.content.len());
            for v in 0..=255u8 {
                let mut c = o.content.clone();
                c[i] = v;
                poke(&b, &framed(kind, &c))?;
            }
            let mut c = o.content.clone();
            c.remove(i);
            poke(&b, &framed(kind, &c))?;
            c.truncate(i);
            poke(&b, &framed(kind, &c))?;
            ex.describe(|| format!("{} with byte {} changed, removed or cut", kind.name(), i));
        }
        // short byte strings as whole objects and as contents
        2 => {
            let b = Bench::new(ex);
            let a = ex.choose(256) as u8;
            poke(&b, &[a])?;
            for x in 0..=255u8 {
                poke(&b, &[a, x])?;
                if !ex.quick() || x % 16 == a % 16 {
                    for k in [Kind::Commit, Kind::Tag, Kind::Tree, Kind::Blob] {
                        poke(&b, &framed(k, &[a, x]))?;
                    }
                }
            }
        }
        // reference files: tokens
        3 => {
            let id = hexid(3);
            let toks: Vec<Vec<u8>> = [
                &id[..],
                &id[..39],
                b"ref: ",
                b"refs/heads/a",
                b"\n",
                b" ",
                b"#",
                b"\r\n",
                b"\0",
                b"\xff",
                b"ref:",
                b"/",
                b"\t",
                b"x",
                b"^",
            ]
            .iter()
            .map(|t| t.to_vec())
            .collect();
            let r = Repo::new(ex.fresh_dir());
            let t0 = ex.choose(toks.len());
            let t1 = ex.choose(toks.len());
            let depth = if ex.quick() { 4 } else { 5 };
            let mut all = vec![toks[t0].clone(), [&toks[t0][..], &toks[t1]].concat()];
            let mut level = vec![all[1].clone()];
            for _ in 2..depth {
                let mut next = vec![];
                for w in &level {
                    for t in &toks {
                        next.push([&w[..], t].concat());
                    }
                }
                all.extend(next.iter().cloned());
                level = next;
            }
            for c in &all {
                poke_ref(ex, &r, c)?;
            }
        }
        _ => {
            let r = Repo::new(ex.fresh_dir());
            let a = ex.choose(256) as u8;
            poke_ref(ex, &r, &[])?;
            poke_ref(ex, &r, &[a])?;
            let id = hexid(3);
            for x in 0..=255u8 {
                poke_ref(ex, &r, &[a, x])?;
                // one byte of a valid file
                for base in [&id[..], b"ref: refs/heads/a", &[&id[..], b" refs/heads/b\n"].concat()] {
                    let mut c = base.to_vec();
                    let i = a as usize % c.len();
                    c[i] = x;
                    poke_ref(ex, &r, &c)?;
                }
            }
        }
    }
    Ok(())
}

fn poke_ref(ex: &Exec, r: &Repo, content: &[u8]) -> Res {
    std::fs::write(r.dotgit.join("refs/heads/x"), content).unwrap();
    ex.state(content);
    ex.evals(1);
    let got = lib(ex, || guarded(|| super::f_refs::poke(&r.dotgit, b"refs/heads/x")));
    match got {
        Ok(n) => {
            ensure!(n < 1_000_000 + 200 * content.len(), "runaway", "reference file {}: prints {} bytes", show(content), n);
            ex.outcome(&n);
            Ok(())
        }
        Err(p) => fail("panic", format!("reference file {}: panic: {}", show(content), p)),
    }
}
