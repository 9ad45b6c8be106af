//! Scratch repositories and observations of the real library.
#![allow(dead_code)]
use crate::gitfmt::*;
use rusty_git::object::{Id, ObjectData, ObjectDatabase, ObjectKind};
use std::fs;
use std::io::Read;
use std::path::{Path, PathBuf};

pub struct Repo {
    pub root: PathBuf,
    pub dotgit: PathBuf,
}

impl Repo {
    /// An empty repository (objects/, objects/pack, refs/heads, refs/tags, HEAD).
    pub fn new(root: PathBuf) -> Repo {
        let r = Repo::bare_bones(root);
        fs::create_dir_all(r.dotgit.join("objects/pack")).unwrap();
        fs::create_dir_all(r.dotgit.join("refs/heads")).unwrap();
        fs::create_dir_all(r.dotgit.join("refs/tags")).unwrap();
        fs::write(r.dotgit.join("HEAD"), "ref: refs/heads/master\n").unwrap();
        r
    }
    /// Only .git/objects.
    pub fn bare_bones(root: PathBuf) -> Repo {
        let dotgit = root.join(".git");
        fs::create_dir_all(dotgit.join("objects")).unwrap();
        Repo { root, dotgit }
    }
    pub fn loose_path(&self, id: &Oid) -> PathBuf {
        let h = hex(id);
        self.dotgit.join("objects").join(&h[..2]).join(&h[2..])
    }
    pub fn put_loose_raw(&self, id: &Oid, file: &[u8]) {
        let p = self.loose_path(id);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(p, file).unwrap();
    }
    pub fn put_loose(&self, kind: Kind, content: &[u8]) -> Oid {
        let f = framed(kind, content);
        let id = sha1(&f);
        self.put_loose_raw(&id, &zlib(&f, 1));
        id
    }
    pub fn pack_path(&self, name: &str, ext: &str) -> PathBuf {
        self.dotgit.join("objects/pack").join(format!("pack-{}.{}", name, ext))
    }
    pub fn put_pack_raw(&self, name: &str, pack: &[u8], idx: &[u8]) {
        fs::create_dir_all(self.dotgit.join("objects/pack")).unwrap();
        fs::write(self.pack_path(name, "pack"), pack).unwrap();
        fs::write(self.pack_path(name, "idx"), idx).unwrap();
    }
    pub fn put_pack(&self, version: u32, idxv: u32, entries: &[PackEntry]) -> Pack {
        let p = build_pack(version, entries);
        let i = idx_for(idxv, entries, &p);
        self.put_pack_raw(&hex(&p.id), &p.bytes, &i);
        p
    }
    pub fn db(&self) -> ObjectDatabase {
        ObjectDatabase::open(&self.dotgit)
    }
}

pub fn id(o: &Oid) -> Id {
    Id::from_bytes(o)
}

pub fn kind_of(k: Kind) -> ObjectKind {
    match k {
        Kind::Commit => ObjectKind::Commit,
        Kind::Tree => ObjectKind::Tree,
        Kind::Blob => ObjectKind::Blob,
        Kind::Tag => ObjectKind::Tag,
    }
}

/// What the library says about an object through `parse_object`.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Obs {
    NotFound,
    Ambiguous,
    Err(String),
    /// kind and, for blobs, the exact content; for the others the rendered accessors
    Obj(Kind, Vec<u8>),
}

impl Obs {
    pub fn short(&self) -> String {
        match self {
            Obs::Obj(k, c) => format!("{} of {} bytes (sha1 {})", k.name(), c.len(), &hex(&sha1(c))[..8]),
            o => format!("{:?}", o),
        }
    }
    /// Result class without the error text.
    pub fn class(&self) -> &'static str {
        match self {
            Obs::NotFound => "not-found",
            Obs::Ambiguous => "ambiguous",
            Obs::Err(_) => "error",
            Obs::Obj(..) => "object",
        }
    }
}

pub fn err_text(e: &dyn std::error::Error) -> String {
    let mut s = e.to_string();
    let mut c = e.source();
    while let Some(x) = c {
        s.push_str(": ");
        s.push_str(&x.to_string());
        c = x.source();
    }
    s
}

fn put(v: &mut Vec<u8>, name: &str, b: &[u8]) {
    v.extend_from_slice(name.as_bytes());
    v.extend_from_slice(format!(" {} ", b.len()).as_bytes());
    v.extend_from_slice(b);
    v.push(b'\n');
}

/// A canonical rendering of everything the accessors return.
pub fn render(d: &ObjectData) -> (Kind, Vec<u8>) {
    let mut v = vec![];
    match d {
        ObjectData::Blob(b) => (Kind::Blob, b.data().to_vec()),
        ObjectData::Tree(t) => {
            for e in t.entries() {
                put(&mut v, &format!("{:o}", e.mode()), e.filename());
                put(&mut v, "id", e.id().to_hex().as_bytes());
            }
            (Kind::Tree, v)
        }
        ObjectData::Commit(c) => {
            put(&mut v, "tree", c.tree().to_hex().as_bytes());
            for p in c.parents() {
                put(&mut v, "parent", p.to_hex().as_bytes());
            }
            for (n, s) in [("author", c.author()), ("committer", c.committer())] {
                sig(&mut v, n, &s);
            }
            if let Some(e) = c.encoding() {
                put(&mut v, "encoding", e);
            }
            put(&mut v, "message", c.message());
            (Kind::Commit, v)
        }
        ObjectData::Tag(t) => {
            put(&mut v, "object", t.object().to_hex().as_bytes());
            put(&mut v, "type", format!("{:?}", t.kind()).as_bytes());
            put(&mut v, "tag", t.tag());
            if let Some(s) = t.tagger() {
                sig(&mut v, "tagger", &s);
            }
            if let Some(m) = t.message() {
                put(&mut v, "message", m);
            }
            (Kind::Tag, v)
        }
    }
}

fn sig(v: &mut Vec<u8>, n: &str, s: &rusty_git::object::Signature) {
    put(v, n, s.name());
    put(v, "email", s.email());
    if let Some(t) = s.timestamp() {
        put(v, "time", t);
    }
    if let Some(t) = s.timezone() {
        put(v, "zone", t);
    }
}

pub fn parse(db: &ObjectDatabase, o: &Oid) -> Obs {
    match db.parse_object(id(o)) {
        Ok(obj) => {
            if obj.id() != &id(o) {
                return Obs::Err(format!("object() reports id {} for {}", obj.id(), hex(o)));
            }
            let (k, c) = render(obj.data());
            Obs::Obj(k, c)
        }
        Err(e) if e.is_not_found() => Obs::NotFound,
        Err(e) if e.is_ambiguous() => Obs::Ambiguous,
        Err(e) => Obs::Err(err_text(&e)),
    }
}

/// The raw stream of `read_object`.
pub fn raw(db: &ObjectDatabase, o: &Oid) -> Result<Vec<u8>, Obs> {
    match db.read_object(id(o)) {
        Ok(mut r) => {
            let mut v = vec![];
            match r.reader().read_to_end(&mut v) {
                Ok(_) => Ok(v),
                Err(e) => Err(Obs::Err(format!("stream: {}", e))),
            }
        }
        Err(e) if e.is_not_found() => Err(Obs::NotFound),
        Err(e) if e.is_ambiguous() => Err(Obs::Ambiguous),
        Err(e) => Err(Obs::Err(err_text(&e))),
    }
}

/// The raw stream of the packed object found by the first bytes of an id (None: the tree has no hook for that).
pub fn abbreviated(db: &ObjectDatabase, prefix: &[u8]) -> Option<Result<Vec<u8>, Obs>> {
    #[cfg(not(rusty_git_mc))]
    {
        let _ = (db, prefix);
        None
    }
    #[cfg(rusty_git_mc)]
    {
        let s: rusty_git::object::ShortId = crate::gitfmt::hex(prefix).parse().unwrap();
        Some(match db.mc_read_packed(&s) {
            Ok(mut r) => {
                let mut v = vec![];
                match r.reader().read_to_end(&mut v) {
                    Ok(_) => Ok(v),
                    Err(e) => Err(Obs::Err(format!("stream: {}", e))),
                }
            }
            Err(e) if e.is_not_found() => Err(Obs::NotFound),
            Err(e) if e.is_ambiguous() => Err(Obs::Ambiguous),
            Err(e) => Err(Obs::Err(err_text(&e))),
        })
    }
}

pub fn list(dir: &Path) -> Vec<String> {
    fn walk(d: &Path, pre: &str, out: &mut Vec<String>) {
        if let Ok(rd) = fs::read_dir(d) {
            for e in rd.flatten() {
                let n = format!("{}{}", pre, e.file_name().to_string_lossy());
                if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                    walk(&e.path(), &format!("{}/", n), out);
                } else {
                    out.push(n);
                }
            }
        }
    }
    let mut v = vec![];
    walk(dir, "", &mut v);
    v.sort();
    v
}

// ---- the git command, used to validate the harness's own formats ----

pub fn git_ok() -> bool {
    use std::sync::OnceLock;
    static OK: OnceLock<bool> = OnceLock::new();
    *OK.get_or_init(|| {
        std::process::Command::new("git")
            .arg("--version")
            .output()
            .map(|o| o.status.success())
            .unwrap_or(false)
    })
}

pub fn git<S: AsRef<std::ffi::OsStr>>(r: &Repo, args: &[S], stdin: &[u8]) -> Result<Vec<u8>, String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut ch = Command::new("git")
        .args(args)
        .env("GIT_DIR", &r.dotgit)
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .env("HOME", &r.root)
        .env("GIT_CONFIG_GLOBAL", "/dev/null")
        .current_dir(&r.root)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut si = ch.stdin.take().unwrap();
    let data = stdin.to_vec();
    let t = std::thread::spawn(move || {
        let _ = si.write_all(&data);
    });
    let out = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = t.join();
    if out.status.success() {
        Ok(out.stdout)
    } else {
        Err(String::from_utf8_lossy(&out.stderr).into_owned())
    }
}
