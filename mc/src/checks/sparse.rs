//! Huge contents that are zero but for a few marked bytes, and their compressed form, made without
//! compressing gigabytes.
use super::util::*;
use crate::explorer::*;
use crate::gitfmt::*;
use flate2::{Compress, Compression, FlushCompress};
use rusty_git::object::{ObjectData, ObjectDatabase};
use sha1::{Digest, Sha1};
use std::io::Read as _;

const CHUNK: u64 = 1 << 20;

#[derive(Clone)]
pub struct Sparse {
    pub len: u64,
    /// ascending positions
    pub marks: Vec<(u64, u8)>,
}

impl Sparse {
    /// Marks at and next to each of the given positions.
    pub fn around(len: u64, at: &[u64]) -> Sparse {
        let mut m: Vec<u64> = at.iter().flat_map(|p| p.saturating_sub(2)..*p + 3).filter(|p| *p < len).collect();
        m.sort();
        m.dedup();
        Sparse { len, marks: m.into_iter().enumerate().map(|(i, p)| (p, (i % 250) as u8 + 1)).collect() }
    }
    fn within(&self, from: u64, to: u64) -> &[(u64, u8)] {
        let a = self.marks.partition_point(|m| m.0 < from);
        let b = self.marks.partition_point(|m| m.0 < to);
        &self.marks[a..b]
    }
    pub fn is_at(&self, at: u64, buf: &[u8]) -> bool {
        const Z: &[u8] = &[0; 65536];
        if at + buf.len() as u64 > self.len {
            return false;
        }
        let mut p = at;
        let zero = |from: u64, to: u64| buf[(from - at) as usize..(to - at) as usize].chunks(Z.len()).all(|c| c == &Z[..c.len()]);
        for (m, v) in self.within(at, at + buf.len() as u64) {
            if !zero(p, *m) || buf[(*m - at) as usize] != *v {
                return false;
            }
            p = m + 1;
        }
        zero(p, at + buf.len() as u64)
    }
    fn chunk(&self, at: u64) -> Vec<u8> {
        let n = CHUNK.min(self.len - at) as usize;
        let mut v = vec![0; n];
        for (m, b) in self.within(at, at + n as u64) {
            v[(m - at) as usize] = *b;
        }
        v
    }
    fn chunks(&self) -> impl Iterator<Item = Vec<u8>> + '_ {
        (0..self.len).step_by(CHUNK as usize).map(move |at| self.chunk(at))
    }
    /// what copying this stretch gives, appended to `out`
    pub fn copy_to(&self, off: u64, size: u64, out: &mut Sparse) {
        assert!(off + size <= self.len);
        for (m, b) in self.within(off, off + size) {
            out.marks.push((out.len + m - off, *b));
        }
        out.len += size;
    }
    pub fn header(&self, kind: Kind) -> Vec<u8> {
        format!("{} {}\0", kind.name(), self.len).into_bytes()
    }
    pub fn oid(&self, kind: Kind) -> Oid {
        let mut h = Sha1::new();
        h.update(self.header(kind));
        for c in self.chunks() {
            h.update(&c);
        }
        h.finalize().into()
    }
    /// A zlib stream of `prefix` and the content.
    pub fn zlib(&self, prefix: &[u8]) -> Vec<u8> {
        let mut out = vec![0x78, 0x01];
        let (mut a, mut b) = (1u64, 0u64);
        let mut zero: Option<Vec<u8>> = None;
        let mut add = |c: &[u8], plain: bool, out: &mut Vec<u8>| {
            if plain {
                b = (b + c.len() as u64 * a) % 65521;
            } else {
                for x in c {
                    a = (a + *x as u64) % 65521;
                    b = (b + a) % 65521;
                }
            }
            let full = plain && c.len() as u64 == CHUNK;
            match &zero {
                Some(z) if full => out.extend_from_slice(z),
                _ => {
                    let mut v = Vec::with_capacity(c.len() + c.len() / 8 + 1024);
                    Compress::new(Compression::new(1), false).compress_vec(c, &mut v, FlushCompress::Full).unwrap();
                    out.extend_from_slice(&v);
                    if full {
                        zero = Some(v);
                    }
                }
            }
        };
        if !prefix.is_empty() {
            add(prefix, false, &mut out);
        }
        for (i, c) in self.chunks().enumerate() {
            let at = i as u64 * CHUNK;
            add(&c, self.within(at, at + c.len() as u64).is_empty(), &mut out);
        }
        out.extend([3, 0]);
        out.extend(((b << 16 | a) as u32).to_be_bytes());
        out
    }
    pub fn packed(&self, kind: Kind, id: Oid) -> PackEntry {
        PackEntry {
            id,
            rep: Rep::Whole(kind),
            data: vec![],
            level: 1,
            declared: Some(self.len),
            packed: Some(self.zlib(&[])),
            indexed: true,
        }
    }
}

/// The raw stream is exactly the header and the content.
pub fn check_stream(ex: &Exec, db: &ObjectDatabase, id: &Oid, kind: Kind, want: &Sparse, ctx: &dyn Fn() -> String) -> Res {
    ex.evals(1);
    let head = want.header(kind);
    let got: Result<u64, String> = lib(ex, || {
        let mut r = db.read_object(crate::repo::id(id)).map_err(|e| e.to_string())?;
        let mut at = 0u64;
        let mut buf = vec![0; head.len()];
        r.reader().read_exact(&mut buf).map_err(|e| e.to_string())?;
        if buf != head {
            return Err(format!("header {:?}", String::from_utf8_lossy(&buf)));
        }
        let mut buf = vec![0; CHUNK as usize];
        loop {
            let n = r.reader().read(&mut buf).map_err(|e| e.to_string())?;
            if n == 0 {
                return Ok(at);
            }
            if !want.is_at(at, &buf[..n]) {
                return Err(format!("other content between {} and {}", at, at + n as u64));
            }
            at += n as u64;
        }
    });
    match got {
        Ok(n) if n == want.len => Ok(()),
        Ok(n) => fail("stream-differs", format!("{}: the stream ends after {} of {} bytes", ctx(), n, want.len)),
        Err(e) => fail("stream-differs", format!("{}: {}", ctx(), e)),
    }
}

/// Parsing gives a blob of exactly the content.
pub fn check_blob(ex: &Exec, db: &ObjectDatabase, id: &Oid, want: &Sparse, ctx: &dyn Fn() -> String) -> Res {
    ex.evals(1);
    let got = lib(ex, || match db.parse_object(crate::repo::id(id)) {
        Ok(o) => match o.data() {
            ObjectData::Blob(b) if b.data().len() as u64 == want.len && want.is_at(0, b.data()) => Ok(()),
            ObjectData::Blob(b) => Err(format!("{} bytes of other content", b.data().len())),
            _ => Err("another kind".into()),
        },
        Err(e) => Err(e.to_string()),
    });
    match got {
        Ok(()) => Ok(()),
        Err(e) => fail("read-differs", format!("{}: reads as {}", ctx(), e)),
    }
}
