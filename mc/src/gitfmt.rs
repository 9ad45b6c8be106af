//! Reference implementation of the on-disk formats, independent of the library under test.
#![allow(dead_code)]
use flate2::write::ZlibEncoder;
use flate2::Compression;
use sha1::{Digest, Sha1};
use std::io::Write;

pub type Oid = [u8; 20];

pub fn sha1(b: &[u8]) -> Oid {
    Sha1::digest(b).into()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Commit = 1,
    Tree = 2,
    Blob = 3,
    Tag = 4,
}
pub const KINDS: [Kind; 4] = [Kind::Blob, Kind::Tree, Kind::Commit, Kind::Tag];

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Commit => "commit",
            Kind::Tree => "tree",
            Kind::Blob => "blob",
            Kind::Tag => "tag",
        }
    }
}

/// "kind len\0content"
pub fn framed(kind: Kind, content: &[u8]) -> Vec<u8> {
    let mut v = format!("{} {}\0", kind.name(), content.len()).into_bytes();
    v.extend_from_slice(content);
    v
}

pub fn oid(kind: Kind, content: &[u8]) -> Oid {
    sha1(&framed(kind, content))
}

pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    type Made = std::collections::HashMap<(Vec<u8>, u32), Vec<u8>>;
    thread_local!(static MADE: std::cell::RefCell<Made> = Default::default());
    // setting up the compressor costs far more than small data itself
    if data.len() > 2048 {
        return deflate(data, level);
    }
    MADE.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 20_000 {
            m.clear();
        }
        m.entry((data.to_vec(), level)).or_insert_with(|| deflate(data, level)).clone()
    })
}

fn deflate(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = ZlibEncoder::new(Vec::new(), Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// A zlib stream of stored blocks of at most `block` bytes (Git's core.compression=0 writes these).
pub fn zlib_stored(data: &[u8], block: usize) -> Vec<u8> {
    let mut v = vec![0x78, 0x01];
    let mut chunks: Vec<&[u8]> = data.chunks(block.clamp(1, 65535)).collect();
    if chunks.is_empty() {
        chunks.push(&[]);
    }
    let n = chunks.len();
    for (i, c) in chunks.into_iter().enumerate() {
        v.push((i + 1 == n) as u8);
        v.extend_from_slice(&(c.len() as u16).to_le_bytes());
        v.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
        v.extend_from_slice(c);
    }
    v.extend_from_slice(&adler32(data).to_be_bytes());
    v
}

pub fn adler32(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for &x in data {
        a = (a + x as u32) % 65521;
        b = (b + a) % 65521;
    }
    (b << 16) | a
}

pub fn crc32(data: &[u8]) -> u32 {
    let mut c = flate2::Crc::new();
    c.update(data);
    c.sum()
}

/// Deterministic incompressible bytes.
pub fn noise(seed: u64, len: usize) -> Vec<u8> {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        v.extend_from_slice(&s.wrapping_mul(0x2545F4914F6CDD1D).to_le_bytes());
    }
    v.truncate(len);
    v
}

// ---- packs ----

#[derive(Clone, Debug)]
pub enum Rep {
    Whole(Kind),
    /// offset delta against the entry with this index
    Ofs(usize),
    /// reference delta against this id
    Ref(Oid),
    /// raw type code and raw bytes between header and compressed data
    Raw(u8, Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct PackEntry {
    pub id: Oid,
    pub rep: Rep,
    /// content (whole) or delta instructions
    pub data: Vec<u8>,
    pub level: u32,
    /// overrides the declared size
    pub declared: Option<u64>,
    /// overrides the compressed bytes
    pub packed: Option<Vec<u8>>,
    /// recorded in the index?
    pub indexed: bool,
}

impl PackEntry {
    pub fn whole(kind: Kind, content: &[u8]) -> Self {
        PackEntry {
            id: oid(kind, content),
            rep: Rep::Whole(kind),
            data: content.to_vec(),
            level: 6,
            declared: None,
            packed: None,
            indexed: true,
        }
    }
    pub fn delta(id: Oid, rep: Rep, delta: Vec<u8>) -> Self {
        PackEntry {
            id,
            rep,
            data: delta,
            level: 6,
            declared: None,
            packed: None,
            indexed: true,
        }
    }
    pub fn level(mut self, l: u32) -> Self {
        self.level = l;
        self
    }
}

pub fn pack_obj_header(code: u8, len: u64) -> Vec<u8> {
    let mut v = vec![];
    let mut b = (code << 4) | (len & 15) as u8;
    let mut n = len >> 4;
    while n > 0 {
        v.push(b | 0x80);
        b = (n & 0x7f) as u8;
        n >>= 7;
    }
    v.push(b);
    v
}

pub fn ofs_encode(mut ofs: u64) -> Vec<u8> {
    // git: pack-objects.c
    let mut buf = vec![(ofs & 127) as u8];
    loop {
        ofs >>= 7;
        if ofs == 0 {
            break;
        }
        ofs -= 1;
        buf.push(0x80 | (ofs & 127) as u8);
    }
    buf.reverse();
    buf
}

pub struct Pack {
    pub bytes: Vec<u8>,
    pub offsets: Vec<u64>,
    /// (start of compressed data, end)
    pub spans: Vec<(usize, usize)>,
    pub crcs: Vec<u32>,
    pub id: Oid,
}

pub fn build_pack(version: u32, entries: &[PackEntry]) -> Pack {
    let mut b = b"PACK".to_vec();
    b.extend_from_slice(&version.to_be_bytes());
    b.extend_from_slice(&(entries.len() as u32).to_be_bytes());
    let mut offsets: Vec<u64> = vec![];
    let mut spans = vec![];
    let mut crcs = vec![];
    for e in entries {
        let at = b.len();
        offsets.push(at as u64);
        let len = e.declared.unwrap_or(e.data.len() as u64);
        match &e.rep {
            Rep::Whole(k) => b.extend(pack_obj_header(*k as u8, len)),
            Rep::Ofs(i) => {
                b.extend(pack_obj_header(6, len));
                b.extend(ofs_encode(at as u64 - offsets[*i]));
            }
            Rep::Ref(id) => {
                b.extend(pack_obj_header(7, len));
                b.extend_from_slice(id);
            }
            Rep::Raw(code, raw) => {
                b.extend(pack_obj_header(*code, len));
                b.extend_from_slice(raw);
            }
        }
        let s = b.len();
        match &e.packed {
            Some(p) => b.extend_from_slice(p),
            None => b.extend(zlib(&e.data, e.level)),
        }
        spans.push((s, b.len()));
        crcs.push(crc32(&b[at..]));
    }
    let id = sha1(&b);
    b.extend_from_slice(&id);
    Pack {
        bytes: b,
        offsets,
        spans,
        crcs,
        id,
    }
}

#[derive(Clone, Debug)]
pub struct IdxEntry {
    pub id: Oid,
    pub offset: u64,
    pub crc: u32,
    /// write the offset in the 64-bit table although it would fit
    pub force64: bool,
}

pub fn build_idx(version: u32, entries: &[IdxEntry], pack_id: Oid) -> Vec<u8> {
    let mut es = entries.to_vec();
    es.sort_by(|a, b| a.id.cmp(&b.id));
    // Git never writes the first object of a pack with a 64-bit offset (and rejects such an index)
    if let Some(first) = es.iter_mut().min_by_key(|e| e.offset) {
        first.force64 = false;
    }
    let mut b = vec![];
    if version == 2 {
        b.extend_from_slice(b"\xfftOc");
        b.extend_from_slice(&2u32.to_be_bytes());
    }
    let mut n = 0usize;
    for first in 0..256usize {
        while n < es.len() && es[n].id[0] as usize <= first {
            n += 1;
        }
        b.extend_from_slice(&(n as u32).to_be_bytes());
    }
    if version == 1 {
        for e in &es {
            assert!(e.offset <= u32::MAX as u64);
            b.extend_from_slice(&(e.offset as u32).to_be_bytes());
            b.extend_from_slice(&e.id);
        }
    } else {
        for e in &es {
            b.extend_from_slice(&e.id);
        }
        for e in &es {
            b.extend_from_slice(&e.crc.to_be_bytes());
        }
        let mut large = vec![];
        for e in &es {
            if e.offset >= 0x8000_0000 || e.force64 {
                b.extend_from_slice(&(0x8000_0000u32 | large.len() as u32).to_be_bytes());
                large.push(e.offset);
            } else {
                b.extend_from_slice(&(e.offset as u32).to_be_bytes());
            }
        }
        for l in large {
            b.extend_from_slice(&l.to_be_bytes());
        }
    }
    b.extend_from_slice(&pack_id);
    let c = sha1(&b);
    b.extend_from_slice(&c);
    b
}

pub fn idx_for(version: u32, entries: &[PackEntry], pack: &Pack) -> Vec<u8> {
    let es: Vec<IdxEntry> = entries
        .iter()
        .enumerate()
        .filter(|(_, e)| e.indexed)
        .map(|(i, e)| IdxEntry {
            id: e.id,
            offset: pack.offsets[i],
            crc: pack.crcs[i],
            force64: false,
        })
        .collect();
    build_idx(version, &es, pack.id)
}

// ---- deltas ----

pub fn varint(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Instr {
    /// offset, size, and a mask of zero bytes that are written out although they could be omitted
    Copy(u32, u32, u8),
    Insert(Vec<u8>),
}

pub fn enc_instr(out: &mut Vec<u8>, i: &Instr) {
    match i {
        Instr::Insert(b) => {
            assert!(!b.is_empty() && b.len() < 128);
            out.push(b.len() as u8);
            out.extend_from_slice(b);
        }
        Instr::Copy(off, size, keep) => {
            let size = if *size == 0x10000 { 0 } else { *size };
            let bytes = [
                *off as u8,
                (off >> 8) as u8,
                (off >> 16) as u8,
                (off >> 24) as u8,
                size as u8,
                (size >> 8) as u8,
                (size >> 16) as u8,
            ];
            let at = out.len();
            out.push(0x80);
            for (k, b) in bytes.iter().enumerate() {
                if *b != 0 || keep & (1 << k) != 0 {
                    out[at] |= 1 << k;
                    out.push(*b);
                }
            }
        }
    }
}

pub fn delta(base_len: usize, result_len: usize, instrs: &[Instr]) -> Vec<u8> {
    let mut v = varint(base_len as u64);
    v.extend(varint(result_len as u64));
    for i in instrs {
        enc_instr(&mut v, i);
    }
    v
}

/// What Git's patch_delta() does with a delta.
pub fn ref_apply(base: &[u8], d: &[u8]) -> Option<Vec<u8>> {
    let mut p = 0;
    let size = |p: &mut usize| -> Option<u64> {
        let mut n = 0u64;
        let mut sh = 0;
        loop {
            let b = *d.get(*p)?;
            *p += 1;
            if sh < 64 {
                n |= ((b & 0x7f) as u64) << sh;
            }
            sh += 7;
            if b & 0x80 == 0 {
                return Some(n);
            }
        }
    };
    let bl = size(&mut p)?;
    if bl != base.len() as u64 {
        return None;
    }
    let rl = size(&mut p)?;
    let mut out = vec![];
    while p < d.len() {
        let c = d[p];
        p += 1;
        if c & 0x80 != 0 {
            let mut v = [0u8; 7];
            for (k, x) in v.iter_mut().enumerate() {
                if c & (1 << k) != 0 {
                    *x = *d.get(p)?;
                    p += 1;
                }
            }
            let off = u32::from_le_bytes([v[0], v[1], v[2], v[3]]) as usize;
            let mut n = u32::from_le_bytes([v[4], v[5], v[6], 0]) as usize;
            if n == 0 {
                n = 0x10000;
            }
            out.extend_from_slice(base.get(off..off.checked_add(n)?)?);
        } else if c != 0 {
            out.extend_from_slice(d.get(p..p + c as usize)?);
            p += c as usize;
        } else {
            return None;
        }
        if out.len() as u64 > rl {
            return None;
        }
    }
    if out.len() as u64 != rl {
        return None;
    }
    Some(out)
}

/// A plain delta turning `base` into `target`: common prefix, common suffix copied, rest inserted.
pub fn diff(base: &[u8], target: &[u8]) -> Vec<u8> {
    let mut pre = 0;
    while pre < base.len() && pre < target.len() && base[pre] == target[pre] {
        pre += 1;
    }
    let mut suf = 0;
    while suf < base.len() - pre
        && suf < target.len() - pre
        && base[base.len() - 1 - suf] == target[target.len() - 1 - suf]
    {
        suf += 1;
    }
    let mut ins = vec![];
    let copy = |mut off: usize, mut n: usize, ins: &mut Vec<Instr>| {
        while n > 0 {
            let k = n.min(0x10000);
            ins.push(Instr::Copy(off as u32, k as u32, 0));
            off += k;
            n -= k;
        }
    };
    copy(0, pre, &mut ins);
    for c in target[pre..target.len() - suf].chunks(127) {
        ins.push(Instr::Insert(c.to_vec()));
    }
    copy(base.len() - suf, suf, &mut ins);
    let d = delta(base.len(), target.len(), &ins);
    debug_assert_eq!(ref_apply(base, &d).as_deref(), Some(target));
    d
}

/// Delta that copies whatever it finds in `base`, for large targets.
pub fn diff_blocks(base: &[u8], target: &[u8]) -> Vec<u8> {
    const W: usize = 24;
    let mut at = std::collections::HashMap::new();
    for i in 0..base.len().saturating_sub(W) {
        at.entry(&base[i..i + W]).or_insert(i);
    }
    let mut ins = vec![];
    let mut i = 0;
    let mut lit = 0;
    while i < target.len() {
        let hit = target.get(i..i + W).and_then(|w| at.get(w)).copied();
        if let Some(o) = hit {
            let n = base[o..].iter().zip(&target[i..]).take_while(|(a, b)| a == b).count();
            for c in target[lit..i].chunks(127) {
                ins.push(Instr::Insert(c.to_vec()));
            }
            ins.push(Instr::Copy(o as u32, n as u32, 0));
            i += n;
            lit = i;
        } else {
            i += 1;
        }
    }
    for c in target[lit..].chunks(127) {
        ins.push(Instr::Insert(c.to_vec()));
    }
    let d = delta(base.len(), target.len(), &ins);
    debug_assert_eq!(ref_apply(base, &d).as_deref(), Some(target));
    d
}
