//! Valid objects of every kind and size, with the reference rendering of their fields.
use crate::gitfmt::*;

fn put(v: &mut Vec<u8>, name: &str, b: &[u8]) {
    v.extend_from_slice(name.as_bytes());
    v.extend_from_slice(format!(" {} ", b.len()).as_bytes());
    v.extend_from_slice(b);
    v.push(b'\n');
}

#[derive(Clone)]
pub struct Obj {
    pub kind: Kind,
    pub content: Vec<u8>,
    /// what `repo::render` must produce for it
    pub rendered: Vec<u8>,
    pub id: Oid,
}

fn fill(seed: u64, n: usize, noisy: bool) -> Vec<u8> {
    if noisy {
        noise(seed, n)
    } else {
        (0..n).map(|i| b"abcdefgh\n"[(i + seed as usize) % 9]).collect()
    }
}

pub fn blob(content: Vec<u8>) -> Obj {
    Obj {
        kind: Kind::Blob,
        id: oid(Kind::Blob, &content),
        rendered: content.clone(),
        content,
    }
}

/// An object of `kind` whose content has exactly `size` bytes when the kind allows that size,
/// otherwise of the smallest larger size the kind allows.
pub fn obj(kind: Kind, size: usize, seed: u64, noisy: bool) -> Obj {
    let mut c = vec![];
    let mut r = vec![];
    match kind {
        Kind::Blob => return blob(fill(seed, size, noisy)),
        Kind::Tree => {
            if size > 0 {
                // one entry per 1000 bytes, the last takes the rest
                let mut left = size.max(29);
                let mut i = 0u64;
                while left > 0 {
                    let n = if left > 1100 { 1000 } else { left };
                    let nl = n - 28;
                    let name: Vec<u8> = fill(seed + i, nl, noisy)
                        .into_iter()
                        .map(|b| if b == 0 || b == b'/' || b == b'\n' { b'x' } else { b })
                        .collect();
                    let id = sha1(&(seed + i).to_be_bytes());
                    c.extend_from_slice(b"100644 ");
                    c.extend_from_slice(&name);
                    c.push(0);
                    c.extend_from_slice(&id);
                    put(&mut r, "100644", &name);
                    put(&mut r, "id", hex(&id).as_bytes());
                    left -= n;
                    i += 1;
                }
            }
        }
        Kind::Commit => {
            let t = hex(&sha1(&seed.to_be_bytes()));
            let p = hex(&sha1(&(seed + 77).to_be_bytes()));
            c.extend_from_slice(
                format!(
                    "tree {}\nparent {}\nauthor A U Thor <author@x.org> {} +0100\ncommitter C O <c@y.org> 1600000001 -0230\n\n",
                    t, p, 1600000000 + seed
                )
                .as_bytes(),
            );
            let m = fill(seed, size.saturating_sub(c.len()), noisy);
            c.extend_from_slice(&m);
            put(&mut r, "tree", t.as_bytes());
            put(&mut r, "parent", p.as_bytes());
            put(&mut r, "author", b"A U Thor");
            put(&mut r, "email", b"author@x.org");
            put(&mut r, "time", format!("{}", 1600000000 + seed).as_bytes());
            put(&mut r, "zone", b"+0100");
            put(&mut r, "committer", b"C O");
            put(&mut r, "email", b"c@y.org");
            put(&mut r, "time", b"1600000001");
            put(&mut r, "zone", b"-0230");
            put(&mut r, "message", &m);
        }
        Kind::Tag => {
            let t = hex(&sha1(&seed.to_be_bytes()));
            c.extend_from_slice(
                format!("object {}\ntype commit\ntag v{}\ntagger T G <t@z.org> 1600000002 +0000\n\n", t, seed)
                    .as_bytes(),
            );
            let m = fill(seed, size.saturating_sub(c.len()), noisy);
            c.extend_from_slice(&m);
            put(&mut r, "object", t.as_bytes());
            put(&mut r, "type", b"Commit");
            put(&mut r, "tag", format!("v{}", seed).as_bytes());
            put(&mut r, "tagger", b"T G");
            put(&mut r, "email", b"t@z.org");
            put(&mut r, "time", b"1600000002");
            put(&mut r, "zone", b"+0000");
            put(&mut r, "message", &m);
        }
    }
    Obj {
        kind,
        id: oid(kind, &c),
        content: c,
        rendered: r,
    }
}

/// A chain of different versions of an object (same kind), oldest first.
pub fn versions(kind: Kind, n: usize, size: usize, noisy: bool) -> Vec<Obj> {
    (0..n).map(|i| obj(kind, size + 3 * i, 1000 + i as u64, noisy)).collect()
}
