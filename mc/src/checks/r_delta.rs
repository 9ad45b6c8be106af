//! R02: delta instructions against the reference interpreter.
use super::sparse::*;
use super::util::*;
use crate::explorer::*;
use crate::gitfmt::*;
use crate::repo::*;

/// A base whose every stretch is recognisable.
fn base(len: usize) -> Vec<u8> {
    noise(0xBA5E + len as u64, len)
}

struct Case {
    delta: Vec<u8>,
    want: Option<Vec<u8>>,
}

fn case(base: &[u8], delta: Vec<u8>) -> Case {
    Case {
        want: ref_apply(base, &delta),
        delta,
    }
}

/// Git rejects deltas shorter than 4 bytes altogether; no claim is made about those.
fn push(cases: &mut Vec<Case>, base: &[u8], delta: Vec<u8>) {
    if delta.len() >= 4 {
        cases.push(case(base, delta));
    }
}

fn fake_id(i: usize) -> Oid {
    sha1(&(i as u64 + 0xF00D).to_be_bytes())
}

/// Puts the base and all deltas in one pack and compares every reconstruction.
fn judge(ex: &Exec, base: &[u8], cases: &[Case], how: &str) -> Res {
    let r = Repo::new(ex.fresh_dir());
    let b = PackEntry::whole(Kind::Blob, base).level(1);
    let bid = b.id;
    let mut es = vec![b];
    for (i, c) in cases.iter().enumerate() {
        let rep = if i % 2 == 0 { Rep::Ofs(0) } else { Rep::Ref(bid) };
        es.push(PackEntry::delta(fake_id(i), rep, c.delta.clone()).level(1));
    }
    r.put_pack(2, 2, &es);
    let db = r.db();
    for (i, c) in cases.iter().enumerate() {
        let id = fake_id(i);
        for round in 0..2 {
            ex.evals(1);
            let got = lib(ex, || raw(&db, &id));
            match (&c.want, got) {
                (Some(w), Ok(g)) if g == framed(Kind::Blob, w) => {}
                (None, Err(Obs::Err(_))) => {}
                (w, g) => {
                    return fail(
                        "delta",
                        format!(
                            "{} (read {}): delta {} ({} bytes) on a base of {} bytes: expected {}, got {}",
                            how,
                            round,
                            hex(&c.delta[..c.delta.len().min(40)]),
                            c.delta.len(),
                            base.len(),
                            match w {
                                Some(w) => format!("{} bytes", w.len()),
                                None => "an error".into(),
                            },
                            match g {
                                Ok(g) => format!("a stream of {} bytes", g.len()),
                                Err(e) => e.short(),
                            }
                        ),
                    )
                }
            }
        }
        if let Some(w) = &c.want {
            ex.outcome(&hash_of(w));
        }
    }
    // the base itself is still intact
    match lib(ex, || raw(&db, &bid)) {
        Ok(g) if g == framed(Kind::Blob, base) => Ok(()),
        _ => fail("delta-base", format!("{}: the base no longer reads correctly", how)),
    }
}

pub fn r02(ex: &Exec) -> Res {
    match ex.choose(7) {
        0 => sequences(ex),
        1 => opcodes(ex),
        2 => bodies(ex),
        3 => truncated(ex),
        4 => lengths(ex),
        5 => big(ex),
        _ => giant(ex),
    }
}

fn copy_alphabet(len: usize) -> Vec<Instr> {
    let mut v = vec![];
    for off in [0usize, 1, 255, 256, 257, 300, 65535, 65536, 65793, 131072, len.saturating_sub(1), len] {
        if off > len {
            continue;
        }
        for size in [1usize, 2, 127, 128, 255, 256, 257, 65535, 65536, 65537, 65792, 131072] {
            if off + size > len {
                continue;
            }
            v.push(Instr::Copy(off as u32, size as u32, 0));
        }
    }
    v
}

/// all sequences of up to 2 (3) instructions, with redundant zero bytes written or omitted
fn sequences(ex: &Exec) -> Res {
    let len = *ex.pick(&[0usize, 1, 300, 66000, 200_000]);
    let b = base(len);
    let mut al = copy_alphabet(len);
    for n in [1usize, 2, 126, 127] {
        al.push(Instr::Insert(noise(n as u64 + 3, n)));
    }
    // the first instruction and the set of redundant bytes are choices; the rest is one batch
    let i = ex.choose(al.len() + 1);
    let keep = *ex.pick(&[0u8, 0x7f, 0x0f, 0x70]);
    let with = |x: &Instr| match x {
        Instr::Copy(o, s, _) => Instr::Copy(*o, *s, keep),
        x => x.clone(),
    };
    let mut cases = vec![];
    let emit = |seq: &[&Instr], cases: &mut Vec<Case>| {
        let seq: Vec<Instr> = seq.iter().map(|x| with(x)).collect();
        let n: usize = seq
            .iter()
            .map(|x| match x {
                Instr::Copy(_, s, _) => *s as usize,
                Instr::Insert(b) => b.len(),
            })
            .sum();
        push(cases, &b, delta(len, n, &seq));
    };
    if i == al.len() {
        emit(&[], &mut cases);
    } else {
        let a = al[i].clone();
        emit(&[&a], &mut cases);
        let small: Vec<&Instr> = al
            .iter()
            .filter(|x| match x {
                Instr::Copy(_, s, _) => *s < 300 || (!ex.quick() && *s <= 65537),
                _ => true,
            })
            .collect();
        for y in &small {
            emit(&[&a, y], &mut cases);
        }
        if !ex.quick() {
            let tiny: Vec<&&Instr> = small.iter().step_by(5).collect();
            for y in &tiny {
                for z in &tiny {
                    emit(&[&a, y, z], &mut cases);
                }
            }
        }
    }
    ex.state(&(len, i, keep));
    ex.describe(|| format!("instruction sequences starting with {:?} on a base of {} bytes", al.get(i), len));
    if cases.is_empty() {
        return Ok(());
    }
    judge(ex, &b, &cases, "instruction sequence")
}

/// every copy opcode with every argument byte from a small alphabet
fn opcodes(ex: &Exec) -> Res {
    let len = *ex.pick(&[0usize, 10, 256, 70_000, 150_000]);
    let mask_hi = ex.choose(8) as u8; // size bytes present
    let b = base(len);
    let args: &[u8] = if ex.quick() { &[0, 1, 9] } else { &[0, 1, 9, 0xff] };
    let mut cases = vec![];
    let redundant = ex.flag();
    for lo in 0..16u8 {
        let cmd = 0x80 | (mask_hi << 4) | lo;
        let n = (cmd & 0x7f).count_ones();
        for k in 0..args.len().pow(n) {
            let mut body = vec![cmd];
            let mut k = k;
            for _ in 0..n {
                body.push(args[k % args.len()]);
                k /= args.len();
            }
            // prefix with an insert so that the delta is long enough and the copy is not first
            let mut full = vec![2u8, b'x', b'y'];
            full.extend_from_slice(&body);
            if redundant {
                full.extend_from_slice(&[1, b'z']);
            }
            // the length the instructions produce, when they are valid
            let rl = produced(&b, &full).unwrap_or(2);
            let mut d = varint(len as u64);
            d.extend(varint(rl as u64));
            d.extend_from_slice(&full);
            push(&mut cases, &b, d);
        }
        if cases.len() > 1500 {
            judge(ex, &b, &cases, "opcode")?;
            cases.clear();
        }
    }
    ex.state(&(len, mask_hi, redundant));
    ex.describe(|| format!("copy opcodes with size bytes {:03b} on a base of {} bytes", mask_hi, len));
    judge(ex, &b, &cases, "opcode")
}

/// Length of the result of the instructions, ignoring declared lengths; None when invalid.
fn produced(base: &[u8], body: &[u8]) -> Option<usize> {
    let mut p = 0;
    let mut n = 0usize;
    while p < body.len() {
        let c = body[p];
        p += 1;
        if c & 0x80 != 0 {
            let mut v = [0u8; 7];
            for (k, x) in v.iter_mut().enumerate() {
                if c & (1 << k) != 0 {
                    *x = *body.get(p)?;
                    p += 1;
                }
            }
            let off = u32::from_le_bytes([v[0], v[1], v[2], v[3]]) as usize;
            let mut s = u32::from_le_bytes([v[4], v[5], v[6], 0]) as usize;
            if s == 0 {
                s = 65536;
            }
            if off + s > base.len() {
                return None;
            }
            n += s;
        } else if c != 0 {
            if p + c as usize > body.len() {
                return None;
            }
            p += c as usize;
            n += c as usize;
        } else {
            return None;
        }
    }
    Some(n)
}

/// all instruction byte strings over an alphabet, each with matching and non-matching declared lengths
fn bodies(ex: &Exec) -> Res {
    const AL: &[u8] = &[0x00, 0x01, 0x02, 0x03, 0x7f, 0x80, 0x81, 0x90, 0x91, 0xb0, 0xff];
    let len = *ex.pick(&[0usize, 3, 70_000]);
    let b = base(len);
    let n = if ex.quick() { 4 } else { 5 };
    let first = *ex.pick(AL);
    let second = *ex.pick(AL);
    let mut strings = vec![vec![first]];
    let mut last = vec![vec![first, second]];
    strings.extend(last.clone());
    for _ in 2..n {
        let mut next = vec![];
        for s in &last {
            for a in AL {
                let mut t = s.clone();
                t.push(*a);
                next.push(t);
            }
        }
        strings.extend(next.iter().cloned());
        last = next;
    }
    let mut cases = vec![];
    for s in &strings {
        let lens: Vec<u64> = match produced(&b, s) {
            Some(n) => vec![n as u64, n as u64 + 1, (n as u64).saturating_sub(1), 0],
            None => vec![0, 1, 2, 65536],
        };
        for (k, rl) in lens.iter().enumerate() {
            let mut d = varint(len as u64);
            d.extend(varint(*rl));
            d.extend_from_slice(s);
            push(&mut cases, &b, d);
            if k == 0 {
                for wrong in [len as u64 + 1, (len as u64).wrapping_sub(1) & 0xffff_ffff, 0] {
                    if wrong == len as u64 {
                        continue;
                    }
                    let mut d = varint(wrong);
                    d.extend(varint(*rl));
                    d.extend_from_slice(s);
                    push(&mut cases, &b, d);
                }
            }
        }
        if cases.len() > 2000 {
            judge(ex, &b, &cases, "instruction bytes")?;
            cases.clear();
        }
    }
    ex.state(&(len, first, second));
    ex.describe(|| format!("instruction bytes starting {:02x} {:02x} on a base of {} bytes", first, second, len));
    judge(ex, &b, &cases, "instruction bytes")
}

/// valid deltas cut at every point and with every byte dropped
fn truncated(ex: &Exec) -> Res {
    let len = *ex.pick(&[300usize, 70_000]);
    let b = base(len);
    let seqs: Vec<Vec<Instr>> = vec![
        vec![Instr::Copy(0, 256, 0x7f), Instr::Insert(noise(1, 127))],
        vec![Instr::Insert(noise(1, 5)), Instr::Copy(257, 43, 0)],
        vec![Instr::Copy(1, 2, 0), Instr::Copy(255, 1, 0), Instr::Copy(0, 255, 0), Instr::Insert(vec![7])],
        vec![Instr::Insert(noise(2, 127)), Instr::Insert(noise(3, 127)), Instr::Insert(noise(4, 1))],
        vec![Instr::Copy(0, 300, 0); 20],
        (0..200).map(|i| Instr::Insert(noise(i, 1 + (i as usize % 127)))).collect(),
    ];
    let s = ex.choose(seqs.len());
    let n: usize = produced(&b, &{
        let mut v = vec![];
        seqs[s].iter().for_each(|i| enc_instr(&mut v, i));
        v
    })
    .unwrap();
    let d = delta(len, n, &seqs[s]);
    let mut cases = vec![];
    for cut in 0..d.len() {
        push(&mut cases, &b, d[..cut].to_vec());
        let mut e = d.clone();
        e.remove(cut);
        push(&mut cases, &b, e);
        let mut e = d.clone();
        e.insert(cut, 0);
        push(&mut cases, &b, e);
        if cases.len() > 2000 {
            judge(ex, &b, &cases, "cut delta")?;
            cases.clear();
        }
    }
    push(&mut cases, &b, d);
    ex.state(&(len, s));
    ex.describe(|| format!("delta {} on a base of {} bytes cut at every point", s, len));
    judge(ex, &b, &cases, "cut delta")
}

/// declared lengths around every varint boundary
fn lengths(ex: &Exec) -> Res {
    let len = *ex.pick(&[0usize, 1, 126, 127, 128, 129, 16383, 16384, 16385, 65536, 2097151, 2097152]);
    let b = base(len);
    let target = *ex.pick(&[1usize, 126, 127, 128, 129, 16383, 16384, 16385, 65535, 65536, 65537, 2097151, 2097152]);
    let mut ins = vec![];
    let mut left = target;
    let mut at = 0;
    while left > 0 {
        let room = len.saturating_sub(at).min(left).min(65536);
        if room > 200 {
            ins.push(Instr::Copy(at as u32, room as u32, 0));
            left -= room;
            at = (at + room) % (len / 2 + 1);
        } else {
            let n = left.min(127);
            ins.push(Instr::Insert(noise(left as u64, n)));
            left -= n;
            at = 0;
            if len > 4000 {
                continue;
            }
        }
    }
    let d = delta(len, target, &ins);
    let mut cases = vec![];
    push(&mut cases, &b, d.clone());
    for (bl, rl) in [
        (len as u64 + 1, target as u64),
        (len as u64 ^ 0x80, target as u64),
        (len as u64 + (1 << 32), target as u64),
        (len as u64, target as u64 + 1),
        (len as u64, target as u64 - 1),
        (len as u64, target as u64 ^ 0x80),
        (len as u64, target as u64 + (1 << 32)),
        (len as u64, target as u64 + 65536),
        (target as u64, len as u64),
    ] {
        if (bl, rl) == (len as u64, target as u64) {
            continue;
        }
        let mut e = varint(bl);
        e.extend(varint(rl));
        let skip = varint(len as u64).len() + varint(target as u64).len();
        e.extend_from_slice(&d[skip..]);
        push(&mut cases, &b, e);
    }
    ex.state(&(len, target));
    ex.describe(|| format!("base of {} bytes, result of {} bytes", len, target));
    judge(ex, &b, &cases, "lengths")
}

/// four offset bytes, the largest copy size, long deltas
fn big(ex: &Exec) -> Res {
    let which = ex.choose(4);
    let many = if ex.quick() { 1_000_000 } else { 8_000_000 };
    let b = match which {
        0 => base(0x0101_0400),
        1 => base(0x0100_0000),
        _ => base(1000),
    };
    let mut cases = vec![];
    let all: Vec<Vec<Instr>> = match which {
        0 => vec![
            vec![Instr::Copy(0x0100_0000, 10, 0), Instr::Copy(0x0101_0203, 0x101, 0)],
            vec![Instr::Copy(0x0100_0100, 0x1_0001, 0x0f)],
            vec![Instr::Copy(0, 0xff_ffff, 0)],
            vec![Instr::Copy(0x00ff_ffff, 2, 0)],
            vec![Instr::Copy(0x0101_03ff, 1, 0)],
            vec![Instr::Copy(0x0101_03ff, 2, 0)],
        ],
        1 => vec![vec![Instr::Copy(0, 0xff_0000, 0)], vec![Instr::Copy(1, 0xff_ffff, 0)], vec![Instr::Copy(2, 0xff_ffff, 0)]],
        // so many instructions that work which grows with what went before would not end
        3 => vec![
            (0..many).map(|i| Instr::Insert(vec![i as u8])).collect(),
            (0..many).map(|i| Instr::Copy((i % 999) as u32, 1, 0x7f)).collect(),
            (0..many).map(|i| if i % 2 == 0 { Instr::Insert(vec![i as u8, 1]) } else { Instr::Copy((i % 900) as u32, 3, 0) }).collect(),
            (0..many / 40).map(|i| Instr::Insert(noise(i as u64, 127))).collect(),
        ],
        _ => vec![
            (0..700).map(|i| Instr::Insert(noise(i, 127))).collect(),
            (0..30_000).map(|i| Instr::Copy((i % 999) as u32, 1, 0)).collect(),
            (0..4000)
                .map(|i| {
                    if i % 2 == 0 {
                        Instr::Copy((i % 900) as u32, 97, 0x7f)
                    } else {
                        Instr::Insert(noise(i, 1 + i as usize % 127))
                    }
                })
                .collect(),
        ],
    };
    for s in &all {
        let n: usize = s
            .iter()
            .map(|x| match x {
                Instr::Copy(_, s, _) => *s as usize,
                Instr::Insert(b) => b.len(),
            })
            .sum();
        push(&mut cases, &b, delta(b.len(), n, s));
    }
    ex.state(&("big", which));
    ex.describe(|| format!("large deltas, group {}", which));
    judge(ex, &b, &cases, "large delta")
}

/// bases and results beyond what 28, 31 and 32 bits can say
fn giant(ex: &Exec) -> Res {
    let far = if ex.quick() { 1u64 << 28 } else { *ex.pick(&[1u64 << 28, 1 << 31, (1 << 32) - 0x20]) };
    let base = Sparse::around(far + 77, &[0, 1 << 16, 1 << 24, (1 << 28) - 1, far, far + 76, (1 << 31) - 1]);
    let kind = Kind::Blob;
    let bid = fake_id(0);
    const MAX: u64 = 0xff_ffff;
    let all = || (0..far + 77).step_by(MAX as usize).map(|o| (o, MAX.min(far + 77 - o)));
    let cases: Vec<Vec<(u64, u64)>> = vec![
        vec![(far + 1, 20)],
        vec![(far - 3, 10), (5, 5), ((1 << 28) - 2, 70_000.min(far + 77 - (1 << 28)))],
        all().collect(),
        all().chain(all()).take(if far > 1 << 31 { 20 } else { 600 }).collect(),
    ];
    let mut es = vec![base.packed(kind, bid)];
    let mut want = vec![];
    for (i, c) in cases.iter().enumerate() {
        let mut w = Sparse { len: 0, marks: vec![] };
        let mut ins = vec![];
        for (off, size) in c {
            base.copy_to(*off, *size, &mut w);
            ins.push(Instr::Copy(*off as u32, *size as u32, 0));
        }
        es.push(PackEntry::delta(fake_id(i + 1), if i % 2 == 0 { Rep::Ofs(0) } else { Rep::Ref(bid) }, delta(base.len as usize, w.len as usize, &ins)));
        want.push(w);
    }
    let r = Repo::new(ex.fresh_dir());
    r.put_pack(2, 2, &es);
    let i = ex.choose(cases.len());
    ex.state(&("giant", far, i));
    let ctx = || format!("base of {} bytes, result {} of {} bytes", base.len, i, want[i].len);
    ex.describe(ctx);
    crate::alloc::up_to(1 << 34, || check_stream(ex, &r.db(), &fake_id(i + 1), kind, &want[i], &ctx))
}
