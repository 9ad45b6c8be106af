use crate::explorer::{Exec, Res};

mod f_refs;
pub mod gen;
mod p_objects;
mod r_damage;
mod r_delta;
mod r_faults;
mod r_history;
mod r_index;
mod r_sched;
mod r_storage;
mod s_store;
mod scale;
mod sparse;
mod u_ids;
pub mod util;

pub struct Check {
    pub id: &'static str,
    pub body: fn(&Exec) -> Res,
    pub thorough_s: u64,
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn all() -> &'static [Check] {
    ALL
}

/// Runs every lazily initialised global once, before anything is explored.
pub fn warm_up() {
    use crate::gitfmt::*;
    let dir = std::env::temp_dir().join(format!("mc-warm.{}", std::process::id()));
    let r = crate::repo::Repo::new(dir.clone());
    let c = r.put_loose(
        Kind::Commit,
        b"tree 0000000000000000000000000000000000000000\nauthor a <b> 1 +0000\ncommitter a <b> 1 +0000\n\nm",
    );
    let _ = crate::repo::parse(&r.db(), &c);
    let _ = std::fs::remove_dir_all(&dir);
}

macro_rules! check {
    ($id:literal, $f:path, $t:literal, $bounds:literal $(, $a:literal)*) => {
        Check { id: $id, body: $f, thorough_s: $t, bounds: $bounds, assumptions: &[$($a),*] }
    };
}

const ALL: &[Check] = &[
    check!("S01", s_store::s01, 840, "138 sizes to 16 MiB (256 MiB) x 4 byte patterns; every history of 4 (5) stores and reads of 5 byte strings on an old and new handles from 3 starting states; exchange with git for every kind; 3000 (40000) stores by one handle; every history of 5 (7) stores, reads, repacks, removals of packs or of loose files and waits on 2 objects from 3 starts"),
    check!("S02", s_store::s02, 840, "stop before every mutating system call of a store and inside every write (3 torn lengths), each with 5 fates of unsynced data; every error (ENOSPC, EIO, EINTR, EACCES, EMFILE, ENOENT, EROFS, EPERM, EDQUOT), short write and completed store of the same object by another process at every system call, up to 2 per store; 4 objects x 4 starting states; 1 (2) interrupted stores in a row, then a retry; stores in a process of their own, killed before each of its system calls, 1 (2) killed in a row and the process ids reused", "name operations (create, rename, link) are atomic and survive in order; data of a file survives a power loss only if it was synced"),
    check!("S03", s_store::s03, 840, "8 two-thread programs with 2 (3) preemptions and 4 three-thread programs with 2, shared and own handles, directory there or not; 2 and 3 processes (same and different process ids) interleaved at every system call with 2 (3) preemptions and 1 killed at any point; 11 (13) programs of a pruning process (remove an old object, remove or make the directory) placed in every way among the calls of two stores or a store and a read, from 6 states", "scheduling points are intercepted system calls, contended std locks and map lock operations; code between two points runs atomically"),
    check!("R01", r_storage::r01, 840, "kind x size (22 boundary sizes to 256 KiB) x compressibility x zlib level x versions x representation x position; chains to depth 3 with every link type, order and pair of reads; chains to depth 4095; exact delta distances; every subset of 5 places; 2 or 3 copies in one pack in any of 4 forms with deltas of them; packs of up to 700 objects; stores of up to 257 (400) packs; sizes of 999 999-16 777 217 bytes (to 100 MB) in 4 forms; 200 MB (512 MiB) that do not compress, loose and whole; sparse contents of 2^25 and 2^28+1 bytes (to 2^32+7), loose and whole; raw streams read in pieces of 15 sizes; every history of 4 (6) open/read/drop/parse steps on two streams, with the handle replaced and everything moved between packs and loose files in between; packs written by git; sparse packs with delta distances up to 2^42 and at every edge of their encoding"),
    check!("R02", r_delta::r02, 840, "instruction sequences to length 2 (3) over a boundary alphabet; every copy opcode x argument bytes; all instruction byte strings to length 4 (5) over 11 bytes with right and wrong lengths; valid deltas cut/edited at every byte; varint boundary lengths; 16 MiB bases; 1000000 (8000000) tiny instructions; a sparse base of 2^28+77 (to 2^32-32) bytes, copies across every 32-bit boundary of offset, length and result", "deltas shorter than 4 bytes (rejected by git as such) are not judged"),
    check!("R03", r_index::r03, 840, "every subset of 11 boundary ids x 5 offset styles; 0-19 (39) ids in one bucket with neighbours; sparse packs with offsets around 2 and 4 GiB; up to 65537 (200000) ids; 66003 (200000), 1100000 (4300000) entries of which all but one need a 64-bit offset; ids differing in every byte position"),
    check!("R04", r_index::r04, 840, "4 (6) of 6 ids, each in any of 6 combinations of 3 packs, 3 prefix families, both index versions, every abbreviation; clusters of up to 5 (9) ids sharing 2-19 bytes, each also held several times by the pack; stores of up to 5000 (200000) ids, each looked up under all lengths of abbreviation around its shortest unambiguous one; order laws of every abbreviation against every id of a boundary universe"),
    check!("R05", r_history::r05, 840, "every history of 3 (4) operations: parse/read(/partial read) of 14 ids (bases, deltas sharing them, damaged, damaged base, other pack, loose, damaged loose, stored, missing) and a store, for 6 kinds of damage; each read compared with a fresh handle; every 2 (3) reads of 17 objects whose offsets differ by powers of two up to 1 TiB; 12000 (100000) reads in regular orders on one handle of 300-3000 (20000) objects"),
    check!("R06", r_history::r06, 840, "every history of 5 (7) operations of store/pack/prune/gc/time/read on one handle over 2 objects from 4 starting layouts; every placement of the 7 steps of a repack among the system calls of a read for 4 layouts x 4 handle states x 2 read forms; 2 or 3 threads reading through one handle, each of several program forms, interleaved with the steps of a repack by somebody else with up to 4 preemptions (3 threads: 1 or 2 (2 or 3); at every call: 1 or 2 (2 or 3)); objects are deltas in all packs but every fourth; 150 (1200) rounds of adding and repacking on one handle that may have twice the existing packs and 20 files open"),
    check!("R07", r_sched::r07, 840, "every pair of single reads of 8 objects and 2 abbreviated ids with 2 (3) preemptions, 7 pairs of two-read threads with 1 (2) preemptions, 2 (4) three-thread programs switching only at seeks and contended locks with 2 (3) preemptions, (6 three-thread programs with 2 preemptions), each with spread and colliding map shards and 3 handle states", "scheduling points are intercepted system calls, contended std locks and map lock operations; code between two points runs atomically"),
    check!("R08", r_damage::r08, 840, "8 small loose files: every truncation, every value of every byte, every range filled with 3 values; 5 large files: truncations and byte changes at every 97th/89th (every/3rd) byte and around every 4 KiB boundary, 512-byte ranges; complete files of something else (other objects, kinds, lengths and headers, changes that keep the checksum, exchanged bytes, 4 compressions) for 13 objects; objects of all kinds and 7 (11) sizes to 40 (300) MiB with one other byte at 3 places; every object filed under ids that differ in one or two bits"),
    check!("R09", r_damage::r09, 840, "7-object pack (whole, offset and reference deltas to depth 3) with index v1, v2 and v2 with 64-bit offsets: every truncation of both files, 14 (255) values of every byte of both, 20+ hostile values of every size field, every graph of 3 (4) deltas over 4 (5) objects, cycles to 100, every index offset, 64-bit tables of every length, fan-out ranges, mismatched counts and checksums, 6 kinds of wrong streams; objects of all kinds and 7 (11) sizes to 40 (300) MiB with one other byte, whole and as both kinds of delta; every object listed under ids that differ in one or two bits; memory held after reading 50 (40-400) objects of 8 (1-24) MiB of a pack of a few 100 KB, as chains, deltas of one object or whole"),
    check!("P01", p_objects::p01, 840, "declared length 0-50 (162) x actual length 0-47 (159); 16 buffer boundaries +-12 to 256 KiB x 9 wrong lengths x 4 kinds; 20 kind words x 7 separators x 33 length texts x 6 terminators; every truncation and header byte value of one object per kind; all strings to 3 (4) of 15 header bytes"),
    check!("P02", p_objects::p02, 840, "0-100 parents x 5 x 5 signatures x repeated authors x messages x extra headers; encodings with white space; sequences of 3 (4) of the extra headers; every truncation of the mandatory lines; every sequence of 5 (6) of the 4 mandatory lines; malformed ids, prefixes and signatures at every place; storage forms; comparison with git cat-file/log; 70000 parents, 3000 headers, messages of 1 MiB"),
    check!("P03", p_objects::p03, 840, "mode x name x id alphabets alone and among others; 0-40 and 15 boundary counts of entries to 20000 (100000) with names through every byte and length 1-41; every truncation; 29 malformed modes; 16-bit modes (all in thorough); missing separators; sequences of 3 (4) entries; comparison with git ls-tree"),
    check!("P04", p_objects::p04, 840, "4 kinds x names x taggers (or none) x messages (or none); 1-2 additional headers; every truncation of the mandatory lines; every sequence of 4 (5) lines; malformed ids, kinds and lines; storage forms; comparison with git; names of 70000 bytes, messages of 1 MiB"),
    check!("P05", p_objects::p05, 840, "names and emails of up to 3 (4) tokens over a 35-token alphabet (every class of bytes the rule tells apart); every pair of padding tokens x 6 cores x run lengths; 12 times x 12 zones; every byte at 7 positions and repeated to 1500 bytes; as author, committer and tagger"),
    check!("P06", p_objects::p06, 840, "token strings of 4 (5) of 10-14 tokens per kind; every value of every byte, deletion and truncation of one object per kind; all 1- and 2-byte objects and reference files; reference token strings of 4 (5) of 15 tokens; 23 pieces repeated to 1 (16) MiB before or instead of every part of a commit, tag, tree and reference; every accessor and Debug called"),
    check!("F01", f_refs::f01, 840, "0-2 (4) skipped lines x 14 tails x (4 ids, all names directly/pre-resolved, 18 malformed bodies); every byte at every position of id and name; id lengths 0-90, names and comments to 1 MiB; every sequence of 5 (6) of 14 tokens; files git writes"),
    check!("F02", f_refs::f02, 840, "every subset of 11 files x 8 sets of other things; every pair of 40 similar names in 6 arrangements; 125 states of the category directories with changes on one handle; nesting to 400, 16000 names, every byte alone, first and last in names, extensions and special names, boundary lengths; all of it also on a file system that does not tell entry types; every placement of 5 (6) update programs of another process among the system calls of one listing"),
    check!("F03", f_refs::f03, 840, "all graphs over 4 names x 12 contents (20736); chains and cycles of 22 lengths to 200 x 8 ends, chains to 4096 (20000); histories of 4 (5) changes on one handle; skipped lines and tails at every place of a chain; every ordered pair of 34 special names, alone and among all others"),
    check!("F04", f_refs::f04, 840, "every name of up to 4 (5) of 12 components, leaving and re-entering names, absolute names, climbs to 32 levels; each as an argument of 3 lookups and as a symbolic target; every file opened during a lookup is checked"),
    check!("R10", r_faults::r10, 840, "34 reads (loose, packed, both delta kinds, indexes, abbreviated ids, references, lists with and without entry types, opening), each with every 2 (3) deviations (short reads of 3 lengths, EINTR, EIO, EISDIR, EMFILE, EACCES, ENOMEM, EPERM, ESTALE) at every system call, and every 1 deviation on top of uniformly short or interrupted reads"),
    check!("R11", r_faults::r11, 840, "25 unusable packs/indexes, 33 other things in and outside the pack directory, 5 damaged objects, each in 6 directory orders; a second copy of a pack made unusable in 24 ways x 4 names x 6 orders; every sequence of 2 (3) reads of 8 ids on one handle with and without time passing; 20-150 (400) broken packs around a good one"),
    check!("U01", u_ids::u01, 840, "10 lengths x every byte at every position; lengths 0-130 with 10 additions; all pairs of bytes at both ends; all pairs of a boundary universe of ids; all pairs of prefixes of 5 ids"),
    check!("U02", u_ids::u02, 840, "8 path forms x 9 git directory forms; 3 object stores x 6 pack directories x 5 loose states x 4 places x 2 index versions; 10 kinds of damaged objects"),
];
