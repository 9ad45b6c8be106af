#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line). Source of truth for the property texts."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

DB="src/object/database.rs"; LO="src/object/database/loose.rs"; PK="src/object/database/packed.rs"
RD="src/object/database/reader.rs"; IX="src/object/database/packed/index.rs"; PF="src/object/database/packed/pack.rs"
DE="src/object/database/packed/delta.rs"; BU="src/parse/buffer.rs"; PA="src/parse/parser.rs"; OP="src/object/parse.rs"
RP="src/reference/parser.rs"; RDB="src/reference/database.rs"; SY="src/reference/symbolic.rs"

p("S01","Stored objects read back exactly, under their SHA-1 id",
  "Storing a byte string returns the SHA-1 of exactly those bytes, and every later read of that id, through the same or a freshly opened handle, yields exactly those bytes. The object is stored in Git's loose layout (objects/xx/38-hex-digits, zlib) so that Git reads it too. Storing the same bytes again returns the same id, leaves the stored content unchanged and refreshes the file's modification time (which never goes back), and no store ever changes what another id reads as.",
  ["inputs","histories"],"every byte string stored (sizes across every internal buffer boundary) and every sequence of stores and reads on old and new handles",
  "roundtrip_object samples random strings under 1000 bytes with one store and one read; no sequences, no second handle, no sizes past the 8 KiB/32 KiB buffers, no layout check.",
  [LO,DB,RD,"src/object.rs"],[("write_object",LO),("read_object",LO),("Id::from_hash","src/object.rs")],
  observe=["ObjectDatabase::write_object","ObjectDatabase::read_object","objects/xx/ on disk"])
p("S02","An interrupted or failing store never leaves a damaged object",
  "If the process dies, power is lost or a system call fails at any point while an object is being stored, then afterwards reading its id either reports it as not found or yields exactly the stored bytes, never a damaged or partial object. A store that was acknowledged stays readable (a store that failed is reported as an error, not acknowledged), and storing the same bytes again after any such interruption succeeds and makes the object readable. Objects stored before are unaffected.",
  ["crash_points","fault_sequences"],"every prefix of the file-system operations a store performs, every torn length of an interrupted write, loss of data not yet synced, and every error (ENOSPC, EIO, EINTR, short write) at every one of those operations",
  "The tests never interrupt a store or fail a system call; a crash point cannot be expressed in them.",
  [LO],[("write_object",LO)],observe=["ObjectDatabase::write_object result","reads through a new handle after the interruption"])
p("S03","Concurrent stores and reads of loose objects are atomic",
  "When several threads or processes store and read objects at the same time, every store of valid data succeeds, every read yields either not found or the complete exact object, and once any store of an object has returned or any read of it has succeeded, every later read of it succeeds. Concurrent stores of the same object, or of objects sharing a directory, do not disturb each other.",
  ["schedules"],"all interleavings of the file-system operations of 2-3 concurrent stores and reads on the same or neighbouring objects, up to a preemption bound",
  "All tests are single-threaded.",
  [LO,DB],[("write_object",LO),("read_object",LO)],observe=["results of write_object/parse_object on concurrent threads"])

p("R01","An object reads the same however it is stored",
  "An object's id, kind and content are the same whether it is stored loose, whole in a pack, as an offset delta or as a reference delta, at any chain depth and delta distance, in any position of the pack, in several packs at once or both packed and loose, in every pack (2, 3) and index (1, 2) version Git writes. The raw stream obtained for the object is the same too.",
  ["inputs","configurations"],"every storage representation of objects of all four kinds, with content sizes across every length-encoding boundary, compressible and not, and chains of mixed delta types up to dozens deep",
  "One test reads one undeltified commit from one pack; no delta, no other version, size or position is ever read.",
  [PF,PK,RD,DB,BU,DE],[("find_chain / apply_delta",PF),("read_object",DB),("ObjectReader",RD),("read_pack_object_header",PF),("read_delta_offset",PF)],
  state=[("cache","reconstructed objects by offset",PF)],observe=["ObjectDatabase::parse_object","ObjectDatabase::read_object().reader()"])
p("R02","Deltas are applied exactly as Git defines",
  "A delta object's content is exactly the result of executing its copy and insert instructions on its base, for every instruction encoding Git allows (omitted zero bytes, size zero meaning 65536, any insert of 1-127 bytes). A delta whose instructions are truncated, reserved, out of the base's range, or whose declared base or result length does not match, is reported as an error and never as content.",
  ["inputs"],"every instruction sequence up to a bound over boundary offsets and sizes, every encoding of them, and every short byte string over the opcode classes",
  "No test applies a delta at all.",
  [DE,PF],[("apply_delta",DE),("read_command",DE),("read_delta_header",DE)],observe=["ObjectDatabase::parse_object of a delta object"])
p("R03","Index lookups find exactly the recorded object",
  "For every valid pack index (version 1 or 2, any number of objects, any distribution of ids, 31-bit, 32-bit or 64-bit offsets) a lookup by full id reads the object at exactly the offset the index records for that id. An id that the index does not contain is reported as not found, never as another object or another error.",
  ["inputs","configurations"],"every small set of ids over boundary first bytes and shared prefixes, in both index versions, with every mix of small and large offsets, and lookups of every member and every near miss",
  "Two hand-made indexes with three ids are parsed; first-byte 0x00/0xff buckets, empty buckets, v1 offsets above 2 GiB and several large offsets are never looked up.",
  [IX,PK,PF],[("find_offset",IX),("IndexFile::parse",IX),("offsets",IX)],observe=["ObjectDatabase::parse_object"])
p("R04","Abbreviated ids resolve only when unambiguous, and order correctly",
  "An abbreviated id looked up among packed objects finds the object exactly when one distinct object id in all packs together starts with it, is reported as ambiguous when several do (the same object in several packs counts once), and as not found when none does. Comparing an abbreviated id with a full id orders it immediately before all ids it is a prefix of, consistently in both directions.",
  ["inputs","configurations"],"every small set of ids with common prefixes of every length, spread in every way over up to three packs, and every abbreviation length",
  "Three ids and a handful of prefixes in one index; several packs are never combined.",
  [IX,PK,"src/object.rs"],[("find_offset",IX),("try_read_object",PK),("cmp_id / cmp_short","src/object.rs")],
  observe=["ShortId::cmp_id","Id::cmp_short","packed lookup through the hook"],hook="ObjectDatabase lookup by ShortId")
p("R05","What was read before never changes what a read returns",
  "Every read through one database handle returns what the same read on a freshly opened handle returns, whatever reads, failed reads, missing ids or stores were issued on that handle before.",
  ["histories"],"every sequence of reads up to a depth over objects sharing delta bases, including damaged objects and missing ids",
  "No test issues more than one read of a packed object on a handle.",
  [PF,PK,DB],[("cache",PF),("refresh",PK)],state=[("cache","reconstructed objects by offset",PF),("packs","opened packs",PK),("last_refresh","time of last directory scan",PK)],
  observe=["ObjectDatabase::parse_object"])
p("R06","Objects stay readable while the repository is written and repacked",
  "An object that exists in the repository during a whole read is found by that read, even if another process meanwhile stores, packs, repacks or prunes (moving the object from loose to packed or from one pack to another at any moment), however recently the handle last looked at the disk. An object stored or packed before a read starts is visible to that read on every open handle, including in a repository that has no pack directory.",
  ["schedules","histories"],"every history of store/pack/prune/repack/read operations up to a depth, and every placement of the steps of one concurrent repack among the system calls of a read",
  "No test changes a repository while a handle on it is open.",
  [DB,PK,LO],[("read_object retry",DB),("refresh",PK)],state=[("last_refresh","time of last directory scan",PK)],
  observe=["ObjectDatabase::parse_object / is_not_found"])
p("R07","Concurrent reads agree with sequential ones and never deadlock",
  "Any number of threads reading objects through one shared handle at the same time each get exactly the results they would get alone, and all of them finish.",
  ["schedules"],"all interleavings, up to a preemption bound, of 2-3 threads reading plain and delta objects of the same and different packs, including the first use of a handle",
  "All tests are single-threaded.",
  [PF,PK,DB],[("file mutex and seek position",PF),("cache shard locks",PF),("refresh lock",PK)],
  state=[("file","shared file cursor and buffer",PF),("cache","reconstructed objects",PF),("packs","opened packs",PK)],observe=["results of concurrent parse_object calls"])
p("R08","Damaged loose objects are reported, never returned as content",
  "If a loose object file is truncated anywhere or any of its bytes is altered, parsing the object either fails with an error or returns exactly the content originally stored, and never reports the object as not found.",
  ["fault_sequences","inputs"],"every truncation and every single-byte and single-bit change of loose files of objects of every kind, several sizes and compression levels",
  "No test reads a damaged file.",
  [RD,BU,OP,LO],[("zlib checksum",RD),("read_to_end",BU),("read_object_header",OP)],observe=["ObjectDatabase::parse_object"])
p("R09","Damaged or hostile packs never crash, hang or forge content",
  "Whatever bytes a pack or index file contains (truncated, altered, inconsistent, with impossible lengths, offsets or cyclic deltas), reading through it ends with an object or an error: never a panic, an abort, endless work or memory use out of proportion to the data. Parsing an object never returns content that does not hash to the id asked for. Damage inside compressed object data, a declared object size that does not match, and an index that does not belong to its pack (different object count or pack checksum) make parsing the objects concerned fail with an error.",
  ["inputs","fault_sequences"],"every truncation and every single-byte change of small packs and indexes covering all entry types, plus every combination of hostile header fields, delta bases and index tables from boundary alphabets",
  "No test reads a malformed pack or index.",
  [PF,IX,DE,PK,BU],[("PackFile::open / find_chain",PF),("IndexFile::parse / find_offset",IX),("Entry::open",PK),("fill_buf_to",BU)],
  observe=["ObjectDatabase::parse_object: Ok with content of that id, or Err"])
p("R10","Read interruptions are harmless and read failures are reported",
  "Short reads and interrupted system calls never change the result of reading an object or a reference. Any other input/output failure during a read is reported as an error, never as not found, as different content or as a panic, and after it has passed the same handle reads everything correctly again.",
  ["fault_sequences"],"every choice of short read, EINTR or error at every system call of reading loose, packed and delta objects, indexes and references, up to a number of deviations per read",
  "Buffer unit tests feed three-chunk readers to single methods; no I/O error is injected into any database operation.",
  [BU,RD,PF,PK,IX,RP,LO,RDB],[("retry on Interrupted",BU),("refresh",PK),("error mapping",DB)],observe=["ObjectDatabase::parse_object","ReferenceDatabase::reference"])
p("R11","Damage stays local",
  "A pack or index that cannot be opened or is damaged, a damaged object, or any other file or directory in the object store never makes an undamaged object stored elsewhere unreadable or different, whichever of them is met first and whatever was read before.",
  ["configurations","histories"],"every kind of unusable pack, index, foreign file and damaged object, in every directory order, and every sequence of reads of damaged, undamaged and missing ids up to a depth on one handle",
  "Tests only ever see one intact pack.",
  [PK,DB,PF,IX],[("refresh / refresh_and_read_object / try_read_object",PK),("read_object",DB)],state=[("packs","opened packs, and the error of a pack that cannot be opened",PK)],
  observe=["ObjectDatabase::parse_object of objects outside the damaged files"])

p("P01","Object headers are validated",
  "A loose object is accepted only if it starts with a known kind, a space, its length in decimal and a NUL, and the length equals the number of bytes that follow; then exactly those bytes are its content. Any other object (unknown kind, missing separator, unreadable or overflowing length, more or fewer bytes than declared) is rejected with an error, without allocating memory for bytes that are not there.",
  ["inputs"],"every combination of kind word, separator, length text and actual content length over boundary alphabets",
  "Five headers are parsed in memory; no length mismatch, short or oversized object is ever read.",
  [OP,BU,RD],[("read_object_header",OP),("read_object_body",OP),("read_to_end",BU)],observe=["ObjectDatabase::parse_object"])
p("P02","Commits parse to exactly their fields",
  "For every commit object Git can create, the tree, all parents in order, author, committer, encoding and message reported are exactly those written in it, whatever extra headers (signatures, merge tags, unknown ones), repeated author lines or message bytes it contains. A commit whose tree, author or committer line is missing, out of order or malformed, or one of whose parent ids is malformed, is rejected.",
  ["inputs"],"every sequence of commit header and message tokens up to a length, with every boundary number of parents and every storage form",
  "One commit text and one commit made by git are parsed.",
  ["src/object/commit.rs",PA,"src/object/signature.rs"],[("Commit::parse","src/object/commit.rs"),("parse_hex_id_line / parse_prefix_line",PA)],observe=["Commit accessors"])
p("P03","Trees parse to exactly their entries",
  "For every tree object, the entries reported are exactly those written in it: same number, same order, and for each the same mode, the same name bytes and the same id. A tree with a truncated entry, a mode that is not an octal number of 16 bits, or a missing separator is rejected.",
  ["inputs"],"every sequence of entries over boundary modes, names and ids up to a length, and every token sequence and truncation of them",
  "One two-entry tree is parsed.",
  ["src/object/tree.rs",PA],[("Tree::parse","src/object/tree.rs")],observe=["Tree::entries","TreeEntry accessors"])
p("P04","Tags parse to exactly their fields",
  "For every annotated tag, the target id, target kind, name, tagger (or its absence) and message (or its absence) reported are exactly those written in it. A tag whose object, type or name line is missing, misplaced or malformed, or whose target kind is unknown, is rejected.",
  ["inputs"],"every sequence of tag header and message tokens up to a length and every storage form",
  "One tag made by git is read.",
  ["src/object/tag.rs",PA,OP],[("Tag::parse","src/object/tag.rs"),("ObjectKind::from_bytes",OP)],observe=["Tag accessors"])
p("P05","Signatures report name, email, time and zone as recorded",
  "For every signature Git records, of any bytes in any encoding, the reported email and name are those between the delimiters without the surrounding padding that Git itself strips (bytes 0-32 and . , : ; < > \" \\ '), and with nothing else removed; timestamp and time zone are the recorded digits, or absent when not recorded.",
  ["inputs"],"every name and email over an alphabet of letters, digits, crud characters, brackets and non-UTF-8 bytes up to a length, with every form of date",
  "Three signatures of one plain ASCII person are parsed.",
  ["src/object/signature.rs"],[("Signature::regex","src/object/signature.rs")],observe=["Signature accessors on commits and tags"])
p("P06","No object or reference content can cause a panic",
  "Whatever bytes an object of any kind or a reference file consists of, reading it and then calling any accessor or printing the result returns normally with a value or an error; it never panics, aborts or runs away.",
  ["inputs"],"every single-byte substitution, insertion, deletion and truncation of well-formed objects and references, and every token string up to a length",
  "A property test feeds random bytes to the reference parser only.",
  ["src/object/commit.rs","src/object/tag.rs","src/object/tree.rs","src/object/signature.rs",OP,RP,PA],[("parse functions",OP),("accessors that expect validated data","src/object/commit.rs")],
  observe=["all public accessors and Debug output"])

p("F01","Reference files parse to what they say",
  "A reference file consisting of an object id reads as a direct reference to that id, one of the form 'ref: NAME' as a symbolic reference to exactly NAME (with or without a slash in it), and a line 'ID NAME' as a reference to NAME already resolved to ID; trailing white space or line ends are ignored and comment and blank lines before it are skipped. A file without such a line, or with a malformed id, is an error.",
  ["inputs"],"every token string up to a length over ids, names, prefixes, separators, comments and line ends",
  "Seven fixed strings and random bytes (for absence of panics only).",
  [RP,"src/reference/direct.rs",SY],[("Parser::parse",RP)],observe=["Reference::from_bytes","ReferenceDatabase::reference","Reference::target / name / peel"])
p("F02","Listing references returns exactly the references that exist",
  "The list of references consists of exactly the branch, tag and remote-tracking reference files of the repository, each once, under its full name as bytes with forward slashes, at any nesting depth; the per-category lists are exactly its parts. Directories that do not exist or are empty contribute nothing, lock files of an update in progress are not listed, and every listed name can be read as a reference. References that exist throughout are listed once even while others are created, updated or deleted.",
  ["configurations"],"every subset of a set of reference files, nested, empty and missing directories, lock files and unusual names",
  "The only test that lists references ignores the result.",
  [RDB],[("reference_names",RDB),("get_file_paths_from_dir",RDB)],observe=["ReferenceDatabase::reference_names and its three parts"])
p("F03","References resolve to the object they lead to",
  "Peeling a reference follows symbolic references from file to file and yields exactly the object whose id stands at the end. A chain that ends at a missing reference, a missing object or a malformed file is an error, and a cycle of symbolic references is an error too, never endless work or a crash.",
  ["configurations"],"every graph of up to four references over direct, dangling, symbolic, pre-resolved, malformed and absent contents",
  "HEAD's name is compared once; nothing is ever peeled.",
  [SY,"src/reference/direct.rs","src/reference.rs",RDB],[("Symbolic::peel",SY),("Direct::object","src/reference/direct.rs")],observe=["Reference::peel"])
p("F04","Reference lookups stay inside the repository",
  "No reference name, given by the caller or found in a symbolic reference, makes the library read a file outside the repository's git directory: names that are absolute or climb out of it with '..' are reported as errors. Names inside it resolve to exactly the file of that name.",
  ["inputs"],"every name of up to five components over ordinary names, '.', '..', empty and absolute forms, used directly and as a symbolic target",
  "No test looks up an unusual name.",
  [RDB,SY],[("read_reference_file",RDB)],observe=["ReferenceDatabase::reference / parse_reference / read_reference_file","files opened"])

p("U01","Ids convert to and from text without loss and order as bytes",
  "A full id parses from exactly the 40-digit hexadecimal strings and an abbreviated id from exactly the even-length ones of 4 to 40 digits, in either case; printing gives back the same digits in lower case, and every other string is an error. Ids compare equal exactly when their digits do and order like their digits, and an id's abbreviated form of full length denotes the same id.",
  ["inputs"],"every string length from 0 to 44, every byte value at every position, and all pairs from a boundary set of ids",
  "One short id is compared with seven ids.",
  ["src/object.rs"],[("Id::from_hex / to_hex","src/object.rs"),("ShortId::from_hex","src/object.rs")],observe=["Id and ShortId public API"])
p("U02","Opening recognises repositories and errors are classified truthfully",
  "Opening a path succeeds exactly when it contains a git directory and otherwise reports that no repository was found there; a repository opens whatever else is missing or broken inside it. A failed object read names the requested id and is classified as not found exactly when the object is in no pack and not loose, in every layout of the object store.",
  ["configurations"],"every combination of path kinds, git directory kinds and present, absent, empty or foreign object directories, packs and loose files",
  "Tests only open freshly initialised repositories and read objects that exist.",
  ["src/repository.rs",DB,"src/object.rs",PK,LO],[("Repository::open","src/repository.rs"),("ReadObjectError","src/object.rs")],observe=["Repository::open","ReadObjectError::is_not_found / is_ambiguous / id"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=True)+"\n")
print(len(P),"properties")
