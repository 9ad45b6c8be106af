import json
H={}
def h(i,o,w,c): H[i]=dict(oracle=o,why=w,cost=c)
h('S01','a map from id to bytes, a layout reader that inflates the file itself, and git (`cat-file`, `fsck`).','a store must be right for every length around the buffer sizes and for every order of stores and reads, not for one example.','18 s')
h('S02','after every crash image and after every fault: not found or exact through a fresh handle, other objects unchanged, a retried store succeeds, an acknowledged one is readable.','tests cannot stop a process between two system calls, nor lose unsynced data.','17 s')
h('S03','a store succeeds; a read is nothing or exact; monotone in real time.','the failing schedules need a switch between two particular calls.','39 s')
h('R01','the content the generator put in; git for packs git writes.','product of representation, position, depth, size.','10 s')
h('R02','a reference interpreter of delta instructions.','every opcode and argument byte, and every malformed string up to a length.','21 s')
h('R03','the map from id to offset the index was written from.','fan-out and binary search boundaries depend on the distribution of ids and on the offsets.','4 s')
h('R04','filter of all ids by prefix; order laws.','ambiguity depends on several packs together.','2 s')
h('R05','the same read through a freshly opened handle.','caches make a read depend on history.','4 s')
h('R06','the set of objects that exist throughout; another process works at every system call.','the window is a few system calls wide.','5 s')
h('R07','results of each read alone; absence of deadlock.','needs particular interleavings, twice in a row.','34 s')
h('R08','original content or an error (other than not found).','every byte, every value, every truncation.','2 s')
h('R09','terminates with error or content that hashes to the id; damage to object data, sizes, mismatched index: error.','as R08, for a pack of chained deltas.','9 s')
h('R10','same result under short reads and EINTR; under errors: an error that is not "not found", and a correct read afterwards.','errors at one particular call of a read.','26 s')
h('R11','undamaged objects read as always.','order in which packs are met and what was read before.','0.4 s')
h('P01','header grammar.','all lengths against all lengths.','1 s')
h('P02','reference parser; git.','all orders of lines and headers.','2 s')
h('P03','the entries the tree was written from; git ls-tree.','all bytes in modes, names, ids; every cut.','1 s')
h('P04','reference parser; git.','all orders of lines and headers.','0.3 s')
h('P05','reference parser of signatures with git\'s rule for padding.','every class of byte at every place.','2 s')
h('P06','returns normally.','all short strings over a token alphabet, all single-byte changes.','8 s')
h('F01','reference parser.','every byte at every position.','0.7 s')
h('F02','the files that were put there; another process updating at every call.','configurations and races.','3 s')
h('F03','graph walk on the model.','every graph over four names.','3 s')
h('F04','no path outside the git directory is opened (checked at the open call); lexical resolution.','all names from an alphabet of components.','0.4 s')
h('U01','hex model.','every byte at every position.','0.3 s')
h('U02','model of what makes a repository; set of objects.','product of layouts.','0.5 s')
json.dump(H,open('/verif/design/how.json','w'))
