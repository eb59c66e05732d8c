COMMON = (" Runs the real binary, rebuilt from /repo's working tree, as an unprivileged user in a scratch directory; "
          "assurance is that of seeded random search: nothing is shown about inputs that were not generated.")
E_ = "exploration"
NOTES = {
 "C01": ("property-based testing: generated file trees, backup/restore round trip, independent repository reader", E_,
         "Compares every restored entry (names, types, bytes, targets, with flags also times and modes) with the generated tree, and the stored repository through a reader which shares no code with backpak. Ownership and access times are not compared." + COMMON),
 "C02": ("stateful property-based testing: generated histories of edits and backups against a model of all snapshots", E_,
         "Every snapshot of a history is restored and compared with the model's state at its time; edits keep to the documented change detection (size or mtime changes when bytes do)." + COMMON),
 "C03": ("stateful property-based testing: generated histories, blob inventory by an independent pack reader against the model's known contents", E_,
         "After every backup all packs are parsed and no blob ID may occur twice; content known to the model must not be uploaded again, identical trees must upload nothing." + COMMON),
 "C04": ("stateful property-based testing: generated backup/forget/prune histories, exact reachability computed by an independent reader", E_,
         "After every prune the blobs stored must be exactly those reachable from the remaining snapshots, a second prune must change no byte, and all snapshots are restored." + COMMON),
 "C05": ("fault-injection property testing: generated command lines are killed at generated system calls (ptrace-free seccomp supervisor), checked by an independent reader and by continuing", E_,
         "Kill points are the file-changing system calls of the command, torn writes included; a second kill during recovery too. Loss of unsynced data (power failure) is not modelled." + COMMON),
 "C06": ("property-based testing: generated damage to stored objects, check's verdict against restores and an independent reader", E_,
         "Damage covers removal, truncation, bit flips, insertion, exchange and well-formed forgeries of packs, indexes and snapshots." + COMMON),
 "C07": ("property-based testing: generated damage to stored objects, every reading command's output compared with the model", E_,
         "Reading commands either give what was backed up or fail; a panic counts as a violation." + COMMON),
 "C08": ("stateful property-based testing: generated histories on two repositories, both read by an independent reader and compared with the model", E_,
         "Copied snapshots are compared entry by entry, including metadata; skip patterns are such that they mean the same for the path in the snapshot and the absolute path." + COMMON),
 "C09": ("stateful property-based testing: generated skip patterns evaluated by a model over snapshot contents, independent reader", E_,
         "Patterns are matched against the path within the snapshot; anchored ones are not generated." + COMMON),
 "C10": ("stateful property-based testing: generated histories, ls, dump, diff and cat compared with a model of the snapshots", E_,
         "Names without line breaks; the order of lines within one listing is not compared." + COMMON),
 "C12": ("stateful property-based testing: generated snapshot sets (also written by the harness, with equal times and colliding ID prefixes) and references, resolved by a model", E_,
         "Every command taking references is run with each form of reference. Snapshots of the same time are taken to be ordered by ID." + COMMON),
 "C11": ("property-based testing: generated snapshots restored over generated edited destinations, expected outcome by a merge model", E_,
         "Every entry of the destination and of everything beside it is compared with what the model allows, twice. Links replaced by a restore get their times on the next run only; hard-linked files' metadata is not compared." + COMMON),
 "C13": ("property-based testing: repositories of generated histories parsed by an independent reader of the documented format; generated values through the library's encoders and decoders and an independent encoder", E_,
         "Times within 64 bit nanoseconds. If the library does not build with the harness, only the repositories are examined." + COMMON),
 "C14": ("property-based testing: generated contents around the size limits and edits of them, metamorphic relations between the cuts of both versions (library and command line)", E_,
         "Cuts must depend only on the data around them: equal prefixes and equal data after a common cut are cut alike, whether read into memory or mapped. Random data must resynchronise within 16 MiB after an edit." + COMMON),
 "C25": ("property-based testing: generated blob sequences through the library's packer with consumers of varied speed; generated histories through the command line on pretended machines of 1 to 19 cores, packs read by an independent reader, order of uploads from a trace of system calls", E_,
         "Blobs are not empty and no blob is sent twice. How far a pack may exceed the limit is tested for data that hardly compresses." + COMMON),
 "C15": ("stateful property-based testing: generated scripts of cache operations (threads, handles, lost files) against an LRU model; generated command histories with tiny caches, wiped, damaged, shared, killed, compared with an empty cache and none", E_,
         "Limits from 1 byte. An entry bigger than the limit may stay on its own; files left by killed commands needn't be counted." + COMMON),
 "C16": ("stateful property-based testing with fault injection: generated histories on repositories filtered by seven scripts, generated failures of chosen filter and unfilter calls, stored objects decoded by an independent reader", E_,
         "Filters fail by exit status or signal, before, in the middle of or after their output; unfilters also by giving too little and reporting success." + COMMON),
 "C17": ("stateful property-based testing: generated scripts of many threads taking and giving back slots of the library's semaphore, against a counter model", E_,
         "Schedules are those the machine's 8 cores produce while many threads act at the same moment; they are sampled, not enumerated. Thousands of scripts per run." + COMMON),
 "C18": ("stateful property-based testing: a generated dry run in a generated situation (history, left-overs of a killed command), everything compared byte for byte, then the real run with and without the dry run before it", E_,
         "The cache may be filled by reading and access times may change." + COMMON),
 "C19": ("property-based testing: generated trees (links, special and unreadable files), skip patterns, configurations and options; the selection computed by an independent walk of the real files", E_,
         "Patterns are from a sublanguage for which the harness has its own matcher of the documented meaning; skips in .backpak replace the global ones." + COMMON),
 "C20": ("stateful property-based testing: generated histories with empty snapshots and killed backups; usage and snapshots --sizes parsed and compared with sums by an independent repository reader; the library's forest sizes exactly", E_,
         "Printed sizes are rounded, so they must be what the real number rounds to. Which of several files sharing data counts as bringing it is left open." + COMMON),
 "C21": ("stateful property-based testing with fault injection: generated histories, then index files removed, damaged, swapped or stale, packs lost, rebuild-index killed at a generated system call; the index compared with the packs by an independent reader", E_,
         "A rebuild with neither packs nor indexes is left out. When packs are lost, snapshots needing them are broken, and everything else must keep working; work left over by a killed command may be lost with them." + COMMON),
 "C24": ("stateful property-based testing over generated schedules: commands on one repository stopped at generated system calls and run in turns, or freely in parallel; every snapshot afterwards compared with the model by an independent reader", E_,
         "Concurrent commands are backups and readers (not prune). In the interleaved suite a generated schedule decides at each switch which command runs on, at system call granularity, without the cache (whose database blocks)." + COMMON),
 "C22": ("stateful property-based testing with fault injection: commands in generated situations whose generated system calls fail once, twice, from there on, or are cut short; exit status against the result by an independent reader, then repeated without faults", E_,
         "ENOSPC, EIO, EINTR, EDQUOT, EACCES, EROFS, EXDEV and short reads and writes on files of the repository, cache, working directory, source and destination; the failing thread may be slow to die. Memory-mapped reading does not fail." + COMMON),
 "C23": ("stateful property-based testing with fault injection: generated histories on repositories in a model B2 service (loopback); generated refusals, broken connections, cut answers and uploads, expired tokens, missing and repeated objects; the bucket read by an independent reader, then restored", E_,
         "The model service is written from B2's documented API; a guarded hook replaces the base URL (plain HTTP); naps between retries are shortened. More than 60 repetitions of a request count as going on forever." + COMMON),
}
