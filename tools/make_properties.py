import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Backup then restore reproduces the source exactly",
 "Whenever a backup of some files and directories reports success, restoring that snapshot into an empty place recreates every name, type, file content and symlink target, and nothing else. With --times and --permissions the modification times and modes of files and directories are recreated too, and restoring to the original absolute paths works as well as restoring with -o.",
 ["inputs","configurations"],
 "For every directory forest with UTF-8 names (empty files and directories, odd names, symlinks, dangling links, duplicate contents, multi-chunk and memory-mapped files, hard links, times before 1970 and with sub-second parts, any mode bits), single or multiple paths, any pack size, cached or filtered or plain repository.",
 "The tests back up only the repository's own src directory with default times and modes; they never generate file shapes, sizes around the chunking limits, link forms or odd metadata.",
 ["src/ui/backup.rs","src/ui/restore.rs","src/fs_tree.rs","src/tree.rs","src/chunk.rs","src/pack.rs","src/read.rs"],
 [("walk_fs / backup_tree","src/fs_tree.rs, src/ui/backup.rs"),("chunk, pack and index threads","src/backup.rs, src/pack.rs, src/index.rs"),("Restorer and ChunkReader","src/ui/restore.rs, src/read.rs")],
 ["backpak backup","backpak restore [-o] [--times] [--permissions]"])

p("C02","Every snapshot in a history restores the state it was taken of",
 "In any history of edits and backups into one repository, each snapshot restores exactly the tree as it was when that backup ran, whatever the parent snapshot was and whatever was backed up before or after it. A file whose size or modification time differs from the previous snapshot is always read again; files are never confused with files of other directories, paths or snapshots.",
 ["histories","inputs"],
 "All sequences of file creations, edits (same size with new mtime, new size with old mtime, mtime moving backwards), renames, type swaps, chmods and touches, interleaved with backups of one or several path sets into the same repository.",
 "Tests make at most two or three snapshots of one fixed tree and one hand-made edit; the incremental reuse logic depends on the history of edits between snapshots.",
 ["src/fs_tree.rs","src/ui/backup.rs","src/snapshot.rs","src/index.rs","src/tree.rs"],
 [("file_changed / previous-node reuse","src/fs_tree.rs"),("parent_snapshot","src/ui/backup.rs"),("build_master_index merging one index per backup","src/index.rs")],
 ["backpak backup repeated","backpak restore of every snapshot"])

p("C03","Data already in the repository is never stored again",
 "A completed sequence of backups never stores the same chunk or directory twice: every blob ID occurs in exactly one place over all packs. Backing up unchanged, copied, renamed or re-touched content uploads no file data, and backing up an identical tree uploads no pack and no index at all.",
 ["histories","inputs"],
 "All histories of backups, including duplicate contents within one run, identical files in several directories, contents which return after having been removed, and any pack size so that blobs roll over packs.",
 "Tests compare pack counts for one fixed tree; duplicates inside a single concurrent run and across histories are not generated.",
 ["src/ui/backup.rs","src/index.rs","src/repack.rs","src/pack.rs"],
 [("packed_blobs set","src/ui/backup.rs"),("blob_id_set","src/index.rs")],
 ["contents of packs/ and indexes/ after each backup"])

p("C04","Prune keeps every live snapshot intact and reclaims the rest",
 "After forgetting any set of snapshots and pruning, every remaining snapshot restores exactly as before and the repository checks clean; every blob left in the packs is reachable from a remaining snapshot, every reachable one is there, and no index mentions a missing pack. Pruning again right away changes nothing, and later backups - also of data which was pruned away before - are complete and restorable.",
 ["histories","inputs"],
 "All histories of backup, forget, prune, copy and rebuild-index over overlapping snapshots, with pack sizes small enough that packs are fully live, partly live and dead, prune being run repeatedly and in between backups.",
 "The prune test uses one tree, one forget and one prune and counts packs; it never prunes twice, never backs up again afterwards, never mixes partly reachable packs over several generations.",
 ["src/ui/prune.rs","src/repack.rs","src/index.rs","src/ui/forget.rs"],
 [("reachability partition and repack","src/ui/prune.rs, src/repack.rs"),("index supersedes set","src/index.rs"),("upload new index, delete old indexes, delete packs","src/ui/prune.rs")],
 ["backpak forget/prune, then restore and check","packs/ and indexes/ after prune"])

p("C05","A crash at any point never loses a snapshot and work can resume",
 "If backup, prune, copy, filter-snapshot, rebuild-index or forget is killed at any moment, every snapshot that existed before and was not being forgotten still restores exactly; any snapshot file that is present is complete. Running the same or another command afterwards, in the same working directory with the left-over work files or in a fresh one, succeeds and leaves a repository in which every snapshot restores exactly and whose checks pass.",
 ["crash_points","histories","fault_sequences"],
 "Every file-system-mutating system call of every repository-changing command as a kill point, followed by any of: resuming, running a different command (forget, prune, backup, copy, rebuild-index) first, or continuing from an empty working directory; with one or several crashes in one history.",
 "The tests never kill a process; the one resume test prepares a work-in-progress index by hand. Which files exist at the kill point depends on thread interleaving and on the exact call.",
 ["src/backup.rs","src/index.rs","src/pack.rs","src/upload.rs","src/backend/fs.rs","src/ui/prune.rs","src/ui/backup.rs","src/ui/copy.rs","src/ui/filter_snapshot.rs","src/ui/rebuild_index.rs","src/file_util.rs"],
 [("packs before index before snapshot ordering","src/backup.rs, src/pack.rs, src/upload.rs"),("WIP index and find_resumable","src/index.rs, src/backup.rs"),("new index before deleting old ones","src/ui/prune.rs, src/ui/rebuild_index.rs")],
 ["repository directory and working directory after SIGKILL at the N-th mutating call"],
 [("backpak-wip.index","packs finished so far, used for resuming","src/index.rs")])

p("C06","check passes exactly when all snapshots can be restored",
 "A repository produced by completed commands always passes check and check --read-packs. Whatever is then done to any single pack, index or snapshot file - removed, truncated, altered anywhere, swapped - whenever check --read-packs still succeeds every snapshot still listed restores exactly, and a plain check never succeeds when a pack needed by an index is missing.",
 ["fault_sequences","inputs","histories"],
 "Every repository reachable by command histories and every single-object damage to it: deletion, truncation at any offset, any byte changed, insertion, swapping two objects of one kind, replacing by an empty or older file.",
 "The check test has a healthy repository only and one removed file; it never enumerates damage positions, nor compares the verdict with what restore does.",
 ["src/ui/check.rs","src/pack.rs","src/index.rs","src/snapshot.rs","src/tree.rs"],
 [("check_index / pack::verify / reachability walk","src/ui/check.rs, src/pack.rs")],
 ["exit status of backpak check [--read-packs]"])

p("C07","Damaged repository data is never returned as good data",
 "However stored packs, indexes or snapshots are damaged, restore, dump, cat and ls either deliver exactly the bytes that were backed up or exit with an error; they never report success with wrong, missing or extra content, and they never crash by panic on such damage.",
 ["fault_sequences","inputs"],
 "Every byte-level damage (bit flips, truncation, extension, overwrite, object swaps) to any object kind of any generated repository, followed by every reading command on every snapshot.",
 "No test damages a repository; the number of damage positions and their interplay with compression and caching is far beyond examples.",
 ["src/pack.rs","src/read.rs","src/tree.rs","src/index.rs","src/snapshot.rs","src/hashing.rs","src/ui/dump.rs","src/ui/cat.rs"],
 [("blob and object hash verification","src/pack.rs, src/read.rs, src/hashing.rs"),("ID check on load","src/index.rs, src/snapshot.rs")],
 ["output and exit status of restore, dump, cat, ls"])

p("C08","Copied snapshots are complete and identical in the target",
 "copy puts the selected snapshots (or all) in the target repository with the same time, author, tags, paths and contents as in the source, apart from exactly the entries excluded with --skip, and leaves the source untouched. The target stays sound whatever it held before: its earlier snapshots still restore, nothing already there is stored twice, and copying again adds no data.",
 ["histories","inputs","configurations"],
 "All source histories, selections, skip patterns, target repositories that are empty, overlapping or the result of earlier copies, and source and target with different pack sizes and backend kinds.",
 "The copy test copies one src snapshot between two fresh repositories; overlap, repetition, several snapshots and skips inside shared subtrees are not explored.",
 ["src/ui/copy.rs","src/repack.rs","src/read.rs","src/index.rs"],
 [("walk_snapshots repack","src/repack.rs"),("packed_blobs of the target","src/ui/copy.rs")],
 ["restore of all snapshots of both repositories","target packs/"])

p("C09","filter-snapshot makes a copy without exactly the skipped entries",
 "filter-snapshot adds a snapshot whose restored contents equal the original's minus exactly the entries (and everything below them) whose path matches a skip pattern, keeping the recorded paths, and keeping or replacing time, author and tags as the options say. All other snapshots, the original included, stay as they are and the repository stays sound.",
 ["inputs","histories"],
 "All snapshots of generated histories, including shared subtrees at several places of which only some match, filters that empty directories, match nothing, or match a top-level path, and repeated filtering.",
 "Tests filter one directory once; path-dependent filtering over subtrees that are shared between places or snapshots is not covered.",
 ["src/ui/filter_snapshot.rs","src/repack.rs","src/tree.rs","src/snapshot.rs"],
 [("walk_snapshots with filter","src/repack.rs")],
 ["restore and ls of the new and the old snapshots"])

p("C10","ls, diff, dump, cat and snapshots --stat tell the truth",
 "ls lists exactly the entries of a snapshot, dump writes exactly a file's bytes (or a directory's or symlink's listing) for every path in it and fails for paths not in it, and cat of a blob, pack, index or snapshot shows what is stored. diff and snapshots --stat report an entry as added, removed, changed or retyped exactly when it differs between the two snapshots, with the reverse diff mirroring it and the diff with itself being empty.",
 ["inputs","histories"],
 "All pairs of snapshots of generated histories, all paths in and beside them (including through symlinks and files), ranges of partial IDs.",
 "Tests compare the output for one fixed pair of snapshots with a stored text.",
 ["src/ls.rs","src/diff.rs","src/ui/diff.rs","src/ui/ls.rs","src/ui/dump.rs","src/ui/cat.rs","src/ui/snapshots.rs","src/tree.rs"],
 [("compare_trees","src/diff.rs"),("ls printing","src/ls.rs"),("path lookup","src/ui/dump.rs")],
 ["standard output of ls, diff, dump, cat, snapshots --stat"])

p("C11","Restore over existing files touches only what it should",
 "Restoring onto an existing directory makes every entry of the snapshot match it; without --delete it removes no entry the snapshot lacks and leaves a directory in the way of a file or symlink alone, while with --delete the result equals the snapshot exactly. It never writes, deletes or changes metadata outside the destination - symbolic links found in the destination are replaced, never followed, and hard links are not written through - and a second identical run changes nothing (but the times of links it had replaced).",
 ["inputs","histories","configurations"],
 "All pairs of snapshot and pre-existing destination state (same, edited, type-swapped, symlinks to files, directories and nothing, inside and outside the destination, extra entries, read-only entries), for every combination of --delete, --times, --permissions, --dry-run and single- or multi-path snapshots.",
 "Tests restore onto a handful of fixed destinations; type swaps against links and directories combine into far more states.",
 ["src/ui/restore.rs","src/diff.rs","src/fs_tree.rs"],
 [("Restorer callbacks and type_changed","src/ui/restore.rs"),("Symlink::Read of the destination","src/fs_tree.rs")],
 ["destination tree and surrounding sentinel tree after restore"])

p("C12","Snapshot references select exactly the snapshots they name",
 "A full ID, a unique ID prefix, LAST, LAST~N and LAST~ forms select the corresponding snapshot counting back in time order; ambiguous, unknown or out-of-range references select nothing and make the command fail. forget removes exactly the selected snapshots and nothing else, and forget DUPLICATES removes exactly the snapshots whose contents equal those of the snapshot kept before them in time order; listings show every snapshot once and in time order.",
 ["inputs","histories"],
 "All repositories with generated snapshot sets (equal times, equal contents, many authors/tags/paths), all reference strings: prefixes of every length, upper/lower case, huge numbers, malformed ones, lists with repeats and overlaps.",
 "Unit tests cover a few fixed references against a fixed list.",
 ["src/snapshot.rs","src/ui/forget.rs","src/ui/snapshots.rs"],
 [("find / from_args_list / load_chronologically","src/snapshot.rs"),("duplicate removal","src/ui/forget.rs")],
 ["snapshots/ directory after forget","backpak snapshots output","library snapshot::find"])

p("C13","Stored objects follow the documented format and their IDs",
 "Every file a command leaves in a repository parses according to the documented format: magic bytes, compression, manifest and trailer; its name is the hash of the documented part; every blob hashes to its ID with the length recorded; indexes list exactly the manifests of their packs; and all references resolve. A snapshot records the instant and time zone it was taken in, its author, tags and paths. Encoding then decoding trees, indexes, manifests, IDs and snapshots yields the same values, and equal values always give equal IDs.",
 ["inputs","histories"],
 "All object values (any names, metadata, times within the supported range, time zones, tags, empty and large collections) and all repositories produced by command histories.",
 "The stability tests fix three small hand-made values; the format is checked only by the code that wrote it.",
 ["src/pack.rs","src/index.rs","src/snapshot.rs","src/tree.rs","src/hashing.rs","src/blob.rs","src/prettify.rs"],
 [("serialisation and hashing","src/pack.rs, src/index.rs, src/snapshot.rs, src/tree.rs, src/hashing.rs")],
 ["repository files read by an independent parser","library encode/decode functions"])

p("C14","Chunking is lossless, bounded, deterministic and local",
 "For any file the chunks in order concatenate to the file, carry the hash of their bytes, and are within the documented size bounds except for the last; equal content always gives equal chunks however the file is read. A local edit changes only chunks around it, so the data after and before it deduplicates.",
 ["inputs"],
 "All file lengths and contents, especially around 0, the small-file limit, the minimum/average/maximum chunk size and the memory-map threshold, constant and random data, and edits (insert, delete, overwrite) at any offset.",
 "The chunking tests use one random file and compare chunk counts roughly.",
 ["src/chunk.rs","src/file_util.rs","src/blob.rs"],
 [("chunk_file: read, mmap and FastCDC","src/chunk.rs")],
 ["library chunk::chunk_file","deduplicated size after an edit"])

p("C15","The cache is transparent and keeps to its size bound",
 "A repository used through a local cache behaves the same as without one: same objects stored, same bytes read, listings always those of the backend, also with a cold, evicted, shared or wiped cache. The cache returns for a name exactly the bytes last inserted or nothing, evicts least recently used entries first and only for want of space, and after pruning never exceeds its configured size (but for a single entry bigger than that), also when several commands use it at once.",
 ["histories","configurations","crash_points"],
 "All sequences of insert, read, evict, prune, reopen over any sizes and limits including entries larger than the limit; and all command histories with force_cache and any cache limit.",
 "The cache tests insert a few files and read them; eviction order and mixing commands with a tiny cache are not explored.",
 ["src/backend/cache.rs","src/backend.rs"],
 [("sqlite-backed LRU","src/backend/cache.rs"),("Cached backend read-through","src/backend.rs")],
 ["library backend::cache::Cache","CLI with force_cache and a cache_size configuration"])

p("C16","Filtered repositories store only filtered data and fail safely",
 "In a repository configured with filter and unfilter commands every stored pack, index and snapshot is the filter's output, and everything read is the unfilter's output, so all commands behave as in an unfiltered repository. If a filter or unfilter command fails, at any point or with any amount of output, the command reports failure, no partial object appears under its final name, and no partial data is accepted.",
 ["configurations","fault_sequences","inputs"],
 "All command histories under several invertible filters (identity, byte mapping, length-changing encodings, slow or chunked ones), and filter commands that fail immediately, after part of the output, after all of it, on the N-th call, or that exit early without reading their input.",
 "The filter test uses one filter that always works.",
 ["src/backend/filter.rs","src/backend.rs","src/config.rs"],
 [("filter process and temporary file","src/backend/filter.rs")],
 ["repository files decoded by the inverse","exit status and repository contents with failing filters"])

p("C17","The connection limit holds and no waiting operation is forgotten",
 "Whatever the number of threads and however their operations overlap, at most the configured number of operations run on a limited backend at once, and whenever a slot is free no operation stays waiting, so all of them eventually complete. Results pass through unchanged and a failed operation frees its slot.",
 ["schedules","configurations"],
 "All limits from 1 upward, any number of concurrent callers, any timing of acquiring and releasing, including simultaneous releases and failing operations.",
 "No test runs the limiter under contention; lost wake-ups need a particular interleaving of two releases with two waiters.",
 ["src/semaphored.rs","src/backend/semaphored.rs","src/concurrently.rs"],
 [("futex-style counting semaphore","src/semaphored.rs")],
 ["library semaphored::dec"],
 None,None)

p("C18","Dry runs change nothing",
 "backup, copy, prune, forget, filter-snapshot, rebuild-index and restore run with --dry-run leave the source and target repository, the files being backed up or restored to, and the state needed to resume an interrupted operation byte for byte as they were. A following real run has the same effect as if the dry run had not happened.",
 ["histories","inputs","configurations"],
 "All commands having --dry-run at all states of generated histories, including after an interrupted backup or prune, with and without pending work files.",
 "Tests use --dry-run rarely and look at one command's output only.",
 ["src/ui/backup.rs","src/ui/prune.rs","src/ui/copy.rs","src/ui/forget.rs","src/ui/filter_snapshot.rs","src/ui/rebuild_index.rs","src/ui/restore.rs","src/upload.rs","src/backup.rs"],
 [("upload::Mode::DryRun","src/upload.rs"),("dry_run branches","src/ui/*.rs")],
 ["byte-exact image of repository, sources, destination and working directory"])

p("C19","A backup contains exactly the selected files",
 "A snapshot contains every file, directory and symlink under the given paths except entries whose absolute path matches a skip pattern (from the command line or the configuration) and what lies below them, and special files, which are skipped with a warning. With -L links are stored as what they point to and with -P as links; a path that cannot be read or found makes the backup fail before anything is uploaded, and a backup that changes nothing, or is empty, adds a snapshot only when asked to.",
 ["inputs","configurations"],
 "All directory forests with skip patterns, links to files and directories, FIFOs and sockets, relative, dotted or linked path arguments, several paths with equal last names, and the options -L, -P, --allow-empty, --allow-repeat, --tag, --author and their configuration counterparts.",
 "Tests use one skip pattern on one tree and never combine it with dereferencing or special files.",
 ["src/ui/backup.rs","src/filter.rs","src/fs_tree.rs","src/config.rs","src/tree.rs"],
 [("skip_matching_paths","src/filter.rs"),("walk_fs","src/fs_tree.rs"),("empty/repeat checks","src/ui/backup.rs")],
 ["ls/restore of the snapshot","snapshots/ directory","cat snapshot"])

p("C20","Reported sizes are the real sizes",
 "usage reports the real number and bytes of packs, indexes and snapshots and the unique and total sizes of what the snapshots reference; snapshots --sizes splits each snapshot's total into newly introduced and reused bytes so that introduced sizes over all snapshots add up to the unique data. File sizes and totals reported agree with the stored entries, for every repository including ones with empty snapshots and directories.",
 ["histories","inputs"],
 "All repositories reachable by histories of backup, forget, prune, copy and filter-snapshot, including shared data, empty directories and empty snapshots.",
 "No test checks the numbers.",
 ["src/ui/usage.rs","src/ui/snapshots.rs","src/tree.rs","src/index.rs"],
 [("tree_size / forest_sizes / blob_to_size_map","src/tree.rs, src/index.rs")],
 ["output of usage and snapshots --sizes/--file-sizes","library forest_sizes"])

p("C21","rebuild-index recovers a complete index from the packs alone",
 "Whatever happened to the index files - any of them missing, stale, or packs uploaded that no index knows - rebuild-index produces one index that lists exactly the packs present with their manifests, after which every snapshot whose packs exist restores exactly, check passes, and backups and prunes work as usual. Data unreferenced before the rebuild can be pruned afterwards.",
 ["fault_sequences","histories"],
 "All repositories of generated histories with any subset of index files deleted or replaced by older ones, with orphaned packs left by interrupted commands or concurrent backups (including packs holding the same blobs twice), and repeated rebuilds.",
 "The rebuild test rebuilds once from a healthy repository.",
 ["src/ui/rebuild_index.rs","src/index.rs","src/pack.rs","src/backend.rs"],
 [("load_manifest of every pack","src/ui/rebuild_index.rs"),("master index merge","src/index.rs")],
 ["indexes/ after rebuild-index; restore, check, prune"])

p("C22","An operation that hits an I/O error fails loudly and harmlessly",
 "If any file operation made by backup, restore, prune, copy, filter-snapshot, rebuild-index or forget fails (out of space, I/O error, interrupted), the command exits with an error or completes correctly despite it; it never reports success with a missing or damaged result. Snapshots from before stay restorable, and once the fault is gone repeating the command succeeds.",
 ["fault_sequences","histories"],
 "Every mutating system call of every command as the place of one ENOSPC, EIO, EINTR or short write, or permanently failing from there on, including the cross-device move path, followed by a retry in the same and in a fresh working directory.",
 "No test injects a fault.",
 ["src/backend/fs.rs","src/file_util.rs","src/pack.rs","src/index.rs","src/upload.rs","src/concurrently.rs","src/ui/restore.rs","src/chunk.rs"],
 [("error propagation over the worker threads","src/concurrently.rs, src/backup.rs"),("move_opened: rename or copy","src/file_util.rs")],
 ["exit status, repository and destination after an injected error"])

p("C23","The Backblaze B2 backend stores and lists objects faithfully",
 "Through a correct B2 service the remote backend gives back for each name exactly the bytes stored, lists exactly the objects present however many pages the listing has, removes exactly the object asked for, and stores with a right checksum. Expired tokens, busy answers and broken connections are retried with the complete data or reported as an error, never leaving a truncated object accepted or an object silently missing.",
 ["histories","fault_sequences","inputs"],
 "All sequences of put, get, list, remove over names and sizes, all page sizes, and all placements of 401/408/429/503 answers and dropped connections in them.",
 "The B2 code has no test at all since it needs the network service.",
 ["b2/src/lib.rs","src/backend/backblaze.rs"],
 [("Session list/upload/download/delete with retry","b2/src/lib.rs")],
 ["requests received by a model B2 server on the loopback interface","bytes returned"],
 None,"the service URL is fixed in the code; a guarded hook lets it point at a loopback model server")

p("C24","Concurrent backups into one repository do not harm each other",
 "Backups running at the same time from different working directories into the same repository all succeed, every resulting snapshot restores exactly and check passes; the same data stored by both is at worst kept twice, and every later command (backup, prune, rebuild-index, copy, usage) works on that repository and ends up with sound data.",
 ["schedules","histories"],
 "All overlaps of two or three backups of overlapping or equal data with any relative progress (each stopped and continued at any mutating call), followed by any sequence of further commands.",
 "Tests run one command at a time.",
 ["src/index.rs","src/ui/backup.rs","src/backend/fs.rs","src/file_util.rs"],
 [("content-addressed names and packs before index","src/backup.rs"),("duplicate handling in build_master_index","src/index.rs")],
 ["repository after processes interleaved under a scheduler that owns every mutating call"])

p("C25","Packs fill to the configured size and hold what was sent",
 "Packing any sequence of blobs gives packs that contain each blob once, in order, retrievable by its ID, and every pack but the last of a stream is closed only once its size reached the configured limit and does not go far beyond it. Results do not depend on thread timing nor on the number of processor cores: every blob sent is in exactly one uploaded pack and in the index, and every pack is on the backend before anything refers to it.",
 ["inputs","schedules","configurations"],
 "All sequences of blobs (sizes 1 byte to several MB, compressible or random) and pack sizes from a few hundred bytes up, and all repositories initialised with any accepted pack size.",
 "The pack test packs two chunks into one pack.",
 ["src/pack.rs","src/backup.rs","src/index.rs","src/upload.rs"],
 [("PackfileWriter rollover","src/pack.rs"),("channel pipeline","src/backup.rs")],
 ["packs produced by library pack::pack and by the CLI with small --pack-size"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
