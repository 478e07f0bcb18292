#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Backup then restore reproduces the file tree",
  "After any file tree has been indexed and saved, restoring it (the whole save, a directory, a directory's contents, or a single file) reproduces exactly the same names, file types, contents, symlink targets, hard-link relationships, permission bits, ownership, modification times (to the nanosecond), extended attributes and ACLs, and nothing else. This holds for arbitrary byte-string names, empty and multi-chunk and sparse files, and for every repository configuration (compression, pack size limits, split-file and split-tree settings).",
  ["inputs", "configurations"], "every file tree (names, types, contents, metadata) x every repository configuration x every restore target form",
  "The round-trip scripts use one or two fixed sample trees; names, sizes, metadata combinations and configurations are never varied jointly.",
  ["lib/bup/cmd/index.py", "lib/bup/cmd/save.py", "lib/bup/cmd/restore.py", "lib/bup/tree.py", "lib/bup/metadata.py", "lib/bup/hashsplit.py", "lib/bup/vfs.py", "lib/bup/git.py"],
  [("save walks the index and builds trees bottom-up", "lib/bup/cmd/save.py"), ("tree stack and .bupm ordering", "lib/bup/tree.py"), ("name mangling", "lib/bup/git.py mangle_name/demangle_name"), ("metadata re-application", "lib/bup/metadata.py apply_to_path")],
  ["bup restore output tree"])

p("C02", "Incremental saves equal full saves, and history stays intact",
  "Over any sequence of filesystem edits, index runs and saves, each incremental save records exactly what a from-scratch index and save of the same files would record at that moment, and every earlier save keeps listing and restoring exactly what it recorded. Re-saving an unchanged tree yields the identical tree.",
  ["histories"], "every sequence of create/modify/replace/rename/delete/chmod/touch/link edits interleaved with index and save, partial indexes and several branches",
  "Tests exercise a few scripted edit sequences; stale cached hashes or metadata only show up in particular multi-step histories.",
  ["lib/bup/index.py", "lib/bup/cmd/index.py", "lib/bup/cmd/save.py", "lib/bup/hlinkdb.py", "lib/bup/drecurse.py"],
  [("index entry invalidation (mark/invalidate up the tree)", "lib/bup/index.py Entry.invalidate, update_from_stat"), ("reuse of cached hashes", "lib/bup/cmd/save.py"), ("hard link database", "lib/bup/hlinkdb.py")])

p("C03", "Split then join returns exactly the original bytes",
  "Whatever bytes are fed to a split (one or many inputs, any chunking and fanout and pack-limit options, to a branch, commit, tree, blob list or copy), joining the resulting identifiers, in order, returns exactly those bytes. The result written to a branch is a commit whose parent is the previous commit of that branch, and asking for a copy emits the input unchanged.",
  ["inputs", "configurations"], "every byte stream x every split option combination",
  "Tests split a handful of generated streams with default options; boundary sizes, runs of identical bytes, empty inputs and unusual fanouts are not sampled.",
  ["lib/bup/cmd/split.py", "lib/bup/cmd/join.py", "lib/bup/hashsplit.py", "lib/bup/_hashsplit.c", "lib/bup/vfs.py", "lib/bup/git.py"],
  [("chunk tree construction", "lib/bup/hashsplit.py"), ("chunk tree traversal", "lib/bup/git.py / lib/bup/vfs.py")])

p("C04", "Chunk boundaries are a pure, specified function of content",
  "The pieces a stream is cut into depend only on its bytes and the split configuration, never on how the bytes arrive (read sizes, number of input pieces, file versus pipe), and equal the boundaries and levels defined by the documented rolling-checksum rule with its maximum chunk size. Pieces concatenate to the input, none exceeds the maximum, and an edit in one place leaves boundaries unchanged outside its neighbourhood.",
  ["inputs", "configurations", "schedules"], "every byte stream, every partition of it into reads, every number of split bits and fanout",
  "Unit tests check the chunker on a few fixed buffers; buffer-refill, maximum-size and level boundaries need many sizes and read patterns.",
  ["lib/bup/_hashsplit.c", "lib/bup/bupsplit.c", "lib/bup/bupsplit.h", "lib/bup/hashsplit.py", "DESIGN.md"],
  [("rolling checksum", "lib/bup/bupsplit.h"), ("buffer management", "lib/bup/_hashsplit.c HashSplitter")])

p("C05", "Identical data is stored once and addressed by content",
  "Storing content that a repository already holds adds no objects to it, whichever command stores it and whichever lookup aids exist, and yields the same identifier as before. Every object is named by the hash of its content, and no object is stored twice across the packs created by successive commands.",
  ["inputs", "histories"], "every content and every sequence of split/save/get commands, with and without midx/bloom files present",
  "Tests compare sizes for one duplicate file; duplicates found via stale, partial or multi-level lookup aids are not covered.",
  ["lib/bup/git.py", "lib/bup/bloom.py", "lib/bup/midx.py", "lib/bup/cmd/split.py", "lib/bup/cmd/save.py", "lib/bup/client.py"],
  [("PackWriter maybe_write / exists", "lib/bup/git.py"), ("PackIdxList.exists and object cache", "lib/bup/git.py")])

p("C06", "Every repository bup leaves behind is a valid git repository",
  "After any sequence of successful bup commands, git itself finds the repository sound: every object reachable from every branch and tag exists and hashes correctly, trees are canonically sorted, pack indexes match their packs and commits parse. The branches and tags present are exactly those the commands should have produced, and what git reads from a commit equals what bup stored.",
  ["histories", "configurations"], "every sequence of init/split/save/get/rm/gc/tag/prune/midx/bloom commands over every pack limit and compression setting",
  "Tests run git fsck after a few scripted commands only.",
  ["lib/bup/git.py", "lib/bup/tree.py", "lib/bup/commit.py", "lib/bup/gc.py", "lib/bup/rm.py", "lib/bup/cmd/get.py", "lib/bup/_helpers.c"],
  [("pack and idx writing", "lib/bup/git.py PackWriter, lib/bup/_helpers.c write_idx"), ("tree encoding", "lib/bup/git.py tree_encode")])

p("C07", "A killed command never damages existing backups",
  "If bup is killed at any instant while saving, splitting, fetching, removing, collecting garbage or building indexes, every save, branch and tag that existed before (other than ones being removed) still resolves and is still fully readable, and every branch or tag points only at complete data. Running the same command again afterwards succeeds and gives the result an uninterrupted run would have given.",
  ["crash_points", "histories"], "every filesystem-modifying step of every repository-modifying command",
  "No existing test kills a command part way.",
  ["lib/bup/git.py", "lib/bup/gc.py", "lib/bup/rm.py", "lib/bup/index.py", "lib/bup/cmd/save.py", "lib/bup/cmd/get.py", "lib/bup/cmd/midx.py", "lib/bup/cmd/bloom.py", "lib/bup/helpers.py"],
  [("write to temporary, then rename", "lib/bup/helpers.py atomically_replaced_file"), ("refs updated last", "lib/bup/cmd/save.py, lib/bup/cmd/get.py"), ("new pack finished before old deleted", "lib/bup/gc.py sweep")])

p("C08", "Data reaches stable storage before anything depends on it",
  "If the machine loses power at any point, losing every write and directory change that was not explicitly flushed, no branch or tag refers to missing or partial objects, and no object that was live and durable before is lost. In particular new pack data, its index and their directory entries are flushed before a reference is moved to them or the data they replace is deleted.",
  ["crash_points", "fault_sequences"], "every point of every repository-modifying command x loss of all unflushed writes",
  "Tests never simulate loss of unflushed writes; a missing flush is invisible without it.",
  ["lib/bup/git.py", "lib/bup/gc.py", "lib/bup/helpers.py", "lib/bup/repo/local.py"],
  [("fsync of pack, idx and directory", "lib/bup/git.py finish_pack"), ("sweep deletes last", "lib/bup/gc.py")])

p("C09", "Failures are reported and never recorded as success",
  "If any read, write, flush, rename or source-file access fails during a command, the command either still completes with a correct result or exits with a non-zero status; it never exits zero having stored, restored, copied or deleted less (or other) data than asked. After such a failure existing saves are intact, and saves made despite unreadable files contain every other file correctly and no placeholder for the failed ones.",
  ["fault_sequences", "inputs"], "every failing system call position and error kind (no space, I/O error, short write, permission, vanished or changed file) in save, split, join, restore, get and gc",
  "Tests inject almost no faults (only a few unreadable files).",
  ["lib/bup/helpers.py", "lib/bup/cmd/save.py", "lib/bup/cmd/restore.py", "lib/bup/cmd/split.py", "lib/bup/cmd/join.py", "lib/bup/git.py", "lib/bup/main.py"],
  [("deferred error list and exit status", "lib/bup/helpers.py add_error, die_if_errors")])

p("C10", "Concurrent commands on one repository never lose work",
  "When another bup command runs to completion in the middle of a save, split, fetch, ref change or read on the same repository, each command either succeeds or fails cleanly, every save that reported success is present in its branch's history afterwards, and nothing either command stored or read is damaged.",
  ["schedules"], "every position within one command at which another complete command is interleaved",
  "Tests run commands strictly one after another.",
  ["lib/bup/git.py", "lib/bup/cmd/save.py", "lib/bup/cmd/split.py", "lib/bup/cmd/get.py", "lib/bup/cmd/midx.py", "lib/bup/cmd/bloom.py", "lib/bup/repo/local.py"],
  [("compare-and-swap ref update", "lib/bup/git.py update_ref"), ("uniquely named packs, atomic rename", "lib/bup/git.py finish_pack")])

p("C11", "Garbage collection keeps all live data and drops dead data",
  "Garbage collection never removes or alters anything reachable from any branch or tag, whatever the thresholds, pack layout, lookup aids, loose objects or earlier collections. With a zero threshold it removes every pack's unreachable data up to the documented approximation, afterwards every lookup aid agrees with the packs, and later saves or fetches never rely on data that was collected.",
  ["histories", "configurations"], "every history of saves, splits, removals and collections x thresholds, compression and pack sizes",
  "Tests use random removal on one kind of history with default pack layout.",
  ["lib/bup/gc.py", "lib/bup/cmd/gc.py", "lib/bup/git.py", "lib/bup/bloom.py", "lib/bup/rm.py"],
  [("live-object bloom plus exact tree/commit marking", "lib/bup/gc.py"), ("sweep", "lib/bup/gc.py sweep")])

p("C12", "Removing saves and tagging changes exactly what was named",
  "Removing saves or branches removes exactly the named ones; every remaining save keeps its name, date, author, message, metadata and contents and its order, and any invalid request changes nothing. Creating, forcing and deleting tags changes exactly the named tag, refuses to overwrite without force, and never alters branches.",
  ["inputs", "histories"], "every history of saves on several branches and every set of removals and tag operations",
  "Tests remove from a small fixed history; runs of removals, branch points and error combinations are not covered.",
  ["lib/bup/rm.py", "lib/bup/cmd/rm.py", "lib/bup/cmd/tag.py", "lib/bup/git.py"],
  [("rewriting the commits after the oldest removed", "lib/bup/rm.py"), ("dead-item classification", "lib/bup/rm.py")])

p("C13", "Pruning keeps exactly the saves the retention periods require",
  "For any set of save times and retention options, pruning removes exactly the saves the documentation says are expendable: all saves are kept within the keep-all period and, beyond it, the newest save of each day, month or year within the respective periods, and nothing else is removed. The pretend mode reports the same decision and changes nothing, and every kept save remains identical.",
  ["inputs", "configurations"], "every sequence of save times (incl. same instant, year/month/day boundaries, exactly a year apart) x every combination of keep periods and reference time",
  "The test samples random histories around one reference time with an oracle sharing the grouping logic.",
  ["lib/bup/cmd/prune_older.py", "lib/bup/rm.py", "lib/bup/helpers.py"],
  [("classification of saves", "lib/bup/cmd/prune_older.py classify_saves"), ("period parsing", "lib/bup/helpers.py period_as_secs")])

p("C14", "Browsing shows exactly what was saved, at every path",
  "Listing, path resolution and file output (ls, cat-file, ftp) present exactly the branches, saves, tags, commits and saved entries that exist, with the recorded types, sizes, modes, owners, times and link targets, in sorted order. Paths containing dot, dot-dot, latest, symlinks (relative, absolute, chained or looping) and trailing slashes resolve as POSIX prescribes within the repository, and every missing path is reported as such.",
  ["inputs", "histories"], "every repository of saves (including split-trees and saves in the same second) x every path",
  "Tests look up a few paths in a small fixed repository.",
  ["lib/bup/vfs.py", "lib/bup/ls.py", "lib/bup/cmd/ls.py", "lib/bup/cmd/cat_file.py", "lib/bup/cmd/ftp.py"],
  [("resolve", "lib/bup/vfs.py resolve/lresolve"), ("save naming", "lib/bup/vfs.py _revlist_item_from_oid, save names"), ("tree listing with metadata", "lib/bup/vfs.py tree_items")])

p("C15", "Reading any part of a stored file returns that part",
  "For every stored file, however many chunks and levels it has, any sequence of seeks, sizes and reads returns precisely the corresponding bytes of the original content, the reported size equals the real length, and reads past the end return nothing.",
  ["inputs", "histories"], "every file content and chunk layout x every sequence of seek/read operations and concurrently open files",
  "Tests read whole files; only a few offsets within one file are tried.",
  ["lib/bup/vfs.py", "lib/bup/git.py", "lib/bup/_hashsplit.c"],
  [("chunk reader with offsets", "lib/bup/vfs.py _ChunkReader, _FileReader, _tree_chunks")])

p("C16", "Copying saves between repositories preserves them exactly",
  "For every combination of fetch methods and sources, the destination's branches and tags end up exactly as documented (fast-forward, append, pick, replace, tag, unnamed), every copied commit has the same trees, author, date and message as its source and complete data, and nothing else in the destination changes. Requests that are invalid (non-fast-forward, existing tag or branch kind mismatch, unknown source) fail without moving any reference.",
  ["inputs", "histories", "configurations"], "every pair of source and destination histories x every sequence of method/source/destination arguments, local and remote",
  "Tests enumerate single method invocations on one fixed source repository.",
  ["lib/bup/cmd/get.py", "lib/bup/git.py", "lib/bup/repo/local.py", "lib/bup/repo/remote.py"],
  [("method dispatch and ref update", "lib/bup/cmd/get.py"), ("object walk", "lib/bup/git.py walk_object")])

p("C17", "Rewriting while copying preserves content and only drops what is asked",
  "Copying with rewriting (to another split configuration, with path exclusions, or in repair mode) yields saves whose paths, contents and metadata equal the source's minus exactly the excluded paths, and whose stored form equals what saving directly with the destination's configuration would have produced. Repair mode replaces exactly the entries whose data is missing, keeps everything else identical, and says so in its exit status.",
  ["inputs", "configurations", "fault_sequences"], "every source tree x split configurations of both sides x exclusion patterns x sets of missing objects",
  "Tests cover a couple of configuration pairs and one missing object at a time.",
  ["lib/bup/rewrite.py", "lib/bup/repair.py", "lib/bup/cmd/get.py", "lib/bup/tree.py", "lib/bup/vfs.py"],
  [("tree rewriting via vfs", "lib/bup/rewrite.py"), ("missing-data replacement", "lib/bup/repair.py")])

p("C18", "Object lookup agrees with the packs whatever indexes exist",
  "An object is reported present, and found in the right pack at the right offset, exactly when some pack in the repository contains it, for any number of packs and any mixture of individual, merged (any number of levels) and bloom indexes, including after packs are added or removed. Index files that bup builds always verify as consistent, and stale, truncated or foreign index files are ignored or reported and never cause a wrong answer.",
  ["histories", "inputs"], "every set of packs and object ids (including ids sharing long prefixes) x every sequence of midx/bloom/add/remove operations and options",
  "Tests look up objects in one or two generated packs.",
  ["lib/bup/git.py", "lib/bup/midx.py", "lib/bup/bloom.py", "lib/bup/cmd/midx.py", "lib/bup/cmd/bloom.py", "lib/bup/_helpers.c"],
  [("idx search", "lib/bup/git.py PackIdx"), ("midx merge and interpolation search", "lib/bup/_helpers.c merge_into, lib/bup/midx.py"), ("bloom membership", "lib/bup/_helpers.c bloom_*")])

p("C19", "Metadata records survive encoding and malformed ones are rejected",
  "Any file metadata (mode, owner names and ids, positive and negative nanosecond times, sizes, link targets, extended attributes, ACLs, flags, device numbers) reads back equal after being stored, in any sequence of records, and equal metadata is stored identically. Records with unknown fields are skipped without losing the following ones, and truncated or corrupt records raise a clean error rather than yielding wrong metadata.",
  ["inputs"], "every metadata value, every concatenation of records, every truncation and corruption of the encoded stream",
  "Tests encode a few real files' metadata.",
  ["lib/bup/metadata.py", "lib/bup/vint.py", "lib/bup/cmd/meta.py", "lib/bup/xstat.py", "lib/bup/_helpers.c"],
  [("tagged record encoding", "lib/bup/metadata.py write/read"), ("variable-length integers", "lib/bup/vint.py, lib/bup/_helpers.c")])

p("C20", "Variable-length encodings round-trip and detect truncation",
  "Every integer and byte string, alone or in any packed sequence, decodes to exactly what was encoded and consumes exactly the bytes that were produced, whichever of the available encoders and decoders is used. Skipping a value lands exactly where reading it would, and any truncated encoding is detected.",
  ["inputs"], "every signed and unsigned integer of any size, every byte string, every type signature and every truncation",
  "Tests try a handful of integers.",
  ["lib/bup/vint.py", "lib/bup/_helpers.c"],
  [("pack/unpack", "lib/bup/vint.py"), ("C encoder", "lib/bup/_helpers.c vuint_encode, vint_encode, limited_vint_pack")])

p("C21", "The filesystem index always mirrors the indexed filesystem",
  "After any sequence of filesystem edits and index runs over any set of paths, the index lists exactly the paths that exist under what was indexed (and remembers, as deleted, nothing that still exists), in canonical order, with their current types, sizes and times. A path is shown as unchanged since its save only if it really is, its content-changing edits always make it and all its ancestors modified, and the index's own consistency check passes.",
  ["histories"], "every sequence of filesystem edits, index runs over overlapping path sets and saves",
  "Tests index a few small trees with scripted edits.",
  ["lib/bup/index.py", "lib/bup/cmd/index.py", "lib/bup/drecurse.py"],
  [("merge of readers and update of existing entries", "lib/bup/cmd/index.py update_index, lib/bup/index.py"), ("level tree writer", "lib/bup/index.py Level")])

p("C22", "Exclusions and filesystem limits select exactly the right paths",
  "Indexing (and recursive listing) visits exactly the paths that are not excluded: a path given by an exclude option or file is left out together with everything below it, a path matching an exclude pattern is left out likewise, no other path is affected, and entry order is unaffected. Restoring with exclude patterns likewise restores exactly the non-matching paths, with unchanged contents.",
  ["inputs", "configurations"], "every tree x every set of exclude paths, pattern lists and exclude files",
  "Tests try a few patterns on a small tree.",
  ["lib/bup/drecurse.py", "lib/bup/helpers.py", "lib/bup/cmd/index.py", "lib/bup/cmd/restore.py", "lib/bup/cmd/drecurse.py"],
  [("parse_excludes, parse_rx_excludes, should_rx_exclude_path", "lib/bup/helpers.py"), ("recursive_dirlist", "lib/bup/drecurse.py")])

p("C23", "Strip and graft options map every path as documented",
  "With strip, strip-path or graft options every saved file appears in the save exactly at the path the documentation defines, matching whole path components only, with its contents and metadata unchanged, and files outside the stripped or grafted prefixes keep their place. Without these options every file appears at its absolute path.",
  ["inputs", "configurations"], "every set of saved paths x every strip prefix and every list of graft points (including overlapping and similarly named prefixes)",
  "Tests use one prefix whose siblings do not share a name prefix.",
  ["lib/bup/helpers.py", "lib/bup/cmd/save.py"],
  [("stripped_path_components, grafted_path_components", "lib/bup/helpers.py")])

p("C24", "Remote repositories behave exactly like local ones",
  "Every command that works on a repository gives the same object ids, references, output and restored data, and the same success or failure, whether the repository is local or reached through a remote connection, whatever the deduplication index state on either side. Configuration that governs how data is split is taken from the destination repository in both cases.",
  ["histories", "configurations"], "every sequence of init/index/save/split/join/get/ls/restore/tag-like operations x transport (local, -r, bup on) x cached-index state",
  "Tests run a few commands remotely on fixed data.",
  ["lib/bup/client.py", "lib/bup/protocol.py", "lib/bup/repo/remote.py", "lib/bup/repo/local.py", "lib/bup/cmd/server.py", "lib/bup/cmd/on.py", "lib/bup/helpers.py"],
  [("client/server protocol", "lib/bup/client.py, lib/bup/protocol.py"), ("index cache sync and suggestions", "lib/bup/client.py")])

p("C25", "Protocol and stream multiplexing survive any framing",
  "The multiplexed stream delivers exactly the bytes written to each channel, in order, with end-of-stream, under any fragmentation of the transport, and rejects a corrupted stream with an error. A server given any sequence of well-formed requests answers as its repository state dictates, and malformed or truncated requests never modify existing references or objects.",
  ["schedules", "inputs", "histories"], "every fragmentation of the byte stream, every interleaving of channels, every request sequence and corruption of it",
  "Tests run one mux/demux pipeline and a few client calls.",
  ["lib/bup/helpers.py", "lib/bup/protocol.py", "lib/bup/client.py", "lib/bup/cmd/mux.py", "lib/bup/cmd/demux.py", "lib/bup/cmd/server.py"],
  [("mux, DemuxConn", "lib/bup/helpers.py"), ("command dispatch, receive-objects", "lib/bup/protocol.py")])

p("C26", "Damage is detected, and repaired when recovery data permits",
  "A check of an undamaged repository succeeds, and a check of one in which any byte of any pack or index has been changed, lost or added fails or reports repair. With recovery information generated, any damage within its capacity is repaired to byte-identical packs, and a repaired or unrepairable state is never reported as clean, for any number of parallel jobs.",
  ["fault_sequences", "inputs", "configurations"], "every damage pattern (position, size, count, file kind) x number of packs x options (generate, repair, quick, jobs)",
  "The test damages a pack with one or two fixed patterns.",
  ["lib/bup/cmd/fsck.py", "lib/bup/cmd/damage.py"],
  [("verify, par2 generate/verify/repair, exit-status merge", "lib/bup/cmd/fsck.py")])

p("C27", "Validation commands find every missing or inconsistent object",
  "Validating references or object links of a repository reports success exactly when every object reachable (respectively linked from any stored object) is present, and names exactly the missing ones otherwise, whichever object (commit, tree, chunk, metadata) is lost. Saves whose metadata does not match their entries are reported too.",
  ["fault_sequences", "histories"], "every subset of objects removed from every repository",
  "Tests remove one or two chosen objects.",
  ["lib/bup/cmd/validate_refs.py", "lib/bup/cmd/validate_object_links.py", "lib/bup/cmd/validate_ref_links.py", "lib/bup/git.py"],
  [("validate-refs walk", "lib/bup/cmd/validate_refs.py"), ("object link scan", "lib/bup/cmd/validate_object_links.py")])

p("C28", "Extraction never touches anything outside its destination",
  "Restoring a save or extracting a metadata archive, however it was crafted (dot-dot components, absolute names, symlinks placed before entries that traverse them, duplicate names), creates, changes or removes nothing outside the destination directory. Ordinary archives are extracted completely.",
  ["inputs"], "every metadata archive and every repository tree, including hostile names and symlink orderings",
  "No test extracts a hostile archive beyond a couple of risky paths.",
  ["lib/bup/metadata.py", "lib/bup/cmd/meta.py", "lib/bup/cmd/restore.py", "lib/bup/vfs.py"],
  [("path cleaning", "lib/bup/metadata.py _risky_path, _clean_up_extract_path")])

p("C29", "Arguments, quoting, sizes, URLs and config are read as documented",
  "Command-line options parse exactly as their documented specification says (short, long, negated, with values, in any order and grouping), and any quoted or completed shell word splits back into the original words. Sizes, repository URLs and repository configuration values are understood as documented and as git understands them, and every value that is written back out reads in as the same value.",
  ["inputs"], "every option specification and argument list, every word list and partial line, every size string, URL and git configuration file",
  "Tests cover a small table of inputs for each.",
  ["lib/bup/options.py", "lib/bup/shquote.py", "lib/bup/url.py", "lib/bup/helpers.py", "lib/bup/git.py", "lib/bup/config.py"],
  [("Options.parse", "lib/bup/options.py"), ("quotesplit, quotify", "lib/bup/shquote.py"), ("parse_bytes_url, render_url", "lib/bup/url.py"), ("git_config_get", "lib/bup/git.py")])

p("C30", "Repositories written by git are read faithfully",
  "Browsing, joining, copying and collecting a repository whose objects, packs (including deltas), packed or loose references, merges, executable and symlink entries, signed or re-encoded commits and unusual author data were written by git gives the same contents, commit data and history that git reports. Parsing and re-creating a commit preserves every field bup handles.",
  ["inputs", "histories"], "every repository git can write with files, symlinks, executables, subdirectories, merges, tags to commits and repacks",
  "Tests read almost only what bup itself wrote.",
  ["lib/bup/git.py", "lib/bup/commit.py", "lib/bup/vfs.py", "lib/bup/gc.py", "lib/bup/cmd/get.py"],
  [("CatPipe", "lib/bup/git.py"), ("commit parsing and creation", "lib/bup/commit.py, lib/bup/git.py create_commit_blob")])

p("C31", "Split directories are equivalent to unsplit ones",
  "A directory saved with tree splitting enabled lists, resolves, restores and copies with exactly the same entries, order, contents and metadata as without, for any number of entries and any names. The split form depends only on the directory's entries and configuration, and changing one entry changes only the part of the stored structure around it.",
  ["inputs", "configurations"], "every directory size and naming pattern, nested split directories, every split configuration",
  "Tests use a couple of directories with generated sequential names.",
  ["lib/bup/tree.py", "lib/bup/vfs.py", "lib/bup/hashsplit.py", "lib/bup/git.py"],
  [("split tree writing", "lib/bup/tree.py _write_split_tree"), ("split tree reading", "lib/bup/vfs.py tree_items, _split_subtree_items")])

p("C32", "Restore options change only what they name",
  "Restoring with owner/group mapping, numeric ids, sparse output, an output directory or existing files already in place yields the same tree as a plain restore except for precisely the named effect: each mapped owner or group is translated once and the others are untouched, sparse output reads back identical bytes, and pre-existing files at restored names end up equal to the saved ones.",
  ["inputs", "configurations"], "every saved tree x every set of maps and option combination x every pre-existing destination state",
  "Tests use one mapping each and a few sparse layouts.",
  ["lib/bup/cmd/restore.py", "lib/bup/metadata.py", "lib/bup/helpers.py", "lib/bup/_helpers.c"],
  [("owner map handling", "lib/bup/cmd/restore.py"), ("write_sparsely", "lib/bup/_helpers.c"), ("create_path", "lib/bup/metadata.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
