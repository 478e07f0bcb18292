From 5455fb3d0ccadbc68c9ad176c4b11229d096d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 01/89] fix: size the vint/vuint encoding buffers for any long
 long

The size was computed as (8 + 1) / 7 * 8, i.e. 8 bytes, but values from
2**56 (2**55 for vint) need 9 or 10, which overflowed the stack buffer.
---
 lib/bup/_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index 0d81033..62510e5 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -1376,7 +1376,7 @@ static PyObject *bup_vuint_encode(PyObject *self, PyObject *args)
 {
     long long val;
     // size the buffer appropriately - need 8 bits to encode each 7
-    char buf[(sizeof(val) + 1) / 7 * 8];
+    char buf[(sizeof(val) * CHAR_BIT + 6) / 7];
 
     if (!PyArg_ParseTuple(args, "L", &val))
 	return NULL;
@@ -1392,7 +1392,7 @@ static PyObject *bup_vint_encode(PyObject *self, PyObject *args)
 {
     long long val;
     // size the buffer appropriately - need 8 bits to encode each 7
-    char buf[(sizeof(val) + 1) / 7 * 8];
+    char buf[(sizeof(val) * CHAR_BIT + 6) / 7];
 
     if (!PyArg_ParseTuple(args, "L", &val))
 	return NULL;
-- 
2.43.0


From 5dd87fde05855e54b486e55c7d8fbfb1801bc0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 02/89] fix: encode the most negative long long as a vint

Negating it overflowed, leaving it negative, and then the loop shifting
it right never ended.
---
 lib/bup/_helpers.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index 62510e5..f6d3f1c 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -1350,21 +1350,23 @@ static unsigned int vint_encode(long long val, char *buf)
 {
     unsigned int len = 1;
     char sign = 0;
+    // unsigned because -LLONG_MIN doesn't fit in a long long
+    unsigned long long mag = val;
 
     if (val < 0) {
         sign = 0x40;
-        val = -val;
+        mag = -mag;
     }
 
-    buf[0] = (val & 0x3f) | sign;
-    val >>= 6;
-    if (val)
+    buf[0] = (mag & 0x3f) | sign;
+    mag >>= 6;
+    if (mag)
         buf[0] |= 0x80;
 
-    while (val) {
-        buf[len] = val & 0x7f;
-        val >>= 7;
-        if (val)
+    while (mag) {
+        buf[len] = mag & 0x7f;
+        mag >>= 7;
+        if (mag)
             buf[len] |= 0x80;
         len++;
     }
-- 
2.43.0


From 0818c14c9e5c701a4fda86c505ee1aaaf0e66751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 03/89] fix: make limited_vint_pack report a negative V
 argument

It ignored vuint_encode's failure and returned a result with an
exception set (a SystemError).
---
 lib/bup/_helpers.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bup/_helpers.c b/lib/bup/_helpers.c
index f6d3f1c..e811e51 100644
--- a/lib/bup/_helpers.c
+++ b/lib/bup/_helpers.c
@@ -1947,7 +1947,10 @@ static PyObject *bup_limited_vint_pack(PyObject *self, PyObject *args)
                                     i);
             if (end - pos < 10)
                 goto overflow;
-	    pos += vuint_encode(val, pos);
+            unsigned int len = vuint_encode(val, pos);
+            if (!len)
+                goto error;
+            pos += len;
             break;
         }
         case 'v': {
-- 
2.43.0


From 56fb82ba4e1f4692d7006a91e7c9c8b2a929de97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 04/89] fix: allow skipping an empty bvec and detect truncated
 ones

An empty bvec was reported as EOF, so an unknown metadata record with no
payload made the rest of the metadata unreadable, and a truncated one
was silently accepted.
---
 lib/bup/vint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/vint.py b/lib/bup/vint.py
index 1969d11..876c0c4 100644
--- a/lib/bup/vint.py
+++ b/lib/bup/vint.py
@@ -141,7 +141,7 @@ def skip_bvec(port):
     if n is None:
         raise EOFError('encountered EOF while skipping bvec')
     val = port.read(n)
-    if not val:
+    if len(val) != n: # e.g. EOF when n != 0
         raise EOFError('encountered EOF while skipping bvec')
 
 
-- 
2.43.0


From 1e22029451a0367bce873c12d485f90860df0e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 05/89] fix: restore hard links between symlinks with a missing
 target

hardlink_compatible() checked for the previously restored path with
exists(), which follows symlinks, so hard linked symlinks whose target
didn't exist (yet) were restored as separate files.
---
 lib/bup/cmd/restore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/restore.py b/lib/bup/cmd/restore.py
index 797a7a0..addc417 100644
--- a/lib/bup/cmd/restore.py
+++ b/lib/bup/cmd/restore.py
@@ -79,7 +79,7 @@ def apply_metadata(meta, name, restore_numeric_ids, owner_map):
 
 def hardlink_compatible(prev_path, prev_item, new_item, top):
     prev_candidate = top + prev_path
-    if not os.path.exists(prev_candidate):
+    if not os.path.lexists(prev_candidate):
         return False
     prev_meta, new_meta = prev_item.meta, new_item.meta
     if new_item.oid != prev_item.oid \
-- 
2.43.0


From 2f517a02aedcd6e060caa4f3a2aaa0032d4333b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 06/89] fix: find a chunked .bupm that sorts after similar
 names

A .bupm that has been split is a git tree, and git sorts it as .bupm/,
i.e. after names like .bupm.bupl (a file named .bupm) or .bupm-x, so
don't stop looking for it until we're past that.  Previously all of the
directory's metadata was silently ignored (e.g. by restore).
---
 lib/bup/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 170d914..fd59254 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -467,7 +467,7 @@ def tree_data_and_bupm(repo, oid):
     for _, mangled_name, sub_oid in tree_entries(data):
         if mangled_name == b'.bupm':
             return data, sub_oid
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # .bupm may be a (chunked) tree
             break
     return data, None
 
@@ -752,7 +752,7 @@ def _find_bupm_oid(entries):
     for _, mangled_name, sub_oid in entries:
         if mangled_name == b'.bupm':
             return sub_oid
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # .bupm may be a (chunked) tree
             break
     return None
 
@@ -829,7 +829,7 @@ def tree_items(repo, oid, tree_data, names, *, want_meta=True, repair=False):
                 break
         else:
             split_or_not_known = True
-        if mangled_name > b'.bupm':
+        if mangled_name > b'.bupm/': # .bupm may be a (chunked) tree
             break
 
     # When repairing, "." wouldn't be affected by the missing entries
-- 
2.43.0


From 654d1296df314365841c8cade25d25ae1778d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 07/89] fix: respect an explicit --date of 0 in save and split

Previously zero was handled as if no date had been given, and the
current time was recorded instead.
---
 lib/bup/cmd/save.py  | 2 +-
 lib/bup/cmd/split.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 6cecdbd..4b3ee81 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -82,7 +82,7 @@ def opts_from_cmdline(argv):
         o.fatal("use one or more of -t, -c, -n")
     if not extra:
         o.fatal("no filenames given")
-    if opt.date:
+    if opt.date or opt.date == 0: # 0 (the epoch) is a valid date
         try:
             opt.date = parse_date_arg(b'--date', opt.date)
         except ValueError as ex:
diff --git a/lib/bup/cmd/split.py b/lib/bup/cmd/split.py
index 74aaeb0..8037c1a 100644
--- a/lib/bup/cmd/split.py
+++ b/lib/bup/cmd/split.py
@@ -92,7 +92,7 @@ def opts_from_cmdline(argv):
         opt.fanout = require_num('--fanout', opt.fanout)
     if opt.bwlimit:
         opt.bwlimit = require_num('--bwlimit', opt.bwlimit)
-    if opt.date:
+    if opt.date or opt.date == 0: # 0 (the epoch) is a valid date
         try:
             opt.date = parse_date_arg(b'--date', opt.date)
         except ValueError as ex:
-- 
2.43.0


From 76f1c2fcc28deb4b8f878621d32bdbb1bf83d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 08/89] fix: never return more than asked for when reading
 split --git-ids

---
 lib/bup/cmd/split.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/split.py b/lib/bup/cmd/split.py
index 8037c1a..2eef20a 100644
--- a/lib/bup/cmd/split.py
+++ b/lib/bup/cmd/split.py
@@ -210,8 +210,12 @@ def main(argv):
             class IterToFile:
                 def __init__(self, it):
                     self.it = iter(it)
-                def read(self, size_):
-                    return next(self.it, b'')
+                    self.rest = b''
+                def read(self, size):
+                    # hashsplit can't handle more than it asked for
+                    data = self.rest or next(self.it, b'')
+                    self.rest = data[size:]
+                    return data[:size]
             def read_ids():
                 while 1:
                     line = stdin.readline()
-- 
2.43.0


From 6a2ae1b98160480fccc8da6e22a476ca2fad8afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 09/89] fix: don't treat split --max-pack-objects as
 --max-pack-size

---
 lib/bup/cmd/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/split.py b/lib/bup/cmd/split.py
index 2eef20a..ca916e0 100644
--- a/lib/bup/cmd/split.py
+++ b/lib/bup/cmd/split.py
@@ -87,7 +87,7 @@ def opts_from_cmdline(argv):
     if opt.max_pack_size:
         opt.max_pack_size = require_num('--max-pack-size', opt.max_pack_size)
     if opt.max_pack_objects:
-        opt.max_pack_size = require_num('--max-pack-objects', opt.max_pack_objects)
+        opt.max_pack_objects = require_num('--max-pack-objects', opt.max_pack_objects)
     if opt.fanout:
         opt.fanout = require_num('--fanout', opt.fanout)
     if opt.bwlimit:
-- 
2.43.0


From eb160a1ca8ed4bfa158e3b058cfcf0eaeab1587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 10/89] fix: index the metadata that save would record for
 fifos, sockets and devices

---
 lib/bup/cmd/index.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index f9a3fea..09c7e57 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -127,7 +127,8 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                 need_repack = False
                 if(rig.cur.stale(pst, check_device=check_device)):
                     try:
-                        meta = metadata.from_path(path, statinfo=pst)
+                        meta = metadata.from_path(path, statinfo=pst,
+                                                  normalized=True)
                     except (OSError, IOError) as e:
                         add_error(e)
                         rig.next()
@@ -169,7 +170,8 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                 rig.next()
             else:  # new paths
                 try:
-                    meta = metadata.from_path(path, statinfo=pst)
+                    meta = metadata.from_path(path, statinfo=pst,
+                                              normalized=True)
                 except (OSError, IOError) as e:
                     add_error(e)
                     continue
-- 
2.43.0


From 8a84f9ef40b21da14a7c7e9aa79e142e4f548260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 11/89] fix: keep the order of hard links when reindexing so
 saved trees still match

---
 lib/bup/cmd/index.py | 6 +++---
 lib/bup/hlinkdb.py   | 7 ++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index 09c7e57..c09b60f 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -133,10 +133,10 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                         add_error(e)
                         rig.next()
                         continue
-                    if not stat.S_ISDIR(rig.cur.mode) and rig.cur.nlink > 1:
-                        hlinks.del_path(rig.cur.name)
                     if not stat.S_ISDIR(pst.st_mode) and pst.st_nlink > 1:
-                        hlinks.add_path(path, pst.st_dev, pst.st_ino)
+                        hlinks.change_path(path, pst.st_dev, pst.st_ino)
+                    elif not stat.S_ISDIR(rig.cur.mode) and rig.cur.nlink > 1:
+                        hlinks.del_path(rig.cur.name)
                     # Clear these so they don't bloat the store -- they're
                     # already in the index (since they vary a lot and they're
                     # fixed length).  If you've noticed "tmax", you might
diff --git a/lib/bup/hlinkdb.py b/lib/bup/hlinkdb.py
index b71b550..e7a8dc7 100644
--- a/lib/bup/hlinkdb.py
+++ b/lib/bup/hlinkdb.py
@@ -94,10 +94,15 @@ class HLinkDB:
             del self._node_paths[node]
 
     def change_path(self, path, new_dev, new_ino):
+        # When the node is the same, leave the order of its paths alone
+        # because previously saved (and reusable) trees may refer to
+        # the first one.
         prev_node = self._path_node.get(path)
+        if prev_node == b'%d:%d' % (new_dev, new_ino):
+            return
         if prev_node:
             self._del_node_path(prev_node, path)
-        self.add_path(new_dev, new_ino, path)
+        self.add_path(path, new_dev, new_ino)
 
     def del_path(self, path):
         # Path may not be in db (if updating a pre-hardlink support index).
-- 
2.43.0


From b709ebfe4ec5142181ac35d45c98016079fe8246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 12/89] fix: don't let gc remove a pack that was rewritten
 under its own name

When the last object of a pack being rewritten fills the new pack, the
new pack is finished before the old one is listed as stale.  If the
two have the same content, and so the same name, the next removal of
the stale packs would delete the only copy of live data.
---
 lib/bup/gc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index 7ca2c28..581c7b2 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -145,17 +145,22 @@ def sweep(live_objects, live_trees, existing_count, cat_pipe, threshold,
     """Traverse all the packs, saving the (probably) live data."""
 
     stale_packs = [] # stems like /some/where/pack-OIDX (no suffix)
+    new_packs = set() # stems of the packs we've created
 
     def remove_stale_packs(new_pack_prefix):
         nonlocal stale_packs
         if new_pack_prefix:
             assert _pack_stem_rx.fullmatch(basename(new_pack_prefix))
+            new_packs.add(new_pack_prefix)
             if verbosity:
                 log('created ' + path_msg(basename(new_pack_prefix)) + '\n')
         for stem in stale_packs:
             assert _pack_stem_rx.fullmatch(basename(stem))
-            if stem == new_pack_prefix:
-                continue  # Don't remove the new pack file
+            # Don't remove a pack that's been rewritten as itself, and
+            # note that it may not have been finished just now, since
+            # a pack can fill up before its source is listed as stale.
+            if stem in new_packs:
+                continue
             for p in glob.glob(stem + b'.*'):
                 if verbosity:
                     log(f'removing {path_msg(basename(p))}\n')
-- 
2.43.0


From dcced96f36e32c1fd0f120fe2c5c7c869b0e8a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 13/89] fix: flush the end of a pack index before syncing it

The trailing checksums were still in the file object's buffer when the
index was synced, so a power loss could leave a truncated index.
---
 lib/bup/git.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index aa5bcf1..e8a2943 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -1071,6 +1071,7 @@ class PackIdxV2Writer:
             for b in chunkyreader(idx_f):
                 idx_sum.update(b)
             idx_f.write(idx_sum.digest())
+            idx_f.flush()
             fsync(idx_f.fileno())
 
 
-- 
2.43.0


From 6149b35a6ce8de33f9094bd973f6a760d91d015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 14/89] fix: sync the directory that new packs are renamed to

finish_pack() synced objects/, but the pack and its index are renamed
into objects/pack/, so after a power loss a reference could point to
objects whose pack was gone, or gc could have removed the old copies.
---
 lib/bup/git.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index e8a2943..46c9d84 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -841,7 +841,7 @@ class LocalPackStore():
                 objdir = os.path.join(self._repo_dir, b'objects')
                 self._tmpdir = err_stack.enter_context(temp_dir(dir=objdir, prefix=b'pack-tmp-'))
                 self._file = err_stack.enter_context(open(self._tmpdir + b'/pack', 'w+b'))
-                self._parentfd = err_stack.enter_context(finalized(os.open(objdir, os.O_RDONLY),
+                self._parentfd = err_stack.enter_context(finalized(os.open(objdir + b'/pack', os.O_RDONLY),
                                                                    os.close))
                 self._file.write(b'PACK\0\0\0\2\0\0\0\0')
                 self._idx = PackIdxV2Writer()
-- 
2.43.0


From 91384197575a88bf8f8573a42d84b2213853d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 15/89] fix: don't mistake a git show-ref failure for an
 absence of refs

If show-ref couldn't read some ref (say with an I/O error), list_refs()
saw no refs at all, and gc would then delete everything.
---
 lib/bup/git.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 46c9d84..679ed0d 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -1093,6 +1093,8 @@ def list_refs(patterns=None, repo_dir=None,
     if patterns:
         argv.extend(patterns)
     cp = subprocess.run(argv, env=_gitenv(repo_dir), stdout=subprocess.PIPE)
+    if cp.returncode not in (0, 1): # 1 just means there were no matches
+        _raise_git_cmd_error(argv, cp.returncode)
     if cp.returncode:
         assert not cp.stdout
     out = cp.stdout.strip()
-- 
2.43.0


From 94b5ab375c254c88c288d436cf23b31bd4ab4fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 16/89] fix: don't treat a directory whose metadata couldn't be
 read as saved

The index entry was still validated because only the name of the
directory, not its path, was recorded as having been skipped, and so
later saves kept reusing the tree without the metadata.
---
 lib/bup/cmd/save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 4b3ee81..e00e0d0 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -325,7 +325,7 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
                     if fs_path else empty_metadata
             except (OSError, IOError) as e:
                 add_error(e)
-                lastskip_name = dir_name
+                lastskip_name = os.path.join(fs_path, b'')
                 meta = empty_metadata
             stack.push(dir_name, meta)
 
-- 
2.43.0


From 5a37647938e7226e9733332dee7af1b84174db18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 17/89] fix: keep the existing entries when updating a bloom
 filter

When adding new indexes to an existing filter, bup bloom created a new
filter containing only the new indexes (and replaced the original with
it), so the filter no longer covered the repository, and the next run
had to regenerate it.  Update the existing filter instead, and create a
new one if the original disappears in the meantime.
---
 lib/bup/bloom.py     | 9 +++++++--
 lib/bup/cmd/bloom.py | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/bup/bloom.py b/lib/bup/bloom.py
index a28d263..6c57538 100644
--- a/lib/bup/bloom.py
+++ b/lib/bup/bloom.py
@@ -293,9 +293,14 @@ class BloomWriter(_BloomBase):
                     _validate_and_get_info(path, self.map)
                 dir, name = os.path.split(path)
                 fd, tmp = mkstemp(dir=dir or os.getcwdb(), prefix=name)
-                self._tmp_file_path = tmp
                 os.close(fd)
-                os.rename(path, tmp)
+                ctx.enter_context(finalized(tmp, unlink))
+                try:
+                    os.rename(path, tmp)
+                except FileNotFoundError as ex:
+                    self.map = None
+                    raise BloomNotFound(ex.errno, ex.strerror, ex.filename) from ex
+                self._tmp_file_path = tmp
                 ctx.pop_all()
             return
 
diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index c418640..d75411a 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -129,7 +129,10 @@ def do_bloom(path, outfilename, k, force):
             else:
                 b, b_tmp = None, b
                 b_tmp.close()
-                b = BloomWriter(outfilename, mode='w+b', expected=add_count)
+                try:
+                    b = BloomWriter(outfilename, mode='wb', expected=add_count)
+                except BloomNotFound:
+                    debug1("bloom: existing bloom removed, regenerating.\n")
         if b is None: # Need all idxs to build from scratch
             add += rest
             add_count += rest_count
-- 
2.43.0


From de32af8529cd4fb239128d5c1ad90c6272f10f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 18/89] fix: don't let concurrent bup bloom runs break each
 other

Every bup bloom wrote its new filter to the same temporary file, so
when two ran at once (and bup runs it automatically after saves) one
could lose its file to the other and fail with a FileNotFoundError.
Rely on BloomWriter's own (unique) temporary file instead, and discard
it after an error.
---
 lib/bup/cmd/bloom.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index d75411a..667b1e5 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -147,10 +147,9 @@ def do_bloom(path, outfilename, k, force):
                len(add), len(add)!=1 and 's' or '',
                add_count, add_count!=1 and 's' or ''))
 
-        tfname = None
         if b is None:
-            tfname = os.path.join(path, b'bup.tmp.bloom')
-            b = BloomWriter(tfname, 'w+b', expected=add_count, k=k)
+            # Won't replace outfilename until it's closed without error
+            b = BloomWriter(outfilename, 'w+b', expected=add_count, k=k)
         count = 0
         icount = 0
         for name in add:
@@ -161,14 +160,13 @@ def do_bloom(path, outfilename, k, force):
                 count += 1
                 icount += len(ix)
 
-    finally:  # This won't handle pending exceptions correctly in py2
-        # Currently, there's an open file object for tfname inside b.
-        # Make sure it's closed before rename.
+    except BaseException as ex: # Discard any unfinished filter
+        b, b_tmp = None, b
+        if b_tmp is not None: b_tmp.__exit__(type(ex), ex, ex.__traceback__)
+        raise
+    finally:
         if b is not None: b.close()
 
-    if tfname:
-        os.rename(tfname, outfilename)
-
 
 def main(argv):
     o = options.Options(optspec)
-- 
2.43.0


From 7f10bb71bd278bd7398601c5ce5e0b8d4e80292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 19/89] fix: don't merge prune-older days and months from
 different years

prune-older grouped adjacent saves by day of the year or month of the
year, ignoring the year, so (for example) with saves in January 2020
and January 2021 and none between, --keep-monthlies-for dropped the
January 2020 save even though it's the newest one for that month.
---
 lib/bup/cmd/prune_older.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/prune_older.py b/lib/bup/cmd/prune_older.py
index 6c22182..ba30b7c 100644
--- a/lib/bup/cmd/prune_older.py
+++ b/lib/bup/cmd/prune_older.py
@@ -37,8 +37,8 @@ def classify_saves(saves, period_start):
     for save in matches:
         yield True, save
 
-    tm_ranges = ((period_start['dailies'], lambda s: localtime(s[0]).tm_yday),
-                 (period_start['monthlies'], lambda s: localtime(s[0]).tm_mon),
+    tm_ranges = ((period_start['dailies'], lambda s: localtime(s[0])[:3]),
+                 (period_start['monthlies'], lambda s: localtime(s[0])[:2]),
                  (period_start['yearlies'], lambda s: localtime(s[0]).tm_year))
 
     # Break the decreasing utc sorted saves up into the respective
-- 
2.43.0


From 1ea59d62260c768b676723c0d9feeb966f56779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 20/89] fix: parse commits whose author ends with punctuation
 or has no mail

A full name like "J. Doe Jr." (which save takes from the password
database as is) produced commits that no later command could parse.
---
 lib/bup/commit.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/bup/commit.py b/lib/bup/commit.py
index d364087..c17938e 100644
--- a/lib/bup/commit.py
+++ b/lib/bup/commit.py
@@ -37,11 +37,9 @@ def parse_commit_gpgsig(sig):
 # https://github.com/git/git/blob/master/Documentation/technical/signature-format.txt
 # The continuation lines have only one leading space.
 
-_start_end_char = br'[^ .,:;<>"\'\0\n]'
-_content_char = br'[^\0\n<>]'
-_safe_str_rx = br'(?:%s{1,2}|(?:%s%s*%s))' \
-    % (_start_end_char,
-       _start_end_char, _content_char, _start_end_char)
+# As lenient as git when reading: the name may for example end with a
+# period ("J. Doe Jr."), and the mail address may be empty.
+_safe_str_rx = br'[^\0\n<>]*'
 _tz_rx = br'[-+]\d\d[0-5]\d'
 _parent_rx = br'(?:parent [abcdefABCDEF0123456789]{40}\n)'
 # Assumes every following line starting with a space is part of the
-- 
2.43.0


From 7cbd7717d54f2c7e01e43ce5840c1bf75332f845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 21/89] fix: let tag accept branch names that aren't ASCII

---
 lib/bup/cmd/tag.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/cmd/tag.py b/lib/bup/cmd/tag.py
index ebb6038..eacad9d 100644
--- a/lib/bup/cmd/tag.py
+++ b/lib/bup/cmd/tag.py
@@ -53,7 +53,7 @@ def main(argv):
     if not tag_name:
         o.fatal("tag name must not be empty.")
     debug1("args: tag name = %s; commit = %s\n"
-           % (path_msg(tag_name), commit.decode('ascii')))
+           % (path_msg(tag_name), path_msg(commit)))
 
     if tag_name in tags and not opt.force:
         log("bup: error: tag '%s' already exists\n" % path_msg(tag_name))
@@ -69,12 +69,12 @@ def main(argv):
         return EXIT_FAILURE
 
     if not hash:
-        log("bup: error: commit %s not found.\n" % commit.decode('ascii'))
+        log("bup: error: commit %s not found.\n" % path_msg(commit))
         return EXIT_FAILURE
 
     with git.PackIdxList(git.repo(b'objects/pack')) as pl:
         if not pl.exists(hash):
-            log("bup: error: commit %s not found.\n" % commit.decode('ascii'))
+            log("bup: error: commit %s not found.\n" % path_msg(commit))
             return EXIT_FAILURE
 
     git.update_ref(b'refs/tags/' + tag_name, hash, None, force=True)
-- 
2.43.0


From 0989a65b24d7701a6b09838e90f1f6dabe45d73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 22/89] fix: describe missing commits instead of crashing in
 walk_path_msg

For example gc --ignore-missing with a missing commit.
---
 lib/bup/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/io.py b/lib/bup/io.py
index e1e4361..5dbf5db 100644
--- a/lib/bup/io.py
+++ b/lib/bup/io.py
@@ -291,7 +291,8 @@ def walk_path_msg(ref_name, item_path):
         path_top = root + 2
     path = path_msg(b'/'.join(x.name for x in item_path[path_top:]))
     path = f'{path_msg(item_path[root].name)}:{path}'
-    if S_ISDIR(item_path[-1].mode):
+    mode = item_path[-1].mode # None for a commit
+    if mode is not None and S_ISDIR(mode):
         return f'{path_msg(ref_name)} {path}/'
     return f'{path_msg(ref_name)} {path}'
 
-- 
2.43.0


From e3e1c5915296884a1420b16df7482c2dbe22b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 23/89] fix: don't let prune-older remove saves behind out of
 order dates

As documented, only the saves at the end of the branch with
non-increasing dates are affected.  Previously, once one save was
older than a period, every save before it on the branch was treated as
if it were too, and was removed even if its date was recent.
---
 lib/bup/cmd/prune_older.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/bup/cmd/prune_older.py b/lib/bup/cmd/prune_older.py
index ba30b7c..3f9b5e5 100644
--- a/lib/bup/cmd/prune_older.py
+++ b/lib/bup/cmd/prune_older.py
@@ -33,6 +33,17 @@ def classify_saves(saves, period_start):
         for save in region[1:]:
             yield False, save
 
+    # Only the leading saves with non-increasing dates are affected
+    # (cf. bup-prune-older(1)), so set any others aside.
+    def still_ordered(save):
+        nonlocal prev_utc
+        if save[0] > prev_utc:
+            return False
+        prev_utc = save[0]
+        return True
+    prev_utc = float('inf')
+    saves, unordered = partition(still_ordered, saves)
+
     matches, rest = partition(lambda s: s[0] >= period_start['all'], saves)
     for save in matches:
         yield True, save
@@ -55,6 +66,9 @@ def classify_saves(saves, period_start):
     for save in rest:
         yield False, save
 
+    for save in unordered:
+        yield True, save
+
 
 optspec = """
 bup prune-older [options...] [BRANCH...]
-- 
2.43.0


From a3288f21c9da0f3abbb757020887eff31077ee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 24/89] fix: don't let prune-older remove saves newer than
 --wrt

As documented, any saves newer than the end of the periods are kept.
---
 lib/bup/cmd/prune_older.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/bup/cmd/prune_older.py b/lib/bup/cmd/prune_older.py
index 3f9b5e5..37eec51 100644
--- a/lib/bup/cmd/prune_older.py
+++ b/lib/bup/cmd/prune_older.py
@@ -20,7 +20,7 @@ def branches(refnames=tuple()):
             in git.list_refs(patterns=(b'refs/heads/' + n for n in refnames),
                              limit_to_heads=True))
 
-def classify_saves(saves, period_start):
+def classify_saves(saves, period_start, now):
     """For each (utc, ...) in saves, yield (True, (utc, ...)) if the
     save should be kept and (False, (utc, ...)) if the save should be
     removed.
@@ -44,7 +44,9 @@ def classify_saves(saves, period_start):
     prev_utc = float('inf')
     saves, unordered = partition(still_ordered, saves)
 
-    matches, rest = partition(lambda s: s[0] >= period_start['all'], saves)
+    # Anything newer than the end of the periods is kept.
+    keep_start = min(period_start['all'], now + 1)
+    matches, rest = partition(lambda s: s[0] >= keep_start, saves)
     for save in matches:
         yield True, save
 
@@ -161,7 +163,7 @@ def main(argv):
                  for ((oidx, utc), save_name) \
                  in zip(revs, save_names_for_commit_utcs(x[1] for x in revs)))
         for keep_save, (utc, oid_, save_name) \
-                in classify_saves(saves, period_start):
+                in classify_saves(saves, period_start, now):
             assert(keep_save in (False, True))
             # FIXME: base removals on hashes
             if opt.pretend:
-- 
2.43.0


From 5761cb1620197a0b23cb53d89918bd14546d5974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 25/89] fix: let get methods build on earlier ones with the
 same destination

Previously, given more than one method with the same destination, for
example --append: a x --append: b x, each one started over from the
original destination, and the results of all but the last were lost.
---
 lib/bup/cmd/get.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/bup/cmd/get.py b/lib/bup/cmd/get.py
index 6d48913..cbde3ab 100644
--- a/lib/bup/cmd/get.py
+++ b/lib/bup/cmd/get.py
@@ -892,6 +892,7 @@ def get_everything(opt):
                             for x in target_items]
 
             updated_refs = {}  # ref_name -> (original_ref, tip_commit(bin))
+            updated_types = {} # ref_name -> Loc type
             no_ref_info = (None, None)
 
             handlers = {'ff': handle_ff,
@@ -918,7 +919,10 @@ def get_everything(opt):
                 dest_hash = item.dest and item.dest.hash
                 orig_ref, cur_ref = updated_refs.get(dest_ref, no_ref_info)
                 orig_ref = orig_ref or dest_hash
-                cur_ref = cur_ref or dest_hash
+                if cur_ref: # build on the result of the earlier method
+                    dest = item.dest._replace(type=updated_types[dest_ref],
+                                              hash=cur_ref)
+                    item = item._replace(dest=dest)
 
                 handler = handlers[item.spec.method]
                 get_res = handler(item, src_repo, dest_repo)
@@ -928,6 +932,12 @@ def get_everything(opt):
                     log_item(item.spec.src, item.src.type, opt)
                 else:
                     updated_refs[dest_ref] = (orig_ref, get_res.oid)
+                    if not dest_ref.startswith(b'refs/tags/'):
+                        updated_types[dest_ref] = 'branch'
+                    elif get_res.tree or item.src.type in ('branch', 'save'):
+                        updated_types[dest_ref] = 'commit' # e.g. a pick
+                    else:
+                        updated_types[dest_ref] = item.src.type
                     if dest_ref.startswith(b'refs/tags/'):
                         log_item(item.spec.src, item.src.type, opt,
                                  tag=get_res.oid)
-- 
2.43.0


From 15709253d1eedc4b6bb25e96bac9f33b06a7ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 26/89] fix: let get rewrite and repair symlinks that lack
 metadata

Symlinks without a metadata target, i.e. those in saves created by git
(or by very old bups), and those whose metadata was lost, could not be
rewritten ("Symlink with mismatched targets") and crashed --repair.  The
blob is all there is, so use it.
---
 lib/bup/rewrite.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/bup/rewrite.py b/lib/bup/rewrite.py
index e7999ec..02d74c9 100755
--- a/lib/bup/rewrite.py
+++ b/lib/bup/rewrite.py
@@ -269,8 +269,10 @@ def _vfs_walk_dir_recursively(srcrepo, dstrepo, path, excludes, db, mapping,
 def _rewrite_link(path, item_mode, srcrepo, dstrepo, stack, repairs):
     name, item = path[-1]
     assert isinstance(name, bytes)
-    have_meta = isinstance(item.meta, metadata.Metadata)
-    if have_meta:
+    # LostMetadata (and git symlinks) won't have a target
+    have_target = isinstance(item.meta, metadata.Metadata) \
+        and item.meta.symlink_target is not None
+    if have_target:
         # FIXME: not tested?
         if item.meta.size is None:
             item = vfs.copy_item(item)
@@ -282,7 +284,7 @@ def _rewrite_link(path, item_mode, srcrepo, dstrepo, stack, repairs):
 
     if isinstance(item, FakeLink):
         target = item.target
-    elif isinstance(item.meta, Metadata):
+    elif have_target:
         target = item.meta.symlink_target
     else:
         target = None
@@ -296,7 +298,9 @@ def _rewrite_link(path, item_mode, srcrepo, dstrepo, stack, repairs):
         else:
             assert kind == b'blob', kind
             target_blob = b''.join(it)
-            if target_blob != target: # very unlikely, but easy to handle
+            if target is None: # the blob is all there is
+                target = target_blob
+            elif target_blob != target: # very unlikely, but easy to handle
                 if not repairs.destructive:
                     ep = path_msg(render_path(path))
                     log(f'Symlink with mismatched targets (can --repair): {ep}\n')
-- 
2.43.0


From 434f8af16868dfd6a6f47d6d222ac6341057e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 27/89] fix: let get replace unreadable files that also lost
 their metadata

LostMetadata has no owner, so creating the replacement crashed.
---
 lib/bup/rewrite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/rewrite.py b/lib/bup/rewrite.py
index 02d74c9..ccc92a3 100755
--- a/lib/bup/rewrite.py
+++ b/lib/bup/rewrite.py
@@ -148,7 +148,7 @@ def _blob_replacement(repo, meta, content):
     rm.rdev = 0
     rm.atime = rm.mtime = rm.ctime = now
     rm.size = len(content)
-    if isinstance(meta, Metadata):
+    if isinstance(meta, Metadata) and not isinstance(meta, LostMetadata):
         rm.uid = meta.uid
         rm.gid = meta.gid
         rm.user = meta.user
-- 
2.43.0


From e98d5e8dde41baaaf67a5079aed57f3a522634ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 28/89] fix: keep resolving the rest of a path after an
 absolute symlink

Whatever followed a symlink with an absolute target was dropped, so
that for example ls or restore of link/x operated on the link's target,
and nonexistent paths were found.
---
 lib/bup/vfs.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index fd59254..4f7a3f2 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1193,12 +1193,8 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                 target = readlink(repo, item)
                 is_absolute, _, target_future = _decompose_path(target)
                 if is_absolute:
-                    if not target_future:  # path was effectively '/'
-                        return notice_resolution(((b'', _root),))
                     past = [(b'', _root)]
-                    future = target_future
-                else:
-                    future.extend(target_future)
+                future.extend(target_future)
                 hops += 1
 
 def resolve(repo, path, parent=None, want_meta=True, follow=True):
-- 
2.43.0


From c0f2a2cbbadaab3be609806e3bebbc065ad4e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 29/89] fix: don't crash reporting vfs errors for a path
 relative to a parent

The parent is a tuple, so formatting it with % raised TypeError instead
of the intended ENOTDIR or ELOOP, for example for ls of a symlink loop.
---
 lib/bup/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 4f7a3f2..44dfe0e 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1104,7 +1104,7 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
         raise IOError(ENOTDIR,
                       "path %s%s resolves to non-directory %r"
                       % (path,
-                         ' (relative to %r)' % parent if parent else '',
+                         ' (relative to %r)' % (parent,) if parent else '',
                          past),
                       terminus=past)
     global _root
@@ -1169,7 +1169,7 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                         raise IOError(ENOTDIR,
                                       'path %r%s ends internally in non-directory here: %r'
                                       % (path,
-                                         ' (relative to %r)' % parent if parent else '',
+                                         ' (relative to %r)' % (parent,) if parent else '',
                                          past),
                                       terminus=past)
                     if must_be_dir:
@@ -1188,7 +1188,7 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                 if hops > 100:
                     raise IOError(ELOOP,
                                   'too many symlinks encountered while resolving %r%s'
-                                  % (path, ' relative to %r' % parent if parent else ''),
+                                  % (path, ' relative to %r' % (parent,) if parent else ''),
                                   terminus=tuple(past + [(segment, item)]))
                 target = readlink(repo, item)
                 is_absolute, _, target_future = _decompose_path(target)
-- 
2.43.0


From f68aaf17cfc65b723ebbf463280a6e04f2838ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 30/89] fix: require a directory when a symlink's target ends
 with a slash

---
 lib/bup/vfs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 44dfe0e..b954dd9 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -1191,7 +1191,10 @@ def _resolve_path(repo, path, parent=None, want_meta=True, follow=True):
                                   % (path, ' relative to %r' % (parent,) if parent else ''),
                                   terminus=tuple(past + [(segment, item)]))
                 target = readlink(repo, item)
-                is_absolute, _, target_future = _decompose_path(target)
+                is_absolute, target_must_be_dir, target_future = \
+                    _decompose_path(target)
+                if target_must_be_dir and not future:
+                    must_be_dir = True
                 if is_absolute:
                     past = [(b'', _root)]
                 future.extend(target_future)
-- 
2.43.0


From 4c7a6aba51e8e34f37b5420c9db6d849e66cbbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 31/89] fix: report unknown ftp commands instead of crashing

---
 lib/bup/cmd/ftp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/bup/cmd/ftp.py b/lib/bup/cmd/ftp.py
index 99d8add..c1b7535 100644
--- a/lib/bup/cmd/ftp.py
+++ b/lib/bup/cmd/ftp.py
@@ -214,8 +214,7 @@ def present_interface(stdin, out, extra, repo):
             elif cmd in (b'quit', b'exit', b'bye'):
                 break
             else:
-                raise CommandError('no such command: '
-                                   + cmd.encode(errors='backslashreplace'))
+                raise CommandError('no such command: ' + path_msg(cmd))
         except CommandError as ex:
             out.write(b'error: %s\n' % str(ex).encode(errors='backslashreplace'))
             out.flush()
-- 
2.43.0


From acb66d712e5e99ff96e8e9061141edc26dc410a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 32/89] fix: don't crash when ftp is asked for something that
 isn't a file

---
 lib/bup/cmd/ftp.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/ftp.py b/lib/bup/cmd/ftp.py
index c1b7535..429447f 100644
--- a/lib/bup/cmd/ftp.py
+++ b/lib/bup/cmd/ftp.py
@@ -37,6 +37,12 @@ def write_to_file(inf, outf):
         outf.write(blob)
 
 
+def fopen(repo, item, path):
+    if not stat.S_ISREG(vfs.item_mode(item)):
+        raise CommandError('path is not a plain file: ' + path_msg(path))
+    return vfs.fopen(repo, item)
+
+
 def _completer_get_subs(repo, line):
     (qtype, lastword) = shquote.unfinished_word(line)
     dir, name = os.path.split(lastword)
@@ -168,7 +174,7 @@ def present_interface(stdin, out, extra, repo):
                     _, leaf_item = res[-1]
                     if not leaf_item:
                         raise CommandError('path does not exist: ' + rpath_msg(res))
-                    with vfs.fopen(repo, leaf_item) as srcfile:
+                    with fopen(repo, leaf_item, parm) as srcfile:
                         write_to_file(srcfile, out)
                 out.flush()
             elif cmd == b'get':
@@ -181,7 +187,7 @@ def present_interface(stdin, out, extra, repo):
                 _, leaf_item = res[-1]
                 if not leaf_item:
                     raise CommandError('path does not exist: ' + rpath_msg(res))
-                with vfs.fopen(repo, leaf_item) as srcfile:
+                with fopen(repo, leaf_item, rname) as srcfile:
                     with open(lname, 'wb') as destfile:
                         log('Saving %s\n' % path_msg(lname))
                         write_to_file(srcfile, destfile)
@@ -204,6 +210,10 @@ def present_interface(stdin, out, extra, repo):
                                     raise CommandError('path does not exist: '
                                                        + rpath_msg(res))
                                 item = deref_item
+                            if not stat.S_ISREG(vfs.item_mode(item)):
+                                log('Skipping %s (not a plain file)\n'
+                                    % path_msg(name))
+                                continue
                             with vfs.fopen(repo, item) as srcfile:
                                 with open(name, 'wb') as destfile:
                                     log('Saving %s\n' % path_msg(name))
-- 
2.43.0


From 211627f4252f7b43ae90e1ebba8270267737b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 33/89] fix: report ftp paths that can't be resolved instead of
 exiting

---
 lib/bup/cmd/ftp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/ftp.py b/lib/bup/cmd/ftp.py
index 429447f..446ea34 100644
--- a/lib/bup/cmd/ftp.py
+++ b/lib/bup/cmd/ftp.py
@@ -225,7 +225,7 @@ def present_interface(stdin, out, extra, repo):
                 break
             else:
                 raise CommandError('no such command: ' + path_msg(cmd))
-        except CommandError as ex:
+        except (CommandError, vfs.IOError) as ex:
             out.write(b'error: %s\n' % str(ex).encode(errors='backslashreplace'))
             out.flush()
 
-- 
2.43.0


From e1f71be3f351b5ce28ed761c4c3e3f5aa72f9387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 34/89] fix: let ftp mget fetch files from the current
 directory

---
 lib/bup/cmd/ftp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bup/cmd/ftp.py b/lib/bup/cmd/ftp.py
index 446ea34..62832a8 100644
--- a/lib/bup/cmd/ftp.py
+++ b/lib/bup/cmd/ftp.py
@@ -195,10 +195,12 @@ def present_interface(stdin, out, extra, repo):
                 for parm in words[1:]:
                     dir, base = os.path.split(parm)
 
-                    res = vfs.resolve(repo, dir, parent=pwd)
+                    res = vfs.resolve(repo, dir or b'.', parent=pwd)
                     _, dir_item = res[-1]
                     if not dir_item:
                         raise CommandError('path does not exist: ' + path_msg(dir))
+                    if not stat.S_ISDIR(vfs.item_mode(dir_item)):
+                        raise CommandError('path is not a directory: ' + path_msg(dir))
                     for name, item in vfs.contents(repo, dir_item):
                         if name == b'.':
                             continue
-- 
2.43.0


From 47e230238863cf40933dc9d57fea674f1cc3abf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 35/89] fix: don't ignore every other line typed at the ftp
 prompt

---
 lib/bup/cmd/ftp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/ftp.py b/lib/bup/cmd/ftp.py
index 62832a8..3236d09 100644
--- a/lib/bup/cmd/ftp.py
+++ b/lib/bup/cmd/ftp.py
@@ -110,7 +110,7 @@ def inputiter(f, pwd, out):
                 if line is None:
                     print()  # Clear the line for the terminal's next prompt
                     break
-                yield _helpers.readline(prompt)
+                yield line
             else:
                 out.write(prompt)
                 out.flush()
-- 
2.43.0


From 0001c6470a76b0b8059c356ebed9a8859dbe7fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 36/89] fix: don't treat git revision syntax in vfs paths as
 branches

---
 lib/bup/vfs.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index b954dd9..303fd9e 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -588,13 +588,14 @@ def root_items(repo, names=None, want_meta=True):
     for ref in names:
         if ref in (b'.', b'.tag'):
             continue
-        oidx, typ, size_, it = repo.cat(b'refs/heads/' + ref)
-        if not oidx:
+        if b'\n' in ref:  # never valid
             continue
-        assert typ == b'commit'
-        data = b''.join(it)
-        yield ref, _revlist_item_from_oid(repo, unhexlify(oidx), want_meta,
-                                          data=data)
+        # Can't just cat the ref because the name might then be
+        # understood as something other than a branch, e.g. foo~3.
+        ref_name = b'refs/heads/' + ref
+        for name, oid in tuple(repo.refs([ref_name], limit_to_heads=True)):
+            if name == ref_name:
+                yield ref, _revlist_item_from_oid(repo, oid, want_meta)
 
 def ordered_tree_entries(entries, bupm=None):
     """Returns [(name, mangled_name, kind, gitmode, oid) ...] for each
-- 
2.43.0


From 7669c944c2d41b164a22ee725b46a5a2eb861f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 37/89] fix: send the patterns given to a remote refs request
 as its patterns

---
 lib/bup/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index e118faf..cb5dff4 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -562,8 +562,8 @@ class Client:
                     raise ClientError('unexpected leftover data ' + repr(detritus))
 
     def refs(self, patterns=None, limit_to_heads=False, limit_to_tags=False):
-        args = b'%d %d\n' % (1 if limit_to_heads else 0,
-                             1 if limit_to_tags else 0)
+        args = b'%d %d' % (1 if limit_to_heads else 0,
+                           1 if limit_to_tags else 0)
         with self._line_based_call('refs', args) as call:
             patterns = patterns or tuple()
             for pattern in patterns:
-- 
2.43.0


From aa433eca6165b54269c21212d54004a6c8e23b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:16 +0000
Subject: [PATCH 38/89] fix: don't crash listing the indexes of a remote
 repository

---
 lib/bup/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index cb5dff4..4969e78 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -407,7 +407,7 @@ class Client:
                 yield idx, load
 
     def list_indexes(self):
-        for idx, _ in self._list_indexes(self):
+        for idx, _ in self._list_indexes():
             yield idx
 
     def sync_indexes(self):
-- 
2.43.0


From 3acb78346e69a6e11990fab82d58e954420ef2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 39/89] fix: don't fail fetching indexes already cached from a
 non-deduplicating server

---
 lib/bup/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index 4969e78..abd35f9 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -418,9 +418,10 @@ class Client:
             debug1(pm(f) + '\n')
             if f.endswith(b'.idx'):
                 extra.add(f)
+        cached = frozenset(extra)
         needed = set()
         for idx, load in self._list_indexes():
-            if load:
+            if load and idx not in cached:
                 # If the server requests that we load an idx and we don't
                 # already have a copy of it, it is needed
                 needed.add(idx)
-- 
2.43.0


From 259f76ea0fb5cdcf0d753f2324d45d84b9023421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 40/89] fix: don't crash when an ssh repository URL has a port

---
 lib/bup/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/client.py b/lib/bup/client.py
index abd35f9..8ebc054 100644
--- a/lib/bup/client.py
+++ b/lib/bup/client.py
@@ -203,8 +203,9 @@ class Client:
             elif not isinstance(host, bytes):
                 raise Exception(f'unexpected host type for {host}')
             dest = host if not url.user else b'%s@%s' % (url.user, host)
+            port = None if url.port is None else b'%d' % url.port
             try:
-                self._proc = ssh.connect(dest, url.port, b'server')
+                self._proc = ssh.connect(dest, port, b'server')
             except OSError as e:
                 raise ClientError('connect: %s' % e) from e
             try:
-- 
2.43.0


From 847420bc95fab264fc0aa95e8dccd4abb08fc8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 41/89] fix: let daemon --listen and --port take their
 arguments

---
 lib/bup/cmd/daemon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/daemon.py b/lib/bup/cmd/daemon.py
index 63fb0d6..3b0193a 100644
--- a/lib/bup/cmd/daemon.py
+++ b/lib/bup/cmd/daemon.py
@@ -12,8 +12,8 @@ from bup.helpers import EXIT_FAILURE, log, debug1
 optspec = """
 bup daemon [options...] -- [bup-server options...]
 --
-l,listen  ip address to listen on, defaults to *
-p,port    port to listen on, defaults to 1982
+l,listen= ip address to listen on, defaults to *
+p,port=   port to listen on, defaults to 1982
 """
 
 def main(argv):
-- 
2.43.0


From a025a08f59adbfd85ae219e31d5deb1174ef7b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 42/89] fix: report why the daemon can't listen instead of
 crashing

---
 lib/bup/cmd/daemon.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/daemon.py b/lib/bup/cmd/daemon.py
index 3b0193a..d8560b3 100644
--- a/lib/bup/cmd/daemon.py
+++ b/lib/bup/cmd/daemon.py
@@ -29,7 +29,8 @@ def main(argv):
         af, socktype, proto, canonname_, sa = res
         try:
             s = socket.socket(af, socktype, proto)
-        except socket.error:
+        except socket.error as ex:
+            e = ex
             continue
         try:
             if af == socket.AF_INET6:
@@ -40,7 +41,8 @@ def main(argv):
             s.bind(sa)
             s.listen(1)
             fcntl.fcntl(s.fileno(), fcntl.F_SETFD, fcntl.FD_CLOEXEC)
-        except socket.error:
+        except socket.error as ex:
+            e = ex
             s.close()
             continue
         socks.append(s)
-- 
2.43.0


From 84529f94bd84a6048d43eb7ae437b05286a5a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 43/89] fix: strip only prefixes that end at a path component
 boundary

---
 lib/bup/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index b3eb852..3906505 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -1067,7 +1067,7 @@ def stripped_path_components(path, strip_prefixes):
         normalized_bp = os.path.abspath(bp)
         if normalized_bp == b'/':
             continue
-        if normalized_path.startswith(normalized_bp):
+        if (normalized_path + b'/').startswith(normalized_bp + b'/'):
             prefix = normalized_path[:len(normalized_bp)]
             result = []
             for p in normalized_path[len(normalized_bp):].split(b'/'):
-- 
2.43.0


From 126ab847f98bf652d18f50417d9d256ca543a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 44/89] fix: graft only paths below the graft point, and take
 it literally

---
 lib/bup/helpers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index 3906505..e9f75c4 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -1101,9 +1101,8 @@ def grafted_path_components(graft_points, path):
         # Expand prefixes iff not absolute paths.
         old_prefix = os.path.normpath(old_prefix)
         new_prefix = os.path.normpath(new_prefix)
-        if clean_path.startswith(old_prefix):
-            escaped_prefix = re.escape(old_prefix)
-            grafted_path = re.sub(br'^' + escaped_prefix, new_prefix, clean_path)
+        if old_prefix == b'/' or (clean_path + b'/').startswith(old_prefix + b'/'):
+            grafted_path = new_prefix + clean_path[len(old_prefix):]
             # Handle /foo=/ (at least) -- which produces //whatever.
             grafted_path = b'/' + grafted_path.lstrip(b'/')
             clean_path_components = path_components(clean_path)
-- 
2.43.0


From 1e92feb578b9a73626515b40325636a02283fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 45/89] fix: don't put stripped or grafted files in the wrong
 directory

The directories being saved aren't in order after --strip-path or
--graft changes them, so leave any that don't contain the current one,
not just those that sort after it, and allow for returning to them.
---
 lib/bup/cmd/save.py |  9 ++++++---
 lib/bup/tree.py     | 16 ++++++++++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index e00e0d0..8eeaa1b 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -312,9 +312,12 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
         elif first_root != dirp[0]:
             root_collision = True
 
-        # If switching to a new sub-tree, finish the current sub-tree.
-        while stack.path() > [x[0] for x in dirp]:
-            _ = stack.pop()
+        # If switching to a new sub-tree, leave the current sub-tree.
+        # There may be more to add to it later because the paths may
+        # not be in order after --strip-path, --graft, etc.
+        dirp_names = [x[0] for x in dirp]
+        while stack.path() != dirp_names[:len(stack)]:
+            stack.suspend()
 
         # If switching to a new sub-tree, start a new sub-tree.
         for path_component in dirp[len(stack):]:
diff --git a/lib/bup/tree.py b/lib/bup/tree.py
index 6d2cda8..e00ba2d 100644
--- a/lib/bup/tree.py
+++ b/lib/bup/tree.py
@@ -104,12 +104,13 @@ def _abbreviate_item_names(items, level):
 
 
 class StackDir:
-    __slots__ = 'name', 'items', 'meta'
+    __slots__ = 'name', 'items', 'meta', 'suspended'
 
     def __init__(self, name, meta):
         self.name = name
         self.meta = meta
         self.items = []
+        self.suspended = {} # sub-directories that might be pushed again
     def __repr__(self):
         cls = self.__class__
         return f'<{cls.__module__}.{cls.__name__} object at {hex(id(self))}' \
@@ -181,7 +182,14 @@ class Stack:
 
     def push(self, name, meta):
         assert isinstance(meta, (Metadata, int, type(None))), meta
-        self._stack.append(StackDir(name, meta))
+        suspended = len(self) and self._stack[-1].suspended.pop(name, None)
+        self._stack.append(suspended or StackDir(name, meta))
+
+    def suspend(self):
+        """Leave the current directory.  If the directory isn't pushed again
+        (to add to it), it'll be finished when its parent is popped."""
+        tree = self._stack.pop()
+        self._stack[-1].suspended[tree.name] = tree
 
     def _clean(self, tree):
         names_seen = set()
@@ -303,6 +311,10 @@ class Stack:
         return self._write_split_tree(tree.meta, items)
 
     def pop(self, override_tree=None, override_meta=None):
+        if not override_tree:
+            for child in list(self._stack[-1].suspended.values()):
+                self.push(child.name, child.meta)
+                self.pop()
         tree = self._stack.pop()
         if override_meta is not None:
             tree.meta = override_meta
-- 
2.43.0


From 1bb9b1f72cdc1498cf8cef68c6391dc026d4cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 46/89] fix: don't confuse relocated directories with the
 originals in save

When --strip, --strip-path, or --graft moves files out of, into, or
within a directory, the tree saved for the directory isn't the one the
index would use for it.  Previously save could omit everything below
the root (when the stripped directory was already saved), or omit or
add files to subsequent, unrelated saves by recording the altered tree
in the index.
---
 lib/bup/cmd/save.py | 55 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 8eeaa1b..461b713 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -195,14 +195,52 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
                   % (pct, cc/1024, total/1024, fcount, ftotal,
                      remainstr, kpsstr))
 
+    def archive_path(path):
+        # Return the path_components for path, as altered by --strip, etc.
+        if opt.strip:
+            return stripped_path_components(path, opt.sources)
+        if opt.strip_path:
+            return stripped_path_components(path, [opt.strip_path])
+        if opt.grafts:
+            return grafted_path_components(opt.grafts, path)
+        return path_components(path)
+
+    # Where each path that's relevant to --strip, etc. is, and will be
+    relocations = []
+    if opt.strip or opt.strip_path or opt.grafts:
+        for path in (*opt.sources, *filter(None, (opt.strip_path,)),
+                     *(old for old, new in opt.grafts)):
+            path = resolve_parent(path)
+            relocations.append(([x[0] for x in path_components(path)],
+                                [x[0] for x in archive_path(path)]))
+
+    def relocated(ent):
+        # Return true if the archived directory for ent might not have
+        # exactly the same content as the original, either because
+        # it's the root or the parent of a graft (which may lack
+        # metadata), or because some paths were moved out of, into, or
+        # within it.
+        if not (relocations and stat.S_ISDIR(ent.mode)):
+            return False
+        def suffix(path, parent):
+            return path[:len(parent)] == parent and path[len(parent):]
+        orig = [x[0] for x in path_components(ent.name)]
+        new = [x[0] for x in archive_path(ent.name)]
+        return len(new) == 1 \
+            or any(suffix(x, orig) != suffix(y, new) for x, y in relocations) \
+            or any(suffix(new, y) not in (False, suffix(orig, x))
+                   for x, y in relocations if len(y) > 1) \
+            or any(suffix([b'', *target.split(b'/')[1:]], new)
+                   for _, target in opt.grafts)
+
     def already_saved(ent):
         return ent.is_valid() and repo.exists(ent.sha) and ent.sha
 
     def wantrecurse_pre(ent):
-        return not already_saved(ent)
+        return not already_saved(ent) or relocated(ent)
 
     def wantrecurse_during(ent):
-        return not already_saved(ent) or ent.sha_missing()
+        return not already_saved(ent) or ent.sha_missing() or relocated(ent)
 
     def find_hardlink_target(hlink_db, ent):
         if hlink_db and not stat.S_ISDIR(ent.mode) and ent.nlink > 1:
@@ -284,14 +322,7 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
             continue
 
         assert(dir.startswith(b'/'))
-        if opt.strip:
-            dirp = stripped_path_components(dir, opt.sources)
-        elif opt.strip_path:
-            dirp = stripped_path_components(dir, [opt.strip_path])
-        elif opt.grafts:
-            dirp = grafted_path_components(opt.grafts, dir)
-        else:
-            dirp = path_components(dir)
+        dirp = archive_path(dir)
 
         # At this point, dirp contains a representation of the archive
         # path that looks like [(archive_dir_name, real_fs_path), ...].
@@ -335,6 +366,10 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
         if not file:
             if len(stack) == 1:
                 continue # We're at the top level -- keep the current root dir
+            if relocated(ent):
+                # There may be more, and the index can't refer to it.
+                stack.suspend()
+                continue
             # Since there's no filename, this is a subdir -- finish it.
             oldtree = already_saved_oid # may be False
             newtree = stack.pop(override_tree=oldtree)
-- 
2.43.0


From fa610391a4eb8135a342276de8348be6983115f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 47/89] fix: strip paths given via a symlinked parent

---
 lib/bup/cmd/save.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 461b713..83f9157 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -198,9 +198,11 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
     def archive_path(path):
         # Return the path_components for path, as altered by --strip, etc.
         if opt.strip:
-            return stripped_path_components(path, opt.sources)
+            return stripped_path_components(path, [resolve_parent(x)
+                                                   for x in opt.sources])
         if opt.strip_path:
-            return stripped_path_components(path, [opt.strip_path])
+            return stripped_path_components(path,
+                                            [resolve_parent(opt.strip_path)])
         if opt.grafts:
             return grafted_path_components(opt.grafts, path)
         return path_components(path)
-- 
2.43.0


From f767a20d2fe5f7e0a610583c52c6b4372abb2bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 48/89] fix: handle version 1 pack indexes

Opening one always failed since struct.unpack() requires the buffer to
match the format exactly, and midx and bloom took the 24-byte entries
for a contiguous table of hashes.
---
 lib/bup/cmd/midx.py |  5 +++--
 lib/bup/git.py      | 11 ++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/bup/cmd/midx.py b/lib/bup/cmd/midx.py
index 479d0c2..51c6f05 100644
--- a/lib/bup/cmd/midx.py
+++ b/lib/bup/cmd/midx.py
@@ -125,10 +125,11 @@ def _do_midx(outdir, outfilename, infilenames, prefixstr,
             if not ix:
                 continue
             contexts.enter_context(ix)
+            v1 = isinstance(ix, git.PackIdxV1) # hashes aren't contiguous
             inp.append((
-                ix.map,
+                ix.shatable if v1 else ix.map,
                 len(ix),
-                ix.sha_ofs,
+                0 if v1 else ix.sha_ofs,
                 isinstance(ix, midx.PackMidx) and ix.which_ofs or 0,
                 len(allfilenames),
             ))
diff --git a/lib/bup/git.py b/lib/bup/git.py
index 679ed0d..26b316d 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -437,14 +437,16 @@ class PackIdxV1(PackIdx):
         self.idxnames = [self.name]
         self.map = mmap_read(f)
         # Min size for 'L' is 4, which is sufficient for struct's '!I'
-        self.fanout = array('L', struct.unpack('!256I', self.map))
+        self.fanout = array('L', struct.unpack_from('!256I', self.map))
         self.fanout.append(0)  # entry "-1"
         self.nsha = self.fanout[255]
         self.sha_ofs = 256 * 4
-        # Avoid slicing shatable for individual hashes (very high overhead)
         assert self.nsha
-        self.shatable = \
-            memoryview(self.map)[self.sha_ofs:self.sha_ofs + self.nsha * 24]
+
+    @property
+    def shatable(self):
+        # The hashes aren't contiguous in a v1 index
+        return b''.join(self)
 
     def __enter__(self): return self
     def __exit__(self, type, value, traceback): self.close()
@@ -477,7 +479,6 @@ class PackIdxV1(PackIdx):
     def close(self):
         self.closed = True
         if self.map is not None:
-            self.shatable = None
             self.map.close()
             self.map = None
 
-- 
2.43.0


From 15efc997916062b0bf16c978798690c9fa4bfe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 49/89] fix: don't trust a bloom filter that lacks some of the
 indexes

The number of objects in the filter can be large enough when packs that
it includes have been removed, and then it would claim that the objects
in newer packs don't exist.
---
 lib/bup/git.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 26b316d..c5a9211 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -745,7 +745,10 @@ class PackIdxList:
                 except BloomInvalid as ex:
                     log(f'warning: {str(ex)}\n')
             try:
-                if self.bloom and len(self.bloom) >= len(self):
+                if self.bloom and len(self.bloom) >= len(self) \
+                   and not {os.path.basename(name) for p in self.packs
+                            for name in p.idxnames} \
+                               .difference(self.bloom.idxnames):
                     self.do_bloom = True
                 else:
                     if self.bloom:
-- 
2.43.0


From 5bb1fd9badcc9dd31599a460e8a36ef8443689a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:22 +0000
Subject: [PATCH 50/89] fix: reject truncated bloom filters

Otherwise lookups read beyond the end of the mapping.
---
 lib/bup/bloom.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/bup/bloom.py b/lib/bup/bloom.py
index 6c57538..0c497db 100644
--- a/lib/bup/bloom.py
+++ b/lib/bup/bloom.py
@@ -164,14 +164,20 @@ class BloomNotFound(FileNotFoundError): pass
 
 def _validate_and_get_info(path, data):
     got = data[0:4]
-    if got != b'BLOM':
+    if got != b'BLOM' or len(data) < 8:
         raise BloomInvalid(f'invalid BLOM header ({pm(got)}) in {pm(path)}')
     ver = struct.unpack('!I', data[4:8])[0]
     if ver < BLOOM_VERSION:
         raise BloomInvalid(f'old-style (v{ver}) bloom {pm(path)}')
     if ver > BLOOM_VERSION:
         raise BloomInvalid(f'too-new (v{ver}) bloom {pm(path)}')
+    if len(data) < 16:
+        raise BloomInvalid(f'truncated bloom {pm(path)}')
     bits, k, entries = struct.unpack('!HHI', data[8:16])
+    if k not in MAX_BLOOM_BITS or bits > MAX_BLOOM_BITS[k]:
+        raise BloomInvalid(f'invalid parameters in bloom {pm(path)}')
+    if len(data) < 16 + 2**bits:
+        raise BloomInvalid(f'truncated bloom {pm(path)}')
     idxnames = data[16 + 2**bits:]
     idxnames = idxnames.split(b'\0') if idxnames else []
     return ver, bits, k, entries, idxnames
@@ -189,7 +195,10 @@ class BloomReader(_BloomBase):
                 file = ctx.enter_context(builtins.open(path, 'rb'))
             except FileNotFoundError as ex:
                 raise BloomNotFound(ex.errno, ex.strerror, ex.filename) from ex
-            self.map = ctx.enter_context(mmap_read(file, close=True))
+            self.map = mmap_read(file, close=True)
+            if not self.map: # i.e. not an mmap
+                raise BloomInvalid(f'empty bloom {pm(path)}')
+            ctx.enter_context(self.map)
             self.version, self.bits, self.k, self.entries, self.idxnames = \
                 _validate_and_get_info(path, self.map)
             ctx.pop_all()
-- 
2.43.0


From 143f108628a663fde46e7d5c792826fb6c000ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:25 +0000
Subject: [PATCH 51/89] fix: skip truncated midx files

Previously they broke every lookup, and so every save, with an
exception.
---
 lib/bup/midx.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/bup/midx.py b/lib/bup/midx.py
index e7eec42..5214241 100644
--- a/lib/bup/midx.py
+++ b/lib/bup/midx.py
@@ -18,6 +18,16 @@ _total_steps = 0
 def _midx_header(mmap): return mmap[0:4]
 def _midx_version(mmap): return struct.unpack('!I', mmap[4:8])[0]
 
+def _midx_truncated(mmap):
+    if len(mmap) < 12:
+        return True
+    bits = _helpers.firstword(mmap[8:12])
+    sha_ofs = 12 + 4 * 2**min(bits, 32)
+    if len(mmap) < sha_ofs:
+        return True
+    nsha = _helpers.firstword(mmap[sha_ofs - 4 : sha_ofs])
+    return len(mmap) <= sha_ofs + 24 * nsha
+
 
 class MissingIdxs(Exception):
     __slots__ = ('paths',)
@@ -56,7 +66,7 @@ class PackMidx:
             idxdir = os.path.dirname(filename)
             missing = []
             for name in self.idxnames:
-                if not os.path.exists(os.path.join(idxdir, name)):
+                if not name or not os.path.exists(os.path.join(idxdir, name)):
                     missing.append(name)
             if missing:
                 raise MissingIdxs(paths=missing)
@@ -157,14 +167,20 @@ def open_midx(path, *, ignore_missing=True):
     # FIXME: eventually note_error when not raising?
     assert path.endswith(b'.midx') # FIXME: wanted/needed?
     mmap = mmap_read(open(path, mode='rb')) # pylint: disable=consider-using-with
+    if not mmap: # i.e. not an mmap
+        log(f'Warning: skipping: empty midx {path_msg(path)}\n')
+        return None
     with ExitStack() as contexts:
         contexts.enter_context(mmap)
-        if _midx_header(mmap) != MIDX_HEADER:
+        if _midx_header(mmap) != MIDX_HEADER or len(mmap) < 8:
             pathm = path_msg(path)
             log(f'Warning: skipping: invalid MIDX header in {pathm}\n')
             return None
         ver = _midx_version(mmap)
         if ver == MIDX_VERSION:
+            if _midx_truncated(mmap):
+                log(f'Warning: skipping: truncated midx {path_msg(path)}\n')
+                return None
             if not ignore_missing:
                 contexts.pop_all()
                 return PackMidx(path, mmap, _internal=True)
-- 
2.43.0


From 1ddb8c654af844bac2b0f980a793884f96e02a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 52/89] fix: include every index when midx needs more than one
 merge

When there were more than --max-files indexes, a group of just one was
left out of the result, and with --output each group replaced the
previous one's midx.
---
 lib/bup/cmd/midx.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/bup/cmd/midx.py b/lib/bup/cmd/midx.py
index 51c6f05..0618b14 100644
--- a/lib/bup/cmd/midx.py
+++ b/lib/bup/cmd/midx.py
@@ -245,7 +245,7 @@ def do_midx_dir(path, outfilename, prout, auto=False, force=False,
         debug1('midx: nothing to do.\n')
     while len(all) > desired_hwm:
         all.sort()
-        part1 = [name for sz,name in all[:len(all)-desired_lwm+1]]
+        part1 = all[:len(all)-desired_lwm+1]
         part2 = all[len(all)-desired_lwm+1:]
         all = list(do_midx_group(path, outfilename, part1,
                                  auto=auto, force=force, max_files=max_files)) \
@@ -267,7 +267,12 @@ def do_midx_group(outdir, outfilename, infiles, auto=False, force=False,
     for n,sublist in enumerate(groups):
         if len(groups) != 1:
             gprefix = 'Group %d: ' % (n+1)
-        rv = _do_midx(outdir, outfilename, sublist, gprefix,
+            if len(sublist) == 1: # nothing to merge, but don't lose it
+                yield sublist[0]
+                continue
+        # Only the last merge produces outfilename
+        rv = _do_midx(outdir, outfilename if len(groups) == 1 else None,
+                      [name for sz,name in sublist], gprefix,
                       auto=auto, force=force)
         if rv:
             yield rv
-- 
2.43.0


From 6f947d7818746cdd8706efa85566e51ec6058c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 53/89] fix: list directories that have an ACL but no default
 ACL

"meta -tvv" and xstat crashed with an IndexError.
---
 lib/bup/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index a2ee808..51feca4 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -1181,7 +1181,7 @@ def detailed_bytes(meta, fields = None):
     if 'posix1e-acl' in fields and meta.posix1e_acl:
         acl = meta.posix1e_acl[0]
         result.append(b'posix1e-acl: ' + acl + b'\n')
-        if stat.S_ISDIR(meta.mode):
+        if len(meta.posix1e_acl) > 2:
             def_acl = meta.posix1e_acl[2]
             result.append(b'posix1e-acl-default: ' + def_acl + b'\n')
     return b'\n'.join(result)
-- 
2.43.0


From e6e32ffb078be84a33f7b2eb7ea904b62597e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 54/89] fix: list symlinks saved by meta --no-symlinks

"meta -tvv" crashed since they have no target.
---
 lib/bup/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index 51feca4..1ed7509 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -1148,7 +1148,8 @@ def detailed_bytes(meta, fields = None):
     if 'mode' in fields:
         result.append(b'mode: %o (%s)'
                       % (meta.mode, xstat.mode_str(meta.mode).encode('ascii')))
-    if 'link-target' in fields and stat.S_ISLNK(meta.mode):
+    if 'link-target' in fields and stat.S_ISLNK(meta.mode) \
+       and meta.symlink_target is not None:
         result.append(b'link-target: ' + meta.symlink_target)
     if 'rdev' in fields:
         if meta.rdev:
-- 
2.43.0


From 0ac72c0e54b9fbdb35f55d7f95b4787b463bf459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 55/89] fix: ignore v1 ACLs with a comma as intended

Rather than failing to read the entry at all.
---
 lib/bup/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index 1ed7509..4c3d226 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -593,6 +593,8 @@ class Metadata:
             acl_rep = acl_rep[:2]
         if version == 1:
             acl_rep = self._correct_posix1e_v1_delimiters(acl_rep, self.path)
+            if acl_rep is None:
+                return
         self.posix1e_acl = tuple(acl_rep)
 
     def _apply_posix1e_acl_rec(self, path, restore_numeric_ids=False):
-- 
2.43.0


From c8565ad45ba7717c768e68227d29cadb07ebafa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 56/89] fix: don't treat a zero length vfs read as the end of
 the file

---
 lib/bup/vfs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index 303fd9e..b7c58e3 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -280,10 +280,10 @@ class _FileReader:
         except:
             self.reader = None
             raise  # our offsets will be all screwed up otherwise
-        if not buf:
-            self._size = self.ofs
-        else:
+        if buf:
             self.ofs += len(buf)
+        elif count != 0:
+            self._size = self.ofs
         return buf
 
     def close(self):
-- 
2.43.0


From 10464efe55a167f45a2ecc3a05662e757ad47811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:34 +0000
Subject: [PATCH 57/89] fix: allow fsck without par2

---
 lib/bup/cmd/fsck.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 496edb3..48702db 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -48,6 +48,7 @@ def par2_setup():
                  check=False)
     except (FileNotFoundError, NotADirectoryError):
         log('fsck: warning: par2 not found; disabling recovery features.\n')
+        return
     if sp.returncode == 0:
         par2_ok = 1
         return
-- 
2.43.0


From e28d2be3be378815dcda8ef38d29a70ad9ad60e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:34 +0000
Subject: [PATCH 58/89] fix: report files too short to have a checksum in fsck

---
 lib/bup/cmd/fsck.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 48702db..89ef14e 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -203,6 +203,8 @@ def trailing_and_actual_checksum(path):
     except FileNotFoundError:
         return None, None
     with f:
+        if os.fstat(f.fileno()).st_size < 20:
+            return b'', Sha1(f.read()).digest()
         f.seek(-20, SEEK_END)
         trailing = f.read(20)
         assert len(trailing) == 20
-- 
2.43.0


From d727d211e8c574a13befb954d4762eae386d595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:34 +0000
Subject: [PATCH 59/89] fix: check that fsck's repairs have worked

---
 lib/bup/cmd/fsck.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 89ef14e..25eac8a 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -263,6 +263,10 @@ def attempt_repair(stem, base, par2_exists, out, *, verbose=False):
             if verbose: out.write(base + b' failed\n')
             return EXIT_FAILURE
         log(f'{path_msg(base)} index-pack succeeded\n')
+    # The recovery data might describe a pack that was already damaged.
+    if not git_verify(stem, quick=opt.quick):
+        if verbose: out.write(base + b' failed\n')
+        return EXIT_FAILURE
     if verbose: out.write(base + b' repaired\n')
     # As with grep, test, and --par2-ok, we use 1 for communicating
     # information that's an expected possibility i.e. --repair needed
-- 
2.43.0


From cbb9ab874be6c9916e7c26ac56db0ff71c09f168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:34 +0000
Subject: [PATCH 60/89] fix: don't lose failures when merging fsck's exit codes

---
 lib/bup/cmd/fsck.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 25eac8a..37872ed 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -333,6 +333,12 @@ def merge_exits(pending, new):
     return pending
 
 
+def worker_exit(status):
+    """Return the exit code for a worker's wait status, treating death
+    by signal as a failure."""
+    return os.WEXITSTATUS(status) if os.WIFEXITED(status) else EXIT_FAILURE
+
+
 def main(argv):
     global opt, par2_ok
 
@@ -375,8 +381,7 @@ def main(argv):
         base = os.path.basename(stem)
         par2_status = par2_recovery_file_status(stem)
         if par2_status is False:
-            if code == EXIT_SUCCESS:
-                code = EXIT_FAILURE
+            code = merge_exits(code, EXIT_FAILURE)
             continue
         sys.stdout.flush()  # Not sure we still need this, but it'll flush out too
         debug('fsck: checking %r (%s)\n'
@@ -391,10 +396,9 @@ def main(argv):
         else:
             while len(outstanding) >= opt.jobs:
                 (pid,nc) = os.wait()
-                nc >>= 8
                 if pid in outstanding:
                     del outstanding[pid]
-                    code = merge_exits(code, nc)
+                    code = merge_exits(code, worker_exit(nc))
                     count += 1
             pid = os.fork()
             if pid:  # parent
@@ -410,10 +414,9 @@ def main(argv):
 
     while len(outstanding):
         (pid,nc) = os.wait()
-        nc >>= 8
         if pid in outstanding:
             del outstanding[pid]
-            code = code or nc
+            code = merge_exits(code, worker_exit(nc))
             count += 1
         if not opt.verbose:
             progress('fsck (%d/%d)\r' % (count, len(pack_stems)))
@@ -423,7 +426,6 @@ def main(argv):
     # double-check (e.g. for (unlikely) problems with generate tmpdir renames)
     for stem in pack_stems:
         if par2_recovery_file_status(stem) is False:
-            if code == EXIT_SUCCESS:
-                code = EXIT_FAILURE
+            code = merge_exits(code, EXIT_FAILURE)
 
     sys.exit(code)
-- 
2.43.0


From 9132c83799d5cec263372264a8959a35edcfc0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 61/89] fix: rebuild missing indexes in fsck --repair

---
 lib/bup/cmd/fsck.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index 37872ed..da8eb8a 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -248,14 +248,11 @@ def attempt_repair(stem, base, par2_exists, out, *, verbose=False):
         if verbose: out.write(base + b' failed\n')
         return EXIT_FAILURE
     log(f'{path_msg(base)} par2 repair: succeeded, checking .idx\n')
-    try:
-        exp, act = trailing_and_actual_checksum(stem + b'.idx')
-        idx_ok = exp == act
-        if not idx_ok:
-            os.unlink(stem + b'.idx')
-    except FileNotFoundError:
-        idx_ok = False
+    exp, act = trailing_and_actual_checksum(stem + b'.idx')
+    idx_ok = act is not None and exp == act
     if not idx_ok:
+        if act is not None:
+            os.unlink(stem + b'.idx')
         cmd = (b'git', b'index-pack', stem + b'.pack')
         idx_rc = run(cmd).returncode
         if idx_rc:
-- 
2.43.0


From 3d6c35b17ba15d647bcba7df90bdf719e7a4890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:16 +0000
Subject: [PATCH 62/89] fix: forget what a path was when it is indexed with
 another type

---
 lib/bup/cmd/index.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index c09b60f..ef3a0ad 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -87,6 +87,17 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
          index.Writer(fsindex.stat, msw, tmax) as wi, \
          index.Reader(fsindex.stat) as ri:
 
+        # If top has become, or is no longer, a directory, then what
+        # was there before is gone.
+        if top != b'/':
+            former = top[:-1] if top.endswith(b'/') else top + b'/'
+            for e in ri.iter(name=former):
+                if e.exists() and (e.name == former or former.endswith(b'/')):
+                    e.set_deleted()
+                    e.repack()
+                    if e.nlink > 1 and not stat.S_ISDIR(e.mode):
+                        hlinks.del_path(e.name)
+
         rig = IterHelper(ri.iter(name=top))
 
         if fake_valid:
-- 
2.43.0


From 5793d3bd95c1fbdc68ad3d3c20b7033b5c1654fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:41 +0000
Subject: [PATCH 63/89] fix: don't mark directories as saved without their
 larger files

save --smaller left out files that were already saved, and yet recorded
the new tree, which lacks them, as the directory's in the index.  Later
saves then omitted them too.  It also left out unmodified directories
when the directory's own size reached the limit, which is meant for
files.
---
 lib/bup/cmd/save.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/bup/cmd/save.py b/lib/bup/cmd/save.py
index 83f9157..df52423 100644
--- a/lib/bup/cmd/save.py
+++ b/lib/bup/cmd/save.py
@@ -316,11 +316,11 @@ def save_tree(opt, reader, hlink_db, msr, repo, split_cfg):
 
         if not exists:
             continue
-        if opt.smaller and ent.size >= opt.smaller:
-            if exists and not already_saved_oid:
-                if opt.verbose:
-                    log('skipping large file "%s"\n' % path_msg(ent.name))
-                lastskip_name = ent.name
+        if opt.smaller and ent.size >= opt.smaller \
+           and not stat.S_ISDIR(ent.mode):
+            if opt.verbose and not already_saved_oid:
+                log('skipping large file "%s"\n' % path_msg(ent.name))
+            lastskip_name = ent.name
             continue
 
         assert(dir.startswith(b'/'))
-- 
2.43.0


From 083da35ba6a3667b5034e0cd49160a27506e2e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:30 +0000
Subject: [PATCH 64/89] fix: don't list the directories above an indexed path
 as deleted

When a directory that had been deleted came back, and only something in
it was indexed, merging preferred the directory's old, deleted entry.
---
 lib/bup/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/bup/index.py b/lib/bup/index.py
index 6744617..0f8335c 100644
--- a/lib/bup/index.py
+++ b/lib/bup/index.py
@@ -352,6 +352,9 @@ class Entry:
         vc = self.is_valid() - other.is_valid()
         if vc != 0:
             return vc
+        dc = self.is_deleted() - other.is_deleted()
+        if dc != 0:
+            return dc
         fc = self.is_fake() - other.is_fake()
         if fc != 0:
             return fc
-- 
2.43.0


From 702527c104e420b13de1b220c16e39a6fb971ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 65/89] fix: don't trust recent timestamps of paths already in
 the index

index dates back timestamps too recent to tell whether a path will have
changed since (see NOTES in bup-index(1)), but only did so for paths
that were new to the index, and so could miss a change that happened
within the clock tick of another.
---
 lib/bup/cmd/index.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bup/cmd/index.py b/lib/bup/cmd/index.py
index ef3a0ad..e2474ea 100644
--- a/lib/bup/cmd/index.py
+++ b/lib/bup/cmd/index.py
@@ -164,6 +164,7 @@ def update_index(top, excluded_paths, exclude_rxs, fsindex,
                     meta.ctime = meta.mtime = meta.atime = 0
                     meta.freeze()
                     meta_ofs = msw.store(meta)
+                    rig.cur.tmax = tmax
                     rig.cur.update_from_stat(pst, meta_ofs)
                     rig.cur.invalidate()
                     need_repack = True
-- 
2.43.0


From 7a3775b10c997ed93cbb64ef4be9cef354cac6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:43 +0000
Subject: [PATCH 66/89] fix: ignore empty lines in --exclude-from files

They are documented to be ignored, but excluded the current directory.
---
 lib/bup/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/helpers.py b/lib/bup/helpers.py
index e9f75c4..1851e56 100644
--- a/lib/bup/helpers.py
+++ b/lib/bup/helpers.py
@@ -979,9 +979,9 @@ def parse_excludes(options, fatal: Callable[[str], NoReturn]):
             with f:
                 for exclude_path in f.readlines():
                     # FIXME: perhaps this should be rstrip('\n')
-                    exclude_path = resolve_parent(exclude_path.strip())
+                    exclude_path = exclude_path.strip()
                     if exclude_path:
-                        excluded_paths.append(exclude_path)
+                        excluded_paths.append(resolve_parent(exclude_path))
     return sorted(frozenset(excluded_paths))
 
 
-- 
2.43.0


From 784346493fbbf31461fc4272a83ccea2d3abee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:43 +0000
Subject: [PATCH 67/89] fix: traverse all of the mount points given to index -x

index --one-file-system visits a mount point that is listed explicitly
along with a directory above it, but visited none of the directories
within.
---
 lib/bup/drecurse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bup/drecurse.py b/lib/bup/drecurse.py
index bb17723..ec238c8 100644
--- a/lib/bup/drecurse.py
+++ b/lib/bup/drecurse.py
@@ -59,9 +59,11 @@ def _recursive_dirlist(prepend, dir_fd, xdev,
             yield path, pst
             continue
         with finalized(sub_fd, os.close):
+            # An exception's file system is traversed like the top's
+            sub_xdev = pst.st_dev if xdev is not None else None
             yield from _recursive_dirlist(prepend=path,
                                           dir_fd=sub_fd,
-                                          xdev=xdev,
+                                          xdev=sub_xdev,
                                           bup_dir=bup_dir,
                                           excluded_paths=excluded_paths,
                                           exclude_rxs=exclude_rxs,
-- 
2.43.0


From 86a5c2b406d99a10948220c5f887a9a855f72d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 68/89] fix: treat .. itself as risky when extracting metadata
 archives

meta --finish-extract applied the metadata of an entry named ".." to the
parent of the current directory.
---
 lib/bup/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index 4c3d226..c11150c 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -161,7 +161,7 @@ def _risky_path(p):
         return True
     if p.startswith(b'../'):
         return True
-    if p.endswith(b'/..'):
+    if p == b'..' or p.endswith(b'/..'):
         return True
     return False
 
-- 
2.43.0


From 138c0631a5ef33648c3b7b00d71bfb400f8984c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 69/89] fix: don't apply metadata to the targets of symlinks

An archive or a save that lists one path twice, or an ACL for a symlink,
could change what a symlink pointed to, anywhere.
---
 lib/bup/metadata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index c11150c..9cb75d6 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -601,6 +601,9 @@ class Metadata:
         if not self.posix1e_acl:
             return
 
+        if stat.S_ISLNK(self.mode):
+            # These don't exist, and apply_acl() would follow the symlink
+            return
         if not apply_acl:
             note_error("error: can't restore POSIX1e ACL (no support): %s\n"
                        % path_msg(path))
@@ -969,6 +972,10 @@ class Metadata:
             note_error(f'error: unrecognized mode {self.mode:o},'
                        f' not applying metadata: {path_msg(path)}\n')
             return
+        if os.path.islink(path) and not stat.S_ISLNK(self.mode):
+            note_error('error: not a symlink in the archive,'
+                       f' not applying metadata: {path_msg(path)}\n')
+            return
         num_ids = restore_numeric_ids
         for apply_metadata in (self._apply_common_rec,
                                self._apply_posix1e_acl_rec,
-- 
2.43.0


From 8b29e9eb80c920ecf4ba093cf442d5a8c65ad81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 70/89] fix: don't extract metadata archives through symlinks

A symlink in an archive, followed by entries "below" it, could create,
replace or change files anywhere.  Also check for directories with the
paths that are actually extracted in --finish-extract.
---
 lib/bup/metadata.py | 55 +++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index 9cb75d6..1a8e971 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -175,6 +175,27 @@ def _clean_up_extract_path(p):
     return result
 
 
+def _through_symlink(p):
+    """Return true if any of the directories above p is a symlink."""
+    parent = os.path.dirname(p)
+    while parent:
+        if os.path.islink(parent):
+            return True
+        parent = os.path.dirname(parent)
+    return False
+
+
+def _safe_extract_path(p):
+    """Return the path that p should be extracted to, or None, after
+    reporting the problem, if it could be outside of the current
+    directory."""
+    result = _clean_up_extract_path(p)
+    if not result or _through_symlink(result):
+        note_error(f'error: skipping risky path: {path_msg(p)}\n')
+        return None
+    return result
+
+
 # These tags are currently conceptually private to Metadata, and they
 # must be unique, and must *never* be changed.
 _rec_tag_end = 0
@@ -1245,10 +1266,8 @@ def start_extract(file, create_symlinks=True):
             break
         if verbose:
             print(path_msg(meta.path), file=sys.stderr)
-        xpath = _clean_up_extract_path(meta.path)
-        if not xpath:
-            note_error(f'error: skipping risky path: {path_msg(meta.path)}\n')
-        else:
+        xpath = _safe_extract_path(meta.path)
+        if xpath:
             meta = deepcopy(meta).thaw()
             meta.path = xpath
             _set_up_path(meta.freeze(), create_symlinks=create_symlinks)
@@ -1259,11 +1278,9 @@ def finish_extract(file, restore_numeric_ids=False):
     for meta in _ArchiveIterator(file):
         if not meta: # Hit end record.
             break
-        xpath = _clean_up_extract_path(meta.path)
-        if not xpath:
-            note_error(f'error: skipping risky path: {path_msg(meta.path)}\n')
-        else:
-            if os.path.isdir(meta.path):
+        xpath = _safe_extract_path(meta.path)
+        if xpath:
+            if os.path.isdir(xpath):
                 all_dirs.append(meta)
             else:
                 if verbose:
@@ -1272,8 +1289,9 @@ def finish_extract(file, restore_numeric_ids=False):
                                    restore_numeric_ids=restore_numeric_ids)
     all_dirs.sort(key = lambda x : len(x.path), reverse=True)
     for dir in all_dirs:
-        # Don't need to check xpath -- won't be in all_dirs if not OK.
-        xpath = _clean_up_extract_path(dir.path)
+        xpath = _safe_extract_path(dir.path)
+        if not xpath:
+            continue
         if verbose:
             print(path_msg(dir.path), file=sys.stderr)
         dir.apply_to_path(path=xpath, restore_numeric_ids=restore_numeric_ids)
@@ -1286,10 +1304,8 @@ def extract(file, restore_numeric_ids=False, create_symlinks=True):
     for meta in _ArchiveIterator(file):
         if not meta: # Hit end record.
             break
-        xpath = _clean_up_extract_path(meta.path)
-        if not xpath:
-            note_error(f'error: skipping risky path: {path_msg(meta.path)}\n')
-        else:
+        xpath = _safe_extract_path(meta.path)
+        if xpath:
             meta = deepcopy(meta).thaw()
             meta.path = xpath
             meta.freeze()
@@ -1304,10 +1320,11 @@ def extract(file, restore_numeric_ids=False, create_symlinks=True):
                 meta.apply_to_path(restore_numeric_ids=restore_numeric_ids)
     all_dirs.sort(key = lambda x : len(x.path), reverse=True)
     for dir in all_dirs:
-        # Don't need to check xpath -- won't be in all_dirs if not OK.
-        xpath = _clean_up_extract_path(dir.path)
+        # Later entries may have replaced directories with symlinks.
+        xpath = _safe_extract_path(dir.path)
+        if not xpath:
+            continue
         if verbose:
             print('=', path_msg(xpath), file=sys.stderr)
-        # Shouldn't have to check for risky paths here (omitted above).
-        dir.apply_to_path(path=dir.path,
+        dir.apply_to_path(path=xpath,
                           restore_numeric_ids=restore_numeric_ids)
-- 
2.43.0


From 3ca74a9f13692a0a67a3f8f7170352de78428628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 71/89] fix: don't let restore leave its destination

A save with names that contain slashes or dots, or with a directory
whose metadata describes a symlink, could write anywhere.
---
 lib/bup/cmd/restore.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/bup/cmd/restore.py b/lib/bup/cmd/restore.py
index addc417..e43f041 100644
--- a/lib/bup/cmd/restore.py
+++ b/lib/bup/cmd/restore.py
@@ -156,6 +156,9 @@ def restore(repo, parent_path, name, item, top, sparse, numeric_ids, owner_map,
     mode = vfs.item_mode(item)
     treeish = S_ISDIR(mode)
     fullname = parent_path + b'/' + name
+    if name in (b'', b'.', b'..') or b'/' in name:
+        add_error(f'error: skipping risky path: {path_msg(fullname)}')
+        return
     # Match behavior of index --exclude-rx with respect to paths.
     if should_rx_exclude_path(fullname + (b'/' if treeish else b''),
                               exclude_rxs):
@@ -187,6 +190,10 @@ def restore(repo, parent_path, name, item, top, sparse, numeric_ids, owner_map,
             assert(dot == b'.')
             item = vfs.augment_item_meta(repo, item, include_size=True)
             meta = item.meta
+            if not meta.isdir():
+                add_error('error: directory has the metadata of something else:'
+                          f' {path_msg(fullname)}')
+                return
             meta.create_path(name)
             os.chdir(name)
             try:
-- 
2.43.0


From fdc95364d03e5b3faf7d314c098a07a1784896e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:15 +0000
Subject: [PATCH 72/89] fix: report xattrs that can't be set for want of access

An xattr of a file whose restored mode denies writing made a restore
by an ordinary user stop with a traceback.
---
 lib/bup/metadata.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/bup/metadata.py b/lib/bup/metadata.py
index 1a8e971..fa9a50f 100644
--- a/lib/bup/metadata.py
+++ b/lib/bup/metadata.py
@@ -773,16 +773,17 @@ class Metadata:
             erm = e.strerror or e.errno
             raise ApplyError(f'xattr.set ({erm}): {path_msg(path)}') from e
         for k, v in self.linux_xattr:
-            if k not in existing_xattrs \
-                    or v != xattr.get(path, k, nofollow=True):
-                try:
+            try:
+                if k not in existing_xattrs \
+                        or v != xattr.get(path, k, nofollow=True):
                     xattr.set(path, k, v, nofollow=True)
-                except IOError as e:
-                    if e.errno not in (errno.EPERM, errno.EOPNOTSUPP):
-                        raise
-                    erm = e.strerror or e.errno
-                    raise ApplyError(f'xattr.set ({erm}): {path_msg(path)}') \
-                        from e
+            except IOError as e:
+                # EACCES, e.g. when the (already restored) mode denies writing
+                if e.errno not in (errno.EPERM, errno.EACCES, errno.EOPNOTSUPP):
+                    raise
+                erm = e.strerror or e.errno
+                raise ApplyError(f'xattr.set ({erm}): {path_msg(path)}') \
+                    from e
             existing_xattrs -= frozenset([k])
         for k in existing_xattrs:
             try:
-- 
2.43.0


From e15fea0972c74e74aebdc61e4586f713d11f622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:47 +0000
Subject: [PATCH 73/89] fix: validate-refs: check the refs of a repository
 without packs

A repository that had lost all of its packs was reported as valid.
---
 lib/bup/cmd/validate_refs.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/lib/bup/cmd/validate_refs.py b/lib/bup/cmd/validate_refs.py
index f81b23f..6b7feb6 100644
--- a/lib/bup/cmd/validate_refs.py
+++ b/lib/bup/cmd/validate_refs.py
@@ -129,19 +129,20 @@ def main(argv):
             existing_count = count_objects(git.repo(b'objects/pack'), verbosity)
             if verbosity:
                 log(f'found {existing_count} objects\n')
-            if existing_count:
-                with ExitStack() as maybe_close_idxl:
-                    idxl = None
-                    if opt.links:
-                        idxl = git.PackIdxList(git.repo(b'objects/pack'))
-                        maybe_close_idxl.enter_context(idxl)
-                    live_objs, live_trees_ = \
-                        find_live_objects(existing_count, cat_pipe,
-                                          refs=ref_info,
-                                          idx_list=idxl,
-                                          for_item=for_item,
-                                          verbosity=verbosity)
-                    live_objs.close()
+            with ExitStack() as maybe_close_idxl:
+                idxl = None
+                if opt.links:
+                    idxl = git.PackIdxList(git.repo(b'objects/pack'))
+                    maybe_close_idxl.enter_context(idxl)
+                # Refs must be checked even when nothing (or nothing
+                # packed) is left; find_live_objects() wants n > 0
+                live_objs, live_trees_ = \
+                    find_live_objects(max(existing_count, 1), cat_pipe,
+                                      refs=ref_info,
+                                      idx_list=idxl,
+                                      for_item=for_item,
+                                      verbosity=verbosity)
+                live_objs.close()
         if bad_bupm:
             return EXIT_FAILURE
         if (ref_missing + found_missing + abridged_bupm):
-- 
2.43.0


From dd03652d0770b5e1f5b8c985498374367c029547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:59 +0000
Subject: [PATCH 74/89] fix: validate-refs: put each missing ref on a line of
 its own

---
 lib/bup/cmd/validate_refs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/validate_refs.py b/lib/bup/cmd/validate_refs.py
index 6b7feb6..88ffc72 100644
--- a/lib/bup/cmd/validate_refs.py
+++ b/lib/bup/cmd/validate_refs.py
@@ -45,7 +45,7 @@ def resolve_refs(repo, refs, fatal):
         # FIXME: IOError ENOTDIR ELOOP
         _, leaf = res[-1]
         if not leaf:
-            log(f'missing {path_msg(ref)}')
+            log(f'missing {path_msg(ref)}\n')
             ref_missing += 1
             continue
         kind = type(leaf)
-- 
2.43.0


From 1fcede50524d0f476abf8bc5e5b966d2b29081da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:33 +0000
Subject: [PATCH 75/89] fix: don't leave the liveness bloom filter in the
 repository

Closing it moved it (back) to tmp-gc-*.bloom in objects/pack, so every
gc, validate-refs, etc. left a file of a megabyte or more there.
---
 lib/bup/bloom.py | 12 +++++++++---
 lib/bup/gc.py    |  7 ++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/bup/bloom.py b/lib/bup/bloom.py
index 0c497db..1a11c2f 100644
--- a/lib/bup/bloom.py
+++ b/lib/bup/bloom.py
@@ -266,21 +266,25 @@ def _open_write_map(file, expected):
 
 class BloomWriter(_BloomBase):
 
-    __slots__ = ('_delaywrite', '_file', '_tmp_file_path')
+    __slots__ = ('_delaywrite', '_ephemeral', '_file', '_tmp_file_path')
 
     # pylint: disable-next=super-init-not-called
-    def __init__(self, path, mode, expected, *, delaywrite=None, k=None):
+    def __init__(self, path, mode, expected, *, delaywrite=None, k=None,
+                 ephemeral=False):
         """Open (mode='r+b') an existing, or create (mode='w+b') a new
         bloom filter for updates.  The filter will not exist at path
-        until the instance is successfully closed.
+        until the instance is successfully closed, and never if it's
+        ephemeral (requires 'w+b').
 
         """
+        assert not ephemeral or mode == 'w+b', mode
         assert path.endswith(b'.bloom'), path
         assert expected > 0, expected
         # mmap not None indicates "open"
         self.map = None
         self._file = None
         self._tmp_file_path = None
+        self._ephemeral = ephemeral
         self.path = path
 
         # delaywrite arg is currently only used by tests
@@ -341,6 +345,8 @@ class BloomWriter(_BloomBase):
                 if not self._file and self.map:
                     return
                 debug2(f'bloom: closing with {self.entries} entries\n')
+                if self._ephemeral:
+                    return
                 self.map[12:16] = struct.pack('!I', self.entries)
                 if self._delaywrite:
                     self._file.seek(0)
diff --git a/lib/bup/gc.py b/lib/bup/gc.py
index 581c7b2..36ac2e1 100644
--- a/lib/bup/gc.py
+++ b/lib/bup/gc.py
@@ -90,11 +90,12 @@ def find_live_objects(existing_count, cat_pipe, refs=None, *,
     ffd, bloom_filename = tempfile.mkstemp(b'.bloom', b'tmp-gc-', pack_dir)
     os.close(ffd)
     # FIXME: allow selection of k?
-    # FIXME: support ephemeral bloom filters (i.e. *never* written to disk)
-    live_blobs = BloomWriter(bloom_filename, 'w+b', expected=existing_count, k=None)
+    # FIXME: support ephemeral bloom filters that are *never* written to disk
+    live_blobs = BloomWriter(bloom_filename, 'w+b', expected=existing_count,
+                             k=None, ephemeral=True)
     with ExitStack() as maybe_close_bloom:
         maybe_close_bloom.enter_context(live_blobs)
-        # live_blobs will hold on to the fd until close or exit
+        # live_blobs has a temporary file of its own, removed on close
         os.unlink(bloom_filename)
         live_trees = set()
         def stop_at(x): return unhexlify(x) in live_trees
-- 
2.43.0


From aa4a89bb3eded460fb19339c1bb4ded320482543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 76/89] fix: ls: exit when the arguments are unusable

ls asked Options not to exit after a usage message, and so an unknown
option ended in an UnboundLocalError.
---
 lib/bup/ls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/ls.py b/lib/bup/ls.py
index 5cc5067..629c183 100644
--- a/lib/bup/ls.py
+++ b/lib/bup/ls.py
@@ -96,7 +96,7 @@ def opts_from_cmdline(args, onabort=None, pwd=b'/'):
     "paths", and "show_hidden".
 
     """
-    o = Options(optspec, onabort=onabort)
+    o = Options(optspec, **({'onabort': onabort} if onabort else {}))
     opt, flags, extra = o.parse_bytes(args)
     opt.paths = [argv_bytes(x) for x in extra] or (pwd,)
     opt.long_listing = opt.l
-- 
2.43.0


From 01feceb6aea52b39ea1039fb31549df3a1e2acbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 77/89] fix: shquote: quote backslashes

quotify() left them alone, so quotesplit() removed them again (and
whatever followed could be mistaken for quoted).
---
 lib/bup/shquote.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/bup/shquote.py b/lib/bup/shquote.py
index 4706510..c83ff2a 100644
--- a/lib/bup/shquote.py
+++ b/lib/bup/shquote.py
@@ -104,16 +104,19 @@ def quotify(qtype, word, terminate):
 
     Args:
       qtype: one of '', shquote.qq, or shquote.q
-      word: the bytes to quote.  May contain arbitrary characters.
+      word: the bytes to quote.  May contain arbitrary characters, except
+        that q can't quote a word with backslashes before a single quote or
+        at the end.
       terminate: include the trailing quote character, if any.
     Returns:
       The quoted bytes.
     """
     if qtype == qq:
-        return qq + word.replace(qq, b'\\"') + (terminate and qq or b'')
+        return qq + re.sub(br'(["\\])', br'\\\1', word) \
+            + (terminate and qq or b'')
     if qtype == q:
         return q + word.replace(q, b"\\'") + (terminate and q or b'')
-    return re.sub(br'([\"\' \t\n\r])', br'\\\1', word)
+    return re.sub(br'([\"\'\\ \t\n\r])', br'\\\1', word)
 
 
 def quotify_list(words):
@@ -131,9 +134,9 @@ def quotify_list(words):
     wordout = []
     for word in words:
         qtype = q
-        if word and not re.search(br'[\s\"\']', word):
+        if word and not re.search(br'[\s\"\'\\]', word):
             qtype = b''
-        elif q in word and qq not in word:
+        elif b'\\' in word or (q in word and qq not in word):
             qtype = qq
         wordout.append(quotify(qtype, word, True))
     return b' '.join(wordout)
-- 
2.43.0


From fab69a2797faab3fa0ff57f0129656c235baadb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 78/89] fix: render_url: don't drop port 0

---
 lib/bup/url.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/url.py b/lib/bup/url.py
index 4b55c25..ff6cbec 100644
--- a/lib/bup/url.py
+++ b/lib/bup/url.py
@@ -72,7 +72,7 @@ def render_url(self, dot_encode=False):
                 parts.append(f'[{self.host.compressed}]'.encode('ascii'))
             else:
                 parts.append(_pct_encode(self.host, _enc_host_char_rx))
-        if self.port:
+        if self.port is not None:
             parts.append(b':%d' % self.port)
         parts.append(path)
         return b''.join(parts)
-- 
2.43.0


From cf496e49a01fe5367fb0fb0a28797f6513db4e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 79/89] fix: render_url: encode colons in users

The rest was parsed as a password (and dropped).
---
 lib/bup/url.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/url.py b/lib/bup/url.py
index ff6cbec..7c5c11c 100644
--- a/lib/bup/url.py
+++ b/lib/bup/url.py
@@ -43,8 +43,8 @@ class URL:
 
 # Needs percent encoding (inverted _host_reg_name_rx below without %)
 _enc_host_char_rx = re.compile(br"[^-._~0-9a-zA-Z!$&'()*+,;=']")
-# Same as above plus colon
-_enc_userinfo_char_rx = re.compile(br"[^-._~0-9a-zA-Z!$&'()*+,;=':]")
+# Same as above; a colon would start the password
+_enc_userinfo_char_rx = _enc_host_char_rx
 
 def _pct_encode(x, rx):
     def enc(m):
-- 
2.43.0


From b66d50dcd6788fbd5e047d631b90d4e1ddcddd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:40 +0000
Subject: [PATCH 80/89] fix: accept newlines in the paths of URLs

---
 lib/bup/url.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/bup/url.py b/lib/bup/url.py
index 7c5c11c..15e0ee8 100644
--- a/lib/bup/url.py
+++ b/lib/bup/url.py
@@ -88,8 +88,9 @@ def render_url(self, dot_encode=False):
         return with_auth(self.path)
     return b'%s:%s' % (self.scheme, self.path)
 
-_scheme_and_rest_rx = re.compile(br'([a-zA-Z][-+.a-zA-Z0-9]*):(//)?(.*)')
-_userinfo_host_port_rx = re.compile(br"(?:([-._~0-9a-zA-Z!$&'()*+,;='%:]*)@)?(.*?)(?::([0-9]*))?")
+_scheme_and_rest_rx = re.compile(br'([a-zA-Z][-+.a-zA-Z0-9]*):(//)?(.*)', re.DOTALL)
+_userinfo_host_port_rx = re.compile(br"(?:([-._~0-9a-zA-Z!$&'()*+,;='%:]*)@)?(.*?)(?::([0-9]*))?",
+                                    re.DOTALL)
 #                                      ^------------- user ----------------^      ^--- port --^
 _host_reg_name_rx = re.compile(br"[-._~0-9a-zA-Z!$&'()*+,;='%]*")
 _port_int_rx = re.compile(br'[0-9]+')
-- 
2.43.0


From b8f15b3d6ee7702bad721c301589349e1bf4a04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:42 +0000
Subject: [PATCH 81/89] fix: options: cache values by the name asked for

After asking for the negation of an option, its plain name gave the
negated value too.
---
 lib/bup/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bup/options.py b/lib/bup/options.py
index 7b3d096..0e99623 100644
--- a/lib/bup/options.py
+++ b/lib/bup/options.py
@@ -106,8 +106,8 @@ class OptDict:
         try:
             return self._cache[k]
         except KeyError:
-            k, invert = self._unalias(k)
-            v = _invert(self._opts[k], invert)
+            opt, invert = self._unalias(k)
+            v = _invert(self._opts[opt], invert)
             self._cache[k] = v
             return v
 
-- 
2.43.0


From 9fbb5092b64c05f9be3722c59722eef3b6f49369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 82/89] fix: reject config integers that git considers out of
 range

---
 lib/bup/git.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index c5a9211..7b55e2b 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -79,12 +79,18 @@ def parse_git_int(v):
         raise ConfigError(f'--type int value {path_msg(v)} too small')
     if mag is None:
         raise ConfigError(f'unrecognized --type int value {path_msg(v)}')
-    unit = v[suffix_i:]
-    if not unit: return mag
-    if unit in (b'k', b'K'): return mag * 1024
-    if unit in (b'm', b'M'): return mag * 1024 * 1024
-    if unit in (b'g', b'G'): return mag * 1024 * 1024 * 1024
-    raise ConfigError(f'unrecognized --type int value {path_msg(v)}')
+    mult = {b'': 1,
+            b'k': 1024,
+            b'm': 1024 * 1024,
+            b'g': 1024 * 1024 * 1024}.get(v[suffix_i:].lower())
+    if mult is None:
+        raise ConfigError(f'unrecognized --type int value {path_msg(v)}')
+    # git's limits are symmetric, i.e. INTMAX_MIN is out of range
+    if mag * mult > 2 ** 63 - 1:
+        raise ConfigError(f'--type int value {path_msg(v)} too large')
+    if mag * mult < -(2 ** 63 - 1):
+        raise ConfigError(f'--type int value {path_msg(v)} too small')
+    return mag * mult
 
 
 def git_config_get(path, option, *, opttype=None):
-- 
2.43.0


From e3f5f0214b1551baaa9851d8e590e9b6202eb6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:01 +0000
Subject: [PATCH 83/89] fix: bloom: accept the documented --outfile

---
 lib/bup/cmd/bloom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/cmd/bloom.py b/lib/bup/cmd/bloom.py
index 667b1e5..fc07a44 100644
--- a/lib/bup/cmd/bloom.py
+++ b/lib/bup/cmd/bloom.py
@@ -22,7 +22,7 @@ bup bloom [options...]
 --
 ruin       ruin the specified bloom file (clearing the bitfield)
 f,force    ignore existing bloom file and regenerate it from scratch
-o,output=  output bloom filename (default: auto)
+o,output,outfile=  output bloom filename (default: auto)
 d,dir=     input directory to look for idx files (default: auto)
 k,hashes=  number of hash functions to use (4 or 5) (default: auto)
 c,check=   check given *.idx or *.midx file against the bloom filter
-- 
2.43.0


From 93a6072b6bb80c30a5e176e3efcef841591adffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:58 +0000
Subject: [PATCH 84/89] fix: restore: replace existing paths with hard links
 too

---
 lib/bup/cmd/restore.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/bup/cmd/restore.py b/lib/bup/cmd/restore.py
index e43f041..68b2bc7 100644
--- a/lib/bup/cmd/restore.py
+++ b/lib/bup/cmd/restore.py
@@ -120,8 +120,16 @@ def hardlink_if_possible(fullname, item, top, hardlinks):
         # Check every path in the set that we've written so far for a match.
         for prev_path, prev_item in target_versions:
             if hardlink_compatible(prev_path, prev_item, item, top):
+                prev_candidate, candidate = top + prev_path, top + fullname
+                if os.path.lexists(candidate):
+                    if os.path.samestat(os.lstat(prev_candidate),
+                                        os.lstat(candidate)):
+                        return True
+                    # As when anything else is in the way, replace it
+                    item.meta.create_path(candidate)
+                    os.unlink(candidate)
                 try:
-                    os.link(top + prev_path, top + fullname)
+                    os.link(prev_candidate, candidate)
                     return True
                 except OSError as e:
                     if e.errno != errno.EXDEV:
-- 
2.43.0


From ac81136e237bb3269dd99b6a4b0fa3d2f127f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 85/89] fix: restore: don't link to paths replaced since they
 were restored

---
 lib/bup/cmd/restore.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/lib/bup/cmd/restore.py b/lib/bup/cmd/restore.py
index 68b2bc7..9afbe92 100644
--- a/lib/bup/cmd/restore.py
+++ b/lib/bup/cmd/restore.py
@@ -93,6 +93,12 @@ def hardlink_compatible(prev_path, prev_item, new_item, top):
         return False
     return True
 
+class HardLinks:
+    """The paths restored so far that others might be linked to."""
+    def __init__(self):
+        self.versions = {} # hardlink_target -> [(path, item), ...]
+        self.current = {} # path -> item, for what's there now
+
 def hardlink_if_possible(fullname, item, top, hardlinks):
     """Find a suitable hardlink target, link to it, and return true,
     otherwise return false."""
@@ -103,8 +109,8 @@ def hardlink_if_possible(fullname, item, top, hardlinks):
     # FIXME: we can probably replace the target_vfs_path with the
     # relevant vfs item
 
-    # hardlinks tracks a list of (restore_path, vfs_path, meta)
-    # triples for each path we've written for a given hardlink_target.
+    # hardlinks.versions tracks a list of (restore_path, item)
+    # pairs for each path we've written for a given hardlink_target.
     # This allows us to handle the case where we restore a set of
     # hardlinks out of order (with respect to the original save
     # call(s)) -- i.e. when we don't restore the hardlink_target path
@@ -115,10 +121,13 @@ def hardlink_if_possible(fullname, item, top, hardlinks):
     target = item.meta.hardlink_target
     assert(target)
     assert(fullname.startswith(b'/'))
-    target_versions = hardlinks.get(target)
+    target_versions = hardlinks.versions.get(target)
     if target_versions:
         # Check every path in the set that we've written so far for a match.
         for prev_path, prev_item in target_versions:
+            # Something else with the same name may have replaced it.
+            if hardlinks.current.get(prev_path) is not prev_item:
+                continue
             if hardlink_compatible(prev_path, prev_item, item, top):
                 prev_candidate, candidate = top + prev_path, top + fullname
                 if os.path.lexists(candidate):
@@ -126,6 +135,7 @@ def hardlink_if_possible(fullname, item, top, hardlinks):
                                         os.lstat(candidate)):
                         return True
                     # As when anything else is in the way, replace it
+                    hardlinks.current.pop(fullname, None)
                     item.meta.create_path(candidate)
                     os.unlink(candidate)
                 try:
@@ -136,7 +146,7 @@ def hardlink_if_possible(fullname, item, top, hardlinks):
                         raise
     else:
         target_versions = []
-        hardlinks[target] = target_versions
+        hardlinks.versions[target] = target_versions
     target_versions.append((fullname, item))
     return False
 
@@ -202,6 +212,7 @@ def restore(repo, parent_path, name, item, top, sparse, numeric_ids, owner_map,
                 add_error('error: directory has the metadata of something else:'
                           f' {path_msg(fullname)}')
                 return
+            hardlinks.current.pop(fullname, None)
             meta.create_path(name)
             os.chdir(name)
             try:
@@ -221,6 +232,9 @@ def restore(repo, parent_path, name, item, top, sparse, numeric_ids, owner_map,
                 created_hardlink = hardlink_if_possible(fullname, item, top,
                                                         hardlinks)
             if not created_hardlink:
+                hardlinks.current.pop(fullname, None)
+                if meta.hardlink_target:
+                    hardlinks.current[fullname] = item
                 meta.create_path(name)
                 if stat.S_ISREG(meta.mode):
                     if sparse:
@@ -259,7 +273,7 @@ def main(argv):
 
     with repo_for_location(loc) as src:
         top = fsencode(os.getcwd())
-        hardlinks = {}
+        hardlinks = HardLinks()
         for path in [argv_bytes(x) for x in extra]:
             if not valid_restore_path(path):
                 add_error("path %r doesn't include a branch and revision" % path)
-- 
2.43.0


From cf6e0567e6be6f63bc148479a619df222bf8312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:05 +0000
Subject: [PATCH 86/89] fix: ignore any .git in the current directory when
 reading the config

---
 lib/bup/git.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/bup/git.py b/lib/bup/git.py
index 7b55e2b..8d89de7 100644
--- a/lib/bup/git.py
+++ b/lib/bup/git.py
@@ -106,7 +106,9 @@ def git_config_get(path, option, *, opttype=None):
     # for bool, we're stricter than git.
     cmd = [b'git', b'config', b'--file', path, b'--null']
     cmd.extend([b'--get', option])
-    cp = subprocess.run(cmd, stdout=PIPE)
+    # Don't let git look for, and choke on, a .git in the current directory.
+    env = _gitenv(os.path.dirname(os.path.abspath(os.fsencode(path))))
+    cp = subprocess.run(cmd, stdout=PIPE, env=env)
     # with --null, git writes out a trailing \0 after the value
     r = cp.stdout[:-1]
     rc = cp.returncode
-- 
2.43.0


From 76ee2ef5599c763a4930c0519cfa8dfc236173ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:04 +0000
Subject: [PATCH 87/89] fix: fsck: ignore any .git in the current directory

---
 lib/bup/cmd/fsck.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/bup/cmd/fsck.py b/lib/bup/cmd/fsck.py
index da8eb8a..8d407b7 100644
--- a/lib/bup/cmd/fsck.py
+++ b/lib/bup/cmd/fsck.py
@@ -7,7 +7,7 @@ from tempfile import mkdtemp
 import errno, glob, os, re, sys
 
 from bup import options, git
-from bup.compat import argv_bytes
+from bup.compat import argv_bytes, environ, fsencode
 from bup.helpers \
     import (EXIT_FAILURE, EXIT_FALSE, EXIT_TRUE, EXIT_SUCCESS,
             Sha1, chunkyreader, istty2, log, progress, temp_dir)
@@ -215,9 +215,16 @@ def trailing_and_actual_checksum(path):
         return trailing, actual.digest()
 
 
+def git_env():
+    # Don't let a .git in the current directory affect git, since it may
+    # be broken, or have some other object format.
+    return {**environ, b'GIT_DIR': fsencode(os.devnull)}
+
+
 def git_verify(stem, *, quick=False):
     if not quick:
-        rc = run([b'git', b'verify-pack', b'--', stem]).returncode
+        rc = run([b'git', b'verify-pack', b'--', stem],
+                 env=git_env()).returncode
         if rc == 0:
             return True
         log(f'error: git verify-pack failed ({rc}) {path_msg(stem)}\n')
@@ -254,7 +261,7 @@ def attempt_repair(stem, base, par2_exists, out, *, verbose=False):
         if act is not None:
             os.unlink(stem + b'.idx')
         cmd = (b'git', b'index-pack', stem + b'.pack')
-        idx_rc = run(cmd).returncode
+        idx_rc = run(cmd, env=git_env()).returncode
         if idx_rc:
             log(f'{path_msg(base)} index-pack failed\n')
             if verbose: out.write(base + b' failed\n')
-- 
2.43.0


From 4ccbfef9c0d55fbb51e33f9d47b2a206ab77cfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 88/89] fix: read split trees with newlines in their names

---
 lib/bup/vfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bup/vfs.py b/lib/bup/vfs.py
index b7c58e3..c2b86bc 100644
--- a/lib/bup/vfs.py
+++ b/lib/bup/vfs.py
@@ -787,7 +787,7 @@ def _split_subtree_items(repo, level, oid, entries, names, want_meta, root=True)
                                             tree_entries(_get_tree_object(repo, sub_oid)),
                                             names, want_meta, False)
 
-_tree_depth_rx = re.compile(br'.*\.([0-9]+)\.bupd')
+_tree_depth_rx = re.compile(br'.*\.([0-9]+)\.bupd', re.DOTALL)
 
 def _parse_tree_depth(mangled_name):
     """Return the tree DEPTH from a mangled_name like foo..DEPTH.bupd,
-- 
2.43.0


From 9f06926c9bc69a8db248a5b84ab89ef0ff33bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:57 +0000
Subject: [PATCH 89/89] fix: don't abbreviate split tree names to prefixes of
 preceding names

---
 lib/bup/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/bup/tree.py b/lib/bup/tree.py
index e00ba2d..437d182 100644
--- a/lib/bup/tree.py
+++ b/lib/bup/tree.py
@@ -67,6 +67,8 @@ def _abbreviate_tree_names(names):
                 # (fun for the GC to detect the cycles :-) )
                 level[c] = {None: level}
             level = level[c]
+        # mark the end of a name, since it might be a prefix of others
+        level['end'] = True
     outnames = []
     # and abbreviate all the names
     for name in names:
@@ -77,8 +79,8 @@ def _abbreviate_tree_names(names):
         while True:
             # backtrack a level
             level = level[None]
-            # if it has more than a single char & None,
-            # we cannot abbreviate any further
+            # if it has more than a single char & None, or is another
+            # name, we cannot abbreviate any further
             if len(level) > 2:
                 break
             candidate = out[:-1]
-- 
2.43.0

