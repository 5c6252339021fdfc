From ba5cd3e8557b48821801d3d821ea3798a5bd34cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 01/28] fix: replace symlinks when restoring regular files

The type of an existing path was determined with stat(), so a symlink in the
place of a recorded regular file was followed: restoring wrote content, owner
and permissions through it into an unrelated file, and a dangling symlink made
the restore fail.
---
 src/restore.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/restore.c b/src/restore.c
index 44f138d..0b11c94 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -131,8 +131,9 @@ static void checkAndHandleChanges(AllocatorPair *allocator_pair,
 {
   if(could_exist && sPathExists(node->path))
   {
-    const struct stat stats =
-      state->type == PST_symlink ? sLStat(node->path) : sStat(node->path);
+    const struct stat stats = state->type == PST_directory
+      ? sStat(node->path)
+      : sLStat(node->path);
 
     handleFiletypeChanges(node, state, stats);
     if(backupHintNoPol(node->hint) == BH_none)
-- 
2.43.0


From 6727dc95202648c80d4502390f7eace71b5df227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 02/28] fix: restore permission bits cleared by changing the
 owner

chown() clears the set-user-ID and set-group-ID bits of files. If only the
owner of a file differed, the restored file lost these bits.
---
 src/restore.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index 0b11c94..f4b280d 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -394,8 +394,9 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
         sChown(node->path, state->uid, state->gid);
       }
     }
-    if(node->hint & BH_permissions_changed)
+    if(node->hint & (BH_owner_changed | BH_permissions_changed))
     {
+      /* Changing the owner may clear some permission bits. */
       if(state->type == PST_regular_file)
       {
         sChmod(node->path, state->metadata.file_info.permission_bits);
-- 
2.43.0


From 5343e7163caa858fa0f7f60d5ecd494063e73fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 03/28] fix: restore permission bits cleared by writing content

Truncating or writing a file clears its set-user-ID and set-group-ID bits
unless the process is privileged. If the content of such a file differed, the
restored file lost these bits.
---
 src/restore.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/restore.c b/src/restore.c
index f4b280d..bde83c9 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -412,6 +412,9 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
       if(state->type == PST_regular_file)
       {
         restoreFile(node->path, &state->metadata.file_info, repo_path);
+
+        /* Writing to a file may clear some permission bits. */
+        sChmod(node->path, state->metadata.file_info.permission_bits);
         sUtime(node->path, state->metadata.file_info.modification_time);
       }
       else if(state->type == PST_symlink)
-- 
2.43.0


From 0f702a74195fc155a7d580d036441a8c707de812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 04/28] fix: let unprivileged users restore read-only files and
 directories

The permission bits of a directory were set before populating it, and those
of a changed file before writing its content. Without write permission for
the owner, restoring failed for unprivileged users and left an incomplete
tree behind.
---
 src/restore.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/restore.c b/src/restore.c
index bde83c9..1bbfefa 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -311,7 +311,9 @@ void restoreFile(StringView path, const RegularFileInfo *info,
   }
 }
 
-/** Restores a path depending on the given state.
+/** Restores a path depending on the given state. Directories will be left
+  accessible for their owner and need their final permission bits to be set
+  after populating them.
 
   @param node The node representing the path to restore.
   @param state The state to which the path should be restored.
@@ -336,7 +338,8 @@ static void restorePath(const PathNode *node, const PathState *state,
   {
     sMkdir(node->path);
     sChown(node->path, state->uid, state->gid);
-    sChmod(node->path, state->metadata.directory_info.permission_bits);
+    sChmod(node->path,
+           state->metadata.directory_info.permission_bits | S_IRWXU);
     sUtime(node->path, state->metadata.directory_info.modification_time);
   }
 }
@@ -353,6 +356,7 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
                                      StringView repo_path)
 {
   bool affects_parent_timestamp = false;
+  bool permissions_incomplete = false;
 
   const PathState *state = searchExistingPathState(node, id);
   if(state == NULL)
@@ -364,6 +368,7 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
   {
     restorePath(node, state, repo_path);
     affects_parent_timestamp = true;
+    permissions_incomplete = true;
   }
   else if(backupHintNoPol(node->hint) >= BH_regular_to_symlink &&
           backupHintNoPol(node->hint) <= BH_other_to_directory)
@@ -380,6 +385,7 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
 
     restorePath(node, state, repo_path);
     affects_parent_timestamp = true;
+    permissions_incomplete = true;
   }
   else if(node->policy != BPOL_none)
   {
@@ -403,7 +409,9 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
       }
       else if(state->type == PST_directory)
       {
-        sChmod(node->path, state->metadata.directory_info.permission_bits);
+        sChmod(node->path,
+               state->metadata.directory_info.permission_bits | S_IRWXU);
+        permissions_incomplete = true;
       }
     }
 
@@ -411,6 +419,9 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
     {
       if(state->type == PST_regular_file)
       {
+        /* Read-only files can't be opened by unprivileged users. */
+        sChmod(node->path,
+               state->metadata.file_info.permission_bits | S_IWUSR);
         restoreFile(node->path, &state->metadata.file_info, repo_path);
 
         /* Writing to a file may clear some permission bits. */
@@ -453,6 +464,14 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
     {
       sUtime(node->path, state->metadata.directory_info.modification_time);
     }
+
+    /* Read-only directories can't be populated by unprivileged users. */
+    const mode_t permission_bits =
+      state->metadata.directory_info.permission_bits;
+    if(permissions_incomplete && (permission_bits & S_IRWXU) != S_IRWXU)
+    {
+      sChmod(node->path, permission_bits);
+    }
   }
 
   return affects_parent_timestamp;
-- 
2.43.0


From 16be839f53e0c08cfc6a0576d5d87da38ffb626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 05/28] fix: reject metadata containing paths without history

Such metadata was accepted and lead to null pointer dereferences in every
command.
---
 src/metadata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metadata.c b/src/metadata.c
index 6cde6cf..d98e966 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -443,6 +443,11 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
     node->policy = read8(content, reader_position, metadata_path);
     node->history = readFullPathHistory(
       region_wrapper, content, reader_position, metadata_path, metadata);
+    if(node->history == NULL)
+    {
+      die("contains path without history \"" PRI_STR "\": \"" PRI_STR "\"",
+          STR_FMT(node->path), STR_FMT(metadata_path));
+    }
 
     node->subnodes =
       readPathSubnodes(region_wrapper, content, reader_position,
-- 
2.43.0


From 5a633cce9f410ab8f66355d37be5ad1517df0eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 06/28] fix: don't drop the last history point of a path

A policy change of a path whose history consists only of a removal, which
damaged metadata can contain, lead to a null pointer dereference.
---
 src/backup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index 898f544..3b5e7e9 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -262,7 +262,8 @@ static void handlePolicyChanges(Metadata *metadata, PathNode *node,
   backupHintSet(node->hint, BH_policy_changed);
   if(node->policy == BPOL_track)
   {
-    if(node->history->state.type == PST_non_existing)
+    if(node->history->state.type == PST_non_existing &&
+       node->history->next != NULL)
     {
       node->history->backup->ref_count--;
       node->history = node->history->next;
-- 
2.43.0


From 3f75dc6aba6b0aba7d0793e7605dc31a67274757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 07/28] fix: detect files changing between hashing and copying

If the content of a file was replaced after calculating its hash, without
changing its size and within the same second, the new content got stored
under the hash of the old content, which corrupted the repository.
---
 src/backup.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index 3b5e7e9..dbf2b41 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -3,6 +3,7 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include "BLAKE2/blake2.h"
 #include "CRegion/alloc-growable.h"
 
 #include "backup-helpers.h"
@@ -621,12 +622,16 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
 
   io_buffer = CR_EnsureCapacity(io_buffer, blocksize);
 
+  blake2b_state hash_state;
+  blake2b_init(&hash_state, FILE_HASH_SIZE);
+
   while(bytes_left > 0)
   {
     const size_t bytes_to_read =
       bytes_left > blocksize ? blocksize : bytes_left;
 
     sFread(io_buffer, bytes_to_read, reader);
+    blake2b_update(&hash_state, io_buffer, bytes_to_read);
     repoWriterWrite(io_buffer, bytes_to_read, writer);
 
     bytes_left -= bytes_to_read;
@@ -635,7 +640,12 @@ static void copyFileIntoRepo(PathNode *node, StringView repo_path,
   const bool stream_not_at_end = sFbytesLeft(reader);
   sFclose(reader);
 
-  if(stream_not_at_end)
+  /* The content may have changed since its hash was calculated. */
+  uint8_t copied_hash[FILE_HASH_SIZE];
+  blake2b_final(&hash_state, copied_hash, FILE_HASH_SIZE);
+
+  if(stream_not_at_end ||
+     memcmp(copied_hash, file_info->hash, FILE_HASH_SIZE) != 0)
   {
     die("file has changed during backup: \"" PRI_STR "\"",
         STR_FMT(node->path));
-- 
2.43.0


From f3d8ff029c8541e5f39297803874af8a0e4f895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 08/28] fix: prevent two processes from locking the same
 repository

A process removed its lockfile after unlocking it. Another process, which had
opened the file before, could lock the removed file, while a third process
created and locked a new one. Removing the file could also remove a lockfile
already belonging to another process.
---
 src/repository.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/repository.c b/src/repository.c
index 693f94b..3d6c492 100644
--- a/src/repository.c
+++ b/src/repository.c
@@ -7,6 +7,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "CRegion/alloc-growable.h"
@@ -403,9 +404,11 @@ static void cleanupLockfile(void *lockfile_info_ptr)
   const int old_errno = errno;
   if(info->is_locked)
   {
+    /* Must be removed while being locked. Otherwise it could already belong
+      to another process. */
+    (void)remove(info->file_path);
     (void)lockf(info->file_descriptor, F_ULOCK, 0);
     (void)close(info->file_descriptor);
-    (void)remove(info->file_path);
   }
   else
   {
@@ -414,6 +417,17 @@ static void cleanupLockfile(void *lockfile_info_ptr)
   errno = old_errno;
 }
 
+/** Returns true if the given lockfile is not the one in the repository
+  anymore, because its previous owner has removed it. */
+static bool lockfileWasRemoved(const LockfileInfo *info)
+{
+  struct stat locked_file, current_file;
+  return fstat(info->file_descriptor, &locked_file) != 0 ||
+    stat(info->file_path, &current_file) != 0 ||
+    locked_file.st_dev != current_file.st_dev ||
+    locked_file.st_ino != current_file.st_ino;
+}
+
 /** Lock the specified repository until the given region gets released. If
   the repository is already locked by another process, the program will be
   terminated with an error message. Calling this function twice from the
@@ -448,6 +462,10 @@ void repoLock(CR_Region *r, StringView repo_path,
 
   if(lockf(lockfile_info->file_descriptor, F_TLOCK, 0) == 0)
   {
+    if(lockfileWasRemoved(lockfile_info))
+    {
+      die("repository is already being used by another process");
+    }
     lockfile_info->is_locked = true;
   }
   else if(errno == EACCES || errno == EAGAIN)
-- 
2.43.0


From 718fc1b485b766c924105ff3044e2313bfd83ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 09/28] fix: ignore combined attribute changes of implicit
 parents

A timestamp change of a directory without a policy was not considered to be
a change unless its owner or permissions differed, too. Restores never touch
these attributes, so they kept asking for the same change forever.
---
 src/informations.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/informations.c b/src/informations.c
index eeb7101..872551d 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -196,7 +196,7 @@ static void addNode(const PathNode *node, ChangeSummary *changes,
   else if(node->hint > BH_unchanged &&
           (node->policy != BPOL_none ||
            (node->hint < BH_owner_changed ||
-            node->hint > BH_timestamp_changed)))
+            node->hint >= BH_content_changed)))
   {
     changes->other_changes_exist = true;
     changes->affects_parent_timestamp |=
@@ -547,7 +547,7 @@ static ChangeSummary recursePrintOverTree(const Metadata *metadata,
             !(node->policy == BPOL_none &&
               (node->hint == BH_added ||
                (node->hint >= BH_owner_changed &&
-                node->hint <= BH_timestamp_changed))))
+                node->hint < BH_content_changed))))
     {
       const bool print_subnodes =
         backupHintNoPol(node->hint) > BH_other_to_directory;
-- 
2.43.0


From c509aa3732081aedd9f659ae9b91090061884ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 10/28] fix: never reuse stored files with a wrong size or type

A stored file with trailing garbage was considered to be equal to the file
being backed up, although the integrity check reports it as corrupted.
---
 src/backup.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index dbf2b41..9fc9b58 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -711,6 +711,23 @@ static bool equalsToStoredFile(const PathNode *node, StringView repo_path,
   return files_equal;
 }
 
+/** Checks if the stored file described by the given info is a regular file
+  with the expected size. */
+static bool storedFileHasExpectedSize(const RegularFileInfo *file_info,
+                                      StringView repo_path)
+{
+  static char *subpath_buffer = NULL;
+  repoBuildRegularFilePath(&subpath_buffer, file_info);
+
+  CR_Region *r = CR_RegionNew();
+  const struct stat stats = sLStat(
+    strAppendPath(repo_path, str(subpath_buffer), allocatorWrapRegion(r)));
+  CR_RegionRelease(r);
+
+  return S_ISREG(stats.st_mode) &&
+    (uint64_t)stats.st_size == file_info->size;
+}
+
 /** Checks if the regular file represented by the given node already exists
   in the repository.
 
@@ -733,7 +750,8 @@ static bool searchFileDuplicates(PathNode *node, StringView repo_path,
 
   while(repoRegularFileExists(repo_path, file_info))
   {
-    if(equalsToStoredFile(node, repo_path, stats))
+    if(storedFileHasExpectedSize(file_info, repo_path) &&
+       equalsToStoredFile(node, repo_path, stats))
     {
       return true;
     }
-- 
2.43.0


From 47ad5692ed3671b06c485a82962744f104171172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 11/28] fix: don't lose existing paths below a directory with a
 changed policy

If a tracked directory was a file in the latest backup and its policy has
changed, all its former subpaths were wiped from the repository. This was
done even for those which exist again: they got lost although they are
selected by the config, and the reference counts of their backups were
decremented twice, which could remove backups still in use.
---
 src/backup.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/backup.c b/src/backup.c
index 9fc9b58..97edf98 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -521,6 +521,17 @@ static SearchResultType initiateMetadataRecursively(
 
     metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
   }
+  else if(backupHintNoPol(node->hint) == BH_not_part_of_repository)
+  {
+    /* The node was wiped because its parent has changed its policy while
+       not being a directory. But now it exists again. */
+    node->hint = BH_added;
+    node->policy = result.policy;
+    node->history =
+      buildPathHistoryPoint(allocator_pair->a, metadata, result);
+
+    metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
+  }
   else
   {
     handleFoundNode(allocator_pair, metadata, node, result);
-- 
2.43.0


From e9ca9bf4405060187f70babce45ec1a99d0eb225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 12/28] fix: record directories in place of files without a
 policy

If a recorded file was replaced by a directory, and that directory was only
an implicit parent in the new config, it was still recorded as a file. This
made everything inside of it impossible to restore.
---
 src/backup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index 97edf98..a92c51c 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -378,7 +378,7 @@ static void handleNodeChanges(AllocatorPair *allocator_pair,
   {
     applyNodeChanges(allocator_pair, node, state, result.stats);
   }
-  else if(result.policy != BPOL_none)
+  else if(result.policy != BPOL_none || result.type == SRT_directory)
   {
     setPathHistoryState(allocator_pair->a, state, result);
   }
-- 
2.43.0


From 88eaa5462e48590edd894f382d0724017aee70ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 13/28] fix: don't write through leftover links in the
 repository

If the temporary file left behind in a repository is a link to some other
file, a backup would overwrite that file, and store the link instead of the
content.
---
 src/nb.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nb.c b/src/nb.c
index 41240d4..0ffd6db 100644
--- a/src/nb.c
+++ b/src/nb.c
@@ -301,6 +301,12 @@ static void backup(CR_Region *r, StringView repo_arg)
     }
 
     ensureUserConsent("proceed?", allocatorWrapOneSingleGrowableBuffer(r));
+
+    /* Never write trough a leftover link to some other file. */
+    if(sPathExists(tmp_file_path))
+    {
+      sRemove(tmp_file_path);
+    }
     finishBackup(metadata, repo_arg, tmp_file_path);
     metadataWrite(metadata, repo_arg, tmp_file_path, metadata_path);
 
-- 
2.43.0


From 9845cc439db5391dfdfe6f14d6786d4751ab2cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:28 +0000
Subject: [PATCH 14/28] fix: replace dangling symlinks when restoring
 directories

A restore failed if a symlink which leads to nothing was in the place of a
directory. Such symlinks can even be left by an interrupted restore.
---
 src/restore.c       |  2 +-
 src/safe-wrappers.c | 22 ++++++++++++++++++++++
 src/safe-wrappers.h |  1 +
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index 1bbfefa..88f85c3 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -132,7 +132,7 @@ static void checkAndHandleChanges(AllocatorPair *allocator_pair,
   if(could_exist && sPathExists(node->path))
   {
     const struct stat stats = state->type == PST_directory
-      ? sStat(node->path)
+      ? sStatUnlessDangling(node->path)
       : sLStat(node->path);
 
     handleFiletypeChanges(node, state, stats);
diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index f03495a..cbe5f4e 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -408,6 +408,28 @@ struct stat sLStat(StringView path)
   return safeStat(path, lstat);
 }
 
+/** Like sStat(), but returns informations about the symlink itself if it
+  leads to nothing. */
+struct stat sStatUnlessDangling(StringView path)
+{
+  const struct stat link_stats = sLStat(path);
+  if(!S_ISLNK(link_stats.st_mode))
+  {
+    return link_stats;
+  }
+
+  const int old_errno = errno;
+  struct stat stats;
+  if(stat(nullTerminate(path), &stats) == -1 &&
+     (errno == ENOENT || errno == ENOTDIR || errno == ELOOP))
+  {
+    errno = old_errno;
+    return link_stats;
+  }
+
+  return sStat(path);
+}
+
 /** Safe wrapper around mkdir(). */
 void sMkdir(StringView path)
 {
diff --git a/src/safe-wrappers.h b/src/safe-wrappers.h
index a46e615..0b23db0 100644
--- a/src/safe-wrappers.h
+++ b/src/safe-wrappers.h
@@ -42,6 +42,7 @@ extern void sDirClose(DirIterator *dir);
 extern bool sPathExists(StringView path);
 extern struct stat sStat(StringView path);
 extern struct stat sLStat(StringView path);
+extern struct stat sStatUnlessDangling(StringView path);
 extern void sMkdir(StringView path);
 extern void sSymlink(StringView target, StringView path);
 extern StringView sSymlinkReadTarget(StringView path, Allocator *a);
-- 
2.43.0


From cc0810c738f55eccf35fa8d6189919cee7a7ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:34 +0000
Subject: [PATCH 15/28] fix: find the entries of the root directory under their
 real names

A configuration with a policy or a regex for the first path element lists
"/". The resulting entries started with two slashes, got recorded under
wrong paths and matched neither rules nor ignore expressions.
---
 src/safe-wrappers.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index cbe5f4e..43c2961 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -321,7 +321,9 @@ StringView sDirGetNext(DirIterator *dir)
     return str("");
   }
 
-  return strAppendPath(dir->directory_path, str(dir_entry->d_name),
+  /* Prevent the entries of "/" from starting with two slashes. */
+  return strAppendPath(strStripTrailingSlashes(dir->directory_path),
+                       str(dir_entry->d_name),
                        dir->returned_result_buffer);
 }
 
-- 
2.43.0


From f2d399642869e794a21c92d8836a398b137f1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:55 +0000
Subject: [PATCH 16/28] fix: reject config paths with absurdly many elements

Parsing such a path recursed once per element and overflowed the stack.
---
 src/search-tree.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/search-tree.c b/src/search-tree.c
index 44c1a1c..f5999d0 100644
--- a/src/search-tree.c
+++ b/src/search-tree.c
@@ -102,6 +102,24 @@ static SearchNode *newNode(CR_Region *r, Allocator *region_wrapper,
   return node;
 }
 
+/** Returns true if the given path has more elements than any existing path
+  can have. This limits the depth of recursions over search nodes. */
+static bool pathIsTooDeep(StringView path)
+{
+  const size_t max_elements = 4096;
+  size_t elements = 0;
+  for(size_t index = 0; index < path.length; index++)
+  {
+    if(path.content[index] == '/' &&
+       (index == 0 || path.content[index - 1] != '/'))
+    {
+      elements++;
+    }
+  }
+
+  return elements > max_elements;
+}
+
 /** Forces all subnodes of the given node to inherit its policy. Subnodes
   that have defined their own policy will be ignored.
 
@@ -240,6 +258,11 @@ SearchNode *searchTreeParse(CR_Region *r, StringView config)
     }
     else if(line.content[0] == '/')
     {
+      if(pathIsTooDeep(line))
+      {
+        die("config: line %zu: path contains too many elements", line_nr);
+      }
+
       if(strPathContainsDotElements(line))
       {
         die("config: line %zu: path contains \".\" or \"..\": \"" PRI_STR
-- 
2.43.0


From e33f82075eeb6c92146fe6c96f96abb6ffd80c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:57 +0000
Subject: [PATCH 17/28] fix: list changes below directories whose policy has
 changed

If nothing but the policy of a directory changed, everything below it was
hidden, including changed, removed and lost files.
---
 src/informations.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/informations.c b/src/informations.c
index 872551d..ed2af89 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -549,8 +549,9 @@ static ChangeSummary recursePrintOverTree(const Metadata *metadata,
                (node->hint >= BH_owner_changed &&
                 node->hint < BH_content_changed))))
     {
+      const BackupHint hint = backupHintNoPol(node->hint);
       const bool print_subnodes =
-        backupHintNoPol(node->hint) > BH_other_to_directory;
+        hint <= BH_unchanged || hint > BH_other_to_directory;
 
       summary =
         recursePrintOverTree(metadata, node->subnodes,
-- 
2.43.0


From 369587896976ffcf807c54f0b3f64055b1637bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 18/28] fix: list files with a new timestamp below removed
 subnodes

The timestamp of a regular file was considered a consequence of removed
paths below the directory it has replaced.
---
 src/informations.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/informations.c b/src/informations.c
index ed2af89..e0b3aa7 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -557,6 +557,12 @@ static ChangeSummary recursePrintOverTree(const Metadata *metadata,
         recursePrintOverTree(metadata, node->subnodes,
                              expressions_to_pass_down, print_subnodes);
 
+      /* Former subnodes do not explain the timestamp of a file. */
+      if(getExistingState(node)->type != PST_directory)
+      {
+        summary.affects_parent_timestamp = false;
+      }
+
       if(!(node->hint == BH_timestamp_changed &&
            summary.affects_parent_timestamp))
       {
-- 
2.43.0


From 9280d4ab2bebfcb1a3daa46df0aa12dee8d3bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 19/28] fix: don't skip restores if stdout is not writable

Such a restore ended successfully without restoring anything.
---
 src/nb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nb.c b/src/nb.c
index 0ffd6db..9cd5392 100644
--- a/src/nb.c
+++ b/src/nb.c
@@ -356,8 +356,9 @@ static void restore(CR_Region *r, StringView repo_arg, const size_t id,
   initiateRestore(metadata, id, full_path);
 
   const ChangeSummary changes = printMetadataChanges(metadata, NULL);
-  if(containsChanges(&changes) && printf("\n") == 1)
+  if(containsChanges(&changes))
   {
+    printf("\n");
     ensureUserConsent("restore?", allocatorWrapOneSingleGrowableBuffer(r));
     finishRestore(metadata, id, repo_arg);
   }
-- 
2.43.0


From 462db11156093484d3649e36d581ed023ee36ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:04 +0000
Subject: [PATCH 20/28] fix: reject metadata with absurdly deep paths

Reading such metadata recursed once per element and overflowed the stack.
---
 src/metadata.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/metadata.c b/src/metadata.c
index d98e966..f4c8412 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -385,18 +385,28 @@ static void writePathHistoryList(const PathHistory *starting_point,
   passed instead.
   @param metadata The metadata of the repository to which the nodes belong
   to. Its path table will be used for mapping full paths to nodes.
+  @param depth The amount of elements in the path of the parent node.
 
   @return Will be NULL if the given parent node has no subnodes.
 */
 static PathNode *
 readPathSubnodes(Allocator *region_wrapper, const FileContent content,
                  size_t *reader_position, StringView metadata_path,
-                 PathNode *parent_node, Metadata *metadata)
+                 PathNode *parent_node, Metadata *metadata,
+                 const size_t depth)
 {
   const size_t node_count =
     readSize(content, reader_position, metadata_path);
   PathNode *node_tree = NULL;
 
+  /* No existing path can have that many elements. */
+  const size_t max_depth = 4096;
+  if(node_count > 0 && depth >= max_depth)
+  {
+    die("contains too deeply nested paths: \"" PRI_STR "\"",
+        STR_FMT(metadata_path));
+  }
+
   for(size_t counter = 0; counter < node_count; counter++)
   {
     PathNode *node = allocate(region_wrapper, sizeof *node);
@@ -451,7 +461,7 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
 
     node->subnodes =
       readPathSubnodes(region_wrapper, content, reader_position,
-                       metadata_path, node, metadata);
+                       metadata_path, node, metadata, depth + 1);
   }
 
   return node_tree;
@@ -557,7 +567,7 @@ Metadata *metadataLoad(CR_Region *r, StringView path)
   metadata->path_table = strTableNew(metadata->r);
 
   metadata->paths = readPathSubnodes(
-    region_wrapper, content, &reader_position, path, NULL, metadata);
+    region_wrapper, content, &reader_position, path, NULL, metadata, 0);
   CR_RegionRelease(disposable_r);
 
   if(reader_position != content.size)
-- 
2.43.0


From 1921028c3a702c9b352975e949d4f59e5f468259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:09 +0000
Subject: [PATCH 21/28] fix: reject metadata which contains a path twice

A symlink followed by a directory of the same name made restores write
through the symlink to unrelated places.
---
 src/metadata.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metadata.c b/src/metadata.c
index f4c8412..27d69d5 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -446,6 +446,12 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
       parent_node == NULL ? str("") : parent_node->path;
     strSet(&node->path, strAppendPath(parent_path, name, region_wrapper));
 
+    if(strTableGet(metadata->path_table, node->path) != NULL)
+    {
+      die("contains path twice \"" PRI_STR "\": \"" PRI_STR "\"",
+          STR_FMT(node->path), STR_FMT(metadata_path));
+    }
+
     /* Read other node variables. */
     strTableMap(metadata->path_table, node->path, node);
 
-- 
2.43.0


From d0127c8a98e595ecb98857ba516b90a2a5c8d014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:21 +0000
Subject: [PATCH 22/28] fix: keep symlinked directories which lead to
 referenced files

Repositories can be spread over several places by replacing directories
with symlinks. The garbage collector removed such symlinks, so that all
data behind them was lost.
---
 src/garbage-collector.c | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/garbage-collector.c b/src/garbage-collector.c
index 7b2d8b9..de4e6a8 100644
--- a/src/garbage-collector.c
+++ b/src/garbage-collector.c
@@ -9,12 +9,33 @@
 #include "safe-wrappers.h"
 #include "string-table.h"
 
+/** Adds the directories which contain the given unique filepath to the
+  given table. */
+static void populateParentTable(Allocator *a, StringTable *parent_table,
+                                StringView path)
+{
+  for(size_t index = 0; index < path.length; index++)
+  {
+    if(path.content[index] == '/')
+    {
+      StringView parent = strUnterminated(path.content, index);
+      if(strTableGet(parent_table, parent) == NULL)
+      {
+        strTableMap(parent_table, strCopy(parent, a), (void *)0x1);
+      }
+    }
+  }
+}
+
 /** Populates the given StringTable with referenced unique filepaths
   relative to their repository.
 
   @param a Allocator to use for constructing table keys.
+  @param parent_table Will be populated with the directories containing the
+  referenced files.
 */
 static void populateTableRecursively(Allocator *a, StringTable *table,
+                                     StringTable *parent_table,
                                      const PathNode *nodes)
 {
   for(const PathNode *node = nodes; node != NULL; node = node->next)
@@ -40,10 +61,11 @@ static void populateTableRecursively(Allocator *a, StringTable *table,
       if(strTableGet(table, path) == NULL)
       {
         strTableMap(table, strCopy(path, a), (void *)0x1);
+        populateParentTable(a, parent_table, path);
       }
     }
 
-    populateTableRecursively(a, table, node->subnodes);
+    populateTableRecursively(a, table, parent_table, node->subnodes);
   }
 }
 
@@ -55,6 +77,9 @@ typedef struct
   /** All file paths inside this table are relative to repo_path. */
   StringTable *paths_to_preserve;
 
+  /** The parent directories of referenced files, relative to repo_path. */
+  StringTable *parents_of_references;
+
   /** Populated with informations during garbage collection. */
   GCStatistics statistics;
 
@@ -80,6 +105,14 @@ static bool shouldBeRemoved(StringView path, const struct stat *stats,
     }
     return false;
   }
+  if(S_ISLNK(stats->st_mode) &&
+     strTableGet(ctx->parents_of_references, path_relative_to_repo) !=
+       NULL &&
+     S_ISDIR(sStatUnlessDangling(path).st_mode))
+  {
+    /* Referenced files are stored behind this symlink. */
+    return false;
+  }
 
   ctx->statistics.deleted_items_count =
     sSizeAdd(ctx->statistics.deleted_items_count, 1);
@@ -115,6 +148,7 @@ GCStatistics collectGarbageProgress(const Metadata *metadata,
   GCContext ctx = {
     .repo_path = repo_path,
     .paths_to_preserve = strTableNew(r),
+    .parents_of_references = strTableNew(r),
     .progress_callback = progress_callback,
     .callback_user_data = callback_user_data,
   };
@@ -122,7 +156,7 @@ GCStatistics collectGarbageProgress(const Metadata *metadata,
   strTableMap(ctx.paths_to_preserve, str("metadata"), (void *)0x1);
   strTableMap(ctx.paths_to_preserve, str("lockfile"), (void *)0x1);
   populateTableRecursively(allocatorWrapRegion(r), ctx.paths_to_preserve,
-                           metadata->paths);
+                           ctx.parents_of_references, metadata->paths);
 
   DirIterator *dir = sDirOpen(repo_path);
   for(StringView subpath = sDirGetNext(dir); !strIsEmpty(subpath);
-- 
2.43.0


From fc44ebd7f341b2db42f813388d19141f084efcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:14 +0000
Subject: [PATCH 23/28] fix: keep data of repositories passed with a trailing
 slash

Stripping slashes in sDirGetNext() broke the garbage collection of
"repo/", which derives names from the length of the path it was given.
Strip the additional slash of entries in "/" during the search instead.
---
 src/safe-wrappers.c | 4 +---
 src/search.c        | 7 +++++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index 43c2961..cbe5f4e 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -321,9 +321,7 @@ StringView sDirGetNext(DirIterator *dir)
     return str("");
   }
 
-  /* Prevent the entries of "/" from starting with two slashes. */
-  return strAppendPath(strStripTrailingSlashes(dir->directory_path),
-                       str(dir_entry->d_name),
+  return strAppendPath(dir->directory_path, str(dir_entry->d_name),
                        dir->returned_result_buffer);
 }
 
diff --git a/src/search.c b/src/search.c
index 0675775..ce035fb 100644
--- a/src/search.c
+++ b/src/search.c
@@ -261,6 +261,13 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
 
   /* Create new path for matching. */
   StringView dir_entry_name = strSplitPath(entry).tail;
+  if(dir_entry_name.content[0] == '/')
+  {
+    /* The paths of entries in "/" start with two slashes. */
+    strSet(&dir_entry_name,
+           strUnterminated(&dir_entry_name.content[1],
+                           dir_entry_name.length - 1));
+  }
   replaceCurrentFilename(iterator, dir_entry_name);
 
   /* Match subnodes against dir_entry. */
-- 
2.43.0


From dc015f2d4d1030ca3f58181268d8e076bd03526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 24/28] fix: skip ignored entries of huge directories without
 recursion

---
 src/search.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/search.c b/src/search.c
index ce035fb..7d970a6 100644
--- a/src/search.c
+++ b/src/search.c
@@ -249,6 +249,9 @@ static bool nodeMatches(const SearchNode *node, StringView string)
   directory search. It will be destroyed if the search reaches its end
   trough this search step. In this case the returned SearchResult will have
   the type SRT_end_of_search.
+
+  @return A SearchResult with the type SRT_none if the queried file is not
+  part of the search.
 */
 static SearchResult finishSearchStep(SearchIterator *iterator)
 {
@@ -299,7 +302,7 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
   /* Skip current path, if no fallback policy was defined. */
   if(iterator->state.access.search.fallback_policy == BPOL_none)
   {
-    return finishSearchStep(iterator);
+    return (SearchResult){ .type = SRT_none };
   }
 
   /* Match against ignore expressions. */
@@ -309,7 +312,7 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
     if(sRegexIsMatching(element->regex, iterator->current_path))
     {
       element->has_matched = true;
-      return finishSearchStep(iterator);
+      return (SearchResult){ .type = SRT_none };
     }
   }
 
@@ -323,6 +326,9 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
   @param iterator A valid iterator which current state represents direct
   access. It will be destroyed, if this search step is the last step. In
   this case the returned SearchResult will have the type SRT_end_of_search.
+
+  @return A SearchResult with the type SRT_none if the node does not exist in
+  the filesystem.
 */
 static SearchResult finishCurrentNode(SearchIterator *iterator)
 {
@@ -341,7 +347,7 @@ static SearchResult finishCurrentNode(SearchIterator *iterator)
     return finishNodeStep(iterator, node, node->policy);
   }
 
-  return finishCurrentNode(iterator);
+  return (SearchResult){ .type = SRT_none };
 }
 
 /** Creates a new SearchIterator for searching the filesystem.
@@ -400,10 +406,15 @@ SearchIterator *searchNew(SearchNode *root_node)
 */
 SearchResult searchGetNext(SearchIterator *iterator)
 {
-  if(iterator->state.is_dir_search)
+  while(true)
   {
-    return finishSearchStep(iterator);
-  }
+    const SearchResult result = iterator->state.is_dir_search
+      ? finishSearchStep(iterator)
+      : finishCurrentNode(iterator);
 
-  return finishCurrentNode(iterator);
+    if(result.type != SRT_none)
+    {
+      return result;
+    }
+  }
 }
-- 
2.43.0


From 79a063ea079a9ddbee7b15b8f7dde54e7ed0498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 25/28] fix: report group ID bits which can't be restored

---
 src/safe-wrappers.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index cbe5f4e..a63fc34 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -506,6 +506,12 @@ void sChmod(StringView path, const mode_t mode)
     dieErrno("failed to change permissions of \"" PRI_STR "\"",
              STR_FMT(path));
   }
+
+  /* Lacking permissions don't cause an error when setting this bit. */
+  if((mode & S_ISGID) && !(sStat(path).st_mode & S_ISGID))
+  {
+    die("failed to set group ID bit of \"" PRI_STR "\"", STR_FMT(path));
+  }
 }
 
 /** Safe wrapper around chown(). */
-- 
2.43.0


From b6b33dce4d6963d0bd45be12633df6819f8019e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 26/28] fix: stop if matching a regular expression fails

An error of regexec(), like a lack of memory, counted as no match, so that
a backup recorded other files than configured.
---
 src/safe-wrappers.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index a63fc34..5394c85 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -862,5 +862,12 @@ const regex_t *sRegexCompile(CR_Region *r, StringView expression,
 
 bool sRegexIsMatching(const regex_t *regex, StringView string)
 {
-  return regexec(regex, nullTerminate(string), 0, NULL, 0) == 0;
+  const int error = regexec(regex, nullTerminate(string), 0, NULL, 0);
+  if(error != 0 && error != REG_NOMATCH)
+  {
+    die("failed to match regular expression against \"" PRI_STR "\"",
+        STR_FMT(string));
+  }
+
+  return error == 0;
 }
-- 
2.43.0


From 1c154febc0fbf9ef8c075cfb8bba30c68773a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 27/28] fix: don't modify other hard links of a restored file

A file was overwritten in place. If it was a hard link of another path,
the content, owner, permissions and timestamp of that path changed too.
---
 src/restore.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/restore.c b/src/restore.c
index 88f85c3..10fa0b3 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -344,6 +344,17 @@ static void restorePath(const PathNode *node, const PathState *state,
   }
 }
 
+/** @return True if modifying the file represented by the given node would
+  also modify other paths, which are hard links to the same file. */
+static bool affectsHardLinks(const PathNode *node, const PathState *state)
+{
+  return state->type != PST_directory &&
+    (node->hint &
+     (BH_owner_changed | BH_permissions_changed | BH_timestamp_changed |
+      BH_content_changed)) &&
+    sLStat(node->path).st_nlink > 1;
+}
+
 /** Recursive counterpart to finishRestore().
 
   @param node The node to restore.
@@ -387,6 +398,12 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
     affects_parent_timestamp = true;
     permissions_incomplete = true;
   }
+  else if(node->policy != BPOL_none && affectsHardLinks(node, state))
+  {
+    sRemove(node->path);
+    restorePath(node, state, repo_path);
+    affects_parent_timestamp = true;
+  }
   else if(node->policy != BPOL_none)
   {
     if(node->hint & BH_owner_changed)
-- 
2.43.0


From 73aeaf9a9cd7316b0bc0506a50501292a5971a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 28/28] fix: record an existing path whose non-tracked node
 claims a removal

---
 src/backup.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backup.c b/src/backup.c
index a92c51c..c825cd3 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -360,6 +360,10 @@ static void handleFiletypeChanges(PathNode *node,
       backupHintSet(node->hint, BH_directory_to_symlink);
     }
   }
+  else if(node->history->state.type == PST_non_existing)
+  {
+    backupHintSet(node->hint, BH_added);
+  }
 }
 
 /** Checks what has changed in the path described by the given node.
-- 
2.43.0

