From 05de7b379f90c2c40b4e15a6f42e77fbaf30135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 01/38] fix: copy files atomically and never through symlinks

---
 zielen/commands/sync.py |  5 ++++
 zielen/fstools.py       | 57 +++++++++++++++++++++++++++++++++++++----
 2 files changed, 57 insertions(+), 5 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 61a0e55..c2d216f 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -24,6 +24,7 @@ from typing import Iterable, Set, NamedTuple, Tuple, List
 
 from zielen.commandbase import Command, unlock
 from zielen.filelogic import FilesManager
+from zielen.fstools import rm_partial_files
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -63,6 +64,10 @@ class SyncCommand(Command):
         fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
         self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)
 
+        # Remove what an interrupted sync may have left behind.
+        rm_partial_files(self.local_dir.path)
+        rm_partial_files(self.remote_dir.safe_path)
+
         # Scan the local and remote directories.
         file_paths = (
             self.local_dir.scan_paths(dirs=False).keys()
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 65cee58..d97890f 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -29,6 +29,50 @@ from zielen.exceptions import FileTransferError
 
 PROGRESS_BAR_LENGTH = 0.35
 
+# The name under which a file is created while it is being copied. Files with
+# this name are never synced.
+PARTIAL_NAME = ".zielen-partial"
+
+
+def copy_file(source_path: str, dest_path: str) -> None:
+    """Copy a file or symlink, preserving file metadata.
+
+    An existing file or symlink at the destination is replaced, never written
+    to or followed. It is replaced atomically once the copy is complete, so
+    that an interruption can't leave an incomplete file in its place.
+
+    Args:
+        source_path: The path of the file or symlink to copy.
+        dest_path: The path to copy it to.
+    """
+    partial_path = os.path.join(os.path.dirname(dest_path), PARTIAL_NAME)
+    try:
+        os.remove(partial_path)
+    except FileNotFoundError:
+        pass
+    try:
+        shutil.copy2(source_path, partial_path, follow_symlinks=False)
+        os.replace(partial_path, dest_path)
+    except OSError:
+        try:
+            os.remove(partial_path)
+        except OSError:
+            pass
+        raise
+
+
+def rm_partial_files(path: str) -> None:
+    """Remove what interrupted transfers have left in a directory tree.
+
+    Args:
+        path: The path of the directory.
+    """
+    for entry in os.scandir(path):
+        if entry.name == PARTIAL_NAME:
+            os.remove(entry.path)
+        elif entry.is_dir(follow_symlinks=False):
+            rm_partial_files(entry.path)
+
 
 def transfer_tree(
         source: str, dest: str, files=None, exclude=None,
@@ -67,6 +111,10 @@ def transfer_tree(
     else:
         rel_paths = set()
         for path in files:
+            if os.path.islink(os.path.join(source, path)):
+                # A symlink to a directory is copied as a symlink.
+                rel_paths.add(path)
+                continue
             try:
                 for entry in scan_tree(os.path.join(source, path)):
                     rel_paths.add(os.path.relpath(entry.path, source))
@@ -86,7 +134,7 @@ def transfer_tree(
     dest_paths = [os.path.join(dest, path) for path in rel_paths]
 
     if use_bar:
-        source_sizes = {path: os.stat(path).st_size for path in source_paths}
+        source_sizes = {path: os.lstat(path).st_size for path in source_paths}
         total_source_size = sum(source_sizes.values())
         transferred_size = 0
         transfer_bar = ProgressBar(PROGRESS_BAR_LENGTH, message=message)
@@ -94,10 +142,7 @@ def transfer_tree(
     for source_path, dest_path in zip(source_paths, dest_paths):
         os.makedirs(os.path.dirname(dest_path), exist_ok=True)
         try:
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
-        except (shutil.SameFileError, FileExistsError):
-            os.remove(dest_path)
-            shutil.copy2(source_path, dest_path, follow_symlinks=False)
+            copy_file(source_path, dest_path)
         except IsADirectoryError:
             os.makedirs(dest_path, exist_ok=True)
         except PermissionError:
@@ -189,6 +234,8 @@ def scan_tree(path: str):
         An os.DirEntry object for each file in the tree.
     """
     for entry in os.scandir(path):
+        if entry.name == PARTIAL_NAME:
+            continue
         yield entry
         if entry.is_dir(follow_symlinks=False):
             yield from scan_tree(entry.path)
-- 
2.43.0


From 3e441ffe9212a0f0523861ce867653856a2dcbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 02/38] fix: let additions and modifications win over deletions
 on the other side

---
 zielen/commands/sync.py |  3 ++-
 zielen/filelogic.py     | 51 +++++++++++++++++++++++++++++++++--------
 2 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index c2d216f..77d1d7f 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -90,7 +90,8 @@ class SyncCommand(Command):
         new_dir_paths = (new_paths.all - file_paths)
         if self.profile.inflate_priority:
             self.profile.add_inflated(new_local_files, new_local_dirs)
-        self.remote_dir.add_paths(new_file_paths, new_dir_paths)
+        self.remote_dir.add_paths(
+            new_file_paths | mod_paths.all, new_dir_paths)
         self.profile.add_paths(new_file_paths, new_dir_paths)
 
         # Sync deletions between the local and remote directories.
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index ea17f3a..628c79b 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -26,7 +26,7 @@ from typing import Iterable, Tuple, Set, NamedTuple
 from zielen.exceptions import RemoteError, AvailableSpaceError
 from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
-from zielen.utils import timestamp_path
+from zielen.utils import get_path_ancestry, timestamp_path
 from zielen.fstools import (
     is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
 
@@ -592,7 +592,10 @@ class FilesManager:
 
         This method excludes the paths of local symlinks that are absolute
         or point to files outside the local directory. A file is considered
-        to be new if it is not in the local database.
+        to be new if it is not in the local database. A local file that has
+        been modified, or a local directory in which something has been added
+        or modified, is also considered to be new if it has been deleted from
+        the remote directory.
 
         Returns:
             A named tuple containing two sets of relative paths of files
@@ -604,6 +607,10 @@ class FilesManager:
             if not self.profile.get_path_info(path)
             and not is_unsafe_symlink(
                 os.path.join(self.local_dir.path, path), self.local_dir.path)}
+        new_local_paths |= (
+            self._get_kept_paths().local
+            & self.local_dir.scan_paths().keys()
+            - self.remote_dir.scan_paths().keys())
         new_local_paths -= self.profile.all_exclude_matches(
             self.local_dir.path)
         new_remote_paths = {
@@ -612,6 +619,28 @@ class FilesManager:
 
         return UpdatedPaths(new_local_paths, new_remote_paths)
 
+    def _get_kept_paths(self) -> UpdatedPaths:
+        """Get paths which must not be deleted to sync the two directories.
+
+        Adding or modifying a file on one side takes precedence over deleting
+        it, or a directory that contains it, on the other side.
+
+        Returns:
+            A named tuple containing two sets of relative paths in the local
+            database: ones which must not be deleted from the local directory
+            and ones which must not be deleted from the remote directory.
+        """
+        known_paths = self.profile.get_paths().keys()
+        mod_paths = self.compute_modified()
+        local_paths = (
+            self.local_dir.scan_paths().keys() - known_paths | mod_paths.local)
+        remote_paths = (
+            self.remote_dir.scan_paths().keys() - known_paths
+            | mod_paths.remote)
+        return UpdatedPaths(
+            known_paths & set(get_path_ancestry(local_paths)),
+            known_paths & set(get_path_ancestry(remote_paths)))
+
     def compute_modified(self) -> UpdatedPaths:
         """Compute paths of files that have been modified since the last sync.
 
@@ -647,8 +676,11 @@ class FilesManager:
             path for path, mtime in remote_mtimes
             if mtime > last_sync and self.profile.get_path_info(path)}
 
-        remote_mod_paths |= self.remote_dir.get_paths(
-            directory=False, min_lastsync=last_sync).keys()
+        remote_mod_paths |= (
+            self.remote_dir.get_paths(
+                directory=False, min_lastsync=last_sync).keys()
+            & self.remote_dir.scan_paths(dirs=False).keys()
+            & self.profile.get_paths().keys())
 
         return UpdatedPaths(local_mod_paths, remote_mod_paths)
 
@@ -671,15 +703,16 @@ class FilesManager:
 
         # Compute files that need to be deleted, not including the files
         # under selected directories.
-        local_del_paths = known_paths - remote_paths
-        remote_del_paths = known_paths - local_paths
+        kept_paths = self._get_kept_paths()
+        local_del_paths = known_paths - remote_paths - kept_paths.local
+        remote_del_paths = known_paths - local_paths - kept_paths.remote
         for path in local_del_paths.copy():
             sub_paths = set(self.profile.get_paths(root=path).keys())
-            sub_paths.remove(path)
+            sub_paths.discard(path)
             local_del_paths -= sub_paths
         for path in remote_del_paths.copy():
-            sub_paths = set(self.remote_dir.get_paths(root=path).keys())
-            sub_paths.remove(path)
+            sub_paths = set(self.profile.get_paths(root=path).keys())
+            sub_paths.discard(path)
             remote_del_paths -= sub_paths
 
         # Compute files to be moved to the trash.
-- 
2.43.0


From db6ab93f48d3c70020fc59b6b910e9f8560fdf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 03/38] fix: sync empty directories, but not what is excluded
 from new directories

---
 zielen/filelogic.py | 23 ++++++++++++++++-------
 zielen/fstools.py   |  2 ++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 628c79b..4be97de 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -422,10 +422,15 @@ class FilesManager:
             RemoteError: The remote directory is unmounted.
         """
         # Copy modified local files to the remote directory.
+        # A new directory may contain files that must not be synced.
         try:
             transfer_tree(
                 self.local_dir.path, self.remote_dir.safe_path,
-                files=update_paths, message="Updating remote files...")
+                files=update_paths,
+                exclude=(
+                    self.profile.all_exclude_matches(self.local_dir.path)
+                    | self._get_unsafe_symlinks()),
+                message="Updating remote files...")
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
                 raise RemoteError("the remote directory could not be found")
@@ -435,6 +440,15 @@ class FilesManager:
         # Update the time of the last sync for files that have been modified.
         self.remote_dir.update_paths(update_paths, lastsync=time.time())
 
+    def _get_unsafe_symlinks(self) -> Set[str]:
+        """Get the relative paths of local symlinks that can't be synced."""
+        return {
+            link_path for link_path in self.local_dir.scan_paths(
+                files=False, dirs=False).keys()
+            if is_unsafe_symlink(
+                os.path.join(self.local_dir.path, link_path),
+                self.local_dir.path)}
+
     def _setup_dir(self, unsafe_symlinks: Set[str]) -> None:
         """Add file paths to both databases and overwrite with symlinks.
 
@@ -459,12 +473,7 @@ class FilesManager:
 
     def setup_from_local(self) -> None:
         """Copy initial local files to remote directory and symlink back."""
-        unsafe_symlinks = {
-            link_path for link_path in self.local_dir.scan_paths(
-                files=False, dirs=False).keys()
-            if is_unsafe_symlink(
-                os.path.join(self.local_dir.path, link_path),
-                self.local_dir.path)}
+        unsafe_symlinks = self._get_unsafe_symlinks()
 
         # Check that there is enough remote space to accommodate local
         # files.
diff --git a/zielen/fstools.py b/zielen/fstools.py
index d97890f..af853de 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -118,6 +118,8 @@ def transfer_tree(
             try:
                 for entry in scan_tree(os.path.join(source, path)):
                     rel_paths.add(os.path.relpath(entry.path, source))
+                # The directory itself may be empty.
+                rel_paths.add(path)
             except NotADirectoryError:
                 rel_paths.add(path)
 
-- 
2.43.0


From ed8d41ca998b9ad6c5aec9911346d1d7b678965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 04/38] fix: inflate priorities when no file has been synced
 yet

---
 zielen/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 53d40f5..f7c0873 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -638,7 +638,7 @@ class ProfileDBFile(SyncDBFile):
             dirs: The paths of directories to add to the database.
         """
         self._cur.execute("""\
-            SELECT MAX(priority) FROM nodes
+            SELECT COALESCE(MAX(priority), 0) FROM nodes
             WHERE directory = 0;
             """)
         max_priority = self._cur.fetchone()[0]
-- 
2.43.0


From e36f2252e8dd9ee62047290815ce8d68adb7c138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 05/38] fix: make placeholders only for files that exist
 remotely

---
 zielen/filelogic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 4be97de..85a48bb 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -277,7 +277,7 @@ class FilesManager:
         for dir_path, dir_data in local_dirs.items():
             dir_priority = dir_data.priority
             dir_size = 0
-            for sub_path in self.remote_dir.get_paths(root=dir_path):
+            for sub_path in self.profile.get_paths(root=dir_path):
                 # Get the size of the files in the remote directory, as
                 # symlinks in the local directory are not followed.
                 dir_size += remote_stats[sub_path].st_blocks * 512
@@ -392,8 +392,8 @@ class FilesManager:
         try:
             nonlocal_paths = symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
-                self.remote_dir.get_paths(directory=False),
-                self.remote_dir.get_paths(directory=True))
+                self.profile.get_paths(directory=False),
+                self.profile.get_paths(directory=True))
 
             transfer_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
-- 
2.43.0


From 9445f776905ea6e2ab4684dd83141a70b91f5f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 06/38] fix: keep names in the trash apart and purge it by the
 time spent there

---
 zielen/commands/sync.py |  2 +-
 zielen/filelogic.py     | 10 +++++++---
 zielen/fstools.py       |  8 +-------
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 77d1d7f..e6f8f49 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -137,7 +137,7 @@ class SyncCommand(Command):
         fm.rm_excluded_files(remote_excluded_files)
 
         # Clean up the remote trash directory.
-        if self.profile.cleanup_period:
+        if self.profile.cleanup_period is not None:
             fm.cleanup_trash()
 
         # The sync is now complete. Update the time of the last sync in the
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 85a48bb..6d8b1e8 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -883,6 +883,7 @@ class FilesManager:
                 filename_counter += 1
                 new_filename = "{0}({1}){2}".format(
                     name, filename_counter, extension)
+            trash_filenames.add(new_filename)
             new_filenames.append(new_filename)
 
         for old_path, new_filename in zip(old_paths, new_filenames):
@@ -903,10 +904,13 @@ class FilesManager:
         """Delete old files from the remote trash directory."""
         cutoff_time = time.time() - self.profile.cleanup_period
         for entry in os.scandir(self.remote_dir.trash_dir):
-            if entry.stat().st_mtime <= cutoff_time:
-                try:
+            # Moving a file changes its ctime, which also accounts for files
+            # whose mtime could not be updated when they were moved here.
+            stats = entry.stat(follow_symlinks=False)
+            if max(stats.st_mtime, stats.st_ctime) <= cutoff_time:
+                if entry.is_dir(follow_symlinks=False):
                     shutil.rmtree(entry.path)
-                except NotADirectoryError:
+                else:
                     os.remove(entry.path)
 
     def get_excluded_size(self) -> int:
diff --git a/zielen/fstools.py b/zielen/fstools.py
index af853de..73a63c9 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -19,9 +19,7 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 """
 import os
 import sys
-import time
 import shutil
-import tempfile
 from typing import Iterable, Optional, Set
 
 from zielen.utils import shell_cmd, ProgressBar
@@ -278,11 +276,7 @@ def update_mtime(path) -> None:
     Args:
         path: The path of the file or directory.
     """
-    if os.path.isdir(path):
-        tempfile.NamedTemporaryFile(dir=path).close()
-    elif os.path.exists(path):
-        current = time.time()
-        os.utime(path, times=(current, current), follow_symlinks=False)
+    os.utime(path, follow_symlinks=False)
 
 
 def check_dir(path: str, expect_empty: bool) -> Optional[str]:
-- 
2.43.0


From 5abb33dbf4ede931480ff0e584a2cee3a89d9dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 07/38] fix: evict files atomically and record every evicted
 file

---
 zielen/filelogic.py | 36 +++++++++++++-----------------------
 zielen/fstools.py   | 11 +++++++++--
 2 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 6d8b1e8..779eff2 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -367,30 +367,19 @@ class FilesManager:
         """
         update_paths = set(update_paths)
 
-        # Sort the file paths so that a directory's contents always come
-        # before the directory itself.
-        stale_paths = list(self.compute_stale(update_paths))
-        stale_paths.sort(key=lambda x: x.count(os.sep), reverse=True)
-
-        # Remove old, unneeded files to make room for new ones.
-        for stale_path in stale_paths:
-            full_stale_path = os.path.join(self.local_dir.path, stale_path)
-            if os.path.islink(full_stale_path):
-                # The path will just be replaced with a symlink anyways.
-                continue
-            try:
-                os.remove(full_stale_path)
-            except IsADirectoryError:
-                try:
-                    os.rmdir(full_stale_path)
-                except OSError:
-                    # There are still files in the directory. This could
-                    # happen if there were symbolic links in the directory
-                    # that weren't deleted.
-                    pass
+        # Symlinks that can't be synced are either already symlinks to remote
+        # files or belong to the user.
+        stale_files = (
+            self.compute_stale(update_paths)
+            & self.profile.get_paths(directory=False).keys()
+            - self._get_unsafe_symlinks())
 
         try:
-            nonlocal_paths = symlink_tree(
+            # Replace old, unneeded files to make room for new ones.
+            symlink_tree(
+                self.remote_dir.safe_path, self.local_dir.path,
+                stale_files, [], overwrite=True)
+            symlink_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 self.profile.get_paths(directory=False),
                 self.profile.get_paths(directory=True))
@@ -407,10 +396,11 @@ class FilesManager:
 
         # Update the database with information about which paths are being
         # kept in the local directory.
+        self.profile.update_paths(
+            self.profile.get_paths(directory=False).keys(), local=False)
         for update_path in update_paths:
             self.profile.update_paths(
                 self.profile.get_paths(root=update_path).keys(), local=True)
-        self.profile.update_paths(nonlocal_paths, local=False)
 
     def update_remote(self, update_paths: Iterable[str]) -> None:
         """Update the remote directory with local files.
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 73a63c9..fd31bbc 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -215,8 +215,15 @@ def symlink_tree(
                 os.symlink(full_src_path, full_dest_path)
             except FileExistsError:
                 if overwrite:
-                    os.remove(full_dest_path)
-                    os.symlink(full_src_path, full_dest_path)
+                    # Replace the file atomically.
+                    partial_path = os.path.join(
+                        os.path.dirname(full_dest_path), PARTIAL_NAME)
+                    try:
+                        os.remove(partial_path)
+                    except FileNotFoundError:
+                        pass
+                    os.symlink(full_src_path, partial_path)
+                    os.replace(partial_path, full_dest_path)
                     new_paths.add(src_path)
             else:
                 new_paths.add(src_path)
-- 
2.43.0


From a108fa0addc62d620be815dd58488d07ee4fcc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 08/38] fix: keep conflict copies made in the same second apart

---
 zielen/filelogic.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 779eff2..9619528 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -532,8 +532,18 @@ class FilesManager:
         local_diff = PathsDiff(local_paths)
         remote_diff = PathsDiff(remote_paths)
 
+        used_paths = local_mtimes.keys() | remote_mtimes.keys()
         for path in conflict_paths:
-            new_path = timestamp_path(path, keyword="conflict")
+            # Conflicts can occur more than once in the same second.
+            conflict_path = timestamp_path(path, keyword="conflict")
+            new_path = conflict_path
+            path_counter = 0
+            name, extension = os.path.splitext(conflict_path)
+            while new_path in used_paths:
+                path_counter += 1
+                new_path = "{0}({1}){2}".format(name, path_counter, extension)
+            used_paths.add(new_path)
+
             path_data = self.profile.get_path_info(path)
             if path_data and path_data.directory:
                 continue
-- 
2.43.0


From fb2133e8df3080a9650afc2423a37e72efd1707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 09/38] fix: write profile metadata atomically and don't
 overwrite what the daemon stored

---
 zielen/commands/sync.py |  5 +++++
 zielen/containerbase.py | 22 ++++++++++++++++++++--
 zielen/daemon.py        | 15 ++++++++-------
 zielen/profile.py       |  3 +++
 4 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index e6f8f49..abcae11 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -143,5 +143,10 @@ class SyncCommand(Command):
         # The sync is now complete. Update the time of the last sync in the
         # info file.
         self.remote_dir.write()
+
+        # The daemon may have written to the info file in the meantime. It
+        # can't write to it now, as there is an open database transaction.
+        self.profile.begin()
+        self.profile.read_info()
         self.profile.last_sync = time.time()
         self.profile.write()
diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 2991cdd..f0192b6 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -105,9 +105,14 @@ class JSONFile:
             self.vals = json.load(file)
 
     def write(self) -> None:
-        """Write object to a file."""
-        with open(self.path, "w") as file:
+        """Write object to a file.
+
+        The file is replaced atomically, so that it is always complete.
+        """
+        partial_path = self.path + ".partial"
+        with open(partial_path, "w") as file:
             json.dump(self.vals, file, indent=4)
+        os.replace(partial_path, self.path)
 
 
 class SyncDBFile:
@@ -214,6 +219,19 @@ class SyncDBFile:
         return int.from_bytes(
             path_hash.digest()[:8], byteorder="big", signed=True)
 
+    def begin(self) -> None:
+        """Begin a transaction and lock the database for writing.
+
+        This does nothing if there already is a transaction.
+
+        Raises:
+            RemoteError: The database file wasn't found.
+        """
+        if self._conn is None:
+            raise RemoteError("could not connect to the database file")
+        if not self._conn.in_transaction:
+            self._cur.execute("BEGIN IMMEDIATE")
+
     def commit(self) -> None:
         """Commit the database transaction."""
         self._conn.commit()
diff --git a/zielen/daemon.py b/zielen/daemon.py
index 766ba73..3ac3672 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -143,8 +143,8 @@ class Daemon(Command):
                 self._adjust()
                 self.profile.increment(
                     deduplicated_paths, self.INCREMENT_AMOUNT)
+                self.profile.commit()
                 self.profile.read()
-                self.profile.write()
             except sqlite3.OperationalError:
                 continue
             else:
@@ -155,18 +155,19 @@ class Daemon(Command):
     def _adjust(self) -> None:
         """Adjust the priority values in the database at regular intervals."""
         if time.time() >= self.profile.last_adjust + self.ADJUST_INTERVAL:
-            # This is necessary because a sync may have occurred since
-            # the last adjustment, which updates a value in the info
-            # file. If we don't read the info file before writing to it,
-            # that value will get reset.
-            self.profile.read()
-
             # Use the formula for half-life to calculate the constant to
             # multiply each priority value by.
             half_life = self.profile.priority_half_life
             adjust_constant = 0.5 ** (self.ADJUST_INTERVAL / half_life)
 
             self.profile.adjust_all(adjust_constant)
+
+            # This is necessary because a sync may have occurred since
+            # the last adjustment, which updates a value in the info
+            # file. If we don't read the info file before writing to it,
+            # that value will get reset. A sync can't write to it now, as
+            # there is an open database transaction.
+            self.profile.read_info()
             self.profile.last_adjust = time.time()
             self.profile.write()
 
diff --git a/zielen/profile.py b/zielen/profile.py
index f7c0873..bd8ec95 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -81,6 +81,9 @@ class Profile:
         self.get_paths = self._db_file.get_paths
         self.increment = self._db_file.increment
         self.adjust_all = self._db_file.adjust_all
+        self.begin = self._db_file.begin
+        self.commit = self._db_file.commit
+        self.read_info = self._info_file.read
 
     def read(self) -> None:
         """Load data from persistent storage."""
-- 
2.43.0


From 0a2fdddb94c2768429c9b9b41bc3229d3b676f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 10/38] fix: lock a profile before reading it and leave no
 half-made profiles behind

---
 zielen/commandbase.py    | 36 +++++++++++------
 zielen/commands/init.py  | 83 ++++++++++++++++++++--------------------
 zielen/commands/reset.py |  2 +-
 zielen/containerbase.py  | 18 +++++++++
 zielen/profile.py        | 36 ++++++++++++++---
 zielen/userdata.py       | 12 ++++--
 6 files changed, 123 insertions(+), 64 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index 97c42a1..a92a95e 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -28,7 +28,7 @@ import functools
 from zielen.paths import get_profiles_dir
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
 from zielen.profile import Profile
-from zielen.exceptions import InputError, StatusError
+from zielen.exceptions import FileParseError, InputError, StatusError
 
 
 def unlock(func):
@@ -60,7 +60,8 @@ class Command(abc.ABC):
         self.profiles = {
             entry.name: Profile(entry.name)
             for entry in os.scandir(get_profiles_dir())
-            if entry.is_dir(follow_symlinks=False)}
+            if entry.is_dir(follow_symlinks=False)
+            and os.path.isfile(os.path.join(entry.path, "info.json"))}
         self.profile = None
         self.local_dir = None
         self.remote_dir = None
@@ -86,26 +87,39 @@ class Command(abc.ABC):
         input_path = os.path.abspath(input_str)
         if os.path.exists(input_path):
             for name, profile in self.profiles.items():
-                if not profile.cfg.raw_vals:
-                    profile.cfg.read()
-                if os.path.samefile(
-                        input_path, profile.cfg.vals["LocalDir"]):
-                    return profile
+                try:
+                    profile.read()
+                    if os.path.samefile(input_path, profile.local_path):
+                        return profile
+                except (FileNotFoundError, FileParseError):
+                    continue
         raise InputError(
             "argument is not a profile name or local directory path")
 
-    def setup_profile(self):
+    def setup_profile(self, statuses=("initialized",)):
         """Perform some initial setup and assignments.
 
+        Args:
+            statuses: The statuses that the profile may have.
+
         Raises:
             InputError: The selected profile is only partially initialized.
         """
-        self.profile.read()
         self.lock()
 
+        # Another operation may have changed or removed the profile up until
+        # it was locked.
+        if not self.profile.is_current():
+            self.profile = Profile(self.profile.name)
+        try:
+            self.profile.read()
+        except FileNotFoundError:
+            raise InputError("this profile no longer exists")
+
         # Warn if profile is only partially initialized.
-        if self.profile.status == "partial":
-            atexit.register(self.print_interrupt_msg)
+        if self.profile.status not in statuses:
+            if self.profile.status == "partial":
+                atexit.register(self.print_interrupt_msg)
             raise InputError("invalid profile")
 
         self.local_dir = LocalSyncDir(self.profile.local_path)
diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 3abb4ff..ed8380d 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -59,21 +59,6 @@ class InitCommand(Command):
         Raises:
             InputError: The command-line arguments were invalid.
         """
-        # Define cleanup functions.
-        def cleanup_profile() -> None:
-            """Remove the profile directory if empty."""
-            try:
-                os.rmdir(self.profile.path)
-            except OSError:
-                pass
-
-        def delete_profile() -> None:
-            """Delete the profile directory."""
-            try:
-                shutil.rmtree(self.profile.path)
-            except FileNotFoundError:
-                pass
-
         # Check that value of profile name is valid.
         if re.search(r"\s+", self.profile_input):
             raise InputError("profile name must not contain spaces")
@@ -91,7 +76,15 @@ class InitCommand(Command):
                 raise InputError(
                     "argument for '--template' is not a valid file")
 
-        atexit.register(cleanup_profile)
+        # Lock profile if not already locked.
+        self.profile = Profile(self.profile_input)
+        self.lock()
+
+        # Without an info file, there are only the remains of an initialization
+        # which can't be resumed.
+        if not self.profile.exists():
+            shutil.rmtree(self.profile.path, ignore_errors=True)
+
         self.profile = Profile(self.profile_input)
         try:
             self.profile.read()
@@ -102,9 +95,6 @@ class InitCommand(Command):
         if self.profile.status == "initialized":
             raise InputError("this profile already exists")
 
-        # Lock profile if not already locked.
-        self.lock()
-
         # Check whether an interrupted initialization is being resumed.
         if self.profile.status == "partial":
             # Resume an interrupted initialization.
@@ -120,27 +110,32 @@ class InitCommand(Command):
             fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
         else:
             # Start a new initialization.
-            atexit.register(delete_profile)
-
-            # Generate all files in the profile directory.
-            init_options = {
-                "add_remote": self.add_remote}
-            self.profile.generate(
-                init_options=init_options, exclude_path=self.exclude,
-                template_path=self.template)
-
-            # Check validity of local and remote directories.
-            error_message = check_dir(
-                self.profile.local_path, self.add_remote)
-            if error_message:
-                raise InputError("local directory {}".format(error_message))
-            error_message = self._verify_local_dir(self.profile.local_path)
-            if error_message:
-                raise InputError(error_message)
-            error_message = check_dir(
-                self.profile.remote_path, not self.add_remote)
-            if error_message:
-                raise InputError("remote directory {}".format(error_message))
+            try:
+                # Generate all files in the profile directory.
+                init_options = {
+                    "add_remote": self.add_remote}
+                self.profile.generate(
+                    init_options=init_options, exclude_path=self.exclude,
+                    template_path=self.template)
+
+                # Check validity of local and remote directories.
+                error_message = check_dir(
+                    self.profile.local_path, self.add_remote)
+                if error_message:
+                    raise InputError(
+                        "local directory {}".format(error_message))
+                error_message = self._verify_local_dir(self.profile.local_path)
+                if error_message:
+                    raise InputError(error_message)
+                error_message = check_dir(
+                    self.profile.remote_path, not self.add_remote)
+                if error_message:
+                    raise InputError(
+                        "remote directory {}".format(error_message))
+            except BaseException:
+                # Delete the profile directory.
+                self.profile.delete()
+                raise
 
             self.local_dir = LocalSyncDir(self.profile.local_path)
             self.remote_dir = RemoteSyncDir(self.profile.remote_path)
@@ -149,8 +144,8 @@ class InitCommand(Command):
             # The profile is now partially initialized. If the
             # initialization is interrupted from this point, it can be
             # resumed.
+            self.profile.write()
             atexit.register(self.print_interrupt_msg)
-            atexit.unregister(delete_profile)
 
         self.remote_dir.generate()
 
@@ -200,7 +195,11 @@ class InitCommand(Command):
             if profile is self.profile or not os.path.isfile(profile.cfg_path):
                 continue
 
-            profile.read()
+            try:
+                profile.read()
+            except FileNotFoundError:
+                # The profile has just been removed.
+                continue
 
             common_path = os.path.commonpath([profile.local_path, dir_path])
             if common_path in [profile.local_path, dir_path]:
diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 0725e17..55c7984 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -106,4 +106,4 @@ class ResetCommand(Command):
                 os.remove(full_path)
 
         self.remote_dir.rm_exclude_file(self.profile.id)
-        shutil.rmtree(self.profile.path)
+        self.profile.delete()
diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index f0192b6..9cb039f 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -139,12 +139,15 @@ class SyncDBFile:
 
     Attributes:
         path: The path of the database file.
+        _stat: The status of the database file when it was opened.
         _conn: The sqlite connection object for the database.
         _cur: The sqlite cursor object for the connection.
     """
     def __init__(self, path: str) -> None:
         self.path = path
+        self._stat = None
         if os.path.isfile(self.path):
+            self._stat = os.stat(self.path)
             self._conn = sqlite3.connect(
                 self.path,
                 detect_types=sqlite3.PARSE_DECLTYPES,
@@ -176,6 +179,21 @@ class SyncDBFile:
         with self._conn:
             yield
 
+    def is_current(self) -> bool:
+        """Return whether the file is still the one that was opened."""
+        try:
+            return self._stat is not None and os.path.samestat(
+                self._stat, os.stat(self.path))
+        except FileNotFoundError:
+            return False
+
+    def _has_tables(self) -> bool:
+        """Return whether the creation of the database was completed."""
+        if self._conn is None:
+            return False
+        self._cur.execute("SELECT COUNT(*) FROM sqlite_master;")
+        return self._cur.fetchone()[0] > 0
+
     def _mark_directory(self, paths: Iterable[str]) -> None:
         """Mark paths as directories."""
         # A generator expression can't be used here because recursive use of
diff --git a/zielen/profile.py b/zielen/profile.py
index bd8ec95..d7b41b7 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -22,6 +22,7 @@ import re
 import sys
 import glob
 import uuid
+import shutil
 import getpass
 import sqlite3
 import datetime
@@ -83,6 +84,7 @@ class Profile:
         self.adjust_all = self._db_file.adjust_all
         self.begin = self._db_file.begin
         self.commit = self._db_file.commit
+        self.is_current = self._db_file.is_current
         self.read_info = self._info_file.read
 
     def read(self) -> None:
@@ -98,7 +100,10 @@ class Profile:
     def generate(
             self, init_options: Dict[str, Any], exclude_path=None,
             template_path=None) -> None:
-        """Generate files for storing persistent data."""
+        """Generate files for storing persistent data.
+
+        The info file is not written.
+        """
         os.makedirs(self.path, exist_ok=True)
 
         self._exclude_file.generate(exclude_path)
@@ -125,6 +130,22 @@ class Profile:
             self._cfg_file.write(os.path.join(
                 sys.prefix, "share/zielen/config-template"))
 
+    def exists(self) -> bool:
+        """Return whether the profile has been at least partially initialized.
+
+        The info file is the last one to be created and the first one to be
+        removed.
+        """
+        return os.path.isfile(self._info_file.path)
+
+    def delete(self) -> None:
+        """Delete the profile directory."""
+        try:
+            os.remove(self._info_file.path)
+        except FileNotFoundError:
+            pass
+        shutil.rmtree(self.path)
+
     def write(self) -> None:
         """Write data to persistent storage."""
         self._info_file.write()
@@ -438,7 +459,6 @@ class ProfileInfoFile(JSONFile):
             "InitOptions": {}
             })
         self.vals["InitOptions"].update(init_options)
-        self.write()
 
 
 class ProfileDBFile(SyncDBFile):
@@ -455,7 +475,7 @@ class ProfileDBFile(SyncDBFile):
         Raises:
             FileExistsError: The database file already exists.
         """
-        if os.path.isfile(self.path):
+        if os.path.isfile(self.path) and self._has_tables():
             raise FileExistsError("the database file already exists")
 
         self._conn = sqlite3.connect(
@@ -472,7 +492,9 @@ class ProfileDBFile(SyncDBFile):
                 PRAGMA foreign_keys = ON;
                 PRAGMA journal_mode = WAL;
 
-                CREATE TABLE nodes (
+                BEGIN IMMEDIATE;
+
+                CREATE TABLE IF NOT EXISTS nodes (
                     id          INTEGER NOT NULL,
                     path        TEXT    NOT NULL,
                     directory   BOOL    NOT NULL,
@@ -481,7 +503,7 @@ class ProfileDBFile(SyncDBFile):
                     PRIMARY KEY (id) ON CONFLICT IGNORE
                 );
 
-                CREATE TABLE closure (
+                CREATE TABLE IF NOT EXISTS closure (
                     ancestor    INT     NOT NULL,
                     descendant  INT     NOT NULL,
                     depth       INT     DEFAULT 0,
@@ -492,11 +514,13 @@ class ProfileDBFile(SyncDBFile):
                         REFERENCES nodes(id) ON DELETE CASCADE
                 ) WITHOUT ROWID;
 
-                CREATE TABLE collisions (
+                CREATE TABLE IF NOT EXISTS collisions (
                     path        TEXT    NOT NULL,
                     salt        TEXT    NOT NULL,
                     PRIMARY KEY (path) ON CONFLICT IGNORE
                 );
+
+                COMMIT;
                 """)
 
     def _update_priority(self, paths: Iterable[str]) -> None:
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 5d06371..641d273 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -266,7 +266,7 @@ class RemoteDBFile(SyncDBFile):
         Raises:
             FileExistsError: The database file already exists.
         """
-        if os.path.isfile(self.path):
+        if os.path.isfile(self.path) and self._has_tables():
             raise FileExistsError("the database file already exists")
 
         self._conn = sqlite3.connect(
@@ -282,7 +282,9 @@ class RemoteDBFile(SyncDBFile):
             self._cur.executescript("""\
                 PRAGMA foreign_keys = ON;
 
-                CREATE TABLE nodes (
+                BEGIN IMMEDIATE;
+
+                CREATE TABLE IF NOT EXISTS nodes (
                     id          INTEGER NOT NULL,
                     path        TEXT    NOT NULL,
                     directory   BOOL    NOT NULL,
@@ -290,7 +292,7 @@ class RemoteDBFile(SyncDBFile):
                     PRIMARY KEY (id) ON CONFLICT IGNORE
                 );
 
-                CREATE TABLE closure (
+                CREATE TABLE IF NOT EXISTS closure (
                     ancestor    INT     NOT NULL,
                     descendant  INT     NOT NULL,
                     depth       INT     DEFAULT 0,
@@ -301,11 +303,13 @@ class RemoteDBFile(SyncDBFile):
                         REFERENCES nodes(id) ON DELETE CASCADE
                 ) WITHOUT ROWID;
 
-                CREATE TABLE collisions (
+                CREATE TABLE IF NOT EXISTS collisions (
                     path        TEXT    NOT NULL,
                     salt        TEXT    NOT NULL,
                     PRIMARY KEY (path) ON CONFLICT IGNORE
                 );
+
+                COMMIT;
                 """)
 
     def add_paths(self, files: Iterable[str], dirs: Iterable[str]) -> None:
-- 
2.43.0


From ba198192042b69d3d8e714eba9233522d74de230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 11/38] fix: never take the mountpoint of an unmounted remote
 directory for the remote directory

---
 zielen/commands/emptytrash.py | 20 ++++++++-------
 zielen/commands/init.py       |  3 +++
 zielen/commands/reset.py      |  4 ++-
 zielen/commands/sync.py       | 13 +++++++---
 zielen/filelogic.py           | 36 +++++++++++++++------------
 zielen/fstools.py             | 29 +++++++++++++++++++---
 zielen/userdata.py            | 46 ++++++++++++++++++++++++++---------
 7 files changed, 108 insertions(+), 43 deletions(-)

diff --git a/zielen/commands/emptytrash.py b/zielen/commands/emptytrash.py
index 89cf782..6829344 100644
--- a/zielen/commands/emptytrash.py
+++ b/zielen/commands/emptytrash.py
@@ -37,15 +37,17 @@ class EmptyTrashCommand(Command):
     def main(self) -> None:
         """Run the command."""
         self.setup_profile()
+        self.remote_dir.begin()
 
         files_deleted = 0
-        for path in os.scandir(self.remote_dir.trash_dir):
-            try:
-                os.remove(path)
-                files_deleted += 1
-            except IsADirectoryError:
-                shutil.rmtree(path)
-                files_deleted += 1
-            except FileNotFoundError:
-                pass
+        with self.remote_dir.access():
+            for path in os.scandir(self.remote_dir.trash_dir):
+                try:
+                    os.remove(path)
+                    files_deleted += 1
+                except IsADirectoryError:
+                    shutil.rmtree(path)
+                    files_deleted += 1
+                except FileNotFoundError:
+                    pass
         print("{} files deleted".format(files_deleted))
diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index ed8380d..f7240fb 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -147,7 +147,10 @@ class InitCommand(Command):
             self.profile.write()
             atexit.register(self.print_interrupt_msg)
 
+        # Keep other clients out of the remote directory until the
+        # initialization is complete.
         self.remote_dir.generate()
+        self.remote_dir.begin()
 
         # Copy files and/or create symlinks.
         if self.add_remote:
diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 55c7984..0b891cd 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -90,6 +90,8 @@ class ResetCommand(Command):
                             os.remove(entry.path)
                 except FileNotFoundError:
                     pass
+                # The util directory is missing on purpose.
+                self.remote_dir.safe_path = self.remote_dir.path
 
         # Remove non-user-created symlinks from the local directory. These
         # are symlinks that point to the remote directory.
@@ -102,7 +104,7 @@ class ResetCommand(Command):
                 link_dest = os.path.join(os.path.dirname(full_path), link_dest)
             if os.path.commonpath([
                     link_dest,
-                    self.remote_dir.safe_path]) == self.remote_dir.safe_path:
+                    self.remote_dir.path]) == self.remote_dir.path:
                 os.remove(full_path)
 
         self.remote_dir.rm_exclude_file(self.profile.id)
diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index abcae11..1d2d3cb 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -62,11 +62,17 @@ class SyncCommand(Command):
         """Run the command."""
         self.setup_profile()
         fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
+
+        # Keep other clients out of the remote directory until the sync is
+        # complete.
+        self.remote_dir.begin()
+        self.profile.begin()
         self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)
 
         # Remove what an interrupted sync may have left behind.
         rm_partial_files(self.local_dir.path)
-        rm_partial_files(self.remote_dir.safe_path)
+        with self.remote_dir.access():
+            rm_partial_files(self.remote_dir.safe_path)
 
         # Scan the local and remote directories.
         file_paths = (
@@ -144,9 +150,8 @@ class SyncCommand(Command):
         # info file.
         self.remote_dir.write()
 
-        # The daemon may have written to the info file in the meantime. It
-        # can't write to it now, as there is an open database transaction.
-        self.profile.begin()
+        # The daemon may have written to the info file since it was last read.
+        # It can't write to it now, as there is an open database transaction.
         self.profile.read_info()
         self.profile.last_sync = time.time()
         self.profile.write()
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 9619528..294b255 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -377,10 +377,10 @@ class FilesManager:
         try:
             # Replace old, unneeded files to make room for new ones.
             symlink_tree(
-                self.remote_dir.safe_path, self.local_dir.path,
+                self.remote_dir.path, self.local_dir.path,
                 stale_files, [], overwrite=True)
             symlink_tree(
-                self.remote_dir.safe_path, self.local_dir.path,
+                self.remote_dir.path, self.local_dir.path,
                 self.profile.get_paths(directory=False),
                 self.profile.get_paths(directory=True))
 
@@ -456,7 +456,7 @@ class FilesManager:
         # Overwrite local files with symlinks to the corresponding files in the
         # remote dir.
         symlink_tree(
-            self.remote_dir.safe_path, self.local_dir.path,
+            self.remote_dir.path, self.local_dir.path,
             self.profile.get_paths(directory=False),
             self.profile.get_paths(directory=True),
             overwrite=True)
@@ -808,7 +808,8 @@ class FilesManager:
                 shutil.rmtree(full_path)
             except FileNotFoundError:
                 # This could happen if a previous sync was interrupted.
-                pass
+                if not os.path.isdir(parent_dir):
+                    raise
 
         self.profile.rm_paths(paths)
         self.remote_dir.rm_paths(paths)
@@ -832,7 +833,8 @@ class FilesManager:
         Args:
             paths: The relative paths of files to remove.
         """
-        self._rm_files(paths, self.remote_dir.path)
+        with self.remote_dir.access():
+            self._rm_files(paths, self.remote_dir.safe_path)
 
     def rm_excluded_files(self, excluded_paths: Iterable[str]) -> None:
         """Remove excluded files from the remote directory.
@@ -895,7 +897,9 @@ class FilesManager:
                 update_mtime(abs_new_path)
             except FileNotFoundError:
                 # This could happen if a previous sync was interrupted.
-                pass
+                if not os.path.isdir(self.remote_dir.util_dir):
+                    raise RemoteError(
+                        "the remote directory could not be found")
 
         self.profile.rm_paths(old_paths)
         self.remote_dir.rm_paths(old_paths)
@@ -903,15 +907,17 @@ class FilesManager:
     def cleanup_trash(self) -> None:
         """Delete old files from the remote trash directory."""
         cutoff_time = time.time() - self.profile.cleanup_period
-        for entry in os.scandir(self.remote_dir.trash_dir):
-            # Moving a file changes its ctime, which also accounts for files
-            # whose mtime could not be updated when they were moved here.
-            stats = entry.stat(follow_symlinks=False)
-            if max(stats.st_mtime, stats.st_ctime) <= cutoff_time:
-                if entry.is_dir(follow_symlinks=False):
-                    shutil.rmtree(entry.path)
-                else:
-                    os.remove(entry.path)
+        with self.remote_dir.access():
+            for entry in os.scandir(self.remote_dir.trash_dir):
+                # Moving a file changes its ctime, which also accounts for
+                # files whose mtime could not be updated when they were moved
+                # here.
+                stats = entry.stat(follow_symlinks=False)
+                if max(stats.st_mtime, stats.st_ctime) <= cutoff_time:
+                    if entry.is_dir(follow_symlinks=False):
+                        shutil.rmtree(entry.path)
+                    else:
+                        os.remove(entry.path)
 
     def get_excluded_size(self) -> int:
         """Get the disk usage of all excluded local files.
diff --git a/zielen/fstools.py b/zielen/fstools.py
index fd31bbc..b0af1a6 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -72,6 +72,28 @@ def rm_partial_files(path: str) -> None:
             rm_partial_files(entry.path)
 
 
+def make_dirs(root: str, rel_path: str) -> None:
+    """Create a directory, including parent directories, under another one.
+
+    The parent directories of the root directory are not created if they don't
+    exist, as they could be in the mountpoint of an unmounted filesystem.
+
+    Args:
+        root: The path of the directory to create the new one in.
+        rel_path: The path of the new directory relative to the root.
+    """
+    try:
+        os.mkdir(os.path.join(root, rel_path))
+    except FileNotFoundError:
+        if not rel_path:
+            raise
+        make_dirs(root, os.path.dirname(rel_path))
+        os.mkdir(os.path.join(root, rel_path))
+    except FileExistsError:
+        if not os.path.isdir(os.path.join(root, rel_path)):
+            raise
+
+
 def transfer_tree(
         source: str, dest: str, files=None, exclude=None,
         message="", rm_source=False) -> None:
@@ -139,12 +161,13 @@ def transfer_tree(
         transferred_size = 0
         transfer_bar = ProgressBar(PROGRESS_BAR_LENGTH, message=message)
 
-    for source_path, dest_path in zip(source_paths, dest_paths):
-        os.makedirs(os.path.dirname(dest_path), exist_ok=True)
+    for rel_path, source_path, dest_path in zip(
+            rel_paths, source_paths, dest_paths):
+        make_dirs(dest, os.path.dirname(rel_path))
         try:
             copy_file(source_path, dest_path)
         except IsADirectoryError:
-            os.makedirs(dest_path, exist_ok=True)
+            make_dirs(dest, rel_path)
         except PermissionError:
             raise FileTransferError("permission denied: {0}".format(
                 os.path.relpath(source_path, source)))
diff --git a/zielen/userdata.py b/zielen/userdata.py
index 641d273..cb1d4dd 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -21,12 +21,13 @@ import os
 import shutil
 import sqlite3
 import time
+import contextlib
 from typing import (
     Tuple, Iterable, List, Dict, NamedTuple, Generator, Union, Set)
 
 from zielen.exceptions import RemoteError
 from zielen.containerbase import SyncDBFile
-from zielen.fstools import scan_tree
+from zielen.fstools import PARTIAL_NAME, copy_file, scan_tree
 from zielen.profile import ProfileExcludeFile
 from zielen.utils import FactoryDict, secure_string
 
@@ -38,10 +39,12 @@ class SyncDir:
 
     Attributes:
         path: The directory path without a trailing slash.
+        safe_path: The path used to access the contents of the directory.
     """
 
     def __init__(self, path: str) -> None:
         self.path = path.rstrip(os.sep)
+        self.safe_path = self.path
         self._sub_entries = []
 
     def scan_paths(
@@ -73,7 +76,7 @@ class SyncDir:
             def lookup_stat(path: str) -> os.stat_result:
                 full_path = os.path.join(self.path, path)
                 for entry, rel_path in self._sub_entries:
-                    if entry.path == full_path:
+                    if rel_path == path:
                         return entry.stat()
                 return os.stat(full_path, follow_symlinks=False)
 
@@ -83,7 +86,7 @@ class SyncDir:
 
         if not memoize or not self._sub_entries:
             self._sub_entries = []
-            for entry in scan_tree(self.path):
+            for entry in scan_tree(self.safe_path):
                 # Computing the relative path is expensive to do each time.
                 rel_path = os.path.relpath(entry.path, self.path)
                 self._sub_entries.append((entry, rel_path))
@@ -101,7 +104,8 @@ class SyncDir:
                 if rel:
                     output[rel_path] = entry.stat(follow_symlinks=False)
                 else:
-                    output[entry.path] = entry.stat(follow_symlinks=False)
+                    full_path = os.path.join(self.path, rel_path)
+                    output[full_path] = entry.stat(follow_symlinks=False)
 
         return output
 
@@ -153,7 +157,8 @@ class RemoteSyncDir(SyncDir):
     def __init__(self, path: str) -> None:
         super().__init__(path)
         self.util_dir = os.path.join(self.path, ".zielen")
-        self.safe_path = os.path.normpath(os.path.join(self.util_dir, ".."))
+        # Normalizing this path would defeat its purpose.
+        self.safe_path = os.path.join(self.util_dir, "..")
         self.trash_dir = os.path.join(self.util_dir, "Trash")
         self._exclude_dir = os.path.join(self.util_dir, "exclude")
         self._db_file = RemoteDBFile(os.path.join(self.util_dir, "remote.db"))
@@ -164,6 +169,22 @@ class RemoteSyncDir(SyncDir):
         self.rm_paths = self._db_file.rm_paths
         self.get_path_info = self._db_file.get_path_info
         self.get_paths = self._db_file.get_paths
+        self.begin = self._db_file.begin
+
+    @contextlib.contextmanager
+    def access(self) -> Generator[None, None, None]:
+        """Check if the directory is there whenever a file is missing.
+
+        Raises:
+            RemoteError: The remote directory is unmounted.
+        """
+        try:
+            yield
+        except FileNotFoundError:
+            if not os.path.isdir(self.util_dir):
+                raise RemoteError("the remote directory could not be found")
+            else:
+                raise
 
     def generate(self) -> None:
         """Generate files for storing persistent data."""
@@ -191,7 +212,7 @@ class RemoteSyncDir(SyncDir):
             profile_id: A unique ID for the profile.
         """
         try:
-            shutil.copy(filepath, os.path.join(self._exclude_dir, profile_id))
+            copy_file(filepath, os.path.join(self._exclude_dir, profile_id))
         except FileNotFoundError:
             if not os.path.isdir(self.util_dir):
                 raise RemoteError("the remote directory could not be found")
@@ -222,8 +243,10 @@ class RemoteSyncDir(SyncDir):
             The subset of input paths that have been excluded by each client.
         """
         pattern_files = []
-        for entry in os.scandir(self._exclude_dir):
-            pattern_files.append(ProfileExcludeFile(entry.path))
+        with self.access():
+            for entry in os.scandir(self._exclude_dir):
+                if entry.name != PARTIAL_NAME:
+                    pattern_files.append(ProfileExcludeFile(entry.path))
 
         rm_files = set()
         for path in paths:
@@ -240,9 +263,10 @@ class RemoteSyncDir(SyncDir):
             memoize=True, lookup=True):
         """Extend parent method to automatically exclude the util directory."""
         rel_util_path = os.path.relpath(self.util_dir, self.path)
-        output = super().scan_paths(
-            rel=rel, files=files, symlinks=symlinks, dirs=dirs,
-            exclude=exclude, memoize=memoize)
+        with self.access():
+            output = super().scan_paths(
+                rel=rel, files=files, symlinks=symlinks, dirs=dirs,
+                exclude=exclude, memoize=memoize)
         output = {
             path: stats for path, stats in output.items()
             if os.path.commonpath((path, rel_util_path)) != rel_util_path}
-- 
2.43.0


From ccb3893c31ac1e20027ba03b19e5f8dff90f4fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 12/38] fix: never overwrite or remove excluded local files

---
 zielen/commands/sync.py |  5 +++-
 zielen/filelogic.py     | 66 ++++++++++++++++++++++++++++++++++++-----
 zielen/profile.py       |  6 ++--
 3 files changed, 67 insertions(+), 10 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 1d2d3cb..9191974 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -67,7 +67,6 @@ class SyncCommand(Command):
         # complete.
         self.remote_dir.begin()
         self.profile.begin()
-        self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)
 
         # Remove what an interrupted sync may have left behind.
         rm_partial_files(self.local_dir.path)
@@ -139,6 +138,10 @@ class SyncCommand(Command):
         # with symlinks.
         fm.update_local(selected_dirs | selected_files | remote_excluded_files)
 
+        # Now that there are local copies of all excluded files, let other
+        # clients know that they are excluded.
+        self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)
+
         # Remove excluded files that are still in the remote directory.
         fm.rm_excluded_files(remote_excluded_files)
 
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 294b255..9186033 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -360,6 +360,8 @@ class FilesManager:
     def update_local(self, update_paths: Iterable[str]) -> None:
         """Update the local directory with remote files.
 
+        Excluded local files that are not synced are not overwritten.
+
         Args:
             update_paths: The paths of files and directories to copy from the
                 remote directory to the local one. All other files in the local
@@ -387,6 +389,7 @@ class FilesManager:
             transfer_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 files=update_paths,
+                exclude=self._get_unsynced_files(),
                 message="Updating local files...")
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
@@ -419,6 +422,7 @@ class FilesManager:
                 files=update_paths,
                 exclude=(
                     self.profile.all_exclude_matches(self.local_dir.path)
+                    - self.profile.get_paths().keys()
                     | self._get_unsafe_symlinks()),
                 message="Updating remote files...")
         except FileNotFoundError:
@@ -439,6 +443,32 @@ class FilesManager:
                 os.path.join(self.local_dir.path, link_path),
                 self.local_dir.path)}
 
+    def _get_placeholders(self) -> Set[str]:
+        """Get the relative paths of local symlinks to remote files."""
+        placeholders = set()
+        for link_path in self.local_dir.scan_paths(
+                files=False, dirs=False).keys():
+            try:
+                link_dest = os.readlink(
+                    os.path.join(self.local_dir.path, link_path))
+            except OSError:
+                # The file is no longer there or no longer a symlink.
+                continue
+            if link_dest == os.path.join(self.remote_dir.path, link_path):
+                placeholders.add(link_path)
+        return placeholders
+
+    def _get_unsynced_files(self) -> Set[str]:
+        """Get the relative paths of excluded local files not in the database.
+
+        Files with these paths may exist in the remote directory, as other
+        clients might not exclude them.
+        """
+        excluded_paths = self.profile.all_exclude_matches(self.local_dir.path)
+        return (
+            excluded_paths & self.local_dir.scan_paths(dirs=False).keys()
+            - self._get_placeholders() - self.profile.get_paths().keys())
+
     def _setup_dir(self, unsafe_symlinks: Set[str]) -> None:
         """Add file paths to both databases and overwrite with symlinks.
 
@@ -457,7 +487,8 @@ class FilesManager:
         # remote dir.
         symlink_tree(
             self.remote_dir.path, self.local_dir.path,
-            self.profile.get_paths(directory=False),
+            (self.profile.get_paths(directory=False).keys()
+             - self.profile.all_exclude_matches(self.local_dir.path)),
             self.profile.get_paths(directory=True),
             overwrite=True)
 
@@ -604,7 +635,8 @@ class FilesManager:
         to be new if it is not in the local database. A local file that has
         been modified, or a local directory in which something has been added
         or modified, is also considered to be new if it has been deleted from
-        the remote directory.
+        the remote directory. Excluded local files are not considered to be
+        new, and neither are remote files with the same path.
 
         Returns:
             A named tuple containing two sets of relative paths of files
@@ -625,6 +657,7 @@ class FilesManager:
         new_remote_paths = {
             path for path in self.remote_dir.scan_paths().keys()
             if not self.profile.get_path_info(path)}
+        new_remote_paths -= self._get_unsynced_files()
 
         return UpdatedPaths(new_local_paths, new_remote_paths)
 
@@ -632,7 +665,9 @@ class FilesManager:
         """Get paths which must not be deleted to sync the two directories.
 
         Adding or modifying a file on one side takes precedence over deleting
-        it, or a directory that contains it, on the other side.
+        it, or a directory that contains it, on the other side. So does
+        excluding a local file, except that there is no need to keep the file
+        itself in the database.
 
         Returns:
             A named tuple containing two sets of relative paths in the local
@@ -643,6 +678,11 @@ class FilesManager:
         mod_paths = self.compute_modified()
         local_paths = (
             self.local_dir.scan_paths().keys() - known_paths | mod_paths.local)
+        excluded_paths = self.profile.all_exclude_matches(self.local_dir.path)
+        local_paths -= excluded_paths
+        local_paths |= {
+            os.path.dirname(path) for path in excluded_paths
+            if os.path.dirname(path)}
         remote_paths = (
             self.remote_dir.scan_paths().keys() - known_paths
             | mod_paths.remote)
@@ -824,8 +864,18 @@ class FilesManager:
             paths: The relative paths of files to remove.
         """
         paths = set(paths)
-        paths -= self.profile.all_exclude_matches(self.local_dir.path)
-        self._rm_files(paths, self.local_dir.path)
+        excluded_paths = (
+            paths & self.profile.all_exclude_matches(self.local_dir.path))
+
+        # Symlinks to remote files that no longer exist are of no use.
+        stale_paths = self._get_placeholders().intersection(
+            sub_path for path in excluded_paths
+            for sub_path in self.profile.get_paths(root=path))
+        self._rm_files(
+            paths - excluded_paths | stale_paths, self.local_dir.path)
+
+        self.profile.rm_paths(excluded_paths)
+        self.remote_dir.rm_paths(excluded_paths)
 
     def rm_remote_files(self, paths: Iterable[str]) -> None:
         """Delete remote files and remove them from both databases.
@@ -925,7 +975,9 @@ class FilesManager:
         Returns:
             The disk usage as a number of bytes.
         """
+        local_stats = self.local_dir.scan_paths()
         total_excluded_size = sum(
-            self.local_dir.scan_paths()[path].st_blocks * 512
-            for path in self.profile.all_exclude_matches(self.local_dir.path))
+            local_stats[path].st_blocks * 512
+            for path in self.profile.all_exclude_matches(self.local_dir.path)
+            & local_stats.keys())
         return total_excluded_size
diff --git a/zielen/profile.py b/zielen/profile.py
index d7b41b7..b6fe93d 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -381,10 +381,12 @@ class ProfileExcludeFile:
             if not line:
                 continue
             if line.startswith("/"):
-                glob_str = os.path.join(start_path, line.lstrip("/"))
+                glob_str = os.path.join(
+                    glob.escape(start_path), line.lstrip("/"))
             else:
                 # Glob patterns without a leading slash search the whole tree.
-                glob_str = os.path.join(start_path, "**", line)
+                glob_str = os.path.join(
+                    glob.escape(start_path), "**", line)
 
             for match_path in glob.glob(glob_str, recursive=True):
                 rel_match_path = os.path.relpath(match_path, start_path)
-- 
2.43.0


From 9741f06c8e5c0f4b5287c512451ba6c3420cfafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 13/38] fix: leave symlinks that can't be synced alone on both
 sides and never act through them

---
 zielen/commands/sync.py |  8 +++++-
 zielen/filelogic.py     | 55 ++++++++++++++++++++++++++---------------
 zielen/fstools.py       | 19 ++++++++++++++
 3 files changed, 61 insertions(+), 21 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 9191974..4374da1 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -81,6 +81,11 @@ class SyncCommand(Command):
             self.local_dir.scan_paths(files=False, symlinks=False).keys()
             | self.remote_dir.scan_paths(files=False, symlinks=False).keys())
 
+        # Forget about paths under which there now is a symlink that can't be
+        # synced.
+        foreign_links = fm.get_foreign_links()
+        self.profile.rm_paths(foreign_links)
+
         # Get the paths of files that have been added, deleted or modified
         # since the last sync.
         new_paths = fm.compute_added()
@@ -125,7 +130,8 @@ class SyncCommand(Command):
         # Calculate which excluded files are still in the remote directory.
         remote_excluded_files = (
             self.profile.all_exclude_matches(self.local_dir.path)
-            & self.remote_dir.scan_paths().keys())
+            & self.remote_dir.scan_paths().keys()
+            - foreign_links)
 
         # Decide which files and directories to keep in the local directory.
         remaining_space = self.profile.storage_limit - fm.get_excluded_size()
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 9186033..6a0ce75 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -28,7 +28,8 @@ from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
 from zielen.utils import get_path_ancestry, timestamp_path
 from zielen.fstools import (
-    is_unsafe_symlink, symlink_tree, transfer_tree, update_mtime)
+    has_symlink_parent, is_unsafe_symlink, symlink_tree, transfer_tree,
+    update_mtime)
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -389,7 +390,7 @@ class FilesManager:
             transfer_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 files=update_paths,
-                exclude=self._get_unsynced_files(),
+                exclude=self._get_unsynced_files() | self.get_foreign_links(),
                 message="Updating local files...")
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
@@ -423,7 +424,8 @@ class FilesManager:
                 exclude=(
                     self.profile.all_exclude_matches(self.local_dir.path)
                     - self.profile.get_paths().keys()
-                    | self._get_unsafe_symlinks()),
+                    | self._get_unsafe_symlinks()
+                    | self.get_foreign_links()),
                 message="Updating remote files...")
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
@@ -458,6 +460,23 @@ class FilesManager:
                 placeholders.add(link_path)
         return placeholders
 
+    def get_foreign_links(self) -> Set[str]:
+        """Get the relative paths of local and remote symlinks to leave alone.
+
+        These are all symlinks that can't be synced, except for the ones in the
+        local directory that stand for a remote file. Nothing is synced under
+        these paths.
+        """
+        remote_links = {
+            link_path for link_path in self.remote_dir.scan_paths(
+                files=False, dirs=False).keys()
+            if is_unsafe_symlink(
+                os.path.join(self.remote_dir.path, link_path),
+                self.remote_dir.path)}
+        return (
+            self._get_unsafe_symlinks() - self._get_placeholders()
+            | remote_links)
+
     def _get_unsynced_files(self) -> Set[str]:
         """Get the relative paths of excluded local files not in the database.
 
@@ -469,14 +488,10 @@ class FilesManager:
             excluded_paths & self.local_dir.scan_paths(dirs=False).keys()
             - self._get_placeholders() - self.profile.get_paths().keys())
 
-    def _setup_dir(self, unsafe_symlinks: Set[str]) -> None:
-        """Add file paths to both databases and overwrite with symlinks.
-
-        Args:
-            unsafe_symlinks: The paths of symlinks that should not be included.
-        """
+    def _setup_dir(self) -> None:
+        """Add file paths to both databases and overwrite with symlinks."""
         remote_files = self.remote_dir.scan_paths(
-            dirs=False).keys() - unsafe_symlinks
+            dirs=False).keys() - self.get_foreign_links()
         remote_dirs = self.remote_dir.scan_paths(
             files=False, symlinks=False).keys()
 
@@ -515,18 +530,11 @@ class FilesManager:
             else:
                 raise
 
-        self._setup_dir(unsafe_symlinks)
+        self._setup_dir()
 
     def setup_from_remote(self) -> None:
         """Symlink initial remote files to the local directory."""
-        unsafe_symlinks = {
-            link_path for link_path in self.remote_dir.scan_paths(
-                files=False, dirs=False).keys()
-            if is_unsafe_symlink(
-                os.path.join(self.remote_dir.path, link_path),
-                self.remote_dir.path)}
-
-        self._setup_dir(unsafe_symlinks)
+        self._setup_dir()
 
     def handle_conflicts(
             self, local_paths: Iterable[str], remote_paths: Iterable[str]
@@ -659,7 +667,9 @@ class FilesManager:
             if not self.profile.get_path_info(path)}
         new_remote_paths -= self._get_unsynced_files()
 
-        return UpdatedPaths(new_local_paths, new_remote_paths)
+        foreign_links = self.get_foreign_links()
+        return UpdatedPaths(
+            new_local_paths - foreign_links, new_remote_paths - foreign_links)
 
     def _get_kept_paths(self) -> UpdatedPaths:
         """Get paths which must not be deleted to sync the two directories.
@@ -842,6 +852,9 @@ class FilesManager:
         """
         for path in paths:
             full_path = os.path.join(parent_dir, path)
+            if has_symlink_parent(parent_dir, path):
+                # This is not the file that was synced.
+                continue
             try:
                 os.remove(full_path)
             except IsADirectoryError:
@@ -942,6 +955,8 @@ class FilesManager:
             abs_old_path = os.path.join(self.remote_dir.safe_path, old_path)
             abs_new_path = os.path.join(
                 self.remote_dir.trash_dir, new_filename)
+            if has_symlink_parent(self.remote_dir.safe_path, old_path):
+                continue
             try:
                 os.rename(abs_old_path, abs_new_path)
                 update_mtime(abs_new_path)
diff --git a/zielen/fstools.py b/zielen/fstools.py
index b0af1a6..9711d3e 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -94,6 +94,19 @@ def make_dirs(root: str, rel_path: str) -> None:
             raise
 
 
+def has_symlink_parent(root: str, rel_path: str) -> bool:
+    """Check if the path of a file in a directory leads through a symlink.
+
+    Args:
+        root: The path of the directory.
+        rel_path: The path of the file relative to the directory.
+    """
+    parent = os.path.dirname(rel_path)
+    return bool(parent) and (
+        os.path.islink(os.path.join(root, parent))
+        or has_symlink_parent(root, parent))
+
+
 def transfer_tree(
         source: str, dest: str, files=None, exclude=None,
         message="", rm_source=False) -> None:
@@ -163,6 +176,9 @@ def transfer_tree(
 
     for rel_path, source_path, dest_path in zip(
             rel_paths, source_paths, dest_paths):
+        if has_symlink_parent(dest, rel_path):
+            raise FileTransferError("not a directory: {0}".format(
+                os.path.dirname(rel_path)))
         make_dirs(dest, os.path.dirname(rel_path))
         try:
             copy_file(source_path, dest_path)
@@ -226,6 +242,9 @@ def symlink_tree(
     for src_path in src_paths:
         full_src_path = os.path.join(src_dir, src_path)
         full_dest_path = os.path.join(dest_dir, src_path)
+        if has_symlink_parent(dest_dir, src_path):
+            raise FileTransferError("not a directory: {0}".format(
+                os.path.dirname(src_path)))
         if src_path in src_dirs:
             try:
                 os.mkdir(full_dest_path)
-- 
2.43.0


From 0600d1111a8438701c04939225fd772485dc89ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 14/38] fix: retrieve the remote files as they are and allow a
 reset to be resumed

---
 zielen/commandbase.py    |   7 ++
 zielen/commands/init.py  |   2 +
 zielen/commands/reset.py | 147 ++++++++++++++++++++++++---------------
 zielen/filelogic.py      | 135 ++++++++++++++++++++++++++++++++---
 zielen/fstools.py        |  12 ++++
 zielen/profile.py        |   8 ++-
 zielen/userdata.py       |   6 ++
 7 files changed, 246 insertions(+), 71 deletions(-)

diff --git a/zielen/commandbase.py b/zielen/commandbase.py
index a92a95e..3f74e27 100644
--- a/zielen/commandbase.py
+++ b/zielen/commandbase.py
@@ -49,12 +49,17 @@ class Command(abc.ABC):
     """Base class for program commands.
 
     Attributes:
+        INTERRUPTED_RESET_MSG: The message for profiles in between states.
         profiles: A dictionary of Profile instances.
         profile: The currently selected profile.
         local_dir: A LocalSyncDir object representing the local directory.
         remote_dir: A RemoteSyncDir object representing the remote directory.
         lock_socket: A unix domain socket used for locking a profile.
     """
+    INTERRUPTED_RESET_MSG = (
+        "resetting this profile was interrupted, run 'zielen reset' to "
+        "complete it")
+
     def __init__(self) -> None:
         os.makedirs(get_profiles_dir(), exist_ok=True)
         self.profiles = {
@@ -120,6 +125,8 @@ class Command(abc.ABC):
         if self.profile.status not in statuses:
             if self.profile.status == "partial":
                 atexit.register(self.print_interrupt_msg)
+            elif self.profile.status in ("resetting", "removed"):
+                raise InputError(self.INTERRUPTED_RESET_MSG)
             raise InputError("invalid profile")
 
         self.local_dir = LocalSyncDir(self.profile.local_path)
diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index f7240fb..2bd2bce 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -94,6 +94,8 @@ class InitCommand(Command):
         # Check if the profile has already been initialized.
         if self.profile.status == "initialized":
             raise InputError("this profile already exists")
+        elif self.profile.status in ("resetting", "removed"):
+            raise InputError(self.INTERRUPTED_RESET_MSG)
 
         # Check whether an interrupted initialization is being resumed.
         if self.profile.status == "partial":
diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index 0b891cd..e7f6e21 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -18,11 +18,12 @@ You should have received a copy of the GNU General Public License
 along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 """
 import os
-import shutil
+import errno
+from typing import Set
 
-from zielen.exceptions import (
-    RemoteError, AvailableSpaceError, FileTransferError)
-from zielen.fstools import transfer_tree
+from zielen.exceptions import FileTransferError
+from zielen.filelogic import FilesManager
+from zielen.fstools import rm_partial_files
 from zielen.commandbase import Command, unlock
 
 
@@ -48,64 +49,94 @@ class ResetCommand(Command):
         Raises:
             RemoteError: The remote directory could not be found.
         """
-        self.setup_profile()
+        self.setup_profile(
+            statuses=("initialized", "partial", "resetting", "removed"))
+        fm = FilesManager(self.local_dir, self.remote_dir, self.profile)
 
-        if not self.no_retrieve:
-            # Check if there is enough space locally to accommodate remote
-            # files.
-            if self.remote_dir.disk_usage() > self.local_dir.space_avail():
-                raise AvailableSpaceError(
-                    "not enough local space to accommodate remote files")
+        if self.profile.status != "removed":
+            self._reset(fm)
+        elif os.path.isdir(self.remote_dir.util_dir):
+            self.remote_dir.delete()
 
-            # Retrieve remote files.
-            try:
-                transfer_tree(
-                    self.remote_dir.safe_path, self.local_dir.path,
-                    files=self.remote_dir.get_paths(),
-                    message="Retrieving files...",
-                    rm_source=not self.keep_remote)
-            except FileNotFoundError:
-                if not os.path.isdir(self.remote_dir.util_dir):
-                    raise RemoteError(
-                        "the remote directory could not be found")
-                else:
-                    raise
+        self.remote_dir.rm_exclude_file(self.profile.id)
+        self.profile.delete()
 
-            if not self.keep_remote:
-                # Check that the remote directory contains only empty
-                # directories and the util directory.
-                if self.remote_dir.scan_paths(dirs=False, memoize=False):
-                    raise FileTransferError("some files were not retrieved")
-
-                # Close the database connection, and then remove the
-                # contents of the remote directory. If the database
-                # connection is not closed, the util directory will not be
-                # able to be deleted.
-                self.remote_dir.close()
-                try:
-                    for entry in os.scandir(self.remote_dir.path):
-                        if entry.is_dir:
-                            shutil.rmtree(entry.path)
-                        else:
-                            os.remove(entry.path)
-                except FileNotFoundError:
-                    pass
-                # The util directory is missing on purpose.
-                self.remote_dir.safe_path = self.remote_dir.path
+    def _reset(self, fm: FilesManager) -> None:
+        """Retrieve files and remove symlinks.
+
+        Args:
+            fm: The FilesManager object for the profile.
+        """
+        # An initialization may have been interrupted before there was a remote
+        # directory.
+        retrieve = not self.no_retrieve and (
+            self.profile.status != "partial"
+            or os.path.isdir(self.remote_dir.util_dir)
+            or bool(fm.get_placeholders()))
+
+        remote_files = set()
+        if retrieve:
+            # The initialization may have been interrupted before there was
+            # a database.
+            if self.profile.status == "partial" and os.path.isdir(
+                    self.remote_dir.util_dir):
+                self.remote_dir.generate()
+
+            # Keep other clients out of the remote directory.
+            self.remote_dir.begin()
+
+            # Retrieve remote files.
+            rm_partial_files(self.local_dir.path)
+            with self.remote_dir.access():
+                rm_partial_files(self.remote_dir.safe_path)
+                remote_files = fm.retrieve_files()
+
+        # From now on, the only thing that can be done with the profile is to
+        # complete the reset. A sync would take files that have been removed by
+        # the reset for files that have been deleted by the user.
+        self.profile.begin()
+        self.profile.read_info()
+        self.profile.status = "resetting"
+        self.profile.write()
 
         # Remove non-user-created symlinks from the local directory. These
         # are symlinks that point to the remote directory.
-        local_symlinks = self.local_dir.scan_paths(
-            files=False, dirs=False).keys()
-        for rel_path in local_symlinks:
-            full_path = os.path.join(self.local_dir.path, rel_path)
-            link_dest = os.readlink(full_path)
-            if not os.path.isabs(link_dest):
-                link_dest = os.path.join(os.path.dirname(full_path), link_dest)
-            if os.path.commonpath([
-                    link_dest,
-                    self.remote_dir.path]) == self.remote_dir.path:
-                os.remove(full_path)
+        for rel_path in fm.get_placeholders():
+            os.remove(os.path.join(self.local_dir.path, rel_path))
 
-        self.remote_dir.rm_exclude_file(self.profile.id)
-        self.profile.delete()
+        if retrieve and not self.keep_remote:
+            with self.remote_dir.access():
+                self._rm_remote(remote_files, fm)
+
+    def _rm_remote(self, remote_files: Set[str], fm: FilesManager) -> None:
+        """Remove retrieved files and the util directory from the remote.
+
+        Args:
+            remote_files: The relative paths of files that were retrieved.
+            fm: The FilesManager object for the profile.
+        """
+        remote_dirs = self.remote_dir.scan_paths(
+            files=False, symlinks=False).keys()
+        for path in remote_files:
+            os.remove(os.path.join(self.remote_dir.safe_path, path))
+        for path in sorted(remote_dirs, reverse=True):
+            try:
+                os.rmdir(os.path.join(self.remote_dir.safe_path, path))
+            except OSError as error:
+                # There are symlinks left which can't be retrieved.
+                if error.errno != errno.ENOTEMPTY:
+                    raise
+
+        # Check that the remote directory contains only what can't be retrieved
+        # and the util directory.
+        if (self.remote_dir.scan_paths(dirs=False, memoize=False).keys()
+                - fm.get_foreign_links()):
+            raise FileTransferError("some files were not retrieved")
+
+        # Close the database connection, and then remove the util directory. If
+        # the database connection is not closed, the util directory will not be
+        # able to be deleted.
+        self.remote_dir.close()
+        self.profile.status = "removed"
+        self.profile.write()
+        self.remote_dir.delete()
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 6a0ce75..670ecc6 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -19,6 +19,7 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 """
 import os
 import copy
+import stat
 import time
 import shutil
 from typing import Iterable, Tuple, Set, NamedTuple
@@ -28,8 +29,8 @@ from zielen.profile import Profile, ProfileExcludeFile
 from zielen.userdata import LocalSyncDir, RemoteSyncDir
 from zielen.utils import get_path_ancestry, timestamp_path
 from zielen.fstools import (
-    has_symlink_parent, is_unsafe_symlink, symlink_tree, transfer_tree,
-    update_mtime)
+    copy_file, has_symlink_parent, is_same_file, is_unsafe_symlink, make_dirs,
+    symlink_tree, transfer_tree, update_mtime)
 
 DeletedPaths = NamedTuple(
     "DeletedPaths",
@@ -536,6 +537,126 @@ class FilesManager:
         """Symlink initial remote files to the local directory."""
         self._setup_dir()
 
+    def retrieve_files(self) -> Set[str]:
+        """Copy all remote files to the local directory.
+
+        Files are retrieved unless they're already in the local directory.
+        Local changes are kept. A file that has been changed on both sides is
+        handled as a conflict, but no file in the remote directory is changed.
+
+        Returns:
+            The relative paths of the remote files of which there now is a copy
+            in the local directory.
+        """
+        local_stats = self.local_dir.scan_paths(lookup=False)
+        remote_stats = self.remote_dir.scan_paths(dirs=False)
+        remote_dirs = self.remote_dir.scan_paths(files=False, symlinks=False)
+        placeholders = self._get_placeholders()
+        unsafe_symlinks = self._get_unsafe_symlinks()
+        for path in list(remote_stats):
+            if is_unsafe_symlink(
+                    os.path.join(self.remote_dir.path, path),
+                    self.remote_dir.path):
+                del remote_stats[path]
+
+        # If there hasn't been a sync, it's unknown which files have changed.
+        known_paths = set()
+        mod_paths = UpdatedPaths(set(), set())
+        if self.profile.last_sync is not None:
+            known_paths = self.profile.get_paths().keys()
+            mod_paths = self.compute_modified()
+
+        used_paths = local_stats.keys() | remote_stats.keys()
+        retrieve_paths = set()
+        rename_paths = []
+        conflict_paths = []
+        for path, remote_stat in remote_stats.items():
+            local_stat = local_stats.get(path)
+            if local_stat is None or path in placeholders:
+                retrieve_paths.add(path)
+                continue
+            if path not in unsafe_symlinks and not stat.S_ISDIR(
+                    local_stat.st_mode):
+                if is_same_file(
+                        os.path.join(self.local_dir.path, path),
+                        os.path.join(self.remote_dir.safe_path, path)):
+                    continue
+                elif path in known_paths - mod_paths.local:
+                    retrieve_paths.add(path)
+                    continue
+                elif path in known_paths - mod_paths.remote:
+                    continue
+                elif local_stat.st_mtime < remote_stat.st_mtime:
+                    rename_paths.append(
+                        (path, self._conflict_path(path, used_paths)))
+                    retrieve_paths.add(path)
+                    continue
+            conflict_paths.append(
+                (path, self._conflict_path(path, used_paths)))
+
+        # Check if there is enough space locally to accommodate remote files.
+        retrieved_size = sum(
+            remote_stats[path].st_blocks * 512 for path in
+            retrieve_paths.union(path for path, _ in conflict_paths))
+        if retrieved_size > self.local_dir.space_avail():
+            raise AvailableSpaceError(
+                "not enough local space to accommodate remote files")
+
+        for path, new_path in rename_paths:
+            os.rename(
+                os.path.join(self.local_dir.path, path),
+                os.path.join(self.local_dir.path, new_path))
+        for path, new_path in conflict_paths:
+            copy_file(
+                os.path.join(self.remote_dir.safe_path, path),
+                os.path.join(self.local_dir.path, new_path))
+        transfer_tree(
+            self.remote_dir.safe_path, self.local_dir.path,
+            files=retrieve_paths, message="Retrieving files...")
+        for path in remote_dirs:
+            make_dirs(self.local_dir.path, path)
+
+        return set(remote_stats)
+
+    @staticmethod
+    def _conflict_path(path: str, used_paths: Set[str]) -> str:
+        """Get an unused path for a file that is part of a conflict.
+
+        Args:
+            path: The relative path of the file.
+            used_paths: The relative paths in use. The new one is added.
+
+        Returns:
+            The new relative path.
+        """
+        # Conflicts can occur more than once in the same second.
+        conflict_path = timestamp_path(path, keyword="conflict")
+        new_path = conflict_path
+        path_counter = 0
+        name, extension = os.path.splitext(conflict_path)
+        while new_path in used_paths:
+            path_counter += 1
+            new_path = "{0}({1}){2}".format(name, path_counter, extension)
+        used_paths.add(new_path)
+        return new_path
+
+    def get_placeholders(self) -> Set[str]:
+        """Get the relative paths of local symlinks into the remote directory.
+
+        These are the symlinks that stand for remote files, but also ones that
+        have been moved.
+        """
+        placeholders = set()
+        for link_path in self.local_dir.scan_paths(
+                files=False, dirs=False, memoize=False).keys():
+            full_path = os.path.join(self.local_dir.path, link_path)
+            link_dest = os.path.normpath(os.path.join(
+                os.path.dirname(full_path), os.readlink(full_path)))
+            if os.path.commonpath([
+                    link_dest, self.remote_dir.path]) == self.remote_dir.path:
+                placeholders.add(link_path)
+        return placeholders
+
     def handle_conflicts(
             self, local_paths: Iterable[str], remote_paths: Iterable[str]
             ) -> UpdatedPaths:
@@ -573,15 +694,7 @@ class FilesManager:
 
         used_paths = local_mtimes.keys() | remote_mtimes.keys()
         for path in conflict_paths:
-            # Conflicts can occur more than once in the same second.
-            conflict_path = timestamp_path(path, keyword="conflict")
-            new_path = conflict_path
-            path_counter = 0
-            name, extension = os.path.splitext(conflict_path)
-            while new_path in used_paths:
-                path_counter += 1
-                new_path = "{0}({1}){2}".format(name, path_counter, extension)
-            used_paths.add(new_path)
+            new_path = self._conflict_path(path, used_paths)
 
             path_data = self.profile.get_path_info(path)
             if path_data and path_data.directory:
diff --git a/zielen/fstools.py b/zielen/fstools.py
index 9711d3e..8464556 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -19,6 +19,7 @@ along with zielen.  If not, see <http://www.gnu.org/licenses/>.
 """
 import os
 import sys
+import stat
 import shutil
 from typing import Iterable, Optional, Set
 
@@ -59,6 +60,17 @@ def copy_file(source_path: str, dest_path: str) -> None:
         raise
 
 
+def is_same_file(path1: str, path2: str) -> bool:
+    """Check if one file or symlink is a copy of another one."""
+    stat1, stat2 = os.lstat(path1), os.lstat(path2)
+    if stat.S_IFMT(stat1.st_mode) != stat.S_IFMT(stat2.st_mode):
+        return False
+    if stat.S_ISLNK(stat1.st_mode):
+        return os.readlink(path1) == os.readlink(path2)
+    return (
+        stat1.st_size == stat2.st_size and stat1.st_mtime == stat2.st_mtime)
+
+
 def rm_partial_files(path: str) -> None:
     """Remove what interrupted transfers have left in a directory tree.
 
diff --git a/zielen/profile.py b/zielen/profile.py
index b6fe93d..1bc5478 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -157,6 +157,8 @@ class Profile:
 
         "initialized": Fully initialized.
         "partial": Partially initialized.
+        "resetting": Files or symlinks are being removed by a reset.
+        "removed": All files have been removed from the remote directory.
         """
         return self._info_file.vals["Status"]
 
@@ -181,8 +183,10 @@ class Profile:
             epoch).strftime("%Y-%m-%dT%H:%M:%S.%f")
 
     @property
-    def last_sync(self) -> float:
-        """The time of the last sync in epoch time."""
+    def last_sync(self) -> Optional[float]:
+        """The time of the last sync in epoch time, None if there is none."""
+        if self._info_file.vals["LastSync"] is None:
+            return None
         return self._convert_epoch(self._info_file.vals["LastSync"])
 
     @last_sync.setter
diff --git a/zielen/userdata.py b/zielen/userdata.py
index cb1d4dd..dc96648 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -204,6 +204,12 @@ class RemoteSyncDir(SyncDir):
         """Close all database connections."""
         self._db_file.close()
 
+    def delete(self) -> None:
+        """Delete the util directory, but not the user's files."""
+        shutil.rmtree(self.util_dir)
+        # The util directory is missing on purpose.
+        self.safe_path = self.path
+
     def add_exclude_file(self, filepath: str, profile_id: str) -> None:
         """Add a profile exclude file to the remote.
 
-- 
2.43.0


From 033c4c102c81ac123f3534538625e51f256529dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 15/38] fix: ignore the case of boolean values and units
 everywhere

---
 zielen/profile.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 1bc5478..13e6c7a 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -252,12 +252,14 @@ class Profile:
             r"^([0-9]+)\s*([KMG])(B|iB)?$",
             self._cfg_file.vals["StorageLimit"], re.IGNORECASE)[0]
 
-        if unit == "iB" or not unit:
+        # Units are not case-sensitive.
+        prefix, unit = prefix.upper(), unit.upper()
+        if unit == "IB" or not unit:
             base = 1024
         elif unit == "B":
             base = 1000
 
-        if prefix in ["k", "K"]:
+        if prefix == "K":
             exponent = 1
         elif prefix == "M":
             exponent = 2
@@ -287,9 +289,9 @@ class Profile:
 
     def _convert_bool(self, value: str) -> bool:
         """Convert a string to a bool."""
-        if value in self._cfg_file.TRUE_VALS:
+        if value.lower() in self._cfg_file.TRUE_VALS:
             return True
-        elif value in self._cfg_file.FALSE_VALS:
+        elif value.lower() in self._cfg_file.FALSE_VALS:
             return False
 
     @property
-- 
2.43.0


From da92724ea125a8e05d91bc25da11e86f511a954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 16/38] fix: let the daemon recover from a locked database

---
 zielen/containerbase.py | 4 ++++
 zielen/daemon.py        | 3 +++
 zielen/profile.py       | 1 +
 3 files changed, 8 insertions(+)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 9cb039f..5962977 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -254,6 +254,10 @@ class SyncDBFile:
         """Commit the database transaction."""
         self._conn.commit()
 
+    def rollback(self) -> None:
+        """Roll back the database transaction."""
+        self._conn.rollback()
+
     def close(self) -> None:
         """Close the database connection."""
         self._conn.close()
diff --git a/zielen/daemon.py b/zielen/daemon.py
index 3ac3672..948c3ba 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -146,6 +146,9 @@ class Daemon(Command):
                 self.profile.commit()
                 self.profile.read()
             except sqlite3.OperationalError:
+                # Don't hold on to a state of the database from before the
+                # sync, as nothing can be written based on it.
+                self.profile.rollback()
                 continue
             else:
                 deduplicated_paths = []
diff --git a/zielen/profile.py b/zielen/profile.py
index 13e6c7a..bb84d7f 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -84,6 +84,7 @@ class Profile:
         self.adjust_all = self._db_file.adjust_all
         self.begin = self._db_file.begin
         self.commit = self._db_file.commit
+        self.rollback = self._db_file.rollback
         self.is_current = self._db_file.is_current
         self.read_info = self._info_file.read
 
-- 
2.43.0


From 571d0e7d654c28d564ad25396b395c1b9b3a3620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 17/38] fix: keep files changed while an initialization was
 interrupted

---
 zielen/filelogic.py | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 670ecc6..05e78d8 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -489,14 +489,37 @@ class FilesManager:
             excluded_paths & self.local_dir.scan_paths(dirs=False).keys()
             - self._get_placeholders() - self.profile.get_paths().keys())
 
-    def _setup_dir(self) -> None:
-        """Add file paths to both databases and overwrite with symlinks."""
+    def _get_changed_files(self) -> Set[str]:
+        """Get the relative paths of files that differ between the directories.
+
+        There are only such files if an initialization is being resumed and
+        they've been changed or created since it was interrupted.
+        """
+        local_paths = (
+            self.local_dir.scan_paths(dirs=False).keys()
+            - self._get_placeholders())
+        return {
+            path for path in
+            local_paths & self.remote_dir.scan_paths(dirs=False).keys()
+            if not is_same_file(
+                os.path.join(self.local_dir.path, path),
+                os.path.join(self.remote_dir.safe_path, path))}
+
+    def _setup_dir(self, changed_files: Set[str]) -> None:
+        """Add file paths to both databases and overwrite with symlinks.
+
+        Args:
+            changed_files: The relative paths of files to leave alone. As they
+                aren't added to the local database, they're handled as
+                conflicts by the first sync.
+        """
         remote_files = self.remote_dir.scan_paths(
-            dirs=False).keys() - self.get_foreign_links()
+            dirs=False, memoize=False).keys() - self.get_foreign_links()
         remote_dirs = self.remote_dir.scan_paths(
             files=False, symlinks=False).keys()
 
-        self.profile.add_paths(remote_files, remote_dirs, local=False)
+        self.profile.add_paths(
+            remote_files - changed_files, remote_dirs, local=False)
         self.remote_dir.add_paths(remote_files, remote_dirs)
 
         # Overwrite local files with symlinks to the corresponding files in the
@@ -511,6 +534,7 @@ class FilesManager:
     def setup_from_local(self) -> None:
         """Copy initial local files to remote directory and symlink back."""
         unsafe_symlinks = self._get_unsafe_symlinks()
+        changed_files = self._get_changed_files()
 
         # Check that there is enough remote space to accommodate local
         # files.
@@ -523,7 +547,7 @@ class FilesManager:
                 self.local_dir.path, self.remote_dir.safe_path,
                 exclude=(
                     self.profile.all_exclude_matches(self.local_dir.path)
-                    | unsafe_symlinks),
+                    | unsafe_symlinks | changed_files),
                 message="Moving files to remote...")
         except FileNotFoundError:
             if not os.path.isdir(self.remote_dir.util_dir):
@@ -531,11 +555,11 @@ class FilesManager:
             else:
                 raise
 
-        self._setup_dir()
+        self._setup_dir(changed_files)
 
     def setup_from_remote(self) -> None:
         """Symlink initial remote files to the local directory."""
-        self._setup_dir()
+        self._setup_dir(self._get_changed_files())
 
     def retrieve_files(self) -> Set[str]:
         """Copy all remote files to the local directory.
-- 
2.43.0


From 073cf6373c2b65378018af2996c9440c4b07ec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:14 +0000
Subject: [PATCH 18/38] fix: don't bring back excluded files removed from the
 remote directory

---
 zielen/commands/sync.py | 2 +-
 zielen/filelogic.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 4374da1..dd006b3 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -111,7 +111,7 @@ class SyncCommand(Command):
 
         # Handle syncing conflicts.
         updated_paths = fm.handle_conflicts(
-            mod_paths.local | new_paths.local,
+            mod_paths.local - del_paths.local | new_paths.local,
             mod_paths.remote | new_paths.remote)
 
         # Add any new files that have been created in the process of
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 05e78d8..37fad68 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -834,7 +834,7 @@ class FilesManager:
             self.remote_dir.scan_paths().keys() - known_paths
             | mod_paths.remote)
         return UpdatedPaths(
-            known_paths & set(get_path_ancestry(local_paths)),
+            known_paths & set(get_path_ancestry(local_paths)) - excluded_paths,
             known_paths & set(get_path_ancestry(remote_paths)))
 
     def compute_modified(self) -> UpdatedPaths:
-- 
2.43.0


From 32af762f9bf2b5fc0f5afd684c972ec71b2d9ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:23 +0000
Subject: [PATCH 19/38] fix: record updated and evicted files before a sync can
 be interrupted

---
 zielen/commands/sync.py |  6 +++++-
 zielen/containerbase.py | 12 ++++++++++++
 zielen/filelogic.py     | 26 ++++++++++++++++++++++----
 zielen/userdata.py      |  1 +
 4 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index dd006b3..b0d9bb2 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -121,8 +121,12 @@ class SyncCommand(Command):
         self.remote_dir.add_paths(updated_paths.all, [])
         self.profile.add_paths(updated_paths.all, [])
 
-        # Update the remote directory with modified local files.
+        # Update the remote directory with modified local files. Record this
+        # before any local files are replaced with symlinks. If the sync is
+        # interrupted, other clients may not notice it otherwise.
+        self.remote_dir.checkpoint()
         fm.update_remote(updated_paths.local)
+        self.remote_dir.checkpoint()
 
         # At this point, the differences between the two directories have been
         # resolved.
diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 5962977..3134caf 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -254,6 +254,18 @@ class SyncDBFile:
         """Commit the database transaction."""
         self._conn.commit()
 
+    def checkpoint(self) -> None:
+        """Commit the database transaction and begin a new one.
+
+        The database stays locked in between.
+        """
+        self._cur.execute("PRAGMA locking_mode = EXCLUSIVE")
+        self._cur.fetchall()
+        self._conn.commit()
+        self._cur.execute("PRAGMA locking_mode = NORMAL")
+        self._cur.fetchall()
+        self.begin()
+
     def rollback(self) -> None:
         """Roll back the database transaction."""
         self._conn.rollback()
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 37fad68..681472f 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -379,15 +379,25 @@ class FilesManager:
             - self._get_unsafe_symlinks())
 
         try:
-            # Replace old, unneeded files to make room for new ones.
-            symlink_tree(
-                self.remote_dir.path, self.local_dir.path,
-                stale_files, [], overwrite=True)
             symlink_tree(
                 self.remote_dir.path, self.local_dir.path,
                 self.profile.get_paths(directory=False),
                 self.profile.get_paths(directory=True))
 
+            # Now that every path in the database is also in the local
+            # directory, record which files are not going to be kept there.
+            # If they were only replaced and the sync were then interrupted,
+            # deleting one of the symlinks would be taken for deleting the file
+            # itself.
+            self.profile.update_paths(stale_files, local=False)
+            self.profile.commit()
+            self.profile.begin()
+
+            # Replace old, unneeded files to make room for new ones.
+            symlink_tree(
+                self.remote_dir.path, self.local_dir.path,
+                stale_files, [], overwrite=True)
+
             transfer_tree(
                 self.remote_dir.safe_path, self.local_dir.path,
                 files=update_paths,
@@ -723,6 +733,14 @@ class FilesManager:
             path_data = self.profile.get_path_info(path)
             if path_data and path_data.directory:
                 continue
+            elif is_same_file(
+                    os.path.join(self.local_dir.path, path),
+                    os.path.join(self.remote_dir.safe_path, path)):
+                # An interrupted sync has already copied this file. There is
+                # nothing left to do if other clients know about it.
+                if (self.remote_dir.get_path_info(path).lastsync
+                        > self.profile.last_sync):
+                    local_diff.rm([path])
             elif local_mtimes[path] < remote_mtimes[path]:
                 local_diff.rename([(path, new_path)])
             elif remote_mtimes[path] < local_mtimes[path]:
diff --git a/zielen/userdata.py b/zielen/userdata.py
index dc96648..f6da430 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -170,6 +170,7 @@ class RemoteSyncDir(SyncDir):
         self.get_path_info = self._db_file.get_path_info
         self.get_paths = self._db_file.get_paths
         self.begin = self._db_file.begin
+        self.checkpoint = self._db_file.checkpoint
 
     @contextlib.contextmanager
     def access(self) -> Generator[None, None, None]:
-- 
2.43.0


From dee9664830b4ba14ed184293e0bdad6f259605de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 20/38] fix: don't miss changes made by other clients when a
 sync ends

---
 zielen/commands/init.py | 6 ++++--
 zielen/commands/sync.py | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 2bd2bce..80e8395 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -164,10 +164,12 @@ class InitCommand(Command):
         # is shared.
         self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)
 
-        # The profile is now fully initialized. Update the profile.
+        # The profile is now fully initialized. Update the profile. Other
+        # clients can change the remote directory from here.
+        sync_time = time.time()
         self.remote_dir.write()
         self.profile.status = "initialized"
-        self.profile.last_sync = time.time()
+        self.profile.last_sync = sync_time
         self.profile.last_adjust = time.time()
         self.profile.write()
         atexit.unregister(self.print_interrupt_msg)
diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index b0d9bb2..3e01803 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -160,11 +160,12 @@ class SyncCommand(Command):
             fm.cleanup_trash()
 
         # The sync is now complete. Update the time of the last sync in the
-        # info file.
+        # info file. Other clients can change the remote directory from here.
+        sync_time = time.time()
         self.remote_dir.write()
 
         # The daemon may have written to the info file since it was last read.
         # It can't write to it now, as there is an open database transaction.
         self.profile.read_info()
-        self.profile.last_sync = time.time()
+        self.profile.last_sync = sync_time
         self.profile.write()
-- 
2.43.0


From b021c8e1eb64018441e5b07fe0f46765f4997a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 21/38] fix: don't follow symlinks that are excluded

---
 zielen/profile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zielen/profile.py b/zielen/profile.py
index bb84d7f..53a7b6c 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -399,6 +399,10 @@ class ProfileExcludeFile:
                 rel_match_path = os.path.relpath(match_path, start_path)
                 self._matches[start_path].add(rel_match_path)
                 self._all_matches[start_path].add(rel_match_path)
+                if os.path.islink(match_path):
+                    # This may be a broken symlink or lead to a directory that
+                    # is not under this one.
+                    continue
                 try:
                     for entry in scan_tree(match_path):
                         self._all_matches[start_path].add(
-- 
2.43.0


From 90f1ac67f6a53bd05786e8a10cce44b193f42ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 22/38] fix: copy excluded files before they are removed from
 the remote directory

---
 zielen/commands/sync.py |  8 +++-----
 zielen/filelogic.py     | 22 +++++++++++++++++++---
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 3e01803..266c4db 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -131,11 +131,9 @@ class SyncCommand(Command):
         # At this point, the differences between the two directories have been
         # resolved.
 
-        # Calculate which excluded files are still in the remote directory.
-        remote_excluded_files = (
-            self.profile.all_exclude_matches(self.local_dir.path)
-            & self.remote_dir.scan_paths().keys()
-            - foreign_links)
+        # Calculate which excluded files are still in the remote directory. Some
+        # of them may not be in the local directory yet.
+        remote_excluded_files = fm.get_remote_excluded() - foreign_links
 
         # Decide which files and directories to keep in the local directory.
         remaining_space = self.profile.storage_limit - fm.get_excluded_size()
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 681472f..38b0a60 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -1139,15 +1139,31 @@ class FilesManager:
                     else:
                         os.remove(entry.path)
 
+    def get_remote_excluded(self) -> Set[str]:
+        """Get the relative paths of excluded files in the remote directory."""
+        with self.remote_dir.access():
+            return (
+                (self.profile.all_exclude_matches(self.local_dir.path)
+                 | self.profile.all_exclude_matches(self.remote_dir.safe_path))
+                & self.remote_dir.scan_paths().keys())
+
     def get_excluded_size(self) -> int:
         """Get the disk usage of all excluded local files.
 
+        This includes excluded files that are about to be copied from the
+        remote directory.
+
         Returns:
             The disk usage as a number of bytes.
         """
         local_stats = self.local_dir.scan_paths()
-        total_excluded_size = sum(
-            local_stats[path].st_blocks * 512
-            for path in self.profile.all_exclude_matches(self.local_dir.path)
+        remote_stats = self.remote_dir.scan_paths()
+        excluded_paths = (
+            self.profile.all_exclude_matches(self.local_dir.path)
             & local_stats.keys())
+        total_excluded_size = sum(
+            local_stats[path].st_blocks * 512 for path in excluded_paths)
+        total_excluded_size += sum(
+            remote_stats[path].st_blocks * 512
+            for path in self.get_remote_excluded() - excluded_paths)
         return total_excluded_size
-- 
2.43.0


From 5b0915894623b412d5d4af541cc9e7da4a116acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 23/38] fix: don't fail or create a database if the profile is
 removed meanwhile

---
 zielen/containerbase.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/zielen/containerbase.py b/zielen/containerbase.py
index 3134caf..0b96bfc 100644
--- a/zielen/containerbase.py
+++ b/zielen/containerbase.py
@@ -23,7 +23,8 @@ import json
 import sqlite3
 import contextlib
 import hashlib
-from typing import List, Generator, Iterable
+import urllib.parse
+from typing import List, Generator, Iterable, Optional
 
 from zielen.exceptions import FileParseError, RemoteError
 from zielen.utils import secure_string
@@ -146,12 +147,10 @@ class SyncDBFile:
     def __init__(self, path: str) -> None:
         self.path = path
         self._stat = None
+        self._conn = None
         if os.path.isfile(self.path):
-            self._stat = os.stat(self.path)
-            self._conn = sqlite3.connect(
-                self.path,
-                detect_types=sqlite3.PARSE_DECLTYPES,
-                isolation_level="DEFERRED")
+            self._conn = self._open_existing()
+        if self._conn is not None:
             self._conn.create_function("gen_salt", 0, lambda: secure_string(8))
 
             self._cur = self._conn.cursor()
@@ -160,13 +159,33 @@ class SyncDBFile:
                 PRAGMA foreign_keys = ON;
                 """)
         else:
-            self._conn = None
             self._cur = None
 
         # Create adapter from python boolean to sqlite integer.
         sqlite3.register_adapter(bool, int)
         sqlite3.register_converter("BOOL", lambda x: bool(int(x)))
 
+    def _open_existing(self) -> Optional[sqlite3.Connection]:
+        """Connect to the database without creating it.
+
+        Returns:
+            A connection object, or None if the database has just been removed
+            by another operation.
+        """
+        uri = "file:{}?mode=rw".format(
+            urllib.parse.quote(os.fsencode(os.path.abspath(self.path))))
+        try:
+            self._stat = os.stat(self.path)
+            return sqlite3.connect(
+                uri, uri=True,
+                detect_types=sqlite3.PARSE_DECLTYPES,
+                isolation_level="DEFERRED")
+        except (FileNotFoundError, sqlite3.OperationalError):
+            if os.path.isfile(self.path):
+                raise
+            self._stat = None
+            return None
+
     @contextlib.contextmanager
     def _transact(self) -> Generator[None, None, None]:
         """Check if database file exists and commit the transaction on exit.
-- 
2.43.0


From 3f73a4411ad3694e6040e36af2b6f5369e867e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 24/38] fix: remove symlinks of an interrupted sync if their
 files are deleted meanwhile

---
 zielen/commands/sync.py |  1 +
 zielen/filelogic.py     | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index 266c4db..fdf283b 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -72,6 +72,7 @@ class SyncCommand(Command):
         rm_partial_files(self.local_dir.path)
         with self.remote_dir.access():
             rm_partial_files(self.remote_dir.safe_path)
+        fm.rm_stale_placeholders()
 
         # Scan the local and remote directories.
         file_paths = (
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 38b0a60..10bc488 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -1045,6 +1045,20 @@ class FilesManager:
         self.profile.rm_paths(excluded_paths)
         self.remote_dir.rm_paths(excluded_paths)
 
+    def rm_stale_placeholders(self) -> None:
+        """Delete local symlinks to remote files that were never synced.
+
+        An interrupted sync may have left symlinks to files that have been
+        deleted from the remote directory since then.
+        """
+        stale_paths = (
+            self._get_placeholders() - self.remote_dir.scan_paths().keys()
+            - self.profile.get_paths().keys())
+        for path in stale_paths:
+            os.remove(os.path.join(self.local_dir.path, path))
+        if stale_paths:
+            self.local_dir.scan_paths(memoize=False)
+
     def rm_remote_files(self, paths: Iterable[str]) -> None:
         """Delete remote files and remove them from both databases.
 
-- 
2.43.0


From aea9c4c3c0f36a55b9f20d51c4c2a8b42a9678c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 25/38] fix: replace conflict copies that don't fit in the
 local directory

---
 zielen/filelogic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 10bc488..93f125b 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -777,10 +777,11 @@ class FilesManager:
             all_retained_paths |= self.profile.get_paths(root=path).keys()
 
         # Don't include excluded files or files not in the local database
-        # (e.g. unsafe symlinks).
+        # (e.g. unsafe symlinks). Files may have been renamed because of
+        # conflicts since the directory was scanned.
         all_paths = (self.local_dir.scan_paths(
-            exclude=self.profile.all_exclude_matches(self.local_dir.path)
-            ).keys() & self.profile.get_paths().keys())
+            exclude=self.profile.all_exclude_matches(self.local_dir.path),
+            memoize=False).keys() & self.profile.get_paths().keys())
 
         # Exclude the paths that are parents of paths in the input.
         stale_paths = set()
-- 
2.43.0


From 709ad073a31ee994febd91fd6a5d5f1ac5542429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 26/38] fix: count excluded files once and in full towards the
 storage limit

---
 zielen/commands/sync.py |  6 ++++--
 zielen/filelogic.py     | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index fdf283b..afe932d 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -137,10 +137,12 @@ class SyncCommand(Command):
         remote_excluded_files = fm.get_remote_excluded() - foreign_links
 
         # Decide which files and directories to keep in the local directory.
+        # Excluded files have already been accounted for.
         remaining_space = self.profile.storage_limit - fm.get_excluded_size()
-        remaining_space, selected_dirs = fm.prioritize_dirs(remaining_space)
+        remaining_space, selected_dirs = fm.prioritize_dirs(
+            remaining_space, exclude=remote_excluded_files)
         remaining_space, selected_files = fm.prioritize_files(
-            remaining_space, exclude=selected_dirs)
+            remaining_space, exclude=selected_dirs | remote_excluded_files)
 
         # Copy the selected files as well as any excluded files still in the
         # remote directory to the local directory and replace all others
diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 93f125b..45706de 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -254,21 +254,28 @@ class FilesManager:
 
         return SelectedPaths(remaining_space, selected_files)
 
-    def prioritize_dirs(self, space_limit: int) -> SelectedPaths:
+    def prioritize_dirs(
+            self, space_limit: int, exclude=None) -> SelectedPaths:
         """Calculate which directories will stay in the local directory.
 
         Args:
             space_limit: The amount of space remaining in the directory
                 (in bytes).
+            exclude: An iterable of paths of files and directories to not
+                consider when calculating disk usage.
+
         Returns:
             A tuple containing a list of paths of directories to keep in the
             local directory and the amount of space remaining (in bytes) until
             the storage limit is reached.
         """
+        exclude = set() if exclude is None else set(exclude)
+
         # File stats must be fetched again because files in the remote 
         # directory may have been updated by changes in the local directory,
         # changin their size. 
-        local_files = self.profile.get_paths(directory=False)
+        local_files = (
+            self.profile.get_paths(directory=False).keys() - exclude)
         local_dirs = self.profile.get_paths(directory=True)
         remote_stats = self.remote_dir.scan_paths(memoize=False)
         local_stats = self.local_dir.scan_paths()
@@ -279,7 +286,8 @@ class FilesManager:
         for dir_path, dir_data in local_dirs.items():
             dir_priority = dir_data.priority
             dir_size = 0
-            for sub_path in self.profile.get_paths(root=dir_path):
+            for sub_path in (
+                    self.profile.get_paths(root=dir_path).keys() - exclude):
                 # Get the size of the files in the remote directory, as
                 # symlinks in the local directory are not followed.
                 dir_size += remote_stats[sub_path].st_blocks * 512
@@ -338,7 +346,7 @@ class FilesManager:
                     root=dir_path).items():
                 if subpath_data.directory:
                     contained_dirs.add(subpath)
-                else:
+                elif subpath not in exclude:
                     contained_files.add(subpath)
                 if subpath in selected_dirs:
                     subdirs_size += dir_sizes[subpath]
@@ -1175,7 +1183,7 @@ class FilesManager:
         remote_stats = self.remote_dir.scan_paths()
         excluded_paths = (
             self.profile.all_exclude_matches(self.local_dir.path)
-            & local_stats.keys())
+            & local_stats.keys() - self._get_placeholders())
         total_excluded_size = sum(
             local_stats[path].st_blocks * 512 for path in excluded_paths)
         total_excluded_size += sum(
-- 
2.43.0


From 7998f22c431612e9468788726afb91d0635bfe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:18 +0000
Subject: [PATCH 27/38] fix: don't let excluded files be removed before a new
 client has copied them

---
 zielen/commands/init.py |  8 ++++++--
 zielen/userdata.py      | 14 ++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 80e8395..3ccf141 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -161,8 +161,12 @@ class InitCommand(Command):
             fm.setup_from_local()
 
         # Copy exclude pattern file to remote directory for use when remote dir
-        # is shared.
-        self.remote_dir.add_exclude_file(self.profile.exclude_path, self.profile.id)
+        # is shared. Excluded files that are already in the remote directory
+        # are not copied to the local directory until the first sync, so they
+        # must not be removed by other clients until then.
+        self.remote_dir.add_exclude_file(
+            None if self.add_remote else self.profile.exclude_path,
+            self.profile.id)
 
         # The profile is now fully initialized. Update the profile. Other
         # clients can change the remote directory from here.
diff --git a/zielen/userdata.py b/zielen/userdata.py
index f6da430..8d272e9 100644
--- a/zielen/userdata.py
+++ b/zielen/userdata.py
@@ -23,7 +23,7 @@ import sqlite3
 import time
 import contextlib
 from typing import (
-    Tuple, Iterable, List, Dict, NamedTuple, Generator, Union, Set)
+    Tuple, Iterable, List, Dict, NamedTuple, Generator, Optional, Union, Set)
 
 from zielen.exceptions import RemoteError
 from zielen.containerbase import SyncDBFile
@@ -211,15 +211,21 @@ class RemoteSyncDir(SyncDir):
         # The util directory is missing on purpose.
         self.safe_path = self.path
 
-    def add_exclude_file(self, filepath: str, profile_id: str) -> None:
+    def add_exclude_file(
+            self, filepath: Optional[str], profile_id: str) -> None:
         """Add a profile exclude file to the remote.
 
         Args:
-            filepath: The path of the profile exclude file.
+            filepath: The path of the profile exclude file. If this is None,
+                an empty exclude file is added.
             profile_id: A unique ID for the profile.
         """
+        remote_path = os.path.join(self._exclude_dir, profile_id)
         try:
-            copy_file(filepath, os.path.join(self._exclude_dir, profile_id))
+            if filepath is None:
+                open(remote_path, "w").close()
+            else:
+                copy_file(filepath, remote_path)
         except FileNotFoundError:
             if not os.path.isdir(self.util_dir):
                 raise RemoteError("the remote directory could not be found")
-- 
2.43.0


From a5696e04cc2de3a442cb57fba9ed8910744cbc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 28/38] fix: don't bring back an excluded file that was removed
 with its directory

---
 zielen/commands/sync.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zielen/commands/sync.py b/zielen/commands/sync.py
index afe932d..49468ed 100644
--- a/zielen/commands/sync.py
+++ b/zielen/commands/sync.py
@@ -110,9 +110,11 @@ class SyncCommand(Command):
         fm.rm_remote_files(del_paths.remote)
         fm.trash_files(del_paths.trash)
 
-        # Handle syncing conflicts.
+        # Handle syncing conflicts. Excluded files that have been deleted from
+        # the remote directory are not synced anymore.
         updated_paths = fm.handle_conflicts(
-            mod_paths.local - del_paths.local | new_paths.local,
+            mod_paths.local & self.profile.get_paths().keys()
+            | new_paths.local,
             mod_paths.remote | new_paths.remote)
 
         # Add any new files that have been created in the process of
-- 
2.43.0


From 1f9b6b5786574826243e3583352d87a3a22b5115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 29/38] fix: don't let the daemon stop when there are too many
 file system events

---
 zielen/daemon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zielen/daemon.py b/zielen/daemon.py
index 948c3ba..0c20164 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -101,6 +101,11 @@ class Daemon(Command):
             accessed_paths = []
             while not self._files_queue.empty():
                 event, timestamp = self._files_queue.get()
+                if not event.mask & mask:
+                    # The kernel reports some events that were not asked for,
+                    # e.g. that there were too many of them or that a watched
+                    # directory was removed. They don't represent a file.
+                    continue
                 for watch_path in watch_paths:
                     if os.path.commonpath([
                             event.pathname, watch_path]) == watch_path:
-- 
2.43.0


From a3f1a674d76ee13ecee3fe3b18c5a602c07f8706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 30/38] fix: count accesses in directories that are moved while
 the daemon runs

---
 zielen/daemon.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/zielen/daemon.py b/zielen/daemon.py
index 0c20164..1c214a9 100644
--- a/zielen/daemon.py
+++ b/zielen/daemon.py
@@ -87,9 +87,15 @@ class Daemon(Command):
         notifier.start()
 
         mask = pyinotify.IN_OPEN | pyinotify.IN_CREATE
+        # These are necessary to keep track of directories that are moved.
+        move_mask = (
+            pyinotify.IN_MOVED_FROM
+            | pyinotify.IN_MOVED_TO
+            | pyinotify.IN_MOVE_SELF)
         watch_paths = [local_dir, remote_dir]
         for watch_path in watch_paths:
-            wm.add_watch(watch_path, mask, rec=True, auto_add=True)
+            wm.add_watch(
+                watch_path, mask | move_mask, rec=True, auto_add=True)
 
         # Every few seconds, get a set of file paths from the queue and
         # increment their priority values in the database. This is done to
@@ -102,15 +108,20 @@ class Daemon(Command):
             while not self._files_queue.empty():
                 event, timestamp = self._files_queue.get()
                 if not event.mask & mask:
-                    # The kernel reports some events that were not asked for,
-                    # e.g. that there were too many of them or that a watched
-                    # directory was removed. They don't represent a file.
+                    # Files that are moved are not accessed. The kernel also
+                    # reports some events that were not asked for, e.g. that
+                    # there were too many of them or that a watched directory
+                    # was removed. They don't represent a file.
                     continue
                 for watch_path in watch_paths:
                     if os.path.commonpath([
                             event.pathname, watch_path]) == watch_path:
                         rel_path = os.path.relpath(event.pathname, watch_path)
                         break
+                else:
+                    # The directory that contains the file has been moved to
+                    # somewhere else.
+                    continue
 
                 if not event.dir and self.profile.get_path_info(rel_path):
                     # The file is in the local database and is not a directory.
-- 
2.43.0


From 6021431ab9cf35fa254d7a65286d944002f04061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 31/38] fix: don't follow symlinks to directories when
 searching for excluded files

---
 zielen/profile.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/zielen/profile.py b/zielen/profile.py
index 53a7b6c..27ec7d9 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -370,6 +370,28 @@ class ProfileExcludeFile:
                 if not self.comment_regex.search(line):
                     yield line
 
+    def _glob_tree(
+            self, start_path: str, pattern: str) -> Generator[str, None, None]:
+        """Yield paths that match a globbing pattern anywhere in a directory.
+
+        Like with "**", hidden directories are not searched. Unlike with "**",
+        neither are symlinks to directories, which may form loops.
+
+        Args:
+            start_path: The directory to search in.
+            pattern: The globbing pattern relative to each directory.
+        """
+        yield from glob.glob(
+            os.path.join(glob.escape(start_path), pattern), recursive=True)
+        try:
+            entries = list(os.scandir(start_path))
+        except OSError:
+            return
+        for entry in entries:
+            if (entry.is_dir(follow_symlinks=False)
+                    and not entry.name.startswith(".")):
+                yield from self._glob_tree(entry.path, pattern)
+
     def _glob(self, start_path: str) -> None:
         """Create a set of all file paths that match the globbing patterns.
 
@@ -388,14 +410,14 @@ class ProfileExcludeFile:
             if not line:
                 continue
             if line.startswith("/"):
-                glob_str = os.path.join(
-                    glob.escape(start_path), line.lstrip("/"))
+                match_paths = glob.glob(
+                    os.path.join(glob.escape(start_path), line.lstrip("/")),
+                    recursive=True)
             else:
                 # Glob patterns without a leading slash search the whole tree.
-                glob_str = os.path.join(
-                    glob.escape(start_path), "**", line)
+                match_paths = self._glob_tree(start_path, line)
 
-            for match_path in glob.glob(glob_str, recursive=True):
+            for match_path in match_paths:
                 rel_match_path = os.path.relpath(match_path, start_path)
                 self._matches[start_path].add(rel_match_path)
                 self._all_matches[start_path].add(rel_match_path)
-- 
2.43.0


From 63a26e9a4d492e5d50489c95e61b4ec4aa25f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:49 +0000
Subject: [PATCH 32/38] fix: don't sync symlinks that lead out of the directory
 and back into it

---
 zielen/fstools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 8464556..a833738 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -322,6 +322,13 @@ def is_unsafe_symlink(link_path: str, parent_path: str) -> bool:
         # The file is not a symlink.
         return False
     if not os.path.isabs(link_dest):
+        rel_link_dest = os.path.normpath(os.path.join(
+            os.path.relpath(os.path.dirname(link_path), parent_path),
+            link_dest))
+        if rel_link_dest.split(os.sep)[0] == os.pardir:
+            # The symlink leads out of the parent directory. Even if it leads
+            # back into it, it wouldn't in another directory.
+            return True
         abs_link_dest = os.path.normpath(
             os.path.join(os.path.dirname(link_path), link_dest))
         if os.path.commonpath([abs_link_dest, parent_path]) == parent_path:
-- 
2.43.0


From a4aa44c89e0b555f7f846eb5251bcf4777fbcbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 33/38] fix: leave alone what is under symlinks that can't be
 synced

---
 zielen/filelogic.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/zielen/filelogic.py b/zielen/filelogic.py
index 45706de..0295edc 100644
--- a/zielen/filelogic.py
+++ b/zielen/filelogic.py
@@ -484,7 +484,8 @@ class FilesManager:
 
         These are all symlinks that can't be synced, except for the ones in the
         local directory that stand for a remote file. Nothing is synced under
-        these paths.
+        these paths, so they include everything that the other directory
+        contains under them.
         """
         remote_links = {
             link_path for link_path in self.remote_dir.scan_paths(
@@ -492,9 +493,14 @@ class FilesManager:
             if is_unsafe_symlink(
                 os.path.join(self.remote_dir.path, link_path),
                 self.remote_dir.path)}
-        return (
+        foreign_links = (
             self._get_unsafe_symlinks() - self._get_placeholders()
             | remote_links)
+        return foreign_links | {
+            path for path in (
+                self.local_dir.scan_paths().keys()
+                | self.remote_dir.scan_paths().keys())
+            if not foreign_links.isdisjoint(get_path_ancestry([path]))}
 
     def _get_unsynced_files(self) -> Set[str]:
         """Get the relative paths of excluded local files not in the database.
@@ -656,6 +662,11 @@ class FilesManager:
             self.remote_dir.safe_path, self.local_dir.path,
             files=retrieve_paths, message="Retrieving files...")
         for path in remote_dirs:
+            if (has_symlink_parent(self.local_dir.path, path)
+                    or os.path.islink(
+                        os.path.join(self.local_dir.path, path))):
+                # There are no files in this directory.
+                continue
             make_dirs(self.local_dir.path, path)
 
         return set(remote_stats)
-- 
2.43.0


From a8b96b0a43d1fa2737ce74d830f92fb0be4451b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:24 +0000
Subject: [PATCH 34/38] fix: don't take symlinks that can't be read for regular
 files

---
 zielen/fstools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index a833738..3e9422f 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -156,11 +156,11 @@ def transfer_tree(
     else:
         rel_paths = set()
         for path in files:
-            if os.path.islink(os.path.join(source, path)):
-                # A symlink to a directory is copied as a symlink.
-                rel_paths.add(path)
-                continue
             try:
+                if stat.S_ISLNK(os.lstat(os.path.join(source, path)).st_mode):
+                    # A symlink to a directory is copied as a symlink.
+                    rel_paths.add(path)
+                    continue
                 for entry in scan_tree(os.path.join(source, path)):
                     rel_paths.add(os.path.relpath(entry.path, source))
                 # The directory itself may be empty.
-- 
2.43.0


From 449998b1d288430f0ab30bfe0add99575e17347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 35/38] fix: remove partial files in a reset without retrieval
 too

---
 zielen/commands/reset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zielen/commands/reset.py b/zielen/commands/reset.py
index e7f6e21..8073831 100644
--- a/zielen/commands/reset.py
+++ b/zielen/commands/reset.py
@@ -74,6 +74,8 @@ class ResetCommand(Command):
             or os.path.isdir(self.remote_dir.util_dir)
             or bool(fm.get_placeholders()))
 
+        rm_partial_files(self.local_dir.path)
+
         remote_files = set()
         if retrieve:
             # The initialization may have been interrupted before there was
@@ -86,7 +88,6 @@ class ResetCommand(Command):
             self.remote_dir.begin()
 
             # Retrieve remote files.
-            rm_partial_files(self.local_dir.path)
             with self.remote_dir.access():
                 rm_partial_files(self.remote_dir.safe_path)
                 remote_files = fm.retrieve_files()
-- 
2.43.0


From 9354efaad7128192b29efec362194d67f5c1755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:43 +0000
Subject: [PATCH 36/38] fix: refuse templates that leave required settings
 blank

---
 zielen/profile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zielen/profile.py b/zielen/profile.py
index 27ec7d9..9b117bf 100644
--- a/zielen/profile.py
+++ b/zielen/profile.py
@@ -124,6 +124,9 @@ class Profile:
         self._cfg_file.prompt()
 
         if template_path:
+            # Some settings must not be blank, but the user isn't prompted for
+            # them.
+            self._cfg_file.check_all(context="template file")
             self._cfg_file.write(template_path)
         else:
             # TODO: Get the path of the master config template from
-- 
2.43.0


From bc0d44e2e730400b8f83333272902a583573e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:52 +0000
Subject: [PATCH 37/38] fix: refuse a local directory that overlaps with the
 remote directory

---
 zielen/commands/init.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zielen/commands/init.py b/zielen/commands/init.py
index 3ccf141..6ba5c1c 100644
--- a/zielen/commands/init.py
+++ b/zielen/commands/init.py
@@ -201,6 +201,11 @@ class InitCommand(Command):
         if common_path in [dir_path, get_program_dir()]:
             return "local directory must not contain zielen config files"
 
+        # Files must not be synced with themselves.
+        common_path = os.path.commonpath([dir_path, self.profile.remote_path])
+        if common_path in [dir_path, self.profile.remote_path]:
+            return "local directory overlaps with the remote directory"
+
         overlap_profiles = []
         for name, profile in self.profiles.items():
             if profile is self.profile or not os.path.isfile(profile.cfg_path):
-- 
2.43.0


From 2294de8ad3c5ebf907120badb01ea6da9af99c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:26 +0000
Subject: [PATCH 38/38] fix: copy symlinks as symlinks even if they can't be
 read at first

---
 zielen/fstools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zielen/fstools.py b/zielen/fstools.py
index 3e9422f..70a1b28 100644
--- a/zielen/fstools.py
+++ b/zielen/fstools.py
@@ -50,7 +50,13 @@ def copy_file(source_path: str, dest_path: str) -> None:
     except FileNotFoundError:
         pass
     try:
-        shutil.copy2(source_path, partial_path, follow_symlinks=False)
+        # Find out here whether this is a symlink, as shutil.copy2() copies
+        # what a symlink points to if it fails to find that out.
+        if stat.S_ISLNK(os.lstat(source_path).st_mode):
+            os.symlink(os.readlink(source_path), partial_path)
+            shutil.copystat(source_path, partial_path, follow_symlinks=False)
+        else:
+            shutil.copy2(source_path, partial_path)
         os.replace(partial_path, dest_path)
     except OSError:
         try:
-- 
2.43.0

