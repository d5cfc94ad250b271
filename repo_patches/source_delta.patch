From e046f802ce4c28c602413fc7ea3967d0bb5dbaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:48 +0000
Subject: [PATCH 01/29] fix: truncate of a path with no cached item, and its
 uninitialised result

lfs_truncate tested an uninitialised result, truncated to 0 instead of the requested
size when nothing is cached, returned -1 (EPERM) instead of the error of the lookup,
and passed the path instead of the inode to truncate_item, so that shrinking a file
never dropped the cached blocks beyond the new size.
---
 lazyfs/src/lazyfs.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 4709ff3..ddb82d6 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1719,13 +1719,14 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
     struct stat stats;
-    lfs_getattr (path, &stats, fi);
+    int res = lfs_getattr (path, &stats, fi);
 
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(path={},size={})", __FUNCTION__, path, truncate_size);
     }
 
-    int res;
+    if (res < 0)
+        return res;
 
     string owner (path);
     string inode = this_ ()->FSCache->get_original_inode (owner);
@@ -1742,19 +1743,14 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
     } else {
 
+        // not a regular file: there is nothing cached, let the underlying file system decide
+
         if (fi != NULL)
-            res = ftruncate (fi->fh, 0);
+            res = ftruncate (fi->fh, truncate_size);
         else
-            res = truncate (path, 0);
-
-        lfs_getattr (path, &stats, fi);
-        string newino = to_string (stats.st_ino);
-        if (this_ ()->FSCache->lockItemCheckExists (newino)) {
-            previous_metadata = this_ ()->FSCache->get_content_metadata (newino);
-            this_ ()->FSCache->unlockItem (newino);
-            inode = newino;
-        } else
-            return -1;
+            res = truncate (path, truncate_size);
+
+        return res == -1 ? -errno : 0;
     }
 
     bool has_content_cached  = previous_metadata != nullptr;
@@ -1803,8 +1799,6 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
         if (r != add_bytes_total) {
 
-            int res;
-
             if (fi != NULL)
                 res = ftruncate (fi->fh, truncate_size);
             else
@@ -1815,7 +1809,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
     } else if (truncate_size < previous_metadata->size) {
 
-        this_ ()->FSCache->truncate_item (owner, truncate_size);
+        this_ ()->FSCache->truncate_item (inode, truncate_size);
     }
 
     // todo: update file size
-- 
2.43.0


From 09bdd34c22490f7773ab7b4cb4fba9495c608660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:10 +0000
Subject: [PATCH 02/29] fix: read returns at most the bytes up to the cached
 file size

Reads past a shrunk or partially cached end of file returned stale bytes, zeroed memory
beyond the caller's buffer, and left by an early return that skipped the after-read faults.
---
 lazyfs/src/lazyfs.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index ddb82d6..92892c0 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1381,8 +1381,13 @@ int LazyFS::lfs_read (const char* path,
         // std::printf ("\tread: file has %d bytes\n", (int)meta.size);
     }
 
-    if (offset > (meta.size - 1))
-        return 0;
+    if (offset >= meta.size) {
+        blk_high = blk_low - 1; // at or past end of file: no block to read
+    } else {
+        size       = std::min ((off_t)size, meta.size - offset);
+        blk_high   = (offset + size - 1) / IO_BLOCK_SIZE;
+        BYTES_LEFT = size;
+    }
 
     // ---------------------------------------------------------------------------------
 
@@ -1456,11 +1461,6 @@ int LazyFS::lfs_read (const char* path,
                 BUF_ITERATOR += (read_to - blk_readable_from) + 1;
                 BYTES_LEFT -= (read_to - blk_readable_from) + 1;
 
-                if (read_to < (IO_BLOCK_SIZE - 1) && CURR_BLK_IDX < blk_high) {
-
-                    memset (buf + BUF_ITERATOR + read_to, 0, IO_BLOCK_SIZE - read_to);
-                }
-
                 data_allocated += (read_to - blk_readable_from) + 1;
 
             } else {
-- 
2.43.0


From eb7e1e78341afc57db31f49439338c26fda126b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:30 +0000
Subject: [PATCH 03/29] fix: open keeps the access mode with O_TRUNC and does
 not append underneath

Opening with O_TRUNC forced the underlying descriptor to write-only, so reads of uncached
blocks through it failed; with O_APPEND, passthrough pwrite calls ignore their offset.
---
 lazyfs/src/lazyfs.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 92892c0..a76a0bb 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -818,11 +818,8 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
 
     int res;
 
-    int access_tmp = fi->flags;
-    if (fi->flags & O_TRUNC)
-        access_tmp = O_WRONLY;
-
-    res = open (path, access_tmp);
+    // truncation is cached (below) and the kernel already resolved the offsets of appends
+    res = open (path, fi->flags & ~(O_TRUNC | O_APPEND));
 
     if (res == -1)
         return -errno;
@@ -869,7 +866,7 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
 
     int res;
 
-    res = open (path, fi->flags, mode);
+    res = open (path, fi->flags & ~O_APPEND, mode);
 
     if (res == -1)
         return -errno;
-- 
2.43.0


From 5d040940818b3e245e163482471ad9be606da8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:31 +0000
Subject: [PATCH 04/29] fix: block offsets inside pages that hold several
 blocks

get_block_data and write_null_from mixed page-relative and block-relative offsets, so
every block but the first of a page was read short or nulled beyond the page, and
one-byte blocks at the start of a page were never written.
---
 libs/libpcache/src/engine/page/page.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 076460a..a8464cf 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -110,9 +110,9 @@ void Page::get_block_data (int block_id, char* buffer, int read_to_max_index) {
 
     pair<int, int> offsets = get_block_offsets (block_id);
     int off_min            = offsets.first;
-    int off_max            = read_to_max_index + 1;
 
-    memcpy (buffer, this->data + off_min, off_max - off_min);
+    // read_to_max_index is relative to the block, not to the page
+    memcpy (buffer, this->data + off_min, read_to_max_index + 1);
 }
 
 pair<int, int> Page::get_block_offsets (int block_id) {
@@ -134,7 +134,7 @@ bool Page::update_block_data (int block_id, char* new_data, size_t data_length,
     // block exists, update data
     int off_min = block_offsets.first;
 
-    if (block_offsets.first >= 0 && block_offsets.second > 0) {
+    if (block_offsets.first >= 0 && block_offsets.second >= 0) {
 
         assert (data_length <= this->config->IO_BLOCK_SIZE);
 
@@ -201,7 +201,7 @@ void Page::write_null_from (int block_id, int from_offset) {
 
     memset (this->data + off_first + from_offset,
             0,
-            this->config->IO_BLOCK_SIZE - off_first - from_offset);
+            this->config->IO_BLOCK_SIZE - from_offset);
 }
 
 void Page::remove_block (int block_id) {
-- 
2.43.0


From 09916d9f478f85b3b4e40c9ef12f0b39da0abcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:49 +0000
Subject: [PATCH 05/29] fix: pages of several blocks keep their remaining
 blocks and free slots

A page with a free slot was popped from a copy of the owner's list, so a full page could be
handed out again; truncation released a page as soon as one of its blocks was removed.
---
 .../engine/backends/custom/custom_cache.cpp   | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 68ec7d9..0b6c25a 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -125,12 +125,13 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
     if (this->owner_pages_mapping.find (owner_id) != this->owner_pages_mapping.end ()) {
 
-        auto free_pages = this->owner_free_pages_mapping.at (owner_id);
+        auto& owner_free_pages = this->owner_free_pages_mapping.at (owner_id);
 
-        if (free_pages.size () > 0) {
+        if (owner_free_pages.size () > 0) {
 
-            int free_page = free_pages.back ();
-            free_pages.pop_back ();
+            // put back by _update_owner_pages if it still has space after the allocation
+            int free_page = owner_free_pages.back ();
+            owner_free_pages.pop_back ();
 
             return std::make_pair (free_page, _get_page_ptr (free_page));
         }
@@ -625,10 +626,24 @@ bool CustomCacheEngine::truncate_cached_blocks (string content_owner_id,
 
                 page->remove_block (blk_id);
 
-                this->owner_pages_mapping.at (content_owner_id).erase (page_id);
                 this->owner_ordered_pages_mapping.at (content_owner_id).erase (blk_id);
 
-                if (not page->is_page_dirty ()) {
+                auto& owner_free_pages = this->owner_free_pages_mapping.at (content_owner_id);
+                auto free_pos =
+                    std::find (owner_free_pages.begin (), owner_free_pages.end (), page_id);
+
+                if (not page->allocated_block_ids.empty ()) {
+
+                    // other blocks of the owner remain in this page
+                    if (free_pos == owner_free_pages.end ())
+                        owner_free_pages.push_back (page_id);
+
+                } else {
+
+                    if (free_pos != owner_free_pages.end ())
+                        owner_free_pages.erase (free_pos);
+
+                    this->owner_pages_mapping.at (content_owner_id).erase (page_id);
 
                     // add page to free pages...
                     this->free_pages.push_back (page_id);
-- 
2.43.0


From 586717a621a4cc95bc3850c0cee9e59aa9e2c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:39 +0000
Subject: [PATCH 06/29] fix: fsync reports failed writes and keeps the data
 dirty

sync_pages ignored failures of open, pwritev and ftruncate and had already cleared the
dirty flags (also those of further blocks in the same page, which were then never written);
it also read past the end of the dirty block map.
---
 lazyfs/src/lazyfs.cpp                         |  4 +-
 .../engine/backends/custom/custom_cache.hpp   |  2 +-
 .../include/cache/engine/page_cache.hpp       |  5 +-
 libs/libpcache/src/cache.cpp                  |  6 ++-
 .../engine/backends/custom/custom_cache.cpp   | 51 ++++++++++++++-----
 5 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index a76a0bb..ef503ee 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1562,10 +1562,10 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
 
     if (isdatasync)
         res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, true, (char*)path)
-                              : fdatasync (fi->fh);
+                              : (fdatasync (fi->fh) == -1 ? -errno : 0);
     else
         res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, false, (char*)path)
-                              : fsync (fi->fh);
+                              : (fsync (fi->fh) == -1 ? -errno : 0);
 
 
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
diff --git a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
index 361977b..824f8d7 100644
--- a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
+++ b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
@@ -174,7 +174,7 @@ class CustomCacheEngine : public PageCacheEngine {
     void print_page_cache_engine ();
     double get_engine_usage ();
     bool remove_cached_blocks (string content_owner_id);
-    bool sync_pages (string owner, off_t size, char* orig_path);
+    int sync_pages (string owner, off_t size, char* orig_path);
     void make_block_readable_to_offset (string cid, int page_id, int block_id, int offset);
     bool rename_owner_pages (string old_owner, string new_owner);
     bool truncate_cached_blocks (string content_owner_id,
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index d05b700..54a40fc 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -136,10 +136,9 @@ class PageCacheEngine {
      * @param owner the content id
      * @param size final file size
      * @param orig_path original file name to sync data
-     * @return true the pages were synced
-     * @return false the content was not found
+     * @return 0 if the pages were synced, a negative errno otherwise (the pages stay dirty)
      */
-    virtual bool sync_pages (string owner, off_t size, char* orig_path) = 0;
+    virtual int sync_pages (string owner, off_t size, char* orig_path) = 0;
 
     /**
      * @brief Renames the content associated with an owner to the new owner
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 08d79e3..841429d 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -373,9 +373,11 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
     off_t last_size = get_content_metadata (owner)->size;
 
     res = this->engine->sync_pages (owner, last_size, orig_path);
-    _get_content_ptr (owner)->set_data_sync_flag (true);
 
-    if (not only_sync_data) {
+    if (res == 0)
+        _get_content_ptr (owner)->set_data_sync_flag (true);
+
+    if (res == 0 && not only_sync_data) {
 
         // sync metadata
 
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 0b6c25a..922ed23 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -11,6 +11,7 @@
 #include <assert.h>
 #include <cache/constants/constants.hpp>
 #include <cache/engine/backends/custom/custom_cache.hpp>
+#include <cerrno>
 #include <chrono>
 #include <fcntl.h>
 #include <iostream>
@@ -472,7 +473,7 @@ void CustomCacheEngine::make_block_readable_to_offset (string cid,
     }
 }
 
-bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
+int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
     std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
 
@@ -480,9 +481,15 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
     // std::printf ("\tengine: (fsync) %s opened descriptor %d\n", owner.c_str (), fd);
 
+    if (fd < 0)
+        return -errno;
+
+    int res = 0;
+
+    vector<Page*> dirty_pages;
+
     if (this->owner_pages_mapping.find (owner) != this->owner_pages_mapping.end ()) {
 
-        off_t wrote_bytes = 0;
         off_t page_streak = 0;
 
         auto& iterate_blocks = this->owner_ordered_pages_mapping.at (owner);
@@ -493,23 +500,22 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
             auto pptr = std::get<1> (cit->second);
             if (pptr->is_page_dirty ()) {
                 new_iterate_blocks.insert ({cit->first, cit->second});
-                pptr->set_page_as_dirty (false);
+                dirty_pages.push_back (pptr);
             }
         }
 
-        off_t page_streak_last_offset =
-            (new_iterate_blocks.begin ()->first) * this->config->IO_BLOCK_SIZE;
+        off_t page_streak_last_offset = 0;
 
         vector<tuple<int, Page*, pair<int, int>, bool>> page_chunk;
         page_chunk.reserve (new_iterate_blocks.size ());
 
         for (auto it = new_iterate_blocks.begin (); it != new_iterate_blocks.end (); it++) {
 
-            auto current_block_id     = it->first;
-            auto const& next_block_id = std::next (it, 1)->first;
+            auto current_block_id = it->first;
+            auto next_it          = std::next (it, 1);
 
-            if ((page_streak < (__IOV_MAX - 1)) && (it != prev (new_iterate_blocks.end (), 1)) &&
-                (current_block_id == (next_block_id - 1))) {
+            if ((page_streak < (__IOV_MAX - 1)) && (next_it != new_iterate_blocks.end ()) &&
+                (current_block_id == (next_it->first - 1))) {
 
                 page_streak++;
 
@@ -526,6 +532,8 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                 page_streak_last_offset =
                     (current_block_id - page_streak + 1) * this->config->IO_BLOCK_SIZE;
 
+                ssize_t streak_bytes = 0;
+
                 for (int p_id = 0; p_id < page_streak; p_id++) {
 
                     int streak_block = current_block_id - page_streak + p_id + 1;
@@ -543,11 +551,16 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                         iov[p_id].iov_len = this->config->IO_BLOCK_SIZE;
                     }
 
-                    // mark block as clean
-                    std::get<3> (iterate_blocks.at (streak_block)) = true;
+                    streak_bytes += iov[p_id].iov_len;
                 }
 
-                wrote_bytes += pwritev (fd, iov, page_streak, page_streak_last_offset);
+                ssize_t wrote_bytes = pwritev (fd, iov, page_streak, page_streak_last_offset);
+
+                if (wrote_bytes != streak_bytes) {
+
+                    res = wrote_bytes < 0 ? -errno : -EIO;
+                    break;
+                }
 
                 page_streak = 0;
 
@@ -558,13 +571,23 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
         }
     }
 
-    if (ftruncate (fd, size) < 0) {
+    if (res == 0 && ftruncate (fd, size) < 0) {
+        res = -errno;
         spdlog::info ("ftruncate: failed");
     }
 
     close (fd);
 
-    return 0;
+    if (res == 0 && not dirty_pages.empty ()) {
+
+        // everything reached the file: mark pages and blocks as clean
+        for (auto const& page_ptr : dirty_pages)
+            page_ptr->set_page_as_dirty (false);
+        for (auto& it : this->owner_ordered_pages_mapping.at (owner))
+            std::get<3> (it.second) = true;
+    }
+
+    return res;
 }
 
 bool CustomCacheEngine::rename_owner_pages (string old_owner, string new_owner) {
-- 
2.43.0


From 505c750df68bf6fbdadac2e6673d0fd31adf7a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:01 +0000
Subject: [PATCH 07/29] fix: read and write report failures of the underlying
 file system

A failed pread or pwrite was ignored: write returned the full length and grew the file,
read returned a count computed with the -1 of pread.
---
 lazyfs/src/lazyfs.cpp | 67 ++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index ef503ee..d8d0be3 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -948,7 +948,7 @@ int LazyFS::lfs_write (const char* path,
     }
 
     int fd;
-    int res;
+    int res = size;
 
     (void)fi;
     if (fi == NULL) {
@@ -977,6 +977,9 @@ int LazyFS::lfs_write (const char* path,
 
         res = pwrite (fd, buf, size, offset);
 
+        if (res == -1)
+            res = -errno;
+
     } else {
 
         // ----------------------------------------------------------------------------------
@@ -1018,8 +1021,12 @@ int LazyFS::lfs_write (const char* path,
                 if (size_to_fill > 0) {
 
                     char* fill_zeros = (char*)calloc (size_to_fill, 1);
-                    lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
+                    int fill_res =
+                        lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
                     free (fill_zeros);
+
+                    if (fill_res < 0)
+                        return fill_res;
                 }
             }
         }
@@ -1102,7 +1109,7 @@ int LazyFS::lfs_write (const char* path,
                         // Read failed for this file,
                         // We assume that the file is not reachable
 
-                        res = -1;
+                        res = -errno;
                         break;
 
                     } else {
@@ -1167,7 +1174,7 @@ int LazyFS::lfs_write (const char* path,
                                                      CURR_BLK_IDX * IO_BLOCK_SIZE + cache_from);
 
                             if (pwrite_res != cache_wr_sz) {
-                                res = -1;
+                                res = pwrite_res < 0 ? -errno : -EIO;
                                 break;
                             }
                         }
@@ -1178,7 +1185,7 @@ int LazyFS::lfs_write (const char* path,
                     // Read failed for this file,
                     // We assume that the file is not reachable
 
-                    res = -1;
+                    res = -EIO;
                     break;
                 }
 
@@ -1212,7 +1219,7 @@ int LazyFS::lfs_write (const char* path,
                                              CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_from);
 
                     if (pwrite_res != (blk_readable_to - blk_readable_from + 1)) {
-                        res = -1;
+                        res = pwrite_res < 0 ? -errno : -EIO;
                         break;
                     }
                 }
@@ -1229,7 +1236,11 @@ int LazyFS::lfs_write (const char* path,
 
         bool locked = this_ ()->FSCache->lockItemCheckExists (inode);
 
-        if (locked) {
+        if (locked && res < 0) {
+
+            this_ ()->FSCache->unlockItem (inode);
+
+        } else if (locked) {
 
             off_t was_written_until_offset = offset + size;
 
@@ -1258,7 +1269,16 @@ int LazyFS::lfs_write (const char* path,
             this_ ()->FSCache->unlockItem (inode);
         }
 
-        close (fd_caching);
+        if (fd_caching >= 0)
+            close (fd_caching);
+    }
+
+    if (res < 0) {
+
+        if (fi == NULL)
+            close (fd);
+
+        return res;
     }
 
     // ----------------------------------------------------------------------------------
@@ -1272,14 +1292,8 @@ int LazyFS::lfs_write (const char* path,
         fault_type = TORN_SEQ; 
     }
 
-    // res should be = actual bytes written as pwrite could fail...
-    res = size;
-
     // std::printf ("\twrite: returning %d bytes\n", res);
 
-    if (res == -1)
-        res = -errno;
-
     if (fi == NULL)
         close (fd);
 
@@ -1307,7 +1321,7 @@ int LazyFS::lfs_read (const char* path,
     }
 
     int fd;
-    int res;
+    int res = 0;
 
     if (fi == NULL)
         fd = open (path, O_RDONLY);
@@ -1419,6 +1433,11 @@ int LazyFS::lfs_read (const char* path,
                                        last_pread_chunk_size,
                                        last_pread_chunk_offset);
 
+                if (pread_res < 0) {
+                    res = -errno;
+                    break;
+                }
+
                 BUF_ITERATOR += pread_res;
                 BYTES_LEFT -= pread_res;
 
@@ -1505,26 +1524,28 @@ int LazyFS::lfs_read (const char* path,
                 // Read failed for this file,
                 // We assume that the file is not reachable
 
-                res = -1;
+                res = -EIO;
                 break;
             }
         }
     }
 
-    if (last_pread_chunk_size > 0) {
+    if (res == 0 && last_pread_chunk_size > 0) {
         int pread_res =
             pread (fd_caching, buf + BUF_ITERATOR, last_pread_chunk_size, last_pread_chunk_offset);
 
-        BUF_ITERATOR += pread_res;
-        BYTES_LEFT -= pread_res;
+        if (pread_res < 0) {
+            res = -errno;
+        } else {
+            BUF_ITERATOR += pread_res;
+            BYTES_LEFT -= pread_res;
+        }
     }
 
     // ---------------------------------------------------------
 
-    res = BUF_ITERATOR;
-
-    if (res == -1)
-        res = -errno;
+    if (res == 0)
+        res = BUF_ITERATOR;
 
     if (fi == NULL)
         close (fd);
-- 
2.43.0


From e6e0aa1123477cfc867f757013fd0cc52910ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 08/29] fix: fsync stores the times of the file and getattr
 reports those set with utimens

sync_owner passed the inode number as a path to utimes, and utimens left the cached times
unchanged, which getattr kept reporting.
---
 lazyfs/src/lazyfs.cpp        | 24 ++++++++++++++++++++++++
 libs/libpcache/src/cache.cpp | 11 ++++++-----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index d8d0be3..52ecae6 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2110,6 +2110,30 @@ int LazyFS::lfs_utimens (const char* path, const struct timespec ts[2], struct f
     if (res == -1)
         return -errno;
 
+    // getattr answers with the cached times
+
+    struct stat stats;
+    string inode = this_ ()->FSCache->get_original_inode (path);
+
+    if (!inode.empty () && lstat (path, &stats) == 0 &&
+        this_ ()->FSCache->lockItemCheckExists (inode)) {
+
+        Metadata meta;
+        meta.atim = stats.st_atim;
+        meta.mtim = stats.st_mtim;
+        meta.ctim = stats.st_ctim;
+
+        vector<string> values_to_change;
+        values_to_change.push_back ("ctime");
+        if (ts == NULL || ts[0].tv_nsec != UTIME_OMIT)
+            values_to_change.push_back ("atime");
+        if (ts == NULL || ts[1].tv_nsec != UTIME_OMIT)
+            values_to_change.push_back ("mtime");
+
+        this_ ()->FSCache->update_content_metadata (inode, meta, values_to_change);
+        this_ ()->FSCache->unlockItem (inode);
+    }
+
     return 0;
 }
 // #endif
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 841429d..3b6ee3e 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -12,10 +12,12 @@
 #include <cache/constants/constants.hpp>
 #include <cache/item/item.hpp>
 #include <chrono>
+#include <fcntl.h>
 #include <list>
 #include <map>
 #include <mutex>
 #include <spdlog/spdlog.h>
+#include <sys/stat.h>
 #include <sys/syscall.h>
 #include <sys/time.h>
 #include <sys/xattr.h>
@@ -383,12 +385,11 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
 
         Metadata* meta = _get_content_ptr (owner)->get_metadata ();
 
-        struct timeval times[2];
-        TIMESPEC_TO_TIMEVAL (&times[0], &(meta->atim));
-        TIMESPEC_TO_TIMEVAL (&times[1], &(meta->mtim));
+        struct timespec times[2] = {meta->atim, meta->mtim};
 
-        const char* path = owner.c_str ();
-        utimes (path, times);
+        // the owner is an inode number, not a path
+        if (utimensat (AT_FDCWD, orig_path, times, AT_SYMLINK_NOFOLLOW) == -1)
+            res = -errno;
     }
 
     unlockItem (owner);
-- 
2.43.0


From fabf92a85e25f648465dae626ec935d1ea4202bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:15 +0000
Subject: [PATCH 09/29] fix: rename and unlink touch the cache only after they
 succeeded

A failing rename or unlink dropped or re-mapped cached data of files that still exist;
renaming a symlink or directory over a cached path left the old mapping behind, and renaming
one hard link of a file to another dropped a link from the cached link count.
---
 lazyfs/include/lazyfs/lazyfs.hpp | 19 -------
 lazyfs/src/lazyfs.cpp            | 96 ++++++++------------------------
 libs/libpcache/src/cache.cpp     |  5 ++
 3 files changed, 28 insertions(+), 92 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 5fcff7c..cf7a1f0 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -261,15 +261,6 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     bool split_write(const char* path, const char* buf, size_t size, off_t offset);
 
-    /**
-     * @brief Checks whether a directory is empty of not by counting the number of entries.
-     *        It must be <= 2 to be empty, only containing "." and ".."
-     *
-     * @param dirname the path for the directory
-     * @return int 1 if is empty, 0 if not empty and -1 if an error occurred
-     */
-    static int lfs_is_dir_empty (const char* dirname);
-
     /**
      * @brief Returns a vector with the list of regular file names of all childs of a directory
      *
@@ -278,16 +269,6 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     static void lfs_get_dir_filenames (const char* dirname, std::vector<string>* result);
 
-    /**
-     * @brief Calls rename recursively to all child files and directories
-     *
-     * @param from the current subpath
-     * @param to desired path
-     * @param flags fuse rename flags
-     * @return int
-     */
-    static int lfs_recursive_rename (const char* from, const char* to, unsigned int flags);
-
     static void* lfs_init (struct fuse_conn_info*, struct fuse_config* cfg);
 
     static void lfs_destroy (void*);
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 52ecae6..a50a460 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1595,27 +1595,6 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     return res;
 }
 
-int LazyFS::lfs_is_dir_empty (const char* dirname) {
-
-    struct dirent* from_DIRENT;
-    DIR* from_DIR = opendir (dirname);
-
-    if (!from_DIR)
-        return -1;
-
-    int nr_files = 0;
-
-    while ((from_DIRENT = readdir (from_DIR)) != NULL) {
-
-        if (++nr_files > 2)
-            break;
-    }
-
-    closedir (from_DIR);
-
-    return (nr_files <= 2) ? 1 : 0;
-}
-
 void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* result) {
 
     struct dirent* from_DIRENT;
@@ -1641,50 +1620,6 @@ void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* re
     closedir (from_DIR);
 }
 
-int LazyFS::lfs_recursive_rename (const char* from, const char* to, unsigned int flags) {
-
-    std::vector<string> from_dir_filepaths;
-    lfs_get_dir_filenames (from, &from_dir_filepaths);
-
-    // Check if destination folder exists
-
-    struct stat to_stat;
-    if (!stat (to, &to_stat) && S_ISDIR (to_stat.st_mode)) {
-
-        // destination folder exists and is a directory
-        // prepend with new prepend and merge
-
-        int is_empty = lfs_is_dir_empty (to);
-
-        if (is_empty == 1) {
-
-            goto replace_prepend;
-
-        } else if (is_empty == 0) {
-
-            errno = ENOTEMPTY;
-
-            return -1;
-        }
-
-    } else {
-
-    replace_prepend:
-
-        // destination folder doesn't exist
-        // all 'from' paths should be replaced with the new prepend
-
-        for (auto const& it : from_dir_filepaths) {
-
-            this_ ()->FSCache->rename_item (it, string (to + it.substr (string (from).size ())))
-                ? 0
-                : -1;
-        }
-    }
-
-    return 0;
-}
-
 int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
 
     this_ ()->trigger_crash_fault ("rename", "before", from, to, CLEAR);
@@ -1709,13 +1644,31 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
 
         // from: is a dir, because getattr does not cache dirs
 
-        lfs_recursive_rename (from, to, flags);
+        std::vector<string> from_dir_filepaths;
+        lfs_get_dir_filenames (from, &from_dir_filepaths);
+
         res = rename (from, to);
 
+        if (res == 0) {
+
+            // what was cached for a replaced file is gone
+
+            string replaced_inode = this_ ()->FSCache->get_original_inode (new_owner);
+            if (!replaced_inode.empty ())
+                this_ ()->FSCache->remove_cached_item (replaced_inode, to, false);
+
+            // all 'from' paths should be replaced with the new prepend
+
+            for (auto const& it : from_dir_filepaths)
+                this_ ()->FSCache->rename_item (it, new_owner + it.substr (last_owner.size ()));
+        }
+
     } else {
 
-        res = this_ ()->FSCache->rename_item (last_owner, new_owner) ? 0 : -1;
         res = rename (from, to);
+
+        if (res == 0)
+            this_ ()->FSCache->rename_item (last_owner, new_owner);
     }
 
     if (res == -1)
@@ -2181,18 +2134,15 @@ int LazyFS::lfs_unlink (const char* path) {
     int res;
 
     string inode = this_ ()->FSCache->get_original_inode (path);
-    if (!inode.empty ())
-        this_ ()->FSCache->remove_cached_item (inode, path, false);
 
     res = unlink (path);
 
-    if (res == 0 && inode.empty ()) {
-        this_ ()->FSCache->remove_cached_item (inode, path, false);
-    }
-
     if (res == -1)
         return -errno;
 
+    if (!inode.empty ())
+        this_ ()->FSCache->remove_cached_item (inode, path, false);
+
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("unlink", "before", path, "");
 
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 3b6ee3e..7ac753b 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -412,6 +412,11 @@ bool Cache::rename_item (string old_cid, string new_cid) {
             to_remove_inode = this->file_inode_mapping.at (new_cid);
         }
 
+        if (to_remove_inode == inode) {
+            // two names of the same file: renaming one to the other changes nothing
+            return return_val;
+        }
+
         this->file_inode_mapping.erase (old_cid);
         this->file_inode_mapping[new_cid] = inode;
 
-- 
2.43.0


From efaf88bc5df28b3114c89063585e2dfd89169ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:45 +0000
Subject: [PATCH 10/29] fix: eviction writes dirty pages through the path of
 their file

---
 libs/libpcache/include/cache/cache.hpp        |  8 ++++
 .../engine/backends/custom/custom_cache.hpp   |  8 ++++
 .../include/cache/engine/page/page.hpp        |  3 +-
 .../include/cache/engine/page_cache.hpp       |  8 ++++
 libs/libpcache/src/cache.cpp                  | 23 ++++++++++
 .../engine/backends/custom/custom_cache.cpp   | 42 ++++++++++++++-----
 libs/libpcache/src/engine/page/page.cpp       | 21 +++++-----
 7 files changed, 91 insertions(+), 22 deletions(-)

diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 68dce2d..7134015 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -71,6 +71,14 @@ class Cache {
      */
     PageCacheEngine* engine;
 
+    /**
+     * @brief Finds a path mapped to an inode
+     *
+     * @param inode the inode
+     * @return string the path, or an empty string if there is none
+     */
+    string _find_path (string inode);
+
     /**
      * @brief Gets a content reference
      *
diff --git a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
index 824f8d7..71f2bf9 100644
--- a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
+++ b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
@@ -91,6 +91,13 @@ class CustomCacheEngine : public PageCacheEngine {
      */
     unordered_map<string, vector<int>> owner_free_pages_mapping;
 
+    /**
+     * @brief Maps owners to a path of their file. Owners are inode numbers, evicted data
+     * is written through this path.
+     *
+     */
+    unordered_map<string, string> owner_path_mapping;
+
     /**
      * @brief Controls concurrency inside the LRU queue
      *
@@ -181,6 +188,7 @@ class CustomCacheEngine : public PageCacheEngine {
                                  unordered_map<int, int> blocks_to_remove,
                                  int from_block_id,
                                  off_t index_inside_block);
+    void set_owner_path (string owner, string path);
     vector<tuple<int, pair<int, int>, int>> get_dirty_blocks_info (string owner);
 };
 
diff --git a/libs/libpcache/include/cache/engine/page/page.hpp b/libs/libpcache/include/cache/engine/page/page.hpp
index b087606..a1dde29 100644
--- a/libs/libpcache/include/cache/engine/page/page.hpp
+++ b/libs/libpcache/include/cache/engine/page/page.hpp
@@ -176,10 +176,11 @@ class Page {
     /**
      * @brief Writes page data to the underlying disk.
      *
+     * @param path path of the file that owns this page.
      * @return true page was synced.
      * @return false error ocurred
      */
-    bool sync_data ();
+    bool sync_data (string path);
 
     /**
      * @brief Checks if a page has the diry flag on.
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index 54a40fc..7633e15 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -166,6 +166,14 @@ class PageCacheEngine {
                                          int from_block_id,
                                          off_t index_inside_block) = 0;
 
+    /**
+     * @brief Sets the path through which evicted data of an owner is written
+     *
+     * @param owner the content id
+     * @param path a path of the file, or an empty string if no path is known
+     */
+    virtual void set_owner_path (string owner, string path) = 0;
+
     /**
      * @brief Gets the list of dirty block ids mapped to their offsets
      *
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 7ac753b..2be0ad9 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -84,6 +84,7 @@ void Cache::insert_inode_mapping (string path, string inode, bool increase) {
 
     lock_guard<std::shared_mutex> lock (lock_cache_mtx);
     this->file_inode_mapping[path] = inode;
+    this->engine->set_owner_path (inode, path);
 
     if (increase) {
         Metadata* oldmeta = get_content_metadata (inode);
@@ -102,6 +103,16 @@ bool Cache::has_content_cached (string cid) {
     return false;
 }
 
+string Cache::_find_path (string inode) {
+
+    for (auto const& it : this->file_inode_mapping) {
+        if (it.second == inode)
+            return it.first;
+    }
+
+    return "";
+}
+
 Item* Cache::_get_content_ptr (string cid) {
 
     if (has_content_cached (cid))
@@ -419,6 +430,7 @@ bool Cache::rename_item (string old_cid, string new_cid) {
 
         this->file_inode_mapping.erase (old_cid);
         this->file_inode_mapping[new_cid] = inode;
+        this->engine->set_owner_path (inode, new_cid);
 
         if (has_content_cached (to_remove_inode)) {
 
@@ -436,11 +448,15 @@ bool Cache::rename_item (string old_cid, string new_cid) {
 
                 if (before_nlinks > 1) {
 
+                    this->engine->set_owner_path (to_remove_inode,
+                                                  _find_path (to_remove_inode));
+
                     unlockItem (to_remove_inode);
                     return return_val;
                 }
 
                 this->engine->remove_cached_blocks (to_remove_inode);
+                this->engine->set_owner_path (to_remove_inode, "");
                 this->_delete_item (to_remove_inode);
 
                 unlockItem (to_remove_inode);
@@ -481,12 +497,15 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     if (!is_from_cache && before_nlinks > 1) {
 
+        this->engine->set_owner_path (owner, _find_path (owner));
+
         unlockItem (owner);
         lock.unlock ();
         return false;
     }
 
     this->engine->remove_cached_blocks (owner);
+    this->engine->set_owner_path (owner, "");
     this->_delete_item (owner);
 
     unlockItem (owner);
@@ -530,6 +549,7 @@ void Cache::clear_all_cache () {
             lockItem (it);
 
             this->engine->remove_cached_blocks (it);
+            this->engine->set_owner_path (it, "");
 
             this->_delete_item (it);
 
@@ -541,6 +561,9 @@ void Cache::clear_all_cache () {
             }
         }
 
+        // no name may keep pointing to what was removed
+        this->file_inode_mapping.clear ();
+
         lock.unlock ();
     }
 }
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 922ed23..a95c46b 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -161,6 +161,16 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
         string old_owner = page_to_reset->get_page_owner ();
 
+        if (page_to_reset->is_page_dirty ()) {
+
+            auto owner_path = this->owner_path_mapping.find (old_owner);
+
+            // do not evict what could not be written
+            if (owner_path == this->owner_path_mapping.end () ||
+                not page_to_reset->sync_data (owner_path->second))
+                return make_pair (-1, nullptr);
+        }
+
         auto blocks = page_to_reset->allocated_block_ids.get_block_readable_offsets ();
 
         if (this->owner_ordered_pages_mapping.find (old_owner) !=
@@ -171,12 +181,15 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
         }
 
         if (this->owner_pages_mapping.find (old_owner) != this->owner_pages_mapping.end ()) {
+
             this->owner_pages_mapping.at (old_owner).erase (replace_page_id);
-            // todo: if in free pages remove from there
-        }
 
-        if (page_to_reset->is_page_dirty ())
-            page_to_reset->sync_data ();
+            auto& free_pages_of_owner = this->owner_free_pages_mapping.at (old_owner);
+            free_pages_of_owner.erase (std::remove (free_pages_of_owner.begin (),
+                                                    free_pages_of_owner.end (),
+                                                    replace_page_id),
+                                       free_pages_of_owner.end ());
+        }
 
         // cout << "[engine] _get_next_free_page: Resetting page '" <<
         // replace_page_id << "'...\n";
@@ -264,7 +277,6 @@ void CustomCacheEngine::_update_owner_pages (string new_owner,
         if (this->owner_pages_mapping.find (real_owner) != this->owner_pages_mapping.end ()) {
 
             this->owner_pages_mapping.at (real_owner).erase (page_id);
-            this->owner_ordered_pages_mapping.at (real_owner).erase (block_id);
 
             if (this->owner_pages_mapping.at (real_owner).empty ()) {
 
@@ -633,17 +645,17 @@ bool CustomCacheEngine::truncate_cached_blocks (string content_owner_id,
 
         Page* page = _get_page_ptr (page_id);
 
-        if (page->is_page_owner (content_owner_id)) {
+        // the page may have been evicted and given to another block since
+        if (page != nullptr && page->is_page_owner (content_owner_id) &&
+            page->contains_block (blk_id)) {
 
             // std::printf ("%s: %s is page %d owner\n", __func__, content_owner_id.c_str (),
             // page_id);
 
             if (blk_id == from_block_id && index_inside_block > 0) {
 
-                if (page->contains_block (from_block_id)) {
-                    page->make_block_readable_to (from_block_id, index_inside_block - 1);
-                    page->write_null_from (from_block_id, index_inside_block);
-                }
+                page->make_block_readable_to (from_block_id, index_inside_block - 1);
+                page->write_null_from (from_block_id, index_inside_block);
 
             } else {
 
@@ -689,6 +701,16 @@ bool CustomCacheEngine::truncate_cached_blocks (string content_owner_id,
     return true;
 }
 
+void CustomCacheEngine::set_owner_path (string owner, string path) {
+
+    std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
+
+    if (path.empty ())
+        this->owner_path_mapping.erase (owner);
+    else
+        this->owner_path_mapping[owner] = path;
+}
+
 vector<tuple<int, pair<int, int>, int>> CustomCacheEngine::get_dirty_blocks_info (string owner) {
 
     std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index a8464cf..b011472 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -152,30 +152,29 @@ bool Page::is_page_dirty () { return this->is_dirty; }
 
 void Page::set_page_as_dirty (bool dirty) { this->is_dirty = dirty; }
 
-bool Page::sync_data () {
+bool Page::sync_data (string path) {
 
-    char const* path;
-    path   = this->page_owner_id.c_str ();
-    int fd = open (path, O_WRONLY);
+    int fd = open (path.c_str (), O_WRONLY);
 
-    int should_write = 0, actually_wrote = 0;
+    if (fd < 0)
+        return false;
+
+    bool res = true;
 
     map<int, int> block_rdble_offs = this->allocated_block_ids.get_block_readable_offsets ();
 
     for (auto it = block_rdble_offs.begin (); it != block_rdble_offs.end (); ++it) {
         if (contains_block (it->first)) {
             pair<int, int> data_offsets = get_block_offsets (it->first);
-            int offset                  = it->first * this->config->IO_BLOCK_SIZE;
-            int total_bytes             = this->config->IO_BLOCK_SIZE;
+            off_t offset                = (off_t)it->first * this->config->IO_BLOCK_SIZE;
+            ssize_t total_bytes         = this->config->IO_BLOCK_SIZE;
             if (it == prev (block_rdble_offs.end (), 1))
                 total_bytes = it->second + 1;
-            should_write += total_bytes;
-            actually_wrote += pwrite (fd, this->data + data_offsets.first, total_bytes, offset);
+            if (pwrite (fd, this->data + data_offsets.first, total_bytes, offset) != total_bytes)
+                res = false;
         }
     }
 
-    int res = should_write == actually_wrote;
-
     if (res)
         this->is_dirty = false;
 
-- 
2.43.0


From fb6655fc7382ff1776254c2b860135f7b7081455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:01 +0000
Subject: [PATCH 11/29] fix: fault triggers run once per operation and outside
 the command lock

---
 lazyfs/include/lazyfs/lazyfs.hpp |  14 +++++
 lazyfs/src/lazyfs.cpp            | 102 ++++++++++++++++++++-----------
 2 files changed, 82 insertions(+), 34 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index cf7a1f0..cef5bab 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -251,6 +251,20 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     bool check_and_delete_pendingwrite(const char* path);
 
+    /**
+     * @brief Writes to the cache. Does not trigger the faults associated with the operation.
+     */
+    static int write_to_cache (const char* path,
+                               const char* buf,
+                               size_t size,
+                               off_t offset,
+                               struct fuse_file_info* fi);
+
+    /**
+     * @brief Truncates in the cache. Does not trigger the faults associated with the operation.
+     */
+    static int truncate_in_cache (const char* path, off_t size, struct fuse_file_info* fi);
+
     /**
      * @brief Splits and persists part of a write if a there is a programmed split_write fault for the given path and if the occurrence matches the counter.
      * @param path Path of the file
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index a50a460..2b2f67f 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -849,7 +849,9 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
     }
 
     if (fi->flags & O_TRUNC)
-        lfs_truncate (path, 0, fi);
+        truncate_in_cache (path, 0, fi);
+
+    lock.unlock ();
 
     this_ ()->trigger_crash_fault ("open", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("open", "after", path, "");
@@ -926,6 +928,8 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
         this_ ()->FSCache->unlockItem (inode);
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("create", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("create", "after", path, "");
 
@@ -947,6 +951,34 @@ int LazyFS::lfs_write (const char* path,
         spdlog::info ("[lazyfs.ops]: {}(path={},size={},off={})", __FUNCTION__, path, size, offset);
     }
 
+    int res = write_to_cache (path, buf, size, offset, fi);
+
+    if (res < 0)
+        return res;
+
+    string fault_type = CLEAR;
+    bool crash_added = this_ () -> persist_write(path,buf,size,offset);
+    if (!crash_added) { //At the moment only one fault type can be injected
+        crash_added =  this_ () -> split_write(path,buf,size,offset);
+        fault_type = TORN_OP;
+    } else {
+        fault_type = TORN_SEQ; 
+    }
+
+    lock.unlock ();
+
+    this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
+    this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
+
+    return res;
+}
+
+int LazyFS::write_to_cache (const char* path,
+                            const char* buf,
+                            size_t size,
+                            off_t offset,
+                            struct fuse_file_info* fi) {
+
     int fd;
     int res = size;
 
@@ -1022,7 +1054,7 @@ int LazyFS::lfs_write (const char* path,
 
                     char* fill_zeros = (char*)calloc (size_to_fill, 1);
                     int fill_res =
-                        lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
+                        write_to_cache (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
                     free (fill_zeros);
 
                     if (fill_res < 0)
@@ -1273,35 +1305,11 @@ int LazyFS::lfs_write (const char* path,
             close (fd_caching);
     }
 
-    if (res < 0) {
-
-        if (fi == NULL)
-            close (fd);
-
-        return res;
-    }
-
-    // ----------------------------------------------------------------------------------
-    
-    string fault_type = CLEAR;
-    bool crash_added = this_ () -> persist_write(path,buf,size,offset);
-    if (!crash_added) { //At the moment only one fault type can be injected
-        crash_added =  this_ () -> split_write(path,buf,size,offset);
-        fault_type = TORN_OP;
-    } else {
-        fault_type = TORN_SEQ; 
-    }
-
     // std::printf ("\twrite: returning %d bytes\n", res);
 
     if (fi == NULL)
         close (fd);
 
-    
-
-    this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
-    this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
-
     return res;
 }
 
@@ -1550,6 +1558,8 @@ int LazyFS::lfs_read (const char* path,
     if (fi == NULL)
         close (fd);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("read", "after", path, "");
 
@@ -1589,6 +1599,8 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
                               : (fsync (fi->fh) == -1 ? -errno : 0);
 
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("fsync", "after", path, "");
     
@@ -1674,6 +1686,8 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("rename", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("rename", "after", from, to);
 
@@ -1689,13 +1703,28 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
-    struct stat stats;
-    int res = lfs_getattr (path, &stats, fi);
-
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(path={},size={})", __FUNCTION__, path, truncate_size);
     }
 
+    int res = truncate_in_cache (path, truncate_size, fi);
+
+    if (res < 0)
+        return res;
+
+    lock.unlock ();
+
+    this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
+    this_ ()->trigger_configured_clear_fault ("truncate", "after", path, "");
+
+    return 0;
+}
+
+int LazyFS::truncate_in_cache (const char* path, off_t truncate_size, struct fuse_file_info* fi) {
+
+    struct stat stats;
+    int res = lfs_getattr (path, &stats, fi);
+
     if (res < 0)
         return res;
 
@@ -1766,7 +1795,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         char* buf = (char*)malloc (add_bytes_total);
         memset (buf, 0, add_bytes_total);
 
-        int r = lfs_write (path, buf, add_bytes_total, add_bytes_from_offset, fi);
+        int r = write_to_cache (path, buf, add_bytes_total, add_bytes_from_offset, fi);
 
         if (r != add_bytes_total) {
 
@@ -1815,9 +1844,6 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (res == -1)
         return -errno;
 
-    this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
-    this_ ()->trigger_configured_clear_fault ("truncate", "after", path, "");
-
     return 0;
 }
 
@@ -1838,6 +1864,8 @@ int LazyFS::lfs_symlink (const char* from, const char* to) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("symlink", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("symlink", "after", from, to);
     return 0;
@@ -1860,6 +1888,8 @@ int LazyFS::lfs_access (const char* path, int mask) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("access", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("access", "after", path, "");
 
@@ -1905,6 +1935,8 @@ int LazyFS::lfs_link (const char* from, const char* to) {
     if (!inode.empty ())
         this_ ()->FSCache->insert_inode_mapping (to, inode, true);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("link", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("link", "after", from, to);
 
@@ -2143,8 +2175,10 @@ int LazyFS::lfs_unlink (const char* path) {
     if (!inode.empty ())
         this_ ()->FSCache->remove_cached_item (inode, path, false);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
-    this_ ()->trigger_configured_clear_fault ("unlink", "before", path, "");
+    this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
     return 0;
 }
-- 
2.43.0


From 30deed88efff347d177604db7169305f51402a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:01 +0000
Subject: [PATCH 12/29] fix: clear-cache faults with timing before fire at the
 configured occurrence

---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 2b2f67f..9eea48f 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -188,7 +188,7 @@ void LazyFS::trigger_configured_clear_fault (string opname,
                     
                     int current_count = clear_fault->counter.load();
                     if (optiming == "before") {
-                        current_count = clear_fault->counter.fetch_add(1);
+                        current_count = clear_fault->counter.fetch_add(1) + 1;
                     }
             
                     if (clear_fault->timing == optiming) {
-- 
2.43.0


From c3e0c0bf75efaccdaf35941f03e9ee78b79be2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:01 +0000
Subject: [PATCH 13/29] fix: crash faults of operations with two paths check
 the source path

---
 lazyfs/src/lazyfs.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 9eea48f..d26d9ae 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -139,8 +139,7 @@ void LazyFS::trigger_crash_fault (string opname,
                 string to = it.second;
                 std::regex to_rgx (".*" + to + ".*");
 
-                if (std::regex_match ("none", from_rgx))
-                    regex_match = std::regex_match (from_op_path, from_rgx);
+                regex_match = std::regex_match (from_op_path, from_rgx);
                 if (to != "none")
                     regex_match = regex_match && std::regex_match (to_op_path, to_rgx);
 
@@ -223,6 +222,11 @@ void LazyFS::add_crash_fault (string crash_timing,
                               string crash_regex_from,
                               string crash_regex_to) {
 
+    // operations with two paths may leave 'from' unspecified
+    if (crash_regex_from == "none" &&
+        this->fs_op_multi_path.find (crash_operation) != this->fs_op_multi_path.end ())
+        crash_regex_from = "";
+
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
-- 
2.43.0


From 3ffaff8beb5fda464ea6924cde5280406901bbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:29 +0000
Subject: [PATCH 14/29] fix: torn faults crash after writes to paths with regex
 characters

---
 lazyfs/src/lazyfs.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index d26d9ae..2f5aec9 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -482,6 +482,17 @@ bool LazyFS::check_and_delete_pendingwrite(const char* path) {
     return res;
 }
 
+// the crash that follows a torn fault is matched against the exact path of the write
+static string escape_regex (const string& path) {
+    string res;
+    for (char c : path) {
+        if (strchr (".^$|()[]{}*+?\\", c) != NULL)
+            res += '\\';
+        res += c;
+    }
+    return res;
+}
+
 faults::ReorderF* LazyFS::get_and_update_reorder_fault(string path, string op) {
     faults::ReorderF* fault_r = NULL;
     auto it = faults->find(path);
@@ -525,7 +536,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
 
                 if (pw==this->pending_write->size) {
                     if ((fault->persist).size()==1) {
-                        this_ ()->add_crash_fault ("after", "write", path_str, "none");            
+                        this_ ()->add_crash_fault ("after", "write", escape_regex (path_str), "none");            
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                         (this->write_lock).unlock();
                         return res;
@@ -556,7 +567,7 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     if (pw == size) {
                         int max = fault->persist.back();
                         if (max == fault->counter) {
-                            this_ ()->add_crash_fault ("after", "write", path_str, "none"); 
+                            this_ ()->add_crash_fault ("after", "write", escape_regex (path_str), "none"); 
                             spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                             res= true;
                         }
@@ -652,7 +663,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                         } 
                     }
 
-                    this_ ()->add_crash_fault ("after", "write", path_s, "none");            
+                    this_ ()->add_crash_fault ("after", "write", escape_regex (path_s), "none");            
                     spdlog::critical ("[lazyfs.faults]: Added crash fault ");  
                     res = true;        
                 }
-- 
2.43.0


From 0ca4bafbc74646010064b396a1c77e5d3284c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:29 +0000
Subject: [PATCH 15/29] fix: torn-op adds the remainder of the write to its
 last part

---
 lazyfs/src/lazyfs.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 2f5aec9..1a643d7 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -601,18 +601,16 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                 split_fault->counter.fetch_add(1);
 
                 if (split_fault->counter.load() == split_fault->occurrence) {
-                    fd = open(path, O_CREAT|O_WRONLY, 0666);
-                    vector<tuple<int,int,int>> persist_info; 
+                    vector<tuple<size_t,size_t,off_t>> persist_info; 
                     persist_info.reserve((split_fault->persist).size());
 
                     size_t size_to_persist;
                     off_t off_to_persist;
-                    int buf_i;
+                    size_t buf_i;
 
                     if (split_fault->parts == -1) {
                         for (auto & p : split_fault->persist) { //not equal parts
-                            int sum = 0;
-                            int sum_until_persist = 0;
+                            size_t sum = 0;
                             buf_i = 0;
                         
                             for (int i = 0; i< split_fault->parts_bytes.size(); i++) {
@@ -629,7 +627,7 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                                 off_to_persist = offset + buf_i;
                             }
 
-                            tuple <int,int,int> info_part (buf_i,size_to_persist,off_to_persist);
+                            tuple <size_t,size_t,off_t> info_part (buf_i,size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                         }
                         
@@ -644,25 +642,30 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                             size_t final_size_to_persist = size_to_persist;
 
                             off_to_persist = offset + (p - 1) * size_to_persist;
-                            if (extra_size_to_persist>0 && p_i == split_fault->persist.size()-1) {
+                            if (extra_size_to_persist>0 && p == split_fault->parts) {
                                 spdlog::info("[lazyfs.warning]: The value of 'parts' specified for the split write fault does not evenly divide the size of the write to split. We recommend changing this value, since to the last part will be added the extra bytes.");
                                 final_size_to_persist += extra_size_to_persist;
                             }
                             
-                            tuple <int,int,int> info_part (buf_i,final_size_to_persist,off_to_persist);
+                            tuple <size_t,size_t,off_t> info_part (buf_i,final_size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                          }
                     }
 
+                    fd = open(path, O_CREAT|O_WRONLY, 0666);
+
                     for (auto & persist : persist_info) {
-                        int pw = pwrite(fd,buf+get<0>(persist),get<1>(persist),get<2>(persist));
+                        ssize_t pw = pwrite(fd,buf+get<0>(persist),get<1>(persist),get<2>(persist));
                         if (pw==get<1>(persist)) spdlog::warn ("[lazyfs.faults]: Write to path {}: will persist {} bytes from offset {}",path,get<1>(persist),get<2>(persist));      
                         else {
                             spdlog::warn("[lazyfs.faults]: There was a problem spliting the {} write for the file {} (pwrite failed).",split_fault->occurrence,path);
+                            close(fd);
                             return res;
                         } 
                     }
 
+                    close(fd);
+
                     this_ ()->add_crash_fault ("after", "write", escape_regex (path_s), "none");            
                     spdlog::critical ("[lazyfs.faults]: Added crash fault ");  
                     res = true;        
-- 
2.43.0


From 4e4edb017399819f7d0f94f4aacc121904e74cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:20 +0000
Subject: [PATCH 16/29] fix: torn-seq keeps the first write of each file apart
 and sorts runtime persist lists

---
 lazyfs/include/lazyfs/lazyfs.hpp |  4 ++--
 lazyfs/src/lazyfs.cpp            | 27 +++++++++++++++++----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index cef5bab..7ddf3e0 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -113,9 +113,9 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
     std::unordered_map<string, unordered_set<string>> crash_faults;
 
     /**
-     * @brief Write that was put on hold and may or may not be persisted.
+     * @brief For each path, the write that was put on hold and may or may not be persisted.
      */
-    Write *pending_write;
+    unordered_map<string, Write*> pending_writes;
 
     /**
      * @brief Lock for pending write.
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 1a643d7..3bf2441 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -79,7 +79,6 @@ LazyFS::LazyFS (Cache* cache,
     this->faults_handler_thread = faults_handler_thread;
     this->fht_worker            = fht_worker;
     this->faults                = faults;
-    this->pending_write         = NULL;
 
     for (auto const& it : this->allow_crash_fs_operations) {
         this->crash_faults_before_map.insert ({it, {}});
@@ -315,6 +314,9 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
         ++iter;
     }
 
+    //Sorting the persist vector is necessary for injecting this fault
+    sort(persistv.begin(), persistv.end());
+
     faults::ReorderF* fault = new faults::ReorderF(op, persistv, 1);
     vector<string> errors = fault->validate();
 
@@ -469,9 +471,10 @@ void LazyFS::restart_counter(string path, string op) {
 bool LazyFS::check_and_delete_pendingwrite(const char* path) {
     bool res = false;
     (this->write_lock).lock();
-    if (this->pending_write && (res = (strcmp(this->pending_write->path,path) == 0))) {
-        delete(this->pending_write); 
-        this->pending_write = NULL;
+    auto it = this->pending_writes.find(path);
+    if ((res = (it != this->pending_writes.end()))) {
+        delete(it->second); 
+        this->pending_writes.erase(it);
     }
     (this->write_lock).unlock();
 
@@ -526,15 +529,19 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
             fault->group_counter.fetch_add(1);
         }
 
-        if (this->pending_write!=NULL) {
+        auto pending = this->pending_writes.find(path_str);
+
+        if (pending != this->pending_writes.end()) {
+            Write* pending_write = pending->second;
+
             //Update group counter
             if (fault->group_counter.load() == fault->occurrence) {
-                fd = open (this->pending_write->path, O_CREAT|O_WRONLY, 0666);
-                pw = pwrite(fd,this->pending_write->buf,this->pending_write->size,this->pending_write->offset);
+                fd = open (pending_write->path, O_CREAT|O_WRONLY, 0666);
+                pw = pwrite(fd,pending_write->buf,pending_write->size,pending_write->offset);
                 spdlog::warn ("[lazyfs.faults]: Going to persist the write 1 for the path {}",path_str);
                 close(fd);
 
-                if (pw==this->pending_write->size) {
+                if (pw==pending_write->size) {
                     if ((fault->persist).size()==1) {
                         this_ ()->add_crash_fault ("after", "write", escape_regex (path_str), "none");            
                         spdlog::critical ("[lazyfs.faults]: Added crash fault ");
@@ -545,14 +552,14 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     spdlog::warn ("[lazyfs.faults]: Something went wrong when trying to persist the 1st write for path {} (pwrite failed).", path);
                 }
             }
-            delete(this->pending_write); this->pending_write = NULL;
+            delete(pending_write); this->pending_writes.erase(pending);
         }
         (this->write_lock).unlock();
         
         if (find((fault->persist).begin(), (fault->persist).end(), fault->counter.load()) != (fault->persist).end()) {  //If count is in vector persist
             if (fault->counter==1) { //If array persist has 1st write, we need to store this write until we know another write will happen
                 (this->write_lock).lock();
-                this->pending_write = new Write(path,buf,size,offset);
+                this->pending_writes[path_str] = new Write(path,buf,size,offset);
                 (this->write_lock).unlock();
                 
             } else {
-- 
2.43.0


From 1eb2a6b7533e579fe68983413e454d2bd80f268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:20 +0000
Subject: [PATCH 17/29] fix: invalid torn-seq faults in the configuration are
 rejected

---
 libs/libpcache/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index 6466e59..b3a5eea 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -202,7 +202,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                 vector<string> errors;
                 if (valid_fault) {
                     fault = new faults::ReorderF(op,persist,occurrence);
-                    vector<string> errors = fault->validate();
+                    errors = fault->validate();
                 }
 
                 if (!valid_fault || errors.size() > 0) {
-- 
2.43.0


From 7acb8181a5b3e4ae5feacbd47b91449d0ac19be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:20 +0000
Subject: [PATCH 18/29] fix: unsynced data report reads past the last block and
 hides the wrong files

---
 lazyfs/src/lazyfs.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 3bf2441..bcdda55 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -364,7 +364,7 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
             
             bool report = true;
             if (paths_to_exclude.size() > 0) {
-                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) != files_mapped.end();
+                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) == files_mapped.end();
             }
 
             if(report) {
@@ -389,7 +389,10 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                             first_block_id       = block_id;
                         }
 
-                        if (block_id != (get<0> (*std::next (block_it)) - 1)) {
+                        auto next_it = std::next (block_it);
+
+                        if (next_it == std::get<2> (it).end () ||
+                            block_id != (get<0> (*next_it) - 1)) {
 
                             spdlog::info (
                                 "[lazyfs.cmds]: report: [inode {}] info: (block {}) to (block "
@@ -401,8 +404,8 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                                 (offs.second + block_id * FSConfig->IO_BLOCK_SIZE) -
                                     (first_block_id * FSConfig->IO_BLOCK_SIZE));
 
-                            last_block_off_start = offs.first;
-                            last_block_index     = block_id;
+                            // the next block starts another range
+                            last_block_index = -1;
                         }
 
                         total_bytes_unsynced +=
-- 
2.43.0


From 1eb1d0838c87c5ce97e99103c2943d7b55acb09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 19/29] fix: fault commands are split at newlines instead of at
 100 bytes

---
 lazyfs/src/main.cpp | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 851f844..89f9dfe 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -56,12 +56,17 @@ void fht_worker (LazyFS* filesystem) {
 
     char buffer[MAX_READ_CHUNK];
     int ret;
+    std::string received;
     while (true) {
-        if ((ret = read (fd_fifo, &buffer, MAX_READ_CHUNK)) > 0) {
 
-            buffer[ret - 1] = '\0';
+        // a command is a line, whatever the chunks it is read in
+        size_t line_end = received.find ('\n');
+
+        if (line_end != std::string::npos) {
+
+            std::string command_str = received.substr (0, line_end);
+            received.erase (0, line_end + 1);
 
-            std::string command_str = string (buffer);
             if (command_str.rfind ("lazyfs::crash", 0) == 0) {
 
                 std::regex rgx_global ("::");
@@ -172,9 +177,9 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
-            } else if (!strcmp (buffer, "lazyfs::clear-cache")) {
+            } else if (command_str == "lazyfs::clear-cache") {
 
-                spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
+                spdlog::info ("[lazyfs.faults.worker]: received '{}'", command_str);
                 filesystem->command_fault_clear_cache ();
                 
                 if (write_completed_faults) {
@@ -187,7 +192,7 @@ void fht_worker (LazyFS* filesystem) {
                 }
 
             } else if (command_str.rfind ("lazyfs::torn-op", 0) == 0) {
-                spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
+                spdlog::info ("[lazyfs.faults.worker]: received '{}'", command_str);
                 
                 std::regex rgx_global ("::");
                 std::regex rgx_attrib ("=");
@@ -273,7 +278,7 @@ void fht_worker (LazyFS* filesystem) {
                     errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist);
 
                 if (errors_add_torn_op.size() == 0) 
-                        spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
+                        spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", command_str);
                 else {
                     spdlog::warn ("[lazyfs.faults.worker]: received: INVALID torn-op fault:");
 
@@ -286,7 +291,7 @@ void fht_worker (LazyFS* filesystem) {
                 }
                 
             } else if (command_str.rfind ("lazyfs::torn-seq", 0) == 0) {
-                spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
+                spdlog::info ("[lazyfs.faults.worker]: received '{}'", command_str);
                 
                 std::regex rgx_global ("::");
                 std::regex rgx_attrib ("=");
@@ -350,7 +355,7 @@ void fht_worker (LazyFS* filesystem) {
                     errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist);
 
                 if (errors_add_torn_seq.size() == 0)
-                        spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
+                        spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", command_str);
                 else {  
                         errors.insert(errors.end(), errors_add_torn_seq.begin(), errors_add_torn_seq.end());
 
@@ -361,25 +366,25 @@ void fht_worker (LazyFS* filesystem) {
                         }
                 }      
             
-            } else if (!strcmp (buffer, "lazyfs::display-cache-usage")) {
+            } else if (command_str == "lazyfs::display-cache-usage") {
 
-                spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
+                spdlog::info ("[lazyfs.faults.worker]: received '{}'", command_str);
                 filesystem->command_display_cache_usage ();
 
-            } else if (!strcmp (buffer, "lazyfs::cache-checkpoint")) {
+            } else if (command_str == "lazyfs::cache-checkpoint") {
 
-                spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
+                spdlog::info ("[lazyfs.faults.worker]: received '{}'", command_str);
                 filesystem->command_checkpoint ();
 
-            } else if (!strcmp (buffer, "lazyfs::unsynced-data-report")) {
+            } else if (command_str == "lazyfs::unsynced-data-report") {
 
-                spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
+                spdlog::info ("[lazyfs.faults.worker]: received '{}'", command_str);
                 vector<string> injecting_fault = filesystem->get_injecting_fault ();
                 filesystem->command_unsynced_data_report (injecting_fault);
                 
-            } else if (!strcmp (buffer, "lazyfs::help")) {
+            } else if (command_str == "lazyfs::help") {
 
-                spdlog::info ("[lazyfs.faults.worker]: <" + string (buffer) + ">");
+                spdlog::info ("[lazyfs.faults.worker]: <" + command_str + ">");
 
                 spdlog::info (
                     "[lazyfs.faults.worker] help: 'lazyfs::clear-cache' => clears un-fsynced data");
@@ -396,10 +401,12 @@ void fht_worker (LazyFS* filesystem) {
 
             } else {
 
-                spdlog::info ("[lazyfs.faults.worker]: command unknown '{}'", string (buffer));
+                spdlog::info ("[lazyfs.faults.worker]: command unknown '{}'", command_str);
             }
 
-        } else
+        } else if ((ret = read (fd_fifo, &buffer, MAX_READ_CHUNK)) > 0)
+            received.append (buffer, ret);
+        else
             break;
     }
 
-- 
2.43.0


From 1e2611d5acdc95268ad323068981e1088e603589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:28 +0000
Subject: [PATCH 20/29] fix: malformed fault commands are rejected instead of
 stopping LazyFS

---
 lazyfs/src/lazyfs.cpp | 45 ++++++++++++++++++-------------------------
 lazyfs/src/main.cpp   | 28 ++++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index bcdda55..50206ee 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -240,32 +240,30 @@ void LazyFS::add_crash_fault (string crash_timing,
     }
 }
 
-vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist) {
+// numbers of a list separated by commas; false if one of them does not fit an int
+static bool parse_numbers (const string& list, vector<int>& numbers) {
     regex number ("\\d+");
-    sregex_token_iterator iter(persist.begin(), persist.end(), number);
+    sregex_token_iterator iter(list.begin(), list.end(), number);
     sregex_token_iterator end;
-    vector<int> persistv;
 
-    while (iter != end) {
-        persistv.push_back(std::stoi(*iter));
-        ++iter;
+    try {
+        for (; iter != end; ++iter)
+            numbers.push_back(std::stoi(*iter));
+    } catch (const std::out_of_range&) {
+        return false;
     }
 
-    vector<int> parts_bytes_v;
-    if (parts_bytes != "none") {
-        sregex_token_iterator iter(parts_bytes.begin(), parts_bytes.end(), number);
-        sregex_token_iterator end;
+    return true;
+}
 
-        while (iter != end) {
-            parts_bytes_v.push_back(std::stoi(*iter));
-            ++iter;
-        }   
-    }
+vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist) {
+    vector<int> persistv, parts_bytes_v, partsv;
 
-    int partsi = -1;
-    if (parts != "none") {
-        partsi = stoi(parts);
-    }
+    if (!parse_numbers(persist, persistv) || !parse_numbers(parts, partsv) ||
+        !parse_numbers(parts_bytes, parts_bytes_v))
+        return {"Numbers are too large."};
+
+    int partsi = partsv.empty() ? -1 : partsv[0];
 
     int occurrence=1;
 
@@ -304,15 +302,10 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
 }
 
 vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist) {
-    regex number ("\\d+");
-    sregex_token_iterator iter(persist.begin(), persist.end(), number);
-    sregex_token_iterator end;
     vector<int> persistv;
 
-    while (iter != end) {
-        persistv.push_back(std::stoi(*iter));
-        ++iter;
-    }
+    if (!parse_numbers(persist, persistv))
+        return {"Numbers are too large."};
 
     //Sorting the persist vector is necessary for injecting this fault
     sort(persistv.begin(), persistv.end());
diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 89f9dfe..654cf13 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -130,6 +130,18 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
+                if (crash_operation == "none" || crash_timing == "none") {
+                    VF = false;
+                    errors.push_back ("should specify 'op' and 'timing'");
+                }
+
+                try {
+                    std::regex from_rgx (crash_from_rgx), to_rgx (crash_to_rgx);
+                } catch (const std::regex_error&) {
+                    VF = false;
+                    errors.push_back ("'from_rgx' and 'to_rgx' should be regular expressions");
+                }
+
                 bool is_from_to = false;
 
                 if (filesystem->fs_op_multi_path.find (crash_operation) !=
@@ -268,7 +280,12 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
-                if (parts=="none" && parts_bytes=="none") {
+                if (file=="none" || persist=="none") {
+                    errors.push_back ("should specify 'file' and 'persist'");
+                    valid_fault = false;
+                }
+
+                if ((parts=="none") == (parts_bytes=="none")) {
                     errors.push_back ("should specify 'parts' or 'parts_bytes', not both");
                     valid_fault = false;
                 }
@@ -277,7 +294,7 @@ void fht_worker (LazyFS* filesystem) {
                 if (valid_fault) 
                     errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist);
 
-                if (errors_add_torn_op.size() == 0) 
+                if (valid_fault && errors_add_torn_op.size() == 0) 
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", command_str);
                 else {
                     spdlog::warn ("[lazyfs.faults.worker]: received: INVALID torn-op fault:");
@@ -350,11 +367,16 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
+                if (file=="none" || op=="none" || persist=="none") {
+                    errors.push_back ("should specify 'file', 'op' and 'persist'");
+                    valid_fault = false;
+                }
+
                 vector<string> errors_add_torn_seq;
                 if (valid_fault) 
                     errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist);
 
-                if (errors_add_torn_seq.size() == 0)
+                if (valid_fault && errors_add_torn_seq.size() == 0)
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", command_str);
                 else {  
                         errors.insert(errors.end(), errors_add_torn_seq.begin(), errors_add_torn_seq.end());
-- 
2.43.0


From 7339a699ce68723365d5522d3246831d2987054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:28 +0000
Subject: [PATCH 21/29] fix: torn-op and torn-seq commands accept the
 documented occurrence

---
 lazyfs/include/lazyfs/lazyfs.hpp |  4 ++--
 lazyfs/src/lazyfs.cpp            | 16 ++++++++--------
 lazyfs/src/main.cpp              | 28 ++++++++++++++++++++++++++--
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 7ddf3e0..b75c226 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -378,7 +378,7 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      * @param persist which parts of the write to persist
      * @return errors
     */
-    vector<string> add_torn_seq_fault(string path, string op, string persist);
+    vector<string> add_torn_seq_fault(string path, string op, string persist, string occurrence_str);
 
     /**
      * @brief Adds a torn-op fault to the faults map. Returns a vector with errors if any.
@@ -389,7 +389,7 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      * @param persist which parts of the write to persist
      * @return errors
     */
-    vector<string> add_torn_op_fault(string path, string parts, string parts_bytes, string persist);
+    vector<string> add_torn_op_fault(string path, string parts, string parts_bytes, string persist, string occurrence_str);
 
     /**
      * @brief Kills lazyfs with SIGKILL if any fault condition verifies
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 50206ee..ca347b0 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -256,16 +256,16 @@ static bool parse_numbers (const string& list, vector<int>& numbers) {
     return true;
 }
 
-vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist) {
-    vector<int> persistv, parts_bytes_v, partsv;
+vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist, string occurrence_str) {
+    vector<int> persistv, parts_bytes_v, partsv, occurrencev;
 
     if (!parse_numbers(persist, persistv) || !parse_numbers(parts, partsv) ||
-        !parse_numbers(parts_bytes, parts_bytes_v))
+        !parse_numbers(parts_bytes, parts_bytes_v) || !parse_numbers(occurrence_str, occurrencev))
         return {"Numbers are too large."};
 
     int partsi = partsv.empty() ? -1 : partsv[0];
 
-    int occurrence=1;
+    int occurrence=occurrencev[0];
 
     faults::SplitWriteF* fault;
     vector<string> errors;
@@ -301,16 +301,16 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
     return errors;
 }
 
-vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist) {
-    vector<int> persistv;
+vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist, string occurrence_str) {
+    vector<int> persistv, occurrencev;
 
-    if (!parse_numbers(persist, persistv))
+    if (!parse_numbers(persist, persistv) || !parse_numbers(occurrence_str, occurrencev))
         return {"Numbers are too large."};
 
     //Sorting the persist vector is necessary for injecting this fault
     sort(persistv.begin(), persistv.end());
 
-    faults::ReorderF* fault = new faults::ReorderF(op, persistv, 1);
+    faults::ReorderF* fault = new faults::ReorderF(op, persistv, occurrencev[0]);
     vector<string> errors = fault->validate();
 
     bool valid_fault = true;
diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 654cf13..67794d4 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -218,6 +218,7 @@ void fht_worker (LazyFS* filesystem) {
                 string parts = "none";
                 string parts_bytes = "none";
                 string persist = "none";
+                string occurrence = "1";
 
                 bool valid_fault = true;
                 vector<string> errors;
@@ -274,6 +275,17 @@ void fht_worker (LazyFS* filesystem) {
                         } else 
                             persist = tmp_persist;
                         
+                    } else if (current.rfind ("occurrence=", 0) == 0) {
+
+                        string tmp_occurrence = current.erase (0, current.find ("=") + 1);
+                        std::regex pattern(R"(\d+)");
+
+                        if (!std::regex_match(tmp_occurrence, pattern)) {
+                            errors.push_back ("occurrence should be a number");
+                            valid_fault = false;
+                        } else 
+                            occurrence = tmp_occurrence;
+
                     } else if (current != "lazyfs" && current != "torn-op") {
                         errors.push_back ("unknown attribute");
                         valid_fault = false;
@@ -292,7 +304,7 @@ void fht_worker (LazyFS* filesystem) {
                 
                 vector<string> errors_add_torn_op;
                 if (valid_fault) 
-                    errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist);
+                    errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist, occurrence);
 
                 if (valid_fault && errors_add_torn_op.size() == 0) 
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", command_str);
@@ -321,6 +333,7 @@ void fht_worker (LazyFS* filesystem) {
                 string file = "none";
                 string op = "none";
                 string persist = "none";
+                string occurrence = "1";
 
                 bool valid_fault = true;
                 vector<string> errors;
@@ -361,6 +374,17 @@ void fht_worker (LazyFS* filesystem) {
                         } else 
                             persist = tmp_per;
                         
+                    } else if (current.rfind ("occurrence=", 0) == 0) {
+
+                        string tmp_occurrence = current.erase (0, current.find ("=") + 1);
+                        std::regex pattern(R"(\d+)");
+
+                        if (!std::regex_match(tmp_occurrence, pattern)) {
+                            errors.push_back ("occurrence should be a number");
+                            valid_fault = false;
+                        } else 
+                            occurrence = tmp_occurrence;
+
                     } else if (current != "lazyfs" && current != "torn-seq") {
                         errors.push_back ("unknown attribute");
                         valid_fault = false;
@@ -374,7 +398,7 @@ void fht_worker (LazyFS* filesystem) {
 
                 vector<string> errors_add_torn_seq;
                 if (valid_fault) 
-                    errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist);
+                    errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist, occurrence);
 
                 if (valid_fault && errors_add_torn_seq.size() == 0)
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", command_str);
-- 
2.43.0


From 38f069b96df6aa85d282684367acb6dfc419ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:28 +0000
Subject: [PATCH 22/29] fix: cache sizes of zero or with an unknown unit are
 rejected

---
 libs/libpcache/src/config/config.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index b3a5eea..8a6ea5d 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -37,6 +37,7 @@ Config::Config (size_t io_blk_sz, size_t pg_sz, size_t nr_pgs) {
 void Config::setup_config_manually (size_t io_blk_sz, size_t pg_sz, size_t nr_pgs) {
     // assert (((io_blk_sz & (io_blk_sz - 1)) == 0) && "'IO Block Size' must be a power of 2.");
     assert ((nr_pgs != 0) && "'No. of pages' must be != 0.");
+    assert ((io_blk_sz != 0 && pg_sz != 0) && "'IO Block Size' and 'Page Size' must be != 0.");
     assert (((pg_sz % io_blk_sz) == 0) && "'IO Block Size' must be a multiple of 'Page Size'");
 
     this->CACHE_NR_PAGES  = nr_pgs;
@@ -48,6 +49,7 @@ void Config::setup_config_by_size (size_t prealloc_bytes, int nr_blocks_per_page
 
     this->is_default_config = false;
     assert (prealloc_bytes >= this->IO_BLOCK_SIZE);
+    assert ((nr_blocks_per_page > 0) && "'Blocks per page' must be > 0.");
 
     size_t total_bytes = std::ceil (prealloc_bytes);
 
@@ -104,10 +106,12 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
 
         if (size_type == "gb" || size_type == "g")
             size_bytes = One_Gigabyte;
-        if (size_type == "mb" || size_type == "m")
+        else if (size_type == "mb" || size_type == "m")
             size_bytes = One_Megabyte;
-        if (size_type == "kb" || size_type == "k")
+        else if (size_type == "kb" || size_type == "k")
             size_bytes = One_Kilobyte;
+        else
+            throw std::runtime_error("The unit of 'custom_size' should be Gb, Mb or Kb.");
 
         size_t total = size_bytes * atof (size_tmp.c_str ());
 
-- 
2.43.0


From 00bc79fa27950189a0ee3b154fe779e17b98ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:23 +0000
Subject: [PATCH 23/29] fix: configuration paths with -o in their name are
 accepted

---
 lazyfs/src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 67794d4..50c2087 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -477,7 +477,8 @@ int main (int argc, char* argv[]) {
 
         if (!strcmp (argv[i], "--config-path")) {
 
-            if (strcasestr (argv[i + 1], "-o"))
+            // a missing path, not a path with "-o" in its name
+            if (i + 1 >= argc || strncasecmp (argv[i + 1], "-o", 2) == 0)
 
                 path_specified = false;
 
-- 
2.43.0


From 88e44870b1d20a89710f671b105de442cef54c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:53 +0000
Subject: [PATCH 24/29] fix: truncate that cannot extend the file reports the
 failure

---
 lazyfs/src/lazyfs.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index ca347b0..204b5d5 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1818,16 +1818,11 @@ int LazyFS::truncate_in_cache (const char* path, off_t truncate_size, struct fus
 
         int r = write_to_cache (path, buf, add_bytes_total, add_bytes_from_offset, fi);
 
-        if (r != add_bytes_total) {
-
-            if (fi != NULL)
-                res = ftruncate (fi->fh, truncate_size);
-            else
-                res = truncate (path, truncate_size);
-        }
-
         free (buf);
 
+        if (r != add_bytes_total)
+            return r < 0 ? r : -EIO;
+
     } else if (truncate_size < previous_metadata->size) {
 
         this_ ()->FSCache->truncate_item (inode, truncate_size);
-- 
2.43.0


From 9fd209edb8dd454dc79d32a76e27f8383cfbe130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:53 +0000
Subject: [PATCH 25/29] fix: open with O_TRUNC reports a failed truncation

---
 lazyfs/src/lazyfs.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 204b5d5..ca5ef70 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -869,8 +869,15 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
         spdlog::info ("[lazyfs.ops]: {}(path={},mode={})", __FUNCTION__, path, access_mode_str);
     }
 
-    if (fi->flags & O_TRUNC)
-        truncate_in_cache (path, 0, fi);
+    if (fi->flags & O_TRUNC) {
+
+        res = truncate_in_cache (path, 0, fi);
+
+        if (res < 0) {
+            close (fi->fh);
+            return res;
+        }
+    }
 
     lock.unlock ();
 
-- 
2.43.0


From 6c0e6e8c8bd3d1a000a57f80295071e8f163d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:09 +0000
Subject: [PATCH 26/29] fix: with eviction, file contents are read and changed
 one operation at a time

---
 lazyfs/src/lazyfs.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index ca5ef70..ba0043e 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -40,6 +40,10 @@ using namespace cache::engine::backends::custom;
 
 std::shared_mutex cache_command_lock;
 
+// With eviction enabled, a block found in the cache must still be there when it is used:
+// reads and changes of file contents do not overlap then.
+std::mutex eviction_lock;
+
 namespace lazyfs {
 
 /* Write class */
@@ -979,8 +983,15 @@ int LazyFS::lfs_write (const char* path,
         spdlog::info ("[lazyfs.ops]: {}(path={},size={},off={})", __FUNCTION__, path, size, offset);
     }
 
+    std::unique_lock<std::mutex> content_lock (eviction_lock, std::defer_lock);
+    if (this_ ()->FSConfig->APPLY_LRU_EVICTION)
+        content_lock.lock ();
+
     int res = write_to_cache (path, buf, size, offset, fi);
 
+    if (content_lock.owns_lock ())
+        content_lock.unlock ();
+
     if (res < 0)
         return res;
 
@@ -1356,6 +1367,10 @@ int LazyFS::lfs_read (const char* path,
         spdlog::info ("[lazyfs.ops]: {}(path={},size={},off={})", __FUNCTION__, path, size, offset);
     }
 
+    std::unique_lock<std::mutex> content_lock (eviction_lock, std::defer_lock);
+    if (this_ ()->FSConfig->APPLY_LRU_EVICTION)
+        content_lock.lock ();
+
     int fd;
     int res = 0;
 
@@ -1586,6 +1601,9 @@ int LazyFS::lfs_read (const char* path,
     if (fi == NULL)
         close (fd);
 
+    if (content_lock.owns_lock ())
+        content_lock.unlock ();
+
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
@@ -1750,6 +1768,10 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
 int LazyFS::truncate_in_cache (const char* path, off_t truncate_size, struct fuse_file_info* fi) {
 
+    std::unique_lock<std::mutex> content_lock (eviction_lock, std::defer_lock);
+    if (this_ ()->FSConfig->APPLY_LRU_EVICTION)
+        content_lock.lock ();
+
     struct stat stats;
     int res = lfs_getattr (path, &stats, fi);
 
-- 
2.43.0


From b78562e776266360d1238cc56321f2569a662e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 27/29] fix: crash commands with unknown attributes or a
 misspelt keyword are refused

---
 lazyfs/src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 50c2087..f08aa54 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -127,6 +127,10 @@ void fht_worker (LazyFS* filesystem) {
 
                         if (tmp_to_rgx.length () != 0)
                             crash_to_rgx = tmp_to_rgx;
+
+                    } else if (current != "lazyfs" && current != "crash") {
+                        VF = false;
+                        errors.push_back ("unknown attribute");
                     }
                 }
 
-- 
2.43.0


From d400ec2bda7ad24207f18ce079a95b3036f594b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 28/29] fix: directory listings do not claim to know sizes and
 modes of their entries

---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index ba0043e..f9c47db 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -824,7 +824,7 @@ int LazyFS::lfs_readdir (const char* path,
         memset (&st, 0, sizeof (st));
         st.st_ino  = de->d_ino;
         st.st_mode = de->d_type << 12;
-        if (filler (buf, de->d_name, &st, 0, FUSE_FILL_DIR_PLUS))
+        if (filler (buf, de->d_name, &st, 0, (fuse_fill_dir_flags)0))
             break;
     }
 
-- 
2.43.0


From d6facb1476380d19bcfeebb2b84979b4b3159820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:42 +0000
Subject: [PATCH 29/29] fix: create reports an error when the new file cannot
 be looked up

---
 lazyfs/src/lazyfs.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index f9c47db..00b589a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -908,7 +908,12 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
     fi->fh = res;
 
     struct stat stbuf;
-    lfs_getattr (path, &stbuf, fi);
+    res = lfs_getattr (path, &stbuf, fi);
+
+    if (res < 0) {
+        close (fi->fh);
+        return res;
+    }
 
     string owner (path);
     string inode = to_string (stbuf.st_ino);
-- 
2.43.0

