From f955ac2fbaa6cb2c51931a0ee6ed7047918f1a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:06 +0000
Subject: [PATCH 01/74] fix: reject an out-of-range hash number in compactL0

---
 src/table_compaction.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 3f16ab5..ea2fd3f 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -764,6 +764,11 @@ Status TableMgr::compactL0(const CompactOptions& options,
         return Status::COMPACTION_IS_NOT_ALLOWED;
     }
 
+    if (hash_num >= getNumL0Partitions()) {
+        _log_warn(myLog, "invalid hash number %zu", (size_t)hash_num);
+        return Status::INVALID_PARAMETERS;
+    }
+
     Status s;
     const DBConfig* db_config = getDbConfig();
 
-- 
2.43.0


From 0af6c4677976dd97e1de7f6f960a08ca007c44ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:35 +0000
Subject: [PATCH 02/74] fix: add tombstones to the bloom filter so that deleted
 keys stay deleted

---
 src/table_file.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 4742da0..8d4c2a3 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -919,13 +919,13 @@ Status TableFile::setSingle(uint32_t key_hash_val,
 
     offset_out = doc.offset;
 
-    if (rec.isIns()) {
-        // Set bloom filter if exists.
-        if (bfByKey) {
-            uint64_t hash_pair[2];
-            get_hash_pair(db_config, rec.kv.key, false, hash_pair);
-            bfByKey->set(hash_pair);
-        }
+    // Set bloom filter if exists.
+    // WARNING: Tombstones should be found as well, otherwise
+    //          an older version in other tables will be returned.
+    if (bfByKey) {
+        uint64_t hash_pair[2];
+        get_hash_pair(db_config, rec.kv.key, false, hash_pair);
+        bfByKey->set(hash_pair);
     }
     // Put into booster if exists.
     if (tlbByKey) {
-- 
2.43.0


From ba60d0d834aa18a4d852a6cc452739dc6b169eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:48 +0000
Subject: [PATCH 03/74] fix: do not re-use sequence numbers of flushed but
 unsynced records after re-opening

---
 src/memtable.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 10c2195..0396a20 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1023,9 +1023,16 @@ Status MemTable::load(RwSerializer& rws,
     }
 
     if (NOT_INITIALIZED != last_seq) {
-        maxSeqNum = last_seq;
-        seqNumAlloc = last_seq;
-        syncedSeqNum = last_seq;
+        // NOTE:
+        //   Records that were flushed before they were synced exist only
+        //   in tables. Their sequence numbers should not be re-used.
+        uint64_t last_known_seq = last_seq;
+        if (valid_number(flushed_seq) && flushed_seq > last_known_seq) {
+            last_known_seq = flushed_seq;
+        }
+        maxSeqNum = last_known_seq;
+        seqNumAlloc = last_known_seq;
+        syncedSeqNum = last_known_seq;
     }
 
     if (NOT_INITIALIZED != last_seq && last_seq < synced_seq) {
-- 
2.43.0


From 95613d734299b70740d3b6277b533991fb70a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:58 +0000
Subject: [PATCH 04/74] fix: fast index scan should not put a record into a
 preceding table

---
 src/table_compaction.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index ea2fd3f..031b0dd 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -344,16 +344,22 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             cur_rec.kv.key.size--;
         }
 
-        // Check if `params.key` is prefix of `next_table->minKey`.
-        if ( next_table &&
-             cur_rec.kv.key.size < next_table->minKey.size ) {
-            SizedBuf tmp(cur_rec.kv.key.size, next_table->minKey.data);
-            if (SizedBuf::cmp(cur_rec.kv.key, tmp) == 0) {
-                // It is prefix, should read the whole record.
-                local_victim->file->getByOffset(nullptr, params.offset, cur_rec);
-                value_size = cur_rec.kv.value.size;
-                need_to_free = true;
+        // Check if `params.key` is prefix of the min key of any table
+        // (from `next_table`) that this record may belong to.
+        for (auto tt_itr = t_itr; tt_itr != tables.end(); ++tt_itr) {
+            const SizedBuf& tt_min_key = (*tt_itr)->minKey;
+            if (cur_rec.kv.key.size < tt_min_key.size) {
+                SizedBuf tmp(cur_rec.kv.key.size, tt_min_key.data);
+                if (SizedBuf::cmp(cur_rec.kv.key, tmp) == 0) {
+                    // It is prefix, should read the whole record.
+                    local_victim->file->getByOffset(nullptr, params.offset, cur_rec);
+                    value_size = cur_rec.kv.value.size;
+                    need_to_free = true;
+                    break;
+                }
             }
+            // The other tables have bigger min keys.
+            if (tt_min_key > cur_rec.kv.key) break;
         }
         update_next_table_info(cur_rec, params.offset, value_size);
 
-- 
2.43.0


From 0f6b5cf35d25112a06e69629c4b8814ed2d74207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:23 +0000
Subject: [PATCH 05/74] fix: flushing up to a given sequence number should not
 drop unsynced logs

---
 src/log_mgr.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index b881730..39cd1df 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1446,6 +1446,20 @@ Status LogMgr::flush(const FlushOptions& options,
         seq_num_local = seq_num;
         // If in purge only mode, don't need to load mem table.
         mani->getLogFileNumBySeq(seq_num_local, ln_to, options.purgeOnly);
+
+        if (!options.beyondLastSync && !options.purgeOnly) {
+            // WARNING:
+            //   Logs beyond the last sync are not flushed to tables,
+            //   so that they should not be removed either.
+            uint64_t last_synced_log = 0;
+            EP( mani->getLastSyncedLog(last_synced_log) );
+            if (ln_to > last_synced_log) ln_to = last_synced_log;
+
+            LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
+            uint64_t synced_seq = ll->file->getSyncedSeqNum();
+            if (!valid_number(synced_seq)) return Status::LOG_NOT_SYNCED;
+            if (seq_num_local > synced_seq) seq_num_local = synced_seq;
+        }
     }
     _log_debug(myLog, "Given seq upto %s, actual seq upto %ld",
                _seq_str(seq_num).c_str(), seq_num_local);
-- 
2.43.0


From 2e0c7560d7b79b34ece51439a0194af7768a65ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:29 +0000
Subject: [PATCH 06/74] fix: flushing up to a sequence number that no log file
 contains should not drop logs

---
 src/log_mgr.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 39cd1df..7f95ce1 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1445,7 +1445,22 @@ Status LogMgr::flush(const FlushOptions& options,
         // Not all logs, need to adjust `ln_to`.
         seq_num_local = seq_num;
         // If in purge only mode, don't need to load mem table.
-        mani->getLogFileNumBySeq(seq_num_local, ln_to, options.purgeOnly);
+        // If there is no exact match, take the last log file whose
+        // sequence numbers are smaller than the given number.
+        s = mani->getLogFileNumBySeq(seq_num_local, ln_to, options.purgeOnly, true);
+        if (!s) {
+            // Either bigger than any sequence number in logs (flush all),
+            // or smaller than any of them (nothing to flush).
+            LogFileInfoGuard ll(mani->getLogFileInfoP(ln_from, true));
+            uint64_t min_seq = ll->file->getMinSeqNum();
+            if (valid_number(min_seq) && seq_num_local < min_seq) {
+                uint64_t flushed_seq = ll->file->getFlushedSeqNum();
+                return ( valid_number(flushed_seq) && flushed_seq >= seq_num_local )
+                       ? Status::ALREADY_FLUSHED
+                       : Status::LOG_FILE_NOT_FOUND;
+            }
+            s = Status::OK;
+        }
 
         if (!options.beyondLastSync && !options.purgeOnly) {
             // WARNING:
-- 
2.43.0


From 57ce355835fa917cf6ec9dfc801ac30b318ae547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:04 +0000
Subject: [PATCH 07/74] fix: batch writes should not go to a log file loaded by
 re-opening

---
 src/log_mgr.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 7f95ce1..29283bf 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -811,6 +811,12 @@ Status LogMgr::setMultiInternal(const std::list<Record>& batch,
     } while (!lf_info || lf_info->isRemoved());
     LogFileInfoGuard g_li(lf_info);
 
+    // If this file is not writable (e.g., loaded by re-opening DB),
+    // move to a new log file before writing the first record.
+    if (!g_li->file->isValidToWrite()) {
+        addNewLogFile(g_li, g_li);
+    }
+
     for (auto& entry: batch) {
         const Record& rr = entry;
         EP( g_li->file->setSN(rr) );
-- 
2.43.0


From ae86f76fc96c6018213612fcab0122a857bad8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:04 +0000
Subject: [PATCH 08/74] fix: locate the log file to flush when the given
 sequence number is in a gap

---
 src/log_mgr.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 29283bf..ea20c9a 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1455,11 +1455,22 @@ Status LogMgr::flush(const FlushOptions& options,
         // sequence numbers are smaller than the given number.
         s = mani->getLogFileNumBySeq(seq_num_local, ln_to, options.purgeOnly, true);
         if (!s) {
-            // Either bigger than any sequence number in logs (flush all),
-            // or smaller than any of them (nothing to flush).
-            LogFileInfoGuard ll(mani->getLogFileInfoP(ln_from, true));
-            uint64_t min_seq = ll->file->getMinSeqNum();
+            // The given number is either bigger or smaller than any sequence
+            // number in logs, or does not exist. Find the last log file that
+            // contains smaller one.
+            uint64_t min_seq = NOT_INITIALIZED;
+            while (true) {
+                LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
+                min_seq = ll->file->getMinSeqNum();
+                if ( ln_to <= ln_from ||
+                     ( valid_number(min_seq) && min_seq <= seq_num_local ) ) {
+                    break;
+                }
+                ln_to--;
+            }
             if (valid_number(min_seq) && seq_num_local < min_seq) {
+                // Nothing to flush.
+                LogFileInfoGuard ll(mani->getLogFileInfoP(ln_from, true));
                 uint64_t flushed_seq = ll->file->getFlushedSeqNum();
                 return ( valid_number(flushed_seq) && flushed_seq >= seq_num_local )
                        ? Status::ALREADY_FLUSHED
-- 
2.43.0


From f27823b896f94af0497cf8c4262f31c0a4b37158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:33 +0000
Subject: [PATCH 09/74] fix: direct I/O read buffer should fit the instance
 that uses it

---
 src/fileops_directio.cc | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index cd6f3d3..e4b7306 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -73,7 +73,7 @@ public:
 };
 
 struct AlignedMemoryHolder {
-    explicit AlignedMemoryHolder(void* _bufPtr) : bufPtr(_bufPtr) {}
+    AlignedMemoryHolder() : bufPtr(nullptr), bufferSize(0), alignSize(0) {}
     ~AlignedMemoryHolder() {
         if (bufPtr) {
             free(bufPtr);
@@ -81,6 +81,8 @@ struct AlignedMemoryHolder {
         }
     }
     void* bufPtr;
+    size_t bufferSize;
+    size_t alignSize;
 };
 
 static FileHandleDirectIO* getHandle(FileHandle* fhandle) {
@@ -287,16 +289,25 @@ Status FileOpsDirectIO::pread(FileHandle* fhandle,
     auto file_size = static_cast<size_t>(file_size_tmp);
     if (offset + count > file_size) return Status::FILE_SIZE_MISMATCH;
 
-    // Aligned buffer to direct read
-    thread_local void* aligned_buf = nullptr;
-    thread_local Status aligned_buf_status = allocAlignedBuf(&aligned_buf);
-    thread_local auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
-    if (!aligned_buf_status) return aligned_buf_status;
-    assert(aligned_buf != nullptr && aligned_buf_char != nullptr);
-    thread_local AlignedMemoryHolder buf_holder(aligned_buf);
-    (void) buf_holder;
-
     Status s;
+
+    // Aligned buffer to direct read. It is shared by all instances whose
+    // size and alignment can be different, so that we should re-allocate it
+    // if the existing one doesn't fit in this instance.
+    thread_local AlignedMemoryHolder buf_holder;
+    if ( !buf_holder.bufPtr ||
+         buf_holder.bufferSize < bufferSize ||
+         buf_holder.alignSize % alignSize != 0 ) {
+        void* new_buf = nullptr;
+        EP(allocAlignedBuf(&new_buf));
+        free(buf_holder.bufPtr);
+        buf_holder.bufPtr = new_buf;
+        buf_holder.bufferSize = bufferSize;
+        buf_holder.alignSize = alignSize;
+    }
+    void* aligned_buf = buf_holder.bufPtr;
+    auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
+
     size_t aligned_file_offset = offset;
     size_t need_align = offset % alignSize;
     if (need_align > 0) {
-- 
2.43.0


From 8ee0301f7845830ebfc7d6889c2406133a1cd906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:17 +0000
Subject: [PATCH 10/74] fix: an empty log file should always be writable

---
 src/log_file.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index e41e98b..7721c5d 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -778,8 +778,14 @@ bool LogFile::isValidToWrite() {
     //    then not writable.
     uint32_t max_log_file_size = logMgr->getDbConfig()->maxLogFileSize;
     uint32_t max_log_entries = logMgr->getDbConfig()->maxEntriesInLogFile;
-    if ( immutable ||
-         fileSize > max_log_file_size ||
+    if (immutable) return false;
+
+    // A file without any record should accept the first one regardless of
+    // its size (e.g., padding of direct I/O): an empty file shares its seqnum
+    // range with the next file.
+    if (!mTable->getNumLogs()) return true;
+
+    if ( fileSize > max_log_file_size ||
          getMemTableSize() > max_log_file_size ||
          mTable->getNumLogs() >= max_log_entries )
         return false;
-- 
2.43.0


From d175fd787eac3662ef4078d1198b2e1f58923b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:17 +0000
Subject: [PATCH 11/74] fix: remove the bloom filter of a table when it is
 modified with the filter disabled

---
 src/table_file.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 8d4c2a3..673c7d0 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -1000,8 +1000,15 @@ Status TableFile::setBatch(std::list<Record*>& batch,
 
     // Save bloom filter.
     // WARNING: Writing bloom filter SHOULD BE DONE BEFORE COMMIT.
+    //          So should removing it: bloom filter is disabled now,
+    //          but this table may have a filter written before, which
+    //          does not contain the records above.
     Timer tt_bf;
-    if (bfByKey) saveBloomFilter(filename + ".bf", bfByKey, true);
+    if (bfByKey) {
+        saveBloomFilter(filename + ".bf", bfByKey, true);
+    } else if (fOps->exist(filename + ".bf")) {
+        fOps->remove(filename + ".bf");
+    }
     uint64_t bf_elapsed = tt_bf.getUs();
 
     if (!bulk_load_mode) {
-- 
2.43.0


From af8a068ac60d0cfb2d8371cceabf88541b643bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:25 +0000
Subject: [PATCH 12/74] fix: direct I/O eof should not be limited to 2 GB

---
 src/fileops_directio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index e4b7306..ed13a16 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -436,7 +436,7 @@ cs_off_t FileOpsDirectIO::eof(FileHandle* fhandle) {
     FileHandleDirectIO* phandle = getHandle(fhandle);
     if (!phandle) return -1;
     if (phandle->fd <= 0) return -1;
-    int r = ::lseek(phandle->fd, 0, SEEK_END);
+    cs_off_t r = ::lseek(phandle->fd, 0, SEEK_END);
     if (r < 0) {
         int n = errno;
         _log_err(myLog,
-- 
2.43.0


From 23994e61b24910fa3d6973cb575e35b386378d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:03 +0000
Subject: [PATCH 13/74] fix: fsync after truncating a direct I/O file should
 not be skipped

---
 src/fileops_directio.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index ed13a16..c67412b 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -522,7 +522,8 @@ Status FileOpsDirectIO::fsync(FileHandle* fhandle) {
     if (!phandle) return Status::NULL_FILEOPS_HANDLE;
     if (phandle->fd <= 0) return Status::INVALID_FILE_DESCRIPTOR;
     // Avoid duplicate fsync
-    if (phandle->fsyncedFilePos >= phandle->flushedFilePos) {
+    if ( phandle->fsyncedFilePos &&
+         phandle->fsyncedFilePos >= phandle->flushedFilePos ) {
         return Status();
     }
 
@@ -587,6 +588,10 @@ Status FileOpsDirectIO::ftruncate(FileHandle* fhandle,
         phandle->bufPos = need_align;
     }
 
+    // Truncation and the data that will be appended from now on
+    // are not synced yet.
+    phandle->fsyncedFilePos = 0;
+
     // Double check file size
     file_size_tmp = eof(fhandle);
     if (file_size_tmp < 0) return Status::ERROR;
-- 
2.43.0


From 10e48556621f7b06a619ca889ba924d9b835cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:59 +0000
Subject: [PATCH 14/74] fix: iterating a skiplist should not return the same
 node twice

---
 src/skiplist.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 0b765cf..818e8aa 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -629,8 +629,9 @@ find_retry:
                 goto find_retry;
             }
             cmp = _sl_cmp(slist, query, next_node);
-            if (cmp > 0) {
+            if (cmp > 0 || (mode == GT && cmp == 0)) {
                 // cur_node < next_node < query
+                //   (or `next_node` == query, when we need greater one)
                 // => move to next node
                 skiplist_node* temp = cur_node;
                 cur_node = next_node;
-- 
2.43.0


From b6cb7a7b0742a9b748c81b34c53351ac9ff5ad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:20 +0000
Subject: [PATCH 15/74] fix: erasing a skiplist node twice at the same time
 should not make it unfreeable

---
 src/skiplist.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 818e8aa..cf310c1 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -718,6 +718,13 @@ int skiplist_erase_node_passive(skiplist_raw *slist,
         return -2;
     }
 
+    // Other thread may have removed it in the meantime.
+    ATM_LOAD(node->removed, removed);
+    if (removed) {
+        ATM_STORE(node->being_modified, bool_false);
+        return -1;
+    }
+
     // set removed flag first, so that reader cannot read this node.
     ATM_STORE(node->removed, bool_true);
 
-- 
2.43.0


From 66127768f15df22210054aaa956a121daeda2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:34 +0000
Subject: [PATCH 16/74] fix: backup and restore should not ignore failures of
 truncate and sync

---
 src/internal_helper.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index 56157af..7f44684 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -287,9 +287,9 @@ Status BackupRestore::copyFile(FileOps* f_ops,
 
     TC( f_ops->pread(s_file, tmp_buf.data, tmp_buf.size, 0) );
     TC( f_ops->pwrite(d_file, tmp_buf.data, tmp_buf.size, 0) );
-    f_ops->ftruncate(d_file, file_size);
+    TC( f_ops->ftruncate(d_file, file_size) );
     if (call_fsync) {
-        f_ops->fsync(d_file);
+        TC( f_ops->fsync(d_file) );
     }
 
     f_ops->close(s_file);
@@ -339,9 +339,9 @@ Status BackupRestore::backup(FileOps* f_ops,
                            length - bytes_to_skip,
                            bytes_to_skip ) );
     }
-    f_ops->ftruncate(d_file, length);
+    TC( f_ops->ftruncate(d_file, length) );
     if (call_fsync) {
-        f_ops->fsync(d_file);
+        TC( f_ops->fsync(d_file) );
     }
     f_ops->close(d_file);
     delete d_file;
@@ -388,11 +388,11 @@ Status BackupRestore::backup(FileOps* f_ops,
                         bytes_to_skip ) );
     }
     if (file_size > length) {
-        f_ops->ftruncate(*file, length);
+        TC( f_ops->ftruncate(*file, length) );
     }
 
     if (call_fsync) {
-        f_ops->fsync(*file);
+        TC( f_ops->fsync(*file) );
     }
     return s;
    } catch (Status s) {
-- 
2.43.0


From a2b1cdf70bc9a641ed159f0c77afcb306762554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:18 +0000
Subject: [PATCH 17/74] fix: log messages should not be lost when the log
 buffer wraps around

---
 src/logger.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/logger.cc b/src/logger.cc
index d0c241d..5cebc1a 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -1192,16 +1192,19 @@ void SimpleLogger::put(int level,
         cursor_val = (cursor_exp + 1) % num;
         ll = &logs[cursor_exp];
     } while ( !cursor.compare_exchange_strong(cursor_exp, cursor_val, MOR) );
-    while ( !ll->available() ) std::this_thread::yield();
+    do {
+        while ( !ll->available() ) std::this_thread::yield();
 
-    if (ll->needToFlush()) {
-        // Allow only one thread to flush.
-        if (!flush(cursor_exp)) {
-            // Other threads: wait.
-            while (ll->needToFlush()) std::this_thread::yield();
+        if (ll->needToFlush()) {
+            // Allow only one thread to flush.
+            if (!flush(cursor_exp)) {
+                // Other threads: wait.
+                while (ll->needToFlush()) std::this_thread::yield();
+            }
         }
-    }
-    ll->write(cur_len, msg);
+        // If the other thread (whose cursor wrapped around) took this element
+        // first, wait for it to be available again.
+    } while ( ll->write(cur_len, msg) != 0 );
 
     if (level > curDispLevel) return;
 
-- 
2.43.0


From f2b08c07385a3845adb47c14762192f2830c888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:18 +0000
Subject: [PATCH 18/74] fix: shutting down the logger right after its
 initialization should not hang

---
 src/logger.cc | 10 ++++------
 src/logger.h  |  4 ++--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/logger.cc b/src/logger.cc
index 5cebc1a..033b516 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -497,11 +497,10 @@ void SimpleLoggerMgr::handleStackTrace(int sig, siginfo_t* info, void* secret) {
 
 // LCOV_EXCL_STOP
 
-void SimpleLoggerMgr::flushWorker() {
+void SimpleLoggerMgr::flushWorker(SimpleLoggerMgr* mgr) {
 #ifdef __linux__
     pthread_setname_np(pthread_self(), "sl_flusher");
 #endif
-    SimpleLoggerMgr* mgr = SimpleLoggerMgr::get();
     while (!mgr->chkTermination()) {
         // Every 500ms.
         size_t sub_ms = 500;
@@ -518,11 +517,10 @@ void SimpleLoggerMgr::flushWorker() {
     }
 }
 
-void SimpleLoggerMgr::compressWorker() {
+void SimpleLoggerMgr::compressWorker(SimpleLoggerMgr* mgr) {
 #ifdef __linux__
     pthread_setname_np(pthread_self(), "sl_compressor");
 #endif
-    SimpleLoggerMgr* mgr = SimpleLoggerMgr::get();
     bool sleep_next_time = true;
     while (!mgr->chkTermination()) {
         // Every 500ms.
@@ -593,8 +591,8 @@ SimpleLoggerMgr::SimpleLoggerMgr()
     stackTraceBuffer = (char*)malloc(STACK_TRACE_BUFFER_SIZE);
 
 #endif
-    tFlush = std::thread(SimpleLoggerMgr::flushWorker);
-    tCompress = std::thread(SimpleLoggerMgr::compressWorker);
+    tFlush = std::thread(SimpleLoggerMgr::flushWorker, this);
+    tCompress = std::thread(SimpleLoggerMgr::compressWorker, this);
 }
 
 SimpleLoggerMgr::~SimpleLoggerMgr() {
diff --git a/src/logger.h b/src/logger.h
index a9ecb10..7c886af 100644
--- a/src/logger.h
+++ b/src/logger.h
@@ -408,8 +408,8 @@ public:
 #if defined(__linux__) || defined(__APPLE__)
     static void handleStackTrace(int sig, siginfo_t* info, void* secret);
 #endif
-    static void flushWorker();
-    static void compressWorker();
+    static void flushWorker(SimpleLoggerMgr* mgr);
+    static void compressWorker(SimpleLoggerMgr* mgr);
 
     void logStackBacktrace(size_t timeout_ms = 60*1000);
     void flushCriticalInfo();
-- 
2.43.0


From 5f3b2a37f311921b89d249c930598c5a572f0211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:42:31 +0000
Subject: [PATCH 19/74] fix: point reads on a snapshot should use the tables of
 the snapshot

---
 src/table_file.cc |  9 ++++++---
 src/table_mgr.cc  | 42 +++++++++++++++++++++++++++++++++++-------
 src/table_mgr.h   |  4 ++++
 3 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 673c7d0..57b9c18 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -1109,7 +1109,8 @@ Status TableFile::get(DB* snap_handle,
         fdb_kvs_handle* kvs_db = nullptr;
         {   mGuard l(snapHandlesLock);
             auto entry = snapHandles.find(snap_handle);
-            if (entry == snapHandles.end()) return Status::SNAPSHOT_NOT_FOUND;
+            // If not exist, this table has no data at the snapshot.
+            if (entry == snapHandles.end()) return Status::KEY_NOT_FOUND;
             kvs_db = entry->second;
         }
 
@@ -1245,7 +1246,8 @@ Status TableFile::getNearest(DB* snap_handle,
         fdb_kvs_handle* kvs_db = nullptr;
         {   mGuard l(snapHandlesLock);
             auto entry = snapHandles.find(snap_handle);
-            if (entry == snapHandles.end()) return Status::SNAPSHOT_NOT_FOUND;
+            // If not exist, this table has no data at the snapshot.
+            if (entry == snapHandles.end()) return Status::KEY_NOT_FOUND;
             kvs_db = entry->second;
         }
 
@@ -1379,7 +1381,8 @@ Status TableFile::getPrefix(DB* snap_handle,
     if (snap_handle) {
         mGuard l(snapHandlesLock);
         auto entry = snapHandles.find(snap_handle);
-        if (entry == snapHandles.end()) return Status::SNAPSHOT_NOT_FOUND;
+        // If not exist, this table has no data at the snapshot.
+        if (entry == snapHandles.end()) return Status::KEY_NOT_FOUND;
         kvs_db = entry->second;
     } else {
         kvs_db = g.handle->db;
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 22e0f59..8fada37 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -556,6 +556,21 @@ Status TableMgr::storeManifest() {
     return Status();
 }
 
+void TableMgr::getTablesOfSnapshot(DB* snap_handle,
+                                   size_t level,
+                                   std::list<TableInfo*>& tables_out)
+{
+    // NOTE:
+    //   The current manifest may have tables that were created after the
+    //   snapshot, and may not have tables that were compacted since then.
+    //   A snapshot should always use the tables at the time it was opened.
+    for (TableInfo* t_info: *snap_handle->sn->tableList) {
+        if (t_info->level != level) continue;
+        t_info->grab();
+        tables_out.push_back(t_info);
+    }
+}
+
 Status TableMgr::get(DB* snap_handle,
                      Record& rec_inout,
                      bool meta_only)
@@ -571,14 +586,19 @@ Status TableMgr::get(DB* snap_handle,
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesPoint(ii, rec_inout.kv.key, tables);
-        if (!s) continue;
+        if (snap_handle) {
+            getTablesOfSnapshot(snap_handle, ii, tables);
+        } else {
+            s = mani->getTablesPoint(ii, rec_inout.kv.key, tables);
+            if (!s) continue;
+        }
 
         TableInfo* sm_table = nullptr;
         // [Only for L0]
         // Search smallest normal table first and then the others,
         // as it always has the newest data for the same key.
-        if (ii == 0) {
+        // (Not for snapshot: status of tables may have changed since then.)
+        if (ii == 0 && !snap_handle) {
             sm_table = getSmallestNormalTable(tables);
             if (sm_table) {
                 Record new_rec;
@@ -711,8 +731,12 @@ Status TableMgr::getNearest(DB* snap_handle,
     //   as closer key may exist in lower levels.
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesNearest(ii, key, tables, s_opt);
-        if (!s) continue;
+        if (snap_handle) {
+            getTablesOfSnapshot(snap_handle, ii, tables);
+        } else {
+            s = mani->getTablesNearest(ii, key, tables, s_opt);
+            if (!s) continue;
+        }
 
         bool found_intolerable_error = false;
         for (TableInfo* table: tables) {
@@ -761,8 +785,12 @@ Status TableMgr::getPrefix(DB* snap_handle,
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesPrefix(ii, prefix, tables);
-        if (!s) continue;
+        if (snap_handle) {
+            getTablesOfSnapshot(snap_handle, ii, tables);
+        } else {
+            s = mani->getTablesPrefix(ii, prefix, tables);
+            if (!s) continue;
+        }
 
         bool stopped = false;
         bool found_intolerable_error = false;
diff --git a/src/table_mgr.h b/src/table_mgr.h
index e951111..bc77a20 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -187,6 +187,10 @@ public:
 
     Status storeManifest();
 
+    void getTablesOfSnapshot(DB* snap_handle,
+                             size_t level,
+                             std::list<TableInfo*>& tables_out);
+
     Status get(DB* snap_handle,
                Record& rec_inout,
                bool meta_only = false);
-- 
2.43.0


From 3856916c7688fa9e322067fd3f7190049ce01620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:42:31 +0000
Subject: [PATCH 20/74] fix: finding an older version of a key in a table
 should not be an error

---
 src/table_mgr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 8fada37..e5cb5b8 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -649,7 +649,7 @@ Status TableMgr::get(DB* snap_handle,
                 new_rec.kv.key.clear();
                 new_rec.free();
 
-                if (s != Status::KEY_NOT_FOUND) {
+                if (!s.ok() && s != Status::KEY_NOT_FOUND) {
                     // This is intolerable error.
                     found_intolerable_error = true;
                 }
-- 
2.43.0


From 5a5794fff314e208dd920420271601c11c4261cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:42:46 +0000
Subject: [PATCH 21/74] fix: prefix search on a snapshot should not see newer
 records in the log

---
 src/jungle.cc  | 7 ++-----
 src/log_mgr.cc | 5 ++---
 src/log_mgr.h  | 3 +--
 3 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/jungle.cc b/src/jungle.cc
index 36427be..37fdc43 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -845,10 +845,8 @@ Status DB::getRecordsByPrefix(const SizedBuf& prefix,
         return cb_func(params);
     };
 
-    Record rec_local;
-    uint64_t chknum = (sn)?(sn->chkNum):(NOT_INITIALIZED);
-    std::list<LogFileInfo*>* l_list = (sn)?(sn->logList):(nullptr);
-    s = p->logMgr->getPrefix(chknum, l_list, prefix, cb_wrapper);
+    DB* snap_handle = (this->sn)?(this):(nullptr);
+    s = p->logMgr->getPrefix(snap_handle, prefix, cb_wrapper);
     if (s == Status::OPERATION_STOPPED) {
         // User wants to stop, return OK.
         return Status::OK;
@@ -858,7 +856,6 @@ Status DB::getRecordsByPrefix(const SizedBuf& prefix,
     }
 
     // Key not found or user wants to continue, search tables.
-    DB* snap_handle = (this->sn)?(this):(nullptr);
     s = p->tableMgr->getPrefix(snap_handle, prefix, cb_wrapper);
     if ( !s.ok() &&
          s != Status::OPERATION_STOPPED &&
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index ea20c9a..8d44eea 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1160,8 +1160,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
 
 #else
 // Iterator based implementation, which provides snapshot and key ordering.
-Status LogMgr::getPrefix(const uint64_t chk,
-                         std::list<LogFileInfo*>* l_list,
+Status LogMgr::getPrefix(DB* snap_handle,
                          const SizedBuf& prefix,
                          SearchCbFunc cb_func)
 {
@@ -1176,7 +1175,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
     };
 
     // Create an iterator, starting from prefix.
-    s = itr.init(nullptr, this, prefix, dummy);
+    s = itr.init(snap_handle, this, prefix, dummy);
     do {
         Record rec;
         s = itr.get(rec);
diff --git a/src/log_mgr.h b/src/log_mgr.h
index b08a888..83c4304 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -196,8 +196,7 @@ public:
                       Record& rec_out,
                       SearchOptions s_opt);
 
-    Status getPrefix(const uint64_t chk,
-                     std::list<LogFileInfo*>* l_list,
+    Status getPrefix(DB* snap_handle,
                      const SizedBuf& prefix,
                      SearchCbFunc cb_func);
 
-- 
2.43.0


From 3da888fef2ad2da722a207ff18fd7d9a9e7a82e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:08 +0000
Subject: [PATCH 22/74] fix: a migrated table should not be destroyed while a
 snapshot or iterator uses it

---
 src/table_compaction.cc |  2 +-
 src/table_manifest.h    | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 031b0dd..d2fac19 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -631,8 +631,8 @@ Status TableMgr::migrateLevel(const CompactOptions& options,
         auto eer = tables.rbegin();
         while (eer != tables.rend()) {
             TableInfo* ti = *eer;
-            ti->setMigration();
             TC( mani->addTableFile( level + 1, 0, ti->minKey, ti->file ) );
+            ti->setMigration( ti->file->getTableInfo() );
             eer++;
         }
 
diff --git a/src/table_manifest.h b/src/table_manifest.h
index 0606f57..895f6c5 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -59,6 +59,7 @@ struct TableInfo {
         , refCount(0)
         , removed(false)
         , migration(false)
+        , migratedTo(nullptr)
         , status( query_purpose ? QUERY_PURPOSE : NORMAL )
         , stack(nullptr)
         , baseTable(true)
@@ -104,6 +105,10 @@ struct TableInfo {
                 if (!migration) {
                     file->destroySelf();
                     delete file;
+                } else if (migratedTo) {
+                    // Now the next level's table info is allowed
+                    // to destroy the file.
+                    migratedTo->done();
                 }
                 delete this;
             }
@@ -117,7 +122,13 @@ struct TableInfo {
     void setRemoved()   { removed.store(true, MOR); }
     bool isRemoved()    { return removed.load(MOR); }
 
-    void setMigration()   { migration.store(true, MOR); }
+    void setMigration(TableInfo* next_level_info) {
+        // Anyone who grabbed this table info (e.g., snapshot or iterator)
+        // still uses the file, the file should outlive them.
+        next_level_info->grab();
+        migratedTo = next_level_info;
+        migration.store(true, MOR);
+    }
     bool isMigrating()    { return migration.load(MOR); }
 
     void setCompactSrc()    { return status.store(COMPACT_SRC, MOR); }
@@ -153,6 +164,9 @@ struct TableInfo {
     // Flag indicating that this table is being migrated.
     std::atomic<bool> migration;
 
+    // If migrated, table info in the next level that owns the same file.
+    TableInfo* migratedTo;
+
     // Current table status.
     std::atomic<Status> status;
 
-- 
2.43.0


From f83f8df79334bc454a0ca7e875d9ab9f5acd5ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:44 +0000
Subject: [PATCH 23/74] fix: nearest search should skip invisible keys in a
 memtable

---
 src/memtable.cc | 78 ++++++++++++++++++++++++++++---------------------
 src/memtable.h  |  2 ++
 2 files changed, 47 insertions(+), 33 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 0396a20..3cccf6c 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -325,6 +325,17 @@ int MemTable::cmpKey(skiplist_node *a, skiplist_node *b, void *aux) {
     return SizedBuf::cmp(aa->key, bb->key);
 }
 
+int MemTable::cmpSizedBuf(const SizedBuf& l, const SizedBuf& r) const {
+    CMP_NULL_CHK(l.data, r.data);
+    const DBConfig* db_config = logFile->logMgr->getDbConfig();
+    if (db_config->cmpFunc) {
+        // Custom cmp
+        return db_config->cmpFunc(l.data, l.size, r.data, r.size,
+                                  db_config->cmpFuncParam);
+    }
+    return SizedBuf::cmp(l, r);
+}
+
 Status MemTable::getReady() {
     // Set custom cmp function if given.
     if (logFile->logMgr->getDbConfig()->cmpFunc) {
@@ -642,43 +653,44 @@ Status MemTable::getRecordByKeyInternal(const uint64_t chk,
     }
     if (!cursor) return Status::KEY_NOT_FOUND;
 
-    RecNode* node = _get_entry(cursor, RecNode, snode);
-    if (!s_opt.isExactMatchAllowed()) {
-        // Exact match is not allowed. Move the cursor if the current
-        // cursor is pointing to the same key.
-        while (SizedBuf::cmp(key, node->key) == 0) {
-            skiplist_node* prev_cursor = cursor;
-            if (s_opt == SearchOptions::GREATER) {
-                cursor = skiplist_next(idxByKey, prev_cursor);
-            } else {
-                cursor = skiplist_prev(idxByKey, prev_cursor);
-            }
-            skiplist_release_node(prev_cursor);
-            if (!cursor) return Status::KEY_NOT_FOUND;
+    RecNode* node = nullptr;
+    Record* rec_ret = nullptr;
+    for (;;) {
+        node = _get_entry(cursor, RecNode, snode);
 
-            node = _get_entry(cursor, RecNode, snode);
+        // If exact match is not allowed, skip the same key.
+        bool skip_node = !s_opt.isExactMatchAllowed() &&
+                         cmpSizedBuf(key, node->key) == 0;
+        if (!skip_node) {
+            rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
         }
+        if ( rec_ret &&
+             valid_number(flushedSeqNum) &&
+             rec_ret->seqNum <= flushedSeqNum &&
+             !allow_flushed_log ) {
+            // Already purged KV pair, go to table.
+            // (Tolerate if this is snapshot.)
+            rec_ret = nullptr;
+        }
+        if ( rec_ret && !allow_tombstone && rec_ret->isDel() ) {
+            // Last operation is deletion.
+            rec_ret = nullptr;
+        }
+        if (rec_ret) break;
+
+        // This key is not visible. If nearest search,
+        // move the cursor to find the closest visible one.
+        skiplist_node* prev_cursor = cursor;
+        cursor = nullptr;
+        if (s_opt.isGreater()) {
+            cursor = skiplist_next(idxByKey, prev_cursor);
+        } else if (s_opt.isSmaller()) {
+            cursor = skiplist_prev(idxByKey, prev_cursor);
+        }
+        skiplist_release_node(prev_cursor);
+        if (!cursor) return Status::KEY_NOT_FOUND;
     }
 
-    Record* rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
-    if (!rec_ret) {
-        skiplist_release_node(&node->snode);
-        return Status::KEY_NOT_FOUND;
-    }
-    if ( valid_number(flushedSeqNum) &&
-         rec_ret->seqNum <= flushedSeqNum ) {
-        // Already purged KV pair, go to table.
-        if (!allow_flushed_log) {
-            skiplist_release_node(&node->snode);
-            return Status::KEY_NOT_FOUND;
-        } // Tolerate if this is snapshot.
-    }
-
-    if ( !allow_tombstone && rec_ret->isDel() ) {
-        // Last operation is deletion.
-        skiplist_release_node(&node->snode);
-        return Status::KEY_NOT_FOUND;
-    }
     rec_out = *rec_ret;
     skiplist_release_node(&node->snode);
     return Status();
diff --git a/src/memtable.h b/src/memtable.h
index bf975f4..63e3008 100644
--- a/src/memtable.h
+++ b/src/memtable.h
@@ -43,6 +43,8 @@ public:
 
     static int cmpKey(skiplist_node *a, skiplist_node *b, void *aux);
 
+    int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r) const;
+
     Status init(const uint64_t start_seq_num = 0);
 
     Status assignSeqNum(Record& rec_local);
-- 
2.43.0


From 6d4a24af5147fff77f973f4fde08aad4dc04a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:45:44 +0000
Subject: [PATCH 24/74] fix: range of a memtable iterator should be based on
 custom comparator

---
 src/memtable_iterator.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index e2aee3d..710d957 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -45,7 +45,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     if (!cursor) return Status::ITERATOR_INIT_FAIL;
 
     RecNode* rn = _get_entry(cursor, RecNode, snode);
-    if (!end_key.empty() && SizedBuf::cmp(rn->key, end_key) > 0) {
+    if (!end_key.empty() && mTable->cmpSizedBuf(rn->key, end_key) > 0) {
         skiplist_release_node(cursor);
         cursor = nullptr;
         return Status::OUT_OF_RANGE;
@@ -59,7 +59,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     // Skip invalid keys.
     for (; cursor ;) {
         RecNode* rn = _get_entry(cursor, RecNode, snode);
-        if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+        if (!endKey.empty() && mTable->cmpSizedBuf(rn->key, endKey) > 0) {
             // Greater than end key.
             skiplist_release_node(cursor);
             cursor = nullptr;
@@ -160,7 +160,7 @@ Status MemTable::Iterator::prev(bool allow_tombstone) {
             if (!prev_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(prev_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && mTable->cmpSizedBuf(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(prev_node);
                 return Status::OUT_OF_RANGE;
@@ -206,7 +206,7 @@ Status MemTable::Iterator::next(bool allow_tombstone) {
             if (!next_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(next_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && mTable->cmpSizedBuf(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(next_node);
                 return Status::OUT_OF_RANGE;
@@ -317,7 +317,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go forward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && mTable->cmpSizedBuf(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(seek_node);
                 return nullptr;
@@ -337,7 +337,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go backward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && mTable->cmpSizedBuf(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(seek_node);
                 return nullptr;
-- 
2.43.0


From 3601fddf4bcea3484a0a2e25b979c3840dac058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:46 +0000
Subject: [PATCH 25/74] fix: seek should not return a record out of the range
 of the iterator

---
 src/db_internal.h        |  2 +-
 src/iterator.cc          | 15 ++++++++++++---
 src/log_iterator.cc      | 15 ++++++++++++---
 src/log_mgr.h            |  2 +-
 src/memtable_iterator.cc | 10 ++++++++++
 src/table_iterator.cc    | 15 ++++++++++++---
 src/table_mgr.h          |  2 +-
 7 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/db_internal.h b/src/db_internal.h
index 70742da..00b7857 100644
--- a/src/db_internal.h
+++ b/src/db_internal.h
@@ -264,7 +264,7 @@ public:
         Record lastRec;
     };
 
-    Status moveToLastValid();
+    Status moveToLastValid(bool skip_out_of_range = false);
 
     Status seekInternal(const SizedBuf& key,
                         const uint64_t seqnum,
diff --git a/src/iterator.cc b/src/iterator.cc
index d54a883..5c0ab6b 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -401,7 +401,7 @@ Status Iterator::gotoEnd() {
     return p->seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status Iterator::IteratorInternal::moveToLastValid() {
+Status Iterator::IteratorInternal::moveToLastValid(bool skip_out_of_range) {
     windowCursor = avl_last(&curWindow);
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
@@ -411,12 +411,21 @@ Status Iterator::IteratorInternal::moveToLastValid() {
         //  We should pick up `Del K9`.
         ItrInt::ItrItem* item = _get_entry(windowCursor, ItrInt::ItrItem, an);
 
+        if ( skip_out_of_range &&
+             item->flags != ItrInt::ItrItem::none ) {
+            // No record is smaller than or equal to the key to seek.
+            windowCursor = avl_prev(windowCursor);
+            continue;
+        }
+
         if (type == ItrInt::BY_KEY) {
             ItrInt::ItrItem* prev_item = nullptr;
             avl_node* prev_cursor = avl_prev(windowCursor);
             if (prev_cursor) prev_item = _get_entry(prev_cursor, ItrItem, an);
 
-            if (prev_item) {
+            if ( prev_item &&
+                 ( !skip_out_of_range ||
+                   prev_item->flags == ItrInt::ItrItem::none ) ) {
                 int cmp = cmpSizedBuf( item->lastRec.kv.key,
                                        prev_item->lastRec.kv.key );
                 if (cmp == 0) {
@@ -534,7 +543,7 @@ Status Iterator::IteratorInternal::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 0a65b40..328fce4 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -409,7 +409,7 @@ Status LogMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status LogMgr::Iterator::moveToLastValid() {
+Status LogMgr::Iterator::moveToLastValid(bool skip_out_of_range) {
     windowCursor = avl_last(&curWindow);
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
@@ -419,12 +419,21 @@ Status LogMgr::Iterator::moveToLastValid() {
         //  We should pick up `Del K9`.
         ItrItem* item = _get_entry(windowCursor, ItrItem, an);
 
+        if ( skip_out_of_range &&
+             item->flags != ItrItem::none ) {
+            // No record is smaller than or equal to the key to seek.
+            windowCursor = avl_prev(windowCursor);
+            continue;
+        }
+
         if (type == BY_KEY) {
             ItrItem* prev_item = nullptr;
             avl_node* prev_cursor = avl_prev(windowCursor);
             if (prev_cursor) prev_item = _get_entry(prev_cursor, ItrItem, an);
 
-            if (prev_item) {
+            if ( prev_item &&
+                 ( !skip_out_of_range ||
+                   prev_item->flags == ItrItem::none ) ) {
                 int cmp = cmpSizedBuf( item->lastRec.kv.key,
                                        prev_item->lastRec.kv.key );
                 if (cmp == 0) {
@@ -524,7 +533,7 @@ Status LogMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 83c4304..4add9ad 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -355,7 +355,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(bool skip_out_of_range = false);
 
         void addLogFileItr(LogFileInfo* l_info, bool is_log_store_snapshot);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index 710d957..c81b923 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -257,6 +257,14 @@ Status MemTable::Iterator::seek
         // gotoBegin, and start key is given.
         query_key_ptr = &startKey;
     }
+    // Should not go beyond the range of the iterator.
+    if ( opt == GREATER && !startKey.empty() &&
+         mTable->cmpSizedBuf(*query_key_ptr, startKey) < 0 ) {
+        query_key_ptr = &startKey;
+    } else if ( opt == SMALLER && !endKey.empty() &&
+                mTable->cmpSizedBuf(*query_key_ptr, endKey) > 0 ) {
+        query_key_ptr = &endKey;
+    }
     RecNode query(query_key_ptr);
 
     bool fwd_search = true;
@@ -265,6 +273,7 @@ Status MemTable::Iterator::seek
         fwd_search = true; // Foward search.
         seek_node = skiplist_find_greater_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, fwd_search);
         if (!seek_node) {
             if (endKey.empty()) {
                 // End key is not given.
@@ -283,6 +292,7 @@ Status MemTable::Iterator::seek
         fwd_search = false;
         seek_node = skiplist_find_smaller_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, fwd_search);
         if (!seek_node) {
             if (startKey.empty()) {
                 // Start key is not given.
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index f6d2ebe..99048c9 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -369,7 +369,7 @@ Status TableMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status TableMgr::Iterator::moveToLastValid() {
+Status TableMgr::Iterator::moveToLastValid(bool skip_out_of_range) {
     windowCursor = avl_last(&curWindow);
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
@@ -379,12 +379,21 @@ Status TableMgr::Iterator::moveToLastValid() {
         //  We should pick up `Del K9`.
         ItrItem* item = _get_entry(windowCursor, ItrItem, an);
 
+        if ( skip_out_of_range &&
+             item->flags != ItrItem::none ) {
+            // No record is smaller than or equal to the key to seek.
+            windowCursor = avl_prev(windowCursor);
+            continue;
+        }
+
         if (type == BY_KEY) {
             ItrItem* prev_item = nullptr;
             avl_node* prev_cursor = avl_prev(windowCursor);
             if (prev_cursor) prev_item = _get_entry(prev_cursor, ItrItem, an);
 
-            if (prev_item) {
+            if ( prev_item &&
+                 ( !skip_out_of_range ||
+                   prev_item->flags == ItrItem::none ) ) {
                 int cmp = cmpSizedBuf( item->lastRec.kv.key,
                                        prev_item->lastRec.kv.key );
                 if (cmp == 0) {
@@ -487,7 +496,7 @@ Status TableMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
diff --git a/src/table_mgr.h b/src/table_mgr.h
index bc77a20..de5627e 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -431,7 +431,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(bool skip_out_of_range = false);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
         bool checkValidBySeq(ItrItem* item,
                              const uint64_t cur_seq,
-- 
2.43.0


From aa62613f5ae8eab17946a7ed831bb16c5d4afa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:46:46 +0000
Subject: [PATCH 26/74] fix: seeking a sequence number in a memtable should
 respect the given number and the range

---
 src/memtable_iterator.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index c81b923..99eb565 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -384,16 +384,32 @@ Status MemTable::Iterator::seekSN
 
         seek_node = skiplist_find_greater_or_equal
                     ( mTable->idxBySeq, &query.snode );
+        if (seek_node) {
+            RecNodeSeq* rn = _get_entry(seek_node, RecNodeSeq, snode);
+            if (rn->rec->seqNum > maxSeq) {
+                // Beyond the range of this iterator.
+                skiplist_release_node(seek_node);
+                seek_node = nullptr;
+            }
+        }
         if (!seek_node) {
             query.rec->seqNum = maxSeq;
             seek_node = skiplist_find_smaller_or_equal
                         ( mTable->idxBySeq, &query.snode );
         }
     } else if (opt == SMALLER) {
-        if (seqnum < maxSeq) query.rec->seqNum = maxSeq;
+        if (seqnum > maxSeq) query.rec->seqNum = maxSeq;
 
         seek_node = skiplist_find_smaller_or_equal
                     ( mTable->idxBySeq, &query.snode );
+        if (seek_node) {
+            RecNodeSeq* rn = _get_entry(seek_node, RecNodeSeq, snode);
+            if (rn->rec->seqNum < minSeq) {
+                // Beyond the range of this iterator.
+                skiplist_release_node(seek_node);
+                seek_node = nullptr;
+            }
+        }
         if (!seek_node) {
             query.rec->seqNum = minSeq;
             seek_node = skiplist_find_greater_or_equal
-- 
2.43.0


From 0f6b550bb907eb8d15218935bb86d29c79ae3ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:07 +0000
Subject: [PATCH 27/74] fix: sequence number iterator on a snapshot should see
 records flushed after the snapshot

---
 src/log_file.h           | 2 +-
 src/log_iterator.cc      | 6 +++---
 src/log_mgr.h            | 2 +-
 src/memtable.h           | 2 +-
 src/memtable_iterator.cc | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/log_file.h b/src/log_file.h
index 7386ee5..f68c03d 100644
--- a/src/log_file.h
+++ b/src/log_file.h
@@ -171,7 +171,7 @@ public:
         Status initSN(LogFile* l_file,
                       const uint64_t min_seq,
                       const uint64_t max_seq,
-                      bool is_log_store_snapshot);
+                      bool is_snapshot);
         Status get(Record& rec_out);
         Status prev(bool allow_tombstone = false);
         Status next(bool allow_tombstone = false);
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 328fce4..ea279bf 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -34,10 +34,10 @@ LogMgr::Iterator::~Iterator() {
     close();
 }
 
-void LogMgr::Iterator::addLogFileItr(LogFileInfo* l_info, bool is_log_store_snapshot) {
+void LogMgr::Iterator::addLogFileItr(LogFileInfo* l_info, bool is_snapshot) {
     LogFile::Iterator* l_itr = new LogFile::Iterator();
     if (type == BY_SEQ) {
-        l_itr->initSN(l_info->file, minSeqSnap, maxSeqSnap, is_log_store_snapshot);
+        l_itr->initSN(l_info->file, minSeqSnap, maxSeqSnap, is_snapshot);
     } else if (type == BY_KEY) {
         l_itr->init(l_info->file, startKey, endKey, minSeqSnap, maxSeqSnap);
     }
@@ -143,7 +143,7 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
                 }
                 l_info->grab(true);
             }
-            addLogFileItr(l_info, lMgr->getDbConfig()->logSectionOnly);
+            addLogFileItr(l_info, true);
         }
         snapLogList = snap_handle->sn->logList;
     }
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 4add9ad..4891c52 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -357,7 +357,7 @@ public:
                             bool goto_end = false);
         Status moveToLastValid(bool skip_out_of_range = false);
 
-        void addLogFileItr(LogFileInfo* l_info, bool is_log_store_snapshot);
+        void addLogFileItr(LogFileInfo* l_info, bool is_snapshot);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
         inline bool checkValidBySeq(ItrItem* item,
                                     const uint64_t cur_seq,
diff --git a/src/memtable.h b/src/memtable.h
index 63e3008..767b88c 100644
--- a/src/memtable.h
+++ b/src/memtable.h
@@ -139,7 +139,7 @@ public:
         Status initSN(const MemTable* m_table,
                       const uint64_t min_seq,
                       const uint64_t max_seq,
-                      bool is_log_store_snapshot);
+                      bool is_snapshot);
         Status get(Record& rec_out);
         Status prev(bool allow_tombstone = false);
         Status next(bool allow_tombstone = false);
diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index 99eb565..0111bd6 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -83,7 +83,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
 Status MemTable::Iterator::initSN(const MemTable* m_table,
                                   const uint64_t min_seq,
                                   const uint64_t max_seq,
-                                  bool is_log_store_snapshot)
+                                  bool is_snapshot)
 {
     mTable = m_table;
     type = BY_SEQ;
@@ -97,7 +97,7 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
         min_local < mTable->minSeqNum)
         min_local = mTable->minSeqNum;
 
-    if ( !is_log_store_snapshot &&
+    if ( !is_snapshot &&
          mTable->flushedSeqNum != NOT_INITIALIZED &&
          min_local < mTable->flushedSeqNum )
         min_local = mTable->flushedSeqNum;
-- 
2.43.0


From 32184804a5c0f16d11fed29c3232b05f34a9f2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:56 +0000
Subject: [PATCH 28/74] fix: log list of a snapshot should be valid even though
 opening it fails or retries

---
 src/log_mgr.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 8d44eea..182c553 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -391,6 +391,9 @@ Status LogMgr::openSnapshot(DB* snap_handle,
     {   mGuard l(sMapLock);
         sMap.insert( std::make_pair(snap_handle, l_list) );
     }
+    // NOTE: Should be set here, as it is used by reads even though
+    //       there is no log file for the given checkpoint.
+    log_file_list_out = l_list;
 
     uint64_t l_num_min;
     uint64_t l_num_max;
@@ -436,6 +439,7 @@ Status LogMgr::openSnapshot(DB* snap_handle,
                 }
             }
 
+            l_list->clear();
             retry_init = true;
             break;
         }
@@ -445,7 +449,6 @@ Status LogMgr::openSnapshot(DB* snap_handle,
     break;
    }
 
-    log_file_list_out = l_list;
     return Status();
 }
 
-- 
2.43.0


From a597c334c07ffb3f277cdb575b5dc785f38754e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:56 +0000
Subject: [PATCH 29/74] fix: reads on a snapshot should not see flushed records
 in the log

---
 src/jungle.cc   | 13 ++++++++++---
 src/log_file.cc | 11 +++++++----
 src/log_file.h  |  6 ++++--
 src/log_mgr.cc  | 21 +++++++++++++++++----
 src/log_mgr.h   |  6 ++++--
 src/memtable.cc | 15 +++++++++------
 src/memtable.h  |  9 ++++++---
 7 files changed, 57 insertions(+), 24 deletions(-)

diff --git a/src/jungle.cc b/src/jungle.cc
index 37fdc43..9ac1548 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -640,7 +640,9 @@ Status DB::get(const SizedBuf& key, SizedBuf& value_out) {
     Record::Holder h_rec_log(rec_log);
     uint64_t chknum = (sn)?(sn->chkNum):(NOT_INITIALIZED);
     std::list<LogFileInfo*>* l_list = (sn)?(sn->logList):(nullptr);
-    s = p->logMgr->get(chknum, l_list, key, rec_log);
+    uint64_t sn_last_flush = (sn && !p->dbConfig.logSectionOnly)
+                             ? sn->lastFlush : 0;
+    s = p->logMgr->get(chknum, l_list, key, rec_log, sn_last_flush);
     if (s) {
         if (!rec_log.isIns()) {
             // Removed key, should return without searching tables.
@@ -709,7 +711,9 @@ Status DB::getRecordByKey(const SizedBuf& key,
     Record::Holder h_rec_log(rec_log);
     uint64_t chknum = (sn)?(sn->chkNum):(NOT_INITIALIZED);
     std::list<LogFileInfo*>* l_list = (sn)?(sn->logList):(nullptr);
-    s = p->logMgr->get(chknum, l_list, key, rec_log);
+    uint64_t sn_last_flush = (sn && !p->dbConfig.logSectionOnly)
+                             ? sn->lastFlush : 0;
+    s = p->logMgr->get(chknum, l_list, key, rec_log, sn_last_flush);
     if (s) {
         if (!meta_only && !rec_log.isIns()) {
             // NOT meta only mode + removed key:
@@ -759,7 +763,10 @@ Status DB::getNearestRecordByKey(const SizedBuf& key,
     Record::Holder h_rec_from_log(rec_from_log);
     uint64_t chknum = (sn)?(sn->chkNum):(NOT_INITIALIZED);
     std::list<LogFileInfo*>* l_list = (sn)?(sn->logList):(nullptr);
-    Status ls = p->logMgr->getNearest(chknum, l_list, key, rec_from_log, opt);
+    uint64_t sn_last_flush = (sn && !p->dbConfig.logSectionOnly)
+                             ? sn->lastFlush : 0;
+    Status ls = p->logMgr->getNearest(chknum, l_list, key, rec_from_log, opt,
+                                      sn_last_flush);
     if (!ls.ok() && ls != Status::KEY_NOT_FOUND) {
         // Intolerable error.
         return ls;
diff --git a/src/log_file.cc b/src/log_file.cc
index 7721c5d..1aabf6d 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -364,12 +364,14 @@ Status LogFile::get(const uint64_t chk,
                     const SizedBuf& key,
                     Record& rec_out,
                     bool allow_flushed_log,
-                    bool allow_tombstone)
+                    bool allow_tombstone,
+                    const uint64_t seq_from)
 {
     touch();
     Status s;
     EP( mTable->getRecordByKey(chk, key, rec_out,
-                               allow_flushed_log, allow_tombstone) );
+                               allow_flushed_log, allow_tombstone,
+                               seq_from) );
     return Status();
 }
 
@@ -378,13 +380,14 @@ Status LogFile::getNearest(const uint64_t chk,
                            Record& rec_out,
                            bool allow_flushed_log,
                            bool allow_tombstone,
-                           SearchOptions s_opt)
+                           SearchOptions s_opt,
+                           const uint64_t seq_from)
 {
     touch();
     Status s;
     EP( mTable->getNearestRecordByKey(chk, key, rec_out,
                                       allow_flushed_log, allow_tombstone,
-                                      s_opt) );
+                                      s_opt, seq_from) );
     return Status();
 }
 
diff --git a/src/log_file.h b/src/log_file.h
index f68c03d..6e1ee64 100644
--- a/src/log_file.h
+++ b/src/log_file.h
@@ -78,14 +78,16 @@ public:
                const SizedBuf& key,
                Record& rec_out,
                bool allow_flushed_log,
-               bool allow_tombstone);
+               bool allow_tombstone,
+               const uint64_t seq_from = NOT_INITIALIZED);
 
     Status getNearest(const uint64_t chk,
                       const SizedBuf& key,
                       Record& rec_out,
                       bool allow_flushed_log,
                       bool allow_tombstone,
-                      SearchOptions s_opt);
+                      SearchOptions s_opt,
+                      const uint64_t seq_from = NOT_INITIALIZED);
 
     Status getPrefix(const uint64_t chk,
                      const SizedBuf& prefix,
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 182c553..6618210 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -868,7 +868,8 @@ Status LogMgr::getSN(const uint64_t seq_num, Record& rec_out) {
 Status LogMgr::get(const uint64_t chk,
                    std::list<LogFileInfo*>* l_list,
                    const SizedBuf& key,
-                   Record& rec_out)
+                   Record& rec_out,
+                   const uint64_t last_flush)
 {
     Status s;
     uint64_t min_log_num, max_log_num;
@@ -880,11 +881,19 @@ Status LogMgr::get(const uint64_t chk,
     uint64_t chk_local = chk;
     if (valid_number(chk)) {
         // Snapshot: beyond the last flushed log.
+        //
+        // WARNING:
+        //   Records up to the last flush belong to tables. Log files may
+        //   contain a part of them only (if the log file was loaded from
+        //   disk), so that they can be older than those in tables.
+        uint64_t seq_from = (last_flush && last_flush <= chk)
+                            ? last_flush + 1 : NOT_INITIALIZED;
         assert(l_list);
         auto entry = l_list->rbegin();
         while (entry != l_list->rend()) {
             LogFileInfo* l_info = *entry;
-            s = l_info->file->get(chk_local, key, rec_out_local, true, true);
+            s = l_info->file->get(chk_local, key, rec_out_local, true, true,
+                                  seq_from);
             if (s) {
                 rec_out_local.copyTo(rec_out);
                 return s;
@@ -950,7 +959,8 @@ Status LogMgr::getNearest(const uint64_t chk,
                           std::list<LogFileInfo*>* l_list,
                           const SizedBuf& key,
                           Record& rec_out,
-                          SearchOptions s_opt)
+                          SearchOptions s_opt,
+                          const uint64_t last_flush)
 {
     Status s;
     uint64_t min_log_num, max_log_num;
@@ -991,12 +1001,15 @@ Status LogMgr::getNearest(const uint64_t chk,
     uint64_t chk_local = chk;
     if (valid_number(chk)) {
         // Snapshot: beyond the last flushed log.
+        // (the same as the comment in `LogMgr::get()`).
+        uint64_t seq_from = (last_flush && last_flush <= chk)
+                            ? last_flush + 1 : NOT_INITIALIZED;
         assert(l_list);
         auto entry = l_list->rbegin();
         while (entry != l_list->rend()) {
             LogFileInfo* l_info = *entry;
             s = l_info->file->getNearest(chk_local, key, rec_out_local,
-                                         true, true, s_opt);
+                                         true, true, s_opt, seq_from);
             if (s) {
                 update_cur_nearest(rec_out_local);
                 if (cmp_func(key, cur_nearest.kv.key) == 0) {
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 4891c52..d242af3 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -188,13 +188,15 @@ public:
     Status get(const uint64_t chk,
                std::list<LogFileInfo*>* l_list,
                const SizedBuf& key,
-               Record& rec_out);
+               Record& rec_out,
+               const uint64_t last_flush = 0);
 
     Status getNearest(const uint64_t chk,
                       std::list<LogFileInfo*>* l_list,
                       const SizedBuf& key,
                       Record& rec_out,
-                      SearchOptions s_opt);
+                      SearchOptions s_opt,
+                      const uint64_t last_flush = 0);
 
     Status getPrefix(DB* snap_handle,
                      const SizedBuf& prefix,
diff --git a/src/memtable.cc b/src/memtable.cc
index 3cccf6c..1c0e0d5 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -598,7 +598,8 @@ Status MemTable::getRecordByKey(const uint64_t chk,
                                 const SizedBuf& key,
                                 Record& rec_out,
                                 bool allow_flushed_log,
-                                bool allow_tombstone)
+                                bool allow_tombstone,
+                                const uint64_t seq_from)
 {
     // Check bloom filter first for fast screening.
     uint64_t hash_pair[2];
@@ -609,7 +610,7 @@ Status MemTable::getRecordByKey(const uint64_t chk,
 
     return getRecordByKeyInternal( chk, key, rec_out,
                                    allow_flushed_log, allow_tombstone,
-                                   SearchOptions::EQUAL );
+                                   SearchOptions::EQUAL, seq_from );
 }
 
 Status MemTable::getNearestRecordByKey(const uint64_t chk,
@@ -617,13 +618,14 @@ Status MemTable::getNearestRecordByKey(const uint64_t chk,
                                        Record& rec_out,
                                        bool allow_flushed_log,
                                        bool allow_tombstone,
-                                       SearchOptions s_opt)
+                                       SearchOptions s_opt,
+                                       const uint64_t seq_from)
 {
     // NOTE: We can't use bloom filter
     //       as we should allow non-exact match.
     return getRecordByKeyInternal( chk, key, rec_out,
                                    allow_flushed_log, allow_tombstone,
-                                   s_opt );
+                                   s_opt, seq_from );
 }
 
 Status MemTable::getRecordByKeyInternal(const uint64_t chk,
@@ -631,7 +633,8 @@ Status MemTable::getRecordByKeyInternal(const uint64_t chk,
                                         Record& rec_out,
                                         bool allow_flushed_log,
                                         bool allow_tombstone,
-                                        SearchOptions s_opt)
+                                        SearchOptions s_opt,
+                                        const uint64_t seq_from)
 {
     RecNode query(&key);
     skiplist_node* cursor = nullptr;
@@ -662,7 +665,7 @@ Status MemTable::getRecordByKeyInternal(const uint64_t chk,
         bool skip_node = !s_opt.isExactMatchAllowed() &&
                          cmpSizedBuf(key, node->key) == 0;
         if (!skip_node) {
-            rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
+            rec_ret = node->getLatestRecord(seq_from, chk);
         }
         if ( rec_ret &&
              valid_number(flushedSeqNum) &&
diff --git a/src/memtable.h b/src/memtable.h
index 767b88c..7dfe7cb 100644
--- a/src/memtable.h
+++ b/src/memtable.h
@@ -64,13 +64,15 @@ public:
                           const SizedBuf& key,
                           Record& rec_out,
                           bool allow_flushed_log,
-                          bool allow_tombstone);
+                          bool allow_tombstone,
+                          const uint64_t seq_from = NOT_INITIALIZED);
     Status getNearestRecordByKey(const uint64_t chk,
                                  const SizedBuf& key,
                                  Record& rec_out,
                                  bool allow_flushed_log,
                                  bool allow_tombstone,
-                                 SearchOptions s_opt);
+                                 SearchOptions s_opt,
+                                 const uint64_t seq_from = NOT_INITIALIZED);
     Status getRecordsByPrefix(const uint64_t chk,
                               const SizedBuf& prefix,
                               SearchCbFunc cb_func,
@@ -220,7 +222,8 @@ private:
                                   Record& rec_out,
                                   bool allow_flushed_log,
                                   bool allow_tombstone,
-                                  SearchOptions s_opt);
+                                  SearchOptions s_opt,
+                                  const uint64_t seq_from);
 
 // === VARIABLES
     uint64_t startSeqNum;
-- 
2.43.0


From bb432fd70f2ededc047589fa404c9988f0f3226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:51:31 +0000
Subject: [PATCH 30/74] fix: seek beyond the last key should not expose an
 older version of the key

---
 src/iterator.cc       | 2 +-
 src/log_iterator.cc   | 2 +-
 src/table_iterator.cc | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iterator.cc b/src/iterator.cc
index 5c0ab6b..68504e3 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -548,7 +548,7 @@ Status Iterator::IteratorInternal::seekInternal
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index ea279bf..d80471e 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -538,7 +538,7 @@ Status LogMgr::Iterator::seekInternal
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index 99048c9..e0bc44f 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -501,7 +501,7 @@ Status TableMgr::Iterator::seekInternal
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
     return Status();
-- 
2.43.0


From e4f654593e4493a5ee3bd0f130255945c063c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:09 +0000
Subject: [PATCH 31/74] fix: nearest and prefix searches should not stop at the
 adjacent table

---
 src/table_manifest.cc | 98 +++++++++++++++++++++++++------------------
 src/table_mgr.cc      | 22 +++++++++-
 2 files changed, 78 insertions(+), 42 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index e52cc1b..60766a0 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -743,33 +743,42 @@ Status TableManifest::getTablesNearest(const size_t level,
         return getTablesByHash(l_info, num_partitions, tables_out);
 
     } else {
-        // Other levels: return 2 tables
-        //   greater: target, next
-        //   smaller: prev, target
+        // Other levels: return all tables from the target, from the closest
+        // one to the farthest one, as closer tables may not have a record
+        // that satisfies the condition.
+        //   greater: (prev if required), target, next, ...
+        //   smaller: target, prev, ...
         TableInfo query(level, 0, 0, true);
         query.minKey.referTo(key);
         skiplist_node* cursor = skiplist_find_smaller_or_equal
                                 ( l_info->tables, &query.snode );
         if (!cursor) cursor = skiplist_begin(l_info->tables);
 
-        if (cursor) {
-            skiplist_node* cur_prev = s_opt.isSmaller()
-                                      ? skiplist_prev(l_info->tables, cursor)
-                                      : nullptr;
-            skiplist_node* cur_next = s_opt.isGreater()
-                                      ? skiplist_next(l_info->tables, cursor)
-                                      : nullptr;
-
-            for (skiplist_node* cc: {cur_prev, cursor, cur_next}) {
-                if (!cc) continue;
+        bool is_first_table = true;
+        while (cursor) {
+            TableInfo* t_info = _get_entry(cursor, TableInfo, snode);
+            if ( is_first_table &&
+                 s_opt.isGreater() &&
+                 t_info->prevTableSearchRequired ) {
+                skiplist_node* prev_cursor = skiplist_prev(l_info->tables, cursor);
+                if (prev_cursor) {
+                    TableInfo* t_prev = _get_entry(prev_cursor, TableInfo, snode);
+                    t_prev->grab();
+                    pushTablesInStack(t_prev, tables_out);
+                    tables_out.push_back(t_prev);
+                    skiplist_release_node(prev_cursor);
+                }
+            }
+            is_first_table = false;
 
-                TableInfo* t_info = _get_entry(cc, TableInfo, snode);
-                t_info->grab();
-                pushTablesInStack(t_info, tables_out);
-                tables_out.push_back(t_info);
+            t_info->grab();
+            pushTablesInStack(t_info, tables_out);
+            tables_out.push_back(t_info);
 
-                skiplist_release_node(cc);
-            }
+            cursor = s_opt.isSmaller()
+                     ? skiplist_prev(l_info->tables, cursor)
+                     : skiplist_next(l_info->tables, cursor);
+            skiplist_release_node(&t_info->snode);
         }
     }
 
@@ -801,7 +810,7 @@ Status TableManifest::getTablesPrefix(const size_t level,
         return getTablesByHash(l_info, target_hash, tables_out);
 
     } else {
-        // Other levels: return 1 or 2 tables
+        // Other levels: return 1 or more tables
         //   If next table's min key has matched prefix,
         //   return the next table as well.
         TableInfo query(level, 0, 0, true);
@@ -810,31 +819,38 @@ Status TableManifest::getTablesPrefix(const size_t level,
                                 ( l_info->tables, &query.snode );
         if (!cursor) cursor = skiplist_begin(l_info->tables);
 
-        if (cursor) {
-            skiplist_node* cur_next = skiplist_next(l_info->tables, cursor);
-            if (cur_next) {
-                TableInfo* t_info = _get_entry(cur_next, TableInfo, snode);
-                // Check if prefix matches.
-                if ( t_info->minKey.size < prefix.size ||
-                     SizedBuf::cmp( SizedBuf(prefix.size, t_info->minKey.data),
-                                    prefix ) != 0 ) {
-                    // Prefix doesn't match, don't need to search next table.
-                    // SHOULD RELEASE SKIPLIST NODE.
-                    skiplist_release_node(cur_next);
-                    cur_next = nullptr;
+        bool is_first_table = true;
+        while (cursor) {
+            TableInfo* t_info = _get_entry(cursor, TableInfo, snode);
+            // Check if prefix matches (except for the first table).
+            if ( !is_first_table &&
+                 ( t_info->minKey.size < prefix.size ||
+                   SizedBuf::cmp( SizedBuf(prefix.size, t_info->minKey.data),
+                                  prefix ) != 0 ) ) {
+                // Prefix doesn't match, don't need to search next table.
+                // SHOULD RELEASE SKIPLIST NODE.
+                skiplist_release_node(cursor);
+                break;
+            }
+            if ( is_first_table &&
+                 t_info->prevTableSearchRequired ) {
+                skiplist_node* prev_cursor = skiplist_prev(l_info->tables, cursor);
+                if (prev_cursor) {
+                    TableInfo* t_prev = _get_entry(prev_cursor, TableInfo, snode);
+                    t_prev->grab();
+                    pushTablesInStack(t_prev, tables_out);
+                    tables_out.push_back(t_prev);
+                    skiplist_release_node(prev_cursor);
                 }
             }
+            is_first_table = false;
 
-            for (skiplist_node* cc: {cursor, cur_next}) {
-                if (!cc) continue;
-
-                TableInfo* t_info = _get_entry(cc, TableInfo, snode);
-                t_info->grab();
-                pushTablesInStack(t_info, tables_out);
-                tables_out.push_back(t_info);
+            t_info->grab();
+            pushTablesInStack(t_info, tables_out);
+            tables_out.push_back(t_info);
 
-                skiplist_release_node(cc);
-            }
+            cursor = skiplist_next(l_info->tables, cursor);
+            skiplist_release_node(&t_info->snode);
         }
     }
 
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index e5cb5b8..b5bb593 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -739,8 +739,19 @@ Status TableMgr::getNearest(DB* snap_handle,
         }
 
         bool found_intolerable_error = false;
+        // Tables are given from the closest one to the farthest one (except
+        // for snapshot and level-0). Once this flag is set, the rest of
+        // tables cannot have a closer key.
+        bool no_closer_key = false;
         for (TableInfo* table: tables) {
-            if (found_intolerable_error) {
+            if ( !snap_handle && ii > 0 &&
+                 table->baseTable &&
+                 s_opt.isGreater() &&
+                 !cur_nearest.empty() &&
+                 cmp_func(cur_nearest.kv.key, table->minKey) < 0 ) {
+                no_closer_key = true;
+            }
+            if (found_intolerable_error || no_closer_key) {
                 table->done();
                 continue;
             }
@@ -759,6 +770,15 @@ Status TableMgr::getNearest(DB* snap_handle,
                 // This is intolerable error.
                 found_intolerable_error = true;
             }
+
+            if ( !snap_handle && ii > 0 &&
+                 table->baseTable &&
+                 !table->prevTableSearchRequired &&
+                 s_opt.isSmaller() &&
+                 !cur_nearest.empty() &&
+                 cmp_func(table->minKey, cur_nearest.kv.key) <= 0 ) {
+                no_closer_key = true;
+            }
             table->done();
         }
 
-- 
2.43.0


From eb98c2df7a0099d82e81a96f99e17be4db92ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:29 +0000
Subject: [PATCH 32/74] fix: iterator should not skip a record of a table or
 log file that was already passed

---
 src/iterator.cc       | 12 ++++++++++--
 src/log_iterator.cc   | 12 ++++++++++--
 src/table_iterator.cc | 12 ++++++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/iterator.cc b/src/iterator.cc
index 68504e3..3f41383 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -230,7 +230,11 @@ Status Iterator::prev() {
             (void)avl_ret;
             cursor = avl_last(&p->curWindow);
         } else {
-            item->flags |= ItrInt::ItrItem::no_more_prev;
+            if ( !(item->flags & ItrInt::ItrItem::no_more_prev) ) {
+                // The cursor passed the last record of this item,
+                // so that it is valid for the opposite direction.
+                item->flags = ItrInt::ItrItem::no_more_prev;
+            }
             cursor = avl_prev(&item->an);
         }
     }
@@ -338,7 +342,11 @@ Status Iterator::next() {
             (void)avl_ret;
             cursor = avl_first(&p->curWindow);
         } else {
-            item->flags |= ItrInt::ItrItem::no_more_next;
+            if ( !(item->flags & ItrInt::ItrItem::no_more_next) ) {
+                // The cursor passed the last record of this item,
+                // so that it is valid for the opposite direction.
+                item->flags = ItrInt::ItrItem::no_more_next;
+            }
             cursor = avl_next(&item->an);
         }
     }
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index d80471e..83f7a39 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -278,7 +278,11 @@ Status LogMgr::Iterator::prev() {
             assert(avl_ret == &item->an);  (void)avl_ret;
             cursor = avl_last(&curWindow);
         } else {
-            item->flags |= ItrItem::no_more_prev;
+            if ( !(item->flags & ItrItem::no_more_prev) ) {
+                // The cursor passed the last record of this item,
+                // so that it is valid for the opposite direction.
+                item->flags = ItrItem::no_more_prev;
+            }
             cursor = avl_prev(&item->an);
         }
     }
@@ -354,7 +358,11 @@ Status LogMgr::Iterator::next() {
             assert(avl_ret == &item->an);  (void)avl_ret;
             cursor = avl_first(&curWindow);
         } else {
-            item->flags |= ItrItem::no_more_next;
+            if ( !(item->flags & ItrItem::no_more_next) ) {
+                // The cursor passed the last record of this item,
+                // so that it is valid for the opposite direction.
+                item->flags = ItrItem::no_more_next;
+            }
             cursor = avl_next(&item->an);
         }
     }
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index e0bc44f..6b4e9d5 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -232,7 +232,11 @@ Status TableMgr::Iterator::prev() {
             }
 
         } else {
-            item->flags |= ItrItem::no_more_prev;
+            if ( !(item->flags & ItrItem::no_more_prev) ) {
+                // The cursor passed the last record of this item,
+                // so that it is valid for the opposite direction.
+                item->flags = ItrItem::no_more_prev;
+            }
             cursor = avl_prev(&item->an);
         }
     }
@@ -317,7 +321,11 @@ Status TableMgr::Iterator::next() {
             }
 
         } else {
-            item->flags |= ItrItem::no_more_next;
+            if ( !(item->flags & ItrItem::no_more_next) ) {
+                // The cursor passed the last record of this item,
+                // so that it is valid for the opposite direction.
+                item->flags = ItrItem::no_more_next;
+            }
             cursor = avl_next(&item->an);
         }
     }
-- 
2.43.0


From 8e051a5d7c5399ea97eef5e32d0b6b73f9c59e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:01:47 +0000
Subject: [PATCH 33/74] fix: reads on a checkpoint older than the last flush
 should not see the log

---
 src/log_mgr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 6618210..c6be860 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -886,7 +886,7 @@ Status LogMgr::get(const uint64_t chk,
         //   Records up to the last flush belong to tables. Log files may
         //   contain a part of them only (if the log file was loaded from
         //   disk), so that they can be older than those in tables.
-        uint64_t seq_from = (last_flush && last_flush <= chk)
+        uint64_t seq_from = (last_flush)
                             ? last_flush + 1 : NOT_INITIALIZED;
         assert(l_list);
         auto entry = l_list->rbegin();
@@ -1002,7 +1002,7 @@ Status LogMgr::getNearest(const uint64_t chk,
     if (valid_number(chk)) {
         // Snapshot: beyond the last flushed log.
         // (the same as the comment in `LogMgr::get()`).
-        uint64_t seq_from = (last_flush && last_flush <= chk)
+        uint64_t seq_from = (last_flush)
                             ? last_flush + 1 : NOT_INITIALIZED;
         assert(l_list);
         auto entry = l_list->rbegin();
-- 
2.43.0


From 5cdbf4a887eb22972021e4d9010594f1e3922ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:02:07 +0000
Subject: [PATCH 34/74] fix: sequence number iterator should not return a
 record out of the given range

---
 src/memtable_iterator.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index 0111bd6..d78d786 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -102,8 +102,10 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
          min_local < mTable->flushedSeqNum )
         min_local = mTable->flushedSeqNum;
 
-    if (min_local > mTable->maxSeqNum)
-        min_local = mTable->maxSeqNum;
+    if (min_local > mTable->maxSeqNum) {
+        // No record in the given range.
+        return Status::OUT_OF_RANGE;
+    }
 
     minSeq = min_local;
 
@@ -115,6 +117,12 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
     query.rec->seqNum = minSeq;
     cursor = skiplist_find_greater_or_equal(mTable->idxBySeq, &query.snode);
     if (!cursor) return Status::ITERATOR_INIT_FAIL;
+    if (_get_entry(cursor, RecNodeSeq, snode)->rec->seqNum > max_seq) {
+        // No record in the given range.
+        skiplist_release_node(cursor);
+        cursor = nullptr;
+        return Status::OUT_OF_RANGE;
+    }
 
     // Doesn't allow to access logs beyond max seqnum.
     uint64_t max_local = max_seq;
-- 
2.43.0


From f0329f4cf11ae2b7c414cfadc71147d83693cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:03 +0000
Subject: [PATCH 35/74] fix: a log file should be flushed even though its
 minimum sequence number is not in manifest

---
 src/memtable.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/memtable.cc b/src/memtable.cc
index 1c0e0d5..784f6d7 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -995,6 +995,7 @@ Status MemTable::load(RwSerializer& rws,
     size_t filesize = rws.size();
     size_t last_valid_size = rws.pos();
     uint64_t num_record = 0, num_flush = 0, num_chk = 0;
+    uint64_t first_seq = NOT_INITIALIZED;
     uint64_t last_seq = NOT_INITIALIZED;
     std::string m;
 
@@ -1011,6 +1012,7 @@ Status MemTable::load(RwSerializer& rws,
         if (type == FlagType::RECORD) {
             uint64_t seq = 0;
             EB( loadRecord(rws, flags, seq),  "failed to load record" )
+            if (!valid_number(first_seq)) first_seq = seq;
             last_seq = seq;
             num_record++;
             last_valid_size = rws.pos();
@@ -1037,6 +1039,14 @@ Status MemTable::load(RwSerializer& rws,
         }
     }
 
+    if (!valid_number(min_seq) && valid_number(first_seq)) {
+        // Crash happened before the minimum sequence number was written to
+        // manifest. If we do not set it here, this file will be treated as
+        // an empty file and records in it will not be flushed.
+        minSeqNum = first_seq;
+        startSeqNum = first_seq;
+    }
+
     if (NOT_INITIALIZED != last_seq) {
         // NOTE:
         //   Records that were flushed before they were synced exist only
-- 
2.43.0


From fd559727f295d1c3ca7ac216da17fb9350a4335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:04 +0000
Subject: [PATCH 36/74] fix: zero-filled part of a log file should not be read
 as a record

---
 src/memtable.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/memtable.cc b/src/memtable.cc
index 784f6d7..17c4903 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -848,6 +848,13 @@ Status MemTable::loadRecord(RwSerializer& rws,
         o_size = len_buf_rw.getU32(s);
     }
 
+    if (!flags && !rec->seqNum && !k_size && !m_size && !v_size) {
+        // All zero bytes (its CRC is also zero): this is not a record but
+        // a part of the file that has been allocated but not been written,
+        // due to crash.
+        throw Status(Status::INCOMPLETE_LOG);
+    }
+
     uint32_t crc_data = 0;
     TC_( crc_data = rws.getU32(s) );
 
-- 
2.43.0


From 0b56a85325543f8f2631576308498250122f9de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:21 +0000
Subject: [PATCH 37/74] fix: sequence numbers of records that exist only in
 tables should not be re-used

---
 src/log_file.h  |  7 +++++++
 src/log_mgr.cc  |  7 +++++++
 src/memtable.cc | 12 ++++++++++++
 src/memtable.h  |  2 ++
 4 files changed, 28 insertions(+)

diff --git a/src/log_file.h b/src/log_file.h
index 6e1ee64..4b10e42 100644
--- a/src/log_file.h
+++ b/src/log_file.h
@@ -150,6 +150,13 @@ public:
         return Status::NOT_INITIALIZED;
     }
 
+    Status skipSeqnum(uint64_t upto) {
+        if (mTable) {
+            return mTable->skipSeqnum(upto);
+        }
+        return Status::NOT_INITIALIZED;
+    }
+
     void setLogger(SimpleLogger* logger) {
         myLog = logger;
         if (mTable) mTable->setLogger(logger);
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index c6be860..f14aa6e 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -2229,6 +2229,13 @@ Status LogMgr::syncSeqnum(TableMgr* t_mgr) {
         //ll.file()->forceSeqnum(last_seqnum);
     }
 
+    // NOTE:
+    //   If the latest log file is lost (e.g., manifest is restored from the
+    //   backup), there can be records that exist only in tables. Their
+    //   sequence numbers should not be re-used.
+    LogFileInfoGuard ll( mani->getLogFileInfoP(max_log_file) );
+    if (ll.ptr) ll.file()->skipSeqnum(last_seqnum);
+
     return s;
 }
 
diff --git a/src/memtable.cc b/src/memtable.cc
index 17c4903..694ff4c 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1617,6 +1617,18 @@ size_t MemTable::getNumLogs() const {
     return skiplist_get_size(idxBySeq);
 }
 
+Status MemTable::skipSeqnum(uint64_t upto) {
+    // Unlike `forceSeqnum`, this function does not touch the last flushed
+    // sequence number, so that all existing records are still valid.
+    if ( valid_number(maxSeqNum) && maxSeqNum >= upto ) {
+        return Status();
+    }
+    seqNumAlloc = upto;
+    maxSeqNum = upto;
+    syncedSeqNum = upto;
+    return Status();
+}
+
 Status MemTable::forceSeqnum(uint64_t to) {
     if ( valid_number(minSeqNum) &&
          minSeqNum > to ) {
diff --git a/src/memtable.h b/src/memtable.h
index 7dfe7cb..2dcd22b 100644
--- a/src/memtable.h
+++ b/src/memtable.h
@@ -116,6 +116,8 @@ public:
     uint64_t getSeqCounter() const { return seqNumAlloc.load(MOR); }
     Status forceSeqnum(uint64_t to);
 
+    Status skipSeqnum(uint64_t upto);
+
     void setLogger(SimpleLogger* logger) { myLog = logger; }
 
     bool isIncreasingOrder() const { return increasingOrder; }
-- 
2.43.0


From fcf34df9a5ba0fda857079d9ad49323aee7b54e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:33 +0000
Subject: [PATCH 38/74] fix: last synced sequence number should not go backward
 by flushing beyond the last sync

---
 src/log_mgr.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index f14aa6e..d881bea 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1586,7 +1586,12 @@ Status LogMgr::flush(const FlushOptions& options,
         // Set flush log & seq number.
         for (uint64_t ii = ln_from; ii <= ln_to; ++ii) {
             LogFileInfoGuard ll(mani->getLogFileInfoP(ii));
-            if (options.beyondLastSync) {
+            uint64_t synced_seq = ll->file->getSyncedSeqNum();
+            if ( options.beyondLastSync &&
+                 ( !valid_number(synced_seq) ||
+                   synced_seq < seq_num_local ) ) {
+                // NOTE: Last synced number should not go backward, otherwise
+                //       already synced records will be written again.
                 ll->file->setSyncedSeqNum(seq_num_local);
             }
             EP( ll->file->setFlushedSeqNum(seq_num_local) );
-- 
2.43.0


From c828b7a5d8f3c71a15c24166c82f38a44fdf0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:33 +0000
Subject: [PATCH 39/74] fix: sync with fsync should sync the manifest written
 without fsync

---
 src/log_mgr.cc | 8 +++++++-
 src/log_mgr.h  | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index d881bea..e50ac7d 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -44,6 +44,7 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , globalBatchStatus(nullptr)
     , numMemtables(0)
     , needSkippedManiSync(false)
+    , needManiFsync(true)
     , myLog(nullptr)
     , vlSync(VERBOSE_LOG_SUPPRESS_MS)
     {}
@@ -1322,10 +1323,15 @@ Status LogMgr::syncInternal(bool call_fsync) {
     mani->setLastSyncedLog(last_synced_log);
 
     const DBConfig* db_config = getDbConfig();
-    if (!db_config->skipManifestSync || needSkippedManiSync) {
+    if ( !db_config->skipManifestSync ||
+         needSkippedManiSync ||
+         (call_fsync && needManiFsync) ) {
         EP( mani->store(call_fsync) );
         _log_(log_level, myLog, "updated log manifest file.");
         needSkippedManiSync = false;
+        // NOTE: If it is not fsynced this time, the next sync with fsync
+        //       should do it even though `skipManifestSync` is on.
+        needManiFsync = !call_fsync;
     }
     return Status();
 }
diff --git a/src/log_mgr.h b/src/log_mgr.h
index d242af3..41b98c5 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -467,6 +467,12 @@ protected:
      */
     std::atomic<bool> needSkippedManiSync;
 
+    /**
+     * If `true`, the manifest is written but not fsynced yet, so that
+     * the next `sync()` call with fsync should do it.
+     */
+    std::atomic<bool> needManiFsync;
+
     /**
      * Logger.
      */
-- 
2.43.0


From 165518399bdb15fe77a83d91baa0f38bf0c91542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:33 +0000
Subject: [PATCH 40/74] fix: sync with fsync should make the previous log files
 durable

---
 src/log_file.cc | 10 +++++++++-
 src/log_file.h  |  6 ++++++
 src/log_mgr.cc  | 13 +++++++++++++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index 1aabf6d..b2c568f 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -35,6 +35,7 @@ LogFile::LogFile(LogMgr* log_mgr)
     , coldChk(false)
     , integrity(IntegrityTypes::UNKNOWN)
     , memtablePurged(false)
+    , fsyncRequired(false)
     , logMgr(log_mgr)
     , fileSize(0)
     , myLog(nullptr)
@@ -512,6 +513,7 @@ Status LogFile::flushMemTable(uint64_t upto, uint64_t& flushed_seq_out) {
 
     RwSerializer rws(fOps, fHandle, true);
 
+    fsyncRequired = true;
     TC( mTable->flush(rws, upto, flushed_seq_out) );
     TC( mTable->appendFlushMarker(rws) );
 
@@ -581,13 +583,19 @@ Status LogFile::sync() {
     if (!fHandle) {
         EP( openFHandle() );
     }
-    s = mTable->sync(fOps, fHandle);
+    s = fOps->fsync(fHandle);
+    if (s) fsyncRequired = false;
     if (okToCloseFHandle()) {
         EP( closeFHandle() );
     }
     return s;
 }
 
+Status LogFile::syncIfRequired() {
+    if (!fsyncRequired) return Status();
+    return sync();
+}
+
 Status LogFile::discardDirty(uint64_t seq_begin)
 {
     if (!mTable) return Status::NOT_INITIALIZED;
diff --git a/src/log_file.h b/src/log_file.h
index 4b10e42..6a05298 100644
--- a/src/log_file.h
+++ b/src/log_file.h
@@ -105,6 +105,9 @@ public:
 
     Status sync();
 
+    // Call `fsync` only if there are data written after the last `fsync`.
+    Status syncIfRequired();
+
     bool isSynced();
 
     Status discardDirty(uint64_t seq_begin);
@@ -245,6 +248,9 @@ private:
     // Memtable has been purged.
     std::atomic<bool> memtablePurged;
 
+    // `true` if there are data written to the file but not fsynced yet.
+    std::atomic<bool> fsyncRequired;
+
     // Memtable metadata if it is purged.
     PurgedMemTableMeta memTableOnFileMeta;
 
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index e50ac7d..19f94ed 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1279,6 +1279,19 @@ Status LogMgr::syncInternal(bool call_fsync) {
           ln_from, ln_to, call_fsync ? "true" : "false",
           num_suppressed);
 
+    if (call_fsync) {
+        // Log files before `ln_from` are already written, but they may not
+        // be durable yet if previous syncs were done without `fsync`.
+        uint64_t ln_min = 0;
+        EP( mani->getMinLogFileNum(ln_min) );
+        for (uint64_t ii=ln_min; ii<ln_from; ++ii) {
+            // Avoid loading memtable because of this call.
+            LogFileInfoGuard li(mani->getLogFileInfoP(ii, true));
+            if (li.empty() || li.ptr->isRemoved()) continue;
+            EP( li->file->syncIfRequired() );
+        }
+    }
+
     uint64_t last_synced_log = ln_from;
     uint64_t seq_barrier = getVisibleSeqBarrier();
     for (uint64_t ii=ln_from; ii<=ln_to; ++ii) {
-- 
2.43.0


From e89731bf5abbc5ac6b4b1c6eeebccba6f3c04614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:47 +0000
Subject: [PATCH 41/74] fix: empty or newer log files after a crash should not
 hide or overlap other log files

---
 src/log_manifest.cc | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 2d0708e..eeb5d3d 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -444,8 +444,35 @@ Status LogManifest::load(const std::string& path,
             }
             // Otherwise: tolerate.
         }
+
+        if ( !l_file->isMemTablePurged() &&
+             !valid_number(l_file->getMaxSeqNum()) &&
+             ii + 1 < num_log_files ) {
+            // No record has been synced before the crash, not only to this
+            // file but also to all preceding files. We should not keep such
+            // empty file, otherwise it will hide other log files when we
+            // find a log file by sequence number.
+            _log_warn(myLog, "index %zu (out of %zu) log number %zu is empty, "
+                      "skip it",
+                      ii, num_log_files, l_file_num);
+            lastFlushedLog = NOT_INITIALIZED;
+            lastSyncedLog = NOT_INITIALIZED;
+            delete l_file;
+            continue;
+        }
         first_file_read = true;
 
+        // NOTE:
+        //   The log file can contain more records than what manifest knows,
+        //   if the process crashed before storing the manifest. The next
+        //   log file should start after the last record we actually loaded.
+        uint64_t loaded_synced_seq = l_file->getSyncedSeqNum();
+        if ( valid_number(loaded_synced_seq) &&
+             ( !valid_number(last_synced_seq) ||
+               last_synced_seq < loaded_synced_seq ) ) {
+            last_synced_seq = loaded_synced_seq;
+        }
+
         _log_info( myLog,
                    "log %ld, min seq %s, last flush %s, last sync %s",
                    l_file_num,
-- 
2.43.0


From cc58667305d2b392a4900596b8840ec72fb3dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:47 +0000
Subject: [PATCH 42/74] fix: valid records before a corrupted part of a log
 file should not be discarded

---
 src/log_manifest.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index eeb5d3d..8513660 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -389,6 +389,23 @@ Status LogManifest::load(const std::string& path,
 
         s = l_file->load(l_filename, fLogOps, l_file_num,
                          min_seq, purged_seq, synced_seq);
+        bool stop_loading = false;
+        if ( s == Status::CHECKSUM_ERROR &&
+             valid_number(l_file->getSyncedSeqNum()) ) {
+            // The beginning part of the file is loaded successfully. We
+            // should not discard it, as the corrupted part can be the data
+            // that was being written when the crash happened, the same as
+            // the incomplete log. If synced records are missing, we should
+            // not load the files after that.
+            _log_warn(myLog, "log file %zu is corrupted, last synced seq %s, "
+                      "loaded upto %s",
+                      l_file_num,
+                      _seq_str(synced_seq).c_str(),
+                      _seq_str(l_file->getSyncedSeqNum()).c_str());
+            stop_loading = ( valid_number(synced_seq) &&
+                             l_file->getSyncedSeqNum() < synced_seq );
+            s = Status::INCOMPLETE_LOG;
+        }
         if (!s) {
             _s_warn(myLog) << "log file " << l_file_num << " read error: " << s;
             if ( s == Status::FILE_NOT_EXIST ||
@@ -485,6 +502,12 @@ Status LogManifest::load(const std::string& path,
              lastSyncedLog < l_file_num ) {
             lastSyncedLog.store(l_file_num);
         }
+
+        if (stop_loading) {
+            maxLogFileNum.store(l_file_num, MOR);
+            lastSyncedLog.store(l_file_num, MOR);
+            break;
+        }
     }
 
     _log_info(myLog, "loading manifest & log files done: %lu us, "
-- 
2.43.0


From 95c01553345967fa2330704657c3d0512cff89c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:24:47 +0000
Subject: [PATCH 43/74] fix: log manifest followed by the tail of the previous
 one should be loadable

---
 src/log_manifest.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 8513660..0c1c76e 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -260,8 +260,22 @@ Status LogManifest::load(const std::string& path,
     size_t file_size = fOps->eof(mFile);
     if (file_size < 16) throw Status(Status::FILE_CORRUPTION);
 
-    // Footer check
     RwSerializer ss(fOps, mFile);
+
+    // NOTE:
+    //   If crash happens after writing a manifest that is shorter than the
+    //   previous one but before truncating the tail, there can be garbage
+    //   after the valid manifest. Should ignore it.
+    const size_t HEADER_SIZE = 8 * 3 + 4;
+    const size_t ENTRY_SIZE = 8 * 4;
+    if (file_size >= HEADER_SIZE + 16) {
+        ss.pos(8 * 3);
+        uint64_t num_entries = ss.getU32(s);
+        uint64_t actual_size = HEADER_SIZE + num_entries * ENTRY_SIZE + 16;
+        if (actual_size < file_size) file_size = actual_size;
+    }
+
+    // Footer check
     uint8_t chk_footer[8];
     ss.pos(file_size - 16);
     ss.get(chk_footer, 8);
-- 
2.43.0


From 48480b3df99c9cfc4744172c87378e53e805210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:31 +0000
Subject: [PATCH 44/74] fix: fsync of a re-opened direct-IO file should not be
 skipped

---
 src/fileops_directio.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index c67412b..99b22a0 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -214,7 +214,8 @@ Status FileOpsDirectIO::open(FileHandle** fhandle_out,
     if (need_align == 0) {
         fhandle->filePos = file_size;
         fhandle->flushedFilePos = file_size;
-        fhandle->fsyncedFilePos = file_size;
+        // Existing data may not be synced yet.
+        fhandle->fsyncedFilePos = 0;
         fhandle->bufPos = 0;
     } else {
         // Read the last un-aligned data
@@ -225,7 +226,8 @@ Status FileOpsDirectIO::open(FileHandle** fhandle_out,
                         file_size - need_align));
         fhandle->filePos = file_size - need_align;
         fhandle->flushedFilePos = file_size;
-        fhandle->fsyncedFilePos = file_size;
+        // Existing data may not be synced yet.
+        fhandle->fsyncedFilePos = 0;
         fhandle->bufPos = need_align;
     }
 
-- 
2.43.0


From 8d05122751a4bae034bcd0a07f281f3934512975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:31 +0000
Subject: [PATCH 45/74] fix: empty log file should be noticed even though its
 mem-table is loaded lazily

---
 src/log_file.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/log_file.cc b/src/log_file.cc
index b2c568f..322d72c 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -203,6 +203,14 @@ Status LogFile::load(const std::string& _filename,
     memTableOnFileMeta.maxSeq = synced_seq;
     if (logMgr->isLogStoreMode()) {
         // If reclaim mode, load mem-table lazily.
+        // But should check if the file is empty (treat it as a non-exist
+        // file), as there will be no mem-table even after loading it.
+        Status s;
+        EP( openFHandle() );
+        fileSize = fOps->eof(fHandle);
+        EP( closeFHandle() );
+        if (!fileSize) return Status::FILE_NOT_EXIST;
+
         memtablePurged = true;
         return Status();
     }
-- 
2.43.0


From 49e0d64332fe176ba8033583c70fec08bcf75a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:31 +0000
Subject: [PATCH 46/74] fix: flushed seq of a purged mem-table should not
 exceed the synced one

---
 src/log_file.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index 322d72c..b5d123b 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -668,7 +668,11 @@ Status LogFile::setSyncedSeqNum(const uint64_t seq_num) {
 Status LogFile::setFlushedSeqNum(const uint64_t seq_num) {
     touch();
     if (!mTable) {
-        memTableOnFileMeta.flushedSeq = seq_num;
+        // The same as below, it should not exceed the last synced number.
+        uint64_t synced_seq = memTableOnFileMeta.syncedSeq;
+        memTableOnFileMeta.flushedSeq =
+            ( valid_number(synced_seq) && seq_num > synced_seq )
+            ? synced_seq : seq_num;
         return Status();
     }
 
-- 
2.43.0


From ff13aaf84389b9e058752507d2354b69f422b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:31 +0000
Subject: [PATCH 47/74] fix: mem-table evicted by rollback should be reloaded
 even though TTL is disabled

---
 src/log_manifest.cc | 11 +++++++++--
 src/log_manifest.h  |  2 ++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 0c1c76e..a607228 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -202,6 +202,13 @@ bool LogManifest::isLogReclaimerActive() {
     return logMgr->isLogStoreMode();
 }
 
+bool LogManifest::isMemTableEvictable() {
+    // In log section only mode, a mem-table can be evicted even though
+    // the log file TTL is disabled: by rollback, or by the reclaimer
+    // initiated by another DB instance in the same process.
+    return logMgr->getDbConfig()->logSectionOnly;
+}
+
 void LogManifest::spawnReclaimer() {
     if ( isLogReclaimerActive() ) {
         DBMgr* dbm = DBMgr::getWithoutInit();
@@ -789,7 +796,7 @@ Status LogManifest::getLogFileInfoRange(const uint64_t s_log_inc,
         if (force_not_load_memtable) {
             l_info->grab();
         } else {
-            l_info->grab(isLogReclaimerActive());
+            l_info->grab(isMemTableEvictable());
         }
         info_out.push_back(l_info);
 
@@ -857,7 +864,7 @@ Status LogManifest::getLogFileInfoBySeq(const uint64_t seq_num,
     if (force_not_load_memtable) {
         info_out->grab();
     } else {
-        info_out->grab(isLogReclaimerActive());
+        info_out->grab(isMemTableEvictable());
     }
     skiplist_release_node(cursor);
     return Status();
diff --git a/src/log_manifest.h b/src/log_manifest.h
index 82a247b..2b6f129 100644
--- a/src/log_manifest.h
+++ b/src/log_manifest.h
@@ -255,6 +255,8 @@ public:
 
     bool isLogReclaimerActive();
 
+    bool isMemTableEvictable();
+
     void spawnReclaimer();
 
     Status create(const std::string& path,
-- 
2.43.0


From c7ce311ceeac291fe03619acd22c65321cbb64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:31 +0000
Subject: [PATCH 48/74] fix: log file should be grabbed before its seq numbers
 are read

---
 src/log_manifest.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index a607228..c4e5a40 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -824,6 +824,10 @@ Status LogManifest::getLogFileInfoBySeq(const uint64_t seq_num,
     LogFileInfo* info = _get_entry(cursor, LogFileInfo, snodeBySeq);
     LogFile* file = info->file;
 
+    // WARNING: We should grab `info` before accessing seq numbers below,
+    //          as mem-table can be evicted by the reclaimer.
+    info->grab( force_not_load_memtable ? false : isMemTableEvictable() );
+
     DBMgr* mgr = DBMgr::getWithoutInit();
     if (mgr && mgr->isDebugCallbackEffective()) {
         DebugParams d_params = mgr->getDebugParams();
@@ -839,6 +843,7 @@ Status LogManifest::getLogFileInfoBySeq(const uint64_t seq_num,
         //          if user uses custom seqnum which is bigger than
         //          the expected seqnum.
         skiplist_release_node(cursor);
+        info->done();
         return Status::LOG_FILE_NOT_FOUND;
     }
 
@@ -856,16 +861,12 @@ Status LogManifest::getLogFileInfoBySeq(const uint64_t seq_num,
         }
         if (is_last_file || !allow_non_exact_match) {
             skiplist_release_node(cursor);
+            info->done();
             return Status::LOG_FILE_NOT_FOUND;
         }
     }
 
     info_out = info;
-    if (force_not_load_memtable) {
-        info_out->grab();
-    } else {
-        info_out->grab(isMemTableEvictable());
-    }
     skiplist_release_node(cursor);
     return Status();
 }
-- 
2.43.0


From d846c354a1685691dbab6e18ebfc60af1d9ab422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:31 +0000
Subject: [PATCH 49/74] fix: waiting for an eviction that never happens should
 not hang

---
 src/log_manifest.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/log_manifest.h b/src/log_manifest.h
index 2b6f129..d54238e 100644
--- a/src/log_manifest.h
+++ b/src/log_manifest.h
@@ -44,7 +44,8 @@ struct LogFileInfo {
         , refCount(0)
         , snapCount(0)
         , removed(false)
-        , evicted(false) {
+        , evicted(false)
+        , numEvictions(0) {
         skiplist_init_node(&snodeBySeq);
         skiplist_init_node(&snode);
     }
@@ -165,10 +166,13 @@ struct LogFileInfo {
                 //   1) This node is already detached from skiplist, and
                 //   2) once `removed` flag is set, reclaimer cannot handle this file.
                 //
-                if (evicted) {
-                    while (!file->isMemTablePurged()) std::this_thread::yield();
-                    // Wait for other job done.
-                }
+                // * Note that the memtable may not be evicted even though
+                //   `evicted` is set, if this file is removed while others
+                //   are still using the memtable. Hence, we should wait for
+                //   the on-going eviction only.
+                //
+                while (numEvictions) std::this_thread::yield();
+                // Wait for other job done.
                 file->destroySelf();
                 delete file;
                 delete this;
@@ -177,6 +181,7 @@ struct LogFileInfo {
         }
 
         if (snapshot == false && evicted) {
+            numEvictions.fetch_add(1);
             uint64_t count = refCount.fetch_sub(1);
             if (count == 1) {
                 std::lock_guard<std::mutex> l(evictionLock);
@@ -187,6 +192,7 @@ struct LogFileInfo {
                     file->purgeMemTable();
                 }
             }
+            numEvictions.fetch_sub(1);
             return;
         }
 
@@ -228,6 +234,9 @@ struct LogFileInfo {
     // Flag indicating whether or not this file is evicted from LRU.
     std::atomic<bool> evicted;
 
+    // Number of threads that are evicting mem-table of this file.
+    std::atomic<uint64_t> numEvictions;
+
     // Lock for loading & evicting mem-table.
     std::mutex evictionLock;
 };
-- 
2.43.0


From 1b7509e621d6f724b645d9e1f36f36df25006b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:31 +0000
Subject: [PATCH 50/74] fix: empty log files at the end should not be kept
 after a crash

---
 src/log_manifest.cc | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index c4e5a40..1d5eb73 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -26,6 +26,7 @@ limitations under the License.
 #include _MACRO_TO_STR(LOGGER_H)
 
 #include <algorithm>
+#include <list>
 #include <sstream>
 
 namespace jungle {
@@ -317,6 +318,14 @@ Status LogManifest::load(const std::string& path,
 
     uint64_t last_synced_seq = NOT_INITIALIZED;
 
+    struct EmptyLogFile {
+        uint64_t logFileNum;
+        LogFile* file;
+        uint64_t minSeq;
+    };
+    std::list<EmptyLogFile> empty_files;
+    uint64_t last_loaded_log_num = NOT_INITIALIZED;
+
     bool first_file_read = false;
     for (uint32_t ii=0; ii < num_log_files; ++ii) {
         LogFile* l_file = new LogFile(logMgr);
@@ -518,7 +527,24 @@ Status LogManifest::load(const std::string& path,
                    _seq_str(purged_seq).c_str(),
                    _seq_str(synced_seq).c_str() );
 
+        if ( getNumLogFiles() &&
+             valid_number(min_seq) &&
+             valid_number(l_file->getMaxSeqNum()) &&
+             l_file->getMaxSeqNum() < min_seq ) {
+            // No record in this file has been synced before the crash.
+            // Should not keep this file if no valid log file follows it,
+            // otherwise the next new log file will start with the same
+            // sequence number and be hidden by this file.
+            empty_files.push_back({l_file_num, l_file, min_seq});
+            continue;
+        }
+        for (auto& entry: empty_files) {
+            addNewLogFile(entry.logFileNum, entry.file, entry.minSeq);
+        }
+        empty_files.clear();
+
         addNewLogFile(l_file_num, l_file, min_seq);
+        last_loaded_log_num = l_file_num;
         if ( !valid_number(lastSyncedLog) ||
              lastSyncedLog < l_file_num ) {
             lastSyncedLog.store(l_file_num);
@@ -531,6 +557,17 @@ Status LogManifest::load(const std::string& path,
         }
     }
 
+    if (!empty_files.empty()) {
+        for (auto& entry: empty_files) {
+            _log_warn(myLog, "log number %zu is empty, min seq %s, skip it",
+                      entry.logFileNum,
+                      _seq_str(entry.minSeq).c_str());
+            delete entry.file;
+        }
+        maxLogFileNum.store(last_loaded_log_num, MOR);
+        lastSyncedLog.store(last_loaded_log_num, MOR);
+    }
+
     _log_info(myLog, "loading manifest & log files done: %lu us, "
               "flushed %s synced %s max %s",
               tt.getUs(),
-- 
2.43.0


From 7eaea6d27f0bb333377ed7645ec5445790d6e385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:31 +0000
Subject: [PATCH 51/74] fix: log files after a truncated one should not be
 loaded

---
 src/log_manifest.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 1d5eb73..fe50731 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -436,6 +436,24 @@ Status LogManifest::load(const std::string& path,
                              l_file->getSyncedSeqNum() < synced_seq );
             s = Status::INCOMPLETE_LOG;
         }
+        if ( ( s || s == Status::INCOMPLETE_LOG ) &&
+             db_config->logSectionOnly &&
+             db_config->truncateInconsecutiveLogs &&
+             valid_number(min_seq) &&
+             valid_number(synced_seq) &&
+             min_seq <= synced_seq &&
+             valid_number(l_file->getMaxSeqNum()) &&
+             l_file->getMaxSeqNum() < synced_seq ) {
+            // Log file is shorter than what manifest knows, it can happen
+            // if crash happens in the middle of rollback. Log files after
+            // that are inconsecutive, should not load them.
+            _log_warn(myLog, "last synced seq of log file %zu is %s, "
+                      "but loaded upto %s",
+                      l_file_num,
+                      _seq_str(synced_seq).c_str(),
+                      _seq_str(l_file->getMaxSeqNum()).c_str());
+            stop_loading = true;
+        }
         if (!s) {
             _s_warn(myLog) << "log file " << l_file_num << " read error: " << s;
             if ( s == Status::FILE_NOT_EXIST ||
@@ -536,6 +554,7 @@ Status LogManifest::load(const std::string& path,
             // otherwise the next new log file will start with the same
             // sequence number and be hidden by this file.
             empty_files.push_back({l_file_num, l_file, min_seq});
+            if (stop_loading) break;
             continue;
         }
         for (auto& entry: empty_files) {
-- 
2.43.0


From a66caad66ad16e3755d32fe83d2995400793a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:31 +0000
Subject: [PATCH 52/74] fix: last log file should be scanned even though its
 mem-table is loaded lazily

---
 src/log_manifest.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index fe50731..88d5b04 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -419,6 +419,13 @@ Status LogManifest::load(const std::string& path,
 
         s = l_file->load(l_filename, fLogOps, l_file_num,
                          min_seq, purged_seq, synced_seq);
+        if ( s &&
+             l_file->isMemTablePurged() &&
+             ii + 1 == num_log_files ) {
+            // Manifest file may not have the latest info of the last log
+            // file. We should scan the file, to get the last synced data.
+            s = l_file->loadMemTable();
+        }
         bool stop_loading = false;
         if ( s == Status::CHECKSUM_ERROR &&
              valid_number(l_file->getSyncedSeqNum()) ) {
@@ -587,6 +594,14 @@ Status LogManifest::load(const std::string& path,
         lastSyncedLog.store(last_loaded_log_num, MOR);
     }
 
+    if (valid_number(last_loaded_log_num)) {
+        // The same as above, the actual last log file should be loaded now.
+        // Otherwise, the last sequence number will be changed when this file
+        // is loaded later, by the records that manifest does not know.
+        LogFileInfo* last_info = nullptr;
+        if (getLogFileInfo(last_loaded_log_num, last_info)) last_info->done();
+    }
+
     _log_info(myLog, "loading manifest & log files done: %lu us, "
               "flushed %s synced %s max %s",
               tt.getUs(),
-- 
2.43.0


From fd15644860551f6b45ad245b33501cc047208b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:31 +0000
Subject: [PATCH 53/74] fix: log file newly created by opening should be stored
 in manifest

---
 src/log_mgr.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 19f94ed..955109c 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -185,6 +185,13 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
                           0,
                           0));
         TC(mani->addNewLogFile(0, l_file, 1));
+        // Manifest info of the log files that do not exist anymore
+        // should be discarded as well.
+        mani->rollbackLogFileNumber(0);
+        mani->setLastSyncedLog(0);
+        mani->setLastFlushedLog(0);
+        // Manifest file does not have this new log file yet.
+        needSkippedManiSync = true;
 
        } catch (Status s) {
         delete l_file;
-- 
2.43.0


From 1364a5357b0dac461ac9454acb9c0adf161752e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:31 +0000
Subject: [PATCH 54/74] fix: first batch with given seq numbers should be
 allowed in an empty DB

---
 src/log_mgr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 955109c..4e43997 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -780,7 +780,8 @@ Status LogMgr::checkBatchValidity(const std::list<Record>& batch)
         // Batch set doesn't allow overwriting existing seq numbers.
         uint64_t dummy_u64 = 0;
         s = mani->getLogFileNumBySeq(first_rec.seqNum, dummy_u64);
-        if (s) return Status::INVALID_SEQNUM;
+        // NOTE: It succeeds with the first empty log file as well.
+        if (s && getMaxSeqNum(dummy_u64)) return Status::INVALID_SEQNUM;
     }
 
     // Check given sequence numbers.
-- 
2.43.0


From fbe8290a95fe3955e373522bbbbd95ec7dabcbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:32 +0000
Subject: [PATCH 55/74] fix: manifest sync should not be skipped until the
 first log file has data

---
 src/log_mgr.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 4e43997..c5a7766 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1301,6 +1301,7 @@ Status LogMgr::syncInternal(bool call_fsync) {
     }
 
     uint64_t last_synced_log = ln_from;
+    bool last_file_empty = false;
     uint64_t seq_barrier = getVisibleSeqBarrier();
     for (uint64_t ii=ln_from; ii<=ln_to; ++ii) {
         // Write log file first
@@ -1334,6 +1335,7 @@ Status LogMgr::syncInternal(bool call_fsync) {
         if (valid_number(after_sync)) {
             last_synced_log = ii;
         }
+        last_file_empty = !valid_number(after_sync);
         // Set this file immutable, if it is not the last file.
         if (ii < ln_to) {
             li->file->setImmutable();
@@ -1349,7 +1351,9 @@ Status LogMgr::syncInternal(bool call_fsync) {
          (call_fsync && needManiFsync) ) {
         EP( mani->store(call_fsync) );
         _log_(log_level, myLog, "updated log manifest file.");
-        needSkippedManiSync = false;
+        // NOTE: If the last file is empty, manifest file does not have the
+        //       valid info of that file yet, so the next sync should do it.
+        needSkippedManiSync = last_file_empty;
         // NOTE: If it is not fsynced this time, the next sync with fsync
         //       should do it even though `skipManifestSync` is on.
         needManiFsync = !call_fsync;
-- 
2.43.0


From 9174bc2620cbc35bb66e870ce753921c251bc5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:32 +0000
Subject: [PATCH 56/74] fix: purging logs after unsynced logs were purged
 should not fail

---
 src/log_mgr.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index c5a7766..3b035d2 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1452,6 +1452,12 @@ Status LogMgr::flush(const FlushOptions& options,
         EP( mani->getMinLogFileNum(ln_from) );
     }
 
+    if (ln_to < ln_from) {
+        // The last synced log was already removed by purging logs that
+        // were not synced.
+        ln_to = ln_from;
+    }
+
     ln_to_original = ln_to;
     if ( options.numFilesLimit &&
          ln_to - ln_from + 1 > options.numFilesLimit ) {
-- 
2.43.0


From 6cd5e1cf14f92392401622276bb08014a9a54e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:32 +0000
Subject: [PATCH 57/74] fix: DB should not be closed while its log files are
 being reclaimed

---
 src/log_reclaimer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/log_reclaimer.cc b/src/log_reclaimer.cc
index 17e1684..e7edbcd 100644
--- a/src/log_reclaimer.cc
+++ b/src/log_reclaimer.cc
@@ -62,6 +62,8 @@ void LogReclaimer::work() {
         while (cursor) {
             DBWrap* dbwrap = _get_entry(cursor, DBWrap, snode);
             if (dbwrap->db->p->dbConfig.logSectionOnly) {
+                // Prevent this DB from being closed during reclaiming.
+                dbwrap->db->p->incBgTask();
                 target_dbs.push_back(dbwrap->db);
             }
             cursor = skiplist_next(&dbm->dbMap, cursor);
@@ -75,6 +77,7 @@ void LogReclaimer::work() {
     for (auto& entry: target_dbs) {
         DB* db = entry;
         db->p->logMgr->doLogReclaim();
+        db->p->decBgTask();
     }
 }
 
-- 
2.43.0


From 2a4a4c30bcc783a4166442aad01a53195c8b7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:48 +0000
Subject: [PATCH 58/74] fix: mem-table found by log number should be reloaded
 after eviction by rollback

---
 src/log_manifest.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 88d5b04..f24eeb3 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -829,7 +829,7 @@ Status LogManifest::getLogFileInfo(const uint64_t log_num,
     if (force_not_load_memtable) {
         info_out->grab();
     } else {
-        info_out->grab(isLogReclaimerActive());
+        info_out->grab(isMemTableEvictable());
     }
     skiplist_release_node(cursor);
     return Status();
-- 
2.43.0


From 49618611ef3d16c2575bfa56e17c566e60eaf57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:58:07 +0000
Subject: [PATCH 59/74] fix: records appended during sync should not be marked
 as synced

---
 src/log_file.cc | 5 +++++
 src/memtable.cc | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/log_file.cc b/src/log_file.cc
index b5d123b..20ba429 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -645,6 +645,11 @@ Status LogFile::getCheckpoints(const uint64_t seq_num,
 
 Status LogFile::setSyncedSeqNum(const uint64_t seq_num) {
     touch();
+    if (!valid_number(seq_num)) {
+        // Nothing was written to the file, we should not mark records that
+        // were appended in the meantime as synced.
+        return Status();
+    }
     if (!mTable) {
         memTableOnFileMeta.syncedSeq = seq_num;
         return Status();
diff --git a/src/memtable.cc b/src/memtable.cc
index 694ff4c..dd41763 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1282,6 +1282,10 @@ Status MemTable::flush(RwSerializer& rws, uint64_t upto, uint64_t& flushed_seq_o
     // Write logs in a mutation order.
     // From `synced seq num` to `max seq num`
     uint64_t seqnum_upto = maxSeqNum;
+    if (!valid_number(seqnum_upto)) {
+        // The first record is still being appended. Nothing to write yet.
+        return Status();
+    }
 
     // Manually given sequence number limit.
     if (valid_number(upto) && upto < seqnum_upto) {
-- 
2.43.0


From 45663d402a177a8482c2a2b2fb454d1cedd396d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:01:10 +0000
Subject: [PATCH 60/74] fix: batch should be isolated from readers, sync, and
 flush until it is done

---
 src/global_batch.cc |  5 ++-
 src/log_iterator.cc | 16 +++-----
 src/log_mgr.cc      | 97 ++++++++++++++++++++++++---------------------
 src/log_mgr.h       | 31 +++++++++++++++
 4 files changed, 91 insertions(+), 58 deletions(-)

diff --git a/src/global_batch.cc b/src/global_batch.cc
index ba8492f..77b7b94 100644
--- a/src/global_batch.cc
+++ b/src/global_batch.cc
@@ -86,7 +86,7 @@ Status GlobalBatchExecutor::execute(const GlobalBatch& g_batch) {
             const GlobalBatch::BatchPair& pair = entry;
             // WARNING:
             //   Should clean-up visible seq barrier first.
-            pair.db->p->logMgr->setVisibleSeqBarrier(0);
+            pair.db->p->logMgr->clearVisibleSeqBarrier();
             pair.db->p->logMgr->setGlobalBatch(0, nullptr);
             // Unlock should be done at the end.
             pair.db->p->logMgr->unlockWriteMutex();
@@ -123,6 +123,9 @@ Status GlobalBatchExecutor::execute(const GlobalBatch& g_batch) {
 
     // Set batch of all DBs is done, now make flag VISIBLE, and do clean-up.
     // After this line, all batch items become visible atomically.
+    for (auto& entry: g_batch.pairList) {
+        entry.db->p->logMgr->increaseVisibilityEpoch();
+    }
     gb_status->curStatus.store(GlobalBatchStatus::VISIBLE, MOR);
 
     // Unlock and do throttling if necessary.
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 83f7a39..81ca6d9 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -89,7 +89,11 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
 {
     // Save current seq number status.
     Status s;
-    s = log_mgr->getAvailSeqRange(minSeqSnap, maxSeqSnap);
+    maxSeqSnap = log_mgr->getVisibleMaxSeq( [&]() {
+        uint64_t ret = NOT_INITIALIZED;
+        s = log_mgr->getAvailSeqRange(minSeqSnap, ret);
+        return ret;
+    } );
     // No log yet.
     if (!s) return s;
 
@@ -105,16 +109,6 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
     if (valid_number(min_seq) && minSeqSnap < min_seq) minSeqSnap = min_seq;
     if (valid_number(max_seq) && max_seq < maxSeqSnap) maxSeqSnap = max_seq;
 
-    // WARNING:
-    //   The same as the comment in `LogMgr::get()`,
-    //   fetching `visibleSeqBarrier` should be done AFTER
-    //   fetching max seq number (`getAvailSeqRange` above).
-    uint64_t visible_seq_barrier = log_mgr->getVisibleSeqBarrier();
-    if ( visible_seq_barrier &&
-         maxSeqSnap > visible_seq_barrier ) {
-        maxSeqSnap = visible_seq_barrier;
-    }
-
     // No available records in log section.
     if (minSeqSnap > maxSeqSnap) return Status::OUT_OF_RANGE;
 
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 3b035d2..b9c7f95 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -39,7 +39,8 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , throttlingRate(0)
     , lastFlushIntervalMs(0)
     , numSetRecords(0)
-    , visibleSeqBarrier(0)
+    , visibleSeqBarrier(NOT_INITIALIZED)
+    , visibilityEpoch(0)
     , fwdVisibleSeqBarrier(0)
     , globalBatchStatus(nullptr)
     , numMemtables(0)
@@ -719,7 +720,7 @@ Status LogMgr::setMulti(const std::list<Record>& batch) {
     getMaxSeqNum(max_seq); // empty log should be tolerated.
     setVisibleSeqBarrier(max_seq);
     GcFunc gc_vs( [&]{
-        setVisibleSeqBarrier(0);
+        clearVisibleSeqBarrier();
     } );
 
     EP( checkBatchValidity(batch) );
@@ -738,6 +739,12 @@ void LogMgr::setVisibleSeqBarrier(uint64_t to) {
     visibleSeqBarrier.store(to, MOR);
 }
 
+void LogMgr::clearVisibleSeqBarrier() {
+    // WARNING: Should be increased before the barrier is removed.
+    increaseVisibilityEpoch();
+    visibleSeqBarrier.store(NOT_INITIALIZED, MOR);
+}
+
 void LogMgr::setGlobalBatch(uint64_t fwd_barrier,
                             std::shared_ptr<GlobalBatchStatus> status)
 {
@@ -860,11 +867,10 @@ Status LogMgr::getSN(const uint64_t seq_num, Record& rec_out) {
         return Status::KEY_NOT_FOUND;
     }
 
-    uint64_t max_seq = gg->file->getMaxSeqNum();
-    uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-    if ( seq_num > max_seq ||
-         ( visible_seq_barrier &&
-           seq_num > visible_seq_barrier ) ) {
+    uint64_t max_seq = getVisibleMaxSeq( [&]() {
+        return gg->file->getMaxSeqNum();
+    } );
+    if (seq_num > max_seq) {
         return Status::KEY_NOT_FOUND;
     }
 
@@ -940,14 +946,9 @@ Status LogMgr::get(const uint64_t chk,
                 if (l_info->isRemoved()) continue;
 
                 // Reserve max seq number as a temporary snapshot.
-                chk_local = l_info->file->getMaxSeqNum();
-
-                // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
-                //          fetching max seq number.
-                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                chk_local = getVisibleMaxSeq( [&]() {
+                    return l_info->file->getMaxSeqNum();
+                } );
 
                 s = l_info->file->get(chk_local, key, rec_out_local, false, true);
                 if (s) {
@@ -1063,14 +1064,9 @@ Status LogMgr::getNearest(const uint64_t chk,
                 if (l_info->isRemoved()) continue;
 
                 // Reserve max seq number as a temporary snapshot.
-                chk_local = l_info->file->getMaxSeqNum();
-
-                // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
-                //          fetching max seq number.
-                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                chk_local = getVisibleMaxSeq( [&]() {
+                    return l_info->file->getMaxSeqNum();
+                } );
 
                 s = l_info->file->getNearest(chk_local, key, rec_out_local,
                                              false, true, s_opt);
@@ -1159,14 +1155,9 @@ Status LogMgr::getPrefix(const uint64_t chk,
                 if (l_info->isRemoved()) continue;
 
                 // Reserve max seq number as a temporary snapshot.
-                chk_local = l_info->file->getMaxSeqNum();
-
-                // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
-                //          fetching max seq number.
-                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                chk_local = getVisibleMaxSeq( [&]() {
+                    return l_info->file->getMaxSeqNum();
+                } );
 
                 s = l_info->file->getPrefix(chk_local, prefix, cb_func, false, true);
                 if (s == Status::OPERATION_STOPPED) {
@@ -1302,7 +1293,6 @@ Status LogMgr::syncInternal(bool call_fsync) {
 
     uint64_t last_synced_log = ln_from;
     bool last_file_empty = false;
-    uint64_t seq_barrier = getVisibleSeqBarrier();
     for (uint64_t ii=ln_from; ii<=ln_to; ++ii) {
         // Write log file first
         LogFileInfoGuard li(mani->getLogFileInfoP(ii));
@@ -1310,8 +1300,13 @@ Status LogMgr::syncInternal(bool call_fsync) {
 
         uint64_t before_sync = li->file->getSyncedSeqNum();
         uint64_t after_sync = NOT_INITIALIZED;
-        EP( li->file->flushMemTable( (seq_barrier ? seq_barrier : NOT_INITIALIZED),
-                                     after_sync ) );
+        uint64_t seq_upto = getVisibleMaxSeq( [&]() {
+            return li->file->getMaxSeqNum();
+        } );
+        // If there is no record yet, records appended from now on should not
+        // be written as they can be a part of a batch.
+        if (!valid_number(seq_upto)) seq_upto = 0;
+        EP( li->file->flushMemTable(seq_upto, after_sync) );
         if (call_fsync) {
             EP( li->file->sync() );
         }
@@ -1464,10 +1459,10 @@ Status LogMgr::flush(const FlushOptions& options,
         ln_to = ln_from + options.numFilesLimit - 1;
     }
 
-    uint64_t seq_num_local = seq_num;
-    uint64_t seq_barrier = getVisibleSeqBarrier();
-    if (seq_barrier && seq_barrier < seq_num_local) {
-        seq_num_local = seq_barrier;
+    uint64_t seq_num_local = std::min(seq_num, getVisibleSeqBarrier());
+    if (!seq_num_local) {
+        // The first batch is still in progress.
+        return Status::LOG_NOT_SYNCED;
     }
 
     if (seq_num_local == NOT_INITIALIZED) {
@@ -1480,7 +1475,10 @@ Status LogMgr::flush(const FlushOptions& options,
         while (true) {
             LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
             if (options.beyondLastSync) {
-                seq_num_local = ll->file->getMaxSeqNum();
+                seq_num_local = getVisibleMaxSeq( [&]() {
+                    return ll->file->getMaxSeqNum();
+                } );
+                if (!seq_num_local) return Status::LOG_NOT_SYNCED;
             } else {
                 seq_num_local = ll->file->getSyncedSeqNum();
             }
@@ -1501,7 +1499,6 @@ Status LogMgr::flush(const FlushOptions& options,
 
     } else {
         // Not all logs, need to adjust `ln_to`.
-        seq_num_local = seq_num;
         // If in purge only mode, don't need to load mem table.
         // If there is no exact match, take the last log file whose
         // sequence numbers are smaller than the given number.
@@ -1937,17 +1934,25 @@ Status LogMgr::getAvailSeqRange(uint64_t& min_seq,
 }
 
 Status LogMgr::getMaxSeqNum(uint64_t& seq_num_out) {
+    Status s;
+    uint64_t max_seq = getVisibleMaxSeq( [&]() {
+        uint64_t ret = NOT_INITIALIZED;
+        s = getMaxSeqNumInternal(ret);
+        return ret;
+    } );
+    if (!max_seq || max_seq == NOT_INITIALIZED) {
+        return (s) ? Status(Status::LOG_NOT_EXIST) : s;
+    }
+    seq_num_out = max_seq;
+    return Status();
+}
+
+Status LogMgr::getMaxSeqNumInternal(uint64_t& seq_num_out) {
     Status s;
     uint64_t ln_max = 0;
     uint64_t max_seq = NOT_INITIALIZED;
     const size_t MAX_TRY = 16;
 
-    uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-    if (visible_seq_barrier) {
-        seq_num_out = visible_seq_barrier;
-        return Status();
-    }
-
    for (size_t num_tries = 0; num_tries < MAX_TRY; num_tries++) {
     EP( mani->getMaxLogFileNum(ln_max) );
 
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 41b98c5..5b1c20a 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -169,11 +169,37 @@ public:
 
     void setVisibleSeqBarrier(uint64_t to);
 
+    void clearVisibleSeqBarrier();
+
     void setGlobalBatch(uint64_t fwd_barrier,
                         std::shared_ptr<GlobalBatchStatus> status);
 
+    // Returns `NOT_INITIALIZED` if there is no barrier.
     uint64_t getVisibleSeqBarrier();
 
+    // Should be called before records of a batch become visible.
+    void increaseVisibilityEpoch() { visibilityEpoch.fetch_add(1); }
+
+    /**
+     * Get the max sequence number that is visible to readers.
+     * If a batch becomes visible while we are reading the max sequence number
+     * and the barrier, the max number can point to the middle of that batch.
+     *
+     * @param get_max Function that returns the current max sequence number.
+     * @return Max visible sequence number.
+     */
+    template<typename F>
+    uint64_t getVisibleMaxSeq(F get_max) {
+        while (true) {
+            uint64_t epoch = visibilityEpoch.load();
+            uint64_t max_seq = get_max();
+            uint64_t barrier = getVisibleSeqBarrier();
+            if (epoch == visibilityEpoch.load()) {
+                return (barrier < max_seq) ? barrier : max_seq;
+            }
+        }
+    }
+
     Status checkBatchValidity(const std::list<Record>& batch);
 
     Status setMultiInternal(const std::list<Record>& batch,
@@ -242,6 +268,8 @@ public:
     Status getAvailSeqRange(uint64_t& min_seq,
                             uint64_t& max_seq);
     Status getMaxSeqNum(uint64_t& seq_num_out);
+
+    Status getMaxSeqNumInternal(uint64_t& seq_num_out);
     Status getMinSeqNum(uint64_t& seq_num_out);
     Status getLastFlushedSeqNum(uint64_t& seq_num_out);
     Status getLastSyncedSeqNum(uint64_t& seq_num_out);
@@ -440,6 +468,9 @@ protected:
      */
     std::atomic<uint64_t> visibleSeqBarrier;
 
+    // Increased whenever a batch becomes visible.
+    std::atomic<uint64_t> visibilityEpoch;
+
     /**
      * Global batch.
      */
-- 
2.43.0


From a12f10e4d638ec8683a396a0ba40a8bdf9a13019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:13:20 +0000
Subject: [PATCH 61/74] fix: iterator should not see records appended after its
 creation if the last log file is empty

---
 src/log_iterator.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 81ca6d9..748e85e 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -92,6 +92,13 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
     maxSeqSnap = log_mgr->getVisibleMaxSeq( [&]() {
         uint64_t ret = NOT_INITIALIZED;
         s = log_mgr->getAvailSeqRange(minSeqSnap, ret);
+        if (s && !valid_number(ret)) {
+            // The last log file is empty, take the number from previous files.
+            // WARNING:
+            //   Otherwise, records that will be appended after the creation
+            //   of this iterator will be visible.
+            s = log_mgr->getMaxSeqNumInternal(ret);
+        }
         return ret;
     } );
     // No log yet.
-- 
2.43.0


From 5a7b6b2425ed3dfbcf84d6e24c7eb9c85ddb9713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:15:32 +0000
Subject: [PATCH 62/74] fix: choose tables after compaction of the hash is
 acquired

---
 src/table_compaction.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index d2fac19..01694be 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -778,13 +778,6 @@ Status TableMgr::compactL0(const CompactOptions& options,
     Status s;
     const DBConfig* db_config = getDbConfig();
 
-    std::list<TableInfo*> tables;
-    s = mani->getL0Tables(hash_num, tables);
-    if (!s) {
-        _log_warn(myLog, "tables of hash %zu not found", hash_num);
-        return s;
-    }
-
     bool exp = false;
     bool val = true;
     if (!compactStatus[hash_num]->compare_exchange_strong(exp, val)) {
@@ -793,6 +786,18 @@ Status TableMgr::compactL0(const CompactOptions& options,
         return Status::OPERATION_IN_PROGRESS;
     }
 
+    // WARNING:
+    //   Tables should be chosen after `compactStatus` is acquired. Otherwise,
+    //   it may compact the table which has already been compacted and removed
+    //   by the other thread.
+    std::list<TableInfo*> tables;
+    s = mani->getL0Tables(hash_num, tables);
+    if (!s) {
+        _log_warn(myLog, "tables of hash %zu not found", hash_num);
+        compactStatus[hash_num]->store(false);
+        return s;
+    }
+
     std::stringstream s_log_msg_prefix;
     DBMgr* db_mgr = DBMgr::getWithoutInit();
     SimpleLogger* global_log = db_mgr->getLogger();
-- 
2.43.0


From 0e5979846837b719a788c2bf39cced81113db932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:17:01 +0000
Subject: [PATCH 63/74] fix: level-0 tables should be replaced atomically after
 compaction

---
 src/table_compaction.cc | 10 +++++++---
 src/table_manifest.cc   |  1 +
 src/table_manifest.h    | 11 +++++++++++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 01694be..4718871 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -977,7 +977,6 @@ Status TableMgr::compactL0(const CompactOptions& options,
         TableFile* newly_compacted_file = new TableFile(this);
         newly_compacted_file->setLogger(myLog);
         newly_compacted_file->load(0, dst_table_num, dst_filename, opt.fOps, t_opt);
-        mani->addTableFile(0, hash_num, SizedBuf(), newly_compacted_file);
 
         // Add special checkpoint 0, for base snapshot.
         uint64_t new_file_last_seqnum = 0;
@@ -985,8 +984,13 @@ Status TableMgr::compactL0(const CompactOptions& options,
         newly_compacted_file->addCheckpoint(0, new_file_last_seqnum);
 
         // Remove old file from manifest, and delete it.
-        mani->removeTableFile(0, origin_table);
-        if (merge_table) mani->removeTableFile(0, merge_table);
+        // WARNING: Should be atomic to readers, otherwise they may see the
+        //          old table without the tombstones in the other tables.
+        {   std::unique_lock<std::mutex> l = mani->lockL0Swap();
+            mani->addTableFile(0, hash_num, SizedBuf(), newly_compacted_file);
+            mani->removeTableFile(0, origin_table);
+            if (merge_table) mani->removeTableFile(0, merge_table);
+        }
 
         for (TableInfo*& table: tables) table->done();
 
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index 60766a0..16f51ee 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -574,6 +574,7 @@ Status TableManifest::getTablesByHash(LevelInfo* l_info,
     size_t num_partitions = tableMgr->getNumL0Partitions();
 
     // NOTE: only for level-0.
+    std::unique_lock<std::mutex> l = lockL0Swap();
     skiplist_node* cursor = skiplist_begin(l_info->tables);
     if (!cursor) return Status::TABLE_NOT_FOUND;
 
diff --git a/src/table_manifest.h b/src/table_manifest.h
index 895f6c5..0c6d68a 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -204,6 +204,14 @@ public:
                         SizedBuf min_key,
                         TableFile* t_file,
                         bool allow_stacking = true);
+    /**
+     * Acquire the lock that makes adding and removing multiple level-0
+     * tables atomic to readers.
+     */
+    std::unique_lock<std::mutex> lockL0Swap() {
+        return std::unique_lock<std::mutex>(l0SwapLock);
+    }
+
     Status removeTableFile(size_t level, TableInfo* table_to_remove);
 
     bool doesHashPartitionExist(uint32_t hash_num);
@@ -287,6 +295,9 @@ private:
      */
     std::mutex levelsLock;
 
+    // Level-0 tables are replaced atomically under this lock.
+    std::mutex l0SwapLock;
+
     /**
      * Level info.
      */
-- 
2.43.0


From c82ab7cf2dab7e8fd4d7427b35aef2455b448fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:52:13 +0000
Subject: [PATCH 64/74] fix: tables to compact, split, or merge should be valid
 after locking them

---
 src/table_compaction.cc | 25 +++++++++++++++++++++----
 src/table_split.cc      | 26 ++++++++++++++++++++++++++
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 4718871..d7c5630 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -77,16 +77,22 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     TableLockHolder tl_src_holder(this, {local_victim->number});
     if (!tl_src_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
 
+    // WARNING: The other thread may have processed and removed the victim
+    //          before we get the lock.
+    if (local_victim->isRemoved()) throw Status(Status::TABLE_NOT_FOUND);
+
     // Get overlapping tables.
     SizedBuf min_key_victim = local_victim->minKey;
     SizedBuf max_key_victim;
     SizedBuf::Holder h_max_key_victim(max_key_victim);
     local_victim->file->getMaxKey(max_key_victim);
 
-    {   // WARNING: See the comment at `mani->removeTableFile` in `compactLevelItr`.
-        std::lock_guard<std::mutex> l(mani->getLock());
-        mani->getTablesRange(level+1, min_key_victim, max_key_victim, tables);
-    }
+    // WARNING:
+    //   Destination tables should be locked before releasing `mani->getLock()`.
+    //   Otherwise, they may be removed or the list may become stale.
+    std::unique_lock<std::mutex> mani_lock(mani->getLock());
+    // WARNING: See the comment at `mani->removeTableFile` in `compactLevelItr`.
+    mani->getTablesRange(level+1, min_key_victim, max_key_victim, tables);
     _log_info( myLog, "victim table's min key %s max key %s, "
                "%zu overlapping table in level %zu",
                min_key_victim.toReadableString().c_str(),
@@ -103,6 +109,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     // Lock destination tables.
     TableLockHolder tl_dst_holder( this, table_list_to_number(tables) );
     if (!tl_dst_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
+    mani_lock.unlock();
 
     TableStats victim_stats;
     local_victim->file->getStats(victim_stats);
@@ -618,6 +625,12 @@ Status TableMgr::migrateLevel(const CompactOptions& options,
     TableLockHolder tl_src_holder(this, table_list_to_number(tables));
     if (!tl_src_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
 
+    // WARNING: Things may have been changed before we get the locks.
+    if (level + 1 != mani->getNumLevels()) throw Status(Status::INVALID_LEVEL);
+    for (TableInfo* ti: tables) {
+        if (ti->isRemoved()) throw Status(Status::OPERATION_IN_PROGRESS);
+    }
+
     mani->extendLevel();
 
     {   // Grab lock, add first, and then remove next.
@@ -691,6 +704,10 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
     TableLockHolder tl_holder(this, {local_victim->number});
     if (!tl_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
 
+    // WARNING: The other thread may have processed and removed the victim
+    //          before we get the lock.
+    if (local_victim->isRemoved()) throw Status(Status::TABLE_NOT_FOUND);
+
     uint64_t dst_table_num = 0;
     std::string dst_filename;
     EP( mani->issueTableNumber(dst_table_num) );
diff --git a/src/table_split.cc b/src/table_split.cc
index 903bb87..55c47d2 100644
--- a/src/table_split.cc
+++ b/src/table_split.cc
@@ -78,6 +78,10 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
     TableLockHolder tl_holder(this, {victim_table->number});
     if (!tl_holder.ownsLock()) return Status::OPERATION_IN_PROGRESS;
 
+    // WARNING: The other thread may have processed and removed the victim
+    //          before we get the lock.
+    if (victim_table->isRemoved()) return Status::TABLE_NOT_FOUND;
+
     _log_info( myLog, "split table %zu_%zu, level %zu, min key %s begins",
                opt.prefixNum, victim_table->number, level,
                victim_table->minKey.toReadableString().c_str() );
@@ -441,6 +445,23 @@ Status TableMgr::mergeLevel(const CompactOptions& options,
     TableLockHolder tl_gt_holder(this, {num_gt});
     if (!tl_gt_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
 
+    // WARNING:
+    //   Before we get the locks, the other thread may have removed them,
+    //   or may have put another table in between.
+    {   std::lock_guard<std::mutex> l(mani->getLock());
+        std::list<TableInfo*> cur_tables;
+        mani->getTablesRange(level, empty_key, empty_key, cur_tables);
+
+        TableInfo* prev_table = nullptr;
+        bool neighbors = false;
+        for (TableInfo* tt: cur_tables) {
+            if (tt == local_victim) neighbors = (prev_table == target_table);
+            prev_table = tt;
+        }
+        for (TableInfo* tt: cur_tables) tt->done();
+        if (!neighbors) throw Status(Status::TABLE_NOT_FOUND);
+    }
+
     // Read all records from the victim table.
     itr = new TableFile::Iterator();
     TC( itr->init(nullptr, local_victim->file, empty_key, empty_key) );
@@ -591,6 +612,11 @@ Status TableMgr::fixTable(const CompactOptions& options,
     TableLockHolder tl_gt_holder( this, {num_gt} );
     if (!tl_gt_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
 
+    // WARNING: The other thread may have removed them before we get the locks.
+    if (target_table->isRemoved() || local_victim->isRemoved()) {
+        throw Status(Status::TABLE_NOT_FOUND);
+    }
+
     // Read records in target table, starting from min-key of victim table.
     itr = new TableFile::Iterator();
     TC( itr->init(nullptr, target_table->file, local_victim->minKey, empty_key) );
-- 
2.43.0


From 8ce075f84f5ae8233a324ee1d2374a51b666d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:54:20 +0000
Subject: [PATCH 65/74] fix: readers should not miss tables migrated to a new
 level

---
 src/table_iterator.cc |  6 +++++-
 src/table_mgr.cc      | 24 ++++++++++++++++--------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index 6b4e9d5..a99e7d1 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -141,7 +141,11 @@ Status TableMgr::Iterator::initInternal(DB* snap_handle,
 
     } else {
         // Normal
-        for (size_t ii=0; ii<n_levels; ++ii) {
+        // WARNING:
+        //   The number of levels should be checked every time, as tables can
+        //   be migrated to a new level in the meantime.
+        for (size_t ii=0; ii<tMgr->mani->getNumLevels(); ++ii) {
+            if (tables.size() <= ii) tables.resize(ii + 1);
             std::list<TableInfo*> t_info_ret;
             SizedBuf empty_key;
             if (ii == 0) {
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index b5bb593..530936f 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -513,9 +513,11 @@ Status TableMgr::openSnapshot(DB* snap_handle,
     }
 
     SizedBuf empty_key;
-    size_t num_levels = mani->getNumLevels();
 
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // WARNING:
+    //   The number of levels should be checked every time, as tables can be
+    //   migrated to a new level in the meantime.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         s = mani->getTablesRange(ii, empty_key, empty_key, *t_list);
         if (!s) continue;
     }
@@ -582,9 +584,11 @@ Status TableMgr::get(DB* snap_handle,
 
     Status s;
     Record latest_rec;
-    size_t num_levels = mani->getNumLevels();
 
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // WARNING:
+    //   The number of levels should be checked every time, as tables can be
+    //   migrated to a new level in the meantime.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         std::list<TableInfo*> tables;
         if (snap_handle) {
             getTablesOfSnapshot(snap_handle, ii, tables);
@@ -724,12 +728,14 @@ Status TableMgr::getNearest(DB* snap_handle,
     };
 
     Status s;
-    size_t num_levels = mani->getNumLevels();
 
     // NOTE:
     //   Unlike point query, nearest search should check the all level,
     //   as closer key may exist in lower levels.
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // WARNING:
+    //   The number of levels should be checked every time, as tables can be
+    //   migrated to a new level in the meantime.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         std::list<TableInfo*> tables;
         if (snap_handle) {
             getTablesOfSnapshot(snap_handle, ii, tables);
@@ -801,9 +807,11 @@ Status TableMgr::getPrefix(DB* snap_handle,
     if (db_config->logSectionOnly) return Status::KEY_NOT_FOUND;
 
     Status s;
-    size_t num_levels = mani->getNumLevels();
 
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // WARNING:
+    //   The number of levels should be checked every time, as tables can be
+    //   migrated to a new level in the meantime.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         std::list<TableInfo*> tables;
         if (snap_handle) {
             getTablesOfSnapshot(snap_handle, ii, tables);
-- 
2.43.0


From e20e362d4c2f8bec39d8b16e1825a03a082fdcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:56:08 +0000
Subject: [PATCH 66/74] fix: list of levels should not be re-allocated while it
 is being read

---
 src/table_compaction.cc | 2 +-
 src/table_manifest.cc   | 4 ++--
 src/table_manifest.h    | 4 +++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index d7c5630..2fb8ed7 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -631,7 +631,7 @@ Status TableMgr::migrateLevel(const CompactOptions& options,
         if (ti->isRemoved()) throw Status(Status::OPERATION_IN_PROGRESS);
     }
 
-    mani->extendLevel();
+    TC( mani->extendLevel() );
 
     {   // Grab lock, add first, and then remove next.
         std::lock_guard<std::mutex> l(mani->getLock());
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index 16f51ee..d9742e9 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -426,8 +426,8 @@ Status TableManifest::extendLevel() {
     size_t new_level = 0;
     {   std::lock_guard<std::mutex> l(levelsLock);
         new_level = levels.size();
-        levels.resize(new_level + 1);
-        levels[new_level] = new LevelInfo();
+        if (new_level >= NUM_RESERVED_LEVELS) return Status::INVALID_LEVEL;
+        levels.push_back(new LevelInfo());
     }
     uint64_t level_limit = tableMgr->getLevelSizeLimit(new_level);
     uint64_t table_limit = tableMgr->getDbConfig()->getMaxTableSize(new_level);
diff --git a/src/table_manifest.h b/src/table_manifest.h
index 0c6d68a..a8b0054 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -256,7 +256,9 @@ private:
 
     // Always open Table files belonging to level up to 1.
     static const size_t MAX_OPENED_FILE_LEVEL = 1;
-    static const size_t NUM_RESERVED_LEVELS = 16;
+    // NOTE: `levels` is accessed without lock, so that should not be
+    //       re-allocated. This is the upper limit of the number of levels.
+    static const size_t NUM_RESERVED_LEVELS = 256;
 
     Status getTablesByHash(LevelInfo* l_info,
                            uint32_t target_hash_num,
-- 
2.43.0


From 358a30b17bb2f3975710f92528108d8de9179869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:06:37 +0000
Subject: [PATCH 67/74] fix: new table should not be used after being added to
 manifest

---
 src/table_compaction.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 2fb8ed7..5f2707f 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -740,13 +740,16 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
         delete newly_compacted_file;
         throw s;
     }
-    mani->addTableFile(level, 0, local_victim->minKey, newly_compacted_file);
 
     // Add special checkpoint 0, for base snapshot.
+    // WARNING: Should be done before adding it to manifest, as the other
+    //          thread may remove the new table right after that.
     uint64_t new_file_last_seqnum = 0;
     newly_compacted_file->getLatestSnapMarker(new_file_last_seqnum);
     newly_compacted_file->addCheckpoint(0, new_file_last_seqnum);
 
+    mani->addTableFile(level, 0, local_victim->minKey, newly_compacted_file);
+
     // Close the destination handle.
     local_victim->file->releaseDstHandle(dst_handle);
 
-- 
2.43.0


From ab69c1e1750cb0526214d078857133112eb63e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:27:36 +0000
Subject: [PATCH 68/74] fix: records of the first batch in a log file should
 not be visible until it is done

---
 src/log_mgr.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index b9c7f95..e338d35 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -870,7 +870,7 @@ Status LogMgr::getSN(const uint64_t seq_num, Record& rec_out) {
     uint64_t max_seq = getVisibleMaxSeq( [&]() {
         return gg->file->getMaxSeqNum();
     } );
-    if (seq_num > max_seq) {
+    if (!valid_number(max_seq) || seq_num > max_seq) {
         return Status::KEY_NOT_FOUND;
     }
 
@@ -949,6 +949,9 @@ Status LogMgr::get(const uint64_t chk,
                 chk_local = getVisibleMaxSeq( [&]() {
                     return l_info->file->getMaxSeqNum();
                 } );
+                // If there is no record yet, records appended from now on
+                // should not be visible as they can be a part of a batch.
+                if (!valid_number(chk_local)) continue;
 
                 s = l_info->file->get(chk_local, key, rec_out_local, false, true);
                 if (s) {
@@ -1067,6 +1070,9 @@ Status LogMgr::getNearest(const uint64_t chk,
                 chk_local = getVisibleMaxSeq( [&]() {
                     return l_info->file->getMaxSeqNum();
                 } );
+                // If there is no record yet, records appended from now on
+                // should not be visible as they can be a part of a batch.
+                if (!valid_number(chk_local)) continue;
 
                 s = l_info->file->getNearest(chk_local, key, rec_out_local,
                                              false, true, s_opt);
@@ -1158,6 +1164,9 @@ Status LogMgr::getPrefix(const uint64_t chk,
                 chk_local = getVisibleMaxSeq( [&]() {
                     return l_info->file->getMaxSeqNum();
                 } );
+                // If there is no record yet, records appended from now on
+                // should not be visible as they can be a part of a batch.
+                if (!valid_number(chk_local)) continue;
 
                 s = l_info->file->getPrefix(chk_local, prefix, cb_func, false, true);
                 if (s == Status::OPERATION_STOPPED) {
-- 
2.43.0


From 85fc4abb7f74bd9395fd2476bda49c209e4c67ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:28:49 +0000
Subject: [PATCH 69/74] fix: nearest record should not be accessed after its
 log file is released

---
 src/log_mgr.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index e338d35..30a89bf 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -980,7 +980,10 @@ Status LogMgr::getNearest(const uint64_t chk,
 
     if (parentDb) parentDb->p->updateOpHistory();
 
+    // NOTE: Should be a clone, as the original record can be freed
+    //       once we are done with the log file it belongs to.
     Record cur_nearest;
+    Record::Holder h_cur_nearest(cur_nearest);
     CustomCmpFunc custom_cmp = getDbConfig()->cmpFunc;
     auto cmp_func = [&](const SizedBuf& a, const SizedBuf& b) -> int {
         if (custom_cmp) {
@@ -1003,7 +1006,8 @@ Status LogMgr::getNearest(const uint64_t chk,
             }
         }
         if (update_cur_nearest) {
-            cur_nearest = rec_out;
+            cur_nearest.free();
+            rec_out.copyTo(cur_nearest);
         }
     };
 
@@ -1105,7 +1109,7 @@ Status LogMgr::getNearest(const uint64_t chk,
         if (cmp_func(key, cur_nearest.kv.key) < 0) return Status::KEY_NOT_FOUND;
     }
 
-    cur_nearest.copyTo(rec_out);
+    cur_nearest.moveTo(rec_out);
     return Status();
 }
 
-- 
2.43.0


From a1b124ee1290d2240ea0d6823b9b6fd8054c08e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 70/74] fix: sync limited by a batch should not set synced
 sequence number back

---
 src/memtable.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/memtable.cc b/src/memtable.cc
index dd41763..f3b6d92 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1298,6 +1298,13 @@ Status MemTable::flush(RwSerializer& rws, uint64_t upto, uint64_t& flushed_seq_o
                   ? syncedSeqNum.load() + 1
                   : minSeqNum.load();
 
+    if (seqnum_upto < maxSeqNum && seqnum_upto < ii) {
+        // All records within the limit have already been written (or there is
+        // no such record). Nothing to write, and the number should not be
+        // set back.
+        return Status();
+    }
+
     Status s;
     uint64_t num_flushed = 0;
     uint64_t start_seqnum = NOT_INITIALIZED;
-- 
2.43.0


From b598aaa0df49bf33e6e579c5329d09679e9b512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 71/74] fix: checkpoint of a snapshot should be compared with
 checkpoints of the table

---
 src/table_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 57b9c18..9c59f70 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -555,7 +555,7 @@ Status TableFile::openSnapshot(DB* snap_handle,
             // Exact match doesn't exist.
             auto e_max = chkMap.rbegin();
             if ( e_max == chkMap.rend() ||
-                 checkpoint > e_max->second ) {
+                 checkpoint > e_max->first ) {
                 // Beyond the table's checkpoint.
                 // Take the latest marker.
                 clone_from_latest = true;
-- 
2.43.0


From f6fbce02c49ae3f9caa8ae30a796c792d530b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 72/74] fix: flush limited by sequence number should tolerate
 that the last synced log was removed

---
 src/log_mgr.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 30a89bf..c76d319 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1547,6 +1547,9 @@ Status LogMgr::flush(const FlushOptions& options,
             //   so that they should not be removed either.
             uint64_t last_synced_log = 0;
             EP( mani->getLastSyncedLog(last_synced_log) );
+            // NOTE: The last synced log may have been removed already, by
+            //       purging logs that were not synced.
+            last_synced_log = std::max(last_synced_log, ln_from);
             if (ln_to > last_synced_log) ln_to = last_synced_log;
 
             LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
-- 
2.43.0


From e1b0147f42b11d0490af1817d1e412c7543535b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:40 +0000
Subject: [PATCH 73/74] fix: skiplist erase unlinks all layers of the node even
 if top_layer is stale

---
 src/skiplist.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index cf310c1..ee1f1ef 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -748,7 +748,10 @@ erase_node_retry:
     __SLD_(size_t nh = 0);
     __SLD_(thread_local skiplist_node* history[1024]; (void)history);
 
+    // `slist->top_layer` may not be up-to-date if another thread is updating
+    // it concurrently: all layers of the node should be unlinked anyway.
     int cur_layer = slist->top_layer;
+    if (top_layer > cur_layer) cur_layer = top_layer;
     for (; cur_layer >= 0; --cur_layer) {
         do {
             __SLD_( history[nh++] = cur_node );
-- 
2.43.0


From 9b983dd8b2c5eea8ddecc26be7bcd8c64e908972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:29 +0000
Subject: [PATCH 74/74] fix: checkpoint marker should not be written in the
 middle of a record

---
 src/memtable.cc | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index f3b6d92..916a01f 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1341,6 +1341,22 @@ Status MemTable::flush(RwSerializer& rws, uint64_t upto, uint64_t& flushed_seq_o
    try {
     uint8_t len_buf[32];
     memset(len_buf, 0xff, 32);
+
+    {   // In case that only a checkpoint is appended without any new record.
+        // NOTE: There can be new records if other threads appended them after
+        //       the checkpoint. This should be done before writing them, as
+        //       `tmp_buf` may begin in the middle of a record afterwards.
+        mGuard l(checkpointsLock);
+        auto entry = checkpoints.rbegin();
+        if ( checkpointsDirty &&
+             entry != checkpoints.rend() &&
+             valid_number(syncedSeqNum) &&
+             *entry == syncedSeqNum ) {
+            TC( appendCheckpointMarker(rws, syncedSeqNum) );
+        }
+        checkpointsDirty = false;
+    }
+
     while (cursor) {
         RecNodeSeq* rec_node = _get_entry(cursor, RecNodeSeq, snode);
         Record* rec = rec_node->rec;
@@ -1476,18 +1492,6 @@ Status MemTable::flush(RwSerializer& rws, uint64_t upto, uint64_t& flushed_seq_o
     }
     if (cursor) skiplist_release_node(cursor);
 
-    {   // In case that only a checkpoint is appended without any new record.
-        mGuard l(checkpointsLock);
-        auto entry = checkpoints.rbegin();
-        if ( checkpointsDirty &&
-             entry != checkpoints.rend() &&
-             valid_number(syncedSeqNum) &&
-             *entry == syncedSeqNum ) {
-            TC( appendCheckpointMarker(rws, syncedSeqNum) );
-        }
-        checkpointsDirty = false;
-    }
-
     // Just in case if remaining data exists.
     if (ss_tmp_buf.pos()) {
         TC( rws.put(tmp_buf.data, ss_tmp_buf.pos()) );
-- 
2.43.0

