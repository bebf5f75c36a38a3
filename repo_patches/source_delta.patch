From d289ecab6ed470f077638df6bd5a278960f7b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 01/57] fix: align the output of a party with unique keys by
 its key columns

The peer orders its output by the key columns, so sorting by all columns in
file order misaligns the two outputs whenever the key columns are not the
leading ones.
---
 psi/utils/join_processor.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/psi/utils/join_processor.cc b/psi/utils/join_processor.cc
index 571e2d4..8e56b34 100644
--- a/psi/utils/join_processor.cc
+++ b/psi/utils/join_processor.cc
@@ -273,8 +273,7 @@ KeyInfo::StatInfo JoinProcessor::DealResultIndex(IndexReader& index) {
   dumper.Flush();
   if (is_input_key_unique_ && align_output_) {
     if (stat.join_intersection_count != 0 && !sorted_intersect_path_.empty()) {
-      Table::MakeFromCsv(sorted_intersect_path_)
-          ->SortInplace(GetInputTable()->Columns());
+      Table::MakeFromCsv(sorted_intersect_path_)->SortInplace(keys_);
     }
   }
   return stat;
-- 
2.43.0


From a1b61b27a95b0cc929159a710529f1fa1988fca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 02/57] fix: hash the keys of a party unambiguously

The digest used to decide whether both parties hold the same keys, and
whether a recovered task still has the input it started with, was the hash
of the plain concatenation of the keys, so {"ab", "c"} and {"a", "bc"} were
taken for the same key set and the whole of both inputs was output as the
intersection.
---
 psi/utils/table_utils.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index a6ecd2c..cf9ebbb 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -49,6 +49,17 @@
 
 namespace psi {
 
+namespace {
+
+// The length goes first, so that different key lists never feed the same bytes
+// into the hash.
+void UpdateKeyHash(yacl::crypto::Sha256Hash& hash, const std::string& key) {
+  hash.Update(std::to_string(key.size()) + ":");
+  hash.Update(key);
+}
+
+}  // namespace
+
 UniqueKeyTable::UniqueKeyTable(std::string path, std::string format,
                                std::vector<std::string> keys)
     : TableWithKeys(std::move(path), std::move(format)),
@@ -307,7 +318,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
                           std::vector<uint32_t> start_index,
                           std::vector<uint32_t> dup_cnts) {
     for (size_t i = 0; i < keys.size(); ++i) {
-      hash.Update(keys[i]);
+      UpdateKeyHash(hash, keys[i]);
       out << '"' << keys[i] << '"' << ',' << start_index[i] << ','
           << dup_cnts[i] << '\n';
       if (dup_cnts[i] != 0) {
@@ -402,7 +413,7 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
   while (!batch.empty()) {
     lines += batch.size();
     for (auto& item : batch) {
-      hash.Update(item);
+      UpdateKeyHash(hash, item);
     }
     batch = provider->ReadNextBatch();
   }
-- 
2.43.0


From a0916cccc51418325c49827b9a345e9bb8603d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 03/57] fix: do not reuse key metadata of an input file whose
 content changed

The metadata cached beside an input with unique keys was reused whenever the
file size was unchanged, so a rewritten file (or other key columns of the same
file) got the key digest and the counts of the old one.
---
 psi/utils/table_utils.cc    | 19 +++++++++++++++----
 psi/utils/table_utils.proto |  4 ++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index cf9ebbb..9418685 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -17,6 +17,7 @@
 #include <spdlog/spdlog.h>
 #include <sys/types.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <cstdio>
@@ -387,6 +388,11 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
 std::shared_ptr<KeyInfo> KeyInfo::Make(
     std::shared_ptr<UniqueKeyTable> unique_key_table) {
   auto meta_path = unique_key_table->Path() + ".meta";
+  const auto keys = unique_key_table->Keys();
+  const int64_t source_mtime =
+      std::filesystem::last_write_time(unique_key_table->Path())
+          .time_since_epoch()
+          .count();
   if (std::filesystem::exists(meta_path) &&
       std::filesystem::file_size(meta_path)) {
     SPDLOG_INFO("meta file {} exists already.", meta_path);
@@ -394,14 +400,17 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
     LoadJsonFileToPbMessage(meta_path, meta);
 
     if (meta.source_file_size() ==
-        std::filesystem::file_size(unique_key_table->Path())) {
+            std::filesystem::file_size(unique_key_table->Path()) &&
+        meta.source_file_mtime() == source_mtime &&
+        std::equal(keys.begin(), keys.end(), meta.keys().begin(),
+                   meta.keys().end())) {
       return std::shared_ptr<KeyInfo>(
           new KeyInfo(unique_key_table->Path(), "csv", unique_key_table, meta));
     } else {
       SPDLOG_WARN(
-          "unique_key_table file size {} not match meta file size {}, rebuild.",
-          std::filesystem::file_size(unique_key_table->Path()),
-          meta.source_file_size());
+          "unique_key_table {} has changed since meta file {} was written, "
+          "rebuild.",
+          unique_key_table->Path(), meta_path);
     }
   }
 
@@ -426,6 +435,8 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
   meta.set_original_cnt(lines);
   meta.set_source_file_size(
       std::filesystem::file_size(unique_key_table->Path()));
+  meta.set_source_file_mtime(source_mtime);
+  meta.mutable_keys()->Add(keys.begin(), keys.end());
   DumpPbMessageToJsonFile(meta, meta_path);
 
   return std::shared_ptr<KeyInfo>(
diff --git a/psi/utils/table_utils.proto b/psi/utils/table_utils.proto
index 3de5c08..e21f47d 100644
--- a/psi/utils/table_utils.proto
+++ b/psi/utils/table_utils.proto
@@ -24,4 +24,8 @@ message KeyInfoMeta {
   uint32 unique_key_cnt = 3;
   uint32 original_cnt = 4;
   uint64 source_file_size = 5;
+  // Last modification time of the source file.
+  int64 source_file_mtime = 6;
+  // Key columns the meta was computed for.
+  repeated string keys = 7;
 }
-- 
2.43.0


From f1920d842757053d7f4cf09d76bcda8b30c06be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 04/57] fix: replace the recovery checkpoint file atomically

---
 psi/checkpoint/recovery.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 840e5bf..77d435d 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -90,10 +90,15 @@ void RecoveryManager::SaveCheckpointFile() {
                    checkpoint_, &checkpoint_json, json_print_options)
                    .ok());
 
-  std::ofstream file;
-  file.open(checkpoint_file_path_);
+  // Replace the file in one step: a task stopped half way through must find
+  // either the previous or the new checkpoint when it is started again.
+  std::filesystem::path tmp_path = checkpoint_file_path_;
+  tmp_path += ".tmp";
+  std::ofstream file(tmp_path, std::ios::trunc);
   file << checkpoint_json;
   file.close();
+  YACL_ENFORCE(!file.fail(), "write {} failed.", tmp_path.string());
+  std::filesystem::rename(tmp_path, checkpoint_file_path_);
 }
 
 void RecoveryManager::MarkInitEnd(
-- 
2.43.0


From 81e1e84dd53e09f9491db99da919503281077d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 05/57] fix: shift the duplicate counts of a batch resumed half
 way

---
 psi/algorithm/ecdh/ecdh_psi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/algorithm/ecdh/ecdh_psi.cc b/psi/algorithm/ecdh/ecdh_psi.cc
index e96b38e..78b7633 100644
--- a/psi/algorithm/ecdh/ecdh_psi.cc
+++ b/psi/algorithm/ecdh/ecdh_psi.cc
@@ -81,12 +81,12 @@ void EcdhPsiContext::MaskSelf(
       batch_items = std::vector<std::string>(
           read_batch_items.begin() + processed_item_cnt,
           read_batch_items.end());
-      processed_item_cnt = 0;
       for (auto [index, cnt] : item_cnt) {
         if (index >= processed_item_cnt) {
           duplicate_item_cnt[index - processed_item_cnt] = cnt;
         }
       }
+      processed_item_cnt = 0;
     }
   }
 
-- 
2.43.0


From bda28f09c851b32b6b21f1fcbf2db9ac35cdcde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 06/57] fix: continue the ECDH point stores of a resumed task
 where its checkpoint stands

---
 psi/algorithm/ecdh/receiver.cc |  5 +++++
 psi/algorithm/ecdh/sender.cc   |  5 +++++
 psi/utils/ec_point_store.h     |  2 ++
 psi/utils/hash_bucket_cache.cc | 26 ++++++++++++++++++++++++++
 psi/utils/hash_bucket_cache.h  |  4 ++++
 5 files changed, 42 insertions(+)

diff --git a/psi/algorithm/ecdh/receiver.cc b/psi/algorithm/ecdh/receiver.cc
index 78a0af1..6f88b1f 100644
--- a/psi/algorithm/ecdh/receiver.cc
+++ b/psi/algorithm/ecdh/receiver.cc
@@ -79,6 +79,11 @@ void EcdhPsiReceiver::PreProcess() {
     peer_ec_point_store_ = std::make_shared<HashBucketEcPointStore>(
         recovery_manager_->ecdh_dual_masked_peer_cache_path(), kDefaultBinNum,
         false);
+    // Items stored after the last checkpoint will come again.
+    self_ec_point_store_->Truncate(
+        recovery_manager_->checkpoint().ecdh_dual_masked_item_self_count());
+    peer_ec_point_store_->Truncate(
+        recovery_manager_->checkpoint().ecdh_dual_masked_item_peer_count());
     recovery_manager_->MarkPreProcessEnd(psi_options_.ecc_cryptor);
     psi_options_.recovery_manager = recovery_manager_;
   } else {
diff --git a/psi/algorithm/ecdh/sender.cc b/psi/algorithm/ecdh/sender.cc
index 9013f73..b96d010 100644
--- a/psi/algorithm/ecdh/sender.cc
+++ b/psi/algorithm/ecdh/sender.cc
@@ -80,6 +80,11 @@ void EcdhPsiSender::PreProcess() {
     peer_ec_point_store_ = std::make_shared<HashBucketEcPointStore>(
         recovery_manager_->ecdh_dual_masked_peer_cache_path(), kDefaultBinNum,
         false);
+    // Items stored after the last checkpoint will come again.
+    self_ec_point_store_->Truncate(
+        recovery_manager_->checkpoint().ecdh_dual_masked_item_self_count());
+    peer_ec_point_store_->Truncate(
+        recovery_manager_->checkpoint().ecdh_dual_masked_item_peer_count());
     recovery_manager_->MarkPreProcessEnd(psi_options_.ecc_cryptor);
     psi_options_.recovery_manager = recovery_manager_;
   } else {
diff --git a/psi/utils/ec_point_store.h b/psi/utils/ec_point_store.h
index 4568028..6219490 100644
--- a/psi/utils/ec_point_store.h
+++ b/psi/utils/ec_point_store.h
@@ -97,6 +97,8 @@ class HashBucketEcPointStore : public IEcPointStore {
 
   void Flush() override { cache_->Flush(); }
 
+  void Truncate(uint64_t item_count) { cache_->Truncate(item_count); }
+
   uint64_t ItemCount() override;
 
   std::vector<HashBucketCache::BucketItem> LoadBucketItems(size_t bin_idx) {
diff --git a/psi/utils/hash_bucket_cache.cc b/psi/utils/hash_bucket_cache.cc
index 23679f2..1918d5b 100644
--- a/psi/utils/hash_bucket_cache.cc
+++ b/psi/utils/hash_bucket_cache.cc
@@ -67,6 +67,32 @@ void HashBucketCache::Flush() {
   }
 }
 
+void HashBucketCache::Truncate(uint64_t item_count) {
+  bucket_os_vec_.clear();
+  for (uint32_t i = 0; i < bucket_num_; ++i) {
+    const std::string path = disk_cache_->GetPath(i);
+    const std::string tmp_path = path + ".tmp";
+    {
+      auto in = disk_cache_->CreateInputStream(i);
+      auto out = io::BuildOutputStream(io::FileIoOptions(tmp_path));
+      std::string line;
+      while (in->GetLine(&line)) {
+        std::vector<absl::string_view> tokens = absl::StrSplit(line, ',');
+        uint64_t index = 0;
+        if (tokens.size() == 3 && absl::SimpleAtoi(tokens[0], &index) &&
+            index < item_count) {
+          out->Write(line);
+          out->Write("\n");
+        }
+      }
+      out->Close();
+    }
+    std::filesystem::rename(tmp_path, path);
+  }
+  disk_cache_->CreateOutputStreams(bucket_num_, &bucket_os_vec_);
+  item_index_ = item_count;
+}
+
 std::vector<HashBucketCache::BucketItem> HashBucketCache::LoadBucketItems(
     uint32_t index) {
   std::vector<BucketItem> ret;
diff --git a/psi/utils/hash_bucket_cache.h b/psi/utils/hash_bucket_cache.h
index 7b58cfa..9d4aa00 100644
--- a/psi/utils/hash_bucket_cache.h
+++ b/psi/utils/hash_bucket_cache.h
@@ -85,6 +85,10 @@ class HashBucketCache {
 
   void Flush();
 
+  // Keep the first `item_count` items of a cache reopened from an earlier run,
+  // drop the rest (which may end in an incomplete line) and go on from there.
+  void Truncate(uint64_t item_count);
+
   std::vector<BucketItem> LoadBucketItems(uint32_t index);
 
   uint32_t BucketNum() const { return bucket_num_; }
-- 
2.43.0


From 18800db0b1b638ee672dd55314c1c60015af6d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 07/57] fix: ignore intersection indices recorded twice by a
 resumed task

---
 psi/interface.cc         | 3 ++-
 psi/utils/index_store.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/psi/interface.cc b/psi/interface.cc
index 54f72b4..65cc8e7 100644
--- a/psi/interface.cc
+++ b/psi/interface.cc
@@ -155,9 +155,10 @@ PsiResultReport AbstractPsiParty::Finalize() {
   SPDLOG_INFO("[AbstractPsiParty::Finalize][Generate result] start");
 
   SyncWait(lctx_, [&] {
+    // A resumed task may have recorded some indices more than once.
     MultiKeySort(intersection_indices_writer_->path(),
                  sorted_intersection_indices_path,
-                 std::vector<std::string>{kIdx}, true, false);
+                 std::vector<std::string>{kIdx}, true, true);
 
     if (role_ == v2::ROLE_RECEIVER ||
         config_.protocol_config().broadcast_result()) {
diff --git a/psi/utils/index_store.cc b/psi/utils/index_store.cc
index f05bc00..1d4ecf0 100644
--- a/psi/utils/index_store.cc
+++ b/psi/utils/index_store.cc
@@ -34,7 +34,8 @@ IndexWriter::IndexWriter(const std::filesystem::path& path, size_t cache_size,
                          bool trunc)
     : path_(path), cache_size_(cache_size) {
   std::vector<std::string> fields = {kIdx, kPeerCnt};
-  if (trunc || !std::filesystem::exists(path_)) {
+  if (trunc || !std::filesystem::exists(path_) ||
+      std::filesystem::file_size(path_) == 0) {
     // NOTE(junfeng): This is a hack to write the header without quotation masks
     // to make YACL csv utils happy.
     // Should be fixed as soon as possible.
-- 
2.43.0


From c0798650562967da87b3827953f29d03675719c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 08/57] fix: do not spin forever when the corrections of a KKRT
 run stop coming

---
 psi/algorithm/kkrt/kkrt_psi.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index 372ba93..76f69d0 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -14,6 +14,7 @@
 
 #include "psi/algorithm/kkrt/kkrt_psi.h"
 
+#include <chrono>
 #include <future>
 #include <numeric>
 #include <unordered_map>
@@ -250,6 +251,15 @@ void KkrtPsiSend(const std::shared_ptr<yacl::link::Context>& link_ctx,
     // after stepSize attempts to encode items, lets see if more
     // corrections have arrived.
     r = recv_idx.load(std::memory_order_acquire);
+    if (r != num_bins &&
+        f_recv_corrections.wait_for(std::chrono::seconds(0)) ==
+            std::future_status::ready) {
+      // The receiving thread is over: nothing more will come.
+      r = recv_idx.load(std::memory_order_acquire);
+      if (r != num_bins) {
+        break;
+      }
+    }
   }
 
   // Join receiving thread and throw exceptions if any thing is wrong.
-- 
2.43.0


From 321a29a38e27c7bbbd1ebf7186af18d788ba0ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 09/57] fix: update and save the recovery checkpoint under one
 lock

---
 psi/checkpoint/recovery.cc | 5 +++--
 psi/checkpoint/recovery.h  | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/psi/checkpoint/recovery.cc b/psi/checkpoint/recovery.cc
index 77d435d..f3b5999 100644
--- a/psi/checkpoint/recovery.cc
+++ b/psi/checkpoint/recovery.cc
@@ -81,8 +81,6 @@ RecoveryManager::RecoveryManager(const std::string& folder_path)
 }
 
 void RecoveryManager::SaveCheckpointFile() {
-  std::unique_lock<std::mutex> lock(mutex_);
-
   std::string checkpoint_json;
   google::protobuf::util::JsonPrintOptions json_print_options;
   json_print_options.preserve_proto_field_names = true;
@@ -216,6 +214,7 @@ bool RecoveryManager::MarkOnlineStart(
 }
 
 void RecoveryManager::UpdateEcdhDualMaskedItemSelfCount(uint64_t cnt) {
+  std::unique_lock<std::mutex> lock(mutex_);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_ecdh_dual_masked_item_self_count(cnt);
 
@@ -226,6 +225,7 @@ void RecoveryManager::UpdateEcdhDualMaskedItemSelfCount(uint64_t cnt) {
 void RecoveryManager::UpdateEcdhDualMaskedItemPeerCount(uint64_t cnt) {
   SPDLOG_INFO("RecoveryManager::UpdateEcdhDualMaskedItemPeerCount, cnt = {}",
               cnt);
+  std::unique_lock<std::mutex> lock(mutex_);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_ecdh_dual_masked_item_peer_count(cnt);
 
@@ -235,6 +235,7 @@ void RecoveryManager::UpdateEcdhDualMaskedItemPeerCount(uint64_t cnt) {
 
 void RecoveryManager::UpdateParsedBucketCount(uint64_t cnt) {
   SPDLOG_INFO("RecoveryManager::UpdateParsedBucketCount, cnt = {}", cnt);
+  std::unique_lock<std::mutex> lock(mutex_);
   checkpoint_.set_stage(v2::RecoveryCheckpoint::STAGE_ONLINE_START);
   checkpoint_.set_parsed_bucket_count(cnt);
 
diff --git a/psi/checkpoint/recovery.h b/psi/checkpoint/recovery.h
index d61f220..196b5fc 100644
--- a/psi/checkpoint/recovery.h
+++ b/psi/checkpoint/recovery.h
@@ -99,6 +99,7 @@ class RecoveryManager {
  private:
   void SaveCheckpointFile();
 
+  // Guards checkpoint_ while several threads report their progress.
   std::mutex mutex_;
 
   std::filesystem::path folder_path_;
-- 
2.43.0


From c422d4bcabd70a19e3675d912ae081deaa532e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 10/57] fix: end all stages of an RR22 run when one of them
 fails

---
 psi/algorithm/rr22/rr22_psi.h | 54 ++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/psi/algorithm/rr22/rr22_psi.h b/psi/algorithm/rr22/rr22_psi.h
index d940ad7..b33982d 100644
--- a/psi/algorithm/rr22/rr22_psi.h
+++ b/psi/algorithm/rr22/rr22_psi.h
@@ -18,6 +18,7 @@
 #include <atomic>
 #include <condition_variable>
 #include <cstddef>
+#include <functional>
 #include <future>
 #include <memory>
 #include <mutex>
@@ -200,23 +201,46 @@ class Rr22Runner {
     std::condition_variable prepare_cv;
     std::mutex oprf_mtx;
     std::condition_variable oprf_cv;
-    auto prepare_f = std::async(std::launch::async, [&]() {
+    // when one stage fails the others must not wait for it
+    std::atomic<bool> failed = false;
+    auto run_stage = [&](const std::function<void()>& stage) {
+      try {
+        stage();
+      } catch (...) {
+        {
+          std::scoped_lock lock(prepare_mtx, oprf_mtx);
+          failed = true;
+        }
+        prepare_cv.notify_all();
+        oprf_cv.notify_all();
+        throw;
+      }
+    };
+    auto prepare_stage = [&]() {
       for (size_t i = start_idx; i < bucket_num_; i++) {
         auto runner = CreateBucketRunner(i, is_sender);
         runner->Prepare(read_lctx_);
         std::unique_lock lock(prepare_mtx);
-        prepare_cv.wait(
-            lock, [&] { return prepared_runner_queue.size() < cache_size; });
+        prepare_cv.wait(lock, [&] {
+          return failed || prepared_runner_queue.size() < cache_size;
+        });
+        if (failed) {
+          return;
+        }
         prepared_runner_queue.push(runner);
         prepare_cv.notify_all();
       }
-    });
-    auto run_f = std::async(std::launch::async, [&]() {
+    };
+    auto oprf_stage = [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(prepare_mtx);
-          prepare_cv.wait(lock, [&] { return !prepared_runner_queue.empty(); });
+          prepare_cv.wait(
+              lock, [&] { return failed || !prepared_runner_queue.empty(); });
+          if (failed) {
+            return;
+          }
           runner = prepared_runner_queue.front();
           prepared_runner_queue.pop();
           prepare_cv.notify_all();
@@ -228,20 +252,30 @@ class Rr22Runner {
           oprf_cv.notify_all();
         }
       }
-    });
-    auto intersection_f = std::async(std::launch::async, [&]() {
+    };
+    auto intersection_stage = [&]() {
       for (int i = start_idx; i < static_cast<int>(bucket_num_); ++i) {
         std::shared_ptr<BucketRr22Core> runner;
         {
           std::unique_lock lock(oprf_mtx);
-          oprf_cv.wait(lock, [&] { return !oprf_runner_queue.empty(); });
+          oprf_cv.wait(lock,
+                       [&] { return failed || !oprf_runner_queue.empty(); });
+          if (failed) {
+            return;
+          }
           runner = oprf_runner_queue.front();
           oprf_runner_queue.pop();
           oprf_cv.notify_all();
         }
         runner->GetIntersection(intersection_lctx_);
       }
-    });
+    };
+    auto prepare_f = std::async(std::launch::async,
+                                [&] { run_stage(prepare_stage); });
+    auto run_f =
+        std::async(std::launch::async, [&] { run_stage(oprf_stage); });
+    auto intersection_f = std::async(std::launch::async,
+                                     [&] { run_stage(intersection_stage); });
     run_f.get();
     prepare_f.get();
     intersection_f.get();
-- 
2.43.0


From baacf8fb3949b3095512dd85a4d350162c8b6954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 11/57] fix: count duplicate rows in the input digest a resumed
 task is checked against

---
 psi/utils/table_utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psi/utils/table_utils.cc b/psi/utils/table_utils.cc
index 9418685..9c5e454 100644
--- a/psi/utils/table_utils.cc
+++ b/psi/utils/table_utils.cc
@@ -320,6 +320,10 @@ std::shared_ptr<KeyInfo> KeyInfo::Make(
                           std::vector<uint32_t> dup_cnts) {
     for (size_t i = 0; i < keys.size(); ++i) {
       UpdateKeyHash(hash, keys[i]);
+      if (dup_cnts[i] != 0) {
+        // The number of rows with this key is part of the input, too.
+        hash.Update("+" + std::to_string(dup_cnts[i]) + ";");
+      }
       out << '"' << keys[i] << '"' << ',' << start_index[i] << ','
           << dup_cnts[i] << '\n';
       if (dup_cnts[i] != 0) {
-- 
2.43.0


From 8dcdcfa9da75847360b084b2d441742e1e0e3556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 12/57] fix: a UB PSI party without result reports intersection
 count -1 online

---
 psi/algorithm/ecdh/ub_psi/client.cc | 2 ++
 psi/algorithm/ecdh/ub_psi/server.cc | 1 +
 2 files changed, 3 insertions(+)

diff --git a/psi/algorithm/ecdh/ub_psi/client.cc b/psi/algorithm/ecdh/ub_psi/client.cc
index 69a9da8..c1a1f28 100644
--- a/psi/algorithm/ecdh/ub_psi/client.cc
+++ b/psi/algorithm/ecdh/ub_psi/client.cc
@@ -136,6 +136,8 @@ void EcdhUbPsiClient::Online() {
 
       join_processor_->GenerateResult(peer_ec_point_store->PeerCount() -
                                       stat.peer_intersection_count);
+    } else {
+      report_.set_intersection_count(-1);
     }
   });
 }
diff --git a/psi/algorithm/ecdh/ub_psi/server.cc b/psi/algorithm/ecdh/ub_psi/server.cc
index 50d0282..87ecc44 100644
--- a/psi/algorithm/ecdh/ub_psi/server.cc
+++ b/psi/algorithm/ecdh/ub_psi/server.cc
@@ -176,6 +176,7 @@ void EcdhUbPsiServer::Online() {
     }
 
     if (!config_.server_get_result()) {
+      report_.set_intersection_count(-1);
       return;
     }
 
-- 
2.43.0


From 05c86bf5224454a4d74b2a7b1c1e54e2a9f01143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 13/57] fix: reading a UB PSI client cache does not rewrite its
 meta file

---
 psi/utils/ec_point_store.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/psi/utils/ec_point_store.cc b/psi/utils/ec_point_store.cc
index 827c509..9b76b5c 100644
--- a/psi/utils/ec_point_store.cc
+++ b/psi/utils/ec_point_store.cc
@@ -422,7 +422,9 @@ UbPsiClientCacheFileStore::GetBatchProvider(size_t batch_size) const {
 
 void UbPsiClientCacheFileStore::Flush() {
   output_stream_.flush();
-  DumpMeta();
+  if (item_cnt_ != meta_.item_cnt) {
+    DumpMeta();
+  }
 }
 
 void UbPsiClientCacheFileStore::Save(const std::string& ciphertext,
-- 
2.43.0


From f29d60ad8ea96980722364e0bbb7267b660240b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 14/57] fix: an interrupted UB PSI cache transfer is not taken
 for the server's cache

---
 experiment/psi/threshold_ub_psi/client.cc |  4 ++++
 psi/algorithm/ecdh/ub_psi/client.cc       | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/experiment/psi/threshold_ub_psi/client.cc b/experiment/psi/threshold_ub_psi/client.cc
index 4474c87..b0052b4 100644
--- a/experiment/psi/threshold_ub_psi/client.cc
+++ b/experiment/psi/threshold_ub_psi/client.cc
@@ -14,6 +14,8 @@
 
 #include "experiment/psi/threshold_ub_psi/client.h"
 
+#include <filesystem>
+
 #include "experiment/psi/threshold_ub_psi/threshold_ecdh_oprf_psi.h"
 
 #include "psi/utils/sync.h"
@@ -42,6 +44,8 @@ void ThresholdEcdhUbPsiClient::Online() {
 
     auto self_ec_point_store = std::make_shared<UbPsiClientCacheMemoryStore>();
 
+    YACL_ENFORCE(std::filesystem::exists(GetServerCachePath()),
+                 "server cache {} not exists", GetServerCachePath());
     auto peer_ec_point_store = std::make_shared<UbPsiClientCacheFileStore>(
         GetServerCachePath(), dh_oprf_psi_client_online->GetCompareLength());
 
diff --git a/psi/algorithm/ecdh/ub_psi/client.cc b/psi/algorithm/ecdh/ub_psi/client.cc
index c1a1f28..068b754 100644
--- a/psi/algorithm/ecdh/ub_psi/client.cc
+++ b/psi/algorithm/ecdh/ub_psi/client.cc
@@ -64,13 +64,23 @@ void EcdhUbPsiClient::OfflineTransferCache() {
     std::filesystem::remove_all(config_.cache_path());
   }
 
+  // The cache gets its name only when it is complete: what an interrupted
+  // transfer leaves behind must not be taken for the server's cache.
+  const auto partial_path = GetServerCachePath() + ".partial";
+  std::filesystem::remove(partial_path);
+  std::filesystem::remove(partial_path + ".meta");
+
   auto peer_ec_point_store = std::make_shared<UbPsiClientCacheFileStore>(
-      GetServerCachePath(), ub_psi_client_transfer_cache->GetCompareLength());
+      partial_path, ub_psi_client_transfer_cache->GetCompareLength());
 
   ub_psi_client_transfer_cache->RecvFinalEvaluatedItems(peer_ec_point_store);
 
   peer_ec_point_store->Flush();
 
+  std::filesystem::rename(partial_path + ".meta",
+                          GetServerCachePath() + ".meta");
+  std::filesystem::rename(partial_path, GetServerCachePath());
+
   yacl::link::Barrier(lctx_, "ubpsi_offline_transfer_cache");
 
   report_.set_original_count(peer_ec_point_store->ItemCount());
@@ -100,6 +110,8 @@ void EcdhUbPsiClient::Online() {
 
     auto self_ec_point_store = std::make_shared<UbPsiClientCacheMemoryStore>();
 
+    YACL_ENFORCE(std::filesystem::exists(GetServerCachePath()),
+                 "server cache {} not exists", GetServerCachePath());
     auto peer_ec_point_store = std::make_shared<UbPsiClientCacheFileStore>(
         GetServerCachePath(), dh_oprf_psi_client_online->GetCompareLength());
 
-- 
2.43.0


From d6e702a9a1e86222e2aa099b6017fa3bcab304f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 15/57] verification hook: batch size of key providers
 (PSI_VERIF_HOOKS)

---
 psi/utils/table_utils.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/psi/utils/table_utils.h b/psi/utils/table_utils.h
index 2a2a63d..976f2dc 100644
--- a/psi/utils/table_utils.h
+++ b/psi/utils/table_utils.h
@@ -36,7 +36,12 @@
 
 namespace psi {
 
+#ifdef PSI_VERIF_HOOKS
+// Verification builds read key files in smaller batches.
+inline size_t kBatchSize = 1 << 16;
+#else
 constexpr size_t kBatchSize = 1 << 16;
+#endif
 
 std::string MakeQuotedCsvLine(const std::vector<std::string>& columns);
 
-- 
2.43.0


From 983409900e8837e6e34bd2dfed54f961b89238fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 16/57] fix: input digest of the csv check separates keys

Keys were hashed one after the other without a separator, so that the key
lists (ab, c) and (a, bc) had equal digests and two different inputs were
taken for identical.
---
 psi/utils/csv_checker.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psi/utils/csv_checker.cc b/psi/utils/csv_checker.cc
index aba4a40..092797e 100644
--- a/psi/utils/csv_checker.cc
+++ b/psi/utils/csv_checker.cc
@@ -101,6 +101,9 @@ CsvChecker::CsvChecker(const std::string& csv_path,
       // if combined_id is about 128bytes
       // .keys file tasks almost 12GB for 10^8 samples.
       std::string combined_id = KeysJoin(chosen);
+      // The length goes first, so that different key lists never feed the same
+      // bytes into the hash.
+      hash_obj.Update(std::to_string(combined_id.size()) + ":");
       hash_obj.Update(combined_id);
       if (!skip_check) {
         keys_os->Write(combined_id.data(), combined_id.size());
-- 
2.43.0


From 3cadf51b0fb873545b75f949d88027ad73edafb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 17/57] fix: broadcast items that are not UTF-8 text

Items were carried in a proto3 string field. Parsing rejects bytes that are
not valid UTF-8 and the rest of the message (items and duplicate counts) was
silently dropped on the receiving side. A bytes field has the same encoding.
---
 psi/utils/serializable.proto | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psi/utils/serializable.proto b/psi/utils/serializable.proto
index 919ad81..d933318 100644
--- a/psi/utils/serializable.proto
+++ b/psi/utils/serializable.proto
@@ -32,7 +32,8 @@ message PsiDataBatchProto {
 }
 
 message StrItemsProto {
-  repeated string items = 1;
+  // Items may hold any bytes, not only UTF-8 text.
+  repeated bytes items = 1;
   map<uint64, uint32> duplicate_item_cnt = 2;
 }
 
-- 
2.43.0


From 147bc5eaf56e876545a9342ec56fd65a796985bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:48 +0000
Subject: [PATCH 18/57] fix: kkrt reports one peer item for items the peer
 holds once

---
 psi/algorithm/kkrt/kkrt_psi.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/psi/algorithm/kkrt/kkrt_psi.cc b/psi/algorithm/kkrt/kkrt_psi.cc
index 76f69d0..0ca1513 100644
--- a/psi/algorithm/kkrt/kkrt_psi.cc
+++ b/psi/algorithm/kkrt/kkrt_psi.cc
@@ -414,9 +414,13 @@ std::vector<PsiResultIndex> KkrtPsiRecvIndices(
 
         auto it = oprf_encode_map[j].find(encode_sub_str);
         if (it != oprf_encode_map[j].end()) {
-          ret_intersection.emplace_back(
-              PsiResultIndex{.data = it->second,
-                             .peer_item_cnt = batch.duplicate_item_cnt[i]});
+          // only duplicated items have an entry in duplicate_item_cnt.
+          auto cnt_it = batch.duplicate_item_cnt.find(i);
+          ret_intersection.emplace_back(PsiResultIndex{
+              .data = it->second,
+              .peer_item_cnt = cnt_it != batch.duplicate_item_cnt.end()
+                                   ? cnt_it->second
+                                   : 1});
         }
       }
     }
-- 
2.43.0


From c0cd16941635f5066a3753a7626bd67409972ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 19/57] fix: randomise the key-value stores of the nty
 multi-party psi

---
 psi/algorithm/nty/nty_mp_psi.cc  |  7 ++++++-
 psi/algorithm/rr22/okvs/baxos.cc | 13 ++++++++++++-
 psi/algorithm/rr22/okvs/paxos.cc |  4 ++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/psi/algorithm/nty/nty_mp_psi.cc b/psi/algorithm/nty/nty_mp_psi.cc
index ba0debd..799fa7b 100644
--- a/psi/algorithm/nty/nty_mp_psi.cc
+++ b/psi/algorithm/nty/nty_mp_psi.cc
@@ -20,6 +20,7 @@
 #include "yacl/crypto/aes/aes_intrinsics.h"
 #include "yacl/crypto/hash/hash_utils.h"
 #include "yacl/crypto/rand/rand.h"
+#include "yacl/crypto/tools/prg.h"
 #include "yacl/utils/serialize.h"
 
 #include "psi/algorithm/rr22/okvs/baxos.h"
@@ -337,7 +338,11 @@ void NtyMPsi::GenOkvs(const std::vector<uint128_t>& items,
   std::vector<uint128_t> p128_v(baxos.size(), 0);
   auto p128_span = absl::MakeSpan(p128_v);
   auto hashed_span = absl::MakeSpan(hashed_items);
-  baxos.Solve(absl::MakeSpan(items), hashed_span, p128_span, nullptr,
+  // the free variables have to be random: otherwise items outside of the set
+  // may decode to the same value in the okvs of different parties.
+  auto prng = std::make_shared<yacl::crypto::Prg<uint8_t>>(
+      yacl::crypto::SecureRandU128());
+  baxos.Solve(absl::MakeSpan(items), hashed_span, p128_span, prng,
               options_.num_threads);
   psi::rr22::SendChunked(ctx, p128_span);
 }
diff --git a/psi/algorithm/rr22/okvs/baxos.cc b/psi/algorithm/rr22/okvs/baxos.cc
index 7c7bca0..db85c4c 100644
--- a/psi/algorithm/rr22/okvs/baxos.cc
+++ b/psi/algorithm/rr22/okvs/baxos.cc
@@ -249,6 +249,17 @@ void Baxos::ImplParSolve(
   std::promise<void> hashing_done_prom;
   auto hashing_done_fu = hashing_done_prom.get_future().share();
 
+  // a Prg is not thread safe, so every thread gets one of its own.
+  std::vector<std::shared_ptr<yacl::crypto::Prg<uint8_t>>> thrd_prngs(
+      num_threads);
+  if (prng) {
+    for (auto& thrd_prng : thrd_prngs) {
+      uint128_t thrd_seed = 0;
+      prng->Fill(absl::MakeSpan(&thrd_seed, 1));
+      thrd_prng = std::make_shared<yacl::crypto::Prg<uint8_t>>(thrd_seed);
+    }
+  }
+
   auto routine = [&](uint64_t thrd_idx) {
     auto begin = (inputs_param.size() * thrd_idx) / num_threads;
     auto end = (inputs_param.size() * (thrd_idx + 1)) / num_threads;
@@ -440,7 +451,7 @@ void Baxos::ImplParSolve(
 
       paxos.SetInput(rows_mtx, hashes, cols, col_backing, col_weights);
 
-      paxos.Encode(values, output, h, prng);
+      paxos.Encode(values, output, h, thrd_prngs[thrd_idx]);
     }
   };
 
diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 0231ae2..9009a96 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -835,7 +835,7 @@ void Paxos<IdxType>::BackfillGf128U64(
     if (prng) {
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
-        prng->Fill(absl::MakeSpan(&EE[i * size], size * sizeof(uint128_t)));
+        prng->Fill(absl::MakeSpan(&EE[i * size], size));
         helper.Randomize(xx[i], prng);
       }
     }
@@ -1036,7 +1036,7 @@ void Paxos<IdxType>::BackfillGf128(
     if (prng) {
       for (uint64_t i = g; i < dense_size; ++i) {
         // prng->get<yacl::block>(EE[i]);
-        prng->Fill(absl::MakeSpan(&EE[i * size], size * sizeof(uint128_t)));
+        prng->Fill(absl::MakeSpan(&EE[i * size], size));
         helper.Randomize(xx[i], prng);
       }
     }
-- 
2.43.0


From 69cb062110a74a3cdd6a5eee8ce4fae6f47ad96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 20/57] fix: size of the inverse of the paxos gap matrix

---
 psi/algorithm/rr22/okvs/paxos.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 9009a96..e21223d 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -30,7 +30,7 @@ inline std::vector<uint128_t> MatrixGf128Inv(std::vector<uint128_t> mtx,
                                              size_t row_size, size_t col_size) {
   YACL_ENFORCE(row_size == col_size);
 
-  auto inv = std::vector<uint128_t>(row_size, col_size);
+  std::vector<uint128_t> inv(row_size * col_size, 0);
   for (uint64_t i = 0; i < row_size; ++i) {
     inv[i * row_size + i] = yacl::MakeUint128(0, 1);
   }
-- 
2.43.0


From 763e1abb783dfcee22a70ffd724a365203744299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:36 +0000
Subject: [PATCH 21/57] fix: threshold ecdh psi keeps the peer's repeat counts
 with their keys

The sender stored the count of the item at place i next to the item which the
shuffle moved to place i.
---
 experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
index 8710228..c972d40 100644
--- a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
+++ b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
@@ -103,7 +103,7 @@ void ThresholdEcdhPsiCtx::MaskAndShufflePeer(
       for (size_t i = 0; i < dual_masked_peers.size(); ++i) {
         shuffled_items[i] = std::move(dual_masked_peers[shuffled_indices[i]]);
         cache->SaveData(item_count + i, item_count + shuffled_indices[i],
-                        dup_cnts[i]);
+                        dup_cnts[shuffled_indices[i]]);
       }
     }
 
-- 
2.43.0


From 44190a050287808c64f5f3cd31a52e0d7c2d0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:36 +0000
Subject: [PATCH 22/57] fix: a threshold UB PSI party without result reports
 intersection count -1

---
 experiment/psi/threshold_ub_psi/client.cc | 2 ++
 experiment/psi/threshold_ub_psi/server.cc | 1 +
 2 files changed, 3 insertions(+)

diff --git a/experiment/psi/threshold_ub_psi/client.cc b/experiment/psi/threshold_ub_psi/client.cc
index b0052b4..51e24c0 100644
--- a/experiment/psi/threshold_ub_psi/client.cc
+++ b/experiment/psi/threshold_ub_psi/client.cc
@@ -124,6 +124,8 @@ void ThresholdEcdhUbPsiClient::Online() {
           "intersection is {}.",
           real_intersection_unique_key_count, threshold,
           final_intersection_unique_key_count);
+    } else {
+      report_.set_intersection_count(-1);
     }
   });
 }
diff --git a/experiment/psi/threshold_ub_psi/server.cc b/experiment/psi/threshold_ub_psi/server.cc
index 6089ebe..52e44bf 100644
--- a/experiment/psi/threshold_ub_psi/server.cc
+++ b/experiment/psi/threshold_ub_psi/server.cc
@@ -57,6 +57,7 @@ void ThresholdEcdhUbPsiServer::Online() {
     }
 
     if (!config_.server_get_result()) {
+      report_.set_intersection_count(-1);
       return;
     }
 
-- 
2.43.0


From 808f284d654f79f6166e15a6c00939eb267a6659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:36 +0000
Subject: [PATCH 23/57] fix: the threshold of the intersection holds for equal
 inputs as well

The shortcut for equal inputs, always on together with recovery, handed out
the whole intersection and wrote no count file.
---
 psi/interface.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psi/interface.cc b/psi/interface.cc
index 65cc8e7..eb1b2cf 100644
--- a/psi/interface.cc
+++ b/psi/interface.cc
@@ -95,7 +95,8 @@ void AbstractPsiParty::Init() {
   // Check if the input are the same between receiver and sender.
   // current only support unique keys input check
   // TODO(huocun): support dup keys input
-  if (config_.check_hash_digest()) {
+  // A threshold limits what the parties may learn, equal inputs included.
+  if (config_.check_hash_digest() && config_.intersection_threshold() == 0) {
     auto unique_flag = AllGatherFlag(lctx_, keys_info_->DupKeyCnt() == 0);
     auto all_unique = std::all_of(unique_flag.begin(), unique_flag.end(),
                                   [](auto flag) { return flag; });
-- 
2.43.0


From 2400c0d889fdac800c82a094162027b4bf2ffe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 24/57] fix: an interrupted online stage of threshold ecdh psi
 starts again

A resumed sender kept places of the new items only, counted from zero, so that
the receiver ended with the wrong lines or none.
---
 experiment/psi/threshold_ecdh_psi/receiver.cc |  9 +++++
 .../threshold_ecdh_psi/threshold_ecdh_psi.cc  | 37 +------------------
 2 files changed, 11 insertions(+), 35 deletions(-)

diff --git a/experiment/psi/threshold_ecdh_psi/receiver.cc b/experiment/psi/threshold_ecdh_psi/receiver.cc
index cd3486c..1182027 100644
--- a/experiment/psi/threshold_ecdh_psi/receiver.cc
+++ b/experiment/psi/threshold_ecdh_psi/receiver.cc
@@ -40,6 +40,15 @@ void ThresholdEcdhPsiReceiver::Online() {
       recovery_manager_ ? recovery_manager_->MarkOnlineStart(lctx_) : false;
 
   if (!online_stage_finished) {
+    if (recovery_manager_) {
+      // The sender shuffles the items anew: an interrupted online stage starts
+      // again with the first item.
+      recovery_manager_->UpdateEcdhDualMaskedItemSelfCount(0);
+      recovery_manager_->UpdateEcdhDualMaskedItemPeerCount(0);
+      self_ec_point_store_->Truncate(0);
+      peer_ec_point_store_->Truncate(0);
+    }
+
     SyncWait(lctx_, [&] {
       RunReceiver(psi_options_, batch_provider_, self_ec_point_store_,
                   peer_ec_point_store_);
diff --git a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
index c972d40..3fd227b 100644
--- a/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
+++ b/experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc
@@ -23,29 +23,6 @@ namespace psi::ecdh {
 
 constexpr int kLogBatchInterval = 10;
 
-namespace {
-uint64_t GetProcessedItemCnt(const EcdhPsiOptions& options,
-                             const EcdhPsiContext& handler) {
-  uint64_t processed_item_cnt = 0;
-  if (handler.SelfCanTouchResults() && handler.PeerCanTouchResults()) {
-    processed_item_cnt =
-        std::min(options.recovery_manager->ecdh_dual_masked_cnt_from_peer(),
-                 options.recovery_manager->checkpoint()
-                     .ecdh_dual_masked_item_self_count());
-  } else if (handler.SelfCanTouchResults() && !handler.PeerCanTouchResults()) {
-    processed_item_cnt = options.recovery_manager->checkpoint()
-                             .ecdh_dual_masked_item_self_count();
-  } else {
-    processed_item_cnt =
-        options.recovery_manager->ecdh_dual_masked_cnt_from_peer();
-  }
-
-  SPDLOG_INFO("processed_item_cnt = {}", processed_item_cnt);
-
-  return processed_item_cnt;
-}
-}  // namespace
-
 ThresholdEcdhPsiCtx::ThresholdEcdhPsiCtx(const EcdhPsiOptions& options)
     : EcdhPsiContext(options) {}
 
@@ -228,15 +205,10 @@ void RunSender(const EcdhPsiOptions& options,
   std::shared_ptr<ThresholdEcdhPsiCache> cache =
       std::make_shared<ThresholdEcdhPsiCache>(cache_path);
 
-  uint64_t processed_item_cnt = 0;
-  if (options.recovery_manager) {
-    processed_item_cnt = GetProcessedItemCnt(options, handler);
-  }
-
   // Sender mask self items then send them to receiver.
   std::future<void> f_mask_self = std::async([&] {
     SPDLOG_INFO("ID {}: MaskSelf begin...", handler.Id());
-    handler.MaskSelf(batch_provider, processed_item_cnt);
+    handler.MaskSelf(batch_provider, 0);
     SPDLOG_INFO("ID {}: MaskSelf finished.", handler.Id());
   });
 
@@ -283,15 +255,10 @@ void RunReceiver(const EcdhPsiOptions& options,
   ThresholdEcdhPsiCtx handler(options);
   handler.CheckConfig();
 
-  uint64_t processed_item_cnt = 0;
-  if (options.recovery_manager) {
-    processed_item_cnt = GetProcessedItemCnt(options, handler);
-  }
-
   // Receiver mask self items then send them to sender.
   std::future<void> f_mask_self = std::async([&] {
     SPDLOG_INFO("ID {}: MaskSelf begin...", handler.Id());
-    handler.MaskSelf(batch_provider, processed_item_cnt);
+    handler.MaskSelf(batch_provider, 0);
     SPDLOG_INFO("ID {}: MaskSelf finished.", handler.Id());
   });
 
-- 
2.43.0


From d1a95a8fd50df30b214482c161bc2c3c556216bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 25/57] fix: kmprt17 keeps room for the shares of every party

With fewer items than parties the received shares were written past the end
of a vector sized by the number of items.
---
 experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc b/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
index d8a38ec..5c88a15 100644
--- a/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
+++ b/experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc
@@ -97,7 +97,7 @@ auto KmprtParty::SwapShares(const std::vector<uint128_t>& items,
                             const std::vector<Share>& shares) const -> Share {
   auto [ctx, wsize, me, leader] = CollectContext();
   auto count = shares.front().size();
-  std::vector<Share> recv_shares(count);
+  std::vector<Share> recv_shares(wsize);
   std::vector<std::future<Share>> futures(wsize);
   // NOTE: First Send Then Receive for peers of smaller ranks
   for (size_t id{}; id != me; ++id) {
@@ -136,7 +136,7 @@ auto KmprtParty::Reconstruct(const std::vector<uint128_t>& items,
   auto [ctx, wsize, me, leader] = CollectContext();
   auto count = items.size();
   if (me == leader) {
-    std::vector<Share> recv_shares(count);
+    std::vector<Share> recv_shares(wsize);
     std::vector<std::future<Share>> futures(wsize);
     for (size_t src{}; src != wsize; ++src) {
       if (me != src) {
-- 
2.43.0


From f6612b005136490aa837e5358dc89d4ed34f41ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:00 +0000
Subject: [PATCH 26/57] fix: free columns of randomised paxos tables count for
 the gap rows

---
 psi/algorithm/rr22/okvs/paxos.cc | 58 +++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index e21223d..369ae07 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -810,6 +810,14 @@ void Paxos<IdxType>::BackfillGf128U64(
     // std::vector<block> xx(size);
     std::vector<uint128_t> fcb(size);
 
+    // the part of the gap rows on the randomized sparse columns (D' r). The
+    // columns of C cancel.
+    auto AddSparse = [&](auto* dst, uint64_t row) {
+      for (uint64_t j = 0; prng && j < weight; ++j) {
+        helper.Add(dst, output[rows_[row * weight + j]]);
+      }
+    };
+
     for (uint64_t i = 0; i < g; ++i) {
       uint128_t e = dense_[gap_rows[i][0]];
       Galois128 ej(e);
@@ -820,8 +828,10 @@ void Paxos<IdxType>::BackfillGf128U64(
       }
 
       helper.Assign(xx[i], values[gap_rows[i][0]]);
+      AddSparse(xx[i], gap_rows[i][0]);
       for (auto j : fcinv.mtx[i]) {
         helper.Add(xx[i], values[j]);
+        AddSparse(xx[i], j);
         auto fcb = dense_[j];
         Galois128 fcbk(fcb);
         EE[i * size] = EE[i * size] ^ fcb;
@@ -1011,6 +1021,14 @@ void Paxos<IdxType>::BackfillGf128(
     // std::vector<block> xx(size);
     std::vector<uint128_t> fcb(size);
 
+    // the part of the gap rows on the randomized sparse columns (D' r). The
+    // columns of C cancel.
+    auto AddSparse = [&](auto* dst, uint64_t row) {
+      for (uint64_t j = 0; prng && j < weight; ++j) {
+        helper.Add(dst, output[rows_[row * weight + j]]);
+      }
+    };
+
     for (uint64_t i = 0; i < g; ++i) {
       uint128_t e = dense_[gap_rows[i][0]];
       Galois128 ej(e);
@@ -1021,8 +1039,10 @@ void Paxos<IdxType>::BackfillGf128(
       }
 
       helper.Assign(xx[i], values[gap_rows[i][0]]);
+      AddSparse(xx[i], gap_rows[i][0]);
       for (auto j : fcinv.mtx[i]) {
         helper.Add(xx[i], values[j]);
+        AddSparse(xx[i], j);
         auto fcb = dense_[j];
         Galois128 fcbk(fcb);
         EE[i * size] = EE[i * size] ^ fcb;
@@ -1216,7 +1236,7 @@ void Paxos<IdxType>::BackfillBinaryU64(
     //  x2' = x2 - D r - FC^-1 x1
     auto xx2 =
         GetX2PrimeU64(fcinv, absl::MakeSpan(gap_rows), absl::MakeSpan(gap_cols),
-                      X, prng ? P : PxVectorU64{}, h);
+                      X, prng ? P.subspan(0) : PxVectorU64{}, h);
 
     // E' = E - FC^-1 B
     DenseMtx EE =
@@ -1334,7 +1354,7 @@ void Paxos<IdxType>::BackfillBinary(
     //  x2' = x2 - D r - FC^-1 x1
     auto xx2 =
         GetX2Prime(fcinv, absl::MakeSpan(gap_rows), absl::MakeSpan(gap_cols), X,
-                   prng ? P : PxVector{}, h);
+                   prng ? P.subspan(0) : PxVector{}, h);
 
     // E' = E - FC^-1 B
     DenseMtx EE =
@@ -1571,9 +1591,20 @@ PxVectorU64 Paxos<IdxType>::GetX2PrimeU64(
     YACL_ENFORCE(P.size() == dense_size + sparse_size);
     auto p2 = P.subspan(sparse_size);
 
-    // note that D' only has a dense part because we
-    // assume only duplcate rows in the gap, can
-    // therefore the sparse part of D' cancels.
+    // the sparse part of D', the columns of C cancel.
+    for (uint64_t i = 0; i < g; ++i) {
+      auto add_sparse = [&](uint64_t row) {
+        for (uint64_t j = 0; j < weight; ++j) {
+          helper.Add(xx2[i], P[rows_[row * weight + j]]);
+        }
+      };
+      add_sparse(gap_rows[i][0]);
+      for (auto j : fcinv.mtx[i]) {
+        add_sparse(j);
+      }
+    }
+
+    // the dense part of D'.
     for (uint64_t i = 0; i < dense_size; ++i) {
       if (std::find(gap_cols.begin(), gap_cols.end(), i) == gap_cols.end()) {
         for (uint64_t j = 0; j < g; ++j) {
@@ -1618,9 +1649,20 @@ PxVector Paxos<IdxType>::GetX2Prime(const FCInv& fcinv,
     YACL_ENFORCE(P.size() == (dense_size + sparse_size));
     auto p2 = P.subspan(sparse_size);
 
-    // note that D' only has a dense part because we
-    // assume only duplcate rows in the gap, can
-    // therefore the sparse part of D' cancels.
+    // the sparse part of D', the columns of C cancel.
+    for (uint64_t i = 0; i < g; ++i) {
+      auto add_sparse = [&](uint64_t row) {
+        for (uint64_t j = 0; j < weight; ++j) {
+          helper.Add(xx2[i], P[rows_[row * weight + j]]);
+        }
+      };
+      add_sparse(gap_rows[i][0]);
+      for (auto j : fcinv.mtx[i]) {
+        add_sparse(j);
+      }
+    }
+
+    // the dense part of D'.
     for (uint64_t i = 0; i < dense_size; ++i) {
       if (std::find(gap_cols.begin(), gap_cols.end(), i) == gap_cols.end()) {
         for (uint64_t j = 0; j < g; ++j) {
-- 
2.43.0


From f35b3f30932529ae2dd9718840484dc9d1a10d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:00 +0000
Subject: [PATCH 27/57] fix: baxos with one bin and fewer items than it has
 room for

---
 psi/algorithm/rr22/okvs/baxos.cc | 2 +-
 psi/algorithm/rr22/okvs/paxos.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/baxos.cc b/psi/algorithm/rr22/okvs/baxos.cc
index db85c4c..0677224 100644
--- a/psi/algorithm/rr22/okvs/baxos.cc
+++ b/psi/algorithm/rr22/okvs/baxos.cc
@@ -164,7 +164,7 @@ void Baxos::ImplParSolve(
 
   if (num_bins_ == 1) {
     Paxos<IdxType> paxos;
-    paxos.Init(num_items_, paxos_param_, seed_);
+    paxos.Init(inputs_param.size(), paxos_param_, seed_);
 
     paxos.SetInput(inputs_param);
 
diff --git a/psi/algorithm/rr22/okvs/paxos.cc b/psi/algorithm/rr22/okvs/paxos.cc
index 369ae07..aace642 100644
--- a/psi/algorithm/rr22/okvs/paxos.cc
+++ b/psi/algorithm/rr22/okvs/paxos.cc
@@ -241,7 +241,7 @@ void Paxos<IdxType>::SetInput(absl::Span<const uint128_t> inputs) {
       "IdxType:{}",
       inputs.size(), num_items_, sparse_size, sizeof(IdxType));
 
-  YACL_ENFORCE(inputs.size() <= num_items_,
+  YACL_ENFORCE(inputs.size() == num_items_,
                "inputs size {} must equal num_items {}", inputs.size(),
                num_items_);
 
-- 
2.43.0


From 5def99276cb12572050cdb4467a2f9d2900598b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:47 +0000
Subject: [PATCH 28/57] fix: baxos with one bin adds to the decoded values as
 asked

---
 psi/algorithm/rr22/okvs/baxos.cc | 1 +
 psi/algorithm/rr22/okvs/paxos.h  | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/psi/algorithm/rr22/okvs/baxos.cc b/psi/algorithm/rr22/okvs/baxos.cc
index 0677224..abcf6e5 100644
--- a/psi/algorithm/rr22/okvs/baxos.cc
+++ b/psi/algorithm/rr22/okvs/baxos.cc
@@ -660,6 +660,7 @@ void Baxos::ImplParDecode(absl::Span<const uint128_t> inputs, PxVector& values,
   if (num_bins_ == 1) {
     Paxos<IdxType> paxos;
     paxos.Init(1, paxos_param_, seed_);
+    paxos.add_to_decode_ = add_to_decode_;
 
     paxos.Decode(inputs, values, pp, h);
     return;
diff --git a/psi/algorithm/rr22/okvs/paxos.h b/psi/algorithm/rr22/okvs/paxos.h
index 43e5e28..406a37c 100644
--- a/psi/algorithm/rr22/okvs/paxos.h
+++ b/psi/algorithm/rr22/okvs/paxos.h
@@ -168,6 +168,10 @@ class Paxos : public PaxosParam {
   // the method for generating the row data based on the input value.
   PaxosHash<IdxType> hasher_;
 
+  // when decoding, add the decoded value to the
+  // output, as opposed to overwriting.
+  bool add_to_decode_ = false;
+
  private:
   // helper function that generates the column data given that
   // the row data has been populated (via setInput(...)).
@@ -278,10 +282,6 @@ class Paxos : public PaxosParam {
 
   // A data structure used to track the current weight of the rows.s
   WeightData<IdxType> weight_sets_;
-
-  // when decoding, add the decoded value to the
-  // output, as opposed to overwriting.
-  bool add_to_decode_ = false;
 };
 
 }  // namespace psi::rr22::okvs
-- 
2.43.0


From 82b45787ee3191ad3b72935a66e670ddd4393e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:46 +0000
Subject: [PATCH 29/57] fix: piano forgets a mask query whose reply never came

---
 experiment/pir/piano/client.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiment/pir/piano/client.cc b/experiment/pir/piano/client.cc
index 818685c..b10bf21 100644
--- a/experiment/pir/piano/client.cc
+++ b/experiment/pir/piano/client.cc
@@ -200,6 +200,7 @@ yacl::Buffer QueryServiceClient::GenerateMaskQuery() const {
 
 yacl::Buffer QueryServiceClient::GenerateIndexQuery(uint64_t query_index) {
   ctx_.current_query_index = query_index;
+  ctx_.is_mask_query = false;
   // Make sure x is not in the local cache
   if (local_cache_.find(query_index) != local_cache_.end()) {
     ctx_.is_mask_query = true;
-- 
2.43.0


From f600a1cea81afa9b7870c42ed2718309151f1d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:46 +0000
Subject: [PATCH 30/57] fix: pps punctured key starts empty

---
 experiment/pir/pps/ggm_pset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiment/pir/pps/ggm_pset.cc b/experiment/pir/pps/ggm_pset.cc
index e279063..bcac667 100644
--- a/experiment/pir/pps/ggm_pset.cc
+++ b/experiment/pir/pps/ggm_pset.cc
@@ -57,6 +57,7 @@ void PPS::Punc(uint64_t i, PIRKey k, PIRPuncKey& sk_punc) {
   if (iter != map_.end()) {
     uint32_t height = Depth(set_size_);
     sk_punc.pos_ = iter->second;
+    sk_punc.k_.clear();
     yacl::dynamic_bitset<> bits(height, sk_punc.pos_);
     uint128_t root = k, left_child, right_child;
     for (uint32_t i = 0; i < height; ++i) {
-- 
2.43.0


From 3a119b095026afb389b3ca92c5c5fe84fd5f3c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:46 +0000
Subject: [PATCH 31/57] fix: pps query looks into the set of the key it is
 given

---
 experiment/pir/pps/client.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiment/pir/pps/client.cc b/experiment/pir/pps/client.cc
index cbc0f71..8d08f06 100644
--- a/experiment/pir/pps/client.cc
+++ b/experiment/pir/pps/client.cc
@@ -59,6 +59,7 @@ void PpsPirClient::Setup(PIRKey& sk, std::set<uint64_t>& deltas) {
 void PpsPirClient::Query(uint64_t i, PIRKey& sk, std::set<uint64_t>& deltas,
                          PIRQueryParam& param, PIRPuncKey& sk_punc) {
   std::set<uint64_t>::iterator iter = deltas.begin();
+  pps_.EvalMap(sk);
   const PIREvalMap map = pps_.getMap();
   for (param.j_ = 0; iter != deltas.end(); ++param.j_, ++iter) {
     uint64_t r = MODULE_SUB(i, *iter, universe_size_);
-- 
2.43.0


From 566f5cc588ec41c35f5c113ec4f6bcc03dad2b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:05 +0000
Subject: [PATCH 32/57] fix: pps never punctures the queried element when it
 hides the query

---
 experiment/pir/pps/client.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/experiment/pir/pps/client.cc b/experiment/pir/pps/client.cc
index 8d08f06..f9e195a 100644
--- a/experiment/pir/pps/client.cc
+++ b/experiment/pir/pps/client.cc
@@ -77,8 +77,11 @@ void PpsPirClient::Query(uint64_t i, PIRKey& sk, std::set<uint64_t>& deltas,
 
   uint64_t i_punc;
   if ((param.b_ = Bernoulli())) {
-    auto map_iter = std::next(map.begin(), GetRandomU64Less());
-    i_punc = map_iter->first;
+    // a random element of the set, but not the queried one
+    do {
+      auto map_iter = std::next(map.begin(), GetRandomU64Less());
+      i_punc = map_iter->first;
+    } while (i_punc == MODULE_SUB(i, sk_punc.delta_, universe_size_));
   } else {
     i_punc = MODULE_SUB(i, sk_punc.delta_, universe_size_);
   }
@@ -133,8 +136,11 @@ void PpsPirClient::Query(uint64_t i, std::vector<PIRKeyUnion>& ck,
   uint64_t i_punc;
   param.j_ = PIR_ABORT;
   if ((param.b_ = Bernoulli())) {
-    rand_i = std::next(pps_.getMap().begin(), GetRandomU64Less())->first;
-    i_punc = MODULE_ADD(rand_i, punc_l.delta_, universe_size_);
+    // a random element of the set, but not the queried one
+    do {
+      rand_i = std::next(pps_.getMap().begin(), GetRandomU64Less())->first;
+      i_punc = MODULE_ADD(rand_i, punc_l.delta_, universe_size_);
+    } while (i_punc == i);
   } else {
     for (param.j_ = 0; param.j_ < ck.size(); ++param.j_) {
       rand_i = MODULE_SUB(i, ck[param.j_].delta_, universe_size_);
-- 
2.43.0


From fb1cf5c283c78e6a173d55031e1d5a87c7412811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:17 +0000
Subject: [PATCH 33/57] fix: pps chooses among the fitting deltas at random

---
 experiment/pir/pps/client.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/experiment/pir/pps/client.cc b/experiment/pir/pps/client.cc
index f9e195a..115a7b5 100644
--- a/experiment/pir/pps/client.cc
+++ b/experiment/pir/pps/client.cc
@@ -16,6 +16,10 @@
 
 #include <spdlog/spdlog.h>
 
+#include <tuple>
+#include <utility>
+#include <vector>
+
 #include "yacl/base/exception.h"
 
 namespace pir::pps {
@@ -58,17 +62,23 @@ void PpsPirClient::Setup(PIRKey& sk, std::set<uint64_t>& deltas) {
 // For input index i_{pir} \in [n], ouput punc key.
 void PpsPirClient::Query(uint64_t i, PIRKey& sk, std::set<uint64_t>& deltas,
                          PIRQueryParam& param, PIRPuncKey& sk_punc) {
-  std::set<uint64_t>::iterator iter = deltas.begin();
   pps_.EvalMap(sk);
   const PIREvalMap map = pps_.getMap();
-  for (param.j_ = 0; iter != deltas.end(); ++param.j_, ++iter) {
-    uint64_t r = MODULE_SUB(i, *iter, universe_size_);
+  // The deltas are sorted: take any of those that fit, not the smallest one,
+  // which would tell about the queried element.
+  std::vector<std::pair<uint64_t, uint64_t>> fits;
+  uint64_t pos = 0;
+  for (uint64_t delta : deltas) {
+    uint64_t r = MODULE_SUB(i, delta, universe_size_);
     if (map.find(r) != map.end()) {
-      sk_punc.delta_ = *iter;
-      break;
+      fits.emplace_back(pos, delta);
     }
+    ++pos;
   }
-  if (iter == deltas.end()) {
+  if (!fits.empty()) {
+    std::tie(param.j_, sk_punc.delta_) =
+        fits[LemireTrick(yacl::crypto::RandU64(), fits.size())];
+  } else {
     SPDLOG_INFO("Can't find a j \\in m such that i - \\delta_j \\in Eval(sk)");
     param.j_ = PIR_ABORT;
     auto map_iter = std::next(map.begin(), GetRandomU64Less());
-- 
2.43.0


From 3d4625818e67c649379b54c585b0b7e0f2bddbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:17 +0000
Subject: [PATCH 34/57] fix: simplepir takes the difference of answer and mask
 modulo q

---
 experiment/pir/simplepir/client.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiment/pir/simplepir/client.cc b/experiment/pir/simplepir/client.cc
index 3470a2a..184322c 100644
--- a/experiment/pir/simplepir/client.cc
+++ b/experiment/pir/simplepir/client.cc
@@ -81,7 +81,9 @@ std::vector<uint64_t> SimplePirClient::Query(size_t idx) {
 
 uint64_t SimplePirClient::Recover(const std::vector<uint64_t> &ans) {
   // Computes d_ = ans - hint*s mod q
-  uint64_t phase = ans[idx_row_] - InnerProductModq(hint_[idx_row_], s_, q_);
+  uint64_t mask = InnerProductModq(hint_[idx_row_], s_, q_);
+  uint64_t phase = ans[idx_row_] >= mask ? ans[idx_row_] - mask
+                                         : ans[idx_row_] + (q_ - mask);
 
   // Handles modular rounding: Map from Z_q to Z_p
   uint64_t d =
-- 
2.43.0


From 435015576739d557ff8eef70018c846b817c1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:25 +0000
Subject: [PATCH 35/57] fix: simplepir adds negative errors modulo q

---
 experiment/pir/simplepir/client.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/experiment/pir/simplepir/client.cc b/experiment/pir/simplepir/client.cc
index 184322c..1c593bb 100644
--- a/experiment/pir/simplepir/client.cc
+++ b/experiment/pir/simplepir/client.cc
@@ -71,9 +71,12 @@ std::vector<uint64_t> SimplePirClient::Query(size_t idx) {
   s_ = GenerateRandomVector(dimension_, q_);
   std::vector<uint64_t> qu(row_num);
   for (size_t i = 0; i < row_num; i++) {
-    qu[i] = InnerProductModq(A_[i], s_, q_) + u_i_col[i];
-    qu[i] += static_cast<uint64_t>(error_vec[i]);
-    qu[i] %= q_;
+    uint128_t sum = InnerProductModq(A_[i], s_, q_);
+    sum += u_i_col[i];
+    // Adds the error modulo q, also when it is negative
+    int64_t error = error_vec[i];
+    sum += error >= 0 ? error % q_ : q_ - (-error % q_);
+    qu[i] = static_cast<uint64_t>(sum % q_);
   }
 
   return qu;
-- 
2.43.0


From 1eede4cff010750887b38e92ead6aef7a2b4765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:26 +0000
Subject: [PATCH 36/57] fix: pps multi-query keys start with random shifts

---
 experiment/pir/pps/client.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiment/pir/pps/client.cc b/experiment/pir/pps/client.cc
index 115a7b5..e3941dd 100644
--- a/experiment/pir/pps/client.cc
+++ b/experiment/pir/pps/client.cc
@@ -122,7 +122,9 @@ void PpsPirClient::Setup(std::vector<PIRKeyUnion>& ck,
     auto rand = yacl::crypto::RandU128();
     pps_.Eval(rand, v[i]);
     if (v[i].size() == set_size_) {
-      ck[i] = PIRKeyUnion(rand);
+      // The shift is random, like that of the keys which replace used ones
+      ck[i] = PIRKeyUnion(
+          rand, LemireTrick(yacl::crypto::RandU64(), universe_size_));
     } else {
       v[i].clear();
       continue;
-- 
2.43.0


From f2e0e49504eeae441ff646b25646e81b21d9755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:06 +0000
Subject: [PATCH 37/57] fix: spiral adapts its parameters to databases of 5-16
 and 33-64 plaintexts

---
 psi/algorithm/spiral/params.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/psi/algorithm/spiral/params.cc b/psi/algorithm/spiral/params.cc
index ce417e6..4455e38 100644
--- a/psi/algorithm/spiral/params.cc
+++ b/psi/algorithm/spiral/params.cc
@@ -135,6 +135,16 @@ size_t Params::UpdateByDatabaseInfo(const DatabaseMetaInfo& database_info) {
     while (static_cast<size_t>(1 << (v1 + v2)) < plaintext_size) {
       v2 += 1;
     }
+    // v2 * t_gsw must fit in half of the expanded query, see ValidCheck
+    while (v2 > 1) {
+      uint64_t gsw_size = v2 * poly_matrix_params_.t_gsw_;
+      uint64_t g = arith::Log2Ceil((static_cast<uint64_t>(1) << v1) + gsw_size);
+      if (2 * gsw_size <= (static_cast<uint64_t>(1) << g)) {
+        break;
+      }
+      v1 += 1;
+      v2 -= 1;
+    }
   }
   // set v1 and v2
   SetDbDim1(v1);
-- 
2.43.0


From ddb4334052785bd400727b00ca6cb9e2266cefd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:06 +0000
Subject: [PATCH 38/57] fix: spiral parameters reduced for a small database are
 restored for a larger one

---
 psi/algorithm/spiral/params.cc | 5 ++++-
 psi/algorithm/spiral/params.h  | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/psi/algorithm/spiral/params.cc b/psi/algorithm/spiral/params.cc
index 4455e38..9ab5bf8 100644
--- a/psi/algorithm/spiral/params.cc
+++ b/psi/algorithm/spiral/params.cc
@@ -29,7 +29,8 @@ Params::Params(std::size_t poly_len, std::vector<std::uint64_t> moduli,
     : poly_len_(poly_len),
       noise_width_(noise_width),
       poly_matrix_params_(std::move(poly_matrix_params)),
-      query_params_(std::move(query_params)) {
+      query_params_(std::move(query_params)),
+      configured_t_gsw_(poly_matrix_params_.t_gsw_) {
   YACL_ENFORCE(poly_matrix_params_.q2_bits_ >= kMinQ2Bits);
 
   poly_len_log2_ = arith::Log2(poly_len_);
@@ -121,6 +122,8 @@ size_t Params::UpdateByDatabaseInfo(const DatabaseMetaInfo& database_info) {
 
   size_t v1 = 0;
   size_t v2 = 0;
+  // an earlier update may have reduced t_gsw for a smaller database
+  poly_matrix_params_.t_gsw_ = configured_t_gsw_;
   // now we need to adjust the v1 & v2 to satisfy 2^(v1 + v2) >= plaintext
   if (plaintext_size <= 4) {
     v1 = 2;
diff --git a/psi/algorithm/spiral/params.h b/psi/algorithm/spiral/params.h
index 2ab57bd..3ebcfc3 100644
--- a/psi/algorithm/spiral/params.h
+++ b/psi/algorithm/spiral/params.h
@@ -411,6 +411,9 @@ class Params {
   // Query related params
   QueryParams query_params_;
 
+  // t_gsw before UpdateByDatabaseInfo adapts it to a small database
+  std::size_t configured_t_gsw_ = PolyMatrixParams().t_gsw_;
+
   ParamsId id_ = 0;
 };
 
-- 
2.43.0


From fcbec85490dea40ae1f22a5f8cd124bef2c659d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:06 +0000
Subject: [PATCH 39/57] fix: spiral secret keys are not drawn from a 32-bit
 seed

---
 psi/algorithm/spiral/poly_matrix_utils.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/psi/algorithm/spiral/poly_matrix_utils.cc b/psi/algorithm/spiral/poly_matrix_utils.cc
index 46154b6..1ea34f2 100644
--- a/psi/algorithm/spiral/poly_matrix_utils.cc
+++ b/psi/algorithm/spiral/poly_matrix_utils.cc
@@ -173,10 +173,6 @@ void GenTernaryMatrix(const Params& params, PolyMatrixRaw& mat, size_t hamming,
                       yacl::crypto::Prg<uint64_t>& prg) {
   auto modulus = params.Modulus();
 
-  uint128_t mt_seed;
-  prg.Fill(
-      absl::MakeSpan(reinterpret_cast<uint8_t*>(&mt_seed), sizeof(mt_seed)));
-  std::mt19937 rng(mt_seed);
   // todo: change the style
   for (size_t i = 0; i < mat.Rows(); ++i) {
     for (size_t j = 0; j < mat.Cols(); ++j) {
@@ -185,8 +181,11 @@ void GenTernaryMatrix(const Params& params, PolyMatrixRaw& mat, size_t hamming,
         poly[k] = 1;
         poly[k + hamming] = modulus - 1;
       }
-      // shuffle
-      std::shuffle(poly.begin(), poly.end(), rng);
+      // shuffle, every choice is drawn from prg: a generator seeded with a
+      // single 32-bit word could only produce 2^32 secret keys
+      for (size_t k = poly.size() - 1; k > 0; --k) {
+        std::swap(poly[k], poly[prg() % (k + 1)]);
+      }
     }
   }
 }
-- 
2.43.0


From 6364ad775ada23335572ca8f273d6999f03b810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:06 +0000
Subject: [PATCH 40/57] fix: spiral server generates a database anew instead of
 adding to the one before

---
 psi/algorithm/spiral/spiral_server.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/psi/algorithm/spiral/spiral_server.cc b/psi/algorithm/spiral/spiral_server.cc
index 49a4b23..98fe6a0 100644
--- a/psi/algorithm/spiral/spiral_server.cc
+++ b/psi/algorithm/spiral/spiral_server.cc
@@ -336,6 +336,11 @@ std::unique_ptr<SpiralServer> SpiralServer::Load(
 
 void SpiralServer::GenerateFromRawData(
     const psi::pir::RawDatabase& raw_database) {
+  // a database generated before is replaced, in both formats
+  pt_dbs_.clear();
+  reoriented_dbs_.clear();
+  database_seted_ = false;
+
   // now, we only support the pt modulus bit len = 8;
   // for reduce the storage size of server dump
   YACL_ENFORCE_EQ(params_.PtModulusBitLen(), 8u);
@@ -374,6 +379,11 @@ void SpiralServer::GenerateFromRawData(
 
 void SpiralServer::GenerateFromSimpleHashTable(
     const psi::pir::RawDatabase& raw_database) {
+  // a database generated before is replaced, in both formats
+  pt_dbs_.clear();
+  reoriented_dbs_.clear();
+  database_seted_ = false;
+
   // now, we only support the pt modulus bit len = 8;
   // for reduce the storage size of server dump
   YACL_ENFORCE_EQ(params_.PtModulusBitLen(), 8u);
@@ -429,6 +439,11 @@ void SpiralServer::GenerateFromSimpleHashTable(
 
 void SpiralServer::GenerateFromRawDataAndReorient(
     const psi::pir::RawDatabase& raw_database) {
+  // a database generated before is replaced, in both formats
+  pt_dbs_.clear();
+  reoriented_dbs_.clear();
+  database_seted_ = false;
+
   size_t partition_byte_len = params_.MaxByteLenOfPt();
 
   // one Pt can hold one row data
-- 
2.43.0


From 2d0cd25ca0f80973fe715467438e1cf7a474bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:07 +0000
Subject: [PATCH 41/57] fix: spiral server refuses to serialize a database
 whose plaintexts are gone

---
 psi/algorithm/spiral/spiral_server.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psi/algorithm/spiral/spiral_server.cc b/psi/algorithm/spiral/spiral_server.cc
index 98fe6a0..618ae94 100644
--- a/psi/algorithm/spiral/spiral_server.cc
+++ b/psi/algorithm/spiral/spiral_server.cc
@@ -207,6 +207,9 @@ std::vector<uint8_t> SpiralServer::ConvertRawDbToPtDb(
 
 SpiralServerProto SpiralServer::SerializeToProto() const {
   YACL_ENFORCE(database_seted_, "Before serialize, database mut be seted.");
+  YACL_ENFORCE(!pt_dbs_.empty(),
+               "The plaintexts are not kept after reorientation, only a "
+               "database from GenerateFromRawData can be serialized.");
 
   SpiralServerProto proto;
 
-- 
2.43.0


From ead54979579a79c66eb32c7b7969b9653c2ba708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:07 +0000
Subject: [PATCH 42/57] fix: spiral server refuses queries before the database
 is reoriented

---
 psi/algorithm/spiral/spiral_server.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/psi/algorithm/spiral/spiral_server.cc b/psi/algorithm/spiral/spiral_server.cc
index 618ae94..fe9ca9e 100644
--- a/psi/algorithm/spiral/spiral_server.cc
+++ b/psi/algorithm/spiral/spiral_server.cc
@@ -701,6 +701,8 @@ std::vector<PolyMatrixRaw> SpiralServer::ProcessQuery(
     const SpiralQuery& query, const PublicKeys& pks) const {
   YACL_ENFORCE(database_seted_,
                "Before ProcessQuery, database must be processed");
+  YACL_ENFORCE(!reoriented_dbs_.empty(),
+               "Before ProcessQuery, database must be reoriented");
 #ifdef __AVX2__
   SPDLOG_INFO("Using Spiral AVX2 version");
 #else
-- 
2.43.0


From 95b087a3e0a19e1e31a1eadba5d82cde3a11e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:07 +0000
Subject: [PATCH 43/57] fix: spiral server refuses rows of another length than
 announced

---
 psi/algorithm/spiral/spiral_server.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/psi/algorithm/spiral/spiral_server.cc b/psi/algorithm/spiral/spiral_server.cc
index fe9ca9e..3a2099d 100644
--- a/psi/algorithm/spiral/spiral_server.cc
+++ b/psi/algorithm/spiral/spiral_server.cc
@@ -50,6 +50,9 @@ std::vector<uint64_t> SpiralServer::ReorientRawDb(
   // in SpiralPIR
   size_t element_byte_len =
       std::min(database_info_.byte_size_per_row_, params_.MaxByteLenOfPt());
+  for (const auto& raw : raw_database) {
+    YACL_ENFORCE_EQ(raw.size(), element_byte_len);
+  }
   // the number of one plaintext can hold the rows in raw database
   size_t element_size_of_pt = params_.ElementSizeOfPt(element_byte_len);
   // we can conmpute how many plaintexts can be used to hold the whole raw
@@ -132,6 +135,9 @@ std::vector<uint8_t> SpiralServer::ConvertRawDbToPtDb(
   // in SpiralPIR
   size_t element_byte_len =
       std::min(database_info_.byte_size_per_row_, params_.MaxByteLenOfPt());
+  for (const auto& raw : raw_database) {
+    YACL_ENFORCE_EQ(raw.size(), element_byte_len);
+  }
   // the number of one plaintext can hold the rows in raw database
   size_t element_size_of_pt = params_.ElementSizeOfPt(element_byte_len);
   // we can conmpute how many plaintexts can be used to hold the whole raw
-- 
2.43.0


From 5d725106bc8ee9a1577663407316f0cfaad1d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:19 +0000
Subject: [PATCH 44/57] fix: api::UbPsiExecute generates the server's cache
 without a link

---
 psi/apps/psi_launcher/launch.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/psi/apps/psi_launcher/launch.cc b/psi/apps/psi_launcher/launch.cc
index 31deab7..f8b26f7 100644
--- a/psi/apps/psi_launcher/launch.cc
+++ b/psi/apps/psi_launcher/launch.cc
@@ -525,13 +525,16 @@ v2::UbPsiConfig UbExecConfToUbconf(
   // join
   ub_conf.set_advanced_join_type(kJoinTypeMap.at(exec_config.join_conf.type));
   auto left_side = v2::Role::ROLE_CLIENT;
-  if (exec_config.role == ub::UbPsiRole::ROLE_SERVER) {
-    if (exec_config.join_conf.left_side_rank == lctx->Rank()) {
-      left_side = v2::Role::ROLE_SERVER;
-    }
-  } else {
-    if (exec_config.join_conf.left_side_rank != lctx->Rank()) {
-      left_side = v2::Role::ROLE_SERVER;
+  // generating the cache offline needs no link, and joins nothing
+  if (lctx != nullptr) {
+    if (exec_config.role == ub::UbPsiRole::ROLE_SERVER) {
+      if (exec_config.join_conf.left_side_rank == lctx->Rank()) {
+        left_side = v2::Role::ROLE_SERVER;
+      }
+    } else {
+      if (exec_config.join_conf.left_side_rank != lctx->Rank()) {
+        left_side = v2::Role::ROLE_SERVER;
+      }
     }
   }
   ub_conf.set_left_side(left_side);
-- 
2.43.0


From 05c04bbb23f7cb28de01eb38b0e6464104b9ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:29 +0000
Subject: [PATCH 45/57] fix: dkpir writes csv fields with a comma or a quote
 unquoted

---
 psi/algorithm/dkpir/common.cc    | 12 ++++++++----
 psi/utils/csv_converter.cc       | 15 ++++++++-------
 psi/wrapper/apsi/utils/common.cc | 16 ++++++++++++++++
 psi/wrapper/apsi/utils/common.h  |  6 ++++++
 4 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/psi/algorithm/dkpir/common.cc b/psi/algorithm/dkpir/common.cc
index 042d65b..127c0a7 100644
--- a/psi/algorithm/dkpir/common.cc
+++ b/psi/algorithm/dkpir/common.cc
@@ -19,6 +19,7 @@
 
 #include "yacl/crypto/rand/rand.h"
 
+#include "psi/wrapper/apsi/utils/common.h"
 #include "psi/wrapper/apsi/utils/sender_db.h"
 
 #include "psi/algorithm/dkpir/secret_key.pb.h"
@@ -97,9 +98,11 @@ void WriteIntersectionResults(
   if (skip_count_check) {
     for (uint64_t i = 0; i < orig_items.size(); ++i) {
       if (intersection[i].found) {
-        csv_output << orig_items[i];
+        csv_output << psi::apsi_wrapper::CsvField(orig_items[i]);
         if (intersection[i].label) {
-          csv_output << "," << intersection[i].label.to_string();
+          csv_output << ","
+                     << psi::apsi_wrapper::CsvField(
+                            intersection[i].label.to_string());
         }
         csv_output << std::endl;
       }
@@ -115,10 +118,11 @@ void WriteIntersectionResults(
 
     for (uint64_t i = 0; i < orig_items.size(); ++i) {
       if (intersection[shuffle_indexes[i]].found) {
-        csv_output << orig_items[i];
+        csv_output << psi::apsi_wrapper::CsvField(orig_items[i]);
         if (intersection[shuffle_indexes[i]].label) {
           csv_output << ","
-                     << intersection[shuffle_indexes[i]].label.to_string();
+                     << psi::apsi_wrapper::CsvField(
+                            intersection[shuffle_indexes[i]].label.to_string());
         }
         csv_output << std::endl;
       }
diff --git a/psi/utils/csv_converter.cc b/psi/utils/csv_converter.cc
index b11c91a..614ff8e 100644
--- a/psi/utils/csv_converter.cc
+++ b/psi/utils/csv_converter.cc
@@ -44,10 +44,11 @@ void WriteCsvFile(
 
   writer << "key,value\n";
   for (const auto& [key, value_count_pair] : key_value_map) {
+    writer << apsi_wrapper::CsvField(key) << ",";
     if (is_count) {
-      writer << key << "," << value_count_pair.second << "\n";
+      writer << value_count_pair.second << "\n";
     } else {
-      writer << key << "," << value_count_pair.first << "\n";
+      writer << apsi_wrapper::CsvField(value_count_pair.first) << "\n";
     }
   }
 
@@ -200,7 +201,7 @@ void ApsiCsvConverter::ExtractQueryTo(const std::string& query_file_path) {
 
   writer << "key\n";
   for (const auto& query : queries) {
-    writer << query << "\n";
+    writer << apsi_wrapper::CsvField(query) << "\n";
   }
 
   writer.close();
@@ -216,9 +217,9 @@ int ApsiCsvConverter::ExtractResult(
   int total_row_cnt = 0;
 
   std::stringstream csv_output;
-  csv_output << key_name;
+  csv_output << apsi_wrapper::CsvField(key_name);
   for (const auto& name : label_names) {
-    csv_output << "," << name;
+    csv_output << "," << apsi_wrapper::CsvField(name);
   }
   csv_output << "\n";
 
@@ -263,9 +264,9 @@ int ApsiCsvConverter::ExtractResult(
             "Incorrect value:{}, which cannot be split into {} labels.",
             row_value, label_names.size());
 
-        csv_output << current_key;
+        csv_output << apsi_wrapper::CsvField(current_key);
         for (auto& label : current_labels) {
-          csv_output << "," << label;
+          csv_output << "," << apsi_wrapper::CsvField(label);
         }
         csv_output << "\n";
       }
diff --git a/psi/wrapper/apsi/utils/common.cc b/psi/wrapper/apsi/utils/common.cc
index 08c585e..82a1ebb 100644
--- a/psi/wrapper/apsi/utils/common.cc
+++ b/psi/wrapper/apsi/utils/common.cc
@@ -179,6 +179,22 @@ std::unique_ptr<::apsi::PSIParams> BuildPsiParams(
   return params;
 }
 
+std::string CsvField(const std::string &field) {
+  if (field.find_first_of(",\"\r\n") == std::string::npos) {
+    return field;
+  }
+
+  std::string quoted = "\"";
+  for (char c : field) {
+    if (c == '"') {
+      quoted.push_back('"');
+    }
+    quoted.push_back(c);
+  }
+  quoted.push_back('"');
+  return quoted;
+}
+
 int stream_intersection_results(
     const vector<std::string> &orig_items, const vector<::apsi::Item> &items,
     const vector<::apsi::receiver::MatchRecord> &intersection,
diff --git a/psi/wrapper/apsi/utils/common.h b/psi/wrapper/apsi/utils/common.h
index 0284d52..1d33509 100644
--- a/psi/wrapper/apsi/utils/common.h
+++ b/psi/wrapper/apsi/utils/common.h
@@ -42,6 +42,12 @@ void throw_if_file_invalid(const std::string &file_name);
 
 void throw_if_directory_invalid(const std::string &dir_name);
 
+/**
+Returns the field as it has to be written to a csv file: quoted if it contains a
+delimiter, a quote or a line break.
+*/
+std::string CsvField(const std::string &field);
+
 std::unique_ptr<::apsi::PSIParams> BuildPsiParams(
     const std::string &params_file);
 
-- 
2.43.0


From e57e1ac1b5c6f7a1ecee86ac2eb4eec356be8f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:29 +0000
Subject: [PATCH 46/57] fix: dkpir's sender goes online without the secret key
 it checks row counts with

---
 psi/algorithm/dkpir/sender.cc | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/psi/algorithm/dkpir/sender.cc b/psi/algorithm/dkpir/sender.cc
index 11a061d..e3e8b2a 100644
--- a/psi/algorithm/dkpir/sender.cc
+++ b/psi/algorithm/dkpir/sender.cc
@@ -104,14 +104,9 @@ DkPirSender::DkPirSender(const DkPirSenderOptions &options,
     LoadDB();
 
     if (!options_.skip_count_check) {
-      try {
-        LoadSecretKey();
-        SPDLOG_INFO(
-            "Sender loaded the secret key and the random linear function");
-      } catch (const std::exception &ex) {
-        SPDLOG_ERROR("Sender threw an exception while loading secret key: {}",
-                     ex.what());
-      }
+      LoadSecretKey();
+      SPDLOG_INFO(
+          "Sender loaded the secret key and the random linear function");
     }
   }
 }
-- 
2.43.0


From 7e4354fd8dd1b3aaac51ff24e5b703a3dee803ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:29 +0000
Subject: [PATCH 47/57] fix: dkpir's receiver throws when none of its keys is
 found

---
 psi/algorithm/dkpir/receiver.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/psi/algorithm/dkpir/receiver.cc b/psi/algorithm/dkpir/receiver.cc
index 7585675..8aad317 100644
--- a/psi/algorithm/dkpir/receiver.cc
+++ b/psi/algorithm/dkpir/receiver.cc
@@ -14,12 +14,15 @@
 
 #include "psi/algorithm/dkpir/receiver.h"
 
+#include <algorithm>
+#include <fstream>
 #include <thread>
 
 #include "absl/strings/str_split.h"
 
 #include "psi/algorithm/dkpir/common.h"
 #include "psi/utils/csv_converter.h"
+#include "psi/wrapper/apsi/utils/common.h"
 #include "psi/wrapper/apsi/utils/sender_db.h"
 
 using namespace std::chrono_literals;
@@ -283,6 +286,18 @@ uint64_t DkPirReceiver::SaveResult(
     const std::vector<::apsi::receiver::MatchRecord>& intersection,
     const std::vector<::apsi::Item>& items, uint128_t shuffle_seed,
     uint64_t shuffle_counter, const std::string& tmp_result_file) {
+  if (std::none_of(intersection.begin(), intersection.end(),
+                   [](const auto& mr) { return mr.found; })) {
+    // There is nothing to split, the result only has column names
+    std::ofstream writer(options_.result_file);
+    writer << psi::apsi_wrapper::CsvField(options_.key);
+    for (const auto& label : options_.labels) {
+      writer << "," << psi::apsi_wrapper::CsvField(label);
+    }
+    writer << "\n";
+    return 0;
+  }
+
   psi::dkpir::WriteIntersectionResults(
       orig_items_, items, intersection, shuffle_seed, shuffle_counter,
       tmp_result_file, options_.skip_count_check);
-- 
2.43.0


From a18ffc03363e72c59c584544657fd6a26b5cd024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:29 +0000
Subject: [PATCH 48/57] fix: dkpir's receiver serializes a row count ciphertext
 it does not have

---
 psi/algorithm/dkpir/receiver.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psi/algorithm/dkpir/receiver.cc b/psi/algorithm/dkpir/receiver.cc
index 8aad317..4057cb2 100644
--- a/psi/algorithm/dkpir/receiver.cc
+++ b/psi/algorithm/dkpir/receiver.cc
@@ -249,6 +249,9 @@ heu::lib::algorithms::elgamal::Ciphertext DkPirReceiver::ComputeRowCountCt(
     }
   }
 
+  // Without a single ciphertext there is no sum that could be serialized
+  YACL_ENFORCE(has_found, "None of the queried keys is in the database.");
+
   return row_count_ct;
 }
 
-- 
2.43.0


From 54811b4b88f2e17c9f349db85ebfa56a0ad6483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:13 +0000
Subject: [PATCH 49/57] fix: keyword pir writes one value column per match and
 fields unquoted

---
 psi/wrapper/apsi/utils/common.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/psi/wrapper/apsi/utils/common.cc b/psi/wrapper/apsi/utils/common.cc
index 82a1ebb..e6b46e6 100644
--- a/psi/wrapper/apsi/utils/common.cc
+++ b/psi/wrapper/apsi/utils/common.cc
@@ -242,13 +242,13 @@ int print_intersection_results(
     if (intersection[i].found) {
       match_cnt++;
       msg << Colors::GreenBold << orig_items[i] << Colors::Reset << "(FOUND) ";
-      csv_output << orig_items[i];
+      csv_output << CsvField(orig_items[i]);
       if (intersection[i].label) {
         msg << ": ";
         msg << Colors::GreenBold << intersection[i].label.to_string()
             << Colors::Reset;
-        csv_output << "," << intersection[i].label.to_string();
-        csv_header += ",value";
+        csv_output << "," << CsvField(intersection[i].label.to_string());
+        csv_header = "key,value";
       }
       csv_output << endl;
       APSI_LOG_INFO(msg.str());
-- 
2.43.0


From 2c2a70ebd5b57598a185a54a9bc484a166271ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:13 +0000
Subject: [PATCH 50/57] fix: api::Receiver leaves the value column out of the
 header when its first bucket has no match

---
 psi/wrapper/apsi/api/receiver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psi/wrapper/apsi/api/receiver.cc b/psi/wrapper/apsi/api/receiver.cc
index 3d94832..ccbd6ce 100644
--- a/psi/wrapper/apsi/api/receiver.cc
+++ b/psi/wrapper/apsi/api/receiver.cc
@@ -236,7 +236,8 @@ std::vector<size_t> Receiver::ProcessResult(
     result_size.push_back(psi::apsi_wrapper::print_intersection_results(
         context.items, context.item_vec, query_result, output_file,
         append_to_outfile));
-    append_to_outfile = true;
+    // the header is decided by the first bucket with a match
+    append_to_outfile = append_to_outfile || result_size.back() > 0;
   }
 
   return result_size;
-- 
2.43.0


From 98c486d13a98d2e572855370bcd26fd431f6eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:13 +0000
Subject: [PATCH 51/57] fix: keyword pir divides fields with a quote into
 buckets unescaped

---
 psi/wrapper/apsi/utils/csv_reader.cc | 29 +++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/psi/wrapper/apsi/utils/csv_reader.cc b/psi/wrapper/apsi/utils/csv_reader.cc
index ad96237..ecbabd2 100644
--- a/psi/wrapper/apsi/utils/csv_reader.cc
+++ b/psi/wrapper/apsi/utils/csv_reader.cc
@@ -28,6 +28,8 @@
 #include <filesystem>
 #include <fstream>
 #include <sstream>
+#include <string>
+#include <string_view>
 #include <type_traits>
 #include <unordered_map>
 #include <utility>
@@ -48,6 +50,22 @@ using namespace apsi::util;
 
 namespace psi::apsi_wrapper {
 
+namespace {
+
+// A csv field in quotes; quotes inside of it are doubled.
+std::string QuoteField(std::string_view field) {
+  std::string res = "\"";
+  for (char c : field) {
+    if (c == '"') {
+      res += '"';
+    }
+    res += c;
+  }
+  return res + "\"";
+}
+
+}  // namespace
+
 std::vector<std::string> GetCsvColumnNames(const std::string& filename) {
   std::ifstream csv_file(filename);
   std::string line;
@@ -218,9 +236,10 @@ void ApsiCsvReader::bucketize(size_t bucket_cnt,
       auto& out = bucket_os_vec[bucket_idx];
 
       if (batch->num_columns() == 1) {
-        out->Write(fmt::format("\"{}\"\n", item));
+        out->Write(fmt::format("{}\n", QuoteField(item)));
       } else {
-        out->Write(fmt::format("\"{}\",\"{}\"\n", item, arrays_[1]->Value(i)));
+        out->Write(fmt::format("{},{}\n", QuoteField(item),
+                               QuoteField(arrays_[1]->Value(i))));
       }
     }
   }
@@ -297,10 +316,10 @@ void ApsiCsvReader::GroupBucketize(size_t bucket_cnt,
       auto& out = bucket_group_vec[group_idx];
 
       if (batch->num_columns() == 1) {
-        out->Write(fmt::format("{},\"{}\"\n", bucket_idx, item));
+        out->Write(fmt::format("{},{}\n", bucket_idx, QuoteField(item)));
       } else {
-        out->Write(fmt::format("{},\"{}\",\"{}\"\n", bucket_idx, item,
-                               arrays_[1]->Value(i)));
+        out->Write(fmt::format("{},{},{}\n", bucket_idx, QuoteField(item),
+                               QuoteField(arrays_[1]->Value(i))));
       }
     }
   }
-- 
2.43.0


From 516ea30a067a2d0cb7d2f51112ef5c47a046cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:13 +0000
Subject: [PATCH 52/57] fix: api::Sender answers a query of an empty bucket
 with something its receiver cannot read

---
 psi/wrapper/apsi/api/sender.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/psi/wrapper/apsi/api/sender.cc b/psi/wrapper/apsi/api/sender.cc
index 2e60bba..080e8d3 100644
--- a/psi/wrapper/apsi/api/sender.cc
+++ b/psi/wrapper/apsi/api/sender.cc
@@ -120,7 +120,16 @@ std::string Sender::RunQuery(const std::string &query_str) {
   auto db = group_db_.GetBucketDB(query_request->bucket_idx);
 
   if (db.sender_db == nullptr) {
-    return "";
+    // nothing is stored in this bucket: the answer has no result package
+    ::apsi::QueryResponse empty_response =
+        make_unique<::apsi::QueryResponse::element_type>();
+    empty_response->package_count = 0;
+    sop_header.type = empty_response->type();
+
+    stringstream ss_empty;
+    sop_header.save(ss_empty);
+    empty_response->save(ss_empty);
+    return ss_empty.str();
   }
 
   apsi::sender::Query query(std::move(query_request), db.sender_db);
-- 
2.43.0


From 805e7b13b5985a81929b76594f9051602aec228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:13 +0000
Subject: [PATCH 53/57] fix: a group db is marked generated although a
 subprocess failed

---
 psi/wrapper/apsi/utils/group_db.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/psi/wrapper/apsi/utils/group_db.cc b/psi/wrapper/apsi/utils/group_db.cc
index 9777c51..a3311a4 100644
--- a/psi/wrapper/apsi/utils/group_db.cc
+++ b/psi/wrapper/apsi/utils/group_db.cc
@@ -188,6 +188,11 @@ void GenerateGroupBucketDB(GroupDB& group_db, size_t process_num) {
 
   ProcessGroupParallel(process_num, group_db);
 
+  // A subprocess may have failed: complete what it left undone, or fail too.
+  for (size_t i = 0; i < group_db.GetGroupNum(); ++i) {
+    group_db.GenerateGroup(i);
+  }
+
   group_db.GenerateDone();
 }
 
-- 
2.43.0


From 1453bef0b91b611d8c6b9861a3f61ecda3322085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:13 +0000
Subject: [PATCH 54/57] fix: a group db whose division was interrupted is
 divided into the leftovers

---
 psi/wrapper/apsi/utils/group_db.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/psi/wrapper/apsi/utils/group_db.cc b/psi/wrapper/apsi/utils/group_db.cc
index a3311a4..a7b1204 100644
--- a/psi/wrapper/apsi/utils/group_db.cc
+++ b/psi/wrapper/apsi/utils/group_db.cc
@@ -524,6 +524,10 @@ void GroupDB::DivideGroup() {
   }
 
   ApsiCsvReader reader(source_file_);
+  // The group files are appended to: drop what an interrupted run left.
+  for (size_t i = 0; i < group_cnt_; ++i) {
+    std::filesystem::remove(disk_cache_.GetPath(i));
+  }
   reader.GroupBucketize(num_buckets_, db_path_, group_cnt_, disk_cache_);
 
   status_.set_state(GroupDBState::GROUP_DB_STATE_BUCKETED);
-- 
2.43.0


From a4de8619b4532950f44e4ddda812e8ae19b293ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:13 +0000
Subject: [PATCH 55/57] fix: a group db half written is taken for a complete
 one

---
 psi/wrapper/apsi/utils/group_db.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/psi/wrapper/apsi/utils/group_db.cc b/psi/wrapper/apsi/utils/group_db.cc
index a7b1204..2d9b6c3 100644
--- a/psi/wrapper/apsi/utils/group_db.cc
+++ b/psi/wrapper/apsi/utils/group_db.cc
@@ -398,12 +398,18 @@ void GroupDBItem::Generate() {
   }
 
   flush_proc();
+  ofs.close();
 
-  std::ofstream meta_ofs(meta_filename_);
+  // The meta file tells that the db file is complete: it appears as a whole.
+  auto meta_tmp = meta_filename_ + ".tmp";
+  std::ofstream meta_ofs(meta_tmp);
+  meta_ofs.exceptions(std::ios_base::badbit | std::ios_base::failbit);
   meta_ofs << bucket_offset_map_.size() << '\n';
   for (auto& [bucket_id, offset] : bucket_offset_map_) {
     meta_ofs << bucket_id << " " << offset << '\n';
   }
+  meta_ofs.close();
+  std::filesystem::rename(meta_tmp, meta_filename_);
 
   complete_ = true;
 }
@@ -431,10 +437,13 @@ void SaveStatus(const std::string& status_file, const GroupDBStatus& status) {
     std::filesystem::create_directories(
         std::filesystem::path(status_file).parent_path());
   }
-  std::ofstream ofs(status_file);
+  auto status_tmp = status_file + ".tmp";
+  std::ofstream ofs(status_tmp);
   ofs << json;
+  ofs.close();
   YACL_ENFORCE(ofs.good(), "save {} to status file {} failed.", json,
                status_file);
+  std::filesystem::rename(status_tmp, status_file);
 }
 
 GroupDB::GroupDB(const std::string& db_path)
-- 
2.43.0


From 8144376bef2e6d105552ce7a4488850a3424033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:02 +0000
Subject: [PATCH 56/57] fix: a stored sender db that lost its OPRF key is
 served with a random one

---
 psi/wrapper/apsi/utils/sender_db.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/psi/wrapper/apsi/utils/sender_db.cc b/psi/wrapper/apsi/utils/sender_db.cc
index 8624309..2f4d45e 100644
--- a/psi/wrapper/apsi/utils/sender_db.cc
+++ b/psi/wrapper/apsi/utils/sender_db.cc
@@ -55,8 +55,9 @@ shared_ptr<::apsi::sender::SenderDB> TryLoadSenderDB(
     APSI_LOG_INFO("Loaded OPRF key (" << ::apsi::oprf::oprf_key_size
                                       << " bytes)");
   } catch (const exception &e) {
-    // Failed to load SenderDB
+    // Failed to load SenderDB, or the OPRF key it cannot be used without
     APSI_LOG_DEBUG("Failed to load SenderDB: " << e.what());
+    result = nullptr;
   }
 
   return result;
@@ -109,8 +110,9 @@ shared_ptr<::apsi::sender::SenderDB> TryLoadSenderDB(
     APSI_LOG_INFO("Loaded OPRF key (" << ::apsi::oprf::oprf_key_size
                                       << " bytes) from " << db_file);
   } catch (const exception &e) {
-    // Failed to load SenderDB
+    // Failed to load SenderDB, or the OPRF key it cannot be used without
     APSI_LOG_DEBUG("Failed to load SenderDB: " << e.what());
+    result = nullptr;
   }
 
   return result;
-- 
2.43.0


From d9e22e88bc43704a9975340bf34f27f1efe59a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:02 +0000
Subject: [PATCH 57/57] fix: a bucket that cannot be loaded is served as an
 empty one

---
 psi/wrapper/apsi/utils/group_db.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psi/wrapper/apsi/utils/group_db.cc b/psi/wrapper/apsi/utils/group_db.cc
index 2d9b6c3..06a0514 100644
--- a/psi/wrapper/apsi/utils/group_db.cc
+++ b/psi/wrapper/apsi/utils/group_db.cc
@@ -255,6 +255,9 @@ GroupDBItem::BucketDBItem GroupDBItem::LoadBucket(size_t bucket_id) {
   BucketDBItem bucket_db;
   bucket_db.bucket_id = bucket_id;
   bucket_db.sender_db = TryLoadSenderDB(ifs, bucket_db.oprf_key);
+  // no sender db means an empty bucket, which this one is not
+  YACL_ENFORCE(bucket_db.sender_db != nullptr, "load bucket {} from {} failed",
+               bucket_id, filename_);
 
   return bucket_db;
 }
-- 
2.43.0

