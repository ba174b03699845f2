From 5eae75119ec931ccea52b1d5dcf83f85a19dc6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 01/22] fix: recover: do not restore a bucket whose log record
 could not be read

---
 include/nudb/impl/recover.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index e449c36..65d0196 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -153,6 +153,8 @@ recover(
                 ec = {};
                 break;
             }
+            if(ec)
+                return;
             if(b.spill() && b.spill() + bucketSize > dataFileSize)
             {
                 ec = error::invalid_log_spill;
-- 
2.43.0


From 54612baf243ecf1888c98087ff2a165d5af1d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 02/22] fix: visit: do not call back with a record that could
 not be read

---
 include/nudb/impl/visit.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nudb/impl/visit.ipp b/include/nudb/impl/visit.ipp
index 4d57b95..60af810 100644
--- a/include/nudb/impl/visit.ipp
+++ b/include/nudb/impl/visit.ipp
@@ -68,6 +68,8 @@ visit(
             is = r.prepare(
                 dh.key_size +           // Key
                 size, ec);              // Data
+            if(ec)
+                return;
             std::uint8_t const* const key =
                 is.data(dh.key_size);
             callback(key, dh.key_size,
-- 
2.43.0


From b3e7aa680b2800ebfaa342187700587c418670ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 03/22] fix: rekey: sync the data and key files before the log
 is removed

---
 include/nudb/impl/rekey.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 82cebf5..1063805 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -235,6 +235,12 @@ rekey(
             return;
     }
     dw.flush(ec);
+    if(ec)
+        return;
+    df.sync(ec);
+    if(ec)
+        return;
+    kf.sync(ec);
     if(ec)
         return;
     lf.close();
-- 
2.43.0


From bef5d57e7c42151db3a8f54c74f878de37fec2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 04/22] fix: bucket: reject an oversized compact bucket before
 copying its entries

---
 include/nudb/detail/bucket.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nudb/detail/bucket.hpp b/include/nudb/detail/bucket.hpp
index 8a8efbf..4f96fcd 100644
--- a/include/nudb/detail/bucket.hpp
+++ b/include/nudb/detail/bucket.hpp
@@ -378,6 +378,11 @@ read(bulk_reader<File>& r, error_code& ec)
         return;
     detail::read<std::uint16_t>(is, size_); // Count
     detail::read<uint48_t>(is, spill_);     // Spill
+    if(size_ > bucket_capacity(block_size_))
+    {
+        ec = error::invalid_bucket_size;
+        return;
+    }
     update();
     // Excludes empty bucket entries
     auto const w = size_ * (
-- 
2.43.0


From 8d8322d8f69f5b05b3c518b34c5a203dc1f94bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 05/22] fix: posix_file: report the error posix_fadvise returns

---
 include/nudb/impl/posix_file.ipp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/nudb/impl/posix_file.ipp b/include/nudb/impl/posix_file.ipp
index cb33b82..8be43d0 100644
--- a/include/nudb/impl/posix_file.ipp
+++ b/include/nudb/impl/posix_file.ipp
@@ -64,8 +64,13 @@ create(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // Returns the error instead of setting errno
+    auto const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        return err(ev, ec);
+    }
 #endif
 }
 
@@ -80,8 +85,13 @@ open(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // Returns the error instead of setting errno
+    auto const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        return err(ev, ec);
+    }
 #endif
 }
 
-- 
2.43.0


From d097d2bc2da372a5e65786c5624ecc42e27f882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 06/22] fix: use the given File type when creating and erasing
 files

---
 include/nudb/impl/create.ipp  | 8 ++++----
 include/nudb/impl/recover.ipp | 2 +-
 include/nudb/native_file.hpp  | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index ee560c6..e73ec90 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -148,11 +148,11 @@ create(
     }
 fail:
     if(edf)
-        erase_file(dat_path);
+        erase_file<File>(dat_path);
     if(ekf)
-        erase_file(key_path);
+        erase_file<File>(key_path);
     if(elf)
-        erase_file(log_path);
+        erase_file<File>(log_path);
 }
 
 template<
@@ -173,7 +173,7 @@ create(
     error_code& ec,
     Args&&... args)
 {
-    create<Hasher>(dat_path, key_path, log_path,
+    create<Hasher, File>(dat_path, key_path, log_path,
             appnum, make_uid(), salt, key_size, blockSize,
             load_factor, ec, args...);
 }
diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 65d0196..b4b9ad8 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -66,7 +66,7 @@ recover(
     if(keyFileSize <= key_file_header::size)
     {
         kf.close();
-        erase_file(log_path, ec);
+        erase_file<File>(log_path, ec);
         if(ec)
             return;
         File::erase(key_path, ec);
diff --git a/include/nudb/native_file.hpp b/include/nudb/native_file.hpp
index 241119a..13cb885 100644
--- a/include/nudb/native_file.hpp
+++ b/include/nudb/native_file.hpp
@@ -46,7 +46,7 @@ inline
 void
 erase_file(path_type const& path, error_code& ec)
 {
-    native_file::erase(path, ec);
+    File::erase(path, ec);
     if(ec == errc::no_such_file_or_directory)
         ec = {};
 }
-- 
2.43.0


From e38830de5a258d5b851eca6bd83a714e1d54e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 07/22] fix: create: reject a key size the file headers cannot
 represent

---
 include/nudb/impl/create.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index e73ec90..f982d99 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -63,7 +63,7 @@ create(
         "File requirements not met");
 
     using namespace detail;
-    if(key_size < 1)
+    if(key_size < 1 || key_size > field<std::uint16_t>::max)
     {
         ec = error::invalid_key_size;
         return;
-- 
2.43.0


From 877ee50b48fd9e663574df7ad19fb2cc926291c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 08/22] fix: rekey: validate parameters and create at least one
 bucket

---
 include/nudb/impl/rekey.ipp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 1063805..e637f84 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -44,6 +44,17 @@ rekey(
     static_assert(is_Progress<Progress>::value,
         "Progress requirements not met");
     using namespace detail;
+    if(blockSize > field<std::uint16_t>::max ||
+        bucket_capacity(blockSize) < 1)
+    {
+        ec = error::invalid_block_size;
+        return;
+    }
+    if(! (loadFactor > 0.f && loadFactor < 1.f))
+    {
+        ec = error::invalid_load_factor;
+        return;
+    }
     auto const readSize = 1024 * block_size(dat_path);
     auto const writeSize = 16 * block_size(key_path);
 
@@ -83,9 +94,9 @@ rekey(
     kh.block_size = blockSize;
     kh.load_factor = std::min<std::size_t>(
         static_cast<std::size_t>(65536.0f * loadFactor), 65535);
-    kh.buckets = static_cast<std::size_t>(
+    kh.buckets = std::max<std::size_t>(1, static_cast<std::size_t>(
         std::ceil(itemCount /(
-            bucket_capacity(kh.block_size) * loadFactor)));
+            bucket_capacity(kh.block_size) * loadFactor))));
     kh.modulus = ceil_pow2(kh.buckets);
     // Create key file
     File kf{args...};
-- 
2.43.0


From febb45bd63711a0b8d6cd716a225df9ecdd9be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 09/22] fix: genlock: move and swap the generation together
 with the lock

---
 include/nudb/detail/gentex.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nudb/detail/gentex.hpp b/include/nudb/detail/gentex.hpp
index 9adeeb6..adc473c 100644
--- a/include/nudb/detail/gentex.hpp
+++ b/include/nudb/detail/gentex.hpp
@@ -107,7 +107,7 @@ class genlock
 private:
     bool owned_ = false;
     GenerationLockable* g_ = nullptr;
-    std::size_t gen_;
+    std::size_t gen_ = 0;
 
 public:
     using mutex_type = GenerationLockable;
@@ -165,6 +165,7 @@ genlock<G>::
 genlock(genlock&& other)
     : owned_(other.owned_)
     , g_(other.g_)
+    , gen_(other.gen_)
 {
     other.owned_ = false;
     other.g_ = nullptr;
@@ -179,6 +180,7 @@ operator=(genlock&& other)
         unlock();
     owned_ = other.owned_;
     g_ = other.g_;
+    gen_ = other.gen_;
     other.owned_ = false;
     other.g_ = nullptr;
     return *this;
@@ -251,6 +253,7 @@ swap(genlock<G>& lhs, genlock<G>& rhs) noexcept
     using namespace std;
     swap(lhs.owned_, rhs.owned_);
     swap(lhs.g_, rhs.g_);
+    swap(lhs.gen_, rhs.gen_);
 }
 
 } // detail
-- 
2.43.0


From 50395f6358e5f3c1b05548d5759baebeae58336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 10/22] fix: xxhash: read word-wise only from aligned buffers

---
 include/nudb/detail/xxhash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nudb/detail/xxhash.hpp b/include/nudb/detail/xxhash.hpp
index 648b2cf..6c1b612 100644
--- a/include/nudb/detail/xxhash.hpp
+++ b/include/nudb/detail/xxhash.hpp
@@ -316,9 +316,9 @@ XXH64(void const* data, size_t bytes, std::uint64_t seed)
     // Use faster algorithm if aligned
     if((reinterpret_cast<std::uintptr_t>(data) & 7) == 0)
         return XXH64_endian_align(data, bytes, seed,
-            is_little_endian{}, std::false_type{});
+            is_little_endian{}, std::true_type{});
     return XXH64_endian_align(data, bytes, seed,
-        is_little_endian{}, std::true_type{});
+        is_little_endian{}, std::false_type{});
 }
 
 } // detail
-- 
2.43.0


From 8478ac81f507a7410f6b27e3883114411a37a52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 11/22] fix: recover: reject log records of buckets that do not
 exist

---
 include/nudb/impl/recover.ipp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index b4b9ad8..c3871fa 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -139,14 +139,9 @@ recover(
             }
             if(ec)
                 return;
-            nsize_t n;
-            {
-                std::uint64_t v;
-                // VFALCO This should have been a uint32_t
-                read<std::uint64_t>(is, v); // Index
-                BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
-                n = static_cast<nsize_t>(v);
-            }
+            std::uint64_t n;
+            // VFALCO This should have been a uint32_t
+            read<std::uint64_t>(is, n);     // Index
             b.read(r, ec);                  // Bucket
             if(ec == error::short_read)
             {
@@ -160,7 +155,7 @@ recover(
                 ec = error::invalid_log_spill;
                 return;
             }
-            if(n > kh.buckets)
+            if(n >= kh.buckets)
             {
                 ec = error::invalid_log_index;
                 return;
-- 
2.43.0


From 1837dd743642a28b0a3e83b037f1c724579a8709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 12/22] fix: recover: keep the key file until the rekey log is
 cleared

---
 include/nudb/impl/recover.ipp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index c3871fa..bd31452 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -38,6 +38,8 @@ recover(
     static_assert(is_Hasher<Hasher>::value,
         "Hasher requirements not met");
     using namespace detail;
+    // Set if the log belongs to an interrupted rekey
+    bool eraseKeyFile = false;
 
     // Open data file
     File df{args...};
@@ -183,10 +185,15 @@ trunc_files:
     }
     else
     {
-        kf.close();
-        File::erase(key_path, ec);
+        // An empty key file lets an interrupted
+        // recovery be repeated.
+        kf.trunc(0, ec);
+        if(ec)
+            return;
+        kf.sync(ec);
         if(ec)
             return;
+        eraseKeyFile = true;
     }
 clear_log:
     lf.trunc(0, ec);
@@ -199,6 +206,13 @@ clear_log:
     File::erase(log_path, ec);
     if(ec)
         return;
+    if(eraseKeyFile)
+    {
+        kf.close();
+        File::erase(key_path, ec);
+        if(ec)
+            return;
+    }
 }
 
 } // nudb
-- 
2.43.0


From cbcc4d1cb818ce5a21415ddcd75e01d176ab2073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:48 +0000
Subject: [PATCH 13/22] fix: verify: check the entry count of buckets loaded in
 bulk

---
 include/nudb/impl/verify.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index b10b3e6..0a2a1b1 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -344,6 +344,11 @@ verify_fast(
         {
             bucket b{kh.block_size,
                 buf.get() + i * kh.block_size};
+            if(b.size() > kh.capacity)
+            {
+                ec = error::invalid_bucket_size;
+                return;
+            }
             nkeys[i] = b.size();
             std::size_t nspill = 0;
             auto spill = b.spill();
-- 
2.43.0


From a446dd7714955f5ed943b66c29c3668a47b4061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:38 +0000
Subject: [PATCH 14/22] fix: recover: refuse the log of another database's
 rekey

---
 include/nudb/impl/recover.ipp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index bd31452..0d1ea19 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -106,7 +106,26 @@ recover(
     if(ec)
         return;
     if(lh.key_file_size == 0)
+    {
+        // The key file may be incomplete, only
+        // the data file can be compared.
+        if(lh.uid != dh.uid)
+        {
+            ec = error::uid_mismatch;
+            return;
+        }
+        if(lh.appnum != dh.appnum)
+        {
+            ec = error::appnum_mismatch;
+            return;
+        }
+        if(lh.key_size != dh.key_size)
+        {
+            ec = error::key_size_mismatch;
+            return;
+        }
         goto trunc_files;
+    }
     {
         // Read key file header
         key_file_header kh;
-- 
2.43.0


From 6ae9d06d51d4852a585201a2c5d8d0093129f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:58 +0000
Subject: [PATCH 15/22] fix: create and rekey never store a zero load factor,
 create rejects NaN

---
 include/nudb/impl/create.ipp | 8 ++++----
 include/nudb/impl/rekey.ipp  | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index f982d99..b88ade8 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -73,7 +73,7 @@ create(
         ec = error::invalid_block_size;
         return;
     }
-    if(load_factor <= 0.f || load_factor >= 1.f)
+    if(! (load_factor > 0.f && load_factor < 1.f))
     {
         ec = error::invalid_load_factor;
         return;
@@ -118,9 +118,9 @@ create(
         kh.salt = salt;
         kh.pepper = pepper<Hasher>(salt);
         kh.block_size = blockSize;
-        kh.load_factor = std::min<std::size_t>(
-            static_cast<std::size_t>(
-                65536.0f * load_factor), 65535);
+        kh.load_factor = std::max<std::size_t>(1,
+            std::min<std::size_t>(static_cast<std::size_t>(
+                65536.0f * load_factor), 65535));
         write(df, dh, ec);
         if(ec)
             goto fail;
diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index e637f84..bb00533 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -92,8 +92,9 @@ rekey(
     kh.salt = make_salt();
     kh.pepper = pepper<Hasher>(kh.salt);
     kh.block_size = blockSize;
-    kh.load_factor = std::min<std::size_t>(
-        static_cast<std::size_t>(65536.0f * loadFactor), 65535);
+    kh.load_factor = std::max<std::size_t>(1,
+        std::min<std::size_t>(static_cast<std::size_t>(
+            65536.0f * loadFactor), 65535));
     kh.buckets = std::max<std::size_t>(1, static_cast<std::size_t>(
         std::ceil(itemCount /(
             bucket_capacity(kh.block_size) * loadFactor))));
-- 
2.43.0


From c1bab81287039cccb91b3161c10923fa79b27862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:35 +0000
Subject: [PATCH 16/22] fix: tool: info reports failure in its exit status

---
 tools/nudb.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/tools/nudb.cpp b/tools/nudb.cpp
index add2612..581091b 100644
--- a/tools/nudb.cpp
+++ b/tools/nudb.cpp
@@ -273,16 +273,20 @@ private:
     {
         if(! vm.count("dat") && ! vm.count("key") && ! vm.count("log"))
             return error("No files specified");
-        if(vm.count("dat"))
-            do_info(vm["dat"].as<std::string>());
-        if(vm.count("key"))
-            do_info(vm["key"].as<std::string>());
-        if(vm.count("log"))
-            do_info(vm["log"].as<std::string>());
-        return EXIT_SUCCESS;
+        int rv = EXIT_SUCCESS;
+        if(vm.count("dat") &&
+                ! do_info(vm["dat"].as<std::string>()))
+            rv = EXIT_FAILURE;
+        if(vm.count("key") &&
+                ! do_info(vm["key"].as<std::string>()))
+            rv = EXIT_FAILURE;
+        if(vm.count("log") &&
+                ! do_info(vm["log"].as<std::string>()))
+            rv = EXIT_FAILURE;
+        return rv;
     }
 
-    void
+    bool
     do_info(path_type const& path)
     {
         error_code ec;
@@ -290,6 +294,7 @@ private:
             [&]
             {
                 std::cout << path << ": " << ec.message() << "\n";
+                return false;
             };
         native_file f;
         f.open(file_mode::read, path, ec);
@@ -301,7 +306,7 @@ private:
         if(size < 8)
         {
             std::cout << "File " << path << " is too small to be a database file.\n";
-            return;
+            return false;
         }
         std::array<char, 8> ta;
         f.read(0, ta.data(), ta.size(), ec);
@@ -320,7 +325,7 @@ private:
                 "data file:       " << path << "\n"
                 "file size:       " << fdec(size) << "\n" <<
                 h << "\n";
-            return;
+            return true;
         }
 
         if(ts == "nudb.key")
@@ -334,7 +339,7 @@ private:
                 "key file:        " << path << "\n"
                 "file size:       " << fdec(size) << "\n" <<
                 h << "\n";
-            return;
+            return true;
         }
 
         if(ts == "nudb.log")
@@ -348,10 +353,11 @@ private:
                 "log file:        " << path << "\n"
                 "file size:       " << fdec(size) << "\n" <<
                 h << "\n";
-            return;
+            return true;
         }
 
         std::cout << "File " << path << " has unknown type '" << ts << "'.\n";
+        return false;
     }
 
     int
-- 
2.43.0


From 8a96130ec903add14a5573e4f33f3b45bff6f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:12 +0000
Subject: [PATCH 17/22] fix: verify_fast reports key file entries with the
 wrong size

The fast algorithm matched a bucket entry to its data record by hash and
offset only, so an entry whose size differs from the record's passed
verification, while verify_normal reports size_mismatch for it.
---
 include/nudb/impl/verify.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 0a2a1b1..89070fe 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -431,7 +431,14 @@ verify_fast(
                         if(item.hash != h)
                             break;
                         if(item.offset == offset)
+                        {
+                            if(item.size != size)
+                            {
+                                ec = error::size_mismatch;
+                                return;
+                            }
                             goto found;
+                        }
                         ++fetches;
                     }
                     auto const spill = b.spill();
-- 
2.43.0


From a72b970ea39101092b5784374ed5c4897ac43123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:21 +0000
Subject: [PATCH 18/22] fix: verify reports data records with duplicate keys

The documentation of verify promises that no two values have the same
key, and error::duplicate_value exists for it, but neither algorithm
performed the check.
---
 include/nudb/impl/verify.ipp | 40 +++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 89070fe..511bcde 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -17,6 +17,7 @@
 #include <boost/core/ignore_unused.hpp>
 #include <algorithm>
 #include <cstddef>
+#include <cstring>
 #include <limits>
 #include <string>
 
@@ -119,6 +120,23 @@ verify_normal(
                             break;
                         if(item.offset == offset)
                             goto found;
+                        // Equal hashes, the keys must differ
+                        df.read(item.offset +
+                            field<uint48_t>::size,
+                                pd, kh.key_size, ec);
+                        if(ec == error::short_read)
+                        {
+                            ec = error::missing_value;
+                            return;
+                        }
+                        if(ec)
+                            return;
+                        if(std::memcmp(
+                            pd, key, kh.key_size) == 0)
+                        {
+                            ec = error::duplicate_value;
+                            return;
+                        }
                         ++fetches;
                     }
                     auto const spill = b.spill();
@@ -321,9 +339,12 @@ verify_fast(
     progress(0, nwork);
 
     std::uint64_t fetches = 0;
-    buffer buf{(chunkSize + 1) * kh.block_size};
+    buffer buf{(chunkSize + 1) * kh.block_size +
+        kh.key_size};
     bucket tmp{kh.block_size,
         buf.get() + chunkSize * kh.block_size};
+    std::uint8_t* pd = buf.get() +
+        (chunkSize + 1) * kh.block_size;
     for(nsize_t b0 = 0; b0 < kh.buckets; b0 += chunkSize)
     {
         // Load key file chunk to buffer
@@ -439,6 +460,23 @@ verify_fast(
                             }
                             goto found;
                         }
+                        // Equal hashes, the keys must differ
+                        df.read(item.offset +
+                            field<uint48_t>::size,
+                                pd, kh.key_size, ec);
+                        if(ec == error::short_read)
+                        {
+                            ec = error::missing_value;
+                            return;
+                        }
+                        if(ec)
+                            return;
+                        if(std::memcmp(
+                            pd, key, kh.key_size) == 0)
+                        {
+                            ec = error::duplicate_value;
+                            return;
+                        }
                         ++fetches;
                     }
                     auto const spill = b.spill();
-- 
2.43.0


From d2af8383f406f214905e4beb2798dd6199836eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 19/22] fix: verify counts unused spill records by their own
 size

The fast algorithm added the size of the spill bucket which happened to
be read last, or of one never read, for every spill record in the data
file, so the waste it reports was wrong.
---
 include/nudb/impl/verify.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 511bcde..0b996ef 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -539,7 +539,7 @@ verify_fast(
                     info.spill_bytes_tot +=
                         field<uint48_t>::size +     // Zero
                         field<uint16_t>::size +     // Size
-                        tmp.actual_size();          // Bucket
+                        size;                       // Bucket
                 }
             }
             progress(work + offset, nwork);
-- 
2.43.0


From ff91644aa6de84cd678614a024b580fb4eab85da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:35 +0000
Subject: [PATCH 20/22] fix: verify accepts spill records of another block size

Spill records which a rekey leaves behind in the data file can have the
size of another key file's buckets. The fast algorithm passes over them;
the normal one failed with invalid_spill_size, so that the outcome of
verify depended on the buffer size.
---
 include/nudb/impl/verify.ipp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 0b996ef..8d3369d 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -173,14 +173,13 @@ verify_normal(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);  // Size
-                if(size != info.bucket_size)
+                if(bucket_size(
+                    bucket_capacity(size)) != size)
                 {
                     ec = error::invalid_spill_size;
                     return;
                 }
-                if(ec)
-                    return;
-                b.read(r, ec);                  // Bucket
+                r.prepare(size, ec);            // Bucket
                 if(ec == error::short_read)
                 {
                     ec = error::short_spill;
@@ -192,7 +191,7 @@ verify_normal(
                 info.spill_bytes_tot +=
                     field<uint48_t>::size +     // Zero
                     field<uint16_t>::size +     // Size
-                    b.actual_size();            // Bucket
+                    size;                       // Bucket
             }
             progress(work + offset, nwork);
         }
-- 
2.43.0


From f3b02022e0d1c0b69343583b67ef7bca58c68516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:41 +0000
Subject: [PATCH 21/22] fix: salts and uids are any value of 64 bits

make_uid and make_salt seeded a generator with one 32-bit draw, so that only
2^32 values were possible; the salt is what keeps an attacker from choosing
colliding keys. The values are now drawn from the random device directly.
---
 include/nudb/impl/create.ipp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index b88ade8..48274cf 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -25,9 +25,8 @@ std::uint64_t
 make_uid()
 {
     std::random_device rng;
-    std::mt19937_64 gen {rng()};
-    std::uniform_int_distribution <std::size_t> dist;
-    return dist(gen);
+    std::uniform_int_distribution<std::uint64_t> dist;
+    return dist(rng);
 }
 
 template<class>
@@ -35,9 +34,8 @@ std::uint64_t
 make_salt()
 {
     std::random_device rng;
-    std::mt19937_64 gen {rng()};
-    std::uniform_int_distribution <std::size_t> dist;
-    return dist(gen);
+    std::uniform_int_distribution<std::uint64_t> dist;
+    return dist(rng);
 }
 
 template<
-- 
2.43.0


From 0be9abb9f7bf890a427f344be4ce7a0a3250064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:40 +0000
Subject: [PATCH 22/22] fix: verify's progress does not exceed the total

The normal algorithm's total is an estimate made from the load factor, which
the number of keys can pass by any amount, as every open starts counting anew
towards the next split. The amount of work reported passed the total then; it
is limited to the total now.
---
 include/nudb/impl/verify.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 8d3369d..1aa8184 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -193,7 +193,7 @@ verify_normal(
                     field<uint16_t>::size +     // Size
                     size;                       // Bucket
             }
-            progress(work + offset, nwork);
+            progress(std::min(work + offset, nwork), nwork);
         }
         work += info.dat_file_size;
     }
@@ -263,7 +263,7 @@ verify_normal(
             if(nspill >= info.hist.size())
                 nspill = info.hist.size() - 1;
             ++info.hist[nspill];
-            progress(work, nwork);
+            progress(std::min(work, nwork), nwork);
         }
     }
     float sum = 0;
-- 
2.43.0

