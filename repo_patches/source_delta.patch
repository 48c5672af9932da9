From cb6d45ee4f7daf084559e37b4d771838f07c7666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 1/2] Verification hooks: set the byte count of a hasher (cfg
 blake2_simd_verif)

---
 blake2b/src/blake2bp.rs | 10 ++++++++++
 blake2b/src/lib.rs      | 12 ++++++++++++
 blake2b/src/many.rs     | 10 ++++++++++
 blake2s/src/blake2sp.rs | 10 ++++++++++
 blake2s/src/lib.rs      | 12 ++++++++++++
 blake2s/src/many.rs     | 10 ++++++++++
 6 files changed, 64 insertions(+)

diff --git a/blake2b/src/blake2bp.rs b/blake2b/src/blake2bp.rs
index 3f5808a..c4b0de3 100644
--- a/blake2b/src/blake2bp.rs
+++ b/blake2b/src/blake2bp.rs
@@ -423,6 +423,16 @@ impl std::io::Write for State {
     }
 }
 
+// Verification hook, compiled only with `--cfg blake2_simd_verif`: pretend that every leaf has
+// compressed `count` bytes (a multiple of the block size) already.
+#[cfg(blake2_simd_verif)]
+impl State {
+    #[doc(hidden)]
+    pub fn verif_set_leaf_count(&mut self, count: Count) {
+        self.count = count;
+    }
+}
+
 impl fmt::Debug for State {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(
diff --git a/blake2b/src/lib.rs b/blake2b/src/lib.rs
index 6c4f92f..1138063 100644
--- a/blake2b/src/lib.rs
+++ b/blake2b/src/lib.rs
@@ -42,6 +42,8 @@
 //! ```
 
 #![cfg_attr(not(feature = "std"), no_std)]
+// for the verification hooks guarded by `cfg(blake2_simd_verif)`
+#![allow(unknown_lints, unexpected_cfgs)]
 
 use arrayref::{array_refs, mut_array_refs};
 use core::cmp;
@@ -525,6 +527,16 @@ impl State {
     }
 }
 
+// Verification hook, compiled only with `--cfg blake2_simd_verif`: pretend that `count` bytes (a
+// multiple of the block size) have been compressed already.
+#[cfg(blake2_simd_verif)]
+impl State {
+    #[doc(hidden)]
+    pub fn verif_set_count(&mut self, count: Count) {
+        self.count = count;
+    }
+}
+
 #[inline(always)]
 fn state_words_to_bytes(state_words: &[Word; 8]) -> [u8; OUTBYTES] {
     let mut bytes = [0; OUTBYTES];
diff --git a/blake2b/src/many.rs b/blake2b/src/many.rs
index f880c01..278d848 100644
--- a/blake2b/src/many.rs
+++ b/blake2b/src/many.rs
@@ -332,6 +332,16 @@ impl<'a> HashManyJob<'a> {
     }
 }
 
+// Verification hook, compiled only with `--cfg blake2_simd_verif`: pretend that `count` bytes (a
+// multiple of the block size) have been compressed already.
+#[cfg(blake2_simd_verif)]
+impl<'a> HashManyJob<'a> {
+    #[doc(hidden)]
+    pub fn verif_set_count(&mut self, count: Count) {
+        self.count = count;
+    }
+}
+
 impl<'a> fmt::Debug for HashManyJob<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         // NB: Don't print the words. Leaking them would allow length extension.
diff --git a/blake2s/src/blake2sp.rs b/blake2s/src/blake2sp.rs
index 3a68285..3dadefd 100644
--- a/blake2s/src/blake2sp.rs
+++ b/blake2s/src/blake2sp.rs
@@ -430,6 +430,16 @@ impl std::io::Write for State {
     }
 }
 
+// Verification hook, compiled only with `--cfg blake2_simd_verif`: pretend that every leaf has
+// compressed `count` bytes (a multiple of the block size) already.
+#[cfg(blake2_simd_verif)]
+impl State {
+    #[doc(hidden)]
+    pub fn verif_set_leaf_count(&mut self, count: Count) {
+        self.count = count;
+    }
+}
+
 impl fmt::Debug for State {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(
diff --git a/blake2s/src/lib.rs b/blake2s/src/lib.rs
index f845e96..881ad35 100644
--- a/blake2s/src/lib.rs
+++ b/blake2s/src/lib.rs
@@ -41,6 +41,8 @@
 //! ```
 
 #![cfg_attr(not(feature = "std"), no_std)]
+// for the verification hooks guarded by `cfg(blake2_simd_verif)`
+#![allow(unknown_lints, unexpected_cfgs)]
 
 use arrayref::{array_refs, mut_array_refs};
 use core::cmp;
@@ -517,6 +519,16 @@ impl State {
     }
 }
 
+// Verification hook, compiled only with `--cfg blake2_simd_verif`: pretend that `count` bytes (a
+// multiple of the block size) have been compressed already.
+#[cfg(blake2_simd_verif)]
+impl State {
+    #[doc(hidden)]
+    pub fn verif_set_count(&mut self, count: Count) {
+        self.count = count;
+    }
+}
+
 #[inline(always)]
 fn state_words_to_bytes(state_words: &[Word; 8]) -> [u8; OUTBYTES] {
     let mut bytes = [0; OUTBYTES];
diff --git a/blake2s/src/many.rs b/blake2s/src/many.rs
index e8be09b..2388b0e 100644
--- a/blake2s/src/many.rs
+++ b/blake2s/src/many.rs
@@ -332,6 +332,16 @@ impl<'a> HashManyJob<'a> {
     }
 }
 
+// Verification hook, compiled only with `--cfg blake2_simd_verif`: pretend that `count` bytes (a
+// multiple of the block size) have been compressed already.
+#[cfg(blake2_simd_verif)]
+impl<'a> HashManyJob<'a> {
+    #[doc(hidden)]
+    pub fn verif_set_count(&mut self, count: Count) {
+        self.count = count;
+    }
+}
+
 impl<'a> fmt::Debug for HashManyJob<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         // NB: Don't print the words. Leaking them would allow length extension.
-- 
2.43.0


From cfea26b3d169ce16f3b1f80fd66492f577c5d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 2/2] fix: accept file names that are not valid UTF-8 in the
 blake2 tool

structopt parses a plain PathBuf through FromStr, so an argument that is not
UTF-8 made the tool panic instead of hashing the file.
---
 blake2_bin/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blake2_bin/src/main.rs b/blake2_bin/src/main.rs
index 2000321..63f2a01 100644
--- a/blake2_bin/src/main.rs
+++ b/blake2_bin/src/main.rs
@@ -9,6 +9,7 @@ use structopt::StructOpt;
 
 #[derive(Debug, StructOpt)]
 struct Opt {
+    #[structopt(parse(from_os_str))]
     /// Any number of filepaths, or empty for standard input.
     inputs: Vec<PathBuf>,
 
-- 
2.43.0

