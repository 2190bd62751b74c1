From 253c6c9a852763b3a54dd956a5f50e3fb752a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 01/51] fix: compare inverse counts with the inverse threshold
 in botk

The callback that merges a file's local result compared the inverse count
(u32::MAX - count) with --threshold itself. With the default threshold of
u32::MAX nothing passed, so botk always printed nothing.
---
 src/cmd/botk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index bdcf1c1..b4c224e 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -10,7 +10,7 @@ use std::time::Duration;
 use anyhow::{bail, Result};
 use atomic_traits::Atomic;
 use console::style;
-use num_traits::{NumCast, One};
+use num_traits::One;
 use rand::{random, rngs::StdRng, seq::SliceRandom, SeedableRng};
 use serde_json::json;
 use structopt::StructOpt;
@@ -272,7 +272,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         // global top-k.
         let sync_local_topk = {
             let min_count = topk.min_count();
-            let threshold = <<AtomicU32 as Atomic>::Type as NumCast>::from(opt.threshold).unwrap();
+            let threshold = u32::MAX - opt.threshold;
             let tx = tx.clone();
 
             move |mut local_topk: TopKNgrams<String, AtomicU32>| -> Result<()> {
-- 
2.43.0


From 1c02716bddb4b31a3c33e58ad3fb545bea9e3ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 02/51] fix: make --seed reproducible across processes

ahash's `RandomState::with_seed` mixes in keys that are random per process
with the runtime-rng feature, so the same --seed gave different hash
functions in every run. Derive all four keys of each hash function from the
seed. This also removes the overflow of `seed + i` for the largest seeds.
---
 src/ngrams/counter.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index f2b22ed..f24f162 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -5,6 +5,7 @@ use ahash::RandomState;
 use anyhow::{Context, Result};
 use atomic_traits::{Atomic, NumOps};
 use num_traits::{Bounded, NumCast, One, SaturatingSub, Zero};
+use rand::{rngs::StdRng, Rng, SeedableRng};
 
 pub trait AsIterator<'a, T: 'a> {
     type Iterator: Iterator<Item = &'a T>;
@@ -75,9 +76,14 @@ where
 
         // Initialize hash builders
         let mut hash_builders = Vec::with_capacity(num_hash_functions);
-        for i in 0..num_hash_functions {
-            let hash_builder = match seed {
-                Some(seed) => RandomState::with_seed((seed as usize) + i),
+        // NOTE: `RandomState::with_seed()` mixes in keys that are chosen at random once per process, so
+        // we derive all of the keys from our seed to get the same hash functions in every process.
+        let mut rng = seed.map(StdRng::seed_from_u64);
+        for _ in 0..num_hash_functions {
+            let hash_builder = match rng {
+                Some(ref mut rng) => {
+                    RandomState::with_seeds(rng.gen(), rng.gen(), rng.gen(), rng.gen())
+                }
                 None => RandomState::new(),
             };
             hash_builders.push(hash_builder);
-- 
2.43.0


From 3de90ae4591b24ff3951161a7a578b30717e26bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 03/51] fix: estimate the number of unique ngrams, not of set
 slots

unique reported the number of non-zero slots of the Bloom filter, which is
about --hashes (by default 5) times the number of distinct ngrams. Use the
standard cardinality estimate for Bloom filters.
---
 src/cmd/unique.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/cmd/unique.rs b/src/cmd/unique.rs
index 806c444..d1cf208 100644
--- a/src/cmd/unique.rs
+++ b/src/cmd/unique.rs
@@ -145,7 +145,8 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     executor.join()?;
 
     log::info!("Counting unique ngrams...");
-    let unique_count = ngram_counts.nonzero();
+    let unique_count =
+        estimate_cardinality(ngram_counts.nonzero(), counter_size, opt.hashes as u64);
 
     if opt.json {
         let json_out = &json!({
@@ -159,3 +160,16 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     Ok(())
 }
+
+/// Estimate the number of distinct items in a Bloom filter with `size` slots and `hashes` hash functions
+/// from the number of slots that are set.
+fn estimate_cardinality(set: u64, size: u64, hashes: u64) -> u64 {
+    if set == 0 {
+        return 0;
+    }
+    let (size, hashes) = (size as f64, hashes as f64);
+    // When every slot is set we only have a lower bound, so we pretend that half a slot isn't.
+    let unset = (size - set as f64).max(0.5);
+    let estimate = -(size / hashes) * (unset / size).ln();
+    std::cmp::max(1, estimate.round() as u64)
+}
-- 
2.43.0


From 4d84c76deaafa8dda481e0db4cdddaa954e3f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 04/51] fix: collect all results from workers before finishing

topk, botk and search stopped receiving as soon as no worker was active (or
about to be, as seen between two polls), possibly with results still in the
channel, which were then lost. With a full channel and a failed worker they
stopped receiving while other workers were still blocked on sending, and
joining them never returned. Receive until all senders are gone instead.
---
 src/cmd/botk.rs   | 12 +++---------
 src/cmd/search.rs | 19 +++++++------------
 src/cmd/topk.rs   | 12 +++---------
 src/cmd/util.rs   | 10 ----------
 4 files changed, 13 insertions(+), 40 deletions(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index b4c224e..96b9712 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -5,7 +5,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU32, Ordering};
 use std::sync::mpsc::sync_channel;
 use std::sync::Arc;
-use std::time::Duration;
 
 use anyhow::{bail, Result};
 use atomic_traits::Atomic;
@@ -303,14 +302,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     drop(tx);
 
-    // Collect ngrams and counts from channel until all jobs are done.
-    while !executor.done() {
-        while let Ok((ngram, count)) = rx.recv_timeout(Duration::from_secs(1)) {
-            topk.insert(ngram, count);
-            if executor.has_errors() {
-                break;
-            }
-        }
+    // Collect ngrams and counts from channel until all jobs are done, i.e. until all senders are gone.
+    for (ngram, count) in rx {
+        topk.insert(ngram, count);
     }
 
     executor.join()?;
diff --git a/src/cmd/search.rs b/src/cmd/search.rs
index e8cf0e2..aadf077 100644
--- a/src/cmd/search.rs
+++ b/src/cmd/search.rs
@@ -5,7 +5,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::mpsc::{sync_channel, Receiver, SyncSender};
 use std::sync::Arc;
-use std::time::Duration;
 
 use ahash::RandomState;
 use anyhow::{bail, Result};
@@ -225,20 +224,16 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
 
     drop(tx);
 
-    while !executor.done() {
-        if let Some(ref rx) = rx {
-            while let Ok((pattern, path, matches)) = rx.recv_timeout(Duration::from_secs(1)) {
-                let matches_for_pattern: &mut HashMap<
-                    PathBuf,
-                    Vec<MatchLocation>,
-                    ahash::RandomState,
-                > = match_locations
+    // Collect matches from channel until all jobs are done, i.e. until all senders are gone.
+    if let Some(rx) = rx {
+        for (pattern, path, matches) in rx {
+            let matches_for_pattern: &mut HashMap<PathBuf, Vec<MatchLocation>, ahash::RandomState> =
+                match_locations
                     .as_mut()
                     .map(|m| m.get_mut(&pattern).unwrap())
                     .unwrap();
-                if !matches.is_empty() {
-                    matches_for_pattern.insert(path.clone(), matches);
-                }
+            if !matches.is_empty() {
+                matches_for_pattern.insert(path, matches);
             }
         }
     }
diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index 6ad1d44..33f88d7 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -6,7 +6,6 @@ use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
 use std::sync::mpsc::sync_channel;
 use std::sync::Arc;
-use std::time::Duration;
 
 use anyhow::{bail, Result};
 use atomic_traits::{Atomic, NumOps};
@@ -274,14 +273,9 @@ where
 
     drop(tx);
 
-    // Collect ngrams and counts from channel until all jobs are done.
-    while !executor.done() {
-        while let Ok((ngram, count)) = rx.recv_timeout(Duration::from_secs(1)) {
-            topk.insert(ngram, count);
-            if executor.has_errors() {
-                break;
-            }
-        }
+    // Collect ngrams and counts from channel until all jobs are done, i.e. until all senders are gone.
+    for (ngram, count) in rx {
+        topk.insert(ngram, count);
     }
 
     executor.join()?;
diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 0f209fb..ffc6c4f 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -250,16 +250,6 @@ impl DataExecutor {
         Ok(())
     }
 
-    pub(crate) fn done(&self) -> bool {
-        (self.pool.active_count() == 0 && self.pool.queued_count() == 0)
-            || self.pool.panic_count() > 0
-            || self.early_exit.load(Ordering::Relaxed)
-    }
-
-    pub(crate) fn has_errors(&self) -> bool {
-        self.early_exit.load(Ordering::Relaxed)
-    }
-
     pub(crate) fn join(&self) -> Result<()> {
         self.pool.join();
 
-- 
2.43.0


From 583e5774ec355e98a82cf8d4b289ddfdccd05b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 05/51] fix: don't lose concurrent updates in the ngram counter

With two or more hash functions, threads incrementing the same ngram could
each observe the other's update only in different slots, so that the largest
count returned was below the true count and topk under-reported it. Read all
slots again after updating them, so that the last thread to finish sees all
updates. A count at the limit of the type could also be seen wrapped around
by other threads, and updates in between were lost; clamp atomically.
---
 src/ngrams/counter.rs | 78 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 16 deletions(-)

diff --git a/src/ngrams/counter.rs b/src/ngrams/counter.rs
index f24f162..4d07f39 100644
--- a/src/ngrams/counter.rs
+++ b/src/ngrams/counter.rs
@@ -124,16 +124,21 @@ where
         for i in 0..self.num_hash_functions {
             let hash = self.hash(&mut ngram.as_iter(), i);
             let index = self.index_for_hash(hash);
-            let old_count = self.count_array[index].fetch_add(by.clone(), Ordering::Relaxed);
-            let count = if old_count > <A as Atomic>::Type::max_value() - by.clone() {
-                // Catch overflows and just keep as MAX.
-                self.count_array[index].store(<A as Atomic>::Type::max_value(), Ordering::Relaxed);
-                <A as Atomic>::Type::max_value()
-            } else {
-                old_count + by.clone()
-            };
+            let count = self.update(index, |old_count| {
+                if old_count > <A as Atomic>::Type::max_value() - by.clone() {
+                    // Catch overflows and just keep as MAX.
+                    <A as Atomic>::Type::max_value()
+                } else {
+                    old_count + by.clone()
+                }
+            });
             min_count = std::cmp::min(min_count, count);
         }
+        if self.num_hash_functions > 1 {
+            // Other threads may have incremented the same ngram in the meantime, such that none of us saw the
+            // total in all slots at the time we incremented them. So we have to look at all of them again.
+            min_count = std::cmp::max(min_count, self.min_count(ngram));
+        }
         min_count
     }
 
@@ -152,19 +157,40 @@ where
         for i in 0..self.num_hash_functions {
             let hash = self.hash(&mut ngram.as_iter(), i);
             let index = self.index_for_hash(hash);
-            let old_count = self.count_array[index].fetch_sub(by.clone(), Ordering::Relaxed);
-            let count = if old_count < by {
-                // Catch underflows and just keep as 0.
-                self.count_array[index].store(<A as Atomic>::Type::zero(), Ordering::Relaxed);
-                <A as Atomic>::Type::zero()
-            } else {
-                old_count - by.clone()
-            };
+            let count = self.update(index, |old_count| {
+                if old_count < by {
+                    // Catch underflows and just keep as 0.
+                    <A as Atomic>::Type::zero()
+                } else {
+                    old_count - by.clone()
+                }
+            });
             max_count = std::cmp::max(max_count, count);
         }
+        if self.num_hash_functions > 1 {
+            // See the note in `increment()`.
+            max_count = std::cmp::min(max_count, self.max_count(ngram));
+        }
         max_count
     }
 
+    /// Get the min count for an ngram across all hash functions.
+    fn min_count<'a, N, I, T>(&self, ngram: &'a N) -> <A as Atomic>::Type
+    where
+        N: AsIterator<'a, T, Iterator = I> + ?Sized,
+        I: Iterator<Item = &'a T>,
+        T: 'a + Hash,
+    {
+        let mut min_count = <A as Atomic>::Type::max_value();
+        for i in 0..self.num_hash_functions {
+            let hash = self.hash(&mut ngram.as_iter(), i);
+            let index = self.index_for_hash(hash);
+            let count = self.count_array[index].load(Ordering::Relaxed);
+            min_count = std::cmp::min(min_count, count);
+        }
+        min_count
+    }
+
     /// Get the max count for an ngram across all hash functions.
     pub fn max_count<'a, N, I, T>(&self, ngram: &'a N) -> <A as Atomic>::Type
     where
@@ -182,6 +208,26 @@ where
         max_count
     }
 
+    /// Atomically replace the count at an index, returning the new count.
+    fn update<F>(&self, index: usize, f: F) -> <A as Atomic>::Type
+    where
+        F: Fn(<A as Atomic>::Type) -> <A as Atomic>::Type,
+    {
+        let mut old_count = self.count_array[index].load(Ordering::Relaxed);
+        loop {
+            let new_count = f(old_count.clone());
+            match self.count_array[index].compare_exchange_weak(
+                old_count,
+                new_count.clone(),
+                Ordering::Relaxed,
+                Ordering::Relaxed,
+            ) {
+                Ok(_) => return new_count,
+                Err(count) => old_count = count,
+            }
+        }
+    }
+
     fn hash<I, T>(&self, ngram: &mut I, hasher: usize) -> usize
     where
         I: Iterator<Item = T> + ?Sized,
-- 
2.43.0


From 92b7addbe27cecaa58447bcf3630f1df4efd3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 06/51] fix: drop all outdated min/max document pointers in
 stats

Pruning stopped at the first pointer that was still good. When two files
were merged at the same time, or within one file with a later, longer
(shorter) document, outdated pointers could end up behind good ones and were
reported as documents with the most (fewest) tokens.
---
 src/cmd/stats.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/cmd/stats.rs b/src/cmd/stats.rs
index bf2344a..2c19e5a 100644
--- a/src/cmd/stats.rs
+++ b/src/cmd/stats.rs
@@ -322,26 +322,14 @@ impl Stats<Arc<AtomicUsize>> {
             .max_token_documents
             .lock()
             .map_err(|_| anyhow!("Failed to acquire lock"))?;
-        while let Some(doc_pointer) = (*max_token_documents).front() {
-            if doc_pointer.num_tokens < current_max {
-                (*max_token_documents).pop_front();
-            } else {
-                break;
-            }
-        }
+        max_token_documents.retain(|doc_pointer| doc_pointer.num_tokens >= current_max);
 
         let current_min = self.document_min_tokens.load(Ordering::Relaxed);
         let mut min_token_documents = self
             .min_token_documents
             .lock()
             .map_err(|_| anyhow!("Failed to acquire lock"))?;
-        while let Some(doc_pointer) = (*min_token_documents).front() {
-            if doc_pointer.num_tokens > current_min {
-                (*min_token_documents).pop_front();
-            } else {
-                break;
-            }
-        }
+        min_token_documents.retain(|doc_pointer| doc_pointer.num_tokens <= current_min);
 
         Ok(())
     }
-- 
2.43.0


From 8f4cb3bab8500aa9d16722c5b34bad10f0b89168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 07/51] fix: truncate the output file when overwriting with
 --force

Otherwise the end of a longer previous result stays in the file.
---
 src/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 2203fe0..1d41046 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -15,7 +15,10 @@ pub(crate) fn get_output_file(path: impl AsRef<Path>, force: bool) -> Result<(Fi
                 path
             );
         }
-        Ok((File::options().write(true).open(path)?, path.into()))
+        Ok((
+            File::options().write(true).truncate(true).open(path)?,
+            path.into(),
+        ))
     } else {
         if let Some(parent) = path.parent() {
             fs::create_dir_all(parent)?;
-- 
2.43.0


From 32367e1e51c41e6fcc1b46a21b99582b013e6cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 08/51] fix: take directory names literally when looking for
 input files

Characters such as [ or * in the name of an input directory were interpreted
as part of the glob pattern, finding files in other directories, or none.
---
 src/cmd/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index ffc6c4f..0e6a5fb 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -5,7 +5,7 @@ use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
 
 use anyhow::{anyhow, bail, Context, Result};
-use glob::glob;
+use glob::{glob, Pattern};
 use humantime::format_duration;
 use parse_size::parse_size;
 use serde::Deserialize;
@@ -313,7 +313,7 @@ pub(crate) fn expand_dirs(paths: &[PathBuf]) -> Result<Vec<PathBuf>> {
                 .to_str()
                 .ok_or_else(|| anyhow!("invalid path '{}'", path.to_string_lossy()))?;
             let mut num_hits = 0;
-            for entry in glob(&format!("{}/**/*.json*.gz", path_str))? {
+            for entry in glob(&format!("{}/**/*.json*.gz", Pattern::escape(path_str)))? {
                 files.push(entry?.to_path_buf());
                 num_hits += 1;
             }
-- 
2.43.0


From 0e0194b690a4e9eb794c5550347c04f696b810f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 09/51] fix: always report a failure when a worker panics

The thread pool counts a panicked job as finished before it counts the
panic, so that join() could see all jobs finished and no panic, and the
command would print a partial result and succeed.
---
 src/cmd/util.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index 0e6a5fb..f7fb9c1 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -2,6 +2,7 @@ use std::io;
 use std::path::{Path, PathBuf};
 use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 use std::sync::{Arc, Mutex};
+use std::thread;
 use std::time::{Duration, Instant};
 
 use anyhow::{anyhow, bail, Context, Result};
@@ -205,6 +206,8 @@ impl DataExecutor {
         let error_count = self.error_count.clone();
 
         self.pool.execute(move || {
+            // A panic has to be recorded before the pool considers this job finished.
+            let _panic_guard = PanicGuard(early_exit.clone());
             let mut retries = 0;
             loop {
                 match process_file(
@@ -290,6 +293,17 @@ impl DataExecutor {
     }
 }
 
+/// Sets a flag when dropped because of a panic.
+struct PanicGuard(Arc<AtomicBool>);
+
+impl Drop for PanicGuard {
+    fn drop(&mut self) {
+        if thread::panicking() {
+            self.0.store(true, Ordering::Relaxed);
+        }
+    }
+}
+
 pub(crate) fn parse_size_default_to_gb(src: &str) -> Result<u64, parse_size::Error> {
     let mut has_unit = false;
     for c in src.chars() {
-- 
2.43.0


From 056c3ffb4a0f4171b73d81396305ab974385c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 10/51] fix: reject a --size too small for a single count

Sizes of 1 to 3 bytes (7 with --u64) made every worker panic.
---
 src/cmd/botk.rs | 3 +++
 src/cmd/topk.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index 96b9712..3da45c1 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -112,6 +112,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     if opt.size == 0 {
         bail!("--size must be greater than 0");
     }
+    if opt.size < 4 {
+        bail!("--size is too small for a single count");
+    }
     if opt.hashes == 0 {
         bail!("-h/--hashes must be greater than 0");
     }
diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index 33f88d7..651352a 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -112,6 +112,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     if opt.size == 0 {
         bail!("--size must be greater than 0");
     }
+    if opt.size < if opt.use_u64 { 8 } else { 4 } {
+        bail!("--size is too small for a single count");
+    }
     if opt.hashes == 0 {
         bail!("-h/--hashes must be greater than 0");
     }
-- 
2.43.0


From 3b259ddcd4ef3473dd5767a05a3a6ee8759627dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 11/51] fix: require a path for topk

All other commands do; topk printed nothing and succeeded.
---
 src/cmd/topk.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmd/topk.rs b/src/cmd/topk.rs
index 651352a..82c2df5 100644
--- a/src/cmd/topk.rs
+++ b/src/cmd/topk.rs
@@ -106,6 +106,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
     opt.path = expand_dirs(&opt.path)?;
 
     // Validate arguments.
+    if opt.path.is_empty() {
+        bail!("at least one path is required");
+    }
     if opt.topk == 0 {
         bail!("-k/--topk must be greater than 0");
     }
-- 
2.43.0


From 0bc524cd24fc23cb5d3cd13cb86a27a90906dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 12/51] fix: reject NaN for --p-keep

---
 src/cmd/botk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd/botk.rs b/src/cmd/botk.rs
index 3da45c1..429b82a 100644
--- a/src/cmd/botk.rs
+++ b/src/cmd/botk.rs
@@ -125,7 +125,7 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         opt.path.truncate(file_limit);
     }
     if let Some(p_keep) = opt.p_keep {
-        if p_keep <= 0.0 || p_keep > 1.0 {
+        if !(p_keep > 0.0 && p_keep <= 1.0) {
             bail!("--p-keep must be between in the interval (0, 1]");
         }
     }
-- 
2.43.0


From 8f9151a3f8e52562c01200de3a52a04ef5e7a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 13/51] fix: reject search terms without tokens in count

The empty token sequence "occurred" at every position.
---
 src/cmd/count.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmd/count.rs b/src/cmd/count.rs
index 18eb608..38f3bdd 100644
--- a/src/cmd/count.rs
+++ b/src/cmd/count.rs
@@ -94,6 +94,9 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
         } else {
             tokenize(search).map(|t| t.into()).collect()
         };
+        if search_tokens.is_empty() {
+            bail!("-s/--search term {:?} contains no tokens", search);
+        }
         min_search_length = std::cmp::min(min_search_length, search_tokens.len());
         counts.insert(search_tokens, Arc::new(AtomicUsize::new(0)));
     }
-- 
2.43.0


From 50be6a0c48cc275a7e5eb80859ff98f9940061e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 14/51] fix: repeat interrupted reads of gzip files

flate2 1.0.26's gzip decoder enters its end state when the reader below fails
with Interrupted. BufRead::read_line repeats interrupted reads, then met a
clean end of the file: the rest of the file was silently left out.
---
 src/io.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index ade2e2a..b419c44 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -9,9 +9,24 @@ use std::{
 use anyhow::Result;
 use flate2::read::MultiGzDecoder;
 
+/// A file whose interrupted reads are repeated right away. The gzip decoder would forget about the
+/// rest of the file after an interruption, and whoever repeats the read after it sees a clean end.
+struct UninterruptedFile(File);
+
+impl Read for UninterruptedFile {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            match self.0.read(buf) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                result => return result,
+            }
+        }
+    }
+}
+
 /// A buffered reader for gzip files.
 pub struct GzBufReader {
-    reader: io::BufReader<MultiGzDecoder<File>>,
+    reader: io::BufReader<MultiGzDecoder<UninterruptedFile>>,
     buf: Rc<String>,
 }
 
@@ -21,7 +36,7 @@ fn new_buf() -> Rc<String> {
 
 impl GzBufReader {
     pub fn open(path: impl AsRef<std::path::Path>) -> Result<Self> {
-        let reader = io::BufReader::new(MultiGzDecoder::new(File::open(path)?));
+        let reader = io::BufReader::new(MultiGzDecoder::new(UninterruptedFile(File::open(path)?)));
         let buf = new_buf();
 
         Ok(Self { reader, buf })
-- 
2.43.0


From 5dbafa6706df52b60f0b1533e6acdce9aa500a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 15/51] fix: do not treat directories found by globbing as
 input files

A subdirectory named like shard.json.gz made every command fail.
---
 src/cmd/util.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index f7fb9c1..e772846 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -328,7 +328,12 @@ pub(crate) fn expand_dirs(paths: &[PathBuf]) -> Result<Vec<PathBuf>> {
                 .ok_or_else(|| anyhow!("invalid path '{}'", path.to_string_lossy()))?;
             let mut num_hits = 0;
             for entry in glob(&format!("{}/**/*.json*.gz", Pattern::escape(path_str)))? {
-                files.push(entry?.to_path_buf());
+                let file = entry?.to_path_buf();
+                if file.is_dir() {
+                    // Directories can have such names too, the files within are matched separately.
+                    continue;
+                }
+                files.push(file);
                 num_hits += 1;
             }
             if num_hits == 0 {
-- 
2.43.0


From 29b509de6836b0bc0e647f4d86369850c1c6d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 16/51] fix: take --size numbers with an exponent but without a
 unit as GiB

---
 src/cmd/util.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/cmd/util.rs b/src/cmd/util.rs
index e772846..eed2f8e 100644
--- a/src/cmd/util.rs
+++ b/src/cmd/util.rs
@@ -8,7 +8,6 @@ use std::time::{Duration, Instant};
 use anyhow::{anyhow, bail, Context, Result};
 use glob::{glob, Pattern};
 use humantime::format_duration;
-use parse_size::parse_size;
 use serde::Deserialize;
 use thousands::Separable;
 use threadpool::ThreadPool;
@@ -305,18 +304,10 @@ impl Drop for PanicGuard {
 }
 
 pub(crate) fn parse_size_default_to_gb(src: &str) -> Result<u64, parse_size::Error> {
-    let mut has_unit = false;
-    for c in src.chars() {
-        if c.is_alphabetic() {
-            has_unit = true;
-            break;
-        }
-    }
-    if has_unit {
-        parse_size(src)
-    } else {
-        parse_size(format!("{src}GiB"))
-    }
+    // NOTE: a letter doesn't make a unit, it could also be the exponent of a number.
+    parse_size::Config::new()
+        .with_default_factor(1 << 30)
+        .parse_size(src)
 }
 
 pub(crate) fn expand_dirs(paths: &[PathBuf]) -> Result<Vec<PathBuf>> {
-- 
2.43.0


From f1f8a2714d5292ca95208523bbec8c5875fded8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:06 +0000
Subject: [PATCH 17/51] fix: don't reserve room for k n-grams in advance

A large -k made every command fail that could otherwise list all of the n-grams.
---
 src/ngrams/topk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ngrams/topk.rs b/src/ngrams/topk.rs
index b4d7ffc..96009da 100644
--- a/src/ngrams/topk.rs
+++ b/src/ngrams/topk.rs
@@ -32,7 +32,7 @@ where
         Self {
             k,
             topk: BTreeSet::new(),
-            ngrams: HashMap::with_capacity_and_hasher(k + 1, RandomState::new()),
+            ngrams: HashMap::with_hasher(RandomState::new()),
             min_count: <A as Atomic>::Type::one(),
             min_count_atomic: Arc::new(<A as Atomic>::new(<A as Atomic>::Type::one())),
         }
@@ -81,7 +81,7 @@ where
     }
 
     pub fn drain(&mut self) -> Vec<(Rc<Vec<T>>, <A as Atomic>::Type)> {
-        let mut out: Vec<(Rc<Vec<T>>, <A as Atomic>::Type)> = Vec::with_capacity(self.k);
+        let mut out: Vec<(Rc<Vec<T>>, <A as Atomic>::Type)> = Vec::with_capacity(self.topk.len());
         while let Some((count, ngram)) = self.topk.pop_last() {
             self.ngrams.remove(&ngram);
             out.push((ngram, count))
-- 
2.43.0


From 3d82bac14cb6e7dd929ea9048f9a7568a0c8cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 18/51] fix: taxonomy patterns end with a word boundary, not a
 backspace character

---
 wimbd/profanity/map_count.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wimbd/profanity/map_count.py b/wimbd/profanity/map_count.py
index c4a589f..a14923a 100644
--- a/wimbd/profanity/map_count.py
+++ b/wimbd/profanity/map_count.py
@@ -77,9 +77,9 @@ def load_taxonomy():
     offensive_min = df[df['categorization'] == 'offensive-minority-reference'].word.tolist()
     offensive_not_min = df[df['categorization'] == 'offensive-not-minority'].word.tolist()
     global harmless_re, offensive_min_re, offensive_not_min_re
-    harmless_re = re.compile(r"\b"+r"\b|\b".join(harmless_min)+"\b",re.IGNORECASE)
-    offensive_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_min)+"\b",re.IGNORECASE)
-    offensive_not_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_not_min)+"\b",re.IGNORECASE)
+    harmless_re = re.compile(r"\b"+r"\b|\b".join(harmless_min)+r"\b",re.IGNORECASE)
+    offensive_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_min)+r"\b",re.IGNORECASE)
+    offensive_not_min_re = re.compile(r"\b"+r"\b|\b".join(offensive_not_min)+r"\b",re.IGNORECASE)
     
     # df = df.replace({'body': {0: 'not-body', 1: 'body'},
     #             'minorityWord': {0: 'not-minority-word', 1: 'minority-word'},
-- 
2.43.0


From 89dc16978c6b5a028338c98f6ca29217337b2a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 19/51] fix: judge the context of every PII match at its own
 position

---
 wimbd/pii/map_count.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/wimbd/pii/map_count.py b/wimbd/pii/map_count.py
index 292a6cd..5191f5a 100644
--- a/wimbd/pii/map_count.py
+++ b/wimbd/pii/map_count.py
@@ -66,11 +66,7 @@ def postprocess_ip_addresses(text_input, match, pii_start, pii_end):
     return True
     
 
-def postprocess_pass(text_input, match, pii_type):
-    match = str("".join(match))
-    pii_start = text_input.find(match)
-    pii_end = pii_start + len(match)
-
+def postprocess_pass(text_input, match, pii_start, pii_end, pii_type):
     if pii_type=="email":
         return postprocess_email(text_input, match, pii_start, pii_end)
     elif pii_type=="phone_numbers":
@@ -82,20 +78,19 @@ def postprocess_pass(text_input, match, pii_type):
 def extract_pii_regex(text_input: str,
                       context_window_one_side: int = 100):
     pii = []
-
+    # lowercasing can change the length, so positions refer to the lowercased text
+    text_input = text_input.lower()
 
     for pii_type in pattern_dict:
         pattern = pattern_dict[pii_type]
-        # search for the pattern in the string
-        matches = pattern.findall(text_input.lower())
         # loop through the matches and print corresponding values from the dictionary
-        for match in matches:
-            
-            match = str("".join(match))
-            pii_start = text_input.find(match)
-            pii_end = pii_start + len(match)
+        for m in pattern.finditer(text_input):
+
+            match = "".join(m.groups()) or m.group()
+            pii_start = m.start(1) if m.groups() else m.start()
+            pii_end = m.end(m.lastindex or 0)
 
-            if postprocess_pass(text_input, match, pii_type):
+            if postprocess_pass(text_input, match, pii_start, pii_end, pii_type):
                 pii.append(pii_type)
 
     return pii
-- 
2.43.0


From 587d6b638acd54417a20eb54e7b829dbb5659565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 20/51] fix: number the distinct hashes of a blocklist, it may
 list one twice

---
 .../helper_scripts/deduplicate_by_hash.py                    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index 093c347..ac9fb39 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -86,8 +86,9 @@ def main(args):
 
     # Add the hashes to the blocklist
     with open(args.blocklist, 'rt') as fin:
-        for i, hash in tqdm(enumerate(fin), desc="Loading blocklist"):
-            blocklist[hash.strip()] = i
+        for hash in tqdm(fin, desc="Loading blocklist"):
+            # a hash can be listed more than once: number the distinct ones
+            blocklist.setdefault(hash.strip(), len(blocklist))
     
     seen_array = np.memmap(args.blocklist+".seen.dat", dtype=bool, mode='w+', shape=len(blocklist))
 
-- 
2.43.0


From cdcd81fd4cb6b74532078dd7f9d11ca4544b2471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 21/51] fix: file_split cut file names at their first dot and
 overwrote other files' parts

---
 wimbd/utils/file_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/utils/file_split.py b/wimbd/utils/file_split.py
index 99fbee0..40448ee 100644
--- a/wimbd/utils/file_split.py
+++ b/wimbd/utils/file_split.py
@@ -21,12 +21,12 @@ def main():
         n = args.n
         chunks = len(data) // n
         for i in range(n - 1):
-            file_split = file.split(".")[0] + f"_{i}.json.gz"
+            file_split = file[:-len(".jsonl.gz")] + f"_{i}.json.gz"
             print(i*chunks, (i+1)*chunks)
             with gzip.open(file_split, 'wt') as f:
                 f.writelines(data[i*chunks:(i+1)*chunks])
         i = n - 1
-        file_split = file.split(".")[0] + f"_{i}.json.gz"
+        file_split = file[:-len(".jsonl.gz")] + f"_{i}.json.gz"
         print(i*chunks, (i+1)*chunks)
         with gzip.open(file_split, 'wt') as f:
             f.writelines(data[i*chunks:])
-- 
2.43.0


From 682adc02d0a5b3e78e4348d0617884f35b40a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 22/51] fix: split_files wrote text to binary streams and
 compared the builtin id with the rows

---
 wimbd/utils/split_files.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index 9e4dec6..1d52355 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -23,13 +23,13 @@ def main():
 
     out_path = os.path.join(args.out_prefix, args.in_file).replace(".jsonl", "").replace(".gz", "")
 
-    test_stream = gzip.open(out_path + ".test.jsonl.gz", "w")
-    valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "w")
-    train_stream = gzip.open(out_path + ".train.jsonl.gz", "w")
+    test_stream = gzip.open(out_path + ".test.jsonl.gz", "wt", encoding="utf-8")
+    valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "wt", encoding="utf-8")
+    train_stream = gzip.open(out_path + ".train.jsonl.gz", "wt", encoding="utf-8")
 
     for row in data:
         text = row['text'] if row['text'] is not None else ""
-        if id in row:
+        if 'id' in row:
             raise ValueError("id already in row")
         row['id'] = hashlib.sha1(text.encode("utf-8")).hexdigest()
 
-- 
2.43.0


From a2c2a85b5af5092a2f3a9baa117f3ca6a9f0bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:56 +0000
Subject: [PATCH 23/51] fix: do not add the c4 subset to the caller's list of
 filters

---
 wimbd/es/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index a69a435..7653825 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -171,7 +171,7 @@ def count_documents_containing_phrases(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     if subset_filter:
         if "filter" not in query["bool"]:
@@ -228,7 +228,7 @@ def get_documents_containing_phrases(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     if subset_filter:
         if "filter" not in query["bool"]:
@@ -303,7 +303,7 @@ def count_documents_for_each_phrase(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     done = False
     generator = iter(phrases)
@@ -380,7 +380,7 @@ def count_total_occurrences_of_unigrams(
         if not subset_filter:
             subset_filter = [{"subset": "en"}]
         else:
-            subset_filter.append({"subset": "en"})
+            subset_filter = [*subset_filter, {"subset": "en"}]
 
     term_freq_dict = {}
     for term in unigrams:
-- 
2.43.0


From 624611e316de064d7500b7bc2decf67921e99977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:56 +0000
Subject: [PATCH 24/51] fix: count_total_occurrences_of_unigrams sent its
 subset filter as an invalid query

---
 wimbd/es/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index 7653825..ab28979 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -388,7 +388,7 @@ def count_total_occurrences_of_unigrams(
         if subset_filter:
             query = {"bool": {"filter": [{"match": {"text": term}}]}}
             for filter_ in subset_filter:
-                query["bool"]["filter"].append(filter_)
+                query["bool"]["filter"].append({"term": filter_})
 
         else:
             query = {"bool": {"filter": {"match": {"text": term}}}}
-- 
2.43.0


From 426e599b43ef301937ee32efad47212e692ab84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 25/51] fix: get_documents_containing_phrases lost hits with
 equal sort values between pages

---
 wimbd/es/__init__.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/wimbd/es/__init__.py b/wimbd/es/__init__.py
index ab28979..22694b0 100644
--- a/wimbd/es/__init__.py
+++ b/wimbd/es/__init__.py
@@ -238,25 +238,26 @@ def get_documents_containing_phrases(
 
     if return_all_hits:
         sort = [{sort_field: "asc"}]
-        pit = es.open_point_in_time(index=index, keep_alive="1m")
-        # pit_search = {"id": pit["id"], "keep_alive": "1m"}
-        # all_results = []
-        results = es.search(index=index, query=query, size=num_documents, sort=sort)[
-            "hits"
-        ]["hits"]
-        yield from results
-        while len(results) > 0:
-            # todo: perhaps we need to refresh pit?
-            results = es.search(
-                index=index,
+        pit_id = es.open_point_in_time(index=index, keep_alive="1m")["id"]
+        search_after = None
+        while True:
+            # Searching the point in time breaks ties of the sort field, so that no
+            # document is lost between two pages.
+            response = es.search(
                 query=query,
                 size=num_documents,
                 sort=sort,
-                search_after=results[-1]["sort"],
-            )["hits"]["hits"]
+                pit={"id": pit_id, "keep_alive": "1m"},
+                search_after=search_after,
+            )
+            pit_id = response.get("pit_id", pit_id)
+            results = response["hits"]["hits"]
+            if len(results) == 0:
+                break
             yield from results
+            search_after = results[-1]["sort"]
         try:
-            es.close_point_in_time(id=pit["id"])
+            es.close_point_in_time(id=pit_id)
         except NotFoundError:
             # Already closed.
             pass
-- 
2.43.0


From 798da953acd988a07d282156e6f39a305f48111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 26/51] fix: random_documents looked the ids of every index up
 in laion2b-en-2

---
 wimbd/es/random_access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/es/random_access.py b/wimbd/es/random_access.py
index 57af2cf..74ba8f0 100644
--- a/wimbd/es/random_access.py
+++ b/wimbd/es/random_access.py
@@ -19,5 +19,5 @@ def random_documents(index_name: str, h5_path: str, n: int):
 
     docs = [ds[x].decode() for x in rand_doc_ids]
 
-    es_docs = es.mget(index="laion2b-en-2", ids=docs)["docs"]
+    es_docs = es.mget(index=index_name, ids=docs)["docs"]
     return es_docs
-- 
2.43.0


From 8f5ae353175f52136311a2e34213fcc17e0ff6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 27/51] fix: random_access used h5py without importing it

---
 wimbd/indexing/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wimbd/indexing/__init__.py b/wimbd/indexing/__init__.py
index ed3b3de..4d63766 100644
--- a/wimbd/indexing/__init__.py
+++ b/wimbd/indexing/__init__.py
@@ -1,5 +1,7 @@
 import random
 
+import h5py
+
 from wimbd.es import es_init
 
 
-- 
2.43.0


From 9c125698417c3b44b9227051231b8d38984abfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 28/51] fix: resuming a download lost examples: skip finished
 batches, write them atomically

---
 wimbd/indexing/huggingface.py | 56 +++++++++++++----------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/wimbd/indexing/huggingface.py b/wimbd/indexing/huggingface.py
index 01e9447..f552411 100644
--- a/wimbd/indexing/huggingface.py
+++ b/wimbd/indexing/huggingface.py
@@ -1,6 +1,5 @@
 import argparse
 import concurrent.futures
-import glob
 import gzip
 import itertools
 import json
@@ -13,16 +12,13 @@ import datasets
 logger = logging.getLogger(__name__)
 
 
-def chunks(iterable, start, size):
-    from itertools import chain, islice
-
+def chunks(iterable, size):
     iterator = iter(iterable)
-    for first in iterator:
-        yield list(
-            itertools.chain(
-                [first], itertools.islice(iterator, start, start + size - 1)
-            )
-        )
+    while True:
+        chunk = list(itertools.islice(iterator, size))
+        if not chunk:
+            return
+        yield chunk
 
 
 def save_dataset_as_jsonl(
@@ -41,38 +37,21 @@ def save_dataset_as_jsonl(
 
     for split in dataset:
         ds = dataset[split]
-        try:
-            start = max(
-                [
-                    int(path.split(".jsonl.gz")[0].split("_")[-1])
-                    for path in glob.glob(
-                        os.path.join(output_dir, split + "_*.jsonl.gz")
-                    )
-                ]
-            )
-        except ValueError:
-            start = 0
-        # Group the streaming examples into batches of batch_size
-        batches = itertools.islice(ds, start, None, batch_size)
-
-        if start != 0:
-            logger.warning(f"Already processed until batch {start-1}. Continuing.")
-
         def _update_example(example: dict):
             example["text"] = example.pop(text_field)
             return example
 
-        def _func(batch_number, batch, split):
+        def _func(batch_number, batch, split, batch_filename):
             logger.warning(f"Processing batch number {split}-{batch_number}")
             batch_jsonl = "\n".join(
                 json.dumps(_update_example(example)) for example in batch
             )
 
-            batch_filename = os.path.join(
-                output_dir, f"{split}_{batch_number}.jsonl.gz"
-            )
-            with gzip.open(batch_filename, "wt", encoding="utf-8") as f:
+            # A batch gets its name when it is complete, so that the files an interrupted
+            # download leaves behind are complete.
+            with gzip.open(batch_filename + ".tmp", "wt", encoding="utf-8") as f:
                 f.write(batch_jsonl)
+            os.replace(batch_filename + ".tmp", batch_filename)
 
         # Loop through the batches and save each batch as a gzipped JSONL file
 
@@ -81,9 +60,16 @@ def save_dataset_as_jsonl(
             thread_name_prefix="save_dataset_as_jsonl-",
         ) as executor:
             futures = []
-            for i, batch in enumerate(chunks(iter(ds), start, batch_size - 1)):
-                batch_number = start + i
-                futures.append(executor.submit(_func, batch_number, batch, split))
+            for batch_number, batch in enumerate(chunks(ds, batch_size)):
+                batch_filename = os.path.join(
+                    output_dir, f"{split}_{batch_number}.jsonl.gz"
+                )
+                if os.path.exists(batch_filename):
+                    logger.warning(f"Already processed batch {split}-{batch_number}.")
+                    continue
+                futures.append(
+                    executor.submit(_func, batch_number, batch, split, batch_filename)
+                )
             for future in concurrent.futures.as_completed(futures):
                 future.result()
 
-- 
2.43.0


From 36fb8f5f3aaaa70aea08f9420130ca1103d539e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 29/51] fix: indexing failed on documents whose text is null
 instead of leaving them out

---
 wimbd/indexing/index_json_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wimbd/indexing/index_json_files.py b/wimbd/indexing/index_json_files.py
index c5e6fbc..e0e4ea6 100644
--- a/wimbd/indexing/index_json_files.py
+++ b/wimbd/indexing/index_json_files.py
@@ -59,7 +59,8 @@ def main():
 
     def make_action(filename, line_number, line):
         doc = json.loads(line)
-        doc["text"] = doc.pop(args.text_field)[: args.max_doc_size]
+        text = doc.pop(args.text_field)
+        doc["text"] = text[: args.max_doc_size] if text is not None else None
         for field in skip_fields:
             doc.pop(field, None)
         if args.id_field is None:
-- 
2.43.0


From caecb37f209f6ff8bfeae8a67e28510145aec288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 30/51] fix: saving ids failed on a file without any document
 to index

---
 wimbd/indexing/index_json_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/indexing/index_json_files.py b/wimbd/indexing/index_json_files.py
index e0e4ea6..cf270c7 100644
--- a/wimbd/indexing/index_json_files.py
+++ b/wimbd/indexing/index_json_files.py
@@ -124,7 +124,7 @@ def main():
                     {str(k): v for k, v in result_counts.items()}, refresh=False
                 )
 
-            if args.save_ids_file:
+            if args.save_ids_file and len(result_ids) > 0:
                 with h5py.File(args.save_ids_file, "a") as f:
                     dset = f["ids"]
                     new_size = dset.shape[0] + len(result_ids)
-- 
2.43.0


From bf6b0b00560b000a381e4ae127a90fc84468d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 31/51] fix: ids longer than 40 bytes were cut when they were
 saved

---
 wimbd/indexing/index_json_files.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wimbd/indexing/index_json_files.py b/wimbd/indexing/index_json_files.py
index cf270c7..c3044bb 100644
--- a/wimbd/indexing/index_json_files.py
+++ b/wimbd/indexing/index_json_files.py
@@ -75,7 +75,9 @@ def main():
 
     if args.save_ids_file:
         with h5py.File(args.save_ids_file, "w") as f:
-            dset = f.create_dataset("ids", shape=(0,), maxshape=(None,), dtype="S40")
+            dset = f.create_dataset(
+                "ids", shape=(0,), maxshape=(None,), dtype=h5py.string_dtype()
+            )
 
     if index not in get_indices(es=es):
         logger.info(
@@ -129,7 +131,7 @@ def main():
                     dset = f["ids"]
                     new_size = dset.shape[0] + len(result_ids)
                     dset.resize((new_size,))
-                    dset[-len(result_ids) :] = np.array(result_ids, dtype="S40")
+                    dset[-len(result_ids) :] = np.array(result_ids, dtype=object)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 2533303ae4f83ad930fe27ebdbea9df4b65a8540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 32/51] fix: write the list of urls as a whole, a partial list
 was resumed with urls missing

---
 preparation/stack/get_urls.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/preparation/stack/get_urls.py b/preparation/stack/get_urls.py
index ae134d4..edd3e24 100644
--- a/preparation/stack/get_urls.py
+++ b/preparation/stack/get_urls.py
@@ -1,5 +1,6 @@
 import argparse
 import json
+import os
 from typing import Dict, List
 
 import tqdm
@@ -88,7 +89,10 @@ if __name__ == "__main__":
         urls = list_stack_files(langs, lang_idx, sum([len(v) for v in lang_urls.values()]), args.version)
         lang_urls.update(urls)
 
-    with open(args.output_file, "w+") as f:
+    # a list cut off by an interruption would be resumed as if its last language were complete
+    temp_file = args.output_file + ".tmp"
+    with open(temp_file, "w+") as f:
         for _, urls in lang_urls.items():
             for url in urls:
                 f.write(url + "\n")
+    os.replace(temp_file, args.output_file)
-- 
2.43.0


From a764af54f562e387e9315bc7b9aa0ed2949a4468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 33/51] fix: a download that was interrupted left an incomplete
 file that was never replaced

---
 preparation/stack/download_url.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preparation/stack/download_url.py b/preparation/stack/download_url.py
index 4051363..711dd24 100644
--- a/preparation/stack/download_url.py
+++ b/preparation/stack/download_url.py
@@ -66,8 +66,11 @@ def _save_url_as_jsonl(url: str, output_path: str):
         added=datetime.utcnow().isoformat(),
     )
     js = df.to_json(orient="records", lines=True)
-    with gzip.open(output_path, "wt") as f:
+    # an incomplete file would be taken for the finished one by the next attempt
+    temp_path = output_path + ".tmp"
+    with gzip.open(temp_path, "wt") as f:
         f.write(js)
+    os.replace(temp_path, output_path)
 
 
 def download(url: str, output_dir: str):
-- 
2.43.0


From 70d2fe3bcbc7b0e7a3a711b6f51ecd1cee26ebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 34/51] fix: download_url.sh never downloaded files that did
 not exist yet

---
 preparation/stack/download_url.sh | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/preparation/stack/download_url.sh b/preparation/stack/download_url.sh
index 79034ee..878fa74 100755
--- a/preparation/stack/download_url.sh
+++ b/preparation/stack/download_url.sh
@@ -10,10 +10,7 @@ DOWNLOAD_PATH=$LOCAL_DIR/$LANG/$JSONL_FILENAME
 
 # DEST_EXISTS=$(aws s3 ls $dest_path)
 
-DOWNLOAD_SIZE=$(ls -s $DOWNLOAD_PATH)
-EMPTY_SIZE_STR='0 '$DOWNLOAD_PATH
-
-if [[ "$DOWNLOAD_SIZE" == *"$EMPTY_SIZE_STR"* ]]
+if [[ ! -s $DOWNLOAD_PATH ]]
 # if [[ ! -f $DOWNLOAD_PATH ]]
 then
     # echo $SOURCE_PATH $DEST_PATH
-- 
2.43.0


From 2ef57143edc2b8bbfbbd0713409ff7479a89862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 35/51] fix: the language of mC4 documents from training files
 was recorded as xx.tfrecord

---
 preparation/mc4/mc4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preparation/mc4/mc4.py b/preparation/mc4/mc4.py
index 1cf816a..819c754 100644
--- a/preparation/mc4/mc4.py
+++ b/preparation/mc4/mc4.py
@@ -52,7 +52,8 @@ def main():
     def process_object(o: storage.Blob) -> int:
         input_filename = blob_to_name(o)
         output_filename = input_name_to_output_name(input_filename)
-        language = input_filename.split("-", 2)[1]
+        # c4-af.tfrecord-00000-of-00001 or c4-af-validation.tfrecord-00000-of-00001
+        language = input_filename.split(".", 1)[0].split("-", 2)[1]
         document_count = 0
         with tempfile.NamedTemporaryFile("wb+", prefix="mC4-", suffix=".tfrecords") as f:
             o.download_to_file(f)
-- 
2.43.0


From bcce15a8d2f737b1c86dc7cfbe2a21e0d83004be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 36/51] fix: get_dataset replaced the templates of a dataset
 that was already open, changes through the two were lost

---
 wimbd/contamination/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wimbd/contamination/templates.py b/wimbd/contamination/templates.py
index 0347909..15b2767 100644
--- a/wimbd/contamination/templates.py
+++ b/wimbd/contamination/templates.py
@@ -516,7 +516,7 @@ class TemplateCollection:
         :param subset_name: name of the subset
         """
         # if the dataset does not exist, we add it
-        if dataset_name not in self.keys:
+        if (dataset_name, subset_name) not in self.datasets_templates:
             self.datasets_templates[(dataset_name, subset_name)] = DatasetTemplates(dataset_name, subset_name)
 
         return self.datasets_templates[(dataset_name, subset_name)]
-- 
2.43.0


From 7917c46b40d850eddc1576018a3265b7cd4157ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 37/51] fix: an interruption while saving a template lost all
 templates of the dataset

---
 wimbd/contamination/templates.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wimbd/contamination/templates.py b/wimbd/contamination/templates.py
index 15b2767..76c35c1 100644
--- a/wimbd/contamination/templates.py
+++ b/wimbd/contamination/templates.py
@@ -616,7 +616,11 @@ class DatasetTemplates:
         # We only create the folder if a template is written
         if not os.path.exists(self.folder_path):
             os.makedirs(self.folder_path)
-        yaml.dump(self.format_for_dump(), open(self.yaml_path, "w"))
+        # An interruption must not leave an incomplete file in the place of the collection
+        temp_path = os.path.join(self.folder_path, "." + self.TEMPLATE_FILENAME)
+        with open(temp_path, "w") as f:
+            yaml.dump(self.format_for_dump(), f)
+        os.replace(temp_path, self.yaml_path)
 
     def add_template(self, template: "Template") -> None:
         """
-- 
2.43.0


From e80a4259e8361464e72c01caede55c1227da36ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 38/51] fix: removing the last template of a dataset deleted
 the templates of its subsets

---
 wimbd/contamination/templates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wimbd/contamination/templates.py b/wimbd/contamination/templates.py
index 76c35c1..988b453 100644
--- a/wimbd/contamination/templates.py
+++ b/wimbd/contamination/templates.py
@@ -686,7 +686,10 @@ class DatasetTemplates:
         """
         self.sync_mapping()
 
-        rmtree(self.folder_path)
+        os.remove(self.yaml_path)
+        # The subsets of a dataset are kept below its folder
+        if len(os.listdir(self.folder_path)) == 0:
+            rmtree(self.folder_path)
 
         # If it is a subset, we have to check whether to remove the dataset folder
         if self.subset_name:
-- 
2.43.0


From de1d70c562f7550a20bf370f85cba6312d17e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 39/51] fix: run_uniq.sh took the name of the data set for its
 first file and failed

---
 wimbd/sentence_lengths/run_uniq.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wimbd/sentence_lengths/run_uniq.sh b/wimbd/sentence_lengths/run_uniq.sh
index df5808d..fadeb43 100755
--- a/wimbd/sentence_lengths/run_uniq.sh
+++ b/wimbd/sentence_lengths/run_uniq.sh
@@ -5,6 +5,7 @@ SCRIPT_DIR=$( cd -- "$( dirname -- "${BASH_SOURCE[0]}" )" &> /dev/null && pwd )
 PYTHON=$(which python | head -1)
 
 DATASET=$1
+shift
 
 echo $DATASET
 
-- 
2.43.0


From 4eb0f467104b3405e5efc4ce62cd2d3f804417a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 40/51] fix: texts with carriage returns were counted as
 several texts

---
 wimbd/sentence_lengths/map_unique_lengths.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wimbd/sentence_lengths/map_unique_lengths.py b/wimbd/sentence_lengths/map_unique_lengths.py
index 452a6bf..27c49a4 100644
--- a/wimbd/sentence_lengths/map_unique_lengths.py
+++ b/wimbd/sentence_lengths/map_unique_lengths.py
@@ -20,6 +20,11 @@ TOK_LENGTHS = {'mc4': [99, 42, 6214, 236, 37, 71, 35, 92],
 
 
 
+def one_line(text):
+    # the reducer reads lines, and a carriage return ends one as well
+    return text.replace("\r\n", "\n").replace("\r", "\n").replace("\n", "(newline)")
+
+
 def main():
 
     parse = argparse.ArgumentParser("")
@@ -41,7 +46,7 @@ def main():
             to_print = ""
             if args.dataset in TOK_LENGTHS:
                 tok_length = len(wordpunct_tokenize(text.strip()))
-                to_print = text.replace("\n", "(newline)")
+                to_print = one_line(text)
 
                 if tok_length in TOK_LENGTHS[args.dataset]:
                     print(f'{tok_length} tok / {to_print}')
@@ -49,7 +54,7 @@ def main():
             if args.dataset in CHAR_LENGTHS:
                 char_length = len(text)
                 if not to_print:
-                    to_print = text.replace("\n", "(newline)")
+                    to_print = one_line(text)
 
                 if char_length in CHAR_LENGTHS[args.dataset]:
                     print(f'{char_length} char / {to_print}')
-- 
2.43.0


From af9f36b5de52291442b8b363d743e390d4c49572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 41/51] fix: summarize exchanged the distributions of tokens
 and characters

---
 wimbd/sentence_lengths/summarize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/sentence_lengths/summarize.py b/wimbd/sentence_lengths/summarize.py
index 3fd888e..7994a04 100644
--- a/wimbd/sentence_lengths/summarize.py
+++ b/wimbd/sentence_lengths/summarize.py
@@ -23,9 +23,9 @@ for filename in os.listdir(lengths_data_path):
             count_type, value = key.split(' ')
             length = int(value)
             if count_type.lower() == 'tokens':
-                chars_data[length] = count
-            elif count_type.lower() == 'chars':
                 toks_data[length] = count
+            elif count_type.lower() == 'chars':
+                chars_data[length] = count
 
     count_sum = sum(toks_data.values())
     dist = {length: count / count_sum for length, count in toks_data.items()}
-- 
2.43.0


From 02bd79496d59bd88aaa49aead3facb682b69d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 42/51] fix: search lost locations of files that were given
 more than once

---
 src/cmd/search.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmd/search.rs b/src/cmd/search.rs
index aadf077..74c7581 100644
--- a/src/cmd/search.rs
+++ b/src/cmd/search.rs
@@ -233,7 +233,8 @@ pub(crate) fn main(mut opt: Opt) -> Result<()> {
                     .map(|m| m.get_mut(&pattern).unwrap())
                     .unwrap();
             if !matches.is_empty() {
-                matches_for_pattern.insert(path, matches);
+                // NOTE: the same file may have been given more than once.
+                matches_for_pattern.entry(path).or_default().extend(matches);
             }
         }
     }
-- 
2.43.0


From 8e0ea764031a1664447692c35455fcdd62d05bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 43/51] fix: deduplicate_by_hash overwrote the output of shards
 that have the same file name

---
 .../helper_scripts/deduplicate_by_hash.py      | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
index ac9fb39..affbe1f 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py
@@ -10,7 +10,16 @@ import numpy as np
 import smart_open
 from collections import defaultdict
 
-def process_shard(shard, args):
+def output_names(shards):
+    names = [os.path.basename(shard) for shard in shards]
+    if len(set(names)) < len(names):
+        # shards of different directories can have the same name: keep the directories that differ
+        paths = [os.path.abspath(shard) for shard in shards]
+        common = os.path.commonpath([os.path.dirname(path) for path in paths])
+        names = [os.path.relpath(path, common) for path in paths]
+    return names
+
+def process_shard(shard, out_name, args):
     # read shard
     data = read_jsonl_smart_open_file(shard)
 
@@ -28,7 +37,10 @@ def process_shard(shard, args):
 
     
 
-    with smart_open. open(os.path.join(args.outpath, os.path.basename(shard)), 'wt') as fout:
+    out_path = os.path.join(args.outpath, out_name)
+    if os.path.dirname(out_name):
+        os.makedirs(os.path.dirname(out_path), exist_ok=True)
+    with smart_open. open(out_path, 'wt') as fout:
         for doc in data:
             # hash incoming doc
             if doc['text'] is None:
@@ -95,7 +107,7 @@ def main(args):
     # Create a pool of processes
     with mp.Pool(processes=args.num_processes, initializer=worker_initializer, initargs=(lock, blocklist, seen_array)) as pool:
         # Process each shard
-        results = [pool.apply_async(process_shard, args=(shard, args)) for shard in args.shards]
+        results = [pool.apply_async(process_shard, args=(shard, out_name, args)) for shard, out_name in zip(args.shards, output_names(args.shards))]
         removed_counts = [result.get() for result in tqdm(results, desc="Processing shards")]
 
         # Wait for all the processes to finish
-- 
2.43.0


From fc05439c2f7ec821c84d1ad5f8a222c056aabd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 44/51] fix: split_files failed when a directory's name
 contains .jsonl or .gz

---
 wimbd/utils/split_files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wimbd/utils/split_files.py b/wimbd/utils/split_files.py
index 1d52355..ba21807 100644
--- a/wimbd/utils/split_files.py
+++ b/wimbd/utils/split_files.py
@@ -21,7 +21,9 @@ def main():
     if not os.path.exists(os.path.join(args.out_prefix, os.path.dirname(args.in_file))):
         os.makedirs(os.path.join(args.out_prefix, os.path.dirname(args.in_file)))
 
-    out_path = os.path.join(args.out_prefix, args.in_file).replace(".jsonl", "").replace(".gz", "")
+    # only the file name loses its suffix, the directories have been created as they are
+    out_dir, out_name = os.path.split(os.path.join(args.out_prefix, args.in_file))
+    out_path = os.path.join(out_dir, out_name.replace(".jsonl", "").replace(".gz", ""))
 
     test_stream = gzip.open(out_path + ".test.jsonl.gz", "wt", encoding="utf-8")
     valid_stream = gzip.open(out_path + ".valid.jsonl.gz", "wt", encoding="utf-8")
-- 
2.43.0


From 6339b1ac113d8843c25815a6f4eb16c76a4868d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 45/51] fix: file_split changed carriage returns at the ends of
 lines

---
 wimbd/utils/file_split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wimbd/utils/file_split.py b/wimbd/utils/file_split.py
index 40448ee..f9a20e4 100644
--- a/wimbd/utils/file_split.py
+++ b/wimbd/utils/file_split.py
@@ -15,7 +15,7 @@ def main():
 
     # iterate over files in the folder, and split each file (json.gz) into n files while adding a suffix at the end of the name based on the index
     for file in tqdm(glob(args.in_folder + "/*.jsonl.gz")):
-        with gzip.open(file, 'rt') as f:
+        with gzip.open(file, 'rb') as f:
             data = f.readlines()
 
         n = args.n
@@ -23,12 +23,12 @@ def main():
         for i in range(n - 1):
             file_split = file[:-len(".jsonl.gz")] + f"_{i}.json.gz"
             print(i*chunks, (i+1)*chunks)
-            with gzip.open(file_split, 'wt') as f:
+            with gzip.open(file_split, 'wb') as f:
                 f.writelines(data[i*chunks:(i+1)*chunks])
         i = n - 1
         file_split = file[:-len(".jsonl.gz")] + f"_{i}.json.gz"
         print(i*chunks, (i+1)*chunks)
-        with gzip.open(file_split, 'wt') as f:
+        with gzip.open(file_split, 'wb') as f:
             f.writelines(data[i*chunks:])
 
 if __name__ == "__main__":
-- 
2.43.0


From 68d36ba6df340bbf46dff988e3dee2ce61324efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 46/51] fix: link_exists failed on urls that are invalid or
 redirect without end

---
 wimbd/link_exists/map_count.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wimbd/link_exists/map_count.py b/wimbd/link_exists/map_count.py
index 85f2467..5f15c56 100644
--- a/wimbd/link_exists/map_count.py
+++ b/wimbd/link_exists/map_count.py
@@ -18,7 +18,8 @@ def check_url_exists(url: str):
                 return True
             except requests.exceptions.HTTPError:
                 return False
-    except requests.exceptions.ConnectionError:
+    except requests.exceptions.RequestException:
+        # also an invalid url, a scheme that is not supported or endless redirects
         return False
 
 
-- 
2.43.0


From 56afa45c842daebe31249a77bc63d9d96c7157fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 47/51] fix: mc4 took files in folders below the output folder
 for its own results and left them out

---
 preparation/mc4/mc4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preparation/mc4/mc4.py b/preparation/mc4/mc4.py
index 819c754..57c1368 100644
--- a/preparation/mc4/mc4.py
+++ b/preparation/mc4/mc4.py
@@ -39,14 +39,14 @@ def main():
         output_prefix += "/"
 
     existing_files = set(
-        b.name.rsplit("/", 1)[-1]
+        b.name
         for b in tqdm(output_bucket.list_blobs(prefix=output_prefix), desc="Finding files to skip")
     )
 
     files_to_process = [
         b
         for b in tqdm(input_bucket.list_blobs(prefix=input_prefix), desc="Finding files to not skip")
-        if ".tfrecord-" in blob_to_name(b) and input_name_to_output_name(blob_to_name(b)) not in existing_files
+        if ".tfrecord-" in blob_to_name(b) and output_prefix + input_name_to_output_name(blob_to_name(b)) not in existing_files
     ]
 
     def process_object(o: storage.Blob) -> int:
-- 
2.43.0


From ee40fcd34f152858b1767d73ce936943dae88735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 48/51] fix: repeating an overlap analysis kept overlaps and
 numbers of the earlier one

---
 .../text_and_url_overlaps/helper_scripts/run_combinations.py  | 3 ++-
 wimbd/text_and_url_overlaps/run_analysis.sh                   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
index cb876df..ec41d8c 100644
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py
@@ -36,7 +36,8 @@ def main():
 
         # if either file is empty, output empty file directly
         if os.path.getsize(file1) == 0 or os.path.getsize(file2) == 0:
-            os.system(f"touch {outfile}")
+            # the file may hold the overlap of an earlier analysis
+            open(outfile, "w").close()
             continue
         
         print(f"merging: {file1}, {file2}")
diff --git a/wimbd/text_and_url_overlaps/run_analysis.sh b/wimbd/text_and_url_overlaps/run_analysis.sh
index c7c004a..3fb9706 100644
--- a/wimbd/text_and_url_overlaps/run_analysis.sh
+++ b/wimbd/text_and_url_overlaps/run_analysis.sh
@@ -70,8 +70,8 @@ time python $TEXT_AND_URL_OVERLAPS/helper_scripts/run_combinations.py --sorted_u
 # First get the size of the overlaps:
 for f in `ls $intermediate_dir/$mode_dir/sorted_uniq/`
 do
-    wc -l $intermediate_dir/$mode_dir/sorted_uniq//$f >> $intermediate_dir/$mode_dir/overlap_numbers.txt
-done
+    wc -l $intermediate_dir/$mode_dir/sorted_uniq//$f
+done > $intermediate_dir/$mode_dir/overlap_numbers.txt
 
 # count the duplicates
 echo "Counting duplicates"
-- 
2.43.0


From 01197236e483548c3bfe26a65ea7b892e74cf080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 49/51] fix: get_examples failed on urls with blanks

---
 wimbd/text_and_url_overlaps/helper_scripts/get_examples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py b/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
index 51f27d3..f45a253 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
+++ b/wimbd/text_and_url_overlaps/helper_scripts/get_examples.py
@@ -53,7 +53,8 @@ def main():
         with open(args.count_url_file) as fin:
             output_data = []
             for l in fin:
-                count, text = l.strip().split()
+                # a url may contain blanks
+                count, text = l.lstrip().rstrip("\n").split(" ", 1)
                 output_data.append({"text":text, "count":count})
         
         # sort by count descending
-- 
2.43.0


From 7811633f9c39de815d5352f54639487b27cb2457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 50/51] fix: the overlap tools ignored files that could not be
 read and used the counts of the others

---
 wimbd/text_and_url_overlaps/decontaminate.py               | 7 ++++---
 wimbd/text_and_url_overlaps/deduplicate.py                 | 7 ++++---
 .../helper_scripts/run_get_text_hashes.sh                  | 2 ++
 wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh | 4 +++-
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/decontaminate.py b/wimbd/text_and_url_overlaps/decontaminate.py
index 543bbb4..5696fa0 100755
--- a/wimbd/text_and_url_overlaps/decontaminate.py
+++ b/wimbd/text_and_url_overlaps/decontaminate.py
@@ -13,13 +13,14 @@ def main(args):
     else:
         blockfile = os.path.join(args.tmp_dir, 'blocklist.txt')
         # Generate blocklist
-        cmd = f"$TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files1)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_just_keys.sh > {blockfile}"
-        subprocess.run(cmd, shell=True)
+        # a file that cannot be read must not leave an incomplete blocklist
+        cmd = f"set -o pipefail; $TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files1)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_just_keys.sh > {blockfile}"
+        subprocess.run(cmd, shell=True, check=True, executable='/bin/bash')
 
     # Decontaminate
     if not args.build_blocklist_only:
         cmd = f"python $TEXT_AND_URL_OVERLAPS/helper_scripts/deduplicate_by_hash.py --shards {' '.join(args.in_files2)} --blocklist {blockfile} --outpath {args.out_dir} --just_write_attributes"
-        subprocess.run(cmd, shell=True)
+        subprocess.run(cmd, shell=True, check=True)
 
 
 if __name__ in "__main__":
diff --git a/wimbd/text_and_url_overlaps/deduplicate.py b/wimbd/text_and_url_overlaps/deduplicate.py
index 9e7b720..f8adcdc 100755
--- a/wimbd/text_and_url_overlaps/deduplicate.py
+++ b/wimbd/text_and_url_overlaps/deduplicate.py
@@ -13,13 +13,14 @@ def main(args):
     else:
         blockfile = os.path.join(args.tmp_dir, 'duplicates_hashes.txt')
         # Generate blocklist
-        cmd = f"$TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_duplicate_keys.sh > {blockfile}"
-        subprocess.run(cmd, shell=True)
+        # a file that cannot be read must not leave an incomplete blocklist
+        cmd = f"set -o pipefail; $TEXT_AND_URL_OVERLAPS/helper_scripts/run_get_text_hashes.sh {' '.join(args.in_files)} | $TEXT_AND_URL_OVERLAPS/helper_scripts/get_duplicate_keys.sh > {blockfile}"
+        subprocess.run(cmd, shell=True, check=True, executable='/bin/bash')
 
     # Decontaminate
     if not args.build_blocklist_only:
         cmd = f"python $TEXT_AND_URL_OVERLAPS/helper_scripts/deduplicate_by_hash.py --shards {' '.join(args.in_files)} --blocklist {blockfile} --outpath {args.out_dir} --just_write_attributes --keep_first_occurrence"
-        subprocess.run(cmd, shell=True)
+        subprocess.run(cmd, shell=True, check=True)
 
 
 if __name__ in "__main__":
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh b/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh
index e1d2b4f..26f6fd0 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_get_text_hashes.sh
@@ -1,4 +1,6 @@
 #!/bin/bash
+# a file that cannot be read must not go unnoticed
+set -o pipefail
 
 # this gets the directory of the script, even if it's called from another directory
 SCRIPT_DIR=$( cd -- "$( dirname -- "${BASH_SOURCE[0]}" )" &> /dev/null && pwd )
diff --git a/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh b/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh
index 2e47d03..9b0d7f6 100755
--- a/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh
+++ b/wimbd/text_and_url_overlaps/helper_scripts/run_get_urls.sh
@@ -1,4 +1,6 @@
 #!/bin/bash
+# a file that cannot be read must not go unnoticed
+set -o pipefail
 
 # find the url location
 if [ "$(zcat $1 | head -n 1| jq -r '.url')" != null ]; then
@@ -13,4 +15,4 @@ else
     fi
 fi
 
-parallel --line-buffer "gzip -dc {} | jq -r $url_location " ::: $@ | sort | uniq -c
\ No newline at end of file
+parallel --line-buffer "set -o pipefail; gzip -dc {} | jq -r $url_location " ::: $@ | sort | uniq -c
\ No newline at end of file
-- 
2.43.0


From e4397a987e928e38dd7d329d7e7002ad833eba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 51/51] fix: deduplicate failed whenever a blocklist was given

---
 wimbd/text_and_url_overlaps/deduplicate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wimbd/text_and_url_overlaps/deduplicate.py b/wimbd/text_and_url_overlaps/deduplicate.py
index f8adcdc..8586863 100755
--- a/wimbd/text_and_url_overlaps/deduplicate.py
+++ b/wimbd/text_and_url_overlaps/deduplicate.py
@@ -32,7 +32,7 @@ if __name__ in "__main__":
     parser.add_argument("--build_blocklist_only", action='store_true')
     args = parser.parse_args()
 
-    # blocklist and in_files1 are mutually exclusive
-    assert (args.blocklist is None) != (args.in_files is None), "Must specify either blocklist or in_files"
+    # the documents to deduplicate are needed with a blocklist as well
+    assert args.in_files is not None, "Must specify in_files"
 
     main(args)
\ No newline at end of file
-- 
2.43.0

