From 32a7cbc04234db28c0df34510f47fcec62ca37e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:57 +0000
Subject: [PATCH 01/13] fix: unset_nth_bit clears the bit and returns its old
 value

---
 poppy/src/bitset/array.rs | 8 ++++++--
 poppy/src/bitset/vec.rs   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/poppy/src/bitset/array.rs b/poppy/src/bitset/array.rs
index c5313d4..49191c1 100644
--- a/poppy/src/bitset/array.rs
+++ b/poppy/src/bitset/array.rs
@@ -13,9 +13,13 @@ impl<const N: usize> BitSet<N> {
     fn set_value_nth_bit(&mut self, index: usize, value: bool) -> bool {
         let iblock = index / 8;
         // equivalent to index % 8
-        let mask = (value as u8) << (index & 7);
+        let mask = 1u8 << (index & 7);
         let old = self.0[iblock] & mask == mask;
-        self.0[iblock] |= mask;
+        if value {
+            self.0[iblock] |= mask;
+        } else {
+            self.0[iblock] &= !mask;
+        }
         old
     }
 
diff --git a/poppy/src/bitset/vec.rs b/poppy/src/bitset/vec.rs
index b3e7615..9471b84 100644
--- a/poppy/src/bitset/vec.rs
+++ b/poppy/src/bitset/vec.rs
@@ -53,9 +53,13 @@ impl VecBitSet {
     fn set_value_nth_bit(&mut self, index: usize, value: bool) -> bool {
         let iblock = index / 8;
         // equivalent to index % 8
-        let mask = (value as u8) << (index & 7);
+        let mask = 1u8 << (index & 7);
         let old = self.0[iblock] & mask == mask;
-        self.0[iblock] |= mask;
+        if value {
+            self.0[iblock] |= mask;
+        } else {
+            self.0[iblock] &= !mask;
+        }
         old
     }
 
-- 
2.43.0


From 2db76c98c8551347b9d95bf2871b82f85e072875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:57 +0000
Subject: [PATCH 02/13] fix: clearing a filter also clears its index cache

---
 poppy/src/bloom/v2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 39fc238..c168ed4 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -351,6 +351,7 @@ impl BloomFilter {
     #[inline(always)]
     pub fn clear(&mut self) {
         self.buckets.iter_mut().for_each(|bucket| bucket.clear());
+        self.index_cache.clear();
         self.count = 0;
     }
 
-- 
2.43.0


From b03b46c674b853aadabef5182a8bfe0ce5cd7753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:57 +0000
Subject: [PATCH 03/13] fix: size of DCSO filters is given in u64, not in bits

---
 poppy/src/bloom/v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 146b93a..b50748d 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -343,7 +343,7 @@ impl BloomFilter {
 
     #[inline(always)]
     pub fn size_in_u64(&self) -> usize {
-        self.bit_size as usize
+        self.bit_size.div_ceil(u64::BITS as u64) as usize
     }
 
     #[inline(always)]
-- 
2.43.0


From 9118985ed042e229c151acea40e03c6403510d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:57 +0000
Subject: [PATCH 04/13] fix: a filter whose count is over its capacity is full

---
 poppy/src/bloom/v1.rs | 2 +-
 poppy/src/bloom/v2.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index b50748d..34ec89e 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -366,7 +366,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     #[inline(always)]
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index c168ed4..60dd5b1 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -387,7 +387,7 @@ impl BloomFilter {
             .get_mut(ibucket as usize)
             .expect("ibucket out of bound");
 
-        let reached_cap = self.count == self.capacity;
+        let reached_cap = self.count >= self.capacity;
 
         for ibit in it {
             if reached_cap && !bucket.get_nth_bit(ibit as usize) {
@@ -549,7 +549,7 @@ impl BloomFilter {
     #[inline(always)]
     /// Returns true if the filter is full
     pub fn is_full(&self) -> bool {
-        self.count_estimate() as usize == self.capacity()
+        self.count_estimate() as usize >= self.capacity()
     }
 
     /// this function estimates the number of common elements between two bloom filters
-- 
2.43.0


From 2ff230995597abbfae7980f0ad36145d40c47aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:57 +0000
Subject: [PATCH 05/13] fix: report errors happening while flushing a written
 filter

---
 poppy/src/bloom/v1.rs | 2 ++
 poppy/src/bloom/v2.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 34ec89e..b507ed0 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -229,6 +229,8 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        // errors are ignored when the writer is flushed on drop
+        w.flush()?;
         Ok(())
     }
 
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 60dd5b1..b9028c3 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -275,6 +275,8 @@ impl BloomFilter {
         }
 
         w.write_all(&self.data)?;
+        // errors are ignored when the writer is flushed on drop
+        w.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 6605b3911b1d650a4fbc0b7cceac22c1fd8bbf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:57 +0000
Subject: [PATCH 06/13] fix: poppy check accepts 0 jobs

---
 poppy/src/bin/poppy.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index b3c0412..a312c2d 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -367,7 +367,8 @@ fn main() -> Result<(), anyhow::Error> {
                 let mut handles = vec![];
                 let files = o.inputs.clone();
 
-                let batches = files.chunks(max(files.len() / args.jobs, 1));
+                let jobs = optimal_jobs(args.jobs);
+                let batches = files.chunks(max(files.len() / jobs, 1));
 
                 for batch in batches {
                     let shared = Arc::clone(&bf);
-- 
2.43.0


From 686b57352335d7e29a7ecd40849cd3e74db86b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:57 +0000
Subject: [PATCH 07/13] fix: do not loop forever counting lines of an
 unreadable file

---
 poppy/src/bin/poppy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index a312c2d..df20ff1 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -202,7 +202,10 @@ fn count_lines_parallel<P: AsRef<Path> + Clone>(
             let mut count = 0usize;
             for f in batch {
                 let of = File::open(f)?;
-                count += io::BufReader::new(of).lines().count();
+                for line in io::BufReader::new(of).lines() {
+                    line?;
+                    count += 1;
+                }
             }
             Ok::<_, anyhow::Error>(count)
         }));
-- 
2.43.0


From 1c8f833228c9e35e8d4f63c677ae72e29d7958c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:57 +0000
Subject: [PATCH 08/13] fix: poppy check --silent prints nothing with --verify
 either

---
 poppy/src/bin/poppy.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index df20ff1..5bed2af 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -351,7 +351,7 @@ fn main() -> Result<(), anyhow::Error> {
                         let ok = bf.contains_bytes(&line);
 
                         if o.verify {
-                            if !ok {
+                            if !ok && !o.silent {
                                 println!("{line}: NOK")
                             }
                             continue;
@@ -390,7 +390,7 @@ fn main() -> Result<(), anyhow::Error> {
                                 let ok = bf.contains_bytes(&line);
 
                                 if o.verify {
-                                    if !ok {
+                                    if !ok && !o.silent {
                                         println!("{line}: NOK")
                                     }
                                     continue;
-- 
2.43.0


From 301029b371f0c07ebe260efe9d7636caf99159ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:57 +0000
Subject: [PATCH 09/13] fix: report insertion errors instead of panicking

---
 poppy/src/bin/poppy.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bin/poppy.rs b/poppy/src/bin/poppy.rs
index 5bed2af..5f0083e 100644
--- a/poppy/src/bin/poppy.rs
+++ b/poppy/src/bin/poppy.rs
@@ -272,8 +272,8 @@ fn parallel_insert(
     // reduce
     let mut bfs = handles
         .into_iter()
-        .map(|h| h.join().expect("failed to join thread").unwrap())
-        .collect::<Vec<BloomFilter>>();
+        .map(|h| h.join().expect("failed to join thread"))
+        .collect::<Result<Vec<BloomFilter>, anyhow::Error>>()?;
 
     // code should never panic here
     let mut out = bfs.pop().expect("bfs must always have one item");
-- 
2.43.0


From 93474b5d7ce50aad4dafd781fe6cc18a528f1b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:57 +0000
Subject: [PATCH 10/13] fix: do not overflow converting megabytes into bytes

---
 poppy/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poppy/src/utils.rs b/poppy/src/utils.rs
index 7fb6ed8..40d1c99 100644
--- a/poppy/src/utils.rs
+++ b/poppy/src/utils.rs
@@ -76,7 +76,7 @@ impl ByteSize {
 
     #[inline(always)]
     pub fn from_mb(mb: usize) -> Self {
-        Self::from_bytes(mb * MEGA)
+        Self::from_bytes(mb.saturating_mul(MEGA))
     }
 
     #[inline(always)]
-- 
2.43.0


From aacf531df29bb99c79d953ea40079fa80de170e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:33 +0000
Subject: [PATCH 11/13] fix: entries of a DCSO filter without bits are
 contained

---
 poppy/src/bloom/v1.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index b507ed0..865c68d 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -306,7 +306,9 @@ impl BloomFilter {
     #[inline(always)]
     pub fn contains_bytes<S: AsRef<[u8]>>(&self, value: S) -> bool {
         if self.bitset.is_empty() {
-            return false;
+            // a filter without any bit (i.e. fpp close to 1.0) cannot tell
+            // its entries from any other value
+            return self.bit_size == 0 && self.capacity > 0;
         }
         for index in self.fingerprint.fingerprint(value) {
             if !self.get_nth_bit(index) {
-- 
2.43.0


From 8bf3a9fcd5c0f22a88a4be4fd72242d4eec1293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:33 +0000
Subject: [PATCH 12/13] fix: do not overflow estimating the count of saturated
 filters

---
 poppy/src/bloom/v2.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index b9028c3..5c6ccd5 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -571,7 +571,8 @@ impl BloomFilter {
                     * f64::ln(1.0 - (b1.count_ones_in_common(b2) as f64 / b1.bit_len() as f64)))
                     / self.n_hash_buck as f64) as usize
             })
-            .sum())
+            // estimate of a saturated bucket is infinite
+            .fold(0, |acc: usize, n| acc.saturating_add(n)))
     }
 
     #[inline]
@@ -586,7 +587,8 @@ impl BloomFilter {
                     * f64::ln(1.0 - (b.count_ones() as f64 / b.bit_len() as f64)))
                     / self.n_hash_buck as f64) as u64
             })
-            .sum();
+            // estimate of a saturated bucket is infinite
+            .fold(0, |acc: u64, n| acc.saturating_add(n));
     }
 
     /// returns an estimate of the number of element in the filter
-- 
2.43.0


From 5f3e96ecfb1bde883444657f40587ac8932ea01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:00 +0000
Subject: [PATCH 13/13] fix: refuse malformed filters instead of panicking or
 exhausting memory

---
 poppy/src/bitset/vec.rs |  5 +++++
 poppy/src/bloom.rs      |  2 ++
 poppy/src/bloom/v1.rs   | 11 ++++++++---
 poppy/src/bloom/v2.rs   | 27 +++++++++++++++++++++------
 4 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/poppy/src/bitset/vec.rs b/poppy/src/bitset/vec.rs
index 9471b84..7b24125 100644
--- a/poppy/src/bitset/vec.rs
+++ b/poppy/src/bitset/vec.rs
@@ -13,6 +13,11 @@ impl VecBitSet {
         Self(vec![0; byte_size])
     }
 
+    /// Creates a bitset from its content
+    pub(crate) fn from_bytes(bytes: Vec<u8>) -> Self {
+        Self(bytes)
+    }
+
     /// Returns true if bitset is empty
     #[inline(always)]
     pub fn is_empty(&self) -> bool {
diff --git a/poppy/src/bloom.rs b/poppy/src/bloom.rs
index 9b896e7..84514ff 100644
--- a/poppy/src/bloom.rs
+++ b/poppy/src/bloom.rs
@@ -111,6 +111,8 @@ pub enum Error {
     TooManyEntries,
     #[error("entry index iterator must be initialized")]
     UninitIter,
+    #[error("invalid filter: {0}")]
+    InvalidFilter(&'static str),
 }
 
 /// Structure used for easy filter creation from a set
diff --git a/poppy/src/bloom/v1.rs b/poppy/src/bloom/v1.rs
index 865c68d..ef86842 100644
--- a/poppy/src/bloom/v1.rs
+++ b/poppy/src/bloom/v1.rs
@@ -174,6 +174,10 @@ impl BloomFilter {
         let bit_size = read_le_u64(r)?;
         let count = read_le_u64(r)?;
 
+        if bit_size == 0 && n_hash > 0 {
+            return Err(Error::InvalidFilter("no bit to index"));
+        }
+
         // initializing bitset
         let u64_size = f64::ceil((bit_size as f64) / 64.0) as u64;
         let bitset = {
@@ -181,10 +185,11 @@ impl BloomFilter {
                 r.seek_relative((u64_size * core::mem::size_of::<u64>() as u64) as i64)?;
                 vec![]
             } else {
-                let mut bitset = vec![0; u64_size as usize];
+                // size is not trusted so we don't allocate it in one go
+                let mut bitset = Vec::new();
                 // reading the bloom filter
-                for i in bitset.iter_mut() {
-                    *i = read_le_u64(r)?;
+                for _ in 0..u64_size {
+                    bitset.push(read_le_u64(r)?);
                 }
                 bitset
             }
diff --git a/poppy/src/bloom/v2.rs b/poppy/src/bloom/v2.rs
index 5c6ccd5..cdc4b86 100644
--- a/poppy/src/bloom/v2.rs
+++ b/poppy/src/bloom/v2.rs
@@ -208,24 +208,39 @@ impl BloomFilter {
                 r.seek_relative(cache_byte_size as i64)?;
                 VecBitSet::with_bit_capacity(0)
             } else {
-                let mut ic = VecBitSet::with_bit_capacity(cache_bit_size as usize);
-                r.read_exact(ic.as_mut_slice())?;
-                ic
+                // size is not trusted so we don't allocate it in one go
+                let mut cache = Vec::new();
+                r.take(cache_byte_size).read_to_end(&mut cache)?;
+                if cache.len() as u64 != cache_byte_size {
+                    return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+                }
+                VecBitSet::from_bytes(cache)
             }
         };
 
         // we read the number of buckets
         let n_buckets = read_le_u64(r)? as usize;
 
+        if n_buckets == 0 && capacity > 0 {
+            return Err(Error::InvalidFilter("no bucket to index"));
+        }
+
         let buckets = {
             if partial {
-                r.seek_relative((n_buckets * core::mem::size_of::<Bucket>()) as i64)?;
+                let size = n_buckets
+                    .checked_mul(core::mem::size_of::<Bucket>())
+                    .and_then(|s| i64::try_from(s).ok())
+                    .ok_or(Error::InvalidFilter("too many buckets"))?;
+                r.seek_relative(size)?;
                 vec![]
             } else {
-                let mut buckets = vec![Bucket::new(); n_buckets];
+                // number is not trusted so we don't allocate them in one go
+                let mut buckets = Vec::new();
                 // we read all the buckets as byte buffers
-                for bucket in buckets.iter_mut().take(n_buckets) {
+                for _ in 0..n_buckets {
+                    let mut bucket = Bucket::new();
                     r.read_exact(bucket.as_mut_slice())?;
+                    buckets.push(bucket);
                 }
                 buckets
             }
-- 
2.43.0

