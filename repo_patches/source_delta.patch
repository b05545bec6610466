From 8d005e1a25a944d5dc90a14b810b276824eefe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:43 +0000
Subject: [PATCH 01/47] fix: validate branch headers against their own
 ancestors

Median-time-past, difficulty adjustment and the minimum-difficulty walk looked
at the active chain, even for headers on a competing branch. Valid branches
could thus be refused, and invalid ones accepted.
---
 chain/src/block/cache.rs | 67 ++++++++++++++++++++++++++++++++++------
 common/src/block/tree.rs | 12 +++++++
 2 files changed, 69 insertions(+), 10 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 1631e48..71e3ab1 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -196,6 +196,12 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     /// Panics if height is `0`.
     ///
     pub fn median_time_past(&self, height: Height) -> BlockTime {
+        self.branch_median_time_past(height, &[])
+    }
+
+    /// Like [`BlockCache::median_time_past`], but for a branch off the active chain, ending at
+    /// `height - 1`.
+    fn branch_median_time_past(&self, height: Height, branch: &[BlockHeader]) -> BlockTime {
         assert!(height != 0, "height must be > 0");
 
         let mut times = [0; time::MEDIAN_TIME_SPAN as usize];
@@ -203,8 +209,10 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         let start = height.saturating_sub(time::MEDIAN_TIME_SPAN);
         let end = height;
 
-        for (i, blk) in self.range(start..end).enumerate() {
-            times[i] = blk.time;
+        for (i, height) in (start..end).enumerate() {
+            times[i] = self
+                .branch_block(height, end - 1, branch)
+                .map_or(0, |header| header.time);
         }
 
         // Gracefully handle the case where `height` < `MEDIUM_TIME_SPAN`.
@@ -214,6 +222,20 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         available[available.len() / 2]
     }
 
+    /// Get the block at the given height, on the branch made of the active chain up to the first
+    /// block of `branch`, followed by the blocks in `branch`, the last of which is at height `tip`.
+    fn branch_block<'a>(
+        &'a self,
+        height: Height,
+        tip: Height,
+        branch: &'a [BlockHeader],
+    ) -> Option<&'a BlockHeader> {
+        match (height + branch.len() as Height).checked_sub(tip + 1) {
+            Some(index) if !branch.is_empty() => branch.get(index as usize),
+            _ => self.get_block_by_height(height),
+        }
+    }
+
     /// Import a block into the tree. Performs header validation. This function may trigger
     /// a chain re-org.
     fn import_block(
@@ -232,7 +254,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         // Block extends the active chain. We can fully validate it before proceeding.
         // Instead of adding the block to the main chain, we let chain selection do the job.
         if header.prev_blockhash == best {
-            self.validate(tip, &header, clock)?;
+            self.validate(tip, &[], &header, clock)?;
         }
 
         // Validate that the block's PoW is valid against its difficulty target, and
@@ -425,8 +447,8 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
             header: candidate.fork_header,
         };
 
-        for header in candidate.headers.iter() {
-            self.validate(&tip, header, clock)?;
+        for (i, header) in candidate.headers.iter().enumerate() {
+            self.validate(&tip, &candidate.headers[..i], header, clock)?;
 
             tip = CachedBlock {
                 height: tip.height + 1,
@@ -437,9 +459,12 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     }
 
     /// Validate a block header as a potential new tip. This performs full header validation.
+    /// If the tip isn't on the active chain, `branch` holds the headers from the active chain
+    /// (exclusive) up to the tip.
     fn validate(
         &self,
         tip: &CachedBlock,
+        branch: &[BlockHeader],
         header: &BlockHeader,
         clock: &impl Clock,
     ) -> Result<(), Error> {
@@ -451,8 +476,22 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
             if header.time > tip.time + self.params.pow_target_spacing as BlockTime * 2 {
                 block::pow_limit_bits(&self.params.network)
             } else {
-                self.next_min_difficulty_target(&self.params)
+                self.next_min_difficulty_target(tip.height, branch, &self.params)
             }
+        } else if (tip.height + 1) % self.params.difficulty_adjustment_interval() == 0 {
+            let height = tip
+                .height
+                .saturating_sub(self.params.difficulty_adjustment_interval() - 1);
+            let last_adjustment_block = self
+                .branch_block(height, tip.height, branch)
+                .unwrap_or_else(|| self.genesis());
+
+            self.adjusted_difficulty_target(
+                last_adjustment_block,
+                tip.time,
+                tip.target(),
+                &self.params,
+            )
         } else {
             self.next_difficulty_target(tip.height, tip.time, tip.target(), &self.params)
         };
@@ -484,7 +523,7 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
         // A timestamp is accepted as valid if it is greater than the median timestamp of
         // the previous MEDIAN_TIME_SPAN blocks, and less than the network-adjusted
         // time + MAX_FUTURE_BLOCK_TIME.
-        if header.time <= self.median_time_past(height) {
+        if header.time <= self.branch_median_time_past(height, branch) {
             return Err(Error::InvalidBlockTime(header.time, Ordering::Less));
         }
         if header.time > clock.block_time() + time::MAX_FUTURE_BLOCK_TIME {
@@ -495,12 +534,20 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     }
 
     /// Get the next minimum-difficulty target. Only valid in testnet and regtest networks.
-    fn next_min_difficulty_target(&self, params: &Params) -> Bits {
+    fn next_min_difficulty_target(
+        &self,
+        tip: Height,
+        branch: &[BlockHeader],
+        params: &Params,
+    ) -> Bits {
         assert!(params.allow_min_difficulty_blocks);
 
         let pow_limit_bits = block::pow_limit_bits(&params.network);
 
-        for (height, header) in self.iter().rev() {
+        for (height, header) in (0..=tip)
+            .rev()
+            .filter_map(|height| Some((height, self.branch_block(height, tip, branch)?)))
+        {
             if header.bits != pow_limit_bits
                 || height % self.params.difficulty_adjustment_interval() == 0
             {
@@ -633,7 +680,7 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         if header.prev_blockhash == tip.hash() {
             let height = tip.height + 1;
 
-            self.validate(tip, &header, clock)?;
+            self.validate(tip, &[], &header, clock)?;
             self.extend_chain(height, hash, header);
             self.store.put(std::iter::once(header))?;
 
diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index f02f2ed..6cd8e0b 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -219,6 +219,18 @@ pub trait BlockReader {
         let last_adjustment_block = self
             .get_block_by_height(last_adjustment_height)
             .unwrap_or_else(|| self.genesis());
+
+        self.adjusted_difficulty_target(last_adjustment_block, last_time, last_target, params)
+    }
+    /// Get the adjusted difficulty, given the first block of the difficulty adjustment interval,
+    /// and the time and target of the last block of that interval.
+    fn adjusted_difficulty_target(
+        &self,
+        last_adjustment_block: &BlockHeader,
+        last_time: BlockTime,
+        last_target: Target,
+        params: &Params,
+    ) -> Bits {
         let last_adjustment_time = last_adjustment_block.time;
 
         if params.no_pow_retargeting {
-- 
2.43.0


From 8e0aa992c4eda1ce4c41fd66372498f10f8874ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:43 +0000
Subject: [PATCH 02/47] fix: don't underflow when a difficulty interval ends
 before it starts

Block times need not be increasing, so the timespan of an interval may be
negative. It is then clamped to the minimum, like any short timespan.
---
 common/src/block/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/block/tree.rs b/common/src/block/tree.rs
index 6cd8e0b..5e3befa 100644
--- a/common/src/block/tree.rs
+++ b/common/src/block/tree.rs
@@ -237,7 +237,7 @@ pub trait BlockReader {
             return last_adjustment_block.bits;
         }
 
-        let actual_timespan = last_time - last_adjustment_time;
+        let actual_timespan = last_time.saturating_sub(last_adjustment_time);
         let mut adjusted_timespan = actual_timespan;
 
         if actual_timespan < params.pow_target_timespan as BlockTime / 4 {
-- 
2.43.0


From 0c9e7b9faaadc6f8bb5f0c4a6fca4c476fb8bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:43 +0000
Subject: [PATCH 03/47] fix: never re-org to a branch that forks off prior to
 the last checkpoint

A branch could be stored before the active chain reached a checkpoint, and be
extended later to replace the checkpointed block, if it was shorter than the
checkpoint height but carried more work.
---
 chain/src/block/cache.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 71e3ab1..567473d 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -396,6 +396,11 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
 
         for tip in self.orphans.keys() {
             if let Some(branch) = self.fork(tip) {
+                // Branches that were discovered before the last checkpoint was reached are not
+                // eligible anymore if they fork off prior to it.
+                if branch.fork_height < self.last_checkpoint() {
+                    continue;
+                }
                 if self.validate_branch(&branch, clock).is_ok() {
                     branches.push(branch);
                 }
-- 
2.43.0


From 006d603baedab86b977369f7c2d5f7f209a86464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:11 +0000
Subject: [PATCH 04/47] fix: report exactly how the chain changed in a batch
 import

Blocks that were active before the import, and that were disconnected and
connected again during it, were reported as connected, or not reported as
reverted if they were disconnected once more.
---
 chain/src/block/cache.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index 567473d..cd468ca 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -633,8 +633,14 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
                     reverted: r,
                     connected: c,
                 }) => {
+                    // Only keep track of blocks reverted from the original chain, ie. not the ones
+                    // that were connected as part of this import.
+                    reverted.extend(
+                        r.into_iter()
+                            .map(|(i, h)| ((i, h.block_hash()), h))
+                            .filter(|((_, h), _)| !seen.contains(h)),
+                    );
                     seen.extend(c.iter().map(|(_, h)| h.block_hash()));
-                    reverted.extend(r.into_iter().map(|(i, h)| ((i, h.block_hash()), h)));
                     connected.extend(c);
 
                     best_hash = hash;
@@ -649,11 +655,14 @@ impl<S: Store<Header = BlockHeader>> BlockTree for BlockCache<S> {
         }
 
         if !connected.is_empty() {
-            // Don't return reverted blocks if they were seen as connected at some point, since
-            // we only want to include blocks reverted from the main chain.
-            reverted.retain(|(_, h), _| !seen.contains(h) && !self.contains(h));
-            // Don't return connected blocks if they are not in the main chain.
-            connected.retain(|_, h| self.contains(&h.block_hash()));
+            // Don't return connected blocks if they are not in the main chain, or if they were
+            // already there before the import.
+            connected.retain(|i, h| {
+                let hash = h.block_hash();
+                self.contains(&hash) && !reverted.contains_key(&(*i, hash))
+            });
+            // Don't return reverted blocks if they are back in the main chain.
+            reverted.retain(|(_, h), _| !self.contains(h));
 
             Ok(ImportResult::TipChanged {
                 header: best_header,
-- 
2.43.0


From 12af9b6a69f56edb715d6a19dbdce72172a47fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:46 +0000
Subject: [PATCH 05/47] fix: don't overflow when adjusting network time

Extreme peer offsets, or local times close to the limits of `BlockTime` made
the network-adjusted clock panic.
---
 common/src/block/time.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/src/block/time.rs b/common/src/block/time.rs
index b38e2b6..acefb9d 100644
--- a/common/src/block/time.rs
+++ b/common/src/block/time.rs
@@ -230,7 +230,7 @@ impl<K: Hash + Eq> AdjustedTime<K> {
             let median_offset: TimeOffset = offsets[count / 2];
 
             // Don't let other nodes change our time by more than a certain amount.
-            if median_offset.abs() <= MAX_TIME_ADJUSTMENT {
+            if median_offset.unsigned_abs() <= MAX_TIME_ADJUSTMENT as u64 {
                 self.offset = median_offset;
             } else {
                 // TODO: Check whether other nodes have times similar to ours, otherwise
@@ -252,9 +252,9 @@ impl<K: Hash + Eq> AdjustedTime<K> {
         let adjustment = self.offset;
 
         if adjustment > 0 {
-            time + adjustment as BlockTime
+            time.saturating_add(adjustment as BlockTime)
         } else {
-            time - adjustment.unsigned_abs() as BlockTime
+            time.saturating_sub(adjustment.unsigned_abs() as BlockTime)
         }
     }
 
-- 
2.43.0


From dd263dec8b5a47e8a640ef73e9a2a198bf27bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:46 +0000
Subject: [PATCH 06/47] fix: don't overflow on extreme peer timestamps

The timestamp of a `version` message is an arbitrary 64-bit integer.
---
 p2p/src/fsm/peermgr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index c263f7b..cd59143 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -521,7 +521,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                     peer: Some(PeerInfo {
                         nonce,
                         height: start_height as Height,
-                        time_offset: timestamp - now.block_time() as i64,
+                        time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
                         persistent,
                         user_agent,
-- 
2.43.0


From d274e8e349f229ec4ea0ba464886f634d9091491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:46 +0000
Subject: [PATCH 07/47] fix: account for replaced filters in the filter cache

The size of a replaced filter was never subtracted, so that the cache size
drifted, and filters were evicted for no reason.
---
 p2p/src/fsm/filter_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/filter_cache.rs b/p2p/src/fsm/filter_cache.rs
index 08c69e9..6346d2f 100644
--- a/p2p/src/fsm/filter_cache.rs
+++ b/p2p/src/fsm/filter_cache.rs
@@ -124,7 +124,9 @@ impl<T: Filter> FilterCache<T> {
             return false;
         }
 
-        self.cache.insert(height, filter);
+        if let Some(replaced) = self.cache.insert(height, filter) {
+            self.size -= replaced.len();
+        }
         self.size += size;
 
         while self.size > self.capacity {
-- 
2.43.0


From 12affa6a118badfd9149166b0c59837c6661fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:46 +0000
Subject: [PATCH 08/47] fix: don't rollback fee estimator past the requested
 height

Rolling back blocks that were never processed by the estimator discarded the
last processed block.
---
 p2p/src/fsm/fees.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/src/fsm/fees.rs b/p2p/src/fsm/fees.rs
index 4ec322a..eb65a5e 100644
--- a/p2p/src/fsm/fees.rs
+++ b/p2p/src/fsm/fees.rs
@@ -125,6 +125,10 @@ impl FeeEstimator {
 
     /// Rollback to a certain height.
     pub fn rollback(&mut self, height: Height) {
+        // Nothing was processed above the given height.
+        if height >= self.height {
+            return;
+        }
         self.snapshots.retain(|(h, _)| h <= &height);
 
         if let Some((h, snapshot)) = self.snapshots.pop_back() {
-- 
2.43.0


From 8c613ac8fc1cbef2e4ea7ce8b14a6b347028b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:46 +0000
Subject: [PATCH 09/47] fix: don't panic on unbalanced transactions in fee
 estimator

Blocks are received from the network and aren't fully validated.
---
 p2p/src/fsm/fees.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/p2p/src/fsm/fees.rs b/p2p/src/fsm/fees.rs
index eb65a5e..dbf834c 100644
--- a/p2p/src/fsm/fees.rs
+++ b/p2p/src/fsm/fees.rs
@@ -152,7 +152,7 @@ impl FeeEstimator {
                 vout: vout as u32,
             };
             self.utxos.insert(outpoint, output.clone());
-            sent += output.value;
+            sent = output.value.saturating_add(sent);
         }
         // Since coinbase transactions have no inputs, we only process the outputs.
         if tx.is_coin_base() {
@@ -165,14 +165,13 @@ impl FeeEstimator {
         // the transaction fee. If one is missing, we have to bail.
         for input in tx.input.iter() {
             if let Some(out) = self.utxos.remove(&input.previous_output) {
-                received += out.value;
+                received = out.value.saturating_add(received);
             } else {
                 return None;
             }
         }
-        assert!(received >= sent, "you can't spend what you don't have",);
-
-        let fee = received - sent;
+        // Blocks aren't fully validated, so we can't assume that transactions balance.
+        let fee = u64::checked_sub(received, sent)?;
         let weight = tx.weight();
         let rate = fee as f64 / (weight as f64 / WITNESS_SCALE_FACTOR as f64);
 
-- 
2.43.0


From c499e5a0751ad3ea84f653201c532cc640c7ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:46 +0000
Subject: [PATCH 10/47] fix: don't panic on malformed addresses in the peer
 cache

---
 common/src/p2p/peer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/p2p/peer.rs b/common/src/p2p/peer.rs
index 37bf3ef..f2e0d0d 100644
--- a/common/src/p2p/peer.rs
+++ b/common/src/p2p/peer.rs
@@ -288,7 +288,7 @@ impl KnownAddress {
         };
 
         let addr = match obj.get("address") {
-            Some(Value::String(addr)) => addr.parse().unwrap(),
+            Some(Value::String(addr)) => addr.parse().map_err(|_| serde::Error)?,
             _ => return Err(serde::Error),
         };
         let services = match obj.get("services") {
-- 
2.43.0


From 2c743cbb8a81857d597f511e16e3deb0d91f300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:46 +0000
Subject: [PATCH 11/47] fix: return an error on malformed messages that are too
 short

A complete message with a payload that was too short for its type was treated
as incomplete. No further message was ever decoded, and the input buffer grew
indefinitely.
---
 p2p/src/stream.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/p2p/src/stream.rs b/p2p/src/stream.rs
index 91975be..25bf95d 100644
--- a/p2p/src/stream.rs
+++ b/p2p/src/stream.rs
@@ -11,6 +11,21 @@ pub struct Decoder {
     unparsed: Vec<u8>,
 }
 
+/// Reads from a byte slice, while keeping track of whether more bytes than available were needed.
+struct Reader<'a> {
+    bytes: &'a [u8],
+    exhausted: bool,
+}
+
+impl<'a> io::Read for Reader<'a> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let n = self.bytes.read(buf)?;
+        self.exhausted |= n < buf.len();
+
+        Ok(n)
+    }
+}
+
 impl Decoder {
     /// Create a new stream decoder.
     pub fn new(capacity: usize) -> Self {
@@ -26,14 +41,23 @@ impl Decoder {
 
     /// Decode and return the next message. Returns [`None`] if nothing was decoded.
     pub fn decode_next<D: Decodable>(&mut self) -> Result<Option<D>, encode::Error> {
-        match encode::deserialize_partial::<D>(&self.unparsed) {
-            Ok((msg, index)) => {
+        let mut reader = Reader {
+            bytes: &self.unparsed,
+            exhausted: false,
+        };
+        match D::consensus_decode_from_finite_reader(&mut reader) {
+            Ok(msg) => {
+                let index = self.unparsed.len() - reader.bytes.len();
                 // Drain deserialized bytes only.
                 self.unparsed.drain(..index);
                 Ok(Some(msg))
             }
 
-            Err(encode::Error::Io(ref err)) if err.kind() == io::ErrorKind::UnexpectedEof => {
+            // Only wait for more data if the input was used up. Otherwise, it's the message that
+            // is malformed.
+            Err(encode::Error::Io(ref err))
+                if err.kind() == io::ErrorKind::UnexpectedEof && reader.exhausted =>
+            {
                 Ok(None)
             }
             Err(err) => Err(err),
-- 
2.43.0


From 4dbebb486a901e35a44be20d3d20148daebae47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:46 +0000
Subject: [PATCH 12/47] fix: bound the size of the input buffer of the stream
 decoder

A peer could announce a message of up to 4GB and have us buffer it.
---
 p2p/src/stream.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/p2p/src/stream.rs b/p2p/src/stream.rs
index 25bf95d..6183427 100644
--- a/p2p/src/stream.rs
+++ b/p2p/src/stream.rs
@@ -3,6 +3,16 @@ use std::io;
 
 use nakamoto_common::bitcoin::consensus::{encode, Decodable};
 
+/// Maximum size of a message, including the message header.
+pub const MAX_MESSAGE_SIZE: usize = 24 + 4_000_000;
+
+fn oversized(requested: usize) -> encode::Error {
+    encode::Error::OversizedVectorAllocation {
+        requested,
+        max: MAX_MESSAGE_SIZE,
+    }
+}
+
 /// Message stream decoder.
 ///
 /// Used to for example turn a byte stream into network messages.
@@ -48,6 +58,9 @@ impl Decoder {
         match D::consensus_decode_from_finite_reader(&mut reader) {
             Ok(msg) => {
                 let index = self.unparsed.len() - reader.bytes.len();
+                if index > MAX_MESSAGE_SIZE {
+                    return Err(oversized(index));
+                }
                 // Drain deserialized bytes only.
                 self.unparsed.drain(..index);
                 Ok(Some(msg))
@@ -58,6 +71,9 @@ impl Decoder {
             Err(encode::Error::Io(ref err))
                 if err.kind() == io::ErrorKind::UnexpectedEof && reader.exhausted =>
             {
+                if self.unparsed.len() > MAX_MESSAGE_SIZE {
+                    return Err(oversized(self.unparsed.len()));
+                }
                 Ok(None)
             }
             Err(err) => Err(err),
-- 
2.43.0


From a06c6e9b1728c2fdaaad5885542e97ed13776690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:31 +0000
Subject: [PATCH 13/47] hook: expose the peer cache for verification, behind
 cfg(nakamoto_verif)

---
 client/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/src/lib.rs b/client/src/lib.rs
index e326948..cb5af9b 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -14,3 +14,9 @@ pub mod handle;
 
 #[cfg(test)]
 mod tests;
+
+/// Access to internals, for verification.
+#[cfg(nakamoto_verif)]
+pub mod verif {
+    pub use crate::peer::Cache;
+}
-- 
2.43.0


From bd0f8b4051efbdccefe3f9d2613c3a7b14a9237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:01 +0000
Subject: [PATCH 14/47] fix: reject getcfheaders requests with an invalid range
 instead of panicking or answering partially

---
 chain/src/filter/cache.rs |  2 +-
 p2p/src/fsm/cbfmgr.rs     | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/chain/src/filter/cache.rs b/chain/src/filter/cache.rs
index 8f62ac8..f21f16c 100644
--- a/chain/src/filter/cache.rs
+++ b/chain/src/filter/cache.rs
@@ -144,7 +144,7 @@ impl<S: Store<Header = StoredHeader>> Filters for FilterCache<S> {
         self.headers
             .iter()
             .skip(start as usize)
-            .take(end as usize - start as usize + 1)
+            .take((end as usize + 1).saturating_sub(start as usize))
             .map(|h| (h.hash, h.header))
             .collect()
     }
diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index b3d6d99..a4f2e70 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -748,8 +748,18 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             });
         };
 
+        if start_height > stop_height
+            || (stop_height - start_height) as usize >= MAX_MESSAGE_CFHEADERS
+        {
+            return Err(Error::InvalidMessage {
+                from,
+                reason: "getcfheaders: invalid range",
+            });
+        }
+
+        // Only answer if we have all of the requested headers.
         let headers = self.filters.get_headers(start_height..=stop_height);
-        if !headers.is_empty() {
+        if headers.len() as Height == stop_height - start_height + 1 {
             let hashes = headers.iter().map(|(hash, _)| *hash);
             let prev_header = self.filters.get_prev_header(start_height).expect(
                 "FilterManager::received_getcfheaders: all headers up to the tip must exist",
-- 
2.43.0


From cf9b2c0cbc9f2bd2afcd4f8a04b28af9554369ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:01 +0000
Subject: [PATCH 15/47] fix: return an error when filters are requested beyond
 the filter chain, instead of panicking

---
 p2p/src/fsm/cbfmgr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index a4f2e70..83bc602 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -446,7 +446,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if range.is_empty() {
             return Err(GetFiltersError::InvalidRange);
         }
-        assert!(*range.end() <= self.filters.height());
+        if *range.end() > self.filters.height() {
+            return Err(GetFiltersError::InvalidRange);
+        }
 
         // TODO: Only ask peers synced to a certain height.
         // Choose a different peer for each requested range.
-- 
2.43.0


From 91643408a1cedb271a1790ffb2df7475c1f15181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:36 +0000
Subject: [PATCH 16/47] fix: rescans cover exactly the requested range, and use
 cached filters and fetch their matches on every path

---
 p2p/src/fsm/cbfmgr.rs        | 77 +++++++++++++++++++-----------------
 p2p/src/fsm/cbfmgr/rescan.rs |  7 +++-
 2 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 83bc602..3f75607 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -188,6 +188,17 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             Event::PeerDisconnected { addr, .. } => {
                 self.peers.remove(&addr);
             }
+            Event::FilterProcessed {
+                matched: true,
+                block,
+                height,
+                ..
+            } => {
+                // Fetch matching blocks, however their filter came to be processed.
+                if tree.get_block(&block).is_some() && self.pending_blocks.insert(height) {
+                    blocks.get_block(block);
+                }
+            }
             Event::BlockProcessed { block, height, .. } => {
                 if self.pending_blocks.remove(&height) {
                     self.outbox.event(Event::BlockMatched { block, height });
@@ -352,8 +363,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if now - self.last_processed.unwrap_or_default() >= DEFAULT_REQUEST_TIMEOUT {
             if self.rescan.active {
                 self.rescan.reset(); // Clear pending request queue.
-                self.get_cfilters(self.rescan.current..=self.filters.height(), tree)
-                    .ok();
+                self.advance(tree);
             }
         }
     }
@@ -379,19 +389,19 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         watch: Vec<Script>,
         tree: &T,
     ) -> Vec<(Height, BlockHash)> {
-        self.rescan.restart(
-            match start {
-                Bound::Unbounded => tree.height() + 1,
-                Bound::Included(h) => h,
-                Bound::Excluded(h) => h + 1,
-            },
-            match end {
-                Bound::Unbounded => None,
-                Bound::Included(h) => Some(h),
-                Bound::Excluded(h) => Some(h - 1),
-            },
-            watch,
-        );
+        let start = match start {
+            Bound::Unbounded => tree.height() + 1,
+            Bound::Included(h) => h,
+            Bound::Excluded(h) => h.saturating_add(1),
+        };
+        let (start, end) = match end {
+            Bound::Unbounded => (start, None),
+            Bound::Included(h) => (start, Some(h)),
+            // There is nothing below the genesis: the range is empty.
+            Bound::Excluded(0) => (start.max(1), Some(0)),
+            Bound::Excluded(h) => (start, Some(h - 1)),
+        };
+        self.rescan.restart(start, end, watch);
 
         self.outbox.event(Event::FilterRescanStarted {
             start: self.rescan.start,
@@ -401,29 +411,25 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         if self.rescan.watch.is_empty() {
             return vec![];
         }
+        // Start fetching the filters we can, and process those that are cached.
+        self.advance(tree)
+    }
 
+    /// Request the filters that are missing to advance the rescan, and process the ones we have.
+    ///
+    /// Returns the matching blocks.
+    fn advance<T: BlockReader>(&mut self, tree: &T) -> Vec<(Height, BlockHash)> {
+        // Don't request further than the filter chain height, or the end of the rescan.
         let height = self.filters.height();
-        let start = self.rescan.start;
-        let stop = self
-            .rescan
-            .end
-            // Don't request further than the filter chain height.
-            .map(|h| Height::min(h, height))
-            .unwrap_or(height);
-        let range = start..=stop;
+        let stop = self.rescan.end.map_or(height, |h| Height::min(h, height));
+        let range = self.rescan.current..=stop;
 
-        if range.is_empty() {
-            return vec![];
-        }
-
-        // Start fetching the filters we can.
-        match self.get_cfilters(range, tree) {
-            Ok(()) => {}
-            Err(GetFiltersError::NotConnected) => {}
-            Err(err) => panic!("{}: Error fetching filters: {}", source!(), err),
+        if !range.is_empty() {
+            // Nb. If we aren't connected, the request is made when a peer connects.
+            self.get_cfilters(range, tree).ok();
         }
-        // When we reset the rescan range, there is the possibility of getting immediate cache
-        // hits from `get_cfilters`. Hence, process the filter queue.
+        // There is the possibility of getting immediate cache hits from `get_cfilters`.
+        // Hence, process the filter queue.
         let (matches, events, _) = self.rescan.process();
         for event in events {
             self.outbox.event(event);
@@ -596,8 +602,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
         if self.rescan.active {
             // TODO: Don't do this too often.
-            self.get_cfilters(self.rescan.current..=self.filters.height(), tree)
-                .ok();
+            self.advance(tree);
         }
     }
 
diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index f308520..13e36ef 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -110,7 +110,10 @@ impl Rescan {
         let mut current = self.current;
         let old = current;
 
-        while let Some((filter, block_hash, cached)) = self.received.remove(&current) {
+        while self.active && self.end.map_or(true, |end| current <= end) {
+            let Some((filter, block_hash, cached)) = self.received.remove(&current) else {
+                break;
+            };
             let (matched, valid) = if let Ok(matched) = self.match_filter(&filter, &block_hash) {
                 (matched, true)
             } else {
@@ -132,7 +135,7 @@ impl Rescan {
         self.current = current;
 
         if let Some(stop) = self.end {
-            if self.current == stop {
+            if self.active && self.current > stop {
                 self.active = false;
                 events.push(Event::FilterRescanStopped { height: stop });
             }
-- 
2.43.0


From 08cb3e89c05f30fd0957e942289973087361bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:11 +0000
Subject: [PATCH 17/47] fix: keep filter requests and received filters
 consistent with the active chain across re-orgs

---
 p2p/src/fsm/cbfmgr.rs        | 21 ++++++++++++++-------
 p2p/src/fsm/cbfmgr/rescan.rs |  4 +++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 3f75607..1f87735 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -230,6 +230,9 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
                     if let Err(e) = self.rollback(fork_height) {
                         self.outbox.error(e);
                     }
+                    // Forget about requests for blocks that are no longer part of the chain.
+                    self.inflight
+                        .retain(|stop_hash, _| tree.get_block(stop_hash).is_some());
                 }
                 // Trigger a filter sync, since we're going to have to catch up on the
                 // new block header(s). This is not required, but reduces latency.
@@ -576,7 +579,10 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         let filter_height = self.filters.height();
         let block_height = tree.height();
 
-        assert!(filter_height <= block_height);
+        if filter_height > block_height {
+            // The filter header chain is about to be rolled back, due to a re-org.
+            return;
+        }
 
         // Don't start syncing filter headers until block headers are synced passed the last
         // checkpoint. BIP 157 states that we should sync the full block header chain before
@@ -623,13 +629,15 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         let from = *from;
         let stop_hash = msg.stop_hash;
 
-        if self.inflight.remove(&stop_hash).is_none() {
+        if !matches!(self.inflight.get(&stop_hash), Some((_, peer, _)) if *peer == from) {
             return Err(Error::Ignored {
                 from,
                 reason: "unsolicited `cfheaders` message",
             });
         }
 
+        self.inflight.remove(&stop_hash);
+
         if msg.filter_type != 0x0 {
             return Err(Error::InvalidMessage {
                 from,
@@ -641,9 +649,10 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         let stop_height = if let Some((height, _)) = tree.get_block(&stop_hash) {
             height
         } else {
-            return Err(Error::InvalidMessage {
+            // We requested this, but the block is no longer part of the active chain.
+            return Err(Error::Ignored {
                 from,
-                reason: "unknown `cfheaders` stop hash",
+                reason: "stale `cfheaders` stop hash",
             });
         };
 
@@ -711,9 +720,7 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
         self.filters
             .import_headers(headers)
             .map(|height| {
-                self.headers_imported(start_height, height, tree).unwrap(); // TODO
-
-                assert!(height <= tree.height());
+                self.headers_imported(start_height, height, tree).ok();
 
                 if height == tree.height() {
                     self.outbox.event(Event::FilterHeadersSynced { height });
diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index 13e36ef..b47f4c9 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -83,7 +83,9 @@ impl Rescan {
 
     /// Rollback state to height.
     pub fn rollback(&mut self, to: Height) {
-        self.cache.rollback(to)
+        self.cache.rollback(to);
+        // The filters of the blocks above this height belong to the old chain.
+        self.received.retain(|height, _| *height <= to);
     }
 
     /// A filter was received.
-- 
2.43.0


From 5cab5a9491f99fa1de0295c24244789b0fd0c1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:39 +0000
Subject: [PATCH 18/47] fix: detect self-connections by the nonces we sent

---
 p2p/src/fsm/peermgr.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index cd59143..061484e 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -157,8 +157,6 @@ pub struct PeerInfo {
     /// Whether this is a persistent peer.
     pub persistent: bool,
 
-    /// Peer nonce. Used to detect self-connections.
-    nonce: u64,
     /// Peer handshake state.
     state: HandshakeState,
 }
@@ -182,6 +180,8 @@ pub struct PeerManager<C> {
     peers: HashMap<net::SocketAddr, Peer>,
     /// Peers that have been disconnected and a retry attempt is scheduled.
     disconnected: HashMap<net::SocketAddr, (Option<LocalTime>, usize)>,
+    /// Nonces sent to outbound peers. Used to detect self-connections.
+    nonces: HashMap<net::SocketAddr, u64>,
     outbox: Outbox,
     rng: fastrand::Rng,
     hooks: Hooks,
@@ -201,12 +201,14 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
     pub fn new(config: Config, rng: fastrand::Rng, hooks: Hooks, clock: C) -> Self {
         let peers = HashMap::with_hasher(rng.clone().into());
         let disconnected = HashMap::with_hasher(rng.clone().into());
+        let nonces = HashMap::with_hasher(rng.clone().into());
 
         Self {
             config,
             last_idle: None,
             peers,
             disconnected,
+            nonces,
             outbox: Outbox::default(),
             rng,
             hooks,
@@ -339,6 +341,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             }
             Link::Outbound => {
                 let nonce = self.rng.u64(..);
+                self.nonces.insert(addr, nonce);
                 self.outbox.version(
                     addr,
                     self.version(addr, local_addr, nonce, height, local_time),
@@ -380,6 +383,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             }
         }
         self.peers.remove(addr);
+        self.nonces.remove(addr);
 
         if self.config.persistent.contains(addr) {
             self.persistent_disconnected(addr, local_time);
@@ -471,10 +475,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             }
             // Check for self-connections. We only need to check one link direction,
             // since in the case of a self-connection, we will see both link directions.
-            for (peer, conn) in self.peers() {
-                if conn.link.is_outbound() && peer.nonce == nonce {
-                    return Err(DisconnectReason::SelfConnection);
-                }
+            if conn.link.is_inbound() && self.nonces.values().any(|n| *n == nonce) {
+                return Err(DisconnectReason::SelfConnection);
             }
 
             // If this peer doesn't have the preferred services, and we already have enough peers,
@@ -493,6 +495,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
 
             match conn.link {
                 Link::Inbound => {
+                    let nonce = self.rng.u64(..);
                     self.outbox
                         .version(
                             conn.addr,
@@ -519,7 +522,6 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 Peer::Connected {
                     conn,
                     peer: Some(PeerInfo {
-                        nonce,
                         height: start_height as Height,
                         time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
-- 
2.43.0


From 267ae66877c5c4ee5419376119b3a309a8eecb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:48 +0000
Subject: [PATCH 19/47] fix: connect to a peer that is being disconnected once
 its connection is closed

---
 p2p/src/fsm/peermgr.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 061484e..3dd80ec 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -182,6 +182,8 @@ pub struct PeerManager<C> {
     disconnected: HashMap<net::SocketAddr, (Option<LocalTime>, usize)>,
     /// Nonces sent to outbound peers. Used to detect self-connections.
     nonces: HashMap<net::SocketAddr, u64>,
+    /// Peers to connect to again, once they are disconnected.
+    reconnect: HashSet<net::SocketAddr>,
     outbox: Outbox,
     rng: fastrand::Rng,
     hooks: Hooks,
@@ -202,6 +204,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
         let peers = HashMap::with_hasher(rng.clone().into());
         let disconnected = HashMap::with_hasher(rng.clone().into());
         let nonces = HashMap::with_hasher(rng.clone().into());
+        let reconnect = HashSet::with_hasher(rng.clone().into());
 
         Self {
             config,
@@ -209,6 +212,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             peers,
             disconnected,
             nonces,
+            reconnect,
             outbox: Outbox::default(),
             rng,
             hooks,
@@ -385,7 +389,9 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
         self.peers.remove(addr);
         self.nonces.remove(addr);
 
-        if self.config.persistent.contains(addr) {
+        if self.reconnect.remove(addr) {
+            self.connect(addr);
+        } else if self.config.persistent.contains(addr) {
             self.persistent_disconnected(addr, local_time);
         } else {
             // If an outbound peer disconnected, we should make sure to maintain
@@ -741,13 +747,15 @@ impl<C: Clock> PeerManager<C> {
         if self.is_connected(addr) || self.is_connecting(addr) {
             return true;
         }
-        if !self.is_disconnected(addr) && !self.is_disconnecting(addr) {
-            return false;
-        }
         // Don't allow connections to unsupported domains.
         if !self.config.domains.contains(&Domain::for_address(addr)) {
             return false;
         }
+        // Wait for the existing connection to be closed.
+        if self.is_disconnecting(addr) {
+            self.reconnect.insert(*addr);
+            return true;
+        }
         self.peers.insert(*addr, Peer::Connecting { time });
         self.outbox.connect(*addr, CONNECTION_TIMEOUT);
 
-- 
2.43.0


From beab63c5c0338edc70360774577224870980dac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:55 +0000
Subject: [PATCH 20/47] fix: report connections that fail to be dialed

---
 p2p/src/fsm/peermgr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 3dd80ec..76a15c9 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -380,8 +380,10 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             });
         } else if self.is_connecting(addr) {
             // If we haven't yet established a connection, the disconnect reason
-            // should always be a `ConnectionError`.
-            if let network::Disconnect::ConnectionError(error) = reason {
+            // should always be a `ConnectionError` or `DialError`.
+            if let network::Disconnect::ConnectionError(error)
+            | network::Disconnect::DialError(error) = reason
+            {
                 self.outbox
                     .event(Event::PeerConnectionFailed { addr: *addr, error });
             }
-- 
2.43.0


From d2ce7bcbc429076df278778add5806d1be3e972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:02 +0000
Subject: [PATCH 21/47] fix: negotiate only once per connection, and don't take
 negative heights for huge ones

---
 p2p/src/fsm/peermgr.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 76a15c9..0ce9ac5 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -436,7 +436,12 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
     ) -> Result<(), DisconnectReason> {
         let now = self.clock.local_time();
 
-        if let Some(Peer::Connected { conn, .. }) = self.peers.get(addr) {
+        if let Some(Peer::Connected { conn, peer }) = self.peers.get(addr) {
+            if peer.is_some() {
+                return Err(DisconnectReason::PeerMisbehaving(
+                    "duplicate `version` message received",
+                ));
+            }
             let VersionMessage {
                 // Peer's best height.
                 start_height,
@@ -457,6 +462,8 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 ..
             } = msg.clone();
 
+            // Nb. The height is a signed integer on the wire.
+            let start_height = start_height.max(0) as Height;
             let target = self.config.target_outbound_peers;
             let preferred = self.config.preferred_services;
             let trusted = self.config.whitelist.contains(&addr.ip(), &user_agent)
@@ -476,10 +483,10 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
             // If the peer is too far behind, there's no use connecting to it, we'll
             // have to wait for it to catch up.
             if conn.link.is_outbound()
-                && height.saturating_sub(start_height as Height) > MAX_STALE_HEIGHT_DIFFERENCE
+                && height.saturating_sub(start_height) > MAX_STALE_HEIGHT_DIFFERENCE
                 && !trusted
             {
-                return Err(DisconnectReason::PeerHeight(start_height as Height));
+                return Err(DisconnectReason::PeerHeight(start_height));
             }
             // Check for self-connections. We only need to check one link direction,
             // since in the case of a self-connection, we will see both link directions.
@@ -530,7 +537,7 @@ impl<C: AdjustedClock<PeerId>> PeerManager<C> {
                 Peer::Connected {
                     conn,
                     peer: Some(PeerInfo {
-                        height: start_height as Height,
+                        height: start_height,
                         time_offset: timestamp.saturating_sub(now.block_time() as i64),
                         services,
                         persistent,
-- 
2.43.0


From 0ad25a232b7c53fdcf6ede621a7a6474ded2e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:19 +0000
Subject: [PATCH 22/47] fix: count connections per address, and only outbound
 ones towards the outbound target

---
 p2p/src/fsm/addrmgr.rs | 14 ++++++--------
 p2p/src/fsm/peermgr.rs | 13 +++++++------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 7d24d4a..7859429 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -61,7 +61,7 @@ impl<P: Store, C> AddressManager<P, C> {
             if time - ka.last_sampled.unwrap_or_default() < SAMPLE_TIMEOUT {
                 continue;
             }
-            if !self.connected.contains(addr) {
+            if !self.connected.iter().any(|a| a.ip() == *addr) {
                 return false;
             }
         }
@@ -94,7 +94,7 @@ pub struct AddressManager<P, C> {
     peers: P,
     bans: HashSet<net::IpAddr>,
     address_ranges: HashMap<u8, HashSet<net::IpAddr>>,
-    connected: HashSet<net::IpAddr>,
+    connected: HashSet<net::SocketAddr>,
     sources: HashSet<net::SocketAddr>,
     local_addrs: HashSet<net::SocketAddr>,
     /// The last time we asked our peers for new addresses.
@@ -233,14 +233,14 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
         if !self::is_routable(&addr.ip()) || self::is_local(&addr.ip()) {
             return;
         }
-        self.connected.insert(addr.ip());
+        self.connected.insert(*addr);
     }
 
     /// Called when a peer has handshaked.
     fn peer_negotiated(&mut self, addr: &net::SocketAddr, services: ServiceFlags, link: Link) {
         let time = self.clock.local_time();
 
-        if !self.connected.contains(&addr.ip()) {
+        if !self.connected.contains(addr) {
             return;
         }
         if link.is_outbound() {
@@ -268,7 +268,7 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
         addr: &net::SocketAddr,
         reason: Disconnect<super::DisconnectReason>,
     ) {
-        if self.connected.remove(&addr.ip()) {
+        if self.connected.remove(addr) {
             // Disconnected peers cannot be used as a source for new addresses.
             self.sources.remove(addr);
 
@@ -502,7 +502,7 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
                     continue;
                 }
                 // If we're already connected to this address, skip it.
-                if self.connected.contains(ip) {
+                if self.connected.iter().any(|a| a.ip() == *ip) {
                     continue;
                 }
                 // If the provided filter doesn't pass, keep looking.
@@ -551,8 +551,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
 
     /// Remove an address from the address book and prevent it from being sampled again.
     fn ban(&mut self, addr: &net::IpAddr) -> bool {
-        debug_assert!(!self.connected.contains(addr));
-
         let key = self::addr_key(addr);
 
         if let Some(range) = self.address_ranges.get_mut(&key) {
diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 0ce9ac5..72bf170 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -795,8 +795,9 @@ impl<C: Clock> PeerManager<C> {
         // Peers only with required services, which we'd eventually want to drop in favor of peers
         // that have all services.
         let secondary = self.negotiated(Link::Outbound).count() - primary;
-        // Connected peers that have not yet completed handshake.
-        let connected = self.connected().count() - primary - secondary;
+        // Connected outbound peers that have not yet completed handshake.
+        let connected =
+            self.connected().filter(|c| c.link.is_outbound()).count() - primary - secondary;
         // Connecting peers.
         let connecting = self.connecting().count();
 
@@ -859,10 +860,10 @@ impl<C: Clock> PeerManager<C> {
                 })
             {
                 if let Ok(sockaddr) = addr.socket_addr() {
-                    // TODO: Remove this assertion once address manager no longer cares about
-                    // connections.
-                    debug_assert!(!self.is_connected(&sockaddr));
-
+                    // The address manager may not know yet about our latest connections.
+                    if !self.is_disconnected(&sockaddr) {
+                        continue;
+                    }
                     if self.connect(&sockaddr) {
                         connecting.insert(sockaddr);
                         self.outbox.event(Event::PeerConnecting {
-- 
2.43.0


From e2eea63badd91e89bed6c03cd9e40619affde603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:26 +0000
Subject: [PATCH 23/47] fix: don't ignore imported addresses

---
 p2p/src/fsm/addrmgr.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 7859429..30bec39 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -368,8 +368,8 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             if addr.services.has(ServiceFlags::GETUTXO) || addr.services.has(ServiceFlags::BLOOM) {
                 continue;
             }
-            // Ignore addresses that don't have a "last active" time.
-            if last_active == 0 {
+            // Ignore addresses that don't have a "last active" time, unless the user imports them.
+            if last_active == 0 && source != Source::Imported {
                 continue;
             }
             // Ignore addresses that are too far into the future.
@@ -403,7 +403,6 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
             }
 
             let last_active = if last_active == 0 {
-                // TODO: Cannot be 'None' due to above condition.
                 None
             } else {
                 Some(LocalTime::from_block_time(last_active))
-- 
2.43.0


From fc4919eb0e2bc88381c502776acb61eed8389c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:01 +0000
Subject: [PATCH 24/47] fix: report headers imported before an aborted import,
 and penalise peers for invalid headers

---
 p2p/src/fsm/syncmgr.rs | 84 ++++++++++++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 24 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index da8d6de..3cfb1bf 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -243,37 +243,68 @@ impl<C: Clock> SyncManager<C> {
         blocks: I,
         tree: &mut T,
     ) -> Result<ImportResult, Error> {
+        let (old, _) = tree.tip();
         let result = tree.import_blocks(blocks, &self.clock);
 
-        if let Ok(ImportResult::TipChanged {
-            hash,
-            height,
-            reverted,
-            connected,
-            ..
-        }) = &result
-        {
-            let reorg = !reverted.is_empty();
-
-            for (height, header) in reverted.iter().cloned() {
-                self.outbox
-                    .event(Event::BlockDisconnected { height, header });
+        match &result {
+            Ok(ImportResult::TipChanged {
+                hash,
+                height,
+                reverted,
+                connected,
+                ..
+            }) => {
+                self.tip_changed(*hash, *height, reverted.clone(), connected.clone(), tree);
             }
-            for (height, header) in connected.iter().cloned() {
-                self.outbox.event(Event::BlockConnected { height, header });
+            // If the import was aborted, part of the headers may still have been imported.
+            Err(Error::BlockImportAborted(_, _, height)) if tree.tip().0 != old => {
+                if let Some((fork, branch)) = tree.find_branch(&old) {
+                    // The first header of the branch is on our active chain.
+                    let mut reverted = (fork + 1..).zip(branch.tail).collect::<Vec<_>>();
+                    reverted.reverse();
+
+                    let connected = (fork + 1..=*height)
+                        .filter_map(|h| tree.get_block_by_height(h).map(|b| (h, *b)))
+                        .collect::<Vec<_>>();
+
+                    if let Some(connected) = NonEmpty::from_vec(connected) {
+                        self.tip_changed(tree.tip().0, *height, reverted, connected, tree);
+                    }
+                }
             }
-            self.outbox.event(Event::BlockHeadersImported {
-                reorg,
-                hash: *hash,
-                height: *height,
-                connected: connected.clone(),
-                reverted: reverted.clone(),
-            });
-            self.broadcast_tip(hash, tree);
+            _ => {}
         }
         result
     }
 
+    /// Called when the tip of our active chain has changed.
+    fn tip_changed<T: BlockTree>(
+        &mut self,
+        hash: BlockHash,
+        height: Height,
+        reverted: Vec<(Height, BlockHeader)>,
+        connected: NonEmpty<(Height, BlockHeader)>,
+        tree: &T,
+    ) {
+        let reorg = !reverted.is_empty();
+
+        for (height, header) in reverted.iter().cloned() {
+            self.outbox
+                .event(Event::BlockDisconnected { height, header });
+        }
+        for (height, header) in connected.iter().cloned() {
+            self.outbox.event(Event::BlockConnected { height, header });
+        }
+        self.outbox.event(Event::BlockHeadersImported {
+            reorg,
+            hash,
+            height,
+            connected,
+            reverted,
+        });
+        self.broadcast_tip(&hash, tree);
+    }
+
     /// Called when we receive headers from a peer.
     pub fn received_headers<T: BlockTree>(
         &mut self,
@@ -314,7 +345,12 @@ impl<C: Clock> SyncManager<C> {
             return;
         }
 
-        match self.import_blocks(headers.into_iter(), tree) {
+        let result = match self.import_blocks(headers.into_iter(), tree) {
+            // Handle the error that caused the import to be aborted.
+            Err(Error::BlockImportAborted(err, _, _)) => Err(*err),
+            result => result,
+        };
+        match result {
             Ok(ImportResult::TipUnchanged) => {
                 // Try to find a common ancestor that leads up to the first header in
                 // the list we received.
-- 
2.43.0


From 77d2da13e336abd7d0d9811320011858a2a36f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:12 +0000
Subject: [PATCH 25/47] fix: keep syncing when the only peers ahead of us have
 been asked already, aren't preferred, or are on a long branch

---
 p2p/src/fsm/syncmgr.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 3cfb1bf..2ee62b5 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -351,6 +351,16 @@ impl<C: Clock> SyncManager<C> {
             result => result,
         };
         match result {
+            Ok(ImportResult::TipUnchanged)
+                if length == MAX_MESSAGE_HEADERS && tree.find_branch(&best).is_some() =>
+            {
+                // These headers are on a branch that doesn't have more work than our active
+                // chain yet, and there may be more of them.
+                let locators = (vec![best], BlockHash::all_zeros());
+                let timeout = self.config.request_timeout;
+
+                self.request(*from, locators, timeout, OnTimeout::Ignore);
+            }
             Ok(ImportResult::TipUnchanged) => {
                 // Try to find a common ancestor that leads up to the first header in
                 // the list we received.
@@ -422,8 +432,6 @@ impl<C: Clock> SyncManager<C> {
             return;
         }
         if let Some(peer) = self.peers.get_mut(&addr) {
-            debug_assert!(peer.last_asked.as_ref() != Some(&locators));
-
             peer.last_asked = Some(locators.clone());
 
             let sent_at = self.clock.local_time();
@@ -612,6 +620,18 @@ impl<C: Clock> SyncManager<C> {
             .iter()
             .filter(|(a, p)| self.is_request_candidate(a, p, locators))
             .find(|(_, p)| p.preferred && p.height > height)
+            .or_else(|| {
+                // Peers are not obliged to answer when they have no headers for us, so we may
+                // be left with peers we've already asked.
+                peers.iter().find(|(a, p)| {
+                    p.preferred && p.height > height && !self.inflight.contains_key(a)
+                })
+            })
+            .or_else(|| {
+                peers.iter().find(|(a, p)| {
+                    p.link.is_outbound() && p.height > height && !self.inflight.contains_key(a)
+                })
+            })
             .or_else(|| peers.iter().find(|(_, p)| p.preferred))
             .map(|(a, _)| **a)
     }
-- 
2.43.0


From 04a070862e8f6b2ad03eee49e131db24a28cb128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:05 +0000
Subject: [PATCH 26/47] fix: ignore messages that aren't part of the handshake
 until it's complete

---
 p2p/src/fsm.rs         | 15 +++++++++++++++
 p2p/src/fsm/peermgr.rs |  8 ++++++++
 2 files changed, 23 insertions(+)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index 0ffd448..982db8d 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -790,6 +790,21 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> traits:
             return;
         }
 
+        // Until the handshake with the peer is complete, ignore anything that isn't part of it.
+        if !self.peermgr.is_negotiated(&addr)
+            && !matches!(
+                msg.payload,
+                NetworkMessage::Version(_)
+                    | NetworkMessage::Verack
+                    | NetworkMessage::WtxidRelay
+                    | NetworkMessage::SendAddrV2
+                    | NetworkMessage::SendHeaders
+            )
+        {
+            debug!(target: "p2p", "Ignoring {:?} from {}: handshake isn't complete", cmd, addr);
+            return;
+        }
+
         // Nb. We only send this message internally, hence we don't
         // push it to our outbox.
         self.event(Event::MessageReceived {
diff --git a/p2p/src/fsm/peermgr.rs b/p2p/src/fsm/peermgr.rs
index 72bf170..aedf66a 100644
--- a/p2p/src/fsm/peermgr.rs
+++ b/p2p/src/fsm/peermgr.rs
@@ -706,6 +706,14 @@ impl<C: Clock> PeerManager<C> {
             .map_or(false, |c| matches!(c, Peer::Connected { .. }))
     }
 
+    /// Check whether a peer is negotiated, ie. whether the handshake with it is complete.
+    pub fn is_negotiated(&self, addr: &PeerId) -> bool {
+        self.peers.get(addr).map_or(
+            false,
+            |c| matches!(c, Peer::Connected { peer: Some(p), .. } if p.is_negotiated()),
+        )
+    }
+
     /// Check whether a peer is disconnected.
     pub fn is_disconnected(&self, addr: &PeerId) -> bool {
         !self.peers.contains_key(addr)
-- 
2.43.0


From 381d11696efe5fd35aabbbff1baa0c91ecc412d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:57 +0000
Subject: [PATCH 27/47] fix: deliver only authentic blocks of the active chain,
 don't let reverted blocks hold back others, and match confirmed transactions
 by txid

---
 p2p/src/fsm/invmgr.rs | 50 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index bf76a3b..5704635 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -199,8 +199,10 @@ impl<C: Clock> InventoryManager<C> {
     ) {
         // Add existing inventories to this peer's outbox so that they are announced.
         let mut outbox = HashMap::with_hasher(self.rng.clone().into());
-        for (wtxid, tx) in self.mempool.iter() {
-            outbox.insert(*wtxid, tx.txid());
+        if relay {
+            for (wtxid, tx) in self.mempool.iter() {
+                outbox.insert(*wtxid, tx.txid());
+            }
         }
         self.schedule_tick();
         self.peers.insert(
@@ -249,7 +251,7 @@ impl<C: Clock> InventoryManager<C> {
             // Prune confirmed transactions burried passed a certain depth.
             let height = tree.height();
             self.confirmed
-                .retain(|h, _| height - h <= TRANSACTION_PRUNE_DEPTH);
+                .retain(|h, _| height.saturating_sub(*h) <= TRANSACTION_PRUNE_DEPTH);
         }
 
         // Handle retries annd disconnects.
@@ -298,6 +300,11 @@ impl<C: Clock> InventoryManager<C> {
             self.outbox.event(Event::PeerTimedOut { addr });
         }
 
+        // Blocks that aren't part of the active chain can't be processed. This can be due to
+        // a re-org that happened after the block was requested.
+        self.remaining.retain(|hash, _| tree.get_block(hash).is_some());
+        self.process_received(tree);
+
         // Handle block request queue.
         let queue = self
             .remaining
@@ -396,12 +403,18 @@ impl<C: Clock> InventoryManager<C> {
     ) -> Vec<Txid> {
         let hash = block.block_hash();
 
-        if self.remaining.remove(&hash).is_none() {
+        if !self.remaining.contains_key(&hash) {
             // Nb. The remote isn't necessarily sending an unsolicited block here.
             // We often have to ask multiple peers to get a response, so we may
             // have already received this block once.
             return vec![];
         }
+        if !block.check_merkle_root() {
+            // These aren't the transactions of the block we've requested.
+            log::debug!(target: "p2p", "Received block {hash} with invalid transactions");
+            return vec![];
+        }
+        self.remaining.remove(&hash);
 
         // We're done requesting this block.
         for peer in self.peers.values_mut() {
@@ -420,6 +433,12 @@ impl<C: Clock> InventoryManager<C> {
         // Add to processing queue. Blocks are processed in-order only.
         self.received.insert(height, block);
 
+        self.process_received(tree)
+    }
+
+    /// Process the blocks received, in order, if there are no blocks left to download.
+    /// Returns the list of confirmed [`Txid`].
+    fn process_received<T: BlockReader>(&mut self, tree: &T) -> Vec<Txid> {
         // If there are still blocks remaining to download, don't process any of the
         // received queue yet.
         if !self.remaining.is_empty() {
@@ -439,12 +458,29 @@ impl<C: Clock> InventoryManager<C> {
         {
             let hash = block.block_hash();
 
+            // The block may have been reverted since it was received.
+            if tree.get_block(&hash).is_none() {
+                continue;
+            }
+
             for tx in &block.txdata {
-                let wtxid = tx.wtxid();
+                let txid = tx.txid();
+                // Nb. The blocks we request don't necessarily include witness data, so we can't
+                // use the block's `Wtxid` here.
+                let wtxids = self
+                    .mempool
+                    .iter()
+                    .filter(|(_, tx)| tx.txid() == txid)
+                    .map(|(wtxid, _)| *wtxid)
+                    .collect::<Vec<_>>();
 
                 // Attempt to remove confirmed transaction from mempool.
-                if let Some(transaction) = self.mempool.remove(&wtxid) {
-                    confirmed.push(tx.txid());
+                for (wtxid, transaction) in wtxids
+                    .into_iter()
+                    .filter_map(|w| self.mempool.remove(&w).map(|tx| (w, tx)))
+                    .collect::<Vec<_>>()
+                {
+                    confirmed.push(txid);
 
                     // Transactions that have been confirmed no longer need to be announced.
                     for peer in self.peers.values_mut() {
-- 
2.43.0


From e1d7a94c09921696d1368206b69744ab39513b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:11 +0000
Subject: [PATCH 28/47] fix: don't ask for headers of known stale blocks over
 and over

---
 p2p/src/fsm/syncmgr.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 2ee62b5..43c4f7e 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -344,6 +344,10 @@ impl<C: Clock> SyncManager<C> {
         if tree.contains(&best) {
             return;
         }
+        // If these headers lead up to a stale block we already know, there's nothing to import.
+        if length < MAX_MESSAGE_HEADERS && tree.find_branch(&best).is_some() {
+            return;
+        }
 
         let result = match self.import_blocks(headers.into_iter(), tree) {
             // Handle the error that caused the import to be aborted.
@@ -358,8 +362,11 @@ impl<C: Clock> SyncManager<C> {
                 // chain yet, and there may be more of them.
                 let locators = (vec![best], BlockHash::all_zeros());
                 let timeout = self.config.request_timeout;
+                let asked = self.peers.get(from).and_then(|p| p.last_asked.as_ref());
 
-                self.request(*from, locators, timeout, OnTimeout::Ignore);
+                if asked != Some(&locators) {
+                    self.request(*from, locators, timeout, OnTimeout::Ignore);
+                }
             }
             Ok(ImportResult::TipUnchanged) => {
                 // Try to find a common ancestor that leads up to the first header in
-- 
2.43.0


From 92be22205b22f996e58e4f1d08bd37748d710b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:38 +0000
Subject: [PATCH 29/47] fix: use cached filters only for the block they belong
 to

---
 p2p/src/fsm/cbfmgr/rescan.rs | 13 +++++++------
 p2p/src/fsm/filter_cache.rs  |  9 ++++++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr/rescan.rs b/p2p/src/fsm/cbfmgr/rescan.rs
index b47f4c9..ea5d6c0 100644
--- a/p2p/src/fsm/cbfmgr/rescan.rs
+++ b/p2p/src/fsm/cbfmgr/rescan.rs
@@ -25,7 +25,7 @@ pub struct Rescan {
     /// End height of the filter rescan. If `None`, keeps scanning new blocks until stopped.
     pub end: Option<Height>,
     /// Filter cache.
-    pub cache: FilterCache<Rc<BlockFilter>>,
+    pub cache: FilterCache<(Rc<BlockFilter>, BlockHash)>,
     /// Addresses and outpoints to watch for.
     pub watch: HashSet<Script>,
     /// Transactions to watch for.
@@ -96,7 +96,7 @@ impl Rescan {
             // both in the processing queue and in the cache, or only in one or the other.
             let filter = Rc::new(filter);
 
-            self.cache.push(height, filter.clone());
+            self.cache.push(height, (filter.clone(), block_hash));
             self.received.insert(height, (filter, block_hash, false));
         }
         requested
@@ -181,12 +181,13 @@ impl Rescan {
         }
 
         for height in range.clone() {
-            if let Some(filter) = self.cache.get(&height) {
-                if let Some(header) = tree.get_block_by_height(height) {
-                    let block_hash = header.block_hash();
+            if let Some((filter, block_hash)) = self.cache.get(&height) {
+                // Nb. The block may no longer be part of the active chain, if there was a re-org
+                // that we haven't been notified of yet.
+                if tree.get_block(block_hash).is_some() {
                     // Insert the cached filters into the processing queue.
                     self.received
-                        .insert(height, (filter.clone(), block_hash, true));
+                        .insert(height, (filter.clone(), *block_hash, true));
                 }
             }
         }
diff --git a/p2p/src/fsm/filter_cache.rs b/p2p/src/fsm/filter_cache.rs
index 6346d2f..0df2f9d 100644
--- a/p2p/src/fsm/filter_cache.rs
+++ b/p2p/src/fsm/filter_cache.rs
@@ -3,7 +3,7 @@ use std::collections::BTreeMap;
 use std::rc::Rc;
 
 use nakamoto_common::block::filter::BlockFilter;
-use nakamoto_common::block::Height;
+use nakamoto_common::block::{BlockHash, Height};
 
 /// Cachable block filter.
 #[allow(clippy::len_without_is_empty)]
@@ -18,6 +18,13 @@ impl Filter for Rc<BlockFilter> {
     }
 }
 
+/// A block filter, along with the hash of its block.
+impl Filter for (Rc<BlockFilter>, BlockHash) {
+    fn len(&self) -> usize {
+        self.0.content.len()
+    }
+}
+
 impl Filter for BlockFilter {
     fn len(&self) -> usize {
         self.content.len()
-- 
2.43.0


From c5ecdb1ea06258e053ce2bbb091365d9a948058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:56 +0000
Subject: [PATCH 30/47] fix: forget filter header requests of peers that
 disconnect, and don't disconnect persistent peers that are slow to answer

---
 p2p/src/fsm/cbfmgr.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/cbfmgr.rs b/p2p/src/fsm/cbfmgr.rs
index 1f87735..6aa8541 100644
--- a/p2p/src/fsm/cbfmgr.rs
+++ b/p2p/src/fsm/cbfmgr.rs
@@ -187,6 +187,14 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
             }
             Event::PeerDisconnected { addr, .. } => {
                 self.peers.remove(&addr);
+
+                // This peer isn't going to answer anymore. Ask another peer, if there is one.
+                let requests = self.inflight.len();
+                self.inflight.retain(|_, (_, peer, _)| *peer != addr);
+
+                if self.inflight.len() < requests {
+                    self.sync(tree);
+                }
             }
             Event::FilterProcessed {
                 matched: true,
@@ -343,11 +351,12 @@ impl<F: Filters, C: Clock> FilterManager<F, C> {
 
                 // Nb. Purposefully allow re-sampling the same peer, for cases where we are only
                 // connected to one peer.
-                if let Some((a, peer)) = self.peers.sample() {
+                if let Some((a, _)) = self.peers.sample() {
                     let a = *a;
+                    let persistent = self.peers.get(addr).map_or(false, |p| p.persistent);
                     // Disconnect only if we found a different peer, and this isn't
                     // a persistent peer.
-                    if a != *addr && !peer.persistent {
+                    if a != *addr && !persistent {
                         self.peers.remove(addr);
                         self.outbox
                             .disconnect(*addr, DisconnectReason::PeerTimeout("getcfheaders"));
-- 
2.43.0


From b529f7290d0268aaaf684cca8930053837d24a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:01 +0000
Subject: [PATCH 31/47] fix: don't validate every block of a stale branch as a
 potential tip on every import

---
 chain/src/block/cache.rs | 41 +++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/chain/src/block/cache.rs b/chain/src/block/cache.rs
index cd468ca..33ba9e3 100644
--- a/chain/src/block/cache.rs
+++ b/chain/src/block/cache.rs
@@ -8,7 +8,7 @@
 pub mod test;
 
 use std::cmp::Ordering;
-use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
 use std::ops::ControlFlow;
 
 use nakamoto_common as common;
@@ -393,15 +393,33 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     /// Find all the potential forks off the main chain.
     fn chain_candidates(&self, clock: &impl Clock) -> Vec<Candidate> {
         let mut branches = Vec::new();
-
-        for tip in self.orphans.keys() {
-            if let Some(branch) = self.fork(tip) {
+        // Only look at the tips of branches: checking every block of a long branch as a
+        // potential tip takes too long.
+        let parents = self
+            .orphans
+            .values()
+            .map(|header| header.prev_blockhash)
+            .collect::<HashSet<_>>();
+
+        for tip in self.orphans.keys().filter(|h| !parents.contains(*h)) {
+            if let Some(mut branch) = self.fork(tip) {
                 // Branches that were discovered before the last checkpoint was reached are not
                 // eligible anymore if they fork off prior to it.
                 if branch.fork_height < self.last_checkpoint() {
                     continue;
                 }
-                if self.validate_branch(&branch, clock).is_ok() {
+                // There's no need to validate branches that have less work than what they replace.
+                let lost_work = Branch(self.chain_suffix(branch.fork_height)).work();
+                if Branch(&branch.headers).work() < lost_work {
+                    continue;
+                }
+                // Only part of the branch may be valid.
+                branch
+                    .headers
+                    .truncate(self.validate_branch(&branch, clock));
+
+                if let Some(header) = branch.headers.last() {
+                    branch.tip = header.block_hash();
                     branches.push(branch);
                 }
             }
@@ -446,21 +464,26 @@ impl<S: Store<Header = BlockHeader>> BlockCache<S> {
     }
 
     /// Validate a candidate branch. This function is useful for chain selection.
-    fn validate_branch(&self, candidate: &Candidate, clock: &impl Clock) -> Result<(), Error> {
+    /// Returns the number of headers, from the start of the branch, that are valid.
+    fn validate_branch(&self, candidate: &Candidate, clock: &impl Clock) -> usize {
         let mut tip = CachedBlock {
             height: candidate.fork_height,
             header: candidate.fork_header,
         };
 
         for (i, header) in candidate.headers.iter().enumerate() {
-            self.validate(&tip, &candidate.headers[..i], header, clock)?;
-
+            if self
+                .validate(&tip, &candidate.headers[..i], header, clock)
+                .is_err()
+            {
+                return i;
+            }
             tip = CachedBlock {
                 height: tip.height + 1,
                 header: *header,
             };
         }
-        Ok(())
+        candidate.headers.len()
     }
 
     /// Validate a block header as a potential new tip. This performs full header validation.
-- 
2.43.0


From a14a40e8a0d823ad2d3dbcc3b50564efff5b252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:23 +0000
Subject: [PATCH 32/47] fix: follow up block announcements received while
 syncing

---
 p2p/src/fsm/syncmgr.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 43c4f7e..7ec7866 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -55,6 +55,8 @@ struct Peer {
     link: Link,
     last_active: Option<LocalTime>,
     last_asked: Option<Locators>,
+    /// Block announced by this peer, for which we haven't requested headers yet.
+    announced: Option<BlockHash>,
 }
 
 /// Sync manager configuration.
@@ -457,10 +459,6 @@ impl<C: Clock> SyncManager<C> {
     /// Called when we received an `inv` message. This will happen if we are out of sync with a
     /// peer, and blocks are being announced. Otherwise, we expect to receive a `headers` message.
     pub fn received_inv<T: BlockReader>(&mut self, addr: PeerId, inv: &[Inventory], tree: &T) {
-        // Don't try to fetch headers from `inv` message while syncing. It's not helpful.
-        if self.is_syncing() {
-            return;
-        }
         // Ignore and disconnect peers misbehaving.
         if inv.len() > MAX_MESSAGE_INVS {
             return;
@@ -471,7 +469,6 @@ impl<C: Clock> SyncManager<C> {
         } else {
             return;
         };
-        let mut best_block = None;
 
         for i in inv {
             if let Inventory::Block(hash) = i {
@@ -482,13 +479,28 @@ impl<C: Clock> SyncManager<C> {
                 // hash provided should be the highest."
 
                 if !tree.is_known(hash) {
-                    best_block = Some(hash);
+                    peer.announced = Some(*hash);
                 }
             }
         }
+        // Nb. We don't try to fetch headers from `inv` message while syncing. It's not helpful.
+        // We do it when we're done.
+        self.fetch_announced(tree);
+    }
+
+    /// Fetch the headers leading up to a block that was announced to us, unless we're syncing.
+    fn fetch_announced<T: BlockReader>(&mut self, tree: &T) {
+        if self.is_syncing() {
+            return;
+        }
+        let announced = self
+            .peers
+            .iter_mut()
+            .filter_map(|(addr, peer)| Some((*addr, peer.announced.take()?)))
+            .find(|(_, hash)| !tree.is_known(hash));
 
-        if let Some(stop_hash) = best_block {
-            let locators = (tree.locator_hashes(tree.height()), *stop_hash);
+        if let Some((addr, stop_hash)) = announced {
+            let locators = (tree.locator_hashes(tree.height()), stop_hash);
             let timeout = self.config.request_timeout;
 
             // Try to find headers leading up to the `inv` entry.
@@ -545,6 +557,7 @@ impl<C: Clock> SyncManager<C> {
         } else {
             self.idle(tree);
         }
+        self.fetch_announced(tree);
     }
 
     /// Get the best known height out of all our peers.
@@ -596,6 +609,7 @@ impl<C: Clock> SyncManager<C> {
     fn register(&mut self, addr: PeerId, height: Height, preferred: bool, link: Link) {
         let last_active = None;
         let last_asked = None;
+        let announced = None;
         let tip = BlockHash::all_zeros();
 
         self.peers.insert(
@@ -607,6 +621,7 @@ impl<C: Clock> SyncManager<C> {
                 preferred,
                 last_active,
                 last_asked,
+                announced,
             },
         );
     }
-- 
2.43.0


From 2bd3635cee56b15a13374c5e71bd06366162b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:51 +0000
Subject: [PATCH 33/47] fix: propagate pending events before handling further
 messages

---
 p2p/src/fsm.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index 982db8d..c622415 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -31,7 +31,7 @@ pub use event::Event;
 pub use nakamoto_net::Link;
 
 use std::borrow::Cow;
-use std::collections::HashSet;
+use std::collections::{HashSet, VecDeque};
 use std::fmt::{self, Debug};
 use std::net;
 use std::ops::{Bound, RangeInclusive};
@@ -355,6 +355,8 @@ pub struct StateMachine<T, F, P, C> {
     last_tick: LocalTime,
     /// Outbound I/O. Used to communicate protocol events with a reactor.
     outbox: Outbox,
+    /// Outputs that were propagated internally, but haven't been drained yet.
+    pending: VecDeque<Io>,
     /// State machine event hooks.
     hooks: Hooks,
 }
@@ -549,6 +551,7 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMa
             invmgr,
             last_tick: LocalTime::default(),
             outbox,
+            pending: VecDeque::new(),
             hooks,
         }
     }
@@ -586,6 +589,13 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> Iterato
     type Item = Io;
 
     fn next(&mut self) -> Option<Io> {
+        self.pending.pop_front().or_else(|| self.advance())
+    }
+}
+
+impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMachine<T, F, P, C> {
+    /// Get the next output of the sub-systems. If it's an event, propagate it internally.
+    fn advance(&mut self) -> Option<Io> {
         let next = self
             .outbox
             .next()
@@ -618,9 +628,14 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> Iterato
             other => other,
         }
     }
-}
 
-impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMachine<T, F, P, C> {
+    /// Propagate all pending events internally. The outputs are kept until they are drained.
+    fn propagate(&mut self) {
+        while let Some(io) = self.advance() {
+            self.pending.push_back(io);
+        }
+    }
+
     /// Propagate an event internally to the sub-systems.
     pub fn event(&mut self, e: Event) {
         self.cbfmgr
@@ -781,6 +796,10 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> traits:
 
         debug!(target: "p2p", "Received {:?} from {}", cmd, addr);
 
+        // Several messages may be received before our outputs are drained. Make sure all sub-systems
+        // know about the outcome of the previous ones, eg. that a peer has been negotiated.
+        self.propagate();
+
         if let Err(err) = (self.hooks.on_message)(addr, &msg.payload, &self.outbox) {
             debug!(
                 target: "p2p",
-- 
2.43.0


From ae27e20801cdf75bc22f017a3132f29dc75c6363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 34/47] fix: don't depend on a single unresponsive peer for
 headers

---
 p2p/src/fsm/syncmgr.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/p2p/src/fsm/syncmgr.rs b/p2p/src/fsm/syncmgr.rs
index 7ec7866..a766bc4 100644
--- a/p2p/src/fsm/syncmgr.rs
+++ b/p2p/src/fsm/syncmgr.rs
@@ -144,9 +144,10 @@ impl<C: Clock> SyncManager<C> {
         // Nb. The idle timeout is very long: as long as the block interval.
         // This shouldn't be a problem, as the sync manager can make progress without it.
         if now - self.last_idle.unwrap_or_default() >= IDLE_TIMEOUT {
-            if !self.sync(tree) {
-                self.sample_peers(tree);
-            }
+            // Nb. The peer we sync with may not have what it claims to have, so ask the others
+            // too if our tip is stale.
+            self.sync(tree);
+            self.sample_peers(tree);
             self.last_idle = Some(now);
             self.outbox.set_timer(IDLE_TIMEOUT);
         }
@@ -643,13 +644,13 @@ impl<C: Clock> SyncManager<C> {
             .filter(|(a, p)| self.is_request_candidate(a, p, locators))
             .find(|(_, p)| p.preferred && p.height > height)
             .or_else(|| {
-                // Peers are not obliged to answer when they have no headers for us, so we may
-                // be left with peers we've already asked.
                 peers.iter().find(|(a, p)| {
-                    p.preferred && p.height > height && !self.inflight.contains_key(a)
+                    p.height > height && self.is_request_candidate(a, p, locators)
                 })
             })
             .or_else(|| {
+                // Peers are not obliged to answer when they have no headers for us, so we may
+                // be left with peers we've already asked.
                 peers.iter().find(|(a, p)| {
                     p.link.is_outbound() && p.height > height && !self.inflight.contains_key(a)
                 })
-- 
2.43.0


From 46ae303862558ece95bf38876b7df5c8fe519796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:23 +0000
Subject: [PATCH 35/47] fix: don't let a redundant disconnect end the next
 connection to the same peer

---
 p2p/src/fsm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/src/fsm.rs b/p2p/src/fsm.rs
index c622415..cf77d65 100644
--- a/p2p/src/fsm.rs
+++ b/p2p/src/fsm.rs
@@ -625,6 +625,9 @@ impl<T: BlockTree, F: Filters, P: peer::Store, C: AdjustedClock<PeerId>> StateMa
 
                 Some(Io::Event(e))
             }
+            // Nb. If several sub-systems disconnect from the same peer, and we've started
+            // connecting to it again, leave the new connection alone.
+            Some(Io::Disconnect(addr, _)) if self.peermgr.is_connecting(&addr) => self.advance(),
             other => other,
         }
     }
-- 
2.43.0


From 68d44c1fa956e38400fda277d58bec42e33a65cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:53 +0000
Subject: [PATCH 36/47] Expose the client service under the verification guard

---
 client/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/src/lib.rs b/client/src/lib.rs
index cb5af9b..0fc1e77 100644
--- a/client/src/lib.rs
+++ b/client/src/lib.rs
@@ -19,4 +19,5 @@ mod tests;
 #[cfg(nakamoto_verif)]
 pub mod verif {
     pub use crate::peer::Cache;
+    pub use crate::service::Service;
 }
-- 
2.43.0


From 1ceddc4a9c9e1f72b331ac9460fe8d1b9c43b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:38 +0000
Subject: [PATCH 37/47] fix: report transactions that were submitted again
 after being confirmed as reverted only once

---
 p2p/src/fsm/invmgr.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/p2p/src/fsm/invmgr.rs b/p2p/src/fsm/invmgr.rs
index 5704635..190918a 100644
--- a/p2p/src/fsm/invmgr.rs
+++ b/p2p/src/fsm/invmgr.rs
@@ -487,10 +487,11 @@ impl<C: Clock> InventoryManager<C> {
                         peer.outbox.remove(&wtxid);
                     }
 
-                    self.confirmed
-                        .entry(height)
-                        .or_default()
-                        .push(transaction.clone());
+                    // Nb. The transaction may have been submitted again after it was confirmed.
+                    let transactions = self.confirmed.entry(height).or_default();
+                    if !transactions.contains(&transaction) {
+                        transactions.push(transaction.clone());
+                    }
 
                     self.outbox.event(Event::TxStatusChanged {
                         txid: transaction.txid(),
-- 
2.43.0


From ba40c2e07952a8149911223751cf761c52928731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:29 +0000
Subject: [PATCH 38/47] fix: remember the ban of a peer whose address range
 isn't in the address book

---
 p2p/src/fsm/addrmgr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index 30bec39..f12ea15 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -552,12 +552,14 @@ impl<P: Store, C: Clock> AddressManager<P, C> {
     fn ban(&mut self, addr: &net::IpAddr) -> bool {
         let key = self::addr_key(addr);
 
+        // TODO: Persist bans.
+        // Nb. The address may not be in the address book (yet).
+        self.bans.insert(*addr);
+
         if let Some(range) = self.address_ranges.get_mut(&key) {
             range.remove(addr);
 
-            // TODO: Persist bans.
             self.peers.remove(addr);
-            self.bans.insert(*addr);
 
             if range.is_empty() {
                 self.address_ranges.remove(&key);
-- 
2.43.0


From 3ca8c4179e73b5a20ddde8a0980eda2967509082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:35 +0000
Subject: [PATCH 39/47] fix: don't take IPv6 addresses that aren't globally
 routable for routable ones

---
 p2p/src/fsm/addrmgr.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/p2p/src/fsm/addrmgr.rs b/p2p/src/fsm/addrmgr.rs
index f12ea15..80c802f 100644
--- a/p2p/src/fsm/addrmgr.rs
+++ b/p2p/src/fsm/addrmgr.rs
@@ -644,11 +644,17 @@ fn ipv4_is_routable(addr: &net::Ipv4Addr) -> bool {
 }
 
 /// Check whether an IPv6 address is globally routable.
-///
-/// For now, this always returns `true`, as IPv6 addresses
-/// are not fully supported.
-fn ipv6_is_routable(_addr: &net::Ipv6Addr) -> bool {
-    true
+fn ipv6_is_routable(addr: &net::Ipv6Addr) -> bool {
+    let segments = addr.segments();
+
+    !addr.is_unspecified()
+        && !addr.is_loopback()
+        // Unique local addresses (fc00::/7).
+        && segments[0] & 0xfe00 != 0xfc00
+        // Link-local addresses (fe80::/10).
+        && segments[0] & 0xffc0 != 0xfe80
+        // Addresses reserved for documentation (2001:db8::/32).
+        && !(segments[0] == 0x2001 && segments[1] == 0xdb8)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 61734070baff3390a6046d8e56f43c1be23ca1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:03 +0000
Subject: [PATCH 40/47] fix: don't report a failed connection attempt as an
 established connection

---
 net/poll/src/reactor.rs | 9 ++++++++-
 net/poll/src/socket.rs  | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 436f606..d4e676e 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -419,8 +419,15 @@ impl<Id: PeerId> Reactor<net::TcpStream, Id> {
         // that it is ready for writing, once a connection has been established."
         //
         // Since we perform a non-blocking connect, we're only really connected once the socket
-        // is writable.
+        // is writable. It's also writable if the connection attempt failed, though.
         if self.connecting.remove(&addr) {
+            if let Some(err) = socket.take_error()? {
+                trace!("{}: Connection attempt failed: {}", socket_addr, err.to_string());
+
+                self.unregister_peer(addr, Disconnect::DialError(Arc::new(err)), service);
+
+                return Ok(());
+            }
             let local_addr = socket.local_address()?;
 
             service.connected(addr.clone(), &local_addr, socket.link);
diff --git a/net/poll/src/socket.rs b/net/poll/src/socket.rs
index 2347fa5..9d99b4e 100644
--- a/net/poll/src/socket.rs
+++ b/net/poll/src/socket.rs
@@ -23,6 +23,11 @@ impl Socket<net::TcpStream> {
         self.raw.local_addr()
     }
 
+    /// Take the pending error of the socket, if any.
+    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
+        self.raw.take_error()
+    }
+
     /// Disconnect socket.
     pub fn disconnect(&self) -> io::Result<()> {
         self.raw.shutdown(net::Shutdown::Both)
-- 
2.43.0


From ff81924c83f42c35aa1e320115f00edd8d8d10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:07 +0000
Subject: [PATCH 41/47] fix: wake expired timers even when there is network
 activity

---
 net/poll/src/reactor.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index d4e676e..6d180f5 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -258,18 +258,20 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                         }
                     }
                 }
-                Err(err) if err.kind() == io::ErrorKind::TimedOut => {
-                    // Nb. The way this is currently used basically ignores which keys have
-                    // timed out. So as long as *something* timed out, we wake the service.
-                    self.timeouts.wake(local_time, &mut timeouts);
-
-                    if !timeouts.is_empty() {
-                        timeouts.clear();
-                        service.timer_expired();
-                    }
-                }
+                Err(err) if err.kind() == io::ErrorKind::TimedOut => {}
                 Err(err) => return Err(err.into()),
             }
+            // Nb. The way this is currently used basically ignores which keys have
+            // timed out. So as long as *something* timed out, we wake the service.
+            //
+            // This is done whether or not there was i/o, such that a busy network
+            // doesn't delay timers.
+            self.timeouts.wake(local_time, &mut timeouts);
+
+            if !timeouts.is_empty() {
+                timeouts.clear();
+                service.timer_expired();
+            }
             self.process(&mut service, &mut publisher, local_time);
         }
     }
-- 
2.43.0


From f519f6ac04ebdceb15c92d9aef076782f04040e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:40 +0000
Subject: [PATCH 42/47] fix: don't end the reactor when a signal interrupts its
 wait

---
 net/poll/src/reactor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 6d180f5..3c0f704 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -259,6 +259,10 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                     }
                 }
                 Err(err) if err.kind() == io::ErrorKind::TimedOut => {}
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => {
+                    // A signal was handled. Nb. What was reported is left from a previous call.
+                    events.clear();
+                }
                 Err(err) => return Err(err.into()),
             }
             // Nb. The way this is currently used basically ignores which keys have
-- 
2.43.0


From 27fdf82ed033b0f04fae25122885c33878ba6fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:44 +0000
Subject: [PATCH 43/47] fix: don't lose a shutdown request that arrives while
 the waker is being reset

---
 net/poll/src/reactor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/poll/src/reactor.rs b/net/poll/src/reactor.rs
index 3c0f704..6776295 100644
--- a/net/poll/src/reactor.rs
+++ b/net/poll/src/reactor.rs
@@ -238,11 +238,14 @@ impl<Id: PeerId> nakamoto_net::Reactor<Id> for Reactor<net::TcpStream, Id> {
                             Source::Waker => {
                                 trace!("Woken up by waker ({} command(s))", commands.len());
 
+                                // Nb. The waker has to be reset before looking at the channels,
+                                // otherwise the wake-up of something sent in between is lost.
+                                popol::Waker::reset(ev.source).ok();
+
                                 // Exit reactor loop if a shutdown was received.
                                 if let Ok(()) = self.shutdown.try_recv() {
                                     return Ok(());
                                 }
-                                popol::Waker::reset(ev.source).ok();
 
                                 // Nb. This should not happen, but it has been reported
                                 // a few times. So we try to log a warning message and
-- 
2.43.0


From eff82a35221df61bea3e76b7dff5f5a761127b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:16 +0000
Subject: [PATCH 44/47] fix: wait_for_height returns when the height is passed
 by an import of several headers

---
 client/src/client.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/src/client.rs b/client/src/client.rs
index 85c301b..760f6c5 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -700,6 +700,12 @@ impl<W: Waker> handle::Handle for Handle<W> {
                 &events,
                 |e| match e {
                     Event::BlockHeadersImported { height, hash, .. } if height == h => Some(hash),
+                    // Several headers can be imported at once.
+                    Event::BlockHeadersImported { height, .. } if height > h => self
+                        .get_block_by_height(h)
+                        .ok()
+                        .flatten()
+                        .map(|header| header.block_hash()),
                     _ => None,
                 },
                 self.timeout,
-- 
2.43.0


From 418a8c224206676e74c9feb89eb8bbd4ef3f699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:19 +0000
Subject: [PATCH 45/47] fix: wait_for_peers returns when there are more peers
 than asked for

---
 client/src/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index 760f6c5..a28cf2f 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -653,7 +653,7 @@ impl<W: Waker> handle::Handle for Handle<W> {
         let required_services = required_services.into();
 
         let negotiated = self.get_peers(required_services)?;
-        if negotiated.len() == count {
+        if negotiated.len() >= count {
             return Ok(negotiated
                 .into_iter()
                 .map(|p| (p.addr, p.height, p.services))
@@ -678,7 +678,7 @@ impl<W: Waker> handle::Handle for Handle<W> {
                         negotiated.insert(addr, (height, services));
                     }
 
-                    if negotiated.len() == count {
+                    if negotiated.len() >= count {
                         Some(negotiated.iter().map(|(a, (h, s))| (*a, *h, *s)).collect())
                     } else {
                         None
-- 
2.43.0


From 1d5b5daecd394a0fd3507016f68238802a7b2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:00 +0000
Subject: [PATCH 46/47] fix: wait_for_peers doesn't count peers that have
 disconnected meanwhile

---
 client/src/client.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/src/client.rs b/client/src/client.rs
index a28cf2f..9629b93 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -684,6 +684,11 @@ impl<W: Waker> handle::Handle for Handle<W> {
                         None
                     }
                 }
+                fsm::Event::PeerDisconnected { addr, .. } => {
+                    negotiated.remove(&addr);
+
+                    None
+                }
                 _ => None,
             },
             self.timeout,
-- 
2.43.0


From 2a5992b029739d65d6136a81499f8671aba5e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:21 +0000
Subject: [PATCH 47/47] fix: drop stored filter headers whose block headers
 were lost

---
 client/src/client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/src/client.rs b/client/src/client.rs
index 9629b93..b7de845 100644
--- a/client/src/client.rs
+++ b/client/src/client.rs
@@ -302,7 +302,7 @@ impl<R: Reactor> Client<R> {
 
         let cfheaders_genesis = filter::cache::StoredHeader::genesis(network);
         let cfheaders_path = dir.join("filters.db");
-        let cfheaders_store = match store::File::create(&cfheaders_path, cfheaders_genesis) {
+        let mut cfheaders_store = match store::File::create(&cfheaders_path, cfheaders_genesis) {
             Ok(store) => {
                 log::info!(target: "client", "Initializing new filter header store {:?}", cfheaders_path);
                 store
@@ -321,6 +321,12 @@ impl<R: Reactor> Client<R> {
             }
             Err(err) => return Err(err.into()),
         };
+        if cfheaders_store.height()? > cache.height() {
+            // The corresponding block headers were lost, and may not be part of the active chain
+            // once it is synced again.
+            log::warn!(target: "client", "Found filter headers without block headers, rolling back..");
+            cfheaders_store.rollback(cache.height())?;
+        }
         log::info!(target: "client", "Loading filter headers from store..");
 
         let filters = FilterCache::load_with(cfheaders_store, |height| {
-- 
2.43.0

