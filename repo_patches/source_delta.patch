From 2c39bcba2ae531ecf5dd6457b1ad317bb096f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 01/21] verif: hook (cfg verif) to move the main chain's tip

---
 src/chain.rs | 10 ++++++++++
 src/lib.rs   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/chain.rs b/src/chain.rs
index 6469012..75a6136 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -736,3 +736,13 @@ impl DerivativeChain {
         Ok(deserialized)
     }
 }
+
+/// Verification hook, compiled only with `--cfg verif`
+#[cfg(verif)]
+impl MainChain {
+    /// Moves the tip of the chain to `height` without adding blocks, so that
+    /// distant heights (an end of an epoch) can be reached
+    pub fn verif_set_height(&self, height: U256) {
+        *self.height.write() = height;
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index c9bd29e..d0b93e5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,6 @@
 #![allow(dead_code)]
+// cfg(verif) guards verification hooks
+#![allow(unexpected_cfgs)]
 pub mod block;
 pub mod blockchaintree;
 pub mod chain;
-- 
2.43.0


From 00976983e74c9a6dc174b87064d2803fca94d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 02/21] fix: refuse ledger operations with an error instead of
 aborting

sub_*, send_* and add_* return a Result, but unwrapped the aborted sled
transaction (or overflowed), so an insufficient balance or an overflow
brought the process down.
---
 src/blockchaintree.rs | 70 +++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 22 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 7d578d8..59864e6 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -116,16 +116,21 @@ impl BlockChainTree {
                         Some(v) => tools::load_u256(&v).unwrap().0,
                         None => U256::zero(),
                     };
-                    let new_amount = prev_amount + amount;
+                    let new_amount = prev_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&new_amount));
                     tools::dump_u256(&new_amount, &mut buf).unwrap();
                     db.insert(owner, buf)?;
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::AddFunds,
+                ))
+                .attach_printable("failed to add coins")
+            })
     }
 
     pub fn set_amount(
@@ -169,9 +174,12 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::DecreaseFunds,
+                ))
+                .attach_printable("failed to subtract coins")
+            })
     }
     pub fn get_amount(&self, owner: &[u8; 33]) -> Result<U256, Report<BlockChainTreeError>> {
         match self
@@ -212,7 +220,9 @@ impl BlockChainTree {
                     }
 
                     from_amount -= amount;
-                    to_amount += amount;
+                    to_amount = to_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
 
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&from_amount));
                     tools::dump_u256(&from_amount, &mut buf).unwrap();
@@ -224,9 +234,12 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::DecreaseFunds,
+                ))
+                .attach_printable("failed to send coins")
+            })
     }
 
     pub fn add_gas(&self, owner: &[u8], amount: U256) -> Result<(), Report<BlockChainTreeError>> {
@@ -237,16 +250,21 @@ impl BlockChainTree {
                         Some(v) => tools::load_u256(&v).unwrap().0,
                         None => U256::zero(),
                     };
-                    let new_amount = prev_amount + amount;
+                    let new_amount = prev_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&new_amount));
                     tools::dump_u256(&new_amount, &mut buf).unwrap();
                     db.insert(owner, buf)?;
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::AddFunds,
+                ))
+                .attach_printable("failed to add gas")
+            })
     }
     pub fn sub_gas(&self, owner: &[u8], amount: U256) -> Result<(), Report<BlockChainTreeError>> {
         self.gas_db
@@ -266,9 +284,12 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::DecreaseFunds,
+                ))
+                .attach_printable("failed to subtract gas")
+            })
     }
     pub fn get_gas(&self, owner: &[u8; 33]) -> Result<U256, Report<BlockChainTreeError>> {
         match self
@@ -306,7 +327,9 @@ impl BlockChainTree {
                     }
 
                     from_amount -= amount;
-                    to_amount += amount;
+                    to_amount = to_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
 
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&from_amount));
                     tools::dump_u256(&from_amount, &mut buf).unwrap();
@@ -318,9 +341,12 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::DecreaseFunds,
+                ))
+                .attach_printable("failed to send gas")
+            })
     }
 
     pub fn add_new_block(
-- 
2.43.0


From c4e6a1bd05372a0a3046a3b50cac0ef0269a546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 03/21] fix: do not grant the first cycle's coins again on
 reopening

Reopening a tree whose main chain holds only the genesis block reset the
balance of the root account, minting whatever had been sent from it.
---
 src/blockchaintree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 59864e6..140499e 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -62,6 +62,9 @@ impl BlockChainTree {
             summary_db
                 .transaction(
                     |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
+                        if db.get(&(ROOT_PUBLIC_ADDRESS) as &[u8])?.is_some() {
+                            return Ok(());
+                        }
                         let mut buf: Vec<u8> =
                             Vec::with_capacity(tools::u256_size(&COINS_PER_CYCLE));
                         tools::dump_u256(&COINS_PER_CYCLE, &mut buf).unwrap();
-- 
2.43.0


From 66be38a356f701ec5f0c4f79f3b335727fb7a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 04/21] fix: a refused transaction is neither stored nor brings
 the node down

The sum of fee and amount could overflow, and the transaction was stored
before its transfer could be refused.
---
 src/blockchaintree.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 140499e..10f127b 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -526,20 +526,20 @@ impl BlockChainTree {
         }
         let last_block = self.main_chain.get_last_block()?.unwrap(); // practically cannot fail
         let fee = tools::recalculate_fee(&last_block.get_info().difficulty);
-        if sender_amount < fee + transaction.get_amount().unwrap_or(U256::zero()) {
+        let coins_required = fee.checked_add(transaction.get_amount().unwrap_or(U256::zero()));
+        if coins_required.map_or(true, |required| sender_amount < required) {
             return Err(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::NewTransaction,
             ))
             .attach_printable("not enough coins to pay the fee");
         }
-        self.main_chain.add_transaction(transaction)?;
         if let Some(amount) = transaction.get_amount() {
             // TODO: make into sled transaction
             self.send_amount(transaction.get_sender(), transaction.get_receiver(), amount)?;
             //self.sub_amount(transaction.get_sender(), fee)?;
             self.sub_gas(transaction.get_sender(), gas_required)?;
         }
-        Ok(())
+        self.main_chain.add_transaction(transaction)
     }
 
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-- 
2.43.0


From f658bddd4f7110886d4fdaeab14acd1dd3f37919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 05/21] fix: concurrent submissions may not spend the same
 coins or gas

Two threads could both pass the checks of send_transaction; the second
then moved its coins without paying gas, or was stored without effect.
---
 src/blockchaintree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 10f127b..0b15329 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -15,6 +15,7 @@ use crate::{
     types::Hash,
 };
 use error_stack::{Report, ResultExt};
+use parking_lot::Mutex;
 use primitive_types::U256;
 use sled::Db;
 use std::fs;
@@ -26,6 +27,7 @@ pub struct BlockChainTree {
     old_summary_db: Db,
     gas_db: Db,
     old_gas_db: Db,
+    submission_lock: Mutex<()>,
     root_folder: String,
 }
 
@@ -81,6 +83,7 @@ impl BlockChainTree {
             old_summary_db,
             gas_db,
             old_gas_db,
+            submission_lock: Mutex::new(()),
             root_folder: root_folder.into(),
         })
     }
@@ -514,6 +517,8 @@ impl BlockChainTree {
         &self,
         transaction: &dyn Transactionable,
     ) -> Result<(), Report<BlockChainTreeError>> {
+        // the checks and the transfers have to be one step
+        let _submission = self.submission_lock.lock();
         let sender_gas_amount = self.get_gas(transaction.get_sender())?;
         let sender_amount = self.get_amount(transaction.get_sender())?;
         let amount_of_bytes = transaction.get_dump_size();
-- 
2.43.0


From 0d152f26b5dd61cfda27bf0104944be3142e63ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 06/21] fix: replace a chain's config only once its blocks are
 on disk

flush truncated and rewrote the config first and flushed the blocks
afterwards, so a crash in between left an empty config or a height
without blocks, and the tree could not be opened or used any more. The
last write of the config could also still be in flight on return.
---
 src/chain.rs | 50 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 75a6136..ea3619e 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -145,18 +145,19 @@ impl MainChain {
     /// Dump config
     ///
     /// Dumps chain's config
-    async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+    async fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
+        let path_new_config = path_config.with_extension("new");
 
         let mut file = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path_config)
+            .open(&path_new_config)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
-        self.height.read().to_big_endian(&mut buffer_32_bytes);
+        height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -168,6 +169,19 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write difficulty")?;
 
+        // the writes above may still be in flight
+        file.flush()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
+        file.sync_all()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
+
+        tokio::fs::rename(path_new_config, path_config)
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to replace config")?;
+
         Ok(())
     }
 
@@ -177,7 +191,8 @@ impl MainChain {
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-        self.dump_config().await?;
+        // the config may only name a height whose blocks are already on disk
+        let height = *self.height.read();
 
         self.blocks
             .flush_async()
@@ -197,7 +212,7 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush transactions")?;
 
-        Ok(())
+        self.dump_config(height).await
     }
 
     pub fn add_transactions(
@@ -524,18 +539,19 @@ impl DerivativeChain {
     /// Dump config
     ///
     /// Dumps chain's config
-    async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+    async fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
+        let path_new_config = path_config.with_extension("new");
 
         let mut file = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path_config)
+            .open(&path_new_config)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
-        self.height.read().to_big_endian(&mut buffer_32_bytes);
+        height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -552,12 +568,26 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write genesis hash")?;
 
+        // the writes above may still be in flight
+        file.flush()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
+        file.sync_all()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
+
+        tokio::fs::rename(path_new_config, path_config)
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to replace config")?;
+
         Ok(())
     }
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-        self.dump_config().await?;
+        // the config may only name a height whose blocks are already on disk
+        let height = *self.height.read();
 
         self.blocks
             .flush_async()
@@ -571,7 +601,7 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush height references")?;
 
-        Ok(())
+        self.dump_config(height).await
     }
 
     /// Adds new block to the chain db
-- 
2.43.0


From 1830d5fdcb2f0a6e46614a7c3ee1e63adefa2b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 07/21] fix: blocks above a reopened chain's height are not
 part of it

Blocks added after the last flush survive in the databases, but not in
the height: such a block was found at the chain's height, and under its
hash another block was found once the height was taken again.
---
 src/chain.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index ea3619e..2b45077 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -336,7 +336,7 @@ impl MainChain {
         height: &U256,
     ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
         let chain_height = self.height.read();
-        if height > &chain_height {
+        if height >= &chain_height {
             return Ok(None);
         }
         drop(chain_height);
@@ -374,7 +374,8 @@ impl MainChain {
             .find_raw_by_height(&height)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
 
-        Ok(block)
+        // a reference to a lost block may name a height that was taken since
+        Ok(block.filter(|dump| tools::hash(dump) == *hash))
     }
 
     pub fn find_by_hash(
@@ -649,7 +650,7 @@ impl DerivativeChain {
         height: &U256,
     ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
         let chain_height = self.height.read();
-        if height > &chain_height {
+        if height >= &chain_height {
             return Ok(None);
         }
         drop(chain_height);
@@ -687,7 +688,8 @@ impl DerivativeChain {
             .find_raw_by_height(&height)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
 
-        Ok(block)
+        // a reference to a lost block may name a height that was taken since
+        Ok(block.filter(|dump| tools::hash(dump) == *hash))
     }
 
     pub fn find_by_hash(
-- 
2.43.0


From 284d2749c241ae3e3a467681d346e0d72c04ad7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 08/21] fix: validate a block's proof of work over what was
 mined

Blocks are mined over the hash of the previous block, but validated over
the merkle root, so blocks the tree emitted were refused; validating a
derivative block, which has no merkle root, panicked.
---
 src/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 2fba3f2..74958c8 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -317,7 +317,7 @@ impl Block for DerivativeBlock {
         }
 
         if !check_pow(
-            &self.get_merkle_root(),
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
@@ -412,7 +412,7 @@ impl Block for TransactionBlock {
         }
 
         if !check_pow(
-            &self.merkle_tree_root,
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
@@ -548,7 +548,7 @@ impl Block for SummarizeBlock {
         }
 
         if !check_pow(
-            &self.merkle_tree_root,
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
-- 
2.43.0


From f2781b6a9b4bbe3f9e5091559d37cd31bdd5b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 09/21] fix: a timestamp in the past may not ease the
 difficulty

The elapsed time underflowed: a panic in debug builds, and in release
builds a huge elapsed time, which made the next block easier. From the
hardest difficulty a slow block jumped to an easy one.
---
 src/tools.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index 773e679..e72aa9c 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -217,14 +217,17 @@ pub fn check_pow(
 }
 
 pub fn recalculate_difficulty(prev_timestamp: u64, timestamp: u64, prev_difficulty: &mut Hash) {
-    let mut non_zero_index: usize = 0;
+    let mut non_zero_index: usize = prev_difficulty.len() - 1;
     for (index, val) in prev_difficulty.iter().enumerate() {
         if !0.eq(val) {
             non_zero_index = index;
             break;
         };
     }
-    match (timestamp - prev_timestamp).cmp(&TIME_PER_BLOCK) {
+    match timestamp
+        .saturating_sub(prev_timestamp)
+        .cmp(&TIME_PER_BLOCK)
+    {
         Ordering::Less => {
             let val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index) };
             *val >>= 1;
-- 
2.43.0


From ae9c0e68c3e97c84e5987646e92ca434b93d639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 10/21] fix: the dump size of zero is one byte

dump_u256 writes only the length for zero. The announced size was one
byte too large: a transaction block of height zero could not be parsed
back, and a transaction of amount zero paid gas for a byte it lacks.
---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index e72aa9c..6ab2263 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -81,7 +81,7 @@ pub fn load_u256(data: &[u8]) -> Result<(U256, usize), ToolsError> {
 pub fn u256_size(number: &U256) -> usize {
     let bits_size: usize = number.bits();
     if bits_size == 0 {
-        return 2;
+        return 1;
     }
     let mut amount_byte_size: usize = bits_size / 8;
     if number.bits() % 8 != 0 {
-- 
2.43.0


From 2c36c032458c581a889a772f6c7df8aa2d410c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 11/21] fix: report truncated encodings instead of panicking

Parsing a block, a transaction or a number that ends too early indexed
past the end of the data.
---
 src/block.rs | 11 +++++++++--
 src/tools.rs | 13 +++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 74958c8..2db7bc2 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -85,10 +85,10 @@ impl BasicInfo {
     pub fn parse(data: &[u8]) -> Result<BasicInfo, BlockError> {
         let mut index: usize = 0;
 
-        if data.len() <= 105 {
+        if data.len() <= 137 {
             return Err(
                 Report::new(BlockError::BasicInfo(BasicInfoErrorKind::Parse))
-                    .attach_printable("data <= 105"),
+                    .attach_printable("data <= 137"),
             );
         }
 
@@ -191,6 +191,13 @@ impl TransactionBlock {
     pub fn parse(data: &[u8]) -> Result<Self, BlockError> {
         let mut index: usize = 0;
 
+        if data.len() < 32 {
+            return Err(
+                Report::new(BlockError::TransactionBlock(TxBlockErrorKind::Parse))
+                    .attach_printable("data length < 32"),
+            );
+        }
+
         let merkle_tree_root: Hash = unsafe { data[0..32].try_into().unwrap_unchecked() };
         index += 32;
 
diff --git a/src/tools.rs b/src/tools.rs
index 6ab2263..0ffe736 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -56,13 +56,16 @@ pub fn dump_u256(number: &U256, buffer: &mut Vec<u8>) -> Result<(), ToolsError>
 }
 
 pub fn load_u256(data: &[u8]) -> Result<(U256, usize), ToolsError> {
-    let amount_of_bytes: usize = data[0] as usize;
+    let amount_of_bytes: usize = *data
+        .first()
+        .ok_or(ToolsError::Biguint(BiguintErrorKind::Load))?
+        as usize;
 
     if amount_of_bytes > 32 {
         return Err(Report::new(ToolsError::Biguint(BiguintErrorKind::Dump)));
     }
 
-    if data.len() < amount_of_bytes {
+    if data.len() < 1 + amount_of_bytes {
         return Err(
             Report::new(ToolsError::Biguint(BiguintErrorKind::Load)).attach_printable(format!(
                 "data = {} // bytes = {}",
@@ -109,9 +112,11 @@ pub fn dump_biguint(number: &BigUint, buffer: &mut Vec<u8>) -> Result<(), ToolsE
 }
 
 pub fn load_biguint(data: &[u8]) -> Result<(BigUint, usize), ToolsError> {
-    let amount_of_bunches: u8 = data[0];
+    let amount_of_bunches: u8 = *data
+        .first()
+        .ok_or(ToolsError::Biguint(BiguintErrorKind::Load))?;
     let amount_of_bytes: usize = amount_of_bunches as usize; //*4;
-    if data.len() < amount_of_bytes {
+    if data.len() < 1 + amount_of_bytes {
         return Err(
             Report::new(ToolsError::Biguint(BiguintErrorKind::Load)).attach_printable(format!(
                 "data = {} // bytes = {}",
-- 
2.43.0


From 26efaf302b78338c0c9a11417df3456ea511102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 12/21] fix: SummaryDB works for addresses that are not UTF-8

The messages attached to a possible error were built even on success and
unwrapped the address as UTF-8, which a public key seldom is, so adding
funds to it panicked after writing; adding could also overflow.
---
 src/summary_db.rs | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/summary_db.rs b/src/summary_db.rs
index 2c3c09e..7ae34d9 100644
--- a/src/summary_db.rs
+++ b/src/summary_db.rs
@@ -35,8 +35,8 @@ impl SummaryDB {
                 BCTreeErrorKind::GetDerivChain,
             ))
             .attach_printable(format!(
-                "failed to get data from summary db at address: {}",
-                std::str::from_utf8(addr).unwrap()
+                "failed to get data from summary db at address: {:X?}",
+                addr
             ))),
         }
     }
@@ -64,10 +64,7 @@ impl SummaryDB {
             Ok(None) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::DecreaseFunds,
             ))
-            .attach_printable(format!(
-                "address: {} doesn't have any coins",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("address: {:X?} doesn't have any coins", addr))),
             Ok(Some(prev)) => {
                 let res = tools::load_u256(&prev).change_context(
                     BlockChainTreeError::BlockChainTree(BCTreeErrorKind::DecreaseFunds),
@@ -109,10 +106,7 @@ impl SummaryDB {
             Err(_) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::DecreaseFunds,
             ))
-            .attach_printable(format!(
-                "failed to get data from address: {}",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("failed to get data from address: {:X?}", addr))),
         }
     }
 
@@ -141,8 +135,8 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {:X?}",
+                        addr
                     ))?;
 
                 self.db
@@ -152,8 +146,8 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {:X?}",
+                        addr
                     ))?;
 
                 Ok(())
@@ -164,7 +158,12 @@ impl SummaryDB {
                 )?;
 
                 let mut previous = res.0;
-                previous += *funds;
+                previous =
+                    previous
+                        .checked_add(*funds)
+                        .ok_or(BlockChainTreeError::BlockChainTree(
+                            BCTreeErrorKind::AddFunds,
+                        ))?;
 
                 let mut dump: Vec<u8> = Vec::with_capacity(tools::u256_size(&previous));
                 tools::dump_u256(&previous, &mut dump).change_context(
@@ -176,10 +175,7 @@ impl SummaryDB {
                     .change_context(BlockChainTreeError::BlockChainTree(
                         BCTreeErrorKind::AddFunds,
                     ))
-                    .attach_printable(format!(
-                        "failed to put funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
-                    ))?;
+                    .attach_printable(format!("failed to put funds at address: {:X?}", addr))?;
 
                 self.db
                     .flush_async()
@@ -188,8 +184,8 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {:X?}",
+                        addr
                     ))?;
 
                 Ok(())
@@ -197,10 +193,7 @@ impl SummaryDB {
             Err(_) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::AddFunds,
             ))
-            .attach_printable(format!(
-                "failed to get data from address: {}",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("failed to get data from address: {:X?}", addr))),
         }
     }
 }
-- 
2.43.0


From 52cdbeb773a61c77833070668cc2a16ca7138cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 13/21] fix: sending gas to oneself may not create gas

---
 src/blockchaintree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 0b15329..17ec8c0 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -317,6 +317,9 @@ impl BlockChainTree {
         to: &[u8],
         amount: U256,
     ) -> Result<(), Report<BlockChainTreeError>> {
+        if from == to {
+            return Ok(());
+        }
         self.gas_db
             .transaction(
                 |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
-- 
2.43.0


From 79198ed94d8a179acfe094421a78d10880149f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 14/21] fix: the summary covers gas of accounts without coins

---
 src/blockchaintree.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 17ec8c0..45b1989 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -396,6 +396,27 @@ impl BlockChainTree {
             hashes.push(tools::hash(&data_to_hash));
         }
 
+        // accounts that hold gas but never held coins
+        for res in self.gas_db.iter() {
+            let (address, gas_amount) = res
+                .change_context(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::GetFunds,
+                ))
+                .attach_printable("failed to get funds from gas_db")?;
+            if self
+                .summary_db
+                .contains_key(&address)
+                .change_context(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::GetFunds,
+                ))?
+            {
+                continue;
+            }
+            let data_to_hash = [&address as &[u8], b"||", &gas_amount].concat();
+
+            hashes.push(tools::hash(&data_to_hash));
+        }
+
         let merkle_tree = merkletree::MerkleTree::build_tree(&hashes);
 
         Ok(*merkle_tree.get_root())
-- 
2.43.0


From 722223c52ef752c483608744fa29d2f9a09316e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 15/21] fix: the first allotment is on disk before a height
 above it can be

A kill in the first flush, after the main chain's and before the summary's,
left a chain above height 1 whose root account had never received its coins.
---
 src/blockchaintree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 45b1989..c730182 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -75,6 +75,11 @@ impl BlockChainTree {
                     },
                 )
                 .unwrap();
+            // must not be missing once the chain's height is on disk
+            summary_db
+                .flush()
+                .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
+                .attach_printable("failed to flush summary db")?;
         }
         Ok(Self {
             main_chain,
-- 
2.43.0


From e657a42b5c1bafdbe12f4abf734b0e01ae8eb7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 16/21] fix: a kill in the middle of an epoch's end leaves the
 tree readable

The previous epoch's databases were removed and copied in place: a kill in
between left half a copy, which could not be opened or was taken for empty.
---
 src/blockchaintree.rs | 35 ++++++++---------------------------
 src/tools.rs          | 25 +++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index c730182..f6fe9e8 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -18,7 +18,6 @@ use error_stack::{Report, ResultExt};
 use parking_lot::Mutex;
 use primitive_types::U256;
 use sled::Db;
-use std::fs;
 
 pub struct BlockChainTree {
     main_chain: chain::MainChain,
@@ -40,6 +39,12 @@ impl BlockChainTree {
         let path_gas = root.join(GAS_SUMMARY);
         let path_gas_old = root.join(OLD_GAS_SUMMARY);
 
+        for path in [&path_summary_old, &path_gas_old] {
+            tools::restore_dir(path)
+                .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
+                .attach_printable("failed to restore previous epoch's db")?;
+        }
+
         // open summary DB
         let summary_db = sled::open(path_summary)
             .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
@@ -615,37 +620,13 @@ impl BlockChainTree {
         let path_gas = root.join(GAS_SUMMARY);
         let path_gas_old = root.join(OLD_GAS_SUMMARY);
 
-        fs::remove_dir_all(&path_summary_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to remove previous summary database")?;
-
-        fs::create_dir(&path_summary_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to create previous summary database folder")?;
-
-        fs::remove_dir_all(&path_gas_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to remove previous gas database")?;
-
-        fs::create_dir(&path_gas_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to remove previous gas database folder")?;
-
-        tools::copy_dir_all(path_summary, &path_summary_old)
+        tools::replace_dir(path_summary, &path_summary_old)
             .change_context(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::MoveSummaryDB,
             ))
             .attach_printable("failed to copy summary database")?;
 
-        tools::copy_dir_all(path_gas, &path_gas_old)
+        tools::replace_dir(path_gas, &path_gas_old)
             .change_context(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::MoveSummaryDB,
             ))
diff --git a/src/tools.rs b/src/tools.rs
index 0ffe736..319b0b0 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -29,6 +29,31 @@ pub fn copy_dir_all(src: impl AsRef<Path>, dst: impl AsRef<Path>) -> io::Result<
     Ok(())
 }
 
+/// Replaces `dst` with a copy of `src`. Interrupted at any point, it leaves (after
+/// `restore_dir`) either what `dst` was or the whole copy.
+pub fn replace_dir(src: impl AsRef<Path>, dst: impl AsRef<Path>) -> io::Result<()> {
+    let new = dst.as_ref().with_extension("new");
+    let previous = dst.as_ref().with_extension("previous");
+    for leftover in [&new, &previous] {
+        if leftover.exists() {
+            fs::remove_dir_all(leftover)?;
+        }
+    }
+    copy_dir_all(src, &new)?;
+    fs::rename(&dst, &previous)?;
+    fs::rename(&new, &dst)?;
+    fs::remove_dir_all(&previous)
+}
+
+/// Brings back what `replace_dir` was about to replace when it was interrupted.
+pub fn restore_dir(dst: impl AsRef<Path>) -> io::Result<()> {
+    let previous = dst.as_ref().with_extension("previous");
+    if !dst.as_ref().exists() && previous.exists() {
+        fs::rename(&previous, &dst)?;
+    }
+    Ok(())
+}
+
 pub fn dump_u256(number: &U256, buffer: &mut Vec<u8>) -> Result<(), ToolsError> {
     buffer.push(0);
     let ind = buffer.len() - 1;
-- 
2.43.0


From 9c09b016a44c5717b742de41853d6a8b4cee6848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 17/21] fix: the fee and transactions of a block follow its
 height as it was encoded

---
 src/block.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 2db7bc2..f824505 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -83,6 +83,11 @@ impl BasicInfo {
     }
 
     pub fn parse(data: &[u8]) -> Result<BasicInfo, BlockError> {
+        Ok(BasicInfo::parse_counting(data)?.0)
+    }
+
+    /// Parses the info and tells how many bytes it took
+    fn parse_counting(data: &[u8]) -> Result<(BasicInfo, usize), BlockError> {
         let mut index: usize = 0;
 
         if data.len() <= 137 {
@@ -113,18 +118,21 @@ impl BasicInfo {
         index += 33;
 
         // parsing height
-        let (height, _) = tools::load_u256(&data[index..])
+        let (height, height_size) = tools::load_u256(&data[index..])
             .change_context(BlockError::BasicInfo(BasicInfoErrorKind::Parse))?;
-        //index += height_size + 1;
-
-        Ok(BasicInfo {
-            timestamp,
-            pow,
-            previous_hash,
-            height,
-            difficulty,
-            founder,
-        })
+        index += height_size + 1;
+
+        Ok((
+            BasicInfo {
+                timestamp,
+                pow,
+                previous_hash,
+                height,
+                difficulty,
+                founder,
+            },
+            index,
+        ))
     }
 }
 
@@ -201,10 +209,10 @@ impl TransactionBlock {
         let merkle_tree_root: Hash = unsafe { data[0..32].try_into().unwrap_unchecked() };
         index += 32;
 
-        let default_info = BasicInfo::parse(&data[index..])
+        let (default_info, info_size) = BasicInfo::parse_counting(&data[index..])
             .change_context(BlockError::TransactionBlock(TxBlockErrorKind::Parse))
             .attach_printable("Error parsing default data")?;
-        index += default_info.get_dump_size();
+        index += info_size;
 
         let (fee, fee_size) = tools::load_u256(&data[index..])
             .change_context(BlockError::TransactionBlock(TxBlockErrorKind::Parse))
-- 
2.43.0


From 37d6741b9902d5f9c99ff206b0595ea185b503f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 18/21] fix: a demand below the beginning one does not abort
 the next block's

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 319b0b0..dc793c1 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -264,7 +264,7 @@ pub fn recalculate_difficulty(prev_timestamp: u64, timestamp: u64, prev_difficul
         }
         Ordering::Greater => {
             let mut val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index) };
-            if non_zero_index == 0 && *val == 0x7f {
+            if non_zero_index == 0 && *val >= 0x7f {
                 return;
             }
             if *val == 0xFF {
-- 
2.43.0


From aff953d15be38e8d479bea4d145c9b24b8c9623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 19/21] fix: overlapping flushes may not take back what one of
 them promised

---
 src/chain.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/chain.rs b/src/chain.rs
index 2b45077..fdcaf86 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -55,6 +55,7 @@ pub struct MainChain {
     transactions: Db,
     height: Arc<RwLock<U256>>,
     difficulty: Arc<RwLock<[u8; 32]>>,
+    flush_lock: Arc<tokio::sync::Mutex<()>>,
     root: String,
 }
 
@@ -112,6 +113,7 @@ impl MainChain {
             transactions,
             height: Arc::new(RwLock::new(height)),
             difficulty: Arc::new(RwLock::new(difficulty)),
+            flush_lock: Arc::new(tokio::sync::Mutex::new(())),
             root: root.to_str().unwrap().to_string(),
         };
         if height.is_zero() {
@@ -191,6 +193,9 @@ impl MainChain {
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
+        // an overlapping flush may not replace the config by an older one
+        let _flush = self.flush_lock.lock().await;
+
         // the config may only name a height whose blocks are already on disk
         let height = *self.height.read();
 
@@ -459,6 +464,7 @@ pub struct DerivativeChain {
     height: Arc<RwLock<U256>>,
     pub genesis_hash: Arc<[u8; 32]>,
     difficulty: Arc<RwLock<[u8; 32]>>,
+    flush_lock: Arc<tokio::sync::Mutex<()>>,
     chain_owner: String,
     root: String,
 }
@@ -525,6 +531,7 @@ impl DerivativeChain {
             height_reference,
             height: Arc::new(RwLock::new(height)),
             difficulty: Arc::new(RwLock::new(difficulty)),
+            flush_lock: Arc::new(tokio::sync::Mutex::new(())),
             genesis_hash: Arc::new(genesis_hash),
             chain_owner: chain_owner.to_string(),
             root: root.to_str().unwrap().to_string(),
@@ -587,6 +594,9 @@ impl DerivativeChain {
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
+        // an overlapping flush may not replace the config by an older one
+        let _flush = self.flush_lock.lock().await;
+
         // the config may only name a height whose blocks are already on disk
         let height = *self.height.read();
 
-- 
2.43.0


From 45c3692d48dd8383ff82e2a91f70a6cd24e99938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 20/21] verif: hook (cfg verif) to move a derivative chain's
 tip

---
 src/chain.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/chain.rs b/src/chain.rs
index fdcaf86..bc8766d 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -788,3 +788,12 @@ impl MainChain {
         *self.height.write() = height;
     }
 }
+
+/// Verification hook, compiled only with `--cfg verif`
+#[cfg(verif)]
+impl DerivativeChain {
+    /// Moves the tip of the chain to `height` without adding blocks
+    pub fn verif_set_height(&self, height: U256) {
+        *self.height.write() = height;
+    }
+}
-- 
2.43.0


From a52c9bf7d1bd993cc1ae4b6a4aebae6605afbe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:05 +0000
Subject: [PATCH 21/21] fix: concurrent updates of one address in SummaryDB do
 not lose one another

---
 src/summary_db.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/summary_db.rs b/src/summary_db.rs
index 7ae34d9..edf2f56 100644
--- a/src/summary_db.rs
+++ b/src/summary_db.rs
@@ -1,6 +1,7 @@
 use error_stack::{Report, Result, ResultExt};
 use num_bigint::BigUint;
 use num_traits::Zero;
+use parking_lot::Mutex;
 use primitive_types::U256;
 use sled::Db;
 
@@ -11,11 +12,16 @@ use crate::{
 
 pub struct SummaryDB {
     db: Db,
+    /// Held from reading a balance until its new value is written
+    update_lock: Mutex<()>,
 }
 
 impl SummaryDB {
     pub fn new(db: Db) -> Self {
-        SummaryDB { db }
+        SummaryDB {
+            db,
+            update_lock: Mutex::new(()),
+        }
     }
     /// Get funds
     ///
@@ -59,6 +65,7 @@ impl SummaryDB {
         addr: &[u8; 33],
         funds: &U256,
     ) -> Result<(), BlockChainTreeError> {
+        let update = self.update_lock.lock();
         let result = self.db.get(addr);
         match result {
             Ok(None) => Err(Report::new(BlockChainTreeError::BlockChainTree(
@@ -91,6 +98,7 @@ impl SummaryDB {
                     ))
                     .attach_printable(format!("failed to put funds at address: {addr:X?}"))?;
 
+                drop(update);
                 self.db
                     .flush_async()
                     .await
@@ -121,6 +129,7 @@ impl SummaryDB {
         if funds.is_zero() {
             return Ok(());
         }
+        let update = self.update_lock.lock();
         let result = self.db.get(addr);
         match result {
             Ok(None) => {
@@ -139,6 +148,7 @@ impl SummaryDB {
                         addr
                     ))?;
 
+                drop(update);
                 self.db
                     .flush_async()
                     .await
@@ -177,6 +187,7 @@ impl SummaryDB {
                     ))
                     .attach_printable(format!("failed to put funds at address: {:X?}", addr))?;
 
+                drop(update);
                 self.db
                     .flush_async()
                     .await
-- 
2.43.0

