From 7b37dd13bc0763467e36db28fbd915b8ab6f0db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 01/40] fix: roll back pushed transactions when a block exceeds
 the cumulative size limit

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 4d88c20..4694a10 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -2764,6 +2764,7 @@ namespace cn
     if (!checkCumulativeBlockSize(blockHash, cumulative_block_size, block.height))
     {
       bvc.m_verification_failed = true;
+      popTransactions(block, minerTransactionHash);
       return false;
     }
 
-- 
2.43.0


From 65c2dfd68206ffd4a0bf90665633b4ea78350292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 02/40] fix: removing the last block also updates the deposit
 index and the upgrade detectors

---
 src/CryptoNoteCore/Blockchain.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 4694a10..723fa3a 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -3285,10 +3285,18 @@ namespace cn
     m_timestampIndex.remove(m_blocks.back().bl.timestamp, blockHash);
     m_generatedTransactionsIndex.remove(m_blocks.back().bl);
 
+    m_depositIndex.popBlock();
     m_blocks.pop_back();
     m_blockIndex.pop();
 
     assert(m_blockIndex.size() == m_blocks.size());
+
+    m_upgradeDetectorV2.blockPopped();
+    m_upgradeDetectorV3.blockPopped();
+    m_upgradeDetectorV4.blockPopped();
+    m_upgradeDetectorV7.blockPopped();
+    m_upgradeDetectorV8.blockPopped();
+
     return true;
   }
 
-- 
2.43.0


From 37e74a584f46b20f8247be8346ad5e4ac604d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 03/40] fix: rebuilding or resetting the chain starts from an
 empty deposit index and multisignature table

---
 src/CryptoNoteCore/Blockchain.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 723fa3a..8bd5b43 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -690,6 +690,7 @@ namespace cn
       m_spent_keys.clear();
       m_outputs.clear();
       m_multisignatureOutputs.clear();
+      m_depositIndex = DepositIndex();
       for (uint32_t b = 0; b < m_blocks.size(); ++b)
       {
         if (b % 1000 == 0)
@@ -901,6 +902,8 @@ namespace cn
     m_spent_keys.clear();
     m_alternative_chains.clear();
     m_outputs.clear();
+    m_multisignatureOutputs.clear();
+    m_depositIndex = DepositIndex();
 
     m_paymentIdIndex.clear();
     m_timestampIndex.clear();
-- 
2.43.0


From eb0758250e75a2dd019b0ba1d72d36a003fdc67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 04/40] fix: the deposit index keeps interest of blocks whose
 net deposit change is zero

---
 src/CryptoNoteCore/DepositIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/DepositIndex.cpp b/src/CryptoNoteCore/DepositIndex.cpp
index 29979c0..923e439 100644
--- a/src/CryptoNoteCore/DepositIndex.cpp
+++ b/src/CryptoNoteCore/DepositIndex.cpp
@@ -71,7 +71,7 @@ void DepositIndex::pushBlock(DepositAmount amount, DepositInterest interest) {
   assert(!sumWillOverflow(amount, lastAmount));
   assert(!sumWillOverflow(interest, lastInterest));
   assert(amount + lastAmount >= 0);
-  if (amount != 0) {
+  if (amount != 0 || interest != 0) {
     index.push_back({blockCount, amount + lastAmount, interest + lastInterest});
   }
 
-- 
2.43.0


From 4f7e91cee90fa8dbab629d636176c9035fe27bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 05/40] fix: clearing the generated transactions index also
 resets its running total

---
 src/CryptoNoteCore/BlockchainIndices.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/BlockchainIndices.cpp b/src/CryptoNoteCore/BlockchainIndices.cpp
index a23a733..f79df48 100644
--- a/src/CryptoNoteCore/BlockchainIndices.cpp
+++ b/src/CryptoNoteCore/BlockchainIndices.cpp
@@ -207,6 +207,7 @@ bool GeneratedTransactionsIndex::find(uint32_t height, uint64_t& generatedTransa
 
 void GeneratedTransactionsIndex::clear() {
   index.clear();
+  lastGeneratedTxNumber = 0;
 }
 
 void GeneratedTransactionsIndex::serialize(ISerializer& s) {
-- 
2.43.0


From 718012772ff31634b8bfaae48818464ff1859cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 06/40] fix: check_outs_valid no longer dereferences a null
 error pointer

---
 src/CryptoNoteCore/CryptoNoteFormatUtils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
index 4bcf6ea..bdf678b 100644
--- a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
+++ b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
@@ -317,7 +317,9 @@ bool check_outs_valid(const TransactionPrefix& tx, std::string* error) {
       }
     } else if (out.target.type() == typeid(MultisignatureOutput)) {
       if (tx.version < TRANSACTION_VERSION_2) {
-        *error = "Transaction contains multisignature output but its version is less than 2";
+        if (error) {
+          *error = "Transaction contains multisignature output but its version is less than 2";
+        }
         return false;
       }
 
-- 
2.43.0


From d28f8df39fa1136d9e03852af68a71650dbb5870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:18 +0000
Subject: [PATCH 07/40] fix: an alternative block refused for its merge-mining
 tag is reported as failed verification

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 8bd5b43..091326c 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1692,6 +1692,7 @@ namespace cn
         if (getMergeMiningTagFromExtra(bei.bl.baseTransaction.extra, mmTag) && bei.height >= cn::parameters::UPGRADE_HEIGHT_V6)
         {
           logger(ERROR, BRIGHT_RED) << "Merge mining tag was found in extra of miner transaction";
+          bvc.m_verification_failed = true;
           return false;
         }
 
-- 
2.43.0


From 2d7c473375cdc92afe8ac142b0525626941e6ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:11 +0000
Subject: [PATCH 08/40] fix: index the payment id of a pool transaction from
 the transaction, not from the moved-from entry

---
 src/CryptoNoteCore/TransactionPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/TransactionPool.cpp b/src/CryptoNoteCore/TransactionPool.cpp
index c8ffa06..3c531b7 100644
--- a/src/CryptoNoteCore/TransactionPool.cpp
+++ b/src/CryptoNoteCore/TransactionPool.cpp
@@ -257,7 +257,7 @@ namespace cn
         logger(WARNING, BRIGHT_YELLOW) << " Transaction already exists at inserting in memory pool";
         return false;
       }
-      m_paymentIdIndex.add(txd.tx);
+      m_paymentIdIndex.add(tx);
       m_timestampIndex.add(txd.receiveTime, txd.id);
 
       if (ttl.ttl != 0)
-- 
2.43.0


From 74c72f694eea4d45643d44a695f20999a32ca60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:40 +0000
Subject: [PATCH 09/40] fix: getBlockTimestamp and isBlockInMainChain take the
 blockchain lock

---
 src/CryptoNoteCore/Blockchain.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 091326c..fe0e4dc 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1056,6 +1056,7 @@ namespace cn
 
   uint64_t Blockchain::getBlockTimestamp(uint32_t height)
   {
+    std::lock_guard<decltype(m_blockchain_lock)> lk(m_blockchain_lock);
     assert(height < m_blocks.size());
     return m_blocks[height].bl.timestamp;
   }
@@ -3568,6 +3569,7 @@ namespace cn
 
   bool Blockchain::isBlockInMainChain(const crypto::Hash &blockId) const
   {
+    std::lock_guard<decltype(m_blockchain_lock)> lk(m_blockchain_lock);
     return m_blockIndex.hasBlock(blockId);
   }
 
-- 
2.43.0


From 18d348c27f9fb5a0984638e4f59dbad496468775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:41 +0000
Subject: [PATCH 10/40] fix: reading a consumer's state no longer takes the
 synchronizer's mutexes in the opposite order of its working thread

---
 src/Transfers/BlockchainSynchronizer.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Transfers/BlockchainSynchronizer.cpp b/src/Transfers/BlockchainSynchronizer.cpp
index 6ef5884..7bc43c8 100644
--- a/src/Transfers/BlockchainSynchronizer.cpp
+++ b/src/Transfers/BlockchainSynchronizer.cpp
@@ -64,11 +64,20 @@ bool BlockchainSynchronizer::removeConsumer(IBlockchainConsumer* consumer) {
 }
 
 IStreamSerializable* BlockchainSynchronizer::getConsumerState(IBlockchainConsumer* consumer) const {
+  // the state mutex must not be taken while the consumers mutex is held: the working thread takes them in the other order
+  if (!(checkIfStopped() && checkIfShouldStop())) {
+    throw std::runtime_error("Can't get consumer state, because BlockchainSynchronizer isn't stopped");
+  }
+
   std::unique_lock<std::mutex> lk(m_consumersMutex);
   return getConsumerSynchronizationState(consumer);
 }
 
 std::vector<crypto::Hash> BlockchainSynchronizer::getConsumerKnownBlocks(IBlockchainConsumer& consumer) const {
+  if (!(checkIfStopped() && checkIfShouldStop())) {
+    throw std::runtime_error("Can't get consumer state, because BlockchainSynchronizer isn't stopped");
+  }
+
   std::unique_lock<std::mutex> lk(m_consumersMutex);
 
   auto state = getConsumerSynchronizationState(&consumer);
@@ -561,10 +570,6 @@ std::error_code BlockchainSynchronizer::processPoolTxs(GetPoolResponse& response
 SynchronizationState* BlockchainSynchronizer::getConsumerSynchronizationState(IBlockchainConsumer* consumer) const {
   assert(consumer != nullptr);
 
-  if (!(checkIfStopped() && checkIfShouldStop())) {
-    throw std::runtime_error("Can't get consumer state, because BlockchainSynchronizer isn't stopped");
-  }
-
   auto it = m_consumers.find(consumer);
   if (it == m_consumers.end()) {
     return nullptr;
-- 
2.43.0


From d08bc1e82cbc0f3bd095e6c5caf8ee4dd94a088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:41 +0000
Subject: [PATCH 11/40] fix: WalletLegacy reads its transaction cache under the
 cache mutex everywhere

---
 src/WalletLegacy/WalletLegacy.cpp | 8 ++++++++
 src/WalletLegacy/WalletLegacy.h   | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/WalletLegacy/WalletLegacy.cpp b/src/WalletLegacy/WalletLegacy.cpp
index fe621b9..49b5f57 100644
--- a/src/WalletLegacy/WalletLegacy.cpp
+++ b/src/WalletLegacy/WalletLegacy.cpp
@@ -362,6 +362,7 @@ void WalletLegacy::reset() {
 }
 
 std::vector<Payments> WalletLegacy::getTransactionsByPaymentIds(const std::vector<PaymentId>& paymentIds) const {
+  std::unique_lock<std::mutex> lock(m_cacheMutex);
   return m_transactionsCache.getTransactionsByPaymentIds(paymentIds);
 }
 
@@ -1080,8 +1081,10 @@ void WalletLegacy::notifyIfBalanceChanged() {
 }
 
 void WalletLegacy::notifyIfDepositBalanceChanged() {
+  std::unique_lock<std::mutex> lock(m_cacheMutex);
   std::unique_ptr<WalletLegacyEvent> actualEvent = getActualDepositBalanceChangedEvent();
   std::unique_ptr<WalletLegacyEvent> pendingEvent = getPendingDepositBalanceChangedEvent();
+  lock.unlock();
 
   if (actualEvent) {
     actualEvent->notify(m_observerManager);
@@ -1308,7 +1311,9 @@ void WalletLegacy::pushBalanceUpdatedEvents(std::deque<std::unique_ptr<WalletLeg
 
 crypto::SecretKey WalletLegacy::getTxKey(crypto::Hash &txid)
 {
+  std::unique_lock<std::mutex> lock(m_cacheMutex);
   TransactionId ti = m_transactionsCache.findTransactionByHash(txid);
+  lock.unlock();
   WalletLegacyTransaction transaction;
   getTransaction(ti, transaction);
   if (transaction.secretKey && NULL_SECRET_KEY != reinterpret_cast<const crypto::SecretKey &>(transaction.secretKey.get()))
@@ -1340,7 +1345,9 @@ crypto::SecretKey WalletLegacy::getTxKey(crypto::Hash &txid)
   }
 }
 bool WalletLegacy::get_tx_key(crypto::Hash& txid, crypto::SecretKey& txSecretKey) {
+  std::unique_lock<std::mutex> lock(m_cacheMutex);
   TransactionId ti = m_transactionsCache.findTransactionByHash(txid);
+  lock.unlock();
   WalletLegacyTransaction transaction;
   getTransaction(ti, transaction);
   txSecretKey = transaction.secretKey.get();
@@ -1504,6 +1511,7 @@ bool WalletLegacy::checkWalletPassword(std::istream& source, const std::string&
 
 Deposit WalletLegacy::get_deposit(DepositId depositId)
 {
+  std::unique_lock<std::mutex> lock(m_cacheMutex);
   return m_transactionsCache.getDeposit(depositId);
 }
 
diff --git a/src/WalletLegacy/WalletLegacy.h b/src/WalletLegacy/WalletLegacy.h
index b3fa58f..ec2dc37 100644
--- a/src/WalletLegacy/WalletLegacy.h
+++ b/src/WalletLegacy/WalletLegacy.h
@@ -170,7 +170,7 @@ private:
   };
 
   WalletState m_state;
-  std::mutex m_cacheMutex;
+  mutable std::mutex m_cacheMutex;
   cn::AccountBase m_account;
   std::string m_password;
   const cn::Currency& m_currency;
-- 
2.43.0


From fa82769979a58a00f41bb2921558a3a78f0ec68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 12/40] fix: a miner thread records the number of the template
 it copied, not of one set right after

---
 src/CryptoNoteCore/Miner.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/CryptoNoteCore/Miner.cpp b/src/CryptoNoteCore/Miner.cpp
index b41ae58..8a506f2 100644
--- a/src/CryptoNoteCore/Miner.cpp
+++ b/src/CryptoNoteCore/Miner.cpp
@@ -359,8 +359,6 @@ namespace cn
         std::unique_lock<std::mutex> lk(m_template_lock);
         b = m_template;
         local_diff = m_diffic;
-        lk.unlock();
-
         local_template_ver = m_template_no;
         nonce = m_starter_nonce + th_local_index;
       }
-- 
2.43.0


From a28fd9331d44581642db6eaf50d51f2dcaaab9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:28 +0000
Subject: [PATCH 13/40] fix: InProcessNode::shutdown no longer joins its worker
 while holding the mutex the worker's requests take

---
 src/InProcessNode/InProcessNode.cpp | 8 +++++++-
 src/InProcessNode/InProcessNode.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/InProcessNode/InProcessNode.cpp b/src/InProcessNode/InProcessNode.cpp
index 59ff265..64f975c 100644
--- a/src/InProcessNode/InProcessNode.cpp
+++ b/src/InProcessNode/InProcessNode.cpp
@@ -88,12 +88,18 @@ bool InProcessNode::doShutdown() {
 
   protocol.removeObserver(this);
   core.removeObserver(this);
-  state = NOT_INITIALIZED;
+  state = STOPPING;
 
   work.reset();
   ioService.stop();
+
+  // the worker may be running a request that waits for the mutex
+  lock.unlock();
   workerThread->join();
+  lock.lock();
+
   resetIoService();
+  state = NOT_INITIALIZED;
   return true;
 }
 
diff --git a/src/InProcessNode/InProcessNode.h b/src/InProcessNode/InProcessNode.h
index c4cdf5d..ed50cd7 100644
--- a/src/InProcessNode/InProcessNode.h
+++ b/src/InProcessNode/InProcessNode.h
@@ -145,6 +145,7 @@ private:
 
   enum State {
     NOT_INITIALIZED,
+    STOPPING,
     INITIALIZED
   };
 
-- 
2.43.0


From 20e3317999aa40b40e5b3bdc4429d2e7e4df1e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:28 +0000
Subject: [PATCH 14/40] fix: InProcessNode::addObserver and removeObserver read
 the state under the mutex

---
 src/InProcessNode/InProcessNode.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/InProcessNode/InProcessNode.cpp b/src/InProcessNode/InProcessNode.cpp
index 64f975c..3e6d89c 100644
--- a/src/InProcessNode/InProcessNode.cpp
+++ b/src/InProcessNode/InProcessNode.cpp
@@ -38,6 +38,7 @@ InProcessNode::~InProcessNode() {
 }
 
 bool InProcessNode::addObserver(INodeObserver* observer) {
+  std::unique_lock<std::mutex> lock(mutex);
   if (state != INITIALIZED) {
     throw std::system_error(make_error_code(cn::error::NOT_INITIALIZED));
   }
@@ -46,6 +47,7 @@ bool InProcessNode::addObserver(INodeObserver* observer) {
 }
 
 bool InProcessNode::removeObserver(INodeObserver* observer) {
+  std::unique_lock<std::mutex> lock(mutex);
   if (state != INITIALIZED) {
     throw std::system_error(make_error_code(cn::error::NOT_INITIALIZED));
   }
-- 
2.43.0


From 4f6b9b3570fac766e70b92d26caeaf6128d9e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:36 +0000
Subject: [PATCH 15/40] fix: NodeRpcProxy::shutdown no longer joins its worker
 while holding the mutex the worker's callbacks may take

---
 src/NodeRpcProxy/NodeRpcProxy.cpp | 9 +++++++++
 src/NodeRpcProxy/NodeRpcProxy.h   | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/NodeRpcProxy/NodeRpcProxy.cpp b/src/NodeRpcProxy/NodeRpcProxy.cpp
index e5c4b03..a37ddde 100644
--- a/src/NodeRpcProxy/NodeRpcProxy.cpp
+++ b/src/NodeRpcProxy/NodeRpcProxy.cpp
@@ -102,6 +102,11 @@ bool NodeRpcProxy::shutdown() {
     }
   }
 
+  if (m_state == STATE_STOPPING) {
+    m_cv_initialized.wait(lock, [this] { return m_state != STATE_STOPPING; });
+    return true;
+  }
+
   assert(m_state == STATE_INITIALIZED);
   assert(m_dispatcher != nullptr);
 
@@ -111,8 +116,12 @@ bool NodeRpcProxy::shutdown() {
     m_dispatcher->yield();
   });
 
+  m_state = STATE_STOPPING;
   if (m_workerThread.joinable()) {
+    // the worker may be running a callback that makes another request, which takes the mutex
+    lock.unlock();
     m_workerThread.join();
+    lock.lock();
   }
   m_state = STATE_NOT_INITIALIZED;
   m_cv_initialized.notify_all();
diff --git a/src/NodeRpcProxy/NodeRpcProxy.h b/src/NodeRpcProxy/NodeRpcProxy.h
index 4db5f56..608e229 100644
--- a/src/NodeRpcProxy/NodeRpcProxy.h
+++ b/src/NodeRpcProxy/NodeRpcProxy.h
@@ -141,7 +141,8 @@ private:
   enum State {
     STATE_NOT_INITIALIZED,
     STATE_INITIALIZING,
-    STATE_INITIALIZED
+    STATE_INITIALIZED,
+    STATE_STOPPING
   };
 
   State m_state = STATE_NOT_INITIALIZED;
-- 
2.43.0


From 6a44be5485214d9107798d41fd7b248265d3571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 16/40] fix: generate_tx_proof draws its nonce under the lock
 of the random generator

---
 src/crypto/crypto.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crypto/crypto.cpp b/src/crypto/crypto.cpp
index 3f34c23..fd79b51 100644
--- a/src/crypto/crypto.cpp
+++ b/src/crypto/crypto.cpp
@@ -312,6 +312,7 @@ namespace crypto {
   }
 
 void crypto_ops::generate_tx_proof(const Hash &prefix_hash, const PublicKey &R, const PublicKey &A, const PublicKey &D, const SecretKey &r, Signature &sig) {
+    lock_guard<mutex> lock(random_lock);
     // sanity check
     ge_p3 R_p3;
     ge_p3 A_p3;
-- 
2.43.0


From 68a5690a3907096785dcdc62e51423254ab0f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 17/40] fix: LevinProtocol::invoke fails when the connection
 closes before the reply instead of reading an unset command

---
 src/P2p/LevinProtocol.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/P2p/LevinProtocol.h b/src/P2p/LevinProtocol.h
index 3fbb44f..44a66d4 100644
--- a/src/P2p/LevinProtocol.h
+++ b/src/P2p/LevinProtocol.h
@@ -42,9 +42,7 @@ public:
     sendMessage(command, encode(request), true);
 
     Command cmd;
-    readCommand(cmd);
-
-    if (!cmd.isResponse) {
+    if (!readCommand(cmd) || !cmd.isResponse) {
       return false;
     }
 
-- 
2.43.0


From 409b96d7ea76bd9f7e5ad27e98ef55664c83cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 18/40] fix: a chain entry refused for its heights is not
 processed any further

---
 src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
index 9c9ae7a..2c0efdf 100644
--- a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
+++ b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
@@ -750,6 +750,7 @@ int CryptoNoteProtocolHandler::handle_response_chain_entry(int command, NOTIFY_R
         << arg.total_height << "\r\nm_start_height=" << arg.start_height
         << "\r\nm_block_ids.size()=" << arg.m_block_ids.size();
     context.m_state = CryptoNoteConnectionContext::state_shutdown;
+    return 1;
   }
 
   for (auto &bl_id : arg.m_block_ids)
-- 
2.43.0


From 35e8e64451f2264d260b10db8882403bd2752fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 19/40] fix: a connection refused before or repeating its
 handshake no longer corrupts the peer count

---
 src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp | 6 ++++--
 src/P2p/ConnectionContext.h                          | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
index 2c0efdf..ac10b7d 100644
--- a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
+++ b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
@@ -97,8 +97,9 @@ void CryptoNoteProtocolHandler::onConnectionClosed(CryptoNoteConnectionContext &
     m_observerManager.notify(&ICryptoNoteProtocolObserver::lastKnownBlockHeightUpdated, m_observedHeight);
   }
 
-  if (context.m_state != CryptoNoteConnectionContext::state_befor_handshake)
+  if (context.m_is_counted)
   {
+    context.m_is_counted = false;
     m_peersCount--;
     m_observerManager.notify(&ICryptoNoteProtocolObserver::peerCountUpdated, m_peersCount.load());
   }
@@ -210,8 +211,9 @@ bool CryptoNoteProtocolHandler::process_payload_sync_data(const CORE_SYNC_DATA &
   updateObservedHeight(hshd.current_height, context);
   context.m_remote_blockchain_height = hshd.current_height;
 
-  if (is_inital)
+  if (is_inital && !context.m_is_counted)
   {
+    context.m_is_counted = true;
     m_peersCount++;
     m_observerManager.notify(&ICryptoNoteProtocolObserver::peerCountUpdated, m_peersCount.load());
   }
diff --git a/src/P2p/ConnectionContext.h b/src/P2p/ConnectionContext.h
index 7ac24e2..96140b2 100644
--- a/src/P2p/ConnectionContext.h
+++ b/src/P2p/ConnectionContext.h
@@ -26,6 +26,7 @@ struct CryptoNoteConnectionContext {
   uint32_t m_remote_ip = 0;
   uint32_t m_remote_port = 0;
   bool m_is_income = false;
+  bool m_is_counted = false;
   time_t m_started = 0;
 
   enum state {
-- 
2.43.0


From bf7e0a3077dc8f30f70a3df9594d884b096b9876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 20/40] fix: a connection to self is dropped before it is
 counted and listed as a peer

---
 src/P2p/NetNode.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/P2p/NetNode.cpp b/src/P2p/NetNode.cpp
index 35ec0eb..b124244 100644
--- a/src/P2p/NetNode.cpp
+++ b/src/P2p/NetNode.cpp
@@ -674,6 +674,11 @@ namespace cn
       return true;
     }
 
+    if (rsp.node_data.peer_id == m_config.m_peer_id)  {
+      logger(logging::TRACE) << context << "Connection to self detected, dropping connection";
+      return false;
+    }
+
     if (!m_payload_handler.process_payload_sync_data(rsp.payload_data, context, true)) {
       logger(logging::DEBUGGING) << context << "COMMAND_HANDSHAKE invoked, but process_payload_sync_data returned false, dropping connection.";
       return false;
@@ -682,11 +687,6 @@ namespace cn
     context.peerId = rsp.node_data.peer_id;
     m_peerlist.set_peer_just_seen(rsp.node_data.peer_id, context.m_remote_ip, context.m_remote_port);
 
-    if (rsp.node_data.peer_id == m_config.m_peer_id)  {
-      logger(logging::TRACE) << context << "Connection to self detected, dropping connection";
-      return false;
-    }
-
     logger(logging::DEBUGGING) << context << "COMMAND_HANDSHAKE INVOKED OK";
     return true;
   }
-- 
2.43.0


From 9efa02ab6bdc7aac3d05e1ae1033680ee17cfeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 21/40] fix: send no more peers than the handshake limit

get_peerlist_head() pushed an entry before it compared the counter, and
compared with '>' after a post-increment, so it returned depth + 2 entries.
---
 src/P2p/PeerListManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/P2p/PeerListManager.cpp b/src/P2p/PeerListManager.cpp
index b23603d..72e0873 100644
--- a/src/P2p/PeerListManager.cpp
+++ b/src/P2p/PeerListManager.cpp
@@ -159,11 +159,12 @@ bool PeerlistManager::get_peerlist_head(std::list<PeerlistEntry>& bs_head, uint3
 
   BOOST_REVERSE_FOREACH(const peers_indexed::value_type& vl, by_time_index)
   {
+    if (cnt >= depth)
+      break;
     if (!vl.last_seen)
       continue;
     bs_head.push_back(vl);
-    if (cnt++ > depth)
-      break;
+    ++cnt;
   }
   return true;
 }
-- 
2.43.0


From 1408143477424bd60330bc586ebde280d61ef00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 22/40] fix: do not let a peer date its peer list entries in
 our future

The remote clock is untrusted: with a local_time far from ours (or negative)
last_seen += delta wrapped, and the entry ended up later than our own clock,
so it led the gray list for ever and was never trimmed.
---
 src/P2p/NetNode.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/P2p/NetNode.cpp b/src/P2p/NetNode.cpp
index b124244..65743cc 100644
--- a/src/P2p/NetNode.cpp
+++ b/src/P2p/NetNode.cpp
@@ -1080,7 +1080,9 @@ namespace cn
         logger(DEBUGGING) << "FOUND FUTURE peerlist for entry " << be.adr << " last_seen: " << be.last_seen << ", local_time(on remote node):" << local_time;
         return false;
       }
-      be.last_seen += delta;
+      // keep the age that the remote node reports; an age beyond our own clock must not wrap into the future
+      uint64_t age = uint64_t(local_time) - be.last_seen;
+      be.last_seen = age < uint64_t(now) ? uint64_t(now) - age : 0;
     }
     return true;
   }
-- 
2.43.0


From 6559a06413b3c0fa86939e006074f7b5cdcc216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 23/40] fix: getTransfer returns the spent transfer it found

---
 src/Transfers/TransfersContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 635d499..5ee3cc9 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -845,7 +845,7 @@ bool TransfersContainer::getTransfer(const crypto::Hash& transactionHash, uint32
 
   auto spentIt = spentIndex.find(transferId);
   if (spentIt != spentIndex.end()) {
-    transfer = *unconfirmedIt;
+    transfer = *spentIt;
     transferState = TransferState::TransferSpent;
     return true;
   }
-- 
2.43.0


From f44322d95d97a923881afe3796e8c0e57755f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 24/40] fix: a processing error no longer leaves the block
 synchronization stuck

---
 src/Transfers/TransfersConsumer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index 12854a1..e240752 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -278,6 +278,10 @@ bool TransfersConsumer::onNewBlocks(const CompleteBlock* blocks, uint32_t startH
     }
   }
 
+  // no worker is left to make space in the queue
+  stopProcessing = true;
+  inputQueue.close();
+
   std::vector<crypto::Hash> blockHashes = getBlockHashes(blocks, count);
   if (!processingError) {
     m_observerManager.notify(&IBlockchainConsumerObserver::onBlocksAdded, this, blockHashes);
-- 
2.43.0


From d327b71670dcf4aee679487d72a424a10b7c8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 25/40] fix: check the number of global output indexes returned
 by the node

createTransfers indexed the list that the node returned without a check; a
node that answers with fewer indexes than the transaction has outputs made
the wallet read past the end of the list.
---
 src/Transfers/TransfersConsumer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index e240752..e6ce395 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -399,6 +399,11 @@ std::error_code createTransfers(
       return std::make_error_code(std::errc::argument_out_of_domain);
     }
 
+    // the node may have returned too few indexes
+    if (blockInfo.height != WALLET_UNCONFIRMED_TRANSACTION_HEIGHT && idx >= globalIdxs.size()) {
+      return std::make_error_code(std::errc::argument_out_of_domain);
+    }
+
     auto outType = tx.getOutputType(size_t(idx));
 
     if (
-- 
2.43.0


From f4a60f7e96759d2671ac6300c3e5d18fade86cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 26/40] fix: refuse blocks from the node that start above the
 known blocks

A response whose start height lies above the blocks known to a consumer made
updateConsumers compute a negative offset into the blocks and read outside of
them; it was only checked by an assertion.
---
 src/Transfers/BlockchainSynchronizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Transfers/BlockchainSynchronizer.cpp b/src/Transfers/BlockchainSynchronizer.cpp
index 7bc43c8..0d2c3f2 100644
--- a/src/Transfers/BlockchainSynchronizer.cpp
+++ b/src/Transfers/BlockchainSynchronizer.cpp
@@ -454,6 +454,11 @@ BlockchainSynchronizer::UpdateConsumersResult BlockchainSynchronizer::updateCons
   bool smthChanged = false;
 
   for (auto& kv : m_consumers) {
+    // the node must not leave a gap after the blocks we know
+    if (interval.startHeight > kv.second->getHeight()) {
+      return UpdateConsumersResult::errorOccurred;
+    }
+
     auto result = kv.second->checkInterval(interval);
 
     if (result.detachRequired) {
-- 
2.43.0


From 6ac4ba95712b943eb26e03d883b873501bd85a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 27/40] fix: WalletGreen checks that decoys were returned for
 every input

---
 src/Wallet/WalletGreen.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 0ee8379..86a2184 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -2990,6 +2990,11 @@ namespace cn
       throw std::system_error(ec);
     }
 
+    if (mixinResult.size() != selectedTransfers.size())
+    {
+      throw std::system_error(make_error_code(error::MIXIN_COUNT_TOO_BIG), "the node did not return outputs for every amount");
+    }
+
     checkIfEnoughMixins(mixinResult, mixIn);
   }
 
-- 
2.43.0


From 29d300bc8b0de2417141530ee8f95b26a2d6a870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 28/40] fix: WalletGreen::createDeposit rejects an amount that
 overflows with the fee

---
 src/Wallet/WalletGreen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 86a2184..5cb4945 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -464,6 +464,10 @@ namespace cn
 
     /* Select transfers, skipping amounts that cannot be mixed */
     uint64_t fee = 1000;
+    if (amount > std::numeric_limits<uint64_t>::max() - fee)
+    {
+      throw std::system_error(make_error_code(cn::error::SUM_OVERFLOW));
+    }
     uint64_t neededMoney = amount + fee;
     const uint64_t mixIn = cn::parameters::MINIMUM_MIXIN;
     std::vector<WalletOuts> usableWallets = wallets;
-- 
2.43.0


From 468d1b67cfec94d7983d87baf284640c4d5a0cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 29/40] fix: WalletGreen::withdrawDeposit checks that the
 output of the deposit is known

---
 src/Wallet/WalletGreen.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 5cb4945..8f33886 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -334,9 +334,8 @@ namespace cn
     foundMoney += deposit.amount + deposit.interest;
     m_logger(DEBUGGING, WHITE) << "found money " << foundMoney;
 
-    container->getTransfer(deposit.transactionHash, deposit.outputInTransaction, transfer, state);
-
-    if (state != ITransfersContainer::TransferState::TransferAvailable) 
+    if (!container->getTransfer(deposit.transactionHash, deposit.outputInTransaction, transfer, state) ||
+        state != ITransfersContainer::TransferState::TransferAvailable) 
     {
       throw std::system_error(make_error_code(cn::error::DEPOSIT_LOCKED));
     }
-- 
2.43.0


From 566590d5b66fb1bf8593665de8c734458d0712c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 30/40] fix: WalletGreen does not spend the outputs of a
 repeated source address twice

---
 src/Wallet/WalletGreen.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 8f33886..f33e7b5 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -3100,9 +3100,15 @@ namespace cn
   {
     std::vector<WalletOuts> wallets;
     wallets.reserve(addresses.size());
+    std::unordered_set<std::string> picked;
 
     for (const auto &address : addresses)
     {
+      if (!picked.insert(address).second)
+      {
+        continue; // the outputs of an address can be spent only once
+      }
+
       WalletOuts wallet = pickWallet(address);
       if (!wallet.outs.empty())
       {
-- 
2.43.0


From bf7438424cae594c67084366c577dab7a4244306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 31/40] fix: refuse a height range that starts above the chain
 top

The number of heights was computed as min(last, top) - first, which wraps
around when the range starts above the top of the chain: the node then tried to
list four billion heights.
---
 src/Rpc/RpcServer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Rpc/RpcServer.cpp b/src/Rpc/RpcServer.cpp
index ff8326e..ec2c322 100644
--- a/src/Rpc/RpcServer.cpp
+++ b/src/Rpc/RpcServer.cpp
@@ -465,6 +465,11 @@ bool RpcServer::on_get_txs_with_output_global_indexes(const COMMAND_RPC_GET_TRAN
           std::string("Requested blocks count: ") + std::to_string(range.back() - range.front()) + " exceeded max limit of " + std::to_string(BLOCK_LIST_MAX_COUNT) };
       }
 
+      if (m_core.get_current_blockchain_height() <= range.front()) {
+        throw JsonRpc::JsonRpcError{ CORE_RPC_ERROR_CODE_TOO_BIG_HEIGHT,
+          std::string("To big height: ") + std::to_string(range.front()) + ", current blockchain height = " + std::to_string(m_core.get_current_blockchain_height() - 1) };
+      }
+
       uint32_t upperBound = std::min(range[1], m_core.get_current_blockchain_height());
       for (uint32_t i = 0; i < (upperBound - range[0]); i++) {
         heights.push_back(range[0] + i);
-- 
2.43.0


From 7b70b5d031680e666ab7ef81714f10c8124daba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 32/40] fix: count every output of a reserve proof once

A proof that lists the same output several times was accepted and the total
counted the output each time.
---
 src/Rpc/RpcServer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Rpc/RpcServer.cpp b/src/Rpc/RpcServer.cpp
index ec2c322..60e8fa1 100644
--- a/src/Rpc/RpcServer.cpp
+++ b/src/Rpc/RpcServer.cpp
@@ -9,6 +9,7 @@
 
 #include <future>
 #include <unordered_map>
+#include <unordered_set>
 
 // cn
 #include "BlockchainExplorerData.h"
@@ -746,10 +747,18 @@ bool RpcServer::k_on_check_reserve_proof(const K_COMMAND_RPC_CHECK_RESERVE_PROOF
   // check spent status
   res.total = 0;
   res.spent = 0;
+  std::unordered_set<crypto::KeyImage> keyImages;
   for (size_t i = 0; i < proofs.size(); ++i)
   {
     const reserve_proof_entry &proof = proofs[i];
 
+    // an output counts only once
+    if (!keyImages.insert(proof.key_image).second)
+    {
+      res.good = false;
+      return true;
+    }
+
     cn::TransactionPrefix tx = *static_cast<const TransactionPrefix *>(&transactions[i]);
 
     if (proof.index_in_tx >= tx.outputs.size())
-- 
2.43.0


From 96a196858890a08dec8dc2db0b81558aaed5a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 33/40] fix: do not truncate the height asked for by
 getblockhash

---
 src/Rpc/RpcServer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Rpc/RpcServer.cpp b/src/Rpc/RpcServer.cpp
index 60e8fa1..57a5bb4 100644
--- a/src/Rpc/RpcServer.cpp
+++ b/src/Rpc/RpcServer.cpp
@@ -276,8 +276,12 @@ bool RpcServer::on_getblockhash(const COMMAND_RPC_GETBLOCKHASH::request &req, CO
     throw JsonRpc::JsonRpcError{CORE_RPC_ERROR_CODE_WRONG_PARAM, "Wrong parameters, expected height"};
   }
 
-  uint32_t h = req[0];
-  crypto::Hash blockId = m_core.getBlockIdByHeight(h);
+  uint64_t h = req[0];
+  crypto::Hash blockId = NULL_HASH;
+  if (h < m_core.get_current_blockchain_height())
+  {
+    blockId = m_core.getBlockIdByHeight(static_cast<uint32_t>(h));
+  }
   if (blockId == NULL_HASH)
   {
     throw JsonRpc::JsonRpcError{
-- 
2.43.0


From 853f00249ad01ae0b5c723209b77156120b002de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 34/40] fix: give the view keys of a converted wallet file an
 IV of their own

---
 src/Wallet/WalletGreen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index f33e7b5..5375ada 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -1104,6 +1104,7 @@ namespace cn
     prefix->nextIv = crypto::randomChachaIV();
     uint64_t creationTimestamp = time(nullptr);
     prefix->encryptedViewKeys = encryptKeyPair(m_viewPublicKey, m_viewSecretKey, creationTimestamp);
+    incNextIv();
     for (const auto &spendKeys : m_walletsContainer.get<RandomAccessIndex>())
     {
       m_containerStorage.push_back(encryptKeyPair(spendKeys.spendPublicKey, spendKeys.spendSecretKey, spendKeys.creationTimestamp));
-- 
2.43.0


From 04e099d755e080880986f3bcd275b3edfaab9738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 35/40] fix: take the locked and unlocked deposits of a deleted
 address out of the balances

---
 src/Wallet/WalletGreen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 5375ada..d0f25a5 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -1800,6 +1800,8 @@ namespace cn
 
     m_actualBalance -= it->actualBalance;
     m_pendingBalance -= it->pendingBalance;
+    m_lockedDepositBalance -= it->lockedDepositBalance;
+    m_unlockedDepositBalance -= it->unlockedDepositBalance;
 
     m_synchronizer.removeSubscription(pubAddr);
 
-- 
2.43.0


From 7be78ef9b6b3f0863e56ea152dd8bb23d594e72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 36/40] fix: encrypt every record of a reset wallet file with
 its own IV

---
 src/Wallet/WalletGreen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index d0f25a5..6c752a8 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -2525,6 +2525,7 @@ namespace cn
 
     /* Reencrypt with the new creation timestamp so we rescan from here when we relaunch */
     prefix->encryptedViewKeys = encryptKeyPair(m_viewPublicKey, m_viewSecretKey, newTimestamp);
+    incNextIv();
 
     /* As a reference so we can update it */
     for (auto &encryptedSpendKeys : m_containerStorage)
@@ -2538,6 +2539,7 @@ namespace cn
 
       /* Re-encrypt with the new timestamp */
       encryptedSpendKeys = encryptKeyPair(publicKey, secretKey, newTimestamp);
+      incNextIv();
     }
 
     /* Start again so we can save */
-- 
2.43.0


From 3bb8b4be6c271d7dc65e33004526aaf159f879a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 37/40] fix: limit the nesting of key-value storages

---
 .../KVBinaryInputStreamSerializer.cpp         | 43 ++++++++++++-------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/Serialization/KVBinaryInputStreamSerializer.cpp b/src/Serialization/KVBinaryInputStreamSerializer.cpp
index f39c903..c284a3e 100644
--- a/src/Serialization/KVBinaryInputStreamSerializer.cpp
+++ b/src/Serialization/KVBinaryInputStreamSerializer.cpp
@@ -95,26 +95,37 @@ void readName(common::IInputStream& s, std::string& name) {
   }
 }
 
-JsonValue loadValue(common::IInputStream& stream, uint8_t type);
-JsonValue loadSection(common::IInputStream& stream);
-JsonValue loadEntry(common::IInputStream& stream);
-JsonValue loadArray(common::IInputStream& stream, uint8_t itemType);
+// Deepest nesting of sections and arrays accepted, the input decides how deep the parser recurses
+const size_t MAX_NESTING_DEPTH = 100;
 
+JsonValue loadValue(common::IInputStream& stream, uint8_t type, size_t depth);
+JsonValue loadSection(common::IInputStream& stream, size_t depth);
+JsonValue loadEntry(common::IInputStream& stream, size_t depth);
+JsonValue loadArray(common::IInputStream& stream, uint8_t itemType, size_t depth);
+
+void checkDepth(size_t depth) {
+  if (depth > MAX_NESTING_DEPTH) {
+    throw std::runtime_error("Binary storage is nested too deeply");
+  }
+}
+
+
+JsonValue loadSection(common::IInputStream& stream, size_t depth) {
+  checkDepth(depth);
 
-JsonValue loadSection(common::IInputStream& stream) {
   JsonValue sec(JsonValue::OBJECT);
   size_t count = readVarint(stream);
   std::string name;
 
   while (count--) {
     readName(stream, name);
-    sec.insert(name, loadEntry(stream));
+    sec.insert(name, loadEntry(stream, depth + 1));
   }
 
   return sec;
 }
 
-JsonValue loadValue(common::IInputStream& stream, uint8_t type) {
+JsonValue loadValue(common::IInputStream& stream, uint8_t type, size_t depth) {
   switch (type) {
   case BIN_KV_SERIALIZE_TYPE_INT64:  return readIntegerJson<int64_t>(stream);
   case BIN_KV_SERIALIZE_TYPE_INT32:  return readIntegerJson<int32_t>(stream);
@@ -127,30 +138,32 @@ JsonValue loadValue(common::IInputStream& stream, uint8_t type) {
   case BIN_KV_SERIALIZE_TYPE_DOUBLE: return readPodJson<double>(stream);
   case BIN_KV_SERIALIZE_TYPE_BOOL:   return JsonValue(read<uint8_t>(stream) != 0);
   case BIN_KV_SERIALIZE_TYPE_STRING: return readStringJson(stream);
-  case BIN_KV_SERIALIZE_TYPE_OBJECT: return loadSection(stream);
-  case BIN_KV_SERIALIZE_TYPE_ARRAY:  return loadArray(stream, type);
+  case BIN_KV_SERIALIZE_TYPE_OBJECT: return loadSection(stream, depth);
+  case BIN_KV_SERIALIZE_TYPE_ARRAY:  return loadArray(stream, type, depth);
   default:
     throw std::runtime_error("Unknown data type");
   }
 }
 
-JsonValue loadEntry(common::IInputStream& stream) {
+JsonValue loadEntry(common::IInputStream& stream, size_t depth) {
   uint8_t type = readPod<uint8_t>(stream);
 
   if (type & BIN_KV_SERIALIZE_FLAG_ARRAY) {
     type &= ~BIN_KV_SERIALIZE_FLAG_ARRAY;
-    return loadArray(stream, type);
+    return loadArray(stream, type, depth);
   }
 
-  return loadValue(stream, type);
+  return loadValue(stream, type, depth);
 }
 
-JsonValue loadArray(common::IInputStream& stream, uint8_t itemType) {
+JsonValue loadArray(common::IInputStream& stream, uint8_t itemType, size_t depth) {
+  checkDepth(depth);
+
   JsonValue arr(JsonValue::ARRAY);
   size_t count = readVarint(stream);
 
   while (count--) {
-    arr.pushBack(loadValue(stream, itemType));
+    arr.pushBack(loadValue(stream, itemType, depth + 1));
   }
 
   return arr;
@@ -170,7 +183,7 @@ JsonValue parseBinary(common::IInputStream& stream) {
     throw std::runtime_error("Unknown binary storage format version");
   }
 
-  return loadSection(stream);
+  return loadSection(stream, 0);
 }
 
 }
-- 
2.43.0


From 0bcebd4734222823c552f3bbe115c9c33f0aad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 38/40] fix: limit the nesting of parsed JSON

---
 src/Common/JsonValue.cpp | 36 +++++++++++++++++++++++-------------
 src/Common/JsonValue.h   |  5 +++--
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/Common/JsonValue.cpp b/src/Common/JsonValue.cpp
index 8edc857..fb1a716 100644
--- a/src/Common/JsonValue.cpp
+++ b/src/Common/JsonValue.cpp
@@ -651,6 +651,9 @@ std::ostream& operator<<(std::ostream& out, const JsonValue& jsonValue) {
 
 namespace {
 
+// Deepest nesting of arrays and objects accepted, the input decides how deep the parser recurses
+const size_t MAX_NESTING_DEPTH = 100;
+
 char readChar(std::istream& in) {
   char c = static_cast<char>(in.get());
   if (!in) {
@@ -696,27 +699,34 @@ std::string readStringToken(std::istream& in) {
 
 
 std::istream& operator>>(std::istream& in, JsonValue& jsonValue) {
+  jsonValue.readValue(in, 0);
+  return in;
+}
+
+void JsonValue::readValue(std::istream& in, size_t depth) {
+  if (depth > MAX_NESTING_DEPTH) {
+    throw std::runtime_error("Unable to parse");
+  }
+
   char c = readNonWsChar(in);
 
   if (c == '[') {
-    jsonValue.readArray(in);
+    readArray(in, depth);
   } else if (c == 't') {
-    jsonValue.readTrue(in);
+    readTrue(in);
   } else if (c == 'f') {
-    jsonValue.readFalse(in);
+    readFalse(in);
   } else if ((c == '-') || (c >= '0' && c <= '9')) {
-    jsonValue.readNumber(in, c);
+    readNumber(in, c);
   } else if (c == 'n') {
-    jsonValue.readNull(in);
+    readNull(in);
   } else if (c == '{') {
-    jsonValue.readObject(in);
+    readObject(in, depth);
   } else if (c == '"') {
-    jsonValue.readString(in);
+    readString(in);
   } else {
     throw std::runtime_error("Unable to parse");
   }
-
-  return in;
 }
 
 void JsonValue::destructValue() {
@@ -735,7 +745,7 @@ void JsonValue::destructValue() {
   }
 }
 
-void JsonValue::readArray(std::istream& in) {
+void JsonValue::readArray(std::istream& in, size_t depth) {
   JsonValue::Array value;
   char c = readNonWsChar(in);
 
@@ -743,7 +753,7 @@ void JsonValue::readArray(std::istream& in) {
     in.putback(c);
     for (;;) {
       value.resize(value.size() + 1);
-      in >> value.back();
+      value.back().readValue(in, depth + 1);
       c = readNonWsChar(in);
 
       if (c == ']') {
@@ -882,7 +892,7 @@ void JsonValue::readNumber(std::istream& in, char c) {
   }
 }
 
-void JsonValue::readObject(std::istream& in) {
+void JsonValue::readObject(std::istream& in, size_t depth) {
   char c = readNonWsChar(in);
   JsonValue::Object value;
 
@@ -901,7 +911,7 @@ void JsonValue::readObject(std::istream& in) {
         throw std::runtime_error("Unable to parse");
       }
 
-      in >> value[name];
+      value[name].readValue(in, depth + 1);
       c = readNonWsChar(in);
 
       if (c == '}') {
diff --git a/src/Common/JsonValue.h b/src/Common/JsonValue.h
index 48b8ec8..deff46b 100644
--- a/src/Common/JsonValue.h
+++ b/src/Common/JsonValue.h
@@ -141,12 +141,13 @@ private:
 
   void destructValue();
 
-  void readArray(std::istream& in);
+  void readValue(std::istream& in, size_t depth);
+  void readArray(std::istream& in, size_t depth);
   void readTrue(std::istream& in);
   void readFalse(std::istream& in);
   void readNull(std::istream& in);
   void readNumber(std::istream& in, char c);
-  void readObject(std::istream& in);
+  void readObject(std::istream& in, size_t depth);
   void readString(std::istream& in);
 };
 
-- 
2.43.0


From bd8652b0d1738aa7db0f0a22e174d0094fae9b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 39/40] fix: do not allocate containers by the size announced
 in the input

---
 .../CryptoNoteSerialization.cpp               | 16 ++++++++++++----
 src/Serialization/SerializationOverloads.h    | 19 +++++++++++++++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/CryptoNoteCore/CryptoNoteSerialization.cpp b/src/CryptoNoteCore/CryptoNoteSerialization.cpp
index d54df16..51ef3fd 100644
--- a/src/CryptoNoteCore/CryptoNoteSerialization.cpp
+++ b/src/CryptoNoteCore/CryptoNoteSerialization.cpp
@@ -129,10 +129,18 @@ bool serializeVarintVector(std::vector<uint32_t>& vector, cn::ISerializer& seria
     return false;
   }
 
-  vector.resize(size);
-
-  for (size_t i = 0; i < size; ++i) {
-    serializer(vector[i], "");
+  if (serializer.type() == ISerializer::INPUT) {
+    // grow with the items which are there, the size is not trusted
+    vector.clear();
+    for (size_t i = 0; i < size; ++i) {
+      uint32_t item = 0;
+      serializer(item, "");
+      vector.push_back(item);
+    }
+  } else {
+    for (size_t i = 0; i < size; ++i) {
+      serializer(vector[i], "");
+    }
   }
 
   serializer.endArray();
diff --git a/src/Serialization/SerializationOverloads.h b/src/Serialization/SerializationOverloads.h
index 205de35..6f40bec 100644
--- a/src/Serialization/SerializationOverloads.h
+++ b/src/Serialization/SerializationOverloads.h
@@ -109,11 +109,22 @@ bool serializeContainer(Cont &value, common::StringView name, cn::ISerializer &s
     return false;
   }
 
-  value.resize(size);
-
-  for (auto &item : value)
+  if (serializer.type() == ISerializer::INPUT)
   {
-    serializer(const_cast<typename Cont::value_type &>(item), "");
+    // grow with the items which are there, the size is not trusted
+    value.clear();
+    for (size_t i = 0; i < size; ++i)
+    {
+      value.emplace_back();
+      serializer(value.back(), "");
+    }
+  }
+  else
+  {
+    for (auto &item : value)
+    {
+      serializer(const_cast<typename Cont::value_type &>(item), "");
+    }
   }
 
   serializer.endArray();
-- 
2.43.0


From a51b695f1d338beced419cb4cbbf83b0b40a7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 40/40] fix: refuse fixed-size JSON fields of another size

---
 src/Serialization/JsonInputValueSerializer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Serialization/JsonInputValueSerializer.cpp b/src/Serialization/JsonInputValueSerializer.cpp
index 5f552bd..dc59317 100644
--- a/src/Serialization/JsonInputValueSerializer.cpp
+++ b/src/Serialization/JsonInputValueSerializer.cpp
@@ -144,7 +144,10 @@ bool JsonInputValueSerializer::binary(void* value, size_t size, common::StringVi
     return false;
   }
 
-  common::fromHex(ptr->getString(), value, size);
+  if (common::fromHex(ptr->getString(), value, size) != size) {
+    throw std::runtime_error("Binary block size mismatch");
+  }
+
   return true;
 }
 
-- 
2.43.0

