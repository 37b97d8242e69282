From 07c2c2b6b35078c6da1276c2f69602189e0b6432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:14 +0000
Subject: [PATCH 01/29] fix: remove rolled back contracts from the list of
 their consensus group

A rollback deleted the contract meta but kept the entry of the contract in its
consensus group, and re-creating unconfirmed blocks from the redo log wrote that
entry under a key with gid and address swapped, which no reader looks at.
---
 ledger/chain/state/delete.go | 42 +++++++++++++++++++++++++++++++++++-
 ledger/chain/state/write.go  |  9 +++-----
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/ledger/chain/state/delete.go b/ledger/chain/state/delete.go
index 2445ad5..81f6723 100644
--- a/ledger/chain/state/delete.go
+++ b/ledger/chain/state/delete.go
@@ -95,6 +95,11 @@ func (sDB *StateDB) RollbackSnapshotBlocks(deletedSnapshotSegments []*ledger.Sna
 					hasBuiltInContract = true
 				}
 
+				// rollback the contracts of the consensus groups, the contract meta is still needed here
+				if err := sDB.rollbackGidContracts(batch, accountBlock); err != nil {
+					return err
+				}
+
 				// rollback code, contract meta, log hash, call depth
 				sDB.rollbackAccountBlock(batch, accountBlock)
 			}
@@ -268,7 +273,10 @@ func (sDB *StateDB) rollbackByRedo(batch *leveldb.Batch, snapshotBlock *ledger.S
 			}
 
 			// delete contract meta
-			for contractAddr := range redoLog.ContractMeta {
+			for contractAddr, metaBytes := range redoLog.ContractMeta {
+				if err := sDB.deleteGidContract(batch, contractAddr, metaBytes); err != nil {
+					return err
+				}
 				sDB.deleteContractMeta(batch, chain_utils.CreateContractMetaKey(contractAddr).Bytes())
 			}
 
@@ -427,6 +435,38 @@ func (sDB *StateDB) rollbackAccountBlock(batch *leveldb.Batch, accountBlock *led
 
 }
 
+// delete the entries, in their consensus groups, of the contracts which accountBlock creates
+func (sDB *StateDB) rollbackGidContracts(batch *leveldb.Batch, accountBlock *ledger.AccountBlock) error {
+	for _, block := range append([]*ledger.AccountBlock{accountBlock}, accountBlock.SendBlockList...) {
+		if block.BlockType != ledger.BlockTypeSendCreate {
+			continue
+		}
+
+		metaBytes, err := sDB.store.Get(chain_utils.CreateContractMetaKey(block.ToAddress).Bytes())
+		if err != nil {
+			return err
+		}
+		if err := sDB.deleteGidContract(batch, block.ToAddress, metaBytes); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func (sDB *StateDB) deleteGidContract(batch *leveldb.Batch, contractAddr types.Address, metaBytes []byte) error {
+	if len(metaBytes) <= 0 {
+		return nil
+	}
+
+	meta := &ledger.ContractMeta{}
+	if err := meta.Deserialize(metaBytes); err != nil {
+		return err
+	}
+
+	batch.Delete(chain_utils.CreateGidContractKey(meta.Gid, &contractAddr).Bytes())
+	return nil
+}
+
 func (sDB *StateDB) recoverToSnapshot(batch *leveldb.Batch, snapshotHeight uint64, unconfirmedLog map[types.Address][]LogItem, addrMap map[types.Address]struct{}) error {
 	keySetMap, tokenSetMap, err := parseRedoLog(unconfirmedLog)
 	if err != nil {
diff --git a/ledger/chain/state/write.go b/ledger/chain/state/write.go
index 036b0ad..b6d12b3 100644
--- a/ledger/chain/state/write.go
+++ b/ledger/chain/state/write.go
@@ -158,14 +158,11 @@ func (sDB *StateDB) WriteByRedo(blockHash types.Hash, addr types.Address, redoLo
 	for addr, metaBytes := range unsavedContractMeta {
 		contractKey := chain_utils.CreateContractMetaKey(addr)
 
-		gidContractKey := make([]byte, 0, 1+types.AddressSize+types.GidSize)
-		gidContractKey = append(gidContractKey, chain_utils.GidContractKeyPrefix)
-		gidContractKey = append(gidContractKey, addr.Bytes()...)
-		gidContractKey = append(gidContractKey, metaBytes[:types.GidSize]...)
-
 		sDB.writeContractMeta(batch, contractKey.Bytes(), metaBytes)
 
-		batch.Put(gidContractKey, nil)
+		if meta := new(ledger.ContractMeta); meta.Deserialize(metaBytes) == nil {
+			batch.Put(chain_utils.CreateGidContractKey(meta.Gid, &addr).Bytes(), nil)
+		}
 		// set
 	}
 
-- 
2.43.0


From 0c906a18519f0e8c2e7815f9666da619a589e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:08 +0000
Subject: [PATCH 02/29] fix: apply the redo logs of a round in ascending order
 when the round cache is built

The chain returns the snapshot headers of a round from high to low, so after a
restart an account changed twice in one round had its older balance and votes in
the consensus cache.
---
 ledger/chain/state/round_cache.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/state/round_cache.go b/ledger/chain/state/round_cache.go
index 0442517..6344fbb 100644
--- a/ledger/chain/state/round_cache.go
+++ b/ledger/chain/state/round_cache.go
@@ -3,6 +3,7 @@ package chain_state
 import (
 	"fmt"
 	"math/big"
+	"sort"
 	"sync"
 
 	leveldb "github.com/vitelabs/go-vite/v2/common/db/xleveldb"
@@ -649,7 +650,12 @@ func (cache *RoundCache) queryRedoLogs(roundIndex uint64) (returnRedoLogs *Round
 
 	roundRedoLogs := NewRoundCacheRedoLogs()
 
-	// assume snapshot blocks is sorted by height asc, query redoLog by snapshot block height
+	// the chain returns the snapshot blocks from high to low, the redo logs must be applied by height asc
+	sort.Slice(snapshotBlocks, func(i, j int) bool {
+		return snapshotBlocks[i].Height < snapshotBlocks[j].Height
+	})
+
+	// query redoLog by snapshot block height
 	for _, snapshotBlock := range snapshotBlocks {
 		redoLog, hasRedoLog, err := cache.stateDB.Redo().QueryLog(snapshotBlock.Height)
 		if err != nil {
-- 
2.43.0


From 2d73d9744aa6185b2e8fd30bb69161b532d0dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:11 +0000
Subject: [PATCH 03/29] fix: reopen a database whose creation was interrupted
 by a crash

A process killed between creating the first manifest and installing CURRENT left
files that made every later open fail as corrupted, though no data existed yet.
---
 common/db/xleveldb/session.go              | 4 +++-
 common/db/xleveldb/storage/file_storage.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/db/xleveldb/session.go b/common/db/xleveldb/session.go
index 88a1c01..4d59855 100644
--- a/common/db/xleveldb/session.go
+++ b/common/db/xleveldb/session.go
@@ -110,7 +110,9 @@ func (s *session) recover() (err error) {
 		if os.IsNotExist(err) {
 			// Don't return os.ErrNotExist if the underlying storage contains
 			// other files that belong to LevelDB. So the DB won't get trashed.
-			if fds, _ := s.stor.List(storage.TypeAll); len(fds) > 0 {
+			// A manifest alone holds no data, it is left by a crash while the
+			// DB was created.
+			if fds, _ := s.stor.List(storage.TypeAll &^ storage.TypeManifest); len(fds) > 0 {
 				err = &errors.ErrCorrupted{Fd: storage.FileDesc{Type: storage.TypeManifest}, Err: &errors.ErrMissingFiles{}}
 			}
 		}
diff --git a/common/db/xleveldb/storage/file_storage.go b/common/db/xleveldb/storage/file_storage.go
index 62ef1c6..6abf1ac 100644
--- a/common/db/xleveldb/storage/file_storage.go
+++ b/common/db/xleveldb/storage/file_storage.go
@@ -315,7 +315,9 @@ func (fs *fileStorage) GetMeta() (fd FileDesc, err error) {
 				if pend1 {
 					rem = append(rem, name)
 				}
-				if !pend1 || cerr == nil {
+				// An incomplete pending file is left by a crash in SetMeta, it
+				// is not an error on its own.
+				if !pend1 {
 					metaFd, _ := fsParseName(name)
 					cerr = &ErrCorrupted{
 						Fd:  metaFd,
-- 
2.43.0


From 69cc763d0474cff604e43e61acfeba050cc49eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:08 +0000
Subject: [PATCH 04/29] fix: switch forks whose common block is the genesis
 block

snapshotRollback asked the chain to delete down to the genesis block itself,
which the chain refuses, so two nodes whose chains diverge right after the
genesis block never agreed.
---
 ledger/pool/pool_fork_checker.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ledger/pool/pool_fork_checker.go b/ledger/pool/pool_fork_checker.go
index 28ea7c5..483ad34 100644
--- a/ledger/pool/pool_fork_checker.go
+++ b/ledger/pool/pool_fork_checker.go
@@ -123,7 +123,15 @@ func (pl *pool) findForkKeyPoint(longest tree.Branch) (*snapshotPoolBlock, error
 func (pl *pool) snapshotRollback(longest tree.Branch, keyPoint *snapshotPoolBlock) error {
 	pl.log.Info("rollback snapshot chain", "height", keyPoint.Height(), "hash", keyPoint.Hash())
 
-	snapshots, accounts, e := pl.pendingSc.rw.delToHeight(keyPoint.block.Height)
+	toHeight := keyPoint.block.Height
+	if toHeight <= types.GenesisHeight {
+		// the genesis block is never rolled back: remove everything above it
+		toHeight = types.GenesisHeight + 1
+		if pl.bc.GetLatestSnapshotBlock().Height < toHeight {
+			return nil
+		}
+	}
+	snapshots, accounts, e := pl.pendingSc.rw.delToHeight(toHeight)
 	if e != nil {
 		return e
 	}
-- 
2.43.0


From da30e6a01ea1901bb3e17ff567f2782b576472a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:08 +0000
Subject: [PATCH 05/29] fix: receive the transaction that creates a contract
 before any other

A call that a producer picked first became the first block of the contract;
the creation then failed with an address collision, was dropped from the
unreceived transactions, and its amount was lost.
---
 ledger/onroad/taskprocessor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ledger/onroad/taskprocessor.go b/ledger/onroad/taskprocessor.go
index 30f1969..9bc212f 100644
--- a/ledger/onroad/taskprocessor.go
+++ b/ledger/onroad/taskprocessor.go
@@ -6,6 +6,7 @@ import (
 	"time"
 
 	"github.com/vitelabs/go-vite/v2/common/types"
+	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
 	"github.com/vitelabs/go-vite/v2/ledger/generator"
 	"github.com/vitelabs/go-vite/v2/log15"
 	"github.com/vitelabs/go-vite/v2/vm/quota"
@@ -92,6 +93,14 @@ func (tp *ContractTaskProcessor) processOneAddress(task *contractTask) (canConti
 		return true
 	}
 
+	// the first block of a contract has to receive the transaction that creates it: once another one is there,
+	// the creation fails, and the amount sent with it is lost
+	if addrState.LatestAccountHeight == 0 && sBlock.BlockType != ledger.BlockTypeSendCreate && !types.IsBuiltinContractAddr(task.Addr) {
+		blog.Info("the contract has not been created")
+		tp.worker.restrictContractCaller(task.Addr, sBlock.AccountAddress, RETRY)
+		return true
+	}
+
 	if err := tp.worker.verifyConfirmedTimes(&task.Addr, &sBlock.Hash, addrState.LatestSnapshotHeight); err != nil {
 		blog.Info(fmt.Sprintf("verifyConfirmedTimes failed, err:%v", err))
 		tp.worker.restrictContractCaller(task.Addr, sBlock.AccountAddress, RETRY)
-- 
2.43.0


From c2af818e0551b0cb5d93c5c34ce613ac5fb5f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:32 +0000
Subject: [PATCH 06/29] fix: join pending blocks only when their heights follow
 each other

A block that names its predecessor's hash but not its height was joined to the
predecessor anyway; the gap in the heights then crashed the pool, so any peer
could stop a node with one block.
---
 ledger/pool/bc_pool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ledger/pool/bc_pool.go b/ledger/pool/bc_pool.go
index cc10122..196ab9c 100644
--- a/ledger/pool/bc_pool.go
+++ b/ledger/pool/bc_pool.go
@@ -361,7 +361,7 @@ func (bcp *BCPool) loopGenSnippetChains(readyFilter bool) int {
 		for {
 			tail := chain.tailHash
 			oc, ok := headMap[tail]
-			if ok && chain.id() != oc.id() {
+			if ok && chain.id() != oc.id() && chain.tailHeight == oc.headHeight {
 				delete(headMap, tail)
 				chain.merge(oc)
 			} else {
@@ -645,7 +645,7 @@ func splitToMap(chains []*snippetChain) map[types.Hash]*snippetChain {
 
 func tryInsert(chains []*snippetChain, pool commonBlock) bool {
 	for _, c := range chains {
-		if c.tailHash == pool.Hash() {
+		if c.tailHash == pool.Hash() && c.tailHeight == pool.Height() {
 			c.addTail(pool)
 			return true
 		}
-- 
2.43.0


From 52b39750b88b7b254608c3c83b216f472747856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:27 +0000
Subject: [PATCH 07/29] fix: do not panic when a failed fork cannot be undone
 because its blocks became irreversible

An invalid block at the end of the longest branch made the switch fail after its
valid blocks had been inserted and become irreversible; switching back was then
refused, and the node panicked. Any peer could bring this about.
---
 ledger/pool/pool_fork_checker.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ledger/pool/pool_fork_checker.go b/ledger/pool/pool_fork_checker.go
index 483ad34..b45b897 100644
--- a/ledger/pool/pool_fork_checker.go
+++ b/ledger/pool/pool_fork_checker.go
@@ -37,6 +37,11 @@ func (pl *pool) checkFork() {
 	if err != nil {
 		pl.log.Error(fmt.Sprintf("fork snapshot fail. targetId:%s, targetHeight:%d, switch to current[%s].", longest.ID(), longestH, current.ID()), "err", err)
 		err = pl.snapshotFork(current, curTailHeight)
+		if errors.Cause(err) == errIrreversible {
+			// the blocks of the target that could be inserted are irreversible now: go on from there
+			pl.log.Error("can't switch back", "current", current.ID(), "err", err)
+			return
+		}
 		if err != nil {
 			panic(err)
 		}
@@ -172,6 +177,8 @@ func (irreversible irreversibleInfo) String() string {
 	return result
 }
 
+var errIrreversible = errors.New("check Irreversible Principle Fail")
+
 func (pl *pool) checkIrreversiblePrinciple(keyPoint *snapshotPoolBlock) error {
 	info := pl.pendingSc.irreversible
 	if info == nil {
@@ -194,7 +201,7 @@ func (pl *pool) checkIrreversiblePrinciple(keyPoint *snapshotPoolBlock) error {
 	if info.point.Height < keyPoint.Height() {
 		return nil
 	}
-	return errors.Errorf("check Irreversible Principle Fail, %s, keyPoint:%d", info.String(), keyPoint.Height())
+	return errors.Wrapf(errIrreversible, "%s, keyPoint:%d", info.String(), keyPoint.Height())
 }
 
 func (pl *pool) updateIrreversibleBlock() error {
-- 
2.43.0


From 3652140990feab3d738d0c42ae9d2b55bd455d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:39 +0000
Subject: [PATCH 08/29] fix: do not fork an account to a block its current
 chain already contains

---
 ledger/pool/pool.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ledger/pool/pool.go b/ledger/pool/pool.go
index e7502be..79dcc2e 100644
--- a/ledger/pool/pool.go
+++ b/ledger/pool/pool.go
@@ -440,6 +440,10 @@ func (pl *pool) ForkAccountTo(addr types.Address, h *ledger.HashHeight) error {
 		return nil
 	}
 	cu := this.CurrentChain()
+	// the block may also be on another branch that has not been pruned yet
+	if cu.ContainsKnot(h.Height, h.Hash, true) {
+		return nil
+	}
 	curTailHeight, _ := cu.TailHH()
 	keyPoint, _, err := this.chainpool.tree.FindForkPointFromMain(targetChain)
 	if err != nil {
-- 
2.43.0


From 59f1c29ddfe53670f799da1fd9eee088df53e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:57 +0000
Subject: [PATCH 09/29] fix: forget the quota window when a rollback empties it

---
 ledger/chain/cache/quota_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ledger/chain/cache/quota_list.go b/ledger/chain/cache/quota_list.go
index 5625588..c2e8ed4 100644
--- a/ledger/chain/cache/quota_list.go
+++ b/ledger/chain/cache/quota_list.go
@@ -223,6 +223,9 @@ func (ql *quotaList) build() (returnError error) {
 			return
 		}
 		if ql.list.Len() <= 0 {
+			// nothing is used; usedStart may still be an element that was removed
+			ql.usedStart = nil
+			ql.globalUsed = types.QuotaInfo{}
 			return
 		}
 		ql.backElement = ql.list.Back().Value.(map[types.Address]*quotaInfo)
-- 
2.43.0


From 5ff6a2f69a1ed0257b159316720376a68afa7ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:40 +0000
Subject: [PATCH 10/29] fix: do not count the oldest snapshot of the quota
 window twice after a rollback

---
 ledger/chain/cache/quota_list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ledger/chain/cache/quota_list.go b/ledger/chain/cache/quota_list.go
index c2e8ed4..df59cf9 100644
--- a/ledger/chain/cache/quota_list.go
+++ b/ledger/chain/cache/quota_list.go
@@ -254,6 +254,10 @@ func (ql *quotaList) build() (returnError error) {
 	}
 
 	endSbHeight := latestSbHeight + 1 - uint64(listLength)
+	if listLength > 0 {
+		// the list begins with the snapshot block above the last one that is missing
+		endSbHeight--
+	}
 	startSbHeight := uint64(1)
 
 	lackListLen := uint64(ql.listMaxLength - listLength)
-- 
2.43.0


From 7a7bcd84d11536bdc2531206ed388979cd9dc0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:01 +0000
Subject: [PATCH 11/29] fix: switch forks whose common block is the
 irreversible block

The fork point is common to both chains, but it was rolled back with the blocks
above it, so a longer chain that leaves the current one right after the
irreversible block was refused for ever and the nodes never agreed.
---
 ledger/pool/pool_fork_checker.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ledger/pool/pool_fork_checker.go b/ledger/pool/pool_fork_checker.go
index b45b897..74e369f 100644
--- a/ledger/pool/pool_fork_checker.go
+++ b/ledger/pool/pool_fork_checker.go
@@ -129,9 +129,9 @@ func (pl *pool) snapshotRollback(longest tree.Branch, keyPoint *snapshotPoolBloc
 	pl.log.Info("rollback snapshot chain", "height", keyPoint.Height(), "hash", keyPoint.Hash())
 
 	toHeight := keyPoint.block.Height
-	if toHeight <= types.GenesisHeight {
-		// the genesis block is never rolled back: remove everything above it
-		toHeight = types.GenesisHeight + 1
+	if toHeight <= types.GenesisHeight || pl.isIrreversiblePoint(keyPoint) {
+		// neither the genesis block nor an irreversible block is rolled back: remove everything above it
+		toHeight = toHeight + 1
 		if pl.bc.GetLatestSnapshotBlock().Height < toHeight {
 			return nil
 		}
@@ -198,12 +198,18 @@ func (pl *pool) checkIrreversiblePrinciple(keyPoint *snapshotPoolBlock) error {
 		return nil
 	}
 
-	if info.point.Height < keyPoint.Height() {
+	// the key point belongs to both chains, it may be the irreversible block itself
+	if info.point.Height <= keyPoint.Height() {
 		return nil
 	}
 	return errors.Wrapf(errIrreversible, "%s, keyPoint:%d", info.String(), keyPoint.Height())
 }
 
+func (pl *pool) isIrreversiblePoint(keyPoint *snapshotPoolBlock) bool {
+	info := pl.pendingSc.irreversible
+	return info != nil && info.point != nil && info.point.Hash == keyPoint.Hash()
+}
+
 func (pl *pool) updateIrreversibleBlock() error {
 	nodeCnt := pl.sbpStatReader.GetNodeCount()
 	if nodeCnt < 3 {
-- 
2.43.0


From dee3672d15ae9e3c1efa69a118af8400f3b2c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:45 +0000
Subject: [PATCH 12/29] fix: keep a caller's transactions to one contract on
 the road when those to another are received

---
 ledger/onroad/pool/storage.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ledger/onroad/pool/storage.go b/ledger/onroad/pool/storage.go
index 553b189..abbf452 100644
--- a/ledger/onroad/pool/storage.go
+++ b/ledger/onroad/pool/storage.go
@@ -40,7 +40,12 @@ type onroadStorage struct {
 	db *leveldb.DB
 
 	mu      sync.RWMutex
-	callers sync.Map
+	callers sync.Map // map[callerKey]
+}
+
+type callerKey struct {
+	toAddr   types.Address
+	fromAddr types.Address
 }
 
 func newOnroadStorage(db *leveldb.DB) *onroadStorage {
@@ -50,12 +55,12 @@ func newOnroadStorage(db *leveldb.DB) *onroadStorage {
 	}
 }
 
-func (storage *onroadStorage) addCaller(caller types.Address) error {
-	storage.callers.Store(caller, 0)
+func (storage *onroadStorage) addCaller(toAddr, caller types.Address) error {
+	storage.callers.Store(callerKey{toAddr, caller}, 0)
 	return nil
 }
-func (storage *onroadStorage) removeCaller(caller types.Address) {
-	storage.callers.Delete(caller)
+func (storage *onroadStorage) removeCaller(toAddr, caller types.Address) {
+	storage.callers.Delete(callerKey{toAddr, caller})
 }
 
 func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
@@ -64,7 +69,7 @@ func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
 
 	// fmt.Println("add on road tx", tx.String())
 
-	storage.addCaller(tx.FromAddr)
+	storage.addCaller(tx.ToAddr, tx.FromAddr)
 	// batch.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue())
 	return storage.db.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue(), nil)
 }
@@ -85,7 +90,7 @@ func (storage *onroadStorage) deleteOnRoadTx(tx OnroadTx) error {
 		return err
 	}
 	if len(txs) == 0 {
-		storage.removeCaller(tx.FromAddr)
+		storage.removeCaller(tx.ToAddr, tx.FromAddr)
 	}
 	return nil
 }
@@ -112,7 +117,11 @@ func (storage *onroadStorage) GetAllFirstOnroadTx(addr types.Address) (map[types
 	var resultErr error
 
 	storage.callers.Range(func(key interface{}, val interface{}) bool {
-		caller := key.(types.Address)
+		ck := key.(callerKey)
+		if ck.toAddr != addr {
+			return true
+		}
+		caller := ck.fromAddr
 		txs, err := storage.getFirstOnroadTx(addr, caller)
 		if err != nil {
 			resultErr = err
-- 
2.43.0


From 43ed5d3b861fe37dbfb9dafc0d3484526955ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:27 +0000
Subject: [PATCH 13/29] fix: leave a contract creation on the road when a
 rollback makes it fail

---
 ledger/onroad/access.go        | 4 ----
 ledger/onroad/taskprocessor.go | 9 +++++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/ledger/onroad/access.go b/ledger/onroad/access.go
index 6e6f3dd..96af3cc 100644
--- a/ledger/onroad/access.go
+++ b/ledger/onroad/access.go
@@ -46,10 +46,6 @@ func (manager *Manager) IsFrontOnRoadOfCaller(gid types.Gid, orAddr, caller type
 	return onRoadPool.(onroad_pool.OnRoadPool).IsFrontOnRoadOfCaller(orAddr, caller, hash)
 }
 
-func (manager *Manager) deleteDirect(sendBlock *ledger.AccountBlock) {
-	manager.chain.DeleteOnRoad(sendBlock.ToAddress, sendBlock.Hash)
-}
-
 func (manager *Manager) insertBlockToPool(block *interfaces.VmAccountBlock) error {
 	return manager.pool.AddDirectAccountBlock(block.AccountBlock.AccountAddress, block)
 }
diff --git a/ledger/onroad/taskprocessor.go b/ledger/onroad/taskprocessor.go
index 9bc212f..9886f45 100644
--- a/ledger/onroad/taskprocessor.go
+++ b/ledger/onroad/taskprocessor.go
@@ -171,10 +171,11 @@ func (tp *ContractTaskProcessor) processOneAddress(task *contractTask) (canConti
 				return false
 			}
 		} else {
-			// no vmBlock no vmRetry in condition that fail to create contract
-			blog.Info(fmt.Sprintf("manager.DeleteDirect, contract %v hash %v", task.Addr, sBlock.Hash))
-			tp.worker.manager.deleteDirect(sBlock)
-			tp.restrictContract(task.Addr, OUT)
+			// no vmBlock no vmRetry in condition that fail to create contract. That can be the case because the
+			// chain is being rolled back, so the send has to stay on the road: without it the node would refuse
+			// the block that receives it.
+			blog.Info(fmt.Sprintf("fail to create contract %v hash %v", task.Addr, sBlock.Hash))
+			tp.restrictContract(task.Addr, RETRY)
 			return false
 		}
 	}
-- 
2.43.0


From c9a505046ef34d51e3212cc2238a2b17cf776984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:57 +0000
Subject: [PATCH 14/29] fix: do not keep the statistics of a period read while
 its blocks are rolled back

The blocks of a period can be missing or incomplete when they are read
during a rollback. The empty (or merged) point was cached under the hash of
the proof block, so after the block came back the node kept counting no
blocks for the period and elected other producers than its peers.
---
 ledger/consensus/consensus_point_array.go | 25 ++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/ledger/consensus/consensus_point_array.go b/ledger/consensus/consensus_point_array.go
index 1f97d9f..af1bb1e 100644
--- a/ledger/consensus/consensus_point_array.go
+++ b/ledger/consensus/consensus_point_array.go
@@ -275,9 +275,10 @@ func (period *periodLinkedArray) getByIndexWithProofFromChain(index uint64, proo
 		period.log.Debug(fmt.Sprintf("[A]index:%d, height:%d, producer:%s, hash:%s", index, v.Height, v.Producer(), v.Hash))
 	}
 
-	// actually no block
-	if len(blocks) == 0 {
-		return cdb.NewEmptyPoint(proofHash), nil
+	// the proof block belongs to the period, so its blocks can only be missing or incomplete
+	// because the chain is being rolled back: such a point must not be kept.
+	if err := checkBlocks(block, stime, etime, blocks); err != nil {
+		return nil, errors.Wrapf(err, "period index[%d] proof[%s]", index, proofHash)
 	}
 
 	result, err := period.snapshot.ElectionIndex(index)
@@ -291,6 +292,24 @@ func (period *periodLinkedArray) getByIndexWithProofFromChain(index uint64, proo
 	return period.genPeriodPoint(index, &stime, &etime, proofHash, blocks, result)
 }
 
+// checkBlocks makes sure that blocks are the blocks of the period that end with the proof block
+func checkBlocks(proof *ledger.SnapshotBlock, stime time.Time, etime time.Time, blocks []*ledger.SnapshotBlock) error {
+	if !proof.Timestamp.Before(etime) {
+		return errors.Errorf("proof time[%s] is after the period", proof.Timestamp)
+	}
+	if len(blocks) == 0 {
+		return errors.New("no blocks")
+	}
+	hash := proof.Hash
+	for _, v := range blocks {
+		if v.Hash != hash || v.Timestamp.Before(stime) {
+			return errors.Errorf("unexpected block[%d][%s]", v.Height, v.Hash)
+		}
+		hash = v.PrevHash
+	}
+	return nil
+}
+
 func (period *periodLinkedArray) genPeriodPoint(index uint64, stime *time.Time, etime *time.Time, proofHash types.Hash, blocks []*ledger.SnapshotBlock, result *electionResult) (*cdb.Point, error) {
 	if proofHash != blocks[0].Hash {
 		return nil, errors.Errorf("gen period point fail[%s][%s]", proofHash, blocks[0].Hash)
-- 
2.43.0


From e1c9b10ada0f223503d4b5d83097e2c83bec16dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:05 +0000
Subject: [PATCH 15/29] fix: keep rolled back blocks of accounts whose pool did
 not exist yet, so that a failed fork can be undone

---
 ledger/pool/bc_pool.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ledger/pool/bc_pool.go b/ledger/pool/bc_pool.go
index 196ab9c..0e0a453 100644
--- a/ledger/pool/bc_pool.go
+++ b/ledger/pool/bc_pool.go
@@ -183,6 +183,15 @@ func (bcp *BCPool) rollbackCurrent(blocks []commonBlock) error {
 
 	if cur.Linked(disk) {
 		bcp.log.Info("poolChain and db is connected.", "headHeight", headHeight, "headHash", headHash)
+		// this pool was created after the blocks had been deleted: keep them as any other pool does
+		if cur.Size() == 0 && headHeight+1 == blocks[0].Height() && headHash == blocks[0].PrevHash() {
+			main := bcp.chainpool.tree.Main()
+			for _, b := range blocks {
+				if err := bcp.chainpool.tree.AddHead(main, b); err != nil {
+					return err
+				}
+			}
+		}
 		return nil
 	}
 
-- 
2.43.0


From 81bb84260eeae7fd50cea9627e8c082b497f956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:05 +0000
Subject: [PATCH 16/29] fix: sync a new manifest before making it the current
 one

---
 common/db/xleveldb/session_util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/db/xleveldb/session_util.go b/common/db/xleveldb/session_util.go
index 48bcfd0..421117f 100644
--- a/common/db/xleveldb/session_util.go
+++ b/common/db/xleveldb/session_util.go
@@ -241,6 +241,12 @@ func (s *session) newManifest(rec *sessionRecord, v *version) (err error) {
 	if err != nil {
 		return
 	}
+	if !s.o.GetNoSync() {
+		err = writer.Sync()
+		if err != nil {
+			return
+		}
+	}
 	err = s.stor.SetMeta(fd)
 	return
 }
-- 
2.43.0


From 9308eb66d6826760ef2db9265a95cd180f7f024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:05 +0000
Subject: [PATCH 17/29] fix: flush a frozen memdb before a large batch bypasses
 the journal

---
 common/db/xleveldb/db_transaction.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/db/xleveldb/db_transaction.go b/common/db/xleveldb/db_transaction.go
index a4b2bb2..aa3076e 100644
--- a/common/db/xleveldb/db_transaction.go
+++ b/common/db/xleveldb/db_transaction.go
@@ -307,6 +307,10 @@ func (db *DB) OpenTransaction() (*Transaction, error) {
 		if _, err := db.rotateMem(0, true); err != nil {
 			return nil, err
 		}
+	} else if err := db.compTriggerWait(db.mcompCmdC); err != nil {
+		// The frozen memdb must be flushed too: the transaction's sequence number
+		// would make its journal look corrupted on recovery.
+		return nil, err
 	}
 
 	// Wait compaction when certain threshold reached.
-- 
2.43.0


From 901ed282d443d28aa5f12d1ee56eb915dd640a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:05 +0000
Subject: [PATCH 18/29] fix: never reuse the sequence numbers of a write whose
 journal sync failed

---
 common/db/xleveldb/db_write.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/db/xleveldb/db_write.go b/common/db/xleveldb/db_write.go
index d2a1214..c345511 100644
--- a/common/db/xleveldb/db_write.go
+++ b/common/db/xleveldb/db_write.go
@@ -229,6 +229,9 @@ func (db *DB) writeLocked(batch, ourBatch *Batch, merge, sync bool) error {
 
 	// Write journal.
 	if err := db.writeJournal(batches, seq, sync); err != nil {
+		// The batches may be in the journal nevertheless: never reuse their
+		// sequence numbers, or recovery would take the later write for a corrupted one.
+		db.addSeq(uint64(batchesLen(batches)))
 		db.unlockWrite(overflow, merged, err)
 		return err
 	}
-- 
2.43.0


From bb28e0161c99d150f1b7fdf7189614261faba92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:26 +0000
Subject: [PATCH 19/29] fix: net: do not let Peer.Close wait forever for a
 readLoop whose handleLoop has stopped

---
 net/peer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/net/peer.go b/net/peer.go
index 15b3522..7561621 100644
--- a/net/peer.go
+++ b/net/peer.go
@@ -377,6 +377,12 @@ func (p *Peer) Close(err error) (err2 error) {
 			err2 = err3
 		}
 
+		// handleLoop may have stopped on an error, drain the queue so that readLoop can not block on it
+		go func() {
+			for range p.readQueue {
+			}
+		}()
+
 		p.wg.Wait()
 	}
 
-- 
2.43.0


From 17ed52afc04e90a302c72dd0fd9677142d4e164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:54 +0000
Subject: [PATCH 20/29] fix: let the CALL2 instruction expand memory like CALL

Without memorySize its arguments were read from memory that may not be there:
it panicked, sent no data, or allocated whatever size the contract asked for,
which kills the process.
---
 vm/jump_table.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm/jump_table.go b/vm/jump_table.go
index 4ea8494..81ab8eb 100644
--- a/vm/jump_table.go
+++ b/vm/jump_table.go
@@ -44,6 +44,7 @@ func newEarthInstructionSet() [256]operation {
 		execute:       opCall2,
 		gasCost:       gasCall2,
 		validateStack: makeStackFunc(5, 1),
+		memorySize:    memoryCall,
 		valid:         true,
 	}
 	return instructionSet
@@ -54,6 +55,7 @@ func newEarthOffchainInstructionSet() [256]operation {
 		execute:       opOffchainCall2,
 		gasCost:       gasCall2,
 		validateStack: makeStackFunc(5, 1),
+		memorySize:    memoryCall,
 		valid:         true,
 	}
 	return instructionSet
-- 
2.43.0


From 6eb02b980983cbc969d1c3250aa990ca61d02939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:54 +0000
Subject: [PATCH 21/29] fix: do not read memory beyond its end when computing
 the quota of a call

The quota of CALL is computed before memory is expanded: arguments that reach
beyond its end made the virtual machine panic, or allocate what it cannot
have.
---
 vm/gas_table.go | 3 +++
 vm/memory.go    | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/vm/gas_table.go b/vm/gas_table.go
index bceddd5..ea5f6d7 100644
--- a/vm/gas_table.go
+++ b/vm/gas_table.go
@@ -440,6 +440,9 @@ func gasCall(vm *VM, c *contract, stack *stack, mem *memory, memorySize uint64)
 	if err != nil {
 		return 0, true, err
 	}
+	if gas > c.quotaLeft {
+		return 0, true, util.ErrOutOfQuota
+	}
 	toAddrBig, tokenIDBig, amount, inOffset, inSize := stack.back(0), stack.back(1), stack.back(2), stack.back(3), stack.back(4)
 	toAddress, _ := types.BigToAddress(toAddrBig)
 	tokenID, _ := types.BigToTokenTypeId(tokenIDBig)
diff --git a/vm/memory.go b/vm/memory.go
index 2f79437..3db2096 100644
--- a/vm/memory.go
+++ b/vm/memory.go
@@ -38,7 +38,7 @@ func (m *memory) get(offset, size int64) (cpy []byte) {
 
 	if len(m.store) > int(offset) {
 		cpy = make([]byte, size)
-		copy(cpy, m.store[offset:offset+size])
+		copy(cpy, m.store[offset:])
 
 		return cpy
 	}
-- 
2.43.0


From aca468a277bd2e98dc9013f06ed0e287c2fd4203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:16 +0000
Subject: [PATCH 22/29] fix: report chain events to subscribers in the order
 they happened

Insertions and removals of blocks went through four channels, and the event
loop picked one at random: a subscriber could be told that a block was
removed before it was told that the block exists.
---
 rpcapi/api/filters/chain_subscribe.go | 10 ++++----
 rpcapi/api/filters/event_system.go    | 37 +++++++++++----------------
 2 files changed, 20 insertions(+), 27 deletions(-)

diff --git a/rpcapi/api/filters/chain_subscribe.go b/rpcapi/api/filters/chain_subscribe.go
index 92a744e..95ad616 100644
--- a/rpcapi/api/filters/chain_subscribe.go
+++ b/rpcapi/api/filters/chain_subscribe.go
@@ -73,7 +73,7 @@ func (c *ChainSubscribe) InsertAccountBlocks(blocks []*interfaces.VmAccountBlock
 	for i, b := range blocks {
 		acEvents[i] = NewAccountChainEvent(b.AccountBlock, b.VmDb.GetLogList())
 	}
-	c.es.acCh <- acEvents
+	c.es.chainCh <- chainEvent{ac: acEvents}
 	return nil
 }
 
@@ -85,7 +85,7 @@ func (c *ChainSubscribe) InsertSnapshotBlocks(chunks []*ledger.SnapshotChunk) er
 	for _, chunk := range chunks {
 		sbEvents = append(sbEvents, &SnapshotChainEvent{chunk.SnapshotBlock.Hash, chunk.SnapshotBlock.Height})
 	}
-	c.es.sbCh <- sbEvents
+	c.es.chainCh <- chainEvent{sb: sbEvents}
 	return nil
 }
 func (c *ChainSubscribe) PrepareDeleteAccountBlocks(blocks []*ledger.AccountBlock) error {
@@ -107,7 +107,7 @@ func (c *ChainSubscribe) PrepareDeleteAccountBlocks(blocks []*ledger.AccountBloc
 func (c *ChainSubscribe) DeleteAccountBlocks(blocks []*ledger.AccountBlock) error {
 	deletedBlocks := c.preDeleteAccountBlocks
 	c.preDeleteAccountBlocks = nil
-	c.es.acDelCh <- deletedBlocks
+	c.es.chainCh <- chainEvent{ac: deletedBlocks, removed: true}
 	return nil
 }
 func (c *ChainSubscribe) PrepareDeleteSnapshotBlocks(chunks []*ledger.SnapshotChunk) error {
@@ -135,12 +135,12 @@ func (c *ChainSubscribe) DeleteSnapshotBlocks(chunks []*ledger.SnapshotChunk) er
 			sbEvents = append(sbEvents, &SnapshotChainEvent{b.SnapshotBlock.Hash, b.SnapshotBlock.Height})
 		}
 	}
-	c.es.sbDelCh <- sbEvents
+	c.es.chainCh <- chainEvent{sb: sbEvents, removed: true}
 
 	if len(c.preDeleteAccountBlocks) > 0 {
 		deletedBlocks := c.preDeleteAccountBlocks
 		c.preDeleteAccountBlocks = nil
-		c.es.acDelCh <- deletedBlocks
+		c.es.chainCh <- chainEvent{ac: deletedBlocks, removed: true}
 	}
 	return nil
 }
diff --git a/rpcapi/api/filters/event_system.go b/rpcapi/api/filters/event_system.go
index 17b5b67..21d8570 100644
--- a/rpcapi/api/filters/event_system.go
+++ b/rpcapi/api/filters/event_system.go
@@ -46,21 +46,22 @@ type subscription struct {
 type EventSystem struct {
 	vite      *vite.Vite
 	chain     *ChainSubscribe
-	install   chan *subscription        // install filter
-	uninstall chan *subscription        // remove filter
-	acCh      chan []*AccountChainEvent // Channel to receive new account chain event
-	acDelCh   chan []*AccountChainEvent // Channel to receive new account chain delete event when account chain fork
-	sbCh      chan []*SnapshotChainEvent
-	sbDelCh   chan []*SnapshotChainEvent
+	install   chan *subscription // install filter
+	uninstall chan *subscription // remove filter
+	chainCh   chan chainEvent    // Channel to receive chain events, a single one to keep their order
 	stop      chan struct{}
 	log       log15.Logger
 }
 
+// chainEvent is an insertion or a removal (chain fork) of account blocks or snapshot blocks
+type chainEvent struct {
+	ac      []*AccountChainEvent
+	sb      []*SnapshotChainEvent
+	removed bool
+}
+
 const (
-	acChanSize    = 100
-	acDelChanSize = 10
-	sbChanSize    = 10
-	sbDelChanSize = 10
+	chainChanSize = 100
 	installSize   = 10
 	uninstallSize = 10
 )
@@ -68,10 +69,7 @@ const (
 func NewEventSystem(v *vite.Vite) *EventSystem {
 	es := &EventSystem{
 		vite:      v,
-		acCh:      make(chan []*AccountChainEvent, acChanSize),
-		acDelCh:   make(chan []*AccountChainEvent, acDelChanSize),
-		sbCh:      make(chan []*SnapshotChainEvent, sbChanSize),
-		sbDelCh:   make(chan []*SnapshotChainEvent, sbDelChanSize),
+		chainCh:   make(chan chainEvent, chainChanSize),
 		install:   make(chan *subscription, installSize),
 		uninstall: make(chan *subscription, uninstallSize),
 		stop:      make(chan struct{}),
@@ -99,14 +97,9 @@ func (es *EventSystem) eventLoop() {
 
 	for {
 		select {
-		case acEvent := <-es.acCh:
-			es.handleAcEvent(index, acEvent, false)
-		case acDelEvent := <-es.acDelCh:
-			es.handleAcEvent(index, acDelEvent, true)
-		case sbEvent := <-es.sbCh:
-			es.handleSbEvent(index, sbEvent, false)
-		case sbDelEvent := <-es.sbDelCh:
-			es.handleSbEvent(index, sbDelEvent, true)
+		case e := <-es.chainCh:
+			es.handleAcEvent(index, e.ac, e.removed)
+			es.handleSbEvent(index, e.sb, e.removed)
 		case i := <-es.install:
 			es.log.Info("install ", "id", i.id)
 			index[i.typ][i.id] = i
-- 
2.43.0


From d47646525b07640f8ea15f29375a261726499915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:39 +0000
Subject: [PATCH 23/29] fix: do not stop the event loop when a filter expires
 or a subscription ends

The expiry of a filter waited for the event loop while holding the lock that
the filters need to take events from the loop, and an ending subscription
stopped reading events before the loop had removed it. In both cases the loop,
and with it the insertion of blocks, could wait for ever.
---
 rpcapi/api/filters/event_system.go | 10 ++++++----
 rpcapi/api/filters/subscribe.go    |  7 ++++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/rpcapi/api/filters/event_system.go b/rpcapi/api/filters/event_system.go
index 21d8570..43fee7e 100644
--- a/rpcapi/api/filters/event_system.go
+++ b/rpcapi/api/filters/event_system.go
@@ -283,11 +283,14 @@ func (s *RpcSubscription) Err() <-chan error {
 
 func (s *RpcSubscription) Unsubscribe() {
 	s.unSubOnce.Do(func() {
-	uninstallLoop:
+		// take the events on their way until the event loop has removed the subscription
+		uninstall := s.es.uninstall
 		for {
 			select {
-			case s.es.uninstall <- s.sub:
-				break uninstallLoop
+			case uninstall <- s.sub:
+				uninstall = nil
+			case <-s.Err():
+				return
 			case <-s.sub.accountBlockCh:
 			case <-s.sub.accountBlockWithHeightCh:
 			case <-s.sub.logsCh:
@@ -295,7 +298,6 @@ func (s *RpcSubscription) Unsubscribe() {
 			case <-s.sub.onroadMsgCh:
 			}
 		}
-		<-s.Err()
 	})
 }
 
diff --git a/rpcapi/api/filters/subscribe.go b/rpcapi/api/filters/subscribe.go
index 9beee4b..b181574 100644
--- a/rpcapi/api/filters/subscribe.go
+++ b/rpcapi/api/filters/subscribe.go
@@ -58,17 +58,22 @@ func (s *SubscribeApi) timeoutLoop() {
 	ticker := time.NewTicker(5 * time.Minute)
 	for {
 		<-ticker.C
+		var expired []*filter
 		s.filterMapMu.Lock()
 		for id, f := range s.filterMap {
 			select {
 			case <-f.deadline.C:
-				f.s.Unsubscribe()
+				expired = append(expired, f)
 				delete(s.filterMap, id)
 			default:
 				continue
 			}
 		}
 		s.filterMapMu.Unlock()
+		// not under the lock: the filters need it to take the events that are on their way
+		for _, f := range expired {
+			f.s.Unsubscribe()
+		}
 	}
 }
 
-- 
2.43.0


From 57d32cfa8b701c43aca100bd565d34afc51daad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:35 +0000
Subject: [PATCH 24/29] fix: a power failure could leave an empty wallet file:
 writeKeyFile renamed the file before its content was on the disk

The content is synced before the rename and the directory after it; a failed
close or rename is reported and leaves no temporary file behind.
---
 wallet/entropystore/crypto_store.go | 31 +++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/wallet/entropystore/crypto_store.go b/wallet/entropystore/crypto_store.go
index 1965c99..605f5a0 100644
--- a/wallet/entropystore/crypto_store.go
+++ b/wallet/entropystore/crypto_store.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"runtime"
 	"time"
 
 	"github.com/tyler-smith/go-bip39"
@@ -220,6 +221,32 @@ func writeKeyFile(file string, content []byte) error {
 		os.Remove(f.Name())
 		return err
 	}
-	f.Close()
-	return os.Rename(f.Name(), file)
+	// the content has to be on the disk before the file takes the place of an older one
+	if err := f.Sync(); err != nil {
+		f.Close()
+		os.Remove(f.Name())
+		return err
+	}
+	if err := f.Close(); err != nil {
+		os.Remove(f.Name())
+		return err
+	}
+	if err := os.Rename(f.Name(), file); err != nil {
+		os.Remove(f.Name())
+		return err
+	}
+	return syncDir(filepath.Dir(file))
+}
+
+// syncDir makes a rename in the directory durable
+func syncDir(dir string) error {
+	if runtime.GOOS == "windows" {
+		return nil
+	}
+	d, err := os.Open(dir)
+	if err != nil {
+		return err
+	}
+	defer d.Close()
+	return d.Sync()
 }
-- 
2.43.0


From c54ba4d6a12721cd7d714f1e4542a1445cf3ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:35 +0000
Subject: [PATCH 25/29] fix: a damaged wallet file made the node panic

Opening it with a nonce of another length, or with a derived key shorter than
what is sliced from it, panicked instead of returning an error.
---
 crypto/crypto.go                    | 4 ++++
 wallet/entropystore/crypto_store.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 8d08c14..17e29d0 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -135,6 +135,10 @@ func AesGCMDecrypt(key, cipherText, nonce []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(nonce) != stream.NonceSize() {
+		return nil, errors.New("wrong nonce length")
+	}
+
 	outText, err := stream.Open(nil, nonce, cipherText, []byte(gcmAdditionData))
 	if err != nil {
 		return nil, err
diff --git a/wallet/entropystore/crypto_store.go b/wallet/entropystore/crypto_store.go
index 605f5a0..8843c4e 100644
--- a/wallet/entropystore/crypto_store.go
+++ b/wallet/entropystore/crypto_store.go
@@ -132,6 +132,10 @@ func DecryptEntropy(entropyJson []byte, passphrase string) ([]byte, error) {
 	}
 	scryptParams := k.Crypto.ScryptParams
 
+	if scryptParams.KeyLen < scryptKeyLen {
+		return nil, fmt.Errorf("scrypt key length error : %v", scryptParams.KeyLen)
+	}
+
 	// begin decrypt
 	derivedKey, err := scrypt.Key([]byte(passphrase), salt, scryptParams.N, scryptParams.R, scryptParams.P, scryptParams.KeyLen)
 	if err != nil {
-- 
2.43.0


From 1cd0e92a888353da5806b546ec2ccff98e4d7698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:35 +0000
Subject: [PATCH 26/29] fix: RemoveEntropyStore with a name relative to the
 data directory left the store in place

---
 wallet/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index fc78e87..5a44285 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -272,7 +272,7 @@ func (m *Manager) RemoveEntropyStore(entropyStore string) {
 	manager, ok := m.entropyStoreManager[absPath]
 	if ok {
 		manager.Lock()
-		delete(m.entropyStoreManager, entropyStore)
+		delete(m.entropyStoreManager, absPath)
 	}
 }
 
-- 
2.43.0


From 44950a8afe198626280b40c531a4006713637c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:35 +0000
Subject: [PATCH 27/29] fix: GlobalFindAddrWithPassphrase gave up at the first
 store with another passphrase

Whether the address was found depended on the order of a map.
---
 wallet/manager.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wallet/manager.go b/wallet/manager.go
index 5a44285..534d888 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -176,17 +176,26 @@ func (m Manager) GlobalFindAddr(targetAdr types.Address) (path string, key *deri
 
 // Deprecated
 func (m Manager) GlobalFindAddrWithPassphrase(targetAdr types.Address, pass string) (path string, key *derivation.Key, index uint32, err error) {
+	var wrongPass error
 	for path, em := range m.entropyStoreManager {
 		key, index, err = em.FindAddrWithPassphrase(pass, targetAdr)
 		if err == walleterrors.ErrAddressNotFound {
 			continue
 		}
+		if err == walleterrors.ErrDecryptEntropy {
+			// another store may have this passphrase
+			wrongPass = err
+			continue
+		}
 		if err != nil {
 			return "", nil, 0, err
 		}
 		return path, key, index, nil
 
 	}
+	if wrongPass != nil {
+		return "", nil, 0, wrongPass
+	}
 	return "", nil, 0, walleterrors.ErrAddressNotFound
 }
 
-- 
2.43.0


From bf06e83e2c6851ab2011358c640cc4581bc08e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:36 +0000
Subject: [PATCH 28/29] fix: concurrent wallet requests killed the node with a
 concurrent map access

RPC handlers read and change the map of the entropy stores in parallel.
---
 wallet/manager.go | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/wallet/manager.go b/wallet/manager.go
index 534d888..be5bde2 100644
--- a/wallet/manager.go
+++ b/wallet/manager.go
@@ -24,6 +24,7 @@ type Manager struct {
 	entropyStoreManager map[string]*entropystore.Manager // key is the entropyStore`s abs path
 	unlockChangedLis    map[int]func(event entropystore.UnlockEvent)
 	mutex               sync.Mutex
+	storesMu            *sync.RWMutex // guards entropyStoreManager, clients come concurrently
 
 	log log15.Logger
 }
@@ -41,14 +42,26 @@ func New(config *config.Wallet) *Manager {
 		config:              config,
 		unlockChangedLis:    make(map[int]func(event entropystore.UnlockEvent)),
 		entropyStoreManager: make(map[string]*entropystore.Manager),
+		storesMu:            new(sync.RWMutex),
 
 		log: log15.New("module", "wallet"),
 	}
 }
 
+// stores returns the entropy stores as they are now
+func (m *Manager) stores() map[string]*entropystore.Manager {
+	m.storesMu.RLock()
+	defer m.storesMu.RUnlock()
+	stores := make(map[string]*entropystore.Manager, len(m.entropyStoreManager))
+	for path, em := range m.entropyStoreManager {
+		stores[path] = em
+	}
+	return stores
+}
+
 func (m Manager) ListAllEntropyFiles() []string {
 	files := make([]string, 0)
-	for filename, _ := range m.entropyStoreManager {
+	for filename, _ := range m.stores() {
 		files = append(files, filename)
 	}
 	return files
@@ -86,20 +99,22 @@ func (m Manager) GlobalCheckAddrUnlock(targetAdr types.Address) bool {
 }
 
 func (m *Manager) RefreshCache() {
-	for filename, _ := range m.entropyStoreManager {
+	for filename, _ := range m.stores() {
 		_, e := os.Stat(filename)
 		if e != nil {
+			m.storesMu.Lock()
 			manager, ok := m.entropyStoreManager[filename]
+			delete(m.entropyStoreManager, filename)
+			m.storesMu.Unlock()
 			if ok {
 				manager.Lock()
-				delete(m.entropyStoreManager, filename)
 			}
 		}
 	}
 }
 
 func (m Manager) Account(address types.Address) (*Account, error) {
-	for _, em := range m.entropyStoreManager {
+	for _, em := range m.stores() {
 		if em.IsUnlocked() {
 			key, _, err := em.FindAddr(address)
 			if err == walleterrors.ErrAddressNotFound {
@@ -158,7 +173,7 @@ func (m Manager) AccountSearch(entryPath *string, target types.Address, passphra
 }
 
 func (m Manager) GlobalFindAddr(targetAdr types.Address) (path string, key *derivation.Key, index uint32, err error) {
-	for path, em := range m.entropyStoreManager {
+	for path, em := range m.stores() {
 		if em.IsUnlocked() {
 			key, index, err = em.FindAddr(targetAdr)
 			if err == walleterrors.ErrAddressNotFound {
@@ -177,7 +192,7 @@ func (m Manager) GlobalFindAddr(targetAdr types.Address) (path string, key *deri
 // Deprecated
 func (m Manager) GlobalFindAddrWithPassphrase(targetAdr types.Address, pass string) (path string, key *derivation.Key, index uint32, err error) {
 	var wrongPass error
-	for path, em := range m.entropyStoreManager {
+	for path, em := range m.stores() {
 		key, index, err = em.FindAddrWithPassphrase(pass, targetAdr)
 		if err == walleterrors.ErrAddressNotFound {
 			continue
@@ -238,6 +253,8 @@ func (m *Manager) GetEntropyStoreManager(entropyStore string) (*entropystore.Man
 	if !filepath.IsAbs(absPath) {
 		absPath = filepath.Join(m.config.DataDir, entropyStore)
 	}
+	m.storesMu.RLock()
+	defer m.storesMu.RUnlock()
 	if manager, ok := m.entropyStoreManager[absPath]; ok {
 		return manager, nil
 	}
@@ -258,6 +275,8 @@ func (m *Manager) AddEntropyStore(entropyStore string) error {
 	if !mayValid {
 		return errors.New("not valid entropy store file")
 	}
+	m.storesMu.Lock()
+	defer m.storesMu.Unlock()
 	if _, ok := m.entropyStoreManager[absPath]; ok {
 		return nil
 	}
@@ -278,10 +297,12 @@ func (m *Manager) RemoveEntropyStore(entropyStore string) {
 		absPath = filepath.Join(m.config.DataDir, entropyStore)
 	}
 
+	m.storesMu.Lock()
 	manager, ok := m.entropyStoreManager[absPath]
+	delete(m.entropyStoreManager, absPath)
+	m.storesMu.Unlock()
 	if ok {
 		manager.Lock()
-		delete(m.entropyStoreManager, absPath)
 	}
 }
 
@@ -290,6 +311,8 @@ func (m *Manager) RecoverEntropyStoreFromMnemonic(mnemonic string, passphrase st
 	if e != nil {
 		return nil, e
 	}
+	m.storesMu.Lock()
+	defer m.storesMu.Unlock()
 	m.entropyStoreManager[sm.GetEntropyStoreFile()] = sm
 	sm.SetLockEventListener(func(event entropystore.UnlockEvent) {
 		for _, lis := range m.unlockChangedLis {
@@ -323,7 +346,9 @@ func (m Manager) GetDataDir() string {
 }
 
 func (m *Manager) Start() error {
+	m.storesMu.Lock()
 	m.entropyStoreManager = make(map[string]*entropystore.Manager)
+	m.storesMu.Unlock()
 	files, e := m.ListEntropyFilesInStandardDir()
 	if e != nil {
 		m.log.Error("wallet start err", "err", e)
@@ -339,11 +364,13 @@ func (m *Manager) Start() error {
 }
 
 func (m *Manager) Stop() {
-	for _, em := range m.entropyStoreManager {
+	for _, em := range m.stores() {
 		em.Lock()
 		em.RemoveUnlockChangeChannel()
 	}
+	m.storesMu.Lock()
 	m.entropyStoreManager = nil
+	m.storesMu.Unlock()
 }
 
 func (m Manager) AddLockEventListener(lis func(event entropystore.UnlockEvent)) int {
-- 
2.43.0


From 8e44eaec99d3ef485f858a8d68ad7b823cc1787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:11 +0000
Subject: [PATCH 29/29] fix: a rollback beyond the redo log left values that
 should be gone in the storage of a contract

When the first storage key of an account was written after the snapshot to
return to, there is no earlier entry in the history; the recovery stopped there
and left all the storage of the account as it was before the rollback.
---
 ledger/chain/state/delete.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/ledger/chain/state/delete.go b/ledger/chain/state/delete.go
index 81f6723..80450e4 100644
--- a/ledger/chain/state/delete.go
+++ b/ledger/chain/state/delete.go
@@ -520,16 +520,9 @@ func (sDB *StateDB) recoverStorageToSnapshot(batch *leveldb.Batch, height uint64
 
 		prevOk := iter.Prev()
 		prevKey := chain_utils.StorageHistoryKey{}.Construct(iter.Key())
-		if prevKey == nil {
-			sDB.log.Error("prevKey is nil.")
-			break
-		}
-		if prevKey.ExtraAddress() != addr {
-			sDB.log.Error("address is different.")
-			break
-		}
 
-		if prevOk && bytes.Equal(seekTemplateKey.ExtraKeyAndLen(), prevKey.ExtraKeyAndLen()) {
+		// there is no previous key when the first key of the account was written after the snapshot
+		if prevOk && prevKey != nil && prevKey.ExtraAddress() == addr && bytes.Equal(seekTemplateKey.ExtraKeyAndLen(), prevKey.ExtraKeyAndLen()) {
 			if len(iter.Value()) > 0 {
 				batch.Put(storageTemplateKey.Bytes(), iter.Value())
 			} else {
-- 
2.43.0

