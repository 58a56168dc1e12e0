From 182a7922c016d4bd88425bd0e90d79540af5706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 01/29] fix: reject transactions and blocks whose amounts
 overflow when summed

---
 pkg/core/verify.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index 79cb135..200f294 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -138,8 +138,12 @@ func (v Verifier) VerifyBlock(b Block) error {
 		if i != 0 && tx.IsCoinbase {
 			return fmt.Errorf("only first block tx may be coinbase")
 		}
-		totalInputs += tx.InputsValue()
-		totalOutputs += tx.OutputsValue()
+		var inputsOk, outputsOk bool
+		totalInputs, inputsOk = addAmounts(totalInputs, tx.InputsValue())
+		totalOutputs, outputsOk = addAmounts(totalOutputs, tx.OutputsValue())
+		if !inputsOk || !outputsOk {
+			return fmt.Errorf("block total inputs or outputs overflow")
+		}
 	}
 
 	// Verify block's total inputs and outputs match
@@ -244,6 +248,19 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		}
 	}
 
+	// Verify summing the input and output values doesn't overflow
+	totalInputs, totalOutputs, ok := uint64(0), uint64(0), true
+	for _, txi := range tx.Inputs {
+		if totalInputs, ok = addAmounts(totalInputs, txi.Utxo.Value); !ok {
+			return fmt.Errorf("tx input values overflow")
+		}
+	}
+	for _, txo := range tx.Outputs {
+		if totalOutputs, ok = addAmounts(totalOutputs, txo.Value); !ok {
+			return fmt.Errorf("tx output values overflow")
+		}
+	}
+
 	// Verify within vSize limit
 	if tx.VSize() > v.params.MaxTxVSize {
 		return fmt.Errorf("tx vSize exceeds limit")
@@ -282,3 +299,8 @@ func (v Verifier) VerifyBlockIsolated(b Block) error {
 	}
 	return nil
 }
+
+// Add two amounts of coin, returning whether the sum is representable.
+func addAmounts(a, b uint64) (uint64, bool) {
+	return a + b, a+b >= a
+}
-- 
2.43.0


From cbe5f0d5c89118728ae8e56e2ec4b8e3a3c3ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 02/29] fix: check the timestamp of the last block of each
 difficulty period

---
 pkg/core/verify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index 200f294..fb9fe34 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -187,7 +187,7 @@ func (v Verifier) VerifyBlock(b Block) error {
 
 	// If last block in period, verify time is ahead of first block in period
 	// This prevents panics in ExpectedTargetAdjustment
-	if newBlockHeight+1%v.params.DifficultyPeriod == 0 {
+	if (newBlockHeight+1)%v.params.DifficultyPeriod == 0 {
 		var firstBlockId HashT
 		if newBlockHeight+1 == v.params.DifficultyPeriod {
 			if !v.inv.GetBlockSpecificAncestor(b.PrevBlockId, int(v.params.DifficultyPeriod-2)).EqZero() {
-- 
2.43.0


From 8157d432a5fb5d1e4647d7c5a7d82126f31c091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 03/29] fix: reject transactions that consume the same output
 twice

---
 pkg/core/verify.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index fb9fe34..82d0240 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -261,6 +261,15 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		}
 	}
 
+	// Verify each output is consumed at most once
+	consumed := set.NewSet[Utxo]()
+	for _, utxo := range tx.GetConsumedUtxos() {
+		if consumed.Includes(utxo) {
+			return fmt.Errorf("tx consumes %s[%d] more than once", utxo.TxId, utxo.Ind)
+		}
+		consumed.Add(utxo)
+	}
+
 	// Verify within vSize limit
 	if tx.VSize() > v.params.MaxTxVSize {
 		return fmt.Errorf("tx vSize exceeds limit")
-- 
2.43.0


From 75260c6ddd3bc3cbd3de8dd03d80c09f7ec495f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 04/29] fix: rewind blocks whose transactions depend on each
 other

---
 internal/chain/state.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 1975c7e..7519c92 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -85,7 +85,9 @@ func (s *State) Rewind() {
 	}
 	rBlock := s.inv.GetBlock(s.head)
 	rTxs := s.inv.GetMerkleTxs(rBlock.MerkleRoot)
-	for _, tx := range rTxs {
+	// Undo in reverse order, as later txs may consume outputs of earlier ones
+	for i := len(rTxs) - 1; i >= 0; i-- {
+		tx := rTxs[i]
 		txId := tx.Hash()
 		// Return tx back to mempool
 		s.mempool.Add(txId)
-- 
2.43.0


From 6ca466b3b6ae440929beea6ab38812b01bf1886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 05/29] fix: answer rich list queries of any length

---
 internal/chain/state.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 7519c92..fabbf0c 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -384,9 +384,9 @@ func (s *State) GetRichList(maxLen uint64) map[core.HashT]uint64 {
 		return pkhBals[pkhs[i]] > pkhBals[pkhs[j]]
 	})
 	// outLen = min(maxLen, len(pkhs))
-	outLen := int(maxLen)
-	if len(pkhs) < outLen {
-		outLen = len(pkhs)
+	outLen := len(pkhs)
+	if maxLen < uint64(outLen) {
+		outLen = int(maxLen)
 	}
 	out := make(map[core.HashT]uint64, outLen)
 	for i := 0; i < outLen; i++ {
-- 
2.43.0


From 44e50656ee1a364e9ea4cb64dcf1c61c089c10ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 06/29] fix: return errors for wallet transactions that cannot
 be made

---
 pkg/core/txfactory.go | 45 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index 129d5af..8954dc2 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -3,6 +3,7 @@ package core
 import (
 	"crypto/ecdsa"
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/levilutz/basiccoin/pkg/util"
@@ -36,9 +37,11 @@ func MakeOutboundTx(
 	}
 
 	// Get total outputs and verify <= utxos
-	totalOut := uint64(0)
+	totalOut, ok := uint64(0), true
 	for _, val := range dests {
-		totalOut += val
+		if totalOut, ok = addAmounts(totalOut, val); !ok {
+			return nil, fmt.Errorf("insufficient balance: total outputs overflow")
+		}
 	}
 	if totalOut >= balance {
 		return nil, fmt.Errorf("insufficient balance: %d < %d", balance, totalOut)
@@ -78,6 +81,7 @@ func MakeOutboundTx(
 	// Add utxos, starting with the wealthiest, until we reach target input
 	// Only using placeholder sigs, since preSigHash will change when we set change output value.
 	totalIn := uint64(0)
+	fee := uint64(0)
 	for i, utxo := range utxos {
 		// Add the input
 		totalIn += utxo.Value
@@ -93,16 +97,21 @@ func MakeOutboundTx(
 		}
 
 		// Check if we now have enough inputs to cover outputs + fees
-		if totalIn >= totalOut+tx.FeeFromRate(targetFeeRate) {
+		fee, err = payableFee(tx, targetFeeRate)
+		if err != nil {
+			return nil, err
+		}
+		if totalIn >= totalOut && totalIn-totalOut >= fee {
 			break
 		}
 
 		// If we reached the end of the loop without breaking, we can't make it work
 		if i == len(utxos)-1 {
 			return nil, fmt.Errorf(
-				"insufficient balance to pay outputs and target fee rate - %d < %d",
+				"insufficient balance to pay outputs and target fee rate - %d < %d + %d",
 				balance,
-				totalOut+tx.FeeFromRate(targetFeeRate),
+				totalOut,
+				fee,
 			)
 		}
 	}
@@ -111,7 +120,7 @@ func MakeOutboundTx(
 	// Ideally we would do this after replacing sigs bc vSize and thus fee would decrease
 	// But unfortunately we need this output finalized so we can compute preSigHash
 	// Thus we will on average overestimate vSize by ~1 vByte per output (<1% fee diff)
-	tx.Outputs[0].Value = totalIn - totalOut - tx.FeeFromRate(targetFeeRate)
+	tx.Outputs[0].Value = totalIn - totalOut - fee
 
 	// Sign the inputs, replacing placeholders
 	preSigHash := TxHashPreSig(tx.MinBlock, tx.Outputs)
@@ -201,7 +210,14 @@ func MakeConsolidateTx(
 	}
 
 	// Set the output amount
-	tx.Outputs[0].Value = totalIn - tx.FeeFromRate(targetFeeRate)
+	fee, err := payableFee(tx, targetFeeRate)
+	if err != nil {
+		return nil, err
+	}
+	if totalIn < fee {
+		return nil, fmt.Errorf("insufficient balance to pay target fee rate - %d < %d", totalIn, fee)
+	}
+	tx.Outputs[0].Value = totalIn - fee
 
 	// Sign the inputs, replacing placeholders
 	preSigHash := TxHashPreSig(tx.MinBlock, tx.Outputs)
@@ -223,6 +239,18 @@ func MakeConsolidateTx(
 	return &tx, nil
 }
 
+// Get the fee to pay for a tx at the given rate - at least 1, as a tx must have surplus.
+func payableFee(tx Tx, targetFeeRate float64) (uint64, error) {
+	// Also catches NaN
+	if !(targetFeeRate*float64(tx.VSize()) < math.MaxInt64) {
+		return 0, fmt.Errorf("target fee rate too high: %f", targetFeeRate)
+	}
+	if targetFeeRate*float64(tx.VSize()) < 1 {
+		return 1, nil
+	}
+	return tx.FeeFromRate(targetFeeRate), nil
+}
+
 // Given private keys, make a mapping from their public key hashes to each private key.
 func getPkkPrivs(privateKeys []*ecdsa.PrivateKey) (map[HashT]*ecdsa.PrivateKey, error) {
 	out := make(map[HashT]*ecdsa.PrivateKey, len(privateKeys))
@@ -240,6 +268,9 @@ func getPkkPrivs(privateKeys []*ecdsa.PrivateKey) (map[HashT]*ecdsa.PrivateKey,
 func getBalanceAndRichestPkh(
 	utxoPkhs map[Utxo]HashT, pkhPrivs map[HashT]*ecdsa.PrivateKey,
 ) (uint64, HashT, error) {
+	if len(utxoPkhs) == 0 {
+		return 0, HashT{}, fmt.Errorf("insufficient balance: no utxos")
+	}
 	balance := uint64(0)
 	pkhBalances := make(map[HashT]uint64)
 	for utxo, pkh := range utxoPkhs {
-- 
2.43.0


From 13c95b3b6827152be4043118f249c53edfb08001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 07/29] fix: prepend without changing the given slice

---
 pkg/util/util.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 1270868..abee23d 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -11,18 +11,9 @@ func MapKeys[K comparable, V any](in map[K]V) []K {
 	return out
 }
 
-// Prepend into slice.
+// Prepend into slice, one item at a time. Does not modify in-place, returns a new one.
 func Prepend[K any](ls []K, items ...K) []K {
-	for _, item := range items {
-		if len(ls) == 0 {
-			ls = []K{item}
-		} else {
-			ls = append(ls, item)
-			copy(ls[1:], ls)
-			ls[0] = item
-		}
-	}
-	return ls
+	return append(Reverse(items), ls...)
 }
 
 // Reverse a slice. Does not modify in-place, returns a new one.
-- 
2.43.0


From 028d6d52fb1c14045fae3db17b478d0303c13b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 08/29] fix: let queues own their items

---
 pkg/queue/queue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/queue.go b/pkg/queue/queue.go
index 2256a57..8c52e9a 100644
--- a/pkg/queue/queue.go
+++ b/pkg/queue/queue.go
@@ -1,5 +1,7 @@
 package queue
 
+import "github.com/levilutz/basiccoin/pkg/util"
+
 // A simple (non-synchronous) queue using a slice.
 type Queue[K any] struct {
 	q []K
@@ -8,7 +10,7 @@ type Queue[K any] struct {
 // Create a new queue.
 func NewQueue[K any](keys ...K) *Queue[K] {
 	return &Queue[K]{
-		q: keys,
+		q: util.CopyList(keys),
 	}
 }
 
-- 
2.43.0


From b28a7794d827dd6ca19d7dab5e70c17250798e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 09/29] fix: never leave incomplete record files behind

---
 pkg/disksyncmap/disksyncmap.go |  3 ++-
 pkg/util/file.go               | 35 ++++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 1 deletion(-)
 create mode 100644 pkg/util/file.go

diff --git a/pkg/disksyncmap/disksyncmap.go b/pkg/disksyncmap/disksyncmap.go
index 1268a8c..1eaef08 100644
--- a/pkg/disksyncmap/disksyncmap.go
+++ b/pkg/disksyncmap/disksyncmap.go
@@ -6,6 +6,7 @@ import (
 	"os"
 
 	"github.com/levilutz/basiccoin/pkg/syncmap"
+	"github.com/levilutz/basiccoin/pkg/util"
 )
 
 type comparableStringer interface {
@@ -75,7 +76,7 @@ func (dsm *DiskSyncMap[K, V]) tryLoadKeyFromDisk(key K) bool {
 
 // Write to the given file on disk.
 func (dsm *DiskSyncMap[K, V]) saveFile(path string, val V) error {
-	return os.WriteFile(path, []byte(val.String()), 0666)
+	return util.WriteFileAtomic(path, []byte(val.String()), 0666)
 }
 
 // Load the given file from disk and parse.
diff --git a/pkg/util/file.go b/pkg/util/file.go
new file mode 100644
index 0000000..a16562d
--- /dev/null
+++ b/pkg/util/file.go
@@ -0,0 +1,35 @@
+package util
+
+import "os"
+
+// Write to a file such that, whenever this gets interrupted, the file holds either its
+// previous content or all of the new content.
+func WriteFileAtomic(path string, data []byte, perm os.FileMode) error {
+	tmpPath := path + ".tmp"
+	// A previous interrupted write may have left a temporary file behind
+	if err := os.Remove(tmpPath); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	if err := writeFileSynced(tmpPath, data, perm); err != nil {
+		os.Remove(tmpPath)
+		return err
+	}
+	return os.Rename(tmpPath, path)
+}
+
+// Write a new file and flush it to disk.
+func writeFileSynced(path string, data []byte, perm os.FileMode) error {
+	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if err != nil {
+		return err
+	}
+	if _, err := f.Write(data); err != nil {
+		f.Close()
+		return err
+	}
+	if err := f.Sync(); err != nil {
+		f.Close()
+		return err
+	}
+	return f.Close()
+}
-- 
2.43.0


From 18ecc812898d84d525e93e33d543fe95ee1692c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 10/29] fix: accept transactions and blocks that were stored
 before a restart

---
 internal/chain/chain.go | 9 ++++++---
 internal/chain/state.go | 9 ++++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index 781aa9b..cbd992d 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -208,11 +208,14 @@ func (c *Chain) handleCandidateHead(event bus.CandidateHeadEvent) error {
 
 func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
 	txId := event.Tx.Hash()
-	if c.inv.HasTx(txId) {
+	if c.state.IsTxTracked(txId) {
 		return nil
 	}
-	if err := c.inv.StoreTx(event.Tx); err != nil {
-		return err
+	// Txs stored before a restart are known, but not yet tracked by our state
+	if !c.inv.HasTx(txId) {
+		if err := c.inv.StoreTx(event.Tx); err != nil {
+			return err
+		}
 	}
 	c.state.AddMempoolTx(txId)
 	c.bus.ValidatedTx.Pub(bus.ValidatedTxEvent{
diff --git a/internal/chain/state.go b/internal/chain/state.go
index fabbf0c..914cc02 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -226,7 +226,8 @@ func (s *State) VerifyTxIncludable(txId core.HashT, autoAddMempoolInsecure bool)
 		return fmt.Errorf("tx cannot be included in block - too low")
 	}
 	if !s.mempool.Includes(txId) {
-		if autoAddMempoolInsecure {
+		// Txs stored before a restart are known, but neither included nor in the mempool
+		if autoAddMempoolInsecure || !s.IsTxTracked(txId) {
 			s.AddMempoolTx(txId)
 		} else {
 			return fmt.Errorf("tx does not exist in mempool")
@@ -256,6 +257,12 @@ func (s *State) GetSortedIncludableMempool() []core.HashT {
 	return memL
 }
 
+// Return whether a tx is in the mempool or included in our chain.
+func (s *State) IsTxTracked(txId core.HashT) bool {
+	_, included := s.includedTxBlocks[txId]
+	return included || s.mempool.Includes(txId)
+}
+
 // Add a tx to the mempool.
 func (s *State) AddMempoolTx(txId core.HashT) {
 	tx := s.inv.GetTx(txId)
-- 
2.43.0


From 233874796703ec4dff011803bc3e247443e26ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 11/29] fix: never leave an incomplete head file behind

---
 internal/chain/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index cbd992d..1e48994 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -229,7 +229,7 @@ func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
 }
 
 func (c *Chain) saveHeadToFile(head core.HashT) error {
-	return os.WriteFile(*c.saveDir+"/head", []byte(head.String()), 0666)
+	return util.WriteFileAtomic(*c.saveDir+"/head", []byte(head.String()), 0666)
 }
 
 func loadHeadFromFile(saveDir *string) (head *core.HashT, err error) {
-- 
2.43.0


From 205b39482b707c290c4ad9be0a92c016edc50c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 12/29] fix: miners give blocks a mined time the network
 accepts

A template's mined time was always the local clock, so when the previous
blocks were mined ahead of it (up to an hour is allowed) or several blocks
came within a second, every solution was refused for its mined time.
---
 internal/miner/miner.go |  7 ++++++-
 pkg/core/minedtime.go   | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 1 deletion(-)
 create mode 100644 pkg/core/minedtime.go

diff --git a/internal/miner/miner.go b/internal/miner/miner.go
index 227be14..e4725fe 100644
--- a/internal/miner/miner.go
+++ b/internal/miner/miner.go
@@ -109,6 +109,11 @@ func (m *Miner) updateTemplate(head core.HashT, target core.HashT, txIds []core.
 	for i, merkleId := range merkleIds {
 		outMerkles[i] = merkleMap[merkleId]
 	}
+	// Usually we mined it now, but our clock may be behind what the previous blocks require
+	minedTime := uint64(time.Now().Unix())
+	if minTime := core.MinMinedTime(m.inv.GetCoreParams(), m.inv, head); minedTime < minTime {
+		minedTime = minTime
+	}
 	// Set our template and output data
 	m.template = &core.Block{
 		PrevBlockId: head,
@@ -116,7 +121,7 @@ func (m *Miner) updateTemplate(head core.HashT, target core.HashT, txIds []core.
 		Target:      target,
 		Noise:       core.NewHashTRand(),
 		Nonce:       0,
-		MinedTime:   uint64(time.Now().Unix()),
+		MinedTime:   minedTime,
 	}
 	m.outCoinbase = &coinbaseTx
 	m.outMerkles = outMerkles
diff --git a/pkg/core/minedtime.go b/pkg/core/minedtime.go
new file mode 100644
index 0000000..095a068
--- /dev/null
+++ b/pkg/core/minedtime.go
@@ -0,0 +1,40 @@
+package core
+
+import "sort"
+
+// Compute the least mined time a block following the given block may have.
+// This mirrors the mined time conditions in VerifyBlock.
+func MinMinedTime(params Params, inv InvTargeter, prevBlockId HashT) uint64 {
+	// The first block may have any mined time
+	if prevBlockId.EqZero() {
+		return 0
+	}
+
+	// Must be above the median of the previous 5 blocks, dropping the zero block
+	times := []uint64{inv.GetBlock(prevBlockId).MinedTime}
+	for _, blockId := range inv.GetBlockAncestors(prevBlockId, 4) {
+		if !blockId.EqZero() {
+			times = append(times, inv.GetBlock(blockId).MinedTime)
+		}
+	}
+	sort.Slice(times, func(i, j int) bool { return times[i] < times[j] })
+	minTime := times[(len(times)-1)/2]
+	if len(times)%2 == 0 {
+		minTime = (minTime + times[len(times)/2]) / 2
+	}
+	minTime++
+
+	// If last in period, must be above the first in period
+	height := inv.GetBlockHeight(prevBlockId) + 1
+	if (height+1)%params.DifficultyPeriod == 0 {
+		firstHeight := height + 1 - params.DifficultyPeriod
+		if firstHeight == 0 {
+			firstHeight = 1
+		}
+		firstId := inv.GetBlockSpecificAncestor(prevBlockId, int(height-1-firstHeight))
+		if firstTime := inv.GetBlock(firstId).MinedTime; firstTime >= minTime {
+			minTime = firstTime + 1
+		}
+	}
+	return minTime
+}
-- 
2.43.0


From b2aa32e4d3fea46d36ab3a64211dea6d91e6eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 13/29] fix: a read timeout no longer loses part of a message

An idle peer reads with a 100 ms timeout. When that expired between the two
size bytes, or the data stalled, what had been consumed was dropped and the
rest of the stream was read as if it began a new message.
---
 pkg/prot/conn.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index af67bb3..f571aa1 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -144,17 +144,25 @@ func (c *Conn) writeRawTimeout(data []byte, timeout time.Duration) {
 }
 
 // Read variable-length data from the conn.
-// Uses the given timeout for the size bytes, then the default for the data bytes.
+// Uses the given timeout for the first byte, then the default for the rest.
 func (c *Conn) ReadTimeout(timeout time.Duration) []byte {
 	if c.err != nil {
 		return nil
 	}
-	sizeB := c.readRawTimeout(2, timeout)
+	// A retriable timeout may only happen before any byte is consumed
+	sizeB := c.readRawTimeout(1, timeout)
 	if c.err != nil {
 		return nil
 	}
-	size := binary.BigEndian.Uint16(sizeB)
-	return c.readRawTimeout(size, defaultTimeout)
+	sizeB = append(sizeB, c.readRawTimeout(1, defaultTimeout)...)
+	var data []byte
+	if c.err == nil {
+		data = c.readRawTimeout(binary.BigEndian.Uint16(sizeB), defaultTimeout)
+	}
+	if c.err != nil && os.IsTimeout(c.err) {
+		c.err = fmt.Errorf("timed out within a message: %s", c.err.Error())
+	}
+	return data
 }
 
 // Read variable-length data from the conn with the default timeout for each read.
-- 
2.43.0


From 444f3cbc34c692f40551e4523ae4f3342ee03837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:34 +0000
Subject: [PATCH 14/29] fix: refuse to write 65536 bytes, the length prefix
 cannot express it

The size was sent as 0 and the data misread as the following messages.
---
 pkg/prot/conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index f571aa1..29078b3 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -178,8 +178,8 @@ func (c *Conn) Write(data []byte) {
 	if c.err != nil {
 		return
 	}
-	if len(data) > 65536 {
-		c.err = fmt.Errorf("too many bytes to write: %d > 65536", len(data))
+	if len(data) > 65535 {
+		c.err = fmt.Errorf("too many bytes to write: %d > 65535", len(data))
 		return
 	}
 	sizeB := make([]byte, 2)
-- 
2.43.0


From e5677482abb6bb0506867e8d408aeeb45c2010e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 15/29] fix: don't allocate or loop by counts a peer merely
 claims

A few bytes claiming a transaction with 2^60 inputs or a list of 2^60 peer
addresses made the node allocate without bound, or loop long after the
connection had failed.
---
 internal/peer/handlers.go |  5 +++--
 pkg/prot/core.go          | 24 ++++++++++++------------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/internal/peer/handlers.go b/internal/peer/handlers.go
index ffce87c..1916d21 100644
--- a/internal/peer/handlers.go
+++ b/internal/peer/handlers.go
@@ -41,8 +41,9 @@ var peerAddrsCmd = "peer-addrs"
 
 func (p *Peer) handleReadPeerAddrs() error {
 	numPeers := p.conn.ReadUint64()
-	peerAddrs := make(map[string]string, numPeers)
-	for i := 0; i < int(numPeers); i++ {
+	// The count is only a claim, so grow as data actually arrives
+	peerAddrs := make(map[string]string)
+	for i := uint64(0); i < numPeers && !p.conn.HasErr(); i++ {
 		runtimeId := p.conn.ReadString()
 		peerAddrs[runtimeId] = p.conn.ReadString()
 	}
diff --git a/pkg/prot/core.go b/pkg/prot/core.go
index 53d5cfd..a391296 100644
--- a/pkg/prot/core.go
+++ b/pkg/prot/core.go
@@ -101,14 +101,14 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 	tx := core.Tx{
 		IsCoinbase: c.ReadBool(),
 		MinBlock:   c.ReadUint64(),
-		Inputs:     make([]core.TxIn, c.ReadUint64()),
-		Outputs:    make([]core.TxOut, c.ReadUint64()),
-	}
-	if c.err != nil {
-		return core.Tx{}
-	}
-	for i := range tx.Inputs {
-		tx.Inputs[i] = core.TxIn{
+		Inputs:     make([]core.TxIn, 0),
+		Outputs:    make([]core.TxOut, 0),
+	}
+	// The counts are only claims, so grow as data actually arrives
+	numInputs := c.ReadUint64()
+	numOutputs := c.ReadUint64()
+	for i := uint64(0); i < numInputs && c.err == nil; i++ {
+		tx.Inputs = append(tx.Inputs, core.TxIn{
 			Utxo: core.Utxo{
 				TxId:  c.ReadHashT(),
 				Ind:   c.ReadUint64(),
@@ -116,13 +116,13 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 			},
 			PublicKey: c.Read(),
 			Signature: c.Read(),
-		}
+		})
 	}
-	for i := range tx.Outputs {
-		tx.Outputs[i] = core.TxOut{
+	for i := uint64(0); i < numOutputs && c.err == nil; i++ {
+		tx.Outputs = append(tx.Outputs, core.TxOut{
 			Value:         c.ReadUint64(),
 			PublicKeyHash: c.ReadHashT(),
-		}
+		})
 	}
 	if c.err != nil {
 		return core.Tx{}
-- 
2.43.0


From 8da63a09d651082027cf7f88d0dcfef6dd0d7a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:35 +0000
Subject: [PATCH 16/29] fix: insert synced transactions and merkle nodes in
 dependency order

A received chain's transactions were handed on in the reverse of a breadth
first walk over all blocks' trees at once. Transactions came before those of
the same or earlier blocks whose outputs they spend, so the chain was refused
and the node never caught up.
---
 internal/peer/sync.go | 55 +++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index cd13447..05a9d79 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -148,47 +148,50 @@ func (p *Peer) handleInboundSyncChain() error {
 	// Request the peer for entities we don't know about
 	newMerkles := make([]core.MerkleNode, 0)
 	newTxs := make([]core.Tx, 0)
-	idQueue := queue.NewQueue[core.HashT]()
 	receivedIds := set.NewSet[core.HashT]()
-	for _, block := range newBlocks {
-		idQueue.Push(block.MerkleRoot)
-	}
-	for idQueue.Size() > 0 {
-		id, _ := idQueue.Pop()
-		if p.inv.HasEntity(id) || receivedIds.Includes(id) {
-			continue
-		}
-		p.conn.WriteHashT(id)
-		isTx := p.conn.ReadBool()
-		if p.conn.HasErr() {
-			return p.conn.Err()
-		} else if !isTx {
-			merkle := p.conn.ReadMerkle(id)
-			if p.conn.HasErr() {
-				return p.conn.Err()
+	// Oldest block first, as later blocks' entities may depend on it
+	for i := len(newBlocks) - 1; i >= 0; i-- {
+		blockMerkles := make([]core.MerkleNode, 0)
+		idQueue := queue.NewQueue(newBlocks[i].MerkleRoot)
+		for idQueue.Size() > 0 {
+			id, _ := idQueue.Pop()
+			if p.inv.HasEntity(id) || receivedIds.Includes(id) {
+				continue
 			}
-			newMerkles = append(newMerkles, merkle)
-			idQueue.Push(merkle.LChild, merkle.RChild)
-		} else {
-			tx := p.conn.ReadTx(id)
+			p.conn.WriteHashT(id)
+			isTx := p.conn.ReadBool()
 			if p.conn.HasErr() {
 				return p.conn.Err()
+			} else if !isTx {
+				merkle := p.conn.ReadMerkle(id)
+				if p.conn.HasErr() {
+					return p.conn.Err()
+				}
+				blockMerkles = append(blockMerkles, merkle)
+				idQueue.Push(merkle.LChild, merkle.RChild)
+			} else {
+				tx := p.conn.ReadTx(id)
+				if p.conn.HasErr() {
+					return p.conn.Err()
+				}
+				newTxs = append(newTxs, tx)
 			}
-			newTxs = append(newTxs, tx)
+			receivedIds.Add(id)
 		}
-		receivedIds.Add(id)
+		// Reversed so children are inserted before their parents
+		newMerkles = append(newMerkles, util.Reverse(blockMerkles)...)
 	}
 	p.conn.WriteHashT(core.HashT{})
 	p.conn.WriteString("complete")
 	if p.conn.HasErr() {
 		return p.conn.Err()
 	}
-	// Send the new entities to the head (reversed so they're inserted in correct order)
+	// Send the new entities to the chain, in the order they can be inserted
 	p.bus.CandidateHead.Pub(bus.CandidateHeadEvent{
 		Head:                   newHead,
 		Blocks:                 util.Reverse(newBlocks),
-		Merkles:                util.Reverse(newMerkles),
-		Txs:                    util.Reverse(newTxs),
+		Merkles:                newMerkles,
+		Txs:                    newTxs,
 		AutoAddMempoolInsecure: false,
 	})
 	return nil
-- 
2.43.0


From e7026dc31afbb206fcd664a1d5bb6ed09d55d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:15 +0000
Subject: [PATCH 17/29] fix: sync new peers from the actual chain head

A peer starts from the head its factory last heard of. If the chain adopts
a block before the factory or the new peer processes that event, the
connection stays behind until the next block. Ask the chain once subscribed.
---
 internal/bus/bus.go     |  2 ++
 internal/bus/queries.go |  5 +++++
 internal/chain/chain.go |  5 +++++
 internal/peer/peer.go   | 12 ++++++++++++
 4 files changed, 24 insertions(+)

diff --git a/internal/bus/bus.go b/internal/bus/bus.go
index 72461ae..8cffa42 100644
--- a/internal/bus/bus.go
+++ b/internal/bus/bus.go
@@ -21,6 +21,7 @@ type Bus struct {
 	// Commands
 	Terminate *topic.Topic[TerminateCommand]
 	// Queries
+	Head            *topic.Topic[HeadQuery]
 	HeadHeight      *topic.Topic[HeadHeightQuery]
 	PkhBalance      *topic.Topic[PkhBalanceQuery]
 	PkhUtxos        *topic.Topic[PkhUtxosQuery]
@@ -48,6 +49,7 @@ func NewBus() *Bus {
 		// Commands
 		Terminate: topic.NewTopic[TerminateCommand](),
 		// Queries
+		Head:            topic.NewTopic[HeadQuery](),
 		HeadHeight:      topic.NewTopic[HeadHeightQuery](),
 		PkhBalance:      topic.NewTopic[PkhBalanceQuery](),
 		PkhUtxos:        topic.NewTopic[PkhUtxosQuery](),
diff --git a/internal/bus/queries.go b/internal/bus/queries.go
index 393d882..b3acd0d 100644
--- a/internal/bus/queries.go
+++ b/internal/bus/queries.go
@@ -2,6 +2,11 @@ package bus
 
 import "github.com/levilutz/basiccoin/pkg/core"
 
+// A query for the current chain head.
+type HeadQuery struct {
+	Ret chan core.HashT
+}
+
 // A query for the current height of the chain head.
 type HeadHeightQuery struct {
 	Ret chan uint64
diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index 1e48994..e9b5788 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -20,6 +20,7 @@ type subscriptions struct {
 	CandidateTx   *topic.SubCh[bus.CandidateTxEvent]
 	PrintUpdate   *topic.SubCh[bus.PrintUpdateEvent]
 	// Queries
+	Head            *topic.SubCh[bus.HeadQuery]
 	HeadHeight      *topic.SubCh[bus.HeadHeightQuery]
 	PkhBalance      *topic.SubCh[bus.PkhBalanceQuery]
 	PkhUtxos        *topic.SubCh[bus.PkhUtxosQuery]
@@ -51,6 +52,7 @@ func NewChain(
 		CandidateHead:   msgBus.CandidateHead.SubCh(),
 		CandidateTx:     msgBus.CandidateTx.SubCh(),
 		PrintUpdate:     msgBus.PrintUpdate.SubCh(),
+		Head:            msgBus.Head.SubCh(),
 		HeadHeight:      msgBus.HeadHeight.SubCh(),
 		PkhBalance:      msgBus.PkhBalance.SubCh(),
 		PkhUtxos:        msgBus.PkhUtxos.SubCh(),
@@ -107,6 +109,9 @@ func (c *Chain) Loop() {
 		case <-c.subs.PrintUpdate.C:
 			fmt.Printf("chain height: %d\n", c.inv.GetBlockHeight(c.state.head))
 
+		case query := <-c.subs.Head.C:
+			util.WriteChIfPossible(query.Ret, c.state.head)
+
 		case query := <-c.subs.HeadHeight.C:
 			util.WriteChIfPossible(query.Ret, c.inv.GetBlockHeight(c.state.head))
 
diff --git a/internal/peer/peer.go b/internal/peer/peer.go
index 3a0987d..4b37a6e 100644
--- a/internal/peer/peer.go
+++ b/internal/peer/peer.go
@@ -44,6 +44,7 @@ type Peer struct {
 	conn        *prot.Conn
 	shouldClose bool
 	curHead     core.HashT
+	headRet     chan core.HashT
 }
 
 // Create a new peer given a message bus instance.
@@ -56,6 +57,9 @@ func NewPeer(msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn, curHead core.H
 		ValidatedHead:      msgBus.ValidatedHead.SubCh(),
 		ValidatedTx:        msgBus.ValidatedTx.SubCh(),
 	}
+	// The given head may be outdated by the time we're subscribed to new ones, so ask for it too
+	headRet := make(chan core.HashT, 1)
+	msgBus.Head.Pub(bus.HeadQuery{Ret: headRet})
 	return &Peer{
 		bus:         msgBus,
 		inv:         inv,
@@ -63,6 +67,7 @@ func NewPeer(msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn, curHead core.H
 		conn:        conn,
 		shouldClose: false,
 		curHead:     curHead,
+		headRet:     headRet,
 	}
 }
 
@@ -123,6 +128,13 @@ func (p *Peer) Loop() {
 			p.curHead = event.Head
 			p.issueCommandPrintErr(syncChainCmd, p.handleSyncChain)
 
+		case head := <-p.headRet:
+			p.headRet = nil // Only answered once
+			if p.inv.GetBlockTotalWork(p.curHead).Lt(p.inv.GetBlockTotalWork(head)) {
+				p.curHead = head
+				p.issueCommandPrintErr(syncChainCmd, p.handleSyncChain)
+			}
+
 		case event := <-p.subs.PrintUpdate.C:
 			if !event.Peer {
 				continue
-- 
2.43.0


From 10c1593413d05e861287bd21b3d6bf2755d2dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 18/29] fix: tell a peer that its chain failed verification

The error was formatted from a nil one, and a zero or tiny claimed target
was divided by before checking it was met: both panics ended the connection.
---
 internal/peer/sync.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index 05a9d79..8ce0bb0 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -139,7 +139,7 @@ func (p *Peer) handleInboundSyncChain() error {
 		if p.conn.HasErr() {
 			return p.conn.Err()
 		}
-		return fmt.Errorf("failed to verify received chain: %s", p.conn.Err().Error())
+		return fmt.Errorf("failed to verify received chain: %s", err.Error())
 	}
 	p.conn.WriteBool(true)
 	if p.conn.HasErr() {
@@ -217,6 +217,12 @@ func (p *Peer) quickVerifyChain(
 	if newBlocks[len(newBlocks)-1].PrevBlockId != lcaId {
 		return fmt.Errorf("does not attach to last common ancestor")
 	}
+	// Verify each block actually beats claimed target, before computing work from it
+	for _, block := range newBlocks {
+		if !block.Hash().Lt(block.Target) {
+			return fmt.Errorf("block does not beat claimed target")
+		}
+	}
 	// Verify claimed total work beats ours
 	newWork := p.inv.GetBlockTotalWork(lcaId)
 	for _, block := range newBlocks {
@@ -225,11 +231,5 @@ func (p *Peer) quickVerifyChain(
 	if !p.inv.GetBlockTotalWork(p.curHead).Lt(newWork) {
 		return fmt.Errorf("does not have higher proven work than our current chain")
 	}
-	// Verify each block actually beats claimed target
-	for _, block := range newBlocks {
-		if !block.Hash().Lt(block.Target) {
-			return fmt.Errorf("block does not beat claimed target")
-		}
-	}
 	return nil
 }
-- 
2.43.0


From 9feb72968acef56100054ba75e3fa08cc73ba1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 19/29] fix: close the connection when a peer ends

---
 internal/peer/peer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/peer/peer.go b/internal/peer/peer.go
index 4b37a6e..6051a43 100644
--- a/internal/peer/peer.go
+++ b/internal/peer/peer.go
@@ -81,6 +81,7 @@ func (p *Peer) Loop() {
 		} else {
 			fmt.Printf("peer %s closed\n", p.conn.PeerRuntimeId())
 		}
+		p.conn.Close()
 		p.subs.Close()
 		p.bus.PeerClosing.Pub(bus.PeerClosingEvent{
 			PeerRuntimeId: p.conn.PeerRuntimeId(),
-- 
2.43.0


From c037f022485a63001fa6ba95e957c21e07449be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 20/29] fix: shake hands with inbound peers concurrently

A silent client kept all others out for 30 seconds or more.
---
 internal/peerfactory/peerfactory.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 268af5e..d3832ea 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -211,13 +211,16 @@ func (pf *PeerFactory) listen() {
 		if err != nil {
 			continue
 		}
-		protParams := prot.NewParams(pf.params.RuntimeId, false, pf.params.DebugConns)
-		conn := prot.NewConn(protParams, tcpConn)
-		if conn.HasErr() {
-			conn.CloseIfPossible(nil)
-			continue
-		}
-		pf.newConns <- conn
+		// Handshake separately, so a slow or silent peer doesn't block the others
+		go func() {
+			protParams := prot.NewParams(pf.params.RuntimeId, false, pf.params.DebugConns)
+			conn := prot.NewConn(protParams, tcpConn)
+			if conn.HasErr() {
+				conn.CloseIfPossible(nil)
+				return
+			}
+			pf.newConns <- conn
+		}()
 	}
 }
 
-- 
2.43.0


From d7550609e3e6950feb155346ff6989e98d009a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 21/29] fix: don't keep the address of a peer that already
 closed

---
 internal/peerfactory/peerfactory.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index d3832ea..87d5612 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -121,7 +121,10 @@ func (pf *PeerFactory) Loop() {
 			pf.addConn(conn)
 
 		case event := <-pf.subs.PeerAnnouncedAddr.C:
-			pf.knownPeerAddrs[event.PeerRuntimeId] = event.Addr
+			// It may have closed before we handle this
+			if pf.knownPeers.Includes(event.PeerRuntimeId) {
+				pf.knownPeerAddrs[event.PeerRuntimeId] = event.Addr
+			}
 
 		case event := <-pf.subs.PeerClosing.C:
 			pf.knownPeers.Remove(event.PeerRuntimeId)
-- 
2.43.0


From 0cac5af321654db88730a8af5d7dd2595e35bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 22/29] fix: don't crash when discovering an IPv6 local address

---
 internal/peerfactory/peerfactory.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 87d5612..537fbbd 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -241,7 +241,9 @@ func (pf *PeerFactory) addConn(conn *prot.Conn) {
 		pf.knownPeers.Add(runtimeId)
 		// Set our localaddr and start listen if we only now can
 		if pf.params.Listen && pf.params.LocalAddr == "" {
-			pf.params.LocalAddr = conn.LocalAddr().IP.String() + ":21720"
+			localAddr := *conn.LocalAddr()
+			localAddr.Port = 21720
+			pf.params.LocalAddr = localAddr.String()
 			go pf.listen()
 		}
 		// Broadcast our localaddr to the peer if we want to listen
-- 
2.43.0


From 483d492af2b9856ad2fa75c8d0bcc982ff74424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 23/29] fix: save the wallet file atomically

---
 cmd/bcwallet/config.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/config.go b/cmd/bcwallet/config.go
index b80f79b..3f472af 100644
--- a/cmd/bcwallet/config.go
+++ b/cmd/bcwallet/config.go
@@ -7,8 +7,10 @@ import (
 	"os"
 	"os/user"
 	"path"
+	"path/filepath"
 
 	"github.com/levilutz/basiccoin/pkg/core"
+	"github.com/levilutz/basiccoin/pkg/util"
 )
 
 type KeyConfigJSON struct {
@@ -202,7 +204,13 @@ func (c *Config) Save() error {
 		return fmt.Errorf("config file is a directory: %s", getConfigPath(c.Dev))
 	}
 
-	return os.WriteFile(getConfigPath(c.Dev), rawConfig, 0600)
+	// Write to the actual file if our path is a link to it
+	configPath := getConfigPath(c.Dev)
+	if realPath, err := filepath.EvalSymlinks(configPath); err == nil {
+		configPath = realPath
+	}
+	// If interrupted, this must not cost us the keys we already had
+	return util.WriteFileAtomic(configPath, rawConfig, 0600)
 }
 
 func EnsureConfig(dev bool) {
-- 
2.43.0


From 4f14125587bcc5a3fff363d99f44242ec46f5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 24/29] fix: pay every amount sent to a repeated destination

---
 cmd/bcwallet/bcwallet.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index 8d4cc35..5638d1e 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -200,7 +200,11 @@ var commands = []Command{
 				if err != nil {
 					return err
 				}
-				dests[pkh] = val
+				// The same pkh may be given several times
+				if dests[pkh]+val < val {
+					return fmt.Errorf("total amount for %s overflows", pkh)
+				}
+				dests[pkh] += val
 			}
 
 			// Get current head height / min block
-- 
2.43.0


From e2122d69b471f1385c6d0107ea8ccf069aae0e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 25/29] fix: don't crash on 'dev' without a command

---
 cmd/bcwallet/cli.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/bcwallet/cli.go b/cmd/bcwallet/cli.go
index fd52508..c80fcbf 100644
--- a/cmd/bcwallet/cli.go
+++ b/cmd/bcwallet/cli.go
@@ -45,6 +45,10 @@ func Execute(commands []Command) {
 	var command string
 	var cmdArgs []string
 	if os.Args[1] == "dev" {
+		if len(os.Args) < 3 {
+			fmt.Println(yellowStr("must provide command"))
+			return
+		}
 		dev = true
 		command = os.Args[2]
 		cmdArgs = os.Args[3:]
-- 
2.43.0


From f26fa4cebb11da17fcec2cb80a4fdc069263ce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 26/29] fix: don't lose keys saved by another command meanwhile

---
 cmd/bcwallet/bcwallet.go   | 15 +++++++++------
 cmd/bcwallet/config.go     | 35 ++++++++++++++++++++++++++++++++++-
 cmd/bcwallet/lock_other.go | 10 ++++++++++
 cmd/bcwallet/lock_unix.go  | 13 +++++++++++++
 4 files changed, 66 insertions(+), 7 deletions(-)
 create mode 100644 cmd/bcwallet/lock_other.go
 create mode 100644 cmd/bcwallet/lock_unix.go

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index 5638d1e..d17a916 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -46,8 +46,9 @@ var commands = []Command{
 		Handler: func(ctx *HandlerContext) error {
 			newCfg := GetConfig(ctx.Args[0])
 			newCfg.VerifyKeys()
-			ctx.Config.AddKeys(newCfg.Keys...)
-			return ctx.Config.Save()
+			return ctx.Config.Update(func() {
+				ctx.Config.AddKeys(newCfg.Keys...)
+			})
 		},
 	},
 	{
@@ -61,8 +62,9 @@ var commands = []Command{
 			if err != nil {
 				return fmt.Errorf("failed to connect to client: " + err.Error())
 			}
-			ctx.Config.NodeAddr = ctx.Args[0]
-			return ctx.Config.Save()
+			return ctx.Config.Update(func() {
+				ctx.Config.NodeAddr = ctx.Args[0]
+			})
 		},
 	},
 	{
@@ -97,9 +99,10 @@ var commands = []Command{
 				}
 				kc = NewKeyConfig(priv)
 			}
-			ctx.Config.AddKeys(kc)
 			fmt.Println(kc.PublicKeyHash)
-			return ctx.Config.Save()
+			return ctx.Config.Update(func() {
+				ctx.Config.AddKeys(kc)
+			})
 		},
 	},
 	{
diff --git a/cmd/bcwallet/config.go b/cmd/bcwallet/config.go
index 3f472af..d145cb1 100644
--- a/cmd/bcwallet/config.go
+++ b/cmd/bcwallet/config.go
@@ -213,10 +213,43 @@ func (c *Config) Save() error {
 	return util.WriteFileAtomic(configPath, rawConfig, 0600)
 }
 
+// Run the given function while no other command may change the saved config.
+func withConfigLock(dev bool, fn func() error) error {
+	if err := os.MkdirAll(getConfigDir(), 0700); err != nil {
+		return err
+	}
+	f, err := os.OpenFile(getConfigPath(dev)+".lock", os.O_CREATE|os.O_RDWR, 0600)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	if err := lockFile(f); err != nil {
+		return err
+	}
+	return fn()
+}
+
+// Change and save the config.
+func (c *Config) Update(change func()) error {
+	return withConfigLock(c.Dev, func() error {
+		// Another command may have saved since we loaded the config
+		*c = *GetConfig(getConfigPath(c.Dev))
+		change()
+		return c.Save()
+	})
+}
+
 func EnsureConfig(dev bool) {
 	_, err := os.ReadFile(getConfigPath(dev))
 	if os.IsNotExist(err) {
-		err = NewConfig(getDefaultServer(dev), dev).Save()
+		err = withConfigLock(dev, func() error {
+			// Another command may have just created it
+			_, err := os.ReadFile(getConfigPath(dev))
+			if os.IsNotExist(err) {
+				return NewConfig(getDefaultServer(dev), dev).Save()
+			}
+			return err
+		})
 	}
 	if err != nil {
 		panic("failed to save config: " + err.Error())
diff --git a/cmd/bcwallet/lock_other.go b/cmd/bcwallet/lock_other.go
new file mode 100644
index 0000000..4d69480
--- /dev/null
+++ b/cmd/bcwallet/lock_other.go
@@ -0,0 +1,10 @@
+//go:build !unix
+
+package main
+
+import "os"
+
+// File locks are not available here.
+func lockFile(f *os.File) error {
+	return nil
+}
diff --git a/cmd/bcwallet/lock_unix.go b/cmd/bcwallet/lock_unix.go
new file mode 100644
index 0000000..5fc0b64
--- /dev/null
+++ b/cmd/bcwallet/lock_unix.go
@@ -0,0 +1,13 @@
+//go:build unix
+
+package main
+
+import (
+	"os"
+	"syscall"
+)
+
+// Wait to hold the given file exclusively, until it's closed.
+func lockFile(f *os.File) error {
+	return syscall.Flock(int(f.Fd()), syscall.LOCK_EX)
+}
-- 
2.43.0


From cca227f514333aa3fb981760bcd4f1b48600d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 27/29] fix: save a generated key before showing its address

---
 cmd/bcwallet/bcwallet.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index d17a916..403d30e 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -99,10 +99,14 @@ var commands = []Command{
 				}
 				kc = NewKeyConfig(priv)
 			}
-			fmt.Println(kc.PublicKeyHash)
-			return ctx.Config.Update(func() {
+			// Only give out the address once we can't lose its key
+			if err := ctx.Config.Update(func() {
 				ctx.Config.AddKeys(kc)
-			})
+			}); err != nil {
+				return err
+			}
+			fmt.Println(kc.PublicKeyHash)
+			return nil
 		},
 	},
 	{
-- 
2.43.0


From 15b36c40ce16480f68e5479b35d1390593cd7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 28/29] fix: don't read a failed connection's error while it is
 closed in the background

---
 internal/peerfactory/peerfactory.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 537fbbd..3fcf784 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -180,8 +180,9 @@ func (pf *PeerFactory) tryConn(addr string) (*prot.Conn, error) {
 	if err != nil {
 		return nil, err
 	} else if conn.HasErr() {
+		err := conn.Err() // Not once it's being closed in the background
 		conn.CloseIfPossible(nil)
-		return nil, conn.Err()
+		return nil, err
 	}
 	return conn, nil
 }
-- 
2.43.0


From 5d9033f1af42cefda1c1dffced09d051b989e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 29/29] fix: compute a transaction's fee rate without losing
 precision on large values

---
 pkg/core/transaction.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/core/transaction.go b/pkg/core/transaction.go
index 55f01ed..f60e97a 100644
--- a/pkg/core/transaction.go
+++ b/pkg/core/transaction.go
@@ -93,8 +93,12 @@ func (tx Tx) VSize() uint64 {
 }
 
 func (tx Tx) Rate() float64 {
-	// Float inputs and outputs separately so we don't uint underflow
-	return (float64(tx.InputsValue()) - float64(tx.OutputsValue())) / float64(tx.VSize())
+	// Subtract before converting so we don't lose precision, but don't uint underflow
+	inputs, outputs := tx.InputsValue(), tx.OutputsValue()
+	if outputs > inputs {
+		return -float64(outputs-inputs) / float64(tx.VSize())
+	}
+	return float64(inputs-outputs) / float64(tx.VSize())
 }
 
 // What fees would be paid at the given fee rate.
-- 
2.43.0

