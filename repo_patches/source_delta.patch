From 8fd760aaee724176dd5f194008ab91898005065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 01/32] fix: median of an even number of values overflowed for
 large values

---
 utils/math.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/math.go b/utils/math.go
index 10f991f..cc8e503 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -17,7 +17,8 @@ func MedianSlice(sl []uint64) uint64 {
 
 	n := l / 2
 	if l%2 == 0 {
-		return (sl[n-1] + sl[n]) / 2
+		// sl is sorted: this is (a+b)/2 without the overflow of the sum
+		return sl[n-1] + (sl[n]-sl[n-1])/2
 	} else {
 		return sl[n]
 	}
-- 
2.43.0


From 12fe944f4553cbfc5d92e78f7c4c76dddfff2989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:06 +0000
Subject: [PATCH 02/32] fix: a day has 24 hours in the expected number of
 blocks per day

---
 config/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/params.go b/config/params.go
index 519af10..f8477d2 100644
--- a/config/params.go
+++ b/config/params.go
@@ -67,7 +67,7 @@ const (
 	MaxExtraSize = 1024
 
 	difficultyTarget             = 240
-	expectedNumberOfBlocksPerDay = (25 * 60 * 60) / difficultyTarget
+	expectedNumberOfBlocksPerDay = (24 * 60 * 60) / difficultyTarget
 
 	difficultyWindow  = expectedNumberOfBlocksPerDay
 	difficultyWindow2 = 17
-- 
2.43.0


From 26f1eb2effeee975447d6e15422c5b5e10868d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:13 +0000
Subject: [PATCH 03/32] fix: block version did not depend on height alone but
 on map iteration order

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index fd0825f..a050afd 100644
--- a/config/network.go
+++ b/config/network.go
@@ -148,7 +148,7 @@ func (n *Network) GetBlockMajorVersion(blockIndex uint32) byte {
 	version := BlockMajorVersion1
 
 	for majorVersion, upgradeHeight := range n.blockUpgradesMap {
-		if blockIndex > upgradeHeight {
+		if blockIndex > upgradeHeight && majorVersion > version {
 			version = majorVersion
 		}
 	}
-- 
2.43.0


From 2077b8204f0074d95659aee801951f7c5b8d3743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 04/32] fix: fee for extra data fell with its size

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index a050afd..5e55b10 100644
--- a/config/network.go
+++ b/config/network.go
@@ -273,7 +273,7 @@ func (n *Network) MinimalFeeValidator(height uint32) uint64 {
 
 func (n *Network) GetFeePerByte(txExtraSize uint64, minFee uint64) uint64 {
 	if txExtraSize > 100 {
-		return minFee / (100 * (txExtraSize - 100))
+		return minFee / 100 * (txExtraSize - 100)
 	}
 
 	return 0
-- 
2.43.0


From 8e5adb4d357a636f4f0f36f14823ea32dd787740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:33 +0000
Subject: [PATCH 05/32] fix: version 5 difficulty used the total instead of the
 average difficulty

---
 config/network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index 5e55b10..f48891d 100644
--- a/config/network.go
+++ b/config/network.go
@@ -395,7 +395,7 @@ func (n *Network) nextDifficultyV5(height uint32, majorVersion byte, timestamps
 	}
 
 	nextD := int64(0)
-	avgD := int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])/N
+	avgD := (int64(cumulativeDifficulties[N]) - int64(cumulativeDifficulties[0])) / N
 
 	// Prevent round off error for small D and overflow for large D.
 	if avgD > 2000000*N*N*T {
-- 
2.43.0


From 2f1ae8fa999d961274f4ec5c67f60151767cda62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:38 +0000
Subject: [PATCH 06/32] fix: version 4 difficulty grew with the solve times
 instead of shrinking

---
 config/network.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/network.go b/config/network.go
index f48891d..4a03047 100644
--- a/config/network.go
+++ b/config/network.go
@@ -475,7 +475,12 @@ func (n *Network) nextDifficultyV4(height uint32, timestamps []uint64, cumulativ
 		}
 	}
 
-	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N * 1) / 2 * L
+	// The weighted solve times may cancel each other out
+	if L == 0 {
+		L = 1
+	}
+
+	nextD := int64(cumulativeDifficulties[N]-cumulativeDifficulties[0]) * T * (N + 1) / (2 * L)
 	nextD = (nextD * 99) / 100
 
 	prevD := int64(cumulativeDifficulties[N] - cumulativeDifficulties[N-1])
-- 
2.43.0


From a362f1dd3c6a4a4cae1288d0f66f658fb063b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 07/32] fix: version 3 difficulty ignored the weights and
 panicked on a longer window

---
 config/network.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/network.go b/config/network.go
index 4a03047..9873646 100644
--- a/config/network.go
+++ b/config/network.go
@@ -522,8 +522,8 @@ func (n *Network) nextDifficultyV3(timestamps []uint64, cumulativeDifficulties [
 	}
 
 	if len(timestamps) > N+1 {
-		timestamps = timestamps[N-1:]
-		cumulativeDifficulties = cumulativeDifficulties[N-1:]
+		timestamps = timestamps[:N+1]
+		cumulativeDifficulties = cumulativeDifficulties[:N+1]
 	}
 
 	// To get an average solvetime to within +/- ~0.1%, use an adjustment factor.
@@ -543,7 +543,7 @@ func (n *Network) nextDifficultyV3(timestamps []uint64, cumulativeDifficulties [
 		solveTime = int64(timestamps[i]) - int64(timestamps[i-1])
 		solveTime = utils.MinInt64(T*7, utils.MaxInt64(solveTime, -6*T))
 		difficulty = int64(cumulativeDifficulties[i]) - int64(cumulativeDifficulties[i-1])
-		LWMA += float64(solveTime*1) / k
+		LWMA += float64(solveTime*int64(i)) / k
 		sumInverseD += 1 / float64(difficulty)
 	}
 
-- 
2.43.0


From 7d207e5be24410e9f7ee4a3d9f20a28058e5aa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:18 +0000
Subject: [PATCH 08/32] fix: asking for an alternative block deeper than the
 unlock window deadlocked

---
 config/checkpoints.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/config/checkpoints.go b/config/checkpoints.go
index 5d336cd..76685ca 100644
--- a/config/checkpoints.go
+++ b/config/checkpoints.go
@@ -76,6 +76,11 @@ func (cp *checkpoints) IsInCheckpointZone(index uint32) bool {
 	cp.Lock()
 	defer cp.Unlock()
 
+	return cp.isInCheckpointZone(index)
+}
+
+// isInCheckpointZone expects the lock to be held
+func (cp *checkpoints) isInCheckpointZone(index uint32) bool {
 	// No checkpoints added
 	if len(cp.pointsSorted) == 0 {
 		return false
@@ -120,7 +125,7 @@ func (cp *checkpoints) AlternativeBlockAllowed(bcSize uint32, index uint32) erro
 	}
 
 	uw := MinedMoneyUnlockWindow
-	if index < bcSize-uw && bcSize > uw && !cp.IsInCheckpointZone(index) {
+	if index < bcSize-uw && bcSize > uw && !cp.isInCheckpointZone(index) {
 		err := ErrCheckpointsTooDeepReorg
 		logger.Error(err)
 		return err
-- 
2.43.0


From 49126cca4fe33b7e43ced1470e73f8d9b9d009c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:20 +0000
Subject: [PATCH 09/32] fix: memory storage could not store any block: the
 index by hash was never created

---
 cryptonote/storage_memory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index d0cdd84..115212d 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -34,6 +34,7 @@ func NewMemoryStorage() Storage {
 	return &memoryStorage{
 		blockIndex:                            map[uint32]*Block{},
 		blockInfosIndex:                       map[uint32]*blockInfo{},
+		blockInfosHashIndex:                   map[crypto.Hash]*blockInfo{},
 		transactionsIndex:                     map[uint32]*[]Transaction{},
 		spentKeysImagesIndex:                  map[uint32]*[]crypto.KeyImage{},
 		spentMultisignatureGlobalIndexesIndex: map[uint32]*[]MultisigAmountGlobalOutputIndexPair{},
-- 
2.43.0


From 0b3f967f56070c8e75a747fca2862a7c8c8527d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 10/32] fix: TopIndex of the memory storage released the wrong
 lock

---
 cryptonote/storage_memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 115212d..84b3b68 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -56,7 +56,7 @@ func (s *memoryStorage) Init(genesisBlock *Block) error {
 func (s *memoryStorage) TopIndex() (uint32, error) {
 	s.RLock()
 	index := s.topBlock.Index()
-	s.Unlock()
+	s.RUnlock()
 	return index, nil
 }
 
-- 
2.43.0


From cf65abb74bc9d9bdfd88bc32fd5c97e00e87c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:29 +0000
Subject: [PATCH 11/32] fix: memory storage rejected the genesis block at
 initialisation

---
 cryptonote/storage_memory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cryptonote/storage_memory.go b/cryptonote/storage_memory.go
index 84b3b68..3a444c1 100644
--- a/cryptonote/storage_memory.go
+++ b/cryptonote/storage_memory.go
@@ -44,6 +44,7 @@ func NewMemoryStorage() Storage {
 func (s *memoryStorage) Init(genesisBlock *Block) error {
 	info := blockInfo{
 		Index:                0,
+		Hash:                 *genesisBlock.Hash(),
 		CumulativeDifficulty: 1,
 		Size:                 genesisBlock.BaseTransaction.Size(),
 		TotalGeneratedCoins:  genesisBlock.BaseTransaction.Outputs[0].Amount,
-- 
2.43.0


From 20f3466c21036142514dc7752317f947d8cac3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 12/32] fix: fusion transactions were accepted with any outputs
 of the expected number

---
 cryptonote/transaction_validator.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index f71626e..4953041 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -7,6 +7,7 @@ import (
 	"github.com/r3volut1oner/go-karbo/utils"
 	log "github.com/sirupsen/logrus"
 	"math"
+	"sort"
 )
 
 type blockTransactionsValidator struct {
@@ -547,12 +548,11 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 	}
 
 	expectedOutputsAmount := validator.bc.DecomposeAmount(inputAmount, dustThreshold)
-	// Why do we need sorting here?
-	//sort.Slice(expectedOutputsAmount, func(i, j int) bool {
-	//	return expectedOutputsAmount[i] < expectedOutputsAmount[j]
-	//})
+	sort.Slice(expectedOutputsAmount, func(i, j int) bool {
+		return expectedOutputsAmount[i] < expectedOutputsAmount[j]
+	})
 
-	if len(expectedOutputsAmount) != len(outputsAmounts) {
+	if !equalAmounts(expectedOutputsAmount, outputsAmounts) {
 		logger := validator.logger.WithFields(log.Fields{
 			"expected_outputs_amount_len": len(expectedOutputsAmount),
 			"input_amounts_len":           len(outputsAmounts),
@@ -566,6 +566,20 @@ func (validator *blockTransactionsValidator) IsFusionTransaction(transaction *Tr
 	return true
 }
 
+func equalAmounts(a, b []uint64) bool {
+	if len(a) != len(b) {
+		return false
+	}
+
+	for i := range a {
+		if a[i] != b[i] {
+			return false
+		}
+	}
+
+	return true
+}
+
 func countMixin(transaction *Transaction) int {
 	mixin := 0
 	for _, input := range transaction.Inputs {
-- 
2.43.0


From 8389a669225775e78629b4c71c2ee0e0eddc0057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 13/32] fix: counting the mixin skipped key inputs and panicked
 on the others

---
 cryptonote/transaction_validator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index 4953041..8016d89 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -583,11 +583,12 @@ func equalAmounts(a, b []uint64) bool {
 func countMixin(transaction *Transaction) int {
 	mixin := 0
 	for _, input := range transaction.Inputs {
-		if _, ok := input.(InputKey); ok {
+		inputKey, ok := input.(InputKey)
+		if !ok {
 			continue
 		}
 
-		curMixin := len(input.(InputKey).OutputIndexes)
+		curMixin := len(inputKey.OutputIndexes)
 		if curMixin > mixin {
 			mixin = curMixin
 		}
-- 
2.43.0


From eeb80ed74640c5e9fb749ae2a34ef794234837f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 14/32] fix: multisignature outputs with 256 keys or more were
 refused

---
 cryptonote/transaction_validator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index 8016d89..422efab 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -262,7 +262,7 @@ func (validator *blockTransactionsValidator) validateOutputs(transaction *Transa
 		case OutputMultisignature:
 			outputTarget := output.Target.(OutputMultisignature)
 
-			if outputTarget.RequiredSignaturesCount > byte(len(outputTarget.Keys)) {
+			if int(outputTarget.RequiredSignaturesCount) > len(outputTarget.Keys) {
 				err := ErrTransactionOutputInvalidRequiredSignaturesCount
 				logger.Error(err)
 				return 0, err
-- 
2.43.0


From 0717de83109b82fa312928fdc0d6264e7d5acbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 15/32] fix: an input could name the same output twice, and
 inputs with equal offsets were refused

---
 cryptonote/transaction_validator.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index 422efab..ac6d09f 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
-	"github.com/r3volut1oner/go-karbo/utils"
 	log "github.com/sirupsen/logrus"
 	"math"
 	"sort"
@@ -156,10 +155,12 @@ func (validator *blockTransactionsValidator) validateInputs(transaction *Transac
 				}
 			}
 
-			if !utils.SliceIsUniqueUint32(&input.OutputIndexes) {
-				err := ErrTransactionInputIdenticalOutputIndexes
-				logger.Error(err)
-				return 0, err
+			for _, offset := range input.OutputIndexes[1:] {
+				if offset == 0 {
+					err := ErrTransactionInputIdenticalOutputIndexes
+					logger.Error(err)
+					return 0, err
+				}
 			}
 
 			if _, ok := validator.spentKeyImages[input.KeyImage]; ok {
-- 
2.43.0


From 2647859fde3ea71bdc97b4edd0befd0b7dad15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 16/32] fix: a transaction with fewer signature lists than
 inputs panicked in validation

---
 cryptonote/transaction_validator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptonote/transaction_validator.go b/cryptonote/transaction_validator.go
index ac6d09f..ba14760 100644
--- a/cryptonote/transaction_validator.go
+++ b/cryptonote/transaction_validator.go
@@ -444,6 +444,12 @@ func (validator *blockTransactionsValidator) validateTransactionInputExpensive(t
 				return err
 			}
 
+			if inputIndex >= len(transaction.TransactionSignatures) {
+				err := ErrTransactionInputInvalidSignaturesCount
+				logger.Error(err)
+				return err
+			}
+
 			sigs := transaction.TransactionSignatures[inputIndex]
 
 			if len(outputKeys) != len(sigs) {
-- 
2.43.0


From 38fcd7b91b6ccfe6fce39b20e1ecf4744e1adbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 17/32] fix: a transaction claiming more inputs, outputs or
 extra bytes than it has panicked or exhausted memory

---
 cryptonote/transaction.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 8979ab7..0e78d3e 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"io"
 )
 
 const (
@@ -231,10 +232,13 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Inputs
 	 */
 	inputsLen, err := binary.ReadUvarint(br)
-	tp.Inputs = make([]TransactionInput, inputsLen)
 	if err != nil {
 		return err
 	}
+	if inputsLen > uint64(br.Len()) {
+		return io.ErrUnexpectedEOF
+	}
+	tp.Inputs = make([]TransactionInput, inputsLen)
 
 	for inputIndex := uint64(0); inputIndex < inputsLen; inputIndex++ {
 		var tag byte
@@ -294,10 +298,13 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	 * Read transaction Output
 	 */
 	outputLen, err := binary.ReadUvarint(br)
-	tp.Outputs = make([]TransactionOutput, outputLen)
 	if err != nil {
 		return err
 	}
+	if outputLen > uint64(br.Len()) {
+		return io.ErrUnexpectedEOF
+	}
+	tp.Outputs = make([]TransactionOutput, outputLen)
 
 	for outputIndex := uint64(0); outputIndex < outputLen; outputIndex++ {
 		amount, err := binary.ReadUvarint(br)
@@ -336,6 +343,9 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if extraLen > uint64(br.Len()) {
+		return io.ErrUnexpectedEOF
+	}
 
 	tp.Extra = make([]byte, extraLen)
 	if err := binary.Read(br, binary.LittleEndian, &tp.Extra); err != nil {
-- 
2.43.0


From a77cc2ded9e7e8a2a0b640e9af7f6bf25e1cffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 18/32] fix: numbers too large for their field were truncated
 when decoding a transaction

---
 cryptonote/transaction.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index 0e78d3e..c53e9c8 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"io"
+	"math"
 )
 
 const (
@@ -218,6 +219,9 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if version > math.MaxUint8 {
+		return errors.New("transaction version is out of range")
+	}
 	tp.Version = byte(version)
 
 	/**
@@ -253,6 +257,10 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 				return err
 			}
 
+			if blockIndex > math.MaxUint32 {
+				return errors.New("block index is out of range")
+			}
+
 			tp.Inputs[inputIndex] = InputCoinbase{uint32(blockIndex)}
 		case TxTagKey:
 			var OutputIndexes []uint32
@@ -274,6 +282,10 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 					return err
 				}
 
+				if oi > math.MaxUint32 {
+					return errors.New("output index is out of range")
+				}
+
 				OutputIndexes = append(OutputIndexes, uint32(oi))
 			}
 
-- 
2.43.0


From 59783af4a0134ee1bc0b41c616f8bf80c365b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 19/32] fix: signatures after an input without signatures were
 attached to the wrong input

---
 cryptonote/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index c53e9c8..ada6d28 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -402,7 +402,7 @@ func (ts *TransactionSignatures) deserialize(br *bytes.Reader, t *Transaction) e
 			return errors.New("unexpected signatures")
 		}
 
-		if sigSize == 0 {
+		if signaturesNotExpected {
 			continue
 		}
 
-- 
2.43.0


From 9c28aa450e8bbec57e940be35064a47331a8037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 20/32] fix: truncated blocks were accepted and block versions
 truncated when decoding

---
 cryptonote/block.go        |  9 +++++++--
 cryptonote/block_parent.go | 11 ++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 032779d..c4b2bfd 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"github.com/r3volut1oner/go-karbo/config"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 	"unsafe"
 )
 
@@ -227,12 +228,16 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(reader)
 	if err != nil {
-		return nil
+		return err
+	}
+
+	if majorVersion > math.MaxUint8 || minorVersion > math.MaxUint8 {
+		return errors.New("block version is out of range")
 	}
 
 	switch uint8(majorVersion) {
diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index 656e72b..8a58f57 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
+	"math"
 )
 
 type ParentBlock struct {
@@ -68,17 +69,17 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 
 	majorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	minorVersion, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	timestamp, err := binary.ReadUvarint(r)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	if err := prev.Read(r); err != nil {
@@ -94,6 +95,10 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 		return err
 	}
 
+	if majorVersion > math.MaxUint8 || minorVersion > math.MaxUint8 || txCount > math.MaxUint16 {
+		return errors.New("parent block number is out of range")
+	}
+
 	var baseTxBranch crypto.HashList
 	branchSize := treeDepth(int(txCount))
 	for i := 0; i < branchSize; i++ {
-- 
2.43.0


From 459ec19126f2c327d0fb712140f9532be49be0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 21/32] fix: headers of version 5 blocks could not be encoded
 or decoded

---
 cryptonote/block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index c4b2bfd..2ebf65d 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -245,7 +245,7 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 		if err := prev.Read(reader); err != nil {
 			return err
 		}
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		ts, err = binary.ReadUvarint(reader)
 		if err != nil {
 			return err
@@ -290,7 +290,7 @@ func (h *BlockHeader) serialize() []byte {
 	switch h.MajorVersion {
 	case config.BlockMajorVersion2, config.BlockMajorVersion3:
 		serialized.Write(h.PreviousBlockHash[:])
-	case config.BlockMajorVersion1, config.BlockMajorVersion4:
+	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
 		written = binary.PutUvarint(buf, h.Timestamp)
 		serialized.Write(buf[:written])
 		serialized.Write(h.PreviousBlockHash[:])
-- 
2.43.0


From 84de3b8a2ab6a36962aa77aa514fec59f630c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:27 +0000
Subject: [PATCH 22/32] fix: numbers were accepted in encodings longer than
 needed, so a transaction or block had many encodings

---
 cryptonote/block.go        |  8 ++++----
 cryptonote/block_parent.go |  8 ++++----
 cryptonote/transaction.go  | 22 +++++++++++-----------
 cryptonote/utils.go        | 24 ++++++++++++++++++++++++
 4 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/cryptonote/block.go b/cryptonote/block.go
index 2ebf65d..c1aeeb3 100644
--- a/cryptonote/block.go
+++ b/cryptonote/block.go
@@ -146,7 +146,7 @@ func (b *Block) Deserialize(r *bytes.Reader) error {
 		return err
 	}
 
-	hashesCount, err := binary.ReadUvarint(r)
+	hashesCount, err := readUvarint(r)
 	if err != nil {
 		return err
 	}
@@ -226,12 +226,12 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 	var ts uint64
 	var nonce uint32
 
-	majorVersion, err := binary.ReadUvarint(reader)
+	majorVersion, err := readUvarint(reader)
 	if err != nil {
 		return err
 	}
 
-	minorVersion, err := binary.ReadUvarint(reader)
+	minorVersion, err := readUvarint(reader)
 	if err != nil {
 		return err
 	}
@@ -246,7 +246,7 @@ func (h *BlockHeader) deserialize(reader *bytes.Reader) error {
 			return err
 		}
 	case config.BlockMajorVersion1, config.BlockMajorVersion4, config.BlockMajorVersion5:
-		ts, err = binary.ReadUvarint(reader)
+		ts, err = readUvarint(reader)
 		if err != nil {
 			return err
 		}
diff --git a/cryptonote/block_parent.go b/cryptonote/block_parent.go
index 8a58f57..b3bd45b 100644
--- a/cryptonote/block_parent.go
+++ b/cryptonote/block_parent.go
@@ -67,17 +67,17 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 	var prev crypto.Hash
 	var nonce uint32
 
-	majorVersion, err := binary.ReadUvarint(r)
+	majorVersion, err := readUvarint(r)
 	if err != nil {
 		return err
 	}
 
-	minorVersion, err := binary.ReadUvarint(r)
+	minorVersion, err := readUvarint(r)
 	if err != nil {
 		return err
 	}
 
-	timestamp, err := binary.ReadUvarint(r)
+	timestamp, err := readUvarint(r)
 	if err != nil {
 		return err
 	}
@@ -90,7 +90,7 @@ func (pb *ParentBlock) deserialize(r *bytes.Reader) error {
 		return err
 	}
 
-	txCount, err := binary.ReadUvarint(r)
+	txCount, err := readUvarint(r)
 	if err != nil {
 		return err
 	}
diff --git a/cryptonote/transaction.go b/cryptonote/transaction.go
index ada6d28..ed48307 100644
--- a/cryptonote/transaction.go
+++ b/cryptonote/transaction.go
@@ -215,7 +215,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction version
 	 */
-	version, err := binary.ReadUvarint(br)
+	version, err := readUvarint(br)
 	if err != nil {
 		return err
 	}
@@ -227,7 +227,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction UnlockHeight
 	 */
-	tp.UnlockHeight, err = binary.ReadUvarint(br)
+	tp.UnlockHeight, err = readUvarint(br)
 	if err != nil {
 		return err
 	}
@@ -235,7 +235,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction Inputs
 	 */
-	inputsLen, err := binary.ReadUvarint(br)
+	inputsLen, err := readUvarint(br)
 	if err != nil {
 		return err
 	}
@@ -252,7 +252,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 
 		switch tag {
 		case TxTagCoinbase:
-			blockIndex, err := binary.ReadUvarint(br)
+			blockIndex, err := readUvarint(br)
 			if err != nil {
 				return err
 			}
@@ -266,18 +266,18 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 			var OutputIndexes []uint32
 			var Key crypto.KeyImage
 
-			amount, err := binary.ReadUvarint(br)
+			amount, err := readUvarint(br)
 			if err != nil {
 				return err
 			}
 
-			size, err := binary.ReadUvarint(br)
+			size, err := readUvarint(br)
 			if err != nil {
 				return err
 			}
 
 			for i := uint64(0); i < size; i++ {
-				oi, err := binary.ReadUvarint(br)
+				oi, err := readUvarint(br)
 				if err != nil {
 					return err
 				}
@@ -309,7 +309,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction Output
 	 */
-	outputLen, err := binary.ReadUvarint(br)
+	outputLen, err := readUvarint(br)
 	if err != nil {
 		return err
 	}
@@ -319,12 +319,12 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	tp.Outputs = make([]TransactionOutput, outputLen)
 
 	for outputIndex := uint64(0); outputIndex < outputLen; outputIndex++ {
-		amount, err := binary.ReadUvarint(br)
+		amount, err := readUvarint(br)
 		if err != nil {
 			return err
 		}
 
-		tag, err := binary.ReadUvarint(br)
+		tag, err := readUvarint(br)
 		if err != nil {
 			return err
 		}
@@ -351,7 +351,7 @@ func (tp *TransactionPrefix) deserialize(br *bytes.Reader) error {
 	/**
 	 * Read transaction Extra
 	 */
-	extraLen, err := binary.ReadUvarint(br)
+	extraLen, err := readUvarint(br)
 	if err != nil {
 		return err
 	}
diff --git a/cryptonote/utils.go b/cryptonote/utils.go
index 7b120fb..e82cc19 100644
--- a/cryptonote/utils.go
+++ b/cryptonote/utils.go
@@ -1,5 +1,29 @@
 package cryptonote
 
+import (
+	"bytes"
+	"encoding/binary"
+	"errors"
+)
+
+// readUvarint reads a number in its shortest encoding, the only one allowed:
+// otherwise the same transaction or block would have many encodings.
+func readUvarint(r *bytes.Reader) (uint64, error) {
+	size := r.Len()
+
+	n, err := binary.ReadUvarint(r)
+	if err != nil {
+		return 0, err
+	}
+
+	var buf [binary.MaxVarintLen64]byte
+	if size-r.Len() != binary.PutUvarint(buf[:], n) {
+		return 0, errors.New("number is not in its shortest encoding")
+	}
+
+	return n, nil
+}
+
 func DecomposeAmountIntoDigits(amount, dustThreshold uint64) ([]uint64, []uint64) {
 	var dusts []uint64
 	var chunks []uint64
-- 
2.43.0


From fc29df5ee753f20a57e837a320e5927a89ffc8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:29 +0000
Subject: [PATCH 23/32] fix: a huge nonce size in the transaction extra
 panicked

---
 cryptonote/transaction_extra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/transaction_extra.go b/cryptonote/transaction_extra.go
index 3892d72..4200949 100644
--- a/cryptonote/transaction_extra.go
+++ b/cryptonote/transaction_extra.go
@@ -86,7 +86,7 @@ func TxExtraFromBytes(b []byte) (*TransactionExtraFields, error) {
 			if err != nil {
 				return nil, err
 			}
-			if int(size) > TxExtraNonceMax {
+			if size > uint64(TxExtraNonceMax) {
 				return nil, ErrNonceMax
 			}
 
-- 
2.43.0


From 1e0fa1c161729ec345b2c57cdfa787a0c759252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 24/32] fix: take the whole window of block sizes and
 cumulative difficulties

---
 cryptonote/chain.go      | 1 -
 cryptonote/difficulty.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index b156932..4783118 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -600,7 +600,6 @@ func (bc *BlockChain) lastBLockSizes(count uint32, index uint32) []uint64 {
 
 		sizes = append(sizes, tempInfo.Size)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(sizes)
diff --git a/cryptonote/difficulty.go b/cryptonote/difficulty.go
index d4d5355..ee1690c 100644
--- a/cryptonote/difficulty.go
+++ b/cryptonote/difficulty.go
@@ -36,7 +36,6 @@ func (bc *BlockChain) lastBlocksCumulativeDifficulties(count uint32, index uint3
 
 		difficulties = append(difficulties, tempInfo.CumulativeDifficulty)
 		tempInfo = bc.storage.getBlockInfoAtIndex(index - i)
-		count--
 	}
 
 	return utils.SliceReverse(difficulties)
-- 
2.43.0


From 77297d18931448b61f0d8119e6ca2c09d21df3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 25/32] fix: compare a block's timestamp with the blocks before
 it

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 4783118..9e686f4 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -380,7 +380,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 	}
 
 	timestampCheckWindow := bc.Network.BlockTimestampCheckWindow(block.MajorVersion)
-	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, block, true)
+	lastTimestamps := bc.lastBlocksTimestamps(timestampCheckWindow, prevBlock, true)
 	if uint32(len(lastTimestamps)) >= timestampCheckWindow {
 		if block.Timestamp < utils.MedianSlice(lastTimestamps) {
 			err := ErrBlockValidationTimestampTooFarInPast
-- 
2.43.0


From c42f878ff5e9d1bfc86bc7b3e585293383622a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 26/32] fix: compare the whole unlock height of a coinbase
 transaction

---
 cryptonote/chain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 9e686f4..62cdad8 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -408,7 +408,7 @@ func (bc *BlockChain) validateBlock(blogger *log.Entry, block *Block, prevBlock
 		return 0, err
 	}
 
-	if uint32(block.BaseTransaction.UnlockHeight) != prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow() {
+	if block.BaseTransaction.UnlockHeight != uint64(prevBlockIndex+1+bc.Network.MinedMoneyUnlockWindow()) {
 		err := ErrTransactionWrongUnlockTime
 		blogger.Error(err)
 		return 0, err
-- 
2.43.0


From a3ffde77dcde40459a660b026b589c6aaec556fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 27/32] fix: transactions of a block were accepted with
 trailing bytes that nothing commits to

---
 cryptonote/chain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptonote/chain.go b/cryptonote/chain.go
index 62cdad8..a3f5d44 100644
--- a/cryptonote/chain.go
+++ b/cryptonote/chain.go
@@ -560,6 +560,12 @@ func (bc *BlockChain) deserializeTransactions(blogger *log.Entry, rt [][]byte) (
 			return nil, 0, ErrAddBlockTransactionDeserialization
 		}
 
+		// The bytes must be the transaction and nothing else, nothing commits to the rest
+		if r.Len() > 0 {
+			tsLogger.Error(ErrAddBlockTransactionDeserialization)
+			return nil, 0, ErrAddBlockTransactionDeserialization
+		}
+
 		transactionsSize += tsSize
 	}
 
-- 
2.43.0


From 42cc17fe63f13702747b46d740813569a566eb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:28 +0000
Subject: [PATCH 28/32] fix: a packet ending in an empty value was refused, and
 sizes chosen by the peer could crash the node

---
 encoding/binary/binary.go |  8 +++++++-
 encoding/binary/decode.go | 26 ++++++++++++++++++--------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/encoding/binary/binary.go b/encoding/binary/binary.go
index 101918b..97ddea4 100644
--- a/encoding/binary/binary.go
+++ b/encoding/binary/binary.go
@@ -3,6 +3,7 @@ package binary
 import (
 	"bytes"
 	"errors"
+	"io"
 	"reflect"
 )
 
@@ -30,7 +31,7 @@ func Unmarshal(b []byte, v interface{}) error {
 
 	var headBytes [headSize]byte
 	var headBlock storageBlockHeader
-	if _, err := reader.Read(headBytes[:]); err != nil {
+	if _, err := io.ReadFull(reader, headBytes[:]); err != nil {
 		return err
 	}
 
@@ -42,6 +43,11 @@ func Unmarshal(b []byte, v interface{}) error {
 		return errors.New("head block doesn't match")
 	}
 
+	// Nothing after the head means there are no fields.
+	if reader.Len() == 0 {
+		return nil
+	}
+
 	decoder := NewDecoder(reader)
 
 	return decoder.decode(v)
diff --git a/encoding/binary/decode.go b/encoding/binary/decode.go
index 04776f7..d6ae114 100644
--- a/encoding/binary/decode.go
+++ b/encoding/binary/decode.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"reflect"
 )
 
@@ -26,8 +27,8 @@ func (d *Decoder) decode(v interface{}) error {
 	}
 
 	size, err := d.readVarInt()
-	if err == io.EOF {
-		return nil
+	if err != nil {
+		return err
 	}
 
 	metadata, err := getStructBinaryMetadata(reflect.ValueOf(v), false)
@@ -61,13 +62,13 @@ func (d *Decoder) decode(v interface{}) error {
 func (d *Decoder) readName() (string, error) {
 	var sizeByte [1]byte
 
-	if _, err := d.r.Read(sizeByte[:]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeByte[:]); err != nil {
 		return "", err
 	}
 
 	str := make([]byte, sizeByte[0])
 
-	if _, err := d.r.Read(str); err != nil {
+	if _, err := io.ReadFull(d.r, str); err != nil {
 		return "", err
 	}
 
@@ -130,11 +131,16 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return err
 		}
 
-		b := make([]byte, size)
-		if _, err := d.r.Read(b); err != nil {
+		// Peer chooses the size, so allocate only for the bytes that are really there.
+		b, err := ioutil.ReadAll(io.LimitReader(d.r, int64(size)))
+		if err != nil {
 			return err
 		}
 
+		if uint64(len(b)) != size {
+			return io.ErrUnexpectedEOF
+		}
+
 		switch value.Kind() {
 		// For slice we don't know exact size of the data encoded.
 		// We read item by item with N size, where N defined by receiving slice element type.
@@ -178,6 +184,10 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 			return errors.New(fmt.Sprintf("not supported kind '%s' for binary received", value.Kind()))
 		}
 	case typeObject:
+		if value.Kind() != reflect.Struct {
+			return errors.New(fmt.Sprintf("not supported kind '%s' for object received", value.Kind()))
+		}
+
 		v := reflect.New(value.Type())
 		if err := d.decode(v.Interface()); err != nil {
 			return err
@@ -193,7 +203,7 @@ func (d *Decoder) readValue(value reflect.Value, typeByte byte) error {
 
 func (d *Decoder) readVarInt() (uint64, error) {
 	var sizeBytes [8]byte
-	if _, err := d.r.Read(sizeBytes[0:1]); err != nil {
+	if _, err := io.ReadFull(d.r, sizeBytes[0:1]); err != nil {
 		return 0, err
 	}
 
@@ -216,7 +226,7 @@ func (d *Decoder) readVarInt() (uint64, error) {
 	allBytes := make([]byte, 8)
 	allBytes[0] = sizeBytes[0]
 
-	if _, err := d.r.Read(allBytes[1:bytesLeft+1]); err != nil {
+	if _, err := io.ReadFull(d.r, allBytes[1:bytesLeft+1]); err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From cbdb3dea5190d524571013d3d87c4284d95ede0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:34 +0000
Subject: [PATCH 29/32] fix: a peer of a newer version was refused and one of
 an older version accepted

---
 p2p/peer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 0bc6843..cf31084 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -149,7 +149,7 @@ func (p *Peer) handshake(n *Node) (*HandshakeResponse, error) {
 		return nil, errors.New("wrong network id received")
 	}
 
-	if n.Config.Network.P2PMinimumVersion < res.NodeData.Version {
+	if res.NodeData.Version < n.Config.Network.P2PMinimumVersion {
 		return nil, errors.New("node data version not match minimal")
 	}
 
-- 
2.43.0


From 10678e48881d1887315bca358aa3dfd1dace3489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:34 +0000
Subject: [PATCH 30/32] fix: go on with the chain when all needed blocks are
 already here

---
 p2p/peer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index cf31084..52a303c 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -217,10 +217,16 @@ func (p *Peer) requestMissingBlocks(n *Node, checkHavingBlocks bool) error {
 			}
 
 			p.requestedBlocks = append(p.requestedBlocks, requestBlocks...)
+			p.neededBlocks = neededBlocks
+
+			return nil
 		}
 
+		// All the needed blocks have been added in the meantime
 		p.neededBlocks = neededBlocks
-	} else if p.lastResponseHeight < (p.remoteHeight - 1) {
+	}
+
+	if uint64(p.lastResponseHeight)+1 < uint64(p.remoteHeight) {
 		if err := p.requestChain(n.Blockchain); err != nil {
 			return err
 		}
-- 
2.43.0


From bf861aac7dca377a8f12413ed0d9e871c0c948df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:40 +0000
Subject: [PATCH 31/32] fix: compute the last height of a chain entry without
 wrapping

---
 p2p/node.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/node.go b/p2p/node.go
index 049bae6..532c1b0 100644
--- a/p2p/node.go
+++ b/p2p/node.go
@@ -283,7 +283,8 @@ func (n *Node) handleNotification(p *Peer, cmd *LevinCommand) error {
 		p.remoteHeight = notification.TotalHeight
 		p.lastResponseHeight = notification.StartHeight + uint32(len(notification.BlocksHashes)-1)
 
-		if p.lastResponseHeight > p.remoteHeight {
+		lastHeight := uint64(notification.StartHeight) + uint64(len(notification.BlocksHashes)) - 1
+		if lastHeight > uint64(notification.TotalHeight) {
 			// TODO: Create new error instance
 			p.Shutdown()
 			return errors.New(
-- 
2.43.0


From 4d9b7c92721cb2de40a8073a383494a3d078bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:46 +0000
Subject: [PATCH 32/32] fix: take a received block only when its bytes are
 exactly that block

---
 p2p/notification.go                      |  4 ++++
 p2p/notification_response_get_objects.go | 15 ++++-----------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/p2p/notification.go b/p2p/notification.go
index a0412d5..8ef0210 100644
--- a/p2p/notification.go
+++ b/p2p/notification.go
@@ -93,5 +93,9 @@ func (rb *RawBlock) ToBlock() (*cryptonote.Block, error) {
 		return nil, err
 	}
 
+	if rawBlockReader.Len() != 0 {
+		return nil, errors.New("raw block has bytes after the block")
+	}
+
 	return block, nil
 }
diff --git a/p2p/notification_response_get_objects.go b/p2p/notification_response_get_objects.go
index 8e5f9fe..569f51d 100644
--- a/p2p/notification_response_get_objects.go
+++ b/p2p/notification_response_get_objects.go
@@ -1,12 +1,10 @@
 package p2p
 
 import (
-	"bytes"
 	"errors"
 	"fmt"
 	"github.com/r3volut1oner/go-karbo/crypto"
 	"github.com/r3volut1oner/go-karbo/cryptonote"
-	"io/ioutil"
 )
 
 // NotificationResponseGetObjects == 2004
@@ -45,16 +43,11 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 	orderedBlocks := make([]*cryptonote.Block, len(nt.Blocks))
 	transactions := map[crypto.Hash][][]byte{}
 	for i, rawBlock := range nt.Blocks {
-		block := cryptonote.Block{}
-		rawBlockReader := bytes.NewReader(rawBlock.Block)
-		if err := block.Deserialize(rawBlockReader); err != nil {
+		block, err := rawBlock.ToBlock()
+		if err != nil {
 			p.Shutdown()
-			// TODO: Remove this. It is debug only.
-			height := n.Blockchain.Height()
-			blockHeight := height + uint32(i)
-			_ = ioutil.WriteFile(fmt.Sprintf("./block_%d.dat", blockHeight), rawBlock.Block, 0644)
 			return errors.New(
-				fmt.Sprintf("[%s] (%d) failed to convert raw block (%d): %s", p, i, blockHeight, err),
+				fmt.Sprintf("[%s] (%d) failed to convert raw block: %s", p, i, err),
 			)
 		}
 
@@ -74,7 +67,7 @@ func (n *Node) HandleResponseGetObjects(p *Peer, nt NotificationResponseGetObjec
 
 		p.requestedBlocks.Remove(hash)
 		transactions[*hash] = rawBlock.Transactions
-		orderedBlocks[i] = &block
+		orderedBlocks[i] = block
 	}
 
 	if len(p.requestedBlocks) > 0 {
-- 
2.43.0

