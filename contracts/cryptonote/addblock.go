package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/internal/vf"
	"github.com/r3volut1oner/go-karbo/utils"
	log "github.com/sirupsen/logrus"
)

// rawSum is the size of the first n raw transactions.
func rawSum(rt [][]byte, n int) vf.Int {
	if n <= 0 {
		return vf.N(0)
	}
	return rawSum(rt, n-1).Add(vf.N(len(rt[n-1])))
}

func rawFits(bc *BlockChain, rt [][]byte, i int) bool { return uint64(len(rt[i])) <= bc.Network.MaxTxSize }

func sizesReal(rt [][]byte) bool {
	return vf.Forall(0, len(rt)+1, func(i int) bool { return vf.N(0).Le(rawSum(rt, i)) && rawSum(rt, i).Lt(vf.Pow2(63)) })
}

//vf:spec prop=K12 target=(*cryptonote.BlockChain).deserializeTransactions contract=1
func Spec_deserializeTransactions(bc *BlockChain, logger *log.Entry, rt [][]byte) (txs []Transaction, size uint64, err error) {
	vf.Requires(func() bool { return chainReady(bc) && logger != nil && bc.Network.MaxTxSize <= 1<<32 && sizesReal(rt) })
	txs, size, err = bc.deserializeTransactions(logger, rt)
	vf.Ensures("one-each", func() bool { return err != nil || len(txs) == len(rt) })
	vf.Ensures("size", func() bool { return err != nil || vf.U(size).Eq(rawSum(rt, len(rt))) })
	vf.Ensures("limit", func() bool {
		return err != nil || vf.Forall(0, len(rt), func(i int) bool { return rawFits(bc, rt, i) && len(txs[i].Extra) <= len(rt[i]) && txs[i].hash == nil })
	})
	vf.Ensures("known", func() bool {
		return err != nil || vf.Forall(0, len(rt), func(i int) bool {
			return decoded(txs[i].Inputs) && sigsMatch(txs[i].Inputs, txs[i].TransactionSignatures)
		})
	})
	return
}

func Inv_BlockChain_deserializeTransactions_1(rangeindex int, bc *BlockChain, transactions []Transaction, transactionsSize uint64, rt [][]byte) bool {
	n := rangeindex + 1
	return len(transactions) == len(rt) && vf.U(transactionsSize).Eq(rawSum(rt, n)) && vf.Forall(0, n, func(i int) bool {
		t := &transactions[i]
		return rawFits(bc, rt, i) && len(t.Extra) <= len(rt[i]) && t.hash == nil && decoded(t.Inputs) && sigsMatch(t.Inputs, t.TransactionSignatures)
	}) && vf.Forall(n, len(transactions), func(i int) bool { return len(transactions[i].TransactionSignatures) == 0 && transactions[i].hash == nil })
}

// Every transaction is exactly what its bytes say, all of them (k is any of them).
//
//vf:spec prop=K12 target=(*cryptonote.BlockChain).deserializeTransactions loops=exact
func Spec_deserializeTransactions_exact(bc *BlockChain, logger *log.Entry, rt [][]byte, k int) (txs []Transaction, size uint64, err error) {
	vf.Requires(func() bool { return chainReady(bc) && logger != nil && k >= 0 && k < len(rt) })
	txs, size, err = bc.deserializeTransactions(logger, rt)
	vf.Ensures("exact", func() bool { return err != nil || vf.Bytes(rt[k]).Eq(txWire(&txs[k])) })
	return
}

func Inv_exact__BlockChain_deserializeTransactions_1(rangeindex int, transactions []Transaction, rt [][]byte, spec_k int) bool {
	n := rangeindex + 1
	return len(transactions) == len(rt) && (spec_k >= n || vf.Bytes(rt[spec_k]).Eq(txWire(&transactions[spec_k]))) &&
		vf.Forall(n, len(transactions), func(i int) bool { return len(transactions[i].TransactionSignatures) == 0 })
}

func Cases_exact__BlockChain_deserializeTransactions_1(rangeindex int, spec_k int) [2]bool {
	return [2]bool{spec_k == rangeindex+1, spec_k != rangeindex+1}
}

// pushLog is what has been given to the storage to keep.
type pushLog struct {
	count   int
	block   *Block
	info    blockInfo
	details TransactionsDetails
}

var pushGhost pushLog

//vf:opaque cryptonote.pushVerdict
func pushVerdict(s Storage) error { return nil }

//vf:model invoke cryptonote.Storage.PushBlock
func modelPushBlock(s Storage, b *Block, info *blockInfo, d TransactionsDetails) error {
	pushGhost.count++
	pushGhost.block, pushGhost.info, pushGhost.details = b, *info, d
	return pushVerdict(s)
}

// feeSum: what the first n transactions leave to the miner.
func feeSum(txs []Transaction, n int) vf.Int {
	if n <= 0 {
		return vf.N(0)
	}
	t := &txs[n-1]
	return feeSum(txs, n-1).Add(keySum(t.Inputs, len(t.Inputs))).Sub(outSum(t.Outputs, len(t.Outputs)))
}

//vf:opaque invoke config.Checkpoints.CheckBlock

// signedBy: from version 5 on, the key that gets the reward has signed the block.
func signedBy(b *Block) bool {
	if b.MajorVersion < config.BlockMajorVersion5 {
		return true
	}
	h := crypto.HashFromBytes(b.HashingBytes())
	k, _ := b.BaseTransaction.Outputs[0].Target.(OutputKey)
	return b.Signature.Check(&h, &k.PublicKey)
}

// worked: a checkpoint vouches for the block, or else its proof of work does.
func worked(bc *BlockChain, b *Block, difficulty uint64) bool {
	if bc.Checkpoints.IsInCheckpointZone(b.Index()) {
		return bc.Checkpoints.CheckBlock(b.Index(), b.Hash()) == nil
	}
	return bc.checkProofOfWork(b, difficulty) == nil
}

// follows: the block is a new one, one above a stored one.
func follows(s Storage, b, prev *Block) bool {
	return !s.HaveBlock(b.Hash()) && prev != nil && int(b.Index()) == int(prev.Index())+1
}

// spendApart: the two transactions have no key image in common.
func spendApart(t, u *Transaction) bool {
	return vf.Forall(0, len(t.Inputs), func(a int) bool {
		return !isKey(t.Inputs[a]) || vf.Forall(0, len(u.Inputs), func(b int) bool {
			return !isKey(u.Inputs[b]) || keyOf(u.Inputs[b]).KeyImage != keyOf(t.Inputs[a]).KeyImage
		})
	})
}

// createsNothing: what goes out has come in.
func createsNothing(t *Transaction) bool {
	return outSum(t.Outputs, len(t.Outputs)).Le(keySum(t.Inputs, len(t.Inputs)))
}

func listed(l []crypto.KeyImage, k crypto.KeyImage) bool {
	return vf.Exists(0, len(l), func(i int) bool { return l[i] == k })
}

//vf:spec prop=K12 target=(*cryptonote.BlockChain).AddBlock opaque=!(*cryptonote.Block).Hash;(*cryptonote.Block).HashingBytes;!(*cryptonote.Transaction).Hash;(*cryptonote.Transaction).Size;(*crypto.Signature).Check;(*config.Network).GetBlockReward;(config.Network).GetBlockReward;utils.MedianSlice;(*config.Network).MaxBlockSize;(*config.Network).RewardBlockWindow;(*cryptonote.BlockChain).checkProofOfWork;(*cryptonote.BlockChain).hasTransaction;crypto.HashFromBytes;(*config.Network).GetBlockMajorVersion;(*crypto.PublicKey).Check;(*config.Network).Timestamp;(*config.Network).BlockFutureTimeLimit;(*config.Network).BlockTimestampCheckWindow;(*cryptonote.ParentBlock).serialize;(*config.Network).DifficultyBlocksCountByBlockVersion;(*config.Network).MinedMoneyUnlockWindow;(*config.Network).NextDifficulty
func Spec_AddBlock(bc *BlockChain, block *Block, rt [][]byte) (err error) {
	vf.Requires(func() bool {
		return chainReady(bc) && bc.logger != nil && bc.Checkpoints != nil && bc.bestTip != nil && block != nil && bc.Network.MaxTxSize <= 1<<32 && sizesReal(rt) &&
			(!hasParent(block.MajorVersion) || block.Parent != nil) && (block.MajorVersion < 5 || block.Signature != nil) && bc.Network.MinedMoneyUnlockWindow() < 1<<30
	})
	s := bc.storage
	prev := s.GetBlock(&block.PreviousBlockHash)
	vf.Requires(func() bool {
		return prev == nil || chained(s, prev) && recorded(s, bc.Network.RewardBlockWindow(), prev.Index()) &&
			recorded(s, bc.Network.DifficultyBlocksCountByBlockVersion(bc.Network.GetBlockMajorVersion(prev.Index())), prev.Index())
	})
	tip := bc.bestTip
	var difficulty, median uint64
	var noDifficulty error
	if prev != nil {
		difficulty, noDifficulty = bc.difficultyForNextBlock(prev)
		median = utils.MedianSlice(bc.lastBLockSizes(bc.Network.RewardBlockWindow(), prev.Index()))
	}
	work := worked(bc, block, difficulty)
	pushGhost.count = 0
	vf.Modifies(&bc.bestTip, &pushGhost, &ringGhost)
	err = bc.AddBlock(block, rt)
	p := &pushGhost
	txs, hashes := p.details.transactions, block.TransactionsHashes
	vf.Ensures("refused-unchanged", func() bool { return err == nil || bc.bestTip == tip })
	vf.Ensures("pushed-once", func() bool { return p.count <= 1 && (err != nil || p.count == 1 && p.block == block && bc.bestTip == block) })
	vf.Ensures("new", func() bool { return p.count == 0 || follows(s, block, prev) })
	vf.Ensures("difficulty", func() bool { return p.count == 0 || noDifficulty == nil && difficulty != 0 })
	vf.Ensures("signed", func() bool { return p.count == 0 || signedBy(block) })
	vf.Ensures("work", func() bool { return p.count == 0 || work })
	vf.Ensures("transactions", func() bool {
		return p.count == 0 || len(txs) == len(rt) && len(hashes) == len(txs) && vf.Forall(0, len(txs), func(i int) bool {
			return *txs[i].Hash() == hashes[i] && rawFits(bc, rt, i) && vf.Forall(0, i, func(j int) bool { return hashes[j] != hashes[i] })
		})
	})
	vf.Ensures("size", func() bool {
		return p.count == 0 || block.BaseTransaction.Size() <= bc.Network.MaxTxSize && p.info.Size <= bc.Network.MaxBlockSize(uint64(block.Index())) &&
			vf.U(p.info.Size).Eq(vf.U(block.BaseTransaction.Size()).Add(rawSum(rt, len(rt))))
	})
	vf.Ensures("reward", func() bool {
		if p.count == 0 {
			return true
		}
		outs := block.BaseTransaction.Outputs
		last := s.getBlockInfoAtIndex(prev.Index())
		fee := feeSum(txs, len(txs)).Low64()
		reward, emission, e := bc.Network.GetBlockReward(block.MajorVersion, median, p.info.Size, last.TotalGeneratedCoins, fee)
		return e == nil && vf.U(reward).Eq(outSum(outs, len(outs))) && p.info.TotalGeneratedCoins == last.TotalGeneratedCoins+emission
	})
	vf.Ensures("valid", func() bool {
		return p.count == 0 || goodHeader(bc, block) && goodCoinbase(bc, &block.BaseTransaction, prev) && goodExtra(block)
	})
	vf.Ensures("nothing-created", func() bool {
		return p.count == 0 || vf.Forall(0, len(txs), func(i int) bool { return createsNothing(&txs[i]) })
	})
	vf.Ensures("nothing-spent-twice", func() bool {
		return p.count == 0 || vf.Forall(0, len(txs), func(i int) bool { return vf.Forall(0, i, func(j int) bool { return spendApart(&txs[i], &txs[j]) }) })
	})
	vf.Ensures("spent-listed", func() bool {
		return p.count == 0 || vf.Forall(0, len(txs), func(i int) bool {
			ins := txs[i].Inputs
			return vf.Forall(0, len(ins), func(a int) bool { return !isKey(ins[a]) || listed(p.details.spentKeyImages, keyOf(ins[a]).KeyImage) })
		})
	})
	vf.Ensures("info", func() bool {
		if p.count == 0 {
			return true
		}
		last, i := s.getBlockInfoAtIndex(prev.Index()), &p.info
		return i.Index == block.Index() && i.Hash == *block.Hash() && i.CumulativeDifficulty == last.CumulativeDifficulty+difficulty &&
			i.TotalGeneratedTransactions == last.TotalGeneratedTransactions+uint64(len(txs)) && i.Timestamp == block.Timestamp
	})
	return
}

func Inv_BlockChain_AddBlock_1(rangeindex int, bc *BlockChain, block *Block, transactions []Transaction, transactionsValidator *blockTransactionsValidator, txAddedHashes map[crypto.Hash]bool) bool {
	n, v, hashes := rangeindex+1, transactionsValidator, block.TransactionsHashes
	return validatorReady(v) && v.spentKeyImages != nil && v.spentMultisignatureGlobalOutputIndexes != nil && v.cumulativeFee == feeSum(transactions, n).Low64() &&
		vf.Forall(0, n, func(i int) bool {
			_, seen := txAddedHashes[hashes[i]]
			ins := transactions[i].Inputs
			return vf.Forall(0, len(ins), func(a int) bool {
				_, spent := v.spentKeyImages[keyOf(ins[a]).KeyImage]
				return !isKey(ins[a]) || spent
			}) && vf.Forall(0, i, func(j int) bool { return spendApart(&transactions[i], &transactions[j]) }) && createsNothing(&transactions[i]) && *transactions[i].Hash() == hashes[i] && seen && vf.Forall(0, i, func(j int) bool { return hashes[j] != hashes[i] })
		})
}

func Inv_BlockChain_AddBlock_2(transactionsDetails TransactionsDetails, transactionsValidator *blockTransactionsValidator) bool {
	l, spent := transactionsDetails.spentKeyImages, transactionsValidator.spentKeyImages
	return vf.ForallKey(func(k crypto.KeyImage) bool {
		_, ok := spent[k]
		return !ok || !vf.Visited(k) || listed(l, k)
	}, spent)
}
