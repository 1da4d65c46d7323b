package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/internal/vf"
	"github.com/r3volut1oner/go-karbo/utils"
	log "github.com/sirupsen/logrus"
)


// goodHeader: the version is the scheduled one, and a merge mined block carries an acceptable parent.
func goodHeader(bc *BlockChain, b *Block) bool {
	return b.MajorVersion == bc.Network.GetBlockMajorVersion(b.Index()) &&
		(b.MajorVersion != config.BlockMajorVersion2 || b.Parent.MajorVersion <= config.BlockMajorVersion1) &&
		(!hasParent(b.MajorVersion) || len(b.Parent.serialize(false)) <= 2048)
}

// goodTime: not too far in the future, and not before the median of the blocks before it.
func goodTime(bc *BlockChain, b, prev *Block) bool {
	if b.Timestamp > bc.Network.Timestamp()+bc.Network.BlockFutureTimeLimit(b.MajorVersion) {
		return false
	}
	n := bc.Network.BlockTimestampCheckWindow(b.MajorVersion)
	if windowLen(n, prev.Index(), true) < int(n) {
		return true
	}
	return b.Timestamp >= utils.MedianSlice(bc.lastBlocksTimestamps(n, prev, true))
}

// goodCoinbase: a single coinbase input of this height, unlocked when due and not signed.
func goodCoinbase(bc *BlockChain, t *Transaction, prev *Block) bool {
	if len(t.Inputs) != 1 {
		return false
	}
	in, ok := t.Inputs[0].(InputCoinbase)
	return ok && int(in.BlockIndex) == int(prev.Index())+1 && len(t.TransactionSignatures) == 0 &&
		t.UnlockHeight == uint64(prev.Index())+1+uint64(bc.Network.MinedMoneyUnlockWindow())
}

// signable: from version 5 on the reward goes to one key, which signs the block, and nothing is merge mined.
func signable(b *Block) bool {
	t := &b.BaseTransaction
	if b.MajorVersion < config.BlockMajorVersion5 {
		return true
	}
	fields, err := t.ParseExtra()
	if err != nil || fields.MiningTag != nil || len(t.Outputs) != 1 {
		return false
	}
	_, ok := t.Outputs[0].Target.(OutputKey)
	return ok
}

func goodReward(o TransactionOutput) bool { return o.Amount != 0 && goodTarget(o.Target) }

func goodExtra(b *Block) bool {
	return b.Index() < config.UpgradeHeightV4s2 || len(b.BaseTransaction.Extra) <= config.MaxExtraSize
}

//vf:spec prop=K24 target=(*cryptonote.BlockChain).validateBlock contract=1 opaque=(*crypto.PublicKey).Check;(*config.Network).GetBlockMajorVersion;(*config.Network).Timestamp;(*config.Network).BlockFutureTimeLimit;(*config.Network).BlockTimestampCheckWindow;(*config.Network).MinedMoneyUnlockWindow;(*cryptonote.ParentBlock).serialize;utils.MedianSlice
func Spec_validateBlock(bc *BlockChain, logger *log.Entry, b, prev *Block) (reward uint64, err error) {
	vf.Requires(func() bool {
		return chainReady(bc) && logger != nil && b != nil && chained(bc.storage, prev) && prev.Index() < 1<<31 && bc.Network.MinedMoneyUnlockWindow() < 1<<30 &&
			(!hasParent(b.MajorVersion) || b.Parent != nil)
	})
	outs := b.BaseTransaction.Outputs
	reward, err = bc.validateBlock(logger, b, prev)
	vf.Ensures("header", func() bool { return err != nil || goodHeader(bc, b) })
	vf.Ensures("time", func() bool { return err != nil || goodTime(bc, b, prev) })
	vf.Ensures("coinbase", func() bool { return err != nil || goodCoinbase(bc, &b.BaseTransaction, prev) })
	vf.Ensures("signable", func() bool { return err != nil || signable(b) })
	vf.Ensures("extra", func() bool { return err != nil || goodExtra(b) })
	vf.Ensures("outputs", func() bool { return err != nil || vf.Forall(0, len(outs), func(i int) bool { return goodReward(outs[i]) }) })
	vf.Ensures("reward", func() bool { return err != nil || vf.U(reward).Eq(outSum(outs, len(outs))) })
	vf.Ensures("only-invalid-refused", func() bool {
		return err == nil || !goodHeader(bc, b) || !goodTime(bc, b, prev) || !goodCoinbase(bc, &b.BaseTransaction, prev) || !signable(b) || !goodExtra(b) ||
			vf.Exists(0, len(outs), func(i int) bool { return !goodReward(outs[i]) || !outSum(outs, i+1).Lt(vf.Pow2(64)) })
	})
	return
}

func Inv_BlockChain_validateBlock_1(rangeindex int, block *Block, minerReward uint64) bool {
	outs := block.BaseTransaction.Outputs
	return vf.U(minerReward).Eq(outSum(outs, rangeindex+1)) && vf.Forall(0, rangeindex+1, func(i int) bool { return goodReward(outs[i]) })
}

func Inv_BlockChain_validateBlock_2(rangeindex int, multisigOutput OutputMultisignature) bool {
	return vf.Forall(0, rangeindex+1, func(i int) bool { return multisigOutput.Keys[i].Check() })
}
