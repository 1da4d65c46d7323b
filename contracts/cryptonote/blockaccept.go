package cryptonote

import (
	"bytes"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

// Every canonical encoding of a block is accepted and consumed exactly, whatever follows it.

//vf:spec prop=K15 target=(*cryptonote.BlockHeader).deserialize inline=cryptonote.readUvarint
func Spec_BlockHeader_deserialize_accepts(u, h *BlockHeader, r *bytes.Reader, tail []byte) (err error) {
	vf.Requires(func() bool { return u != nil && h != nil && r != nil && knownVersion(u.MajorVersion) })
	vf.Requires(func() bool { return vf.Untaken(r).Eq(vf.Cat(headerWire(u), vf.Bytes(tail))) })
	vf.Modifies(h, r)
	err = h.deserialize(r)
	vf.Ensures("accepted", func() bool { return err == nil && h.MajorVersion == u.MajorVersion })
	vf.Ensures("rest", func() bool { return vf.Untaken(r).Eq(vf.Bytes(tail)) })
	return
}

func hashesFrom(l []crypto.Hash, from int) vf.Rope {
	return vf.Each(from, len(l), func(i int) vf.Rope { return vf.Bytes(l[i][:]) })
}

// parentCanonical: what a decoded parent block satisfies: the branches have the lengths that the number of
// transactions and the merge mining tag ask for.
func parentCanonical(p *ParentBlock) bool {
	if p == nil || p.BaseTransaction.TransactionPrefix == nil {
		return false
	}
	t := p.BaseTransaction.TransactionPrefix
	e, err := TxExtraFromBytes(t.Extra)
	return decoded(t.Inputs) && keyOutputs(t.Outputs) && len(p.BaseTransactionBranch) == treeDepth(int(p.TransactionsCount)) &&
		err == nil && e != nil && e.MiningTag != nil && e.MiningTag.Depth <= 256 && len(p.BlockchainBranch) == int(e.MiningTag.Depth)
}

//vf:spec prop=K15 target=(*cryptonote.ParentBlock).deserialize loops=parentaccepts inline=cryptonote.readUvarint;(*cryptonote.TransactionPrefix).deserialize opaque=cryptonote.TxExtraFromBytes;cryptonote.treeDepth
func Spec_ParentBlock_deserialize_accepts(u, p *ParentBlock, r *bytes.Reader, tail []byte) (err error) {
	vf.Requires(func() bool { return parentCanonical(u) && p != nil && r != nil })
	vf.Requires(func() bool { return vf.Untaken(r).Eq(vf.Cat(parentWire(u, false), vf.Bytes(tail))) })
	vf.Modifies(p, r)
	err = p.deserialize(r)
	vf.Ensures("accepted", func() bool { return err == nil })
	vf.Ensures("rest", func() bool { return vf.Untaken(r).Eq(vf.Bytes(tail)) })
	return
}

func Inv_parentaccepts__TransactionPrefix_deserialize_1(inputIndex, inputsLen uint64, tp *TransactionPrefix, spec_u *ParentBlock, spec_tail []byte, br *bytes.Reader) bool {
	return atInput(inputIndex, inputsLen, spec_u.BaseTransaction.TransactionPrefix, tp, br, vf.Cat(hashesFrom(spec_u.BlockchainBranch, 0), vf.Bytes(spec_tail)))
}

func Inv_parentaccepts__TransactionPrefix_deserialize_2(i, size uint64, OutputIndexes []uint32, inputIndex uint64, spec_u *ParentBlock, spec_tail []byte, br *bytes.Reader) bool {
	return atIndex(i, size, OutputIndexes, inputIndex, spec_u.BaseTransaction.TransactionPrefix, br, vf.Cat(hashesFrom(spec_u.BlockchainBranch, 0), vf.Bytes(spec_tail)))
}

func Inv_parentaccepts__TransactionPrefix_deserialize_3(outputIndex, outputLen uint64, tp *TransactionPrefix, spec_u *ParentBlock, spec_tail []byte, br *bytes.Reader) bool {
	return atOutput(outputIndex, outputLen, spec_u.BaseTransaction.TransactionPrefix, tp, br, vf.Cat(hashesFrom(spec_u.BlockchainBranch, 0), vf.Bytes(spec_tail)))
}

func Inv_parentaccepts__ParentBlock_deserialize_1(i, branchSize int, baseTxBranch crypto.HashList, spec_u *ParentBlock, spec_tail []byte, r *bytes.Reader) bool {
	return i >= 0 && i <= branchSize && branchSize == len(spec_u.BaseTransactionBranch) && len(baseTxBranch) == i && vf.Untaken(r).Eq(vf.Cat(hashesFrom(spec_u.BaseTransactionBranch, i),
		prefixWire(spec_u.BaseTransaction.TransactionPrefix), hashesFrom(spec_u.BlockchainBranch, 0), vf.Bytes(spec_tail)))
}

func Inv_parentaccepts__ParentBlock_deserialize_2(i uint64, spec_u *ParentBlock, spec_tail []byte, r *bytes.Reader) bool {
	return i <= uint64(len(spec_u.BlockchainBranch)) && vf.Untaken(r).Eq(vf.Cat(hashesFrom(spec_u.BlockchainBranch, int(i)), vf.Bytes(spec_tail)))
}

func canonicalBase(u *Block) bool {
	t := &u.BaseTransaction
	return decoded(t.Inputs) && keyOutputs(t.Outputs) && sigsMatch(t.Inputs, t.TransactionSignatures)
}

//vf:spec prop=K15 target=(*cryptonote.Block).Deserialize loops=blockaccepts inline=cryptonote.readUvarint;(*cryptonote.BlockHeader).deserialize;(*cryptonote.Transaction).Deserialize;(*cryptonote.TransactionPrefix).deserialize;(*cryptonote.TransactionSignatures).deserialize;(*cryptonote.ParentBlock).deserialize opaque=cryptonote.TxExtraFromBytes;cryptonote.treeDepth
func Spec_Block_Deserialize_accepts(u, b *Block, r *bytes.Reader, tail []byte) (err error) {
	vf.Requires(func() bool { return u != nil && r != nil && fresh(b) && knownVersion(u.MajorVersion) && !hasParent(u.MajorVersion) && (u.MajorVersion < 5 || u.Signature != nil) && canonicalBase(u) })
	vf.Requires(func() bool { return vf.Untaken(r).Eq(vf.Cat(blockWire(u), vf.Bytes(tail))) })
	vf.Modifies(b, r)
	err = b.Deserialize(r)
	vf.Ensures("accepted", func() bool { return err == nil })
	vf.Ensures("rest", func() bool { return vf.Untaken(r).Eq(vf.Bytes(tail)) })
	return
}

//vf:spec prop=K15 target=(*cryptonote.Block).Deserialize loops=blockaccepts inline=cryptonote.readUvarint;(*cryptonote.BlockHeader).deserialize;(*cryptonote.Transaction).Deserialize;(*cryptonote.TransactionPrefix).deserialize;(*cryptonote.TransactionSignatures).deserialize;(*cryptonote.ParentBlock).deserialize opaque=cryptonote.TxExtraFromBytes;cryptonote.treeDepth
func Spec_Block_Deserialize_accepts_parent(u, b *Block, r *bytes.Reader, tail []byte) (err error) {
	vf.Requires(func() bool { return u != nil && r != nil && fresh(b) && hasParent(u.MajorVersion) && parentCanonical(u.Parent) && canonicalBase(u) })
	vf.Requires(func() bool { return vf.Untaken(r).Eq(vf.Cat(blockWire(u), vf.Bytes(tail))) })
	vf.Modifies(b, r)
	err = b.Deserialize(r)
	vf.Ensures("accepted", func() bool { return err == nil })
	vf.Ensures("rest", func() bool { return vf.Untaken(r).Eq(vf.Bytes(tail)) })
	return
}

// afterPrefix: what follows the prefix of the base transaction, from the signatures of input number from on.
func afterPrefix(u *Block, from int, tail []byte) vf.Rope {
	return vf.Cat(afterSignatures(&u.BaseTransaction, from), vf.Uv(uint64(len(u.TransactionsHashes))), hashesFrom(u.TransactionsHashes, 0), vf.Bytes(tail))
}

// afterParent: what follows the transaction of the parent block, from the given hash of its last branch on.
func afterParent(u *Block, from int, tail []byte) vf.Rope {
	return vf.Cat(hashesFrom(u.Parent.BlockchainBranch, from), prefixWire(&u.BaseTransaction.TransactionPrefix), afterPrefix(u, 0, tail))
}

// A block with a parent has two transaction prefixes: the one of its base transaction and the one of the parent's.

func Inv_blockaccepts__TransactionPrefix_deserialize_1(inputIndex, inputsLen uint64, tp *TransactionPrefix, spec_u, spec_b *Block, spec_tail []byte, br *bytes.Reader) bool {
	if tp == &spec_b.BaseTransaction.TransactionPrefix {
		return atInput(inputIndex, inputsLen, &spec_u.BaseTransaction.TransactionPrefix, tp, br, afterPrefix(spec_u, 0, spec_tail))
	}
	return atInput(inputIndex, inputsLen, spec_u.Parent.BaseTransaction.TransactionPrefix, tp, br, afterParent(spec_u, 0, spec_tail))
}

func Inv_blockaccepts__TransactionPrefix_deserialize_2(i, size uint64, OutputIndexes []uint32, inputIndex uint64, tp *TransactionPrefix, spec_u, spec_b *Block, spec_tail []byte, br *bytes.Reader) bool {
	if tp == &spec_b.BaseTransaction.TransactionPrefix {
		return atIndex(i, size, OutputIndexes, inputIndex, &spec_u.BaseTransaction.TransactionPrefix, br, afterPrefix(spec_u, 0, spec_tail))
	}
	return atIndex(i, size, OutputIndexes, inputIndex, spec_u.Parent.BaseTransaction.TransactionPrefix, br, afterParent(spec_u, 0, spec_tail))
}

func Inv_blockaccepts__TransactionPrefix_deserialize_3(outputIndex, outputLen uint64, tp *TransactionPrefix, spec_u, spec_b *Block, spec_tail []byte, br *bytes.Reader) bool {
	if tp == &spec_b.BaseTransaction.TransactionPrefix {
		return atOutput(outputIndex, outputLen, &spec_u.BaseTransaction.TransactionPrefix, tp, br, afterPrefix(spec_u, 0, spec_tail))
	}
	return atOutput(outputIndex, outputLen, spec_u.Parent.BaseTransaction.TransactionPrefix, tp, br, afterParent(spec_u, 0, spec_tail))
}

func Inv_blockaccepts__TransactionSignatures_deserialize_1(rangeindex int, t *Transaction, spec_u *Block, spec_tail []byte, br *bytes.Reader) bool {
	return len(t.Inputs) == len(spec_u.BaseTransaction.Inputs) && readInputs(&spec_u.BaseTransaction.TransactionPrefix, &t.TransactionPrefix, len(t.Inputs)) &&
		vf.Untaken(br).Eq(afterPrefix(spec_u, rangeindex+1, spec_tail))
}

func Inv_blockaccepts__TransactionSignatures_deserialize_2(i, sigSize int, sigs []crypto.Signature, outer int, t *Transaction, spec_u *Block, spec_tail []byte, br *bytes.Reader) bool {
	s := spec_u.BaseTransaction.TransactionSignatures[outer]
	return i >= 0 && i <= sigSize && len(sigs) == sigSize && len(s) == sigSize && vf.Untaken(br).Eq(vf.Cat(
		vf.Each(i, len(s), func(k int) vf.Rope { return sigWire(s[k]) }), afterPrefix(spec_u, outer+1, spec_tail)))
}

func Inv_blockaccepts__ParentBlock_deserialize_1(i, branchSize int, baseTxBranch crypto.HashList, spec_u *Block, spec_tail []byte, r *bytes.Reader) bool {
	p := spec_u.Parent
	return i >= 0 && i <= branchSize && branchSize == len(p.BaseTransactionBranch) && len(baseTxBranch) == i && vf.Untaken(r).Eq(vf.Cat(hashesFrom(p.BaseTransactionBranch, i),
		prefixWire(p.BaseTransaction.TransactionPrefix), afterParent(spec_u, 0, spec_tail)))
}

func Inv_blockaccepts__ParentBlock_deserialize_2(i uint64, spec_u *Block, spec_tail []byte, r *bytes.Reader) bool {
	return i <= uint64(len(spec_u.Parent.BlockchainBranch)) && vf.Untaken(r).Eq(afterParent(spec_u, int(i), spec_tail))
}

func Inv_blockaccepts__Block_Deserialize_1(i, hashesCount uint64, spec_u *Block, spec_tail []byte, r *bytes.Reader) bool {
	return i <= hashesCount && hashesCount == uint64(len(spec_u.TransactionsHashes)) && vf.Untaken(r).Eq(vf.Cat(hashesFrom(spec_u.TransactionsHashes, int(i)), vf.Bytes(spec_tail)))
}
