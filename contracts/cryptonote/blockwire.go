package cryptonote

import (
	"bytes"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

// The wire format of blocks and what their hash covers.

func headerWire(h *BlockHeader) vf.Rope {
	v := vf.Cat(vf.Uv(uint64(h.MajorVersion)), vf.Uv(uint64(h.MinorVersion)))
	if h.MajorVersion == 2 || h.MajorVersion == 3 {
		return vf.Cat(v, vf.Bytes(h.PreviousBlockHash[:]))
	}
	if h.MajorVersion == 1 || h.MajorVersion == 4 || h.MajorVersion == 5 {
		return vf.Cat(v, vf.Uv(h.Timestamp), vf.Bytes(h.PreviousBlockHash[:]), vf.LE32(h.Nonce))
	}
	return v
}

func knownVersion(v byte) bool { return v >= 1 && v <= 5 }
func hasParent(v byte) bool    { return v == 2 || v == 3 }

//vf:spec prop=K15 target=(*cryptonote.BlockHeader).serialize contract=1
func Spec_BlockHeader_serialize(h *BlockHeader) (r []byte) {
	vf.Requires(func() bool { return h != nil })
	r = h.serialize()
	vf.Ensures("wire", func() bool { return vf.Bytes(r).Eq(headerWire(h)) })
	return
}

//vf:spec prop=K15 target=(*cryptonote.BlockHeader).deserialize contract=1
func Spec_BlockHeader_deserialize(h *BlockHeader, r *bytes.Reader) (err error) {
	vf.Requires(func() bool { return h != nil && r != nil && h.Timestamp == 0 && h.Nonce == 0 })
	before := vf.Taken(r)
	left := r.Len()
	vf.Modifies(h, r)
	err = h.deserialize(r)
	vf.Ensures("version", func() bool { return err != nil || knownVersion(h.MajorVersion) })
	vf.Ensures("wire", func() bool { return err != nil || vf.Taken(r).Eq(vf.Cat(before, headerWire(h))) })
	vf.Ensures("shrinks", func() bool { return r.Len() <= left && (err != nil || left-r.Len() >= leastHead(h.MajorVersion)) })
	return
}

func hashesWire(l []crypto.Hash, n int) vf.Rope {
	return vf.Each(0, n, func(i int) vf.Rope { return vf.Bytes(l[i][:]) })
}

// parentWire: in the hashed form the root of the parent's transaction tree comes before its transaction.
func parentWire(p *ParentBlock, hashing bool) vf.Rope {
	root := vf.Cat()
	if hashing {
		h := crypto.HashOf(prefixWire(p.BaseTransaction.TransactionPrefix))
		b := crypto.BranchRoot(p.BaseTransactionBranch, h)
		root = vf.Bytes(b[:])
	}
	return vf.Cat(vf.Uv(uint64(p.MajorVersion)), vf.Uv(uint64(p.MinorVersion)), vf.Uv(p.Timestamp), vf.Bytes(p.Prev[:]), vf.LE32(p.Nonce), root,
		vf.Uv(uint64(p.TransactionsCount)), hashesWire(p.BaseTransactionBranch, len(p.BaseTransactionBranch)),
		prefixWire(p.BaseTransaction.TransactionPrefix), hashesWire(p.BlockchainBranch, len(p.BlockchainBranch)))
}

// parentReady: the cached hash of the parent's transaction, if any, is the hash of its content.
func parentReady(p *ParentBlock) bool {
	if p == nil || p.BaseTransaction.TransactionPrefix == nil {
		return false
	}
	h := p.BaseTransaction.hash
	return h == nil || *h == crypto.HashOf(prefixWire(p.BaseTransaction.TransactionPrefix))
}

//vf:spec prop=K15 target=(*cryptonote.ParentBlock).serialize contract=1
func Spec_ParentBlock_serialize(p *ParentBlock, hashing bool) (r []byte) {
	vf.Requires(func() bool { return parentReady(p) })
	vf.Modifies(&p.BaseTransaction.hash)
	r = p.serialize(hashing)
	vf.Ensures("wire", func() bool { return vf.Bytes(r).Eq(parentWire(p, hashing)) })
	return
}

func Inv_ParentBlock_serialize_1(rangeindex int, pb *ParentBlock, old_serialized, serialized *bytes.Buffer) bool {
	return vf.Written(serialized).Eq(vf.Cat(vf.Written(old_serialized), hashesWire(pb.BaseTransactionBranch, rangeindex+1)))
}

func Inv_ParentBlock_serialize_2(rangeindex int, pb *ParentBlock, old_serialized, serialized *bytes.Buffer) bool {
	return vf.Written(serialized).Eq(vf.Cat(vf.Written(old_serialized), hashesWire(pb.BlockchainBranch, rangeindex+1)))
}

//vf:spec prop=K15 target=(*cryptonote.ParentBlock).deserialize contract=1
func Spec_ParentBlock_deserialize(p *ParentBlock, r *bytes.Reader) (err error) {
	vf.Requires(func() bool { return p != nil && r != nil })
	before := vf.Taken(r)
	left := r.Len()
	vf.Modifies(p, r)
	err = p.deserialize(r)
	vf.Ensures("ready", func() bool { return err != nil || parentReady(p) })
	vf.Ensures("wire", func() bool { return err != nil || vf.Taken(r).Eq(vf.Cat(before, parentWire(p, false))) })
	vf.Ensures("shrinks", func() bool { return r.Len() <= left })
	return
}

func Inv_ParentBlock_deserialize_1(i, branchSize int, baseTxBranch crypto.HashList, old_r, r *bytes.Reader) bool {
	return i >= 0 && (i <= branchSize || branchSize < 0) && len(baseTxBranch) == i && 32*i+r.Len() <= old_r.Len() && vf.Taken(r).Eq(vf.Cat(vf.Taken(old_r), hashesWire(baseTxBranch, i)))
}

func Inv_ParentBlock_deserialize_2(i uint64, blockchainBranch crypto.HashList, old_r, r *bytes.Reader) bool {
	return len(blockchainBranch) == int(i) && i <= 256 && 32*int(i)+r.Len() <= old_r.Len() && vf.Taken(r).Eq(vf.Cat(vf.Taken(old_r), hashesWire(blockchainBranch, int(i))))
}

// treeDepth is the number of levels above the leaves of a tree with count hashes.
//vf:spec prop=K15 target=cryptonote.treeDepth
func Spec_treeDepth(count int) (d int) {
	vf.Requires(func() bool { return count > 0 })
	d = treeDepth(count)
	vf.Ensures("log", func() bool { return vf.Pow2(d).Le(vf.N(count)) && vf.N(count).Lt(vf.Pow2(d+1)) })
	return
}

func sigBytes(s *crypto.Signature) vf.Rope { return sigWire(*s) }

// blockReady: the parts that the version of the block asks for are there and cached hashes are right.
func blockReady(b *Block) bool {
	if b == nil || b.MajorVersion >= 5 && b.Signature == nil || hasParent(b.MajorVersion) && !parentReady(b.Parent) {
		return false
	}
	t := &b.BaseTransaction
	return known(t.Inputs) && sigsReady(t.Inputs, t.TransactionSignatures) && (t.hash == nil || *t.hash == crypto.HashOf(txWire(t)))
}

func blockWire(b *Block) vf.Rope {
	sig, parent := vf.Cat(), vf.Cat()
	if b.MajorVersion >= 5 {
		sig = sigBytes(b.Signature)
	}
	if hasParent(b.MajorVersion) {
		parent = parentWire(b.Parent, false)
	}
	return vf.Cat(headerWire(&b.BlockHeader), sig, parent, txWire(&b.BaseTransaction),
		vf.Uv(uint64(len(b.TransactionsHashes))), hashesWire(b.TransactionsHashes, len(b.TransactionsHashes)))
}

//vf:spec prop=K15 target=(*cryptonote.Block).Serialize contract=1
func Spec_Block_Serialize(b *Block) (r []byte) {
	vf.Requires(func() bool { return blockReady(b) })
	if hasParent(b.MajorVersion) {
		vf.Modifies(&b.Parent.BaseTransaction.hash)
	}
	r = b.Serialize()
	vf.Ensures("wire", func() bool { return vf.Bytes(r).Eq(blockWire(b)) })
	return
}

func Inv_Block_Serialize_1(i int, b *Block, old_serialized, serialized *bytes.Buffer) bool {
	return i >= 0 && i <= len(b.TransactionsHashes) && vf.Written(serialized).Eq(vf.Cat(vf.Written(old_serialized), hashesWire(b.TransactionsHashes, i)))
}

func fresh(b *Block) bool {
	return b != nil && b.Timestamp == 0 && b.Nonce == 0 && b.Signature == nil && b.Parent == nil && b.hash == nil &&
		len(b.BaseTransaction.TransactionSignatures) == 0 && b.BaseTransaction.hash == nil
}

//vf:spec prop=K15 target=(*cryptonote.Block).Deserialize contract=1
func Spec_Block_Deserialize(b *Block, r *bytes.Reader) (err error) {
	vf.Requires(func() bool { return r != nil && fresh(b) })
	before := vf.Taken(r)
	vf.Modifies(b, r)
	err = b.Deserialize(r)
	vf.Ensures("ready", func() bool { return err != nil || blockReady(b) && knownVersion(b.MajorVersion) })
	vf.Ensures("wire", func() bool { return err != nil || vf.Taken(r).Eq(vf.Cat(before, blockWire(b))) })
	return
}

func Inv_Block_Deserialize_1(i, hashesCount uint64, hl crypto.HashList, old_r, r *bytes.Reader) bool {
	return i <= hashesCount && len(hl) == int(i) && 32*len(hl)+r.Len() <= old_r.Len() && vf.Taken(r).Eq(vf.Cat(vf.Taken(old_r), hashesWire(hl, int(i))))
}

// hashingWire is what the proof of work and the hash of the block cover.
func hashingWire(b *Block) vf.Rope {
	l := append(crypto.HashList{crypto.HashOf(txWire(&b.BaseTransaction))}, b.TransactionsHashes...)
	root := crypto.TreeRoot(l)
	return vf.Cat(headerWire(&b.BlockHeader), vf.Bytes(root[:]), vf.Uv(uint64(1+len(b.TransactionsHashes))))
}

//vf:spec prop=K15 target=(*cryptonote.Block).HashingBytes contract=1
func Spec_Block_HashingBytes(b *Block) (r []byte) {
	vf.Requires(func() bool { return blockReady(b) })
	vf.Modifies(&b.BaseTransaction.hash)
	r = b.HashingBytes()
	vf.Ensures("wire", func() bool { return vf.Bytes(r).Eq(hashingWire(b)) })
	return
}

func hashedWire(b *Block) vf.Rope {
	w := hashingWire(b)
	if hasParent(b.MajorVersion) {
		w = vf.Cat(w, parentWire(b.Parent, true))
	}
	return vf.Cat(vf.Uv(uint64(w.Len())), w)
}

//vf:spec prop=K15 target=(*cryptonote.Block).Hash
func Spec_Block_Hash(b *Block) (r *crypto.Hash) {
	vf.Requires(func() bool { return blockReady(b) && (b.hash == nil || *b.hash == crypto.HashOf(hashedWire(b))) })
	vf.Modifies(&b.hash, &b.BaseTransaction.hash)
	if hasParent(b.MajorVersion) {
		vf.Modifies(&b.Parent.BaseTransaction.hash)
	}
	r = b.Hash()
	vf.Ensures("hash", func() bool { return r != nil && *r == crypto.HashOf(hashedWire(b)) })
	return
}

// Decoding a block ends without panic for any bytes, refuses input that ends early, and allocates in proportion to it only.

// leastHead is the number of bytes of the shortest header of a version.
func leastHead(version byte) int {
	if hasParent(version) {
		return 34
	}
	return 39
}

//vf:spec prop=K16 target=(*cryptonote.BlockHeader).deserialize
func Spec_BlockHeader_deserialize_robust(h *BlockHeader, r *bytes.Reader) (err error) {
	vf.Requires(func() bool { return h != nil && r != nil })
	left := r.Len()
	vf.AllocLimit(vf.N(left).Mul(vf.N(64)).Add(vf.N(64)))
	vf.Modifies(h, r)
	err = h.deserialize(r)
	vf.Ensures("version", func() bool { return err != nil || knownVersion(h.MajorVersion) })
	vf.Ensures("consumed", func() bool { return r.Len() <= left && (err != nil || left-r.Len() >= leastHead(h.MajorVersion)) })
	return
}

//vf:spec prop=K16 target=(*cryptonote.ParentBlock).deserialize
func Spec_ParentBlock_deserialize_robust(p *ParentBlock, r *bytes.Reader) (err error) {
	vf.Requires(func() bool { return p != nil && r != nil })
	left := r.Len()
	vf.AllocLimit(vf.N(left).Mul(vf.N(64)).Add(vf.N(64)))
	vf.Modifies(p, r)
	err = p.deserialize(r)
	vf.Ensures("complete", func() bool { return err != nil || p.BaseTransaction.TransactionPrefix != nil })
	vf.Ensures("branches", func() bool { return err != nil || len(p.BaseTransactionBranch) <= 16 && len(p.BlockchainBranch) <= 256 })
	vf.Ensures("consumed", func() bool { return r.Len() <= left && (err != nil || left-r.Len() >= 45+32*(len(p.BaseTransactionBranch)+len(p.BlockchainBranch))) })
	return
}

//vf:spec prop=K16 target=(*cryptonote.Block).Deserialize
func Spec_Block_Deserialize_robust(b *Block, r *bytes.Reader) (err error) {
	vf.Requires(func() bool { return r != nil && fresh(b) })
	left := r.Len()
	vf.AllocLimit(vf.N(left).Mul(vf.N(64)).Add(vf.N(64)))
	vf.Modifies(b, r)
	err = b.Deserialize(r)
	vf.Ensures("complete", func() bool {
		return err != nil || knownVersion(b.MajorVersion) && (b.MajorVersion != 5 || b.Signature != nil) && (!hasParent(b.MajorVersion) || b.Parent != nil)
	})
	vf.Ensures("consumed", func() bool {
		return r.Len() <= left && (err != nil || left-r.Len() >= leastHead(b.MajorVersion)+32*len(b.TransactionsHashes)+6)
	})
	vf.Ensures("signed", func() bool { return err != nil || b.MajorVersion != 5 || left-r.Len() >= 103+32*len(b.TransactionsHashes)+6 })
	return
}

// BlockWire is blockWire for other packages.
func BlockWire(b *Block) vf.Rope { return blockWire(b) }
