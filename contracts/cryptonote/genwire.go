package cryptonote

import (
	"bytes"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

// Generators for the wire formats: canonical encodings, cut, altered and extended ones.

func genCount(g *vf.G) int {
	switch g.N(24) {
	case 0, 2:
		return 100 + g.N(200)
	case 1:
		return 126 + g.N(4)
	case 3:
		if g.Chance(0.01) {
			return 65530 + g.N(300)
		}
		if g.Chance(0.3) {
			return 250 + g.N(10)
		}
	}
	return g.N(5)
}

// genWide: a number around the bounds of the narrower types.
func genWide(g *vf.G) uint64 {
	n := uint64(1) << uint([]int{7, 8, 16, 32, 63}[g.N(5)])
	return n + uint64(g.N(5)) - 2
}

// genWidePrefix: the encoding of a prefix in which one number may be too large.
func genWidePrefix(g *vf.G) vf.Rope {
	p := genPrefix(g)
	switch g.N(6) {
	case 0:
		return vf.Cat(vf.Uv(genWide(g)), vf.Bytes(prefixWire(&p).Bytes()[vf.Uv(uint64(p.Version)).Len():]))
	case 1, 2:
		in := vf.Cat(vf.Byte(TxTagCoinbase), vf.Uv(genWide(g)))
		if g.Chance(0.5) {
			k := genKeyInput(g)
			in = vf.Cat(vf.Byte(TxTagKey), vf.Uv(k.Amount), vf.Uv(uint64(len(k.OutputIndexes)+1)), vf.Uv(genWide(g)), indexWire(k.OutputIndexes), vf.Bytes(k.KeyImage[:]))
		}
		return vf.Cat(vf.Uv(uint64(p.Version)), vf.Uv(p.UnlockHeight), vf.Uv(1), in, vf.Uv(uint64(len(p.Outputs))), outputsWire(p.Outputs, len(p.Outputs)), vf.Uv(uint64(len(p.Extra))), vf.Bytes(p.Extra))
	}
	return prefixWire(&p)
}

// genWideParent: the encoding of a parent block in which one number may be too large.
func genWideParent(g *vf.G) vf.Rope {
	p := genParent(g)
	major, minor, count := uint64(p.MajorVersion), uint64(p.MinorVersion), uint64(p.TransactionsCount)
	switch g.N(8) {
	case 0:
		major = genWide(g)
	case 1:
		minor = genWide(g)
	case 2, 3:
		count = genWide(g)
		p.BaseTransactionBranch = nil
		for n := treeDepth(int(count)); n > 0; n-- {
			p.BaseTransactionBranch = append(p.BaseTransactionBranch, genHash(g))
		}
	case 4:
		d := g.N(600)
		p.BaseTransaction.Extra = genTag(g, uint64(d))
		p.BlockchainBranch = make([]crypto.Hash, d)
	case 5:
		p.BaseTransaction.Extra = nil
	}
	return vf.Cat(vf.Uv(major), vf.Uv(minor), vf.Uv(p.Timestamp), vf.Bytes(p.Prev[:]), vf.LE32(p.Nonce), vf.Uv(count),
		hashesWire(p.BaseTransactionBranch, len(p.BaseTransactionBranch)), prefixWire(p.BaseTransaction.TransactionPrefix), hashesWire(p.BlockchainBranch, len(p.BlockchainBranch)))
}

func genInputs(g *vf.G) int {
	if g.Chance(0.005) {
		return 200 + g.N(100)
	}
	return g.N(5)
}

func genHash(g *vf.G) (h crypto.Hash) {
	copy(h[:], g.Bytes(32))
	return
}

func genKeyOutput(g *vf.G) TransactionOutput {
	var k OutputKey
	copy(k.PublicKey[:], g.Bytes(32))
	return TransactionOutput{Amount: g.Uint64(), Target: k}
}

func genKeyInput(g *vf.G) InputKey {
	i := InputKey{Amount: g.Uint64()}
	for n := genCount(g); n > 0; n-- {
		i.OutputIndexes = append(i.OutputIndexes, uint32(g.Uint64()))
	}
	copy(i.KeyImage[:], g.Bytes(32))
	return i
}

func genExtra(g *vf.G) []byte {
	var b []byte
	for n := g.N(4); n > 0; n-- {
		switch g.N(5) {
		case 0:
			b = append(append(b, TxExtraTagPubkey), g.Bytes(32)...)
		case 1:
			k := g.N(256)
			b = append(append(append(b, TxExtraTagNonce), vf.Uv(uint64(k)).Bytes()...), g.Bytes(k)...)
		case 2:
			b = append(b, genTag(g, uint64(g.N(300)))...)
		case 3:
			b = append(append(b, TxExtraTagPadding), make([]byte, g.N(300))...)
			return b
		default:
			b = append(b, g.Bytes(g.N(6))...)
		}
	}
	return b
}

func genTag(g *vf.G, depth uint64) []byte {
	return append(append(append([]byte{TxExtraTagMergeMining}, 33), vf.Uv(depth).Bytes()...), g.Bytes(32)...)
}

func genPrefix(g *vf.G) TransactionPrefix {
	t := TransactionPrefix{Version: byte(g.Uint64()), UnlockHeight: g.Uint64(), Extra: genExtra(g)}
	if g.Chance(0.2) {
		t.Inputs = []TransactionInput{InputCoinbase{uint32(g.Uint64())}}
	} else {
		for n := genInputs(g); n > 0; n-- {
			if n > 5 {
				t.Inputs = append(t.Inputs, InputKey{OutputIndexes: []uint32{uint32(n)}})
			} else if g.Chance(0.05) {
				t.Inputs = append(t.Inputs, InputCoinbase{uint32(g.Uint64())})
			} else {
				t.Inputs = append(t.Inputs, genKeyInput(g))
			}
		}
	}
	for n := genCount(g); n > 0; n-- {
		t.Outputs = append(t.Outputs, genKeyOutput(g))
	}
	return t
}

// genCanonical: a transaction that decoding can return.
func genCanonical(g *vf.G) *Transaction {
	t := &Transaction{TransactionPrefix: genPrefix(g)}
	if noSigs(t.Inputs) {
		return t
	}
	for _, in := range t.Inputs {
		var s []crypto.Signature
		for n := sigNeed(in); n > 0; n-- {
			var x crypto.Signature
			copy(x.C[:], g.Bytes(32))
			copy(x.R[:], g.Bytes(32))
			s = append(s, x)
		}
		t.TransactionSignatures = append(t.TransactionSignatures, s)
	}
	return t
}

func genParent(g *vf.G) *ParentBlock {
	t := genPrefix(g)
	depth := uint64(g.N(4))
	if g.Chance(0.1) {
		depth = uint64(g.N(260))
	}
	t.Extra = genTag(g, depth)
	if g.Chance(0.5) {
		t.Extra = append(append([]byte{TxExtraTagPubkey}, g.Bytes(32)...), t.Extra...)
	}
	p := &ParentBlock{MajorVersion: byte(g.Uint64()), MinorVersion: byte(g.Uint64()), Timestamp: g.Uint64(), Nonce: uint32(g.Uint64()), Prev: genHash(g)}
	p.TransactionsCount = uint16(g.Uint64())
	for n := treeDepth(int(p.TransactionsCount)); n > 0; n-- {
		p.BaseTransactionBranch = append(p.BaseTransactionBranch, genHash(g))
	}
	p.BaseTransaction.TransactionPrefix = &t
	for ; depth > 0; depth-- {
		p.BlockchainBranch = append(p.BlockchainBranch, genHash(g))
	}
	return p
}

// genWireBlock: a block that decoding can return.
func genWireBlock(g *vf.G, version byte) *Block {
	b := &Block{BlockHeader: genHeader(g, version), BaseTransaction: *genCanonical(g)}
	if version >= 5 {
		b.Signature = &crypto.Signature{}
		copy(b.Signature.C[:], g.Bytes(32))
		copy(b.Signature.R[:], g.Bytes(32))
	}
	if hasParent(version) {
		b.Parent = genParent(g)
	}
	for n := genCount(g); n > 0; n-- {
		b.TransactionsHashes = append(b.TransactionsHashes, genHash(g))
	}
	return b
}

func genHeader(g *vf.G, version byte) BlockHeader {
	return BlockHeader{MajorVersion: version, MinorVersion: byte(g.Uint64()), Timestamp: g.Uint64(), PreviousBlockHash: genHash(g), Nonce: uint32(g.Uint64())}
}

func genVersion(g *vf.G) byte {
	if g.Chance(0.05) {
		return byte(g.N(256))
	}
	return byte(1 + g.N(5))
}

// genCached gives some transactions and blocks cached hashes, as they have after Hash was called.
func genCached(g *vf.G, b *Block) *Block {
	if g.Chance(0.3) {
		b.BaseTransaction.hash = new(crypto.Hash)
		*b.BaseTransaction.hash = crypto.HashOf(txWire(&b.BaseTransaction))
	}
	if b.Parent != nil && g.Chance(0.3) {
		b.Parent.BaseTransaction.hash = new(crypto.Hash)
		*b.Parent.BaseTransaction.hash = crypto.HashOf(prefixWire(b.Parent.BaseTransaction.TransactionPrefix))
	}
	if knownVersion(b.MajorVersion) && g.Chance(0.2) {
		b.hash = new(crypto.Hash)
		*b.hash = crypto.HashOf(hashedWire(b))
	}
	return b
}

// genReader reads an encoding, possibly damaged, from its start or from its middle.
func genReader(g *vf.G, b []byte) *bytes.Reader {
	switch g.N(10) {
	case 0, 1, 2:
	case 3, 4:
		if len(b) > 0 {
			b = b[:g.N(len(b))]
		}
	case 5:
		b = append(append([]byte{}, b...), g.Bytes(g.N(40))...)
	case 6:
		b = g.Mutate(b)
	case 7: // a number in a longer encoding or a huge one
		if len(b) > 0 {
			i := g.N(len(b))
			if i > 40 && g.Chance(0.7) {
				i = g.N(40)
			}
			var x []byte
			switch g.N(3) {
			case 0:
				x = []byte{b[i] | 0x80, 0}
			case 1:
				x = []byte{b[i] | 0x80, 0x80, 0}
			default:
				x = vf.Uv(g.Uint64()).Bytes()
			}
			b = append(append(append([]byte{}, b[:i]...), x...), b[i+1:]...)
		}
	case 8:
		b = append([]byte{}, b...)
		if len(b) > 0 {
			b[g.N(len(b))] = byte(g.Uint64())
		}
	default:
		pre := g.Bytes(1 + g.N(9))
		r := bytes.NewReader(append(pre, b...))
		for range pre {
			r.ReadByte()
		}
		return r
	}
	return bytes.NewReader(b)
}

func GenT_Reader(g *vf.G) *bytes.Reader {
	switch g.N(3) {
	case 0:
		return genReader(g, txWire(genCanonical(g)).Bytes())
	case 1:
		return genReader(g, vf.Cat(vf.Uv(g.Uint64()), vf.Bytes(g.Bytes(g.N(20)))).Bytes())
	}
	return genReader(g, g.Bytes(g.Len()))
}

func genTail(g *vf.G, w vf.Rope) (*bytes.Reader, []byte) {
	t := g.Bytes(g.N(30))
	return bytes.NewReader(append(w.Bytes(), t...)), t
}

func Gen_TransactionPrefix_deserialize(g *vf.G) (*TransactionPrefix, *bytes.Reader) {
	return &TransactionPrefix{}, genReader(g, genWidePrefix(g).Bytes())
}

func Gen_TransactionPrefix_deserialize_robust(g *vf.G) (*TransactionPrefix, *bytes.Reader) {
	return Gen_TransactionPrefix_deserialize(g)
}

func Gen_TransactionPrefix_deserialize_accepts(g *vf.G) (*TransactionPrefix, *TransactionPrefix, *bytes.Reader, []byte) {
	p := genPrefix(g)
	r, t := genTail(g, prefixWire(&p))
	return &p, &TransactionPrefix{}, r, t
}

func Gen_TransactionPrefix_serialize(g *vf.G) *TransactionPrefix {
	p := genPrefix(g)
	return &p
}

func Gen_TransactionSignatures_serialize(g *vf.G) (TransactionSignatures, *Transaction) {
	t := genCanonical(g)
	return t.TransactionSignatures, t
}

func Gen_TransactionSignatures_deserialize(g *vf.G) (*TransactionSignatures, *bytes.Reader, *Transaction) {
	t := genCanonical(g)
	w := afterSignatures(t, 0)
	if noSigs(t.Inputs) {
		w = vf.Bytes(g.Bytes(g.N(80)))
	}
	t.TransactionSignatures = nil
	return &TransactionSignatures{}, genReader(g, w.Bytes()), t
}

func Gen_Transaction_Serialize(g *vf.G) *Transaction { return genCanonical(g) }

func Gen_Transaction_Deserialize(g *vf.G) (*Transaction, *bytes.Reader) {
	return &Transaction{}, genReader(g, txWire(genCanonical(g)).Bytes())
}

func Gen_Transaction_Deserialize_robust(g *vf.G) (*Transaction, *bytes.Reader) {
	return Gen_Transaction_Deserialize(g)
}

func Gen_Transaction_Deserialize_accepts(g *vf.G) (*Transaction, *Transaction, *bytes.Reader, []byte) {
	t := genCanonical(g)
	r, tail := genTail(g, txWire(t))
	return t, &Transaction{}, r, tail
}

func Gen_Transaction_Hash(g *vf.G) *Transaction {
	b := genCached(g, &Block{BaseTransaction: *genCanonical(g)})
	return &b.BaseTransaction
}

func Gen_Transaction_Size(g *vf.G) *Transaction { return Gen_Transaction_Hash(g) }

func Gen_TransactionPrefix_Hash(g *vf.G) *TransactionPrefix {
	return Gen_TransactionPrefix_serialize(g)
}

func Gen_BaseTransaction_Hash(g *vf.G) *BaseTransaction {
	p := genCached(g, &Block{Parent: genParent(g)}).Parent
	return &p.BaseTransaction
}

func Gen_BlockHeader_serialize(g *vf.G) *BlockHeader {
	h := genHeader(g, genVersion(g))
	return &h
}

func Gen_BlockHeader_deserialize(g *vf.G) (*BlockHeader, *bytes.Reader) {
	return &BlockHeader{}, genReader(g, headerWire(Gen_BlockHeader_serialize(g)).Bytes())
}

func Gen_BlockHeader_deserialize_robust(g *vf.G) (*BlockHeader, *bytes.Reader) {
	return Gen_BlockHeader_deserialize(g)
}

func Gen_BlockHeader_deserialize_accepts(g *vf.G) (*BlockHeader, *BlockHeader, *bytes.Reader, []byte) {
	h := Gen_BlockHeader_serialize(g)
	r, t := genTail(g, headerWire(h))
	return h, &BlockHeader{}, r, t
}

func Gen_ParentBlock_serialize(g *vf.G) (*ParentBlock, bool) {
	return genCached(g, &Block{Parent: genParent(g)}).Parent, g.Chance(0.5)
}

func Gen_ParentBlock_deserialize(g *vf.G) (*ParentBlock, *bytes.Reader) {
	return &ParentBlock{}, genReader(g, genWideParent(g).Bytes())
}

func Gen_ParentBlock_deserialize_robust(g *vf.G) (*ParentBlock, *bytes.Reader) {
	return Gen_ParentBlock_deserialize(g)
}

func Gen_ParentBlock_deserialize_accepts(g *vf.G) (*ParentBlock, *ParentBlock, *bytes.Reader, []byte) {
	p := genParent(g)
	r, t := genTail(g, parentWire(p, false))
	return p, &ParentBlock{}, r, t
}

func Gen_Block_Serialize(g *vf.G) *Block { return genCached(g, genWireBlock(g, genVersion(g))) }

func Gen_Block_HashingBytes(g *vf.G) *Block { return Gen_Block_Serialize(g) }
func Gen_Block_Hash(g *vf.G) *Block         { return Gen_Block_Serialize(g) }

func Gen_Block_Deserialize(g *vf.G) (*Block, *bytes.Reader) {
	return &Block{}, genReader(g, blockWire(genWireBlock(g, genVersion(g))).Bytes())
}

func Gen_Block_Deserialize_robust(g *vf.G) (*Block, *bytes.Reader) { return Gen_Block_Deserialize(g) }

func Gen_Block_Deserialize_accepts(g *vf.G) (*Block, *Block, *bytes.Reader, []byte) {
	b := genWireBlock(g, []byte{1, 4, 5}[g.N(3)])
	r, t := genTail(g, blockWire(b))
	return b, &Block{}, r, t
}

func Gen_Block_Deserialize_accepts_parent(g *vf.G) (*Block, *Block, *bytes.Reader, []byte) {
	b := genWireBlock(g, byte(2+g.N(2)))
	r, t := genTail(g, blockWire(b))
	return b, &Block{}, r, t
}

func Gen_TxExtraFromBytes(g *vf.G) []byte {
	b := genExtra(g)
	if g.Chance(0.3) {
		b = g.Mutate(b)
	}
	if g.Chance(0.1) {
		b = append(append(b, TxExtraTagNonce), vf.Uv(g.Uint64()).Bytes()...)
	}
	return b
}
