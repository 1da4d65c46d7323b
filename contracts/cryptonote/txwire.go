package cryptonote

import (
	"bytes"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

// The wire format of transactions.  Multisignature inputs and outputs have no format here.

func indexWire(o []uint32) vf.Rope {
	return vf.Each(0, len(o), func(i int) vf.Rope { return vf.Uv(uint64(o[i])) })
}

func inputWire(in TransactionInput) vf.Rope {
	if c, ok := in.(InputCoinbase); ok {
		return vf.Cat(vf.Byte(0xff), vf.Uv(uint64(c.BlockIndex)))
	}
	if k, ok := in.(InputKey); ok {
		return vf.Cat(vf.Byte(2), vf.Uv(k.Amount), vf.Uv(uint64(len(k.OutputIndexes))), indexWire(k.OutputIndexes), vf.Bytes(k.KeyImage[:]))
	}
	return vf.Cat()
}

func outputWire(o TransactionOutput) vf.Rope {
	k, ok := o.Target.(OutputKey)
	if !ok {
		return vf.Uv(o.Amount)
	}
	return vf.Cat(vf.Uv(o.Amount), vf.Byte(2), vf.Bytes(k.PublicKey[:]))
}

func inputsWire(ins []TransactionInput, n int) vf.Rope {
	return vf.Each(0, n, func(i int) vf.Rope { return inputWire(ins[i]) })
}

func outputsWire(outs []TransactionOutput, n int) vf.Rope {
	return vf.Each(0, n, func(i int) vf.Rope { return outputWire(outs[i]) })
}

func prefixWire(p *TransactionPrefix) vf.Rope {
	return vf.Cat(vf.Uv(uint64(p.Version)), vf.Uv(p.UnlockHeight),
		vf.Uv(uint64(len(p.Inputs))), inputsWire(p.Inputs, len(p.Inputs)),
		vf.Uv(uint64(len(p.Outputs))), outputsWire(p.Outputs, len(p.Outputs)),
		vf.Uv(uint64(len(p.Extra))), vf.Bytes(p.Extra))
}

func sigWire(s crypto.Signature) vf.Rope { return vf.Cat(vf.Bytes(s.C[:]), vf.Bytes(s.R[:])) }

func sigsWire(s []crypto.Signature) vf.Rope {
	return vf.Each(0, len(s), func(i int) vf.Rope { return sigWire(s[i]) })
}

// readUvarint accepts exactly the shortest encodings.
//vf:spec prop=K13 target=cryptonote.readUvarint contract=1
func Spec_readUvarint(r *bytes.Reader) (n uint64, err error) {
	vf.Requires(func() bool { return r != nil })
	before := vf.Taken(r)
	left := r.Len()
	vf.Modifies(r)
	n, err = readUvarint(r)
	vf.Ensures("value", func() bool { return err != nil || vf.Taken(r).Eq(vf.Cat(before, vf.Uv(n))) })
	vf.Ensures("left", func() bool { return err != nil || r.Len()+vf.Uv(n).Len() == left })
	vf.Ensures("shrinks", func() bool { return r.Len() <= left })
	return
}

//vf:spec prop=K13 target=(*cryptonote.TransactionPrefix).serialize contract=1
func Spec_TransactionPrefix_serialize(p *TransactionPrefix) (r []byte) {
	vf.Requires(func() bool { return p != nil })
	r = p.serialize()
	vf.Ensures("wire", func() bool { return vf.Bytes(r).Eq(prefixWire(p)) })
	return
}

func Inv_TransactionPrefix_serialize_1(rangeindex int, tp *TransactionPrefix, serialized *bytes.Buffer, varIntBuf []byte) bool {
	return len(varIntBuf) == 10 && vf.Written(serialized).Eq(vf.Cat(vf.Uv(uint64(tp.Version)), vf.Uv(tp.UnlockHeight),
		vf.Uv(uint64(len(tp.Inputs))), inputsWire(tp.Inputs, rangeindex+1)))
}

func Inv_TransactionPrefix_serialize_2(rangeindex int, inputKey InputKey, old_serialized, serialized *bytes.Buffer, varIntBuf []byte) bool {
	return len(varIntBuf) == 10 && vf.Written(serialized).Eq(vf.Cat(vf.Written(old_serialized), vf.Each(0, rangeindex+1, func(i int) vf.Rope { return vf.Uv(uint64(inputKey.OutputIndexes[i])) })))
}

func Inv_TransactionPrefix_serialize_3(rangeindex int, tp *TransactionPrefix, serialized *bytes.Buffer, varIntBuf []byte) bool {
	return len(varIntBuf) == 10 && vf.Written(serialized).Eq(vf.Cat(vf.Uv(uint64(tp.Version)), vf.Uv(tp.UnlockHeight),
		vf.Uv(uint64(len(tp.Inputs))), inputsWire(tp.Inputs, len(tp.Inputs)),
		vf.Uv(uint64(len(tp.Outputs))), outputsWire(tp.Outputs, rangeindex+1)))
}

// sigsReady: every input that needs signatures has its list.
func sigsReady(ins []TransactionInput, s TransactionSignatures) bool {
	return vf.Forall(0, len(ins), func(i int) bool { return sigNeed(ins[i]) == 0 || i < len(s) })
}

// sigNeed is the number of signatures an input needs.
func sigNeed(in TransactionInput) int {
	if k, ok := in.(InputKey); ok {
		return len(k.OutputIndexes)
	}
	if m, ok := in.(InputMultiSignature); ok {
		return int(m.SignatureCount)
	}
	return 0
}

func known(ins []TransactionInput) bool {
	return vf.Forall(0, len(ins), func(i int) bool { return isCoinbase(ins[i]) || isKey(ins[i]) || isMulti(ins[i]) })
}

func isCoinbase(in TransactionInput) bool {
	_, ok := in.(InputCoinbase)
	return ok
}

// signaturesWire: the lists of the first n inputs that need signatures, one after the other.
func signaturesWire(ins []TransactionInput, s TransactionSignatures, n int) vf.Rope {
	return vf.Each(0, n, func(i int) vf.Rope {
		if sigNeed(ins[i]) == 0 {
			return vf.Cat()
		}
		return sigsWire(s[i])
	})
}

//vf:spec prop=K13 target=(cryptonote.TransactionSignatures).serialize contract=1
func Spec_TransactionSignatures_serialize(ts TransactionSignatures, t *Transaction) (r []byte) {
	vf.Requires(func() bool { return t != nil && known(t.Inputs) && sigsReady(t.Inputs, ts) })
	r = ts.serialize(t)
	vf.Ensures("wire", func() bool { return vf.Bytes(r).Eq(signaturesWire(t.Inputs, ts, len(t.Inputs))) })
	return
}

func Inv_TransactionSignatures_serialize_1(rangeindex int, ts TransactionSignatures, t *Transaction, serialized *bytes.Buffer) bool {
	return vf.Written(serialized).Eq(signaturesWire(t.Inputs, ts, rangeindex+1))
}

func Inv_TransactionSignatures_serialize_2(rangeindex, i int, ts TransactionSignatures, old_serialized, serialized *bytes.Buffer) bool {
	return vf.Written(serialized).Eq(vf.Cat(vf.Written(old_serialized), vf.Each(0, rangeindex+1, func(k int) vf.Rope { return sigWire(ts[i][k]) })))
}

func txWire(t *Transaction) vf.Rope {
	return vf.Cat(prefixWire(&t.TransactionPrefix), signaturesWire(t.Inputs, t.TransactionSignatures, len(t.Inputs)))
}

//vf:spec prop=K13 target=(*cryptonote.Transaction).Serialize contract=1
func Spec_Transaction_Serialize(t *Transaction) (r []byte) {
	vf.Requires(func() bool { return t != nil && known(t.Inputs) && sigsReady(t.Inputs, t.TransactionSignatures) })
	r = t.Serialize()
	vf.Ensures("wire", func() bool { return vf.Bytes(r).Eq(txWire(t)) })
	return
}

//vf:spec prop=K13 target=(*cryptonote.TransactionPrefix).deserialize contract=1
func Spec_TransactionPrefix_deserialize(p *TransactionPrefix, br *bytes.Reader) (err error) {
	vf.Requires(func() bool { return p != nil && br != nil })
	before := vf.Taken(br)
	left := br.Len()
	vf.Modifies(p, br)
	err = p.deserialize(br)
	vf.Ensures("wire", func() bool { return err != nil || vf.Taken(br).Eq(vf.Cat(before, prefixWire(p))) })
	vf.Ensures("known", func() bool { return err != nil || decoded(p.Inputs) })
	vf.Ensures("need", func() bool { return err != nil || needAtMost(p.Inputs, left) })
	vf.Ensures("extra", func() bool { return err != nil || len(p.Extra) <= left })
	vf.Ensures("shrinks", func() bool { return br.Len() <= left && (err != nil || br.Len()+5 <= left) })
	return
}

// needAtMost: no input needs more than n signatures.
func needAtMost(ins []TransactionInput, n int) bool {
	return vf.Forall(0, len(ins), func(i int) bool { return sigNeed(ins[i]) <= n })
}

func decoded(ins []TransactionInput) bool {
	return vf.Forall(0, len(ins), func(i int) bool { return isCoinbase(ins[i]) || isKey(ins[i]) })
}

func Inv_TransactionPrefix_deserialize_1(inputIndex, inputsLen uint64, tp *TransactionPrefix, entry_br, br *bytes.Reader) bool {
	return inputIndex <= inputsLen && len(tp.Inputs) == int(inputsLen) && decoded(tp.Inputs[:inputIndex]) &&
		needAtMost(tp.Inputs[:inputIndex], entry_br.Len()) && br.Len() <= entry_br.Len() &&
		vf.Taken(br).Eq(vf.Cat(vf.Taken(entry_br), vf.Uv(uint64(tp.Version)), vf.Uv(tp.UnlockHeight), vf.Uv(inputsLen), inputsWire(tp.Inputs, int(inputIndex))))
}

func Inv_TransactionPrefix_deserialize_2(i, size uint64, OutputIndexes []uint32, old_br, br *bytes.Reader) bool {
	return i <= size && len(OutputIndexes) == int(i) && len(OutputIndexes)+br.Len() <= old_br.Len() && vf.Taken(br).Eq(vf.Cat(vf.Taken(old_br), indexWire(OutputIndexes)))
}

func Inv_TransactionPrefix_deserialize_3(outputIndex, outputLen uint64, tp *TransactionPrefix, entry_br, br *bytes.Reader) bool {
	return outputIndex <= outputLen && len(tp.Outputs) == int(outputLen) && decoded(tp.Inputs) &&
		needAtMost(tp.Inputs, entry_br.Len()) && br.Len() <= entry_br.Len() &&
		vf.Taken(br).Eq(vf.Cat(vf.Taken(entry_br), vf.Uv(uint64(tp.Version)), vf.Uv(tp.UnlockHeight),
			vf.Uv(uint64(len(tp.Inputs))), inputsWire(tp.Inputs, len(tp.Inputs)), vf.Uv(outputLen), outputsWire(tp.Outputs, int(outputIndex))))
}

// noSigs: transactions without inputs and coinbase transactions carry no signatures.
func noSigs(ins []TransactionInput) bool {
	return len(ins) == 0 || len(ins) == 1 && isCoinbase(ins[0])
}

// sigsMatch: a list for every input, with the number of signatures the input needs.
func sigsMatch(ins []TransactionInput, s TransactionSignatures) bool {
	if noSigs(ins) {
		return len(s) == 0
	}
	return len(s) == len(ins) && vf.Forall(0, len(ins), func(i int) bool { return len(s[i]) == sigNeed(ins[i]) })
}

//vf:spec prop=K13 target=(*cryptonote.TransactionSignatures).deserialize contract=1
func Spec_TransactionSignatures_deserialize(ts *TransactionSignatures, br *bytes.Reader, t *Transaction) (err error) {
	vf.Requires(func() bool { return ts != nil && br != nil && t != nil && known(t.Inputs) && len(*ts) == 0 })
	before := vf.Taken(br)
	left := br.Len()
	vf.Modifies(ts, br)
	err = ts.deserialize(br, t)
	vf.Ensures("count", func() bool { return err != nil || sigsMatch(t.Inputs, *ts) })
	vf.Ensures("wire", func() bool {
		return err != nil || vf.Taken(br).Eq(vf.Cat(before, signaturesWire(t.Inputs, *ts, len(t.Inputs))))
	})
	vf.Ensures("shrinks", func() bool { return br.Len() <= left })
	return
}

func Inv_TransactionSignatures_deserialize_1(rangeindex int, ts *TransactionSignatures, signaturesNotExpected bool, t *Transaction, entry_br, br *bytes.Reader) bool {
	n := rangeindex + 1
	if signaturesNotExpected {
		return len(*ts) == 0 && vf.Taken(br).Eq(vf.Taken(entry_br)) && vf.Forall(0, n, func(i int) bool { return sigNeed(t.Inputs[i]) == 0 })
	}
	return len(*ts) == n && vf.Forall(0, n, func(i int) bool { return len((*ts)[i]) == sigNeed(t.Inputs[i]) }) &&
		vf.Taken(br).Eq(vf.Cat(vf.Taken(entry_br), signaturesWire(t.Inputs, *ts, n)))
}

func Inv_TransactionSignatures_deserialize_2(i, sigSize int, sigs []crypto.Signature, old_br, br *bytes.Reader) bool {
	return i >= 0 && i <= sigSize && len(sigs) == sigSize && vf.Taken(br).Eq(vf.Cat(vf.Taken(old_br), vf.Each(0, i, func(k int) vf.Rope { return sigWire(sigs[k]) })))
}

//vf:spec prop=K13 target=(*cryptonote.Transaction).Deserialize contract=1
func Spec_Transaction_Deserialize(t *Transaction, br *bytes.Reader) (err error) {
	vf.Requires(func() bool { return t != nil && br != nil && len(t.TransactionSignatures) == 0 })
	before := vf.Taken(br)
	left := br.Len()
	vf.Modifies(t, br)
	kept := t.hash
	err = t.Deserialize(br)
	vf.Ensures("wire", func() bool { return err != nil || vf.Taken(br).Eq(vf.Cat(before, txWire(t))) })
	vf.Ensures("cache", func() bool { return t.hash == kept })
	vf.Ensures("known", func() bool { return err != nil || decoded(t.Inputs) })
	vf.Ensures("signatures", func() bool { return err != nil || sigsMatch(t.Inputs, t.TransactionSignatures) })
	vf.Ensures("extra", func() bool { return err != nil || len(t.Extra) <= left })
	vf.Ensures("shrinks", func() bool { return br.Len() <= left && (err != nil || br.Len()+5 <= left) })
	return
}

// Hashes are kept once computed: what is kept must be the hash of the content.

//vf:spec prop=K13 target=(*cryptonote.Transaction).Hash contract=1
func Spec_Transaction_Hash(t *Transaction) (r *crypto.Hash) {
	vf.Requires(func() bool { return t != nil && known(t.Inputs) && sigsReady(t.Inputs, t.TransactionSignatures) })
	vf.Requires(func() bool { return t.hash == nil || *t.hash == crypto.HashOf(txWire(t)) })
	vf.Modifies(&t.hash)
	r = t.Hash()
	vf.Ensures("hash", func() bool { return r != nil && *r == crypto.HashOf(txWire(t)) })
	vf.Ensures("kept", func() bool { return t.hash != nil && *t.hash == crypto.HashOf(txWire(t)) })
	return
}

//vf:spec prop=K13 target=(*cryptonote.TransactionPrefix).Hash contract=1
func Spec_TransactionPrefix_Hash(t *TransactionPrefix) (r *crypto.Hash) {
	vf.Requires(func() bool { return t != nil && (t.hash == nil || *t.hash == crypto.HashOf(prefixWire(t))) })
	vf.Modifies(&t.hash)
	r = t.Hash()
	vf.Ensures("hash", func() bool { return r != nil && *r == crypto.HashOf(prefixWire(t)) })
	vf.Ensures("kept", func() bool { return t.hash != nil && *t.hash == crypto.HashOf(prefixWire(t)) })
	return
}

//vf:spec prop=K13 target=(*cryptonote.BaseTransaction).Hash contract=1
func Spec_BaseTransaction_Hash(t *BaseTransaction) (r *crypto.Hash) {
	vf.Requires(func() bool {
		return t != nil && t.TransactionPrefix != nil && (t.hash == nil || *t.hash == crypto.HashOf(prefixWire(t.TransactionPrefix)))
	})
	vf.Modifies(&t.hash)
	r = t.Hash()
	vf.Ensures("hash", func() bool { return r != nil && *r == crypto.HashOf(prefixWire(t.TransactionPrefix)) })
	vf.Ensures("kept", func() bool { return t.hash != nil && *t.hash == crypto.HashOf(prefixWire(t.TransactionPrefix)) })
	return
}

//vf:spec prop=K13 target=(*cryptonote.Transaction).Size contract=1
func Spec_Transaction_Size(t *Transaction) (n uint64) {
	vf.Requires(func() bool { return t != nil && known(t.Inputs) && sigsReady(t.Inputs, t.TransactionSignatures) })
	n = t.Size()
	vf.Ensures("size", func() bool { return n == uint64(txWire(t).Len()) })
	return
}

// Decoding ends without panic for any bytes, and allocates in proportion to them only.

//vf:spec prop=K14 target=(*cryptonote.TransactionPrefix).deserialize
func Spec_TransactionPrefix_deserialize_robust(p *TransactionPrefix, br *bytes.Reader) (err error) {
	vf.Requires(func() bool { return p != nil && br != nil })
	left := br.Len()
	vf.AllocLimit(vf.N(left).Mul(vf.N(64)).Add(vf.N(64)))
	vf.Modifies(p, br)
	err = p.deserialize(br)
	vf.Ensures("need", func() bool { return err != nil || needAtMost(p.Inputs, left) })
	vf.Ensures("known", func() bool { return err != nil || decoded(p.Inputs) })
	vf.Ensures("consumed", func() bool { return err != nil || br.Len() < left })
	return
}

//vf:spec prop=K14 target=(*cryptonote.Transaction).Deserialize inline=(*cryptonote.TransactionSignatures).deserialize
func Spec_Transaction_Deserialize_robust(t *Transaction, br *bytes.Reader) (err error) {
	vf.Requires(func() bool { return t != nil && br != nil && len(t.TransactionSignatures) == 0 })
	left := br.Len()
	vf.AllocLimit(vf.N(left).Mul(vf.N(64)).Add(vf.N(64)))
	vf.Modifies(t, br)
	err = t.Deserialize(br)
	vf.Ensures("signatures", func() bool { return err != nil || sigsMatch(t.Inputs, t.TransactionSignatures) })
	vf.Ensures("shrinks", func() bool { return br.Len() <= left && (err != nil || br.Len()+5 <= left) })
	return
}

//vf:spec prop=K14 target=cryptonote.readUvarint
func Spec_readUvarint_robust(r *bytes.Reader) (n uint64, err error) {
	vf.Requires(func() bool { return r != nil })
	left := r.Len()
	vf.Modifies(r)
	n, err = readUvarint(r)
	vf.Ensures("consumed", func() bool { return r.Len() <= left && (err != nil || r.Len() < left) })
	return
}

