package cryptonote

import (
	"bytes"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

// Every canonical encoding is accepted and consumed exactly, whatever follows it.  The loop invariants say what
// is still to be read: the rest of the encoding of u.

//vf:spec prop=K13 target=(*cryptonote.TransactionPrefix).deserialize loops=prefixaccepts inline=cryptonote.readUvarint
func Spec_TransactionPrefix_deserialize_accepts(u, p *TransactionPrefix, br *bytes.Reader, tail []byte) (err error) {
	vf.Requires(func() bool { return u != nil && p != nil && br != nil && decoded(u.Inputs) && keyOutputs(u.Outputs) })
	vf.Requires(func() bool { return vf.Untaken(br).Eq(vf.Cat(prefixWire(u), vf.Bytes(tail))) })
	vf.Modifies(p, br)
	err = p.deserialize(br)
	vf.Ensures("accepted", func() bool { return err == nil })
	vf.Ensures("rest", func() bool { return vf.Untaken(br).Eq(vf.Bytes(tail)) })
	return
}

func keyOutputs(outs []TransactionOutput) bool {
	return vf.Forall(0, len(outs), func(i int) bool { _, ok := outs[i].Target.(OutputKey); return ok })
}

// afterInput, afterIndex, afterOutput: what is left of the prefix from the given input, index of an input or output on.
func afterInput(u *TransactionPrefix, from int) vf.Rope {
	return vf.Cat(vf.Each(from, len(u.Inputs), func(i int) vf.Rope { return inputWire(u.Inputs[i]) }),
		vf.Uv(uint64(len(u.Outputs))), afterOutput(u, 0))
}

func afterIndex(u *TransactionPrefix, k InputKey, input, from int) vf.Rope {
	return vf.Cat(vf.Each(from, len(k.OutputIndexes), func(i int) vf.Rope { return vf.Uv(uint64(k.OutputIndexes[i])) }),
		vf.Bytes(k.KeyImage[:]), afterInput(u, input+1))
}

func afterOutput(u *TransactionPrefix, from int) vf.Rope {
	return vf.Cat(vf.Each(from, len(u.Outputs), func(i int) vf.Rope { return outputWire(u.Outputs[i]) }),
		vf.Uv(uint64(len(u.Extra))), vf.Bytes(u.Extra))
}

func atInput(i, n uint64, u, p *TransactionPrefix, br *bytes.Reader, rest vf.Rope) bool {
	return i <= n && n == uint64(len(u.Inputs)) && len(p.Inputs) == len(u.Inputs) && readInputs(u, p, int(i)) &&
		vf.Untaken(br).Eq(vf.Cat(afterInput(u, int(i)), rest))
}

// readInputs: the first n inputs of p need as many signatures as those of u.
func readInputs(u, p *TransactionPrefix, n int) bool {
	return vf.Forall(0, n, func(i int) bool {
		return sigNeed(p.Inputs[i]) == sigNeed(u.Inputs[i]) && isCoinbase(p.Inputs[i]) == isCoinbase(u.Inputs[i]) && (isCoinbase(p.Inputs[i]) || isKey(p.Inputs[i]))
	})
}

func atIndex(i, n uint64, in []uint32, input uint64, u *TransactionPrefix, br *bytes.Reader, rest vf.Rope) bool {
	k, ok := u.Inputs[input].(InputKey)
	return ok && input < uint64(len(u.Inputs)) && i <= n && n == uint64(len(k.OutputIndexes)) && len(in) == int(i) &&
		vf.Untaken(br).Eq(vf.Cat(afterIndex(u, k, int(input), int(i)), rest))
}

func atOutput(i, n uint64, u, p *TransactionPrefix, br *bytes.Reader, rest vf.Rope) bool {
	return i <= n && n == uint64(len(u.Outputs)) && len(p.Outputs) == len(u.Outputs) && len(p.Inputs) == len(u.Inputs) &&
		readInputs(u, p, len(u.Inputs)) && vf.Untaken(br).Eq(vf.Cat(afterOutput(u, int(i)), rest))
}

func Inv_prefixaccepts__TransactionPrefix_deserialize_1(inputIndex, inputsLen uint64, tp, spec_u *TransactionPrefix, spec_tail []byte, br *bytes.Reader) bool {
	return atInput(inputIndex, inputsLen, spec_u, tp, br, vf.Bytes(spec_tail))
}

func Inv_prefixaccepts__TransactionPrefix_deserialize_2(i, size uint64, OutputIndexes []uint32, inputIndex uint64, spec_u *TransactionPrefix, spec_tail []byte, br *bytes.Reader) bool {
	return atIndex(i, size, OutputIndexes, inputIndex, spec_u, br, vf.Bytes(spec_tail))
}

func Inv_prefixaccepts__TransactionPrefix_deserialize_3(outputIndex, outputLen uint64, tp, spec_u *TransactionPrefix, spec_tail []byte, br *bytes.Reader) bool {
	return atOutput(outputIndex, outputLen, spec_u, tp, br, vf.Bytes(spec_tail))
}

//vf:spec prop=K13 target=(*cryptonote.Transaction).Deserialize loops=txaccepts inline=cryptonote.readUvarint;(*cryptonote.TransactionPrefix).deserialize;(*cryptonote.TransactionSignatures).deserialize
func Spec_Transaction_Deserialize_accepts(u, p *Transaction, br *bytes.Reader, tail []byte) (err error) {
	vf.Requires(func() bool { return u != nil && p != nil && br != nil && decoded(u.Inputs) && keyOutputs(u.Outputs) })
	vf.Requires(func() bool { return sigsMatch(u.Inputs, u.TransactionSignatures) && len(p.TransactionSignatures) == 0 })
	vf.Requires(func() bool { return vf.Untaken(br).Eq(vf.Cat(txWire(u), vf.Bytes(tail))) })
	vf.Modifies(p, br)
	err = p.Deserialize(br)
	vf.Ensures("accepted", func() bool { return err == nil })
	vf.Ensures("rest", func() bool { return vf.Untaken(br).Eq(vf.Bytes(tail)) })
	return
}

func afterSignatures(u *Transaction, from int) vf.Rope {
	return vf.Each(from, len(u.Inputs), func(i int) vf.Rope {
		if sigNeed(u.Inputs[i]) == 0 {
			return vf.Cat()
		}
		return sigsWire(u.TransactionSignatures[i])
	})
}

func Inv_txaccepts__TransactionPrefix_deserialize_1(inputIndex, inputsLen uint64, tp *TransactionPrefix, spec_u *Transaction, spec_tail []byte, br *bytes.Reader) bool {
	return atInput(inputIndex, inputsLen, &spec_u.TransactionPrefix, tp, br, vf.Cat(afterSignatures(spec_u, 0), vf.Bytes(spec_tail)))
}

func Inv_txaccepts__TransactionPrefix_deserialize_2(i, size uint64, OutputIndexes []uint32, inputIndex uint64, spec_u *Transaction, spec_tail []byte, br *bytes.Reader) bool {
	return atIndex(i, size, OutputIndexes, inputIndex, &spec_u.TransactionPrefix, br, vf.Cat(afterSignatures(spec_u, 0), vf.Bytes(spec_tail)))
}

func Inv_txaccepts__TransactionPrefix_deserialize_3(outputIndex, outputLen uint64, tp *TransactionPrefix, spec_u *Transaction, spec_tail []byte, br *bytes.Reader) bool {
	return atOutput(outputIndex, outputLen, &spec_u.TransactionPrefix, tp, br, vf.Cat(afterSignatures(spec_u, 0), vf.Bytes(spec_tail)))
}

func Inv_txaccepts__TransactionSignatures_deserialize_1(rangeindex int, t, spec_u *Transaction, spec_tail []byte, br *bytes.Reader) bool {
	return len(t.Inputs) == len(spec_u.Inputs) && readInputs(&spec_u.TransactionPrefix, &t.TransactionPrefix, len(t.Inputs)) &&
		vf.Untaken(br).Eq(vf.Cat(afterSignatures(spec_u, rangeindex+1), vf.Bytes(spec_tail)))
}

func Inv_txaccepts__TransactionSignatures_deserialize_2(i, sigSize int, sigs []crypto.Signature, outer int, t, spec_u *Transaction, spec_tail []byte, br *bytes.Reader) bool {
	s := spec_u.TransactionSignatures[outer]
	return i >= 0 && i <= sigSize && len(sigs) == sigSize && len(s) == sigSize && vf.Untaken(br).Eq(vf.Cat(
		vf.Each(i, len(s), func(k int) vf.Rope { return sigWire(s[k]) }), afterSignatures(spec_u, outer+1), vf.Bytes(spec_tail)))
}
