package cryptonote

import (
	"sort"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

// inAmount is the amount an input spends.
func inAmount(in TransactionInput) uint64 {
	switch i := in.(type) {
	case InputKey:
		return i.Amount
	case InputMultiSignature:
		return i.Amount
	}
	return 0
}

//vf:spec prop=K07 target=cryptonote.getInputsAmounts contract=1 pure=1 inspec=1
func Spec_getInputsAmounts(transaction *Transaction) (r []uint64) {
	vf.Requires(func() bool { return transaction != nil })
	r = getInputsAmounts(transaction)
	vf.Ensures("length", func() bool { return len(r) == len(transaction.Inputs) })
	vf.Ensures("amounts", func() bool { return vf.Forall(0, len(r), func(i int) bool { return r[i] == inAmount(transaction.Inputs[i]) }) })
	return
}

//vf:spec prop=K07 target=cryptonote.getOutputsAmounts contract=1 pure=1 inspec=1
func Spec_getOutputsAmounts(transaction *Transaction) (r []uint64) {
	vf.Requires(func() bool { return transaction != nil })
	r = getOutputsAmounts(transaction)
	vf.Ensures("length", func() bool { return len(r) == len(transaction.Outputs) })
	vf.Ensures("amounts", func() bool { return vf.Forall(0, len(r), func(i int) bool { return r[i] == transaction.Outputs[i].Amount }) })
	return
}

// sum64 is the sum of the first n amounts, modulo 2^64.
func sum64(xs []uint64, n int) uint64 {
	if n <= 0 {
		return 0
	}
	return sum64(xs, n-1) + xs[n-1]
}

func fusionDust(height uint32) uint64 {
	if height < config.UpgradeHeightV4 {
		return 100000000
	}
	return 0
}

//vf:spec prop=K07 target=(*cryptonote.blockTransactionsValidator).IsFusionTransaction contract=1 pure=1 inspec=1 opaque=(*cryptonote.Transaction).Size
func Spec_IsFusionTransaction(v *blockTransactionsValidator, tx *Transaction) (r bool) {
	vf.Requires(func() bool { return v != nil && v.bc != nil && v.bc.Network != nil && v.logger != nil && tx != nil })
	h := v.blockIndex
	size := tx.Size()
	max := v.bc.Network.FusionMaxTxSize(h)
	ins, outs := getInputsAmounts(tx), getOutputsAmounts(tx)
	n, m := len(ins), len(outs)
	chunks, dusts := DecomposeAmountIntoDigits(sum64(ins, n), fusionDust(h))
	want := append(chunks, dusts...)
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	oversized := h <= config.UpgradeHeightV3 && size > max
	dusty := vf.Exists(0, n, func(i int) bool { return ins[i] < fusionDust(h) })
	r = v.IsFusionTransaction(tx)
	vf.Ensures("size", func() bool { return !r || !oversized })
	vf.Ensures("count", func() bool { return !r || n >= 12 && n >= 4*m })
	vf.Ensures("no-dust-spent", func() bool { return !r || !dusty })
	vf.Ensures("decomposed", func() bool {
		return !r || m == len(want) && vf.Forall(0, m, func(i int) bool { return outs[i] == want[i] })
	})
	vf.Ensures("accepted", func() bool {
		return r || oversized || n < 12 || n < 4*m || dusty || m != len(want) || !vf.Forall(0, m, func(i int) bool { return outs[i] == want[i] })
	})
	return
}

func Inv_getInputsAmounts_1(rangeindex int, transaction *Transaction, inputsAmounts []uint64) bool {
	return len(inputsAmounts) == len(transaction.Inputs) &&
		vf.Forall(0, rangeindex+1, func(i int) bool { return inputsAmounts[i] == inAmount(transaction.Inputs[i]) }) &&
		vf.Forall(rangeindex+1, len(inputsAmounts), func(i int) bool { return inputsAmounts[i] == 0 })
}

func Inv_getOutputsAmounts_1(rangeindex int, transaction *Transaction, outputAmounts []uint64) bool {
	return len(outputAmounts) == len(transaction.Outputs) &&
		vf.Forall(0, rangeindex+1, func(i int) bool { return outputAmounts[i] == transaction.Outputs[i].Amount })
}

func Inv_blockTransactionsValidator_IsFusionTransaction_1(rangeindex int, validator *blockTransactionsValidator, inputsAmounts []uint64, inputAmount uint64) bool {
	return inputAmount == sum64(inputsAmounts, rangeindex+1) && vf.Forall(0, rangeindex+1, func(i int) bool {
		return inputsAmounts[i] >= fusionDust(validator.blockIndex)
	})
}

func Inv_equalAmounts_1(rangeindex int, a, b []uint64) bool {
	return len(a) == len(b) && vf.Forall(0, rangeindex+1, func(i int) bool { return a[i] == b[i] })
}

// Every amount that a decomposition produces is an amount that outputs may have from version 5 on.
//vf:spec prop=K07 target=(*config.Network).IsValidDecomposedAmount
func Spec_IsValidDecomposedAmount(n *config.Network, a uint64) (r bool) {
	vf.Requires(func() bool { return n != nil })
	r = n.IsValidDecomposedAmount(a)
	vf.Ensures("one-digit", func() bool { return r == oneDigit(a) })
	return
}
