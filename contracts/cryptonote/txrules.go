package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

func validatorReady(v *blockTransactionsValidator) bool {
	return v != nil && v.bc != nil && v.bc.Network != nil && v.bc.Checkpoints != nil && v.logger != nil
}

// outSum is the exact sum of the amounts of the first n outputs.
func outSum(outs []TransactionOutput, n int) vf.Int {
	if n <= 0 {
		return vf.N(0)
	}
	return outSum(outs, n-1).Add(vf.U(outs[n-1].Amount))
}

// goodTarget tells whether an output can be spent by somebody.
func goodTarget(t TransactionOutputTarget) bool {
	switch o := t.(type) {
	case OutputKey:
		return o.Check()
	case OutputMultisignature:
		return int(o.RequiredSignaturesCount) <= len(o.Keys) && vf.Forall(0, len(o.Keys), func(i int) bool { return o.Keys[i].Check() })
	}
	return false
}

func goodOutput(o TransactionOutput, height uint32) bool {
	return o.Amount != 0 && (height < config.UpgradeHeightV5 || oneDigit(o.Amount)) && goodTarget(o.Target)
}

//vf:spec prop=K26 target=(*cryptonote.blockTransactionsValidator).validateOutputs contract=1 opaque=(*crypto.PublicKey).Check
func Spec_validateOutputs(v *blockTransactionsValidator, tx *Transaction) (sum uint64, err error) {
	vf.Requires(func() bool { return validatorReady(v) && tx != nil })
	outs := tx.Outputs
	h := v.blockIndex
	sum, err = v.validateOutputs(tx)
	vf.Ensures("valid", func() bool { return err != nil || vf.Forall(0, len(outs), func(i int) bool { return goodOutput(outs[i], h) }) })
	vf.Ensures("sum", func() bool { return err != nil || vf.U(sum).Eq(outSum(outs, len(outs))) })
	vf.Ensures("only-invalid-refused", func() bool {
		return err == nil || vf.Exists(0, len(outs), func(i int) bool {
			return !goodOutput(outs[i], h) || !outSum(outs, i+1).Lt(vf.Pow2(64))
		})
	})
	return
}

func Inv_blockTransactionsValidator_validateOutputs_1(rangeindex int, validator *blockTransactionsValidator, transaction *Transaction, sumOfOutputs uint64) bool {
	return vf.U(sumOfOutputs).Eq(outSum(transaction.Outputs, rangeindex+1)) &&
		vf.Forall(0, rangeindex+1, func(i int) bool { return goodOutput(transaction.Outputs[i], validator.blockIndex) })
}

func Inv_blockTransactionsValidator_validateOutputs_2(rangeindex int, outputTarget OutputMultisignature) bool {
	return vf.Forall(0, rangeindex+1, func(i int) bool { return outputTarget.Keys[i].Check() })
}

//vf:spec prop=K26 target=(*cryptonote.blockTransactionsValidator).validateTransactionFee contract=1
func Spec_validateTransactionFee(v *blockTransactionsValidator, tx *Transaction, in, out uint64) (fee uint64, fusion bool, err error) {
	vf.Requires(func() bool { return validatorReady(v) && tx != nil })
	before := v.cumulativeFee
	isFusion := v.IsFusionTransaction(tx)
	min := v.bc.Network.MinimalFeeValidator(v.blockIndex)
	vf.Modifies(&v.cumulativeFee)
	fee, fusion, err = v.validateTransactionFee(tx, in, out)
	vf.Ensures("nothing-created", func() bool { return err != nil || in != 0 && out != 0 && out <= in && fee == in-out })
	vf.Ensures("fusion", func() bool { return err != nil || fusion == (fee == 0 && isFusion) })
	vf.Ensures("minimum", func() bool { return err != nil || fusion || fee >= min })
	vf.Ensures("total", func() bool { return err != nil && v.cumulativeFee == before || err == nil && v.cumulativeFee == before+fee })
	vf.Ensures("only-invalid-refused", func() bool {
		return err == nil || in == 0 || out == 0 || out > in || in-out < min && (in != out || !isFusion)
	})
	return
}

//vf:spec prop=K26 target=(*cryptonote.blockTransactionsValidator).validateTransactionExtra contract=1
func Spec_validateTransactionExtra(v *blockTransactionsValidator, tx *Transaction, fee uint64, fusion bool) (err error) {
	vf.Requires(func() bool { return validatorReady(v) && tx != nil && len(tx.Extra) <= 1<<32 })
	h := v.blockIndex
	min := v.bc.Network.MinimalFee(h)
	min += v.bc.Network.GetFeePerByte(uint64(len(tx.Extra)), min)
	err = v.validateTransactionExtra(tx, fee, fusion)
	vf.Ensures("before", func() bool { return h > config.UpgradeHeightV4s2 || err == nil })
	vf.Ensures("discounted", func() bool {
		return h <= config.UpgradeHeightV4s2 || h >= config.UpgradeHeightV4s3 || (err != nil) == (!fusion && fee < min-min*20/100)
	})
	vf.Ensures("full", func() bool { return h < config.UpgradeHeightV4s3 || (err != nil) == (!fusion && fee < min) })
	return
}

// mixinOf is the greatest number of outputs that one of the first n inputs names.
func mixinOf(ins []TransactionInput, n int) int {
	if n <= 0 {
		return 0
	}
	m := mixinOf(ins, n-1)
	k := 0
	if i, ok := ins[n-1].(InputKey); ok {
		k = len(i.OutputIndexes)
	}
	if k > m {
		return k
	}
	return m
}

//vf:spec prop=K26 target=cryptonote.countMixin contract=1
func Spec_countMixin(tx *Transaction) (r int) {
	vf.Requires(func() bool { return tx != nil })
	r = countMixin(tx)
	vf.Ensures("greatest", func() bool { return r == mixinOf(tx.Inputs, len(tx.Inputs)) })
	return
}

func Inv_countMixin_1(rangeindex int, transaction *Transaction, mixin int) bool {
	return mixin >= 0 && mixin == mixinOf(transaction.Inputs, rangeindex+1)
}

//vf:spec prop=K26 target=(*cryptonote.blockTransactionsValidator).validateTransactionMixin contract=1
func Spec_validateTransactionMixin(v *blockTransactionsValidator, tx *Transaction) (err error) {
	vf.Requires(func() bool { return validatorReady(v) && tx != nil })
	h, m := v.blockIndex, mixinOf(tx.Inputs, len(tx.Inputs))
	err = v.validateTransactionMixin(tx)
	vf.Ensures("limits", func() bool {
		return (err != nil) == (h > config.UpgradeHeightV3s1 && m > v.bc.Network.MaxMixin() || h > config.UpgradeHeightV4 && m < v.bc.Network.MinMixin() && m != 1)
	})
	return
}

//vf:spec prop=K26 target=(*cryptonote.blockTransactionsValidator).validateSize contract=1 opaque=(*cryptonote.Transaction).Size
func Spec_validateSize(v *blockTransactionsValidator, tx *Transaction) (err error) {
	vf.Requires(func() bool { return validatorReady(v) && tx != nil })
	size, max := tx.Size(), v.bc.Network.MaxTransactionSize(v.blockIndex)
	err = v.validateSize(tx)
	vf.Ensures("limit", func() bool { return (err != nil) == (size > max) })
	return
}
