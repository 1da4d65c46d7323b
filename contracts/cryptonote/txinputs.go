package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

//vf:opaque invoke config.Checkpoints.IsInCheckpointZone

func isKey(in TransactionInput) bool {
	_, ok := in.(InputKey)
	return ok
}

func isMulti(in TransactionInput) bool {
	_, ok := in.(InputMultiSignature)
	return ok
}

func keyOf(in TransactionInput) InputKey {
	i, _ := in.(InputKey)
	return i
}

func multiOf(in TransactionInput) InputMultiSignature {
	i, _ := in.(InputMultiSignature)
	return i
}

func pairOf(in TransactionInput) MultisigAmountGlobalOutputIndexPair {
	i := multiOf(in)
	return MultisigAmountGlobalOutputIndexPair{i.Amount, i.OutputIndex}
}

// keySum is the exact sum of the amounts that the first n inputs spend.
func keySum(ins []TransactionInput, n int) vf.Int {
	if n <= 0 {
		return vf.N(0)
	}
	return keySum(ins, n-1).Add(vf.U(inAmount(ins[n-1])))
}

// goodOffsets: at least one output, and none named twice (offsets after the first are relative).
func goodOffsets(o []uint32) bool {
	return len(o) > 0 && vf.Forall(1, len(o), func(j int) bool { return o[j] != 0 })
}

// inDomain tells whether a key image multiplied by the group order gives the identity.
func inDomain(k crypto.KeyImage) bool {
	l := crypto.KeyImage(crypto.L)
	m, err := k.ScalarMult(&l)
	return err == nil && *m == crypto.KeyImage(crypto.I)
}

//vf:spec prop=K25 target=(*cryptonote.blockTransactionsValidator).validateInputs contract=1
func Spec_validateInputs(v *blockTransactionsValidator, tx *Transaction) (sum uint64, err error) {
	vf.Requires(func() bool {
		return validatorReady(v) && tx != nil && v.spentKeyImages != nil && v.spentMultisignatureGlobalOutputIndexes != nil
	})
	ins := tx.Inputs
	old := vf.Snapshot(v.spentKeyImages).(map[crypto.KeyImage]bool)
	oldMulti := vf.Snapshot(v.spentMultisignatureGlobalOutputIndexes).(map[MultisigAmountGlobalOutputIndexPair]bool)
	zone := v.bc.Checkpoints.IsInCheckpointZone(v.blockIndex + 1)
	vf.Modifies(v.spentKeyImages, v.spentMultisignatureGlobalOutputIndexes)
	sum, err = v.validateInputs(tx)
	vf.Ensures("some", func() bool { return err != nil || len(ins) > 0 })
	vf.Ensures("kinds", func() bool {
		return err != nil || vf.Forall(0, len(ins), func(i int) bool { return isKey(ins[i]) || isMulti(ins[i]) })
	})
	vf.Ensures("sum", func() bool { return err != nil || vf.U(sum).Eq(keySum(ins, len(ins))) })
	vf.Ensures("offsets", func() bool {
		return err != nil || vf.Forall(0, len(ins), func(i int) bool { return !isKey(ins[i]) || goodOffsets(keyOf(ins[i]).OutputIndexes) })
	})
	vf.Ensures("domain", func() bool {
		return err != nil || zone || vf.Forall(0, len(ins), func(i int) bool { return !isKey(ins[i]) || inDomain(keyOf(ins[i]).KeyImage) })
	})
	vf.Ensures("distinct", func() bool {
		return err != nil || vf.Forall(0, len(ins), func(i int) bool {
			return !isKey(ins[i]) || vf.Forall(0, i, func(j int) bool { return !isKey(ins[j]) || keyOf(ins[j]).KeyImage != keyOf(ins[i]).KeyImage })
		})
	})
	vf.Ensures("unspent", func() bool {
		return err != nil || vf.Forall(0, len(ins), func(i int) bool {
			_, spent := old[keyOf(ins[i]).KeyImage]
			return !isKey(ins[i]) || !spent
		})
	})
	vf.Ensures("spent", func() bool {
		return err != nil || vf.Forall(0, len(ins), func(i int) bool {
			_, spent := v.spentKeyImages[keyOf(ins[i]).KeyImage]
			return !isKey(ins[i]) || spent
		})
	})
	vf.Ensures("remembered", func() bool {
		return vf.ForallKey(func(k crypto.KeyImage) bool {
			_, before := old[k]
			_, after := v.spentKeyImages[k]
			return !before || after
		}, old, v.spentKeyImages)
	})
	vf.Ensures("no-more-spent", func() bool {
		return err != nil || vf.ForallKey(func(k crypto.KeyImage) bool {
			_, before := old[k]
			_, after := v.spentKeyImages[k]
			return before || !after || vf.Exists(0, len(ins), func(i int) bool { return isKey(ins[i]) && keyOf(ins[i]).KeyImage == k })
		}, old, v.spentKeyImages)
	})
	vf.Ensures("multisignature", func() bool {
		return err != nil || vf.Forall(0, len(ins), func(i int) bool {
			_, spent := oldMulti[pairOf(ins[i])]
			return !isMulti(ins[i]) || !spent
		})
	})
	return
}

func Inv_blockTransactionsValidator_validateInputs_1(rangeindex int, old_validator, validator *blockTransactionsValidator, inputs []TransactionInput, sumOfInputs uint64, keyImageSet map[crypto.KeyImage]bool) bool {
	n := rangeindex + 1
	old := old_validator.spentKeyImages
	oldMulti := old_validator.spentMultisignatureGlobalOutputIndexes
	zone := validator.bc.Checkpoints.IsInCheckpointZone(validator.blockIndex + 1)
	return validator.spentKeyImages != nil && validator.spentMultisignatureGlobalOutputIndexes != nil && vf.U(sumOfInputs).Eq(keySum(inputs, n)) &&
		vf.Forall(0, n, func(i int) bool {
			if isMulti(inputs[i]) {
				_, spent := oldMulti[pairOf(inputs[i])]
				return !spent
			}
			k := keyOf(inputs[i])
			_, before := old[k.KeyImage]
			_, after := validator.spentKeyImages[k.KeyImage]
			_, seen := keyImageSet[k.KeyImage]
			return isKey(inputs[i]) && goodOffsets(k.OutputIndexes) && (zone || inDomain(k.KeyImage)) && !before && after && seen
		}) &&
		vf.Forall(0, n, func(i int) bool {
			return !isKey(inputs[i]) || vf.Forall(0, i, func(j int) bool { return !isKey(inputs[j]) || keyOf(inputs[j]).KeyImage != keyOf(inputs[i]).KeyImage })
		}) &&
		vf.ForallKey(func(k crypto.KeyImage) bool {
			_, before := old[k]
			_, after := validator.spentKeyImages[k]
			_, seen := keyImageSet[k]
			return (!before || after) && (before || !after || seen) && (!seen || vf.Exists(0, n, func(i int) bool { return isKey(inputs[i]) && keyOf(inputs[i]).KeyImage == k }))
		}, old, validator.spentKeyImages, keyImageSet) &&
		vf.ForallKey(func(k MultisigAmountGlobalOutputIndexPair) bool {
			_, before := oldMulti[k]
			_, after := validator.spentMultisignatureGlobalOutputIndexes[k]
			return !before || after
		}, oldMulti, validator.spentMultisignatureGlobalOutputIndexes)
}

func Inv_blockTransactionsValidator_validateInputs_2(rangeindex int, input InputKey) bool {
	return len(input.OutputIndexes) > 0 && vf.Forall(1, rangeindex+2, func(j int) bool { return input.OutputIndexes[j] != 0 })
}

// ringLog is ghost state: how many inputs of tx, from the first on, have been shown to carry a valid ring
// signature over the hash of the transaction by the owner of one of the outputs they name.
type ringLog struct {
	tx     *Transaction
	height uint32
	asked  struct {
		amount uint64
		height uint32
		ring   []uint32
		keys   []crypto.PublicKey
	}
	signed int
}

var ringGhost ringLog

//vf:opaque cryptonote.outputKeysOf
func outputKeysOf(amount uint64, height uint32, ring []uint32) ([]crypto.PublicKey, error) {
	return nil, nil
}

//vf:opaque cryptonote.ringVerdict
func ringVerdict(h crypto.Hash, image crypto.KeyImage, pubs []crypto.PublicKey, sigs []crypto.Signature, check bool) bool {
	return true
}

//vf:model (*cryptonote.BlockChain).ExtractKeyOutputKeys
func modelExtractKeyOutputKeys(bc *BlockChain, amount uint64, height uint32, ring []uint32) ([]crypto.PublicKey, error) {
	keys, err := outputKeysOf(amount, height, ring)
	a := &ringGhost.asked
	a.amount, a.height, a.ring, a.keys = amount, height, ring, keys
	return keys, err
}

//vf:model crypto.CheckRingSignature
func modelCheckRingSignature(h *crypto.Hash, image *crypto.KeyImage, pubs *[]crypto.PublicKey, sigs *[]crypto.Signature, check bool) bool {
	if !ringVerdict(*h, *image, *pubs, *sigs, check) {
		return false
	}
	g := &ringGhost
	n, a := g.signed, &g.asked
	ins, all := g.tx.Inputs, g.tx.TransactionSignatures
	if n >= len(ins) || n >= len(all) {
		return true
	}
	k := keyOf(ins[n])
	if isKey(ins[n]) && *h == *g.tx.TransactionPrefix.Hash() && *image == k.KeyImage && a.amount == k.Amount && a.height == g.height &&
		vf.Eq(*pubs, a.keys) && vf.Eq(*sigs, all[n]) && len(a.ring) == len(k.OutputIndexes) &&
		vf.Forall(0, len(a.ring), func(j int) bool { return a.ring[j] == absolute(k.OutputIndexes, j) }) {
		g.signed++
	}
	return true
}

// absolute is the position among the outputs of its amount of the j-th output of a ring given by offsets.
func absolute(offsets []uint32, j int) uint32 {
	if j <= 0 {
		return offsets[0]
	}
	return absolute(offsets, j-1) + offsets[j]
}

//vf:spec prop=K25 target=(*cryptonote.blockTransactionsValidator).validateTransactionInputExpensive contract=1 opaque=(*cryptonote.TransactionPrefix).Hash;(*cryptonote.BlockChain).IsSpent unfold=absolute
func Spec_validateTransactionInputExpensive(v *blockTransactionsValidator, tx *Transaction) (err error) {
	vf.Requires(func() bool {
		return validatorReady(v) && tx != nil &&
			vf.Forall(0, len(tx.Inputs), func(i int) bool {
				return !isKey(tx.Inputs[i]) || len(keyOf(tx.Inputs[i]).OutputIndexes) > 0
			})
	})
	ins, h := tx.Inputs, v.blockIndex
	zone := v.bc.Checkpoints.IsInCheckpointZone(h)
	ringGhost.tx, ringGhost.height, ringGhost.signed = tx, h, 0
	vf.Modifies(&ringGhost)
	err = v.validateTransactionInputExpensive(tx)
	vf.Ensures("all-signed", func() bool { return !vf.Symbolic() || err != nil || zone || ringGhost.signed == len(ins) })
	vf.Ensures("kinds", func() bool {
		return err != nil || zone || vf.Forall(0, len(ins), func(i int) bool { return isKey(ins[i]) })
	})
	vf.Ensures("unspent", func() bool {
		return err != nil || zone || vf.Forall(0, len(ins), func(i int) bool { return !v.bc.IsSpent(keyOf(ins[i]).KeyImage, h) })
	})
	return
}

func Inv_blockTransactionsValidator_validateTransactionInputExpensive_1(rangeindex int, validator *blockTransactionsValidator, transaction *Transaction) bool {
	n := rangeindex + 1
	ins := transaction.Inputs
	return ringGhost.tx == transaction && ringGhost.height == validator.blockIndex && ringGhost.signed == n && vf.Forall(0, n, func(i int) bool {
		return isKey(ins[i]) && !validator.bc.IsSpent(keyOf(ins[i]).KeyImage, validator.blockIndex)
	})
}

func Inv_blockTransactionsValidator_validateTransactionInputExpensive_2(i int, globalIndexes []uint32, input InputKey) bool {
	return i >= 1 && len(globalIndexes) == len(input.OutputIndexes) && vf.Forall(0, i, func(j int) bool { return globalIndexes[j] == absolute(input.OutputIndexes, j) })
}

// A transaction that validate accepts has passed every one of the checks above.
//vf:spec prop=K25 target=(*cryptonote.blockTransactionsValidator).validate contract=1 opaque=(*cryptonote.TransactionPrefix).Hash;(*cryptonote.BlockChain).IsSpent;(*cryptonote.Transaction).Size;(*crypto.PublicKey).Check
func Spec_validate(v *blockTransactionsValidator, tx *Transaction) (err error) {
	vf.Requires(func() bool {
		return validatorReady(v) && tx != nil && v.spentKeyImages != nil && v.spentMultisignatureGlobalOutputIndexes != nil && len(tx.Extra) <= 1<<32
	})
	ins, outs, h := tx.Inputs, tx.Outputs, v.blockIndex
	old := vf.Snapshot(v.spentKeyImages).(map[crypto.KeyImage]bool)
	before := v.cumulativeFee
	zone, zoneNext := v.bc.Checkpoints.IsInCheckpointZone(h), v.bc.Checkpoints.IsInCheckpointZone(h+1)
	vf.Modifies(v.spentKeyImages, v.spentMultisignatureGlobalOutputIndexes, &v.cumulativeFee, &ringGhost)
	err = v.validate(tx)
	in, out := keySum(ins, len(ins)), outSum(outs, len(outs))
	vf.Ensures("inputs", func() bool {
		return err != nil || len(ins) > 0 && vf.Forall(0, len(ins), func(i int) bool {
			return (isKey(ins[i]) || zone && isMulti(ins[i])) &&
				(!isKey(ins[i]) || goodOffsets(keyOf(ins[i]).OutputIndexes) && (zoneNext || inDomain(keyOf(ins[i]).KeyImage)))
		})
	})
	vf.Ensures("no-double-spend", func() bool {
		return err != nil || vf.Forall(0, len(ins), func(i int) bool {
			_, spent := old[keyOf(ins[i]).KeyImage]
			_, now := v.spentKeyImages[keyOf(ins[i]).KeyImage]
			return !isKey(ins[i]) || !spent && now && (zone || !v.bc.IsSpent(keyOf(ins[i]).KeyImage, h)) &&
				vf.Forall(0, i, func(j int) bool { return !isKey(ins[j]) || keyOf(ins[j]).KeyImage != keyOf(ins[i]).KeyImage })
		})
	})
	vf.Ensures("remembered", func() bool {
		return vf.ForallKey(func(k crypto.KeyImage) bool {
			_, before := old[k]
			_, after := v.spentKeyImages[k]
			return !before || after
		}, old, v.spentKeyImages)
	})
	vf.Ensures("signed", func() bool { return !vf.Symbolic() || err != nil || zone || ringGhost.signed == len(ins) })
	vf.Ensures("outputs", func() bool { return err != nil || vf.Forall(0, len(outs), func(i int) bool { return goodOutput(outs[i], h) }) })
	vf.Ensures("nothing-created", func() bool { return err != nil || out.Le(in) && vf.N(0).Lt(out) })
	vf.Ensures("fees", func() bool { return err != nil || vf.U(v.cumulativeFee).Eq(vf.U(before).Add(in).Sub(out).Mod(vf.Pow2(64))) })
	return
}
