package cryptonote

import "github.com/r3volut1oner/go-karbo/internal/vf"

// sumOf is the exact sum of a list of amounts.
func sumOf(xs []uint64) vf.Int {
	if len(xs) == 0 {
		return vf.N(0)
	}
	return sumOf(xs[:len(xs)-1]).Add(vf.U(xs[len(xs)-1]))
}

// digitAt tells whether an amount is a digit at the place of p.
func digitAt(a, p uint64) bool { return a%p == 0 && a/p >= 1 && a/p <= 9 }

var pows = [20]uint64{1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000,
	10000000000000, 100000000000000, 1000000000000000, 10000000000000000, 100000000000000000, 1000000000000000000, 10000000000000000000}

// oneDigit tells whether an amount is a digit followed by zeros.
func oneDigit(a uint64) bool { return vf.Exists(0, 20, func(k int) bool { return digitAt(a, pows[k]) }) }

func isPow10(o uint64) bool { return vf.Exists(0, 20, func(k int) bool { return o == pows[k] }) }

//vf:spec prop=K07 target=cryptonote.DecomposeAmountIntoDigits contract=1 pure=1 inspec=1 fuel=2
func Spec_DecomposeAmountIntoDigits(amount, dustThreshold uint64) (chunks, dusts []uint64) {
	chunks, dusts = DecomposeAmountIntoDigits(amount, dustThreshold)
	vf.Ensures("sum", func() bool { return sumOf(chunks).Add(sumOf(dusts)).Eq(vf.U(amount)) })
	vf.Ensures("dust", func() bool { return len(dusts) == 0 || len(dusts) == 1 && dusts[0] != 0 && dusts[0] <= dustThreshold })
	vf.Ensures("digits", func() bool { return vf.Forall(0, len(chunks), func(i int) bool { return oneDigit(chunks[i]) }) })
	vf.Ensures("ascending", func() bool {
		return vf.Forall(0, len(chunks), func(i int) bool { return vf.Forall(0, i, func(j int) bool { return chunks[j] < chunks[i] }) })
	})
	vf.Ensures("all-dust", func() bool {
		return vf.Forall(0, len(chunks), func(i int) bool {
			if len(dusts) == 0 {
				return chunks[i] > dustThreshold
			}
			return vf.U(dustThreshold).Lt(vf.U(chunks[i]).Add(vf.U(dusts[0])))
		})
	})
	return
}

func Inv_DecomposeAmountIntoDigits_1(amount, order, dust, entry_amount, dustThreshold uint64, isDustHandled bool, chunks, dusts []uint64) bool {
	return vf.U(amount).Mul(vf.U(order)).Add(vf.U(dust)).Add(sumOf(chunks)).Eq(vf.U(entry_amount)) &&
		(amount == 0 || isPow10(order)) && vf.N(0).Le(sumOf(chunks)) &&
		dust <= dustThreshold &&
		(isDustHandled && dust != 0 && len(dusts) == 1 && dusts[0] == dust || !isDustHandled && len(dusts) == 0) &&
		(amount == 0 || len(chunks) == 0 && !isDustHandled || vf.U(dustThreshold).Lt(vf.U(dust).Add(vf.U(order)))) &&
		(len(chunks) == 0 || dust == 0 || isDustHandled) &&
		vf.Forall(0, len(chunks), func(i int) bool {
			return oneDigit(chunks[i]) && (amount == 0 || chunks[i] < order) && vf.U(dustThreshold).Lt(vf.U(chunks[i]).Add(vf.U(dust))) &&
				vf.Forall(0, i, func(j int) bool { return chunks[j] < chunks[i] })
		})
}

// The weight of the digit is a power of ten.
func Cases_DecomposeAmountIntoDigits_1(amount, order uint64) [21]bool {
	return [21]bool{
		amount == 0,
		order == 1, order == 10, order == 100, order == 1000, order == 10000, order == 100000, order == 1000000, order == 10000000,
		order == 100000000, order == 1000000000, order == 10000000000, order == 100000000000, order == 1000000000000,
		order == 10000000000000, order == 100000000000000, order == 1000000000000000, order == 10000000000000000,
		order == 100000000000000000, order == 1000000000000000000, order == 10000000000000000000,
	}
}
