package config

import "github.com/r3volut1oner/go-karbo/internal/vf"

//vf:spec prop=K04 target=(*config.Network).MinimalFee
func Spec_MinimalFee(n *Network, h uint32) (r uint64) {
	vf.Requires(func() bool { return n != nil })
	r = n.MinimalFee(h)
	vf.Ensures("schedule", func() bool {
		return h <= 216394 && r == 100000000 || h > 216394 && h <= 266000 && r == 100000000000 || h > 266000 && r == 10000000000
	})
	return
}

// The validator accepts 80% of the minimal fee between the upgrades at 266000 and 667000.
//vf:spec prop=K04 target=(*config.Network).MinimalFeeValidator
func Spec_MinimalFeeValidator(n *Network, h uint32) (r uint64) {
	vf.Requires(func() bool { return n != nil })
	r = n.MinimalFeeValidator(h)
	vf.Ensures("schedule", func() bool {
		return h <= 216394 && r == 100000000 || h > 216394 && h <= 266000 && r == 100000000000 ||
			h > 266000 && h < 667000 && r == 8000000000 || h >= 667000 && r == 10000000000
	})
	return
}

// Extra data beyond 100 bytes costs one hundredth of the minimal fee per byte.
//vf:spec prop=K04 target=(*config.Network).GetFeePerByte
func Spec_GetFeePerByte(n *Network, size, minFee uint64) (r uint64) {
	vf.Requires(func() bool { return n != nil && size <= 4294967295 && minFee <= 100000000000 })
	r = n.GetFeePerByte(size, minFee)
	vf.Ensures("free-below-100", func() bool { return size > 100 || r == 0 })
	vf.Ensures("formula", func() bool {
		return size <= 100 || vf.U(r).Eq(vf.U(minFee).Div(vf.N(100)).Mul(vf.U(size).Sub(vf.N(100))))
	})
	return
}
