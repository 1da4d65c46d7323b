package config

import "github.com/r3volut1oner/go-karbo/internal/vf"

// Base reward while emission lasts, then 2% of the emitted coins per year.
func baseRewardSpec(generated uint64) vf.Int {
	supply, tail := vf.U(10000000000000000000), vf.U(1000000000000)
	g := vf.U(generated)
	main := supply.Sub(g).Div(vf.Pow2(18))
	blocksPerYear := vf.N(365 * 24 * 60 * 60 / 240)
	tailReward := g.Div(vf.N(100)).Mul(vf.N(2)).Div(blocksPerYear)
	return vf.Ite(supply.Le(g.Add(tail)) || main.Lt(tail), tailReward, main)
}

//vf:spec prop=K02 target=(*config.Network).calculateReward contract=1
func Spec_calculateReward(n *Network, generated uint64) (r uint64) {
	vf.Requires(func() bool { return n != nil && generated <= 18446744073709551615-1000000000000 })
	r = n.calculateReward(generated)
	vf.Ensures("formula", func() bool { return vf.U(r).Eq(baseRewardSpec(generated)) })
	return
}

// The penalty for a block of size s over the median m is amount*(2m-s)*s/m^2, rounded down twice.
//vf:spec prop=K02 target=config.getPenalizedAmount contract=1
func Spec_getPenalizedAmount(amount, m, s uint64) (r uint64) {
	vf.Requires(func() bool { return m > 0 && m <= 4294967295 && s <= 2*m })
	r = getPenalizedAmount(amount, m, s)
	vf.Ensures("no-penalty", func() bool { return s > m || r == amount })
	vf.Ensures("formula", func() bool {
		if s <= m {
			return true
		}
		a, M, S := vf.U(amount), vf.U(m), vf.U(s)
		return vf.U(r).Eq(a.Mul(M.Mul(vf.N(2)).Sub(S).Mul(S)).Div(M).Div(M))
	})
	vf.Ensures("never-more", func() bool { return r <= amount })
	return
}

//vf:spec prop=K02 target=(config.Network).GetBlockReward contract=1
func Spec_GetBlockReward(n Network, version byte, median, size, generated, fee uint64) (reward, emission uint64, err error) {
	vf.Requires(func() bool {
		return median <= 2147483647 && size <= 4294967295 && generated <= 10000000000000000000 && fee <= 8000000000000000000
	})
	reward, emission, err = n.GetBlockReward(version, median, size, generated, fee)
	zone := vf.Ite(version >= 2, vf.N(1000000), vf.N(100000))
	m := vf.Ite(vf.U(median).Lt(zone), zone, vf.U(median))
	base := baseRewardSpec(generated)
	vf.Ensures("too-big", func() bool { return (err != nil) == m.Mul(vf.N(2)).Lt(vf.U(size)) })
	vf.Ensures("full-reward", func() bool {
		return m.Lt(vf.U(size)) || vf.U(reward).Eq(base.Add(vf.U(fee))) && vf.U(emission).Eq(base)
	})
	vf.Ensures("penalty", func() bool {
		if err != nil || vf.U(size).Le(m) {
			return true
		}
		k := m.Mul(vf.N(2)).Sub(vf.U(size)).Mul(vf.U(size))
		pb := base.Mul(k).Div(m).Div(m)
		pf := vf.U(fee).Mul(k).Div(m).Div(m)
		return vf.U(reward).Eq(pb.Add(pf))
	})
	vf.Ensures("emission-plus-fee", func() bool {
		return err != nil || vf.U(emission).Add(vf.U(fee)).Sub(vf.U(reward)).Mod(vf.Pow2(64)).Eq(vf.N(0))
	})
	vf.Ensures("bounded", func() bool { return err != nil || vf.U(reward).Le(base.Add(vf.U(fee))) })
	return
}
