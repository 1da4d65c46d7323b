package config

import "github.com/r3volut1oner/go-karbo/internal/vf"

func versionSpec(h uint32) byte {
	if h > 700000 {
		return 5
	}
	if h > 266000 {
		return 4
	}
	if h > 216000 {
		return 3
	}
	if h > 60000 {
		return 2
	}
	return 1
}

//vf:spec prop=K03 target=(*config.Network).GetBlockMajorVersion
func Spec_GetBlockMajorVersion(h uint32) (v byte) {
	n := MainNet()
	v = n.GetBlockMajorVersion(h)
	vf.Ensures("schedule", func() bool { return v == versionSpec(h) })
	return
}

//vf:spec prop=K03 target=(*config.Network).GetBlockMajorVersion
func Spec_GetBlockMajorVersion_test(h uint32) (v byte) {
	n := TestNet()
	v = n.GetBlockMajorVersion(h)
	vf.Ensures("schedule", func() bool { return v == versionSpec(h) })
	return
}

// Two consecutive heights: the version never decreases and every node computes the same one.
//vf:spec prop=K03 target=(*config.Network).GetBlockMajorVersion
func Spec_GetBlockMajorVersion_monotone(h, h2 uint32) {
	vf.Requires(func() bool { return h <= h2 })
	n := MainNet()
	v := n.GetBlockMajorVersion(h)
	v2 := n.GetBlockMajorVersion(h2)
	vf.Ensures("monotone", func() bool { return v <= v2 && v >= 1 && v2 <= 5 })
}

//vf:spec prop=K03 target=(*config.Network).BlockFutureTimeLimit
func Spec_BlockFutureTimeLimit(n *Network, v byte) (r uint64) {
	vf.Requires(func() bool { return n != nil })
	r = n.BlockFutureTimeLimit(v)
	vf.Ensures("limit", func() bool { return v >= 4 && r == 720 || v < 4 && r == 1680 })
	return
}

//vf:spec prop=K03 target=(*config.Network).BlockTimestampCheckWindow
func Spec_BlockTimestampCheckWindow(n *Network, v byte) (r uint32) {
	vf.Requires(func() bool { return n != nil })
	r = n.BlockTimestampCheckWindow(v)
	vf.Ensures("window", func() bool { return v >= 4 && r == 11 || v < 4 && r == 60 })
	return
}

//vf:spec prop=K03 target=(*config.Network).DifficultyBlocksCountByBlockVersion
func Spec_DifficultyBlocksCount(n *Network, v byte) (r uint32) {
	vf.Requires(func() bool { return n != nil })
	r = n.DifficultyBlocksCountByBlockVersion(v)
	vf.Ensures("count", func() bool {
		return v >= 5 && r == 121 || (v == 3 || v == 4) && r == 61 || v == 2 && r == 17 || v <= 1 && r == 24*60*60/240+15
	})
	return
}

//vf:spec prop=K03 target=(*config.Network).BlockGrantedFullRewardZoneByBlockVersion
func Spec_RewardZone(n *Network, v byte) (r uint64) {
	vf.Requires(func() bool { return n != nil })
	r = n.BlockGrantedFullRewardZoneByBlockVersion(v)
	vf.Ensures("zone", func() bool { return v >= 2 && r == 1000000 || v < 2 && r == 100000 })
	return
}

//vf:spec prop=K03 target=(*config.Network).MaxBlockSize
func Spec_MaxBlockSize(h uint64) (r uint64) {
	vf.Requires(func() bool { return h <= 4294967295 })
	n := MainNet()
	r = n.MaxBlockSize(h)
	vf.Ensures("growth", func() bool {
		return vf.U(r).Eq(vf.N(1000000).Add(vf.U(h).Mul(vf.N(100 * 1024)).Div(vf.N(365 * 24 * 60 * 60 / 240))))
	})
	return
}

//vf:spec prop=K03 target=(*config.Network).MaxTransactionSize
func Spec_MaxTransactionSize(n *Network, h uint32) (r uint64) {
	vf.Requires(func() bool { return n != nil })
	r = n.MaxTransactionSize(h)
	vf.Ensures("limit", func() bool { return h > 266000 && r == 1000000/4-600 || h <= 266000 && r == 18446744073709551615 })
	return
}

//vf:spec prop=K03 target=(*config.Network).FusionMaxTxSize
func Spec_FusionMaxTxSize(n *Network, h uint32) (r uint64) {
	vf.Requires(func() bool { return n != nil })
	r = n.FusionMaxTxSize(h)
	vf.Ensures("limit", func() bool { return h > 216000 && r == 30000 || h <= 216000 && r == 300000 })
	return
}
