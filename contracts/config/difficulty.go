package config

import (
	"math"

	"github.com/r3volut1oner/go-karbo/internal/vf"
)

func maxDiff(allowLow bool, d uint64) uint64 {
	if !allowLow && d < 100000 {
		return 100000
	}
	return d
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// Timestamps and cumulative difficulties that do not belong together are refused.
//vf:spec prop=K05 target=(*config.Network).NextDifficulty fails=1
func Spec_NextDifficulty_mismatch(n *Network, h uint32, v byte, ts, cd []uint64) {
	vf.Requires(func() bool {
		return n != nil && len(ts) != len(cd) && v != 3 && (v < 5 || h < 700000 || h > 700000+120)
	})
	vf.Modifies(ts, cd)
	_, err := n.NextDifficulty(h, v, ts, cd)
	vf.Ensures("refused", func() bool { return err != nil })
}

// Versions 0 and 1: total work of the middle of the window over its time span, rounded up.
//vf:spec prop=K05 target=(*config.Network).NextDifficulty
func Spec_NextDifficulty_v1(n *Network, h uint32, v byte, ts, cd []uint64) (r uint64, err error) {
	vf.Requires(func() bool { return n != nil && v <= 1 && len(ts) == len(cd) && len(ts) <= 360 })
	l := len(ts)
	vf.Modifies(ts)
	r, err = n.NextDifficulty(h, v, ts, cd)
	vf.Ensures("start", func() bool { return l > 1 || r == 1 && err == nil })
	vf.Ensures("formula", func() bool {
		if l <= 1 {
			return true
		}
		b, e := 0, l
		if l > 240 {
			b = (l - 240 + 1) / 2
			e = b + 240
		}
		work := cd[e-1] - cd[b]
		if work == 0 {
			return err != nil
		}
		span := ts[e-1] - ts[b] // the timestamps are sorted now
		if span == 0 {
			span = 1
		}
		num := vf.U(work).Mul(vf.N(240)).Add(vf.U(span)).Sub(vf.N(1))
		if vf.Pow2(64).Le(num) {
			return err == nil && r == 0
		}
		return err == nil && vf.U(r).Eq(num.Div(vf.U(span)))
	})
	vf.Ensures("sorted", func() bool {
		return l <= 1 || vf.Forall(1, l, func(i int) bool { return ts[i-1] <= ts[i] })
	})
	return
}

// Version 2: average difficulty scaled by the target over the average solve time.
//vf:spec prop=K05 target=(*config.Network).NextDifficulty
func Spec_NextDifficulty_v2(n *Network, h uint32, ts, cd []uint64) (r uint64, err error) {
	vf.Requires(func() bool { return n != nil && len(ts) == len(cd) && len(ts) <= 17 })
	l := len(ts)
	vf.Modifies(ts)
	r, err = n.NextDifficulty(h, 2, ts, cd)
	vf.Ensures("start", func() bool { return l > 1 || r == 1 && err == nil })
	vf.Ensures("formula", func() bool {
		if l <= 1 {
			return true
		}
		work := cd[l-1] - cd[0]
		if work == 0 {
			return err != nil
		}
		span := ts[l-1] - ts[0]
		if span == 0 {
			span = 1
		}
		num := vf.U(work).Mul(vf.N(240))
		if vf.Pow2(64).Le(num) {
			return err == nil && r == 0
		}
		q := num.Div(vf.U(span))
		floor := vf.Ite(n.allowLowDifficulty, vf.N(0), vf.N(100000))
		return err == nil && vf.U(r).Eq(vf.Ite(q.Lt(floor), floor, q))
	})
	return
}

// Version 3: the linearly weighted moving average over at most the first 61 entries.
func v3Solve(ts []uint64, i int) int64 {
	return min64(1680, max64(int64(ts[i])-int64(ts[i-1]), -1440))
}

func v3LWMA(ts []uint64, i int, k float64) float64 {
	if i <= 0 {
		return 0
	}
	return v3LWMA(ts, i-1, k) + float64(v3Solve(ts, i)*int64(i))/k
}

func v3Inv(cd []uint64, i int) float64 {
	if i <= 0 {
		return 0
	}
	return v3Inv(cd, i-1) + 1/float64(int64(cd[i])-int64(cd[i-1]))
}

//vf:spec prop=K05 target=(*config.Network).NextDifficulty
func Spec_NextDifficulty_v3(n *Network, h uint32, ts, cd []uint64) (r uint64, err error) {
	vf.Requires(func() bool { return n != nil && len(ts) == len(cd) })
	r, err = n.NextDifficulty(h, 3, ts, cd)
	vf.Ensures("no-error", func() bool { return err == nil })
	vf.Ensures("start", func() bool { return len(ts) >= 4 || r == 1 })
	vf.Ensures("floor", func() bool { return len(ts) < 4 || n.allowLowDifficulty || r >= 100000 })
	vf.Ensures("formula", func() bool {
		if len(ts) < 4 {
			return true
		}
		N := 60
		if len(ts) < 61 {
			N = len(ts) - 1
		}
		k := float64(N * (N + 1) / 2)
		wt, wc := ts[:N+1], cd[:N+1]
		lwma := v3LWMA(wt, N, k)
		if int64(math.Round(lwma)) < 12 {
			lwma = float64(240) / 20
		}
		mean := float64(N) / v3Inv(wc, N) * 0.998
		return r == maxDiff(n.allowLowDifficulty, uint64(mean*float64(240)/lwma))
	})
	return
}

func Inv_Network_nextDifficultyV3_1(i, N int, k, LWMA, sumInverseD float64, timestamps, cumulativeDifficulties []uint64) bool {
	return i >= 1 && i <= N+1 && N <= 60 && N >= 3 && len(timestamps) > N && len(cumulativeDifficulties) > N &&
		LWMA == v3LWMA(timestamps, i-1, k) && sumInverseD == v3Inv(cumulativeDifficulties, i-1)
}

// Version 4: LWMA-2 before height 300000, LWMA-3 from there.
func v4Max(ts []uint64, i int) int64 {
	if i <= 0 {
		return int64(ts[0])
	}
	p := v4Max(ts, i-1)
	if int64(ts[i]) > p {
		return int64(ts[i])
	}
	return p + 1
}

func v4Solve(h uint32, ts []uint64, i int) int64 {
	if h < 300000 {
		return max64(-1440, min64(1440, int64(ts[i])-int64(ts[i-1])))
	}
	return min64(1440, v4Max(ts, i)-v4Max(ts, i-1))
}

func v4L(h uint32, ts []uint64, i int) int64 {
	if i <= 0 {
		return 0
	}
	return v4L(h, ts, i-1) + v4Solve(h, ts, i)*int64(i)
}

//vf:spec prop=K05 target=(*config.Network).NextDifficulty constfuel=0
func Spec_NextDifficulty_v4(n *Network, h uint32, ts, cd []uint64) (r uint64, err error) {
	vf.Requires(func() bool { return n != nil && len(ts) == 61 && len(cd) == 61 })
	vf.Requires(func() bool { return vf.Forall(0, 61, func(i int) bool { return ts[i] < 1<<40 }) })
	vf.Requires(func() bool { return cd[0] <= cd[59] && cd[59] <= cd[60] && cd[60] < 1<<48 })
	r, err = n.NextDifficulty(h, 4, ts, cd)
	vf.Ensures("no-error", func() bool { return err == nil })
	prev := int64(cd[60] - cd[59])
	vf.Ensures("floor", func() bool { return n.allowLowDifficulty || r >= 100000 })
	vf.Ensures("clamped", func() bool {
		return int64(r) >= prev*67/100 && (int64(r) <= prev*150/100 || r == 100000)
	})
	vf.Ensures("formula", func() bool {
		L := v4L(h, ts, 60)
		if L == 0 {
			L = 1
		}
		d := int64(cd[60]-cd[0]) * 240 * 61 / (2 * L)
		d = d * 99 / 100
		d = max64(prev*67/100, min64(prev*150/100, d))
		if v4Solve(h, ts, 58)+v4Solve(h, ts, 59)+v4Solve(h, ts, 60) < 192 {
			d = prev * 110 / 100
		}
		if !n.allowLowDifficulty {
			d = max64(d, 100000)
		}
		return int64(r) == d
	})
	return
}

func Inv_Network_nextDifficultyV4_1(i, L, sum3ST, prevMaxTS int64, height uint32, timestamps []uint64) bool {
	s := int64(0)
	if i > 58 {
		s += v4Solve(height, timestamps, 58)
	}
	if i > 59 {
		s += v4Solve(height, timestamps, 59)
	}
	if i > 60 {
		s += v4Solve(height, timestamps, 60)
	}
	return i >= 1 && i <= 61 && L >= -86400*(i-1) && L <= 86400*(i-1) && L == v4L(height, timestamps, int(i)-1) && sum3ST == s &&
		(height < 300000 || prevMaxTS >= 0 && prevMaxTS < 1<<40+i && prevMaxTS == v4Max(timestamps, int(i)-1))
}

// Version 5: LWMA-1 with a reset at height 700000.
func v5Ts(ts []uint64, i int) int64 {
	if i <= 0 {
		return int64(ts[0]) - 240
	}
	p := v5Ts(ts, i-1)
	if int64(ts[i]) > p {
		return int64(ts[i])
	}
	return p + 1
}

func v5L(ts []uint64, i int) int64 {
	if i <= 0 {
		return 0
	}
	return v5L(ts, i-1) + int64(i)*min64(1440, v5Ts(ts, i)-v5Ts(ts, i-1))
}

func v5Round(d int64) int64 {
	for i := int64(1000000000); i > 1; i /= 10 {
		if d > i*100 {
			return (((d + i) / 2) / i) * i
		}
	}
	return d
}

func v5Formula(n *Network, N int, ts, cd []uint64) int64 {
	n64 := int64(N)
	L := v5L(ts, N)
	if L < 0 || L > 172800*n64 {
		return -1 // impossible, by the loop invariant
	}
	if L < n64*n64*240/20 {
		L = n64 * n64 * 240 / 20
	}
	avg := (int64(cd[N]) - int64(cd[0])) / n64
	d := (avg * n64 * (n64 + 1) * 240 * 99) / (L * 200)
	if avg > 2000000*n64*n64*240 {
		d = (avg / (200 * L)) * (n64 * (n64 + 1) * 240 * 99)
	}
	d = v5Round(d)
	if !n.allowLowDifficulty {
		d = max64(d, 100000)
	}
	return d
}

func v5Window(h uint32, v byte, ts, cd []uint64) bool {
	return v >= 5 && len(ts) == 121 && len(cd) == 121 &&
		vf.Forall(0, 121, func(i int) bool { return ts[i] < 1<<40 })
}

// The first block of the new epoch starts from a fraction of the average work.
//vf:spec prop=K05 target=(*config.Network).NextDifficulty constfuel=0
func Spec_NextDifficulty_v5_reset(n *Network, h uint32, v byte, ts, cd []uint64) (r uint64, err error) {
	vf.Requires(func() bool { return n != nil && h == 700000 && v5Window(h, v, ts, cd) })
	r, err = n.NextDifficulty(h, v, ts, cd)
	vf.Ensures("reset", func() bool { return err == nil && r == cd[0]/700000/1000 })
	return
}

// Within the first 120 blocks of the new epoch only its own blocks count; checked on concrete values only.
//vf:spec prop=K05 target=(*config.Network).NextDifficulty bounded=20000
func Spec_NextDifficulty_v5_epoch(n *Network, N uint32, v byte, ts, cd []uint64) (r uint64, err error) {
	vf.Requires(func() bool { return n != nil && N >= 1 && N < 120 && v5Window(700000+N, v, ts, cd) })
	r, err = n.NextDifficulty(700000+N, v, ts, cd)
	vf.Ensures("no-error", func() bool { return err == nil })
	vf.Ensures("formula", func() bool { return r == uint64(v5Formula(n, int(N), ts[120-N:], cd[120-N:])) })
	return
}

//vf:spec prop=K05 target=(*config.Network).NextDifficulty constfuel=0 nomerge=1
func Spec_NextDifficulty_v5(n *Network, h uint32, v byte, ts, cd []uint64) (r uint64, err error) {
	vf.Requires(func() bool { return n != nil && h >= 700120 && v5Window(h, v, ts, cd) })
	r, err = n.NextDifficulty(h, v, ts, cd)
	vf.Ensures("no-error", func() bool { return err == nil })
	vf.Ensures("formula", func() bool { return r == uint64(v5Formula(n, 120, ts, cd)) })
	return
}

func Inv_Network_nextDifficultyV5_1(i, L, N, T, previousTimestamp int64, timestamps []uint64) bool {
	return T == 240 && N >= 1 && N <= 120 && len(timestamps) > int(N) && i >= 1 && i <= N+1 &&
		L == v5L(timestamps, int(i)-1) && L >= 0 && L <= 172800*(i-1) &&
		previousTimestamp >= -240 && previousTimestamp < 1<<40+i && previousTimestamp == v5Ts(timestamps, int(i)-1)
}

// ---- inputs for the replay driver ----

func genWindow(g *vf.G, l int) (ts, cd []uint64) {
	t, c := g.Uint64()%(1<<32), g.Uint64()%(1<<40)
	step := uint64(1) << uint(g.N(36))
	for i := 0; i < l; i++ {
		ts = append(ts, t)
		cd = append(cd, c)
		switch g.N(8) {
		case 0:
			t -= g.Uint64() % 2000 % (t + 1)
		case 1:
			t += g.Uint64() % 10000
		default:
			t += g.Uint64() % 600
		}
		c += 1 + g.Uint64()%step
	}
	return
}

func genNet(g *vf.G) *Network { return &Network{allowLowDifficulty: g.Chance(0.5)} }

func Gen_NextDifficulty_v1(g *vf.G) (*Network, uint32, byte, []uint64, []uint64) {
	ts, cd := genWindow(g, g.N(361))
	return genNet(g), uint32(g.N(1000000)), byte(g.N(2)), ts, cd
}

func Gen_NextDifficulty_v2(g *vf.G) (*Network, uint32, []uint64, []uint64) {
	ts, cd := genWindow(g, g.N(18))
	return genNet(g), uint32(g.N(1000000)), ts, cd
}

func Gen_NextDifficulty_v3(g *vf.G) (*Network, uint32, []uint64, []uint64) {
	ts, cd := genWindow(g, g.N(70))
	return genNet(g), uint32(g.N(1000000)), ts, cd
}

func Gen_NextDifficulty_v4(g *vf.G) (*Network, uint32, []uint64, []uint64) {
	ts, cd := genWindow(g, 61)
	return genNet(g), uint32(g.N(700000)), ts, cd
}

func Gen_NextDifficulty_v5_reset(g *vf.G) (*Network, uint32, byte, []uint64, []uint64) {
	ts, cd := genWindow(g, 121)
	return genNet(g), 700000, 5, ts, cd
}

func Gen_NextDifficulty_v5_epoch(g *vf.G) (*Network, uint32, byte, []uint64, []uint64) {
	ts, cd := genWindow(g, 121)
	return genNet(g), uint32(1 + g.N(119)), byte(5 + g.N(2)), ts, cd
}

func Gen_NextDifficulty_v5(g *vf.G) (*Network, uint32, byte, []uint64, []uint64) {
	ts, cd := genWindow(g, 121)
	return genNet(g), uint32(700120 + g.N(1000)), byte(5 + g.N(2)), ts, cd
}
