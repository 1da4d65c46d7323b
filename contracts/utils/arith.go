package utils

import "github.com/r3volut1oner/go-karbo/internal/vf"

//vf:spec prop=K01 target=utils.Mul128 contract=1
func Spec_Mul128(a, b uint64) (lo, hi uint64) {
	lo, hi = Mul128(a, b)
	vf.Ensures("product", func() bool {
		return vf.U(hi).Mul(vf.Pow2(64)).Add(vf.U(lo)).Eq(vf.U(a).Mul(vf.U(b)))
	})
	return
}

// Div128p32 returns the low quotient word first.
//vf:spec prop=K01 target=utils.Div128p32 contract=1
func Spec_Div128p32(hi, lo uint64, d uint32) (q0, q1 uint64) {
	vf.Requires(func() bool { return d != 0 })
	q0, q1 = Div128p32(hi, lo, d)
	vf.Ensures("quotient", func() bool {
		n := vf.U(hi).Mul(vf.Pow2(64)).Add(vf.U(lo))
		q := vf.U(q1).Mul(vf.Pow2(64)).Add(vf.U(q0))
		dd := vf.U(uint64(d))
		return q.Mul(dd).Le(n) && n.Lt(q.Mul(dd).Add(dd))
	})
	return
}

//vf:spec prop=K01 target=utils.ClampInt64
func Spec_ClampInt64(lo, v, hi int64) (r int64) {
	vf.Requires(func() bool { return lo <= hi })
	r = ClampInt64(lo, v, hi)
	vf.Ensures("within", func() bool { return lo <= r && r <= hi })
	vf.Ensures("identity", func() bool { return r == v || (v < lo && r == lo) || (v > hi && r == hi) })
	return
}

//vf:spec prop=K01 target=utils.MinUint64
func Spec_MinUint64(a, b uint64) (r uint64) {
	r = MinUint64(a, b)
	vf.Ensures("min", func() bool { return r <= a && r <= b && (r == a || r == b) })
	return
}

//vf:spec prop=K01 target=utils.SliceReverse
func Spec_SliceReverse(s []uint64) (r []uint64) {
	old := vf.Snapshot(s).([]uint64)
	vf.Modifies(s)
	r = SliceReverse(s)
	vf.Ensures("length", func() bool { return len(r) == len(old) })
	vf.Ensures("reversed", func() bool {
		return vf.Forall(0, len(r), func(i int) bool { return r[i] == old[len(old)-1-i] })
	})
	return
}

func Inv_SliceReverse_1(i, j int, s []uint64, entry_s []uint64) bool {
	n := len(s)
	return i >= 0 && j == n-1-i && i <= n && len(entry_s) == n &&
		vf.Forall(0, n, func(k int) bool {
			if k < i || k > j {
				return s[k] == entry_s[n-1-k]
			}
			return s[k] == entry_s[k]
		})
}

//vf:spec prop=K01 target=utils.MaxUint64
func Spec_MaxUint64(a, b uint64) (r uint64) {
	r = MaxUint64(a, b)
	vf.Ensures("max", func() bool { return r >= a && r >= b && (r == a || r == b) })
	return
}

//vf:spec prop=K01 target=utils.MinInt64
func Spec_MinInt64(a, b int64) (r int64) {
	r = MinInt64(a, b)
	vf.Ensures("min", func() bool { return r <= a && r <= b && (r == a || r == b) })
	return
}

//vf:spec prop=K01 target=utils.MaxInt64
func Spec_MaxInt64(a, b int64) (r int64) {
	r = MaxInt64(a, b)
	vf.Ensures("max", func() bool { return r >= a && r >= b && (r == a || r == b) })
	return
}

//vf:spec prop=K01 target=utils.SliceIsUniqueUint32
func Spec_SliceIsUniqueUint32(s []uint32) (r bool) {
	r = SliceIsUniqueUint32(&s)
	vf.Ensures("unique", func() bool {
		return r == vf.Forall(0, len(s), func(i int) bool {
			return vf.Forall(0, i, func(j int) bool { return s[i] != s[j] })
		})
	})
	return
}

func Inv_SliceIsUniqueUint32_1(uniq map[uint32]bool, rangeindex int, s *[]uint32) bool {
	n := rangeindex + 1
	return n >= 0 && n <= len(*s) &&
		vf.Forall(0, n, func(i int) bool { _, ok := uniq[(*s)[i]]; return ok }) &&
		vf.ForallKey(func(k uint32) bool {
			_, ok := uniq[k]
			return !ok || vf.Exists(0, n, func(i int) bool { return (*s)[i] == k })
		}, uniq) &&
		vf.Forall(0, n, func(i int) bool {
			return vf.Forall(0, i, func(j int) bool { return (*s)[i] != (*s)[j] })
		})
}

//vf:spec prop=K01 target=utils.SliceIsSortedUint32
func Spec_SliceIsSortedUint32(s []uint32) (r bool) {
	r = SliceIsSortedUint32(&s)
	vf.Ensures("sorted", func() bool {
		return r == vf.Forall(1, len(s), func(i int) bool { return s[i-1] <= s[i] })
	})
	return
}

// MedianSlice sorts its argument and returns the middle element, or the mean of the two middle
// elements rounded down.
//vf:spec prop=K01 target=utils.MedianSlice contract=1
func Spec_MedianSlice(sl []uint64) (r uint64) {
	n := len(sl)
	old := vf.Snapshot(sl).([]uint64)
	vf.Modifies(sl)
	r = MedianSlice(sl)
	vf.Ensures("nothing-added", func() bool {
		return vf.Forall(0, n, func(i int) bool {
			return vf.Exists(0, n, func(j int) bool { return sl[i] == old[j] })
		})
	})
	vf.Ensures("nothing-lost", func() bool {
		return vf.Forall(0, n, func(i int) bool {
			return vf.Exists(0, n, func(j int) bool { return old[i] == sl[j] })
		})
	})
	vf.Ensures("empty", func() bool { return n != 0 || r == 0 })
	vf.Ensures("sorted", func() bool { return vf.Forall(1, n, func(i int) bool { return sl[i-1] <= sl[i] }) })
	vf.Ensures("odd", func() bool { return n%2 == 0 || r == sl[n/2] })
	vf.Ensures("even", func() bool {
		return n == 0 || n%2 == 1 || vf.U(r).Eq(vf.U(sl[n/2-1]).Add(vf.U(sl[n/2])).Div(vf.N(2)))
	})
	return
}
