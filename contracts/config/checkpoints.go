package config

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/internal/vf"
	log "github.com/sirupsen/logrus"
)

// The sorted list holds exactly the keys of the map.
func cpListed(cp *checkpoints) bool {
	return vf.Forall(0, len(cp.pointsSorted), func(i int) bool {
		_, ok := cp.points[cp.pointsSorted[i]]
		return ok
	})
}

func cpSorted(cp *checkpoints) bool {
	return vf.Forall(0, len(cp.pointsSorted), func(i int) bool {
		return vf.Forall(i, len(cp.pointsSorted), func(j int) bool { return cp.pointsSorted[i] <= cp.pointsSorted[j] })
	})
}

func cpComplete(cp *checkpoints) bool {
	return vf.ForallKey(func(k uint32) bool {
		_, ok := cp.points[k]
		return !ok || vf.Exists(0, len(cp.pointsSorted), func(i int) bool { return cp.pointsSorted[i] == k })
	}, cp.points)
}

func cpInv(cp *checkpoints) bool {
	return cp != nil && cp.logger != nil && cp.points != nil && cpListed(cp) && cpSorted(cp) && cpComplete(cp)
}

// A new list is empty and well formed.
//vf:spec prop=K06 target=config.NewCheckpoints
func Spec_NewCheckpoints(l *log.Logger) {
	vf.Requires(func() bool { return l != nil })
	c := NewCheckpoints(l)
	cp, ok := c.(*checkpoints)
	vf.Ensures("empty", func() bool { return ok && cpInv(cp) && len(cp.points) == 0 && len(cp.pointsSorted) == 0 })
}

//vf:spec prop=K06 target=(*config.checkpoints).AddCheckpoint
func Spec_AddCheckpoint(cp *checkpoints, index uint32, hash crypto.Hash) (err error) {
	vf.Requires(func() bool { return cpInv(cp) })
	_, had := cp.points[index]
	old := vf.Snapshot(cp.points).(map[uint32]crypto.Hash)
	vf.Modifies(cp, cp.points)
	err = cp.AddCheckpoint(index, hash)
	vf.Ensures("duplicate", func() bool {
		return had == (err != nil) && (err == nil || err == ErrCheckpointsAlreadyExists)
	})
	vf.Ensures("stored", func() bool { return had || cp.points[index] == hash })
	vf.Ensures("others-kept", func() bool {
		return vf.ForallKey(func(k uint32) bool {
			a, oka := cp.points[k]
			b, okb := old[k]
			return k == index && !had || oka == okb && a == b
		}, cp.points, old)
	})
	vf.Ensures("listed", func() bool { return cpListed(cp) })
	vf.Ensures("sorted", func() bool { return cpSorted(cp) })
	vf.Ensures("complete", func() bool { return cp.points != nil && cpComplete(cp) })
	return
}

//vf:spec prop=K06 target=(*config.checkpoints).IsInCheckpointZone
func Spec_IsInCheckpointZone(cp *checkpoints, index uint32) (r bool) {
	vf.Requires(func() bool { return cpInv(cp) })
	r = cp.IsInCheckpointZone(index)
	vf.Ensures("zone", func() bool {
		return r == vf.ExistsKey(func(k uint32) bool {
			_, ok := cp.points[k]
			return ok && k >= index && k != 0
		}, cp.points)
	})
	return
}

//vf:spec prop=K06 target=(*config.checkpoints).CheckBlock
func Spec_CheckBlock(cp *checkpoints, index uint32, hash *crypto.Hash) (err error) {
	vf.Requires(func() bool { return cpInv(cp) && hash != nil })
	err = cp.CheckBlock(index, hash)
	vf.Ensures("verdict", func() bool {
		p, ok := cp.points[index]
		if ok && p != *hash {
			return err == ErrCheckpointsFailed
		}
		return err == nil
	})
	return
}

//vf:spec prop=K06 target=(*config.checkpoints).AlternativeBlockAllowed
func Spec_AlternativeBlockAllowed(cp *checkpoints, size, index uint32) (err error) {
	vf.Requires(func() bool { return cpInv(cp) })
	err = cp.AlternativeBlockAllowed(size, index)
	zone := vf.ExistsKey(func(k uint32) bool {
		_, ok := cp.points[k]
		return ok && k >= index && k != 0
	}, cp.points)
	vf.Ensures("genesis", func() bool { return (index == 0) == (err == ErrCheckpointsAltBlockGenesis) })
	vf.Ensures("too-deep", func() bool {
		deep := index > 0 && size > 10 && index < size-10 && !zone
		return deep == (err == ErrCheckpointsTooDeepReorg)
	})
	vf.Ensures("before-checkpoint", func() bool {
		passed := vf.ExistsKey(func(k uint32) bool {
			_, ok := cp.points[k]
			return ok && k <= size && k >= index
		}, cp.points)
		if index == 0 || size > 10 && index < size-10 && !zone {
			return true
		}
		return passed && err == ErrCheckpointsAltBeforeCheckpoint || !passed && err == nil
	})
	return
}

func Inv_checkpoints_AlternativeBlockAllowed_1(rangeindex int, cp *checkpoints, checkpointHeight, bcSize uint32) bool {
	return vf.Forall(0, rangeindex+1, func(i int) bool {
		return cp.pointsSorted[i] > bcSize || cp.pointsSorted[i] <= checkpointHeight
	}) && checkpointHeight <= bcSize && vf.Exists(0, len(cp.pointsSorted), func(i int) bool { return cp.pointsSorted[i] == checkpointHeight })
}

func GenT_checkpoints(g *vf.G) *checkpoints {
	cp := NewCheckpoints(loggerNull()).(*checkpoints)
	for i := g.N(6); i > 0; i-- {
		k := uint32(g.N(40))
		if _, ok := cp.points[k]; ok {
			continue
		}
		var h crypto.Hash
		h[0] = byte(g.N(3))
		cp.points[k] = h
		i := 0
		for i < len(cp.pointsSorted) && cp.pointsSorted[i] < k {
			i++
		}
		cp.pointsSorted = append(cp.pointsSorted[:i], append([]uint32{k}, cp.pointsSorted[i:]...)...)
	}
	return cp
}

func loggerNull() *log.Logger {
	l := log.New()
	l.Out = nullWriter{}
	return l
}

type nullWriter struct{}

func (nullWriter) Write(b []byte) (int, error) { return len(b), nil }

func Gen_AlternativeBlockAllowed(g *vf.G) (*checkpoints, uint32, uint32) {
	return GenT_checkpoints(g), uint32(g.N(60)), uint32(g.N(60))
}

func Gen_IsInCheckpointZone(g *vf.G) (*checkpoints, uint32) {
	return GenT_checkpoints(g), uint32(g.N(60))
}

func Gen_AddCheckpoint(g *vf.G) (*checkpoints, uint32, crypto.Hash) {
	var h crypto.Hash
	h[0] = byte(g.N(3))
	return GenT_checkpoints(g), uint32(g.N(60)), h
}

func Gen_CheckBlock(g *vf.G) (*checkpoints, uint32, *crypto.Hash) {
	var h crypto.Hash
	h[0] = byte(g.N(3))
	return GenT_checkpoints(g), uint32(g.N(60)), &h
}
