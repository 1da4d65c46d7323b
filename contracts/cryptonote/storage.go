package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

// Every stored block is a block of that height with its hash known, has block information of the same
// height and hash, and is found by its hash.
func stByIndex(s *memoryStorage) bool {
	return vf.ForallKey(func(k uint32) bool {
		b, ok := s.blockIndex[k]
		if !ok {
			return true
		}
		i, has := s.blockInfosIndex[k]
		return b != nil && b.hash != nil && b.Index() == k && has && i != nil && i.Index == k && i.Hash == *b.hash
	}, s.blockIndex)
}

func stHashed(s *memoryStorage) bool {
	return vf.ForallKey(func(k uint32) bool {
		b, ok := s.blockIndex[k]
		if !ok {
			return true
		}
		h, found := s.blockInfosHashIndex[*b.hash]
		return found && h != nil && h.Index == k
	}, s.blockIndex)
}

// Every hash of the index leads to a stored block with that hash.
func stByHash(s *memoryStorage) bool {
	return vf.ForallKey(func(h crypto.Hash) bool {
		i, ok := s.blockInfosHashIndex[h]
		if !ok {
			return true
		}
		if i == nil {
			return false
		}
		b, has := s.blockIndex[i.Index]
		return has && b != nil && b.hash != nil && *b.hash == h && i.Hash == h
	}, s.blockInfosHashIndex)
}

// The top block is the stored block of the greatest height.
func stTop(s *memoryStorage) bool {
	if s.topBlock == nil {
		return vf.ForallKey(func(k uint32) bool {
			_, ok := s.blockIndex[k]
			return !ok
		}, s.blockIndex)
	}
	t := s.topBlock.Index()
	b, ok := s.blockIndex[t]
	return s.topBlock.hash != nil && ok && *b.hash == *s.topBlock.hash && vf.ForallKey(func(k uint32) bool {
		_, ok := s.blockIndex[k]
		return !ok || k <= t
	}, s.blockIndex)
}

// Only heights that have block information have a block.
func stInfos(s *memoryStorage) bool {
	return vf.ForallKey(func(k uint32) bool {
		_, a := s.blockIndex[k]
		_, b := s.blockInfosIndex[k]
		return a == b
	}, s.blockIndex, s.blockInfosIndex)
}

func stMaps(s *memoryStorage) bool {
	return s != nil && s.blockIndex != nil && s.blockInfosIndex != nil && s.blockInfosHashIndex != nil && s.transactionsIndex != nil &&
		s.spentKeysImagesIndex != nil && s.spentMultisignatureGlobalIndexesIndex != nil
}

func stInv(s *memoryStorage) bool {
	return stMaps(s) && stByIndex(s) && stHashed(s) && stByHash(s) && stInfos(s) && stTop(s)
}

//vf:spec prop=K22 target=cryptonote.NewMemoryStorage
func Spec_NewMemoryStorage() {
	r := NewMemoryStorage()
	s, ok := r.(*memoryStorage)
	vf.Ensures("empty", func() bool { return ok && stMaps(s) && len(s.blockIndex) == 0 && s.topBlock == nil })
	vf.Ensures("well-formed", func() bool { return stInv(s) })
}

//vf:spec prop=K22 target=(*cryptonote.memoryStorage).PushBlock
func Spec_memoryStorage_PushBlock(s *memoryStorage, b *Block, i *blockInfo, d TransactionsDetails) (err error) {
	vf.Requires(func() bool { return stInv(s) && b != nil && b.hash != nil && i != nil })
	index := b.Index()
	hash := *b.hash
	_, taken := s.blockIndex[index]
	_, known := s.blockInfosHashIndex[hash]
	blocks := vf.Snapshot(s.blockIndex).(map[uint32]*Block)
	infos := vf.Snapshot(s.blockInfosIndex).(map[uint32]*blockInfo)
	vf.Modifies(s, s.blockIndex, s.blockInfosIndex, s.blockInfosHashIndex, s.transactionsIndex, s.spentKeysImagesIndex, s.spentMultisignatureGlobalIndexesIndex)
	err = s.PushBlock(b, i, d)
	vf.Ensures("verdict", func() bool {
		if i.Index != index || i.Hash != hash {
			return err != nil && err != ErrStorageBlockExists
		}
		if known || taken {
			return err == ErrStorageBlockExists
		}
		return err == nil
	})
	vf.Ensures("stored", func() bool {
		return err != nil || s.blockIndex[index] == b && s.blockInfosIndex[index] == i && s.blockInfosHashIndex[hash] == i
	})
	vf.Ensures("details", func() bool {
		return err != nil || vf.Eq(*s.transactionsIndex[index], d.transactions) && vf.Eq(*s.spentKeysImagesIndex[index], d.spentKeyImages) &&
			vf.Eq(*s.spentMultisignatureGlobalIndexesIndex[index], d.spentMultisignatureGlobalIndexes)
	})
	vf.Ensures("others-kept", func() bool {
		return vf.ForallKey(func(k uint32) bool {
			o, was := blocks[k]
			n, is := s.blockIndex[k]
			oi, wasI := infos[k]
			ni, isI := s.blockInfosIndex[k]
			if k == index && err == nil {
				return true
			}
			return was == is && wasI == isI && (!was || o.hash == nil || *n.hash == *o.hash) && (!wasI || *oi == *ni)
		}, blocks, s.blockIndex)
	})
	vf.Ensures("maps", func() bool { return stMaps(s) })
	vf.Ensures("by-index", func() bool { return stByIndex(s) })
	vf.Ensures("hashed", func() bool { return stHashed(s) })
	vf.Ensures("by-hash", func() bool { return stByHash(s) })
	vf.Ensures("infos", func() bool { return stInfos(s) })
	vf.Ensures("top", func() bool { return stTop(s) })
	return
}

//vf:spec prop=K22 target=(*cryptonote.memoryStorage).TopIndex
func Spec_memoryStorage_TopIndex(s *memoryStorage) (r uint32, err error) {
	vf.Requires(func() bool { return stInv(s) && s.topBlock != nil })
	r, err = s.TopIndex()
	vf.Ensures("highest", func() bool {
		_, ok := s.blockIndex[r]
		return err == nil && ok && vf.ForallKey(func(k uint32) bool {
			_, has := s.blockIndex[k]
			return !has || k <= r
		}, s.blockIndex)
	})
	return
}

//vf:spec prop=K22 target=(*cryptonote.memoryStorage).TopBlock
func Spec_memoryStorage_TopBlock(s *memoryStorage) (r *Block, err error) {
	vf.Requires(func() bool { return stInv(s) && s.topBlock != nil })
	r, err = s.TopBlock()
	vf.Ensures("top", func() bool { return err == nil && r == s.topBlock })
	return
}

//vf:spec prop=K22 target=(*cryptonote.memoryStorage).HaveBlock
func Spec_memoryStorage_HaveBlock(s *memoryStorage, h *crypto.Hash) (r bool) {
	vf.Requires(func() bool { return stInv(s) && h != nil })
	r = s.HaveBlock(h)
	vf.Ensures("stored", func() bool {
		return r == vf.ExistsKey(func(k uint32) bool {
			b, ok := s.blockIndex[k]
			return ok && *b.hash == *h
		}, s.blockIndex)
	})
	return
}

//vf:spec prop=K22 target=(*cryptonote.memoryStorage).GetBlock
func Spec_memoryStorage_GetBlock(s *memoryStorage, h *crypto.Hash) (r *Block) {
	vf.Requires(func() bool { return stInv(s) && h != nil })
	r = s.GetBlock(h)
	vf.Ensures("found", func() bool {
		return r != nil && r.hash != nil && *r.hash == *h || r == nil
	})
	vf.Ensures("complete", func() bool {
		return (r != nil) == vf.ExistsKey(func(k uint32) bool {
			b, ok := s.blockIndex[k]
			return ok && *b.hash == *h
		}, s.blockIndex)
	})
	return
}

//vf:spec prop=K22 target=(*cryptonote.memoryStorage).HashAtIndex
func Spec_memoryStorage_HashAtIndex(s *memoryStorage, index uint32) (r *crypto.Hash, err error) {
	vf.Requires(func() bool { return stInv(s) })
	r, err = s.HashAtIndex(index)
	vf.Ensures("hash", func() bool {
		b, ok := s.blockIndex[index]
		return err == nil && ok == (r != nil) && (!ok || *r == *b.hash)
	})
	return
}

//vf:spec prop=K22 target=(*cryptonote.memoryStorage).getBlockInfoAtIndex
func Spec_memoryStorage_getBlockInfoAtIndex(s *memoryStorage, index uint32) (r *blockInfo) {
	vf.Requires(func() bool { return stInv(s) })
	r = s.getBlockInfoAtIndex(index)
	vf.Ensures("info", func() bool {
		b, ok := s.blockIndex[index]
		return ok == (r != nil) && (!ok || r.Index == index && r.Hash == *b.hash)
	})
	return
}

// Initialising an empty storage stores the genesis block as the block of height zero.
//vf:spec prop=K22 target=(*cryptonote.memoryStorage).Init opaque=(*cryptonote.Transaction).Size
func Spec_memoryStorage_Init(s *memoryStorage, g *Block) (err error) {
	vf.Requires(func() bool { return stInv(s) && s.topBlock == nil && g != nil && g.hash != nil && g.Index() == 0 && len(g.BaseTransaction.Outputs) >= 1 })
	vf.Modifies(s, s.blockIndex, s.blockInfosIndex, s.blockInfosHashIndex, s.transactionsIndex, s.spentKeysImagesIndex, s.spentMultisignatureGlobalIndexesIndex)
	err = s.Init(g)
	vf.Ensures("accepted", func() bool { return err == nil })
	vf.Ensures("genesis", func() bool {
		i := s.blockInfosIndex[0]
		return s.blockIndex[0] == g && s.topBlock == g && i != nil && i.Hash == *g.hash && i.Index == 0 && i.CumulativeDifficulty == 1 &&
			i.TotalGeneratedCoins == g.BaseTransaction.Outputs[0].Amount && i.TotalGeneratedTransactions == 0 && i.Size == g.BaseTransaction.Size()
	})
	vf.Ensures("well-formed", func() bool { return stInv(s) })
	return
}

func genStBlock(g *vf.G) *Block {
	b := &Block{}
	b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{BlockIndex: uint32(g.N(6))}}
	if g.Chance(0.1) {
		b.BaseTransaction.Inputs = nil
	}
	b.BaseTransaction.Outputs = []TransactionOutput{{Amount: g.Uint64(), Target: OutputKey{}}}
	b.hash = &crypto.Hash{byte(g.N(6))}
	return b
}

func GenT_memoryStorage(g *vf.G) *memoryStorage {
	s := NewMemoryStorage().(*memoryStorage)
	if s.blockInfosHashIndex == nil {
		s.blockInfosHashIndex = map[crypto.Hash]*blockInfo{}
	}
	for n := g.N(5); n > 0; n-- {
		b := genStBlock(g)
		k := b.Index()
		i := &blockInfo{Index: k, Hash: *b.hash, Size: g.Uint64()}
		if s.blockIndex[k] != nil || s.blockInfosHashIndex[i.Hash] != nil {
			continue
		}
		s.blockIndex[k], s.blockInfosIndex[k], s.blockInfosHashIndex[i.Hash] = b, i, i
		if s.topBlock == nil || s.topBlock.Index() < k {
			s.topBlock = b
		}
	}
	return s
}

func Gen_memoryStorage_PushBlock(g *vf.G) (*memoryStorage, *Block, *blockInfo, TransactionsDetails) {
	b := genStBlock(g)
	i := &blockInfo{Index: b.Index(), Hash: *b.hash, Size: g.Uint64()}
	if g.Chance(0.2) {
		i.Index = uint32(g.N(6))
	}
	if g.Chance(0.2) {
		i.Hash[0] = byte(g.N(6))
	}
	d := TransactionsDetails{transactions: make([]Transaction, g.N(3)), spentKeyImages: make([]crypto.KeyImage, g.N(3))}
	return GenT_memoryStorage(g), b, i, d
}

func Gen_memoryStorage_Init(g *vf.G) (*memoryStorage, *Block) {
	b := genStBlock(g)
	b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{}}
	s := NewMemoryStorage().(*memoryStorage)
	return s, b
}

func Gen_memoryStorage_GetBlock(g *vf.G) (*memoryStorage, *crypto.Hash) {
	return GenT_memoryStorage(g), &crypto.Hash{byte(g.N(6))}
}

func Gen_memoryStorage_HaveBlock(g *vf.G) (*memoryStorage, *crypto.Hash) {
	return GenT_memoryStorage(g), &crypto.Hash{byte(g.N(6))}
}

func Gen_memoryStorage_HashAtIndex(g *vf.G) (*memoryStorage, uint32) {
	return GenT_memoryStorage(g), uint32(g.N(6))
}

func Gen_memoryStorage_getBlockInfoAtIndex(g *vf.G) (*memoryStorage, uint32) {
	return GenT_memoryStorage(g), uint32(g.N(6))
}
