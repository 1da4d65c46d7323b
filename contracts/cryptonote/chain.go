package cryptonote

import (
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

//vf:open cryptonote.Storage

// prevOf: start from the block with the given hash, go n steps back, and take the hash of the block before.
// With the previous hash of b as the start, prevOf(n) is the hash of the block n+1 steps before b.
func prevOf(s Storage, start crypto.Hash, n int) crypto.Hash {
	if n <= 0 {
		return start
	}
	h := prevOf(s, start, n-1)
	return s.GetBlock(&h).PreviousBlockHash
}

// before is the block n+1 steps before b on the chain that ends with b.
func before(s Storage, b *Block, n int) *Block {
	h := prevOf(s, b.PreviousBlockHash, n)
	return s.GetBlock(&h)
}

func timeOf(s Storage, b *Block, n int) uint64 {
	if n == 0 {
		return b.Timestamp
	}
	return before(s, b, n-1).Timestamp
}

// shown: how much of a long chain is looked at when a property is run instead of proved.
func shown(n, some int) int {
	if !vf.Symbolic() && n > some {
		return some
	}
	return n
}

// chained: every block before b is stored, one height lower each, down to the genesis block.
func chained(s Storage, b *Block) bool {
	return b != nil && vf.Forall(0, shown(int(b.Index()), 100), func(n int) bool {
		a := before(s, b, n)
		return a != nil && int(a.Index()) == int(b.Index())-n-1
	})
}

func chainReady(bc *BlockChain) bool {
	return bc != nil && bc.Network != nil && bc.storage != nil
}

// windowLen is how many of the last count blocks up to the given height there are.
func windowLen(count, index uint32, genesis bool) int {
	n := int(index) + 1
	if !genesis {
		n--
	}
	if n > int(count) {
		n = int(count)
	}
	return n
}

//vf:spec prop=K23 target=(*cryptonote.BlockChain).lastBlocksTimestamps contract=1 pure=1 inspec=1 unfold=prevOf
func Spec_lastBlocksTimestamps(bc *BlockChain, count uint32, b *Block, genesis bool) []uint64 {
	vf.Requires(func() bool { return chainReady(bc) && chained(bc.storage, b) })
	s := bc.storage
	r := bc.lastBlocksTimestamps(count, b, genesis)
	n := windowLen(count, b.Index(), genesis)
	vf.Ensures("length", func() bool { return len(r) == n })
	vf.Ensures("ascending-history", func() bool {
		return vf.Forall(0, n, func(i int) bool { return r[i] == timeOf(s, b, n-1-i) })
	})
	return r
}

func Inv_BlockChain_lastBlocksTimestamps_1(timestamps []uint64, tempBlock *Block, iter int, bc *BlockChain, b *Block, old_count uint32) bool {
	return len(timestamps) == iter && iter <= int(old_count) && iter <= int(b.Index()) && tempBlock != nil && tempBlock.Timestamp == timeOf(bc.storage, b, iter) &&
		tempBlock.PreviousBlockHash == prevOf(bc.storage, b.PreviousBlockHash, iter) && int(tempBlock.Index()) == int(b.Index())-iter &&
		vf.Forall(0, iter, func(i int) bool { return timestamps[i] == timeOf(bc.storage, b, i) })
}

// recorded: there is information about exactly the blocks up to the given height, as far as the window looks.
func recorded(s Storage, count, index uint32) bool {
	return count < 1<<31 && index < 1<<31 && vf.Forall(0, shown(int(index)+1, 100), func(k int) bool {
		i := s.getBlockInfoAtIndex(uint32(k))
		return i != nil && int(i.Index) == k
	}) && vf.Forall(1<<31, 1<<31+shown(1<<31, 100), func(k int) bool { return s.getBlockInfoAtIndex(uint32(k)) == nil })
}

//vf:spec prop=K23 target=(*cryptonote.BlockChain).lastBLockSizes contract=1 pure=1 inspec=1
func Spec_lastBLockSizes(bc *BlockChain, count, index uint32) []uint64 {
	vf.Requires(func() bool { return chainReady(bc) && recorded(bc.storage, count, index) })
	s := bc.storage
	r := bc.lastBLockSizes(count, index)
	n := windowLen(count, index, true)
	vf.Ensures("length", func() bool { return len(r) == n })
	vf.Ensures("ascending-history", func() bool {
		return vf.Forall(0, n, func(i int) bool { return r[i] == s.getBlockInfoAtIndex(uint32(int(index)-(n-1-i))).Size })
	})
	return r
}

func Inv_BlockChain_lastBLockSizes_1(sizes []uint64, tempInfo *blockInfo, iter int, bc *BlockChain, count, index uint32) bool {
	s := bc.storage
	next := s.getBlockInfoAtIndex(index - uint32(iter))
	return len(sizes) == iter && iter <= int(count) && iter <= int(index)+1 && (tempInfo == nil) == (next == nil) && (next == nil || tempInfo.Size == next.Size) &&
		vf.Forall(0, iter, func(i int) bool { return sizes[i] == s.getBlockInfoAtIndex(uint32(int(index)-i)).Size })
}

//vf:spec prop=K23 target=(*cryptonote.BlockChain).lastBlocksCumulativeDifficulties contract=1 pure=1 inspec=1
func Spec_lastBlocksCumulativeDifficulties(bc *BlockChain, count, index uint32, genesis bool) []uint64 {
	vf.Requires(func() bool { return chainReady(bc) && recorded(bc.storage, count, index) })
	s := bc.storage
	r := bc.lastBlocksCumulativeDifficulties(count, index, genesis)
	n := windowLen(count, index, genesis)
	vf.Ensures("length", func() bool { return len(r) == n })
	vf.Ensures("ascending-history", func() bool {
		return vf.Forall(0, n, func(i int) bool {
			return r[i] == s.getBlockInfoAtIndex(uint32(int(index)-(n-1-i))).CumulativeDifficulty
		})
	})
	return r
}

func Inv_BlockChain_lastBlocksCumulativeDifficulties_1(difficulties []uint64, tempInfo *blockInfo, iter int, bc *BlockChain, count, index uint32, addGenesisBlock bool) bool {
	s := bc.storage
	next := s.getBlockInfoAtIndex(index - uint32(iter))
	return len(difficulties) == iter && iter <= int(count) && iter <= int(index)+1 && (addGenesisBlock || iter <= int(index)) && (tempInfo == nil) == (next == nil) &&
		(next == nil || tempInfo.CumulativeDifficulty == next.CumulativeDifficulty && tempInfo.Index == next.Index) &&
		vf.Forall(0, iter, func(i int) bool {
			return difficulties[i] == s.getBlockInfoAtIndex(uint32(int(index)-i)).CumulativeDifficulty
		})
}

// The difficulty of the block after b follows from the last blocks up to b, without the genesis block.
//
//vf:spec prop=K23 target=(*cryptonote.BlockChain).difficultyForNextBlock opaque=(*config.Network).NextDifficulty;(*config.Network).DifficultyBlocksCountByBlockVersion;(*config.Network).GetBlockMajorVersion contract=1 pure=1 inspec=1
func Spec_difficultyForNextBlock(bc *BlockChain, b *Block) (uint64, error) {
	vf.Requires(func() bool {
		return chainReady(bc) && bc.bestTip != nil && chained(bc.storage, b) && b.Index() < 1<<31 &&
			recorded(bc.storage, bc.Network.DifficultyBlocksCountByBlockVersion(bc.Network.GetBlockMajorVersion(b.Index())), b.Index())
	})
	r, err := bc.difficultyForNextBlock(b)
	h := b.Index()
	version := bc.Network.GetBlockMajorVersion(h)
	n := bc.Network.DifficultyBlocksCountByBlockVersion(version)
	vf.Ensures("unknown-refused", func() bool { return h <= bc.bestTip.Index() || err != nil })
	vf.Ensures("history", func() bool {
		if h > bc.bestTip.Index() {
			return true
		}
		d, e := bc.Network.NextDifficulty(h, version, bc.lastBlocksTimestamps(n, b, false), bc.lastBlocksCumulativeDifficulties(n, h, false))
		return r == d && (err == nil) == (e == nil)
	})
	return r, err
}
