package cryptonote

import (
	"errors"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/internal/vf"
	"github.com/r3volut1oner/go-karbo/utils"
	log "github.com/sirupsen/logrus"
)

// madeStorage holds a whole chain that is made up as it is asked for.
type madeStorage struct {
	seed  uint64
	top   uint32
	start uint64
	step  uint64
	full  bool // takes nothing more
}

func (m *madeStorage) noise(i uint32, k uint64) uint64 {
	x := (uint64(i)*31+k)*0x9E3779B97F4A7C15 + m.seed
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	return x ^ x>>32
}

func (m *madeStorage) hashAt(i uint32) crypto.Hash {
	return crypto.Hash{byte(i), byte(i >> 8), byte(i >> 16), byte(i >> 24), 1, byte(m.seed)}
}

func (m *madeStorage) blockAt(i uint32) *Block {
	b := &Block{}
	h := m.hashAt(i)
	b.hash = &h
	b.MajorVersion = config.MainNet().GetBlockMajorVersion(i)
	b.Timestamp = m.start + uint64(i)*m.step + m.noise(i, 1)%600
	b.BaseTransaction.Inputs = []TransactionInput{InputCoinbase{i}}
	if i > 0 {
		b.PreviousBlockHash = m.hashAt(i - 1)
	}
	return b
}

func (m *madeStorage) Init(*Block) error         { return nil }
func (m *madeStorage) TopIndex() (uint32, error) { return m.top, nil }
func (m *madeStorage) TopBlock() (*Block, error) { return m.blockAt(m.top), nil }
func (m *madeStorage) Close() error              { return nil }
func (m *madeStorage) HaveBlock(h *crypto.Hash) bool {
	return m.GetBlock(h) != nil
}
func (m *madeStorage) PushBlock(b *Block, info *blockInfo, d TransactionsDetails) error {
	pushGhost = pushLog{pushGhost.count + 1, b, *info, d}
	if m.full {
		return errors.New("full")
	}
	return nil
}
func (m *madeStorage) GetBlock(h *crypto.Hash) *Block {
	i := uint32(h[0]) | uint32(h[1])<<8 | uint32(h[2])<<16 | uint32(h[3])<<24
	if i > m.top || *h != m.hashAt(i) {
		return nil
	}
	return m.blockAt(i)
}
func (m *madeStorage) HashAtIndex(i uint32) (*crypto.Hash, error) {
	h := m.hashAt(i)
	return &h, nil
}
func (m *madeStorage) getBlockInfoAtIndex(i uint32) *blockInfo {
	if i > m.top {
		return nil
	}
	return &blockInfo{Index: i, Hash: m.hashAt(i), CumulativeDifficulty: uint64(i)*100000 + m.noise(i, 2)%50000, TotalGeneratedTransactions: uint64(i) * 3,
		TotalGeneratedCoins: 1000000000000 * uint64(i+1), Timestamp: m.blockAt(i).Timestamp, Size: m.noise(i, 3) % 3000}
}

// genChain: a chain with a top block, near one of the heights where the rules change or near its start.
func genChain(g *vf.G) (*BlockChain, *madeStorage) {
	m := &madeStorage{seed: g.Uint64(), step: 240, top: uint32(g.N(40))}
	if g.Chance(0.7) {
		m.top = genHeight(g) % (1 << 30)
	}
	now := uint64(time.Now().Unix())
	m.start = now - uint64(m.top)*m.step
	bc := NewBlockChain(config.MainNet(), m, GenT_Logger(g))
	bc.Checkpoints = GenT_Checkpoints(g)
	bc.bestTip = m.blockAt(m.top)
	return bc, m
}

func Gen_lastBlocksTimestamps(g *vf.G) (*BlockChain, uint32, *Block, bool) {
	bc, m := genChain(g)
	return bc, uint32(g.N(80)), m.blockAt(m.top - uint32(g.N(3))%(m.top+1)), g.Chance(0.5)
}

func Gen_lastBLockSizes(g *vf.G) (*BlockChain, uint32, uint32) {
	bc, m := genChain(g)
	return bc, uint32(g.N(80)), m.top - uint32(g.N(3))%(m.top+1)
}

func Gen_lastBlocksCumulativeDifficulties(g *vf.G) (*BlockChain, uint32, uint32, bool) {
	bc, c, i := Gen_lastBLockSizes(g)
	return bc, c, i, g.Chance(0.5)
}

func Gen_difficultyForNextBlock(g *vf.G) (*BlockChain, *Block) {
	bc, m := genChain(g)
	if g.Chance(0.1) {
		bc.bestTip = m.blockAt(m.top / 2)
	}
	return bc, m.blockAt(m.top - uint32(g.N(3))%(m.top+1))
}

func genKey(g *vf.G) crypto.PublicKey {
	k := crypto.PublicKey(crypto.G)
	if g.Chance(0.1) {
		k[1] ^= byte(g.N(8))
	}
	return k
}

// genNext: a block on top of the chain, valid but for something.
func genNext(g *vf.G, bc *BlockChain, m *madeStorage) (b, prev *Block) {
	b, prev = genSound(g, bc, m)
	if g.Chance(0.6) {
		spoil(g, bc, b, prev)
	}
	return
}

// genSound: a valid block on top of the chain, reward and signature aside.
func genSound(g *vf.G, bc *BlockChain, m *madeStorage) (b, prev *Block) {
	prev = m.blockAt(m.top)
	b = &Block{}
	h := m.top + 1
	b.MajorVersion = bc.Network.GetBlockMajorVersion(h)
	b.PreviousBlockHash = m.hashAt(m.top)
	b.Timestamp = prev.Timestamp + uint64(g.N(2000))
	t := &b.BaseTransaction
	t.Version = 1
	t.UnlockHeight = uint64(h + bc.Network.MinedMoneyUnlockWindow())
	t.Inputs = []TransactionInput{InputCoinbase{h}}
	n := 1
	if b.MajorVersion < config.BlockMajorVersion5 {
		n = 1 + g.N(3)
	}
	for ; n > 0; n-- {
		o := TransactionOutput{Amount: 1 + genAmount(g)>>uint(g.N(20)), Target: OutputKey{genKey(g)}}
		if b.MajorVersion < config.BlockMajorVersion5 && g.Chance(0.2) {
			o.Target = OutputMultisignature{RequiredSignaturesCount: byte(1 + g.N(2)), Keys: []crypto.PublicKey{genKey(g), genKey(g)}}
		}
		t.Outputs = append(t.Outputs, o)
	}
	if hasParent(b.MajorVersion) {
		b.Parent = &ParentBlock{MajorVersion: 1}
		b.Parent.BaseTransaction.TransactionPrefix = &TransactionPrefix{Version: 1, Inputs: []TransactionInput{InputCoinbase{5}}}
		if g.Chance(0.3) {
			n := 2048 - len(b.Parent.serialize(false)) - 1 // the length of the extra data takes one byte more
			b.Parent.BaseTransaction.Extra = make([]byte, n+g.N(3)-1)
		}
	}
	b.Signature = &crypto.Signature{}
	return
}

func spoil(g *vf.G, bc *BlockChain, b, prev *Block) {
	t, h := &b.BaseTransaction, prev.Index()+1
	switch g.N(14) {
	case 0:
		b.MajorVersion = byte(g.N(7))
	case 1:
		b.Timestamp = uint64(time.Now().Unix()) + uint64(g.N(15000))
	case 2:
		b.Timestamp = utils.MedianSlice(bc.lastBlocksTimestamps(bc.Network.BlockTimestampCheckWindow(b.MajorVersion), prev, true)) + uint64(g.N(3)) - 1
	case 3:
		b.Timestamp -= uint64(g.N(60) * 240)
	case 4:
		t.Inputs = append(t.Inputs, genInput(g))
	case 5:
		t.Inputs = []TransactionInput{genInput(g)}
	case 6:
		t.Inputs = []TransactionInput{InputCoinbase{h + uint32(g.N(3)) - 1}}
	case 7:
		t.UnlockHeight += uint64(g.N(3)) - 1 + uint64(g.N(2))<<32
	case 8:
		t.TransactionSignatures = append(t.TransactionSignatures, []crypto.Signature{})
	case 9:
		t.Extra = append([]byte{0x03, 33, 1}, make([]byte, 32)...)
	case 10:
		t.Extra = g.Bytes(1020 + g.N(10))
	case 11:
		t.Outputs = append(t.Outputs, genOutput(g))
	case 12:
		t.Outputs = append(t.Outputs, TransactionOutput{Amount: ^uint64(0) - uint64(g.N(3)), Target: OutputKey{genKey(g)}})
	case 13:
		if b.Parent != nil {
			b.Parent.MajorVersion = byte(g.N(4))
		}
	}
	if hasParent(b.MajorVersion) && b.Parent == nil {
		b.Parent = &ParentBlock{MajorVersion: 1}
		b.Parent.BaseTransaction.TransactionPrefix = &TransactionPrefix{}
	}
}

func Gen_validateBlock(g *vf.G) (*BlockChain, *log.Entry, *Block, *Block) {
	bc, m := genChain(g)
	b, prev := genNext(g, bc, m)
	return bc, log.NewEntry(bc.logger), b, prev
}

func genRaw(g *vf.G) [][]byte {
	var rt [][]byte
	for n := g.N(4); n > 0; n-- {
		raw := txWire(genCanonical(g)).Bytes()
		switch g.N(8) {
		case 0:
			raw = g.Mutate(raw)
		case 1:
			raw = append(raw, g.Bytes(1+g.N(3))...)
		case 2:
			raw = raw[:g.N(len(raw))]
		}
		rt = append(rt, raw)
	}
	return rt
}

func Gen_deserializeTransactions(g *vf.G) (*BlockChain, *log.Entry, [][]byte) {
	bc, _ := genChain(g)
	rt := genRaw(g)
	if g.Chance(0.02) { // near the limit on the size
		t := genCanonical(g)
		t.Extra = nil
		t.Extra = make([]byte, int(bc.Network.MaxTxSize)-len(txWire(t).Bytes())-2+g.N(3)-1)
		rt = append(rt, txWire(t).Bytes())
	}
	return bc, log.NewEntry(bc.logger), rt
}

func Gen_deserializeTransactions_exact(g *vf.G) (*BlockChain, *log.Entry, [][]byte, int) {
	bc, l, rt := Gen_deserializeTransactions(g)
	if len(rt) == 0 {
		rt = [][]byte{txWire(genCanonical(g)).Bytes()}
	}
	return bc, l, rt, g.N(len(rt))
}

// genSpend: a transaction a block may hold where a checkpoint vouches for the signatures; key images count from n.
func genSpend(g *vf.G, bc *BlockChain, h uint32, n *byte) *Transaction {
	t := &Transaction{}
	t.Version = 1
	sum := bc.Network.MinimalFeeValidator(h) + uint64(g.N(1000))
	mixin := bc.Network.MinMixin()
	for k := 1 + g.N(3); k > 0; k-- {
		o := TransactionOutput{Amount: 1 + uint64(g.N(1000000)), Target: OutputKey{crypto.PublicKey(crypto.G)}}
		sum += o.Amount
		t.Outputs = append(t.Outputs, o)
	}
	for k := 1 + g.N(2); k > 0; k-- {
		i := InputKey{Amount: sum / uint64(k)}
		sum -= i.Amount
		for j := 0; j < mixin; j++ {
			i.OutputIndexes = append(i.OutputIndexes, uint32(1+g.N(1000)))
		}
		i.KeyImage[0] = *n
		*n++
		t.Inputs = append(t.Inputs, i)
		t.TransactionSignatures = append(t.TransactionSignatures, make([]crypto.Signature, mixin))
	}
	return t
}

func Gen_AddBlock(g *vf.G) (*BlockChain, *Block, [][]byte) {
	bc, m := genChain(g)
	m.full = g.Chance(0.05)
	h := m.top + 1
	if g.Chance(0.7) {
		bc.Checkpoints.AddCheckpoint(h+1+uint32(g.N(3)), crypto.Hash{1})
	}
	b, prev := genSound(g, bc, m)
	var rt [][]byte
	fee := uint64(0)
	n := byte(1)
	if bc.Checkpoints.IsInCheckpointZone(h + 1) {
		for k := g.N(4); k > 0; k-- {
			t := genSpend(g, bc, h, &n)
			raw := txWire(t).Bytes()
			if g.Chance(0.1) {
				n--
			}
			again := 1
			if g.Chance(0.05) {
				again = 2
			}
			for ; again > 0; again-- {
				rt = append(rt, raw)
				b.TransactionsHashes = append(b.TransactionsHashes, *t.Hash())
				fee += keySum(t.Inputs, len(t.Inputs)).Sub(outSum(t.Outputs, len(t.Outputs))).Low64()
			}
		}
	}
	bt := &b.BaseTransaction
	for i := range bt.Outputs {
		bt.Outputs[i].Amount = 1
	}
	last := m.getBlockInfoAtIndex(m.top)
	median := utils.MedianSlice(bc.lastBLockSizes(bc.Network.RewardBlockWindow(), m.top))
	bad := g.Chance(0.3)
	if bad && g.Chance(0.4) {
		spoil(g, bc, b, prev)
	}
	for i := 0; i < 6 && len(bt.Outputs) > 0; i++ {
		sum := outSum(bt.Outputs, len(bt.Outputs)).Low64()
		size := vf.N(len(txWire(&Transaction{TransactionPrefix: bt.TransactionPrefix, TransactionSignatures: bt.TransactionSignatures}).Bytes())).Low64()
		size += rawSum(rt, len(rt)).Low64()
		if reward, _, err := bc.Network.GetBlockReward(b.MajorVersion, median, size, last.TotalGeneratedCoins, fee); err == nil {
			bt.Outputs[0].Amount += reward - sum
		}
	}
	if bad {
		switch g.N(12) {
		case 0:
			bt.Outputs = append(bt.Outputs, bt.Outputs...)
		case 1:
			for i := range bt.Outputs {
				bt.Outputs[i].Amount += uint64(g.N(3)) - 1
			}
		case 2:
			if len(rt) > 0 {
				rt = rt[1:]
			}
		case 3:
			rt = append(rt, genRaw(g)...)
		case 4:
			if k := len(b.TransactionsHashes); k > 0 {
				b.TransactionsHashes[g.N(k)][3] ^= 1
			}
		case 5:
			b.PreviousBlockHash[5] ^= 1
		case 6:
			bt.Inputs = []TransactionInput{InputCoinbase{h + uint32(g.N(3)) - 1}}
		case 7:
			bc.Checkpoints.AddCheckpoint(h, crypto.Hash{2})
		case 8:
			bt.Extra = make([]byte, 900)
		case 9:
			m.top-- // the block is a new one over a block that is missing
		}
	}
	if !bad && g.Chance(0.3) {
		bc.Checkpoints.AddCheckpoint(h, *b.Hash())
		b.hash = nil
	}
	if b.MajorVersion >= config.BlockMajorVersion5 {
		hash := crypto.HashFromBytes(b.HashingBytes())
		b.Signature, _ = hash.Sign(&crypto.SecretKey{1})
		if bad && g.Chance(0.2) {
			b.Signature.R[2] ^= 1
		}
	}
	return bc, b, rt
}
