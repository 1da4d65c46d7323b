package cryptonote

import (
	"io/ioutil"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/internal/vf"
	log "github.com/sirupsen/logrus"
)

// Generators of sensible inputs for the search of failing inputs on the real code.

func GenT_Logger(g *vf.G) *log.Logger {
	l := log.New()
	l.Out = ioutil.Discard
	return l
}

func GenT_Network(g *vf.G) *config.Network {
	if g.Chance(0.3) {
		return config.TestNet()
	}
	return config.MainNet()
}

func GenT_Checkpoints(g *vf.G) config.Checkpoints {
	c := config.NewCheckpoints(GenT_Logger(g))
	for n := g.N(4); n > 0; n-- {
		c.AddCheckpoint(genHeight(g), crypto.Hash{byte(g.N(6))})
	}
	return c
}

func genHeight(g *vf.G) uint32 {
	hs := []uint32{0, config.UpgradeHeightV2, config.UpgradeHeightV3, config.UpgradeHeightV3s1, config.UpgradeHeightV4, config.UpgradeHeightV4s1,
		config.UpgradeHeightV4s2, config.UpgradeHeightV4s3, config.UpgradeHeightV5}
	if g.Chance(0.1) {
		return uint32(g.Uint64())
	}
	return hs[g.N(len(hs))] + uint32(g.N(3)) - 1 + uint32(g.N(2))*uint32(g.N(1000))
}

func genAmount(g *vf.G) uint64 {
	a := uint64(g.N(10))
	for k := g.N(20); k > 0; k-- {
		a *= 10
	}
	switch g.N(8) {
	case 0:
		return g.Uint64()
	case 1:
		return a + uint64(g.N(3))
	}
	return a
}

func genInput(g *vf.G) TransactionInput {
	switch g.N(12) {
	case 0:
		return InputCoinbase{uint32(g.N(100))}
	case 1:
		return InputMultiSignature{Amount: genAmount(g), SignatureCount: uint8(g.N(3)), OutputIndex: uint32(g.N(5))}
	}
	i := InputKey{Amount: genAmount(g)}
	for n := g.N(6); n > 0; n-- {
		i.OutputIndexes = append(i.OutputIndexes, uint32(g.N(9)))
	}
	i.KeyImage[0] = byte(g.N(200))
	return i
}

func genOutput(g *vf.G) TransactionOutput {
	o := TransactionOutput{Amount: genAmount(g)}
	switch g.N(12) {
	case 0:
		m := OutputMultisignature{RequiredSignaturesCount: byte(g.N(4))}
		for n := g.N(4); n > 0; n-- {
			m.Keys = append(m.Keys, crypto.PublicKey{byte(g.N(200))})
		}
		o.Target = m
	case 1:
		o.Target = InputCoinbase{}
	default:
		o.Target = OutputKey{crypto.PublicKey{byte(g.N(200))}}
	}
	return o
}

func GenT_Transaction(g *vf.G) *Transaction {
	t := &Transaction{}
	t.Version = byte(1 + g.N(2))
	t.UnlockHeight = uint64(g.N(1000))
	for n := g.N(5); n > 0; n-- {
		t.Inputs = append(t.Inputs, genInput(g))
	}
	for n := g.N(5); n > 0; n-- {
		t.Outputs = append(t.Outputs, genOutput(g))
	}
	t.Extra = g.Bytes(g.Len())
	return t
}

func GenT_BlockChain(g *vf.G) *BlockChain {
	bc := NewBlockChain(GenT_Network(g), GenT_memoryStorage(g), GenT_Logger(g))
	bc.Checkpoints = GenT_Checkpoints(g)
	return bc
}

func GenT_blockTransactionsValidator(g *vf.G) *blockTransactionsValidator {
	v := NewBlockTransactionsValidator(GenT_BlockChain(g), genHeight(g), GenT_Logger(g))
	for n := g.N(3); n > 0; n-- {
		v.spentKeyImages[crypto.KeyImage{byte(g.N(200))}] = true
	}
	v.cumulativeFee = uint64(g.N(1000))
	return v
}

func Gen_IsFusionTransaction(g *vf.G) (*blockTransactionsValidator, *Transaction) {
	v := GenT_blockTransactionsValidator(g)
	t := GenT_Transaction(g)
	if g.Chance(0.2) {
		return v, t
	}
	t.Inputs, t.Outputs = nil, nil
	sum := uint64(0)
	for n := 10 + g.N(20); n > 0; n-- {
		a := genAmount(g) % 1000000000000
		if g.Chance(0.9) {
			a += 100000000
		}
		sum += a
		t.Inputs = append(t.Inputs, InputKey{Amount: a, OutputIndexes: []uint32{1}})
	}
	d := uint64(0)
	if v.blockIndex < config.UpgradeHeightV4 {
		d = 100000000
	}
	c, x := DecomposeAmountIntoDigits(sum, d)
	for _, a := range append(x, c...) {
		t.Outputs = append(t.Outputs, TransactionOutput{Amount: a, Target: OutputKey{}})
	}
	if len(t.Outputs) > 1 && g.Chance(0.4) {
		i, j := g.N(len(t.Outputs)), g.N(len(t.Outputs))
		t.Outputs[i].Amount += uint64(g.N(3))
		t.Outputs[i], t.Outputs[j] = t.Outputs[j], t.Outputs[i]
	}
	for i := 0; i < len(t.Inputs); i++ {
		t.TransactionSignatures = append(t.TransactionSignatures, make([]crypto.Signature, 1))
	}
	return v, t
}
