package binary

import (
	"bytes"

	"github.com/r3volut1oner/go-karbo/internal/vf"
)

func genSize(g *vf.G) uint64 {
	switch g.N(6) {
	case 0:
		return uint64(g.N(130))
	case 1:
		return 16383 + uint64(g.N(3)) - 1
	case 2:
		return 1073741823 + uint64(g.N(3)) - 1
	case 3:
		return maxKVSize + uint64(g.N(3)) - 1
	}
	return g.Uint64() >> uint(g.N(64))
}

func Gen_writeVarInt(g *vf.G) (*bytes.Buffer, uint64) { return &bytes.Buffer{}, genSize(g) }

func Gen_readVarInt(g *vf.G) *bytes.Reader { return bytes.NewReader(g.Bytes(g.N(10))) }

func Gen_readVarInt_roundtrip(g *vf.G) (*bytes.Reader, uint64, []byte) {
	i, tail := genSize(g)&maxKVSize, g.Bytes(g.N(2)*g.N(9))
	return bytes.NewReader(vf.Cat(kvSize(i), vf.Bytes(tail)).Bytes()), i, tail
}

func genName(g *vf.G) string {
	n := g.N(20)
	if g.Chance(0.2) {
		n = 254 + g.N(4)
	}
	return string(g.Bytes(n))
}

func Gen_writeElementName(g *vf.G) (*bytes.Buffer, string) { return &bytes.Buffer{}, genName(g) }

func Gen_writeElementPrefix(g *vf.G) (*bytes.Buffer, byte, string) {
	return &bytes.Buffer{}, g.Byte(), genName(g)
}

func Gen_readName(g *vf.G) *bytes.Reader {
	n := g.N(20)
	return bytes.NewReader(append([]byte{byte(n)}, g.Bytes(n+g.N(4))...))
}

func Gen_readName_roundtrip(g *vf.G) (*bytes.Reader, string, []byte) {
	n := g.Bytes(g.N(2)*g.N(256))
	tail := g.Bytes(g.N(3))
	return bytes.NewReader(vf.Cat(vf.Byte(byte(len(n))), vf.Bytes(n), vf.Bytes(tail)).Bytes()), string(n), tail
}
