package p2p

import (
	"bytes"
	"io/ioutil"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	p2pbinary "github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/internal/vf"
	"github.com/sirupsen/logrus"
	"go.uber.org/zap"
)

func genWire(g *vf.G, in []byte) *wire {
	return &wire{in: bytes.NewReader(in), out: &bytes.Buffer{}, chunk: 1 + g.N(40)}
}

func genFlags(g *vf.G) uint32 {
	if g.Chance(0.3) {
		return uint32(g.Uint64())
	}
	return uint32(g.N(4))
}

func genPacket(g *vf.G, command uint32) []byte {
	payload := g.Bytes(g.Len())
	size := uint64(len(payload))
	if g.Chance(0.2) {
		size = g.Uint64()
	}
	if g.Chance(0.05) {
		size = uint64(LevinMaxPacketSize) + uint64(g.N(3)) - 1
	}
	b := vf.Cat(headWire(size, byte(g.N(3)), command, int32(g.Uint64()), genFlags(g)), vf.Bytes(payload), vf.Bytes(g.Bytes(g.N(3)*g.N(40)))).Bytes()
	if g.Chance(0.2) {
		b = g.Mutate(b)
	}
	if g.Chance(0.1) {
		b = b[:g.N(len(b)+1)]
	}
	return b
}

func Gen_LevinProtocol_write(g *vf.G) (*wire, uint32, []byte, bool, uint32, int32) {
	return genWire(g, nil), uint32(g.Uint64()), g.Bytes(g.Len()), g.Chance(0.5), genFlags(g), int32(g.Uint64())
}

func Gen_LevinProtocol_read(g *vf.G) *wire { return genWire(g, genPacket(g, uint32(g.Uint64()))) }

func Gen_LevinProtocol_read_accepts(g *vf.G) (*wire, []byte, []byte, byte, uint32, int32, uint32) {
	payload, tail, wanted, command, code, flags := g.Bytes(g.Len()), g.Bytes(g.Len()), byte(g.N(256)), uint32(g.Uint64()), int32(g.Uint64()), genFlags(g)
	b := vf.Cat(headWire(uint64(len(payload)), wanted, command, code, flags), vf.Bytes(payload), vf.Bytes(tail)).Bytes()
	return genWire(g, b), payload, tail, wanted, command, code, flags
}

func Gen_bucketHead_encode(g *vf.G) *bucketHead {
	return &bucketHead{g.Uint64(), g.Uint64(), g.Chance(0.5), uint32(g.Uint64()), int32(g.Uint64()), uint32(g.Uint64()), uint32(g.Uint64())}
}

func Gen_bucketHead_decode(g *vf.G) (*bucketHead, [LevinHeadSize]byte) {
	b := Gen_bucketHead_encode(g).encode()
	b[16] = byte(g.N(4))
	return Gen_bucketHead_encode(g), b
}

func genObjects(g *vf.G) (v NotificationRequestGetObjects) {
	for n := g.N(4); n > 0; n-- {
		v.Blocks = append(v.Blocks, crypto.Hash{byte(n)})
	}
	return
}

func Gen_LevinProtocol_Notify(g *vf.G) (*wire, uint32, NotificationRequestGetObjects) {
	return genWire(g, nil), uint32(g.Uint64()), genObjects(g)
}

func Gen_LevinProtocol_Reply(g *vf.G) (*wire, uint32, NotificationRequestGetObjects, int32) {
	c, n, v := Gen_LevinProtocol_Notify(g)
	return c, n, v, int32(g.Uint64())
}

func Gen_LevinProtocol_Invoke(g *vf.G) (*wire, uint32, NotificationRequestGetObjects, *NotificationRequestGetObjects) {
	n := uint32(g.Uint64())
	b, _ := p2pbinary.Marshal(genObjects(g))
	in := vf.Cat(headWire(uint64(len(b)), byte(g.N(2)), n+uint32(g.N(5)/4), int32(g.N(3)), genFlags(g)), vf.Bytes(b)).Bytes()
	if g.Chance(0.2) {
		in = genPacket(g, n)
	}
	return genWire(g, in), n, genObjects(g), &NotificationRequestGetObjects{}
}

func GenT_peerStore(g *vf.G) *peerStore {
	ps := NewPeerStore()
	for n := g.N(6); n > 0; n-- {
		p := &Peer{ID: uint64(1 + g.N(8))}
		if l := []*peerList{ps.white, ps.grey}[g.N(2)]; !ps.white.Has(p.ID) && !ps.grey.Has(p.ID) {
			l.peers[p.ID] = p
		}
	}
	return ps
}

func GenT_Peer(g *vf.G) *Peer { return &Peer{ID: uint64(g.N(9))} }

func Gen_peerStore_toWhite(g *vf.G) (*peerStore, *Peer) {
	ps, p := GenT_peerStore(g), GenT_Peer(g)
	for _, l := range []*peerList{ps.white, ps.grey} {
		if q := l.Get(p.ID); q != nil && g.Chance(0.5) {
			p = q
		}
	}
	return ps, p
}

func Gen_peerStore_toGrey(g *vf.G) (*peerStore, *Peer) { return Gen_peerStore_toWhite(g) }

func genNode(g *vf.G) *Node {
	m := cryptonote.NewMemoryStorage()
	l := logrus.New()
	l.SetOutput(ioutil.Discard)
	bc := cryptonote.NewBlockChain(config.MainNet(), m, l)
	if err := bc.Init(); err != nil {
		panic(err)
	}
	bc.Checkpoints = config.NewCheckpoints(l)
	bc.Checkpoints.AddCheckpoint(uint32(g.N(100)), crypto.Hash{1})
	n := NewNode(bc, HostConfig{Network: bc.Network}, zap.NewNop())
	return &n
}

func genSync(g *vf.G, n *Node) SyncData {
	d := *newSyncData(n.Blockchain)
	if g.Chance(0.5) {
		d.TopBlockHash[3] ^= 1
		d.CurrentHeight = uint32(g.N(200))
	}
	return d
}

func genPeer(g *vf.G) *Peer {
	p := &Peer{isIncoming: g.Chance(0.8), state: byte(g.N(7)), logger: zap.NewNop().Sugar(), remoteHeight: uint32(g.N(100))}
	if g.Chance(0.5) {
		p.state = PeerStateBeforeHandshake
	}
	if g.Chance(0.2) {
		p.ID = 1 + g.Uint64()>>1
	}
	return p
}

func genNodeData(g *vf.G, n *Node) BasicNodeData {
	d := newBasicNodeData(n.Config.Network)
	d.Version += byte(g.N(4)) - 1
	if g.Chance(0.2) {
		d.NetworkID[g.N(16)] ^= 1
	}
	return d
}

func Gen_processSyncData(g *vf.G) (*Node, *Peer, SyncData, bool) {
	n := genNode(g)
	return n, genPeer(g), genSync(g, n), g.Chance(0.5)
}

func Gen_HandleHandshake(g *vf.G) (*Node, *Peer, HandshakeRequest) {
	n := genNode(g)
	p, req := genPeer(g), HandshakeRequest{genNodeData(g, n), genSync(g, n)}
	if p.ID != 0 && g.Chance(0.5) {
		req.NodeData.PeerID = p.ID
	}
	return n, p, req
}

func Gen_Peer_handshake(g *vf.G) (*Peer, *Node, *wire) {
	n := genNode(g)
	b, _ := p2pbinary.Marshal(HandshakeResponse{NodeData: genNodeData(g, n), PayloadData: genSync(g, n)})
	c := uint32(CommandHandshake)
	if g.Chance(0.1) {
		c++
	}
	flags := uint32(2)
	if g.Chance(0.1) {
		flags = genFlags(g)
	}
	return genPeer(g), n, genWire(g, vf.Cat(headWire(uint64(len(b)), 0, c, 1, flags), vf.Bytes(b)).Bytes())
}

// genRaw is some block as it comes over the wire, and its hash.
func genRaw(g *vf.G, n *Node) (r RawBlock, h crypto.Hash) {
	b, _ := n.Blockchain.GenesisBlock()
	c := cryptonote.Block{BlockHeader: b.BlockHeader, BaseTransaction: b.BaseTransaction}
	c.Nonce = uint32(g.N(4))
	for t := g.N(3); t > 0; t-- {
		c.TransactionsHashes = append(c.TransactionsHashes, crypto.Hash{byte(t)})
		r.Transactions = append(r.Transactions, g.Bytes(g.Len()))
	}
	h = *c.Hash()
	r.Block = cryptonote.BlockWire(&c).Bytes()
	switch g.N(24) {
	case 0:
		r.Block = append(r.Block, 7)
	case 1:
		r.Block = r.Block[:g.N(len(r.Block))]
	case 2:
		r.Transactions = append(r.Transactions, nil)
	case 3:
		r.Transactions = nil
	}
	return
}

func genHashes(g *vf.G, n *Node, many int) (l crypto.HashList) {
	b, _ := n.Blockchain.GenesisBlock()
	for k := g.N(many); k > 0; k-- {
		l = append(l, crypto.Hash{byte(k), 1})
		if g.Chance(0.02) {
			l[len(l)-1] = *b.Hash()
		}
	}
	return
}

func genSyncPeer(g *vf.G, n *Node) *Peer {
	p := genPeer(g)
	p.protocol = &LevinProtocol{Conn: genWire(g, nil)}
	p.state = PeerStateSynchronizing
	if g.Chance(0.5) {
		p.requestedBlocks = genHashes(g, n, 5)
	}
	p.neededBlocks = genHashes(g, n, 1+400>>uint(g.N(9)))
	p.lastResponseHeight = uint32(g.N(100))
	if g.Chance(0.1) {
		p.remoteHeight = uint32(g.N(2))
	}
	return p
}

func Gen_requestMissingBlocks(g *vf.G) (*Peer, *Node, bool) {
	n := genNode(g)
	return genSyncPeer(g, n), n, g.Chance(0.5)
}

func Gen_handleNotification_chain(g *vf.G) (*Node, *Peer, *LevinCommand) {
	n := genNode(g)
	v := NotificationResponseChainEntry{StartHeight: uint32(g.N(9)), BlocksHashes: genHashes(g, n, 1+400>>uint(g.N(9)))}
	if b, _ := n.Blockchain.GenesisBlock(); g.Chance(0.9) {
		for i := 1 + g.N(3); i > 0; i-- {
			v.BlocksHashes = append([]crypto.Hash{*b.Hash()}, v.BlocksHashes...)
		}
	}
	v.TotalHeight = v.StartHeight + uint32(len(v.BlocksHashes)) + uint32(g.N(6)) - 3
	if g.Chance(0.1) {
		v.StartHeight = -uint32(g.N(5))
	}
	body, _ := p2pbinary.Marshal(v)
	if g.Chance(0.1) {
		body = g.Bytes(g.Len())
	}
	return n, genSyncPeer(g, n), &LevinCommand{Command: NotificationResponseChainEntryID, Payload: body}
}

func Gen_HandleResponseGetObjects(g *vf.G) (*Node, *Peer, NotificationResponseGetObjects, crypto.Hash, int) {
	n := genNode(g)
	p, v := genSyncPeer(g, n), NotificationResponseGetObjects{CurrentBlockchainHeight: uint32(g.N(150))}
	if g.Chance(0.8) {
		p.requestedBlocks = nil
	}
	for i := 1 + g.N(3); i > 0; i-- {
		r, h := genRaw(g, n)
		v.Blocks = append(v.Blocks, r)
		if g.Chance(0.9) {
			p.requestedBlocks = append(p.requestedBlocks, h)
		}
	}
	if g.Chance(0.5) {
		l := p.requestedBlocks
		for i := range l {
			j := g.N(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	}
	var x crypto.Hash
	if len(p.requestedBlocks) > 0 {
		x = p.requestedBlocks[0]
	}
	return n, p, v, x, g.N(len(v.Blocks))
}

func Gen_processNewObjects(g *vf.G) (*Node, []*cryptonote.Block, map[crypto.Hash][][]byte) {
	n := genNode(g)
	txs := map[crypto.Hash][][]byte{}
	var l []*cryptonote.Block
	for i := g.N(3); i > 0; i-- {
		r, h := genRaw(g, n)
		if b, err := r.ToBlock(); err == nil {
			l, txs[h] = append(l, b), r.Transactions
		}
	}
	return n, l, txs
}
