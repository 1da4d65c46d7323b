package p2p

import (
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

func nodeReady(n *Node) bool {
	return n != nil && n.Blockchain != nil && n.Config.Network != nil && n.Blockchain.Network != nil && n.Blockchain.Checkpoints != nil
}

// tooDeep: the peer is so far behind that the blocks it lacks are checkpointed already.
func tooDeep(n *Node, d SyncData) bool {
	behind := int64(n.Blockchain.Height()) - int64(d.CurrentHeight)
	return behind > int64(n.Blockchain.Network.MinedMoneyUnlockWindow()) && n.Blockchain.Checkpoints.IsInCheckpointZone(d.CurrentHeight)
}

// synced is the state a peer gets into when it tells what its best block is.
func synced(n *Node, state byte, d SyncData, initial bool) byte {
	switch {
	case state == PeerStateBeforeHandshake && !initial || state == PeerStateSynchronizing:
		return state
	case n.Blockchain.HaveBlock(&d.TopBlockHash):
		if initial {
			return PeerStatePoolSyncRequired
		}
		return PeerStateNormal
	case tooDeep(n, d):
		return PeerStateShutdown
	}
	return PeerStateSyncRequired
}

//vf:spec prop=K29 target=(*p2p.Node).processSyncData contract=1 opaque=(*cryptonote.BlockChain).HaveBlock
func Spec_processSyncData(n *Node, p *Peer, d SyncData, initial bool) (err error) {
	vf.Requires(func() bool { return nodeReady(n) && p != nil })
	state, height := p.state, p.remoteHeight
	next := synced(n, state, d, initial)
	vf.Modifies(&p.state, &p.remoteHeight)
	err = n.processSyncData(p, d, initial)
	vf.Ensures("state", func() bool { return p.state == next })
	vf.Ensures("refused", func() bool { return (err != nil) == (next == PeerStateShutdown && state != PeerStateShutdown || next == PeerStateShutdown && tooDeep(n, d)) })
	vf.Ensures("height", func() bool {
		if err != nil || state == PeerStateBeforeHandshake && !initial {
			return p.remoteHeight == height
		}
		return p.remoteHeight == d.CurrentHeight
	})
	return
}

//vf:spec prop=K29 target=(*p2p.Node).HandleHandshake opaque=(*cryptonote.BlockChain).HaveBlock
func Spec_HandleHandshake(n *Node, p *Peer, req HandshakeRequest) (err error) {
	vf.Requires(func() bool { return nodeReady(n) && p != nil })
	id, state := p.ID, p.state
	good := req.NodeData.NetworkID == n.Config.Network.NetworkID && p.isIncoming && id == 0
	next := synced(n, state, req.PayloadData, true)
	vf.Modifies(&p.ID, &p.version, &p.state, &p.remoteHeight, &p.logger)
	err = n.HandleHandshake(p, req)
	vf.Ensures("only-good", func() bool { return err != nil || good })
	vf.Ensures("good", func() bool { return !good || err == nil && p.state == next && p.remoteHeight == req.PayloadData.CurrentHeight || tooDeep(n, req.PayloadData) })
	vf.Ensures("refused", func() bool { return err == nil || p.state == PeerStateShutdown })
	vf.Ensures("known", func() bool { return good && p.ID == req.NodeData.PeerID || !good && p.ID == id })
	vf.Ensures("version", func() bool { return p.version == req.NodeData.Version })
	return
}

//vf:opaque p2p.answered
func answered(b []byte) HandshakeResponse { return HandshakeResponse{} }

//vf:opaque p2p.decodes
func decodes(b []byte) error { return nil }

//vf:model encoding/binary.Unmarshal
func modelUnmarshal(b []byte, v interface{}) error {
	switch r := v.(type) {
	case *HandshakeResponse:
		*r = answered(b)
	}
	return decodes(b)
}

// The peer is accepted only if it answers from the same network in an acceptable version; it is then known by the
// identifier it answered with.
//
//vf:spec prop=K29 target=(*p2p.Peer).handshake opaque=(*cryptonote.BlockChain).HaveBlock;!(*cryptonote.BlockChain).TopBlock;!(*cryptonote.Block).Hash;(*cryptonote.Block).Index;github.com/r3volut1oner/go-karbo/encoding/binary.Marshal alloc=101000000 makelimit=2199023255552
func Spec_Peer_handshake(p *Peer, n *Node, c *wire) (res *HandshakeResponse, err error) {
	vf.Requires(func() bool { return nodeReady(n) && p != nil && connected(c) })
	p.protocol = &LevinProtocol{Conn: c}
	id, version, state := p.ID, p.version, p.state
	vf.Modifies(c.in, c.out, &c.writes, &p.ID, &p.version, &p.state, &p.remoteHeight)
	res, err = p.handshake(n)
	vf.Ensures("result", func() bool { return (res != nil) == (err == nil) })
	vf.Ensures("fresh", func() bool { return err != nil || state == PeerStateBeforeHandshake })
	vf.Ensures("network", func() bool {
		return err != nil || res.NodeData.NetworkID == n.Config.Network.NetworkID && res.NodeData.Version >= n.Config.Network.P2PMinimumVersion
	})
	vf.Ensures("known", func() bool {
		if err != nil {
			return p.ID == id && p.version == version
		}
		return p.ID == res.NodeData.PeerID && p.version == res.NodeData.Version && p.remoteHeight == res.PayloadData.CurrentHeight && p.state == synced(n, state, res.PayloadData, true)
	})
	return
}
