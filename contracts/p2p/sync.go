package p2p

import (
	"encoding/binary"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	p2pbinary "github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

// addLog is what is expected to be given to the chain, and what has been given so far.
type addLog struct {
	blocks []*cryptonote.Block
	raw    map[crypto.Hash][][]byte
	count  int
	wrong  bool
}

var addGhost addLog

// addVerdict is what the chain answers to the i-th block it is given.
//
//vf:opaque p2p.addVerdict
func addVerdict(i int) error { return nil }

//vf:model (*cryptonote.BlockChain).AddBlock
func modelAddBlock(bc *cryptonote.BlockChain, b *cryptonote.Block, raw [][]byte) error {
	i := addGhost.count
	if i >= len(addGhost.blocks) || addGhost.blocks[i] != b {
		addGhost.wrong = true
	} else if own, ok := addGhost.raw[*b.Hash()]; !ok || !vf.Eq(own, raw) {
		addGhost.wrong = true
	}
	addGhost.count++
	return addVerdict(i)
}

// The blocks go to the chain in order, each with its own transactions, until one is refused.
//
//vf:spec prop=K31 target=(*p2p.Node).processNewObjects contract=1 opaque=!(*cryptonote.Block).Hash
func Spec_processNewObjects(n *Node, blocks []*cryptonote.Block, txs map[crypto.Hash][][]byte) (err error) {
	vf.Requires(func() bool {
		return n != nil && n.Blockchain != nil && vf.Forall(0, len(blocks), func(i int) bool { return blocks[i] != nil })
	})
	if vf.Symbolic() {
		addGhost = addLog{blocks: blocks, raw: txs}
	}
	vf.Modifies(&addGhost.count, &addGhost.wrong)
	err = n.processNewObjects(blocks, txs)
	if !vf.Symbolic() {
		return
	}
	vf.Ensures("order", func() bool { return !addGhost.wrong && addGhost.count <= len(blocks) })
	vf.Ensures("all", func() bool { return err != nil || addGhost.count == len(blocks) })
	vf.Ensures("until", func() bool {
		return vf.Forall(0, addGhost.count, func(i int) bool { return i == addGhost.count-1 || addVerdict(i) == nil })
	})
	vf.Ensures("refused", func() bool {
		k := addGhost.count
		if err == nil {
			return k == 0 || addVerdict(k-1) == nil
		}
		if k > 0 && addVerdict(k-1) != nil {
			return true
		}
		if k == len(blocks) {
			return false
		}
		_, ok := txs[*blocks[k].Hash()]
		return !ok
	})
	return
}

func Inv_Node_processNewObjects_1(rangeindex int, blocks []*cryptonote.Block) bool {
	k := rangeindex + 1
	return !addGhost.wrong && addGhost.count == k && k <= len(blocks) && vf.Forall(0, k, func(i int) bool { return addVerdict(i) == nil })
}

// asked is the number of blocks to ask for among the first k needed ones.
func asked(bc *cryptonote.BlockChain, l crypto.HashList, check bool, k int) int {
	if k <= 0 {
		return 0
	}
	if check && bc.HaveBlock(&l[k-1]) {
		return asked(bc, l, check, k-1)
	}
	return asked(bc, l, check, k-1) + 1
}

// chosen: the list r holds exactly the blocks to ask for among the first k needed ones, in their order.
func chosen(bc *cryptonote.BlockChain, l, r crypto.HashList, check bool, k int) bool {
	return len(r) == asked(bc, l, check, k) && vf.Forall(0, k, func(i int) bool {
		c := asked(bc, l, check, i)
		return c >= 0 && (check && bc.HaveBlock(&l[i]) || c < len(r) && r[c] == l[i])
	})
}

func sameHashes(a, b crypto.HashList, from int) bool {
	return len(a) == len(b)-from && vf.Forall(0, len(a), func(i int) bool { return a[i] == b[from+i] })
}

// sentLog is what the peer has been told.
type sentLog struct {
	count   int
	command uint32
	blocks  crypto.HashList
}

var sentGhost sentLog

//vf:opaque p2p.sendVerdict
func sendVerdict(p *LevinProtocol, command uint32) error { return nil }

//vf:model (*p2p.LevinProtocol).Notify
func modelNotify(p *LevinProtocol, command uint32, v interface{}) error {
	sentGhost.count++
	sentGhost.command = command
	switch m := v.(type) {
	case NotificationRequestGetObjects:
		sentGhost.blocks = m.Blocks
		if len(m.Transactions) > 0 {
			sentGhost.command = 0
		}
	case NotificationRequestChain:
		sentGhost.blocks = m.Blocks
	default:
		sentGhost.command = 0
	}
	return sendVerdict(p, command)
}

// heard reads back what has gone over the connection.
func heard(c *wire) (l sentLog) {
	for b := c.out.Bytes(); len(b) >= LevinHeadSize; {
		size := int(binary.LittleEndian.Uint64(b[8:]))
		l.count++
		l.command = binary.LittleEndian.Uint32(b[17:])
		l.blocks = nil
		if body := b[LevinHeadSize : LevinHeadSize+size]; l.command == NotificationRequestGetObjectsID {
			var v NotificationRequestGetObjects
			if err := p2pbinary.Unmarshal(body, &v); err != nil || len(v.Transactions) > 0 {
				l.command = 0
			}
			l.blocks = v.Blocks
		} else {
			var v NotificationRequestChain
			if err := p2pbinary.Unmarshal(body, &v); err != nil {
				l.command = 0
			}
			l.blocks = v.Blocks
		}
		b = b[LevinHeadSize+size:]
	}
	return
}

//vf:spec prop=K31 target=(*p2p.Peer).requestMissingBlocks contract=1 unfold=asked opaque=(*cryptonote.BlockChain).HaveBlock;(*cryptonote.BlockChain).BuildSparseChain
func Spec_requestMissingBlocks(p *Peer, n *Node, check bool) (err error) {
	vf.Requires(func() bool { return nodeReady(n) && p != nil && p.logger != nil && p.protocol != nil })
	needed, requested, state := p.neededBlocks, p.requestedBlocks, p.state
	if vf.Symbolic() {
		sentGhost = sentLog{}
	}
	more := uint64(p.lastResponseHeight)+1 < uint64(p.remoteHeight)
	vf.Modifies(&sentGhost, &p.neededBlocks, &p.requestedBlocks, &p.state)
	err = p.requestMissingBlocks(n, check)
	if c, ok := p.protocol.Conn.(*wire); !vf.Symbolic() && ok {
		sentGhost = heard(c)
	}
	sent := sentGhost
	k := len(needed) - len(p.neededBlocks)
	old := len(requested)
	vf.Ensures("kept", func() bool {
		return old <= len(p.requestedBlocks) && vf.Forall(0, old, func(i int) bool { return p.requestedBlocks[i] == requested[i] })
	})
	vf.Ensures("rest", func() bool { return k >= 0 && sameHashes(p.neededBlocks, needed, k) })
	vf.Ensures("failed", func() bool {
		return err == nil || len(p.requestedBlocks) == old && p.state == state && (k == 0 || check && chosen(n.Blockchain, needed, nil, check, k))
	})
	vf.Ensures("chosen", func() bool {
		return err != nil || chosen(n.Blockchain, needed, p.requestedBlocks[old:], check, k)
	})
	vf.Ensures("all", func() bool {
		return err != nil || check || len(p.requestedBlocks)-old == k && vf.Forall(0, k, func(i int) bool { return p.requestedBlocks[old+i] == needed[i] })
	})
	vf.Ensures("many", func() bool {
		return err != nil || len(p.requestedBlocks)-old <= 128 && (len(p.requestedBlocks)-old == 128 || len(p.neededBlocks) == 0)
	})
	vf.Ensures("asked", func() bool {
		return err != nil || len(p.requestedBlocks) == old ||
			sent.count == 1 && sent.command == NotificationRequestGetObjectsID && p.state == state && sameHashes(sent.blocks, p.requestedBlocks, old)
	})
	vf.Ensures("chain", func() bool {
		if err != nil || len(p.requestedBlocks) > old || !more {
			return true
		}
		l, _ := n.Blockchain.BuildSparseChain()
		return sent.count == 1 && sent.command == NotificationRequestChainID && p.state == state && sameHashes(sent.blocks, l, 0)
	})
	vf.Ensures("done", func() bool {
		return err != nil || len(p.requestedBlocks) > old || more || p.state == PeerStateNormal && sent.count == 0
	})
	return
}

func Inv_Peer_requestMissingBlocks_1(iter int, neededBlocks, requestBlocks crypto.HashList, n *Node, checkHavingBlocks bool, p *Peer) bool {
	l, k := p.neededBlocks, iter
	return k <= len(l) && sameHashes(neededBlocks, l, k) && chosen(n.Blockchain, l, requestBlocks, checkHavingBlocks, k) && len(requestBlocks) <= 128 &&
		(checkHavingBlocks || len(requestBlocks) == k && vf.Forall(0, k, func(i int) bool { return requestBlocks[i] == l[i] }))
}

//vf:opaque p2p.chainEntryIn
func chainEntryIn(b []byte) NotificationResponseChainEntry { return NotificationResponseChainEntry{} }

//vf:opaque p2p.objectsIn
func objectsIn(b []byte) NotificationResponseGetObjects { return NotificationResponseGetObjects{} }

//vf:model p2p.parseNotification
func modelParseNotification(cmd *LevinCommand) (interface{}, error) {
	if err := decodes(cmd.Payload); err != nil {
		return nil, err
	}
	if cmd.Command == NotificationResponseGetObjectsID {
		return objectsIn(cmd.Payload), nil
	}
	return chainEntryIn(cmd.Payload), nil
}

// The peer tells the names of the blocks which follow one that both have: from the first unknown one on they are
// needed, and the first ones are asked for.
//
//vf:spec prop=K31 target=(*p2p.Node).handleNotification opaque=(*cryptonote.BlockChain).HaveBlock;(*cryptonote.BlockChain).BuildSparseChain
func Spec_handleNotification_chain(n *Node, p *Peer, cmd *LevinCommand) (err error) {
	vf.Requires(func() bool {
		return nodeReady(n) && p != nil && p.logger != nil && p.protocol != nil && cmd != nil && cmd.Command == NotificationResponseChainEntryID
	})
	v, bad := parseNotification(cmd)
	e, _ := v.(NotificationResponseChainEntry)
	l := crypto.HashList(e.BlocksHashes)
	needed, requested, state, height, last := p.neededBlocks, p.requestedBlocks, p.state, p.remoteHeight, p.lastResponseHeight
	good := bad == nil && len(l) > 0 && n.Blockchain.HaveBlock(&l[0]) && uint64(e.StartHeight)+uint64(len(l)) <= uint64(e.TotalHeight)+1
	if vf.Symbolic() {
		sentGhost = sentLog{}
	}
	vf.Modifies(&sentGhost, &p.neededBlocks, &p.requestedBlocks, &p.state, &p.remoteHeight, &p.lastResponseHeight)
	err = n.handleNotification(p, cmd)
	if c, ok := p.protocol.Conn.(*wire); !vf.Symbolic() && ok {
		sentGhost = heard(c)
	}
	vf.Ensures("nothing", func() bool {
		return bad == nil || err != nil && p.state == state && p.remoteHeight == height && p.lastResponseHeight == last
	})
	vf.Ensures("refused", func() bool {
		return good || err != nil && sentGhost.count == 0 && sameHashes(p.neededBlocks, needed, 0) && sameHashes(p.requestedBlocks, requested, 0) && (bad != nil || p.state == PeerStateShutdown)
	})
	vf.Ensures("heights", func() bool {
		return !good || p.remoteHeight == e.TotalHeight && uint64(p.lastResponseHeight)+1 == uint64(e.StartHeight)+uint64(len(l))
	})
	old := len(requested)
	more := len(p.requestedBlocks) - old
	extra := more + len(p.neededBlocks) - len(needed)
	u := len(l) - extra
	vf.Ensures("kept", func() bool {
		return !good || more >= 0 && vf.Forall(0, old, func(i int) bool { return p.requestedBlocks[i] == requested[i] })
	})
	vf.Ensures("unknown", func() bool {
		return !good || extra >= 0 && u >= 0 && vf.Forall(0, u, func(i int) bool { return n.Blockchain.HaveBlock(&l[i]) }) && (extra == 0 || !n.Blockchain.HaveBlock(&l[u]))
	})
	vf.Ensures("next", func() bool {
		return !good || vf.Forall(0, more, func(i int) bool {
			if i < len(needed) {
				return p.requestedBlocks[old+i] == needed[i]
			}
			return p.requestedBlocks[old+i] == l[u+i-len(needed)]
		})
	})
	vf.Ensures("later", func() bool {
		return !good || vf.Forall(0, len(p.neededBlocks), func(i int) bool {
			if more+i < len(needed) {
				return p.neededBlocks[i] == needed[more+i]
			}
			return p.neededBlocks[i] == l[u+more+i-len(needed)]
		})
	})
	vf.Ensures("asked", func() bool {
		return !good || err != nil || more <= 128 && (more == 0 || sentGhost.count == 1 && sentGhost.command == NotificationRequestGetObjectsID && sameHashes(sentGhost.blocks, p.requestedBlocks, old))
	})
	return
}

func Inv_Node_handleNotification_1(rangeindex int, allBlockKnown bool, p, old_p *Peer, n *Node, cmd *LevinCommand) bool {
	l := chainEntryIn(cmd.Payload).BlocksHashes
	done, old := rangeindex+1, len(old_p.neededBlocks)
	extra := len(p.neededBlocks) - old
	u := done - extra
	return done <= len(l) && extra >= 0 && u >= 0 && allBlockKnown == (extra == 0) &&
		vf.Forall(0, u, func(i int) bool { return n.Blockchain.HaveBlock(&l[i]) }) && (extra == 0 || !n.Blockchain.HaveBlock(&l[u])) &&
		vf.Forall(0, old, func(i int) bool { return p.neededBlocks[i] == old_p.neededBlocks[i] }) &&
		vf.Forall(0, extra, func(i int) bool { return p.neededBlocks[old+i] == l[u+i] })
}

// unasked: the hash is none of those in the list.
func unasked(l crypto.HashList, x crypto.Hash) bool {
	return vf.Forall(0, len(l), func(i int) bool { return l[i] != x })
}

func once(l crypto.HashList, x crypto.Hash) bool {
	return vf.Forall(0, len(l), func(i int) bool {
		return l[i] != x || vf.Forall(i+1, len(l), func(j int) bool { return l[j] != x })
	})
}

// Blocks go to the chain only when exactly as many have come as had been asked for and each is one of them, with as
// many transactions as it names (x is any hash and k any place in the list).
//
//vf:spec prop=K31 target=(*p2p.Node).HandleResponseGetObjects opaque=(*cryptonote.BlockChain).HaveBlock;(*cryptonote.BlockChain).BuildSparseChain;!(*cryptonote.Block).Hash
func Spec_HandleResponseGetObjects(n *Node, p *Peer, nt NotificationResponseGetObjects, x crypto.Hash, k int) (err error) {
	vf.Requires(func() bool {
		return nodeReady(n) && p != nil && p.logger != nil && p.protocol != nil && k >= 0 && k < len(nt.Blocks)
	})
	requested := vf.Snapshot(p.requestedBlocks).(crypto.HashList)
	needed, state, height := p.neededBlocks, p.state, p.remoteHeight
	if vf.Symbolic() {
		addGhost, sentGhost = addLog{}, sentLog{}
	}
	vf.Modifies(&addGhost, &sentGhost, &p.neededBlocks, &p.requestedBlocks, p.requestedBlocks, &p.state, &p.remoteHeight)
	err = n.HandleResponseGetObjects(p, nt)
	if c, ok := p.protocol.Conn.(*wire); !vf.Symbolic() && ok {
		sentGhost = heard(c)
	}
	early := p.lastResponseHeight > nt.CurrentBlockchainHeight
	vf.Ensures("height", func() bool {
		if early {
			return err != nil && p.state == PeerStateShutdown && p.remoteHeight == height && sentGhost.count == 0
		}
		return p.remoteHeight == nt.CurrentBlockchainHeight
	})
	vf.Ensures("kept", func() bool { return err == nil || p.state == PeerStateShutdown || p.state == state })
	vf.Ensures("needed", func() bool {
		return err == nil || p.state != PeerStateShutdown || state == PeerStateShutdown || sameHashes(p.neededBlocks, needed, 0)
	})
	vf.Ensures("all", func() bool { return err != nil || len(nt.Blocks) == len(requested) })
	vf.Ensures("next", func() bool {
		if err != nil {
			return true
		}
		more := len(p.requestedBlocks)
		if !chosen(n.Blockchain, needed, p.requestedBlocks, true, len(needed)-len(p.neededBlocks)) {
			return false
		}
		return more <= 128 && (more == 0 || sentGhost.count == 1 && sentGhost.command == NotificationRequestGetObjectsID && sameHashes(sentGhost.blocks, p.requestedBlocks, 0))
	})
	if !vf.Symbolic() {
		vf.Ensures("stranger", func() bool {
			left := append(crypto.HashList{}, requested...)
			for _, raw := range nt.Blocks {
				b, bad := raw.ToBlock()
				if bad != nil || unasked(left, *b.Hash()) || len(b.TransactionsHashes) != len(raw.Transactions) {
					return err != nil && p.state == PeerStateShutdown
				}
				left.Remove(b.Hash())
			}
			return early || (len(left) == 0) != (p.state == PeerStateShutdown) || state == PeerStateShutdown
		})
		return
	}
	l := addGhost.blocks
	vf.Ensures("early", func() bool { return !early || addGhost.count == 0 })
	vf.Ensures("in-order", func() bool {
		return !addGhost.wrong && (addGhost.count == 0 || len(l) == len(nt.Blocks) && len(l) == len(requested))
	})
	vf.Ensures("added", func() bool { return err != nil || addGhost.count == len(nt.Blocks) })
	vf.Ensures("asked-for", func() bool { return addGhost.count == 0 || !unasked(requested, x) || *l[k].Hash() != x })
	vf.Ensures("complete", func() bool {
		return addGhost.count == 0 || len(l[k].TransactionsHashes) == len(nt.Blocks[k].Transactions)
	})
	vf.Ensures("content", func() bool {
		return addGhost.count == 0 || vf.Bytes(nt.Blocks[k].Block).Eq(cryptonote.BlockWire(l[k]))
	})
	vf.Ensures("own", func() bool {
		return addGhost.count == 0 || *l[k].Hash() != x || !once(requested, x) || hasRaw(addGhost.raw, x, nt.Blocks[k].Transactions)
	})
	return
}

func hasRaw(txs map[crypto.Hash][][]byte, x crypto.Hash, raw [][]byte) bool {
	own, ok := txs[x]
	if !ok {
		return false
	}
	return vf.Eq(own, raw)
}

// placed: the block is the one in the bytes, it had been asked for, it has come once and has its own transactions.
func placed(b *cryptonote.Block, raw RawBlock, requested, left crypto.HashList, txs map[crypto.Hash][][]byte, x crypto.Hash) bool {
	h, same, again, gone := *b.Hash(), hasRaw(txs, x, raw.Transactions), !once(requested, x), unasked(left, x)
	exact := vf.Bytes(raw.Block).Eq(cryptonote.BlockWire(b))
	return len(b.TransactionsHashes) == len(raw.Transactions) && exact && (h != x || !unasked(requested, x)) && (h != x || again || gone && same)
}

func Inv_Node_HandleResponseGetObjects_1(rangeindex int, orderedBlocks []*cryptonote.Block, transactions map[crypto.Hash][][]byte, p, old_p *Peer, nt NotificationResponseGetObjects, spec_x crypto.Hash, spec_k int) bool {
	done, k, x, l := rangeindex+1, spec_k, spec_x, old_p.requestedBlocks
	return done <= len(nt.Blocks) && (len(orderedBlocks) == len(nt.Blocks) || len(orderedBlocks) == done) && len(p.requestedBlocks) == len(l)-done && p.state == old_p.state &&
		vf.Forall(0, done, func(i int) bool { return orderedBlocks[i] != nil }) &&
		(!unasked(l, x) || unasked(p.requestedBlocks, x)) && (!once(l, x) || once(p.requestedBlocks, x)) &&
		(k >= done || placed(orderedBlocks[k], nt.Blocks[k], l, p.requestedBlocks, transactions, x))
}

func Cases_Node_HandleResponseGetObjects_1(rangeindex int, spec_k int) [2]bool {
	return [2]bool{spec_k == rangeindex+1, spec_k != rangeindex+1}
}
