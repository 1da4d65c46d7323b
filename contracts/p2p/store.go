package p2p

import "github.com/r3volut1oner/go-karbo/internal/vf"

// apart: every peer is filed under its own identifier, which is not zero, and in one list only.
func apart(ps *peerStore) bool {
	return ps != nil && ps.white != nil && ps.grey != nil && ps.white.peers != nil && ps.grey.peers != nil && vf.ForallKey(func(id uint64) bool {
		w, white := ps.white.peers[id]
		g, grey := ps.grey.peers[id]
		return !(white && grey) && (!(white || grey) || id != 0) && (!white || w != nil && w.ID == id) && (!grey || g != nil && g.ID == id)
	}, ps.white.peers, ps.grey.peers)
}

func kept(before, after map[uint64]*Peer, but uint64) bool {
	return vf.ForallKey(func(id uint64) bool {
		p, was := before[id]
		q, is := after[id]
		return id == but || was == is && p == q
	}, before, after)
}

//vf:spec prop=K28 target=(*p2p.peerStore).toWhite
func Spec_peerStore_toWhite(ps *peerStore, p *Peer) (err error) {
	vf.Requires(func() bool { return apart(ps) && p != nil })
	white, grey := vf.MapCopy(ps.white.peers).(map[uint64]*Peer), vf.MapCopy(ps.grey.peers).(map[uint64]*Peer)
	_, known := white[p.ID]
	vf.Modifies(ps.white.peers, ps.grey.peers)
	err = ps.toWhite(p)
	_, isGrey := ps.grey.peers[p.ID]
	q, isWhite := ps.white.peers[p.ID]
	vf.Ensures("apart", func() bool { return apart(ps) })
	vf.Ensures("moved", func() bool {
		return (err == nil) == (p.ID != 0 && !known) && (err != nil || isWhite && q == p) && !isGrey && isWhite == (p.ID != 0)
	})
	vf.Ensures("others", func() bool {
		return kept(white, ps.white.peers, p.ID) && kept(grey, ps.grey.peers, p.ID) && (!known || q == white[p.ID])
	})
	return
}

//vf:spec prop=K28 target=(*p2p.peerStore).toGrey
func Spec_peerStore_toGrey(ps *peerStore, p *Peer) (err error) {
	vf.Requires(func() bool { return apart(ps) && p != nil })
	white, grey := vf.MapCopy(ps.white.peers).(map[uint64]*Peer), vf.MapCopy(ps.grey.peers).(map[uint64]*Peer)
	_, known := grey[p.ID]
	vf.Modifies(ps.white.peers, ps.grey.peers)
	err = ps.toGrey(p)
	_, isWhite := ps.white.peers[p.ID]
	q, isGrey := ps.grey.peers[p.ID]
	vf.Ensures("apart", func() bool { return apart(ps) })
	vf.Ensures("moved", func() bool {
		return (err == nil) == (p.ID != 0 && !known) && (err != nil || isGrey && q == p) && !isWhite && isGrey == (p.ID != 0)
	})
	vf.Ensures("others", func() bool {
		return kept(white, ps.white.peers, p.ID) && kept(grey, ps.grey.peers, p.ID) && (!known || q == grey[p.ID])
	})
	return
}

//vf:spec prop=K28 target=p2p.NewPeerStore
func Spec_NewPeerStore() (ps *peerStore) {
	ps = NewPeerStore()
	vf.Ensures("empty", func() bool { return apart(ps) && len(ps.white.peers) == 0 && len(ps.grey.peers) == 0 })
	return
}

//vf:spec prop=K28 target=(*p2p.peerList).Get
func Spec_peerList_Get(l *peerList, id uint64) (p *Peer) {
	vf.Requires(func() bool { return l != nil && l.peers != nil })
	p = l.Get(id)
	vf.Ensures("filed", func() bool { q, ok := l.peers[id]; return p == q && (ok || p == nil) })
	return
}

//vf:spec prop=K28 target=(*p2p.peerList).Has
func Spec_peerList_Has(l *peerList, id uint64) (ok bool) {
	vf.Requires(func() bool { return l != nil && l.peers != nil })
	ok = l.Has(id)
	vf.Ensures("filed", func() bool { _, is := l.peers[id]; return ok == is })
	return
}

func told(l []PeerEntry, id uint64) bool {
	return vf.Exists(0, len(l), func(i int) bool { return l[i].ID == id })
}

// filed: everything in the list from number from on is a peer of the map.
func filed(l []PeerEntry, from int, m map[uint64]*Peer) bool {
	return vf.Forall(from, len(l), func(i int) bool { _, ok := m[l[i].ID]; return ok })
}

// Other peers are told about exactly the peers in the store.
//
//vf:spec prop=K28 target=(*p2p.peerStore).toPeerEntries
func Spec_peerStore_toPeerEntries(ps *peerStore) (l []PeerEntry) {
	vf.Requires(func() bool { return apart(ps) })
	l = ps.toPeerEntries()
	white, grey := ps.white.peers, ps.grey.peers
	vf.Ensures("all", func() bool {
		return vf.ForallKey(func(id uint64) bool {
			_, w := white[id]
			_, g := grey[id]
			return !w && !g || told(l, id)
		}, white, grey)
	})
	vf.Ensures("only", func() bool {
		return vf.Forall(0, len(l), func(i int) bool {
			_, w := white[l[i].ID]
			_, g := grey[l[i].ID]
			return w || g
		})
	})
	return
}

func Inv_peerStore_toPeerEntries_1(ps *peerStore, peers []PeerEntry) bool {
	return filed(peers, 0, ps.white.peers) && vf.ForallKey(func(id uint64) bool {
		_, ok := ps.white.peers[id]
		return !ok || !vf.Visited(id) || told(peers, id)
	}, ps.white.peers)
}

func Inv_peerStore_toPeerEntries_2(ps *peerStore, peers []PeerEntry) bool {
	return vf.Forall(0, len(peers), func(i int) bool {
		_, w := ps.white.peers[peers[i].ID]
		_, g := ps.grey.peers[peers[i].ID]
		return w || g
	}) && vf.ForallKey(func(id uint64) bool {
		_, ok := ps.white.peers[id]
		return !ok || told(peers, id)
	}, ps.white.peers) && vf.ForallKey(func(id uint64) bool {
		_, ok := ps.grey.peers[id]
		return !ok || !vf.Visited(id) || told(peers, id)
	}, ps.grey.peers)
}
