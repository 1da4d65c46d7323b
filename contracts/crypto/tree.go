package crypto

import "github.com/r3volut1oner/go-karbo/internal/vf"

// pair is the hash of two hashes.
func pair(a, b Hash) Hash {
	var buf [64]byte
	copy(buf[:32], a[:])
	copy(buf[32:], b[:])
	return Hash(keccakOf(buf[:]))
}

// pow2 tells whether n is a power of two.
func pow2(n int) bool {
	if n <= 1 {
		return n == 1
	}
	return n%2 == 0 && pow2(n/2)
}

// treeLeaf is the i-th of cnt leaves: the first hashes stand for themselves, the rest are joined in pairs,
// so that cnt leaves remain.
func treeLeaf(hl HashList, cnt, i int) Hash {
	ready := 2*cnt - len(hl)
	if i < ready {
		return hl[i]
	}
	j := ready + 2*(i-ready)
	return pair(hl[j], hl[j+1])
}

// treeNode is the i-th of the m nodes of a level of the tree with cnt leaves.
func treeNode(hl HashList, cnt, m, i int) Hash {
	if m >= cnt || m < 1 {
		return treeLeaf(hl, cnt, i)
	}
	return pair(treeNode(hl, cnt, 2*m, 2*i), treeNode(hl, cnt, 2*m, 2*i+1))
}

// treeCnt doubles c while it stays below n.
func treeCnt(c, n int) int {
	if c < 1 || 2*c >= n {
		return c
	}
	return treeCnt(2*c, n)
}

// TreeRoot is the root of the tree of the hashes.
func TreeRoot(hl HashList) Hash {
	if len(hl) == 0 {
		return Hash{}
	}
	if len(hl) == 1 {
		return hl[0]
	}
	if len(hl) == 2 {
		return pair(hl[0], hl[1])
	}
	return treeNode(hl, treeCnt(2, len(hl)), 1, 0)
}

// BranchRoot is the root that the leaf and its branch lead to.
func BranchRoot(hl HashList, leaf Hash) Hash { return branchHash(hl, leaf, 0) }

// The root of the tree of n hashes: the greatest power of two below n leaves, joined in pairs level by level.
//vf:spec prop=K17 target=(crypto.HashList).MerkleRootHash unfold=treeNode contract=1
func Spec_MerkleRootHash(hl HashList) (r *Hash) {
	r = hl.MerkleRootHash()
	vf.Ensures("none", func() bool { return (r == nil) == (len(hl) == 0) })
	vf.Ensures("single", func() bool { return len(hl) != 1 || *r == hl[0] })
	vf.Ensures("two", func() bool { return len(hl) != 2 || *r == pair(hl[0], hl[1]) })
	vf.Ensures("tree", func() bool { return len(hl) == 0 || *r == TreeRoot(hl) })
	return
}

func Inv_HashList_MerkleRootHash_1(cnt int, hl HashList) bool {
	return cnt >= 2 && cnt < len(hl) && pow2(cnt) && treeCnt(cnt, len(hl)) == treeCnt(2, len(hl))
}

func Inv_HashList_MerkleRootHash_2(cnt, i, j, readyNum int, hl, tempList HashList) bool {
	return readyNum == 2*cnt-len(hl) && j >= readyNum && j <= cnt && i == readyNum+2*(j-readyNum) && len(tempList) == j &&
		vf.Forall(0, j, func(k int) bool { return tempList[k] == treeLeaf(hl, cnt, k) })
}

func Inv_HashList_MerkleRootHash_3(cnt int, hl, tempList HashList) bool {
	m := len(tempList)
	return m >= 1 && m <= cnt && pow2(m) && vf.Forall(0, m, func(k int) bool { return tempList[k] == treeNode(hl, cnt, m, k) })
}

func Inv_HashList_MerkleRootHash_4(cnt, i int, hl, tempList, newTempList HashList) bool {
	m := len(tempList)
	return i >= 0 && i <= m && i%2 == 0 && len(newTempList) == i/2 &&
		vf.Forall(0, i/2, func(k int) bool { return newTempList[k] == pair(tempList[2*k], tempList[2*k+1]) })
}

// branchHash joins the leaf with the branch from its end up to position d.
func branchHash(hl HashList, leaf Hash, d int) Hash {
	if d >= len(hl) || d < 0 {
		return leaf
	}
	return pair(branchHash(hl, leaf, d+1), hl[d])
}

//vf:spec prop=K17 target=(crypto.HashList).TreeHashFromBranch constfuel=1 contract=1
func Spec_TreeHashFromBranch(hl HashList, leaf Hash) (r Hash) {
	r = hl.TreeHashFromBranch(leaf)
	vf.Ensures("branch", func() bool { return r == BranchRoot(hl, leaf) })
	return
}

func Inv_HashList_TreeHashFromBranch_1(hl HashList, leaf Hash, depth int, fromLeaf bool, buf [2][32]byte) bool {
	if fromLeaf {
		return depth == len(hl)
	}
	return depth >= 0 && depth < len(hl) && buf[0] == branchHash(hl, leaf, depth+1) && buf[1] == hl[depth]
}

//vf:spec prop=K17 target=(*crypto.HashList).Index contract=1 inspec=1 pure=1
func Spec_HashList_Index(hl *HashList, h *Hash) (r int) {
	vf.Requires(func() bool { return hl != nil && h != nil })
	r = hl.Index(h)
	vf.Ensures("first", func() bool {
		return r >= -1 && r < len(*hl) && (r < 0 || (*hl)[r] == *h) && vf.Forall(0, r, func(i int) bool { return (*hl)[i] != *h })
	})
	vf.Ensures("absent", func() bool { return r >= 0 || vf.Forall(0, len(*hl), func(i int) bool { return (*hl)[i] != *h }) })
	return
}

func Inv_HashList_Index_1(rangeindex int, hl *HashList, h *Hash) bool {
	return vf.Forall(0, rangeindex+1, func(i int) bool { return (*hl)[i] != *h })
}

//vf:spec prop=K17 target=(*crypto.HashList).Has contract=1 inspec=1 pure=1
func Spec_HashList_Has(hl *HashList, h *Hash) (r bool) {
	vf.Requires(func() bool { return hl != nil && h != nil })
	r = hl.Has(h)
	vf.Ensures("member", func() bool { return r == vf.Exists(0, len(*hl), func(i int) bool { return (*hl)[i] == *h }) })
	return
}

//vf:spec prop=K17 target=(*crypto.HashList).Remove
func Spec_HashList_Remove(hl *HashList, h *Hash) {
	vf.Requires(func() bool { return hl != nil && h != nil })
	old := vf.Snapshot(*hl).(HashList)
	has := hl.Has(h)
	at := hl.Index(h)
	x := *h
	vf.Modifies(hl, *hl)
	hl.Remove(h)
	vf.Ensures("absent", func() bool { return has || vf.Eq(*hl, old) })
	vf.Ensures("removed", func() bool {
		return !has || len(*hl) == len(old)-1 && old[at] == x && vf.Forall(0, at, func(i int) bool { return (*hl)[i] == old[i] && old[i] != x }) &&
			vf.Forall(at, len(*hl), func(i int) bool { return (*hl)[i] == old[i+1] })
	})
}
