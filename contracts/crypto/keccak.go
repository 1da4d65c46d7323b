package crypto

import (
	"hash"

	"github.com/r3volut1oner/go-karbo/internal/vf"
	"golang.org/x/crypto/sha3"
)

// The hash function is opaque: a deterministic function from byte strings to 32 bytes.
//vf:opaque crypto.keccakOf
func keccakOf(b []byte) (r [32]byte) {
	h := sha3.NewLegacyKeccak256()
	_, _ = h.Write(b)
	copy(r[:], h.Sum(nil))
	return
}

// kState stands for the sponge of golang.org/x/crypto/sha3: what was written so far.
type kState struct{ b []byte }

func (k *kState) Write(p []byte) (int, error) {
	k.b = append(k.b, p...)
	return len(p), nil
}

func (k *kState) Sum(b []byte) []byte {
	h := keccakOf(k.b)
	return append(b, h[:]...)
}

func (k *kState) Reset()         { k.b = nil }
func (k *kState) Size() int      { return 32 }
func (k *kState) BlockSize() int { return 136 }

//vf:model golang.org/x/crypto/sha3.NewLegacyKeccak256
func modelNewLegacyKeccak256() hash.Hash { return &kState{} }

// Keccak is the hash of exactly the given bytes.
//vf:spec prop=K17 target=crypto.Keccak
func Spec_Keccak(data []byte) (r []byte) {
	r = Keccak(data)
	h := keccakOf(data)
	vf.Ensures("hash", func() bool { return vf.Eq(r, h[:]) })
	return
}

//vf:spec prop=K17 target=crypto.HashFromBytes
func Spec_HashFromBytes(data []byte) (r Hash) {
	r = HashFromBytes(data)
	vf.Ensures("hash", func() bool { return r == Hash(keccakOf(data)) })
	return
}

//vf:spec prop=K17 target=(*crypto.Hash).FromBytes
func Spec_Hash_FromBytes(h *Hash, data []byte) {
	vf.Requires(func() bool { return h != nil })
	vf.Modifies(h)
	h.FromBytes(data)
	vf.Ensures("hash", func() bool { return *h == Hash(keccakOf(data)) })
}

// HashOf is the hash of a byte string given by its structure.
func HashOf(r vf.Rope) Hash { return Hash(keccakOf(r.Bytes())) }
