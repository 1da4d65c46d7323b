package crypto

import "github.com/r3volut1oner/go-karbo/internal/vf"

//vf:spec prop=K25 target=(*crypto.KeyImage).ScalarMult contract=1 pure=1 inspec=1 opaque=crypto/edwards25519.GeFromBytes;crypto/edwards25519.GeScalarMult;(*crypto/edwards25519.ProjectiveGroupElement).ToBytes
func Spec_KeyImage_ScalarMult(k, a *KeyImage) (r *KeyImage, err error) {
	vf.Requires(func() bool { return k != nil && a != nil })
	r, err = k.ScalarMult(a)
	vf.Ensures("result", func() bool { return (r != nil) == (err == nil) })
	return
}
