package cryptonote

import (
	"bytes"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

// The extra data of a transaction is a list of tagged fields.

//vf:spec prop=K27 target=cryptonote.TxExtraFromBytes contract=1 pure=1 inspec=1
func Spec_TxExtraFromBytes(b []byte) (f *TransactionExtraFields, err error) {
	vf.AllocLimit(vf.N(512))
	f, err = TxExtraFromBytes(b)
	vf.Ensures("result", func() bool { return (f == nil) == (err != nil) })
	vf.Ensures("bytes", func() bool { return err != nil || vf.Eq(f.bytes, b) })
	vf.Ensures("nonce", func() bool { return err != nil || len(f.Nonce) <= 255 })
	vf.Ensures("empty", func() bool {
		return len(b) != 0 || err == nil && f.MiningTag == nil && len(f.Nonce) == 0 && f.PublicKey == crypto.PublicKey{}
	})
	return
}

func Inv_TxExtraFromBytes_1(r *bytes.Reader, b []byte, tef *TransactionExtraFields) bool {
	return len(tef.Nonce) <= 255 && r.Len() <= len(b) && vf.Eq(tef.bytes, b) && (len(b) != 0 || tef.MiningTag == nil && len(tef.Nonce) == 0 && tef.PublicKey == crypto.PublicKey{})
}

func Inv_TxExtraFromBytes_2(r, old_r *bytes.Reader, size int) bool {
	return size >= 0 && size <= 255 && r.Len()+size == old_r.Len() && vf.Taken(r).Eq(vf.Cat(vf.Taken(old_r), vf.Each(0, size, func(i int) vf.Rope { return vf.Byte(0) })))
}
