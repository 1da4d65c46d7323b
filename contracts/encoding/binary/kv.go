package binary

import (
	"bytes"

	"github.com/r3volut1oner/go-karbo/internal/vf"
)

const maxKVSize = 1<<62 - 1

// kvSize is how a size is written: the two low bits of the first byte tell the width.
func kvSize(i uint64) vf.Rope {
	switch {
	case i <= 63:
		return vf.Byte(byte(i) * 4)
	case i <= 16383:
		return vf.LE16(uint16(i)*4 + 1)
	case i <= 1073741823:
		return vf.LE32(uint32(i)*4 + 2)
	}
	return vf.LE64(i*4 + 3)
}

// readsSize: the bytes are the size i in one of the four widths.
func readsSize(b vf.Rope, i uint64) bool {
	return i <= 63 && b.Eq(vf.Byte(byte(i)*4)) || i <= 16383 && b.Eq(vf.LE16(uint16(i)*4+1)) ||
		i <= 1073741823 && b.Eq(vf.LE32(uint32(i)*4+2)) || i <= maxKVSize && b.Eq(vf.LE64(i*4+3))
}

//vf:spec prop=K30 target=(*encoding/binary.Encoder).writeVarInt
func Spec_writeVarInt(w *bytes.Buffer, i uint64) (err error) {
	vf.Requires(func() bool { return w != nil && vf.Written(w).Eq(vf.Cat()) })
	vf.Modifies(w)
	err = NewEncoder(w).writeVarInt(i)
	vf.Ensures("limit", func() bool { return (err == nil) == (i <= maxKVSize) })
	vf.Ensures("written", func() bool { return err != nil || vf.Written(w).Eq(kvSize(i)) })
	vf.Ensures("nothing", func() bool { return err == nil || vf.Written(w).Eq(vf.Cat()) })
	return
}

//vf:spec prop=K30 target=(*encoding/binary.Decoder).readVarInt
func Spec_readVarInt(r *bytes.Reader) (i uint64, err error) {
	vf.Requires(func() bool { return r != nil })
	vf.Modifies(r)
	i, err = NewDecoder(r).readVarInt()
	vf.Ensures("taken", func() bool { return err != nil || readsSize(vf.Taken(r), i) })
	return
}

// Whatever is written is read back, wherever in a packet it is, also at its very end.
//
//vf:spec prop=K30 target=(*encoding/binary.Decoder).readVarInt
func Spec_readVarInt_roundtrip(r *bytes.Reader, i uint64, tail []byte) (got uint64, err error) {
	vf.Requires(func() bool { return r != nil && i <= maxKVSize && vf.Untaken(r).Eq(vf.Cat(kvSize(i), vf.Bytes(tail))) })
	vf.Modifies(r)
	got, err = NewDecoder(r).readVarInt()
	vf.Ensures("same", func() bool { return err == nil && got == i })
	vf.Ensures("rest", func() bool { return vf.Untaken(r).Eq(vf.Bytes(tail)) })
	return
}

//vf:spec prop=K30 target=(*encoding/binary.Encoder).writeElementName
func Spec_writeElementName(w *bytes.Buffer, name string) (err error) {
	vf.Requires(func() bool { return w != nil && vf.Written(w).Eq(vf.Cat()) })
	vf.Modifies(w)
	err = NewEncoder(w).writeElementName(name)
	vf.Ensures("limit", func() bool { return (err == nil) == (len(name) <= 255) })
	vf.Ensures("written", func() bool {
		return err != nil || vf.Written(w).Eq(vf.Cat(vf.Byte(byte(len(name))), vf.Bytes([]byte(name))))
	})
	return
}

//vf:spec prop=K30 target=(*encoding/binary.Encoder).writeElementPrefix
func Spec_writeElementPrefix(w *bytes.Buffer, t byte, name string) (err error) {
	vf.Requires(func() bool { return w != nil && vf.Written(w).Eq(vf.Cat()) })
	vf.Modifies(w)
	err = NewEncoder(w).writeElementPrefix(t, name)
	vf.Ensures("limit", func() bool { return (err == nil) == (len(name) <= 255) })
	vf.Ensures("unnamed", func() bool { return name != "" || vf.Written(w).Eq(vf.Cat()) })
	vf.Ensures("written", func() bool {
		return err != nil || name == "" || vf.Written(w).Eq(vf.Cat(vf.Byte(byte(len(name))), vf.Bytes([]byte(name)), vf.Byte(t)))
	})
	return
}

//vf:spec prop=K30 target=(*encoding/binary.Decoder).readName
func Spec_readName(r *bytes.Reader) (name string, err error) {
	vf.Requires(func() bool { return r != nil })
	vf.Modifies(r)
	name, err = NewDecoder(r).readName()
	vf.Ensures("taken", func() bool {
		return err != nil || len(name) <= 255 && vf.Taken(r).Eq(vf.Cat(vf.Byte(byte(len(name))), vf.Bytes([]byte(name))))
	})
	return
}

//vf:spec prop=K30 target=(*encoding/binary.Decoder).readName
func Spec_readName_roundtrip(r *bytes.Reader, name string, tail []byte) (got string, err error) {
	vf.Requires(func() bool {
		return r != nil && len(name) <= 255 && vf.Untaken(r).Eq(vf.Cat(vf.Byte(byte(len(name))), vf.Bytes([]byte(name)), vf.Bytes(tail)))
	})
	vf.Modifies(r)
	got, err = NewDecoder(r).readName()
	vf.Ensures("same", func() bool { return err == nil && got == name })
	vf.Ensures("rest", func() bool { return vf.Untaken(r).Eq(vf.Bytes(tail)) })
	return
}

func headWire(h *storageBlockHeader) vf.Rope {
	return vf.Cat(vf.LE32(h.signatureA), vf.LE32(h.signatureB), vf.Byte(h.ver))
}

//vf:spec prop=K30 target=(*encoding/binary.storageBlockHeader).encode
func Spec_storageBlockHeader_encode(h *storageBlockHeader) (b [headSize]byte) {
	vf.Requires(func() bool { return h != nil })
	b = h.encode()
	vf.Ensures("fields", func() bool { return vf.Bytes(b[:]).Eq(headWire(h)) })
	return
}

//vf:spec prop=K30 target=(*encoding/binary.storageBlockHeader).decode
func Spec_storageBlockHeader_decode(h *storageBlockHeader, b [headSize]byte) (err error) {
	vf.Requires(func() bool { return h != nil })
	vf.Modifies(h)
	err = h.decode(b)
	vf.Ensures("fields", func() bool { return err == nil && vf.Bytes(b[:]).Eq(headWire(h)) })
	return
}

//vf:spec prop=K30 target=(*encoding/binary.storageBlockHeader).equals
func Spec_storageBlockHeader_equals(h *storageBlockHeader, o storageBlockHeader) (r bool) {
	vf.Requires(func() bool { return h != nil })
	r = h.equals(o)
	vf.Ensures("all", func() bool { return r == (*h == o) })
	return
}
