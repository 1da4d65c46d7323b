package p2p

import (
	"bytes"
	"net"

	p2pbinary "github.com/r3volut1oner/go-karbo/encoding/binary"
	"github.com/r3volut1oner/go-karbo/internal/vf"
)

// wire is a connection: a stream of bytes from the peer, delivered in pieces of at most chunk bytes, and all
// that has been sent to it, in so many writes.
type wire struct {
	net.Conn
	in     *bytes.Reader
	out    *bytes.Buffer
	chunk  int
	writes int
}

func (c *wire) Read(b []byte) (int, error) {
	if len(b) > c.chunk {
		b = b[:c.chunk]
	}
	return c.in.Read(b)
}

func (c *wire) Write(b []byte) (int, error) {
	c.writes++
	return c.out.Write(b)
}

func connected(c *wire) bool {
	return c != nil && c.in != nil && c.out != nil && c.chunk > 0
}

func flag(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// headWire is the head of a packet.
func headWire(size uint64, wanted byte, command uint32, code int32, flags uint32) vf.Rope {
	return vf.Cat(vf.LE64(LevinSignature), vf.LE64(size), vf.Byte(wanted), vf.LE32(command), vf.LE32(uint32(code)), vf.LE32(flags), vf.LE32(LevinProtocolVersion1))
}

//vf:spec prop=K11 target=(*p2p.LevinProtocol).write
func Spec_LevinProtocol_write(c *wire, command uint32, payload []byte, wanted bool, flags uint32, code int32) (n int, err error) {
	vf.Requires(func() bool {
		return connected(c) && vf.Written(c.out).Eq(vf.Cat()) && c.writes == 0 && len(payload) <= 1<<31
	})
	vf.Modifies(c.out, &c.writes)
	p := &LevinProtocol{Conn: c}
	n, err = p.write(command, payload, wanted, flags, code)
	vf.Ensures("sent", func() bool { return err == nil && n == LevinHeadSize+len(payload) })
	vf.Ensures("frame", func() bool {
		return vf.Written(c.out).Eq(vf.Cat(headWire(uint64(len(payload)), flag(wanted), command, code, flags), vf.Bytes(payload)))
	})
	vf.Ensures("at-once", func() bool { return c.writes == 1 })
	return
}

// said is what the packet that holds the command looks like: a flag that is not zero asks for an answer, and the
// bits other than the one that marks an answer, the return code and the version do not count.
func said(b vf.Rope, cmd *LevinCommand) bool {
	f := b.Bytes()
	return len(f) == LevinHeadSize+len(cmd.Payload) && vf.Bytes(f[:16]).Eq(vf.Cat(vf.LE64(LevinSignature), vf.LE64(uint64(len(cmd.Payload))))) &&
		cmd.IsNotify == (f[16] == 0) && vf.Bytes(f[17:21]).Eq(vf.LE32(cmd.Command)) && cmd.IsResponse == (f[25]&2 != 0) && vf.Bytes(f[LevinHeadSize:]).Eq(vf.Bytes(cmd.Payload))
}

//vf:spec prop=K11 target=(*p2p.LevinProtocol).read alloc=101000000
func Spec_LevinProtocol_read(c *wire) (cmd *LevinCommand, err error) {
	vf.Requires(func() bool { return connected(c) })
	vf.Modifies(c.in)
	p := &LevinProtocol{Conn: c}
	cmd, err = p.read()
	vf.Ensures("result", func() bool { return (cmd != nil) == (err == nil) })
	vf.Ensures("limit", func() bool { return err != nil || len(cmd.Payload) <= int(LevinMaxPacketSize) })
	vf.Ensures("frame", func() bool { return err != nil || said(vf.Taken(c.in), cmd) })
	return
}

// Every packet of an acceptable size is accepted, and nothing beyond it is touched.
//
//vf:spec prop=K11 target=(*p2p.LevinProtocol).read
func Spec_LevinProtocol_read_accepts(c *wire, payload, tail []byte, wanted byte, command uint32, code int32, flags uint32) (cmd *LevinCommand, err error) {
	vf.Requires(func() bool {
		return connected(c) && len(payload) <= int(LevinMaxPacketSize) &&
			vf.Untaken(c.in).Eq(vf.Cat(headWire(uint64(len(payload)), wanted, command, code, flags), vf.Bytes(payload), vf.Bytes(tail)))
	})
	vf.Modifies(c.in)
	p := &LevinProtocol{Conn: c}
	cmd, err = p.read()
	vf.Ensures("accepted", func() bool {
		return err == nil && cmd.Command == command && cmd.IsNotify == (wanted == 0) && cmd.IsResponse == (flags&LevinPacketResponse != 0)
	})
	vf.Ensures("payload", func() bool { return err != nil || vf.Bytes(cmd.Payload).Eq(vf.Bytes(payload)) })
	vf.Ensures("rest", func() bool { return vf.Untaken(c.in).Eq(vf.Bytes(tail)) })
	return
}

func headBytes(h *bucketHead) vf.Rope {
	return vf.Cat(vf.LE64(h.Signature), vf.LE64(h.BodySize), vf.Byte(flag(h.HaveToReturnData)), vf.LE32(h.Command), vf.LE32(uint32(h.ReturnCode)), vf.LE32(h.Flags), vf.LE32(h.ProtocolVersion))
}

//vf:spec prop=K11 target=(*p2p.bucketHead).encode contract=1
func Spec_bucketHead_encode(h *bucketHead) (b [LevinHeadSize]byte) {
	vf.Requires(func() bool { return h != nil })
	b = h.encode()
	vf.Ensures("fields", func() bool { return vf.Bytes(b[:]).Eq(headBytes(h)) })
	return
}

// decode is encode backwards.
//
//vf:spec prop=K11 target=(*p2p.bucketHead).decode
func Spec_bucketHead_decode(h *bucketHead, b [LevinHeadSize]byte) {
	vf.Requires(func() bool { return h != nil })
	vf.Modifies(h)
	h.decode(b)
	vf.Ensures("flag", func() bool { return h.HaveToReturnData == (b[16] != 0) })
	vf.Ensures("fields", func() bool { return b[16] > 1 || vf.Bytes(b[:]).Eq(headBytes(h)) })
}

//vf:spec prop=K11 target=(*p2p.LevinProtocol).Notify opaque=github.com/r3volut1oner/go-karbo/encoding/binary.Marshal
func Spec_LevinProtocol_Notify(c *wire, command uint32, v NotificationRequestGetObjects) (err error) {
	vf.Requires(func() bool { return connected(c) && vf.Written(c.out).Eq(vf.Cat()) && c.writes == 0 && encodable(v) })
	vf.Modifies(c.out, &c.writes)
	p := &LevinProtocol{Conn: c}
	b, bad := p2pbinary.Marshal(v)
	err = p.Notify(command, v)
	vf.Ensures("sent", func() bool { return (err == nil) == (bad == nil) && c.writes == int(flag(bad == nil)) })
	vf.Ensures("frame", func() bool {
		return bad != nil || vf.Written(c.out).Eq(vf.Cat(headWire(uint64(len(b)), 0, command, 0, LevinPacketRequest), vf.Bytes(b)))
	})
	return
}

//vf:spec prop=K11 target=(*p2p.LevinProtocol).Reply opaque=github.com/r3volut1oner/go-karbo/encoding/binary.Marshal
func Spec_LevinProtocol_Reply(c *wire, command uint32, v NotificationRequestGetObjects, code int32) (err error) {
	vf.Requires(func() bool { return connected(c) && vf.Written(c.out).Eq(vf.Cat()) && c.writes == 0 && encodable(v) })
	vf.Modifies(c.out, &c.writes)
	p := &LevinProtocol{Conn: c}
	b, bad := p2pbinary.Marshal(v)
	err = p.Reply(command, v, code)
	vf.Ensures("sent", func() bool { return (err == nil) == (bad == nil) && c.writes == int(flag(bad == nil)) })
	vf.Ensures("frame", func() bool {
		return bad != nil || vf.Written(c.out).Eq(vf.Cat(headWire(uint64(len(b)), 0, command, code, LevinPacketResponse), vf.Bytes(b)))
	})
	return
}

// Only the answer to the command that was sent is taken for it.
//
//vf:spec prop=K11 target=(*p2p.LevinProtocol).Invoke opaque=github.com/r3volut1oner/go-karbo/encoding/binary.Marshal;github.com/r3volut1oner/go-karbo/encoding/binary.Unmarshal alloc=101000000
func Spec_LevinProtocol_Invoke(c *wire, command uint32, v NotificationRequestGetObjects, res *NotificationRequestGetObjects) (err error) {
	vf.Requires(func() bool {
		return connected(c) && vf.Written(c.out).Eq(vf.Cat()) && c.writes == 0 && encodable(v) && res != nil
	})
	vf.Modifies(c.in, c.out, &c.writes, res)
	p := &LevinProtocol{Conn: c}
	b, bad := p2pbinary.Marshal(v)
	err = p.Invoke(command, v, res)
	vf.Ensures("sent", func() bool { return c.writes == int(flag(bad == nil)) && (err != nil || bad == nil) })
	vf.Ensures("frame", func() bool {
		return bad != nil || vf.Written(c.out).Eq(vf.Cat(headWire(uint64(len(b)), 1, command, 0, LevinPacketRequest), vf.Bytes(b)))
	})
	vf.Ensures("answer", func() bool {
		f := vf.Taken(c.in).Bytes()
		return err != nil || len(f) >= LevinHeadSize && vf.Bytes(f[17:21]).Eq(vf.LE32(command)) && f[25]&2 != 0
	})
	return
}

func encodable(v interface{}) bool {
	b, err := p2pbinary.Marshal(v)
	return err != nil || len(b) <= 1<<31
}
