package h

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"vsim/simrt"
)

// ---------------------------------------------------------------- byte pipes

type seg struct {
	at time.Time
	b  []byte
}

// half is one direction of a connection.
type half struct {
	segs   []seg
	queued int
	rq     simrt.WaitQ // the reader
	wq     simrt.WaitQ // writers waiting for room
	fin    bool
	rst    bool
	gone   bool // the reading end is closed
	hole   bool // bytes disappear
	last   time.Time
}

const sockBuf = 64 << 10

// Conn is one end of a simulated connection.
type Conn struct {
	w        *World
	name     string
	rd, wr   *half
	peer     *Conn
	closed   bool
	rdl, wdl time.Time
	lat      time.Duration
	chop     bool // reads may return fewer bytes than available
	proc     *simrt.Proc
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (w *World) pipe(name string, proc *simrt.Proc, lat time.Duration) (client, server *Conn) {
	a, b := &half{}, &half{}
	client = &Conn{w: w, name: name, rd: a, wr: b, lat: lat, proc: proc}
	server = &Conn{w: w, name: name + "'", rd: b, wr: a, lat: lat, proc: w.P}
	client.peer, server.peer = server, client
	w.conns = append(w.conns, client)
	return
}

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: addr("sim"), Err: err}
}

func (c *Conn) Read(b []byte) (int, error) {
	simrt.Yield()
	for {
		if c.closed {
			return 0, opErr("read", net.ErrClosed)
		}
		if c.rd.rst {
			return 0, opErr("read", syscall.ECONNRESET)
		}
		now := time.Now()
		if !c.rdl.IsZero() && !now.Before(c.rdl) {
			return 0, opErr("read", os.ErrDeadlineExceeded)
		}
		wait := time.Duration(1<<62 - 1)
		if len(c.rd.segs) > 0 {
			s := &c.rd.segs[0]
			if d := s.at.Sub(now); d > 0 {
				wait = d
			} else {
				if len(b) == 0 {
					return 0, nil
				}
				n := len(s.b)
				if c.chop && n > 1 && c.w.C.Chance(1, 4) {
					n = 1 + c.w.C.N(n-1)
				}
				n = copy(b[:min(len(b), n)], s.b)
				s.b = s.b[n:]
				if len(s.b) == 0 {
					c.rd.segs = c.rd.segs[1:]
				}
				c.rd.queued -= n
				c.rd.wq.WakeAll()
				return n, nil
			}
		} else if c.rd.fin {
			return 0, io.EOF
		}
		if !c.rdl.IsZero() {
			if d := c.rdl.Sub(now); d < wait {
				wait = d
			}
		}
		if wait > 1<<61 {
			c.rd.rq.Wait()
		} else {
			c.rd.rq.WaitFor(wait)
		}
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	simrt.Yield()
	sent := 0
	for {
		if c.closed {
			return sent, opErr("write", net.ErrClosed)
		}
		if c.rd.rst || c.wr.rst || c.wr.gone {
			return sent, opErr("write", syscall.EPIPE)
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			return sent, opErr("write", os.ErrDeadlineExceeded)
		}
		if sent == len(b) {
			return sent, nil
		}
		if room := sockBuf - c.wr.queued; room > 0 {
			n := min(room, len(b)-sent)
			c.put(b[sent : sent+n])
			sent += n
			if sent == len(b) {
				return sent, nil
			}
			continue
		}
		if c.wdl.IsZero() {
			c.wr.wq.Wait()
		} else {
			c.wr.wq.WaitFor(time.Until(c.wdl))
		}
	}
}

func (c *Conn) put(b []byte) {
	h := c.wr
	h.queued += len(b)
	if h.hole {
		return // stays in the buffer for ever
	}
	at := time.Now().Add(c.lat)
	if at.Before(h.last) {
		at = h.last
	}
	h.last = at
	h.segs = append(h.segs, seg{at, append([]byte{}, b...)})
	h.rq.WakeAll()
}

func (c *Conn) Close() error {
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.wr.fin, c.rd.gone = true, true
	c.wr.rq.WakeAll()
	c.rd.rq.WakeAll()
	c.wr.wq.WakeAll()
	c.rd.wq.WakeAll()
	simrt.Yield()
	return nil
}

// Reset breaks the connection for both ends.
func (c *Conn) Reset() {
	for _, h := range []*half{c.rd, c.wr} {
		h.rst = true
		h.segs = nil
		h.rq.WakeAll()
		h.wq.WakeAll()
	}
}

// Hole makes everything sent from now on, in both directions, disappear.
func (c *Conn) Hole() {
	c.rd.hole, c.wr.hole = true, true
	c.rd.segs, c.wr.segs = nil, nil
}

func (c *Conn) dead() bool { return c.closed || c.rd.rst }

func (c *Conn) LocalAddr() net.Addr  { return addr("sim-local") }
func (c *Conn) RemoteAddr() net.Addr { return addr("sim-remote") }
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

// The code under test computes deadlines from its own (skewed) wall clock;
// like the kernel, the simulator only honours the distance from now.
func (c *Conn) real(t time.Time) time.Time {
	if t.IsZero() {
		return t
	}
	if t.Year() < 2012 { // a context's deadline, in the bubble's own time
		return t
	}
	return time.Now().Add(t.Sub(procNow()))
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rdl = c.real(t)
	c.rd.rq.WakeAll()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.wdl = c.real(t)
	c.wr.wq.WakeAll()
	return nil
}

// ---------------------------------------------------------------- websocket, service side

const (
	opText  = 1
	opBin   = 2
	opClose = 8
	opPing  = 9
	opPong  = 10
)

// wsSide is the service end of a websocket connection.
type wsSide struct {
	c   *Conn
	buf []byte
}

func (s *wsSide) fill() error {
	b := make([]byte, 4096)
	n, err := s.c.Read(b)
	s.buf = append(s.buf, b[:n]...)
	return err
}

func (s *wsSide) need(n int) error {
	for len(s.buf) < n {
		if err := s.fill(); err != nil {
			return err
		}
	}
	return nil
}

// header reads an HTTP request up to the empty line.
func (s *wsSide) header() ([]byte, error) {
	for {
		if i := bytes.Index(s.buf, []byte("\r\n\r\n")); i >= 0 {
			h := append([]byte{}, s.buf[:i+4]...)
			s.buf = s.buf[i+4:]
			return h, nil
		}
		if err := s.fill(); err != nil {
			return nil, err
		}
	}
}

var errFrame = errors.New("websocket framing error")

// frame reads one client frame; the payload is unmasked.
func (s *wsSide) frame() (op byte, fin bool, payload []byte, err error) {
	if err = s.need(2); err != nil {
		return
	}
	op, fin = s.buf[0]&15, s.buf[0]&0x80 != 0
	masked := s.buf[1]&0x80 != 0
	n := int(s.buf[1] & 0x7f)
	off := 2
	switch n {
	case 126:
		if err = s.need(4); err != nil {
			return
		}
		n = int(binary.BigEndian.Uint16(s.buf[2:]))
		off = 4
	case 127:
		if err = s.need(10); err != nil {
			return
		}
		n = int(binary.BigEndian.Uint64(s.buf[2:]))
		off = 10
	}
	if !masked {
		return 0, false, nil, errFrame
	}
	if err = s.need(off + 4 + n); err != nil {
		return
	}
	key := s.buf[off : off+4]
	payload = make([]byte, n)
	for i := range payload {
		payload[i] = s.buf[off+4+i] ^ key[i%4]
	}
	s.buf = s.buf[off+4+n:]
	return
}

// message reads one whole message or control frame.
func (s *wsSide) message() (op byte, payload []byte, err error) {
	op, fin, p, err := s.frame()
	if err != nil || op >= 8 || fin {
		return op, p, err
	}
	for {
		o, f, q, err := s.frame()
		if err != nil {
			return 0, nil, err
		}
		if o >= 8 {
			continue
		}
		p = append(p, q...)
		if f {
			return op, p, nil
		}
	}
}

func wsFrame(op byte, p []byte) []byte {
	b := []byte{0x80 | op}
	switch {
	case len(p) < 126:
		b = append(b, byte(len(p)))
	case len(p) < 65536:
		b = append(b, 126, byte(len(p)>>8), byte(len(p)))
	default:
		b = append(b, 127)
		b = binary.BigEndian.AppendUint64(b, uint64(len(p)))
	}
	return append(b, p...)
}

func (s *wsSide) write(op byte, p []byte) error {
	_, err := s.c.Write(wsFrame(op, p))
	return err
}
