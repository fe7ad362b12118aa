package h

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"vsim/simnet"
	"vsim/simrt"

	"github.com/golang/protobuf/proto"
	sp "github.com/signal-golang/textsecure/protobuf"
)

// Crayfish is the helper process.
type Crayfish struct {
	w            *World
	Missing      bool // not installed
	StartErr     bool
	started      time.Time
	running      bool
	parent       *simrt.Proc
	done         simrt.WaitQ
	conns        []*wsSide
	StartupDelay time.Duration
	Reqs         []*CrayReq
	Delay        func(q *CrayReq) time.Duration
	Fault        func(q *CrayReq) string // "", drop (no answer), die (connection reset), garble, empty, twice
	OnReq        func(q *CrayReq)
	Conns        int
	Refuse       func() bool
	SealedFrom   func(env *sp.Envelope) (content []byte, sender string, dev int32, ok bool)
	Codes        map[string]string
	Signals      []string
	Starts       int
	avatars      map[string][]byte
	OutLines     int
	Procs        int
	Concurrent   bool
	RegErr       string
	Once         bool // sealed messages are decrypted once
	decrypted    map[string]bool
	Lat          time.Duration // of the connections
}

// CrayReq is a request the helper received.
type CrayReq struct {
	Type     int
	Msg      map[string]any
	At       time.Time
	N        int
	Conn     int
	Answered bool
}

func newCrayfish(w *World) *Crayfish {
	return &Crayfish{w: w, StartupDelay: 500 * time.Millisecond, Lat: time.Millisecond, Codes: map[string]string{}, avatars: map[string][]byte{}}
}

func (c *Crayfish) lookPath(file string) (string, error) {
	if c.Missing {
		return "", errors.New("exec: \"crayfish\": executable file not found in $PATH")
	}
	return "/usr/bin/" + file, nil
}

type outReader struct {
	c     *Crayfish
	lines int
	p     *simrt.Proc
}

func (o *outReader) Read(b []byte) (int, error) {
	simrt.Yield()
	if o.lines > 0 {
		o.lines--
		return copy(b, "INFO crayfish listening\n"), nil
	}
	for o.c.running && o.c.parent == o.p {
		o.c.done.Wait()
	}
	return 0, io.EOF
}

func (c *Crayfish) start(path string, args []string) (*simnet.Process, io.Reader, io.Reader, error) {
	if c.StartErr {
		return nil, nil, nil, errors.New("fork/exec: exec format error")
	}
	g := simrt.Self()
	c.running, c.parent, c.started = true, g.Proc, time.Now()
	c.Starts++
	p := &simnet.Process{Pid: 4000 + c.Starts,
		OnSignal: func(s os.Signal) error {
			c.Signals = append(c.Signals, s.String())
			if s == syscall.SIGCONT {
				return nil
			}
			if !c.running {
				return errors.New("os: process already finished")
			}
			c.stop("signal " + s.String())
			return nil
		},
		WaitFn: func() error {
			for c.running && c.parent == g.Proc {
				c.done.Wait()
			}
			return nil
		}}
	return p, &outReader{c, 1, g.Proc}, &outReader{c, c.OutLines, g.Proc}, nil
}

func (c *Crayfish) stop(why string) {
	if !c.running {
		return
	}
	c.w.Logf("crayfish: stops: %s", why)
	c.running = false
	for _, s := range c.conns {
		if !s.c.dead() {
			s.c.Reset()
		}
	}
	c.conns = nil
	c.done.WakeAll()
}

// Restart ends and restarts the helper's listening socket (as a supervisor
// would); the client only sees connections break.
func (c *Crayfish) BreakConns() {
	for _, s := range c.conns {
		if !s.c.dead() {
			s.c.Reset()
		}
	}
	c.conns = nil
}

func (c *Crayfish) parentDied(p *simrt.Proc) {
	if c.parent == p {
		c.stop("parent died")
		c.parent = nil
	}
}

func (c *Crayfish) accept(p *simrt.Proc) (net.Conn, error) {
	simrt.Sleep(time.Millisecond)
	if !c.running || time.Since(c.started) < c.StartupDelay || c.Refuse != nil && c.Refuse() {
		return nil, dialErr(syscall.ECONNREFUSED)
	}
	cl, sv := c.w.pipe("crayfish", p, c.Lat)
	side := &wsSide{c: sv}
	c.conns = append(c.conns, side)
	c.Conns++
	n := c.Conns
	c.w.Go("crayfish", func() { c.serve(side, n) })
	return cl, nil
}

func (c *Crayfish) serve(s *wsSide, n int) {
	u, key, err := handshake(s)
	if err != nil {
		return
	}
	if u.Path != "/libsignal" {
		s.c.Write([]byte("HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"))
		s.c.Close()
		return
	}
	s.c.Write([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + wsAccept(key) + "\r\n\r\n"))
	for {
		op, p, err := s.message()
		if err != nil {
			if !s.c.dead() {
				s.c.Close()
			}
			return
		}
		switch op {
		case opPing:
			s.write(opPong, p)
		case opClose:
			s.c.Close()
			return
		case opText, opBin:
			var m struct {
				Type    int `json:"type"`
				Request struct {
					Type    int            `json:"type"`
					Message map[string]any `json:"message"`
				} `json:"request"`
			}
			if json.Unmarshal(p, &m) != nil || m.Type != 1 {
				c.w.Logf("crayfish: unparsable request")
				continue
			}
			q := &CrayReq{Type: m.Request.Type, Msg: m.Request.Message, At: time.Now(), N: len(c.Reqs) + 1, Conn: n}
			c.Reqs = append(c.Reqs, q)
			c.w.Logf("crayfish: request %d type %d", q.N, q.Type)
			if c.OnReq != nil {
				c.OnReq(q)
			}
			fault := ""
			if c.Fault != nil && !c.w.Calm {
				fault = c.Fault(q)
			}
			var d time.Duration
			if c.Delay != nil {
				d = c.Delay(q)
			} else {
				d = time.Duration(c.w.N(20)) * time.Millisecond
			}
			ans := func() {
				if d > 0 {
					simrt.Sleep(d)
				}
				c.answer(s, q, fault)
			}
			if c.Concurrent {
				c.w.Go("crayans", ans)
			} else {
				ans()
			}
		}
	}
}

func (c *Crayfish) answer(s *wsSide, q *CrayReq, fault string) {
	if fault != "" {
		c.w.Count("crayfish_" + fault)
		c.w.Logf("crayfish: request %d: fault %s", q.N, fault)
	}
	switch fault {
	case "drop":
		return
	case "die":
		s.c.Reset()
		return
	}
	typ, msg := c.reply(q)
	if msg == nil {
		return
	}
	b, err := json.Marshal(map[string]any{"type": 2, "response": map[string]any{"type": typ, "message": msg}})
	must(err)
	switch fault {
	case "garble":
		b = bytes.Replace(b, []byte(`"type"`), []byte(`"typ`), 1)
	case "notype":
		b = []byte(`{"type":2,"response":{"message":{}}}`)
	case "noresponse":
		b = []byte(`{"type":2}`)
	case "badmsg":
		b = []byte(`{"type":2,"response":{"type":3,"message":"oops"}}`)
	case "reqback":
		b = []byte(`{"type":1,"request":{}}`)
	}
	q.Answered = true
	s.write(opText, b)
	if fault == "twice" {
		s.write(opText, b)
	}
}

func str(m map[string]any, k string) string { v, _ := m[k].(string); return v }

func byteArr(v any) []byte {
	if s, ok := v.(string); ok {
		b, _ := base64.StdEncoding.DecodeString(s)
		return b
	}
	l, _ := v.([]any)
	var b []byte
	for _, x := range l {
		f, _ := x.(float64)
		b = append(b, byte(f))
	}
	return b
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func (c *Crayfish) reply(q *CrayReq) (int, any) {
	switch q.Type {
	case 1:
		c.Codes[str(q.Msg, "number")] = str(q.Msg, "password")
		return 1, map[string]any{"status": "ok"}
	case 2:
		num := str(q.Msg, "number")
		if !c.w.Calm && c.RegErr != "" {
			c.w.Count("registration_refused")
			if c.RegErr == "zero" {
				return 2, map[string]any{"uuid": ints(make([]byte, 16)), "storage_capable": false}
			}
			return 1, map[string]any{"status": "error"}
		}
		a := c.w.Srv.register(num, str(q.Msg, "password"), byteArr(q.Msg["signaling_key"]))
		return 2, map[string]any{"uuid": ints(uuidBytes(a.UUID)), "storage_capable": false}
	case 3:
		raw, _ := base64.StdEncoding.DecodeString(str(q.Msg, "message"))
		env := &sp.Envelope{}
		if proto.Unmarshal(raw, env) != nil {
			return 1, map[string]any{"status": "error"}
		}
		// a sealed envelope of the simulator carries its content in clear
		// with a header: sender uuid (16), device, content
		ct := env.Content
		if len(ct) < 18 || ct[0] != 0x51 {
			return 3, map[string]any{"message": "", "timestamp": 0, "sender_device": 0, "sender": map[string]any{"uuid": ""}}
		}
		if c.Once {
			ct := fmt.Sprint(env.GetTimestamp(), string(ct))
			if c.decrypted[ct] {
				return 1, map[string]any{"status": "error"}
			}
			if c.decrypted == nil {
				c.decrypted = map[string]bool{}
			}
			c.decrypted[ct] = true
		}
		return 3, map[string]any{"message": base64.StdEncoding.EncodeToString(ct[18:]), "timestamp": env.GetTimestamp(), "sender_device": int(ct[17]),
			"sender": map[string]any{"uuid": uuidOf(ct[1:17])}}
	case 4:
		av, _ := base64.StdEncoding.DecodeString(str(q.Msg, "avatar"))
		return 3, map[string]any{"avatar": base64.StdEncoding.EncodeToString(append([]byte("plain:"), av...))}
	}
	return 1, nil
}

// Sealed makes the content of a sealed-sender envelope.
func Sealed(from string, dev byte, content []byte) []byte {
	b := append([]byte{0x51}, uuidBytes(from)...)
	b = append(b, dev)
	return append(b, content...)
}

var _ = hex.EncodeToString
var _ = strings.Contains
