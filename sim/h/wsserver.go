package h

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"net/url"
	"strings"
	"time"

	"vsim/ref"
	"vsim/simrt"

	"github.com/golang/protobuf/proto"
	sp "github.com/signal-golang/textsecure/protobuf"
)

// Ack is an answer of the client to a pushed request.
type Ack struct {
	ID     uint64
	Status uint32
	Msg    string
	At     time.Time
}

// Push is one pushed request on one connection.
type Push struct {
	ID      uint64
	Item    *Item // nil for queue/empty and oddities
	What    string
	At      time.Time
	Arrives time.Time
	Acks    []Ack
	Sock    *Sock
}

// Sock is the service end of one listening connection.
type Sock struct {
	w          *World
	s          *wsSide
	N          int
	up         bool
	mute       bool // accepts, but never answers the handshake
	resetEarly bool
	trickle    bool // answers the handshake a byte at a time
	heard      time.Time
	Login, Pw  string
	Path       string
	Pushes     []*Push
	byID       map[uint64]*Push
	StrayAcks  []Ack
	Order      []uint64 // ids in the order acknowledged
	Pings      []time.Time
	Pongs      int
	Opened     time.Time
	Ended      time.Time
	EndWhy     string
	NoPong     bool // do not answer pings
	pushed     map[*Item]bool
	emptySent  bool
	ClosedByUs bool
	slow       time.Time // reads nothing until then
}

var sockN int

func newSock(w *World, c *Conn) *Sock {
	return &Sock{w: w, s: &wsSide{c: c}, N: len(w.Srv.socks) + 1, byID: map[uint64]*Push{}, pushed: map[*Item]bool{}}
}

func wsAccept(key string) string {
	h := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h[:])
}

// handshake reads the upgrade request and returns its target.
func handshake(s *wsSide) (*url.URL, string, error) {
	hd, err := s.header()
	if err != nil {
		return nil, "", err
	}
	lines := strings.Split(string(hd), "\r\n")
	f := strings.Fields(lines[0])
	if len(f) < 2 {
		return nil, "", errFrame
	}
	u, err := url.ParseRequestURI(f[1])
	if err != nil {
		return nil, "", err
	}
	key := ""
	for _, l := range lines {
		if i := strings.Index(l, ":"); i > 0 && strings.EqualFold(l[:i], "Sec-WebSocket-Key") {
			key = strings.TrimSpace(l[i+1:])
		}
	}
	return u, key, nil
}

func (k *Sock) end(why string) {
	if k.Ended.IsZero() {
		k.up = false
		k.Ended, k.EndWhy = time.Now(), why
		k.w.Logf("ws%d: ended: %s", k.N, why)
	}
}

func (k *Sock) run() {
	w := k.w
	if k.mute {
		forever()
	}
	u, key, err := handshake(k.s)
	if err != nil {
		k.end("handshake: " + err.Error())
		return
	}
	if k.resetEarly {
		k.s.c.Reset()
		k.end("reset during handshake")
		return
	}
	q := u.Query()
	k.Login, k.Pw, k.Path = q.Get("login"), q.Get("password"), u.Path
	a := w.Srv.acct[k.Login]
	if a == nil || a.Password != k.Pw || k.Path != "/v1/websocket/" {
		w.Count("ws_refused_login")
		k.s.c.Write([]byte("HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n"))
		k.s.c.Close()
		k.end("login refused")
		return
	}
	if k.trickle {
		for _, c := range []byte("HTTP/1.1 101 Switching Protocols\r\nX: ") {
			k.s.c.Write([]byte{c})
			simrt.Sleep(7 * time.Second)
		}
		forever()
	}
	if _, err := k.s.c.Write([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + wsAccept(key) + "\r\n\r\n")); err != nil {
		k.end(err.Error())
		return
	}
	k.up = true
	k.Opened = time.Now()
	w.Logf("ws%d: open", k.N)
	w.Go("wspush", k.push)
	k.heard = time.Now()
	if w.Srv.IdleLimit > 0 {
		w.Go("wsidle", func() {
			for k.up {
				if d := time.Until(k.heard.Add(w.Srv.IdleLimit)); d > 0 {
					simrt.Sleep(d)
					continue
				}
				w.Logf("ws%d: idle for too long", k.N)
				k.s.write(opClose, []byte{3, 0xe9})
				k.s.c.Close()
				k.end("idle for too long")
				return
			}
		})
	}
	if w.Net.ConnBreak > 0 && !w.Calm {
		d := time.Duration(1+w.N(2*w.Net.ConnBreak)) * time.Second
		w.Go("wsbreak", func() {
			simrt.Sleep(d)
			if k.up && !w.Calm {
				k.Break(w.N(3))
			}
		})
	}
	for {
		for k.slow.After(time.Now()) {
			simrt.Sleep(time.Until(k.slow))
		}
		op, p, err := k.s.message()
		if err != nil {
			k.end(err.Error())
			if !k.s.c.dead() {
				k.s.c.Close()
			}
			w.Srv.qq.WakeAll()
			return
		}
		k.heard = time.Now()
		switch op {
		case opPing:
			k.Pings = append(k.Pings, time.Now())
			if !k.NoPong {
				k.s.write(opPong, p)
			}
		case opPong:
			k.Pongs++
		case opClose:
			k.end("closed by client")
			k.s.write(opClose, p)
			k.s.c.Close()
			w.Srv.qq.WakeAll()
			return
		case opText, opBin:
			k.incoming(p)
		}
	}
}

// Break ends the connection in one of several ways.
func (k *Sock) Break(how int) {
	w := k.w
	k.ClosedByUs = true
	switch how {
	case 0:
		w.Count("ws_reset")
		w.Logf("ws%d: reset", k.N)
		k.s.c.Reset()
	case 1:
		w.Count("ws_close")
		w.Logf("ws%d: close frame", k.N)
		k.s.write(opClose, []byte{3, 0xe9})
		k.s.c.Close()
	case 2:
		w.Count("ws_silence")
		w.Logf("ws%d: goes silent", k.N)
		k.s.c.Hole()
		k.up = false
	}
	k.end("broken")
	w.Srv.qq.WakeAll()
}

func (k *Sock) incoming(p []byte) {
	m := &sp.WebSocketMessage{}
	if err := proto.Unmarshal(p, m); err != nil {
		k.w.Logf("ws%d: client sent garbage", k.N)
		k.StrayAcks = append(k.StrayAcks, Ack{At: time.Now(), Msg: "unparsable"})
		return
	}
	if m.GetType() != sp.WebSocketMessage_RESPONSE {
		k.StrayAcks = append(k.StrayAcks, Ack{At: time.Now(), Msg: "not a response"})
		return
	}
	a := Ack{m.GetResponse().GetId(), m.GetResponse().GetStatus(), m.GetResponse().GetMessage(), time.Now()}
	k.w.Logf("ws%d: ack %d status %d", k.N, a.ID, a.Status)
	k.Order = append(k.Order, a.ID)
	ps := k.byID[a.ID]
	for _, p := range k.Pushes { // ids may repeat
		if p.ID == a.ID && len(p.Acks) == 0 {
			ps = p
			break
		}
	}
	if ps != nil {
		ps.Acks = append(ps.Acks, a)
	}
	if f := k.w.Srv.OnAck; f != nil {
		f(k, a)
	}
	if ps == nil {
		k.StrayAcks = append(k.StrayAcks, a)
		return
	}
	if ps.Item != nil {
		ps.Item.Acked++
		if !ps.Item.NoAck || k.w.Calm {
			k.w.Srv.drop(ps.Item)
		}
	}
}

func (s *Server) drop(it *Item) {
	for i, x := range s.Queue {
		if x == it {
			s.Queue = append(s.Queue[:i:i], s.Queue[i+1:]...)
			return
		}
	}
}

// Enqueue hands the service something to push to the client.
func (s *Server) Enqueue(it *Item) {
	s.Queue = append(s.Queue, it)
	s.qq.WakeAll()
}

// newest tells whether k is the connection the service pushes on.
func (s *Server) newest(k *Sock) bool {
	for i := len(s.socks) - 1; i >= 0; i-- {
		if s.socks[i].up {
			return s.socks[i] == k
		}
	}
	return false
}

func (k *Sock) push() {
	w, srv := k.w, k.w.Srv
	simrt.Sleep(time.Duration(w.N(200)) * time.Millisecond)
	for k.up {
		if !srv.newest(k) {
			return
		}
		var it *Item
		for _, x := range srv.Queue {
			if !k.pushed[x] && !x.Ready.After(time.Now()) {
				it = x
				break
			}
		}
		if it == nil {
			if !k.emptySent {
				k.emptySent = true
				if k.Send("PUT", "/api/v1/queue/empty", nil, nil, "queue/empty") != nil {
					return
				}
				continue
			}
			srv.qq.WaitFor(5 * time.Second)
			continue
		}
		k.pushed[it] = true
		if it.Raw != nil {
			if m := (&sp.WebSocketMessage{}); proto.Unmarshal(it.Raw, m) == nil && m.GetRequest() != nil {
				// still a request, whatever it says
				k.note(m.GetRequest().GetId(), nil, it.Note)
			}
			k.s.write(opBin, it.Raw)
			srv.drop(it)
			continue
		}
		verb, path := it.Verb, it.Path
		if verb == "" {
			verb, path = "PUT", "/api/v1/message"
		}
		if k.Send(verb, path, it.Body, it, it.Note) != nil {
			return
		}
	}
}

// Send pushes a request.
func (k *Sock) Send(verb, path string, body []byte, it *Item, what string) error {
	srv := k.w.Srv
	srv.reqID++
	id := srv.reqID
	if srv.BigIDs {
		id = srv.reqID * 0x9e3779b97f4a7c15
	}
	if srv.ZeroID && len(k.Pushes) == 0 {
		id = 0
	}
	return k.SendID(id, verb, path, body, it, what)
}

func (k *Sock) SendID(id uint64, verb, path string, body []byte, it *Item, what string) error {
	typ := sp.WebSocketMessage_REQUEST
	m := &sp.WebSocketMessage{Type: &typ, Request: &sp.WebSocketRequestMessage{Verb: &verb, Path: &path, Id: &id, Body: body}}
	b, err := proto.Marshal(m)
	must(err)
	k.note(id, it, what)
	return k.s.write(opBin, b)
}

func (k *Sock) note(id uint64, it *Item, what string) {
	p := &Push{ID: id, Item: it, What: what, At: time.Now(), Arrives: time.Now().Add(k.s.c.lat), Sock: k}
	k.Pushes = append(k.Pushes, p)
	k.byID[id] = p
	if it != nil {
		it.Pushes = append(it.Pushes, p)
	}
	k.w.Logf("ws%d: push %d %s", k.N, id, what)
}

// ---------------------------------------------------------------- envelopes

// Env describes an envelope for the client.
type Env struct {
	Type     int // 1 ciphertext, 3 prekey, 5 receipt, 6 sealed
	From     string
	Dev      uint32
	TS       uint64
	Content  []byte
	NoType   bool
	ServerTS uint64
	Dest     string
}

func (e *Env) bytes() []byte {
	x := &sp.Envelope{Content: e.Content}
	if !e.NoType {
		t := sp.Envelope_Type(e.Type)
		x.Type = &t
	}
	if e.From != "" {
		x.SourceUuid = &e.From
	}
	if e.Dev != 0 {
		x.SourceDevice = &e.Dev
	}
	x.Timestamp = &e.TS
	x.ServerTimestamp = &e.ServerTS
	if e.Dest != "" {
		x.DestinationUuid = &e.Dest
	}
	b, err := proto.Marshal(x)
	must(err)
	return b
}

// sealBody encrypts an envelope with the account's signaling key.
func (w *World) sealBody(a *Account, env []byte) []byte {
	iv := w.RandBytes(16)
	out := append([]byte{1}, iv...)
	out = append(out, ref.CBCEncrypt(a.SigKey[:32], iv, env)...)
	m := hmac.New(sha256.New, a.SigKey[32:])
	m.Write(out)
	return append(out, m.Sum(nil)[:10]...)
}

// item makes a queue item of an envelope.
func (w *World) item(e *Env, note string) *Item {
	b := e.bytes()
	a := w.Node.Acct()
	if a != nil && len(a.SigKey) == 52 && (w.Srv.EncBody == 2 || w.Srv.EncBody == 1 && w.Chance(1, 2)) {
		b = w.sealBody(a, b)
	}
	return &Item{Body: b, Note: note}
}

var _ = bytes.Equal
var _ = fmt.Sprint
