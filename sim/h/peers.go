package h

import (
	"fmt"
	"time"

	"vsim/ref"
	"vsim/simrt"

	"github.com/golang/protobuf/proto"
	sp "github.com/signal-golang/textsecure/protobuf"
)

// Sent is one message a peer encrypted for the client.
type Sent struct {
	ID       string
	Peer     *Peer
	TS       uint64
	Typ      int
	Msg      []byte
	Pad      []byte // the padded plaintext
	Info     ref.Info
	At       time.Time
	Handed   int
	HandedAt time.Time
	Want     bool // an intact copy has been enqueued
	Excuse   string
	Items    []*Item
	Kind     string
	Check    func(h *Handed) string
	SessAge  int
	DM       *sp.DataMessage
	Sealed   bool
	upTo     map[*Peer]int // an END_SESSION: the newest sessions it ends
	rerouted bool          // a copy came as from another device of the account
}

// Got is a message of the client a peer decrypted (or failed to).
type Got struct {
	Put  *Put
	Wire WireMsg
	Dev  *SDev
	Err  error
	Info ref.Info
	C    *sp.Content
	Body string
	At   time.Time
}

// Peer is one device of another account (or another device of the client's
// own account).
type Peer struct {
	w      *World
	D      *ref.Device
	SD     *SDev
	Acct   *Account
	Name   string
	Tel    string
	Sent   []*Sent
	Got    []*Got
	Hold   bool // ciphertexts of the client are kept back
	Held   []func()
	Own    bool
	away   bool            // removed from the account
	regs   map[uint32]bool // registration ids it had
	sess   map[string]int
	forgot []*Sent      // encrypted before the peer forgot its sessions, and not handed over then
	unread int          // messages of the client excused by stale
	gone   int          // the client deleted sessions up to this one
	lostAt time.Time    // when it did
	dead   map[int]bool // further sessions it deleted
	endAt  time.Time    // when it learned that the peer ended the sessions
	own    map[int]bool // sessions the peer started
}

// reset makes the peer forget its sessions with the client, which may have
// deleted its own at any time after since.
func (p *Peer) reset(since time.Time) {
	p.D.Reset(p.w.nodeAddr())
	for _, s := range p.Sent {
		if s.Handed == 0 || !s.HandedAt.Before(since) {
			p.forgot = append(p.forgot, s)
		}
	}
}

// stale: the client may, by a delayed message, have learned of a session that
// the peer had forgotten by then, and use it.
func (p *Peer) stale() bool {
	for _, s := range p.forgot {
		if s.Typ == 3 && (s.Want || s.Handed > 0) {
			return true
		}
	}
	return false
}

func (w *World) NewPeer(name string) *Peer {
	d := ref.NewDevice(w.newUUID(), 1, ref.GenKey(w.Rng), w.Rng)
	d.AddPreKeys(1, 6)
	w.uniq++
	p := &Peer{w: w, dead: map[int]bool{}, own: map[int]bool{}, D: d, Name: name, Tel: fmt.Sprintf("+1555%07d", 2000+w.uniq)}
	p.SD = w.Srv.addPeer(d, p.Tel)
	p.Acct = w.Srv.acct[d.UUID]
	w.Logf("peer %s is %s", name, d.UUID)
	return p
}

// AddDevice gives the peer's account another device.
func (p *Peer) AddDevice(id uint32) *Peer {
	d := ref.NewDevice(p.D.UUID, id, p.D.Identity, p.w.Rng)
	d.AddPreKeys(1, 4)
	q := &Peer{w: p.w, dead: map[int]bool{}, own: map[int]bool{}, D: d, Name: fmt.Sprintf("%s.%d", p.Name, id), Tel: p.Tel, Own: p.Own}
	q.SD = p.w.Srv.addPeer(d, p.Tel)
	q.Acct = p.Acct
	return q
}

// OwnDevice makes a linked device of the client's account.
func (w *World) OwnDevice(id uint32) *Peer {
	im := w.image()
	if im.Identity == nil {
		panic("harness: the account's identity key is not known")
	}
	a := w.Node.Acct()
	d := ref.NewDevice(a.UUID, id, *im.Identity, w.Rng)
	d.AddPreKeys(1, 4)
	p := &Peer{w: w, dead: map[int]bool{}, own: map[int]bool{}, D: d, Name: fmt.Sprintf("own.%d", id), Own: true, Acct: a}
	p.SD = w.Srv.addPeer(d, a.Tel)
	return p
}

func (w *World) nodeAddr() string { return w.Node.UUID() + ".1" }

// Connect makes sure the peer has a session with the client.
func (p *Peer) Connect(oneTime bool) error {
	if p.D.HasSession(p.w.nodeAddr()) {
		return nil
	}
	return p.Fresh(oneTime)
}

// Fresh starts a new session from a bundle of the client's keys.
func (p *Peer) Fresh(oneTime bool) error {
	b := p.w.Srv.takeBundle(p.w.Node.UUID(), 1, oneTime)
	if b == nil {
		return fmt.Errorf("no bundle")
	}
	err := p.D.Start(p.w.nodeAddr(), b)
	p.own[p.D.LastSession()] = true
	return err
}

// lost: the client deleted the session.
func (p *Peer) lost(session int) bool { return session <= p.gone || p.dead[session] }

func (p *Peer) ms() uint64 { return uint64(vnow().UnixMilli()) }

// Text is a plain data message with a unique body.
func (p *Peer) Text(body string) *sp.Content {
	ts := p.ms()
	return &sp.Content{DataMessage: &sp.DataMessage{Body: &body, Timestamp: &ts}}
}

// Encrypt encrypts content for the client and records it.
func (p *Peer) Encrypt(id, kind string, c *sp.Content) (*Sent, error) {
	if err := p.Connect(true); err != nil {
		return nil, err
	}
	b, err := proto.Marshal(c)
	must(err)
	pad := ref.Pad(b)
	typ, msg, inf, err := p.D.Encrypt(p.w.nodeAddr(), pad)
	if err != nil {
		return nil, err
	}
	s := &Sent{ID: id, Peer: p, TS: p.ms(), Typ: typ, Msg: msg, Pad: pad, Info: inf, At: time.Now(), Kind: kind, DM: c.GetDataMessage()}
	if s.DM != nil {
		s.TS = s.DM.GetTimestamp()
	}
	p.Sent = append(p.Sent, s)
	p.w.Logf("%s encrypts %s (type %d, session %d counter %d)", p.Name, id, typ, inf.Session, inf.Counter)
	return s, nil
}

// Env is the genuine envelope of s.
func (s *Sent) Env() *Env {
	return &Env{Type: s.Typ, From: s.Peer.D.UUID, Dev: s.Peer.D.ID, TS: s.TS, ServerTS: s.TS + 3, Content: s.Msg}
}

// chains counts the newer receiving chains of the session: only five are kept.
func (s *Sent) chains() int {
	m := map[[32]byte]bool{s.Info.Ratchet: true}
	after := false
	for _, x := range s.Peer.Sent {
		if after && x.Info.Session == s.Info.Session {
			m[x.Info.Ratchet] = true
		}
		after = after || x == s
	}
	return len(m) - 1
}

// Post queues the genuine envelope at the service.
func (s *Sent) Post() *Item {
	it := s.Peer.w.item(s.Env(), s.ID)
	it.Tag, it.Of = s, s
	s.Want = true
	s.Items = append(s.Items, it)
	s.Peer.w.Srv.Enqueue(it)
	return it
}

// SendText encrypts and posts a unique text.
func (p *Peer) SendText() (*Sent, error) {
	id := p.w.Uniq("in")
	s, err := p.Encrypt(id, "text", p.Text(id))
	if err == nil {
		s.Post()
	}
	return s, err
}

// devName is the ref session name for the client.
func (p *Peer) receive(put *Put, m WireMsg) *Got {
	g := &Got{Put: put, Wire: m, Dev: p.SD, At: time.Now()}
	pt, inf, err := p.D.Decrypt(p.w.nodeAddr(), m.Type, m.Raw)
	g.Info = inf
	if err == nil {
		var raw []byte
		if raw, err = ref.Unpad(pt); err == nil {
			c := &sp.Content{}
			if err = proto.Unmarshal(raw, c); err == nil {
				g.C = c
				g.Body = c.GetDataMessage().GetBody()
			}
		}
	}
	g.Err = err
	e := "ok " + trunc(g.Body, 40)
	if err != nil {
		e = "FAILED " + err.Error()
	}
	p.w.Logf("%s receives type %d: %s", p.Name, m.Type, e)
	p.Got = append(p.Got, g)
	return g
}

// Serve makes the service deliver accepted messages to these peers at once
// (or hold them back while Hold is set).
func (w *World) Serve(peers ...*Peer) {
	old := w.Srv.OnPut
	by := map[*SDev]*Peer{}
	for _, p := range peers {
		by[p.SD] = p
	}
	w.Srv.OnPut = func(put *Put, m WireMsg, d *SDev) {
		if p := by[d]; p != nil {
			f := func() { p.receive(put, m) }
			if p.Hold {
				p.Held = append(p.Held, f)
			} else {
				f()
			}
			return
		}
		if old != nil {
			old(put, m, d)
		}
	}
}

// Release delivers what was held back, in an order of the run's choosing.
func (p *Peer) Release(shuffle bool) {
	for len(p.Held) > 0 {
		i := 0
		if shuffle {
			i = p.w.N(len(p.Held))
		}
		f := p.Held[i]
		p.Held = append(p.Held[:i:i], p.Held[i+1:]...)
		f()
	}
}

// Drained tells whether everything queued for the client was acknowledged.
func (w *World) Drained() bool { return len(w.Srv.Queue) == 0 }

// Settle lets things calm down: everything queued gets pushed and handled.
func (w *World) Settle(d time.Duration) bool {
	return w.Until(d, w.Drained)
}

// Count how often a body was handed over.
func (n *Node) HandedBodies() map[string]int {
	m := map[string]int{}
	for _, h := range n.Handed {
		m[h.Body]++
	}
	return m
}

var _ = simrt.Sleep
