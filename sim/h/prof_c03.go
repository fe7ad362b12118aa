package h

import (
	"bytes"
	"regexp"
	"time"

	"vsim/ref"

	"github.com/golang/protobuf/proto"
	sp "github.com/signal-golang/textsecure/protobuf"
)

// corrupt delivers damaged copies of s.
func (f *Flow) corrupt(s *Sent) {
	w := f.w
	for n := 1 + w.N(3); n > 0; n-- {
		e := s.Env()
		switch w.Weighted(6, 1, 2, 2, 1) {
		case 0:
			e.Content = w.mutate(e.Content)
		case 1:
			e.Type = []int{0, 1, 2, 3, 5, 6, 8}[w.N(7)]
			e.NoType = w.Chance(1, 4)
		case 2: // other fields in the same wrapping
			if s.Typ == 3 {
				m, err := ref.ParsePreKey(s.Msg)
				if err != nil {
					continue
				}
				reg, pk, spk, base, id, in := m.Reg, m.PreKeyID, m.SignedID, m.Base, m.Identity, m.Inner
				switch w.N(6) {
				case 0:
					id = ref.GenKey(w.Rng).Pub
				case 1:
					if s.Info.Counter == 0 {
						base = ref.GenKey(w.Rng).Pub
					}
				case 2:
					pk = uint32(w.N(1 << 24))
				case 3:
					spk = uint32(w.N(1 << 24))
				case 4:
					in = w.mutate(in)
				case 5:
					pk = 0
				}
				_ = reg
				e.Content = ref.BuildPreKey(reg, pk, spk, base, id, in)
			} else {
				m, err := ref.ParseWhisper(s.Msg)
				if err != nil {
					continue
				}
				rk, ctr := m.Ratchet, m.Counter
				switch w.N(4) {
				case 0:
					rk = ref.GenKey(w.Rng).Pub
				case 1:
					ctr = []uint32{ctr + 1, ctr + 100, 1 << 31, ^uint32(0), ctr + 1999}[w.N(5)]
				case 2:
					rk, ctr = ref.GenKey(w.Rng).Pub, uint32(w.N(1500))
				case 3:
					rk = [32]byte{} // a point of low order
				}
				e.Content = ref.BuildWhisper(rk, ctr, m.Prev, m.Body, w.RandBytes(32), [32]byte{}, [32]byte{})
			}
		case 3: // the whole push
			it := w.item(e, s.ID+" damaged")
			it.Body = w.mutate(it.Body)
			if e := new(sp.Envelope); proto.Unmarshal(it.Body, e) == nil && e.GetType() == sp.Envelope_PREKEY_BUNDLE && bytes.Equal(e.GetContent(), s.Msg) &&
				(e.GetSourceUuid() != s.Peer.D.UUID || e.GetSourceDevice() != s.Peer.D.ID) {
				continue // a genuine first message in the name of someone unknown: trusted on first use
			}
			w.Count("body_damaged")
			it.Of = s
			w.Srv.Enqueue(it)
			continue
		case 4:
			e.From = []string{"", "../" + e.From, "x/../" + e.From, "+15551112222", string(w.RandBytesHex(300)), "remote_x"}[w.N(6)]
			if s.Typ == 3 {
				m, err := ref.ParsePreKey(s.Msg)
				if err != nil {
					continue
				}
				in := append([]byte{}, m.Inner...)
				in[len(in)-1-w.N(8)] ^= 1
				e.Content = ref.BuildPreKey(m.Reg, m.PreKeyID, m.SignedID, m.Base, m.Identity, in)
			}
			w.Count("odd_source")
		}
		w.Count("message_corrupted")
		it := w.item(e, s.ID+" corrupted")
		it.Of = s
		w.Srv.Enqueue(it)
	}
}

// forge delivers a session setup made by an attacker in the name of p.
func (f *Flow) forge(p *Peer) {
	w := f.w
	uuid := w.Node.UUID()
	from, dev := p.D.UUID, p.D.ID
	pinned := f.pinned(from)
	if w.Chance(1, 6) {
		from, dev, pinned = uuid, uint32(2+w.N(3)), true // a device of the own account
	}
	att := ref.NewDevice(from, dev, ref.GenKey(w.Rng), w.Rng)
	b := w.Srv.takeBundle(uuid, 1, false)
	if w.Chance(1, 2) { // the attacker names prekeys it saw in others' messages or guesses
		b = w.peekBundle()
	}
	if b == nil {
		return
	}
	how := w.N(4)
	if !pinned && how < 2 {
		how = 2
	}
	if att.Start(w.nodeAddr(), b) != nil {
		return
	}
	body := "forged-" + string(w.RandBytesHex(6))
	ts := p.ms()
	c := &sp.Content{DataMessage: &sp.DataMessage{Body: &body, Timestamp: &ts}}
	if from == uuid && w.Chance(1, 2) {
		c = &sp.Content{SyncMessage: &sp.SyncMessage{Sent: &sp.SyncMessage_Sent{DestinationUuid: &p.D.UUID, Timestamp: &ts, Message: c.DataMessage}}}
	}
	raw, err := proto.Marshal(c)
	must(err)
	_, msg, inf, err := att.Encrypt(w.nodeAddr(), ref.Pad(raw))
	must(err)
	m, err := ref.ParsePreKey(msg)
	must(err)
	switch how {
	case 0, 1: // as it is: another identity key
	case 2: // the peer's identity key, which the attacker does not have
		id := p.D.Identity.Pub
		if from == uuid {
			id = w.image().Identity.Pub
		}
		inner := m.Inner
		if w.Chance(1, 2) {
			// authenticated for that identity with the attacker's keys
			x, _ := ref.ParseWhisper(m.Inner)
			inner = ref.BuildWhisper(x.Ratchet, x.Counter, x.Prev, x.Body, inf.Keys.Mac, id, w.image().Identity.Pub)
		}
		msg = ref.BuildPreKey(m.Reg, m.PreKeyID, m.SignedID, m.Base, id, inner)
	case 3: // unauthentic inside
		in := append([]byte{}, m.Inner...)
		in[len(in)-1-w.N(8)] ^= 1
		msg = ref.BuildPreKey(m.Reg, m.PreKeyID, m.SignedID, m.Base, m.Identity, in)
	}
	w.Count("forged_setup")
	w.Srv.Enqueue(w.item(&Env{Type: 3, From: from, Dev: dev, TS: ts, ServerTS: ts, Content: msg}, "forged for "+p.Name))
}

// peekBundle is a bundle with a one-time prekey the service has not given away.
func (w *World) peekBundle() *ref.Bundle {
	a := w.Node.Acct()
	d := a.Devs[1]
	b := w.Srv.takeBundle(a.UUID, 1, false)
	if b == nil || len(d.PreKeys) == 0 {
		return b
	}
	k := d.PreKeys[w.N(min(len(d.PreKeys), 6))]
	p, err := ref.ParseKey(k.Pub)
	if err != nil {
		return b
	}
	b.HasPreKey, b.PreKey, b.PreKeyID = true, p, k.ID
	return b
}

// junk pushes something meaningless.
func (f *Flow) junk() {
	w := f.w
	w.Count("junk_pushed")
	it := &Item{Note: "junk"}
	ts := uint64(vnow().UnixMilli())
	p := f.peers[w.N(len(f.peers))]
	switch w.N(10) {
	case 9: // a proper session setup, but from nobody
		from := []string{"", "../prekeys/1", "../identity/regid", "x/../y", "/", "a/b"}[w.N(6)]
		att := ref.NewDevice(w.newUUID(), uint32(w.N(2)), ref.GenKey(w.Rng), w.Rng)
		b := w.Srv.takeBundle(w.Node.UUID(), 1, false)
		if b == nil || att.Start(w.nodeAddr(), b) != nil {
			return
		}
		raw, err := proto.Marshal(p.Text("nobody-" + string(w.RandBytesHex(6))))
		must(err)
		_, msg, _, err := att.Encrypt(w.nodeAddr(), ref.Pad(raw))
		must(err)
		w.Count("setup_from_nobody")
		it = w.item(&Env{Type: 3, From: from, Dev: att.ID, TS: ts, ServerTS: ts, Content: msg}, "from nobody")
	case 0:
		it.Raw = w.RandBytes(1 + w.N(60))
	case 1: // odd websocket messages
		m := &sp.WebSocketMessage{}
		w.fill(m.ProtoReflect(), 2, 1, 2)
		if m.GetType() == sp.WebSocketMessage_REQUEST && m.GetRequest() != nil {
			m.Request.Id = nil // else an acknowledgement could be due
		}
		b, err := proto.Marshal(m)
		must(err)
		if len(b) == 0 {
			return
		}
		it.Raw = b
	case 2:
		it.Body = w.RandBytes(w.N(80))
	case 3:
		it.Body = nil
	case 4: // other paths
		it.Verb, it.Path = []string{"GET", "PUT", "POST", ""}[w.N(4)], []string{"/api/v1/message", "/", "", "/api/v1/queue/empty", "/v1/keepalive", "/api/v1/messagex"}[w.N(6)]
		if it.Verb == "" {
			it.Verb = "DELETE"
		}
		it.Body = w.RandBytes(w.N(30))
	case 5: // envelope with random fields
		e := &sp.Envelope{}
		w.fill(e.ProtoReflect(), 1, 2, 3)
		if e.GetType() == sp.Envelope_RECEIPT {
			e.Type = nil
		}
		b, err := proto.Marshal(e)
		must(err)
		it.Body = b
	case 6: // nothing but rubbish in a known conversation
		it = w.item(&Env{Type: []int{1, 3, 6}[w.N(3)], From: p.D.UUID, Dev: p.D.ID, TS: ts, Content: w.RandBytes(w.N(120))}, "junk")
	case 7: // for a session that does not exist
		x := ref.BuildWhisper(ref.GenKey(w.Rng).Pub, uint32(w.N(5)), 0, w.RandBytes(16*(1+w.N(4))), w.RandBytes(32), ref.GenKey(w.Rng).Pub, [32]byte{})
		it = w.item(&Env{Type: 1, From: []string{p.D.UUID, w.newUUID(), w.Node.UUID(), ""}[w.N(4)], Dev: uint32(w.N(3)), TS: ts, Content: x}, "junk")
	case 8: // session setup without anything behind it
		var in []byte
		if w.Chance(1, 2) {
			in = ref.BuildWhisper(ref.GenKey(w.Rng).Pub, uint32(w.N(5)), 0, w.RandBytes(16*w.N(4)), w.RandBytes(32), ref.GenKey(w.Rng).Pub, [32]byte{})
		}
		sid := uint32(w.N(1 << 24))
		if d := w.Node.Acct().Devs[1]; d != nil && d.Signed != nil && w.Chance(2, 3) {
			sid = d.Signed.ID
		}
		pk := uint32(0)
		if b := w.peekBundle(); b != nil && w.Chance(2, 3) {
			pk = b.PreKeyID
		}
		id := ref.GenKey(w.Rng).Pub
		if w.Chance(1, 2) {
			id = p.D.Identity.Pub
		}
		x := ref.BuildPreKey(uint32(w.N(16384)), pk, sid, ref.GenKey(w.Rng).Pub, id, in)
		if w.Chance(1, 3) {
			x = w.mutate(x)
		}
		it = w.item(&Env{Type: 3, From: []string{p.D.UUID, w.newUUID(), w.Node.UUID(), "", "../prekeys/1"}[w.N(5)], Dev: uint32(w.N(3)), TS: ts, Content: x}, "junk")
	}
	w.Srv.Enqueue(it)
}

// evil makes an authenticated peer (or own device) send a malformed or random
// content on its session.
func (f *Flow) evil(p *Peer) {
	w := f.w
	var pad []byte
	ts := p.ms()
	id := w.Uniq("evil")
	c := &sp.Content{}
	switch w.N(8) {
	case 0:
		pad = w.RandBytes(w.N(64))
	case 1:
		pad = make([]byte, w.N(64))
	case 2:
		b, err := proto.Marshal(p.Text(id))
		must(err)
		b = w.mutate(b)
		pad = ref.Pad(b)
		if proto.Unmarshal(b, c) != nil {
			c = &sp.Content{}
			break
		}
		// what is left of it may be a message
		if d := c.GetDataMessage(); d != nil && d.GetFlags() == 1 {
			return
		}
		f.evilOK[p.D.UUID] = true
	default:
		w.fill(c.ProtoReflect(), 3, 1+w.N(3), 4)
		if w.Chance(1, 2) {
			// one kind only
			x := &sp.Content{}
			switch w.N(7) {
			case 0:
				x.DataMessage = c.DataMessage
			case 1:
				x.SyncMessage = c.SyncMessage
			case 2:
				x.CallMessage = c.CallMessage
			case 3:
				x.ReceiptMessage = c.ReceiptMessage
			case 4:
				x.TypingMessage = c.TypingMessage
			case 5:
				x.NullMessage = c.NullMessage
			}
			c = x
		}
		scrub(c, id, ts)
		b, err := proto.Marshal(c)
		must(err)
		pad = ref.Pad(b)
		f.evilOK[p.D.UUID] = true
	}
	if p.Connect(true) != nil {
		return
	}
	typ, msg, inf, err := p.D.Encrypt(w.nodeAddr(), pad)
	if err != nil {
		return
	}
	s := &Sent{ID: id, Peer: p, TS: ts, Typ: typ, Msg: msg, Pad: pad, Info: inf, At: time.Now(), Kind: "evil"}
	if c.GetDataMessage() != nil {
		s.TS = c.GetDataMessage().GetTimestamp()
	}
	p.Sent = append(p.Sent, s)
	if b := c.GetDataMessage().GetBody(); b != "" {
		if b != id && uniqID.MatchString(b) {
			return // by chance the text of another message
		}
		id = b
	}
	f.byID[id] = s
	w.Count("odd_content")
	w.Logf("%s encrypts odd content %s (session %d counter %d)", p.Name, id, inf.Session, inf.Counter)
	w.Srv.Enqueue(w.item(s.Env(), id))
}

// scrub takes out what would rightly end sessions, and marks the body.
func scrub(c *sp.Content, id string, ts uint64) {
	fix := func(d *sp.DataMessage) {
		if d == nil {
			return
		}
		if d.Flags != nil && *d.Flags&1 != 0 {
			*d.Flags ^= 1
		}
		if d.Body != nil {
			d.Body = &id
		}
	}
	fix(c.DataMessage)
	if s := c.GetSyncMessage().GetSent(); s != nil {
		fix(s.Message)
	}
}

var uniqID = regexp.MustCompile(`^[a-z]+-[0-9]{6}$`)

func init() {
	register(&Profile{Prop: "C03",
		Rule:   "Peers and own devices exchange messages with the client while the service interleaves damaged copies of genuine messages, rubbish at every layer (websocket, body encryption, envelope, ciphertext, content), session setups forged in the name of peers, and contents with random fields on genuine sessions. The client must not crash, must hand over nothing nobody sent, and every genuine message before, between and after must still be handed over; at the end peers old and new can talk with it both ways.",
		Faults: "bit flips, truncations, extensions, cut-outs, exchanged fields, forged session setups, random protobuf contents, rubbish frames, odd sources, restarts, connection breaks",
		Drive: func(w *World) {
			f := msgWorld(w, "C03", 2)
			if f == nil {
				return
			}
			if w.Chance(1, 2) {
				f.peers = append(f.peers, w.OwnDevice(2))
				f.serve()
			}
			m := w.weights(mix{in: 6, burst: 2, late: 2, dup: 1, out: 3, fresh: 2, corrupt: 10, forge: 5, junk: 8, evil: 8, brk: 1, restart: 1, wait: 5, cross: 1})
			for i, n := 0, 6+w.N(40); i < n; i++ {
				if !f.step(m) {
					return
				}
			}
			if !f.finish() {
				return
			}
			f.after()
			f.delivered()
			f.outDelivered()
		}})
}

// after: old and new peers can still talk with the client.
func (f *Flow) after() {
	w := f.w
	if w.Chance(1, 2) {
		w.Node.Kill()
		if !f.start() {
			return
		}
	}
	f.addPeer("zoe")
	for _, p := range f.peers {
		f.post(f.in(p))
		w.Settle(10 * time.Minute)
		if p.Own || p.D.ID != 1 {
			continue
		}
		o := f.send(p)
		if !o.Op.Wait(10*time.Minute) || !o.Op.OK() {
			w.Violate(f.prop, "cannot send afterwards", "SendMessage to %s after the faults: done %v, error %v", p.Name, o.Op.Done, o.Op.Err)
			return
		}
		f.post(f.in(p))
	}
	w.Settle(10 * time.Minute)
	w.Sleep(2 * time.Second)
}
