package h

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	"vsim/ref"

	"github.com/golang/protobuf/proto"
	textsecure "github.com/signal-golang/textsecure"
	"github.com/signal-golang/textsecure/contacts"
	sp "github.com/signal-golang/textsecure/protobuf"
	"gopkg.in/yaml.v2"
)

// want is a callback that must come exactly once.
type want struct {
	id     string
	kind   string
	uuid   string
	source string
	body   string
	ts     uint64
	flags  uint32
	dev    uint32
	dm     *sp.DataMessage
	sent   *Sent
	item   *Item
	n      int
	effect func()
	void   bool // no application callback: only the effect
}

// content follows which callbacks and effects each content must have.
type content struct {
	f       *Flow
	wants   map[string]*want
	order   []*want
	ts      uint64
	book    map[string]contacts.Contact // what the contacts must be
	nulls   map[string]int              // account -> null messages it must get
	gotNull map[*Peer]int
	groups  int
	gotGrp  map[*Peer]int
	has     map[*Peer]time.Time // the client has had a session with it since
	seen    map[*Peer]map[int]bool
	ending  map[string]int
	ended   map[*Peer]time.Time
	upTo    map[*Peer]int
	posted  []*Item
	raw     []func()
	own     []*Peer
}

func (x *content) key(kind string, ts uint64) string { return fmt.Sprint(kind, "/", ts) }

// stamp is a timestamp no other content carries.
func (x *content) stamp() uint64 {
	t := uint64(vnow().UnixMilli())
	if x.ts >= t {
		t = x.ts
	}
	x.ts = t + 1 + uint64(x.f.w.N(5))
	return x.ts
}

func (x *content) want(v *want) *want {
	if x.f.w.Node.Without[v.kind] {
		if v.kind != "call" {
			return v
		}
		v.kind = "message"
	}
	x.wants[x.key(v.kind, v.ts)] = v
	x.order = append(x.order, v)
	return v
}

func (f *Flow) content() *content {
	w := f.w
	x := &content{f: f, wants: map[string]*want{}, book: map[string]contacts.Contact{}, nulls: map[string]int{}, gotNull: map[*Peer]int{}, gotGrp: map[*Peer]int{},
		has: map[*Peer]time.Time{}, seen: map[*Peer]map[int]bool{}, ending: map[string]int{}, ended: map[*Peer]time.Time{}, upTo: map[*Peer]int{}}
	f.noJudge = true
	w.Node.OnHanded = x.handed
	f.OnPeer = x.peerGot
	f.OnLost = func(uuid string) {
		for _, p := range f.peers {
			if p.D.UUID == uuid {
				delete(x.has, p)
			}
		}
	}
	return x
}

func (x *content) handed(h *Handed) {
	w := x.f.w
	w.Evals++
	v := x.wants[x.key(h.Kind, h.TS)]
	who := fmt.Sprintf("%s callback with %q from %q, timestamp %d", h.Kind, trunc(h.Body, 40), h.UUID, h.TS)
	switch {
	case v == nil:
		w.Violate("C23", "unexpected callback", "there was a %s, which no content asks for", who)
		return
	case v.n > 0 && v.item != nil && len(v.item.Pushes) > 1: // delivered again on another connection
		return
	case v.n > 0:
		w.Violate("C23", "callback twice", "there was a second %s (for %s)", who, v.id)
		return
	case h.UUID != v.uuid || h.Source != v.source:
		w.Violate("C23", "wrong sender", "the %s is for %s, sent by %q (source %q), and names source %q", who, v.id, v.uuid, v.source, h.Source)
	case h.Kind != "receipt" && h.Kind != "syncread" && h.Chat != v.uuid:
		w.Violate("C23", "wrong sender", "the %s is for %s, sent by %q, and names chat %q", who, v.id, v.uuid, h.Chat)
	case h.Body != v.body:
		w.Violate("C23", "wrong content", "the %s is for %s, whose text is %q", who, v.id, v.body)
	case h.Flags != v.flags && !(v.flags == 2 && h.Flags == 0):
		w.Violate("C23", "wrong content", "the %s is for %s with flags %d, and has flags %d", who, v.id, v.flags, h.Flags)
	case h.Dev != v.dev:
		w.Violate("C23", "wrong content", "the %s is for %s with device or time %d, and has %d", who, v.id, v.dev, h.Dev)
	default:
		if why := differs(h, v.dm); why != "" {
			w.Violate("C23", "wrong content", "the %s is for %s, and has another %s", who, v.id, why)
		}
	}
	v.n++
	if v.effect != nil {
		v.effect()
	}
	if s := v.sent; s != nil {
		x.f.was(s, h)
		if x.has[s.Peer].IsZero() && !s.Peer.lost(s.Info.Session) && !x.busy(s.Peer, nil) {
			x.has[s.Peer] = time.Now()
		}
		if s.upTo != nil {
			x.ending[s.Peer.D.UUID]--
			for q, n := range s.upTo {
				x.ended[q], x.upTo[q] = time.Now(), n
			}
		}
	}
}

// busy: another send to the account is running, and may have a session of its
// own that is not known yet.
func (x *content) busy(p *Peer, but *outMsg) bool {
	for _, q := range x.f.peers {
		if q.D.UUID == p.D.UUID && x.gotNull[q] < x.nulls[p.D.UUID] {
			return true
		}
	}
	for _, o := range x.f.out {
		if o != but && o.Dest == p.D.UUID && !o.Op.Over() {
			return true
		}
	}
	return false
}

// differs compares the optional fields.
func differs(h *Handed, dm *sp.DataMessage) string {
	if h.Msg == nil {
		return ""
	}
	m := h.Msg
	eq := func(a, b proto.Message) bool {
		an, bn := reflect.ValueOf(a).IsNil(), reflect.ValueOf(b).IsNil()
		return an && bn || !an && !bn && proto.Equal(a, b)
	}
	switch {
	case m.ExpireTimer() != dm.GetExpireTimer():
		return "expire timer"
	case !eq(m.Quote(), dm.GetQuote()):
		return "quote"
	case !eq(m.Sticker(), dm.GetSticker()):
		return "sticker"
	case !eq(m.Reaction(), dm.GetReaction()):
		return "reaction"
	case len(m.Contact()) != len(dm.GetContact()):
		return "number of contacts"
	case len(m.Attachments()) != 0:
		return "number of attachments"
	case m.GroupV2() != nil:
		return "group"
	}
	for i, c := range m.Contact() {
		if !eq(c, dm.GetContact()[i]) {
			return "contact"
		}
	}
	return ""
}

// peerGot judges what the client sends.
func (x *content) peerGot(p *Peer, g *Got) {
	w := x.f.w
	if g.Err != nil {
		x.f.judgeOut(p, g)
		return
	}
	w.Evals++
	var o *outMsg
	switch {
	case g.C.GetDataMessage() != nil && !p.Own:
		x.f.judgeOut(p, g)
		o = x.f.outBy[g.Body]
	case g.C.GetNullMessage() != nil && !p.Own:
		if x.gotNull[p]++; x.gotNull[p] > x.nulls[p.D.UUID] {
			w.Violate("C23", "unasked message sent", "%s got null message %d of the client; own devices asked for %d", p.Name, x.gotNull[p], x.nulls[p.D.UUID])
		}
	case g.C.GetSyncMessage().GetGroups() != nil && p.Own:
		if x.gotGrp[p]++; x.gotGrp[p] > x.groups {
			w.Violate("C23", "unasked message sent", "%s got group list %d of the client; own devices asked for %d", p.Name, x.gotGrp[p], x.groups)
		}
	default:
		w.Violate("C23", "unasked message sent", "%s got %q from the client, which nobody asked for", p.Name, trunc(g.C.String(), 80))
	}
	if o != nil && g.Wire.Type == 3 && !p.own[g.Info.Session] && !o.Op.Start.After(p.endAt) {
		// started before the client learned of the end of the older ones,
		// and perhaps deleted with them
		p.dead[g.Info.Session] = true
	}
	if x.seen[p] == nil {
		x.seen[p] = map[int]bool{}
	}
	first := g.Wire.Type == 3 && !p.own[g.Info.Session] && !x.seen[p][g.Info.Session]
	x.seen[p][g.Info.Session] = true
	if o != nil && first && !x.has[p].IsZero() && o.Op.Start.After(x.has[p]) && x.ending[p.D.UUID] == 0 {
		w.Violate("C23", "session disturbed", "the client had a session with %s and nobody ended it, but %q starts a new one", p.Name, g.Body)
	}
	if n, ok := x.upTo[p]; ok && o != nil && o.Op.Start.After(x.ended[p]) && g.Info.Session <= n {
		again := false
		for _, s := range p.Sent {
			// one that has no callback may have come since
			silent := s.Typ == 3 && s.Want && s.Kind == "silent"
			again = again || s.Info.Session == g.Info.Session && (s.Handed > 0 && !s.HandedAt.Before(x.ended[p]) || silent)
		}
		if !again {
			w.Violate("C23", "reset without effect", "%s ended its sessions, the application was told so, but %q still uses session %d", p.Name, g.Body, g.Info.Session)
		}
	}
	if x.has[p].IsZero() && !p.lost(g.Info.Session) && x.ending[p.D.UUID] == 0 && o != nil && o.Op.Start.After(x.ended[p]) && !x.busy(p, o) {
		x.has[p] = time.Now()
	}
}

// fields adds optional fields to a data message.
func (x *content) fields(dm *sp.DataMessage) {
	w := x.f.w
	s := func(p string) *string { v := w.Uniq(p); return &v }
	who := w.newUUID()
	ts := uint64(1600000000000 + w.N(1<<30))
	if w.Chance(1, 3) {
		dm.Quote = &sp.DataMessage_Quote{Id: &ts, AuthorUuid: &who, Text: s("quote")}
	}
	if w.Chance(1, 3) {
		e := uint32(1 + w.N(100000))
		dm.ExpireTimer = &e
	}
	if w.Chance(1, 4) {
		dm.Reaction = &sp.DataMessage_Reaction{Emoji: s("emoji"), TargetAuthorUuid: &who, TargetSentTimestamp: &ts}
	}
	if w.Chance(1, 4) {
		n := uint32(w.N(50))
		dm.Sticker = &sp.DataMessage_Sticker{PackId: w.RandBytes(16), PackKey: w.RandBytes(32), StickerId: &n}
	}
	if w.Chance(1, 4) {
		for i := 0; i <= w.N(2); i++ {
			dm.Contact = append(dm.Contact, &sp.DataMessage_Contact{Name: &sp.DataMessage_Contact_Name{DisplayName: s("name")}, Organization: s("org")})
		}
	}
	if w.Chance(1, 4) {
		dm.ProfileKey = w.RandBytes(32)
	}
}

// make draws a content from the account, and the callback it must have.
func (x *content) make(uuid, source string, kind int, own bool) (c *sp.Content, ts uint64, ws []*want) {
	w := x.f.w
	ts = x.stamp()
	v := &want{uuid: uuid, source: source, ts: ts}
	id := w.Uniq("in")
	switch kind {
	case 0: // text
		dm := &sp.DataMessage{Body: &id, Timestamp: &ts}
		if w.Chance(1, 12) {
			dm.Body = nil
		}
		x.fields(dm)
		if w.Chance(1, 8) {
			fl := uint32(2)
			dm.Flags = &fl
			v.flags = 2
		}
		v.kind, v.body, v.dm, v.id = "message", dm.GetBody(), dm, "text"
		c = &sp.Content{DataMessage: dm}
	case 1:
		a := sp.TypingMessage_Action(w.N(2))
		v.kind, v.body, v.id = "typing", "typingMessage", "typing notice"
		c = &sp.Content{TypingMessage: &sp.TypingMessage{Timestamp: &ts, Action: &a}}
		w.Count("typing")
	case 2:
		cm := &sp.CallMessage{}
		n := uint64(w.N(1 << 30))
		k := w.N(5)
		switch k {
		case 0:
			cm.Offer = &sp.CallMessage_Offer{Id: &n}
		case 1:
			cm.Answer = &sp.CallMessage_Answer{Id: &n}
		case 2:
			cm.Hangup = &sp.CallMessage_Hangup{Id: &n}
		case 3:
			cm.Busy = &sp.CallMessage_Busy{Id: &n}
		case 4:
			cm.IceUpdate = []*sp.CallMessage_IceUpdate{{Id: &n}}
		}
		v.kind, v.body, v.id = "call", "Call "+[]string{"offer", "answer", "hangup", "busy", "ring"}[k], "call event"
		c = &sp.Content{CallMessage: cm}
		w.Count("call")
	case 3:
		k := sp.ReceiptMessage_Type(w.N(2))
		rm := &sp.ReceiptMessage{Type: &k}
		for i := w.N(4); i >= 0; i-- {
			t := x.stamp()
			rm.Timestamp = append(rm.Timestamp, t)
			ws = append(ws, &want{uuid: uuid, source: source, ts: t, kind: "receiptmsg", id: "receipt", body: []string{"deliveryReceiptMessage", "readReceiptMessage"}[k]})
		}
		w.Count("receipt_message")
		return &sp.Content{ReceiptMessage: rm}, ts, ws
	case 4:
		w.Count("nothing_to_do")
		switch w.N(3) {
		case 0:
			return &sp.Content{NullMessage: &sp.NullMessage{Padding: w.RandBytes(w.N(30))}}, ts, nil
		case 1:
			return &sp.Content{}, ts, nil
		default:
			return &sp.Content{DecryptionErrorMessage: w.RandBytes(20)}, ts, nil
		}
	case 5:
		fl := uint32(4)
		dm := &sp.DataMessage{Timestamp: &ts, Flags: &fl, ProfileKey: w.RandBytes(32)}
		if w.Chance(1, 3) {
			dm.Body = &id
		}
		v.kind, v.body, v.dm, v.flags, v.id = "message", dm.GetBody(), dm, 4, "profile key change"
		v.effect = func() { x.newKey(uuid, dm.ProfileKey) }
		c = &sp.Content{DataMessage: dm}
		w.Count("profile_key")
	}
	return c, ts, []*want{v}
}

func (x *content) newKey(uuid string, key []byte) {
	c, ok := x.book[uuid]
	if !ok {
		c = contacts.Contact{UUID: uuid, Name: uuid}
	}
	c.ProfileKey = key
	x.book[uuid] = c
}

// encrypt makes the peer encrypt the content and files the callbacks.
func (x *content) encrypt(p *Peer, id string, c *sp.Content, ts uint64, ws []*want) *Sent {
	s, err := p.Encrypt(id, "content", c)
	if s = x.f.note(s, err); s == nil {
		return nil
	}
	delete(x.f.byID, s.ID)
	s.TS = ts
	s.Kind = "silent"
	for _, v := range ws {
		v.sent = s
		if x.want(v); x.wants[x.key(v.kind, v.ts)] == v {
			s.Kind = "content"
		}
	}
	return s
}

// post delivers it; several times, maybe.
func (x *content) post(s *Sent) {
	if s == nil {
		return
	}
	w := x.f.w
	n := 1
	if w.Chance(1, 5) {
		n += 1 + w.N(2)
		w.Count("message_repeated")
	}
	for i := 0; i < n; i++ {
		e := s.Env()
		e.ServerTS = e.TS
		it := w.item(e, s.ID)
		it.Tag, it.Of = s, s
		s.Want = true
		w.Srv.Enqueue(it)
	}
}

// enqueue delivers something that is not encrypted for a session.
func (x *content) enqueue(e *Env, what string) *Item {
	it := x.f.w.item(e, what)
	x.f.w.Srv.Enqueue(it)
	return it
}

// sync draws a sync message. The second result makes it count.
func (x *content) sync(dst *Peer) (*sp.Content, uint64, func(s *Sent)) {
	f, w := x.f, x.f.w
	ts := x.stamp()
	sm := &sp.SyncMessage{}
	var eff func(s *Sent)
	switch w.Weighted(4, 3, 2, 2, 2) {
	case 0:
		dts := x.stamp()
		body := w.Uniq("elsewhere")
		dm := &sp.DataMessage{Body: &body, Timestamp: &dts}
		x.fields(dm)
		uuid := dst.D.UUID
		fl := uint32(0)
		if w.Chance(1, 6) {
			fl = 4
			dm.Flags = &fl
			dm.ProfileKey = w.RandBytes(32)
		}
		sm.Sent = &sp.SyncMessage_Sent{DestinationUuid: &uuid, Timestamp: &dts, Message: dm}
		eff = func(s *Sent) {
			x.want(&want{id: "transcript", kind: "syncsent", uuid: uuid, body: body, ts: dts, flags: fl, dev: uint32(ts), dm: dm, sent: s})
		}
	case 1:
		var ws []*want
		for i := w.N(3); i >= 0; i-- {
			t := x.stamp()
			uuid := f.peers[w.N(len(f.peers))].D.UUID
			sm.Read = append(sm.Read, &sp.SyncMessage_Read{SenderUuid: &uuid, Timestamp: &t})
			ws = append(ws, &want{id: "read notice", kind: "syncread", uuid: uuid, ts: t})
		}
		eff = func(s *Sent) {
			for _, v := range ws {
				v.sent = s
				x.want(v)
			}
		}
	case 2:
		uuid := dst.D.UUID
		k := sp.Verified_State(w.N(3))
		sm.Verified = &sp.Verified{DestinationUuid: &uuid, State: &k, IdentityKey: ref.Ser(dst.D.Identity.Pub)}
		eff = func(*Sent) { x.nulls[uuid]++; w.Count("verified_synced") }
	case 3:
		k := sp.SyncMessage_Request_GROUPS
		sm.Request = &sp.SyncMessage_Request{Type: &k}
		eff = func(*Sent) { x.groups++; w.Count("groups_requested") }
	case 4:
		eff = func(*Sent) {}
		switch w.N(6) {
		case 0:
			sm.Contacts = &sp.SyncMessage_Contacts{}
		case 1:
			k := sp.SyncMessage_Request_Type(2 + w.N(2))
			if k == sp.SyncMessage_Request_GROUPS {
				k = 3
			}
			sm.Request = &sp.SyncMessage_Request{Type: &k}
		case 2:
			sm.Blocked = &sp.SyncMessage_Blocked{Uuids: []string{dst.D.UUID}}
		case 3:
			b := true
			sm.Configuration = &sp.SyncMessage_Configuration{ReadReceipts: &b}
		case 4:
			sm.Padding = w.RandBytes(10)
		case 5:
			sm.Keys = &sp.SyncMessage_Keys{StorageService: w.RandBytes(32)}
		}
	}
	return &sp.Content{SyncMessage: sm}, ts, eff
}

// impostor sends a sync message that must have no effect.
func (x *content) impostor(p, dst *Peer) {
	f, w := x.f, x.f.w
	c, ts, _ := x.sync(dst)
	if w.Chance(1, 4) { // a request that own devices are not given here
		k := sp.SyncMessage_Request_CONTACTS
		c.SyncMessage = &sp.SyncMessage{Request: &sp.SyncMessage_Request{Type: &k}}
	}
	if s := c.SyncMessage.Sent; s != nil && w.Chance(1, 2) {
		fl := uint32(1)
		s.Message.Flags = &fl
	}
	own := w.Node.UUID()
	w.Count("impostor")
	switch w.N(4) {
	case 0: // in a genuine session
		x.post(x.encrypt(p, "impostor", c, ts, nil))
	case 1: // by sealed sender
		b, _ := proto.Marshal(c)
		from := p.D.UUID
		switch w.N(3) {
		case 0:
			from = w.newUUID()
		case 1:
			from = "00000000-0000-0000-0000-000000000000"
		}
		x.enqueue(&Env{Type: 6, TS: ts, ServerTS: ts, Content: Sealed(from, 1, b)}, "sealed impostor")
	case 2: // under the user's own name, with another identity
		d := ref.NewDevice(own, uint32(1+w.N(4)), ref.GenKey(w.Rng), w.Rng)
		bun := w.Srv.takeBundle(own, 1, true)
		if bun == nil || d.Start(w.nodeAddr(), bun) != nil {
			return
		}
		b, _ := proto.Marshal(c)
		typ, msg, _, err := d.Encrypt(w.nodeAddr(), ref.Pad(b))
		must(err)
		x.enqueue(&Env{Type: typ, From: own, Dev: d.ID, TS: ts, ServerTS: ts, Content: msg}, "impostor of the account")
	case 3: // a genuine session's message under the user's own name
		id := uint32(1 + w.N(4))
		if len(x.own) > 0 {
			id = x.own[0].D.ID
		}
		s := x.encrypt(p, "impostor", c, ts, nil)
		if s == nil {
			return
		}
		e := s.Env()
		e.From, e.Dev, e.ServerTS = own, id, ts
		x.enqueue(e, "renamed impostor")
	}
	_ = f
}

// end makes the peer end its sessions.
func (x *content) end(p *Peer) {
	f, w := x.f, x.f.w
	id := w.Uniq("end")
	ts := x.stamp()
	fl := uint32(sp.DataMessage_END_SESSION)
	dm := &sp.DataMessage{Body: &id, Timestamp: &ts, Flags: &fl}
	s := x.encrypt(p, id, &sp.Content{DataMessage: dm}, ts, []*want{{id: "session end", kind: "message", uuid: p.D.UUID, source: p.D.UUID, body: id, ts: ts, flags: 1, dm: dm}})
	if s == nil {
		return
	}
	s.upTo = f.lastSessions(p.D.UUID)
	w.Count("session_ended_by_peer")
	x.ending[p.D.UUID]++
	for q := range s.upTo {
		q.D.Archive(w.nodeAddr())
	}
	x.post(s)
}

// checkBook compares the client's contacts with what they must be.
func (x *content) checkBook(when string) {
	w := x.f.w
	ids := sortedKeys(x.book)
	op := w.Node.Call("GetContact", func() (any, error) {
		m := map[string]contacts.Contact{}
		for _, id := range ids {
			m[id] = contacts.GetContact(id)
		}
		return m, nil
	})
	if !op.Wait(time.Minute) || !op.OK() {
		return
	}
	m := op.Val.(map[string]contacts.Contact)
	for _, id := range ids {
		w.Evals++
		a, b := m[id], x.book[id]
		if !bytes.Equal(a.ProfileKey, b.ProfileKey) {
			w.Violate("C23", "profile key not kept", "%s the profile key of %s is %x instead of %x", when, id, a.ProfileKey, b.ProfileKey)
			return
		}
		a.ProfileKey, b.ProfileKey = nil, nil
		if strings.HasPrefix(b.Name, id) {
			a.Name, b.Name = "", ""
		}
		ab, _ := yaml.Marshal(a)
		bb, _ := yaml.Marshal(b)
		if !bytes.Equal(ab, bb) {
			w.Violate("C23", "contact changed", "%s the contact %s is\n%s instead of\n%s", when, id, ab, bb)
			return
		}
	}
}

func init() {
	register(&Profile{Prop: "C23",
		Rule:   "Peers, sealed senders and up to two own devices send texts with optional fields, typing notices, call events, receipts, session resets, profile-key changes, receipts of the service, transcripts, read notices, verification and group-list requests in any mixture, repeated and reordered, while the application sends and reads contacts; impostors send the same sync messages in sessions, as sealed senders and under the user's own name. Every content must cause its own callback exactly once with what it carried, no other callback and no unasked outgoing message may occur, resets must end exactly the sender's sessions, profile keys must be kept across restarts.",
		Faults: "repetition, loss, delay, reordering, impostors, connection breaks, restarts, missing callbacks of the application, concurrent sends",
		Drive: func(w *World) {
			w.swarm()
			f := newFlow(w, "C23")
			w.Cray.Once = true
			x := f.content()
			if w.Chance(1, 3) {
				w.Node.Without = map[string]bool{[]string{"typing", "receiptmsg", "call", "receipt", "syncread", "syncsent"}[w.N(6)]: true}
			}
			names := []string{"alice", "bob", "carol"}
			var list []contacts.Contact
			n := 1 + w.N(3)
			for i := 0; i < n; i++ {
				p := w.NewPeer(names[i])
				f.peers = append(f.peers, p)
				if w.Chance(1, 2) {
					list = append(list, contacts.Contact{UUID: p.D.UUID, Tel: p.Tel, Name: names[i], Color: "red", About: w.Uniq("about"), ProfileKey: w.RandBytes(32), ExpireTimer: uint32(w.N(100)), Registered: true})
				}
			}
			if w.Chance(1, 2) {
				list = append(list, contacts.Contact{UUID: w.newUUID(), Tel: "+15557770000", Name: "zoe", ProfileKey: w.RandBytes(32)})
			}
			for _, c := range list {
				x.book[c.UUID] = c
			}
			b, err := yaml.Marshal(map[string]any{"contacts": list})
			must(err)
			w.FS.Put(contactPath, b)
			w.FS.SyncAll()
			if !f.start() {
				return
			}
			if w.Chance(1, 3) {
				f.peers = append(f.peers, f.peers[0].AddDevice(2))
			}
			friends := append([]*Peer{}, f.peers...)
			for i := w.Weighted(1, 3, 2); i > 0; i-- {
				q := w.OwnDevice(uint32(10 + i))
				x.own = append(x.own, q)
				f.peers = append(f.peers, q)
			}
			f.serve()
			var late []*Sent
			send := func(s *Sent) {
				if s == nil {
					return
				}
				switch w.Weighted(8, 1, 1) {
				case 0:
					x.post(s)
				case 1:
					w.Count("message_lost")
				case 2:
					late = append(late, s)
				}
			}
			for i, n := 0, 8+w.N(40); i < n; i++ {
				p := friends[w.N(len(friends))]
				q := friends[w.N(len(friends))]
				switch w.Weighted(10, 4, 3, 2, 5, 3, 3, 3, 2, 1, 2, 3) {
				case 0:
					c, ts, ws := x.make(p.D.UUID, p.D.UUID, w.Weighted(5, 2, 2, 2, 1, 2), false)
					send(x.encrypt(p, w.Uniq("content"), c, ts, ws))
				case 1: // sealed
					from := p.D.UUID
					if w.Chance(1, 4) {
						from = w.newUUID()
					}
					c, ts, ws := x.make(from, "", w.Weighted(5, 2, 2, 2, 1, 2), false)
					b, _ := proto.Marshal(c)
					for _, v := range ws {
						x.want(v)
					}
					w.Count("sealed_sender")
					x.enqueue(&Env{Type: 6, TS: ts, ServerTS: ts, Content: Sealed(from, byte(1+w.N(3)), b)}, "sealed")
				case 2: // receipt of the service
					ts := x.stamp()
					dev := uint32(1 + w.N(3))
					v := x.want(&want{id: "delivery receipt", kind: "receipt", uuid: p.D.UUID, ts: ts, dev: dev})
					w.Count("receipt_envelope")
					v.item = x.enqueue(&Env{Type: 5, From: p.D.UUID, Dev: dev, TS: ts, ServerTS: x.stamp()}, "receipt")
				case 3:
					x.end(p)
				case 4: // own device
					if len(x.own) == 0 {
						continue
					}
					o := x.own[w.N(len(x.own))]
					if w.Chance(1, 6) { // a note to self
						c, ts, ws := x.make(o.D.UUID, o.D.UUID, 0, false)
						send(x.encrypt(o, w.Uniq("content"), c, ts, ws))
						continue
					}
					c, ts, eff := x.sync(q)
					w.Count("synced")
					if w.Chance(1, 5) {
						// source of sealed messages is the account only
						eff(nil)
						b, _ := proto.Marshal(c)
						x.enqueue(&Env{Type: 6, TS: ts, ServerTS: ts, Content: Sealed(o.D.UUID, byte(o.D.ID), b)}, "sealed sync")
						continue
					}
					if s := x.encrypt(o, w.Uniq("sync"), c, ts, nil); s != nil {
						eff(s)
						x.post(s)
					}
				case 5:
					x.impostor(p, q)
				case 6:
					o := f.send(p)
					if w.Chance(1, 2) {
						o.Op.Wait(2 * time.Minute)
					}
				case 7:
					if len(late) > 0 {
						j := w.N(len(late))
						x.post(late[j])
						late = append(late[:j:j], late[j+1:]...)
					}
				case 8:
					w.Sleep(time.Duration(w.N(3000)) * time.Millisecond)
				case 9:
					f.step(mix{brk: 1})
				case 10:
					if w.Chance(1, 2) {
						if !f.step(mix{restart: 1}) {
							return
						}
						x.checkBook("after a restart")
						w.Count("contacts_after_restart")
						continue
					}
					w.Settle(5 * time.Minute)
					x.checkBook("when all was handled")
				case 11:
					id := p.D.UUID
					w.Node.Call("GetContact", func() (any, error) { return contacts.GetContact(id), nil })
				}
				if len(w.Viol) > 0 || !w.Node.Alive() {
					return
				}
			}
			for _, o := range f.out {
				o.Op.Wait(10 * time.Minute)
				w.Evals++
				if !o.Op.Done || o.Op.Err != nil {
					w.Violate("C23", "send fails", "%s of %q failed without any fault: done %v, %v", o.Op.Name, o.Body, o.Op.Done, o.Op.Err)
					return
				}
			}
			if !f.finish() {
				return
			}
			w.Sleep(time.Minute)
			x.checkBook("in the end")
			f.outDelivered()
			x.judge()
		}})
}

func (x *content) judge() {
	w := x.f.w
	for _, v := range x.order {
		w.Evals++
		if s := v.sent; s != nil && (!s.Want || s.Excuse != "" || s.chains() > 4) {
			continue
		}
		if v.n == 0 {
			w.Violate("C23", "no callback", "the %s of %s with timestamp %d was delivered, but never caused its %s callback", v.id, v.uuid, v.ts, v.kind)
			return
		}
	}
	for _, p := range x.f.peers {
		w.Evals++
		if p.Own {
			if x.gotGrp[p] != x.groups {
				w.Violate("C23", "request not answered", "own devices asked %d times for the groups, %s got %d answers", x.groups, p.Name, x.gotGrp[p])
				return
			}
		} else if x.gotNull[p] != x.nulls[p.D.UUID] {
			w.Violate("C23", "verification not passed on", "own devices told %d times that %s is verified, %s got %d null messages", x.nulls[p.D.UUID], short(p.D.UUID), p.Name, x.gotNull[p])
			return
		}
	}
	if n := len(w.Srv.Allocs); n != x.groups {
		w.Violate("C23", "unasked upload", "%d uploads for %d requests of own devices", n, x.groups)
	}
}

var _ = textsecure.EndSessionFlag
