package h

import (
	"time"

	textsecure "github.com/signal-golang/textsecure"
	sp "github.com/signal-golang/textsecure/protobuf"
)

// mix says how often each kind of step of a messaging workload is taken.
type mix struct {
	in, burst, late, dup, mis, out, par, fresh, cross, endIn, endOut, corrupt, forge, brk, restart, kill, wait, noack, pause, hold, junk, evil, deep int
}

// step performs one random step.
func (f *Flow) step(m mix) bool {
	w := f.w
	p := f.peers[w.N(len(f.peers))]
	switch w.Weighted(m.wait, m.in, m.burst, m.late, m.dup, m.mis, m.out, m.par, m.fresh, m.cross, m.endIn, m.endOut, m.corrupt, m.forge, m.brk, m.restart, m.kill, m.noack, m.pause, m.hold, m.junk, m.evil, m.deep) {
	case 0:
		w.Sleep(time.Duration(1+w.N(40)) * 100 * time.Millisecond)
	case 1:
		f.post(f.in(p))
	case 2: // several at once, out of order, some lost or late
		var b []*Sent
		for i := 0; i < 2+w.N(6); i++ {
			if s := f.in(p); s != nil {
				b = append(b, s)
			}
		}
		for len(b) > 0 {
			i := w.N(len(b))
			s := b[i]
			b = append(b[:i:i], b[i+1:]...)
			switch w.Weighted(5, 1, 1) {
			case 0:
				f.post(s)
			case 1:
				w.Count("message_lost")
			case 2:
				w.Count("message_delayed")
				f.late = append(f.late, s)
			}
		}
	case 3:
		if len(f.late) > 0 {
			i := w.N(len(f.late))
			s := f.late[i]
			f.late = append(f.late[:i:i], f.late[i+1:]...)
			f.post(s)
		}
	case 4: // the service delivers a message again
		if len(f.sent) > 0 {
			// rather a recent one
			s := f.sent[len(f.sent)-1-w.N(min(len(f.sent), 1+w.N(20)))]
			w.Count("message_repeated")
			for i := 0; i <= w.N(2); i++ {
				it := w.item(s.Env(), s.ID+" again")
				it.Of = s
				w.Srv.Enqueue(it)
			}
		}
	case 5:
		f.misroute()
	case 6:
		o := f.send(p)
		if w.Chance(2, 3) {
			o.Op.Wait(2 * time.Minute)
		}
	case 7:
		for i := 0; i < 2+w.N(3); i++ {
			f.send(f.peers[w.N(len(f.peers))])
		}
	case 8: // the peer starts over
		if p.Fresh(f.oneTime(4, 5)) == nil {
			w.Count("peer_new_session")
			f.post(f.in(p))
		}
	case 9: // both sides at once
		if p.Fresh(true) == nil {
			w.Count("crossing")
			s := f.in(p)
			f.send(p)
			if w.Chance(1, 2) {
				w.Sleep(time.Duration(w.N(400)) * time.Millisecond)
			}
			f.post(s)
		}
	case 10:
		f.endByPeer(p)
	case 11:
		f.endByNode(p)
	case 12:
		if s := f.in(p); s != nil {
			f.corrupt(s)
			if w.Chance(3, 4) {
				f.post(s)
			} else {
				f.late = append(f.late, s)
			}
		}
	case 13:
		f.forge(p)
	case 14:
		for _, k := range w.Srv.socks {
			if k.up {
				k.Break(w.Weighted(3, 3, 1))
				break
			}
		}
	case 15: // restart while nothing is going on
		for _, o := range f.out {
			o.Op.Wait(2 * time.Minute)
		}
		w.Settle(5 * time.Minute)
		w.Sleep(time.Second)
		f.died()
		w.Count("restart")
		w.Node.Kill()
		return f.start()
	case 16:
		return f.kill(w.Weighted(1, 2, 2))
	case 17:
		for _, it := range w.Srv.Queue {
			if w.Chance(1, 2) {
				it.NoAck = true
				w.Count("ack_lost")
			}
		}
		if w.Chance(1, 2) {
			w.Sleep(time.Second)
			f.reAck()
		}
	case 18:
		w.Node.AppPause = []time.Duration{0, 100 * time.Millisecond, 3 * time.Second}[w.N(3)]
	case 19:
		if p.Hold = !p.Hold; !p.Hold {
			p.Release(w.Chance(2, 3))
		}
	case 20:
		f.junk()
	case 21:
		f.evil(p)
	case 22:
		f.deep(p)
	}
	if len(w.Viol) > 0 {
		return false
	}
	if !w.Node.Alive() {
		f.died()
		return f.start()
	}
	return true
}

// deep keeps messages back until the protocol's limits of remembering are
// nearly reached: four newer ratchet steps, a gap of less than 2000 messages,
// or less than 40 newer sessions.
func (f *Flow) deep(p *Peer) {
	w := f.w
	var kept []*Sent
	keep := func() {
		for i := 1 + w.N(2); i > 0; i-- {
			if s := f.in(p); s != nil {
				kept = append(kept, s)
			}
		}
	}
	keep()
	switch w.Weighted(4, 2, 1) {
	case 0:
		w.Count("late_by_ratchet_steps")
		for i := 1 + w.N(4); i > 0; i-- {
			f.post(f.in(p))
			w.Settle(time.Minute)
			o := f.send(p)
			o.Op.Wait(time.Minute)
			p.Release(false)
		}
		f.post(f.in(p))
	case 1:
		w.Count("late_by_many_messages")
		n := []int{20, 60, 300, 1900}[w.Weighted(6, 4, 2, 1)]
		for i := 1 + w.N(n); i > 0; i-- {
			s := f.in(p)
			if s != nil && w.Chance(1, 30) && len(kept) < 8 {
				kept = append(kept, s)
			}
		}
		f.post(f.in(p))
	case 2:
		w.Count("late_by_many_sessions")
		n := []int{3, 12, 25}[w.Weighted(4, 2, 1)]
		// the client remembers 40 sessions
		for i := 1 + w.N(n); i > 0 && p.D.LastSession() < 28; i-- {
			if p.Fresh(f.oneTime(1, 2)) == nil {
				f.post(f.in(p))
			}
		}
	}
	if w.Chance(2, 3) {
		w.Settle(2 * time.Minute)
	}
	for len(kept) > 0 {
		i := w.N(len(kept))
		f.post(kept[i])
		kept = append(kept[:i:i], kept[i+1:]...)
	}
}

// oneTime tells whether the next session start uses a one-time prekey. Those
// that do not can be replayed after the client deleted the session (a known
// finding of C01), and the peer could then not read the answer.
func (f *Flow) oneTime(num, den int) bool {
	return !f.lastResort || f.w.Chance(num, den)
}

// misroute delivers a genuine ciphertext as if it came from somebody else.
func (f *Flow) misroute() {
	w := f.w
	if len(f.sent)+len(f.late) == 0 {
		return
	}
	var s *Sent
	if n := w.N(len(f.sent) + len(f.late)); n < len(f.sent) {
		s = f.sent[n]
	} else {
		s = f.late[n-len(f.sent)]
	}
	e := s.Env()
	switch w.N(4) {
	case 0:
		e.From = f.peers[w.N(len(f.peers))].D.UUID
	case 1:
		e.From = w.newUUID()
	case 2:
		e.Dev = uint32(w.N(4))
	case 3:
		e.From = w.Node.UUID()
	}
	if e.From == s.Peer.D.UUID && e.Dev == s.Peer.D.ID {
		return
	}
	if s.Typ == 3 && e.From == s.Peer.D.UUID && !s.Peer.known(s.Info.Session) {
		return // the session would become that device's
	}
	if s.Typ == 3 && e.From != s.Peer.D.UUID && e.From != w.Node.UUID() && !f.pinned(e.From) {
		return // the first message of an unknown account tells who it is
	}
	s.rerouted = s.rerouted || e.From == s.Peer.D.UUID
	w.Count("message_misrouted")
	it := w.item(e, s.ID+" misrouted")
	it.Of = s
	w.Srv.Enqueue(it)
}

// known: a message of the peer's session was handed over.
func (p *Peer) known(session int) bool {
	for _, s := range p.Sent {
		if s.Handed > 0 && s.Info.Session == session {
			return true
		}
	}
	return false
}

// pinned: the client has accepted an identity key for the account.
func (f *Flow) pinned(uuid string) bool {
	for _, p := range f.peers {
		if p.D.UUID != uuid {
			continue
		}
		for _, s := range p.Sent {
			if s.Handed > 0 {
				return true
			}
		}
		for _, g := range p.Got {
			if g.Err == nil {
				return true
			}
		}
	}
	return false
}

func (f *Flow) endByPeer(p *Peer) {
	w := f.w
	// what the client sends before it knows could not be read any more
	for _, o := range f.out {
		o.Op.Wait(3 * time.Minute)
	}
	for _, q := range f.peers {
		if q.D.UUID == p.D.UUID {
			q.Hold = false
			q.Release(w.Chance(1, 2))
		}
	}
	id := w.Uniq("end")
	c := p.Text(id)
	fl := uint32(sp.DataMessage_END_SESSION)
	c.DataMessage.Flags = &fl
	s, err := p.Encrypt(id, "end", c)
	if s = f.note(s, err); s == nil {
		return
	}
	w.Count("session_ended_by_peer")
	f.post(s)
	p.reset(time.Now())
	f.ends++
	w.Until(5*time.Minute, func() bool { return s.Handed > 0 || !w.Node.Alive() })
}

func (f *Flow) endByNode(p *Peer) {
	w := f.w
	// not while other calls are running, whose messages would be lost
	for _, o := range f.out {
		o.Op.Wait(3 * time.Minute)
	}
	body := w.Uniq("out")
	o := &outMsg{Body: body, Dest: p.D.UUID}
	f.outBy[body] = o
	f.out = append(f.out, o)
	w.Count("session_ended_by_client")
	f.lostSessions(p.D.UUID, "the session was ended by the client")
	o.Op = w.Node.Call("EndSession", func() (any, error) { return textsecure.EndSession(p.D.UUID, body) })
	o.Op.Wait(5 * time.Minute)
	for _, q := range f.peers {
		if q.D.UUID == p.D.UUID {
			q.Hold = false
			q.Release(false)
			q.reset(o.Op.Start)
		}
	}
	f.lostSessions(p.D.UUID, "the session was ended by the client")
	f.ends++
}

// scenario starts the world of a messaging profile.
func msgWorld(w *World, prop string, maxPeers int) *Flow {
	w.swarm()
	return msgStart(w, prop, maxPeers)
}

func msgStart(w *World, prop string, maxPeers int) *Flow {
	f := newFlow(w, prop)
	if !f.start() {
		return nil
	}
	// registration ids are not authenticated: altered ones make the service
	// call the device stale
	w.Srv.OnStale = func(dest string) {
		if w.Stats["message_corrupted"]+w.Stats["body_damaged"] > 0 {
			f.lostSessions(dest, "the service called the device stale")
		}
	}
	f.addPeers(1 + w.N(maxPeers))
	if w.Chance(1, 4) {
		q := f.peers[0].AddDevice(2)
		f.peers = append(f.peers, q)
		f.serve()
	}
	return f
}

// weights draws a random subset of the steps of m (swarm testing).
func (w *World) weights(m mix) mix {
	for _, x := range []*int{&m.burst, &m.late, &m.dup, &m.mis, &m.out, &m.par, &m.fresh, &m.cross, &m.endIn, &m.endOut, &m.corrupt, &m.forge, &m.brk, &m.restart, &m.kill, &m.noack, &m.pause, &m.hold, &m.junk, &m.evil, &m.deep} {
		if *x > 0 && w.Chance(1, 3) {
			*x = 0
		}
	}
	return m
}

func init() {
	register(&Profile{Prop: "C01",
		Rule:   "A run boots a registered client (encrypted or clear storage), 1-3 peers with one or two devices exchange messages with it while the service repeats, replays, reorders, delays, drops and misroutes envelopes, loses acknowledgements, breaks connections, and the client is killed at random statements and disk operations; every message handed to the application is compared with what its sender encrypted.",
		Faults: "message loss, delay, reordering, repetition, replay, misrouting, lost acks, connection reset/close/silence, kill at random statement/disk operation, slow callbacks",
		Drive: func(w *World) {
			f := msgWorld(w, "C01", 3)
			if f == nil {
				return
			}
			f.outProp = "C02"
			f.lastResort = true
			m := w.weights(mix{in: 6, burst: 4, late: 3, dup: 8, mis: 2, out: 4, par: 1, fresh: 4, cross: 2, endIn: 1, endOut: 1, brk: 2, restart: 1, kill: 2, wait: 5, noack: 2, pause: 1})
			for i, n := 0, 6+w.N(40); i < n; i++ {
				if !f.step(m) {
					return
				}
			}
			f.finish()
		}})
	register(&Profile{Prop: "C02",
		Rule:   "As for C01, without repetitions; peers are an independent implementation of the protocol. Every message a peer encrypted on a session the client holds must be handed over once all is delivered (a kill may cost at most the one message being processed), and every ciphertext accepted by the service must decrypt at the peer to what the application sent.",
		Faults: "message loss, delay, reordering, crossing session starts, new sessions, corrupted copies, misrouting, connection breaks, kills, late delivery to peers",
		Drive: func(w *World) {
			f := msgWorld(w, "C02", 3)
			if f == nil {
				return
			}
			m := w.weights(mix{in: 6, burst: 5, late: 4, dup: 2, mis: 1, out: 6, par: 1, fresh: 4, cross: 4, endIn: 1, endOut: 1, corrupt: 3, brk: 1, restart: 2, kill: 1, wait: 5, noack: 1, hold: 3, deep: 2})
			if f.lastResort = w.Chance(1, 3); f.lastResort {
				m.endIn, m.endOut, m.mis = 0, 0, 0
			}
			for i, n := 0, 6+w.N(40); i < n; i++ {
				if !f.step(m) {
					return
				}
			}
			if f.finish() {
				f.delivered()
				f.outDelivered()
			}
		}})
}
