package h

import (
	"fmt"
	"time"

	"vsim/simrt"

	textsecure "github.com/signal-golang/textsecure"
)

// swarm draws the knobs of a run.
func (w *World) swarm() {
	w.Net.Lat = []time.Duration{20 * time.Millisecond, 60 * time.Millisecond, 400 * time.Millisecond, 1500 * time.Millisecond}[w.Weighted(3, 3, 2, 1)]
	w.Srv.BigIDs = w.Chance(1, 3)
	w.Srv.EncBody = w.Weighted(3, 1, 1)
	w.UseVariant(w.Chance(1, 3))
	w.preempt(w.Weighted(2, 2, 2, 1))
	w.stalls()
}

// stalls lets some goroutines of the client be interrupted for longer.
func (w *World) stalls() {
	if !w.Chance(1, 4) {
		return
	}
	left, den := 1+w.N(40), []int{1, 5, 40}[w.N(3)]
	w.S.Stall = func() time.Duration {
		if left == 0 || w.Calm || !w.Chance(1, den) {
			return 0
		}
		left--
		w.Count("goroutine_stalled")
		return []time.Duration{time.Millisecond, 20 * time.Millisecond, 300 * time.Millisecond, 3 * time.Second}[w.N(4)]
	}
}

// preempt chooses how often goroutines are interrupted between statements.
func (w *World) preempt(level int) {
	switch level {
	case 1:
		w.S.SetPreemption([]int{200, 1000, 5000}, 20)
	case 2:
		w.S.SetPreemption([]int{10, 50, 200, 800}, 20)
	case 3:
		w.S.SetPreemption([]int{2, 5, 15, 40}, 5)
	}
}

// killRec is one death of the client: what was pushed, but not acknowledged.
type killRec struct {
	inflight map[*Sent]bool
	used     *Sent
}

// outMsg is one message the application asked to send.
type outMsg struct {
	Body    string
	Dest    string
	Op      *Op
	Grp     bool
	End     bool
	sync    bool // the service asked for a transcript
	faults0 int
	changes int // of devices, before
}

// Flow is a messaging workload: peers, the client and a record of everything
// sent either way.
type Flow struct {
	w     *World
	prop  string
	peers []*Peer
	byID  map[string]*Sent // in: body -> message
	out   []*outMsg
	outBy map[string]*outMsg
	kills []*killRec
	late  []*Sent // encrypted, not yet posted
	sent  []*Sent // posted
	// a message is handed over: what the application sees
	OnHand     func(h *Handed, s *Sent)
	OnPeer     func(p *Peer, g *Got)
	OnLost     func(uuid string) // the client's sessions with the account end
	ends       int
	lateMax    int
	pending    int // answers of peers still to come
	restarts   int
	noJudge    bool
	outProp    string
	evilOK     map[string]bool // senders of contents without a body
	lastResort bool            // some session starts use the last-resort prekey
	strict     bool            // the run has no crash: every intact message must arrive
}

func newFlow(w *World, prop string) *Flow {
	f := &Flow{w: w, prop: prop, byID: map[string]*Sent{}, outBy: map[string]*outMsg{}, evilOK: map[string]bool{}, outProp: prop}
	w.crashIs(prop)
	w.Node.OnHanded = f.handed
	return f
}

// boot starts the client; a start that fails without faults is a violation.
func (f *Flow) boot() bool {
	op := f.w.Node.Boot()
	op.Wait(20 * time.Minute)
	if op.Killed {
		return false
	}
	if !op.OK() {
		if f.w.Calm || f.w.Net.Num == 0 && f.w.Disk.ErrNum == 0 {
			f.w.Violate(f.prop, "start fails", "Setup of a registered installation without faults: done %v, error %v", op.Done, op.Err)
		}
		return false
	}
	return true
}

// start boots, retrying after injected kills, and listens.
func (f *Flow) start() bool {
	for i := 0; i < 12; i++ {
		if f.boot() {
			f.w.Node.Listen()
			return true
		}
		if len(f.w.Viol) > 0 {
			return false
		}
	}
	f.w.Violate(f.prop, "start fails", "Setup did not succeed in 12 attempts")
	return false
}

func (f *Flow) addPeers(n int) {
	names := []string{"alice", "bob", "carol", "dave"}
	for i := 0; i < n; i++ {
		p := f.w.NewPeer(names[i])
		f.peers = append(f.peers, p)
	}
	f.serve()
}

func (f *Flow) addPeer(name string) *Peer {
	p := f.w.NewPeer(name)
	f.peers = append(f.peers, p)
	f.serve()
	return p
}

func (f *Flow) serve() {
	w := f.w
	w.Srv.OnPut = func(put *Put, m WireMsg, d *SDev) {
		for _, p := range f.peers {
			if p.SD == d {
				p := p
				g := func() { f.peerGot(p, p.receive(put, m)) }
				if p.Hold {
					p.Held = append(p.Held, g)
				} else {
					g()
				}
				return
			}
		}
	}
}

func (f *Flow) peerGot(p *Peer, g *Got) {
	w := f.w
	w.Evals++
	if f.OnPeer != nil {
		f.OnPeer(p, g)
		return
	}
	f.judgeOut(p, g)
}

// judgeOut: a peer can read what reaches it, and it is what was sent to it.
func (f *Flow) judgeOut(p *Peer, g *Got) {
	w := f.w
	if g.Err != nil {
		if g.Wire.Type == 1 && p.stale() {
			w.Count("excused_stale_session")
			p.unread++
			return
		}
		w.Violate(f.outProp, "peer cannot decrypt", "%s cannot decrypt a message of the client (type %d): %v", p.Name, g.Wire.Type, g.Err)
		return
	}
	if g.C.GetDataMessage() == nil {
		return
	}
	o := f.outBy[g.Body]
	if o == nil {
		w.Violate(f.outProp, "peer gets foreign content", "%s decrypted %q, which the application never sent", p.Name, trunc(g.Body, 60))
		return
	}
	if o.Dest != p.D.UUID && !o.Grp {
		w.Violate(f.outProp, "peer gets another's message", "%s got the message %q for %s", p.Name, g.Body, o.Dest)
	}
	if g.C.GetDataMessage().GetTimestamp() != g.Put.TS {
		w.Violate(f.outProp, "timestamp differs", "message %q has timestamp %d inside and %d outside", g.Body, g.C.GetDataMessage().GetTimestamp(), g.Put.TS)
	}
}

// handed is the oracle of C01, run inside every callback.
func (f *Flow) handed(h *Handed) {
	w := f.w
	w.Evals++
	s := f.byID[h.Body]
	if f.OnHand != nil {
		f.OnHand(h, s)
	}
	if f.noJudge {
		return
	}
	if h.Kind == "message" {
		f.judgeIn(h, s)
	}
	f.was(s, h)
}

// was notes that s was handed over.
func (f *Flow) was(s *Sent, h *Handed) {
	if s != nil {
		s.Handed++
		s.HandedAt = time.Now()
		if h.Flags&textsecure.EndSessionFlag != 0 && s.upTo != nil {
			f.lostUpTo(s.Peer.D.UUID, "the session was ended by the peer", s.upTo)
			for q := range s.upTo {
				q.endAt = time.Now()
			}
		} else if h.Flags&textsecure.EndSessionFlag != 0 {
			// the client deleted its sessions with this account
			f.lostSessions(s.Peer.D.UUID, "the session was ended by the peer")
		}
	}
}

func (f *Flow) judgeIn(h *Handed, s *Sent) {
	w := f.w
	switch {
	case s == nil && h.Body == "" && f.evilOK[h.UUID]:
	case s == nil:
		w.Violate("C01", "foreign content", "the application was handed %q from %s, which nobody sent", trunc(h.Body, 60), h.UUID)
		if f.prop == "C03" {
			w.Violate("C03", "foreign content", "the application was handed %q from %s, which nobody sent", trunc(h.Body, 60), h.UUID)
		}
	case h.UUID != s.Peer.D.UUID || h.Source != "" && h.Source != s.Peer.D.UUID || h.Chat != s.Peer.D.UUID:
		w.Violate("C01", "wrong sender", "%q of %s was handed over as from %q/%q/%q", h.Body, s.Peer.D.UUID, h.UUID, h.Source, h.Chat)
	case h.TS != s.TS:
		w.Violate("C01", "altered", "%q was handed over with timestamp %d instead of %d", h.Body, h.TS, s.TS)
	case s.Handed > 0 && s.Typ == 3 && (s.Info.PreKeyID == 0 || s.Info.PreKeyID == 0xFFFFFF) && (!s.Peer.lostAt.Before(s.HandedAt) || s.Peer.D.LastSession() > 35 || s.rerouted):
		w.Violate("C01", "session start without one-time prekey replayed", "%q, on a session started with the last-resort prekey that the client has deleted since (or has 40 newer ones of, or that came as from another device), was handed over again", h.Body)
	case s.Handed > 0:
		w.Violate("C01", "twice", "%q was handed over twice", h.Body)
	case s.Check != nil:
		if why := s.Check(h); why != "" {
			w.Violate("C01", "altered", "%q was handed over altered: %s", h.Body, why)
		}
	}
}

// lostSessions: the client no longer has sessions with the account, so what
// was encrypted on them is excused.
func (f *Flow) lostSessions(uuid, why string) {
	f.lostUpTo(uuid, why, nil)
}

// lostUpTo: it no longer has those up to the given ones.
func (f *Flow) lostUpTo(uuid, why string, upTo map[*Peer]int) {
	if f.OnLost != nil {
		f.OnLost(uuid)
	}
	for _, p := range f.peers {
		if p.D.UUID != uuid {
			continue
		}
		n, ok := upTo[p]
		if !ok {
			n = p.D.LastSession()
		}
		p.gone = max(p.gone, n)
		// a session the client started in between is deleted, too; what the
		// peer started reaches the client later
		for i := n + 1; i <= p.D.LastSession(); i++ {
			if !p.own[i] {
				p.dead[i] = true
			}
		}
		for _, s := range p.Sent {
			if s.Handed == 0 && s.Excuse == "" && p.lost(s.Info.Session) {
				s.Excuse = why
			}
		}
		p.lostAt = time.Now()
	}
}

// note files a new message of a peer.
func (f *Flow) note(s *Sent, err error) *Sent {
	if err != nil {
		f.w.Count("peer_cannot_send")
		return nil
	}
	f.byID[s.ID] = s
	if s.Peer.lost(s.Info.Session) {
		s.Excuse = "on a session the client deleted"
	}
	return s
}

// in makes a peer encrypt a unique text.
func (f *Flow) in(p *Peer) *Sent {
	id := f.w.Uniq("in")
	s, err := p.Encrypt(id, "text", p.Text(id))
	return f.note(s, err)
}

func (f *Flow) post(s *Sent) *Item {
	if s == nil {
		return nil
	}
	f.sent = append(f.sent, s)
	return s.Post()
}

// send asks the client to send a unique text.
func (f *Flow) send(p *Peer) *outMsg {
	body := f.w.Uniq("out")
	o := &outMsg{Body: body, Dest: p.D.UUID}
	f.outBy[body] = o
	f.out = append(f.out, o)
	o.Op = f.w.Node.Send(o.Dest, body)
	return o
}

// died records what was in flight when the client died.
func (f *Flow) died() {
	k := &killRec{inflight: map[*Sent]bool{}}
	for _, it := range f.w.Srv.Queue {
		if it.Of != nil && len(it.Pushes) > 0 && it.Acked == 0 {
			k.inflight[it.Of] = true
		}
	}
	f.kills = append(f.kills, k)
}

// kill kills the client now, or at the point chosen by how, and restarts it.
func (f *Flow) kill(how int) bool {
	w := f.w
	switch how {
	case 1:
		w.S.KillStep = w.S.Steps + 1 + w.N(3000)
	case 2:
		w.Disk.seen = 0
		w.Disk.KillAt = 1 + w.N(12)
		w.Disk.KillAfter = w.Chance(1, 2)
	}
	if how != 0 {
		w.Until(20*time.Second, func() bool { return !w.Node.Alive() })
		w.S.KillStep, w.Disk.KillAt = 0, 0
	}
	f.died()
	if w.Node.Alive() {
		w.Node.Kill()
	} else {
		w.Count("kill_mid_operation")
	}
	f.restarts++
	w.Sleep(time.Duration(w.N(3)) * time.Second)
	return f.start()
}

// finish stops all faults, lets everything be delivered and judges what the
// application got.
func (f *Flow) finish() bool {
	w := f.w
	w.Calm = true
	w.S.KillStep, w.Disk = 0, DiskPlan{Observe: w.Disk.Observe}
	if w.Node.Alive() {
		// let running calls end
		w.Until(5*time.Minute, func() bool { return len(w.Node.ops) == 0 || !w.Node.Alive() })
	}
	if !w.Node.Alive() && len(w.Viol) == 0 {
		f.died()
		if !f.start() {
			return false
		}
	}
	for _, p := range f.peers {
		p.Hold = false
		p.Release(true)
	}
	f.reAck()
	if !w.Settle(30 * time.Minute) {
		w.Violate(f.prop, "queue not drained", "30 minutes after the last fault %d requests are still not acknowledged (last StartListening error: %v)", len(w.Srv.Queue), w.Node.LastErr)
		return false
	}
	w.Sleep(2 * time.Second)
	return len(w.Viol) == 0
}

// reAck ends the loss of acknowledgements: what was acknowledged in vain is
// delivered again on a new connection.
func (f *Flow) reAck() {
	again := false
	for _, it := range f.w.Srv.Queue {
		it.NoAck = false
		again = again || it.Acked > 0
	}
	if again {
		for _, k := range f.w.Srv.socks {
			if k.up {
				k.Break(f.w.N(2))
			}
		}
	}
}

// delivered judges that every intact message was handed over; after a kill at
// most the one message that was being processed may be missing.
func (f *Flow) delivered() {
	w := f.w
	var missing []*Sent
	for _, s := range f.sent {
		if s.Handed > 0 || !s.Want {
			continue
		}
		if s.Excuse != "" {
			w.Count("excused")
			continue
		}
		if s.chains() > 4 {
			w.Count("excused_old_chain")
			continue
		}
		missing = append(missing, s)
	}
	w.Evals += len(f.sent)
	var assign func(s *Sent, seen map[*killRec]bool) bool
	assign = func(s *Sent, seen map[*killRec]bool) bool {
		for _, k := range f.kills {
			if k.inflight[s] && !seen[k] {
				seen[k] = true
				if k.used == nil || assign(k.used, seen) {
					k.used = s
					return true
				}
			}
		}
		return false
	}
	for _, s := range missing {
		if !assign(s, map[*killRec]bool{}) {
			w.Violate(f.prop, "message lost", "%s of %s (type %d, counter %d, session %d) reached the client intact and was acknowledged, but was never handed over (%d of %d messages arrived, %d kills)",
				s.ID, s.Peer.Name, s.Typ, s.Info.Counter, s.Info.Session, len(f.sent)-len(missing), len(f.sent), len(f.kills))
			return
		}
		w.Count("lost_in_kill")
	}
}

// outDelivered judges that what was reported as sent arrived.
func (f *Flow) outDelivered() {
	w := f.w
	got := map[string]int{}
	for _, p := range f.peers {
		for _, g := range p.Got {
			if g.Err == nil {
				got[p.Name+"/"+g.Body]++
			}
		}
	}
	for _, o := range f.out {
		for _, p := range f.peers {
			if p.D.UUID != o.Dest {
				continue
			}
			n := got[p.Name+"/"+o.Body]
			w.Evals++
			if o.Op.OK() && n == 0 && p.unread > 0 {
				p.unread--
				continue
			}
			if o.Op.OK() && n == 0 {
				w.Violate(f.prop, "reported as sent, not received", "SendMessage(%q) to %s returned success, but the peer did not get it", o.Body, p.Name)
			}
			if n > 1 && w.Stats["http_reply_lost"]+w.Stats["http_reset_after"] == 0 {
				w.Violate(f.prop, "sent twice", "%s got %q %d times", p.Name, o.Body, n)
			}
		}
	}
}

var _ = fmt.Sprint
var _ = simrt.Sleep
