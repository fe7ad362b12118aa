package h

import (
	"time"

	textsecure "github.com/signal-golang/textsecure"
	sp "github.com/signal-golang/textsecure/protobuf"
)

// lastSessions tells the newest session of every device of the account.
func (f *Flow) lastSessions(uuid string) map[*Peer]int {
	m := map[*Peer]int{}
	for _, p := range f.peers {
		if p.D.UUID == uuid {
			m[p] = p.D.LastSession()
		}
	}
	return m
}

// endNow sends an END_SESSION from the peer whatever else is going on; the
// peer keeps its old sessions for what the client sent before.
func (f *Flow) endNow(p *Peer) {
	w := f.w
	id := w.Uniq("end")
	c := p.Text(id)
	fl := uint32(sp.DataMessage_END_SESSION)
	c.DataMessage.Flags = &fl
	s, err := p.Encrypt(id, "end", c)
	if s = f.note(s, err); s == nil {
		return
	}
	s.upTo = f.lastSessions(p.D.UUID)
	w.Count("session_ended_by_peer")
	for q := range s.upTo {
		q.D.Archive(w.nodeAddr())
	}
	f.post(s)
}

// endCall makes the application end the session with the peer.
func (f *Flow) endCall(p *Peer) *outMsg {
	w := f.w
	body := w.Uniq("out")
	o := &outMsg{Body: body, Dest: p.D.UUID, End: true}
	f.outBy[body] = o
	f.out = append(f.out, o)
	w.Count("session_ended_by_client")
	o.Op = w.Node.Call("EndSession", func() (any, error) { return textsecure.EndSession(p.D.UUID, body) })
	return o
}

// concurrent makes peers react to the end of a session at once.
func (f *Flow) concurrent(forget bool) {
	w := f.w
	f.OnPeer = func(p *Peer, g *Got) {
		f.judgeOut(p, g)
		dm := g.C.GetDataMessage()
		o := f.outBy[g.Body]
		if g.Err != nil { // on a session the peer forgot: perhaps the end of one
			f.lostUpTo(p.D.UUID, "a message of the client was excused", map[*Peer]int{p: p.D.LastSession()})
		}
		if g.Err == nil && o != nil && g.Wire.Type == 3 && !p.own[g.Info.Session] && !o.Op.Start.After(p.endAt) {
			// started before the client learned of the end of the older ones,
			// and deleted with them
			p.dead[g.Info.Session] = true
		}
		if g.Err != nil || o == nil || dm.GetFlags()&uint32(sp.DataMessage_END_SESSION) == 0 {
			return
		}
		f.lostUpTo(p.D.UUID, "the session was ended by the client", map[*Peer]int{p: p.D.LastSession()})
		if forget {
			p.reset(o.Op.Start)
		} else {
			p.D.Archive(w.nodeAddr())
		}
		if w.Chance(1, 2) { // the user writes again
			w.Count("peer_answers_end_at_once")
			f.pending++
			w.Go("again", func() {
				defer func() { f.pending-- }()
				w.Sleep(time.Duration(w.N(1500)) * time.Millisecond)
				if s := f.in(p); s != nil && len(w.Viol) == 0 {
					f.post(s)
				}
			})
		}
	}
}

func init() {
	register(&Profile{Prop: "C08",
		Rule:   "The application sends to 1-3 peers (one or two devices) and ends sessions in up to 24 overlapping calls, while peers send bursts, start new sessions, end sessions and answer at once; goroutines are interrupted between statements and map accesses take time. Every call must return, without network faults successfully; every ciphertext accepted by the service must decrypt at once (a session ends when its end is delivered) to what one call sent, once; every message a peer sent on a session that was not ended must be handed over once; no crash.",
		Faults: "interruption of goroutines at any statement, overlapping map accesses, slow network, slow callbacks, connection breaks, failing HTTP exchanges",
		Drive: func(w *World) {
			f := msgWorld(w, "C08", 3)
			if f == nil {
				return
			}
			w.preempt(1 + w.N(3))
			faults := w.Chance(1, 4)
			f.concurrent(!faults && w.Chance(1, 2))
			if faults {
				w.Net.Num, w.Net.Den, w.Net.Kinds = 1, 12, noGarble // a damaged one-time prekey could not be noticed
			}
			ends := w.N(3)
			for i, n := 0, 2+w.N(10); i < n; i++ {
				var ops []*outMsg
				k := 1 + w.N([]int{3, 8, 24}[w.N(3)])
				w.Note("round %d: %d calls", i, k)
				for j := 0; j < k; j++ {
					p := f.peers[w.N(len(f.peers))]
					switch w.Weighted(6, 5, ends, ends, 1, 1, 2) {
					case 0:
						ops = append(ops, f.send(p))
					case 1:
						f.post(f.in(p))
					case 2:
						ops = append(ops, f.endCall(p))
					case 3:
						f.endNow(p)
					case 4:
						if p.Fresh(true) == nil {
							f.post(f.in(p))
						}
					case 5:
						for _, s := range w.Srv.socks {
							if s.up && w.Chance(1, 3) {
								s.Break(w.N(2))
								break
							}
						}
					case 6:
						w.Sleep(time.Duration(w.N(600)) * time.Millisecond)
					}
					if len(w.Viol) > 0 {
						return
					}
				}
				if len(ops) > 1 {
					w.Count("overlapping_calls")
				}
				for _, o := range ops {
					o.Op.Wait(10 * time.Minute)
					w.Evals++
					switch {
					case o.Op.Killed: // reported as a crash
						return
					case !o.Op.Done:
						w.Violate("C08", "call never returns", "%s has not returned after 10 minutes, running: %v", o.Op.Name, w.Node.proc.Goroutines())
						return
					case o.Op.Err != nil && !faults:
						w.Violate("C08", "call fails", "%s failed without any fault: %v", o.Op.Name, o.Op.Err)
						return
					}
				}
				if w.Chance(1, 2) {
					w.Settle(5 * time.Minute)
				}
			}
			w.Until(time.Minute, func() bool { return f.pending == 0 })
			if f.finish() {
				f.delivered()
				f.outDelivered()
			}
		}})
}
