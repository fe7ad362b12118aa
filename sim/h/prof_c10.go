package h

import (
	"time"

	textsecure "github.com/signal-golang/textsecure"
)

// listening drives StartListening and StopListening call by call.
type listening struct {
	f    *Flow
	op   *Op
	base int // goroutines of the client while it does not listen
}

func (l *listening) start() {
	if l.op != nil && !l.op.Over() {
		return
	}
	l.op = l.f.w.Node.Call("StartListening", func() (any, error) { return nil, textsecure.StartListening() })
}

// sock is the connection of the present call.
func (l *listening) sock() *Sock {
	w := l.f.w
	if l.op == nil || l.op.Over() {
		return nil
	}
	for i := len(w.Srv.socks) - 1; i >= 0; i-- {
		if k := w.Srv.socks[i]; k.up && !k.Opened.Before(l.op.Start) {
			return k
		}
	}
	return nil
}

// connected makes sure the client listens; a call that fails without faults,
// or does not connect, is a violation.
func (l *listening) connected() *Sock {
	w := l.f.w
	l.start()
	var k *Sock
	w.Until(time.Minute, func() bool { k = l.sock(); return k != nil || l.op.Over() })
	w.Evals++
	if k == nil {
		w.Violate("C10", "cannot listen", "StartListening without any fault: no connection after %v, returned %v with %v", time.Since(l.op.Start), l.op.Done, l.op.Err)
	}
	return k
}

// returns waits for the listening call; limit counts from now, or from the
// end of the callback that is running.
func (l *listening) returns(limit time.Duration, class, why string) bool {
	w := l.f.w
	from := time.Now()
	for !l.op.Over() {
		if l.busy() {
			from = time.Now()
		}
		if time.Since(from) > limit {
			w.Violate("C10", class, "StartListening has not returned %v after %s", limit, why)
			return false
		}
		w.Sleep(100 * time.Millisecond)
	}
	w.Evals++
	return true
}

// busy: a callback of the application is running.
func (l *listening) busy() bool { return l.f.w.Node.inCallback > 0 }

// stop calls StopListening, perhaps several times at once; each call must
// return at once.
func (l *listening) stop() bool {
	w := l.f.w
	var ops []*Op
	for i := w.Weighted(4, 2, 1, 1); i >= 0; i-- {
		ops = append(ops, w.Node.Call("StopListening", func() (any, error) { return nil, textsecure.StopListening() }))
	}
	for _, o := range ops {
		w.Evals++
		if !o.Wait(10 * time.Second) {
			w.Violate("C10", "stop hangs", "StopListening has not returned after 10 s")
			return false
		}
		if o.Killed {
			return false
		}
	}
	return true
}

// talks: what a peer sends while the client listens is handed over.
func (l *listening) talks() bool {
	w := l.f.w
	if l.connected() == nil {
		return false
	}
	s := l.f.in(l.f.peers[w.N(len(l.f.peers))])
	if s == nil {
		return true
	}
	l.f.post(s)
	w.Evals++
	for from := time.Now(); s.Handed == 0; w.Sleep(100 * time.Millisecond) {
		if l.busy() {
			from = time.Now()
		}
		if time.Since(from) < time.Minute {
			continue
		}
		w.Violate("C10", "deaf", "%s was not handed over within a minute of listening (returned %v with %v)", s.ID, l.op.Done, l.op.Err)
		return false
	}
	return true
}

// workers: nothing keeps running when the client does not listen.
func (l *listening) workers() bool {
	w := l.f.w
	if !l.op.Over() {
		return true
	}
	w.Sleep(3 * time.Minute)
	gs := w.Node.proc.Goroutines()
	w.Evals++
	if len(gs) > l.base {
		w.Violate("C10", "worker left over", "3 minutes after the connection ended %d goroutines are running, before the first there were %d: %v", len(gs), l.base, gs)
		return false
	}
	return true
}

func init() {
	register(&Profile{Prop: "C10",
		Horizon: 24 * time.Hour,
		Rule:    "The application calls StartListening and StopListening in random order and overlap: before the set-up, without a connection, while connecting, during the handshake, in callbacks, several at once, after the connection ended. The service closes connections it hears nothing on for 60 s. An idle or busy connection whose service answers must stay up for up to 40 minutes; after silent death (bytes vanish, pings unanswered, handshake never or endlessly slowly answered, unreachable service) the call must return an error within two minutes; after a stop within 10 s of the running callback; a later call must connect and hand messages over; three minutes after the end no goroutine may be left that was not there before the first call.",
		Faults:  "silent connections, unanswered pings, connection reset/close, refused/black-holed/mute/trickling connection attempts, slow callbacks, slow network",
		Drive: func(w *World) {
			w.swarm()
			w.S.Stall = nil // the bounds are tight
			f := newFlow(w, "C10")
			l := &listening{f: f}
			w.Srv.IdleLimit = 60 * time.Second
			if w.Chance(1, 4) { // before anything else
				w.Count("stop_before_setup")
				w.Node.newProc()
				if !l.stop() {
					return
				}
			}
			if !f.boot() {
				return
			}
			f.addPeers(1 + w.N(2))
			w.Sleep(time.Minute)
			l.base = len(w.Node.proc.Goroutines())
			for i, n := 0, 2+w.N(8); i < n && len(w.Viol) == 0; i++ {
				w.Node.AppPause = []time.Duration{0, 0, 300 * time.Millisecond, 20 * time.Second, 100 * time.Second}[w.N(5)]
				switch w.Weighted(2, 2, 2, 3, 1, 1) {
				case 0: // a long time
					k := l.connected()
					if k == nil {
						return
					}
					w.Count("long_listening")
					for end := time.Now().Add(time.Duration(2+w.N(38)) * time.Minute); time.Now().Before(end); {
						w.Sleep(time.Duration(1+w.N(400)) * time.Second)
						w.Evals++
						if l.op.Over() || !k.up {
							w.Violate("C10", "connection lost", "after %v the connection ended (%s; StartListening returned %v with %v) although the service answers", time.Since(k.Opened), k.EndWhy, l.op.Done, l.op.Err)
							return
						}
						if w.Chance(1, 2) {
							f.post(f.in(f.peers[w.N(len(f.peers))]))
						}
					}
					if !l.talks() {
						return
					}
				case 1: // the connection dies
					k := l.connected()
					if k == nil {
						return
					}
					if w.Chance(1, 2) {
						w.Sleep(time.Duration(w.N(150)) * time.Second)
					}
					if w.Chance(1, 3) {
						f.post(f.in(f.peers[0]))
						w.Sleep(time.Duration(w.N(500)) * time.Millisecond)
					}
					if !k.up {
						continue
					}
					how := w.N(4)
					if how == 3 {
						w.Count("pings_unanswered")
						w.Logf("ws%d: answers no more pings", k.N)
						k.NoPong = true
					} else {
						k.Break(how)
					}
					if !l.returns(2*time.Minute, "dead connection not noticed", "the connection broke") {
						return
					}
					if l.op.Done && l.op.Err == nil {
						w.Violate("C10", "no error", "StartListening returned without an error when the connection broke")
					}
				case 2: // no connection comes about
					if l.op != nil && !l.op.Over() {
						if !l.stop() || !l.returns(10*time.Second, "stop does not stop", "StopListening") {
							return
						}
					}
					kind := []string{"refused", "blackhole", "mute", "reset_handshake", "trickle"}[w.N(5)]
					w.Net.DialForce = func(a string) string {
						if a == "chat.test:80" || a == "chat.test" {
							return kind
						}
						return ""
					}
					l.start()
					if w.Chance(1, 3) {
						w.Sleep(time.Duration(1+w.N(20000)) * time.Millisecond)
						w.Count("stop_while_connecting")
						if !l.stop() || !l.returns(10*time.Second, "stop does not stop", "StopListening while connecting ("+kind+")") {
							return
						}
					} else if !l.returns(2*time.Minute, "connection attempt hangs", "a connection attempt ("+kind+")") {
						return
					} else if l.op.Done && l.op.Err == nil {
						w.Violate("C10", "no error", "StartListening returned without an error when no connection came about (%s)", kind)
					}
					w.Net.DialForce = nil
				case 3: // stopped at any time
					l.start()
					w.Sleep(time.Duration(1+w.N([]int{50, 2000, 100000}[w.N(3)])) * time.Millisecond)
					if w.Chance(1, 2) {
						f.post(f.in(f.peers[0]))
						w.Sleep(time.Duration(w.N(3000)) * time.Millisecond)
						if l.busy() {
							w.Count("stop_in_callback")
						}
					}
					if l.op.Over() {
						continue
					}
					w.Count("stop")
					if !l.stop() || !l.returns(10*time.Second, "stop does not stop", "StopListening") {
						return
					}
				case 4: // stopped while not listening
					if l.op != nil && !l.op.Over() {
						continue
					}
					w.Count("stop_without_listening")
					if !l.stop() {
						return
					}
				case 5:
					if l.op != nil && l.op.Over() && !l.workers() {
						return
					}
				}
				if w.Node.Alive() && w.Chance(1, 2) {
					if !l.talks() {
						return
					}
				}
			}
			if len(w.Viol) > 0 || !w.Node.Alive() || l.op == nil {
				return
			}
			if !l.op.Over() {
				w.Sleep(time.Second)
				if !l.stop() || !l.returns(10*time.Second, "stop does not stop", "StopListening") {
					return
				}
			}
			l.workers()
		}})
}
