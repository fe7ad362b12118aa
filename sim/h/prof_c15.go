package h

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"vsim/simrt"

	"github.com/golang/protobuf/proto"
	"github.com/signal-golang/textsecure/crayfish"
	sp "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/registration"
)

// helperCalls makes requests of the helper process and judges their results.
type helperCalls struct {
	f       *Flow
	list    []*helperCall
	faults  int       // faults so far
	lastBad time.Time // of the last one
	stopped time.Time // Stop returned
	sealed  int       // sealed messages queued
}

type helperCall struct {
	kind   string
	op     *Op
	id     string
	others int // sealed messages that were waiting or had come before
	bad    int // faults before
	calm   bool
	judged bool
	sealed []byte
	want   []byte
	ts     int64
	dev    int32
	from   string
	tel    string
}

func (x *helperCalls) fault() { x.faults++; x.lastBad = time.Now() }

func (x *helperCalls) open() (n int) {
	for _, c := range x.list {
		if !c.op.Over() {
			n++
		}
	}
	return n
}

// call starts one request.
func (x *helperCalls) call() *helperCall {
	w := x.f.w
	c := &helperCall{id: w.Uniq("req"), others: len(w.Srv.Queue) - x.sealed, bad: x.faults, calm: w.Calm}
	switch w.Weighted(4, 4, 1) {
	case 0:
		c.kind = "HandleEnvelope"
		c.from = w.newUUID()
		c.want = append([]byte(c.id+" "), w.RandBytes(w.N(300))...)
		c.dev = int32(1 + w.N(5))
		ts := uint64(1000000 + w.N(1000000))
		c.ts = int64(ts)
		typ := sp.Envelope_UNIDENTIFIED_SENDER
		b, err := proto.Marshal(&sp.Envelope{Type: &typ, Timestamp: &ts, Content: Sealed(c.from, byte(c.dev), c.want)})
		must(err)
		c.op = w.Node.Call(c.kind+" "+c.id, func() (any, error) { return crayfish.Instance.HandleEnvelope(b) })
	case 1:
		c.kind = "DecryptAvatar"
		c.want = append([]byte(c.id+" "), w.RandBytes(w.N(300))...)
		key := w.RandBytes(32)
		c.op = w.Node.Call(c.kind+" "+c.id, func() (any, error) { return crayfish.Instance.DecryptAvatar(c.want, key) })
	case 2:
		c.kind = "CrayfishRegisterWithCode"
		c.tel = fmt.Sprintf("+1777%06d", len(x.list))
		inf := &registration.RegistrationInfo{Password: c.id, SignalingKey: w.RandBytes(52)}
		c.op = w.Node.Call(c.kind+" "+c.id, func() (any, error) {
			return crayfish.Instance.CrayfishRegisterWithCode(inf, c.tel, "", "123456")
		})
	}
	x.list = append(x.list, c)
	w.Count("helper_request")
	if x.open() > 1 {
		w.Count("overlapping_requests")
	}
	return c
}

// judge what became of the calls.
func (x *helperCalls) judge(c *helperCall) {
	w := x.f.w
	w.Evals++
	if c.judged || len(w.Viol) > 0 {
		return
	}
	// requests are answered one after the other, each within 45 seconds
	others := c.others + x.sealed
	for _, o := range x.list {
		if o != c && (!o.op.Over() || o.op.End.After(c.op.Start)) && (!c.op.Over() || o.op.Start.Before(c.op.End)) {
			others++
		}
	}
	bound := 60 * time.Second * time.Duration(others+1)
	if !c.op.Over() {
		if time.Since(c.op.Start) > bound {
			c.judged = true
			w.Violate("C15", "request without end", "%s %s, made while %d others were waiting, did not return in %s", c.kind, c.id, others, time.Since(c.op.Start))
		}
		return
	}
	c.judged = true
	if c.op.Killed {
		return
	}
	if d := c.op.End.Sub(c.op.Start); d > bound {
		w.Violate("C15", "request without end", "%s %s, made while %d others were waiting, returned only after %s", c.kind, c.id, others, d)
		return
	}
	if err := c.op.Err; err != nil {
		w.Count("helper_request_failed")
		if x.faults == c.bad && x.stopped.IsZero() && (c.bad == 0 || c.calm) {
			w.Violate("C15", "answer lost", "%s %s, made %s after the last fault, returned %v", c.kind, c.id, c.op.Start.Sub(x.lastBad), err)
		}
		return
	}
	w.Count("helper_request_answered")
	bad := func(what string, got any) {
		w.Violate("C15", "another request's answer", "%s %s was answered with the %s %.80q", c.kind, c.id, what, fmt.Sprint(got))
	}
	switch v := c.op.Val.(type) {
	case *crayfish.CrayfishWebSocketResponse_HANDLE_ENVELOPE_MESSAGE:
		b, err := unb64(v.Message)
		switch {
		case err != nil || !bytes.Equal(b, c.want):
			bad("content", string(b))
		case v.Timestamp != c.ts:
			bad("time", v.Timestamp)
		case v.SenderDevice != c.dev:
			bad("device", v.SenderDevice)
		case v.Sender.UUID != c.from:
			bad("sender", v.Sender.UUID)
		}
	case []byte:
		if !bytes.Equal(v, append([]byte("plain:"), c.want...)) {
			bad("avatar", string(v))
		}
	case *crayfish.CrayfishRegistration:
		a := w.Srv.byTel[c.tel]
		if a == nil || v.UUID != a.UUID || v.Tel != c.tel {
			bad("account", *v)
		}
	}
}

func (x *helperCalls) judgeAll() bool {
	for _, c := range x.list {
		x.judge(c)
	}
	return len(x.f.w.Viol) == 0
}

// drain waits for all calls to end.
func (x *helperCalls) drain() bool {
	w := x.f.w
	w.Until(time.Duration(x.open()+1)*70*time.Second, func() bool { return x.open() == 0 })
	return x.judgeAll()
}

var helperFaults = []string{"drop", "die", "garble", "notype", "noresponse", "badmsg", "reqback", "late"}

func init() {
	register(&Profile{Prop: "C15", Horizon: 12 * time.Hour,
		Rule:   "A started client makes overlapping requests of the helper process (decrypting sealed envelopes and avatars, confirming registrations, each with unique contents; also through sealed messages that arrive from the service), also at once after its start or before. The helper answers at once, late, after the client gave up, wrongly or never; its connection is refused, breaks, falls silent or hangs while being opened; the helper is down for a while. Each call must return within a bounded time what the helper answered to this very request, or an error; without faults, and again after they stop, it must succeed. After Stop no connection may be opened and requests must fail.",
		Faults: "no, late, malformed and empty answers; connections reset, silent, refused, black-holed; helper down and up again; client killed and restarted; scheduling between all statements",
		Drive: func(w *World) {
			w.swarm()
			f := newFlow(w, "C15")
			x := &helperCalls{f: f}
			c := w.Cray
			c.Once = true
			c.Concurrent = w.Chance(1, 2)
			c.StartupDelay = []time.Duration{0, 500 * time.Millisecond, 3 * time.Second, 20 * time.Second}[w.Weighted(2, 4, 2, 1)]
			if c.StartupDelay > 10*time.Second {
				x.fault()
			}
			if w.Chance(1, 2) {
				c.Lat = 0
			}
			fast := w.Chance(1, 3)
			late := map[*CrayReq]bool{}
			on := false
			num, den := 1, []int{2, 5, 20}[w.N(3)]
			c.Fault = func(q *CrayReq) string {
				if !on || !w.Chance(num, den) {
					return ""
				}
				x.fault()
				k := helperFaults[w.N(len(helperFaults))]
				if k == "late" {
					w.Count("crayfish_late")
					late[q] = true
					return ""
				}
				return k
			}
			c.Delay = func(q *CrayReq) time.Duration {
				switch {
				case late[q]:
					x.fault()
					return time.Duration(28+w.N(60)) * time.Second
				case fast:
					return 0
				}
				return []time.Duration{0, 5 * time.Millisecond, 200 * time.Millisecond, 5 * time.Second}[w.Weighted(3, 4, 2, 1)]
			}
			refuse := false
			c.Refuse = func() bool { return refuse }
			dial := ""
			w.Net.DialForce = func(a string) string {
				if strings.HasPrefix(a, "localhost") && dial != "" && on {
					x.fault()
					return dial
				}
				return ""
			}
			// requests may come before anything is up
			op := w.Node.Boot()
			early := w.Chance(1, 3)
			if early {
				w.Count("before_setup")
				w.Sleep(time.Duration(w.N(4)) * time.Second / 2)
				x.fault() // may rightly find nothing
				for i := 0; i <= w.N(4); i++ {
					x.call()
				}
			}
			op.Wait(20 * time.Minute)
			if !op.OK() {
				if len(w.Viol) == 0 && !op.Killed {
					w.Violate("C15", "start fails", "Setup: done %v, error %v", op.Done, op.Err)
				}
				return
			}
			f.addPeers(1)
			w.Node.Listen()
			if !early && c.StartupDelay < 10*time.Second && w.Chance(1, 2) {
				// it waits for the helper to come up
				x.call()
			}
			if !x.drain() {
				return
			}
			var sealed []*Sent
			for i, n := 0, 2+w.N(14); i < n; i++ {
				switch w.Weighted(6, 3, 2, 2, 1, 1, 2, 1) {
				case 0:
					for j := 0; j <= w.N(5); j++ {
						x.call()
						if w.Chance(1, 3) {
							w.Sleep(time.Duration(w.N(400)) * time.Millisecond)
						}
					}
				case 1: // through the service
					id := w.Uniq("in")
					p := f.peers[0]
					cont := p.Text(id)
					b, err := proto.Marshal(cont)
					must(err)
					ts := cont.DataMessage.GetTimestamp()
					s := &Sent{ID: id, Peer: p, TS: ts, At: time.Now(), DM: cont.DataMessage, Sealed: true, Want: true}
					f.byID[id] = s
					if on || x.faults > 0 {
						s.Excuse = "helper faults"
					}
					sealed = append(sealed, s)
					it := w.item(&Env{Type: 6, TS: ts, ServerTS: ts, Content: Sealed(p.D.UUID, 1, b)}, "sealed "+id)
					w.Srv.Enqueue(it)
					w.Count("sealed_message")
					x.sealed++
				case 2:
					on = !on
				case 3:
					w.Sleep(time.Duration(w.N(60000)) * time.Millisecond)
				case 4:
					x.fault()
					w.Count("helper_connection_reset")
					c.BreakConns()
				case 5:
					x.fault()
					w.Count("helper_connection_silent")
					for _, s := range c.conns {
						s.c.Hole()
					}
				case 6: // the helper is down for a while
					x.fault()
					w.Count("helper_down")
					refuse = true
					c.BreakConns()
					if w.Chance(1, 2) {
						x.call()
					}
					w.Sleep(time.Duration(w.N(40)) * time.Second)
					refuse = false
					x.fault()
				case 7:
					x.fault()
					dial = []string{"", "refused", "blackhole"}[w.N(3)]
				}
				if !x.judgeAll() {
					return
				}
				if w.Chance(1, 3) && !x.drain() {
					return
				}
				if w.Chance(1, 25) {
					f.died()
					w.Node.Kill()
					x.fault()
					if !f.start() {
						return
					}
				}
			}
			on, dial = false, ""
			if !x.drain() {
				return
			}
			if !w.Node.Alive() {
				return
			}
			// after the faults
			if x.faults > 0 {
				w.Sleep(3 * time.Minute)
			}
			w.Calm = true
			for i := 0; i <= w.N(4); i++ {
				x.call()
			}
			if !x.drain() {
				return
			}
			w.Settle(10 * time.Minute)
			w.Sleep(5 * time.Second)
			for _, s := range sealed {
				if s.Handed == 0 && s.Excuse == "" && x.faults == 0 {
					w.Violate("C15", "answer lost", "the sealed message %s was not handed over although the helper met no fault", s.ID)
					return
				}
			}
			w.Count("recovered")
			x.stop()
		}})
}

// stop ends the reconnecting.
func (x *helperCalls) stop() {
	w := x.f.w
	c := w.Cray
	busy := w.Chance(1, 2)
	if busy {
		for i := 0; i <= w.N(2); i++ {
			x.call()
		}
		simrt.Yield()
	}
	if w.Chance(1, 2) {
		// while it is connecting again
		if w.Chance(1, 2) {
			c.Lat = 1500 * time.Millisecond
		}
		c.BreakConns()
		if w.Chance(1, 2) {
			c.Refuse = func() bool { return true }
		}
		w.Sleep(time.Duration(w.N(5000)) * time.Millisecond)
	}
	if w.Chance(1, 4) {
		w.Net.DialForce = func(a string) string {
			if strings.HasPrefix(a, "localhost") {
				return "blackhole"
			}
			return ""
		}
	}
	w.Count("helper_stopped")
	x.stopped = time.Now()
	op := w.Node.Call("crayfish Stop", func() (any, error) { return nil, crayfish.Instance.Stop() })
	if !op.Wait(2*time.Minute) && !op.Over() {
		w.Violate("C15", "stop hangs", "Stop did not return in two minutes")
		return
	}
	// a connection being opened may still come up, and is closed
	w.Sleep(40 * time.Second)
	c.Refuse = nil
	if !c.running {
		// as if somebody else had started it again
		c.running, c.parent = true, w.Node.proc
	}
	for _, s := range c.conns {
		if !s.c.dead() && !s.c.rd.fin {
			w.Violate("C15", "connected after stop", "40 seconds after Stop the client is still connected to the helper")
			return
		}
	}
	n := c.Conns
	dials := 0
	w.Calm = false
	w.Net.DialForce = func(a string) string {
		if strings.HasPrefix(a, "localhost") {
			dials++
		}
		return ""
	}
	q := x.call()
	w.Sleep(5 * time.Minute)
	if c.Conns != n || dials > 0 {
		w.Violate("C15", "reconnects after stop", "%d connections to the helper were opened after Stop had returned", max(dials, c.Conns-n))
		return
	}
	if x.drain() && q.op.OK() {
		w.Violate("C15", "another request's answer", "%s succeeded after Stop", q.kind)
	}
}
