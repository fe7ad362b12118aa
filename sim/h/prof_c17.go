package h

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	textsecure "github.com/signal-golang/textsecure"
	"github.com/signal-golang/textsecure/groupsv2"
)

// creds judges what the client presents to the storage service.
type creds struct {
	f    *Flow
	x    *groups
	base time.Duration
	set  []clockSet
}

// clockSet is a change of the client's clock.
type clockSet struct {
	at  time.Time
	off time.Duration
}

func newCreds(f *Flow) *creds {
	c := &creds{f: f, x: newGroups(f)}
	c.set = []clockSet{{vnow(), f.w.Node.Offset}}
	f.w.Srv.OnStorage = c.judge
	return c
}

// clock sets the client's clock.
func (c *creds) clock(off time.Duration) {
	w := c.f.w
	w.Node.Offset = off
	if w.Node.proc != nil {
		w.Node.proc.Offset = off
	}
	c.set = append(c.set, clockSet{vnow(), off})
	w.Logf("clock: the client's clock is off by %v", off)
	w.Count("clock_jump")
}

// days are the days the client's clock showed in the last minutes: the
// presentation is made before the request, and its own fetch may take long.
func (c *creds) days(at time.Time) map[string]bool {
	d := map[string]bool{}
	from := at.Add(-4 * time.Minute)
	for i, s := range c.set {
		end := at
		if i+1 < len(c.set) {
			end = c.set[i+1].at
		}
		if end.Before(from) {
			continue
		}
		start := s.at
		if start.Before(from) {
			start = from
		}
		for k := start.Add(s.off).Unix() / 86400; k <= end.Add(s.off).Unix()/86400; k++ {
			d[fmt.Sprint(k)] = true
		}
	}
	return d
}

func (c *creds) judge(r *Req, day int64, ok bool, why string) {
	w := c.f.w
	w.Evals++
	w.Count("presentation_judged")
	if !ok {
		w.Violate(c.f.prop, "bad presentation", "%s %s at the storage service: %s", r.Method, r.Path, why)
		return
	}
	if d := c.days(vnow()); !d[fmt.Sprint(day)] {
		w.Violate(c.f.prop, "credential of another day", "%s %s presents a credential for day %d, but the client's clock showed %v", r.Method, r.Path, day, sortedKeys(d))
	}
}

// badCreds is an answer of the service to the next requests for credentials.
func (c *creds) badCreds() func(r *Req) *Resp {
	w := c.f.w
	k := w.N(18)
	num := 1 + []int{0, 2, 4, 20}[w.Weighted(3, 2, 1, 2)]
	return func(r *Req) *Resp {
		if !strings.HasPrefix(r.Path, "/v1/certificate/group/") || !r.HasAuth {
			return nil
		}
		if num--; num < 0 {
			return nil
		}
		type cred struct {
			Credential     any `json:"credential"`
			RedemptionTime any `json:"redemptionTime"`
		}
		var a, b int64
		if n, _ := fmt.Sscanf(r.Path, "/v1/certificate/group/%d/%d", &a, &b); n != 2 || b < a || b > a+100 {
			return nil
		}
		issue := func(d int64, uuid string) []byte {
			p, err := w.Srv.zk.auth.IssueAuthCredentialDeterministic(w.RandBytes(32), uuidBytes(uuid), uint32(d))
			must(err)
			return p
		}
		own := w.Node.UUID()
		var l []cred
		for d := a; d <= b; d++ {
			l = append(l, cred{b64(issue(d, own)), d})
		}
		w.Count("bad_credentials")
		each := func(g func(i int, p *cred)) {
			one := w.Chance(1, 2)
			j := w.N(len(l))
			if one && w.Chance(1, 3) { // today's is good
				for i := 1; i < len(l); i++ {
					g(i, &l[i])
				}
				return
			}
			for i := range l {
				if !one || i == j {
					g(i, &l[i])
				}
			}
		}
		switch k {
		case 0, 1, 2:
			return &Resp{Status: []int{401, 429, 500}[k], Body: [][]byte{nil, []byte("{}"), []byte(`{"credentials":[]}`)}[w.N(3)]}
		case 3:
			return jsonResp(map[string]any{})
		case 4:
			return jsonResp(nil)
		case 5:
			l = nil
		case 6: // of another day
			each(func(i int, p *cred) { p.Credential = b64(issue(a+int64(i)+1, own)) })
		case 7: // of another account
			other := w.newUUID()
			each(func(i int, p *cred) { p.Credential = b64(issue(a+int64(i), other)) })
		case 8:
			each(func(i int, p *cred) { p.Credential = "" })
		case 9:
			each(func(i int, p *cred) { p.Credential = b64(w.RandBytes(1 + w.N(400))) })
		case 10:
			each(func(i int, p *cred) {
				q := issue(a+int64(i), own)
				q[1+w.N(len(q)-2)] ^= byte(1 << w.N(8))
				p.Credential = b64(q)
			})
		case 11:
			each(func(i int, p *cred) {
				q := issue(a+int64(i), own)
				p.Credential = b64(q[:w.N(len(q))])
			})
		case 12: // only some days
			j := w.N(len(l))
			if w.Chance(1, 2) {
				l = l[:j]
			} else {
				l = l[j:]
			}
		case 13: // in another order
			for i := len(l) - 1; i > 0; i-- {
				j := w.N(i + 1)
				l[i], l[j] = l[j], l[i]
			}
		case 14:
			each(func(i int, p *cred) { p.RedemptionTime = []any{-1, 0, a - 1, "x", nil, 1.5}[w.N(6)] })
		case 15:
			each(func(i int, p *cred) { p.Credential = nil })
		case 16:
			p, err := json.Marshal(map[string]any{"credentials": l})
			must(err)
			return &Resp{Status: 200, Body: p[:w.N(len(p))]}
		case 17: // under another server's key
			sec := w.otherZK()
			each(func(i int, p *cred) {
				q, err := sec.auth.IssueAuthCredentialDeterministic(w.RandBytes(32), uuidBytes(own), uint32(a+int64(i)))
				must(err)
				p.Credential = b64(q)
			})
		}
		if l == nil {
			l = []cred{}
		}
		return jsonResp(map[string]any{"credentials": l})
	}
}

// update asks for the state of a group, and judges the result.
func (c *creds) update(g *GState, clean bool) {
	w, prop := c.f.w, c.f.prop
	if clean || w.Chance(1, 2) {
		g.Change(func(n *GVer) { n.Title = w.Uniq("title") })
	}
	rev := int(g.Now().Rev)
	how := w.N(3)
	if how == 2 && !g.Now().invited(c.x.own) {
		how = w.N(2)
	}
	what := []string{"UpdateGroupFromServer", "GetGroupV2MembersForGroup", "JoinGroup"}[how]
	op := w.Node.Call(what, func() (any, error) {
		switch how {
		case 0:
			q := groupsv2.FindGroup(g.Hex)
			if q == nil {
				return nil, fmt.Errorf("not known")
			}
			err := q.UpdateGroupFromServer()
			return snapOf(q), err
		case 1:
			_, err := textsecure.GetGroupV2MembersForGroup(g.Hex)
			return snapOf(groupsv2.FindGroup(g.Hex)), err
		}
		q, err := textsecure.JoinGroup(g.Hex)
		return snapOf(q), err
	})
	judge := func() {
		op.Wait(10 * time.Minute)
		w.Evals++
		switch {
		case op.Killed:
		case !op.Done:
			w.Violate(prop, "hangs", "%s has not returned after 10 minutes", what)
		case op.Err != nil && clean:
			w.Violate(prop, "fails without faults", "%s fails although the service answers properly: %v", what, op.Err)
		case op.Err != nil:
			w.Count("update_failed")
		default:
			s := op.Val.(*gsnap)
			switch {
			case how == 1 && !clean: // answers what it knows
			case s.nil || int(s.rev) < rev:
				w.Violate(prop, "failure not reported", "%s returned success, but the client knows revision %d of the group, and the service has revision %d (without faults: %v)", what, s.rev, rev, clean)
			case clean:
				w.Count("clean_update")
			default:
				w.Count("update_ok")
			}
		}
	}
	if clean || w.Chance(2, 3) {
		judge()
	} else {
		w.Go("judge", judge)
	}
}

// quiet waits until nothing is going on.
func (c *creds) quiet() bool {
	w := c.f.w
	if !w.Until(10*time.Minute, func() bool { return len(w.Node.ops) == 0 || !w.Node.Alive() }) {
		return false
	}
	return !w.Node.Alive() || !w.Node.Listening || w.Settle(10*time.Minute)
}

func init() {
	register(&Profile{Prop: "C17", Horizon: 400 * 24 * time.Hour,
		Rule:   "A client with one or two groups runs for hours to weeks (listening or not) and asks for group state, accepts invitations and takes group messages at random times, close to midnight, right after the credentials it holds ended, and several at once; its clock is set forwards and backwards by seconds to months, also between the fetch of credentials and their use. The storage service verifies every presentation with the real zkgroup server parameters: it must verify, be of this account and of a day the client's clock showed within the last four minutes. Credential answers are wrong in 18 ways (error statuses, missing, reordered or mislabelled days, other accounts', cut, flipped, empty or foreign credentials, also of one later day only) or fail in 13 ways; an update that returns success must have brought the state the service had; and whenever nothing is disturbed and the clock is right to within 12 hours, it must succeed, without a restart.",
		Faults: "clock jumps and skew, wrong credential answers, HTTP faults of 16 kinds on credential and storage requests, slow answers, long idle times, restarts and kills",
		Drive: func(w *World) {
			w.Net.Lat = []time.Duration{20 * time.Millisecond, 400 * time.Millisecond}[w.N(2)]
			w.preempt(w.Weighted(4, 1))
			w.UseVariant(w.Chance(1, 3))
			w.Srv.StrictAuth = true
			f := newFlow(w, "C17")
			if !f.start() {
				return
			}
			f.addPeers(1 + w.N(2))
			c := newCreds(f)
			x := c.x
			for i := 1 + w.N(2); i > 0; i-- {
				x.add(w.Chance(1, 4))
			}
			for _, g := range x.gs {
				x.say(g, 0, false)
			}
			if !w.Settle(10 * time.Minute) {
				w.Violate(f.prop, "queue not drained", "group messages are not taken without faults")
				return
			}
			w.Sleep(2 * time.Second)
			idle := w.Chance(7, 8)
			if idle {
				w.Node.wantStop = true
				op := w.Node.Call("StopListening", func() (any, error) { return nil, textsecure.StopListening() })
				op.Wait(time.Minute)
				w.Until(time.Minute, func() bool { return !w.Node.Listening })
			}
			jumps := w.Chance(1, 2)
			noisy := w.Chance(3, 4)
			var kinds []string
			for _, k := range append([]string{"status_401", "status_403", "status_404"}, allHTTPFaults...) {
				if k != "cut" {
					kinds = append(kinds, k)
				}
			}
			plan := func() {
				if w.Srv.Hook != nil && w.Chance(1, 2) {
					return // as before
				}
				w.Net.Num, w.Srv.Hook = 0, nil
				w.Net.Kinds, w.Net.Garble = kinds, x.garbleGroup
				if !noisy {
					return
				}
				switch w.Weighted(2, 4, 2) {
				case 1:
					w.Srv.Hook = c.badCreds()
				case 2:
					w.Net.Num, w.Net.Den = 1, 1+w.N(3)
					creds := w.Chance(1, 2)
					w.Net.Match = func(r *Req) bool {
						return isStorage(r) && (!creds || strings.HasPrefix(r.Path, "/v1/certificate/"))
					}
				}
			}
			for i, n := 0, 4+w.N(14); i < n && len(w.Viol) == 0; i++ {
				g := x.gs[w.N(len(x.gs))]
				switch w.Weighted(4, 3, 2, 5, 4, 2, 1, 3) {
				case 0: // days pass
					d := time.Duration(1+w.N(30)) * time.Hour
					if idle && w.Chance(1, 4) {
						d = time.Duration(1+w.N(12)) * 24 * time.Hour
					}
					w.Sleep(d)
					w.Count("days_passed")
				case 1: // until close to midnight on the client's clock, perhaps some days later
					t := w.clock().Unix()
					d := 86400 - t%86400 - int64(w.N(30)) + int64(w.N(10))
					if d < 0 {
						d += 86400
					}
					d += 86400 * int64(w.Weighted(3, 1, 1))
					w.Sleep(time.Duration(d)*time.Second - time.Duration(w.N(1000))*time.Millisecond)
					w.Count("midnight")
				case 2:
					if !jumps {
						continue
					}
					day := 24 * time.Hour
					c.clock([]time.Duration{0, time.Second, -time.Second, time.Hour, -time.Hour, 12 * time.Hour, -12 * time.Hour, day, -day, 2 * day, -2 * day, 7 * day, -7 * day, 8 * day, -8 * day, 60 * day, -60 * day}[w.N(17)])
				case 3:
					plan()
					c.update(g, false)
				case 4:
					if !c.quiet() || !w.Node.Alive() {
						break
					}
					w.Net.Num, w.Srv.Hook = 0, nil
					if o := w.Node.Offset; o < -12*time.Hour || o > 12*time.Hour {
						c.clock(0)
					}
					c.update(g, true)
				case 5: // several at once
					plan()
					for j := 2 + w.N(3); j > 0; j-- {
						c.update(x.gs[w.N(len(x.gs))], false)
						if jumps && w.Chance(1, 4) {
							c.clock(w.Node.Offset + time.Duration(1+w.N(3))*12*time.Hour)
						}
					}
				case 6:
					if idle {
						break
					}
					plan()
					x.say(g, len(g.Vers)-1, w.Chance(1, 3))
				case 7:
					if w.Chance(1, 2) {
						c.quiet()
						w.Sleep(2 * time.Second)
					}
					w.Net.Num, w.Srv.Hook = 0, nil
					f.died()
					w.Node.Kill()
					w.Count("restart")
					c.set = append(c.set, clockSet{vnow(), w.Node.Offset})
					if !f.boot() {
						return
					}
					if !idle {
						w.Node.Listen()
					}
					if w.Chance(2, 3) { // nothing is cached now
						plan()
						c.update(g, false)
					}
				}
			}
			if len(w.Viol) > 0 || !w.Node.Alive() || !c.quiet() || !w.Node.Alive() {
				return
			}
			w.Net.Num, w.Srv.Hook = 0, nil
			if w.Node.Offset != 0 {
				c.clock(0)
			}
			for _, g := range x.gs {
				c.update(g, true)
			}
		}})
}
