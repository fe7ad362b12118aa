package h

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"
	"time"

	"github.com/nanu-c/zkgroup"
	textsecure "github.com/signal-golang/textsecure"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/crayfish"
	"github.com/signal-golang/textsecure/groupsv2"
	prof "github.com/signal-golang/textsecure/profiles"
	yaml "gopkg.in/yaml.v2"

	"vsim/ref"
)

// stalling drives every part of the interface while services stall.
type stalling struct {
	f     *Flow
	att   *attachments
	x     *groups
	d     *discovery
	v1    []string // old-style groups
	down  map[string]string
	since map[string]time.Time // for how long a service is down
	cray  string
	ws    string
	n     int
}

// apiCall is one kind of call.
type apiCall struct {
	name string
	need []string // services it cannot do without
	once bool     // cannot be made again
	ends string   // the account whose sessions it ends
	f    func() (any, error)
}

type madeCall struct {
	c    *apiCall
	op   *Op
	cost cost
	down map[string]string // during all of the call, so far
}

// cost counts what takes time.
type cost struct{ http, cdn, cray int }

func (x *stalling) cost() (c cost) {
	w := x.f.w
	c.http, c.cdn, c.cray = w.Net.seq, x.n, w.Cray.Procs*0+len(w.Cray.Reqs)
	return c
}

// bound is how long something may take that began at c.
func (x *stalling) bound(c cost, calls int) time.Duration {
	n := x.cost()
	b := 4*time.Minute + 20*time.Second*time.Duration(n.http-c.http) + 130*time.Second*time.Duration(n.cdn-c.cdn) + 50*time.Second*time.Duration(n.cray-c.cray)
	if x.cray != "" {
		b += 50 * time.Second * time.Duration(calls)
	}
	return min(b, 90*time.Minute)
}

// service of a request.
func serviceOf(r *Req) string {
	switch {
	case strings.HasPrefix(r.Host, "cdn"):
		return "cdn"
	case strings.HasPrefix(r.Host, "storage."):
		return "storage"
	case strings.HasPrefix(r.Host, "api.directory"):
		return "directory"
	}
	return "chat"
}

// publish gives an account a profile.
func (w *World) publish(a *Account, key []byte, name string, avatar bool) {
	ver, err := zkgroup.ProfileKeyGetProfileKeyVersion(key, uuidBytes(a.UUID))
	must(err)
	com, err := zkgroup.ProfileKeyGetCommitment(key, uuidBytes(a.UUID))
	must(err)
	seal := func(b []byte) []byte {
		nonce := w.RandBytes(12)
		ct, tag := gcm(key, nonce, nil, b)
		return append(append(nonce, ct...), tag...)
	}
	n := make([]byte, 53)
	copy(n, name)
	a.Prof = &Prof{Version: string(ver[:]), Name: b64(seal(n)), Commitment: com, At: time.Now()}
	if avatar {
		a.Prof.Avatar = "profiles/" + w.Uniq("avatar")
		w.Srv.Blobs[a.Prof.Avatar] = seal(w.RandBytes(1 + w.N(4000)))
	}
}

// calls are those the application may make now.
func (x *stalling) call() *apiCall {
	w, f := x.f.w, x.f
	p := f.peers[w.N(len(f.peers))]
	id := p.D.UUID
	chat, cdn, sto, dir := []string{"chat"}, []string{"chat", "cdn"}, []string{"storage"}, []string{"chat", "directory"}
	body := w.Uniq("out")
	o := &outMsg{Body: body, Dest: id}
	noted := func() { f.outBy[body] = o }
	switch w.N(27) {
	case 0, 1, 2:
		noted()
		return &apiCall{name: "SendMessage", need: chat, f: func() (any, error) { return textsecure.SendMessage(id, body, 0) }}
	case 3, 4:
		noted()
		b := w.attBytes(w.attSize())
		voice := w.Chance(1, 3)
		return &apiCall{name: "SendAttachment", need: cdn, f: func() (any, error) {
			if voice {
				return textsecure.SendVoiceNote(id, body, bytes.NewReader(b), 0)
			}
			return textsecure.SendAttachment(id, body, bytes.NewReader(b), 0)
		}}
	case 5:
		return &apiCall{name: "GetMyUUID", need: chat, f: func() (any, error) {
			u, err := textsecure.GetMyUUID()
			if err == nil && u != w.Node.UUID() {
				return nil, fmt.Errorf("no error, but %q", u)
			}
			return u, err
		}}
	case 6:
		return &apiCall{name: "LinkedDevices", need: chat, f: func() (any, error) { return textsecure.LinkedDevices() }}
	case 7:
		d := &newDev{id: w.newUUID(), key: ref.GenKey(w.Rng)}
		return &apiCall{name: "AddNewLinkedDevice", need: chat, f: func() (any, error) { return nil, textsecure.AddNewLinkedDevice(d.id, d.pub()) }}
	case 8:
		return &apiCall{name: "NewDeviceVerificationCode", need: chat, f: func() (any, error) { return textsecure.NewDeviceVerificationCode() }}
	case 9, 10:
		return &apiCall{name: "GetProfileByUUID", need: chat, f: func() (any, error) { return textsecure.GetProfileByUUID(id) }}
	case 11:
		return &apiCall{name: "GetProfile", need: chat, f: func() (any, error) { return textsecure.GetProfile(id, contacts.GetContact(id).ProfileKey) }}
	case 12:
		return &apiCall{name: "GetProfileAndCredential", need: chat, f: func() (any, error) {
			return textsecure.GetProfileAndCredential(w.Node.UUID(), config.ConfigFile.ProfileKey)
		}}
	case 13:
		return &apiCall{name: "SetAccountCapabilities", need: chat, f: func() (any, error) {
			return nil, textsecure.SetAccountCapabilities(config.AccountCapabilities{Gv2: true})
		}}
	case 14:
		name := w.Uniq("me")
		return &apiCall{name: "UpdateProfile", need: chat, f: func() (any, error) {
			return nil, prof.UpdateProfile(config.ConfigFile.ProfileKey, w.Node.UUID(), name)
		}}
	case 15:
		return &apiCall{name: "GetRegisteredContacts", need: dir, f: func() (any, error) { return textsecure.GetRegisteredContacts() }}
	case 16:
		noted()
		o.End = true
		return &apiCall{name: "EndSession", need: chat, once: true, ends: id, f: func() (any, error) { return textsecure.EndSession(id, body) }}
	case 17, 18:
		if len(x.v1) == 0 {
			return nil
		}
		noted()
		o.Grp = true
		hex := x.v1[w.N(len(x.v1))]
		return &apiCall{name: "SendGroupMessage (old)", need: chat, f: func() (any, error) { return textsecure.SendGroupMessage(hex, body, 0) }}
	case 19:
		if len(x.v1) == 0 {
			return nil
		}
		hex, name := x.v1[w.N(len(x.v1))], w.Uniq("title")
		return &apiCall{name: "UpdateGroup", need: chat, f: func() (any, error) {
			_, err := textsecure.UpdateGroup(hex, name, x.members())
			return nil, err
		}}
	case 20:
		name := w.Uniq("title")
		return &apiCall{name: "NewGroup", need: chat, once: true, f: func() (any, error) {
			g, err := textsecure.NewGroup(name, x.members())
			if err == nil && g != nil {
				x.v1 = append(x.v1, g.Hexid)
			}
			return nil, err
		}}
	case 21, 22:
		g := x.x.gs[w.N(len(x.x.gs))]
		if !g.known {
			return nil
		}
		noted()
		o.Grp = true
		att := w.Chance(1, 4)
		b := w.attBytes(w.attSize())
		return &apiCall{name: "SendGroupMessage", need: chat, f: func() (any, error) {
			if att {
				return textsecure.SendGroupAttachment(g.Hex, body, bytes.NewReader(b), 0)
			}
			return textsecure.SendGroupMessage(g.Hex, body, 0)
		}}
	case 23:
		g := x.x.gs[w.N(len(x.x.gs))]
		if !g.known {
			return nil
		}
		return &apiCall{name: "UpdateGroupFromServer", need: sto, f: func() (any, error) {
			q := groupsv2.FindGroup(g.Hex)
			if q == nil {
				return nil, errors.New("not known")
			}
			return nil, q.UpdateGroupFromServer()
		}}
	case 24:
		g := x.x.gs[w.N(len(x.x.gs))]
		if !g.known {
			return nil
		}
		return &apiCall{name: "GetGroupV2MembersForGroup", f: func() (any, error) { return textsecure.GetGroupV2MembersForGroup(g.Hex) }}
	case 25:
		b, k := w.RandBytes(60), w.RandBytes(32)
		return &apiCall{name: "DecryptAvatar", need: []string{"helper"}, f: func() (any, error) { return crayfish.Instance.DecryptAvatar(b, k) }}
	default:
		return &apiCall{name: "GetRemoteAvatar", need: []string{"cdn"}, f: func() (any, error) {
			r, err := prof.GetRemoteAvatar("/" + w.Srv.acct[id].Prof.Avatar)
			if err != nil {
				return nil, err
			}
			defer r.Close()
			return io.ReadAll(r)
		}}
	}
}

func (x *stalling) members() (l []string) {
	for _, p := range x.f.peers {
		if p.D.ID == 1 {
			l = append(l, p.D.UUID)
		}
	}
	return l
}

// make makes a call.
func (x *stalling) make(c *apiCall) *madeCall {
	w := x.f.w
	w.Count("call_" + strings.ReplaceAll(c.name, " ", "_"))
	m := &madeCall{c: c, cost: x.cost(), down: map[string]string{}}
	for s, how := range x.down {
		m.down[s] = how
	}
	if x.cray != "" {
		m.down["helper"] = x.cray
	}
	m.op = w.Node.Call(c.name, c.f)
	if c.ends != "" {
		x.f.lostSessions(c.ends, "the client ended the sessions")
		w.Go("ended", func() {
			m.op.Wait(2 * time.Hour)
			x.f.lostSessions(c.ends, "the client ended the sessions")
		})
	}
	return m
}

// over waits for a call, not longer than it may take.
func (x *stalling) over(m *madeCall, calls int) bool {
	w := x.f.w
	for !m.op.Over() && len(w.Viol) == 0 {
		left := x.bound(m.cost, calls) - time.Since(m.op.Start)
		if left <= 0 {
			w.Violate("C25", "call never returns", "%s has not returned %v after it was made, with stalled services %s, %d requests of the client later", m.c.name, time.Since(m.op.Start).Round(time.Second), x.shown(m.down), w.Net.seq-m.cost.http)
			return false
		}
		m.op.Wait(min(left, 10*time.Second))
	}
	w.Evals++
	return len(w.Viol) == 0 && !m.op.Killed
}

func (x *stalling) shown(m map[string]string) string {
	var l []string
	for _, k := range sortedKeys(m) {
		l = append(l, k+": "+m[k])
	}
	return strings.Join(l, ", ")
}

// failing are the ways of a service that always make a request fail.
var failing = []string{"lost", "reply_lost", "refused", "reset_before", "status_503", "status_500", "status_413"}

// maybe: the ways that may leave a short answer intact, or fail.
var maybe = []string{"slow", "stall_body", "trickle"}

// stall makes services stall.
func (x *stalling) stall() {
	w := x.f.w
	x.down = map[string]string{}
	x.cray, x.ws = "", ""
	all := []string{"chat", "cdn", "storage", "directory"}
	one := all[w.N(4)]
	only := ""
	switch w.Weighted(3, 2, 2, 1, 2, 2) {
	case 0:
		x.down[one] = failing[w.N(len(failing))]
	case 1:
		x.down[one] = maybe[w.N(len(maybe))]
	case 2:
		how := failing[w.N(len(failing))]
		for _, s := range all {
			x.down[s] = how
		}
		if w.Chance(1, 2) {
			x.cray = []string{"drop", "down"}[w.N(2)]
			x.ws = []string{"silent", "mute", "blackhole", "refused", "trickle"}[w.N(5)]
		}
	case 3: // some requests only
		list := []string{"/v1/profile/", "/v2/keys", "/v1/messages/", "/v1/certificate/", "/attachments/", "/upload/", "/v1/groups", "/attachments/form/upload", "/v1/directory", "PUT /v1/profile/", "PUT /v1/accounts/attributes", "PUT /v1/provisioning", "/provisioning/code"}
		only = list[w.N(len(list))]
		how := append(append([]string{}, failing...), maybe...)
		x.down["only "+only] = how[w.N(len(how))]
	case 4:
		x.cray = []string{"drop", "late", "down", "silent"}[w.N(4)]
	case 5:
		x.ws = []string{"silent", "mute", "blackhole", "refused", "trickle"}[w.N(5)]
	}
	w.Logf("stalled: %s helper %q websocket %q", x.shown(x.down), x.cray, x.ws)
	for _, s := range sortedKeys(x.down) {
		w.Count("stalled_" + strings.Fields(s)[0])
	}
	if x.cray != "" {
		w.Count("stalled_helper")
	}
	w.Net.Force = func(r *Req) string {
		if r.Method == "GET" && strings.HasPrefix(r.Host, "cdn") {
			x.n++
		}
		if only != "" && strings.Contains(r.Method+" "+r.Path, only) {
			return x.down["only "+only]
		}
		return x.down[serviceOf(r)]
	}
	c := w.Cray
	c.Fault = func(q *CrayReq) string {
		if x.cray == "drop" {
			return "drop"
		}
		return ""
	}
	c.Delay = func(q *CrayReq) time.Duration {
		if x.cray == "late" {
			return time.Duration(20+w.N(60)) * time.Second
		}
		return 0
	}
	c.Refuse = func() bool { return x.cray == "down" }
	switch x.cray {
	case "down":
		c.BreakConns()
	case "silent":
		for _, s := range c.conns {
			s.c.Hole()
		}
	}
	if x.ws != "" {
		// (a connection still being set up would come up unharmed)
		for i := 0; i < 600 && !slices.ContainsFunc(w.Srv.socks, func(k *Sock) bool { return k.up }); i++ {
			w.Sleep(time.Second)
		}
		w.Sleep(time.Second)
		w.Count("stalled_websocket")
		w.Net.DialForce = func(a string) string {
			if x.ws == "" || x.ws == "silent" || !strings.HasPrefix(a, "chat.test") {
				return ""
			}
			return x.ws
		}
		for _, k := range w.Srv.socks {
			if k.up && x.ws == "silent" {
				k.Break(2)
			} else if k.up {
				k.Break(w.N(3))
			}
		}
	}
}

// mend ends all that.
func (x *stalling) mend() {
	w := x.f.w
	x.down, x.cray, x.ws = map[string]string{}, "", ""
	w.Net.Force = func(r *Req) string {
		if r.Method == "GET" && strings.HasPrefix(r.Host, "cdn") {
			x.n++
		}
		return ""
	}
	w.Net.DialForce = nil
	w.Logf("mended")
}

// incoming posts something for the client.
func (x *stalling) incoming() *Sent {
	w, f := x.f.w, x.f
	p := f.peers[w.N(len(f.peers))]
	switch w.Weighted(3, 2, 2) {
	case 1:
		s := x.att.receive(p)
		if s != nil {
			s.Check = nil
			s.Excuse = "attachments"
			f.post(s)
		}
		return nil
	case 2:
		g := x.x.gs[w.N(len(x.x.gs))]
		if w.Chance(1, 2) {
			x.x.change(g)
		}
		if s := x.x.say(g, len(g.Vers)-1, w.Chance(1, 3)); s != nil && x.f.w.Net.Force != nil {
			s.Excuse = "the group's state is not available"
		}
		return nil
	}
	s := f.in(p)
	f.post(s)
	return s
}

func init() {
	register(&Profile{Prop: "C25", Horizon: 48 * time.Hour,
		Rule:   "A registered client with contacts, profiles with avatars, groups of both kinds, linked devices and a directory makes 1-6 calls at once of 25 kinds, while messages with attachments and of changed groups arrive. Up to five times, whole services (message service, CDN, storage, directory, helper, websocket) or single kinds of requests stop answering, accept and lose requests, answer endlessly slowly, stall within an answer, refuse or answer errors; the client may be restarted meanwhile. Every call must return within a bound computed from the exchanges made, with an error if a service it cannot do without failed all the time; messages must still be handed over, or StartListening return; after the services work again the same calls must succeed without a restart and everything must arrive.",
		Faults: "lost requests and answers, refused connections, resets, error statuses, answers stalled in the middle, trickling and slow answers, of whole services or of single kinds of requests; helper not answering, answering late, down or silent; websocket silent, connections refused, swallowed, mute or trickling; restart while services stall",
		Drive: func(w *World) {
			w.swarm()
			f := newFlow(w, "C25")
			x := &stalling{f: f, down: map[string]string{}}
			x.att = &attachments{f: f, byKey: map[string]*attIn{}, in: map[*Sent][]*attIn{}, out: map[string]*attOut{}}
			var list []contacts.Contact
			for _, n := range []string{"alice", "bob", "carol"}[:1+w.N(3)] {
				p := w.NewPeer(n)
				f.peers = append(f.peers, p)
				key := w.RandBytes(32)
				w.publish(w.Srv.acct[p.D.UUID], key, n, true)
				c := contacts.Contact{UUID: p.D.UUID, Tel: p.Tel, Name: n}
				if w.Chance(2, 3) {
					c.ProfileKey = key
				}
				list = append(list, c)
			}
			if w.Chance(1, 4) {
				f.peers = append(f.peers, f.peers[0].AddDevice(2))
			}
			b, err := yaml.Marshal(map[string]any{"contacts": list})
			must(err)
			w.FS.Put(contactPath, b)
			w.FS.SyncAll()
			if !f.start() {
				return
			}
			f.serve()
			x.d = &discovery{f: f, d: newDirectory(w.Srv)}
			x.d.d.Reg, x.d.d.Numbers = map[int64]string{}, map[int64]bool{}
			for _, c := range list {
				if n, ok := number(c.Tel); ok {
					x.d.d.Reg[n], x.d.d.Numbers[n] = c.UUID, true
				}
			}
			w.Node.Contacts = list
			x.x = newGroups(f)
			x.x.loose = true
			f.OnPeer = func(*Peer, *Got) {}
			x.mend()
			x.x.add(false)
			op := w.Node.Call("NewGroup", func() (any, error) {
				g, err := textsecure.NewGroup("first", x.members())
				if err == nil {
					x.v1 = append(x.v1, g.Hexid)
				}
				return nil, err
			})
			op.Wait(10 * time.Minute)
			s := x.x.say(x.x.gs[0], 0, false)
			w.Settle(10 * time.Minute)
			w.Sleep(time.Second)
			if len(w.Viol) > 0 || !w.Node.Alive() {
				return
			}
			if s != nil && s.Handed > 0 {
				x.x.gs[0].known = true
			}
			for i := 1 + w.N(5); i > 0 && len(w.Viol) == 0; i-- {
				x.stall()
				var made []*madeCall
				var texts []*Sent
				var costs []cost
				lis := w.Node.listenOps
				from := x.cost()
				t0 := time.Now()
				for j := 1 + w.Weighted(3, 2, 2, 1, 1, 1); j > 0; j-- {
					if w.Chance(1, 2) {
						if s := x.incoming(); s != nil {
							texts, costs = append(texts, s), append(costs, x.cost())
						}
					}
					c := x.call()
					if only := x.only(); only != "" && w.Chance(3, 4) {
						for k := 0; k < 40 && (c == nil || !slices.Contains(needOnly[c.name], only)); k++ {
							c = x.call()
						}
					}
					if c != nil {
						made = append(made, x.make(c))
					}
					switch w.N(3) {
					case 0:
						w.Sleep(time.Duration(w.N(3000)) * time.Millisecond)
					case 1:
						w.Sleep(time.Duration(w.N(30)) * time.Second)
					}
				}
				if w.Chance(1, 5) {
					x.restart()
					if len(w.Viol) > 0 {
						return
					}
					made, texts = nil, nil
					lis = w.Node.listenOps
				}
				for _, m := range made {
					if !x.over(m, len(made)) {
						return
					}
					x.judge(m)
				}
				if x.ws == "" {
					for k, s := range texts {
						for s.Handed == 0 && s.Excuse == "" && w.Node.Alive() && len(w.Viol) == 0 {
							if time.Since(s.At) > x.bound(costs[k], len(texts)) {
								w.Violate("C25", "receive loop stuck", "%v after %s was posted it has not been handed over (stalled: %s, helper %q)", time.Since(s.At).Round(time.Second), s.ID, x.shown(x.down), x.cray)
								return
							}
							w.Sleep(5 * time.Second)
						}
						w.Evals++
						w.Count("handed_meanwhile")
					}
				} else if made != nil {
					for w.Node.listenOps == lis && len(w.Viol) == 0 {
						if time.Since(t0) > x.bound(from, 3)+3*time.Minute {
							w.Violate("C25", "receive loop stuck", "StartListening has not returned %v after the connection went dead (%s)", time.Since(t0).Round(time.Second), x.ws)
							return
						}
						w.Sleep(5 * time.Second)
					}
					w.Evals++
					w.Count("connection_end_reported")
				}
				if !w.Node.Alive() || len(w.Viol) > 0 {
					return
				}
				x.mend()
				// what was stalled comes to its end
				if !w.Until(90*time.Minute, func() bool { return w.Drained() && len(w.Node.ops) == 0 || !w.Node.Alive() }) {
					w.Violate("C25", "no recovery", "90 minutes after all services work again %d messages are not acknowledged and %d calls have not returned (last StartListening error: %v)", len(w.Srv.Queue), len(w.Node.ops), w.Node.LastErr)
					return
				}
				if !w.Node.Alive() {
					return
				}
				w.Sleep(time.Duration(w.N(60)) * time.Second)
				for !x.helperUp() && w.Node.Alive() {
					w.Sleep(5 * time.Second)
				}
				for _, m := range made {
					if m.c.once || w.Chance(1, 4) {
						continue
					}
					n := x.make(m.c)
					if !x.over(n, 1) {
						return
					}
					w.Count("made_again")
					if n.op.Err != nil {
						w.Violate("C25", "no recovery", "%s fails although all services work again: %v (the time before: %v)", m.c.name, n.op.Err, m.op.Err)
						return
					}
				}
			}
			if len(w.Viol) > 0 || !w.Node.Alive() {
				return
			}
			if f.finish() {
				f.delivered()
			}
		}})
}

// helperUp: the client had time to connect to the helper again.
func (x *stalling) helperUp() bool {
	for _, s := range x.f.w.Cray.conns {
		if !s.c.dead() {
			return true
		}
	}
	return false
}

// restart starts the client while services stall.
func (x *stalling) restart() {
	w, f := x.f.w, x.f
	f.died()
	w.Node.Kill()
	w.Count("restart")
	op := w.Node.Boot()
	m := &madeCall{c: &apiCall{name: "Setup"}, op: op, cost: x.cost(), down: x.down}
	if !x.over(m, 1) {
		return
	}
	if op.OK() {
		w.Count("started_meanwhile")
		w.Node.Listen()
		return
	}
	w.Count("start_failed")
	x.mend()
	f.start()
}

// needOnly tells the kinds of requests of which a call needs one to succeed.
var needOnly = map[string][]string{
	"SendMessage":               {"only /v1/messages/"},
	"EndSession":                {"only /v1/messages/"},
	"SendAttachment":            {"only /v1/messages/", "only /attachments/form/upload"},
	"SendGroupMessage":          {"only /v1/messages/"},
	"GetProfile":                {"only /v1/profile/"},
	"GetProfileAndCredential":   {"only /v1/profile/"},
	"GetProfileByUUID":          {"only /v1/profile/"},
	"UpdateProfile":             {"only /v1/profile/", "only PUT /v1/profile/"},
	"SetAccountCapabilities":    {"only PUT /v1/accounts/attributes"},
	"AddNewLinkedDevice":        {"only PUT /v1/provisioning", "only /provisioning/code"},
	"NewDeviceVerificationCode": {"only /provisioning/code"},
	"GetRegisteredContacts":     {"only /v1/directory"},
}

// only: the kind of requests which alone fails.
func (x *stalling) only() string {
	for _, s := range sortedKeys(x.down) {
		if strings.HasPrefix(s, "only ") {
			return s
		}
	}
	return ""
}

// judge what a call returned.
func (x *stalling) judge(m *madeCall) {
	w := x.f.w
	if m.op.Err != nil {
		w.Count("call_failed")
		return
	}
	w.Count("call_ok")
	for _, s := range append(needOnly[m.c.name], m.c.need...) {
		how := m.down[s]
		bad := s == "helper" && (how == "drop" || how == "down")
		for _, k := range failing {
			bad = bad || how == k
		}
		if bad {
			w.Violate("C25", "failure not reported", "%s succeeded although the %s failed all the time (%s)", m.c.name, s, how)
			return
		}
	}
}
