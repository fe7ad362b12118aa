package h

import (
	"fmt"
	"strings"
	"time"

	"github.com/golang/protobuf/proto"
	textsecure "github.com/signal-golang/textsecure"
	"github.com/signal-golang/textsecure/groupsv2"
	sp "github.com/signal-golang/textsecure/protobuf"
)

// gsend is one group message the application asked to send.
type gsend struct {
	g      *GState
	op     *Op
	body   string
	from   int // the least state the client may use
	judged bool
	got    map[*Peer][]*Got
}

// GState follows what the client knows of a group.
type GState struct {
	*SGroup
	told  bool // the client was told of the group by a message
	known bool // ... and must still know it after a restart
	low   int  // it knows this state or a later one
	quiet int  // ... which was stored before the last quiet moment
}

// groups is the workload of the group profiles.
type groups struct {
	f     *Flow
	gs    []*GState
	sends []*gsend
	by    map[string]*gsend
	own   string
	loose bool // the disk fails in this run: what is stored is not known
}

func newGroups(f *Flow) *groups {
	x := &groups{f: f, by: map[string]*gsend{}, own: f.w.Node.UUID()}
	f.OnPeer = func(p *Peer, g *Got) {
		if p.Own {
			return
		}
		f.judgeOut(p, g)
		if s := x.by[g.Body]; s != nil && g.Err == nil {
			s.got[p] = append(s.got[p], g)
			x.judgeCopy(s, p, g)
		}
	}
	f.OnHand = func(h *Handed, s *Sent) {
		if s == nil || h.Kind != "message" {
			return
		}
		want := hexOf(s.DM.GetGroupV2().GetMasterKey())
		if h.Group != want {
			f.w.Violate(f.prop, "wrong group", "%s for the group %q was handed over with the group %q", s.ID, want, h.Group)
		}
		for _, g := range x.gs {
			if g.Hex == want {
				g.told = true
				g.known = g.known || !x.loose
			}
		}
	}
	return x
}

func hexOf(b []byte) string { return fmt.Sprintf("%x", b) }

// add creates a group of the client and some peers.
func (x *groups) add(invited bool) *GState {
	w := x.f.w
	us := []string{x.f.peers[0].D.UUID}
	for _, p := range x.f.peers {
		if p.D.ID == 1 && p.D.UUID != us[0] && w.Chance(2, 3) {
			us = append(us, p.D.UUID)
		}
	}
	if !invited {
		us = append(us, x.own)
	}
	for i := len(us) - 1; i > 1; i-- { // a member other than the client is the administrator
		j := 1 + w.N(i)
		us[i], us[j] = us[j], us[i]
	}
	g := &GState{SGroup: w.Srv.NewGroup(w.Uniq("title"), us...), low: -1, quiet: -1}
	if invited {
		m := g.member(x.own)
		m.Role = sp.Member_DEFAULT
		g.Now().Pending = append(g.Now().Pending, m)
	}
	x.gs = append(x.gs, g)
	return g
}

// change alters a group at the service.
func (x *groups) change(g *GState) {
	w := x.f.w
	p := x.f.peers[w.N(len(x.f.peers))]
	v := g.Now()
	switch {
	case w.Chance(1, 4):
		g.Change(func(n *GVer) { n.Title = w.Uniq("title") })
	case !v.has(p.D.UUID):
		g.Change(func(n *GVer) {
			m := g.member(p.D.UUID)
			m.Joined, m.Role = n.Rev, sp.Member_DEFAULT
			n.Members = append(n.Members, m)
		})
	case v.Members[0].UUID != p.D.UUID:
		g.Change(func(n *GVer) {
			i := find(n.Members, p.D.UUID)
			n.Members = append(n.Members[:i:i], n.Members[i+1:]...)
		})
	default:
		g.Change(func(n *GVer) {
			i := w.N(len(n.Members))
			n.Members[i].Role = 3 - n.Members[i].Role
		})
	}
	w.Count("group_changed")
}

// say makes a member send a group message.
func (x *groups) say(g *GState, rev int, change bool) *Sent {
	w := x.f.w
	var ps []*Peer
	for _, p := range x.f.peers {
		if g.Vers[rev].has(p.D.UUID) && !p.Own {
			ps = append(ps, p)
		}
	}
	p := ps[w.N(len(ps))]
	id := w.Uniq("in")
	c := p.Text(id)
	r := uint32(rev)
	c.DataMessage.GroupV2 = &sp.GroupContextV2{MasterKey: g.Key, Revision: &r}
	if change && rev > 0 {
		c.DataMessage.GroupV2.GroupChange = g.Actions(rev)
		w.Count("group_change_message")
	}
	s, err := p.Encrypt(id, "group", c)
	if s = x.f.note(s, err); s != nil {
		x.f.post(s)
	}
	return s
}

// gsnap is what the client knows of a group.
type gsnap struct {
	found   bool
	key     string
	hex     string
	rev     uint32
	title   string
	members []GMember
	nil     bool
	status  int
	raw     *sp.Group // the encrypted state
}

func gmembers(ms []*sp.DecryptedMember) []GMember {
	var r []GMember
	for _, m := range ms {
		id := m.Uuid
		if len(id) != 16 {
			id = make([]byte, 16)
		}
		r = append(r, GMember{UUID: uuidOf(id), Role: m.Role, Key: m.ProfileKey})
	}
	return r
}

func snapOf(g *groupsv2.GroupV2) *gsnap {
	if g == nil {
		return &gsnap{}
	}
	s := &gsnap{found: true, key: hexOf(g.MasterKey), hex: g.Hexid, nil: g.DecryptedGroup == nil, status: g.JoinStatus}
	if d := g.DecryptedGroup; d != nil {
		s.rev, s.title, s.members = d.Revision, d.Title, gmembers(d.Members)
		c := &g.GroupContext
		s.raw = &sp.Group{Title: c.Title, Revision: c.Revision, PublicKey: c.PublicKey, Members: c.Members}
	}
	return s
}

func show(ms []GMember) string {
	var s []string
	for _, m := range ms {
		s = append(s, fmt.Sprintf("%s/%d/%x", short(m.UUID), m.Role, m.Key[:min(len(m.Key), 3)]))
	}
	return strings.Join(s, " ")
}

// look asks the client what it knows of a group, and judges it.
func (x *groups) look(g *GState) *gsnap {
	w, prop := x.f.w, x.f.prop
	low, known := g.low, g.known
	op := w.Node.Call("FindGroup", func() (any, error) { return snapOf(groupsv2.FindGroup(g.Hex)), nil })
	op.Wait(time.Minute)
	if !op.OK() {
		return nil
	}
	w.Evals++
	s := op.Val.(*gsnap)
	switch {
	case !s.found && known && w.Disk.ErrNum > 0 && !w.Calm: // it cannot be read now
	case !s.found && known:
		w.Violate(prop, "group lost", "the group %s of earlier messages is not known any more", g.Hex[:8])
	case !s.found:
		return s
	case s.key != g.Hex || s.hex != g.Hex:
		w.Violate(prop, "group garbled", "the group %s has the master key %s and the id %s", g.Hex[:8], s.key, s.hex)
	case s.nil && low >= 0:
		w.Violate(prop, "members lost", "the members of the group %s are not known any more", g.Hex[:8])
	case s.nil:
	default:
		x.judgeState(g, s.rev, s.title, s.members, low)
		v := g.version(s.rev, s.members)
		if v == nil || v.raw == nil || len(w.Viol) > 0 {
			break
		}
		if want := (&sp.Group{Title: v.raw.Title, Revision: v.raw.Revision, PublicKey: v.raw.PublicKey, Members: v.raw.Members}); !proto.Equal(want, s.raw) {
			w.Violate(prop, "group garbled", "the encrypted state of the group %s is not what the service answered for revision %d", g.Hex[:8], s.rev)
		}
	}
	return s
}

func (x *groups) judgeState(g *GState, rev uint32, title string, ms []GMember, low int) {
	w, prop := x.f.w, x.f.prop
	v := g.version(rev, ms)
	switch {
	case v == nil || g.Served[v] == 0 || !strings.Contains(title, v.Title):
		w.Violate(prop, "group garbled", "the client takes %q with revision %d and members %s for the state of the group %s, which the service never answered", title, rev, show(ms), g.Hex[:8])
	case int(v.Rev) < low:
		w.Violate(prop, "group state went back", "the client knows revision %d of the group %s, after it knew revision %d", v.Rev, g.Hex[:8], low)
	default:
		g.low = max(g.low, int(v.Rev))
	}
}

// members asks for the members of a group.
func (x *groups) members(g *GState) *Op {
	w := x.f.w
	low := g.low
	op := w.Node.Call("GetGroupV2MembersForGroup", func() (any, error) {
		ms, err := textsecure.GetGroupV2MembersForGroup(g.Hex)
		return gmembers(ms), err
	})
	w.Go("members", func() {
		op.Wait(time.Hour)
		if !op.Done || len(w.Viol) > 0 {
			return
		}
		w.Evals++
		if op.Err != nil {
			if low >= 0 && !x.loose {
				w.Violate(x.f.prop, "members not answered", "GetGroupV2MembersForGroup fails for a group whose members are known: %v", op.Err)
			}
			return
		}
		ms := op.Val.([]GMember)
		for i := len(g.Vers) - 1; i >= 0; i-- {
			v := g.Vers[i]
			if g.Served[v] > 0 && g.version(v.Rev, ms) != nil {
				if i < low {
					w.Violate(x.f.prop, "group state went back", "GetGroupV2MembersForGroup answered members last valid in revision %d, after revision %d was known", i, low)
				}
				return
			}
		}
		w.Violate(x.f.prop, "group garbled", "GetGroupV2MembersForGroup answered %s, which the group %s never had", show(ms), g.Hex[:8])
	})
	return op
}

// send asks the client to send a group message.
func (x *groups) send(g *GState) *gsend {
	f := x.f
	body := f.w.Uniq("grp")
	o := &outMsg{Body: body, Grp: true}
	f.outBy[body] = o
	s := &gsend{g: g, body: body, from: g.low, got: map[*Peer][]*Got{}}
	x.by[body] = s
	x.sends = append(x.sends, s)
	s.op = f.w.Node.Call("SendGroupMessage", func() (any, error) { return textsecure.SendGroupMessage(g.Hex, body, 0) })
	o.Op = s.op
	return s
}

// judgeCopy judges one copy of a group message.
func (x *groups) judgeCopy(s *gsend, p *Peer, g *Got) {
	w, prop := x.f.w, x.f.prop
	dm := g.C.GetDataMessage()
	if hexOf(dm.GetGroupV2().GetMasterKey()) != s.g.Hex {
		w.Violate(prop, "wrong group context", "%s got the group message %s with another group's key", p.Name, s.body)
	}
	if len(s.got[p]) > 1 {
		w.Violate(prop, "group message twice", "%s got the group message %s twice", p.Name, s.body)
	}
	for _, q := range x.f.peers {
		for _, o := range s.got[q] {
			d := o.C.GetDataMessage()
			if d.GetTimestamp() != dm.GetTimestamp() || o.Put.TS != g.Put.TS {
				w.Violate(prop, "timestamps differ", "the copies of the group message %s have the timestamps %d and %d", s.body, d.GetTimestamp(), dm.GetTimestamp())
			}
			if !proto.Equal(d.GetGroupV2(), dm.GetGroupV2()) {
				w.Violate(prop, "wrong group context", "the copies of the group message %s have different group contexts", s.body)
			}
		}
	}
	r := int(dm.GetGroupV2().GetRevision())
	if r >= len(s.g.Vers) || s.g.Served[s.g.Vers[r]] == 0 || !s.g.Vers[r].has(p.D.UUID) {
		w.Violate(prop, "sent to a stranger", "%s got the group message %s with revision %d, but is no member in it", p.Name, s.body, r)
	}
}

// judgeSends judges the group messages whose sending is over.
func (x *groups) judgeSends() {
	w, prop := x.f.w, x.f.prop
	for _, s := range x.sends {
		if s.judged || !s.op.Over() {
			continue
		}
		s.judged = true
		w.Evals++
		if !s.op.OK() {
			w.Count("group_send_failed")
			continue
		}
		w.Count("group_send_ok")
		var v *GVer
		for _, p := range x.f.peers {
			for _, g := range s.got[p] {
				v = s.g.Vers[g.C.GetDataMessage().GetGroupV2().GetRevision()]
				if ts := s.op.Val.(uint64); ts != g.Put.TS {
					w.Violate(prop, "timestamps differ", "SendGroupMessage returned the timestamp %d, but %d was sent", ts, g.Put.TS)
					return
				}
			}
		}
		if v == nil {
			w.Violate(prop, "reported, but not sent", "SendGroupMessage returned success for %s, but no member got it", s.body)
			return
		}
		if int(v.Rev) < s.from {
			w.Violate(prop, "group state went back", "a group message was sent with revision %d, after revision %d was known", v.Rev, s.from)
			return
		}
		for _, p := range x.f.peers {
			if v.has(p.D.UUID) && !p.Own && len(s.got[p]) != 1 {
				w.Violate(prop, "member left out", "SendGroupMessage returned success for %s, but %s, a member in revision %d, got it %d times", s.body, p.Name, v.Rev, len(s.got[p]))
				return
			}
		}
	}
}

// over waits until all calls are over.
func (x *groups) over(d time.Duration) {
	for _, s := range x.sends {
		s.op.Wait(d)
	}
	x.judgeSends()
}

// rest waits until nothing is going on: what is known then must be stored.
func (x *groups) rest() {
	w := x.f.w
	x.over(10 * time.Minute)
	w.Until(10*time.Minute, func() bool { return len(w.Node.ops) == 0 || !w.Node.Alive() })
	if !w.Settle(10*time.Minute) || !w.Node.Alive() {
		return
	}
	w.Sleep(2 * time.Second)
	for _, g := range x.gs {
		x.look(g)
		if !x.loose {
			g.quiet = g.low
		}
	}
}

// crashed: only what was stored is known for certain.
func (x *groups) crashed() {
	for _, g := range x.gs {
		g.low = g.quiet
	}
}

// garbleGroup damages an answer of the storage service so that it shows.
func (x *groups) garbleGroup(r *Req, b []byte) []byte {
	w := x.f.w
	if !strings.HasPrefix(r.Host, "storage.") || r.Method != "GET" || len(b) == 0 {
		return w.garble(b)
	}
	g := &sp.Group{}
	if proto.Unmarshal(b, g) != nil {
		return b
	}
	flip := func(p []byte) []byte {
		p = append([]byte{}, p...)
		// the first and the last byte are reserved, and not looked at
		p[1+w.N(len(p)-2)] ^= byte(1 << w.N(8))
		return p
	}
	m := g.Members[w.N(len(g.Members))]
	switch w.N(8) {
	case 0:
		return []byte("<html><head><title>502 Bad Gateway</title></head></html>")
	case 1:
		return w.RandBytes(len(b))
	case 2:
		g.Title = flip(g.Title)
	case 3:
		m.UserId = flip(m.UserId)
	case 4:
		m.ProfileKey = flip(m.ProfileKey)
	case 5:
		g.Title = g.Title[:w.N(len(g.Title))]
	case 6:
		m.UserId = m.UserId[:w.N(len(m.UserId))]
	case 7: // of another group
		o := x.gs[w.N(len(x.gs))]
		if string(o.public) == string(g.PublicKey) {
			m.ProfileKey = nil
			break
		}
		g = o.proto(o.Now())
	}
	b, err := proto.Marshal(g)
	must(err)
	return b
}

func isStorage(r *Req) bool {
	return strings.HasPrefix(r.Host, "storage.") || strings.HasPrefix(r.Path, "/v1/certificate/group/")
}

func init() {
	register(&Profile{Prop: "C16", Horizon: 24 * time.Hour,
		Rule:   "One to three groups of the client and up to three accounts live in a model of the storage service that verifies real zkgroup presentations and encrypts states with the groups' keys. Members join and leave, titles change, members send messages with current, old or not yet fetched revisions and signed changes; the application asks for members, sends group messages (also several at once), accepts invitations; the client is restarted and killed. What the client knows of a group must always be a state the service answered, never older than one known before, and be there after restarts; group messages must be handed over with their group; every copy of a sent message must have the same timestamp and context, and a reported success means one copy for each member of the revision in the context.",
		Faults: "storage and credential requests fail in 16 ways or answer slowly (so that answers overtake each other), garbled members, titles and profile keys, other groups' answers, failing message submissions, disk errors, kills at random statements and disk operations, broken connections",
		Drive: func(w *World) {
			f := msgWorld(w, "C16", 3)
			if f == nil {
				return
			}
			x := newGroups(f)
			for i := 1 + w.Weighted(3, 2, 1); i > 0; i-- {
				x.add(w.Chance(1, 5))
			}
			if w.Chance(1, 3) {
				w.Srv.NeedsSync = true
			}
			var kinds []string
			for _, k := range append([]string{"status_401", "status_403", "status_404"}, allHTTPFaults...) {
				if k != "cut" && k != "lost" && k != "reply_lost" && k != "stall_body" || k != "cut" && w.Chance(1, 3) {
					kinds = append(kinds, k)
				}
			}
			w.Net.Kinds, w.Net.Garble = kinds, x.garbleGroup
			puts := w.Chance(1, 3)
			w.Net.Match = func(r *Req) bool {
				return isStorage(r) || puts && r.Method == "PUT" && strings.HasPrefix(r.Path, "/v1/messages/")
			}
			disk := w.Chance(1, 6)
			slow := w.Chance(1, 3)
			if slow {
				w.Net.Force = func(r *Req) string {
					if isStorage(r) && w.Chance(1, 2) {
						return "slow"
					}
					return ""
				}
			}
			if w.Chance(2, 3) {
				w.Net.Num, w.Net.Den = 1, 1+w.N(4)
			}
			ms := []int{4, 3, 3, 2, 5, 2, 3, 3, 2, 2, 2, 2}
			race := slow && w.Chance(1, 2)
			if race {
				w.Net.Num = 0
			}
			for i := range ms {
				if i > 2 && w.Chance(1, 4) {
					ms[i] = 0
				}
			}
			if race { // mostly answers that overtake each other
				ms = []int{1, 1, 1, 1, 0, 0, 0, 0, 1, 0, 0, 12}
			}
			for i, n := 0, 5+w.N(25); i < n && len(w.Viol) == 0; i++ {
				g := x.gs[w.N(len(x.gs))]
				switch w.Weighted(ms...) {
				case 0:
					w.Sleep(time.Duration(1+w.N(40)) * 100 * time.Millisecond)
				case 1:
					x.say(g, len(g.Vers)-1, w.Chance(1, 3))
				case 2:
					x.change(g)
					if w.Chance(1, 2) {
						x.say(g, len(g.Vers)-1, w.Chance(2, 3))
					}
				case 3: // an old message
					x.say(g, w.N(len(g.Vers)), w.Chance(1, 3))
				case 4:
					for j := w.Weighted(3, 1); j >= 0; j-- {
						s := x.send(g)
						if w.Chance(1, 2) {
							s.op.Wait(5 * time.Minute)
						}
					}
				case 5:
					x.members(g)
				case 6:
					x.look(g)
				case 7:
					if w.Net.Num = 0; w.Chance(2, 3) {
						w.Net.Num, w.Net.Den = 1, 1+w.N(4)
					}
					if w.Disk.ErrNum = 0; disk && w.Chance(1, 2) {
						x.loose = true
						w.Disk.ErrNum, w.Disk.ErrDen, w.Disk.Kinds = 1, 1+w.N(20), "read open create write sync rename"
						w.Disk.Only = "groupsv2"
					}
				case 8:
					x.rest()
				case 9:
					x.kill()
				case 11: // answers overtake each other
					for j := 2 + w.N(4); j > 0; j-- {
						switch w.N(5) {
						case 0, 1:
							x.members(g)
						case 2:
							x.say(g, len(g.Vers)-1, w.Chance(1, 2))
						case 3:
							x.send(g)
						case 4:
							x.change(g)
						}
						if w.Chance(1, 2) {
							w.Sleep(time.Duration(w.N(3000)) * time.Millisecond)
						}
					}
					w.Sleep(time.Duration(w.N(15)) * time.Second)
					x.look(g)
				case 10:
					if g.Now().invited(x.own) {
						x.join(g)
					} else {
						f.post(f.in(f.peers[w.N(len(f.peers))]))
					}
				}
				x.judgeSends()
				if !w.Node.Alive() && len(w.Viol) == 0 {
					f.died()
					x.crashed()
					f.start()
				}
			}
			x.end()
		}})
}

// kill restarts the client, from rest or in the middle of something.
func (x *groups) kill() {
	w, f := x.f.w, x.f
	if w.Chance(1, 2) {
		x.rest()
		f.died()
		w.Count("restart")
		w.Node.Kill()
		x.crashed()
		f.start()
	} else {
		how := w.Weighted(1, 2, 2)
		if how != 0 {
			g := x.gs[w.N(len(x.gs))]
			if w.Chance(1, 2) {
				x.change(g)
			}
			x.say(g, len(g.Vers)-1, w.Chance(1, 2))
		}
		x.crashed()
		f.kill(how)
		x.crashed()
	}
	if !w.Node.Alive() || len(w.Viol) > 0 {
		return
	}
	for _, g := range x.gs {
		x.look(g)
	}
}

// join accepts an invitation.
func (x *groups) join(g *GState) {
	w := x.f.w
	op := w.Node.Call("JoinGroup", func() (any, error) {
		g, err := textsecure.JoinGroup(g.Hex)
		return snapOf(g), err
	})
	op.Wait(10 * time.Minute)
	w.Evals++
	if op.OK() {
		w.Count("group_joined")
		if !g.Now().has(x.own) {
			w.Violate(x.f.prop, "joined in vain", "JoinGroup returned success, but the account is no member")
		}
	} else {
		w.Count("join_failed")
	}
}

// end judges groups after the last fault.
func (x *groups) end() {
	w, f := x.f.w, x.f
	if len(w.Viol) > 0 {
		return
	}
	if !w.Node.Alive() {
		x.crashed()
	}
	gen := w.Node.gen
	if !f.finish() {
		return
	}
	if w.Node.gen != gen {
		x.crashed()
	}
	x.over(time.Hour)
	f.delivered()
	if len(w.Viol) > 0 {
		return
	}
	for _, g := range x.gs {
		// a message with the current revision brings the client up to date
		g.Change(func(n *GVer) { n.Title = w.Uniq("title") })
		x.say(g, len(g.Vers)-1, false)
		if !w.Settle(20 * time.Minute) {
			w.Violate(f.prop, "queue not drained", "a group message is not taken without faults")
			return
		}
		w.Sleep(2 * time.Second)
		if s := x.look(g); len(w.Viol) == 0 && (s == nil || s.nil || int(s.rev) != len(g.Vers)-1) {
			w.Violate(f.prop, "group not updated", "a message with the current revision was handled without faults, but the client does not know that state of the group %s", g.Hex[:8])
		}
		if len(w.Viol) > 0 {
			return
		}
		if g.Now().invited(x.own) {
			x.join(g)
			if len(w.Viol) == 0 && !g.Now().has(x.own) {
				w.Violate(f.prop, "cannot join", "an invitation cannot be accepted without faults")
			}
			if len(w.Viol) > 0 {
				return
			}
		}
		s := x.send(g)
		s.op.Wait(20 * time.Minute)
		x.judgeSends()
		if len(w.Viol) == 0 && !s.op.OK() {
			w.Violate(f.prop, "cannot send to group", "SendGroupMessage fails without faults: done %v, %v", s.op.Done, s.op.Err)
		}
		if len(w.Viol) > 0 {
			return
		}
	}
	x.loose = false
	x.rest()
	if len(w.Viol) > 0 {
		return
	}
	w.Node.Kill()
	x.crashed()
	if !f.start() {
		return
	}
	for _, g := range x.gs {
		g.known = true
		x.look(g)
	}
	w.Count("groups_judged")
}
