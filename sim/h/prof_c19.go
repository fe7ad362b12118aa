package h

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"

	textsecure "github.com/signal-golang/textsecure"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
	"github.com/signal-golang/textsecure/groupsv2"
	"gopkg.in/yaml.v2"
)

// fileRe are the names of settings, contacts and group files.
var fileRe = regexp.MustCompile(`^/app/(config\.yml|contacts\.yml|\.storage/groups/[0-9a-f]+|\.storage/groupsv2/[0-9a-f]+)$`)

// attempt is one attempt to give something a value.
type attempt struct {
	val        string
	start, end int // moments; end 0 while it runs
	ok         bool
	open       bool // may still happen after the process ended
}

const absent = "(absent)"

// files is what should be in the settings, contacts and group files.
type files struct {
	f     *Flow
	x     *groups
	r     *records
	now   int
	hist  map[string][]*attempt // by field
	own   map[string]bool       // v1 groups whose id is known
	left  map[string]bool
	blind bool // the contacts could not be read at the last start
	busy  map[string]*Op
	errs  int // disk errors before the last start
}

func (x *files) tick() int { x.now++; return x.now }

// try notes an attempt to change a field.
func (x *files) try(field, val string) *attempt {
	a := &attempt{val: val, start: x.tick()}
	if x.hist[field] == nil {
		x.hist[field] = []*attempt{{val: absent, ok: true, end: x.tick()}}
		a.start = x.tick()
	}
	x.hist[field] = append(x.hist[field], a)
	return a
}

func (x *files) done(a *attempt, ok bool) {
	if a.end == 0 {
		a.end, a.ok = x.tick(), ok
	}
}

func (x *files) had(field, val string) {
	a := x.try(field, val)
	x.done(a, true)
}

// may tells whether a field may have the value now: some attempt gave it this
// value, and no later one is known to have replaced it.
func (x *files) may(field, val string) bool {
	h := x.hist[field]
	if h == nil {
		return val == absent
	}
	for _, a := range h {
		if a.val != val {
			continue
		}
		gone := false
		for _, b := range h {
			gone = gone || b.ok && b.end > 0 && a.end > 0 && b.start > a.end
		}
		if !gone {
			return true
		}
	}
	return false
}

func (x *files) legal(field string) string {
	var l []string
	for _, a := range x.hist[field] {
		if x.may(field, a.val) {
			l = append(l, trunc(a.val, 40))
		}
	}
	return strings.Join(l, ", ")
}

// judge compares a field with what it may be.
func (x *files) judge(where, field, val string) bool {
	w := x.f.w
	w.Evals++
	if x.may(field, val) {
		return true
	}
	class := "change lost"
	known := val == absent
	for _, a := range x.hist[field] {
		known = known || a.val == val
	}
	if !known {
		class = "garbled"
	}
	w.Violate(x.f.prop, class, "%s: %s is %s, and may only be one of %s", where, field, trunc(val, 60), x.legal(field))
	return false
}

// contents checks what the files on the disk say.
func (x *files) contents(when string) {
	w := x.f.w
	if len(w.Viol) > 0 {
		return
	}
	fs := w.FS.Files()
	bad := func(p, why string) {
		w.Violate(x.f.prop, "file not whole", "%s, %s %s", when, p, why)
	}
	c := &config.Config{}
	b, ok := fs[configPath]
	switch {
	case !ok:
		bad(configPath, "is missing")
		return
	case yaml.Unmarshal(b, c) != nil:
		bad(configPath, "cannot be parsed")
		return
	}
	for _, v := range [][2]string{{"id", c.UUID}, {"number", c.Tel}, {"profile key", hexOf(c.ProfileKey)}, {"name", c.Name}} {
		if !x.judge(when+", in the settings file", "own "+v[0], v[1]) {
			return
		}
	}
	b, ok = fs[contactPath]
	if !ok {
		bad(contactPath, "is missing")
		return
	}
	var l struct{ Contacts []contacts.Contact }
	if yaml.Unmarshal(b, &l) != nil {
		bad(contactPath, "cannot be parsed")
		return
	}
	got := map[string]contacts.Contact{}
	for _, c := range l.Contacts {
		k := c.UUID
		if k == "" {
			k = c.Tel
		}
		if _, twice := got[k]; twice {
			bad(contactPath, "holds "+k+" twice")
			return
		}
		got[k] = c
	}
	x.contacts(when+", in the contacts file", got)
	for _, p := range sortedKeys(fs) {
		hex, v1 := strings.CutPrefix(p, storeDir+"/groups/")
		if !fileRe.MatchString(p) || !v1 || len(w.Viol) > 0 {
			continue
		}
		g := &textsecure.Group{}
		if yaml.Unmarshal(fs[p], g) != nil {
			bad(p, "cannot be parsed")
		} else if g.Hexid != hex || hexOf(g.ID) != hex || g.Name == "" || len(g.Members) == 0 {
			bad(p, fmt.Sprintf("is incomplete: %+v", *g))
		}
	}
	for _, hex := range sortedKeys(x.own) {
		g := &textsecure.Group{}
		b, ok := fs[storeDir+"/groups/"+hex]
		if ok && yaml.Unmarshal(b, g) == nil {
			x.judge(when+", in a group file", "group "+hex, groupText(g))
		} else if len(w.Viol) == 0 {
			x.judge(when+", in the directory of group files", "group "+hex, absent)
		}
	}
}

func groupText(g *textsecure.Group) string {
	m := append([]string{}, g.Members...)
	sort.Strings(m)
	return g.Name + "|" + strings.Join(m, " ")
}

func (x *files) contacts(when string, got map[string]contacts.Contact) {
	for _, f := range sortedKeys(x.hist) {
		kind, id, _ := strings.Cut(f, " of ")
		if id == "" || len(x.f.w.Viol) > 0 {
			continue
		}
		v := absent
		if c, ok := got[id]; ok {
			switch kind {
			case "profile key":
				v = hexOf(c.ProfileKey)
			case "name":
				v = c.Name
			case "profile name":
				v = c.Username
			case "color":
				v = c.Color
			}
			if v == "" {
				v = absent
			}
		}
		x.judge(when, f, v)
	}
}

// known checks what the started client knows.
func (x *files) known(when string) {
	w := x.f.w
	if !w.Node.Alive() || len(w.Viol) > 0 {
		return
	}
	op := w.Node.Call("look", func() (any, error) {
		m := map[string]contacts.Contact{}
		for _, f := range sortedKeys(x.hist) {
			if _, id, _ := strings.Cut(f, " of "); id != "" {
				if c := contacts.GetContact(id); c.UUID != "" || c.Tel != "" {
					m[id] = c
				}
			}
		}
		return m, nil
	})
	if op.Wait(time.Minute); op.OK() && !x.blind {
		x.contacts(when+", for the client", op.Val.(map[string]contacts.Contact))
	}
	for _, hex := range sortedKeys(x.own) {
		if len(w.Viol) > 0 || !w.Node.Alive() {
			return
		}
		v := absent
		op := w.Node.Call("GetGroupById", func() (any, error) {
			g, err := textsecure.GetGroupById(hex)
			if err != nil {
				return absent, nil
			}
			return groupText(g), nil
		})
		if op.Wait(time.Minute); op.OK() {
			v = op.Val.(string)
			x.judge(when+", for the client", "group "+hex, v)
		}
	}
}

// odd texts that must survive being stored.
func (x *files) text(p string) string {
	w := x.f.w
	s := w.Uniq(p)
	if !w.Chance(1, 4) {
		return s
	}
	return []string{"yes ", "null: ", "- ", "'\"", "1e3", "~", "\t", "é✓", "a: b\n c ", "# ", "{[", "\\x41 ", "=3D=3D=3D", "\u2028", "%"}[w.N(15)] + s
}

// do calls the client, and notes the outcome.
func (x *files) do(what string, as []*attempt, f func() error) *Op {
	op := x.f.w.Node.Call(what, func() (any, error) { return nil, f() })
	x.watch(op, as)
	return op
}

func (x *files) watch(op *Op, as []*attempt) {
	w := x.f.w
	w.Go("outcome", func() {
		op.Wait(time.Hour)
		for _, a := range as {
			x.done(a, op.OK())
		}
		if op.OK() {
			w.Count("change_ok")
		} else if op.Done {
			w.Count("change_failed")
		}
	})
}

// change makes the client change one of its files.
func (x *files) change() *Op {
	w, f := x.f.w, x.f
	p := f.peers[w.N(len(f.peers))]
	id := p.D.UUID
	if w.Chance(1, 4) {
		ids := []string{}
		for _, h := range sortedKeys(x.hist) {
			if k, id, _ := strings.Cut(h, " of "); k == "profile key" && id[0] != '+' {
				ids = append(ids, id)
			}
		}
		if ids = append(ids, w.newUUID()); true {
			id = ids[w.N(len(ids))]
		}
	}
	switch w.Weighted(5, 4, 3, 3, 3, 3, 2, 2, 2) {
	case 0: // as the application learns it
		k := w.RandBytes(32)
		return x.do("UpdateProfileKey", []*attempt{x.try("profile key of "+id, hexOf(k))}, func() error { return contacts.UpdateProfileKey(id, k) })
	case 1: // as the contact tells it
		k := w.RandBytes(32)
		id := w.Uniq("key")
		c := p.Text(id)
		fl := uint32(4)
		c.DataMessage.Flags, c.DataMessage.ProfileKey = &fl, k
		s, err := p.Encrypt(id, "profile key", c)
		if s = f.note(s, err); s == nil {
			return nil
		}
		a := x.try("profile key of "+p.D.UUID, hexOf(k))
		a.open = true
		x.onHand(s, a)
		f.post(s)
		w.Count("key_told")
	case 2:
		return x.name()
	case 3: // a profile
		a := w.Srv.acct[p.D.UUID]
		if a.Prof == nil || len(w.Node.ops) == 0 && w.Chance(1, 2) {
			a.Prof = &Prof{Name: x.text("profile"), Version: "none"}
		}
		u, n := p.D.UUID, a.Prof.Name
		w.Count("profile_asked")
		return x.do("GetProfileByUUID", []*attempt{x.try("profile name of "+u, n)}, func() error {
			_, err := textsecure.GetProfileByUUID(u)
			return err
		})
	case 4, 5: // a new group
		var ms []string
		for _, p := range f.peers {
			if p.D.ID == 1 && w.Chance(1, 2) {
				ms = append(ms, p.D.UUID)
			}
		}
		name := x.text("group")
		hexes := sortedKeys(x.own)
		if len(hexes) > 0 && w.Chance(1, 2) {
			hex := hexes[w.N(len(hexes))]
			if o := x.busy[hex]; x.left[hex] || o != nil && !o.Over() {
				return nil
			}
			a := x.try("group "+hex, groupText(&textsecure.Group{Name: name, Members: append(append([]string{}, ms...), w.Node.Tel)}))
			w.Count("group_updated")
			x.busy[hex] = x.do("UpdateGroup", []*attempt{a}, func() error {
				_, err := textsecure.UpdateGroup(hex, name, ms)
				return err
			})
			return x.busy[hex]
		}
		op := w.Node.Call("NewGroup", func() (any, error) {
			g, err := textsecure.NewGroup(name, ms)
			if g == nil {
				return nil, err
			}
			c := *g
			return &c, err
		})
		w.Go("outcome", func() {
			op.Wait(time.Hour)
			if op.Killed || !op.Done {
				return
			}
			if g, _ := op.Val.(*textsecure.Group); g != nil {
				x.own[g.Hexid] = true
				x.done(x.try("group "+g.Hexid, groupText(g)), op.Err == nil)
				w.Count("group_made")
			}
		})
		return op
	case 6:
		hexes := sortedKeys(x.own)
		if len(hexes) == 0 {
			return nil
		}
		hex := hexes[w.N(len(hexes))]
		if o := x.busy[hex]; x.left[hex] || o != nil && !o.Over() {
			return nil
		}
		x.left[hex] = true
		a := x.try("group "+hex, absent)
		w.Count("group_left")
		return x.do("LeaveGroup", []*attempt{a}, func() error { return textsecure.LeaveGroup(hex) })
	case 7:
		if w.Chance(1, 2) { // at the same time as a change of the name
			old, left := w.S.Stall, 1+w.N(3)
			w.S.Stall = func() time.Duration {
				if left == 0 || !w.Chance(1, 8) {
					return 0
				}
				left--
				w.Count("goroutine_stalled")
				return time.Duration(1+w.N(400)) * time.Millisecond
			}
			w.Go("name", func() {
				defer func() { w.S.Stall = old }()
				gen := w.Node.gen
				for i := 1 + w.N(3); i > 0; i-- {
					w.Sleep(time.Duration(w.N(200)) * time.Millisecond)
					if w.Node.gen != gen || !w.Node.Alive() {
						return
					}
					x.name().Wait(time.Minute)
				}
			})
		}
		return x.do("SetAccountCapabilities", nil, func() error {
			return textsecure.SetAccountCapabilities(config.AccountCapabilities{Gv2: true, AnnouncementGroup: w.Chance(1, 2)})
		})
	case 8: // a group of the storage service
		g := x.x.gs[w.N(len(x.x.gs))]
		x.x.change(g)
		if w.Chance(1, 3) {
			op := w.Node.Call("UpdateGroupFromServer", func() (any, error) {
				q := groupsv2.FindGroup(g.Hex)
				if q == nil {
					return nil, fmt.Errorf("not known")
				}
				return nil, q.UpdateGroupFromServer()
			})
			return op
		}
		x.x.say(g, len(g.Vers)-1, w.Chance(1, 2))
	}
	return nil
}

// name changes the client's name.
func (x *files) name() *Op {
	w := x.f.w
	name := x.text("user")
	a := x.try("own name", name)
	loose := x.loose()
	op := w.Node.Call("SetUsername", func() (any, error) { textsecure.SetUsername(name); return nil, nil })
	w.Go("outcome", func() {
		op.Wait(time.Hour)
		// it does not tell whether it failed
		x.done(a, op.OK() && !loose && !x.loose())
	})
	return op
}

// loose: what is written now may fail.
func (x *files) loose() bool {
	d := &x.f.w.Disk
	return d.ErrNum > 0 || d.Full || d.FullAt > 0
}

// onHand notes when the message is handed to the application.
func (x *files) onHand(s *Sent, a *attempt) {
	x.f.w.Go("handed", func() {
		gen := x.f.w.Node.gen
		x.f.w.Until(3*time.Hour, func() bool { return s.Handed > 0 || x.f.w.Node.gen != gen || len(x.f.w.Viol) > 0 })
		if s.Handed > 0 {
			x.done(a, true)
		}
	})
}

// restart boots the client after a crash.
func (x *files) restart(power bool) bool {
	w, f := x.f.w, x.f
	x.blind = false
	if w.Chance(1, 8) { // the contacts cannot be read for a while
		w.Disk.ErrNum, w.Disk.ErrDen, w.Disk.Kinds, w.Disk.Only = 1, 1+w.N(2), "read open", "contacts"
		w.Count("contacts_unreadable")
		if !f.start() {
			return false
		}
		w.Disk = DiskPlan{Observe: w.Disk.Observe}
		x.blind = true
		return true
	}
	return f.crashBoot(x.r, f.prop, power)
}

func init() {
	register(&Profile{Prop: "C19", Horizon: 24 * time.Hour,
		Rule:   "A client with up to eight contacts (with and without account ids), old-style groups and groups of the storage service changes its settings, contacts and group files by API calls (several at once) and by messages: new profile keys, fetched profiles, names with characters special to YAML, new, changed and left groups, changed group states. In between it is killed at random statements and disk operations, power is lost (unsynced renames and contents are lost, zeroed or torn), the disk is full, writes fail or are short, and the contacts cannot be read at a start. After every crash and at every rest each file must hold one complete value it had, not older than the one at the last rest; settings, contacts and groups in the files and in the restarted client must have the values of the last calls that reported success or of later attempts.",
		Faults: "kill or power loss at random statements and disk operations, repeated crashes during start, lost/zeroed/torn unsynced data, lost unsynced renames, full disk, failing and short writes, failing syncs and renames, contacts unreadable at start",
		Drive: func(w *World) {
			w.swarm()
			f := newFlow(w, "C19")
			x := &files{f: f, hist: map[string][]*attempt{}, own: map[string]bool{}, left: map[string]bool{}, busy: map[string]*Op{}}
			names := []string{"alice", "bob", "carol"}
			var list []contacts.Contact
			add := func(c contacts.Contact) {
				list = append(list, c)
				k := c.UUID
				if k == "" {
					k = c.Tel
				}
				v := hexOf(c.ProfileKey)
				if v == "" {
					v = absent
				}
				x.had("profile key of "+k, v)
				x.had("name of "+k, c.Name)
				x.had("color of "+k, c.Color)
			}
			for i := 0; i < 1+w.N(3); i++ {
				p := w.NewPeer(names[i])
				f.peers = append(f.peers, p)
				if w.Chance(1, 2) {
					c := contacts.Contact{UUID: p.D.UUID, Tel: p.Tel, Name: x.text(names[i]), Color: "red", Registered: true}
					if w.Chance(1, 2) {
						c.ProfileKey = w.RandBytes(32)
					}
					add(c)
				}
			}
			add(contacts.Contact{UUID: w.newUUID(), Tel: "+15557770000", Name: x.text("zoe"), ProfileKey: w.RandBytes(32), Color: "blue"})
			for i := w.N(4); i > 0; i-- {
				add(contacts.Contact{Tel: fmt.Sprintf("+1555778000%d", i), Name: x.text("tel"), Color: x.text("green"), About: strings.Repeat("long ", w.N(900))})
			}
			b, err := yaml.Marshal(map[string]any{"contacts": list})
			must(err)
			w.FS.Put(contactPath, b)
			w.FS.SyncAll()
			if !f.start() {
				return
			}
			f.serve()
			x.x = newGroups(f)
			x.x.loose = true
			f.OnPeer = func(*Peer, *Got) {}
			for i := 1 + w.N(2); i > 0; i-- {
				x.x.add(false)
			}
			c, err := w.conf()
			must(err)
			x.had("own id", w.Node.UUID())
			x.had("own number", c.Tel)
			x.had("own profile key", hexOf(c.ProfileKey))
			x.had("own name", c.Name)
			x.r = w.watch(fileRe.MatchString)
			power := w.Chance(2, 3)
			faulty := w.Chance(1, 2)
			calm := func() { w.Disk = DiskPlan{Observe: w.Disk.Observe} }
			rest := func() bool {
				w.Until(10*time.Minute, func() bool { return len(w.Node.ops) == 0 || !w.Node.Alive() })
				if w.Node.Alive() && w.Settle(10*time.Minute) && w.Node.Alive() {
					w.Sleep(2 * time.Second)
					if len(w.Node.ops) == 0 {
						x.contents("at rest")
						if w.faults() == x.errs { // a directory that could not be synced may still lose a rename
							x.r.quiet()
						}
						return true
					}
				}
				return false
			}
			for i, n := 0, 1+w.N(7); i < n && len(w.Viol) == 0; i++ {
				if faulty && w.Chance(1, 2) {
					switch w.N(3) {
					case 0:
						w.Disk.ErrNum, w.Disk.ErrDen, w.Disk.Kinds = 1, 1+w.N(12), "create write sync rename close remove"
					case 1:
						w.Disk.Full = true
					case 2:
						w.Disk.seen, w.Disk.FullAt = 0, 1+w.N(30)
					}
					w.Disk.Only = []string{"config.yml", "contacts.yml", "groups", ""}[w.N(4)]
				}
				for j := 1 + w.N(8); j > 0 && len(w.Viol) == 0; j-- {
					op := x.change()
					switch {
					case op != nil && w.Chance(1, 2):
						op.Wait(5 * time.Minute)
					case w.Chance(1, 3):
						w.Sleep(time.Duration(w.N(3000)) * time.Millisecond)
					}
				}
				if w.Chance(1, 2) {
					calm()
					rest()
				}
				if len(w.Viol) > 0 {
					return
				}
				for j := w.N(3); j > 0; j-- { // something to be interrupted
					x.change()
				}
				f.crash(x.r, f.prop, w.Weighted(1, 2, 4), power && w.Chance(2, 3))
				calm()
				x.ended()
				x.contents("after a crash")
				if len(w.Viol) > 0 || !x.restart(power) {
					return
				}
				x.known("after a restart")
				x.r.quiet0()
				x.errs = w.faults()
			}
			if len(w.Viol) > 0 {
				return
			}
			calm()
			for i := 0; i < 2 && len(w.Viol) == 0; i++ {
				x.change()
				if !rest() {
					return
				}
				f.died()
				w.Node.Kill()
				x.ended()
				x.contents("after the end")
				x.blind = false
				if !f.start() {
					return
				}
				x.known("after the last restart")
			}
			w.Count("files_judged")
		}})
}

// ended: calls that were running when the client died are over.
func (x *files) ended() {
	for _, f := range sortedKeys(x.hist) {
		for _, a := range x.hist[f] {
			if a.end == 0 && !a.open {
				a.end = x.tick()
			}
		}
	}
}
