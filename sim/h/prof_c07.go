package h

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"strings"
	"time"

	"vsim/ref"
)

// holds tells whether b, or b as hex or base64, is in one of the files.
func holds(files map[string][]byte, b []byte) bool {
	forms := [][]byte{b, []byte(hex.EncodeToString(b)), []byte(strings.TrimRight(base64.StdEncoding.EncodeToString(b), "="))}
	for _, d := range files {
		for _, x := range forms {
			if bytes.Contains(d, x) {
				return true
			}
		}
	}
	return false
}

// privs finds the private halves among the secrets the client drew.
type privs struct {
	w    *World
	done map[string]bool
	of   map[[32]byte][]byte
}

func (w *World) privs() *privs { return &privs{w, map[string]bool{}, map[[32]byte][]byte{}} }

func (x *privs) find(pub []byte) []byte {
	add := func(m map[string]int) {
		for d := range m {
			if len(d) == 32 && !x.done[d] {
				x.done[d] = true
				x.of[ref.FromPriv([]byte(d)).Pub] = []byte(d)
			}
		}
	}
	add(x.w.Node.Secrets)
	if im := x.w.image(); im != nil {
		add(im.Secrets)
	}
	k, err := ref.ParseKey(pub)
	if err != nil {
		return nil
	}
	return x.of[k]
}

// stored tells whether a private key is in the files, as drawn or clamped.
func stored(files map[string][]byte, priv []byte) bool {
	c := append([]byte{}, priv...)
	c[0] &= 248
	c[31] = c[31]&127 | 64
	return holds(files, c) || holds(files, priv)
}

// published judges keys at the moment they are published.
func (f *Flow) published(prop string, a *Account, d *SDev, x *privs) {
	w := f.w
	if a != w.Node.Acct() {
		return
	}
	w.Count("keys_published")
	bad := func(f string, a ...any) { w.Violate(prop, "published keys", f, a...) }
	ids, pubs := map[uint32]bool{}, map[string]bool{}
	all := append([]*PubKey{}, d.PreKeys...)
	if d.Last == nil {
		bad("there is no last-resort prekey")
		return
	}
	if d.Signed == nil {
		bad("there is no signed prekey")
		return
	}
	all = append(all, d.Last)
	for _, k := range all {
		w.Evals++
		switch {
		case k.Bad != "":
			bad("prekey %d: %s", k.ID, k.Bad)
		case ids[k.ID]:
			bad("prekey id %d occurs twice (last-resort id %d)", k.ID, d.Last.ID)
		case pubs[string(k.Pub)]:
			bad("prekey %d has the key of another prekey (last-resort id %d)", k.ID, d.Last.ID)
		}
		ids[k.ID], pubs[string(k.Pub)] = true, true
	}
	if len(d.PreKeys) == 0 {
		bad("the batch is empty")
	}
	id, err := ref.ParseKey(d.Identity)
	if err != nil || d.Signed.Bad != "" || !ref.Verify(id, d.Signed.Pub, d.Signed.Sig) {
		bad("the signature of the signed prekey does not verify")
	}
	if pubs[string(d.Signed.Pub)] {
		bad("the signed prekey is one of the prekeys")
	}
	if w.Node.Password != "" || len(w.Viol) > 0 {
		return
	}
	fs := w.FS.Files()
	for _, k := range append(all, d.Signed, &PubKey{Pub: d.Identity}) {
		p := x.find(k.Pub)
		if p == nil {
			w.Count("unknown_private_half")
			continue
		}
		w.Evals++
		w.Count("private_half_searched")
		if !stored(fs, p) {
			bad("the private half of key %d is in no file when it is published", k.ID)
			return
		}
	}
}

// usage follows which session used which one-time prekey.
type usage struct {
	f     *Flow
	x     *privs
	by    map[uint32]string // prekey -> session it served
	who   map[uint32]*Sent
	dirty map[uint32]bool // a disk error happened while it was used
	pub   map[uint32][]byte
}

func (f *Flow) usage(prop string) *usage {
	u := &usage{f: f, x: f.w.privs(), by: map[uint32]string{}, who: map[uint32]*Sent{}, dirty: map[uint32]bool{}, pub: map[uint32][]byte{}}
	for _, k := range f.w.Node.Acct().Devs[1].PreKeys {
		u.pub[k.ID] = k.Pub
	}
	old := f.OnHand
	f.OnHand = func(h *Handed, s *Sent) {
		if old != nil {
			old(h, s)
		}
		if s == nil || s.Typ != 3 || s.Info.PreKeyID == 0 || s.Info.PreKeyID == 0xFFFFFF {
			return
		}
		k := s.Info.PreKeyID
		id := s.Peer.D.UUID + string(s.Info.BaseKey[:])
		f.w.Evals++
		if b, ok := u.by[k]; ok && b != id && !u.dirty[k] {
			f.w.Violate(prop, "one-time prekey used twice", "prekey %d served %s of %s and then %s of %s", k, u.who[k].ID, u.who[k].Peer.Name, s.ID, s.Peer.Name)
		}
		if _, ok := u.by[k]; !ok {
			u.by[k], u.who[k] = id, s
		}
	}
	return u
}

// twice starts a session on a prekey that served another session already.
func (u *usage) twice() {
	f, w := u.f, u.f.w
	ids := sortedIDs(u.by)
	if len(ids) == 0 {
		return
	}
	k := ids[w.N(len(ids))]
	d := w.Node.Acct().Devs[1]
	keep := d.PreKeys
	d.PreKeys = []*PubKey{{ID: k, Pub: u.pub[k]}}
	p := f.addPeer(w.Uniq("again"))
	err := p.Fresh(true)
	d.PreKeys = keep
	if err != nil {
		return
	}
	s := f.in(p)
	s.Excuse = "its prekey is used"
	w.Count("used_prekey_named_again")
	f.post(s)
	f.peers = f.peers[:len(f.peers)-1]
}

// bytes looks for the private halves in the storage.
func (u *usage) bytes(prop string) {
	f, w := u.f, u.f.w
	if w.Node.Password != "" {
		return
	}
	fs := w.FS.Files()
	d := w.Node.Acct().Devs[1]
	must := append([]*PubKey{d.Last, d.Signed}, d.PreKeys...)
	for i, k := range must {
		if i > 12 {
			break
		}
		if p := u.x.find(k.Pub); p != nil {
			w.Evals++
			if !stored(fs, p) {
				w.Violate(prop, "prekey lost", "the private half of published key %d, which no session used, is in no file any more", k.ID)
				return
			}
		}
	}
	for _, k := range sortedIDs(u.by) {
		if u.dirty[k] {
			continue
		}
		if p := u.x.find(u.pub[k]); p != nil {
			w.Evals++
			w.Count("used_prekey_searched")
			if stored(fs, p) {
				w.Violate(prop, "used prekey kept", "prekey %d served a session, but its private half is still stored", k)
				return
			}
		}
	}
	_ = f
}

func sortedIDs[V any](m map[uint32]V) []uint32 {
	var r []uint32
	for k := range m {
		r = append(r, k)
	}
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

// failing delivers a first message while the session cannot be stored, and
// the same message again when it can.
func (u *usage) failing(prop string) {
	f, w := u.f, u.f.w
	if !w.Settle(10*time.Minute) || !w.Node.Alive() {
		return
	}
	w.Sleep(time.Second)
	p := f.addPeer(w.Uniq("late"))
	if p.Fresh(w.Chance(3, 4)) != nil {
		return
	}
	s := f.in(p)
	kind := []string{"create", "write", "rename", "open", "read", "sync", "write create"}[w.N(7)]
	w.Disk = DiskPlan{ErrNum: 1, ErrDen: 1 + w.Weighted(3, 1), Kinds: kind, Only: ".storage/sessions/"}
	if strings.Contains("create write sync", kind[:4]) {
		w.Disk.Only = ".storage" // temporary files may be elsewhere
	}
	switch w.N(4) {
	case 0:
		w.Disk = DiskPlan{Full: true, Only: ".storage"}
	case 1:
		w.Disk.Only = ".storage/identity/"
	}
	n := w.faults()
	f.post(s)
	if w.Chance(1, 2) {
		f.post(f.in(p))
	}
	w.Settle(5 * time.Minute)
	fired := w.faults() > n
	w.Disk = DiskPlan{}
	if fired && s.Typ == 3 {
		u.dirty[s.Info.PreKeyID] = s.Handed > 0
	}
	if w.Chance(1, 3) && w.Node.Alive() {
		f.crash(nil, prop, 0, w.Chance(1, 2))
		if !f.start() {
			return
		}
	}
	if fired && s.Handed == 0 {
		w.Count("session_not_stored")
		f.post(s) // as the service would, or the peer again
		w.Settle(5 * time.Minute)
		w.Evals++
		if s.Handed == 0 && !strings.Contains(kind, "sync") {
			w.Violate(prop, "prekey lost", "a first message on prekey %d was refused while its session could not be stored (%s failing), and is still refused now that it can", s.Info.PreKeyID, kind)
		}
	}
	for _, q := range p.Sent { // the messages whose session was not stored
		if q.Handed == 0 && q.Excuse == "" {
			q.Excuse = "the disk failed"
		}
	}
}

// faults counts injected disk errors.
func (w *World) faults() int {
	n := w.Stats["disk_full"]
	for k, v := range w.Stats {
		if strings.HasPrefix(k, "disk_error_") {
			n += v
		}
	}
	return n
}

func c07registration(w *World) {
	f := freshWorld(w, "C07")
	if w.Chance(2, 3) {
		w.Node.Password = ""
		w.installFresh()
	}
	x := w.privs()
	w.Srv.OnUpload = func(a *Account, d *SDev) { f.published("C07", a, d, x) }
	for i, n := 0, 1+w.N(4); i < n; i++ {
		f.breakSetup()
		op := w.Node.Boot()
		op.Wait(time.Hour)
		w.S.KillStep, w.Disk.KillAt = 0, 0
		if len(w.Viol) > 0 {
			return
		}
		if op.OK() {
			break
		}
		w.Node.Kill()
		if w.Chance(1, 3) {
			f.afterCrash(nil, "C07", true)
		}
	}
	f.mendSetup()
	if !w.Node.Alive() || w.Node.Acct() == nil || w.Node.Acct().Devs[1].Signed == nil {
		op := w.Node.Boot()
		op.Wait(time.Hour)
		if !op.OK() {
			return // C14
		}
	}
	f.noJudge = true
	d := w.Node.Acct().Devs[1]
	// every kind of key, some of the one-time ones
	w.Node.Listen()
	for i := 0; i < 1+w.N(6) && len(w.Viol) == 0; i++ {
		one := w.Chance(1, 2)
		if n := len(d.PreKeys); n > 0 {
			j := w.N(n)
			d.PreKeys[0], d.PreKeys[j] = d.PreKeys[j], d.PreKeys[0]
		}
		p := f.addPeer(w.Uniq("new"))
		if p.Fresh(one) != nil {
			w.Violate("C07", "published keys", "a conforming peer refuses the published keys")
			return
		}
		s := f.in(p)
		n := len(w.Node.Handed)
		f.post(s)
		w.Settle(10 * time.Minute)
		w.Sleep(time.Second)
		w.Evals++
		if len(w.Node.Handed) == n {
			w.Violate("C07", "published key unusable", "a first message on published prekey %d was not handed over", s.Info.PreKeyID)
			return
		}
		if w.Chance(1, 4) {
			w.Node.Kill()
			if !f.start() {
				return
			}
		}
	}
	w.Count("published_keys_used")
}

func init() {
	register(&Profile{Prop: "C07", NoBase: true,
		Rule:   "A third of the runs register a new installation under faults: at the moment keys are published they must parse, have distinct ids and keys and a separate last-resort key, the signature must verify, and (clear storage) the private half of each must be in a file; then published keys are used. The others exchange messages with a registered client: the service hands out one-time prekeys twice, session starts naming unused prekeys are corrupted or forged, sessions cannot be stored, the client is killed or loses power. No prekey may serve two sessions, a used one must be gone from storage, an unused, the last-resort and the signed one must stay and work, also for the genuine message after rejected ones or after a failing disk.",
		Faults: "corrupted and forged session starts, prekeys handed out twice, disk errors on session and identity files, full disk, kill and power loss, registration faults as for C14",
		Drive: func(w *World) {
			if w.Chance(1, 3) {
				c07registration(w)
				return
			}
			w.useBase()
			f := msgWorld(w, "C07", 2)
			if f == nil {
				return
			}
			f.outProp = "C02"
			u := f.usage("C07")
			m := w.weights(mix{in: 4, burst: 2, late: 2, dup: 2, out: 2, fresh: 6, cross: 2, corrupt: 4, forge: 4, wait: 2, restart: 1, kill: 1})
			if f.lastResort = w.Chance(1, 2); !f.lastResort {
				m.endIn, m.endOut = 1, 1
			}
			crash := w.Chance(1, 2)
			for i, n := 0, 2+w.N(8); i < n; i++ {
				for j := w.N(6); j > 0; j-- {
					if !f.step(m) {
						return
					}
				}
				switch w.Weighted(3, 3, 2) {
				case 0:
					u.twice()
				case 1:
					u.failing("C07")
				case 2:
					if crash {
						for j := 1 + w.N(2); j > 0; j-- {
							if p := f.peers[w.N(len(f.peers))]; p.Fresh(f.oneTime(3, 4)) == nil {
								f.post(f.in(p))
							}
						}
						f.crash(nil, "C07", 1+w.N(2), w.Chance(1, 2))
						if !f.start() {
							return
						}
					}
				}
				if w.Chance(1, 3) && w.Settle(5*time.Minute) && w.Node.Alive() {
					w.Sleep(time.Second)
					u.bytes("C07")
				}
				if len(w.Viol) > 0 {
					return
				}
			}
			if f.finish() {
				u.bytes("C07")
				f.delivered()
			}
		}})
}
