package h

import (
	"bytes"
	"encoding/base64"
	"regexp"
	"time"

	textsecure "github.com/signal-golang/textsecure"
)

// recordRe are the names of the key store's records (other names may be
// temporary files, whose contents do not matter).
var recordRe = regexp.MustCompile(`^/app/\.storage/(salt|prekeys/\d+|signed_prekeys/\d+|identity/[^./]+|sessions/[0-9a-f-]+_\d+)$`)

// records follows every complete value each record ever had.
type records struct {
	w    *World
	vers map[string][][]byte
	gone map[string]bool // was removed on purpose at some time
	calm map[string]int  // version at the last moment nothing was going on
	rule func(p string) bool
	// what a crash interrupted, and a later power loss may still undo
	loose map[string]bool
}

func (w *World) watch(rule func(p string) bool) *records {
	r := &records{w: w, vers: map[string][][]byte{}, gone: map[string]bool{}, calm: map[string]int{}, rule: rule}
	for p, d := range w.FS.Files() {
		r.add(p, d)
	}
	r.attach()
	r.quiet()
	return r
}

func (r *records) attach() {
	r.w.FS.OnVersion = r.add
	r.w.FS.OnRemove = func(p string) { r.gone[p] = true }
}

func (r *records) add(p string, d []byte) {
	if !r.rule(p) {
		return
	}
	v := r.vers[p]
	if len(v) > 0 && bytes.Equal(v[len(v)-1], d) {
		return
	}
	r.vers[p] = append(v, append([]byte{}, d...))
}

// quiet: nothing is being written now, so what is there is complete.
func (r *records) quiet() {
	calm := map[string]int{}
	undone := r.stillLoose()
	for p, d := range r.w.FS.Files() {
		if !r.rule(p) {
			continue
		}
		if c, ok := r.calm[p]; undone[p] && ok {
			calm[p] = c
		} else if !undone[p] {
			calm[p] = r.index(p, d)
		}
	}
	r.calm = calm
}

func (r *records) stillLoose() map[string]bool {
	if len(r.loose) > 0 {
		now := r.w.FS.Pending()
		for p := range r.loose {
			if !now[p] {
				delete(r.loose, p)
			}
		}
	}
	return r.loose
}

func (r *records) index(p string, d []byte) int {
	v := r.vers[p]
	for i := len(v) - 1; i >= 0; i-- {
		if bytes.Equal(v[i], d) {
			return i
		}
	}
	return -1
}

// judge compares what a crash left with what had been written.
func (r *records) judge(prop, how string) {
	w := r.w
	fs := w.FS.Files()
	for _, p := range sortedKeys(fs) {
		if !r.rule(p) {
			continue
		}
		w.Evals++
		i := r.index(p, fs[p])
		if i < 0 {
			w.Violate(prop, "torn record", "after a %s, %s holds %d bytes that are no complete value it ever had (%d values known)", how, p, len(fs[p]), len(r.vers[p]))
			return
		}
		if c, ok := r.calm[p]; ok && i < c && !r.gone[p] {
			w.Violate(prop, "completed write lost", "after a %s, %s holds value %d of %d, although value %d had been stored before", how, p, i+1, len(r.vers[p]), c+1)
			return
		}
	}
	for _, p := range sortedKeys(r.calm) {
		if _, ok := fs[p]; !ok && !r.gone[p] {
			w.Violate(prop, "record missing", "after a %s, %s is missing", how, p)
			return
		}
	}
}

// crash kills the client (how as for kill), loses power perhaps, and judges
// what is left.
func (f *Flow) crash(r *records, prop string, how int, power bool) {
	w := f.w
	switch how {
	case 1:
		w.S.KillStep = w.S.Steps + 1 + w.N(3000)
	case 2:
		w.Disk.seen = 0
		w.Disk.KillAt = 1 + w.N(16)
		w.Disk.KillAfter = w.Chance(1, 2)
	}
	if how != 0 {
		w.Until(20*time.Second, func() bool { return !w.Node.Alive() })
		w.S.KillStep, w.Disk.KillAt = 0, 0
	}
	f.died()
	if w.Node.Alive() {
		w.Node.Kill()
	} else {
		w.Count("kill_mid_operation")
	}
	f.afterCrash(r, prop, power)
}

func (f *Flow) afterCrash(r *records, prop string, power bool) {
	w := f.w
	what := "kill"
	if r != nil {
		r.loose = w.FS.Pending()
	}
	if power {
		m, d := w.FS.PowerLoss(w.C)
		what = "power loss"
		w.Count("power_loss")
		if m > 0 {
			w.Count("lost_metadata")
		}
		if d > 0 {
			w.Count("lost_or_torn_writes")
		}
		w.Logf("power loss: %d directory changes and %d files affected", m, d)
	}
	if r != nil {
		r.judge(prop, what)
	}
	f.restarts++
}

// crashBoot starts the client again, perhaps crashing during the start too.
func (f *Flow) crashBoot(r *records, prop string, power bool) bool {
	w := f.w
	for i := 0; i < 3 && w.Chance(1, 4); i++ {
		op := w.Node.Boot()
		f.crash(r, prop, 1+w.N(2), power && w.Chance(1, 2))
		w.Count("crash_during_start")
		if op.Done && op.Err != nil {
			w.Violate(prop, "start fails", "Setup after a crash: %v", op.Err)
		}
		if len(w.Viol) > 0 {
			return false
		}
	}
	return f.start()
}

// identityKept: the client presents the identity it registered with.
func (f *Flow) identityKept(prop string) {
	w := f.w
	im := w.image()
	op := w.Node.Call("MyIdentityKey", func() (any, error) { return textsecure.MyIdentityKey(), nil })
	if !op.Wait(time.Minute) || !op.Done {
		return
	}
	if k, _ := op.Val.([]byte); len(k) != 33 || !bytes.Equal(k[1:], im.Identity.Pub[:]) {
		w.Violate(prop, "identity changed", "the identity key after a restart is %s", base64.StdEncoding.EncodeToString(k))
	}
	a := w.Node.Acct()
	if a.Password != im.Acct.Password || !bytes.Equal(a.SigKey, im.Acct.SigKey) || a.Devs[1].Uploads != im.Acct.Devs[1].Uploads {
		w.Violate(prop, "registered again", "the client registered or published keys again after a crash")
	}
	w.Evals++
}

func init() {
	register(&Profile{Prop: "C05",
		Rule:   "A registered client (encrypted or clear storage) exchanges messages with 1-3 peers; it is killed, or power is lost (unsynced directory changes and file contents are lost, zeroed or torn in a legal way), at a random statement or disk operation, also during the next start. After each crash every record of the key store must be a complete value it had (the last completed or a later one); then the start must succeed with the same identity and registration, and every message must arrive in both directions.",
		Faults: "kill or power loss at random statements and disk operations (before, in the middle of and after them), repeated crashes during start, lost/zeroed/torn unsynced data, lost unsynced renames",
		Drive: func(w *World) {
			f := msgWorld(w, "C05", 3)
			if f == nil {
				return
			}
			r := w.watch(recordRe.MatchString)
			m := w.weights(mix{in: 6, burst: 3, late: 2, dup: 2, out: 6, par: 2, fresh: 4, cross: 2, endIn: 1, endOut: 1, wait: 3, hold: 1})
			power := w.Chance(2, 3)
			for i, n := 0, 1+w.N(8); i < n; i++ {
				for j := w.N(8); j > 0; j-- {
					if !f.step(m) {
						return
					}
				}
				if w.Chance(1, 3) {
					for _, o := range f.out {
						o.Op.Wait(2 * time.Minute)
					}
					if w.Settle(5 * time.Minute) {
						w.Sleep(time.Second)
						r.quiet()
					}
				}
				// something to be interrupted
				for j := w.N(3); j > 0; j-- {
					p := f.peers[w.N(len(f.peers))]
					switch w.N(4) {
					case 0:
						f.send(p)
					case 1:
						if p.Fresh(true) == nil {
							f.post(f.in(p))
						}
					default:
						f.post(f.in(p))
					}
				}
				f.crash(r, "C05", w.Weighted(1, 2, 4), power && w.Chance(2, 3))
				if len(w.Viol) > 0 || !f.crashBoot(r, "C05", power) {
					return
				}
				f.identityKept("C05")
				r.quiet0()
			}
			if f.finish() {
				f.delivered()
				f.outDelivered()
				f.after()
			}
		}})
}

// quiet0 forgets the last quiet moment: the values after a crash count.
func (r *records) quiet0() {
	undone := r.stillLoose()
	for p, d := range r.w.FS.Files() {
		if i := r.index(p, d); i >= 0 && r.rule(p) && !undone[p] {
			if c, ok := r.calm[p]; !ok || i < c {
				r.calm[p] = i
			}
		}
	}
}
