package h

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"vsim/ref"
)

// nonces follows which message keys were used for what.
type nonces struct {
	f    *Flow
	used map[string][]byte    // destination, device, ratchet key, counter -> ciphertext
	base map[string]bool      // session starts seen
	est  map[string]time.Time // devices the client has a session with, since when
	n    int
	end  map[string]time.Time // when sessions with an account were last deleted
}

func (f *Flow) nonces(prop string) *nonces {
	w := f.w
	x := &nonces{f: f, used: map[string][]byte{}, base: map[string]bool{}, est: map[string]time.Time{}, end: map[string]time.Time{}}
	old := w.Srv.OnStale
	w.Srv.OnStale = func(d string) {
		x.lost(d)
		if old != nil {
			old(d)
		}
	}
	f.OnLost = x.lost
	w.Srv.OnSubmit = func(p *Put) {
		for _, m := range p.Msgs {
			x.submit(prop, p, m)
		}
	}
	w.Srv.OnKeys = func(uuid string, dev uint32) {
		k := fmt.Sprintf("%s.%d", uuid, dev)
		since, ok := x.est[k]
		for _, o := range w.Node.ops {
			// a call that started before may not have known
			ok = ok && o.Start.After(since)
		}
		if ok && !w.Calm {
			w.Violate(prop, "session silently replaced", "the client fetches keys of device %s to start a new session, although it has one that nobody ended", k)
		}
	}
	return x
}

func (x *nonces) lost(uuid string) {
	x.end[uuid] = time.Now()
	for k := range x.est {
		if strings.HasPrefix(k, uuid+".") {
			delete(x.est, k)
		}
	}
}

func (x *nonces) submit(prop string, p *Put, m WireMsg) {
	w := x.f.w
	inner := m.Raw
	k := fmt.Sprintf("%s.%d", p.Dest, m.Dev)
	if m.Type == 3 {
		pm, err := ref.ParsePreKey(m.Raw)
		if err != nil {
			return
		}
		inner = pm.Inner
		if b := k + string(pm.Base[:]); !x.base[b] {
			x.base[b] = true
			ok := true
			for _, o := range w.Node.ops {
				// the session may have been deleted before it was used
				ok = ok && o.Start.After(x.end[p.Dest])
			}
			if ok {
				x.est[k] = time.Now()
			} else {
				delete(x.est, k)
			}
		}
	}
	wm, err := ref.ParseWhisper(inner)
	if err != nil {
		return
	}
	w.Evals++
	x.n++
	id := fmt.Sprintf("%s %x %d", k, wm.Ratchet, wm.Counter)
	if c, ok := x.used[id]; ok && !bytes.Equal(c, wm.Body) {
		w.Violate(prop, "message key used twice", "two different ciphertexts for %s under ratchet key %x.. counter %d left the device", k, wm.Ratchet[:4], wm.Counter)
	}
	x.used[id] = append([]byte{}, wm.Body...)
}

// brokenDisk lets every operation of one kind fail while one message is sent
// or received: nothing may be handed out, and the call must say so.
func (f *Flow) brokenDisk(prop string) {
	w := f.w
	for _, o := range f.out {
		o.Op.Wait(3 * time.Minute)
	}
	if !w.Settle(10*time.Minute) || !w.Node.Alive() {
		return
	}
	w.Sleep(time.Second)
	p := f.peers[w.N(len(f.peers))]
	kind := []string{"read", "open", "create", "write", "sync", "rename"}[w.N(6)]
	old := w.Disk
	w.Disk = DiskPlan{ErrNum: 1, ErrDen: 1, Kinds: kind, Only: ".storage/sessions/", Observe: old.Observe}
	if kind != "read" && kind != "open" {
		w.Disk.Only = ".storage"
	}
	before := w.Stats["disk_error_"+kind]
	if w.Chance(2, 3) {
		n := len(w.Srv.Puts)
		o := f.send(p)
		o.Op.Wait(5 * time.Minute)
		fired := w.Stats["disk_error_"+kind] > before
		w.Disk = old
		if fired && o.Op.Done {
			w.Evals++
			w.Count("send_on_broken_disk")
			if o.Op.Err == nil {
				w.Violate(prop, "failure not reported", "SendMessage succeeded although every %s on the sessions failed", kind)
			}
			if len(w.Srv.Puts) > n {
				w.Violate(prop, "handed out without state", "a ciphertext left the device although every %s on the sessions failed", kind)
			}
		}
		return
	}
	s := f.in(p)
	if s == nil {
		w.Disk = old
		return
	}
	f.post(s)
	w.Settle(5 * time.Minute)
	fired := w.Stats["disk_error_"+kind] > before
	w.Disk = old
	if fired {
		w.Evals++
		w.Count("receive_on_broken_disk")
		if s.Handed > 0 {
			w.Violate(prop, "handed out without state", "message %s was handed over although every %s on the sessions failed", s.ID, kind)
		}
	}
}

func init() {
	register(&Profile{Prop: "C06",
		Rule:   "A registered client sends from several threads and receives while its disk fails (errors, short writes, no space, errors of one kind at every operation), it is killed or loses power at random points and restarts. Every ciphertext that reaches the service, accepted or not, is parsed: the same ratchet key and counter must never come with another ciphertext, a device with a session must not get a new one without a reason, and a call that could not read or save session state must fail and hand nothing out.",
		Faults: "disk errors on any operation, short writes, full disk, kill and power loss at random statements and disk operations, lost replies, device changes",
		Drive: func(w *World) {
			f := msgWorld(w, "C06", 3)
			if f == nil {
				return
			}
			f.outProp = "C02"
			x := f.nonces("C06")
			m := w.weights(mix{in: 4, burst: 2, late: 1, dup: 1, out: 8, par: 5, fresh: 2, cross: 2, endIn: 1, endOut: 1, wait: 3, hold: 1})
			errs := w.Chance(2, 3)
			crash := w.Chance(2, 3)
			if w.Chance(1, 2) {
				w.Net = NetPlan{Lat: w.Net.Lat, Num: 1, Den: 6, Kinds: []string{"lost", "reply_lost", "reset_after", "status_500", "refused"}, Match: func(r *Req) bool { return strings.HasPrefix(r.Path, "/v1/messages/") }}
			}
			plan := DiskPlan{}
			if errs {
				plan = DiskPlan{ErrNum: 1, ErrDen: []int{4, 15, 60}[w.N(3)], Only: ".storage"}
				if w.Chance(1, 2) {
					plan.Kinds = []string{"read", "open", "create", "write", "sync", "rename", "stat", "remove"}[w.N(8)]
				}
				if w.Chance(1, 5) {
					plan = DiskPlan{Full: true, Only: ".storage"}
				}
			}
			for i, n := 0, 2+w.N(8); i < n; i++ {
				w.Disk = DiskPlan{}
				if errs && w.Chance(2, 3) {
					w.Disk = plan
				}
				for j := w.N(10); j > 0; j-- {
					if !f.step(m) {
						return
					}
				}
				if errs && w.Chance(1, 2) {
					f.brokenDisk("C06")
				}
				if crash && w.Chance(1, 2) {
					for j := 1 + w.N(3); j > 0; j-- {
						f.send(f.peers[w.N(len(f.peers))])
					}
					f.crash(nil, "C06", w.Weighted(1, 3, 3), w.Chance(1, 2))
					w.Disk = DiskPlan{}
					if len(w.Viol) > 0 || !f.start() {
						return
					}
				}
				if len(w.Viol) > 0 {
					return
				}
			}
			w.Net = NetPlan{Lat: w.Net.Lat}
			f.finish()
			for _, p := range f.peers {
				f.send(p).Op.Wait(5 * time.Minute)
			}
			if x.n > 0 {
				w.Count("ciphertexts_checked")
			}
		}})
}
