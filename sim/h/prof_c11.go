package h

import (
	"fmt"
	"strings"
	"time"

	"vsim/ref"

	textsecure "github.com/signal-golang/textsecure"
	sp "github.com/signal-golang/textsecure/protobuf"
)

// fanout follows which devices each accepted submission was for.
type fanout struct {
	f     *Flow
	puts  map[*Put][]*SDev
	got   map[*Put]map[*SDev]*Got
	synch map[string]map[*Peer]int // timestamp/destination/body -> transcripts
	n     uint32
	chg   int
}

func (f *Flow) fanout() *fanout {
	w := f.w
	x := &fanout{f: f, puts: map[*Put][]*SDev{}, got: map[*Put]map[*SDev]*Got{}, synch: map[string]map[*Peer]int{}, n: 10}
	w.Srv.OnAccept = func(p *Put, a *Account) {
		w.Evals++
		seen := map[uint32]bool{}
		for _, m := range p.Msgs {
			if seen[m.Dev] {
				w.Violate("C11", "two ciphertexts for a device", "the accepted submission for %s has two for device %d", short(p.Dest), m.Dev)
			}
			seen[m.Dev] = true
		}
		for _, d := range sortedDevs(a) {
			if d.Dev != nil {
				x.puts[p] = append(x.puts[p], d)
			}
		}
		x.got[p] = map[*SDev]*Got{}
	}
	f.OnPeer = func(p *Peer, g *Got) {
		if x.got[g.Put] != nil {
			x.got[g.Put][p.SD] = g
		}
		if !p.Own {
			f.judgeOut(p, g)
			return
		}
		if g.Err != nil {
			w.Violate("C11", "own device cannot decrypt", "%s cannot decrypt a message of the client (type %d): %v", p.Name, g.Wire.Type, g.Err)
			return
		}
		s := g.C.GetSyncMessage().GetSent()
		if s == nil {
			return
		}
		w.Count("transcript")
		dm := s.GetMessage()
		o := f.outBy[dm.GetBody()]
		switch {
		case o == nil:
			w.Violate("C11", "foreign transcript", "%s got a transcript of %q, which was never sent", p.Name, trunc(dm.GetBody(), 60))
		case s.GetDestinationUuid() != o.Dest:
			w.Violate("C11", "transcript names another recipient", "the transcript of %q for %s names %q", o.Body, o.Dest, s.GetDestinationUuid())
		case s.GetTimestamp() != dm.GetTimestamp():
			w.Violate("C11", "transcript has another time", "the transcript of %q has timestamps %d and %d", o.Body, s.GetTimestamp(), dm.GetTimestamp())
		}
		k := fmt.Sprint(s.GetTimestamp(), "/", dm.GetBody())
		if x.synch[k] == nil {
			x.synch[k] = map[*Peer]int{}
		}
		x.synch[k][p]++
	}
	return x
}

// judge looks at a call that is over.
func (x *fanout) judge(o *outMsg, faults bool) {
	w, f := x.f.w, x.f
	w.Evals++
	if o.Op.Killed {
		return
	}
	if !o.Op.Done {
		w.Violate("C11", "call never returns", "%s has not returned", o.Op.Name)
		return
	}
	if o.Op.Err != nil {
		if !faults && o.changes == x.chg {
			w.Violate("C11", "send fails", "%s of %q failed without any fault of the recipient's requests: %v", o.Op.Name, o.Body, o.Op.Err)
		}
		return
	}
	var put *Put
	n := 0
	for _, p := range w.Srv.Puts {
		if !p.Accepted || p.Dest != o.Dest {
			continue
		}
		for _, g := range x.got[p] {
			if g.Body == o.Body {
				n++
				put = p
				break
			}
		}
	}
	if n != 1 {
		w.Violate("C11", "not accepted once", "%q was reported as sent; the service accepted it %d times", o.Body, n)
		return
	}
	for _, d := range x.puts[put] {
		if g := x.got[put][d]; g == nil || g.Err == nil && g.Body != o.Body {
			w.Violate("C11", "device left out", "%q was reported as sent, but device %d of %s did not get it", o.Body, d.ID, short(o.Dest))
			return
		}
	}
	if ts, ok := o.Op.Val.(uint64); ok && ts != put.TS {
		w.Violate("C11", "other timestamp reported", "%q was sent with timestamp %d, the call returned %d", o.Body, put.TS, ts)
	}
	if o.sync && !x.syncFaults(o) {
		k := fmt.Sprint(put.TS, "/", o.Body)
		for _, p := range f.peers {
			if !p.Own || p.away {
				continue
			}
			if w.Evals++; x.synch[k][p] != 1 {
				w.Violate("C11", "no transcript", "the service asked for transcripts of %q, %s got %d", o.Body, p.Name, x.synch[k][p])
				return
			}
		}
	}
}

// syncFaults: something went wrong with requests for the own account during
// the call, or its devices changed.
func (x *fanout) syncFaults(o *outMsg) bool { return x.f.w.Stats["sync_fault"] > o.faults0 }

func init() {
	register(&Profile{Prop: "C11",
		Rule:   "Recipients with up to four devices (and the user's own account with up to three others) gain, lose and reinstall devices between and during sends, from several threads, across restarts, with and without the service asking for transcripts. Every accepted submission must have one ciphertext per device; every send reported as successful must have been accepted once and be readable on every device the recipient had then; without faults of the recipient's requests every send must succeed, whatever happens to the transcript; a transcript that was asked for and met no fault must reach every own device once and describe the message.",
		Faults: "device lists out of date (409), reinstalled devices (410), failing HTTP exchanges for the recipient or for the transcript, garbage and refusals for the transcript, unusable keys of own devices, restarts, kills, concurrent sends",
		Drive: func(w *World) {
			f := msgWorld(w, "C11", 3)
			if f == nil {
				return
			}
			x := f.fanout()
			f.outProp = "C11"
			w.Srv.OnStale = func(dest string) { f.lostSessions(dest, "the service called the device stale") }
			if w.Chance(3, 4) {
				for i := w.N(3); i > 0; i-- {
					x.n++
					f.peers = append(f.peers, w.OwnDevice(1+x.n))
				}
				f.serve()
			}
			own := w.Node.UUID()
			// faults of one kind of requests
			plan := w.Weighted(4, 2, 3) // none, recipient, transcript
			ourBusiness := func(r *Req) bool {
				return len(r.Path) > 4 && (strings.Contains(r.Path, "/keys/"+own) || strings.Contains(r.Path, "/messages/"+own))
			}
			kinds := append([]string{"status_401", "status_404", "status_403"}, noGarble...)
			w.Net.Force = func(r *Req) string {
				if r.Method == "PUT" && strings.Contains(r.Path, "/v1/profile") || w.Calm {
					return ""
				}
				if plan == 2 && ourBusiness(r) && w.Chance(1, 2) {
					w.Count("sync_fault")
					k := kinds[w.N(len(kinds))]
					if !strings.Contains(r.Path, "/keys/") && w.Chance(1, 6) {
						return "garbled"
					}
					return k
				}
				if plan == 1 && !ourBusiness(r) && (strings.Contains(r.Path, "/keys/") || strings.Contains(r.Path, "/messages/")) && w.Chance(1, 6) {
					w.Stats["sync_fault"]++ // the answer may not tell to send transcripts
					return noGarble[w.N(len(noGarble))]
				}
				return ""
			}
			if plan == 2 && w.Chance(1, 3) {
				w.Srv.BundleMod = func(uuid string, dev uint32, v map[string]any) {
					if uuid == own && w.Chance(1, 2) {
						w.Count("sync_fault")
						w.Count("own_keys_unusable")
						switch w.N(4) {
						case 0:
							delete(v, "identityKey")
						case 1:
							v["devices"] = []any{}
						case 2:
							v["identityKey"] = b64n(ref.Ser(ref.GenKey(w.Rng).Pub))
						case 3:
							v["devices"].([]any)[0].(map[string]any)["signedPreKey"] = map[string]any{"keyId": 1}
						}
					}
				}
			}
			m := w.weights(mix{in: 2, burst: 1, fresh: 1, restart: 2, kill: 1, brk: 1, wait: 1})
			var ops []*outMsg
			send := func(p *Peer) {
				w.Srv.NeedsSync = w.Chance(1, 2)
				o := f.send(p)
				o.sync, o.faults0, o.changes = w.Srv.NeedsSync, w.Stats["sync_fault"], x.chg
				if w.Srv.NeedsSync {
					w.Count("transcript_asked_for")
				}
				ops = append(ops, o)
			}
			settle := func() bool {
				for _, o := range ops {
					o.Op.Wait(15 * time.Minute)
					x.judge(o, plan == 1)
				}
				ops = nil
				return len(w.Viol) == 0
			}
			for i, n := 0, 5+w.N(30); i < n && len(w.Viol) == 0; i++ {
				var all []*Peer // that are no own devices
				for _, p := range f.peers {
					if !p.Own && !p.away {
						all = append(all, p)
					}
				}
				p := all[w.N(len(all))]
				switch w.Weighted(6, 2, 4, 2) {
				case 0:
					send(p)
					if w.Chance(1, 3) { // meanwhile
						w.Sleep(time.Duration(w.N(300)) * time.Millisecond)
						x.change()
					}
					if !settle() {
						return
					}
				case 1:
					w.Srv.NeedsSync = w.Chance(1, 2)
					ns := w.Srv.NeedsSync
					for j := 2 + w.N(3); j > 0; j-- {
						o := f.send(all[w.N(len(all))])
						o.sync, o.faults0, o.changes = ns, w.Stats["sync_fault"], x.chg
						ops = append(ops, o)
					}
					w.Count("concurrent_sends")
					if !settle() {
						return
					}
				case 2:
					x.change()
				case 3:
					if !f.step(m) {
						return
					}
				}
			}
			if !settle() {
				return
			}
			w.Calm = true
			w.Srv.BundleMod = nil
			// and at the end
			for _, p := range f.peers {
				if !p.Own && !p.away && p.D.ID == 1 {
					o := f.send(p)
					o.faults0, o.changes = 1<<30, x.chg
					o.Op.Wait(10 * time.Minute)
					x.judge(o, false)
				}
			}
			if f.finish() {
				f.delivered()
			}
		}})
}

// change adds, removes or reinstalls a device.
func (x *fanout) change() {
	f, w := x.f, x.f.w
	p := f.peers[w.N(len(f.peers))]
	if p.away {
		return
	}
	x.chg++
	if p.Own {
		w.Stats["sync_fault"]++ // transcripts under way may miss it
	}
	switch w.N(3) {
	case 0:
		n := 0
		for _, q := range f.peers {
			if q.D.UUID == p.D.UUID && !q.away {
				n++
			}
		}
		if n > 3 {
			return
		}
		x.n++
		w.Count("device_added")
		id := 1 + x.n
		if w.Chance(1, 3) { // an id that was in use before
			id = 2 + uint32(w.N(3))
			if p.Acct.Devs[id] != nil {
				return
			}
		}
		w.Logf("device %d of %s is added", id, short(p.D.UUID))
		if p.Own {
			f.peers = append(f.peers, w.OwnDevice(id))
		} else {
			f.peers = append(f.peers, p.AddDevice(id))
		}
		f.serve()
	case 1:
		if p.D.ID == 1 {
			return
		}
		w.Count("device_removed")
		w.Logf("%s is removed", p.Name)
		delete(p.Acct.Devs, p.D.ID)
		p.away = true
		for _, s := range p.Sent {
			s.Excuse = "of a removed device"
		}
		for i, q := range f.peers {
			if q == p {
				f.peers = append(append([]*Peer{}, f.peers[:i]...), f.peers[i+1:]...)
				break
			}
		}
	case 2:
		w.Logf("%s is reinstalled", p.Name)
		p.reinstall()
		p.gone, p.dead, p.own = 0, map[int]bool{}, map[int]bool{}
		for _, s := range p.Sent {
			s.Excuse = "of an older installation"
		}
	}
}

var _ = sp.DataMessage_END_SESSION
var _ = textsecure.EndSessionFlag
