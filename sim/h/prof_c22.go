package h

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
	"time"
)

// secrecy looks in the storage for what delivered messages were encrypted with.
type secrecy struct {
	f    *Flow
	x    *privs
	read []*Got
	hand []*Sent
}

func (f *Flow) secrecy() *secrecy {
	z := &secrecy{f: f, x: f.w.privs()}
	f.OnHand = func(h *Handed, s *Sent) {
		if s == nil {
			return
		}
		if s.Handed > 0 {
			f.w.Violate("C22", "decrypted again", "%s (type %d, session %d) was decrypted again %s after it was handed over", s.ID, s.Typ, s.Info.Session, time.Since(s.HandedAt))
			return
		}
		z.hand = append(z.hand, s)
		z.look(z.hand[len(z.hand)-1:], nil, "when it is handed over")
	}
	f.OnPeer = func(p *Peer, g *Got) {
		f.judgeOut(p, g)
		if g.Err == nil {
			z.read = append(z.read, g)
		}
	}
	return z
}

// finder looks for many byte strings at once.
type finder struct {
	first [65536]bool
	by    map[uint64][]int
	keys  [][]byte
	what  []func() string
}

func (x *finder) add(k []byte, what func() string) {
	if len(k) < 8 {
		return
	}
	x.first[binary.LittleEndian.Uint16(k)] = true
	h := binary.LittleEndian.Uint64(k)
	for _, i := range x.by[h] {
		if bytes.Equal(x.keys[i], k) {
			return
		}
	}
	x.by[h] = append(x.by[h], len(x.keys))
	x.keys, x.what = append(x.keys, k), append(x.what, what)
}

// in returns the number of the first string that occurs in b, or -1.
func (x *finder) in(b []byte) int {
	for i := 0; i+8 <= len(b); i++ {
		if x.first[binary.LittleEndian.Uint16(b[i:])] {
			for _, j := range x.by[binary.LittleEndian.Uint64(b[i:])] {
				if bytes.HasPrefix(b[i:], x.keys[j]) {
					return j
				}
			}
		}
	}
	return -1
}

func (z *secrecy) look(hand []*Sent, read []*Got, when string) {
	w := z.f.w
	if w.Node.Password != "" || len(w.Viol) > 0 {
		return
	}
	x := &finder{by: map[uint64][]int{}}
	for _, s := range hand {
		add := func(what string, k []byte) {
			x.add(k, func() string {
				return fmt.Sprintf("%s of the received %s (session %d, counter %d)", what, s.ID, s.Info.Session, s.Info.Counter)
			})
		}
		add("cipher key", s.Info.Keys.Cipher)
		add("MAC key", s.Info.Keys.Mac)
		for _, o := range s.Peer.Sent {
			if o.Info.Session == s.Info.Session && o.Info.Ratchet == s.Info.Ratchet && o.Info.Counter <= s.Info.Counter {
				add("chain key", o.Info.ChainKey)
			}
		}
		for _, r := range s.Info.Roots[:max(0, len(s.Info.Roots)-1)] {
			add("root key", r)
		}
	}
	for _, g := range read {
		add := func(what string, k []byte) {
			x.add(k, func() string {
				return fmt.Sprintf("%s of %q, sent to device %d of %s (session %d, counter %d),", what, g.Body, g.Dev.ID, short(g.Put.Dest), g.Info.Session, g.Info.Counter)
			})
		}
		add("cipher key", g.Info.Keys.Cipher)
		add("MAC key", g.Info.Keys.Mac)
		add("chain key", g.Info.ChainKey)
		for _, r := range g.Info.Roots[:max(0, len(g.Info.Roots)-2)] {
			add("root key", r)
		}
		if g.Info.PreKey {
			if p := z.x.find(append([]byte{5}, g.Info.BaseKey[:]...)); p != nil {
				w.Count("base_key_searched")
				c := append([]byte{}, p...)
				c[0] &= 248
				c[31] = c[31]&127 | 64
				add("private half of the base key", c)
				add("private half of the base key", p)
			}
		}
	}
	w.Evals += len(x.keys)
	w.Stats["keys_searched"] += len(x.keys)
	files := w.FS.Files()
	for _, n := range sortedKeys(files) {
		if !strings.HasPrefix(n, storeDir) {
			continue
		}
		if i := x.in(files[n]); i >= 0 {
			k := "received"
			if i >= 0 && !strings.Contains(x.what[i](), "of the received") {
				k = "sent"
			}
			w.Violate("C22", "key of a "+k+" message kept", "%s holds the %s %s", n, x.what[i](), when)
			return
		}
	}
}

// stolen gives a copy of the storage and everything the service ever
// delivered to somebody else's client.
func (z *secrecy) stolen() bool {
	f, w := z.f, z.f.w
	w.Count("storage_stolen")
	f.died()
	w.Node.Kill()
	if !f.start() {
		return false
	}
	w.Settle(10 * time.Minute)
	list := append([]*Sent{}, z.hand...)
	if w.Chance(1, 3) {
		for i := range list {
			j := i + w.N(len(list)-i)
			list[i], list[j] = list[j], list[i]
		}
	}
	for _, s := range list {
		w.Count("old_message_tried")
		it := w.item(s.Env(), s.ID+" recorded")
		it.Of = s
		w.Srv.Enqueue(it)
	}
	w.Settle(30 * time.Minute)
	return len(w.Viol) == 0
}

func init() {
	register(&Profile{Prop: "C22",
		Rule:   "Messages in both directions, out of order, repeated and lost, over many sessions, ended and restarted, with kills at any disk operation. Whenever a message is handed over, and at quiet moments for all of them, the clear storage (every file, also temporary ones) is searched for its cipher and MAC key, the chain keys from which they could be derived, the root keys and the client's private base keys, as known from the independent peers that made or read the messages. At the end (also with encrypted storage) everything ever delivered is given once more to a client started from the storage, which must not decrypt any of it.",
		Faults: "kill at any disk operation or step, message loss, duplication and reordering, broken connections, failing HTTP exchanges, disk errors",
		Drive: func(w *World) {
			w.UseVariant(w.Chance(5, 6))
			f := msgWorld(w, "C22", 3)
			if f == nil {
				return
			}
			f.outProp = "C02"
			w.Node.KeepSecrets = true
			z := f.secrecy()
			m := w.weights(mix{in: 4, burst: 3, late: 2, dup: 1, out: 4, par: 1, fresh: 2, cross: 2, endIn: 1, endOut: 1, brk: 1, restart: 1, kill: 2, noack: 1, hold: 1, wait: 2, deep: 1})
			for i, n := 0, 5+w.N(60); i < n; i++ {
				if !f.step(m) {
					return
				}
				if w.Chance(1, 12) && w.Settle(5*time.Minute) && w.Node.Alive() {
					z.look(z.hand, z.read, "later")
				}
			}
			if !f.finish() {
				return
			}
			z.look(z.hand, z.read, "at the end")
			if z.stolen() {
				z.look(z.hand, z.read, "after all was tried again")
			}
		}})
}
