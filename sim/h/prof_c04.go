package h

import (
	"fmt"
	"strings"
	"time"

	"vsim/ref"

	"github.com/golang/protobuf/proto"
	textsecure "github.com/signal-golang/textsecure"
	sp "github.com/signal-golang/textsecure/protobuf"
)

// pins is the oracle of C04: which identity keys the client has accepted for
// each account, by handing over a message of theirs or by encrypting to them.
type pins struct {
	f    *Flow
	acc  map[string][32]byte
	how  map[string]string
	mal  []*ref.Device // attackers in the name of accounts
	body map[string]*ref.Device
}

func (f *Flow) newPins() *pins {
	x := &pins{f: f, acc: map[string][32]byte{}, how: map[string]string{}, body: map[string]*ref.Device{}}
	x.acc[f.w.Node.UUID()] = f.w.image().Identity.Pub
	x.how[f.w.Node.UUID()] = "the account's own"
	return x
}

// accept records that the client accepted the key for the account.
func (x *pins) accept(uuid string, key [32]byte, how string) {
	w := x.f.w
	w.Evals++
	if k, ok := x.acc[uuid]; !ok {
		x.acc[uuid], x.how[uuid] = key, how
	} else if k != key {
		w.Violate("C04", "identity replaced", "for %s the client had accepted identity key %x.. (%s) and now accepts %x.. (%s)", short(uuid), k[:4], x.how[uuid], key[:4], how)
	}
}

// mallory is an attacker in the name of the account.
func (x *pins) mallory(uuid string, dev uint32) *ref.Device {
	for _, d := range x.mal {
		if d.UUID == uuid && d.ID == dev {
			return d
		}
	}
	w := x.f.w
	d := ref.NewDevice(uuid, dev, ref.GenKey(w.Rng), w.Rng)
	d.AddPreKeys(1, 4)
	x.mal = append(x.mal, d)
	return d
}

// submit lets the attackers try every ciphertext meant for their victims.
func (x *pins) submit(p *Put) {
	for _, m := range p.Msgs {
		for _, d := range x.mal {
			if d.UUID != p.Dest || d.ID != m.Dev {
				continue
			}
			if _, _, err := d.Decrypt(x.f.w.nodeAddr(), m.Type, m.Raw); err == nil {
				x.accept(p.Dest, d.Identity.Pub, "a message was encrypted to it")
			}
		}
	}
}

// attackIn delivers a session start under another identity key.
func (x *pins) attackIn(p *Peer) {
	w := x.f.w
	uuid, dev := p.D.UUID, p.D.ID
	if w.Chance(1, 5) {
		uuid, dev = w.Node.UUID(), uint32(2+w.N(2))
	}
	d := x.mallory(uuid, dev)
	if !d.HasSession(w.nodeAddr()) || w.Chance(1, 2) {
		b := w.Srv.takeBundle(w.Node.UUID(), 1, w.Chance(1, 2))
		if b == nil || d.Start(w.nodeAddr(), b) != nil {
			return
		}
	}
	body := w.Uniq("mallory")
	x.body[body] = d
	ts := p.ms()
	c := &sp.Content{DataMessage: &sp.DataMessage{Body: &body, Timestamp: &ts}}
	raw, err := proto.Marshal(c)
	must(err)
	typ, msg, _, err := d.Encrypt(w.nodeAddr(), ref.Pad(raw))
	if err != nil {
		return
	}
	w.Count("foreign_identity_message")
	w.Srv.Enqueue(w.item(&Env{Type: typ, From: uuid, Dev: dev, TS: ts, ServerTS: ts, Content: msg}, body))
}

// bundle replaces parts of the key bundles the service hands out.
func (x *pins) bundle(num, den int) {
	w := x.f.w
	w.Srv.BundleMod = func(dest string, dev uint32, v map[string]any) {
		if !w.Chance(num, den) || w.Calm {
			return
		}
		d := x.mallory(dest, dev)
		item := v["devices"].([]any)[0].(map[string]any)
		spk := map[string]any{"keyId": d.SignedID, "publicKey": b64n(ref.Ser(d.Signed[d.SignedID].Pub)), "signature": b64n(d.SigOf[d.SignedID])}
		w.Count("foreign_identity_bundle")
		switch w.N(4) {
		case 0, 1: // everything the attacker's
			v["identityKey"] = b64n(ref.Ser(d.Identity.Pub))
			item["signedPreKey"] = spk
			item["preKey"] = map[string]any{"keyId": 1, "publicKey": b64n(ref.Ser(d.PreKeys[1].Pub))}
			if w.Chance(1, 3) {
				delete(item, "preKey")
			}
			item["registrationId"] = d.RegID
		case 2: // the attacker's signed prekey under the genuine identity
			item["signedPreKey"] = spk
		case 3: // the attacker's identity over the genuine signed prekey
			v["identityKey"] = b64n(ref.Ser(d.Identity.Pub))
		}
	}
}

// check asks the client for the remembered keys.
func (x *pins) check(faults bool) {
	w := x.f.w
	for _, p := range x.f.peers {
		u := p.D.UUID
		want, ok := x.acc[u]
		if !ok || p.Own {
			continue
		}
		op := w.Node.Call("ContactIdentityKey", func() (any, error) { return textsecure.ContactIdentityKey(u) })
		if !op.Wait(time.Minute) || !op.Done {
			continue
		}
		w.Evals++
		if op.Err != nil {
			if !faults {
				w.Violate("C04", "identity forgotten", "ContactIdentityKey(%s): %v, although a key had been accepted (%s)", short(u), op.Err, x.how[u])
			}
			continue
		}
		if k, _ := op.Val.([]byte); len(k) != 33 || [32]byte(k[1:]) != want {
			w.Violate("C04", "identity replaced", "ContactIdentityKey(%s) is %x, accepted was %x (%s)", short(u), k, want, x.how[u])
		}
	}
}

func init() {
	register(&Profile{Prop: "C04",
		Rule:   "A registered client talks with 1-3 accounts (one or two devices) and its own second device while attackers start sessions in their names under other identity keys and the service hands out bundles with foreign identities, foreign signed prekeys or foreign signatures, on first contact, after session ends, device changes and stale devices; disk errors hit the identity records, the client is killed, loses power and restarts. The set of identity keys accepted for an account (message handed over, ciphertext the key's owner can read, remembered key) must never have two members.",
		Faults: "foreign identities in messages and key bundles, invalid signatures, disk errors on identity records, kill, power loss, concurrent sends and receives, device reinstalls",
		Drive: func(w *World) {
			f := msgWorld(w, "C04", 3)
			if f == nil {
				return
			}
			x := f.newPins()
			if w.Chance(1, 2) {
				f.peers = append(f.peers, w.OwnDevice(2))
				f.serve()
				w.Srv.NeedsSync = w.Chance(1, 2)
			}
			f.noJudge = true
			f.OnHand = func(h *Handed, s *Sent) {
				if d := x.body[h.Body]; d != nil {
					x.accept(d.UUID, d.Identity.Pub, "a message of its owner was handed over")
				} else if s != nil {
					x.accept(s.Peer.D.UUID, s.Peer.D.Identity.Pub, "a message of its owner was handed over")
				}
			}
			f.OnPeer = func(p *Peer, g *Got) {
				if g.Err == nil {
					x.accept(p.D.UUID, p.D.Identity.Pub, "a message was encrypted to it")
				}
			}
			w.Srv.OnSubmit = x.submit
			m := w.weights(mix{in: 4, burst: 1, late: 1, out: 6, par: 4, fresh: 2, cross: 2, endIn: 1, endOut: 2, wait: 3})
			x.bundle(w.Weighted(0, 1, 1), 2)
			plan := DiskPlan{}
			if w.Chance(1, 2) {
				plan = DiskPlan{ErrNum: 1, ErrDen: []int{2, 6, 30}[w.N(3)], Only: []string{"identity/", ".storage"}[w.N(2)]}
				if w.Chance(1, 2) {
					plan.Kinds = []string{"read", "open", "create", "write", "sync", "rename", "stat"}[w.N(7)]
				}
			}
			for i, n := 0, 2+w.N(6); i < n; i++ {
				w.Disk = plan
				for j := w.N(8); j > 0; j-- {
					p := f.peers[w.N(len(f.peers))]
					switch w.Weighted(4, 4, 1, 1) {
					case 0:
						if !f.step(m) {
							return
						}
					case 1:
						x.attackIn(p)
					case 2: // the device is reinstalled, with the same identity
						if !p.Own {
							p.reinstall()
						}
					case 3: // a sync message or a send must not open the own account
						f.send(p)
						x.attackIn(p)
					}
					if len(w.Viol) > 0 {
						return
					}
				}
				w.Disk = DiskPlan{}
				if w.Chance(1, 3) {
					x.check(plan.ErrNum > 0)
				}
				if w.Chance(1, 2) {
					f.crash(nil, "C04", w.Weighted(2, 2, 2), w.Chance(1, 2))
					if len(w.Viol) > 0 || !f.start() {
						return
					}
					x.check(false)
				}
			}
			f.finish()
			w.Srv.BundleMod = nil
			for _, p := range f.peers {
				x.attackIn(p)
			}
			w.Settle(10 * time.Minute)
			for _, p := range f.peers {
				f.send(p).Op.Wait(5 * time.Minute)
			}
			x.check(false)
			w.Stats["accounts_pinned"] += len(x.acc) - 1
		}})
}

// reinstall gives the peer's device new keys under the same identity.
func (p *Peer) reinstall() {
	w := p.w
	w.Count("device_reinstalled")
	d := ref.NewDevice(p.D.UUID, p.D.ID, p.D.Identity, w.Rng)
	if p.regs == nil {
		p.regs = map[uint32]bool{p.D.RegID: true}
	}
	for p.regs[d.RegID] { // the service could not tell
		d.RegID = d.RegID%16380 + 1
	}
	p.regs[d.RegID] = true
	d.AddPreKeys(1, 4)
	p.D = d
	p.SD.Dev, p.SD.RegID, p.SD.PreKeys = d, d.RegID, nil
	p.forgot = append(p.forgot, p.Sent...)
}

var _ = fmt.Sprint
var _ = strings.Repeat
