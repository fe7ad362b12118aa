package h

import (
	"bytes"
	"time"

	"vsim/ref"

	textsecure "github.com/signal-golang/textsecure"
)

// freshWorld is a world with a new, not registered installation.
func freshWorld(w *World, prop string) *Flow {
	w.Net.Lat = []time.Duration{20 * time.Millisecond, 60 * time.Millisecond, 400 * time.Millisecond}[w.N(3)]
	w.Srv.BigIDs = w.Chance(1, 3)
	w.Srv.EncBody = w.Weighted(3, 1, 1)
	w.Node = newNode(w, uint64(w.N(1<<30))<<20+3)
	if w.Chance(1, 3) {
		w.Node.Password = ""
	}
	w.Node.KeepSecrets = true
	w.installFresh()
	w.EdgeIDs = w.Chance(1, 3)
	w.preempt(w.Weighted(3, 2, 2, 1))
	f := newFlow(w, prop)
	f.serve()
	return f
}

// usable tells why the service could not hand out keys for the client.
func (w *World) usable() string {
	a := w.Node.Acct()
	if a == nil || a.Devs[1] == nil {
		return "the account has no device"
	}
	d := a.Devs[1]
	switch {
	case d.Identity == nil:
		return "no identity key is published"
	case d.Signed == nil || d.Signed.Bad != "":
		return "no signed prekey is published"
	case d.Last == nil || d.Last.Bad != "":
		return "no last-resort prekey is published"
	case len(d.PreKeys) == 0:
		return "no one-time prekeys are published"
	}
	id, e1 := ref.ParseKey(d.Identity)
	if _, e2 := ref.ParseKey(d.Signed.Pub); e1 != nil || e2 != nil {
		return "the published keys cannot be parsed"
	}
	if !ref.Verify(id, d.Signed.Pub, d.Signed.Sig) {
		return "the signature of the signed prekey does not verify"
	}
	return ""
}

// asSet is judged whenever the client presents itself as set up.
func (f *Flow) asSet(when string) bool {
	w := f.w
	w.Evals++
	if why := w.usable(); why != "" {
		w.Violate(f.prop, "set up without keys", "%s, but %s", when, why)
		return false
	}
	return true
}

// works judges a client that was set up: its identity is the published one and
// first messages of new peers arrive, as do answers. No fault is injected
// meanwhile.
func (f *Flow) works() bool {
	w := f.w
	if !f.asSet("Setup returned success") {
		return false
	}
	net, disk := w.Net, w.Disk
	w.Net, w.Disk = NetPlan{Lat: net.Lat}, DiskPlan{}
	defer func() { w.Net, w.Disk = net, disk }()
	d := w.Node.Acct().Devs[1]
	op := w.Node.Call("MyIdentityKey", func() (any, error) { return textsecure.MyIdentityKey(), nil })
	if op.Wait(time.Minute); op.Done {
		if k, _ := op.Val.([]byte); !bytes.Equal(k, d.Identity) {
			w.Violate(f.prop, "identity differs", "the published identity key is not the client's")
			return false
		}
	}
	w.Node.Listen()
	var sent []*Sent
	for i := 1 + w.N(3); i > 0; i-- {
		p := f.addPeer(w.Uniq("new"))
		if n := len(d.PreKeys); n > 0 {
			j := w.N(n)
			d.PreKeys[0], d.PreKeys[j] = d.PreKeys[j], d.PreKeys[0]
		}
		if p.Fresh(w.Chance(2, 3)) != nil {
			w.Violate(f.prop, "bundle refused", "a conforming peer refuses the published keys")
			return false
		}
		s := f.in(p)
		f.post(s)
		sent = append(sent, s)
	}
	if !w.Settle(10 * time.Minute) {
		w.Violate(f.prop, "cannot receive", "after Setup reported success the client does not take messages: %v", w.Node.LastErr)
		return false
	}
	w.Sleep(time.Second)
	for _, s := range sent {
		w.Evals++
		if s.Handed == 0 {
			w.Violate(f.prop, "first message unreadable", "a first message of a new peer with prekey %d was not handed over after Setup reported success", s.Info.PreKeyID)
			return false
		}
		o := f.send(s.Peer)
		o.Op.Wait(5 * time.Minute)
		if !o.Op.OK() || len(s.Peer.Got) == 0 {
			w.Violate(f.prop, "cannot send", "after Setup reported success a message cannot be sent: %v", o.Op.Err)
			return false
		}
	}
	w.Count("setup_judged")
	return len(w.Viol) == 0
}

// breakSetup draws what goes wrong during the next start.
func (f *Flow) breakSetup() {
	w := f.w
	w.Cray.Refuse, w.Cray.Fault, w.Cray.RegErr = nil, nil, ""
	w.Net, w.Disk = NetPlan{Lat: w.Net.Lat}, DiskPlan{}
	for i := 1 + w.N(2); i > 0; i-- {
		switch w.Weighted(2, 4, 4, 3, 2, 4, 2, 2) {
		case 0:
			w.S.KillStep = w.S.Steps + 1 + w.N(1+w.N(60000))
		case 1:
			w.Disk.KillAt = 1 + w.N(1+w.N(900))
			w.Disk.KillAfter = w.Chance(1, 2)
			w.Disk.seen = 0
		case 2:
			w.Net.Num, w.Net.Den, w.Net.Kinds = 1, 1+w.N(6), allHTTPFaults
		case 3:
			w.Disk.ErrNum, w.Disk.ErrDen = 1, []int{20, 100, 400}[w.N(3)]
			if w.Chance(1, 2) {
				w.Disk.Kinds = []string{"read", "open", "create", "write", "sync", "rename", "stat", "remove", "mkdir"}[w.N(9)]
				w.Disk.ErrDen = 1 + w.N(30)
			}
		case 4:
			w.Disk.seen, w.Disk.FullAt = 0, 1+w.N(800)
		case 5: // exactly one request fails
			n, k := 1+w.N(8), allHTTPFaults[w.N(len(allHTTPFaults))]
			w.Net.Force = func(r *Req) string {
				if n--; n == 0 {
					return k
				}
				return ""
			}
		case 6:
			k := []string{"drop", "die", "garble", "notype", "noresponse", "badmsg", "reqback"}[w.N(7)]
			n := 1 + w.N(2)
			w.Cray.Fault = func(q *CrayReq) string {
				if n--; n == 0 {
					return k
				}
				return ""
			}
		case 7:
			switch w.N(3) {
			case 0:
				w.Cray.RegErr = "zero"
			case 1:
				w.Cray.RegErr = "error"
			case 2:
				w.Cray.Refuse = func() bool { return !w.Calm && w.Chance(3, 4) }
			}
		}
	}
}

func (f *Flow) mendSetup() {
	w := f.w
	w.Cray.Refuse, w.Cray.Fault, w.Cray.RegErr = nil, nil, ""
	w.Net, w.Disk = NetPlan{Lat: w.Net.Lat}, DiskPlan{}
	w.S.KillStep = 0
}

func init() {
	register(&Profile{Prop: "C14", NoBase: true, Horizon: 24 * time.Hour,
		Rule:   "A new installation (encrypted or clear storage) is started again and again while its registration is killed or loses power at random statements and disk operations, its disk fails or fills up, requests to the service fail in 14 ways, and the helper process refuses, drops, garbles or loses connections. Whenever RegistrationDone is called or Setup succeeds the service must hold an identity key, a verifying signed prekey, one-time and last-resort prekeys; after a success the identity must be the client's own, first messages of new peers on random one-time and on last-resort prekeys must be handed over and answers arrive; later starts must not register again; once faults stop, a start must succeed.",
		Faults: "kill/power loss at random statements and disk operations, disk errors, full disk, HTTP faults of 14 kinds, helper faults, refused registration, ids drawn at the ends of their ranges",
		Drive: func(w *World) {
			f := freshWorld(w, "C14")
			w.Node.OnReg = func() { f.asSet("RegistrationDone was called") }
			done := false
			regs := 0
			var id []byte
			after := func() bool {
				a := w.Node.Acct()
				if !f.works() {
					return false
				}
				if done && (w.Srv.Registered != regs || a.Devs[1].Uploads != 1) {
					w.Violate("C14", "registered again", "a set up client registered again at a later start")
					return false
				}
				if done && !bytes.Equal(id, a.Devs[1].Identity) {
					w.Violate("C14", "identity changed", "a set up client has another identity after a later start")
					return false
				}
				done, regs, id = true, w.Srv.Registered, a.Devs[1].Identity
				return true
			}
			for i, n := 0, 1+w.N(6); i < n; i++ {
				f.breakSetup()
				op := w.Node.Boot()
				op.Wait(time.Hour)
				w.S.KillStep, w.Disk.KillAt = 0, 0
				switch {
				case op.Killed:
					w.Count("killed_during_setup")
				case !op.Done:
					w.Violate("C14", "setup hangs", "Setup has not returned after an hour")
				case op.Err != nil:
					w.Count("setup_failed")
				default:
					w.Count("setup_succeeded")
					if len(w.Viol) > 0 || !after() {
						return
					}
				}
				if len(w.Viol) > 0 {
					return
				}
				if w.Node.Alive() {
					w.Node.Kill()
				}
				if w.Chance(1, 3) {
					f.afterCrash(nil, "C14", true)
				}
			}
			f.mendSetup()
			w.Calm = true
			for i := 0; i < 1+w.N(2); i++ {
				op := w.Node.Boot()
				op.Wait(time.Hour)
				if !op.OK() {
					w.Violate("C14", "setup does not recover", "without any further fault Setup ends with done %v, error %v", op.Done, op.Err)
					return
				}
				if !after() {
					return
				}
				w.Node.Kill()
			}
		}})
}
