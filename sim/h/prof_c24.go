package h

import (
	"bytes"
	"crypto/hmac"
	"encoding/base64"
	"fmt"
	"strings"
	"time"

	"github.com/golang/protobuf/proto"
	textsecure "github.com/signal-golang/textsecure"
	sp "github.com/signal-golang/textsecure/protobuf"

	"vsim/ref"
)

const codeLife = 10 * time.Minute

// newDev is a device that waits to be linked.
type newDev struct {
	id    string
	key   ref.KeyPair
	seen  int // provisioning messages looked at
	got   []*sp.ProvisionMessage
	slow  time.Duration
	gives bool // it never registers
}

func (d *newDev) pub() string {
	return base64.RawStdEncoding.EncodeToString(append([]byte{5}, d.key.Pub[:]...))
}

type linking struct {
	f    *Flow
	devs []*newDev
	n    int
	next uint32
	list [][2]any // moment, what the service held
	eph  map[string]bool
	gone map[string]time.Time // until when a device was gone
}

var never = time.Unix(1<<40, 0)

// open reads a provisioning message as the new device does.
func (d *newDev) open(b []byte) (*sp.ProvisionMessage, []byte, error) {
	e := &sp.ProvisionEnvelope{}
	if err := proto.Unmarshal(b, e); err != nil {
		return nil, nil, err
	}
	their, err := ref.ParseKey(e.GetPublicKey())
	if err != nil {
		return nil, nil, err
	}
	k := ref.HKDF(ref.DH(d.key.Priv, their), make([]byte, 32), "TextSecure Provisioning Message", 64)
	body := e.GetBody()
	if len(body) < 1+16+16+32 || body[0] != 1 {
		return nil, nil, fmt.Errorf("body of %d bytes, version %v", len(body), body[:min(1, len(body))])
	}
	n := len(body) - 32
	if !hmac.Equal(ref.HMAC(k[32:], body[:n]), body[n:]) {
		return nil, nil, fmt.Errorf("wrong MAC")
	}
	pt, err := ref.CBCDecrypt(k[:32], body[1:17], body[17:n])
	if err != nil {
		return nil, nil, err
	}
	m := &sp.ProvisionMessage{}
	return m, e.GetPublicKey(), proto.Unmarshal(pt, m)
}

func (x *linking) dev() *newDev {
	w := x.f.w
	x.n++
	d := &newDev{id: w.newUUID(), key: ref.GenKey(w.Rng), slow: time.Duration(w.N(15000)) * time.Millisecond, gives: w.Chance(1, 4)}
	if w.Chance(1, 4) {
		d.slow = time.Duration(w.N(12)) * time.Minute
	}
	x.devs = append(x.devs, d)
	w.Go("newdev", func() {
		for len(w.Viol) == 0 && !w.Calm {
			for d.seen < len(w.Srv.Prov) {
				p := w.Srv.Prov[d.seen]
				d.seen++
				if p.ID == d.id {
					x.arrived(d, p)
				}
			}
			w.Sleep(50 * time.Millisecond)
		}
	})
	return d
}

// arrived judges a provisioning message at the new device.
func (x *linking) arrived(d *newDev, p *ProvMsg) {
	w := x.f.w
	w.Evals++
	w.Count("provisioned")
	bad := func(class, f string, a ...any) {
		w.Violate("C24", class, "the new device %s got a provisioning message: "+f, append([]any{d.id[:8]}, a...)...)
	}
	m, eph, err := d.open(p.Body)
	if err != nil {
		bad("cannot be opened", "%v", err)
		return
	}
	if x.eph[string(eph)] {
		bad("key used twice", "its ephemeral key was used before")
		return
	}
	x.eph[string(eph)] = true
	own := w.image().Identity
	var priv [32]byte
	copy(priv[:], m.GetAciIdentityKeyPrivate())
	switch {
	case !bytes.Equal(m.GetAciIdentityKeyPublic(), append([]byte{5}, own.Pub[:]...)):
		bad("other identity", "the public identity key is %x", m.GetAciIdentityKeyPublic())
	case len(m.GetAciIdentityKeyPrivate()) != 32 || !bytes.Equal(ref.DH(priv, basePoint), own.Pub[:]):
		bad("other identity", "the private identity key of %d bytes does not belong to the public one", len(m.GetAciIdentityKeyPrivate()))
	case m.GetAci() != w.Node.UUID():
		bad("other account", "the account id is %q", m.GetAci())
	case m.GetNumber() != w.Node.Tel:
		bad("other account", "the number is %q", m.GetNumber())
	}
	c := w.Srv.ProvCodes[m.GetProvisioningCode()]
	switch {
	case c == nil:
		bad("dead code", "the code %q was never issued", m.GetProvisioningCode())
	case c.Used:
		bad("dead code", "the code %s was used before", c.Code)
	case p.At.Sub(c.Issued) > codeLife:
		bad("dead code", "the code %s was issued %v ago", c.Code, p.At.Sub(c.Issued))
	}
	if len(w.Viol) > 0 || d.gives {
		return
	}
	d.got = append(d.got, m)
	use := func() { // the device registers with the code
		if time.Since(c.Issued) > codeLife || c.Used {
			w.Count("code_expired")
			return
		}
		c.Used = true
		x.next++
		w.Node.Acct().Devs[x.next] = &SDev{ID: x.next, Name: w.Uniq("device"), Created: uint64(vnow().UnixMilli())}
		x.held()
		w.Count("device_linked")
		w.Logf("service: device %d registered with code %s", x.next, c.Code)
	}
	if d.slow < 100*time.Millisecond {
		use()
	} else {
		w.Go("register", func() { w.Sleep(d.slow); use() })
	}
}

var basePoint = [32]byte{9}

// held notes what the service's list of devices is now.
func (x *linking) held() {
	x.list = append(x.list, [2]any{time.Now(), x.text(nil)})
}

func (x *linking) text(l []textsecure.DeviceInfo) string {
	var s []string
	if l == nil {
		for _, d := range sortedDevs(x.f.w.Node.Acct()) {
			s = append(s, fmt.Sprintf("%d/%s/%d", d.ID, d.Name, d.Created))
		}
	}
	for _, d := range l {
		s = append(s, fmt.Sprintf("%d/%s/%d", d.ID, d.Name, d.Created))
	}
	return strings.Join(s, " ")
}

// wasHeld tells whether the list was the service's at some time since.
func (x *linking) wasHeld(s string, since time.Time) bool {
	for i, e := range x.list {
		if e[1] == s && (i+1 == len(x.list) || !x.list[i+1][0].(time.Time).Before(since)) {
			return true
		}
	}
	return false
}

// oddKey is something that is no usable public key.
func (x *linking) oddKey() string {
	w := x.f.w
	k := ref.GenKey(w.Rng).Pub
	enc := func(b []byte) string {
		if w.Chance(1, 2) {
			return base64.StdEncoding.EncodeToString(b)
		}
		return base64.RawStdEncoding.EncodeToString(b)
	}
	switch w.N(9) {
	case 0:
		return ""
	case 1:
		return enc(k[:])
	case 2:
		return enc(append([]byte{6}, k[:]...))
	case 3:
		return enc(append([]byte{5}, k[:w.N(32)]...))
	case 4:
		return enc(append(append([]byte{5}, k[:]...), w.RandBytes(1+w.N(3))...))
	case 5:
		return "!" + enc(append([]byte{5}, k[:]...))
	case 6: // everybody knows the shared secret
		return enc(append([]byte{5}, make([]byte, 32)...))
	case 7:
		b := make([]byte, 33)
		b[0], b[1] = 5, 1
		return enc(b)
	}
	return string(w.RandBytes(w.N(60)))
}

// badCode is a wrong answer to the request for a code.
func (x *linking) badCode() func(r *Req) *Resp {
	w := x.f.w
	left := 1 + w.N(2)
	return func(r *Req) *Resp {
		if left > 0 && r.Method == "GET" && (r.Path == "/v1/devices" || r.Path == "/v1/devices/") {
			left--
			w.Count("bad_list_answer")
			switch w.N(5) {
			case 0:
				return jsonStatus([]int{401, 403, 413, 429, 500, 503}[w.N(6)], map[string]any{"devices": []any{}})
			case 1:
				return jsonResp(map[string]any{})
			case 2:
				return jsonResp(nil)
			case 3:
				return jsonResp(map[string]any{"devices": nil})
			}
			return &Resp{Status: 200, Body: []byte(`{"devices":[{"id":1,"name":"x"}`)}
		}
		if r.Path != textsecureCodePath || left == 0 {
			return nil
		}
		left--
		w.Count("bad_code_answer")
		switch w.N(9) {
		case 0:
			return &Resp{Status: []int{401, 403, 411, 413, 429, 500, 502, 503}[w.N(8)], Body: []byte(`{"verificationCode":"123456"}`)}
		case 1:
			return &Resp{Status: []int{403, 411, 413, 429, 503}[w.N(5)]}
		case 2:
			return jsonResp(map[string]any{})
		case 3:
			return jsonResp(nil)
		case 4:
			return jsonResp(map[string]any{"verificationCode": ""})
		case 5:
			return jsonResp(map[string]any{"verificationCode": 123456})
		case 6:
			return &Resp{Status: 200, Body: []byte("<html></html>")}
		case 7:
			return jsonResp([]any{})
		}
		return jsonResp(map[string]any{"verificationCode": nil})
	}
}

func jsonStatus(status int, v any) *Resp {
	r := jsonResp(v)
	r.Status = status
	return r
}

const textsecureCodePath = "/v1/devices/provisioning/code"

// puts is what the service accepted for an address since the n-th message.
func (x *linking) puts(id string, n int) int {
	c := 0
	for _, p := range x.f.w.Srv.Prov[n:] {
		if p.ID == id {
			c++
		}
	}
	return c
}

// link links a device, and judges what the call says.
func (x *linking) link(d *newDev, clean func() bool) {
	w := x.f.w
	key, id, odd := d.pub(), d.id, false
	if w.Chance(1, 4) {
		key += strings.Repeat("=", (4-len(key)%4)%4)
	}
	if w.Chance(1, 6) {
		odd = true
		if w.Chance(1, 2) {
			key, id = x.oddKey(), w.newUUID()
		} else {
			id = []string{"", "nobody", "%zz", "a/b", "../provisioning", "\x7f", " ", "é", w.newUUID()}[w.N(9)]
		}
		if strings.TrimRight(key, "=") == d.pub() {
			w.Srv.DevGone[id] = true
		}
		w.Count("bad_input")
	}
	gone := w.Chance(1, 8)
	if gone {
		w.Srv.DevGone[d.id] = true
		x.gone[d.id] = never
	}
	from := time.Now()
	n := len(w.Srv.Prov)
	what := "AddNewLinkedDevice"
	how := w.N(3)
	op := w.Node.Call(what, func() (any, error) {
		if how > 0 {
			return nil, textsecure.AddNewLinkedDevice(id, key)
		}
		c, err := textsecure.NewDeviceVerificationCode()
		if err != nil {
			return nil, err
		}
		if w.Srv.ProvCodes[c] == nil {
			w.Violate("C24", "dead code", "NewDeviceVerificationCode returned %q, which the service never issued", c)
		}
		return nil, textsecure.AddDevice(id, key, c)
	})
	judge := func() {
		op.Wait(10 * time.Minute)
		if op.Killed || len(w.Viol) > 0 {
			return
		}
		w.Evals++
		got := x.puts(d.id, n)
		switch {
		case !op.Done:
			w.Violate("C24", "no end", "%s has not returned after ten minutes", what)
		case op.Err == nil && odd:
			w.Violate("C24", "bad input accepted", "%s succeeded for the address %q and the key %q", what, id, key)
		case op.Err == nil && got == 0:
			w.Violate("C24", "failure not reported", "%s succeeded, but the service took no message for the device (gone: %v)", what, gone)
		case op.Err != nil && !odd && !x.gone[d.id].After(from) && clean():
			w.Violate("C24", "fails without faults", "%s: %v", what, op.Err)
		case op.Err == nil:
			w.Count("link_ok")
		default:
			w.Count("link_failed")
		}
	}
	if w.Chance(2, 3) {
		judge()
	} else {
		w.Go("judge", judge)
	}
	if gone && w.Chance(1, 2) {
		w.Go("back", func() {
			op.Wait(10 * time.Minute)
			w.Sleep(time.Duration(w.N(30)) * time.Second)
			delete(w.Srv.DevGone, d.id)
			x.gone[d.id] = time.Now()
		})
	}
}

func init() {
	register(&Profile{Prop: "C24", Horizon: 48 * time.Hour,
		Rule:   "A registered client links 1-12 simulated devices, one after the other and several at once, seconds to an hour apart, also again for a device that was linked or failed before, with the combined and the separate calls; devices register with their code at once, later, too late or never, and go away. The service refuses codes, answers without one, with wrong JSON or error pages, HTTP exchanges fail in 13 ways, addresses and keys are malformed or weak, the client restarts. Every provisioning message must open with exactly the waiting device's key, under a fresh ephemeral key, and carry the account's identity key pair, id and number and a code that was issued, is younger than ten minutes and was not used; success must mean that the service took the message; malformed input and failures must be errors; without faults linking must succeed. Lists of devices must be what the service held during the call, and unlinked devices must be gone, or the call must fail.",
		Faults: "refused, missing and malformed codes, HTTP faults of 13 kinds, malformed and weak keys, unknown addresses, devices that go away, restarts and kills",
		Drive: func(w *World) {
			w.swarm()
			f := newFlow(w, "C24")
			if !f.start() {
				return
			}
			x := &linking{f: f, eph: map[string]bool{}, gone: map[string]time.Time{}, next: 1}
			x.held()
			var kinds []string
			for _, k := range append([]string{"status_401", "status_403", "status_404"}, allHTTPFaults...) {
				if k != "garbled" { // a changed digit of a code cannot be noticed without TLS
					kinds = append(kinds, k)
				}
			}
			calmSince, noisy := 0, false
			for i := 1 + w.N(12); i > 0 && len(w.Viol) == 0; i-- {
				w.Net.Num, w.Srv.Hook = 0, nil
				was := noisy
				noisy = w.Chance(1, 2)
				if noisy || was {
					calmSince++
				}
				if noisy {
					if w.Chance(1, 2) {
						w.Srv.Hook = x.badCode()
					} else {
						w.Net.Num, w.Net.Den, w.Net.Kinds = 1, 1+w.N(3), kinds
						w.Net.Match = func(r *Req) bool {
							return strings.Contains(r.Path, "/v1/devices") || strings.Contains(r.Path, "/v1/provisioning")
						}
					}
				}
				mine := calmSince
				quiet := !noisy
				clean := func() bool { return quiet && mine == calmSince }
				switch w.Weighted(6, 2, 1, 1) {
				case 0:
					for j := 1 + w.Weighted(4, 1, 1); j > 0; j-- {
						d := (*newDev)(nil)
						if len(x.devs) > 0 && w.Chance(1, 3) {
							d = x.devs[w.N(len(x.devs))]
							if w.Srv.DevGone[d.id] {
								d = nil
							}
						}
						if d == nil {
							d = x.dev()
						}
						x.link(d, clean)
					}
				case 1:
					from := time.Now()
					op := w.Node.Call("LinkedDevices", func() (any, error) { return textsecure.LinkedDevices() })
					op.Wait(10 * time.Minute)
					if op.Killed || len(w.Viol) > 0 {
						return
					}
					w.Evals++
					if op.Err == nil && op.Done {
						l, _ := op.Val.([]textsecure.DeviceInfo)
						if l == nil {
							l = []textsecure.DeviceInfo{}
						}
						if !x.wasHeld(x.text(l), from) {
							w.Violate("C24", "failure not reported", "LinkedDevices returned %q, the service has %q", x.text(l), x.text(nil))
						}
						w.Count("devices_listed")
					} else if clean() {
						w.Violate("C24", "fails without faults", "LinkedDevices: %v", op.Err)
					}
				case 2:
					id := []int{0, 1, -1, 2, int(x.next), int(x.next), int(x.next) + 1}[w.N(7)]
					had := w.Node.Acct().Devs[uint32(id)] != nil && id > 1
					op := w.Node.Call("UnlinkDevice", func() (any, error) { return nil, textsecure.UnlinkDevice(id) })
					op.Wait(10 * time.Minute)
					x.held()
					if op.Killed || len(w.Viol) > 0 {
						return
					}
					w.Evals++
					has := id > 1 && w.Node.Acct().Devs[uint32(id)] != nil
					switch {
					case op.Done && op.Err == nil && (has || !had && (id < 2 || uint32(id) > x.next)):
						w.Violate("C24", "failure not reported", "UnlinkDevice(%d) succeeded, but the device %s", id, map[bool]string{true: "is still linked", false: "was not linked"}[has])
					case op.Done && op.Err != nil && had && clean():
						w.Violate("C24", "fails without faults", "UnlinkDevice: %v", op.Err)
					default:
						w.Count("unlinked")
					}
				case 3:
					f.died()
					w.Node.Kill()
					w.Net.Num, w.Srv.Hook = 0, nil
					calmSince++
					w.Count("restart")
					if !f.boot() {
						return
					}
					w.Node.Listen()
				}
				switch w.N(4) {
				case 0:
					w.Sleep(time.Duration(w.N(12000)) * time.Millisecond)
				case 1:
					w.Sleep(time.Duration(w.N(40)) * time.Minute)
				}
			}
			w.Net.Num, w.Srv.Hook = 0, nil
			calmSince++
			mine := calmSince
			w.Until(10*time.Minute, func() bool { return len(w.Node.ops) == 0 || !w.Node.Alive() })
			if len(w.Viol) > 0 || !w.Node.Alive() {
				return
			}
			x.link(x.dev(), func() bool { return mine == calmSince })
			w.Until(10*time.Minute, func() bool { return len(w.Node.ops) == 0 || !w.Node.Alive() })
			w.Sleep(time.Second)
		}})
}
