package h

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	textsecure "github.com/signal-golang/textsecure"
	"github.com/signal-golang/textsecure/contacts"
	"gopkg.in/yaml.v2"

	"vsim/ref"
)

// Directory is the contact discovery service.
type Directory struct {
	s     *Server
	Reg   map[int64]string    // account id by number
	creds map[string]bool     // user:password
	open  map[string]*enclave // by request id
	// Bend may change what is answered.
	BendAtt  func(m map[string]map[string]any) any
	BendAns  func(e *enclave, data []byte) ([]byte, func(m map[string]any) any)
	Answers  []*dirAnswer
	Numbers  map[int64]bool // the numbers that may be asked for; nil: any
	lastResp map[string]any
}

type enclave struct {
	client, server, reqID []byte
	cookie                string
}

type dirAnswer struct {
	at      time.Time
	numbers []int64
	ids     []string
	bent    bool
}

func newDirectory(s *Server) *Directory {
	d := &Directory{s: s, Reg: map[int64]string{}, creds: map[string]bool{}, open: map[string]*enclave{}}
	s.Dir = d
	return d
}

func (d *Directory) auth(a *Account) *Resp {
	w := d.s.w
	u, p := a.UUID, hexOf(w.RandBytes(8))
	d.creds[u+":"+p] = true
	return jsonResp(map[string]any{"username": u, "password": p})
}

func gcm(key, nonce, aad, pt []byte) (ct, tag []byte) {
	b, err := aes.NewCipher(key)
	must(err)
	g, err := cipher.NewGCM(b)
	must(err)
	o := g.Seal(nil, nonce, pt, aad)
	return o[:len(o)-16], o[len(o)-16:]
}

func gcmOpen(key, nonce, aad, ct, tag []byte) ([]byte, error) {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	g, err := cipher.NewGCM(b)
	if err != nil || len(nonce) != 12 {
		return nil, fmt.Errorf("bad key or nonce")
	}
	return g.Open(nil, nonce, append(append([]byte{}, ct...), tag...), aad)
}

func (s *Server) directory(r *Req) *Resp {
	d, w := s.Dir, s.w
	if d == nil {
		return status(404)
	}
	seg := strings.Split(strings.Trim(r.Path, "/"), "/")
	if !r.HasAuth || !d.creds[r.User+":"+r.Pass] {
		return status(401)
	}
	if len(seg) != 3 || r.Method != "PUT" || seg[2] != textsecure.CDS_MRENCLAVE {
		return status(404)
	}
	switch seg[1] {
	case "attestation":
		var q struct{ ClientPublic []byte }
		if json.Unmarshal(r.Body, &q) != nil || len(q.ClientPublic) != 32 {
			return status(422)
		}
		var cp [32]byte
		copy(cp[:], q.ClientPublic)
		cookie := "cds=" + hexOf(w.RandBytes(6))
		m := map[string]map[string]any{}
		for i := 1 + w.N(3); i > 0; i-- {
			eph, st := ref.GenKey(w.Rng), ref.GenKey(w.Rng)
			k := ref.HKDF(append(ref.DH(eph.Priv, cp), ref.DH(st.Priv, cp)...), append(append(append([]byte{}, cp[:]...), eph.Pub[:]...), st.Pub[:]...), "", 64)
			e := &enclave{client: k[:32], server: k[32:], reqID: w.RandBytes(16 + w.N(40)), cookie: cookie}
			d.open[string(e.reqID)] = e
			iv := w.RandBytes(12)
			ct, tag := gcm(e.server, iv, nil, e.reqID)
			m["enclave"+strconv.Itoa(i)] = map[string]any{"serverEphemeralPublic": eph.Pub[:], "serverStaticPublic": st.Pub[:], "quote": w.RandBytes(40),
				"iv": iv, "ciphertext": ct, "tag": tag, "signature": "sig", "certificates": "c", "signatureBody": "b"}
		}
		var v any = map[string]any{"attestations": m}
		if d.BendAtt != nil {
			v = d.BendAtt(m)
		}
		resp := jsonResp(v)
		resp.Header.Set("Set-Cookie", cookie)
		return resp
	case "discovery":
		var q struct {
			AddressCount              int
			Commitment, Data, Iv, Mac []byte
			Envelopes                 map[string]*struct{ Data, Iv, Mac, RequestID []byte }
		}
		if json.Unmarshal(r.Body, &q) != nil {
			return status(422)
		}
		bad := func(f string, a ...any) *Resp {
			w.Logf("directory: refused: "+f, a...)
			return status(400)
		}
		names := sortedKeys(q.Envelopes)
		if len(names) == 0 {
			return bad("no envelopes")
		}
		n := q.Envelopes[names[w.N(len(names))]]
		e := d.open[string(n.RequestID)]
		if e == nil {
			return status(409)
		}
		delete(d.open, string(n.RequestID))
		if r.Header.Get("Cookie") != e.cookie {
			return bad("wrong cookie %q", r.Header.Get("Cookie"))
		}
		key, err := gcmOpen(e.client, n.Iv, n.RequestID, n.Data, n.Mac)
		if err != nil {
			return bad("envelope: %v", err)
		}
		pt, err := gcmOpen(key, q.Iv, nil, q.Data, q.Mac)
		if err != nil || len(pt) != 32+8*q.AddressCount {
			return bad("query of %d bytes for %d numbers: %v", len(pt), q.AddressCount, err)
		}
		if h := sha256.Sum256(pt); !bytes.Equal(h[:], q.Commitment) {
			return bad("wrong commitment")
		}
		a := &dirAnswer{at: time.Now()}
		var data []byte
		for i := 0; i < q.AddressCount; i++ {
			num := int64(binary.BigEndian.Uint64(pt[32+8*i:]))
			if d.Numbers != nil && !d.Numbers[num] {
				w.Violate("C21", "foreign number asked", "the query asks for %d, which is no contact's number", num)
			}
			a.numbers = append(a.numbers, num)
			a.ids = append(a.ids, d.Reg[num])
			b := make([]byte, 16)
			if id := d.Reg[num]; id != "" {
				b = uuidBytes(id)
			}
			data = append(data, b...)
		}
		w.Count("discovery_served")
		d.Answers = append(d.Answers, a)
		var bend func(m map[string]any) any
		if d.BendAns != nil {
			old := append([]byte{}, data...)
			data, bend = d.BendAns(e, data)
			a.bent = !bytes.Equal(old, data)
		}
		iv := w.RandBytes(12)
		ct, tag := gcm(e.server, iv, nil, data)
		m := map[string]any{"requestId": e.reqID, "iv": iv, "data": ct, "mac": tag}
		var v any = m
		if bend != nil {
			v = bend(m)
		}
		d.lastResp = m
		return jsonResp(v)
	}
	return status(404)
}

// flip damages one field of an answer.
func (w *World) flip(m map[string]any, k string) {
	b := append([]byte{}, m[k].([]byte)...)
	switch w.N(5) {
	case 0:
		if len(b) > 0 {
			b[w.N(len(b))] ^= 1 << w.N(8)
		}
	case 1:
		b = b[:w.N(len(b)+1)]
	case 2:
		b = append(b, w.RandBytes(1+w.N(4))...)
	case 3:
		b = nil
	case 4:
		delete(m, k)
		return
	}
	m[k] = b
}

// bend makes the directory answer wrongly, and tells how.
func (d *Directory) bend() string {
	w := d.s.w
	one := func(m map[string]map[string]any) map[string]any {
		k := sortedKeys(m)
		return m[k[w.N(len(k))]]
	}
	switch w.N(12) {
	case 0:
		d.BendAtt = func(m map[string]map[string]any) any {
			w.flip(one(m), []string{"serverEphemeralPublic", "serverStaticPublic", "iv", "ciphertext", "tag"}[w.N(5)])
			return map[string]any{"attestations": m}
		}
		return "damaged attestation"
	case 1:
		d.BendAtt = func(m map[string]map[string]any) any {
			for _, k := range sortedKeys(m) {
				w.flip(m[k], []string{"serverEphemeralPublic", "serverStaticPublic", "iv", "ciphertext", "tag"}[w.N(5)])
			}
			return map[string]any{"attestations": m}
		}
		return "all attestations damaged"
	case 2:
		d.BendAtt = func(m map[string]map[string]any) any {
			m[sortedKeys(m)[0]] = nil
			return map[string]any{"attestations": m}
		}
		return "attestation null"
	case 3:
		d.BendAtt = func(m map[string]map[string]any) any {
			return []any{nil, map[string]any{}, []any{}, "x", map[string]any{"attestations": nil}, map[string]any{"attestations": map[string]any{}},
				map[string]any{"attestations": map[string]any{"a": map[string]any{}}}, map[string]any{"attestations": map[string]any{"a": nil, "b": nil, "c": nil, "d": nil}}}[w.N(8)]
		}
		return "no attestations"
	case 4, 5:
		d.BendAns = func(e *enclave, b []byte) ([]byte, func(map[string]any) any) {
			return b[:w.N(len(b))], nil
		}
		return "short answer"
	case 6:
		d.BendAns = func(e *enclave, b []byte) ([]byte, func(map[string]any) any) {
			return append(append([]byte{}, b...), w.RandBytes(1+w.N(40))...), nil
		}
		return "long answer"
	case 7, 8:
		d.BendAns = func(e *enclave, b []byte) ([]byte, func(map[string]any) any) {
			return b, func(m map[string]any) any {
				w.flip(m, []string{"requestId", "iv", "data", "mac"}[w.N(4)])
				return m
			}
		}
		return "damaged answer"
	case 9:
		d.BendAns = func(e *enclave, b []byte) ([]byte, func(map[string]any) any) {
			return b, func(m map[string]any) any {
				return []any{nil, map[string]any{}, []any{}, "x", map[string]any{"requestId": m["requestId"]}}[w.N(5)]
			}
		}
		return "no answer"
	case 10:
		old := d.lastResp
		if old == nil {
			return ""
		}
		d.BendAns = func(e *enclave, b []byte) ([]byte, func(map[string]any) any) {
			return b, func(m map[string]any) any {
				c := map[string]any{}
				for k, v := range old {
					c[k] = v
				}
				if w.Chance(1, 2) {
					c["requestId"] = m["requestId"]
				}
				return c
			}
		}
		return "earlier answer repeated"
	case 11:
		d.creds = map[string]bool{}
		d.open = map[string]*enclave{}
		return "credentials revoked"
	}
	return ""
}

type discovery struct {
	f     *Flow
	d     *Directory
	local []contacts.Contact
}

// number is what a contact's number means; ok if it can be asked for.
func number(tel string) (int64, bool) {
	for i, r := range tel {
		if !(r >= '0' && r <= '9' || r == '+' && i == 0) {
			return 0, false
		}
	}
	n, err := strconv.ParseInt(tel, 10, 64)
	return n, err == nil
}

// book makes a new list of local contacts.
func (x *discovery) book() {
	w := x.f.w
	x.local = nil
	nums := map[int64]bool{}
	for i := w.N(14); i >= 0; i-- {
		c := contacts.Contact{Name: w.Uniq("c"), Color: "red"}
		switch w.Weighted(10, 3, 2, 2) {
		case 0:
			c.Tel = fmt.Sprintf("+1555%07d", w.N(60))
		case 1:
			c.Tel = []string{fmt.Sprintf("1555%07d", w.N(60)), fmt.Sprintf("+49%09d", w.N(5)), fmt.Sprintf("00%d", w.N(40)), fmt.Sprint(w.N(9))}[w.N(4)]
		case 2: // not a number that can be asked for
			c.Tel = []string{"", "abc", "+1 555 0000001", "+1(555)0000002", "1234567890123456789012", "99999999999999999999", "+", "+-5", "0x10", "1_000", "+15550000003 ", "-17", "12;13", "+1555000000a", "٣٤", "12 ext 3", "()", " "}[w.N(18)]
		case 3:
			if len(x.local) > 0 {
				c.Tel = x.local[w.N(len(x.local))].Tel
			}
		}
		if w.Chance(1, 6) {
			c.Name = []string{"=41=42=43", "a=b=c=d", "=C3=A9=20=C3", "", "J=", "====", "x=\n=\n=\ny"}[w.N(7)]
		}
		if w.Chance(1, 6) { // known from before, maybe wrongly
			c.UUID, c.Registered = w.newUUID(), true
		}
		x.local = append(x.local, c)
		if n, err := strconv.ParseInt(c.Tel, 10, 64); err == nil {
			nums[n] = true
		}
	}
	x.d.Numbers = nums
	w.Node.Contacts = x.local
}

// register decides which numbers have accounts.
func (x *discovery) register() {
	w := x.f.w
	x.d.Reg = map[int64]string{}
	for _, c := range x.local {
		if n, ok := number(c.Tel); ok && x.d.Reg[n] == "" && w.Chance(2, 3) {
			id := w.newUUID()
			switch w.N(12) {
			case 0: // bytes that matter to formatting
				b := w.RandBytes(16)
				b[0], b[w.N(16)] = 0, 0
				id = uuidOf(b)
			case 1:
				id = "00000000-0000-0000-0000-00000000000" + strconv.Itoa(1+w.N(9))
			}
			x.d.Reg[n] = id
		}
	}
}

func cText(c contacts.Contact) string {
	return fmt.Sprintf("%q|%s|%q|%s|%v|%x", c.Tel, c.UUID, c.Name, c.Color, c.Registered, c.ProfileKey)
}

// known is what the client knows; nil if it does not run.
func (x *discovery) known() []string {
	w := x.f.w
	op := w.Node.Call("look", func() (any, error) {
		var l []string
		for k, c := range contacts.Contacts {
			l = append(l, k+": "+cText(c))
		}
		sort.Strings(l)
		return l, nil
	})
	if op.Wait(time.Minute); !op.OK() {
		return nil
	}
	l, _ := op.Val.([]string)
	return append([]string{}, l...)
}

func (x *discovery) stored() []string {
	b, ok := x.f.w.FS.Get(contactPath)
	if !ok {
		return []string{"no file"}
	}
	var y struct{ Contacts []contacts.Contact }
	if yaml.Unmarshal(b, &y) != nil {
		return []string{"unreadable file"}
	}
	var l []string
	for _, c := range y.Contacts {
		k := c.UUID
		if k == "" || k == "0" || k[0] == 0 && k[len(k)-1] == 0 || strings.Trim(k, "0-") == "" {
			k = c.Tel
		}
		l = append(l, k+": "+cText(c))
	}
	sort.Strings(l)
	return l
}

// check compares the outcome of a discovery with the service's answers.
func (x *discovery) check(op *Op, from time.Time, how string) {
	w := x.f.w
	w.Evals++
	got, _ := op.Val.([]contacts.Contact)
	why := "the service answered nothing"
	for _, a := range x.d.Answers {
		if a.at.Before(from) {
			continue
		}
		if a.bent && how == "short answer" {
			why = "the answer was too short"
			continue
		}
		if why = x.fits(got, a); why == "" {
			return
		}
	}
	w.Violate("C21", "wrong attribution", "discovery succeeded (%s), but %s", how, why)
}

func (x *discovery) fits(got []contacts.Contact, a *dirAnswer) string {
	ids := map[int64]string{}
	asked := map[int64]bool{}
	for i, n := range a.numbers {
		ids[n], asked[n] = a.ids[i], true
	}
	if len(got) != len(x.local) {
		return fmt.Sprintf("%d contacts were returned for %d", len(got), len(x.local))
	}
	for i, c := range got {
		l := x.local[i]
		if c.Tel != l.Tel || c.Color != l.Color {
			return fmt.Sprintf("contact %d is %s, was %s", i, cText(c), cText(l))
		}
		if c.Name != l.Name && strings.Count(l.Name, "=") <= 2 {
			return fmt.Sprintf("the name %q became %q", l.Name, c.Name)
		}
		n, ok := number(c.Tel)
		if !ok {
			if c.Registered && !l.Registered {
				return fmt.Sprintf("%s with an unusable number was marked registered", cText(c))
			}
			continue
		}
		if !asked[n] {
			return fmt.Sprintf("the number %s was not asked for", c.Tel)
		}
		if id := ids[n]; c.Registered != (id != "") || id != "" && c.UUID != id {
			return fmt.Sprintf("the service gave %q for %s, the contact is %s", id, c.Tel, cText(c))
		}
	}
	return ""
}

// listed compares what is known after a success with what was returned.
func (x *discovery) listed(where string, l []string, got []contacts.Contact) {
	w := x.f.w
	has := map[string]bool{}
	for _, s := range l {
		has[s] = true
	}
	byKey := map[string][]string{}
	nums := map[string]bool{}
	for _, c := range got {
		if _, ok := number(c.Tel); !ok {
			continue
		}
		nums[fmt.Sprintf("%q", c.Tel)] = true
		k := c.Tel
		if c.Registered {
			k = c.UUID
		}
		byKey[k] = append(byKey[k], k+": "+cText(c))
	}
	for _, k := range sortedKeys(byKey) {
		w.Evals++
		ok := false
		for _, s := range byKey[k] {
			ok = ok || has[s]
		}
		if !ok {
			w.Violate("C21", "not known", "after a successful discovery, %s lacks %s", where, byKey[k][0])
			return
		}
	}
	for _, s := range l { // nobody else may be known under such a number
		k, rest, _ := strings.Cut(s, ": ")
		tel, _, _ := strings.Cut(rest, "|")
		if nums[tel] && byKey[k] == nil {
			w.Violate("C21", "wrong attribution", "after a successful discovery, %s has %s", where, s)
			return
		}
	}
}

func same(a, b []string) bool { return strings.Join(a, "\n") == strings.Join(b, "\n") }

func differ(a, b []string) string {
	in := map[string]bool{}
	for _, s := range b {
		in[s] = true
	}
	for _, s := range a {
		if !in[s] {
			return fmt.Sprintf("%s is gone (%d before, %d now)", s, len(a), len(b))
		}
	}
	return fmt.Sprintf("%d before, %d now", len(a), len(b))
}

func init() {
	register(&Profile{Prop: "C21", Horizon: 24 * time.Hour,
		Rule:   "A registered client discovers 1-8 times which of up to 15 local contacts (with duplicate, differently written, unusable and overlong numbers) have accounts, at a model of the directory with real key agreement and encryption; the address book and the registrations change in between. The service or the network damages, cuts, repeats, loses or refuses any part of the exchange (credentials, attestations, query, answer, short and long answers), the contacts file cannot be written, two discoveries and profile key changes overlap, the client restarts. After each success every contact must be registered exactly as one answer of the service during the call said for its number, in the result, in the client and in the file; after each failure the client and the file must know what they knew; without faults the call must succeed; the query may only ask for contacts' numbers.",
		Faults: "damaged, missing, null, cut and repeated attestations and answers, short and long answers, revoked credentials, HTTP faults of 14 kinds, disk errors on the contacts, concurrent discoveries, restarts",
		Drive: func(w *World) {
			w.swarm()
			f := newFlow(w, "C21")
			w.FS.Put(contactPath, []byte("contacts: []\n"))
			w.FS.SyncAll()
			if !f.start() {
				return
			}
			x := &discovery{f: f, d: newDirectory(w.Srv)}
			calm := func() {
				w.Net.Num, w.Net.Match, w.Net.Garble = 0, nil, nil
				w.Disk = DiskPlan{Observe: w.Disk.Observe}
				x.d.BendAtt, x.d.BendAns = nil, nil
			}
			call := func() *Op {
				return w.Node.Call("GetRegisteredContacts", func() (any, error) { return textsecure.GetRegisteredContacts() })
			}
			for i := 1 + w.N(8); i > 0 && len(w.Viol) == 0; i-- {
				calm()
				if len(x.local) == 0 || w.Chance(1, 2) {
					x.book()
				}
				if len(x.d.Reg) == 0 || w.Chance(1, 2) {
					x.register()
				}
				if w.Chance(1, 3) {
					id, k := w.newUUID(), w.RandBytes(32)
					op := w.Node.Call("UpdateProfileKey", func() (any, error) { return nil, contacts.UpdateProfileKey(id, k) })
					op.Wait(time.Minute)
				}
				askable := false
				for _, c := range x.local {
					_, ok := number(c.Tel)
					askable = askable || ok
				}
				how, faults := "no fault", w.faults()
				switch w.Weighted(3, 5, 3, 2) {
				case 1:
					how = x.d.bend()
				case 2:
					how = "network fault"
					w.Net.Num, w.Net.Den, w.Net.Kinds = 1, 1+w.N(4), append(append([]string{}, allHTTPFaults...), "status_401", "status_403", "status_404")
					w.Net.Match = func(r *Req) bool {
						return strings.Contains(r.Host, "directory") || strings.Contains(r.Path, "directory")
					}
				case 3:
					how = "disk fault"
					w.Disk.ErrNum, w.Disk.ErrDen, w.Disk.Kinds, w.Disk.Only = 1, 1+w.N(4), "create write sync rename close", "contacts"
				}
				before, was := x.known(), x.stored()
				from, seq := time.Now(), w.Net.seq
				op := call()
				var other *Op
				if w.Chance(1, 4) {
					w.Count("concurrent_discovery")
					w.Sleep(time.Duration(w.N(400)) * time.Millisecond)
					other = call()
				}
				tell := w.Chance(1, 6)
				if tell {
					w.Sleep(time.Duration(w.N(400)) * time.Millisecond)
					id, k := w.newUUID(), w.RandBytes(32)
					w.Node.Call("UpdateProfileKey", func() (any, error) { return nil, contacts.UpdateProfileKey(id, k) }).Wait(time.Minute)
				}
				op.Wait(10 * time.Minute)
				if other != nil {
					other.Wait(10 * time.Minute)
				}
				if !w.Node.Alive() || len(w.Viol) > 0 {
					return
				}
				bent := how != "no fault" && how != ""
				if how == "network fault" {
					bent = false
					_ = seq
					for _, k := range sortedKeys(w.Stats) {
						bent = bent || strings.HasPrefix(k, "http_")
					}
				}
				for _, o := range []*Op{op, other} {
					if o == nil {
						continue
					}
					if !o.Done {
						w.Violate("C21", "no end", "discovery did not return within ten minutes (%s)", how)
						return
					}
					if o.Err == nil {
						w.Count("discovery_ok")
						x.check(o, from, how)
					} else {
						w.Count("discovery_failed")
						if !bent && askable {
							w.Violate("C21", "failed without a fault", "discovery failed without a fault: %v", o.Err)
						}
					}
					if len(w.Viol) > 0 {
						return
					}
				}
				if bent {
					w.Count("bad_" + strings.ReplaceAll(how, " ", "_"))
				}
				calm()
				now, is := x.known(), x.stored()
				if now == nil {
					return
				}
				w.Evals++
				switch {
				case other != nil || tell:
				case op.Err != nil && !same(before, now):
					w.Violate("C21", "contacts changed by a failure", "discovery failed (%s: %v), but the known contacts changed: %s", how, op.Err, differ(before, now))
				case op.Err != nil && !same(was, is) && w.faults() == faults:
					w.Violate("C21", "contacts changed by a failure", "discovery failed (%s: %v), but the contacts file changed: %s", how, op.Err, differ(was, is))
				case op.Err == nil:
					got := op.Val.([]contacts.Contact)
					x.listed("the client", now, got)
					if len(w.Viol) == 0 {
						x.listed("the contacts file", is, got)
					}
				}
				if len(w.Viol) > 0 {
					return
				}
				if w.Chance(1, 5) && other == nil && !tell {
					f.died()
					w.Node.Kill()
					if !f.start() {
						return
					}
					w.Count("restart")
					if got, _ := op.Val.([]contacts.Contact); op.Err == nil {
						if l := x.known(); l != nil {
							x.listed("the restarted client", l, got)
						}
					}
				}
			}
		}})
}
