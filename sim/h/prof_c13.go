package h

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/pbkdf2"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"regexp"
	"strings"
	"time"

	"vsim/simfs"

	textsecure "github.com/signal-golang/textsecure"
)

// vault looks for secrets in everything ever written to an encrypted store.
type vault struct {
	f    *Flow
	bufs [][]byte
	path []string
	seen map[[20]byte]bool
	size int
}

func (f *Flow) vault() *vault {
	v := &vault{f: f, seen: map[[20]byte]bool{}}
	for p, d := range f.w.FS.Files() {
		v.saw(p, d)
	}
	v.attach()
	return v
}

func (v *vault) attach() { v.f.w.FS.Observe = v.saw }

// saw keeps what reached a file.
func (v *vault) saw(p string, d []byte) {
	if !strings.HasPrefix(p, storeDir+"/") || len(d) == 0 || v.size > 8<<20 {
		return
	}
	k := sha1.Sum(d)
	if v.seen[k] {
		return
	}
	v.seen[k] = true
	v.bufs = append(v.bufs, append([]byte{}, d...))
	v.path = append(v.path, p)
	v.size += len(d)
}

// addForms files pieces of a secret as they are and in the usual encodings.
func (x *finder) addForms(b []byte, what func() string) {
	pieces := func(t []byte, n int) {
		for i := 0; i+n <= len(t); i += n {
			x.add(t[i:i+n], what)
		}
	}
	pieces(b, 10)
	for o := 0; o < 3 && o < len(b); o++ {
		t := b[o:]
		t = t[:len(t)/3*3]
		pieces([]byte(base64.StdEncoding.EncodeToString(t)), 16)
		pieces([]byte(base64.URLEncoding.EncodeToString(t)), 16)
	}
	h := hex.EncodeToString(b)
	pieces([]byte(h), 20)
	pieces([]byte(strings.ToUpper(h)), 20)
}

// storeKeys derives the keys of the store as the client does.
func storeKeys(password string, salt []byte) (key, mac []byte) {
	k, err := pbkdf2.Key(sha1.New, password, salt, 1024, 36)
	must(err)
	return k[:16], k[16:]
}

func (v *vault) look(when string) {
	w := v.f.w
	if len(w.Viol) > 0 {
		return
	}
	x := &finder{by: map[uint64][]int{}}
	drawn := func(m map[string]int) {
		for _, d := range sortedKeys(m) {
			// shorter ones are salts and initialisation vectors
			if len(d) >= 32 {
				x.addForms([]byte(d)[1:len(d)-1], func() string { return fmt.Sprintf("a secret of %d random bytes", len(d)) })
			}
		}
	}
	drawn(w.Node.Secrets)
	if im := w.image(); im != nil {
		drawn(im.Secrets)
	}
	if a := w.Node.Acct(); a != nil {
		x.addForms([]byte(a.Password), func() string { return "the password of the account" })
		x.addForms(a.SigKey, func() string { return "the signaling key" })
	}
	x.addForms([]byte(w.Node.Password), func() string { return "the storage password" })
	if salt, ok := w.FS.Get(storeDir + "/salt"); ok {
		k, m := storeKeys(w.Node.Password, salt)
		x.addForms(k, func() string { return "the encryption key of the store" })
		x.addForms(m, func() string { return "the MAC key of the store" })
	}
	sess := func(i int, inf *func() (keys [][]byte, what string)) {
		ks, what := (*inf)()
		for j, k := range ks {
			name := []string{"cipher key", "MAC key", "chain key"}
			n := "root key"
			if j < len(name) {
				n = name[j]
			}
			x.addForms(k, func() string { return "the " + n + " of " + what })
		}
	}
	for _, p := range v.f.peers {
		for i, s := range p.Sent {
			s := s
			g := func() ([][]byte, string) {
				return append([][]byte{s.Info.Keys.Cipher, s.Info.Keys.Mac, s.Info.ChainKey}, s.Info.Roots...), s.ID
			}
			sess(i, &g)
		}
		for i, s := range p.Got {
			if s.Err != nil {
				continue
			}
			s := s
			g := func() ([][]byte, string) {
				return append([][]byte{s.Info.Keys.Cipher, s.Info.Keys.Mac, s.Info.ChainKey}, s.Info.Roots...), s.Body
			}
			sess(i, &g)
		}
	}
	w.Evals += len(v.bufs)
	w.Stats["secrets_searched"] += len(x.keys)
	w.Stats["written_buffers_searched"] += len(v.bufs)
	for i, b := range v.bufs {
		if strings.HasSuffix(v.path[i], "record.tmp") {
			w.Count("temporary_file_searched")
		}
		if j := x.in(b); j >= 0 {
			w.Violate("C13", "secret in clear", "%s, %s, was written to %s in clear (found %s)", x.what[j](), hex.EncodeToString(x.keys[j]), v.path[i], when)
			return
		}
	}
}

var (
	startRec  = regexp.MustCompile(`^/app/\.storage/(salt|identity/(regid|identity_key|http_password|http_signaling_key))$`)
	sessRec   = regexp.MustCompile(`^/app/\.storage/sessions/([0-9a-f-]+)_(\d+)$`)
	prekeyRec = regexp.MustCompile(`^/app/\.storage/(prekeys|signed_prekeys)/\d+$`)
	remoteRec = regexp.MustCompile(`^/app/\.storage/identity/remote_([0-9a-f-]+)$`)
)

// resealed is the record as written under another password, nil if the store
// is not in the format known to the harness.
func (w *World) resealed(d []byte) []byte {
	salt, _ := w.FS.Get(storeDir + "/salt")
	plain := w.unsealed(d)
	if plain == nil {
		return nil
	}
	key, mac := storeKeys(w.Node.Password+" 2", salt)
	blk, err := aes.NewCipher(key)
	must(err)
	pad := 16 - len(plain)%16
	plain = append(plain, bytes.Repeat([]byte{byte(pad)}, pad)...)
	iv := w.RandBytes(16)
	out := make([]byte, len(plain))
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(out, plain)
	out = append(append([]byte{}, iv...), out...)
	m := hmac.New(sha256.New, mac)
	m.Write(out)
	return m.Sum(out)
}

func (w *World) unsealed(d []byte) []byte {
	salt, ok := w.FS.Get(storeDir + "/salt")
	if !ok || len(d) < 64 || len(d)%16 != 0 {
		return nil
	}
	key, mac := storeKeys(w.Node.Password, salt)
	m := hmac.New(sha256.New, mac)
	m.Write(d[:len(d)-32])
	if !bytes.Equal(m.Sum(nil), d[len(d)-32:]) {
		return nil
	}
	blk, err := aes.NewCipher(key)
	must(err)
	out := make([]byte, len(d)-48)
	cipher.NewCBCDecrypter(blk, d[:16]).CryptBlocks(out, d[16:len(d)-32])
	n := int(out[len(out)-1])
	if n < 1 || n > 16 {
		return nil
	}
	return out[:len(out)-n]
}

// tampered makes another version of a record.
func (w *World) tampered(d []byte) (b []byte, how string) {
	b = append([]byte{}, d...)
	switch k := w.Weighted(8, 5, 2, 2, 2, 1, 1); k {
	case 0, 6:
		if len(b) == 0 {
			return append(b, 1), "extended"
		}
		i := w.N(len(b))
		switch w.N(4) {
		case 0: // the last block, and what follows it
			i = len(b) - 1 - w.N(min(len(b), 49))
		case 1: // the first block
			i = w.N(min(len(b), 32))
		}
		b[i] ^= 1 << w.N(8)
		how = "flipped"
		if k == 6 {
			b[w.N(len(b))] ^= byte(1 + w.N(255))
			how = "modified"
		}
	case 1:
		n := w.N(len(b) + 1)
		switch w.N(3) {
		case 0:
			n = max(0, len(b)-1-w.N(49))
		case 1:
			n = n / 16 * 16
		}
		b, how = b[:min(n, len(b))], "truncated"
	case 2:
		n := []int{1, 16, 32, 48}[w.N(4)]
		b, how = append(b, w.RandBytes(n)...), "extended"
	case 3:
		if r := w.resealed(d); r != nil {
			return r, "under_other_password"
		}
		b[w.N(len(b))] ^= 0x10
		how = "flipped"
	case 4:
		if r := w.unsealed(d); r != nil {
			return r, "in_clear"
		}
		b[w.N(len(b))] ^= 0x10
		how = "flipped"
	case 5:
		// a block removed, or two exchanged
		if len(b) >= 80 {
			i := w.N(len(b)/16-3) * 16
			if w.Chance(1, 2) {
				b = append(b[:i:i], b[i+16:]...)
			} else {
				x := append([]byte{}, b[i:i+16]...)
				copy(b[i:], b[i+16:i+32])
				copy(b[i+16:], x)
			}
		}
		how = "blocks_changed"
	}
	if bytes.Equal(b, d) {
		b = append([]byte{}, d...)
		if len(b) == 0 {
			return []byte{7}, "extended"
		}
		b[w.N(len(b))] ^= 1
		how = "flipped"
	}
	return b, how
}

// calm waits until nothing is going on, and stops the client.
func (f *Flow) calmDown() bool {
	w := f.w
	for _, o := range f.out {
		o.Op.Wait(3 * time.Minute)
	}
	for _, p := range f.peers {
		p.Hold = false
		p.Release(true)
	}
	f.reAck()
	if !w.Settle(20*time.Minute) || !w.Node.Alive() {
		return false
	}
	w.Sleep(5 * time.Second)
	f.died()
	w.Node.Kill()
	w.Sleep(time.Second)
	return true
}

// tamper changes records while the client is down and judges how it copes.
func (f *Flow) tamper() bool {
	w := f.w
	// the first message of a new session uses prekeys
	var starts []*Sent
	used := map[string]bool{}
	for _, p := range f.peers {
		if w.Chance(1, 3) && p.Fresh(true) == nil {
			if s := f.in(p); s != nil {
				starts = append(starts, s)
				used[fmt.Sprintf("%s/prekeys/%09d", storeDir, s.Info.PreKeyID)] = true
			}
		}
	}
	if !f.calmDown() {
		return len(w.Viol) == 0
	}
	files := w.FS.Files()
	orig, bad := map[string][]byte{}, map[string][]byte{}
	atStart := w.Chance(1, 3)
	num := 1 + w.N(3)
	for _, n := range sortedKeys(files) {
		use := false
		switch {
		case startRec.MatchString(n):
			use = atStart && w.Chance(1, 4)
		case prekeyRec.MatchString(n):
			use = (used[n] || strings.Contains(n, "signed")) && w.Chance(num, 6)
		case sessRec.MatchString(n), remoteRec.MatchString(n):
			use = w.Chance(num, 4)
		}
		if !use {
			continue
		}
		b, how := w.tampered(files[n])
		orig[n], bad[n] = files[n], b
		w.FS.Put(n, b)
		w.Count("record_" + how)
		w.Logf("%s %s: %d instead of %d bytes", n, how, len(b), len(orig[n]))
	}
	w.FS.SyncAll()
	if len(bad) == 0 {
		w.Count("nothing_tampered")
		return f.start()
	}
	op := w.Node.Boot()
	op.Wait(20 * time.Minute)
	first := ""
	for _, n := range sortedKeys(bad) {
		if startRec.MatchString(n) {
			first = n
		}
	}
	w.Evals++
	switch {
	case first != "":
		w.Count("tampered_at_start")
		if op.OK() {
			w.Violate("C13", "tampered record used", "Setup succeeded although %s was tampered with (%s)", first, diff(orig[first], bad[first]))
			return false
		}
	case op.OK():
		w.Node.Listen()
		if !f.probe(bad, orig, starts) {
			return false
		}
		w.Settle(5 * time.Minute)
		w.Sleep(5 * time.Second)
	default:
		// what is wrong is reported already when the client starts
		w.Count("start_refused")
	}
	f.died()
	w.Node.Kill()
	w.Sleep(time.Second)
	for _, n := range sortedKeys(bad) {
		if now, ok := w.FS.Get(n); ok && bytes.Equal(now, bad[n]) {
			w.FS.Put(n, orig[n])
			continue
		}
		w.Violate("C13", "tampered record replaced", "%s was tampered with (%s), and the client replaced or removed it", n, diff(orig[n], bad[n]))
		return false
	}
	w.FS.SyncAll()
	w.Count("record_restored")
	return f.start()
}

func diff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("%d bytes, was %d, first difference at %d", len(b), len(a), i)
}

// probe makes a client whose records bad are tampered with use them.
func (f *Flow) probe(bad, orig map[string][]byte, starts []*Sent) bool {
	w := f.w
	sessBad := func(p *Peer) string {
		n := fmt.Sprintf("%s/sessions/%s_%d", storeDir, p.D.UUID, p.D.ID)
		if bad[n] != nil {
			return n
		}
		return ""
	}
	acctBad := func(p *Peer) string {
		for _, q := range f.peers {
			if n := sessBad(q); n != "" && q.D.UUID == p.D.UUID {
				return n
			}
		}
		return ""
	}
	remoteBad := func(p *Peer) string {
		n := storeDir + "/identity/remote_" + p.D.UUID
		if bad[n] != nil {
			return n
		}
		return ""
	}
	refused := func(s *Sent, n string) {
		s.Excuse = "a record it needs was tampered with"
		w.Until(time.Minute, func() bool { return s.Handed > 0 })
		w.Evals++
		w.Count("needs_tampered_record")
		if s.Handed > 0 {
			w.Violate("C13", "tampered record used", "%s (type %d) was handed over although %s was tampered with (%s)", s.ID, s.Typ, n, diff(orig[n], bad[n]))
		}
	}
	for _, s := range starts {
		n := ""
		for _, x := range []string{fmt.Sprintf("%s/prekeys/%09d", storeDir, s.Info.PreKeyID), remoteBad(s.Peer)} {
			if bad[x] != nil {
				n = x
			}
		}
		for x := range bad {
			if strings.HasPrefix(x, storeDir+"/signed_prekeys/") && n == "" {
				n = x
			}
		}
		switch {
		case n != "":
			w.Count("start_with_tampered_record")
			f.post(s)
			refused(s, n)
		case sessBad(s.Peer) != "":
			w.Count("start_over_tampered_session")
			f.post(s)
			refused(s, sessBad(s.Peer))
		default:
			f.post(s)
		}
		if len(w.Viol) > 0 {
			return false
		}
	}
	for _, p := range f.peers {
		if n := remoteBad(p); n != "" {
			op := w.Node.Call("GetFingerprint", func() (any, error) {
				_, _, err := textsecure.GetFingerprint(p.D.UUID, p.Tel)
				return nil, err
			})
			op.Wait(time.Minute)
			w.Evals++
			w.Count("tampered_identity_asked")
			if op.OK() {
				w.Violate("C13", "tampered record used", "GetFingerprint succeeded although %s was tampered with (%s)", n, diff(orig[n], bad[n]))
				return false
			}
		}
		started := false
		for _, s := range starts {
			started = started || s.Peer == p
		}
		if n := sessBad(p); n != "" && !started && p.D.HasSession(w.nodeAddr()) {
			if s := f.in(p); s != nil && s.Typ == 1 {
				f.post(s)
				refused(s, n)
			} else if s != nil {
				s.Excuse = "not sent"
			}
		}
		if len(w.Viol) > 0 {
			return false
		}
		n := acctBad(p)
		if n == "" && (remoteBad(p) != "" || w.Chance(1, 2)) {
			continue
		}
		got := 0
		for _, q := range f.peers {
			if q.D.UUID == p.D.UUID {
				got += len(q.Got)
			}
		}
		o := f.send(p)
		o.Op.Wait(5 * time.Minute)
		w.Evals++
		if n != "" {
			w.Count("sent_with_tampered_session")
			if o.Op.OK() {
				w.Violate("C13", "tampered record used", "SendMessage to %s succeeded although %s was tampered with (%s)", p.Name, n, diff(orig[n], bad[n]))
				return false
			}
		}
	}
	return len(w.Viol) == 0
}

// wrongPassword starts the client with a password that is not the store's.
func (f *Flow) wrongPassword() bool {
	w := f.w
	if !f.calmDown() {
		return len(w.Viol) == 0
	}
	good := w.Node.Password
	before := w.FS.Files()
	for i := 0; i <= w.N(3); i++ {
		switch w.N(6) {
		case 0:
			w.Node.Password = ""
		case 1:
			w.Node.Password = good[:len(good)-1]
		case 2:
			w.Node.Password = good + " "
		case 3:
			w.Node.Password = strings.ToUpper(good)
		case 4:
			w.Node.Password = string(good[0]^1) + good[1:]
		case 5:
			w.Node.Password = w.Uniq("wrong")
		}
		w.Count("wrong_password")
		op := w.Node.Boot()
		if w.Chance(1, 5) {
			w.Disk.seen = 0
			w.Disk.KillAt = 1 + w.N(6)
		}
		op.Wait(20 * time.Minute)
		w.Disk.KillAt = 0
		w.Evals++
		ok := op.OK()
		pw := w.Node.Password
		w.Node.Password = good
		if ok {
			w.Violate("C13", "wrong password accepted", "Setup with the password %q instead of %q succeeded", pw, good)
			return false
		}
		if !op.Over() {
			w.Violate("C13", "wrong password not reported", "Setup with the password %q instead of %q did not return in 20 minutes", pw, good)
			return false
		}
		w.Sleep(time.Second)
		w.Node.Kill()
		w.Sleep(time.Second)
		after := w.FS.Files()
		for _, n := range sortedKeys(before) {
			if !recordRe.MatchString(n) {
				continue
			}
			if d, ok := after[n]; !ok || !bytes.Equal(d, before[n]) {
				w.Violate("C13", "store damaged", "after Setup with the password %q instead of %q, %s is changed or missing", pw, good, n)
				return false
			}
		}
	}
	f.died()
	if !f.start() {
		return false
	}
	if w.image() != nil {
		f.identityKept("C13")
	}
	return len(w.Viol) == 0
}

func init() {
	register(&Profile{Prop: "C13",
		Rule:   "A client with a storage password registers (or is started from a registered installation) and exchanges messages with 1-3 peers, with kills and failing disk operations at any time. Everything that ever reaches a file of the store, whole or partial, is searched for pieces of the secrets (all random keys drawn, the account's password and signaling key, the storage password and the keys derived from it, and root, chain and message keys as known from the independent peers), as they are and in hexadecimal or base64. While the client is down records are flipped, cut, extended, exchanged block-wise, replaced by their plaintext or by themselves under another password; then a start, messages in both directions, session starts and fingerprints that need the record must fail with an error and no message, the record must be left alone, and with the record restored everything must work. Starts with wrong passwords must fail and leave every record as it was.",
		Faults: "records flipped, truncated, extended, re-encrypted, replaced; wrong passwords; kill at any disk operation; disk errors, torn writes",
		Drive: func(w *World) {
			var f *Flow
			if w.Chance(1, 5) {
				w.Count("registered_in_run")
				pw := []string{"another secret", "x", "Pässwörter-sind-lang " + strings.Repeat("0123456789", 10)}[w.N(3)]
				w.setFS(simfs.New())
				w.Srv.acct, w.Srv.byTel = map[string]*Account{}, map[string]*Account{}
				f = freshWorld(w, "C13")
				w.Node.Password = pw
				w.installFresh()
				v := f.vault()
				if w.Chance(1, 2) {
					w.Disk.KillAt = 1 + w.N(700)
				}
				if !f.start() {
					if len(w.Viol) == 0 {
						v.look("after the registration")
					}
					return
				}
				w.Disk.KillAt = 0
				f.addPeers(1 + w.N(3))
				f.live(v)
				return
			}
			w.swarm()
			w.applyImage(images[storePass])
			w.Node.KeepSecrets = true
			f = msgStart(w, "C13", 3)
			if f == nil {
				return
			}
			f.live(f.vault())
		}})
}

// live is the rest of a run.
func (f *Flow) live(v *vault) {
	w := f.w
	f.outProp = "C02"
	m := w.weights(mix{in: 4, burst: 2, late: 2, out: 4, par: 1, fresh: 2, cross: 1, restart: 1, kill: 1, wait: 2, hold: 1})
	// sessions with every peer
	for _, p := range f.peers {
		f.post(f.in(p))
		f.send(p)
	}
	for i, n := 0, 1+w.N(4); i < n; i++ {
		for j := w.N(8); j > 0; j-- {
			if !f.step(m) {
				return
			}
		}
		switch w.Weighted(5, 2, 1) {
		case 0:
			if !f.tamper() {
				return
			}
		case 1:
			if !f.wrongPassword() {
				return
			}
		case 2:
			w.Disk.ErrNum, w.Disk.ErrDen = 1, 10+w.N(60)
			for j := 1 + w.N(4); j > 0; j-- {
				p := f.peers[w.N(len(f.peers))]
				if w.Chance(1, 2) {
					f.send(p)
				} else {
					p.Fresh(true)
					f.noLoss(f.in(p))
				}
			}
			w.Sleep(time.Minute)
			w.Disk.ErrNum = 0
		}
	}
	v.look("at the end")
	if f.finish() {
		v.look("at the end")
		f.after()
	}
}

// noLoss posts a message that need not arrive.
func (f *Flow) noLoss(s *Sent) {
	if s != nil {
		f.post(s)
		s.Excuse = "disk errors"
	}
}
