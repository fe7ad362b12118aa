package h

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"strings"
	"time"

	zkgroup "github.com/nanu-c/zkgroup"
	"github.com/signal-golang/textsecure/config"
	"gopkg.in/yaml.v2"
)

// profKey follows the profile keys one installation stores and publishes.
type profKey struct {
	f      *Flow
	prop   string
	keys   [][]byte
	vers   []string
	stream []byte // what the installation drew from the secure source
}

func (f *Flow) profKey(prop string) *profKey {
	x := &profKey{f: f, prop: prop}
	w := f.w
	w.Node.OnDraw = func(b []byte) { x.stream = append(x.stream, b...) }
	w.FS.OnVersion = func(p string, d []byte) {
		if p == configPath {
			c := &config.Config{}
			if yaml.Unmarshal(d, c) == nil && len(c.ProfileKey) > 0 {
				x.key(c.ProfileKey)
			}
		}
	}
	w.Srv.OnProfile = func(a *Account) {
		if a == w.Node.Acct() {
			w.Count("profile_published")
			for _, v := range x.vers {
				if v == a.Prof.Version {
					return
				}
			}
			x.vers = append(x.vers, a.Prof.Version)
			if len(x.vers) > 1 {
				w.Violate(prop, "profile key changed", "the installation published profiles under %d different keys", len(x.vers))
			}
		}
	}
	return x
}

// key judges a stored profile key.
func (x *profKey) key(k []byte) {
	w := x.f.w
	for _, o := range x.keys {
		if bytes.Equal(o, k) {
			return
		}
	}
	x.keys = append(x.keys, append([]byte{}, k...))
	w.Evals++
	if len(k) != 32 {
		w.Violate(x.prop, "bad profile key", "the stored profile key has %d bytes", len(k))
		return
	}
	if len(x.keys) > 1 {
		w.Violate(x.prop, "profile key changed", "the installation stored %d different profile keys", len(x.keys))
		return
	}
	if x.stream == nil {
		return // chosen before
	}
	w.Count("profile_key_chosen")
	for i := 0; i < 32; i += 8 {
		if !bytes.Contains(x.stream, k[i:i+8]) {
			w.Violate(x.prop, "profile key predictable", "bytes %d-%d of the profile key were not drawn from the system's secure randomness", i, i+7)
			return
		}
	}
}

// matches judges the state after a successful start.
func (x *profKey) matches(published bool) bool {
	f, w := x.f, x.f.w
	c, err := w.conf()
	if err != nil || len(c.ProfileKey) != 32 {
		w.Violate(x.prop, "bad profile key", "after a start the configuration holds a profile key of %d bytes (%v)", len(c.ProfileKey), err)
		return false
	}
	x.key(c.ProfileKey)
	a := w.Node.Acct()
	id := uuidBytes(a.UUID)
	var key = c.ProfileKey
	w.Evals++
	if published {
		ver, e1 := zkgroup.ProfileKeyGetProfileKeyVersion(key, id)
		com, e2 := zkgroup.ProfileKeyGetCommitment(key, id)
		must(e1)
		must(e2)
		switch {
		case a.Prof == nil:
			w.Violate(x.prop, "no profile", "after a successful start the service has no profile of the account")
		case a.Prof.Version != string(ver) || !bytes.Equal(a.Prof.Commitment, com):
			w.Violate(x.prop, "profile of another key", "after a successful start the published profile does not belong to the stored profile key")
		default:
			n, err := openName(key, a.Prof.Name)
			if err != nil || n != c.Name {
				w.Violate(x.prop, "profile unreadable", "the published name does not open with the stored profile key to %q: %q %v", c.Name, n, err)
			}
		}
		w.Count("profile_matches")
	}
	if why := w.credentialOf(c.ProfileKeyCredential, key, id); why != "" {
		w.Violate(x.prop, "credential of another key", "after a successful start the stored profile-key credential does not belong to the stored key: %s", why)
	}
	_ = f
	return len(w.Viol) == 0
}

func openName(key []byte, s string) (string, error) {
	b, err := unb64(s)
	if err != nil || len(b) < 12 {
		return "", err
	}
	bl, err := aes.NewCipher(key)
	must(err)
	g, err := cipher.NewGCM(bl)
	must(err)
	p, err := g.Open(nil, b[:12], b[12:], nil)
	return strings.TrimRight(string(p), "\x00"), err
}

// credentialOf tells why a credential is not one of the service for the key.
func (w *World) credentialOf(cred, key, id []byte) string {
	secret, err := zkgroup.GenerateGroupSecretParamsDeterministic(append(make([]byte, 31), 9))
	must(err)
	public, err := secret.PublicParams()
	must(err)
	if len(cred) == 0 {
		return "it is empty"
	}
	pr, err := w.Srv.zk.public.CreateProfileKeyCredentialPresentation(secret, cred)
	if err != nil {
		return "it cannot be presented: " + err.Error()
	}
	p, err := zkgroup.NewProfileKeyCredentialPresentation(pr)
	if err != nil {
		return err.Error()
	}
	if err := w.Srv.zk.prof.VerifyProfileKeyCredentialPresentation(public, p); err != nil {
		return "the service does not accept it: " + err.Error()
	}
	ct, err := p.ProfileKeyCiphertext()
	if err != nil {
		return err.Error()
	}
	k, err := zkgroup.NewClientZkGroupCipher(secret).DecryptProfileKey(ct, id)
	if err != nil {
		return err.Error()
	}
	if !bytes.Equal(k, key) {
		return "it certifies another key"
	}
	return ""
}

func init() {
	register(&Profile{Prop: "C20", NoBase: true, Horizon: 2000 * time.Hour,
		Rule:   "A new installation, or a registered one, is started several times while requests concerning the profile fail in 14 ways, the disk fails, the helper refuses and the client is killed or loses power; then, in half of the runs, a second installation is made in the same world. Every profile key ever written to the configuration and every profile published must belong to one key per installation, whose bytes were drawn from the system's secure randomness; after each successful start the published version, commitment and encrypted name and the stored credential (presented to the service's own zkgroup operations) must belong to the stored key; a profile the service does not have must be there again after a start without faults; two installations must not share a key.",
		Faults: "HTTP faults of 14 kinds on profile requests, kills and power loss during starts, disk errors, helper faults",
		Drive: func(w *World) {
			var first []byte
			for inst := 0; inst < 1+w.N(2); inst++ {
				x := w.installation(inst)
				if x == nil || len(w.Viol) > 0 {
					return
				}
				if k := x.keys[0]; first == nil {
					first = k
				} else {
					w.Count("second_installation")
					w.Evals++
					for i := 0; i < 32; i += 4 {
						if bytes.Equal(first[i:i+4], k[i:i+4]) {
							w.Violate("C20", "profile key shared", "bytes %d-%d of the profile keys of two installations are the same", i, i+3)
							return
						}
					}
				}
			}
		}})
}

// installation makes one installation and starts it several times.
func (w *World) installation(n int) *profKey {
	var f *Flow
	fresh := n > 0 || w.Chance(1, 2)
	if fresh {
		if n > 0 {
			w.Node.Kill()
			for w.Node.proc.Live() > 0 {
				w.Sleep(time.Second)
			}
			w.setFS(newFS())
			w.Calm = false
			f = freshWorld(w, "C20")
			w.Node.Tel = "+15550001001"
			w.Node.OnDraw = nil
		} else {
			f = freshWorld(w, "C20")
		}
	} else {
		w.useBase()
		w.UseVariant(w.Chance(1, 3))
		w.preempt(w.Weighted(3, 1))
		f = newFlow(w, "C20")
		f.serve()
	}
	x := f.profKey("C20")
	if !fresh {
		c, err := w.conf()
		must(err)
		x.key(c.ProfileKey)
	}
	for i, k := 0, 1+w.N(5); i < k; i++ {
		w.Calm = i == k-1
		f.mendSetup()
		if !w.Calm {
			switch w.Weighted(2, 4, 2) {
			case 1:
				w.Net.Num, w.Net.Den, w.Net.Kinds = 1, 1+w.N(4), allHTTPFaults
				w.Net.Match = func(r *Req) bool { return strings.HasPrefix(r.Path, "/v1/profile") }
			case 2:
				f.breakSetup()
			}
		}
		puts := 0
		if a := w.Node.Acct(); a != nil {
			puts = a.PutProfiles
			if w.Chance(1, 4) && a.Prof != nil {
				w.Count("service_has_no_profile")
				a.Prof = nil
			}
		}
		op := w.Node.Boot()
		op.Wait(2 * time.Hour)
		w.S.KillStep, w.Disk.KillAt = 0, 0
		if len(w.Viol) > 0 {
			return nil
		}
		switch {
		case op.OK():
			w.Count("setup_succeeded")
			// the published profile is judged if it was not the harness that
			// made it disappear, or nothing went wrong since
			if !x.matches(w.Calm || w.Node.Acct().PutProfiles > puts) {
				return nil
			}
		case w.Calm:
			w.Violate("C20", "start fails", "without any further fault Setup ends with done %v, error %v", op.Done, op.Err)
			return nil
		case op.Done:
			w.Count("setup_failed")
		}
		if w.Node.Alive() {
			w.Node.Kill()
		}
		if w.Chance(1, 4) {
			f.afterCrash(nil, "C20", true)
		}
		if w.Chance(1, 3) {
			w.Sleep(time.Duration(w.N(72)) * time.Hour)
		}
	}
	if len(x.keys) == 0 {
		w.Violate("C20", "bad profile key", "no profile key was ever stored")
		return nil
	}
	return x
}
