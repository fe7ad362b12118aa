package axolotl

import (
	"errors"
	"fmt"
	"math/rand"
	"testing"

	"github.com/signal-golang/textsecure/curve25519sign"
)

type party struct {
	name  string
	id    *IdentityKeyPair
	pre   map[uint32]*PreKeyRecord
	spre  map[uint32]*SignedPreKeyRecord
	sess  map[string][]byte
	ids   map[string]*IdentityKey
	fail  map[string]bool // names of operations that fail
	trace []string
}

func newParty(name string) *party {
	p := &party{name: name, id: GenerateIdentityKeyPair(), pre: map[uint32]*PreKeyRecord{}, spre: map[uint32]*SignedPreKeyRecord{}, sess: map[string][]byte{}, ids: map[string]*IdentityKey{}, fail: map[string]bool{}}
	for _, r := range GeneratePreKeys(1, 100) {
		p.pre[r.Pkrs.Id] = r
	}
	p.pre[maxValue] = GenerateLastResortPreKey()
	kp := NewECKeyPair()
	var rnd [64]byte
	rand.Read(rnd[:])
	sig := curve25519sign.Sign(p.id.PrivateKey.Key(), kp.PublicKey.Serialize(), rnd)
	p.spre[7] = NewSignedPreKeyRecord(7, 0, kp, sig[:])
	return p
}

var errDisk = errors.New("disk error")

func (p *party) op(n string) error {
	p.trace = append(p.trace, n)
	if p.fail[n] {
		return errDisk
	}
	return nil
}

func (p *party) GetIdentityKeyPair() (*IdentityKeyPair, error)    { return p.id, nil }
func (p *party) GetLocalRegistrationID() (uint32, error)          { return 5, nil }
func (p *party) SaveIdentity(n string, k *IdentityKey) error {
	if e := p.op("saveidentity"); e != nil {
		return e
	}
	p.ids[n] = k
	return nil
}
func (p *party) IsTrustedIdentity(n string, k *IdentityKey) bool {
	o := p.ids[n]
	return o == nil || *o.Key() == *k.Key()
}
func (p *party) LoadPreKey(i uint32) (*PreKeyRecord, error) {
	if e := p.op("loadprekey"); e != nil {
		return nil, e
	}
	if r := p.pre[i]; r != nil {
		return r, nil
	}
	return nil, fmt.Errorf("no prekey %d", i)
}
func (p *party) StorePreKey(i uint32, r *PreKeyRecord) error { p.pre[i] = r; return nil }
func (p *party) ContainsPreKey(i uint32) bool                { return p.pre[i] != nil }
func (p *party) RemovePreKey(i uint32)                       { p.op("removeprekey"); delete(p.pre, i) }
func (p *party) LoadSignedPreKey(i uint32) (*SignedPreKeyRecord, error) {
	if r := p.spre[i]; r != nil {
		return r, nil
	}
	return nil, fmt.Errorf("no signed prekey %d", i)
}
func (p *party) LoadSignedPreKeys() []SignedPreKeyRecord                    { return nil }
func (p *party) StoreSignedPreKey(i uint32, r *SignedPreKeyRecord) error    { p.spre[i] = r; return nil }
func (p *party) ContainsSignedPreKey(i uint32) bool                         { return p.spre[i] != nil }
func (p *party) RemoveSignedPreKey(i uint32)                                { delete(p.spre, i) }
func (p *party) Lock()                                                      {}
func (p *party) Unlock()                                                    {}
func (p *party) key(n string, d uint32) string                              { return fmt.Sprint(n, "/", d) }
func (p *party) LoadSession(n string, d uint32) (*SessionRecord, error) {
	if e := p.op("loadsession"); e != nil {
		return nil, e
	}
	if b := p.sess[p.key(n, d)]; b != nil {
		return LoadSessionRecord(b)
	}
	return NewSessionRecord(), nil
}
func (p *party) GetSubDeviceSessions(string) []uint32 { return nil }
func (p *party) StoreSession(n string, d uint32, r *SessionRecord) error {
	if e := p.op("storesession"); e != nil {
		return e
	}
	b, err := r.Serialize()
	if err == nil {
		p.sess[p.key(n, d)] = b
	}
	return err
}
func (p *party) ContainsSession(n string, d uint32) bool { return p.sess[p.key(n, d)] != nil }
func (p *party) DeleteSession(n string, d uint32)        { delete(p.sess, p.key(n, d)) }
func (p *party) DeleteAllSessions(n string)              { delete(p.sess, p.key(n, 1)) }

func (p *party) cipher(q *party) *SessionCipher { return NewSessionCipher(p, p, p, p, q.name, 1) }

// start makes p begin a session with q.
func (p *party) start(q *party, pre uint32) error {
	b, _ := NewPreKeyBundle(5, 1, 0, nil, 7, &q.spre[7].getKeyPair().PublicKey, q.spre[7].Spkrs.Signature, &q.id.PublicKey)
	if pre != 0 {
		b.PreKeyID, b.PreKeyPublic = pre, &q.pre[pre].getKeyPair().PublicKey
	}
	return NewSessionBuilder(p, p, p, p, q.name, 1).BuildSenderSession(b)
}

type wire struct {
	b []byte
	t int32
}

func (p *party) enc(t *testing.T, q *party, s string) wire {
	t.Helper()
	b, ty, err := p.cipher(q).SessionEncryptMessage([]byte(s))
	if err != nil {
		t.Fatalf("%s cannot encrypt %q: %v", p.name, s, err)
	}
	return wire{b, ty}
}

func (p *party) dec(q *party, m wire) (string, error) {
	if m.t == 3 {
		x, err := LoadPreKeyWhisperMessage(m.b)
		if err != nil {
			return "", err
		}
		b, err := p.cipher(q).SessionDecryptPreKeyWhisperMessage(x)
		return string(b), err
	}
	x, err := LoadWhisperMessage(m.b)
	if err != nil {
		return "", err
	}
	b, err := p.cipher(q).SessionDecryptWhisperMessage(x)
	return string(b), err
}

func (p *party) must(t *testing.T, q *party, m wire, want string) {
	t.Helper()
	s, err := p.dec(q, m)
	if err != nil || s != want {
		t.Fatalf("%s: got %q, %v; want %q", p.name, s, err, want)
	}
}

// pair has a session in which both have answered.
func pair(t *testing.T) (*party, *party) {
	a, b := newParty("a"), newParty("b")
	if err := a.start(b, 3); err != nil {
		t.Fatal(err)
	}
	b.must(t, a, a.enc(t, b, "hello"), "hello")
	a.must(t, b, b.enc(t, a, "hi"), "hi")
	b.must(t, a, a.enc(t, b, "ok"), "ok")
	return a, b
}
