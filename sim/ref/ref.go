// Package ref is an independent implementation of the Signal message
// protocol (X3DH and double ratchet, version 3), written from the published
// specification. Simulated peers use it; nothing in it comes from the code
// under test.
package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ed25519"
	"crypto/hkdf"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"

	"github.com/signal-golang/ed25519/edwards25519"
	"golang.org/x/crypto/curve25519"
	"google.golang.org/protobuf/encoding/protowire"
)

type KeyPair struct{ Priv, Pub [32]byte }

func GenKey(r io.Reader) KeyPair {
	var k KeyPair
	io.ReadFull(r, k.Priv[:])
	k.Priv[0] &= 248
	k.Priv[31] = k.Priv[31]&127 | 64
	curve25519.ScalarBaseMult(&k.Pub, &k.Priv)
	return k
}

func FromPriv(b []byte) KeyPair {
	var k KeyPair
	copy(k.Priv[:], b)
	k.Priv[0] &= 248
	k.Priv[31] = k.Priv[31]&127 | 64
	curve25519.ScalarBaseMult(&k.Pub, &k.Priv)
	return k
}

// Ser is the wire form of a public key.
func Ser(p [32]byte) []byte { return append([]byte{5}, p[:]...) }

func ParseKey(b []byte) (p [32]byte, err error) {
	if len(b) != 33 || b[0] != 5 {
		return p, fmt.Errorf("bad public key of %d bytes", len(b))
	}
	copy(p[:], b[1:])
	return p, nil
}

func dh(priv, pub [32]byte) []byte {
	var o [32]byte
	curve25519.ScalarMult(&o, &priv, &pub)
	return o[:]
}

// ---------------------------------------------------------------- XEdDSA

var (
	fieldP, _ = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)
	orderL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
)

func le(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func toLE(x *big.Int) (o [32]byte) {
	b := x.Bytes()
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return
}

// Verify checks an XEdDSA signature under a Curve25519 public key.
func Verify(pub [32]byte, msg, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	pub[31] &= 0x7f
	u := le(pub[:])
	num := new(big.Int).Sub(u, big.NewInt(1))
	den := new(big.Int).Add(u, big.NewInt(1))
	den.ModInverse(den, fieldP)
	if den == nil {
		return false
	}
	y := num.Mul(num, den)
	y.Mod(y, fieldP)
	a := toLE(y)
	a[31] |= sig[63] & 0x80
	s := append([]byte{}, sig...)
	s[63] &= 0x7f
	return ed25519.Verify(a[:], msg, s)
}

// Sign makes an XEdDSA signature.
func Sign(priv [32]byte, msg []byte, r io.Reader) []byte {
	var A edwards25519.ExtendedGroupElement
	var pub [32]byte
	edwards25519.GeScalarMultBase(&A, &priv)
	A.ToBytes(&pub)
	var rnd [64]byte
	io.ReadFull(r, rnd[:])
	h := sha512.New()
	pre := bytes.Repeat([]byte{0xff}, 32)
	pre[0] = 0xfe
	h.Write(pre)
	h.Write(priv[:])
	h.Write(msg)
	h.Write(rnd[:])
	rr := le(h.Sum(nil))
	rr.Mod(rr, orderL)
	rb := toLE(rr)
	var R edwards25519.ExtendedGroupElement
	var rEnc [32]byte
	edwards25519.GeScalarMultBase(&R, &rb)
	R.ToBytes(&rEnc)
	h.Reset()
	h.Write(rEnc[:])
	h.Write(pub[:])
	h.Write(msg)
	k := le(h.Sum(nil))
	k.Mul(k, le(priv[:]))
	k.Add(k, rr)
	k.Mod(k, orderL)
	s := toLE(k)
	sig := append(append([]byte{}, rEnc[:]...), s[:]...)
	sig[63] |= pub[31] & 0x80
	return sig
}

// ---------------------------------------------------------------- KDFs

func kdf(ikm, salt []byte, info string, n int) []byte {
	b, err := hkdf.Key(sha256.New, ikm, salt, info, n)
	if err != nil {
		panic(err)
	}
	return b
}

func hm(key []byte, data ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, d := range data {
		h.Write(d)
	}
	return h.Sum(nil)
}

type chain struct {
	key []byte
	idx uint32
}

func (c chain) next() chain { return chain{hm(c.key, []byte{2}), c.idx + 1} }

type MsgKeys struct{ Cipher, Mac, IV []byte }

func (c chain) keys() MsgKeys {
	b := kdf(hm(c.key, []byte{1}), make([]byte, 32), "WhisperMessageKeys", 80)
	return MsgKeys{b[:32], b[32:64], b[64:80]}
}

func ratchet(root []byte, ours, theirs [32]byte) (newRoot, ck []byte) {
	b := kdf(dh(ours, theirs), root, "WhisperRatchet", 64)
	return b[:32], b[32:]
}

func cbcEnc(key, iv, pt []byte) []byte {
	n := 16 - len(pt)%16
	p := append(append([]byte{}, pt...), bytes.Repeat([]byte{byte(n)}, n)...)
	blk, _ := aes.NewCipher(key)
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(p, p)
	return p
}

// CBCDecrypt removes AES-CBC encryption and its padding.
func CBCDecrypt(key, iv, ct []byte) ([]byte, error) {
	if len(ct) == 0 || len(ct)%16 != 0 {
		return nil, errors.New("ciphertext length")
	}
	blk, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	p := make([]byte, len(ct))
	cipher.NewCBCDecrypter(blk, iv).CryptBlocks(p, ct)
	n := int(p[len(p)-1])
	if n < 1 || n > 16 {
		return nil, errors.New("padding")
	}
	for _, b := range p[len(p)-n:] {
		if int(b) != n {
			return nil, errors.New("padding")
		}
	}
	return p[:len(p)-n], nil
}

// CBCEncrypt adds AES-CBC encryption with PKCS#7 padding.
func CBCEncrypt(key, iv, pt []byte) []byte { return cbcEnc(key, iv, pt) }

// ---------------------------------------------------------------- sessions

type skipped struct {
	idx uint32
	mk  MsgKeys
}

type recvChain struct {
	their [32]byte
	c     chain
	skip  []skipped
}

type pending struct {
	preKeyID, signedID uint32
	base               [32]byte
}

type State struct {
	localID, remoteID [32]byte
	root              []byte
	prevCtr           uint32
	sk                KeyPair
	sc                chain
	hasSend           bool
	recv              []recvChain
	pend              *pending
	base              [32]byte
	RemoteReg         uint32
	Serial            int      // numbers the sessions of a device
	OneTime           bool     // set up with a one-time prekey of the remote side or ours
	Roots             [][]byte // every root key this session ever had
}

func (s *State) clone() *State {
	n := *s
	n.recv = append([]recvChain{}, s.recv...)
	for i := range n.recv {
		n.recv[i].skip = append([]skipped{}, n.recv[i].skip...)
	}
	n.Roots = append([][]byte{}, s.Roots...)
	return &n
}

type Record struct {
	Cur  *State
	Prev []*State
}

// Device is one device of a peer account.
type Device struct {
	UUID     string
	ID       uint32
	RegID    uint32
	Identity KeyPair
	Signed   map[uint32]KeyPair
	SignedID uint32
	SigOf    map[uint32][]byte
	PreKeys  map[uint32]KeyPair
	Sess     map[string]*Record
	Rnd      io.Reader
	serial   int
	// Trusted identities of remote accounts (first use).
	Known map[string][32]byte
}

func NewDevice(uuid string, id uint32, identity KeyPair, r io.Reader) *Device {
	d := &Device{UUID: uuid, ID: id, Identity: identity, Signed: map[uint32]KeyPair{}, SigOf: map[uint32][]byte{}, PreKeys: map[uint32]KeyPair{}, Sess: map[string]*Record{}, Known: map[string][32]byte{}, Rnd: r}
	var b [4]byte
	io.ReadFull(r, b[:])
	d.RegID = binary.LittleEndian.Uint32(b[:])%16380 + 1
	d.NewSigned(uint32(1 + int(b[3])%5))
	return d
}

func (d *Device) NewSigned(id uint32) {
	k := GenKey(d.Rnd)
	d.Signed[id] = k
	d.SigOf[id] = Sign(d.Identity.Priv, Ser(k.Pub), d.Rnd)
	d.SignedID = id
}

func (d *Device) AddPreKeys(from, n uint32) {
	for i := uint32(0); i < n; i++ {
		d.PreKeys[from+i] = GenKey(d.Rnd)
	}
}

// Bundle is what a service hands out to set up a session.
type Bundle struct {
	Identity  [32]byte
	DeviceID  uint32
	RegID     uint32
	SignedID  uint32
	Signed    [32]byte
	Signature []byte
	HasPreKey bool
	PreKeyID  uint32
	PreKey    [32]byte
}

func x3dh(parts ...[]byte) (root, ck []byte) {
	ikm := bytes.Repeat([]byte{0xff}, 32)
	for _, p := range parts {
		ikm = append(ikm, p...)
	}
	b := kdf(ikm, make([]byte, 32), "WhisperText", 64)
	return b[:32], b[32:]
}

func (d *Device) rec(remote string) *Record {
	r := d.Sess[remote]
	if r == nil {
		r = &Record{}
		d.Sess[remote] = r
	}
	return r
}

func (r *Record) promote(s *State) {
	if r.Cur != nil {
		r.Prev = append([]*State{r.Cur}, r.Prev...)
		if len(r.Prev) > 40 {
			r.Prev = r.Prev[:40]
		}
	}
	r.Cur = s
}

// Start makes a new session with remote from its bundle.
func (d *Device) Start(remote string, b *Bundle) error {
	if !Verify(b.Identity, Ser(b.Signed), b.Signature) {
		return errors.New("signed prekey signature does not verify")
	}
	base := GenKey(d.Rnd)
	parts := [][]byte{dh(d.Identity.Priv, b.Signed), dh(base.Priv, b.Identity), dh(base.Priv, b.Signed)}
	p := &pending{signedID: b.SignedID, base: base.Pub}
	if b.HasPreKey {
		parts = append(parts, dh(base.Priv, b.PreKey))
		p.preKeyID = b.PreKeyID
	}
	root, ck := x3dh(parts...)
	d.serial++
	s := &State{localID: d.Identity.Pub, remoteID: b.Identity, pend: p, base: base.Pub, RemoteReg: b.RegID, Serial: d.serial, OneTime: b.HasPreKey}
	s.recv = []recvChain{{their: b.Signed, c: chain{ck, 0}}}
	s.sk = GenKey(d.Rnd)
	s.Roots = append(s.Roots, root)
	nr, sck := ratchet(root, s.sk.Priv, b.Signed)
	s.root, s.sc, s.hasSend = nr, chain{sck, 0}, true
	s.Roots = append(s.Roots, nr)
	d.rec(remote).promote(s)
	return nil
}

// LastSession is the number of the newest session.
func (d *Device) LastSession() int { return d.serial }

// HasSession reports whether the device can encrypt to remote.
func (d *Device) HasSession(remote string) bool {
	r := d.Sess[remote]
	return r != nil && r.Cur != nil
}

// Reset forgets all sessions with remote.
func (d *Device) Reset(remote string) { delete(d.Sess, remote) }

// Archive keeps the sessions with remote for what is still under way, but
// starts a new one for the next message.
func (d *Device) Archive(remote string) {
	if r := d.Sess[remote]; r != nil && r.Cur != nil {
		r.promote(nil)
	}
}

// Info describes the keys one message was encrypted with.
type Info struct {
	Session  int
	OneTime  bool
	Ratchet  [32]byte
	Counter  uint32
	ChainKey []byte // the chain key the message key was derived from
	Keys     MsgKeys
	PreKey   bool
	PreKeyID uint32
	BaseKey  [32]byte
	// Prior chain keys and root keys that would let one derive Keys.
	Roots [][]byte
}

const (
	TypeCipher = 1
	TypePreKey = 3
)

// Encrypt makes the wire form of a message to remote.
func (d *Device) Encrypt(remote string, pt []byte) (typ int, msg []byte, inf Info, err error) {
	r := d.Sess[remote]
	if r == nil || r.Cur == nil {
		return 0, nil, inf, errors.New("no session")
	}
	s := r.Cur
	mk := s.sc.keys()
	inf = Info{Session: s.Serial, OneTime: s.OneTime, Ratchet: s.sk.Pub, Counter: s.sc.idx, ChainKey: s.sc.key, Keys: mk, Roots: s.Roots}
	msg = BuildWhisper(s.sk.Pub, s.sc.idx, s.prevCtr, cbcEnc(mk.Cipher, mk.IV, pt), mk.Mac, s.localID, s.remoteID)
	s.sc = s.sc.next()
	typ = TypeCipher
	if s.pend != nil {
		typ = TypePreKey
		inf.PreKey, inf.PreKeyID, inf.BaseKey = true, s.pend.preKeyID, s.pend.base
		msg = BuildPreKey(d.RegID, s.pend.preKeyID, s.pend.signedID, s.pend.base, d.Identity.Pub, msg)
	}
	return
}

// BuildWhisper serialises and authenticates a ratchet message.
func BuildWhisper(rk [32]byte, ctr, prev uint32, ct, mac []byte, sender, receiver [32]byte) []byte {
	b := []byte{0x33}
	b = protowire.AppendTag(b, 1, protowire.BytesType)
	b = protowire.AppendBytes(b, Ser(rk))
	b = protowire.AppendTag(b, 2, protowire.VarintType)
	b = protowire.AppendVarint(b, uint64(ctr))
	b = protowire.AppendTag(b, 3, protowire.VarintType)
	b = protowire.AppendVarint(b, uint64(prev))
	b = protowire.AppendTag(b, 4, protowire.BytesType)
	b = protowire.AppendBytes(b, ct)
	return append(b, hm(mac, Ser(sender), Ser(receiver), b)[:8]...)
}

// BuildPreKey serialises a session setup message.
func BuildPreKey(reg, pk, spk uint32, base, id [32]byte, inner []byte) []byte {
	b := []byte{0x33}
	b = protowire.AppendTag(b, 5, protowire.VarintType)
	b = protowire.AppendVarint(b, uint64(reg))
	if pk != 0 {
		b = protowire.AppendTag(b, 1, protowire.VarintType)
		b = protowire.AppendVarint(b, uint64(pk))
	}
	b = protowire.AppendTag(b, 6, protowire.VarintType)
	b = protowire.AppendVarint(b, uint64(spk))
	b = protowire.AppendTag(b, 2, protowire.BytesType)
	b = protowire.AppendBytes(b, Ser(base))
	b = protowire.AppendTag(b, 3, protowire.BytesType)
	b = protowire.AppendBytes(b, Ser(id))
	b = protowire.AppendTag(b, 4, protowire.BytesType)
	b = protowire.AppendBytes(b, inner)
	return b
}

// Whisper is a parsed ratchet message.
type Whisper struct {
	Ratchet   [32]byte
	Counter   uint32
	Prev      uint32
	Body      []byte
	mac, data []byte
}

// PreKeyMsg is a parsed session setup message.
type PreKeyMsg struct {
	Reg, PreKeyID, SignedID uint32
	Base, Identity          [32]byte
	Inner                   []byte
}

func fields(b []byte, f func(n protowire.Number, v uint64, by []byte) error) error {
	for len(b) > 0 {
		n, t, l := protowire.ConsumeTag(b)
		if l < 0 {
			return protowire.ParseError(l)
		}
		b = b[l:]
		switch t {
		case protowire.VarintType:
			v, l := protowire.ConsumeVarint(b)
			if l < 0 {
				return protowire.ParseError(l)
			}
			b = b[l:]
			if err := f(n, v, nil); err != nil {
				return err
			}
		case protowire.BytesType:
			v, l := protowire.ConsumeBytes(b)
			if l < 0 {
				return protowire.ParseError(l)
			}
			b = b[l:]
			if err := f(n, 0, v); err != nil {
				return err
			}
		default:
			l := protowire.ConsumeFieldValue(n, t, b)
			if l < 0 {
				return protowire.ParseError(l)
			}
			b = b[l:]
		}
	}
	return nil
}

func ParseWhisper(b []byte) (*Whisper, error) {
	if len(b) < 10 || b[0]>>4 != 3 || b[0]&15 < 3 {
		return nil, errors.New("bad version or length")
	}
	w := &Whisper{data: b[:len(b)-8], mac: b[len(b)-8:]}
	err := fields(w.data[1:], func(n protowire.Number, v uint64, by []byte) (err error) {
		switch n {
		case 1:
			w.Ratchet, err = ParseKey(by)
		case 2:
			w.Counter = uint32(v)
		case 3:
			w.Prev = uint32(v)
		case 4:
			w.Body = by
		}
		return err
	})
	if err == nil && w.Body == nil {
		err = errors.New("no ciphertext")
	}
	return w, err
}

func ParsePreKey(b []byte) (*PreKeyMsg, error) {
	if len(b) < 2 || b[0]>>4 != 3 {
		return nil, errors.New("bad version or length")
	}
	p := &PreKeyMsg{}
	err := fields(b[1:], func(n protowire.Number, v uint64, by []byte) (err error) {
		switch n {
		case 1:
			p.PreKeyID = uint32(v)
		case 2:
			p.Base, err = ParseKey(by)
		case 3:
			p.Identity, err = ParseKey(by)
		case 4:
			p.Inner = by
		case 5:
			p.Reg = uint32(v)
		case 6:
			p.SignedID = uint32(v)
		}
		return err
	})
	return p, err
}

// Decrypt reads a message from remote. On error nothing changes.
func (d *Device) Decrypt(remote string, typ int, msg []byte) ([]byte, Info, error) {
	var inf Info
	r := d.rec(remote)
	switch typ {
	case TypeCipher:
		w, err := ParseWhisper(msg)
		if err != nil {
			return nil, inf, err
		}
		return d.decRecord(r, w)
	case TypePreKey:
		p, err := ParsePreKey(msg)
		if err != nil {
			return nil, inf, err
		}
		w, err := ParseWhisper(p.Inner)
		if err != nil {
			return nil, inf, err
		}
		try := &Record{Cur: r.Cur, Prev: r.Prev}
		known := r.Cur != nil && r.Cur.base == p.Base
		for _, s := range r.Prev {
			known = known || s.base == p.Base
		}
		if !known {
			sp, ok := d.Signed[p.SignedID]
			if !ok {
				return nil, inf, fmt.Errorf("no signed prekey %d", p.SignedID)
			}
			parts := [][]byte{dh(sp.Priv, p.Identity), dh(d.Identity.Priv, p.Base), dh(sp.Priv, p.Base)}
			if p.PreKeyID != 0 {
				op, ok := d.PreKeys[p.PreKeyID]
				if !ok {
					return nil, inf, fmt.Errorf("no prekey %d", p.PreKeyID)
				}
				parts = append(parts, dh(op.Priv, p.Base))
			}
			root, ck := x3dh(parts...)
			d.serial++
			s := &State{localID: d.Identity.Pub, remoteID: p.Identity, root: root, sk: sp, sc: chain{ck, 0}, hasSend: true, base: p.Base, RemoteReg: p.Reg, Serial: d.serial, OneTime: p.PreKeyID != 0}
			s.Roots = append(s.Roots, root)
			try.promote(s)
		}
		pt, inf, err := d.decRecord(try, w)
		if err != nil {
			return nil, inf, err
		}
		*r = *try
		if !known && p.PreKeyID != 0 {
			delete(d.PreKeys, p.PreKeyID)
		}
		inf.PreKey, inf.PreKeyID, inf.BaseKey = true, p.PreKeyID, p.Base
		return pt, inf, nil
	}
	return nil, inf, fmt.Errorf("unknown type %d", typ)
}

func (d *Device) decRecord(r *Record, w *Whisper) ([]byte, Info, error) {
	var firstErr error
	if r.Cur != nil {
		s := r.Cur.clone()
		pt, inf, err := d.decState(s, w)
		if err == nil {
			r.Cur = s
			return pt, inf, nil
		}
		firstErr = err
	} else {
		firstErr = errors.New("no session")
	}
	for i, p := range r.Prev {
		s := p.clone()
		pt, inf, err := d.decState(s, w)
		if err == nil {
			rest := append(append([]*State{}, r.Prev[:i]...), r.Prev[i+1:]...)
			r.Prev = rest
			r.promote(s)
			return pt, inf, nil
		}
	}
	return nil, Info{}, firstErr
}

func (d *Device) decState(s *State, w *Whisper) ([]byte, Info, error) {
	inf := Info{Session: s.Serial, OneTime: s.OneTime, Ratchet: w.Ratchet, Counter: w.Counter}
	ci := -1
	for i := range s.recv {
		if s.recv[i].their == w.Ratchet {
			ci = i
		}
	}
	if ci < 0 {
		r1, ck := ratchet(s.root, s.sk.Priv, w.Ratchet)
		nk := GenKey(d.Rnd)
		r2, sck := ratchet(r1, nk.Priv, w.Ratchet)
		s.Roots = append(s.Roots, r1, r2)
		s.recv = append(s.recv, recvChain{their: w.Ratchet, c: chain{ck, 0}})
		if len(s.recv) > 5 {
			s.recv = s.recv[1:]
		}
		ci = len(s.recv) - 1
		s.prevCtr = 0
		if s.sc.idx > 0 {
			s.prevCtr = s.sc.idx - 1
		}
		s.root, s.sk, s.sc = r2, nk, chain{sck, 0}
	}
	rc := &s.recv[ci]
	var mk MsgKeys
	if rc.c.idx > w.Counter {
		found := false
		for i, k := range rc.skip {
			if k.idx == w.Counter {
				mk = k.mk
				rc.skip = append(append([]skipped{}, rc.skip[:i]...), rc.skip[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return nil, inf, fmt.Errorf("duplicate message %d (expected %d)", w.Counter, rc.c.idx)
		}
	} else {
		if w.Counter-rc.c.idx > 2000 {
			return nil, inf, errors.New("too far in the future")
		}
		for rc.c.idx < w.Counter {
			rc.skip = append(rc.skip, skipped{rc.c.idx, rc.c.keys()})
			rc.c = rc.c.next()
		}
		inf.ChainKey = rc.c.key
		mk = rc.c.keys()
		rc.c = rc.c.next()
	}
	inf.Keys = mk
	inf.Roots = s.Roots
	if !hmac.Equal(hm(mk.Mac, Ser(s.remoteID), Ser(s.localID), w.data)[:8], w.mac) {
		return nil, inf, errors.New("bad MAC")
	}
	pt, err := CBCDecrypt(mk.Cipher, mk.IV, w.Body)
	if err != nil {
		return nil, inf, err
	}
	s.pend = nil
	return pt, inf, nil
}

// Pad and Unpad are the message padding of the service.
func Pad(b []byte) []byte {
	n := len(b) + 160 - len(b)%160
	o := make([]byte, n)
	copy(o, b)
	o[len(b)] = 0x80
	return o
}

func Unpad(b []byte) ([]byte, error) {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == 0x80 {
			return b[:i], nil
		}
		if b[i] != 0 {
			break
		}
	}
	return nil, errors.New("bad padding")
}

// HKDF and HMAC are exported for the other simulated parties.
func HKDF(ikm, salt []byte, info string, n int) []byte { return kdf(ikm, salt, info, n) }
func HMAC(key []byte, data ...[]byte) []byte           { return hm(key, data...) }
func DH(priv, pub [32]byte) []byte                     { return dh(priv, pub) }
