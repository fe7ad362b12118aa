package h

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"strconv"
	"strings"
	"time"

	"vsim/ref"
	"vsim/simrt"

	"github.com/golang/protobuf/proto"
	zkgroup "github.com/nanu-c/zkgroup"
	sp "github.com/signal-golang/textsecure/protobuf"
)

// PubKey is a published prekey.
type PubKey struct {
	ID  uint32
	Pub []byte // serialised, 33 bytes
	Sig []byte
	Bad string
}

// SDev is a device as the service knows it.
type SDev struct {
	ID, RegID uint32
	Identity  []byte
	Signed    *PubKey
	PreKeys   []*PubKey
	Last      *PubKey
	Dev       *ref.Device // a simulated device
	Name      string
	Created   uint64
	Uploads   int
}

// Account is an account of the service.
type Account struct {
	UUID, Tel, Password string
	SigKey              []byte
	Devs                map[uint32]*SDev
	Prof                *Prof
	PutProfiles         int
	Attrs               int
}

// Prof is a published profile.
type Prof struct {
	Version, Name string
	Commitment    []byte
	At            time.Time
	Avatar        string
}

// WireMsg is one ciphertext submitted for a device.
type WireMsg struct {
	Type    int    `json:"type"`
	Dev     uint32 `json:"destinationDeviceId"`
	Reg     uint32 `json:"destinationRegistrationId"`
	Content string `json:"content"`
	Raw     []byte `json:"-"`
}

// Put is one submission of messages by the client.
type Put struct {
	Dest     string
	Msgs     []WireMsg
	TS       uint64
	Status   int
	At       time.Time
	Accepted bool
	Fault    string
}

// Item is a request the service has to push to the client.
type Item struct {
	Body   []byte // as pushed (envelope, possibly encrypted)
	Path   string
	Verb   string
	Note   string
	Acked  int
	Pushes []*Push
	NoAck  bool   // forget acknowledgements
	Raw    []byte // replaces the whole websocket message
	Tag    any
	Of     *Sent // the message this is a copy of
	Ready  time.Time
}

// Server is the messaging service, its CDN, directory and storage service.
type Server struct {
	w             *World
	acct          map[string]*Account
	byTel         map[string]*Account
	socks         []*Sock
	Queue         []*Item
	qq            simrt.WaitQ
	reqID         uint64
	BigIDs        bool
	Puts          []*Put
	OnPut         func(p *Put, m WireMsg, d *SDev)
	OnStale       func(dest string)
	OnSubmit      func(p *Put) // every submission of ciphertexts, accepted or not
	OnAccept      func(p *Put, a *Account)
	OnKeys        func(uuid string, dev uint32) // every fetch of a peer's keys
	NeedsSync     bool
	Blobs         map[string][]byte
	BlobHost      map[string]string // where a blob is
	blobN         int
	Allocs        map[string]string
	Keys          []string // log of key fetches
	Hook          func(r *Req) *Resp
	CertN         int
	CertLife      time.Duration
	Certs         [][]byte
	CertGets      int
	ProvCodes     map[string]*ProvCode
	Prov          []*ProvMsg
	provN         int
	zk            *zkParams
	GroupCredGets int
	CredIssue     map[int64]int
	Groups        map[string]*SGroup
	OnStorage     func(r *Req, day int64, ok bool, why string)
	EncBody       int // 0 never, 1 sometimes, 2 always encrypt pushed bodies
	BundleMod     func(dest string, dev uint32, b map[string]any)
	LinkEver      bool
	UUIDSeed      uint64
	WhoAmI        string
	StorageAuth   []StorageAuth
	Dir           *Directory
	DevGone       map[string]bool
	StrictAuth    bool
	OnUpload      func(a *Account, d *SDev) // keys were published
	OnAck         func(k *Sock, a Ack)
	ZeroID        bool             // the first request of a connection has the id 0
	IdleLimit     time.Duration    // connections it hears nothing on for so long are closed
	OnProfile     func(a *Account) // a profile was published
	Registered    int              // times an account was registered
}

type StorageAuth struct {
	At  time.Time
	Day int64
	OK  bool
	Why string
}

type ProvCode struct {
	Code    string
	Issued  time.Time
	Used    bool
	Expired bool
}

type ProvMsg struct {
	ID   string
	Body []byte
	At   time.Time
}

type zkParams struct {
	secret zkgroup.ServerSecretParams
	public zkgroup.ServerPublicParams
	auth   *zkgroup.ServerZkAuthOperations
	prof   *zkgroup.ServerZkProfileOperations
}

var zkCache, zkOther *zkParams

func zkServer() *zkParams { return zkMake(&zkCache, "verification simulator") }

// otherZK are the parameters of another service.
func (w *World) otherZK() *zkParams { return zkMake(&zkOther, "some other service") }

func zkMake(c **zkParams, name string) *zkParams {
	if *c == nil {
		seed := make([]byte, 32)
		copy(seed, name)
		sec, err := zkgroup.GenerateServerSecretParamsDeterministic(seed)
		must(err)
		pub, err := sec.PublicParams()
		must(err)
		*c = &zkParams{sec, pub, zkgroup.NewServerZkAuthOperations(sec), zkgroup.NewServerZkProfileOperations(sec)}
	}
	return *c
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func newServer(w *World) *Server {
	return &Server{w: w, acct: map[string]*Account{}, byTel: map[string]*Account{}, Blobs: map[string][]byte{}, BlobHost: map[string]string{}, Allocs: map[string]string{},
		CertLife: 400 * 24 * time.Hour, ProvCodes: map[string]*ProvCode{}, zk: zkServer(), CredIssue: map[int64]int{}, Groups: map[string]*SGroup{}, reqID: 1000, DevGone: map[string]bool{}}
}

func uuidOf(b []byte) string {
	h := hex.EncodeToString(b)
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

func uuidBytes(s string) []byte {
	b, _ := hex.DecodeString(strings.ReplaceAll(s, "-", ""))
	if len(b) != 16 {
		return make([]byte, 16)
	}
	return b
}

func (w *World) newUUID() string {
	b := w.RandBytes(16)
	b[6] = b[6]&15 | 0x40
	b[8] = b[8]&0x3f | 0x80
	return uuidOf(b)
}

// register creates (or re-registers) an account; called by the crayfish model.
func (s *Server) register(tel, password string, sigKey []byte) *Account {
	a := s.byTel[tel]
	if a == nil {
		a = &Account{UUID: s.w.newUUID(), Tel: tel, Devs: map[uint32]*SDev{}}
		s.acct[a.UUID], s.byTel[tel] = a, a
	}
	s.Registered++
	a.Password, a.SigKey = password, append([]byte{}, sigKey...)
	// registering again invalidates what the account's device had
	a.Devs = map[uint32]*SDev{1: {ID: 1}}
	s.w.Logf("service: registered %s as %s", tel, a.UUID)
	return a
}

func (s *Server) addPeer(d *ref.Device, tel string) *SDev {
	a := s.acct[d.UUID]
	if a == nil {
		a = &Account{UUID: d.UUID, Tel: tel, Devs: map[uint32]*SDev{}, Password: "-"}
		s.acct[a.UUID] = a
		s.byTel[tel] = a
	}
	sd := &SDev{ID: d.ID, RegID: d.RegID, Dev: d, Name: "d" + strconv.Itoa(int(d.ID))}
	a.Devs[d.ID] = sd
	return sd
}

func jsonResp(v any) *Resp {
	b, err := json.Marshal(v)
	must(err)
	return &Resp{Status: 200, Header: http.Header{"Content-Type": {"application/json"}}, Body: b}
}

func status(n int) *Resp { return &Resp{Status: n, Body: nil} }

func b64(b []byte) string  { return base64.StdEncoding.EncodeToString(b) }
func b64n(b []byte) string { return base64.RawStdEncoding.EncodeToString(b) }

func unb64(s string) ([]byte, error) {
	s = strings.TrimRight(s, "=")
	return base64.RawStdEncoding.DecodeString(s)
}

func (s *Server) serve(r *Req) *Resp {
	if s.Hook != nil {
		if resp := s.Hook(r); resp != nil {
			return resp
		}
	}
	switch {
	case strings.HasPrefix(r.Host, "cdn"):
		return s.cdn(r)
	case strings.HasPrefix(r.Host, "storage."):
		return s.storage(r)
	case strings.HasPrefix(r.Host, "api.directory"):
		return s.directory(r)
	}
	return s.chat(r)
}

func (s *Server) auth(r *Req) *Account {
	a := s.acct[r.User]
	if a == nil {
		a = s.byTel[r.User]
	}
	if a == nil || !r.HasAuth || a.Password != r.Pass || a.Password == "" {
		return nil
	}
	return a
}

func (s *Server) chat(r *Req) *Resp {
	p := r.Path
	seg := strings.Split(strings.Trim(p, "/"), "/")
	if strings.HasPrefix(p, "/v1/profile/") && r.Method == "GET" {
		return s.getProfile(r, seg)
	}
	me := s.auth(r)
	if me == nil {
		s.w.Count("unauthorised")
		return status(401)
	}
	switch {
	case r.Method == "PUT" && strings.HasPrefix(p, "/v1/messages/") && len(seg) == 3:
		return s.putMessages(r, me, seg[2])
	case r.Method == "GET" && strings.HasPrefix(p, "/v2/keys/") && len(seg) == 4:
		return s.getKeys(seg[2], seg[3])
	case r.Method == "PUT" && strings.HasPrefix(p, "/v2/keys"):
		return s.putKeys(r, me)
	case r.Method == "PUT" && strings.HasPrefix(p, "/v1/profile"):
		var v struct {
			Version    string `json:"version"`
			Name       string `json:"name"`
			Commitment []byte `json:"commitment"`
		}
		if json.Unmarshal(r.Body, &v) != nil {
			return status(422)
		}
		me.Prof = &Prof{Version: v.Version, Name: v.Name, Commitment: v.Commitment, At: time.Now()}
		me.PutProfiles++
		if s.OnProfile != nil {
			s.OnProfile(me)
		}
		return &Resp{Status: 200, Body: nil}
	case p == "/v1/certificate/delivery":
		s.CertGets++
		c := s.cert(me, vnow().Add(s.CertLife))
		s.Certs = append(s.Certs, c)
		return jsonResp(map[string]any{"certificate": b64(c)})
	case strings.HasPrefix(p, "/v1/certificate/group/") && len(seg) == 5:
		a, e1 := strconv.ParseInt(seg[3], 10, 64)
		b, e2 := strconv.ParseInt(seg[4], 10, 64)
		today := vnow().Unix() / 86400
		if e1 != nil || e2 != nil || a > b || a < today-1 || b > today+8 {
			s.w.Count("group_cred_bad_range")
			return status(400)
		}
		s.GroupCredGets++
		var cs []map[string]any
		for d := a; d <= b; d++ {
			c, err := s.zk.auth.IssueAuthCredentialDeterministic(s.w.RandBytes(32), uuidBytes(me.UUID), uint32(d))
			must(err)
			cs = append(cs, map[string]any{"credential": b64(c), "redemptionTime": d})
		}
		return jsonResp(map[string]any{"credentials": cs})
	case p == "/v1/accounts/whoami":
		return jsonResp(map[string]any{"uuid": me.UUID})
	case strings.HasPrefix(p, "/v1/accounts/attributes"):
		var v map[string]any
		if json.Unmarshal(r.Body, &v) != nil {
			return status(422)
		}
		me.Attrs++
		return status(204)
	case p == "/v1/devices/provisioning/code":
		s.provN++
		c := &ProvCode{Code: fmt.Sprintf("%06d", 100000+(s.provN*7919+int(s.w.N(1000)))%900000), Issued: time.Now()}
		s.ProvCodes[c.Code] = c
		return jsonResp(map[string]any{"verificationCode": c.Code})
	case r.Method == "GET" && strings.HasPrefix(p, "/v1/devices"):
		var ds []map[string]any
		for _, d := range sortedDevs(me) {
			ds = append(ds, map[string]any{"id": d.ID, "name": d.Name, "created": d.Created, "lastSeen": d.Created})
		}
		return jsonResp(map[string]any{"devices": ds})
	case r.Method == "DELETE" && strings.HasPrefix(p, "/v1/devices/"):
		id, _ := strconv.Atoi(seg[2])
		if me.Devs[uint32(id)] == nil || id == 1 {
			return status(404)
		}
		delete(me.Devs, uint32(id))
		return status(204)
	case r.Method == "PUT" && strings.HasPrefix(p, "/v1/provisioning/") && len(seg) == 3:
		var v struct {
			Body string `json:"body"`
		}
		if json.Unmarshal(r.Body, &v) != nil {
			return status(422)
		}
		b, err := base64.StdEncoding.DecodeString(v.Body)
		if err != nil {
			return status(422)
		}
		if s.DevGone[seg[2]] {
			return status(404)
		}
		s.Prov = append(s.Prov, &ProvMsg{seg[2], b, time.Now()})
		return status(204)
	case p == "/v3/attachments/form/upload":
		s.blobN++
		key := fmt.Sprintf("att%d-%s", s.blobN, hex.EncodeToString(s.w.RandBytes(4)))
		return jsonResp(map[string]any{"cdn": 2, "key": key, "headers": map[string]string{"x-up": key}, "signedUploadLocation": "https://cdn2.signal.org/upload/start/" + key})
	case p == "/v1/directory/auth":
		if s.Dir != nil {
			return s.Dir.auth(me)
		}
	}
	s.w.Count("unknown_endpoint")
	return status(404)
}

func vnow() time.Time { return time.Now().Add(epochShift) }

func sortedDevs(a *Account) []*SDev {
	var r []*SDev
	for id := uint32(0); id < 64 && len(r) < len(a.Devs); id++ {
		if d := a.Devs[id]; d != nil {
			r = append(r, d)
		}
	}
	return r
}

func (s *Server) getProfile(r *Req, seg []string) *Resp {
	if len(seg) < 3 {
		return status(404)
	}
	a := s.acct[seg[2]]
	if a == nil {
		a = s.byTel[seg[2]]
	}
	if a == nil {
		return status(404)
	}
	v := map[string]any{"uuid": a.UUID, "capabilities": map[string]bool{"gv2": true}, "unidentifiedAccess": b64(make([]byte, 16)), "unrestrictedUnidentifiedAccess": false}
	if d := a.Devs[1]; d != nil {
		id := d.Identity
		if d.Dev != nil {
			id = ref.Ser(d.Dev.Identity.Pub)
		}
		v["identityKey"] = b64(id)
	}
	if a.Prof != nil {
		v["name"] = a.Prof.Name
		if a.Prof.Avatar != "" {
			v["avatar"] = a.Prof.Avatar
		}
	}
	if len(seg) == 5 {
		req, err := hex.DecodeString(seg[4])
		if err != nil || a.Prof == nil {
			return status(404)
		}
		if a.Prof.Version != seg[3] {
			// the service only has the current version
			return status(404)
		}
		c, err := s.zk.prof.IssueProfileKeyCredentialDeterministic(s.w.RandBytes(32), req, uuidBytes(a.UUID), a.Prof.Commitment)
		if err != nil {
			s.w.Count("profile_credential_refused")
			return status(400)
		}
		v["credential"] = b64(c)
	}
	return jsonResp(v)
}

// cert makes a sender certificate expiring at t.
func (s *Server) cert(a *Account, t time.Time) []byte {
	s.CertN++
	exp := uint64(t.UnixMilli())
	dev := uint32(1)
	key := make([]byte, 33)
	if d := a.Devs[1]; d != nil && d.Identity != nil {
		key = d.Identity
	}
	tel := a.Tel
	uu := a.UUID
	signer, err := proto.Marshal(&sp.ServerCertificate{Certificate: []byte{8, byte(s.CertN)}, Signature: make([]byte, 64)})
	must(err)
	sc := &sp.ServerCertificate{}
	must(proto.Unmarshal(signer, sc))
	inner, err := proto.Marshal(&sp.SenderCertificate_Certificate{SenderE164: &tel, SenderUuid: &uu, SenderDevice: &dev, Expires: &exp, IdentityKey: key, Signer: sc})
	must(err)
	sig := make([]byte, 64)
	sig[0] = byte(s.CertN)
	out, err := proto.Marshal(&sp.SenderCertificate{Certificate: inner, Signature: sig})
	must(err)
	return out
}

type pkJSON struct {
	ID  uint32 `json:"keyId"`
	Pub string `json:"publicKey"`
	Sig string `json:"signature,omitempty"`
}

func (k *pkJSON) dec() *PubKey {
	if k == nil {
		return nil
	}
	p := &PubKey{ID: k.ID}
	var err error
	if p.Pub, err = unb64(k.Pub); err != nil || len(p.Pub) != 33 || p.Pub[0] != 5 {
		p.Bad = "key not in the expected format"
	}
	if p.Sig, err = unb64(k.Sig); err != nil {
		p.Bad = "bad signature encoding"
	}
	return p
}

func (s *Server) putKeys(r *Req, me *Account) *Resp {
	var v struct {
		Identity string    `json:"identityKey"`
		PreKeys  []*pkJSON `json:"preKeys"`
		Last     *pkJSON   `json:"lastResortKey"`
		Signed   *pkJSON   `json:"signedPreKey"`
	}
	if json.Unmarshal(r.Body, &v) != nil {
		return status(422)
	}
	d := me.Devs[1]
	if d == nil {
		return status(403)
	}
	id, err := unb64(v.Identity)
	if err != nil || len(id) != 33 {
		return status(422)
	}
	d.Identity = id
	d.PreKeys = nil
	for _, k := range v.PreKeys {
		d.PreKeys = append(d.PreKeys, k.dec())
	}
	d.Last = v.Last.dec()
	d.Signed = v.Signed.dec()
	d.Uploads++
	if s.OnUpload != nil {
		s.OnUpload(me, d)
	}
	s.w.Logf("service: %d prekeys uploaded", len(d.PreKeys))
	return status(204)
}

// takeBundle hands out a bundle of the client's device to a peer.
func (s *Server) takeBundle(uuid string, dev uint32, oneTime bool) *ref.Bundle {
	a := s.acct[uuid]
	if a == nil || a.Devs[dev] == nil {
		return nil
	}
	d := a.Devs[dev]
	if d.Dev != nil {
		return s.refBundle(d, oneTime)
	}
	if d.Signed == nil || d.Identity == nil {
		return nil
	}
	b := &ref.Bundle{RegID: d.RegID, DeviceID: dev, SignedID: d.Signed.ID, Signature: d.Signed.Sig}
	var err error
	if b.Identity, err = ref.ParseKey(d.Identity); err != nil {
		return nil
	}
	if b.Signed, err = ref.ParseKey(d.Signed.Pub); err != nil {
		return nil
	}
	var k *PubKey
	if oneTime && len(d.PreKeys) > 0 {
		k = d.PreKeys[0]
		d.PreKeys = d.PreKeys[1:]
	} else {
		k = d.Last
	}
	if k != nil && k.Bad == "" {
		if p, err := ref.ParseKey(k.Pub); err == nil {
			b.HasPreKey, b.PreKey, b.PreKeyID = true, p, k.ID
		}
	}
	return b
}

func (s *Server) refBundle(d *SDev, oneTime bool) *ref.Bundle {
	x := d.Dev
	b := &ref.Bundle{RegID: x.RegID, DeviceID: x.ID, SignedID: x.SignedID, Signature: x.SigOf[x.SignedID], Identity: x.Identity.Pub, Signed: x.Signed[x.SignedID].Pub}
	if oneTime {
		var ids []uint32
		for id := range x.PreKeys {
			if d.PreKeys == nil || !d.taken(id) {
				ids = append(ids, id)
			}
		}
		if len(ids) > 0 {
			m := ids[0]
			for _, i := range ids {
				m = min(m, i)
			}
			d.PreKeys = append(d.PreKeys, &PubKey{ID: m})
			p := x.PreKeys[m].Pub
			b.HasPreKey, b.PreKey, b.PreKeyID = true, p, m
		}
	}
	return b
}

func (d *SDev) taken(id uint32) bool {
	for _, k := range d.PreKeys {
		if k.ID == id {
			return true
		}
	}
	return false
}

// getKeys answers a prekey request of the client for a peer's device.
func (s *Server) getKeys(uuid, dev string) *Resp {
	s.Keys = append(s.Keys, uuid+"/"+dev)
	a := s.acct[uuid]
	id, err := strconv.Atoi(dev)
	if a == nil || err != nil || a.Devs[uint32(id)] == nil {
		return status(404)
	}
	d := a.Devs[uint32(id)]
	if s.OnKeys != nil {
		s.OnKeys(uuid, d.ID)
	}
	var b *ref.Bundle
	if d.Dev != nil {
		b = s.refBundle(d, true)
	} else if b = s.takeBundle(uuid, d.ID, true); b == nil {
		return status(404)
	}
	item := map[string]any{"deviceId": b.DeviceID, "registrationId": b.RegID,
		"signedPreKey": map[string]any{"keyId": b.SignedID, "publicKey": b64n(ref.Ser(b.Signed)), "signature": b64n(b.Signature)}}
	if b.HasPreKey {
		item["preKey"] = map[string]any{"keyId": b.PreKeyID, "publicKey": b64n(ref.Ser(b.PreKey))}
	}
	v := map[string]any{"identityKey": b64n(ref.Ser(b.Identity)), "devices": []any{item}}
	if s.BundleMod != nil {
		s.BundleMod(uuid, b.DeviceID, v)
	}
	return jsonResp(v)
}

// putMessages accepts messages for all devices of an account, or refuses.
func (s *Server) putMessages(r *Req, me *Account, dest string) *Resp {
	var v struct {
		Messages  []WireMsg `json:"messages"`
		Timestamp uint64    `json:"timestamp"`
		Dest      string    `json:"destination"`
	}
	if json.Unmarshal(r.Body, &v) != nil {
		return status(422)
	}
	p := &Put{Dest: dest, Msgs: v.Messages, TS: v.Timestamp, At: time.Now(), Fault: r.Fault}
	s.Puts = append(s.Puts, p)
	done := func(resp *Resp) *Resp {
		p.Status = resp.Status
		s.w.Logf("service: PUT messages for %s (%d) -> %d", short(dest), len(p.Msgs), resp.Status)
		return resp
	}
	for i := range p.Msgs {
		b, err := unb64(p.Msgs[i].Content)
		if err != nil {
			return done(status(422))
		}
		p.Msgs[i].Raw = b
	}
	if s.OnSubmit != nil {
		s.OnSubmit(p)
	}
	a := s.acct[dest]
	if a == nil {
		return done(status(404))
	}
	seen := map[uint32]int{}
	for _, m := range p.Msgs {
		seen[m.Dev]++
	}
	var missing, extra, stale []uint32
	for _, d := range sortedDevs(a) {
		if a == me && d.ID == 1 {
			continue
		}
		if seen[d.ID] == 0 {
			missing = append(missing, d.ID)
		}
	}
	for _, m := range p.Msgs {
		d := a.Devs[m.Dev]
		if d == nil || a == me && m.Dev == 1 {
			extra = append(extra, m.Dev)
		} else if d.RegID != m.Reg {
			stale = append(stale, m.Dev)
		}
	}
	if len(missing)+len(extra) > 0 {
		s.w.Count("mismatched_devices_409")
		x := jsonResp(map[string]any{"missingDevices": nz(missing), "extraDevices": nz(extra)})
		x.Status = 409
		return done(x)
	}
	if len(stale) > 0 {
		s.w.Count("stale_devices_410")
		x := jsonResp(map[string]any{"staleDevices": stale})
		x.Status = 410
		if s.OnStale != nil {
			s.OnStale(dest)
		}
		return done(x)
	}
	p.Accepted = true
	if s.OnAccept != nil {
		s.OnAccept(p, a)
	}
	needs := s.NeedsSync && a != me
	resp := done(jsonResp(map[string]any{"needsSync": needs}))
	if s.OnPut != nil {
		for _, m := range p.Msgs {
			s.OnPut(p, m, a.Devs[m.Dev])
		}
	}
	return resp
}

func nz(x []uint32) []uint32 {
	if x == nil {
		return []uint32{}
	}
	return x
}

// ---------------------------------------------------------------- CDN

func (s *Server) cdn(r *Req) *Resp {
	switch {
	case r.Method == "POST" && strings.HasPrefix(r.Path, "/upload/start/"):
		key := strings.TrimPrefix(r.Path, "/upload/start/")
		if r.Header.Get("x-up") != key {
			return status(403)
		}
		loc := "up-" + key
		s.Allocs[loc] = key
		return &Resp{Status: 201, Header: http.Header{"Location": {"https://cdn2.signal.org/upload/put/" + loc}}}
	case r.Method == "PUT" && strings.HasPrefix(r.Path, "/upload/put/"):
		key := s.Allocs[strings.TrimPrefix(r.Path, "/upload/put/")]
		if key == "" {
			return status(404)
		}
		s.Blobs[key] = append([]byte{}, r.Body...)
		return status(200)
	case r.Method == "GET" && strings.HasPrefix(r.Path, "/attachments/"):
		if h := s.BlobHost[strings.TrimPrefix(r.Path, "/attachments/")]; h != "" && h != r.Host {
			return status(404)
		}
		if b, ok := s.Blobs[strings.TrimPrefix(r.Path, "/attachments/")]; ok {
			return &Resp{Status: 200, Body: b}
		}
		return &Resp{Status: 404, Body: []byte("<?xml version=\"1.0\"?><Error><Code>NoSuchKey</Code></Error>")}
	case r.Method == "GET":
		if b, ok := s.Blobs[strings.Trim(r.Path, "/")]; ok {
			return &Resp{Status: 200, Body: b}
		}
	}
	return status(404)
}
