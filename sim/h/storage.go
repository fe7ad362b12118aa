package h

import (
	"bytes"
	"encoding/hex"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	zkgroup "github.com/nanu-c/zkgroup"
	sp "github.com/signal-golang/textsecure/protobuf"
)

// GMember is a member of a group, as the service stores it.
type GMember struct {
	UUID     string
	Role     sp.Member_Role
	Joined   uint32
	Key      []byte // profile key
	id, pkey []byte // encrypted
}

// GVer is a state a group had.
type GVer struct {
	Rev     uint32
	Title   string
	Members []GMember
	Pending []GMember
	wire    []byte
	raw     *sp.Group // ... unencoded
}

func (v *GVer) uuids() []string {
	var u []string
	for _, m := range v.Members {
		u = append(u, m.UUID)
	}
	sort.Strings(u)
	return u
}

func (v *GVer) has(uuid string) bool  { return find(v.Members, uuid) >= 0 }
func (v *GVer) invited(u string) bool { return find(v.Pending, u) >= 0 }
func (v *GVer) names() string         { return strings.Join(v.uuids(), " ") }
func (v *GVer) clone() *GVer {
	c := *v
	c.wire, c.raw = nil, nil
	c.Members = append([]GMember{}, v.Members...)
	c.Pending = append([]GMember{}, v.Pending...)
	return &c
}

func find(ms []GMember, uuid string) int {
	for i, m := range ms {
		if m.UUID == uuid {
			return i
		}
	}
	return -1
}

// SGroup is a group of the storage service.
type SGroup struct {
	s      *Server
	Key    []byte
	Hex    string
	secret zkgroup.GroupSecretParams
	public zkgroup.GroupPublicParams
	cipher *zkgroup.ClientZkGroupCipher
	Vers   []*GVer
	Served map[*GVer]int // how often it was given to the client
	known  map[string]GMember
}

// NewGroup creates a group of the given accounts.
func (s *Server) NewGroup(title string, uuids ...string) *SGroup {
	key := s.w.RandBytes(32)
	sec, err := zkgroup.NewGroupSecretParams(key)
	must(err)
	pub, err := sec.PublicParams()
	must(err)
	g := &SGroup{s: s, Key: key, Hex: hex.EncodeToString(key), secret: sec, public: pub, cipher: zkgroup.NewClientZkGroupCipher(sec), Served: map[*GVer]int{}, known: map[string]GMember{}}
	v := &GVer{Title: title}
	for i, u := range uuids {
		m := g.member(u)
		m.Role = sp.Member_DEFAULT
		if i == 0 {
			m.Role = sp.Member_ADMINISTRATOR
		}
		v.Members = append(v.Members, m)
	}
	g.Vers = []*GVer{v}
	s.Groups[hex.EncodeToString(pub)] = g
	return g
}

func (g *SGroup) Now() *GVer { return g.Vers[len(g.Vers)-1] }

// Change gives the group another state.
func (g *SGroup) Change(f func(v *GVer)) *GVer {
	v := g.Now().clone()
	v.Rev++
	f(v)
	g.Vers = append(g.Vers, v)
	g.s.w.Logf("storage: group %s has revision %d: members %s", g.Hex[:8], v.Rev, v.names())
	return v
}

// member encrypts what the group holds of an account. Its profile key is made up.
func (g *SGroup) member(uuid string) GMember {
	if m, ok := g.known[uuid]; ok {
		return m
	}
	w := g.s.w
	m := GMember{UUID: uuid}
	var err error
	m.id, err = g.cipher.EncryptUUID(uuidBytes(uuid))
	must(err)
	// the library only encrypts profile keys within presentations
	m.Key = w.RandBytes(32)
	ctx, err := zkgroup.CreateProfileKeyCredentialRequestContext(g.s.zk.public, uuidBytes(uuid), m.Key)
	must(err)
	req, err := ctx.ProfileKeyCredentialRequestContextGetRequest()
	must(err)
	com, err := zkgroup.ProfileKeyGetCommitment(m.Key, uuidBytes(uuid))
	must(err)
	resp, err := g.s.zk.prof.IssueProfileKeyCredentialDeterministic(w.RandBytes(32), req, uuidBytes(uuid), com)
	must(err)
	cred, err := g.s.zk.public.ReceiveProfileKeyCredential(ctx, resp)
	must(err)
	pr, err := g.s.zk.public.CreateProfileKeyCredentialPresentation(g.secret, cred)
	must(err)
	pres, err := zkgroup.NewProfileKeyCredentialPresentation(pr)
	must(err)
	m.pkey, err = pres.ProfileKeyCiphertext()
	must(err)
	g.known[uuid] = m
	return m
}

func (m *GMember) wire() *sp.Member {
	return &sp.Member{UserId: m.id, Role: m.Role, ProfileKey: m.pkey, JoinedAtRevision: m.Joined}
}

func (g *SGroup) blob(b *sp.GroupAttributeBlob) []byte {
	p, err := proto.Marshal(b)
	must(err)
	c, err := g.cipher.EncryptBlobDeterministic(g.s.w.RandBytes(32), p)
	must(err)
	return c
}

func (g *SGroup) proto(v *GVer) *sp.Group {
	r := &sp.Group{PublicKey: g.public, Title: g.blob(&sp.GroupAttributeBlob{Content: &sp.GroupAttributeBlob_Title{Title: v.Title}}), Revision: v.Rev,
		AccessControl: &sp.AccessControl{Attributes: sp.AccessControl_MEMBER, Members: sp.AccessControl_MEMBER}}
	for i := range v.Members {
		r.Members = append(r.Members, v.Members[i].wire())
	}
	for i := range v.Pending {
		m := v.Pending[i].wire()
		m.ProfileKey = nil
		r.PendingMembers = append(r.PendingMembers, &sp.PendingMember{Member: m, AddedByUserId: v.Members[0].id, Timestamp: uint64(vnow().UnixMilli())})
	}
	return r
}

// Actions is the signed change that led from version i-1 to version i.
func (g *SGroup) Actions(i int) []byte {
	old, v := g.Vers[i-1], g.Vers[i]
	a := &sp.GroupChange_Actions{SourceUuid: v.Members[0].id, Revision: v.Rev}
	for j := range v.Members {
		if m := &v.Members[j]; !old.has(m.UUID) {
			if old.invited(m.UUID) {
				a.PromotePendingMembers = append(a.PromotePendingMembers, &sp.GroupChange_Actions_PromotePendingMemberAction{UserId: m.id, ProfileKey: m.pkey})
			} else {
				a.AddMembers = append(a.AddMembers, &sp.GroupChange_Actions_AddMemberAction{Added: m.wire()})
			}
		}
	}
	for j := range old.Members {
		if m := &old.Members[j]; !v.has(m.UUID) {
			a.DeleteMembers = append(a.DeleteMembers, &sp.GroupChange_Actions_DeleteMemberAction{DeletedUserId: m.id})
		}
	}
	for j := range v.Pending {
		if m := &v.Pending[j]; !old.invited(m.UUID) {
			x := m.wire()
			x.ProfileKey = nil
			a.AddPendingMembers = append(a.AddPendingMembers, &sp.GroupChange_Actions_AddPendingMemberAction{Added: &sp.PendingMember{Member: x, AddedByUserId: v.Members[0].id}})
		}
	}
	if v.Title != old.Title {
		a.ModifyTitle = &sp.GroupChange_Actions_ModifyTitleAction{Title: g.blob(&sp.GroupAttributeBlob{Content: &sp.GroupAttributeBlob_Title{Title: v.Title}})}
	}
	b, err := proto.Marshal(a)
	must(err)
	sig, err := g.s.zk.secret.SignDeterministic(g.s.w.RandBytes(32), b)
	must(err)
	c, err := proto.Marshal(&sp.GroupChange{Actions: b, ServerSignature: sig, ChangeEpoch: 1})
	must(err)
	return c
}

// storage is the storage service.
func (s *Server) storage(r *Req) *Resp {
	note := func(day int64, ok bool, why string) {
		s.StorageAuth = append(s.StorageAuth, StorageAuth{At: r.At, Day: day, OK: ok, Why: why})
		if s.OnStorage != nil {
			s.OnStorage(r, day, ok, why)
		}
	}
	pub, e1 := hex.DecodeString(r.User)
	raw, e2 := hex.DecodeString(r.Pass)
	if !r.HasAuth || e1 != nil || e2 != nil || len(pub) == 0 || len(raw) == 0 {
		note(0, false, "no presentation")
		return status(401)
	}
	pres, err := zkgroup.NewAuthCredentialPresentation(raw)
	if err != nil {
		note(0, false, "presentation cannot be parsed: "+err.Error())
		return status(401)
	}
	d, err := pres.RedemptionTime()
	must(err)
	day := int64(d)
	if err := s.zk.auth.VerifyAuthCredentialPresentation(pub, pres); err != nil {
		note(day, false, "presentation does not verify: "+err.Error())
		return status(401)
	}
	g := s.Groups[r.User]
	if g == nil {
		note(day, true, "")
		return status(404)
	}
	ct, err := pres.UUIDCiphertext()
	must(err)
	id, err := g.cipher.DecryptUUID(ct)
	if err != nil {
		note(day, false, "presentation of another group")
		return status(401)
	}
	who := uuidOf(id)
	a := s.w.Node.Acct()
	if a == nil || who != a.UUID {
		note(day, false, "presentation of another account: "+who)
		return status(403)
	}
	note(day, true, "")
	if today := vnow().Unix() / 86400; s.StrictAuth && (day < today-1 || day > today+1) {
		s.w.Count("storage_refused_day")
		return status(401)
	}
	v := g.Now()
	if !v.has(who) && !v.invited(who) {
		s.w.Count("storage_not_a_member")
		return status(403)
	}
	switch {
	case r.Method == "GET" && r.Path == "/v1/groups/":
		if v.wire == nil {
			v.raw = g.proto(v)
			v.wire, err = proto.Marshal(v.raw)
			must(err)
		}
		s.w.Count("storage_group_served")
		switch r.Fault {
		case "", "slow":
			g.Served[v]++
		}
		return &Resp{Status: 200, Body: v.wire}
	case r.Method == "PATCH" && r.Path == "/v1/groups/":
		return s.patchGroup(g, v, who, r)
	}
	s.w.Count("unknown_endpoint")
	return status(404)
}

// patchGroup lets an invited account join.
func (s *Server) patchGroup(g *SGroup, v *GVer, who string, r *Req) *Resp {
	a := &sp.GroupChange_Actions{}
	if proto.Unmarshal(r.Body, a) != nil {
		return status(400)
	}
	if a.Revision != v.Rev+1 {
		s.w.Count("storage_conflict")
		return status(409)
	}
	if len(a.PromotePendingMembers) != 1 {
		return status(400)
	}
	pres, err := zkgroup.NewProfileKeyCredentialPresentation(a.PromotePendingMembers[0].Presentation)
	if err != nil || s.zk.prof.VerifyProfileKeyCredentialPresentation(g.public, pres) != nil {
		s.w.Count("storage_bad_presentation")
		return status(400)
	}
	ct, err := pres.UUIDCiphertext()
	must(err)
	id, err := g.cipher.DecryptUUID(ct)
	if err != nil || uuidOf(id) != who || !v.invited(who) {
		return status(403)
	}
	pk, err := pres.ProfileKeyCiphertext()
	must(err)
	key, err := g.cipher.DecryptProfileKey(pk, id)
	must(err)
	g.Change(func(n *GVer) {
		i := find(n.Pending, who)
		n.Pending = append(n.Pending[:i:i], n.Pending[i+1:]...)
		n.Members = append(n.Members, GMember{UUID: who, Role: sp.Member_DEFAULT, Joined: n.Rev, Key: key, id: ct, pkey: pk})
	})
	s.w.Count("storage_joined")
	return &Resp{Status: 200, Body: g.Actions(len(g.Vers) - 1)}
}

// version is the state of the group with these revision and members, or nil.
func (g *SGroup) version(rev uint32, members []GMember) *GVer {
	for i := len(g.Vers) - 1; i >= 0; i-- {
		v := g.Vers[i]
		if v.Rev != rev || len(v.Members) != len(members) {
			continue
		}
		same := true
		for _, m := range members {
			j := find(v.Members, m.UUID)
			same = same && j >= 0 && bytes.Equal(v.Members[j].Key, m.Key) && v.Members[j].Role == m.Role
		}
		if same {
			return v
		}
	}
	return nil
}
