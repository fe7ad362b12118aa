package h

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"vsim/ref"
	"vsim/simrt"

	textsecure "github.com/signal-golang/textsecure"
	sp "github.com/signal-golang/textsecure/protobuf"
)

// attIn is an attachment a peer uploaded.
type attIn struct {
	plain []byte // what the application must get
	ptr   *sp.AttachmentPointer
	key   string // its name at the CDN
	bad   string // what is wrong with it
	of    *Sent
}

// attachments follows what peers and the client upload.
type attachments struct {
	f      *Flow
	byKey  map[string]*attIn
	in     map[*Sent][]*attIn
	out    map[string]*attOut // by body
	plan   int
	msgBad int // faults of requests that are no uploads or downloads
	upBad  int
	n      int
}

type attOut struct {
	plain  []byte
	o      *outMsg
	rdErr  bool
	voice  bool
	msgBad int
	upBad  int
	ptrs   map[*Peer]*sp.AttachmentPointer
}

var errRead = errors.New("reading the file failed")

// srcReader is the application's file.
type srcReader struct {
	b    []byte
	n    int // bytes per call, 0 for all
	err  error
	late bool // the last bytes come together with the error
	slow bool
	once bool // the next call finds nothing wrong
}

func (r *srcReader) Read(p []byte) (int, error) {
	if r.slow {
		simrt.Sleep(20 * time.Millisecond)
	}
	if len(r.b) == 0 {
		return 0, r.fail()
	}
	n := len(p)
	if r.n > 0 {
		n = min(n, r.n)
	}
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 && r.late {
		return n, r.fail()
	}
	return n, nil
}

func (r *srcReader) fail() error {
	err := r.err
	if r.once {
		r.err = io.EOF
	}
	return err
}

func (w *World) attSize() int {
	switch w.Weighted(2, 3, 3, 2, 1) {
	case 0:
		return w.N(3)
	case 1:
		return w.N(100)
	case 2:
		return 16*w.N(140) + w.N(3) - 1 + 1
	case 3:
		return []int{1023, 1024, 1025, 2048, 4096}[w.N(5)]
	default:
		return 1000 + w.N(120000)
	}
}

func (w *World) attBytes(n int) []byte {
	b := w.RandBytes(min(n, 64))
	for len(b) < n {
		b = append(b, b[:min(len(b), n-len(b))]...)
	}
	if n > 40 { // not periodic
		for i := 0; i < n; i += 97 {
			b[i] ^= byte(i >> 3)
		}
	}
	if n > 8 && w.Chance(1, 4) {
		copy(b, []byte("\x89PNG\r\n\x1a\n"))
	}
	return b
}

// upload encrypts b as the protocol says.
func (w *World) upload(b []byte, pad int) (blob, keys, digest []byte) {
	keys = w.RandBytes(64)
	iv := w.RandBytes(16)
	p := append(append([]byte{}, b...), make([]byte, pad)...)
	blob = append(append([]byte{}, iv...), ref.CBCEncrypt(keys[:32], iv, p)...)
	blob = append(blob, ref.HMAC(keys[32:], blob)...)
	d := sha256.Sum256(blob)
	return blob, keys, d[:]
}

// pointer uploads an attachment, and spoils it, maybe.
func (x *attachments) pointer(spoil bool) *attIn {
	w := x.f.w
	x.n++
	b := w.attBytes(w.attSize())
	pad := 0
	if len(b) > 0 && w.Chance(1, 3) {
		pad = w.N(200)
	}
	blob, keys, digest := w.upload(b, pad)
	size := uint32(len(b))
	ct, fn := []string{"image/png", "text/plain", "application/x-" + w.Uniq("t")}[w.N(3)], w.Uniq("file")
	cdn := []uint32{0, 2}[w.N(2)]
	a := &attIn{plain: b, key: fmt.Sprintf("k%d-%x", x.n, w.RandBytes(5))}
	a.ptr = &sp.AttachmentPointer{CdnNumber: &cdn, ContentType: &ct, Key: keys, Digest: digest, Size: &size, FileName: &fn}
	if w.Chance(1, 3) {
		id := uint64(1+x.n)<<20 + uint64(w.N(1<<20))
		a.key = fmt.Sprint(id)
		a.ptr.AttachmentIdentifier = &sp.AttachmentPointer_CdnId{CdnId: id}
	} else {
		a.ptr.AttachmentIdentifier = &sp.AttachmentPointer_CdnKey{CdnKey: a.key}
	}
	if w.Chance(1, 6) {
		a.ptr.Digest = nil
	}
	w.Srv.BlobHost[a.key] = []string{"cdn.signal.org", "cdn2.signal.org"}[cdn/2]
	w.Srv.Blobs[a.key] = blob
	x.byKey[a.key] = a
	if !spoil {
		return a
	}
	a.bad = []string{"missing", "truncated", "extended", "flipped", "swapped", "page", "digest", "key", "shortkey", "oversize", "nowhere", "blockcut", "badkeychars", "othermac"}[w.N(14)]
	switch a.bad {
	case "missing":
		delete(w.Srv.Blobs, a.key)
	case "truncated":
		w.Srv.Blobs[a.key] = blob[:w.N(len(blob))]
	case "blockcut":
		w.Srv.Blobs[a.key] = blob[:16*w.N((len(blob)+15)/16)]
	case "extended":
		w.Srv.Blobs[a.key] = append(append([]byte{}, blob...), w.RandBytes(1+w.N(64))...)
	case "flipped":
		blob[w.N(len(blob))] ^= byte(1 << w.N(8))
	case "swapped":
		o, _, _ := w.upload(w.attBytes(w.attSize()), 0)
		w.Srv.Blobs[a.key] = o
	case "page":
		w.Srv.Blobs[a.key] = []byte("<html><body>This content is not available in your country, please try again later or ask your provider</body></html>")
	case "digest":
		if a.ptr.Digest == nil {
			a.ptr.Digest = digest
		}
		a.ptr.Digest[w.N(len(digest))] ^= 1
	case "key": // the half of it that the MAC shows
		a.ptr.Key[32+w.N(32)] ^= 1
	case "shortkey":
		a.ptr.Key = keys[:w.N(64)]
	case "oversize":
		n := size + uint32(pad) + 17 + uint32(w.N(100000))
		a.ptr.Size = &n
	case "nowhere":
		a.ptr.AttachmentIdentifier = nil
	case "badkeychars":
		a.ptr.AttachmentIdentifier = &sp.AttachmentPointer_CdnKey{CdnKey: []string{"%zz", "a b\x7f", "../../v1/x", "\x00"}[w.N(4)]}
	case "othermac": // a blob that is genuine, but for other keys
		for _, k := range sortedKeys(x.byKey) {
			if o := x.byKey[k]; o != a && o.bad == "" {
				w.Srv.Blobs[a.key] = w.Srv.Blobs[k]
				break
			}
		}
		if bytes.Equal(w.Srv.Blobs[a.key], blob) {
			delete(w.Srv.Blobs, a.key)
		}
	}
	w.Count("attachment_" + a.bad)
	return a
}

// send makes a peer send a message with attachments.
func (x *attachments) receive(p *Peer) *Sent {
	f, w := x.f, x.f.w
	id := w.Uniq("in")
	c := p.Text(id)
	var as []*attIn
	for i := w.Weighted(5, 2, 1, 1); i >= 0; i-- {
		a := x.pointer(w.Chance(1, 5))
		as = append(as, a)
		c.DataMessage.Attachments = append(c.DataMessage.Attachments, a.ptr)
	}
	s, err := p.Encrypt(id, "text", c)
	if s = f.note(s, err); s == nil {
		return nil
	}
	w.Count("attachments_sent_to_client")
	x.in[s] = as
	for _, a := range as {
		a.of = s
		if a.bad != "" {
			s.Excuse = "an attachment is " + a.bad
		}
	}
	s.Check = func(h *Handed) string { return x.check(h, as, s) }
	return s
}

func (x *attachments) check(h *Handed, as []*attIn, s *Sent) string {
	w := x.f.w
	w.Count("message_with_attachments_handed")
	w.Evals++
	list := h.Msg.Attachments()
	k := 0
	for _, b := range list {
		if b == nil {
			continue
		}
		k++
	}
	if k == len(as) && len(h.Atts) == len(as) {
		for i, a := range as {
			switch {
			case a.bad != "":
				w.Violate("C12", "bad attachment handed over", "attachment %d of %s is %s, and was handed over (%d bytes)", i, s.ID, a.bad, len(h.Atts[i]))
			case !bytes.Equal(h.Atts[i], a.plain):
				w.Violate("C12", "altered attachment", "attachment %d of %s is %d bytes and was handed over as %d other bytes", i, s.ID, len(a.plain), len(h.Atts[i]))
			case list[i].MimeType != a.ptr.GetContentType() || list[i].FileName != a.ptr.GetFileName():
				w.Violate("C12", "altered attachment", "attachment %d of %s is %q of type %q, and was handed over as %q of type %q", i, s.ID, a.ptr.GetFileName(), a.ptr.GetContentType(), list[i].FileName, list[i].MimeType)
			}
		}
		return ""
	}
	if s.Excuse == "" {
		w.Violate("C12", "attachment missing", "%s was handed over with %d of %d attachments, though every download worked", s.ID, k, len(as))
	}
	// whatever is there must be one of them
	for i, b := range h.Atts {
		ok := false
		for _, a := range as {
			ok = ok || bytes.Equal(a.plain, b)
		}
		if !ok {
			w.Violate("C12", "altered attachment", "attachment %d handed over with %s (%d bytes) is none of its", i, s.ID, len(b))
		}
	}
	return ""
}

// sendAtt makes the application send an attachment.
func (x *attachments) sendAtt(p *Peer) *attOut {
	f, w := x.f, x.f.w
	body := w.Uniq("out")
	o := &outMsg{Body: body, Dest: p.D.UUID}
	f.outBy[body] = o
	f.out = append(f.out, o)
	a := &attOut{o: o, plain: w.attBytes(w.attSize()), msgBad: x.msgBad, upBad: x.upBad, ptrs: map[*Peer]*sp.AttachmentPointer{}}
	x.out[body] = a
	r := &srcReader{b: append([]byte{}, a.plain...), err: io.EOF, late: w.Chance(1, 3), slow: w.Chance(1, 8)}
	if w.Chance(1, 3) {
		r.n = 1 + w.N(2000)
	}
	if w.Chance(1, 8) {
		a.rdErr = true
		r.err = errRead
		// an error that comes with the last bytes may be dropped by io.CopyN
		r.once = !r.late && w.Chance(1, 2)
		r.b = r.b[:w.N(len(r.b)+1)]
		w.Count("read_error")
	}
	o.sync = w.Srv.NeedsSync
	a.voice = w.Chance(1, 4)
	o.Op = w.Node.Call("SendAttachment "+body, func() (any, error) {
		if a.voice {
			return textsecure.SendVoiceNote(p.D.UUID, body, r, 0)
		}
		return textsecure.SendAttachment(p.D.UUID, body, r, 0)
	})
	w.Count("attachment_sent")
	return a
}

// judge looks at a send that is over.
func (x *attachments) judge(a *attOut) {
	w, f := x.f.w, x.f
	w.Evals++
	o := a.o
	if o.Op.Killed {
		return
	}
	if !o.Op.Done {
		w.Violate("C12", "call never returns", "%s has not returned after 15 minutes", o.Op.Name)
		return
	}
	n := 0
	for _, p := range f.peers {
		for _, g := range p.Got {
			if g.Err == nil && g.Body == o.Body {
				n++
			}
		}
	}
	if o.Op.Err != nil {
		switch {
		case !a.rdErr && a.msgBad == x.msgBad && a.upBad == x.upBad:
			w.Violate("C12", "send fails", "%s of %d bytes failed without any fault: %v", o.Op.Name, len(a.plain), o.Op.Err)
		case n > 0 && a.msgBad == x.msgBad:
			w.Violate("C12", "failed upload, message sent", "%s failed (%v), but the recipient got the message", o.Op.Name, o.Op.Err)
		}
		return
	}
	if a.rdErr {
		w.Violate("C12", "unreadable file reported as sent", "%s: reading the file failed after some bytes, but the call succeeded", o.Op.Name)
		return
	}
	for _, p := range f.peers {
		if p.D.UUID != o.Dest {
			continue
		}
		ptr, ok := a.ptrs[p]
		if !ok {
			w.Violate("C12", "reported as sent, not received", "%s succeeded, %s has no message with an attachment", o.Op.Name, p.Name)
			return
		}
		x.verify(a, p, ptr)
	}
}

// verify downloads what the pointer names.
func (x *attachments) verify(a *attOut, p *Peer, ptr *sp.AttachmentPointer) {
	w := x.f.w
	w.Evals++
	bad := func(f string, v ...any) {
		w.Violate("C12", "sent attachment not usable", "%s of %d bytes succeeded, but %s", a.o.Op.Name, len(a.plain), fmt.Sprintf(f, v...))
	}
	key := ptr.GetCdnKey()
	if key == "" {
		key = fmt.Sprint(ptr.GetCdnId())
	}
	blob, ok := w.Srv.Blobs[key]
	if !ok || ptr.GetCdnNumber() != 2 {
		bad("there is nothing at CDN %d under %q", ptr.GetCdnNumber(), key)
		return
	}
	d := sha256.Sum256(blob)
	if !bytes.Equal(d[:], ptr.GetDigest()) {
		bad("the digest does not fit")
		return
	}
	if len(ptr.GetKey()) != 64 || len(blob) < 64 {
		bad("key or blob have a wrong length")
		return
	}
	k, l := ptr.GetKey(), len(blob)-32
	if !bytes.Equal(ref.HMAC(k[32:], blob[:l]), blob[l:]) {
		bad("the MAC does not fit")
		return
	}
	b, err := ref.CBCDecrypt(k[:32], blob[:16], blob[16:l])
	if err != nil {
		bad("it cannot be decrypted: %v", err)
		return
	}
	if int(ptr.GetSize()) > len(b) || !bytes.Equal(b[:ptr.GetSize()], a.plain) {
		bad("the recipient gets %d of %d bytes, or others", ptr.GetSize(), len(b))
		return
	}
	w.Count("sent_attachment_verified")
}

func (f *Flow) attachments() *attachments {
	w := f.w
	x := &attachments{f: f, byKey: map[string]*attIn{}, in: map[*Sent][]*attIn{}, out: map[string]*attOut{}}
	f.OnPeer = func(p *Peer, g *Got) {
		dm := g.C.GetDataMessage()
		if p.Own {
			dm = g.C.GetSyncMessage().GetSent().GetMessage()
		} else {
			f.judgeOut(p, g)
		}
		if a := x.out[dm.GetBody()]; a != nil {
			if len(dm.GetAttachments()) != 1 {
				w.Violate("C12", "attachment missing", "%s got %q with %d attachments", p.Name, dm.GetBody(), len(dm.GetAttachments()))
				return
			}
			a.ptrs[p] = dm.Attachments[0]
			if p.Own {
				w.Count("transcript_with_attachment")
				x.verify(a, p, dm.Attachments[0])
			}
		}
	}
	down := append(append([]string{}, allHTTPFaults...), "status_403", "status_404", "trickle")
	up := append([]string{"status_401", "status_403", "status_404"}, noGarble...)
	w.Net.Force = func(r *Req) string {
		switch {
		case r.Method == "GET" && strings.HasPrefix(r.Path, "/attachments/"):
			if x.plan&1 == 0 || !w.Chance(1, 4) {
				return ""
			}
			k := down[w.N(len(down))]
			if k != "slow" {
				if a := x.byKey[strings.TrimPrefix(r.Path, "/attachments/")]; a != nil && a.of != nil && a.of.Excuse == "" {
					a.of.Excuse = "a download failed"
				}
			}
			return k
		case strings.Contains(r.Path, "/upload"):
			if x.plan&2 == 0 || !w.Chance(1, 5) {
				return ""
			}
			x.upBad++
			return up[w.N(len(up))]
		case strings.Contains(r.Path, "/messages/") || strings.Contains(r.Path, "/keys/"):
			if x.plan&4 == 0 || !w.Chance(1, 8) {
				return ""
			}
			x.msgBad++
			return noGarble[w.N(len(noGarble))]
		}
		return ""
	}
	return x
}

func init() {
	register(&Profile{Prop: "C12",
		Rule:   "Peers and own devices send messages with up to four attachments of 0 to 120000 bytes (padded or not, by key or id, on two CDNs), of which some are missing, cut, extended, flipped, swapped or replaced at the CDN or have wrong digests, keys, sizes or names; downloads, allocations and uploads fail in every way; the application sends attachments and voice notes from files that are slow, short-read or fail. Bytes handed over must be the uploaded ones; a message whose downloads all worked must arrive with all its attachments; what is reported as sent must be fetched, verified and decrypted by the recipient's own implementation to the file's bytes; a failed upload must be reported and send no message.",
		Faults: "failing, cut, garbled, stalled and slow downloads, uploads and allocations, damaged and swapped blobs, wrong pointers, unreadable files, overlapping sends, connection breaks, restarts, kills",
		Drive: func(w *World) {
			f := msgWorld(w, "C12", 2)
			if f == nil {
				return
			}
			x := f.attachments()
			x.plan = w.N(8)
			var own *Peer
			if w.Chance(1, 3) {
				own = w.OwnDevice(11)
				f.peers = append(f.peers, own)
				f.serve()
			}
			var ops []*attOut
			settle := func() bool {
				for _, a := range ops {
					a.o.Op.Wait(15 * time.Minute)
					x.judge(a)
				}
				ops = nil
				return len(w.Viol) == 0
			}
			m := mix{in: 2, restart: 2, kill: 1, brk: 2, wait: 2, pause: 1}
			for i, n := 0, 4+w.N(16); i < n && len(w.Viol) == 0; i++ {
				var all []*Peer
				for _, p := range f.peers {
					if !p.Own {
						all = append(all, p)
					}
				}
				p := all[w.N(len(all))]
				switch w.Weighted(6, 5, 2, 2, 1) {
				case 0:
					f.post(x.receive(p))
				case 1:
					w.Srv.NeedsSync = own != nil && w.Chance(1, 2)
					ops = append(ops, x.sendAtt(p))
					if w.Chance(2, 3) && !settle() {
						return
					}
				case 2: // at once
					for j := 1 + w.N(3); j > 0; j-- {
						ops = append(ops, x.sendAtt(all[w.N(len(all))]))
						if s := x.receive(p); s != nil {
							f.post(s)
						}
					}
					w.Count("overlapping_transfers")
					if !settle() {
						return
					}
				case 3:
					if !settle() || !f.step(m) {
						return
					}
				case 4: // a transcript of a message sent from the other device
					if own == nil {
						continue
					}
					x.transcript(own, p)
				}
				if !w.Node.Alive() {
					f.died()
					if !f.start() {
						return
					}
				}
			}
			if !settle() {
				return
			}
			w.Calm = true
			a := x.sendAtt(f.peers[0])
			a.o.Op.Wait(15 * time.Minute)
			x.judge(a)
			if s := x.receive(f.peers[0]); s != nil {
				f.post(s)
			}
			if f.finish() {
				f.delivered()
			}
		}})
}

// transcript: another own device sent a message with attachments.
func (x *attachments) transcript(own, p *Peer) {
	f, w := x.f, x.f.w
	id := w.Uniq("in")
	ts := own.ms()
	dm := &sp.DataMessage{Body: &id, Timestamp: &ts}
	a := x.pointer(w.Chance(1, 4))
	dm.Attachments = []*sp.AttachmentPointer{a.ptr}
	uuid := p.D.UUID
	s, err := own.Encrypt(id, "transcript", &sp.Content{SyncMessage: &sp.SyncMessage{Sent: &sp.SyncMessage_Sent{DestinationUuid: &uuid, Timestamp: &ts, Message: dm}}})
	if s = f.note(s, err); s == nil {
		return
	}
	a.of = s
	if a.bad != "" {
		s.Excuse = "an attachment is " + a.bad
	}
	f.OnHand = func(h *Handed, s *Sent) {
		if s != nil && s.Kind == "transcript" && h.Kind == "syncsent" {
			for _, k := range sortedKeys(x.byKey) {
				if x.byKey[k].of == s {
					x.check(h, []*attIn{x.byKey[k]}, s)
				}
			}
		}
	}
	w.Count("transcript_of_other_device")
	f.post(s)
}
