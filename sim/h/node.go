package h

import (
	"fmt"
	"io"
	"strings"
	"syscall"
	"time"

	"vsim/simrt"

	textsecure "github.com/signal-golang/textsecure"
	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/contacts"
)

var errNoSpace, errIO, errAccess = syscall.ENOSPC, syscall.EIO, syscall.EACCES

const (
	nodeTel     = "+15550001000"
	configPath  = "/app/config.yml"
	contactPath = "/app/contacts.yml"
	storeDir    = "/app/.storage"
	storePass   = "correct horse battery"
)

// Handed is one call of an application callback.
type Handed struct {
	Kind   string // message typing receiptmsg call receipt syncread syncsent
	Source string
	UUID   string
	Chat   string
	TS     uint64
	Body   string
	Flags  uint32
	Expire uint32
	Dev    uint32
	Atts   [][]byte
	AttErr bool
	Mime   []string
	Group  string // id of a groupV2
	Rev    uint32
	Gen    int
	At     time.Time
	Req    uint64 // request being handled, if known
	Msg    *textsecure.Message
}

// Op is a call of the client's API made by the application.
type Op struct {
	Name   string
	Done   bool
	Killed bool // the process ended first
	Err    error
	Val    any
	Start  time.Time
	End    time.Time
	q      simrt.WaitQ
	Stop   bool
}

func (o *Op) Over() bool { return o.Done || o.Killed }
func (o *Op) OK() bool   { return o.Done && o.Err == nil }

// Wait waits until the operation is over; false after d.
func (o *Op) Wait(d time.Duration) bool {
	end := time.Now().Add(d)
	for !o.Over() {
		if !o.q.WaitFor(time.Until(end)) && !time.Now().Before(end) {
			return o.Over()
		}
	}
	return true
}

// Node is a textsecure client and the application around it.
type Node struct {
	w    *World
	proc *simrt.Proc
	gen  int
	seed uint64
	ops  []*Op

	Handed   []*Handed
	OnHanded func(h *Handed) // runs inside the callback
	OnDone   func(h *Handed) // runs at its end
	Tel      string
	Code     string
	Captcha  string
	Username string
	Password string // "" with Unencrypted
	Contacts []contacts.Contact
	BadConf  bool
	RegDone  int
	OnReg    func()

	Secrets     map[string]int // byte strings drawn as secrets
	KeepSecrets bool
	OnDraw      func(b []byte) // bytes drawn from the secure source

	Crashes    []string
	Stack      string
	OnCrash    func(reason, stack string)
	Listening  bool
	listenOps  int
	listenErr  []string
	wantStop   bool
	Offset     time.Duration
	AppPause   time.Duration
	inCallback int
	LastErr    error
	SetupWait  time.Duration
	Without    map[string]bool // callbacks the application does not have
}

func newNode(w *World, seed uint64) *Node {
	return &Node{w: w, seed: seed, Tel: nodeTel, Code: "123456", Username: "node", Password: storePass, Secrets: map[string]int{}, SetupWait: 30 * time.Minute}
}

func (n *Node) drew(b []byte) {
	if n.KeepSecrets {
		n.Secrets[string(b)] = n.gen
	}
}

func (n *Node) Alive() bool { return n.proc != nil && !n.proc.Killed }

// UUID is the account id the service gave the client.
func (n *Node) UUID() string {
	if a := n.w.Srv.byTel[n.Tel]; a != nil {
		return a.UUID
	}
	return ""
}

func (n *Node) Acct() *Account { return n.w.Srv.byTel[n.Tel] }

func (n *Node) client() *textsecure.Client {
	c := &textsecure.Client{
		GetPhoneNumber: func() string {
			simrt.Sleep(3 * time.Second) // the user types
			return n.Tel
		},
		GetVerificationCode: func() string { simrt.Sleep(5 * time.Second); return n.Code },
		GetPin:              func() string { return "" },
		GetStoragePassword:  func() string { return n.Password },
		GetCaptchaToken:     func() string { return n.Captcha },
		GetUsername:         func() string { return n.Username },
		GetConfig: func() (*config.Config, error) {
			return textsecure.ReadConfig(configPath)
		},
		GetLocalContacts: func() ([]contacts.Contact, error) {
			return append([]contacts.Contact{}, n.Contacts...), nil
		},
		RegistrationDone: func() {
			n.RegDone++
			if n.OnReg != nil {
				n.OnReg()
			}
		},
		MessageHandler:        func(m *textsecure.Message) { n.msg("message", m) },
		TypingMessageHandler:  func(m *textsecure.Message) { n.msg("typing", m) },
		ReceiptMessageHandler: func(m *textsecure.Message) { n.msg("receiptmsg", m) },
		CallMessageHandler:    func(m *textsecure.Message) { n.msg("call", m) },
		ReceiptHandler: func(src string, dev uint32, ts uint64) {
			n.hand(&Handed{Kind: "receipt", UUID: src, Dev: dev, TS: ts})
		},
		SyncReadHandler: func(who string, ts uint64) { n.hand(&Handed{Kind: "syncread", UUID: who, TS: ts}) },
		SyncSentHandler: func(m *textsecure.Message, ts uint64) {
			h := n.conv("syncsent", m)
			h.Dev = uint32(ts)
			n.hand(h)
		},
	}
	for k := range n.Without {
		switch k {
		case "typing":
			c.TypingMessageHandler = nil
		case "receiptmsg":
			c.ReceiptMessageHandler = nil
		case "call":
			c.CallMessageHandler = nil
		case "receipt":
			c.ReceiptHandler = nil
		case "syncread":
			c.SyncReadHandler = nil
		case "syncsent":
			c.SyncSentHandler = nil
		}
	}
	return c
}

func (n *Node) conv(kind string, m *textsecure.Message) *Handed {
	h := &Handed{Kind: kind, Source: m.Source(), UUID: m.SourceUUID(), Chat: m.ChatID(), TS: m.Timestamp(), Body: m.Message(), Flags: m.Flags(), Expire: m.ExpireTimer(), Msg: m}
	for _, a := range m.Attachments() {
		if a == nil {
			h.AttErr = true
			continue
		}
		b, err := io.ReadAll(a.R)
		if err != nil {
			h.AttErr = true
		}
		h.Atts = append(h.Atts, b)
		h.Mime = append(h.Mime, a.MimeType)
	}
	if g := m.GroupV2(); g != nil {
		h.Group = g.Hexid
	}
	return h
}

func (n *Node) msg(kind string, m *textsecure.Message) { n.hand(n.conv(kind, m)) }

func (n *Node) hand(h *Handed) {
	n.inCallback++
	defer func() { n.inCallback-- }()
	simrt.Yield()
	h.Gen, h.At = n.gen, time.Now()
	n.Handed = append(n.Handed, h)
	n.w.Logf("handed %s from %q %s: %.60q ts %d", h.Kind, h.UUID, h.Source, h.Body, h.TS)
	if n.OnHanded != nil {
		n.OnHanded(h)
	}
	if n.AppPause > 0 {
		simrt.Sleep(n.AppPause)
	}
	if n.OnDone != nil {
		n.OnDone(h)
	}
}

// Boot starts a fresh process (waiting for the remains of the previous one)
// and calls Setup in it.
func (n *Node) Boot() *Op {
	n.newProc()
	return n.Call("Setup", func() (any, error) {
		if _, ok := n.w.FS.Get(contactPath); ok {
			contacts.ReadContacts(contactPath)
		}
		return nil, textsecure.Setup(n.client())
	})
}

func (n *Node) newProc() {
	w := n.w
	if n.proc != nil {
		if !n.proc.Killed {
			w.S.Kill(n.proc, "kill")
		}
		for n.proc.Live() > 0 {
			simrt.Sleep(time.Millisecond)
		}
	}
	simrt.ResetPackages()
	n.gen++
	n.Listening = false
	n.inCallback = 0
	n.wantStop = false
	p := w.S.NewProc("client", n.seed+uint64(n.gen)*1000003)
	p.Strict = true
	p.Offset = n.Offset
	n.proc = p
	w.S.KillProc = p
	p.OnExit = func(p *simrt.Proc) {
		w.Logf("client process ended: %s", p.Reason)
		for _, o := range n.ops {
			if !o.Over() {
				o.Killed = true
				o.q.WakeAll()
			}
		}
		n.ops = nil
		for _, c := range w.conns {
			if c.proc == p && !c.closed {
				if w.Chance(1, 2) {
					c.Reset()
				} else {
					c.closed = true
					c.wr.fin, c.rd.gone = true, true
					c.wr.rq.WakeAll()
					c.rd.wq.WakeAll()
				}
				c.closed = true
			}
		}
		w.Cray.parentDied(p)
		if p.Reason != "kill" && p.Reason != "shutdown" {
			n.Crashes = append(n.Crashes, p.Reason)
			if n.OnCrash != nil {
				n.OnCrash(p.Reason, p.Stack)
			}
		}
	}
}

// Kill ends the process as SIGKILL would.
func (n *Node) Kill() {
	if n.Alive() {
		n.w.Count("kill")
		n.w.S.Kill(n.proc, "kill")
	}
}

// Call runs an API call in a goroutine of the client process.
func (n *Node) Call(name string, f func() (any, error)) *Op {
	o := &Op{Name: name, Start: time.Now()}
	if !n.Alive() {
		o.Killed = true
		return o
	}
	n.ops = append(n.ops, o)
	w, gen := n.w, n.gen
	w.S.Spawn(n.proc, name, func() {
		w.Logf("call %s", name)
		v, err := f()
		if n.gen != gen {
			return
		}
		o.Val, o.Err, o.Done, o.End = v, err, true, time.Now()
		for i, x := range n.ops {
			if x == o {
				n.ops = append(n.ops[:i:i], n.ops[i+1:]...)
				break
			}
		}
		e := "ok"
		if err != nil {
			e = "error " + trunc(err.Error(), 90)
		}
		w.Logf("done %s: %s", name, e)
		o.q.WakeAll()
	})
	return o
}

func trunc(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// Listen keeps listening until StopListen or the process ends.
func (n *Node) Listen() {
	if !n.Alive() || n.Listening {
		return
	}
	n.Listening = true
	gen := n.gen
	w := n.w
	w.S.Spawn(n.proc, "listen", func() {
		for n.gen == gen && !n.wantStop {
			n.listenOps++
			err := textsecure.StartListening()
			e := "nil"
			if err != nil {
				e = trunc(err.Error(), 90)
			}
			n.LastErr = err
			w.Logf("StartListening returned: %s", e)
			if n.wantStop {
				break
			}
			simrt.Sleep(time.Duration(1+w.N(3)) * time.Second)
		}
		n.Listening = false
	})
}

// Connected tells whether a listening connection of this process is open on
// the service side.
func (n *Node) Connected() bool {
	for _, k := range n.w.Srv.socks {
		if k.up && !k.s.c.dead() && k.s.c.peer.proc == n.proc && !k.s.c.peer.closed {
			return true
		}
	}
	return false
}

// Send sends a text message.
func (n *Node) Send(to, body string) *Op {
	return n.Call("SendMessage "+short(to), func() (any, error) { return textsecure.SendMessage(to, body, 0) })
}

func short(u string) string {
	if len(u) > 8 {
		return u[:8]
	}
	return u
}

// crashIs makes every crash of the client a violation of prop.
func (w *World) crashIs(prop string) {
	w.Node.OnCrash = func(reason, stack string) {
		w.Violate(prop, "crash "+crashSite(reason, stack), "the client process ended: %s\n%s", reason, crashStack(stack))
	}
}

// crashSite names the innermost function of the code under test.
func crashSite(reason, stack string) string {
	if !strings.HasPrefix(reason, "panic") {
		return reason
	}
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "github.com/signal-golang/textsecure") {
			l = strings.TrimPrefix(l, "github.com/signal-golang/textsecure")
			l = strings.TrimLeft(l, "./")
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return trunc(reason, 60)
}

func crashStack(stack string) string {
	var out []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "signal-golang/textsecure") && !strings.HasPrefix(l, "\t") {
			out = append(out, "  "+trunc(l, 120))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (n *Node) confText(extra string) []byte {
	unenc := "false"
	if n.Password == "" {
		unenc = "true"
	}
	return []byte(fmt.Sprintf("tel: \"\"\nserver: http://chat.test\nverificationType: sms\nstorageDir: %s\nunencryptedStorage: %s\nloglevel: error\nname: \"\"\n%s", storeDir, unenc, extra))
}
