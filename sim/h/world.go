// Package h is the simulated world: the service, the CDN, the helper process
// and the peers around one or more real textsecure clients, the faults that
// happen to them, and the oracles that judge what happens.
package h

import (
	"crypto/rand"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	mrand "math/rand/v2"

	"vsim/shim/vtime"
	"vsim/simfs"
	"vsim/simnet"
	"vsim/simrt"

	log "github.com/sirupsen/logrus"
)

func procNow() time.Time { return vtime.Now() }

// Violation is one broken property.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"` // stable signature of what failed
	Msg   string `json:"msg"`
}

// World is one simulated run.
type World struct {
	C    *simrt.Chooser
	S    *simrt.Sim
	P    *simrt.Proc // the process of everything that is not under test
	Rng  *mrand.ChaCha8
	FS   *simfs.FS
	Srv  *Server
	Node *Node
	Cray *Crayfish

	conns []*Conn
	Stats map[string]int
	Viol  []Violation
	Calm  bool // no more faults
	prof  *Profile
	Net   NetPlan
	Disk  DiskPlan
	uniq  int
	Evals int      // oracle evaluations that had something to judge
	Notes []string // sample of what happened
	trace bool

	EdgeIDs bool // draw many ids at the ends of their range
}

// Profile is the workload and oracle set of one property.
type Profile struct {
	Prop    string
	Horizon time.Duration
	Drive   func(w *World)
	NoBase  bool // starts without a registered installation
	Rule    string
	Faults  string
}

var profiles = map[string]*Profile{}

func register(p *Profile) {
	if p.Horizon == 0 {
		p.Horizon = 6 * time.Hour
	}
	profiles[p.Prop] = p
}

// Result is what one run reports.
type Result struct {
	Seed      uint64         `json:"seed"`
	Viol      []Violation    `json:"viol,omitempty"`
	Stats     map[string]int `json:"stats"`
	LogHash   uint64         `json:"log"`
	SchedHash uint64         `json:"sched"`
	Steps     int            `json:"steps"`
	Switches  int            `json:"switches"`
	Events    int            `json:"events"`
	SimSec    float64        `json:"sim_s"`
	Evals     int            `json:"evals"`
	Stop      string         `json:"stop"`
	Choices   []uint32       `json:"-"`
	Logs      []string       `json:"-"`
	Notes     []string       `json:"notes,omitempty"`
}

type randReader struct{ w *World }

func (r randReader) Read(b []byte) (int, error) {
	g := simrt.Cur()
	if g == nil {
		return r.w.P.Rand.Read(b)
	}
	n, err := g.Proc.Rand.Read(b)
	if r.w.EdgeIDs && len(b) == 4 && r.w.Node != nil && g.Proc == r.w.Node.proc && r.w.Chance(1, 3) {
		// ids at the ends of their ranges
		x := []uint32{0, 1, 0xffffff, 0xfffffe, 0xffffff - uint32(r.w.N(210)), 0xffffffff - uint32(r.w.N(210))}[r.w.N(6)]
		b[0], b[1], b[2], b[3] = byte(x>>24), byte(x>>16), byte(x>>8), byte(x)
		r.w.Count("edge_id_drawn")
	}
	if nd := r.w.Node; nd != nil && g.Proc == nd.proc {
		if len(b) >= 32 {
			nd.drew(b)
		}
		if nd.OnDraw != nil {
			nd.OnDraw(b)
		}
	}
	return n, err
}

// Count counts a fault or an event kind.
func (w *World) Count(k string) { w.Stats[k]++ }

func (w *World) Logf(f string, a ...any) { w.S.Logf(f, a...) }

// Violate records a violation and ends the run.
func (w *World) Violate(prop, class, f string, a ...any) {
	v := Violation{prop, class, fmt.Sprintf(f, a...)}
	w.S.Logf("VIOLATION %s %s: %s", v.Prop, v.Class, v.Msg)
	w.Viol = append(w.Viol, v)
	if prop == w.prof.Prop && !knownClass[class] {
		w.S.Stop("violation")
	}
}

func (w *World) Note(f string, a ...any) {
	if len(w.Notes) < 12 {
		w.Notes = append(w.Notes, fmt.Sprintf(f, a...))
	}
}

// N, Chance: decisions of the run.
func (w *World) N(n int) int               { return w.C.N(n) }
func (w *World) Chance(num, den int) bool  { return w.C.Chance(num, den) }
func (w *World) Weighted(ws ...int) int    { return w.C.Weighted(ws...) }
func (w *World) Go(name string, f func())  { w.S.Spawn(w.P, name, f) }
func (w *World) Sleep(d time.Duration)     { simrt.Sleep(d) }
func (w *World) Uniq(prefix string) string { w.uniq++; return fmt.Sprintf("%s-%06d", prefix, w.uniq) }

func (w *World) RandBytes(n int) []byte {
	b := make([]byte, n)
	w.Rng.Read(b)
	return b
}

// Until polls cond every step; it reports whether it became true within d.
func (w *World) Until(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for !cond() {
		if !time.Now().Before(end) {
			return false
		}
		simrt.Sleep(100 * time.Millisecond)
	}
	return true
}

// RunOne performs one run.
func RunOne(t *testing.T, prof *Profile, ch *simrt.Chooser, trace bool) (res *Result) {
	synctest.Test(t, func(t *testing.T) {
		res = runIn(prof, ch, trace, nil)
	})
	return res
}

func runIn(prof *Profile, ch *simrt.Chooser, trace bool, after func(w *World)) *Result {
	s := simrt.New(ch)
	simrt.S = s
	s.Trace = trace
	s.MaxSteps = 30_000_000
	w := &World{C: ch, S: s, Stats: map[string]int{}, prof: prof, trace: trace}
	seed := uint64(ch.N(1<<30))<<30 | uint64(ch.N(1<<30))
	w.P = s.NewProc("world", seed)
	w.P.World = true
	var sd [32]byte
	for i := range 8 {
		sd[i] = byte(seed >> (8 * i))
	}
	sd[8] = 77
	w.Rng = mrand.NewChaCha8(sd)
	oldRand := rand.Reader
	rand.Reader = randReader{w}
	log.SetOutput(io.Discard)
	log.StandardLogger().ExitFunc = func(c int) { simrt.Exit(c) }
	if trace && debugLog {
		log.SetOutput(logWriter{w})
	}
	w.Srv = newServer(w)
	w.Cray = newCrayfish(w)
	simnet.Do = w.httpDo
	simnet.Dial = w.dial
	simnet.LookPath = w.Cray.lookPath
	simnet.Start = w.Cray.start
	w.FS = simfs.New()
	if !prof.NoBase {
		w.useBase()
	}
	w.setFS(w.FS)
	s.OnPanic = func(g *simrt.G, v any, stack string) {
		if g.Proc == w.P {
			panic(fmt.Sprintf("harness goroutine %s: %v\n%s", g.Name, v, stack))
		}
	}
	s.Spawn(w.P, "driver", func() {
		prof.Drive(w)
		s.Stop("done")
	})
	s.Run(prof.Horizon)
	if s.StopWhy == "horizon" && !w.Calm {
		w.Count("horizon")
	}
	if after != nil {
		after(w)
	}
	if s.StopWhy == "steps" {
		var gs []string
		if w.Node != nil && w.Node.proc != nil {
			gs = w.Node.proc.Goroutines()
		}
		w.Viol = append(w.Viol, Violation{prof.Prop, "livelock", fmt.Sprintf("the client keeps computing without ever waiting for anything: %v", gs)})
	}
	r := &Result{Viol: w.Viol, Stats: w.Stats, LogHash: s.LogHash, SchedHash: s.SchedHash, Steps: s.Steps, Switches: s.Switches, Events: s.Events,
		SimSec: s.Now().Seconds(), Evals: w.Evals, Stop: s.StopWhy, Choices: append([]uint32{}, ch.Rec...), Logs: s.Logs, Notes: w.Notes}
	s.Shutdown()
	simfs.Cur = nil
	simrt.S = nil
	rand.Reader = oldRand
	return r
}

var debugLog bool

type logWriter struct{ w *World }

func (l logWriter) Write(b []byte) (int, error) {
	l.w.S.Logf("log: %s", strings.TrimSpace(string(b)))
	return len(b), nil
}

func (w *World) setFS(f *simfs.FS) {
	w.FS = f
	f.Hook = w.diskHook
	simfs.Cur = f
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// ---------------------------------------------------------------- disk faults

// DiskPlan says what goes wrong with the disk.
type DiskPlan struct {
	KillAt    int    // kill the client during its k-th file operation (1-based)
	ErrNum    int    // chance of an error per operation, ErrNum/ErrDen
	ErrDen    int    //
	Kinds     string // operation kinds that may fail ("" = all)
	Full      bool   // no space: every write fails
	FullAt    int    // from this operation on
	Only      string // only paths containing this
	seen      int
	KillAfter bool
	Observe   func(op simfs.Op)
}

func (w *World) diskHook(op simfs.Op) (ft simfs.Fault) {
	d := &w.Disk
	d.seen++
	if d.Observe != nil {
		d.Observe(op)
	}
	if d.KillAt > 0 && d.seen >= d.KillAt {
		d.KillAt = 0
		w.Count("kill_at_disk_op")
		w.Logf("disk: kill at %s %s", op.Kind, op.Path)
		ft.Kill = true
		ft.After = d.KillAfter
		if op.Kind == "write" && op.N > 1 {
			ft.Short = w.N(op.N)
			ft.After = ft.Short > 0
		}
		return
	}
	if w.Calm {
		return
	}
	if d.Only != "" && !strings.Contains(op.Path, d.Only) {
		return
	}
	if (d.Full || d.FullAt > 0 && d.seen >= d.FullAt) && (op.Kind == "write" || op.Kind == "create" || op.Kind == "mkdir") {
		if op.Kind == "create" && w.Chance(1, 2) {
			return // room for the inode, none for the data
		}
		ft.Err = errNoSpace
		if op.Kind == "write" && op.N > 1 && w.Chance(1, 2) {
			ft.Short = w.N(op.N)
		}
		w.Count("disk_full")
		return
	}
	if d.ErrNum > 0 && (d.Kinds == "" || strings.Contains(d.Kinds, op.Kind)) && w.Chance(d.ErrNum, d.ErrDen) {
		ft.Err = errIO
		if op.Kind == "write" && op.N > 1 && w.Chance(1, 2) {
			ft.Short = w.N(op.N)
		}
		if op.Kind == "stat" && w.Chance(1, 4) {
			ft.Err = errAccess
		}
		w.Count("disk_error_" + op.Kind)
		w.Logf("disk: error on %s %s", op.Kind, op.Path)
	}
	return
}

func newFS() *simfs.FS { return simfs.New() }

const epochShift = vtime.Epoch
