// Package simrt is the deterministic runtime of the simulator. Exactly one
// simulated goroutine holds the token at any time; which one runs next, and
// every other nondeterministic decision, comes from a Chooser. Time is the
// fake clock of a testing/synctest bubble.
package simrt

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

// ---------------------------------------------------------------- choices

// Chooser supplies every decision of a run. In generation mode decisions come
// from a seeded PRNG and are recorded; in replay mode they come from a list,
// and are 0 (the simplest alternative) once the list is exhausted.
type Chooser struct {
	rng    *rand.Rand
	Rec    []uint32
	replay []uint32
	isRep  bool
	pos    int
}

func NewChooser(seed uint64) *Chooser {
	return &Chooser{rng: rand.New(rand.NewPCG(seed, 0x9e3779b97f4a7c15))}
}

func ReplayChooser(list []uint32) *Chooser {
	return &Chooser{replay: list, isRep: true}
}

// N returns a number in [0,n). 0 is by convention the simplest alternative.
func (c *Chooser) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if c.isRep {
		if c.pos < len(c.replay) {
			v = int(c.replay[c.pos] % uint32(n))
		}
		c.pos++
	} else {
		v = c.rng.IntN(n)
	}
	c.Rec = append(c.Rec, uint32(v))
	return v
}

// Weighted picks an index with the given weights; index 0 is the simplest.
// The recorded value is the index itself.
func (c *Chooser) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := 0
	if c.isRep {
		if c.pos < len(c.replay) {
			v = int(c.replay[c.pos] % uint32(len(w)))
			if w[v] == 0 {
				v = 0
			}
		}
		c.pos++
	} else if sum > 0 {
		r := c.rng.IntN(sum)
		for i, x := range w {
			if r < x {
				v = i
				break
			}
			r -= x
		}
	}
	c.Rec = append(c.Rec, uint32(v))
	return v
}

// Chance is true with probability num/den; false is the simple alternative.
func (c *Chooser) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	if num >= den {
		return true
	}
	return c.Weighted(den-num, num) == 1
}

// ---------------------------------------------------------------- goroutines

// Proc is a simulated operating system process.
type Proc struct {
	Name    string
	Sim     *Sim
	Killed  bool
	Reason  string // why it ended: "kill", "exit 1", "panic: ..."
	Stack   string
	kill    chan struct{}
	gs      map[*G]struct{}
	live    int
	OnExit  func(p *Proc)
	Rand    *rand.ChaCha8 // what the process sees as system entropy
	MRand   *rand.Rand    // what the process sees as math/rand's source
	Offset  time.Duration // wall clock offset of this process
	World   bool
	Strict  bool // a process under test: preempted at statement granularity
	Starved bool
}

type G struct {
	ID     int
	Name   string
	Proc   *Proc
	wake   chan struct{}
	queued bool
	simwt  bool // waiting in simrt (not natively)
	timed  bool // woken by timeout
	seq    int
	dead   bool
	gone   bool
}

type Sim struct {
	C    *Chooser
	mu   sync.Mutex
	q    []*G
	cur  *G
	last *G
	ids  int

	wakeRoot chan struct{}
	procs    []*Proc

	// Stall tells how long an interrupted goroutine does not run (0: until it
	// is scheduled again).
	Stall    func() time.Duration
	Stalls   int
	stalling bool
	// preemption
	pt       int
	gaps     []int
	YieldW   int
	Steps    int
	MaxSteps int
	KillStep int // when Steps reaches it, KillProc is killed (0: never)
	KillProc *Proc
	frozen   bool

	Switches  int
	SchedHash uint64
	Logs      []string
	Trace     bool
	LogHash   uint64
	start     time.Time
	stop      bool
	StopWhy   string

	maps map[uintptr]*mapState

	OnPanic func(g *G, v any, stack string)
	Events  int
}

const fnvPrime = 1099511628211

var S *Sim // the current simulation, nil outside of a run

// New creates a simulation; must be called inside a synctest bubble.
func New(c *Chooser) *Sim {
	s := &Sim{C: c, wakeRoot: make(chan struct{}, 1), start: time.Now(), MaxSteps: 1 << 40, pt: 1 << 60, YieldW: 20,
		SchedHash: 14695981039346656037, LogHash: 14695981039346656037, maps: map[uintptr]*mapState{}}
	return s
}

func (s *Sim) NewProc(name string, seed uint64) *Proc {
	var sd [32]byte
	for i := 0; i < 8; i++ {
		sd[i] = byte(seed >> (8 * i))
	}
	copy(sd[8:], name)
	p := &Proc{Name: name, Sim: s, kill: make(chan struct{}), gs: map[*G]struct{}{}, Rand: rand.NewChaCha8(sd), MRand: rand.New(rand.NewPCG(1, 1))}
	s.procs = append(s.procs, p)
	return p
}

// SetPreemption configures statement level preemption: a table of gap
// lengths (in statements; a strong yield point counts yieldW statements).
func (s *Sim) SetPreemption(gaps []int, yieldW int) {
	s.gaps = gaps
	s.YieldW = yieldW
	s.nextGap()
}

func (s *Sim) nextGap() {
	if len(s.gaps) == 0 {
		s.pt = 1 << 40
		return
	}
	// index 0, never generated but reached by minimisation, means no further
	// preemption
	w := make([]int, len(s.gaps)+1)
	for i := range s.gaps {
		w[i+1] = 1
	}
	k := s.C.Weighted(w...)
	if k == 0 {
		s.pt = 1 << 40
		return
	}
	s.pt = s.gaps[k-1]
}

func (s *Sim) Now() time.Duration { return time.Since(s.start) }

// Logf records an event of the run.
func (s *Sim) Logf(f string, a ...any) {
	s.Events++
	line := fmt.Sprintf("%12.6f ", s.Now().Seconds()) + fmt.Sprintf(f, a...)
	h := s.LogHash
	for i := 0; i < len(line); i++ {
		h = (h ^ uint64(line[i])) * fnvPrime
	}
	s.LogHash = h
	if s.Trace {
		s.Logs = append(s.Logs, line)
	}
}

func Cur() *G {
	if S == nil {
		return nil
	}
	return S.cur
}

// Self returns the running simulated goroutine; it must exist.
func Self() *G {
	g := Cur()
	if g == nil {
		panic("simrt: call from outside the simulation")
	}
	return g
}

// Stop ends the run at the next scheduling decision.
func (s *Sim) Stop(why string) {
	if !s.stop {
		s.stop = true
		s.StopWhy = why
	}
}

func (s *Sim) Stopped() bool { return s.stop }

func (s *Sim) enqueue(g *G) {
	s.mu.Lock()
	if !g.queued && !g.gone {
		g.queued = true
		s.q = append(s.q, g)
	}
	s.mu.Unlock()
	select {
	case s.wakeRoot <- struct{}{}:
	default:
	}
}

// Spawn starts f as a simulated goroutine of p.
func (s *Sim) Spawn(p *Proc, name string, f func()) *G {
	s.ids++
	g := &G{ID: s.ids, Name: name, Proc: p, wake: make(chan struct{}, 1)}
	if p.Killed {
		g.dead = true
		g.gone = true
		return g
	}
	s.start1(g, f)
	s.enqueue(g)
	return g
}

func (s *Sim) start1(g *G, f func()) {
	p := g.Proc
	p.gs[g] = struct{}{}
	p.live++
	go func() {
		defer func() {
			r := recover()
			var st string
			if r != nil {
				st = string(debug.Stack())
			}
			s.exit(g, r, st)
		}()
		<-g.wake
		if p.Killed {
			return
		}
		f()
	}()
}

func (s *Sim) exit(g *G, r any, stack string) {
	// still holds the token (or is dying)
	g.gone = true
	delete(g.Proc.gs, g)
	g.Proc.live--
	if r != nil && !g.Proc.Killed {
		reason := fmt.Sprintf("panic: %v", r)
		s.Logf("%s: goroutine %s: %s", g.Proc.Name, g.Name, reason)
		if s.OnPanic != nil {
			s.OnPanic(g, r, stack)
		}
		g.Proc.Stack = stack
		s.Kill(g.Proc, reason)
	}
}

// Go is what a go statement of instrumented code becomes.
func Go(f func()) {
	g := Cur()
	if g == nil {
		go f()
		return
	}
	g.checkKilled()
	pc, _, line, _ := runtime.Caller(1)
	name := "go"
	if fn := runtime.FuncForPC(pc); fn != nil {
		name = fn.Name()
		if i := strings.LastIndex(name, "/"); i >= 0 {
			name = name[i+1:]
		}
		_ = line
	}
	S.Spawn(g.Proc, name, f)
	Yield()
}

func (g *G) checkKilled() {
	if g.Proc.Killed {
		g.dead = true
		runtime.Goexit()
	}
}

// CheckKilled ends the calling goroutine if its process was killed.
func CheckKilled() {
	if g := Cur(); g != nil {
		g.checkKilled()
	}
}

// park gives up the token; the goroutine runs again when scheduled.
func (g *G) park() {
	<-g.wake
	g.checkKilled()
}

// Pt is a statement level preemption point.
func Pt() {
	s := S
	if s == nil {
		return
	}
	s.pt--
	s.Steps++
	if s.KillStep > 0 && s.Steps >= s.KillStep {
		s.killStep()
	}
	if s.pt <= 0 || s.Steps > s.MaxSteps {
		s.slow()
	} else if s.cur != nil && s.cur.Proc.Killed {
		s.cur.checkKilled()
	}
}

// killStep kills KillProc if one of its goroutines is the one running.
func (s *Sim) killStep() {
	if g := s.cur; g != nil && g.Proc == s.KillProc && !s.frozen {
		s.KillStep = 0
		s.Kill(g.Proc, "kill")
		g.checkKilled()
	}
}

func (s *Sim) slow() {
	g := s.cur
	if g == nil {
		return
	}
	if s.Steps > s.MaxSteps && g.Proc.Strict {
		s.Logf("%s: goroutine %s exceeded the step limit", g.Proc.Name, g.Name)
		s.Stop("steps")
		s.pt = 1
		s.enqueue(g)
		g.park()
		return
	}
	if s.pt > 0 {
		return
	}
	g.checkKilled()
	s.nextGap()
	if s.frozen {
		return
	}
	if s.Stall != nil && g.Proc.Strict && !s.stalling {
		s.stalling = true
		d := s.Stall()
		s.stalling = false
		if d > 0 {
			s.Stalls++
			Sleep(d)
			return
		}
	}
	s.enqueue(g)
	g.park()
}

// Yield is a strong yield point (I/O, locks, channels).
func Yield() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.cur.checkKilled()
	s.Steps++
	s.pt -= s.YieldW
	if s.pt <= 0 || s.Steps > s.MaxSteps {
		s.slow()
	}
}

// Reschedule gives every other runnable goroutine the chance to run.
func Reschedule() {
	s := S
	g := s.cur
	g.checkKilled()
	s.enqueue(g)
	g.park()
}

// ---------------------------------------------------------------- waiting

// WaitQ is a queue of goroutines waiting for something.
type WaitQ struct{ gs []*G }

// Wait blocks until woken.
func (w *WaitQ) Wait() {
	g := Self()
	g.checkKilled()
	g.simwt = true
	w.gs = append(w.gs, g)
	<-g.wake
	g.simwt = false
	w.remove(g)
	g.checkKilled()
}

func (w *WaitQ) remove(g *G) {
	for i, x := range w.gs {
		if x == g {
			w.gs = append(w.gs[:i:i], w.gs[i+1:]...)
			return
		}
	}
}

// WaitFor blocks until woken or until d has passed; it reports whether it
// was woken. d<=0 does not wait.
func (w *WaitQ) WaitFor(d time.Duration) bool {
	g := Self()
	g.checkKilled()
	if d <= 0 {
		return false
	}
	s := S
	g.simwt = true
	g.timed = false
	g.seq++
	seq := g.seq
	w.gs = append(w.gs, g)
	t := time.AfterFunc(d, func() {
		s.mu.Lock()
		ok := g.simwt && g.seq == seq && !g.queued && !g.gone
		if ok {
			g.timed = true
			g.queued = true
			s.q = append(s.q, g)
		}
		s.mu.Unlock()
		if ok {
			select {
			case s.wakeRoot <- struct{}{}:
			default:
			}
		}
	})
	<-g.wake
	g.simwt = false
	t.Stop()
	w.remove(g)
	g.checkKilled()
	return !g.timed
}

// WakeAll makes every waiter runnable.
func (w *WaitQ) WakeAll() {
	gs := w.gs
	w.gs = nil
	for _, g := range gs {
		S.enqueue(g)
	}
}

// WakeOne makes the longest waiting goroutine runnable.
func (w *WaitQ) WakeOne() {
	if len(w.gs) > 0 {
		g := w.gs[0]
		w.gs = w.gs[1:]
		S.enqueue(g)
	}
}

func (w *WaitQ) Len() int { return len(w.gs) }

// AfterFunc runs f in a simulated goroutine of the calling process after d.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	g := Cur()
	if g == nil {
		return time.AfterFunc(d, f)
	}
	s, p := S, g.Proc
	s.ids++
	base := 1000000 + s.ids*100
	n := 0
	return time.AfterFunc(d, func() {
		s.mu.Lock()
		defer s.mu.Unlock()
		if p.Killed {
			return
		}
		n++
		ng := &G{ID: base + n, Name: "timer", Proc: p, wake: make(chan struct{}, 1)}
		s.start1(ng, f)
		ng.queued = true
		s.q = append(s.q, ng)
		select {
		case s.wakeRoot <- struct{}{}:
		default:
		}
	})
}

// Sleep blocks for d of simulated time.
func Sleep(d time.Duration) {
	if Cur() == nil {
		time.Sleep(d)
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	var w WaitQ
	w.WaitFor(d)
}

// ---------------------------------------------------------------- channels

// blockNative runs a natively blocking operation without the token.
func (g *G) blockNative(f func()) {
	f()
	S.enqueue(g)
	g.park()
}

func Send[T any](ch chan<- T, v T) {
	g := Cur()
	if g == nil {
		ch <- v
		return
	}
	Yield()
	if ch != nil {
		select {
		case ch <- v:
			return
		default:
		}
	}
	kill := g.Proc.kill
	g.blockNative(func() {
		select {
		case ch <- v:
		case <-kill:
		}
	})
}

func Recv2[T any](ch <-chan T) (T, bool) {
	g := Cur()
	if g == nil {
		v, ok := <-ch
		return v, ok
	}
	Yield()
	var v T
	var ok bool
	if ch != nil {
		select {
		case v, ok = <-ch:
			return v, ok
		default:
		}
	}
	kill := g.Proc.kill
	g.blockNative(func() {
		select {
		case v, ok = <-ch:
		case <-kill:
		}
	})
	return v, ok
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

type Case interface {
	try() bool
	rcase() reflect.SelectCase
	done(v reflect.Value, ok bool)
}

type RC[T any] struct {
	ch  <-chan T
	Val T
	OK  bool
}

func RecvCase[T any](ch <-chan T) *RC[T] { return &RC[T]{ch: ch} }

func (c *RC[T]) try() bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.Val, c.OK = <-c.ch:
		return true
	default:
		return false
	}
}
func (c *RC[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *RC[T]) done(v reflect.Value, ok bool) {
	if ok {
		c.Val, _ = v.Interface().(T)
	}
	c.OK = ok
}

type SC[T any] struct {
	ch  chan<- T
	val T
}

func SendCase[T any](ch chan<- T, v T) *SC[T] { return &SC[T]{ch: ch, val: v} }

func (c *SC[T]) try() bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.ch <- c.val:
		return true
	default:
		return false
	}
}
func (c *SC[T]) rcase() reflect.SelectCase {
	v := reflect.ValueOf(&c.val).Elem()
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: v}
}
func (c *SC[T]) done(reflect.Value, bool) {}

// Select returns the index of the case that proceeded, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	g := Cur()
	if g != nil {
		Yield()
	}
	n := len(cases)
	r := 0
	if g != nil && n > 1 && !S.frozen {
		r = S.C.N(n)
	}
	for i := 0; i < n; i++ {
		k := (i + r) % n
		if cases[k].try() {
			return k
		}
	}
	if hasDefault {
		return -1
	}
	rc := make([]reflect.SelectCase, 0, n+1)
	for _, c := range cases {
		rc = append(rc, c.rcase())
	}
	if g != nil {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(g.Proc.kill)})
	}
	idx := -1
	f := func() {
		i, v, ok := reflect.Select(rc)
		idx = i
		if i < n {
			cases[i].done(v, ok)
		}
	}
	if g == nil {
		f()
	} else {
		g.blockNative(f)
	}
	return idx
}

// ---------------------------------------------------------------- maps

// MapKeys returns m's keys in an order chosen by the simulator (Go's map
// iteration order is unspecified).
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	strs := make(map[K]string, len(keys))
	for _, k := range keys {
		strs[k] = fmt.Sprint(k)
	}
	sort.Slice(keys, func(i, j int) bool { return strs[keys[i]] < strs[keys[j]] })
	if s := S; s != nil && s.cur != nil && len(keys) > 1 && !s.frozen {
		r := s.C.N(len(keys))
		keys = append(append([]K{}, keys[r:]...), keys[:r]...)
	}
	return keys
}

type mapState struct {
	readers, writers int
}

// MapR and MapW bracket an access to a map that several goroutines can
// reach: the access takes time, and an overlapping conflicting access is the
// runtime's fatal "concurrent map access".
func MapR[M ~map[K]V, K comparable, V any](m M) { mapAccess(reflect.ValueOf(m).Pointer(), false) }
func MapW[M ~map[K]V, K comparable, V any](m M) { mapAccess(reflect.ValueOf(m).Pointer(), true) }

func mapAccess(p uintptr, w bool) {
	s := S
	if s == nil || s.cur == nil || p == 0 || !s.cur.Proc.Strict {
		return
	}
	st := s.maps[p]
	if st != nil && (st.writers > 0 || (w && st.readers > 0)) {
		panic("fatal error: concurrent map access")
	}
	if st == nil {
		st = &mapState{}
		s.maps[p] = st
	}
	if w {
		st.writers++
	} else {
		st.readers++
	}
	defer func() {
		if w {
			st.writers--
		} else {
			st.readers--
		}
		if st.writers == 0 && st.readers == 0 {
			delete(s.maps, p)
		}
	}()
	Pt()
}

// ---------------------------------------------------------------- processes

// Kill ends a process: none of its goroutines does anything any more.
func (s *Sim) Kill(p *Proc, reason string) {
	if p.Killed {
		return
	}
	p.Killed = true
	p.Reason = reason
	close(p.kill)
	gs := make([]*G, 0, len(p.gs))
	for g := range p.gs {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].ID < gs[j].ID })
	for _, g := range gs {
		if g != s.cur && g.simwt {
			s.enqueue(g)
		}
	}
	if p.OnExit != nil {
		p.OnExit(p)
	}
}

// Exit ends the calling goroutine's process.
func Exit(code int) {
	g := Self()
	if !g.Proc.Killed {
		S.Logf("%s: exit %d", g.Proc.Name, code)
		S.Kill(g.Proc, fmt.Sprintf("exit %d", code))
	}
	g.dead = true
	runtime.Goexit()
}

// Live reports how many goroutines of the process have not ended.
func (p *Proc) Live() int { return p.live }

// Goroutines names the goroutines of the process that have not ended.
func (p *Proc) Goroutines() []string {
	var r []string
	for g := range p.gs {
		r = append(r, g.Name)
	}
	sort.Strings(r)
	return r
}

// Freeze runs f without any preemption or scheduling choice (used by oracles
// that call into the code under test).
func (s *Sim) Freeze(f func()) {
	old := s.frozen
	pt := s.pt
	s.frozen = true
	s.pt = 1 << 60
	defer func() { s.frozen = old; s.pt = pt }()
	f()
}

// Run schedules until the run stops, nothing is left, or the horizon passes.
func (s *Sim) Run(horizon time.Duration) {
	timer := time.NewTimer(horizon)
	defer timer.Stop()
	for {
		synctest.Wait()
		if s.stop {
			break
		}
		s.mu.Lock()
		q := s.q
		s.mu.Unlock()
		if len(q) == 0 {
			alive := false
			for _, p := range s.procs {
				if p.live > 0 {
					alive = true
				}
			}
			if !alive {
				break
			}
			select {
			case <-s.wakeRoot:
				continue
			case <-timer.C:
				s.Stop("horizon")
				continue
			}
		}
		s.step()
	}
}

func (s *Sim) step() {
	s.mu.Lock()
	sort.Slice(s.q, func(i, j int) bool { return s.q[i].ID < s.q[j].ID })
	pick := 0
	// goroutines of dead processes wind down first
	forced := false
	for i, g := range s.q {
		if g.Proc.Killed {
			pick, forced = i, true
			break
		}
	}
	n := len(s.q)
	if !forced && n > 1 {
		// alternative 0: go on with the goroutine that ran last
		base := 0
		for i, g := range s.q {
			if g == s.last {
				base = i
			}
		}
		k := 0
		if !s.frozen {
			k = s.C.N(n)
		}
		pick = (base + k) % n
	}
	g := s.q[pick]
	s.q = append(s.q[:pick], s.q[pick+1:]...)
	g.queued = false
	s.mu.Unlock()
	if g != s.last {
		s.Switches++
		s.SchedHash = (s.SchedHash ^ uint64(g.ID)) * fnvPrime
		s.SchedHash = (s.SchedHash ^ uint64(s.Steps&0xffff)) * fnvPrime
	}
	s.last = g
	s.cur = g
	g.wake <- struct{}{}
	synctest.Wait()
	s.cur = nil
}

// Shutdown kills every process and waits until all goroutines are gone.
func (s *Sim) Shutdown() []string {
	s.frozen = true
	s.pt = 1 << 60
	s.stop = false
	for _, p := range s.procs {
		p.OnExit = nil
		s.Kill(p, "shutdown")
	}
	for i := 0; ; i++ {
		synctest.Wait()
		if len(s.q) == 0 {
			break
		}
		s.step()
	}
	var left []string
	for _, p := range s.procs {
		if p.live > 0 {
			left = append(left, p.Name+": "+strings.Join(p.Goroutines(), ","))
		}
	}
	return left
}

// ---------------------------------------------------------------- package state

type pkgReset struct {
	path  string
	reset func()
}

var pkgs []pkgReset

// RegisterPkg is called by generated code, in initialisation order.
func RegisterPkg(path string, reset func()) { pkgs = append(pkgs, pkgReset{path, reset}) }

// ResetPackages re-initialises the package state of all instrumented
// packages, as a fresh process would have it.
func ResetPackages() {
	for _, p := range pkgs {
		p.reset()
	}
}

// Zero sets *p to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
