// Package vsync stands in for package sync.
package vsync

import "vsim/simrt"

type Mutex struct {
	locked bool
	q      simrt.WaitQ
}

func (m *Mutex) Lock() {
	if simrt.Cur() == nil {
		m.locked = true
		return
	}
	simrt.Yield()
	for m.locked {
		m.q.Wait()
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	simrt.Yield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	simrt.CheckKilled()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.q.WakeOne()
	simrt.Yield()
}

type RWMutex struct {
	w       bool
	r       int
	waiting int
	q       simrt.WaitQ
}

func (m *RWMutex) Lock() {
	if simrt.Cur() == nil {
		m.w = true
		return
	}
	simrt.Yield()
	m.waiting++
	for m.w || m.r > 0 {
		m.q.Wait()
	}
	m.waiting--
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	simrt.Yield()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	simrt.CheckKilled()
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.WakeAll()
	simrt.Yield()
}

func (m *RWMutex) RLock() {
	if simrt.Cur() == nil {
		m.r++
		return
	}
	simrt.Yield()
	for m.w || m.waiting > 0 {
		m.q.Wait()
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	simrt.Yield()
	if m.w {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	simrt.CheckKilled()
	if m.r <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.q.WakeAll()
	simrt.Yield()
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Locker interface {
	Lock()
	Unlock()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type WaitGroup struct {
	n int
	q simrt.WaitQ
}

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}
func (w *WaitGroup) Done() { simrt.CheckKilled(); w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Yield()
	for w.n > 0 {
		w.q.Wait()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	o := &Once{}
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type Cond struct {
	L Locker
	q simrt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	switch l := c.L.(type) {
	case *Mutex:
		l.locked = false
		l.q.WakeOne()
	case *RWMutex:
		l.w = false
		l.q.WakeAll()
	default:
		c.L.Unlock()
	}
	c.q.Wait()
	c.L.Lock()
}
func (c *Cond) Signal()    { c.q.WakeOne() }
func (c *Cond) Broadcast() { c.q.WakeAll() }
