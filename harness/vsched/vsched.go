// Package vsched is the runtime side of the instrumentation that cmd/instr adds to
// netscrape through a build overlay: schedule points before every statement, and
// drop-in replacements of the sync locks whose waiting is visible to testing/synctest
// (so that virtual time can advance, and deadlocks can be told exactly, while a lock
// is held at a schedule point).
package vsched

import (
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// MaxPoints bounds the number of schedule points of the instrumented code.
const MaxPoints = 1 << 14

// Hits counts how often each schedule point was passed.
var Hits [MaxPoints]uint32

// Focus marks the points of code that is not what the baseline was made of.
var Focus [MaxPoints]bool

// Plan is the schedule perturbation of one execution.
type Plan struct {
	// Mode selects what happens at a point, see Point.
	Mode int
	// P is the probability of a delay, Max its maximum in (virtual) microseconds.
	P   float64
	Max int
	// Slow points are delayed by up to SlowMax microseconds, always.
	Slow    map[int32]bool
	SlowMax int

	rng *rand.Rand
	mu  sync.Mutex
	// Steps counts the points passed, Budget bounds them.
	Steps  int64
	Budget int64
	// Over is called (once) when the budget is exceeded.
	Over func()
	// Hash identifies the order in which points were passed.
	Hash uint64
	// Delays counts the delays injected.
	Delays int64
}

var cur atomic.Pointer[Plan]

// Set makes p the plan in force; nil switches the points off.
func Set(p *Plan, seed uint64) {
	if p != nil {
		p.rng = rand.New(rand.NewPCG(seed, 0x5bd1e995))
		p.Hash = 14695981039346656037
	}
	cur.Store(p)
}

// Native is the probability (out of 65536) that a point yields when no plan is in force.
var Native atomic.Uint32

// Calm has points yield to others for a while instead of sleeping.
var Calm bool

// Point is a schedule point.
func Point(id int32) {
	p := cur.Load()
	if p == nil {
		if n := Native.Load(); n != 0 {
			if int(id) < MaxPoints && Focus[id] {
				n *= 5
			}
			// NOTE: rand/v2's global source adds no happens-before edges
			if r := rand.Uint32(); r&0xffff < n {
				switch (r >> 16) & 15 {
				case 0:
					time.Sleep(time.Duration(r>>20&63) * time.Microsecond)
				default:
					runtime.Gosched()
				}
			}
		}
		return
	}
	if int(id) < MaxPoints {
		atomic.AddUint32(&Hits[id], 1)
	}
	p.mu.Lock()
	p.Steps++
	p.Hash = (p.Hash ^ uint64(id)) * 1099511628211
	var d time.Duration
	switch {
	case p.Budget > 0 && p.Steps > p.Budget && p.Over != nil:
		over := p.Over
		p.Over = nil
		p.mu.Unlock()
		over()
		return
	case p.Slow != nil && p.Slow[id]:
		d = time.Duration(1 + p.rng.IntN(p.SlowMax*1000))
	case p.P > 0 && p.rng.Float64() < p.P:
		d = time.Duration(1 + p.rng.IntN(p.Max*1000))
	}
	if d > 0 {
		p.Delays++
	}
	p.mu.Unlock()
	if d > 0 && Calm {
		for i := d / (10 * time.Microsecond) % 16; i >= 0; i-- {
			runtime.Gosched()
		}
		return
	}
	if d > 0 {
		time.Sleep(d)
	}
}

// Extend raises the budget to n steps, beyond which over is called.
func (p *Plan) Extend(n int64, over func()) {
	p.mu.Lock()
	p.Budget, p.Over = n, over
	p.mu.Unlock()
}

// Mutex replaces sync.Mutex.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

// RWMutex replaces sync.RWMutex: a waiting writer blocks later readers, an unlocking
// writer lets the readers waiting go first.
type RWMutex struct {
	mu      sync.Mutex
	readers int
	writer  bool
	rq      []chan struct{}
	wq      []chan struct{}
}

func (m *RWMutex) Lock() {
	m.mu.Lock()
	if !m.writer && m.readers == 0 && len(m.wq) == 0 {
		m.writer = true
		m.mu.Unlock()
		return
	}
	c := make(chan struct{})
	m.wq = append(m.wq, c)
	m.mu.Unlock()
	<-c
}

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer && m.readers == 0 && len(m.wq) == 0 {
		m.writer = true
		return true
	}
	return false
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: Unlock of unlocked lock")
	}
	m.writer = false
	if len(m.rq) > 0 {
		for _, c := range m.rq {
			m.readers++
			close(c)
		}
		m.rq = nil
		return
	}
	m.nextWriter()
}

func (m *RWMutex) nextWriter() {
	if len(m.wq) > 0 {
		c := m.wq[0]
		m.wq = m.wq[1:]
		m.writer = true
		close(c)
	}
}

func (m *RWMutex) RLock() {
	m.mu.Lock()
	if !m.writer && len(m.wq) == 0 {
		m.readers++
		m.mu.Unlock()
		return
	}
	c := make(chan struct{})
	m.rq = append(m.rq, c)
	m.mu.Unlock()
	<-c
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer && len(m.wq) == 0 {
		m.readers++
		return true
	}
	return false
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 && !m.writer {
		m.nextWriter()
	}
}

// RLocker returns a Locker of the read side.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done atomic.Bool
}

// Do calls f unless it was called before.
func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}
