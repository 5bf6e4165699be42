package worker

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
)

// The free runs: clients call the broker as they please, each keeping its own log; the
// merged logs are judged when all have finished.

const never = int64(1) << 62

// fSub is a subscription of a free run.
type fSub struct {
	n      int
	topic  string
	s      broker.Subscriber
	op     *fOp // the Sub call, nil if made before the clients started
	id     string
	sess   [2]int // first and last session it may belong to
	unsubs []*fOp
}

// fOp is a call of a free run.
type fOp struct {
	client     int
	kind       string
	start, end int64
	t0, t1     time.Time
	timeout    time.Duration
	deadline   time.Duration // of the context, 0: none
	cancelled  bool          // the context was cancelled before or by the return
	topic      string
	sub        *fSub
	no         int // message published
	err        error
	mu         sync.Mutex
	invoked    int
	took       int64 // the handler was entered
	tookAt     time.Time
	got        broker.Message
	gotNo      int
	hEnd       time.Time
	hErr       error
	panics     bool // the handler panics
	late       bool // the handler ran after the return
	sess       [2]int
	nested     bool
}

func (o *fOp) String() string {
	s := fmt.Sprintf("client %d %s", o.client, o.kind)
	switch o.kind {
	case "Pub":
		s += fmt.Sprintf("(%q, %d)", o.topic, o.no)
	case "Receive", "Unsubscribe":
		s += fmt.Sprintf("(subscription %d of %q)", o.sub.n, o.sub.topic)
	case "Sub":
		s += fmt.Sprintf("(%q)", o.topic)
	}
	s += fmt.Sprintf(" [%d,%d] timeout=%v", o.start, o.end, o.timeout)
	if o.deadline != 0 {
		s += fmt.Sprintf(" cancelled-after=%v", o.deadline)
	}
	if o.invoked > 0 {
		s += fmt.Sprintf(" took %d at %d", o.gotNo, o.took)
	}
	return s + fmt.Sprintf(" = %v", o.err)
}

// fSess is the lifetime of a session: it is open within [open, closing] and may be within [opening, closed].
type fSess struct {
	opening, open, closing, closed int64
	overAt                         time.Time // of closing
}

type fCfg struct {
	clients  int
	calls    int
	caps     []int
	topics   int
	sessions bool
	cancels  float64 // share of calls whose context is cancelled
	timeouts float64 // share of calls with a short timeout
	unsub    int     // weights
	sub      int
	pub      int
	recv     int
	consumer bool // clients either publish or receive
	cold     bool // the clients are the first to use the topics, in the same order
	chaos    bool // every client opens, closes and cancels sessions; only crashes, races, hangs and leaks are judged
}

type fRun struct {
	*Exec
	cfg    fCfg
	race   bool
	b      *membroker.Memory
	cap    int
	topics []string
	base   time.Time
	seq    atomic.Int64
	shared []*fSub
	logs   [][]*fOp
	own    [][]*fSub
	msgs   [][]broker.Message // of each client
	ses    []*fSess
	stop   atomic.Bool
}

func (r *fRun) stamp() int64 {
	if r.race {
		return int64(time.Since(r.base)) // adds no synchronization
	}
	return r.seq.Add(1)
}

// dur is a short duration.
func (r *fRun) dur(g *rand.Rand) time.Duration {
	if r.race {
		return time.Duration(1 + g.IntN(3_000_000))
	}
	switch g.IntN(3) {
	case 0:
		return time.Duration(1 + g.IntN(300_000))
	case 1:
		return time.Duration(1 + g.IntN(3_000_000))
	}
	return time.Duration(1 + g.IntN(40_000_000))
}

// overCtx is cancelled.
var overCtx = func() context.Context {
	ctx, cancel := context.WithCancel(bg)
	cancel()
	return ctx
}()

const maxPerClient = 1 << 16

// client is one goroutine of calls.
func (r *fRun) client(c int, g *rand.Rand, role int) {
	cfg := &r.cfg
	subs := append([]*fSub{}, r.shared...)
	x := &Exec{Rand: g}
	var stopSession []context.CancelFunc
	defer func() {
		for _, f := range stopSession {
			f()
		}
	}()
	call := func(o *fOp, ctx context.Context, f func(ctx context.Context) error) {
		o.client = c
		cancel := context.CancelFunc(func() {})
		if o.deadline > 0 {
			ctx, cancel = context.WithTimeout(ctx, o.deadline)
		}
		o.t0 = time.Now()
		o.start = r.stamp()
		err := f(ctx)
		o.mu.Lock()
		o.end = r.stamp()
		o.t1 = time.Now()
		o.err = err
		o.cancelled = ctx.Err() != nil
		o.mu.Unlock()
		cancel()
		r.logs[c] = append(r.logs[c], o)
	}
	long := Long(time.Hour)
	if ticking {
		long *= 15
	}
	timing := func(o *fOp) []broker.Option {
		o.timeout = long
		if g.Float64() < cfg.timeouts {
			o.timeout = r.dur(g)
		}
		if g.Float64() < cfg.cancels || (r.race && o.timeout == long && !cfg.sessions && !cfg.chaos) {
			o.deadline = r.dur(g)
		}
		if o.kind == "Pub" {
			return []broker.Option{broker.WithPubTimeout(o.timeout)}
		}
		return []broker.Option{broker.WithSubTimeout(o.timeout)}
	}
	turn := 0
	topic := func() string {
		if cfg.cold && g.IntN(4) > 0 {
			return r.topics[min(turn/2, len(r.topics)-1)]
		}
		return r.topics[g.IntN(len(r.topics))]
	}
	publish := func(topic string, nested bool) {
		no := c*maxPerClient + len(r.msgs[c])
		m := x.newMsg(no)
		r.msgs[c] = append(r.msgs[c], m)
		o := &fOp{kind: "Pub", topic: topic, no: no, nested: nested}
		opts := timing(o)
		if nested {
			o.timeout = r.dur(g)
			opts = []broker.Option{broker.WithPubTimeout(o.timeout)}
		}
		call(o, bg, func(ctx context.Context) error { return r.b.Pub(ctx, topic, m, opts...) })
	}
	unsubscribe := func(s *fSub) {
		o := &fOp{kind: "Unsubscribe", sub: s}
		ctx := bg
		if g.IntN(10) == 0 {
			ctx = overCtx
		}
		call(o, ctx, func(ctx context.Context) error { return s.s.Unsubscribe(ctx) })
	}
	subscribe := func() {
		s := &fSub{n: (c+1)*maxPerClient + len(r.own[c]), topic: topic()}
		o := &fOp{kind: "Sub", topic: s.topic, sub: s}
		s.op = o
		call(o, bg, func(ctx context.Context) error {
			var err error
			s.s, err = r.b.Sub(ctx, s.topic)
			return err
		})
		if o.err == nil && s.s != nil {
			s.id, _ = s.s.ID(bg)
			r.own[c] = append(r.own[c], s)
			subs = append(subs, s)
		}
	}
	receive := func(s *fSub) {
		o := &fOp{kind: "Receive", sub: s, gotNo: -1}
		opts := timing(o)
		if g.IntN(5) == 0 {
			o.hErr = errHandler
		}
		act := x.Pick(12, 3, 2, 1, 1)
		o.panics = g.IntN(25) == 0
		d := r.dur(g) / 4
		topic := topic()
		call(o, bg, func(ctx context.Context) error {
			defer func() {
				if o.panics {
					if p := recover(); p != nil && p != errLeft {
						panic(p)
					}
				}
			}()
			return s.s.Receive(ctx, func(_ context.Context, m broker.Message) error {
				o.mu.Lock()
				o.invoked++
				o.took, o.tookAt = r.stamp(), time.Now()
				o.got, o.gotNo = m, msgNo(m)
				o.late = o.end != 0
				o.mu.Unlock()
				switch act {
				case 1:
					time.Sleep(d)
				case 2:
					publish(topic, true)
				case 3:
					unsubscribe(s)
				case 4:
					runtime.Gosched()
				}
				o.mu.Lock()
				o.hEnd = time.Now()
				o.mu.Unlock()
				if o.panics {
					panic(errLeft)
				}
				return o.hErr
			}, opts...)
		})
	}
	for i := 0; i < cfg.calls || (cfg.sessions && cfg.clients > 1 && !r.stop.Load() && i < 8*cfg.calls); i++ {
		turn = i
		w := []int{cfg.pub, cfg.recv, cfg.sub, cfg.unsub, 0, 0, 0, 4}
		if cfg.consumer {
			w[role%2] = 0
		}
		if cfg.chaos {
			w[4], w[5], w[6] = 3, 3, 2
		}
		var s *fSub
		if len(subs) > 0 {
			k := len(subs)
			if k > 4 && g.IntN(4) > 0 {
				k = 4
			}
			s = subs[len(subs)-1-g.IntN(k)]
		} else {
			w[1], w[2], w[3] = 0, w[2]+w[1], 0
			if w[0]+w[1]+w[2]+w[4] == 0 {
				w[2] = 1
			}
		}
		switch x.Pick(w...) {
		case 0:
			publish(topic(), false)
		case 1:
			receive(s)
			if (cfg.sessions || cfg.chaos) && len(r.logs[c]) > 0 {
				if l := r.logs[c][len(r.logs[c])-1]; errors.Is(l.err, broker.ErrSubscriptionInactive) {
					subscribe()
				}
			}
		case 2:
			subscribe()
		case 3:
			unsubscribe(s)
		case 4:
			ctx, cancel := newCtx(g)
			stopSession = append(stopSession, cancel)
			call(&fOp{kind: "Open"}, bg, func(context.Context) error { return r.b.Open(ctx) })
		case 5:
			call(&fOp{kind: "Close"}, bg, func(context.Context) error { return r.b.Close() })
		case 6:
			if len(stopSession) > 0 {
				stopSession[g.IntN(len(stopSession))]()
			}
		case 7:
			time.Sleep(r.dur(g) / 8)
		}
		if cfg.sessions && len(r.logs[c]) > 0 && r.logs[c][len(r.logs[c])-1].err == broker.ErrNotConnected {
			time.Sleep(r.dur(g) / 8)
		}
	}
}

// controller opens and closes the sessions.
func (r *fRun) controller(g *rand.Rand, n int) {
	x := &Exec{Rand: g}
	var old []context.CancelFunc
	defer func() {
		for _, f := range old {
			f()
		}
		r.stop.Store(true)
	}()
	for i := 0; i < n; i++ {
		if i > 0 {
			if g.IntN(2) == 0 {
				time.Sleep(r.dur(g) / 2)
			}
			if g.IntN(3) == 0 {
				_ = r.b.Close() // closes nothing
			}
			for _, f := range old {
				if g.IntN(2) == 0 {
					f()
				}
			}
		}
		s := &fSess{closing: never, closed: never}
		ctx, cancel := newCtx(g)
		s.opening = r.stamp()
		if err := r.b.Open(ctx); err != nil {
			r.Report("B05", "error", "Open = %v", err)
		}
		s.open = r.stamp()
		r.ses = append(r.ses, s)
		for k := g.IntN(4); k > 0; k-- {
			time.Sleep(r.dur(g))
			switch g.IntN(3) {
			case 0:
				c2, cancel2 := newCtx(g)
				_ = r.b.Open(c2) // opens nothing
				if g.IntN(2) == 0 {
					cancel2()
				} else {
					old = append(old, cancel2)
				}
			case 1:
				if len(old) > 0 {
					old[g.IntN(len(old))]()
				}
			}
		}
		if i == n-1 {
			// the last one stays open
			_ = cancel
			r.Cleanup(cancel)
			return
		}
		how := x.Pick(4, 2, 2)
		if r.race && how == 2 {
			how = 1
		}
		if how != 0 {
			s.closing, s.overAt = r.stamp(), time.Now()
			cancel()
			if how == 1 {
				if g.IntN(2) == 0 {
					time.Sleep(r.dur(g) / 8)
				}
				_ = r.b.Close()
			} else {
				time.Sleep(time.Second)
			}
		} else {
			s.closing, s.overAt = r.stamp(), time.Now()
			if err := r.b.Close(); err != nil {
				r.Report("B05", "error", "Close = %v", err)
			}
			old = append(old, cancel)
		}
		s.closed = r.stamp()
	}
}

// slack is more than all injected delays of a call can add up to.
const slack = 2 * time.Second

func brokerFree(mk func(x *Exec) fCfg) func(x *Exec) {
	return func(x *Exec) {
		cfg := mk(x)
		r := &fRun{Exec: x, cfg: cfg, race: x.Part.Engine == Race, base: time.Now()}
		cap := cfg.caps[x.IntN(len(cfg.caps))]
		b, err := membroker.New(broker.WithCap(cap))
		if err != nil {
			x.Fail("*", "new", "New = %v", err)
		}
		x.Cleanup(func() { _ = b.Close() })
		if cap < 0 {
			cap = defaultCap
		}
		r.b, r.cap = b, cap
		r.topics = x.Pool("t", cfg.topics)
		n := cfg.clients
		r.logs, r.own, r.msgs = make([][]*fOp, n+1), make([][]*fSub, n+1), make([][]broker.Message, n+1)
		if !cfg.sessions {
			s := &fSess{opening: r.stamp(), closing: never, closed: never}
			ctx, cancel := newCtx(x.Rand)
			x.Cleanup(cancel)
			if err := b.Open(ctx); err != nil {
				x.Fail("B05", "error", "Open = %v", err)
			}
			s.open = r.stamp()
			r.ses = append(r.ses, s)
			for i, k := 0, 1+x.IntN(3); !cfg.cold && (i < k || i < cfg.topics); i++ {
				t := r.topics[i%cfg.topics]
				s, err := b.Sub(bg, t)
				if err != nil || s == nil {
					x.Fail("B05", "error", "Sub = %v, %v", s, err)
				}
				id, _ := s.ID(bg)
				r.shared = append(r.shared, &fSub{n: i, topic: t, s: s, id: id})
			}
		}
		x.Log("%+v cap=%d", cfg, cap)
		begin := make(chan struct{})
		var wg sync.WaitGroup
		for c := 0; c < n; c++ {
			wg.Add(1)
			go func(c int, g *rand.Rand) {
				defer wg.Done()
				<-begin
				x.Guard("a concurrent call", func() { r.client(c, g, c) })
			}(c, rand.New(rand.NewPCG(x.Seed, uint64(c)+10)))
		}
		var ctl sync.WaitGroup
		if cfg.sessions {
			wg.Add(1)
			ctl.Add(1)
			k := 2 + x.IntN(5)
			go func(g *rand.Rand) {
				defer wg.Done()
				defer ctl.Done()
				<-begin
				x.Guard("a concurrent call", func() { r.controller(g, k) })
			}(rand.New(rand.NewPCG(x.Seed, 9)))
		}
		close(begin)
		if r.race && (cfg.sessions || cfg.chaos) {
			// calls without end are ended by the end of the session
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			ctl.Wait()
			select {
			case <-done:
			case <-time.After(time.Duration(1+x.IntN(4)) * time.Millisecond):
				r.closeFree()
				for end := false; !end; {
					select {
					case <-done:
						end = true
					case <-time.After(2 * time.Millisecond):
						_ = b.Close() // chaos may have opened another one
					}
				}
			}
		} else {
			wg.Wait()
		}
		if x.Failed() {
			panic(abort{})
		}
		if !cfg.chaos {
			r.drainFree()
		}
		r.closeFree()
		r.judge()
		if x.Failed() {
			panic(abort{})
		}
		if r.race {
			r.goneRace()
		}
	}
}

func (r *fRun) closeFree() {
	var s *fSess
	if len(r.ses) > 0 {
		s = r.ses[len(r.ses)-1]
	}
	if s != nil && s.closing == never {
		s.closing, s.overAt = r.stamp(), time.Now()
	}
	if err := r.b.Close(); err != nil {
		r.Fail("B05", "error", "Close = %v", err)
	}
	if s != nil && s.closed == never {
		s.closed = r.stamp()
	}
}

// goneRace waits for the goroutines of the broker to end (in bubbles the runner does).
func (r *fRun) goneRace() {
	for i := 0; i < 2000; i++ {
		if len(started()) == 0 {
			return
		}
		time.Sleep(time.Duration(1+i/10) * 100 * time.Microsecond)
	}
	s := started()
	if len(s) > 0 {
		r.Log("%s", trimStack(s[0]))
		r.Fail("B07", "leak", "%d goroutines of the broker outlive its session", len(s))
	}
}

// drainFree receives what the clients left in the last session.
func (r *fRun) drainFree() {
	last := r.ses[len(r.ses)-1]
	if last.closing != never {
		return
	}
	c := r.cfg.clients
	for _, t := range r.topics {
		want, timeouts, pubs := 0, r.cfg.sessions, 0
		for _, l := range r.logs {
			for _, o := range l {
				if o.kind == "Pub" && o.topic == t {
					pubs++
				}
				switch {
				case o.kind == "Pub" && o.err == nil && o.topic == t && o.start > last.open:
					want++
				case o.kind == "Receive" && o.invoked > 0 && o.sub.topic == t:
					if p := r.pubOf(o.gotNo); p != nil && p.start > last.open {
						want--
					}
				case o.kind == "Receive" && errors.Is(o.err, broker.ErrTimeout) && o.sub.topic == t:
					timeouts = true
				}
			}
		}
		s := &fSub{n: -1 - len(r.own[c]), topic: t}
		o := &fOp{client: c, kind: "Sub", topic: t, sub: s, start: r.stamp()}
		s.op = o
		s.s, o.err = r.b.Sub(bg, t)
		o.end = r.stamp()
		r.logs[c] = append(r.logs[c], o)
		if o.err != nil || s.s == nil {
			r.Fail("B05", "error", "%v in an open session", o)
		}
		s.id, _ = s.s.ID(bg)
		r.own[c] = append(r.own[c], s)
		for k := 0; ; k++ {
			o := &fOp{client: c, kind: "Receive", sub: s, gotNo: -1, timeout: 20 * time.Second}
			switch {
			case r.race && timeouts:
				o.timeout = 3 * time.Millisecond
			case r.race && k >= want:
				o.timeout = time.Millisecond // is there one too many?
				if k > want {
					o = nil
				}
			}
			if o == nil {
				break
			}
			o.t0, o.start = time.Now(), r.stamp()
			o.err = s.s.Receive(bg, func(_ context.Context, m broker.Message) error {
				o.invoked++
				o.took, o.tookAt = r.stamp(), time.Now()
				o.got, o.gotNo = m, msgNo(m)
				return nil
			}, broker.WithSubTimeout(o.timeout))
			o.end, o.t1 = r.stamp(), time.Now()
			o.hEnd = o.t1
			r.logs[c] = append(r.logs[c], o)
			r.Count("drained", o.invoked)
			if o.err != nil {
				if !errors.Is(o.err, broker.ErrTimeout) {
					r.Fail("B01 B05", "error", "%v in an open session", o)
				}
				if !r.race || !timeouts || k > pubs+4 {
					break
				}
			}
		}
	}
}

func (r *fRun) pubOf(no int) *fOp {
	if no < 0 || no/maxPerClient >= len(r.logs) {
		return nil
	}
	for _, o := range r.logs[no/maxPerClient] {
		if o.kind == "Pub" && o.no == no {
			return o
		}
	}
	return nil
}

// span returns the first and last session that an effect within [a, b] may belong to; first > last if none.
func (r *fRun) span(a, b int64) [2]int {
	s := [2]int{1 << 30, -1}
	for i, w := range r.ses {
		if w.opening <= b && w.closed >= a {
			if i < s[0] {
				s[0] = i
			}
			s[1] = i
		}
	}
	return s
}

func (r *fRun) judge() {
	x := r.Exec
	var ops []*fOp
	subs := append([]*fSub{}, r.shared...)
	for _, s := range r.own {
		subs = append(subs, s...)
	}
	for _, l := range r.logs {
		ops = append(ops, l...)
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].start < ops[j].start })
	for _, s := range r.ses {
		x.Log("session [%d,%d] to [%d,%d]", s.opening, s.open, s.closing, s.closed)
	}
	overlaps := false
	end := int64(-1)
	x.sig = 14695981039346656037
	for _, o := range ops {
		if r.race {
			// stamps are real time there: keep them out of the signature
			x.mu.Lock()
			if len(x.trace) < maxTrace {
				x.trace = append(x.trace, o.String())
			}
			x.sig = mix(x.sig, strHash(o.kind), uint64(o.client), uint64(o.no), uint64(o.gotNo+1), uint64(o.invoked))
			x.mu.Unlock()
		} else {
			x.Log("%v", o)
		}
		if o.start < end {
			overlaps = true
		}
		end = max(end, o.end)
	}
	x.Count("calls", len(ops))
	if overlaps {
		x.NonTrivial()
		x.Count("histories_with_overlapping_calls", 1)
	}
	if r.cfg.chaos {
		// the sessions are unknown; what remains are the identities of messages and subscriptions
		pubs := map[int]*fOp{}
		for _, o := range ops {
			if o.kind == "Pub" {
				pubs[o.no] = o
			}
		}
		r.deliveries(ops, pubs, false)
		r.identities(subs)
		return
	}
	pubs := map[int]*fOp{}
	for _, o := range ops {
		o.sess = r.span(o.start, o.end)
		switch o.kind {
		case "Pub":
			pubs[o.no] = o
		case "Sub":
			o.sub.sess = o.sess
		case "Unsubscribe":
			o.sub.unsubs = append(o.sub.unsubs, o)
		}
	}
	// shared subscriptions were made in session 0
	r.identities(subs)
	for _, o := range ops {
		switch o.kind {
		case "Pub", "Sub":
			r.judgeConnected(o)
		case "Receive":
			r.judgeReceive(o)
		case "Unsubscribe":
			if o.err != nil && !o.cancelled {
				x.Report("B04", "error", "%v", o)
			}
		}
		if !r.race && o.deadline > 0 && (o.kind == "Pub" || o.kind == "Receive") {
			over := o.t0.Add(o.deadline)
			if o.kind == "Receive" && o.invoked > 0 {
				over = later(over, o.hEnd)
			}
			if d := o.t1.Sub(over); d > slack {
				x.Report("B06", "blocked", "%v returned %v after it was cancelled", o, d)
			}
			if o.cancelled {
				x.Count("cancelled_calls_judged", 1)
			}
		}
		if errors.Is(o.err, broker.ErrTimeout) && o.hErr == nil {
			x.Count("timeouts_judged", 1)
			d := o.t1.Sub(o.t0)
			if d < o.timeout {
				x.Report("B03", "early", "%v timed out after %v", o, d)
			}
			if !r.race && d > o.timeout+tolerance(o.timeout)+slack {
				x.Report("B03", "late", "%v timed out after %v", o, d)
			}
		}
	}
	if x.Failed() {
		return
	}
	r.deliveries(ops, pubs, true)
	if x.Failed() {
		return
	}
	r.order(ops, pubs)
	r.conservation(ops, pubs)
	r.capacity(ops, pubs)
}

func later(a, b time.Time) time.Time {
	if a.After(b) {
		return a
	}
	return b
}

func (r *fRun) identities(subs []*fSub) {
	ids := map[string]*fSub{}
	for _, s := range subs {
		if s.id == "" || ids[s.id] != nil {
			r.Report("B04", "id", "id %q of subscription %d is empty or taken", s.id, s.n)
		}
		ids[s.id] = s
		if id, err := s.s.ID(bg); err != nil || id != s.id {
			r.Report("B04", "id", "ID of subscription %d changed from %q to %q (%v)", s.n, s.id, id, err)
		}
		if t, err := s.s.Topic(bg); err != nil || t != s.topic {
			r.Report("B04", "topic", "Topic of subscription %d = %q, %v, want %q", s.n, t, err, s.topic)
		}
	}
	r.Count("subscription_identity_checks", len(subs))
}

// judgeConnected judges the result of a publish or subscribe against the sessions.
func (r *fRun) judgeConnected(o *fOp) {
	within, closed := false, o.sess[0] > o.sess[1]
	var over time.Time
	for _, w := range r.ses {
		within = within || (w.open < o.start && o.end < w.closing)
	}
	if o.sess[0] == o.sess[1] && r.ses[o.sess[0]].closing != never {
		over = later(r.ses[o.sess[0]].overAt, o.t0)
	}
	switch {
	case o.err == nil && closed:
		r.Report("B05", "published", "%v while no session was open", o)
	case errors.Is(o.err, broker.ErrNotConnected) && within:
		r.Report("B05", "error", "%v within an open session", o)
	case closed && !errors.Is(o.err, broker.ErrNotConnected) && !o.cancelled:
		r.Report("B05", "error", "%v while no session was open", o)
	case o.err == nil, errors.Is(o.err, broker.ErrNotConnected):
	case o.kind == "Sub":
		r.Report("B05", "error", "%v", o)
	case o.cancelled:
	case errors.Is(o.err, broker.ErrTimeout):
		if closed {
			r.Report("B05", "error", "%v while no session was open", o)
		}
	case within:
		r.Report("B01 B06", "error", "%v", o)
	}
	if !r.race && !over.IsZero() && o.t1.Sub(over) > slack {
		r.Report("B05 B06 B07", "blocked", "%v returned %v after the end of its session", o, o.t1.Sub(over))
	}
	if o.kind == "Pub" {
		r.Count("publishes_judged", 1)
	}
}

func (r *fRun) judgeReceive(o *fOp) {
	s := o.sub
	var unsubStart, unsubEnd int64 = never, never
	var unsubAt time.Time
	for _, u := range s.unsubs {
		unsubStart = min(unsubStart, u.start)
		if u.end < unsubEnd {
			unsubEnd, unsubAt = u.end, u.t1
		}
	}
	over, overAfter := int64(never), int64(never) // the session may be, is over
	var overAt time.Time
	for i := s.sess[0]; i <= s.sess[1] && i < len(r.ses); i++ {
		w := r.ses[i]
		over = min(over, w.closing)
		if i == s.sess[1] {
			overAfter, overAt = w.closed, w.overAt
		}
	}
	if o.late || o.invoked > 1 {
		r.Report("B01", "invoked", "%v ran its handler %d times (after its return: %v)", o, o.invoked, o.late)
	}
	if o.invoked > 0 {
		if unsubEnd < o.start {
			r.Report("B04", "invoked", "%v ran its handler although its subscription had ended at %d", o, unsubEnd)
		}
		if overAfter < o.start {
			r.Report("B05", "invoked", "%v ran its handler although its session had ended at %d", o, overAfter)
		}
		if o.panics {
			r.Count("handlers_that_panicked", 1)
			return
		}
		if (o.hErr == nil) != (o.err == nil) || (o.hErr != nil && !errors.Is(o.err, o.hErr)) {
			props := "D02 B01"
			if o.cancelled {
				props += " B06"
			}
			r.Report(props, "handler-error", "%v, its handler returned %v", o, o.hErr)
		}
		return
	}
	switch {
	case unsubEnd < o.start:
		r.Count("receives_after_unsubscribe", 1)
		if !errors.Is(o.err, broker.ErrSubscriptionInactive) && !(o.cancelled && o.err != nil) {
			r.Report("B04", "error", "%v although its subscription had ended at %d", o, unsubEnd)
		}
	case overAfter < o.start:
		r.Count("receives_after_session", 1)
		if o.err == nil {
			r.Report("B05", "error", "%v although its session had ended at %d", o, overAfter)
		}
	case o.err == nil, errors.Is(o.err, broker.ErrSubscriptionInactive):
		if unsubStart > o.end && over > o.end && !o.cancelled {
			r.Report("B01 B04 B05", "error", "%v without running its handler, although nothing ended it", o)
		}
	case errors.Is(o.err, broker.ErrTimeout):
	case o.cancelled:
	case unsubStart > o.end && over > o.end:
		r.Report("B01 B03 B06", "error", "%v", o)
	}
	if r.race {
		return
	}
	if !unsubAt.IsZero() {
		if d := o.t1.Sub(later(unsubAt, o.t0)); d > slack {
			r.Report("B04", "blocked", "%v returned %v after the end of its subscription", o, d)
		}
	}
	if overAfter != never && overAfter < o.end {
		if d := o.t1.Sub(later(overAt, o.t0)); d > slack {
			r.Report("B05 B06 B07", "blocked", "%v returned %v after the end of its session", o, d)
		}
	}
}

// deliveries checks that what was delivered was published and accepted, once.
func (r *fRun) deliveries(ops []*fOp, pubs map[int]*fOp, sessions bool) {
	taken := map[int]*fOp{}
	for _, o := range ops {
		if o.kind != "Receive" || o.invoked == 0 {
			continue
		}
		r.Count("deliveries", 1)
		p := pubs[o.gotNo]
		if p == nil {
			r.Report("B01", "invented", "%v: message %s was never published", o, showMsg(o.got))
			return
		}
		m := r.msgs[p.no/maxPerClient][p.no%maxPerClient]
		switch {
		case !sameMsg(m, o.got):
			r.Report("B01", "altered", "%v: message %s was delivered as %s", o, showMsg(m), showMsg(o.got))
		case p.topic != o.sub.topic:
			r.Report("B01", "topic", "%v: the message was published on %q", o, p.topic)
		case taken[o.gotNo] != nil:
			r.Report("B01", "twice", "%v: the message was delivered before by %v", o, taken[o.gotNo])
		case p.start > o.took:
			r.Report("B01", "harness", "%v took a message before it was published by %v", o, p)
		case p.err != nil:
			props := "B01 B06"
			if errors.Is(p.err, broker.ErrTimeout) {
				props = "B01 B03 B06"
			}
			if errors.Is(p.err, broker.ErrNotConnected) {
				props = "B01 B05 B06"
			}
			r.Report(props, "failed-publish", "%v: its publish had failed: %v", o, p)
		case sessions && (p.sess[1] < o.sub.sess[0] || p.sess[0] > o.sub.sess[1]):
			r.Report("B05 B01", "session", "%v: message of sessions %v was delivered to a subscription of sessions %v", o, p.sess, o.sub.sess)
		}
		taken[o.gotNo] = o
	}
}

// order checks that messages were taken in the order of their publication.
func (r *fRun) order(ops []*fOp, pubs map[int]*fOp) {
	type del struct{ p, o *fOp }
	by := map[string][]del{}
	for _, o := range ops {
		if o.kind == "Receive" && o.invoked > 0 {
			by[o.sub.topic] = append(by[o.sub.topic], del{pubs[o.gotNo], o})
		}
	}
	for _, ds := range by {
		for _, a := range ds {
			for _, b := range ds {
				if a.p.end < b.p.start && b.o.took < a.o.start && r.sameSession(a.p, b.p) {
					r.Report("B02", "order", "message %d, published [%d,%d] before message %d [%d,%d], was taken after it (%v; %v)",
						a.p.no, a.p.start, a.p.end, b.p.no, b.p.start, b.p.end, a.o, b.o)
				}
			}
		}
		r.Count("order_pairs_checked", len(ds)*len(ds))
	}
}

func (r *fRun) sameSession(a, b *fOp) bool {
	return a.sess[0] == a.sess[1] && a.sess == b.sess
}

// conservation checks that messages accepted in the last session were delivered in the end.
func (r *fRun) conservation(ops []*fOp, pubs map[int]*fOp) {
	last := len(r.ses) - 1
	drained := map[string]bool{}
	for _, s := range r.own[r.cfg.clients] {
		drained[s.topic] = true
	}
	taken := map[int]bool{}
	for _, o := range ops {
		if o.invoked > 0 {
			taken[o.gotNo] = true
		}
	}
	for t := range drained {
		var lost []*fOp
		timeouts := 0
		for _, o := range ops {
			switch {
			case o.kind == "Pub" && o.topic == t && o.err == nil && o.start > r.ses[last].open && !taken[o.no]:
				lost = append(lost, o)
			case o.kind == "Receive" && o.sub.topic == t && o.sub.sess[1] == last && o.invoked == 0 && errors.Is(o.err, broker.ErrTimeout):
				if o.client < r.cfg.clients || r.race && (r.cfg.sessions || timeouts > 0) {
					timeouts++
				}
			}
		}
		r.Count("topics_drained", 1)
		if len(lost) > timeouts {
			p := "B01"
			if len(r.ses) > 1 {
				p = "B01 B05"
			}
			for _, o := range ops {
				if o.kind == "Receive" && o.sub.topic == t && o.invoked == 0 && o.cancelled {
					p += " B06"
					break
				}
			}
			for _, o := range ops {
				if o.kind == "Unsubscribe" && o.sub.topic == t {
					p += " B04"
					break
				}
			}
			r.Report(p, "lost", "%d messages of topic %q accepted but never delivered (receives that timed out: %d), e.g. %v", len(lost), t, timeouts, lost[0])
		}
	}
}

// capacity checks that no topic held more than its capacity.
func (r *fRun) capacity(ops []*fOp, pubs map[int]*fOp) {
	type ev struct {
		at int64
		d  int
	}
	for i, w := range r.ses {
		evs := map[string][]ev{}
		for _, o := range ops {
			switch {
			case o.kind == "Pub" && o.err == nil && o.sess == [2]int{i, i} && o.end < w.closing:
				evs[o.topic] = append(evs[o.topic], ev{o.end, 1})
			case o.kind == "Receive" && o.invoked > 0 && pubs[o.gotNo].sess == [2]int{i, i} && pubs[o.gotNo].end < w.closing:
				evs[o.sub.topic] = append(evs[o.sub.topic], ev{o.start, -1})
			case o.kind == "Receive" && o.invoked == 0 && errors.Is(o.err, broker.ErrTimeout) && o.sub.sess[0] <= i && i <= o.sub.sess[1]:
				evs[o.sub.topic] = append(evs[o.sub.topic], ev{o.start, -1})
			}
		}
		for t, es := range evs {
			sort.Slice(es, func(a, b int) bool {
				if es[a].at != es[b].at {
					return es[a].at < es[b].at
				}
				return es[a].d < es[b].d
			})
			n := 0
			for _, e := range es {
				n += e.d
				if n > r.cap {
					r.Report("B03", "capacity", "topic %q held %d messages at %d, capacity is %d", t, n, e.at, r.cap)
					return
				}
			}
			r.Count("capacity_histories", 1)
		}
	}
}

func init() {
	free := "2 to 7 clients call one broker concurrently under delays injected at every statement (sim) or under the race detector (race); their merged logs are checked for exactly-once delivery, order, capacity, timing, sessions; non-trivial: calls of different clients overlapped"
	base := func(x *Exec) fCfg {
		c := fCfg{clients: 2 + x.IntN(4), calls: 4 + x.IntN(10), caps: []int{0, 1, 2, 3, 100, -1}, topics: 1 + x.IntN(2), pub: 10, recv: 10, sub: 1, unsub: 1}
		c.consumer = x.Chance(0.4)
		if c.consumer {
			c.unsub = x.IntN(2)
		}
		switch x.IntN(4) {
		case 0: // no losses are excused
		case 1:
			c.cancels = 0.3
		case 2:
			c.timeouts = 0.3
		case 3:
			c.cancels, c.timeouts = 0.3, 0.3
		}
		if x.Big {
			c.clients, c.calls = 6+x.IntN(10), 40
		}
		if x.Chance(0.25) {
			c.cold, c.topics, c.calls = true, 3+x.IntN(3), 4+x.IntN(5)
		}
		return c
	}
	mk := func(f func(x *Exec, c *fCfg)) func(x *Exec) {
		return brokerFree(func(x *Exec) fCfg {
			c := base(x)
			f(x, &c)
			return c
		})
	}
	add := func(prop string, quick, qrace int, f func(x *Exec, c *fCfg)) {
		register(prop, &Part{Name: "concurrent", Engine: Sim, Perturb: true, Quick: quick, Thorough: quick * 40, Rule: free, Run: mk(f)})
		if qrace > 0 {
			register(prop, &Part{Name: "race-concurrent", Engine: Race, Quick: qrace, Thorough: qrace * 30, Rule: free, Run: mk(f)})
		}
	}
	add("B01", 8000, 1500, func(x *Exec, c *fCfg) { c.unsub *= 2 })
	add("B02", 8000, 1500, func(x *Exec, c *fCfg) {
		c.caps, c.topics, c.pub, c.timeouts = []int{0, 1, 2, 5, 100}, 1, 14, 0
		c.calls += 6
	})
	add("B03", 6000, 0, func(x *Exec, c *fCfg) { c.caps, c.timeouts, c.pub = []int{0, 1, 2, 3}, 0.6, 14 })
	add("B04", 8000, 1200, func(x *Exec, c *fCfg) { c.unsub, c.sub = 6, 4 })
	add("B05", 8000, 600, func(x *Exec, c *fCfg) { c.sessions, c.sub = true, 2 })
	add("B06", 8000, 800, func(x *Exec, c *fCfg) {
		c.cancels, c.caps, c.timeouts = 0.7, []int{0, 1, 2}, 0
		c.sessions = x.Chance(0.3)
	})
	add("B07", 8000, 1500, func(x *Exec, c *fCfg) {
		c.chaos, c.sub, c.unsub = true, 3, 3
		c.cancels, c.timeouts = 0.3, 0.3
	})
	register("B07", &Part{Name: "race-sessions", Engine: Race, Quick: 800, Thorough: 30000, Rule: free, Run: mk(func(x *Exec, c *fCfg) { c.sessions, c.sub, c.unsub = true, 2, 2 })})
}
