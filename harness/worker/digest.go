package worker

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"os"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	simpledig "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	simpleing "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	mjson "github.com/milosgajdos/netscrape/pkg/space/marshal/json"
)

// ------------------------------------------------------------------- ingesting

type pubRec struct {
	topic string
	m     broker.Message
	copy  []byte
	ctx   context.Context
}

// recBroker records what is published. Like a real broker it keeps the messages it is given.
type recBroker struct {
	err  error
	recs []*pubRec
}

func (b *recBroker) Pub(ctx context.Context, topic string, m broker.Message, opts ...broker.Option) error {
	b.recs = append(b.recs, &pubRec{topic, m, bytes.Clone(m.Data), ctx})
	return b.err
}

func (b *recBroker) Sub(context.Context, string, ...broker.Option) (broker.Subscriber, error) {
	return nil, broker.ErrNotImplemented
}

// stubMarshaler makes payloads that tell where they are from.
type stubMarshaler struct {
	name string
	fail error
	odd  bool
	n    int
	in   []interface{}
	outs [][]byte
	lib  broker.Marshaler
}

func (m *stubMarshaler) Marshal(v interface{}) ([]byte, error) {
	m.n++
	m.in = append(m.in, v)
	var out []byte
	err := m.fail
	switch {
	case m.lib != nil:
		out, err = m.lib.Marshal(v)
	case m.odd && m.n%3 == 0:
	case m.odd:
		out = []byte{0, 0xff, '"', byte(m.n)}
	default:
		out = []byte(fmt.Sprintf("%s-%d-%T", m.name, m.n, v))
	}
	m.outs = append(m.outs, bytes.Clone(out))
	return out, err
}

// Data is a struct to be marshaled.
type Data struct {
	Name  string                 `json:"name"`
	Num   float64                `json:"num"`
	Big   uint64                 `json:"big"`
	Sub   *Data                  `json:"sub,omitempty"`
	Raw   []byte                 `json:"raw"`
	Any   map[string]interface{} `json:"any"`
	inner int
}

type failJSON struct{ err error }

func (f failJSON) MarshalJSON() ([]byte, error) { return nil, f.err }

// jsonData returns data that can be marshaled to JSON.
func (x *Exec) jsonData(depth int) interface{} {
	k := x.IntN(14)
	if depth <= 0 {
		k %= 8
	}
	switch k {
	case 0:
		return nil
	case 1:
		return x.Str()
	case 2:
		return x.IntN(1000) - 500
	case 3:
		return []interface{}{uint64(math.MaxUint64), int64(math.MinInt64), 1e300, -0.5, float32(0.1)}[x.IntN(5)]
	case 4:
		return x.Chance(0.5)
	case 5:
		return []byte(x.Str())
	case 6:
		return json.Number("12345678901234567890")
	case 7:
		return json.RawMessage(`{"a": [1, "<&>"]}`)
	case 8, 9:
		m := map[string]interface{}{}
		for i := x.IntN(4); i > 0; i-- {
			m[x.Str()] = x.jsonData(depth - 1)
		}
		return m
	case 10, 11:
		s := []interface{}{}
		for i := x.IntN(4); i > 0; i-- {
			s = append(s, x.jsonData(depth-1))
		}
		return s
	case 12:
		return x.AttrMap()
	}
	d := &Data{Name: x.Str(), Num: x.Weight(), Big: x.Uint64(), Raw: []byte(x.Str()), inner: 7}
	if math.IsInf(d.Num, 0) {
		d.Num = 1
	}
	if x.Chance(0.5) {
		d.Sub = &Data{Name: x.Str()}
	}
	return d
}

type loop struct{ Next *loop }

// badData cannot be marshaled to JSON.
func (x *Exec) badData() interface{} {
	l := &loop{}
	l.Next = l
	bad := []interface{}{make(chan int), func() {}, math.NaN(), math.Inf(1), complex(1, 2), l, failJSON{errHandler},
		map[string]interface{}{"a": make(chan int)}, []interface{}{1, math.NaN()}}
	return bad[x.IntN(len(bad))]
}

func jsonEqual(a, b []byte) bool {
	dec := func(s []byte) (interface{}, bool) {
		d := json.NewDecoder(bytes.NewReader(s))
		d.UseNumber()
		var v interface{}
		if d.Decode(&v) != nil {
			return nil, false
		}
		var more interface{}
		return v, d.Decode(&more) == io.EOF
	}
	v, ok1 := dec(a)
	w, ok2 := dec(b)
	return ok1 && ok2 && reflect.DeepEqual(v, w)
}

type digKey struct{}

// ingest makes one call and judges it.
func (x *Exec) ingest(in *simpleing.Ingester, ctor *stubMarshaler, b *recBroker, mk func() *stubMarshaler, who int) {
	topic, typ := x.Str(), broker.Type(x.IntN(8)-2)
	var per *stubMarshaler
	var opts []ingester.Option
	if x.Chance(0.4) {
		for k := x.Pick(5, 1); k >= 0; k-- {
			per = mk() // the last one counts
			opts = append(opts, ingester.WithMarshaler(per))
		}
	}
	m := ctor
	if per != nil {
		m = per
	}
	var data interface{}
	bad := false
	switch {
	case m != nil && m.lib != nil && x.Chance(0.8):
		data = x.Entity(x.Str(), x.Str(), x.AttrMap())
	case x.Chance(0.2):
		data, bad = x.badData(), true
	default:
		data = x.jsonData(3)
	}
	b.err = nil
	if x.Chance(0.2) {
		b.err = []error{errHandler, broker.ErrTimeout, broker.ErrNotConnected, context.Canceled, fmt.Errorf("wrapped: %w", io.EOF)}[x.IntN(5)]
	}
	ctx, cancel := context.WithCancel(context.WithValue(bg, digKey{}, who))
	defer cancel()
	before, calls := len(b.recs), 0
	if m != nil {
		calls = m.n
	}
	var want []byte
	var wantErr error
	if m == nil && !bad {
		want, wantErr = json.Marshal(data)
		if wantErr != nil {
			harnessError("json data: " + wantErr.Error())
		}
	}
	err := in.Ingest(ctx, b, topic, typ, data, opts...)
	x.Log("[%d] Ingest topic=%q type=%d data=%T marshaler=%s pub=%v bad=%v = %v", who, topic, typ, data, mname(m), b.err, bad, err)
	x.Count("ingest_calls", 1)
	got := b.recs[before:]
	var outs [][]byte
	if m != nil {
		outs = m.outs[calls:]
		for _, v := range m.in[calls:] {
			if !sameData(v, data) {
				x.Fail("D01", "data", "the marshaler was given %T %v, want %T %v", v, v, data, data)
			}
		}
		if len(outs) == 0 {
			x.Fail("D01", "marshaler", "the marshaler in force (%s) was not used", mname(m))
		}
		wantErr = m.fail
		if m.lib != nil {
			_, wantErr = m.lib.Marshal(data)
		}
	}
	failing := wantErr != nil || (m == nil && bad)
	if failing {
		x.Count("marshal_failures", 1)
		if len(got) != 0 {
			x.Fail("D01", "published", "%d messages were published although marshaling failed", len(got))
		}
		if err == nil || (wantErr != nil && !errors.Is(err, wantErr)) {
			x.Fail("D01", "marshal-error", "Ingest = %v, marshaling failed with %v", err, wantErr)
		}
		return
	}
	if len(got) != 1 {
		x.Fail("D01", "count", "Ingest published %d messages", len(got))
	}
	p := got[0]
	if p.topic != topic || p.m.Type != typ {
		x.Fail("D01", "message", "published on %q with type %d, want %q, %d", p.topic, p.m.Type, topic, typ)
	}
	if p.ctx == nil || p.ctx.Value(digKey{}) != who {
		x.Fail("D01", "context", "the message was published with another context")
	}
	if m == nil {
		if !jsonEqual(p.m.Data, want) {
			x.Fail("D01", "payload", "payload %q, want %q", p.m.Data, want)
		}
	} else {
		ok := false
		for _, o := range outs {
			ok = ok || bytes.Equal(o, p.m.Data)
		}
		if !ok {
			x.Fail("D01", "payload", "payload %q is none of what the marshaler in force made: %q", p.m.Data, outs)
		}
	}
	if b.err != nil {
		x.Count("publish_failures", 1)
		if !errors.Is(err, b.err) {
			x.Fail("D01", "publish-error", "Ingest = %v, publishing failed with %v", err, b.err)
		}
	} else if err != nil {
		x.Fail("D01", "error", "Ingest = %v, but its message was published", err)
	}
}

func mname(m *stubMarshaler) string {
	if m == nil {
		return "json"
	}
	return m.name
}

func sameData(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == b
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Func, reflect.Map, reflect.Chan, reflect.Ptr, reflect.Slice:
		return va.Pointer() == vb.Pointer() || (va.Kind() != reflect.Func && reflect.DeepEqual(a, b))
	case reflect.Float64:
		return sameFloat(va.Float(), vb.Float())
	}
	return reflect.DeepEqual(a, b)
}

func ingestScripted(x *Exec) {
	n := 0
	mk := func(g *Exec) func() *stubMarshaler {
		return func() *stubMarshaler {
			n++
			m := &stubMarshaler{name: fmt.Sprintf("m%d", n), odd: g.Chance(0.3)}
			switch g.IntN(5) {
			case 0:
				m.fail = []error{errHandler, io.EOF, broker.ErrTimeout}[g.IntN(3)]
			case 1:
				m.lib, _ = mjson.NewMarshaler()
				m.name += "-lib"
			}
			return m
		}
	}(x)
	type one struct {
		in   *simpleing.Ingester
		ctor *stubMarshaler
	}
	var ins []one
	for k := 1 + x.IntN(2); k > 0; k-- {
		var o one
		var opts []ingester.Option
		if x.Chance(0.5) {
			o.ctor = mk()
			opts = append(opts, ingester.WithMarshaler(o.ctor))
		}
		var err error
		if o.in, err = simpleing.NewIngester(opts...); err != nil || o.in == nil {
			x.Fail("D01", "new", "NewIngester = %v, %v", o.in, err)
		}
		ins = append(ins, o)
	}
	bs := []*recBroker{{}, {}}
	for i, k := 0, 1+x.IntN(8); i < k; i++ {
		o := ins[x.IntN(len(ins))]
		b := x.IntN(2)
		other := len(bs[1-b].recs)
		x.Guard("Ingest", func() { x.ingest(o.in, o.ctor, bs[b], mk, i) })
		if len(bs[1-b].recs) != other {
			x.Fail("D01", "broker", "published on another broker")
		}
		x.NonTrivial()
	}
	x.untouched(bs)
}

// untouched checks that published messages were left alone afterwards.
func (x *Exec) untouched(bs []*recBroker) {
	for _, b := range bs {
		for _, p := range b.recs {
			if !bytes.Equal(p.copy, p.m.Data) {
				x.Fail("D01", "payload", "payload changed after it was published from %q to %q", p.copy, p.m.Data)
			}
		}
		x.Count("messages_published", len(b.recs))
	}
}

// fork returns an execution for use by one goroutine.
func (x *Exec) fork(i int) *Exec {
	return &Exec{Rand: rand.New(rand.NewPCG(x.Seed, uint64(i)+100)), Prop: x.Prop, Part: x.Part, Index: x.Index, Seed: x.Seed, events: map[string]int64{}}
}

// join adds up what the goroutines saw.
func (x *Exec) join(fs []*Exec) {
	for _, f := range fs {
		for k, v := range f.events {
			x.Count(k, int(v))
		}
		x.mu.Lock()
		x.trace = append(x.trace, f.trace...)
		x.sig = mix(x.sig, f.sig)
		if x.bad == nil {
			x.bad = f.bad
		}
		if x.setAside == "" {
			x.setAside = f.setAside
		}
		x.mu.Unlock()
	}
}

// parallel runs f in n goroutines.
func (x *Exec) parallel(n int, f func(i int, x *Exec)) {
	var wg sync.WaitGroup
	begin := make(chan struct{})
	fs := make([]*Exec, n)
	for i := range fs {
		fs[i] = x.fork(i)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-begin
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(abort); !ok {
						panic(r)
					}
				}
			}()
			fs[i].Guard("a concurrent call", func() { f(i, fs[i]) })
		}(i)
	}
	close(begin)
	wg.Wait()
	x.join(fs)
}

func ingestConcurrent(x *Exec) {
	var ctor *stubMarshaler
	var opts []ingester.Option
	lib, _ := mjson.NewMarshaler()
	withLib := x.Chance(0.5)
	if withLib {
		opts = append(opts, ingester.WithMarshaler(lib))
	}
	in, err := simpleing.NewIngester(opts...)
	if err != nil {
		x.Fail("D01", "new", "NewIngester: %v", err)
	}
	n := 2 + x.IntN(5)
	bs := make([]*recBroker, n)
	for i := range bs {
		bs[i] = &recBroker{}
	}
	x.parallel(n, func(i int, y *Exec) {
		k := 0
		mk := func() *stubMarshaler {
			k++
			m := &stubMarshaler{name: fmt.Sprintf("g%d-m%d", i, k)}
			if y.Chance(0.2) {
				m.fail = errHandler
			}
			return m
		}
		for j := 0; j < 5; j++ {
			if withLib {
				// the marshaler of the ingester is shared, so it keeps no log
				e := y.Entity(fmt.Sprintf("g%d-%d", i, j), y.Str(), y.AttrMap())
				want, werr := lib.Marshal(e)
				before := len(bs[i].recs)
				bs[i].err = nil
				err := in.Ingest(bg, bs[i], "t", broker.Type(j), e)
				if werr != nil || err != nil || len(bs[i].recs) != before+1 {
					y.Fail("D01", "count", "Ingest = %v (marshal: %v), %d messages", err, werr, len(bs[i].recs)-before)
				}
				p := bs[i].recs[before]
				if !jsonEqual(p.m.Data, want) || p.m.Type != broker.Type(j) {
					y.Fail("D01", "payload", "type %d payload %q, want %d %q", p.m.Type, p.m.Data, j, want)
				}
				y.Count("ingest_calls", 1)
				continue
			}
			y.ingest(in, ctor, bs[i], mk, i*100+j)
		}
	})
	x.NonTrivial()
	x.untouched(bs)
}

// ingestReal ingests to the in-memory broker.
func ingestReal(x *Exec) {
	cap := x.IntN(4)
	b, err := membroker.New(broker.WithCap(cap))
	if err != nil {
		x.Fail("D01", "new", "New: %v", err)
	}
	x.Cleanup(func() { _ = b.Close() })
	in, err := simpleing.NewIngester()
	if err != nil {
		x.Fail("D01", "new", "NewIngester: %v", err)
	}
	type call struct {
		topic   string
		typ     broker.Type
		data    interface{}
		cancel  context.CancelFunc
		pressed bool
		done    bool
		err     error
		t0, t1  time.Time
	}
	ts := x.Pool("t", 1+x.IntN(2))
	queued := map[string][]*call{}
	start := func(open bool) *call {
		c := &call{topic: ts[x.IntN(len(ts))], typ: broker.Type(x.IntN(6)), data: x.jsonData(2), t0: time.Now()}
		var ctx context.Context
		ctx, c.cancel = context.WithCancel(bg)
		x.Cleanup(c.cancel)
		go x.Guard("Ingest", func() {
			err := in.Ingest(ctx, b, c.topic, c.typ, c.data)
			c.err, c.t1, c.done = err, time.Now(), true
		})
		synctest.Wait()
		x.Log("Ingest %q type=%d %T done=%v err=%v", c.topic, c.typ, c.data, c.done, c.err)
		x.Count("ingest_calls", 1)
		return c
	}
	if c := start(false); !c.done || !errors.Is(c.err, broker.ErrNotConnected) {
		x.Fail("D01", "publish-error", "Ingest without a session: returned=%v %v, want %v", c.done, c.err, broker.ErrNotConnected)
	}
	if err := b.Open(bg); err != nil {
		x.Fail("D01 B05", "error", "Open: %v", err)
	}
	synctest.Wait()
	var blocked []*call
	for i, k := 0, 3+x.IntN(10); i < k; i++ {
		switch x.IntN(4) {
		case 0, 1:
			c := start(true)
			if c.done != (len(queued[c.topic]) < cap) {
				x.Fail("D01 B03", "blocked", "Ingest returned=%v (%v) with %d of %d messages waiting", c.done, c.err, len(queued[c.topic]), cap)
			}
			if c.done {
				if c.err != nil {
					x.Fail("D01", "error", "Ingest = %v", c.err)
				}
				queued[c.topic] = append(queued[c.topic], c)
			} else {
				blocked = append(blocked, c)
			}
		case 2:
			if len(blocked) > 0 {
				c := blocked[x.IntN(len(blocked))]
				if !c.done {
					c.pressed = true
					c.cancel()
					synctest.Wait()
					x.Log("cancelled: done=%v err=%v", c.done, c.err)
					if !c.done || c.err == nil {
						x.Fail("D01 B06", "cancel", "Ingest cancelled while blocked: returned=%v %v", c.done, c.err)
					}
					x.Count("publish_failures", 1)
				}
			}
		case 3:
			time.Sleep(time.Duration(1+x.IntN(3000)) * time.Millisecond)
			synctest.Wait()
		}
		for _, c := range blocked {
			if c.done && !c.pressed {
				if !errors.Is(c.err, broker.ErrTimeout) {
					x.Fail("D01", "publish-error", "blocked Ingest = %v, want %v", c.err, broker.ErrTimeout)
				}
				c.pressed = true
				x.Count("publish_failures", 1)
			}
		}
	}
	time.Sleep(time.Hour)
	for t, cs := range queued {
		s, err := b.Sub(bg, t)
		if err != nil {
			x.Fail("D01 B05", "error", "Sub: %v", err)
		}
		for _, c := range cs {
			var got *broker.Message
			err := s.Receive(bg, func(_ context.Context, m broker.Message) error { got = &m; return nil })
			if err != nil || got == nil {
				x.Fail("D01", "lost", "Receive = %v, want the message of type %d", err, c.typ)
			}
			want, _ := json.Marshal(c.data)
			if got.Type != c.typ || !jsonEqual(got.Data, want) {
				x.Fail("D01", "message", "received type %d %q, want %d %q", got.Type, got.Data, c.typ, want)
			}
			x.Count("messages_published", 1)
		}
		if err := s.Receive(bg, func(_ context.Context, m broker.Message) error { return nil }); !errors.Is(err, broker.ErrTimeout) {
			x.Fail("D01", "count", "a message too many on %q (%v)", t, err)
		}
	}
	x.NonTrivial()
}

// ------------------------------------------------------------------- digesting

type step struct {
	m   *broker.Message
	err error // returned without a message
}

// fakeSub is a subscription that follows a script.
type fakeSub struct {
	x     *Exec
	steps []step
	pos   int
	who   int
	hRet  []error
	over  bool
	ended bool // Receive has failed
}

func (s *fakeSub) ID(context.Context) (string, error)                      { return "fake", nil }
func (s *fakeSub) Topic(context.Context, ...broker.Option) (string, error) { return "fake", nil }
func (s *fakeSub) Unsubscribe(context.Context, ...broker.Option) error     { return nil }

func (s *fakeSub) Receive(ctx context.Context, h broker.Handler, _ ...broker.Option) error {
	s.x.Count("receives", 1)
	if s.ended {
		s.x.Fail("D02", "go-on", "Digest received again after an error")
	}
	if ctx == nil || ctx.Value(digKey{}) != s.who {
		s.x.Fail("D02", "context", "Receive was called with another context")
	}
	if s.pos >= len(s.steps) {
		s.ended = true
		return errScript
	}
	st := s.steps[s.pos]
	s.pos++
	if st.m == nil {
		s.ended = st.err != nil
		return st.err
	}
	m := *st.m
	m.Data = bytes.Clone(m.Data)
	err := h(ctx, m)
	s.hRet = append(s.hRet, err)
	s.ended = err != nil
	return err
}

var errScript = errors.New("script over")

var someErrors = []error{errHandler, io.EOF, context.Canceled, context.DeadlineExceeded, broker.ErrTimeout, broker.ErrSubscriptionInactive,
	broker.ErrNotConnected, broker.ErrNotImplemented, io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", broker.ErrTimeout)}

// digestFake runs scripted digests through one digester, one after another.
func digestFake(x *Exec) {
	type seen struct {
		h int
		m broker.Message
	}
	var log []seen
	var failAt int
	var failErr error
	handler := func(i int) broker.Handler {
		return func(ctx context.Context, m broker.Message) error {
			log = append(log, seen{i, m})
			if len(log)-1 == failAt {
				return failErr
			}
			return nil
		}
	}
	var opts []digester.Option
	ctor := -1
	if x.Chance(0.6) {
		ctor = 0
		opts = append(opts, digester.WithHandler(handler(0)))
	}
	if x.Chance(0.2) {
		opts = append(opts, digester.WithMarshaler(x.marshaler()))
		shuffle(x, opts)
	}
	d, err := simpledig.NewDigester(opts...)
	if err != nil || d == nil {
		x.Fail("D02", "new", "NewDigester = %v, %v", d, err)
	}
	for run, runs := 0, 1+x.IntN(4); run < runs; run++ {
		log = nil
		want := ctor
		var per []digester.Option
		if x.Chance(0.4) {
			for k := x.Pick(5, 1); k >= 0; k-- {
				want = 1 + x.IntN(100)
				per = append(per, digester.WithHandler(handler(want)))
			}
		}
		s := &fakeSub{x: x, who: run}
		n := x.IntN(12)
		if x.Big {
			n = 2000
		}
		var msgs []broker.Message
		var end error = errScript
		failAt, failErr = -1, nil
		if x.Chance(0.4) {
			failAt = x.IntN(n + 1)
			failErr = someErrors[x.IntN(len(someErrors))]
		}
		for i := 0; i < n; i++ {
			switch x.Pick(12, 2, 1) {
			case 0:
				m := x.newMsg(i)
				if x.Chance(0.2) {
					m = broker.Message{}
				}
				s.steps = append(s.steps, step{m: &m})
			case 1:
				s.steps = append(s.steps, step{})
			case 2:
				if x.Chance(0.3) {
					s.steps = append(s.steps, step{err: someErrors[x.IntN(len(someErrors))]})
				}
			}
		}
		k := 0
		for _, st := range s.steps {
			if st.m == nil {
				if st.err != nil {
					end = st.err
					break
				}
				continue
			}
			msgs = append(msgs, *st.m)
			if k == failAt && want >= 0 {
				end = failErr
				break
			}
			k++
		}
		ctx := context.WithValue(bg, digKey{}, run)
		var out string
		if want < 0 {
			out = x.captureStdout(func() { err = d.Digest(ctx, s, per...) })
		} else {
			err = d.Digest(ctx, s, per...)
		}
		x.Log("Digest %d: %d steps, handler %d (constructor %d) fails at %d: %d messages, %v", run, len(s.steps), want, ctor, failAt, len(log), err)
		x.Count("digests", 1)
		if err == nil || !errors.Is(err, end) {
			x.Fail("D02", "error", "Digest = %v, want %v", err, end)
		}
		if want < 0 {
			var sb strings.Builder
			for _, m := range msgs {
				sb.Write(m.Data)
			}
			if len(log) > 0 {
				x.Fail("D02", "handler", "handler %d was used, want the default", log[0].h)
			}
			if out != sb.String() {
				x.Fail("D02", "default", "standard output got %.300q, want %.300q", out, sb.String())
			}
			x.Count("messages_dumped", len(msgs))
			x.NonTrivial()
			continue
		}
		if len(log) != len(msgs) {
			x.Fail("D02", "count", "handler was given %d messages, want %d", len(log), len(msgs))
		}
		for i, l := range log {
			if l.h != want {
				x.Fail("D02", "handler", "message %d was given to handler %d, want %d", i, l.h, want)
			}
			if !sameMsg(l.m, msgs[i]) {
				x.Fail("D02", "message", "message %d is %s, want %s", i, showMsg(l.m), showMsg(msgs[i]))
			}
		}
		x.Count("messages_handled", len(log))
		if len(msgs) > 0 {
			x.NonTrivial()
		}
	}
}

// captureStdout returns what is written to standard output while f runs.
func (x *Exec) captureStdout(f func()) string {
	t, err := os.CreateTemp(".", "stdout")
	if err != nil {
		harnessError("stdout: " + err.Error())
	}
	defer t.Close()
	defer os.Remove(t.Name())
	x.redirect(int(t.Fd()), f)
	b, err := os.ReadFile(t.Name())
	if err != nil {
		harnessError("stdout: " + err.Error())
	}
	return string(b)
}

func (x *Exec) redirect(fd int, f func()) {
	saved, err := syscall.Dup(1)
	if err == nil {
		err = syscall.Dup3(fd, 1, 0)
	}
	if err != nil {
		harnessError("stdout: " + err.Error())
	}
	defer func() {
		if err := syscall.Dup3(saved, 1, 0); err != nil {
			harnessError("stdout: " + err.Error())
		}
		syscall.Close(saved)
	}()
	f()
}

// digestDefault checks the default handler against payloads of all kinds and a full device.
func digestDefault(x *Exec) {
	d, err := simpledig.NewDigester()
	if err != nil {
		x.Fail("D02", "new", "NewDigester: %v", err)
	}
	s := &fakeSub{x: x, who: 1}
	var want []byte
	for i, n := 0, 1+x.IntN(5); i < n; i++ {
		m := broker.Message{Data: []byte(x.Str())}
		switch x.IntN(4) {
		case 0:
			m.Data = nil
		case 1:
			m.Data = make([]byte, x.IntN(200))
			for j := range m.Data {
				m.Data[j] = byte(x.IntN(256))
			}
		case 2:
			if x.Big {
				m.Data = bytes.Repeat([]byte("0123456789abcdef"), 1<<16+x.IntN(1000))
			}
		}
		want = append(want, m.Data...)
		s.steps = append(s.steps, step{m: &m})
	}
	ctx := context.WithValue(bg, digKey{}, 1)
	if x.Chance(0.3) && len(want) > 0 {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			x.NonTrivial()
			return
		}
		defer f.Close()
		x.redirect(int(f.Fd()), func() { err = d.Digest(ctx, s) })
		x.Log("full device: %d bytes, Digest = %v", len(want), err)
		x.Count("full_device", 1)
		if err == nil || errors.Is(err, errScript) {
			x.Fail("D02", "default-error", "Digest = %v although standard output is full", err)
		}
		x.NonTrivial()
		return
	}
	out := x.captureStdout(func() { err = d.Digest(ctx, s) })
	x.Log("%d messages, %d bytes, Digest = %v", len(s.steps), len(want), err)
	if out != string(want) {
		x.Fail("D02", "default", "standard output got %d bytes %.200q, want %d bytes %.200q", len(out), out, len(want), want)
	}
	if !errors.Is(err, errScript) {
		x.Fail("D02", "error", "Digest = %v, want %v", err, errScript)
	}
	x.Count("messages_dumped", len(s.steps))
	x.NonTrivial()
}

type dRun struct {
	n       int
	topic   string
	s       broker.Subscriber
	cancel  context.CancelFunc
	t0      time.Time
	last    time.Time // when it was last idle from
	stopped string    // what was done to stop it
	failing int       // fails on this one, -1 never
	got     []int
	done    bool
	err     error
	t1      time.Time
	hErr    error
	wait    chan struct{} // handler blocks
	heeds   bool          // handler blocks until its context ends
	inH     bool
}

// digestReal runs digests against the in-memory broker, one action at a time.
func digestReal(x *Exec) {
	b, cap, _, st := x.newBroker([]int{0, 1, 3, 100})
	if err := b.Open(bg); err != nil {
		x.Fail("D02 B05", "error", "Open: %v", err)
	}
	synctest.Wait()
	d, err := simpledig.NewDigester()
	if err != nil {
		x.Fail("D02", "new", "NewDigester: %v", err)
	}
	var mu sync.Mutex
	ts := x.Pool("t", 1+x.IntN(2))
	var runs []*dRun
	accepted := map[string][]int{}
	where := map[int]*dRun{}
	open := true
	n := 0
	settle := func() {
		synctest.Wait()
		if x.Failed() {
			panic(abort{})
		}
		mu.Lock()
		defer mu.Unlock()
		idle := map[string]bool{}
		for _, r := range runs {
			if !r.done && !r.inH {
				idle[r.topic] = true
			}
		}
		for t, ns := range accepted {
			waiting := 0
			for _, k := range ns {
				if where[k] == nil {
					waiting++
				}
			}
			if waiting > 0 && idle[t] && open {
				x.Fail("D02", "waiting", "%d messages are waiting in %q although a digest is idle", waiting, t)
			}
		}
		for _, r := range runs {
			x.Count("digest_states_judged", 1)
			failed := r.failing >= 0 && len(r.got) > r.failing && !r.inH
			expired := time.Since(r.last) >= st && !r.inH
			switch {
			case r.done && r.stopped == "" && !failed:
				if errors.Is(r.err, broker.ErrTimeout) && r.t1.Sub(r.last) >= st {
					r.stopped = "timeout"
				} else {
					x.Fail("D02", "stopped", "digest %d returned %v after %v without a reason", r.n, r.err, r.t1.Sub(r.t0))
				}
			case r.inH && r.heeds && r.stopped == "its context was cancelled":
				x.Fail("D02", "context", "the context of digest %d was cancelled, that of its handler was not", r.n)
			case !r.done && r.stopped != "" && !r.inH:
				x.Fail("D02", "blocked", "digest %d goes on after %s", r.n, r.stopped)
			case !r.done && failed:
				x.Fail("D02", "go-on", "digest %d goes on after its handler failed", r.n)
			case !r.done && expired && time.Since(r.last) > st+tolerance(st):
				x.Fail("D02", "go-on", "digest %d is idle for %v, the receive timeout is %v", r.n, time.Since(r.last), st)
			case r.done && failed && r.stopped == "":
				if !errors.Is(r.err, r.hErr) {
					x.Fail("D02", "error", "digest %d returned %v, its handler failed with %v", r.n, r.err, r.hErr)
				}
				r.stopped = "handler"
			}
		}
	}
	steps := x.More(6 + x.IntN(30))
	for i := 0; i < steps; i++ {
		switch x.Pick(6, 10, 2, 2, 4, 1, 2) {
		case 0:
			if len(runs) > 6 || !open {
				continue
			}
			r := &dRun{n: len(runs), topic: ts[x.IntN(len(ts))], failing: -1, t0: time.Now(), last: time.Now()}
			if x.Chance(0.3) {
				r.failing = x.IntN(4)
				r.hErr = []error{errHandler, io.EOF, broker.ErrTimeout}[x.IntN(3)]
			}
			blocking := x.Chance(0.2)
			if blocking {
				r.wait, r.heeds = make(chan struct{}), x.Chance(0.5)
				w := r.wait
				x.Cleanup(func() {
					select {
					case <-w:
					default:
						close(w)
					}
				})
			}
			s, err := b.Sub(bg, r.topic)
			if err != nil {
				x.Fail("D02 B05", "error", "Sub: %v", err)
			}
			r.s = s
			var ctx context.Context
			ctx, r.cancel = context.WithCancel(bg)
			x.Cleanup(func() {
				mu.Lock()
				if r.stopped == "" {
					r.stopped = "the end of the workload"
				}
				mu.Unlock()
				r.cancel()
			})
			runs = append(runs, r)
			x.Log("digest %d of %q fails at %d blocking=%v", r.n, r.topic, r.failing, blocking)
			h := func(hctx context.Context, m broker.Message) error {
				mu.Lock()
				k := msgNo(m)
				if r.stopped != "" {
					x.Report("D02", "go-on", "digest %d handled message %d after %s", r.n, k, r.stopped)
				}
				if where[k] != nil {
					x.Report("D02 B01", "twice", "message %d handled twice", k)
				}
				if len(r.got) > 0 && r.got[len(r.got)-1] >= k {
					x.Report("D02 B02", "order", "digest %d handled %d after %d", r.n, k, r.got[len(r.got)-1])
				}
				where[k] = r
				r.got = append(r.got, k)
				r.inH = true
				mine := len(r.got) - 1
				w := r.wait
				mu.Unlock()
				if w != nil {
					if r.heeds {
						select {
						case <-w:
						case <-hctx.Done():
							mu.Lock()
							r.inH = false
							early := r.stopped == ""
							mu.Unlock()
							if early {
								x.Report("D02", "context", "the context of a handler of digest %d ended although that of the digest did not", r.n)
							}
							return hctx.Err()
						}
					} else {
						<-w
					}
				}
				mu.Lock()
				r.inH = false
				r.last = time.Now()
				mu.Unlock()
				if mine == r.failing {
					return r.hErr
				}
				return nil
			}
			go x.Guard("Digest", func() {
				err := d.Digest(ctx, s, digester.WithHandler(h))
				mu.Lock()
				r.done, r.err, r.t1 = true, err, time.Now()
				mu.Unlock()
			})
		case 1:
			if !open {
				continue
			}
			t := ts[x.IntN(len(ts))]
			waiting := 0
			for _, k := range accepted[t] {
				if where[k] == nil {
					waiting++
				}
			}
			idle := false
			for _, r := range runs {
				idle = idle || (r.topic == t && !r.done && !r.inH)
			}
			if waiting >= cap && !idle {
				continue // would block
			}
			n++
			err := b.Pub(bg, t, broker.Message{UID: fmt.Sprintf("%s%d", tok, n), Data: []byte(x.Str())})
			x.Log("Pub %d on %q = %v", n, t, err)
			if err != nil {
				x.Fail("D02 B01", "error", "Pub = %v", err)
			}
			accepted[t] = append(accepted[t], n)
			x.Count("messages_published", 1)
		case 2, 3:
			var c []*dRun
			for _, r := range runs {
				if !r.done && r.stopped == "" {
					c = append(c, r)
				}
			}
			if len(c) == 0 {
				continue
			}
			r := c[x.IntN(len(c))]
			mu.Lock()
			inH := r.inH
			mu.Unlock()
			if x.Chance(0.5) {
				// a digest whose handler is at work may still take a message that waits
				if inH && !r.heeds {
					continue
				}
				r.stopped = "its context was cancelled"
				r.cancel()
			} else {
				r.stopped = "the end of its subscription"
				if err := r.s.Unsubscribe(bg); err != nil {
					x.Fail("D02 B04", "error", "Unsubscribe: %v", err)
				}
			}
			x.Log("digest %d: %s", r.n, r.stopped)
			x.Count("stops", 1)
		case 4:
			dur := 1 + time.Duration(x.Int64N(1+int64(st)/2)) + time.Duration(x.IntN(1000))
			x.Log("advance %v", dur)
			time.Sleep(dur)
		case 5:
			if x.Chance(0.5) || !open {
				continue
			}
			x.Log("Close")
			for _, r := range runs {
				if !r.done && r.stopped == "" {
					r.stopped = "the end of the session"
					x.Count("stops", 1)
				}
			}
			open = false
			if err := b.Close(); err != nil {
				x.Fail("D02 B05", "error", "Close: %v", err)
			}
		case 6:
			var c []*dRun
			mu.Lock()
			for _, r := range runs {
				if r.inH && r.wait != nil {
					c = append(c, r)
				}
			}
			mu.Unlock()
			if len(c) > 0 {
				r := c[x.IntN(len(c))]
				x.Log("handler of %d goes on", r.n)
				mu.Lock()
				w := r.wait
				if x.Chance(0.5) {
					r.wait = make(chan struct{})
					w2 := r.wait
					x.Cleanup(func() {
						select {
						case <-w2:
						default:
							close(w2)
						}
					})
				} else {
					r.wait = nil
				}
				mu.Unlock()
				close(w)
			}
		}
		settle()
	}
	x.Count("messages_handled", len(where))
	if len(where) > 0 {
		x.NonTrivial()
	}
}

// digestRace runs many digests through one digester at once.
func digestRace(x *Exec) {
	b, err := membroker.New(broker.WithCap(5))
	if err != nil {
		x.Fail("D02", "new", "New: %v", err)
	}
	x.Cleanup(func() { _ = b.Close() })
	if err := b.Open(bg); err != nil {
		x.Fail("D02 B05", "error", "Open: %v", err)
	}
	var opts []digester.Option
	if x.Chance(0.5) {
		opts = append(opts, digester.WithHandler(func(context.Context, broker.Message) error {
			x.Report("D02", "handler", "the handler of the digester was used, want that of the call")
			return nil
		}))
	}
	d, err := simpledig.NewDigester(opts...)
	if err != nil {
		x.Fail("D02", "new", "NewDigester: %v", err)
	}
	n := 2 + x.IntN(4)
	count := 5 + x.IntN(20)
	x.parallel(2*n, func(i int, y *Exec) {
		topic := fmt.Sprintf("t%d", i/2)
		if i%2 == 0 {
			for k := 0; k < count; k++ {
				if err := b.Pub(bg, topic, broker.Message{UID: fmt.Sprintf("%s%d", tok, k), Type: broker.Type(i)}, broker.WithPubTimeout(time.Minute)); err != nil {
					y.Fail("D02 B01", "error", "Pub = %v", err)
				}
			}
			return
		}
		s, err := b.Sub(bg, topic)
		if err != nil {
			y.Fail("D02 B05", "error", "Sub = %v", err)
		}
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		next := 0
		how := y.IntN(3)
		err = d.Digest(ctx, s, digester.WithHandler(func(_ context.Context, m broker.Message) error {
			if k := msgNo(m); k != next || m.Type != broker.Type(i-1) {
				y.Report("D02", "order", "digest %d handled message %d of %d, want %d", i, k, int(m.Type), next)
			}
			next++
			if next == count {
				switch how {
				case 0:
					cancel()
				case 1:
					return io.EOF
				case 2:
					_ = s.Unsubscribe(bg)
				}
			}
			return nil
		}))
		if next != count {
			y.Fail("D02", "count", "digest %d handled %d of %d messages, returned %v", i, next, count, err)
		}
		if how == 1 && !errors.Is(err, io.EOF) {
			y.Fail("D02", "error", "Digest = %v, want %v", err, io.EOF)
		}
		y.Count("messages_handled", next)
	})
	x.Log("%d digests of %d messages", n, count)
	x.NonTrivial()
}

func init() {
	register("D01",
		&Part{Name: "scripted", Engine: Sim, Quick: 16000, Thorough: 400000, Rule: "1 to 8 ingest calls through 1 or 2 ingesters with every marshaler configuration, failing marshalers and failing brokers; every execution is non-trivial", Run: ingestScripted},
		&Part{Name: "real-broker", Engine: Sim, Quick: 8000, Thorough: 200000, Rule: "ingest calls that block, time out, are cancelled on the in-memory broker; everything accepted is received and compared; every execution is non-trivial", Run: ingestReal},
		&Part{Name: "concurrent", Engine: Sim, Perturb: true, Quick: 3000, Thorough: 100000, Rule: "2 to 6 goroutines ingest through one ingester; every execution is non-trivial", Run: ingestConcurrent},
		&Part{Name: "race", Engine: Race, Quick: 3000, Thorough: 60000, Rule: "2 to 6 goroutines ingest through one ingester under the race detector; every execution is non-trivial", Run: ingestConcurrent},
	)
	register("D02",
		&Part{Name: "scripted", Engine: Sim, Quick: 16000, Thorough: 400000, Rule: "1 to 4 digests through one digester of a subscription that follows a script of messages, empty receives and errors, with handlers of the call, of the digester or the default; non-trivial: messages were received", Run: digestFake},
		&Part{Name: "default-handler", Engine: Sim, NoBubble: true, Quick: 4000, Thorough: 60000, Rule: "payloads of all kinds written to a redirected standard output, and to a full device; every execution is non-trivial", Run: digestDefault},
		&Part{Name: "real-broker", Engine: Sim, Quick: 16000, Thorough: 400000, Rule: "digests on the in-memory broker, one action at a time (publish, cancel, unsubscribe, close, advance time, let a handler go on) with the bubble at rest after each; non-trivial: messages were handled", Run: digestReal},
		&Part{Name: "race", Engine: Race, Quick: 1500, Thorough: 40000, Rule: "2 to 5 digests of their own topics through one digester at once under the race detector; every execution is non-trivial", Run: digestRace},
	)
}
