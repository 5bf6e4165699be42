package worker

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/milosgajdos/netscrape"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	simpledig "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	simpleing "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"gonum.org/v1/gonum/graph/encoding"
)

// Thousands of ingests, digested messages and runs, and as many lists and maps with thousands of elements.

func scaleIngest(x *Exec) {
	in, err := simpleing.NewIngester()
	if err != nil {
		x.Fail("D01", "new", "NewIngester: %v", err)
	}
	if x.Chance(0.5) {
		// many one after another
		n := x.scale(4000)
		b := &recBroker{}
		x.Log("%d ingests", n)
		for i := 0; i < n; i++ {
			data := interface{}(map[string]int{"n": i})
			var opts []ingester.Option
			tag := ""
			switch {
			case x.Chance(0.1):
				tag = fmt.Sprint("tag", i)
				opts = append(opts, ingester.WithMarshaler(&tagMarshaler{tag}))
			case x.Chance(0.05):
				data = x.jsonData(3)
			case x.Chance(0.003):
				s := make([]byte, x.scale(3<<20))
				fill(s, x.Uint64())
				data = s // marshaled in base 64
			case x.Chance(0.02):
				if err := in.Ingest(bg, b, "t", 0, make(chan int)); err == nil || len(b.recs) != i {
					x.Fail("D01", "unmarshalable", "Ingest of a channel = %v, %d messages published, want %d", err, len(b.recs), i)
				}
			}
			topic, typ := fmt.Sprint("t", i%7), broker.Type(i%5)
			if err := in.Ingest(bg, b, topic, typ, data, opts...); err != nil || len(b.recs) != i+1 {
				x.Fail("D01", "error", "Ingest %d = %v, %d messages published", i, err, len(b.recs))
			}
			want := []byte(tag)
			if tag == "" {
				want, _ = json.Marshal(data)
			}
			r := b.recs[i]
			if r.topic != topic || r.m.Type != typ || string(r.m.Data) != string(want) && (tag != "" || !jsonEqual(r.m.Data, want)) {
				x.Fail("D01", "message", "ingest %d published %s on %q, want type %d on %q with %d bytes of data", i, showMsg(r.m), r.topic, typ, topic, len(want))
			}
		}
		x.untouched([]*recBroker{b})
		x.Count("ingest_calls", n)
		x.NonTrivial()
		return
	}
	// many blocked at once
	n := x.scale(1000)
	b := openBroker(x, broker.WithCap(0))
	x.Log("%d blocked ingests", n)
	errs := make([]error, n)
	done := make([]bool, n)
	cancels := make([]context.CancelFunc, n)
	pb := patientBroker{b}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		var ctx context.Context
		ctx, cancels[i] = context.WithCancel(bg)
		defer cancels[i]()
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.Guard("Ingest", func() {
				errs[i] = in.Ingest(ctx, pb, "t", broker.Type(i%5), i)
				done[i] = true
			})
		}()
	}
	time.Sleep(scaleSettle)
	gone := map[int]bool{}
	for i := range done {
		if done[i] {
			x.Fail("D01", "blocked", "one of %d ingests, number %d, returned %v though nobody receives", n, i, errs[i])
		}
		if x.Chance(0.3) {
			gone[i] = true
			cancels[i]()
		}
	}
	time.Sleep(scaleSettle)
	s := x.mustSub(b, "t")
	got := map[int]bool{}
	for k := len(gone); k < n; k++ {
		err := s.Receive(bg, func(_ context.Context, m broker.Message) error {
			var i int
			if err := json.Unmarshal(m.Data, &i); err != nil || i < 0 || i >= n || gone[i] || got[i] || m.Type != broker.Type(i%5) {
				x.Fail("D01", "message", "received %s, which was cancelled, altered or received before", showMsg(m))
			}
			got[i] = true
			return nil
		}, broker.WithSubTimeout(time.Minute))
		if err != nil {
			x.Fail("D01", "lost", "Receive = %v after %d of %d", err, len(got), n-len(gone))
		}
	}
	time.Sleep(scaleSettle)
	for i := range done {
		if !done[i] || gone[i] != (errs[i] != nil) || gone[i] && !errors.Is(errs[i], context.Canceled) {
			x.Fail("D01", "publish-error", "one of %d ingests, number %d: returned=%v %v, cancelled=%v", n, i, done[i], errs[i], gone[i])
		}
	}
	wg.Wait()
	x.Count("ingest_calls", n)
	x.NonTrivial()
}

// patientBroker publishes with a long timeout.
type patientBroker struct{ broker.Broker }

func (b patientBroker) Pub(ctx context.Context, topic string, m broker.Message, opts ...broker.Option) error {
	return b.Broker.Pub(ctx, topic, m, append(opts, broker.WithPubTimeout(time.Hour))...)
}

func scaleDigest(x *Exec) {
	d, err := simpledig.NewDigester()
	if err != nil {
		x.Fail("D02", "new", "NewDigester: %v", err)
	}
	if x.Chance(0.4) {
		// many messages
		n := x.scale(80000)
		s := &fakeSub{x: x, who: 7}
		var want []int
		fail := -1
		if x.Chance(0.4) {
			fail = n - 1 - x.IntN(3)
		}
		ms := make([]broker.Message, n)
		for i := 0; i < n; i++ {
			if x.Chance(0.02) {
				s.steps = append(s.steps, step{})
				continue
			}
			ms[i] = broker.Message{UID: fmt.Sprint(tok, i), Data: []byte{byte(i), byte(i >> 8)}}
			if x.Chance(0.0005) {
				ms[i].Data = make([]byte, x.scale(2<<20))
				fill(ms[i].Data, x.Uint64())
			}
			s.steps = append(s.steps, step{m: &ms[i]})
			if fail < 0 || len(want) <= fail {
				want = append(want, i)
			}
		}
		x.Log("%d messages, the handler fails at %d", len(want), fail)
		k := 0
		err := d.Digest(context.WithValue(bg, digKey{}, 7), s, digester.WithHandler(func(_ context.Context, m broker.Message) error {
			if k >= len(want) || !sameMsg(m, ms[want[k]]) {
				x.Fail("D02", "order", "the handler got %s as message %d of %d", showMsg(m), k, len(want))
			}
			k++
			if k == fail+1 {
				return errHandler
			}
			return nil
		}))
		exp := errScript
		if fail >= 0 && len(want) > fail {
			exp = errHandler
		}
		if !errors.Is(err, exp) || k != len(want) {
			x.Fail("D02", "stopped", "Digest returned %v after %d of %d messages, want %v", err, k, len(want), exp)
		}
		x.Count("messages_handled", k)
		x.NonTrivial()
		return
	}
	// many digests
	n := x.scale(1000)
	b := openBroker(x, broker.WithCap(5), broker.WithSubTimeout(time.Hour))
	x.Log("%d digests at once", n)
	type dig struct {
		s      broker.Subscriber
		topic  string
		cancel context.CancelFunc
		got    []int
		sent   []int
		end    bool
		err    error
		want   error
		fail   bool
	}
	ds := make([]*dig, n)
	var wg sync.WaitGroup
	for i := range ds {
		g := &dig{topic: fmt.Sprint("t", i)}
		ds[i] = g
		g.s = x.mustSub(b, g.topic)
		var ctx context.Context
		ctx, g.cancel = context.WithCancel(bg)
		defer g.cancel()
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.Guard("Digest", func() {
				g.err = d.Digest(ctx, g.s, digester.WithHandler(func(_ context.Context, m broker.Message) error {
					g.got = append(g.got, msgNo(m))
					if g.fail {
						return errHandler
					}
					return nil
				}))
				g.end = true
			})
		}()
	}
	no := 0
	stopped := errors.New("any")
	for round := 3; round > 0; round-- {
		time.Sleep(scaleSettle)
		for i, g := range ds {
			if g.end != (g.want != nil) || g.end && (g.err == nil || g.want != stopped && !errors.Is(g.err, g.want)) {
				x.Fail("D02", "stopped", "one of %d digests, number %d: over=%v with %v, want %v", n, i, g.end, g.err, g.want)
			}
			if fmt.Sprint(g.got) != fmt.Sprint(g.sent) {
				x.Fail("D02", "order", "one of %d digests, number %d, handled messages %v, want %v", n, i, g.got, g.sent)
			}
			if g.end {
				continue
			}
			switch x.IntN(12) {
			case 0:
				g.cancel()
				g.want = context.Canceled
			case 1:
				if err := g.s.Unsubscribe(bg); err != nil {
					x.Fail("B04", "error", "Unsubscribe = %v", err)
				}
				g.want = stopped
			case 2:
				g.fail, g.want = true, errHandler
				no++
				g.sent = append(g.sent, no)
				x.mustPub(b, g.topic, x.newMsg(no))
			default:
				for k := x.IntN(4); k > 0; k-- {
					no++
					g.sent = append(g.sent, no)
					x.mustPub(b, g.topic, x.newMsg(no))
				}
			}
		}
	}
	time.Sleep(scaleSettle)
	_ = b.Close()
	time.Sleep(scaleSettle)
	for i, g := range ds {
		if !g.end || g.err == nil || fmt.Sprint(g.got) != fmt.Sprint(g.sent) {
			x.Fail("D02", "close", "one of %d digests, number %d, after Close: over=%v with %v, handled messages %v, want %v", n, i, g.end, g.err, g.got, g.sent)
		}
	}
	wg.Wait()
	x.Count("messages_handled", no)
	x.NonTrivial()
}

func scaleRuns(x *Exec) {
	c := x.runComponents()
	opts, base, d := c.options(x, netscrape.Options{})
	r, err := netscrape.NewRunner(opts...)
	if err != nil {
		x.Fail("R01", "new", "NewRunner: %v", err)
	}
	switch x.IntN(3) {
	case 0:
		n := x.scale(3000)
		x.Log("NewRunner(%s), %d runs", d, n)
		for i := 0; i < n; i++ {
			do, check := x.runOnce(r, c, base)
			do()
			check()
		}
	case 1:
		n := x.scale(400)
		x.Log("NewRunner(%s), %d runs, each out of the scraper of another one", d, n)
		do, check := x.runOnce(r, c, base)
		checks := []func(){check}
		for i := 1; i < n; i++ {
			do, check = x.runWith(r, c, base, do)
			checks = append(checks, check)
		}
		do()
		for _, check := range checks {
			check()
		}
	case 2:
		n := x.scale(1000)
		x.Log("NewRunner(%s), %d runs at once", d, n)
		var in atomic.Int64
		all := make(chan struct{})
		inside := func() {
			if int(in.Add(1)) == n {
				close(all)
			}
			select {
			case <-all:
			case <-time.After(time.Minute):
				x.Report("R01", "waits", "a run waits for another to end: %d of %d concurrent runs have called their scrapers after 60 s", in.Load(), n)
			}
		}
		var wg sync.WaitGroup
		var checks []func()
		for i := 0; i < n; i++ {
			do, check := x.runWith(r, c, base, inside)
			checks = append(checks, check)
			wg.Add(1)
			go func() {
				defer wg.Done()
				x.Guard("Run", do)
			}()
		}
		wg.Wait()
		if x.Failed() {
			panic(abort{})
		}
		for _, check := range checks {
			check()
		}
	}
	x.NonTrivial()
}

// scaleSnapshots: lists with hundreds to thousands of elements are kept, or spoilt by their owners.
func scaleSnapshots(x *Exec) {
	n := x.scale(2000)
	ss, us := x.ids("u", n)
	must := func(err error) {
		if err != nil {
			x.Fail("X01", "setup", "setting up %d things: %v", n, err)
		}
	}
	var shots []shot
	var change func()
	ver := 0
	what := ""
	switch x.IntN(4) {
	case 0:
		what = "nodes"
		g := x.newGraph(x.Chance(0.5))
		hub := x.UID("hub")
		node := func(s string) graph.Node {
			nd, err := g.NewNode(bg, x.Entity(s, "t", map[string]string{}))
			must(err)
			must(g.AddNode(bg, nd))
			return nd
		}
		node("hub")
		for i := range ss {
			node(ss[i])
			_, err := g.Link(bg, hub, us[i])
			must(err)
		}
		ig := g.(iGraph)
		shots = append(shots,
			sliceShot(x, "Nodes", func() ([]graph.Node, error) { return ig.Nodes(bg) }, nodeShow, nil),
			sliceShot(x, "Edges", func() ([]graph.Edge, error) { return ig.Edges(bg) }, edgeShow, nil),
			sliceShot(x, "From", func() ([]graph.Node, error) { return ig.From(bg, hub) }, nodeShow, nil),
			sliceShot(x, "Nodes of a subgraph", func() ([]graph.Node, error) {
				sg, err := g.SubGraph(bg, hub, 1)
				if err != nil {
					return nil, err
				}
				return sg.Nodes(bg)
			}, nodeShow, nil))
		change = func() {
			switch ver++; x.IntN(3) {
			case 0:
				_ = g.RemoveNode(bg, us[x.IntN(n)])
			case 1:
				_ = g.Unlink(bg, hub, us[x.IntN(n)])
			case 2:
				node(fmt.Sprint("new", ver))
			}
		}
	case 1:
		what = "links"
		c, err := memcache.NewLinks()
		must(err)
		hub := x.UID("hub")
		put := func(i int, opts ...cache.Option) {
			ver++
			a, b := hub, us[i]
			if i%2 == 1 {
				a, b = b, a
			}
			l, err := link.New(a, b, link.WithUID(x.UID(fmt.Sprint("L", ver))))
			must(err)
			must(c.Put(bg, l, opts...))
		}
		for i := range us {
			put(i)
		}
		shots = append(shots,
			sliceShot(x, "GetFrom", func() ([]cache.Link, error) { return c.GetFrom(bg, hub) }, linkShow, nil),
			sliceShot(x, "GetTo", func() ([]cache.Link, error) { return c.GetTo(bg, hub) }, linkShow, nil))
		change = func() {
			if x.Chance(0.5) {
				_ = c.Delete(bg, us[x.IntN(n)])
			} else {
				put(x.IntN(n), cache.WithUpsert())
			}
		}
	case 2:
		what = "resources"
		p, err := simple.NewSimple()
		must(err)
		for _, s := range ss {
			must(p.Add(bg, x.planResource(s, "g", "v", "k")))
		}
		shots = append(shots, sliceShot(x, "GetAll", func() ([]plan.Resource, error) { return p.GetAll(bg) }, func(r plan.Resource) string {
			if isNil(r) {
				return "nil"
			}
			return showRes(r)
		}, nil))
		change = func() {
			ver++
			if i := x.IntN(n); x.Chance(0.5) {
				_ = p.Delete(bg, us[i])
			} else {
				_ = p.Add(bg, x.planResource(ss[i], "g", fmt.Sprint("v", ver), "k"))
			}
		}
	case 3:
		what = "attributes"
		m := map[string]string{}
		for i, s := range ss {
			m[s] = fmt.Sprint(i)
		}
		a := memattrs.NewFromMap(m)
		shots = append(shots,
			sliceShot(x, "Keys", func() ([]string, error) { return a.Keys(bg) }, func(s string) string { return s }, "junk"),
			sliceShot(x, "Attributes", func() ([]encoding.Attribute, error) { return a.Attributes(), nil }, encShow, encoding.Attribute{Key: "junk"}))
		change = func() {
			ver++
			_ = a.Set(bg, fmt.Sprint("u", x.IntN(n+5)), fmt.Sprint("new", ver))
		}
	}
	x.Log("%d %s", n, what)
	var held []*snap
	for i := 3 + x.IntN(4); i > 0; i-- {
		s := shots[x.IntN(len(shots))]
		show, spoil := s.query()
		if x.Chance(0.5) {
			held = append(held, &snap{s.what, show, show()})
			for k := x.IntN(1 + n/4); k >= 0; k-- {
				change()
			}
		} else {
			before := make([]string, len(shots))
			for j, t := range shots {
				f, _ := t.query()
				before[j] = f()
			}
			spoil()
			for j, t := range shots {
				if f, _ := t.query(); f() != before[j] {
					x.Fail("X01", "component", "%d %s: %s changed after a result of %s was changed by its owner", n, what, t.what, s.what)
				}
			}
		}
		for _, h := range held {
			if h.show() != h.was {
				x.Fail("X01", "snapshot", "%d %s: the result of %s taken earlier changed", n, what, h.what)
			}
		}
		x.Count("snapshots_compared", len(held))
	}
	x.NonTrivial()
}

func init() {
	register("D01", &Part{Name: "scale", Engine: Sim, Quick: 32, Thorough: 1500, Rule: "up to thousands of ingests through one ingester one after another, payloads of up to some megabytes, or up to a thousand blocked at once, some of them cancelled; every execution is non-trivial", Run: scaleIngest})
	register("D02", &Part{Name: "scale", Engine: Sim, Quick: 40, Thorough: 1500, Rule: "one digest of up to tens of thousands of messages, or up to a thousand digests through one digester at once, some cancelled, unsubscribed or failed by their handlers; every execution is non-trivial", Run: scaleDigest})
	register("R01", &Part{Name: "scale", Engine: Sim, Quick: 40, Thorough: 1500, Rule: "up to thousands of runs of one runner, up to a thousand at once, or hundreds each out of the scraper of another one; every execution is non-trivial", Run: scaleRuns})
	register("X01", &Part{Name: "scale", Engine: Sim, Quick: 40, Thorough: 1500, Rule: "lists with hundreds to thousands of elements kept while their components change, or changed by their owners; every execution is non-trivial", Run: scaleSnapshots})
}
