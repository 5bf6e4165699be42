package worker

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/milosgajdos/netscrape"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	dsimple "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	isimple "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/store"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// Several components at a time, each used by one goroutine: they know nothing of one another. What goes wrong with one of
// them is only blamed on the others if it goes right when that goroutine runs alone, see solo.

// solo is the only goroutine to run, if not negative.
var solo = func() int {
	if n, err := strconv.Atoi(os.Getenv("VH_SOLO")); err == nil {
		return n
	}
	return -1
}()

type instance struct {
	name string
	run  func(x *Exec)
}

var instances = []instance{
	{"broker", brokerAlone},
	{"broker", brokerAlone},
	{"graph", graphSeq([10]int{6, 6, 14, 8, 10, 30, 12, 4, 8, 1}, 4, 30)},
	{"dot", dotSeq},
	{"store", storeSeq([10]int{20, 10, 10, 26, 10, 5, 3, 3, 4, 2})},
	{"cache", cacheSeq([8]int{20, 8, 6, 6, 3, 1, 10, 2})},
	{"plan", planSeq},
	{"attrs", attrSeq},
	{"values", constructors},
	{"marshaler", roundTrips},
	{"documents", anyBytes},
	{"ingester", ingestScripted},
	{"digester", digestAlone},
	{"runner", runnerSeq},
	{"pipe", pipeAlone},
	{"pipe", pipeAlone},
}

// brokerAlone: one goroutine uses a broker.
func brokerAlone(x *Exec) {
	// NOTE: what succeeds does so at once, what fails does so after soon
	soon, never := 3*time.Millisecond, 10*time.Minute
	cap := 1 + x.IntN(4)
	b, err := membroker.New(broker.WithCap(cap), broker.WithPubTimeout(never), broker.WithSubTimeout(never))
	if err != nil {
		x.Fail("B05", "new", "New: %v", err)
	}
	x.Cleanup(func() { _ = b.Close() })
	topics := x.Pool("t", 1+x.IntN(3))
	ctx, cancel := context.WithCancel(bg)
	x.Cleanup(cancel)
	open, n := false, 0
	queued := map[string][]broker.Message{}
	type asub struct {
		s     broker.Subscriber
		id    string
		topic string
		over  bool
	}
	var subs []*asub
	x.Log("capacity %d topics=%q", cap, topics)
	for i := x.More(8 + x.IntN(40)); i > 0; i-- {
		topic := topics[x.IntN(len(topics))]
		switch op := x.Pick(3, 1, 12, 5, 3, 14); op {
		case 0:
			if err := b.Open(ctx); err != nil {
				x.Fail("B05", "open", "Open: %v", err)
			}
			open = true
			x.Log("Open")
		case 1:
			if x.Chance(0.5) {
				continue
			}
			if err := b.Close(); err != nil {
				x.Fail("B05", "close", "Close: %v", err)
			}
			open, queued = false, map[string][]broker.Message{}
			for _, s := range subs {
				s.over = true
			}
			x.Log("Close")
		case 2:
			n++
			m := x.newMsg(n)
			full := len(queued[topic]) >= cap
			var opts []broker.Option
			if full {
				opts = append(opts, broker.WithPubTimeout(soon))
			}
			err := b.Pub(bg, topic, m, opts...)
			x.Log("Pub(%q, %d) = %v", topic, n, err)
			switch {
			case !open && err != broker.ErrNotConnected, open && full && err != broker.ErrTimeout, open && !full && err != nil:
				x.Fail("B01 B03 B05", "pub", "Pub = %v (open %v, full %v)", err, open, full)
			case err == nil:
				queued[topic] = append(queued[topic], m)
			}
		case 3:
			s, err := b.Sub(bg, topic)
			x.Log("Sub(%q) = %v", topic, err)
			if (err == nil) != open || err != nil && err != broker.ErrNotConnected {
				x.Fail("B04 B05", "sub", "Sub = %v (open %v)", err, open)
			}
			if err == nil {
				id, err := s.ID(bg)
				if err != nil {
					x.Fail("B04", "id", "ID: %v", err)
				}
				subs = append(subs, &asub{s: s, id: id, topic: topic})
			}
		case 4:
			if len(subs) == 0 {
				continue
			}
			s := subs[x.IntN(len(subs))]
			if err := s.s.Unsubscribe(bg); err != nil {
				x.Fail("B04", "unsubscribe", "Unsubscribe: %v", err)
			}
			s.over = true
			x.Log("Unsubscribe %q", s.topic)
		case 5:
			if len(subs) == 0 {
				continue
			}
			s := subs[x.IntN(len(subs))]
			q := queued[s.topic]
			var opts []broker.Option
			if len(q) == 0 {
				opts = append(opts, broker.WithSubTimeout(soon))
			}
			var got []broker.Message
			herr := error(nil)
			if x.Chance(0.2) {
				herr = errHandler
			}
			err := s.s.Receive(bg, func(_ context.Context, m broker.Message) error {
				got = append(got, m)
				return herr
			}, opts...)
			x.Log("Receive(%q) = %d messages, %v", s.topic, len(got), err)
			switch {
			case s.over:
				if err != broker.ErrSubscriptionInactive || len(got) > 0 {
					x.Fail("B04 B05", "receive", "Receive = %d messages, %v after the end of the subscription", len(got), err)
				}
			case len(q) == 0:
				if err != broker.ErrTimeout || len(got) > 0 {
					x.Fail("B01 B03", "receive", "Receive = %d messages, %v on an empty topic", len(got), err)
				}
			default:
				if err != herr || len(got) != 1 {
					x.Fail("B01 B03", "receive", "Receive = %d messages, %v with %d waiting", len(got), err, len(q))
				}
				w, g := q[0], got[0]
				if g.UID != w.UID || g.Type != w.Type || !bytes.Equal(g.Data, w.Data) || !sameMap(g.Attrs, w.Attrs) {
					x.Fail("B01 B02", "message", "Receive: %+v, want %+v", g, w)
				}
				queued[s.topic] = q[1:]
			}
		}
		for _, s := range subs {
			if id, err := s.s.ID(bg); err != nil || id != s.id {
				x.Fail("B04", "id", "ID = %q, %v, was %q", id, err, s.id)
			}
			if t, err := s.s.Topic(bg); err != nil || t != s.topic {
				x.Fail("B04", "topic", "Topic = %q, %v, want %q", t, err, s.topic)
			}
		}
	}
	x.NonTrivial()
}

// digestAlone: one goroutine digests messages of its own broker.
func digestAlone(x *Exec) {
	n := 1 + x.IntN(8)
	b := openBroker(x, broker.WithCap(n), broker.WithPubTimeout(time.Minute), broker.WithSubTimeout(time.Minute))
	var calls int
	h := func() (broker.Handler, *[]broker.Message) {
		got := &[]broker.Message{}
		return func(_ context.Context, m broker.Message) error {
			calls++
			*got = append(*got, m)
			if calls == n {
				return errHandler
			}
			return nil
		}, got
	}
	own, gotOwn := h()
	d, err := dsimple.NewDigester(digester.WithHandler(own))
	if err != nil {
		x.Fail("D02", "new", "NewDigester: %v", err)
	}
	for k := 1 + x.IntN(4); k > 0; k-- {
		topic, got := x.Str(), gotOwn
		*gotOwn, calls = nil, 0
		var opts []digester.Option
		if x.Chance(0.5) {
			var o broker.Handler
			o, got = h()
			opts = append(opts, digester.WithHandler(o))
		}
		s, err := b.Sub(bg, topic)
		if err != nil {
			x.Fail("D02", "sub", "Sub: %v", err)
		}
		var ms []broker.Message
		for i := 0; i < n; i++ {
			m := x.newMsg(i)
			if err := b.Pub(bg, topic, m); err != nil {
				x.Fail("D02", "pub", "Pub: %v", err)
			}
			ms = append(ms, m)
		}
		if err := d.Digest(bg, s, opts...); err != errHandler {
			x.Fail("D02", "error", "Digest = %v", err)
		}
		x.Log("digested %d messages of %q", n, topic)
		if len(*got) != n || got != gotOwn && len(*gotOwn) > 0 {
			x.Fail("D02", "count", "%d of %d messages handled, %d by another handler", len(*got), n, len(*gotOwn))
		}
		for i, g := range *got {
			w := ms[i]
			if g.UID != w.UID || g.Type != w.Type || !bytes.Equal(g.Data, w.Data) || !sameMap(g.Attrs, w.Attrs) {
				x.Fail("D02", "message", "message %d: %+v, want %+v", i, g, w)
			}
		}
	}
	x.NonTrivial()
}

// pipeAlone: one goroutine ingests values into a broker and digests them.
func pipeAlone(x *Exec) {
	n := 1 + x.IntN(8)
	b := openBroker(x, broker.WithCap(n), broker.WithPubTimeout(10*time.Minute), broker.WithSubTimeout(10*time.Minute))
	var bb broker.Broker = b
	m := x.marshaler()
	var opts, per []ingester.Option
	if x.Chance(0.5) {
		opts = append(opts, ingester.WithMarshaler(m))
	} else {
		per = append(per, ingester.WithMarshaler(m))
	}
	in, err := isimple.NewIngester(opts...)
	if err != nil {
		x.Fail("D01", "new", "NewIngester: %v", err)
	}
	d, err := dsimple.NewDigester()
	if err != nil {
		x.Fail("D02", "new", "NewDigester: %v", err)
	}
	for k := 1 + x.IntN(3); k > 0; k-- {
		topic := x.Str()
		s, err := bb.Sub(bg, topic)
		if err != nil {
			x.Fail("B04", "sub", "Sub: %v", err)
		}
		var vs []*val
		for i := 0; i < n; i++ {
			v := x.newVal(x.pickKind())
			x.Log("ingest to %q: %v", topic, v)
			if err := in.Ingest(bg, bb, topic, pTypes[v.kind], x.build(v), per...); err != nil {
				x.Fail("D01", "ingest", "Ingest(%v): %v", v, err)
			}
			vs = append(vs, v)
		}
		i := 0
		err = d.Digest(bg, s, digester.WithHandler(func(_ context.Context, msg broker.Message) error {
			if i == n {
				return errHandler
			}
			kind, e, err := decode(m, msg)
			if err != nil || kind != vs[i].kind {
				x.Report("M01", "decode", "%v is decoded as %s, %v", vs[i], kind, err)
				return errHandler
			}
			if got, err := readVal(kind, e); err != nil || !got.same(vs[i]) {
				x.Report("M01 B01", "value", "%v comes back as %v, %v", vs[i], got, err)
			}
			if i++; i == n {
				return errHandler
			}
			return nil
		}))
		if err != errHandler || i != n {
			x.Fail("D02", "digest", "Digest = %v after %d of %d messages", err, i, n)
		}
		x.Count("values_digested", n)
	}
	x.NonTrivial()
}

// side runs one of the goroutines.
func (y *Exec) side(x *Exec, i int, f func()) {
	if solo >= 0 && i != solo {
		return
	}
	y.anything, y.str, y.num, y.dur = true, x.str, x.num, x.dur
	defer func() {
		for k := len(y.cleanups) - 1; k >= 0; k-- {
			y.Guard("clean-up", y.cleanups[k])
		}
	}()
	f()
}

func manyInstances(x *Exec) {
	x.anything = true
	n := 2 + x.IntN(4)
	plan := make([][]instance, n)
	one := x.IntN(len(instances))
	same := x.Chance(0.5)
	for i := range plan {
		for k := 1 + x.IntN(2); k > 0; k-- {
			in := instances[x.IntN(len(instances))]
			if same {
				in = instances[one]
			}
			plan[i] = append(plan[i], in)
		}
	}
	for i, p := range plan {
		for _, in := range p {
			x.Log("goroutine %d: %s", i, in.name)
		}
	}
	x.parallel(n, func(i int, y *Exec) {
		y.side(x, i, func() {
			for _, in := range plan[i] {
				in.run(y)
				y.Count("instances", 1)
			}
		})
	})
	x.NonTrivial()
}

// sharedValues: several components are given the very same values.
func sharedValues(x *Exec) {
	nEnt := 2 + x.IntN(6)
	nLink := x.IntN(2 * nEnt)
	ids := x.Pool("e", nEnt+nLink)
	us := ids[:nEnt]
	type shared struct {
		v     *val
		e     interface{}
		dotid string
	}
	var ents, links []shared
	add := func(v *val) shared {
		s := shared{v: v, e: x.build(v)}
		got, err := readVal(v.kind, s.e)
		if err != nil || !got.same(v) {
			x.Fail("E01", "new", "%v is %v, %v", v, got, err)
		}
		s.dotid = got.dotid
		return s
	}
	for i, u := range us {
		v := x.newVal([]string{"entity", "object", "resource"}[x.IntN(3)])
		v.uid = u
		if v.kind == "resource" {
			v.rkind = fmt.Sprintf("kind%d", i)
		}
		ents = append(ents, add(v))
	}
	for i := x.IntN(3); i > 0; i-- {
		// another of the same id
		v := x.newVal([]string{"entity", "object", "resource"}[x.IntN(3)])
		if v.uid = us[x.IntN(nEnt)]; v.kind == "resource" {
			v.rkind = fmt.Sprintf("other%d", i)
		}
		ents = append(ents, add(v))
	}
	for i := 0; i < nLink; i++ {
		v := x.newVal("link")
		v.uid, v.from, v.to = ids[nEnt+i], us[x.IntN(nEnt)], us[x.IntN(nEnt)]
		links = append(links, add(v))
	}
	n := 2 + x.IntN(4)
	kinds := make([]int, n)
	one, same := x.IntN(5), x.Chance(0.4)
	for i := range kinds {
		if kinds[i] = x.IntN(5); same {
			kinds[i] = one
		}
	}
	x.Log("kinds %v", kinds)
	x.anything = true
	for _, s := range append(append([]shared{}, ents...), links...) {
		x.Log("shared: %v", s.v)
	}
	marshaler := x.marshaler()
	node := func(s shared) *mNode {
		n := &mNode{uid: s.v.uid, typ: s.v.typ, dotid: s.dotid, attrs: s.v.attrs}
		if _, ok := s.e.(graph.DOTEntity); !ok {
			n.dotid = s.v.uid
		}
		return n
	}
	// NOTE: what several have is not to be changed by any of them, whatever else goes wrong
	defer func() {
		x.anything = true
		for _, s := range append(ents, links...) {
			got, err := readVal(s.v.kind, s.e)
			if err != nil || !got.same(s.v) || got.dotid != s.dotid {
				x.mu.Lock()
				x.bad = nil
				x.mu.Unlock()
				x.Report("X03", "changed", "a value given to several components has changed: %v (dotid %q) is now %v, %v", s.v, s.dotid, got, err)
				return
			}
		}
	}()
	x.parallel(n, func(i int, y *Exec) {
		y.side(x, i, func() {
			steps := 4 + y.IntN(20)
			switch kinds[i] {
			case 0: // a store
				st, directed := y.newStore()
				m := newModel(directed)
				r := &sRun{Exec: y, s: st, m: m, us: us, ent: map[*mNode]store.Entity{}}
				for ; steps > 0; steps-- {
					s := ents[y.IntN(len(ents))]
					switch y.IntN(4) {
					case 0, 1:
						e := s.e.(store.Entity)
						upsert := y.Chance(0.4)
						var opts []store.Option
						if upsert {
							opts = append(opts, store.WithUpsert())
						}
						w := node(s)
						got, want := st.Add(bg, e, opts...), r.add(w, upsert, nil)
						if !okErr(got, want) {
							y.Fail("S01", "add", "Add(%v) = %v, want %v", s.v, got, want)
						}
					case 2:
						if len(links) == 0 {
							continue
						}
						l := links[y.IntN(len(links))]
						k := l.e.(space.Link)
						got, want := st.Link(bg, k.From(), k.To(), store.WithAttrs(k.Attrs())), r.link(l.v.from, l.v.to, l.v.attrs)
						if !okErr(got, want) {
							y.Fail("S01", "link", "Link(%v) = %v, want %v", l.v, got, want)
						}
					case 3:
						if err := st.Delete(bg, s.e.(store.Entity).UID()); err != nil {
							y.Fail("S01", "delete", "Delete: %v", err)
						}
						m.remove(s.v.uid)
					}
				}
				r.check("S01", true)
			case 1: // a cache
				c, err := memcache.NewLinks()
				if err != nil {
					y.Fail("C01", "new", "NewLinks: %v", err)
				}
				r := &cRun{Exec: y, c: c, us: us, m: map[[2]string]*mLink{}}
				for ; steps > 0 && len(links) > 0; steps-- {
					l := links[y.IntN(len(links))]
					k := l.e.(cache.Link)
					if y.IntN(4) == 0 {
						u := y.UID(us[y.IntN(nEnt)])
						if err := c.Delete(bg, u); err != nil {
							y.Fail("C03", "delete", "Delete: %v", err)
						}
						r.del(u.String())
						continue
					}
					upsert := y.Chance(0.4)
					if err := c.Put(bg, k, cacheUpsert(y, upsert)...); err != nil {
						y.Fail("C01", "put", "Put: %v", err)
					}
					r.put(&mLink{uid: l.v.uid, from: l.v.from, to: l.v.to, attrs: l.v.attrs, link: k}, upsert)
				}
				r.check("C01", true)
			case 2: // a plan
				p, err := simple.NewSimple()
				if err != nil {
					y.Fail("P01", "new", "NewSimple: %v", err)
				}
				has := map[string]interface{}{}
				for ; steps > 0; steps-- {
					s := ents[y.IntN(len(ents))]
					r, ok := s.e.(space.Resource)
					switch {
					case !ok:
					case y.IntN(3) == 0:
						err = p.Delete(bg, r.UID())
						delete(has, s.v.uid)
					default:
						err = p.Add(bg, r)
						has[s.v.uid] = r
					}
					if err != nil {
						y.Fail("P01", "plan", "%v", err)
					}
				}
				rs, err := p.GetAll(bg)
				if err != nil || len(rs) != len(has) {
					y.Fail("P01", "getall", "GetAll: %d resources, %v, want %d", len(rs), err, len(has))
				}
				for _, r := range rs {
					if has[r.UID().String()] != interface{}(r) {
						y.Fail("P01", "getall", "GetAll: %q is another resource", r.UID().String())
					}
				}
			case 3: // the marshaler, shared or not
				m := marshaler
				if y.Chance(0.5) {
					m = y.marshaler()
				}
				all := append(append([]shared{}, ents...), links...)
				for ; steps > 0; steps-- {
					s := all[y.IntN(len(all))]
					d, err := m.Marshal(s.e)
					if err != nil {
						y.Fail("M01", "marshal", "Marshal(%v): %v", s.v, err)
					}
					_, v, err := decode(m, broker.Message{Type: pTypes[s.v.kind], Data: d})
					if err != nil {
						y.Fail("M01", "unmarshal", "%v: %q: %v", s.v, d, err)
					}
					if got, err := readVal(s.v.kind, v); err != nil || !got.same(s.v) {
						y.Fail("M01", "round-trip", "%v comes back as %v, %v", s.v, got, err)
					}
				}
			case 4: // a graph
				directed := y.Chance(0.5)
				g, m := y.newGraph(directed), newModel(directed)
				for ; steps > 0; steps-- {
					s := ents[y.IntN(len(ents))]
					e := s.e.(graph.Entity)
					switch y.IntN(4) {
					case 0, 1:
						opts := []graph.Option{graph.WithAttrs(e.Attrs())}
						w := node(s)
						if y.Chance(0.3) {
							if id := y.Str(); id != "" {
								opts, w.dotid = append(opts, graph.WithDOTID(id)), id
							}
						}
						nd, err := g.NewNode(bg, e, opts...)
						if err != nil {
							y.Fail("G02", "newnode", "NewNode: %v", err)
						}
						if sd, ok := nd.(graph.DOTEntity); ok && y.Chance(0.2) {
							w.dotid = y.Str()
							sd.SetDOTID(w.dotid)
						}
						var aopts []graph.Option
						upsert := y.Chance(0.4)
						if upsert {
							aopts = append(aopts, graph.WithUpsert())
						}
						if err := g.AddNode(bg, nd, aopts...); (err == nil) != (upsert || m.nodes[s.v.uid] == nil) {
							y.Fail("G02", "addnode", "AddNode(%v) = %v", s.v, err)
						}
						if upsert || m.nodes[s.v.uid] == nil {
							m.nodes[s.v.uid] = w
						}
					case 2:
						if len(links) == 0 {
							continue
						}
						l := links[y.IntN(len(links))]
						k := l.e.(space.Link)
						if l.v.from == l.v.to || m.nodes[l.v.from] == nil || m.nodes[l.v.to] == nil {
							continue
						}
						if _, err := g.Link(bg, k.From(), k.To(), graph.WithAttrs(k.Attrs()), graph.WithWeight(1)); err != nil {
							y.Fail("G04", "link", "Link(%v): %v", l.v, err)
						}
						if m.edge(l.v.from, l.v.to) == nil {
							m.edges[m.key(l.v.from, l.v.to)] = &mEdge{from: l.v.from, to: l.v.to, w: 1, hasW: true, attrs: copyMap(l.v.attrs)}
						}
					case 3:
						if err := g.RemoveNode(bg, e.UID()); err != nil {
							y.Fail("G03", "remove", "RemoveNode: %v", err)
						}
						m.remove(s.v.uid)
					}
				}
				if dg, ok := g.(graph.DOTGraph); ok && y.Chance(0.5) {
					if _, err := dg.DOT(); err != nil {
						y.Fail("G06", "dot", "DOT: %v", err)
					}
				}
				if ig, ok := g.(iGraph); ok {
					if d := y.checkGraph(ig, m, us, true); d != "" {
						y.Fail("G01", "view", "%s", d)
					}
				}
			}
		})
	})
	x.NonTrivial()
}

// slow is a value whose unique id takes until gate is closed to find out.
type slow struct {
	uuid.UID
	gate, there chan struct{}
	once        sync.Once
}

func (s *slow) String() string {
	s.once.Do(func() { close(s.there) })
	<-s.gate
	return s.UID.String()
}

// slowAttrs are attributes whose keys take until gate is closed to find out.
type slowAttrs struct {
	*memattrs.Attrs
	gate, there chan struct{}
	once        sync.Once
}

func (a *slowAttrs) Keys(ctx context.Context) ([]string, error) {
	a.once.Do(func() { close(a.there) })
	<-a.gate
	return a.Attrs.Keys(ctx)
}

// blockedElsewhere: some components are blocked, or call what does not return for now; others are not held up.
func blockedElsewhere(x *Exec) {
	const forever = 3 * horizon
	gate := make(chan struct{}) // ends it
	var cancels []context.CancelFunc
	opened := false
	release := func() {
		if !opened {
			opened = true
			for _, c := range cancels {
				c()
			}
			close(gate)
		}
	}
	var running sync.WaitGroup
	var held []*Exec
	nop := func(context.Context, broker.Message) error { return nil }
	ctx := func() context.Context {
		c, cancel := context.WithCancel(bg)
		cancels = append(cancels, cancel)
		return c
	}
	// hold runs f, which does not return before release, and waits until it is under way
	hold := func(what string, f func(there chan struct{})) {
		if solo >= 0 {
			return
		}
		there := make(chan struct{})
		running.Add(1)
		y := x.fork(1000 + len(held))
		y.anything = true
		held = append(held, y)
		x.Cleanup(release) // before what the clean-up of brokers waits for
		go func() {
			defer running.Done()
			y.Guard(what, func() { f(there) })
		}()
		select {
		case <-there:
		case <-time.After(time.Second):
		}
		x.Log("held: %s", what)
	}
	broke := func() *membroker.Memory {
		return openBroker(x, broker.WithCap(1), broker.WithPubTimeout(forever), broker.WithSubTimeout(forever))
	}
	wait := func(there chan struct{}) {
		close(there)
		<-gate
	}
	one := -1
	for k := 1 + x.IntN(2); k > 0; k-- {
		topic := x.Pool("t", 1)[0]
		sort := x.IntN(14)
		if k == 1 && one >= 0 {
			sort = one // two of the same sort
		} else if one < 0 && x.Chance(0.5) {
			one = sort
		}
		switch sort {
		case 0:
			b, c := broke(), ctx()
			_ = b.Pub(bg, topic, x.newMsg(1))
			hold("Pub on a full topic", func(chan struct{}) { _ = b.Pub(c, topic, broker.Message{}) })
		case 1:
			b, c := broke(), ctx()
			if s, err := b.Sub(bg, topic); err == nil {
				hold("Receive on an empty topic", func(chan struct{}) { _ = s.Receive(c, nop) })
			}
		case 2:
			b := broke()
			s, err := b.Sub(bg, topic)
			if err == nil && b.Pub(bg, topic, x.newMsg(1)) == nil {
				hold("a handler", func(there chan struct{}) {
					_ = s.Receive(bg, func(context.Context, broker.Message) error {
						wait(there)
						return nil
					})
				})
			}
		case 3:
			b, c := broke(), ctx()
			_ = b.Pub(bg, topic, x.newMsg(1))
			var bb broker.Broker = b
			m := x.marshaler()
			v := x.build(x.newVal("entity"))
			if in, err := isimple.NewIngester(ingester.WithMarshaler(m)); err == nil {
				hold("Ingest to a full topic", func(chan struct{}) { _ = in.Ingest(c, bb, topic, broker.Entity, v) })
			}
		case 4:
			b := broke()
			s, err := b.Sub(bg, topic)
			d, err2 := dsimple.NewDigester()
			if err == nil && err2 == nil && b.Pub(bg, topic, x.newMsg(1)) == nil {
				hold("a handler of a digest", func(there chan struct{}) {
					_ = d.Digest(bg, s, digester.WithHandler(func(context.Context, broker.Message) error {
						wait(there)
						return errHandler
					}))
				})
			}
		case 5:
			b, c := broke(), ctx()
			s, err := b.Sub(bg, topic)
			d, err2 := dsimple.NewDigester()
			if err == nil && err2 == nil {
				hold("an idle digest", func(chan struct{}) { _ = d.Digest(c, s, digester.WithHandler(nop)) })
			}
		case 6:
			r, err := netscrape.NewRunner()
			p, err2 := simple.NewSimple()
			if err == nil && err2 == nil {
				hold("a scraper", func(there chan struct{}) {
					_ = r.Run(bg, p, &recorder{do: func(context.Context, plan.Plan, netscrape.Options) error {
						wait(there)
						return nil
					}})
				})
			}
		case 7:
			m, u := x.marshaler(), x.UID("e0")
			hold("Marshal of a slow value", func(there chan struct{}) {
				_, _ = m.Marshal(&myEntity{&slow{UID: u, gate: gate, there: there}, "t", memattrs.New()})
			})
		case 8:
			st, _ := x.newStore()
			u := x.UID("e0")
			hold("Add of a slow entity to a store", func(there chan struct{}) {
				_ = st.Add(bg, &myEntity{&slow{UID: u, gate: gate, there: there}, "t", memattrs.New()})
			})
		case 9:
			c, err := memcache.NewLinks()
			u0, u1, u2 := x.UID("e0"), x.UID("e1"), x.UID("e2")
			if err == nil {
				hold("Put of a slow link", func(there chan struct{}) {
					u := &slow{UID: u0, gate: gate, there: there}
					_ = c.Put(bg, &myLink{u1, u, u2, memattrs.New()})
				})
			}
		case 11:
			g, u := x.newGraph(x.Chance(0.5)), x.UID("e0")
			dg, ok := g.(graph.DOTGraph)
			if !ok {
				continue
			}
			hold("DOT of a slow node", func(there chan struct{}) {
				a := &slowAttrs{Attrs: memattrs.New(), gate: gate, there: there}
				if n, err := g.NewNode(bg, &myEntity{u, "t", a}, graph.WithAttrs(a)); err == nil {
					_ = g.AddNode(bg, n)
				}
				_, _ = dg.DOT()
			})
		case 12:
			hold("a copy of slow attributes", func(there chan struct{}) {
				_, _ = memattrs.NewCopyFrom(bg, &slowAttrs{Attrs: memattrs.New(), gate: gate, there: there})
			})
		case 13:
			g, u, w := x.newGraph(x.Chance(0.5)), x.UID("e0"), x.UID("e1")
			hold("a subgraph with a slow edge", func(there chan struct{}) {
				for _, u := range []uuid.UID{u, w} {
					if n, err := g.NewNode(bg, &myEntity{u, "t", memattrs.New()}); err == nil {
						_ = g.AddNode(bg, n)
					}
				}
				_, _ = g.Link(bg, u, w, graph.WithAttrs(&slowAttrs{Attrs: memattrs.New(), gate: gate, there: there}))
				_, _ = g.SubGraph(bg, u, 2)
			})
		case 10:
			p, err := simple.NewSimple()
			u := x.UID("e0")
			if err == nil {
				hold("Get of a slow id", func(there chan struct{}) {
					_, _ = p.Get(bg, &slow{UID: u, gate: gate, there: there})
				})
			}
		}
	}
	manyInstances(x)
	release()
	running.Wait()
	x.join(held)
	x.Count("held_elsewhere", len(held))
}

func init() {
	r1 := "2 to 5 goroutines, each using one or two components of its own, half of the time of the same sort - brokers, graphs, stores, caches, plans, attributes, values, marshalers, ingesters, digesters, runners -, each compared with its own model; ids and topics coincide; every execution is non-trivial"
	r2 := "2 to 5 stores, caches, plans, graphs or marshalers are given the very same entities, resources, objects and links, each by its own goroutine and compared with its own model, the values looked at again at the end; every execution is non-trivial"
	register("X03",
		&Part{Name: "instances", Engine: Sim, Perturb: true, Quick: 6000, Thorough: 200000, Run: manyInstances, Rule: r1 + "; under perturbed schedules"},
		&Part{Name: "shared-values", Engine: Sim, Perturb: true, Quick: 6000, Thorough: 200000, Run: sharedValues, Rule: r2 + "; under perturbed schedules"},
		&Part{Name: "blocked-elsewhere", Engine: Sim, Perturb: true, Quick: 3000, Thorough: 100000, Run: blockedElsewhere, Rule: r1 + "; meanwhile 1 or 2 others are blocked for good in Pub, Receive, Ingest or Digest, or call handlers, scrapers or values which do not return for now: a hold-up shows as a deadlock"},
		&Part{Name: "race-instances", Engine: Race, Quick: 1200, Thorough: 40000, Run: manyInstances, Rule: r1 + "; under the race detector"},
		&Part{Name: "race-shared-values", Engine: Race, Quick: 1500, Thorough: 50000, Run: sharedValues, Rule: r2 + "; under the race detector"},
	)
}
