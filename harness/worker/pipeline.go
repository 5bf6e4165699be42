package worker

import (
	"context"
	"errors"
	"fmt"
	"sync/atomic"
	"time"

	"github.com/milosgajdos/netscrape"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	dsimple "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	isimple "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/store"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// The whole way of the data: runners hand a plan, a broker and a marshaler to scrapers, these ingest what they find, digesters
// decode what arrives by its type, add entities to one store and links to one cache, linkers link in the store what the cache
// holds. What was ingested has to be there at the end, once and unaltered, however all this interleaves.

// pVal is a value on its way.
type pVal struct {
	v     *val
	e     interface{}
	topic int
	who   int // scraper
	seq   int // order of its ingestion by the scraper
	tries int
}

// pGot is a value a digester was given.
type pGot struct {
	p     *pVal
	dotid string
}

var pTypes = map[string]broker.Type{"entity": broker.Entity, "object": broker.Object, "resource": broker.Resource, "link": broker.Link}

var errSkip = errors.New("this digest ends here")

func decode(um broker.Unmarshaler, m broker.Message) (string, interface{}, error) {
	switch m.Type {
	case broker.Entity:
		var v space.Entity
		err := um.Unmarshal(m.Data, &v)
		return "entity", v, err
	case broker.Object:
		var v space.Object
		err := um.Unmarshal(m.Data, &v)
		return "object", v, err
	case broker.Resource:
		var v space.Resource
		err := um.Unmarshal(m.Data, &v)
		return "resource", v, err
	case broker.Link:
		var v space.Link
		err := um.Unmarshal(m.Data, &v)
		return "link", v, err
	}
	return "", nil, fmt.Errorf("message of type %d", int(m.Type))
}

func pipeline(x *Exec) {
	race := x.Part.Engine == Race
	const wait = 10 * time.Minute
	patience := time.Hour
	if race {
		patience = 2 * time.Minute
	}
	// components
	b, err := membroker.New(broker.WithCap(x.IntN(5)), broker.WithPubTimeout(wait), broker.WithSubTimeout(wait))
	if err != nil {
		x.Fail("X02", "new", "broker: %v", err)
	}
	x.Cleanup(func() { _ = b.Close() })
	if err := b.Open(bg); err != nil {
		x.Fail("X02", "new", "Open: %v", err)
	}
	st, directed := x.newStore()
	ca, err := memcache.NewLinks()
	if err != nil {
		x.Fail("X02", "new", "cache: %v", err)
	}
	m := x.marshaler()
	bb, ok1 := interface{}(b).(broker.Broker)
	mm, ok2 := interface{}(m).(broker.Marshaler)
	um, ok3 := interface{}(m).(broker.Unmarshaler)
	if !ok1 || !ok2 || !ok3 {
		x.Fail("X02", "interfaces", "the library's broker and marshaler do not implement its interfaces: %v %v %v", ok1, ok2, ok3)
	}
	ss, ok := interface{}(st).(store.Store)
	if !ok {
		ss = fullStore{st}
	}

	// values
	nScrapers, nTopics := 1+x.IntN(3), 1+x.IntN(3)
	nEnt := x.Size(2+x.IntN(10), 200)
	nLink := x.IntN(nEnt + 3)
	ids := x.Pool("e", nEnt+nLink)
	byID := map[string]*pVal{}
	us := ids[:nEnt]
	mine := make([][]*pVal, nScrapers)
	var all []*pVal
	add := func(v *val) {
		p := &pVal{v: v, e: x.build(v), topic: x.IntN(nTopics), who: x.IntN(nScrapers), seq: -1}
		byID[v.uid] = p
		mine[p.who] = append(mine[p.who], p)
		all = append(all, p)
	}
	for i, u := range us {
		v := x.newVal([]string{"entity", "object", "resource"}[x.IntN(3)])
		v.uid = u
		if v.kind == "resource" {
			v.rkind = fmt.Sprintf("kind%d", i) // resources of one plan differ
		}
		add(v)
	}
	pairs := map[[2]string]bool{}
	model := newModel(directed)
	for i := 0; i < nLink; i++ {
		f, t := us[x.IntN(nEnt)], us[x.IntN(nEnt)]
		if f == t || pairs[[2]string{f, t}] || !directed && pairs[[2]string{t, f}] {
			continue
		}
		pairs[[2]string{f, t}] = true
		v := x.newVal("link")
		v.uid, v.from, v.to = ids[nEnt+i], f, t
		add(v)
	}
	for i := range mine {
		shuffle(x, mine[i])
	}
	x.Log("%d scrapers, %d topics, %d entities, %d links", nScrapers, nTopics, nEnt, len(all)-nEnt)
	for _, p := range all {
		x.Log("scraper %d, topic %d: %v", p.who, p.topic, p.v)
	}

	// plans: resources are found in them
	plans := make([]plan.Plan, nScrapers)
	for i := range plans {
		p, err := simple.NewSimple()
		if err != nil {
			x.Fail("X02", "new", "plan: %v", err)
		}
		for _, v := range mine[i] {
			if r, ok := v.e.(space.Resource); ok {
				if err := p.Add(bg, r); err != nil {
					x.Fail("X02", "plan", "Add(%v) to a plan = %v", v.v, err)
				}
			}
		}
		plans[i] = p
	}

	var ropts []netscrape.Option
	runOpts := []netscrape.Option{netscrape.WithBroker(bb), netscrape.WithStore(ss), netscrape.WithMarshaler(mm)}
	if x.Chance(0.5) {
		ropts, runOpts = runOpts, nil
	}
	runner, err := netscrape.NewRunner(ropts...)
	if err != nil {
		x.Fail("X02", "new", "NewRunner: %v", err)
	}
	shared, err := isimple.NewIngester(ingester.WithMarshaler(mm))
	if err != nil {
		x.Fail("X02", "new", "NewIngester: %v", err)
	}
	dig, err := dsimple.NewDigester()
	if err != nil {
		x.Fail("X02", "new", "NewDigester: %v", err)
	}

	// digesters
	type worker struct {
		mu    chan struct{} // a lock whose waiters virtual time knows of
		topic int
		late  bool // subscribes when the scrapers are at work
		sub   broker.Subscriber
		got   []pGot
		err   error
	}
	var ws []*worker
	for t := 0; t < nTopics; t++ {
		for i := x.IntN(3); i >= 0; i-- {
			w := &worker{mu: make(chan struct{}, 1), topic: t, late: x.Chance(0.3)}
			if w.late {
			} else if w.sub, err = b.Sub(bg, fmt.Sprint("topic", t)); err != nil {
				x.Fail("X02", "new", "Sub: %v", err)
			}
			ws = append(ws, w)
		}
	}
	var handled atomic.Int64
	done, lost := make(chan struct{}), atomic.Bool{}
	ctx, cancel := context.WithCancel(bg)
	x.Cleanup(cancel)
	how := x.IntN(3)

	scrape := func(i int, y *Exec) {
		own := y.Chance(0.5)
		impatient := y.Chance(0.4)
		rec := &recorder{do: func(ctx context.Context, p plan.Plan, o netscrape.Options) error {
			in := shared
			if own {
				var err error
				if in, err = isimple.NewIngester(ingester.WithMarshaler(o.Marshaler)); err != nil {
					return err
				}
			}
			rs, err := p.GetAll(ctx)
			if err != nil {
				return err
			}
			vs := []*pVal{}
			for _, r := range rs {
				v := byID[r.UID().String()]
				if v == nil || v.who != i {
					y.Fail("X02", "plan", "scraper %d found %q in its plan", i, r.UID().String())
				}
				vs = append(vs, &pVal{v: v.v, e: r, topic: v.topic})
			}
			for _, v := range mine[i] {
				if v.v.kind != "resource" {
					vs = append(vs, v)
				}
			}
			if len(vs) != len(mine[i]) {
				y.Fail("X02", "plan", "scraper %d found %d resources in its plan, of %d values", i, len(rs), len(mine[i]))
			}
			shuffle(y, vs)
			for seq, v := range vs {
				byID[v.v.uid].seq = seq
				for {
					c, stop := ctx, func() {}
					if impatient && y.Chance(0.5) {
						// gives up soon, and tries again
						d := time.Duration(1+y.IntN(2000)) * time.Microsecond
						c, stop = context.WithTimeout(ctx, d)
					}
					err := in.Ingest(c, o.Broker, fmt.Sprint("topic", v.topic), pTypes[v.v.kind], v.e)
					gaveUp := c.Err() != nil && ctx.Err() == nil
					stop()
					if err == nil {
						break
					}
					y.Count("ingests_given_up", 1)
					if !gaveUp {
						return err
					}
				}
				y.Count("values_ingested", 1)
			}
			return nil
		}}
		if err := runner.Run(ctx, plans[i], rec, runOpts...); err != nil && !lost.Load() {
			y.Fail("X02", "scrape", "scraper %d: %v", i, err)
		}
	}

	digest := func(w *worker, y *Exec) {
		batch := 0
		if y.Chance(0.4) {
			batch = 2 + y.IntN(3)
		}
		lazy := y.Chance(0.3)
		var ents []store.Entity
		var links []cache.Link
		flush := func(ctx context.Context) error {
			var e1, e2 error
			if len(ents) > 0 {
				e1 = st.BulkAdd(ctx, ents)
			}
			if len(links) > 0 {
				e2 = ca.BulkPut(ctx, links)
			}
			ents, links = nil, nil
			if e1 != nil {
				return e1
			}
			return e2
		}
		last := map[int]int{}
		const nothing, failing, stopping, leaving = 0, 1, 2, 3
		leave := nothing // how this digest is ended by its handler
		var s broker.Subscriber
		var halt context.CancelFunc
		h := func(hctx context.Context, msg broker.Message) error {
			kind, v, err := decode(um, msg)
			if err != nil {
				y.Fail("X02", "decode", "message of type %d: %q: %v", int(msg.Type), msg.Data, err)
			}
			got, err := readVal(kind, v)
			if err != nil {
				y.Fail("X02", "decode", "message of type %d: %q: %v", int(msg.Type), msg.Data, err)
			}
			p := byID[got.uid]
			if p == nil {
				y.Fail("X02", "invented", "%v was never ingested", got)
			}
			if !got.same(p.v) {
				y.Fail("X02", "altered", "%v arrived as %v", p.v, got)
			}
			if p.topic != w.topic {
				y.Fail("X02", "topic", "%v of topic %d arrived at topic %d", p.v, p.topic, w.topic)
			}
			if l, ok := last[p.who]; ok && l >= p.seq {
				y.Fail("X02", "order", "value %d of scraper %d arrived after value %d", p.seq, p.who, l)
			}
			last[p.who] = p.seq
			w.got = append(w.got, pGot{p, got.dotid})
			switch {
			case kind == "link" && batch > 0:
				links = append(links, v.(cache.Link))
			case kind == "link":
				err = ca.Put(hctx, v.(cache.Link))
			case batch > 0:
				ents = append(ents, v.(store.Entity))
			default:
				err = ss.Add(hctx, v.(store.Entity))
			}
			if err == nil && len(ents)+len(links) > 0 && len(ents)+len(links) >= batch {
				err = flush(hctx)
			}
			if err != nil {
				y.Fail("X02", "store", "storing %v: %v", p.v, err)
			}
			if lazy {
				time.Sleep(time.Duration(y.IntN(1500)) * time.Microsecond)
			}
			if handled.Add(1) == int64(len(all)) {
				close(done)
			}
			if leave == nothing && y.Chance(0.15) {
				switch leave = 1 + y.IntN(3); leave {
				case failing:
					return errSkip
				case stopping:
					halt()
				case leaving:
					if err := s.Unsubscribe(bg); err != nil {
						y.Fail("X02", "unsubscribe", "Unsubscribe: %v", err)
					}
				}
			}
			return nil
		}
		over := func() bool {
			select {
			case <-done:
				return true
			default:
				return ctx.Err() != nil
			}
		}
		// subscribe makes a new subscription unless everything has arrived
		subscribe := func() bool {
			w.mu <- struct{}{}
			defer func() { <-w.mu }()
			if over() {
				return false
			}
			s, err := b.Sub(bg, fmt.Sprint("topic", w.topic))
			if err != nil {
				if over() {
					return false
				}
				y.Fail("X02", "subscribe", "Sub: %v", err)
			}
			w.sub = s
			return true
		}
		on := !w.late || subscribe()
		for on {
			dctx, stop := context.WithCancel(ctx)
			leave, s = nothing, w.sub
			halt = stop
			w.err = dig.Digest(dctx, s, digester.WithHandler(h))
			stop()
			if over() {
				break
			}
			switch {
			case leave == nothing, leave == failing && w.err != errSkip:
				y.Fail("X02", "digest", "a digest returned %v although nothing ended it", w.err)
			case leave == leaving:
				on = subscribe()
			}
			y.Count("digests_resumed", 1)
		}
		if err := flush(bg); err != nil {
			y.Fail("X02", "store", "storing: %v", err)
		}
	}

	x.parallel(nScrapers+len(ws)+1, func(i int, y *Exec) {
		fine := false
		defer func() {
			if !fine {
				lost.Store(true)
				cancel()
			}
		}()
		switch {
		case i < nScrapers:
			scrape(i, y)
		case i < nScrapers+len(ws):
			digest(ws[i-nScrapers], y)
		default:
			t := time.NewTimer(patience)
			defer t.Stop()
			select {
			case <-done:
				switch how {
				case 0:
					cancel()
				case 1:
					if err := b.Close(); err != nil {
						y.Fail("X02", "close", "Close: %v", err)
					}
				case 2:
					for _, w := range ws {
						w.mu <- struct{}{}
						s := w.sub
						<-w.mu
						if s == nil {
							continue
						}
						if err := s.Unsubscribe(bg); err != nil {
							y.Fail("X02", "unsubscribe", "Unsubscribe: %v", err)
						}
					}
				}
			case <-ctx.Done():
			case <-t.C:
				y.Fail("X02", "lost", "%d of %d values have arrived, and nothing more for %v", handled.Load(), len(all), patience)
			}
		}
		fine = true
	})
	if x.Failed() {
		panic(abort{})
	}

	// exactly once
	times := map[*pVal]int{}
	for _, w := range ws {
		for _, g := range w.got {
			times[g.p]++
		}
	}
	for _, p := range all {
		if times[p] != 1 {
			x.Fail("X02", "count", "%v arrived %d times", p.v, times[p])
		}
	}
	// the cache holds the links, the store the entities
	cr := &cRun{Exec: x, c: ca, us: us, m: map[[2]string]*mLink{}}
	sr := &sRun{Exec: x, s: st, m: model, us: us, ent: map[*mNode]store.Entity{}}
	for _, w := range ws {
		for _, g := range w.got {
			v := g.p.v
			if v.kind == "link" {
				cr.m[[2]string{v.from, v.to}] = &mLink{uid: v.uid, from: v.from, to: v.to, attrs: v.attrs}
			} else {
				model.nodes[v.uid] = &mNode{uid: v.uid, typ: v.typ, dotid: g.dotid, attrs: v.attrs}
			}
		}
	}
	cr.check("X02", true)
	sr.check("X02", true)

	// linking from the cache
	x.parallel(1+x.IntN(3), func(i int, y *Exec) {
		for _, u := range us {
			if y.Chance(0.2) || i == 0 {
				ls, err := ca.GetFrom(bg, y.UID(u))
				if err != nil {
					y.Fail("X02", "cache", "GetFrom(%q): %v", u, err)
				}
				for _, l := range ls {
					if err := st.Link(bg, l.From(), l.To(), store.WithAttrs(l.Attrs())); err != nil {
						y.Fail("X02", "link", "Link(%q, %q): %v", l.From(), l.To(), err)
					}
				}
			}
		}
	})
	if x.Failed() {
		panic(abort{})
	}
	for k, l := range cr.m {
		model.edges[model.key(k[0], k[1])] = &mEdge{from: k[0], to: k[1], attrs: copyMap(l.attrs)}
	}
	sr.check("X02", true)
	root := us[x.IntN(nEnt)]
	depth := x.IntN(4)
	sub, ok := sr.handle().(graph.SubGrapher)
	if !ok {
		x.Fail("X02", "subgraph", "the graph of the store takes no subgraphs")
	}
	sg, err := sub.SubGraph(bg, x.UID(root), depth)
	if err != nil {
		x.Fail("X02", "subgraph", "SubGraph: %v", err)
	}
	if g, ok := sg.(iGraph); ok {
		if d := x.checkGraph(g, model.sub(root, depth), us, true); d != "" {
			x.Fail("X02", "subgraph", "what is within %d of %q: %s", depth, root, d)
		}
	}

	// what is gone is gone everywhere
	gone := us[:x.IntN(nEnt)]
	x.parallel(2, func(i int, y *Exec) {
		var list []uuid.UID
		for k, u := range gone {
			if k%2 != i {
				continue
			}
			list = append(list, y.UID(u))
		}
		if y.Chance(0.5) {
			e1, e2 := st.BulkDelete(bg, list), ca.BulkDelete(bg, list)
			if e1 != nil || e2 != nil {
				y.Fail("X02", "delete", "BulkDelete: %v, %v", e1, e2)
			}
			return
		}
		for _, u := range list {
			e1, e2 := ss.Delete(bg, u), ca.Delete(bg, u)
			if e1 != nil || e2 != nil {
				y.Fail("X02", "delete", "Delete: %v, %v", e1, e2)
			}
		}
	})
	if x.Failed() {
		panic(abort{})
	}
	for _, u := range gone {
		model.remove(u)
		cr.del(u)
	}
	cr.check("X02", true)
	sr.check("X02", true)
	x.Count("values_arrived", len(all))
	x.Count("digesters", len(ws))
	x.NonTrivial()
}

func init() {
	rule := "1 to 3 scrapers run by one runner ingest what they find in their plans and more to 1 to 3 topics, some with contexts that end soon and new attempts; 1 to 3 digesters per topic decode by message type, add to one store and one cache, singly or in bulk, and are ended by failing handlers, cancellation or unsubscribing and resumed; then concurrent linking from the cache and concurrent deletion; every execution is non-trivial"
	register("X02",
		&Part{Name: "pipeline", Engine: Sim, Perturb: true, Quick: 5000, Thorough: 200000, Run: pipeline, Rule: rule + "; under perturbed schedules and virtual time"},
		&Part{Name: "race-pipeline", Engine: Race, Quick: 1000, Thorough: 40000, Run: pipeline, Rule: rule + "; under the race detector"},
	)
}
