package worker

import (
	"errors"
	"fmt"

	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// wrapped is a graph which is not the library's own type.
type wrapped struct{ memgraph.Graph }

func (x *Exec) newStore() (*memstore.Memory, bool) {
	var opts []memstore.Option
	directed := false
	switch x.IntN(4) {
	case 0:
	case 1:
		g, err := memgraph.NewWDG()
		if err != nil {
			x.Fail("G01", "new", "NewWDG: %v", err)
		}
		directed = true
		opts = append(opts, memstore.WithGraph(g))
	case 2:
		g, err := memgraph.NewWUG()
		if err != nil {
			x.Fail("G01", "new", "NewWUG: %v", err)
		}
		opts = append(opts, memstore.WithGraph(g))
	case 3:
		g, err := memgraph.NewWDG()
		if err != nil {
			x.Fail("G01", "new", "NewWDG: %v", err)
		}
		directed = true
		opts = append(opts, memstore.WithGraph(&wrapped{g}))
	}
	if x.Chance(0.3) {
		opts = append(opts, memstore.WithUID(x.UID("the store")))
	}
	s, err := memstore.NewStore(opts...)
	if err != nil {
		x.Fail("S01", "new", "NewStore: %v", err)
	}
	return s, directed
}

type sRun struct {
	*Exec
	s   *memstore.Memory
	m   *mGraph
	us  []string
	old []*mNode // entities created so far; ent holds them
	ent map[*mNode]store.Entity
	ver int
}

func (r *sRun) uid() string { return r.us[r.IntN(len(r.us))] }

func (r *sRun) present() string {
	if len(r.m.nodes) > 0 && r.Chance(0.85) {
		k := sortedKeys(r.m.nodes)
		return k[r.IntN(len(k))]
	}
	return r.uid()
}

func (r *sRun) newEntity(u string) *mNode {
	if len(r.old) > 0 && r.Chance(0.1) {
		return r.old[r.IntN(len(r.old))]
	}
	r.ver++
	w := &mNode{uid: u, typ: r.Typ(r.ver), attrs: r.AttrMap(), dotid: u}
	e := r.Entity(u, w.typ, w.attrs)
	if d, ok := e.(interface{ DOTID() string }); ok {
		w.dotid = d.DOTID()
	}
	r.ent[w] = e
	r.old = append(r.old, w)
	return w
}

func (r *sRun) handle() iGraph {
	g, err := r.s.Graph()
	if err != nil {
		r.Fail("S01 S02 S03", "handle", "Graph() = %v", err)
	}
	ig, ok := g.(iGraph)
	if !ok {
		r.Fail("S01 S02 S03", "handle", "the graph handle does not list edges")
	}
	return ig
}

func (r *sRun) checkEntity(e store.Entity, w *mNode) string {
	if e == nil {
		return "nil entity"
	}
	if e.UID().String() != w.uid || e.Type() != w.typ {
		return fmt.Sprintf("entity %q of type %q, want %q of type %q", e.UID().String(), e.Type(), w.uid, w.typ)
	}
	a, err := attrsOf(e.Attrs())
	if err != nil {
		return err.Error()
	}
	if !sameMap(a, w.attrs) {
		return fmt.Sprintf("entity %q has attributes %s, want %s", w.uid, showMap(a), showMap(w.attrs))
	}
	return ""
}

func (r *sRun) check(props string, full bool) {
	us := r.us
	if !full && len(us) > 8 {
		us = append([]string{}, us...)
		shuffle(r.Exec, us)
		us = us[:8]
	}
	for _, u := range us {
		e, err := r.s.Get(bg, r.UID(u))
		w := r.m.nodes[u]
		switch {
		case w == nil && !errors.Is(err, store.ErrEntityNotFound):
			r.Fail(props, "get", "Get(%q) = %v, want %v", u, err, store.ErrEntityNotFound)
		case w != nil && err != nil:
			r.Fail(props, "get", "Get(%q) = %v", u, err)
		case w != nil:
			if s := r.checkEntity(e, w); s != "" {
				r.Fail(props, "get", "Get(%q): %s", u, s)
			}
		}
	}
	g := r.handle()
	for k, e := range r.m.edges {
		if e.hasUID {
			continue
		}
		ge, err := g.Edge(bg, r.UID(e.from), r.UID(e.to))
		if err != nil {
			r.Fail(props, "link", "graph handle: Edge(%q, %q) = %v", k[0], k[1], err)
		}
		e.hasUID, e.uid = true, ge.UID().String()
		e.hasW, e.w = true, ge.Weight()
	}
	if s := r.checkGraph(g, r.m, r.us, full); s != "" {
		r.Fail(props, "handle", "graph handle: %s", s)
	}
}

// addOpts returns the options of an add and what they mean.
func (r *sRun) addOpts(pUpsert float64) (opts []store.Option, upsert bool, attrs map[string]string) {
	if r.Chance(pUpsert) {
		upsert = true
		opts = append(opts, store.WithUpsert())
	}
	if r.Chance(0.3) {
		attrs = r.AttrMap()
		opts = append(opts, store.WithAttrs(r.Attrs(attrs)))
	}
	shuffle(r.Exec, opts)
	return
}

// add applies an add to the model and returns the error expected.
func (r *sRun) add(w *mNode, upsert bool, attrs map[string]string) error {
	if _, ok := r.m.nodes[w.uid]; ok && !upsert {
		return store.ErrAlreadyExists
	}
	n := *w
	if attrs != nil {
		n.attrs = attrs
	}
	r.m.nodes[w.uid] = &n
	return nil
}

var errAny = errors.New("any error")

func (r *sRun) link(u, v string, attrs map[string]string) error {
	switch {
	case r.m.nodes[u] == nil || r.m.nodes[v] == nil:
		return store.ErrEntityNotFound
	case u == v:
		return errAny
	case r.m.edge(u, v) == nil:
		r.m.edges[r.m.key(u, v)] = &mEdge{from: u, to: v, attrs: copyMap(attrs)}
	}
	return nil
}

func okErr(got, want error) bool {
	if want == errAny {
		return got != nil
	}
	if want == nil {
		return got == nil
	}
	return errors.Is(got, want)
}

// step performs one operation; weights: add, upsert, delete, link, unlink, bulk add, bulk get, bulk delete, bulk link, bulk unlink.
func (r *sRun) step(w [10]int) {
	max := 5
	if r.Big {
		max = 60
	}
	max = r.listMax(max)
	uidList := func(pick func() string) ([]string, []uuid.UID) {
		var ss []string
		var us []uuid.UID
		for i, n := 0, r.IntN(max+1); i < n; i++ {
			s := pick()
			ss = append(ss, s)
			us = append(us, r.UID(s))
		}
		return ss, us
	}
	linkOpts := func() (opts []store.Option, attrs map[string]string) {
		if r.Chance(0.5) {
			attrs = r.AttrMap()
			opts = append(opts, store.WithAttrs(r.Attrs(attrs)))
		}
		if r.Chance(0.1) {
			opts = append(opts, store.WithUpsert())
		}
		return
	}
	switch op := r.Pick(w[:]...); op {
	case 0, 1:
		p := 0.1
		if op == 1 {
			p = 1
		}
		opts, upsert, attrs := r.addOpts(p)
		u := r.uid()
		if op == 1 {
			u = r.present()
		}
		e := r.newEntity(u)
		r.Log("Add(%q %s, upsert=%v, attrs=%v)", e.uid, e.typ, upsert, attrs != nil)
		err := r.s.Add(bg, r.ent[e], opts...)
		if want := r.add(e, upsert, attrs); !okErr(err, want) {
			r.Fail("S01 S02", "add", "Add(%q, upsert=%v) = %v, want %v", e.uid, upsert, err, want)
		}
		r.check("S01 S02", r.Chance(0.3))
	case 2:
		u := r.uid()
		r.Log("Delete(%q)", u)
		if err := r.s.Delete(bg, r.UID(u)); err != nil {
			r.Fail("S01", "delete", "Delete(%q) = %v", u, err)
		}
		r.m.remove(u)
		r.check("S01", r.Chance(0.3))
	case 3:
		u, v := r.present(), r.present()
		opts, attrs := linkOpts()
		r.Log("Link(%q, %q, %s)", u, v, showMap(attrs))
		err := r.s.Link(bg, r.UID(u), r.UID(v), opts...)
		if want := r.link(u, v, attrs); !okErr(err, want) {
			r.Fail("S01", "link", "Link(%q, %q) = %v, want %v", u, v, err, want)
		}
		r.check("S01 S02", r.Chance(0.3))
	case 4:
		u, v := r.present(), r.present()
		r.Log("Unlink(%q, %q)", u, v)
		if err := r.s.Unlink(bg, r.UID(u), r.UID(v)); err != nil {
			r.Fail("S01", "unlink", "Unlink(%q, %q) = %v", u, v, err)
		}
		delete(r.m.edges, r.m.key(u, v))
		r.check("S01", r.Chance(0.3))
	case 5:
		opts, upsert, attrs := r.addOpts(0.4)
		var es []store.Entity
		var want error
		for i, n := 0, r.IntN(max+1); i < n; i++ {
			u := r.uid()
			if !upsert && r.m.nodes[u] != nil && r.Chance(0.7) {
				u = r.uid()
			}
			e := r.newEntity(u)
			r.Log("  bulk %q %s", e.uid, e.typ)
			es = append(es, r.ent[e])
			if want == nil {
				want = r.add(e, upsert, attrs)
			}
		}
		r.Log("BulkAdd(%d, upsert=%v, attrs=%v)", len(es), upsert, attrs != nil)
		if err := r.s.BulkAdd(bg, es, opts...); !okErr(err, want) {
			r.Fail("S03", "bulkadd", "BulkAdd = %v, want %v", err, want)
		}
		r.check("S03", r.Chance(0.3))
	case 6:
		pick := r.present
		if r.Chance(0.6) && len(r.m.nodes) > 0 {
			pick = func() string { k := sortedKeys(r.m.nodes); return k[r.IntN(len(k))] }
		}
		ss, us := uidList(pick)
		r.Log("BulkGet(%q)", ss)
		es, err := r.s.BulkGet(bg, us)
		var want error
		for _, s := range ss {
			if r.m.nodes[s] == nil {
				want = store.ErrEntityNotFound
			}
		}
		if !okErr(err, want) {
			r.Fail("S03", "bulkget", "BulkGet(%q) = %v, want %v", ss, err, want)
		}
		if err == nil {
			if len(es) != len(ss) {
				r.Fail("S03", "bulkget", "BulkGet(%q) returns %d entities", ss, len(es))
			}
			for i, e := range es {
				if d := r.checkEntity(e, r.m.nodes[ss[i]]); d != "" {
					r.Fail("S03", "bulkget", "BulkGet(%q)[%d]: %s", ss, i, d)
				}
			}
		}
		r.check("S01 S03", false)
	case 7:
		ss, us := uidList(r.uid)
		r.Log("BulkDelete(%q)", ss)
		if err := r.s.BulkDelete(bg, us); err != nil {
			r.Fail("S03", "bulkdelete", "BulkDelete(%q) = %v", ss, err)
		}
		for _, s := range ss {
			r.m.remove(s)
		}
		r.check("S03", r.Chance(0.3))
	case 8, 9:
		u := r.present()
		ss, us := uidList(func() string {
			for i := 0; i < 5; i++ {
				if v := r.present(); v != u || r.Chance(0.1) {
					return v
				}
			}
			return u
		})
		if op == 8 {
			opts, attrs := linkOpts()
			r.Log("BulkLink(%q, %q, %s)", u, ss, showMap(attrs))
			var want error
			for _, s := range ss {
				if want = r.link(u, s, attrs); want != nil {
					break
				}
			}
			if err := r.s.BulkLink(bg, r.UID(u), us, opts...); !okErr(err, want) {
				r.Fail("S03", "bulklink", "BulkLink(%q, %q) = %v, want %v", u, ss, err, want)
			}
		} else {
			r.Log("BulkUnlink(%q, %q)", u, ss)
			if err := r.s.BulkUnlink(bg, r.UID(u), us); err != nil {
				r.Fail("S03", "bulkunlink", "BulkUnlink(%q, %q) = %v", u, ss, err)
			}
			for _, s := range ss {
				delete(r.m.edges, r.m.key(u, s))
			}
		}
		r.check("S03", r.Chance(0.3))
	}
}

func storeSeq(w [10]int) func(x *Exec) {
	return func(x *Exec) {
		nu, steps := 2+x.IntN(6), x.More(4+x.IntN(40))
		if x.Big {
			nu, steps = 20+x.IntN(60), 150
		}
		s, directed := x.newStore()
		r := &sRun{Exec: x, s: s, m: newModel(directed), us: x.Pool("u", nu), ent: map[*mNode]store.Entity{}}
		x.Log("directed=%v ids=%q", directed, r.us)
		var g graph.Graph = r.handle()
		most := 0
		for i := 0; i < steps; i++ {
			r.step(w)
			if n := len(r.m.nodes) + len(r.m.edges); n > most {
				most = n
			}
		}
		r.check(x.Prop, true)
		// the handle given out at first shows the same
		if ig, ok := g.(iGraph); ok {
			if d := x.checkGraph(ig, r.m, r.us, false); d != "" {
				x.Fail("S01 S02 S03", "handle", "graph handle taken first: %s", d)
			}
		}
		x.Count("operations", steps)
		if most > 2 {
			x.NonTrivial()
		}
	}
}

func init() {
	// add, upsert, delete, link, unlink, bulk add, bulk get, bulk delete, bulk link, bulk unlink
	rule := "random operation sequences on a fresh store over its default, a directed, an undirected or a foreign graph, every id and all views of the graph handle compared with a model after every operation; non-trivial: entities and links were stored at a time"
	register("S01", &Part{Name: "model", Engine: Sim, Quick: 10000, Thorough: 400000, Rule: rule, Run: storeSeq([10]int{26, 6, 10, 26, 10, 5, 3, 3, 4, 2})})
	register("S02", &Part{Name: "model-upsert", Engine: Sim, Quick: 10000, Thorough: 400000, Rule: rule, Run: storeSeq([10]int{14, 34, 6, 26, 6, 5, 1, 1, 4, 1})})
	register("S03", &Part{Name: "model-bulk", Engine: Sim, Quick: 10000, Thorough: 400000, Rule: rule, Run: storeSeq([10]int{8, 3, 3, 8, 3, 22, 18, 10, 20, 12})})
}
