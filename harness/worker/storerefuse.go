package worker

import (
	"context"
	"errors"
	"fmt"

	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// A graph of the user's own may fail. What a store reports as done is done, and what its graph refused is reported.

// refusing is a graph that refuses one operation on one node or pair.
type refusing struct {
	memgraph.Graph
	op, a, b string
	err      error
	used     bool
}

func (g *refusing) refuse(op, a, b string) bool {
	if g.op != op || g.a != a || g.b != b {
		return false
	}
	g.used = true
	return true
}

func (g *refusing) NewNode(ctx context.Context, e graph.Entity, opts ...graph.Option) (graph.Node, error) {
	if g.refuse("new", e.UID().String(), "") {
		return nil, g.err
	}
	return g.Graph.NewNode(ctx, e, opts...)
}

func (g *refusing) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) error {
	if g.refuse("add", n.UID().String(), "") {
		return g.err
	}
	return g.Graph.AddNode(ctx, n, opts...)
}

func (g *refusing) RemoveNode(ctx context.Context, u uuid.UID, opts ...graph.Option) error {
	if g.refuse("remove", u.String(), "") {
		return g.err
	}
	return g.Graph.RemoveNode(ctx, u, opts...)
}

func (g *refusing) Link(ctx context.Context, f, t uuid.UID, opts ...graph.Option) (graph.Edge, error) {
	if g.refuse("link", f.String(), t.String()) {
		return nil, g.err
	}
	return g.Graph.Link(ctx, f, t, opts...)
}

func (g *refusing) Unlink(ctx context.Context, f, t uuid.UID, opts ...graph.Option) error {
	if g.refuse("unlink", f.String(), t.String()) {
		return g.err
	}
	return g.Graph.Unlink(ctx, f, t, opts...)
}

func (g *refusing) Node(ctx context.Context, u uuid.UID) (graph.Node, error) {
	if g.refuse("node", u.String(), "") {
		return nil, g.err
	}
	return g.Graph.Node(ctx, u)
}

func storeRefused(x *Exec) {
	directed := x.Chance(0.5)
	g := &refusing{Graph: x.newGraph(directed)}
	s, err := memstore.NewStore(memstore.WithGraph(g))
	if err != nil {
		x.Fail("S01", "new", "NewStore: %v", err)
	}
	r := &sRun{Exec: x, s: s, m: newModel(directed), us: x.Pool("u", 4+x.IntN(6)), ent: map[*mNode]store.Entity{}}
	// some are stored and some of them linked
	for _, u := range r.us {
		if x.Chance(0.6) {
			w := r.newEntity(u)
			if err := s.Add(bg, r.ent[w], store.WithUpsert()); err != nil {
				x.Fail("S01 S02", "add", "Add(%q) = %v", u, err)
			}
			r.add(w, true, nil)
		}
	}
	for i := x.IntN(8); i > 0; i-- {
		u, v := r.uid(), r.uid()
		err := s.Link(bg, r.UID(u), r.UID(v))
		if want := r.link(u, v, nil); !okErr(err, want) {
			x.Fail("S01", "link", "Link(%q, %q) = %v, want %v", u, v, err, want)
		}
	}
	r.check(x.Prop, true)
	for step := 4 + x.IntN(12); step > 0; step-- {
		n := 1
		bulk := x.Chance(0.5)
		if bulk {
			n = 1 + x.IntN(5)
		}
		bad := x.IntN(n)
		g.err, g.used = fmt.Errorf("graph: refused %d", step), false
		if x.Chance(0.3) {
			g.err = x.ctxErr()
		}
		props := "S01"
		if bulk {
			props = "S01 S03"
		}
		var what string
		var got error
		switch x.IntN(5) {
		case 0, 1: // add
			upsert := x.Chance(0.4)
			var ws []*mNode
			var es []store.Entity
			seen := map[string]bool{}
			for i := 0; i < n; i++ {
				u := r.uid()
				if seen[u] || !upsert && r.m.nodes[u] != nil {
					continue
				}
				seen[u] = true
				w := r.newEntity(u)
				if w.uid != u {
					continue
				}
				ws, es = append(ws, w), append(es, r.ent[w])
			}
			if len(ws) == 0 {
				continue
			}
			bad %= len(ws)
			g.op, g.a, g.b = []string{"new", "add"}[x.IntN(2)], ws[bad].uid, ""
			var opts []store.Option
			if upsert {
				opts = append(opts, store.WithUpsert())
			}
			what = fmt.Sprintf("Add of %d, number %d refused (%s), upsert=%v", len(ws), bad, g.op, upsert)
			if bulk {
				got = s.BulkAdd(bg, es, opts...)
			} else {
				got = s.Add(bg, es[0], opts...)
			}
			for _, w := range ws {
				if g.used && w == ws[bad] {
					break
				}
				r.add(w, upsert, nil)
			}
		case 2: // delete
			var us []string
			for i := 0; i < n; i++ {
				us = append(us, r.uid())
			}
			g.op, g.a, g.b = "remove", us[bad], ""
			what = fmt.Sprintf("Delete(%q), %q refused", us, us[bad])
			var ids []uuid.UID
			for _, u := range us {
				ids = append(ids, r.UID(u))
			}
			if bulk {
				got = s.BulkDelete(bg, ids)
			} else {
				got = s.Delete(bg, ids[0])
			}
			for _, u := range us {
				if g.used && u == us[bad] {
					break
				}
				r.m.remove(u)
			}
		default: // link, unlink
			on := x.Chance(0.5)
			u := r.present()
			if r.m.nodes[u] == nil {
				continue
			}
			var vs []string
			for i := 0; i < 3*n && len(vs) < n; i++ {
				v := r.present()
				if r.m.nodes[v] == nil || u == v || !on && x.Chance(0.7) && r.m.edge(u, v) == nil {
					continue
				}
				vs = append(vs, v)
			}
			if len(vs) == 0 {
				continue
			}
			bad %= len(vs)
			if g.op = "unlink"; on {
				g.op = "link"
			}
			g.a, g.b = u, vs[bad]
			what = fmt.Sprintf("%s(%q, %q), %q refused", g.op, u, vs, vs[bad])
			to := make([]uuid.UID, len(vs))
			for i := range vs {
				to[i] = r.UID(vs[i])
			}
			switch {
			case on && bulk:
				got = s.BulkLink(bg, r.UID(u), to)
			case on:
				got = s.Link(bg, r.UID(u), to[0])
			case bulk:
				got = s.BulkUnlink(bg, r.UID(u), to)
			default:
				got = s.Unlink(bg, r.UID(u), to[0])
			}
			for _, v := range vs {
				if g.used && v == vs[bad] {
					break
				}
				if on {
					r.link(u, v, nil)
				} else {
					delete(r.m.edges, r.m.key(u, v))
				}
			}
		}
		x.Log("%s: %v, used %v", what, got, g.used)
		if g.used && !errors.Is(got, g.err) {
			x.Fail(props, "refused", "%s by the graph with %v, but returned %v", what, g.err, got)
		}
		if !g.used && got != nil {
			x.Fail(props, "refused", "%s, but not asked for, = %v", what, got)
		}
		if g.used {
			x.Count("refusals", 1)
			x.NonTrivial()
		}
		g.op = ""
		r.check(props, x.Chance(0.3))
		// a lookup the graph refuses is no entity that is not there
		if u := r.present(); r.m.nodes[u] != nil && x.Chance(0.3) {
			g.op, g.a, g.b, g.used = "node", u, "", false
			_, err := s.Get(bg, r.UID(u))
			if g.used && (!errors.Is(err, g.err) || errors.Is(err, store.ErrEntityNotFound)) {
				x.Fail("S01", "refused", "Get(%q), refused by the graph with %v, = %v", u, g.err, err)
			}
			g.used = false
			if _, err := s.BulkGet(bg, []uuid.UID{r.UID(u)}); g.used && (!errors.Is(err, g.err) || errors.Is(err, store.ErrEntityNotFound)) {
				x.Fail("S01 S03", "refused", "BulkGet(%q), refused by the graph with %v, = %v", u, g.err, err)
			}
			g.op = ""
		}
	}
}

// ctxErr is an error that components are tempted to take for their own.
func (x *Exec) ctxErr() error {
	return []error{context.Canceled, context.DeadlineExceeded, graph.ErrUnsupported, graph.ErrNotImplemented, errors.New("")}[x.IntN(5)]
}

func init() {
	for _, p := range []string{"S01", "S03"} {
		register(p, &Part{Name: "refused", Engine: Sim, Quick: 3000, Thorough: 100000, Run: storeRefused,
			Rule: "a store over a graph of the harness that refuses single operations with errors of all kinds, singly and in bulk; every entity and link compared with a model afterwards; non-trivial: an operation was refused"})
	}
}
