package worker

import (
	"context"
	"fmt"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
)

// Attributes of the user's own may be unreadable for a while. What could not be copied is not passed off as a copy.

// flaky are attributes that cannot be read while they are broken.
type flaky struct {
	myAttrs
	broken, keys bool
	bad          string
}

func (a *flaky) Keys(ctx context.Context) ([]string, error) {
	if a.broken && a.keys {
		return nil, errBadAttrs
	}
	return a.myAttrs.Keys(ctx)
}

func (a *flaky) Get(ctx context.Context, k string) (string, error) {
	if a.broken && k == a.bad {
		return "", errBadAttrs
	}
	return a.myAttrs.Get(ctx, k)
}

func (x *Exec) flaky() *flaky {
	m := x.AttrMap()
	m["bad"] = "x"
	return &flaky{myAttrs: myAttrs{m}, keys: x.Chance(0.3), bad: sortedKeys(m)[x.IntN(len(m))]}
}

func attrsUnreadable(x *Exec) {
	for i := 1 + x.IntN(8); i > 0; i-- {
		f := x.flaky()
		f.broken = x.Chance(0.6)
		want := copyMap(f.m)
		x.Log("%s, broken %v, keys %v, %q", showMap(want), f.broken, f.keys, f.bad)
		c, err := memattrs.NewCopyFrom(bg, f)
		if f.broken != (err != nil) {
			x.Fail("A01", "unreadable", "NewCopyFrom of attributes with broken=%v = %v, %v", f.broken, c, err)
		}
		m, err2 := attrs.ToMap(bg, f)
		if f.broken != (err2 != nil) {
			x.Fail("A01", "unreadable", "ToMap of attributes with broken=%v = %v, %v", f.broken, m, err2)
		}
		if !sameMap(f.m, want) {
			x.Fail("A01", "changed", "attributes %s were changed to %s when they were copied", showMap(want), showMap(f.m))
		}
		if !f.broken {
			if got, err := attrsOf(c); err != nil || !sameMap(got, want) {
				x.Fail("A01", "copy", "copy of %s is %s (%v)", showMap(want), showMap(got), err)
			}
			if !sameMap(m, want) {
				x.Fail("A01", "map", "map of %s is %s", showMap(want), showMap(m))
			}
			continue
		}
		x.Count("unreadable_attributes", 1)
		x.NonTrivial()
	}
}

func subgraphUnreadable(x *Exec) {
	directed := x.Chance(0.5)
	r := &gRun{Exec: x, m: newModel(directed), us: x.Pool("u", 3+x.IntN(6)), last: "G05", ids: map[int64]bool{}, ents: map[string][]madeEntity{}}
	r.g = x.newGraph(directed)
	for _, u := range r.us {
		n := r.newNode(u, false)
		if n == nil {
			continue
		}
		if err := r.g.(graph.NodeAdder).AddNode(bg, n.node); err != nil {
			x.Fail("G02", "add", "AddNode(%q) = %v", u, err)
		}
		r.m.nodes[u] = n
	}
	fs := map[*mEdge]*flaky{}
	for i := 2 + x.IntN(3*len(r.us)); i > 0; i-- {
		u, v := r.uid(), r.uid()
		if u == v || r.m.edge(u, v) != nil {
			continue
		}
		f := x.flaky()
		e, err := r.g.Link(bg, x.UID(u), x.UID(v), graph.WithAttrs(f))
		if err != nil {
			x.Fail("G04", "link", "Link(%q, %q) = %v", u, v, err)
		}
		w := &mEdge{from: u, to: v, hasUID: true, uid: e.UID().String(), hasW: true, w: e.Weight(), attrs: f.m}
		r.m.edges[r.m.key(u, v)] = w
		fs[w] = f
	}
	r.check("G05", true)
	for step := 2 + x.IntN(6); step > 0; step-- {
		u, d := r.uid(), x.IntN(5)
		in := r.m.sub(u, d)
		unread := ""
		for _, a := range r.us {
			for _, b := range r.us {
				w := r.m.edges[[2]string{a, b}]
				if w == nil {
					continue
				}
				if fs[w].broken = x.Chance(0.15); fs[w].broken && in.nodes[a] != nil && in.nodes[b] != nil {
					unread += fmt.Sprintf(" %q-%q", a, b)
				}
			}
		}
		sg, err := r.g.SubGraph(bg, x.UID(u), d)
		x.Log("subgraph of %q within %d: %v, unreadable %s", u, d, err, unread)
		for _, f := range fs {
			f.broken = false
		}
		if unread == "" && err != nil {
			x.Fail("G05", "subgraph", "SubGraph(%q, %d) = %v", u, d, err)
		}
		if err == nil {
			// what was there to copy is there, all of it
			g, ok := sg.(memgraph.Graph)
			if !ok {
				x.Fail("G05", "subgraph", "the subgraph is no graph")
			}
			if s := x.checkGraph(g, in, r.us, false); s != "" {
				x.Fail("G05", "unreadable", "SubGraph(%q, %d) succeeded although attributes of%s could not be read: %s", u, d, unread, s)
			}
		}
		if unread != "" {
			x.Count("unreadable_attributes", 1)
			x.NonTrivial()
		}
		r.check("G05", false)
	}
}

func init() {
	register("A01", &Part{Name: "unreadable", Engine: Sim, Quick: 4000, Thorough: 100000, Run: attrsUnreadable,
		Rule: "attributes of the harness that cannot be read are copied and turned into maps, which has to fail; readable ones in between; non-trivial: some were unreadable"})
	register("G05", &Part{Name: "unreadable", Engine: Sim, Quick: 2000, Thorough: 80000, Run: subgraphUnreadable,
		Rule: "subgraphs of graphs with edges whose attributes cannot be read at times: they fail or are complete, the source is unchanged; non-trivial: an edge within the subgraph was unreadable"})
}
