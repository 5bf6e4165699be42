package worker

import (
	"fmt"
	"math"

	"github.com/milosgajdos/netscrape/pkg/graph"
)

// Graphs much larger, denser or deeper than those of the random operation sequences.

// addQuiet adds n without comparing views.
func (r *gRun) addQuiet(n *mNode) {
	if err := r.g.AddNode(bg, n.node); err != nil {
		r.Fail("G01 G02", "add", "AddNode(%q) = %v", n.uid, err)
	}
	r.m.nodes[n.uid] = n
}

// linkQuiet links u and v without comparing views.
func (r *gRun) linkQuiet(u, v string) {
	w := &mEdge{from: u, to: v, hasW: true, w: float64(r.IntN(100)), attrs: map[string]string{}}
	opts := []graph.Option{graph.WithWeight(w.w)}
	if r.Chance(0.2) {
		w.attrs = map[string]string{"k": u}
		opts = append(opts, graph.WithAttrs(r.Attrs(w.attrs)))
	}
	e, err := r.g.Link(bg, r.UID(u), r.UID(v), opts...)
	if u == v {
		if err == nil {
			r.Fail("G01 G04", "link-self", "Link(%q, %q) succeeded", u, v)
		}
		return
	}
	if err != nil {
		r.Fail("G01 G04", "link", "Link(%q, %q) = %v", u, v, err)
	}
	if r.m.edge(u, v) == nil {
		r.m.edges[r.m.key(u, v)] = w
		w.hasUID, w.uid = true, e.UID().String()
	}
	if s := r.checkEdge(r.m, e, u, v, true); s != "" {
		r.Fail("G01 G04", "link", "Link(%q, %q): %s", u, v, s)
	}
}

func (r *gRun) viewLarge(props string, focus ...string) {
	us := append([]string{}, focus...)
	for i := 0; i < 8; i++ {
		us = append(us, r.us[r.IntN(len(r.us))])
	}
	if s := r.checkGraph(r.g, r.m, us, true); s != "" {
		r.Fail(props, "view", "%s", s)
	}
}

func (r *gRun) subLarge(u string, depth int) {
	r.Log("SubGraph(%q, %d)", u, depth)
	sg, err := r.g.SubGraph(bg, r.UID(u), depth, r.subOpts()...)
	if r.m.nodes[u] == nil {
		return
	}
	if err != nil {
		r.Fail("G05", "subgraph", "SubGraph(%q, %d) = %v", u, depth, err)
	}
	s := &subSnap{sg, r.m.sub(u, depth)}
	r.Count("subgraphs", 1)
	r.Count("subgraph_nodes", len(s.m.nodes))
	g, ok := sg.(iGraph)
	if !ok {
		return
	}
	us := []string{u}
	for i := 0; i < 6; i++ {
		us = append(us, r.us[r.IntN(len(r.us))])
	}
	if d := r.checkGraph(g, s.m, us, true); d != "" {
		r.Fail("G05", "subgraph", "subgraph within %d of %q: %s", depth, u, d)
	}
}

// graphLarge builds a graph of some shape, then thins it out and fills it again.
func graphLarge(props string, subs bool) func(x *Exec) {
	return func(x *Exec) {
		directed := x.Chance(0.5)
		r := &gRun{Exec: x, m: newModel(directed), last: props, ids: map[int64]bool{}, ents: map[string][]madeEntity{}}
		r.g = x.newGraph(directed)
		var pairs [][2]int
		pair := func(i, j int) {
			if x.Chance(0.5) {
				i, j = j, i
			}
			pairs = append(pairs, [2]int{i, j})
		}
		n := 0
		shape := x.Pick(3, 3, 2, 3, 2, 1)
		switch shape {
		case 0: // hubs
			n = 50 + x.IntN(500)
			if x.Chance(0.1) {
				n = x.scale(2500)
			}
			for i := 1; i < n; i++ {
				if x.Chance(0.7) {
					pairs = append(pairs, [2]int{0, i})
				} else {
					pair(0, i)
				}
				if x.Chance(0.1) {
					pair(i, 1+x.IntN(n-1))
				}
			}
		case 1: // a long chain with a few shortcuts
			n = 20 + x.IntN(400)
			if x.Chance(0.1) {
				n = x.scale(2500)
			}
			for i := 1; i < n; i++ {
				pairs = append(pairs, [2]int{i - 1, i})
			}
			for k := x.IntN(4); k > 0; k-- {
				pair(x.IntN(n), x.IntN(n))
			}
		case 2: // a grid
			k := 4 + x.IntN(14)
			n = k * k
			for i := 0; i < n; i++ {
				if i%k != 0 {
					pairs = append(pairs, [2]int{i - 1, i})
				}
				if i >= k {
					pairs = append(pairs, [2]int{i - k, i})
				}
			}
		case 3: // random
			n = 50 + x.IntN(300)
			for k := n * (1 + x.IntN(6)); k > 0; k-- {
				pair(x.IntN(n), x.IntN(n))
			}
		case 4: // dense
			n = 12 + x.IntN(30)
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if i != j && x.Chance(0.9) {
						pairs = append(pairs, [2]int{i, j})
					}
				}
			}
		case 5: // a tree
			n = 50 + x.IntN(400)
			k := 1 + x.IntN(6)
			for i := 1; i < n; i++ {
				pairs = append(pairs, [2]int{(i - 1) / k, i})
			}
		}
		for i := 0; i < n; i++ {
			r.us = append(r.us, fmt.Sprintf("n%d", i))
		}
		if x.Chance(0.2) {
			r.us = x.Pool("n", n)
		}
		x.Log("directed=%v shape=%d nodes=%d links=%d", directed, shape, n, len(pairs))
		order := x.Perm(n)
		if x.Chance(0.5) {
			// all are created before the first is added
			var ns []*mNode
			for _, i := range order {
				ns = append(ns, r.newNode(r.us[i], false))
			}
			shuffle(x, ns)
			for _, w := range ns {
				r.addQuiet(w)
			}
		} else {
			for _, i := range order {
				r.addQuiet(r.newNode(r.us[i], x.Chance(0.05)))
			}
		}
		r.viewLarge(props)
		if x.Chance(0.5) {
			shuffle(x, pairs)
		}
		for _, p := range pairs {
			r.linkQuiet(r.us[p[0]], r.us[p[1]])
		}
		hub := r.us[0]
		r.viewLarge(props, hub, r.us[n-1])
		if subs {
			for k := 1 + x.IntN(4); k > 0; k-- {
				depths := []int{0, 1, 2, 3, x.IntN(n), n - 1, n, n + 5, 1 << 20, math.MaxInt32}
				u := hub
				if x.Chance(0.5) {
					u = r.us[x.IntN(n)]
				}
				r.subLarge(u, depths[x.IntN(len(depths))])
			}
		}
		for round := x.IntN(3); round > 0; round-- {
			for k := x.IntN(n/2 + 1); k > 0; k-- {
				switch x.Pick(3, 3, 2, 3, 2) {
				case 0:
					u := r.us[x.IntN(n)]
					if u == hub && x.Chance(0.8) {
						continue
					}
					if err := r.g.RemoveNode(bg, r.UID(u)); err != nil {
						r.Fail("G01 G03", "remove", "RemoveNode(%q) = %v", u, err)
					}
					r.m.remove(u)
				case 1:
					p := pairs[x.IntN(len(pairs))]
					u, v := r.us[p[0]], r.us[p[1]]
					if err := r.g.Unlink(bg, r.UID(u), r.UID(v)); err != nil {
						r.Fail("G01 G03", "unlink", "Unlink(%q, %q) = %v", u, v, err)
					}
					delete(r.m.edges, r.m.key(u, v))
				case 2:
					u := r.us[x.IntN(n)]
					w := r.newNode(u, x.Chance(0.1))
					if err := r.g.AddNode(bg, w.node, graph.WithUpsert()); err != nil {
						r.Fail("G01 G02", "add", "AddNode(%q) = %v", u, err)
					}
					r.m.nodes[u] = w
				case 3:
					p := pairs[x.IntN(len(pairs))]
					u, v := r.us[p[0]], r.us[p[1]]
					if r.m.nodes[u] != nil && r.m.nodes[v] != nil {
						r.linkQuiet(u, v)
					}
				case 4:
					u, v := r.us[x.IntN(n)], r.us[x.IntN(n)]
					if r.m.nodes[u] != nil && r.m.nodes[v] != nil {
						r.linkQuiet(u, v)
					}
				}
			}
			if x.Chance(0.3) {
				// the node with the most edges
				deg := map[string]int{}
				for k := range r.m.edges {
					deg[k[0]]++
					deg[k[1]]++
				}
				u := hub
				for _, v := range r.us {
					if deg[v] > deg[u] {
						u = v
					}
				}
				if err := r.g.RemoveNode(bg, r.UID(u)); err != nil {
					r.Fail("G01 G03", "remove", "RemoveNode(%q) = %v", u, err)
				}
				r.m.remove(u)
			}
			r.viewLarge(props, hub, r.us[n-1])
			if subs {
				r.subLarge(hub, x.IntN(n))
			}
		}
		x.Count("large_nodes", len(r.m.nodes))
		x.Count("large_edges", len(r.m.edges))
		if n > 30 {
			x.NonTrivial()
		}
	}
}

func init() {
	rule := "graphs of up to 550 nodes shaped as hubs, chains, grids, trees, dense or random, built, thinned out and filled again, compared with an abstract graph between the phases; non-trivial: more than 30 nodes"
	for _, p := range []string{"G01", "G02", "G03", "G04"} {
		register(p, &Part{Name: "large", Engine: Sim, Quick: 200, Thorough: 6000, Rule: rule, Run: graphLarge(p+" G01", false)})
	}
	register("G05", &Part{Name: "large", Engine: Sim, Quick: 200, Thorough: 8000, Rule: rule, Run: graphLarge("G01 G05", true)})
}
