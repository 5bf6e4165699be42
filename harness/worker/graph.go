package worker

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	gngraph "gonum.org/v1/gonum/graph"
)

// ---------------------------------------------------------------- reference model

type mNode struct {
	uid, typ, dotid string
	attrs           map[string]string
	node            graph.Node // the node given to the graph
	explicit        bool       // its numeric id was not chosen by the graph it is in
	own             bool       // its attributes are no one else's
}

type mEdge struct {
	uid, from, to string
	w             float64
	hasW, hasUID  bool
	attrs         map[string]string
}

type mGraph struct {
	directed bool
	nodes    map[string]*mNode
	edges    map[[2]string]*mEdge
}

func newModel(directed bool) *mGraph {
	return &mGraph{directed: directed, nodes: map[string]*mNode{}, edges: map[[2]string]*mEdge{}}
}

func (m *mGraph) key(u, v string) [2]string {
	if !m.directed && u > v {
		u, v = v, u
	}
	return [2]string{u, v}
}

func (m *mGraph) edge(u, v string) *mEdge { return m.edges[m.key(u, v)] }

func (m *mGraph) remove(u string) {
	delete(m.nodes, u)
	for k := range m.edges {
		if k[0] == u || k[1] == u {
			delete(m.edges, k)
		}
	}
}

func (m *mGraph) from(u string) []string {
	var r []string
	for v := range m.nodes {
		if v != u && m.edge(u, v) != nil {
			r = append(r, v)
		}
	}
	sort.Strings(r)
	return r
}

// reach returns the nodes within d edges of u.
func (m *mGraph) reach(u string, d int) map[string]bool {
	seen := map[string]bool{u: true}
	level := []string{u}
	for i := 0; i < d && len(level) > 0; i++ {
		var next []string
		for _, a := range level {
			for _, b := range m.from(a) {
				if !seen[b] {
					seen[b] = true
					next = append(next, b)
				}
			}
		}
		level = next
	}
	return seen
}

func (m *mGraph) clone() *mGraph {
	c := newModel(m.directed)
	for k, v := range m.nodes {
		n := *v
		c.nodes[k] = &n
	}
	for k, v := range m.edges {
		e := *v
		e.attrs = copyMap(v.attrs)
		c.edges[k] = &e
	}
	return c
}

// ------------------------------------------------------------------- monitors

// iGraph is the graph as its users see it.
type iGraph interface {
	graph.Graph
	Edges(context.Context) ([]graph.Edge, error)
}

func nodeUID(n graph.Node) (s string, err error) {
	if n == nil {
		return "", errors.New("nil node")
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("node unusable: %v", r)
		}
	}()
	return n.UID().String(), nil
}

func (x *Exec) checkNode(n graph.Node, want *mNode) string {
	u, err := nodeUID(n)
	if err != nil {
		return err.Error()
	}
	if u != want.uid {
		return fmt.Sprintf("unique id %q, want %q", u, want.uid)
	}
	if t, ok := n.(interface{ Type() string }); ok && t.Type() != want.typ {
		return fmt.Sprintf("node %q has entity type %q, want %q", u, t.Type(), want.typ)
	}
	if want.attrs != nil {
		a, err := attrsOf(n.Attrs())
		if err != nil {
			return err.Error()
		}
		if !sameMap(a, want.attrs) {
			return fmt.Sprintf("node %q has attributes %s, want %s", u, showMap(a), showMap(want.attrs))
		}
	}
	if d, ok := n.(interface{ DOTID() string }); ok && d.DOTID() != want.dotid {
		return fmt.Sprintf("node %q has DOT id %q, want %q", u, d.DOTID(), want.dotid)
	}
	return ""
}

func edgeEnds(e graph.Edge) (f, t graph.Node, err error) {
	if f, err = e.FromNode(); err != nil {
		return
	}
	t, err = e.ToNode()
	return
}

// checkEdge compares e, seen from u to v, with the model.
func (x *Exec) checkEdge(m *mGraph, e graph.Edge, u, v string, oriented bool) string {
	want := m.edge(u, v)
	if want == nil {
		return fmt.Sprintf("unexpected edge %q-%q", u, v)
	}
	f, t, err := edgeEnds(e)
	if err != nil {
		return err.Error()
	}
	fu, err := nodeUID(f)
	if err != nil {
		return "from end: " + err.Error()
	}
	tu, err := nodeUID(t)
	if err != nil {
		return "to end: " + err.Error()
	}
	if !(fu == u && tu == v) && (m.directed || oriented && false || !(fu == v && tu == u)) {
		return fmt.Sprintf("edge from %q to %q, want from %q to %q", fu, tu, u, v)
	}
	if s := x.checkNode(f, m.nodes[fu]); s != "" {
		return "from end of edge: " + s
	}
	if s := x.checkNode(t, m.nodes[tu]); s != "" {
		return "to end of edge: " + s
	}
	if e.UID() == nil {
		return "edge without unique id"
	}
	if want.hasUID {
		if s := e.UID().String(); s != want.uid {
			return fmt.Sprintf("edge %q-%q has unique id %q, want %q", u, v, s, want.uid)
		}
		if d, ok := e.(interface{ DOTID() string }); ok && d.DOTID() != want.uid {
			return fmt.Sprintf("edge %q-%q has DOT id %q, want %q", u, v, d.DOTID(), want.uid)
		}
	}
	if want.hasW && !sameFloat(e.Weight(), want.w) {
		return fmt.Sprintf("edge %q-%q has weight %v, want %v", u, v, e.Weight(), want.w)
	}
	a, err := attrsOf(e.Attrs())
	if err != nil {
		return err.Error()
	}
	if !sameMap(a, want.attrs) {
		return fmt.Sprintf("edge %q-%q has attributes %s, want %s", u, v, showMap(a), showMap(want.attrs))
	}
	// reversed, it is the same edge with its ends swapped
	if r, ok := e.(interface{ ReversedEdge() gngraph.Edge }); ok {
		r, ok := r.ReversedEdge().(graph.Edge)
		if !ok {
			return fmt.Sprintf("edge %q-%q reversed is none of the graph", u, v)
		}
		rf, rt, err := edgeEnds(r)
		if err != nil {
			return err.Error()
		}
		rfu, err := nodeUID(rf)
		if err != nil {
			return err.Error()
		}
		rtu, err := nodeUID(rt)
		if err != nil {
			return err.Error()
		}
		b, err := attrsOf(r.Attrs())
		if err != nil {
			return err.Error()
		}
		if rfu != tu || rtu != fu || r.UID() == nil || r.UID().String() != e.UID().String() || !sameFloat(r.Weight(), e.Weight()) || !sameMap(a, b) {
			return fmt.Sprintf("edge %q-%q reversed is another edge", u, v)
		}
		if d, ok := e.(interface{ DOTID() string }); ok {
			if d2, ok := r.(interface{ DOTID() string }); !ok || d.DOTID() != d2.DOTID() {
				return fmt.Sprintf("edge %q-%q reversed has another DOT id", u, v)
			}
		}
		f, t, err := edgeEnds(e)
		if err != nil {
			return err.Error()
		}
		if fu2, err := nodeUID(f); err != nil || fu2 != fu {
			return fmt.Sprintf("edge %q-%q was changed when it was reversed", u, v)
		}
		if tu2, err := nodeUID(t); err != nil || tu2 != tu {
			return fmt.Sprintf("edge %q-%q was changed when it was reversed", u, v)
		}
	}
	return ""
}

// checkGraph compares all views of g with the model.
func (x *Exec) checkGraph(g iGraph, m *mGraph, universe []string, full bool) string {
	ns, err := g.Nodes(bg)
	if err != nil {
		return fmt.Sprintf("Nodes: %v", err)
	}
	seen := map[string]bool{}
	for _, n := range ns {
		u, err := nodeUID(n)
		if err != nil {
			return "Nodes: " + err.Error()
		}
		if seen[u] {
			return fmt.Sprintf("Nodes lists %q twice", u)
		}
		seen[u] = true
		w := m.nodes[u]
		if w == nil {
			return fmt.Sprintf("Nodes lists %q, which is not in the graph", u)
		}
		if s := x.checkNode(n, w); s != "" {
			return "Nodes: " + s
		}
	}
	if len(seen) != len(m.nodes) {
		return fmt.Sprintf("Nodes lists %d nodes, want %d", len(seen), len(m.nodes))
	}
	es, err := g.Edges(bg)
	if err != nil {
		return fmt.Sprintf("Edges: %v", err)
	}
	got := map[[2]string]bool{}
	for _, e := range es {
		f, t, err := edgeEnds(e)
		if err != nil {
			return err.Error()
		}
		fu, err := nodeUID(f)
		if err != nil {
			return "Edges: from end: " + err.Error()
		}
		tu, err := nodeUID(t)
		if err != nil {
			return "Edges: to end: " + err.Error()
		}
		k := m.key(fu, tu)
		if got[k] {
			return fmt.Sprintf("Edges lists %q-%q twice", fu, tu)
		}
		got[k] = true
		if s := x.checkEdge(m, e, fu, tu, false); s != "" {
			return "Edges: " + s
		}
	}
	if len(got) != len(m.edges) {
		return fmt.Sprintf("Edges lists %d edges, want %d", len(got), len(m.edges))
	}
	us := universe
	if !full && len(us) > 6 {
		us = append([]string{}, us...)
		shuffle(x, us)
		us = us[:6]
	}
	for _, u := range us {
		n, err := g.Node(bg, x.UID(u))
		w := m.nodes[u]
		switch {
		case w == nil && !errors.Is(err, graph.ErrNodeNotFound):
			return fmt.Sprintf("Node(%q) = %v, want %v", u, err, graph.ErrNodeNotFound)
		case w != nil && err != nil:
			return fmt.Sprintf("Node(%q) = %v", u, err)
		case w != nil:
			if s := x.checkNode(n, w); s != "" {
				return fmt.Sprintf("Node(%q): %s", u, s)
			}
		}
		fr, err := g.From(bg, x.UID(u))
		if err != nil && w != nil {
			return fmt.Sprintf("From(%q): %v", u, err)
		}
		if err != nil && !errors.Is(err, graph.ErrNodeNotFound) {
			return fmt.Sprintf("From(%q): %v", u, err)
		}
		var fu []string
		for _, n := range fr {
			s, err := nodeUID(n)
			if err != nil {
				return fmt.Sprintf("From(%q): %v", u, err)
			}
			fu = append(fu, s)
			if m.nodes[s] == nil {
				return fmt.Sprintf("From(%q) reports %q, which is not in the graph", u, s)
			}
			if d := x.checkNode(n, m.nodes[s]); d != "" {
				return fmt.Sprintf("From(%q): %s", u, d)
			}
		}
		sort.Strings(fu)
		if a, b := strings.Join(fu, "\x01"), strings.Join(m.from(u), "\x01"); a != b {
			return fmt.Sprintf("From(%q) = %q, want %q", u, fu, m.from(u))
		}
		for _, v := range us {
			e, err := g.Edge(bg, x.UID(u), x.UID(v))
			we := m.edge(u, v)
			switch {
			case m.nodes[u] == nil || m.nodes[v] == nil:
				if !errors.Is(err, graph.ErrNodeNotFound) {
					return fmt.Sprintf("Edge(%q, %q) = %v, want %v", u, v, err, graph.ErrNodeNotFound)
				}
			case we == nil:
				if err == nil || !(errors.Is(err, graph.ErrEdgeNotExist) || errors.Is(err, graph.ErrEdgeNotFound)) {
					return fmt.Sprintf("Edge(%q, %q) = %v, want %v", u, v, err, graph.ErrEdgeNotExist)
				}
			case err != nil:
				return fmt.Sprintf("Edge(%q, %q) = %v", u, v, err)
			default:
				if s := x.checkEdge(m, e, u, v, true); s != "" {
					return fmt.Sprintf("Edge(%q, %q): %s", u, v, s)
				}
			}
		}
	}
	x.Count("view_comparisons", 1)
	return ""
}

// ------------------------------------------------------------------- workload

type subSnap struct {
	g graph.Graph
	m *mGraph
}

type gRun struct {
	*Exec
	g    memgraph.Graph
	m    *mGraph
	us   []string
	pool []*mNode // created nodes, added or not
	subs []*subSnap
	// shared says that others are using the nodes
	shared bool
	ver    int
	last   string // properties the last mutation is about
	// numeric ids of the nodes created so far
	ids   map[int64]bool
	maxID int64
	ents  map[string][]madeEntity // the entities nodes were made of
}

// madeEntity is an entity a node was made of.
type madeEntity struct {
	e   anyEntity
	typ string
}

func (x *Exec) newGraph(directed bool, opts ...graph.Option) memgraph.Graph {
	if x.Chance(0.3) {
		opts = append(opts, graph.WithWeight(x.Weight()))
	}
	if directed {
		g, err := memgraph.NewWDG(opts...)
		if err != nil {
			x.Fail("G01", "new", "NewWDG: %v", err)
		}
		return g
	}
	g, err := memgraph.NewWUG(opts...)
	if err != nil {
		x.Fail("G01", "new", "NewWUG: %v", err)
	}
	return g
}

func (r *gRun) uid() string { return r.us[r.IntN(len(r.us))] }

// present returns the id of a node of the graph with good probability.
func (r *gRun) present() string {
	if len(r.m.nodes) > 0 && r.Chance(0.85) {
		k := sortedKeys(r.m.nodes)
		return k[r.IntN(len(k))]
	}
	return r.uid()
}

func (r *gRun) check(props string, full bool) {
	if s := r.checkGraph(r.g, r.m, r.us, full); s != "" {
		r.Fail(props, "view", "%s", s)
	}
}

func (r *gRun) newNode(u string, explicit bool) *mNode {
	r.ver++
	typ := r.Typ(r.ver)
	var ent anyEntity
	own := false
	if old := r.ents[u]; len(old) > 0 && r.Chance(0.25) {
		// several nodes of one entity
		o := old[r.IntN(len(old))]
		ent, typ = o.e, o.typ
	} else {
		ent = r.Entity(u, typ, r.AttrMap())
		if own = r.Chance(0.3); !own {
			r.ents[u] = append(r.ents[u], madeEntity{ent, typ})
		}
	}
	w := &mNode{uid: u, typ: typ, explicit: explicit, own: own}
	var opts []graph.Option
	w.dotid = u
	if d, ok := ent.(interface{ DOTID() string }); ok {
		w.dotid = d.DOTID()
	}
	if r.Chance(0.3) {
		d := r.Str()
		if r.Chance(0.3) {
			d = "same"
		}
		if d != "" {
			w.dotid = d
			opts = append(opts, graph.WithDOTID(d))
		}
	}
	if r.Chance(0.5) {
		w.attrs, w.own = r.AttrMap(), true
		opts = append(opts, graph.WithAttrs(r.Attrs(w.attrs)))
	}
	if explicit {
		// an id no node created so far has, close to those the graph is about to hand out
		id := r.maxID + int64(r.IntN(5))
		switch r.IntN(6) {
		case 0:
			id = -id
		case 1:
			id = 0
		case 2:
			id += 1 << 40
		}
		for r.ids[id] {
			id++
		}
		// or that of the node it is going to replace: they are never in the graph at the same time
		if old := r.m.nodes[u]; old != nil && r.Chance(0.5) {
			if n, ok := old.node.(interface{ ID() int64 }); ok {
				id = n.ID()
			}
		}
		r.Log("memory.NewNode(%d, %q, %s)", id, u, typ)
		n, err := memgraph.NewNode(id, ent, opts...)
		if err != nil {
			r.Fail("G01 G02", "newnode", "NewNode: %v", err)
		}
		w.node = n
	} else {
		r.Log("NewNode(%q, %s)", u, typ)
		n, err := r.g.NewNode(bg, ent, opts...)
		if err != nil {
			r.Fail("G01 G02", "newnode", "NewNode: %v", err)
		}
		w.node = n
	}
	if n, ok := w.node.(interface{ ID() int64 }); ok {
		r.ids[n.ID()] = true
		if n.ID() > r.maxID && n.ID() < 1<<32 {
			r.maxID = n.ID()
		}
	}
	if s := r.checkNode(w.node, w); s != "" {
		r.Fail("G01 G02", "newnode", "NewNode(%q): %s", u, s)
	}
	if w.attrs == nil {
		// what a node without given attributes holds is not specified, but it must not change
		a, err := attrsOf(w.node.Attrs())
		if err != nil {
			r.Fail("G01 G02", "newnode", "NewNode(%q): %v", u, err)
		}
		w.attrs = a
	}
	return w
}

func (r *gRun) addNode(w *mNode, upsert bool) {
	props := "G01 G02"
	if r.m.nodes[w.uid] == nil {
		props += " G03" // a node added again has no edges
	}
	r.Log("AddNode(%q, %s, upsert=%v)", w.uid, w.typ, upsert)
	var opts []graph.Option
	if upsert {
		opts = append(opts, graph.WithUpsert())
	}
	err := r.g.AddNode(bg, w.node, opts...)
	_, there := r.m.nodes[w.uid]
	switch {
	case there && !upsert:
		if !errors.Is(err, graph.ErrDuplicateNode) {
			r.Fail(props, "duplicate", "AddNode of present %q = %v, want %v", w.uid, err, graph.ErrDuplicateNode)
		}
	case err != nil:
		r.Fail(props, "add", "AddNode(%q) = %v", w.uid, err)
	default:
		r.m.nodes[w.uid] = w
	}
	r.last = props
	r.check(props, false)
}

// setAttr sets an attribute of a node or an edge of the graph, which is that one's only.
func (r *gRun) setAttr() {
	k, v := r.Str(), r.Str()
	if r.Chance(0.4) {
		k = plainValues[r.IntN(len(plainValues))]
	}
	if len(r.m.edges) > 0 && r.Chance(0.4) {
		es, err := r.g.(iGraph).Edges(bg)
		if err != nil || len(es) == 0 {
			return
		}
		e := es[r.IntN(len(es))]
		f, t, err := edgeEnds(e)
		if err != nil {
			return
		}
		w := r.m.edge(f.UID().String(), t.UID().String())
		if w == nil {
			return
		}
		r.Log("Set(%q, %q) on the edge %q to %q", k, v, w.from, w.to)
		if err := e.Attrs().Set(bg, k, v); err != nil {
			r.Fail("A01", "set", "Set(%q, %q) = %v", k, v, err)
		}
		w.attrs[k] = v
	} else {
		w := r.m.nodes[r.present()]
		if w == nil || !w.own || r.shared {
			return
		}
		n, err := r.g.Node(bg, r.UID(w.uid))
		if err != nil {
			r.Fail("G01", "get", "Node(%q) = %v", w.uid, err)
		}
		r.Log("Set(%q, %q) on the node %q", k, v, w.uid)
		if err := n.Attrs().Set(bg, k, v); err != nil {
			r.Fail("A01", "set", "Set(%q, %q) = %v", k, v, err)
		}
		w.attrs[k] = v
		r.subs = nil // whether subgraphs show this is not specified
	}
	r.Count("attributes_set_later", 1)
	r.check("G01 "+r.last, true)
}

// step performs one operation. The weights select: new node, add from pool, new and add, upsert, remove, link, unlink, query, subgraph, odd.
func (r *gRun) step(w [10]int) {
	if r.Chance(0.04) {
		r.setAttr()
		return
	}
	switch r.Pick(w[:]...) {
	case 0:
		if len(r.pool) < 400 {
			r.pool = append(r.pool, r.newNode(r.uid(), false))
			if r.Chance(0.3) {
				r.check("G01 G02", false)
			}
		}
	case 1:
		if len(r.pool) > 0 {
			r.addNode(r.pool[r.IntN(len(r.pool))], r.Chance(0.2))
		}
	case 2:
		explicit := r.Chance(0.15)
		n := r.newNode(r.uid(), explicit)
		if !explicit && r.Chance(0.3) {
			r.pool = append(r.pool, n)
		}
		r.addNode(n, r.Chance(0.2))
	case 3:
		var n *mNode
		if len(r.pool) > 0 && r.Chance(0.4) {
			n = r.pool[r.IntN(len(r.pool))]
		} else {
			n = r.newNode(r.present(), r.Chance(0.25))
		}
		r.addNode(n, true)
	case 4:
		u := r.uid()
		r.Log("RemoveNode(%q)", u)
		if err := r.g.RemoveNode(bg, r.UID(u)); err != nil {
			r.Fail("G01 G03", "remove", "RemoveNode(%q) = %v", u, err)
		}
		gone := r.m.nodes[u]
		r.m.remove(u)
		r.last = "G01 G03"
		r.check(r.last, r.Chance(0.3))
		if gone != nil && !gone.explicit && r.Chance(0.25) {
			// the very same node comes back, at once or later
			r.pool = append(r.pool, gone)
			if r.Chance(0.6) {
				r.addNode(gone, r.Chance(0.2))
				r.check(r.last, true)
			}
		}
	case 5:
		r.link(r.present(), r.present())
	case 6:
		u, v := r.present(), r.present()
		if len(r.m.edges) > 0 && r.Chance(0.6) {
			var ks [][2]string
			for k := range r.m.edges {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i][0]+"\x01"+ks[i][1] < ks[j][0]+"\x01"+ks[j][1] })
			k := ks[r.IntN(len(ks))]
			u, v = k[0], k[1]
			if r.Chance(0.4) {
				u, v = v, u
			}
		}
		r.Log("Unlink(%q, %q)", u, v)
		if err := r.g.Unlink(bg, r.UID(u), r.UID(v)); err != nil {
			r.Fail("G01 G03", "unlink", "Unlink(%q, %q) = %v", u, v, err)
		}
		delete(r.m.edges, r.m.key(u, v))
		r.last = "G01 G03"
		r.check(r.last, r.Chance(0.3))
	case 7:
		// queries only: nothing changes
		r.check("G01 "+r.last, true)
	case 8:
		r.subgraph(r.present(), r.Pick(2, 4, 4, 3, 1, 1))
	case 9:
		r.odd()
	}
}

func (r *gRun) link(u, v string) {
	props := "G01 G04"
	w := &mEdge{from: u, to: v, attrs: map[string]string{}}
	var opts []graph.Option
	if r.Chance(0.5) {
		w.hasUID, w.uid = true, r.Str()
		if r.Chance(0.7) {
			w.uid += "#"
		}
		opts = append(opts, graph.WithUID(r.UID(w.uid)))
	}
	if r.Chance(0.3) {
		if d := r.Str(); d != "" {
			w.hasUID, w.uid = true, d
			opts = append(opts, graph.WithDOTID(d))
		}
	}
	if r.Chance(0.7) {
		w.hasW, w.w = true, r.Weight()
		opts = append(opts, graph.WithWeight(w.w))
	}
	if r.Chance(0.6) {
		w.attrs = r.AttrMap()
		opts = append(opts, graph.WithAttrs(r.Attrs(w.attrs)))
	}
	shuffle(r.Exec, opts)
	r.Log("Link(%q, %q, uid=%v %q, weight=%v %v, attrs=%s)", u, v, w.hasUID, w.uid, w.hasW, w.w, showMap(w.attrs))
	e, err := r.g.Link(bg, r.UID(u), r.UID(v), opts...)
	switch {
	case r.m.nodes[u] == nil || r.m.nodes[v] == nil:
		if !errors.Is(err, graph.ErrNodeNotFound) {
			r.Fail(props, "link-unknown", "Link(%q, %q) = %v, want %v", u, v, err, graph.ErrNodeNotFound)
		}
	case u == v:
		if err == nil {
			r.Fail(props, "link-self", "Link(%q, %q) succeeded", u, v)
		}
	case err != nil:
		r.Fail(props, "link", "Link(%q, %q) = %v", u, v, err)
	default:
		if r.m.edge(u, v) == nil {
			r.m.edges[r.m.key(u, v)] = w
			if !w.hasUID {
				if e.UID() == nil || e.UID().String() == "" {
					r.Fail(props, "link", "Link(%q, %q): edge without unique id", u, v)
				}
				w.hasUID, w.uid = true, e.UID().String()
			}
			if !w.hasW {
				w.hasW, w.w = true, e.Weight()
			}
		}
		if s := r.checkEdge(r.m, e, u, v, true); s != "" {
			r.Fail(props, "link", "Link(%q, %q): %s", u, v, s)
		}
	}
	r.last = props
	r.check(props, r.Chance(0.3))
}

type notANode struct{ u uuid.UID }

func (n notANode) UID() uuid.UID      { return n.u }
func (n notANode) Attrs() attrs.Attrs { return nil }

func (r *gRun) odd() {
	switch r.IntN(2) {
	case 0:
		u := r.uid()
		r.Log("AddNode(foreign node %q)", u)
		if err := r.g.AddNode(bg, notANode{r.UID(u)}, graph.WithUpsert()); !errors.Is(err, graph.ErrInvalidNode) {
			r.Fail("G01", "foreign", "AddNode of a foreign node = %v, want %v", err, graph.ErrInvalidNode)
		}
		r.check("G01 G02", false)
	case 1:
		// a node whose numeric id is taken by another node
		ks := sortedKeys(r.m.nodes)
		if len(ks) == 0 {
			return
		}
		o := ks[r.IntN(len(ks))]
		on, ok := r.m.nodes[o].node.(interface{ ID() int64 })
		u := r.uid()
		if !ok || u == o {
			return
		}
		r.Log("AddNode(%q with the numeric id of %q)", u, o)
		n, err := memgraph.NewNode(on.ID(), r.Entity(u, "collide", nil))
		if err != nil {
			r.Fail("G02", "newnode", "NewNode: %v", err)
		}
		var opts []graph.Option
		if r.Chance(0.5) {
			opts = append(opts, graph.WithUpsert())
		}
		paniced := false
		func() {
			defer func() {
				if recover() != nil {
					paniced = true
				}
			}()
			err = r.g.AddNode(bg, n, opts...)
		}()
		if !paniced && err == nil {
			r.Fail("G01 G02", "collision", "AddNode of %q with the numeric id of %q succeeded", u, o)
		}
		r.check("G01 G02", true)
	}
}

// ------------------------------------------------------------------- subgraphs

func (m *mGraph) sub(u string, d int) *mGraph {
	in := m.reach(u, d)
	s := newModel(true)
	for v := range in {
		n := *m.nodes[v]
		n.explicit = true
		s.nodes[v] = &n
	}
	for a := range in {
		for b := range in {
			if a == b {
				continue
			}
			if e := m.edge(a, b); e != nil {
				s.edges[[2]string{a, b}] = &mEdge{from: a, to: b, w: e.w, hasW: e.hasW, attrs: copyMap(e.attrs)}
			}
		}
	}
	return s
}

func (r *gRun) checkSub(s *subSnap, when string) {
	if g, ok := s.g.(iGraph); ok {
		if d := r.checkGraph(g, s.m, r.us, len(r.us) < 12); d != "" {
			r.Fail("G05", "subgraph", "subgraph (%s): %s", when, d)
		}
	}
}

// subOpts are options of a subgraph. They are about the subgraph, not its nodes and edges.
func (r *gRun) subOpts() []graph.Option {
	var opts []graph.Option
	if r.Chance(0.2) {
		opts = append(opts, graph.WithUID(r.UID(r.Str()+"sg")))
	}
	if r.Chance(0.15) {
		opts = append(opts, graph.WithDOTID(r.Str()+"sg"))
	}
	if r.Chance(0.15) {
		opts = append(opts, graph.WithAttrs(r.Attrs(map[string]string{"sub": "graph"})))
	}
	if r.Chance(0.15) {
		opts = append(opts, graph.WithWeight(-1234))
	}
	return opts
}

func (r *gRun) subgraph(u string, d int) {
	r.Log("SubGraph(%q, %d)", u, d)
	sg, err := r.g.SubGraph(bg, r.UID(u), d, r.subOpts()...)
	if r.m.nodes[u] == nil {
		if !errors.Is(err, graph.ErrNodeNotFound) {
			r.Fail("G05", "subgraph", "SubGraph(%q) = %v, want %v", u, err, graph.ErrNodeNotFound)
		}
		return
	}
	if err != nil {
		r.Fail("G05", "subgraph", "SubGraph(%q, %d) = %v", u, d, err)
	}
	r.Count("subgraphs", 1)
	s := &subSnap{sg, r.m.sub(u, d)}
	r.Count("subgraph_edges", len(s.m.edges))
	r.checkSub(s, "taken")
	r.check("G01 G05", false)
	if len(r.subs) < 3 {
		r.subs = append(r.subs, s)
	} else {
		r.subs[r.IntN(3)] = s
	}
	for i := r.IntN(3); i >= 0; i-- {
		r.mutateSub(s)
	}
}

// mutateSub changes the subgraph or attributes of its edges.
func (r *gRun) mutateSub(s *subSnap) {
	g, ok := s.g.(memgraph.Graph)
	if !ok {
		return
	}
	ks := sortedKeys(s.m.nodes)
	if len(ks) == 0 {
		return
	}
	switch r.Pick(3, 2, 2, 2, 3, 3, 2) {
	case 0:
		return
	case 5:
		// a node created and added, maybe in place of the one the subgraph has
		u := r.uid()
		src := r.g
		r.g = g
		w := r.newNode(u, false)
		r.g = src
		var opts []graph.Option
		if s.m.nodes[u] != nil {
			opts = append(opts, graph.WithUpsert())
		}
		r.Log(" sub.AddNode(%q, upsert=%v)", u, len(opts) > 0)
		if err := g.AddNode(bg, w.node, opts...); err != nil {
			r.Fail("G05", "subgraph", "AddNode on subgraph: %v", err)
		}
		s.m.nodes[u] = w
	case 6:
		// a subgraph of the subgraph
		v, d := ks[r.IntN(len(ks))], r.Pick(2, 4, 4, 3, 1, 1)
		r.Log(" sub.SubGraph(%q, %d)", v, d)
		sg, err := g.SubGraph(bg, r.UID(v), d, r.subOpts()...)
		if err != nil {
			r.Fail("G05", "subgraph", "SubGraph(%q, %d) of a subgraph = %v", v, d, err)
		}
		s2 := &subSnap{sg, s.m.sub(v, d)}
		r.checkSub(s2, "of a subgraph")
		r.Count("subgraphs_of_subgraphs", 1)
		r.subs[r.IntN(len(r.subs))] = s2
		if r.Chance(0.3) {
			r.mutateSub(s2)
		}
	case 1:
		v := ks[r.IntN(len(ks))]
		r.Log(" sub.RemoveNode(%q)", v)
		if err := g.RemoveNode(bg, r.UID(v)); err != nil {
			r.Fail("G05", "subgraph", "RemoveNode on subgraph: %v", err)
		}
		s.m.remove(v)
	case 2:
		a, b := ks[r.IntN(len(ks))], ks[r.IntN(len(ks))]
		if a == b || s.m.edge(a, b) != nil {
			return
		}
		r.Log(" sub.Link(%q, %q)", a, b)
		if _, err := g.Link(bg, r.UID(a), r.UID(b), graph.WithWeight(77)); err != nil {
			r.Fail("G05", "subgraph", "Link on subgraph: %v", err)
		}
		s.m.edges[[2]string{a, b}] = &mEdge{from: a, to: b, w: 77, hasW: true, attrs: map[string]string{}}
	case 3:
		a, b := ks[r.IntN(len(ks))], ks[r.IntN(len(ks))]
		r.Log(" sub.Unlink(%q, %q)", a, b)
		if err := g.Unlink(bg, r.UID(a), r.UID(b)); err != nil {
			r.Fail("G05", "subgraph", "Unlink on subgraph: %v", err)
		}
		delete(s.m.edges, [2]string{a, b})
	case 4:
		es, err := g.Edges(bg)
		if err != nil || len(es) == 0 {
			return
		}
		e := es[r.IntN(len(es))]
		f, t, err := edgeEnds(e)
		if err != nil {
			return
		}
		r.Log(" sub edge %q-%q Set", f.UID(), t.UID())
		if err := e.Attrs().Set(bg, "changed", "in subgraph"); err != nil {
			r.Fail("G05", "subgraph", "Set: %v", err)
		}
		s.m.edges[[2]string{f.UID().String(), t.UID().String()}].attrs["changed"] = "in subgraph"
	}
	r.checkSub(s, "modified")
	r.check("G01 G05", len(r.us) < 12)
}

func (r *gRun) setEdgeAttr() {
	es, err := r.g.Edges(bg)
	if err != nil || len(es) == 0 {
		return
	}
	e := es[r.IntN(len(es))]
	f, t, err := edgeEnds(e)
	if err != nil {
		return
	}
	k := fmt.Sprintf("k%d", r.IntN(3))
	v := fmt.Sprintf("v%d", r.IntN(1000))
	r.Log("edge %q-%q Set(%q, %q)", f.UID(), t.UID(), k, v)
	if err := e.Attrs().Set(bg, k, v); err != nil {
		r.Fail("G01", "set", "Set: %v", err)
	}
	r.m.edge(f.UID().String(), t.UID().String()).attrs[k] = v
	r.check("G01 G05", false)
}

func graphSeq(w [10]int, minLen, maxLen int) func(x *Exec) {
	return func(x *Exec) {
		directed := x.Chance(0.5)
		nu := 2 + x.IntN(6)
		steps := x.More(minLen + x.IntN(maxLen-minLen))
		if x.Big {
			nu, steps = 20+x.IntN(60), min(steps*6, 400)
		}
		r := &gRun{Exec: x, m: newModel(directed), us: x.Pool("u", nu), last: "G01", ids: map[int64]bool{}, ents: map[string][]madeEntity{}}
		x.Log("directed=%v ids=%d steps=%d", directed, nu, steps)
		r.g = x.newGraph(directed)
		for i := 0; i < steps; i++ {
			r.step(w)
			if w[8] > 0 && x.Chance(0.1) {
				r.setEdgeAttr()
			}
			if len(r.subs) > 0 && x.Chance(0.15) {
				for _, s := range r.subs {
					r.checkSub(s, "later")
				}
			}
		}
		for _, s := range r.subs {
			r.checkSub(s, "finally")
		}
		r.check("G01 "+r.last, true)
		x.Count("operations", steps)
		if len(r.m.nodes) > 1 || len(r.m.edges) > 0 {
			x.NonTrivial()
		}
	}
}

// subgraphRace works on a graph and on subgraphs of it at once, each by one goroutine: they are independent.
func subgraphRace(x *Exec) {
	directed := x.Chance(0.5)
	r := &gRun{Exec: x, m: newModel(directed), us: x.Pool("u", 3+x.IntN(5)), last: "G05", ids: map[int64]bool{}, ents: map[string][]madeEntity{}}
	r.g = x.newGraph(directed)
	for i := 0; i < 12+x.IntN(20); i++ {
		r.step([10]int{0, 0, 14, 2, 1, 40, 2, 0, 0, 0})
	}
	if len(r.m.nodes) == 0 {
		return
	}
	rs := []*gRun{r}
	for i := 1 + x.IntN(3); i > 0; i-- {
		from := rs[x.IntN(len(rs))]
		u := sortedKeys(from.m.nodes)[x.IntN(len(from.m.nodes))]
		d := x.IntN(4)
		sg, err := from.g.SubGraph(bg, x.UID(u), d, r.subOpts()...)
		if err != nil {
			x.Fail("G05", "subgraph", "SubGraph(%q, %d) = %v", u, d, err)
		}
		g, ok := sg.(memgraph.Graph)
		if !ok {
			return
		}
		x.Log("subgraph of %q within %d", u, d)
		rs = append(rs, &gRun{m: from.m.sub(u, d), g: g, us: r.us, last: "G05"})
	}
	used := map[int64]bool{}
	for id := range r.ids {
		used[id] = true
	}
	x.parallel(len(rs), func(i int, y *Exec) {
		w := &gRun{Exec: y, m: rs[i].m, g: rs[i].g, us: r.us, last: "G05", shared: true, ids: map[int64]bool{}, maxID: r.maxID, ents: map[string][]madeEntity{}}
		for id := range used {
			w.ids[id] = true
		}
		for k := 0; k < 15; k++ {
			w.step([10]int{1, 1, 14, 4, 3, 14, 6, 0, 1, 0})
			if y.Chance(0.2) {
				w.setEdgeAttr()
			}
		}
		w.check("G05", true)
		y.Count("operations", 15)
	})
	x.NonTrivial()
}

func init() {
	// weights: new node, add from pool, new+add, upsert, remove, link, unlink, query, subgraph, odd
	rule := "random operation sequences on a fresh directed or undirected graph compared after every operation, in all views, with an abstract graph; non-trivial: ends with more than one node or an edge"
	register("G01", &Part{Name: "model", Engine: Sim, Quick: 12000, Thorough: 400000, Rule: rule, Run: graphSeq([10]int{4, 6, 14, 6, 8, 26, 12, 4, 2, 1}, 4, 50)})
	register("G02", &Part{Name: "model-add", Engine: Sim, Quick: 12000, Thorough: 400000, Rule: rule, Run: graphSeq([10]int{14, 16, 14, 18, 8, 16, 3, 3, 0, 4}, 4, 50)})
	register("G03", &Part{Name: "model-remove", Engine: Sim, Quick: 12000, Thorough: 400000, Rule: rule, Run: graphSeq([10]int{2, 4, 18, 3, 18, 30, 22, 2, 0, 0}, 4, 60)})
	register("G04", &Part{Name: "model-link", Engine: Sim, Quick: 12000, Thorough: 400000, Rule: rule, Run: graphSeq([10]int{1, 2, 14, 4, 4, 60, 10, 3, 0, 0}, 4, 60)})
	register("G05", &Part{Name: "race-independent", Engine: Race, Quick: 1500, Thorough: 60000, Run: subgraphRace,
		Rule: "a random graph and 1 to 3 subgraphs (also of subgraphs) of it, each worked on by its own goroutine at the same time under the race detector and compared with its own model; non-trivial: the graph is not empty"})
	register("G05", &Part{Name: "model-subgraph", Engine: Sim, Quick: 12000, Thorough: 400000, Rule: rule, Run: graphSeq([10]int{1, 1, 16, 3, 3, 40, 4, 0, 30, 0}, 6, 60)})
}
