package worker

import (
	"errors"
	"fmt"
	"hash/fnv"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// ------------------------------------------------------------------ histories

// lop is a call: what it was asked, and how to do it.
type lop struct {
	kind   string
	a      []string
	upsert bool
	do     func() string
}

func (o *lop) String() string {
	s := o.kind + "(" + strings.Join(o.a, " ") + ")"
	if o.upsert {
		s += "+upsert"
	}
	return s
}

// kvState is an immutable state of a sequential model: entries by key.
type kvState struct {
	m   map[string]string
	key string
}

func newState(m map[string]string) *kvState {
	var sb strings.Builder
	for _, k := range sortedKeys(m) {
		sb.WriteString(k)
		sb.WriteByte('=')
		sb.WriteString(m[k])
		sb.WriteByte(';')
	}
	return &kvState{m, sb.String()}
}

// applyFunc performs o on m (which it may change) and returns the result expected.
type applyFunc func(m map[string]string, o *lop) string

func linModel(apply applyFunc) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return newState(map[string]string{}) },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			m := copyMap(st.(*kvState).m)
			if apply(m, in.(*lop)) != out.(string) {
				return false, st
			}
			return true, newState(m)
		},
		Equal: func(a, b interface{}) bool { return a.(*kvState).key == b.(*kvState).key },
		Hash: func(a interface{}) uint64 {
			h := fnv.New64a()
			h.Write([]byte(a.(*kvState).key))
			return h.Sum64()
		},
	}
}

// history runs setup in order, then the procs concurrently, then final in order, and returns what happened.
func (x *Exec) history(setup []*lop, procs [][]*lop, final []*lop) []porcupine.Operation {
	var ops []porcupine.Operation
	sim := x.Part.Engine == Sim
	var clock int64
	start := time.Now()
	now := func() int64 {
		if sim {
			return atomic.AddInt64(&clock, 1)
		}
		return int64(time.Since(start)) // adds no synchronization
	}
	one := func(id int, o *lop) porcupine.Operation {
		r := porcupine.Operation{ClientId: id, Input: o}
		r.Call = now()
		r.Output = o.do()
		r.Return = now()
		return r
	}
	for _, o := range setup {
		ops = append(ops, one(0, o))
	}
	res := make([][]porcupine.Operation, len(procs))
	think := make([][]time.Duration, len(procs))
	lazy := x.Chance(0.6)
	for i, p := range procs {
		think[i] = make([]time.Duration, len(p))
		if lazy {
			for j := range p {
				think[i][j] = time.Duration(x.IntN(60000))
			}
		}
	}
	begin := make(chan struct{})
	var wg sync.WaitGroup
	for i := range procs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-begin
			x.Guard("a concurrent call", func() {
				for j, o := range procs[i] {
					if sim {
						time.Sleep(think[i][j])
					} else if think[i][j] > 40000 {
						runtime.Gosched()
					}
					res[i] = append(res[i], one(i+1, o))
				}
			})
		}(i)
	}
	close(begin)
	wg.Wait()
	if x.Failed() {
		panic(abort{})
	}
	overlap := 0
	for i := range res {
		for _, a := range res[i] {
			for k := 0; k < i; k++ {
				for _, b := range res[k] {
					if a.Call < b.Return && b.Call < a.Return {
						overlap++
					}
				}
			}
		}
	}
	x.Count("overlapping_call_pairs", overlap)
	if overlap > 0 {
		x.NonTrivial()
	}
	for i := range res {
		ops = append(ops, res[i]...)
	}
	for _, o := range final {
		ops = append(ops, one(0, o))
	}
	sorted := append([]porcupine.Operation{}, ops...)
	sort.SliceStable(sorted, func(i, j int) bool { return sorted[i].Call < sorted[j].Call })
	for _, o := range sorted {
		x.Log("[%d] %d..%d %v = %s", o.ClientId, o.Call, o.Return, o.Input, o.Output)
	}
	x.Count("calls_recorded", len(ops))
	return ops
}

func (x *Exec) linearizable(props string, apply applyFunc, ops []porcupine.Operation) {
	switch porcupine.CheckOperationsTimeout(linModel(apply), ops, 20*time.Second) {
	case porcupine.Illegal:
		x.Fail(props, "not-linearizable", "the results of the calls are not those of any sequential order of them")
	case porcupine.Unknown:
		x.Unknown()
	default:
		x.Count("histories_checked", 1)
	}
}

func (x *Exec) shape() (procs, ops int) {
	procs, ops = 2+x.IntN(3), 1+x.IntN(5)
	if x.Big {
		procs, ops = 5, 3
	}
	return
}

func splitKey(k string) []string { return strings.Split(k, "\x01") }

// ---------------------------------------------------------------------- plan

func applyPlan(m map[string]string, o *lop) string {
	switch o.kind {
	case "add":
		m[o.a[0]] = o.a[1]
		return "ok"
	case "delete":
		delete(m, o.a[0])
		return "ok"
	case "get":
		if v, ok := m[o.a[0]]; ok {
			return v
		}
		return "notfound"
	case "getall":
		var r []string
		for k, v := range m {
			r = append(r, k+":"+v)
		}
		sort.Strings(r)
		return strings.Join(r, ",")
	}
	panic(o.kind)
}

func errOut(err error, known map[error]string) string {
	if err == nil {
		return "ok"
	}
	for e, s := range known {
		if errors.Is(err, e) {
			return s
		}
	}
	return "error: " + err.Error()
}

func (x *Exec) planOp(p *simple.Simple, kind, u, ver string) *lop {
	o := &lop{kind: kind}
	uid := x.UID(u)
	switch kind {
	case "add":
		o.a = []string{u, ver}
		r := x.planResource(u, "g", ver, "k")
		o.do = func() string { return errOut(p.Add(bg, r), nil) }
	case "delete":
		o.a = []string{u}
		o.do = func() string { return errOut(p.Delete(bg, uid), nil) }
	case "get":
		o.a = []string{u}
		o.do = func() string {
			r, err := p.Get(bg, uid)
			if err != nil {
				return errOut(err, map[error]string{plan.ErrResourceNotFound: "notfound"})
			}
			if isNil(r) {
				return "nil"
			}
			if s := r.UID().String(); s != u {
				return "resource " + s
			}
			return r.Version()
		}
	case "getall":
		o.do = func() string {
			rs, err := p.GetAll(bg)
			if err != nil {
				return err.Error()
			}
			var s []string
			for _, r := range rs {
				if r == nil {
					s = append(s, "nil")
					continue
				}
				s = append(s, r.UID().String()+":"+r.Version())
			}
			sort.Strings(s)
			return strings.Join(s, ",")
		}
	}
	return o
}

func planLin(x *Exec) {
	p, err := simple.NewSimple()
	if err != nil {
		x.Fail("P01", "new", "NewSimple: %v", err)
	}
	us := []string{"a", "b", "c"}[:1+x.IntN(3)]
	ver := 0
	gen := func(kinds ...int) *lop {
		ver++
		return x.planOp(p, []string{"add", "delete", "get", "getall"}[x.Pick(kinds...)], us[x.IntN(len(us))], "v"+strconv.Itoa(ver))
	}
	var setup, final []*lop
	for i, n := 0, x.IntN(4); i < n; i++ {
		setup = append(setup, gen(1, 0, 0, 0))
	}
	np, no := x.shape()
	procs := make([][]*lop, np)
	for i := range procs {
		for j := 0; j < no; j++ {
			procs[i] = append(procs[i], gen(4, 3, 3, 3))
		}
	}
	for _, u := range us {
		final = append(final, x.planOp(p, "get", u, ""))
	}
	final = append(final, x.planOp(p, "getall", "", ""))
	x.linearizable("P02", applyPlan, x.history(setup, procs, final))
}

// ---------------------------------------------------------------------- cache

func applyCache(m map[string]string, o *lop) string {
	list := func(u string, dir int) string {
		var r []string
		for k, v := range m {
			if p := splitKey(k); p[dir] == u {
				r = append(r, p[0]+">"+p[1]+":"+v)
			}
		}
		sort.Strings(r)
		return strings.Join(r, ",")
	}
	del := func(u string) {
		for k := range m {
			if p := splitKey(k); p[0] == u || p[1] == u {
				delete(m, k)
			}
		}
	}
	switch o.kind {
	case "put": // from to id ...
		for i := 0; i < len(o.a); i += 3 {
			k := o.a[i] + "\x01" + o.a[i+1]
			if _, ok := m[k]; !ok || o.upsert {
				m[k] = o.a[i+2]
			}
		}
		return "ok"
	case "delete":
		for _, u := range o.a {
			del(u)
		}
		return "ok"
	case "clear":
		for k := range m {
			delete(m, k)
		}
		return "ok"
	case "from", "to":
		dir := 0
		if o.kind == "to" {
			dir = 1
		}
		var r []string
		for _, u := range o.a {
			r = append(r, "["+list(u, dir)+"]")
		}
		return strings.Join(r, "")
	}
	panic(o.kind)
}

func showLinks(ls []cache.Link) string {
	var r []string
	for _, l := range ls {
		if l == nil {
			r = append(r, "nil")
			continue
		}
		r = append(r, l.From().String()+">"+l.To().String()+":"+l.UID().String())
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func cacheLin(x *Exec) {
	c, err := memcache.NewLinks()
	if err != nil {
		x.Fail("C01", "new", "NewLinks: %v", err)
	}
	us := []string{"a", "b", "c", "d"}[:2+x.IntN(3)]
	ver := 0
	uid := func() string { return us[x.IntN(len(us))] }
	mk := func(kind string, bulk bool, ids []string) *lop {
		o := &lop{kind: kind, a: ids}
		var vs []uuid.UID
		for _, u := range ids {
			vs = append(vs, x.UID(u))
		}
		switch kind {
		case "put":
			n := 1
			if bulk {
				n = 1 + x.IntN(3)
			}
			o.upsert = x.Chance(0.4)
			opts := cacheUpsert(x, o.upsert)
			var ls []cache.Link
			for i := 0; i < n; i++ {
				ver++
				f, t, id := uid(), uid(), "L"+strconv.Itoa(ver)
				l, err := link.New(x.UID(f), x.UID(t), link.WithUID(x.UID(id)))
				if err != nil {
					x.Fail("E01", "link-new", "link.New: %v", err)
				}
				ls = append(ls, l)
				o.a = append(o.a, f, t, id)
			}
			o.do = func() string {
				if bulk {
					return errOut(c.BulkPut(bg, ls, opts...), nil)
				}
				return errOut(c.Put(bg, ls[0], opts...), nil)
			}
		case "delete":
			o.do = func() string {
				if bulk {
					return errOut(c.BulkDelete(bg, vs), nil)
				}
				return errOut(c.Delete(bg, vs[0]), nil)
			}
		case "clear":
			o.a = nil
			o.do = func() string { return errOut(c.Clear(bg), nil) }
		case "from", "to":
			o.do = func() string {
				var r []string
				if bulk {
					get := c.BulkGetFrom
					if kind == "to" {
						get = c.BulkGetTo
					}
					m, err := get(bg, vs)
					if err != nil {
						return err.Error()
					}
					for _, v := range vs {
						r = append(r, "["+showLinks(m[v])+"]")
					}
					return strings.Join(r, "")
				}
				get := c.GetFrom
				if kind == "to" {
					get = c.GetTo
				}
				for _, v := range vs {
					ls, err := get(bg, v)
					if err != nil {
						return err.Error()
					}
					r = append(r, "["+showLinks(ls)+"]")
				}
				return strings.Join(r, "")
			}
		}
		return o
	}
	gen := func() *lop {
		bulk := x.Chance(0.4)
		ids := []string{uid()}
		if bulk {
			for x.Chance(0.6) && len(ids) < 4 {
				ids = append(ids, uid())
			}
		}
		switch x.Pick(6, 4, 1, 3, 3) {
		case 0:
			return mk("put", bulk, nil)
		case 1:
			return mk("delete", bulk, ids)
		case 2:
			return mk("clear", false, nil)
		case 3:
			return mk("from", bulk, ids)
		}
		return mk("to", bulk, ids)
	}
	var setup []*lop
	for i, n := 0, x.IntN(3); i < n; i++ {
		setup = append(setup, mk("put", true, nil))
	}
	np, no := x.shape()
	procs := make([][]*lop, np)
	for i := range procs {
		for j := 0; j < no; j++ {
			procs[i] = append(procs[i], gen())
		}
	}
	final := []*lop{mk("from", true, us), mk("to", true, us)}
	for _, u := range us {
		final = append(final, mk("from", false, []string{u}), mk("to", false, []string{u}))
	}
	x.linearizable("C04", applyCache, x.history(setup, procs, final))
}

// ---------------------------------------------------------------------- graph

// state: "n\x01uid" -> version of the node, "e\x01from\x01to" -> id of the edge (its weight), ends sorted when undirected

func gNodes(m map[string]string, in func(u string) bool) string {
	var r []string
	for k, v := range m {
		if p := splitKey(k); p[0] == "n" && (in == nil || in(p[1])) {
			r = append(r, p[1]+":"+v)
		}
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func gEdges(m map[string]string, in func(u, v string) bool, both bool) string {
	var r []string
	for k, v := range m {
		p := splitKey(k)
		if p[0] != "e" || (in != nil && !in(p[1], p[2])) {
			continue
		}
		r = append(r, fmt.Sprintf("%s:%s-%s:%s=%s", p[1], m["n\x01"+p[1]], p[2], m["n\x01"+p[2]], v))
		if both {
			r = append(r, fmt.Sprintf("%s:%s-%s:%s=%s", p[2], m["n\x01"+p[2]], p[1], m["n\x01"+p[1]], v))
		}
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func gHas(m map[string]string, u string) bool { _, ok := m["n\x01"+u]; return ok }

func gKey(directed bool, u, v string) string {
	if !directed && u > v {
		u, v = v, u
	}
	return "e\x01" + u + "\x01" + v
}

func gRemove(m map[string]string, u string) {
	delete(m, "n\x01"+u)
	for k := range m {
		if p := splitKey(k); p[0] == "e" && (p[1] == u || p[2] == u) {
			delete(m, k)
		}
	}
}

func gFrom(m map[string]string, directed bool, u string) map[string]bool {
	r := map[string]bool{}
	for k := range m {
		if p := splitKey(k); p[0] == "e" {
			if p[1] == u {
				r[p[2]] = true
			}
			if !directed && p[2] == u {
				r[p[1]] = true
			}
		}
	}
	return r
}

func applyGraph(directed bool) applyFunc {
	return func(m map[string]string, o *lop) string {
		switch o.kind {
		case "add":
			if gHas(m, o.a[0]) && !o.upsert {
				return "duplicate"
			}
			m["n\x01"+o.a[0]] = o.a[1]
			return "ok"
		case "remove":
			gRemove(m, o.a[0])
			return "ok"
		case "node":
			if !gHas(m, o.a[0]) {
				return "notfound"
			}
			return m["n\x01"+o.a[0]]
		case "nodes":
			return gNodes(m, nil)
		case "edges":
			return gEdges(m, nil, false)
		case "from":
			f := gFrom(m, directed, o.a[0])
			return gNodes(m, func(u string) bool { return f[u] })
		case "edge":
			u, v := o.a[0], o.a[1]
			if !gHas(m, u) || !gHas(m, v) {
				return "notfound"
			}
			k := gKey(directed, u, v)
			if _, ok := m[k]; !ok {
				return "noedge"
			}
			return gEdges(map[string]string{k: m[k], "n\x01" + u: m["n\x01"+u], "n\x01" + v: m["n\x01"+v]}, nil, false)
		case "link":
			u, v := o.a[0], o.a[1]
			if !gHas(m, u) || !gHas(m, v) {
				return "notfound"
			}
			if u == v {
				return "self"
			}
			k := gKey(directed, u, v)
			if _, ok := m[k]; !ok {
				m[k] = o.a[2]
			}
			return gEdges(map[string]string{k: m[k], "n\x01" + u: m["n\x01"+u], "n\x01" + v: m["n\x01"+v]}, nil, false)
		case "unlink":
			delete(m, gKey(directed, o.a[0], o.a[1]))
			return "ok"
		case "sub":
			if !gHas(m, o.a[0]) {
				return "notfound"
			}
			d, _ := strconv.Atoi(o.a[1])
			in := map[string]bool{o.a[0]: true}
			level := []string{o.a[0]}
			for i := 0; i < d; i++ {
				var next []string
				for _, u := range level {
					for v := range gFrom(m, directed, u) {
						if !in[v] {
							in[v] = true
							next = append(next, v)
						}
					}
				}
				level = next
			}
			return gNodes(m, func(u string) bool { return in[u] }) + "|" +
				gEdges(m, func(u, v string) bool { return in[u] && in[v] }, !directed)
		case "dot":
			return gNodes(m, nil) + "|" + gEdges(m, nil, false)
		}
		panic(o.kind)
	}
}

func nodeVer(n graph.Node) string {
	if t, ok := n.(interface{ Type() string }); ok {
		return t.Type()
	}
	return "?"
}

func showNodes(ns []graph.Node) string {
	var r []string
	for _, n := range ns {
		u, err := nodeUID(n)
		if err != nil {
			return err.Error()
		}
		r = append(r, u+":"+nodeVer(n))
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func showEdge(e graph.Edge, directed bool) string {
	f, t, err := edgeEnds(e)
	if err != nil {
		return err.Error()
	}
	fu, err := nodeUID(f)
	if err != nil {
		return err.Error()
	}
	tu, err := nodeUID(t)
	if err != nil {
		return err.Error()
	}
	id := fmt.Sprint(e.Weight())
	if a, err := e.Attrs().Get(bg, "id"); err == nil && a != "" {
		id = a
	}
	if !directed && fu > tu {
		f, t, fu, tu = t, f, tu, fu
	}
	return fmt.Sprintf("%s:%s-%s:%s=%s", fu, nodeVer(f), tu, nodeVer(t), id)
}

func showEdges(es []graph.Edge, directed bool) string {
	var r []string
	for _, e := range es {
		r = append(r, showEdge(e, directed))
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

var graphErrs = map[error]string{
	graph.ErrNodeNotFound: "notfound", graph.ErrDuplicateNode: "duplicate", graph.ErrEdgeNotExist: "noedge", graph.ErrEdgeNotFound: "noedge",
	store.ErrEntityNotFound: "notfound", store.ErrAlreadyExists: "duplicate",
}

// graphRead returns a read of g.
func (x *Exec) graphRead(g iGraph, directed bool, kind string, a ...string) *lop {
	o := &lop{kind: kind, a: a}
	var vs []uuid.UID
	for _, u := range a {
		vs = append(vs, x.UID(u))
	}
	switch kind {
	case "node":
		o.do = func() string {
			n, err := g.Node(bg, vs[0])
			if err != nil {
				return errOut(err, graphErrs)
			}
			u, err := nodeUID(n)
			if err != nil || u != a[0] {
				return fmt.Sprintf("node %q %v", u, err)
			}
			return nodeVer(n)
		}
	case "nodes":
		o.do = func() string {
			ns, err := g.Nodes(bg)
			if err != nil {
				return err.Error()
			}
			return showNodes(ns)
		}
	case "edges":
		o.do = func() string {
			es, err := g.Edges(bg)
			if err != nil {
				return err.Error()
			}
			return showEdges(es, directed)
		}
	case "from":
		o.do = func() string {
			ns, err := g.From(bg, vs[0])
			if errors.Is(err, graph.ErrNodeNotFound) {
				return ""
			}
			if err != nil {
				return err.Error()
			}
			return showNodes(ns)
		}
	case "edge":
		o.do = func() string {
			e, err := g.Edge(bg, vs[0], vs[1])
			if err != nil {
				return errOut(err, graphErrs)
			}
			return showEdge(e, directed)
		}
	}
	return o
}

func (x *Exec) graphOp(g memgraph.Graph, directed bool, uid func() string, ver *int, kinds []int) *lop {
	*ver++
	u, v := uid(), uid()
	for i := 0; i < 3 && u == v; i++ {
		v = uid()
	}
	uu, vv := x.UID(u), x.UID(v)
	switch x.Pick(kinds...) {
	case 0, 1: // create and add
		o := &lop{kind: "add", upsert: x.Chance(0.4), a: []string{u, "v" + strconv.Itoa(*ver)}}
		ent := x.Entity(u, o.a[1], nil)
		var opts []graph.Option
		if o.upsert {
			opts = append(opts, graph.WithUpsert())
		}
		nopts := []graph.Option{graph.WithAttrs(x.Attrs(map[string]string{"ver": o.a[1]})), graph.WithDOTID(u)}
		var n graph.Node
		var err error
		if x.Chance(0.4) {
			if n, err = g.NewNode(bg, ent, nopts...); err != nil {
				x.Fail("G02 G07", "newnode", "NewNode: %v", err)
			}
		}
		o.do = func() string {
			if n == nil {
				if n, err = g.NewNode(bg, ent, nopts...); err != nil {
					return err.Error()
				}
			}
			return errOut(g.AddNode(bg, n, opts...), graphErrs)
		}
		return o
	case 2:
		return &lop{kind: "remove", a: []string{u}, do: func() string { return errOut(g.RemoveNode(bg, uu), graphErrs) }}
	case 3:
		o := &lop{kind: "link", a: []string{u, v, strconv.Itoa(*ver)}}
		opts := []graph.Option{graph.WithWeight(float64(*ver)), graph.WithAttrs(x.Attrs(map[string]string{"id": o.a[2]}))}
		o.do = func() string {
			e, err := g.Link(bg, uu, vv, opts...)
			if err != nil {
				if u == v && !errors.Is(err, graph.ErrNodeNotFound) {
					return "self"
				}
				return errOut(err, graphErrs)
			}
			if e == nil {
				return "nil edge"
			}
			return showEdge(e, directed)
		}
		return o
	case 4:
		return &lop{kind: "unlink", a: []string{u, v}, do: func() string { return errOut(g.Unlink(bg, uu, vv), graphErrs) }}
	case 5:
		return x.graphRead(g.(iGraph), directed, "node", u)
	case 6:
		return x.graphRead(g.(iGraph), directed, "nodes")
	case 7:
		return x.graphRead(g.(iGraph), directed, "edges")
	case 8:
		return x.graphRead(g.(iGraph), directed, "from", u)
	case 9:
		return x.graphRead(g.(iGraph), directed, "edge", u, v)
	case 10:
		d := x.IntN(4)
		return &lop{kind: "sub", a: []string{u, strconv.Itoa(d)}, do: func() string {
			s, err := g.SubGraph(bg, uu, d)
			if err != nil {
				return errOut(err, graphErrs)
			}
			ns, err := s.Nodes(bg)
			if err != nil {
				return err.Error()
			}
			es, err := s.(iGraph).Edges(bg)
			if err != nil {
				return err.Error()
			}
			return showNodes(ns) + "|" + showEdges(es, true)
		}}
	default:
		return &lop{kind: "dot", do: func() string {
			d, ok := g.(interface{ DOT() (string, error) })
			if !ok {
				return "no DOT"
			}
			s, err := d.DOT()
			if err != nil {
				return err.Error()
			}
			return dotLin(s, directed)
		}}
	}
}

// dotLin reads the DOT text of a graph whose nodes carry attribute ver and edges id.
func dotLin(s string, directed bool) string {
	p, err := parseDOT(s)
	if err != nil {
		return err.Error()
	}
	ver := map[string]string{}
	var ns, es []string
	for _, n := range p.nodes {
		ver[n.id] = n.attr("ver")
		ns = append(ns, n.id+":"+n.attr("ver"))
	}
	for _, e := range p.edges {
		f, t := e.from, e.to
		if !directed && f > t {
			f, t = t, f
		}
		es = append(es, fmt.Sprintf("%s:%s-%s:%s=%s", f, ver[f], t, ver[t], e.attr("id")))
	}
	sort.Strings(ns)
	sort.Strings(es)
	return strings.Join(ns, ",") + "|" + strings.Join(es, ",")
}

func (x *Exec) quiescent(props string, g iGraph, directed bool, us []string) {
	// read one view, compare all others with it
	m := newModel(directed)
	for _, u := range us {
		n, err := g.Node(bg, x.UID(u))
		if errors.Is(err, graph.ErrNodeNotFound) {
			continue
		}
		if err != nil {
			x.Fail(props, "quiescent", "Node(%q) = %v", u, err)
		}
		w := &mNode{uid: u, typ: nodeVer(n), node: n, dotid: u}
		if d, ok := n.(interface{ DOTID() string }); ok {
			w.dotid = d.DOTID()
		}
		m.nodes[u] = w
	}
	for _, u := range us {
		for _, v := range us {
			e, err := g.Edge(bg, x.UID(u), x.UID(v))
			if err != nil || m.edge(u, v) != nil {
				continue
			}
			a, err := attrsOf(e.Attrs())
			if err != nil {
				x.Fail(props, "quiescent", "%v", err)
			}
			m.edges[m.key(u, v)] = &mEdge{from: u, to: v, hasUID: true, uid: e.UID().String(), hasW: true, w: e.Weight(), attrs: a}
		}
	}
	if s := x.checkGraph(g, m, us, true); s != "" {
		x.Fail(props, "quiescent", "views disagree when no call is running: %s", s)
	}
}

var linUIDs = []string{"a", "b", "c", "d", "e"}

func graphLin(props string, kinds []int) func(x *Exec) {
	return func(x *Exec) {
		directed := x.Chance(0.5)
		g := x.newGraph(directed)
		x.Log("directed=%v", directed)
		us := linUIDs[:2+x.IntN(3)]
		uid := func() string { return us[x.IntN(len(us))] }
		ver := 0
		var setup, final []*lop
		if x.Chance(0.8) {
			i := 0
			for _, u := range us {
				if x.Chance(0.8) {
					o := x.graphOp(g, directed, func() string { return u }, &ver, []int{1})
					setup = append(setup, o)
				}
			}
			for n := x.IntN(4); i < n; i++ {
				setup = append(setup, x.graphOp(g, directed, uid, &ver, []int{0, 0, 0, 1}))
			}
		}
		np, no := x.shape()
		procs := make([][]*lop, np)
		for i := range procs {
			for j := 0; j < no; j++ {
				procs[i] = append(procs[i], x.graphOp(g, directed, uid, &ver, kinds))
			}
		}
		ig := g.(iGraph)
		for _, u := range us {
			final = append(final, x.graphRead(ig, directed, "node", u), x.graphRead(ig, directed, "from", u))
		}
		final = append(final, x.graphRead(ig, directed, "nodes"), x.graphRead(ig, directed, "edges"))
		h := x.history(setup, procs, final)
		x.quiescent(props, ig, directed, us)
		x.linearizable(props, applyGraph(directed), h)
	}
}

// ---------------------------------------------------------------------- store

func applyStore(directed bool) applyFunc {
	gr := applyGraph(directed)
	return func(m map[string]string, o *lop) string {
		switch o.kind {
		case "sadd": // uid ver ...
			for i := 0; i < len(o.a); i += 2 {
				if s := gr(m, &lop{kind: "add", a: o.a[i : i+2], upsert: o.upsert}); s != "ok" {
					return s
				}
			}
			return "ok"
		case "sget":
			var r []string
			for _, u := range o.a {
				if !gHas(m, u) {
					return "notfound"
				}
				r = append(r, m["n\x01"+u])
			}
			return strings.Join(r, ",")
		case "sdelete":
			for _, u := range o.a {
				gRemove(m, u)
			}
			return "ok"
		case "slink": // id from to...
			for _, v := range o.a[2:] {
				s := gr(m, &lop{kind: "link", a: []string{o.a[1], v, o.a[0]}})
				if s == "notfound" || s == "self" {
					return s
				}
			}
			return "ok"
		case "sunlink":
			for _, v := range o.a[1:] {
				gr(m, &lop{kind: "unlink", a: []string{o.a[0], v}})
			}
			return "ok"
		}
		return gr(m, o)
	}
}

func (x *Exec) storeOp(s *memstore.Memory, uid func() string, ver *int, bulk bool, kinds []int) *lop {
	*ver++
	ids := []string{uid()}
	if bulk {
		for x.Chance(0.7) && len(ids) < 4 {
			ids = append(ids, uid())
		}
		if x.Chance(0.03) {
			ids = nil
		}
	}
	var vs []uuid.UID
	for _, u := range ids {
		vs = append(vs, x.UID(u))
	}
	switch x.Pick(kinds...) {
	case 0:
		o := &lop{kind: "sadd", upsert: x.Chance(0.45)}
		var es []store.Entity
		for i, u := range ids {
			v := fmt.Sprintf("v%d.%d", *ver, i)
			o.a = append(o.a, u, v)
			es = append(es, x.Entity(u, v, map[string]string{"ver": v}))
		}
		var opts []store.Option
		if o.upsert {
			opts = append(opts, store.WithUpsert())
		}
		o.do = func() string {
			if bulk {
				return errOut(s.BulkAdd(bg, es, opts...), graphErrs)
			}
			return errOut(s.Add(bg, es[0], opts...), graphErrs)
		}
		return o
	case 1:
		o := &lop{kind: "sget", a: ids}
		show := func(es ...store.Entity) string {
			if len(es) != len(ids) {
				return fmt.Sprintf("%d entities", len(es))
			}
			var r []string
			for i, e := range es {
				if e == nil {
					return "nil entity"
				}
				a, err := e.Attrs().Get(bg, "ver")
				if err != nil || e.UID().String() != ids[i] || a != e.Type() {
					return fmt.Sprintf("mixed entity %q %q %q %v", e.UID().String(), e.Type(), a, err)
				}
				r = append(r, e.Type())
			}
			return strings.Join(r, ",")
		}
		o.do = func() string {
			if bulk {
				es, err := s.BulkGet(bg, vs)
				if err != nil {
					return errOut(err, graphErrs)
				}
				return show(es...)
			}
			e, err := s.Get(bg, vs[0])
			if err != nil {
				return errOut(err, graphErrs)
			}
			return show(e)
		}
		return o
	case 2:
		return &lop{kind: "sdelete", a: ids, do: func() string {
			if bulk {
				return errOut(s.BulkDelete(bg, vs), graphErrs)
			}
			return errOut(s.Delete(bg, vs[0]), graphErrs)
		}}
	case 3:
		u := uid()
		id := strconv.Itoa(*ver)
		uu := x.UID(u)
		opt := store.WithAttrs(x.Attrs(map[string]string{"id": id}))
		o := &lop{kind: "slink", a: append([]string{id, u}, ids...)}
		o.do = func() string {
			var err error
			if bulk {
				err = s.BulkLink(bg, uu, vs, opt)
			} else {
				err = s.Link(bg, uu, vs[0], opt)
			}
			if err != nil && !errors.Is(err, store.ErrEntityNotFound) {
				return "self"
			}
			return errOut(err, graphErrs)
		}
		return o
	default:
		u := uid()
		uu := x.UID(u)
		return &lop{kind: "sunlink", a: append([]string{u}, ids...), do: func() string {
			if bulk {
				return errOut(s.BulkUnlink(bg, uu, vs), graphErrs)
			}
			return errOut(s.Unlink(bg, uu, vs[0]), graphErrs)
		}}
	}
}

// storeLin: histories of store calls, with bulk calls or with reads through the graph handle
// (to which bulk calls need not be one step).
func storeLin(props string, pBulk float64) func(x *Exec) {
	return func(x *Exec) {
		s, directed := x.newStore()
		x.Log("directed=%v", directed)
		us := linUIDs[:2+x.IntN(3)]
		uid := func() string { return us[x.IntN(len(us))] }
		ver := 0
		bulk := x.Chance(pBulk)
		gg, err := s.Graph()
		if err != nil {
			x.Fail(props, "handle", "Graph() = %v", err)
		}
		g := gg.(iGraph)
		var setup, final []*lop
		for _, u := range us {
			if x.Chance(0.7) {
				setup = append(setup, x.storeOp(s, func() string { return u }, &ver, false, []int{1}))
			}
		}
		for i, n := 0, x.IntN(4); i < n; i++ {
			setup = append(setup, x.storeOp(s, uid, &ver, false, []int{0, 0, 0, 1}))
		}
		np, no := x.shape()
		procs := make([][]*lop, np)
		for i := range procs {
			for j := 0; j < no; j++ {
				var o *lop
				if !bulk && x.Chance(0.25) {
					o = x.graphRead(g, directed, []string{"node", "edge", "nodes", "from", "edges"}[x.IntN(5)], uid(), uid())
					if o.kind == "nodes" || o.kind == "edges" {
						o.a = nil
					}
				} else {
					o = x.storeOp(s, uid, &ver, bulk && x.Chance(0.6), []int{6, 5, 4, 5, 3})
				}
				procs[i] = append(procs[i], o)
			}
		}
		for _, u := range us {
			final = append(final, x.storeOp(s, func() string { return u }, &ver, false, []int{0, 1}))
		}
		final = append(final, x.graphRead(g, directed, "nodes"), x.graphRead(g, directed, "edges"))
		h := x.history(setup, procs, final)
		x.quiescent(props, g, directed, us)
		x.linearizable(props, applyStore(directed), h)
	}
}

// --------------------------------------------------------------------- stress

// stress runs many unrecorded calls at once: the race detector and the final state are the oracle.
func (x *Exec) stress(n, calls int, mk func(i, j int) *lop) {
	procs := make([][]*lop, n)
	for i := range procs {
		for j := 0; j < calls; j++ {
			procs[i] = append(procs[i], mk(i, j))
		}
	}
	begin := make(chan struct{})
	var wg sync.WaitGroup
	for i := range procs {
		wg.Add(1)
		go func(p []*lop) {
			defer wg.Done()
			<-begin
			x.Guard("a concurrent call", func() {
				for _, o := range p {
					o.do()
				}
			})
		}(procs[i])
	}
	close(begin)
	wg.Wait()
	x.Count("calls", n*calls)
	x.Log("%d goroutines, %d calls each: %v ...", n, calls, procs[0][:min(8, len(procs[0]))])
	x.NonTrivial()
	if x.Failed() {
		panic(abort{})
	}
}

func graphStress(props string, kinds []int) func(x *Exec) {
	return func(x *Exec) {
		directed := x.Chance(0.5)
		g := x.newGraph(directed)
		us := linUIDs[:2+x.IntN(4)]
		ver := 0
		x.stress(3+x.IntN(5), 40, func(i, j int) *lop {
			return x.graphOp(g, directed, func() string { return us[x.IntN(len(us))] }, &ver, kinds)
		})
		x.quiescent(props, g.(iGraph), directed, us)
	}
}

func storeStress(props string) func(x *Exec) {
	return func(x *Exec) {
		s, directed := x.newStore()
		us := linUIDs[:2+x.IntN(4)]
		uid := func() string { return us[x.IntN(len(us))] }
		ver := 0
		gg, err := s.Graph()
		if err != nil {
			x.Fail(props, "handle", "Graph() = %v", err)
		}
		g := gg.(iGraph)
		x.stress(3+x.IntN(5), 40, func(i, j int) *lop {
			if x.Chance(0.2) {
				return x.graphRead(g, directed, []string{"node", "edge", "nodes", "from", "edges"}[x.IntN(5)], uid(), uid())
			}
			if x.Chance(0.05) {
				return &lop{kind: "handle", do: func() string { _, err := s.Graph(); return errOut(err, nil) }}
			}
			return x.storeOp(s, uid, &ver, x.Chance(0.4), []int{6, 5, 4, 5, 3})
		})
		x.quiescent(props, g, directed, us)
	}
}

func init() {
	lin := "short concurrent histories (2 to 5 goroutines) with all results recorded and checked by porcupine against the sequential model, final reads included; non-trivial: calls overlapped"
	str := "3 to 7 goroutines with many calls each under the race detector, state compared between views afterwards; every execution is non-trivial"
	// add, add, remove, link, unlink, node, nodes, edges, from, edge, sub, dot
	all := []int{4, 4, 5, 8, 4, 3, 3, 3, 3, 3, 3, 2}
	register("G07",
		&Part{Name: "linearizable", Engine: Sim, Perturb: true, Quick: 12000, Thorough: 600000, Rule: lin, Run: graphLin("G07", all)},
		&Part{Name: "linearizable-link", Engine: Sim, Perturb: true, Quick: 8000, Thorough: 400000, Rule: lin, Run: graphLin("G07 G04", []int{1, 1, 3, 10, 5, 0, 0, 1, 1, 4, 0, 0})},
		&Part{Name: "race-linearizable", Engine: Race, Quick: 1600, Thorough: 40000, Rule: lin, Run: graphLin("G07", all)},
		&Part{Name: "race-stress", Engine: Race, Quick: 1000, Thorough: 30000, Rule: str, Run: graphStress("G07", all)},
	)
	register("S04",
		&Part{Name: "linearizable", Engine: Sim, Perturb: true, Quick: 14000, Thorough: 600000, Rule: lin, Run: storeLin("S04 S02", 0.3)},
		&Part{Name: "race-linearizable", Engine: Race, Quick: 1600, Thorough: 40000, Rule: lin, Run: storeLin("S04", 0.3)},
		&Part{Name: "race-stress", Engine: Race, Quick: 1000, Thorough: 30000, Rule: str, Run: storeStress("S04")},
	)
	register("S03", &Part{Name: "linearizable-bulk", Engine: Sim, Perturb: true, Quick: 8000, Thorough: 400000, Rule: lin, Run: storeLin("S03 S04", 1)})
	register("C04",
		&Part{Name: "linearizable", Engine: Sim, Perturb: true, Quick: 14000, Thorough: 600000, Rule: lin, Run: cacheLin},
		&Part{Name: "race-linearizable", Engine: Race, Quick: 3000, Thorough: 60000, Rule: lin, Run: cacheLin},
	)
	register("P02",
		&Part{Name: "linearizable", Engine: Sim, Perturb: true, Quick: 20000, Thorough: 800000, Rule: lin, Run: planLin},
		&Part{Name: "race-linearizable", Engine: Race, Quick: 3000, Thorough: 60000, Rule: lin, Run: planLin},
	)
}
