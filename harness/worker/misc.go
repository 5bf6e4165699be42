package worker

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	netscrape "github.com/milosgajdos/netscrape"
	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	dsimple "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	isimple "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
	"gonum.org/v1/gonum/graph/encoding"
)

// -------------------------------------------------------------------- unique ids

var (
	uidMu   sync.Mutex
	uidSeen = map[string]string{}
)

const uidShare = 8000 // ids per process compared across processes

// generated accounts for a generated unique id: it must be new to this process.
func (x *Exec) generated(what, u string) {
	if u == "" {
		x.Report("U01", "empty", "generated unique id of %s is empty", what)
		return
	}
	uidMu.Lock()
	w, ok := uidSeen[u]
	uidSeen[u] = what
	if k := "generated ids"; len(out.Extra[k]) < uidShare {
		out.Extra[k] = append(out.Extra[k], u)
	}
	uidMu.Unlock()
	x.Count("generated", 1)
	if ok {
		x.Report("U01", "duplicate", "generated unique id %q of %s was generated before for %s", u, what, w)
	}
}

// genUIDs makes the library generate ids in one of many ways; it returns how to do it.
func (x *Exec) genUIDs(s *uidShared) func() {
	must := func(what string, err error) bool {
		if err != nil {
			x.Report("U01", "error", "%s: %v", what, err)
		}
		return err == nil
	}
	switch x.IntN(9) {
	case 0:
		return func() { x.generated("an id", memuid.New().String()) }
	case 1:
		return func() {
			e, err := entity.New("t")
			if must("entity.New", err) {
				x.generated("an entity", e.UID().String())
			}
		}
	case 2:
		return func() {
			e, err := entity.NewResource("t", "n", "g", "v", "k", true)
			if must("entity.NewResource", err) {
				x.generated("a resource", e.UID().String())
			}
		}
	case 3:
		return func() {
			e, err := entity.NewObject("t", "n", "ns", nil)
			if must("entity.NewObject", err) {
				x.generated("an object", e.UID().String())
			}
		}
	case 4:
		from, to := x.UID("a"), x.UID("b")
		return func() {
			l, err := link.New(from, to)
			if must("link.New", err) {
				x.generated("a link", l.UID().String())
			}
		}
	case 5:
		u, v := s.us[x.IntN(len(s.us))], s.us[x.IntN(len(s.us))]
		return func() {
			if u == v {
				return
			}
			k := s.us[0] // link two fresh nodes so that the edge is new
			_ = k
			a, b := memuid.New(), memuid.New()
			x.generated("an id", a.String())
			x.generated("an id", b.String())
			for _, i := range []*memuid.UID{a, b} {
				e, err := entity.New("t", entity.WithUID(i))
				if !must("entity.New", err) {
					return
				}
				n, err := s.g.NewNode(bg, e)
				if !must("NewNode", err) || !must("AddNode", s.g.AddNode(bg, n)) {
					return
				}
				if n.UID().String() != i.String() {
					x.Report("U01", "verbatim", "node of %q has id %q", i.String(), n.UID().String())
				}
			}
			e, err := s.g.Link(bg, a, b)
			if must("Link", err) {
				x.generated("an edge", e.UID().String())
			}
			sg, err := s.g.SubGraph(bg, a, 1)
			if must("SubGraph", err) {
				x.generated("a subgraph", sg.UID().String())
			}
		}
	case 6:
		d := x.Chance(0.5)
		return func() {
			var g graph.Graph
			var err error
			if d {
				g, err = memgraph.NewWDG()
			} else {
				g, err = memgraph.NewWUG()
			}
			if must("new graph", err) {
				x.generated("a graph", g.UID().String())
			}
		}
	case 7:
		return func() {
			st, err := memstore.NewStore()
			if must("NewStore", err) {
				x.generated("a store", st.UID().String())
				g, err := st.Graph()
				if must("Graph", err) {
					x.generated("the graph of a store", g.UID().String())
				}
			}
		}
	}
	topic := fmt.Sprint("t", x.IntN(3))
	return func() {
		sub, err := s.b.Sub(bg, topic)
		if must("Sub", err) {
			id, err := sub.ID(bg)
			if must("ID", err) {
				x.generated("a subscription", id)
			}
		}
	}
}

type uidShared struct {
	g  memgraph.Graph
	b  *membroker.Memory
	us []string
}

func (x *Exec) uidShared() *uidShared {
	b, err := membroker.New()
	if err != nil {
		x.Fail("U01", "new", "broker: %v", err)
	}
	if err := b.Open(bg); err != nil {
		x.Fail("U01", "new", "Open: %v", err)
	}
	x.Cleanup(func() { _ = b.Close() })
	return &uidShared{x.newGraph(x.Chance(0.5)), b, []string{"a", "b", "c"}}
}

// invalid or valid text
func (x *Exec) anyString() string {
	if x.Chance(0.3) {
		b := make([]byte, x.IntN(20))
		for i := range b {
			b[i] = byte(x.IntN(256))
		}
		return string(b)
	}
	return x.Str()
}

func uidConcurrent(x *Exec) {
	s := x.uidShared()
	n := 2 + x.IntN(4)
	procs := make([][]func(), n)
	type kept struct {
		u uuid.UID
		s string
	}
	var keep []kept
	var mu sync.Mutex
	for i := range procs {
		for j := 1 + x.IntN(6); j > 0; j-- {
			if x.Chance(0.25) {
				str := x.anyString()
				procs[i] = append(procs[i], func() {
					u := memuid.NewFromString(str)
					if g := u.String(); g != str {
						x.Report("U01", "verbatim", "id made from %q is %q", str, g)
					}
					mu.Lock()
					keep = append(keep, kept{u, str}, kept{*u, str})
					mu.Unlock()
				})
				continue
			}
			procs[i] = append(procs[i], x.genUIDs(s))
		}
		x.Log("goroutine %d: %d calls", i, len(procs[i]))
	}
	x.Log("case %d", x.Index)
	var wg sync.WaitGroup
	for _, p := range procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.Guard("generating ids", func() {
				for _, f := range p {
					f()
				}
			})
		}()
	}
	wg.Wait()
	for _, k := range keep {
		if g := k.u.String(); g != k.s {
			x.Report("U01", "verbatim", "id made from %q became %q", k.s, g)
		}
	}
	x.Count("verbatim", len(keep))
	x.NonTrivial()
}

func uidMany(x *Exec) {
	for i := 0; i < 2000; i++ {
		x.generated("an id", memuid.New().String())
	}
	x.Log("2000 ids %d", x.Index)
	x.NonTrivial()
	s := x.anyString()
	if g := memuid.NewFromString(s).String(); g != s {
		x.Report("U01", "verbatim", "id made from %q is %q", s, g)
	}
}

// ---------------------------------------------------------------------- snapshots

// snap is a list or map returned by a query, rendered by show.
type snap struct {
	what string
	show func() string
	was  string
}

// shot is one query of a component.
type shot struct {
	what string
	// query runs the query; it returns the rendering of the result and how to spoil the result.
	query func() (show func() string, spoil func())
}

func showUIDs(l []string) string {
	sort.Strings(l)
	return fmt.Sprintf("%q", l)
}

// slice makes a shot of a query returning a list.
func sliceShot[T any](x *Exec, what string, q func() ([]T, error), one func(T) string, junk T) shot {
	return shot{what, func() (func() string, func()) {
		s, err := q()
		if err != nil {
			x.Fail("X01", "query", "%s = %v", what, err)
		}
		n := len(s)
		mode := x.IntN(4)
		extra := 1 + x.IntN(3)
		at := x.IntN(n + 1)
		return func() string {
				var l []string
				for _, e := range s {
					l = append(l, one(e))
				}
				return showUIDs(l)
			}, func() {
				switch mode {
				case 0: // overwrite everything, spare room included
					f := s[:cap(s)]
					for i := range f {
						f[i] = junk
					}
				case 1:
					for i := 0; i < extra; i++ {
						s = append(s, junk)
					}
				case 2:
					s = append(s[:at], junk)
				case 3:
					for i := range s {
						s[i] = junk
					}
					f := append(s, junk)
					_ = f
				}
			}
	}}
}

func nodeShow(n graph.Node) string {
	if isNil(n) {
		return "nil"
	}
	return n.UID().String()
}

func edgeShow(e graph.Edge) string {
	if isNil(e) {
		return "nil"
	}
	f, _ := e.FromNode()
	t, _ := e.ToNode()
	return e.UID().String() + ":" + nodeShow(f) + ">" + nodeShow(t)
}

func linkShow(l cache.Link) string {
	if isNil(l) {
		return "nil"
	}
	return l.UID().String() + ":" + l.From().String() + ">" + l.To().String()
}

func entShow(e store.Entity) string {
	if isNil(e) {
		return "nil"
	}
	return e.UID().String()
}

func encShow(a encoding.Attribute) string { return fmt.Sprintf("%q=%q", a.Key, a.Value) }

// linkMapShot makes a shot of a bulk get of the cache.
func linkMapShot(x *Exec, what string, q func() (map[uuid.UID][]cache.Link, error)) shot {
	return shot{what, func() (func() string, func()) {
		m, err := q()
		if err != nil {
			x.Fail("X01", "query", "%s = %v", what, err)
		}
		mode := x.IntN(4)
		return func() string {
				var l []string
				for u, ls := range m {
					var p []string
					for _, e := range ls {
						p = append(p, linkShow(e))
					}
					l = append(l, u.String()+"="+showUIDs(p))
				}
				return showUIDs(l)
			}, func() {
				if m == nil {
					return
				}
				switch mode {
				case 0:
					for u, ls := range m {
						f := ls[:cap(ls)]
						for i := range f {
							f[i] = nil
						}
						m[u] = append(ls, nil, nil)
					}
				case 1:
					for u := range m {
						delete(m, u)
					}
					m[memuid.NewFromString("junk")] = []cache.Link{nil}
				case 2:
					for u := range m {
						_ = append(m[u], nil)
						if len(m[u]) > 0 {
							m[u] = append(m[u][:len(m[u])-1], nil)
						}
						m[u] = nil
					}
				case 3: // the lists of one map are the caller's one by one
					lists := func() map[uuid.UID]string {
						r := map[uuid.UID]string{}
						for u, ls := range m {
							var p []string
							for _, e := range ls {
								p = append(p, linkShow(e))
							}
							r[u] = fmt.Sprintf("%q", p)
						}
						return r
					}
					for u := range m {
						was := lists()
						ls := m[u]
						if x.Chance(0.5) {
							for i := range ls {
								ls[i] = nil
							}
						}
						ls = append(ls, nil)
						f := ls[:cap(ls)]
						for i := len(m[u]); i < len(f); i++ {
							f[i] = nil
						}
						for v, w := range lists() {
							if v != u && w != was[v] {
								x.Fail("X01", "lists", "%s: changing the list of %q changed that of %q from %s to %s", what, u, v, was[v], w)
							}
						}
					}
				}
			}
	}}
}

// component is a component under observation.
type component struct {
	name string
	// op changes the component.
	op func()
	// shots returns all queries of the component.
	shots func() []shot
}

// spare returns a copy of s with room behind it which must not be written.
func spare[T any](x *Exec, s []T, sentinel T) (list []T, check func(same func(a, b T) bool, what string)) {
	n, m := len(s), 1+x.IntN(3)
	full := make([]T, n+m)
	copy(full, s)
	for i := n; i < n+m; i++ {
		full[i] = sentinel
	}
	return full[:n], func(same func(a, b T) bool, what string) {
		for i := range full {
			w := sentinel
			if i < n {
				w = s[i]
			}
			if !same(full[i], w) {
				x.Fail("X01", "input", "%s changed element %d of the list of %d given to it", what, i, n)
			}
		}
	}
}

// optSpare returns the options in a slice with a sentinel behind them.
func optSpare[T any](x *Exec, opts []T, sentinel T, hit func() bool) ([]T, func(call func(T), what string)) {
	full := make([]T, len(opts)+2)
	copy(full, opts)
	full[len(opts)], full[len(opts)+1] = sentinel, sentinel
	return full[:len(opts)], func(call func(T), what string) {
		if hit() {
			x.Fail("X01", "input", "%s used options behind those given to it", what)
		}
		for i := len(opts); i < len(full); i++ {
			call(full[i])
			if !hit() {
				x.Fail("X01", "input", "%s wrote behind the options given to it", what)
			}
		}
	}
}

func sameUID(a, b uuid.UID) bool { return a == b }

func (x *Exec) graphComponent() *component {
	directed := x.Chance(0.5)
	g := x.newGraph(directed)
	us := x.Pool("n", x.Size(2+x.IntN(5), 40))
	uid := func() string { return us[x.IntN(len(us))] }
	ver := 0
	ig := g.(iGraph)
	return &component{"graph", func() {
		u, v := uid(), uid()
		switch x.Pick(4, 1, 4, 1, 1) {
		case 0, 1:
			ver++
			src := x.AttrMap()
			e := x.Entity(u, fmt.Sprint("T", ver), x.AttrMap())
			hit := false
			opts, chk := optSpare(x, []graph.Option{graph.WithAttrs(memattrs.NewFromMap(src))}, func(*graph.Options) { hit = true }, func() bool { h := hit; hit = false; return h })
			n, err := g.NewNode(bg, e, opts...)
			chk(func(o graph.Option) { o(&graph.Options{}) }, "NewNode")
			if err != nil {
				x.Fail("G01 G02", "newnode", "NewNode: %v", err)
			}
			_ = g.AddNode(bg, n, graph.WithUpsert())
			x.Log("upsert %q", u)
		case 2:
			hit := false
			opts, chk := optSpare(x, []graph.Option{graph.WithWeight(2)}, func(*graph.Options) { hit = true }, func() bool { h := hit; hit = false; return h })
			if u != v {
				_, _ = g.Link(bg, x.UID(u), x.UID(v), opts...)
				chk(func(o graph.Option) { o(&graph.Options{}) }, "Link")
			}
			x.Log("link %q %q", u, v)
		case 3:
			_ = g.Unlink(bg, x.UID(u), x.UID(v))
			x.Log("unlink %q %q", u, v)
		case 4:
			_ = g.RemoveNode(bg, x.UID(u))
			x.Log("remove %q", u)
		}
	}, func() []shot {
		s := []shot{
			sliceShot(x, "Nodes", func() ([]graph.Node, error) { return ig.Nodes(bg) }, nodeShow, nil),
			sliceShot(x, "Edges", func() ([]graph.Edge, error) { return ig.Edges(bg) }, edgeShow, nil),
		}
		for _, u := range us {
			n, err := ig.Node(bg, x.UID(u))
			if err != nil {
				continue
			}
			s = append(s, sliceShot(x, "From("+u+")", func() ([]graph.Node, error) { return ig.From(bg, x.UID(u)) }, nodeShow, nil))
			if d, ok := n.(graph.DOTNode); ok {
				s = append(s, sliceShot(x, "DOT attributes of node "+u, func() ([]encoding.Attribute, error) { return d.Attributes(), nil }, encShow, encoding.Attribute{Key: "junk"}))
			}
			s = append(s, sliceShot(x, "nodes of the subgraph of "+u, func() ([]graph.Node, error) {
				sg, err := g.SubGraph(bg, x.UID(u), 1)
				if err != nil {
					return nil, err
				}
				return sg.Nodes(bg)
			}, nodeShow, nil))
		}
		es, _ := ig.Edges(bg)
		sort.Slice(es, func(i, j int) bool { return edgeShow(es[i]) < edgeShow(es[j]) })
		for i, e := range es {
			if d, ok := e.(graph.DOTEdge); ok && i < 3 {
				s = append(s, sliceShot(x, "DOT attributes of edge "+edgeShow(e), func() ([]encoding.Attribute, error) { return d.Attributes(), nil }, encShow, encoding.Attribute{Key: "junk"}))
			}
		}
		return s
	}}
}

func (x *Exec) storeComponent() *component {
	st, _ := x.newStore()
	us := x.Pool("n", x.Size(2+x.IntN(5), 40))
	uid := func() string { return us[x.IntN(len(us))] }
	gg, err := st.Graph()
	if err != nil {
		x.Fail("S01 S02", "handle", "Graph() = %v", err)
	}
	g := gg.(iGraph)
	ver := 0
	have := map[string]bool{}
	list := func() ([]string, []uuid.UID) {
		var ss []string
		var l []uuid.UID
		for i := x.IntN(5); i > 0; i-- {
			u := uid()
			ss, l = append(ss, u), append(l, x.UID(u))
		}
		return ss, l
	}
	// only ids that exist, each once
	there := func() ([]string, []uuid.UID) {
		var ss []string
		var l []uuid.UID
		for _, u := range us {
			if have[u] && x.Chance(0.7) {
				ss, l = append(ss, u), append(l, x.UID(u))
			}
		}
		return ss, l
	}
	sentinel := uuid.UID(strUID("sentinel"))
	hit := false
	isHit := func() bool { h := hit; hit = false; return h }
	behind := func(*store.Options) { hit = true }
	call := func(o store.Option) { o(&store.Options{}) }
	return &component{"store", func() {
		switch x.IntN(7) {
		case 0, 1:
			var es []store.Entity
			for i := x.IntN(5); i > 0; i-- {
				ver++
				u := uid()
				have[u] = true
				es = append(es, x.Entity(u, fmt.Sprint("T", ver), x.AttrMap()))
			}
			l, chk := spare[store.Entity](x, es, x.Entity("sentinel", "", nil))
			opts, ochk := optSpare(x, []store.Option{store.WithUpsert()}, behind, isHit)
			if err := st.BulkAdd(bg, l, opts...); err != nil {
				x.Fail("S03", "bulkadd", "BulkAdd = %v", err)
			}
			chk(func(a, b store.Entity) bool { return a == b }, "BulkAdd")
			ochk(call, "BulkAdd")
			junk := x.Entity("junk", "junk", map[string]string{})
			for i := range l {
				l[i] = junk
			}
			x.Log("BulkAdd(%d)", len(l))
		case 2:
			ss, us := there()
			l, chk := spare(x, us, sentinel)
			es, err := st.BulkGet(bg, l)
			if err != nil || len(es) != len(ss) {
				x.Fail("S03", "bulkget", "BulkGet(%q) = %d entities, %v", ss, len(es), err)
			}
			chk(sameUID, "BulkGet")
			x.Log("BulkGet(%q)", ss)
		case 3:
			ss, us := list()
			l, chk := spare(x, us, sentinel)
			for _, s := range ss {
				delete(have, s)
			}
			if err := st.BulkDelete(bg, l); err != nil {
				x.Fail("S03", "bulkdelete", "BulkDelete = %v", err)
			}
			chk(sameUID, "BulkDelete")
			for i := range l {
				l[i] = strUID(uid())
			}
			x.Log("BulkDelete(%q)", ss)
		case 4:
			ss, us := there()
			l, chk := spare(x, us, sentinel)
			from := uid()
			opts, ochk := optSpare(x, []store.Option{store.WithAttrs(memattrs.New())}, behind, isHit)
			_ = st.BulkLink(bg, x.UID(from), l, opts...)
			chk(sameUID, "BulkLink")
			ochk(call, "BulkLink")
			for i := range l {
				l[i] = strUID("junk")
			}
			x.Log("BulkLink(%q, %q)", from, ss)
		case 5:
			ss, us := there()
			l, chk := spare(x, us, sentinel)
			from := uid()
			_ = st.BulkUnlink(bg, x.UID(from), l)
			chk(sameUID, "BulkUnlink")
			x.Log("BulkUnlink(%q, %q)", from, ss)
		case 6:
			u := uid()
			delete(have, u)
			_ = st.Delete(bg, x.UID(u))
			x.Log("Delete(%q)", u)
		}
	}, func() []shot {
		s := []shot{
			sliceShot(x, "Nodes of the store", func() ([]graph.Node, error) { return g.Nodes(bg) }, nodeShow, nil),
			sliceShot(x, "Edges of the store", func() ([]graph.Edge, error) { return g.Edges(bg) }, edgeShow, nil),
		}
		var l []uuid.UID
		for _, u := range us {
			if have[u] {
				l = append(l, x.UID(u))
			}
		}
		s = append(s, sliceShot(x, "BulkGet", func() ([]store.Entity, error) { return st.BulkGet(bg, l) }, entShow, nil))
		return s
	}}
}

func (x *Exec) cacheComponent() *component {
	c, err := memcache.NewLinks()
	if err != nil {
		x.Fail("C01", "new", "NewLinks: %v", err)
	}
	us := x.Pool("n", x.Size(1+x.IntN(5), 40))
	uid := func() string { return us[x.IntN(len(us))] }
	ver := 0
	newLink := func() cache.Link {
		ver++
		l, err := link.New(x.UID(uid()), x.UID(uid()), link.WithUID(x.UID(fmt.Sprint("L", ver))))
		if err != nil {
			x.Fail("E01", "new", "link.New: %v", err)
		}
		return l
	}
	sentinel := uuid.UID(strUID("sentinel"))
	hit := false
	isHit := func() bool { h := hit; hit = false; return h }
	return &component{"cache", func() {
		switch x.Pick(4, 3, 1, 1, 1) {
		case 0, 1:
			var ls []cache.Link
			for i := x.IntN(5); i > 0; i-- {
				ls = append(ls, newLink())
			}
			l, chk := spare(x, ls, newLink())
			opts, ochk := optSpare(x, cacheUpsert(x, x.Chance(0.5)), func(*cache.Options) { hit = true }, isHit)
			if err := c.BulkPut(bg, l, opts...); err != nil {
				x.Fail("C01 C02", "put", "BulkPut = %v", err)
			}
			chk(func(a, b cache.Link) bool { return a == b }, "BulkPut")
			ochk(func(o cache.Option) { o(&cache.Options{}) }, "BulkPut")
			for i := range l {
				l[i] = newLink()
			}
			x.Log("BulkPut(%d)", len(l))
		case 2:
			u := uid()
			_ = c.Delete(bg, x.UID(u))
			x.Log("Delete(%q)", u)
		case 3:
			var ul []uuid.UID
			for i := x.IntN(4); i > 0; i-- {
				ul = append(ul, x.UID(uid()))
			}
			l, chk := spare(x, ul, sentinel)
			_ = c.BulkDelete(bg, l)
			chk(sameUID, "BulkDelete")
			x.Log("BulkDelete(%d)", len(l))
		case 4:
			_ = c.Clear(bg)
			x.Log("Clear")
		}
	}, func() []shot {
		var s []shot
		for _, u := range us {
			s = append(s, sliceShot(x, "GetFrom("+u+")", func() ([]cache.Link, error) { return c.GetFrom(bg, x.UID(u)) }, linkShow, nil))
			s = append(s, sliceShot(x, "GetTo("+u+")", func() ([]cache.Link, error) { return c.GetTo(bg, x.UID(u)) }, linkShow, nil))
		}
		var l []uuid.UID
		for _, u := range us {
			l = append(l, x.UID(u))
		}
		s = append(s, linkMapShot(x, "BulkGetFrom", func() (map[uuid.UID][]cache.Link, error) {
			in, chk := spare(x, l, sentinel)
			m, err := c.BulkGetFrom(bg, in)
			chk(sameUID, "BulkGetFrom")
			return m, err
		}))
		s = append(s, linkMapShot(x, "BulkGetTo", func() (map[uuid.UID][]cache.Link, error) {
			in, chk := spare(x, l, sentinel)
			m, err := c.BulkGetTo(bg, in)
			chk(sameUID, "BulkGetTo")
			return m, err
		}))
		return s
	}}
}

func (x *Exec) planComponent() *component {
	p, err := simple.NewSimple()
	if err != nil {
		x.Fail("P01", "new", "NewSimple: %v", err)
	}
	us := x.Pool("n", x.Size(1+x.IntN(6), 40))
	ver := 0
	return &component{"plan", func() {
		u := us[x.IntN(len(us))]
		if x.Chance(0.75) {
			ver++
			_ = p.Add(bg, x.planResource(u, "g", fmt.Sprint("v", ver), "k"))
			x.Log("Add(%q)", u)
		} else {
			_ = p.Delete(bg, x.UID(u))
			x.Log("Delete(%q)", u)
		}
	}, func() []shot {
		return []shot{sliceShot(x, "GetAll", func() ([]plan.Resource, error) { return p.GetAll(bg) }, func(r plan.Resource) string {
			if isNil(r) {
				return "nil"
			}
			return showRes(r)
		}, nil)}
	}}
}

func (x *Exec) attrsComponent() *component {
	src := x.AttrMap()
	var a attrs.Attrs = memattrs.NewFromMap(src)
	given := copyMap(src)
	return &component{"attributes", func() {
		k, v := x.Str(), x.Str()
		_ = a.Set(bg, k, v)
		if !sameMap(src, given) {
			x.Fail("X01 A01", "input", "the map given to NewFromMap changed to %s", showMap(src))
		}
		if x.Chance(0.2) {
			src[x.Str()+"junk"] = "junk"
			given = copyMap(src)
		}
		x.Log("Set(%q, %q)", k, v)
	}, func() []shot {
		return []shot{
			sliceShot(x, "Keys", func() ([]string, error) { return a.Keys(bg) }, func(s string) string { return s }, "junk"),
			sliceShot(x, "Attributes", func() ([]encoding.Attribute, error) { return a.(attrs.DOT).Attributes(), nil }, encShow, encoding.Attribute{Key: "junk"}),
			sliceShot(x, "DOTAttrs", func() ([]encoding.Attribute, error) { return memattrs.DOTAttrs(a), nil }, encShow, encoding.Attribute{Key: "junk"}),
			{"ToMap", func() (func() string, func()) {
				m, err := attrs.ToMap(bg, a)
				if err != nil {
					x.Fail("A01 X01", "query", "ToMap = %v", err)
				}
				return func() string { return showMap(m) }, func() {
					for k := range m {
						if x.Chance(0.5) {
							delete(m, k)
						} else {
							m[k] = "junk"
						}
					}
					if m != nil {
						m["junk"] = "junk"
					}
				}
			}},
		}
	}}
}

func snapshots(x *Exec) {
	mk := []func() *component{x.graphComponent, x.storeComponent, x.cacheComponent, x.planComponent, x.attrsComponent}
	c := mk[x.IntN(len(mk))]()
	x.Log("%s", c.name)
	var held []*snap
	check := func(when string) {
		for _, s := range held {
			if now := s.show(); now != s.was {
				x.Fail("X01", "snapshot", "%s: the result of %s taken earlier changed from %s to %s (%s)", c.name, s.what, s.was, now, when)
			}
		}
		x.Count("snapshots_compared", len(held))
	}
	state := func() map[string]string {
		m := map[string]string{}
		for _, s := range c.shots() {
			show, _ := s.query()
			m[s.what] = show()
		}
		return m
	}
	compare := func(a, b map[string]string, when string) {
		if !sameMap(a, b) {
			for k := range a {
				if a[k] != b[k] {
					x.Fail("X01", "component", "%s: %s of %s changed from %s to %s", when, k, c.name, a[k], b[k])
				}
			}
			x.Fail("X01", "component", "%s: the queries of %s changed", when, c.name)
		}
	}
	steps := x.More(4 + x.IntN(16))
	for i := 0; i < steps; i++ {
		c.op()
		check("an operation")
		before := state()
		shots := c.shots()
		for j := 1 + x.IntN(3); j > 0; j-- {
			s := shots[x.IntN(len(shots))]
			show, spoil := s.query()
			if x.Chance(0.5) {
				held = append(held, &snap{s.what, show, show()})
				if show() != "[]" {
					x.NonTrivial()
				}
			} else {
				spoil()
				x.Log("spoiled %s", s.what)
				x.Count("results_spoiled", 1)
				check("another result was changed by its owner")
				compare(before, state(), "after the result of "+s.what+" was changed by its owner")
			}
		}
		if len(held) > 12 {
			held = held[len(held)-12:]
		}
	}
}

// ------------------------------------------------------------------------- runner

// fullStore makes the library's store a store.Store.
type fullStore struct{ *memstore.Memory }

func (s fullStore) Graph(context.Context, ...store.Option) (graph.Graph, error) {
	return s.Memory.Graph()
}

type scrapeCall struct {
	ctx  context.Context
	p    plan.Plan
	opts netscrape.Options
}

type recorder struct {
	mu    sync.Mutex
	calls []scrapeCall
	ret   error
	do    func(ctx context.Context, p plan.Plan, o netscrape.Options) error
}

func (r *recorder) Scrape(ctx context.Context, p plan.Plan, opts ...netscrape.Option) error {
	o := netscrape.Options{}
	for _, f := range opts {
		f(&o)
	}
	r.mu.Lock()
	r.calls = append(r.calls, scrapeCall{ctx, p, o})
	r.mu.Unlock()
	if r.do != nil {
		return r.do(ctx, p, o)
	}
	return r.ret
}

type tagMarshaler struct{ tag string }

func (m *tagMarshaler) Marshal(i interface{}) ([]byte, error) { return []byte(m.tag), nil }

type ctxKey struct{}

type runComponents struct {
	stores     []store.Store
	brokers    []broker.Broker
	marshalers []broker.Marshaler
}

func (x *Exec) runComponents() *runComponents {
	c := &runComponents{}
	for i := 0; i < 3; i++ {
		s, err := memstore.NewStore()
		if err != nil {
			x.Fail("S01", "new", "NewStore: %v", err)
		}
		b, err := membroker.New()
		if err != nil {
			x.Fail("B01", "new", "broker.New: %v", err)
		}
		c.stores = append(c.stores, &fullStore{s})
		c.brokers = append(c.brokers, b)
		c.marshalers = append(c.marshalers, &tagMarshaler{fmt.Sprint("m", i)})
	}
	return c
}

// options returns a random set of options and what they set.
func (c *runComponents) options(x *Exec, base netscrape.Options) ([]netscrape.Option, netscrape.Options, string) {
	var opts []netscrape.Option
	o := base
	d := ""
	for i := x.IntN(5); i > 0; i-- {
		k := x.IntN(3)
		switch x.IntN(3) {
		case 0:
			o.Store = c.stores[k]
			opts = append(opts, netscrape.WithStore(o.Store))
			d += fmt.Sprint(" store", k)
		case 1:
			o.Broker = c.brokers[k]
			opts = append(opts, netscrape.WithBroker(o.Broker))
			d += fmt.Sprint(" broker", k)
		case 2:
			o.Marshaler = c.marshalers[k]
			opts = append(opts, netscrape.WithMarshaler(o.Marshaler))
			d += fmt.Sprint(" marshaler", k)
		}
	}
	return opts, o, d
}

type oddErr struct{ s string }

func (e oddErr) Error() string { return e.s }

// tempErr is an error with the methods of a network error.
type tempErr struct{ temporary bool }

func (e *tempErr) Error() string   { return "temporary" }
func (e *tempErr) Timeout() bool   { return true }
func (e *tempErr) Temporary() bool { return e != nil && e.temporary }

func (x *Exec) someErr() error {
	switch x.IntN(8) {
	case 0:
		return errors.New(x.Str())
	case 1:
		return context.Canceled
	case 4: // errors of the sort that invite retries or are mistaken for a success
		return fmt.Errorf("%s: %w", x.Str(), []error{context.DeadlineExceeded, context.Canceled, io.EOF, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, syscall.EAGAIN, syscall.EINTR, netscrape.ErrMissingPlan,
			netscrape.ErrNotImplemented, broker.ErrNotConnected, store.ErrAlreadyExists, store.ErrEntityNotFound, plan.ErrResourceNotFound}[x.IntN(13)])
	case 5:
		return []error{context.DeadlineExceeded, io.EOF, netscrape.ErrMissingPlan, errors.Join(x.someErr(), errors.New("joined")), (*tempErr)(nil), &tempErr{x.Chance(0.5)}}[x.IntN(6)]
	case 2:
		return oddErr{x.Str()}
	case 3:
		return netscrape.ErrNotImplemented
	}
	return nil
}

// runOnce prepares one run and returns how to do it and how to check it.
func (x *Exec) runOnce(r *netscrape.Runner, c *runComponents, base netscrape.Options) (do, check func()) {
	return x.runWith(r, c, base, nil)
}

// runWith is runOnce with a scraper that calls inside, if it is not nil.
func (x *Exec) runWith(r *netscrape.Runner, c *runComponents, base netscrape.Options, inside func()) (do, check func()) {
	opts, want, d := c.options(x, base)
	sc := &recorder{ret: x.someErr()}
	if inside != nil {
		sc.do = func(context.Context, plan.Plan, netscrape.Options) error { inside(); return sc.ret }
	}
	p, err := simple.NewSimple()
	if err != nil {
		x.Fail("P01", "new", "NewSimple: %v", err)
	}
	tag := x.Uint64()
	ctx, cancel := context.WithCancel(context.WithValue(bg, ctxKey{}, tag))
	noPlan := inside == nil && x.Chance(0.1)
	cancelled := x.Chance(0.1)
	if cancelled {
		cancel()
	}
	hit := false
	opts, chk := optSpare(x, opts, func(*netscrape.Options) { hit = true }, func() bool { h := hit; hit = false; return h })
	x.Log("Run(%s) plan=%v scraper returns %v", d, !noPlan, sc.ret)
	var got error
	return func() {
			if noPlan {
				got = r.Run(ctx, nil, sc, opts...)
			} else {
				got = r.Run(ctx, p, sc, opts...)
			}
		}, func() {
			defer cancel()
			x.Count("runs", 1)
			chk(func(o netscrape.Option) { o(&netscrape.Options{}) }, "Run")
			if noPlan {
				if !errors.Is(got, netscrape.ErrMissingPlan) || len(sc.calls) != 0 {
					x.Fail("R01", "noplan", "Run without a plan = %v, scraper called %d times", got, len(sc.calls))
				}
				return
			}
			if len(sc.calls) != 1 {
				x.Fail("R01", "calls", "scraper called %d times", len(sc.calls))
			}
			if got != sc.ret {
				x.Fail("R01", "error", "Run = %v, scraper returned %v", got, sc.ret)
			}
			call := sc.calls[0]
			if call.ctx == nil || call.ctx.Value(ctxKey{}) != tag {
				x.Fail("R01", "context", "scraper got another context")
			}
			if call.p != plan.Plan(p) {
				x.Fail("R01", "plan", "scraper got another plan")
			}
			if call.opts.Store != want.Store || call.opts.Broker != want.Broker || call.opts.Marshaler != want.Marshaler {
				x.Fail("R01", "options", "scraper got store %p, broker %p, marshaler %p; in force are %p, %p, %p", call.opts.Store, call.opts.Broker, call.opts.Marshaler, want.Store, want.Broker, want.Marshaler)
			}
		}
}

func runnerSeq(x *Exec) {
	c := x.runComponents()
	opts, base, d := c.options(x, netscrape.Options{})
	x.Log("NewRunner(%s)", d)
	r, err := netscrape.NewRunner(opts...)
	if err != nil {
		x.Fail("R01", "new", "NewRunner: %v", err)
	}
	for i := range opts {
		opts[i] = netscrape.WithStore(nil)
	}
	n := 1 + x.IntN(6)
	for i := 0; i < n; i++ {
		do, check := x.runOnce(r, c, base)
		for k := x.IntN(8) - 4; k > 0; k-- {
			// a scraper may use the runner itself
			do2, check2 := do, check
			var check3 func()
			do, check3 = x.runWith(r, c, base, do2)
			check = func() { check2(); check3() }
		}
		do()
		check()
	}
	if x.Chance(0.2) {
		// the context of the run reaches the scraper
		p, _ := simple.NewSimple()
		ctx, cancel := context.WithCancel(bg)
		seen := false
		err := r.Run(ctx, p, &recorder{do: func(ctx context.Context, _ plan.Plan, _ netscrape.Options) error {
			cancel()
			select {
			case <-ctx.Done():
				seen = true
			case <-time.After(time.Second):
			}
			return ctx.Err()
		}})
		if !seen || !errors.Is(err, context.Canceled) {
			x.Fail("R01", "context", "the cancellation of the context of the run does not reach the scraper (%v)", err)
		}
	}
	x.NonTrivial()
}

func runnerConcurrent(x *Exec) {
	c := x.runComponents()
	opts, base, d := c.options(x, netscrape.Options{})
	x.Log("NewRunner(%s)", d)
	r, err := netscrape.NewRunner(opts...)
	if err != nil {
		x.Fail("R01", "new", "NewRunner: %v", err)
	}
	var wg sync.WaitGroup
	var checks []func()
	begin := make(chan struct{})
	// the scrapers may wait until all of them run
	meet := x.Chance(0.3)
	all := make(chan struct{})
	n := 2 + x.IntN(4)
	var in atomic.Int32
	inside := func() {
		if int(in.Add(1)) == n {
			close(all)
		}
		select {
		case <-all:
		case <-time.After(60 * time.Second):
			x.Report("R01", "waits", "a run waits for another to end: %d of %d concurrent runs have called their scrapers after 60 s", in.Load(), n)
		}
	}
	x.Log("runs=%d meet=%v", n, meet)
	for i := n; i > 0; i-- {
		var dos []func()
		for j := 1 + x.IntN(3); j > 0; j-- {
			do, check := x.runOnce(r, c, base)
			if meet {
				do, check = x.runWith(r, c, base, inside)
				j = 0
			}
			dos, checks = append(dos, do), append(checks, check)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			x.Guard("a run", func() {
				for _, do := range dos {
					do()
				}
			})
		}()
	}
	close(begin)
	wg.Wait()
	if x.Failed() {
		panic(abort{})
	}
	for _, c := range checks {
		c()
	}
	x.NonTrivial()
}

// useComponents runs a scrape whose data goes through the library's own components and ends up in a store.
func useComponents(x *Exec) {
	b, err := membroker.New(broker.WithCap(x.IntN(8)))
	if err != nil {
		x.Fail("R01", "components", "broker: %v", err)
	}
	st, err := memstore.NewStore()
	if err != nil {
		x.Fail("R01", "components", "store: %v", err)
	}
	m := x.marshaler()
	bb, ok := interface{}(b).(broker.Broker)
	if !ok {
		x.Fail("R01", "broker-interface", "the in-memory broker cannot be used as broker of a runner")
	}
	mm, ok := interface{}(m).(broker.Marshaler)
	if !ok {
		x.Fail("R01", "marshaler-interface", "the JSON marshaler cannot be used as marshaler of a runner")
	}
	um, ok := interface{}(m).(broker.Unmarshaler)
	if !ok {
		x.Fail("R01", "marshaler-interface", "the JSON marshaler cannot be used as unmarshaler")
	}
	ss, okStore := interface{}(st).(store.Store)
	if !okStore {
		ss = fullStore{st}
	}
	x.Cleanup(func() { _ = b.Close() })
	if err := b.Open(bg); err != nil {
		x.Fail("R01", "components", "Open: %v", err)
	}
	r, err := netscrape.NewRunner(netscrape.WithBroker(bb), netscrape.WithStore(ss), netscrape.WithMarshaler(mm))
	if err != nil {
		x.Fail("R01", "new", "NewRunner: %v", err)
	}
	p, err := simple.NewSimple()
	if err != nil {
		x.Fail("P01", "new", "NewSimple: %v", err)
	}
	want := map[string]*val{}
	var vals []*val
	n := 1 + x.IntN(10)
	for _, u := range x.Pool("e", n) {
		v := x.newVal([]string{"entity", "object", "resource"}[x.IntN(3)])
		v.uid = u
		want[u] = v
		vals = append(vals, v)
	}
	types := map[string]broker.Type{"entity": broker.Entity, "object": broker.Object, "resource": broker.Resource}
	sub, err := b.Sub(bg, "scraped")
	if err != nil {
		x.Fail("R01", "components", "Sub: %v", err)
	}
	errDone := errors.New("all received")
	seen := 0
	digest := make(chan error, 1)
	go func() {
		x.Guard("digesting", func() {
			d, err := dsimple.NewDigester()
			if err != nil {
				digest <- err
				return
			}
			digest <- d.Digest(bg, sub, digester.WithHandler(func(ctx context.Context, msg broker.Message) error {
				var e store.Entity
				switch msg.Type {
				case broker.Entity:
					var v space.Entity
					if err := um.Unmarshal(msg.Data, &v); err != nil {
						return err
					}
					e = v
				case broker.Object:
					var v space.Object
					if err := um.Unmarshal(msg.Data, &v); err != nil {
						return err
					}
					e = v
				case broker.Resource:
					var v space.Resource
					if err := um.Unmarshal(msg.Data, &v); err != nil {
						return err
					}
					e = v
				default:
					return fmt.Errorf("message of type %v", msg.Type)
				}
				if err := ss.Add(ctx, e); err != nil {
					return err
				}
				if seen++; seen == len(vals) {
					return errDone
				}
				return nil
			}))
		})
	}()
	err = r.Run(bg, p, &recorder{do: func(ctx context.Context, _ plan.Plan, o netscrape.Options) error {
		in, err := isimple.NewIngester(ingester.WithMarshaler(o.Marshaler))
		if err != nil {
			return err
		}
		for _, v := range vals {
			if err := in.Ingest(ctx, o.Broker, "scraped", types[v.kind], x.build(v)); err != nil {
				return err
			}
		}
		return nil
	}})
	if err != nil {
		x.Fail("R01", "components", "a run over the library's components = %v", err)
	}
	if err := <-digest; err != errDone {
		x.Fail("R01", "components", "digesting = %v", err)
	}
	for u, v := range want {
		e, err := ss.Get(bg, x.UID(u))
		if err != nil {
			x.Fail("R01", "components", "scraped entity %q is not in the store: %v", u, err)
		}
		a, err := attrsOf(e.Attrs())
		if err != nil || e.Type() != v.typ || !sameMap(a, v.attrs) {
			x.Fail("R01", "components", "scraped entity %v is stored with type %q and attributes %s", v, e.Type(), showMap(a))
		}
	}
	x.Count("scraped", len(vals))
	_ = b.Close()
	x.Log("scraped %d values: %v", len(vals), vals)
	x.NonTrivial()
	if !okStore {
		x.Fail("R01", "store-interface", "the in-memory store (*store/memory.Memory) cannot be used as store of a runner: it is not a store.Store")
	}
}

func init() {
	register("U01",
		&Part{Name: "concurrent", Engine: Sim, Perturb: true, Quick: 16000, Thorough: 400000, Run: uidConcurrent,
			Rule: "2 to 5 goroutines generating ids through every constructor that generates one, under perturbed schedules, every id compared with all ids the process has seen and a sample across processes; ids made from arbitrary bytes looked at again at the end; every execution is non-trivial"},
		&Part{Name: "many", Engine: Sim, NoBubble: true, Quick: 400, Thorough: 4000, Run: uidMany,
			Rule: "2000 ids per execution compared with all ids the process has seen; every execution is non-trivial"},
		&Part{Name: "race", Engine: Race, Quick: 1200, Thorough: 40000, Run: uidConcurrent,
			Rule: "the same free running on several processors under the race detector; every execution is non-trivial"},
	)
	register("X01", &Part{Name: "snapshots", Engine: Sim, Quick: 16000, Thorough: 800000, Run: snapshots,
		Rule: "random operations on one component; results of all its queries are kept and compared later, or overwritten, truncated and appended to before all queries are compared again; lists handed in have guarded spare room and are overwritten afterwards; non-trivial: a non-empty result was kept"})
	register("R01",
		&Part{Name: "options", Engine: Sim, Quick: 16000, Thorough: 400000, Run: runnerSeq,
			Rule: "random options at construction and per run, sequences of runs with a recording scraper; every execution is non-trivial"},
		&Part{Name: "components", Engine: Sim, Quick: 1600, Thorough: 40000, Run: useComponents,
			Rule: "a scrape whose data travels through the library's marshaler, broker, digester and store; every execution is non-trivial"},
		&Part{Name: "concurrent", Engine: Sim, Perturb: true, Quick: 8000, Thorough: 200000, Run: runnerConcurrent,
			Rule: "concurrent runs of one runner with different options under perturbed schedules; every execution is non-trivial"},
		&Part{Name: "race", Engine: Race, Quick: 1200, Thorough: 40000, Run: runnerConcurrent,
			Rule: "concurrent runs of one runner with different options under the race detector; every execution is non-trivial"},
	)
}
