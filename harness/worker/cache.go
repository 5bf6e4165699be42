package worker

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// ------------------------------------------------------------------ link cache

type myLink struct {
	uid, from, to uuid.UID
	a             attrs.Attrs
}

func (l *myLink) UID() uuid.UID      { return l.uid }
func (l *myLink) From() uuid.UID     { return l.from }
func (l *myLink) To() uuid.UID       { return l.to }
func (l *myLink) Attrs() attrs.Attrs { return l.a }

type mLink struct {
	uid, from, to string
	attrs         map[string]string
	link          cache.Link
}

type cRun struct {
	*Exec
	c   *memcache.Links
	us  []string
	m   map[[2]string]*mLink
	old []*mLink
	ver int
}

func (r *cRun) uid() string { return r.us[r.IntN(len(r.us))] }

func (r *cRun) newLink(from, to string) *mLink {
	r.ver++
	w := &mLink{uid: fmt.Sprintf("L%d", r.ver), from: from, to: to, attrs: r.AttrMap()}
	if r.Chance(0.1) && len(r.old) > 0 {
		w.uid = r.old[0].uid // unique ids of links do not matter to the cache
	}
	if r.Chance(0.3) {
		w.link = &myLink{r.UID(w.uid), r.UID(from), r.UID(to), r.Attrs(w.attrs)}
	} else {
		l, err := link.New(r.UID(from), r.UID(to), link.WithUID(r.UID(w.uid)), link.WithAttrs(r.Attrs(w.attrs)))
		if err != nil {
			r.Fail("E01", "link-new", "link.New: %v", err)
		}
		w.link = l
	}
	r.old = append(r.old, w)
	return w
}

// put applies a put to the model.
func (r *cRun) put(w *mLink, upsert bool) {
	k := [2]string{w.from, w.to}
	if r.m[k] == nil || upsert {
		r.m[k] = w
	}
}

func (r *cRun) del(u string) {
	for k := range r.m {
		if k[0] == u || k[1] == u {
			delete(r.m, k)
		}
	}
}

func sameLink(l cache.Link, w *mLink) string {
	if l == nil {
		return "nil link"
	}
	if u, f, t := l.UID().String(), l.From().String(), l.To().String(); u != w.uid || f != w.from || t != w.to {
		return fmt.Sprintf("link %q from %q to %q, want link %q from %q to %q", u, f, t, w.uid, w.from, w.to)
	}
	a, err := attrsOf(l.Attrs())
	if err != nil {
		return err.Error()
	}
	if !sameMap(a, w.attrs) {
		return fmt.Sprintf("link %q has attributes %s, want %s", w.uid, showMap(a), showMap(w.attrs))
	}
	return ""
}

// checkList compares the links from (dir 0) or to (dir 1) u with the model.
func (r *cRun) checkList(ls []cache.Link, u string, dir int) string {
	seen := map[string]bool{}
	for _, l := range ls {
		if l == nil {
			return "nil link"
		}
		k := [2]string{l.From().String(), l.To().String()}
		if k[dir] != u {
			return fmt.Sprintf("link from %q to %q", k[0], k[1])
		}
		o := k[1-dir]
		if seen[o] {
			return fmt.Sprintf("two links from %q to %q", k[0], k[1])
		}
		seen[o] = true
		w := r.m[k]
		if w == nil {
			return fmt.Sprintf("link from %q to %q, which is not in the cache", k[0], k[1])
		}
		if s := sameLink(l, w); s != "" {
			return s
		}
	}
	n := 0
	for k := range r.m {
		if k[dir] == u {
			n++
		}
	}
	if n != len(ls) {
		return fmt.Sprintf("%d links, want %d", len(ls), n)
	}
	return ""
}

func (r *cRun) check(props string, full bool) {
	us := r.us
	if !full && len(us) > 8 {
		us = append([]string{}, us...)
		shuffle(r.Exec, us)
		us = us[:8]
	}
	for _, u := range us {
		ls, err := r.c.GetFrom(bg, r.UID(u))
		if err != nil {
			r.Fail(props, "get", "GetFrom(%q) = %v", u, err)
		}
		if s := r.checkList(ls, u, 0); s != "" {
			r.Fail(props, "from", "GetFrom(%q): %s", u, s)
		}
		if ls, err = r.c.GetTo(bg, r.UID(u)); err != nil {
			r.Fail(props, "get", "GetTo(%q) = %v", u, err)
		}
		if s := r.checkList(ls, u, 1); s != "" {
			r.Fail(props, "to", "GetTo(%q): %s", u, s)
		}
	}
	r.Count("view_comparisons", 1)
}

func (r *cRun) uidList(max int) ([]string, []uuid.UID) {
	n := r.IntN(r.listMax(max) + 1)
	var ss []string
	var us []uuid.UID
	for i := 0; i < n; i++ {
		s := r.uid()
		ss = append(ss, s)
		us = append(us, r.UID(s))
	}
	return ss, us
}

func cacheUpsert(x *Exec, upsert bool) []cache.Option {
	if !upsert {
		return nil
	}
	return []cache.Option{cache.WithUpsert()}
}

// step performs one operation; weights: put, upsert, bulk put, delete, bulk delete, clear, bulk get, get.
func (r *cRun) step(w [8]int) {
	switch op := r.Pick(w[:]...); op {
	case 0, 1:
		l := r.newLink(r.uid(), r.uid())
		if r.Chance(0.15) && len(r.old) > 0 {
			l = r.old[r.IntN(len(r.old))]
		}
		r.Log("Put(%q: %q -> %q, upsert=%v)", l.uid, l.from, l.to, op == 1)
		if err := r.c.Put(bg, l.link, cacheUpsert(r.Exec, op == 1)...); err != nil {
			r.Fail("C01 C02 C03", "put", "Put = %v", err)
		}
		r.put(l, op == 1)
		r.check("C01 C02 C03", false)
	case 2:
		upsert := r.Chance(0.4)
		n := r.IntN(r.listMax(6))
		if r.Big {
			n = r.IntN(60)
		}
		var ls []cache.Link
		for i := 0; i < n; i++ {
			l := r.newLink(r.uid(), r.uid())
			r.Log("  bulk %q: %q -> %q", l.uid, l.from, l.to)
			ls = append(ls, l.link)
			r.put(l, upsert)
		}
		r.Log("BulkPut(%d, upsert=%v)", n, upsert)
		if err := r.c.BulkPut(bg, ls, cacheUpsert(r.Exec, upsert)...); err != nil {
			r.Fail("C01 C02 C03", "put", "BulkPut = %v", err)
		}
		r.check("C01 C02 C03", false)
	case 3:
		u := r.uid()
		r.Log("Delete(%q)", u)
		if err := r.c.Delete(bg, r.UID(u)); err != nil {
			r.Fail("C01 C03", "delete", "Delete(%q) = %v", u, err)
		}
		r.del(u)
		r.check("C01 C03", false)
	case 4:
		ss, us := r.uidList(4)
		r.Log("BulkDelete(%q)", ss)
		if err := r.c.BulkDelete(bg, us); err != nil {
			r.Fail("C01 C03", "delete", "BulkDelete(%q) = %v", ss, err)
		}
		for _, s := range ss {
			r.del(s)
		}
		r.check("C01 C03", false)
	case 5:
		r.Log("Clear")
		if err := r.c.Clear(bg); err != nil {
			r.Fail("C01 C03", "clear", "Clear = %v", err)
		}
		r.m = map[[2]string]*mLink{}
		r.check("C01 C03", true)
	case 6:
		ss, us := r.uidList(6)
		for dir, get := range []func() (map[uuid.UID][]cache.Link, error){
			func() (map[uuid.UID][]cache.Link, error) { return r.c.BulkGetFrom(bg, us) },
			func() (map[uuid.UID][]cache.Link, error) { return r.c.BulkGetTo(bg, us) },
		} {
			m, err := get()
			if err != nil {
				r.Fail("C01", "bulkget", "BulkGet (%d) of %q = %v", dir, ss, err)
			}
			for i, u := range us {
				if s := r.checkList(m[u], ss[i], dir); s != "" {
					r.Fail("C01", "bulkget", "BulkGet (%d) of %q, answer for %q: %s", dir, ss, ss[i], s)
				}
			}
			for u := range m {
				found := false
				for _, v := range us {
					found = found || v.String() == u.String()
				}
				if !found {
					r.Fail("C01", "bulkget", "BulkGet (%d) of %q answers for %q", dir, ss, u.String())
				}
			}
		}
		r.Log("BulkGet(%q)", ss)
		r.check("C01", false)
	case 7:
		r.check("C01 C02 C03", true)
	}
}

func cacheSeq(w [8]int) func(x *Exec) {
	return func(x *Exec) {
		c, err := memcache.NewLinks()
		if err != nil {
			x.Fail("C01", "new", "NewLinks: %v", err)
		}
		nu := x.Size(1+x.IntN(6), 100)
		steps := x.More(3 + x.IntN(40))
		if x.Big {
			nu, steps = 20+x.IntN(200), 300
		}
		r := &cRun{Exec: x, c: c, us: x.Pool("u", nu), m: map[[2]string]*mLink{}}
		x.Log("ids=%q", r.us)
		if _, ok := interface{}(c).(cache.BulkLinks); !ok {
			x.Fail("C01", "interface", "the cache is not a cache.BulkLinks")
		}
		most := 0
		for i := 0; i < steps; i++ {
			r.step(w)
			if len(r.m) > most {
				most = len(r.m)
			}
		}
		r.check("C01 C02 C03", true)
		x.Count("operations", steps)
		if most > 1 {
			x.NonTrivial()
		}
	}
}

// ------------------------------------------------------------------------ plan

type myResource struct {
	uid     uuid.UID
	g, v, k string
}

func (r *myResource) UID() uuid.UID   { return r.uid }
func (r *myResource) Group() string   { return r.g }
func (r *myResource) Version() string { return r.v }
func (r *myResource) Kind() string    { return r.k }

func (x *Exec) planResource(uid, g, v, k string) plan.Resource {
	if x.Chance(0.3) {
		return &myResource{x.UID(uid), g, v, k}
	}
	n := "n"
	if x.Chance(0.4) {
		n = fmt.Sprint("n", x.IntN(1000))
	}
	r, err := entity.NewResource("t", n, g, v, k, x.Chance(0.5), entity.WithUID(x.UID(uid)), entity.WithAttrs(x.Attrs(x.AttrMap())))
	if err != nil {
		x.Fail("E01", "resource-new", "NewResource: %v", err)
	}
	return r
}

func showRes(r plan.Resource) string {
	if r == nil {
		return "nil"
	}
	return strings.Join([]string{r.UID().String(), r.Group(), r.Version(), r.Kind()}, "\x01")
}

// showFull renders all there is to know of a resource.
func showFull(r plan.Resource) string {
	s := showRes(r)
	if f, ok := r.(space.Resource); ok && !isNil(r) {
		m, err := attrsOf(f.Attrs())
		s += fmt.Sprintf(" name=%q type=%q namespaced=%v attrs=%s (%v)", f.Name(), f.Type(), f.Namespaced(), showMap(m), err)
	}
	return s
}

func planSeq(x *Exec) {
	p, err := simple.NewSimple()
	if err != nil {
		x.Fail("P01", "new", "NewSimple: %v", err)
	}
	nu, steps := x.Size(1+x.IntN(8), 100), x.More(3+x.IntN(50))
	if x.Big {
		nu, steps = 20+x.IntN(500), 600
	}
	us := x.Pool("r", nu)
	x.Log("ids=%q", us)
	m := map[string]string{}
	var old []plan.Resource
	last := map[string]plan.Resource{}
	check := func(full bool) {
		rs, err := p.GetAll(bg)
		if err != nil {
			x.Fail("P01", "getall", "GetAll = %v", err)
		}
		seen := map[string]bool{}
		for _, r := range rs {
			if r == nil {
				x.Fail("P01", "getall", "GetAll returns nil")
			}
			u := r.UID().String()
			if seen[u] {
				x.Fail("P01", "getall", "GetAll returns %q twice", u)
			}
			seen[u] = true
			if w, ok := m[u]; !ok || w != showFull(r) {
				x.Fail("P01", "getall", "GetAll returns %q for %q, want %q (%v)", showFull(r), u, w, ok)
			}
		}
		if len(rs) != len(m) {
			x.Fail("P01", "getall", "GetAll returns %d resources, want %d", len(rs), len(m))
		}
		for i, u := range us {
			if !full && i > 8 {
				break
			}
			r, err := p.Get(bg, x.UID(u))
			w, ok := m[u]
			switch {
			case !ok && !errors.Is(err, plan.ErrResourceNotFound):
				x.Fail("P01", "get", "Get(%q) = %v, want %v", u, err, plan.ErrResourceNotFound)
			case ok && err != nil:
				x.Fail("P01", "get", "Get(%q) = %v", u, err)
			case ok && showFull(r) != w:
				x.Fail("P01", "get", "Get(%q) = %q, want %q", u, showFull(r), w)
			}
		}
		x.Count("view_comparisons", 1)
	}
	most := 0
	for i := 0; i < steps; i++ {
		u := us[x.IntN(len(us))]
		switch x.Pick(6, 3, 1) {
		case 0:
			g, v, k := x.Str(), fmt.Sprintf("v%d", i), x.Str()
			if x.Chance(0.3) {
				// many resources have the same group, version or kind, or none
				g = plainValues[x.IntN(2)]
			}
			if x.Chance(0.3) {
				v = plainValues[x.IntN(3)]
			}
			if x.Chance(0.3) {
				k = plainValues[x.IntN(2)]
			}
			// a resource added again may differ from the one before in little
			if l := last[u]; l != nil {
				if x.Chance(0.5) {
					g = l.Group()
				}
				if x.Chance(0.5) {
					v = l.Version()
				}
				if x.Chance(0.5) {
					k = l.Kind()
				}
			}
			r := x.planResource(u, g, v, k)
			if x.Chance(0.2) && len(old) > 0 {
				r = old[x.IntN(len(old))]
			}
			old = append(old, r)
			x.Log("Add(%q)", showFull(r))
			if err := p.Add(bg, r); err != nil {
				x.Fail("P01", "add", "Add = %v", err)
			}
			m[r.UID().String()] = showFull(r)
			last[r.UID().String()] = r
		case 1:
			x.Log("Delete(%q)", u)
			if err := p.Delete(bg, x.UID(u)); err != nil {
				x.Fail("P01", "delete", "Delete(%q) = %v", u, err)
			}
			delete(m, u)
		case 2:
			check(true)
		}
		if len(m) > most {
			most = len(m)
		}
		check(i%10 == 9)
	}
	x.Count("operations", steps)
	if most > 1 {
		x.NonTrivial()
	}
}

func sortedSet(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func init() {
	// put, upsert, bulk put, delete, bulk delete, clear, bulk get, get
	rule := "random operation sequences on a fresh cache, both lookups of every id compared with a link-set model after every operation, unique ids carried by varying values; non-trivial: two or more links were cached at a time"
	register("C01", &Part{Name: "model", Engine: Sim, Quick: 20000, Thorough: 800000, Rule: rule, Run: cacheSeq([8]int{20, 8, 6, 6, 3, 1, 10, 2})})
	register("C02", &Part{Name: "model-put", Engine: Sim, Quick: 20000, Thorough: 800000, Rule: rule, Run: cacheSeq([8]int{30, 25, 12, 3, 2, 1, 2, 2})})
	register("C03", &Part{Name: "model-delete", Engine: Sim, Quick: 20000, Thorough: 800000, Rule: rule, Run: cacheSeq([8]int{25, 6, 12, 14, 8, 3, 2, 2})})
	register("P01", &Part{Name: "model", Engine: Sim, Quick: 8000, Thorough: 400000, Rule: "random add, get, get-all and delete sequences on a fresh plan compared with a map after every operation; non-trivial: two or more resources were planned at a time", Run: planSeq})
}
