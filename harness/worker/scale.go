package worker

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/store"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// Many more things than in the random operation sequences: the guarantees know no numbers.

// scale returns a number of things, up to about max: of any magnitude, often just over a round one.
func (x *Exec) scale(max int) int {
	if v, ok := x.Near(3 * max); ok && v > 8 {
		return v + x.Rand.IntN(40)
	}
	if x.Chance(0.45) {
		var round []int
		for _, b := range []int{100, 128, 200, 250, 256, 300, 500, 512, 1000, 1024, 2000, 2048, 2500, 3000, 4000, 4096, 5000, 8000, 8192, 10000, 16384, 20000, 32768, 65536} {
			if b < max {
				round = append(round, b)
			}
		}
		return round[x.Rand.IntN(len(round))] + 1 + x.Rand.IntN(60)
	}
	lo, hi := math.Log(64), math.Log(float64(max))
	return int(math.Exp(lo + x.Float64()*(hi-lo)))
}

// some are a few indexes below n, the first and the last among them.
func (x *Exec) some(n, k int) []int {
	r := []int{0, n - 1, n / 2}
	for i := 0; i < k; i++ {
		r = append(r, x.Rand.IntN(n))
	}
	return r
}

func (x *Exec) ids(prefix string, n int) (ss []string, us []uuid.UID) {
	for i := 0; i < n; i++ {
		ss = append(ss, fmt.Sprintf("%s%d", prefix, i))
		us = append(us, x.UID(ss[i]))
	}
	return
}

func scaleAttrs(x *Exec) {
	n := x.scale(6000)
	x.Log("%d attributes", n)
	m := map[string]string{}
	for i := 0; i < n; i++ {
		m[fmt.Sprintf("key%d", i)] = fmt.Sprintf("value%d", i*7)
	}
	same := func(what string, a *memattrs.Attrs, m map[string]string) {
		keys, err := a.Keys(bg)
		if err != nil || len(keys) != len(m) {
			x.Fail("A01", "scale", "%s: %d keys, want %d (%v)", what, len(keys), len(m), err)
		}
		seen := map[string]bool{}
		for _, k := range keys {
			if seen[k] {
				x.Fail("A01", "scale", "%s: key %q twice", what, k)
			}
			seen[k] = true
			v, err := a.Get(bg, k)
			if w, ok := m[k]; !ok || v != w || err != nil {
				x.Fail("A01", "scale", "%s: %q is %q, want %q (%v, %v)", what, k, v, w, ok, err)
			}
		}
		c, err := attrs.ToMap(bg, a)
		if err != nil || !sameMap(c, m) {
			x.Fail("A01", "scale", "%s: the map of %d attributes has %d (%v)", what, len(m), len(c), err)
		}
		l := a.Attributes()
		d := map[string]string{}
		for _, e := range l {
			d[e.Key] = e.Value
		}
		if len(l) != len(m) || !sameMap(d, m) {
			x.Fail("A01", "scale", "%s: %d DOT attributes of %d attributes", what, len(l), len(m))
		}
		x.Count("attributes_compared", len(m))
	}
	a := memattrs.NewFromMap(m)
	same("from a map", a, m)
	var src attrs.Attrs = a
	if x.Chance(0.4) {
		src = &myAttrs{copyMap(m)}
	}
	b, err := memattrs.NewCopyFrom(bg, src)
	if err != nil {
		x.Fail("A01", "copy", "NewCopyFrom = %v", err)
	}
	same("copy", b, m)
	c := memattrs.New()
	for i := 0; i < n; i++ {
		if err := c.Set(bg, fmt.Sprintf("key%d", i), fmt.Sprintf("value%d", i*7)); err != nil {
			x.Fail("A01", "set", "Set = %v", err)
		}
	}
	same("set one by one", c, m)
	mb := copyMap(m)
	for _, i := range x.some(n, 40) {
		k := fmt.Sprintf("key%d", i)
		_ = b.Set(bg, k, "changed")
		mb[k] = "changed"
	}
	same("copy, changed", b, mb)
	same("original of the changed copy", a, m)
	x.NonTrivial()
}

func scaleCache(x *Exec) {
	n := x.scale(6000)
	c, err := memcache.NewLinks()
	if err != nil {
		x.Fail("C01", "new", "NewLinks: %v", err)
	}
	ss, us := x.ids("u", n)
	hub := x.UID("hub")
	dir := x.Pick(2, 2, 1, 1) // from the hub, to the hub, both, a ring too
	x.Log("%d links, direction %d", n, dir)
	mk := func(f, t uuid.UID, id string) cache.Link {
		l, err := link.New(f, t, link.WithUID(x.UID(id)))
		if err != nil {
			x.Fail("E01", "new", "link.New = %v", err)
		}
		return l
	}
	// from and to hold the ids of the links from and to the hub by the other end
	from, to, ring := map[string]string{}, map[string]string{}, map[int]string{}
	putAll := func(ver string, upsert bool) {
		var ls []cache.Link
		for i, s := range ss {
			id := ver + s
			if dir != 1 {
				ls = append(ls, mk(hub, us[i], id))
				if _, ok := from[s]; !ok || upsert {
					from[s] = id
				}
			}
			if dir != 0 {
				ls = append(ls, mk(us[i], hub, id))
				if _, ok := to[s]; !ok || upsert {
					to[s] = id
				}
			}
			if dir == 3 {
				ls = append(ls, mk(us[i], us[(i+1)%n], id))
				if _, ok := ring[i]; !ok || upsert {
					ring[i] = id
				}
			}
		}
		if x.Chance(0.5) {
			shuffle(x, ls)
		}
		if x.Chance(0.5) {
			if err := c.BulkPut(bg, ls, cacheUpsert(x, upsert)...); err != nil {
				x.Fail("C01", "bulkput", "BulkPut = %v", err)
			}
			return
		}
		for _, l := range ls {
			if err := c.Put(bg, l, cacheUpsert(x, upsert)...); err != nil {
				x.Fail("C01", "put", "Put = %v", err)
			}
		}
	}
	list := func(what string, ls []cache.Link, err error, u string, dir int, want map[string]string) {
		if err != nil {
			x.Fail(x.Prop, "scale", "%s(%q) = %v", what, u, err)
		}
		seen := map[string]bool{}
		for _, l := range ls {
			ends := [2]string{l.From().String(), l.To().String()}
			o := ends[1-dir]
			if ends[dir] != u || seen[o] || want[o] != l.UID().String() {
				x.Fail(x.Prop, "scale", "%s(%q): link %q from %q to %q (seen %v), want %q", what, u, l.UID().String(), ends[0], ends[1], seen[o], want[o])
			}
			seen[o] = true
		}
		if len(ls) != len(want) {
			x.Fail(x.Prop, "scale", "%s(%q): %d links, want %d", what, u, len(ls), len(want))
		}
		x.Count("links_compared", len(ls))
	}
	// of spoke i the links from and to it
	spoke := func(i int) (f, t map[string]string) {
		f, t = map[string]string{}, map[string]string{}
		if id, ok := to[ss[i]]; ok {
			f["hub"] = id
		}
		if id, ok := from[ss[i]]; ok {
			t["hub"] = id
		}
		if id, ok := ring[i]; ok {
			f[ss[(i+1)%n]] = id
		}
		if id, ok := ring[(i+n-1)%n]; ok {
			t[ss[(i+n-1)%n]] = id
		}
		return
	}
	check := func() {
		ls, err := c.GetFrom(bg, x.UID("hub"))
		list("GetFrom", ls, err, "hub", 0, from)
		ls, err = c.GetTo(bg, x.UID("hub"))
		list("GetTo", ls, err, "hub", 1, to)
		for _, i := range x.some(n, 30) {
			f, t := spoke(i)
			ls, err := c.GetFrom(bg, us[i])
			list("GetFrom", ls, err, ss[i], 0, f)
			ls, err = c.GetTo(bg, us[i])
			list("GetTo", ls, err, ss[i], 1, t)
		}
		all := append(append([]uuid.UID{}, us...), hub)
		bf, err1 := c.BulkGetFrom(bg, all)
		bt, err2 := c.BulkGetTo(bg, all)
		if err1 != nil || err2 != nil || len(bf) > len(all) || len(bt) > len(all) {
			x.Fail(x.Prop, "scale", "lookup of %d ids: %d, %d answers (%v, %v)", len(all), len(bf), len(bt), err1, err2)
		}
		list("BulkGetFrom", bf[hub], nil, "hub", 0, from)
		list("BulkGetTo", bt[hub], nil, "hub", 1, to)
		for i := range us {
			f, t := spoke(i)
			list("BulkGetFrom", bf[us[i]], nil, ss[i], 0, f)
			list("BulkGetTo", bt[us[i]], nil, ss[i], 1, t)
		}
	}
	del := func(i int) {
		delete(from, ss[i])
		delete(to, ss[i])
		delete(ring, i)
		delete(ring, (i+n-1)%n)
	}
	putAll("a", x.Chance(0.3))
	check()
	if x.Prop == "C02" || x.Chance(0.4) {
		putAll("b", x.Chance(0.6))
		check()
	}
	var gone []uuid.UID
	share := x.Float64()
	for i := range us {
		if x.Chance(share) {
			gone = append(gone, us[i])
			del(i)
		}
	}
	if x.Chance(0.5) {
		if err := c.BulkDelete(bg, gone); err != nil {
			x.Fail("C03", "bulkdelete", "BulkDelete = %v", err)
		}
	} else {
		for _, u := range gone {
			if err := c.Delete(bg, u); err != nil {
				x.Fail("C03", "delete", "Delete = %v", err)
			}
		}
	}
	check()
	if x.Chance(0.5) {
		putAll("c", x.Chance(0.3))
		check()
	}
	if x.Chance(0.5) {
		if err := c.Delete(bg, x.UID("hub")); err != nil {
			x.Fail("C03", "delete", "Delete = %v", err)
		}
		from, to = map[string]string{}, map[string]string{}
	} else {
		if err := c.Clear(bg); err != nil {
			x.Fail("C03", "clear", "Clear = %v", err)
		}
		from, to, ring = map[string]string{}, map[string]string{}, map[int]string{}
	}
	check()
	putAll("d", false)
	check()
	x.NonTrivial()
}

func scalePlan(x *Exec) {
	n := x.scale(6000)
	p, err := simple.NewSimple()
	if err != nil {
		x.Fail("P01", "new", "NewSimple: %v", err)
	}
	ss, us := x.ids("r", n)
	m := map[string]string{}
	add := func(i int, ver string) {
		g := fmt.Sprintf("g%d", i%7)
		r := x.planResource(ss[i], g, ver, "k")
		if err := p.Add(bg, r); err != nil {
			x.Fail("P01", "add", "Add = %v", err)
		}
		m[ss[i]] = showFull(r)
	}
	check := func() {
		rs, err := p.GetAll(bg)
		if err != nil || len(rs) != len(m) {
			x.Fail("P01", "scale", "GetAll returns %d resources, want %d (%v)", len(rs), len(m), err)
		}
		seen := map[string]bool{}
		for _, r := range rs {
			u := r.UID().String()
			if w, ok := m[u]; !ok || seen[u] || showFull(r) != w {
				x.Fail("P01", "scale", "GetAll returns %q for %q, want %q (%v, seen %v)", showFull(r), u, w, ok, seen[u])
			}
			seen[u] = true
		}
		for i, s := range ss {
			r, err := p.Get(bg, us[i])
			if w, ok := m[s]; ok != (err == nil) || ok && showFull(r) != w || !ok && !errors.Is(err, plan.ErrResourceNotFound) {
				x.Fail("P01", "scale", "Get(%q) = %v, want %q (%v)", s, err, w, ok)
			}
		}
		x.Count("resources_compared", len(rs))
	}
	order := x.Perm(n)
	x.Log("%d resources", n)
	for _, i := range order {
		add(i, "v1")
	}
	check()
	for _, i := range order {
		if x.Chance(0.3) {
			if err := p.Delete(bg, us[i]); err != nil {
				x.Fail("P01", "delete", "Delete = %v", err)
			}
			delete(m, ss[i])
		} else if x.Chance(0.3) {
			add(i, "v2")
		}
	}
	check()
	for i := range ss {
		if x.Chance(0.6) {
			add(i, "v3")
		}
	}
	check()
	x.NonTrivial()
}

// scaleValues marshals values with long fields or many attributes.
func scaleValues(x *Exec) {
	m := x.marshaler()
	for k := 1 + x.IntN(2); k > 0; k-- {
		v := x.newVal(x.pickKind())
		if x.Chance(0.4) {
			n := x.scale(8000)
			x.Log("%s of %d attributes", v.kind, n)
			v.attrs = map[string]string{}
			for i := 0; i < n; i++ {
				v.attrs[fmt.Sprintf("key%d", i)] = fmt.Sprintf("value%d", i)
			}
		}
		if x.Chance(0.7) {
			n := x.scale(3 << 20)
			unit := []string{"x", "0123456789", "é", "<&>", "\x01", "\U0001f600", "\"\\"}[x.IntN(7)]
			s := strings.Repeat(unit, 1+n/len(unit))
			x.Log("%s with a field of %d bytes of %q", v.kind, len(s), unit)
			fs := []*string{&v.uid}
			switch v.kind {
			case "resource":
				fs = append(fs, &v.name, &v.group, &v.version, &v.rkind)
			case "object":
				fs = append(fs, &v.name, &v.ns)
			case "link":
				fs = append(fs, &v.from, &v.to)
			}
			if v.kind != "link" {
				fs = append(fs, &v.typ)
			}
			i := x.IntN(len(fs) + 2)
			switch {
			case i < len(fs):
				*fs[i] = s
			case i == len(fs):
				v.attrs[s] = "long key"
			default:
				v.attrs["long value"] = s
			}
		}
		e := x.build(v)
		b, err := m.Marshal(e)
		if err != nil {
			x.Fail("M01", "scale", "Marshal of a large %s = %v", v.kind, err)
		}
		ref, err := refDecode(v.kind, b)
		if err != nil || !ref.same(v) {
			x.Fail("M01", "scale", "a large %s became a document of %d bytes that is not equal (%v)", v.kind, len(b), err)
		}
		if x.Chance(0.3) {
			// white space does not matter
			b = append(bytes.Repeat([]byte(" \n"), x.scale(20000)), b...)
		}
		t := newTarget(v.kind, nil)
		if err := m.Unmarshal(b, t.ptr); err != nil {
			x.Fail("M01 M02", "scale", "Unmarshal of %d bytes of a %s = %v", len(b), v.kind, err)
		}
		got, err := readVal(v.kind, t.get())
		if err != nil || !got.same(v) {
			x.Fail("M01 M02", "scale", "a large %s (%d bytes) became another (%v)", v.kind, len(b), err)
		}
		if x.Prop == "M02" || x.Chance(0.3) {
			t := newTarget(v.kind, nil)
			for _, bad := range [][]byte{b[:len(b)-1], append(bytes.Clone(b), '}'), append(bytes.Clone(b), b...)} {
				if err := m.Unmarshal(bad, t.ptr); err == nil || !isNil(t.get()) {
					x.Fail("M02", "scale", "Unmarshal of a spoilt document of %d bytes = %v", len(bad), err)
				}
			}
		}
		x.Count("bytes_marshaled", len(b))
	}
	x.NonTrivial()
}

func scaleStore(x *Exec) {
	n := x.scale(1500)
	s, directed := x.newStore()
	ss, us := x.ids("u", n)
	props := "S01 S03"
	r := &sRun{Exec: x, s: s, m: newModel(directed), us: ss, ent: map[*mNode]store.Entity{}}
	var es []store.Entity
	var ws []*mNode
	for i, u := range ss {
		w := &mNode{uid: u, typ: fmt.Sprintf("t%d", i), attrs: map[string]string{"n": u}, dotid: u}
		e := x.Entity(u, w.typ, w.attrs)
		if d, ok := e.(interface{ DOTID() string }); ok {
			w.dotid = d.DOTID()
		}
		es, ws = append(es, e), append(ws, w)
	}
	x.Log("directed=%v, %d entities", directed, n)
	gone := map[int]bool{}
	check := func() {
		var ids []uuid.UID
		var want []*mNode
		for i := range us {
			if !gone[i] {
				ids, want = append(ids, us[i]), append(want, ws[i])
			}
		}
		got, err := s.BulkGet(bg, ids)
		if err != nil || len(got) != len(ids) {
			x.Fail(props, "scale", "BulkGet of %d entities: %d of them (%v)", len(ids), len(got), err)
		}
		for i, e := range got {
			if d := r.checkEntity(e, want[i]); d != "" {
				x.Fail(props, "scale", "BulkGet of %d entities, number %d: %s", len(ids), i, d)
			}
		}
		for _, i := range x.some(n, 10) {
			e, err := s.Get(bg, us[i])
			if gone[i] {
				if !errors.Is(err, store.ErrEntityNotFound) {
					x.Fail(props, "scale", "Get(%q) = %v, want %v", ss[i], err, store.ErrEntityNotFound)
				}
				if _, err := s.BulkGet(bg, append(append([]uuid.UID{}, ids...), us[i])); !errors.Is(err, store.ErrEntityNotFound) {
					x.Fail(props, "scale", "BulkGet with an absent id last = %v", err)
				}
			} else if err != nil {
				x.Fail(props, "scale", "Get(%q) = %v", ss[i], err)
			} else if d := r.checkEntity(e, ws[i]); d != "" {
				x.Fail(props, "scale", "Get(%q): %s", ss[i], d)
			}
		}
		var focus []string
		for _, i := range x.some(n, 5) {
			focus = append(focus, ss[i])
		}
		if d := x.checkGraph(r.handle(), r.m, focus, true); d != "" {
			x.Fail(props+" S02", "scale", "graph handle: %s", d)
		}
		x.Count("entities_compared", len(got))
	}
	// all are added, but for what follows one that is there twice
	if x.Chance(0.4) {
		k := x.Rand.IntN(n)
		l := append([]store.Entity{}, es[:k+1]...)
		l = append(l, es[x.Rand.IntN(k+1)])
		l = append(l, es[k+1:]...)
		if err := s.BulkAdd(bg, l); !errors.Is(err, store.ErrAlreadyExists) {
			x.Fail(props, "scale", "BulkAdd with an entity twice = %v", err)
		}
		for i := k + 1; i < n; i++ {
			gone[i] = true
		}
		for i := 0; i <= k; i++ {
			r.m.nodes[ss[i]] = ws[i]
		}
		check()
		if err := s.BulkAdd(bg, es[k+1:]); err != nil {
			x.Fail(props, "scale", "BulkAdd of %d entities = %v", n-k-1, err)
		}
	} else if err := s.BulkAdd(bg, es); err != nil {
		x.Fail(props, "scale", "BulkAdd of %d entities = %v", n, err)
	}
	for i := range ss {
		delete(gone, i)
		r.m.nodes[ss[i]] = ws[i]
	}
	check()
	hub := x.Rand.IntN(n)
	var to []uuid.UID
	for i := range us {
		if i != hub {
			to = append(to, us[i])
			r.m.edges[r.m.key(ss[hub], ss[i])] = &mEdge{from: ss[hub], to: ss[i], attrs: map[string]string{}}
		}
	}
	if err := s.BulkLink(bg, us[hub], to); err != nil {
		x.Fail(props, "scale", "BulkLink to %d entities = %v", len(to), err)
	}
	check()
	if x.Prop == "S02" || x.Chance(0.3) {
		for i, u := range ss {
			w := &mNode{uid: u, typ: fmt.Sprintf("new%d", i), attrs: map[string]string{"m": u}, dotid: u}
			e := x.Entity(u, w.typ, w.attrs)
			if d, ok := e.(interface{ DOTID() string }); ok {
				w.dotid = d.DOTID()
			}
			es[i], ws[i] = e, w
			r.m.nodes[u] = w
		}
		if err := s.BulkAdd(bg, es, store.WithUpsert()); err != nil {
			x.Fail(props+" S02", "scale", "BulkAdd with upsert = %v", err)
		}
		check()
	}
	var off []uuid.UID
	share := x.Float64()
	for i := range us {
		if i != hub && x.Chance(share) {
			off = append(off, us[i])
			delete(r.m.edges, r.m.key(ss[hub], ss[i]))
		}
	}
	if err := s.BulkUnlink(bg, us[hub], off); err != nil {
		x.Fail(props, "scale", "BulkUnlink of %d entities = %v", len(off), err)
	}
	check()
	off, share = nil, x.Float64()
	for i := range us {
		if i != hub && x.Chance(share) || i == hub && x.Chance(0.2) {
			off = append(off, us[i])
			gone[i] = true
			delete(r.m.nodes, ss[i])
		}
	}
	for k, e := range r.m.edges {
		if r.m.nodes[e.from] == nil || r.m.nodes[e.to] == nil {
			delete(r.m.edges, k)
		}
	}
	if err := s.BulkDelete(bg, off); err != nil {
		x.Fail(props, "scale", "BulkDelete of %d entities = %v", len(off), err)
	}
	check()
	x.NonTrivial()
}

// ---------------------------------------------------------------------- at once

// manyThings are n things that a component gains and loses one after another or at once.
type manyThings struct {
	what        string
	add, remove func(i int) error
	addAll      func() error
	removeAll   func() error
	has         func(i int) (bool, error)
	list        func() ([]string, error)
}

func (x *Exec) manyThings(n int, ss []string, us []uuid.UID) *manyThings {
	switch x.Prop {
	case "P02":
		p, err := simple.NewSimple()
		if err != nil {
			x.Fail("P01", "new", "NewSimple: %v", err)
		}
		var rs []plan.Resource
		for i := range ss {
			rs = append(rs, x.planResource(ss[i], "g", "v", "k"))
		}
		return &manyThings{what: "resources",
			add:    func(i int) error { return p.Add(bg, rs[i]) },
			remove: func(i int) error { return p.Delete(bg, us[i]) },
			has: func(i int) (bool, error) {
				_, err := p.Get(bg, us[i])
				if errors.Is(err, plan.ErrResourceNotFound) {
					return false, nil
				}
				return err == nil, err
			},
			list: func() (r []string, err error) {
				l, err := p.GetAll(bg)
				for _, e := range l {
					r = append(r, e.UID().String())
				}
				return r, err
			},
		}
	case "C04":
		c, err := memcache.NewLinks()
		if err != nil {
			x.Fail("C01", "new", "NewLinks: %v", err)
		}
		hub := x.UID("hub")
		out := x.Chance(0.5)
		var ls []cache.Link
		for i := range us {
			f, t := hub, us[i]
			if !out {
				f, t = t, f
			}
			l, err := link.New(f, t)
			if err != nil {
				x.Fail("E01", "new", "link.New = %v", err)
			}
			ls = append(ls, l)
		}
		name := func(l cache.Link) string {
			if out {
				return l.To().String()
			}
			return l.From().String()
		}
		return &manyThings{what: "links",
			add:       func(i int) error { return c.Put(bg, ls[i]) },
			remove:    func(i int) error { return c.Delete(bg, us[i]) },
			addAll:    func() error { return c.BulkPut(bg, ls) },
			removeAll: func() error { return c.BulkDelete(bg, us) },
			has: func(i int) (bool, error) {
				get := c.GetTo
				if !out {
					get = c.GetFrom
				}
				l, err := get(bg, us[i])
				return len(l) > 0, err
			},
			list: func() (r []string, err error) {
				get := c.GetFrom
				if !out {
					get = c.GetTo
				}
				l, err := get(bg, hub)
				for _, e := range l {
					r = append(r, name(e))
				}
				return r, err
			},
		}
	case "G07":
		g := x.newGraph(x.Chance(0.5))
		var ns []graph.Node
		for i := range ss {
			nd, err := g.NewNode(bg, x.Entity(ss[i], "t", map[string]string{}))
			if err != nil {
				x.Fail("G01", "newnode", "NewNode = %v", err)
			}
			ns = append(ns, nd)
		}
		uids := func(l []graph.Node, err error) (r []string, _ error) {
			for _, e := range l {
				u, err := nodeUID(e)
				if err != nil {
					return nil, err
				}
				r = append(r, u)
			}
			return r, err
		}
		if x.Chance(0.5) {
			return &manyThings{what: "nodes",
				add:    func(i int) error { return g.AddNode(bg, ns[i]) },
				remove: func(i int) error { return g.RemoveNode(bg, us[i]) },
				has: func(i int) (bool, error) {
					_, err := g.Node(bg, us[i])
					if errors.Is(err, graph.ErrNodeNotFound) {
						return false, nil
					}
					return err == nil, err
				},
				list: func() ([]string, error) { return uids(g.Nodes(bg)) },
			}
		}
		hub := x.UID("hub")
		h, err := g.NewNode(bg, x.Entity("hub", "t", map[string]string{}))
		if err == nil {
			err = g.AddNode(bg, h)
		}
		for i := 0; i < n && err == nil; i++ {
			err = g.AddNode(bg, ns[i])
		}
		if err != nil {
			x.Fail("G01", "add", "NewNode or AddNode = %v", err)
		}
		edges, byEdges := g.(iGraph)
		byEdges = byEdges && x.Chance(0.5)
		return &manyThings{what: "links",
			add: func(i int) error {
				_, err := g.Link(bg, hub, us[i])
				return err
			},
			remove: func(i int) error { return g.Unlink(bg, hub, us[i]) },
			has: func(i int) (bool, error) {
				_, err := g.Edge(bg, hub, us[i])
				if errors.Is(err, graph.ErrEdgeNotExist) {
					return false, nil
				}
				return err == nil, err
			},
			list: func() (r []string, err error) {
				if !byEdges {
					return uids(g.From(bg, hub))
				}
				l, err := edges.Edges(bg)
				for _, e := range l {
					a, err := e.FromNode()
					if err != nil {
						return nil, err
					}
					b, err := e.ToNode()
					if err != nil {
						return nil, err
					}
					f, err := uids([]graph.Node{a, b}, nil)
					if err != nil {
						return nil, err
					}
					if f[0] == "hub" {
						f[0] = f[1]
					}
					r = append(r, f[0])
				}
				return r, err
			},
		}
	}
	s, _ := x.newStore()
	var es []store.Entity
	for i := range ss {
		es = append(es, x.Entity(ss[i], "t", map[string]string{"n": ss[i]}))
	}
	return &manyThings{what: "entities",
		add:       func(i int) error { return s.Add(bg, es[i]) },
		remove:    func(i int) error { return s.Delete(bg, us[i]) },
		addAll:    func() error { return s.BulkAdd(bg, es) },
		removeAll: func() error { return s.BulkDelete(bg, us) },
		has: func(i int) (bool, error) {
			_, err := s.Get(bg, us[i])
			if errors.Is(err, store.ErrEntityNotFound) {
				return false, nil
			}
			return err == nil, err
		},
	}
}

// scaleConcurrent has things added and removed in order, or all at once, while others look: they are to see a beginning
// or a remainder of them that never shrinks or grows back, or all or none.
func scaleConcurrent(bulks float64) func(x *Exec) {
	return func(x *Exec) {
		n := x.scale(2500)
		if n > 5000 {
			n = 5000
		}
		if x.Part.Engine == Race {
			n = 64 + n/3
		}
		ss, us := x.ids("u", n)
		index := map[string]int{}
		for i, s := range ss {
			index[s] = i
		}
		c := x.manyThings(n, ss, us)
		bulk := c.addAll != nil && x.Chance(bulks)
		readers := 1 + x.IntN(4)
		x.Log("%d %s, bulk=%v, %d readers", n, c.what, bulk, readers)
		for _, adding := range []bool{true, false} {
			var started, done, over atomic.Int64
			overlap := make([]int, readers)
			x.parallel(readers+1, func(i int, x *Exec) {
				if i == readers {
					defer over.Store(1)
					if x.Chance(0.5) {
						time.Sleep(time.Duration(x.Rand.IntN(3000)))
					}
					one, all := c.add, c.addAll
					if !adding {
						one, all = c.remove, c.removeAll
					}
					if bulk {
						started.Store(int64(n))
						if err := all(); err != nil {
							x.Fail(x.Prop, "scale", "bulk operation on %d %s = %v", n, c.what, err)
						}
						done.Store(int64(n))
						return
					}
					for j := 0; j < n; j++ {
						started.Add(1)
						if err := one(j); err != nil {
							x.Fail(x.Prop, "scale", "adding or removing %d of %d %s = %v", j, n, c.what, err)
						}
						done.Add(1)
					}
					return
				}
				// k of the n are through with
				prev := int64(0)
				for reads := 0; reads < 400; reads++ {
					last := over.Load() == 1
					lo := done.Load()
					if prev > lo {
						lo = prev
					}
					if c.list != nil && (reads < 60 && x.Chance(0.3) || last) {
						l, err := c.list()
						hi := started.Load()
						if err != nil {
							x.Fail(x.Prop, "scale", "listing %s = %v", c.what, err)
						}
						k := int64(len(l))
						var at []int
						for _, s := range l {
							j, ok := index[s]
							if !ok {
								x.Fail(x.Prop, "scale", "%q is listed", s)
							}
							at = append(at, j)
						}
						sort.Ints(at)
						first := 0
						if !adding {
							k = int64(n) - k
							first = int(k)
						}
						for q, j := range at {
							if j != first+q {
								x.Fail(x.Prop, "scale", "%d of %d %s are listed, adding=%v, not a state there was: number %d is %d", len(l), n, c.what, adding, q, j)
							}
						}
						if k < lo || k > hi || bulk && k != 0 && k != int64(n) {
							x.Fail(x.Prop, "scale", "%d of %d %s are listed, adding=%v, bulk=%v: %d were done before, %d begun after", len(l), n, c.what, adding, bulk, lo, hi)
						}
						if k > 0 && k < int64(n) || bulk && lo == 0 && hi > 0 {
							overlap[i]++
						}
						prev = k
					} else {
						j := x.Rand.IntN(n)
						if x.Chance(0.3) {
							j = int(lo) % n
						}
						got, err := c.has(j)
						hi := started.Load()
						if err != nil {
							x.Fail(x.Prop, "scale", "getting one of %d %s = %v", n, c.what, err)
						}
						through := got == adding
						if through && int64(j) >= hi || !through && int64(j) < lo {
							x.Fail(x.Prop, "scale", "%s: number %d of %d is there: %v, adding=%v, bulk=%v: %d were done before, %d begun after", c.what, j, n, got, adding, bulk, lo, hi)
						}
						if through {
							if bulk {
								prev = int64(n)
							} else if int64(j+1) > prev {
								prev = int64(j + 1)
							}
						}
						if lo > 0 && lo < int64(n) || bulk && lo == 0 && hi > 0 {
							overlap[i]++
						}
					}
					if last {
						break
					}
					if x.Chance(0.3) {
						time.Sleep(time.Duration(x.Rand.IntN(20000)))
					}
				}
			})
			for _, o := range overlap {
				x.Count("looks_meanwhile", o)
				if o > 0 {
					x.NonTrivial()
				}
			}
			if x.Failed() {
				panic(abort{})
			}
		}
	}
}

func init() {
	rule := "hundreds to thousands of things, numbers of any magnitude and often just over a round one, added, replaced and removed singly and in bulk, everything compared with a model in between; every execution is non-trivial"
	for _, p := range []string{"C01", "C02", "C03"} {
		register(p, &Part{Name: "scale", Engine: Sim, Quick: 40, Thorough: 1500, Rule: rule, Run: scaleCache})
	}
	for _, p := range []string{"S01", "S02", "S03"} {
		register(p, &Part{Name: "scale", Engine: Sim, Quick: 40, Thorough: 1500, Rule: rule, Run: scaleStore})
	}
	register("A01", &Part{Name: "scale", Engine: Sim, Quick: 60, Thorough: 3000, Rule: rule, Run: scaleAttrs})
	register("P01", &Part{Name: "scale", Engine: Sim, Quick: 60, Thorough: 3000, Rule: rule, Run: scalePlan})
	for _, p := range []string{"M01", "M02"} {
		register(p, &Part{Name: "scale", Engine: Sim, Quick: 60, Thorough: 2000, Run: scaleValues,
			Rule: "values with fields of up to some megabytes or thousands of attributes marshaled, read by a reference decoder, unmarshaled and compared, and spoilt documents refused; every execution is non-trivial"})
	}
	rule = "hundreds to thousands of things added in order, then removed in order, singly or in bulk, while 1 to 4 others look: what they see has to be a state there was between the operations done before and those begun after; non-trivial: someone looked in the middle"
	for p, bulks := range map[string]float64{"P02": 0, "C04": 0.5, "G07": 0, "S03": 0.8, "S04": 0.2} {
		register(p,
			&Part{Name: "scale-concurrent", Engine: Sim, Perturb: true, Steps: 2_000_000_000, Quick: 48, Thorough: 2000, Rule: rule + "; under perturbed schedules", Run: scaleConcurrent(bulks)},
			&Part{Name: "race-scale", Engine: Race, Quick: 48, Thorough: 2000, Rule: rule, Run: scaleConcurrent(bulks)})
	}
}
