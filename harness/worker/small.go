package worker

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
	mjson "github.com/milosgajdos/netscrape/pkg/space/marshal/json"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"gonum.org/v1/gonum/graph/encoding"
)

// ------------------------------------------------------------- values of the space

// val holds the fields of an entity, resource, object or link.
type val struct {
	kind                             string // entity, resource, object, link
	uid, typ                         string
	attrs                            map[string]string
	name, group, version, rkind      string
	namespaced                       bool
	ns, from, to                     string
	res                              *val
	dotid                            string // not serialized
	hasUID, hasAttrs, hasDOT, custom bool
}

func (v *val) String() string {
	if v == nil {
		return "none"
	}
	s := fmt.Sprintf("%s{uid=%q attrs=%s", v.kind, v.uid, showMap(v.attrs))
	switch v.kind {
	case "link":
		return s + fmt.Sprintf(" from=%q to=%q}", v.from, v.to)
	case "resource":
		s += fmt.Sprintf(" name=%q group=%q version=%q kind=%q namespaced=%v", v.name, v.group, v.version, v.rkind, v.namespaced)
	case "object":
		s += fmt.Sprintf(" name=%q namespace=%q resource=%v", v.name, v.ns, v.res)
	}
	return s + fmt.Sprintf(" type=%q}", v.typ)
}

// same compares the serialized fields.
func (v *val) same(w *val) bool { return v.String() == w.String() }

type fullResource struct {
	*myEntity
	v *val
}

func (r fullResource) Name() string     { return r.v.name }
func (r fullResource) Group() string    { return r.v.group }
func (r fullResource) Version() string  { return r.v.version }
func (r fullResource) Kind() string     { return r.v.rkind }
func (r fullResource) Namespaced() bool { return r.v.namespaced }

type fullObject struct {
	*myEntity
	v   *val
	res space.Resource
}

func (o fullObject) Name() string             { return o.v.name }
func (o fullObject) Namespace() string        { return o.v.ns }
func (o fullObject) Resource() space.Resource { return o.res }

func (x *Exec) newVal(kind string) *val {
	v := &val{kind: kind, uid: x.Str(), typ: x.Str(), attrs: x.AttrMap(), custom: x.Chance(0.25)}
	v.hasUID, v.hasAttrs = true, true
	switch kind {
	case "resource":
		v.name, v.group, v.version, v.rkind, v.namespaced = x.Str(), x.Str(), x.Str(), x.Str(), x.Chance(0.5)
	case "object":
		v.name, v.ns = x.Str(), x.Str()
		if x.Chance(0.7) {
			v.res = x.newVal("resource")
		}
	case "link":
		v.from, v.to = x.Str(), x.Str()
		v.typ = ""
	}
	if x.Chance(0.3) {
		if v.dotid = x.Str(); v.dotid != "" {
			v.hasDOT = true
		}
	}
	if x.Chance(0.3) {
		// most fields empty
		for _, f := range []*string{&v.uid, &v.typ, &v.name, &v.group, &v.version, &v.rkind, &v.ns, &v.from, &v.to} {
			if x.Chance(0.8) {
				*f = ""
			}
		}
		if x.Chance(0.7) {
			v.attrs = map[string]string{}
		}
	}
	return v
}

func (x *Exec) pickKind() string { return []string{"entity", "resource", "object", "link"}[x.IntN(4)] }

// build makes a value of the space with the fields of v.
func (x *Exec) build(v *val) interface{} {
	u, a := x.UID(v.uid), x.Attrs(v.attrs)
	opts := []entity.Option{entity.WithUID(u), entity.WithAttrs(a)}
	if v.hasDOT {
		opts = append(opts, entity.WithDOTID(v.dotid))
	}
	var res space.Resource
	if v.res != nil {
		res = x.build(v.res).(space.Resource)
	}
	e := &myEntity{u, v.typ, a}
	var r interface{}
	var err error
	switch {
	case v.kind == "link" && v.custom:
		r = &myLink{u, x.UID(v.from), x.UID(v.to), a}
	case v.kind == "link":
		r, err = link.New(x.UID(v.from), x.UID(v.to), link.WithUID(u), link.WithAttrs(a))
	case v.kind == "entity" && v.custom:
		r = e
	case v.kind == "entity":
		r, err = entity.New(v.typ, opts...)
	case v.kind == "resource" && v.custom:
		r = fullResource{e, v}
	case v.kind == "resource":
		r, err = entity.NewResource(v.typ, v.name, v.group, v.version, v.rkind, v.namespaced, opts...)
	case v.custom:
		r = fullObject{e, v, res}
	default:
		r, err = entity.NewObject(v.typ, v.name, v.ns, res, opts...)
	}
	if err != nil {
		x.Fail("E01", "new", "constructing %v: %v", v, err)
	}
	return r
}

// isNil tells whether i is nil or holds a nil pointer.
func isNil(i interface{}) bool {
	if i == nil {
		return true
	}
	r := reflect.ValueOf(i)
	switch r.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Interface, reflect.Chan:
		return r.IsNil()
	}
	return false
}

// readVal reads the fields of a value of the space.
func readVal(kind string, i interface{}) (v *val, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("value unusable: %v", r)
		}
	}()
	if isNil(i) {
		return nil, errors.New("nil value")
	}
	v = &val{kind: kind}
	var a attrs.Attrs
	var u uuid.UID
	switch e := i.(type) {
	case space.Link:
		if kind != "link" {
			return nil, fmt.Errorf("link instead of %s", kind)
		}
		u, a, v.from, v.to = e.UID(), e.Attrs(), e.From().String(), e.To().String()
	case space.Entity:
		u, a, v.typ = e.UID(), e.Attrs(), e.Type()
		switch kind {
		case "link":
			return nil, errors.New("entity instead of link")
		case "resource":
			r := i.(space.Resource)
			v.name, v.group, v.version, v.rkind, v.namespaced = r.Name(), r.Group(), r.Version(), r.Kind(), r.Namespaced()
		case "object":
			o := i.(space.Object)
			v.name, v.ns = o.Name(), o.Namespace()
			if !isNil(o.Resource()) {
				if v.res, err = readVal("resource", o.Resource()); err != nil {
					return nil, err
				}
			}
		}
	}
	v.uid = u.String()
	if v.attrs, err = attrsOf(a); err != nil {
		return nil, err
	}
	if d, ok := i.(interface{ DOTID() string }); ok {
		v.dotid = d.DOTID()
	}
	return v, nil
}

// ------------------------------------------------------------------- marshaling

type jEntity struct {
	UID   string            `json:"uid"`
	Type  string            `json:"type"`
	Attrs map[string]string `json:"attrs"`
}

type jResource struct {
	jEntity
	Name       string `json:"name"`
	Group      string `json:"group"`
	Version    string `json:"version"`
	Kind       string `json:"kind"`
	Namespaced bool   `json:"namespaced"`
}

type jObject struct {
	jEntity
	Name      string     `json:"name"`
	Namespace string     `json:"namespace"`
	Resource  *jResource `json:"resource"`
}

type jLink struct {
	UID   string            `json:"uid"`
	From  string            `json:"from"`
	To    string            `json:"to"`
	Attrs map[string]string `json:"attrs"`
}

func (r *jResource) val() *val {
	return &val{kind: "resource", uid: r.UID, typ: r.Type, attrs: r.Attrs, name: r.Name, group: r.Group, version: r.Version, rkind: r.Kind, namespaced: r.Namespaced}
}

// refDecode is the reference reading of a JSON document.
func refDecode(kind string, b []byte) (*val, error) {
	switch kind {
	case "entity":
		var e jEntity
		err := json.Unmarshal(b, &e)
		return &val{kind: kind, uid: e.UID, typ: e.Type, attrs: e.Attrs}, err
	case "resource":
		var r jResource
		err := json.Unmarshal(b, &r)
		return r.val(), err
	case "object":
		var o jObject
		err := json.Unmarshal(b, &o)
		v := &val{kind: kind, uid: o.UID, typ: o.Type, attrs: o.Attrs, name: o.Name, ns: o.Namespace}
		if o.Resource != nil {
			v.res = o.Resource.val()
		}
		return v, err
	}
	var l jLink
	err := json.Unmarshal(b, &l)
	return &val{kind: "link", uid: l.UID, from: l.From, to: l.To, attrs: l.Attrs}, err
}

// target is a variable to unmarshal to.
type target struct {
	ptr interface{}
	get func() interface{}
}

func newTarget(kind string, init interface{}) target {
	switch kind {
	case "entity":
		var e space.Entity
		if init != nil {
			e = init.(space.Entity)
		}
		return target{&e, func() interface{} { return e }}
	case "resource":
		var e space.Resource
		if init != nil {
			e = init.(space.Resource)
		}
		return target{&e, func() interface{} { return e }}
	case "object":
		var e space.Object
		if init != nil {
			e = init.(space.Object)
		}
		return target{&e, func() interface{} { return e }}
	}
	var l space.Link
	if init != nil {
		l = init.(space.Link)
	}
	return target{&l, func() interface{} { return l }}
}

// badAttrs fails to be read.
type badAttrs struct {
	myAttrs
	keys bool
	bad  string
}

var errBadAttrs = errors.New("attributes cannot be read")

func (a *badAttrs) Keys(ctx context.Context) ([]string, error) {
	if a.keys {
		return nil, errBadAttrs
	}
	return a.myAttrs.Keys(ctx)
}

func (a *badAttrs) Get(ctx context.Context, k string) (string, error) {
	if k == a.bad {
		return "", errBadAttrs
	}
	return a.myAttrs.Get(ctx, k)
}

func (x *Exec) badAttrs() attrs.Attrs {
	m := x.AttrMap()
	m["bad"] = "x"
	return &badAttrs{myAttrs{m}, x.Chance(0.3), sortedKeys(m)[x.IntN(len(m))]}
}

func (x *Exec) marshaler() *mjson.Marshaler {
	m, err := mjson.NewMarshaler()
	if err != nil {
		x.Fail("M01 M02", "new", "NewMarshaler: %v", err)
	}
	return m
}

func roundTrips(x *Exec) {
	m := x.marshaler()
	type kept struct{ b, c []byte }
	var keep []kept
	type decoded struct {
		v *val
		e interface{}
	}
	var back []decoded
	n := 1 + x.IntN(6)
	for i := 0; i < n; i++ {
		v := x.newVal(x.pickKind())
		if x.Big {
			for j := 0; j < 500; j++ {
				v.attrs[fmt.Sprintf("key%d", j)] = x.Str()
			}
		}
		e := x.build(v)
		before, err := readVal(v.kind, e)
		if err != nil || !before.same(v) {
			x.Fail("E01", "fields", "constructed %v, want %v (%v)", before, v, err)
		}
		x.Log("marshal %v", v)
		b, err := m.Marshal(e)
		if err != nil {
			x.Fail("M01", "marshal", "Marshal(%v) = %v", v, err)
		}
		after, err := readVal(v.kind, e)
		if err != nil || !after.same(before) || after.dotid != before.dotid {
			x.Fail("M01", "changed", "Marshal changed %v to %v", before, after)
		}
		keep = append(keep, kept{b, bytes.Clone(b)})
		ref, err := refDecode(v.kind, b)
		if err != nil || !ref.same(v) {
			x.Fail("M01", "document", "Marshal(%v) = %s", v, b)
		}
		var doc map[string]interface{}
		if err := json.Unmarshal(b, &doc); err != nil {
			x.Fail("M01", "document", "Marshal(%v) = %s", v, b)
		}
		if _, ok := doc["namespaced"]; ok != (v.kind == "resource") {
			x.Fail("M01", "kind", "Marshal(%v) = %s", v, b)
		}
		if _, ok := doc["namespace"]; ok != (v.kind == "object") {
			x.Fail("M01", "kind", "Marshal(%v) = %s", v, b)
		}
		if _, ok := doc["from"]; ok != (v.kind == "link") {
			x.Fail("M01", "kind", "Marshal(%v) = %s", v, b)
		}
		in := append(make([]byte, 0, len(b)+x.IntN(3)), b...)
		t := newTarget(v.kind, nil)
		if x.Chance(0.5) {
			t = newTarget(v.kind, x.build(x.newVal(v.kind)))
		}
		if err := m.Unmarshal(in, t.ptr); err != nil {
			x.Fail("M01", "unmarshal", "Unmarshal(%s) = %v", b, err)
		}
		if !bytes.Equal(in, b) {
			x.Fail("M01", "input", "Unmarshal changed its input")
		}
		for j := range in {
			in[j] = '#'
		}
		got, err := readVal(v.kind, t.get())
		if err != nil || !got.same(v) {
			x.Fail("M01", "roundtrip", "%v became %v (%v)", v, got, err)
		}
		b2, err := m.Marshal(t.get())
		if err != nil {
			x.Fail("M01", "marshal", "second Marshal(%v) = %v", v, err)
		}
		if ref, err := refDecode(v.kind, b2); err != nil || !ref.same(v) {
			x.Fail("M01", "document", "second Marshal(%v) = %s", v, b2)
		}
		keep = append(keep, kept{b2, bytes.Clone(b2)})
		x.Count("round_trips", 1)
		// the value is its owner's, who may add attributes
		d := decoded{v: got, e: t.get()}
		if x.Chance(0.3) {
			k, w := x.Str(), x.Str()
			var a attrs.Attrs
			switch e := d.e.(type) {
			case space.Link:
				a = e.Attrs()
			case space.Object:
				if a = e.Attrs(); got.res != nil && x.Chance(0.5) {
					a, d.v = e.Resource().Attrs(), got.res
				}
			case space.Entity:
				a = e.Attrs()
			}
			if err := a.Set(bg, k, w); err != nil {
				x.Fail("A01", "set", "Set(%q, %q) = %v", k, w, err)
			}
			d.v.attrs[k] = w
			d.v = got
			x.Log("Set(%q, %q) on what was decoded", k, w)
			x.Count("decoded_values_changed", 1)
		}
		back = append(back, d)
		for _, d := range back {
			if got, err := readVal(d.v.kind, d.e); err != nil || !got.same(d.v) {
				x.Fail("M01 E01 X01", "decoded", "decoded %v has become %v (%v)", d.v, got, err)
			}
		}
		if len(v.attrs) > 0 {
			x.NonTrivial()
		}
		if x.Chance(0.1) {
			bad := &myEntity{x.UID("u"), "t", x.badAttrs()}
			var e interface{} = bad
			switch x.IntN(5) {
			case 4:
				l, err := link.New(x.UID("f"), x.UID("t"), link.WithUID(x.UID("u")), link.WithAttrs(bad.Attrs()))
				if err != nil {
					x.Fail("E01", "fields", "New link: %v", err)
				}
				e = l
			case 0:
				e = fullResource{bad, &val{}}
			case 1:
				e = fullObject{bad, &val{}, nil}
			case 2:
				e = fullObject{&myEntity{x.UID("u"), "t", memattrs.New()}, &val{}, fullResource{bad, &val{}}}
			}
			if b, err := m.Marshal(e); err == nil {
				x.Fail("M01", "incomplete", "Marshal of a value whose attributes cannot be read = %s", b)
			}
			x.Count("unreadable_attributes", 1)
		}
	}
	for _, k := range keep {
		if !bytes.Equal(k.b, k.c) {
			x.Fail("M01", "overwritten", "marshaled bytes %s were overwritten by a later call: %s", k.c, k.b)
		}
	}
}

// docFields writes the document of a value in an arbitrary layout; clean is false when it uses odd features.
func (x *Exec) document(kind string, depth int) (doc string, clean bool) {
	clean = true
	str := func() string {
		b, _ := json.Marshal(x.Str())
		if x.Chance(0.2) {
			// escape everything
			var s string
			_ = json.Unmarshal(b, &s)
			var sb strings.Builder
			sb.WriteByte('"')
			for _, r := range s {
				if r > 0xffff {
					r -= 0x10000
					fmt.Fprintf(&sb, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
				} else {
					fmt.Fprintf(&sb, `\u%04x`, r)
				}
			}
			sb.WriteByte('"')
			return sb.String()
		}
		return string(b)
	}
	odd := func() string {
		clean = false
		return []string{"null", "1", "-0.5e3", "true", "[]", "{}", `["a"]`, `{"a":"b"}`, `"x"`, "1e999", `{"a":1}`, `{"a":null}`, `[[[]]]`, `"\ud800"`, ``, `'a'`, "NaN", "False", "01"}[x.IntN(19)]
	}
	pOdd := 0.0
	if x.Chance(0.4) {
		pOdd = 0.15
	}
	field := func(v func() string) string {
		if x.Chance(pOdd) {
			return odd()
		}
		return v()
	}
	attrs := func() string {
		var p []string
		seen := map[string]bool{}
		for i := x.IntN(4); i > 0; i-- {
			k := str()
			var s string
			_ = json.Unmarshal([]byte(k), &s)
			if seen[s] {
				continue
			}
			seen[s] = true
			p = append(p, k+":"+field(str))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	boolean := func() string { return []string{"true", "false"}[x.IntN(2)] }
	type f struct {
		k string
		v func() string
	}
	fs := []f{{"uid", str}, {"attrs", attrs}}
	switch kind {
	case "link":
		fs = append(fs, f{"from", str}, f{"to", str})
	case "resource":
		fs = append(fs, f{"type", str}, f{"name", str}, f{"group", str}, f{"version", str}, f{"kind", str}, f{"namespaced", boolean})
	case "object":
		fs = append(fs, f{"type", str}, f{"name", str}, f{"namespace", str})
		if x.Chance(0.6) {
			fs = append(fs, f{"resource", func() string {
				d, c := x.document("resource", depth+1)
				clean = clean && c
				return d
			}})
		}
	default:
		fs = append(fs, f{"type", str})
	}
	shuffle(x, fs)
	var p []string
	for _, f := range fs {
		if x.Chance(pOdd) {
			switch x.IntN(4) {
			case 0: // missing
				clean = false
				continue
			case 1: // twice
				clean = false
				p = append(p, fmt.Sprintf("%q:%s", f.k, field(f.v)))
			case 2:
				clean = false
				f.k = strings.ToUpper(f.k[:1]) + f.k[1:]
			case 3: // unknown
				clean = false
				p = append(p, fmt.Sprintf("%q:%s", x.Str(), odd()))
			}
		}
		sp := ""
		if x.Chance(0.2) {
			sp = []string{" ", "\n", "\t", "\r\n  "}[x.IntN(4)]
		}
		p = append(p, fmt.Sprintf("%s%q%s:%s%s", sp, f.k, sp, sp, field(f.v)))
	}
	doc = "{" + strings.Join(p, ",") + "}"
	return doc, clean
}

// mutate damages a document.
func (x *Exec) mutate(b []byte) []byte {
	b = bytes.Clone(b)
	for i := 1 + x.IntN(3); i > 0; i-- {
		switch k := x.IntN(9); {
		case k == 0:
			b = b[:x.IntN(len(b)+1)]
		case k == 1 && len(b) > 0:
			b[x.IntN(len(b))] = byte(x.IntN(256))
		case k == 2 && len(b) > 0:
			j := x.IntN(len(b))
			b = append(b[:j], b[j+1:]...)
		case k == 3:
			j := x.IntN(len(b) + 1)
			b = append(b[:j:j], append([]byte(string("{}[]\",:\\0nt "[x.IntN(12)])), b[j:]...)...)
		case k == 4:
			b = append(b, []byte([]string{" ", "{}", "x", "\x00", "\n\n", "null", ","}[x.IntN(7)])...)
		case k == 5:
			b = append([]byte([]string{"\xef\xbb\xbf", " ", "[", "0", "\"", "\xff"}[x.IntN(6)]), b...)
		case k == 6 && len(b) > 4:
			i, j := x.IntN(len(b)), x.IntN(len(b))
			if i > j {
				i, j = j, i
			}
			b = append(b[:j:j], b[i:]...)
		case k == 7 && len(b) > 0:
			b[x.IntN(len(b))] ^= 1 << x.IntN(8)
		case k == 8:
			for j := range b {
				if b[j] == '"' && x.Chance(0.1) {
					b[j] = '\''
				}
			}
		}
	}
	return b
}

// oddKeys tells whether the document has keys whose meaning is a matter of taste: repeated ones, or ones which
// match a field in all but case.
func oddKeys(b []byte) bool {
	known := []string{"uid", "type", "attrs", "name", "group", "version", "kind", "namespaced", "namespace", "resource", "from", "to"}
	d := json.NewDecoder(bytes.NewReader(b))
	type lvl struct {
		obj, key bool
		seen     map[string]bool
	}
	var st []*lvl
	for {
		t, err := d.Token()
		if err != nil {
			return false
		}
		var top *lvl
		if len(st) > 0 {
			top = st[len(st)-1]
		}
		if top != nil && top.obj && top.key {
			if s, ok := t.(string); ok {
				if top.seen[s] || strings.ContainsRune(s, 0xfffd) {
					return true
				}
				top.seen[s] = true
				for _, k := range known {
					if s != k && strings.EqualFold(s, k) {
						return true
					}
				}
				top.key = false
				continue
			}
		}
		if top != nil && top.obj {
			top.key = true
		}
		if dl, ok := t.(json.Delim); ok {
			switch dl {
			case '{':
				st = append(st, &lvl{true, true, map[string]bool{}})
			case '[':
				st = append(st, &lvl{})
			default:
				st = st[:len(st)-1]
				if len(st) > 0 && st[len(st)-1].obj {
					st[len(st)-1].key = true
				}
			}
		}
	}
}

func anyBytes(x *Exec) {
	m := x.marshaler()
	n := 4 + x.IntN(12)
	for i := 0; i < n; i++ {
		kind := x.pickKind()
		dk := kind
		if x.Chance(0.15) {
			dk = x.pickKind()
		}
		doc, clean := x.document(dk, 0)
		b := []byte(doc)
		clean = clean && dk == kind
		switch x.Pick(6, 6, 1, 1) {
		case 1:
			b, clean = x.mutate(b), false
		case 2:
			b, clean = make([]byte, x.IntN(40)), false
			for j := range b {
				b[j] = byte(x.IntN(256))
			}
		case 3:
			clean = false
			switch x.IntN(6) {
			case 0:
				b = bytes.Repeat([]byte("["), 1+x.IntN(12000))
			case 1:
				b = append(bytes.Repeat([]byte(`{"resource":`), 1+x.IntN(3000)), '}')
			case 2:
				k := x.IntN(200)
				b = []byte(`{"uid":"a","resource":` + strings.Repeat(`{"resource":`, k) + `{}` + strings.Repeat(`}`, k) + `}`)
			case 3:
				b = nil
			case 4:
				b = []byte([]string{"null", "{}", "[]", "true", `""`, "0", " ", "{", "}", `{"uid"}`, `{"attrs":null}`, `{"resource":null}`, `{"resource":{}}`, `{"attrs":{}}`}[x.IntN(14)])
			case 5:
				b = []byte(fmt.Sprintf(`{"uid":%q,"attrs":{%q:"v"}}`, strings.Repeat("x", x.IntN(5000)), strings.Repeat("k", x.IntN(500))))
			}
		}
		var init interface{}
		var before *val
		if x.Chance(0.6) {
			before = x.newVal(kind)
			init = x.build(before)
			before, _ = readVal(kind, init)
		}
		t := newTarget(kind, init)
		x.Log("%s <- %.200q", kind, b)
		in := bytes.Clone(b)
		err := m.Unmarshal(in, t.ptr)
		if !bytes.Equal(in, b) {
			x.Fail("M02", "input", "Unmarshal changed its input")
		}
		ref, rerr := refDecode(kind, b)
		if err != nil {
			x.Count("refused", 1)
			if clean {
				x.Fail("M02", "refused", "Unmarshal(%q) to %s = %v", b, kind, err)
			}
			switch {
			case init == nil && t.get() != nil:
				x.Fail("M02", "changed", "Unmarshal(%q) to %s failed, but the target holds %v", b, kind, t.get())
			case init != nil:
				after, e := readVal(kind, t.get())
				if e != nil || !after.same(before) || after.dotid != before.dotid {
					x.Fail("M02", "changed", "Unmarshal(%q) to %s failed, but the target changed from %v to %v", b, kind, before, after)
				}
			}
			continue
		}
		x.Count("accepted", 1)
		if rerr != nil {
			x.Fail("M02", "accepted", "Unmarshal(%q) to %s = nil, but: %v", b, kind, rerr)
		}
		got, e := readVal(kind, t.get())
		if e != nil {
			x.Fail("M02", "unusable", "Unmarshal(%q) to %s: %v", b, kind, e)
		}
		if !oddKeys(b) && !got.same(ref) {
			x.Fail("M02", "fields", "Unmarshal(%q) to %s yields %v, want %v", b, kind, got, ref)
		}
		mb, e := m.Marshal(t.get())
		if e != nil {
			x.Fail("M02 M01", "marshal", "Marshal of unmarshaled %q = %v", b, e)
		}
		t2 := newTarget(kind, nil)
		if e := m.Unmarshal(mb, t2.ptr); e != nil {
			x.Fail("M02 M01", "unmarshal", "Unmarshal(%q) = %v", mb, e)
		}
		if again, e := readVal(kind, t2.get()); e != nil || !again.same(got) {
			x.Fail("M02 M01", "roundtrip", "%v from %q became %v", got, b, again)
		}
		x.NonTrivial()
	}
	if x.Chance(0.3) {
		one := 1
		var ifc interface{}
		vals := []interface{}{nil, 1, "x", 1.5, true, []byte("{}"), map[string]string{"uid": "a"}, struct{ UID string }{"a"}, []int{1}, &one,
			func() {}, make(chan int), &ifc, x.UID("a"), x.Attrs(nil), &struct{}{}, []space.Entity{}, errors.New("x"), &myResource{uid: x.UID("u")}}
		v := vals[x.IntN(len(vals))]
		doc, _ := x.document("entity", 0)
		if b, err := m.Marshal(v); !errors.Is(err, marshal.ErrUnsuportedType) {
			x.Fail("M02", "unsupported", "Marshal(%T) = %q, %v, want %v", v, b, err, marshal.ErrUnsuportedType)
		}
		if err := m.Unmarshal([]byte(doc), v); !errors.Is(err, marshal.ErrUnsuportedType) {
			x.Fail("M02", "unsupported", "Unmarshal to %T = %v, want %v", v, err, marshal.ErrUnsuportedType)
		}
		if one != 1 || ifc != nil {
			x.Fail("M02", "changed", "Unmarshal to an unsupported type changed it")
		}
		x.Count("unsupported_types", 1)
	}
}

// ------------------------------------------------------------------ constructors

type holder struct {
	res    space.Resource // given to an object
	resVal *val
	v      *val
	e      interface{}
	attrs  attrs.Attrs
	fresh  bool
}

func constructors(x *Exec) {
	var hs []*holder
	uids := map[string]bool{}
	given := map[string]bool{}
	var shared []entity.Option
	var sharedVal *val
	n := 2 + x.IntN(10)
	for i := 0; i < n; i++ {
		v := x.newVal(x.pickKind())
		v.custom = false
		h := &holder{v: v}
		v.hasUID, v.hasAttrs, v.hasDOT = x.Chance(0.6), x.Chance(0.6), x.Chance(0.5)
		u, a := x.UID(v.uid), x.Attrs(v.attrs)
		var opts []entity.Option
		var lopts []link.Option
		if v.hasUID {
			opts, lopts = append(opts, entity.WithUID(u)), append(lopts, link.WithUID(u))
		}
		if v.hasAttrs {
			opts, lopts = append(opts, entity.WithAttrs(a)), append(lopts, link.WithAttrs(a))
		}
		if v.dotid = x.Str(); v.dotid == "" {
			v.hasDOT = false
		}
		if v.hasDOT {
			opts = append(opts, entity.WithDOTID(v.dotid))
		}
		if x.Chance(0.3) {
			// options which change nothing
			opts, lopts = append([]entity.Option{entity.WithUID(nil), entity.WithAttrs(nil), entity.WithDOTID("")}, opts...), append([]link.Option{link.WithMerge(x.Chance(0.5)), link.WithUID(nil)}, lopts...)
		}
		shuffle(x, lopts[len(lopts):])
		if v.kind != "link" && shared != nil && x.Chance(0.2) {
			// the same options for a second value
			opts = shared
			v.hasUID, v.hasAttrs, v.hasDOT, v.uid, v.attrs, v.dotid = sharedVal.hasUID, sharedVal.hasAttrs, sharedVal.hasDOT, sharedVal.uid, sharedVal.attrs, sharedVal.dotid
		}
		var res space.Resource
		if v.res != nil {
			res = x.build(v.res).(space.Resource)
		}
		var err error
		switch v.kind {
		case "link":
			h.e, err = link.New(x.UID(v.from), x.UID(v.to), lopts...)
		case "entity":
			h.e, err = entity.New(v.typ, opts...)
		case "resource":
			h.e, err = entity.NewResource(v.typ, v.name, v.group, v.version, v.rkind, v.namespaced, opts...)
		case "object":
			h.e, err = entity.NewObject(v.typ, v.name, v.ns, res, opts...)
			if h.res = res; res != nil {
				h.resVal, _ = readVal("resource", res)
			}
		}
		if err != nil {
			x.Fail("E01", "new", "constructing %v: %v", v, err)
		}
		if v.kind != "link" && !v.hasAttrs {
			shared, sharedVal = opts, v
		}
		if !v.hasAttrs {
			v.attrs = map[string]string{}
		}
		got, err := readVal(v.kind, h.e)
		if err != nil {
			x.Fail("E01", "fields", "constructed from %v: %v", v, err)
		}
		if !v.hasUID {
			v.uid = got.uid
			if v.uid == "" || uids[v.uid] {
				x.Fail("E01 U01", "fresh", "generated unique id %q of a %s is empty or taken", v.uid, v.kind)
			}
			uids[v.uid] = true
		} else {
			given[v.uid] = true
		}
		if !v.hasDOT {
			switch {
			case v.kind == "resource":
				v.dotid = strings.Join([]string{v.group, v.version, v.rkind}, "/")
			case v.kind == "object" && v.res != nil:
				v.dotid = strings.Join([]string{v.res.group, v.res.version, v.res.rkind, v.ns, v.name}, "/")
			default:
				v.dotid = v.uid
			}
		}
		hs = append(hs, h)
		x.Log("constructed %v uid=%v attrs=%v dotid=%v", v, v.hasUID, v.hasAttrs, v.hasDOT)
		checkHeld(x, hs)
	}
	for i := 0; i < 2*n; i++ {
		h := hs[x.IntN(len(hs))]
		switch x.IntN(2) {
		case 0:
			s, ok := h.e.(interface{ SetDOTID(string) })
			if !ok {
				if h.v.kind != "link" {
					x.Fail("E01", "dotid", "%s without SetDOTID", h.v.kind)
				}
				continue
			}
			d := x.Str()
			s.SetDOTID(d)
			h.v.dotid = d
			x.Log("SetDOTID(%q)", d)
		case 1:
			k, w := x.Str(), x.Str()
			a := h.e.(interface{ Attrs() attrs.Attrs }).Attrs()
			if err := a.Set(bg, k, w); err != nil {
				x.Fail("E01", "attrs", "Set: %v", err)
			}
			h.v.attrs[k] = w
			x.Log("Set(%q, %q)", k, w)
		}
		checkHeld(x, hs)
	}
	x.NonTrivial()
}

func checkHeld(x *Exec, hs []*holder) {
	for _, h := range hs {
		got, err := readVal(h.v.kind, h.e)
		if err != nil {
			x.Fail("E01", "fields", "constructed from %v: %v", h.v, err)
		}
		if !got.same(h.v) {
			x.Fail("E01", "fields", "value is %v, want %v", got, h.v)
		}
		if h.v.kind != "link" && got.dotid != h.v.dotid {
			x.Fail("E01", "dotid", "%v has DOT id %q, want %q", h.v, got.dotid, h.v.dotid)
		}
		if h.res != nil && h.resVal != nil && got.res != nil && got.res.dotid != h.resVal.dotid {
			x.Fail("E01", "resource", "the resource of %v has DOT id %q, that given to it %q", h.v, got.res.dotid, h.resVal.dotid)
		}
		x.Count("values_compared", 1)
	}
}

// -------------------------------------------------------------------- attributes

type attrHeld struct {
	a attrs.Attrs
	m map[string]string
}

func (x *Exec) checkAttrs(h *attrHeld) {
	keys, err := h.a.Keys(bg)
	if err != nil {
		x.Fail("A01", "keys", "Keys = %v", err)
	}
	got := map[string]bool{}
	for _, k := range keys {
		if got[k] {
			x.Fail("A01", "keys", "key %q twice", k)
		}
		got[k] = true
		if _, ok := h.m[k]; !ok {
			x.Fail("A01", "keys", "unknown key %q", k)
		}
	}
	if len(got) != len(h.m) {
		x.Fail("A01", "keys", "keys %q, want %q", keys, sortedKeys(h.m))
	}
	for k, w := range h.m {
		if v, err := h.a.Get(bg, k); err != nil || v != w {
			x.Fail("A01", "get", "Get(%q) = %q, %v, want %q", k, v, err, w)
		}
	}
	for i := 0; i < 2; i++ {
		k := x.Str()
		if v, err := h.a.Get(bg, k); err != nil || v != h.m[k] {
			x.Fail("A01", "get", "Get(%q) = %q, %v, want %q", k, v, err, h.m[k])
		}
	}
	m, err := attrs.ToMap(bg, h.a)
	if err != nil || !sameMap(m, h.m) {
		x.Fail("A01", "tomap", "ToMap = %s, %v, want %s", showMap(m), err, showMap(h.m))
	}
	x.checkEnc(memattrs.DOTAttrs(h.a), h.m)
	if d, ok := h.a.(attrs.DOT); ok {
		x.checkEnc(d.Attributes(), h.m)
	} else {
		x.Fail("A01", "dot", "attributes without DOT attributes")
	}
	x.Count("views_compared", 1)
}

func (x *Exec) checkEnc(as []encoding.Attribute, want map[string]string) {
	m := map[string]string{}
	for _, a := range as {
		if _, ok := m[a.Key]; ok {
			x.Fail("A01", "dot", "DOT attribute %q twice", a.Key)
		}
		m[a.Key] = a.Value
	}
	if !sameMap(m, want) {
		x.Fail("A01", "dot", "DOT attributes %s, want %s", showMap(m), showMap(want))
	}
}

func attrSeq(x *Exec) {
	var hs []*attrHeld
	var srcs []map[string]string // maps given to NewFromMap
	var maps []*attrHeld         // results of ToMap, as attributes of the harness
	pool := x.Pool("k", 1+x.IntN(8))
	key := func() string {
		if x.Chance(0.8) {
			return pool[x.IntN(len(pool))]
		}
		return x.Str()
	}
	steps := x.More(5 + x.IntN(40))
	if x.Big {
		steps = 400
	}
	for i := 0; i < steps; i++ {
		op := x.Pick(12, 1, 2, 3, 1, 2, 2)
		if len(hs) == 0 {
			op = 1
		}
		switch op {
		case 0:
			h := hs[x.IntN(len(hs))]
			k, v := key(), x.Str()
			x.Log("Set(%q, %q)", k, v)
			if err := h.a.Set(bg, k, v); err != nil {
				x.Fail("A01", "set", "Set = %v", err)
			}
			h.m[k] = v
		case 1:
			x.Log("New")
			hs = append(hs, &attrHeld{memattrs.New(), map[string]string{}})
		case 2:
			m := x.AttrMap()
			if x.Chance(0.1) {
				m = nil
			}
			x.Log("NewFromMap(%s)", showMap(m))
			hs = append(hs, &attrHeld{memattrs.NewFromMap(m), copyMap(m)})
			if m != nil {
				srcs = append(srcs, m)
			}
		case 3:
			h := hs[x.IntN(len(hs))]
			var src attrs.Attrs = h.a
			if x.Chance(0.2) {
				src = &myAttrs{copyMap(h.m)}
			}
			a, err := memattrs.NewCopyFrom(bg, src)
			if err != nil || a == nil {
				x.Fail("A01", "copy", "NewCopyFrom = %v", err)
			}
			x.Log("NewCopyFrom(%s)", showMap(h.m))
			hs = append(hs, &attrHeld{a, copyMap(h.m)})
		case 4:
			a, err := memattrs.NewCopyFrom(bg, nil)
			if err != nil || a == nil {
				x.Fail("A01", "copy", "NewCopyFrom(nil) = %v", err)
			}
			x.Log("NewCopyFrom(nil)")
			hs = append(hs, &attrHeld{a, map[string]string{}})
			if x.Chance(0.3) {
				b := x.badAttrs()
				if a, err := memattrs.NewCopyFrom(bg, b); err == nil {
					x.Fail("A01", "copy", "NewCopyFrom of unreadable attributes = %v", a)
				}
				if a, err := attrs.ToMap(bg, b); err == nil {
					x.Fail("A01", "tomap", "ToMap of unreadable attributes = %v", a)
				}
			}
		case 5:
			h := hs[x.IntN(len(hs))]
			m, err := attrs.ToMap(bg, h.a)
			if err != nil || !sameMap(m, h.m) {
				x.Fail("A01", "tomap", "ToMap = %s, %v, want %s", showMap(m), err, showMap(h.m))
			}
			x.Log("ToMap(%s)", showMap(m))
			if m != nil {
				maps = append(maps, &attrHeld{&myAttrs{m}, copyMap(m)})
			}
		case 6:
			// a change of a map given or taken
			if len(srcs) > 0 && x.Chance(0.5) {
				x.Log("a map given is changed")
				m := srcs[x.IntN(len(srcs))]
				m[key()] = x.Str()
				for k := range m {
					if x.Chance(0.3) {
						delete(m, k)
					}
				}
			} else if len(maps) > 0 {
				x.Log("a map taken is changed")
				h := maps[x.IntN(len(maps))]
				k, v := key(), x.Str()
				h.m[k] = v
				h.a.(*myAttrs).m[k] = v
			}
		}
		if len(hs) > 6 {
			hs = append(hs[:0], hs[2:]...)
		}
		for _, h := range hs {
			x.checkAttrs(h)
		}
		for _, h := range maps {
			if !sameMap(h.a.(*myAttrs).m, h.m) {
				x.Fail("A01", "tomap", "map taken with ToMap changed to %s, want %s", showMap(h.a.(*myAttrs).m), showMap(h.m))
			}
		}
		if len(hs) > 1 {
			x.NonTrivial()
		}
	}
	x.Count("operations", steps)
}

func init() {
	register("M01", &Part{Name: "round-trip", Engine: Sim, Quick: 40000, Thorough: 2000000, Run: roundTrips,
		Rule: "random values of the four kinds (library and foreign implementations, arbitrary Unicode, absent or present resource) marshaled, read by a reference decoder, unmarshaled and compared field by field, marshaled bytes and values looked at again later; non-trivial: a value with attributes"})
	register("M02", &Part{Name: "any-bytes", Engine: Sim, Quick: 30000, Thorough: 2000000, Run: anyBytes,
		Rule: "documents of all shapes, layouts and escapes, wrongly typed fields, truncations, byte-level mutations, random bytes and deep nesting unmarshaled into fresh and used targets and compared with a reference decoder; non-trivial: at least one was accepted"})
	register("E01", &Part{Name: "construct", Engine: Sim, Quick: 30000, Thorough: 1000000, Run: constructors,
		Rule: "random constructions with random option sets, all values compared with what they were made from after every later construction, DOT id change and attribute change; every execution is non-trivial"})
	register("A01", &Part{Name: "model", Engine: Sim, Quick: 16000, Thorough: 600000, Run: attrSeq,
		Rule: "random sets, copies and conversions over up to seven attribute sets, each compared with its own map after every step; non-trivial: two or more attribute sets exist at a time"})
}
