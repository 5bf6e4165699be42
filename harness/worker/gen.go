package worker

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
)

var bg = context.Background()

// Unique ids held in different kinds of values.

type strUID string

func (u strUID) String() string { return string(u) }

type ptrUID struct{ s string }

func (u *ptrUID) String() string { return u.s }

type padUID struct {
	n int
	s string
}

func (u padUID) String() string { return u.s }

// UID returns a new value for the unique id s; equal ids come in different values.
func (x *Exec) UID(s string) uuid.UID {
	switch x.Pick(6, 1, 1, 1, 1) {
	case 1:
		return strUID(s)
	case 2:
		return &ptrUID{s}
	case 3:
		return *memuid.NewFromString(s)
	case 4:
		return padUID{x.IntN(100), s}
	}
	return memuid.NewFromString(s)
}

var oddStrings = []string{
	"", " ", "a", "A", "0", "-1", "null", "nil", "true", "a b", "a/b", "/", "//", "a\tb", "a\nb", "\x00", "\"", "a\"b", "\\", "\\n",
	"é", "日本語", "🙂", "e\u0301", "\u2028", "\ufeff", "<a>&b", "{}", "[1]", "a,b", "a:b", "a=b", "%s%d", "..", "_partial", "name", "dotid", "weight",
	"uid", "type", "attrs", "Aa", "BB", "digraph", "node", "edge", "graph", "strict", "->", "--", ";", "x]y", "'", "`", "\r\n", "\u00a0", "ß", "İ",
	"\\u0026", "\\u003c", "\\u2028", "\\\"", "\\\\n", "&amp;", "&", "<", ">", "{{.}}", "${a}", "%20", "\\u0000", "\\ufffd", "\ufffd", "\x7f", "\x1f", "\b\f",
	"fooUID", "testEntUID", "00000000-0000-0000-0000-000000000000",
}

// Str returns an arbitrary valid string.
func (x *Exec) Str() string {
	s := x.str_()
	if len(x.recent) < 32 {
		x.recent = append(x.recent, s)
	} else {
		x.recent[x.Rand.IntN(32)] = s
	}
	return s
}

func (x *Exec) str_() string {
	if x.str != nil && x.Rand.IntN(4) == 0 {
		// a string that new code mentions
		l := *x.str
		switch x.Rand.IntN(9) {
		case 0:
			return l + "x"
		case 1:
			return "x" + l
		case 2:
			return "x" + l + "y"
		case 3:
			return l + l
		case 4:
			return strings.ToUpper(l)
		}
		return l
	}
	if x.Rand.IntN(16) == 0 && len(x.recent) > 0 {
		// or one used before, or nearly so
		s := x.recent[x.Rand.IntN(len(x.recent))]
		switch x.Rand.IntN(8) {
		case 0:
			return s + "x"
		case 1:
			return strings.ToUpper(s)
		}
		return s
	}
	switch x.Pick(4, 4, 3, 1) {
	case 0:
		return oddStrings[x.IntN(len(oddStrings))]
	case 1:
		return fmt.Sprintf("%c%d", 'a'+rune(x.IntN(26)), x.IntN(1000))
	case 2:
		n := x.IntN(12)
		r := make([]rune, n)
		for i := range r {
			switch x.IntN(8) {
			case 0:
				r[i] = rune(x.IntN(0x80))
			case 1:
				r[i] = rune(0x80 + x.IntN(0x780))
			case 2:
				r[i] = rune(0x10000 + x.IntN(0x10000))
			case 3:
				r[i] = rune(0xe000 + x.IntN(0x2000))
			default:
				r[i] = rune(0x20 + x.IntN(0x5f))
			}
		}
		return string(r)
	default:
		n := x.Size(1+x.IntN(300), 20000)
		if x.Chance(0.02) {
			n = 1000 + x.IntN(9000)
		}
		return strings.Repeat(string(rune('a'+x.IntN(26))), n) + fmt.Sprint(x.IntN(10))
	}
}

// families are sets of different strings that are easily taken for one another.
var families = [][]string{
	{"key", "Key", "KEY", "kEY", "keY", "\u212aey", "ke\u028f"},
	{"a", " a", "a ", " a ", "\ta", "a\n", "a\r\n", "\u00a0a", "a\u200b", "\ufeffa", "a\x00", "\x00a", "a\u3000"},
	{"a b", "a  b", "a\tb", "a_b", "a-b", "a.b", "ab", "a+b", "a%20b", "a\\ b", "a\u00a0b", "a\nb"},
	{"é", "e\u0301", "E\u0301", "É", "e", "\u00c3\u00a9", "&eacute;", "%C3%A9", "\\u00e9"},
	{"ß", "ss", "SS", "ẞ", "ſs", "SS ", "sS"},
	{"i", "I", "İ", "ı", "i\u0307", "î", "ï"},
	{"Å", "A\u030a", "\u212b", "A", "å", "a"},
	{"ﬁ", "fi", "f\u200di", "FI", "ﬁ "},
	{"Ω", "\u2126", "ω", "Ο", "O", "0"},
	{"1", "01", "1.0", "+1", "1e0", "0x1", " 1", "1.", "１", "true", "-1", "1L", "001"},
	{"0", "-0", "0.0", "00", "", "null", "nil", "<nil>", "false", "undefined", "NaN", "none", "\x00"},
	{"a/b", "a//b", "/a/b", "a/b/", "./a/b", "a/./b", "a/c/../b", "a%2Fb", "a\\b", "a/B", "a:b", "a|b", "a,b", "a.b"},
	{"..", ".", "/", "//", "./", "../", "", "/.", "~"},
	{"a", "\"a\"", "'a'", "`a`", "\\\"a\\\"", "<a>", "&lt;a&gt;", "{a}", "[a]", "(a)", "a;", "$a", "%a", "@a", "#a", "a*", "*a", "a?"},
	{"*", "#", "+", "?", "a.*", "a.#", "a.+", "a.b", "a.b.c", ".*", "a>", "a.>", ">", "**"},
	{"d9428888-122b-11e1-b85c-61cd3cbb3210", "D9428888-122B-11E1-B85C-61CD3CBB3210", "{d9428888-122b-11e1-b85c-61cd3cbb3210}", "urn:uuid:d9428888-122b-11e1-b85c-61cd3cbb3210", "d9428888122b11e1b85c61cd3cbb3210"},
	{"Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa"},
	{"costarring", "liquid", "declinate", "macallums", "altarage", "zinke", "plumless", "buckeroo"},
	{"abc", "acb", "bac", "bca", "cab", "cba"},
	{"a", "aa", "aaa", "aaaa", "aaaaa", "b", "ba", "ab"},
	{"a1", "a10", "a2", "a20", "a100", "A1", "a01", "a1 "},
	{"u0026", "\\u0026", "&", "&amp;", "\\\\u0026", "%26", "\\x26", "＆"},
	{"\u2028", "\\u2028", "\n", "\\n", "\r", "\r\n", "\u2029", "\x0b", "\u0085"},
	{"\ufffd", "\\ufffd", "?", "\ufffd\ufffd", "\ufffe"},
}

var seps = []string{"/", "-", ":", "|", ",", " ", "->", "--", ".", "_", "\x00", "", ";", "=", "\n", "\t", "#", "@", "+", "&", "::", "\x1f", "\x01", "\" \"", "][", ", "}

// family returns n or fewer different strings that are easily taken for one another.
func (x *Exec) family(n int) []string {
	var r []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] && len(r) < n {
			seen[s] = true
			r = append(r, s)
		}
	}
	switch x.Pick(6, 4, 1) {
	case 0:
		f := families[x.IntN(len(families))]
		for _, i := range x.Perm(len(f)) {
			add(f[i])
		}
	case 1:
		// joins of one another
		s := seps[x.IntN(len(seps))]
		p, q := "x", "y"
		if x.Chance(0.3) {
			p, q = x.Str(), x.Str()
		}
		j := []string{p, q, p + s + q, q + s + p, p + s + p, q + s + q, p + s, s + p, s + q, q + s, s, p + s + q + s + p, p + s + p + s + q, s + s, p + s + s + q}
		for _, i := range x.Perm(len(j)) {
			add(j[i])
		}
	case 2:
		// long ones that differ at one place only
		l := []int{8, 16, 31, 32, 36, 63, 64, 65, 127, 128, 255, 256, 1000}[x.IntN(13)]
		b := []byte(strings.Repeat("p", l))
		for i := 0; i < n; i++ {
			c := append([]byte{}, b...)
			c[[]int{0, l / 2, l - 1, x.IntN(l)}[x.IntN(4)]] = byte('a' + x.IntN(26))
			if x.Chance(0.2) {
				c = c[:len(c)-1]
			}
			add(string(c))
		}
	}
	return r
}

// Pool returns n distinct unique ids, some of them odd.
func (x *Exec) Pool(prefix string, n int) []string {
	r := make([]string, 0, n)
	seen := map[string]bool{}
	mode := x.Pick(4, 3, 3)
	if mode == 2 {
		for _, s := range x.family(n) {
			seen[s] = true
			r = append(r, s)
		}
	}
	for len(r) < n {
		s := fmt.Sprintf("%s%d", prefix, len(r))
		if x.str != nil && x.Chance(0.15) {
			s = x.Str()
		}
		if mode == 1 && x.Chance(0.5) {
			s = x.Str()
		}
		for seen[s] {
			s += "+"
		}
		seen[s] = true
		r = append(r, s)
	}
	return r
}

// Typ returns a type, mostly one nothing else has.
func (x *Exec) Typ(n int) string {
	if x.sameTyp == nil {
		v := x.Chance(0.25)
		x.sameTyp = &v
	}
	p := 0.03
	if *x.sameTyp {
		p = 0.7
	}
	if x.str != nil && x.Chance(0.3) {
		return *x.str
	}
	if x.Chance(p) {
		return []string{"", entity.Partial, "T", "entity"}[x.Pick(2, 2, 4, 1)]
	}
	return fmt.Sprintf("T%d", n)
}

// custom attributes implementation of the harness (not the library's).
type myAttrs struct{ m map[string]string }

func (a *myAttrs) Keys(context.Context) ([]string, error) {
	return sortedKeys(a.m), nil
}
func (a *myAttrs) Get(_ context.Context, k string) (string, error) { return a.m[k], nil }
func (a *myAttrs) Set(_ context.Context, k, v string) error        { a.m[k] = v; return nil }

// AttrMap returns an arbitrary map of attributes.
func (x *Exec) AttrMap() map[string]string {
	m := map[string]string{}
	n := x.Size(x.Pick(3, 3, 3, 2, 1, 1), 300)
	if x.Chance(0.02) {
		n = 20 + x.IntN(60)
	}
	var keys []string
	if n > 1 && x.Chance(0.15) {
		keys = x.family(n)
	}
	for i := 0; i < n; i++ {
		k, v := x.Str(), x.Str()
		if i < len(keys) {
			k = keys[i]
		} else if x.Chance(0.15) {
			// attributes the library itself has names for
			k = ownKeys[x.IntN(len(ownKeys))]
		}
		if x.Chance(0.15) {
			v = plainValues[x.IntN(len(plainValues))]
		}
		m[k] = v
	}
	return m
}

var ownKeys = []string{attrs.Name, attrs.DOTID, attrs.Weight, attrs.Relation, attrs.DOTLabel, entity.Partial}

var plainValues = []string{"", "0", "1", "true", "false"}

// myCtx is a context that is none of the standard library.
type myCtx struct {
	context.Context
	done chan struct{}
	once sync.Once
}

func (c *myCtx) Done() <-chan struct{} { return c.done }

func (c *myCtx) Err() error {
	select {
	case <-c.done:
		return context.Canceled
	default:
		return nil
	}
}

type ctxMark struct{}

// newCtx returns a context of some kind and what cancels it.
func newCtx(g *rand.Rand) (context.Context, context.CancelFunc) {
	switch g.IntN(10) {
	case 0:
		ctx, cancel := context.WithCancel(bg)
		return context.WithValue(ctx, ctxMark{}, 1), cancel
	case 1:
		// a deadline that is never reached
		return context.WithTimeout(bg, 50000*time.Hour)
	case 2:
		// cancelled by an ancestor
		ctx, cancel := context.WithCancel(bg)
		ctx, cancel2 := context.WithTimeout(ctx, 60000*time.Hour)
		c := ctx
		return context.WithValue(c, ctxMark{}, 2), func() { cancel(); cancel2() }
	case 3:
		ctx, cancel := context.WithCancelCause(bg)
		return ctx, func() { cancel(errCause) }
	case 4:
		c := &myCtx{Context: bg, done: make(chan struct{})}
		return c, func() { c.once.Do(func() { close(c.done) }) }
	}
	return context.WithCancel(bg)
}

// listMax is the greatest length of an argument list that is mostly no longer than max.
func (x *Exec) listMax(max int) int {
	if n, ok := x.Near(1000); ok {
		return n + 1 + max
	}
	switch x.Pick(90, 8, 1) {
	case 1:
		return 60
	case 2:
		return 300
	}
	return max
}

var errCause = errors.New("because")

// Attrs returns attributes holding m.
func (x *Exec) Attrs(m map[string]string) attrs.Attrs {
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	switch x.IntN(5) {
	case 0:
		return &myAttrs{c}
	case 1:
		a := memattrs.New()
		for k, v := range c {
			_ = a.Set(bg, k, v)
		}
		return a
	}
	return memattrs.NewFromMap(c)
}

// attrsOf reads attributes into a map.
func attrsOf(a attrs.Attrs) (map[string]string, error) {
	m := map[string]string{}
	if a == nil {
		return m, fmt.Errorf("attributes are nil")
	}
	keys, err := a.Keys(bg)
	if err != nil {
		return nil, err
	}
	for _, k := range keys {
		if _, ok := m[k]; ok {
			return nil, fmt.Errorf("key %q twice", k)
		}
		if m[k], err = a.Get(bg, k); err != nil {
			return nil, err
		}
	}
	return m, nil
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func copyMap(m map[string]string) map[string]string {
	c := make(map[string]string, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func showMap(m map[string]string) string {
	var sb strings.Builder
	for i, k := range sortedKeys(m) {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%q=%q", k, m[k])
	}
	return "{" + sb.String() + "}"
}

var oddWeights = []float64{0, 1, -1, 0.1, 2.5, 1e308, 5e-324, -0.75, math.Inf(1), math.Inf(-1), 3, 1e-9, 42}

// Weight returns a weight.
func (x *Exec) Weight() float64 {
	if x.num != nil && x.Chance(0.3) {
		return float64(*x.num) + []float64{0, 0, 1, -1, 0.5}[x.Rand.IntN(5)]
	}
	if x.Chance(0.4) {
		return oddWeights[x.IntN(len(oddWeights))]
	}
	return math.Round(x.Float64()*1e6) / 1e3
}

func sameFloat(a, b float64) bool { return a == b || (math.IsNaN(a) && math.IsNaN(b)) }

// Entities.

type myEntity struct {
	uid uuid.UID
	typ string
	a   attrs.Attrs
}

func (e *myEntity) UID() uuid.UID      { return e.uid }
func (e *myEntity) Type() string       { return e.typ }
func (e *myEntity) Attrs() attrs.Attrs { return e.a }

type anyEntity interface {
	UID() uuid.UID
	Type() string
	Attrs() attrs.Attrs
}

// Entity returns an entity with the given unique id, type and attributes.
func (x *Exec) Entity(uid, typ string, m map[string]string) anyEntity {
	u, a := x.UID(uid), x.Attrs(m)
	opts := []entity.Option{entity.WithUID(u), entity.WithAttrs(a)}
	switch x.Pick(3, 2, 2, 2) {
	case 0:
		e, err := entity.New(typ, opts...)
		if err != nil {
			x.Fail("E01", "entity-new", "entity.New: %v", err)
		}
		return e
	case 1:
		e, err := entity.NewResource(typ, x.Str(), x.Str(), x.Str(), x.Str(), x.Chance(0.5), opts...)
		if err != nil {
			x.Fail("E01", "entity-new", "entity.NewResource: %v", err)
		}
		return e
	case 2:
		e, err := entity.NewObject(typ, x.Str(), x.Str(), nil, opts...)
		if err != nil {
			x.Fail("E01", "entity-new", "entity.NewObject: %v", err)
		}
		return e
	}
	return &myEntity{u, typ, a}
}

func sortedCopy(s []string) []string {
	c := append([]string{}, s...)
	sort.Strings(c)
	return c
}

func shuffle[T any](x *Exec, s []T) {
	x.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
}
