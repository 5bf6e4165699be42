package worker

import (
	"fmt"
	"strconv"
	"strings"
	"sync"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"gonum.org/v1/gonum/graph/encoding"
)

type dotAttr struct{ k, v string }

type dotItem struct {
	id, from, to string
	attrs        []dotAttr
}

func (i *dotItem) attr(k string) string {
	for _, a := range i.attrs {
		if a.k == k {
			return unq(a.v)
		}
	}
	return ""
}

type dotGraph struct {
	directed, strict bool
	name             string
	nodes, edges     []*dotItem
	other            int
}

// unq returns the string a DOT token stands for.
func unq(tok string) string {
	if strings.HasPrefix(tok, `"`) {
		if s, err := strconv.Unquote(tok); err == nil {
			return s
		}
	}
	return tok
}

// lexDOT splits DOT text into tokens, following the Graphviz grammar.
func lexDOT(s string) (toks []string, err error) {
	word := func(c byte) bool {
		return c == '_' || c >= 0x80 || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	for i := 0; i < len(s); {
		c := s[i]
		j := i + 1
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i = j
			continue
		case strings.HasPrefix(s[i:], "//"):
			for j < len(s) && s[j] != '\n' {
				j++
			}
			i = j
			continue
		case strings.HasPrefix(s[i:], "/*"):
			k := strings.Index(s[i+2:], "*/")
			if k < 0 {
				return nil, fmt.Errorf("DOT text does not parse: unfinished comment")
			}
			i += k + 4
			continue
		case strings.IndexByte("{}[];,=:", c) >= 0:
		case strings.HasPrefix(s[i:], "->"), strings.HasPrefix(s[i:], "--"):
			j = i + 2
		case c == '"':
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("DOT text does not parse: unfinished string at %d", i)
			}
			j++
		case c == '<':
			d := 1
			for j < len(s) && d > 0 {
				switch s[j] {
				case '<':
					d++
				case '>':
					d--
				}
				j++
			}
			if d > 0 {
				return nil, fmt.Errorf("DOT text does not parse: unfinished HTML string at %d", i)
			}
		case word(c):
			for j < len(s) && (word(s[j]) || digit(s[j])) {
				j++
			}
		case c == '-' || c == '.' || digit(c):
			dot, n := c == '.', 0
			if digit(c) {
				n++
			}
			for j < len(s) && (digit(s[j]) || s[j] == '.' && !dot) {
				if s[j] == '.' {
					dot = true
				} else {
					n++
				}
				j++
			}
			if n == 0 {
				return nil, fmt.Errorf("DOT text does not parse: bad number at %d", i)
			}
		default:
			return nil, fmt.Errorf("DOT text does not parse: unexpected %q at %d", s[i:j], i)
		}
		toks = append(toks, s[i:j])
		i = j
	}
	return toks, nil
}

// parseDOT reads DOT text; ids are unquoted, tokens of attributes are left as they are.
func parseDOT(s string) (g *dotGraph, err error) {
	toks, err := lexDOT(s)
	if err != nil {
		return nil, err
	}
	p := 0
	peek := func() string {
		if p < len(toks) {
			return toks[p]
		}
		return ""
	}
	bad := func(want string) {
		panic(fmt.Errorf("DOT text does not parse: token %d is %s, want %s", p, peek(), want))
	}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(error)
			if !ok {
				panic(r)
			}
			err = e
		}
	}()
	expect := func(t string) {
		if peek() != t {
			bad(t)
		}
		p++
	}
	keyword := func(t string) string {
		switch k := strings.ToLower(t); k {
		case "node", "edge", "graph", "digraph", "subgraph", "strict":
			return k
		}
		return ""
	}
	id := func() string {
		t := peek()
		if t == "" || strings.IndexByte("{}[];,=:", t[0]) >= 0 || t == "->" || t == "--" || keyword(t) != "" {
			bad("an id")
		}
		p++
		return t
	}
	g = &dotGraph{}
	if keyword(peek()) == "strict" {
		g.strict = true
		p++
	}
	switch keyword(peek()) {
	case "digraph":
		g.directed = true
	case "graph":
	default:
		bad("graph or digraph")
	}
	p++
	if peek() != "{" {
		g.name = id()
	}
	expect("{")
	attrList := func() (r []dotAttr) {
		for peek() == "[" {
			p++
			for peek() != "]" {
				k := id()
				expect("=")
				r = append(r, dotAttr{k, id()})
				if peek() == "," || peek() == ";" {
					p++
				}
			}
			p++
		}
		return
	}
	for peek() != "}" {
		switch keyword(peek()) {
		case "node", "edge", "graph":
			p++
			attrList()
			g.other++
		case "":
			a := id()
			switch peek() {
			case "=":
				p++
				id()
				g.other++
			case "->", "--":
				if (peek() == "->") != g.directed {
					bad("the other edge operator")
				}
				p++
				b := id()
				g.edges = append(g.edges, &dotItem{from: unq(a), to: unq(b), attrs: attrList()})
			default:
				g.nodes = append(g.nodes, &dotItem{id: unq(a), attrs: attrList()})
			}
		default:
			bad("a statement")
		}
		if peek() == ";" {
			p++
		}
	}
	p++
	if p != len(toks) {
		bad("the end")
	}
	return g, nil
}

// sameAttrs compares DOT attributes, given as tokens, with the pairs expected.
func sameAttrs(got []dotAttr, want map[string]string) bool {
	if len(got) != len(want) {
		return false
	}
	left := copyMap(want)
next:
	for _, a := range got {
		for k, v := range left {
			if (a.k == k || unq(a.k) == k) && (a.v == v || unq(a.v) == v) {
				delete(left, k)
				continue next
			}
		}
		return false
	}
	return true
}

type dotter interface {
	DOT() (string, error)
}

// checkDOT compares the DOT text of a graph with the model.
func checkDOT(text string, m *mGraph, name string) string {
	g, err := parseDOT(text)
	if err != nil {
		return err.Error()
	}
	if g.directed != m.directed {
		return fmt.Sprintf("directed=%v, want %v", g.directed, m.directed)
	}
	if g.name != name && unq(g.name) != name {
		return fmt.Sprintf("graph name %s, want %q", g.name, name)
	}
	byID := map[string]*mNode{}
	for _, n := range m.nodes {
		byID[n.dotid] = n
	}
	seen := map[string]bool{}
	for _, n := range g.nodes {
		w := byID[n.id]
		if w == nil {
			return fmt.Sprintf("node statement %q of no node", n.id)
		}
		if seen[n.id] {
			return fmt.Sprintf("two node statements %q", n.id)
		}
		seen[n.id] = true
		if !sameAttrs(n.attrs, w.attrs) {
			return fmt.Sprintf("node %q has attributes %q, want %s", n.id, n.attrs, showMap(w.attrs))
		}
	}
	if len(seen) != len(m.nodes) {
		return fmt.Sprintf("%d node statements, want %d", len(seen), len(m.nodes))
	}
	es := map[[2]string]bool{}
	for _, e := range g.edges {
		f, t := byID[e.from], byID[e.to]
		if f == nil || t == nil {
			return fmt.Sprintf("edge statement %q-%q of no nodes", e.from, e.to)
		}
		k := m.key(f.uid, t.uid)
		if es[k] {
			return fmt.Sprintf("two edge statements %q-%q", e.from, e.to)
		}
		es[k] = true
		w := m.edges[k]
		if w == nil {
			return fmt.Sprintf("edge statement %q-%q of no edge", e.from, e.to)
		}
		if !sameAttrs(e.attrs, w.attrs) {
			return fmt.Sprintf("edge %q-%q has attributes %q, want %s", e.from, e.to, e.attrs, showMap(w.attrs))
		}
	}
	if len(es) != len(m.edges) {
		return fmt.Sprintf("%d edge statements, want %d", len(es), len(m.edges))
	}
	return ""
}

func plainDOT(s string) bool {
	return s != "" && s[0] != '"' && s[0] != '<'
}

// dotMap returns attributes which mean the same quoted and unquoted.
func (x *Exec) dotMap() map[string]string {
	m := x.AttrMap()
	for k, v := range m {
		if strings.HasPrefix(k, `"`) || strings.HasPrefix(k, "<") || strings.HasPrefix(v, `"`) || strings.HasPrefix(v, "<") {
			delete(m, k)
		}
	}
	return m
}

// dotOptions: the attributes configured for a graph are those it reports to DOT encoders.
func (x *Exec) dotOptions() {
	var as [3]attrs.DOT
	var ms [3]map[string]string
	for i := range as {
		if x.Chance(0.7) {
			ms[i] = x.AttrMap()
			as[i] = memattrs.NewFromMap(ms[i])
		}
	}
	g := x.newGraph(x.Chance(0.5), graph.WithDOTOptions(graph.DOTOptions{GraphAttrs: as[0], NodeAttrs: as[1], EdgeAttrs: as[2]}))
	d, ok := g.(interface {
		DOTAttributers() (graph, node, edge encoding.Attributer)
	})
	if !ok {
		return
	}
	a, b, c := d.DOTAttributers()
	for i, got := range []encoding.Attributer{a, b, c} {
		have := map[string]string{}
		if !isNil(got) {
			for _, e := range got.Attributes() {
				if _, ok := have[e.Key]; ok {
					x.Fail("G06", "options", "attributer %d has the attribute %q twice", i, e.Key)
				}
				have[e.Key] = e.Value
			}
		}
		if !sameMap(have, ms[i]) {
			x.Fail("G06", "options", "DOTAttributers: attributer %d has %s, configured was %s", i, showMap(have), showMap(ms[i]))
		}
	}
	x.Count("attributers_compared", 3)
}

func dotSeq(x *Exec) {
	if x.Chance(0.1) {
		x.dotOptions()
	}
	directed := x.Chance(0.5)
	name := x.Str()
	var opts []graph.Option
	if plainDOT(name) {
		opts = append(opts, graph.WithDOTID(name))
	} else {
		name = ""
	}
	guid := ""
	if x.Chance(0.4) {
		guid = fmt.Sprintf("g%d", x.IntN(1000))
		opts = append(opts, graph.WithUID(x.UID(guid)))
	}
	g := x.newGraph(directed, opts...)
	if guid != "" && g.UID().String() != guid {
		x.Fail("G06", "uid", "graph made with unique id %q has %q", guid, g.UID().String())
	}
	if name == "" {
		name = g.UID().String()
	}
	if d, ok := g.(interface{ DOTID() string }); ok && d.DOTID() != name {
		x.Fail("G06", "dotid", "DOTID() = %q, want %q", d.DOTID(), name)
	}
	d, ok := g.(dotter)
	if !ok {
		x.Fail("G06", "dot", "the graph has no DOT export")
	}
	nu := x.Size(1+x.IntN(7), 60)
	if x.Big {
		nu = 30 + x.IntN(50)
	}
	r := &gRun{Exec: x, g: g, m: newModel(directed), us: x.Pool("u", nu), last: "G06", ids: map[int64]bool{}, ents: map[string][]madeEntity{}}
	dotids := map[string]string{}
	for i, u := range r.us {
		s := x.Str()
		if !plainDOT(s) || x.Chance(0.3) {
			s = fmt.Sprintf("n%d", i)
		}
		for _, o := range dotids {
			if o == s {
				s = fmt.Sprintf("%s n%d", s, i)
			}
		}
		dotids[u] = s
	}
	export := func(when string) {
		s, err := d.DOT()
		if err != nil {
			x.Fail("G06", "dot", "DOT() = %v", err)
		}
		if e := checkDOT(s, r.m, name); e != "" {
			x.Log("%s", s)
			x.Fail("G06", "dot", "%s: %s", when, e)
		}
		x.Count("dot_texts_checked", 1)
		x.Count("dot_statements", len(r.m.nodes)+len(r.m.edges))
	}
	x.Log("directed=%v name=%q ids=%q", directed, name, dotids)
	export("empty graph")
	steps := x.More(3 + x.IntN(25))
	if x.Big {
		steps = 200
	}
	for i := 0; i < steps; i++ {
		u, v := r.uid(), r.uid()
		switch x.Pick(8, 8, 2, 2, 3, 2) {
		case 0:
			w := &mNode{uid: u, typ: fmt.Sprintf("T%d", i), attrs: x.dotMap(), dotid: dotids[u]}
			ent := x.Entity(u, w.typ, x.AttrMap())
			up := x.Chance(0.4)
			x.Log("AddNode(%q, %s, upsert=%v)", u, showMap(w.attrs), up)
			nopts := []graph.Option{graph.WithAttrs(x.Attrs(w.attrs))}
			late := x.Chance(0.2)
			if !late {
				nopts = append(nopts, graph.WithDOTID(w.dotid))
			}
			n, err := g.NewNode(bg, ent, nopts...)
			if err != nil {
				x.Fail("G06", "newnode", "NewNode = %v", err)
			}
			if late {
				n.(interface{ SetDOTID(string) }).SetDOTID(w.dotid)
			}
			var opts []graph.Option
			if up {
				opts = append(opts, graph.WithUpsert())
			}
			err = g.AddNode(bg, n, opts...)
			if r.m.nodes[u] == nil || up {
				if err != nil {
					x.Fail("G02 G06", "add", "AddNode(%q) = %v", u, err)
				}
				w.node = n
				r.m.nodes[u] = w
			}
		case 1:
			if r.m.nodes[u] == nil || r.m.nodes[v] == nil || u == v {
				continue
			}
			w := &mEdge{from: u, to: v, attrs: x.dotMap(), hasW: true, w: x.Weight()}
			x.Log("Link(%q, %q, %s)", u, v, showMap(w.attrs))
			e, err := g.Link(bg, x.UID(u), x.UID(v), graph.WithAttrs(x.Attrs(w.attrs)), graph.WithWeight(w.w))
			if err != nil {
				x.Fail("G04 G06", "link", "Link(%q, %q) = %v", u, v, err)
			}
			if r.m.edge(u, v) == nil {
				w.hasUID, w.uid = true, e.UID().String()
				r.m.edges[r.m.key(u, v)] = w
			}
		case 2:
			x.Log("RemoveNode(%q)", u)
			if err := g.RemoveNode(bg, x.UID(u)); err != nil {
				x.Fail("G03 G06", "remove", "RemoveNode = %v", err)
			}
			r.m.remove(u)
		case 3:
			x.Log("Unlink(%q, %q)", u, v)
			if err := g.Unlink(bg, x.UID(u), x.UID(v)); err != nil {
				x.Fail("G03 G06", "unlink", "Unlink = %v", err)
			}
			delete(r.m.edges, r.m.key(u, v))
		case 4:
			// attributes and ids set later are exported too
			if w := r.m.nodes[u]; w != nil && x.Chance(0.6) {
				if x.Chance(0.4) {
					x.Log("Set on node %q", u)
					if w.node.Attrs().Set(bg, "late", "v 2") == nil {
						w.attrs["late"] = "v 2"
					}
					continue
				}
				id := fmt.Sprintf("set%d", i)
				switch x.IntN(4) {
				case 0:
					id = strings.Repeat(id+"/", 1+x.IntN(60))
				case 1:
					if s := x.Str(); plainDOT(s) {
						id += s
					}
				case 2:
					id = w.dotid + id
				}
				for _, o := range r.us {
					if dotids[o] == id {
						id = fmt.Sprintf("%s of %d", id, i)
						break
					}
				}
				x.Log("SetDOTID(%q) on node %q", id, u)
				w.node.(interface{ SetDOTID(string) }).SetDOTID(id)
				w.dotid, dotids[u] = id, id
				continue
			}
			es, err := g.(iGraph).Edges(bg)
			if err != nil || len(es) == 0 {
				continue
			}
			e := es[x.IntN(len(es))]
			f, t, err := edgeEnds(e)
			if err != nil {
				continue
			}
			if e.Attrs().Set(bg, "late", "v 1") == nil {
				r.m.edge(f.UID().String(), t.UID().String()).attrs["late"] = "v 1"
			}
		case 5:
			export("again")
			export("and again")
		}
		if x.Chance(0.4) {
			export("after an operation")
		}
		r.check("G01 G06", false)
	}
	export("finally")
	// concurrent exports, mixed with reads
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		i := i
		go func() {
			defer wg.Done()
			x.Guard("DOT", func() {
				if i == 2 {
					_, _ = g.(iGraph).Nodes(bg)
					_, _ = g.(iGraph).Edges(bg)
					return
				}
				s, err := d.DOT()
				if err != nil {
					x.Report("G06", "dot", "concurrent DOT() = %v", err)
				} else if e := checkDOT(s, r.m, name); e != "" {
					x.Report("G06", "dot", "concurrent: %s", e)
				}
			})
		}()
	}
	wg.Wait()
	if x.Failed() {
		panic(abort{})
	}
	r.check("G01 G06", true)
	if len(r.m.nodes) > 1 {
		x.NonTrivial()
	}
	x.Count("operations", steps)
}

func init() {
	register("G06",
		&Part{Name: "model-dot", Engine: Sim, Quick: 6000, Thorough: 300000, Rule: "random graphs built by random operations, each export parsed by gonum's DOT parser and compared with an abstract graph, other operations and concurrent exports after it; non-trivial: ends with more than one node", Run: dotSeq},
		&Part{Name: "linearizable-dot", Engine: Sim, Perturb: true, Quick: 3000, Thorough: 150000, Rule: "short concurrent histories with DOT exports, checked by porcupine; non-trivial: calls overlapped", Run: graphLin("G06 G07", []int{3, 3, 3, 6, 3, 1, 0, 0, 0, 0, 1, 10})},
		&Part{Name: "race-dot", Engine: Race, Quick: 400, Thorough: 20000, Rule: "3 to 7 goroutines exporting and changing one graph under the race detector; every execution is non-trivial", Run: graphStress("G06 G07", []int{3, 3, 3, 6, 3, 1, 0, 0, 0, 0, 1, 10})},
	)
}
