// Command instr instruments the Go sources below a directory for use with go build -overlay.
//
//	instr -repo /repo -out DIR [-locks]
//
// It writes an instrumented copy of every non-test source file to DIR and DIR/overlay.json. A call of
// vsched.Point is inserted before every statement, on the same line, and with -locks sync.Mutex,
// sync.RWMutex and sync.Once are replaced by those of vsched. DIR/points.json maps points to positions.
//
// With -baseline FILE, DIR/focus.json tells how the sources differ from those the baseline was made of: the points
// of statements and of functions that are not the same, and the literals they use. It only says where to look harder.
// -write FILE makes a baseline.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	at, del int
	text    string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	locks := flag.Bool("locks", false, "")
	baseline := flag.String("baseline", "", "")
	write_ := flag.String("write", "", "")
	flag.Parse()
	src_ := newSource()
	overlay := map[string]string{}
	points := []string{}
	var files []string
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		b := filepath.Base(p)
		if fi.IsDir() {
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(b, ".go") && !strings.HasSuffix(b, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	if err != nil {
		fatal(err)
	}
	sort.Strings(files)
	for i, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			fatal(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			fatal(err)
		}
		var edits []edit
		off := func(pos token.Pos) int { return fset.Position(pos).Offset }
		syncName := ""
		skip := false
		for _, im := range f.Imports {
			switch im.Path.Value {
			case `"sync"`:
				syncName = "sync"
				if im.Name != nil {
					syncName = im.Name.Name
				}
			case `"C"`:
				skip = true
			}
		}
		if skip || f.Name.Name == "main" {
			continue
		}
		n := 0
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				rel, _ := filepath.Rel(*repo, p)
				edits = append(edits, edit{at: off(s.Pos()), text: fmt.Sprintf("vsched__.Point(%d); ", len(points))})
				points = append(points, fmt.Sprintf("%s:%d", rel, fset.Position(s.Pos()).Line))
				src_.stmt(fset, src, f, rel, s)
				n++
			}
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.BlockStmt:
				isSwitch := false
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						isSwitch = true
					}
				}
				if !isSwitch {
					stmts(x.List)
				}
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && *locks && syncName != "" && id.Name == syncName && id.Obj == nil {
					switch x.Sel.Name {
					case "Mutex", "RWMutex", "Once":
						edits = append(edits, edit{at: off(id.Pos()), del: len(id.Name), text: "vsched__"})
						n++
					}
				}
			}
			return true
		})
		src_.literals(f)
		if n == 0 {
			continue
		}
		edits = append(edits, edit{at: off(f.Name.End()), text: `; import vsched__ "vharness/vsched"`})
		sort.SliceStable(edits, func(a, b int) bool { return edits[a].at < edits[b].at })
		var sb strings.Builder
		last := 0
		for _, e := range edits {
			sb.Write(src[last:e.at])
			sb.WriteString(e.text)
			last = e.at + e.del
		}
		sb.Write(src[last:])
		sb.WriteString("\nvar _ = vsched__.MaxPoints\n")
		if syncName != "" && syncName != "_" && syncName != "." {
			sb.WriteString("\nvar _ " + syncName + ".Locker\n")
		}
		dst := filepath.Join(*out, fmt.Sprintf("f%03d_%s", i, filepath.Base(p)))
		if err := os.WriteFile(dst, []byte(sb.String()), 0o644); err != nil {
			fatal(err)
		}
		overlay[p] = dst
	}
	write(filepath.Join(*out, "overlay.json"), map[string]interface{}{"Replace": overlay})
	write(filepath.Join(*out, "points.json"), points)
	if *write_ != "" {
		src_.save(*write_)
	}
	write(filepath.Join(*out, "focus.json"), src_.compare(*baseline))
	fmt.Println(len(overlay), "files,", len(points), "points")
}

// source describes the sources by their functions, statements and literals.
type source struct {
	Funcs  map[string][]string `json:"funcs"` // statements of each function
	Lits   map[string]bool     `json:"literals"`
	fn     []string            // function of each point
	key    []string            // statement of each point
	lit    [][]string          // literals and names in the statement of each point
	durs   [][]int64           // and durations
	const_ map[string]string   // constants that are literals
	dur    map[string]int64    // constants and variables that are durations
	first  map[string]int      // first point of each function
}

// focus is what differs from the baseline.
type focus struct {
	// Statements are new, Functions are the other points of functions that are new or differ.
	Statements []int `json:"statements"`
	Functions  []int `json:"functions"`
	// Entry is the first point of the function of each of Statements.
	Entry     []int    `json:"entry"`
	Literals  []string `json:"literals"`
	Ints      []int64  `json:"ints"`
	Durations []int64  `json:"durations"`
}

func newSource() *source {
	return &source{Funcs: map[string][]string{}, Lits: map[string]bool{}, first: map[string]int{}, const_: map[string]string{}, dur: map[string]int64{}}
}

// stmt adds a statement, without the blocks it contains.
func (c *source) stmt(fset *token.FileSet, src []byte, f *ast.File, rel string, s ast.Stmt) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	end := off(s.End())
	ast.Inspect(s, func(n ast.Node) bool {
		if b, ok := n.(*ast.BlockStmt); ok && off(b.Pos()) < end {
			end = off(b.Pos())
		}
		return true
	})
	fn := ""
	for _, d := range f.Decls {
		if g, ok := d.(*ast.FuncDecl); ok && g.Pos() <= s.Pos() && s.Pos() < g.End() {
			fn = g.Name.Name
			if g.Recv != nil && len(g.Recv.List) == 1 {
				r := g.Recv.List[0].Type
				fn = string(src[off(r.Pos()):off(r.End())]) + "." + fn
			}
		}
	}
	fn = rel + " " + fn
	h := fnv.New64a()
	h.Write([]byte(strings.Join(strings.Fields(string(src[off(s.Pos()):end])), " ")))
	key := strconv.FormatUint(h.Sum64(), 36)
	if _, ok := c.first[fn]; !ok {
		c.first[fn] = len(c.fn)
	}
	c.fn = append(c.fn, fn)
	c.key = append(c.key, key)
	c.Funcs[fn] = append(c.Funcs[fn], key)
	var lits []string
	var durs []int64
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.BasicLit:
			lits = append(lits, x.Value)
		case *ast.Ident:
			lits = append(lits, x.Name)
		case *ast.BinaryExpr:
			if d, ok := duration(x); ok {
				durs = append(durs, d)
			}
		case *ast.SelectorExpr:
			if d, ok := duration(x); ok {
				durs = append(durs, d)
			}
		}
		return true
	})
	c.lit = append(c.lit, lits)
	c.durs = append(c.durs, durs)
}

// duration tells the value of an expression like 5 * time.Second.
func duration(e ast.Expr) (int64, bool) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return duration(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && id.Name == "time" {
			d, ok := map[string]int64{"Nanosecond": 1, "Microsecond": 1e3, "Millisecond": 1e6, "Second": 1e9, "Minute": 60e9, "Hour": 3600e9}[x.Sel.Name]
			return d, ok
		}
	case *ast.BinaryExpr:
		if x.Op == token.MUL {
			for _, p := range [][2]ast.Expr{{x.X, x.Y}, {x.Y, x.X}} {
				if l, ok := p[0].(*ast.BasicLit); ok {
					v, err := strconv.ParseInt(l.Value, 0, 64)
					if d, ok := duration(p[1]); ok && err == nil {
						return v * d, true
					}
				}
			}
		}
	}
	return 0, false
}

// literals adds the literals of a file but for imports, tags and messages of errors.
func (c *source) literals(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.Field:
			if x.Tag != nil {
				x.Tag = nil
			}
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Errorf" || s.Sel.Name == "New") {
				return false
			}
		case *ast.BasicLit:
			c.Lits[x.Value] = true
		case *ast.ValueSpec:
			for i, n := range x.Names {
				if i < len(x.Values) {
					if l, ok := x.Values[i].(*ast.BasicLit); ok {
						c.const_[n.Name] = l.Value
					} else if d, ok := duration(x.Values[i]); ok {
						c.dur[n.Name] = d
					}
				}
			}
		}
		return true
	})
}

func (c *source) save(p string) {
	write(p, c)
}

func (c *source) compare(baseline string) *focus {
	r := &focus{Statements: []int{}, Functions: []int{}, Entry: []int{}, Literals: []string{}, Ints: []int64{}, Durations: []int64{}}
	var old source
	b, err := os.ReadFile(baseline)
	if err != nil || json.Unmarshal(b, &old) != nil {
		return r
	}
	differ := map[string]bool{}
	for fn, ks := range c.Funcs {
		differ[fn] = strings.Join(ks, " ") != strings.Join(old.Funcs[fn], " ")
	}
	for i, fn := range c.fn {
		if !differ[fn] {
			continue
		}
		isNew := true
		for _, k := range old.Funcs[fn] {
			if k == c.key[i] {
				isNew = false
			}
		}
		if isNew {
			r.Statements = append(r.Statements, i)
			r.Entry = append(r.Entry, c.first[fn])
		} else {
			r.Functions = append(r.Functions, i)
		}
	}
	for l := range c.Lits {
		if !old.Lits[l] {
			r.literal(l)
		}
	}
	for _, i := range r.Statements {
		for _, l := range c.lit[i] {
			if v, ok := c.const_[l]; ok {
				r.literal(v)
			} else if d, ok := c.dur[l]; ok {
				r.Durations = append(r.Durations, d)
			} else {
				r.literal(l)
			}
		}
		r.Durations = append(r.Durations, c.durs[i]...)
	}
	sort.Strings(r.Literals)
	r.Literals = slices.Compact(r.Literals)
	slices.Sort(r.Ints)
	r.Ints = slices.Compact(r.Ints)
	slices.Sort(r.Durations)
	r.Durations = slices.Compact(r.Durations)
	return r
}

func (r *focus) literal(l string) {
	if v, err := strconv.ParseInt(l, 0, 64); err == nil {
		r.Ints = append(r.Ints, v)
	} else if s, err := strconv.Unquote(l); err == nil {
		r.Literals = append(r.Literals, s)
	}
}

func write(p string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(3)
}
