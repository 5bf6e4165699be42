// Package worker holds the workloads, reference models and monitors that decide the
// properties of netscrape, and the runner that executes them.
package worker

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"vharness/vsched"
)

const module = "github.com/milosgajdos/netscrape"

// Engines.
const (
	Sim  = "sim"  // instrumented build, virtual time, perturbed schedules
	Race = "race" // race detector build, real time, free running
)

// Part is one workload of a property.
type Part struct {
	Name   string
	Engine string
	// Perturb delays schedule points at random (sim only).
	Perturb bool
	// NoBubble runs the workload outside of a synctest bubble (real time).
	NoBubble bool
	// Steps is the number of schedule points an execution may pass, if not the default.
	Steps int64
	// Quick and Thorough are the numbers of executions.
	Quick, Thorough int
	// Rule says how executions are made and when they count as non-trivial.
	Rule string
	Run  func(x *Exec)
}

var parts = map[string][]*Part{}

func register(prop string, ps ...*Part) { parts[prop] = append(parts[prop], ps...) }

// Violation is a recorded violation.
type Violation struct {
	Prop  string   `json:"property"`
	Part  string   `json:"part"`
	Index int64    `json:"index"`
	Seed  uint64   `json:"seed"`
	Key   string   `json:"key"`
	Msg   string   `json:"message"`
	Trace []string `json:"trace"`
}

// Exec is one execution of a part.
type Exec struct {
	*rand.Rand
	Prop  string
	Part  *Part
	Index int64
	Seed  uint64
	// Big is set for the occasional execution on large data.
	Big bool

	mu         sync.Mutex
	trace      []string
	sig        uint64
	nontrivial bool
	events     map[string]int64
	bad        *Violation
	setAside   string
	unknown    bool
	plan       *vsched.Plan
	cleanups   []func()
	sameTyp    *bool // whether many things have the same type
	str        *string
	num        *int64
	dur        *time.Duration
	recent     []string
	anything   bool // every discrepancy counts
}

// Cleanup registers f to be called when the execution is over, however it ends.
func (x *Exec) Cleanup(f func()) { x.cleanups = append(x.cleanups, f) }

type abort struct{}

const maxTrace = 4000

// Log adds an event to the trace of the execution and to its signature.
func (x *Exec) Log(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	h.Write([]byte(s))
	x.mu.Lock()
	if len(x.trace) < maxTrace {
		x.trace = append(x.trace, s)
	}
	x.sig = (x.sig ^ h.Sum64()) * 1099511628211
	x.mu.Unlock()
}

// Count counts events observed by a monitor.
func (x *Exec) Count(what string, n int) {
	x.mu.Lock()
	x.events[what] += int64(n)
	x.mu.Unlock()
}

// NonTrivial marks the execution as non-trivial by the rule of its part.
func (x *Exec) NonTrivial() {
	x.mu.Lock()
	x.nontrivial = true
	x.mu.Unlock()
}

// Chance is true with probability p.
func (x *Exec) Chance(p float64) bool { return x.Float64() < p }

// Pick returns one of the values with probability proportional to its weight.
func (x *Exec) Pick(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	r := x.Rand.IntN(t)
	for i, w := range weights {
		if r < w {
			return i
		}
		r -= w
	}
	panic("unreachable")
}

// focus says how the code differs from what the baseline was made of: where to look harder.
var focus struct {
	Statements, Functions []int
	Literals              []string
	Ints                  []int64
	Durations             []int64
	points                []int32
}

func loadFocus() {
	// NOTE: replays have the same focus, for it depends on the tree only
	b, err := os.ReadFile(os.Getenv("VH_FOCUS"))
	if err != nil || json.Unmarshal(b, &focus) != nil {
		return
	}
	for _, l := range [][]int{focus.Statements, focus.Functions} {
		for _, p := range l {
			if p < vsched.MaxPoints {
				vsched.Focus[p] = true
				focus.points = append(focus.points, int32(p))
			}
		}
	}
}

// focused lets about half of the executions prefer values that new code mentions.
func (x *Exec) focused(g *rand.Rand) {
	if len(focus.Literals) > 0 && g.IntN(2) == 0 {
		x.str = &focus.Literals[g.IntN(len(focus.Literals))]
	}
	if len(focus.Ints) > 0 && g.IntN(2) == 0 {
		x.num = &focus.Ints[g.IntN(len(focus.Ints))]
	}
	if len(focus.Durations) > 0 && g.IntN(2) == 0 {
		d := time.Duration(focus.Durations[g.IntN(len(focus.Durations))])
		x.dur = &d
	}
}

// Near returns a number from 0 to max close to one that new code mentions, if the execution prefers that.
func (x *Exec) Near(max int) (int, bool) {
	if x.num == nil || x.Rand.IntN(2) == 0 {
		return 0, false
	}
	v := *x.num
	switch x.Rand.IntN(5) {
	case 0, 1:
		v += int64(x.Rand.IntN(4)) - 2
	case 2:
		v *= 2
	case 3:
		v += v / 4
	}
	return int(v), v >= 0 && v <= int64(max)
}

// Size returns n, or a number up to max that new code mentions.
func (x *Exec) Size(n, max int) int {
	if v, ok := x.Near(max); ok && v > 0 {
		return v
	}
	return n
}

// More returns n steps, or more of them if new code mentions a number that could be about them.
func (x *Exec) More(n int) int {
	if x.num == nil || x.Rand.IntN(3) > 0 {
		return n
	}
	if v, ok := x.Near(250); ok {
		return n + 4*v
	}
	return n
}

// Wait returns d, or a time close to one that new code mentions.
func (x *Exec) Wait(d time.Duration) time.Duration {
	if x.dur == nil && x.num == nil || x.Rand.IntN(3) > 0 {
		return d
	}
	var v time.Duration
	if x.dur != nil && (x.num == nil || x.Rand.IntN(2) == 0) {
		v = *x.dur
	} else {
		v = time.Duration(*x.num)
		for _, u := range []time.Duration{time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour} {
			if x.Rand.IntN(3) == 0 {
				v = time.Duration(*x.num) * u
			}
		}
	}
	switch x.Rand.IntN(6) {
	case 0:
		v++
	case 1:
		v--
	case 2:
		v += v / 3
	case 3:
		v -= v / 3
	case 4:
		v *= 2
	}
	if v <= 0 || v > 20*time.Hour || ticking && v > 5*time.Minute {
		return d
	}
	return v
}

// IntN is that of rand.Rand, but for a preference for what new code mentions.
func (x *Exec) IntN(n int) int {
	if n <= 0 {
		return 0
	}
	if n > 16 && x.num != nil && x.Rand.IntN(4) == 0 {
		if v, ok := x.Near(n - 1); ok {
			return v
		}
	}
	return x.Rand.IntN(n)
}

func (x *Exec) relevant(props string) bool {
	if props == "*" || x.anything {
		return true
	}
	for _, p := range strings.Fields(props) {
		if p == x.Prop || p == "*" {
			return true
		}
	}
	return false
}

// Report records a discrepancy which violates each of props (space separated, * for any).
// If the property being checked is not among them the execution is only set aside.
func (x *Exec) Report(props, key, format string, a ...interface{}) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.bad != nil {
		return
	}
	msg := fmt.Sprintf(format, a...)
	if !x.relevant(props) {
		if x.setAside == "" {
			x.setAside = props + ": " + key + ": " + msg
		}
		return
	}
	x.bad = &Violation{Prop: x.Prop, Part: x.Part.Name, Index: x.Index, Seed: x.Seed, Key: key, Msg: msg}
}

// Fail reports a discrepancy and ends the execution. Only for the goroutine that runs the part.
func (x *Exec) Fail(props, key, format string, a ...interface{}) {
	x.Report(props, key, format, a...)
	panic(abort{})
}

// Failed tells whether a discrepancy was reported.
func (x *Exec) Failed() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.bad != nil || x.setAside != ""
}

// Unknown marks the execution as inconclusive.
func (x *Exec) Unknown() {
	x.mu.Lock()
	x.unknown = true
	x.mu.Unlock()
}

// foreign ends the worker if r is a panic for the use of a channel, timer and such of an earlier execution: the library
// keeps some beyond those. They are for one synctest bubble only, so that all executions have to be in one.
func foreign(r interface{}) {
	s := fmt.Sprint(r)
	if !strings.Contains(s, "synctest") && !strings.Contains(s, "bubble") {
		return
	}
	if oneBubble {
		harnessError("panic in the only bubble: " + s + "\n" + string(debug.Stack()))
	}
	outMu.Lock()
	out.Foreign = true
	writeOut()
	os.Exit(0)
}

// Guard runs f, which calls into netscrape, and reports a panic of it as a violation.
func (x *Exec) Guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				panic(r)
			}
			foreign(r)
			st := string(debug.Stack())
			x.mu.Lock()
			x.trace = append(x.trace, "PANIC in "+what+": "+fmt.Sprint(r), trimStack(st))
			x.mu.Unlock()
			if !strings.Contains(afterPanic(st), module) {
				x.unusable(r, what, st)
				return
			}
			x.Report("*", "panic", "%s panicked: %v", what, r)
		}
	}()
	f()
}

// unusable judges a panic outside netscrape: the run-time error of using a value that netscrape returned together
// with a nil error (nil, of another type, too short) is netscrape's fault, any other panic is the harness's.
func (x *Exec) unusable(r interface{}, what, st string) {
	if _, ok := r.(runtime.Error); !ok {
		harnessError("panic outside netscrape in " + what + ": " + fmt.Sprint(r) + "\n" + st)
	}
	x.Report("*", "unusable-result", "a result cannot be used: %v", r)
}

// afterPanic returns the frames below the panic.
func afterPanic(st string) string {
	if i := strings.Index(st, "panic("); i >= 0 {
		return st[i:]
	}
	return st
}

func trimStack(st string) string {
	if len(st) > 6000 {
		st = st[:6000]
	}
	return st
}

// --------------------------------------------------------------------- output

type partStats struct {
	Execs        int64            `json:"executions"`
	NonTrivial   int64            `json:"nontrivial"`
	SetAside     int64            `json:"set_aside"`
	SetAsideWhy  []string         `json:"set_aside_why,omitempty"`
	Inconclusive int64            `json:"inconclusive"`
	Events       map[string]int64 `json:"events"`
	Steps        int64            `json:"schedule_points_passed"`
	MaxSteps     int64            `json:"most_points_in_one"`
	Cut          int              `json:"workers_cut_short"`
	Delays       int64            `json:"delays_injected"`
	Rule         string           `json:"rule"`
	Engine       string           `json:"engine"`
	Samples      [][]string       `json:"samples"`
}

type output struct {
	Parts      map[string]*partStats `json:"parts"`
	Violations []*Violation          `json:"violations"`
	Harness    string                `json:"harness_error,omitempty"`
	PointsHit  int                   `json:"points_hit"`
	Extra      map[string][]string   `json:"extra,omitempty"`
	Done       bool                  `json:"done"`
	Ticking    bool                  `json:"ticking"`
	Foreign    bool                  `json:"foreign"`
}

var (
	out     = output{Parts: map[string]*partStats{}, Extra: map[string][]string{}}
	outMu   sync.Mutex
	outPath string
	hashes  = map[uint64]struct{}{}
	scheds  = map[uint64]struct{}{}
	hashF   *os.File
	known   []string
)

func writeOut() {
	n := 0
	for i := range vsched.Hits {
		if atomic.LoadUint32(&vsched.Hits[i]) > 0 {
			n++
		}
	}
	out.PointsHit = n
	b, err := json.Marshal(&out)
	if err == nil {
		err = os.WriteFile(outPath, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR: cannot write output:", err)
		os.Exit(3)
	}
	dump := func(name string, m map[uint64]struct{}) {
		buf := make([]byte, 0, 8*len(m))
		for h := range m {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		_ = os.WriteFile(name, buf, 0o644)
	}
	hits := make([]byte, 0, 4*vsched.MaxPoints)
	for i := range vsched.Hits {
		hits = binary.LittleEndian.AppendUint32(hits, atomic.LoadUint32(&vsched.Hits[i]))
	}
	_ = os.WriteFile(outPath+".hits", hits, 0o644)
	dump(outPath+".cases", hashes)
	dump(outPath+".scheds", scheds)
}

// harnessError ends the worker: the check gives no answer.
func harnessError(msg string) {
	outMu.Lock()
	out.Harness = msg
	writeOut()
	fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", msg)
	os.Exit(3)
}

// finish accounts for x and tells whether the worker should go on.
func finish(x *Exec) bool {
	outMu.Lock()
	defer outMu.Unlock()
	x.mu.Lock()
	defer x.mu.Unlock()
	ps := out.Parts[x.Part.Name]
	ps.Execs++
	for k, v := range x.events {
		ps.Events[k] += v
	}
	if x.plan != nil {
		ps.Steps += x.plan.Steps
		if x.plan.Steps > ps.MaxSteps {
			ps.MaxSteps = x.plan.Steps
		}
		ps.Delays += x.plan.Delays
		scheds[x.plan.Hash] = struct{}{}
	}
	if x.unknown {
		ps.Inconclusive++
	}
	if x.nontrivial {
		ps.NonTrivial++
		hashes[x.sig] = struct{}{}
	}
	if x.setAside != "" {
		ps.SetAside++
		if len(ps.SetAsideWhy) < 3 {
			ps.SetAsideWhy = append(ps.SetAsideWhy, x.setAside)
		}
	}
	if x.nontrivial && len(ps.Samples) < 2 {
		t := x.trace
		if len(t) > 40 {
			t = append(append([]string{}, t[:40]...), fmt.Sprintf("... %d more events", len(x.trace)-40))
		}
		ps.Samples = append(ps.Samples, t)
	}
	if x.bad == nil {
		return true
	}
	x.bad.Trace = x.trace
	if x.anything {
		// may yet be set aside, see solo
		n := 0
		for _, v := range out.Violations {
			if v.Key == x.bad.Key && v.Part == x.bad.Part {
				n++
			}
		}
		if n < 4 {
			out.Violations = append(out.Violations, x.bad)
		}
		return x.bad.Key != "changed" && len(out.Violations) < 16
	}
	for _, k := range known {
		if k == x.bad.Key {
			// nothing new, go on
			if len(out.Violations) < 50 {
				out.Violations = append(out.Violations, x.bad)
			}
			return true
		}
	}
	out.Violations = append(out.Violations, x.bad)
	return false
}

// die records the violation of x (or a harness error) when the execution cannot be ended in an orderly way.
func die(x *Exec, key, msg string) {
	st := allStacks()
	if !strings.Contains(st, module) {
		harnessError(key + " outside netscrape: " + msg + "\n" + st)
	}
	x.Report("*", key, "%s", msg)
	x.mu.Lock()
	x.trace = append(x.trace, trimStack(st))
	x.mu.Unlock()
	finish(x)
	outMu.Lock()
	out.Done = true
	writeOut()
	os.Exit(0)
}

// allStacks returns the stacks of the goroutines with netscrape frames.
func allStacks() string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	var sb strings.Builder
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, module) {
			sb.WriteString(g)
			sb.WriteString("\n\n")
		}
	}
	return sb.String()
}

// started returns the stacks of the goroutines that netscrape started.
func started() []string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	var r []string
	for _, g := range strings.Split(string(b), "\n\n") {
		if i := strings.LastIndex(g, "created by "); i >= 0 && strings.HasPrefix(g[i+len("created by "):], module) {
			r = append(r, g)
		}
	}
	return r
}

// ----------------------------------------------------------------------- runner

// ticking: the library polls, nothing is to wait for long.
var ticking = os.Getenv("VH_TICK") == "1"

// Long returns d, a second or two in a library that polls.
func Long(d time.Duration) time.Duration {
	if ticking && d > 2*time.Second {
		return 2*time.Second + d%time.Millisecond
	}
	return d
}

// realTime is the time passed since some point, in bubbles too.
func realTime() time.Duration {
	var tv syscall.Timeval
	_ = syscall.Gettimeofday(&tv)
	return time.Duration(tv.Nano())
}

const horizon = 1000 * time.Hour // virtual

var epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC) // virtual time begins

// oneBubble: all executions are in one synctest bubble.
var oneBubble = os.Getenv("VH_ONE") == "1"

func mix(a ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, v := range a {
		h ^= v
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
		h *= 0xc4ceb9fe1a85ec53
		h ^= h >> 29
	}
	return h
}

func strHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (x *Exec) body() {
	defer func() {
		for i := len(x.cleanups) - 1; i >= 0; i-- {
			x.Guard("clean-up", x.cleanups[i])
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				return
			}
			foreign(r)
			st := string(debug.Stack())
			if !strings.Contains(afterPanic(st), module) {
				x.unusable(r, "the workload", st)
				return
			}
			x.mu.Lock()
			x.trace = append(x.trace, "PANIC: "+fmt.Sprint(r), trimStack(st))
			x.mu.Unlock()
			x.Report("*", "panic", "panic: %v", r)
		}
	}()
	x.Part.Run(x)
}

func newPlan(x *Exec, r *rand.Rand, npoints int) *vsched.Plan {
	p := &vsched.Plan{Budget: 3_000_000}
	if ticking {
		p.Budget = 30_000_000
	}
	if !x.Part.Perturb {
		p.Budget = 8_000_000
	}
	if x.Part.Steps > p.Budget {
		p.Budget = x.Part.Steps
	}
	p.Over = func() {
		if d := time.Since(epoch); !ticking && d > time.Second && d < 2*horizon {
			// polling, perhaps, during one of the hours that workloads let pass
			outMu.Lock()
			out.Ticking, out.Done = true, true
			writeOut()
			os.Exit(0)
		}
		over := func() { die(x, "livelock", fmt.Sprintf("more than %d steps without finishing", p.Budget)) }
		if x.Part.Perturb {
			over()
		}
		p.Extend(2_000_000_000, over)
	}
	if !x.Part.Perturb {
		return p
	}
	switch r.IntN(6) {
	case 0: // everything delayed a little
		p.P, p.Max = 1, 20
	case 1:
		p.P, p.Max = 0.5, 50
	case 2: // rare long delays
		p.P, p.Max = 0.08, 300
	case 3, 4: // a few slow points, little noise
		p.P, p.Max = 0.1, 10
		p.Slow, p.SlowMax = map[int32]bool{}, 500
		for i, k := 0, 1+r.IntN(12); i < k; i++ {
			p.Slow[hot(r, npoints)] = true
		}
	case 5: // natural order, with a slow point
		p.Slow, p.SlowMax = map[int32]bool{}, 200
		for i, k := 0, 1+r.IntN(4); i < k; i++ {
			p.Slow[hot(r, npoints)] = true
		}
	}
	return p
}

// hot picks a point, preferably one passed before in this process, and often one of code that has changed.
func hot(r *rand.Rand, npoints int) int32 {
	if len(focus.points) > 0 && r.IntN(2) == 0 {
		for i := 0; i < 10; i++ {
			id := focus.points[r.IntN(len(focus.points))]
			if atomic.LoadUint32(&vsched.Hits[id]) > 0 {
				return id
			}
		}
	}
	if npoints <= 0 {
		npoints = 1
	}
	var id int
	for i := 0; i < 40; i++ {
		id = r.IntN(npoints)
		if atomic.LoadUint32(&vsched.Hits[id]) > 0 {
			break
		}
	}
	return int32(id)
}

// Main runs the executions the environment asks for.
func Main(t *testing.T) {
	prop, engine := os.Getenv("VH_PROP"), os.Getenv("VH_ENGINE")
	if prop == "" {
		t.Skip("worker only")
	}
	outPath = os.Getenv("VH_OUT")
	num := func(k string, def int64) int64 {
		v, err := strconv.ParseInt(os.Getenv(k), 10, 64)
		if err != nil {
			return def
		}
		return v
	}
	seed := uint64(num("VH_SEED", 1))
	shard, shards := num("VH_SHARD", 0), num("VH_SHARDS", 1)
	npoints := int(num("VH_POINTS", 0))
	only, onlyPart := num("VH_ONLY", -1), os.Getenv("VH_PART")
	thorough := os.Getenv("VH_TIER") == "thorough"
	scale := float64(num("VH_SCALE", 100)) / 100
	if s := os.Getenv("VH_KNOWN"); s != "" {
		_ = json.Unmarshal([]byte(s), &known)
	}
	prog, err := os.OpenFile(outPath+".prog", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	loadFocus()
	if engine == Race {
		vsched.Native.Store(3000)
	}
	all := func(t *testing.T, which func(p *Part) bool) {
		for _, p := range parts[prop] {
			if p.Engine != engine || (onlyPart != "" && onlyPart != p.Name) || !which(p) {
				continue
			}
			out.Parts[p.Name] = &partStats{Events: map[string]int64{}, Rule: p.Rule, Engine: p.Engine}
			n := p.Quick
			if thorough {
				n = p.Thorough
			}
			n = int(float64(n) * scale)
			// code that takes much longer than it used to gets fewer executions
			began, limit := realTime(), time.Minute
			if ticking {
				limit /= 2
			}
			if thorough {
				limit *= 30
			}
			for i := shard; i < int64(n); i += shards {
				if only >= 0 {
					i = only
				} else if i > shard && realTime()-began > limit {
					out.Parts[p.Name].Cut++
					break
				}
				s := mix(seed, strHash(prop+"/"+p.Name), uint64(i))
				x := &Exec{
					Rand: rand.New(rand.NewPCG(s, 1)), Prop: prop, Part: p, Index: i, Seed: s,
					events: map[string]int64{}, sig: 14695981039346656037,
				}
				x.Big = i%37 == 11
				x.focused(rand.New(rand.NewPCG(s, 3)))
				if x.num != nil && *x.num > 4 && *x.num < 1000 && i%5 == 0 {
					x.Big = true
				}
				var rec [64]byte
				copy(rec[:], fmt.Sprintf("%s %d                        \n", p.Name, i))
				_, _ = prog.WriteAt(rec[:], 0)
				if engine == Sim {
					r := rand.New(rand.NewPCG(s, 2))
					x.plan = newPlan(x, r, npoints)
				}
				if p.NoBubble || engine == Race {
					x.body()
				} else {
					bubble(t, x, s)
				}
				if !finish(x) || only >= 0 {
					return
				}
			}
		}
	}
	if !oneBubble || engine != Sim {
		all(t, func(*Part) bool { return true })
		out.Done = true
		writeOut()
		return
	}
	all(t, func(p *Part) bool { return p.NoBubble })
	vsched.Calm = os.Getenv("VH_CALM") == "1"
	synctest.Test(t, func(t *testing.T) {
		all(t, func(p *Part) bool { return !p.NoBubble })
		out.Done = true
		writeOut()
		os.Exit(0) // there may be goroutines left
	})
}

var (
	forever   = make(chan struct{}) // never closed, not of any bubble
	abandoned int                   // goroutines left behind in abandoned bubbles
	stackBuf  = make([]byte, 1<<20)
)

// inside counts the goroutines with netscrape frames.
func inside() int {
	b := stackBuf[:runtime.Stack(stackBuf, true)]
	if !bytes.Contains(b, []byte(module)) {
		return 0
	}
	n := 0
	for _, g := range bytes.Split(b, []byte("\n\n")) {
		if bytes.Contains(g, []byte(module)) {
			n++
		}
	}
	return n
}

// bubble runs x in a synctest bubble.
func bubble(t *testing.T, x *Exec, s uint64) {
	if oneBubble {
		epoch = time.Now()
		inBubble(x, s)
		return
	}
	over := make(chan struct{}) // not of the bubble
	go synctest.Test(t, func(t *testing.T) {
		if inBubble(x, s) {
			// The bubble cannot be left: abandon it.
			close(over)
			<-forever
		}
		close(over)
	})
	<-over
}

// inBubble runs x and tells whether it left goroutines behind.
func inBubble(x *Exec, s uint64) bool {
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(horizon):
			die(x, "deadlock", "calls blocked forever (no progress in 1000 hours of virtual time)")
		}
	}()
	if x.plan != nil {
		vsched.Set(x.plan, s^0xabcdef)
	}
	x.body()
	vsched.Set(nil, 0)
	close(done)
	synctest.Wait()
	if inside() > abandoned {
		time.Sleep(48 * time.Hour)
		synctest.Wait()
		if n := inside(); n > abandoned {
			x.mu.Lock()
			x.trace = append(x.trace, trimStack(allStacks()))
			x.mu.Unlock()
			x.Report("B07", "leak", "%d goroutines are still inside the library 48 hours after the end of the session and of all calls", n-abandoned)
			abandoned = n
			return true
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// List prints the engines that the property needs.
func List(t *testing.T) {
	seen := map[string]bool{}
	s := ""
	for _, e := range []string{Sim, Race} {
		for _, p := range parts[os.Getenv("VH_LIST")] {
			if p.Engine == e && !seen[e] {
				seen[e] = true
				s += " " + e
			}
		}
	}
	fmt.Println("ENGINES" + s)
}
