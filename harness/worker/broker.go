package worker

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
)

// The broker is watched in two ways. The settled runs perform one action at a time and let the
// bubble come to rest after it: every call has then returned or is blocked for good, so the
// monitor knows exactly which calls may be blocked and what each of those that returned must
// have returned. The free runs (brokerfree.go) let many clients loose and check the recorded history.

const (
	defaultCap     = 100             // documented default capacity
	defaultTimeout = 5 * time.Second // documented default timeout
)

func tolerance(t time.Duration) time.Duration {
	if t/10 > time.Millisecond {
		return t / 10
	}
	return time.Millisecond
}

// bMsg is a message published by the harness.
type bMsg struct {
	n         int
	topic     string
	sess      int
	m         broker.Message
	pub       *bOp
	delivered *bOp
}

// waiting tells whether the message was accepted and not delivered.
func (m *bMsg) waiting() bool { return m.pub.done && m.pub.err == nil && m.delivered == nil }

type bSub struct {
	n      int
	topic  string
	sess   int
	id     string
	s      broker.Subscriber
	unsub  bool // an unsubscribe has returned (or was begun, in settled runs it is the same)
	unsubN int
}

// bOp is a call.
type bOp struct {
	n          int
	kind       string
	start, end int64
	t0, t1     time.Time
	timeout    time.Duration
	sub        *bSub
	msg        *bMsg
	sess       int
	wasOpen    bool // a session was open when the call began
	wasUnsub   bool // the subscription was unsubscribed when the call began
	wasOver    bool // the session of the subscription was over when the call began
	cancel     context.CancelFunc
	preCancel  bool
	cancelled  bool // while blocked
	unsubbed   bool // while blocked
	sessEnd    bool // while blocked
	done       bool
	checked    bool
	err        error
	invoked    int
	got        *bMsg
	hErr       error
	inHandler  bool
	hctx       context.Context // of the handler
	leaves     int             // the handler panics (1) or ends its goroutine (2)
	release    chan struct{}
	newSub     *bSub
	ret        chan struct{} // closed when the call has returned
}

func (o *bOp) String() string {
	s := fmt.Sprintf("%s#%d", o.kind, o.n)
	if o.msg != nil {
		s += fmt.Sprintf("(message %d on %q)", o.msg.n, o.msg.topic)
	}
	if o.sub != nil {
		s += fmt.Sprintf("(subscription %d of %q)", o.sub.n, o.sub.topic)
	}
	return s
}

type bRun struct {
	*Exec
	b                      *membroker.Memory
	cap                    int
	pubTimeout, subTimeout time.Duration

	mu   sync.Mutex
	seq  int64
	ops  []*bOp // not yet checked
	all  int
	msgs []*bMsg
	live []*bMsg // messages of the current session, not delivered
	byN  map[int]*bMsg

	open   bool
	sess   int
	cancel context.CancelFunc   // ends the current session
	old    []context.CancelFunc // belong to ended sessions or had no effect
	subs   []*bSub
	ids    map[string]bool
	topics []string
	// an open broker was opened again with options
	reopened bool
}

const tok = "tok:"

// newMsg makes a message which can be recognized by its unique id, its payload or its attributes.
func (x *Exec) newMsg(n int) broker.Message {
	t := tok + strconv.Itoa(n)
	m := broker.Message{Type: broker.Type(x.IntN(7) - 1)}
	switch x.IntN(4) {
	case 0:
		m.UID = t
	case 1:
		m.Data = []byte(t)
	case 2:
		m.Attrs = map[string]string{"tok": t}
	case 3:
		m.UID, m.Data, m.Attrs = t, []byte(x.Str()), x.AttrMap()
	}
	if m.UID == "" && x.Chance(0.5) {
		m.UID = x.Str()
	}
	if m.Data == nil && x.Chance(0.5) {
		m.Data = []byte(x.Str())
		if x.Chance(0.2) {
			m.Data = append(m.Data, 0xff, 0xfe, 0)
		}
	}
	if m.Attrs == nil && x.Chance(0.5) {
		m.Attrs = x.AttrMap()
	}
	if x.Chance(0.01) && !bytes.HasPrefix(m.Data, []byte(tok)) {
		// large payloads, up to 256 KiB
		m.Data = make([]byte, x.Size(x.IntN(1<<(10+x.IntN(9))), 1<<18))
		for i := range m.Data {
			m.Data[i] = byte(i>>8) ^ byte(i)
		}
	}
	return m
}

// msgNo tells which message m is, -1 if none.
func msgNo(m broker.Message) int {
	for _, s := range []string{m.UID, string(m.Data), m.Attrs["tok"]} {
		if strings.HasPrefix(s, tok) {
			if n, err := strconv.Atoi(s[len(tok):]); err == nil {
				return n
			}
		}
	}
	return -1
}

func sameMsg(a, b broker.Message) bool {
	return a.UID == b.UID && a.Type == b.Type && bytes.Equal(a.Data, b.Data) && sameMap(a.Attrs, b.Attrs)
}

func showMsg(m broker.Message) string {
	if len(m.Data) > 300 {
		return fmt.Sprintf("{uid=%q type=%d data=%q and %d more bytes attrs=%s}", m.UID, int(m.Type), m.Data[:200], len(m.Data)-200, showMap(m.Attrs))
	}
	return fmt.Sprintf("{uid=%q type=%d data=%q attrs=%s}", m.UID, int(m.Type), m.Data, showMap(m.Attrs))
}

var errHandler = errors.New("handler failed")

// errLeft is what handlers panic with.
var errLeft = errors.New("handler left")

func (r *bRun) stamp() int64 { r.seq++; return r.seq }

// newBroker makes a broker with some configuration.
func (x *Exec) newBroker(caps []int) (b *membroker.Memory, cap int, pt, st time.Duration) {
	var opts []broker.Option
	cap = 0
	if x.Chance(0.9) {
		cap = x.Size(caps[x.IntN(len(caps))], 300)
		opts = append(opts, broker.WithCap(cap))
		if cap < 0 {
			cap = defaultCap
		}
	}
	pt, st = defaultTimeout, defaultTimeout
	if x.Chance(0.5) {
		pt = x.Wait(time.Duration(1+x.IntN(9000)) * time.Millisecond)
		opts = append(opts, broker.WithPubTimeout(pt))
	}
	if x.Chance(0.5) {
		st = x.Wait(time.Duration(1+x.IntN(9000)) * time.Millisecond)
		opts = append(opts, broker.WithSubTimeout(st))
	}
	shuffle(x, opts)
	b, err := membroker.New(opts...)
	if err != nil {
		x.Fail("*", "new", "broker.New: %v", err)
	}
	x.Cleanup(func() { _ = b.Close() })
	x.Log("broker cap=%d pubTimeout=%v subTimeout=%v", cap, pt, st)
	return b, cap, pt, st
}

// spawn runs a call in its own goroutine.
func (r *bRun) spawn(o *bOp, f func() error) *bOp {
	r.mu.Lock()
	r.all++
	o.n = r.all
	o.start, o.t0 = r.stamp(), time.Now()
	o.wasOpen, o.sess = r.open, r.sess
	if o.sub != nil {
		o.wasUnsub = o.sub.unsub
		o.wasOver = o.sub.sess != r.sess || !r.open
	}
	o.ret = make(chan struct{})
	r.ops = append(r.ops, o)
	r.mu.Unlock()
	r.Count("calls", 1)
	go func() {
		r.Guard(o.kind, func() {
			var err error
			defer func() {
				if o.leaves == 1 {
					if p := recover(); p != nil && p != errLeft {
						panic(p)
					}
				}
				r.mu.Lock()
				o.err, o.done, o.end, o.t1 = err, true, r.stamp(), time.Now()
				r.mu.Unlock()
				close(o.ret)
			}()
			err = f()
		})
	}()
	return o
}

func (r *bRun) ctx(o *bOp) context.Context {
	ctx, cancel := newCtx(r.Rand)
	o.cancel = cancel
	r.Cleanup(cancel)
	return ctx
}

// pubOpts returns call options with a timeout, and the timeout in force.
func (r *bRun) callOpts(pub bool) ([]broker.Option, time.Duration) {
	var opts []broker.Option
	t := r.subTimeout
	if pub {
		t = r.pubTimeout
	}
	if r.Chance(0.5) {
		t = time.Duration(1+r.IntN(20000)) * time.Millisecond
		if r.Chance(0.2) {
			t = time.Duration(1 + r.IntN(1000000))
		}
		if r.Chance(0.2) {
			t = time.Duration(1+r.IntN(100)) * time.Hour / 10
		}
		t = r.Wait(Long(t))
		if pub {
			opts = append(opts, broker.WithPubTimeout(t))
		} else {
			opts = append(opts, broker.WithSubTimeout(t))
		}
	}
	if r.Chance(0.15) {
		// the timeout of the other kind of call says nothing about this one
		d := time.Duration(1+r.IntN(5000)) * time.Millisecond
		if pub {
			opts = append(opts, broker.WithSubTimeout(d))
		} else {
			opts = append(opts, broker.WithPubTimeout(d))
		}
		shuffle(r.Exec, opts)
	}
	return opts, t
}

func (r *bRun) publish(topic string) *bOp {
	r.mu.Lock()
	n := len(r.msgs)
	m := &bMsg{n: n, topic: topic, sess: r.sess, m: r.newMsg(n)}
	o := &bOp{kind: "Pub", msg: m}
	m.pub = o
	r.msgs = append(r.msgs, m)
	r.byN[n] = m
	if r.open {
		r.live = append(r.live, m)
	}
	var opts []broker.Option
	opts, o.timeout = r.callOpts(true)
	ctx := r.ctx(o)
	if r.Chance(0.03) {
		o.preCancel = true
		o.cancel()
	}
	given := m.m
	given.Data = bytes.Clone(m.m.Data)
	if m.m.Attrs != nil {
		given.Attrs = copyMap(m.m.Attrs)
	}
	r.mu.Unlock()
	r.Log("Pub message %d %q timeout=%v cancelled=%v", n, topic, o.timeout, o.preCancel)
	return r.spawn(o, func() error { return r.b.Pub(ctx, topic, given, opts...) })
}

func (r *bRun) receive(s *bSub) *bOp {
	r.mu.Lock()
	o := &bOp{kind: "Receive", sub: s}
	var opts []broker.Option
	opts, o.timeout = r.callOpts(false)
	ctx := r.ctx(o)
	if r.Chance(0.03) {
		o.preCancel = true
		o.cancel()
	}
	if r.Chance(0.25) {
		o.hErr = errHandler
		if r.Chance(0.3) {
			o.hErr = []error{context.Canceled, broker.ErrTimeout, broker.ErrSubscriptionInactive, broker.ErrNotConnected}[r.IntN(4)]
		}
	}
	act := r.Pick(20, 4, 2, 2)
	if r.Chance(0.04) {
		o.leaves = 1 + r.IntN(2)
	}
	if act == 1 {
		o.release = make(chan struct{})
		rel := o.release
		r.Cleanup(func() {
			select {
			case <-rel:
			default:
				close(rel)
			}
		})
	}
	topics := r.topics
	nested := topics[r.IntN(len(topics))]
	r.mu.Unlock()
	r.Log("Receive on subscription %d timeout=%v handler=%d fails=%v cancelled=%v", s.n, o.timeout, act, o.hErr, o.preCancel)
	h := func(hctx context.Context, m broker.Message) error {
		r.mu.Lock()
		o.invoked++
		o.hctx = hctx
		r.deliver(o, m)
		o.inHandler = true
		r.mu.Unlock()
		switch act {
		case 1: // blocks until told to go on
			<-o.release
		case 2: // publishes
			r.publish(nested)
		case 3: // ends its own subscription
			<-r.unsubscribe(s).ret
		}
		r.mu.Lock()
		o.inHandler = false
		r.mu.Unlock()
		switch o.leaves {
		case 1:
			panic(errLeft)
		case 2:
			runtime.Goexit()
		}
		return o.hErr
	}
	return r.spawn(o, func() error { return s.s.Receive(ctx, h, opts...) })
}

// deliver accounts for a message handed to the handler of o.
func (r *bRun) deliver(o *bOp, m broker.Message) {
	n := msgNo(m)
	w := r.byN[n]
	r.Count("deliveries", 1)
	switch {
	case w == nil:
		r.Report("B01", "invented", "%v: message %s was never published", o, showMsg(m))
		return
	case !sameMsg(m, w.m):
		r.Report("B01", "altered", "%v: message %s was delivered as %s", o, showMsg(w.m), showMsg(m))
	case w.topic != o.sub.topic:
		r.Report("B01", "topic", "%v: message %d of topic %q was delivered on topic %q", o, n, w.topic, o.sub.topic)
	case w.delivered != nil:
		r.Report("B01", "twice", "%v: message %d was delivered before by %v", o, n, w.delivered)
	case w.sess != o.sub.sess:
		r.Report("B05 B01", "session", "%v: message %d of session %d was delivered to a subscription of session %d", o, n, w.sess, o.sub.sess)
	case w.pub.done && w.pub.err != nil:
		p := "B01 B06"
		if !w.pub.cancelled && !w.pub.preCancel {
			p = "B01 B03 B06"
		}
		r.Report(p, "failed-publish", "%v: message %d was delivered, but its publish had failed: %v", o, n, w.pub.err)
	}
	o.got = w
	w.delivered = o
	// order: nothing accepted before the publish of w began may still be waiting
	for _, v := range r.live {
		if v != w && v.topic == w.topic && v.waiting() && v.pub.end < w.pub.start {
			r.Report("B02", "order", "%v takes message %d while message %d, published before, is waiting", o, w.n, v.n)
		}
	}
	for i, v := range r.live {
		if v == w {
			r.live = append(r.live[:i:i], r.live[i+1:]...)
			break
		}
	}
}

func (r *bRun) unsubscribe(s *bSub) *bOp {
	r.mu.Lock()
	o := &bOp{kind: "Unsubscribe", sub: s}
	ctx := r.ctx(o)
	if r.Chance(0.1) {
		o.preCancel = true
		o.cancel()
	}
	s.unsub = true
	s.unsubN++
	for _, p := range r.ops {
		if p.sub == s && !p.done && p.kind == "Receive" {
			p.unsubbed = true
		}
	}
	r.mu.Unlock()
	r.Log("Unsubscribe subscription %d", s.n)
	return r.spawn(o, func() error { return s.s.Unsubscribe(ctx) })
}

func (r *bRun) subscribe(topic string) *bOp {
	r.mu.Lock()
	s := &bSub{n: len(r.subs), topic: topic, sess: r.sess}
	o := &bOp{kind: "Sub", newSub: s}
	ctx := r.ctx(o)
	r.mu.Unlock()
	r.Log("Sub %q", topic)
	o = r.spawn(o, func() error {
		var err error
		s.s, err = r.b.Sub(ctx, topic)
		return err
	})
	r.settle()
	if s.s != nil && o.err == nil {
		r.subs = append(r.subs, s)
		r.checkSub(s)
		if s.id == "" || r.ids[s.id] {
			r.Fail("B04", "id", "id %q of subscription %d is empty or taken", s.id, s.n)
		}
		r.ids[s.id] = true
	}
	return o
}

func (r *bRun) checkSub(s *bSub) {
	id, err := s.s.ID(bg)
	if err != nil {
		r.Fail("B04", "id", "ID of subscription %d = %v", s.n, err)
	}
	t, err := s.s.Topic(bg)
	if err != nil || t != s.topic {
		r.Fail("B04", "topic", "Topic of subscription %d = %q, %v, want %q", s.n, t, err, s.topic)
	}
	if s.id == "" {
		s.id = id
	}
	if id != s.id {
		r.Fail("B04", "id", "ID of subscription %d changed from %q to %q", s.n, s.id, id)
	}
	r.Count("subscription_identity_checks", 1)
}

// sessionOver updates the model when the open session ends.
func (r *bRun) sessionOver() {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, o := range r.ops {
		if !o.done {
			o.sessEnd = true
		}
	}
	if r.cancel != nil {
		r.old = append(r.old, r.cancel)
	}
	r.open, r.cancel, r.live = false, nil, nil
}

func (r *bRun) closeBroker() {
	r.Log("Close (open=%v)", r.open)
	if r.open {
		r.sessionOver()
	}
	r.spawn(&bOp{kind: "Close"}, func() error { return r.b.Close() })
}

func (r *bRun) openBroker() {
	ctx, cancel := newCtx(r.Rand)
	r.Cleanup(cancel)
	r.Log("Open (open=%v)", r.open)
	redundant := r.open
	pre := !r.open && r.Chance(0.05)
	if pre {
		cancel()
	}
	if r.open {
		r.old = append(r.old, cancel)
	} else {
		r.mu.Lock()
		r.sess++
		r.open = !pre
		r.mu.Unlock()
		if pre {
			r.old = append(r.old, cancel)
		} else {
			r.cancel = cancel
		}
	}
	var opts []broker.Option
	if redundant && r.Chance(0.5) {
		r.reopened = true
		// an open broker does not change
		opts = append(opts, broker.WithCap(r.IntN(5)), broker.WithPubTimeout(time.Duration(1+r.IntN(10000))*time.Millisecond), broker.WithSubTimeout(time.Duration(1+r.IntN(10000))*time.Millisecond))
		opts = opts[r.IntN(3):]
	}
	r.spawn(&bOp{kind: "Open"}, func() error { return r.b.Open(ctx, opts...) })
}

// settle lets everything come to rest and compares what has returned and what is blocked with the model.
func (r *bRun) settle() {
	synctest.Wait()
	if r.Failed() {
		panic(abort{})
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	now := time.Now()
	full := map[string]int{}
	blockedPub, nw := map[string]*bOp{}, 0
	for _, m := range r.live {
		if m.waiting() {
			full[m.topic]++
			nw++
			if full[m.topic] > r.cap {
				r.Fail(r.timeProps(), "capacity", "topic %q holds %d messages, capacity is %d", m.topic, full[m.topic], r.cap)
			}
		}
		if m.delivered != nil {
			r.Fail("B01", "harness", "delivered message %d is live", m.n)
		}
	}
	keep := r.ops[:0]
	for _, o := range r.ops {
		if o.done {
			r.checkDone(o)
			if o.msg != nil && o.err != nil {
				for i, v := range r.live {
					if v == o.msg {
						r.live = append(r.live[:i:i], r.live[i+1:]...)
						break
					}
				}
			}
			if o.cancel != nil && r.Chance(0.5) {
				o.cancel() // says nothing to anyone once the call has returned
			}
			continue
		}
		keep = append(keep, o)
		if o.msg != nil {
			blockedPub[o.msg.topic] = o
		}
	}
	r.ops = keep
	r.Count("states_at_rest", 1)
	for _, o := range r.ops {
		switch {
		case o.kind == "Pub":
			r.Count("blocked_calls_judged", 1)
			switch {
			case !o.wasOpen:
				r.Fail("B05 B07", "blocked", "%v began while no session was open and is blocked", o)
			case o.sessEnd:
				r.Fail("B05 B07", "blocked", "%v is blocked although its session has ended", o)
			case o.cancelled || o.preCancel:
				r.Fail("B06", "blocked", "%v is blocked although its context is cancelled", o)
			case full[o.msg.topic] < r.cap:
				r.Fail("B03", "blocked", "%v is blocked although %q holds only %d of %d messages", o, o.msg.topic, full[o.msg.topic], r.cap)
			case now.Sub(o.t0) > o.timeout+tolerance(o.timeout):
				r.Fail(r.timeProps(), "late", "%v is blocked for %v, timeout is %v", o, now.Sub(o.t0), o.timeout)
			case o.msg.delivered != nil:
				r.Fail("B03 B07", "blocked", "%v is blocked although its message was delivered", o)
			}
		case o.kind == "Receive" && o.invoked > 0:
			if !o.inHandler {
				r.Fail("B07", "blocked", "%v is blocked although its handler has returned", o)
			}
			r.Count("handler_contexts_judged", 1)
			switch gone := o.hctx == nil || o.hctx.Err() != nil; {
			case gone && !o.cancelled && !o.preCancel && !o.unsubbed && !o.sessEnd:
				r.Fail("B06", "handler-context", "%v: the context of the handler has ended, that of the call has not", o)
			case !gone && (o.cancelled || o.preCancel):
				r.Fail("B06", "handler-context", "%v: the context of the call was cancelled, that of the handler was not", o)
			}
		case o.kind == "Receive":
			r.Count("blocked_calls_judged", 1)
			switch {
			case o.wasUnsub || o.unsubbed:
				r.Fail("B04", "blocked", "%v is blocked although it is unsubscribed", o)
			case o.wasOver || o.sessEnd:
				r.Fail("B05 B07", "blocked", "%v is blocked although its session has ended", o)
			case o.cancelled || o.preCancel:
				r.Fail("B06", "blocked", "%v is blocked although its context is cancelled", o)
			case full[o.sub.topic] > 0:
				r.Fail("B01 B03", "blocked", "%v is blocked although %d messages are waiting in %q", o, full[o.sub.topic], o.sub.topic)
			case blockedPub[o.sub.topic] != nil:
				r.Fail("B01 B03", "blocked", "%v is blocked, and so is %v", o, blockedPub[o.sub.topic])
			case now.Sub(o.t0) > o.timeout+tolerance(o.timeout):
				r.Fail(r.timeProps(), "late", "%v is blocked for %v, timeout is %v", o, now.Sub(o.t0), o.timeout)
			}
		default:
			r.Fail("B07", "blocked", "%v is blocked", o)
		}
	}
	if nw > 0 {
		r.Count("states_with_messages_waiting", 1)
	}
}

// timeProps are the properties broken by a wrong timeout or capacity.
func (r *bRun) timeProps() string {
	if r.reopened {
		return "B03 B05"
	}
	return "B03"
}

// timedOut checks a timeout error.
func (r *bRun) timedOut(o *bOp) {
	d := o.t1.Sub(o.t0)
	if d < o.timeout {
		r.Fail(r.timeProps(), "early", "%v timed out after %v, timeout is %v", o, d, o.timeout)
	}
	if d > o.timeout+tolerance(o.timeout) {
		r.Fail(r.timeProps(), "late", "%v timed out after %v, timeout is %v", o, d, o.timeout)
	}
	r.Count("timeouts_judged", 1)
}

// checkDone judges a call that has returned.
func (r *bRun) checkDone(o *bOp) {
	r.Log("  %v = %v", o, o.err)
	switch o.kind {
	case "Pub":
		switch {
		case o.err == nil:
			if !o.wasOpen {
				r.Fail("B05 B01", "published", "%v succeeded while no session was open", o)
			}
			if o.cancelled {
				r.Fail("B06", "published", "%v succeeded although it was cancelled while blocked", o)
			}
			if o.sessEnd && o.msg.delivered == nil {
				r.Fail("B05 B06 B01", "published", "%v succeeded although its session ended while it was blocked", o)
			}
		case o.msg.delivered != nil:
			r.Fail("B01 B06 B03", "failed-publish", "%v = %v, but its message was delivered", o, o.err)
		case o.preCancel || o.cancelled:
		case !o.wasOpen:
			if !errors.Is(o.err, broker.ErrNotConnected) {
				r.Fail("B05", "error", "%v while no session was open = %v, want %v", o, o.err, broker.ErrNotConnected)
			}
		case o.sessEnd:
		case errors.Is(o.err, broker.ErrTimeout):
			r.timedOut(o)
		default:
			r.Fail("B01 B03 B05 B06", "error", "%v = %v", o, o.err)
		}
	case "Receive":
		if o.invoked > 1 {
			r.Fail("B01", "invoked", "%v ran its handler %d times", o, o.invoked)
		}
		if o.invoked == 1 {
			if o.wasUnsub {
				r.Fail("B04", "invoked", "%v began after the end of the subscription and ran its handler", o)
			}
			if o.wasOver {
				r.Fail("B05", "invoked", "%v began after the end of the session and ran its handler", o)
			}
			if o.leaves > 0 {
				r.Count("handlers_that_never_returned", 1)
				return
			}
			if (o.hErr == nil) != (o.err == nil) || (o.hErr != nil && !errors.Is(o.err, o.hErr)) {
				if o.hErr != nil && o.err == nil {
					r.Fail("D02", "handler-error", "%v = %v, its handler returned %v", o, o.err, o.hErr)
				}
				props := "D02 B01"
				if o.cancelled || o.preCancel {
					props += " B06" // it took a message, so the cancellation did not end it
				}
				r.Fail(props, "handler-error", "%v = %v, its handler returned %v", o, o.err, o.hErr)
			}
			return
		}
		switch {
		case o.wasUnsub:
			if !errors.Is(o.err, broker.ErrSubscriptionInactive) && !(o.preCancel && o.err != nil) {
				r.Fail("B04", "error", "%v began after the end of the subscription and returned %v, want %v", o, o.err, broker.ErrSubscriptionInactive)
			}
		case o.wasOver:
			if o.err == nil {
				r.Fail("B05", "error", "%v began after the end of the session and returned without error", o)
			}
		case o.unsubbed, o.sessEnd, o.cancelled, o.preCancel:
		case errors.Is(o.err, broker.ErrTimeout):
			r.timedOut(o)
		case errors.Is(o.err, broker.ErrSubscriptionInactive):
			r.Fail("B04 B05", "error", "%v = %v, but nothing ended it", o, o.err)
		default:
			r.Fail("B01 B03 B05 B06", "error", "%v = %v without running its handler", o, o.err)
		}
	case "Sub":
		if o.wasOpen && o.err != nil {
			r.Fail("B05 B04", "error", "%v in an open session = %v", o, o.err)
		}
		if !o.wasOpen && !errors.Is(o.err, broker.ErrNotConnected) {
			r.Fail("B05", "error", "%v while no session was open = %v, want %v", o, o.err, broker.ErrNotConnected)
		}
	case "Unsubscribe":
		if o.err != nil && !o.preCancel {
			r.Fail("B04", "error", "%v = %v", o, o.err)
		}
	case "Open", "Close":
		if o.err != nil {
			r.Fail("B05", "error", "%v = %v", o, o.err)
		}
	}
}

// activeSub returns a usable subscription with good probability, nil if there is none at all.
func (r *bRun) anySub(pUsable float64) *bSub {
	if len(r.subs) == 0 {
		return nil
	}
	if r.Chance(pUsable) {
		i := r.IntN(len(r.subs))
		for k := 0; k < len(r.subs); k++ {
			if s := r.subs[(i+k)%len(r.subs)]; !s.unsub && s.sess == r.sess && r.open {
				return s
			}
		}
	}
	return r.subs[r.IntN(len(r.subs))]
}

func (r *bRun) topic() string { return r.topics[r.IntN(len(r.topics))] }

// step performs one action: pub, receive, sub, unsubscribe, cancel, advance, close, open, cancel a session context, release, identity.
func (r *bRun) step(w [11]int) {
	op := r.Pick(w[:]...)
	if !r.open && r.Chance(0.35) {
		op = 7
	}
	switch op {
	case 0:
		r.publish(r.topic())
	case 1, 2:
		s := r.anySub(0.9)
		if s == nil || op == 2 {
			r.subscribe(r.topic())
			return
		}
		r.receive(s)
	case 3:
		if s := r.anySub(0.8); s != nil {
			r.unsubscribe(s)
		}
	case 4:
		r.mu.Lock()
		var c []*bOp
		for _, o := range r.ops {
			if o.cancel != nil && !o.cancelled && !o.preCancel && (o.kind == "Pub" || o.invoked == 0 || r.Chance(0.5)) {
				c = append(c, o)
			}
		}
		if len(c) == 0 {
			r.mu.Unlock()
			return
		}
		o := c[r.IntN(len(c))]
		o.cancelled = true
		r.mu.Unlock()
		r.Log("cancel %v", o)
		r.Count("cancellations", 1)
		o.cancel()
	case 5:
		d := time.Duration(1+r.IntN(3000)) * time.Millisecond
		switch r.IntN(4) {
		case 0:
			d = time.Duration(1 + r.IntN(2000000))
		case 1:
			d = time.Duration(1+r.IntN(30)) * time.Second
		case 2:
			// up to shortly before or after the timeout of a blocked call
			r.mu.Lock()
			if len(r.ops) > 0 {
				o := r.ops[r.IntN(len(r.ops))]
				d = o.timeout - time.Since(o.t0) + time.Duration(r.IntN(5000000)) - 2500000
			}
			r.mu.Unlock()
		default:
			d = r.Wait(d)
		}
		if d <= 0 {
			d = 1
		}
		d += time.Duration(r.IntN(1000))
		// nothing is to happen in the very moment in which a call times out
		for again := true; again; {
			again = false
			r.mu.Lock()
			for _, o := range r.ops {
				if o.t0.Add(o.timeout).Equal(time.Now().Add(d)) {
					d, again = d+1, true
				}
			}
			r.mu.Unlock()
		}
		r.Log("advance %v", d)
		time.Sleep(d)
	case 6:
		r.closeBroker()
	case 7:
		r.openBroker()
	case 8:
		if r.cancel != nil && r.Chance(0.4) {
			c := r.cancel
			r.Log("cancel the context of the session")
			r.sessionOver()
			c()
		} else if len(r.old) > 0 {
			r.Log("cancel a context of an ended session")
			r.old[r.IntN(len(r.old))]()
		}
	case 9:
		r.mu.Lock()
		var c []*bOp
		for _, o := range r.ops {
			if o.inHandler && o.release != nil {
				c = append(c, o)
			}
		}
		if len(c) == 0 {
			r.mu.Unlock()
			return
		}
		o := c[r.IntN(len(c))]
		ch := o.release
		o.release = nil
		r.mu.Unlock()
		r.Log("handler of %v goes on", o)
		close(ch)
	case 10:
		if s := r.anySub(0.5); s != nil {
			r.checkSub(s)
		}
	}
	r.settle()
}

// drain receives everything that is waiting.
func (r *bRun) drain() {
	for _, t := range r.topics {
		r.mu.Lock()
		n := 0
		for _, m := range r.live {
			if m.topic == t && !m.pub.done {
				m.pub.cancelled = true
				m.pub.cancel()
			}
		}
		r.mu.Unlock()
		r.settle()
		r.mu.Lock()
		var last *bMsg
		for _, m := range r.live {
			if m.topic == t && m.waiting() {
				n++
				last = m
			}
		}
		busy := false
		for _, o := range r.ops {
			busy = busy || (o.sub != nil && o.sub.topic == t)
		}
		r.mu.Unlock()
		if n == 0 {
			continue
		}
		r.subscribe(t)
		s := r.subs[len(r.subs)-1]
		for i := 0; i < n; i++ {
			o := &bOp{kind: "Receive", sub: s, timeout: time.Minute}
			r.spawn(o, func() error {
				return s.s.Receive(bg, func(_ context.Context, m broker.Message) error {
					r.mu.Lock()
					defer r.mu.Unlock()
					o.invoked++
					r.deliver(o, m)
					return nil
				}, broker.WithSubTimeout(time.Minute))
			})
			synctest.Wait()
			if r.Failed() {
				panic(abort{})
			}
			r.mu.Lock()
			done := o.done
			r.mu.Unlock()
			if !done {
				r.Fail("B01", "lost", "message %d accepted on %q cannot be received (receivers busy: %v)", last.n, t, busy)
			}
			r.settle()
		}
		r.Count("drained", n)
	}
}

func brokerSettled(w [11]int, caps []int) func(x *Exec) {
	return func(x *Exec) {
		r := &bRun{Exec: x, byN: map[int]*bMsg{}, ids: map[string]bool{}}
		r.b, r.cap, r.pubTimeout, r.subTimeout = x.newBroker(caps)
		r.topics = x.Pool("t", x.Size(1+x.Pick(4, 3, 2, 1), 50))
		steps := x.More(10 + x.IntN(60))
		if x.Big {
			switch x.IntN(3) {
			case 0:
				r.topics = x.Pool("t", 110+x.IntN(100))
			case 1:
				steps = 400
			}
		}
		x.Log("topics=%q", r.topics)
		if x.Chance(0.1) {
			r.step(w) // before the first session
			r.publish(r.topic())
			r.settle()
		}
		r.openBroker()
		r.settle()
		if x.Big && len(r.topics) > 100 {
			// every topic of many holds a message and has a subscription that comes and goes
			for _, t := range r.topics {
				r.subscribe(t)
				r.publish(t)
			}
			r.settle()
			for _, s := range append([]*bSub{}, r.subs...) {
				if x.Chance(0.8) {
					r.unsubscribe(s)
				}
			}
			r.settle()
			if x.Chance(0.5) {
				r.closeBroker()
				r.settle()
				r.openBroker()
				r.settle()
			}
		}
		for i := 0; i < steps; i++ {
			r.step(w)
		}
		if x.Chance(0.9) {
			// everything accepted in the session can still be received
			for _, o := range append([]*bOp{}, r.ops...) {
				if o.kind == "Receive" && o.invoked == 0 && o.cancel != nil {
					o.cancelled = true
					o.cancel()
				}
			}
			r.settle()
			if r.open {
				r.drain()
			}
		}
		r.closeBroker()
		for _, o := range r.ops {
			if o.release != nil && o.inHandler {
				close(o.release)
				o.release = nil
			}
		}
		r.settle()
		if len(r.ops) > 0 {
			r.Fail("B07", "blocked", "%v has not returned after the end of the session", r.ops[0])
		}
		if s := started(); len(s) > abandoned {
			r.Log("%s", trimStack(s[0]))
			r.Fail("B07", "leak", "%d goroutines of the broker outlive its session", len(s)-abandoned)
		}
		if r.sess > 0 && len(r.msgs) > 2 {
			x.NonTrivial()
		}
	}
}

func init() {
	rule := "one action at a time with the bubble at rest after each: every blocked call must be one that has to block, every returned one must have returned what it must; non-trivial: more than two publishes in at least one session"
	//            pub rcv sub uns can adv cls opn ctx rel id
	mixed := [11]int{20, 20, 4, 3, 4, 8, 1, 2, 1, 4, 2}
	caps := []int{0, 1, 2, 3, 5, 100, -1}
	register("B01", &Part{Name: "settled", Engine: Sim, Quick: 24000, Thorough: 800000, Rule: rule, Run: brokerSettled([11]int{24, 24, 6, 4, 4, 4, 0, 1, 0, 6, 0}, caps)})
	register("B02", &Part{Name: "settled", Engine: Sim, Quick: 10000, Thorough: 300000, Rule: rule, Run: brokerSettled([11]int{30, 18, 3, 1, 3, 2, 0, 1, 0, 4, 0}, []int{0, 1, 2, 5, 20, 100, -1})})
	register("B03", &Part{Name: "settled", Engine: Sim, Quick: 24000, Thorough: 800000, Rule: rule, Run: brokerSettled([11]int{24, 12, 4, 1, 2, 16, 1, 2, 0, 2, 0}, []int{0, 1, 2, 3, 7, -1, -2})})
	register("B04", &Part{Name: "settled", Engine: Sim, Quick: 24000, Thorough: 800000, Rule: rule, Run: brokerSettled([11]int{12, 20, 10, 14, 1, 4, 1, 2, 0, 6, 8}, caps)})
	register("B05", &Part{Name: "settled", Engine: Sim, Quick: 24000, Thorough: 800000, Rule: rule, Run: brokerSettled([11]int{14, 14, 6, 2, 2, 4, 5, 6, 8, 3, 2}, caps)})
	register("B06", &Part{Name: "settled", Engine: Sim, Quick: 24000, Thorough: 800000, Rule: rule, Run: brokerSettled([11]int{18, 16, 4, 1, 18, 4, 1, 3, 6, 2, 0}, []int{0, 1, 2, 3})})
	register("B07", &Part{Name: "settled", Engine: Sim, Quick: 8000, Thorough: 300000, Rule: rule, Run: brokerSettled(mixed, caps)})
}
