package worker

import (
	"context"
	"errors"
	"math/rand/v2"
	"strconv"
	"sync"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
)

// Scenarios which the random runs of broker.go and brokerfree.go reach too rarely.

func openBroker(x *Exec, opts ...broker.Option) *membroker.Memory {
	b, err := membroker.New(opts...)
	if err != nil {
		x.Fail("*", "new", "New = %v", err)
	}
	x.Cleanup(func() { _ = b.Close() })
	ctx, cancel := newCtx(x.Rand)
	x.Cleanup(cancel)
	if err := b.Open(ctx); err != nil {
		x.Fail("B05", "error", "Open = %v", err)
	}
	return b
}

// blockedRun: receives block on several subscriptions for much longer than any injected delay;
// then clients unsubscribe some of them, each publishing as soon as its unsubscribe has returned.
func blockedRun(x *Exec) {
	const settle = 5 * time.Second
	caps := []int{1, 3, 100, 0}
	cap := caps[x.IntN(len(caps))]
	b := openBroker(x, broker.WithCap(cap))
	topics := x.Pool("t", 1+x.IntN(2))
	type bs struct {
		topic   string
		s       broker.Subscriber
		gone    bool
		unsub   time.Time // the first unsubscribe has returned
		unsubNo int       // messages numbered from here on were published by the same client later
		got     int
		err     error
		end     time.Time
	}
	var subs []*bs
	var wg sync.WaitGroup
	n := 1 + x.IntN(5)
	for i := 0; i < n; i++ {
		s := &bs{topic: topics[x.IntN(len(topics))], got: -1}
		var err error
		if s.s, err = b.Sub(bg, s.topic); err != nil {
			x.Fail("B05", "error", "Sub = %v", err)
		}
		s.gone = x.Chance(0.6)
		subs = append(subs, s)
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.Guard("a blocked receive", func() {
				s.err = s.s.Receive(bg, func(_ context.Context, m broker.Message) error { s.got = msgNo(m); return nil }, broker.WithSubTimeout(time.Hour))
				s.end = time.Now()
			})
		}()
	}
	x.Log("%d subscriptions of %d topics, capacity %d", n, len(topics), cap)
	time.Sleep(settle)
	var mu sync.Mutex
	sent := map[int]string{}
	owner := map[int]*bs{}
	repeat := x.IntN(3)
	for i, s := range subs {
		if !s.gone {
			continue
		}
		g := rand.New(rand.NewPCG(x.Seed, uint64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.Guard("an unsubscribe", func() {
				if g.IntN(2) == 0 {
					time.Sleep(time.Duration(g.IntN(400)) * time.Microsecond)
				}
				if repeat == 2 {
					wg.Add(1)
					go func() { defer wg.Done(); _ = s.s.Unsubscribe(bg) }()
				}
				if err := s.s.Unsubscribe(bg); err != nil {
					x.Report("B04", "error", "Unsubscribe = %v", err)
				}
				s.unsub = time.Now()
				for k := 1 + g.IntN(2); k > 0; k-- {
					no := (i+1)*1000 + k
					mu.Lock()
					sent[no] = s.topic
					owner[no] = s
					mu.Unlock()
					if err := b.Pub(bg, s.topic, (&Exec{Rand: g}).newMsg(no), broker.WithPubTimeout(10*time.Second)); err != nil {
						if !errors.Is(err, broker.ErrTimeout) {
							x.Report("B01 B04", "error", "Pub = %v", err)
						}
						mu.Lock()
						delete(sent, no)
						mu.Unlock()
					}
				}
				// a receive started now
				err := s.s.Receive(bg, func(_ context.Context, m broker.Message) error {
					x.Report("B04", "invoked", "a receive started after the unsubscribe ran its handler")
					return nil
				}, broker.WithSubTimeout(time.Second))
				if !errors.Is(err, broker.ErrSubscriptionInactive) {
					x.Report("B04", "error", "a receive started after the unsubscribe returned %v", err)
				}
			})
		}()
	}
	time.Sleep(30 * time.Second)
	now := time.Now()
	if x.Failed() {
		panic(abort{})
	}
	mu.Lock()
	defer mu.Unlock()
	took := map[int]bool{}
	for i, s := range subs {
		x.Log("subscription %d of %q: unsubscribed=%v received=%d error=%v", i, s.topic, s.gone, s.got, s.err)
		switch {
		case s.gone && s.end.IsZero():
			x.Fail("B04", "blocked", "the receive on subscription %d is still blocked long after its unsubscribe", i)
		case s.gone && s.got >= 0 && owner[s.got] == s:
			x.Fail("B04", "taken", "a receive blocked for %v took message %d, published after the unsubscribe of its subscription had returned", settle, s.got)
		case s.gone && s.got < 0 && s.err != nil && !errors.Is(s.err, broker.ErrSubscriptionInactive):
			x.Fail("B04", "error", "a blocked receive returned %v after its unsubscribe", s.err)
		case !s.gone && !s.end.IsZero() && s.got < 0:
			x.Fail("B04", "others", "the receive on subscription %d ended with %v though only others were unsubscribed", i, s.err)
		}
		if s.got >= 0 {
			if took[s.got] {
				x.Fail("B01 B04", "twice", "message %d was delivered twice", s.got)
			}
			took[s.got] = true
		}
		if s.gone {
			x.Count("blocked_receives_unsubscribed", 1)
			x.NonTrivial()
		}
	}
	for no, t := range sent {
		if took[no] {
			continue
		}
		for i, s := range subs {
			if !s.gone && s.topic == t && s.end.IsZero() && now.Sub(owner[no].unsub) > 2*time.Second {
				x.Fail("B01 B04", "others", "message %d waits on %q while the receive on subscription %d is blocked", no, t, i)
			}
		}
	}
	if err := b.Close(); err != nil {
		x.Fail("B05", "error", "Close = %v", err)
	}
	wg.Wait()
}

// backlogRun: many subscriptions end at about the time their session does.
func backlogRun(x *Exec) {
	b := openBroker(x, broker.WithCap(x.IntN(3)))
	topics := x.Pool("t", 1+x.IntN(3))
	n := x.Size(90+x.IntN(300), 2000)
	if x.Chance(0.3) {
		n = 1 + x.IntN(20)
	}
	subs := make([]broker.Subscriber, n)
	for i := range subs {
		var err error
		if subs[i], err = b.Sub(bg, topics[x.IntN(len(topics))]); err != nil {
			x.Fail("B05", "error", "Sub = %v", err)
		}
	}
	before := x.IntN(3) * n / 2 // unsubscribed before the close
	workers := 1 + x.IntN(4)
	closing := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		g := rand.New(rand.NewPCG(x.Seed, uint64(w)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.Guard("an unsubscribe", func() {
				for i := w; i < n; i += workers {
					if i >= before {
						<-closing
					}
					if err := subs[i].Unsubscribe(bg); err != nil {
						x.Report("B04 B07", "error", "Unsubscribe = %v", err)
					}
					if g.IntN(30) == 0 {
						time.Sleep(time.Duration(g.IntN(300)) * time.Microsecond)
					}
				}
			})
		}()
	}
	if x.Chance(0.5) {
		close(closing)
		time.Sleep(time.Duration(x.IntN(1000)) * time.Microsecond)
		_ = b.Close()
	} else {
		_ = b.Close()
		close(closing)
	}
	reopen := x.Chance(0.3)
	if reopen {
		ctx, cancel := context.WithCancel(bg)
		x.Cleanup(cancel)
		if err := b.Open(ctx); err != nil {
			x.Fail("B05", "error", "Open = %v", err)
		}
	}
	wg.Wait()
	if reopen {
		if err := b.Pub(bg, "after", broker.Message{UID: "1"}, broker.WithPubTimeout(time.Millisecond)); err != nil && !errors.Is(err, broker.ErrTimeout) {
			x.Fail("B05 B07", "error", "Pub after the broker was opened again = %v", err)
		}
		_ = b.Close()
	}
	x.Log("%d subscriptions, %d unsubscribed before the close, %d clients, reopened=%v", n, before, workers, reopen)
	x.Count("subscriptions_ended", n)
	if n > 20 {
		x.NonTrivial()
	}
}

func init() {
	register("B04", &Part{Name: "blocked", Engine: Sim, Perturb: true, Quick: 6000, Thorough: 200000, Run: blockedRun,
		Rule: "receives block for 5 s of virtual time on 1 to 5 subscriptions, then clients unsubscribe some of them and publish at once; non-trivial: a blocked receive was unsubscribed"})
	register("B07", &Part{Name: "backlog", Engine: Sim, Perturb: true, Quick: 250, Thorough: 6000, Run: backlogRun,
		Rule: "up to 390 subscriptions are unsubscribed by 1 to 4 clients around the end of their session, goroutines left behind are counted; non-trivial: more than 20 subscriptions"})
}

// volumeRun: capacities far beyond those of the random runs, filled to the limit and emptied in order, by one client.
func volumeRun(x *Exec) {
	sizes := []int{101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 999, 1000, 1001, 1024, 2000, 4096, 5000}
	size := sizes[x.IntN(len(sizes))]
	if x.Chance(0.4) {
		size = x.Size(1+x.IntN(3000), 6000)
	}
	b := openBroker(x, broker.WithCap(size))
	topics := x.Pool("t", 1+x.IntN(3))
	x.Log("capacity %d, topics %q", size, topics)
	subs := map[string]broker.Subscriber{}
	queue := map[string][]broker.Message{}
	subscribe := func(t string) {
		s, err := b.Sub(bg, t)
		if err != nil {
			x.Fail("B05", "error", "Sub = %v", err)
		}
		subs[t] = s
	}
	for _, t := range topics {
		if x.Chance(0.5) {
			subscribe(t)
		}
	}
	no, most := 0, 0
	message := func() broker.Message {
		no++
		if x.Chance(0.05) {
			return x.newMsg(no)
		}
		m := broker.Message{UID: tok + strconv.Itoa(no), Data: []byte{byte(no), byte(no >> 8)}}
		if x.Chance(0.001) {
			m.Data = make([]byte, x.IntN(1<<20))
			for i := range m.Data {
				m.Data[i] = byte(i*7) ^ byte(i>>9)
			}
		}
		return m
	}
	bursts := 2 + x.IntN(8)
	for k := 0; k < bursts; k++ {
		t := topics[x.IntN(len(topics))]
		room := size - len(queue[t])
		if k == 0 || x.Chance(0.5) {
			n := room
			if k > 0 && x.Chance(0.5) {
				n = x.IntN(room + 1)
			}
			for i := 0; i < n; i++ {
				m := message()
				at := time.Now()
				err := b.Pub(bg, t, m, broker.WithPubTimeout(3*time.Second))
				if d := time.Since(at); err != nil || d > 0 {
					x.Fail("B03", "room", "Pub took %v and returned %v though only %d of %d messages wait", d, err, len(queue[t]), size)
				}
				queue[t] = append(queue[t], m)
			}
			x.Log("%d published on %q, %d wait", n, t, len(queue[t]))
			if len(queue[t]) == size {
				want := time.Duration(1+x.IntN(5000)) * time.Millisecond
				at := time.Now()
				err := b.Pub(bg, t, x.newMsg(no+1000000), broker.WithPubTimeout(want))
				if d := time.Since(at); !errors.Is(err, broker.ErrTimeout) || d < want || d > want+tolerance(want) {
					x.Fail("B03", "full", "Pub on a full topic with timeout %v returned %v after %v", want, err, d)
				}
				x.NonTrivial()
			}
			if len(queue[t]) > most {
				most = len(queue[t])
			}
			continue
		}
		n := len(queue[t])
		if x.Chance(0.5) {
			n = x.IntN(n + 1)
		}
		if subs[t] == nil || x.Chance(0.1) {
			subscribe(t)
		}
		for i := 0; i < n; i++ {
			var got *broker.Message
			at := time.Now()
			err := subs[t].Receive(bg, func(_ context.Context, m broker.Message) error {
				if got != nil {
					x.Report("B01", "twice", "one receive ran its handler twice")
				}
				got = &m
				return nil
			}, broker.WithSubTimeout(3*time.Second))
			d := time.Since(at)
			if err != nil || d > 0 || got == nil {
				x.Fail("B01 B03", "waiting", "Receive took %v and returned %v though %d messages wait", d, err, len(queue[t]))
			}
			if w := queue[t][0]; !sameMsg(*got, w) {
				props := "B01"
				for _, o := range queue[t][1:] {
					if sameMsg(*got, o) {
						props = "B02"
					}
				}
				x.Fail(props, "order", "received message %d (%d bytes), want message %d (%d bytes)", msgNo(*got), len(got.Data), msgNo(w), len(w.Data))
			}
			queue[t] = queue[t][1:]
		}
		x.Log("%d received on %q, %d wait", n, t, len(queue[t]))
		if len(queue[t]) == 0 {
			want := time.Duration(1+x.IntN(5000)) * time.Millisecond
			at := time.Now()
			err := subs[t].Receive(bg, func(context.Context, broker.Message) error {
				x.Report("B01", "invented", "a receive on an empty topic ran its handler")
				return nil
			}, broker.WithSubTimeout(want))
			if d := time.Since(at); !errors.Is(err, broker.ErrTimeout) || d < want || d > want+tolerance(want) {
				x.Fail("B03", "empty", "Receive on an empty topic with timeout %v returned %v after %v", want, err, d)
			}
		}
	}
	x.Count("messages", no)
	if most > 100 {
		x.NonTrivial()
	}
}

// deadlineRun: blocked calls whose timeout, whose context's deadline and whose session's deadline compete.
func deadlineRun(x *Exec) {
	b, err := membroker.New(broker.WithCap(x.IntN(3)))
	if err != nil {
		x.Fail("*", "new", "New = %v", err)
	}
	x.Cleanup(func() { _ = b.Close() })
	n := 0
	// all moments differ by at least 40 µs
	moment := func() time.Duration {
		n++
		return time.Duration(1+x.IntN(4000))*10*time.Millisecond + time.Duration(n)*50*time.Microsecond
	}
	life := moment()
	sctx, cancel := x.deadlineCtx(life)
	x.Cleanup(cancel)
	begin := time.Now()
	if err := b.Open(sctx); err != nil {
		x.Fail("B05", "error", "Open = %v", err)
	}
	x.Log("session ends after %v", life)
	type call struct {
		pub              bool
		timeout, dl, at  time.Duration
		ends             time.Duration // expected
		why              string
		err              error
		took             time.Duration
		invoked, started bool
	}
	// waits on a topic of its own all the while
	keep := broker.Message{UID: tok + "7777777"}
	kept := b.Pub(bg, "kept", keep, broker.WithPubTimeout(time.Microsecond)) == nil
	var calls []*call
	var wg sync.WaitGroup
	for i, k := 0, 1+x.IntN(6); i < k; i++ {
		c := &call{pub: x.Chance(0.5), timeout: moment(), at: moment() / 40}
		if x.Chance(0.6) {
			c.timeout += 1000 * time.Hour / 10
		}
		ctx := bg
		if x.Chance(0.5) {
			c.dl = moment()
			var cancel context.CancelFunc
			ctx, cancel = x.deadlineCtx(c.at + c.dl)
			x.Cleanup(cancel)
		} else if x.Chance(0.3) {
			ctx = sctx // the end of the session is the end of the context, too
		}
		if c.at >= life {
			continue
		}
		c.ends, c.why = c.at+c.timeout, "timeout"
		if c.dl > 0 && c.at+c.dl < c.ends {
			c.ends, c.why = c.at+c.dl, "context"
		}
		if life < c.ends {
			c.ends, c.why = life, "session"
		}
		near := 0
		for _, e := range []time.Duration{c.at + c.timeout, life, c.at + c.dl} {
			if e < c.ends+50*time.Microsecond && (e != c.at || c.dl > 0) {
				near++
			}
		}
		if near != 1 {
			continue // too close to tell
		}
		calls = append(calls, c)
		// a topic of its own, so that nothing but these moments ends the call
		topic := "topic" + strconv.Itoa(i)
		if c.pub {
			for b.Pub(bg, topic, broker.Message{UID: "fill"}, broker.WithPubTimeout(time.Nanosecond)) == nil {
			}
		}
		var s broker.Subscriber
		if !c.pub {
			if s, err = b.Sub(bg, topic); err != nil {
				x.Fail("B05", "error", "Sub = %v", err)
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.Guard("a blocked call", func() {
				time.Sleep(time.Until(begin.Add(c.at)))
				at := time.Now()
				if c.pub {
					c.err = b.Pub(ctx, topic, broker.Message{UID: tok + "5555555"}, broker.WithPubTimeout(c.timeout))
				} else {
					c.err = s.Receive(ctx, func(context.Context, broker.Message) error { c.invoked = true; return nil }, broker.WithSubTimeout(c.timeout))
				}
				c.took = time.Since(at)
				c.started = true
			})
		}()
	}
	wg.Wait()
	if x.Failed() {
		panic(abort{})
	}
	for i, c := range calls {
		x.Log("call %d: publish=%v at=%v timeout=%v deadline=%v: %v after %v, expected the %s to end it", i, c.pub, c.at, c.timeout, c.dl, c.err, c.took, c.why)
		props := map[string]string{"timeout": "B03 B06", "context": "B06", "session": "B06 B07"}[c.why]
		want := c.ends - c.at
		if c.took < want-20*time.Microsecond || c.took > want+time.Second {
			x.Fail(props, "when", "call %d returned after %v, want %v (its %s)", i, c.took, want, c.why)
		}
		if c.why == "timeout" && !errors.Is(c.err, broker.ErrTimeout) {
			x.Fail(props, "error", "call %d returned %v on its timeout", i, c.err)
		}
		if c.pub && c.err == nil {
			x.Fail("B06", "success", "publish %d, ended by its %s, reported success", i, c.why)
		}
		if c.invoked {
			x.Fail("B01 B06", "invoked", "receive %d ran its handler though nothing was published", i)
		}
		x.Count("ended_by_"+c.why, 1)
		x.NonTrivial()
	}
	if now := time.Since(begin); now < life && kept {
		// the session is open, and what waits is still there
		s, err := b.Sub(bg, "kept")
		if err != nil {
			x.Fail("B06", "session", "Sub = %v, %v after the session was opened (its context ends after %v)", err, now, life)
		}
		got := ""
		if err := s.Receive(bg, func(_ context.Context, m broker.Message) error { got = m.UID; return nil }, broker.WithSubTimeout(time.Microsecond)); err != nil || got != keep.UID {
			x.Fail("B01 B06", "waiting", "a waiting message is not received (%v) after other calls ended", err)
		}
		x.Count("session_still_open", 1)
	}
	time.Sleep(time.Until(begin.Add(life + time.Second)))
	if err := b.Pub(bg, "kept", keep, broker.WithPubTimeout(time.Second)); !errors.Is(err, broker.ErrNotConnected) {
		x.Fail("B06", "session", "Pub one second after the session's context ended = %v, want %v", err, broker.ErrNotConnected)
	}
	if _, err := b.Sub(bg, "kept"); !errors.Is(err, broker.ErrNotConnected) {
		x.Fail("B06", "session", "Sub one second after the session's context ended = %v, want %v", err, broker.ErrNotConnected)
	}
	if x.Chance(0.7) {
		ctx, cancel := newCtx(x.Rand)
		x.Cleanup(cancel)
		if err := b.Open(ctx); err != nil {
			x.Fail("B05 B06", "error", "Open = %v", err)
		}
		s, err := b.Sub(bg, "kept")
		if err != nil {
			x.Fail("B05 B06", "error", "Sub = %v in the session opened next", err)
		}
		if err := s.Receive(bg, func(_ context.Context, m broker.Message) error {
			x.Report("B05", "stale", "a message of the session before was delivered")
			return nil
		}, broker.WithSubTimeout(time.Second)); !errors.Is(err, broker.ErrTimeout) {
			x.Fail("B05 B06", "error", "Receive = %v in the session opened next", err)
		}
	}
}

// deadlineCtx returns a context of some kind which ends after d.
func (x *Exec) deadlineCtx(d time.Duration) (context.Context, context.CancelFunc) {
	switch x.IntN(7) {
	case 0:
		return context.WithDeadline(bg, time.Now().Add(d))
	case 1: // the deadline of an ancestor
		ctx, cancel := context.WithTimeout(bg, d)
		c := context.WithValue(ctx, ctxMark{}, 3)
		ctx2, cancel2 := context.WithCancel(c)
		return ctx2, func() { cancel2(); cancel() }
	case 2: // cancelled by a timer
		ctx, cancel := newCtx(x.Rand)
		t := time.AfterFunc(d, cancel)
		return ctx, func() { t.Stop(); cancel() }
	case 3:
		ctx, cancel := context.WithTimeoutCause(bg, d, errCause)
		return context.WithValue(ctx, ctxMark{}, 4), cancel
	case 4: // a later deadline of its own
		ctx, cancel := context.WithTimeout(bg, d)
		ctx2, cancel2 := context.WithTimeout(ctx, d*3)
		return ctx2, func() { cancel2(); cancel() }
	}
	return context.WithTimeout(bg, d)
}

func init() {
	rule := "capacities up to 5000 filled to the limit and emptied again by one client, with payloads up to 1 MB, every publish and receive checked for its moment, message and order; non-trivial: a topic was full or held more than 100 messages"
	for _, p := range []string{"B01", "B02", "B03"} {
		register(p, &Part{Name: "volume", Engine: Sim, Quick: 200, Thorough: 10000, Run: volumeRun, Rule: rule})
	}
	for _, p := range []string{"B03", "B06"} {
		register(p, &Part{Name: "deadlines", Engine: Sim, Quick: 3000, Thorough: 100000, Run: deadlineRun,
			Rule: "1 to 6 blocked publishes and receives, each ended by its own timeout, the deadline of its context or the deadline of the session's context, whichever comes first; non-trivial: a call was ended"})
	}
}
