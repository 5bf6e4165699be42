package worker

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"sync"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
)

// Hundreds to thousands of topics, subscriptions, sessions, blocked calls; payloads of megabytes.

const scaleSettle = 5 * time.Second

func (x *Exec) slack() time.Duration {
	if x.Part.Perturb {
		return scaleSettle
	}
	return 0
}

// orSession: what one session of many does wrong concerns B05 as well.
func (x *Exec) orSession(props string) string {
	if x.Part.Name == "scale-sessions" {
		return props + " B05"
	}
	return props
}

func (x *Exec) mustSub(b broker.Broker, t string) broker.Subscriber {
	s, err := b.Sub(bg, t)
	if err != nil {
		x.Fail("B05", "error", "Sub = %v", err)
	}
	return s
}

// mustPub publishes where there is room.
func (x *Exec) mustPub(b broker.Broker, t string, m broker.Message) {
	at := time.Now()
	err := b.Pub(bg, t, m, broker.WithPubTimeout(time.Minute))
	if d := time.Since(at); err != nil || d > x.slack() {
		x.Fail(x.orSession("B01 B03"), "room", "Pub on %q took %v and returned %v though there is room", t, d, err)
	}
}

// mustReceive receives from where w is next.
func (x *Exec) mustReceive(s broker.Subscriber, w broker.Message) {
	n := 0
	var got broker.Message
	at := time.Now()
	err := s.Receive(bg, func(_ context.Context, m broker.Message) error { n++; got = m; return nil }, broker.WithSubTimeout(time.Minute))
	if d := time.Since(at); err != nil || d > x.slack() || n != 1 {
		x.Fail(x.orSession("B01 B03"), "waiting", "Receive took %v, returned %v and ran its handler %d times though a message waits", d, err, n)
	}
	if !sameMsg(got, w) {
		x.Fail(x.orSession("B01 B02"), "order", "received %s, want %s", showMsg(got), showMsg(w))
	}
}

// mustTimeout receives from where nothing waits.
func (x *Exec) mustTimeout(s broker.Subscriber) {
	want := time.Duration(1+x.IntN(5000)) * time.Millisecond
	at := time.Now()
	err := s.Receive(bg, func(_ context.Context, m broker.Message) error {
		x.Report("B01", "invented", "a receive where no message waits got %s", showMsg(m))
		return nil
	}, broker.WithSubTimeout(want))
	if d := time.Since(at); !errors.Is(err, broker.ErrTimeout) || d < want || d > want+tolerance(want)+x.slack() {
		x.Fail(x.orSession("B01 B03"), "empty", "Receive on an empty topic with timeout %v returned %v after %v", want, err, d)
	}
}

func scaleTopics(x *Exec) {
	n := x.scale(3000)
	each := 1 + x.IntN(4)
	b := openBroker(x, broker.WithCap(each))
	names := make([]string, n)
	for i := range names {
		names[i] = fmt.Sprintf("topic%d", i)
	}
	x.Log("%d topics of capacity %d", n, each)
	subs := make([]broker.Subscriber, n)
	queue := make([][]broker.Message, n)
	early := x.Float64()
	for i, t := range names {
		if x.Chance(early) {
			subs[i] = x.mustSub(b, t)
		}
	}
	no := 0
	for round := 1 + x.IntN(2); round >= 0; round-- {
		for _, i := range x.Perm(n) {
			for k := x.IntN(each - len(queue[i]) + 1); k > 0; k-- {
				no++
				m := broker.Message{UID: tok + fmt.Sprint(no), Data: []byte(names[i])}
				x.mustPub(b, names[i], m)
				queue[i] = append(queue[i], m)
			}
		}
		for _, i := range x.Perm(n) {
			if round > 0 && x.Chance(0.5) {
				continue
			}
			if subs[i] == nil || x.Chance(0.1) {
				subs[i] = x.mustSub(b, names[i])
			}
			for len(queue[i]) > 0 && (round == 0 || x.Chance(0.6)) {
				x.mustReceive(subs[i], queue[i][0])
				queue[i] = queue[i][1:]
			}
			if len(queue[i]) == 0 && x.Chance(0.02) {
				x.mustTimeout(subs[i])
			}
		}
	}
	x.Count("messages", no)
	x.Count("topics", n)
	x.NonTrivial()
}

// scaleSubs: receives block on many subscriptions, some of which are unsubscribed; each of the others gets one message.
func scaleSubs(x *Exec) {
	n := x.scale(2000)
	topics := x.Pool("t", 1+x.IntN(3))
	b := openBroker(x, broker.WithCap([]int{0, 1, 5, 100, -1}[x.IntN(5)]))
	x.Log("%d subscriptions of %d topics", n, len(topics))
	time.Sleep(scaleSettle)
	before := len(started())
	type ss struct {
		s     broker.Subscriber
		topic string
		gone  bool
		got   []int
		err   error
		end   bool
	}
	subs := make([]*ss, n)
	ids := map[string]bool{}
	for i := range subs {
		s := &ss{topic: topics[x.IntN(len(topics))]}
		s.s = x.mustSub(b, s.topic)
		id, err := s.s.ID(bg)
		if err != nil || ids[id] {
			x.Fail("B04", "id", "subscription %d of %d has the id %q of an earlier one (%v)", i, n, id, err)
		}
		ids[id] = true
		subs[i] = s
	}
	var wg sync.WaitGroup
	for _, s := range subs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.Guard("a blocked receive", func() {
				s.err = s.s.Receive(bg, func(_ context.Context, m broker.Message) error { s.got = append(s.got, msgNo(m)); return nil }, broker.WithSubTimeout(time.Hour))
				s.end = true
			})
		}()
	}
	time.Sleep(scaleSettle)
	share := x.Float64()
	left := map[string]int{}
	for i, s := range subs {
		if s.end {
			x.Fail("B03 B04", "early", "receive %d of %d ended with %v, %d messages, though none was published", i, n, s.err, len(s.got))
		}
		if x.Chance(share) {
			s.gone = true
			if err := s.s.Unsubscribe(bg); err != nil {
				x.Fail("B04", "error", "Unsubscribe = %v", err)
			}
		} else {
			left[s.topic]++
		}
	}
	time.Sleep(scaleSettle)
	for i, s := range subs {
		if s.gone != s.end || len(s.got) > 0 || s.gone && s.err != nil && !errors.Is(s.err, broker.ErrSubscriptionInactive) {
			x.Fail("B04", "unsubscribed", "subscription %d of %d: unsubscribed=%v, its receive over=%v with %v, %d messages", i, n, s.gone, s.end, s.err, len(s.got))
		}
		topic, err := s.s.Topic(bg)
		if err != nil || topic != s.topic {
			x.Fail("B04", "topic", "Topic of subscription %d of %d = %q, %v, want %q", i, n, topic, err, s.topic)
		}
	}
	no := 0
	sent := map[int]string{}
	for _, t := range topics {
		for k := 0; k < left[t]; k++ {
			no++
			sent[no] = t
			x.mustPub(b, t, x.newMsg(no))
		}
	}
	time.Sleep(scaleSettle)
	for i, s := range subs {
		if s.gone {
			continue
		}
		if !s.end || s.err != nil || len(s.got) != 1 {
			x.Fail("B01 B04", "others", "receive %d of %d, with as many messages published as receives blocked: over=%v with %v, got %v", i, n, s.end, s.err, s.got)
		}
		if sent[s.got[0]] != s.topic {
			x.Fail("B01 B04", "twice", "message %d was delivered twice, or on %q though published on %q", s.got[0], s.topic, sent[s.got[0]])
		}
		delete(sent, s.got[0])
	}
	wg.Wait()
	if x.Chance(0.7) {
		for _, s := range subs {
			if err := s.s.Unsubscribe(bg); err != nil {
				x.Fail("B04", "error", "Unsubscribe = %v", err)
			}
		}
	}
	time.Sleep(scaleSettle)
	if l := started(); len(l) > before+64 {
		x.Fail("B07", "accumulate", "after %d subscriptions, with all calls returned and the session open, %d goroutines of the broker are left, one of them:\n%s", n, len(l)-before, l[len(l)-1])
	}
	x.Count("subscriptions", n)
	x.NonTrivial()
}

// scaleSessions: many sessions of one broker after another.
func scaleSessions(x *Exec) {
	n := x.scale(1500)
	size := 1 + x.IntN(5)
	b := openBroker(x, broker.WithCap(size))
	// a topic is used again after as many sessions
	period := 1 + x.IntN(n)
	if x.Chance(0.6) {
		period = 1 << x.IntN(11)
	}
	x.Log("%d sessions, %d topics", n, period)
	var old []broker.Subscriber
	var cancel context.CancelFunc
	no := 0
	for i := 0; i < n; i++ {
		if i > 0 {
			var ctx context.Context
			ctx, cancel = context.WithCancel(bg)
			defer cancel()
			if err := b.Open(ctx); err != nil {
				x.Fail("B05", "error", "Open of session %d = %v", i, err)
			}
		}
		t := fmt.Sprint("t", i%period)
		var s broker.Subscriber
		early := x.Chance(0.5)
		if early {
			s = x.mustSub(b, t)
		}
		if early && x.Chance(0.05) {
			x.mustTimeout(s)
		}
		k := x.IntN(size + 1)
		var ms []broker.Message
		for ; k > 0; k-- {
			no++
			ms = append(ms, broker.Message{UID: tok + fmt.Sprint(no)})
			x.mustPub(b, t, ms[len(ms)-1])
		}
		if !early {
			s = x.mustSub(b, t)
		}
		for _, m := range ms {
			if x.Chance(0.3) {
				break
			}
			x.mustReceive(s, m)
		}
		if len(old) > 0 && x.Chance(0.1) {
			o := old[x.IntN(len(old))]
			err := o.Receive(bg, func(_ context.Context, m broker.Message) error {
				x.Report("B05", "old", "a receive on a subscription of an earlier session got %s", showMsg(m))
				return nil
			})
			if !errors.Is(err, broker.ErrSubscriptionInactive) {
				x.Fail("B05", "old", "a receive on a subscription of an earlier session returned %v", err)
			}
			if x.Chance(0.5) {
				if err := o.Unsubscribe(bg); err != nil {
					x.Fail("B04 B05", "error", "Unsubscribe = %v", err)
				}
			}
		}
		old = append(old, s)
		if cancel != nil && x.Chance(0.3) {
			cancel()
			time.Sleep(scaleSettle)
		} else if err := b.Close(); err != nil {
			x.Fail("B05", "error", "Close of session %d = %v", i, err)
		}
		if err := b.Pub(bg, t, broker.Message{}); !errors.Is(err, broker.ErrNotConnected) {
			x.Fail("B05", "closed", "Pub after the end of session %d = %v", i, err)
		}
	}
	x.Count("sessions", n)
	x.NonTrivial()
}

// scaleBlocked: many calls blocked at once, ended by timeouts of their own, contexts of their own, or by messages.
func scaleBlocked(x *Exec) {
	n := x.scale(2000)
	recv := x.Chance(0.5)
	size := x.IntN(4)
	b := openBroker(x, broker.WithCap(size))
	topics := x.Pool("t", 1+x.IntN(3))
	subs := map[string]broker.Subscriber{}
	queue := map[string][]int{} // full from the start
	no := 0
	for _, t := range topics {
		subs[t] = x.mustSub(b, t)
		for i := 0; !recv && i < size; i++ {
			no++
			x.mustPub(b, t, x.newMsg(no))
			queue[t] = append(queue[t], no)
		}
	}
	time.Sleep(scaleSettle)
	before := len(started())
	type call struct {
		topic   string
		no      int
		timeout time.Duration
		cancel  context.CancelFunc
		gone    bool
		end     bool
		took    time.Duration
		err     error
		got     []int
	}
	calls := make([]*call, n)
	byNo := map[int]*call{}
	var wg sync.WaitGroup
	for i := range calls {
		no++
		c := &call{topic: topics[x.IntN(len(topics))], no: no, timeout: 10 * time.Hour}
		calls[i], byNo[no] = c, c
		if x.Chance(0.4) {
			c.timeout = time.Hour + time.Duration(x.IntN(3600000))*time.Millisecond
		}
		var ctx context.Context
		ctx, c.cancel = context.WithCancel(bg)
		defer c.cancel()
		m := x.newMsg(no)
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.Guard("a blocked call", func() {
				at := time.Now()
				if recv {
					c.err = subs[c.topic].Receive(ctx, func(_ context.Context, m broker.Message) error { c.got = append(c.got, msgNo(m)); return nil }, broker.WithSubTimeout(c.timeout))
				} else {
					c.err = b.Pub(ctx, c.topic, m, broker.WithPubTimeout(c.timeout))
				}
				c.took, c.end = time.Since(at), true
			})
		}()
	}
	what := "publishes"
	if recv {
		what = "receives"
	}
	x.Log("%d blocked %s on %d topics of capacity %d", n, what, len(topics), size)
	time.Sleep(scaleSettle)
	share := x.Float64() * 0.6
	if x.Prop != "B06" && x.Chance(0.5) {
		share = 0
	}
	for i, c := range calls {
		if c.end {
			x.Fail("B03 B06", "early", "one of %d blocked %s, number %d, returned %v after %v", n, what, i, c.err, c.took)
		}
		if x.Chance(share) {
			c.gone = true
			c.cancel()
		}
	}
	time.Sleep(scaleSettle)
	blocked := map[string]int{}
	for i, c := range calls {
		if c.gone != c.end || c.gone && !errors.Is(c.err, context.Canceled) {
			x.Fail("B06", "cancelled", "one of %d blocked %s, number %d: cancelled=%v, over=%v with %v", n, what, i, c.gone, c.end, c.err)
		}
		if !c.gone {
			blocked[c.topic]++
		}
	}
	// let some of them through
	sent := map[int]string{}
	accepted := map[int]bool{}
	let := map[string]int{}
	for _, t := range topics {
		k := x.IntN(blocked[t] + 1)
		if x.Chance(0.3) {
			k /= 8
		}
		let[t] = k
		if recv {
			for ; k > 0; k-- {
				no++
				sent[no] = t
				x.mustPub(b, t, x.newMsg(no))
			}
			continue
		}
		take := func() int {
			got := -1
			err := subs[t].Receive(bg, func(_ context.Context, m broker.Message) error { got = msgNo(m); return nil }, broker.WithSubTimeout(time.Minute))
			if err != nil || got < 0 {
				x.Fail("B01 B03", "waiting", "Receive = %v, message %d, though %d publishes are blocked", err, got, blocked[t])
			}
			return got
		}
		for i := 0; i < k; i++ {
			got := take()
			if len(queue[t]) > 0 {
				if got != queue[t][0] {
					x.Fail("B01 B02", "order", "received message %d, want %d", got, queue[t][0])
				}
				queue[t] = queue[t][1:]
			} else if c := byNo[got]; c == nil || c.topic != t || c.gone || accepted[got] {
				x.Fail("B01 B06", "unexpected", "received message %d, which was cancelled, received before or published elsewhere", got)
			} else {
				accepted[got] = true
			}
		}
	}
	time.Sleep(3 * time.Hour)
	over := 0
	through := map[string]int{}
	for i, c := range calls {
		late := c.timeout < 3*time.Hour
		switch {
		case c.gone:
		case c.end && c.err == nil:
			through[c.topic]++
			if c.took > 2*scaleSettle+x.slack() {
				x.Fail("B03", "late", "one of %d blocked %s, number %d, returned after %v", n, what, i, c.took)
			}
			if recv {
				if len(c.got) != 1 || sent[c.got[0]] != c.topic {
					x.Fail("B01", "got", "one of %d blocked receives got %v on %q, at least one of them twice or published elsewhere", n, c.got, c.topic)
				}
				delete(sent, c.got[0])
			}
		case late && (!c.end || !errors.Is(c.err, broker.ErrTimeout) || c.took < c.timeout || c.took > c.timeout+tolerance(c.timeout)+x.slack()):
			x.Fail("B03", "timeout", "one of %d blocked %s, number %d, with timeout %v: over=%v with %v after %v", n, what, i, c.timeout, c.end, c.err, c.took)
		case !late && c.end:
			x.Fail("B03 B06", "early", "one of %d blocked %s, number %d, with timeout %v returned %v after %v", n, what, i, c.timeout, c.err, c.took)
		case !late:
			over++
		}
	}
	for _, t := range topics {
		if through[t] != let[t] {
			x.Fail("B01 B03", "through", "%d of %d blocked %s on %q ended well, want %d", through[t], blocked[t], what, t, let[t])
		}
	}
	if recv && len(sent) > 0 {
		x.Fail("B01", "lost", "%d messages were not received though receives are blocked", len(sent))
	}
	if l := started(); len(l) > before+64+4*over {
		x.Fail("B07", "accumulate", "of %d %s all but %d have returned, the session is open, %d goroutines of the broker are left, one of them:\n%s", n, what, over, len(l)-before, l[len(l)-1])
	}
	// the rest ends with the session
	if err := b.Close(); err != nil {
		x.Fail("B05", "error", "Close = %v", err)
	}
	time.Sleep(scaleSettle)
	for i, c := range calls {
		if !c.end {
			x.Fail("B05", "close", "one of %d blocked %s, number %d, is still blocked after Close", n, what, i)
		}
	}
	if !recv {
		for k := range accepted {
			if c := byNo[k]; c.err != nil {
				x.Fail("B01 B03", "refused", "message %d was received though its publish returned %v", k, c.err)
			}
		}
	}
	wg.Wait()
	x.Log("%d let through, %d blocked until the end", len(accepted)+len(through), over)
	x.Count("blocked_calls", n)
	x.NonTrivial()
}

// scalePayload: payloads and attributes of up to some megabytes.
func scalePayload(x *Exec) {
	b := openBroker(x, broker.WithCap(4))
	s := x.mustSub(b, "t")
	for k := 1 + x.IntN(3); k > 0; k-- {
		var ms []broker.Message
		for i := 1 + x.IntN(4); i > 0; i-- {
			m := x.newMsg(i)
			switch x.IntN(3) {
			case 0, 1:
				m.Data = make([]byte, x.scale(6<<20))
				fill(m.Data, x.Uint64())
			default:
				m.Attrs = map[string]string{}
				for j := x.scale(20000); j > 0; j-- {
					m.Attrs[fmt.Sprint("k", j)] = fmt.Sprint(j * 3)
				}
			}
			if x.Chance(0.2) {
				d := make([]byte, x.scale(1<<20))
				fill(d, x.Uint64())
				m.UID = string(d)
			}
			ms = append(ms, m)
			x.Log("a message with id of %d bytes, %d bytes of data and %d attributes", len(m.UID), len(m.Data), len(m.Attrs))
			c := m
			c.Data = append([]byte(nil), m.Data...)
			x.mustPub(b, "t", c)
			x.Count("bytes", len(m.Data)+len(m.UID))
		}
		for _, m := range ms {
			x.mustReceive(s, m)
		}
	}
	x.NonTrivial()
}

func fill(b []byte, seed uint64) {
	g := rand.New(rand.NewPCG(seed, 1))
	for i := range b {
		b[i] = byte(g.Uint32())
	}
}

func init() {
	rule := "up to some thousands of %s on one broker, numbers of any magnitude and often just over a round one; every execution is non-trivial"
	topics := func(q, t int) *Part {
		return &Part{Name: "scale-topics", Engine: Sim, Quick: q, Thorough: t, Rule: fmt.Sprintf(rule, "topics, each with its own messages,"), Run: scaleTopics}
	}
	subs := func(q, t int) *Part {
		return &Part{Name: "scale-subscriptions", Engine: Sim, Quick: q, Thorough: t, Rule: fmt.Sprintf(rule, "subscriptions with blocked receives, some unsubscribed, the others given a message each,"), Run: scaleSubs}
	}
	sessions := func(q, t int) *Part {
		return &Part{Name: "scale-sessions", Engine: Sim, Quick: q, Thorough: t, Rule: fmt.Sprintf(rule, "sessions one after another"), Run: scaleSessions}
	}
	blocked := func(q, t int) *Part {
		return &Part{Name: "scale-blocked", Engine: Sim, Quick: q, Thorough: t, Rule: fmt.Sprintf(rule, "blocked calls, some cancelled, some let through, some timed out"), Run: scaleBlocked}
	}
	payload := &Part{Name: "scale-payload", Engine: Sim, Quick: 32, Thorough: 1000, Rule: "messages of up to some megabytes or with thousands of attributes; every execution is non-trivial", Run: scalePayload}
	register("B01", topics(40, 2000), subs(20, 1000), blocked(20, 1000), payload)
	register("B02", topics(40, 2000), payload)
	register("B03", topics(20, 1000), blocked(40, 2000))
	register("B04", subs(40, 2000))
	register("B05", sessions(40, 2000))
	register("B06", blocked(40, 2000))
	for _, p := range []*Part{topics(8, 400), subs(16, 800), sessions(16, 800), blocked(16, 800)} {
		p.Perturb, p.Steps = true, 2_000_000_000
		p.Rule += "; under perturbed schedules"
		register("B07", p)
	}
}
