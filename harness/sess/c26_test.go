package sess

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"
	"pgregory.net/rapid"

	"vanflowverif/peer"
	"vanflowverif/vt"
)

// scripted is a backoff policy that gives drawn delays and stops after a number
// of them. It keeps a record of its use.
type scripted struct {
	mu     sync.Mutex
	delays []time.Duration
	stop   int // 0: never
	n      int
	calls  []backoffCall
	resets int
}

type backoffCall struct {
	at    time.Time
	delay time.Duration
}

func (s *scripted) NextBackOff() time.Duration {
	s.mu.Lock()
	defer s.mu.Unlock()
	d := s.delayOf(s.n)
	s.n++
	s.calls = append(s.calls, backoffCall{time.Now(), d})
	return d
}

// delayOf is what the n-th failure since the last reset leads to.
func (s *scripted) delayOf(n int) time.Duration {
	if s.stop > 0 && n >= s.stop {
		return backoff.Stop
	}
	return s.delays[min(n, len(s.delays)-1)]
}

func (s *scripted) Reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n = 0
	s.resets++
}

func (s *scripted) snapshot() []backoffCall {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]backoffCall(nil), s.calls...)
}

// notice is a call of a session error handler.
type notice struct {
	at    time.Time
	err   error
	retry bool
	delay time.Duration
}

type notices struct {
	mu  sync.Mutex
	all []notice
}

func (n *notices) handle(err error) {
	x := notice{at: time.Now(), err: err}
	var r session.RetryableError
	if errors.As(err, &r) {
		x.retry, x.delay = true, r.Retry()
	}
	n.mu.Lock()
	n.all = append(n.all, x)
	n.mu.Unlock()
}

func (n *notices) list() []notice {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]notice(nil), n.all...)
}

// CConn is what becomes of a connection of a C26 plan.
type CConn struct {
	Stage string `json:"stage"` // accept, proto, open, begin, attach: where it fails; use: after OKs operations
	Act   string `json:"act"`
	OKs   int    `json:"oks,omitempty"`
}

// C26Plan is a plan of C26.
type C26Plan struct {
	Conns    []CConn `json:"conns"`
	Delays   []int   `json:"delays_ms"`
	Stop     int     `json:"stop,omitempty"`
	Sender   bool    `json:"sender,omitempty"`
	Handlers int     `json:"handlers"`
	Use      bool    `json:"use,omitempty"` // handlers use the container
	Final    int     `json:"final"`         // operations on the last connection
}

func genC26(t *rapid.T) C26Plan {
	p := C26Plan{
		Sender:   rapid.Bool().Draw(t, "sender"),
		Handlers: rapid.IntRange(1, 3).Draw(t, "handlers"),
		Use:      rapid.IntRange(0, 3).Draw(t, "use") == 0,
		Stop:     rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4}).Draw(t, "stop"),
		Final:    rapid.IntRange(0, 3).Draw(t, "final"),
	}
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "delays"); i < n; i++ {
		p.Delays = append(p.Delays, rapid.IntRange(0, 12).Draw(t, "delay"))
	}
	for i, n := 0, rapid.IntRange(1, 7).Draw(t, "conns"); i < n; i++ {
		c := CConn{Stage: rapid.SampledFrom([]string{"accept", "proto", "open", "begin", "attach", "use", "use", "use"}).Draw(t, "stage")}
		acts := []string{"drop", "reset"}
		switch c.Stage {
		case "open", "begin":
			acts = []string{"drop", "reset", "close", "close_plain", "partial", "garbage"}
		case "attach":
			acts = []string{"drop", "reset", "close", "partial", "garbage", "end", "end_plain", "refuse_link"}
		case "use":
			acts = []string{"drop", "reset", "close", "close_plain", "garbage", "end", "end_plain", "detach", "detach_plain"}
			c.OKs = rapid.IntRange(0, 3).Draw(t, "oks")
		}
		c.Act = rapid.SampledFrom(acts).Draw(t, "act")
		p.Conns = append(p.Conns, c)
	}
	return p
}

func runC26(c *vt.Case, plan C26Plan) error {
	struck := map[int]bool{}
	p, err := peer.New(peer.Options{Script: func(conn int, event string) string {
		if conn >= len(plan.Conns) {
			return ""
		}
		if s := plan.Conns[conn]; s.Stage == event && !struck[conn] {
			struck[conn] = true
			return s.Act
		}
		return ""
	}})
	if err != nil {
		vt.Abort("peer: %v", err)
	}
	defer p.Close()
	policy := &scripted{stop: plan.Stop}
	for _, d := range plan.Delays {
		policy.delays = append(policy.delays, time.Duration(d)*time.Millisecond)
	}
	// what has to happen
	type expectation struct {
		delay time.Duration
		stop  bool
	}
	var want []expectation
	fails, stopped := 0, false
	for _, s := range plan.Conns {
		if s.OKs > 0 {
			fails = 0
		}
		d := policy.delayOf(fails)
		fails++
		want = append(want, expectation{d, d == backoff.Stop})
		if d == backoff.Stop {
			stopped = true
			break
		}
	}
	cont := session.NewContainer(p.URL(), session.ContainerConfig{ContainerID: "verif", BackOff: policy})
	logs := make([]*notices, plan.Handlers)
	for i := range logs {
		logs[i] = &notices{}
		cont.OnSessionError(func(err error) {
			logs[i].handle(err)
			if plan.Use && i == 0 {
				cont.OnSessionError(func(error) {})
				cont.NewSender("other", session.SenderOptions{})
			}
		})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cont.Start(ctx)

	// a worker does one operation after the other; a driver has connections
	// fail as planned
	wctx, wcancel := context.WithCancel(ctx)
	defer wcancel()
	var errs errLog
	final := make(chan struct{})
	var mu sync.Mutex
	oks, failed, fed, quiet := map[int]int{}, map[int]bool{}, map[int]bool{}, map[int]int{}
	// astray: an operation meant for a connection that failed before the
	// container had it succeeded on a later one, so the plan does not say what
	// has to happen
	astray := func() bool {
		mu.Lock()
		defer mu.Unlock()
		for i, n := range oks {
			if i < len(plan.Conns) && n > plan.Conns[i].OKs {
				return true
			}
		}
		return false
	}
	current := func() int {
		p.Lock()
		defer p.Unlock()
		return len(p.Conns()) - 1
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for ; wctx.Err() == nil; time.Sleep(50 * time.Microsecond) {
			p.Lock()
			i := len(p.Conns()) - 1
			if i < 0 || !p.Conns()[i].Began {
				p.Unlock()
				continue
			}
			attached, settled := false, true
			for _, l := range p.Links() {
				if l.Conn == p.Conns()[i] && l.Addr == "a" {
					attached = true
					for _, d := range l.Delivered {
						settled = settled && d.State != ""
					}
				}
			}
			p.Unlock()
			feed := max(plan.Final, 1)
			if i < len(plan.Conns) {
				feed = plan.Conns[i].OKs
			}
			if !plan.Sender && attached && !fed[i] {
				fed[i] = true
				for k := 0; k < feed; k++ {
					p.Enqueue("a", wire(body("m")), false)
				}
				continue
			}
			if i >= len(plan.Conns) || plan.Conns[i].Stage != "use" {
				continue
			}
			mu.Lock()
			// without an operation nothing shows when the container has
			// the session: give it a moment
			quiet[i]++
			ready := !failed[i] && oks[i] >= plan.Conns[i].OKs && settled && (attached || plan.Sender && plan.Conns[i].OKs == 0 && quiet[i] > 20)
			act := plan.Conns[i].Act
			if ready {
				failed[i] = true
				if !attached && (act == "detach" || act == "detach_plain") {
					act = "drop" // no link to detach yet
				}
				p.Inject(act, 0)
			}
			mu.Unlock()
		}
	}()
	go func() {
		defer wg.Done()
		var op func() error
		if plan.Sender {
			s := cont.NewSender("a", session.SenderOptions{})
			op = func() error { return s.Send(wctx, body("x")) }
		} else {
			r := cont.NewReceiver("a", session.ReceiverOptions{Credit: 2})
			op = func() error {
				m, err := r.Next(wctx)
				if err != nil {
					return err
				}
				return r.Accept(wctx, m)
			}
		}
		gate, erred, idle := -1, -1, 0
		for wctx.Err() == nil {
			if plan.Sender {
				// no more operations than planned
				i := current()
				mu.Lock()
				// an error may have been that of the connection before, and
				// the failure of this one not noticed yet
				stale := erred == i && len(logs[0].list()) <= i && idle > 1000
				wait := i < 0 || erred == i && !stale
				if i >= 0 && i < len(plan.Conns) {
					switch plan.Conns[i].Stage {
					case "use":
						wait = wait || oks[i] >= plan.Conns[i].OKs && !failed[i]
					case "attach":
					default: // never gets that far
						wait = true
					}
				}
				mu.Unlock()
				gate = i
				if idle++; !wait {
					idle = 0
				}
				if wait {
					time.Sleep(50 * time.Microsecond)
					continue
				}
			}
			err := op()
			if err != nil {
				if plan.Sender {
					erred = gate
				} // the next operation is for the next connection
				continue
			}
			mu.Lock()
			j := current()
			oks[j]++
			if j < len(plan.Conns) && failed[j] {
				errs.add("an operation succeeded on connection %d, which had failed", j)
			}
			done := j >= len(plan.Conns) && oks[j] >= plan.Final
			mu.Unlock()
			if done {
				close(final)
				return
			}
		}
	}()
	if stopped {
		if !p.WaitFor(long, func() bool { return len(logs[0].list()) >= len(want) }) {
			if astray() {
				c.Class("undecided")
				return nil
			}
			return fmt.Errorf("%d session errors were reported, want %d", len(logs[0].list()), len(want))
		}
	} else {
		select {
		case <-final:
		case <-time.After(long):
			if astray() {
				c.Class("undecided")
				return nil
			}
			return fmt.Errorf("no connection after %d failures: %d errors were reported", len(want), len(logs[0].list()))
		}
		cancel()
	}
	time.Sleep(3 * time.Millisecond)
	for _, d := range plan.Delays {
		if d > 3 && stopped {
			time.Sleep(time.Duration(d) * time.Millisecond)
			break
		}
	}
	wcancel()
	wg.Wait()
	if astray() {
		c.Class("undecided")
		return nil
	}
	if err := errs.err(); err != nil {
		return err
	}
	calls := policy.snapshot()
	if len(calls) != len(want) {
		return fmt.Errorf("%d failures led to %d uses of the backoff policy", len(want), len(calls))
	}
	for h, l := range logs {
		got := l.list()
		if len(got) != len(want) {
			return fmt.Errorf("handler %d: %d session errors were reported instead of %d", h, len(got), len(want))
		}
		for i, n := range got {
			switch {
			case n.err == nil || n.err.Error() == "":
				return fmt.Errorf("handler %d: report %d has no error", h, i)
			case want[i].stop && n.retry:
				return fmt.Errorf("handler %d: report %d (%v) is retryable though the backoff policy ended attempts", h, i, n.err)
			case want[i].stop:
			case !n.retry:
				return fmt.Errorf("handler %d: report %d (%v) is not retryable though attempts go on", h, i, n.err)
			case n.delay != want[i].delay:
				return fmt.Errorf("handler %d: report %d says that the next attempt is made after %s, want %s", h, i, n.delay, want[i].delay)
			}
			if calls[i].delay != want[i].delay {
				return fmt.Errorf("failure %d led to delay %s, want %s", i, calls[i].delay, want[i].delay)
			}
		}
	}
	p.Lock()
	conns := append([]*peer.Conn(nil), p.Conns()...)
	p.Unlock()
	attempts := len(want)
	if !stopped {
		attempts++
	}
	if len(conns) != attempts {
		return fmt.Errorf("%d connection attempts, want %d", len(conns), attempts)
	}
	for i := 1; i < len(conns); i++ {
		if gap := conns[i].AcceptedAt.Sub(calls[i-1].at); gap < calls[i-1].delay {
			return fmt.Errorf("attempt %d was made %s after the failure before it instead of %s", i, gap, calls[i-1].delay)
		}
	}
	c.ClassIf(stopped, "the backoff gave up")
	c.ClassIf(plan.Use, "handlers use the container")
	for i, s := range plan.Conns {
		if i < len(want) {
			c.Class(s.Stage + " " + s.Act)
			c.ClassIf(s.OKs > 0 && i > 0, "lost after it worked")
		}
	}
	if len(want) > 1 {
		c.NonTrivial()
	}
	return nil
}

func TestC26(t *testing.T) {
	vt.Check(t, vt.Spec[C26Plan]{
		ID:   "C26",
		Rule: "1 to 7 connections that fail in the handshake, when a link attaches or after 0 to 3 successful operations, in drawn ways; a backoff policy with drawn delays that may give up; 1 to 3 handlers. Reports, delays, connection attempts and the use of the backoff policy are compared with what the plan implies. Non-trivial: at least two failures.",
		Gen:  genC26, Run: runC26, Quick: 2400, Thorough: 60000, Trace: true,
	})
}

// C26DialPlan is a plan of C26_dial: containers that cannot connect, in virtual
// time.
type C26DialPlan struct {
	Containers int    `json:"containers"`
	Default    bool   `json:"default,omitempty"`
	Delays     []int  `json:"delays_ms,omitempty"`
	Stop       int    `json:"stop,omitempty"`
	Handlers   []int  `json:"handlers"` // when each is registered, ms
	EndMs      int    `json:"end_ms"`
	Address    string `json:"address"`
}

func genC26Dial(t *rapid.T) C26DialPlan {
	p := C26DialPlan{
		Containers: rapid.IntRange(1, 3).Draw(t, "containers"),
		Default:    rapid.IntRange(0, 2).Draw(t, "default") == 0,
		Stop:       rapid.SampledFrom([]int{0, 0, 1, 2, 5, 40}).Draw(t, "stop"),
		EndMs:      rapid.SampledFrom([]int{0, 1, 300, 5000, 60000, 3600000, 86400000}).Draw(t, "end"),
		Address:    rapid.SampledFrom([]string{"bad://127.0.0.1", "nope://x", "amqp://%zz"}).Draw(t, "address"),
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "handlers"); i < n; i++ {
		p.Handlers = append(p.Handlers, rapid.SampledFrom([]int{0, 0, 1, 500, 4000}).Draw(t, "handler"))
	}
	if p.Default {
		p.Stop = 0
		return p
	}
	p.Containers = 1
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "delays"); i < n; i++ {
		p.Delays = append(p.Delays, rapid.SampledFrom([]int{1, 5, 100, 1000, 60000, 7200000}).Draw(t, "delay"))
	}
	if last := len(p.Delays) - 1; p.Stop == 0 && p.Delays[last] < p.EndMs/2000 {
		p.Delays[last] = p.EndMs/2000 + 1
	}
	return p
}

func runC26Dial(t *testing.T) func(c *vt.Case, plan C26DialPlan) error {
	return func(c *vt.Case, plan C26DialPlan) error {
		return vt.Bubble(t, func() error { return runC26DialIn(c, plan) })
	}
}

func runC26DialIn(c *vt.Case, plan C26DialPlan) error {
	ms := time.Millisecond
	cfg := session.ContainerConfig{}
	policy := &scripted{stop: plan.Stop}
	if !plan.Default {
		for _, d := range plan.Delays {
			policy.delays = append(policy.delays, time.Duration(d)*ms)
		}
		cfg.BackOff = policy
	}
	factory := session.NewContainerFactory(plan.Address, cfg)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	t0 := time.Now()
	logs := make([][]*notices, plan.Containers)
	for i := range logs {
		cont := factory.Create()
		for _, at := range plan.Handlers {
			n := &notices{}
			logs[i] = append(logs[i], n)
			if at == 0 {
				cont.OnSessionError(n.handle)
			} else {
				time.AfterFunc(time.Duration(at)*ms+ms/2, func() { cont.OnSessionError(n.handle) })
			}
		}
		cont.Start(ctx)
	}
	time.Sleep(time.Duration(plan.EndMs)*ms + ms/4)
	end := time.Now()
	cancel()
	time.Sleep(time.Hour)
	count := 0
	for i := range logs {
		for h, l := range logs[i] {
			registered := t0
			if at := plan.Handlers[h]; at > 0 {
				registered = t0.Add(time.Duration(at)*ms + ms/2)
			}
			got := l.list()
			if h == 0 {
				count = len(got)
			}
			if len(got) > 0 && got[len(got)-1].at.After(end) {
				return fmt.Errorf("an error was reported after the container's context had ended: %v", got[len(got)-1].err)
			}
			if plan.Default {
				next := registered
				for k, n := range got {
					if !n.retry {
						return fmt.Errorf("the default backoff ended attempts: report %d at %s: %v", k, n.at.Sub(t0), n.err)
					}
					if k == 0 && registered.Equal(t0) && n.at != t0 {
						return fmt.Errorf("the first attempt was made %s after the start", n.at.Sub(t0))
					}
					if k > 0 && n.at != next {
						return fmt.Errorf("an attempt was made at %s instead of %s", n.at.Sub(t0), next.Sub(t0))
					}
					next = n.at.Add(n.delay)
					if registered.Equal(t0) {
						// about 250 ms growing to 30 s
						if lim := 45 * time.Second; n.delay > lim || n.delay <= 0 {
							return fmt.Errorf("the default backoff has a delay of %s", n.delay)
						}
						if k == 0 && (n.delay < 100*ms || n.delay > 500*ms) {
							return fmt.Errorf("the default backoff begins with a delay of %s", n.delay)
						}
						if k > 24 && n.delay < 10*time.Second {
							return fmt.Errorf("the delays of the default backoff do not grow: the %dth is %s", k, n.delay)
						}
					}
				}
				if registered.Before(end) && registered.Equal(t0) && !next.After(end) {
					return fmt.Errorf("no attempt was made at %s", next.Sub(t0))
				}
				continue
			}
			// exact
			at, k := t0, 0
			for n := 0; !at.After(end); n++ {
				d := policy.delayOf(n)
				if !at.Before(registered) {
					if k >= len(got) {
						return fmt.Errorf("the failure at %s was not reported", at.Sub(t0))
					}
					g := got[k]
					switch {
					case g.at != at:
						return fmt.Errorf("an error was reported at %s, the failure was at %s", g.at.Sub(t0), at.Sub(t0))
					case g.retry != (d != backoff.Stop):
						return fmt.Errorf("report %d (%v): retryable %v, but the backoff policy said %s", k, g.err, g.retry, d)
					case g.retry && g.delay != d:
						return fmt.Errorf("report %d says that the next attempt is made after %s, want %s", k, g.delay, d)
					}
					k++
				}
				if d == backoff.Stop {
					break
				}
				at = at.Add(d)
			}
			if k != len(got) {
				return fmt.Errorf("%d errors were reported, want %d", len(got), k)
			}
		}
	}
	c.ClassIf(plan.Default, "default backoff")
	c.ClassIf(plan.Stop > 0 && count > plan.Stop, "the backoff gave up")
	if count > 1 {
		c.NonTrivial()
	}
	return nil
}

func TestC26_dial(t *testing.T) {
	vt.Check(t, vt.Spec[C26DialPlan]{
		ID:   "C26",
		Rule: "1 to 3 containers of one factory that cannot connect, with the default or a drawn backoff policy, for up to a day of virtual time; handlers registered before and after the start; the container's context ends at a drawn time. Times and contents of all reports are compared with the policy. Non-trivial: at least two failures.",
		Gen:  genC26Dial, Run: runC26Dial(t), Quick: 1200, Thorough: 20000, Trace: true,
	})
}
