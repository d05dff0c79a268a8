package sess

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"
	"pgregory.net/rapid"

	"vanflowverif/vt"
)

// ROp is an operation on the in-memory router.
type ROp struct {
	Op      string `json:"op"` // receiver, sender, send, next, close_r, close_s, cancel
	Addr    int    `json:"addr,omitempty"`
	Cont    int    `json:"cont,omitempty"`
	Credit  int    `json:"credit,omitempty"`
	I       int    `json:"i,omitempty"` // which receiver, sender or waiting send
	N       int    `json:"n,omitempty"` // how many
	Ended   bool   `json:"ended,omitempty"`
	Timeout bool   `json:"timeout,omitempty"` // the context ends while the operation waits
	Drain   bool   `json:"drain,omitempty"`   // next: until there is none left
}

// spread writes out openings of many receivers and draining some of them.
func spread(ops []ROp) (out []ROp) {
	n := 0
	for _, o := range ops {
		switch o.Op {
		case "receiver":
			k := max(1, o.N)
			n += k
			for o.N = 0; k > 0; k-- {
				out = append(out, o)
			}
		case "drain":
			if n == 0 {
				continue
			}
			for _, i := range []int{0, n / 2, n - 1} { // some of them
				out = append(out, ROp{Op: "next", I: i, N: 1 << 20, Drain: true})
			}
		default:
			out = append(out, o)
		}
	}
	return out
}

type C27Plan struct {
	Ops []ROp `json:"ops"`
}

type expected struct {
	id       int
	optional bool
	group    int // messages of one group come in any order
}

type mReceiver struct {
	r      session.Receiver
	addr   int
	credit int
	queue  []expected
	closed bool
}

type mSender struct {
	s      session.Sender
	addr   int
	closed bool
}

type waitingSend struct {
	id, addr int
	cancel   context.CancelFunc
	done     chan error
	on       *mReceiver // full receiver it waits for; nil: no receiver on the address
}

func runC27(c *vt.Case, p C27Plan) error {
	router := session.NewMockRouter()
	conts := []session.Container{session.NewMockContainer(router), session.NewMockContainer(router), session.NewMockContainer(router)}
	addr := func(i int) string { return []string{"a", "b", "mc/c", ""}[i%4] }
	var recvs []*mReceiver
	var senders []*mSender
	var waiting []*waitingSend
	ids, group := 0, 0
	ever := map[int]bool{}
	delivered := 0
	ctx, cancelAll := context.WithCancel(context.Background())
	defer cancelAll()
	defer func() {
		for _, w := range waiting {
			w.cancel()
		}
		for _, r := range recvs {
			r.r.Close(ctx)
		}
		synctest.Wait()
	}()
	full := func(a int) *mReceiver { // a receiver that would block a send
		for _, r := range recvs {
			n := 0
			for _, e := range r.queue {
				if !e.optional {
					n++
				}
			}
			if r.addr == a && !r.closed && n >= r.credit {
				return r
			}
		}
		return nil
	}
	unclear := func(a int) bool { // whether a send would block
		for _, r := range recvs {
			if r.addr != a || r.closed || len(r.queue) < r.credit {
				continue
			}
			for _, e := range r.queue {
				if e.optional {
					return true
				}
			}
		}
		return false
	}
	completed := func(id int) {
		for _, r := range recvs {
			for i := range r.queue {
				if r.queue[i].id == id {
					r.queue[i].optional = false
				}
			}
		}
	}
	blockedOn := func(a int) *waitingSend {
		for _, w := range waiting {
			if w.addr == a && w.on != nil {
				return w
			}
		}
		return nil
	}
	remove := func(w *waitingSend) {
		for i := range waiting {
			if waiting[i] == w {
				waiting = append(waiting[:i], waiting[i+1:]...)
				return
			}
		}
	}
	deliver := func(a, id int, optional bool, g int) {
		for _, r := range recvs {
			if r.addr == a && !r.closed {
				r.queue = append(r.queue, expected{id, optional, g})
				delivered++
			}
		}
	}
	state := func(w *waitingSend) (error, bool) {
		synctest.Wait()
		select {
		case err := <-w.done:
			return err, true
		default:
			return nil, false
		}
	}
	message := func(id int) *amqp.Message {
		f := FMsg{Kind: []string{"data", "value", "sequence", "multi"}[id%4], Bare: id%3 == 0, Full: id%5 == 0, Footer: id%7 == 0}
		return f.build(fmt.Sprint(id, "."))
	}
	// take checks a received message
	take := func(r *mReceiver, m *amqp.Message) error {
		var id int
		if _, err := fmt.Sscanf(idOf(m), "%d.", &id); err != nil {
			return fmt.Errorf("message received is %+v", m)
		}
		if got, sent := wire(m), wire(message(id)); !bytes.Equal(got, sent) {
			return fmt.Errorf("message %d was received as %q, it was sent as %q", id, got, sent)
		}
		for i, e := range r.queue {
			if e.id == id {
				r.queue = append(append([]expected{}, r.queue[:i]...), r.queue[i+1:]...)
				return nil
			}
			// may be passed over when optional or of the same group
			if e.optional {
				continue
			}
			if e.group > 0 {
				same := false
				for _, o := range r.queue[i:] {
					same = same || o.id == id && o.group == e.group
				}
				if same {
					continue
				}
			}
			return fmt.Errorf("received message %d on %q, want %d", id, addr(r.addr), e.id)
		}
		return fmt.Errorf("received message %d on %q, which was not sent to it (or again)", id, addr(r.addr))
	}
	mandatory := func(r *mReceiver) bool {
		for _, e := range r.queue {
			if !e.optional {
				return true
			}
		}
		return false
	}
	for n, o := range spread(p.Ops) {
		a := o.Addr % 4
		fail := func(format string, args ...any) error {
			return fmt.Errorf("operation %d (%s): %w", n, o.Op, fmt.Errorf(format, args...))
		}
		switch o.Op {
		case "receiver":
			if blockedOn(a) != nil {
				continue
			}
			r := &mReceiver{addr: a, credit: o.Credit, r: conts[o.Cont%3].NewReceiver(addr(a), session.ReceiverOptions{Credit: o.Credit})}
			if o.Credit <= 0 {
				r.credit = 256
			}
			recvs = append(recvs, r)
			ever[a] = true
			group++
			// sends that waited for it
			k := 0
			var done []*waitingSend
			for _, w := range waiting {
				if w.addr == a {
					done = append(done, w)
				}
			}
			if len(done) > r.credit+1 {
				return nil // several would block
			}
			var left *waitingSend // has no room
			for _, w := range done {
				err, ok := state(w)
				if !ok && len(done) > r.credit && left == nil {
					left = w
					continue
				}
				if !ok || err != nil {
					return fail("a send that waited for a receiver: returned is %v, error %v", ok, err)
				}
				deliver(a, w.id, false, group)
				remove(w)
				k++
			}
			if len(done) > r.credit && left == nil {
				return fail("%d sends that waited returned, with room for %d", len(done), r.credit)
			}
			if left != nil {
				left.on = r
				deliver(a, left.id, true, 0)
				c.Class("a send that waited for a receiver waits for room")
			}
			if k > 0 {
				c.Class("sends wait for a receiver")
			}
		case "sender":
			senders = append(senders, &mSender{addr: a, s: conts[o.Cont%3].NewSender(addr(a), session.SenderOptions{})})
		case "send":
			if len(senders) == 0 {
				continue
			}
			s := senders[o.I%len(senders)]
			for k := 0; k < max(1, o.N); k++ {
				if blockedOn(s.addr) != nil {
					break
				}
				if unclear(s.addr) {
					return nil
				}
				id := ids
				ids++
				sctx, cancel := context.WithCancel(ctx)
				if o.Ended {
					cancel()
				} else if o.Timeout {
					sctx, cancel = context.WithTimeout(ctx, time.Second)
				}
				w := &waitingSend{id: id, addr: s.addr, cancel: cancel, done: make(chan error, 1)}
				go func() { w.done <- s.s.Send(sctx, message(id)) }()
				err, ok := state(w)
				blocker := full(s.addr)
				switch {
				case s.closed || o.Ended:
					if !ok || err == nil {
						return fail("on a closed sender or with an ended context: returned is %v, error %v", ok, err)
					}
					cancel()
				case !ever[s.addr] || blocker != nil:
					if ok {
						return fail("returned (%v), but nobody has taken the message", err)
					}
					w.on = blocker
					if blocker != nil { // those with room may have it already
						deliver(s.addr, id, true, 0)
					}
					if o.Timeout {
						time.Sleep(2 * time.Second)
						err, ok := state(w)
						if !ok || !errors.Is(err, context.DeadlineExceeded) {
							return fail("its context has ended: returned is %v, error %v", ok, err)
						}
						c.Class("context of a waiting send ends")
						cancel()
						break
					}
					waiting = append(waiting, w)
				default:
					if !ok || err != nil {
						return fail("returned is %v, error %v", ok, err)
					}
					deliver(s.addr, id, false, 0)
					cancel()
				}
			}
		case "next":
			if len(recvs) == 0 {
				continue
			}
			r := recvs[o.I%len(recvs)]
			for k := 0; k < max(1, o.N); k++ {
				rctx, cancel := context.WithTimeout(ctx, time.Second)
				if o.Ended {
					cancel()
				}
				var m *amqp.Message
				var err error
				done := make(chan struct{})
				go func() { defer close(done); m, err = r.r.Next(rctx) }()
				synctest.Wait()
				early := false
				select {
				case <-done:
					early = true
				default:
					time.Sleep(2 * time.Second)
					<-done
				}
				cancel()
				switch {
				case err == nil && r.closed:
					return fail("a closed receiver received a message")
				case err == nil && !early:
					return fail("received a message although none was waiting")
				case err == nil:
					if err := take(r, m); err != nil {
						return fail("%w", err)
					}
					if err := r.r.Accept(ctx, m); err != nil {
						return fail("accepting: %v", err)
					}
					// a blocked send goes on
					if w := blockedOn(r.addr); w != nil {
						werr, ok := state(w)
						b := full(r.addr)
						switch {
						case ok && werr != nil:
							return fail("a send that waited for room failed: %v", werr)
						case ok:
							completed(w.id)
							remove(w)
							c.Class("send waits for room")
						case b == nil:
							return fail("a send is blocked although every receiver has room")
						default:
							w.on = b
						}
					}
				case r.closed:
				case mandatory(r) && !o.Ended:
					return fail("no message, though %d are waiting: %v", len(r.queue), err)
				case !early && !o.Ended && !errors.Is(err, context.DeadlineExceeded):
					return fail("waiting for a message: %v", err)
				case early && !o.Ended && !errors.Is(err, context.DeadlineExceeded):
					return fail("an open receiver: %v", err)
				default:
					if !mandatory(r) && !o.Ended {
						// what was optional did not come
						w := blockedOn(r.addr)
						var keep []expected
						for _, e := range r.queue {
							if w != nil && e.id == w.id {
								keep = append(keep, e)
							}
						}
						r.queue = keep
					}
				}
				if err != nil && o.Drain {
					break
				}
			}
		case "close_r":
			if len(recvs) == 0 {
				continue
			}
			r := recvs[o.I%len(recvs)]
			if err := r.r.Close(ctx); err != nil {
				return fail("%v", err)
			}
			if r.closed {
				continue
			}
			r.closed = true
			if w := blockedOn(r.addr); w != nil {
				err, ok := state(w)
				b := full(r.addr)
				if b == nil && (!ok || err != nil) {
					return fail("a send is held up by closed receivers: returned is %v, error %v", ok, err)
				}
				if ok {
					completed(w.id)
					remove(w)
				} else {
					w.on = b
				}
				c.Class("full receiver is closed")
			}
		case "next_close": // closed while receives wait
			if len(recvs) == 0 {
				continue
			}
			r := recvs[o.I%len(recvs)]
			if r.closed || len(r.queue) > 0 {
				continue
			}
			type outcome struct {
				m   *amqp.Message
				err error
			}
			outcomes := make(chan outcome, o.N)
			for k := 0; k < o.N; k++ {
				go func() {
					m, err := r.r.Next(ctx)
					outcomes <- outcome{m, err}
				}()
			}
			synctest.Wait()
			if len(outcomes) > 0 {
				return fail("a receive returned although nothing was sent")
			}
			if err := r.r.Close(ctx); err != nil {
				return fail("%v", err)
			}
			r.closed = true
			synctest.Wait()
			if len(outcomes) < o.N {
				return fail("%d of %d waiting receives have not ended with the receiver", o.N-len(outcomes), o.N)
			}
			for k := 0; k < o.N; k++ {
				if x := <-outcomes; x.err == nil {
					return fail("a waiting receive returned %v and no error when the receiver was closed", x.m)
				}
			}
			c.Class("receiver is closed while receives wait")
		case "close_s":
			if len(senders) == 0 {
				continue
			}
			s := senders[o.I%len(senders)]
			if err := s.s.Close(ctx); err != nil {
				return fail("%v", err)
			}
			s.closed = true
		case "cancel":
			if len(waiting) == 0 {
				continue
			}
			w := waiting[o.I%len(waiting)]
			w.cancel()
			err, ok := state(w)
			if !ok || !errors.Is(err, context.Canceled) {
				return fail("a waiting send: returned is %v, error %v", ok, err)
			}
			remove(w)
			c.Class("waiting send is cancelled")
		}
	}
	if delivered > 2 {
		c.NonTrivial()
	}
	c.ClassIf(ids > 256, "more than 256 messages")
	return nil
}

func genC27(t *rapid.T) C27Plan {
	var p C27Plan
	kinds := []string{"receiver", "receiver", "sender", "sender", "send", "send", "send", "send", "next", "next", "next", "next", "close_r", "next_close", "close_s", "cancel"}
	p.Ops = append(p.Ops, ROp{Op: "sender"}, ROp{Op: "sender", Addr: rapid.IntRange(0, 3).Draw(t, "addr2"), Cont: 1})
	if rapid.IntRange(0, 2).Draw(t, "early") > 0 {
		p.Ops = append(p.Ops, ROp{Op: "receiver", Credit: rapid.SampledFrom([]int{0, 2, 3, 10}).Draw(t, "credit0")})
	}
	for i := rapid.IntRange(1, 40).Draw(t, "ops"); i > 0; i-- {
		o := ROp{Op: rapid.SampledFrom(kinds).Draw(t, "op"), Addr: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "addr"), Cont: rapid.IntRange(0, 2).Draw(t, "cont"), I: rapid.IntRange(0, 6).Draw(t, "i")}
		switch o.Op {
		case "receiver":
			o.Credit = rapid.SampledFrom([]int{0, 1, 1, 2, 3, 4, 10, 256, 700, -1}).Draw(t, "credit")
			if rapid.IntRange(0, 99).Draw(t, "many") == 0 {
				o.N = rapid.SampledFrom([]int{5, 20, 40, 70}).Draw(t, "receivers")
				o.Credit = max(10, o.Credit)
			}
		case "send":
			o.N = rapid.SampledFrom([]int{1, 1, 1, 1, 2, 2, 5, 5, 20, 20, 300}).Draw(t, "n")
			if rapid.IntRange(0, 199).Draw(t, "lots") == 0 {
				o.N = 800
			}
			o.Ended = rapid.IntRange(0, 9).Draw(t, "ended") == 0
			o.Timeout = rapid.IntRange(0, 3).Draw(t, "timeout") == 0
		case "next_close":
			o.N = rapid.IntRange(1, 2).Draw(t, "n")
		case "next":
			o.N = rapid.SampledFrom([]int{1, 1, 2, 5, 20, 300}).Draw(t, "n")
			o.Ended = rapid.IntRange(0, 9).Draw(t, "ended") == 0
		}
		p.Ops = append(p.Ops, o)
	}
	if rapid.IntRange(0, 3).Draw(t, "drain") == 0 {
		p.Ops = append(p.Ops, ROp{Op: "drain"})
	}
	return p
}

func TestC27(t *testing.T) {
	vt.Check(t, vt.Spec[C27Plan]{
		ID:   "C27",
		Rule: "histories of receivers (up to 70 at once), senders, sends (single, many, waiting for a receiver or for room, cancelled, timed out), receives and closings on four addresses and three containers of one router; every result is compared with a model of the queues; non-trivial: at least three deliveries",
		Gen:  genC27,
		Run: func(c *vt.Case, p C27Plan) error {
			return vt.Bubble(t, func() error { return runC27(c, p) })
		},
		Quick: 5000, Thorough: 300000,
	})
}

// C27cPlan is concurrent use.
type C27cPlan struct {
	Senders   []int `json:"senders"`   // messages of each
	Receivers []int `json:"receivers"` // messages after which each closes (-1: never)
	Credits   []int `json:"credits"`
	LateOpen  int   `json:"late_open"` // receivers opened while messages are sent
	Addrs     int   `json:"addrs"`
}

func runC27c(c *vt.Case, p C27cPlan) error {
	router := session.NewMockRouter()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg, rg sync.WaitGroup
	addr := func(i int) string { return fmt.Sprint("addr", i%p.Addrs) }
	type log struct {
		got    []string
		late   bool
		closed bool
		addr   string
	}
	logs := make([]*log, len(p.Receivers)+p.LateOpen)
	receive := func(i int, l *log, r session.Receiver, n int) {
		defer rg.Done()
		for n < 0 || len(l.got) < n {
			m, err := r.Next(ctx)
			if err != nil {
				return
			}
			l.got = append(l.got, string(m.GetData()))
		}
		l.closed = true
		r.Close(ctx)
	}
	for i, n := range p.Receivers {
		logs[i] = &log{addr: addr(i)}
		r := session.NewMockContainer(router).NewReceiver(addr(i), session.ReceiverOptions{Credit: p.Credits[i%len(p.Credits)]})
		rg.Add(1)
		go receive(i, logs[i], r, n)
	}
	has := func(a string) bool {
		for i := range p.Receivers {
			if addr(i) == a {
				return true
			}
		}
		return false
	}
	start := make(chan struct{})
	errs := make(chan error, len(p.Senders))
	for i, n := range p.Senders {
		if !has(addr(i)) {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			s := session.NewMockContainer(router).NewSender(addr(i), session.SenderOptions{})
			for k := 0; k < n; k++ {
				if err := s.Send(ctx, amqp.NewMessage([]byte(fmt.Sprintf("%d/%d", i, k)))); err != nil {
					errs <- fmt.Errorf("sender %d, message %d: %v", i, k, err)
					return
				}
			}
			s.Close(ctx)
		}()
	}
	for i := 0; i < p.LateOpen; i++ {
		l := &log{late: true, addr: addr(i)}
		logs[len(p.Receivers)+i] = l
		rg.Add(1)
		go func() {
			<-start
			receive(i, l, session.NewMockContainer(router).NewReceiver(addr(i), session.ReceiverOptions{}), -1)
		}()
	}
	close(start)
	wg.Wait() // sends wait for receivers only while they are open
	// let receivers drain: every open one must come to have everything
	select {
	case err := <-errs:
		return err
	default:
	}
	total := func(a string) (n int) {
		for i, k := range p.Senders {
			if addr(i) == a && has(a) {
				n += k
			}
		}
		return
	}
	// a marker on each address follows everything
	for i := range p.Receivers {
		if i < p.Addrs {
			session.NewMockContainer(router).NewSender(addr(i), session.SenderOptions{}).Send(ctx, amqp.NewMessage([]byte("end")))
		}
	}
	time.Sleep(time.Millisecond)
	cancel()
	rg.Wait()
	for i, l := range logs {
		next := map[int]int{}
		ended := false
		for _, g := range l.got {
			if g == "end" {
				ended = true
				continue
			}
			var s, k int
			if n, _ := fmt.Sscanf(g, "%d/%d", &s, &k); n != 2 || addr(s) != l.addr {
				return fmt.Errorf("receiver %d on %s got %q", i, l.addr, g)
			}
			want, seen := next[s]
			if seen && k != want || !seen && !l.late && k != 0 {
				return fmt.Errorf("receiver %d got message %d of sender %d, want %d", i, k, s, want)
			}
			next[s] = k + 1
		}
		if l.closed || !ended {
			continue // closed before the end, or not idle yet
		}
		if !l.late {
			n := 0
			for _, k := range next {
				n += k
			}
			if n != total(l.addr) {
				return fmt.Errorf("receiver %d got %d messages before the last one, want %d", i, n, total(l.addr))
			}
			if n > 3 {
				c.NonTrivial()
			}
		}
		c.ClassIf(l.late, "opened while messages are sent")
	}
	for _, l := range logs {
		c.ClassIf(l.closed, "closed while messages are sent")
	}
	return nil
}

func TestC27_Concurrent(t *testing.T) {
	vt.Check(t, vt.Spec[C27cPlan]{
		ID:   "C27",
		Rule: "one to five senders and up to six receivers on one or two addresses at once, receivers with little room that close or open meanwhile, under the race detector; order, completeness and that nobody is held up; non-trivial: an open receiver got at least four messages",
		Gen: func(t *rapid.T) C27cPlan {
			p := C27cPlan{Addrs: rapid.IntRange(1, 2).Draw(t, "addrs"), LateOpen: rapid.IntRange(0, 2).Draw(t, "late")}
			for i := rapid.IntRange(1, 5).Draw(t, "senders"); i > 0; i-- {
				p.Senders = append(p.Senders, rapid.IntRange(0, 60).Draw(t, "messages"))
			}
			for i := rapid.IntRange(1, 4).Draw(t, "receivers"); i > 0; i-- {
				p.Receivers = append(p.Receivers, rapid.SampledFrom([]int{-1, -1, 0, 1, 5, 30}).Draw(t, "closes"))
				p.Credits = append(p.Credits, rapid.SampledFrom([]int{0, 1, 2, 10}).Draw(t, "credit"))
			}
			return p
		},
		Run:   runC27c,
		Quick: 1500, Thorough: 80000,
	})
}
