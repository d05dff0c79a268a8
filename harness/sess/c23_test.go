package sess

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"
	"pgregory.net/rapid"

	"vanflowverif/peer"
	"vanflowverif/vt"
)

// FLink is a link of a C23 plan.
type FLink struct {
	Sender  bool `json:"sender,omitempty"`
	Addr    int  `json:"addr"`
	When    int  `json:"when"` // 0 before start, 1 after start, 2 in the second round
	Workers int  `json:"workers"`
	Credit  int  `json:"credit,omitempty"`
	N       int  `json:"n"` // messages per worker and round
}

// FRound is a round of a C23 plan: a fault that strikes while nothing is
// going on, then traffic.
type FRound struct {
	Idle string `json:"idle,omitempty"`
	Ms   int    `json:"ms,omitempty"`
}

// C23Plan is a plan of C23.
type C23Plan struct {
	Links     []FLink      `json:"links"`
	Faults    []peer.Fault `json:"faults"`
	Rounds    []FRound     `json:"rounds"`
	BackoffMs int          `json:"backoff_ms"`
	Early     bool         `json:"early,omitempty"` // traffic begins before the container is started
}

func genC23(t *rapid.T) C23Plan {
	p := C23Plan{
		BackoffMs: rapid.IntRange(0, 3).Draw(t, "backoff"),
		Early:     rapid.Bool().Draw(t, "early"),
	}
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "links"); i < n; i++ {
		p.Links = append(p.Links, FLink{
			Sender:  rapid.Bool().Draw(t, "sender"),
			Addr:    i, // one receiver per address, so that every receiver has messages to come
			When:    rapid.IntRange(0, 2).Draw(t, "when"),
			Workers: rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "workers"),
			Credit:  rapid.SampledFrom([]int{0, 1, 5, 100}).Draw(t, "credit"),
			N:       rapid.IntRange(1, 4).Draw(t, "n"),
		})
	}
	p.Faults = drawFaults(t, rapid.IntRange(0, 6).Draw(t, "faults"), 14)
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "rounds"); i < n; i++ {
		r := FRound{}
		if i > 0 && rapid.IntRange(0, 2).Draw(t, "idle?") > 0 {
			r.Idle = rapid.SampledFrom(peer.Acts).Draw(t, "idle")
			r.Ms = rapid.IntRange(0, 10).Draw(t, "ms")
		}
		p.Rounds = append(p.Rounds, r)
	}
	return p
}

type fLink struct {
	FLink
	s session.Sender
	r session.Receiver

	mu   sync.Mutex
	got  map[string]int
	want map[string]bool
	done chan struct{}
}

func runC23(c *vt.Case, plan C23Plan) error {
	p, err := peer.New(peer.Options{Faults: plan.Faults})
	if err != nil {
		vt.Abort("peer: %v", err)
	}
	defer p.Close()
	cont := newContainer(p, constant(plan.BackoffMs))
	var errs errLog
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	links := make([]*fLink, len(plan.Links))
	create := func(when int) {
		for i, l := range plan.Links {
			w := l.When
			if w == 2 && len(plan.Rounds) < 2 {
				w = 1
			}
			if w != when {
				continue
			}
			f := &fLink{FLink: l, got: map[string]int{}, want: map[string]bool{}}
			if l.Sender {
				f.s = cont.NewSender(addrName(l.Addr), session.SenderOptions{})
			} else {
				f.r = cont.NewReceiver(addrName(l.Addr), session.ReceiverOptions{Credit: l.Credit})
			}
			links[i] = f
		}
	}
	create(0)
	failures := 0
	var mu sync.Mutex
	start := func() { cont.Start(ctx); create(1) }
	if !plan.Early {
		start()
	}
	for ri, round := range plan.Rounds {
		if ri == 1 {
			create(2)
		}
		if round.Idle != "" {
			p.Inject(round.Idle, round.Ms)
		}
		var wg sync.WaitGroup
		var rctxs []context.CancelFunc
		var rwg sync.WaitGroup
		begun := make([]bool, len(links))
		begin := func() {
			for li, l := range links {
				if l == nil || begun[li] {
					continue
				}
				begun[li] = true
				if l.Sender {
					for w := 0; w < l.Workers; w++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							for i := 0; i < l.N; i++ {
								for try := 0; ; try++ {
									m := body("%d.%d.%d.%d.%d", li, ri, w, i, try)
									raw := wire(m)
									if err := l.s.Send(ctx, m); err != nil {
										if try > 20000 {
											errs.add("sender %d failed %d times in a row, last: %v", li, try, err)
											return
										}
										mu.Lock()
										failures++
										mu.Unlock()
										continue
									}
									if n := receivedOn(p, addrName(l.Addr), raw); n != 1 {
										errs.add("a send of sender %d succeeded, but the peer received the message %d times", li, n)
									}
									break
								}
							}
						}()
					}
					continue
				}
				l.mu.Lock()
				for i := 0; i < l.N*l.Workers; i++ {
					raw := wire(body("m%d.%d.%d", li, ri, i))
					l.want[string(raw)] = true
					p.Enqueue(addrName(l.Addr), raw, false)
				}
				l.done = make(chan struct{})
				l.mu.Unlock()
				rctx, rcancel := context.WithCancel(ctx)
				rctxs = append(rctxs, rcancel)
				wg.Add(1)
				done := l.done
				go func() { defer wg.Done(); <-done }()
				for w := 0; w < l.Workers; w++ {
					rwg.Add(1)
					go func() {
						defer rwg.Done()
						for {
							m, err := l.r.Next(rctx)
							if err != nil {
								if rctx.Err() == nil {
									errs.add("receiver %d: Next returned %v", li, err)
								}
								return
							}
							raw := wire(&amqp.Message{Data: m.Data})
							l.mu.Lock()
							if !l.want[string(raw)] {
								errs.add("receiver %d returned a message the peer did not send: %q", li, m.GetData())
							}
							l.got[string(raw)]++
							if len(l.got) == len(l.want) && l.done != nil {
								close(l.done)
								l.done = nil
							}
							l.mu.Unlock()
							l.r.Accept(ctx, m)
						}
					}()
				}
			}
		}
		begin()
		if ri == 0 && plan.Early {
			start()
			begin()
		}
		wg.Wait()
		for _, f := range rctxs {
			f()
		}
		rwg.Wait()
		if errs.err() != nil {
			return errs.err()
		}
	}
	p.Lock()
	struck := append([]string(nil), p.Struck...)
	nconns := len(p.Conns())
	p.Unlock()
	if !p.WaitFor(long, func() bool { return p.OpenConns() <= 1 }) {
		p.Lock()
		defer p.Unlock()
		return fmt.Errorf("%d connections are left open", p.OpenConns())
	}
	cancel()
	if !p.WaitFor(long, func() bool { return p.OpenConns() == 0 }) {
		return fmt.Errorf("a connection is left open after the container's context ended")
	}
	for _, s := range struck {
		c.Class("fault " + s)
	}
	idle := false
	for _, r := range plan.Rounds {
		if r.Idle != "" {
			idle = true
			c.Class("idle fault " + r.Idle)
		}
	}
	c.ClassIf(failures > 0, "a send failed")
	c.ClassIf(nconns > 1, "reconnected")
	c.ClassIf(plan.Early, "traffic before the start")
	if len(struck) > 0 || idle {
		c.NonTrivial()
	}
	return errs.err()
}

func TestC23(t *testing.T) {
	vt.Check(t, vt.Spec[C23Plan]{
		ID:   "C23",
		Rule: "1 to 5 senders and receivers (made before or after the start or later, used by 1 to 3 goroutines each), up to 6 faults at drawn points of the exchange (any frame, 14 kinds), up to 3 faults while idle; every worker sends until its messages succeed, receivers must get everything enqueued. Non-trivial: a fault struck.",
		Gen:  genC23, Run: runC23, Quick: 1600, Thorough: 40000, Trace: true,
	})
}

// C23StallPlan is a set of stalls, which are gone through at the same time as
// each takes a minute to be noticed.
type C23StallPlan struct {
	Stalls []FStall `json:"stalls"`
}

// FStall is a connection that stalls for good, some way into the exchange.
type FStall struct {
	At   int  `json:"at"`
	Idle bool `json:"idle,omitempty"` // stall when everything worked before
	// Detach a link first; the connection that replaces the stalled one is
	// dropped in turn
	Detach bool    `json:"detach,omitempty"`
	Links  []FLink `json:"links"`
}

func genC23Stall(t *rapid.T) C23StallPlan {
	var p C23StallPlan
	for i, n := 0, rapid.IntRange(12, 24).Draw(t, "stalls"); i < n; i++ {
		s := FStall{At: rapid.IntRange(0, 12).Draw(t, "at"), Idle: rapid.IntRange(0, 3).Draw(t, "idle") == 0}
		s.Detach = s.Idle && rapid.Bool().Draw(t, "detach")
		if i < 4 {
			s.At, s.Idle, s.Detach = i, false, false // the handshake
		}
		for j, n := 0, rapid.IntRange(1, 3).Draw(t, "links"); j < n; j++ {
			s.Links = append(s.Links, FLink{
				Sender: rapid.Bool().Draw(t, "sender"),
				Addr:   j,
				When:   rapid.IntRange(0, 1).Draw(t, "when"),
				N:      rapid.IntRange(1, 4).Draw(t, "n"),
				Credit: rapid.SampledFrom([]int{0, 1, 5}).Draw(t, "credit"),
			})
		}
		p.Stalls = append(p.Stalls, s)
	}
	return p
}

// stallLimit is when links must have recovered from a stalled connection: the
// connection attempt is given up on after 30 s, an established connection after
// a minute without a sign of life.
const stallLimit = 120 * time.Second

func runStall(c *vt.Case, s FStall, limit <-chan time.Time) error {
	opts := peer.Options{}
	if !s.Idle {
		opts.Faults = []peer.Fault{{At: s.At, Act: "stall", Ms: -1}}
	}
	p, err := peer.New(opts)
	if err != nil {
		vt.Abort("peer: %v", err)
	}
	defer p.Close()
	cont := newContainer(p, constant(5))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	snds, rcvs := make([]session.Sender, len(s.Links)), make([]session.Receiver, len(s.Links))
	create := func(when int) {
		for i, l := range s.Links {
			if l.When != when {
				continue
			}
			if l.Sender {
				snds[i] = cont.NewSender(addrName(l.Addr), session.SenderOptions{})
			} else {
				rcvs[i] = cont.NewReceiver(addrName(l.Addr), session.ReceiverOptions{Credit: l.Credit})
			}
		}
	}
	create(0)
	cont.Start(ctx)
	create(1)
	round := func(r int) error {
		limit := limit
		if s.Detach && r == 2 {
			// long before the stalled connection is given up
			l := make(chan time.Time)
			defer time.AfterFunc(40*time.Second, func() { close(l) }).Stop()
			limit = l
		}
		results := make(chan error, len(s.Links))
		for i, l := range s.Links {
			go func() {
				for k := 0; k < l.N; k++ {
					raw := wire(body("%d.%d.%d", i, r, k))
					if l.Sender {
						for try := 0; ; try++ {
							err := snds[i].Send(ctx, body("%d.%d.%d", i, r, k))
							if err == nil {
								break
							}
							if ctx.Err() != nil {
								return
							}
							time.Sleep(time.Millisecond)
						}
						if receivedOn(p, addrName(l.Addr), raw) == 0 {
							results <- fmt.Errorf("a send succeeded, but the peer did not receive the message")
							return
						}
						continue
					}
					p.Enqueue(addrName(l.Addr), raw, false)
					for {
						m, err := rcvs[i].Next(ctx)
						if err != nil {
							if ctx.Err() == nil {
								results <- fmt.Errorf("Next returned %v", err)
							}
							return
						}
						rcvs[i].Accept(ctx, m)
						if string(wire(&amqp.Message{Data: m.Data})) == string(raw) {
							break
						}
					}
				}
				results <- nil
			}()
		}
		for range s.Links {
			select {
			case err := <-results:
				if err != nil {
					return err
				}
			case <-limit:
				return fmt.Errorf("a connection stalled (event %d, idle %v, detach %v), and a sender or receiver did not work again in time", s.At, s.Idle, s.Detach)
			}
		}
		return nil
	}
	if s.Idle {
		if err := round(0); err != nil {
			return err
		}
		if s.Detach {
			p.Inject("detach_stall", 0)
		} else {
			p.Inject("stall", -1)
		}
	}
	if err := round(1); err != nil {
		return err
	}
	if s.Detach {
		p.Inject("drop", 0)
	}
	if err := round(2); err != nil {
		return err
	}
	if !p.WaitFor(20*time.Second, func() bool { return p.OpenConns() <= 1 }) {
		return fmt.Errorf("a connection that stalled (event %d, idle %v, detach %v) was replaced but is left open", s.At, s.Idle, s.Detach)
	}
	return nil
}

func runC23Stall(c *vt.Case, plan C23StallPlan) error {
	errs := make(chan error, len(plan.Stalls))
	expired := make(chan time.Time)
	defer time.AfterFunc(stallLimit, func() { close(expired) }).Stop()
	for _, s := range plan.Stalls {
		c.ClassIf(s.Idle, "idle stall")
		c.ClassIf(!s.Idle, fmt.Sprintf("stall at event %d", s.At))
		go func() { errs <- runStall(c, s, expired) }()
	}
	var first error
	for range plan.Stalls {
		if err := <-errs; err != nil && first == nil {
			first = err
		}
	}
	c.NonTrivial()
	return first
}

func TestC23_stall(t *testing.T) {
	vt.Check(t, vt.Spec[C23StallPlan]{
		ID:   "C23",
		Rule: "12 to 24 containers at a time with 1 to 3 senders and receivers each; the connection stalls for good without being closed, at a drawn point of the handshake or exchange or when idle. Everything must work again within two minutes. Always non-trivial.",
		Gen:  genC23Stall, Run: runC23Stall, Quick: 4, Thorough: 40, Trace: true, HangTicks: 20000, NoShrink: true,
	})
}
