package sess

import (
	"context"
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"
	"pgregory.net/rapid"

	"vanflowverif/peer"
	"vanflowverif/vt"
)

// C26EPlan is a container whose backoff gives up after some time, and whose
// sessions last longer than that.
type C26EPlan struct {
	Max      int    `json:"max"`   // ms after which the backoff gives up
	Lasts    []int  `json:"lasts"` // ms that each session lasts
	Act      string `json:"act"`
	Receiver bool   `json:"receiver"`
	// Unused sessions are lost without anything having been sent or received.
	Unused bool `json:"unused,omitempty"`
}

func genC26E(t *rapid.T) C26EPlan {
	p := C26EPlan{
		Max:      rapid.SampledFrom([]int{50, 300, 1000}).Draw(t, "max"),
		Act:      rapid.SampledFrom([]string{"drop", "reset", "close", "end", "detach"}).Draw(t, "act"),
		Receiver: rapid.Bool().Draw(t, "receiver"),
	}
	for i := rapid.IntRange(1, 4).Draw(t, "losses"); i > 0; i-- {
		p.Lasts = append(p.Lasts, rapid.SampledFrom([]int{0, 100, 400, 1200}).Draw(t, "lasts"))
	}
	return p
}

func runC26E(c *vt.Case, plan C26EPlan) error {
	p, err := peer.New(peer.Options{})
	if err != nil {
		vt.Abort("peer: %v", err)
	}
	defer p.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	b := backoff.NewExponentialBackOff()
	b.InitialInterval, b.MaxInterval, b.MaxElapsedTime = time.Millisecond, 5*time.Millisecond, time.Duration(plan.Max)*time.Millisecond
	cont := newContainer(p, b)
	var fatal atomic.Value
	cont.OnSessionError(func(err error) {
		if _, ok := err.(session.RetryableError); !ok {
			fatal.Store(err)
		}
	})
	cont.Start(ctx)
	s, r := cont.NewSender("s", session.SenderOptions{}), cont.NewReceiver("r", session.ReceiverOptions{})
	got := make(chan struct{}, 1000)
	if plan.Receiver {
		go func() {
			for {
				m, err := r.Next(ctx)
				if err != nil {
					return
				}
				if r.Accept(ctx, m) == nil {
					got <- struct{}{}
				}
			}
		}()
	}
	use := func() bool {
		if plan.Receiver {
			p.Enqueue("r", wire(body("x")), false)
			select {
			case <-got:
				return true
			case <-time.After(long):
				return false
			}
		}
		return within(long, func() {
			for s.Send(ctx, body("x")) != nil && ctx.Err() == nil {
			}
		})
	}
	for i, ms := range plan.Lasts {
		if plan.Unused {
			if !p.WaitFor(long, func() bool { return p.HasReceiver("r") }) {
				return fmt.Errorf("no receiver after %d losses; the container has given up: %v", i, fatal.Load())
			}
		} else if !use() {
			return fmt.Errorf("a sender or receiver does not work after %d losses of the connection; the container has given up: %v", i, fatal.Load())
		}
		time.Sleep(time.Duration(ms) * time.Millisecond)
		c.ClassIf(ms > plan.Max, "lasted longer than the backoff")
		if ms > plan.Max {
			c.NonTrivial()
		}
		p.Inject(plan.Act, 0)
	}
	if !use() {
		return fmt.Errorf("a sender or receiver does not work after %d losses of the connection; the container has given up: %v", len(plan.Lasts), fatal.Load())
	}
	if f := fatal.Load(); f != nil {
		return fmt.Errorf("the container has given up: %v", f)
	}
	return nil
}

func TestC26_elapsed(t *testing.T) {
	vt.Check(t, vt.Spec[C26EPlan]{
		ID:   "C26",
		Rule: "a backoff that gives up after 50 ms to 1 s, and sessions that are used and then last for up to 1.2 s before they are lost; non-trivial: a session lasted for longer than the backoff allows",
		Gen:  genC26E, Run: runC26E, Quick: 80, Thorough: 1600, Trace: true,
	})
}

func TestC26_unused(t *testing.T) {
	vt.Check(t, vt.Spec[C26EPlan]{
		ID:   "C26",
		Rule: "as TestC26_elapsed, with a session that is lost after 32 s without having been used; non-trivial: always",
		Gen: func(t *rapid.T) C26EPlan {
			p := genC26E(t)
			p.Unused, p.Receiver, p.Lasts = true, true, []int{32000}
			return p
		}, Run: runC26E, Quick: 8, Thorough: 80, Trace: true, NoShrink: true, HangTicks: 300000,
	})
}
