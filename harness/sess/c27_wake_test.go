package sess

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"
	"pgregory.net/rapid"

	"vanflowverif/vt"
)

// C27wPlan is a series of races between senders that find no receiver and
// receivers that open, and may close again, at the same time.
type C27wPlan struct {
	Rounds    int   `json:"rounds"`
	Senders   int   `json:"senders"`
	Receivers int   `json:"receivers"`
	Fleeting  bool  `json:"fleeting,omitempty"` // the first receiver closes at once
	Spin      int   `json:"spin"`
	Seed      int64 `json:"seed"`
}

func runC27w(c *vt.Case, p C27wPlan) error {
	const patience = 30 * time.Second
	rnd := rand.New(rand.NewSource(p.Seed))
	router := session.NewMockRouter()
	cont := session.NewMockContainer(router)
	var sink atomic.Int64
	spin := func(n int) {
		for i := 0; i < n; i++ {
			sink.Add(1)
		}
	}
	waited := 0
	for round := 0; round < p.Rounds; round++ {
		ctx, cancel := context.WithTimeout(context.Background(), patience)
		addr := fmt.Sprint("wake", round)
		ready := p.Senders + p.Receivers
		var arrived, opened atomic.Int64
		gate := func(n int) {
			arrived.Add(1)
			for i := 0; arrived.Load() < int64(ready); i++ {
				if i%1000 == 999 {
					runtime.Gosched()
				}
			}
			spin(n)
		}
		var wg, rg sync.WaitGroup
		errs := make([]error, p.Senders)
		for i := range errs {
			snd := cont.NewSender(addr, session.SenderOptions{})
			n := rnd.Intn(p.Spin + 1)
			wg.Add(1)
			go func() {
				defer wg.Done()
				gate(n)
				errs[i] = snd.Send(ctx, amqp.NewMessage([]byte(fmt.Sprint(i))))
			}()
		}
		var seen sync.Map
		var delivered atomic.Int64
		got := make([]map[string]int, p.Receivers)
		rctx, stop := context.WithCancel(ctx)
		for i := range got {
			got[i] = map[string]int{}
			n := rnd.Intn(p.Spin + 1)
			rg.Add(1)
			go func() {
				defer rg.Done()
				gate(n)
				r := cont.NewReceiver(addr, session.ReceiverOptions{Credit: 10})
				if p.Fleeting && i == 0 && p.Receivers > 1 {
					r.Close(ctx)
					return
				}
				opened.Add(1)
				for {
					m, err := r.Next(rctx)
					if err != nil {
						return
					}
					got[i][string(m.GetData())]++
					if _, again := seen.LoadOrStore(string(m.GetData()), true); !again {
						delivered.Add(1)
					}
				}
			}()
		}
		wg.Wait()
		var failed error
		for i, err := range errs {
			if err != nil {
				failed = fmt.Errorf("round %d: sender %d: %v though %d receivers opened", round, i, err, opened.Load())
			}
		}
		if failed == nil && (!p.Fleeting || p.Receivers == 1) {
			for deadline := time.Now().Add(patience); delivered.Load() < int64(p.Senders) && failed == nil; time.Sleep(20 * time.Microsecond) {
				if time.Now().After(deadline) {
					failed = fmt.Errorf("round %d: %d of %d messages arrived at %d receivers", round, delivered.Load(), p.Senders, p.Receivers)
				}
			}
		}
		stop()
		rg.Wait()
		cancel()
		if failed != nil {
			return failed
		}
		for i := range got {
			for k, n := range got[i] {
				if n != 1 {
					return fmt.Errorf("round %d: receiver %d got message %s %d times", round, i, k, n)
				}
			}
		}
		waited += len(errs)
	}
	if waited > 100 {
		c.NonTrivial()
	}
	c.ClassIf(p.Fleeting && p.Receivers > 1, "a receiver that closes at once")
	return nil
}

func TestC27_Wake(t *testing.T) {
	vt.Check(t, vt.Spec[C27wPlan]{
		ID:   "C27",
		Rule: "hundreds of rounds in which one to three senders that find no receiver race with one or two receivers that open, one of which may close at once; every send returns, its message arrives, and nothing arrives twice at a receiver; non-trivial: more than a hundred sends",
		Gen: func(t *rapid.T) C27wPlan {
			return C27wPlan{
				Rounds:    rapid.IntRange(100, 600).Draw(t, "rounds"),
				Senders:   rapid.IntRange(1, 3).Draw(t, "senders"),
				Receivers: rapid.IntRange(1, 2).Draw(t, "receivers"),
				Fleeting:  rapid.Bool().Draw(t, "fleeting"),
				Spin:      rapid.SampledFrom([]int{0, 5, 20, 60, 200}).Draw(t, "spin"),
				Seed:      rapid.Int64().Draw(t, "seed"),
			}
		},
		Run:      runC27w,
		NoShrink: true,
		Quick:    160, Thorough: 8000,
	})
}
