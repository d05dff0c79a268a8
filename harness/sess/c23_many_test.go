package sess

import (
	"context"
	"fmt"
	"sync/atomic"
	"testing"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"
	"pgregory.net/rapid"

	"vanflowverif/peer"
	"vanflowverif/vt"
)

// C23ManyPlan is a container whose connection is lost again and again.
type C23ManyPlan struct {
	Losses  int      `json:"losses"`
	Acts    []string `json:"acts"` // in turn
	Senders int      `json:"senders"`
	Rcvs    int      `json:"receivers"`
	Every   int      `json:"every"` // the links are all used after that many losses
}

func genC23Many(t *rapid.T) C23ManyPlan {
	p := C23ManyPlan{
		Losses:  rapid.SampledFrom([]int{15, 40, 70, 140, 300}).Draw(t, "losses"),
		Senders: rapid.SampledFrom([]int{1, 1, 2, 40}).Draw(t, "senders"),
		Rcvs:    rapid.SampledFrom([]int{1, 1, 2, 40}).Draw(t, "receivers"),
		Every:   rapid.SampledFrom([]int{1, 2, 7, 40}).Draw(t, "every"),
	}
	for i := rapid.IntRange(1, 3).Draw(t, "acts"); i > 0; i-- {
		p.Acts = append(p.Acts, rapid.SampledFrom([]string{"drop", "drop", "reset", "close", "end", "end_plain", "detach", "garbage"}).Draw(t, "act"))
	}
	if p.Senders+p.Rcvs > 10 {
		p.Every = max(p.Every, p.Losses/10)
	}
	return p
}

func runC23Many(c *vt.Case, plan C23ManyPlan) error {
	p, err := peer.New(peer.Options{})
	if err != nil {
		vt.Abort("peer: %v", err)
	}
	defer p.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cont := newContainer(p, constant(1))
	var fatal atomic.Value
	var retried atomic.Int64
	cont.OnSessionError(func(err error) {
		if _, ok := err.(session.RetryableError); !ok {
			fatal.Store(err)
			return
		}
		retried.Add(1)
	})
	cont.Start(ctx)
	var snds []session.Sender
	var rcvs []session.Receiver
	for i := 0; i < plan.Senders; i++ {
		snds = append(snds, cont.NewSender(fmt.Sprint("s/", i), session.SenderOptions{}))
	}
	for i := 0; i < plan.Rcvs; i++ {
		rcvs = append(rcvs, cont.NewReceiver(fmt.Sprint("r/", i), session.ReceiverOptions{}))
	}
	send := func(i, n int) error {
		raw := wire(body("%d.%d", i, n))
		for {
			err := snds[i].Send(ctx, body("%d.%d", i, n))
			if err == nil {
				break
			}
			if ctx.Err() != nil {
				return err
			}
		}
		if receivedOn(p, fmt.Sprint("s/", i), raw) == 0 {
			return fmt.Errorf("after %d losses of the connection a send succeeded, but the peer did not receive the message", n)
		}
		return nil
	}
	receive := func(i, n int) error {
		raw := wire(body("%d.%d", i, n))
		p.Enqueue(fmt.Sprint("r/", i), raw, false)
		for {
			m, err := rcvs[i].Next(ctx)
			if err != nil {
				return fmt.Errorf("Next returned %v", err)
			}
			rcvs[i].Accept(ctx, m)
			if string(wire(&amqp.Message{Data: m.Data})) == string(raw) {
				return nil
			}
		}
	}
	for n := 0; n <= plan.Losses; n++ {
		k := 1
		if n%plan.Every == 0 || n == plan.Losses {
			k = 1 << 20
		}
		var err error
		if !within(long, func() {
			for i := 0; i < min(k, len(snds)) && err == nil; i++ {
				err = send(i, n)
			}
			for i := 0; i < min(k, len(rcvs)) && err == nil; i++ {
				err = receive(i, n)
			}
		}) {
			cancel()
			return fmt.Errorf("a sender or receiver does not work again after %d losses of the connection (%v); the container has given up: %v", n, plan.Acts, fatal.Load())
		}
		if err != nil {
			return err
		}
		if n < plan.Losses {
			p.Inject(plan.Acts[n%len(plan.Acts)], 0)
		}
	}
	if f := fatal.Load(); f != nil {
		return fmt.Errorf("the container has given up: %v", f)
	}
	if !p.WaitFor(long, func() bool { return p.OpenConns() <= 1 }) {
		return fmt.Errorf("connections that were replaced are left open after %d losses", plan.Losses)
	}
	p.Lock()
	defer p.Unlock()
	for _, x := range p.Problems() {
		return fmt.Errorf("the peer saw a protocol violation: %s", x)
	}
	c.ClassIf(len(p.Conns()) > 100, "more than 100 connections")
	if len(p.Conns()) > 10 {
		c.NonTrivial()
	}
	return nil
}

func TestC23_many(t *testing.T) {
	vt.Check(t, vt.Spec[C23ManyPlan]{
		ID:   "C23",
		Rule: "a container with up to 40 senders and 40 receivers whose connection or session is lost 15 to 300 times in turn, all links are used in between. Non-trivial: more than ten connections.",
		Gen:  genC23Many, Run: runC23Many, Quick: 40, Thorough: 1600, Trace: true, HangTicks: 9000, NoShrink: true,
	})
}
