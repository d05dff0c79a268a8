package es

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/c-kruse/vanflow/eventsource"
	"pgregory.net/rapid"

	"vanflowverif/fake"
	"vanflowverif/rec"
	"vanflowverif/vt"
)

// FCall is a call to send a flush or to flush on the first message.
type FCall struct {
	At      int  `json:"at"`
	First   bool `json:"first,omitempty"`
	Timeout int  `json:"timeout,omitempty"` // its context ends this long after; 0: never
	Ended   bool `json:"ended,omitempty"`   // its context has ended before
}

type C20Plan struct {
	Calls  []FCall        `json:"calls"`
	Sends  []fake.Outcome `json:"sends,omitempty"`
	Msgs   []LMsg         `json:"msgs,omitempty"`
	Listen int            `json:"listens"` // 1: address, 2: and heartbeats
	Direct string         `json:"direct"`
	Early  []LMsg         `json:"early,omitempty"` // messages received before any call
}

func runC20(c *vt.Case, p C20Plan) error {
	net := fake.New()
	client := eventsource.NewClient(net.Container(), eventsource.ClientOptions{Source: eventsource.Info{ID: "src", Address: "mc/sfe.src", Direct: p.Direct}})
	defer client.Close()
	net.Plan(p.Direct, p.Sends)
	ctx, cancel := context.WithCancel(background())
	defer cancel()
	t0 := time.Now()
	addrs := []string{"mc/sfe.src", "mc/sfe.src.heartbeats"}[:p.Listen]
	if p.Listen > 0 {
		client.Listen(ctx, eventsource.FromSourceAddress())
	}
	if p.Listen > 1 {
		client.Listen(ctx, eventsource.FromSourceAddressHeartbeats())
	}
	sleep(0)
	for i, m := range p.Early {
		if len(addrs) > 0 {
			net.Inject(addrs[i%len(addrs)], m.item())
		}
	}
	sleep(0)
	type result struct {
		started, returned time.Time
		err               error
		done              <-chan struct{}
		ended             time.Time // of its context
	}
	results := make([]*result, len(p.Calls))
	type event struct {
		at int
		do func()
	}
	var events []event
	var heard []time.Time // handed over messages
	for i, call := range p.Calls {
		events = append(events, event{10*call.At + 1, func() {
			r := &result{started: time.Now()}
			results[i] = r
			cctx, ccancel := context.WithCancel(ctx)
			if call.Ended {
				r.ended = time.Now()
				ccancel()
			} else if call.Timeout > 0 {
				r.ended = time.Now().Add(ms(10*call.Timeout + 5))
				cctx, ccancel = context.WithDeadline(ctx, r.ended)
			}
			r.done = running(func() {
				defer ccancel()
				if call.First {
					r.err = eventsource.FlushOnFirstMessage(cctx, client)
				} else {
					r.err = client.SendFlush(cctx)
				}
				r.returned = time.Now()
			})
			sleep(0)
		}})
	}
	for i, m := range p.Msgs {
		events = append(events, event{10*m.At + 3, func() {
			if len(addrs) == 0 {
				return
			}
			net.Inject(addrs[i%len(addrs)], m.item())
			if (m.Kind == "record" || m.Kind == "heartbeat") && !m.Accept {
				heard = append(heard, time.Now())
			}
		}})
	}
	for i := 1; i < len(events); i++ { // stable insertion by time
		for j := i; j > 0 && events[j].at < events[j-1].at; j-- {
			events[j], events[j-1] = events[j-1], events[j]
		}
	}
	at := 0
	for _, e := range events {
		if e.at > at {
			sleep(ms(e.at - at))
			at = e.at
		}
		e.do()
	}

	slow := 0
	for _, s := range p.Sends {
		slow += s.Delay
	}
	sleep(ms(slow) + 10*time.Minute)
	atts := net.On(p.Direct)
	for _, a := range net.Attempts() {
		if a.Addr != p.Direct {
			return fmt.Errorf("message sent to %q", a.Addr)
		}
		if a.Msg.Properties == nil || a.Msg.Properties.Subject == nil || *a.Msg.Properties.Subject != "FLUSH" {
			return fmt.Errorf("message sent to the direct address is not a flush: %+v", a.Msg.Properties)
		}
		if to := a.Msg.Properties.To; to == nil || *to != p.Direct {
			return fmt.Errorf("flush is not addressed to %q", p.Direct)
		}
	}
	// each call accounts for at most one delivered flush. Calls start at
	// distinct times, and trigger at the first message heard after.
	delivered := 0
	for _, a := range atts {
		if a.OK() {
			delivered++
		}
	}
	succeeded := 0
	type trigger struct {
		at   time.Time
		call int
	}
	var triggers []trigger
	for i, call := range p.Calls {
		r := results[i]
		trig := r.started
		if call.First {
			trig = time.Time{}
			for _, h := range heard {
				if h.After(r.started) {
					trig = h
					break
				}
			}
		}
		never := call.Ended || trig.IsZero() || !r.ended.IsZero() && !r.ended.After(trig)
		if never && call.First {
			// ends with its context
			if r.ended.IsZero() {
				if isDone(r.done) {
					return fmt.Errorf("call %d returned (%v), though no message came and its context did not end", i, r.err)
				}
				continue
			}
			if !isDone(r.done) || r.returned.After(r.ended) {
				return fmt.Errorf("call %d did not return when its context ended", i)
			}
			if !errors.Is(r.err, context.Canceled) && !errors.Is(r.err, context.DeadlineExceeded) {
				return fmt.Errorf("call %d: %v, want the error of its context", i, r.err)
			}
			c.Class("context ends first")
			continue
		}
		if !never {
			triggers = append(triggers, trigger{trig, i})
		}
		if call.Ended {
			if !isDone(r.done) || r.err == nil {
				return fmt.Errorf("call %d with an ended context: returned is %v, error %v", i, isDone(r.done), r.err)
			}
			continue
		}
		if !isDone(r.done) {
			// only a delivery that is stuck without an end may hold it up
			stuck := false
			for _, a := range atts {
				stuck = stuck || !a.Done
			}
			if !stuck {
				return fmt.Errorf("call %d has not returned", i)
			}
			continue
		}
		if r.err == nil {
			succeeded++
		}
	}
	if succeeded != delivered {
		return fmt.Errorf("%d calls reported success, %d flushes were delivered", succeeded, delivered)
	}
	// attempts begin exactly at the triggers, one each (failed ones may be
	// repeated by the same call)
	used := make([]bool, len(atts))
	for _, tr := range triggers {
		found := false
		for i, a := range atts {
			if !used[i] && a.Start.Equal(tr.at) {
				used[i], found = true, true
				break
			}
		}
		if !found {
			return fmt.Errorf("call %d should have sent a flush at %v", tr.call, tr.at.Sub(t0))
		}
	}
	for i, a := range atts {
		if !used[i] && !a.CtxEnded {
			return fmt.Errorf("a flush was sent at %v, when no call was due to: %s", a.Start.Sub(t0), attempts(atts, t0))
		}
	}
	for i := range p.Calls {
		r := results[i]
		if r.err == nil || !isDone(r.done) {
			continue
		}
		c.Class("call fails")
	}
	if delivered > 0 {
		c.NonTrivial()
	}
	for _, call := range p.Calls {
		c.ClassIf(call.First, "on the first message")
	}
	c.ClassIf(len(heard) > delivered, "more messages than flushes")

	cancel()
	sleep(time.Second)
	for i := range p.Calls {
		if !isDone(results[i].done) {
			return fmt.Errorf("call %d has not returned after its context ended", i)
		}
	}
	client.Close()
	sleep(time.Second)
	if open := net.Open(); len(open) > 0 {
		return fmt.Errorf("links are left open: %v", open)
	}
	return nil
}

func genC20(t *rapid.T) C20Plan {
	var p C20Plan
	p.Listen = rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2}).Draw(t, "listens")
	p.Direct = rapid.SampledFrom([]string{"sfe.src", "d", "x/y"}).Draw(t, "direct")
	msg := func(at int) LMsg {
		m := LMsg{At: at, Kind: rapid.SampledFrom([]string{"record", "record", "heartbeat", "heartbeat", "bad", "error"}).Draw(t, "kind")}
		switch m.Kind {
		case "record":
			m.Recs = []rec.Rec{{Type: 0, ID: "x"}}
		case "heartbeat":
			m.ID = "x"
		case "bad":
			m.N = rapid.IntRange(0, 9).Draw(t, "n")
		}
		m.Accept = rapid.IntRange(0, 12).Draw(t, "accept") == 0
		return m
	}
	for i := rapid.IntRange(0, 4).Draw(t, "early"); i > 0; i-- {
		p.Early = append(p.Early, msg(0))
	}
	at := 0
	for i := rapid.IntRange(0, 4).Draw(t, "calls"); i >= 0; i-- {
		at += rapid.IntRange(1, 10).Draw(t, "gap")
		f := FCall{At: at, First: rapid.IntRange(0, 2).Draw(t, "first") > 0}
		switch rapid.IntRange(0, 7).Draw(t, "ctx") {
		case 0:
			f.Ended = true
		case 1, 2:
			f.Timeout = rapid.IntRange(1, 15).Draw(t, "timeout")
		}
		p.Calls = append(p.Calls, f)
	}
	mat := 0
	for i := rapid.IntRange(0, 8).Draw(t, "msgs"); i > 0; i-- {
		mat += rapid.SampledFrom([]int{0, 0, 1, 2, 5, 12}).Draw(t, "mgap")
		m := msg(mat)
		n := 1
		if rapid.IntRange(0, 9).Draw(t, "burst") == 0 {
			n = rapid.SampledFrom([]int{2, 10, 60}).Draw(t, "burstn")
		}
		for ; n > 0; n-- {
			p.Msgs = append(p.Msgs, m)
		}
	}
	for i := rapid.SampledFrom([]int{0, 0, 0, 1, 3, 6}).Draw(t, "sends"); i > 0; i-- {
		p.Sends = append(p.Sends, fake.Outcome{Kind: rapid.SampledFrom([]string{"", "", "fail", "fail", "stall"}).Draw(t, "skind"), Delay: rapid.SampledFrom([]int{0, 0, 2, 33, 700}).Draw(t, "delay")})
	}
	return p
}

func TestC20(t *testing.T) {
	vt.Check(t, vt.Spec[C20Plan]{
		ID:    "C20",
		Rule:  "several calls to send a flush or to flush on the first message, with contexts that end before, during or never, messages alone and in bursts before, between and after the calls on two addresses, undecodable ones and receive errors, deliveries that succeed, fail, take time or are stuck; in virtual time; every flush on the network is matched with the call and the message that triggered it; non-trivial: a flush was delivered",
		Gen:   genC20,
		Run:   bubbled(t, runC20),
		Quick: 24000, Thorough: 1500000,
	})
}
