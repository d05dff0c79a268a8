package es

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/store"
	"pgregory.net/rapid"

	"vanflowverif/fake"
	"vanflowverif/rec"
	"vanflowverif/vt"
)

// Tr is traffic for, or an operation on, the component.
type Tr struct {
	At   int    `json:"at"`
	Kind string `json:"kind"`
	N    int    `json:"n,omitempty"`
}

type C22Plan struct {
	What       string         `json:"what"` // manager, discovery, listen, watch
	Cancel     int            `json:"cancel"`
	Traffic    []Tr           `json:"traffic,omitempty"`
	Prefetch   bool           `json:"prefetch,omitempty"`
	Bare       bool           `json:"bare,omitempty"`
	Slow       int            `json:"slow,omitempty"` // handlers
	Buffer     int            `json:"buffer,omitempty"`
	Batch      int            `json:"batch,omitempty"`
	FlushDelay int            `json:"flush_delay,omitempty"`
	FlushBatch int            `json:"flush_batch,omitempty"`
	Stored     int            `json:"stored,omitempty"`
	Beacons    []fake.Outcome `json:"beacons,omitempty"`
	Heartbeats []fake.Outcome `json:"heartbeats,omitempty"`
	Records    []fake.Outcome `json:"records,omitempty"`
	BeaconMs   int            `json:"beacon_ms,omitempty"`
	HeartMs    int            `json:"heartbeat_ms,omitempty"`
	Timeout    int            `json:"timeout,omitempty"`
	ListFails  int            `json:"list_fails,omitempty"` // listing the store fails this often
	Deadline   bool           `json:"deadline,omitempty"`   // the context ends by its deadline
	Settle     bool           `json:"settle,omitempty"`     // let it come to rest before the end
}

func runC22(c *vt.Case, p C22Plan) error {
	net := fake.New()
	net.Prefetch = p.Prefetch
	net.Bare = p.Bare
	const addr, direct = "mc/sfe.src", "sfe.src"
	net.Plan("mc/sfe.all|BEACON", p.Beacons)
	net.Plan(addr+"|HEARTBEAT", p.Heartbeats)
	net.Plan(addr+"|RECORD", p.Records)
	outer, cancelOuter := context.WithCancel(background())
	defer cancelOuter()
	var ctx context.Context
	var cancel context.CancelFunc
	if p.Deadline {
		ctx, cancel = context.WithDeadline(outer, time.Now().Add(ms(p.Cancel)))
	} else {
		ctx, cancel = context.WithCancel(outer)
	}
	defer cancel()
	l := newLock()
	calls, inside := 0, 0
	handler := func() {
		l.acquire()
		calls++
		inside++
		l.release()
		if p.Slow > 0 {
			time.Sleep(ms(p.Slow))
		}
		l.acquire()
		inside--
		l.release()
	}
	var returned <-chan struct{}
	var discoveryErr error
	var traffic func(tr Tr)
	src := eventsource.Info{ID: "src", Address: addr, Direct: direct}
	record := func(i int) rec.Rec {
		return rec.Rec{Type: 0, ID: vt.S(fmt.Sprintf("r%d", i)), A: map[string]rec.Val{"Name": rec.VS(fmt.Sprint(i))}}
	}
	message := func(tr Tr) {
		switch tr.N % 5 {
		case 0, 1:
			net.Inject(addr, fake.Item{Msg: encode(record(tr.N))})
		case 2, 3:
			net.Inject(addr, fake.Item{Msg: vanflow.HeartbeatMessage{Identity: "src"}.Encode()})
		case 4:
			net.Inject(addr, fake.Item{Err: fake.ErrInjected})
		}
	}
	switch p.What {
	case "manager":
		base := store.NewDefaultCachingStore(store.CacheConfig{})
		for i := 0; i < p.Stored; i++ {
			base.Add(background(), store.Entry{Record: record(i).Record(false)})
		}
		st := &hooked{Interface: base}
		for i := 1; i <= p.ListFails; i++ {
			st.hooks = append(st.hooks, Hook{Nth: i, Err: true})
		}
		m := eventsource.NewManager(net.Container(), eventsource.ManagerConfig{
			Source: src, Stores: []store.Interface{st},
			UpdateBufferTime: ms(p.Buffer), UpdateBatchSize: p.Batch, FlushDelay: ms(p.FlushDelay), FlushBatchSize: p.FlushBatch,
			BeaconInterval: ms(p.BeaconMs), HeartbeatInterval: ms(p.HeartMs),
		})
		returned = running(func() { m.Run(ctx) })
		n := 0
		traffic = func(tr Tr) {
			switch tr.Kind {
			case "update":
				for i := 0; i <= tr.N && n < 250; i++ {
					n++
					m.PublishUpdate(eventsource.RecordUpdate{Curr: record(n).Record(false)})
				}
			default:
				for i := 0; i <= tr.N; i++ {
					net.Inject(direct, fake.Item{Msg: vanflow.FlushMessage{}.Encode()})
				}
			}
		}
	case "discovery":
		d := eventsource.NewDiscovery(net.Container(), eventsource.DiscoveryOptions{})
		returned = running(func() {
			discoveryErr = d.Run(ctx, eventsource.DiscoveryHandlers{Discovered: func(eventsource.Info) { handler() }, Forgotten: func(eventsource.Info) { handler() }})
		})
		traffic = func(tr Tr) {
			for i := 0; i <= tr.N; i++ {
				id := fmt.Sprintf("s%d", i%7)
				switch tr.Kind {
				case "update":
					d.Forget(id)
				default:
					net.Inject("mc/sfe.all", fake.Item{Msg: vanflow.BeaconMessage{Identity: id}.Encode()})
				}
			}
		}
	case "listen":
		client := eventsource.NewClient(net.Container(), eventsource.ClientOptions{Source: src})
		client.OnRecord(func(vanflow.RecordMessage) { handler() })
		client.OnHeartbeat(func(vanflow.HeartbeatMessage) { handler() })
		if err := client.Listen(ctx, eventsource.FromSourceAddress()); err != nil {
			return err
		}
		traffic = func(tr Tr) {
			for i := 0; i <= tr.N; i++ {
				message(Tr{N: i + tr.N})
			}
		}
	case "watch":
		d := eventsource.NewDiscovery(net.Container(), eventsource.DiscoveryOptions{})
		d.Add(src)
		client := eventsource.NewClient(net.Container(), eventsource.ClientOptions{Source: src})
		client.OnRecord(func(vanflow.RecordMessage) { handler() })
		client.Listen(outer, eventsource.FromSourceAddress())
		sleep(0)
		if err := d.NewWatchClient(ctx, eventsource.WatchConfig{Client: client, ID: "src", Timeout: ms(p.Timeout), DiscoveryUpdateInterval: ms(p.HeartMs)}); err != nil {
			return err
		}
		defer func() { cancelOuter() }()
		traffic = func(tr Tr) {
			for i := 0; i <= tr.N; i++ {
				message(Tr{N: i + tr.N})
			}
		}
	}
	// traffic goes on after the end, too
	go func() {
		at := 0
		for _, tr := range p.Traffic {
			if tr.At > at {
				time.Sleep(ms(tr.At - at))
				at = tr.At
			}
			traffic(tr)
		}
	}()
	time.Sleep(ms(p.Cancel))
	settled := -1
	if p.Settle && !p.Deadline {
		sleep(0)
		l.acquire()
		settled = calls
		l.release()
	}
	if !p.Deadline {
		cancel()
	}
	before := len(net.Attempts())
	end := time.Now()
	sleep(0)
	// running handlers may take their time
	l.acquire()
	busy := inside
	l.release()
	if busy > 0 {
		sleep(ms(p.Slow))
		c.Class("ends while a handler runs")
	}
	sleep(ms(5))
	if returned != nil && !isDone(returned) {
		return fmt.Errorf("%s: run has not returned %v after its context ended", p.What, time.Since(end))
	}
	if p.What == "discovery" && !errors.Is(discoveryErr, ctx.Err()) {
		return fmt.Errorf("discovery: run returned error %v when its context ended with %v", discoveryErr, ctx.Err())
	}
	if open := net.Open(); len(open) > 0 {
		return fmt.Errorf("%s: links are open %v after its context ended: %v", p.What, time.Since(end), open)
	}
	l.acquire()
	n, busy := calls, inside
	l.release()
	if settled >= 0 && n > settled {
		return fmt.Errorf("%s: %d handlers were called after the context ended", p.What, n-settled)
	}
	if busy > 0 {
		return fmt.Errorf("%s: a handler was called after the context ended", p.What)
	}
	stuck := false
	for i, a := range net.Attempts() {
		if !a.Done {
			return fmt.Errorf("%s: a delivery to %s has not been given up %v after the context ended", p.What, a.Addr, time.Since(end))
		}
		if i >= before && a.Err == nil && a.CtxEnded {
			return fmt.Errorf("%s: a message was sent to %s after the context ended", p.What, a.Addr)
		}
		if i >= before && !a.CtxEnded && a.Start.After(end) {
			return fmt.Errorf("%s: sending to %s was tried at %v, after the context ended", p.What, a.Addr, a.Start.Sub(end))
		}
		stuck = stuck || a.Err != nil && a.End.Equal(end) && a.Start.Before(end)
	}
	after := len(net.Attempts())
	sleep(24 * time.Hour)
	if k := len(net.Attempts()); k > after {
		return fmt.Errorf("%s: %d deliveries were tried long after the context ended", p.What, k-after)
	}
	l.acquire()
	defer l.release()
	if calls > n {
		return fmt.Errorf("%s: %d handlers were called long after the context ended", p.What, calls-n)
	}
	if before > 1 || n > 0 {
		c.NonTrivial()
	}
	c.Class(p.What)
	c.ClassIf(stuck, "ends while a delivery is stuck")
	c.ClassIf(p.Prefetch, "with prefetched messages")
	return nil
}

func genC22(t *rapid.T) C22Plan {
	p := C22Plan{What: rapid.SampledFrom([]string{"manager", "manager", "manager", "discovery", "listen", "watch"}).Draw(t, "what")}
	length := rapid.SampledFrom([]int{0, 5, 100, 3000}).Draw(t, "length")
	p.Cancel = rapid.IntRange(0, length).Draw(t, "cancel")
	at := 0
	for i := rapid.IntRange(0, 15).Draw(t, "traffic"); i > 0; i-- {
		at += rapid.IntRange(0, max(1, length/6)).Draw(t, "gap")
		p.Traffic = append(p.Traffic, Tr{At: at, Kind: rapid.SampledFrom([]string{"update", "other"}).Draw(t, "kind"), N: rapid.SampledFrom([]int{0, 0, 1, 3, 20, 100}).Draw(t, "n")})
	}
	p.Prefetch = rapid.Bool().Draw(t, "prefetch")
	p.Bare = rapid.Bool().Draw(t, "bare")
	p.Slow = rapid.SampledFrom([]int{0, 0, 0, 3, 50, 2000}).Draw(t, "slow")
	p.Buffer = rapid.SampledFrom([]int{0, 10, 1000}).Draw(t, "buffer")
	p.Batch = rapid.SampledFrom([]int{0, 2, 10, 1000}).Draw(t, "batch")
	p.FlushDelay = rapid.SampledFrom([]int{0, 10, 1000}).Draw(t, "fdelay")
	p.FlushBatch = rapid.SampledFrom([]int{0, 1, 10}).Draw(t, "fbatch")
	p.Stored = rapid.SampledFrom([]int{0, 1, 10, 400}).Draw(t, "stored")
	delays := []int{0, 1, 50, 2000}
	p.Beacons = genOutcomes(t, 4, delays)
	p.Heartbeats = genOutcomes(t, 6, delays)
	p.Records = genOutcomes(t, 6, delays)
	// failing at once for ever would be an endless loop in one instant
	p.BeaconMs = rapid.SampledFrom([]int{0, 7, 100, 2000}).Draw(t, "beaconms")
	p.HeartMs = rapid.SampledFrom([]int{0, 3, 100, 2000}).Draw(t, "heartms")
	p.Timeout = rapid.SampledFrom([]int{0, 10, 500, 100000}).Draw(t, "timeout")
	p.ListFails = rapid.SampledFrom([]int{0, 0, 0, 1, 50}).Draw(t, "listfails")
	p.Deadline = rapid.IntRange(0, 4).Draw(t, "deadline") == 0
	p.Settle = rapid.Bool().Draw(t, "settle")
	return p
}

func TestC22(t *testing.T) {
	vt.Check(t, vt.Spec[C22Plan]{
		ID:    "C22",
		Rule:  "a manager, a discovery, a client's listen or a watch, with updates, flush requests, beacons and messages before and after the end, deliveries that are stuck, slow or fail, buffers, flush delays, slow handlers and prefetched messages, whose context is cancelled or times out at an arbitrary moment; in virtual time; the call must return, links must be closed, nothing sent or handed over any more, and no goroutine may be left in the bubble; non-trivial: it had sent or handled something",
		Gen:   genC22,
		Run:   bubbled(t, runC22),
		Quick: 16000, Thorough: 800000,
	})
}
