package sess

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"
	"pgregory.net/rapid"

	"vanflowverif/peer"
	"vanflowverif/vt"
)

// C25Plan is a plan of C25: a link is used, then its operations are
// interrupted while the container is in some state.
type C25Plan struct {
	Mode    string `json:"mode"`
	Sender  bool   `json:"sender,omitempty"`
	Warm    int    `json:"warm"`    // operations that succeed before
	Workers int    `json:"workers"` // operations in progress
	Delay   int    `json:"delay_us"`
	Action  string `json:"action"` // cancel, timeout, close
	// for close
	CloseCtx string `json:"close_ctx,omitempty"` // background, ended, timeout
	Closes   int    `json:"closes,omitempty"`
	Credit   int    `json:"credit,omitempty"`
	Big      int    `json:"big,omitempty"`
	Repeat   int    `json:"repeat"`
	Witness  int    `json:"witness,omitempty"` // bit 0: a sender, bit 1: a receiver
	Queue    int    `json:"queue,omitempty"`   // messages waiting for the receiver
	StallAt  int    `json:"stall_at,omitempty"`
}

// modes in which the connection is intact throughout
var intactModes = map[string]bool{"idle": true, "nocredit": true, "hold": true, "silent": true, "busy": true, "window": true}

func genC25(t *rapid.T) C25Plan {
	p := C25Plan{
		Mode:    rapid.SampledFrom([]string{"unstarted", "refused", "handshake", "stalled", "backoff", "idle", "idle", "nocredit", "hold", "silent", "busy", "busy", "busy", "window", "window", "window", "collapse", "collapse"}).Draw(t, "mode"),
		Sender:  rapid.Bool().Draw(t, "sender"),
		Workers: rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3}).Draw(t, "workers"),
		Delay:   rapid.SampledFrom([]int{0, 50, 200, 500, 1000, 3000, 6000}).Draw(t, "delay"),
		Action:  rapid.SampledFrom([]string{"cancel", "timeout", "close", "close"}).Draw(t, "action"),
		Credit:  rapid.SampledFrom([]int{0, 1, 10}).Draw(t, "credit"),
		Repeat:  rapid.IntRange(1, 3).Draw(t, "repeat"),
	}
	switch p.Mode {
	case "nocredit", "hold", "window":
		p.Sender = true
	}
	if p.Mode == "busy" || p.Mode == "collapse" {
		p.Big = rapid.SampledFrom([]int{0, 0, 3000, 200000}).Draw(t, "big")
		p.Queue = rapid.IntRange(1, 30).Draw(t, "queue")
	}
	if p.Mode == "window" {
		p.Big = rapid.SampledFrom([]int{1000, 3000, 5000}).Draw(t, "big")
		if rapid.Bool().Draw(t, "contended") {
			p.Workers, p.Repeat = rapid.IntRange(2, 4).Draw(t, "senders"), 3
		}
	}
	if p.Mode == "handshake" {
		p.StallAt = rapid.IntRange(0, 3).Draw(t, "stall_at")
	}
	if intactModes[p.Mode] {
		p.Witness = rapid.IntRange(0, 3).Draw(t, "witness")
		if p.Mode != "nocredit" && p.Mode != "silent" {
			p.Warm = rapid.IntRange(0, 2).Draw(t, "warm")
		}
	}
	if p.Mode == "stalled" || p.Mode == "backoff" {
		p.Warm = rapid.IntRange(0, 2).Draw(t, "warm")
	}
	if p.Action == "close" {
		p.CloseCtx = rapid.SampledFrom([]string{"background", "ended", "timeout"}).Draw(t, "close_ctx")
		if p.Mode == "stalled" && p.CloseCtx == "background" {
			p.CloseCtx = "timeout"
		}
		p.Closes = rapid.IntRange(1, 3).Draw(t, "closes")
		p.Repeat = 1
	}
	return p
}

func runC25(c *vt.Case, plan C25Plan) error {
	const addr = "under/test"
	opts := peer.Options{}
	var silent atomic.Bool
	var hold atomic.Bool
	switch plan.Mode {
	case "nocredit":
		opts.NoCredit = func(a string) bool { return a == addr }
	case "hold":
		opts.Outcome = func(a string, n int) string {
			if a == addr && hold.Load() {
				return "hold"
			}
			return "accept"
		}
	case "silent":
		opts.SilentAttach = func(a string) bool { return a == addr && silent.Load() }
	case "window":
		opts.Window, opts.MaxFrame = 3, 512
	case "handshake":
		opts.Faults = []peer.Fault{{At: plan.StallAt, Act: "stall", Ms: -1}}
	}
	p, err := peer.New(opts)
	if err != nil {
		vt.Abort("peer: %v", err)
	}
	defer p.Close()
	var b backoff.BackOff = constant(2)
	if plan.Mode == "backoff" {
		b = backoff.NewConstantBackOff(time.Hour)
	}
	cont := newContainer(p, b)
	ctx, cancel := context.WithCancel(context.Background())
	main := ctx
	defer cancel()
	var s session.Sender
	var r session.Receiver
	if plan.Sender {
		s = cont.NewSender(addr, session.SenderOptions{})
	} else {
		r = cont.NewReceiver(addr, session.ReceiverOptions{Credit: plan.Credit})
	}
	if plan.Mode == "refused" {
		p.Refusing()
	}
	if plan.Mode != "unstarted" {
		cont.Start(ctx)
	}
	var errs errLog
	intact := intactModes[plan.Mode]
	n := 0
	var nMu sync.Mutex
	newMsg := func(size int) (*amqp.Message, []byte) {
		nMu.Lock()
		n++
		m := body("u%d.%s", n, bytes.Repeat([]byte("x"), size))
		nMu.Unlock()
		return m, wire(m)
	}
	// returned counts what Next returned, by content
	returned := map[string]int{}
	var enqueued []string
	put := func() {
		_, raw := newMsg(0)
		enqueued = append(enqueued, string(raw))
		p.Enqueue(addr, raw, false)
	}
	take := func(m *amqp.Message) {
		nMu.Lock()
		returned[string(wire(&amqp.Message{Data: m.Data}))]++
		nMu.Unlock()
	}
	opOnce := func(ctx context.Context, size int) error {
		if plan.Sender {
			m, raw := newMsg(size)
			err := s.Send(ctx, m)
			if err == nil && receivedOn(p, addr, raw) != 1 {
				errs.add("a send succeeded, but the peer received the message %d times", receivedOn(p, addr, raw))
			}
			return err
		}
		m, err := r.Next(ctx)
		if err != nil {
			return err
		}
		take(m)
		err = r.Accept(ctx, m)
		if err != nil && ctx.Err() != nil && plan.Action != "close" {
			// messages that are not accepted use up credit
			if err := r.Accept(main, m); err != nil && intactModes[plan.Mode] {
				errs.add("accepting a message again after the first attempt was interrupted failed: %v", err)
			}
		}
		if err != nil && ctx.Err() == nil && !intactModes[plan.Mode] {
			return nil // the connection was lost in between
		}
		return err
	}
	for i := 0; i < plan.Warm; i++ {
		if !plan.Sender {
			put()
		}
		if err := opOnce(ctx, 0); err != nil {
			return fmt.Errorf("an operation failed though nothing was wrong: %v", err)
		}
	}
	switch plan.Mode {
	case "hold":
		hold.Store(true)
	case "silent":
		silent.Store(true)
	case "stalled":
		p.WaitFor(long, func() bool { return len(p.Conns()) > 0 && p.Conns()[0].Began })
		p.Inject("stall", -1)
	case "backoff":
		// the container fails and then waits for an hour
		p.WaitFor(long, func() bool { return len(p.Conns()) > 0 && p.Conns()[0].Began })
		p.Refusing()
		p.Drop()
	case "window":
		p.Lock()
		p.Unlock()
		p.ShutWindow()
	}
	// witnesses
	var wwg sync.WaitGroup
	stop := make(chan struct{})
	var witnessed, wEnqueued atomic.Int64
	if plan.Witness&1 != 0 && plan.Mode != "window" {
		ws := cont.NewSender("witness/s", session.SenderOptions{})
		if err := ws.Send(ctx, body("w")); err != nil {
			return fmt.Errorf("an operation failed though nothing was wrong: %v", err)
		}
		wwg.Add(1)
		go func() {
			defer wwg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				if err := ws.Send(ctx, body("w%d", i)); err != nil {
					errs.add("another sender was disturbed: %v", err)
					return
				}
				witnessed.Add(1)
				time.Sleep(200 * time.Microsecond)
			}
		}()
	}
	var wr session.Receiver
	if plan.Witness&2 != 0 && plan.Mode != "window" {
		wr = cont.NewReceiver("witness/r", session.ReceiverOptions{Credit: 3})
		wwg.Add(1)
		go func() {
			defer wwg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				p.Enqueue("witness/r", wire(body("w%d", i)), false)
				wEnqueued.Add(1)
				m, err := wr.Next(ctx)
				if err != nil {
					errs.add("another receiver was disturbed: %v", err)
					return
				}
				if want := fmt.Sprintf("w%d", i); string(m.GetData()) != want {
					errs.add("another receiver was disturbed: it returned %q instead of %q", m.GetData(), want)
					return
				}
				if err := wr.Accept(ctx, m); err != nil {
					errs.add("another receiver was disturbed: accept: %v", err)
					return
				}
				witnessed.Add(1)
				time.Sleep(200 * time.Microsecond)
			}
		}()
	}
	stopWitness := sync.OnceFunc(func() { close(stop); wwg.Wait() })
	defer stopWitness()

	interrupted := 0
	for rep := 0; rep < plan.Repeat; rep++ {
		octx, ocancel := context.WithCancel(ctx)
		if plan.Action == "timeout" {
			octx, ocancel = context.WithTimeout(ctx, time.Duration(plan.Delay)*time.Microsecond)
		}
		defer ocancel()
		if !plan.Sender {
			for i := 0; i < plan.Queue; i++ {
				put()
			}
		}
		var owg sync.WaitGroup
		var closedFlag atomic.Bool
		for w := 0; w < plan.Workers; w++ {
			owg.Add(1)
			go func() {
				defer owg.Done()
				for {
					err := opOnce(octx, plan.Big)
					if err == nil {
						if plan.Mode != "busy" && plan.Mode != "idle" && plan.Mode != "collapse" && plan.Mode != "window" && plan.Sender {
							errs.add("a send succeeded in mode %s", plan.Mode)
							return
						}
						if octx.Err() != nil || closedFlag.Load() {
							// ended, but too late to be told
							return
						}
						continue
					}
					switch {
					case octx.Err() != nil:
						if plan.Sender && !intact {
							// may have failed for lack of a connection just before
							return
						}
						if plan.Action != "close" && !errors.Is(err, octx.Err()) {
							errs.add("an operation whose context ended (%v) returned %v", octx.Err(), err)
						}
					case plan.Action == "close" && closedFlag.Load():
					case plan.Action == "close" && !intact && plan.Sender:
						// a send that fails for lack of a connection
						time.Sleep(100 * time.Microsecond)
						continue
					case !intact && plan.Sender:
						time.Sleep(100 * time.Microsecond)
						continue
					default:
						errs.add("an operation returned %v before it was interrupted", err)
					}
					return
				}
			}()
		}
		time.Sleep(time.Duration(plan.Delay) * time.Microsecond)
		if plan.Mode == "collapse" {
			// the connection goes at the same time
			owg.Add(1)
			go func() { defer owg.Done(); p.Drop() }()
		}
		if plan.Action == "close" {
			cctx, ccancel := context.Background(), func() {}
			switch plan.CloseCtx {
			case "ended":
				x, f := context.WithCancel(ctx)
				f()
				cctx = x
			case "timeout":
				x, f := context.WithTimeout(ctx, 20*time.Millisecond)
				cctx, ccancel = x, f
			}
			doClose := func() {
				if plan.Sender {
					s.Close(cctx)
				} else {
					r.Close(cctx)
				}
			}
			closedFlag.Store(true)
			var cwg sync.WaitGroup
			ok := within(long, func() {
				for i := 0; i < plan.Closes; i++ {
					cwg.Add(1)
					go func() { defer cwg.Done(); doClose() }()
				}
				cwg.Wait()
				doClose()
			})
			ccancel()
			if !ok {
				return fmt.Errorf("Close did not return")
			}
		} else if plan.Action == "cancel" {
			ocancel()
		}
		if !within(long, owg.Wait) {
			return fmt.Errorf("an operation did not return after its %s", map[string]string{"cancel": "context was cancelled", "timeout": "context's deadline", "close": "link was closed"}[plan.Action])
		}
		interrupted += plan.Workers
		if err := errs.err(); err != nil {
			return err
		}
		ocancel()
	}
	ended, ecancel := context.WithCancel(ctx)
	ecancel()
	if plan.Action != "close" {
		// an ended context to begin with
		var err error
		if !within(long, func() { err = opOnce(ended, 0) }) {
			return fmt.Errorf("an operation with an ended context did not return")
		}
		if err != nil && !errors.Is(err, context.Canceled) {
			return fmt.Errorf("an operation with an ended context returned %v", err)
		}
	}
	// heal
	switch plan.Mode {
	case "unstarted":
		if plan.Action != "close" || plan.Sender {
			cont.Start(ctx)
		}
	case "refused":
		p.Listen()
	case "handshake", "stalled":
		p.ClearFaults()
		p.Drop()
	case "nocredit":
		p.Grant(addr)
	case "hold":
		hold.Store(false)
		p.ReleaseHeld(addr)
	case "silent":
		silent.Store(false)
	case "window":
		p.OpenWindow()
	}
	if plan.Action == "close" {
		for i := 0; i < 2; i++ {
			var err error
			if !within(long, func() {
				if plan.Sender {
					err = s.Send(ctx, body("late"))
				} else if i == 0 {
					_, err = r.Next(ctx)
				} else {
					err = r.Accept(ctx, body("late"))
				}
			}) {
				return fmt.Errorf("an operation on a closed link did not return")
			}
			if err == nil {
				return fmt.Errorf("an operation on a closed link returned no error")
			}
		}
		// the peer sees the link go. Links whose attachment was cut short
		// are let go with the next attachment on the session: make one.
		if intact && plan.Mode != "silent" {
			extra := cont.NewSender("extra", session.SenderOptions{})
			if err := extra.Send(ctx, body("extra")); err != nil {
				return fmt.Errorf("another sender was disturbed: %v", err)
			}
			if !p.WaitFor(long, func() bool {
				for _, l := range p.Links() {
					if l.Addr == addr && !l.Detached {
						return false
					}
				}
				return true
			}) {
				return fmt.Errorf("the link was closed, but not detached from the peer")
			}
		}
	} else if plan.Mode != "backoff" {
		// usable
		if plan.Sender {
			for try := 0; ; try++ {
				err := opOnce(ctx, 0)
				if err == nil {
					break
				}
				if intact {
					return fmt.Errorf("a send after an interrupted one failed: %v", err)
				}
				if try > 10000 {
					return fmt.Errorf("sends keep failing after an interrupted one: %v", err)
				}
				time.Sleep(100 * time.Microsecond)
			}
		} else {
			put()
			for {
				nMu.Lock()
				missing := 0
				for _, e := range enqueued {
					if returned[e] == 0 {
						missing++
					}
				}
				nMu.Unlock()
				if missing == 0 {
					break
				}
				var m *amqp.Message
				var err error
				if !within(long, func() { m, err = r.Next(ctx) }) {
					return fmt.Errorf("Next does not return the messages that are left (%d) after it was interrupted", missing)
				}
				if err != nil {
					return fmt.Errorf("Next after an interrupted one failed: %v", err)
				}
				take(m)
				r.Accept(ctx, m)
			}
		}
	}
	if intact {
		before := witnessed.Load()
		if plan.Witness != 0 && plan.Mode != "window" {
			end := time.Now().Add(long)
			for witnessed.Load() < before+3 && errs.err() == nil {
				if time.Now().After(end) {
					return fmt.Errorf("another link does not get on")
				}
				time.Sleep(100 * time.Microsecond)
			}
		}
	}
	stopWitness()
	if err := errs.err(); err != nil {
		return err
	}
	p.Lock()
	defer p.Unlock()
	if intact {
		if len(p.Conns()) > 1 {
			return fmt.Errorf("the container made a new connection though only one link's operation was interrupted (%s)", plan.Action)
		}
		for _, s := range p.Problems() {
			return fmt.Errorf("the peer saw a protocol violation: %s", s)
		}
		if !plan.Sender {
			for e, k := range returned {
				if k > 1 && plan.Action != "close" {
					return fmt.Errorf("message %q was returned %d times", strings.TrimSpace(e), k)
				}
			}
		}
	}
	c.Class(plan.Mode + "/" + plan.Action)
	if interrupted > 0 || plan.Action == "close" {
		c.NonTrivial()
	}
	return nil
}

func TestC25(t *testing.T) {
	vt.Check(t, vt.Spec[C25Plan]{
		ID:   "C25",
		Rule: "a sender or receiver with 0 to 4 operations in progress is cancelled, times out or is closed (once, twice, concurrently, with live or ended contexts) at a drawn moment while the container is not started, refused, stalled in the handshake or later, in backoff, idle, out of credit, unsettled, unanswered, mid-message or busy, with other links working on the same connection. Non-trivial: something was interrupted or closed.",
		Gen:  genC25, Run: runC25, Quick: 5000, Thorough: 100000, Trace: true, HangTicks: 9000,
	})
}

// C25mPlan is a sender used by several goroutines at once, for messages of
// several frames, some of which are interrupted at any moment.
type C25mPlan struct {
	MaxFrame uint32 `json:"max_frame"`
	Window   uint32 `json:"window"`
	Sizes    []int  `json:"sizes"`      // one goroutine each
	Times    []int  `json:"timeout_us"` // of the sends in turn, 0: none
	Sends    int    `json:"sends"`      // of each goroutine
}

func genC25m(t *rapid.T) C25mPlan {
	p := C25mPlan{
		MaxFrame: rapid.SampledFrom([]uint32{512, 512, 700, 2000}).Draw(t, "max_frame"),
		Window:   rapid.SampledFrom([]uint32{1, 3, 10, 100}).Draw(t, "window"),
		Sends:    rapid.IntRange(2, 8).Draw(t, "sends"),
	}
	for i := rapid.IntRange(2, 5).Draw(t, "senders"); i > 0; i-- {
		p.Sizes = append(p.Sizes, rapid.SampledFrom([]int{10, 300, 1000, 5000, 20000}).Draw(t, "size"))
	}
	for i := rapid.IntRange(1, 7).Draw(t, "timeouts"); i > 0; i-- {
		p.Times = append(p.Times, rapid.SampledFrom([]int{0, 20, 50, 100, 200, 400, 800, 1500, 3000}).Draw(t, "timeout"))
	}
	return p
}

func runC25m(c *vt.Case, plan C25mPlan) error {
	const addr = "under/test"
	p, err := peer.New(peer.Options{Window: plan.Window, MaxFrame: plan.MaxFrame})
	if err != nil {
		vt.Abort("peer: %v", err)
	}
	defer p.Close()
	cont := newContainer(p, constant(2))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cont.Start(ctx)
	s := cont.NewSender(addr, session.SenderOptions{})
	var errs errLog
	var mu sync.Mutex
	sent := map[string]error{}
	var interrupted, succeeded atomic.Int64
	var wg sync.WaitGroup
	for w, size := range plan.Sizes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < plan.Sends; i++ {
				sctx, scancel := ctx, context.CancelFunc(func() {})
				if us := plan.Times[(w+i)%len(plan.Times)]; us > 0 {
					sctx, scancel = context.WithTimeout(ctx, time.Duration(us)*time.Microsecond)
				}
				m := body("w%d.%d.%s", w, i, bytes.Repeat([]byte{byte('a' + w)}, size))
				raw := wire(m)
				err := s.Send(sctx, m)
				if err != nil && sctx.Err() != nil {
					interrupted.Add(1)
				} else if err == nil {
					succeeded.Add(1)
				}
				scancel()
				mu.Lock()
				sent[string(raw)] = err
				mu.Unlock()
			}
		}()
	}
	if !within(long, wg.Wait) {
		return fmt.Errorf("sends do not return")
	}
	if err := s.Send(ctx, body("afterwards")); err != nil {
		return fmt.Errorf("a send after interrupted ones failed: %v", err)
	}
	if err := errs.err(); err != nil {
		return err
	}
	p.Lock()
	defer p.Unlock()
	for _, x := range p.Problems() {
		return fmt.Errorf("the peer saw a protocol violation: %s", x)
	}
	if len(p.Conns()) > 1 {
		return fmt.Errorf("the container made a new connection though only sends were interrupted")
	}
	times := map[string]int{}
	after := string(wire(body("afterwards")))
	for _, r := range p.Received() {
		if r.Addr != addr {
			continue
		}
		x := string(r.Payload)
		times[x]++
		if _, ok := sent[x]; !ok && x != after {
			return fmt.Errorf("the peer received a message of %d bytes that was not sent", len(x))
		}
	}
	for x, err := range sent {
		if n := times[x]; n > 1 || n == 0 && err == nil {
			return fmt.Errorf("a message of %d bytes was received %d times, sending it returned %v", len(x), n, err)
		}
	}
	if interrupted.Load() > 0 && succeeded.Load() > 0 {
		c.NonTrivial()
	}
	return nil
}

func TestC25_mid(t *testing.T) {
	vt.Check(t, vt.Spec[C25mPlan]{
		ID:   "C25",
		Rule: "two to five goroutines send messages of one to many frames over one sender, with timeouts of 20 us to 3 ms; each message arrives whole and at most once, those that were confirmed arrive, the peer sees no protocol violation and a later send succeeds on the same connection. Non-trivial: sends were interrupted and others succeeded.",
		Gen:  genC25m, Run: runC25m, Quick: 2400, Thorough: 100000, Trace: true, HangTicks: 9000,
	})
}
