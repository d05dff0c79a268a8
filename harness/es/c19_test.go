package es

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"pgregory.net/rapid"

	"vanflowverif/fake"
	"vanflowverif/rec"
	"vanflowverif/vt"
)

// LMsg is a message or error on the address of a listen.
type LMsg struct {
	At      int       `json:"at"`
	Kind    string    `json:"kind"` // record, heartbeat, bad, error
	Recs    []rec.Rec `json:"recs,omitempty"`
	N       int       `json:"n,omitempty"` // kind of bad message
	Accept  bool      `json:"accept_fails,omitempty"`
	Version uint32    `json:"v,omitempty"`
	Now     uint64    `json:"now,omitempty"`
	ID      vt.S      `json:"id,omitempty"`
	Repeat  int       `json:"repeat,omitempty"` // that many more of the kind
}

// repeated is the plan with repeated messages written out.
func repeated(p C19Plan) C19Plan {
	p.Listens = append([]Lst{}, p.Listens...)
	for i := range p.Listens {
		var msgs []LMsg
		for _, m := range p.Listens[i].Msgs {
			msgs = append(msgs, m)
			for n := 0; n < m.Repeat; n++ {
				x := m
				x.ID = vt.S(fmt.Sprintf("%s+%d", m.ID, n))
				x.Now += uint64(n)
				x.Recs = nil
				for _, r := range m.Recs {
					r.ID = vt.S(fmt.Sprintf("%s+%d", r.ID, n))
					x.Recs = append(x.Recs, r)
				}
				msgs = append(msgs, x)
			}
		}
		p.Listens[i].Msgs = msgs
	}
	return p
}

type Lst struct {
	Kind string `json:"kind"` // address, flows, logs, heartbeats, custom
	At   int    `json:"at"`
	End  int    `json:"end,omitempty"` // its context ends
	Msgs []LMsg `json:"msgs,omitempty"`
}

type LHandler struct {
	Record bool `json:"record,omitempty"` // or heartbeat
	At     int  `json:"at,omitempty"`     // registered then
	Slow   int  `json:"ms,omitempty"`
}

type C19Plan struct {
	Listens  []Lst      `json:"listens"`
	Handlers []LHandler `json:"handlers"`
	Close    int        `json:"close,omitempty"`  // 0: at the end
	Closes   int        `json:"closes,omitempty"` // concurrent ones
	Again    bool       `json:"again,omitempty"`  // listen after closing
	Prefetch bool       `json:"prefetch,omitempty"`
}

type custom struct{ addr string }

func (c custom) Get(eventsource.Info) eventsource.ListenerConfig {
	return eventsource.ListenerConfig{Address: c.addr, Credit: 7}
}

func provider(kind string, base string, i int) (eventsource.ListenerConfigProvider, string) {
	switch kind {
	case "flows":
		return eventsource.FromSourceAddressFlows(), base + ".flows"
	case "logs":
		return eventsource.FromSourceAddressLogs(), base + ".logs"
	case "heartbeats":
		return eventsource.FromSourceAddressHeartbeats(), base + ".heartbeats"
	case "custom":
		a := fmt.Sprintf("custom%d", i)
		return custom{a}, a
	}
	return eventsource.FromSourceAddress(), base
}

// handed is a message given to a handler.
type handed struct {
	at       time.Time
	msg      any
	accepted func(*amqp.Message) bool
}

func badMessage(n int) *amqp.Message {
	s := func(x string) *string { return &x }
	m := &amqp.Message{Properties: &amqp.MessageProperties{To: s("x")}}
	switch n % 10 {
	case 0:
		m.Properties = nil
	case 1: // no subject
	case 2:
		m.Properties.Subject = s("BEACON")
		m.ApplicationProperties = map[string]any{"id": "x"}
	case 3:
		m.Properties.Subject = s("FLUSH")
	case 4:
		m.Properties.Subject = s("OTHER")
	case 5:
		m.Properties.Subject = s("RECORD")
		m.Value = "not a list"
	case 6:
		m.Properties.Subject = s("RECORD")
		m.Value = []any{map[any]any{uint32(0): uint32(99), uint32(1): "x"}}
	case 7:
		m.Properties.Subject = s("RECORD")
		m.Value = []any{"not a map"}
	case 8:
		m.Properties.Subject = s("RECORD")
	case 9:
		m.Properties.Subject = s("RECORD")
		m.Value = []any{map[any]any{uint32(0): uint32(0), uint32(1): "x", uint32(3): "not a time"}}
	}
	return m
}

func sameMessage(want LMsg, got any) error {
	switch m := got.(type) {
	case vanflow.RecordMessage:
		if want.Kind != "record" {
			return fmt.Errorf("a record message, want %s", want.Kind)
		}
		if len(m.Records) != len(want.Recs) {
			return fmt.Errorf("%d records, want %d", len(m.Records), len(want.Recs))
		}
		for i, r := range m.Records {
			g, err := rec.From(r)
			if err != nil {
				return err
			}
			if d := rec.Diff(want.Recs[i].Normal(), g.Normal()); d != "" {
				return fmt.Errorf("record %d: %s", i, d)
			}
		}
	case vanflow.HeartbeatMessage:
		if want.Kind != "heartbeat" {
			return fmt.Errorf("a heartbeat, want %s", want.Kind)
		}
		if m.Identity != string(want.ID) || m.Version != want.Version || m.Now != want.Now {
			return fmt.Errorf("heartbeat %+v, want %+v", m, want)
		}
	}
	return nil
}

// key is the identity that tells messages apart.
func (m LMsg) key() string {
	if m.Kind == "record" && len(m.Recs) > 0 {
		return "record " + string(m.Recs[0].ID)
	}
	return m.Kind + " " + string(m.ID)
}

func keyOf(got any) string {
	switch m := got.(type) {
	case vanflow.RecordMessage:
		if len(m.Records) > 0 {
			return "record " + m.Records[0].Identity()
		}
	case vanflow.HeartbeatMessage:
		return "heartbeat " + m.Identity
	}
	return "?"
}

func (m LMsg) item() fake.Item {
	it := fake.Item{}
	switch m.Kind {
	case "record":
		it.Msg = encode(m.Recs...)
	case "heartbeat":
		it.Msg = vanflow.HeartbeatMessage{Identity: string(m.ID), Version: m.Version, Now: m.Now}.Encode()
	case "bad":
		it.Msg = badMessage(m.N)
	case "error":
		return fake.Item{Err: fake.ErrInjected}
	}
	if m.Accept {
		it.AcceptErr = fake.ErrInjected
	}
	cp, err := fake.Copy(it.Msg)
	if err != nil {
		vt.Abort("copying a message: %v", err)
	}
	it.Msg = cp
	return it
}

func runC19(c *vt.Case, p C19Plan) error {
	p = repeated(p)
	net := fake.New()
	net.Prefetch = p.Prefetch
	client := eventsource.NewClient(net.Container(), eventsource.ClientOptions{Source: eventsource.Info{ID: "src", Address: "mc/sfe.src", Direct: "sfe.src"}})
	t0 := time.Now()
	ctx, cancel := context.WithCancel(background())
	defer cancel()
	l := newLock()
	var failure error
	fail := func(format string, args ...any) {
		if failure == nil {
			failure = fmt.Errorf(format, args...)
		}
	}
	type sentMsg struct {
		m      LMsg
		at     time.Time
		ptr    *amqp.Message
		listen int
	}
	var sent []sentMsg
	byKey := map[string][]sentMsg{}
	got := make([][]handed, len(p.Handlers))
	registered := make([]time.Time, len(p.Handlers))
	slow := 0
	for _, h := range p.Handlers {
		slow += h.Slow
	}
	register := func(i int) {
		h := p.Handlers[i]
		registered[i] = time.Now()
		handle := func(m any) {
			l.acquire()
			got[i] = append(got[i], handed{at: time.Now(), msg: m})
			// some message with this content has been accepted
			ok := false
			for _, s := range byKey[keyOf(m)] {
				if sameMessage(s.m, m) != nil {
					continue
				}
				for _, r := range net.Receivers() {
					ok = ok || r.WasAccepted(s.ptr)
				}
			}
			if !ok {
				fail("handler %d got a message at %v that was not accepted before", i, time.Since(t0))
			}
			l.release()
			if h.Slow > 0 {
				time.Sleep(ms(h.Slow))
			}
		}
		if h.Record {
			client.OnRecord(func(m vanflow.RecordMessage) { handle(m) })
		} else {
			client.OnHeartbeat(func(m vanflow.HeartbeatMessage) { handle(m) })
		}
	}
	type step struct {
		at int
		do func()
	}
	var steps []step
	var closed, closeReturned time.Time
	var closeDone []<-chan struct{}
	doClose := func() {
		closed = time.Now()
		for i := 0; i < max(1, p.Closes); i++ {
			closeDone = append(closeDone, running(func() {
				client.Close()
				l.acquire()
				if closeReturned.IsZero() {
					closeReturned = time.Now()
				}
				l.release()
			}))
		}
	}
	for i, h := range p.Handlers {
		if h.At == 0 {
			register(i)
		} else {
			steps = append(steps, step{h.At, func() { register(i) }})
		}
	}
	ended := make([]time.Time, len(p.Listens))
	started := make([]time.Time, len(p.Listens))
	addrs := make([]string, len(p.Listens))
	length := 0
	for i, ls := range p.Listens {
		prov, addr := provider(ls.Kind, "mc/sfe.src", i)
		addrs[i] = addr
		lctx, lcancel := context.WithCancel(ctx)
		defer lcancel()
		steps = append(steps, step{ls.At, func() {
			if !closed.IsZero() {
				err := client.Listen(lctx, prov)
				if err == nil {
					c.Class("listen after close is not refused")
				}
				return
			}
			if err := client.Listen(lctx, prov); err != nil {
				l.acquire()
				fail("listen %d: %v", i, err)
				l.release()
			}
			started[i] = time.Now()
			sleep(0)
			n := 0
			for _, o := range net.Open() {
				if o == "receiver "+addr {
					n++
				}
			}
			if n != 1 {
				l.acquire()
				defer l.release()
				fail("listen %d: %d receivers are open on %s: %v", i, n, addr, net.Open())
			}
		}})
		if ls.End > 0 {
			steps = append(steps, step{ls.End, func() { ended[i] = time.Now(); lcancel() }})
			length = max(length, ls.End)
		}
		for _, m := range ls.Msgs {
			steps = append(steps, step{m.At, func() {
				it := m.item()
				l.acquire()
				net.Inject(addr, it)
				if !started[i].IsZero() && ended[i].IsZero() && closed.IsZero() {
					sm := sentMsg{m, time.Now(), it.Msg, i}
					sent = append(sent, sm)
					byKey[m.key()] = append(byKey[m.key()], sm)
				}
				l.release()
			}})
			length = max(length, m.At)
		}
		length = max(length, ls.At)
	}
	if p.Close > 0 {
		steps = append(steps, step{p.Close, doClose})
		length = max(length, p.Close)
	}
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].at < steps[j].at })
	at := 0
	for _, s := range steps {
		if s.at > at {
			sleep(ms(s.at - at))
			at = s.at
		}
		s.do()
		if slow == 0 {
			sleep(0)
		}
		l.acquire()
		failed := failure
		l.release()
		if failed != nil {
			return failed
		}
	}
	sleep(ms(slow*(len(sent)+2)) + time.Second)
	early := p.Close > 0
	if !early {
		doClose()
		sleep(ms(slow) + time.Second)
	}
	for _, d := range closeDone {
		if !isDone(d) {
			return fmt.Errorf("closing at %v has not returned", closed.Sub(t0))
		}
	}
	if took := closeReturned.Sub(closed); took > ms(slow)*time.Duration(max(1, len(p.Listens))) {
		return fmt.Errorf("closing took %v, handling a message takes %v", took, ms(slow))
	}
	if open := net.Open(); len(open) > 0 {
		return fmt.Errorf("links are open after closing: %v", open)
	}
	if p.Again {
		addr := "late"
		if err := client.Listen(ctx, custom{addr}); err == nil {
			c.Class("listen after close is not refused")
		}
		sleep(0)
		before := 0
		for _, g := range got {
			before += len(g)
		}
		net.Inject(addr, LMsg{Kind: "record", Recs: []rec.Rec{{Type: 0, ID: "late"}}}.item())
		net.Inject(addr, LMsg{Kind: "heartbeat", ID: "late"}.item())
		sleep(time.Second)
		for _, g := range got {
			before -= len(g)
		}
		if before != 0 {
			return fmt.Errorf("a message was handed over after closing")
		}
		again := running(client.Close)
		sleep(time.Second)
		if !isDone(again) {
			return fmt.Errorf("closing again does not return")
		}
	}
	if failure != nil {
		return failure
	}
	// what each handler got
	total := 0
	for i, h := range p.Handlers {
		kind := "heartbeat"
		if h.Record {
			kind = "record"
		}
		next := make([]int, len(p.Listens)) // position in the messages of each listen
		var want = make([][]sentMsg, len(p.Listens))
		for _, s := range sent {
			if s.m.Kind == kind && !s.m.Accept && !s.at.Before(registered[i]) {
				want[s.listen] = append(want[s.listen], s)
			}
		}
		for n, g := range got[i] {
			total++
			if g.at.After(closeReturned) {
				return fmt.Errorf("handler %d got a message at %v, after closing returned at %v", i, g.at.Sub(t0), closeReturned.Sub(t0))
			}
			// it must be the next of some listen
			found := false
			var why error
			for ln := range want {
				if next[ln] < len(want[ln]) {
					w := want[ln][next[ln]]
					if err := sameMessage(w.m, g.msg); err != nil {
						why = err
						continue
					}
					if slow == 0 && g.at.After(w.at) {
						continue
					}
					if e := ended[ln]; !e.IsZero() && g.at.After(e.Add(ms(slow))) {
						return fmt.Errorf("handler %d got a message of listen %d at %v, whose context ended at %v", i, ln, g.at.Sub(t0), e.Sub(t0))
					}
					next[ln]++
					found = true
					break
				}
			}
			if !found {
				return fmt.Errorf("handler %d: its message %d (at %v) is not the next of any listen: %+v (%v)", i, n, g.at.Sub(t0), g.msg, why)
			}
		}
		for ln, w := range want {
			cut := slow > 0 && (early || !ended[ln].IsZero())
			if next[ln] < len(w) && !cut {
				return fmt.Errorf("handler %d (%s) did not get message %d of listen %d, of %v", i, kind, next[ln], ln, w[next[ln]].at.Sub(t0))
			}
		}
	}
	if total > 1 {
		c.NonTrivial()
	}
	c.ClassIf(slow > 0, "slow handlers")
	c.ClassIf(early, "closed while messages come")
	c.ClassIf(p.Closes > 1, "closed several times at once")
	c.ClassIf(len(p.Listens) > 1, "several listens")
	for i := range p.Listens {
		c.ClassIf(!ended[i].IsZero(), "a listen's context ends")
	}
	return nil
}

func genC19(t *rapid.T) C19Plan {
	var p C19Plan
	kinds := rapid.Permutation([]string{"address", "flows", "logs", "heartbeats", "custom"}).Draw(t, "kinds")
	n := 0
	length := 10 * rapid.SampledFrom([]int{0, 1, 10, 100}).Draw(t, "length")
	for i := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5}).Draw(t, "listens"); i > 0; i-- {
		ls := Lst{Kind: kinds[i-1], At: rapid.IntRange(0, length/3).Draw(t, "from")}
		if rapid.IntRange(0, 3).Draw(t, "ends") == 0 {
			ls.End = rapid.IntRange(ls.At, length+5).Draw(t, "end")
		}
		for k := rapid.IntRange(0, 10).Draw(t, "msgs"); k > 0; k-- {
			m := LMsg{At: rapid.IntRange(0, length+1).Draw(t, "at"), Kind: rapid.SampledFrom([]string{"record", "record", "record", "heartbeat", "heartbeat", "bad", "bad", "error"}).Draw(t, "kind")}
			m.Accept = rapid.IntRange(0, 9).Draw(t, "accept") == 0
			n++
			m.ID = vt.S(fmt.Sprint(n))
			switch m.Kind {
			case "record":
				for j := rapid.IntRange(1, 3).Draw(t, "recs"); j > 0; j-- {
					m.Recs = append(m.Recs, genRecord(t, append([]uint32{rec.CustomCode}, rec.RecordCodes...), []string{fmt.Sprintf("%d/%d", n, j)}, true))
				}
			case "heartbeat":
				m.Version = rapid.Uint32().Draw(t, "v")
				m.Now = rapid.Uint64().Draw(t, "now")
			case "bad":
				m.N = rapid.IntRange(0, 9).Draw(t, "n")
			}
			ls.Msgs = append(ls.Msgs, m)
		}
		if len(ls.Msgs) > 0 && rapid.IntRange(0, 79).Draw(t, "many") == 0 {
			ls.Msgs[0].Repeat = rapid.SampledFrom([]int{60, 130, 260, 600, 1100}).Draw(t, "repeat")
		}
		sort.SliceStable(ls.Msgs, func(i, j int) bool { return ls.Msgs[i].At < ls.Msgs[j].At })
		p.Listens = append(p.Listens, ls)
	}
	slow := rapid.IntRange(0, 2).Draw(t, "slow") == 0
	for i := rapid.IntRange(1, 4).Draw(t, "handlers"); i > 0; i-- {
		h := LHandler{Record: rapid.IntRange(0, 2).Draw(t, "record") > 0}
		if slow {
			h.Slow = rapid.SampledFrom([]int{0, 1, 20, 300}).Draw(t, "ms")
		} else if rapid.IntRange(0, 3).Draw(t, "late") == 0 {
			h.At = rapid.IntRange(0, length).Draw(t, "registered")
		}
		p.Handlers = append(p.Handlers, h)
	}
	if rapid.Bool().Draw(t, "early") {
		p.Close = rapid.IntRange(1, length+2).Draw(t, "close")
	}
	p.Closes = rapid.SampledFrom([]int{1, 1, 2, 5}).Draw(t, "closes")
	p.Again = rapid.IntRange(0, 3).Draw(t, "again") == 0
	p.Prefetch = rapid.IntRange(0, 2).Draw(t, "prefetch") == 0
	return p
}

func TestC19(t *testing.T) {
	vt.Check(t, vt.Spec[C19Plan]{
		ID:    "C19",
		Rule:  "up to five listens on the derived and custom addresses, receiving arbitrary record messages and heartbeats, ten kinds of other messages, receive and accept errors, some of them repeated up to 1100 times, with up to four handlers (slow, or registered later), contexts that end, closing at any time from several goroutines, with and without prefetched messages; in virtual time; what each handler got is compared with what each listen received; non-trivial: at least two messages were handed over",
		Gen:   genC19,
		Run:   bubbled(t, runC19),
		Quick: 15000, Thorough: 800000,
	})
}

// C19cPlan is use from many goroutines at once.
type C19cPlan struct {
	Messages  int  `json:"messages"`
	Listens   int  `json:"listens"`
	Handlers  int  `json:"handlers"`
	Registers int  `json:"registers"` // concurrently
	Closers   int  `json:"closers"`
	Prefetch  bool `json:"prefetch"`
	Spin      int  `json:"spin"` // before closing
}

func runC19c(c *vt.Case, p C19cPlan) error {
	net := fake.New()
	net.Prefetch = p.Prefetch
	client := eventsource.NewClient(net.Container(), eventsource.ClientOptions{Source: eventsource.Info{ID: "src", Address: "mc/sfe.src", Direct: "sfe.src"}})
	var mu sync.Mutex
	got := make([][]string, p.Handlers)
	returned := false
	late := 0
	for i := 0; i < p.Handlers; i++ {
		client.OnRecord(func(m vanflow.RecordMessage) {
			mu.Lock()
			defer mu.Unlock()
			if returned {
				late++
			}
			for _, r := range m.Records {
				got[i] = append(got[i], r.Identity())
			}
		})
	}
	ctx, cancel := context.WithCancel(background())
	defer cancel()
	var wg sync.WaitGroup
	start := make(chan struct{})
	work := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); <-start; f() }()
	}
	for i := 0; i < p.Listens; i++ {
		addr := fmt.Sprintf("l%d", i)
		if i%2 == 0 {
			client.Listen(ctx, custom{addr})
		} else {
			work(func() { client.Listen(ctx, custom{addr}) })
		}
	}
	sleep(0)
	for i := 0; i < p.Listens; i++ {
		work(func() {
			for n := 0; n < p.Messages; n++ {
				net.Inject(fmt.Sprintf("l%d", i), LMsg{Kind: "record", Recs: []rec.Rec{{Type: 0, ID: vt.S(fmt.Sprintf("%d/%d", i, n))}}}.item())
			}
		})
	}
	for i := 0; i < p.Registers; i++ {
		work(func() {
			client.OnHeartbeat(func(vanflow.HeartbeatMessage) {})
			client.OnRecord(func(vanflow.RecordMessage) {})
		})
	}
	for i := 0; i < p.Closers; i++ {
		work(func() {
			for k := 0; k < p.Spin; k++ {
				mu.Lock()
				mu.Unlock()
			}
			client.Close()
			mu.Lock()
			returned = true
			mu.Unlock()
		})
	}
	close(start)
	wg.Wait()
	sleep(time.Second)
	if p.Closers == 0 {
		client.Close()
	}
	sleep(time.Second)
	mu.Lock()
	defer mu.Unlock()
	if late > 0 {
		return fmt.Errorf("%d messages were handed over after closing returned", late)
	}
	if open := net.Open(); len(open) > 0 {
		return fmt.Errorf("links are open after closing: %v", open)
	}
	n := 0
	for i, ids := range got {
		next := make([]int, p.Listens)
		for _, id := range ids {
			var l, k int
			fmt.Sscanf(id, "%d/%d", &l, &k)
			if k < next[l] || l%2 == 0 && k != next[l] {
				return fmt.Errorf("handler %d got message %d of listen %d, %d is the next", i, k, l, next[l])
			}
			next[l] = k + 1
			n++
		}
		if p.Closers == 0 {
			for l := 0; l < p.Listens; l += 2 {
				if next[l] != p.Messages {
					return fmt.Errorf("handler %d got %d of %d messages of listen %d", i, next[l], p.Messages, l)
				}
			}
		}
	}
	if n > 0 {
		c.NonTrivial()
	}
	c.ClassIf(p.Closers > 0, "closed at once")
	return nil
}

func TestC19_Concurrent(t *testing.T) {
	vt.Check(t, vt.Spec[C19cPlan]{
		ID:   "C19",
		Rule: "messages, listens, registrations and closings from many goroutines at once, under the race detector; order, completeness (when not closed) and silence after closing; non-trivial: a message was handed over",
		Gen: func(t *rapid.T) C19cPlan {
			return C19cPlan{
				Messages: rapid.IntRange(1, 40).Draw(t, "messages"), Listens: rapid.IntRange(1, 4).Draw(t, "listens"),
				Handlers: rapid.IntRange(1, 3).Draw(t, "handlers"), Registers: rapid.IntRange(0, 3).Draw(t, "registers"),
				Closers: rapid.IntRange(0, 3).Draw(t, "closers"), Prefetch: rapid.Bool().Draw(t, "prefetch"), Spin: rapid.SampledFrom([]int{0, 0, 1, 10, 100}).Draw(t, "spin"),
			}
		},
		Run:   bubbled(t, runC19c),
		Quick: 1500, Thorough: 80000,
	})
}
