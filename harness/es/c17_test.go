package es

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"pgregory.net/rapid"

	"vanflowverif/fake"
	"vanflowverif/vt"
)

// Src is the details of a source.
type Src struct {
	ID      string `json:"id"`
	Version int    `json:"v,omitempty"`
	Type    string `json:"type,omitempty"`
	Address string `json:"address,omitempty"`
	Direct  string `json:"direct,omitempty"`
	Seen    int    `json:"seen,omitempty"` // ms before now, for additions; 0: unset
}

func (s Src) info() eventsource.Info {
	i := eventsource.Info{ID: s.ID, Version: s.Version, Type: s.Type, Address: s.Address, Direct: s.Direct}
	if s.Seen > 0 {
		i.LastSeen = time.Now().Add(-ms(s.Seen))
	}
	return i
}

func (s Src) beacon() *amqp.Message {
	return vanflow.BeaconMessage{Version: uint32(s.Version), SourceType: s.Type, Address: s.Address, Direct: s.Direct, Identity: s.ID}.Encode()
}

// DOp is an operation on a discovery.
type DOp struct {
	Op   string `json:"op"` // beacon, add, forget, get, list, bad, wait, burst
	Src  Src    `json:"src"`
	N    int    `json:"n,omitempty"`    // burst, kind of bad message, or ms
	Back bool   `json:"back,omitempty"` // the next beacon follows at once
}

type DHandler struct {
	Slow int   `json:"ms,omitempty"`
	Ops  []DOp `json:"ops,omitempty"` // performed by the handler (add, forget, get, list)
}

type C17Plan struct {
	Address  string     `json:"address,omitempty"`
	Before   []DOp      `json:"before,omitempty"` // before it runs
	Ops      []DOp      `json:"ops"`
	Handlers []DHandler `json:"handlers,omitempty"` // what the nth handler call does
	NoD      bool       `json:"no_discovered,omitempty"`
	NoF      bool       `json:"no_forgotten,omitempty"`
}

type dEvent struct {
	forgotten bool
	info      eventsource.Info
}

func (e dEvent) String() string {
	k := "discovered"
	if e.forgotten {
		k = "forgotten"
	}
	return fmt.Sprintf("%s %+v", k, e.info)
}

// dModel is what discovery should know.
type dModel struct {
	known  map[string]eventsource.Info
	events []dEvent
}

func (m *dModel) add(i eventsource.Info) bool {
	if _, ok := m.known[i.ID]; ok {
		return false
	}
	m.known[i.ID] = i
	m.events = append(m.events, dEvent{false, i})
	return true
}

func (m *dModel) forget(id string) bool {
	i, ok := m.known[id]
	if ok {
		delete(m.known, id)
		m.events = append(m.events, dEvent{true, i})
	}
	return ok
}

func (m *dModel) beacon(s Src) {
	i, ok := m.known[s.ID]
	if !ok {
		s.Seen = 0
		i = s.info()
		i.LastSeen = time.Now()
		m.add(i)
		return
	}
	i.LastSeen = time.Now()
	m.known[s.ID] = i
}

func sameInfo(a, b eventsource.Info) bool {
	return a.LastSeen.Equal(b.LastSeen) && sameDetails(a, b)
}

func sameDetails(a, b eventsource.Info) bool {
	a.LastSeen, b.LastSeen = time.Time{}, time.Time{}
	return a == b
}

func (m *dModel) compare(d *eventsource.Discovery, ids []string) error {
	list := d.List()
	seen := map[string]bool{}
	for _, i := range list {
		want, ok := m.known[i.ID]
		if !ok {
			return fmt.Errorf("%q is listed, but not known", i.ID)
		}
		if seen[i.ID] {
			return fmt.Errorf("%q is listed twice", i.ID)
		}
		seen[i.ID] = true
		if !sameInfo(want, i) {
			return fmt.Errorf("%q is listed as %+v, want %+v", i.ID, i, want)
		}
	}
	if len(list) != len(m.known) {
		return fmt.Errorf("%d sources are listed, want %d", len(list), len(m.known))
	}
	for _, id := range ids {
		got, ok := d.Get(id)
		want, known := m.known[id]
		if ok != known {
			return fmt.Errorf("getting %q: %v, want %v", id, ok, known)
		}
		if ok && !sameInfo(want, got) {
			return fmt.Errorf("getting %q: %+v, want %+v", id, got, want)
		}
	}
	return nil
}

const badKinds = 9

func badBeacon(kind int, id string) *amqp.Message {
	s := func(x string) *string { return &x }
	props := map[string]any{"v": uint32(1), "sourceType": "ROUTER", "address": "mc/sfe." + id, "direct": "sfe." + id, "id": id}
	m := &amqp.Message{Properties: &amqp.MessageProperties{To: s("mc/sfe.all"), Subject: s("BEACON")}, ApplicationProperties: props}
	switch kind % badKinds {
	case 0:
		m.Properties = nil
	case 1:
		m.Properties.Subject = nil
	case 2:
		m.Properties.Subject = s("HEARTBEAT")
	case 3:
		m.Properties.Subject = s("FLUSH")
	case 4:
		m.Properties.Subject = s("RECORD")
		m.Value = []any{map[any]any{uint32(0): uint32(0), uint32(1): id}}
	case 5:
		delete(props, "id")
	case 6:
		props["id"] = ""
	case 7:
		props["id"] = uint32(7)
	case 8:
		m.ApplicationProperties = nil
	}
	return m
}

func runC17(c *vt.Case, p C17Plan) error {
	net := fake.New()
	net.Keep = true
	addr := p.Address
	if addr == "" {
		addr = "mc/sfe.all"
	}
	d := eventsource.NewDiscovery(net.Container(), eventsource.DiscoveryOptions{BeaconAddress: p.Address})
	model := &dModel{known: map[string]eventsource.Info{}}
	ids := []string{"", "nobody"}
	for _, ops := range [][]DOp{p.Before, p.Ops} {
		for _, o := range ops {
			ids = append(ids, o.Src.ID)
		}
	}
	l := newLock()
	var failure error
	fail := func(format string, args ...any) {
		if failure == nil {
			failure = fmt.Errorf(format, args...)
		}
	}
	// the lock is held
	local := func(o DOp) {
		switch o.Op {
		case "add":
			i := o.Src.info()
			if got, want := d.Add(i), model.add(i); got != want {
				fail("adding %q: %v, want %v", i.ID, got, want)
			}
		case "forget":
			if got, want := d.Forget(o.Src.ID), model.forget(o.Src.ID); got != want {
				fail("forgetting %q: %v, want %v", o.Src.ID, got, want)
			}
		case "get", "list":
			if err := model.compare(d, ids); err != nil {
				fail("%w", err)
			}
		}
	}
	for _, o := range p.Before {
		local(o)
	}
	var events []dEvent
	calls, nested := 0, 0
	active := false
	handle := func(e dEvent) {
		l.acquire()
		if active {
			fail("two handlers run at once")
		}
		active = true
		events = append(events, e)
		n := calls
		calls++
		l.release()
		if n < len(p.Handlers) {
			h := p.Handlers[n]
			if h.Slow > 0 {
				time.Sleep(ms(h.Slow))
			}
			for _, o := range h.Ops {
				l.acquire()
				local(o)
				nested++
				l.release()
			}
		}
		l.acquire()
		active = false
		l.release()
	}
	handlers := eventsource.DiscoveryHandlers{}
	if !p.NoD {
		handlers.Discovered = func(i eventsource.Info) { handle(dEvent{false, i}) }
	}
	if !p.NoF {
		handlers.Forgotten = func(i eventsource.Info) { handle(dEvent{true, i}) }
	}
	ctx, cancel := context.WithCancel(background())
	defer cancel()
	var runErr error
	done := running(func() { runErr = d.Run(ctx, handlers) })
	beacons, most := 0, 0
	held := false
	for i, o := range p.Ops {
		if !held {
			l.acquire()
		}
		held = false
		switch o.Op {
		case "wait":
			l.release()
			sleep(ms(o.N))
			l.acquire()
		case "beacon":
			net.Inject(addr, fake.Item{Msg: o.Src.beacon()})
			model.beacon(o.Src)
			beacons++
			if o.Back && i+1 < len(p.Ops) && p.Ops[i+1].Op == "beacon" {
				held = true
				continue
			}
		case "burst":
			for j := 0; j < o.N; j++ {
				s := o.Src
				s.ID = fmt.Sprintf("%s-%d", s.ID, j)
				if o.Src.Seen == 0 {
					net.Inject(addr, fake.Item{Msg: s.beacon()})
					model.beacon(s)
				} else {
					local(DOp{Op: "add", Src: s})
				}
			}
			sleep(0)
			most = max(most, o.N)
		case "bad":
			net.Inject(addr, fake.Item{Msg: badBeacon(o.N, o.Src.ID)})
		default:
			local(o)
		}
		sleep(0)
		if err := model.compare(d, ids); err != nil {
			fail("after operation %d (%s): %w", i, o.Op, err)
		}
		if isDone(done) {
			fail("discovery ended after operation %d (%s): %v", i, o.Op, runErr)
		}
		failed := failure
		l.release()
		if failed != nil {
			return failed
		}
	}
	wait := 1000
	for _, h := range p.Handlers {
		wait += h.Slow
	}
	sleep(ms(wait))
	if err := model.compare(d, ids); err != nil {
		fail("at the end: %w", err)
	}
	var want []dEvent
	for _, e := range model.events {
		if e.forgotten && !p.NoF || !e.forgotten && !p.NoD {
			want = append(want, e)
		}
	}
	for i := 0; i < len(want) || i < len(events); i++ {
		switch {
		case i >= len(want):
			fail("unexpected event: %v", events[i])
		case i >= len(events):
			fail("missing event (%d of %d came): %v", len(events), len(want), want[i])
		case want[i].forgotten != events[i].forgotten || !sameDetails(want[i].info, events[i].info):
			fail("event %d: %v, want %v", i, events[i], want[i])
		}
		if failure != nil {
			return failure
		}
	}
	cancel()
	sleep(time.Second)
	if !isDone(done) {
		return fmt.Errorf("discovery did not stop")
	}
	if failure != nil {
		return failure
	}
	forgotten := false
	for _, e := range model.events {
		forgotten = forgotten || e.forgotten
	}
	if len(model.events) > 2 && forgotten && beacons > 0 {
		c.NonTrivial()
	}
	c.ClassIf(nested > 0, "handlers use discovery")
	c.ClassIf(most > 32, "more than 32 events at once")
	c.ClassIf(len(p.Before) > 0, "sources added before it runs")
	return nil
}

func genSrc(t *rapid.T) Src {
	return Src{
		ID:      rapid.SampledFrom([]string{"a", "b", "c", "d", "ü"}).Draw(t, "id"),
		Version: rapid.IntRange(0, 3).Draw(t, "v"),
		Type:    rapid.SampledFrom([]string{"", "ROUTER", "CONTROLLER"}).Draw(t, "type"),
		Address: rapid.SampledFrom([]string{"", "mc/sfe.a", "mc/sfe.b"}).Draw(t, "address"),
		Direct:  rapid.SampledFrom([]string{"", "sfe.a", "sfe.b"}).Draw(t, "direct"),
		Seen:    rapid.SampledFrom([]int{0, 1, 5000}).Draw(t, "seen"),
	}
}

func genDOps(t *rapid.T, kinds []string, n int) (ops []DOp) {
	for i := rapid.IntRange(0, n).Draw(t, "ops"); i > 0; i-- {
		o := DOp{Op: rapid.SampledFrom(kinds).Draw(t, "op"), Src: genSrc(t)}
		switch o.Op {
		case "beacon":
			o.Back = rapid.IntRange(0, 3).Draw(t, "back") == 0
		case "bad":
			o.N = rapid.IntRange(0, badKinds-1).Draw(t, "bad")
		case "wait":
			o.N = rapid.SampledFrom([]int{1, 7, 50, 1000}).Draw(t, "ms")
		case "burst":
			o.N = rapid.SampledFrom([]int{2, 8, 33, 40, 70, 300}).Draw(t, "n")
		}
		ops = append(ops, o)
	}
	return
}

func genC17(t *rapid.T) C17Plan {
	var p C17Plan
	p.Address = rapid.SampledFrom([]string{"", "", "", "custom"}).Draw(t, "address")
	if rapid.IntRange(0, 3).Draw(t, "early") == 0 {
		p.Before = genDOps(t, []string{"add", "forget", "get"}, 6)
	}
	p.Ops = genDOps(t, []string{"beacon", "beacon", "beacon", "beacon", "add", "add", "forget", "forget", "forget", "get", "bad", "bad", "wait", "wait", "burst"}, 30)
	for i := rapid.SampledFrom([]int{0, 0, 1, 3, 10}).Draw(t, "handlers"); i > 0; i-- {
		h := DHandler{Slow: rapid.SampledFrom([]int{0, 0, 1, 20, 500, 5000}).Draw(t, "slow")}
		if rapid.Bool().Draw(t, "nested") {
			h.Ops = genDOps(t, []string{"add", "forget", "get", "list"}, 3)
		}
		p.Handlers = append(p.Handlers, h)
	}
	p.NoD = rapid.IntRange(0, 15).Draw(t, "nod") == 0
	p.NoF = rapid.IntRange(0, 15).Draw(t, "nof") == 0
	return p
}

func TestC17(t *testing.T) {
	vt.Check(t, vt.Spec[C17Plan]{
		ID:    "C17",
		Rule:  "histories of beacons (also bursts and nine kinds of malformed ones), additions and forgettings before and while discovery runs, with handlers that are slow or perform discovery operations themselves; the known sources, after every operation, and the ordered list of events are compared with a model; non-trivial: at least three events, one of them a forgetting, and a beacon",
		Gen:   genC17,
		Run:   bubbled(t, runC17),
		Quick: 16000, Thorough: 800000,
	})
}

// C17cPlan is concurrent use.
type C17cPlan struct {
	Workers [][]DOp `json:"workers"`
	Nested  bool    `json:"nested,omitempty"` // handlers forget what they learn about
}

func runC17c(c *vt.Case, p C17cPlan) error {
	net := fake.New()
	net.Keep = true
	d := eventsource.NewDiscovery(net.Container(), eventsource.DiscoveryOptions{})
	ctx, cancel := context.WithCancel(background())
	defer cancel()
	var mu sync.Mutex
	var events []dEvent
	adds, forgets := map[string]int{}, map[string]int{}
	handler := func(f bool) func(eventsource.Info) {
		return func(i eventsource.Info) {
			mu.Lock()
			events = append(events, dEvent{f, i})
			n := len(events)
			mu.Unlock()
			if p.Nested && n%3 == 0 {
				ok := d.Forget(i.ID)
				if !ok {
					return
				}
				mu.Lock()
				forgets[i.ID]++
				mu.Unlock()
			}
		}
	}
	done := running(func() {
		d.Run(ctx, eventsource.DiscoveryHandlers{Discovered: handler(false), Forgotten: handler(true)})
	})
	sleep(0)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, ops := range p.Workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, o := range ops {
				switch o.Op {
				case "add":
					if d.Add(o.Src.info()) {
						mu.Lock()
						adds[o.Src.ID]++
						mu.Unlock()
					}
				case "forget":
					if d.Forget(o.Src.ID) {
						mu.Lock()
						forgets[o.Src.ID]++
						mu.Unlock()
					}
				case "beacon":
					net.Inject("mc/sfe.all", fake.Item{Msg: o.Src.beacon()})
				case "get":
					d.Get(o.Src.ID)
				case "list":
					d.List()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	sleep(time.Second)
	known := map[string]bool{}
	for _, i := range d.List() {
		known[i.ID] = true
	}
	state := map[string]bool{}
	gotAdds, gotForgets := map[string]int{}, map[string]int{}
	intro := map[string]eventsource.Info{}
	mu.Lock()
	defer mu.Unlock()
	for n, e := range events {
		id := e.info.ID
		if e.forgotten != state[id] {
			return fmt.Errorf("event %d of %d: %v does not follow from the events before", n, len(events), e)
		}
		state[id] = !e.forgotten
		if e.forgotten {
			gotForgets[id]++
			if !sameDetails(intro[id], e.info) {
				return fmt.Errorf("event %d: %v, but was discovered as %+v", n, e, intro[id])
			}
		} else {
			gotAdds[id]++
			intro[id] = e.info
		}
	}
	var ids []string
	for id := range state {
		ids = append(ids, id)
	}
	for id := range known {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		if state[id] != known[id] {
			return fmt.Errorf("source %q: known is %v, the events say %v", id, known[id], state[id])
		}
		if gotForgets[id] != forgets[id] {
			return fmt.Errorf("source %q: %d forgettings succeeded, %d were reported", id, forgets[id], gotForgets[id])
		}
		if gotAdds[id] < adds[id] {
			return fmt.Errorf("source %q: %d additions succeeded, %d were reported", id, adds[id], gotAdds[id])
		}
	}
	cancel()
	sleep(time.Second)
	if !isDone(done) {
		return fmt.Errorf("discovery did not stop")
	}
	if len(p.Workers) > 1 && len(events) > 3 {
		c.NonTrivial()
	}
	c.ClassIf(p.Nested, "handlers forget")
	return nil
}

func TestC17_Concurrent(t *testing.T) {
	vt.Check(t, vt.Spec[C17cPlan]{
		ID:   "C17",
		Rule: "two to six goroutines adding, forgetting, listing and announcing the same few sources at once, under the race detector; the events of each source must alternate, agree with the results of the operations and with what is known at the end; non-trivial: at least four events",
		Gen: func(t *rapid.T) C17cPlan {
			var p C17cPlan
			for i := rapid.IntRange(2, 6).Draw(t, "workers"); i > 0; i-- {
				p.Workers = append(p.Workers, genDOps(t, []string{"add", "add", "forget", "forget", "beacon", "get", "list"}, 20))
			}
			p.Nested = rapid.Bool().Draw(t, "nested")
			return p
		},
		Run:   bubbled(t, runC17c),
		Quick: 2000, Thorough: 100000,
	})
}
