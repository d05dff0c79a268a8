package es

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/session"
	"github.com/c-kruse/vanflow/store"
	"pgregory.net/rapid"

	"vanflowverif/fake"
	"vanflowverif/rec"
	"vanflowverif/vt"
)

// VOp is a change of a record in a source's stores.
type VOp struct {
	At  int     `json:"at"`
	How string  `json:"how"` // upsert, accumulate, again
	Rec rec.Rec `json:"rec"`
}

type VSource struct {
	Start      int   `json:"start"` // its manager runs from then on
	Initial    []VOp `json:"initial,omitempty"`
	Ops        []VOp `json:"ops,omitempty"`
	Buffer     int   `json:"buffer,omitempty"`
	Batch      int   `json:"batch,omitempty"`
	FlushDelay int   `json:"flush_delay,omitempty"`
	FlushBatch int   `json:"flush_batch,omitempty"`
	PerType    bool  `json:"per_type,omitempty"` // a store for each type
	Alternate  bool  `json:"alternate,omitempty"`
	Many       int   `json:"many,omitempty"`      // further records
	ListTook   []int `json:"list_took,omitempty"` // time that listings of the stores take to return
}

// slowStore takes time to return what it lists
type slowStore struct {
	store.Interface
	took *[]int
	lock lock
}

func (s slowStore) List(ctx context.Context, sel *store.Selector) (store.Set, error) {
	set, err := s.Interface.List(ctx, sel)
	s.lock.acquire()
	var d int
	if len(*s.took) > 0 {
		d, *s.took = (*s.took)[0], (*s.took)[1:]
	}
	s.lock.release()
	time.Sleep(ms(d))
	return set, err
}

type VCollector struct {
	Listen  int    `json:"listen"`
	Flush   []int  `json:"flush,omitempty"`    // after it began to listen
	How     string `json:"how"`                // "", first (flush on the first message), discover
	PerType bool   `json:"per_type,omitempty"` // a store for each type
}

type C21Plan struct {
	Net        string         `json:"net"` // hold, drop, mock
	Sources    []VSource      `json:"sources"`
	Collectors []VCollector   `json:"collectors"`
	Delays     []fake.Outcome `json:"delays,omitempty"` // of the first source's sends
	Steady     int            `json:"steady,omitempty"` // delay of many sends that follow
}

func (r VOp) typed() string { return fmt.Sprintf("%d/%s", r.Rec.Type, r.Rec.ID) }

func viewKey(e store.Entry) (string, error) {
	return e.Meta.Source.Name + "|" + e.TypeMeta.String() + "|" + e.Record.Identity(), nil
}

func runC21(c *vt.Case, p C21Plan) error {
	var container func() session.Container
	net := fake.New()
	switch p.Net {
	case "mock":
		router := session.NewMockRouter()
		container = func() session.Container { return session.NewMockContainer(router) }
	default:
		net.Route = true
		// a message to one receiver waits for it in any case
		net.Hold = func(addr string) bool { return p.Net == "hold" || !strings.HasPrefix(addr, "mc/") }
		container = net.Container
	}
	ctx, cancel := context.WithCancel(background())
	defer cancel()
	type step struct {
		at int
		do func() error
	}
	var steps []step
	last := 0
	add := func(at int, do func() error) {
		steps = append(steps, step{at, do})
		last = max(last, at)
	}
	model := make([]map[string]rec.Rec, len(p.Sources))
	infos := make([]eventsource.Info, len(p.Sources))
	settle := 30000
	var managers []<-chan struct{}
	for i, s := range p.Sources {
		id := fmt.Sprintf("src%d", i)
		infos[i] = eventsource.Info{ID: id, Version: 1, Type: "ROUTER", Address: "mc/sfe." + id, Direct: "sfe." + id}
		model[i] = map[string]rec.Rec{}
		var m *eventsource.Manager
		handlers := store.EventHandlerFuncs{
			OnAdd:    func(e store.Entry) { m.PublishUpdate(eventsource.RecordUpdate{Curr: e.Record}) },
			OnChange: func(p, e store.Entry) { m.PublishUpdate(eventsource.RecordUpdate{Prev: p.Record, Curr: e.Record}) },
		}
		mk := func() store.Interface {
			return store.NewDefaultCachingStore(store.CacheConfig{Key: viewKey, EventHandlers: handlers})
		}
		stores := map[uint32]store.Interface{}
		var list []store.Interface
		shared := mk()
		for _, t := range rec.RecordCodes {
			stores[t] = shared
			if s.PerType {
				stores[t] = mk()
				list = append(list, stores[t])
			}
		}
		if !s.PerType {
			list = append(list, shared)
		}
		took, tookLock := append([]int{}, s.ListTook...), newLock()
		for i := range list {
			list[i] = slowStore{list[i], &took, tookLock}
		}
		for _, d := range s.ListTook {
			settle += d
		}
		m = eventsource.NewManager(container(), eventsource.ManagerConfig{
			Source: infos[i], Stores: list,
			UpdateBufferTime: ms(s.Buffer), UpdateBatchSize: s.Batch, FlushDelay: ms(s.FlushDelay), FlushBatchSize: s.FlushBatch,
			UseAlternateHeartbeatAddress: s.Alternate,
		})
		settle += (s.Buffer+s.FlushDelay)*(len(s.Ops)+len(s.Initial)+4) + 10000
		ref := store.SourceRef{APIVersion: "v1", Type: "own", Name: id}
		apply := func(o VOp) error {
			st := stores[o.Rec.Type]
			cur, had := model[i][o.typed()]
			next := o.Rec.Clone()
			if had {
				next = cur.Clone()
				for k, v := range o.Rec.A {
					next.A[k] = v
				}
			}
			model[i][o.typed()] = next
			entry := func(r rec.Rec) store.Entry {
				x := r.Record(false)
				return store.Entry{Meta: store.Metadata{Source: ref}, TypeMeta: x.GetTypeMeta(), Record: x}
			}
			switch {
			case o.How == "accumulate":
				return st.Accumulate(ref, o.Rec.Record(false))
			case had:
				return st.Update(ctx, entry(next))
			default:
				return st.Add(ctx, entry(next))
			}
		}
		if s.Many > 0 { // there before the source begins to publish
			var entries []store.Entry
			for n := 0; n < s.Many; n++ {
				r := rec.Rec{Type: rec.RecordCodes[0], ID: vt.S(fmt.Sprintf("a%d", n)), A: map[string]rec.Val{}}
				model[i][VOp{Rec: r}.typed()] = r
				x := r.Record(false)
				entries = append(entries, store.Entry{Meta: store.Metadata{Source: ref}, TypeMeta: x.GetTypeMeta(), Record: x})
			}
			if err := stores[rec.RecordCodes[0]].Replace(ctx, entries); err != nil {
				return err
			}
		}
		for _, o := range s.Initial {
			add(max(0, s.Start-1), func() error { return apply(o) })
		}
		add(s.Start, func() error {
			managers = append(managers, running(func() { m.Run(ctx) }))
			return nil
		})
		for _, o := range s.Ops {
			add(o.At, func() error { return apply(o) })
		}
	}
	for n := 0; p.Steady > 0 && n < 600; n++ {
		p.Delays = append(p.Delays[:len(p.Delays):len(p.Delays)], fake.Outcome{Delay: p.Steady})
	}
	net.Plan(infos[0].Address+"|RECORD", p.Delays)
	for _, d := range p.Delays {
		settle += d.Delay
	}
	type view struct {
		stores  []store.Interface
		flushed []bool
		errs    []error
	}
	views := make([]*view, len(p.Collectors))
	// sources wait for somebody to listen to beacons
	go eventsource.NewDiscovery(container(), eventsource.DiscoveryOptions{}).Run(ctx, eventsource.DiscoveryHandlers{})
	for i, col := range p.Collectors {
		v := &view{flushed: make([]bool, len(p.Sources))}
		views[i] = v
		var reg store.DispatchRegistry
		mk := func() store.Interface {
			st := store.NewDefaultCachingStore(store.CacheConfig{Key: viewKey})
			v.stores = append(v.stores, st)
			return st
		}
		var shared store.Interface
		if !col.PerType {
			shared = mk()
		}
		for _, t := range rec.RecordCodes {
			x := rec.Rec{Type: t, ID: "x"}.Record(false)
			if col.PerType {
				reg.RegisterStore(x, mk())
			} else {
				reg.RegisterStore(x, shared)
			}
		}
		cont := container()
		l := newLock()
		listen := func(info eventsource.Info) *eventsource.Client {
			client := eventsource.NewClient(cont, eventsource.ClientOptions{Source: info})
			d := reg.NewDispatcher(store.SourceRef{APIVersion: "v1", Type: "es", Name: info.ID})
			client.OnRecord(d.Dispatch)
			client.Listen(ctx, eventsource.FromSourceAddress())
			client.Listen(ctx, eventsource.FromSourceAddressHeartbeats())
			return client
		}
		result := func(s int, err error) {
			l.acquire()
			defer l.release()
			if err != nil {
				v.errs = append(v.errs, err)
				return
			}
			v.flushed[s] = true
		}
		switch col.How {
		case "discover":
			add(col.Listen, func() error {
				d := eventsource.NewDiscovery(cont, eventsource.DiscoveryOptions{})
				go d.Run(ctx, eventsource.DiscoveryHandlers{Discovered: func(info eventsource.Info) {
					client := listen(info)
					go func() {
						err := eventsource.FlushOnFirstMessage(ctx, client)
						for s := range infos {
							if infos[s].ID == info.ID {
								result(s, err)
							}
						}
					}()
				}})
				return nil
			})
		default:
			var clients []*eventsource.Client
			add(col.Listen, func() error {
				for s, info := range infos {
					client := listen(info)
					clients = append(clients, client)
					if col.How == "first" {
						sleep(0)
						go func() { result(s, eventsource.FlushOnFirstMessage(ctx, client)) }()
					}
				}
				return nil
			})
			for _, at := range col.Flush {
				for s := range infos {
					add(at, func() error {
						go func() { result(s, clients[s].SendFlush(ctx)) }()
						return nil
					})
				}
			}
		}
	}
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].at < steps[j].at })
	at := 0
	for _, s := range steps {
		sleep(ms(s.at - at))
		at = s.at
		done := make(chan error, 1)
		go func() { done <- s.do() }()
		select {
		case err := <-done:
			if err != nil {
				return err
			}
		case <-time.After(10 * time.Minute):
			return fmt.Errorf("a step at %v is stuck", ms(s.at))
		}
	}
	sleep(ms(settle))
	compared := 0
	for i, v := range views {
		if len(v.errs) > 0 {
			return fmt.Errorf("collector %d: flush failed: %v", i, v.errs)
		}
		got := map[string]rec.Rec{}
		for _, st := range v.stores {
			set, err := st.List(ctx, nil)
			if err != nil {
				return err
			}
			for _, e := range set.Entries {
				r, err := rec.From(e.Record)
				if err != nil {
					return err
				}
				if e.Meta.Source.APIVersion != "v1" || e.Meta.Source.Type != "es" {
					return fmt.Errorf("collector %d: record %s is attributed to %v", i, r.Canon(), e.Meta.Source)
				}
				key := fmt.Sprintf("%s|%d/%s", e.Meta.Source.Name, r.Type, r.ID)
				if _, ok := got[key]; ok {
					return fmt.Errorf("collector %d holds %s twice", i, key)
				}
				got[key] = r.Normal()
			}
		}
		total := 0
		for s := range infos {
			if !v.flushed[s] {
				if p.Collectors[i].How == "discover" || p.Collectors[i].How == "first" {
					return fmt.Errorf("collector %d has not flushed source %d", i, s)
				}
				for key := range got { // partial view
					if len(key) > len(infos[s].ID) && key[:len(infos[s].ID)+1] == infos[s].ID+"|" {
						delete(got, key)
					}
				}
				continue
			}
			for k, want := range model[s] {
				key := infos[s].ID + "|" + k
				g, ok := got[key]
				if !ok {
					return fmt.Errorf("collector %d lacks record %s of source %d", i, want.Canon(), s)
				}
				if d := rec.Diff(want.Normal(), g); d != "" {
					return fmt.Errorf("collector %d, source %d: %s", i, s, d)
				}
				delete(got, key)
				total++
			}
		}
		for k := range got {
			return fmt.Errorf("collector %d holds %s, which no source has", i, k)
		}
		if total > 2 {
			compared++
		}
	}
	if compared > 0 {
		c.NonTrivial()
	}
	c.Class("network: " + p.Net)
	c.ClassIf(len(p.Sources) > 1, "several sources")
	c.ClassIf(len(p.Collectors) > 1, "several collectors")
	for _, col := range p.Collectors {
		c.ClassIf(col.How != "", "collector: "+col.How)
	}
	cancel()
	sleep(time.Hour)
	for _, d := range managers {
		if !isDone(d) {
			return fmt.Errorf("a manager did not stop")
		}
	}
	return nil
}

func genC21(t *rapid.T) C21Plan {
	var p C21Plan
	p.Net = rapid.SampledFrom([]string{"hold", "drop", "drop", "mock"}).Draw(t, "net")
	length := rapid.SampledFrom([]int{20, 300, 5000}).Draw(t, "length")
	when := func(l string) int { return rapid.IntRange(0, length).Draw(t, l) }
	for n := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "sources"); n > 0; n-- {
		var s VSource
		if rapid.Bool().Draw(t, "late") {
			s.Start = when("start")
		}
		s.Buffer = rapid.SampledFrom([]int{0, 0, 5, 100, 1000}).Draw(t, "buffer")
		s.Batch = rapid.SampledFrom([]int{0, 1, 2, 5, 50}).Draw(t, "batch")
		s.FlushDelay = rapid.SampledFrom([]int{0, 0, 5, 100, 1000}).Draw(t, "fdelay")
		s.FlushBatch = rapid.SampledFrom([]int{0, 1, 2, 5, 50}).Draw(t, "fbatch")
		s.PerType = rapid.Bool().Draw(t, "pertype")
		s.Alternate = rapid.Bool().Draw(t, "alt")
		for i := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 6}).Draw(t, "took"); i > 0; i-- {
			s.ListTook = append(s.ListTook, rapid.SampledFrom([]int{0, 1, length / 10, length / 2}).Draw(t, "listing"))
		}
		if rapid.IntRange(0, 49).Draw(t, "many") == 0 {
			s.Many = rapid.SampledFrom([]int{30, 250, 300, 400}).Draw(t, "records")
		}
		types := rec.RecordCodes[rapid.IntRange(0, len(rec.RecordCodes)-1).Draw(t, "types"):]
		op := func() VOp {
			r := genRecord(t, types, []string{"a", "b", "c", "d", "e"}, rapid.IntRange(0, 3).Draw(t, "small") > 0)
			for k, v := range r.A {
				if v.Zero {
					delete(r.A, k)
				}
			}
			return VOp{Rec: r, How: rapid.SampledFrom([]string{"upsert", "accumulate"}).Draw(t, "how")}
		}
		for i := rapid.IntRange(0, 8).Draw(t, "initial"); i > 0; i-- {
			s.Initial = append(s.Initial, op())
		}
		for i := rapid.IntRange(0, 20).Draw(t, "nops"); i > 0; i-- {
			o := op()
			o.At = when("at")
			if rapid.IntRange(0, 3).Draw(t, "same") == 0 && len(s.Ops) > 0 {
				o.At = s.Ops[len(s.Ops)-1].At
			}
			s.Ops = append(s.Ops, o)
		}
		p.Sources = append(p.Sources, s)
	}
	for n := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "collectors"); n > 0; n-- {
		col := VCollector{Listen: when("listen"), How: rapid.SampledFrom([]string{"", "", "first", "discover"}).Draw(t, "chow"), PerType: rapid.Bool().Draw(t, "cpertype")}
		if col.How == "" {
			for i := rapid.IntRange(1, 3).Draw(t, "flushes"); i > 0; i-- {
				col.Flush = append(col.Flush, col.Listen+rapid.IntRange(0, length).Draw(t, "flush"))
			}
		}
		p.Collectors = append(p.Collectors, col)
	}
	if p.Net != "mock" && rapid.IntRange(0, 2).Draw(t, "slow") == 0 {
		for i := rapid.IntRange(1, 10).Draw(t, "delays"); i > 0; i-- {
			p.Delays = append(p.Delays, fake.Outcome{Delay: rapid.SampledFrom([]int{0, 1, 10, 100, 1500}).Draw(t, "delay")})
		}
		if rapid.IntRange(0, 9).Draw(t, "slower") == 0 {
			p.Steady = rapid.SampledFrom([]int{1, 5, 50}).Draw(t, "steady")
		}
	}
	return p
}

func TestC21(t *testing.T) {
	vt.Check(t, vt.Spec[C21Plan]{
		ID:    "C21",
		Rule:  "one to three managers with stores that publish every change, one to three collectors that listen and flush at arbitrary times, on the first message or on discovery, on a network that holds or drops multicast messages without a receiver or on the in-memory router, with any batching and delay settings, slow deliveries, stores that take time to list and stores of hundreds of records; in virtual time; at the end the collectors' stores are compared with the sources'; non-trivial: a collector's view of at least three records was compared",
		Gen:   genC21,
		Run:   bubbled(t, runC21),
		Quick: 12000, Thorough: 600000,
	})
}
