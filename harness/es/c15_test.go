package es

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/store"
	"pgregory.net/rapid"

	"vanflowverif/fake"
	"vanflowverif/rec"
	"vanflowverif/vt"
)

// Req is one or more flush requests made at a time.
type Req struct {
	At     int  `json:"at"`
	N      int  `json:"n,omitempty"`      // more than one
	Err    bool `json:"err,omitempty"`    // a receive error instead
	Accept bool `json:"accept,omitempty"` // accepting it fails
}

// Mut is a change to a store.
type Mut struct {
	At    int      `json:"at"`
	Store int      `json:"store"`
	Put   *rec.Rec `json:"put,omitempty"`
	Del   string   `json:"del,omitempty"`
}

// Hook is a change made right after the nth listing of a store.
type Hook struct {
	Store int      `json:"store"`
	Nth   int      `json:"nth"`
	Put   *rec.Rec `json:"put,omitempty"`
	Del   string   `json:"del,omitempty"`
	Err   bool     `json:"err,omitempty"` // the listing fails instead
}

type C15Plan struct {
	Stores  [][]rec.Rec    `json:"stores"`
	Delay   int            `json:"delay"`
	Batch   int            `json:"batch"`
	Reqs    []Req          `json:"reqs"`
	Muts    []Mut          `json:"muts,omitempty"`
	Hooks   []Hook         `json:"hooks,omitempty"`
	Updates []int          `json:"updates,omitempty"` // times of published updates
	Sends   []fake.Outcome `json:"sends,omitempty"`   // slow deliveries
}

// hooked is a store that changes, or fails, when it is listed.
type hooked struct {
	store.Interface
	mu    sync.Mutex
	n     int
	hooks []Hook
	put   func(rec.Rec)
	del   func(string)
}

func (h *hooked) List(ctx context.Context, sel *store.Selector) (store.Set, error) {
	h.mu.Lock()
	h.n++
	n := h.n
	h.mu.Unlock()
	for _, k := range h.hooks {
		if k.Nth == n && k.Err {
			return store.Set{}, errors.New("listing fails")
		}
	}
	set, err := h.Interface.List(ctx, sel)
	for _, k := range h.hooks {
		if k.Nth == n && !k.Err {
			if k.Put != nil {
				h.put(*k.Put)
			} else {
				h.del(k.Del)
			}
		}
	}
	return set, err
}

func typeFor(id string) uint32 { return rec.RecordCodes[int(id[0])%len(rec.RecordCodes)] }

func runC15(c *vt.Case, p C15Plan) error {
	net := fake.New()
	const addr, direct = "mc/sfe.src", "sfe.src"
	net.Plan(addr, p.Sends)
	var ifaces []store.Interface
	model := make([]map[string]rec.Rec, len(p.Stores))
	put := make([]func(rec.Rec), len(p.Stores))
	del := make([]func(string), len(p.Stores))
	touched := map[string]bool{}
	for i, recs := range p.Stores {
		st := store.NewDefaultCachingStore(store.CacheConfig{})
		put[i] = func(r rec.Rec) {
			e := store.Entry{Record: r.Record(len(r.A)%2 == 0)}
			e.TypeMeta = e.Record.GetTypeMeta()
			if err := st.Add(background(), e); err != nil {
				if err := st.Update(background(), e); err != nil {
					vt.Abort("putting a record: %v", err)
				}
			}
		}
		del[i] = func(id string) {
			st.Delete(background(), store.Entry{Record: rec.Rec{Type: typeFor(id), ID: vt.S(id)}.Record(false)})
		}
		model[i] = map[string]rec.Rec{}
		for _, r := range recs {
			put[i](r)
			model[i][string(r.ID)] = r.Normal()
		}
		h := &hooked{Interface: st, put: put[i], del: del[i]}
		for _, k := range p.Hooks {
			if k.Store == i {
				h.hooks = append(h.hooks, k)
				if k.Put != nil {
					touched[string(k.Put.ID)] = true
				} else if !k.Err {
					touched[k.Del] = true
				}
			}
		}
		ifaces = append(ifaces, h)
	}
	m := eventsource.NewManager(net.Container(), eventsource.ManagerConfig{
		Source: eventsource.Info{ID: "src", Address: addr, Direct: direct},
		Stores: ifaces, FlushDelay: ms(p.Delay), FlushBatchSize: p.Batch,
		BeaconInterval: time.Hour, HeartbeatInterval: time.Hour,
	})
	ctx, cancel := context.WithCancel(background())
	defer cancel()
	done := running(func() { m.Run(ctx) })
	sleep(0)
	t0 := time.Now()

	// the timeline
	type step struct {
		at int
		do func()
	}
	type state struct {
		from   time.Time
		stores []map[string]rec.Rec
	}
	snapshot := func() state {
		s := state{from: time.Now()}
		for _, mm := range model {
			x := map[string]rec.Rec{}
			for k, v := range mm {
				x[k] = v
			}
			s.stores = append(s.stores, x)
		}
		return s
	}
	states := []state{snapshot()}
	type request struct {
		at       time.Time
		optional bool
	}
	var reqs []request
	var steps []step
	for _, r := range p.Reqs {
		steps = append(steps, step{r.At, func() {
			it := fake.Item{}
			if r.Err {
				it.Err = fake.ErrInjected
				for i := 0; i < max(1, r.N); i++ {
					net.Inject(direct, it)
				}
				return
			}
			if r.Accept {
				it.AcceptErr = fake.ErrInjected
			}
			for i := 0; i < max(1, r.N); i++ {
				it.Msg = vanflow.FlushMessage{MessageProps: vanflow.MessageProps{To: direct}}.Encode()
				net.Inject(direct, it)
				reqs = append(reqs, request{time.Now(), r.Accept})
			}
		}})
	}
	for _, mu := range p.Muts {
		steps = append(steps, step{mu.At, func() {
			if mu.Put != nil {
				put[mu.Store](*mu.Put)
				model[mu.Store][string(mu.Put.ID)] = mu.Put.Normal()
			} else {
				del[mu.Store](mu.Del)
				delete(model[mu.Store], mu.Del)
			}
			states = append(states, snapshot())
		}})
	}
	for i, at := range p.Updates {
		steps = append(steps, step{at, func() {
			r := rec.Rec{Type: 0, ID: vt.S(fmt.Sprintf("U%d", i)), A: map[string]rec.Val{"Name": rec.VS("u")}}
			m.PublishUpdate(eventsource.RecordUpdate{Curr: r.Record(false)})
		}})
	}
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].at < steps[j].at })
	at := 0
	for _, s := range steps {
		sleep(ms(s.at - at))
		at = s.at
		s.do()
		sleep(0)
	}
	slow := 0
	for _, o := range p.Sends {
		slow += o.Delay
	}
	sleep(ms(slow+p.Delay*3) + 5*time.Second)
	if isDone(done) {
		return fmt.Errorf("the manager stopped by itself")
	}
	cancel()
	sleep(time.Second)

	// what was sent
	type sent struct {
		at   time.Time
		recs []rec.Rec
	}
	var msgs []sent
	for _, a := range net.On(addr) {
		if s := a.Msg.Properties.Subject; s != nil && *s == "HEARTBEAT" {
			continue
		}
		recs, err := records(a.Msg)
		if err != nil {
			return err
		}
		if len(recs) == 0 || recs[0].ID[0] == 'U' {
			continue
		}
		if p.Batch > 0 && len(recs) > p.Batch {
			return fmt.Errorf("message with %d records sent at %v, at most %d are allowed", len(recs), a.Start.Sub(t0), p.Batch)
		}
		msgs = append(msgs, sent{a.Start, recs})
	}
	count := func(stores []map[string]rec.Rec) map[string]int {
		out := map[string]int{}
		for _, s := range stores {
			for id, r := range s {
				if !touched[id] {
					out[r.Canon()]++
				}
			}
		}
		return out
	}
	full := func(n int) int { // messages of a transmission without a batch size
		k := 0
		for _, s := range states[n].stores {
			if len(s) > 0 {
				k++
			}
		}
		return k
	}
	compare := func(want, got map[string]int, k int) error {
		for w, n := range want {
			if got[w] != n*k {
				return fmt.Errorf("record %s was sent %d times, want %d", w, got[w], n*k)
			}
		}
		for g, n := range got {
			if want[g] == 0 {
				return fmt.Errorf("record %s was sent %d times, but is not in any store", g, n)
			}
		}
		return nil
	}
	for _, st := range states {
		if len(count(st.stores)) > 0 {
			continue
		}
		if len(states) == 1 {
			for _, x := range msgs {
				for _, r := range x.recs {
					if !touched[string(r.ID)] {
						return fmt.Errorf("record %s sent, but no store holds any", r.Canon())
					}
				}
			}
		}
		return nil // transmissions cannot be told from nothing
	}
	var begins []time.Time
	if slow == 0 {
		// every transmission happens at one instant
		for i := 0; i < len(msgs); {
			at, j := msgs[i].at, i
			got := map[string]int{}
			for ; j < len(msgs) && msgs[j].at.Equal(at); j++ {
				seen := map[string]bool{}
				for _, r := range msgs[j].recs {
					if touched[string(r.ID)] {
						if seen[string(r.ID)] {
							c.Class("touched twice")
						}
						seen[string(r.ID)] = true
						continue
					}
					got[r.Canon()]++
				}
			}
			n := 0
			for n+1 < len(states) && !states[n+1].from.After(at) {
				n++
			}
			want := count(states[n].stores)
			k := 1
			if p.Delay == 0 {
				arrived := 0
				for _, r := range reqs {
					if r.at.Equal(at) {
						arrived++
					}
				}
				for w := range want {
					k = min(max(1, got[w]/want[w]), max(1, arrived))
					break
				}
			}
			if err := compare(want, got, k); err != nil {
				return fmt.Errorf("transmission at %v (%d at once): %w", at.Sub(t0), k, err)
			}
			if p.Batch <= 0 && j-i > k*full(n) && len(touched) == 0 {
				return fmt.Errorf("transmission at %v took %d messages for %d stores without a batch size", at.Sub(t0), j-i, full(n))
			}
			for ; k > 0; k-- {
				begins = append(begins, at)
			}
			i = j
		}
	} else {
		want := count(states[0].stores)
		total := 0
		for _, n := range want {
			total += n
		}
		got, g := map[string]int{}, 0
		for _, x := range msgs {
			if g == 0 {
				begins = append(begins, x.at)
			}
			for _, r := range x.recs {
				got[r.Canon()]++
				g++
			}
			if g >= total {
				if err := compare(want, got, 1); err != nil {
					return fmt.Errorf("transmission that began at %v: %w", begins[len(begins)-1].Sub(t0), err)
				}
				got, g = map[string]int{}, 0
			}
		}
		if g > 0 {
			if err := compare(want, got, 1); err != nil {
				return fmt.Errorf("last transmission: %w", err)
			}
		}
	}
	// requests and transmissions
	if slow == 0 {
		i := 0
		for _, b := range begins {
			if i < len(reqs) && !reqs[i].at.After(b) {
				if b.Sub(reqs[i].at) < ms(p.Delay) {
					return fmt.Errorf("transmission began at %v, %v after the request that triggered it", b.Sub(t0), b.Sub(reqs[i].at))
				}
			} else {
				return fmt.Errorf("transmission at %v without a request since the previous one", b.Sub(t0))
			}
			if p.Delay == 0 {
				i++ // requests of the same instant may be answered one by one or together
				for i < len(reqs) && reqs[i].at.Before(b) {
					i++
				}
				continue
			}
			for i < len(reqs) && !reqs[i].at.After(b) {
				i++
			}
		}
	} else {
		k, t := 0, time.Time{}
		for _, r := range reqs { // as many transmissions as possible
			if k == 0 || r.at.After(t) || p.Delay == 0 {
				k, t = k+1, r.at.Add(ms(p.Delay))
			}
		}
		if len(begins) > k {
			return fmt.Errorf("%d transmissions, the requests allow %d", len(begins), k)
		}
		if len(begins) > 0 && begins[0].Before(reqs[0].at.Add(ms(p.Delay))) {
			return fmt.Errorf("first transmission at %v, less than %v after the first request", begins[0].Sub(t0), ms(p.Delay))
		}
	}
	for _, r := range reqs {
		if r.optional {
			continue
		}
		if len(begins) == 0 || begins[len(begins)-1].Before(r.at) {
			return fmt.Errorf("request of %v was never answered", r.at.Sub(t0))
		}
	}
	if len(begins) > 0 && len(msgs) > 0 {
		c.NonTrivial()
	}
	c.ClassIf(len(begins) > 1, "several transmissions")
	c.ClassIf(len(begins) < len(reqs) && len(begins) > 0, "requests answered together")
	c.ClassIf(len(reqs) > 2000, "more than 2000 requests at once")
	c.ClassIf(len(states) > 1, "stores change between transmissions")
	c.ClassIf(len(p.Hooks) > 0, "stores change or fail while listed")
	c.ClassIf(slow > 0, "slow deliveries")
	c.ClassIf(len(msgs) > 256, "more messages than the queue holds")
	return nil
}

var c15IDs = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}

func genC15Rec(t *rapid.T) rec.Rec {
	id := rapid.SampledFrom(c15IDs).Draw(t, "id")
	return genRecord(t, []uint32{typeFor(id)}, []string{id}, rapid.IntRange(0, 5).Draw(t, "small") > 0)
}

func genC15(t *rapid.T) C15Plan {
	var p C15Plan
	p.Delay = rapid.SampledFrom([]int{0, 5, 15, 35, 105, 1005}).Draw(t, "delay")
	p.Batch = rapid.SampledFrom([]int{0, 1, 2, 3, 4, 10, 100, -1}).Draw(t, "batch")
	ns := rapid.IntRange(1, 3).Draw(t, "stores")
	for i := 0; i < ns; i++ {
		var recs []rec.Rec
		used := map[vt.S]bool{}
		for j := rapid.IntRange(0, 9).Draw(t, "n"); j > 0; j-- {
			if r := genC15Rec(t); !used[r.ID] {
				used[r.ID] = true
				recs = append(recs, r)
			}
		}
		p.Stores = append(p.Stores, recs)
	}
	big := rapid.IntRange(0, 40).Draw(t, "big") == 0
	if big { // more messages than the manager queues
		i := rapid.IntRange(0, ns-1).Draw(t, "bigstore")
		for j := rapid.SampledFrom([]int{100, 300, 600}).Draw(t, "many"); j > 0; j-- {
			id := fmt.Sprintf("z%d", j)
			p.Stores[i] = append(p.Stores[i], rec.Rec{Type: typeFor(id), ID: vt.S(id)})
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "sentinel") > 0 {
		i := rapid.IntRange(0, ns-1).Draw(t, "sentinelat")
		p.Stores[i] = append(p.Stores[i], rec.Rec{Type: 0, ID: "s", A: map[string]rec.Val{"Name": rec.VS("sentinel")}})
	}
	at := 0
	for i := rapid.IntRange(0, 8).Draw(t, "reqs"); i > 0; i-- {
		at += 10 * rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 4, 5, 10, 11, 30, 100, 101, 200}).Draw(t, "gap")
		r := Req{At: at + 3}
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0:
			r.Err = true
			r.N = rapid.SampledFrom([]int{0, 0, 2, 9, 70, 300}).Draw(t, "errors")
		case 1:
			r.Accept = true
			r.N = rapid.SampledFrom([]int{0, 0, 2, 9, 70}).Draw(t, "errors")
		case 2:
			r.N = rapid.IntRange(2, 20).Draw(t, "together")
			if rapid.IntRange(0, 15).Draw(t, "burst") == 0 {
				r.N = rapid.SampledFrom([]int{300, 2100, 5000}).Draw(t, "burstn")
				if p.Delay == 0 {
					p.Delay = 5
				}
			}
		}
		p.Reqs = append(p.Reqs, r)
	}
	for i := rapid.IntRange(0, 3).Draw(t, "updates"); i > 0; i-- {
		p.Updates = append(p.Updates, 10*rapid.IntRange(0, 300).Draw(t, "upd")+7)
	}
	sort.Ints(p.Updates)
	switch rapid.IntRange(0, 3).Draw(t, "mode") {
	case 0: // slow deliveries of stores that do not change
		for i := rapid.IntRange(1, 10).Draw(t, "sends"); i > 0; i-- {
			p.Sends = append(p.Sends, fake.Outcome{Delay: rapid.SampledFrom([]int{0, 1, 30, 500, 2000}).Draw(t, "d")})
		}
		for i := range p.Reqs { // keep the count of transmissions small
			p.Reqs[i].N = min(p.Reqs[i].N, 20)
		}
		return p
	case 1, 2:
		for i := rapid.IntRange(0, 10).Draw(t, "muts"); i > 0; i-- {
			m := Mut{At: 10*rapid.IntRange(0, max(1, at/10+10)).Draw(t, "mat") + 1, Store: rapid.IntRange(0, ns-1).Draw(t, "mst")}
			if rapid.IntRange(0, 2).Draw(t, "del") == 0 {
				m.Del = rapid.SampledFrom(c15IDs).Draw(t, "delid")
			} else {
				r := genC15Rec(t)
				m.Put = &r
			}
			p.Muts = append(p.Muts, m)
		}
		sort.SliceStable(p.Muts, func(i, j int) bool { return p.Muts[i].At < p.Muts[j].At })
	}
	for i := rapid.SampledFrom([]int{0, 0, 1, 2, 4}).Draw(t, "hooks"); i > 0; i-- {
		h := Hook{Store: rapid.IntRange(0, ns-1).Draw(t, "hst"), Nth: rapid.IntRange(1, 4).Draw(t, "nth")}
		switch rapid.IntRange(0, 3).Draw(t, "hk") {
		case 0:
			h.Err = true
		case 1:
			r := genC15Rec(t)
			h.Put = &r
		default:
			h.Del = rapid.SampledFrom(c15IDs).Draw(t, "hdel")
		}
		p.Hooks = append(p.Hooks, h)
	}
	return p
}

func TestC15(t *testing.T) {
	vt.Check(t, vt.Spec[C15Plan]{
		ID:    "C15",
		Rule:  "one to three stores of arbitrary records that change between, and while they are listed for, transmissions; flush requests at arbitrary times, alone, in bursts of up to 5000, failing to be received or accepted; any batch size and delay, listings that fail, slow deliveries, published updates in between; in virtual time; every transmission is compared with the stores' content at its instant, and the transmissions with the requests; non-trivial: a transmission took place",
		Gen:   genC15,
		Run:   bubbled(t, runC15),
		Quick: 30000, Thorough: 1500000,
	})
}
