package es

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/store"
	"pgregory.net/rapid"

	"vanflowverif/fake"
	"vanflowverif/rec"
	"vanflowverif/vt"
)

// Upd is a step of a publisher.
type Upd struct {
	Wait    int      `json:"ms,omitempty"` // before
	Prev    *rec.Rec `json:"prev,omitempty"`
	Curr    rec.Rec  `json:"curr"`
	ByValue bool     `json:"byvalue,omitempty"`
	Burst   int      `json:"burst,omitempty"` // publish this many small updates instead
}

type C14Plan struct {
	Buffer     int            `json:"buffer"` // ms
	Batch      int            `json:"batch"`
	FlushDelay int            `json:"flush_delay,omitempty"`
	FlushBatch int            `json:"flush_batch,omitempty"`
	Flushes    []int          `json:"flushes,omitempty"` // times
	Stored     int            `json:"stored,omitempty"`  // records in the store
	Pubs       [][]Upd        `json:"pubs"`
	Sends      []fake.Outcome `json:"sends,omitempty"`
}

// delta is what an update must be sent as.
func delta(prev *rec.Rec, curr rec.Rec) (rec.Rec, bool) {
	c := curr.Normal()
	if prev == nil {
		return c, true
	}
	p := prev.Normal()
	out := rec.Rec{Type: c.Type, ID: c.ID, A: map[string]rec.Val{}}
	for k, v := range c.A {
		if old, ok := p.A[k]; !ok || !rec.EqVal(old, v) {
			out.A[k] = v
		}
	}
	return out, len(out.A) > 0
}

type due struct {
	r  rec.Rec
	at time.Time // publication
}

// expected tells whether the records are the next of their publishers.
func expected(recs []rec.Rec, want [][]due, next []int) bool {
	at := append([]int{}, next...)
	for _, r := range recs {
		var pub int
		if n, _ := fmt.Sscanf(string(r.ID), "%d/", &pub); n != 1 || pub >= len(want) || at[pub] >= len(want[pub]) {
			return false
		}
		if rec.Diff(want[pub][at[pub]].r, r) != "" {
			return false
		}
		at[pub]++
	}
	return true
}

func runC14(c *vt.Case, p C14Plan) error {
	net := fake.New()
	const addr, direct = "mc/sfe.src", "sfe.src"
	net.Plan(addr, p.Sends)
	st := store.NewDefaultCachingStore(store.CacheConfig{})
	for i := 0; i < p.Stored; i++ {
		r := rec.Rec{Type: 0, ID: vt.S(fmt.Sprintf("F%d", i)), A: map[string]rec.Val{"Name": rec.VS("x")}}
		st.Add(background(), store.Entry{Record: r.Record(false)})
	}
	m := eventsource.NewManager(net.Container(), eventsource.ManagerConfig{
		Source:           eventsource.Info{ID: "src", Address: addr, Direct: direct},
		Stores:           []store.Interface{st},
		UpdateBufferTime: ms(p.Buffer), UpdateBatchSize: p.Batch,
		FlushDelay: ms(p.FlushDelay), FlushBatchSize: p.FlushBatch,
	})
	ctx, cancel := context.WithCancel(background())
	defer cancel()
	done := running(func() { m.Run(ctx) })
	sleep(0)
	start := time.Now()

	want := make([][]due, len(p.Pubs))
	var pubs []<-chan struct{}
	total, bursts := 0, false
	for i, steps := range p.Pubs {
		pubs = append(pubs, running(func() {
			for _, u := range steps {
				if u.Wait > 0 {
					time.Sleep(ms(u.Wait))
				}
				if u.Burst > 0 {
					for j := 0; j < u.Burst; j++ {
						r := rec.Rec{Type: 1, ID: vt.S(fmt.Sprintf("%d/b", i)), A: map[string]rec.Val{"Name": rec.VS(fmt.Sprint(len(want[i]), "-", j))}}
						want[i] = append(want[i], due{r, time.Now()})
						m.PublishUpdate(eventsource.RecordUpdate{Curr: r.Record(false)})
					}
					continue
				}
				up := eventsource.RecordUpdate{Curr: u.Curr.Record(u.ByValue)}
				if u.Prev != nil {
					up.Prev = u.Prev.Record(u.ByValue)
				}
				if d, ok := delta(u.Prev, u.Curr); ok {
					want[i] = append(want[i], due{d, time.Now()})
				} else {
					c.Class("update that changes nothing")
				}
				m.PublishUpdate(up)
			}
		}))
		for _, u := range steps {
			bursts = bursts || u.Burst > 200
		}
	}
	for i, at := range p.Flushes {
		d := at
		if i > 0 {
			d -= p.Flushes[i-1]
		}
		sleep(ms(d))
		net.Inject(direct, fake.Item{Msg: vanflow.FlushMessage{MessageProps: vanflow.MessageProps{To: direct}}.Encode()})
	}
	limit := time.NewTimer(2 * time.Hour)
	for _, d := range pubs {
		select {
		case <-d:
		case <-limit.C:
			return fmt.Errorf("a publisher is still blocked after two hours")
		}
	}
	limit.Stop()
	slow := 0
	for _, o := range p.Sends {
		slow += o.Delay
	}
	sleep(ms(p.Buffer + slow + (p.FlushDelay+1)*(len(p.Flushes)+1) + 1000))
	cancel()
	sleep(time.Second)
	if !isDone(done) {
		return fmt.Errorf("the manager did not stop")
	}

	perMessage := 1
	if p.Buffer > 0 && p.Batch > 1 {
		perMessage = p.Batch
	}
	timed := slow == 0 && len(p.Flushes) == 0 && !bursts
	next := make([]int, len(p.Pubs))
	var prev *fake.Attempt
	merged := 0
	for _, a := range net.On(addr) {
		if s := a.Msg.Properties.Subject; s != nil && *s == "HEARTBEAT" {
			continue
		}
		recs, err := records(a.Msg)
		if err != nil {
			return err
		}
		again := prev != nil && prev.Err != nil && fmt.Sprint(prev.Msg.Value) == fmt.Sprint(a.Msg.Value)
		prev = &a
		if again && !expected(recs, want, next) {
			continue // a failed message is sent again
		}
		if len(recs) == 0 {
			return fmt.Errorf("message without records sent at %v", a.Start.Sub(start))
		}
		if recs[0].ID[0] == 'F' {
			for _, r := range recs {
				if r.ID[0] != 'F' {
					return fmt.Errorf("update sent among the records of a flush")
				}
			}
			c.Class("flush in between")
			continue
		}
		if len(recs) > perMessage {
			return fmt.Errorf("message with %d records sent at %v, at most %d are allowed", len(recs), a.Start.Sub(start), perMessage)
		}
		if len(recs) > 1 {
			merged++
		}
		for _, r := range recs {
			var pub int
			if n, _ := fmt.Sscanf(string(r.ID), "%d/", &pub); n != 1 || pub >= len(want) {
				return fmt.Errorf("record %q was never published", r.ID)
			}
			if next[pub] >= len(want[pub]) {
				return fmt.Errorf("publisher %d: unexpected record sent at %v: %s", pub, a.Start.Sub(start), r.Canon())
			}
			w := want[pub][next[pub]]
			if d := rec.Diff(w.r, r); d != "" {
				return fmt.Errorf("publisher %d, effective update %d, sent at %v: %s", pub, next[pub], a.Start.Sub(start), d)
			}
			next[pub]++
			deadline := w.at
			if perMessage > 1 {
				deadline = deadline.Add(ms(p.Buffer))
			}
			if timed && a.Start.After(deadline) {
				return fmt.Errorf("publisher %d: update of %v was sent at %v, %v too late", pub, w.at.Sub(start), a.Start.Sub(start), a.Start.Sub(deadline))
			}
			if a.Start.Before(w.at) {
				return fmt.Errorf("publisher %d: update was sent before it was published", pub)
			}
			total++
		}
	}
	for i := range want {
		if next[i] != len(want[i]) {
			return fmt.Errorf("publisher %d: %d of %d effective updates were sent; missing %s", i, next[i], len(want[i]), want[i][next[i]].r.Canon())
		}
	}
	if total > 1 {
		c.NonTrivial()
	}
	c.ClassIf(merged > 0, "several updates in a message")
	c.ClassIf(timed, "timing checked")
	c.ClassIf(bursts, "burst beyond the queues")
	c.ClassIf(len(p.Pubs) > 1, "several publishers")
	for _, o := range p.Sends {
		c.ClassIf(o.Kind == "fail", "send fails")
		c.ClassIf(o.Delay > 0, "send takes time")
	}
	return nil
}

func genC14(t *rapid.T) C14Plan {
	var p C14Plan
	p.Buffer = rapid.SampledFrom([]int{0, 1, 5, 20, 100, 1000}).Draw(t, "buffer")
	p.Batch = rapid.SampledFrom([]int{0, 1, 2, 2, 3, 4, 10, 100, 240, 600, -1}).Draw(t, "batch")
	np := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "pubs")
	for i := 0; i < np; i++ {
		var steps []Upd
		last := map[string]rec.Rec{}
		for j := rapid.IntRange(0, 12).Draw(t, "n"); j > 0; j-- {
			var u Upd
			u.Wait = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 3, 7, 19, 20, 21, 50, 99, 150, 999, 1500}).Draw(t, "wait")
			if rapid.IntRange(0, 25).Draw(t, "bk") == 0 {
				u.Burst = rapid.SampledFrom([]int{3, 9, 40, 300, 700, 1500}).Draw(t, "burst")
				steps = append(steps, u)
				continue
			}
			id := fmt.Sprintf("%d/%s", i, rapid.SampledFrom([]string{"a", "b", "c"}).Draw(t, "id"))
			typ := rapid.SampledFrom([]uint32{0, 1, 6, 7, 14, rec.CustomCode}).Draw(t, "type")
			u.ByValue = rapid.Bool().Draw(t, "byvalue")
			old, had := last[id]
			if had {
				typ = old.Type
			}
			u.Curr = genRecord(t, []uint32{typ}, []string{id}, rapid.IntRange(0, 3).Draw(t, "small") > 0)
			if had && rapid.IntRange(0, 9).Draw(t, "noprev") > 0 {
				pr := old.Clone()
				u.Prev = &pr
				switch rapid.IntRange(0, 4).Draw(t, "how") {
				case 0: // the same again
					u.Curr = old.Clone()
				case 1: // some attributes cleared
					u.Curr = old.Clone()
					for k := range u.Curr.A {
						if len(k)%2 == 0 {
							delete(u.Curr.A, k)
						}
					}
				case 2: // below the protocol's resolution
					u.Curr = old.Clone()
					for k, v := range u.Curr.A {
						if v.T != nil {
							v.N = (v.N + 1) % 1000
							u.Curr.A[k] = v
						}
					}
				}
			}
			last[id] = u.Curr
			steps = append(steps, u)
		}
		p.Pubs = append(p.Pubs, steps)
	}
	if rapid.IntRange(0, 2).Draw(t, "flush") == 0 {
		p.FlushDelay = rapid.SampledFrom([]int{0, 5, 100}).Draw(t, "flushdelay")
		p.FlushBatch = rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "flushbatch")
		p.Stored = rapid.IntRange(0, 6).Draw(t, "stored")
		at := 0
		for i := rapid.IntRange(1, 3).Draw(t, "flushes"); i > 0; i-- {
			at += rapid.IntRange(0, 60).Draw(t, "at")
			p.Flushes = append(p.Flushes, at)
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "sendk") == 0 {
		for i := rapid.IntRange(1, 8).Draw(t, "sends"); i > 0; i-- {
			p.Sends = append(p.Sends, fake.Outcome{
				Kind:  rapid.SampledFrom([]string{"", "", "fail"}).Draw(t, "kind"),
				Delay: rapid.SampledFrom([]int{0, 0, 1, 30, 500}).Draw(t, "delay")})
		}
	}
	return p
}

func TestC14(t *testing.T) {
	vt.Check(t, vt.Spec[C14Plan]{
		ID:    "C14",
		Rule:  "one to three publishers with arbitrary records, updates (also unchanged, cleared, changed below a microsecond), gaps and bursts beyond the queues, any batch size and buffer time, flushes in between, sends that fail or take time; in virtual time; every message sent is compared with the deltas computed by the model, in order, size and time; non-trivial: at least two updates were sent",
		Gen:   genC14,
		Run:   bubbled(t, runC14),
		Quick: 25000, Thorough: 1000000,
	})
}
