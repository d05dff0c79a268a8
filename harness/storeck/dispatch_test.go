package storeck

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"
	"pgregory.net/rapid"

	"vanflowverif/rec"
	"vanflowverif/vt"
)

// sink is a store that records what is accumulated into it.
type sink struct {
	store.Interface
	mu   sync.Mutex
	fail func(n int) bool
	n    int
	got  []sunk
}

type sunk struct {
	src store.SourceRef
	r   vanflow.Record
}

func (s *sink) Accumulate(src store.SourceRef, r vanflow.Record) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got = append(s.got, sunk{src, r})
	s.n++
	if s.fail != nil && s.fail(s.n) {
		return errors.New("refused")
	}
	return nil
}

// DRec is a record of a message: a protocol type, or a foreign type that
// shares its name or version with one.
type DRec struct {
	R       rec.Rec `json:"r"`
	ByValue bool    `json:"byvalue,omitempty"`
	Foreign int     `json:"foreign,omitempty"` // 1..: index into foreign types
}

type foreign struct {
	id string
	tm vanflow.TypeMeta
	n  int
}

func (f *foreign) Identity() string              { return f.id }
func (f *foreign) GetTypeMeta() vanflow.TypeMeta { return f.tm }

var foreigns = []vanflow.TypeMeta{
	{APIVersion: "flow/v2", Type: "SiteRecord"}, // same name, other version
	{APIVersion: "flow/v1", Type: "Site"},
	{APIVersion: "flow/v1", Type: "siterecord"},
	{APIVersion: "", Type: "SiteRecord"},
	{APIVersion: "flow/v1", Type: ""},
	{APIVersion: "x", Type: "LinkRecord"},
}

func (d DRec) record(n int) vanflow.Record {
	if d.Foreign > 0 {
		return &foreign{id: string(d.R.ID), tm: foreigns[(d.Foreign-1)%len(foreigns)], n: n}
	}
	return d.R.Record(d.ByValue)
}

// DOp is a step: register a store, create a dispatcher, or dispatch.
type DOp struct {
	Kind  string `json:"op"`
	Rec   DRec   `json:"rec"`           // register: type
	Store int    `json:"store"`         // register
	Disp  int    `json:"disp"`          // dispatch: which dispatcher
	Src   string `json:"src,omitempty"` // new
	Recs  []DRec `json:"recs,omitempty"`
	Copy  bool   `json:"copy,omitempty"`  // new: from a copy of the registry
	Times int    `json:"times,omitempty"` // dispatch: the records again and again in the message
	Msgs  int    `json:"msgs,omitempty"`  // dispatch: that many more messages
}

type DPlan struct {
	Ops  []DOp `json:"ops"`
	Fail []int `json:"fail,omitempty"` // per store: every n-th accumulate fails, 0 never
	Real []int `json:"real,omitempty"` // which stores are real caches
	Conc bool  `json:"conc,omitempty"` // last dispatches run concurrently
}

func typeKey(tm vanflow.TypeMeta) [2]string { return [2]string{tm.APIVersion, tm.Type} }

type wantRec struct {
	src store.SourceRef
	r   vanflow.Record
}

func runDispatch(c *vt.Case, p DPlan) error {
	var reg store.DispatchRegistry
	sinks := make([]*sink, 5)
	for i := range sinks {
		sinks[i] = &sink{}
		if i < len(p.Fail) && p.Fail[i] > 0 {
			n := p.Fail[i]
			sinks[i].fail = func(k int) bool { return k%n == 0 }
		}
	}
	type disp struct {
		d   store.Dispatcher
		reg map[[2]string]int
		src store.SourceRef
	}
	var disps []disp
	model := map[[2]string]int{}
	want := make([][]wantRec, len(sinks))
	checked := make([]int, len(sinks))
	n := 0
	routed, skipped := 0, 0
	for i, op := range p.Ops {
		switch op.Kind {
		case "register":
			r := op.Rec.record(0)
			if _, twice := model[typeKey(r.GetTypeMeta())]; twice {
				c.Class("type registered again")
			}
			reg.RegisterStore(r, sinks[op.Store%len(sinks)])
			model[typeKey(r.GetTypeMeta())] = op.Store % len(sinks)
		case "new":
			src := store.SourceRef{APIVersion: "v" + op.Src, Type: "T", Name: op.Src}
			m := map[[2]string]int{}
			for k, v := range model {
				m[k] = v
			}
			from := reg
			disps = append(disps, disp{from.NewDispatcher(src), m, src})
		case "dispatch":
			if len(disps) == 0 {
				continue
			}
			d := disps[op.Disp%len(disps)]
			for k := 0; k <= op.Msgs; k++ {
				var msg vanflow.RecordMessage
				msg.To = "x"
				for range max(1, op.Times) {
					for _, dr := range op.Recs {
						n++
						r := dr.record(n)
						msg.Records = append(msg.Records, r)
						if s, ok := d.reg[typeKey(r.GetTypeMeta())]; ok {
							want[s] = append(want[s], wantRec{d.src, r})
							routed++
							c.ClassIf(sinks[s].fail != nil, "store that refuses records")
						} else {
							skipped++
						}
					}
				}
				c.ClassIf(len(msg.Records) > 500, "message of more than 500 records")
				d.d.Dispatch(msg)
			}
		}
		for s := range sinks {
			k := checked[s]
			if len(sinks[s].got) < k {
				vt.Abort("a sink lost records")
			}
			if err := sameSunk(sinks[s].got[k:], want[s][k:]); err != nil {
				return fmt.Errorf("step %d (%s): store %d, after %d records: %w", i, op.Kind, s, k, err)
			}
			checked[s] = len(want[s])
		}
	}
	c.ClassIf(skipped > 0, "records without a store")
	c.ClassIf(len(disps) > 1, "several dispatchers")
	if routed > 1 {
		c.NonTrivial()
	}
	return nil
}

func sameSunk(got []sunk, want []wantRec) error {
	for i := range want {
		if i >= len(got) {
			return fmt.Errorf("%d records arrived, want %d", len(got), len(want))
		}
		if got[i].src != want[i].src {
			return fmt.Errorf("record %d attributed to %v, want %v", i, got[i].src, want[i].src)
		}
		a, b := got[i].r, want[i].r
		if fa, ok := a.(*foreign); ok {
			if fb, ok := b.(*foreign); !ok || fa.n != fb.n {
				return fmt.Errorf("record %d is another one", i)
			}
			continue
		}
		if _, ok := b.(*foreign); ok {
			return fmt.Errorf("record %d is another one", i)
		}
		if ga, gb := a.GetTypeMeta().String()+recText(a), b.GetTypeMeta().String()+recText(b); ga != gb {
			return fmt.Errorf("record %d is %s, want %s", i, ga, gb)
		}
	}
	if len(got) > len(want) {
		return fmt.Errorf("%d records arrived, want %d: unexpected %s", len(got), len(want), got[len(want)].r.GetTypeMeta())
	}
	return nil
}

func genDRec(t *rapid.T) DRec {
	if rapid.IntRange(0, 7).Draw(t, "f") == 0 {
		return DRec{R: rec.Rec{ID: "f"}, Foreign: rapid.IntRange(1, len(foreigns)).Draw(t, "foreign")}
	}
	typ := rapid.SampledFrom([]uint32{0, 1, 7, 0, 1, 7, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15}).Draw(t, "type")
	ok := false
	for _, k := range rec.RecordCodes {
		ok = ok || k == typ
	}
	if !ok {
		typ = 0
	}
	return DRec{R: rec.Gen(rec.Opts{Types: []uint32{typ}, IDs: []string{"a", "b", "c"}, Small: true}).Draw(t, "r"), ByValue: rapid.Bool().Draw(t, "byvalue")}
}

func genDPlan(t *rapid.T) DPlan {
	var p DPlan
	for i := 0; i < 5; i++ {
		p.Fail = append(p.Fail, rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "fail"))
	}
	kinds := []string{"register", "register", "new", "dispatch", "dispatch", "dispatch"}
	for i := rapid.IntRange(0, 6).Draw(t, "nreg"); i > 0; i-- {
		p.Ops = append(p.Ops, DOp{Kind: "register", Rec: genDRec(t), Store: rapid.IntRange(0, 4).Draw(t, "store")})
	}
	if rapid.IntRange(0, 3).Draw(t, "early") > 0 {
		p.Ops = append(p.Ops, DOp{Kind: "new", Src: "s1"})
	}
	for i := rapid.IntRange(1, 12).Draw(t, "nops"); i > 0; i-- {
		op := DOp{Kind: rapid.SampledFrom(kinds).Draw(t, "op")}
		switch op.Kind {
		case "register":
			op.Rec, op.Store = genDRec(t), rapid.IntRange(0, 4).Draw(t, "store")
		case "new":
			op.Src = rapid.SampledFrom([]string{"s1", "s2", "s3", ""}).Draw(t, "src")
		case "dispatch":
			op.Disp = rapid.IntRange(0, 5).Draw(t, "disp")
			for j := rapid.IntRange(0, 8).Draw(t, "nrec"); j > 0; j-- {
				op.Recs = append(op.Recs, genDRec(t))
			}
			if rapid.IntRange(0, 199).Draw(t, "many") == 0 {
				op.Times = rapid.SampledFrom([]int{1, 20, 150, 600}).Draw(t, "times")
				if op.Times == 1 {
					op.Msgs = rapid.SampledFrom([]int{20, 150, 600, 1100}).Draw(t, "msgs")
				}
			}
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

func TestC13(t *testing.T) {
	vt.Check(t, vt.Spec[DPlan]{
		ID:    "C13",
		Rule:  "registries to which stores (some refusing every n-th record) are registered, also again and after dispatchers were made, and messages of records of registered, unregistered and foreign types sharing a name or version, now and then up to 4800 records in a message or 1100 messages; what each store is handed is compared with the model after every step; non-trivial: at least two records routed",
		Gen:   genDPlan,
		Run:   runDispatch,
		Quick: 12000, Thorough: 600000,
	})
}

// APlan checks dispatch into real stores, from several goroutines.
type APlan struct {
	Srcs []string `json:"srcs"`
	Msgs [][]DRec `json:"msgs"` // one goroutine each
}

func TestC13_real(t *testing.T) {
	vt.Check(t, vt.Spec[APlan]{
		ID:   "C13",
		Rule: "several dispatchers of one registry, each used by a goroutine of its own, dispatching into real stores keyed by source, type and identity; afterwards the stores hold the merge of each source's records; non-trivial: at least two records",
		Gen: func(t *rapid.T) APlan {
			var p APlan
			for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
				p.Srcs = append(p.Srcs, fmt.Sprint("s", i))
				var m []DRec
				for j := rapid.IntRange(0, 8).Draw(t, "nrec"); j > 0; j-- {
					m = append(m, genDRec(t))
				}
				p.Msgs = append(p.Msgs, m)
			}
			return p
		},
		Run: func(c *vt.Case, p APlan) error {
			var reg store.DispatchRegistry
			stores := map[uint32]store.Interface{}
			for _, code := range rec.RecordCodes {
				if code == 4 {
					continue // left unregistered
				}
				st := store.NewDefaultCachingStore(store.CacheConfig{Key: func(e store.Entry) (string, error) { return keyOf("source", e) }})
				stores[code] = st
				reg.RegisterStore(rec.Rec{Type: code, ID: "x"}.Record(true), st)
			}
			model := map[uint32]map[string]rec.Rec{}
			total := 0
			var wg sync.WaitGroup
			for i, src := range p.Srcs {
				d := reg.NewDispatcher(ref(src))
				var msg vanflow.RecordMessage
				for _, dr := range p.Msgs[i] {
					if dr.Foreign > 0 {
						msg.Records = append(msg.Records, dr.record(1))
						continue
					}
					msg.Records = append(msg.Records, dr.record(0))
					if dr.R.Type == 4 {
						continue
					}
					total++
					if model[dr.R.Type] == nil {
						model[dr.R.Type] = map[string]rec.Rec{}
					}
					k := ref(src).String() + "/" + string(dr.R.ID)
					old, ok := model[dr.R.Type][k]
					if !ok {
						model[dr.R.Type][k] = dr.R.Normal()
						continue
					}
					m := old.Normal()
					for a, v := range dr.R.Normal().A {
						m.A[a] = v
					}
					model[dr.R.Type][k] = m
				}
				wg.Add(1)
				go func() { defer wg.Done(); d.Dispatch(msg) }()
			}
			wg.Wait()
			if total > 1 {
				c.NonTrivial()
			}
			for code, st := range stores {
				set, err := st.List(context.Background(), nil)
				if err != nil {
					return err
				}
				if len(set.Entries) != len(model[code]) {
					return fmt.Errorf("store of type %d holds %d entries, want %d", code, len(set.Entries), len(model[code]))
				}
				for _, e := range set.Entries {
					k, _ := keyOf("source", e)
					w, ok := model[code][k]
					if !ok {
						return fmt.Errorf("store of type %d holds %q, which was not dispatched to it", code, k)
					}
					m, err := rec.From(e.Record)
					if err != nil {
						return err
					}
					if g, w := m.Normal().Canon(), w.Normal().Canon(); g != w {
						return fmt.Errorf("store of type %d: %q is %s, want %s", code, k, g, w)
					}
				}
			}
			return nil
		},
		Quick: 6000, Thorough: 300000,
	})
}
