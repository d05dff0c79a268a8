package storeck

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
	"github.com/c-kruse/vanflow/store"
	"pgregory.net/rapid"

	"vanflowverif/vt"
)

// slow is a record type whose attributes yield while they are encoded and
// decoded, which stretches every merge.
type slow struct {
	vanflow.BaseRecord
	A *lazy `vflow:"900"`
	B *lazy `vflow:"901"`
	C *lazy `vflow:"902"`
	D *lazy `vflow:"903"`
}

func (slow) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{APIVersion: "verif/v1", Type: "slow"}
}

type lazy struct{ S string }

func (l lazy) EncodeRecordAttribute() (any, error) { pause(); return l.S, nil }
func (l *lazy) DecodeRecordAttribute(attr any) error {
	pause()
	s, ok := attr.(string)
	if !ok {
		return fmt.Errorf("not a string: %T", attr)
	}
	l.S = s
	return nil
}

func init() { encoding.MustRegisterRecord(70002, slow{}) }

var pauseSeed atomic.Uint64

// pause gives other goroutines a chance to run.
func pause() {
	x := pauseSeed.Add(0x9E3779B97F4A7C15)
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	switch x % 16 {
	case 0:
		time.Sleep(time.Duration(x>>8%20) * time.Microsecond)
	case 1, 2, 3, 4, 5:
		runtime.Gosched()
	}
}

// COp is one operation of a goroutine.
type COp struct {
	Kind string `json:"op"` // add update cond delete acc noop get list index values replace
	Key  int    `json:"k"`
	Attr int    `json:"attr,omitempty"` // which attributes are set, bit mask
	Slot int    `json:"slot,omitempty"` // cond: which tag (of those this goroutine has seen for the key, newest first)
	Keys []int  `json:"keys,omitempty"` // replace
}

// CPlan is a concurrent history.
type CPlan struct {
	Init     []COp   `json:"init"`
	Threads  [][]COp `json:"threads"`
	Reps     int     `json:"reps"`
	Handlers bool    `json:"handlers"`
	Seed     uint64  `json:"seed"`
	Tags     []int   `json:"tags,omitempty"` // keys whose initial tag every goroutine knows
}

func keyName(i int) string { return "k" + string(rune('0'+i)) }

// content of an entry: four attributes, "" unset.
type content [4]string

func (c content) text() string { return strings.Join(c[:], "|") }

func (c content) record(id string) *slow {
	r := &slow{BaseRecord: vanflow.NewBase(id)}
	for i, f := range []**lazy{&r.A, &r.B, &r.C, &r.D} {
		if c[i] != "" {
			*f = &lazy{c[i]}
		}
	}
	return r
}

func contentOf(e store.Entry) string {
	r, ok := e.Record.(*slow)
	if !ok {
		if v, isv := e.Record.(slow); isv {
			r = &v
		} else {
			return fmt.Sprintf("unexpected record %T", e.Record)
		}
	}
	var c content
	for i, f := range []*lazy{r.A, r.B, r.C, r.D} {
		if f != nil {
			c[i] = f.S
		}
	}
	return c.text()
}

func parse(s string) (c content) {
	copy(c[:], strings.SplitN(s, "|", 4))
	return
}

// cIn and cOut are what an operation was and gave.
type cIn struct {
	op   COp
	c    content
	tag  string            // cond
	repl map[string]string // replace: key -> content
}
type cOut struct {
	ok    bool
	found bool
	val   string
	tag   string
	set   map[string]string // list and index: key -> content
	dup   bool
	vals  []string
}

// cState is the model: content per key, the tags seen for each key's states,
// and which one belongs to the current state.
type cState struct {
	val map[string]string
	cur map[string]string          // key -> tag of the current state once seen
	old map[string]map[string]bool // key -> every tag seen
}

func (s cState) clone() cState {
	n := cState{val: map[string]string{}, cur: map[string]string{}, old: map[string]map[string]bool{}}
	for k, v := range s.val {
		n.val[k] = v
	}
	for k, v := range s.cur {
		n.cur[k] = v
	}
	for k, m := range s.old {
		n.old[k] = m // replaced, never written, see bind
	}
	return n
}

func (s cState) key() string {
	var b strings.Builder
	ks := make([]string, 0, len(s.val))
	for k := range s.val {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%s@%s;", k, s.val[k], s.cur[k])
	}
	ks = ks[:0]
	for k, m := range s.old {
		for t := range m {
			ks = append(ks, k+t)
		}
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ","))
	return b.String()
}

// write sets a new state of the key.
func (s cState) write(k, v string) cState {
	n := s.clone()
	n.val[k] = v
	delete(n.cur, k)
	return n
}

func (s cState) remove(k string) cState {
	n := s.clone()
	delete(n.val, k)
	delete(n.cur, k)
	return n
}

func index1(val string) []string { // what the index function gives
	var out []string
	for _, p := range strings.Split(val, "|")[:2] {
		if p != "" {
			out = append(out, p[:1], p[:1])
		}
	}
	return out
}

// merge gives the new content and whether it differs.
func merge(old string, c content) (string, bool) {
	o := parse(old)
	changed := false
	for i := range c {
		if c[i] != "" && c[i] != o[i] {
			o[i] = c[i]
			changed = true
		}
	}
	return o.text(), changed
}

func step(st, in, out any) (bool, any) {
	s, i, o := st.(cState), in.(cIn), out.(cOut)
	k := keyName(i.op.Key)
	cur, exists := s.val[k]
	switch i.op.Kind {
	case "add":
		if o.ok == exists {
			return false, s
		}
		if !o.ok {
			return true, s
		}
		return true, s.write(k, i.c.text())
	case "update":
		return o.ok, s.write(k, i.c.text())
	case "cond":
		match := exists && s.cur[k] == i.tag
		if o.ok != match {
			return false, s
		}
		if !match {
			return true, s
		}
		return true, s.write(k, i.c.text())
	case "delete":
		if !exists {
			return o.ok, s
		}
		return o.ok, s.remove(k)
	case "acc":
		if !o.ok {
			return false, s
		}
		if !exists {
			return true, s.write(k, i.c.text())
		}
		m, changed := merge(cur, i.c)
		if !changed {
			return true, s
		}
		return true, s.write(k, m)
	case "get":
		if o.found != exists {
			return false, s
		}
		if !exists {
			return true, s
		}
		if o.val != cur {
			return false, s
		}
		if t := s.cur[k]; t != "" {
			return t == o.tag, s
		}
		if s.old[k][o.tag] {
			return false, s
		}
		n := s.clone()
		n.cur[k] = o.tag
		m := map[string]bool{o.tag: true}
		for t := range s.old[k] {
			m[t] = true
		}
		n.old[k] = m
		return true, n
	case "list":
		if o.dup || len(o.set) != len(s.val) {
			return false, s
		}
		for k, v := range s.val {
			if got, ok := o.set[k]; !ok || got != v {
				return false, s
			}
		}
		return true, s
	case "index":
		want := 0
		for k, v := range s.val {
			for _, x := range index1(v) {
				if x == i.c[0] {
					want++
					if got, ok := o.set[k]; !ok || got != v {
						return false, s
					}
					break
				}
			}
		}
		return !o.dup && want == len(o.set), s
	case "values":
		want := map[string]bool{}
		for _, v := range s.val {
			for _, x := range index1(v) {
				want[x] = true
			}
		}
		if len(want) != len(o.vals) {
			return false, s
		}
		for _, x := range o.vals {
			if !want[x] {
				return false, s
			}
			delete(want, x)
		}
		return true, s
	case "replace":
		if !o.ok {
			return false, s
		}
		n := cState{val: map[string]string{}, cur: map[string]string{}, old: s.old}
		for k, v := range i.repl {
			n.val[k] = v
		}
		return true, n
	}
	panic("unknown op " + i.op.Kind)
}

func describe(in, out any) string {
	i, o := in.(cIn), out.(cOut)
	return fmt.Sprintf("%s %s content=%q tag=%q %v -> ok=%v found=%v val=%q tag=%q set=%v dup=%v vals=%v", i.op.Kind, keyName(i.op.Key), i.c.text(), i.tag, i.repl, o.ok, o.found, o.val, o.tag, o.set, o.dup, o.vals)
}

var cModel = porcupine.Model{
	Init: func() any {
		return cState{val: map[string]string{}, cur: map[string]string{}, old: map[string]map[string]bool{}}
	},
	Step:              step,
	Equal:             func(a, b any) bool { return a.(cState).key() == b.(cState).key() },
	DescribeOperation: describe,
}

type cEvent struct{ key, prev, next string } // content; "" = absent ("-" marks present)

func runConcurrent(c *vt.Case, p CPlan) error {
	reps := p.Reps
	if reps < 1 {
		reps = 1
	}
	for i := 0; i < reps; i++ {
		pauseSeed.Store(p.Seed + uint64(i)*7919)
		if err := runOnce(c, p); err != nil {
			return err
		}
	}
	return nil
}

func runOnce(c *vt.Case, p CPlan) error {
	var evmu sync.Mutex
	var events []cEvent
	var st store.Interface
	cfg := store.CacheConfig{
		Key: func(e store.Entry) (string, error) { pause(); return e.Record.Identity(), nil },
		Indexers: map[string]store.CacheIndexer{"first": func(e store.Entry) []string {
			pause()
			return index1(contentOf(e))
		}},
	}
	note := func(key, prev, next string) {
		pause()
		evmu.Lock()
		events = append(events, cEvent{key, prev, next})
		evmu.Unlock()
	}
	if p.Handlers {
		cfg.EventHandlers = store.EventHandlerFuncs{
			OnAdd: func(e store.Entry) {
				note(e.Record.Identity(), "", "-"+contentOf(e))
				st.Get(context.Background(), e) // handlers may use the store
			},
			OnChange: func(a, b store.Entry) {
				note(b.Record.Identity(), "-"+contentOf(a), "-"+contentOf(b))
				st.List(context.Background(), nil)
			},
			OnDelete: func(e store.Entry) { note(e.Record.Identity(), "-"+contentOf(e), "") },
		}
	}
	st = store.NewDefaultCachingStore(cfg)

	var hist []porcupine.Operation
	var clock atomic.Int64
	entry := func(k string, v content) store.Entry {
		r := v.record(k)
		return store.Entry{Record: r, TypeMeta: r.GetTypeMeta(), Meta: store.Metadata{Source: ref("s")}}
	}
	collect := func(set store.Set) (m map[string]string, dup bool) {
		m = map[string]string{}
		for _, e := range set.Entries {
			k := e.Record.Identity()
			if _, seen := m[k]; seen {
				dup = true
			}
			m[k] = contentOf(e)
		}
		return
	}
	exec := func(tid, n int, op COp, tags map[string][]string) porcupine.Operation {
		ctx := context.Background()
		k := keyName(op.Key)
		in := cIn{op: op}
		for b := 0; b < 4; b++ {
			if op.Attr&(1<<b) != 0 {
				// the first letter is what the index uses; the rest makes it unique
				in.c[b] = fmt.Sprintf("%c%d.%d", 'p'+(tid+n+b)%3, tid, n)
			}
		}
		var out cOut
		var e store.Entry
		switch op.Kind {
		case "acc":
			e.Record = in.c.record(k)
		case "cond":
			ts := tags[k]
			if len(ts) == 0 {
				in.op.Kind, op.Kind = "get", "get"
				e = entry(k, content{})
				break
			}
			s := op.Slot % len(ts)
			in.tag = ts[len(ts)-1-s]
			e = entry(k, in.c)
		case "index":
			in.c = content{string(rune('p' + op.Slot%3))}
			e = entry(k, in.c)
		default:
			e = entry(k, in.c)
		}
		var es []store.Entry
		if op.Kind == "replace" {
			in.repl = map[string]string{}
			for _, x := range op.Keys {
				v := content{fmt.Sprintf("r%d.%d.%d", tid, n, x)}
				in.repl[keyName(x)] = v.text()
				es = append(es, entry(keyName(x), v))
			}
		}
		call := clock.Add(1)
		switch op.Kind {
		case "add":
			out.ok = st.Add(ctx, e) == nil
		case "update":
			out.ok = st.Update(ctx, e) == nil
		case "cond":
			out.ok = st.Update(store.WithIfMatch(ctx, in.tag), e) == nil
		case "delete":
			out.ok = st.Delete(ctx, e) == nil
		case "acc":
			out.ok = st.Accumulate(ref("s"), e.Record) == nil
		case "get":
			r, err := st.Get(ctx, e)
			out.ok, out.found, out.tag = err == nil, r.Found, r.ETag
			if r.Found {
				out.val = contentOf(r.Entry)
			}
		case "list":
			set, err := st.List(ctx, nil)
			out.ok = err == nil
			out.set, out.dup = collect(set)
		case "index":
			set, err := st.Index(ctx, "first", e, nil)
			out.ok = err == nil
			out.set, out.dup = collect(set)
		case "values":
			v, err := st.IndexValues(ctx, "first")
			out.ok, out.vals = err == nil, v
		case "replace":
			out.ok = st.Replace(ctx, es) == nil
		}
		ret := clock.Add(1)
		if out.found {
			tags[k] = append(tags[k], out.tag)
		}
		return porcupine.Operation{ClientId: tid, Input: in, Output: out, Call: call, Return: ret}
	}
	initTags := map[string][]string{}
	for i, op := range p.Init {
		hist = append(hist, exec(9, i, op, initTags))
	}
	for _, k := range p.Tags {
		hist = append(hist, exec(9, 100+k, COp{Kind: "get", Key: k}, initTags))
	}
	evmu.Lock()
	events = nil
	evmu.Unlock()
	start := map[string]string{}
	if set, err := st.List(context.Background(), nil); err == nil {
		for _, e := range set.Entries {
			start[e.Record.Identity()] = "-" + contentOf(e)
		}
	}

	var wg sync.WaitGroup
	var ready sync.WaitGroup
	gate := make(chan struct{})
	results := make([][]porcupine.Operation, len(p.Threads))
	ready.Add(len(p.Threads))
	for tid := range p.Threads {
		wg.Add(1)
		go func(tid int) {
			defer wg.Done()
			tags := map[string][]string{}
			for k, v := range initTags {
				tags[k] = append([]string{}, v...)
			}
			ready.Done()
			<-gate
			for n, op := range p.Threads[tid] {
				pause()
				results[tid] = append(results[tid], exec(tid, n, op, tags))
			}
		}(tid)
	}
	ready.Wait()
	close(gate)
	wg.Wait()
	for _, r := range results {
		hist = append(hist, r...)
	}
	tags := map[string][]string{}
	hist = append(hist, exec(8, 0, COp{Kind: "list"}, tags))
	hist = append(hist, exec(8, 1, COp{Kind: "values"}, tags))
	for i := 0; i < 3; i++ {
		hist = append(hist, exec(8, 2+i, COp{Kind: "index", Slot: i}, tags))
	}

	replaces := false
	overlap := false
	for _, r := range results {
		for _, o := range r {
			in := o.Input.(cIn)
			replaces = replaces || in.op.Kind == "replace"
			c.Class("op " + in.op.Kind)
			c.ClassIf(in.op.Kind == "cond" && o.Output.(cOut).ok, "conditional update succeeded")
			for _, r2 := range results {
				for _, o2 := range r2 {
					if o.ClientId != o2.ClientId && o.Call < o2.Return && o2.Call < o.Return {
						overlap = true
					}
				}
			}
		}
	}
	if overlap {
		c.NonTrivial()
	}
	switch porcupine.CheckOperationsTimeout(cModel, hist, 20*time.Second) {
	case porcupine.Illegal:
		var b strings.Builder
		sort.Slice(hist, func(i, j int) bool { return hist[i].Call < hist[j].Call })
		for _, o := range hist {
			fmt.Fprintf(&b, "\n  [%d,%d] goroutine %d: %s", o.Call, o.Return, o.ClientId, describe(o.Input, o.Output))
		}
		return fmt.Errorf("the history is not linearizable:%s", b.String())
	case porcupine.Unknown:
		c.Class("linearizability search timed out")
	}
	if p.Handlers && !replaces {
		return chain(c, start, events, hist)
	}
	return nil
}

// chain checks that the notifications of every key lead from its state before
// to its state after, through every state that was written.
func chain(c *vt.Case, start map[string]string, events []cEvent, hist []porcupine.Operation) error {
	end := map[string]string{}
	for _, o := range hist {
		if o.ClientId == 8 && o.Input.(cIn).op.Kind == "list" {
			for k, v := range o.Output.(cOut).set {
				end[k] = "-" + v
			}
		}
	}
	byKey := map[string][]cEvent{}
	for _, e := range events {
		byKey[e.key] = append(byKey[e.key], e)
	}
	for i := 0; i < 10; i++ {
		k := keyName(i)
		es := byKey[k]
		// every event is an edge between states: a trail from start to end
		// using each exactly once must exist
		deg := map[string]int{}
		adj := map[string][]string{}
		for _, e := range es {
			deg[e.prev]++
			deg[e.next]--
			adj[e.prev] = append(adj[e.prev], e.next)
			adj[e.next] = append(adj[e.next], e.prev)
		}
		s, t := start[k], end[k]
		deg[s]--
		deg[t]++
		for n, d := range deg {
			if d != 0 {
				return fmt.Errorf("notifications of %s do not chain from %q to %q (at %q): %v", k, s, t, n, es)
			}
		}
		seen := map[string]bool{s: true}
		todo := []string{s}
		for len(todo) > 0 {
			n := todo[0]
			todo = todo[1:]
			for _, m := range adj[n] {
				if !seen[m] {
					seen[m] = true
					todo = append(todo, m)
				}
			}
		}
		for n := range adj {
			if !seen[n] {
				return fmt.Errorf("notifications of %s: state %q is not reached from %q: %v", k, n, s, es)
			}
		}
		c.ClassIf(len(es) > 3, "a key with more than three notifications")
		// states written by adds and updates are unique: each is notified once
		arrivals := map[string]int{}
		for _, e := range es {
			arrivals[e.next]++
		}
		for _, o := range hist {
			in, out := o.Input.(cIn), o.Output.(cOut)
			if o.ClientId >= 8 || keyName(in.op.Key) != k || !out.ok {
				continue
			}
			switch in.op.Kind {
			case "add", "update", "cond":
				if n := arrivals["-"+in.c.text()]; n != 1 && in.op.Attr != 0 {
					return fmt.Errorf("%s: state %q was written once and notified %d times: %v", k, in.c.text(), n, es)
				}
			}
		}
	}
	return nil
}

func genCPlan(t *rapid.T) CPlan {
	p := CPlan{Reps: 4, Seed: rapid.Uint64().Draw(t, "seed")}
	p.Handlers = rapid.IntRange(0, 3).Draw(t, "handlers") > 0
	nk := rapid.IntRange(1, 3).Draw(t, "keys")
	kinds := rapid.SampledFrom([][]string{
		{"add", "update", "cond", "cond", "delete", "acc", "get", "list", "index", "values"},
		{"acc", "acc", "acc", "get"},
		{"add", "add", "delete", "get", "index"},
		{"cond", "cond", "cond", "get", "get", "update"},
		{"update", "acc", "index", "values", "list", "delete"},
		{"add", "update", "cond", "delete", "acc", "get", "list", "index", "values", "replace"},
	}).Draw(t, "mix")
	op := func(kinds []string) COp {
		o := COp{Kind: rapid.SampledFrom(kinds).Draw(t, "op"), Key: rapid.IntRange(0, nk-1).Draw(t, "key")}
		switch o.Kind {
		case "add", "update", "cond":
			o.Attr = 1 | rapid.IntRange(0, 15).Draw(t, "attr")
		case "acc":
			o.Attr = rapid.SampledFrom([]int{1, 2, 4, 8, 3, 12, 15, 0}).Draw(t, "attr")
		case "replace":
			for k := 0; k < nk; k++ {
				if rapid.Bool().Draw(t, "in") {
					o.Keys = append(o.Keys, k)
				}
			}
		}
		if o.Kind == "cond" || o.Kind == "index" {
			o.Slot = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "slot")
		}
		return o
	}
	for i := rapid.IntRange(0, 3).Draw(t, "ninit"); i > 0; i-- {
		p.Init = append(p.Init, op([]string{"update", "update", "acc"}))
	}
	if rapid.Bool().Draw(t, "tags") {
		for k := 0; k < nk; k++ {
			p.Tags = append(p.Tags, k)
		}
	}
	nt := rapid.IntRange(2, 5).Draw(t, "threads")
	for i := 0; i < nt; i++ {
		var ops []COp
		for j := rapid.IntRange(1, 20/nt).Draw(t, "nops"); j > 0; j-- {
			ops = append(ops, op(kinds))
		}
		p.Threads = append(p.Threads, ops)
	}
	return p
}

func TestC12(t *testing.T) {
	vt.Check(t, vt.Spec[CPlan]{
		ID:    "C12",
		Rule:  "two to five goroutines with up to 20 operations together (adds, updates, conditional updates with tags read before, deletes, accumulates of single attributes, replaces, gets, listings, index lookups) over one to three keys, each plan run four times with yields inside key, index and encoding functions and handlers; the history is checked for linearizability against the sequential model, notifications for chaining, everything under the race detector; non-trivial: operations of different goroutines overlapped",
		Gen:   genCPlan,
		Run:   runConcurrent,
		Quick: 6000, Thorough: 400000,
		Trace: true,
	})
}
