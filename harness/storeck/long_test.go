package storeck

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"
	"pgregory.net/rapid"

	"vanflowverif/vt"
)

// LongPlan is a long history over many keys, drawn from the seed.
type LongPlan struct {
	Seed    int64  `json:"seed"`
	Ops     int    `json:"ops"`
	Keys    int    `json:"keys"`
	Sources int    `json:"sources"`
	Labels  int    `json:"labels"` // values of the custom index
	Replace int    `json:"replace,omitempty"`
	Mix     string `json:"mix"` // kinds of operations to choose from
}

// longRec is what the model holds of an entry.
type longRec struct {
	source, name, platform string
}

func (r longRec) String() string { return r.source + "|" + r.name + "|" + r.platform }

func (r longRec) entry(id string) store.Entry {
	x := vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id)}
	if r.name != "" {
		x.Name = &r.name
	}
	if r.platform != "" {
		x.Platform = &r.platform
	}
	return store.Entry{Meta: store.Metadata{Source: store.SourceRef{Name: r.source}}, TypeMeta: x.GetTypeMeta(), Record: x}
}

func longOf(e store.Entry) string {
	r := longRec{source: e.Meta.Source.Name}
	x, ok := e.Record.(vanflow.SiteRecord)
	if p, isPtr := e.Record.(*vanflow.SiteRecord); isPtr {
		x, ok = *p, true
	}
	if !ok {
		return fmt.Sprintf("%T", e.Record)
	}
	if x.Name != nil {
		r.name = *x.Name
	}
	if x.Platform != nil {
		r.platform = *x.Platform
	}
	return r.String()
}

// labels of the custom index: the parts of the name, and all there is.
func labels(name string) []string {
	if name == "" {
		return []string{"all"}
	}
	return append(strings.Split(name, "."), "all")
}

func runLong(on string) func(c *vt.Case, p LongPlan) error {
	return func(c *vt.Case, p LongPlan) error {
		ctx := context.Background()
		rnd := rand.New(rand.NewSource(p.Seed))
		var events []string
		cfg := store.CacheConfig{Indexers: map[string]store.CacheIndexer{
			store.IndexBySource: func(e store.Entry) []string { return []string{e.Meta.Source.Name} },
			"label": func(e store.Entry) []string {
				parts := strings.Split(longOf(e), "|")
				if len(parts) != 3 {
					return nil
				}
				return labels(parts[1])
			},
		}}
		if on == "C11" {
			cfg.EventHandlers = store.EventHandlerFuncs{
				OnAdd: func(e store.Entry) { events = append(events, "add "+e.Record.Identity()+" "+longOf(e)) },
				OnChange: func(a, b store.Entry) {
					events = append(events, "change "+a.Record.Identity()+" "+longOf(a)+" to "+longOf(b))
				},
				OnDelete: func(e store.Entry) { events = append(events, "delete "+e.Record.Identity()+" "+longOf(e)) },
			}
		}
		st := store.NewDefaultCachingStore(cfg)
		model := map[string]longRec{}
		some := func() longRec {
			return longRec{
				source:   fmt.Sprint("s", rnd.Intn(p.Sources)),
				name:     fmt.Sprintf("l%d.l%d", rnd.Intn(p.Labels), rnd.Intn(p.Labels)),
				platform: fmt.Sprint(rnd.Intn(3)),
			}
		}
		inspect := func(step string) error {
			var ids []string
			for id := range model {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			if on == "C06" || on == "C07" || on == "C11" {
				set, err := st.List(ctx, nil)
				if err != nil {
					return err
				}
				if len(set.Entries) != len(model) {
					return fmt.Errorf("%s: %d entries are listed, want %d", step, len(set.Entries), len(model))
				}
				for _, e := range set.Entries {
					if r, ok := model[e.Record.Identity()]; !ok || r.String() != longOf(e) {
						return fmt.Errorf("%s: %q is listed as %s, want %s", step, e.Record.Identity(), longOf(e), r)
					}
				}
			}
			if on == "C08" {
				for _, index := range []string{store.IndexBySource, "label"} {
					want := map[string]map[string]bool{}
					for id, r := range model {
						vals := []string{r.source}
						if index == "label" {
							vals = labels(r.name)
						}
						for _, v := range vals {
							if want[v] == nil {
								want[v] = map[string]bool{}
							}
							want[v][id] = true
						}
					}
					vals, err := st.IndexValues(ctx, index)
					if err != nil {
						return err
					}
					if len(vals) != len(want) {
						return fmt.Errorf("%s: index %s has %d values, want %d", step, index, len(vals), len(want))
					}
					for _, v := range vals {
						if want[v] == nil {
							return fmt.Errorf("%s: index %s has a value %q of no entry", step, index, v)
						}
						ex := longRec{source: v}.entry("")
						inBucket := want[v]
						if index == "label" {
							if v == "all" {
								ex = longRec{}.entry("")
							} else {
								ex = longRec{name: v}.entry("")
								inBucket = want["all"] // its label and all
							}
						}
						if index == "label" && v != "all" && rnd.Intn(20) > 0 {
							continue
						}
						set, err := st.Index(ctx, index, ex, nil)
						if err != nil {
							return err
						}
						if len(set.Entries) != len(inBucket) {
							return fmt.Errorf("%s: index %s lists %d entries for %q, want %d", step, index, len(set.Entries), v, len(inBucket))
						}
						for _, e := range set.Entries {
							if !inBucket[e.Record.Identity()] || longOf(e) != model[e.Record.Identity()].String() {
								return fmt.Errorf("%s: index %s lists %q (%s) for %q", step, index, e.Record.Identity(), longOf(e), v)
							}
						}
					}
				}
			}
			return nil
		}
		changes := 0
		for i := 0; i < p.Ops; i++ {
			id := fmt.Sprint("k", rnd.Intn(p.Keys))
			old, had := model[id]
			r := some()
			kind := p.Mix[rnd.Intn(len(p.Mix))]
			what := fmt.Sprintf("step %d (%c %s)", i, kind, id)
			before := len(events)
			want := ""
			switch kind {
			case 'a':
				err := st.Add(ctx, r.entry(id))
				if (err != nil) != had {
					return fmt.Errorf("%s: error %v, existed: %v", what, err, had)
				}
				if !had {
					model[id] = r
					want = "add " + id + " " + r.String()
				}
			case 'u', 'd', 'p':
				switch kind {
				case 'u':
					if err := st.Update(ctx, r.entry(id)); err != nil {
						return fmt.Errorf("%s: %v", what, err)
					}
					model[id] = r
				case 'd':
					if err := st.Delete(ctx, r.entry(id)); err != nil {
						return fmt.Errorf("%s: %v", what, err)
					}
					delete(model, id)
					if had {
						want = "delete " + id + " " + old.String()
					}
				case 'p': // accumulate a part of it
					switch rnd.Intn(3) {
					case 0:
						r.name = ""
					case 1:
						r.platform = ""
					}
					e := r.entry(id)
					if err := st.Accumulate(e.Meta.Source, e.Record); err != nil {
						return fmt.Errorf("%s: %v", what, err)
					}
					next := r
					if had {
						next = old
						if r.name != "" {
							next.name = r.name
						}
						if r.platform != "" {
							next.platform = r.platform
						}
					}
					model[id] = next
				}
				if kind != 'd' {
					if !had {
						want = "add " + id + " " + model[id].String()
					} else if kind == 'u' || model[id] != old {
						want = "change " + id + " " + old.String() + " to " + model[id].String()
					}
				}
			}
			if want != "" {
				changes++
			}
			if on == "C11" {
				got := strings.Join(events[before:], "; ")
				if got != want {
					return fmt.Errorf("%s: notified of %q, want %q", what, got, want)
				}
			}
			if on == "C06" || on == "C07" {
				got, err := st.Get(ctx, r.entry(id))
				if err != nil {
					return err
				}
				now, has := model[id]
				if got.Found != has || has && longOf(got.Entry) != now.String() {
					return fmt.Errorf("%s: found %v as %s, want %v as %s", what, got.Found, longOf(got.Entry), has, now)
				}
			}
			if p.Replace > 0 && i == p.Ops/2 {
				var entries []store.Entry
				model = map[string]longRec{}
				for k := 0; k < p.Replace; k++ {
					r := some()
					id := fmt.Sprint("k", k)
					entries = append(entries, r.entry(id))
					model[id] = r
				}
				if err := st.Replace(ctx, entries); err != nil {
					return err
				}
				if err := inspect(fmt.Sprintf("replaced after step %d", i)); err != nil {
					return err
				}
			}
			if i == p.Ops/3 || i == p.Ops-1 {
				if err := inspect(what); err != nil {
					return err
				}
			}
		}
		if changes > 300 {
			c.NonTrivial()
		}
		c.ClassIf(len(model) > 1000, "more than 1000 entries")
		c.ClassIf(p.Replace > 0, "replaced")
		return nil
	}
}

func checkLong(t *testing.T, id, mix string) {
	vt.Check(t, vt.Spec[LongPlan]{
		ID:   id,
		Rule: "histories of 300 to 6000 operations over up to 3000 keys, up to 400 sources and index values, with or without a replacement by up to 4000 entries in the middle, compared with a map after the operations and in between; non-trivial: more than 300 changes",
		Gen: func(t *rapid.T) LongPlan {
			p := LongPlan{
				Seed:    rapid.Int64().Draw(t, "seed"),
				Ops:     rapid.SampledFrom([]int{300, 1000, 2500, 6000}).Draw(t, "ops"),
				Keys:    rapid.SampledFrom([]int{1, 10, 100, 600, 3000}).Draw(t, "keys"),
				Sources: rapid.SampledFrom([]int{1, 3, 70, 400}).Draw(t, "sources"),
				Labels:  rapid.SampledFrom([]int{1, 5, 70, 400}).Draw(t, "labels"),
				Mix:     mix,
			}
			if rapid.Bool().Draw(t, "replaces") {
				p.Replace = rapid.SampledFrom([]int{10, 300, 1500, 4000}).Draw(t, "replace")
			}
			return p
		},
		Run: runLong(id), Quick: 160, Thorough: 6000,
	})
}

func TestC06_long(t *testing.T) { checkLong(t, "C06", "aaauuudp") }
func TestC07_long(t *testing.T) { checkLong(t, "C07", "pppppppu") }
func TestC08_long(t *testing.T) { checkLong(t, "C08", "aauudpp") }
func TestC11_long(t *testing.T) { checkLong(t, "C11", "aaauuddppp") }
