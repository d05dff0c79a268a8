package storeck

import (
	"context"
	"fmt"
	"sort"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"
	"pgregory.net/rapid"

	"vanflowverif/vt"
)

// LargePlan fills a store with many entries (those whose number the Drop
// divides leave again) and pages through all of it or through the entries of
// one source.
type LargePlan struct {
	N       int  `json:"n"`
	Sources int  `json:"sources"`
	Drop    int  `json:"drop,omitempty"`
	Replace bool `json:"replace,omitempty"`
	Desc    bool `json:"desc,omitempty"`
	Index   bool `json:"index,omitempty"`
	Offset  int  `json:"offset,omitempty"`
	Limit   int  `json:"limit"`
}

func genLarge(t *rapid.T) LargePlan {
	p := LargePlan{
		N:       rapid.OneOf(rapid.SampledFrom([]int{127, 128, 255, 256, 257, 999, 1000, 1001, 4096, 16384, 32767, 32768, 33000, 40000, 65535, 65536, 70000}), rapid.IntRange(11, 2000), rapid.IntRange(11, 80000)).Draw(t, "n"),
		Sources: rapid.IntRange(1, 3).Draw(t, "sources"),
		Drop:    rapid.SampledFrom([]int{0, 0, 2, 3, 7}).Draw(t, "drop"),
		Replace: rapid.Bool().Draw(t, "replace"),
		Desc:    rapid.Bool().Draw(t, "desc"),
		Index:   rapid.Bool().Draw(t, "index"),
	}
	if rapid.Bool().Draw(t, "skip") {
		p.Offset = rapid.IntRange(0, p.N).Draw(t, "offset")
	}
	low := p.N/12 + 1
	p.Limit = rapid.IntRange(low, p.N).Draw(t, "limit")
	return p
}

func runLarge(c *vt.Case, p LargePlan) error {
	ctx := context.Background()
	st := store.NewDefaultCachingStore(store.CacheConfig{})
	id := func(i int) string { return fmt.Sprintf("%x-%d", (i*7919)%65521, i) }
	src := func(i int) store.SourceRef { return store.SourceRef{Name: fmt.Sprint(i % p.Sources)} }
	entry := func(i int) store.Entry {
		return store.Entry{Meta: store.Metadata{Source: src(i)}, Record: vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id(i))}}
	}
	all := make([]store.Entry, p.N)
	for i := range all {
		all[i] = entry(i)
	}
	if p.Replace {
		if err := st.Replace(ctx, all); err != nil {
			return err
		}
	} else {
		for _, e := range all {
			if err := st.Add(ctx, e); err != nil {
				return err
			}
		}
	}
	var want []string
	for i := range all {
		if p.Drop > 0 && i%p.Drop == 0 {
			if err := st.Delete(ctx, all[i]); err != nil {
				return err
			}
			continue
		}
		if !p.Index || src(i) == src(0) {
			want = append(want, id(i))
		}
	}
	sort.Strings(want)
	if p.Desc {
		want = reverse(want)
	}
	want = want[min(p.Offset, len(want)):]
	s := store.Selector{Offset: p.Offset, Limit: p.Limit}
	if p.Desc {
		s.Ordering = store.Descending
	}
	total, at, pages := len(want), 0, 0
	for {
		set, err := st.List(ctx, &s)
		if p.Index {
			set, err = st.Index(ctx, store.IndexBySource, entry(0), &s)
		}
		if err != nil {
			return fmt.Errorf("page %d: %v", pages, err)
		}
		pages++
		n := min(p.Limit, total-at)
		if len(set.Entries) != n {
			return fmt.Errorf("page %d has %d entries, want %d (%d of %d listed before)", pages, len(set.Entries), n, at, total)
		}
		for i, e := range set.Entries {
			if e.Record.Identity() != want[at+i] {
				return fmt.Errorf("page %d: entry %d (number %d of %d) is %q, want %q", pages, i, at+i, total, e.Record.Identity(), want[at+i])
			}
		}
		at += n
		if (set.Continue != "") != (at < total) {
			return fmt.Errorf("page %d: token %q after %d of %d entries", pages, set.Continue, at, total)
		}
		if set.Continue == "" {
			break
		}
		s.Continue = set.Continue
	}
	if pages > 1 {
		c.NonTrivial()
	}
	c.ClassIf(pages > 3, "more than three pages")
	c.ClassIf(total > 1<<15, "more than 32768 entries")
	c.ClassIf(total > 1<<16, "more than 65536 entries")
	return nil
}

func TestC09_large(t *testing.T) {
	vt.Check(t, vt.Spec[LargePlan]{
		ID: "C09", Rule: "stores of up to 80000 entries from up to three sources, some of them deleted again, paged through completely by key or by source with page sizes of a twelfth and more; every page is compared with the sorted model; non-trivial: more than one page",
		Quick: 160, Thorough: 6000, Gen: genLarge, Run: runLarge,
	})
}

// ManyPlan changes one entry of a store many times and keeps the tags of some
// of its states.
type ManyPlan struct {
	Changes int    `json:"changes"` // of the entry or of others
	Own     bool   `json:"own"`
	Op      string `json:"op"`
	Gap     int    `json:"gap"` // changes after which one stale tag is kept
}

func runMany(c *vt.Case, p ManyPlan) error {
	ctx := context.Background()
	st := store.NewDefaultCachingStore(store.CacheConfig{})
	at := time.Unix(1700000000, 0)
	entry := func(id string, n int) store.Entry {
		name := fmt.Sprint(n)
		return store.Entry{Meta: store.Metadata{UpdatedAt: at}, Record: vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id), Name: &name}}
	}
	if err := st.Add(ctx, entry("a", -1)); err != nil {
		return err
	}
	if err := st.Add(ctx, entry("b", -1)); err != nil {
		return err
	}
	first, err := st.Get(ctx, entry("a", 0))
	if err != nil || !first.Found {
		return fmt.Errorf("get: %v %v", first.Found, err)
	}
	var stale string
	var early []string // tags of the first states
	for i := 0; i < p.Changes; i++ {
		id := "b"
		if p.Own {
			id = "a"
		}
		e := entry(id, i)
		switch p.Op {
		case "update":
			err = st.Update(ctx, e)
		case "acc":
			err = st.Accumulate(e.Meta.Source, e.Record)
		case "readd":
			if err = st.Delete(ctx, e); err == nil {
				err = st.Add(ctx, e)
			}
		}
		if err != nil {
			return fmt.Errorf("%s %d: %v", p.Op, i, err)
		}
		if p.Own && i < 256 && i < p.Changes-1 {
			got, err := st.Get(ctx, entry("a", 0))
			if err != nil || !got.Found {
				return fmt.Errorf("get: %v %v", got.Found, err)
			}
			early = append(early, got.ETag)
		}
		if i == p.Gap {
			got, err := st.Get(ctx, entry("a", 0))
			if err != nil || !got.Found {
				return fmt.Errorf("get: %v %v", got.Found, err)
			}
			stale = got.ETag
		}
	}
	got, err := st.Get(ctx, entry("a", 0))
	if err != nil || !got.Found {
		return fmt.Errorf("get: %v %v", got.Found, err)
	}
	mine := 0 // changes of a
	if p.Own {
		mine = p.Changes
	}
	if mine > 0 {
		if err := st.Update(store.WithIfMatch(ctx, first.ETag), entry("a", -2)); err == nil {
			return fmt.Errorf("update with the tag of the state %d changes ago succeeded", mine)
		}
		for i, tag := range early {
			if err := st.Update(store.WithIfMatch(ctx, tag), entry("a", -2)); err == nil {
				return fmt.Errorf("update with the tag of the state %d changes ago succeeded", mine-i-1)
			}
		}
		if mine > p.Gap+1 {
			if err := st.Update(store.WithIfMatch(ctx, stale), entry("a", -2)); err == nil {
				return fmt.Errorf("update with the tag of the state %d changes ago succeeded", mine-p.Gap-1)
			}
		}
		c.NonTrivial()
	} else {
		if first.ETag == "" {
			return fmt.Errorf("no tag")
		}
		if err := st.Update(store.WithIfMatch(ctx, first.ETag), entry("a", -2)); err != nil {
			return fmt.Errorf("update with the current tag failed after %d changes of another entry: %v", p.Changes, err)
		}
		if p.Changes > 0 {
			c.NonTrivial()
		}
		got, err = st.Get(ctx, entry("a", 0))
		if err != nil {
			return err
		}
	}
	if err := st.Update(store.WithIfMatch(ctx, got.ETag), entry("a", -3)); err != nil {
		return fmt.Errorf("update with the current tag failed after %d changes: %v", p.Changes, err)
	}
	if err := st.Update(store.WithIfMatch(ctx, got.ETag), entry("a", -4)); err == nil {
		return fmt.Errorf("second update with one tag succeeded after %d changes", p.Changes)
	}
	c.ClassIf(p.Changes > 1<<15, "more than 32768 changes")
	c.ClassIf(p.Changes > 1<<16, "more than 65536 changes")
	return nil
}

func TestC10_many(t *testing.T) {
	vt.Check(t, vt.Spec[ManyPlan]{
		ID: "C10", Rule: "one entry of a store, or another one, is changed up to 140000 times (often a power of two) within one second of update time; tags kept from before (those of the first 256 states among them) are tried at the end, and the current one twice; non-trivial: at least one change",
		Quick: 160, Thorough: 6000,
		Gen: func(t *rapid.T) ManyPlan {
			p := ManyPlan{Own: rapid.IntRange(0, 3).Draw(t, "other") > 0, Op: rapid.SampledFrom([]string{"update", "acc", "readd"}).Draw(t, "op")}
			if rapid.Bool().Draw(t, "power") {
				p.Changes = 1<<rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 15, 16, 16, 16}).Draw(t, "bits") + rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 250)).Draw(t, "and")
			} else {
				p.Changes = rapid.OneOf(rapid.IntRange(1, 3000), rapid.IntRange(1, 140000)).Draw(t, "changes")
			}
			p.Gap = rapid.IntRange(0, p.Changes-1).Draw(t, "gap") / rapid.SampledFrom([]int{1, 1, 100, 100000}).Draw(t, "early")
			return p
		},
		Run: runMany,
	})
}
