package storeck

import (
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
	"github.com/c-kruse/vanflow/store"
	"pgregory.net/rapid"

	"vanflowverif/rec"
	"vanflowverif/vt"
)

// stubborn is a record type whose decoding fails for some values, so that
// merging can fail at its last step.
type stubborn struct {
	vanflow.BaseRecord
	A *string `vflow:"900"`
	B *picky  `vflow:"901"`
}

func (stubborn) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{APIVersion: "verif/v1", Type: "stubborn"}
}

type picky struct{ N uint64 }

func (p picky) EncodeRecordAttribute() (any, error) { return p.N, nil }
func (p *picky) DecodeRecordAttribute(attr any) error {
	n, ok := attr.(uint64)
	if !ok || n == 13 {
		return errors.New("picky attribute refused")
	}
	p.N = n
	return nil
}

// mute registers but is no vanflow.Record when decoded (a merge that cannot
// give a record back).
type mute struct {
	ID string  `vflow:"1,required"`
	A  *string `vflow:"900"`
}

type muteRecord mute // never registered: cannot be merged at all

func (m muteRecord) Identity() string { return m.ID }
func (muteRecord) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{APIVersion: "verif/v1", Type: "mute"}
}

const stubbornCode = 70001

func init() { encoding.MustRegisterRecord(stubbornCode, stubborn{}) }

// Ent is an entry as plan data.
type Ent struct {
	R       rec.Rec           `json:"r"`
	Special string            `json:"special,omitempty"` // stubborn, stubborn13, unregistered
	ByValue bool              `json:"byvalue,omitempty"`
	Source  string            `json:"source,omitempty"`
	Ann     map[string]string `json:"ann,omitempty"`
	Upd     int64             `json:"upd,omitempty"`
}

func ref(s string) store.SourceRef {
	return store.SourceRef{APIVersion: "v1", Type: "T", Name: s}
}

func (e Ent) record() vanflow.Record {
	name := ""
	if v, ok := e.R.A["Name"]; ok && v.S != nil {
		name = string(*v.S)
	}
	switch e.Special {
	case "stubborn":
		return &stubborn{BaseRecord: vanflow.NewBase(string(e.R.ID)), A: &name}
	case "stubborn13":
		return &stubborn{BaseRecord: vanflow.NewBase(string(e.R.ID)), B: &picky{13}}
	case "unregistered":
		return muteRecord{ID: string(e.R.ID), A: &name}
	}
	return e.R.Record(e.ByValue)
}

func (e Ent) entry() store.Entry {
	r := e.record()
	out := store.Entry{Record: r, TypeMeta: r.GetTypeMeta(), Meta: store.Metadata{Source: ref(e.Source)}}
	if e.Ann != nil {
		out.Meta.Annotations = map[string]string{}
		for k, v := range e.Ann {
			out.Meta.Annotations[k] = v
		}
	}
	if e.Upd != 0 {
		out.Meta.UpdatedAt = time.Unix(e.Upd, 0)
	}
	return out
}

type Sel struct {
	Offset int    `json:"offset,omitempty"`
	Limit  int    `json:"limit,omitempty"`
	Cont   string `json:"cont,omitempty"`
	Last   bool   `json:"last,omitempty"` // use the last token that was returned
	Cut    int    `json:"cut,omitempty"`  // its first bytes only
	Desc   bool   `json:"desc,omitempty"`
	Nil    bool   `json:"nil,omitempty"`
}

type Op struct {
	Kind string `json:"op"` // add update delete replace acc get list index values page
	E    Ent    `json:"e"`
	Es   []Ent  `json:"es,omitempty"`
	Cond string `json:"cond,omitempty"` // "", "etag", "garbage", "foreign" (of another key), "forged"
	Slot int    `json:"slot,omitempty"` // which earlier read of the key, counted back
	Junk string `json:"junk,omitempty"`
	At   int    `json:"at,omitempty"` // where a forged tag differs from a real one
	Idx  string `json:"idx,omitempty"`
	Sel  Sel    `json:"sel"`
}

type Config struct {
	Key      string `json:"key"`      // "" default, type, source
	Indexers string `json:"indexers"` // "" default, custom, empty
	Handlers string `json:"handlers"` // letters of acd
}

type Plan struct {
	Cfg    Config `json:"cfg"`
	Ops    []Op   `json:"ops"`
	Nested []Op   `json:"nested,omitempty"` // run by handlers, one per notification
}

// snapshot of an entry, comparable.
type snap struct {
	rec  string
	meta string
	upd  time.Time
}

func recText(r vanflow.Record) string {
	switch x := r.(type) {
	case nil:
		return "nil"
	case *stubborn:
		if x == nil {
			return "nil stubborn"
		}
		return stubbornText(*x)
	case stubborn:
		return stubbornText(x)
	case muteRecord:
		return fmt.Sprintf("mute %q %q", x.ID, *x.A)
	}
	m, err := rec.From(r)
	if err != nil {
		return err.Error()
	}
	return m.Canon()
}

func stubbornText(x stubborn) string {
	s := fmt.Sprintf("stubborn %q", x.ID)
	if x.A != nil {
		s += fmt.Sprintf(" A=%q", *x.A)
	}
	if x.B != nil {
		s += fmt.Sprintf(" B=%d", x.B.N)
	}
	return s
}

func metaText(e store.Entry) string {
	var ann []string
	for k, v := range e.Meta.Annotations {
		ann = append(ann, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(ann)
	return fmt.Sprintf("source=%v type=%v ann=%v", e.Meta.Source, e.TypeMeta, ann)
}

func snapOf(e store.Entry) snap { return snap{recText(e.Record), metaText(e), e.Meta.UpdatedAt} }

// item of the model.
type item struct {
	entry   store.Entry // content as the model expects it (records built afresh)
	model   *rec.Rec    // nil for special records
	special string
	lo, hi  time.Time // bounds of the update time
	version int       // unique per state
	etag    string    // once seen
}

func (it *item) matches(e store.Entry) error {
	if g, w := recText(e.Record), it.recText(); g != w {
		return fmt.Errorf("record is %s, want %s", g, w)
	}
	if g, w := metaText(e), metaText(it.entry); g != w {
		return fmt.Errorf("metadata is %s, want %s", g, w)
	}
	if e.Meta.UpdatedAt.Before(it.lo) || e.Meta.UpdatedAt.After(it.hi) {
		return fmt.Errorf("update time is %v, want between %v and %v", e.Meta.UpdatedAt, it.lo, it.hi)
	}
	it.lo, it.hi = e.Meta.UpdatedAt, e.Meta.UpdatedAt
	return nil
}

func (it *item) recText() string {
	if it.model != nil {
		return it.model.Canon()
	}
	return recText(it.entry.Record)
}

type readSlot struct {
	key     string
	etag    string
	version int // 0: not found
}

type event struct {
	kind       string // a c d
	prev, next *item
	key        string
}

// checks that are on.
type checks struct {
	content, index, listing, etags, events bool
}

type world struct {
	c       *vt.Case
	on      checks
	cfg     Config
	st      store.Interface
	m       map[string]*item
	version int
	slots   []readSlot
	lastTok string
	expect  []event // notifications that must come, innermost last
	nested  []Op
	mirror  map[string]string // what replaying the notifications gives
	depth   int
	err     error
	etags   map[string]map[string]int // key -> etag -> version
	keys    map[string]bool
	idxVals func(name string, e store.Entry) []string
}

var errKey = errors.New("no key")

func keyOf(kind string, e store.Entry) (string, error) {
	if e.Record == nil {
		return "", errKey
	}
	id := e.Record.Identity()
	if strings.HasPrefix(id, "!") && kind != "" {
		return "", errKey
	}
	switch kind {
	case "type":
		return e.TypeMeta.String() + "/" + id, nil
	case "source":
		return e.Meta.Source.String() + "/" + id, nil
	}
	return id, nil
}

// multi is an index function giving none, several or repeated values.
func multi(e store.Entry) []string {
	var out []string
	if e.Record == nil {
		return nil
	}
	m, err := rec.From(e.Record)
	if err != nil {
		return []string{"special"}
	}
	if v, ok := m.A["Name"]; ok && v.S != nil {
		for _, r := range string(*v.S) {
			out = append(out, string(r))
		}
	}
	if v, ok := m.A["Parent"]; ok && v.S != nil {
		out = append(out, string(*v.S), string(*v.S))
	}
	return out
}

func byType(e store.Entry) []string { return []string{e.TypeMeta.Type} }

func custom() map[string]store.CacheIndexer {
	return map[string]store.CacheIndexer{"multi": multi, "type": byType, "const": func(store.Entry) []string { return []string{"x", "x", ""} }, "none": func(store.Entry) []string { return nil }}
}

// builtin describes the documented default indexes independently.
func builtin(name string, e store.Entry) []string {
	switch name {
	case "source":
		s := e.Meta.Source
		return []string{s.APIVersion + "." + s.Type + "." + s.Name}
	case "site":
		if v, ok := e.Meta.Annotations["skupper.io/flow/site-id"]; ok {
			return []string{v}
		}
		return []string{"unknown"}
	}
	return nil
}

func newWorld(c *vt.Case, p Plan, on checks) *world {
	w := &world{c: c, on: on, cfg: p.Cfg, m: map[string]*item{}, nested: append([]Op{}, p.Nested...),
		mirror: map[string]string{}, etags: map[string]map[string]int{}, keys: map[string]bool{}}
	cfg := store.CacheConfig{}
	if p.Cfg.Key != "" {
		kind := p.Cfg.Key
		cfg.Key = func(e store.Entry) (string, error) { return keyOf(kind, e) }
	}
	switch p.Cfg.Indexers {
	case "custom":
		cfg.Indexers = custom()
		w.idxVals = func(name string, e store.Entry) []string {
			if fn := custom()[name]; fn != nil {
				return fn(e)
			}
			return nil
		}
	case "empty":
		cfg.Indexers = map[string]store.CacheIndexer{}
	default:
		w.idxVals = builtin
	}
	if strings.Contains(p.Cfg.Handlers, "a") {
		cfg.EventHandlers.OnAdd = func(e store.Entry) { w.notified("a", nil, &e) }
	}
	if strings.Contains(p.Cfg.Handlers, "c") {
		cfg.EventHandlers.OnChange = func(prev, curr store.Entry) { w.notified("c", &prev, &curr) }
	}
	if strings.Contains(p.Cfg.Handlers, "d") {
		cfg.EventHandlers.OnDelete = func(e store.Entry) { w.notified("d", &e, nil) }
	}
	w.st = store.NewDefaultCachingStore(cfg)
	return w
}

func (w *world) indexNames() []string {
	switch w.cfg.Indexers {
	case "custom":
		return []string{"multi", "type", "const", "none"}
	case "empty":
		return nil
	}
	return []string{store.IndexBySource, store.IndexBySite}
}

func (w *world) fail(format string, args ...any) {
	if w.err == nil {
		w.err = fmt.Errorf(format, args...)
	}
}

// notified is called by the store's handlers.
func (w *world) notified(kind string, prev, next *store.Entry) {
	if w.err != nil {
		return
	}
	if w.on.events {
		if len(w.expect) == 0 {
			w.fail("unexpected notification %q: %v -> %v", kind, text(prev), text(next))
			return
		}
		e := w.expect[len(w.expect)-1]
		w.expect = w.expect[:len(w.expect)-1]
		if e.kind != kind {
			w.fail("notification %q (%v -> %v), want %q", kind, text(prev), text(next), e.kind)
			return
		}
		if e.prev != nil {
			cp := *e.prev
			if err := cp.matches(*prev); err != nil {
				w.fail("notification %q for %q: previous %v", kind, e.key, err)
				return
			}
		}
		if e.next != nil {
			if err := e.next.matches(*next); err != nil {
				w.fail("notification %q for %q: current %v", kind, e.key, err)
				return
			}
		}
		w.c.Class("notification " + kind)
		var k string
		if next != nil {
			k, _ = keyOf(w.cfg.Key, *next)
			w.mirror[k] = recText(next.Record)
		} else {
			k, _ = keyOf(w.cfg.Key, *prev)
			delete(w.mirror, k)
		}
	}
	if len(w.nested) > 0 && w.depth < 8 {
		op := w.nested[0]
		w.nested = w.nested[1:]
		w.c.Class("store used by a handler")
		w.apply(op)
	}
}

func text(e *store.Entry) string {
	if e == nil {
		return "none"
	}
	return recText(e.Record)
}

func (w *world) handles(kind string) bool { return strings.Contains(w.cfg.Handlers, kind) }

func (w *world) push(kind, key string, prev, next *item) int {
	if w.handles(kind) {
		w.expect = append(w.expect, event{kind, prev, next, key})
	}
	return len(w.expect)
}

// settle checks that the pending notification has been delivered.
func (w *world) settle(before int, what string) {
	if w.on.events && w.err == nil && len(w.expect) != before {
		w.fail("%s: %d notifications were not delivered", what, len(w.expect)-before)
	}
	if !w.on.events {
		w.expect = nil
	}
}

var farFuture = time.Unix(1<<40, 0)

func (w *world) newItem(e Ent) *item {
	w.version++
	it := &item{entry: e.entry(), version: w.version, special: e.Special}
	if e.Special == "" {
		m := e.R.Clone()
		it.model = &m
	}
	return it
}

// mergeable tells whether the record can be encoded.
func mergeable(it *item) bool {
	if it.special == "unregistered" || it.special == "stubborn13" && false {
		return false
	}
	if it.model != nil {
		_, ok := it.model.Attrs()
		return ok
	}
	return it.entry.Record.Identity() != ""
}

func (w *world) apply(op Op) {
	if w.err != nil {
		return
	}
	w.depth++
	defer func() { w.depth-- }()
	ctx := context.Background()
	before := len(w.expect)
	e := op.E.entry()
	key, keyErr := keyOf(w.cfg.Key, e)
	if keyErr == nil {
		w.keys[key] = true
	}
	t0 := time.Now()
	switch op.Kind {
	case "add":
		prev := w.m[key]
		ok := keyErr == nil && prev == nil
		if ok {
			it := w.newItem(op.E)
			it.lo, it.hi = t0, farFuture
			w.m[key] = it
			w.push("a", key, nil, it)
		}
		mine := w.m[key]
		err := w.st.Add(ctx, e)
		w.bound(mine, ok)
		if (err == nil) != ok {
			w.fail("add %q: error %v, want success=%v", key, err, ok)
		}
		w.c.ClassIf(!ok && keyErr == nil, "add of existing key")
	case "update":
		prev := w.m[key]
		ok := keyErr == nil
		uctx := ctx
		switch op.Cond {
		case "etag":
			slot, found := w.slot(key, op.Slot)
			if !found {
				break
			}
			uctx = store.WithIfMatch(ctx, slot.etag)
			match := prev != nil && prev.version == slot.version
			w.c.ClassIf(match, "conditional update current")
			w.c.ClassIf(!match, "conditional update stale")
			w.c.ClassIf(!match && prev == nil, "conditional update of a deleted entry")
			ok = ok && match
		case "garbage":
			uctx = store.WithIfMatch(ctx, op.Junk)
			ok = false
			w.c.Class("conditional update with a string that is no tag")
		case "foreign":
			slot, found := w.foreign(key, op.Slot)
			if !found {
				break
			}
			uctx = store.WithIfMatch(ctx, slot.etag)
			ok = false
			w.c.Class("conditional update with the tag of another key")
		case "forged":
			slot, found := w.slot(key, op.Slot)
			if !found || slot.etag == "" {
				break
			}
			tag := forge(slot.etag, op.Junk, op.At)
			now, _ := w.st.Get(ctx, e)
			if tag == slot.etag || now.Found && now.ETag == tag {
				break // not forged after all
			}
			uctx = store.WithIfMatch(ctx, tag)
			ok = false
			w.c.Class("conditional update with a tag that was tampered with")
			w.c.ClassIf(prev == nil, "tampered tag for a deleted entry")
		}
		if ok {
			it := w.newItem(op.E)
			it.lo, it.hi = t0, farFuture
			w.m[key] = it
			if prev == nil {
				w.push("a", key, nil, it)
			} else {
				cp := *prev
				w.push("c", key, &cp, it)
			}
		}
		mine := w.m[key]
		err := w.st.Update(uctx, e)
		w.bound(mine, ok)
		if (err == nil) != ok {
			w.fail("update %q (condition %q): error %v, want success=%v", key, op.Cond, err, ok)
		}
	case "delete":
		prev := w.m[key]
		if keyErr == nil && prev != nil {
			delete(w.m, key)
			w.push("d", key, prev, nil)
		}
		err := w.st.Delete(ctx, e)
		if (err == nil) != (keyErr == nil) {
			w.fail("delete %q: error %v", key, err)
		}
		w.c.ClassIf(prev == nil, "delete of absent key")
	case "replace":
		var es []store.Entry
		next := map[string]*item{}
		ok := true
		for _, x := range op.Es {
			ent := x.entry()
			es = append(es, ent)
			k, err := keyOf(w.cfg.Key, ent)
			if err != nil {
				ok = false
				continue
			}
			if next[k] != nil {
				w.c.Class("replace with a repeated key")
			}
			it := w.newItem(x)
			it.lo, it.hi = ent.Meta.UpdatedAt, ent.Meta.UpdatedAt
			next[k] = it
			w.keys[k] = true
		}
		if ok {
			w.m = next
			w.mirror = map[string]string{}
			for k, it := range next {
				w.mirror[k] = it.recText()
			}
		}
		err := w.st.Replace(ctx, es)
		if (err == nil) != ok {
			w.fail("replace: error %v, want success=%v", err, ok)
		}
	case "acc":
		src := ref(op.E.Source)
		// key and entry of an accumulated record: type, source and record only
		e.Meta = store.Metadata{Source: src}
		key, keyErr = keyOf(w.cfg.Key, e)
		if keyErr == nil {
			w.keys[key] = true
		}
		prev := w.m[key]
		ok, effective := keyErr == nil, false
		var it *item
		switch {
		case !ok:
		case prev == nil:
			op.E.Ann, op.E.Upd = nil, 0
			it = w.newItem(op.E)
			effective = true
			w.push("a", key, nil, it)
		default:
			cand := w.newItem(op.E)
			ok = mergeable(prev) && mergeable(cand)
			if prev.model != nil && cand.model != nil && prev.model.Type != cand.model.Type {
				ok = false
				w.c.Class("accumulate of another type")
			}
			switch {
			case !ok:
				w.c.Class("accumulate that cannot be merged")
			case prev.model != nil && cand.model != nil:
				merged := prev.model.Normal()
				for k, v := range cand.model.Normal().A {
					old, had := merged.A[k]
					if !had || !rec.EqVal(old, v) {
						effective = true
						merged.A[k] = v
					}
				}
				if effective {
					it = cand
					it.model = &merged
					it.entry = prev.entry
				}
			default: // stubborn records: the last step may fail
				pt, ct := prev.entry.Record.(*stubborn), cand.entry.Record.(*stubborn)
				out := &stubborn{BaseRecord: pt.BaseRecord, A: pt.A, B: pt.B}
				if ct.A != nil && (out.A == nil || *out.A != *ct.A) {
					out.A, effective = ct.A, true
				}
				if ct.B != nil && (out.B == nil || *out.B != *ct.B) {
					out.B, effective = ct.B, true
				}
				if effective && out.B != nil && out.B.N == 13 {
					ok, effective = false, false
					w.c.Class("accumulate whose result cannot be decoded")
				}
				if effective {
					it = cand
					it.entry = prev.entry
					it.entry.Record = out
				}
			}
			if effective {
				cp := *prev
				w.push("c", key, &cp, it)
				w.c.Class("accumulate changes")
			} else if ok {
				w.c.Class("accumulate changes nothing")
			}
		}
		if effective {
			it.lo, it.hi = t0, farFuture
			w.m[key] = it
		}
		mine := w.m[key]
		err := w.st.Accumulate(src, e.Record)
		w.bound(mine, effective)
		if (err == nil) != ok {
			w.fail("accumulate %q %s: error %v, want success=%v", key, recText(e.Record), err, ok)
		}
	case "get":
		w.get(key, keyErr, e, true)
	case "list":
		w.list(op.Sel, func(s *store.Selector) (store.Set, error) { return w.st.List(ctx, s) }, w.sortedKeys(nil))
	case "index":
		exists := w.hasIndex(op.Idx)
		var keys []string
		if exists {
			keys = w.indexed(op.Idx, e)
		}
		fn := func(s *store.Selector) (store.Set, error) { return w.st.Index(ctx, op.Idx, e, s) }
		if !exists {
			if _, err := fn(nil); err == nil && w.on.index {
				w.fail("lookup in unknown index %q did not fail", op.Idx)
			}
			break
		}
		w.list(op.Sel, fn, keys)
	case "page":
		w.page(op)
	case "values":
		w.values(op.Idx)
	}
	w.settle(before, op.Kind)
}

// bound narrows the update time of what an operation wrote; operations run by
// handlers may have replaced it meanwhile.
func (w *world) bound(it *item, wrote bool) {
	if wrote && it != nil && it.hi.Equal(farFuture) {
		it.hi = time.Now()
	}
}

func (w *world) slot(key string, back int) (readSlot, bool) {
	n := 0
	for i := len(w.slots) - 1; i >= 0; i-- {
		if w.slots[i].key == key && w.slots[i].version != 0 {
			if n == back {
				return w.slots[i], true
			}
			n++
		}
	}
	return readSlot{}, false
}

// foreign is a read of another key.
func (w *world) foreign(key string, back int) (readSlot, bool) {
	for i := len(w.slots) - 1; i >= 0; i-- {
		if s := w.slots[i]; s.key != key && s.version != 0 {
			if back == 0 {
				return s, true
			}
			back--
		}
	}
	return readSlot{}, false
}

// forge gives a string that resembles the tag.
func forge(tag, how string, at int) string {
	raw, err := base64.StdEncoding.DecodeString(tag)
	i := at % len(tag)
	switch {
	case how == "cut":
		return tag[:i]
	case how == "longer":
		return tag + tag[:i+1]
	case how == "space":
		return tag[:i] + "\n" + tag[i:]
	case how == "char":
		return tag[:i] + string(rune('A'+at%26)) + tag[i+1:]
	case err != nil || len(raw) == 0:
		return tag + "A"
	case how == "byte":
		raw[at%len(raw)] ^= byte(1 << (at / 7 % 8))
	case how == "more":
		raw = append(raw, byte(at))
	case how == "less":
		raw = raw[:at%len(raw)]
	case how == "zero":
		raw = make([]byte, len(raw))
	}
	return base64.StdEncoding.EncodeToString(raw)
}

func (w *world) get(key string, keyErr error, exemplar store.Entry, slot bool) {
	res, err := w.st.Get(context.Background(), exemplar)
	if keyErr != nil {
		if err == nil {
			w.fail("get with a key that cannot be computed did not fail")
		}
		return
	}
	if err != nil {
		w.fail("get %q: %v", key, err)
		return
	}
	it := w.m[key]
	if res.Found != (it != nil) {
		w.fail("get %q: found=%v, want %v", key, res.Found, it != nil)
		return
	}
	s := readSlot{key: key, etag: res.ETag}
	if it != nil {
		if err := it.matches(res.Entry); err != nil && w.on.content {
			w.fail("get %q: %v", key, err)
			return
		}
		s.version = it.version
		if w.on.etags {
			if it.etag != "" && it.etag != res.ETag {
				w.fail("get %q: entity tag changed from %q to %q although the entry did not", key, it.etag, res.ETag)
			}
			it.etag = res.ETag
			if w.etags[key] == nil {
				w.etags[key] = map[string]int{}
			}
			if v, seen := w.etags[key][res.ETag]; seen && v != it.version {
				w.fail("get %q: entity tag %q already belonged to another state", key, res.ETag)
			}
			w.etags[key][res.ETag] = it.version
		}
	}
	if slot {
		w.slots = append(w.slots, s)
	}
}

func (w *world) sortedKeys(filter func(*item) bool) []string {
	var out []string
	for k, it := range w.m {
		if filter == nil || filter(it) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func (w *world) hasIndex(name string) bool {
	for _, n := range w.indexNames() {
		if n == name {
			return true
		}
	}
	return false
}

func (w *world) valuesOf(name string, it *item) []string {
	e := it.entry
	if it.model != nil {
		e.Record = it.model.Record(false)
	}
	return w.idxVals(name, e)
}

func (w *world) indexed(name string, exemplar store.Entry) []string {
	want := map[string]bool{}
	for _, v := range w.idxVals(name, exemplar) {
		want[v] = true
	}
	return w.sortedKeys(func(it *item) bool {
		for _, v := range w.valuesOf(name, it) {
			if want[v] {
				return true
			}
		}
		return false
	})
}

func (w *world) values(name string) {
	got, err := w.st.IndexValues(context.Background(), name)
	if !w.hasIndex(name) {
		if err == nil && w.on.index {
			w.fail("values of unknown index %q did not fail", name)
		}
		return
	}
	if err != nil {
		w.fail("values of index %q: %v", name, err)
		return
	}
	if !w.on.index {
		return
	}
	set := map[string]bool{}
	for _, it := range w.m {
		for _, v := range w.valuesOf(name, it) {
			set[v] = true
		}
	}
	var want []string
	for v := range set {
		want = append(want, v)
	}
	sort.Strings(want)
	got = append([]string{}, got...)
	sort.Strings(got)
	if fmt.Sprint(len(want), want) != fmt.Sprint(len(got), got) {
		w.fail("values of index %q: %q, want %q", name, got, want)
	}
}

func reverse(s []string) []string {
	out := make([]string, len(s))
	for i := range s {
		out[len(s)-1-i] = s[i]
	}
	return out
}

// same compares returned entries with the model's entries of the given keys.
func (w *world) same(what string, got []store.Entry, want []string, ordered bool) bool {
	if len(got) != len(want) {
		w.fail("%s: %d entries, want %d (%q)", what, len(got), len(want), want)
		return false
	}
	seen := map[string]bool{}
	for i, e := range got {
		k, err := keyOf(w.cfg.Key, e)
		if err != nil {
			w.fail("%s: entry %d: %v", what, i, err)
			return false
		}
		if seen[k] {
			w.fail("%s: %q returned twice", what, k)
			return false
		}
		seen[k] = true
		if ordered && k != want[i] {
			w.fail("%s: entry %d is %q, want %q", what, i, k, want[i])
			return false
		}
		it := w.m[k]
		if it == nil {
			w.fail("%s: returned %q, which is not stored", what, k)
			return false
		}
		if err := it.matches(e); err != nil {
			w.fail("%s: %q: %v", what, k, err)
			return false
		}
	}
	for _, k := range want {
		if !seen[k] {
			w.fail("%s: %q is missing", what, k)
			return false
		}
	}
	return true
}

func (w *world) list(sel Sel, fn func(*store.Selector) (store.Set, error), keys []string) {
	if sel.Nil {
		set, err := fn(nil)
		if err != nil {
			w.fail("listing: %v", err)
			return
		}
		w.same("listing", set.Entries, keys, false)
		return
	}
	s := store.Selector{Offset: sel.Offset, Limit: sel.Limit, Continue: sel.Cont}
	if sel.Last {
		s.Continue = w.lastTok
	}
	cut := sel.Last && sel.Cut > 0 && sel.Cut < len(s.Continue)
	if cut {
		s.Continue = s.Continue[:sel.Cut]
	}
	if sel.Desc {
		s.Ordering = store.Descending
		keys = reverse(keys)
	}
	set, err := fn(&s) // a panic is a violation whatever the selector
	if s.Continue != "" || s.Offset < 0 {
		w.c.Class("listing with any token or negative offset")
		if cut {
			w.c.Class("listing with the beginning of a token")
			if err == nil && w.on.listing {
				w.fail("listing with %q, the beginning of a token, gives no error", s.Continue)
			}
		}
		if err == nil && w.on.listing { // whatever it is, it is a part of the listing in order
			at := map[string]int{}
			for i, k := range keys {
				at[k] = i
			}
			last := -1
			for _, e := range set.Entries {
				k, _ := keyOf(w.cfg.Key, e)
				i, ok := at[k]
				if !ok || i <= last {
					w.fail("listing with token %q: entry %q out of order, repeated or not stored", s.Continue, k)
					return
				}
				last = i
			}
			if s.Limit > 0 && len(set.Entries) > s.Limit {
				w.fail("listing with token %q: %d entries, limit %d", s.Continue, len(set.Entries), s.Limit)
			}
		}
		return
	}
	if err != nil {
		w.fail("listing %+v: %v", s, err)
		return
	}
	if !w.on.listing {
		return
	}
	want := keys
	if s.Offset < len(want) {
		want = want[s.Offset:]
	} else {
		want = nil
	}
	more := s.Limit > 0 && len(want) > s.Limit
	if more {
		want = want[:s.Limit]
	}
	if !w.same(fmt.Sprintf("listing %+v", s), set.Entries, want, true) {
		return
	}
	if (set.Continue != "") != more {
		w.fail("listing %+v: continue token %q, entries remain: %v", s, set.Continue, more)
	}
	if set.Continue != "" {
		w.lastTok = set.Continue
	}
}

func (w *world) page(op Op) {
	keys := w.sortedKeys(nil)
	fn := func(s *store.Selector) (store.Set, error) { return w.st.List(context.Background(), s) }
	if op.Idx != "" && w.hasIndex(op.Idx) {
		e := op.E.entry()
		keys = w.indexed(op.Idx, e)
		fn = func(s *store.Selector) (store.Set, error) { return w.st.Index(context.Background(), op.Idx, e, s) }
	}
	s := store.Selector{Offset: op.Sel.Offset, Limit: op.Sel.Limit}
	if s.Offset < 0 {
		s.Offset = 0
	}
	if op.Sel.Desc {
		s.Ordering = store.Descending
		keys = reverse(keys)
	}
	if s.Offset < len(keys) {
		keys = keys[s.Offset:]
	} else {
		keys = nil
	}
	pages := 0
	for {
		set, err := fn(&s)
		if err != nil {
			w.fail("page %d of %+v: %v", pages, s, err)
			return
		}
		pages++
		n := len(keys)
		if s.Limit > 0 && n > s.Limit {
			n = s.Limit
		}
		if !w.same(fmt.Sprintf("page %d of %+v", pages, s), set.Entries, keys[:n], true) {
			return
		}
		keys = keys[n:]
		if (set.Continue != "") != (len(keys) > 0) {
			w.fail("page %d of %+v: token %q while %d entries remain", pages, s, set.Continue, len(keys))
			return
		}
		if set.Continue == "" {
			break
		}
		s.Continue = set.Continue
		w.lastTok = set.Continue
	}
	w.c.ClassIf(pages > 1, "several pages")
	w.c.ClassIf(pages > 3, "more than three pages")
}

// inspect compares the whole store with the model.
func (w *world) inspect() {
	if w.err != nil {
		return
	}
	ctx := context.Background()
	if w.on.content {
		set, err := w.st.List(ctx, nil)
		if err != nil {
			w.fail("list: %v", err)
			return
		}
		if !w.same("list", set.Entries, w.sortedKeys(nil), false) {
			return
		}
	}
	if w.on.index {
		for _, name := range w.indexNames() {
			w.values(name)
			seen := map[string]bool{}
			for _, it := range w.m { // look every entry's buckets up
				e := it.entry
				if it.model != nil {
					e.Record = it.model.Record(false)
				}
				k := fmt.Sprint(w.idxVals(name, e))
				if seen[k] {
					continue
				}
				seen[k] = true
				set, err := w.st.Index(ctx, name, e, nil)
				if err != nil {
					w.fail("index %q: %v", name, err)
					return
				}
				if !w.same(fmt.Sprintf("index %q lookup of %s", name, recText(e.Record)), set.Entries, w.indexed(name, e), false) {
					return
				}
			}
		}
	}
	if w.on.events && w.handles("a") && w.handles("c") && w.handles("d") {
		if len(w.mirror) != len(w.m) {
			w.fail("replaying the notifications gives %d entries, the store holds %d", len(w.mirror), len(w.m))
		}
		for k, it := range w.m {
			if w.mirror[k] != it.recText() {
				w.fail("replaying the notifications gives %q for %q, the store holds %q", w.mirror[k], k, it.recText())
			}
		}
	}
}

func run(c *vt.Case, p Plan, on checks, pool []Ent) error {
	w := newWorld(c, p, on)
	changes := 0
	for i, op := range p.Ops {
		v := w.version
		w.apply(op)
		if w.version > v {
			changes++
		}
		// every key of the universe is read after every step
		if w.err == nil && on.content {
			for _, e := range pool {
				ent := e.entry()
				k, kerr := keyOf(w.cfg.Key, ent)
				w.get(k, kerr, ent, false)
			}
		}
		w.inspect()
		if w.err != nil {
			return fmt.Errorf("step %d (%s): %w", i, op.Kind, w.err)
		}
		c.Class("op " + op.Kind)
	}
	if changes >= 3 {
		c.NonTrivial()
	}
	return nil
}

// --- generators

// pool of records: the type mostly goes with the identity.
var idType = map[string]uint32{"a": 0, "b": 6, "c": 7, "d": 0, "e": 2, "a/b": 4, "ü": 1, "!x": 3, "m": rec.CustomCode}
var ids = []string{"a", "b", "c", "d", "e", "a/b", "ü", "!x", "m"}

type genOpts struct {
	kinds    []string // weighted by repetition
	past     bool     // unencodable records
	special  bool
	maxOps   int
	handlers []string
	nested   bool
	keys     []string
	indexers []string
}

func genEnt(t *rapid.T, o genOpts, cfg Config) Ent {
	id := rapid.SampledFrom(ids).Draw(t, "id")
	typ := idType[id]
	if cfg.Key != "type" && rapid.IntRange(0, 9).Draw(t, "clash") == 0 {
		typ = rapid.SampledFrom([]uint32{0, 1, 7}).Draw(t, "type")
	}
	if cfg.Key == "type" && rapid.IntRange(0, 2).Draw(t, "ot") == 0 {
		typ = rapid.SampledFrom([]uint32{0, 1, 7}).Draw(t, "type")
	}
	e := Ent{R: rec.Gen(rec.Opts{Types: []uint32{typ}, IDs: []string{id}, Small: true}).Draw(t, "r"), ByValue: rapid.Bool().Draw(t, "byvalue")}
	e.Source = rapid.SampledFrom([]string{"s1", "s2", ""}).Draw(t, "src")
	if rapid.IntRange(0, 2).Draw(t, "annk") == 0 {
		e.Ann = map[string]string{"k": rapid.SampledFrom([]string{"1", "2"}).Draw(t, "ann")}
		if rapid.Bool().Draw(t, "site") {
			e.Ann["skupper.io/flow/site-id"] = rapid.SampledFrom([]string{"", "x", "y", "unknown"}).Draw(t, "siteid")
		}
	}
	if rapid.IntRange(0, 1).Draw(t, "updk") == 0 {
		e.Upd = int64(rapid.IntRange(1, 2000000000).Draw(t, "upd"))
	}
	if o.past && rapid.IntRange(0, 7).Draw(t, "past") == 0 {
		e.R.A["StartTime"] = rec.VT(-5)
	}
	if o.special && rapid.IntRange(0, 5).Draw(t, "special") == 0 {
		e.Special = rapid.SampledFrom([]string{"stubborn", "stubborn", "stubborn13", "unregistered"}).Draw(t, "sp")
		e.R.ID = vt.S(rapid.SampledFrom([]string{"z1", "z2"}).Draw(t, "spid"))
		if e.Special == "unregistered" {
			e.R.ID = vt.S(rapid.SampledFrom([]string{"z3", "z4"}).Draw(t, "spid"))
		}
	}
	return e
}

func genOp(t *rapid.T, o genOpts, cfg Config) Op {
	op := Op{Kind: rapid.SampledFrom(o.kinds).Draw(t, "op")}
	switch op.Kind {
	case "replace":
		n := rapid.IntRange(0, 5).Draw(t, "n")
		for i := 0; i < n; i++ {
			op.Es = append(op.Es, genEnt(t, o, cfg))
		}
	case "list", "page":
		op.Sel = genSel(t)
		if op.Kind == "page" && rapid.Bool().Draw(t, "pidx") {
			op.Idx = rapid.SampledFrom(idxNames(cfg)).Draw(t, "idx")
			op.E = genEnt(t, o, cfg)
		}
	case "values":
		op.Idx = rapid.SampledFrom(append(idxNames(cfg), "nope", "")).Draw(t, "idx")
	case "index":
		op.Idx = rapid.SampledFrom(append(idxNames(cfg), "nope")).Draw(t, "idx")
		op.E = genEnt(t, o, cfg)
		op.Sel = genSel(t)
	default:
		op.E = genEnt(t, o, cfg)
	}
	if op.Kind == "update" {
		switch rapid.IntRange(0, 7).Draw(t, "condk") {
		case 0, 1, 2:
			op.Cond = "etag"
			op.Slot = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 4}).Draw(t, "slot")
		case 3:
			op.Cond = "garbage"
			op.Junk = rapid.OneOf(rapid.SampledFrom([]string{"", "x", "*", "AAAA", "====", "AQAAAAAAAAA="}), rapid.StringN(0, 12, -1)).Draw(t, "junk")
		case 4:
			op.Cond = "foreign"
			op.Slot = rapid.IntRange(0, 2).Draw(t, "slot")
		case 5:
			op.Cond = "forged"
			op.Slot = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "slot")
			op.Junk = rapid.SampledFrom([]string{"cut", "longer", "space", "char", "byte", "byte", "more", "less", "zero"}).Draw(t, "forge")
			op.At = rapid.IntRange(0, 200).Draw(t, "at")
		}
	}
	return op
}

func idxNames(cfg Config) []string {
	switch cfg.Indexers {
	case "custom":
		return []string{"multi", "multi", "type", "const", "none"}
	case "empty":
		return []string{"source"}
	}
	return []string{"source", "site"}
}

func genSel(t *rapid.T) Sel {
	var s Sel
	if rapid.IntRange(0, 5).Draw(t, "nil") == 0 {
		s.Nil = true
		return s
	}
	s.Offset = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 7, 100, math.MaxInt, -1, math.MinInt}).Draw(t, "offset")
	s.Limit = rapid.SampledFrom([]int{0, 1, 1, 2, 3, 4, 8, 100, math.MaxInt, -1, math.MinInt}).Draw(t, "limit")
	s.Desc = rapid.Bool().Draw(t, "desc")
	switch rapid.IntRange(0, 9).Draw(t, "contk") {
	case 0:
		s.Last = true
		s.Cut = rapid.SampledFrom([]int{0, 0, 1, 2, 4, 8, 12, 14, 15}).Draw(t, "cut")
	case 1:
		s.Cont = rapid.OneOf(rapid.SampledFrom([]string{"x", "AAAA", "AAAAAAAAAAAAAAAA", "AAAAAAAAAAD/////", "AAAAAAAAAAABAAAA", "AAAAAAAAAAD///9/", "AAAAAAAAAAAAAACA", "AAAAAAAAAAAAAACAAAAA"}), rapid.StringN(0, 20, -1)).Draw(t, "cont")
	}
	return s
}

func genPlan(o genOpts) func(*rapid.T) Plan {
	return func(t *rapid.T) Plan {
		var p Plan
		p.Cfg.Key = rapid.SampledFrom(o.keys).Draw(t, "key")
		p.Cfg.Indexers = rapid.SampledFrom(o.indexers).Draw(t, "indexers")
		p.Cfg.Handlers = rapid.SampledFrom(o.handlers).Draw(t, "handlers")
		n := rapid.IntRange(1, o.maxOps).Draw(t, "nops")
		for i := 0; i < n; i++ {
			p.Ops = append(p.Ops, genOp(t, o, p.Cfg))
		}
		if o.nested {
			for i := rapid.SampledFrom([]int{0, 0, 1, 3, 6}).Draw(t, "nnested"); i > 0; i-- {
				p.Nested = append(p.Nested, genOp(t, o, p.Cfg))
			}
		}
		return p
	}
}

// poolEnts are exemplars for every key the generators can make.
func poolEnts(cfg Config) (out []Ent) {
	srcs := []string{"s1"}
	if cfg.Key == "source" {
		srcs = []string{"s1", "s2", ""}
	}
	for _, id := range ids {
		types := []uint32{idType[id]}
		if cfg.Key == "type" {
			types = append(types, 0, 1, 7)
		}
		for _, typ := range types {
			for _, s := range srcs {
				out = append(out, Ent{R: rec.Rec{Type: typ, ID: vt.S(id)}, Source: s})
			}
		}
	}
	return
}
