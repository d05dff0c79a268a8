package storeck

import (
	"testing"

	"vanflowverif/vt"
)

func check(t *testing.T, id, rule string, quick, thorough int, o genOpts, on checks) {
	vt.Check(t, vt.Spec[Plan]{
		ID: id, Rule: rule, Quick: quick, Thorough: thorough, Trace: o.nested,
		Gen: genPlan(o),
		Run: func(c *vt.Case, p Plan) error { return run(c, p, on, poolEnts(p.Cfg)) },
	})
}

var allKeys = []string{"", "type", "source"}

func TestC06(t *testing.T) {
	check(t, "C06", "histories of up to 30 adds, updates, deletes, replaces, accumulates and reads over 8 identities with three key functions (one failing), entries with sources, annotations and update times; after every step every key is read and the store listed and compared with a map; non-trivial: at least three changes",
		16000, 600000,
		genOpts{kinds: []string{"add", "add", "update", "update", "delete", "delete", "acc", "acc", "replace", "get", "list", "index"}, past: true, special: true, maxOps: 30, handlers: []string{"", "acd"}, keys: allKeys, indexers: []string{"", "custom", "empty"}},
		checks{content: true})
}

func TestC07(t *testing.T) {
	check(t, "C07", "histories of mostly accumulates over few identities, with records that cannot be encoded, merged or decoded again; content, metadata, update time, entity tags and notifications are compared with an attribute-wise merge after every step; non-trivial: at least three changes",
		20000, 800000,
		genOpts{kinds: []string{"acc", "acc", "acc", "acc", "acc", "acc", "update", "add", "delete", "replace"}, past: true, special: true, maxOps: 24, handlers: []string{"acd"}, keys: allKeys, indexers: []string{""}},
		checks{content: true, etags: true, events: true})
}

func TestC08(t *testing.T) {
	check(t, "C08", "histories of changes with the built-in and custom index functions (none, several, repeated values); after every step the values of every index and the lookup of every bucket are compared with a recomputation from the model; non-trivial: at least three changes",
		16000, 600000,
		genOpts{kinds: []string{"add", "add", "update", "update", "update", "delete", "acc", "acc", "acc", "replace", "index", "index", "values"}, past: true, special: true, maxOps: 24, handlers: []string{""}, keys: allKeys, indexers: []string{"", "custom", "custom"}},
		checks{index: true})
}

func TestC09(t *testing.T) {
	check(t, "C09", "stores of up to about ten entries filled by a history, listed and looked up with arbitrary offsets, limits, orders and tokens (real, forged, garbage), and paged through completely; compared with the sorted model; non-trivial: at least three changes",
		30000, 1000000,
		genOpts{kinds: []string{"add", "update", "update", "delete", "replace", "acc", "list", "list", "page", "page", "page", "index"}, maxOps: 30, handlers: []string{""}, keys: allKeys, indexers: []string{"", "custom"}},
		checks{listing: true})
}

func TestC10(t *testing.T) {
	check(t, "C10", "histories with reads that remember entity tags and updates that carry a current, stale or garbage one, across deletion, re-creation and replacement; success is compared with the model's state identity and tags with states; non-trivial: at least three changes",
		20000, 800000,
		genOpts{kinds: []string{"get", "get", "get", "update", "update", "update", "update", "add", "add", "delete", "delete", "acc", "acc", "replace"}, maxOps: 30, handlers: []string{"", "acd"}, keys: allKeys, indexers: []string{"empty"}},
		checks{content: true, etags: true})
}

func TestC11(t *testing.T) {
	check(t, "C11", "histories with every operation, all or only some handlers installed, handlers that read and modify the store; every notification is compared with the one the model prescribes, and their replay with the store; non-trivial: at least three changes",
		20000, 800000,
		genOpts{kinds: []string{"add", "add", "update", "update", "delete", "delete", "acc", "acc", "acc", "replace", "get", "list", "index"}, past: true, special: true, maxOps: 24, handlers: []string{"acd", "acd", "acd", "a", "c", "d", "ac", "ad", "cd", ""}, nested: true, keys: allKeys, indexers: []string{"", "custom"}},
		checks{events: true})
}
