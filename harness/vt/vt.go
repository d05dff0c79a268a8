// Package vt is the common part of the checks: it draws plans with rapid, runs
// them, keeps statistics, and saves failing plans so that they can be replayed
// without rapid.
package vt

import (
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"log/slog"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

func init() {
	// the code under test logs through slog and log: keep it quiet
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 4})))
	log.SetOutput(io.Discard)
}

// S is a string that survives JSON whatever its bytes are.
type S string

type b64 struct {
	B string `json:"b64"`
}

func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(b64{base64.StdEncoding.EncodeToString([]byte(s))})
}

func (s *S) UnmarshalJSON(data []byte) error {
	if len(data) > 0 && data[0] == '{' {
		var b b64
		if err := json.Unmarshal(data, &b); err != nil {
			return err
		}
		raw, err := base64.StdEncoding.DecodeString(b.B)
		*s = S(raw)
		return err
	}
	var x string
	err := json.Unmarshal(data, &x)
	*s = S(x)
	return err
}

// Case collects what one generated case turned out to be.
type Case struct {
	mu         sync.Mutex
	nontrivial bool
	classes    map[string]int
}

// NonTrivial marks the case as one that exercises the property.
func (c *Case) NonTrivial() { c.mu.Lock(); c.nontrivial = true; c.mu.Unlock() }

// Class counts the case (once) under a label.
func (c *Case) Class(name string) {
	c.mu.Lock()
	if c.classes == nil {
		c.classes = map[string]int{}
	}
	c.classes[name] = 1
	c.mu.Unlock()
}

// ClassIf counts the case under a label when cond holds.
func (c *Case) ClassIf(cond bool, name string) {
	if cond {
		c.Class(name)
	}
}

// Spec describes one check.
type Spec[P any] struct {
	ID   string // property
	Rule string // how cases are made and what makes one non-trivial
	Gen  func(*rapid.T) P
	Run  func(*Case, P) error
	// Cases per run (all shards together) in the two tiers.
	Quick, Thorough int
	// Trace saves every plan before it is run, so that a crash of the
	// process can be replayed.
	Trace bool
	// HangTicks is how many 10ms ticks of this process a case may take
	// before it counts as hung. Zero is the default, 3000.
	// NoShrink reports the first failing plan as it is: running it takes long.
	NoShrink  bool
	HangTicks int64
}

type stats struct {
	Property    string         `json:"property"`
	Part        string         `json:"part"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Hashes      []string       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Samples     []any          `json:"samples"`
	Skipped     int            `json:"skipped_over_budget"`
	Status      string         `json:"status"`
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Error    string          `json:"error"`
	Plan     json.RawMessage `json:"plan"`
}

// Abort ends the test process as inconclusive: the harness could not do its
// job (never a violation).
func Abort(format string, args ...any) {
	fmt.Fprintf(os.Stdout, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(2)
}

func envInt(name string, def int) int {
	v, err := strconv.Atoi(os.Getenv(name))
	if err != nil {
		return def
	}
	return v
}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

var (
	outDir    = os.Getenv("VERIF_OUT")
	shard     = envInt("VERIF_SHARD", 0)
	shards    = envInt("VERIF_SHARDS", 1)
	processT0 = time.Now()
)

func outPath(kind, part string) string {
	return filepath.Join(outDir, fmt.Sprintf("%s-%s-%d.json", kind, part, shard))
}

func writeJSON(path string, v any) {
	if outDir == "" {
		return
	}
	data, err := json.Marshal(v)
	if err != nil {
		Abort("encoding %s: %v", path, err)
	}
	if err := os.WriteFile(path, data, 0o644); err != nil {
		Abort("writing %s: %v", path, err)
	}
}

func deriveSeed(part string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%d/%s", envInt("VERIF_SEED", 1), shard, part)
	s := h.Sum64() &^ (1 << 63)
	if s == 0 {
		s = 1
	}
	return s
}

type watchdog struct {
	started atomic.Int64 // tick at which the running case started; -1 idle
	onHang  atomic.Pointer[func(stacks string)]
}

var tick atomic.Int64

func (w *watchdog) run(limit int64) {
	go func() {
		for {
			time.Sleep(10 * time.Millisecond)
			now := tick.Add(1)
			s := w.started.Load()
			if s >= 0 && now-s > limit {
				buf := make([]byte, 1<<22)
				buf = buf[:runtime.Stack(buf, true)]
				(*w.onHang.Load())(string(buf))
			}
		}
	}()
}

// Check draws plans and runs them.
func Check[P any](t *testing.T, s Spec[P]) {
	t.Helper()
	part := t.Name()
	runSafe := func(c *Case, p P) (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		return s.Run(c, p)
	}
	limit := s.HangTicks
	if limit == 0 {
		limit = 3000
	}
	wd := &watchdog{}
	wd.started.Store(-1)
	var current []byte
	onHang := func(stacks string) {
		msg := fmt.Sprintf("case did not finish within %d ticks (deadlock or endless loop); goroutines:\n%s", limit, stacks)
		if len(msg) > 60000 {
			msg = msg[:60000]
		}
		writeJSON(outPath("fail", part), Replay{s.ID, part, msg, current})
		fmt.Fprintf(os.Stdout, "HANG %s\n%s\n", part, msg)
		os.Exit(67)
	}
	wd.onHang.Store(&onHang)
	wd.run(limit)

	if path := os.Getenv("VERIF_REPLAY"); path != "" {
		data, err := os.ReadFile(path)
		if err != nil {
			Abort("replay: %v", err)
		}
		var r Replay
		if err := json.Unmarshal(data, &r); err != nil {
			Abort("replay: %v", err)
		}
		if r.Part != part {
			t.Skipf("replay is for %s", r.Part)
		}
		var p P
		if err := json.Unmarshal(r.Plan, &p); err != nil {
			Abort("replay plan: %v", err)
		}
		current = r.Plan
		n := envInt("VERIF_REPLAY_TIMES", 1)
		for i := 0; i < n; i++ {
			wd.started.Store(tick.Load())
			if err := runSafe(&Case{}, p); err != nil {
				writeJSON(outPath("fail", part), Replay{s.ID, part, err.Error(), r.Plan})
				t.Fatalf("REPLAY-FAIL: %v", err)
			}
		}
		return
	}

	n := s.Quick
	if Thorough() {
		n = s.Thorough
		if n == 0 {
			n = 20 * s.Quick
		}
	}
	if v := envInt("VERIF_CASES", 0); v > 0 {
		n = v
	}
	n = (n + shards - 1) / shards
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(deriveSeed(part), 10))
	flag.Set("rapid.nofailfile", "true")
	if os.Getenv("VERIF_SHRINK") != "" {
		flag.Set("rapid.shrinktime", os.Getenv("VERIF_SHRINK"))
	} else {
		flag.Set("rapid.shrinktime", "10s")
	}
	budget := time.Duration(envInt("VERIF_BUDGET", 0)) * time.Second

	st := stats{Property: s.ID, Part: part, Rule: s.Rule, Classes: map[string]int{}}
	hashes := map[string]bool{}
	failed := false
	var failedPlan string
	var failedErr error
	var failedAt time.Time
	defer func() {
		st.Status = "ok"
		if failed {
			st.Status = "failed"
		}
		for h := range hashes {
			st.Hashes = append(st.Hashes, h)
		}
		sort.Strings(st.Hashes)
		writeJSON(outPath("stats", part), st)
	}()
	t0 := time.Now()
	rapid.Check(t, func(rt *rapid.T) {
		if !failed && budget > 0 && time.Since(t0) > budget {
			st.Skipped++
			return
		}
		p := s.Gen(rt)
		plan, err := json.Marshal(p)
		if err != nil {
			Abort("encoding plan: %v", err)
		}
		current = plan
		if s.Trace {
			writeJSON(outPath("current", part), Replay{s.ID, part, "process ended abnormally while running this plan", plan})
		}
		c := &Case{}
		wd.started.Store(tick.Load())
		if failed && (s.NoShrink || time.Since(failedAt) > 20*time.Second) { // no further runs
			if string(plan) == failedPlan {
				err = failedErr
			}
		} else {
			err = runSafe(c, p)
		}
		wd.started.Store(-1)
		if !failed {
			st.Evaluations++
			for k := range c.classes {
				st.Classes[k]++
			}
			if c.nontrivial {
				st.Nontrivial++
				h := fnv.New64a()
				h.Write(plan)
				key := strconv.FormatUint(h.Sum64(), 36)
				if !hashes[key] && len(hashes) < 400000 {
					hashes[key] = true
				}
				if len(st.Samples) < 3 && len(plan) < 6000 {
					st.Samples = append(st.Samples, json.RawMessage(plan))
				}
			}
		}
		if err != nil {
			if !failed {
				failedAt = time.Now()
			}
			failedPlan, failedErr = string(plan), err
			failed = true
			writeJSON(outPath("fail", part), Replay{s.ID, part, err.Error(), plan})
			rt.Fatalf("%v", err)
		}
	})
}

// Bubble runs f in a synctest bubble (virtual time) and reports goroutines
// left behind, or a deadlock in virtual time, as an error.
func Bubble(t *testing.T, f func() error) (err error) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		var inner error
		finished := false
		defer func() {
			if r := recover(); r != nil {
				stacks := ""
				if inner == nil || finished {
					buf := make([]byte, 1<<20)
					stacks = string(buf[:runtime.Stack(buf, true)])
				}
				if inner != nil {
					err = fmt.Errorf("%w (and then: %v)", inner, r)
					return
				}
				if len(stacks) > 20000 {
					stacks = stacks[:20000]
				}
				err = fmt.Errorf("%v\n%s", r, stacks)
			}
		}()
		synctest.Test(t, func(*testing.T) {
			defer func() {
				if r := recover(); r != nil {
					inner = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			inner = f()
			finished = true
		})
		err = inner
	}()
	<-done
	return err
}
