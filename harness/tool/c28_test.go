package tool

import (
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"pgregory.net/rapid"

	"vanflowverif/rec"
	"vanflowverif/vt"
)

// TSrc is an event source.
type TSrc struct {
	ID      string `json:"id"`
	Type    string `json:"type"`
	Version uint32 `json:"version"`
	Addr    string `json:"addr"`
	Direct  string `json:"direct"`
	Silent  bool   `json:"silent,omitempty"` // sends nothing before it is asked
	// Rejects is how many of the first messages to it the router rejects.
	Rejects int `json:"rejects,omitempty"`
}

// TMsg is a record message of a source.
type TMsg struct {
	Src  int       `json:"src"`
	Chan int       `json:"chan,omitempty"` // 0: the source's address, 1: flows, 2: logs
	Recs []rec.Rec `json:"recs"`
	Drop bool      `json:"drop,omitempty"` // all connections are lost before it
	// Many is how many more records like the last one, each with an identity
	// of its own, come with the message.
	Many int `json:"many,omitempty"`
}

// like gives recs, and n more records like the last of them.
func like(recs []rec.Rec, n int) []rec.Rec {
	if n == 0 || len(recs) == 0 {
		return recs
	}
	out := append([]rec.Rec(nil), recs...)
	r := recs[len(recs)-1]
	for i := 0; i < n; i++ {
		x := r.Normal()
		x.ID = vt.S(fmt.Sprintf("%s+%d", r.ID, i))
		out = append(out, x)
	}
	return out
}

// TExtra is an entry added to a capture before it is posted.
type TExtra struct {
	Kind string   `json:"kind"` // see extraKinds
	At   int      `json:"at"`
	Src  int      `json:"src"`
	Rec  *rec.Rec `json:"rec,omitempty"`
	Raw  string   `json:"raw,omitempty"`
}

// TPost is a request to the fixture tool.
type TPost struct {
	Keep  []bool   `json:"keep"` // sources whose entries are posted
	Extra []TExtra `json:"extra,omitempty"`
	Bad   string   `json:"bad,omitempty"` // a malformed request instead
}

// C28Plan is a plan of C28.
type C28Plan struct {
	Flows    bool    `json:"flows"`
	Logs     bool    `json:"logs"`
	Config   bool    `json:"config"` // server address from a connect.json
	Sources  []TSrc  `json:"sources"`
	Msgs     []TMsg  `json:"msgs"`
	FixFlows bool    `json:"fix_flows"`
	FixLogs  bool    `json:"fix_logs"`
	Posts    []TPost `json:"posts"`
	Collect  bool    `json:"collect"` // a collector watches the fixture
}

var badBodies = []string{"", "{", "nonsense", `{"data": 5}`, `{"data": {}}`, `{"data": [5]}`, `[]`, `{"data": [{"Meta": "x"}]}`, `{"data":[{"Meta":{"Source":{"Name":5}}}]}`}

// suffix keeps the identities of the sources' records apart.
func ownID(i int, id string) string { return fmt.Sprintf("%d:%s", i, id) }

func genSource(t *rapid.T, i int) TSrc {
	s := TSrc{
		ID:      fmt.Sprintf("%s%d", rapid.SampledFrom([]string{"r", "router:", "ü", "a b", "x/y", "s.", "skupper-router-7c9-"}).Draw(t, "name"), i),
		Type:    rapid.SampledFrom([]string{"ROUTER", "ROUTER", "CONTROLLER", "OTHER", ""}).Draw(t, "type"),
		Version: rapid.SampledFrom([]uint32{1, 1, 0, 2, 4000000000}).Draw(t, "version"),
		Silent:  rapid.IntRange(0, 7).Draw(t, "silent") == 0,
	}
	if rapid.IntRange(0, 7).Draw(t, "rejecting") == 5 {
		s.Rejects = rapid.IntRange(1, 2).Draw(t, "rejects")
	}
	s.Addr, s.Direct = "mc/sfe."+s.ID, "sfe."+s.ID
	if rapid.IntRange(0, 3).Draw(t, "custom") == 0 {
		s.Addr, s.Direct = fmt.Sprintf("mc/custom/%d", i), fmt.Sprintf("custom/%d", i)
	}
	return s
}

func genRecs(t *rapid.T, i, max int) []rec.Rec {
	ids := []string{ownID(i, "a"), ownID(i, "b"), ownID(i, "c/d"), ownID(i, "ü e")}
	n := rapid.IntRange(1, max).Draw(t, "n")
	var out []rec.Rec
	for j := 0; j < n; j++ {
		o := rec.Opts{Types: rec.RecordCodes, IDs: ids}
		r := rec.Gen(o).Draw(t, "rec").Normal()
		// mostly times that JSON can represent
		for k, v := range r.A {
			if v.T != nil && *v.T > 250000000000000000 && rapid.IntRange(0, 9).Draw(t, "late") > 0 {
				r.A[k] = rec.VT(*v.T % 4000000000000000)
			}
			if v.S != nil {
				// JSON replaces nothing in valid UTF-8
				r.A[k] = rec.VS(strings.ToValidUTF8(string(*v.S), "?"))
			}
		}
		out = append(out, r)
	}
	return out
}

var extraKinds = []string{"unknown_type", "no_type", "wrong_version", "bad_attr", "record_string", "record_array", "record_null", "no_record", "no_id", "bad_time", "other_ref", "duplicate_elsewhere", "new"}

func genC28(t *rapid.T) C28Plan { return genC28Plan(t, false) }

func genC28Plan(t *rapid.T, big bool) C28Plan {
	p := C28Plan{
		Flows: rapid.IntRange(0, 3).Draw(t, "flows") > 0, Logs: rapid.IntRange(0, 3).Draw(t, "logs") > 0,
		FixFlows: rapid.IntRange(0, 3).Draw(t, "fflows") > 0, FixLogs: rapid.IntRange(0, 3).Draw(t, "flogs") > 0,
		Config: rapid.IntRange(0, 3).Draw(t, "config") == 0, Collect: rapid.IntRange(0, 2).Draw(t, "collect") == 0,
	}
	n := rapid.IntRange(1, 4).Draw(t, "sources")
	mass, posts := false, rapid.IntRange(1, 3).Draw(t, "posts")
	if big {
		if rapid.IntRange(0, 3).Draw(t, "crowd") > 0 {
			n = rapid.IntRange(9, 24).Draw(t, "crowded")
		}
		mass = rapid.IntRange(0, 2).Draw(t, "mass") > 0
		posts = rapid.SampledFrom([]int{1, 2, 5, 9}).Draw(t, "reposts")
	}
	for i := 0; i < n; i++ {
		p.Sources = append(p.Sources, genSource(t, i))
	}
	for i, k := 0, rapid.IntRange(1, 12).Draw(t, "msgs"); i < k; i++ {
		m := TMsg{Src: rapid.IntRange(0, n-1).Draw(t, "src"), Chan: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "chan")}
		m.Drop = rapid.IntRange(0, 24).Draw(t, "drop") == 0
		max := 6
		if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
			max = 40
		}
		m.Recs = genRecs(t, m.Src, max)
		if mass && rapid.IntRange(0, 2).Draw(t, "masses") == 0 {
			m.Many = rapid.SampledFrom([]int{101, 500, 1500, 3000}).Draw(t, "like")
		}
		p.Msgs = append(p.Msgs, m)
	}
	for i := 0; i < posts; i++ {
		var post TPost
		if rapid.IntRange(0, 5).Draw(t, "bad") == 0 {
			post.Bad = rapid.SampledFrom(badBodies).Draw(t, "body")
			p.Posts = append(p.Posts, post)
			continue
		}
		for range p.Sources {
			post.Keep = append(post.Keep, rapid.IntRange(0, 3).Draw(t, "keep") > 0)
		}
		for j, e := 0, rapid.IntRange(0, 4).Draw(t, "extras"); j < e; j++ {
			x := TExtra{Kind: rapid.SampledFrom(extraKinds).Draw(t, "kind"), At: rapid.IntRange(0, 1000).Draw(t, "at"), Src: rapid.IntRange(0, n-1).Draw(t, "src")}
			r := genRecs(t, x.Src, 1)[0]
			r.ID = vt.S(fmt.Sprintf("extra%d/%d", i, j))
			for k, v := range r.A {
				if v.T != nil && *v.T > 250000000000000000 {
					delete(r.A, k)
				}
			}
			x.Rec = &r
			post.Extra = append(post.Extra, x)
		}
		p.Posts = append(p.Posts, post)
	}
	return p
}

func beyondJSON(r rec.Rec) bool {
	for _, v := range r.A {
		if v.T != nil && *v.T >= 253402300800000000-86400000000 { // near the year 10000, whatever the zone
			return true
		}
	}
	return false
}

func runC28(c *vt.Case, p C28Plan) error {
	defer exclusive()()
	msgs := make([]TMsg, len(p.Msgs))
	for i, m := range p.Msgs {
		m.Recs = like(m.Recs, m.Many)
		msgs[i] = m
	}
	p.Msgs = msgs
	capture, want, err := collect(c, p)
	if errors.Is(err, errSlow) {
		return nil
	}
	if err != nil {
		return err
	}
	c.ClassIf(len(capture) > 1<<20, "capture over 1 MB")
	c.ClassIf(len(p.Sources) > 8, "many sources")
	if err := replay(c, p, capture, want); err != nil {
		return fmt.Errorf("fixture: %w", err)
	}
	return nil
}

// server gives the flags that tell the tool where its router is.
func server(b *broker, config bool) (args []string, cleanup func()) {
	if !config {
		return []string{"-server=" + b.URL()}, func() {}
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "connect")
	if err != nil {
		vt.Abort("%v", err)
	}
	host, _, _ := net.SplitHostPort(b.Addr())
	path := filepath.Join(dir, "connect.json")
	body := jsonOf(map[string]any{"scheme": "amqp", "host": host, "port": fmt.Sprint(b.Port())})
	if err := os.WriteFile(path, body, 0o600); err != nil {
		vt.Abort("%v", err)
	}
	return []string{"-messaging-config=" + path}, func() { os.RemoveAll(dir) }
}

// lastHeard is when sources were last heard from. The tool forgets those that
// were not for 30 seconds.
type lastHeard []time.Time

// errSlow: the machine was so slow that sources may have been forgotten.
var errSlow = errors.New("slow machine")

func newHeard(n int) lastHeard {
	h := make(lastHeard, n)
	for i := range h {
		h.now(i)
	}
	return h
}

func (h lastHeard) now(i int)        { h[i] = time.Now() }
func (h lastHeard) quiet(i int) bool { return time.Since(h[i]) > 8*time.Second }

// excuse is err, unless sources may have been forgotten in the meantime.
func (h lastHeard) excuse(c *vt.Case, err error) error {
	for i := range h {
		if time.Since(h[i]) > 29*time.Second {
			c.Class("slow machine")
			return errSlow
		}
	}
	return err
}

func addrs(s TSrc) []string { return []string{s.Addr, s.Addr + ".flows", s.Addr + ".logs"} }

// collect runs the collector against simulated sources, and checks what it
// serves. It returns the capture.
func collect(c *vt.Case, p C28Plan) (capture []byte, want map[key]entry, err error) {
	b := newBroker()
	defer b.Close()
	for _, s := range p.Sources {
		b.rejects[s.Direct] = s.Rejects
		c.ClassIf(s.Rejects > 0, "flush rejected")
	}
	where, cleanup := server(b, p.Config)
	defer cleanup()
	tool, err := start(9090, append(append(flags(p.Flows, p.Logs), where...), "serve")...)
	if err != nil {
		return nil, nil, err
	}
	defer tool.stop()
	ps := []*proc{tool}
	if err := until(30, ps, func() error {
		if !b.receiving("mc/sfe.all") {
			return fmt.Errorf("the collector does not listen for beacons")
		}
		return nil
	}); err != nil {
		return nil, nil, err
	}
	announced := time.Now()
	heard := newHeard(len(p.Sources))
	for _, s := range p.Sources {
		bm := vanflow.BeaconMessage{Version: s.Version, SourceType: s.Type, Address: s.Addr, Direct: s.Direct, Identity: s.ID}
		if _, err := b.deliver("mc/sfe.all", wire(bm.Encode()), ps); err != nil {
			return nil, nil, err
		}
	}
	listening := func(s TSrc) error {
		for i, a := range addrs(s) {
			if (i == 0 || i == 1 && p.Flows || i == 2 && p.Logs) && !b.receiving(a) {
				return fmt.Errorf("the collector does not listen to %q of source %q", a, s.ID)
			}
		}
		return nil
	}
	for _, s := range p.Sources {
		if err := until(30, ps, func() error { return listening(s) }); err != nil {
			return nil, nil, err
		}
	}
	flushed := func(s TSrc) func() error {
		return func() error {
			ms, err := b.sentTo(0, s.Direct)
			if err != nil {
				return err
			}
			for _, m := range ms {
				if _, ok := m.(vanflow.FlushMessage); ok {
					return nil
				}
			}
			return fmt.Errorf("source %q was not asked for its records", s.ID)
		}
	}
	types := served(p.Flows, p.Logs)
	want = map[key]entry{}
	merges, excluded := 0, 0
	// nothing orders messages to different addresses, so that what is sent of
	// a record is sent to one
	sentAt := map[key]int{}
	for _, m := range p.Msgs {
		s := p.Sources[m.Src]
		if m.Chan == 0 || m.Chan == 1 && p.Flows || m.Chan == 2 && p.Logs {
			for _, r := range m.Recs {
				if ch, ok := sentAt[key{r.Type, r.ID}]; ok {
					m.Chan = ch
					break
				}
			}
			var recs []rec.Rec
			for _, r := range m.Recs {
				k := key{r.Type, r.ID}
				if _, ok := sentAt[k]; !ok {
					sentAt[k] = m.Chan
				}
				if sentAt[k] == m.Chan {
					recs = append(recs, r)
				}
			}
			m.Recs = recs
		}
		if m.Drop {
			c.Class("connections lost")
			b.Lock()
			old := len(b.Conns())
			b.Unlock()
			b.Drop()
			if err := until(20, ps, func() error {
				b.Lock()
				for _, x := range b.Conns()[:old] {
					if x.Open {
						b.Unlock()
						return fmt.Errorf("still connected")
					}
				}
				b.Unlock()
				for _, s := range p.Sources {
					if err := listening(s); err != nil {
						return err
					}
				}
				return nil
			}); err != nil {
				return nil, nil, heard.excuse(c, err)
			}
		}
		// every source is heard from all the time
		for i, s := range p.Sources {
			if !heard.quiet(i) {
				continue
			}
			c.Class("heartbeats to keep sources known")
			h := vanflow.HeartbeatMessage{Identity: s.ID, Version: 9, Now: 9}
			there, err := b.deliver(s.Addr, wire(h.Encode()), ps)
			if err == nil && !there {
				err = fmt.Errorf("the collector does not listen to source %q", s.ID)
			}
			if err != nil {
				return nil, nil, heard.excuse(c, err)
			}
			heard.now(i)
		}
		if s.Silent {
			if err := until(30, ps, flushed(s)); err != nil {
				return nil, nil, err
			}
			c.Class("source that waits to be asked")
		}
		there, err := b.deliver(addrs(s)[m.Chan], recordMsg(m.Recs), ps)
		if err != nil {
			return nil, nil, heard.excuse(c, err)
		}
		if !there {
			excluded++
			continue
		}
		heard.now(m.Src)
		for _, r := range m.Recs {
			if !types[r.Type] {
				excluded++
				continue
			}
			k := key{r.Type, r.ID}
			e, ok := want[k]
			if !ok {
				want[k] = entry{s.ID, r.Normal()}
				continue
			}
			merges++
			for name, v := range r.Normal().A {
				e.Rec.A[name] = v
			}
		}
	}
	expressible := map[key]entry{}
	for k, e := range want {
		if !beyondJSON(e.Rec) {
			expressible[k] = e
		}
	}
	c.ClassIf(len(expressible) < len(want), "records JSON cannot express")
	c.ClassIf(merges > 0, "updates")
	c.ClassIf(excluded > 0, "records not collected")
	var wrong error
	wrongs := 0
	check := func() error {
		code, body, err := tool.get("/")
		if err != nil || code != 200 {
			return fmt.Errorf("listing: status %d, %v", code, err)
		}
		_, got, err := parseListing(body)
		if err != nil {
			return err
		}
		got = without(got, want, expressible)
		if err := compare("listing", expressible, got); err != nil {
			return err
		}
		capture = body
		for code := range types {
			if !types[code] {
				continue
			}
			path := "/" + rec.TypeOf(code).Meta().String() + "/"
			status, body, err := tool.get(path)
			if err != nil || status != 200 {
				return fmt.Errorf("listing %s: status %d, %v", path, status, err)
			}
			_, got, err := parseListing(body)
			if err != nil {
				return fmt.Errorf("%s: %w", path, err)
			}
			sub := map[key]entry{}
			for k, e := range expressible {
				if k.Type == code {
					sub[k] = e
				}
			}
			if err := compare("listing "+path, sub, without(got, want, expressible)); err != nil {
				return err
			}
		}
		if wrong != nil && wrongs >= 20 {
			return wrong // it is not for the time it took
		}
		if time.Since(announced) > 20*time.Second {
			c.Class("sources may be forgotten") // slow machine
			return nil
		}
		status, body, err := tool.get("/sources/")
		if err != nil || status != 200 {
			return fmt.Errorf("listing of sources: status %d, %v", status, err)
		}
		js, _, err := parseListing(body)
		if err != nil {
			return fmt.Errorf("sources: %w", err)
		}
		var have, should []string
		for _, j := range js {
			have = append(have, fmt.Sprintf("%q %q %q", j.Meta.Source.Name, j.Meta.Source.Type, j.Meta.Source.APIVersion))
		}
		for _, s := range p.Sources {
			should = append(should, fmt.Sprintf("%q %q \"%d\"", s.ID, s.Type, s.Version))
		}
		sort.Strings(have)
		sort.Strings(should)
		if strings.Join(have, "\n") != strings.Join(should, "\n") {
			wrong = fmt.Errorf("sources: got %v, want %v", have, should)
			wrongs++
			return wrong
		}
		return nil
	}
	if err := until(20, ps, check); err != nil {
		return nil, nil, err
	}
	for _, s := range p.Sources {
		if err := until(30, ps, flushed(s)); err != nil {
			return nil, nil, err
		}
	}
	if len(expressible) > 0 && len(p.Sources) > 1 {
		c.NonTrivial()
	}
	// the source references in the capture
	js, _, err := parseListing(capture)
	if err != nil {
		return nil, nil, err
	}
	byID := map[string]TSrc{}
	for _, s := range p.Sources {
		byID[s.ID] = s
	}
	for _, j := range js {
		s := byID[j.Meta.Source.Name]
		if j.Meta.Source.Type != s.Type || j.Meta.Source.APIVersion != fmt.Sprint(s.Version) {
			return nil, nil, fmt.Errorf("capture: source of an entry is %+v, want %+v", j.Meta.Source, s)
		}
	}
	if err := tool.health("after collecting"); err != nil {
		return nil, nil, err
	}
	return capture, expressible, tool.interrupt()
}

// without drops what may or may not be expressible.
func without(got []entry, all, expressible map[key]entry) (out []entry) {
	for _, g := range got {
		k := key{g.Rec.Type, g.Rec.ID}
		if _, ok := all[k]; ok {
			if _, ok := expressible[k]; !ok {
				continue
			}
		}
		out = append(out, g)
	}
	return
}

// tracked is a source the fixture impersonates.
type tracked struct {
	Type string // "" when several are possible
	Recs map[key]entry
}

func entryBody(src map[string]any, meta any, record any) json.RawMessage {
	return jsonOf(map[string]any{"Meta": map[string]any{"Source": src}, "TypeMeta": meta, "Record": record})
}

// extraEntry makes the entry to add to the post, and what should be made of it.
func extraEntry(p C28Plan, x TExtra, first *entryJSON) (raw json.RawMessage, good *entry, typ string) {
	s := p.Sources[x.Src]
	ref := map[string]any{"APIVersion": fmt.Sprint(s.Version), "Type": s.Type, "Name": s.ID}
	t := rec.TypeOf(x.Rec.Type)
	meta := any(t.Meta())
	var record any = x.Rec.Build()
	switch x.Kind {
	case "unknown_type":
		meta = vanflow.TypeMeta{APIVersion: "flow/v1", Type: "NoSuchRecord"}
	case "no_type":
		meta = map[string]any{}
	case "wrong_version":
		meta = vanflow.TypeMeta{APIVersion: "flow/v2", Type: t.Name}
	case "bad_attr":
		record = map[string]any{"ID": string(x.Rec.ID), "StartTime": 5}
	case "bad_time":
		record = map[string]any{"ID": string(x.Rec.ID), "EndTime": "yesterday"}
	case "record_string":
		record = "record"
	case "record_array":
		record = []int{1}
	case "record_null":
		record = nil
	case "no_id":
		record = map[string]any{"StartTime": "2024-01-01T00:00:00Z"}
	case "no_record":
		return jsonOf(map[string]any{"Meta": map[string]any{"Source": ref}, "TypeMeta": meta}), nil, ""
	case "other_ref":
		// the same source, captured at another time
		ref["Type"], ref["APIVersion"] = s.Type+"X", "7"
		return entryBody(ref, meta, record), &entry{s.ID, x.Rec.Normal()}, "*"
	case "duplicate_elsewhere":
		// a record of the same identity at a source of its own
		name := fmt.Sprintf("extra-source-%d", x.At%3)
		ref["Name"] = name
		if first == nil {
			return entryBody(ref, meta, record), &entry{name, x.Rec.Normal()}, s.Type
		}
		return entryBody(ref, first.TypeMeta, first.Record), &entry{name, rec.Rec{}}, s.Type
	case "new":
		return entryBody(ref, meta, record), &entry{s.ID, x.Rec.Normal()}, s.Type
	}
	return entryBody(ref, meta, record), nil, ""
}

// replay posts captures to the fixture tool and checks whom it impersonates.
func replay(c *vt.Case, p C28Plan, capture []byte, want map[key]entry) error {
	b := newBroker()
	defer b.Close()
	where, cleanup := server(b, p.Config)
	defer cleanup()
	tool, err := start(9080, append(append(flags(p.FixFlows, p.FixLogs), where...), "fixture")...)
	if err != nil {
		return err
	}
	defer tool.stop()
	ps := []*proc{tool}
	var collector *proc
	if p.Collect {
		if collector, err = start(9090, append(append(flags(true, true), where...), "serve")...); err != nil {
			return err
		}
		defer collector.stop()
		ps = append(ps, collector)
		if err := until(30, ps, func() error {
			if !b.receiving("mc/sfe.all") {
				return fmt.Errorf("the collector does not listen for beacons")
			}
			return nil
		}); err != nil {
			return err
		}
	}
	types := served(p.FixFlows, p.FixLogs)
	var l listing
	if err := json.Unmarshal(capture, &l); err != nil {
		return err
	}
	current := map[string]*tracked{}
	everCollected := map[key]map[string]bool{} // by source
	collectable := p.Collect
	for _, post := range p.Posts {
		if post.Bad != "" || post.Keep == nil {
			code, _, err := tool.post("/", []byte(post.Bad))
			if err != nil {
				if h := tool.health("after a malformed request"); h != nil {
					return h
				}
				return fmt.Errorf("malformed request %q: %v", post.Bad, err)
			}
			if code < 400 {
				return fmt.Errorf("malformed request %q was answered with status %d", post.Bad, code)
			}
			c.Class("malformed request")
		} else {
			next := map[string]*tracked{}
			add := func(e entry, typ string) {
				if !types[e.Rec.Type] {
					return
				}
				s := next[e.Source]
				if s == nil {
					s = &tracked{Type: typ, Recs: map[key]entry{}}
					next[e.Source] = s
				}
				if s.Type != typ {
					s.Type = "*"
				}
				s.Recs[key{e.Rec.Type, e.Rec.ID}] = e
			}
			keep := map[string]bool{}
			for i, s := range p.Sources {
				keep[s.ID] = i < len(post.Keep) && post.Keep[i]
			}
			var data []json.RawMessage
			var first *entryJSON
			for _, raw := range l.Data {
				j, e, err := parseEntry(raw)
				if err != nil {
					return err
				}
				if _, ok := want[key{e.Rec.Type, e.Rec.ID}]; !ok || !keep[e.Source] {
					continue
				}
				if first == nil {
					first = &j
				}
				data = append(data, raw)
				add(e, j.Meta.Source.Type)
			}
			dup := map[string]bool{}
			for _, x := range post.Extra {
				raw, good, typ := extraEntry(p, x, first)
				if good != nil && good.Rec.ID == "" { // a copy
					_, e, err := parseEntry(raw)
					if err != nil {
						return err
					}
					if dup[good.Source] {
						continue
					}
					dup[good.Source] = true
					good = &entry{good.Source, e.Rec}
				}
				at := x.At % (len(data) + 1)
				data = append(data[:at:at], append([]json.RawMessage{raw}, data[at:]...)...)
				if good != nil {
					add(*good, typ)
				} else {
					c.Class("entry left out: " + x.Kind)
				}
			}
			body := jsonOf(map[string]any{"data": data})
			code, reply, err := tool.post("/", body)
			if err != nil {
				if h := tool.health("after a post"); h != nil {
					return h
				}
				return fmt.Errorf("post: %v", err)
			}
			if code != 200 {
				return fmt.Errorf("post answered with status %d: %.300s", code, reply)
			}
			c.ClassIf(len(current) > 0, "replaced a capture")
			for name, s := range next {
				for k := range s.Recs {
					if everCollected[k] == nil {
						everCollected[k] = map[string]bool{}
					}
					everCollected[k][name] = true
				}
				if old := current[name]; old != nil {
					collectable = false // attributes may have changed
				}
			}
			c.ClassIf(len(next) == 0, "empty capture")
			if err := impersonates(b, tool, ps, next, current); err != nil {
				return err
			}
			current = next
		}
		// the requests left the tool as it was
		if err := answersFlushes(b, ps, current); err != nil {
			return err
		}
	}
	for _, sources := range everCollected {
		if len(sources) > 1 {
			collectable = false
		}
	}
	if collectable && len(p.Posts) == 1 && len(current) > 0 {
		c.Class("fixture collected again")
		final := map[key]entry{}
		for name, s := range current {
			for k, e := range s.Recs {
				final[k] = entry{name, e.Rec}
			}
		}
		if err := until(40, ps, func() error {
			code, body, err := collector.get("/")
			if err != nil || code != 200 {
				return fmt.Errorf("listing: status %d, %v", code, err)
			}
			_, got, err := parseListing(body)
			if err != nil {
				return err
			}
			return compare("capture of the fixture", final, got)
		}); err != nil {
			return err
		}
	}
	for _, q := range ps {
		if err := q.health("at the end"); err != nil {
			return err
		}
		if err := q.interrupt(); err != nil {
			return err
		}
	}
	return nil
}

// impersonates waits until the fixture announces the sources, and only them.
func impersonates(b *broker, tool *proc, ps []*proc, now, before map[string]*tracked) error {
	var names []string
	for n := range now {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		n, s := n, now[n]
		if err := until(40, ps, func() error {
			if !b.receiving("sfe." + n) {
				return fmt.Errorf("source %q does not take requests", n)
			}
			ms, err := b.sentTo(0, "mc/sfe.all")
			if err != nil {
				return err
			}
			for i := len(ms) - 1; i >= 0; i-- {
				bm, ok := ms[i].(vanflow.BeaconMessage)
				if !ok || bm.Identity != n {
					continue
				}
				if (bm.SourceType != s.Type && s.Type != "*") || bm.Address != "mc/sfe."+n || bm.Direct != "sfe."+n {
					return fmt.Errorf("source %q of type %q announces itself as %+v", n, s.Type, bm)
				}
				return nil
			}
			return fmt.Errorf("source %q is not announced", n)
		}); err != nil {
			return err
		}
	}
	for n := range before {
		if now[n] != nil {
			continue
		}
		if err := until(40, ps, func() error {
			if b.receiving("sfe." + n) {
				return fmt.Errorf("source %q, which is not in the capture any more, still takes requests", n)
			}
			return nil
		}); err != nil {
			return err
		}
	}
	all, err := b.sentTo(0, "mc/sfe.all")
	if err != nil {
		return err
	}
	for _, m := range all {
		bm, ok := m.(vanflow.BeaconMessage)
		if ok && now[bm.Identity] == nil && before[bm.Identity] == nil && !formerly(b, bm.Identity) {
			return fmt.Errorf("source %q is announced but not in the capture", bm.Identity)
		}
	}
	for n := range now {
		remember(b, n)
	}
	return nil
}

var past = map[*broker]map[string]bool{}

func formerly(b *broker, n string) bool { return past[b][n] }
func remember(b *broker, n string) {
	if past[b] == nil {
		past[b] = map[string]bool{}
	}
	past[b][n] = true
}

// answersFlushes asks every source for its records and compares the answers
// with the capture.
func answersFlushes(b *broker, ps []*proc, now map[string]*tracked) error {
	pending := map[string]*tracked{}
	for n, s := range now {
		pending[n] = s
	}
	// the collector may ask at the same time, and the source of a previous
	// capture may still take the request: try again
	for attempt := 0; ; attempt++ {
		mark := b.mark()
		for n := range pending {
			if _, err := b.deliver("sfe."+n, wire(vanflow.FlushMessage{}.Encode()), ps); err != nil {
				return err
			}
		}
		answer := func(n string) ([]entry, error) {
			a := "mc/sfe." + n
			ms, err := b.sentTo(mark, a, a+".flows", a+".logs")
			if err != nil {
				return nil, err
			}
			var got []entry
			for _, m := range ms {
				rm, ok := m.(vanflow.RecordMessage)
				if !ok {
					continue
				}
				for _, x := range rm.Records {
					r, err := rec.From(x)
					if err != nil {
						return nil, err
					}
					got = append(got, entry{n, r})
				}
			}
			return got, nil
		}
		check := func(n string) error {
			got, err := answer(n)
			if err != nil {
				return err
			}
			w := map[key]entry{}
			for k, e := range pending[n].Recs {
				w[k] = entry{n, e.Rec}
			}
			return compare("answer of source "+n, w, got)
		}
		// until all are complete, or one is beyond repair
		var last error
		// what an earlier request had disturbed does not arrive late
		left := patience(4)
		if attempt == 3 {
			left = patience(20)
		}
		for {
			last = nil
			for n := range pending {
				if err := check(n); err != nil {
					last = err
				}
			}
			for _, p := range ps {
				if err := p.health("while flushing"); err != nil {
					return err
				}
			}
			if last == nil || left() || (!strings.Contains(last.Error(), "missing") && attempt < 3) {
				break
			}
			sleepMS(15)
		}
		if last == nil {
			sleepMS(200) // anything else would come now
			for n := range pending {
				if err := check(n); err == nil {
					delete(pending, n)
				} else {
					last = err
				}
			}
		}
		if last == nil {
			return nil
		}
		if attempt == 3 {
			return last
		}
		sleepMS(1000)
	}
}

func TestC28(t *testing.T) {
	vt.Check(t, vt.Spec[C28Plan]{
		ID:   "C28",
		Rule: "1-4 simulated sources send 1-12 record messages to a running collector (with connection losses, uncollected types, sources that wait for a flush); what it serves is compared with a merge model, then posted to a running fixture tool, whole and in part and with further and malformed entries, whose beacons and answers to flushes are compared with the post, sometimes also through a second collector; non-trivial: records of at least two sources",
		Gen:  genC28, Run: runC28, Quick: 60, Thorough: 1200, NoShrink: true, HangTicks: 60000, Trace: true,
	})
}

func TestC28_big(t *testing.T) {
	vt.Check(t, vt.Spec[C28Plan]{
		ID:   "C28",
		Rule: "as TestC28 with up to 24 sources, messages of up to 3000 records, captures of over a megabyte, and up to nine posts; non-trivial: records of at least two sources",
		Gen:  func(t *rapid.T) C28Plan { return genC28Plan(t, true) }, Run: runC28, Quick: 24, Thorough: 400, NoShrink: true, HangTicks: 90000, Trace: true,
	})
}
