package tool

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"sort"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"pgregory.net/rapid"

	"vanflowverif/rec"
	"vanflowverif/vt"
)

// FFlow is a captured flow.
type FFlow struct {
	Src     int    `json:"src"`
	Counter string `json:"counter"` // "": none; a number: that flow; else an identity that was not captured
	Parent  string `json:"parent,omitempty"`
	Host    string `json:"host,omitempty"`
	Port    string `json:"port,omitempty"`
	Trace   string `json:"trace,omitempty"`
	Octets  uint64 `json:"octets,omitempty"`
	Latency uint64 `json:"latency,omitempty"`
	Ended   bool   `json:"ended,omitempty"`
}

// FOp is a request to the fixture tool.
type FOp struct {
	Kind     string  `json:"kind"` // flows, raw, get, stall, capture, flush
	N        int     `json:"n,omitempty"`
	Duration int     `json:"duration,omitempty"`
	Raw      string  `json:"raw,omitempty"`
	Flows    []FFlow `json:"flows,omitempty"` // of the new capture
}

// C29Plan is a plan of C29.
type C29Plan struct {
	Sources int     `json:"sources"`
	Flows   []FFlow `json:"flows"`
	Others  int     `json:"others"` // captured records that are not flows
	Early   bool    `json:"early"`  // do not wait for the capture to be in use
	Ops     []FOp   `json:"ops"`
}

var oddBodies = []string{"", "{", "x", "[]", "5", "null", "{}", `{"flows": "many"}`, `{"flows": 1.5}`, `{"flows": -1}`, `{"flows": -9223372036854775808, "duration": 1}`,
	`{"flows": 9223372036854775807, "duration": 1}`, `{"flows": 1000000000000}`, `{"flows": 2, "duration": -5}`, `{"flows": 1, "duration": 9223372036854775807}`, `{"flows": 0, "duration": 0}`, `{"duration": 3}`}

func genFlows(t *rapid.T, sources int) []FFlow {
	n := rapid.SampledFrom([]int{0, 1, 2, 2, 3, 4, 5, 7}).Draw(t, "flows")
	if sources > 3 {
		n = rapid.IntRange(12, 130).Draw(t, "lot")
	}
	var out []FFlow
	str := rec.GenString(rec.Opts{Small: true})
	for i := 0; i < n; i++ {
		f := FFlow{Src: rapid.IntRange(0, sources-1).Draw(t, "src"), Ended: rapid.Bool().Draw(t, "ended")}
		switch k := rapid.IntRange(0, 9).Draw(t, "counter"); {
		case k < 7 && n > 1:
			f.Counter = fmt.Sprint(rapid.IntRange(0, n-1).Draw(t, "which"))
		case k == 7:
			f.Counter = "not captured"
		}
		f.Parent, f.Host, f.Port, f.Trace = str.Draw(t, "parent"), str.Draw(t, "host"), str.Draw(t, "port"), str.Draw(t, "trace")
		if rapid.Bool().Draw(t, "numbers") {
			f.Octets = rapid.SampledFrom([]uint64{1, 3, 1000, 1 << 40, 1<<64 - 1}).Draw(t, "octets")
			f.Latency = rapid.SampledFrom([]uint64{1, 3, 1000, 1<<64 - 1}).Draw(t, "latency")
		}
		out = append(out, f)
	}
	return out
}

func genC29(t *rapid.T) C29Plan {
	p := C29Plan{Sources: rapid.IntRange(1, 3).Draw(t, "sources"), Others: rapid.IntRange(0, 3).Draw(t, "others"), Early: rapid.IntRange(0, 5).Draw(t, "early") == 0}
	p.Flows = genFlows(t, p.Sources)
	n := rapid.IntRange(1, 5).Draw(t, "ops")
	if rapid.IntRange(0, 24).Draw(t, "long") == 13 {
		n = rapid.IntRange(10, 40).Draw(t, "longer")
	}
	for i := 0; i < n; i++ {
		op := FOp{Kind: rapid.SampledFrom([]string{"flows", "flows", "flows", "flows", "raw", "raw", "get", "stall", "flush", "capture"}).Draw(t, "kind")}
		switch op.Kind {
		case "flows":
			op.N = rapid.SampledFrom([]int{0, 1, 2, 3, 9, 10, 11, 25, 60, 100, 400}).Draw(t, "n")
			op.Duration = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "duration")
		case "raw":
			op.Raw = rapid.SampledFrom(oddBodies).Draw(t, "raw")
		case "capture":
			op.Flows = genFlows(t, p.Sources)
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

// genC29Big has many sources, flows and new captures; the flows to be made are
// asked for at the end, and all have to be made.
func genC29Big(t *rapid.T) C29Plan {
	p := C29Plan{Sources: rapid.IntRange(8, 18).Draw(t, "sources"), Others: rapid.IntRange(0, 100).Draw(t, "others")}
	p.Flows = genFlows(t, p.Sources)
	for i, n := 0, rapid.IntRange(0, 7).Draw(t, "captures"); i < n; i++ {
		p.Ops = append(p.Ops, FOp{Kind: "capture", Flows: genFlows(t, p.Sources)})
	}
	for i, n := 0, rapid.IntRange(1, 14).Draw(t, "requests"); i < n; i++ {
		p.Ops = append(p.Ops, FOp{Kind: "flows", N: rapid.IntRange(1, 12).Draw(t, "n")})
	}
	return p
}

func flowID(gen, i int) string     { return fmt.Sprintf("flow-%d-%d", gen, i) }
func flowSource(gen, i int) string { return fmt.Sprintf("src%d-%d", gen, i) }

func pstr(s string) *string { return &s }

// flowRec is the i-th flow of a capture.
func flowRec(gen int, flows []FFlow, i int) rec.Rec {
	f := flows[i]
	r := rec.Rec{Type: 6, ID: vt.S(flowID(gen, i)), A: map[string]rec.Val{"StartTime": rec.VT(1700000000000000)}}
	// a marker, to tell the flows made from it
	r.A["Parent"] = rec.VS(fmt.Sprintf("parent-%d-%d%s", gen, i, f.Parent))
	if f.Host != "" {
		r.A["SourceHost"] = rec.VS(f.Host)
	}
	if f.Port != "" {
		r.A["SourcePort"] = rec.VS(f.Port)
	}
	if f.Trace != "" {
		r.A["Trace"] = rec.VS(f.Trace)
	}
	if f.Octets > 0 {
		r.A["Octets"], r.A["Latency"] = rec.VU(f.Octets), rec.VU(f.Latency)
	}
	if f.Ended {
		r.A["EndTime"] = rec.VT(1700000001000000)
	}
	if f.Counter != "" {
		c := "not-captured"
		if n := counterIndex(f); n >= 0 {
			c = flowID(gen, n)
		}
		r.A["Counterflow"] = rec.VS(c)
	}
	return r
}

func counterIndex(f FFlow) int {
	n := -1
	if _, err := fmt.Sscanf(f.Counter, "%d", &n); err != nil {
		return -1
	}
	return n
}

func runC29(c *vt.Case, p C29Plan) error {
	defer exclusive()()
	b := newBroker()
	defer b.Close()
	tool, err := start(9080, "-server="+b.URL(), "fixture")
	if err != nil {
		return err
	}
	defer tool.stop()
	ps := []*proc{tool}
	gone := func(what string, err error) error {
		if h := tool.health("after " + what); h != nil {
			return h
		}
		return fmt.Errorf("%s: %v", what, err)
	}

	gen := -1
	var flows []FFlow
	ready := false
	use := func(next []FFlow, early bool) error {
		gen++
		flows = next
		var data []json.RawMessage
		for i, f := range flows {
			src := map[string]any{"APIVersion": "1", "Type": "ROUTER", "Name": flowSource(gen, f.Src)}
			data = append(data, entryBody(src, rec.TypeOf(6).Meta(), flowRec(gen, flows, i).Build()))
		}
		for i := 0; i < p.Others; i++ {
			src := map[string]any{"APIVersion": "1", "Type": "ROUTER", "Name": flowSource(gen, i%p.Sources)}
			r := rec.Rec{Type: rec.RecordCodes[i%2], ID: vt.S(fmt.Sprintf("other-%d-%d", gen, i))}
			data = append(data, entryBody(src, rec.TypeOf(r.Type).Meta(), r.Build()))
		}
		code, reply, err := tool.post("/", jsonOf(map[string]any{"data": data}))
		if err != nil {
			return gone("a capture", err)
		}
		if code != 200 {
			return fmt.Errorf("capture answered with status %d: %.300s", code, reply)
		}
		ready = false
		if early {
			return nil
		}
		return until(40, ps, func() error {
			n := map[string]bool{}
			for _, f := range flows {
				n[flowSource(gen, f.Src)] = true
			}
			for s := range n {
				if !b.receiving("sfe." + s) {
					return fmt.Errorf("source %q does not take requests", s)
				}
			}
			var got struct {
				FlowPairs []json.RawMessage `json:"flowPairs"`
			}
			code, body, err := tool.get("/flows")
			if err != nil || code != 200 || json.Unmarshal(body, &got) != nil {
				return fmt.Errorf("flows: status %d, %v, %.200s", code, err, body)
			}
			pairs := 0
			for _, f := range flows {
				if i := counterIndex(f); i >= 0 && i < len(flows) {
					pairs++
				}
			}
			if len(got.FlowPairs) != pairs {
				return fmt.Errorf("the tool reports %d pairs of flows, want %d", len(got.FlowPairs), pairs)
			}
			ready = true
			return nil
		})
	}
	if err := use(p.Flows, p.Early); err != nil {
		return err
	}

	// expected counts the flows to be made from each flow pair of a capture
	type pair struct{ gen, server int }
	expected := map[pair]int{}
	captures := map[int][]FFlow{0: flows}
	certain := ready
	var stalled []net.Conn
	defer func() {
		for _, x := range stalled {
			x.Close()
		}
	}()
	for i, op := range p.Ops {
		switch op.Kind {
		case "flows", "raw":
			body := []byte(op.Raw)
			var want struct {
				Flows    int `json:"flows"`
				Duration int `json:"duration"`
			}
			valid := true
			if op.Kind == "flows" {
				want.Flows, want.Duration = op.N, op.Duration
				body = jsonOf(want)
			} else {
				valid = json.Unmarshal(body, &want) == nil && want.Flows >= 0 && want.Flows <= 1000
				c.Class("odd request")
			}
			code, _, err := tool.post("/flows", body)
			if err != nil {
				return gone(fmt.Sprintf("request %d (%s)", i, body), err)
			}
			switch {
			case valid && code != 200:
				return fmt.Errorf("request %d (%s) answered with status %d", i, body, code)
			case !valid && code < 400:
				return fmt.Errorf("request %d (%s), which cannot be served, answered with status %d", i, body, code)
			}
			if !valid || !ready {
				continue
			}
			if want.Duration > 100 {
				certain = false // these flows do not end while we wait
			}
			for s, f := range flows {
				if j := counterIndex(f); j >= 0 && j < len(flows) {
					expected[pair{gen, s}] += want.Flows
				}
			}
		case "get":
			for _, path := range []string{"/", "/flows", "/nosuch"} {
				if _, _, err := tool.get(path); err != nil {
					return gone("reading "+path, err)
				}
			}
		case "stall": // a client that does not finish its request
			conn, err := net.DialTimeout("tcp", "127.0.0.1:9080", 10*time.Second)
			if err != nil {
				return gone("connecting", err)
			}
			path := []string{"/", "/flows"}[i%2]
			fmt.Fprintf(conn, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{", path)
			stalled = append(stalled, conn)
			sleepMS(30)
			c.Class("stalled request")
		case "flush":
			for _, f := range flows {
				a := "sfe." + flowSource(gen, f.Src)
				if _, err := b.deliver(a, wire(vanflow.FlushMessage{}.Encode()), ps); err != nil {
					return err
				}
			}
		case "capture":
			// flows in the making are cut short
			if len(expected) > 0 {
				certain = false
			}
			if err := use(op.Flows, false); err != nil {
				return err
			}
			captures[gen] = flows
			c.Class("replaced capture")
		}
	}
	total := 0
	for _, n := range expected {
		total += n
	}
	c.ClassIf(total > 0, "flows made")
	c.ClassIf(!certain, "only required to keep serving")
	if total > 0 && certain {
		c.NonTrivial()
	}
	check := func() error {
		made, err := newFlows(b, captures)
		if err != nil {
			return err
		}
		return compareFlows(made, captures, func(g, s int) int { return expected[pair{g, s}] }, certain)
	}
	if certain {
		if err := until(60, ps, check); err != nil {
			return err
		}
		sleepMS(50)
	}
	if err := check(); err != nil {
		return err
	}
	// still serving
	for _, path := range []string{"/", "/flows"} {
		code, body, err := tool.get(path)
		if err != nil {
			return gone("reading "+path, err)
		}
		if code != http.StatusOK {
			return fmt.Errorf("%s: status %d: %.200s", path, code, body)
		}
	}
	if certain {
		var got struct {
			Done int `json:"fixtureFlowsResent"`
		}
		if err := until(20, ps, func() error {
			_, body, err := tool.get("/flows")
			if err != nil {
				return err
			}
			if err := json.Unmarshal(body, &got); err != nil {
				return fmt.Errorf("flows: %v", err)
			}
			if got.Done != total {
				return fmt.Errorf("the tool reports %d flows as sent, want %d", got.Done, total)
			}
			return nil
		}); err != nil {
			return err
		}
	}
	return tool.health("at the end")
}

// madeFlow is a flow the tool made up.
type madeFlow struct {
	Source string
	Rec    rec.Rec
}

// newFlows are the flows sent that were not captured, with their updates
// merged.
func newFlows(b *broker, captures map[int][]FFlow) (map[string]madeFlow, error) {
	captured := map[string]bool{}
	sources := map[string]bool{}
	for g, flows := range captures {
		for i, f := range flows {
			captured[flowID(g, i)] = true
			sources[flowSource(g, f.Src)] = true
		}
	}
	var names []string
	for s := range sources {
		names = append(names, s)
	}
	sort.Strings(names)
	out := map[string]madeFlow{}
	for _, s := range names {
		a := "mc/sfe." + s
		ms, err := b.sentTo(0, a, a+".flows")
		if err != nil {
			return nil, err
		}
		for _, m := range ms {
			rm, ok := m.(vanflow.RecordMessage)
			if !ok {
				continue
			}
			for _, x := range rm.Records {
				r, err := rec.From(x)
				if err != nil {
					return nil, err
				}
				if r.Type != 6 || captured[string(r.ID)] {
					continue
				}
				old, ok := out[string(r.ID)]
				if !ok {
					out[string(r.ID)] = madeFlow{s, r}
					continue
				}
				if old.Source != s {
					return nil, fmt.Errorf("flow %q was sent by %q and by %q", r.ID, old.Source, s)
				}
				for k, v := range r.A {
					old.Rec.A[k] = v
				}
			}
		}
	}
	return out, nil
}

// compareFlows matches the made up flows with the captured pairs they come
// from.
func compareFlows(made map[string]madeFlow, captures map[int][]FFlow, want func(gen, server int) int, complete bool) error {
	type side struct{ source, attrs string }
	text := func(r rec.Rec, server bool) string {
		names := []string{"Parent", "SourceHost", "SourcePort"}
		if server {
			names = append(names, "Trace")
		}
		s := ""
		for _, n := range names {
			if v, ok := r.A[n]; ok {
				s += n + "=" + v.String() + " "
			}
		}
		return s
	}
	type kind struct{ server, client side }
	counts := map[kind]int{}
	clients := map[string]bool{}
	for id, m := range made {
		cf, ok := m.Rec.A["Counterflow"]
		if !ok {
			continue
		}
		cid := string(*cf.S)
		cl, ok := made[cid]
		if !ok {
			if complete {
				return fmt.Errorf("flow %q: its counterflow %q was not sent", id, cid)
			}
			continue
		}
		if clients[cid] {
			return fmt.Errorf("flow %q is the counterflow of two flows", cid)
		}
		clients[cid] = true
		counts[kind{side{m.Source, text(m.Rec, true)}, side{cl.Source, text(cl.Rec, false)}}]++
	}
	if complete {
		for id, m := range made {
			if _, ok := m.Rec.A["Counterflow"]; !ok && !clients[id] {
				return fmt.Errorf("flow %q of %q is not the counterflow of any", id, m.Source)
			}
			if _, ok := m.Rec.A["EndTime"]; !ok {
				return fmt.Errorf("flow %q of %q did not end", id, m.Source)
			}
			if _, ok := m.Rec.A["StartTime"]; !ok {
				return fmt.Errorf("flow %q of %q did not start", id, m.Source)
			}
		}
	}
	should := map[kind]int{}
	for g, flows := range captures {
		for i, f := range flows {
			j := counterIndex(f)
			if j < 0 || j >= len(flows) {
				continue
			}
			k := kind{side{flowSource(g, f.Src), text(flowRec(g, flows, i), true)}, side{flowSource(g, flows[j].Src), text(flowRec(g, flows, j), false)}}
			should[k] += want(g, i)
		}
	}
	for k, n := range counts {
		if n > should[k] {
			if _, known := should[k]; known && !complete {
				continue // requests made before the capture was in use
			}
			return fmt.Errorf("%d pairs of flows like %+v were sent, want %d", n, k, should[k])
		}
	}
	if complete {
		for k, n := range should {
			if counts[k] != n {
				return fmt.Errorf("%d pairs of flows like %+v were sent, want %d", counts[k], k, n)
			}
		}
	}
	return nil
}

func TestC29(t *testing.T) {
	vt.Check(t, vt.Spec[C29Plan]{
		ID:   "C29",
		Rule: "captures of 0-7 flows at 1-3 sources whose counterflows are captured, not captured, themselves or none are posted to a running fixture tool, followed by flow requests, odd, malformed and stalled requests, flushes and new captures; the flows sent are matched with the captured pairs; non-trivial: at least one flow pair requested and required to be complete",
		Gen:  genC29, Run: runC29, Quick: 96, Thorough: 1200, NoShrink: true, HangTicks: 60000, Trace: true,
	})
}

func TestC29_big(t *testing.T) {
	vt.Check(t, vt.Spec[C29Plan]{
		ID:   "C29",
		Rule: "captures of 12-130 flows at 8-18 sources, posted up to eight times over, then up to fourteen flow requests; non-trivial: at least one flow pair requested and required to be complete",
		Gen:  genC29Big, Run: runC29, Quick: 24, Thorough: 300, NoShrink: true, HangTicks: 90000, Trace: true,
	})
}
