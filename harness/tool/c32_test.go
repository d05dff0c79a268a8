package tool

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"pgregory.net/rapid"

	"vanflowverif/rec"
	"vanflowverif/vt"
)

// LMsg is a message of a source.
type LMsg struct {
	Src       int       `json:"src"`
	Chan      int       `json:"chan"` // 0: the source's address, 1: flows, 2: logs, 3: heartbeats
	Heartbeat bool      `json:"heartbeat,omitempty"`
	Now       uint64    `json:"now,omitempty"`
	Version   uint32    `json:"version,omitempty"`
	Recs      []rec.Rec `json:"recs,omitempty"`
	Raw       string    `json:"raw,omitempty"`  // kind of a message that is none of these
	Drop      bool      `json:"drop,omitempty"` // the connections end before
	// Many is how many more records like the last one come with the message.
	Many int `json:"many,omitempty"`
}

// C32Plan is a plan of C32.
type C32Plan struct {
	Heartbeats bool   `json:"heartbeats"`
	Records    bool   `json:"records"`
	Flush      bool   `json:"flush"`
	Flows      bool   `json:"flows"`
	Logs       bool   `json:"logs"`
	Sources    []TSrc `json:"sources"`
	Msgs       []LMsg `json:"msgs"`
	Interrupt  bool   `json:"interrupt"`
	// Slow is how often the messages are sent while nobody reads the output,
	// until the tool takes no more.
	Slow int `json:"slow,omitempty"`
}

func genC32(t *rapid.T) C32Plan {
	p := C32Plan{
		Heartbeats: rapid.Bool().Draw(t, "heartbeats"), Records: rapid.IntRange(0, 4).Draw(t, "records") != 4,
		Flush: rapid.Bool().Draw(t, "flush"), Interrupt: rapid.Bool().Draw(t, "interrupt"),
		Flows: rapid.IntRange(0, 3).Draw(t, "flows") != 3, Logs: rapid.IntRange(0, 3).Draw(t, "logs") != 3,
	}
	if rapid.IntRange(0, 5).Draw(t, "read") == 5 {
		p.Slow = rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "slow")
	}
	n := rapid.IntRange(1, 3).Draw(t, "sources")
	if rapid.IntRange(0, 19).Draw(t, "crowd") == 13 {
		n = rapid.IntRange(9, 20).Draw(t, "crowded")
	}
	for i := 0; i < n; i++ {
		p.Sources = append(p.Sources, genSource(t, i))
	}
	for i, k := 0, rapid.SampledFrom([]int{1, 3, 8, 20, 150}).Draw(t, "msgs"); i < k; i++ {
		m := LMsg{Src: rapid.IntRange(0, n-1).Draw(t, "src"), Chan: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "chan")}
		switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
		case k < 3:
			m.Heartbeat = true
			if p.Sources[m.Src].Type == "CONTROLLER" && rapid.Bool().Draw(t, "hb") {
				m.Chan = 3
			}
			m.Now = rec.GenU64(rec.Opts{}).Draw(t, "now")
			m.Version = rapid.SampledFrom([]uint32{0, 1, 4294967295}).Draw(t, "version")
		case k == 3:
			m.Raw = rapid.SampledFrom([]string{"flush", "beacon"}).Draw(t, "raw")
		default:
			for _, r := range genRecs(t, m.Src, 4) {
				if !beyondJSON(r) {
					m.Recs = append(m.Recs, r)
				}
			}
			if len(m.Recs) == 0 {
				m.Raw = "flush"
			} else if p.Slow == 0 && rapid.IntRange(0, 39).Draw(t, "mass") == 21 {
				m.Many = rapid.SampledFrom([]int{99, 128, 600, 1500}).Draw(t, "like")
			}
		}
		if p.Slow == 0 && rapid.IntRange(0, 14).Draw(t, "drop") == 9 {
			m.Drop = true
		}
		p.Msgs = append(p.Msgs, m)
	}
	return p
}

// logLine is a line the tool prints.
type logLine struct {
	To, Subject, V, Now, ID string
	Data                    []struct {
		Type string
		Data json.RawMessage
	}
}

// recTypes are the names records have when they are printed.
var recTypes = sync.OnceValue(func() map[string]*rec.Type {
	m := map[string]*rec.Type{}
	for _, c := range rec.RecordCodes {
		t := rec.TypeOf(c)
		m[reflect.TypeOf(t.New()).Elem().Name()] = t
	}
	return m
})

// canon is what a line says.
func (l logLine) canon() (string, error) {
	var b strings.Builder
	fmt.Fprintf(&b, "to=%q subject=%q", l.To, l.Subject)
	if l.Data == nil {
		fmt.Fprintf(&b, " v=%s now=%s id=%q", l.V, l.Now, l.ID)
		return b.String(), nil
	}
	for _, d := range l.Data {
		t := recTypes()[d.Type[strings.LastIndex(d.Type, ".")+1:]]
		if t == nil {
			return "", fmt.Errorf("record of unknown type %q", d.Type)
		}
		v := t.New()
		if err := json.Unmarshal(d.Data, v); err != nil {
			return "", fmt.Errorf("record %s: %v", d.Data, err)
		}
		r, err := rec.From(v)
		if err != nil {
			return "", err
		}
		fmt.Fprintf(&b, " %s", r.Normal().Canon())
	}
	return b.String(), nil
}

// out keeps the two outputs of a tool apart.
type out struct {
	mu   sync.Mutex
	b    bytes.Buffer
	hold chan struct{} // writes wait for it to be closed
}

func (o *out) Write(b []byte) (int, error) {
	<-o.hold
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.b.Write(b)
}

func (o *out) lines() (got []string, err error) {
	o.mu.Lock()
	s := o.b.String()
	o.mu.Unlock()
	i := strings.LastIndex(s, "\n")
	for _, l := range strings.Split(s[:i+1], "\n") {
		if l == "" {
			continue
		}
		var line logLine
		if err := json.Unmarshal([]byte(l), &line); err != nil {
			return nil, fmt.Errorf("the tool printed %q: %v", l, err)
		}
		c, err := line.canon()
		if err != nil {
			return nil, fmt.Errorf("the tool printed %q: %v", l, err)
		}
		got = append(got, c)
	}
	return got, nil
}

func runC32(c *vt.Case, p C32Plan) error {
	err := logs(c, p)
	if errors.Is(err, errSlow) {
		return nil
	}
	return err
}

func logs(c *vt.Case, p C32Plan) error {
	defer exclusive()()
	all := make([]LMsg, len(p.Msgs))
	for i, m := range p.Msgs {
		c.ClassIf(m.Many > 0, "many records in a message")
		m.Recs = like(m.Recs, m.Many)
		all[i] = m
	}
	p.Msgs = all
	c.ClassIf(len(p.Sources) > 8, "many sources")
	b := newBroker()
	defer b.Close()
	for _, s := range p.Sources {
		b.rejects[s.Direct] = s.Rejects
		c.ClassIf(p.Flush && s.Rejects > 0, "flush rejected")
	}
	args := append([]string{"-server=" + b.URL()}, settings("enable-heartbeats", p.Heartbeats, false, "enable-records", p.Records, true,
		"flush-on-discover", p.Flush, false, "include-flow-records", p.Flows, true, "include-log-records", p.Logs, true)...)
	args = append(args, "log")
	tool := &proc{cmd: exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), "vanflow-tool"), args...), done: make(chan struct{})}
	printed := &out{hold: make(chan struct{})}
	release := sync.OnceFunc(func() { close(printed.hold) })
	defer release()
	if p.Slow == 0 {
		release()
	}
	tool.cmd.Stdout, tool.cmd.Stderr = printed, tool
	tool.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := tool.cmd.Start(); err != nil {
		vt.Abort("starting the tool: %v", err)
	}
	go func() {
		tool.cmd.Wait()
		close(tool.done)
	}()
	defer tool.stop()
	ps := []*proc{tool}
	if err := until(30, ps, func() error {
		if !b.receiving("mc/sfe.all") {
			return fmt.Errorf("the tool does not listen for beacons")
		}
		return nil
	}); err != nil {
		return err
	}
	at := func(s TSrc, ch int) string {
		return append(addrs(s), s.Addr+".heartbeats")[ch]
	}
	listens := func(s TSrc, ch int) bool {
		return ch == 0 || ch == 1 && p.Flows || ch == 2 && p.Logs || ch == 3 && s.Type == "CONTROLLER"
	}
	heard := newHeard(len(p.Sources))
	for i, s := range p.Sources {
		heard.now(i)
		bm := vanflow.BeaconMessage{Version: s.Version, SourceType: s.Type, Address: s.Addr, Direct: s.Direct, Identity: s.ID}
		if _, err := b.deliver("mc/sfe.all", wire(bm.Encode()), ps); err != nil {
			return err
		}
		for ch := 0; ch < 4; ch++ {
			if !listens(s, ch) {
				continue
			}
			if err := until(30, ps, func() error {
				if !b.receiving(at(s, ch)) {
					return fmt.Errorf("the tool does not listen to %q", at(s, ch))
				}
				return nil
			}); err != nil {
				return err
			}
		}
	}
	want := map[string][]string{} // per address
	total, records, beats, dropped := 0, 0, 0, 0
	first := map[int]bool{}
	msgs, held := p.Msgs, false
	if p.Slow > 0 {
		for i, k := 1, len(msgs); i < p.Slow || i*k < 180*p.Slow; i++ {
			msgs = append(msgs, p.Msgs...)
		}
	}
	var progress atomic.Int64
	sentAll := make(chan struct{})
	watched := make(chan struct{})
	go func() {
		defer close(watched)
		for last := int64(-1); ; {
			select {
			case <-sentAll:
				return
			case <-time.After(time.Second):
			}
			if n := progress.Load(); n != last {
				last = n
				continue
			}
			held = p.Slow > 0
			release()
			return
		}
	}()
	for _, m := range msgs {
		progress.Add(1)
		s := p.Sources[m.Src]
		if m.Drop {
			b.Lock()
			old := len(b.Conns())
			b.Unlock()
			b.Drop()
			dropped++
			if err := until(20, ps, func() error {
				b.Lock()
				for _, x := range b.Conns()[:old] {
					if x.Open {
						b.Unlock()
						return fmt.Errorf("still connected")
					}
				}
				b.Unlock()
				for _, s := range p.Sources {
					for ch := 0; ch < 4; ch++ {
						if listens(s, ch) && !b.receiving(at(s, ch)) {
							return fmt.Errorf("the tool does not listen to %q again", at(s, ch))
						}
					}
				}
				return nil
			}); err != nil {
				close(sentAll)
				return heard.excuse(c, err)
			}
		}
		// every source is heard from all the time
		for i := range p.Sources {
			if !heard.quiet(i) {
				continue
			}
			c.Class("heartbeats to keep sources known")
			h := vanflow.HeartbeatMessage{Identity: p.Sources[i].ID, Version: 9, Now: 9}
			x := h.Encode()
			there, err := b.deliver(p.Sources[i].Addr, wire(x), ps)
			if err == nil && !there {
				err = fmt.Errorf("the tool does not listen to source %q", p.Sources[i].ID)
			}
			if err != nil {
				close(sentAll)
				return heard.excuse(c, err)
			}
			heard.now(i)
			if p.Heartbeats {
				a := p.Sources[i].Addr
				want[a] = append(want[a], fmt.Sprintf("to=%q subject=%q v=9 now=9 id=%q", prop(x.Properties.To), prop(x.Properties.Subject), p.Sources[i].ID))
				total++
			}
		}
		a := at(s, m.Chan)
		var payload []byte
		line := ""
		switch {
		case m.Raw == "flush":
			payload = wire(vanflow.FlushMessage{}.Encode())
		case m.Raw == "beacon":
			payload = wire(vanflow.BeaconMessage{Version: 1, SourceType: "X", Address: a, Direct: a, Identity: s.ID}.Encode())
		case m.Heartbeat:
			h := vanflow.HeartbeatMessage{Identity: s.ID, Version: m.Version, Now: m.Now}
			x := h.Encode()
			payload = wire(x)
			if p.Heartbeats {
				line = fmt.Sprintf("to=%q subject=%q v=%d now=%d id=%q", prop(x.Properties.To), prop(x.Properties.Subject), m.Version, m.Now, s.ID)
				beats++
			}
		default:
			payload = recordMsg(m.Recs)
			if p.Records {
				line = fmt.Sprintf("to=%q subject=%q", "", "RECORD")
				for _, r := range m.Recs {
					line += " " + r.Normal().Canon()
				}
				records++
			}
		}
		sent, err := b.deliver(a, payload, ps)
		if err != nil {
			close(sentAll)
			return heard.excuse(c, err)
		}
		if sent != listens(s, m.Chan) {
			close(sentAll)
			return heard.excuse(c, fmt.Errorf("receives from %q: %v", a, sent))
		}
		if sent && (m.Heartbeat || m.Raw == "") {
			heard.now(m.Src)
		}
		if sent {
			first[m.Src] = true
		}
		if sent && line != "" {
			want[a] = append(want[a], line)
			total++
		}
	}
	close(sentAll)
	<-watched
	release()
	// what is printed is an interleaving of what was sent to each address
	matches := func(got []string) error {
		left := map[string][]string{}
		for a, l := range want {
			left[a] = l
		}
		if !interleaves(got, left) {
			for _, g := range got {
				n := 0
				for _, l := range want {
					for _, w := range l {
						if w == g {
							n++
						}
					}
				}
				if n == 0 {
					return fmt.Errorf("the tool printed what no source sent:\n%s", g)
				}
			}
			return fmt.Errorf("the tool printed %d lines that are not the %d messages sent, in order:\n%s\nsent: %v", len(got), total, strings.Join(got, "\n"), want)
		}
		return nil
	}
	if err := until(30, ps, func() error {
		got, err := printed.lines()
		if err != nil {
			return err
		}
		if len(got) < total {
			return fmt.Errorf("the tool printed %d lines of %d:\n%s\nsent: %v", len(got), total, strings.Join(got, "\n"), want)
		}
		return nil
	}); err != nil {
		return err
	}
	sleepMS(100)
	for i, s := range p.Sources {
		flushes := func() (n int, err error) {
			ms, err := b.sentTo(0, s.Direct)
			for _, m := range ms {
				if _, ok := m.(vanflow.FlushMessage); ok {
					n++
				}
			}
			return n, err
		}
		if !p.Flush {
			if n, err := flushes(); err != nil || n > 0 {
				return fmt.Errorf("the tool sent %d flushes to source %q (%v) though it was not told to", n, s.ID, err)
			}
			continue
		}
		if !first[i] && len(p.Msgs)%4 != 0 {
			continue // it takes 5 seconds
		}
		if err := until(30, ps, func() error {
			if n, err := flushes(); err != nil || n == 0 {
				return fmt.Errorf("the tool does not request the records of source %q (%v)", s.ID, err)
			}
			return nil
		}); err != nil {
			return err
		}
	}
	if p.Interrupt {
		if err := tool.interrupt(); err != nil {
			return err
		}
	} else if err := tool.health("at the end"); err != nil {
		return err
	}
	got, err := printed.lines()
	if err == nil {
		err = matches(got)
	}
	if err != nil {
		return err
	}
	if total > 1 {
		c.NonTrivial()
	}
	c.ClassIf(records > 0, "records")
	c.ClassIf(beats > 0, "heartbeats")
	c.ClassIf(len(want) > 1, "several addresses")
	c.ClassIf(total > 64, "many messages")
	c.ClassIf(dropped > 0, "connections lost")
	c.ClassIf(p.Slow > 0, "nobody reads the output for a while")
	c.ClassIf(held, "the tool took no more until its output was read")
	c.ClassIf(total < len(msgs), "messages that are not printed")
	c.ClassIf(p.Flush, "flush")
	c.ClassIf(p.Interrupt, "interrupted")
	return nil
}

// interleaves tells that got merges the lists.
func interleaves(got []string, lists map[string][]string) bool {
	// positions reachable so far; equal lines on several addresses are rare
	var names []string
	n := 0
	for a := range lists {
		names = append(names, a)
		n += len(lists[a])
	}
	if n != len(got) {
		return false
	}
	type state = string
	enc := func(pos []int) state { return fmt.Sprint(pos) }
	cur := map[state][]int{enc(make([]int, len(names))): make([]int, len(names))}
	for _, g := range got {
		next := map[state][]int{}
		for _, pos := range cur {
			for i, a := range names {
				if pos[i] < len(lists[a]) && lists[a][pos[i]] == g {
					np := append([]int{}, pos...)
					np[i]++
					next[enc(np)] = np
				}
			}
		}
		if len(next) == 0 {
			return false
		}
		cur = next
	}
	return true
}

func prop(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

func TestC32(t *testing.T) {
	vt.Check(t, vt.Spec[C32Plan]{
		ID:   "C32",
		Rule: "1-3 simulated sources send 1-150 messages (records, heartbeats and others; on each of their addresses) to a running logger with generated flags; the lines it prints are compared with an interleaving of what was sent to each address it is told to listen to, and the flushes it sends with its flags; in some cases nobody reads its output until it takes no more; non-trivial: at least two messages are to be printed",
		Gen:  genC32, Run: runC32, Quick: 96, Thorough: 3000, HangTicks: 60000, Trace: true, NoShrink: true,
	})
}
