package tool

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"

	"vanflowverif/peer"
	"vanflowverif/rec"
	"vanflowverif/vt"
)

// The tools listen on fixed ports. Every shard therefore runs in a network
// namespace of its own; where that is not possible, shards take turns.
func TestMain(m *testing.M) {
	if os.Getenv("VERIF_NETNS") == "" {
		if rc, ok := reexec(); ok {
			os.Exit(rc)
		}
		turns = true
	} else if err := loopbackUp(); err != nil {
		fmt.Printf("HARNESS-ERROR loopback: %v\n", err)
		os.Exit(3)
	}
	os.Exit(m.Run())
}

var turns bool

func reexec() (int, bool) {
	cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_NETNS=1")
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
		Pdeathsig:   syscall.SIGKILL,
	}
	if err := cmd.Start(); err != nil {
		return 0, false
	}
	err := cmd.Wait()
	var ee *exec.ExitError
	switch {
	case err == nil:
		return 0, true
	case errors.As(err, &ee) && ee.ExitCode() >= 0:
		return ee.ExitCode(), true
	}
	fmt.Printf("HARNESS-ERROR: %v\n", err)
	return 3, true
}

func loopbackUp() error {
	s, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return err
	}
	defer syscall.Close(s)
	var ifr struct {
		name  [16]byte
		flags uint16
		_     [22]byte
	}
	copy(ifr.name[:], "lo")
	ifr.flags = syscall.IFF_UP | syscall.IFF_RUNNING
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(s), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&ifr))); e != 0 {
		return e
	}
	return nil
}

// exclusive gives the case the ports.
func exclusive() (release func()) {
	if !turns {
		return func() {}
	}
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		dir = os.TempDir()
	}
	f, err := os.OpenFile(filepath.Join(dir, "ports.lock"), os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		vt.Abort("lock: %v", err)
	}
	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX); err != nil {
		vt.Abort("lock: %v", err)
	}
	return func() { f.Close() }
}

// proc is a running tool.
type proc struct {
	cmd  *exec.Cmd
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
	base string // URL
}

func (p *proc) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.out.Len() < 4<<20 {
		p.out.Write(b)
	}
	return len(b), nil
}

var client = &http.Client{
	Timeout:   30 * time.Second,
	Transport: &http.Transport{DisableKeepAlives: true},
}

// start runs the tool and waits until it serves.
func start(port int, args ...string) (*proc, error) {
	bin := filepath.Join(os.Getenv("VERIF_BIN"), "vanflow-tool")
	if _, err := os.Stat(bin); err != nil {
		vt.Abort("no tool: %v", err)
	}
	p := &proc{cmd: exec.Command(bin, args...), done: make(chan struct{}), base: fmt.Sprintf("http://127.0.0.1:%d", port)}
	p.cmd.Stdout, p.cmd.Stderr = p, p
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		vt.Abort("starting the tool: %v", err)
	}
	go func() {
		p.cmd.Wait()
		close(p.done)
	}()
	if port == 0 {
		return p, nil
	}
	limit := patience(30)
	for {
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
		if err == nil {
			c.Close()
			return p, nil
		}
		select {
		case <-p.done:
			return nil, p.health("while starting")
		case <-time.After(10 * time.Millisecond):
		}
		if limit() {
			p.stop()
			return nil, fmt.Errorf("the tool does not listen on its port; output:\n%s", p.tail())
		}
	}
}

func (p *proc) tail() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := p.out.String()
	for _, mark := range []string{"WARNING: DATA RACE", "panic:", "fatal error:"} {
		if i := strings.Index(s, mark); i >= 0 {
			return s[i:min(len(s), i+5000)]
		}
	}
	return s[max(0, len(s)-3000):]
}

// health fails when the tool crashed or raced.
func (p *proc) health(when string) error {
	select {
	case <-p.done:
		return fmt.Errorf("the tool ended %s (%v); output:\n%s", when, p.cmd.ProcessState, p.tail())
	default:
	}
	p.mu.Lock()
	s := p.out.String()
	p.mu.Unlock()
	if strings.Contains(s, "WARNING: DATA RACE") {
		return fmt.Errorf("data race in the tool %s:\n%s", when, p.tail())
	}
	if strings.Contains(s, "http: panic serving") {
		i := strings.Index(s, "http: panic serving")
		return fmt.Errorf("a request handler panicked %s:\n%s", when, s[i:min(len(s), i+3000)])
	}
	return nil
}

func (p *proc) stop() {
	p.cmd.Process.Kill()
	<-p.done
}

// interrupt ends the tool as a user does.
func (p *proc) interrupt() error {
	p.cmd.Process.Signal(os.Interrupt)
	limit := patience(30)
	for {
		select {
		case <-p.done:
			if !p.cmd.ProcessState.Success() || strings.Contains(p.tail(), "WARNING: DATA RACE") {
				return fmt.Errorf("the tool ended with %v when it was interrupted; output:\n%s", p.cmd.ProcessState, p.tail())
			}
			return nil
		case <-time.After(10 * time.Millisecond):
			if limit() {
				return fmt.Errorf("the tool does not end when it is interrupted; output:\n%s", p.tail())
			}
		}
	}
}

// patience counts scheduled ticks rather than time, so that a machine that
// stalls does not use it up.
func patience(seconds int) func() bool {
	n := 0
	last := time.Now()
	return func() bool {
		// what passed since the last call, but at most 50ms
		now := time.Now()
		d := now.Sub(last)
		last = now
		n += int(min(d, 50*time.Millisecond) / time.Microsecond)
		return n > seconds*1000000
	}
}

// until polls cond; it fails with the last complaint when patience ends or the
// tools do not run any more.
func until(seconds int, ps []*proc, cond func() error) error {
	limit := patience(seconds)
	for {
		err := cond()
		if err == nil {
			return nil
		}
		for _, p := range ps {
			if herr := p.health("while waiting"); herr != nil {
				return herr
			}
		}
		if limit() {
			var out []string
			for _, p := range ps {
				out = append(out, p.tail())
			}
			return fmt.Errorf("%w; tool output:\n%s", err, strings.Join(out, "\n---\n"))
		}
		time.Sleep(15 * time.Millisecond)
	}
}

// get requests a path.
func (p *proc) get(path string) (int, []byte, error) {
	resp, err := client.Get(p.base + path)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}

func (p *proc) post(path string, body []byte) (int, []byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, http.MethodPost, p.base+path, bytes.NewReader(body))
	if err != nil {
		return 0, nil, err
	}
	resp, err := (&http.Client{Transport: client.Transport}).Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}

func jsonOf(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		vt.Abort("marshal: %v", err)
	}
	return b
}

// --- the network

// broker is a router the tools connect to.
type broker struct {
	*peer.Peer
	// rejects is how many messages to an address are rejected at first
	rejects map[string]int
}

func newBroker() *broker {
	rejects := map[string]int{}
	p, err := peer.New(peer.Options{Forward: true, Outcome: func(a string, n int) string {
		if n < rejects[a] {
			return "reject"
		}
		return "accept"
	}, Multicast: func(a string) bool { return strings.HasPrefix(a, "mc/") }})
	if err != nil {
		vt.Abort("peer: %v", err)
	}
	return &broker{p, rejects}
}

func wire(m *amqp.Message) []byte {
	b, err := m.MarshalBinary()
	if err != nil {
		vt.Abort("marshal message: %v", err)
	}
	return b
}

// recordMsg is a record message of a source.
func recordMsg(recs []rec.Rec) []byte {
	m := vanflow.RecordMessage{}
	for _, r := range recs {
		m.Records = append(m.Records, r.Record(false))
	}
	msg, err := m.Encode()
	if err != nil {
		vt.Abort("encode: %v", err)
	}
	return wire(msg)
}

// decode reads a message the tool sent.
func decode(payload []byte) (any, error) {
	var m amqp.Message
	if err := m.UnmarshalBinary(payload); err != nil {
		return nil, err
	}
	return vanflow.Decode(&m)
}

// openReceivers counts client links that receive from addr.
func (b *broker) receiving(addr string) bool {
	b.Lock()
	defer b.Unlock()
	return b.HasReceiver(addr)
}

// sentTo lists what the tools sent to an address and was accepted, from the given number of
// messages on.
func (b *broker) sentTo(from int, addrs ...string) (out []any, err error) {
	b.Lock()
	defer b.Unlock()
	for _, r := range b.Received()[from:] {
		for _, a := range addrs {
			if r.Addr == a && r.Outcome == "accept" {
				m, err := decode(r.Payload)
				if err != nil {
					return nil, fmt.Errorf("the tool sent something undecodable to %q: %v", a, err)
				}
				out = append(out, m)
			}
		}
	}
	return out, nil
}

func (b *broker) mark() int {
	b.Lock()
	defer b.Unlock()
	return len(b.Received())
}

// deliver sends a message to everyone who receives from addr and waits until it
// was accepted. It reports whether anyone was there.
func (b *broker) deliver(addr string, payload []byte, ps []*proc) (bool, error) {
	if !b.receiving(addr) {
		return false, nil
	}
	n := b.Enqueue(addr, payload, false)
	err := until(20, ps, func() error {
		b.Lock()
		defer b.Unlock()
		for _, l := range b.Links() {
			for _, d := range l.Delivered {
				if d.Msg.N == n && d.State != "" {
					return nil
				}
			}
		}
		return fmt.Errorf("message %d to %q is not received", n, addr)
	})
	return true, err
}

// --- captures

type metaJSON struct {
	Source struct{ APIVersion, Type, Name string }
}

type entryJSON struct {
	Meta     metaJSON
	TypeMeta vanflow.TypeMeta
	Record   json.RawMessage
}

type listing struct {
	Data  []json.RawMessage `json:"data"`
	Error string            `json:"error"`
}

// entry is an entry of a capture.
type entry struct {
	Source string // name
	Rec    rec.Rec
}

// parseEntry reads an entry of a capture.
func parseEntry(raw []byte) (entryJSON, entry, error) {
	var e entryJSON
	if err := json.Unmarshal(raw, &e); err != nil {
		return e, entry{}, fmt.Errorf("entry %s: %v", raw, err)
	}
	if len(e.Record) == 0 || string(e.Record) == "null" {
		return e, entry{Source: e.Meta.Source.Name}, nil
	}
	for _, c := range rec.RecordCodes {
		t := rec.TypeOf(c)
		if t.Meta() != e.TypeMeta {
			continue
		}
		v := t.New()
		if err := json.Unmarshal(e.Record, v); err != nil {
			return e, entry{}, fmt.Errorf("record %s: %v", e.Record, err)
		}
		r, err := rec.From(v)
		return e, entry{e.Meta.Source.Name, r.Normal()}, err
	}
	return e, entry{}, fmt.Errorf("entry of unknown type %v", e.TypeMeta)
}

func parseListing(b []byte) ([]entryJSON, []entry, error) {
	var l listing
	if err := json.Unmarshal(b, &l); err != nil {
		return nil, nil, fmt.Errorf("listing is not JSON: %v: %.300s", err, b)
	}
	if l.Error != "" {
		return nil, nil, fmt.Errorf("listing error: %s", l.Error)
	}
	var js []entryJSON
	var es []entry
	for _, raw := range l.Data {
		j, e, err := parseEntry(raw)
		if err != nil {
			return nil, nil, err
		}
		js, es = append(js, j), append(es, e)
	}
	return js, es, nil
}

type key struct {
	Type uint32
	ID   vt.S
}

// compare reports how the entries differ from the expected ones.
func compare(what string, want map[key]entry, got []entry) error {
	seen := map[key]bool{}
	for _, g := range got {
		k := key{g.Rec.Type, g.Rec.ID}
		if seen[k] {
			return fmt.Errorf("%s: %s %q more than once", what, rec.TypeOf(k.Type).Name, k.ID)
		}
		seen[k] = true
		w, ok := want[k]
		if !ok {
			return fmt.Errorf("%s: unexpected %s %q of source %q", what, rec.TypeOf(k.Type).Name, k.ID, g.Source)
		}
		if w.Source != g.Source {
			return fmt.Errorf("%s: %s %q: source %q, want %q", what, rec.TypeOf(k.Type).Name, k.ID, g.Source, w.Source)
		}
		if d := rec.Diff(w.Rec, g.Rec); d != "" {
			return fmt.Errorf("%s: %s", what, d)
		}
	}
	for k := range want {
		if !seen[k] {
			return fmt.Errorf("%s: %s %q of source %q is missing", what, rec.TypeOf(k.Type).Name, k.ID, want[k].Source)
		}
	}
	return nil
}

// served are the types the tools handle.
func served(flows, logs bool) map[uint32]bool {
	out := map[uint32]bool{}
	for _, c := range rec.RecordCodes {
		switch rec.TypeOf(c).Name {
		case "SiteRecord", "LinkRecord", "RouterRecord", "ListenerRecord", "ConnectorRecord", "ProcessRecord":
			out[c] = true
		case "FlowRecord":
			out[c] = flows
		case "LogRecord":
			out[c] = logs
		}
	}
	return out
}

func flags(flows, logs bool) []string {
	return settings("include-flow-records", flows, true, "include-log-records", logs, true)
}

// settings are flags (name, value, default), left out if by default they are as wanted.
func settings(nvd ...any) (args []string) {
	for i := 0; i < len(nvd); i += 3 {
		if nvd[i+1] != nvd[i+2] {
			args = append(args, fmt.Sprintf("-%s=%v", nvd[i], nvd[i+1]))
		}
	}
	return args
}

func sleepMS(n int) { time.Sleep(time.Duration(n) * time.Millisecond) }
