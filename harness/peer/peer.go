// Package peer is a small AMQP 1.0 peer for the checks: it accepts
// connections on loopback, keeps queues for the addresses clients receive
// from, records what clients send, and injects faults at chosen points of
// the exchange. It uses a copy of go-amqp's codec (amqpwire).
package peer

import (
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"vanflowverif/amqpwire/buffer"
	"vanflowverif/amqpwire/encoding"
	"vanflowverif/amqpwire/frames"
)

// Fault is an injected failure. It strikes at the At-th event after the fault
// before it; events are accepted connections, protocol headers and frames
// from clients, over all connections.
type Fault struct {
	At  int    `json:"at"`
	Act string `json:"act"`
	Ms  int    `json:"ms,omitempty"`
}

// Acts are the kinds of faults.
var Acts = []string{
	"drop",         // close the connection instead of responding
	"reset",        // the same with a TCP reset
	"respond_drop", // respond, then close the connection
	"partial",      // respond with half the bytes, then close the connection
	"close",        // send a close frame with an error
	"close_plain",  // send a close frame without an error
	"end",          // end the session with an error
	"end_plain",    // end the session without an error
	"detach",       // detach a link with an error
	"detach_plain", // detach a link without an error
	"refuse_link",  // answer an attach as AMQP says to refuse it
	"garbage",      // send bytes that are no frame
	"stall",        // stop responding, close the connection after Ms
	"refuse",       // close the connection and refuse new ones for Ms
}

// Options configures a peer.
type Options struct {
	Faults     []Fault
	Credit     uint32 // granted to clients' senders at a time; 0: 100
	MaxFrame   uint32 // 0: 65536
	Window     uint32 // incoming window; 0: 5000
	IdleMillis int
	TLS        *tls.Config
	SASL       bool // offer SASL EXTERNAL
	// Outcome decides what happens to the n-th message received on addr:
	// accept, reject, reject_plain, release, modify, hold (nothing, until
	// Release is called). Nil: accept.
	Outcome func(addr string, n int) string
	// NoCredit: links to this address get no credit until Grant.
	NoCredit func(addr string) bool
	// Multicast: messages sent to the address are copied to every link
	// receiving from it.
	Multicast func(addr string) bool
	// Forward: messages sent to the address are passed on to receivers.
	Forward bool
	// Silent addresses: attach requests are not answered.
	SilentAttach func(addr string) bool
	// ShutWindow: the session's incoming window is not renewed until
	// OpenWindow is called.
	ShutWindow bool
	// SlowEnd delays the answer to a session's end.
	SlowEnd time.Duration
	// Script decides which fault strikes at an event of the n-th connection;
	// empty: none. It is called with the lock held.
	Script func(conn int, event string) string
	// Addr to listen on; empty: chosen.
	Addr string
}

// Conn is what the peer knows of one connection.
type Conn struct {
	ID          int
	AcceptedAt  time.Time
	Open        bool // the transport is open
	Opened      bool // an open frame was received
	Began       bool // a session was begun
	ContainerID string
	MaxFrame    uint32
	SASL        string

	p        *Peer
	nc       net.Conn
	wmu      sync.Mutex
	out      [][]byte
	wake     chan struct{}
	corked   bool // under wmu: nothing is written
	dropping bool // close once written
	dead     bool
	stalled  bool
	faulty   string
	channel  uint16
	began    bool
	ended    bool
	links    map[uint32]*Link // by the client's handle
	nextOut  uint32           // delivery ids
	nextIn   uint32           // transfer ids received
	firstIn  uint32
	outIDs   uint32 // transfer frames sent
	closing  bool
}

// Link is what the peer knows of one link.
type Link struct {
	Conn     *Conn
	Name     string
	Handle   uint32
	Receiver bool // the client receives
	Addr     string
	// DetachReceived: the client detached the link; Closed as it said.
	DetachReceived, DetachClosed bool
	unanswered                   *frames.PerformAttach
	Detached                     bool // by either side
	FirstCredit                  uint32
	Flows                        int
	MaxOutstanding               uint32 // unsettled and credit, at most
	Delivered                    []*Delivery
	// sending side
	count   uint32 // deliveries sent
	limit   uint32
	queue   []*Message // multicast
	unacked map[uint32]*Delivery
	// receiving side
	partial   []byte
	inPartial bool
	partialID uint32
	format    uint32
	credit    uint32
	got       int
}

// Message is a message in a queue.
type Message struct {
	N       int
	Payload []byte
	Format  uint32
	Settled bool // sent settled
}

// Delivery is a message sent to a client.
type Delivery struct {
	Msg      *Message
	Link     *Link
	ID       uint32
	State    string // what the client said about it
	States   int    // how often
	Redone   bool
	sentFull bool
}

// Received is a message from a client.
type Received struct {
	Conn    *Conn
	Link    *Link
	Addr    string
	Payload []byte
	Format  uint32
	Outcome string
	ID      uint32
	Settled bool
	held    bool
}

// Peer is an AMQP 1.0 peer.
type Peer struct {
	mu       sync.Mutex
	opts     Options
	addr     string
	ln       net.Listener
	faults   []Fault
	sinceF   int
	Struck   []string // faults that struck, with the event
	conns    []*Conn
	links    []*Link
	queues   map[string][]*Message
	nextMsg  int
	received []*Received
	perAddr  map[string]int
	problems []string
	stopped  bool
	changed  chan struct{}
	wg       sync.WaitGroup
	granted  map[string]bool
	shut     bool // the session window is not renewed
}

var portCounter atomic.Int32

// New starts a peer.
func New(o Options) (*Peer, error) {
	if o.Credit == 0 {
		o.Credit = 100
	}
	if o.MaxFrame == 0 {
		o.MaxFrame = 65536
	}
	if o.Window == 0 {
		o.Window = 5000
	}
	p := &Peer{opts: o, queues: map[string][]*Message{}, perAddr: map[string]int{}, changed: make(chan struct{}), granted: map[string]bool{}}
	p.faults = append(p.faults, o.Faults...)
	p.shut = o.ShutWindow
	var err error
	if o.Addr != "" {
		p.addr = o.Addr
		p.ln, err = net.Listen("tcp", o.Addr)
	} else {
		for i := 0; i < 64; i++ {
			// an address and port no outgoing connection uses
			n := uint32(os.Getpid())*131 + uint32(portCounter.Add(1))
			p.addr = fmt.Sprintf("127.%d.%d.%d:%d", 16+n>>16&63, n>>8&255, 1+n&127, 5000+(n*7)%20000)
			if p.ln, err = net.Listen("tcp4", p.addr); err == nil {
				break
			}
		}
	}
	if err != nil {
		return nil, err
	}
	p.wg.Add(1)
	go p.accept(p.ln)
	return p, nil
}

// Addr is host:port.
func (p *Peer) Addr() string { return p.addr }

// URL is the address to dial.
func (p *Peer) URL() string {
	if p.opts.TLS != nil {
		return "amqps://" + p.addr
	}
	return "amqp://" + p.addr
}

// Port is the port listened on.
func (p *Peer) Port() int {
	_, s, _ := net.SplitHostPort(p.addr)
	n, _ := strconv.Atoi(s)
	return n
}

func (p *Peer) notify() {
	close(p.changed)
	p.changed = make(chan struct{})
}

// Lock gives consistent access to what the peer knows.
func (p *Peer) Lock() { p.mu.Lock() }

// Unlock ends it.
func (p *Peer) Unlock() { p.mu.Unlock() }

// Changed returns a channel that is closed at the next change. Call with the
// lock held.
func (p *Peer) Changed() <-chan struct{} { return p.changed }

// Wait waits until cond, called with the lock held, is true. The caller's
// watchdog bounds it.
func (p *Peer) Wait(cond func() bool) {
	for {
		p.mu.Lock()
		ok := cond()
		ch := p.changed
		p.mu.Unlock()
		if ok {
			return
		}
		select {
		case <-ch:
		case <-time.After(20 * time.Millisecond):
		}
	}
}

// WaitFor is Wait with a limit.
func (p *Peer) WaitFor(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for {
		p.mu.Lock()
		ok := cond()
		ch := p.changed
		p.mu.Unlock()
		if ok {
			return true
		}
		left := time.Until(end)
		if left <= 0 {
			return false
		}
		select {
		case <-ch:
		case <-time.After(min(left, 20*time.Millisecond)):
		}
	}
}

// Conns, Links, Received and Problems need the lock.
func (p *Peer) Conns() []*Conn        { return p.conns }
func (p *Peer) Links() []*Link        { return p.links }
func (p *Peer) Received() []*Received { return p.received }
func (p *Peer) Problems() []string    { return p.problems }

// OpenConns counts connections whose transport is open. Needs the lock.
func (p *Peer) OpenConns() int {
	n := 0
	for _, c := range p.conns {
		if c.Open {
			n++
		}
	}
	return n
}

// FaultsLeft is how many faults have not struck. Needs the lock.
func (p *Peer) FaultsLeft() int { return len(p.faults) }

// ClearFaults removes the faults that have not struck.
func (p *Peer) ClearFaults() { p.mu.Lock(); p.faults = nil; p.mu.Unlock() }

// Close stops the peer.
func (p *Peer) Close() {
	p.mu.Lock()
	p.stopped = true
	if p.ln != nil {
		p.ln.Close()
	}
	for _, c := range p.conns {
		c.kill()
	}
	p.mu.Unlock()
	p.wg.Wait()
}

// Drop closes every open connection.
func (p *Peer) Drop() {
	p.mu.Lock()
	for _, c := range p.conns {
		if c.Open {
			c.kill()
		}
	}
	p.mu.Unlock()
}

// DropOne ends a connection in the way a fault would.
func (p *Peer) Inject(act string, ms int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for i := len(p.conns) - 1; i >= 0; i-- {
		if c := p.conns[i]; c.Open && !c.stalled {
			c.strike(Fault{Act: act, Ms: ms}, nil)
			p.notify()
			return
		}
	}
}

// Enqueue puts a message on an address.
func (p *Peer) Enqueue(addr string, payload []byte, settled bool) int {
	return p.EnqueueFormat(addr, payload, 0, settled)
}

// EnqueueFormat is Enqueue with a message format.
func (p *Peer) EnqueueFormat(addr string, payload []byte, format uint32, settled bool) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.enqueue(addr, payload, format, settled)
}

func (p *Peer) enqueue(addr string, payload []byte, format uint32, settled bool) int {
	p.nextMsg++
	m := &Message{N: p.nextMsg, Payload: payload, Format: format, Settled: settled}
	if p.opts.Multicast != nil && p.opts.Multicast(addr) {
		for _, l := range p.links {
			if l.Receiver && l.Addr == addr && !l.Detached && l.Conn.Open {
				l.queue = append(l.queue, m)
				l.Conn.pump(l)
			}
		}
	} else {
		p.queues[addr] = append(p.queues[addr], m)
		p.pumpAddr(addr)
	}
	p.notify()
	return m.N
}

func (p *Peer) pumpAddr(addr string) {
	for _, l := range p.links {
		if l.Receiver && l.Addr == addr && !l.Detached && l.Conn.Open {
			l.Conn.pump(l)
		}
	}
}

// HasReceiver reports whether a client receives from addr and gave credit.
// Needs the lock.
func (p *Peer) HasReceiver(addr string) bool {
	for _, l := range p.links {
		if l.Receiver && l.Addr == addr && !l.Detached && l.Conn.Open && l.Flows > 0 {
			return true
		}
	}
	return false
}

// Grant gives credit to links that were attached without.
func (p *Peer) Grant(addr string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.granted[addr] = true
	for _, l := range p.links {
		if !l.Receiver && l.Addr == addr && !l.Detached && l.Conn.Open && l.credit == 0 {
			l.Conn.grant(l)
		}
	}
}

// OpenWindow ends ShutWindow.
func (p *Peer) OpenWindow() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.shut = false
	for _, c := range p.conns {
		if c.Open && c.began && !c.ended {
			c.window()
		}
	}
}

// AnswerAttach makes the peer answer attach requests to all addresses from
// now on.
func (p *Peer) AnswerAttach() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.opts.SilentAttach = nil
}

// Refuse closes the listener for a while.
func (p *Peer) Refuse(d time.Duration) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.refuse(d)
}

// Refusing stops listening until Listen is called.
func (p *Peer) Refusing() {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.ln != nil {
		p.ln.Close()
		p.ln = nil
	}
}

// Listen ends Refusing.
func (p *Peer) Listen() { p.Refuse(0) }

// ReleaseHeld settles the messages that were held, as accepted.
func (p *Peer) ReleaseHeld(addr string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, r := range p.received {
		if r.held && r.Addr == addr {
			r.held = false
			if r.Conn.Open && !r.Link.Detached {
				r.Outcome = "accept"
				r.Conn.settle(r)
			}
		}
	}
	p.notify()
}

// Held counts messages waiting for ReleaseHeld. Needs the lock.
func (p *Peer) Held(addr string) int {
	n := 0
	for _, r := range p.received {
		if r.held && r.Addr == addr {
			n++
		}
	}
	return n
}

func (p *Peer) problem(format string, args ...any) {
	p.problems = append(p.problems, fmt.Sprintf(format, args...))
}

func (p *Peer) accept(ln net.Listener) {
	defer p.wg.Done()
	for {
		nc, err := ln.Accept()
		if err != nil {
			return
		}
		p.mu.Lock()
		if p.stopped {
			p.mu.Unlock()
			nc.Close()
			return
		}
		c := &Conn{ID: len(p.conns), AcceptedAt: time.Now(), Open: true, p: p, nc: nc, wake: make(chan struct{}, 1), links: map[uint32]*Link{}}
		p.conns = append(p.conns, c)
		p.notify()
		f := p.event(c.ID, "accept")
		p.wg.Add(2)
		go c.writer()
		go c.reader(f)
		p.mu.Unlock()
	}
}

// event counts an event and returns the fault that strikes at it.
func (p *Peer) event(conn int, name string) *Fault {
	if p.opts.Script != nil {
		if act := p.opts.Script(conn, name); act != "" {
			p.Struck = append(p.Struck, act+"@"+name)
			return &Fault{Act: act}
		}
	}
	if len(p.faults) == 0 {
		return nil
	}
	if p.sinceF < p.faults[0].At {
		p.sinceF++
		return nil
	}
	f := p.faults[0]
	p.faults = p.faults[1:]
	p.sinceF = 0
	p.Struck = append(p.Struck, f.Act+"@"+name)
	return &f
}

func (c *Conn) send(b []byte) {
	if c.dead || c.stalled || c.dropping {
		return
	}
	c.wmu.Lock()
	c.out = append(c.out, b)
	c.wmu.Unlock()
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

func (c *Conn) writer() {
	defer c.p.wg.Done()
	for range c.wake {
		for {
			c.wmu.Lock()
			out := c.out
			if c.corked {
				out = nil
			} else {
				c.out = nil
			}
			c.wmu.Unlock()
			if len(out) == 0 {
				break
			}
			for _, b := range out {
				if b == nil {
					c.nc.Close()
					return
				}
				if _, err := c.nc.Write(b); err != nil {
					c.nc.Close()
					return
				}
			}
		}
	}
}

// closeAfter closes the transport once everything is written.
func (c *Conn) closeAfter() {
	if c.dead || c.dropping {
		return
	}
	c.wmu.Lock()
	c.out = append(c.out, nil)
	c.wmu.Unlock()
	c.dropping = true
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

func (c *Conn) kill() {
	if !c.dead {
		c.nc.Close()
	}
}

// gone is called once, when the transport has ended.
func (c *Conn) gone() {
	c.Open = false
	c.dead = true
	close(c.wake)
	c.nc.Close()
	c.lostLinks(func(*Link) bool { return true })
	c.p.notify()
}

// lostLinks returns what was not settled to the queues.
func (c *Conn) lostLinks(which func(*Link) bool) {
	var addrs []string
	for _, l := range c.links {
		if l.Detached || !which(l) {
			continue
		}
		l.Detached = true
		addrs = append(addrs, l.requeue())
	}
	for _, a := range addrs {
		if a != "" {
			c.p.pumpAddr(a)
		}
	}
}

func (l *Link) requeue() string {
	p := l.Conn.p
	if !l.Receiver || (p.opts.Multicast != nil && p.opts.Multicast(l.Addr)) {
		return ""
	}
	var back []*Message
	for _, d := range l.Delivered {
		if _, open := l.unacked[d.ID]; open && !d.Redone {
			d.Redone = true
			back = append(back, d.Msg)
		}
	}
	l.unacked = map[uint32]*Delivery{}
	p.queues[l.Addr] = append(back, p.queues[l.Addr]...)
	return l.Addr
}

func frame(t frames.Type, channel uint16, body frames.FrameBody) []byte {
	var buf buffer.Buffer
	if err := frames.Write(&buf, frames.Frame{Type: t, Channel: channel, Body: body}); err != nil {
		panic(err)
	}
	return append([]byte(nil), buf.Bytes()...)
}

func (c *Conn) sendFrame(body frames.FrameBody) { c.send(frame(frames.TypeAMQP, c.channel, body)) }

func amqpErr(s string) *encoding.Error {
	return &encoding.Error{Condition: "amqp:internal-error", Description: s}
}

// strike carries out a fault. body is the frame it strikes at, if any. It
// reports whether the frame is to be handled nevertheless, first.
func (c *Conn) strike(f Fault, body frames.FrameBody) (handle bool) {
	p := c.p
	switch f.Act {
	case "reset":
		if tc, ok := c.nc.(*net.TCPConn); ok {
			tc.SetLinger(0)
		}
		c.nc.Close()
	case "respond_drop", "partial":
		if body == nil {
			c.nc.Close()
			return false
		}
		c.faulty = f.Act
		return true
	case "close", "close_plain":
		if !c.Opened {
			c.nc.Close()
			return false
		}
		var e *encoding.Error
		if f.Act == "close" {
			e = amqpErr("fault")
		}
		c.sendFrame(&frames.PerformClose{Error: e})
		c.closing = true
	case "end", "end_plain":
		if !c.began || c.ended {
			c.nc.Close()
			return false
		}
		var e *encoding.Error
		if f.Act == "end" {
			e = amqpErr("fault")
		}
		c.sendFrame(&frames.PerformEnd{Error: e})
		c.ended = true
		c.lostLinks(func(*Link) bool { return true })
	case "detach_stall": // detach a link, then stop responding
		for _, l := range p.links {
			if l.Conn == c && !l.Detached {
				c.sendFrame(&frames.PerformDetach{Handle: l.Handle, Closed: true, Error: amqpErr("fault")})
				break
			}
		}
		c.lostLinks(func(*Link) bool { return true })
		c.stalled = true
	case "detach", "detach_plain":
		l := c.linkOf(body)
		if l == nil {
			c.nc.Close()
			return false
		}
		var e *encoding.Error
		if f.Act == "detach" {
			e = amqpErr("fault")
		}
		c.lostLinks(func(x *Link) bool { return x == l })
		c.sendFrame(&frames.PerformDetach{Handle: l.Handle, Closed: true, Error: e})
		// a transfer or flow that comes with the fault is lost
	case "refuse_link":
		at, ok := body.(*frames.PerformAttach)
		if !ok {
			c.nc.Close()
			return false
		}
		c.sendFrame(&frames.PerformAttach{Name: at.Name, Handle: at.Handle, Role: !at.Role})
		c.sendFrame(&frames.PerformDetach{Handle: at.Handle, Closed: true, Error: amqpErr("refused")})
	case "garbage":
		c.send([]byte{0, 0, 0, 12, 2, 0, 0, 0, 0xff, 0xfe, 0xfd, 0xfc})
		c.closeAfter()
	case "stall":
		c.stalled = true
		if f.Ms >= 0 {
			time.AfterFunc(time.Duration(f.Ms)*time.Millisecond, func() { c.nc.Close() })
		}
	case "refuse":
		c.nc.Close()
		p.refuse(time.Duration(f.Ms) * time.Millisecond)
	default:
		c.nc.Close()
	}
	return false
}

func (p *Peer) refuse(d time.Duration) {
	if p.stopped {
		return
	}
	if p.ln != nil {
		p.ln.Close()
		p.ln = nil
	}
	p.wg.Add(1)
	time.AfterFunc(d, func() {
		defer p.wg.Done()
		for i := 0; ; i++ {
			p.mu.Lock()
			if p.stopped {
				p.mu.Unlock()
				return
			}
			ln, err := net.Listen("tcp4", p.addr)
			if err == nil {
				p.ln = ln
				p.wg.Add(1)
				go p.accept(ln)
				p.mu.Unlock()
				return
			}
			p.mu.Unlock()
			if i > 2000 {
				fmt.Printf("HARNESS-ERROR: cannot listen on %s again: %v\n", p.addr, err)
				os.Exit(2)
			}
			time.Sleep(5 * time.Millisecond)
		}
	})
}

func (c *Conn) linkOf(body frames.FrameBody) *Link {
	var h *uint32
	switch b := body.(type) {
	case *frames.PerformTransfer:
		h = &b.Handle
	case *frames.PerformFlow:
		h = b.Handle
	}
	if h != nil {
		if l := c.links[*h]; l != nil && !l.Detached {
			return l
		}
	}
	for _, l := range c.p.links {
		if l.Conn == c && !l.Detached {
			return l
		}
	}
	return nil
}

func (c *Conn) reader(f *Fault) {
	defer c.p.wg.Done()
	defer func() {
		c.p.mu.Lock()
		c.gone()
		c.p.mu.Unlock()
	}()
	if f != nil {
		c.p.mu.Lock()
		c.strike(*f, nil)
		c.p.mu.Unlock()
	}
	if c.p.opts.TLS != nil {
		t := tls.Server(c.nc, c.p.opts.TLS)
		if err := t.Handshake(); err != nil {
			return
		}
		c.p.mu.Lock()
		c.nc = t
		c.p.mu.Unlock()
	}
	if !c.proto() {
		return
	}
	for {
		body, channel, err := readFrame(c.nc)
		if err != nil {
			return
		}
		if body == nil { // keep-alive
			continue
		}
		c.p.mu.Lock()
		if c.stalled {
			c.p.mu.Unlock()
			continue
		}
		c.frame(channel, body)
		c.p.notify()
		c.p.mu.Unlock()
	}
}

func (c *Conn) proto() bool {
	var h [8]byte
	for {
		if _, err := io.ReadFull(c.nc, h[:]); err != nil {
			return false
		}
		if string(h[:4]) != "AMQP" || h[5] != 1 {
			return false
		}
		if h[4] == 3 { // SASL
			c.p.mu.Lock()
			ok := c.p.opts.SASL
			c.send([]byte{'A', 'M', 'Q', 'P', 3, 1, 0, 0})
			c.send(frame(frames.TypeSASL, 0, &frames.SASLMechanisms{Mechanisms: encoding.MultiSymbol{"EXTERNAL"}}))
			c.p.mu.Unlock()
			body, _, err := readFrame(c.nc)
			if err != nil {
				return false
			}
			init, isInit := body.(*frames.SASLInit)
			if !ok || !isInit {
				return false
			}
			c.p.mu.Lock()
			c.SASL = string(init.Mechanism)
			c.send(frame(frames.TypeSASL, 0, &frames.SASLOutcome{Code: encoding.CodeSASLOK}))
			c.p.mu.Unlock()
			continue
		}
		c.p.mu.Lock()
		f := c.p.event(c.ID, "proto")
		if c.stalled {
			f = nil
		}
		if f != nil && !c.strike(*f, nil) {
			c.p.mu.Unlock()
			return true
		}
		c.send([]byte{'A', 'M', 'Q', 'P', 0, 1, 0, 0})
		c.p.mu.Unlock()
		return true
	}
}

func readFrame(r io.Reader) (frames.FrameBody, uint16, error) {
	var h [8]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, 0, err
	}
	size := binary.BigEndian.Uint32(h[:])
	if size < 8 || size > 1<<26 {
		return nil, 0, fmt.Errorf("frame of %d bytes", size)
	}
	b := make([]byte, size-8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, 0, err
	}
	if len(b) == 0 {
		return nil, 0, nil
	}
	body, err := frames.ParseBody(buffer.New(b))
	return body, binary.BigEndian.Uint16(h[6:]), err
}

func name(body frames.FrameBody) string {
	switch body.(type) {
	case *frames.PerformOpen:
		return "open"
	case *frames.PerformBegin:
		return "begin"
	case *frames.PerformAttach:
		return "attach"
	case *frames.PerformFlow:
		return "flow"
	case *frames.PerformTransfer:
		return "transfer"
	case *frames.PerformDisposition:
		return "disposition"
	case *frames.PerformDetach:
		return "detach"
	case *frames.PerformEnd:
		return "end"
	case *frames.PerformClose:
		return "close"
	}
	return "other"
}

func (c *Conn) frame(channel uint16, body frames.FrameBody) {
	if f := c.p.event(c.ID, name(body)); f != nil {
		if o, ok := body.(*frames.PerformOpen); ok { // close needs an open first
			if f.Act == "close" || f.Act == "close_plain" {
				c.open(o)
			}
		}
		if !c.strike(*f, body) {
			if f.Act == "detach" || f.Act == "detach_plain" {
				// what concerned other links or the session is not lost
				switch body.(type) {
				case *frames.PerformTransfer, *frames.PerformFlow:
				default:
					if !c.dead {
						c.handle(channel, body)
					}
				}
			}
			return
		}
		c.cork(true)
		c.handle(channel, body)
		c.finishFaulty()
		return
	}
	c.handle(channel, body)
}

func (c *Conn) cork(on bool) {
	c.wmu.Lock()
	c.corked = on
	c.wmu.Unlock()
}

func (c *Conn) finishFaulty() {
	act := c.faulty
	c.faulty = ""
	if act == "partial" {
		c.wmu.Lock()
		if n := len(c.out); n > 0 && len(c.out[n-1]) > 1 {
			c.out[n-1] = c.out[n-1][:len(c.out[n-1])/2]
		}
		c.wmu.Unlock()
	}
	c.cork(false)
	c.closeAfter()
}

func (c *Conn) open(b *frames.PerformOpen) {
	c.Opened = true
	c.ContainerID = b.ContainerID
	c.MaxFrame = b.MaxFrameSize
	c.sendFrame(&frames.PerformOpen{ContainerID: "peer", MaxFrameSize: c.p.opts.MaxFrame, ChannelMax: 100, IdleTimeout: time.Duration(c.p.opts.IdleMillis) * time.Millisecond})
}

func (c *Conn) handle(channel uint16, body frames.FrameBody) {
	switch b := body.(type) {
	case *frames.PerformOpen:
		c.open(b)
	case *frames.PerformBegin:
		if c.began && !c.ended {
			c.p.problem("second session on a connection")
		}
		c.channel = channel
		c.began, c.ended, c.Began = true, false, true
		c.nextIn, c.firstIn = b.NextOutgoingID, b.NextOutgoingID
		ch := channel
		c.sendFrame(&frames.PerformBegin{RemoteChannel: &ch, NextOutgoingID: 0, IncomingWindow: c.p.opts.Window, OutgoingWindow: 1 << 20, HandleMax: 1 << 20})
	case *frames.PerformAttach:
		if c.ended {
			return
		}
		c.attach(b)
	case *frames.PerformFlow:
		if c.ended || b.Handle == nil {
			return
		}
		l := c.links[*b.Handle]
		if l == nil || l.Detached || !l.Receiver {
			return
		}
		c.flow(l, b)
	case *frames.PerformTransfer:
		if c.ended {
			return
		}
		c.nextIn++
		l := c.links[b.Handle]
		if l == nil || l.Receiver {
			c.p.problem("transfer on a handle that is not attached")
			return
		}
		if l.Detached {
			return
		}
		c.transfer(l, b)
	case *frames.PerformDisposition:
		c.disposition(b)
	case *frames.PerformDetach:
		l := c.links[b.Handle]
		if l == nil {
			return
		}
		l.DetachReceived, l.DetachClosed = true, b.Closed
		delete(c.links, b.Handle)
		if !l.Detached {
			l.Detached = true
			if l.unanswered != nil {
				c.sendFrame(l.unanswered)
			}
			c.sendFrame(&frames.PerformDetach{Handle: l.Handle, Closed: b.Closed})
			if a := l.requeue(); a != "" {
				c.p.pumpAddr(a)
			}
		}
	case *frames.PerformEnd:
		if !c.ended {
			c.ended = true
			c.lostLinks(func(*Link) bool { return true })
			if d := c.p.opts.SlowEnd; d > 0 {
				time.AfterFunc(d, func() {
					c.p.mu.Lock()
					c.sendFrame(&frames.PerformEnd{})
					c.p.mu.Unlock()
				})
			} else {
				c.sendFrame(&frames.PerformEnd{})
			}
		}
		c.links = map[uint32]*Link{}
	case *frames.PerformClose:
		if !c.closing {
			c.sendFrame(&frames.PerformClose{})
		}
		c.closeAfter()
	}
}

func (c *Conn) attach(b *frames.PerformAttach) {
	l := &Link{Conn: c, Name: b.Name, Handle: b.Handle, Receiver: bool(b.Role), unacked: map[uint32]*Delivery{}}
	if old := c.links[b.Handle]; old != nil {
		c.p.problem("handle %d attached twice", b.Handle)
	}
	if l.Receiver && b.Source != nil {
		l.Addr = b.Source.Address
	}
	if !l.Receiver && b.Target != nil {
		l.Addr = b.Target.Address
	}
	c.links[b.Handle] = l
	c.p.links = append(c.p.links, l)
	resp := &frames.PerformAttach{Name: b.Name, Handle: b.Handle, Role: !b.Role, SenderSettleMode: b.SenderSettleMode, ReceiverSettleMode: b.ReceiverSettleMode, Source: b.Source, Target: b.Target}
	if resp.Source == nil {
		resp.Source = &frames.Source{}
	}
	if resp.Target == nil {
		resp.Target = &frames.Target{}
	}
	if c.p.opts.SilentAttach != nil && c.p.opts.SilentAttach(l.Addr) {
		l.unanswered = resp
		return
	}
	c.sendFrame(resp)
	if !l.Receiver {
		if c.p.opts.NoCredit == nil || !c.p.opts.NoCredit(l.Addr) || c.p.granted[l.Addr] {
			c.grant(l)
		}
	}
}

func (c *Conn) grant(l *Link) {
	l.credit = c.p.opts.Credit
	in, h, dc, cr := c.nextIn, l.Handle, uint32(l.got), l.credit
	win := c.p.opts.Window
	if c.p.shut {
		win -= min(win, c.nextIn-c.firstIn)
	}
	c.sendFrame(&frames.PerformFlow{NextIncomingID: &in, IncomingWindow: win, NextOutgoingID: c.outIDs, OutgoingWindow: 1 << 20, Handle: &h, DeliveryCount: &dc, LinkCredit: &cr})
}

func (c *Conn) flow(l *Link, b *frames.PerformFlow) {
	l.Flows++
	if b.LinkCredit == nil {
		return
	}
	dc := l.count
	if b.DeliveryCount != nil {
		dc = *b.DeliveryCount
	}
	l.limit = dc + *b.LinkCredit
	if l.Flows == 1 {
		l.FirstCredit = *b.LinkCredit
	}
	if out := l.limit - l.count + uint32(len(l.unacked)); int32(l.limit-l.count) >= 0 && out > l.MaxOutstanding {
		l.MaxOutstanding = out
	}
	c.pump(l)
}

// pump sends what the link may have.
func (c *Conn) pump(l *Link) {
	if c.dead || c.dropping || c.stalled || c.ended || c.closing {
		return
	}
	for int32(l.limit-l.count) > 0 {
		var m *Message
		if len(l.queue) > 0 {
			m = l.queue[0]
			l.queue = l.queue[1:]
		} else if q := c.p.queues[l.Addr]; len(q) > 0 {
			m = q[0]
			c.p.queues[l.Addr] = q[1:]
		} else {
			return
		}
		d := &Delivery{Msg: m, Link: l, ID: c.nextOut}
		c.nextOut++
		l.count++
		l.Delivered = append(l.Delivered, d)
		if !m.Settled {
			l.unacked[d.ID] = d
		}
		id, tag, format := d.ID, make([]byte, 8), m.Format
		binary.BigEndian.PutUint64(tag, uint64(d.ID)+1)
		maxPayload := int(c.MaxFrame) - 100
		if maxPayload > 60000 || maxPayload <= 0 {
			maxPayload = 60000
		}
		rest := m.Payload
		for first := true; first || len(rest) > 0; first = false {
			n := min(len(rest), maxPayload)
			t := &frames.PerformTransfer{Handle: l.Handle, Settled: m.Settled, Payload: rest[:n], More: n < len(rest)}
			if first {
				t.DeliveryID, t.DeliveryTag, t.MessageFormat = &id, tag, &format
			}
			rest = rest[n:]
			c.outIDs++
			c.sendFrame(t)
		}
	}
}

func (c *Conn) transfer(l *Link, b *frames.PerformTransfer) {
	if !l.inPartial {
		if b.DeliveryID == nil {
			c.p.problem("transfer without a delivery id")
			return
		}
		l.partial, l.partialID, l.format, l.inPartial = nil, *b.DeliveryID, 0, true
		if b.MessageFormat != nil {
			l.format = *b.MessageFormat
		}
	} else if b.DeliveryID != nil && *b.DeliveryID != l.partialID {
		c.p.problem("delivery %d begins before %d is complete", *b.DeliveryID, l.partialID)
		l.partial, l.partialID = nil, *b.DeliveryID
	}
	l.partial = append(l.partial, b.Payload...)
	if b.More {
		c.window()
		return
	}
	l.inPartial = false
	if b.Aborted {
		return
	}
	if l.credit == 0 {
		c.p.problem("message without credit")
	} else {
		l.credit--
	}
	l.got++
	n := c.p.perAddr[l.Addr]
	c.p.perAddr[l.Addr]++
	outcome := "accept"
	if c.p.opts.Outcome != nil {
		outcome = c.p.opts.Outcome(l.Addr, n)
	}
	r := &Received{Conn: c, Link: l, Addr: l.Addr, Payload: l.partial, Format: l.format, Outcome: outcome, ID: l.partialID, Settled: b.Settled}
	l.partial = nil
	c.p.received = append(c.p.received, r)
	if c.p.opts.Forward && outcome == "accept" {
		c.p.enqueue(l.Addr, r.Payload, r.Format, false)
	}
	if outcome == "hold" {
		r.held = true
	} else {
		c.settle(r)
	}
	if l.credit == 0 || l.credit < c.p.opts.Credit/2 {
		c.grant(l)
	} else {
		c.window()
	}
}

// window keeps the session's incoming window open.
func (c *Conn) window() {
	if c.p.opts.Window < 1000 && !c.p.shut {
		in := c.nextIn
		c.sendFrame(&frames.PerformFlow{NextIncomingID: &in, IncomingWindow: c.p.opts.Window, NextOutgoingID: c.outIDs, OutgoingWindow: 1 << 20})
	}
}

func (c *Conn) settle(r *Received) {
	if r.Settled {
		return
	}
	var st encoding.DeliveryState
	switch r.Outcome {
	case "reject":
		st = &encoding.StateRejected{Error: &encoding.Error{Condition: "amqp:not-allowed", Description: "no"}}
	case "reject_plain":
		st = &encoding.StateRejected{}
	case "release":
		st = &encoding.StateReleased{}
	case "modify":
		st = &encoding.StateModified{}
	default:
		st = &encoding.StateAccepted{}
	}
	c.sendFrame(&frames.PerformDisposition{Role: encoding.RoleReceiver, First: r.ID, Settled: true, State: st})
}

func (c *Conn) disposition(b *frames.PerformDisposition) {
	if !bool(b.Role) {
		return // from a sender
	}
	last := b.First
	if b.Last != nil {
		last = *b.Last
	}
	state := "none"
	switch b.State.(type) {
	case *encoding.StateAccepted:
		state = "accepted"
	case *encoding.StateRejected:
		state = "rejected"
	case *encoding.StateReleased:
		state = "released"
	case *encoding.StateModified:
		state = "modified"
	}
	for id := b.First; id <= last && id-b.First < 1<<16; id++ {
		found := false
		for _, l := range c.p.links {
			if l.Conn != c || !l.Receiver {
				continue
			}
			for _, d := range l.Delivered {
				if d.ID != id {
					continue
				}
				found = true
				d.States++
				if !b.Settled {
					state += " unsettled"
				}
				d.State = state
				delete(l.unacked, id)
			}
		}
		if !found {
			c.p.problem("disposition of delivery %d, which was not made", id)
		}
	}
}

// ShutWindow stops renewing session windows until OpenWindow.
func (p *Peer) ShutWindow() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.shut = true
	for _, c := range p.conns {
		c.firstIn = c.nextIn
	}
}
