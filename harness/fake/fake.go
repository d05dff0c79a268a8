// Package fake is a session.Container that belongs to the checks: it records
// what is sent, with the (virtual) time, and lets a plan decide what each
// delivery and each receive does.
package fake

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"
)

// Outcome of one send attempt.
type Outcome struct {
	Kind  string `json:"kind,omitempty"` // "" ok, "fail", "stall" (until the context ends)
	Delay int    `json:"ms,omitempty"`   // before the outcome, milliseconds
}

// Attempt is one send.
type Attempt struct {
	Seq        int
	Addr       string
	Sender     int
	Start, End time.Time
	Msg        *amqp.Message // copied through AMQP encoding
	Err        error
	Done       bool // the attempt has ended
	CtxEnded   bool // the context had ended when the attempt was made
}

// OK tells whether the message was delivered.
func (a Attempt) OK() bool { return a.Done && a.Err == nil }

var ErrInjected = errors.New("injected failure")
var ErrClosed = errors.New("link closed")

// Item is something a receiver gets: a message or an error.
type Item struct {
	Msg       *amqp.Message
	Err       error
	AcceptErr error // what accepting the message gives
}

// Net is a scripted network.
type Net struct {
	mu        sync.Mutex
	seq       int
	attempts  []*Attempt
	plan      map[string][]Outcome // by address, consumed per attempt
	receivers []*Receiver
	senders   []*Sender
	backlog   map[string][]Item // injected before a receiver opened
	// Prefetch makes receives ignore an ended context while messages are
	// waiting, as AMQP links with prefetched messages do.
	Prefetch bool
	// Bare makes operations whose context has ended return its error itself,
	// and not an error that wraps it as AMQP links do.
	Bare bool
	// Route delivers sent messages to the receivers on the address.
	Route bool
	// Hold makes sends wait for a receiver on the address (with Route).
	Hold func(addr string) bool
	// Keep makes messages injected without a receiver wait for one.
	Keep bool

	opened chan struct{}
}

// ended is the error of an operation whose context has ended.
func (n *Net) ended(err error) error {
	if n.Bare {
		return err
	}
	return fmt.Errorf("link: %w", err)
}

func New() *Net {
	return &Net{plan: map[string][]Outcome{}, backlog: map[string][]Item{}, opened: make(chan struct{})}
}

// Plan sets the outcomes of the attempts on an address (or, as
// "address|SUBJECT", of the messages of one kind); attempts beyond it succeed
// at once.
func (n *Net) Plan(addr string, o []Outcome) {
	n.mu.Lock()
	n.plan[addr] = append([]Outcome{}, o...)
	n.mu.Unlock()
}

// Attempts made so far.
func (n *Net) Attempts() []Attempt {
	n.mu.Lock()
	defer n.mu.Unlock()
	out := make([]Attempt, len(n.attempts))
	for i, a := range n.attempts {
		out[i] = *a
	}
	return out
}

// On is the attempts on an address.
func (n *Net) On(addr string) (out []Attempt) {
	for _, a := range n.Attempts() {
		if a.Addr == addr {
			out = append(out, a)
		}
	}
	return
}

// Open counts the links that are open.
func (n *Net) Open() (links []string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, r := range n.receivers {
		if !r.isClosed() {
			links = append(links, "receiver "+r.addr)
		}
	}
	for _, s := range n.senders {
		if !s.isClosed() {
			links = append(links, "sender "+s.addr)
		}
	}
	return
}

// Receivers opened so far.
func (n *Net) Receivers() []*Receiver {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Receiver{}, n.receivers...)
}

// Inject gives the item to every open receiver on the address and tells how
// many there were.
func (n *Net) Inject(addr string, it Item) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	c := 0
	for _, r := range n.receivers {
		if r.addr == addr && !r.isClosed() {
			r.push(it)
			c++
		}
	}
	if c == 0 && n.Keep {
		n.backlog[addr] = append(n.backlog[addr], it)
	}
	return c
}

// Container creates a container on the network.
func (n *Net) Container() session.Container { return &container{n} }

type container struct{ n *Net }

func (c *container) Start(context.Context)      {}
func (c *container) OnSessionError(func(error)) {}
func (c *container) NewReceiver(addr string, o session.ReceiverOptions) session.Receiver {
	n := c.n
	n.mu.Lock()
	defer n.mu.Unlock()
	r := &Receiver{n: n, addr: addr, Credit: o.Credit, signal: make(chan struct{}, 1), done: make(chan struct{})}
	r.items = append(r.items, n.backlog[addr]...)
	delete(n.backlog, addr)
	if len(r.items) > 0 {
		r.signal <- struct{}{}
	}
	n.receivers = append(n.receivers, r)
	close(n.opened)
	n.opened = make(chan struct{})
	return r
}

func (c *container) NewSender(addr string, o session.SenderOptions) session.Sender {
	n := c.n
	n.mu.Lock()
	defer n.mu.Unlock()
	s := &Sender{n: n, addr: addr, id: len(n.senders), done: make(chan struct{})}
	n.senders = append(n.senders, s)
	return s
}

// Receiver is a receiving link.
type Receiver struct {
	n      *Net
	addr   string
	Credit int

	mu       sync.Mutex
	items    []Item
	signal   chan struct{}
	done     chan struct{}
	closed   bool
	taken    map[*amqp.Message]Item // the last one with each message
	accepted []*amqp.Message
	was      map[*amqp.Message]bool // accepted
	log      []string
}

func (r *Receiver) Addr() string { return r.addr }

func (r *Receiver) isClosed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.closed
}

func (r *Receiver) push(it Item) {
	r.mu.Lock()
	r.items = append(r.items, it)
	r.mu.Unlock()
	select {
	case r.signal <- struct{}{}:
	default:
	}
}

func (r *Receiver) pop() (Item, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.items) == 0 || r.closed {
		return Item{}, false
	}
	it := r.items[0]
	r.items = r.items[1:]
	if it.Msg != nil {
		if r.taken == nil {
			r.taken = map[*amqp.Message]Item{}
		}
		r.taken[it.Msg] = it
	}
	if len(r.items) > 0 {
		select {
		case r.signal <- struct{}{}:
		default:
		}
	}
	return it, true
}

// Waiting is the number of items not received yet.
func (r *Receiver) Waiting() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.items)
}

// Accepted messages, in order.
func (r *Receiver) Accepted() []*amqp.Message {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]*amqp.Message{}, r.accepted...)
}

// WasAccepted tells whether the message has been accepted.
func (r *Receiver) WasAccepted(m *amqp.Message) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.was[m]
}

func (r *Receiver) Next(ctx context.Context) (*amqp.Message, error) {
	for {
		if r.isClosed() {
			return nil, ErrClosed
		}
		if err := ctx.Err(); err != nil && !r.n.Prefetch {
			return nil, r.n.ended(err)
		}
		if it, ok := r.pop(); ok {
			return it.Msg, it.Err
		}
		if err := ctx.Err(); err != nil {
			return nil, r.n.ended(err)
		}
		select {
		case <-ctx.Done():
		case <-r.done:
		case <-r.signal:
		}
	}
}

func (r *Receiver) Accept(ctx context.Context, m *amqp.Message) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.closed {
		return ErrClosed
	}
	if err := ctx.Err(); err != nil && !r.n.Prefetch {
		return r.n.ended(err)
	}
	if it, ok := r.taken[m]; ok {
		if it.AcceptErr != nil {
			return it.AcceptErr
		}
		if r.was == nil {
			r.was = map[*amqp.Message]bool{}
		}
		r.was[m] = true
		r.accepted = append(r.accepted, m)
		return nil
	}
	return fmt.Errorf("accept of a message that was not received")
}

func (r *Receiver) Close(context.Context) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.closed {
		r.closed = true
		close(r.done)
	}
	return nil
}

// Sender is a sending link.
type Sender struct {
	n      *Net
	addr   string
	id     int
	mu     sync.Mutex
	closed bool
	done   chan struct{}
}

func (s *Sender) isClosed() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.closed
}

func (s *Sender) Close(context.Context) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.closed {
		s.closed = true
		close(s.done)
	}
	return nil
}

// Copy passes a message through AMQP encoding.
func Copy(m *amqp.Message) (*amqp.Message, error) {
	data, err := m.MarshalBinary()
	if err != nil {
		return nil, err
	}
	var out amqp.Message
	if err := out.UnmarshalBinary(data); err != nil {
		return nil, err
	}
	return &out, nil
}

func (s *Sender) Send(ctx context.Context, m *amqp.Message) error {
	if s.isClosed() {
		return ErrClosed
	}
	cp, err := Copy(m)
	if err != nil {
		return fmt.Errorf("marshalling: %w", err)
	}
	n := s.n
	n.mu.Lock()
	n.seq++
	a := &Attempt{Seq: n.seq, Addr: s.addr, Sender: s.id, Start: time.Now(), Msg: cp, CtxEnded: ctx.Err() != nil}
	n.attempts = append(n.attempts, a)
	var o Outcome
	key := s.addr
	if cp.Properties != nil && cp.Properties.Subject != nil {
		if k := s.addr + "|" + *cp.Properties.Subject; len(n.plan[k]) > 0 {
			key = k
		}
	}
	if p := n.plan[key]; len(p) > 0 {
		o, n.plan[key] = p[0], p[1:]
	}
	n.mu.Unlock()
	err = s.outcome(ctx, o, cp)
	n.mu.Lock()
	a.Done, a.End, a.Err = true, time.Now(), err
	n.mu.Unlock()
	return err
}

func (s *Sender) outcome(ctx context.Context, o Outcome, m *amqp.Message) error {
	if err := ctx.Err(); err != nil {
		return s.n.ended(err)
	}
	var after <-chan time.Time
	if o.Delay > 0 && o.Kind != "stall" {
		t := time.NewTimer(time.Duration(o.Delay) * time.Millisecond)
		defer t.Stop()
		after = t.C
	}
	if o.Delay > 0 || o.Kind == "stall" {
		select {
		case <-ctx.Done():
			return s.n.ended(ctx.Err())
		case <-s.done:
			return ErrClosed
		case <-after:
		}
	}
	if o.Kind == "fail" {
		return ErrInjected
	}
	if !s.n.Route {
		return nil
	}
	for {
		s.n.mu.Lock()
		opened := s.n.opened
		s.n.mu.Unlock()
		if s.n.Inject(s.addr, Item{Msg: m}) > 0 || s.n.Hold == nil || !s.n.Hold(s.addr) {
			return nil
		}
		select {
		case <-ctx.Done():
			return s.n.ended(ctx.Err())
		case <-s.done:
			return ErrClosed
		case <-opened:
		}
	}
}
