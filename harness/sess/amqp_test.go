package sess

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"
	"github.com/cenkalti/backoff/v4"
	"pgregory.net/rapid"

	"vanflowverif/peer"
)

// long is how long something prompt may take: thousands of times what it
// normally takes.
const long = 20 * time.Second

func addrName(i int) string { return fmt.Sprintf("addr/%d", i) }

// body makes a message with a recognisable payload.
func body(format string, args ...any) *amqp.Message {
	return amqp.NewMessage([]byte(fmt.Sprintf(format, args...)))
}

func wire(m *amqp.Message) []byte {
	b, err := m.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return append([]byte(nil), b...)
}

func drawFaults(t *rapid.T, n, gap int) []peer.Fault {
	var fs []peer.Fault
	for i := 0; i < n; i++ {
		f := peer.Fault{
			At:  rapid.IntRange(0, gap).Draw(t, "at"),
			Act: rapid.SampledFrom(peer.Acts).Draw(t, "act"),
		}
		if f.Act == "stall" || f.Act == "refuse" {
			f.Ms = rapid.IntRange(0, 15).Draw(t, "ms")
		}
		fs = append(fs, f)
	}
	return fs
}

// errLog collects the first few complaints.
type errLog struct {
	mu   sync.Mutex
	errs []string
}

func (e *errLog) add(format string, args ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.errs) < 5 {
		e.errs = append(e.errs, fmt.Sprintf(format, args...))
	}
}

func (e *errLog) err() error {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.errs) == 0 {
		return nil
	}
	return errors.New(e.errs[0])
}

func constant(ms int) backoff.BackOff {
	return backoff.NewConstantBackOff(time.Duration(ms) * time.Millisecond)
}

func newContainer(p *peer.Peer, b backoff.BackOff) session.Container {
	return session.NewContainer(p.URL(), session.ContainerConfig{ContainerID: "verif", BackOff: b})
}

// within runs f and reports whether it ended in time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// receivedOn finds the message among what the peer received.
func receivedOn(p *peer.Peer, addr string, payload []byte) (n int) {
	p.Lock()
	defer p.Unlock()
	for _, r := range p.Received() {
		if r.Addr == addr && bytes.Equal(r.Payload, payload) {
			n++
		}
	}
	return n
}

func ended(ctx context.Context) bool { return ctx.Err() != nil }
