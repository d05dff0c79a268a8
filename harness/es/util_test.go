package es

import (
	"context"
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"pgregory.net/rapid"

	"vanflowverif/rec"
	"vanflowverif/vt"
)

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// records of a record message, as the protocol prescribes them.
func records(m *amqp.Message) ([]rec.Rec, error) {
	if m.Properties == nil || m.Properties.Subject == nil || *m.Properties.Subject != "RECORD" {
		return nil, fmt.Errorf("not a record message: %+v", m.Properties)
	}
	values, ok := m.Value.([]any)
	if !ok {
		return nil, fmt.Errorf("content is %T", m.Value)
	}
	var out []rec.Rec
	for _, v := range values {
		r, err := rec.FromAttrs(v)
		if err != nil {
			return nil, err
		}
		out = append(out, r)
	}
	return out, nil
}

func encode(recs ...rec.Rec) *amqp.Message {
	var m vanflow.RecordMessage
	m.To = "x"
	for _, r := range recs {
		m.Records = append(m.Records, r.Record(false))
	}
	msg, err := m.Encode()
	if err != nil {
		vt.Abort("encoding a record message: %v", err)
	}
	return msg
}

// sleep in virtual time.
func sleep(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}
	synctest.Wait()
}

// lock that blocks durably.
type lock chan struct{}

func newLock() lock     { return make(lock, 1) }
func (l lock) acquire() { l <- struct{}{} }
func (l lock) release() { <-l }

// running runs f and tells when it has returned.
func running(f func()) (done <-chan struct{}) {
	c := make(chan struct{})
	go func() { defer close(c); f() }()
	return c
}

func isDone(c <-chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

func bubbled[P any](t *testing.T, run func(*vt.Case, P) error) func(*vt.Case, P) error {
	return func(c *vt.Case, p P) error {
		return vt.Bubble(t, func() error { return run(c, p) })
	}
}

func genRecord(t *rapid.T, types []uint32, ids []string, small bool) rec.Rec {
	return rec.Gen(rec.Opts{Types: types, IDs: ids, Small: small, ZeroTime: true}).Draw(t, "r")
}

var background = context.Background
