package es

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"pgregory.net/rapid"

	"vanflowverif/fake"
	"vanflowverif/rec"
	"vanflowverif/vt"
)

// WMsg is something heard from a watched source.
type WMsg struct {
	At   int    `json:"at"`   // ms from the start of the watch
	Kind string `json:"kind"` // record, heartbeat, garbage, error, beacon
}

type WSource struct {
	Start    int    `json:"start"` // ms; multiples of ten
	Timeout  int    `json:"timeout"`
	Grace    int    `json:"grace"`
	Interval int    `json:"interval"`
	End      int    `json:"end,omitempty"` // the watch's context ends then (ms from the start)
	Beacon   bool   `json:"beacon,omitempty"`
	Messages []WMsg `json:"messages,omitempty"`
}

type C18Plan struct {
	Sources []WSource `json:"sources"`
	Length  int       `json:"length"` // ms
}

func runC18(c *vt.Case, p C18Plan) error {
	net := fake.New()
	d := eventsource.NewDiscovery(net.Container(), eventsource.DiscoveryOptions{})
	ctx, cancel := context.WithCancel(background())
	defer cancel()
	t0 := time.Now()
	l := newLock()
	forgotten := map[string][]time.Time{}
	discovered := map[string]int{}
	done := running(func() {
		d.Run(ctx, eventsource.DiscoveryHandlers{
			Discovered: func(i eventsource.Info) { l.acquire(); discovered[i.ID]++; l.release() },
			Forgotten: func(i eventsource.Info) {
				l.acquire()
				forgotten[i.ID] = append(forgotten[i.ID], time.Now())
				l.release()
			}})
	})
	sleep(0)
	if err := d.NewWatchClient(ctx, eventsource.WatchConfig{Client: eventsource.NewClient(net.Container(), eventsource.ClientOptions{}), ID: "unknown", Timeout: time.Second}); err == nil {
		return fmt.Errorf("watching an unknown source is not refused")
	}
	type step struct {
		at int
		do func() error
	}
	var steps []step
	type state struct {
		heard   []time.Time // messages and the start
		allowed []time.Time // times the last-seen time may have
		last    time.Time
		ended   time.Time
		cancel  context.CancelFunc
	}
	states := make([]*state, len(p.Sources))
	name := func(i int) string { return fmt.Sprintf("s%d", i) }
	for i, s := range p.Sources {
		id, st := name(i), &state{}
		states[i] = st
		info := eventsource.Info{ID: id, Address: "mc/" + id, Direct: id}
		beacon := func() {
			net.Inject("mc/sfe.all", fake.Item{Msg: vanflow.BeaconMessage{Identity: id, Address: info.Address, Direct: info.Direct}.Encode()})
			sleep(0)
			st.allowed = append(st.allowed, time.Now())
		}
		steps = append(steps, step{s.Start, func() error {
			if s.Beacon {
				beacon()
			} else {
				info.LastSeen = time.Now()
				d.Add(info)
				st.allowed = append(st.allowed, time.Now())
			}
			client := eventsource.NewClient(net.Container(), eventsource.ClientOptions{Source: info})
			client.Listen(ctx, eventsource.FromSourceAddress())
			client.Listen(ctx, eventsource.FromSourceAddressHeartbeats())
			sleep(0)
			wctx, wcancel := context.WithCancel(ctx)
			st.cancel = wcancel
			if err := d.NewWatchClient(wctx, eventsource.WatchConfig{Client: client, ID: id, Timeout: ms(s.Timeout), GracePeriod: ms(s.Grace), DiscoveryUpdateInterval: ms(s.Interval)}); err != nil {
				return fmt.Errorf("watching %s: %w", id, err)
			}
			sleep(0)
			st.heard = append(st.heard, time.Now())
			return nil
		}})
		for _, m := range s.Messages {
			steps = append(steps, step{s.Start + m.At, func() error {
				_, known := d.Get(id)
				addr := info.Address
				if m.At%20 == 13 {
					addr += ".heartbeats"
				}
				switch m.Kind {
				case "beacon":
					if known {
						beacon()
					}
					return nil
				case "garbage":
					net.Inject(addr, fake.Item{Msg: badBeacon(3, id)})
					return nil
				case "error":
					net.Inject(addr, fake.Item{Err: fake.ErrInjected})
					return nil
				case "heartbeat":
					net.Inject(addr, fake.Item{Msg: vanflow.HeartbeatMessage{Identity: id, Now: 5}.Encode()})
				case "record":
					net.Inject(addr, fake.Item{Msg: encode(rec.Rec{Type: 0, ID: vt.S(id)})})
				}
				if known && st.ended.IsZero() {
					st.heard = append(st.heard, time.Now())
					st.allowed = append(st.allowed, time.Now())
				}
				return nil
			}})
		}
		if s.End > 0 {
			steps = append(steps, step{s.Start + s.End, func() error {
				if len(forgotten[id]) == 0 {
					st.ended = time.Now()
				}
				st.cancel()
				return nil
			}})
		}
	}
	for at := 4; at < p.Length; at += max(10, p.Length/300/10*10) { // look at it
		steps = append(steps, step{at, func() error { return nil }})
	}
	steps = append(steps, step{p.Length, func() error { return nil }})
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].at < steps[j].at })
	at := 0
	look := func() error {
		for i, s := range p.Sources {
			st := states[i]
			if len(st.heard) == 0 {
				continue
			}
			info, ok := d.Get(name(i))
			l.acquire()
			f := forgotten[name(i)]
			l.release()
			if ok != (len(f) == 0) {
				return fmt.Errorf("source %d at %v: known is %v, forgotten at %v", i, time.Since(t0), ok, f)
			}
			if !ok {
				continue
			}
			if info.LastSeen.Before(st.last) {
				return fmt.Errorf("source %d at %v: last seen went back from %v to %v", i, time.Since(t0), st.last.Sub(t0), info.LastSeen.Sub(t0))
			}
			st.last = info.LastSeen
			good := false
			for _, a := range st.allowed {
				good = good || a.Equal(info.LastSeen)
			}
			if !good {
				return fmt.Errorf("source %d at %v: last seen at %v, when nothing was heard", i, time.Since(t0), info.LastSeen.Sub(t0))
			}
			if !st.ended.IsZero() {
				continue
			}
			interval := ms(s.Interval)
			if s.Interval <= 0 {
				interval = time.Second
			}
			for _, m := range st.heard[1:] {
				if time.Since(m) > interval && info.LastSeen.Before(m) {
					return fmt.Errorf("source %d at %v: last seen at %v, but was heard at %v", i, time.Since(t0), info.LastSeen.Sub(t0), m.Sub(t0))
				}
			}
		}
		return nil
	}
	for _, s := range steps {
		sleep(ms(s.at - at))
		at = s.at
		if err := s.do(); err != nil {
			return err
		}
		sleep(0)
		if err := look(); err != nil {
			return err
		}
	}
	for i, s := range p.Sources {
		st := states[i]
		f := forgotten[name(i)]
		if discovered[name(i)] != 1 {
			return fmt.Errorf("source %d was discovered %d times", i, discovered[name(i)])
		}
		if len(f) > 1 {
			return fmt.Errorf("source %d was forgotten %d times", i, len(f))
		}
		if s.Timeout <= 0 {
			if len(f) > 0 {
				return fmt.Errorf("source %d was forgotten at %v without a timeout", i, f[0].Sub(t0))
			}
			continue
		}
		T, G, I := ms(s.Timeout), ms(s.Grace), ms(s.Interval)
		if s.Interval <= 0 {
			I = time.Second
		}
		end := time.Now()
		if !st.ended.IsZero() {
			end = st.ended
		}
		if len(f) > 0 && !st.ended.IsZero() && f[0].After(st.ended) {
			return fmt.Errorf("source %d was forgotten at %v, after the context of the watch ended at %v", i, f[0].Sub(t0), st.ended.Sub(t0))
		}
		// gaps between what was heard
		may, must := time.Time{}, time.Time{}
		for n, m := range st.heard {
			next := end
			if n+1 < len(st.heard) {
				next = st.heard[n+1]
			}
			limit := m.Add(T)
			latest := limit.Add(I)
			if n == 0 {
				limit = limit.Add(G)
				latest = limit
			}
			if next.After(limit) || n+1 == len(st.heard) {
				if may.IsZero() {
					may = limit
				}
			}
			if next.After(latest) {
				must = latest
				break
			}
		}
		if len(f) > 0 && (may.IsZero() || f[0].Before(may)) {
			return fmt.Errorf("source %d (watched from %v, heard at %v) was forgotten at %v, not before %v is right", i, st.heard[0].Sub(t0), offsets(st.heard[1:], t0), f[0].Sub(t0), may.Sub(t0))
		}
		if !must.IsZero() && (len(f) == 0 || f[0].After(must)) {
			return fmt.Errorf("source %d (watched from %v, heard at %v) was not forgotten at %v", i, st.heard[0].Sub(t0), offsets(st.heard[1:], t0), must.Sub(t0))
		}
		c.ClassIf(len(f) > 0, "forgotten")
		c.ClassIf(len(f) > 0 && len(st.heard) > 1, "forgotten after messages")
		c.ClassIf(len(f) == 0, "stays known")
		c.ClassIf(s.Grace > 0 && len(st.heard) > 1 && st.heard[1].Sub(st.heard[0]) > T, "first message in the grace period")
		if len(st.heard) > 1 {
			c.NonTrivial()
		}
	}
	for i := range p.Sources {
		if len(forgotten[name(i)]) == 0 && states[i].ended.IsZero() {
			continue
		}
		for _, o := range net.Open() {
			if strings.Contains(o, "mc/"+name(i)) {
				return fmt.Errorf("source %d was forgotten or is not watched any more, but its client is still open: %s", i, o)
			}
		}
	}
	cancel()
	sleep(time.Minute)
	if !isDone(done) {
		return fmt.Errorf("discovery did not stop")
	}
	return nil
}

func offsets(ts []time.Time, t0 time.Time) (out []time.Duration) {
	for _, t := range ts {
		out = append(out, t.Sub(t0))
	}
	return
}

func genC18(t *rapid.T) C18Plan {
	var p C18Plan
	for n := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "sources"); n > 0; n-- {
		var s WSource
		s.Start = 10 * rapid.IntRange(0, 50).Draw(t, "start")
		s.Timeout = 10 * rapid.SampledFrom([]int{0, 1, 5, 20, 100, 150, 250, 400, 1000}).Draw(t, "timeout")
		s.Grace = 10 * rapid.SampledFrom([]int{0, 0, 1, 10, 100, 300, 1500}).Draw(t, "grace")
		s.Interval = 10 * rapid.SampledFrom([]int{0, 1, 2, 10, 99, 100, 300, 700}).Draw(t, "interval")
		s.Beacon = rapid.Bool().Draw(t, "beacon")
		at := 0
		T := max(10, s.Timeout)
		I := s.Interval
		if I == 0 {
			I = 1000
		}
		for k := rapid.IntRange(0, 14).Draw(t, "messages"); k > 0; k-- {
			gap := 0
			switch rapid.IntRange(0, 9).Draw(t, "gap") {
			case 0:
				gap = 0
			case 1, 2, 3:
				gap = rapid.IntRange(0, T/10).Draw(t, "short") * 10
			case 4, 5:
				gap = T
			case 6:
				gap = T - 10
			case 7:
				gap = T + rapid.IntRange(0, I/10).Draw(t, "between")*10
			case 8:
				gap = T + I + 10
			case 9:
				gap = s.Grace
			}
			if at == 0 && rapid.Bool().Draw(t, "first") {
				gap += s.Grace
			}
			at += gap
			s.Messages = append(s.Messages, WMsg{At: at + 3, Kind: rapid.SampledFrom([]string{"record", "record", "record", "heartbeat", "heartbeat", "heartbeat", "garbage", "error", "beacon"}).Draw(t, "kind")})
		}
		if rapid.IntRange(0, 7).Draw(t, "ends") == 0 {
			s.End = rapid.IntRange(0, max(1, at/10)).Draw(t, "end")*10 + 5
		}
		p.Length = max(p.Length, s.Start+at+rapid.IntRange(0, 3).Draw(t, "rest")*(T+I)+s.Grace+6)
		p.Sources = append(p.Sources, s)
	}
	return p
}

func TestC18(t *testing.T) {
	vt.Check(t, vt.Spec[C18Plan]{
		ID:    "C18",
		Rule:  "one to three watched sources with arbitrary timeouts, grace periods and update intervals, heard from at gaps around the timeout, with undecodable messages, receive errors and beacons in between and watches whose context ends; in virtual time; when a source may and must be forgotten follows from the gaps; non-trivial: a watched source with a timeout was heard from",
		Gen:   genC18,
		Run:   bubbled(t, runC18),
		Quick: 10000, Thorough: 600000,
	})
}
