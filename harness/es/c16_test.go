package es

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/store"
	"pgregory.net/rapid"

	"vanflowverif/fake"
	"vanflowverif/rec"
	"vanflowverif/vt"
)

type C16Plan struct {
	Source     [4]vt.S        `json:"source"` // id, type, address, direct
	Version    int            `json:"version"`
	Beacon     int            `json:"beacon"`    // ms
	Heartbeat  int            `json:"heartbeat"` // ms
	Alternate  bool           `json:"alternate,omitempty"`
	Initial    []fake.Outcome `json:"initial,omitempty"` // of the first beacons
	Beacons    []fake.Outcome `json:"beacons,omitempty"` // of the later ones
	Heartbeats []fake.Outcome `json:"heartbeats,omitempty"`
	Records    []fake.Outcome `json:"records,omitempty"`
	Updates    []int          `json:"updates,omitempty"` // times
	Flushes    []int          `json:"flushes,omitempty"`
	Length     int            `json:"length"` // ms, from the delivery of the first beacon
}

func runC16(c *vt.Case, p C16Plan) error {
	const all = "mc/sfe.all"
	net := fake.New()
	id, typ, addr, direct := string(p.Source[0]), string(p.Source[1]), string(p.Source[2]), string(p.Source[3])
	haddr := addr
	if p.Alternate {
		haddr += ".heartbeats"
	}
	// the first beacon is delivered by the first outcome that is neither a
	// failure nor a stall; what is planned for beacons comes after it
	var initial []fake.Outcome
	for _, o := range p.Initial {
		if o.Kind == "" {
			continue
		}
		initial = append(initial, o)
	}
	initial = append(initial, fake.Outcome{})
	net.Plan(all+"|BEACON", append(append([]fake.Outcome{}, initial...), p.Beacons...))
	net.Plan(haddr+"|HEARTBEAT", p.Heartbeats)
	net.Plan(addr+"|RECORD", p.Records)
	B, H := ms(p.Beacon), ms(p.Heartbeat)
	if p.Beacon <= 0 {
		B = 10 * time.Second
	}
	if p.Heartbeat <= 0 {
		H = 2 * time.Second
	}
	longest := max(B, H)
	st := store.NewDefaultCachingStore(store.CacheConfig{})
	st.Add(background(), store.Entry{Record: rec.Rec{Type: 0, ID: "x"}.Record(false)})
	m := eventsource.NewManager(net.Container(), eventsource.ManagerConfig{
		Source:         eventsource.Info{ID: id, Version: p.Version, Type: typ, Address: addr, Direct: direct},
		Stores:         []store.Interface{st},
		BeaconInterval: ms(p.Beacon), HeartbeatInterval: ms(p.Heartbeat), UseAlternateHeartbeatAddress: p.Alternate,
	})
	ctx, cancel := context.WithCancel(background())
	defer cancel()
	t0 := time.Now()
	done := running(func() { m.Run(ctx) })
	sleep(0)
	go func() {
		at := 0
		for i, u := range p.Updates {
			time.Sleep(ms(u - at))
			at = u
			m.PublishUpdate(eventsource.RecordUpdate{Curr: rec.Rec{Type: 0, ID: vt.S(fmt.Sprint(i))}.Record(false)})
		}
	}()
	go func() {
		at := 0
		for _, u := range p.Flushes {
			time.Sleep(ms(u - at))
			at = u
			net.Inject(direct, fake.Item{Msg: vanflow.FlushMessage{}.Encode()})
		}
	}()
	// until the first beacon is delivered
	var td time.Time
	for {
		for _, a := range net.On(all) {
			if a.OK() && td.IsZero() {
				td = a.End
			}
		}
		if !td.IsZero() {
			break
		}
		if time.Since(t0) > time.Duration(len(initial)+2)*3*longest {
			return fmt.Errorf("no beacon delivered after %v; attempts: %s", time.Since(t0), attempts(net.On(all), t0))
		}
		sleep(min(B, H) / 2)
	}
	sleep(td.Add(ms(p.Length)).Sub(time.Now()))
	stop := time.Now()
	if isDone(done) {
		return fmt.Errorf("the manager stopped by itself")
	}
	cancel()
	sleep(24 * time.Hour)

	var beacons, heartbeats []fake.Attempt
	for _, a := range net.Attempts() {
		if a.CtxEnded || a.Start.After(stop) {
			continue
		}
		subject := ""
		if a.Msg.Properties != nil && a.Msg.Properties.Subject != nil {
			subject = *a.Msg.Properties.Subject
		}
		props := a.Msg.ApplicationProperties
		switch subject {
		case "BEACON":
			if a.Addr != all {
				return fmt.Errorf("beacon sent to %q", a.Addr)
			}
			if to := a.Msg.Properties.To; to != nil && *to != "" && *to != all {
				return fmt.Errorf("beacon addressed to %q", *to)
			}
			for k, want := range map[string]any{"v": uint32(p.Version), "sourceType": typ, "address": addr, "direct": direct, "id": id} {
				if props[k] != want {
					return fmt.Errorf("beacon property %s is %#v, want %#v", k, props[k], want)
				}
			}
			beacons = append(beacons, a)
		case "HEARTBEAT":
			if a.Addr != haddr {
				return fmt.Errorf("heartbeat sent to %q, want %q", a.Addr, haddr)
			}
			for k, want := range map[string]any{"v": uint32(p.Version), "id": id, "now": uint64(a.Start.UnixMicro())} {
				if props[k] != want {
					return fmt.Errorf("heartbeat property %s is %#v, want %#v", k, props[k], want)
				}
			}
			heartbeats = append(heartbeats, a)
		case "RECORD":
		default:
			return fmt.Errorf("message with subject %q sent to %q", subject, a.Addr)
		}
	}
	if len(beacons) == 0 || !beacons[0].Start.Equal(t0) {
		return fmt.Errorf("no beacon at once; attempts: %s", attempts(beacons, t0))
	}
	later := beacons[:0:0]
	for i, a := range beacons {
		if a.Start.After(td) {
			later = append(later, a)
			continue
		}
		if i > 0 {
			gap := a.Start.Sub(beacons[i-1].Start)
			if gap > 3*longest {
				return fmt.Errorf("initial beacon was tried again after %v", gap)
			}
			if beacons[i-1].OK() {
				return fmt.Errorf("initial beacon was delivered twice")
			}
		}
	}
	var faults []fake.Attempt
	for _, a := range append(append([]fake.Attempt{}, later...), heartbeats...) {
		if a.Err != nil || a.End.After(a.Start) || !a.Done {
			faults = append(faults, a)
		}
	}
	lastFault := td
	for _, f := range faults {
		if held := f.End.Sub(f.Start); f.Done && held > min(B, H) {
			return fmt.Errorf("a delivery to %q that was stuck was given up after %v only, with intervals of %v and %v", f.Addr, held, B, H)
		}
		e := f.End
		if !f.Done {
			e = stop
		}
		if e.After(lastFault) {
			lastFault = e
		}
	}
	check := func(kind string, list []fake.Attempt, every time.Duration) error {
		last := td
		for i := 0; i <= len(list); i++ {
			at := stop
			if i < len(list) {
				at = list[i].Start
			}
			gap := at.Sub(last)
			n := 0
			for _, f := range faults {
				if f.Start.Before(at) && (!f.Done || !f.End.Before(last)) {
					n++
				}
			}
			allowed := every
			if n > 0 {
				allowed += time.Duration(n+1) * min(B, H)
			}
			if gap > allowed {
				what := "the next one"
				if i == len(list) {
					what = "the end"
				}
				return fmt.Errorf("no %s between %v and %s at %v: every %v is due (%d failed or slow deliveries in between)", kind, last.Sub(td), what, at.Sub(td), every, n)
			}
			if i == len(list) {
				break
			}
			first := i == 0 // the phase is free
			if len(faults) == 0 && !first && gap < every {
				return fmt.Errorf("%ss at %v and %v, every %v is due", kind, last.Sub(td), at.Sub(td), every)
			}
			if len(faults) > 0 && last.After(lastFault.Add(2*longest)) && gap != every {
				return fmt.Errorf("%ss at %v and %v, every %v is due (the last fault ended at %v)", kind, last.Sub(td), at.Sub(td), every, lastFault.Sub(td))
			}
			last = at
		}
		return nil
	}
	if err := check("beacon", later, B); err != nil {
		return err
	}
	if err := check("heartbeat", heartbeats, H); err != nil {
		return err
	}
	if len(later) > 1 && len(heartbeats) > 1 {
		c.NonTrivial()
	}
	c.ClassIf(len(faults) == 0, "no faults")
	c.ClassIf(len(faults) > 0 && stop.After(lastFault.Add(2*longest)), "recovered from faults")
	c.ClassIf(len(initial) > 1, "first beacon retried")
	c.ClassIf(p.Alternate, "alternate heartbeat address")
	c.ClassIf(p.Beacon <= 0 || p.Heartbeat <= 0, "default intervals")
	c.ClassIf(len(p.Records) > 0 && len(p.Updates) > 0, "stuck records")
	for _, f := range faults {
		c.ClassIf(f.End.Sub(f.Start) >= min(B, H), "stuck delivery")
	}
	return nil
}

func attempts(list []fake.Attempt, t0 time.Time) (s string) {
	for _, a := range list {
		s += fmt.Sprintf("[%v-%v %v] ", a.Start.Sub(t0), a.End.Sub(t0), a.Err)
	}
	return
}

func genOutcomes(t *rapid.T, n int, delays []int) (out []fake.Outcome) {
	for i := rapid.IntRange(0, n).Draw(t, "outcomes"); i > 0; i-- {
		o := fake.Outcome{Kind: rapid.SampledFrom([]string{"", "fail", "stall"}).Draw(t, "kind")}
		if o.Kind != "stall" {
			o.Delay = rapid.SampledFrom(delays).Draw(t, "delay")
		}
		out = append(out, o)
	}
	return
}

func genC16(t *rapid.T) C16Plan {
	var p C16Plan
	str := rapid.OneOf(rapid.SampledFrom([]string{"a", "src", "mc/sfe.x", "sfe.x"}), rapid.StringN(1, 8, 30))
	for i := range p.Source {
		p.Source[i] = vt.S(str.Draw(t, "s"))
	}
	p.Source[2] = "A" + p.Source[2]
	p.Source[3] = "D" + p.Source[3]
	p.Version = rapid.SampledFrom([]int{0, 1, 2, 7, 1 << 31, 1<<32 - 1}).Draw(t, "version")
	every := []int{0, -5, 1, 10, 50, 100, 333, 1000, 2000, 7000, 10000, 60000}
	p.Beacon = rapid.SampledFrom(every).Draw(t, "beacon")
	p.Heartbeat = rapid.SampledFrom(every).Draw(t, "heartbeat")
	b, h := p.Beacon, p.Heartbeat
	if b <= 0 {
		b = 10000
	}
	if h <= 0 {
		h = 2000
	}
	for max(b, h) > 600*min(b, h) { // keep the number of messages small
		if b > h {
			b /= 10
			p.Beacon = b
		} else {
			h /= 10
			p.Heartbeat = h
		}
	}
	p.Alternate = rapid.Bool().Draw(t, "alt")
	longest := max(b, h)
	p.Length = longest * rapid.IntRange(1, 8).Draw(t, "length")
	p.Length += rapid.IntRange(0, longest).Draw(t, "more")
	delays := []int{0, 0, 1, min(b, h) / 2, min(b, h), 2 * longest}
	if rapid.Bool().Draw(t, "retry") {
		p.Initial = genOutcomes(t, 6, delays)
	}
	if rapid.Bool().Draw(t, "faults") {
		p.Beacons = genOutcomes(t, 4, delays)
		p.Heartbeats = genOutcomes(t, 6, delays)
		p.Length += 6 * longest
	}
	if rapid.IntRange(0, 29).Draw(t, "long") == 0 { // one kind of failure again and again
		n := rapid.SampledFrom([]int{12, 25, 40, 80, 300}).Draw(t, "failures")
		kinds := rapid.SampledFrom([][]string{{"fail"}, {"stall"}, {"fail", "stall"}}).Draw(t, "kinds")
		var list []fake.Outcome
		for i := 0; i < n; i++ {
			list = append(list, fake.Outcome{Kind: kinds[i%len(kinds)]})
		}
		switch rapid.IntRange(0, 2).Draw(t, "which") {
		case 0:
			p.Initial = list
		case 1:
			if n*b <= 300*longest {
				p.Beacons = list
				p.Length += (n + 2) * b
			}
		case 2:
			p.Heartbeats = list
			p.Length += (n + 2) * h
		}
		for max(p.Length/b, p.Length/h) > 1500 { // keep the number of messages small
			p.Length /= 2
		}
	}
	if rapid.Bool().Draw(t, "traffic") {
		for i := rapid.IntRange(1, 5).Draw(t, "records"); i > 0; i-- {
			p.Records = append(p.Records, fake.Outcome{Kind: rapid.SampledFrom([]string{"fail", "stall"}).Draw(t, "rk")})
		}
		at := 0
		for i := rapid.SampledFrom([]int{1, 5, 20, 250}).Draw(t, "updates"); i > 0; i-- {
			p.Updates = append(p.Updates, at)
			at += rapid.IntRange(0, max(1, p.Length/300)).Draw(t, "gap")
		}
		at = 0
		for i := rapid.IntRange(0, 12).Draw(t, "flushes"); i > 0; i-- {
			p.Flushes = append(p.Flushes, at)
			at += rapid.IntRange(0, max(1, p.Length/6)).Draw(t, "gap")
		}
	}
	return p
}

func TestC16(t *testing.T) {
	vt.Check(t, vt.Spec[C16Plan]{
		ID:    "C16",
		Rule:  "a manager with arbitrary source details, intervals (also defaults and extreme ratios) and addresses, whose beacons and heartbeats are delivered, fail, take time or are stuck by plan (some again and again, up to 300 times), before and after the first delivery, with records that are stuck and flush requests aside; in virtual time; the content of every announcement and the gaps between them are checked; non-trivial: at least two beacons and two heartbeats after the first delivery",
		Gen:   genC16,
		Run:   bubbled(t, runC16),
		Quick: 12000, Thorough: 600000,
	})
}
