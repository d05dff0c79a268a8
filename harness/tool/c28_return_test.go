package tool

import (
	"fmt"
	"maps"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"pgregory.net/rapid"

	"vanflowverif/rec"
	"vanflowverif/vt"
)

// RSrc is a source that stays, or falls silent and comes back.
type RSrc struct {
	TSrc
	Stays bool `json:"stays,omitempty"`
	// Back is what it is when it comes back.
	Back    TSrc `json:"back"`
	Beacons int  `json:"beacons"` // how often it announces itself at first
}

// ReturnPlan is a plan of the part of C28 about sources that come and go.
type ReturnPlan struct {
	Flows   bool     `json:"flows"`
	Sources []RSrc   `json:"sources"`
	Beats   int      `json:"beats"`         // ms between the heartbeats of those that stay
	Drop    bool     `json:"drop"`          // connections are lost while sources are silent
	Kinds   []uint32 `json:"kinds"`         // types of the records sent
	Log     bool     `json:"log,omitempty"` // the tool is the logger, not the collector
}

func genReturn(t *rapid.T) ReturnPlan {
	p := ReturnPlan{Flows: rapid.Bool().Draw(t, "flows"), Beats: rapid.SampledFrom([]int{500, 3000, 8000}).Draw(t, "beats"), Drop: rapid.IntRange(0, 2).Draw(t, "drop") == 0}
	for i, n := 0, rapid.IntRange(2, 6).Draw(t, "sources"); i < n; i++ {
		s := RSrc{TSrc: genSource(t, i), Stays: i > 0 && rapid.Bool().Draw(t, "stays"), Beacons: rapid.IntRange(1, 3).Draw(t, "beacons")}
		s.Rejects, s.Silent = 0, false
		s.Back = s.TSrc
		if rapid.Bool().Draw(t, "changed") {
			s.Back = genSource(t, i)
			s.Back.ID, s.Back.Rejects, s.Back.Silent = s.ID, 0, false
		}
		p.Sources = append(p.Sources, s)
		p.Kinds = append(p.Kinds, rapid.SampledFrom([]uint32{0, 1, 6}).Draw(t, "record"))
	}
	return p
}

func runReturn(c *vt.Case, p ReturnPlan) error {
	defer exclusive()()
	b := newBroker()
	defer b.Close()
	var tool *proc
	printed := &out{hold: make(chan struct{})}
	close(printed.hold)
	if p.Log {
		tool = &proc{cmd: exec.Command(filepath.Join(os.Getenv("VERIF_BIN"), "vanflow-tool"), append(flags(p.Flows, true), "-server="+b.URL(), "-flush-on-discover", "log")...), done: make(chan struct{})}
		tool.cmd.Stdout, tool.cmd.Stderr = printed, tool
		tool.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := tool.cmd.Start(); err != nil {
			vt.Abort("starting the tool: %v", err)
		}
		go func() {
			tool.cmd.Wait()
			close(tool.done)
		}()
	} else {
		var err error
		if tool, err = start(9090, append(flags(p.Flows, true), "-server="+b.URL(), "serve")...); err != nil {
			return err
		}
	}
	defer tool.stop()
	ps := []*proc{tool}
	lines := map[string]int{}
	if err := until(30, ps, func() error {
		if !b.receiving("mc/sfe.all") {
			return fmt.Errorf("the collector does not listen for beacons")
		}
		return nil
	}); err != nil {
		return err
	}
	announce := func(s TSrc) error {
		bm := vanflow.BeaconMessage{Version: s.Version, SourceType: s.Type, Address: s.Addr, Direct: s.Direct, Identity: s.ID}
		_, err := b.deliver("mc/sfe.all", wire(bm.Encode()), ps)
		return err
	}
	listening := func(s TSrc) error {
		for i, a := range addrs(s) {
			if (i == 0 || i == 1 && p.Flows || i == 2) && !b.receiving(a) {
				return fmt.Errorf("the collector does not listen to %q of source %q", a, s.ID)
			}
		}
		return nil
	}
	types := served(p.Flows, true)
	want := map[key]entry{}
	collects := func(s TSrc, i, gen int) error {
		r := rec.Rec{Type: p.Kinds[i], ID: vt.S(fmt.Sprintf("%d-%d", i, gen)), A: map[string]rec.Val{"StartTime": rec.VT(1700000000000000 + int64(gen))}}
		there, err := b.deliver(s.Addr, recordMsg([]rec.Rec{r}), ps)
		if err != nil {
			return err
		}
		if !there {
			return fmt.Errorf("the collector does not listen to source %q", s.ID)
		}
		line := fmt.Sprintf("to=%q subject=%q %s", "", "RECORD", r.Normal().Canon())
		lines[line]++
		if types[r.Type] {
			want[key{r.Type, r.ID}] = entry{s.ID, r.Normal()}
		}
		return nil
	}
	flushed := func(from, n int, s TSrc) error {
		ms, err := b.sentTo(from, s.Direct)
		if err != nil {
			return err
		}
		got := 0
		for _, m := range ms {
			if _, ok := m.(vanflow.FlushMessage); ok {
				got++
			}
		}
		if got < n {
			return fmt.Errorf("source %q was not asked for its records", s.ID)
		}
		return nil
	}
	known := func() ([]string, error) {
		status, body, err := tool.get("/sources/")
		if err != nil || status != 200 {
			return nil, fmt.Errorf("listing of sources: status %d, %v", status, err)
		}
		js, _, err := parseListing(body)
		if err != nil {
			return nil, fmt.Errorf("sources: %w", err)
		}
		var out []string
		for _, j := range js {
			out = append(out, fmt.Sprintf("%q %q %q", j.Meta.Source.Name, j.Meta.Source.Type, j.Meta.Source.APIVersion))
		}
		sort.Strings(out)
		return out, nil
	}
	listed := func(ss ...TSrc) error {
		if p.Log {
			return nil
		}
		var should []string
		for _, s := range ss {
			should = append(should, fmt.Sprintf("%q %q \"%d\"", s.ID, s.Type, s.Version))
		}
		sort.Strings(should)
		have, err := known()
		if err != nil {
			return err
		}
		if strings.Join(have, "\n") != strings.Join(should, "\n") {
			return fmt.Errorf("sources: got %v, want %v", have, should)
		}
		return nil
	}
	var all, stay, gone []TSrc
	for _, s := range p.Sources {
		for i := 0; i < s.Beacons; i++ {
			if err := announce(s.TSrc); err != nil {
				return err
			}
		}
		all = append(all, s.TSrc)
		if s.Stays {
			stay = append(stay, s.TSrc)
		} else {
			gone = append(gone, s.TSrc)
		}
	}
	// those that stay are heard from all the time, unless the machine is too slow
	alive := func() error {
		for _, s := range stay {
			if err := listening(s); err != nil {
				return err
			}
			h := vanflow.HeartbeatMessage{Identity: s.ID, Version: s.Version, Now: 1}
			if there, err := b.deliver(s.Addr, wire(h.Encode()), ps); err != nil || !there {
				return fmt.Errorf("a heartbeat of source %q was not received: %v", s.ID, err)
			}
		}
		return nil
	}
	for i, s := range p.Sources {
		if err := until(30, ps, func() error { return listening(s.TSrc) }); err != nil {
			return err
		}
		if err := collects(s.TSrc, i, 0); err != nil {
			return err
		}
	}
	for _, s := range all {
		if err := until(30, ps, func() error { return flushed(0, 1, s) }); err != nil {
			return err
		}
	}
	last, gap := time.Now(), time.Duration(0)
	beat := func() error {
		gap = max(gap, time.Since(last))
		last = time.Now()
		if err := alive(); err != nil && gap < 15*time.Second {
			return err
		}
		return nil
	}
	dropped := !p.Drop
	began := time.Now()
	if err := until(60, ps, func() error {
		if !dropped && time.Since(began) > 5*time.Second {
			dropped = true
			c.Class("connections lost")
			b.Lock()
			old := len(b.Conns())
			b.Unlock()
			b.Drop()
			if err := until(40, ps, func() error {
				b.Lock()
				for _, x := range b.Conns()[:old] {
					if x.Open {
						b.Unlock()
						return fmt.Errorf("still connected")
					}
				}
				b.Unlock()
				if !b.receiving("mc/sfe.all") {
					return fmt.Errorf("the collector does not listen for beacons again")
				}
				for _, s := range stay {
					if err := listening(s); err != nil {
						return err
					}
				}
				return nil
			}); err != nil {
				return err
			}
		}
		if time.Since(last) > time.Duration(p.Beats)*time.Millisecond {
			if err := beat(); err != nil {
				return err
			}
		}
		time.Sleep(100 * time.Millisecond)
		for _, s := range gone {
			for _, a := range addrs(s) {
				if b.receiving(a) {
					return fmt.Errorf("the collector still listens to %q, though source %q is silent", a, s.ID)
				}
			}
		}
		if gap > 15*time.Second {
			return nil
		}
		// not only not yet connected again
		if p.Drop && time.Since(began) < 33*time.Second {
			return fmt.Errorf("too early to tell whether sources were forgotten")
		}
		b.Lock()
		open := b.OpenConns()
		b.Unlock()
		if open > 1+len(stay) {
			return fmt.Errorf("the tool keeps %d connections, with %d sources left", open, len(stay))
		}
		return listed(stay...)
	}); err != nil {
		return err
	}
	if err := beat(); err != nil {
		return err
	}
	if gap > 15*time.Second {
		c.Class("slow machine")
		return nil
	}
	c.NonTrivial()
	c.ClassIf(len(stay) > 0, "some stayed")
	from := b.mark()
	var now []TSrc
	for i, s := range p.Sources {
		if s.Stays {
			now = append(now, s.TSrc)
			if err := collects(s.TSrc, i, 1); err != nil {
				return err
			}
			continue
		}
		now = append(now, s.Back)
		if err := announce(s.Back); err != nil {
			return err
		}
		c.ClassIf(s.Back.Addr != s.Addr, "back with another address")
	}
	for i, s := range p.Sources {
		if s.Stays {
			continue
		}
		if err := until(40, ps, func() error { return listening(s.Back) }); err != nil {
			return fmt.Errorf("back again: %w", err)
		}
		if err := collects(s.Back, i, 1); err != nil {
			return fmt.Errorf("back again: %w", err)
		}
		if err := until(40, ps, func() error { return flushed(from, 1, s.Back) }); err != nil {
			return fmt.Errorf("back again: %w", err)
		}
	}
	if err := until(20, ps, func() error {
		if p.Log {
			got, err := printed.lines()
			if err != nil {
				return err
			}
			left := maps.Clone(lines)
			for _, l := range got {
				if left[l]--; left[l] < 0 {
					return fmt.Errorf("printed, though it was not sent, or not that often: %s", l)
				}
			}
			for l, n := range left {
				if n > 0 {
					return fmt.Errorf("not printed: %s", l)
				}
			}
			return nil
		}
		code, body, err := tool.get("/")
		if err != nil || code != 200 {
			return fmt.Errorf("listing: status %d, %v", code, err)
		}
		_, got, err := parseListing(body)
		if err != nil {
			return err
		}
		return compare("listing", want, got)
	}); err != nil {
		return err
	}
	if gap = max(gap, time.Since(last)); gap < 15*time.Second {
		if err := listed(now...); err != nil {
			return err
		}
	}
	if !p.Log {
		if err := tool.health("after sources came back"); err != nil {
			return err
		}
	}
	return tool.interrupt()
}

func TestC28_return(t *testing.T) {
	vt.Check(t, vt.Spec[ReturnPlan]{
		ID:   "C28",
		Rule: "two to six simulated sources of a running collector, of which some fall silent until it has forgotten them, while others go on, and then come back, some with other addresses; non-trivial: the collector was seen to forget the silent ones, and no others",
		Gen:  genReturn, Run: runReturn, Quick: 24, Thorough: 240, NoShrink: true, HangTicks: 600000, Trace: true,
	})
}

func TestC32_return(t *testing.T) {
	vt.Check(t, vt.Spec[ReturnPlan]{
		ID:   "C32",
		Rule: "as TestC28_return, for the logger, which has to print what the sources send before and after; non-trivial: the logger was seen to forget the silent ones, and no others",
		Gen: func(t *rapid.T) ReturnPlan {
			p := genReturn(t)
			p.Log = true
			return p
		}, Run: runReturn, Quick: 24, Thorough: 240, NoShrink: true, HangTicks: 600000, Trace: true,
	})
}
