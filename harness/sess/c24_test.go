package sess

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"math/big"
	"net"
	"sync"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/session"
	"pgregory.net/rapid"

	"vanflowverif/peer"
	"vanflowverif/vt"
)

// FMsg is the shape of a message.
type FMsg struct {
	Kind    string `json:"kind,omitempty"` // data, multi, value, sequence, empty
	Size    int    `json:"size,omitempty"`
	Format  uint32 `json:"format,omitempty"`
	Subject vt.S   `json:"subject,omitempty"`
	To      vt.S   `json:"to,omitempty"`
	ID      uint64 `json:"id,omitempty"`
	App     vt.S   `json:"app,omitempty"`
	Ann     vt.S   `json:"ann,omitempty"`
	Footer  bool   `json:"footer,omitempty"`
	Header  bool   `json:"header,omitempty"`
	Bare    bool   `json:"bare,omitempty"`    // without properties
	Full    bool   `json:"full,omitempty"`    // with everything a message can have
	Settled bool   `json:"settled,omitempty"` // for deliveries
	Outcome string `json:"outcome,omitempty"` // for sends
	Accept  int    `json:"accept,omitempty"`  // receivers: 0 at once, n after n more, -1 never
}

func (f FMsg) build(id string) *amqp.Message {
	fill := bytes.Repeat([]byte{byte('a' + f.Size%26)}, f.Size)
	m := &amqp.Message{Format: f.Format}
	mark := []byte(id)
	switch f.Kind {
	case "multi":
		m.Data = [][]byte{mark, fill, {}, fill}
	case "value":
		m.Value = map[string]any{"vf": id + string(fill)}
	case "sequence":
		m.Sequence = [][]any{{id, int64(f.Size)}, {string(fill)}}
	default:
		m.Data = [][]byte{append(mark, fill...)}
	}
	if !f.Bare || f.Subject != "" || f.To != "" || f.ID != 0 {
		m.Properties = &amqp.MessageProperties{}
	}
	if !f.Bare {
		m.Properties.UserID = mark
	}
	if f.Subject != "" {
		s := string(f.Subject)
		m.Properties.Subject = &s
	}
	if f.To != "" {
		s := string(f.To)
		m.Properties.To = &s
	}
	if f.ID != 0 {
		m.Properties.MessageID = f.ID
	}
	if f.App != "" {
		m.ApplicationProperties = map[string]any{"k": string(f.App)}
	}
	if f.Ann != "" {
		m.Annotations = amqp.Annotations{"x-opt": string(f.Ann)}
	}
	if f.Footer {
		m.Footer = amqp.Annotations{"x-foot": int32(f.Size)}
	}
	if f.Header {
		m.Header = &amqp.MessageHeader{Durable: true, Priority: 7, TTL: 5 * time.Second}
	}
	if f.Full {
		if m.Properties == nil {
			m.Properties = &amqp.MessageProperties{}
		}
		s, when, seq := "é"+string(f.Subject), time.UnixMilli(int64(f.Size)*1000000007).UTC(), uint32(f.Size)
		m.Properties.ReplyTo, m.Properties.ContentType, m.Properties.ContentEncoding = &s, &s, &s
		m.Properties.GroupID, m.Properties.ReplyToGroupID, m.Properties.GroupSequence = &s, &s, &seq
		m.Properties.AbsoluteExpiryTime, m.Properties.CreationTime = &when, &when
		m.Properties.CorrelationID = amqp.UUID{1, 2, byte(f.Size)}
		// one entry each: maps are encoded in any order
		m.DeliveryAnnotations = amqp.Annotations{[]any{"x-d", int64(7)}[f.Size%2]: int64(f.Size)}
		m.ApplicationProperties = map[string]any{string(f.App): []any{[]byte(s), nil, int32(-f.Size), uint8(f.Size), 1.5, f.Footer, when, s}[f.Size%8]}
		m.Header = &amqp.MessageHeader{Priority: uint8(f.Size), DeliveryCount: uint32(f.Size), FirstAcquirer: f.Header}
	}
	return m
}

// idOf finds what the message was marked with.
func idOf(m *amqp.Message) string {
	switch {
	case m.Properties != nil && m.Properties.UserID != nil:
		return string(m.Properties.UserID)
	case len(m.Data) > 0:
		return string(m.Data[0])
	case len(m.Sequence) > 0 && len(m.Sequence[0]) > 0:
		return fmt.Sprint(m.Sequence[0][0])
	}
	if v, ok := m.Value.(map[string]any); ok {
		return fmt.Sprint(v["vf"])
	}
	return ""
}

func genFMsg(t *rapid.T, big bool) FMsg {
	f := FMsg{
		Kind:    rapid.SampledFrom([]string{"data", "data", "multi", "value", "sequence"}).Draw(t, "kind"),
		Format:  rapid.SampledFrom([]uint32{0, 0, 0, 1, 0xdeadbeef}).Draw(t, "format"),
		Subject: vt.S(rapid.SampledFrom([]string{"", "RECORD", "FLUSH", "é\x00x"}).Draw(t, "subject")),
		To:      vt.S(rapid.SampledFrom([]string{"", "mc/sfe.all"}).Draw(t, "to")),
		ID:      rapid.SampledFrom([]uint64{0, 1, 1 << 63}).Draw(t, "id"),
		App:     vt.S(rapid.SampledFrom([]string{"", "v1"}).Draw(t, "app")),
		Ann:     vt.S(rapid.SampledFrom([]string{"", "ann"}).Draw(t, "ann")),
		Footer:  rapid.Bool().Draw(t, "footer"),
		Header:  rapid.Bool().Draw(t, "header"),
		Bare:    rapid.IntRange(0, 2).Draw(t, "bare") == 1,
		Full:    rapid.IntRange(0, 5).Draw(t, "full") == 4,
	}
	if big {
		f.Size = rapid.SampledFrom([]int{0, 1, 100, 255, 256, 450, 1000, 5000, 65000, 66000, 200000}).Draw(t, "size")
	} else {
		f.Size = rapid.IntRange(0, 600).Draw(t, "size")
	}
	return f
}

// GLink is a link of a C24 plan.
type GLink struct {
	Sender  bool     `json:"sender,omitempty"`
	Addr    int      `json:"addr"`
	Workers int      `json:"workers"`
	Credit  int      `json:"credit,omitempty"`
	Msgs    [][]FMsg `json:"msgs"` // senders: per worker; receivers: one list
	Gap     []bool   `json:"-"`
}

// C24Plan is a plan of C24.
type C24Plan struct {
	Links      []GLink `json:"links"`
	Rejects    bool    `json:"rejects,omitempty"`
	PeerCredit uint32  `json:"peer_credit"`
	PeerFrame  uint32  `json:"peer_frame"`
	PeerWindow uint32  `json:"peer_window"`
	Frame      uint32  `json:"frame"`
	TLS        bool    `json:"tls,omitempty"`
	SASL       bool    `json:"sasl,omitempty"`
	Name       string  `json:"name"`
	Late       bool    `json:"late,omitempty"` // half of the deliveries come in while receiving
	Factory    bool    `json:"factory,omitempty"`
}

func genC24(t *rapid.T) C24Plan {
	p := C24Plan{
		PeerCredit: rapid.SampledFrom([]uint32{1, 2, 3, 100}).Draw(t, "peer_credit"),
		PeerFrame:  rapid.SampledFrom([]uint32{512, 700, 4096, 65536}).Draw(t, "peer_frame"),
		PeerWindow: rapid.SampledFrom([]uint32{1, 2, 7, 5000}).Draw(t, "peer_window"),
		Frame:      rapid.SampledFrom([]uint32{0, 513, 1000, 20000}).Draw(t, "frame"),
		TLS:        rapid.IntRange(0, 7).Draw(t, "tls") == 0,
		SASL:       rapid.IntRange(0, 7).Draw(t, "sasl") == 0,
		Name:       rapid.SampledFrom([]string{"", "verif", "a-b.c"}).Draw(t, "name"),
		Late:       rapid.Bool().Draw(t, "late"),
		Factory:    rapid.Bool().Draw(t, "factory"),
	}
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "links"); i < n; i++ {
		l := GLink{
			Sender: rapid.Bool().Draw(t, "sender"),
			Addr:   i,
		}
		if l.Sender {
			if rapid.IntRange(0, 3).Draw(t, "same") == 0 {
				l.Addr = 0
			}
			l.Workers = rapid.IntRange(1, 3).Draw(t, "workers")
			for w := 0; w < l.Workers; w++ {
				l.Msgs = append(l.Msgs, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FMsg { return genFMsg(t, true) }), 0, 4).Draw(t, "msgs"))
			}
		} else {
			l.Workers = rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "workers")
			l.Credit = rapid.SampledFrom([]int{-3, 0, 1, 2, 5, 30, 256}).Draw(t, "credit")
			msgs := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FMsg {
				m := genFMsg(t, rapid.IntRange(0, 9).Draw(t, "big") == 0)
				m.Settled = rapid.IntRange(0, 5).Draw(t, "settled") == 0
				m.Accept = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, -1}).Draw(t, "accept")
				return m
			}), 0, 12).Draw(t, "msgs")
			l.Msgs = [][]FMsg{msgs}
		}
		p.Links = append(p.Links, l)
	}
	return p
}

var tlsOnce = sync.OnceValues(func() (*tls.Config, *tls.Config) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		vt.Abort("key: %v", err)
	}
	ips := []net.IP{}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "peer"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), DNSNames: []string{"peer"}, IPAddresses: ips, IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		vt.Abort("certificate: %v", err)
	}
	cert, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(cert)
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}, &tls.Config{RootCAs: pool, ServerName: "peer"}
})

func runC24(c *vt.Case, plan C24Plan) error {
	opts := peer.Options{Credit: plan.PeerCredit, MaxFrame: plan.PeerFrame, Window: plan.PeerWindow, SASL: plan.SASL}
	cfg := session.ContainerConfig{ContainerID: plan.Name, MaxFrameSize: plan.Frame, BackOff: constant(0)}
	if plan.TLS {
		opts.TLS, cfg.TLSConfig = tlsOnce()
	}
	if plan.SASL {
		cfg.SASLType = session.SASLTypeExternal
	}
	p, err := peer.New(opts)
	if err != nil {
		vt.Abort("peer: %v", err)
	}
	defer p.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var cont session.Container
	if plan.Factory {
		cont = session.NewContainerFactory(p.URL(), cfg).Create()
	} else {
		cont = session.NewContainer(p.URL(), cfg)
	}
	cont.OnSessionError(func(err error) { _ = err })
	cont.Start(ctx)
	var errs errLog
	var wg sync.WaitGroup
	type sent struct {
		addr string
		raw  []byte
		fmt  uint32
		key  string // worker
	}
	var mu sync.Mutex
	var sends []sent
	type rcvd struct {
		n      int
		raw    []byte
		format uint32
		rcv    int
	}
	got := map[int][]rcvd{}
	total := 0
	accepts := map[int]map[int]bool{}
	enq := map[int][]int{}
	want := map[int][][]byte{}
	for li, l := range plan.Links {
		if l.Sender {
			s := cont.NewSender(addrName(l.Addr), session.SenderOptions{})
			for w := range l.Msgs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i, f := range l.Msgs[w] {
						m := f.build(fmt.Sprintf("%d.%d.%d.", li, w, i))
						raw := wire(m)
						if err := s.Send(ctx, m); err != nil {
							errs.add("sender %d: send of message %d.%d failed: %v", li, w, i, err)
							return
						}
						n := receivedOn(p, addrName(l.Addr), raw)
						if n != 1 {
							errs.add("sender %d: message %d.%d (%d bytes) was sent but the peer received it %d times on %s", li, w, i, len(raw), n, addrName(l.Addr))
						}
						mu.Lock()
						sends = append(sends, sent{addrName(l.Addr), raw, f.Format, fmt.Sprint(li, ".", w)})
						mu.Unlock()
					}
				}()
				total += len(l.Msgs[w])
			}
			continue
		}
		addr := "r" + addrName(li)
		r := cont.NewReceiver(addr, session.ReceiverOptions{Credit: l.Credit})
		mu.Lock()
		accepts[li] = map[int]bool{}
		mu.Unlock()
		put := func(f FMsg, i int) {
			raw := wire(f.build(fmt.Sprintf("%d.%d.", li, i)))
			n := p.EnqueueFormat(addr, raw, f.Format, f.Settled)
			mu.Lock()
			enq[li] = append(enq[li], n)
			want[li] = append(want[li], raw)
			mu.Unlock()
		}
		msgs := l.Msgs[0]
		total += len(msgs)
		half := len(msgs)
		if plan.Late {
			half /= 2
		}
		for i, f := range msgs[:half] {
			put(f, i)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, f := range msgs[half:] {
				put(f, half+i)
			}
		}()
		// what a worker keeps unaccepted must leave credit
		keep := max(l.Credit, 1) - 1
		if l.Credit <= 0 {
			keep = 0
		}
		next := 0
		var heldMu sync.Mutex
		held := 0
		for w := 0; w < l.Workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				type pend struct {
					m    *amqp.Message
					n, i int
				}
				var pending []pend
				accept := func(x pend) {
					if err := r.Accept(ctx, x.m); err != nil {
						errs.add("receiver %d: accept failed: %v", li, err)
					}
					mu.Lock()
					accepts[li][x.i] = true
					mu.Unlock()
				}
				flush := func(all bool) {
					// the youngest first, to accept out of order
					var rest []pend
					for k := len(pending) - 1; k >= 0; k-- {
						x := pending[k]
						x.n--
						if all || x.n <= 0 {
							heldMu.Lock()
							held--
							heldMu.Unlock()
							accept(x)
						} else {
							rest = append([]pend{x}, rest...)
						}
					}
					pending = rest
				}
				for {
					heldMu.Lock()
					if next == len(msgs) {
						heldMu.Unlock()
						flush(true)
						return
					}
					next++
					heldMu.Unlock()
					m, err := r.Next(ctx)
					if err != nil {
						errs.add("receiver %d: Next returned %v", li, err)
						return
					}
					format := m.Format
					raw := wire(m)
					var i int
					mu.Lock()
					if _, err := fmt.Sscanf(idOf(m), fmt.Sprint(li, ".%d."), &i); err != nil {
						errs.add("receiver %d: returned a message that was not sent to it", li)
						mu.Unlock()
						return
					}
					got[li] = append(got[li], rcvd{i, raw, format, w})
					mu.Unlock()
					a := msgs[i].Accept
					heldMu.Lock()
					if a != 0 && held >= keep {
						a = 0
					}
					if a != 0 {
						held++
					}
					heldMu.Unlock()
					flush(false)
					switch {
					case a == 0:
						accept(pend{m: m, i: i})
					case a > 0:
						pending = append(pending, pend{m, a, i})
					}
				}
			}()
		}
	}
	wg.Wait()
	if errs.err() != nil {
		return errs.err()
	}
	// accepts are sent without waiting for an answer
	settledAll := func() bool {
		for li := range accepts {
			n := 0
			for _, l := range p.Links() {
				if l.Receiver && l.Addr == "r"+addrName(li) {
					for _, d := range l.Delivered {
						if d.States > 0 {
							n++
						}
					}
				}
			}
			w := 0
			for i := range accepts[li] {
				if !plan.Links[li].Msgs[0][i].Settled {
					w++
				}
			}
			if n < w {
				return false
			}
		}
		return true
	}
	p.WaitFor(long, settledAll)
	p.Lock()
	defer p.Unlock()
	if len(p.Conns()) > 1 {
		return fmt.Errorf("the container made %d connections though nothing failed", len(p.Conns()))
	}
	for _, s := range p.Problems() {
		return fmt.Errorf("the peer saw a protocol violation: %s", s)
	}
	if total > 0 && len(p.Conns()) > 0 {
		conn := p.Conns()[0]
		if plan.Name != "" && conn.ContainerID != plan.Name {
			return fmt.Errorf("container id %q instead of %q", conn.ContainerID, plan.Name)
		}
		if plan.SASL && conn.SASL != "EXTERNAL" {
			return fmt.Errorf("SASL mechanism %q", conn.SASL)
		}
		if plan.Frame > 512 && conn.MaxFrame != plan.Frame {
			return fmt.Errorf("max frame size %d instead of %d", conn.MaxFrame, plan.Frame)
		}
	}
	// what the peer received is what was sent, in each worker's order
	if len(p.Received()) != len(sends) {
		return fmt.Errorf("%d messages were sent, the peer received %d", len(sends), len(p.Received()))
	}
	pos := map[string]int{}
	for i, r := range p.Received() {
		pos[r.Addr+"\x00"+string(r.Payload)] = i
	}
	last := map[string]int{}
	for _, s := range sends {
		i, ok := pos[s.addr+"\x00"+string(s.raw)]
		if !ok {
			return fmt.Errorf("a sent message was not received on %s", s.addr)
		}
		if p.Received()[i].Format != s.fmt {
			return fmt.Errorf("message format %d arrived as %d", s.fmt, p.Received()[i].Format)
		}
		if j, ok := last[s.key]; ok && j > i {
			return fmt.Errorf("messages sent one after the other arrived in another order")
		}
		last[s.key] = i
	}
	multi := false
	for li, l := range plan.Links {
		if l.Sender {
			continue
		}
		gs := got[li]
		if len(gs) != len(want[li]) {
			return fmt.Errorf("receiver %d returned %d messages, %d were delivered", li, len(gs), len(want[li]))
		}
		seen := map[int]bool{}
		for k, g := range gs {
			if seen[g.n] {
				return fmt.Errorf("receiver %d returned message %d twice", li, g.n)
			}
			seen[g.n] = true
			if !bytes.Equal(g.raw, want[li][g.n]) {
				return fmt.Errorf("receiver %d: message %d was altered", li, g.n)
			}
			if g.format != l.Msgs[0][g.n].Format {
				return fmt.Errorf("receiver %d: message %d has format %d instead of %d", li, g.n, g.format, l.Msgs[0][g.n].Format)
			}
			if l.Workers == 1 && g.n != k {
				return fmt.Errorf("receiver %d returned message %d as the %d-th", li, g.n, k)
			}
			if len(g.raw) > 5000 {
				multi = true
			}
		}
		byMsg := map[int]*peer.Delivery{}
		for _, pl := range p.Links() {
			if !pl.Receiver || pl.Addr != "r"+addrName(li) {
				continue
			}
			if l.Credit > 0 {
				if pl.Flows > 0 && pl.FirstCredit != uint32(l.Credit) {
					return fmt.Errorf("receiver %d asked for credit %d, the peer was granted %d", li, l.Credit, pl.FirstCredit)
				}
				if pl.MaxOutstanding > uint32(l.Credit) {
					return fmt.Errorf("receiver %d asked for credit %d, up to %d messages could be outstanding", li, l.Credit, pl.MaxOutstanding)
				}
			}
			for _, d := range pl.Delivered {
				byMsg[d.Msg.N] = d
			}
		}
		for i, n := range enq[li] {
			d := byMsg[n]
			if d == nil {
				return fmt.Errorf("receiver %d: message %d was returned but never delivered", li, i)
			}
			wantState, wantN := "", 0
			if accepts[li][i] && !l.Msgs[0][i].Settled {
				wantState, wantN = "accepted", 1
			}
			if d.State != wantState || d.States != wantN {
				return fmt.Errorf("receiver %d: delivery %d was settled %d times as %q, want %d times %q", li, i, d.States, d.State, wantN, wantState)
			}
			if wantN == 0 && !l.Msgs[0][i].Settled {
				c.Class("left unaccepted")
			}
		}
	}
	c.ClassIf(multi, "multi-frame delivery")
	c.ClassIf(len(sends) > 0, "sends")
	c.ClassIf(plan.TLS, "TLS")
	c.ClassIf(plan.SASL, "SASL")
	if total > 1 {
		c.NonTrivial()
	}
	return nil
}

func TestC24(t *testing.T) {
	vt.Check(t, vt.Spec[C24Plan]{
		ID:   "C24",
		Rule: "1 to 5 links (senders used by up to 3 goroutines, receivers by up to 2), messages of all body kinds and sizes up to 200 kB, any credit, frame sizes and windows, TLS and SASL, acceptances at once, later, out of order or never; no faults. Non-trivial: at least two messages.",
		Gen:  genC24, Run: runC24, Quick: 2400, Thorough: 60000, Trace: true,
	})
}

// C24RPlan is a plan of the part of C24 about what the peer makes of messages.
type C24RPlan struct {
	Msgs []FMsg `json:"msgs"`
	Addr int    `json:"addr"`
}

func runC24Outcomes(c *vt.Case, plan C24RPlan) error {
	p, err := peer.New(peer.Options{Outcome: func(addr string, n int) string { return plan.Msgs[n].Outcome }})
	if err != nil {
		vt.Abort("peer: %v", err)
	}
	defer p.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cont := newContainer(p, constant(0))
	cont.Start(ctx)
	s := cont.NewSender(addrName(plan.Addr), session.SenderOptions{})
	for i, f := range plan.Msgs {
		m := f.build(fmt.Sprint(i, "."))
		raw := wire(m)
		err := s.Send(ctx, m)
		if n := receivedOn(p, addrName(plan.Addr), raw); n != 1 {
			return fmt.Errorf("message %d was received %d times", i, n)
		}
		switch f.Outcome {
		case "accept":
			if err != nil {
				return fmt.Errorf("the peer accepted message %d, Send returned %v", i, err)
			}
		case "reject", "reject_plain":
			c.NonTrivial()
			if err == nil {
				return fmt.Errorf("the peer rejected message %d (%s), Send returned nil", i, f.Outcome)
			}
		}
		c.Class(f.Outcome)
	}
	return nil
}

func TestC24_outcomes(t *testing.T) {
	vt.Check(t, vt.Spec[C24RPlan]{
		ID:   "C24",
		Rule: "a sender's messages are accepted, rejected with or without an error, released or modified in drawn orders. Non-trivial: one is rejected.",
		Gen: func(t *rapid.T) C24RPlan {
			return C24RPlan{Addr: rapid.IntRange(0, 3).Draw(t, "addr"), Msgs: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FMsg {
				f := genFMsg(t, false)
				f.Outcome = rapid.SampledFrom([]string{"accept", "accept", "reject", "reject_plain", "release", "modify"}).Draw(t, "outcome")
				return f
			}), 1, 8).Draw(t, "msgs")}
		},
		Run: runC24Outcomes, Quick: 800, Thorough: 10000, Trace: true,
	})
}
