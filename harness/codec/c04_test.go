package codec

import (
	"fmt"
	"testing"
	"unicode/utf8"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"pgregory.net/rapid"

	"vanflowverif/rec"
	"vanflowverif/vt"
)

type planC04 struct {
	Kind    string    `json:"kind"`
	S       []vt.S    `json:"s"` // to, subject, reply-to, type, address, direct, id
	V       uint32    `json:"v"`
	Now     uint64    `json:"now"`
	Records []rec.Rec `json:"records,omitempty"`
	Repeat  int       `json:"repeat,omitempty"` // the records that many times
	ByValue bool      `json:"byvalue"`
	Bad     string    `json:"bad,omitempty"` // an unencodable record: nil, nilptr, unregistered
	BadAt   int       `json:"badat,omitempty"`
	Binary  bool      `json:"binary"`
}

type unregistered struct{ vanflow.BaseRecord }

func (unregistered) GetTypeMeta() vanflow.TypeMeta { return vanflow.TypeMeta{Type: "unregistered"} }

func TestC04(t *testing.T) {
	vt.Check(t, vt.Spec[planC04]{
		ID:       "C04",
		Rule:     "messages of the four kinds with arbitrary field values (fields the kind overrides included) and up to 40 records, some of which may be unencodable, directly or after AMQP marshalling; non-trivial: not a record message, or at least two records",
		Quick:    60000,
		Thorough: 1500000,
		Gen: func(t *rapid.T) planC04 {
			p := planC04{Kind: rapid.SampledFrom([]string{"beacon", "heartbeat", "flush", "record", "record", "record"}).Draw(t, "kind")}
			for i := 0; i < 7; i++ {
				p.S = append(p.S, vt.S(rec.GenString(rec.Opts{BadUTF8: true}).Draw(t, "s")))
			}
			p.V, p.Now = rapid.Uint32().Draw(t, "v"), rapid.Uint64().Draw(t, "now")
			if p.Kind == "record" {
				o := rec.Opts{Types: msgCodes, IDs: []string{"a", "b", "c", "d"}}
				if rapid.IntRange(0, 9).Draw(t, "wild") == 0 {
					o = rec.Opts{Types: msgCodes, PastTime: true, ZeroTime: true, BadUTF8: true}
				}
				max := rapid.SampledFrom([]int{0, 1, 3, 3, 8, 40}).Draw(t, "max")
				p.Records = rapid.SliceOfN(rec.Gen(o), 0, max).Draw(t, "records")
				if rapid.IntRange(0, 79).Draw(t, "repeatk") == 0 {
					p.Repeat = rapid.SampledFrom([]int{10, 30, 130, 300}).Draw(t, "repeat")
				}
				if rapid.IntRange(0, 9).Draw(t, "badk") == 0 {
					p.Bad = rapid.SampledFrom([]string{"nil", "nilptr", "unregistered"}).Draw(t, "bad")
					p.BadAt = rapid.IntRange(0, len(p.Records)).Draw(t, "badat")
				}
			}
			p.ByValue, p.Binary = rapid.Bool().Draw(t, "byvalue"), rapid.Bool().Draw(t, "bin")
			return p
		},
		Run: runC04,
	})
}

func runC04(c *vt.Case, p planC04) error {
	c.Class(p.Kind)
	for base, k := p.Records, 1; k < p.Repeat; k++ {
		for _, r := range base {
			r = r.Clone()
			r.ID += vt.S(fmt.Sprint("#", k))
			p.Records = append(p.Records, r)
		}
	}
	c.ClassIf(len(p.Records) > 255, "more than 255 records")
	if p.Kind != "record" || len(p.Records) >= 2 {
		c.NonTrivial()
	}
	valid := true
	s := make([]string, len(p.S))
	for i := range p.S {
		s[i] = string(p.S[i])
		valid = valid && utf8.ValidString(s[i])
	}
	props := vanflow.MessageProps{To: s[0], Subject: s[1], ReplyTo: s[2]}
	var (
		msg     *amqp.Message
		want    any
		to      string
		subject string
	)
	switch p.Kind {
	case "beacon":
		b := vanflow.BeaconMessage{MessageProps: props, Version: p.V, SourceType: s[3], Address: s[4], Direct: s[5], Identity: s[6]}
		msg, to, subject = b.Encode(), "mc/sfe.all", "BEACON"
		b.MessageProps = vanflow.MessageProps{To: to, Subject: subject}
		want = b
	case "heartbeat":
		h := vanflow.HeartbeatMessage{MessageProps: props, Version: p.V, Now: p.Now, Identity: s[6]}
		msg, to, subject = h.Encode(), "mc/sfe."+s[6], "HEARTBEAT"
		h.MessageProps = vanflow.MessageProps{To: to, Subject: subject}
		want = h
	case "flush":
		f := vanflow.FlushMessage{MessageProps: props}
		msg, to, subject = f.Encode(), s[0], "FLUSH"
		f.Subject = subject
		want = f
	case "record":
		r := vanflow.RecordMessage{MessageProps: props}
		refused := p.Bad != ""
		add := func(i int) {
			if p.Bad != "" && i == p.BadAt {
				switch p.Bad {
				case "nil":
					r.Records = append(r.Records, nil)
				case "nilptr":
					r.Records = append(r.Records, (*vanflow.SiteRecord)(nil))
				default:
					r.Records = append(r.Records, unregistered{vanflow.NewBase("x")})
				}
			}
		}
		for i, m := range p.Records {
			add(i)
			r.Records = append(r.Records, m.Record(p.ByValue))
			if _, ok := m.Attrs(); !ok {
				refused = true
			}
			valid = valid && m.ValidUTF8()
		}
		add(len(p.Records))
		var err error
		if e := guard("Encode", func() { msg, err = r.Encode() }); e != nil {
			return e
		}
		if refused {
			c.Class("refused")
			if err == nil {
				return fmt.Errorf("record message with an unencodable record was encoded")
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("record message: %v", err)
		}
		to, subject = s[0], "RECORD"
	}
	if msg.Properties == nil || msg.Properties.To == nil || *msg.Properties.To != to {
		return fmt.Errorf("%s message is not addressed to %q: %+v", p.Kind, to, msg.Properties)
	}
	if msg.Properties.Subject == nil || *msg.Properties.Subject != subject {
		return fmt.Errorf("%s message has another subject than %q: %+v", p.Kind, subject, msg.Properties)
	}
	if p.Binary && valid {
		c.Class("through AMQP")
		var err error
		if msg, err = throughAMQP(msg); err != nil {
			return err
		}
	}
	out, err := vanflow.Decode(msg)
	if err != nil {
		return fmt.Errorf("decode %s: %v", p.Kind, err)
	}
	if p.Kind != "record" {
		if out != want {
			return fmt.Errorf("round trip: got %#v, want %#v", out, want)
		}
		return nil
	}
	got, ok := out.(vanflow.RecordMessage)
	if !ok {
		return fmt.Errorf("record message decoded to %T", out)
	}
	if got.To != to || got.Subject != subject {
		return fmt.Errorf("record message properties %#v", got.MessageProps)
	}
	if len(got.Records) != len(p.Records) {
		return fmt.Errorf("%d records became %d", len(p.Records), len(got.Records))
	}
	for i, w := range p.Records {
		g, err := rec.From(got.Records[i])
		if err != nil {
			return err
		}
		if d := rec.Diff(w.Normal(), g); d != "" {
			return fmt.Errorf("record %d: %s", i, d)
		}
	}
	return nil
}

var msgCodes = append(append([]uint32{}, rec.RecordCodes...), rec.CustomCode)
