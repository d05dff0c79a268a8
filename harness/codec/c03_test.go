package codec

import (
	"errors"
	"fmt"
	"testing"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
	"pgregory.net/rapid"

	"vanflowverif/rec"
	"vanflowverif/vt"
)

var allCodes = func() (out []uint32) {
	for _, t := range rec.Types {
		out = append(out, t.Code)
	}
	return
}()

type planC03Attrs struct {
	Attrs  []KV `json:"attrs"`
	Nil    bool `json:"nil,omitempty"`
	Binary bool `json:"binary"`
}

// guard turns a panic of the code under test into an error that says so.
func guard(what string, f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s panicked: %v", what, r)
		}
	}()
	f()
	return nil
}

func checkDecodeAttrs(c *vt.Case, attrs map[any]any) error {
	want, emptyID, wantErr := refDecode(attrs)
	var out any
	var err error
	if e := guard("Decode", func() { out, err = encoding.Decode(attrs) }); e != nil {
		return fmt.Errorf("%w; attributes %#v", e, attrs)
	}
	if wantErr != nil {
		c.Class("must be refused")
		if err == nil {
			return fmt.Errorf("decoding %#v succeeded, must be refused: %v", attrs, wantErr)
		}
		return nil
	}
	if err != nil {
		if emptyID {
			return nil
		}
		return fmt.Errorf("decoding %#v: %v, expected %s", attrs, err, want.Canon())
	}
	c.Class("must be decoded")
	got, err := rec.From(out)
	if err != nil {
		return err
	}
	if d := rec.Diff(want, got); d != "" {
		return fmt.Errorf("decoding %#v: %s", attrs, d)
	}
	return nil
}

func TestC03_Attributes(t *testing.T) {
	vt.Check(t, vt.Spec[planC03Attrs]{
		ID:       "C03",
		Rule:     "attribute maps: a record's attributes with the type code, identity, values, key kinds altered and foreign entries added, any AMQP value kind, directly or after AMQP marshalling; an independent reference decoder decides; non-trivial: more than two entries",
		Quick:    80000,
		Thorough: 3000000,
		Gen: func(t *rapid.T) planC03Attrs {
			return planC03Attrs{
				Attrs:  genAttrs(allCodes).Draw(t, "attrs"),
				Nil:    rapid.IntRange(0, 200).Draw(t, "nil") == 0,
				Binary: rapid.Bool().Draw(t, "bin"),
			}
		},
		Run: func(c *vt.Case, p planC03Attrs) error {
			if p.Nil {
				c.Class("nil attribute set")
				return checkDecodeAttrs(c, nil)
			}
			attrs := AV{K: "map", M: p.Attrs}.Go().(map[any]any)
			if len(attrs) > 2 {
				c.NonTrivial()
			}
			if p.Binary {
				if out, err := overAMQP(attrs); err == nil { // not every Go map survives go-amqp
					attrs = out
					c.Class("through AMQP")
				}
			}
			return checkDecodeAttrs(c, attrs)
		},
	})
}

type planMsg struct {
	NoProps  bool   `json:"noprops,omitempty"`
	Subject  *vt.S  `json:"subject,omitempty"`
	To       *vt.S  `json:"to,omitempty"`
	ReplyTo  *vt.S  `json:"replyto,omitempty"`
	App      []KV   `json:"app,omitempty"`
	Body     string `json:"body"` // none, data, value, records
	Value    *AV    `json:"value,omitempty"`
	Records  [][]KV `json:"records,omitempty"`
	Junk     *AV    `json:"junk,omitempty"` // among the records
	JunkAt   int    `json:"junkat,omitempty"`
	Binary   bool   `json:"binary"`
	Mutation []int  `json:"mutation,omitempty"` // position, value pairs applied to the bytes
}

func (p planMsg) message() *amqp.Message {
	m := &amqp.Message{}
	if !p.NoProps {
		m.Properties = &amqp.MessageProperties{}
		set := func(dst **string, src *vt.S) {
			if src != nil {
				s := string(*src)
				*dst = &s
			}
		}
		set(&m.Properties.Subject, p.Subject)
		set(&m.Properties.To, p.To)
		set(&m.Properties.ReplyTo, p.ReplyTo)
	}
	for _, kv := range p.App {
		if m.ApplicationProperties == nil {
			m.ApplicationProperties = map[string]any{}
		}
		m.ApplicationProperties[string(kv.K.S)] = kv.V.Go()
	}
	switch p.Body {
	case "data":
		m.Data = [][]byte{[]byte("data")}
	case "value":
		if p.Value != nil {
			m.Value = p.Value.Go()
		}
	case "records":
		list := []any{}
		for i, r := range p.Records {
			if p.Junk != nil && i == p.JunkAt {
				list = append(list, p.Junk.Go())
			}
			list = append(list, AV{K: "map", M: r}.Go())
		}
		m.Value = list
	}
	return m
}

func genMsg(t *rapid.T) planMsg {
	var p planMsg
	p.NoProps = rapid.IntRange(0, 19).Draw(t, "np") == 0
	str := func(label string) *vt.S {
		if rapid.IntRange(0, 3).Draw(t, label+"k") == 0 {
			return nil
		}
		s := vt.S(rapid.SampledFrom([]string{"", "mc/sfe.all", "mc/sfe.x", "sfe.x", "ü"}).Draw(t, label))
		return &s
	}
	if rapid.IntRange(0, 19).Draw(t, "ns") > 0 {
		s := vt.S(rapid.SampledFrom([]string{"BEACON", "HEARTBEAT", "FLUSH", "RECORD", "RECORD", "RECORD", "", "beacon", "RECORDS", "RECORD "}).Draw(t, "subject"))
		p.Subject = &s
	}
	p.To, p.ReplyTo = str("to"), str("replyto")
	right := rapid.IntRange(0, 1).Draw(t, "right") == 0
	for _, k := range []string{"v", "sourceType", "address", "direct", "id", "now", "other"} {
		if rapid.IntRange(0, 3).Draw(t, "app") == 0 {
			continue
		}
		var v AV
		switch {
		case !right && rapid.Bool().Draw(t, "wrong"):
			v = genScalar(t)
		case k == "v":
			v = AV{K: "u32", U: uint64(rapid.Uint32().Draw(t, "v"))}
		case k == "now":
			v = AV{K: "u64", U: rapid.Uint64().Draw(t, "now")}
		default:
			v = AV{K: "str", S: vt.S(rapid.StringN(0, 5, -1).Draw(t, "s"))}
		}
		p.App = append(p.App, KV{AV{K: "str", S: vt.S(k)}, v})
	}
	p.Body = rapid.SampledFrom([]string{"none", "data", "value", "records", "records", "records", "records"}).Draw(t, "body")
	switch p.Body {
	case "value":
		v := genAV(2).Draw(t, "value")
		p.Value = &v
	case "records":
		codes := rec.RecordCodes
		if rapid.IntRange(0, 9).Draw(t, "allcodes") == 0 {
			codes = allCodes
		}
		clean := rapid.IntRange(0, 1).Draw(t, "clean") == 0
		n := rapid.IntRange(0, 4).Draw(t, "n")
		for i := 0; i < n; i++ {
			if clean {
				r := rec.Gen(rec.Opts{Types: codes, IDs: []string{"a", "b", "c"}, Small: true}).Draw(t, "r")
				attrs, _ := r.Attrs()
				p.Records = append(p.Records, kvs(attrs))
			} else {
				p.Records = append(p.Records, genAttrs(codes).Draw(t, "attrs"))
			}
		}
		if rapid.IntRange(0, 9).Draw(t, "junk") == 0 {
			v := genAV(1).Draw(t, "junkv")
			p.Junk, p.JunkAt = &v, rapid.IntRange(0, 4).Draw(t, "junkat")
		}
	}
	p.Binary = rapid.Bool().Draw(t, "bin")
	return p
}

// kvs writes a prescribed attribute map as plan data, in codepoint order.
func kvs(attrs map[any]any) (out []KV) {
	for code := uint32(0); code < 60; code++ {
		v, ok := attrs[code]
		if !ok {
			continue
		}
		k := AV{K: "u32", U: uint64(code)}
		switch x := v.(type) {
		case uint32:
			out = append(out, KV{k, AV{K: "u32", U: uint64(x)}})
		case uint64:
			out = append(out, KV{k, AV{K: "u64", U: x}})
		case string:
			out = append(out, KV{k, AV{K: "str", S: vt.S(x)}})
		}
	}
	return
}

func strOf(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

// checkMessage compares Decode with the reference on any message.
func checkMessage(c *vt.Case, m *amqp.Message) error {
	var out any
	var err error
	if e := guard("Decode", func() { out, err = vanflow.Decode(m) }); e != nil {
		return e
	}
	if m == nil || m.Properties == nil || m.Properties.Subject == nil {
		c.Class("no subject")
		if err == nil {
			return fmt.Errorf("message without subject decoded to %#v", out)
		}
		if m != nil {
			// the decoders of the single kinds take any message, too
			if e := guard("DecodeBeacon", func() { vanflow.DecodeBeacon(m) }); e != nil {
				return e
			}
			if e := guard("DecodeHeartbeat", func() { vanflow.DecodeHeartbeat(m) }); e != nil {
				return e
			}
			if e := guard("DecodeFlush", func() { vanflow.DecodeFlush(m) }); e != nil {
				return e
			}
			if e := guard("DecodeRecord", func() { vanflow.DecodeRecord(m) }); e != nil {
				return e
			}
		}
		return nil
	}
	app := m.ApplicationProperties
	wrongKind := false
	str := func(k string) string {
		v, present := app[k]
		s, ok := v.(string)
		wrongKind = wrongKind || present && !ok
		return s
	}
	u32 := func(k string) uint32 {
		v, present := app[k]
		u, ok := v.(uint32)
		wrongKind = wrongKind || present && !ok
		return u
	}
	u64 := func(k string) uint64 {
		v, present := app[k]
		u, ok := v.(uint64)
		wrongKind = wrongKind || present && !ok
		return u
	}
	to, subject, replyTo := strOf(m.Properties.To), *m.Properties.Subject, strOf(m.Properties.ReplyTo)
	c.Class("subject " + subject)
	c.NonTrivial()
	fail := func(want any) error {
		if err != nil && wrongKind {
			return nil
		}
		return fmt.Errorf("decoded to %#v (error %v), want %#v", out, err, want)
	}
	switch subject {
	case "BEACON":
		want := vanflow.BeaconMessage{Version: u32("v"), SourceType: str("sourceType"), Address: str("address"), Direct: str("direct"), Identity: str("id")}
		got, ok := out.(vanflow.BeaconMessage)
		want.MessageProps = vanflow.MessageProps{To: to, Subject: subject, ReplyTo: replyTo}
		if !ok || err != nil || got != want {
			return fail(want)
		}
	case "HEARTBEAT":
		want := vanflow.HeartbeatMessage{Version: u32("v"), Now: u64("now"), Identity: str("id")}
		want.MessageProps = vanflow.MessageProps{To: to, Subject: subject}
		got, ok := out.(vanflow.HeartbeatMessage)
		got.ReplyTo = ""
		if !ok || err != nil || got != want {
			return fail(want)
		}
	case "FLUSH":
		want := vanflow.FlushMessage{MessageProps: vanflow.MessageProps{To: to, Subject: subject, ReplyTo: replyTo}}
		got, ok := out.(vanflow.FlushMessage)
		if !ok || err != nil || got != want {
			return fail(want)
		}
	case "RECORD":
		var want []rec.Rec
		wantErr := error(nil)
		open := false
		list, ok := m.Value.([]any)
		if !ok {
			wantErr = fmt.Errorf("value is a %T", m.Value)
		}
		for i, v := range list {
			attrs, ok := v.(map[any]any)
			if !ok {
				wantErr = fmt.Errorf("element %d is a %T", i, v)
				break
			}
			r, emptyID, e := refDecode(attrs)
			if e == nil && !rec.TypeOf(r.Type).Record {
				e = errors.New("type cannot be carried in messages")
			}
			if e != nil {
				wantErr = fmt.Errorf("record %d: %v", i, e)
				break
			}
			open = open || emptyID
			want = append(want, r)
		}
		if wantErr != nil {
			c.Class("record message to be refused")
			if err == nil {
				return fmt.Errorf("record message decoded to %#v, must be refused: %v", out, wantErr)
			}
			return nil
		}
		if err != nil {
			if open {
				return nil
			}
			return fmt.Errorf("record message refused: %v", err)
		}
		got, ok := out.(vanflow.RecordMessage)
		if !ok {
			return fmt.Errorf("record message decoded to %T", out)
		}
		if got.To != to || got.Subject != subject {
			return fmt.Errorf("record message properties %#v, want to %q", got.MessageProps, to)
		}
		if len(got.Records) != len(want) {
			return fmt.Errorf("record message with %d records decoded to %d", len(want), len(got.Records))
		}
		c.ClassIf(len(want) > 1, "several records decoded")
		for i := range want {
			g, err := rec.From(got.Records[i])
			if err != nil {
				return err
			}
			if d := rec.Diff(want[i], g); d != "" {
				return fmt.Errorf("record %d: %s", i, d)
			}
			if tm := got.Records[i].GetTypeMeta(); tm != rec.TypeOf(want[i].Type).Meta() {
				return fmt.Errorf("record %d has type meta %v", i, tm)
			}
		}
	default:
		if err == nil {
			return fmt.Errorf("message with unknown subject %q decoded to %#v", subject, out)
		}
	}
	return nil
}

func TestC03_Messages(t *testing.T) {
	vt.Check(t, vt.Spec[planMsg]{
		ID:       "C03",
		Rule:     "messages with or without properties and subject, application properties and body of any kind, record lists of clean or altered attribute maps with foreign elements, directly or after AMQP marshalling; reference decoder decides; non-trivial: a subject is present",
		Quick:    60000,
		Thorough: 2000000,
		Gen:      genMsg,
		Run: func(c *vt.Case, p planMsg) error {
			m := p.message()
			if p.Binary {
				if out, err := throughAMQP(m); err == nil {
					m = out
					c.Class("through AMQP")
				}
			}
			if p.NoProps && p.Body == "none" {
				if err := checkMessage(c, nil); err != nil {
					return err
				}
			}
			return checkMessage(c, m)
		},
	})
}

func TestC03_Bytes(t *testing.T) {
	vt.Check(t, vt.Spec[planMsg]{
		ID:       "C03",
		Rule:     "AMQP bytes of a generated message with up to six bytes overwritten, inserted or deleted, parsed by go-amqp; reference decoder decides on what was parsed; non-trivial: it parsed and has a subject",
		Quick:    80000,
		Thorough: 4000000,
		Gen: func(t *rapid.T) planMsg {
			p := genMsg(t)
			for i := rapid.IntRange(1, 6).Draw(t, "muts"); i > 0; i-- {
				p.Mutation = append(p.Mutation, rapid.IntRange(0, 2).Draw(t, "op"), rapid.IntRange(0, 600).Draw(t, "pos"),
					rapid.OneOf(rapid.SampledFrom([]int{0x40, 0x41, 0x43, 0x44, 0x45, 0x50, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x70, 0x80, 0x81, 0x83, 0xa0, 0xa1, 0xa3, 0xb1, 0xc0, 0xc1, 0xd1, 0xe0, 0, 1, 2, 255}), rapid.IntRange(0, 255)).Draw(t, "val"))
			}
			return p
		},
		Run: func(c *vt.Case, p planMsg) error {
			var data []byte
			if e := guard("marshal", func() { data, _ = p.message().MarshalBinary() }); e != nil || len(data) == 0 {
				c.Class("not marshalled")
				return nil // go-amqp's limits, not ours
			}
			for i := 0; i+2 < len(p.Mutation); i += 3 {
				pos, val := p.Mutation[i+1]%len(data), byte(p.Mutation[i+2])
				switch p.Mutation[i] {
				case 0:
					data[pos] = val
				case 1:
					data = append(data[:pos:pos], append([]byte{val}, data[pos:]...)...)
				case 2:
					if len(data) > 1 {
						data = append(data[:pos:pos], data[pos+1:]...)
					}
				}
			}
			var m amqp.Message
			var err error
			if e := guard("unmarshal", func() { err = m.UnmarshalBinary(data) }); e != nil || err != nil {
				c.Class("not parsed")
				return nil
			}
			return checkMessage(c, &m)
		},
	})
}
