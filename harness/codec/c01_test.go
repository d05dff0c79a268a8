package codec

import (
	"fmt"
	"reflect"
	"testing"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow/encoding"
	"pgregory.net/rapid"

	"vanflowverif/rec"
	"vanflowverif/vt"
)

type planC01 struct {
	R       rec.Rec `json:"r"`
	Pointer bool    `json:"pointer"`
	Binary  bool    `json:"binary"`
}

func overAMQP(m map[any]any) (map[any]any, error) {
	out, err := throughAMQP(&amqp.Message{Value: m})
	if err != nil {
		return nil, err
	}
	res, ok := out.Value.(map[any]any)
	if !ok {
		return nil, fmt.Errorf("value decoded as %T", out.Value)
	}
	return res, nil
}

func throughAMQP(m *amqp.Message) (*amqp.Message, error) {
	data, err := m.MarshalBinary()
	if err != nil {
		return nil, fmt.Errorf("marshal: %w", err)
	}
	var out amqp.Message
	if err := out.UnmarshalBinary(data); err != nil {
		return nil, fmt.Errorf("unmarshal: %w", err)
	}
	return &out, nil
}

func copyMap(m map[any]any) map[any]any {
	c := make(map[any]any, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func TestC01(t *testing.T) {
	vt.Check(t, vt.Spec[planC01]{
		ID:       "C01",
		Rule:     "a record type and a value or absence for each of its attributes are drawn (zero, extreme, long, non-ASCII values, zero and pre-epoch times, sub-microsecond times, zones), passed by pointer or value, decoded directly or after AMQP marshalling; non-trivial: at least two attributes set, or the record must be refused",
		Quick:    60000,
		Thorough: 2000000,
		Gen: func(t *rapid.T) planC01 {
			return planC01{
				R:       rec.Gen(rec.Opts{PastTime: true, ZeroTime: true, BadUTF8: true}).Draw(t, "r"),
				Pointer: rapid.Bool().Draw(t, "ptr"),
				Binary:  rapid.Bool().Draw(t, "bin"),
			}
		},
		Run: runC01,
	})
}

func runC01(c *vt.Case, p planC01) error {
	want, ok := p.R.Attrs()
	_ = want
	if len(p.R.A) >= 2 || !ok {
		c.NonTrivial()
	}
	c.Class(rec.TypeOf(p.R.Type).Name)
	var in any
	if p.Pointer {
		in = p.R.Build()
	} else {
		in = p.R.Value()
	}
	attrs, err := encoding.Encode(in)
	after, ferr := rec.From(in)
	if ferr != nil {
		return ferr
	}
	if d := rec.Diff(p.R, after); d != "" {
		return fmt.Errorf("encoding altered the record: %s", d)
	}
	if !ok {
		c.Class("refused")
		if err == nil {
			return fmt.Errorf("record with empty identity or pre-epoch time was encoded: %v", attrs)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("encode: %v", err)
	}
	for _, v := range p.R.A {
		c.ClassIf(v.S != nil && *v.S == "" || v.U != nil && *v.U == 0, "zero value behind pointer")
		c.ClassIf(v.Zero, "zero time")
		c.ClassIf(v.N != 0, "sub-microsecond time")
	}
	if p.Binary && p.R.ValidUTF8() {
		c.Class("through AMQP")
		attrs, err = overAMQP(attrs)
		if err != nil {
			return err
		}
	}
	before := copyMap(attrs)
	out, err := encoding.Decode(attrs)
	if err != nil {
		return fmt.Errorf("decode: %v", err)
	}
	if !reflect.DeepEqual(before, attrs) {
		return fmt.Errorf("decoding altered the attribute set: %v -> %v", before, attrs)
	}
	got, err := rec.From(out)
	if err != nil {
		return err
	}
	if d := rec.Diff(p.R.Normal(), got); d != "" {
		return fmt.Errorf("round trip: %s", d)
	}
	if id, ok := out.(interface{ Identity() string }); !ok || id.Identity() != string(p.R.ID) {
		return fmt.Errorf("Identity() of decoded record is not %q", p.R.ID)
	}
	// decoding must give a record of its own: encoding it again gives the same set
	again, err := encoding.Encode(out)
	if err != nil || !reflect.DeepEqual(again, before) {
		return fmt.Errorf("second encoding differs: %v (%v), first %v", again, err, before)
	}
	return nil
}
