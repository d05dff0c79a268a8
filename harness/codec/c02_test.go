package codec

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/c-kruse/vanflow/encoding"
	"pgregory.net/rapid"

	"vanflowverif/rec"
	"vanflowverif/vt"
)

type planC02 struct {
	R      rec.Rec `json:"r"`
	Binary bool    `json:"binary"`
}

func genC02(o rec.Opts) func(t *rapid.T) planC02 {
	return func(t *rapid.T) planC02 {
		return planC02{R: rec.Gen(o).Draw(t, "r"), Binary: rapid.Bool().Draw(t, "bin")}
	}
}

func TestC02_Encode(t *testing.T) {
	vt.Check(t, vt.Spec[planC02]{
		ID:       "C02",
		Rule:     "a record as in C01; its encoding is compared, keys and value types included, with the map a hand-written table of the protocol's codepoints prescribes; non-trivial: at least two attributes",
		Quick:    60000,
		Thorough: 2000000,
		Gen:      genC02(rec.Opts{ZeroTime: true}),
		Run: func(c *vt.Case, p planC02) error {
			want, ok := p.R.Attrs()
			if !ok {
				c.Class("refused")
				return nil // C01
			}
			if len(p.R.A) >= 2 {
				c.NonTrivial()
			}
			c.Class(rec.TypeOf(p.R.Type).Name)
			got, err := encoding.Encode(p.R.Build())
			if err != nil {
				return fmt.Errorf("encode: %v", err)
			}
			if p.Binary {
				if got, err = overAMQP(got); err != nil {
					return err
				}
			}
			if !reflect.DeepEqual(want, got) {
				return fmt.Errorf("%s encoded as %#v, protocol prescribes %#v", rec.TypeOf(p.R.Type).Name, got, want)
			}
			return nil
		},
	})
}

func TestC02_Decode(t *testing.T) {
	vt.Check(t, vt.Spec[planC02]{
		ID:       "C02",
		Rule:     "an attribute map written from the protocol table (not by the code under test), decoded directly or after AMQP marshalling; non-trivial: at least two attributes",
		Quick:    60000,
		Thorough: 2000000,
		Gen:      genC02(rec.Opts{}),
		Run: func(c *vt.Case, p planC02) error {
			attrs, ok := p.R.Attrs()
			if !ok {
				return nil
			}
			if len(p.R.A) >= 2 {
				c.NonTrivial()
			}
			c.Class(rec.TypeOf(p.R.Type).Name)
			if p.Binary {
				var err error
				if attrs, err = overAMQP(attrs); err != nil {
					return err
				}
			}
			out, err := encoding.Decode(attrs)
			if err != nil {
				return fmt.Errorf("decode of %#v: %v", attrs, err)
			}
			got, err := rec.From(out)
			if err != nil {
				return err
			}
			if d := rec.Diff(p.R.Normal(), got); d != "" {
				return fmt.Errorf("%#v decoded wrong: %s", attrs, d)
			}
			return nil
		},
	})
}
