package codec

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
	"pgregory.net/rapid"

	"vanflowverif/vt"
)

// Self-encoding attribute types of the harness.

// HexA encodes itself as text, zero is unset; value receiver.
type HexA struct{ V uint64 }

func (h HexA) EncodeRecordAttribute() (any, error) {
	if h.V == 0 {
		return nil, encoding.ErrAttributeNotSet
	}
	if h.V == math.MaxUint64 {
		return nil, fmt.Errorf("unrepresentable")
	}
	return strconv.FormatUint(h.V, 16), nil
}

func (h *HexA) DecodeRecordAttribute(attr any) error {
	s, ok := attr.(string)
	if !ok {
		return fmt.Errorf("not a string: %T", attr)
	}
	v, err := strconv.ParseUint(s, 16, 64)
	h.V = v
	return err
}

// PtrA has both methods on the pointer: usable as *PtrA only.
type PtrA struct{ N int64 }

func (p *PtrA) EncodeRecordAttribute() (any, error) {
	if p.N == math.MinInt64 {
		return nil, fmt.Errorf("unrepresentable")
	}
	return p.N + 1, nil
}

func (p *PtrA) DecodeRecordAttribute(attr any) error {
	n, ok := attr.(int64)
	if !ok {
		return fmt.Errorf("not an int64: %T", attr)
	}
	p.N = n - 1
	return nil
}

// OnlyEnc cannot decode.
type OnlyEnc struct{ X uint32 }

func (OnlyEnc) EncodeRecordAttribute() (any, error) { return uint32(7), nil }

// OnlyDec cannot encode.
type OnlyDec struct{ X uint32 }

func (*OnlyDec) DecodeRecordAttribute(any) error { return nil }

// ListA encodes itself as an AMQP list, which has no ==.
type ListA struct{ Vs []string }

func (l ListA) EncodeRecordAttribute() (any, error) {
	if len(l.Vs) == 0 {
		return nil, encoding.ErrAttributeNotSet
	}
	out := []any{}
	for _, v := range l.Vs {
		out = append(out, v)
	}
	return out, nil
}

func (l *ListA) DecodeRecordAttribute(attr any) error {
	vs, ok := attr.([]any)
	if !ok {
		return fmt.Errorf("not a list: %T", attr)
	}
	l.Vs = nil
	for _, v := range vs {
		s, ok := v.(string)
		if !ok {
			return fmt.Errorf("not a string: %T", v)
		}
		l.Vs = append(l.Vs, s)
	}
	return nil
}

// Named types of the raw kinds.
type (
	NamedS string
	NamedU uint64
	NamedI int32
)

type kindDef struct {
	t    reflect.Type
	ok   bool
	self bool
}

func typ[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var kinds = map[string]kindDef{
	"string": {t: typ[string](), ok: true}, "*string": {t: typ[*string](), ok: true},
	"uint64": {t: typ[uint64](), ok: true}, "*uint64": {t: typ[*uint64](), ok: true},
	"int64": {t: typ[int64](), ok: true}, "*int64": {t: typ[*int64](), ok: true},
	"uint32": {t: typ[uint32](), ok: true}, "*uint32": {t: typ[*uint32](), ok: true},
	"int32": {t: typ[int32](), ok: true}, "*int32": {t: typ[*int32](), ok: true},
	"time": {t: typ[vanflow.Time](), ok: true, self: true}, "*time": {t: typ[*vanflow.Time](), ok: true, self: true},
	"hex": {t: typ[HexA](), ok: true, self: true}, "*hex": {t: typ[*HexA](), ok: true, self: true},
	"*ptr": {t: typ[*PtrA](), ok: true, self: true},

	"named": {t: typ[NamedS](), ok: true}, "*named": {t: typ[*NamedS](), ok: true}, "namedu": {t: typ[NamedU](), ok: true}, "*namedi": {t: typ[*NamedI](), ok: true},
	"**string": {t: typ[**string](), ok: true}, "list": {t: typ[ListA](), ok: true, self: true}, "*list": {t: typ[*ListA](), ok: true, self: true},

	"int": {t: typ[int]()}, "bool": {t: typ[bool]()}, "float64": {t: typ[float64]()}, "uint8": {t: typ[uint8]()}, "*bool": {t: typ[*bool]()},
	"[]string": {t: typ[[]string]()}, "map": {t: typ[map[string]string]()}, "struct": {t: typ[struct{ A string }]()}, "*struct": {t: typ[*struct{ A string }]()},
	"any": {t: typ[any]()}, "chan": {t: typ[chan int]()}, "onlyenc": {t: typ[OnlyEnc]()}, "onlydec": {t: typ[OnlyDec]()}, "time.Time": {t: typ[time.Time]()},
	"[4]byte": {t: typ[[4]byte]()}, "func": {t: typ[func()]()}, "float32": {t: typ[float32]()}, "uint16": {t: typ[uint16]()},
}

var (
	goodKinds = []string{"string", "*string", "uint64", "*uint64", "int64", "*int64", "uint32", "*uint32", "int32", "*int32", "time", "*time", "hex", "*hex", "*ptr", "named", "*named", "namedu", "*namedi", "**string", "list", "*list"}
	badKinds  = []string{"int", "bool", "float64", "uint8", "*bool", "[]string", "map", "struct", "*struct", "any", "chan", "onlyenc", "onlydec", "time.Time", "[4]byte", "func", "float32", "uint16"}
	badTags   = []string{"x", "-1", "4294967296", "+1", "1.0", " 5", "0x10", ",required", "5,optional", "5,Required", "5,required,x", "5, required", "0", "0,required", "99999999999999999999"}
)

type fieldDef struct {
	Kind  string     `json:"kind"`
	Code  uint32     `json:"code"`
	Req   bool       `json:"req,omitempty"`
	Tag   string     `json:"tag,omitempty"` // overrides Code/Req
	None  bool       `json:"none,omitempty"`
	Anon  bool       `json:"anon,omitempty"` // an embedded attribute
	Embed []fieldDef `json:"embed,omitempty"`
	Val   fieldVal   `json:"val"`
}

type fieldVal struct {
	Nil bool   `json:"nil,omitempty"`
	S   vt.S   `json:"s,omitempty"`
	U   uint64 `json:"u,omitempty"`
}

// regOp registers a type (or one registered before) under a code relative to
// the case.
type regOp struct {
	Code    uint32     `json:"code"`
	Fields  []fieldDef `json:"fields,omitempty"`
	Again   int        `json:"again"`               // index of an earlier op whose type is used, -1: new type
	NonStr  string     `json:"nonstruct,omitempty"` // int, string, slice, nil
	Pointer bool       `json:"pointer,omitempty"`
}

type planC05 struct {
	Ops     []regOp `json:"ops"`
	Binary  bool    `json:"binary"`
	Workers int     `json:"workers,omitempty"`
}

var caseBase atomic.Uint32

func init() { caseBase.Store(1 << 20) }

func structType(unique string, fs []fieldDef, prefix string) reflect.Type {
	var sf []reflect.StructField
	for i, f := range fs {
		name := fmt.Sprintf("%sF%d", prefix, i)
		if f.Embed != nil {
			et := structType("", f.Embed, name)
			sf = append(sf, reflect.StructField{Name: name, Type: et, Anonymous: true})
			continue
		}
		tag := f.Tag
		if tag == "" && !f.None {
			tag = strconv.FormatUint(uint64(f.Code), 10)
			if f.Req {
				tag += ",required"
			}
		}
		x := reflect.StructField{Name: name, Type: kinds[f.Kind].t, Anonymous: f.Anon && !f.None}
		if !f.None {
			x.Tag = reflect.StructTag(fmt.Sprintf(`json:"x" vflow:%q`, tag))
		}
		sf = append(sf, x)
	}
	if unique != "" {
		sf = append(sf, reflect.StructField{Name: "U" + unique, Type: typ[bool]()})
	}
	return reflect.StructOf(sf)
}

// fill sets the fields of v; wantAttrs collects what must be encoded; refuse
// is set when a required attribute is unset or one cannot be represented.
func fill(v reflect.Value, fs []fieldDef, want map[any]any, refuse *bool) {
	for i, f := range fs {
		fv := v.Field(i)
		if f.Embed != nil {
			fill(fv, f.Embed, want, refuse)
			continue
		}
		if f.None {
			continue
		}
		set := func(x any, attr any, isSet bool, bad bool) {
			if x != nil {
				fv.Set(reflect.ValueOf(x))
			}
			switch {
			case bad:
				*refuse = true
			case isSet:
				want[f.Code] = attr
			case f.Req:
				*refuse = true
			}
		}
		val := f.Val
		if strings.HasPrefix(f.Kind, "*") && val.Nil {
			set(nil, nil, false, false)
			continue
		}
		s, u64 := string(val.S), val.U
		i64, u32, i32 := int64(u64), uint32(u64), int32(u64)
		tm := vanflow.Time{}
		if u64 != 0 {
			tm.Time = time.UnixMicro(int64(u64 >> 1)).UTC()
		}
		hx := HexA{u64}
		pt := PtrA{i64}
		var list ListA
		var listAttr []any
		for _, r := range s {
			list.Vs, listAttr = append(list.Vs, string(r)), append(listAttr, string(r))
		}
		switch f.Kind {
		case "string":
			set(s, s, s != "", false)
		case "*string":
			set(&s, s, true, false)
		case "uint64":
			set(u64, u64, u64 != 0, false)
		case "*uint64":
			set(&u64, u64, true, false)
		case "int64":
			set(i64, i64, i64 != 0, false)
		case "*int64":
			set(&i64, i64, true, false)
		case "uint32":
			set(u32, u32, u32 != 0, false)
		case "*uint32":
			set(&u32, u32, true, false)
		case "int32":
			set(i32, i32, i32 != 0, false)
		case "*int32":
			set(&i32, i32, true, false)
		case "time":
			set(tm, u64>>1, u64 != 0, false)
		case "*time":
			set(&tm, u64>>1, u64 != 0, false)
		case "hex":
			set(hx, strconv.FormatUint(u64, 16), u64 != 0, u64 == math.MaxUint64)
		case "*hex":
			set(&hx, strconv.FormatUint(u64, 16), u64 != 0, u64 == math.MaxUint64)
		case "named":
			set(NamedS(s), s, s != "", false)
		case "*named":
			x := NamedS(s)
			set(&x, s, true, false)
		case "namedu":
			set(NamedU(u64), u64, u64 != 0, false)
		case "*namedi":
			x := NamedI(i32)
			set(&x, i32, true, false)
		case "**string":
			x := &s
			if u64 == 1 {
				x = nil
			}
			set(&x, s, x != nil, false)
		case "list":
			set(list, listAttr, len(list.Vs) > 0, false)
		case "*list":
			set(&list, listAttr, len(list.Vs) > 0, false)
		case "*ptr":
			set(&pt, i64+1, true, i64 == math.MinInt64)
		}
	}
}

// valid tells whether the type must be accepted.
func validFields(fs []fieldDef, seen map[uint32]bool) bool {
	ok := true
	for _, f := range fs {
		if f.Embed != nil {
			ok = validFields(f.Embed, seen) && ok
			continue
		}
		if f.None {
			continue
		}
		if f.Tag != "" || !kinds[f.Kind].ok || seen[f.Code] {
			ok = false
			continue
		}
		seen[f.Code] = true
	}
	return ok
}

func walk(fs []fieldDef, v reflect.Value, f func(fieldDef, reflect.Value)) {
	for i, d := range fs {
		if d.Embed != nil {
			walk(d.Embed, v.Field(i), f)
		} else if !d.None {
			f(d, v.Field(i))
		}
	}
}

// sameFields compares the tagged fields of two values; zero self-encoding
// values count as unset.
func sameFields(fs []fieldDef, a, b reflect.Value) error {
	var err error
	idx := map[uint32]reflect.Value{}
	norm := func(d fieldDef, v reflect.Value) any {
		if v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return nil
			}
			if d.Kind == "**string" {
				if v = v.Elem(); v.IsNil() {
					return nil
				}
			}
			if d.Kind == "*ptr" || !kinds[d.Kind].self {
				return v.Elem().Interface()
			}
			v = v.Elem()
			if v.IsZero() {
				return nil
			}
		}
		if t, ok := v.Interface().(vanflow.Time); ok {
			if t.IsZero() {
				return nil
			}
			return t.UnixMicro()
		}
		return v.Interface()
	}
	walk(fs, a, func(d fieldDef, v reflect.Value) { idx[d.Code] = v })
	walk(fs, b, func(d fieldDef, v reflect.Value) {
		x, y := norm(d, idx[d.Code]), norm(d, v)
		if !reflect.DeepEqual(x, y) && err == nil {
			err = fmt.Errorf("attribute %d (%s): want %v, got %v", d.Code, d.Kind, x, y)
		}
	})
	return err
}

type regType struct {
	t    reflect.Type
	op   regOp
	code uint32
}

// roundTrip encodes and decodes a value of a registered type.
func roundTrip(c *vt.Case, r regType, binary bool) error {
	v := reflect.New(r.t)
	want := map[any]any{uint32(0): r.code}
	refuse := false
	fill(v.Elem(), r.op.Fields, want, &refuse)
	in := v.Interface()
	if r.op.Pointer {
		in = v.Elem().Interface()
	}
	attrs, err := encoding.Encode(in)
	if refuse {
		c.Class("value refused")
		if err == nil {
			return fmt.Errorf("value with an unset required or unrepresentable attribute was encoded as %v; fields %+v", attrs, r.op.Fields)
		}
	} else {
		if err != nil {
			return fmt.Errorf("encode of registered type %v: %v", r.t, err)
		}
		if !reflect.DeepEqual(attrs, want) {
			return fmt.Errorf("registered type %v encoded as %#v, want %#v", r.t, attrs, want)
		}
		c.Class("value round-tripped")
	}
	if !refuse {
		if binary {
			if through, err := overAMQP(attrs); err == nil {
				attrs = through
			} else {
				return err
			}
		}
		out, err := encoding.Decode(attrs)
		if err != nil {
			return fmt.Errorf("decode of registered type %v from %#v: %v", r.t, attrs, err)
		}
		ov := reflect.ValueOf(out)
		if ov.Type() != reflect.PointerTo(r.t) {
			return fmt.Errorf("decoded a %v, want a pointer to %v", ov.Type(), r.t)
		}
		if err := sameFields(r.op.Fields, v.Elem(), ov.Elem()); err != nil {
			return fmt.Errorf("round trip of %v: %w", r.t, err)
		}
	}
	// each required attribute is required when decoding, too
	var reqErr error
	walk(r.op.Fields, v.Elem(), func(d fieldDef, _ reflect.Value) {
		if !d.Req || reqErr != nil || refuse {
			return
		}
		less := copyMap(want)
		delete(less, d.Code)
		if out, err := encoding.Decode(less); err == nil {
			reqErr = fmt.Errorf("decoded %v without required attribute %d: %+v", r.t, d.Code, out)
		}
		c.Class("required attribute removed")
	})
	return reqErr
}

func runC05(c *vt.Case, p planC05) error {
	base := caseBase.Add(1 << 8)
	var types []reflect.Type
	var opFields []regOp
	byCode := map[uint32]regType{}
	byType := map[reflect.Type]uint32{}
	var stop chan struct{}
	var wg sync.WaitGroup
	var bgErr atomic.Pointer[error]
	if p.Workers > 0 {
		stop = make(chan struct{})
		c.Class("with concurrent encoders")
		for w := 0; w < p.Workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				s := fmt.Sprint("w", w)
				for {
					select {
					case <-stop:
						return
					default:
					}
					attrs, err := encoding.Encode(vanflow.SiteRecord{BaseRecord: vanflow.NewBase("id"), Name: &s})
					if err == nil {
						var out any
						if out, err = encoding.Decode(attrs); err == nil {
							if r, ok := out.(*vanflow.SiteRecord); !ok || r.Name == nil || *r.Name != s || r.ID != "id" {
								err = fmt.Errorf("concurrent decode gave %#v", out)
							}
						}
					}
					if err != nil {
						err = fmt.Errorf("while registering: %w", err)
						bgErr.Store(&err)
						return
					}
					runtime.Gosched()
				}
			}()
		}
	}
	defer func() {
		if stop != nil {
			close(stop)
			wg.Wait()
		}
	}()
	refusals, accepted := 0, 0
	for i, op := range p.Ops {
		code := base + op.Code%256
		var sample any
		var t reflect.Type
		mustAccept := true
		switch {
		case op.NonStr != "":
			mustAccept = false
			switch op.NonStr {
			case "int":
				sample = 5
			case "string":
				sample = "s"
			case "slice":
				sample = []string{"a"}
			case "nil":
				sample = nil
			case "intptr":
				x := 3
				sample = &x
			}
			types = append(types, nil)
			opFields = append(opFields, op)
		default:
			if op.Again >= 0 && op.Again < i && types[op.Again] != nil {
				t = types[op.Again]
				op.Fields = opFields[op.Again].Fields
			} else {
				t = structType(fmt.Sprintf("%dx%d", base, i), op.Fields, "")
			}
			types = append(types, t)
			opFields = append(opFields, op)
			v := reflect.New(t)
			if op.Pointer {
				sample = v.Interface()
			} else {
				sample = v.Elem().Interface()
			}
			mustAccept = validFields(op.Fields, map[uint32]bool{})
		}
		if _, used := byCode[code]; used {
			mustAccept = false
			c.Class("code registered before")
		}
		if t != nil {
			if _, used := byType[t]; used {
				mustAccept = false
				c.Class("type registered before")
			}
		}
		// the registry hangs rather than answers when a refusal left it locked: the watchdog sees that
		panicked := guard("", func() { encoding.MustRegisterRecord(code, sample) }) != nil
		if mustAccept && panicked {
			err := guard("", func() { encoding.MustRegisterRecord(code, sample) })
			return fmt.Errorf("op %d: registering %v under free code %d was refused (%v)", i, t, code-base, err)
		}
		if !mustAccept && !panicked {
			return fmt.Errorf("op %d: registering %T under code %d was not refused; fields %+v", i, sample, code-base, op.Fields)
		}
		if !mustAccept {
			refusals++
			// the refused registration left no trace
			if _, used := byCode[code]; !used {
				if out, err := encoding.Decode(map[any]any{uint32(0): code, uint32(1): "a"}); err == nil {
					return fmt.Errorf("op %d: code %d decodes to %T after a refused registration", i, code-base, out)
				}
			}
			if t != nil {
				if _, used := byType[t]; !used {
					if out, err := encoding.Encode(sample); err == nil {
						return fmt.Errorf("op %d: type %v encodes to %v after a refused registration", i, t, out)
					}
				}
			}
		} else {
			accepted++
			byCode[code] = regType{t, op, code}
			byType[t] = code
		}
		for _, cd := range sortedCodes(byCode) { // everything registered works
			if err := roundTrip(c, byCode[cd], p.Binary); err != nil {
				return fmt.Errorf("after op %d: %w", i, err)
			}
		}
	}
	if e := bgErr.Load(); e != nil {
		return *e
	}
	c.ClassIf(refusals > 0 && accepted > 0, "refusals and acceptances")
	if accepted > 0 {
		c.NonTrivial()
	}
	return nil
}

func sortedCodes(m map[uint32]regType) []uint32 {
	var out []uint32
	for c := uint32(0); c < 1<<8; c++ {
		for k := range m {
			if k&255 == c {
				out = append(out, k)
			}
		}
	}
	return out
}

func genFields(t *rapid.T, depth int, bad bool) []fieldDef {
	var out []fieldDef
	n := rapid.IntRange(0, 5).Draw(t, "nf")
	for i := 0; i < n; i++ {
		f := fieldDef{Code: rapid.OneOf(rapid.Uint32Range(1, 400), rapid.SampledFrom([]uint32{1, 2, 3, math.MaxUint32, math.MaxUint32 - 1, 1 << 31})).Draw(t, "code")}
		f.Kind = rapid.SampledFrom(goodKinds).Draw(t, "kind")
		switch k := rapid.IntRange(0, 19).Draw(t, "fk"); {
		case k < 3 && depth > 0:
			f.Embed = genFields(t, depth-1, bad)
			if len(f.Embed) == 0 {
				f.Embed = nil
				f.None = true
			}
		case k == 3:
			f.None = true
			f.Kind = rapid.SampledFrom(append(append([]string{}, goodKinds...), badKinds...)).Draw(t, "nonekind")
		case bad && k == 4:
			f.Kind = rapid.SampledFrom(badKinds).Draw(t, "badkind")
		case bad && k == 5:
			f.Tag = rapid.SampledFrom(badTags).Draw(t, "badtag")
		case bad && k == 6:
			f.Code = rapid.Uint32Range(1, 3).Draw(t, "dupcode")
		}
		f.Req = rapid.IntRange(0, 4).Draw(t, "req") == 0
		if f.Kind == "named" || f.Kind == "namedu" {
			f.Anon = rapid.IntRange(0, 2).Draw(t, "anon") == 0
		}
		f.Val = fieldVal{Nil: rapid.IntRange(0, 2).Draw(t, "nil") == 0,
			S: vt.S(rapid.SampledFrom([]string{"", "a", "zz", "ü"}).Draw(t, "s")),
			U: rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, 1 << 31, 1<<32 - 1, 1 << 63, math.MaxUint64}), rapid.Uint64()).Draw(t, "u")}
		out = append(out, f)
	}
	if depth == 2 && len(out) > 0 { // sometimes far down
		for n := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 6}).Draw(t, "wrap"); n > 0; n-- {
			out = []fieldDef{{Embed: out}}
			if rapid.Bool().Draw(t, "sibling") {
				out = append(out, genFields(t, 0, bad)...)
			}
		}
	}
	if !bad { // make the codes distinct
		seen := map[uint32]bool{}
		distinct(out, seen)
	}
	return out
}

func distinct(fs []fieldDef, seen map[uint32]bool) {
	for i := range fs {
		if fs[i].Embed != nil {
			distinct(fs[i].Embed, seen)
			continue
		}
		for seen[fs[i].Code] || fs[i].Code == 0 {
			fs[i].Code += 7
		}
		seen[fs[i].Code] = true
	}
}

func genC05(workers bool) func(*rapid.T) planC05 {
	return func(t *rapid.T) planC05 {
		var p planC05
		n := rapid.IntRange(1, 7).Draw(t, "ops")
		for i := 0; i < n; i++ {
			op := regOp{Again: -1, Code: rapid.Uint32Range(0, 5).Draw(t, "code"), Pointer: rapid.Bool().Draw(t, "ptr")}
			switch k := rapid.IntRange(0, 11).Draw(t, "opk"); {
			case k == 0:
				op.NonStr = rapid.SampledFrom([]string{"int", "string", "slice", "nil", "intptr"}).Draw(t, "ns")
			case k <= 2 && i > 0:
				op.Again = rapid.IntRange(0, i-1).Draw(t, "again")
			default:
				op.Fields = genFields(t, 2, k >= 8)
			}
			p.Ops = append(p.Ops, op)
		}
		p.Binary = rapid.Bool().Draw(t, "bin")
		if workers {
			p.Workers = rapid.IntRange(1, 3).Draw(t, "workers")
		}
		return p
	}
}

func TestC05_Registry(t *testing.T) {
	vt.Check(t, vt.Spec[planC05]{
		ID:       "C05",
		Rule:     "histories of up to 7 registrations of struct types made at run time (attribute kinds, codes, required, embedding; some malformed, repeated or not structs); after each, every registered type round-trips a value and refused ones left no trace; non-trivial: at least one registration accepted",
		Quick:    6000,
		Thorough: 60000,
		Trace:    true,
		Gen:      genC05(false),
		Run:      runC05,
	})
}

func TestC05_Concurrent(t *testing.T) {
	vt.Check(t, vt.Spec[planC05]{
		ID:       "C05",
		Rule:     "as TestC05_Registry while goroutines encode and decode site records, under the race detector",
		Quick:    1500,
		Thorough: 15000,
		Trace:    true,
		Gen:      genC05(true),
		Run:      runC05,
	})
}
