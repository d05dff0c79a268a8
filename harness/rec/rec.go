// Package rec is an independent description of the vanflow record types: the
// protocol's codepoints, a plain-data model of records, and generators.
package rec

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
	"pgregory.net/rapid"

	"vanflowverif/vt"
)

type Kind int

const (
	Str Kind = iota
	U64
	Time
	List  // a self-encoding list of strings; the value is their concatenation
	Named // a named string type
)

func (k Kind) String() string {
	return [...]string{"string", "uint64", "time", "list", "named string"}[k]
}

type Field struct {
	Name string
	Code uint32
	Kind Kind
}

type Type struct {
	Code   uint32
	Name   string
	New    func() any // pointer to a zero record
	Record bool       // implements vanflow.Record
	Fields []Field
}

var (
	start   = Field{"StartTime", 3, Time}
	end     = Field{"EndTime", 4, Time}
	parent  = Field{"Parent", 2, Str}
	counter = []Field{{"FlowCountL4", 40, U64}, {"FlowCountL7", 41, U64}, {"FlowRateL4", 42, U64}, {"FlowRateL7", 43, U64}}
)

func fields(f ...Field) []Field { return append([]Field{start, end}, f...) }

// Types are the protocol's record types, by codepoint. Written from the
// skupper router's flow protocol (vflow_attribute / vflow_record_type).
var Types = []Type{
	{0, "SiteRecord", func() any { return &vanflow.SiteRecord{} }, true, fields(Field{"Location", 9, Str}, Field{"Provider", 10, Str}, Field{"Platform", 11, Str},
		Field{"Namespace", 12, Str}, Field{"Name", 30, Str}, Field{"Version", 52, Str}, Field{"Policy", 53, Str})},
	{1, "RouterRecord", func() any { return &vanflow.RouterRecord{} }, true, fields(parent, Field{"Namespace", 12, Str}, Field{"Mode", 13, Str}, Field{"ImageName", 20, Str},
		Field{"ImageVersion", 21, Str}, Field{"Hostname", 22, Str}, Field{"Name", 30, Str}, Field{"BuildVersion", 32, Str})},
	{2, "LinkRecord", func() any { return &vanflow.LinkRecord{} }, true, fields(parent, Field{"Mode", 13, Str}, Field{"Name", 30, Str}, Field{"LinkCost", 33, U64}, Field{"Direction", 34, Str})},
	{3, "ControllerRecord", func() any { return &vanflow.ControllerRecord{} }, true, fields(parent, Field{"ImageName", 20, Str}, Field{"ImageVersion", 21, Str},
		Field{"Hostname", 22, Str}, Field{"Name", 30, Str}, Field{"BuildVersion", 32, Str})},
	{4, "ListenerRecord", func() any { return &vanflow.ListenerRecord{} }, true, fields(append([]Field{parent, {"DestHost", 15, Str}, {"Protocol", 16, Str}, {"DestPort", 18, Str}, {"Address", 19, Str}}, counter...)...)},
	{5, "ConnectorRecord", func() any { return &vanflow.ConnectorRecord{} }, true, fields(append([]Field{parent, {"DestHost", 15, Str}, {"Protocol", 16, Str}, {"DestPort", 18, Str}, {"Address", 19, Str}}, counter...)...)},
	{6, "FlowRecord", func() any { return &vanflow.FlowRecord{} }, true, fields(parent, Field{"Counterflow", 5, Str}, Field{"SourceHost", 14, Str}, Field{"SourcePort", 17, Str},
		Field{"Octets", 23, U64}, Field{"Latency", 24, U64}, Field{"Method", 27, Str}, Field{"Result", 28, Str}, Field{"Reason", 29, Str}, Field{"Trace", 31, Str},
		Field{"OctetRate", 35, U64}, Field{"OctetsOut", 36, U64}, Field{"OctetsUnacked", 37, U64}, Field{"WindowClosures", 38, U64}, Field{"WindowSize", 39, U64})},
	{7, "ProcessRecord", func() any { return &vanflow.ProcessRecord{} }, true, fields(parent, Field{"Mode", 13, Str}, Field{"SourceHost", 14, Str}, Field{"ImageName", 20, Str},
		Field{"ImageVersion", 21, Str}, Field{"Hostname", 22, Str}, Field{"Name", 30, Str}, Field{"Group", 46, Str})},
	{8, "ImageRecord", func() any { return &vanflow.ImageRecord{} }, false, fields()},
	{9, "IngressRecord", func() any { return &vanflow.IngressRecord{} }, false, fields()},
	{10, "EgressRecord", func() any { return &vanflow.EgressRecord{} }, false, fields()},
	{11, "CollectorRecord", func() any { return &vanflow.CollectorRecord{} }, false, fields()},
	{12, "ProcessGroupRecord", func() any { return &vanflow.ProcessGroupRecord{} }, false, fields()},
	{13, "HostRecord", func() any { return &vanflow.HostRecord{} }, true, fields(Field{"Provider", 10, Str}, Field{"Name", 30, Str})},
	{14, "LogRecord", func() any { return &vanflow.LogRecord{} }, true, fields(Field{"LogSeverity", 48, U64}, Field{"LogText", 49, Str}, Field{"SourceFile", 50, Str}, Field{"SourceLine", 51, U64})},
}

// RecordCodes are the codes of the types that can be carried in messages.
var RecordCodes = func() (out []uint32) {
	for _, t := range Types {
		if t.Record {
			out = append(out, t.Code)
		}
	}
	return
}()

// CustomCode is the code of a record type that a user registers: it has an
// attribute that is a list, which values have no ==, and one of a named type.
const CustomCode = 70010

type Strings []string

func (l Strings) EncodeRecordAttribute() (any, error) {
	out := []any{}
	for _, s := range l {
		out = append(out, s)
	}
	return out, nil
}

func (l *Strings) DecodeRecordAttribute(attr any) error {
	vs, ok := attr.([]any)
	if !ok {
		return fmt.Errorf("list attribute of type %T", attr)
	}
	*l = Strings{}
	for _, v := range vs {
		s, ok := v.(string)
		if !ok {
			return fmt.Errorf("list attribute holds a %T", v)
		}
		*l = append(*l, s)
	}
	return nil
}

type Word string

type CustomRecord struct {
	vanflow.BaseRecord
	Name *string  `vflow:"30"`
	Word *Word    `vflow:"700"`
	Tags *Strings `vflow:"701"`
}

func (CustomRecord) GetTypeMeta() vanflow.TypeMeta {
	return vanflow.TypeMeta{APIVersion: "flow/v1", Type: "CustomRecord"}
}

var customType = Type{CustomCode, "CustomRecord", func() any { return &CustomRecord{} }, true, fields(Field{"Name", 30, Str}, Field{"Word", 700, Named}, Field{"Tags", 701, List})}

func init() { encoding.MustRegisterRecord(CustomCode, CustomRecord{}) }

// split cuts a string into its characters.
func split(s string) []string {
	out := []string{}
	for len(s) > 0 {
		_, n := utf8.DecodeRuneInString(s)
		out, s = append(out, s[:n]), s[n:]
	}
	return out
}

func TypeOf(code uint32) *Type {
	if code == CustomCode {
		return &customType
	}
	if int(code) < len(Types) {
		return &Types[code]
	}
	return nil
}

func (t *Type) FieldByCode(code uint32) *Field {
	for i := range t.Fields {
		if t.Fields[i].Code == code {
			return &t.Fields[i]
		}
	}
	return nil
}

func (t *Type) Meta() vanflow.TypeMeta {
	return vanflow.TypeMeta{APIVersion: "flow/v1", Type: t.Name}
}

// Val is the value of one attribute. Exactly one of S, U, T, Zero is set.
type Val struct {
	S    *vt.S   `json:"s,omitempty"`
	U    *uint64 `json:"u,omitempty"`
	T    *int64  `json:"t,omitempty"`    // microseconds since the epoch
	N    int     `json:"n,omitempty"`    // nanoseconds beyond T
	Z    int     `json:"z,omitempty"`    // zone offset in seconds
	Zero bool    `json:"zero,omitempty"` // a zero time behind the pointer
}

func VS(s string) Val { x := vt.S(s); return Val{S: &x} }
func VU(u uint64) Val { return Val{U: &u} }
func VT(us int64) Val { return Val{T: &us} }
func (v Val) String() string {
	switch {
	case v.S != nil:
		return fmt.Sprintf("%q", string(*v.S))
	case v.U != nil:
		return fmt.Sprintf("%d", *v.U)
	case v.T != nil:
		return fmt.Sprintf("%dus+%dns", *v.T, v.N)
	case v.Zero:
		return "zero time"
	}
	return "none"
}

// Rec is the model of a record.
type Rec struct {
	Type uint32         `json:"type"`
	ID   vt.S           `json:"id"`
	A    map[string]Val `json:"a,omitempty"` // by field name
}

func (r Rec) Clone() Rec {
	c := r
	c.A = make(map[string]Val, len(r.A))
	for k, v := range r.A {
		c.A[k] = v
	}
	return c
}

func (v Val) goTime() time.Time {
	if v.Zero {
		return time.Time{}
	}
	t := time.UnixMicro(*v.T).Add(time.Duration(v.N))
	if v.Z != 0 {
		t = t.In(time.FixedZone("z", v.Z))
	} else {
		t = t.UTC()
	}
	return t
}

// Build makes a pointer to the Go record.
func (r Rec) Build() any {
	t := TypeOf(r.Type)
	p := t.New()
	v := reflect.ValueOf(p).Elem()
	v.FieldByName("ID").SetString(string(r.ID))
	for _, f := range t.Fields {
		val, ok := r.A[f.Name]
		if !ok {
			continue
		}
		var x reflect.Value
		switch f.Kind {
		case Str:
			s := string(*val.S)
			x = reflect.ValueOf(&s)
		case U64:
			u := *val.U
			x = reflect.ValueOf(&u)
		case Named:
			w := Word(*val.S)
			x = reflect.ValueOf(&w)
		case List:
			l := Strings(split(string(*val.S)))
			x = reflect.ValueOf(&l)
		case Time:
			x = reflect.ValueOf(&vanflow.Time{Time: val.goTime()})
		}
		v.FieldByName(f.Name).Set(x)
	}
	return p
}

// Record builds the record as a vanflow.Record (by value when byValue).
func (r Rec) Record(byValue bool) vanflow.Record {
	p := r.Build()
	if byValue {
		return reflect.ValueOf(p).Elem().Interface().(vanflow.Record)
	}
	return p.(vanflow.Record)
}

// Value is Build without the pointer.
func (r Rec) Value() any { return reflect.ValueOf(r.Build()).Elem().Interface() }

// From reads a Go record (or a pointer to one) into the model.
func From(obj any) (Rec, error) {
	var r Rec
	if obj == nil {
		return r, fmt.Errorf("nil record")
	}
	v := reflect.ValueOf(obj)
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return r, fmt.Errorf("nil %T", obj)
		}
		v = v.Elem()
	}
	for i := -1; i < len(Types); i++ {
		t := &customType
		if i >= 0 {
			t = &Types[i]
		}
		if reflect.TypeOf(t.New()).Elem() != v.Type() {
			continue
		}
		r.Type = t.Code
		r.ID = vt.S(v.FieldByName("ID").String())
		r.A = map[string]Val{}
		for _, f := range t.Fields {
			fv := v.FieldByName(f.Name)
			if fv.IsNil() {
				continue
			}
			switch x := fv.Interface().(type) {
			case *string:
				r.A[f.Name] = VS(*x)
			case *uint64:
				r.A[f.Name] = VU(*x)
			case *Word:
				r.A[f.Name] = VS(string(*x))
			case *Strings:
				r.A[f.Name] = VS(strings.Join(*x, ""))
			case *vanflow.Time:
				if x.Time.IsZero() {
					r.A[f.Name] = Val{Zero: true}
				} else {
					us := x.Time.UnixMicro()
					r.A[f.Name] = Val{T: &us, N: int(x.Time.Sub(time.UnixMicro(us)))}
				}
			}
		}
		return r, nil
	}
	return r, fmt.Errorf("unknown record type %T", obj)
}

// Normal is what survives the protocol: times to the microsecond, no zero
// times.
func (r Rec) Normal() Rec {
	c := Rec{Type: r.Type, ID: r.ID, A: map[string]Val{}}
	for k, v := range r.A {
		if v.Zero {
			continue
		}
		if v.T != nil {
			v = VT(*v.T)
		}
		c.A[k] = v
	}
	return c
}

func eqVal(a, b Val) bool {
	switch {
	case a.S != nil:
		return b.S != nil && *a.S == *b.S
	case a.U != nil:
		return b.U != nil && *a.U == *b.U
	case a.T != nil:
		return b.T != nil && *a.T == *b.T && a.N == b.N
	}
	return a.Zero == b.Zero && b.S == nil && b.U == nil && b.T == nil
}

func EqVal(a, b Val) bool { return eqVal(a, b) }

// Diff describes how two records differ ("" when they do not). Zones are not
// compared.
func Diff(want, got Rec) string {
	if want.Type != got.Type {
		return fmt.Sprintf("type: want %d, got %d", want.Type, got.Type)
	}
	if want.ID != got.ID {
		return fmt.Sprintf("identity: want %q, got %q", want.ID, got.ID)
	}
	names := map[string]bool{}
	for k := range want.A {
		names[k] = true
	}
	for k := range got.A {
		names[k] = true
	}
	var keys []string
	for k := range names {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		w, okW := want.A[k]
		g, okG := got.A[k]
		if okW != okG {
			if okW {
				return fmt.Sprintf("attribute %s of %s %q: want %v, got unset", k, TypeOf(want.Type).Name, want.ID, w)
			}
			return fmt.Sprintf("attribute %s of %s %q: want unset, got %v", k, TypeOf(want.Type).Name, want.ID, g)
		}
		if !eqVal(w, g) {
			return fmt.Sprintf("attribute %s of %s %q: want %v, got %v", k, TypeOf(want.Type).Name, want.ID, w, g)
		}
	}
	return ""
}

// Canon is a canonical text of a record, for use as a map key.
func (r Rec) Canon() string {
	keys := make([]string, 0, len(r.A))
	for k := range r.A {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s := fmt.Sprintf("%d %q", r.Type, string(r.ID))
	for _, k := range keys {
		s += " " + k + "=" + r.A[k].String()
	}
	return s
}

// Attrs is the attribute map the protocol prescribes for the record. ok is
// false when the record must be refused (empty identity, time before epoch).
func (r Rec) Attrs() (attrs map[any]any, ok bool) {
	t := TypeOf(r.Type)
	attrs = map[any]any{uint32(0): t.Code}
	if r.ID == "" {
		return nil, false
	}
	attrs[uint32(1)] = string(r.ID)
	for _, f := range t.Fields {
		v, set := r.A[f.Name]
		if !set {
			continue
		}
		switch f.Kind {
		case Str, Named:
			attrs[f.Code] = string(*v.S)
		case List:
			l := []any{}
			for _, s := range split(string(*v.S)) {
				l = append(l, s)
			}
			attrs[f.Code] = l
		case U64:
			attrs[f.Code] = *v.U
		case Time:
			if v.Zero {
				continue
			}
			if *v.T < 0 {
				return nil, false
			}
			attrs[f.Code] = uint64(*v.T)
		}
	}
	return attrs, true
}

// ValidUTF8 reports whether all strings are valid UTF-8 (AMQP requires it).
func (r Rec) ValidUTF8() bool {
	if !utf8.ValidString(string(r.ID)) {
		return false
	}
	for _, v := range r.A {
		if v.S != nil && !utf8.ValidString(string(*v.S)) {
			return false
		}
	}
	return true
}

// Gen options.
type Opts struct {
	Types    []uint32 // nil: all types
	IDs      []string // nil: arbitrary identities, sometimes empty
	PastTime bool     // sometimes a time before the epoch
	ZeroTime bool     // sometimes a zero time
	BadUTF8  bool     // sometimes invalid UTF-8
	Small    bool     // few distinct values, no long strings
}

func GenString(o Opts) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		if o.Small {
			return rapid.SampledFrom([]string{"", "a", "b", "x y", "ü"}).Draw(t, "s")
		}
		switch k := rapid.IntRange(0, 19).Draw(t, "sk"); {
		case k < 5:
			return rapid.SampledFrom([]string{"", "a", "b", "0", " ", "nil", "a/b:c"}).Draw(t, "s")
		case k < 10:
			return rapid.StringMatching(`[a-z0-9:./-]{1,12}`).Draw(t, "s")
		case k < 17:
			return rapid.StringN(0, 8, -1).Draw(t, "s")
		case k == 17 && o.BadUTF8:
			return string(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "b"))
		case k == 18:
			n := rapid.SampledFrom([]int{254, 255, 256, 300, 254, 255, 256, 300, 1000, 1000, 4097, 65535, 65536, 70000}).Draw(t, "n")
			if n > 1000 && rapid.IntRange(0, 9).Draw(t, "huge") > 0 {
				n = 257
			}
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('a' + i%26)
			}
			return string(b)
		default:
			return rapid.String().Draw(t, "s")
		}
	})
}

func GenU64(o Opts) *rapid.Generator[uint64] {
	if o.Small {
		return rapid.SampledFrom([]uint64{0, 1, 2, math.MaxUint64})
	}
	return rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, 127, 128, 255, 256, math.MaxUint32, 1 << 63, math.MaxUint64}), rapid.Uint64())
}

func GenTime(o Opts) *rapid.Generator[Val] {
	return rapid.Custom(func(t *rapid.T) Val {
		if o.ZeroTime && rapid.IntRange(0, 7).Draw(t, "zero") == 0 {
			return Val{Zero: true}
		}
		if o.Small {
			return VT(int64(rapid.IntRange(0, 3).Draw(t, "us")))
		}
		var us int64
		switch rapid.IntRange(0, 3).Draw(t, "tk") {
		case 0:
			us = rapid.SampledFrom([]int64{0, 1, 255, 999999, 1000000, math.MaxInt64 - 1, math.MaxInt64}).Draw(t, "us")
		case 1:
			us = rapid.Int64Range(0, math.MaxInt64).Draw(t, "us")
		default:
			us = rapid.Int64Range(1600000000000000, 1900000000000000).Draw(t, "us")
		}
		if o.PastTime && rapid.IntRange(0, 9).Draw(t, "past") == 0 {
			us = -rapid.OneOf(rapid.SampledFrom([]int64{1, 2, 1000000, 62135596800000000 - 1}), rapid.Int64Range(1, 1<<40)).Draw(t, "neg")
		}
		v := VT(us)
		if us < math.MaxInt64 {
			v.N = rapid.SampledFrom([]int{0, 0, 1, 500, 999}).Draw(t, "ns")
		}
		v.Z = rapid.SampledFrom([]int{0, 0, 3600, -18000}).Draw(t, "zone")
		return v
	})
}

func GenVal(f Field, o Opts) *rapid.Generator[Val] {
	switch f.Kind {
	case Str, Named, List:
		return rapid.Map(GenString(o), VS)
	case U64:
		return rapid.Map(GenU64(o), VU)
	}
	return GenTime(o)
}

// Gen draws a record.
func Gen(o Opts) *rapid.Generator[Rec] {
	return rapid.Custom(func(t *rapid.T) Rec {
		var code uint32
		if o.Types == nil {
			code = rapid.Uint32Range(0, uint32(len(Types)-1)).Draw(t, "type")
		} else {
			code = rapid.SampledFrom(o.Types).Draw(t, "type")
		}
		r := Rec{Type: code, A: map[string]Val{}}
		if o.IDs != nil {
			r.ID = vt.S(rapid.SampledFrom(o.IDs).Draw(t, "id"))
		} else {
			r.ID = vt.S(GenString(o).Draw(t, "id"))
		}
		density := rapid.SampledFrom([]int{0, 2, 5, 9, 10}).Draw(t, "density")
		for _, f := range TypeOf(code).Fields {
			if rapid.IntRange(0, 9).Draw(t, "set") < density {
				r.A[f.Name] = GenVal(f, o).Draw(t, f.Name)
			}
		}
		return r
	})
}

// FromAttrs reads an attribute map as the protocol prescribes it, strictly.
func FromAttrs(v any) (Rec, error) {
	var r Rec
	m, ok := v.(map[any]any)
	if !ok {
		return r, fmt.Errorf("attributes are %T", v)
	}
	code, ok := m[uint32(0)].(uint32)
	t := TypeOf(code)
	if !ok || t == nil {
		return r, fmt.Errorf("record type is %v (%T)", m[uint32(0)], m[uint32(0)])
	}
	id, ok := m[uint32(1)].(string)
	if !ok {
		return r, fmt.Errorf("identity is %v (%T)", m[uint32(1)], m[uint32(1)])
	}
	r.Type, r.ID, r.A = code, vt.S(id), map[string]Val{}
	for k, v := range m {
		c, ok := k.(uint32)
		if !ok {
			return r, fmt.Errorf("attribute key %v (%T)", k, k)
		}
		if c < 2 {
			continue
		}
		f := t.FieldByCode(c)
		if f == nil {
			return r, fmt.Errorf("unexpected attribute %d of %s", c, t.Name)
		}
		switch x := v.(type) {
		case string:
			if f.Kind == Str || f.Kind == Named {
				r.A[f.Name] = VS(x)
			}
		case []any:
			if f.Kind == List {
				all := ""
				for _, e := range x {
					s, ok := e.(string)
					if !ok || len(split(s)) != 1 {
						return r, fmt.Errorf("attribute %s of %s holds %v (%T)", f.Name, t.Name, e, e)
					}
					all += s
				}
				r.A[f.Name] = VS(all)
			}
		case uint64:
			if f.Kind == U64 {
				r.A[f.Name] = VU(x)
			}
			if f.Kind == Time && x <= math.MaxInt64 {
				r.A[f.Name] = VT(int64(x))
			}
		}
		if _, ok := r.A[f.Name]; !ok {
			return r, fmt.Errorf("attribute %s of %s is %v (%T)", f.Name, t.Name, v, v)
		}
	}
	return r, nil
}
