package codec

import (
	"fmt"
	"math"
	"time"

	amqp "github.com/Azure/go-amqp"
	"pgregory.net/rapid"

	"vanflowverif/rec"
	"vanflowverif/vt"
)

// AV is any AMQP value as plain data.
type AV struct {
	K string `json:"k"`
	S vt.S   `json:"s,omitempty"`
	U uint64 `json:"u,omitempty"`
	L []AV   `json:"l,omitempty"`
	M []KV   `json:"m,omitempty"`
}

type KV struct {
	K AV `json:"k"`
	V AV `json:"v"`
}

var scalarKinds = []string{"null", "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "str", "bin", "uuid", "time"}

func (a AV) Go() any {
	switch a.K {
	case "null":
		return nil
	case "bool":
		return a.U%2 == 1
	case "u8":
		return uint8(a.U)
	case "u16":
		return uint16(a.U)
	case "u32":
		return uint32(a.U)
	case "u64":
		return a.U
	case "i8":
		return int8(a.U)
	case "i16":
		return int16(a.U)
	case "i32":
		return int32(a.U)
	case "i64":
		return int64(a.U)
	case "f32":
		return float32(a.U)
	case "f64":
		return float64(a.U)
	case "str":
		return string(a.S)
	case "bin":
		return []byte(a.S)
	case "uuid":
		var u amqp.UUID
		copy(u[:], a.S)
		return u
	case "time":
		return time.UnixMilli(int64(a.U % (1 << 40)))
	case "list":
		out := make([]any, len(a.L))
		for i := range a.L {
			out[i] = a.L[i].Go()
		}
		return out
	case "strs":
		out := make([]string, len(a.L))
		for i := range a.L {
			out[i] = string(a.L[i].S)
		}
		return out
	case "map":
		out := map[any]any{}
		for _, kv := range a.M {
			k := kv.K.Go()
			if _, bad := k.([]byte); bad {
				continue // not usable as a Go map key
			}
			out[k] = kv.V.Go()
		}
		return out
	case "smap":
		out := map[string]any{}
		for _, kv := range a.M {
			out[string(kv.K.S)] = kv.V.Go()
		}
		return out
	}
	panic("unknown AV kind " + a.K)
}

func genScalar(t *rapid.T) AV {
	a := AV{K: rapid.SampledFrom(scalarKinds).Draw(t, "k")}
	switch a.K {
	case "str":
		a.S = vt.S(rapid.StringN(0, 6, -1).Draw(t, "s"))
	case "bin", "uuid":
		a.S = vt.S(rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "b"))
	case "null":
	default:
		a.U = rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, 2, 3, 4, 9, 255, math.MaxUint32, 1 << 63, math.MaxUint64}), rapid.Uint64()).Draw(t, "u")
	}
	return a
}

func genAV(depth int) *rapid.Generator[AV] {
	return rapid.Custom(func(t *rapid.T) AV {
		k := rapid.IntRange(0, 11).Draw(t, "avk")
		if depth <= 0 || k < 8 {
			return genScalar(t)
		}
		switch k {
		case 8:
			return AV{K: "list", L: rapid.SliceOfN(genAV(depth-1), 0, 3).Draw(t, "l")}
		case 9:
			a := AV{K: "strs"}
			for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
				a.L = append(a.L, AV{K: "str", S: vt.S(rapid.StringN(0, 4, -1).Draw(t, "s"))})
			}
			return a
		default:
			a := AV{K: "map"}
			for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
				a.M = append(a.M, KV{genScalar(t), genAV(depth-1).Draw(t, "v")})
			}
			return a
		}
	})
}

// genAttrs draws an attribute map: mostly one that a record could have, with
// alterations.
func genAttrs(types []uint32) *rapid.Generator[[]KV] {
	return rapid.Custom(func(t *rapid.T) []KV {
		var out []KV
		code := rapid.SampledFrom(types).Draw(t, "code")
		u32 := func(c uint32) AV { return AV{K: "u32", U: uint64(c)} }
		switch rapid.IntRange(0, 19).Draw(t, "tk") {
		case 0: // no type
		case 1:
			out = append(out, KV{u32(0), genAV(1).Draw(t, "tv")})
		case 2:
			out = append(out, KV{u32(0), u32(rapid.SampledFrom([]uint32{15, 16, 47, 255, math.MaxUint32}).Draw(t, "unk"))})
		case 3: // the number in another integer kind
			out = append(out, KV{u32(0), AV{K: rapid.SampledFrom([]string{"u64", "i32", "u8", "i64"}).Draw(t, "ik"), U: uint64(code)}})
		default:
			out = append(out, KV{u32(0), u32(code)})
		}
		switch rapid.IntRange(0, 11).Draw(t, "idk") {
		case 0:
		case 1:
			out = append(out, KV{u32(1), genAV(1).Draw(t, "idv")})
		default:
			out = append(out, KV{u32(1), AV{K: "str", S: vt.S(rapid.StringN(1, 6, -1).Draw(t, "id"))}})
		}
		wrong := rapid.IntRange(0, 3).Draw(t, "wrong") // one in four maps has wrong kinds in it
		for _, f := range rec.TypeOf(code).Fields {
			if rapid.IntRange(0, 9).Draw(t, "set") < 5 {
				continue
			}
			var v AV
			if wrong == 0 && rapid.IntRange(0, 3).Draw(t, "wr") == 0 {
				v = genAV(1).Draw(t, "wv")
			} else if f.Kind == rec.Str {
				v = AV{K: "str", S: vt.S(rapid.StringN(0, 5, -1).Draw(t, "s"))}
			} else {
				v = AV{K: "u64", U: rec.GenU64(rec.Opts{}).Draw(t, "u")}
				if f.Kind == rec.Time && wrong != 0 {
					v.U &= math.MaxInt64
				}
			}
			out = append(out, KV{u32(f.Code), v})
		}
		for i := rapid.IntRange(0, 3).Draw(t, "extra"); i > 0; i-- {
			switch rapid.IntRange(0, 2).Draw(t, "ek") {
			case 0: // codepoints no type has
				out = append(out, KV{u32(rapid.SampledFrom([]uint32{6, 7, 8, 44, 45, 47, 54, 1000, math.MaxUint32}).Draw(t, "uc")), genAV(1).Draw(t, "ev")})
			case 1: // known numbers and names under keys of other kinds
				out = append(out, KV{AV{K: rapid.SampledFrom([]string{"u64", "i32", "u8", "i64", "u16"}).Draw(t, "ik"), U: uint64(rapid.IntRange(0, 53).Draw(t, "ic"))}, genAV(1).Draw(t, "ev")})
			case 2:
				out = append(out, KV{genScalar(t), genAV(1).Draw(t, "ev")})
			}
		}
		return out
	})
}

// refDecode is the reference decoder of attribute maps. emptyID reports the
// one case the protocol leaves open: an identity that is present and empty.
func refDecode(attrs map[any]any) (r rec.Rec, emptyID bool, err error) {
	code, ok := attrs[uint32(0)].(uint32)
	if !ok {
		return r, false, fmt.Errorf("no record type")
	}
	t := rec.TypeOf(code)
	if t == nil {
		return r, false, fmt.Errorf("unknown record type %d", code)
	}
	id, ok := attrs[uint32(1)].(string)
	if !ok {
		return r, false, fmt.Errorf("no identity")
	}
	r = rec.Rec{Type: code, ID: vt.S(id), A: map[string]rec.Val{}}
	for _, f := range t.Fields {
		raw, present := attrs[f.Code]
		if !present {
			continue
		}
		switch f.Kind {
		case rec.Str:
			s, ok := raw.(string)
			if !ok {
				return r, false, fmt.Errorf("%s is a %T", f.Name, raw)
			}
			r.A[f.Name] = rec.VS(s)
		case rec.U64:
			u, ok := raw.(uint64)
			if !ok {
				return r, false, fmt.Errorf("%s is a %T", f.Name, raw)
			}
			r.A[f.Name] = rec.VU(u)
		case rec.Time:
			u, ok := raw.(uint64)
			if !ok || u > math.MaxInt64 {
				return r, false, fmt.Errorf("%s is not a time: %v", f.Name, raw)
			}
			r.A[f.Name] = rec.VT(int64(u))
		}
	}
	return r, id == "", nil
}
