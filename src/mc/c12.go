package main

import (
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// User defined types based on supported ones.
type (
	uBool     bool
	uInt      int
	uInt8     int8
	uInt16    int16
	uInt32    int32
	uInt64    int64
	uUint     uint
	uUint8    uint8
	uUint16   uint16
	uUint32   uint32
	uUint64   uint64
	uFloat32  float32
	uFloat64  float64
	uString   string
	uStringer int32
)

func (u uStringer) String() string { return fmt.Sprintf("uStringer%d", int32(u)) }

// User defined types that have texts of their own or the names of others.
type (
	uText    string
	uPtrText string
	uRate    float64
	uSwitch  bool
	uSize    uint64
	Duration int64
)

func (u uText) String() string                { return "uText " + string(u) }
func (u uText) MarshalJSON() ([]byte, error)  { return []byte("\"uText\""), nil }
func (u uText) MarshalText() ([]byte, error)  { return []byte("uText"), nil }
func (u *uPtrText) String() string            { return "uPtrText" }
func (u *uPtrText) GoString() string          { return "uPtrText" }
func (u *uPtrText) Error() string             { return "uPtrText" }
func (u uRate) String() string                { return "uRate" }
func (u uRate) Format(f fmt.State, verb rune) { f.Write([]byte("uRate")) }
func (u uRate) MarshalJSON() ([]byte, error)  { return []byte("1"), nil }
func (u uSwitch) String() string              { return "uSwitch" }
func (u uSwitch) MarshalText() ([]byte, error) {
	return []byte("uSwitch"), nil
}
func (u uSize) String() string             { return "uSize" }
func (u uSize) GobEncode() ([]byte, error) { return []byte("uSize"), nil }
func (d Duration) String() string          { return "Duration" }
func (d Duration) Seconds() float64        { return 0 }

// User defined slice types.
type (
	sBool      []bool
	sUBool     []uBool
	sInt       []int
	sUInt      []uInt
	sInt8      []int8
	sUInt8     []uInt8
	sInt16     []int16
	sUInt16    []uInt16
	sInt32     []int32
	sUInt32    []uInt32
	sUStringer []uStringer
	sInt64     []int64
	sUInt64    []uInt64
	sUint      []uint
	sUUint     []uUint
	sUint8     []uint8
	sUUint8    []uUint8
	sUint16    []uint16
	sUUint16   []uUint16
	sUint32    []uint32
	sUUint32   []uUint32
	sUint64    []uint64
	sUUint64   []uUint64
	sFloat32   []float32
	sUFloat32  []uFloat32
	sFloat64   []float64
	sUFloat64  []uFloat64
	sString    []string
	sUString   []uString
	sTime      []time.Time
	sDuration  []time.Duration
	sUText     []uText
	sUPtrText  []uPtrText
	sURate     []uRate
	sUSwitch   []uSwitch
	sUSize     []uSize
	sUDuration []Duration
)

// namedSlices are the user defined slice types by element type.
var namedSlices = func() map[reflect.Type]reflect.Type {
	out := map[reflect.Type]reflect.Type{}
	for _, s := range []any{sBool(nil), sUBool(nil), sInt(nil), sUInt(nil), sInt8(nil), sUInt8(nil), sInt16(nil), sUInt16(nil), sInt32(nil), sUInt32(nil), sUStringer(nil), sInt64(nil), sUInt64(nil), sUint(nil), sUUint(nil), sUint8(nil), sUUint8(nil), sUint16(nil), sUUint16(nil), sUint32(nil), sUUint32(nil), sUint64(nil), sUUint64(nil), sFloat32(nil), sUFloat32(nil), sFloat64(nil), sUFloat64(nil), sString(nil), sUString(nil), sTime(nil), sDuration(nil), sUText(nil), sUPtrText(nil), sURate(nil), sUSwitch(nil), sUSize(nil), sUDuration(nil)} {
		out[reflect.TypeOf(s).Elem()] = reflect.TypeOf(s)
	}
	return out
}()

// elem is a supported element type with the type the API promises.
type elem struct {
	typ  reflect.Type
	want reflect.Type
	kind types.Type
	bits int
	vals []any // values of type want; the first three differ
}

func elems() []elem {
	t0 := time.Unix(1234567890, 987654321).UTC()
	mk := func(v, want any, kind types.Type, bits int, vals ...any) elem {
		return elem{reflect.TypeOf(v), reflect.TypeOf(want), kind, bits, vals}
	}
	i8 := []any{int8(1), int8(-128), int8(127), int8(0)}
	i16 := []any{int16(1), int16(-32768), int16(32767), int16(0)}
	i32 := []any{int32(1), int32(math.MinInt32), int32(math.MaxInt32), int32(0)}
	i64 := []any{int64(1), int64(math.MinInt64), int64(math.MaxInt64), int64(0), int64(1<<53 + 1)}
	u8 := []any{uint8(1), uint8(255), uint8(7), uint8(0)}
	u16 := []any{uint16(1), uint16(65535), uint16(7), uint16(0)}
	u32 := []any{uint32(1), uint32(math.MaxUint32), uint32(7), uint32(0)}
	u64 := []any{uint64(1), uint64(math.MaxUint64), uint64(7), uint64(0), uint64(1<<53 + 1)}
	f32 := []any{float32(1.5), float32(-math.MaxFloat32), float32(0.1), float32(0), float32(math.SmallestNonzeroFloat32)}
	f64 := []any{float64(1.5), -math.MaxFloat64, 0.1, float64(0), math.SmallestNonzeroFloat64, 1e21}
	str := []any{"a", "<b> \"q\" & ü", "x y", ""}
	bo := []any{true, false, true}
	return []elem{
		mk(false, false, types.Bool, 0, bo...), mk(uBool(false), false, types.Bool, 0, bo...),
		mk(int(0), int64(0), types.Int64, 64, i64...), mk(uInt(0), int64(0), types.Int64, 64, i64...),
		mk(int8(0), int8(0), types.Int8, 8, i8...), mk(uInt8(0), int8(0), types.Int8, 8, i8...),
		mk(int16(0), int16(0), types.Int16, 16, i16...), mk(uInt16(0), int16(0), types.Int16, 16, i16...),
		mk(int32(0), int32(0), types.Int32, 32, i32...), mk(uInt32(0), int32(0), types.Int32, 32, i32...),
		mk(uStringer(0), int32(0), types.Int32, 32, i32...),
		mk(int64(0), int64(0), types.Int64, 64, i64...), mk(uInt64(0), int64(0), types.Int64, 64, i64...),
		mk(uint(0), uint64(0), types.Uint64, 64, u64...), mk(uUint(0), uint64(0), types.Uint64, 64, u64...),
		mk(uint8(0), uint8(0), types.Uint8, 8, u8...), mk(uUint8(0), uint8(0), types.Uint8, 8, u8...),
		mk(uint16(0), uint16(0), types.Uint16, 16, u16...), mk(uUint16(0), uint16(0), types.Uint16, 16, u16...),
		mk(uint32(0), uint32(0), types.Uint32, 32, u32...), mk(uUint32(0), uint32(0), types.Uint32, 32, u32...),
		mk(uint64(0), uint64(0), types.Uint64, 64, u64...), mk(uUint64(0), uint64(0), types.Uint64, 64, u64...),
		mk(float32(0), float32(0), types.Float32, 32, f32...), mk(uFloat32(0), float32(0), types.Float32, 32, f32...),
		mk(float64(0), float64(0), types.Float64, 64, f64...), mk(uFloat64(0), float64(0), types.Float64, 64, f64...),
		mk("", "", types.String, 0, str...), mk(uString(""), "", types.String, 0, str...),
		mk(time.Time{}, time.Time{}, types.GoTime, 0, t0, time.Unix(-5, 500000000).UTC(), time.Unix(0, 1).UTC(), time.Time{}),
		mk(time.Duration(0), time.Duration(0), types.GoDuration, 0, time.Duration(1500000001), -time.Hour, time.Duration(1), time.Duration(0)),
		mk(uText(""), "", types.String, 0, str...), mk(uPtrText(""), "", types.String, 0, str...),
		mk(uRate(0), float64(0), types.Float64, 64, f64...), mk(uSwitch(false), false, types.Bool, 0, bo...),
		mk(uSize(0), uint64(0), types.Uint64, 64, u64...), mk(Duration(0), int64(0), types.Int64, 64, i64...),
	}
}

// sliceOf makes a slice of element type t with spare capacity.
func sliceOf(t reflect.Type, vals []any, idx ...int) reflect.Value {
	return sliceAs(reflect.SliceOf(t), vals, idx...)
}

// sliceAs makes a slice of slice type st with spare capacity.
func sliceAs(st reflect.Type, vals []any, idx ...int) reflect.Value {
	t := st.Elem()
	s := reflect.MakeSlice(st, 0, len(idx)+2)
	for _, i := range idx {
		s = reflect.Append(s, reflect.ValueOf(vals[i%len(vals)]).Convert(t))
	}
	return s
}

var c12Variants = [][]int{{}, {0}, {0, 1, 2}, {2, 1, 0, 0}, {1, 0, 2}}

type c12Op struct {
	op  string // change, mutate, bad, again
	v   int    // variant, -1 nil slice; again: 0 the same slice, 1 without its last, 2 without its first element
	mut bool
	alt int // 1: with another Go type of the same kind, 2: with a user defined slice type
	bad int
}

func (o c12Op) String() string {
	switch o.op {
	case "mutate":
		return "caller mutates"
	case "bad":
		return fmt.Sprintf("change to bad value %d", o.bad)
	case "again":
		return fmt.Sprintf("change to the slice given last (part %d, mutable %v)", o.v, o.mut)
	}
	return fmt.Sprintf("change(variant %d, mutable %v, other type %d)", o.v, o.mut, o.alt)
}

type c12Struct struct{ X int }

func c12Bad(e elem) []any {
	ptr := reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(e.typ)), 1, 1).Interface()
	other := any([]string{"z"})
	if e.kind == types.String {
		other = []int64{5}
	}
	near := any([]int8{5}) // same category, other size
	if e.kind == types.Int8 {
		near = []int16{5}
	}
	return []any{nil, 5, other, near, ptr, []c12Struct{{1}}, []any{1}, [2]int64{1, 2}, map[string]int{}, []complex128{1}, [][]int64{{1}}, []*tricorder.List{}}
}

func sameValue(a, b any) bool {
	if x, ok := a.(time.Time); ok {
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	return reflect.DeepEqual(a, b)
}

// sameSlice compares a reported slice, type included, with the values expected.
func sameSlice(got any, e elem, idx []int) error {
	v := reflect.ValueOf(got)
	if !v.IsValid() || v.Type() != reflect.SliceOf(e.want) {
		return fmt.Errorf("reported as %T, want %v", got, reflect.SliceOf(e.want))
	}
	if v.Len() != len(idx) {
		return fmt.Errorf("reported %v, want %d elements", got, len(idx))
	}
	for i, k := range idx {
		if w := e.vals[k%len(e.vals)]; !sameValue(v.Index(i).Interface(), w) {
			return fmt.Errorf("element %d is %v, want %v", i, v.Index(i), w)
		}
	}
	return nil
}

func c12Run(w *W, e elem, alt reflect.Type, seq []c12Op) {
	w.Eval()
	w.cur = func() string { return fmt.Sprint(e.typ, seq) }
	type given struct {
		s    reflect.Value
		idx  []int
		mut  bool
		dir  bool // mutated by the caller
		flip int
	}
	var gs []*given
	give := func(o c12Op) any {
		t := reflect.SliceOf(e.typ)
		switch o.alt {
		case 1:
			t = reflect.SliceOf(alt)
		case 2:
			t = namedSlices[e.typ]
		}
		if o.v < 0 {
			return reflect.Zero(t).Interface()
		}
		g := &given{s: sliceAs(t, e.vals, c12Variants[o.v]...), idx: c12Variants[o.v], mut: o.mut}
		gs = append(gs, g)
		return g.s.Interface()
	}
	var cur []int
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	var l *tricorder.List
	type earlier struct {
		val any
		idx []int
	}
	var reads []earlier
	defer tricorder.UnregisterPath(dir)
	check := func(i int) bool {
		for _, kind := range []string{"inproc", "rpc"} {
			var got any
			if kind == "inproc" {
				r := tricorder.ReadMyMetrics(dir + "/l")
				if len(r) != 1 || r[0].Kind != types.List || r[0].SubType != e.kind || r[0].Bits != e.bits {
					w.Fail("report", "%v after %v: reported as %v", e.typ, seq[:i+1], r)
					return false
				}
				got = r[0].Value
				reads = append(reads, earlier{got, cur})
			} else {
				if i != len(seq)-1 {
					continue
				}
				m, err := rpcGet(dir + "/l")
				if err != nil {
					w.Fail("report", "%v after %v: %v", e.typ, seq[:i+1], err)
					return false
				}
				got = m.Value
				if len(cur) == 0 && reflect.ValueOf(got).Len() == 0 {
					continue
				}
			}
			if err := sameSlice(got, e, cur); err != nil {
				w.Fail("report", "%v after %v through %s: %v", e.typ, seq[:i+1], kind, err)
				return false
			}
		}
		return true
	}
	for i, o := range seq {
		w.Trans(1)
		switch o.op {
		case "change":
			a := give(o)
			if r := catch(func() {
				if l == nil {
					l = tricorder.NewList(a, o.mut)
					must(tricorder.RegisterMetric(dir+"/l", l, units.None, ""))
				} else {
					l.Change(a, o.mut)
				}
			}); r != nil {
				w.Fail("refused", "%v: step %d of %v panics: %v", e.typ, i, seq, r)
				return
			}
			cur = nil
			if o.v >= 0 {
				cur = c12Variants[o.v]
			}
		case "again":
			g := gs[len(gs)-1]
			lo, hi := 0, g.s.Len()
			if o.v == 1 && hi > 0 {
				hi--
			} else if o.v == 2 && hi > 0 {
				lo++
			}
			if r := catch(func() { l.Change(g.s.Slice(lo, hi).Interface(), o.mut) }); r != nil {
				w.Fail("refused", "%v: step %d of %v panics: %v", e.typ, i, seq, r)
				return
			}
			g.mut = g.mut && o.mut
			cur = append([]int{}, g.idx[lo:hi]...)
		case "mutate":
			for _, g := range gs {
				if !g.mut {
					continue
				}
				g.dir = true
				g.flip++
				full := g.s.Slice(0, g.s.Cap())
				g.idx = nil
				for j := 0; j < full.Len(); j++ {
					k := (j + g.flip) % 2
					full.Index(j).Set(reflect.ValueOf(e.vals[k]).Convert(full.Type().Elem()))
					if j < g.s.Len() {
						g.idx = append(g.idx, k)
					}
				}
			}
		case "bad":
			b := c12Bad(e)[o.bad]
			if r := catch(func() {
				if l == nil {
					l = tricorder.NewList(b, o.mut)
				} else {
					l.Change(b, o.mut)
				}
			}); r == nil && !(l == nil) && !c12Harmless(e, o.bad, i == 0) {
				w.Fail("accepted", "%v: step %d of %v does not panic", e.typ, i, seq)
				return
			}
			if l == nil || i == 0 {
				return
			}
		}
		if l != nil && !check(i) {
			return
		}
	}
	for _, r := range reads {
		if err := sameSlice(r.val, e, r.idx); err != nil {
			w.Fail("earlier", "%v: a value read before a later step of %v has changed: %v", e.typ, seq, err)
		}
	}
	for _, g := range gs {
		if g.dir {
			continue
		}
		for j, k := range g.idx {
			if x := reflect.ValueOf(e.vals[k%len(e.vals)]).Convert(g.s.Type().Elem()); !sameValue(g.s.Index(j).Interface(), x.Interface()) {
				w.Fail("caller", "%v: the caller's slice has been modified by %v", e.typ, seq)
			}
		}
	}
	w.State(fmt.Sprint(e.typ, cur, len(gs)))
	w.Trace()
}

// c12Again: longer histories in which the caller reuses one slice.
func c12Again(w *W, e elem) {
	ops := []c12Op{{op: "change", v: 2, mut: true}, {op: "again", mut: true}, {op: "again", v: 1, mut: true}, {op: "again", v: 2, mut: true}, {op: "again"}, {op: "mutate"}}
	depth := 5
	if w.tier == "thorough" {
		depth = 6
	}
	var rec func(seq []c12Op)
	rec = func(seq []c12Op) {
		c12Run(w, e, e.typ, seq)
		if len(seq) < depth {
			for _, o := range ops {
				rec(append(seq[:len(seq):len(seq)], o))
			}
		}
	}
	for _, v := range []int{0, 1, 3} {
		for _, alt := range []int{0, 2} {
			rec([]c12Op{{op: "change", v: v, mut: true, alt: alt}})
		}
	}
}

// c12Harmless: a bad value for Change may be a fine value for NewList.
func c12Harmless(e elem, bad int, create bool) bool {
	return create && (bad == 2 || bad == 3)
}

func init() {
	define(&Def{ID: "C12",
		Tasks: func(tier string) []string {
			var out []string
			for i := range elems() {
				for v := 0; v < 6; v++ {
					out = append(out, fmt.Sprintf("seq/%d/%d", i, v))
				}
				out = append(out, fmt.Sprintf("long/%d", i), fmt.Sprintf("again/%d", i))
			}
			return out
		},
		Do: func(w *W, name string) {
			if oddTask(w, name, nativeJudge(w)) {
				return
			}
			var ei, v int
			fmt.Sscanf(name, "seq/%d/%d", &ei, &v)
			es := elems()
			if n, _ := fmt.Sscanf(name, "again/%d", &ei); n == 1 {
				c12Again(w, es[ei])
				return
			}
			e := es[ei]
			// another Go type of the same kind
			alt := e.typ
			for _, x := range es {
				if x.kind == e.kind && x.typ != e.typ {
					alt = x.typ
				}
			}
			var first, ops []c12Op
			for _, mut := range []bool{false, true} {
				if v < 5 {
					first = append(first, c12Op{op: "change", v: v, mut: mut}, c12Op{op: "change", v: v, mut: mut, alt: 2})
				} else {
					first = append(first, c12Op{op: "change", v: -1, mut: mut})
					for b := range c12Bad(e) {
						first = append(first, c12Op{op: "bad", bad: b, mut: mut})
					}
				}
				for k := -1; k < 5; k++ {
					ops = append(ops, c12Op{op: "change", v: k, mut: mut})
				}
				ops = append(ops, c12Op{op: "change", v: 2, mut: mut, alt: 1}, c12Op{op: "change", v: 4, mut: mut, alt: 1},
					c12Op{op: "change", v: 2, mut: mut, alt: 2}, c12Op{op: "change", v: -1, mut: mut, alt: 2})
			}
			ops = append(ops, c12Op{op: "mutate"})
			for b := range c12Bad(e) {
				ops = append(ops, c12Op{op: "bad", bad: b, mut: b%2 == 0})
			}
			depth := 3
			if w.tier == "thorough" {
				depth = 4
			}
			var rec func(seq []c12Op)
			rec = func(seq []c12Op) {
				c12Run(w, e, alt, seq)
				if len(seq) == depth || seq[0].op == "bad" {
					return
				}
				for _, o := range ops {
					rec(append(seq[:len(seq):len(seq)], o))
				}
			}
			for _, o := range first {
				w.Sample(fmt.Sprint(e.typ, o))
				rec([]c12Op{o})
			}
		},
		Rule: "all histories up to the depth of creating a list, changing it to slices of several lengths (mutable or not, also of another Go type of the same kind or of a user defined slice type), mutating the slices given, and changing it to unsupported values, for every element type; after every step the reported value, its type and sub-type, the values read earlier and the caller's own slices are checked; lists of many lengths up to 65537, created and changed to, mutable or not; longer histories in which the caller changes one slice in place and gives it, or a part of it, again"})
}
