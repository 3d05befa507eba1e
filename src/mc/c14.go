package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// boundary are the values enumerated for an element type (as promised type).
func boundary(e elem, tier string) []any {
	out := append([]any{}, e.vals...)
	thorough := true
	add := func(v any) { out = append(out, reflect.ValueOf(v).Convert(e.want).Interface()) }
	switch e.kind {
	case types.Int8, types.Int16, types.Int32, types.Int64:
		for k := 0; k < e.bits-1; k++ {
			if !thorough && k%8 != 7 && k%8 != 0 && k < e.bits-3 && k != 53 {
				continue
			}
			for d := int64(-1); d <= 1; d++ {
				v := int64(1)<<k + d
				if v>>(e.bits-1) == 0 {
					add(v)
					add(-v)
				}
			}
			if v := int64(3) << k; k+3 <= e.bits {
				add(v)
				add(-v)
			}
		}
	case types.Uint8, types.Uint16, types.Uint32, types.Uint64:
		for k := 0; k < e.bits; k++ {
			if !thorough && k%8 != 7 && k%8 != 0 && k < e.bits-2 && k != 53 {
				continue
			}
			for d := int64(-1); d <= 1; d++ {
				v := uint64(1)<<k + uint64(d)
				if e.bits == 64 || v>>e.bits == 0 {
					add(v)
				}
			}
			if v := uint64(3) << k; k+2 <= e.bits {
				add(v)
			}
		}
	case types.Float32, types.Float64:
		for _, v := range []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1.0 / 3, 1e-7, 1e-6, 123456789, 1e20, 1e21, -1e21, 1e22, 16777217, 1 << 53, 1e-30, 3.4e38, 255.255} {
			add(v)
			if thorough {
				for k := -30; k <= 30; k += 3 {
					add(v * math.Pow(10, float64(k)/2))
				}
			}
		}
		kept := out[:0]
		for _, v := range out {
			if f := reflect.ValueOf(v).Float(); !math.IsInf(f, 0) && !math.IsNaN(f) {
				kept = append(kept, v)
			}
		}
		out = kept
	case types.String:
		for _, v := range []string{"null", "true", "123", "a|b", "\\", "\\\"", "\t", "\u2028", "日本", "</script>", "%20", "\x00", "\u007f", "😀", " lead", "trail ", "line\nbreak"} {
			add(v)
		}
		if thorough {
			for r := rune(1); r < 256; r++ {
				add("x" + string(r) + "y")
			}
		}
	case types.GoTime:
		secs := []int64{0, 1, -1, -2, 59, 1e9, -1e9, 1500000000, 253402300799, -62135596799, 1 << 33, -(1 << 33)}
		ns := []int64{0, 1, 999999999, 500000000, 100, 123456789, 999999}
		for _, s := range secs {
			for _, n := range ns {
				out = append(out, time.Unix(s, n).UTC())
			}
		}
		out = append(out, time.Unix(1500000000, 5), time.Unix(1500000000, 5).In(time.FixedZone("X", 3600*5+1800)))
	case types.GoDuration:
		for _, b := range []int64{0, 1, 999, 1000, 1e6, 1e9, 60e9, 3600e9, 86400e9, 1e18, math.MaxInt64 - 1} {
			for d := int64(-1); d <= 1; d++ {
				out = append(out, time.Duration(b+d), time.Duration(-(b + d)))
			}
		}
		out = append(out, time.Duration(math.MinInt64))
	}
	// no duplicates
	seen := map[string]bool{}
	kept := out[:0]
	for _, v := range out {
		k := fmt.Sprintf("%#v", v)
		if !seen[k] {
			seen[k] = true
			kept = append(kept, v)
		}
	}
	return kept
}

// vcase is a metric to register and what has to be reported.
type vcase struct {
	desc    string
	spec    any
	kind    types.Type
	sub     types.Type
	bits    int
	val     any // current value as promised type
	set     func(v any)
	initial any
}

// vcases yields the metrics of an element type for the given values.
func vcases(e elem, vals []any, form string) []vcase {
	var out []vcase
	conv := func(v any) reflect.Value { return reflect.ValueOf(v).Convert(e.typ) }
	switch form {
	case "var":
		for _, v := range vals {
			p := reflect.New(e.typ)
			p.Elem().Set(conv(v))
			out = append(out, vcase{desc: "variable", spec: p.Interface(), kind: e.kind, bits: e.bits, val: v,
				set: func(v any) { p.Elem().Set(conv(v)) }})
		}
	case "func":
		for _, v := range vals {
			cur := v
			f := reflect.MakeFunc(reflect.FuncOf(nil, []reflect.Type{e.typ}, false), func([]reflect.Value) []reflect.Value {
				return []reflect.Value{conv(cur)}
			})
			out = append(out, vcase{desc: "callback", spec: f.Interface(), kind: e.kind, bits: e.bits, val: v,
				set: func(v any) { cur = v }})
		}
	case "ptr": // pointer to a pointer to a time
		if e.kind != types.GoTime {
			return nil
		}
		for _, v := range vals {
			t := v.(time.Time)
			p := &t
			out = append(out, vcase{desc: "time pointer", spec: &p, kind: e.kind, val: v,
				set: func(v any) { t2 := v.(time.Time); p = &t2 }})
			q := &t
			out = append(out, vcase{desc: "time pointer callback", spec: func() *time.Time { return q }, kind: e.kind, val: v,
				set: func(v any) { t2 := v.(time.Time); q = &t2 }})
		}
		var n *time.Time
		out = append(out, vcase{desc: "nil time pointer", spec: &n, kind: e.kind, val: time.Time{}})
		out = append(out, vcase{desc: "nil time pointer callback", spec: func() *time.Time { return nil }, kind: e.kind, val: time.Time{}})
	case "list":
		lists := [][]any{{}, vals}
		for i, v := range vals {
			lists = append(lists, []any{v})
			if i > 0 {
				lists = append(lists, []any{v, vals[i-1], v})
			}
		}
		for i, l := range lists {
			st := reflect.SliceOf(e.typ)
			if i%3 == 1 {
				st = namedSlices[e.typ]
			}
			s := reflect.MakeSlice(st, 0, len(l))
			want := reflect.MakeSlice(reflect.SliceOf(e.want), 0, len(l))
			for _, v := range l {
				s = reflect.Append(s, conv(v))
				want = reflect.Append(want, reflect.ValueOf(v))
			}
			li := tricorder.NewList(s.Interface(), len(l)%2 == 0)
			out = append(out, vcase{desc: "list", spec: li, kind: types.List, sub: e.kind, bits: e.bits, val: want.Interface(),
				set: func(v any) {
					s := reflect.MakeSlice(st, 0, 1)
					li.Change(reflect.Append(s, conv(v)).Interface(), true)
				}})
		}
		li := tricorder.NewList(reflect.Zero(reflect.SliceOf(e.typ)).Interface(), false)
		for _, mut := range []bool{false, true} {
			out = append(out, vcase{desc: "nil list of a user defined type", spec: tricorder.NewList(reflect.Zero(namedSlices[e.typ]).Interface(), mut), kind: types.List, sub: e.kind, bits: e.bits,
				val: reflect.MakeSlice(reflect.SliceOf(e.want), 0, 0).Interface()})
		}
		out = append(out, vcase{desc: "nil list", spec: li, kind: types.List, sub: e.kind, bits: e.bits,
			val: reflect.MakeSlice(reflect.SliceOf(e.want), 0, 0).Interface()})
	}
	return out
}

// sameReported compares values type included; a nil slice equals an empty one.
func sameReported(got, want any) bool {
	g, w := reflect.ValueOf(got), reflect.ValueOf(want)
	if !g.IsValid() || g.Type() != w.Type() {
		return false
	}
	if w.Kind() == reflect.Slice {
		if g.Len() != w.Len() {
			return false
		}
		for i := 0; i < g.Len(); i++ {
			if !sameReported(g.Index(i).Interface(), w.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
	if w.Kind() == reflect.Float32 || w.Kind() == reflect.Float64 {
		return math.Float64bits(g.Float()) == math.Float64bits(w.Float())
	}
	return sameValue(got, want)
}

var c14Stamp = time.Unix(1400000000, 123456789)

// c14Group is a group with a fixed time stamp.
var c14Group *tricorder.Group

func fixedGroup() *tricorder.Group {
	if c14Group == nil {
		c14Group = tricorder.NewGroup()
		c14Group.RegisterUpdateFunc(func() time.Time { return c14Stamp })
	}
	return c14Group
}

var moreUnits = append(append([]units.Unit{}, allUnits...), units.Unit("widgets <b>"))

func c14Judge(m *messages.Metric, path, desc string, u units.Unit, c vcase) error {
	switch {
	case m.Path != path:
		return fmt.Errorf("path is %q", m.Path)
	case m.Description != desc:
		return fmt.Errorf("description is %q", m.Description)
	case m.Unit != u:
		return fmt.Errorf("unit is %q", string(m.Unit))
	case m.Kind != c.kind:
		return fmt.Errorf("kind is %q, want %q", m.Kind, c.kind)
	case m.SubType != c.sub:
		return fmt.Errorf("sub-type is %q, want %q", m.SubType, c.sub)
	case m.Bits != c.bits:
		return fmt.Errorf("bits is %d, want %d", m.Bits, c.bits)
	case !sameReported(m.Value, c.val):
		return fmt.Errorf("value is %T %v, want %T %v", m.Value, m.Value, c.val, c.val)
	}
	ts, ok := m.TimeStamp.(time.Time)
	if !ok {
		return fmt.Errorf("timestamp is %T", m.TimeStamp)
	}
	if c.kind != types.List && !ts.Equal(c14Stamp) {
		return fmt.Errorf("timestamp is %v, want that of the group %v", ts, c14Stamp)
	}
	return nil
}

func c14Run(w *W, e elem, form string) {
	vals := boundary(e, w.tier)
	g := fixedGroup()
	for ci, c := range vcases(e, vals, form) {
		for ui, u := range moreUnits {
			w.Eval()
			w.cur = func() string { return fmt.Sprintf("%v %s of %v unit %q", e.typ, c.desc, c.val, string(u)) }
			execCount++
			dir := fmt.Sprintf("/x%d", execCount)
			desc := fmt.Sprintf("desc %d", ci%3)
			before := new(int64)
			*before = 77
			must(tricorder.RegisterMetricInGroup(dir+"/a", before, g, units.None, ""))
			if err := tricorder.RegisterMetricInGroup(dir+"/m/n", c.spec, g, u, desc); err != nil {
				w.Fail("refused/"+c.desc, "%s of %v cannot be registered: %v", c.desc, e.typ, err)
				tricorder.UnregisterPath(dir)
				continue
			}
			must(tricorder.RegisterMetricInGroup(dir+"/z", before, g, units.None, ""))
			steps := 1
			if c.set != nil && ui == 0 {
				steps = 2
			}
			cc := c
			for s := 0; s < steps; s++ {
				if s == 1 { // the value changes after registration
					nv := vals[(ci+1)%len(vals)]
					c.set(nv)
					cc.val = nv
					if c.kind == types.List {
						sl := reflect.MakeSlice(reflect.SliceOf(e.want), 0, 1)
						cc.val = reflect.Append(sl, reflect.ValueOf(nv)).Interface()
					}
				}
				for _, kind := range []string{"inproc", "inprocdir", "rpc1", "rpc"} {
					var l messages.MetricList
					var err error
					switch kind {
					case "inproc":
						l = tricorder.ReadMyMetrics(dir + "/m/n")
					case "inprocdir":
						l = tricorder.ReadMyMetrics(dir)
					case "rpc1":
						var m *messages.Metric
						m, err = rpcGet(dir + "/m/n")
						l = messages.MetricList{m}
					case "rpc":
						l, err = rpcList(dir)
					}
					if err == nil && len(l) == 3 {
						if l[0].Path != dir+"/a" || l[2].Path != dir+"/z" || l[0].Value != int64(77) || l[2].Value != int64(77) {
							err = fmt.Errorf("other metrics are not reported: %v %v", l[0], l[2])
						}
						l = l[1:2]
					}
					if err == nil && len(l) != 1 {
						err = fmt.Errorf("%d metrics", len(l))
					}
					if err == nil {
						err = c14Judge(l[0], dir+"/m/n", desc, u, cc)
					}
					if err != nil {
						w.Fail("report/"+kind, "%s of %v, value %v, unit %q through %s: %v", c.desc, e.typ, cc.val, string(u), kind, err)
					}
					w.Trans(1)
				}
			}
			if steps == 2 && c.kind != types.List {
				c.set(c.val)
			} else if steps == 2 {
				// the list stays changed
				c.val = cc.val
			}
			tricorder.UnregisterPath(dir)
			w.State(fmt.Sprint(e.typ, form, ci, ui))
			w.Trace()
			w.Sample(w.cur())
		}
	}
}

// c14Reject registers things of unsupported types next to good ones.
func c14Reject(w *W) {
	type st struct{ X int }
	var (
		ch   chan int
		mp   map[string]int
		ifc  any
		cx   complex128
		arr  [3]int
		sl   []int
		pp   *int
		s    st
		er   error
		f    func()
		uptr uintptr
		dd   **time.Time
		lp   *tricorder.List
	)
	wrong := map[string]any{
		"*chan": &ch, "*map": &mp, "*interface": &ifc, "*complex": &cx, "*array": &arr, "*slice": &sl, "**int": &pp, "*struct": &s,
		"*error": &er, "*func": &f, "*uintptr": &uptr, "***time": &dd, "**List": &lp,
		"func struct": func() st { return s }, "func *int": func() *int { return nil }, "func error": func() error { return nil },
		"func interface": func() any { return 1 }, "func slice": func() []int { return nil }, "func complex": func() complex64 { return 1 },
		"func map": func() map[string]int { return nil }, "func chan": func() chan int { return nil }, "func **time": func() **time.Time { return nil },
		"func with argument": func(int) int { return 1 }, "func with arguments": func(string, ...int) int { return 1 },
	}
	// misuse that may also be refused by a panic
	odd := map[string]any{"nil": nil, "int": 5, "string": "x", "struct": s, "func without result": func() {}, "func with two results": func() (int, error) { return 1, nil },
		"func with three results": func() (int, int, int) { return 1, 2, 3 }, "nil *int": (*int)(nil)}
	g := fixedGroup()
	try := func(name string, v any, mayPanic bool) {
		for _, u := range moreUnits {
			w.Eval()
			w.cur = func() string { return name }
			execCount++
			dir := fmt.Sprintf("/x%d", execCount)
			ok := new(string)
			*ok = "fine"
			must(tricorder.RegisterMetricInGroup(dir+"/a", ok, g, units.None, ""))
			var err error
			r := catch(func() { err = tricorder.RegisterMetricInGroup(dir+"/b", v, g, u, "") })
			switch {
			case r != nil && mayPanic:
			case r != nil:
				w.Fail("reject/"+name, "registering %s panics: %v", name, r)
			case err != tricorder.ErrWrongType:
				w.Fail("reject/"+name, "registering %s gives the error %v, want the wrong-type error", name, err)
			}
			must(tricorder.RegisterMetricInGroup(dir+"/c", ok, g, units.None, ""))
			for _, kind := range []string{"inproc", "rpc", "json", "text", "html"} {
				var n int
				rr := catch(func() {
					switch kind {
					case "inproc":
						n = len(tricorder.ReadMyMetrics(dir))
					case "rpc":
						l, _ := rpcList(dir)
						n = len(l)
					case "json":
						l, _ := jsonList(dir)
						n = len(l)
					case "text":
						n = strings.Count(string(fetch(textURL(dir)).Body), "\"fine\"")
					case "html":
						n = strings.Count(string(fetch(htmlURL(dir)).Body), "fine")
					}
				})
				if rr != nil || n != 2 {
					w.Fail("reject/"+name, "after trying to register %s, %s reports %d metrics (panic %v), want 2", name, kind, n, rr)
				}
				w.Trans(1)
			}
			// the refused registration left the path free
			if err := tricorder.RegisterMetricInGroup(dir+"/b", ok, g, units.None, ""); err != nil && (r != nil || err != nil) {
				w.Fail("reject/"+name, "after trying to register %s the path gives %v", name, err)
			}
			tricorder.UnregisterPath(dir)
			w.State(name + string(u))
			w.Sample(name)
			w.Trace()
		}
	}
	for name, v := range wrong {
		try(name, v, false)
	}
	for name, v := range odd {
		try(name, v, true)
	}
}

func elemTasks(forms ...string) func(string) []string {
	return func(string) []string {
		out := []string{}
		for i := range elems() {
			for _, f := range forms {
				out = append(out, fmt.Sprintf("elem/%d/%s", i, f))
			}
		}
		return out
	}
}

func init() {
	et := elemTasks("var", "func", "ptr", "list")
	define(&Def{ID: "C14",
		Tasks: func(tier string) []string {
			return append(append(append(et(tier), fullTasks(tier)...), oddTasks()...), "reject")
		},
		Do: func(w *W, name string) {
			if oddTask(w, name, nativeJudge(w)) {
				return
			}
			if strings.HasPrefix(name, "full/") {
				fullRange(w, name, func(dir, path string, c vcase) error {
					m, err := rpcGet(path)
					if err != nil {
						return err
					}
					l := tricorder.ReadMyMetrics(dir)
					if len(l) != 1 {
						return fmt.Errorf("%d metrics", len(l))
					}
					if err := c14Judge(l[0], path, "", units.None, c); err != nil {
						return err
					}
					return c14Judge(m, path, "", units.None, c)
				})
				return
			}
			if name == "reject" {
				c14Reject(w)
				return
			}
			f := strings.Split(name, "/")
			i, _ := strconv.Atoi(f[1])
			c14Run(w, elems()[i], f[2])
		},
		Rule: "every kind of metric (variable, callback, time pointer, list) of every supported and user defined primitive type x its boundary values x every unit, before and after the value changes, read in process and decoded from the RPC wire next to other metrics; every unsupported type is refused and leaves the others available; every short string over the characters special to some encoding, known escape sequences and long strings (up to 65537 bytes) as value, list element, description, unit and name; lists of every element type of many lengths up to 65537"})

	ec := elemTasks("var", "func", "ptr", "list")
	define(&Def{ID: "C15",
		Tasks: func(tier string) []string {
			return append(append(append(ec(tier), fullTasks(tier)...), oddTasks()...), "dist/false", "dist/true", "mixed/0", "mixed/1", "mixed/2", "mixed/3", "mixed/4", "mixed/5", "mixed/6", "mixed/7")
		},
		Do: func(w *W, name string) {
			if oddTask(w, name, viewsJudge(w)) {
				return
			}
			if strings.HasPrefix(name, "full/") {
				fullRange(w, name, func(dir, path string, c vcase) error {
					m, err := rpcGet(path)
					if err != nil {
						return err
					}
					return c15Compare(w, dir, path, m, units.None)
				})
				return
			}
			f := strings.Split(name, "/")
			if f[0] == "dist" {
				c15Dist(w, f[1] == "true")
				return
			}
			i, _ := strconv.Atoi(f[1])
			if f[0] == "mixed" {
				c15Mixed(w, i, 8)
				return
			}
			c15Run(w, elems()[i], f[2])
		},
		Rule: "every kind of metric of every supported type x its boundary values x every unit through JSON (singleton and listing) and plain text (singleton and listing), parsed and compared with the RPC response; distributions over all value multisets of an alphabet; listings of three metrics of every pair of kinds; odd and long strings at every place and long lists as in C14"})
}

// exactDecimal is the value in the unit with nine decimals, computed with big integers.
func exactDecimal(ns *big.Int, u units.Unit) string {
	n := new(big.Int).Set(ns)
	if u == units.Millisecond {
		n.Mul(n, big.NewInt(1000))
	}
	sign := ""
	if n.Sign() < 0 {
		sign = "-"
		n.Neg(n)
	}
	q, r := new(big.Int).QuoRem(n, big.NewInt(1e9), new(big.Int))
	return fmt.Sprintf("%s%d.%09d", sign, q, r)
}

func timeNanos(t time.Time) *big.Int {
	if t.IsZero() {
		return new(big.Int)
	}
	n := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1e9))
	return n.Add(n, big.NewInt(int64(t.Nanosecond())))
}

// denotes checks that a JSON value denotes a reported value.
func denotes(raw json.RawMessage, v any, u units.Unit) error {
	s := string(raw)
	bad := func(want any) error { return fmt.Errorf("JSON value is %s, want %v", s, want) }
	switch x := v.(type) {
	case bool:
		if s != strconv.FormatBool(x) {
			return bad(x)
		}
	case int8, int16, int32, int64, uint8, uint16, uint32, uint64:
		if s != fmt.Sprint(x) {
			return bad(x)
		}
	case float32:
		f, err := strconv.ParseFloat(s, 32)
		if err != nil || float32(f) != x {
			return bad(x)
		}
	case float64:
		f, err := strconv.ParseFloat(s, 64)
		if err != nil || f != x {
			return bad(x)
		}
	case string:
		var t string
		if err := json.Unmarshal(raw, &t); err != nil || t != x {
			return bad(strconv.Quote(x))
		}
	case time.Time:
		var t string
		if err := json.Unmarshal(raw, &t); err != nil || t != exactDecimal(timeNanos(x), u) {
			return bad(exactDecimal(timeNanos(x), u))
		}
	case time.Duration:
		var t string
		if err := json.Unmarshal(raw, &t); err != nil || t != exactDecimal(big.NewInt(int64(x)), u) {
			return bad(exactDecimal(big.NewInt(int64(x)), u))
		}
	default:
		if b, ok := v.([]uint8); ok {
			var str string
			if json.Unmarshal(raw, &str) == nil {
				if d, err := base64.StdEncoding.DecodeString(str); err == nil && string(d) == string(b) {
					return nil
				}
				return bad(b)
			}
		}
		rv := reflect.ValueOf(v)
		if rv.Kind() != reflect.Slice {
			return fmt.Errorf("cannot judge %T", v)
		}
		if s == "null" {
			return bad("a list")
		}
		var l []json.RawMessage
		if err := json.Unmarshal(raw, &l); err != nil || len(l) != rv.Len() {
			return bad(v)
		}
		for i := range l {
			if err := denotes(l[i], rv.Index(i).Interface(), u); err != nil {
				return err
			}
		}
	}
	return nil
}

// textDenotes checks a plain text value.
func textDenotes(s string, v any, u units.Unit) error {
	bad := func(want any) error { return fmt.Errorf("text value is %s, want %v", s, want) }
	switch x := v.(type) {
	case bool, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
		if s != fmt.Sprint(x) {
			return bad(x)
		}
	case float32:
		f, err := strconv.ParseFloat(s, 32)
		if err != nil || float32(f) != x {
			return bad(x)
		}
	case float64:
		f, err := strconv.ParseFloat(s, 64)
		if err != nil || f != x {
			return bad(x)
		}
	case string:
		if s != "\""+x+"\"" {
			return bad(x)
		}
	case time.Time:
		if s != exactDecimal(timeNanos(x), u) {
			return bad(exactDecimal(timeNanos(x), u))
		}
	case time.Duration:
		if s != exactDecimal(big.NewInt(int64(x)), u) {
			return bad(exactDecimal(big.NewInt(int64(x)), u))
		}
	default:
		rv := reflect.ValueOf(v)
		if rv.Kind() != reflect.Slice {
			return fmt.Errorf("cannot judge %T", v)
		}
		if str, ok := v.([]string); ok { // strings may contain the separator
			var q []string
			for _, x := range str {
				q = append(q, "\""+x+"\"")
			}
			if s != strings.Join(q, "|") {
				return bad(v)
			}
			return nil
		}
		if rv.Len() == 0 {
			if s != "" {
				return bad("nothing")
			}
			return nil
		}
		l := strings.Split(s, "|")
		if len(l) != rv.Len() {
			return bad(v)
		}
		for i := range l {
			if err := textDenotes(l[i], rv.Index(i).Interface(), u); err != nil {
				return err
			}
		}
	}
	return nil
}

func jsonKindOf(t types.Type) types.Type {
	switch t {
	case types.GoTime:
		return types.Time
	case types.GoDuration:
		return types.Duration
	}
	return t
}

func c15Run(w *W, e elem, form string) {
	vals := boundary(e, w.tier)
	g := fixedGroup()
	for ci, c := range vcases(e, vals, form) {
		for ui, u := range moreUnits {
			w.Eval()
			w.cur = func() string { return fmt.Sprintf("%v %s of %v unit %q", e.typ, c.desc, c.val, string(u)) }
			execCount++
			dir := fmt.Sprintf("/x%d", execCount)
			path := dir + "/n"
			desc := fmt.Sprintf("d \"%d\" <é>", ci%3)
			must(tricorder.RegisterMetricInGroup(path, c.spec, g, u, desc))
			m, err := rpcGet(path)
			if err == nil {
				err = c15Compare(w, dir, path, m, u)
			}
			if err != nil {
				w.Fail("disagree/"+c.desc, "%s of %v, value %v, unit %q: %v", c.desc, e.typ, c.val, string(u), err)
			}
			tricorder.UnregisterPath(dir)
			w.State(fmt.Sprint(e.typ, form, ci, ui))
			w.Trace()
			w.Sample(w.cur())
		}
	}
}

func c15Compare(w *W, dir, path string, m *messages.Metric, u units.Unit) error {
	j, err := jsonOne(path)
	if err != nil {
		return fmt.Errorf("JSON singleton: %v", err)
	}
	l, err := jsonList(dir)
	if err != nil {
		return fmt.Errorf("JSON listing: %v", err)
	}
	l2, err := jsonList(path)
	if err != nil {
		return fmt.Errorf("JSON listing: %v", err)
	}
	if len(l) != 1 || len(l2) != 1 {
		return fmt.Errorf("%d and %d metrics listed", len(l), len(l2))
	}
	w.Trans(5)
	var c1, c2, c3 any
	if json.Unmarshal(j.Value, &c1) != nil || json.Unmarshal(l[0].Value, &c2) != nil || json.Unmarshal(l2[0].Value, &c3) != nil {
		return fmt.Errorf("bad JSON values")
	}
	if !reflect.DeepEqual(c1, c2) || !reflect.DeepEqual(c1, c3) {
		return fmt.Errorf("singleton value %s differs from listing value %s", j.Value, l[0].Value)
	}
	for _, o := range []*jm{j, l[0], l2[0]} {
		if err := c15JSON(o, m, u); err != nil {
			return err
		}
	}
	one := string(fetch(textURL(path)).Body)
	all := string(fetch(textURL(dir)).Body)
	if all != path+" "+one {
		return fmt.Errorf("text listing is %q, singleton %q", all, one)
	}
	if !strings.HasSuffix(one, "\n") {
		return fmt.Errorf("text %q is no line", one)
	}
	return c15Text(strings.TrimSuffix(one, "\n"), m, u)
}

// c15Text compares a line of text with the RPC response.
func c15Text(one string, m *messages.Metric, u units.Unit) error {
	if d, ok := m.Value.(*messages.Distribution); ok {
		s, err := parseDistText(one)
		if err != nil {
			return err
		}
		n := dsnap{D: *d, Partial: true, Ranges: rangesString(d.Ranges, true)}
		if n.dstr() != s.dstr() {
			return fmt.Errorf("text distribution is %s, want %s", one, n.dstr())
		}
		return nil
	}
	return textDenotes(one, m.Value, u)
}

// c15JSON compares a JSON object with the RPC response.
func c15JSON(o *jm, m *messages.Metric, u units.Unit) error {
	ts, _ := m.TimeStamp.(time.Time)
	switch {
	case o.Path != m.Path:
		return fmt.Errorf("path is %q, want %q", o.Path, m.Path)
	case o.Description != m.Description:
		return fmt.Errorf("description is %q, want %q", o.Description, m.Description)
	case o.Unit != string(m.Unit):
		return fmt.Errorf("unit is %q, want %q", o.Unit, string(m.Unit))
	case o.Kind != string(jsonKindOf(m.Kind)):
		return fmt.Errorf("kind is %q, want %q", o.Kind, jsonKindOf(m.Kind))
	case o.SubType != string(jsonKindOf(m.SubType)):
		return fmt.Errorf("sub-type is %q, want %q", o.SubType, jsonKindOf(m.SubType))
	case o.Bits != m.Bits:
		return fmt.Errorf("bits is %d, want %d", o.Bits, m.Bits)
	case o.GroupId != m.GroupId:
		return fmt.Errorf("group is %d, want %d", o.GroupId, m.GroupId)
	case o.TimeStamp != tsString(ts):
		return fmt.Errorf("timestamp is %s, want %s", o.TimeStamp, tsString(ts))
	}
	if d, ok := m.Value.(*messages.Distribution); ok {
		var x messages.Distribution
		if err := json.Unmarshal(o.Value, &x); err != nil {
			return err
		}
		if !reflect.DeepEqual(&x, d) {
			return fmt.Errorf("JSON distribution is %s", o.Value)
		}
		return nil
	}
	return denotes(o.Value, m.Value, u)
}

// mixedKinds makes one metric of every kind.
func mixedKinds() (out []vcase) {
	for _, e := range elems() {
		vals := []any{e.vals[0], e.vals[1]}
		if e.kind == types.String {
			vals = []any{"p|q \" <x>", "r"}
		}
		out = append(out, vcases(e, vals[:1], "var")[0], vcases(e, vals[1:], "func")[0])
		if e.kind == types.GoTime {
			out = append(out, vcases(e, vals[:1], "ptr")...)
		}
		l := vcases(e, vals, "list")
		out = append(out, l[0], l[1])
	}
	for _, nc := range []bool{false, true} {
		for n := 0; n < 3; n++ {
			d := newDist([]float64{1, 10}, nc)
			must(tricorder.RegisterMetric("/mixed", d, units.Second, ""))
			tricorder.UnregisterPath("/mixed")
			for i := 0; i < n; i++ {
				d.Add(float64(3 * i))
			}
			out = append(out, vcase{desc: "distribution", spec: d, kind: types.Dist})
		}
	}
	return
}

// c15Mixed compares the listings of two and three metrics of every pair of kinds.
func c15Mixed(w *W, part, parts int) {
	ks := mixedKinds()
	for i := part; i < len(ks); i += parts {
		for j := range ks {
			w.Eval()
			w.cur = func() string { return fmt.Sprint(ks[i].desc, " ", ks[i].val, ", ", ks[j].desc, " ", ks[j].val) }
			execCount++
			dir := fmt.Sprintf("/x%d", execCount)
			other := tricorder.NewGroup()
			us := []units.Unit{moreUnits[(i+j)%len(moreUnits)], moreUnits[(i+2*j+1)%len(moreUnits)]}
			for n, k := range []int{i, j} {
				if ks[k].kind == types.Dist {
					us[n] = units.Second
				}
			}
			must(tricorder.RegisterMetricInGroup(dir+"/a", ks[i].spec, fixedGroup(), us[0], "first"))
			must(tricorder.RegisterMetricInGroup(dir+"/b", ks[j].spec, other, us[1], ""))
			must(tricorder.RegisterMetricInGroup(dir+"/c/a", ks[i].spec, other, us[0], "third"))
			us = append(us, us[0])
			if err := c15Listing(w, dir, us); err != nil {
				w.Fail("mixed", "listing of %s %v (%q), %s %v (%q) and the first again: %v", ks[i].desc, ks[i].val, us[0], ks[j].desc, ks[j].val, us[1], err)
			}
			tricorder.UnregisterPath(dir)
			w.State(fmt.Sprint(i, j))
			w.Trace()
			w.Sample(w.cur())
		}
	}
}

func c15Listing(w *W, dir string, us []units.Unit) error {
	ms, err := rpcList(dir)
	if err != nil || len(ms) != len(us) {
		return fmt.Errorf("%d metrics by RPC, %v", len(ms), err)
	}
	js, err := jsonList(dir)
	if err != nil || len(js) != len(us) {
		return fmt.Errorf("%d metrics in JSON, %v", len(js), err)
	}
	lines := strings.Split(string(fetch(textURL(dir)).Body), "\n")
	if len(lines) != len(us)+1 || lines[len(us)] != "" {
		return fmt.Errorf("text listing is %q", lines)
	}
	w.Trans(3)
	for i, m := range ms {
		// the group without update function has the time of the request
		now := i > 0 && m.Kind != types.List && m.Kind != types.Dist
		if now {
			js[i].TimeStamp = tsString(m.TimeStamp.(time.Time))
		}
		if err := c15JSON(js[i], m, us[i]); err != nil {
			return fmt.Errorf("entry %d in JSON: %v", i, err)
		}
		one, err := jsonOne(m.Path)
		if err != nil {
			return err
		}
		w.Trans(1)
		if now {
			one.TimeStamp = js[i].TimeStamp
		}
		if err := c15JSON(one, m, us[i]); err != nil {
			return fmt.Errorf("entry %d as JSON singleton: %v", i, err)
		}
		path, rest, _ := strings.Cut(lines[i], " ")
		if path != m.Path {
			return fmt.Errorf("line %d of the text is %q, want %s", i, lines[i], m.Path)
		}
		if err := c15Text(rest, m, us[i]); err != nil {
			return fmt.Errorf("line %d of the text: %v", i, err)
		}
	}
	return nil
}

// c15Dist compares the views of distributions holding every multiset of an alphabet.
func c15Dist(w *W, nc bool) {
	ends := []float64{-2.5, 0, 0.1, 1e7}
	vals := []float64{-1e9, -2.5, -0.125, 0, 0.05, 0.1, 3, 1e7, 1e21}
	size := 3
	if w.tier == "thorough" {
		size = 5
	}
	var rec func(i int, have []float64)
	n := 0
	rec = func(i int, have []float64) {
		if i == len(vals) || len(have) == size {
			w.Eval()
			u := moreUnits[n%len(moreUnits)]
			n++
			w.cur = func() string { return fmt.Sprint(have) }
			execCount++
			dir := fmt.Sprintf("/x%d", execCount)
			d := newDist(ends, nc)
			must(tricorder.RegisterMetric(dir+"/d", d, u, "a dist"))
			for _, v := range have {
				d.Add(v)
			}
			m, err := rpcGet(dir + "/d")
			if err == nil {
				err = c15Compare(w, dir, dir+"/d", m, u)
			}
			if err != nil {
				w.Fail("disagree/dist", "distribution of %v (bucket ends %v): %v", have, ends, err)
			}
			tricorder.UnregisterPath(dir)
			w.State(fmt.Sprint(nc, have))
			w.Trace()
			return
		}
		for k := 0; len(have)+k <= size; k++ {
			h := append([]float64{}, have...)
			for j := 0; j < k; j++ {
				h = append(h, vals[i])
			}
			rec(i+1, h)
		}
	}
	rec(0, nil)
}

// fullTasks cover every value of the 8 and 16 bit types.
func fullTasks(tier string) (out []string) {
	for i, e := range elems() {
		if e.bits == 8 || e.bits == 16 && tier == "thorough" {
			for part := 0; part < 8; part++ {
				out = append(out, fmt.Sprintf("full/%d/%d", i, part))
			}
		}
	}
	return
}

func fullRange(w *W, name string, judge func(dir, path string, c vcase) error) {
	var i, part int
	fmt.Sscanf(name, "full/%d/%d", &i, &part)
	e := elems()[i]
	n := 1 << e.bits
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	c := vcases(e, []any{e.vals[0]}, "var")[0]
	must(tricorder.RegisterMetricInGroup(dir+"/n", c.spec, fixedGroup(), units.None, ""))
	defer tricorder.UnregisterPath(dir)
	for k := part * n / 8; k < (part+1)*n/8; k++ {
		w.Eval()
		v := reflect.ValueOf(int64(k)).Convert(e.want).Interface()
		w.cur = func() string { return fmt.Sprint(e.typ, " ", v) }
		c.set(v)
		c.val = v
		if err := judge(dir, dir+"/n", c); err != nil {
			w.Fail("full", "variable of %v holding %v: %v", e.typ, v, err)
		}
		w.State(fmt.Sprint(e.typ, v))
		w.Trans(1)
		w.Trace()
	}
}
