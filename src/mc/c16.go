package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

func epochIfZero(v any) any {
	switch x := v.(type) {
	case time.Time:
		if x.IsZero() {
			return time.Unix(0, 0)
		}
	case []time.Time:
		out := make([]time.Time, len(x))
		for i := range x {
			out[i] = epochIfZero(x[i]).(time.Time)
		}
		return out
	}
	return v
}

func sameStamp(a, b any) bool {
	x, ok1 := a.(time.Time)
	y, ok2 := b.(time.Time)
	if ok1 && ok2 {
		return x.Equal(y)
	}
	return a == nil && b == nil
}

// c16Wire sends a metric in JSON form over the wire to a client that decodes values by kind.
func c16Wire(m *messages.Metric) (*messages.Metric, error) {
	b, err := json.Marshal(m)
	if err != nil {
		return nil, err
	}
	var raw struct {
		Value json.RawMessage `json:"value"`
	}
	var out messages.Metric
	if err := json.Unmarshal(b, &raw); err != nil {
		return nil, err
	}
	if err := json.Unmarshal(b, &out); err != nil {
		return nil, err
	}
	var zero any
	switch out.Kind {
	case types.List:
		zero, err = out.SubType.SafeNilSlice()
	default:
		zero, err = messages.ZeroValue(out.Kind)
	}
	if err != nil {
		return nil, err
	}
	p := reflect.New(reflect.TypeOf(zero))
	if err := json.Unmarshal(raw.Value, p.Interface()); err != nil {
		return nil, err
	}
	out.Value = p.Elem().Interface()
	return &out, nil
}

func c16Run(w *W, e elem) {
	vals := boundary(e, w.tier)
	var natives []messages.Metric
	for _, v := range vals {
		natives = append(natives, messages.Metric{Kind: e.kind, Bits: e.bits, Value: v})
		natives = append(natives, messages.Metric{Kind: types.List, SubType: e.kind, Bits: e.bits,
			Value: reflect.Append(reflect.MakeSlice(reflect.SliceOf(e.want), 0, 1), reflect.ValueOf(v)).Interface()})
	}
	all := reflect.MakeSlice(reflect.SliceOf(e.want), 0, 1)
	natives = append(natives, messages.Metric{Kind: types.List, SubType: e.kind, Value: all.Interface()},
		messages.Metric{Kind: types.List, SubType: e.kind, Value: reflect.Zero(reflect.SliceOf(e.want)).Interface()})
	for _, v := range vals {
		all = reflect.Append(all, reflect.ValueOf(v))
	}
	natives = append(natives, messages.Metric{Kind: types.List, SubType: e.kind, Bits: e.bits, Value: all.Interface()})
	stamps := []any{nil, time.Unix(1500000000, 1).UTC(), time.Unix(-1, 999999999), time.Unix(0, 0), time.Unix(253402300799, 999999999)}
	for ni, n := range natives {
		for ui, u := range moreUnits {
			for si, ts := range stamps {
				if si > 0 && (ni+ui+si)%4 != 0 && ni > 3 {
					continue // the timestamp does not depend on the value
				}
				w.Eval()
				orig := n
				orig.Path, orig.Description, orig.GroupId = "/p", "d", 5
				orig.Unit, orig.TimeStamp = u, ts
				w.cur = func() string { return fmt.Sprintf("%+v", orig) }
				m := orig
				m.ConvertToJson()
				if err := c16Json(&m, &orig); err != nil {
					w.Fail("to-json", "%+v: %v", orig, err)
					continue
				}
				// again: nothing changes
				again := m
				again.ConvertToJson()
				if !reflect.DeepEqual(again, m) {
					w.Fail("to-json-twice", "%+v: converting to JSON twice gives %+v, once %+v", orig, again, m)
				}
				jv, jk, js := messages.AsJsonWithSubType(orig.Value, orig.Kind, orig.SubType, u)
				if !reflect.DeepEqual(jv, m.Value) || jk != m.Kind || js != m.SubType {
					w.Fail("as-json", "%+v: AsJsonWithSubType gives %v %v %v, ConvertToJson %v %v %v", orig, jv, jk, js, m.Value, m.Kind, m.SubType)
				}
				forms := map[string]*messages.Metric{"directly": &m}
				if ni%3 == 0 || si == 0 {
					wire, err := c16Wire(&m)
					if err != nil {
						w.Fail("wire", "%+v: %v", orig, err)
						continue
					}
					forms["over the wire"] = wire
				}
				for how, f := range forms {
					back := *f
					if err := back.ConvertToGoRPC(); err != nil {
						w.Fail("back", "%+v cannot be converted back %s: %v", orig, how, err)
						continue
					}
					check := func(b messages.Metric) error {
						if b.Kind != orig.Kind || b.SubType != orig.SubType || b.Unit != orig.Unit || b.Bits != orig.Bits ||
							b.Path != orig.Path || b.Description != orig.Description || b.GroupId != orig.GroupId {
							return fmt.Errorf("is %+v", b)
						}
						if !sameReported(b.Value, epochIfZero(orig.Value)) {
							return fmt.Errorf("value is %T %v", b.Value, b.Value)
						}
						if !sameStamp(b.TimeStamp, orig.TimeStamp) {
							return fmt.Errorf("timestamp is %v", b.TimeStamp)
						}
						return nil
					}
					if err := check(back); err != nil {
						w.Fail("back", "%+v converted to JSON and back %s: %v", orig, how, err)
						continue
					}
					// and again both ways
					b2 := back
					if err := b2.ConvertToGoRPC(); err != nil || check(b2) != nil {
						w.Fail("back-twice", "%+v: converting to Go RPC twice gives %+v %v", orig, b2, err)
					}
					b2.ConvertToJson()
					if b2.Kind != m.Kind || b2.SubType != m.SubType || fmt.Sprint(b2.Value) != fmt.Sprint(m.Value) || b2.TimeStamp != m.TimeStamp {
						w.Fail("there-again", "%+v: the JSON form changes from %+v to %+v on the second conversion", orig, m, b2)
					}
					w.Trans(4)
				}
				w.State(fmt.Sprint(e.typ, ni, ui, si))
				w.Trace()
				if si == 0 {
					w.Sample(fmt.Sprintf("%v %v %q", orig.Kind, orig.Value, string(u)))
				}
			}
		}
	}
}

// c16Json judges the JSON form.
func c16Json(m, orig *messages.Metric) error {
	if m.Kind != jsonKindOf(orig.Kind) || m.SubType != jsonKindOf(orig.SubType) {
		return fmt.Errorf("JSON kind is %q %q", m.Kind, m.SubType)
	}
	b, err := json.Marshal(m.Value)
	if err != nil {
		return err
	}
	if err := denotes(b, orig.Value, orig.Unit); err != nil {
		return err
	}
	want := ""
	if t, ok := orig.TimeStamp.(time.Time); ok {
		want = exactDecimal(timeNanos(t), units.Second)
	}
	if m.TimeStamp != want {
		return fmt.Errorf("JSON timestamp is %v, want %q", m.TimeStamp, want)
	}
	return nil
}

// c16Bad converts every malformed shape.
func c16Bad(w *W) {
	strs := []string{"", " ", "abc", "1.2.3", "--1", "1,5", " 1", "1 ", "0x10", "1e5", ".5", "-", "-.5", "1.x", "1.12345x", "1.123456789x", "1.1234567890123x", "NaN", "Inf",
		"99999999999999999999", "1.-5", "1. 5", "1.+5", "1.5-", "−1", "１", "1.\n", "5s", "1_0", "1.1_0"}
	type bad struct {
		kind, sub types.Type
		val       any
	}
	var bads []bad
	for _, k := range []types.Type{types.Time, types.Duration} {
		for _, v := range []any{nil, 5, int64(5), 5.5, true, []string{"1.0"}, time.Now(), time.Second, []any{"1"}, json.Number("1"), []byte("1.0")} {
			bads = append(bads, bad{k, "", v})
		}
		for _, s := range strs {
			bads = append(bads, bad{k, "", s}, bad{types.List, k, []string{s}}, bad{types.List, k, []string{"1.5", s}}, bad{types.List, k, []string{s, "1.5"}})
		}
		for _, v := range []any{nil, 5, "1.5", []any{"1.5"}, []any{1.5}, []time.Time{}, []time.Duration{1}, map[string]string{}, []int64{1}} {
			bads = append(bads, bad{types.List, k, v})
		}
	}
	good := []any{nil, "", "1500000000.5", time.Unix(5, 5)}
	for _, b := range bads {
		for _, u := range moreUnits {
			for _, ts := range good {
				c16Refuse(w, messages.Metric{Path: "/p", Kind: b.kind, SubType: b.sub, Value: b.val, TimeStamp: ts, Unit: u})
			}
		}
	}
	// a bad timestamp with a good value
	var stamps []any
	for _, s := range strs {
		if s != "" {
			stamps = append(stamps, s)
		}
	}
	stamps = append(stamps, 5, 5.5, true, []string{"1"}, int64(7))
	for _, ts := range stamps {
		for _, m := range []messages.Metric{{Kind: types.Time, Value: "1.500000000"}, {Kind: types.Duration, Value: "1.500000000"}, {Kind: types.Int64, Value: int64(5)},
			{Kind: types.List, SubType: types.Time, Value: []string{"1.0", "2.0"}}, {Kind: types.List, SubType: types.Duration, Value: []string{}}, {Kind: types.String, Value: "x"}} {
			for _, u := range moreUnits {
				m.TimeStamp, m.Unit = ts, u
				c16Refuse(w, m)
			}
		}
	}
}

func c16Refuse(w *W, m messages.Metric) {
	w.Eval()
	w.cur = func() string { return fmt.Sprintf("%+v", m) }
	before := m
	if err := m.ConvertToGoRPC(); err == nil {
		w.Fail("accepted", "malformed %+v is accepted as %+v", before, m)
	} else if !reflect.DeepEqual(m, before) {
		w.Fail("changed", "malformed %+v is refused but changed to %+v", before, m)
	}
	w.Trans(1)
	w.Trace()
	w.State(fmt.Sprintf("%+v", before))
	w.Sample(fmt.Sprintf("%+v", before))
}

func init() {
	define(&Def{ID: "C16",
		Tasks: func(tier string) []string { return append(elemTasks("x")(tier), "bad") },
		Do: func(w *W, name string) {
			if name == "bad" {
				c16Bad(w)
				return
			}
			var i int
			fmt.Sscanf(strings.TrimSuffix(name, "/x"), "elem/%d", &i)
			e := elems()[i]
			if e.typ != e.want {
				return // only types that occur in the messages
			}
			c16Run(w, e)
		},
		Rule: "every kind and sub-type x boundary values x every unit x timestamps converted to JSON, over the wire and back, and again; every malformed value shape and timestamp has to be refused without a change; lists of many lengths up to 4097 (thorough: 16385), with a malformed element at every place"})
}
