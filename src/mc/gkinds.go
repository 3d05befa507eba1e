package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// Groups of every kind of metric and every sort of timestamp (C01, C02): all ordered pairs of
// kinds of metrics in a group x what the update function returns as timestamp x access path,
// each asked twice in a row and once more while another request is reading the group.

// stampSorts are the timestamps of the n-th update.
var stampSorts = []struct {
	name string
	at   func(n int64) time.Time
}{
	{"increasing", func(n int64) time.Time { return time.Unix(1400000000+n, 0) }},
	{"zero", func(n int64) time.Time { return time.Time{} }},
	{"constant", func(n int64) time.Time { return time.Unix(1400000000, 5) }},
	{"decreasing", func(n int64) time.Time { return time.Unix(1400000000-n, 999999999) }},
	{"future", func(n int64) time.Time { return time.Unix(4102444800+n, 1) }},
	{"before the epoch", func(n int64) time.Time { return time.Unix(-5, n) }},
	{"epoch", func(n int64) time.Time { return time.Unix(0, 0) }},
	{"other zone", func(n int64) time.Time { return time.Unix(1400000000+n, 0).In(time.FixedZone("X", 3600)) }},
}

// stampText is the JSON form of any timestamp.
func stampText(t time.Time) string {
	ns := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1e9))
	ns.Add(ns, big.NewInt(int64(t.Nanosecond())))
	return exactDecimal(ns, units.Second)
}

type myCount int32

// gvars are the variables of a group.
type gvars struct {
	i64  int64
	i    int
	i8   int8
	u64  uint64
	f64  float64
	f32  float32
	str  string
	b    bool
	tm   time.Time
	ptm  *time.Time
	dur  time.Duration
	mine myCount
	text uText
	rate uRate
}

func (v *gvars) set(n int64) {
	t := time.Unix(n, 1)
	*v = gvars{n, int(n), int8(n), uint64(n), float64(n) + 0.5, float32(n) + 0.25, fmt.Sprint("s", n), n%2 == 1, t, &t, time.Duration(n) * time.Second, myCount(n), uText(fmt.Sprint("t", n)), uRate(n)}
}

// gkind is a kind of metric of a group.
type gkind struct {
	name string
	spec func(v *gvars) any
	want func(n int64) any
}

var gkinds = []gkind{
	{"int64", func(v *gvars) any { return &v.i64 }, func(n int64) any { return n }},
	{"int-func", func(v *gvars) any { return func() int { return v.i } }, func(n int64) any { return n }},
	{"int8", func(v *gvars) any { return &v.i8 }, func(n int64) any { return int8(n) }},
	{"uint64-func", func(v *gvars) any { return func() uint64 { return v.u64 } }, func(n int64) any { return uint64(n) }},
	{"float64", func(v *gvars) any { return &v.f64 }, func(n int64) any { return float64(n) + 0.5 }},
	{"float64-func", func(v *gvars) any { return func() float64 { return v.f64 } }, func(n int64) any { return float64(n) + 0.5 }},
	{"float32", func(v *gvars) any { return &v.f32 }, func(n int64) any { return float32(n) + 0.25 }},
	{"string", func(v *gvars) any { return &v.str }, func(n int64) any { return fmt.Sprint("s", n) }},
	{"string-func", func(v *gvars) any { return func() string { return v.str } }, func(n int64) any { return fmt.Sprint("s", n) }},
	{"bool", func(v *gvars) any { return &v.b }, func(n int64) any { return n%2 == 1 }},
	{"time", func(v *gvars) any { return &v.tm }, func(n int64) any { return time.Unix(n, 1) }},
	{"time-pointer", func(v *gvars) any { return &v.ptm }, func(n int64) any { return time.Unix(n, 1) }},
	{"time-pointer-func", func(v *gvars) any { return func() *time.Time { return v.ptm } }, func(n int64) any { return time.Unix(n, 1) }},
	{"time-func", func(v *gvars) any { return func() time.Time { return v.tm } }, func(n int64) any { return time.Unix(n, 1) }},
	{"duration", func(v *gvars) any { return &v.dur }, func(n int64) any { return time.Duration(n) * time.Second }},
	{"duration-func", func(v *gvars) any { return func() time.Duration { return v.dur } }, func(n int64) any { return time.Duration(n) * time.Second }},
	{"named-string", func(v *gvars) any { return &v.text }, func(n int64) any { return fmt.Sprint("t", n) }},
	{"named-float-func", func(v *gvars) any { return func() uRate { return v.rate } }, func(n int64) any { return float64(n) }},
	{"named-int", func(v *gvars) any { return &v.mine }, func(n int64) any { return int32(n) }},
}

// gkTask runs all pairs that start with one kind.
func gkTask(w *W, name string, counts bool) {
	var first int
	fmt.Sscanf(name, "kinds/%d", &first)
	vsched.BeginExec()
	defer vsched.EndExec()
	for second := range gkinds {
		for si := range stampSorts {
			for _, access := range accessKinds {
				gkCase(w, []gkind{gkinds[first], gkinds[second]}, si, access, counts)
			}
		}
	}
}

func gkCase(w *W, ks []gkind, si int, access string, counts bool) {
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	defer tricorder.UnregisterPath(dir)
	stamp := stampSorts[si]
	desc := fmt.Sprintf("%s of a group of %s and %s, timestamps: %s", access, ks[0].name, ks[1].name, stamp.name)
	w.cur = func() string { return desc }
	fail := func(key, f string, a ...any) { w.Fail(key+"/"+access, "%s: %s", desc, fmt.Sprintf(f, a...)) }
	var v gvars
	var n int64
	g := tricorder.NewGroup()
	g.RegisterUpdateFunc(func() time.Time {
		n++
		v.set(n)
		return stamp.at(n)
	})
	want := map[string]func(int64) any{}
	add := func(name string, k gkind) {
		must(tricorder.RegisterMetricInGroup(dir+"/"+name, k.spec(&v), g, units.None, ""))
		want[dir+"/"+name] = k.want
	}
	add("a", ks[0])
	nested := false
	inner := func() {}
	must(tricorder.RegisterMetricInGroup(dir+"/b", func() int64 {
		if nested {
			nested = false
			inner()
		}
		return v.i64
	}, g, units.None, ""))
	want[dir+"/b"] = func(n int64) any { return n }
	add("c", ks[1])
	request := func(who string, path string, run, runs int64) {
		w.Eval()
		w.Trans(1)
		got, err := gkRead(access, path)
		if err != nil {
			fail("kinds-error", "%s fails: %v", who, err)
			return
		}
		if counts {
			if n != runs {
				fail("kinds-runs", "%s: the update function has run %d times, want %d", who, n, runs)
				n = runs
			}
			return
		}
		if access != "html" && access != "html1" {
			num := 3
			if isSingle(access) {
				num = 1
			}
			if len(got) != num {
				fail("kinds-missing", "%s reports %d metrics", who, len(got))
			}
		}
		for _, o := range got {
			f := want[o.path]
			if f == nil {
				continue
			}
			if err := o.judge(f(run)); err != nil {
				fail("kinds-value", "%s: %s: %v", who, o.path, err)
			}
			if o.stamp != "" && o.stamp != stampText(stamp.at(run)) {
				fail("kinds-timestamp", "%s: %s has timestamp %s, the update function returned %s", who, o.path, o.stamp, stampText(stamp.at(run)))
			}
		}
	}
	ask := func(who, one string, run, runs int64) {
		path := dir
		if isSingle(access) {
			path += "/" + one
		}
		request(who, path, run, runs)
	}
	ask("first request", "a", 1, 1)
	ask("second request", "c", 2, 2)
	inner = func() { ask("request during another", "c", 3, 3) }
	nested = true
	l := tricorder.ReadMyMetrics(dir)
	if counts {
		if n != 3 {
			fail("kinds-runs", "a request with another one inside ran the update function %d times", n-2)
			n = 3
		}
	} else {
		for _, m := range l {
			if f := want[m.Path]; !sameReported(m.Value, f(3)) {
				fail("kinds-mixed", "request with another one inside: %s is %v, want %v", m.Path, m.Value, f(3))
			}
			if t, ok := m.TimeStamp.(time.Time); !ok || !t.Equal(stamp.at(3)) {
				fail("kinds-timestamp", "request with another one inside: %s has timestamp %v", m.Path, m.TimeStamp)
			}
		}
	}
	ask("last request", "a", 4, 4)
	w.State(desc)
	w.Trace()
	w.Sample(desc)
}

// gkObs is a metric seen in a response.
type gkObs struct {
	path  string
	stamp string
	judge func(want any) error
}

func gkRead(access, path string) (out []gkObs, err error) {
	native := func(l messages.MetricList) {
		for _, m := range l {
			m := m
			stamp := "none"
			if t, ok := m.TimeStamp.(time.Time); ok {
				stamp = stampText(t)
			}
			out = append(out, gkObs{m.Path, stamp, func(want any) error {
				if !sameReported(m.Value, want) {
					return fmt.Errorf("value is %v, want %v", m.Value, want)
				}
				return nil
			}})
		}
	}
	js := func(l []*jm) {
		for _, m := range l {
			m := m
			out = append(out, gkObs{m.Path, m.TimeStamp, func(want any) error { return denotes(m.Value, want, units.None) }})
		}
	}
	switch access {
	case "inproc", "inproc1":
		native(tricorder.ReadMyMetrics(path))
	case "rpc":
		l, err := rpcList(path)
		if err != nil {
			return nil, err
		}
		native(l)
	case "rpc1":
		m, err := rpcGet(path)
		if err != nil {
			return nil, err
		}
		native(messages.MetricList{m})
	case "json", "jsonL1":
		l, err := jsonList(path)
		if err != nil {
			return nil, err
		}
		js(l)
	case "json1":
		m, err := jsonOne(path)
		if err != nil {
			return nil, err
		}
		js([]*jm{m})
	case "text", "text1":
		r := fetch(textURL(path))
		for _, line := range strings.Split(strings.TrimSpace(string(r.Body)), "\n") {
			p, val := path, line
			if access == "text" {
				p, val, _ = strings.Cut(line, " ")
			}
			out = append(out, gkObs{p, "", func(want any) error { return textDenotes(val, want, units.None) }})
		}
	case "html", "html1":
		r := fetch(htmlURL(path))
		words := htmlText(string(r.Body))
		for i := 0; i+1 < len(words); i++ {
			if strings.HasPrefix(words[i], "/x") {
				val := words[i+1]
				out = append(out, gkObs{words[i], "", func(want any) error {
					switch want.(type) {
					case time.Time, time.Duration:
						return nil // C22
					}
					return textDenotes(val, want, units.None)
				}})
			}
		}
	}
	return
}

func gkTasks() (out []string) {
	for i := range gkinds {
		out = append(out, fmt.Sprintf("kinds/%d", i))
	}
	return
}

// gkFault: a callback of the kind panics at its n-th evaluation, through every access path; a later request through
// every access path runs the update function exactly once and reports what it left.
func gkFault(w *W, k gkind) {
	for _, before := range accessKinds {
		for nth := 1; nth <= 3; nth++ {
			for _, pos := range []string{"a", "m", "z"} {
				for _, after := range accessKinds {
					gkFaultCase(w, k, before, nth, pos, after)
				}
			}
		}
	}
}

func gkFaultCase(w *W, k gkind, before string, nth int, pos, after string) {
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	defer tricorder.UnregisterPath(dir)
	desc := fmt.Sprintf("%s where the callback %s of kind %s panics at evaluation %d, then %s", before, pos, k.name, nth, after)
	w.cur = func() string { return desc }
	w.Eval()
	var v gvars
	var n int64
	g := tricorder.NewGroup()
	g.RegisterUpdateFunc(func() time.Time {
		n++
		v.set(n)
		return time.Unix(1400000000+n, 0)
	})
	armed := 0
	want := map[string]func(int64) any{}
	for _, nm := range []string{"a", "m", "z"} {
		spec := reflect.ValueOf(k.spec(&v))
		if nm == pos {
			res := spec.Type()
			if res.Kind() == reflect.Func {
				res = res.Out(0)
			} else {
				res = res.Elem()
			}
			inner := spec
			spec = reflect.MakeFunc(reflect.FuncOf(nil, []reflect.Type{res}, false), func([]reflect.Value) []reflect.Value {
				if armed > 0 {
					if armed--; armed == 0 {
						panic("callback fails")
					}
				}
				if inner.Kind() == reflect.Func {
					return inner.Call(nil)
				}
				return []reflect.Value{inner.Elem()}
			})
		}
		must(tricorder.RegisterMetricInGroup(dir+"/"+nm, spec.Interface(), g, units.None, ""))
		want[dir+"/"+nm] = k.want
	}
	path := dir
	if isSingle(before) {
		path += "/" + pos
	}
	armed = nth
	func() {
		defer func() { recover() }()
		gkRead(before, path)
	}()
	armed = 0
	runs := n
	w.Trans(2)
	path = dir
	if isSingle(after) {
		path += "/m"
	}
	got, err := gkRead(after, path)
	if err != nil {
		w.Fail("held-kinds", "%s: fails: %v", desc, err)
		return
	}
	if n != runs+1 {
		w.Fail("held-kinds", "%s: ran the update function %d times", desc, n-runs)
		return
	}
	for _, o := range got {
		if f := want[o.path]; f != nil {
			if err := o.judge(f(n)); err != nil {
				w.Fail("held-kinds", "%s: %s: %v", desc, o.path, err)
			}
		}
	}
	w.State(desc)
	w.Trace()
}
