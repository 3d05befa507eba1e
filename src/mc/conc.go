package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// What holds for one request or call has to hold for several at the same time: every result of two
// or three concurrent requests or calls is the one the same request gets on its own, whatever the
// schedule, and they do not race on memory.

// ccall is a request or call whose result is to be the same whatever runs beside it.
type ccall struct {
	name string
	do   func(dir string) string
}

// concScen runs the calls of each thread on a fresh tree.
func concScen(name string, bound int, setup func(dir string), progs ...[]ccall) Scen {
	var want [][]string
	full := name + ":"
	for _, p := range progs {
		for _, c := range p {
			full += " " + c.name
		}
		full += " ||"
	}
	return Scen{Name: full, Bound: bound, FreeCost: bound < unbounded, Fresh: true, Build: func(x *Exec) ([]func(), func()) {
		setup(x.Dir)
		x.Cleanup(func() { tricorder.UnregisterPath(x.Dir) })
		got := make([][]string, len(progs))
		var bodies []func()
		for ti, p := range progs {
			ti, p := ti, p
			bodies = append(bodies, func() {
				for _, c := range p {
					x.Log("%s starts", c.name)
					r := c.do(x.Dir)
					x.Log("%s ends", c.name)
					got[ti] = append(got[ti], strings.ReplaceAll(r, x.Dir, "DIR"))
				}
			})
		}
		return bodies, func() {
			if want == nil { // only now, so that a first use is a concurrent one
				execCount++
				dir := fmt.Sprintf("/x%d", execCount)
				setup(dir)
				for _, p := range progs {
					var w []string
					for _, c := range p {
						w = append(w, strings.ReplaceAll(c.do(dir), dir, "DIR"))
					}
					want = append(want, w)
				}
				tricorder.UnregisterPath(dir)
			}
			for ti, p := range progs {
				for i, c := range p {
					if i >= len(got[ti]) || got[ti][i] != want[ti][i] {
						g := ""
						if i < len(got[ti]) {
							g = got[ti][i]
						}
						x.Failf("differs", "%s gives, beside others, %s; alone %s", c.name, clipTo(g, 800), clipTo(want[ti][i], 800))
						return
					}
				}
			}
			x.Outcome("as alone")
		}
	}}
}

// concRead is a request whose result is described without time stamps and group ids.
func concRead(kind, path string) ccall {
	return ccall{name: kind + " " + path, do: func(dir string) string {
		p := dir + path
		native := func(l messages.MetricList) string {
			var out []string
			for _, m := range l {
				c := *m
				c.TimeStamp, c.GroupId = nil, 0
				b, err := json.Marshal(&c)
				out = append(out, fmt.Sprintf("%T %s %v", m.Value, b, err))
			}
			return strings.Join(out, "\n")
		}
		js := func(l []*jm, err error) string {
			var out []string
			for _, m := range l {
				m.TimeStamp, m.GroupId = "", 0
				b, _ := json.Marshal(m)
				out = append(out, string(b))
			}
			return fmt.Sprint(err, strings.Join(out, "\n"))
		}
		show := func(r *resp) string {
			if err := ungzip(r); err != nil {
				return err.Error()
			}
			return fmt.Sprintf("%d %s %s %s", r.Code, r.Hdr.Get("Content-Type"), r.Panic, r.Body)
		}
		switch kind {
		case "inproc":
			return native(tricorder.ReadMyMetrics(p))
		case "rpc":
			l, err := rpcList(p)
			return fmt.Sprint(native(l), err)
		case "rpc1":
			m, err := rpcGet(p)
			if err != nil {
				return err.Error()
			}
			return native(messages.MetricList{m})
		case "json":
			return js(jsonList(p))
		case "jsongz":
			r := fetch(jsonURL(p), "Accept-Encoding", "gzip")
			if err := ungzip(r); err != nil {
				return err.Error()
			}
			return js(parseJSONList(r))
		case "json1":
			m, err := jsonOne(p)
			if err != nil {
				return err.Error()
			}
			return js([]*jm{m}, nil)
		case "text":
			return show(fetch(textURL(p)))
		case "textgz":
			return show(fetch(textURL(p), "Accept-Encoding", "gzip"))
		case "html":
			return show(fetch(htmlURL(p)))
		case "htmlgz":
			return show(fetch(htmlURL(p), "Accept-Encoding", "gzip"))
		}
		panic(kind)
	}}
}

func concGroup() *tricorder.Group {
	g := tricorder.NewGroup()
	g.RegisterUpdateFunc(func() time.Time { return c14Stamp })
	return g
}

// concTree registers metrics of every kind in small directories.
func concTree(dir string) {
	g := concGroup()
	reg := func(path string, spec any, u units.Unit, desc string) {
		must(tricorder.RegisterMetricInGroup(dir+path, spec, g, u, desc))
	}
	i, neg, size, big := int64(1234567), int64(math.MinInt64), uint64(123456789), int32(-87654321)
	reg("/i/a", &i, units.None, "count <a>")
	reg("/i/b", &size, units.Byte, "size")
	reg("/j/a", &neg, units.None, "least")
	reg("/j/b", &big, units.BytePerSecond, "rate")
	f, f32, b := 0.1, float32(-2.5e10), true
	reg("/f/a", &f, units.Celsius, "warm")
	reg("/f/b", func() float32 { return f32 }, units.None, "callback")
	reg("/f/c", &b, units.None, "flag")
	s, s2 := "x <y> \"z\" & é", "other|text"
	reg("/s/a", &s, units.None, "string")
	reg("/s/b", func() string { return s2 }, "widgets", "string callback")
	t0 := time.Unix(1234567890, 987654321).UTC()
	tp := &t0
	reg("/t/a", &t0, units.None, "time")
	reg("/t/b", &tp, units.None, "time pointer")
	d, dms := 93784*time.Second+5*time.Millisecond, -1500*time.Microsecond
	reg("/d/a", &d, units.Second, "duration")
	reg("/d/b", &dms, units.Millisecond, "negative duration")
	reg("/l/a", tricorder.NewList([]int64{1000000, -5}, tricorder.ImmutableSlice), units.None, "integers")
	reg("/l/b", tricorder.NewList([]string{"p", "q r"}, tricorder.MutableSlice), units.None, "strings")
	reg("/m/a", tricorder.NewList([]time.Duration{time.Second, 90 * time.Minute}, tricorder.ImmutableSlice), units.Millisecond, "durations")
	reg("/m/b", tricorder.NewList([]time.Time{t0, time.Unix(5, 6).UTC()}, tricorder.ImmutableSlice), units.None, "times")
	reg("/m/c", tricorder.NewList([]float32{0.5, 1e9}, tricorder.ImmutableSlice), units.None, "floats")
	for k, name := range []string{"/p/a", "/q/a"} {
		x := concBucketer.NewCumulativeDistribution()
		reg(name, x, units.None, "distribution")
		for n := 0; n < 3; n++ {
			x.Add(float64(7*n + k))
		}
	}
}

var concBucketer = tricorder.NewArbitraryBucketer(0, 5, 10)

var concDirs = []string{"/i", "/j", "/f", "/s", "/t", "/d", "/l", "/m", "/p", "/q"}

func addScens(id, rule string, more func(tier string) []Scen) {
	d := defs[id]
	old := d.Scens
	d.Both = !d.Inst
	d.Rule += "; " + rule
	d.Scens = func(tier string) (out []Scen) {
		if old != nil {
			out = old(tier)
		}
		return append(out, more(tier)...)
	}
}

// concReads: every two requests of the given kinds over every two directories.
func concReads(kinds []string, dirs []string) func(tier string) []Scen {
	return func(tier string) (out []Scen) {
		b2, b3 := 3, 2
		if tier == "thorough" {
			b2, b3 = 5, 3
		}
		path := func(kind, d string) string {
			if strings.HasSuffix(kind, "1") {
				return d + "/a"
			}
			return d
		}
		for i, k1 := range kinds {
			for _, k2 := range kinds[i:] {
				for j, d1 := range dirs {
					for _, d2 := range []string{d1, dirs[(j+1)%len(dirs)], dirs[(j+len(dirs)/2)%len(dirs)]} {
						out = append(out, concScen("requests", b2, concTree, []ccall{concRead(k1, path(k1, d1))}, []ccall{concRead(k2, path(k2, d2))}))
					}
				}
			}
			for j, d1 := range dirs {
				d2 := dirs[(j+1)%len(dirs)]
				k2 := kinds[(i+j)%len(kinds)]
				out = append(out, concScen("requests", b3, concTree, []ccall{concRead(k1, path(k1, d1))}, []ccall{concRead(k2, path(k2, d2))}, []ccall{concRead(k1, path(k1, d2))}),
					concScen("requests", b2, concTree, []ccall{concRead(k1, path(k1, d1)), concRead(k2, path(k2, d1))}, []ccall{concRead(k1, path(k1, d2)), concRead(k2, path(k2, d2))}))
			}
		}
		return uniqueScens(out)
	}
}

func uniqueScens(in []Scen) (out []Scen) {
	seen := map[string]bool{}
	for _, s := range in {
		if !seen[s.Name] {
			seen[s.Name] = true
			out = append(out, s)
		}
	}
	return
}

// concCalls: every two of the calls, and threads of two.
func concCalls(quick, thorough int, calls func() []ccall) func(tier string) []Scen {
	return func(tier string) (out []Scen) {
		nothing := func(string) {}
		cs := calls()
		b := quick
		if tier == "thorough" {
			b = thorough
		}
		for i, a := range cs {
			for _, c := range cs[i:] {
				out = append(out, concScen("calls", b, nothing, []ccall{a}, []ccall{c}))
				out = append(out, concScen("calls", b, nothing, []ccall{a, c}, []ccall{c, a}))
			}
			c, e := cs[(i+1)%len(cs)], cs[(i+2)%len(cs)]
			out = append(out, concScen("calls", (min(b, 6)+1)/2, nothing, []ccall{a}, []ccall{c}, []ccall{e}))
		}
		return uniqueScens(out)
	}
}

func call(name string, f func() any) ccall {
	return ccall{name, func(string) string { return fmt.Sprintf("%+v", f()) }}
}

func concMessages() (out []ccall) {
	t0 := time.Unix(1234567890, 987654321).UTC()
	ms := []messages.Metric{
		{Kind: types.GoTime, Value: t0, TimeStamp: t0},
		{Kind: types.GoDuration, Unit: units.Millisecond, Value: -1500 * time.Microsecond},
		{Kind: types.List, SubType: types.GoTime, Value: []time.Time{t0, time.Unix(5, 7).UTC()}},
		{Kind: types.List, SubType: types.GoDuration, Unit: units.Second, Value: []time.Duration{1, time.Hour, -5}},
		{Kind: types.List, SubType: types.Int64, Value: []int64{1, 2}, TimeStamp: t0.Add(1)},
		{Kind: types.String, Value: "abc"},
	}
	for i, m := range ms {
		m := m
		out = append(out, call(fmt.Sprintf("to JSON %d", i), func() any { c := m; c.ConvertToJson(); return c }))
		out = append(out, call(fmt.Sprintf("and back %d", i), func() any { c := m; c.ConvertToJson(); return fmt.Sprint(c.ConvertToGoRPC(), c) }))
	}
	out = append(out, call("malformed", func() any {
		c := messages.Metric{Kind: types.List, SubType: types.Duration, Value: []string{"1.5", "x"}}
		return fmt.Sprint(c.ConvertToGoRPC(), c)
	}))
	return
}

func concDurations() (out []ccall) {
	for i, d := range []time.Duration{0, 1, -1500 * time.Microsecond, 93784*time.Second + 5*time.Millisecond, math.MinInt64} {
		d := d
		out = append(out, call(fmt.Sprintf("duration %d", i), func() any {
			x := duration.New(d)
			s := x.StringUsingUnits(units.Second)
			p, err := duration.ParseWithUnit(s, units.Second)
			return fmt.Sprint(x, s, x.StringUsingUnits(units.Millisecond), p, err, x.AsGoDuration(), x.IsNegative() || x.PrettyFormat() != "")
		}))
	}
	out = append(out, call("time", func() any {
		x := duration.SinceEpoch(time.Unix(1234567890, 987654321))
		return fmt.Sprint(x, x.AsGoTime().UTC(), x.StringUsingUnits(units.Second))
	}))
	out = append(out, call("malformed", func() any { d, err := duration.ParseWithUnit("1.x", units.Second); return fmt.Sprint(d, err) }))
	return
}

func concTypes() (out []ccall) {
	for _, v := range []any{int8(5), uint64(7), 2.5, "s", time.Second, []int32{1}, []time.Time{}, true} {
		v := v
		out = append(out, call(fmt.Sprintf("type of %T", v), func() any {
			t, sub := types.FromGoValueWithSubType(v)
			r := fmt.Sprint(t, sub, types.FromGoValue(v), t.Bits(), t.IsInt(), t.IsUint(), t.IsFloat(), t.CanToFromFloat())
			if t != types.List {
				z, err := t.SafeZeroValue()
				n, err2 := t.SafeNilSlice()
				r += fmt.Sprintf(" %T %v %T %v", z, err, n, err2)
				if t.CanToFromFloat() {
					r += fmt.Sprint(t.ToFloat(v), t.FromFloat(t.ToFloat(v)))
				}
			}
			return r
		}))
	}
	return
}

func concBucketers() (out []ccall) {
	ranges := func(name string, mk func() *tricorder.Bucketer) ccall {
		return ccall{name, func(dir string) string {
			b := mk()
			d := b.NewCumulativeDistribution()
			path := fmt.Sprintf("%s/%s", dir, strings.ReplaceAll(name, " ", "-"))
			for i := 0; ; i++ {
				if tricorder.RegisterMetric(fmt.Sprint(path, i), d, units.None, "") == nil {
					path = fmt.Sprint(path, i)
					break
				}
			}
			d.Add(1.0)
			d.Add(55.5)
			s := tricorder.ReadMyMetrics(path)
			if len(s) != 1 {
				return fmt.Sprint(len(s), " metrics")
			}
			r, err := json.Marshal(s[0].Value)
			return fmt.Sprint(string(r), err)
		}}
	}
	return []ccall{
		ranges("powers of two", func() *tricorder.Bucketer { return tricorder.PowersOfTwo }),
		ranges("powers of ten", func() *tricorder.Bucketer { return tricorder.PowersOfTen }),
		ranges("arbitrary", func() *tricorder.Bucketer { return tricorder.NewArbitraryBucketer(-1, 3.5, 77) }),
		ranges("linear", func() *tricorder.Bucketer { return tricorder.NewLinearBucketer(4, 1, 2.5) }),
		ranges("exponential", func() *tricorder.Bucketer { return tricorder.NewExponentialBucketer(4, 0.5, 3) }),
		ranges("geometric", func() *tricorder.Bucketer { return tricorder.NewGeometricBucketer(0.3, 40) }),
		ranges("shared", func() *tricorder.Bucketer { return concBucketer }),
	}
}

// concDists: distributions of the same bucketer, each changed and read by its own thread.
func concDists() (out []ccall) {
	for i, kind := range distKinds {
		i, kind := i, kind
		out = append(out, ccall{"own distribution read " + kind, func(dir string) string {
			b := concBucketer
			if i%2 == 1 {
				b = tricorder.PowersOfTen
			}
			d := b.NewNonCumulativeDistribution()
			name := ""
			for n := 0; ; n++ {
				name = fmt.Sprintf("d%d-%d", i, n)
				if tricorder.RegisterMetric(dir+"/"+name, d, units.None, "") == nil {
					break
				}
			}
			v := float64(i%7 + 1)
			d.Add(v)
			d.Add(3 * v)
			d.Update(v, 2*v)
			s, err := readDist(kind, dir, name)
			d.Remove(3 * v)
			return fmt.Sprint(s.dstr(), err, d.Sum(), d.Count())
		}})
	}
	return
}

// concLists: lists of several element types, made, changed and read by their own threads.
func concLists() (out []ccall) {
	t0 := time.Unix(1234567890, 987654321).UTC()
	list := func(name string, mut bool, vals ...any) ccall {
		return ccall{fmt.Sprintf("list %s mutable=%v", name, mut), func(dir string) string {
			l := tricorder.NewList(vals[0], mut)
			path := ""
			for i := 0; ; i++ {
				path = fmt.Sprintf("%s/%s%d", dir, name, i)
				if tricorder.RegisterMetric(path, l, units.None, "") == nil {
					break
				}
			}
			r := ""
			for _, v := range vals {
				l.Change(v, mut)
				for _, m := range tricorder.ReadMyMetrics(path) {
					r += fmt.Sprintf("%T %v; ", m.Value, m.Value)
				}
			}
			return r
		}}
	}
	for _, mut := range []bool{false, true} {
		out = append(out, list("int", mut, []int{1, 2}, []int{3}), list("time", mut, []time.Time{t0}, []time.Time{}), list("string", mut, []string{"a"}, []string{"b", "c"}),
			list("uint", mut, []uint{7}, []uint{8, 9}))
	}
	return
}

// typedLists are three contents per element type.
var typedLists = func() (out [][3]any) {
	t := func(n int64) time.Time { return time.Unix(1234567890+n, 5*n).UTC() }
	return [][3]any{
		{[]string{"a", "b"}, []string{"cc", "dd", "ee"}, []string{"f", "g"}},
		{[]time.Time{t(1), t(2)}, []time.Time{t(3), t(4), t(5)}, []time.Time{t(6), t(7)}},
		{[]time.Duration{1e9, 2e9}, []time.Duration{3e9, 4e9, 5e9}, []time.Duration{6e9, 7e9}},
		{[]float32{0.5, 1.5}, []float32{2.5, 3.5, 4.5}, []float32{5.5, 6.5}},
		{[]float64{0.25, 1.25}, []float64{2.25, 3.25, 4.25}, []float64{5.25, 6.25}},
		{[]uint{1, 2}, []uint{3, 4, 5}, []uint{6, 7}},
		{[]uint64{1, 2}, []uint64{3, 4, 5}, []uint64{6, 7}},
		{[]uint8{1, 2}, []uint8{3, 4, 5}, []uint8{6, 7}},
		{[]int8{1, 2}, []int8{-3, -4, -5}, []int8{6, 7}},
		{[]int32{1, 2}, []int32{-3, -4, -5}, []int32{6, 7}},
		{[]bool{true, false}, []bool{false, true, true}, []bool{false, false}},
	}
}()

// typedListScens: a list changed by one thread and read by others always has one of its contents.
func typedListScens(tier string) (out []Scen) {
	b := 2
	if tier == "thorough" {
		b = 4
	}
	for ti := range typedLists {
		for _, mut := range []bool{false, true} {
			for _, k := range []string{"inproc", "rpc", "rpc1", "json", "json1", "text", "html"} {
				out = append(out, typedListScen(ti, mut, unbounded, k), typedListScen(ti, mut, b, k, "inproc"), typedListScen(ti, mut, b, k, k))
			}
		}
	}
	return uniqueScens(out)
}

func typedListScen(ti int, mut bool, bound int, kinds ...string) Scen {
	lists := typedLists[ti]
	path := func(kind string) string {
		if strings.HasSuffix(kind, "1") {
			return "/l/a"
		}
		return "/l"
	}
	// give hands a copy to f and overwrites it afterwards when the caller may
	give := func(i int, f func(s any)) {
		src := reflect.ValueOf(lists[i])
		c := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		reflect.Copy(c, src)
		f(c.Interface())
		if mut {
			for j := 0; j < c.Len(); j++ {
				vsched.PointHere()
				c.Index(j).Set(reflect.Zero(src.Type().Elem()))
			}
		}
	}
	want := map[string][]string{}
	return Scen{Name: fmt.Sprintf("list of %T mutable=%v read %v", lists[0], mut, kinds), Bound: bound, FreeCost: bound < unbounded, Build: func(x *Exec) ([]func(), func()) {
		var l *tricorder.List
		give(0, func(s any) { l = tricorder.NewList(s, mut) })
		must(tricorder.RegisterMetric(x.Dir+"/l/a", l, units.None, ""))
		x.Cleanup(func() { tricorder.UnregisterPath(x.Dir) })
		bodies := []func(){func() {
			for i := 1; i < 3; i++ {
				give(i, func(s any) { l.Change(s, mut) })
			}
		}}
		got := make([][2]string, len(kinds))
		for i, k := range kinds {
			c := concRead(k, path(k))
			i := i
			bodies = append(bodies, func() {
				for j := range got[i] {
					x.Log("read %s", k)
					got[i][j] = strings.ReplaceAll(c.do(x.Dir), x.Dir, "DIR")
					if len(kinds) > 1 {
						got[i][1] = got[i][0]
						break
					}
				}
			})
		}
		return bodies, func() {
			for _, k := range append([]string{"inproc"}, kinds...) {
				if want[k] != nil {
					continue
				}
				for i := range lists {
					execCount++
					dir := fmt.Sprintf("/x%d", execCount)
					must(tricorder.RegisterMetric(dir+"/l/a", tricorder.NewList(lists[i], tricorder.ImmutableSlice), units.None, ""))
					want[k] = append(want[k], strings.ReplaceAll(concRead(k, path(k)).do(dir), dir, "DIR"))
					tricorder.UnregisterPath(dir)
				}
			}
			find := func(k, r string, from int) int {
				for i := from; i < 3; i++ {
					if want[k][i] == r {
						return i
					}
				}
				x.Failf("torn", "%s gives %s, and none of (in this order) %s", k, clipTo(r, 600), clipTo(strings.Join(want[k][from:], " and "), 1500))
				return 3
			}
			for i, k := range kinds {
				from := 0
				for _, r := range got[i] {
					from = find(k, r, from)
					x.Outcome("%d ", from)
				}
			}
			find("inproc", strings.ReplaceAll(concRead("inproc", "/l").do(x.Dir), x.Dir, "DIR"), 2)
		}
	}}
}

// concFlags reads flags that are registered once per process.
func concFlagTree(dir string) {
	if concFlagSet {
		return
	}
	concFlagSet = true
	fs := flag.NewFlagSet("test", flag.ContinueOnError)
	old := flag.CommandLine
	flag.CommandLine = fs
	defer func() { flag.CommandLine = old }()
	tricorder.UnregisterPath("/proc/flags")
	fs.Bool("b", true, "usage b")
	fs.Int("i", -5, "usage i")
	fs.String("s", "x y", "usage s")
	fs.Duration("d", time.Minute, "usage d")
	v := likeFlag("odd")
	fs.Var(&v, "v", "usage v")
	tricorder.RegisterFlags()
}

var concFlagSet bool

func concFlagScens(tier string) (out []Scen) {
	abs := func(c ccall) ccall { return ccall{c.name, func(string) string { return c.do("") }} }
	kinds := []string{"inproc", "rpc", "json", "text", "html"}
	for i, k := range kinds {
		for _, k2 := range kinds[i:] {
			out = append(out, concScen("flags", 3, concFlagTree, []ccall{abs(concRead(k, "/proc/flags"))}, []ccall{abs(concRead(k2, "/proc/flags"))}))
		}
	}
	return
}

// concInf is a tree with values that are not finite.
func concInf(dir string) {
	g := concGroup()
	n, inf, f, one := math.NaN(), math.Inf(-1), 2.5, int64(1)
	must(tricorder.RegisterMetricInGroup(dir+"/a/nan", &n, g, units.None, ""))
	must(tricorder.RegisterMetricInGroup(dir+"/a/one", &one, g, units.None, ""))
	must(tricorder.RegisterMetricInGroup(dir+"/b/inf", func() float64 { return inf }, g, units.None, ""))
	must(tricorder.RegisterMetricInGroup(dir+"/b/two", &f, g, units.None, ""))
}

func concInfScens(tier string) (out []Scen) {
	b := 3
	if tier == "thorough" {
		b = 6
	}
	kinds := []string{"inproc", "rpc", "json", "jsongz", "text", "html"}
	for i, k := range kinds {
		for _, k2 := range kinds[i:] {
			for _, d := range []string{"", "/a", "/b"} {
				out = append(out, concScen("not finite", b, concInf, []ccall{concRead(k, "/a")}, []ccall{concRead(k2, d)}))
			}
		}
	}
	return
}

func concPaths(tier string) (out []Scen) {
	b := 3
	if tier == "thorough" {
		b = 6
	}
	var all []ccall
	for _, k := range []string{"rpc", "rpc1", "json", "jsongz", "json1", "text", "textgz", "html", "htmlgz"} {
		for _, p := range []string{"/i/a", "/no/such", "/i"} {
			if k == "inproc" && p == "/no/such" {
				continue
			}
			all = append(all, concRead(k, p))
		}
	}
	for i, a := range all {
		for _, c := range all[i:] {
			out = append(out, concScen("paths", b, concTree, []ccall{a}, []ccall{c}))
		}
	}
	return
}

func init() {
	addScens("C08", "two and three distributions of one bucketer, each changed and read by its own thread, give what they give alone, in every schedule of up to 2 (thorough: 3) deviations",
		concCalls(2, 3, concDists))
	addScens("C10", "bucketers made and used by two and three threads at the same time give what they give alone, in every schedule of up to 2 (thorough: 4) deviations",
		concCalls(2, 4, concBucketers))
	addScens("C12", "lists made, changed and read by two and three threads of their own at the same time, in every schedule of up to 2 (thorough: 4) deviations",
		concCalls(2, 4, concLists))
	addScens("C13", "lists of every element type, changed twice by one thread and read by one or two others through every access path, give one of their contents and the contents in order; lists of several types, each made, changed and read by its own thread",
		func(tier string) []Scen {
			return append(typedListScens(tier), concCalls(1, 3, concLists)(tier)...)
		})
	addScens("C14", "every two requests, and threads of two and of three, at the same time over several pairings of directories give what each gives alone, in every schedule of up to 3 (thorough: 5) deviations",
		concReads([]string{"inproc", "rpc", "rpc1"}, concDirs))
	addScens("C15", "requests at the same time as in C14",
		concReads([]string{"rpc", "json", "json1", "text"}, concDirs))
	addScens("C16", "every two and some three conversions at the same time give what each gives alone",
		concCalls(4, unbounded, concMessages))
	addScens("C17", "every two and some three conversions at the same time give what each gives alone",
		concCalls(4, unbounded, concDurations))
	addScens("C18", "every two and some three calls at the same time give what each gives alone",
		concCalls(4, unbounded, concTypes))
	addScens("C19", "every two requests at the same time for what can and cannot be represented",
		concInfScens)
	addScens("C20", "every two requests at the same time, for a metric, a directory and a missing path through every endpoint and encoding",
		concPaths)
	addScens("C21", "every two HTML requests, plain and compressed, at the same time",
		concReads([]string{"html", "htmlgz"}, []string{"/s", "/l", "/f", "", "/i"}))
	addScens("C22", "every two HTML requests at the same time",
		concReads([]string{"html"}, concDirs))
	addScens("C24", "every two requests for the flags at the same time",
		concFlagScens)
}
