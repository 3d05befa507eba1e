package main

import (
	"flag"
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/healthserver"
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// Sizes far beyond those of the histories: all small ones and the neighbours of powers of two.

// extend adds tasks to a property. It has to be called from an init function that runs after the
// one which defines the property.
func extend(id string, tasks func(tier string) []string, do func(w *W, name string)) {
	d := defs[id]
	oldTasks, oldDo := d.Tasks, d.Do
	inst := d.Inst
	d.Tasks = func(tier string) (out []string) {
		for _, t := range tasks(tier) {
			out = append(out, "scale:"+t)
		}
		return append(out, oldTasks(tier)...)
	}
	d.Do = func(w *W, name string) {
		// a property may be extended more than once
		if rest, ok := strings.CutPrefix(name, "scale:"); ok && slices.Contains(tasks(w.tier), rest) {
			if inst {
				vsched.BeginExec()
			}
			do(w, rest)
			return
		}
		oldDo(w, name)
	}
}

func scaleSizes(tier string, all, max int) (out []int) {
	if tier == "thorough" {
		max *= 4
	}
	for n := 1; n <= max; n++ {
		pow := false
		for p := 32; p <= 1<<20; p *= 2 {
			pow = pow || n >= p-1 && n <= p+1
		}
		if n <= all || pow || n == 50 || n == 51 || n == 100 || n == 101 || n == 200 || n == 500 || n == 1000 || n == 1001 {
			out = append(out, n)
		}
	}
	return
}

// --- C09: medians of large and wide distributions

var c09Large = []int{0, 1, 2, 3, 100, 101, 65536}

// c09Big fills the ranges of a distribution with every combination of small and large counts.
func c09Big(w *W, conf int) {
	c := c09Confs[conf]
	vals := []float64{c.values[1], c.values[len(c.values)/2], c.values[len(c.values)-1]}
	for _, a := range c09Large {
		for _, b := range c09Large {
			for _, d := range c09Large {
				if a+b+d == 0 {
					continue
				}
				big := 0
				for _, n := range []int{a, b, d} {
					if n > 1000 {
						big++
					}
				}
				if big > 1 && w.tier != "thorough" {
					continue
				}
				c09One(w, c.ends, vals, []int{a, b, d}, fmt.Sprintf("big %d", conf))
			}
		}
	}
}

func c09One(w *W, ends, vals []float64, counts []int, what string) {
	w.Eval()
	desc := fmt.Sprintf("%s: values %v, counts %v", what, vals, counts)
	w.cur = func() string { return desc }
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	d := newDist(ends, execCount%2 == 0)
	m := &dmodel{ends: ends, nc: execCount%2 == 0}
	must(tricorder.RegisterMetric(dir+"/d", d, units.None, ""))
	defer tricorder.UnregisterPath(dir)
	for i, n := range counts {
		for ; n > 0; n-- {
			d.Add(vals[i])
			m.add(vals[i])
		}
	}
	kind := distKinds[int(w.out.Evals)%5]
	s, err := readDist(kind, dir, "d")
	if err == nil {
		err = m.checkMedian(s)
	}
	if err != nil {
		w.Fail("median/"+kind, "%s: %v", desc, err)
	}
	w.Trans(len(m.vals))
	w.State(desc)
	w.Trace()
	w.Sample(desc)
}

// c09Wide spreads values over the ranges of a bucketer with n end points.
func c09Wide(w *W, n int) {
	var ends []float64
	for i := 0; i < n; i++ {
		ends = append(ends, float64(10*i))
	}
	at := func(i int) float64 { return float64(10*i) - 5 } // inside range i
	for i := 0; i <= n; i++ {
		for j := i; j <= n; j++ {
			if n > 20 && j != i && j != i+1 && j != n && j != (i+n)/2 {
				continue
			}
			for _, c := range [][]int{{1, 1}, {2, 1}, {1, 2}, {3, 3}} {
				c09One(w, ends, []float64{at(i), at(j)}, c, fmt.Sprintf("wide %d", n))
			}
		}
	}
	// one in each range
	var vals []float64
	var ones []int
	for i := 0; i <= n; i++ {
		vals, ones = append(vals, at(i)), append(ones, 1)
	}
	c09One(w, ends, vals, ones, fmt.Sprintf("wide %d", n))
	ones[n/2] = 0
	c09One(w, ends, vals, ones, fmt.Sprintf("wide %d", n))
}

// --- C16: long lists

func c16Long(w *W, e elem, n int) {
	vals := boundary(e, w.tier)
	s := reflect.MakeSlice(reflect.SliceOf(e.want), 0, n)
	for i := 0; i < n; i++ {
		s = reflect.Append(s, reflect.ValueOf(vals[(i+i/len(vals))%len(vals)]))
	}
	for _, u := range []units.Unit{units.None, units.Second, units.Millisecond, units.Byte} {
		w.Eval()
		desc := fmt.Sprintf("list of %d %v, unit %q", n, e.typ, string(u))
		w.cur = func() string { return desc }
		orig := messages.Metric{Path: "/p", Kind: types.List, SubType: e.kind, Bits: e.bits, Unit: u, TimeStamp: time.Unix(1500000000, 7), Value: s.Interface()}
		m := orig
		m.ConvertToJson()
		wire, err := c16Wire(&m)
		if err != nil {
			w.Fail("wire", "%s: %v", desc, err)
			continue
		}
		for how, f := range map[string]*messages.Metric{"directly": &m, "over the wire": wire} {
			back := *f
			if err := back.ConvertToGoRPC(); err != nil || back.Kind != orig.Kind || back.SubType != orig.SubType || !sameReported(back.Value, epochIfZero(orig.Value)) || !sameStamp(back.TimeStamp, orig.TimeStamp) {
				w.Fail("back", "%s converted to JSON and back %s is different: %.200s, %v", desc, how, fmt.Sprint(back), err)
			}
			w.Trans(2)
		}
		// one malformed element at every place
		if l, ok := m.Value.([]string); ok && (e.kind == types.GoTime || e.kind == types.GoDuration) {
			for p := range l {
				if n > 40 && p != 0 && p != n-1 && p != n/2 {
					continue
				}
				bad := append([]string{}, l...)
				bad[p] = []string{"x", "", "1.5x", "--1"}[p%4]
				c16Refuse(w, messages.Metric{Path: "/p", Kind: types.List, SubType: m.SubType, Unit: u, Value: bad})
			}
		}
		w.State(desc)
		w.Trace()
		w.Sample(desc)
	}
}

// --- C19: many values that are not finite

// c19Many: n metrics of which only the p-th is finite, or only the p-th is not.
func c19Many(w *W, n int) {
	bad := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}
	var places []int
	for p := 0; p < n; p++ {
		if n <= 20 || p == 0 || p == n-1 || p == n/2 {
			places = append(places, p)
		}
	}
	for _, form := range []string{"variable", "callback", "float32", "nested"} {
		for _, p := range places {
			for _, only := range []bool{false, true} {
				w.Eval()
				desc := fmt.Sprintf("%d float metrics (%s), number %d the only one that is finite: %v", n, form, p, only)
				if !only {
					desc = fmt.Sprintf("%d float metrics (%s), number %d the only one that is not finite", n, form, p)
				}
				w.cur = func() string { return desc }
				execCount++
				dir := fmt.Sprintf("/x%d", execCount)
				want := map[string]bool{}
				for i := 0; i < n; i++ {
					ok := (i == p) == only
					v := float64(i) + 0.5
					if !ok {
						v = bad[i%3]
					}
					name := fmt.Sprintf("%s/m%04d", dir, i)
					if form == "nested" {
						name = fmt.Sprintf("%s/d%d/m%04d", dir, i%7, i)
					}
					if ok {
						want[name] = true
					}
					v32 := float32(v)
					switch form {
					case "float32":
						must(tricorder.RegisterMetric(name, &v32, units.None, ""))
					case "callback":
						must(tricorder.RegisterMetric(name, func() float64 { return v }, units.None, ""))
					default:
						must(tricorder.RegisterMetric(name, &v, units.None, ""))
					}
				}
				judge := func(kind string, got []string, err error) {
					w.Trans(1)
					okay := err == nil && len(got) == len(want)
					for _, g := range got {
						okay = okay && want[g]
					}
					if !okay {
						w.Fail("many/"+kind, "%s: the %s listing reports %d metrics, want %d (%v)", desc, kind, len(got), len(want), err)
					}
				}
				var got []string
				for _, m := range tricorder.ReadMyMetrics(dir) {
					got = append(got, m.Path)
				}
				judge("in-process", got, nil)
				l, err := rpcList(dir)
				got = nil
				for _, m := range l {
					got = append(got, m.Path)
				}
				judge("RPC", got, err)
				js, err := jsonList(dir)
				got = nil
				for _, m := range js {
					got = append(got, m.Path)
				}
				judge("JSON", got, err)
				got = nil
				for _, line := range strings.Split(string(fetch(textURL(dir)).Body), "\n") {
					if path, _, ok := strings.Cut(line, " "); ok {
						got = append(got, path)
					}
				}
				judge("plain text", got, nil)
				tricorder.UnregisterPath(dir)
				w.State(desc)
				w.Trace()
				w.Sample(desc)
			}
		}
	}
}

// c19LongList: a list or distribution with one value that is not finite at any place, between other metrics.
func c19LongList(w *W, n int) {
	for p := 0; p < n; p++ {
		if n > 20 && p != 0 && p != n-1 && p != n/2 {
			continue
		}
		for bi, b := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
			w.Eval()
			desc := fmt.Sprintf("lists and distribution of %d values, %v at place %d", n, b, p)
			w.cur = func() string { return desc }
			execCount++
			dir := fmt.Sprintf("/x%d", execCount)
			s := make([]float64, n)
			s32 := make([]float32, n)
			d := tricorder.NewArbitraryBucketer(1, 2).NewCumulativeDistribution()
			must(tricorder.RegisterMetric(dir+"/d", d, units.None, ""))
			for i := range s {
				s[i] = float64(i % 4)
				if i == p {
					s[i] = b
				}
				s32[i] = float32(s[i])
				d.Add(s[i])
			}
			first, last := int64(7), int64(8)
			must(tricorder.RegisterMetric(dir+"/a", &first, units.None, ""))
			must(tricorder.RegisterMetric(dir+"/l", tricorder.NewList(s, bi == 0), units.None, ""))
			must(tricorder.RegisterMetric(dir+"/l32", tricorder.NewList(s32, bi == 0), units.None, ""))
			must(tricorder.RegisterMetric(dir+"/z", &last, units.None, ""))
			judge := func(kind string, got map[string]string, err error) {
				w.Trans(1)
				if err != nil || got[dir+"/a"] != "7" || got[dir+"/z"] != "8" {
					w.Fail("list/"+kind, "%s: the %s listing reports the others as %q and %q (%v)", desc, kind, got[dir+"/a"], got[dir+"/z"], err)
				}
			}
			got := map[string]string{}
			for _, m := range tricorder.ReadMyMetrics(dir) {
				got[m.Path] = fmt.Sprint(m.Value)
			}
			judge("in-process", got, nil)
			l, err := rpcList(dir)
			got = map[string]string{}
			for _, m := range l {
				got[m.Path] = fmt.Sprint(m.Value)
			}
			judge("RPC", got, err)
			js, err := jsonList(dir)
			got = map[string]string{}
			for _, m := range js {
				got[m.Path] = string(m.Value)
			}
			judge("JSON", got, err)
			got = map[string]string{}
			for _, line := range strings.Split(string(fetch(textURL(dir)).Body), "\n") {
				if path, v, ok := strings.Cut(line, " "); ok {
					got[path] = v
				}
			}
			judge("plain text", got, nil)
			r := fetch(htmlURL(dir))
			words := htmlText(string(r.Body))
			got = map[string]string{}
			for i := 0; i+1 < len(words); i++ {
				got[words[i]] = words[i+1]
			}
			judge("HTML", got, nil)
			tricorder.UnregisterPath(dir)
			w.State(desc)
			w.Trace()
			w.Sample(desc)
		}
	}
}

// --- C23: long histories

func c23Long(w *W, at string, n int) {
	st := map[string]string{"h": "", "r": "not ready"}
	healthserver.SetHealthy()
	healthserver.SetNotReady("not ready")
	ops := c23Alphabet()
	for i := 0; i < n; i++ {
		o := ops[(i*7+i/16)%len(ops)]
		if at != "both" {
			o.at = at
		}
		if i%5 == 4 && !o.bad { // runs of the same
			o.status = []string{"", "down", fmt.Sprintf("down %d", i)}[i/5%3]
		}
		w.Eval()
		w.cur = func() string { return fmt.Sprintf("step %d of a long history (%s): %v", i, at, o) }
		p := o.do()
		if (p != nil) != o.bad {
			w.Fail("panic", "%s: panics %v", w.cur(), p)
		}
		if !o.bad {
			st[o.at] = o.status
		}
		for _, a := range []string{"h", "r"} {
			if got, err := c23Probe(a); err != nil || got != st[a] {
				w.Fail("answer", "%s: probe-%s answers %q %v, want %q", w.cur(), a, got, err, st[a])
				return
			}
		}
		w.Trans(3)
		w.State(fmt.Sprint(st))
		w.Trace()
	}
	healthserver.SetHealthy()
	healthserver.SetNotReady("not ready")
}

// --- C24: many flags

func c24Many(w *W, n int) {
	ks := fkinds()
	for _, form := range []string{"plain", "long", "deep", "repeat", "one-by-one"} {
		if (form == "repeat" || form == "one-by-one") && n > 70 {
			continue
		}
		w.Eval()
		desc := fmt.Sprintf("%d flags (%s)", n, form)
		w.cur = func() string { return desc }
		old := flag.CommandLine
		fs := flag.NewFlagSet("test", flag.ContinueOnError)
		flag.CommandLine = fs
		tricorder.UnregisterPath("/proc/flags")
		done := func() {
			flag.CommandLine = old
			tricorder.UnregisterPath("/proc/flags")
		}
		us := []units.Unit{"", units.Byte, "", units.Second, "widgets"}
		var flags []*aflag
		register := func() bool {
			if p := catch(tricorder.RegisterFlags); p != nil {
				w.Fail("panic", "%s: registration panics: %v", desc, p)
				return false
			}
			return true
		}
		okay := true
		for i := 0; i < n && okay; i++ {
			execCount++
			f := &aflag{k: ks[(i*5+n)%len(ks)], name: fmt.Sprintf("f%d", execCount), unit: us[i%len(us)]}
			usage := fmt.Sprintf("usage of %d", i)
			switch form {
			case "long":
				f.name = strings.Repeat("n", n) + fmt.Sprint("-", i)
				usage = strings.Repeat("usage text ", n) + fmt.Sprint(i)
			case "deep":
				f.name = strings.Repeat("d/", n%40+1) + f.name
			}
			if form == "long" && i >= 3 {
				break
			}
			if f.unit != "" {
				tricorder.SetFlagUnit(f.name, f.unit)
			}
			f.k.define(fs, f.name, usage)
			flags = append(flags, f)
			if form == "one-by-one" {
				okay = register()
			}
		}
		if okay {
			okay = register()
		}
		for i := 0; i < n && okay && form == "repeat"; i++ {
			okay = register()
		}
		if okay {
			check := func(d string) {
				if p := catch(func() { c24Check(w, fs, flags, d) }); p != nil {
					w.Fail("panic", "%s: listing panics: %v", d, p)
				}
			}
			check(desc)
			for round := 0; round < 2; round++ {
				for _, f := range flags {
					must(fs.Set(f.name, f.k.set[round]))
					f.cur = round + 1
				}
				check(fmt.Sprintf("%s, all set (round %d)", desc, round))
			}
		}
		done()
		w.State(desc)
		w.Trace()
		w.Sample(desc)
	}
}

// c24Odd puts every odd string into a flag's usage, default, value, name and unit.
func c24Odd(w *W, part int) {
	for i, s := range oddStrings(w.tier) {
		if i%oddParts != part || len(s) > 5000 {
			continue
		}
		for _, place := range []string{"usage", "default", "value", "string form", "name", "directory", "unit"} {
			w.Eval()
			desc := fmt.Sprintf("flag with %s %.100q", place, s)
			w.cur = func() string { return desc }
			old := flag.CommandLine
			fs := flag.NewFlagSet("test", flag.ContinueOnError)
			flag.CommandLine = fs
			tricorder.UnregisterPath("/proc/flags")
			execCount++
			f := &aflag{k: fkind{name: place, set: []string{"other", "x"}, want: []any{"one", "other", "x"}}, name: fmt.Sprintf("f%d", execCount)}
			usage := "usage"
			switch place {
			case "usage":
				usage = s
			case "default":
				f.k.want[0] = s
			case "value", "string form":
				f.k.set[0], f.k.want[1] = s, s
			case "name", "directory":
				if !oddName(s) || s[0] == '-' || strings.Contains(s, "=") || strings.TrimSpace(s) != s {
					flag.CommandLine = old
					continue
				}
				if f.name = s; place == "directory" {
					f.name = s + "/x"
				}
			case "unit":
				if f.unit = units.Unit(s); s == "" {
					f.unit = units.None
				}
			}
			if f.unit != "" {
				tricorder.SetFlagUnit(f.name, f.unit)
			}
			if place == "string form" {
				v := likeFlag("one")
				fs.Var(&v, f.name, usage)
			} else {
				fs.String(f.name, f.k.want[0].(string), usage)
			}
			if p := catch(tricorder.RegisterFlags); p != nil {
				w.Fail("panic", "%s: registration panics: %v", desc, p)
			} else {
				for round := 0; round < 3; round++ {
					if round > 0 {
						must(fs.Set(f.name, f.k.set[round-1]))
					}
					f.cur = round
					if p := catch(func() { c24Check(w, fs, []*aflag{f}, desc) }); p != nil {
						w.Fail("panic", "%s: listing panics: %v", desc, p)
					}
				}
			}
			flag.CommandLine = old
			tricorder.UnregisterPath("/proc/flags")
			w.State(desc)
			w.Trace()
			w.Sample(desc)
		}
	}
}

func sizeTasks(prefix string, all, max int) func(tier string) []string {
	return func(tier string) (out []string) {
		for _, n := range scaleSizes(tier, all, max) {
			out = append(out, fmt.Sprintf("%s/%d", prefix, n))
		}
		return
	}
}

func init() {
	extend("C09", func(tier string) (out []string) {
		for i := range c09Confs {
			out = append(out, fmt.Sprintf("big/%d", i))
		}
		return append(out, sizeTasks("wide", 24, 260)(tier)...)
	}, func(w *W, name string) {
		var n int
		if k, _ := fmt.Sscanf(name, "big/%d", &n); k == 1 {
			c09Big(w, n)
			return
		}
		fmt.Sscanf(name, "wide/%d", &n)
		c09Wide(w, n)
	})
	extend("C16", sizeTasks("list", 40, 4100), func(w *W, name string) {
		var n int
		fmt.Sscanf(name, "list/%d", &n)
		for _, e := range elems() {
			if e.typ == e.want {
				c16Long(w, e, n)
			}
		}
	})
	extend("C19", func(tier string) []string {
		return append(sizeTasks("list", 20, 1100)(tier), sizeTasks("many", 20, 300)(tier)...)
	}, func(w *W, name string) {
		var n int
		if k, _ := fmt.Sscanf(name, "many/%d", &n); k == 1 {
			c19Many(w, n)
			return
		}
		fmt.Sscanf(name, "list/%d", &n)
		c19LongList(w, n)
	})
	extend("C23", func(string) []string { return []string{"h", "r", "both"} }, func(w *W, name string) {
		n := 3000
		if w.tier == "thorough" {
			n = 70000
		}
		c23Long(w, name, n)
	})
	extend("C24", func(tier string) (out []string) {
		for i := 0; i < oddParts; i++ {
			out = append(out, fmt.Sprintf("odd/%d", i))
		}
		return append(out, sizeTasks("many", 40, 520)(tier)...)
	}, func(w *W, name string) {
		var n int
		if k, _ := fmt.Sscanf(name, "odd/%d", &n); k == 1 {
			c24Odd(w, n)
			return
		}
		fmt.Sscanf(name, "many/%d", &n)
		c24Many(w, n)
	})
}

// --- C07: values that are not finite are counted like all others

var c07OddVals = []float64{math.NaN(), math.Inf(1), math.Inf(-1), 4, math.Copysign(0, -1)}

// c07Odd runs every sequence of additions and, for distributions that allow them, removals and updates.
func c07Odd(w *W, nc bool, first int) {
	ends := []float64{0, 10}
	type op struct {
		kind string
		v, n int
	}
	var ops []op
	for v := range c07OddVals {
		ops = append(ops, op{"add", v, 0})
		if nc {
			ops = append(ops, op{"remove", v, 0})
			for n := range c07OddVals {
				ops = append(ops, op{"update", v, n})
			}
		}
	}
	depth := 4
	if w.tier == "thorough" {
		depth = 5
	}
	run := func(seq []op) bool {
		w.Eval()
		execCount++
		dir := fmt.Sprintf("/x%d", execCount)
		d := newDist(ends, nc)
		must(tricorder.RegisterMetric(dir+"/d", d, units.None, ""))
		defer tricorder.UnregisterPath(dir)
		var held [5]uint64
		everNaN := false
		desc := ""
		for _, o := range seq {
			everNaN = everNaN || o.v == 0 || o.kind == "update" && o.n == 0
			if o.kind != "add" && held[o.v] == 0 {
				return false
			}
			switch o.kind {
			case "add":
				d.Add(c07OddVals[o.v])
				held[o.v]++
				desc += fmt.Sprintf("add(%v) ", c07OddVals[o.v])
			case "remove":
				d.(*tricorder.NonCumulativeDistribution).Remove(c07OddVals[o.v])
				held[o.v]--
				desc += fmt.Sprintf("remove(%v) ", c07OddVals[o.v])
			case "update":
				d.(*tricorder.NonCumulativeDistribution).Update(c07OddVals[o.v], c07OddVals[o.n])
				held[o.v]--
				held[o.n]++
				desc += fmt.Sprintf("update(%v,%v) ", c07OddVals[o.v], c07OddVals[o.n])
			}
		}
		w.cur = func() string { return desc }
		var total uint64
		for _, h := range held {
			total += h
		}
		for _, k := range []string{"inproc", "rpc1", "rpc"} {
			s, err := readDist(k, dir, "d")
			if err != nil {
				w.Fail("odd/"+k, "after %s: %v", desc, err)
				continue
			}
			var sum uint64
			for _, r := range s.D.Ranges {
				sum += r.Count
			}
			if s.D.Count != total || sum != total || s.D.Generation != uint64(len(seq)) || s.D.IsNotCumulative != nc {
				w.Fail("odd/"+k, "after %s: count %d, in ranges %d, generation %d, non-cumulative %v; want %d, %d and %v", desc, s.D.Count, sum, s.D.Generation, s.D.IsNotCumulative, total, len(seq), nc)
			}
			if !everNaN && len(s.D.Ranges) == 3 && (s.D.Ranges[0].Count != held[2] || s.D.Ranges[1].Count != held[3]+held[4] || s.D.Ranges[2].Count != held[1]) {
				w.Fail("odd/"+k, "after %s: ranges are %s", desc, rangesString(s.D.Ranges, false))
			}
			if total == 0 && (s.D.Sum != 0 || s.D.Min != 0 || s.D.Max != 0 || s.D.Average != 0 || s.D.Median != 0) {
				w.Fail("odd/"+k, "after %s, when it is empty: %+v", desc, s.D)
			}
			w.Trans(1)
		}
		w.State(desc)
		w.Trace()
		w.Sample(desc)
		return true
	}
	var rec func(seq []op)
	rec = func(seq []op) {
		if !run(seq) || len(seq) == depth {
			return
		}
		for _, o := range ops {
			rec(append(append([]op{}, seq...), o))
		}
	}
	rec([]op{{"add", first, 0}})
}

func init() {
	extend("C07", func(string) (out []string) {
		for _, nc := range []string{"c", "n"} {
			for i := range c07OddVals {
				out = append(out, fmt.Sprintf("odd/%s/%d", nc, i))
			}
		}
		return
	}, func(w *W, name string) {
		var first int
		fmt.Sscan(name[len("odd/c/"):], &first)
		c07Odd(w, name[4] == 'n', first)
	})

	// --- C17: long fractions and huge durations
	extend("C17", func(string) []string { return []string{"long", "huge"} }, func(w *W, name string) {
		if name == "long" {
			for k := 15; k <= 70; k++ {
				for _, whole := range []string{"0", "-1", "1500000000"} {
					for _, pat := range []string{"0", "9", "123456789"} {
						s := whole + "." + strings.Repeat(pat, k)[:k]
						c17Text(w, s)
						for p := 0; p <= len(s); p++ {
							for _, c := range []string{"x", " ", "-", "+", "."} {
								c17Text(w, s[:p]+c+s[p:])
							}
						}
					}
				}
			}
			return
		}
		for k := 30; k <= 63; k++ {
			for off := int64(-1); off <= 1; off++ {
				secs := int64(uint64(1)<<k - 1)
				if k < 63 {
					secs = 1<<k + off
				}
				for _, days := range []bool{false, true} {
					if days {
						if secs > math.MaxInt64/86400 {
							continue
						}
						secs *= 86400
					}
					for _, n := range []int32{0, 1, 500000000, 999999999} {
						w.Eval()
						x := duration.Duration{Seconds: secs, Nanoseconds: n}
						what := fmt.Sprintf("duration of %d s and %d ns", secs, n)
						w.cur = func() string { return what }
						c17Pretty(w, x, bigNanos(secs, int64(n)))
						want := exactDecimal(bigNanos(secs, int64(n)), units.Second)
						if got := x.String(); got != want {
							w.Fail("huge-text", "%s is printed as %s", what, got)
						}
						if back, err := duration.ParseWithUnit(want, units.Second); err != nil || back != x {
							w.Fail("huge-parse", "%s is parsed as %+v %v", want, back, err)
						}
						if got := (duration.Duration{Seconds: -secs, Nanoseconds: -n}).String(); got != "-"+want {
							w.Fail("huge-text", "minus %s is printed as %s", what, got)
						}
						w.State(what)
						w.Trans(3)
						w.Trace()
						w.Sample(what)
					}
				}
			}
		}
	})

	// --- C19: what cannot be represented at any place
	extend("C19", func(string) (out []string) {
		for i := 0; i < 7; i++ {
			out = append(out, fmt.Sprintf("places/%d", i))
		}
		return
	}, func(w *W, name string) {
		var first int
		fmt.Sscanf(name, "places/%d", &first)
		for rest := 0; rest < 7*7*7; rest++ {
			c19Places(w, [4]int{first, rest % 7, rest / 7 % 7, rest / 49})
		}
	})
}

// c19Places puts metrics that can and cannot be represented at four places of a tree.
func c19Places(w *W, kinds [4]int) {
	w.Eval()
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	defer tricorder.UnregisterPath(dir)
	names := []string{"a", "b/c", "b/d/e", "f"}
	desc := ""
	ok := map[string]bool{}
	for i, k := range kinds {
		var spec any
		what := ""
		switch k {
		case 0:
			spec, what = new(int64), "integer"
		case 1:
			spec, what = tricorder.NewList([]string{"x"}, tricorder.ImmutableSlice), "list"
		case 2:
			f := math.NaN()
			spec, what = &f, "NaN"
		case 3:
			spec, what = func() float32 { return float32(math.Inf(-1)) }, "infinite callback"
		case 4:
			spec, what = tricorder.NewList([]float64{1, math.NaN()}, tricorder.ImmutableSlice), "list with NaN"
		case 5:
			spec, what = tricorder.NewList([]float32{float32(math.Inf(1))}, tricorder.ImmutableSlice), "list with an infinity"
		case 6:
			spec, what = tricorder.NewArbitraryBucketer(1).NewCumulativeDistribution(), "distribution with NaN"
		}
		must(tricorder.RegisterMetric(dir+"/"+names[i], spec, units.None, ""))
		if d, isDist := spec.(*tricorder.CumulativeDistribution); isDist {
			d.Add(math.NaN())
		}
		if k < 2 {
			ok[names[i]] = true
		}
		desc += names[i] + ": " + what + "; "
	}
	w.cur = func() string { return desc }
	for _, sub := range []string{"", "/b"} {
		for _, k := range []string{"inproc", "rpc", "json", "text"} {
			w.Trans(1)
			got, err := listPaths(k, dir+sub)
			if err != nil {
				w.Fail("places/"+k, "%s%s listing of %q fails: %v", desc, k, sub, err)
				continue
			}
			seen := map[string]int{}
			for _, p := range got {
				seen[strings.TrimPrefix(p, dir+"/")]++
			}
			for i, n := range names {
				if !strings.HasPrefix("/"+n, sub) {
					continue
				}
				if ok[n] && seen[n] != 1 {
					w.Fail("places/"+k, "%s%s listing of %q reports %s %d times", desc, k, sub, n, seen[n])
				}
				if (kinds[i] == 2 || kinds[i] == 3) && seen[n] != 0 {
					w.Fail("places-finite/"+k, "%s%s listing of %q reports %s", desc, k, sub, n)
				}
			}
		}
		r := fetch(htmlURL(dir + sub))
		w.Trans(1)
		if r.Code != 200 || r.Panic != "" || !strings.Contains(string(r.Body), "</html>") {
			w.Fail("places/html", "%spage of %q: %d %s %s", desc, sub, r.Code, r.Panic, clipTo(string(r.Body), 300))
		}
	}
	w.State(desc)
	w.Trace()
	w.Sample(desc)
}
