package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// c10Case is one bucketer and the endpoints it is documented to have.
type c10Case struct {
	name string
	make func() *tricorder.Bucketer
	want []float64 // nil: the call has to panic
	// loose: lower or upper cannot be told from an endpoint within rounding, so the first and
	// the last endpoint may or may not be there
	loose bool
}

func c10Close(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// c10Geometric computes the documented endpoints from decimal literals.
func c10Geometric(lower, upper float64) (out []float64, exact bool) {
	exact = true
	var all []float64
	for k := -20; k <= 20; k++ {
		for _, c := range []int{1, 2, 5} {
			var v float64
			fmt.Sscanf(fmt.Sprintf("%de%d", c, k), "%g", &v)
			all = append(all, v)
		}
	}
	first, last := 0, 0
	for i, v := range all {
		if v <= lower {
			first = i
		}
		if v != lower && c10Close(v, lower) || v != upper && c10Close(v, upper) {
			exact = false
		}
		if v == lower && v < 1e-4 || v == upper && v < 1e-4 {
			exact = false // repeated division by ten is not exact
		}
	}
	for last = first; all[last] < upper; last++ {
	}
	return all[first : last+1], exact
}

func c10Cases(tier string) map[string][]c10Case {
	m := map[string][]c10Case{}
	add := func(group string, c c10Case) { m[group] = append(m[group], c) }
	maxCount := 8
	if tier == "thorough" {
		maxCount = 24
	}
	f := []float64{-2, 0, 1e-6, 0.001, 0.3, 0.5, 1, 1.0001, 1.5, 3, 10, 1e3, 1e6}
	for count := -1; count <= maxCount; count++ {
		for _, start := range f {
			for _, scale := range []float64{-2, 0, 0.5, 1, 1.0001, 1.7, 2, 4, 10, 1000} {
				count, start, scale := count, start, scale
				c := c10Case{name: fmt.Sprintf("NewExponentialBucketer(%d, %v, %v)", count, start, scale),
					make: func() *tricorder.Bucketer { return tricorder.NewExponentialBucketer(count, start, scale) }}
				if count >= 2 && start > 0 && scale > 1 {
					for i := 0; i < count-1; i++ {
						c.want = append(c.want, start*math.Pow(scale, float64(i)))
					}
				}
				add("exponential", c)
			}
		}
		for _, start := range []float64{-1e6, -10, -0.5, 0, 0.1, 1, 7, 1e6} {
			for _, inc := range []float64{-1, 0, 0.1, 0.25, 1, 3, 10, 1e5} {
				count, start, inc := count, start, inc
				c := c10Case{name: fmt.Sprintf("NewLinearBucketer(%d, %v, %v)", count, start, inc),
					make: func() *tricorder.Bucketer { return tricorder.NewLinearBucketer(count, start, inc) }}
				if count >= 2 && inc > 0 {
					for i := 0; i < count-1; i++ {
						c.want = append(c.want, start+inc*float64(i))
					}
				}
				add("linear", c)
			}
		}
	}
	vals := []float64{-1e9, -10, -0.5, 0, 1e-9, 0.25, 1, 100, 1e12}
	for set := 0; set < 1<<len(vals); set++ {
		var ends []float64
		for i, v := range vals {
			if set>>i&1 == 1 {
				ends = append(ends, v)
			}
		}
		arg := append([]float64{}, ends...)
		add("arbitrary", c10Case{name: fmt.Sprintf("NewArbitraryBucketer(%v)", ends), want: ends,
			make: func() *tricorder.Bucketer {
				b := tricorder.NewArbitraryBucketer(arg...)
				for i := range arg { // bucketers are immutable
					arg[i] = 77
				}
				return b
			}})
	}
	// many endpoints: equal steps, and steps that shrink and grow
	many := []int{16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300,
		499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000}
	if tier == "thorough" {
		many = append(many, 8191, 8192, 8193, 10000)
	}
	for _, n := range many {
		for shape := 0; shape < 4; shape++ {
			var ends []float64
			at := -float64(n) / 2
			for i := 0; i < n; i++ {
				ends = append(ends, at)
				at += []float64{1, float64(i%7) + 0.5, 1 / float64(i+1), math.Pow(1.05, float64(i%200))}[shape]
			}
			add("many", c10Case{name: fmt.Sprintf("NewArbitraryBucketer(%d endpoints, shape %d)", n, shape), want: ends,
				make: func() *tricorder.Bucketer { return tricorder.NewArbitraryBucketer(ends...) }})
		}
		n := n
		var lin, exp []float64
		for i := 0; i < n; i++ {
			lin = append(lin, -3+0.25*float64(i))
			exp = append(exp, 0.001*math.Pow(1+1/float64(n+5), float64(i)))
		}
		add("many", c10Case{name: fmt.Sprintf("NewLinearBucketer(%d, -3, 0.25)", n+1), want: lin,
			make: func() *tricorder.Bucketer { return tricorder.NewLinearBucketer(n+1, -3, 0.25) }})
		add("many", c10Case{name: fmt.Sprintf("NewExponentialBucketer(%d, 0.001, 1+1/%d)", n+1, n+5), want: exp,
			make: func() *tricorder.Bucketer {
				return tricorder.NewExponentialBucketer(n+1, 0.001, 1+1/float64(n+5))
			}})
	}
	var geo []float64
	lo, hi := -6, 6
	if tier == "thorough" {
		lo, hi = -12, 15
	}
	for k := lo; k <= hi; k++ {
		for _, c := range []string{"1", "1.5", "2", "3", "5", "9.5"} {
			var v float64
			fmt.Sscanf(fmt.Sprintf("%se%d", c, k), "%g", &v)
			geo = append(geo, v)
		}
	}
	for _, l := range append([]float64{-1, 0}, geo...) {
		for _, u := range geo {
			l, u := l, u
			c := c10Case{name: fmt.Sprintf("NewGeometricBucketer(%v, %v)", l, u),
				make: func() *tricorder.Bucketer { return tricorder.NewGeometricBucketer(l, u) }}
			if l > 0 && u >= l {
				var exact bool
				c.want, exact = c10Geometric(l, u)
				c.loose = !exact
			}
			add("geometric", c)
		}
	}
	pow := func(base float64, n int) (out []float64) {
		for i := 0; i < n; i++ {
			out = append(out, math.Pow(base, float64(i)))
		}
		return
	}
	add("predeclared", c10Case{name: "PowersOfTwo", want: pow(2, 19), make: func() *tricorder.Bucketer { return tricorder.PowersOfTwo }})
	add("predeclared", c10Case{name: "PowersOfFour", want: pow(4, 10), make: func() *tricorder.Bucketer { return tricorder.PowersOfFour }})
	add("predeclared", c10Case{name: "PowersOfTen", want: pow(10, 6), make: func() *tricorder.Bucketer { return tricorder.PowersOfTen }})
	return m
}

func catch(f func()) (r any) {
	defer func() {
		r = recover()
		if r == nil {
			return
		}
	}()
	f()
	return nil
}

func c10Run(w *W, n int, c c10Case) {
	w.Eval()
	w.cur = func() string { return c.name }
	w.Sample(c.name)
	var b *tricorder.Bucketer
	if r := catch(func() { b = c.make() }); r != nil {
		if c.want != nil {
			w.Fail("endpoints", "%s panics: %v", c.name, r)
		}
		w.State(c.name)
		return
	}
	if c.want == nil {
		w.Fail("invalid", "%s does not panic", c.name)
		return
	}
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	d := b.NewCumulativeDistribution()
	must(tricorder.RegisterMetric(dir+"/d", d, units.None, ""))
	defer tricorder.UnregisterPath(dir)
	s, err := readDist("inproc", dir, "d")
	must(err)
	rs := s.D.Ranges
	var ends []float64
	for i, r := range rs {
		if i > 0 && r.Lower != rs[i-1].Upper {
			w.Fail("partition", "%s: range %d starts at %v, the one before ends at %v", c.name, i, r.Lower, rs[i-1].Upper)
		}
		if i < len(rs)-1 {
			ends = append(ends, r.Upper)
		}
	}
	match := func(want []float64) bool {
		if len(want) != len(ends) {
			return false
		}
		for i := range want {
			if !c10Close(want[i], ends[i]) && math.Abs(want[i]-ends[i]) > 1e-9 {
				return false
			}
		}
		return true
	}
	ok := match(c.want)
	if !ok && c.loose {
		// one endpoint more or less at either side
		for _, l := range []int{0, 1} {
			for _, r := range []int{0, 1} {
				wider := append([]float64{}, c.want...)
				if l == 1 {
					g, _ := c10Geometric(c.want[0]*0.99, c.want[0]*0.99)
					wider = append([]float64{g[0]}, wider...)
				}
				if r == 1 {
					g, _ := c10Geometric(c.want[len(c.want)-1]*1.01, c.want[len(c.want)-1]*1.01)
					wider = append(wider, g[len(g)-1])
				}
				ok = ok || match(wider)
				for _, l2 := range []int{0, 1} {
					for _, r2 := range []int{0, 1} {
						if l2+r2 < len(wider) {
							ok = ok || match(wider[l2:len(wider)-r2])
						}
					}
				}
			}
		}
	}
	if !ok {
		w.Fail("endpoints", "%s has endpoints %v, want %v", c.name, ends, c.want)
		return
	}
	var probes []float64
	for i, e := range ends {
		probes = append(probes, e, math.Nextafter(e, math.Inf(-1)), math.Nextafter(e, math.Inf(1)))
		if i > 0 {
			probes = append(probes, (e+ends[i-1])/2)
		}
	}
	probes = append(probes, -math.MaxFloat64/4, -1, 0, math.SmallestNonzeroFloat64, math.MaxFloat64/4)
	prev := make([]uint64, len(rs))
	if len(ends) > 300 {
		// all at once: reading after each one is quadratic
		for _, p := range probes {
			d.Add(p)
			prev[sort.Search(len(ends), func(i int) bool { return ends[i] > p })]++
			w.Trans(1)
		}
		s, err := readDist([]string{"inproc", "json1"}[n%2], dir, "d")
		if err != nil {
			w.Fail("read", "%s: %v", c.name, err)
			return
		}
		if len(s.D.Ranges) != len(rs) {
			w.Fail("partition", "%s: %d ranges reported, %d before", c.name, len(s.D.Ranges), len(rs))
			return
		}
		for i, r := range s.D.Ranges {
			if r.Count != prev[i] {
				w.Fail("partition", "%s: range %d (%v to %v) counts %d of the values, %d belong there", c.name, i, r.Lower, r.Upper, r.Count, prev[i])
				return
			}
		}
	}
	for pi, p := range probes {
		if len(ends) > 300 {
			break
		}
		d.Add(p)
		kind := "inproc"
		if (n+pi)%7 == 0 {
			kind = "json1"
		}
		s, err := readDist(kind, dir, "d")
		if err != nil {
			w.Fail("read", "%s: %v", c.name, err)
			return
		}
		want := rangeOf(ends, p)
		for i, r := range s.D.Ranges {
			inc := r.Count - prev[i]
			if i == want && inc != 1 || i != want && inc != 0 {
				w.Fail("partition", "%s: adding %v changed range %d by %d; it belongs into range %d (%v)", c.name, p, i, int64(inc), want, ends)
				return
			}
			prev[i] = r.Count
		}
		w.Trans(1)
	}
	// a second distribution of the same bucketer starts empty and does not share counts
	d2 := b.NewNonCumulativeDistribution()
	must(tricorder.RegisterMetric(dir+"/d2", d2, units.None, ""))
	d2.Add(ends[0])
	s1, err1 := readDist("inproc", dir, "d")
	s2, err2 := readDist("inproc", dir, "d2")
	if err1 != nil || err2 != nil || s1.D.Count != uint64(len(probes)) || s2.D.Count != 1 || len(s2.D.Ranges) != len(rs) {
		w.Fail("shared", "%s: two distributions of one bucketer influence each other", c.name)
	}
	w.State(c.name)
	w.Trace()
}

func init() {
	const parts = 8
	define(&Def{ID: "C10",
		Tasks: func(tier string) []string {
			var out []string
			for _, g := range []string{"exponential", "linear", "arbitrary", "geometric", "many", "predeclared"} {
				for i := 0; i < parts; i++ {
					out = append(out, fmt.Sprintf("%s/%d", g, i))
				}
			}
			return out
		},
		Do: func(w *W, name string) {
			var part int
			g := name[:len(name)-2]
			fmt.Sscanf(name[len(name)-1:], "%d", &part)
			for i, c := range c10Cases(w.tier)[g] {
				if i%parts == part {
					c10Run(w, i, c)
				}
			}
		},
		Rule: "every bucketer on a grid of valid and invalid constructor parameters, and bucketers of 16 to 5000 (thorough: 10000) endpoints of several spacings; endpoints against the documented series, and for each bucketer every endpoint, its floating point neighbours, the midpoints and the extremes added one by one, each of which has to be counted in exactly the one range that contains it"})
}
