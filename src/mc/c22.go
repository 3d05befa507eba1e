package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

var c22Steps = map[string]struct {
	radix int64
	exp   int64
	tail  string // rest of the suffix
}{
	"thousand": {1000, 1, ""}, "million": {1000, 2, ""}, "billion": {1000, 3, ""}, "trillion": {1000, 4, ""}, "K trillion": {1000, 5, ""}, "M trillion": {1000, 6, ""},
	"KiB": {1024, 1, ""}, "MiB": {1024, 2, ""}, "GiB": {1024, 3, ""}, "TiB": {1024, 4, ""}, "PiB": {1024, 5, ""}, "EiB": {1024, 6, ""},
}

var c22Mantissa = regexp.MustCompile(`^(-?)(\d+(?:\.\d+)?)\s*(\D*)$`)

// c22Int judges the human form of an integer.
func c22Int(s string, n *big.Int, u units.Unit) error {
	if u == units.None {
		want := n.String()
		sign := ""
		if want[0] == '-' {
			sign, want = "-", want[1:]
		}
		for i := len(want) - 3; i > 0; i -= 3 {
			want = want[:i] + "," + want[i:]
		}
		if s != sign+want {
			return fmt.Errorf("shown as %q, want %q", s, sign+want)
		}
		return nil
	}
	radix := int64(1000)
	if u == units.Byte || u == units.BytePerSecond {
		radix = 1024
	}
	abs := new(big.Int).Abs(n)
	if abs.Cmp(big.NewInt(radix)) < 0 {
		if s != n.String() {
			return fmt.Errorf("shown as %q, want %v", s, n)
		}
		return nil
	}
	m := c22Mantissa.FindStringSubmatch(s)
	if m == nil {
		return fmt.Errorf("shown as %q", s)
	}
	suffix := strings.TrimSpace(m[3])
	if u == units.BytePerSecond {
		if !strings.HasSuffix(suffix, "/s") {
			return fmt.Errorf("shown as %q, not per second", s)
		}
		suffix = strings.TrimSuffix(suffix, "/s")
	}
	st, ok := c22Steps[suffix]
	if !ok || st.radix != radix {
		return fmt.Errorf("shown as %q with the suffix %q", s, suffix)
	}
	step := new(big.Int).Exp(big.NewInt(radix), big.NewInt(st.exp), nil)
	mant, _ := new(big.Rat).SetString(m[2])
	val := new(big.Rat).Mul(mant, new(big.Rat).SetInt(step))
	if (n.Sign() < 0) != (m[1] == "-") {
		return fmt.Errorf("shown as %q, sign is lost", s)
	}
	// the mantissa uses the largest suffix, up to rounding
	if one := big.NewRat(1, 1); mant.Cmp(one) < 0 || mant.Cmp(new(big.Rat).SetInt64(radix)) > 0 {
		return fmt.Errorf("shown as %q, mantissa out of range", s)
	}
	// half a unit of the third significant digit
	exact := new(big.Rat).SetFrac(abs, step)
	tol := big.NewRat(5, 1000)
	for lim := int64(10); lim <= 1000; lim *= 10 {
		if exact.Cmp(new(big.Rat).SetInt64(lim)) >= 0 {
			tol.Mul(tol, big.NewRat(10, 1))
		}
	}
	tol.Mul(tol, big.NewRat(1000001, 1000000)) // floats
	diff := new(big.Rat).Sub(mant, exact)
	if diff.Abs(diff).Cmp(tol) > 0 {
		return fmt.Errorf("shown as %q, which is %s", s, val.FloatString(0))
	}
	return nil
}

// c22Value judges any number shown.
func c22Value(s string, v any, u units.Unit) error {
	switch x := v.(type) {
	case time.Time:
		t, err := time.Parse(time.RFC3339Nano, s)
		if err != nil {
			return fmt.Errorf("shown as %q: %v", s, err)
		}
		if !strings.HasSuffix(s, "Z") || !t.Equal(x) {
			return fmt.Errorf("shown as %q", s)
		}
		return nil
	case time.Duration:
		if x < 0 {
			if want := exactDecimal(big.NewInt(int64(x)), u); s != want {
				return fmt.Errorf("shown as %q, want %q", s, want)
			}
			return nil
		}
		return prettyErr(s, big.NewInt(int64(x)))
	}
	rv := reflect.ValueOf(v)
	n := new(big.Int)
	if rv.CanInt() {
		n.SetInt64(rv.Int())
	} else {
		n.SetUint64(rv.Uint())
	}
	return c22Int(s, n, u)
}

// shownValue is the text between the path of a metric and its parenthesised type.
func shownValue(body, path string) (string, error) {
	_, text := tokenize(body)
	i := strings.Index(text, path)
	if i < 0 {
		return "", fmt.Errorf("%s is not on the page", path)
	}
	text = text[i+len(path):]
	j := strings.Index(text, "(")
	if j < 0 {
		return "", fmt.Errorf("no type shown")
	}
	return strings.TrimSpace(text[:j]), nil
}

var c22Item = regexp.MustCompile(`(?s)<li>(.*?)</li>`)

// c22Run shows the values of a type one by one and in a list.
func c22Run(w *W, typ reflect.Type, vals []any, us []units.Unit) {
	for _, u := range us {
		execCount++
		dir := fmt.Sprintf("/x%d", execCount)
		p := reflect.New(typ)
		cur := reflect.Zero(typ)
		f := reflect.MakeFunc(reflect.FuncOf(nil, []reflect.Type{typ}, false), func([]reflect.Value) []reflect.Value { return []reflect.Value{cur} })
		must(tricorder.RegisterMetricInGroup(dir+"/v", p.Interface(), fixedGroup(), u, ""))
		must(tricorder.RegisterMetricInGroup(dir+"/f", f.Interface(), fixedGroup(), u, ""))
		list := reflect.MakeSlice(reflect.SliceOf(typ), 0, len(vals))
		for i, v := range vals {
			w.Eval()
			w.cur = func() string { return fmt.Sprintf("%v %v unit %q", typ, v, string(u)) }
			cur = reflect.ValueOf(v).Convert(typ)
			p.Elem().Set(cur)
			list = reflect.Append(list, cur)
			path, url := dir+"/v", htmlURL(dir+"/v")
			switch i % 3 {
			case 1:
				path, url = dir+"/f", htmlURL(dir+"/f")
			case 2:
				url = htmlURL(dir)
			}
			s, err := shownValue(string(fetch(url).Body), path)
			if err == nil {
				err = c22Value(s, v, u)
			}
			if err != nil {
				w.Fail("shown", "%v %v with unit %q: %v", typ, v, string(u), err)
			}
			w.Trans(1)
			w.State(fmt.Sprint(typ, v, u))
			w.Trace()
			w.Sample(w.cur())
		}
		must(tricorder.RegisterMetricInGroup(dir+"/l", tricorder.NewList(list.Interface(), tricorder.MutableSlice), fixedGroup(), u, ""))
		items := c22Item.FindAllStringSubmatch(string(fetch(htmlURL(dir+"/l")).Body), -1)
		if len(items) != len(vals) {
			w.Fail("list", "list of %d %v shows %d elements", len(vals), typ, len(items))
		} else {
			for i, v := range vals {
				_, s := tokenize(items[i][1])
				if err := c22Value(strings.TrimSpace(s), v, u); err != nil {
					w.Fail("list", "%v %v with unit %q in a list: %v", typ, v, string(u), err)
				}
				w.Trans(1)
			}
		}
		tricorder.UnregisterPath(dir)
	}
}

// c22Magnitudes are the integers around every rounding boundary.
func c22Magnitudes(tier string) []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	add := func(b *big.Int) {
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(b, big.NewInt(d))
			if x.Sign() >= 0 && x.IsUint64() && !seen[x.Uint64()] {
				seen[x.Uint64()] = true
				out = append(out, x.Uint64())
			}
		}
	}
	for _, radix := range []int64{1000, 1024} {
		step := big.NewInt(1)
		for k := 0; k <= 6; k++ {
			// mantissas in units of 1/1000
			var ms []int64
			for _, m := range []int64{1, 2, 5, 9, 10, 11, 50, 99, 100, 101, 500, 999, 1000, 1001, 1022, 1023, 1024, 1025} {
				ms = append(ms, m*1000)
			}
			ms = append(ms, 1004, 1005, 1006, 1234, 1500, 9994, 9995, 9996, 9999, 10049, 10050, 10051, 12345, 99949, 99950, 99951, 99999, 100499, 100500, 100501, 123456, 999499, 999500, 999501, 999999, 1023499, 1023500, 1023501, 1023999)
			if tier == "thorough" {
				for m := int64(1000); m < 1024000; m += 137 {
					ms = append(ms, m)
				}
			}
			for _, m := range ms {
				b := new(big.Int).Mul(step, big.NewInt(m))
				add(b.Div(b, big.NewInt(1000)))
			}
			step.Mul(step, big.NewInt(radix))
		}
	}
	for k := 0; k < 64; k++ {
		add(new(big.Int).Lsh(big.NewInt(1), uint(k)))
	}
	ten := big.NewInt(1)
	for k := 0; k < 20; k++ {
		add(ten)
		add(new(big.Int).Mul(ten, big.NewInt(7)))
		ten = new(big.Int).Mul(ten, big.NewInt(10))
	}
	add(new(big.Int).SetUint64(math.MaxUint64))
	return out
}

func init() {
	var types_ = []reflect.Type{reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(int(0)),
		reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uint(0))}
	intUnits := []units.Unit{units.None, units.Byte, units.BytePerSecond, units.Second, units.Celsius, units.Unit("widgets"), units.Millisecond}
	define(&Def{ID: "C22", Rule: "every integer type x every unit x every value up to a bound and around every boundary of grouping, suffix and rounding (all of the 8 and, thorough, 16 bit types), and times and durations around every boundary of their form, shown on pages one by one and in lists, compared with exact arithmetic; the process runs in a time zone other than UTC",
		Tasks: func(tier string) (out []string) {
			for i := range types_ {
				for u := range intUnits {
					out = append(out, fmt.Sprintf("int/%d/%d", i, u))
				}
			}
			return append(out, "time", "duration/0", "duration/1", "duration/2")
		},
		Do: func(w *W, name string) {
			time.Local = time.FixedZone("Somewhere", 5*3600+1800)
			defer func() { time.Local = time.UTC }()
			f := strings.Split(name, "/")
			switch f[0] {
			case "time":
				var vals []any
				for _, e := range elems() {
					if e.kind == types.GoTime && e.typ == e.want {
						for _, v := range boundary(e, w.tier) {
							if y := v.(time.Time).UTC().Year(); y >= 0 && y <= 9999 {
								vals = append(vals, v, v.(time.Time).Local())
							}
						}
					}
				}
				for d := 0; d < 400; d++ {
					vals = append(vals, time.Unix(1456000000+int64(d)*86400+int64(d)*3601, int64(d)*1234567))
				}
				c22Run(w, reflect.TypeOf(time.Time{}), vals, []units.Unit{units.None, units.Second})
			case "duration":
				k, _ := strconv.Atoi(f[1])
				var vals []any
				seen := map[int64]bool{}
				for _, u := range []int64{1, 10, 1000, 1e4, 1e6, 1e7, 1e9, 10e9, 60e9, 3600e9, 86400e9, 864000e9} {
					for _, k := range []int64{1, 2, 9, 10, 24, 59, 60, 99, 100, 999, 1000} {
						for _, off := range []int64{0, 1, 999, 500000, 999999, 999e6, 999999999} {
							for _, sg := range []int64{1, -1} {
								v := u*k + sg*off
								if !seen[v] && u <= math.MaxInt64/1000 {
									seen[v] = true
									vals = append(vals, time.Duration(v), time.Duration(-v))
								}
							}
						}
					}
				}
				us := []units.Unit{units.Second, units.Millisecond, units.None}
				c22Run(w, reflect.TypeOf(time.Duration(0)), vals, us[k:k+1])
			default:
				i, _ := strconv.Atoi(f[1])
				ui, _ := strconv.Atoi(f[2])
				t := types_[i]
				var vals []any
				add := func(n *big.Int) {
					v := reflect.New(t).Elem()
					if v.CanInt() {
						if !n.IsInt64() || v.OverflowInt(n.Int64()) {
							return
						}
						v.SetInt(n.Int64())
					} else {
						if !n.IsUint64() || v.OverflowUint(n.Uint64()) {
							return
						}
						v.SetUint(n.Uint64())
					}
					vals = append(vals, v.Interface())
				}
				lim := int64(1100)
				if t.Size() == 2 && w.tier == "thorough" {
					lim = 65536
				}
				for k := int64(0); k < lim; k++ {
					add(big.NewInt(k))
					add(big.NewInt(-k))
				}
				for _, m := range c22Magnitudes(w.tier) {
					if m >= uint64(lim) {
						n := new(big.Int).SetUint64(m)
						add(n)
						add(new(big.Int).Neg(n))
					}
				}
				if t.Size() == 8 {
					add(big.NewInt(math.MinInt64))
				}
				c22Run(w, t, vals, intUnits[ui:ui+1])
			}
		}})
}
