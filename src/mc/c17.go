package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder/duration"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

var timeUnits = []units.Unit{units.Second, units.Millisecond}

func bigNanos(s, n int64) *big.Int {
	b := new(big.Int).Mul(big.NewInt(s), big.NewInt(1e9))
	return b.Add(b, big.NewInt(n))
}

func durNanos(d duration.Duration) *big.Int { return bigNanos(d.Seconds, int64(d.Nanoseconds)) }

// c17Duration judges the library's duration for an exact number of nanoseconds.
func c17Duration(w *W, what string, d duration.Duration, ns *big.Int) {
	if durNanos(d).Cmp(ns) != 0 {
		w.Fail("convert", "%s becomes %+v", what, d)
		return
	}
	if ns.Sign() < 0 != d.IsNegative() || ns.Sign() >= 0 && (d.Seconds < 0 || d.Nanoseconds < 0) || ns.Sign() <= 0 && (d.Seconds > 0 || d.Nanoseconds > 0) ||
		d.Nanoseconds <= -1e9 || d.Nanoseconds >= 1e9 {
		w.Fail("sign", "%s becomes %+v, negative %v", what, d, d.IsNegative())
		return
	}
	if s := d.String(); s != exactDecimal(ns, units.Second) {
		w.Fail("text", "%s prints as %s", what, s)
	}
	for _, u := range moreUnits {
		s := d.StringUsingUnits(u)
		if s != exactDecimal(ns, u) {
			w.Fail("text", "%s prints in %q as %s", what, string(u), s)
		}
		back, err := duration.ParseWithUnit(s, u)
		if err != nil || back != d {
			w.Fail("parse-back", "%s printed in %q as %s parses as %+v %v", what, string(u), s, back, err)
		}
		w.Trans(2)
	}
}

func c17Go(w *W, d time.Duration) {
	w.Eval()
	w.cur = func() string { return fmt.Sprintf("duration %d ns", int64(d)) }
	x := duration.New(d)
	c17Duration(w, fmt.Sprintf("duration %d ns", int64(d)), x, big.NewInt(int64(d)))
	if x.AsGoDuration() != d {
		w.Fail("go-duration", "duration %d ns comes back as %d", int64(d), int64(x.AsGoDuration()))
	}
	for _, u := range timeUnits {
		js, k, _ := messages.AsJsonWithSubType(d, types.GoDuration, types.Unknown, u)
		if js != exactDecimal(big.NewInt(int64(d)), u) || k != types.Duration {
			w.Fail("json", "duration %d ns in %v is %v in JSON", int64(d), u, js)
		}
	}
	if d >= 0 {
		c17Pretty(w, x, big.NewInt(int64(d)))
	}
	w.State(fmt.Sprint(int64(d)))
	w.Trans(2)
	w.Trace()
	w.Sample(fmt.Sprintf("duration %d ns", int64(d)))
}

func c17Time(w *W, t time.Time) {
	w.Eval()
	what := fmt.Sprintf("time %d.%09d", t.Unix(), t.Nanosecond())
	w.cur = func() string { return what }
	ns := bigNanos(t.Unix(), int64(t.Nanosecond()))
	x := duration.SinceEpoch(t)
	c17Duration(w, what, x, ns)
	if b := x.AsGoTime(); !b.Equal(t) || b.Location() != time.Local {
		w.Fail("go-time", "%s comes back as %v", what, b)
	}
	w.State(what)
	w.Trans(1)
	w.Trace()
	w.Sample(what)
}

var prettyToken = regexp.MustCompile(`^(\d+)(?:\.(\d+))?(ns|us|μs|µs|ms|s|m|h|d)$`)

var prettyUnit = map[string]int64{"ns": 1, "us": 1e3, "μs": 1e3, "µs": 1e3, "ms": 1e6, "s": 1e9, "m": 60e9, "h": 3600e9, "d": 86400e9}

// prettyValue recomposes the human form: its value and its resolution in nanoseconds.
func prettyValue(s string) (val, res *big.Int, err error) {
	val = new(big.Int)
	var last int64
	for i, tok := range strings.Fields(s) {
		m := prettyToken.FindStringSubmatch(tok)
		if m == nil {
			return nil, nil, fmt.Errorf("part %q", tok)
		}
		n, ok := new(big.Int).SetString(m[1], 10)
		u := prettyUnit[m[3]]
		if !ok || i > 0 && u >= last {
			return nil, nil, fmt.Errorf("parts out of order")
		}
		if i > 0 && new(big.Int).Mul(n, big.NewInt(u)).Cmp(big.NewInt(last)) >= 0 {
			return nil, nil, fmt.Errorf("part %q exceeds the next larger unit", tok)
		}
		last = u
		val.Add(val, n.Mul(n, big.NewInt(u)))
		res = big.NewInt(u)
		if m[2] != "" {
			for range m[2] {
				res.Div(res, big.NewInt(10))
			}
			f, _ := strconv.ParseInt(m[2], 10, 64)
			val.Add(val, new(big.Int).Mul(big.NewInt(f), res))
		}
	}
	if res == nil || res.Sign() == 0 {
		return nil, nil, fmt.Errorf("nothing shown")
	}
	// the largest part is not more than the next unit either, except for days
	f := strings.Fields(s)[0]
	m := prettyToken.FindStringSubmatch(f)
	next := map[string]int64{"ms": 1000, "s": 60, "m": 60, "h": 24}
	if n, _ := strconv.ParseInt(m[1], 10, 64); next[m[3]] > 0 && n >= next[m[3]] {
		return nil, nil, fmt.Errorf("part %q exceeds the next larger unit", f)
	}
	return val, res, nil
}

// prettyErr judges a human form of a non-negative duration.
func prettyErr(s string, ns *big.Int) error {
	val, res, err := prettyValue(s)
	if err != nil {
		return fmt.Errorf("%q: %v", s, err)
	}
	trunc := new(big.Int).Div(ns, res)
	trunc.Mul(trunc, res)
	if trunc.Cmp(val) != 0 {
		return fmt.Errorf("%q is %v ns, the duration %v ns", s, val, ns)
	}
	// two significant digits at least
	diff := new(big.Int).Sub(ns, val)
	if diff.Mul(diff, big.NewInt(10)).Cmp(ns) > 0 {
		return fmt.Errorf("%q shows %v ns with less than two digits", s, ns)
	}
	return nil
}

func c17Pretty(w *W, x duration.Duration, ns *big.Int) {
	if err := prettyErr(x.PrettyFormat(), ns); err != nil {
		w.Fail("pretty", "%v ns is shown as %v", ns, err)
	}
	w.Trans(1)
}

var c17Number = regexp.MustCompile(`^(-?)([0-9]+)(?:\.([0-9]+))?$`)

// loosely written numbers that may be accepted, but only as the number they look like
var c17Loose = regexp.MustCompile(`^(-?)\+?([0-9]*)\.?([0-9]*)$`)

// c17Text parses a text in every time unit.
func c17Text(w *W, s string) {
	w.Eval()
	w.cur = func() string { return fmt.Sprintf("text %q", s) }
	m := c17Number.FindStringSubmatch(s)
	strict := m != nil
	if m == nil {
		m = c17Loose.FindStringSubmatch(s)
		if m != nil && m[2]+m[3] == "" {
			m = nil
		}
	}
	for _, u := range timeUnits {
		got, err := duration.ParseWithUnit(s, u)
		w.Trans(1)
		if m == nil {
			if err == nil {
				w.Fail("accepted", "malformed %q is parsed as %+v", s, got)
			}
			continue
		}
		whole, ok := new(big.Int).SetString("0"+m[2], 10)
		if !ok {
			panic(s)
		}
		if !whole.IsInt64() {
			if err == nil {
				w.Fail("overflow", "%q out of range is parsed as %+v", s, got)
			}
			continue
		}
		if err != nil {
			if strict {
				w.Fail("refused", "%q is refused: %v", s, err)
			}
			continue
		}
		// nanoseconds truncated towards zero
		frac := m[3] + strings.Repeat("0", 30)
		n, _ := new(big.Int).SetString("0"+m[2]+frac[:30], 10)
		den := new(big.Int).Exp(big.NewInt(10), big.NewInt(21), nil)
		if u == units.Millisecond {
			den.Mul(den, big.NewInt(1000))
		}
		n.Div(n, den)
		if m[1] == "-" {
			n.Neg(n)
		}
		if durNanos(got).Cmp(n) != 0 || got.Nanoseconds <= -1e9 || got.Nanoseconds >= 1e9 || got.Seconds > 0 && got.Nanoseconds < 0 || got.Seconds < 0 && got.Nanoseconds > 0 {
			w.Fail("value", "%q in %v is parsed as %+v, want %v ns", s, u, got, n)
		}
	}
	w.State(s)
	w.Trace()
	w.Sample(fmt.Sprintf("text %q", s))
}

func c17Dense(tier string) (step, parts int64) {
	if tier == "thorough" {
		return 40000000, 256
	}
	return 2000000, 64
}

func init() {
	define(&Def{ID: "C17", Rule: "every duration and time around every boundary of its decimal and human form and every duration of a dense range, converted, printed and parsed back in every unit, compared with exact integer arithmetic; every text up to a length over an alphabet of digits, signs, points and other characters, and every number of decimals from none to seventy with a foreign character at every position, parsed; the human and decimal form of durations of up to 2^63 seconds",
		Tasks: func(tier string) (out []string) {
			out = []string{"bounds", "times", "decimals"}
			_, parts := c17Dense(tier)
			for i := int64(0); i < parts; i++ {
				out = append(out, fmt.Sprintf("dense/%d", i))
			}
			for i := range c17Alphabet {
				out = append(out, fmt.Sprintf("text/%d", i))
			}
			return
		},
		Do: func(w *W, name string) {
			switch {
			case name == "bounds":
				ns := map[int64]bool{}
				for _, u := range []int64{1, 10, 100, 1000, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 10e9, 60e9, 600e9, 3600e9, 36000e9, 86400e9, 864000e9, 1e15, 1e16, 1e17, 1e18, 9e18, math.MaxInt64 - 2000000000} {
					for _, k := range []int64{1, 2, 3, 5, 7, 9, 10, 23, 24, 25, 59, 60, 61, 99, 100, 365, 999, 1000, 1001} {
						if u > math.MaxInt64/k {
							continue
						}
						for _, off := range []int64{0, 1, 2, 999, 1000, 500000, 999999, 1e6, 999e6, 999999999, 1e9, 60e9 - 1e9} {
							for _, sg := range []int64{1, -1} {
								v := u*k + sg*off
								if sg < 0 || v > 0 {
									ns[v] = true
									ns[-v] = true
								}
							}
						}
					}
				}
				for _, v := range []int64{0, math.MaxInt64, math.MinInt64, math.MinInt64 + 1} {
					ns[v] = true
				}
				for k := 0; k < 63; k++ {
					for d := int64(-1); d <= 1; d++ {
						ns[1<<k+d], ns[-(1<<k+d)] = true, true
					}
				}
				for v := range ns {
					c17Go(w, time.Duration(v))
				}
			case name == "times":
				secs := []int64{0, 1, 2, 59, 60, 999, 1000, 86399, 86400, 1e9, 1<<31 - 1, 1 << 31, 1 << 32, 1500000000, 9223372036, 9223372037, 62135596800, 253402300799, 1e12, 1e15}
				nanos := []int64{0, 1, 2, 9, 10, 99, 100, 999, 1000, 999999, 1000000, 1000001, 123456789, 499999999, 500000000, 500000001, 999000000, 999999000, 999999998, 999999999}
				for _, s := range secs {
					for _, n := range nanos {
						for _, sg := range []int64{1, -1} {
							c17Time(w, time.Unix(sg*s, n))
							c17Time(w, time.Unix(sg*s-1, n).UTC())
							c17Time(w, time.Unix(sg*s, n).In(time.FixedZone("X", -3*3600)))
						}
					}
				}
			case name == "decimals":
				for k := 0; k <= 14; k++ {
					for _, whole := range []string{"0", "1", "-0", "-1", "59", "007", "1500000000", "-1500000000", "9223372036854775807", "9223372036854775808", "-9223372036854775807", "99999999999999999999"} {
						for _, pat := range []string{"0", "9", "1", "05", "50", "123456789", "00000000000009", "99999999949999"} {
							fr := strings.Repeat(pat, 14)[:k]
							s := whole
							if k > 0 {
								s += "." + fr
							}
							c17Text(w, s)
							for p := 0; p <= len(s); p++ {
								for _, c := range []string{"x", " ", "-", "+", ".", "_", "e", "é", "\x00"} {
									c17Text(w, s[:p]+c+s[p:])
								}
							}
						}
					}
				}
			case strings.HasPrefix(name, "dense/"):
				i, _ := strconv.ParseInt(name[6:], 10, 64)
				n, parts := c17Dense(w.tier)
				// nanoseconds, microseconds, milliseconds and seconds, every one of a range
				for v := n * i / parts; v < n*(i+1)/parts; v++ {
					switch v % 4 {
					case 0:
						c17Go(w, time.Duration(v))
						c17Go(w, -time.Duration(v))
					case 1:
						c17Go(w, time.Duration(v)*time.Microsecond-time.Duration(v%3))
					case 2:
						c17Go(w, time.Duration(v)*time.Millisecond-time.Duration(v%3))
					case 3:
						c17Go(w, time.Duration(v)*time.Second-time.Duration(v%3))
					}
				}
			case strings.HasPrefix(name, "text/"):
				i, _ := strconv.Atoi(name[5:])
				depth := 6
				if w.tier == "thorough" {
					depth = 7
				}
				if i == 0 {
					c17Text(w, "")
				}
				var rec func(s string)
				rec = func(s string) {
					c17Text(w, s)
					if len(s) < depth {
						for _, c := range c17Alphabet {
							rec(s + string(c))
						}
					}
				}
				rec(string(c17Alphabet[i]))
			}
		}})
	define(&Def{ID: "C18", Rule: "every type: zero value, nil slice, derivation from every Go value and slice, size and category predicates; all values of the 8 and 16 bit types (thorough: also of the 32 bit types) and boundary values of the others to a float and back; rounding at every half around the boundaries",
		Tasks: func(tier string) (out []string) {
			out = []string{"table", "round", "time"}
			for i := range elems() {
				out = append(out, fmt.Sprintf("elem/%d", i))
			}
			parts := 0
			if tier == "thorough" {
				parts = 128
			}
			for p := 0; p < parts; p++ {
				out = append(out, fmt.Sprintf("full32/%d/%d", p, parts))
			}
			return
		},
		Do: c18Do})
}

const c17Alphabet = "019.-+xe "

// c18Row is a line of the documented kind table.
type c18Row struct {
	t     types.Type
	zero  any
	slice any
	float bool
	cat   string
	bits  int
}

var c18Table = []c18Row{
	{types.Bool, false, []bool(nil), false, "", 0},
	{types.Int8, int8(0), []int8(nil), true, "int", 8},
	{types.Int16, int16(0), []int16(nil), true, "int", 16},
	{types.Int32, int32(0), []int32(nil), true, "int", 32},
	{types.Int64, int64(0), []int64(nil), true, "int", 64},
	{types.Uint8, uint8(0), []uint8(nil), true, "uint", 8},
	{types.Uint16, uint16(0), []uint16(nil), true, "uint", 16},
	{types.Uint32, uint32(0), []uint32(nil), true, "uint", 32},
	{types.Uint64, uint64(0), []uint64(nil), true, "uint", 64},
	{types.Float32, float32(0), []float32(nil), true, "float", 32},
	{types.Float64, float64(0), []float64(nil), true, "float", 64},
	{types.String, "", []string(nil), false, "", 0},
	{types.GoTime, time.Time{}, []time.Time(nil), true, "", 0},
	{types.GoDuration, time.Duration(0), []time.Duration(nil), true, "", 0},
	{types.Time, "0.000000000", []string(nil), false, "", 0},
	{types.Duration, "0.000000000", []string(nil), false, "", 0},
	{types.Dist, nil, nil, false, "", 0},
	{types.List, nil, nil, false, "", 0},
	{types.Unknown, nil, nil, false, "", 0},
	{types.Type("bogus"), nil, nil, false, "", 0},
}

func c18Do(w *W, name string) {
	switch {
	case name == "table":
		for _, r := range c18Table {
			c18Type(w, r)
		}
		// values of foreign types
		for _, v := range []any{nil, 5, uint(5), uintptr(1), complex(1, 1), uBool(true), uStringer(1), []int{1}, []uint{1}, []any{1}, []error{}, struct{}{}, new(int64), [3]int64{},
			map[string]int{}, func() {}, []*int64{}, [][]int64{}, []uBool{}, make(chan int)} {
			w.Eval()
			k, s := types.FromGoValueWithSubType(v)
			if k != types.Unknown || s != types.Unknown || types.FromGoValue(v) != types.Unknown {
				w.Fail("foreign", "type of %T is %q %q", v, k, s)
			}
			w.Trans(2)
			w.Trace()
			w.State(fmt.Sprintf("%T", v))
		}
		for _, v := range []any{&messages.Distribution{}, &messages.Distribution{Count: 3}} {
			w.Eval()
			k, s := types.FromGoValueWithSubType(v)
			if k != types.Dist || s != types.Unknown || types.FromGoValue(v) != types.Dist {
				w.Fail("dist", "type of a distribution value is %q %q", k, s)
			}
			w.Trans(2)
			w.Trace()
			w.State("dist")
		}
	case name == "round":
		c18Round(w)
	case name == "time":
		c18Time(w)
	case strings.HasPrefix(name, "elem/"):
		i, _ := strconv.Atoi(name[5:])
		e := elems()[i]
		if e.typ != e.want {
			return
		}
		c18Elem(w, e)
	default:
		var p, n int
		fmt.Sscanf(name, "full32/%d/%d", &p, &n)
		c18Full32(w, uint64(p)<<32/uint64(n), uint64(p+1)<<32/uint64(n))
	}
}

func c18Type(w *W, r c18Row) {
	w.Eval()
	w.cur = func() string { return fmt.Sprintf("type %q", string(r.t)) }
	t := r.t
	bad := func(f string, a ...any) { w.Fail("table", "type %q: %s", string(t), fmt.Sprintf(f, a...)) }
	isJSON := t == types.Time || t == types.Duration
	check := func(what string, got any, err error, pan any, got2 any, want any, list bool) {
		if want == nil {
			if err == nil || pan == nil {
				bad("%s is %v, error %v, panic %v", what, got, err, pan)
			}
			return
		}
		if err != nil || pan != nil || reflect.TypeOf(got) != reflect.TypeOf(want) || !reflect.DeepEqual(got, want) || !reflect.DeepEqual(got2, want) || reflect.TypeOf(got2) != reflect.TypeOf(want) {
			bad("%s is %T %v (%T), error %v, panic %v", what, got, got, got2, err, pan)
			return
		}
		k, s := types.FromGoValueWithSubType(got)
		wk, ws := t, types.Unknown
		if isJSON {
			wk = types.String
		}
		if list {
			wk, ws = types.List, wk
		}
		if k != wk || s != ws || types.FromGoValue(got) != wk {
			bad("%s has type %q %q", what, k, s)
		}
	}
	var z, s any
	zp := catch(func() { z = t.ZeroValue() })
	sz, zerr := t.SafeZeroValue()
	check("zero value", sz, zerr, zp, z, r.zero, false)
	sp := catch(func() { s = t.NilSlice() })
	ss, serr := t.SafeNilSlice()
	check("nil slice", ss, serr, sp, s, r.slice, true)
	if t.IsInt() != (r.cat == "int") || t.IsUint() != (r.cat == "uint") || t.IsFloat() != (r.cat == "float") {
		bad("categories int %v uint %v float %v", t.IsInt(), t.IsUint(), t.IsFloat())
	}
	if t.Bits() != r.bits {
		bad("%d bits", t.Bits())
	}
	if t.UsesSubType() != (t == types.List) {
		bad("uses sub-type %v", t.UsesSubType())
	}
	if t != "bogus" && t.SupportsEquality() != (t != types.List && t != types.Dist && t != types.Unknown) {
		bad("supports equality %v", t.SupportsEquality())
	}
	if t.CanToFromFloat() != r.float {
		bad("supports floats: %v", t.CanToFromFloat())
	}
	p := catch(func() { t.FromFloat(1) })
	if (p == nil) != r.float {
		bad("FromFloat panics %v", p)
	}
	vals := []any{r.zero}
	if r.zero == nil {
		vals = []any{nil, 1.0, &messages.Distribution{}, []int64{1}}
	}
	for _, v := range vals {
		if p := catch(func() { t.ToFloat(v) }); (p == nil) != r.float {
			bad("ToFloat of %v panics %v", v, p)
		}
	}
	// the zero value of the messages package
	mz, err := messages.ZeroValue(t)
	if r.zero == nil && t != types.Dist && t != types.List {
		if err == nil {
			bad("messages.ZeroValue is %v", mz)
		}
	} else if r.zero != nil && (err != nil || !reflect.DeepEqual(mz, r.zero)) {
		bad("messages.ZeroValue is %v %v", mz, err)
	}
	w.State("type " + string(t))
	w.Trans(14)
	w.Trace()
	w.Sample("type " + string(t))
}

func c18Round(w *W) {
	for _, r := range c18Table {
		if r.cat != "int" && r.cat != "uint" {
			continue
		}
		lo, hi := 0.0, math.Ldexp(1, r.bits)-1
		if r.cat == "int" {
			lo, hi = -math.Ldexp(1, r.bits-1), math.Ldexp(1, r.bits-1)-1
		}
		var whole []float64
		for k := -300.0; k <= 300; k++ {
			whole = append(whole, k)
		}
		for k := 8; k <= 63; k++ {
			for d := -3.0; d <= 3; d++ {
				whole = append(whole, math.Ldexp(1, k)+d, -math.Ldexp(1, k)+d, math.Ldexp(1.5, k)+d, -math.Ldexp(1.5, k)+d, math.Ldexp(1.9375, k)+d)
			}
		}
		for _, n := range whole {
			for _, f := range []float64{0, 0.25, 0.5, 0.75, -0.25, -0.5, -0.75, 0.4999999, -0.4999999, 0.5000001, -0.5000001} {
				v := n + f
				want := math.Trunc(v)
				if math.Abs(v-want) >= 0.5 {
					want += math.Copysign(1, v)
				}
				if want < lo || want > hi || want >= math.Ldexp(1, r.bits) || v < lo-0.5 || r.bits == 64 && (want >= hi || want <= lo && lo < 0) {
					continue
				}
				w.Eval()
				w.cur = func() string { return fmt.Sprintf("%v.FromFloat(%v)", r.t, v) }
				got := r.t.FromFloat(v)
				wv := reflect.New(reflect.TypeOf(r.zero)).Elem()
				b, _ := big.NewFloat(want).Int(nil)
				if r.cat == "int" {
					wv.SetInt(b.Int64())
				} else {
					wv.SetUint(b.Uint64())
				}
				if got != wv.Interface() {
					w.Fail("round", "%v.FromFloat(%v) is %T %v, want %v", r.t, v, got, got, want)
				}
				w.State(fmt.Sprint(r.t, v))
				w.Trans(1)
				w.Trace()
				w.Sample(fmt.Sprintf("%v.FromFloat(%v)", r.t, v))
			}
		}
	}
	// durations: multiples of 1/1024 s are exact floats, odd ones lie at half a nanosecond
	for k := int64(-5000); k <= 5000; k++ {
		w.Eval()
		f := float64(k) / 1024
		w.cur = func() string { return fmt.Sprintf("goDuration.FromFloat(%v)", f) }
		want := k * 9765625 / 10 // truncated
		if k%2 != 0 {
			if k > 0 {
				want++
			} else {
				want--
			}
		}
		if got := types.GoDuration.FromFloat(f); got != time.Duration(want) {
			w.Fail("round-duration", "%v.FromFloat(%v) is %v ns, want %v ns", types.GoDuration, f, got, want)
		}
		w.State(fmt.Sprint("dur", k))
		w.Trans(1)
		w.Trace()
	}
}

func c18Time(w *W) {
	try := func(s, n int64, exact bool) {
		w.Eval()
		t := time.Unix(s, n)
		w.cur = func() string { return fmt.Sprintf("time %d.%09d", s, n) }
		f := types.GoTime.ToFloat(t)
		back, ok := types.GoTime.FromFloat(f).(time.Time)
		if !ok || f != duration.TimeToFloat(t) || !duration.FloatToTime(f).Equal(back) {
			w.Fail("time", "time %d.%09d: float %v, back %v", s, n, f, back)
			return
		}
		// the float is the number of seconds to the precision of a float
		want, _ := new(big.Float).SetPrec(200).Quo(new(big.Float).SetInt(bigNanos(s, n)), big.NewFloat(1e9)).Float64()
		if math.Abs(f-want) > 4*math.Abs(want)*0x1p-53 {
			w.Fail("time-float", "time %d.%09d becomes %v, want %v", s, n, f, want)
		}
		diff := new(big.Int).Sub(bigNanos(back.Unix(), int64(back.Nanosecond())), bigNanos(s, n))
		tol := int64(1 + math.Abs(want)*0x1p-50*1e9)
		if exact && diff.Sign() != 0 || diff.CmpAbs(big.NewInt(tol)) > 0 {
			w.Fail("time-back", "time %d.%09d becomes %v and comes back as %d.%09d", s, n, f, back.Unix(), back.Nanosecond())
		}
		d := duration.SinceEpochFloat(f)
		if durNanos(d).Cmp(bigNanos(back.Unix(), int64(back.Nanosecond()))) != 0 {
			w.Fail("since-epoch-float", "SinceEpochFloat(%v) is %+v, the time %v", f, d, back)
		}
		if math.Abs(d.AsFloat()-f) > 1.1e-9+math.Abs(f)*0x1p-50 || exact && d.AsFloat() != f {
			w.Fail("as-float", "SinceEpochFloat(%v) is %v as float", f, d.AsFloat())
		}
		w.State(fmt.Sprint(s, ".", n))
		w.Trans(4)
		w.Trace()
		w.Sample(fmt.Sprintf("time %d.%09d", s, n))
	}
	for _, s := range []int64{0, 1, 2, 59, 1000, 1e6, 1e9, 1500000000, 4e9, 253402300799, 1e12} {
		for _, sg := range []int64{1, -1} {
			for k := int64(0); k < 512; k++ {
				try(sg*s, k*1953125, true)
			}
			for _, n := range []int64{1, 3, 7, 999, 1001, 999999999, 123456789, 100000000, 300000000, 999999998} {
				try(sg*s, n, false)
			}
		}
	}
}

func c18Elem(w *W, e elem) {
	vals := boundary(e, w.tier)
	if e.bits == 8 || e.bits == 16 {
		vals = nil
		for k := 0; k < 1<<e.bits; k++ {
			vals = append(vals, reflect.ValueOf(int64(k)).Convert(e.want).Interface())
		}
	}
	switch e.kind {
	case types.Bool, types.String, types.GoTime:
		return
	case types.Int32, types.Int64, types.GoDuration, types.Uint32, types.Uint64:
		// every pattern of eight bits at every position, and its neighbours
		bits := e.bits
		if e.kind == types.GoDuration {
			bits = 64
		}
		for k := 0; k < bits; k++ {
			for m := uint64(1); m < 256; m += 2 {
				for d := uint64(0); d <= 2; d++ {
					v := m<<k + d - 1
					if e.kind == types.Uint32 || e.kind == types.Uint64 {
						if v>>k>>7>>1 == 0 && (bits == 64 || v>>bits == 0) {
							vals = append(vals, reflect.ValueOf(v).Convert(e.want).Interface())
						}
						continue
					}
					if i := int64(v); bits == 64 || i == int64(int32(i)) {
						vals = append(vals, reflect.ValueOf(i).Convert(e.want).Interface(), reflect.ValueOf(-i).Convert(e.want).Interface())
					}
				}
			}
		}
	case types.Float64:
		for k := -1074; k < 1024; k++ {
			for m := 1.0; m < 16; m += 2 {
				if v := math.Ldexp(m, k); !math.IsInf(v, 0) {
					vals = append(vals, reflect.ValueOf(v).Convert(e.want).Interface(), reflect.ValueOf(-v).Convert(e.want).Interface())
				}
			}
		}
	}
	for _, v := range vals {
		w.Eval()
		w.cur = func() string { return fmt.Sprintf("%T %v", v, v) }
		if k, s := types.FromGoValueWithSubType(v); k != e.kind || s != types.Unknown {
			w.Fail("type-of", "type of %T %v is %q %q", v, v, k, s)
		}
		f := e.kind.ToFloat(v)
		var exact bool
		switch e.kind {
		case types.GoDuration:
			d := int64(v.(time.Duration))
			want := new(big.Rat).SetFrac64(d, 1e9)
			wf, _ := want.Float64()
			if math.Abs(f-wf) > 4*math.Abs(wf)*0x1p-53 {
				w.Fail("duration-float", "%d ns becomes %v, want %v", d, f, wf)
			}
			exact = d > -1<<50 && d < 1<<50 || d%1e9 == 0 && d > -4e18 && d < 4e18
		default:
			// exactly representable: same number as a big rational
			r := new(big.Rat)
			r.SetString(fmt.Sprint(v))
			if e.kind == types.Float32 || e.kind == types.Float64 {
				r.SetFloat64(reflect.ValueOf(v).Float())
			}
			wf, ok := r.Float64()
			exact = ok
			if f != wf {
				w.Fail("to-float", "%T %v becomes %v", v, v, f)
			}
		}
		if exact {
			if back := e.kind.FromFloat(f); !sameReported(back, v) {
				w.Fail("back", "%T %v becomes %v and comes back as %T %v", v, v, f, back, back)
			}
		}
		w.State(fmt.Sprintf("%T %v", v, v))
		w.Trans(3)
		w.Trace()
		w.Sample(fmt.Sprintf("%T %v", v, v))
	}
}

func c18Full32(w *W, lo, hi uint64) {
	w.cur = func() string { return fmt.Sprintf("32 bit patterns %d to %d", lo, hi) }
	for b := lo; b < hi; b++ {
		u := uint32(b)
		if types.Uint32.FromFloat(types.Uint32.ToFloat(u)) != any(u) {
			w.Fail("full-uint32", "uint32 %d does not survive", u)
		}
		if types.Int32.FromFloat(types.Int32.ToFloat(int32(u))) != any(int32(u)) {
			w.Fail("full-int32", "int32 %d does not survive", int32(u))
		}
		f := math.Float32frombits(u)
		if f == f {
			if types.Float32.FromFloat(types.Float32.ToFloat(f)) != any(f) {
				w.Fail("full-float32", "float32 %v does not survive", f)
			}
		}
		if b&0xfffff == 0 {
			w.State(fmt.Sprint("block", b))
			w.Eval()
			w.Trace()
			w.Trans(3 << 20)
		}
	}
}
