package main

import (
	"errors"
	"flag"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// idxFlag is a flag of a type the flag package does not know. Set takes the index of a value.
type idxFlag struct {
	vals []any
	cur  int
}

func (f *idxFlag) String() string {
	if f == nil {
		return ""
	}
	return fmt.Sprintf("value #%d", f.cur)
}

func (f *idxFlag) Set(s string) (err error) {
	n, err := strconv.Atoi(s)
	if err != nil || n >= len(f.vals) {
		return errors.New("bad value")
	}
	f.cur = n
	return nil
}

// getFlag also offers a typed value.
type getFlag struct{ idxFlag }

func (f *getFlag) Get() any { return f.vals[f.cur] }

// likeFlag is a flag without a typed value whose string form is whatever was set.
type likeFlag string

func (f *likeFlag) String() string     { return string(*f) }
func (f *likeFlag) Set(s string) error { *f = likeFlag(s); return nil }

// fkind is a kind of flag.
type fkind struct {
	name   string
	define func(fs *flag.FlagSet, name, usage string)
	set    []string // arguments to set
	want   []any    // want[0] is the default, want[i+1] the value after set[i]; nil: the string form
}

func fkinds() []fkind {
	std := []fkind{
		{"bool", func(fs *flag.FlagSet, n, u string) { fs.Bool(n, true, u) }, []string{"false", "true"}, []any{true, false, true}},
		{"int", func(fs *flag.FlagSet, n, u string) { fs.Int(n, 5, u) }, []string{"-7", "0"}, []any{int64(5), int64(-7), int64(0)}},
		{"int64", func(fs *flag.FlagSet, n, u string) { fs.Int64(n, 1<<53+1, u) }, []string{"-9223372036854775808", "3"}, []any{int64(1<<53 + 1), int64(-1 << 63), int64(3)}},
		{"uint", func(fs *flag.FlagSet, n, u string) { fs.Uint(n, 5, u) }, []string{"18446744073709551615", "0"}, []any{uint64(5), ^uint64(0), uint64(0)}},
		{"uint64", func(fs *flag.FlagSet, n, u string) { fs.Uint64(n, 5, u) }, []string{"18446744073709551615", "0"}, []any{uint64(5), ^uint64(0), uint64(0)}},
		{"float64", func(fs *flag.FlagSet, n, u string) { fs.Float64(n, 0.1, u) }, []string{"-1e21", "2"}, []any{0.1, -1e21, 2.0}},
		{"string", func(fs *flag.FlagSet, n, u string) { fs.String(n, "x <y> \"z\"", u) }, []string{"", "other | é"}, []any{"x <y> \"z\"", "", "other | é"}},
		{"duration", func(fs *flag.FlagSet, n, u string) { fs.Duration(n, 1500*time.Millisecond, u) }, []string{"-1h0m0.000000001s", "0"},
			[]any{1500 * time.Millisecond, -time.Hour - 1, time.Duration(0)}},
		{"text-time", func(fs *flag.FlagSet, n, u string) { t := time.Unix(1e9, 5).UTC(); fs.TextVar(&t, n, t, u) }, []string{"2020-01-02T03:04:05.000000006Z", "1969-12-31T23:59:59.5Z"},
			[]any{time.Unix(1e9, 5), time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC), time.Unix(-1, 500000000)}},
		{"text-bigint", func(fs *flag.FlagSet, n, u string) { fs.TextVar(new(big.Int), n, big.NewInt(5), u) }, []string{"123456789012345678901234567890", "-1"}, nil},
		{"func", func(fs *flag.FlagSet, n, u string) { fs.Func(n, u, func(string) error { return nil }) }, []string{"x", "y"}, nil},
		{"boolfunc", func(fs *flag.FlagSet, n, u string) { fs.BoolFunc(n, u, func(string) error { return nil }) }, []string{"true", "false"}, nil},
		{"no-getter", func(fs *flag.FlagSet, n, u string) { fs.Var(&idxFlag{vals: []any{1, 2, 3}}, n, u) }, []string{"1", "2"}, nil},
	}
	// defaults which are the zero value, and then values which are not
	std = append(std,
		fkind{"bool-zero", func(fs *flag.FlagSet, n, u string) { fs.Bool(n, false, u) }, []string{"true", "false"}, []any{false, true, false}},
		fkind{"int-zero", func(fs *flag.FlagSet, n, u string) { fs.Int(n, 0, u) }, []string{"9223372036854775807", "-1"}, []any{int64(0), int64(1<<63 - 1), int64(-1)}},
		fkind{"uint-zero", func(fs *flag.FlagSet, n, u string) { fs.Uint(n, 0, u) }, []string{"1", "9223372036854775808"}, []any{uint64(0), uint64(1), uint64(1 << 63)}},
		fkind{"float64-zero", func(fs *flag.FlagSet, n, u string) { fs.Float64(n, 0, u) }, []string{"1e-300", "-0.5"}, []any{0.0, 1e-300, -0.5}},
		fkind{"string-zero", func(fs *flag.FlagSet, n, u string) { fs.String(n, "", u) }, []string{"x", " "}, []any{"", "x", " "}},
		fkind{"duration-zero", func(fs *flag.FlagSet, n, u string) { fs.Duration(n, 0, u) }, []string{"1ns", "2562047h47m16.854775807s"},
			[]any{time.Duration(0), time.Duration(1), time.Duration(1<<63 - 1)}},
		fkind{"duration-negative", func(fs *flag.FlagSet, n, u string) { fs.Duration(n, -1, u) }, []string{"1s", "-2562047h47m16.854775808s"},
			[]any{time.Duration(-1), time.Second, time.Duration(-1 << 63)}},
		fkind{"text-time-zero", func(fs *flag.FlagSet, n, u string) { var t time.Time; fs.TextVar(&t, n, t, u) }, []string{"1970-01-01T00:00:00Z", "2262-01-01T00:00:00Z"},
			[]any{time.Time{}, time.Unix(0, 0), time.Date(2262, 1, 1, 0, 0, 0, 0, time.UTC)}})
	// strings that look like something else stay strings
	for i, looks := range [][3]string{{"5s", "1h", "3"}, {"true", "false", "0"}, {"17", "1e9", "-1"}, {"1.5ms", "now", "2020-01-02T03:04:05Z"}, {"", "5s", "true"}} {
		looks := looks
		std = append(std, fkind{fmt.Sprintf("string-like-%d", i), func(fs *flag.FlagSet, n, u string) { fs.String(n, looks[0], u) }, looks[1:], []any{looks[0], looks[1], looks[2]}},
			fkind{fmt.Sprintf("no-getter-like-%d", i), func(fs *flag.FlagSet, n, u string) { f := likeFlag(looks[0]); fs.Var(&f, n, u) }, looks[1:], nil})
	}
	for _, e := range elems() {
		e := e
		v := func(i int) any { return reflect.ValueOf(e.vals[i]).Convert(e.typ).Interface() }
		std = append(std, fkind{"getter-" + e.typ.String(), func(fs *flag.FlagSet, n, u string) { fs.Var(&getFlag{idxFlag{vals: []any{v(0), v(1), v(2)}}}, n, u) },
			[]string{"1", "2"}, []any{e.vals[0], e.vals[1], e.vals[2]}})
	}
	one, t0, t1 := 1, time.Unix(5, 6), time.Unix(7, 8)
	unknown := map[string][3]any{"slice": {[]string{"a"}, []string{}, []string(nil)}, "nil": {nil, nil, nil}, "nil-first": {nil, "x", nil}, "pointer": {&one, &one, (*int)(nil)},
		"struct": {struct{}{}, struct{}{}, struct{}{}}, "error": {errors.New("x"), errors.New("y"), errors.New("z")}, "map": {map[string]int{}, map[string]int(nil), map[string]int{"a": 1}},
		"func-value": {func() {}, func() {}, func() {}}, "complex": {complex(1, 1), complex(2, 2), complex(0, 0)}}
	var names []string
	for name := range unknown {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		vals := unknown[name]
		std = append(std, fkind{"getter-unknown-" + name, func(fs *flag.FlagSet, n, u string) { fs.Var(&getFlag{idxFlag{vals: vals[:]}}, n, u) }, []string{"1", "2"}, nil})
	}
	std = append(std, fkind{"getter-time-pointer", func(fs *flag.FlagSet, n, u string) {
		fs.Var(&getFlag{idxFlag{vals: []any{&t0, (*time.Time)(nil), &t1}}}, n, u)
	}, []string{"1", "2"}, []any{t0, time.Time{}, t1}})
	return std
}

// aflag is a flag in use.
type aflag struct {
	k    fkind
	name string
	unit units.Unit
	cur  int
}

func (f *aflag) expect(fs *flag.FlagSet) any {
	if f.k.want == nil {
		return fs.Lookup(f.name).Value.String()
	}
	return f.k.want[f.cur]
}

// c24Check reads all flags through every access path.
func c24Check(w *W, fs *flag.FlagSet, flags []*aflag, desc string) {
	const dir = "/proc/flags"
	l, err := rpcList(dir)
	if err != nil {
		w.Fail("rpc", "%s: RPC listing fails: %v", desc, err)
		return
	}
	js, err := jsonList(dir)
	if err != nil {
		w.Fail("json", "%s: JSON listing fails: %v", desc, err)
		return
	}
	mine := tricorder.ReadMyMetrics(dir)
	if len(l) != len(flags) || len(js) != len(flags) || len(mine) != len(flags) {
		w.Fail("count", "%s: %d flags, %d in RPC, %d in JSON, %d in process", desc, len(flags), len(l), len(js), len(mine))
		return
	}
	page := fetch(htmlURL(dir))
	_, text := tokenize(string(page.Body))
	text = fold(text)
	if page.Code != 200 || page.Panic != "" || strings.Contains(text, "Error in template") {
		w.Fail("html", "%s: page answers %d %s", desc, page.Code, page.Panic)
	}
	lines := map[string]string{}
	tr := fetch(textURL(dir))
	for _, line := range strings.Split(string(tr.Body), "\n") {
		if p, v, ok := strings.Cut(line, " "); ok {
			lines[p] = v
		}
	}
	if len(flags) == 1 { // the value may span lines
		p := dir + "/" + flags[0].name
		if v, ok := strings.CutPrefix(string(tr.Body), p+" "); ok {
			lines[p] = strings.TrimSuffix(v, "\n")
		}
	}
	w.Trans(5)
	for _, f := range flags {
		path := dir + "/" + f.name
		want := f.expect(fs)
		usage := fs.Lookup(f.name).Usage
		unit := f.unit
		if unit == "" {
			unit = units.None
			if _, ok := want.(time.Duration); ok {
				unit = units.Second
			}
		}
		kind := types.FromGoValue(want)
		bits := kind.Bits()
		bad := func(key, format string, a ...any) {
			w.Fail(key, "%s: flag %s (%s): %s", desc, f.name, f.k.name, fmt.Sprintf(format, a...))
		}
		found := false
		for _, ml := range [][]int{{0}, {1}} {
			list := l
			if ml[0] == 1 {
				list = mine
			}
			for _, m := range list {
				if m.Path != path {
					continue
				}
				found = true
				if m.Description != usage || m.Unit != unit || m.Kind != kind || m.Bits != bits || !sameReported(m.Value, want) {
					bad("reported", "reported as %+v, want %v %T %v, unit %q, description %q", m, kind, want, want, string(unit), usage)
				}
			}
		}
		if !found {
			bad("missing", "not reported")
			continue
		}
		for _, m := range js {
			if m.Path == path {
				if err := denotes(m.Value, want, unit); err != nil || m.Kind != string(jsonKindOf(kind)) || m.Unit != string(unit) || m.Description != usage {
					bad("json", "JSON is %+v, %v", m, err)
				}
			}
		}
		if err := textDenotes(lines[path], want, unit); err != nil {
			bad("text", "%v", err)
		}
		text := text
		if strings.Contains(f.name, "/") {
			_, text = tokenize(string(fetch(htmlURL(path)).Body))
			text = fold(text)
		}
		if !strings.Contains(text, fold(path)) || !strings.Contains(text, fold(usage)) {
			bad("html", "not on the page")
		}
	}
}

// c24Case registers the flags and sets them in turn.
func c24Case(w *W, ks []fkind, us []units.Unit, late bool, nested string) {
	w.Eval()
	var names []string
	for i, k := range ks {
		names = append(names, fmt.Sprintf("%s/%s", k.name, us[i]))
	}
	desc := strings.Join(names, " ")
	if late {
		desc += ", last one defined after a first registration"
	}
	w.cur = func() string { return desc }
	old := flag.CommandLine
	fs := flag.NewFlagSet("test", flag.ContinueOnError)
	flag.CommandLine = fs
	tricorder.UnregisterPath("/proc/flags")
	defer func() {
		flag.CommandLine = old
		tricorder.UnregisterPath("/proc/flags")
	}()
	var flags []*aflag
	for i, k := range ks {
		execCount++
		f := &aflag{k: k, name: fmt.Sprintf("%sf%d", nested, execCount), unit: us[i]}
		if late && i == len(ks)-1 {
			if p := catch(tricorder.RegisterFlags); p != nil {
				w.Fail("panic", "%s: registration panics: %v", desc, p)
				return
			}
			c24Check(w, fs, flags, desc+" (first registration)")
		}
		if us[i] != "" {
			tricorder.SetFlagUnit(f.name, us[i])
		}
		k.define(fs, f.name, fmt.Sprintf("usage of %s <%d>", f.name, i))
		flags = append(flags, f)
	}
	if p := catch(tricorder.RegisterFlags); p != nil {
		w.Fail("panic", "%s: registration panics: %v", desc, p)
		return
	}
	check := func(d string) {
		if p := catch(func() { c24Check(w, fs, flags, d) }); p != nil {
			w.Fail("panic", "%s: listing panics: %v", d, p)
		}
	}
	check(desc)
	for round := 0; round < 2; round++ {
		for _, f := range flags {
			must(fs.Set(f.name, f.k.set[round]))
			f.cur = round + 1
			check(fmt.Sprintf("%s after setting %s to %q", desc, f.k.name, f.k.set[round]))
		}
	}
	w.State(desc)
	w.Trace()
	w.Sample(desc)
}

func init() {
	define(&Def{ID: "C24", Rule: "every pair (thorough: triple) of kinds of flags - those of the flag package, text and function flags, and user defined flags with and without a typed value of every supported and unsupported type - x units, registered at once or in two steps, set again and again; all access paths compared with the flags' values; up to 514 flags at once, long and nested names, every pair of usual names, repeated registration, and odd strings as usage, value, name and unit",
		Tasks: func(tier string) (out []string) {
			for i := range fkinds() {
				out = append(out, fmt.Sprintf("kind/%d", i))
			}
			return
		},
		Do: func(w *W, name string) {
			if devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
				defer devnull.Close()
			}
			i, _ := strconv.Atoi(name[5:])
			ks := fkinds()
			us := []units.Unit{"", units.None, units.Second, units.Millisecond, units.Celsius, units.Byte, "widgets"}
			for _, u := range us {
				c24Case(w, []fkind{ks[i]}, []units.Unit{u}, false, "")
				c24Case(w, []fkind{ks[i]}, []units.Unit{u}, false, "sub/dir.")
				for j, k := range ks {
					c24Case(w, []fkind{ks[i], k}, []units.Unit{u, us[(i+j)%len(us)]}, j%2 == 0, "")
				}
			}
			if w.tier == "thorough" {
				for j := range ks {
					for m := range ks {
						c24Case(w, []fkind{ks[i], ks[j], ks[m]}, []units.Unit{"", us[(i+j)%len(us)], ""}, (i+j+m)%3 == 0, "")
					}
				}
			}
		}})
}
