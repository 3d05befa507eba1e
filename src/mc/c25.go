package main

import (
	"fmt"
	"math/big"
	"os"
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// answer is what the operating system and the runtime say at one moment.
type answer struct {
	ru   syscall.Rusage
	mem  runtime.MemStats
	gor  int
	name string
}

type c25Row struct {
	path string
	kind types.Type
	unit units.Unit
	// what it has to be, nil: judged elsewhere
	want func(a *answer) any
	src  string // r: resource usage, g: goroutine count, m: memory statistics
}

func tv(t syscall.Timeval) time.Duration {
	return time.Duration(t.Sec)*time.Second + time.Duration(t.Usec)*time.Microsecond
}

var c25Table = []c25Row{
	{"/proc/cpu/user", types.GoDuration, units.Second, func(a *answer) any { return tv(a.ru.Utime) }, "r"},
	{"/proc/cpu/sys", types.GoDuration, units.Second, func(a *answer) any { return tv(a.ru.Stime) }, "r"},
	{"/proc/go/num-goroutines", types.Int64, units.None, func(a *answer) any { return int64(a.gor) }, "g"},
	{"/proc/memory/max-resident-set-size", types.Int64, units.Byte, func(a *answer) any { return a.ru.Maxrss * 1024 }, "r"},
	{"/proc/memory/shared", types.Int64, units.Byte, func(a *answer) any { return a.ru.Ixrss * 1024 }, "r"},
	{"/proc/memory/unshared-data", types.Int64, units.Byte, func(a *answer) any { return a.ru.Idrss * 1024 }, "r"},
	{"/proc/memory/unshared-stack", types.Int64, units.Byte, func(a *answer) any { return a.ru.Isrss * 1024 }, "r"},
	{"/proc/memory/soft-page-fault", types.Int64, units.None, func(a *answer) any { return a.ru.Minflt }, "r"},
	{"/proc/memory/hard-page-fault", types.Int64, units.None, func(a *answer) any { return a.ru.Majflt }, "r"},
	{"/proc/memory/swaps", types.Int64, units.None, func(a *answer) any { return a.ru.Nswap }, "r"},
	{"/proc/io/input", types.Int64, units.None, func(a *answer) any { return a.ru.Inblock }, "r"},
	{"/proc/io/output", types.Int64, units.None, func(a *answer) any { return a.ru.Oublock }, "r"},
	{"/proc/ipc/sent", types.Int64, units.None, func(a *answer) any { return a.ru.Msgsnd }, "r"},
	{"/proc/ipc/received", types.Int64, units.None, func(a *answer) any { return a.ru.Msgrcv }, "r"},
	{"/proc/signals/received", types.Int64, units.None, func(a *answer) any { return a.ru.Nsignals }, "r"},
	{"/proc/scheduler/involuntary-switches", types.Int64, units.None, func(a *answer) any { return a.ru.Nivcsw }, "r"},
	{"/proc/scheduler/voluntary-switches", types.Int64, units.None, func(a *answer) any { return a.ru.Nvcsw }, "r"},
	{"/proc/memory/total", types.Uint64, units.Byte, func(a *answer) any { return a.mem.Sys - a.mem.HeapReleased }, "m"},
	{"/proc/go/version", types.String, units.None, func(*answer) any { return runtime.Version() }, ""},
	{"/proc/name", types.String, units.None, func(*answer) any { return os.Args[0] }, ""},
	{"/proc/args", types.String, units.None, func(*answer) any { return strings.Join(os.Args[1:], "|") }, ""},
	{"/proc/start-time", types.GoTime, units.None, nil, ""},
}

// world answers for the operating system.
type world struct {
	a     []answer // answers in turn; the last one stays
	calls map[string]int
}

func (v *world) install() func() {
	v.calls = map[string]int{}
	next := func(k string) *answer {
		n := v.calls[k]
		v.calls[k]++
		if n >= len(v.a) {
			n = len(v.a) - 1
		}
		return &v.a[n]
	}
	vsched.GetrusageHook = func(who int, r *syscall.Rusage) error {
		if who != syscall.RUSAGE_SELF {
			// not the usage of the process
			*r = syscall.Rusage{}
			reflect.ValueOf(r).Elem().FieldByName("Nswap").SetInt(-999)
			v.calls["other"]++
			return nil
		}
		*r = next("r").ru
		return nil
	}
	vsched.ReadMemStatsHook = func(m *runtime.MemStats) { *m = next("m").mem }
	vsched.NumGoroutineHook = func() int { return next("g").gor }
	return func() {
		vsched.GetrusageHook, vsched.ReadMemStatsHook, vsched.NumGoroutineHook = nil, nil, nil
	}
}

// c25Answer is the k-th answer: all fields differ from each other and from those of other answers.
func c25Answer(k int64) answer {
	var a answer
	a.name = fmt.Sprintf("answer %d", k)
	f := reflect.ValueOf(&a.ru).Elem()
	for i := 0; i < f.NumField(); i++ {
		v := f.Field(i)
		if v.Kind() == reflect.Struct {
			v.FieldByName("Sec").SetInt(k*100 + int64(i) + 1)
			v.FieldByName("Usec").SetInt(k*1000 + int64(i) + 3)
		} else {
			v.SetInt(k*1000 + int64(i)*17 + 5)
		}
	}
	a.mem.Sys = uint64(k*100000 + 70000)
	a.mem.HeapReleased = uint64(k*10 + 12345)
	a.mem.Alloc, a.mem.TotalAlloc, a.mem.HeapAlloc, a.mem.HeapSys, a.mem.HeapIdle, a.mem.HeapInuse = 11, 22, 33, 44, 55, 66
	a.mem.StackSys, a.mem.StackInuse, a.mem.OtherSys, a.mem.GCSys, a.mem.Mallocs, a.mem.Frees = 77, 88, 99, 111, 222, 333
	a.gor = int(k*7 + 3)
	return a
}

func c25Judge(r c25Row, m *messages.Metric, a *answer) error {
	if m == nil {
		return fmt.Errorf("%s is not reported", r.path)
	}
	if m.Kind != r.kind || m.Unit != r.unit || m.Description == "" {
		return fmt.Errorf("%s is %v in %v described as %q", r.path, m.Kind, m.Unit, m.Description)
	}
	if r.want == nil {
		t, ok := m.Value.(time.Time)
		if !ok || t.After(time.Now()) || t.Before(time.Now().Add(-24*time.Hour)) && t.Unix() < 1400000000 {
			return fmt.Errorf("%s is %v", r.path, m.Value)
		}
		return nil
	}
	if want := r.want(a); !sameReported(m.Value, want) {
		return fmt.Errorf("%s is %v, want %v", r.path, m.Value, want)
	}
	return nil
}

// c25Read lists /proc through an access path.
func c25Read(kind, path string) (map[string]*messages.Metric, error) {
	out := map[string]*messages.Metric{}
	switch kind {
	case "inproc":
		for _, m := range tricorder.ReadMyMetrics(path) {
			out[m.Path] = m
		}
	case "rpc":
		l, err := rpcList(path)
		if err != nil {
			return nil, err
		}
		for _, m := range l {
			out[m.Path] = m
		}
	case "rpc1":
		m, err := rpcGet(path)
		if err != nil {
			return nil, err
		}
		out[m.Path] = m
	case "json", "json1":
		var l []*jm
		var err error
		if kind == "json" {
			l, err = jsonList(path)
		} else {
			var m *jm
			m, err = jsonOne(path)
			l = []*jm{m}
		}
		if err != nil {
			return nil, err
		}
		for _, j := range l {
			m := &messages.Metric{Path: j.Path, Description: j.Description, Unit: units.Unit(j.Unit), Kind: types.Type(j.Kind)}
			switch m.Kind {
			case types.Int64:
				var v int64
				_, err = fmt.Sscan(string(j.Value), &v)
				m.Value = v
			case types.Uint64:
				var v uint64
				_, err = fmt.Sscan(string(j.Value), &v)
				m.Value = v
			case types.Duration:
				n, ok := new(big.Int).SetString(strings.Replace(strings.Trim(string(j.Value), `"`), ".", "", 1), 10)
				if !ok {
					err = fmt.Errorf("duration %s", j.Value)
				} else {
					m.Value, m.Kind = time.Duration(n.Int64()), types.GoDuration
				}
			default:
				continue
			}
			if err != nil {
				return nil, err
			}
			out[m.Path] = m
		}
	}
	return out, nil
}

func c25Values(w *W) {
	// every field on its own, and extremes
	var worlds []answer
	base := c25Answer(1)
	worlds = append(worlds, base)
	f := reflect.TypeOf(base.ru)
	for i := 0; i < f.NumField(); i++ {
		vals := []int64{0, 1, 2, 1023, 1024, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 40, 1<<53 - 1}
		if f.Field(i).Type.Kind() == reflect.Struct {
			for _, s := range []int64{0, 1, 59, 60, 1 << 20, 1 << 31} {
				for _, us := range []int64{0, 1, 9, 10, 999, 1000, 500000, 999999} {
					a := base
					v := reflect.ValueOf(&a.ru).Elem().Field(i)
					v.FieldByName("Sec").SetInt(s)
					v.FieldByName("Usec").SetInt(us)
					worlds = append(worlds, a)
				}
			}
			continue
		}
		for _, x := range vals {
			a := base
			reflect.ValueOf(&a.ru).Elem().Field(i).SetInt(x)
			worlds = append(worlds, a)
		}
	}
	for _, g := range []int{1, 2, 1000000} {
		a := base
		a.gor = g
		worlds = append(worlds, a)
	}
	for _, s := range []uint64{0, 1, 4096, 1 << 32, 1 << 62} {
		for _, h := range []uint64{0, 1, 4096, 1 << 31} {
			if h <= s {
				a := base
				a.mem.Sys, a.mem.HeapReleased = s, h
				worlds = append(worlds, a)
			}
		}
	}
	for i := range worlds {
		for _, kind := range []string{"inproc", "rpc", "json"} {
			w.Eval()
			v := &world{a: []answer{worlds[i]}}
			w.cur = func() string { return fmt.Sprintf("%s: %+v", kind, worlds[i].ru) }
			done := v.install()
			got, err := c25Read(kind, "/proc")
			done()
			if err != nil {
				w.Fail("read", "%v", err)
				continue
			}
			c25Present(w, kind, got, v, &worlds[i])
			w.Trans(len(got))
			w.State(fmt.Sprint(i))
			w.Trace()
			w.Sample(fmt.Sprintf("%+v", worlds[i].ru))
		}
	}
}

func c25Present(w *W, kind string, got map[string]*messages.Metric, v *world, a *answer) {
	if v.calls["other"] > 0 && v.calls["r"] == 0 {
		w.Fail("who", "%s: the resource usage asked for is not that of the process", kind)
		return
	}
	for _, r := range c25Table {
		if r.src != "" && v.calls[r.src] == 0 {
			continue // asked in a way the harness does not see: nothing known about the answer
		}
		if kind == "json" && (r.kind == types.String || r.kind == types.GoTime) {
			continue
		}
		if err := c25Judge(r, got[r.path], a); err != nil {
			w.Fail("value", "%s, answer %+v %d-%d %d: %v", kind, a.ru, a.mem.Sys, a.mem.HeapReleased, a.gor, err)
		}
	}
}

// c25Fresh asks again and again: every request has to report a new answer, consistently.
func c25Fresh(w *W) {
	var as []answer
	for k := int64(1); k <= 60; k++ {
		as = append(as, c25Answer(k))
	}
	for _, kind := range []string{"inproc", "rpc", "json", "rpc1", "json1"} {
		paths := []string{"/proc", "/proc", "/", "/proc"}
		if strings.HasSuffix(kind, "1") {
			paths = nil
			for _, r := range c25Table {
				if r.src != "" {
					paths = append(paths, r.path, r.path)
				}
			}
		} else {
			for _, r := range c25Table {
				if r.src != "" {
					paths = append(paths, r.path[:strings.LastIndex(r.path, "/")], r.path)
				}
			}
		}
		v := &world{a: as}
		done := v.install()
		for i, p := range paths {
			w.Eval()
			w.cur = func() string { return fmt.Sprintf("request %d: %s %s", i, kind, p) }
			before := map[string]int{"r": v.calls["r"], "g": v.calls["g"], "m": v.calls["m"]}
			got, err := c25Read(kind, p)
			if err != nil {
				w.Fail("read", "%s %s: %v", kind, p, err)
				continue
			}
			n := 0
			for _, r := range c25Table {
				m, ok := got[r.path]
				if !ok || r.src == "" || v.calls[r.src] == 0 {
					continue
				}
				n++
				if v.calls[r.src] == before[r.src] {
					w.Fail("stale", "request %d, %s %s: reports %s = %v without asking again", i, kind, p, r.path, m.Value)
					continue
				}
				if v.calls[r.src]-1 >= len(as) {
					continue
				}
				if err := c25Judge(r, m, &as[v.calls[r.src]-1]); err != nil {
					w.Fail("fresh", "request %d, %s %s: %v", i, kind, p, err)
				}
			}
			if n == 0 && v.calls["r"] > 0 && p == "/proc" {
				w.Fail("missing", "request %d, %s %s reports no default metric", i, kind, p)
			}
			w.Trans(1)
			w.State(fmt.Sprint(kind, p, i))
			w.Trace()
		}
		done()
	}
	// open files
	count := func() (int64, bool) {
		for _, m := range tricorder.ReadMyMetrics("/proc/io/num-open-file-descriptors") {
			n, ok := m.Value.(int64)
			return n, ok && m.Unit == units.None
		}
		return 0, false
	}
	if d, err := os.Open("/proc/self/fd"); err == nil {
		d.Close()
		okay := false
		var n0, n1, n2 int64
		var ok0 bool
		for more := 0; more <= 300; more++ {
			if more > 40 && more != 63 && more != 64 && more != 65 && more%50 != 0 && more != 128 && more != 256 {
				continue
			}
			okay = false
			for try := 0; try < 5 && !okay; try++ {
				w.Eval()
				n0, ok0 = count()
				var fs []*os.File
				for i := 0; i < more; i++ {
					f, err := os.Open("/dev/null")
					must(err)
					fs = append(fs, f)
				}
				n1, _ = count()
				for _, f := range fs {
					f.Close()
				}
				n2, _ = count()
				okay = ok0 && n0 >= 3 && n1 == n0+int64(more) && n2 == n0
				w.Trans(3)
				w.Trace()
			}
			if !okay {
				w.Fail("fds", "open file descriptors: %d, with %d more files %d, closed again %d", n0, more, n1, n2)
			}
		}
		w.State("fds")
	}
}

func c25Scen(bound int, kinds ...string) Scen {
	return Scen{Name: fmt.Sprint("listing by ", kinds), Bound: bound, FreeCost: bound < unbounded, Build: func(x *Exec) ([]func(), func()) {
		var as []answer
		for k := int64(1); k <= 8; k++ {
			as = append(as, c25Answer(k))
		}
		v := &world{a: as}
		done := v.install()
		x.Cleanup(done)
		res := make([]map[string]*messages.Metric, len(kinds))
		errs := make([]error, len(kinds))
		var bodies []func()
		for i, k := range kinds {
			i, k := i, k
			bodies = append(bodies, func() { res[i], errs[i] = c25Read(k, "/proc") })
		}
		return bodies, func() {
			for i := range kinds {
				if errs[i] != nil {
					x.Failf("read", "%v", errs[i])
					continue
				}
				for _, src := range []string{"r", "m"} {
					if v.calls[src] == 0 {
						continue
					}
					var best error
					ok := false
					for k := range as {
						var err error
						for _, r := range c25Table {
							if r.src == src && err == nil {
								err = c25Judge(r, res[i][r.path], &as[k])
							}
						}
						if err == nil {
							ok = true
							x.Outcome("%d:%s%d ", i, src, k)
						} else if best == nil {
							best = err
						}
					}
					if !ok {
						x.Failf("mixed", "the %s response matches no single answer: %v", kinds[i], best)
					}
				}
			}
		}
	}}
}

func init() {
	define(&Def{ID: "C25", Inst: true,
		Scens: func(tier string) []Scen {
			b := 2
			if tier == "thorough" {
				b = 4
			}
			return []Scen{c25Scen(b, "inproc", "rpc"), c25Scen(b, "json", "inproc"), c25Scen(b-1, "inproc", "json", "rpc")}
		},
		Tasks: func(string) []string { return []string{"values", "fresh"} },
		Do: func(w *W, name string) {
			vsched.BeginExec()
			if name == "values" {
				c25Values(w)
			} else {
				c25Fresh(w)
			}
		},
		Rule: "the answers of getrusage, ReadMemStats and NumGoroutine are decided by the harness: every field over boundary values, all fields pairwise different; sequences of requests with a new answer each time; up to 300 more open files; all schedules up to the bound of two and three concurrent listings, each of which has to match one single answer"})
}
