package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// Overlap histories (C01, C02): every order in which up to n requests begin and end, with the
// update function replaced at every point, each request held in the middle by a callback.

// ovEvent is B (the next request begins), E (request k ends) or R (the update function is replaced).
type ovEvent struct {
	op byte
	k  int
}

func ovString(h []ovEvent) string {
	var b strings.Builder
	for _, e := range h {
		if e.op == 'E' {
			fmt.Fprintf(&b, "E%d ", e.k)
		} else {
			fmt.Fprintf(&b, "%c ", e.op)
		}
	}
	return b.String()
}

// ovHistories calls f with every history of n requests, then of fewer.
func ovHistories(n int, f func(h []ovEvent)) {
	var rec func(h []ovEvent, begun int, open []int)
	rec = func(h []ovEvent, begun int, open []int) {
		if begun == n && len(open) == 0 {
			f(h)
			return
		}
		if begun < n {
			rec(append(append([]ovEvent{}, h...), ovEvent{'B', begun}), begun+1, append(append([]int{}, open...), begun))
		}
		for i, k := range open {
			rest := append(append([]int{}, open[:i]...), open[i+1:]...)
			rec(append(append([]ovEvent{}, h...), ovEvent{'E', k}), begun, rest)
		}
	}
	rec(nil, 0, nil)
}

// ovRun executes one history and judges the responses, or the runs of the update functions.
func ovRun(w *W, h []ovEvent, n, shift int, counts bool) {
	vsched.BeginExec()
	defer vsched.EndExec()
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	defer tricorder.UnregisterPath(dir)
	desc := ""
	kinds := make([]string, n)
	for i := range kinds {
		kinds[i] = accessKinds[(shift+i*3)%len(accessKinds)]
	}
	describe := func() string { return fmt.Sprintf("%s of requests %v", ovString(h), kinds) }
	w.cur = describe
	w.Eval()
	fail := func(key, f string, a ...any) {
		w.Fail(key, "%s: %s", describe(), fmt.Sprintf(f, a...))
	}
	_ = desc
	var v1, v2, fn int64
	var runs []int64 // function of each run of the first group
	var runs2 int64
	g1, g2 := tricorder.NewGroup(), tricorder.NewGroup()
	upd := func(f int64) func() time.Time {
		return func() time.Time {
			runs = append(runs, f)
			v1++
			return stampSorts[shift%len(stampSorts)].at(v1)
		}
	}
	g1.RegisterUpdateFunc(upd(0))
	g2.RegisterUpdateFunc(func() time.Time { runs2++; v2++; return time.Unix(1300000000+v2, 0) })
	cur := 0
	entered := make([]bool, n)
	start, inside, release, done := make([]chan int, n), make([]chan int, n), make([]chan int, n), make([]chan int, n)
	for i := range start {
		start[i], inside[i], release[i], done[i] = make(chan int), make(chan int), make(chan int), make(chan int)
	}
	must(tricorder.RegisterMetricInGroup(dir+"/a", &v1, g1, units.None, ""))
	must(tricorder.RegisterMetricInGroup(dir+"/b", &v2, g2, units.None, ""))
	must(tricorder.RegisterMetricInGroup(dir+"/m", func() int64 {
		if i := cur; !entered[i] {
			entered[i] = true
			vsched.Send(inside[i], 1)
			vsched.Recv(release[i])
		}
		return v1
	}, g1, units.None, ""))
	must(tricorder.RegisterMetricInGroup(dir+"/y", &v2, g2, units.None, ""))
	must(tricorder.RegisterMetricInGroup(dir+"/z", &v1, g1, units.None, ""))
	res := make([][]obs, n)
	errs := make([]error, n)
	bodies := []func(){func() {
		var want1, want2 int64 // number of runs so far
		var open1, open2 int
		saw := make([][2]int64, n)
		for _, e := range h {
			k := e.k
			switch e.op {
			case 'R':
				fn++
				g1.RegisterUpdateFunc(upd(fn))
			case 'B':
				cur = k
				vsched.Send(start[k], 1)
				vsched.Recv(inside[k])
				if open1 == 0 {
					want1++
				}
				open1++
				if !isSingle(kinds[k]) {
					if open2 == 0 {
						want2++
					}
					open2++
				}
				saw[k] = [2]int64{want1, want2}
				if counts && (int64(len(runs)) != want1 || runs2 != want2) {
					fail("overlap-count", "after request %d began the update functions ran %d and %d times, want %d and %d", k, len(runs), runs2, want1, want2)
					want1, want2 = int64(len(runs)), runs2
				}
				if counts && len(runs) > 0 && open1 == 1 && runs[len(runs)-1] != fn {
					fail("overlap-function", "request %d ran update function %d, the current one is %d", k, runs[len(runs)-1], fn)
				}
			case 'E':
				cur = k
				vsched.Send(release[k], 1)
				vsched.Recv(done[k])
				open1--
				if !isSingle(kinds[k]) {
					open2--
				}
				if counts && (int64(len(runs)) != want1 || runs2 != want2) {
					fail("overlap-count", "after request %d ended the update functions ran %d and %d times, want %d and %d", k, len(runs), runs2, want1, want2)
					want1, want2 = int64(len(runs)), runs2
				}
				if errs[k] != nil {
					fail("overlap-error", "request %d: %v", k, errs[k])
				}
				num := map[bool]int{true: 1, false: 5}[isSingle(kinds[k])]
				if len(res[k]) != num {
					fail("overlap-missing", "request %d reports %v", k, res[k])
				}
				if counts {
					continue
				}
				for _, o := range res[k] {
					g, stamp := 0, stampSorts[shift%len(stampSorts)].at
					if c := o.Path[len(o.Path)-1]; c == 'b' || c == 'y' {
						g, stamp = 1, func(n int64) time.Time { return time.Unix(1300000000+n, 0) }
					}
					if o.Val != saw[k][g] {
						fail("overlap-mixed", "request %d reports %v, want values %v", k, res[k], saw[k])
					} else if ts := stampText(stamp(o.Val)); o.TS != "" && o.TS != ts {
						fail("overlap-timestamp", "request %d reports %v, want timestamp %s", k, o, ts)
					}
				}
			}
			w.Trans(1)
		}
	}}
	for i := 0; i < n; i++ {
		i := i
		bodies = append(bodies, func() {
			vsched.Recv(start[i])
			res[i], errs[i] = readInts(kinds[i], dir, "m")
			vsched.Send(done[i], 1)
		})
	}
	r := vsched.Run(nil, bodies...)
	for _, f := range r.Failures {
		fail("overlap-"+f.Kind, "%s", f.Msg)
	}
	w.State(fmt.Sprint(ovString(h), shift))
	w.Trace()
	w.Sample(describe())
}

// ovTask runs a part of all histories, each with the update function replaced nowhere and at every point.
func ovTask(w *W, name string, counts bool) {
	var part, parts int
	fmt.Sscanf(name, "overlap/%d/%d", &part, &parts)
	max := 5
	if w.tier == "thorough" {
		max = 7
	}
	i := 0
	for n := 1; n <= max; n++ {
		ovHistories(n, func(h []ovEvent) {
			for at := -1; at <= len(h); at++ {
				if at >= 0 && !counts {
					break
				}
				i++
				if i%parts != part {
					continue
				}
				hh := h
				if at >= 0 {
					hh = append(append(append([]ovEvent{}, h[:at]...), ovEvent{op: 'R'}), h[at:]...)
				}
				ovRun(w, hh, n, i/parts, counts)
			}
		})
	}
	if w.tier != "thorough" { // deep overlaps
		for n := 6; n <= 10; n++ {
			h := []ovEvent{}
			for k := 0; k < n; k++ {
				h = append(h, ovEvent{'B', k})
			}
			for k := 0; k < n; k++ {
				h = append(h, ovEvent{'E', (k + part) % n})
			}
			ovRun(w, h, n, part, counts)
		}
	}
}

func ovTasks() (out []string) {
	for i := 0; i < 16; i++ {
		out = append(out, fmt.Sprintf("overlap/%d/16", i))
	}
	return
}
