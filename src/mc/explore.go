package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"vsched"
)

var busy atomic.Bool

const maxEvalsPerTask = 200000
const maxEvalsWhole = 30000

// Scen is a concurrent scenario whose schedules are enumerated.
// unbounded explores every schedule.
const unbounded = 120

type Scen struct {
	Name  string
	Bound int // deviations (preemptions, and with FreeCost also other non default choices)
	// FreeCost counts non default choices at blocking points as deviations, too (delay bounding).
	FreeCost bool
	Desc     bool // iterate maps in descending order
	NoRace   bool
	Fresh    bool // its first execution is the first of a process
	Build    func(x *Exec) (bodies []func(), check func())
}

// Exec is one execution of a scenario.
type Exec struct {
	N       int
	Dir     string // private directory of this execution, e.g. "/x12"
	fails   []string
	keys    []string
	log     []string
	outcome string
	cleanup []func()
	verbose bool
	timed   bool // the order of requests matters to the oracle
	// AllowDeadlock lets the scenario's own check judge blocked threads.
	res vsched.Result
}

func (x *Exec) Failf(key, f string, a ...any) {
	if len(x.fails) < 5 {
		x.fails = append(x.fails, fmt.Sprintf(f, a...))
		x.keys = append(x.keys, key)
	}
}

func (x *Exec) Log(f string, a ...any) {
	if x.verbose && len(x.log) < 400 {
		x.log = append(x.log, fmt.Sprintf("%d %s ", vsched.Stamp(), vsched.Self())+fmt.Sprintf(f, a...))
	}
}

// Outcome describes the result of the execution, to count distinct ones.
func (x *Exec) Outcome(f string, a ...any) { x.outcome += fmt.Sprintf(f, a...) }
func (x *Exec) Cleanup(f func())           { x.cleanup = append(x.cleanup, f) }

type explorer struct{}

func (x *Exec) clock() int64 {
	if x.timed {
		return vsched.Tick()
	}
	return vsched.Stamp()
}

var execCount int

// keepThreads leaves background threads of an execution alone.
var keepThreads bool

func runOnce(sc Scen, prefix []int, verbose bool) (*Exec, vsched.Result) {
	execCount++
	x := &Exec{N: execCount, verbose: verbose, Dir: fmt.Sprintf("/x%d", execCount)}
	vsched.MapDescending = sc.Desc
	vsched.RaceDetect = !sc.NoRace
	var res vsched.Result
	func() {
		defer func() {
			if r := recover(); r != nil {
				x.Failf("panic", "panic in set up: %v\n%s", r, debug.Stack())
			}
		}()
		vsched.BeginExec()
		bodies, check := sc.Build(x)
		res = vsched.Run(prefix, bodies...)
		x.res = res
		blocked := false
		for _, f := range res.Failures {
			x.Failf(f.Kind, "%s: %s", f.Kind, f.Msg)
			if f.Kind == "deadlock" {
				blocked = true
			}
		}
		if !blocked && !res.Capped && check != nil {
			check()
		}
		for i := len(x.cleanup) - 1; i >= 0; i-- {
			x.cleanup[i]()
		}
		if len(x.fails) == 0 && !keepThreads {
			vsched.EndExec()
		}
	}()
	return x, res
}

func costly(p vsched.Point, sc *Scen) bool { return p.Costly || sc.FreeCost }

// exploreTask enumerates all schedules below the task's prefixes within its bound, handing back
// what is left after a time slice.
func exploreTask(sc Scen, t Task) *Out {
	o := &Out{}
	outcomes := map[string]bool{}
	keepThreads = t.Whole || t.Keep
	stack := make([][]byte, len(t.Prefixes))
	copy(stack, t.Prefixes)
	viols := map[string]bool{}
	seen := map[uint64]int8{} // states already expanded, with the budget that was left plus one
	for len(stack) > 0 {
		if o.Evals > maxEvalsPerTask && !t.Only || keepThreads && o.Evals > maxEvalsWhole {
			break
		}
		if t.Deadline > 0 && o.Evals%64 == 0 && time.Now().Unix() > t.Deadline {
			o.Cut = true
			break
		}
		p := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		prefix := make([]int, len(p))
		for i, c := range p {
			prefix[i] = int(c)
		}
		x, res := runOnce(sc, prefix, t.Only)
		o.Evals++
		o.Traces++
		o.Trans += int64(res.Steps)
		if res.Capped {
			o.Capped++
		}
		if res.Diverged != "" {
			o.Diverged++
			if o.Note == "" {
				o.Note = "diverged: " + sc.Name + ": " + res.Diverged
			}
			continue
		}
		if x.outcome != "" {
			outcomes[x.outcome] = true
		}
		if len(x.fails) > 0 {
			key := sc.Name + "/" + x.keys[0]
			if !viols[key] {
				viols[key] = true
				full := make([]byte, len(res.Trace))
				for i, q := range res.Trace {
					full[i] = byte(q.Chosen)
				}
				// drop trailing defaults
				for len(full) > 0 && full[len(full)-1] == 0 {
					full = full[:len(full)-1]
				}
				msg := strings.Join(x.fails, "\n") + "\nschedule " + fmt.Sprint(full) + "\nlog:\n" + strings.Join(x.log, "\n")
				o.Viols = append(o.Viols, &Viol{Key: key, Msg: clip(msg),
					Task: Task{Name: sc.Name, Scen: true, Bound: t.Bound, Prefixes: [][]byte{full}, Only: true}})
			}
			// an execution that failed may have left things in disorder (blocked threads hold locks)
			o.Restart = true
			break
		}
		if o.Samples == nil {
			o.Samples = append(o.Samples, fmt.Sprintf("%s schedule=%v steps=%d outcome=%s", sc.Name, prefix, res.Steps, x.outcome))
		}
		if t.Only {
			continue
		}
		cost := 0
		for i := 0; i < len(p) && i < len(res.Trace); i++ {
			if res.Trace[i].Chosen > 0 && costly(res.Trace[i], &sc) {
				cost++
			}
		}
		end := len(res.Trace)
		for i := len(p); i < end; i++ {
			sig := res.Trace[i].Sig
			if sig == 0 {
				continue
			}
			left := int8(1)
			if t.Bound < unbounded {
				left = int8(t.Bound - cost + 1)
			}
			if seen[sig] >= left {
				end = i // everything from here on has been explored from an equivalent state
				o.Pruned++
				break
			}
			seen[sig] = left
			o.Nodes++
		}
		for i := end - 1; i >= len(p); i-- {
			q := res.Trace[i]
			c := cost
			if costly(q, &sc) {
				c++
			}
			if c > t.Bound && t.Bound < unbounded {
				continue
			}
			for alt := 1; alt < q.N && alt < 256; alt++ {
				child := make([]byte, i+1)
				for j := 0; j < i; j++ {
					child[j] = byte(res.Trace[j].Chosen)
				}
				child[i] = byte(alt)
				stack = append(stack, child)
			}
		}
	}
	if sc.Fresh && t.Bound == 0 {
		o.Restart = true
	}
	if len(stack) > 0 && len(o.Viols) < 3 {
		// hand back in chunks, shallow nodes separately
		n := len(stack)
		chunk := n/16 + 1
		for i := 0; i < n; i += chunk {
			j := i + chunk
			if j > n {
				j = n
			}
			o.More = append(o.More, Task{Name: t.Name, Scen: true, Bound: t.Bound, Prefixes: stack[i:j]})
		}
	}
	for k := range outcomes {
		o.Outcomes = append(o.Outcomes, clipTo(sc.Name+": "+k, 300))
	}
	sort.Strings(o.Outcomes)
	return o
}

func clipTo(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("#%x", hash(s))
	}
	return s
}
