// Command mc decides the properties in /verif/properties.jsonl by exhaustive enumeration of
// bounded spaces of schedules, histories, faults and inputs executed on the real code.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"vsched"
)

// Task is a unit of work given to a worker process.
type Task struct {
	Name     string   `json:"n"`
	Scen     bool     `json:"s,omitempty"` // schedule exploration of scenario Name
	Bound    int      `json:"b,omitempty"`
	Prefixes [][]byte `json:"p,omitempty"`
	Only     bool     `json:"o,omitempty"`     // run exactly these prefixes, no children
	Whole    bool     `json:"whole,omitempty"` // as Keep, from the start of the scenario
	Keep     bool     `json:"keep,omitempty"`  // without disposing of background threads
	Deadline int64    `json:"dl,omitempty"`    // unix seconds after which the task stops early
}

// Viol is a violation found by a worker.
type Viol struct {
	Key  string `json:"key"` // stable identification for the known findings file
	Msg  string `json:"msg"`
	Task Task   `json:"task"`
	Kind string `json:"kind,omitempty"`
}

// Out is the result of a task.
type Out struct {
	Evals    int64    `json:"e"`
	Nontriv  int64    `json:"x"`
	Trans    int64    `json:"t"`
	Nodes    int64    `json:"d"`
	Traces   int64    `json:"r"`
	Capped   int64    `json:"c"`
	Pruned   int64    `json:"pr"`
	Diverged int64    `json:"v"`
	States   []uint64 `json:"st,omitempty"`
	Samples  []string `json:"sm,omitempty"`
	Viols    []*Viol  `json:"vi,omitempty"`
	More     []Task   `json:"m,omitempty"`
	Outcomes []string `json:"oc,omitempty"`
	Note     string   `json:"note,omitempty"`
	Restart  bool     `json:"rs,omitempty"`
	Cut      bool     `json:"cut,omitempty"` // stopped by the deadline
	name     string
}

// Def defines the check of a property.
type Def struct {
	ID    string
	Inst  bool // needs the instrumented build
	Both  bool // needs it for the schedules only
	Rule  string
	Level string
	Tasks func(tier string) []string
	Do    func(w *W, name string)
	Scens func(tier string) []Scen
}

var defs = map[string]*Def{}

func define(d *Def) { defs[d.ID] = d }

// W is what a sequential task reports to.
type W struct {
	out    *Out
	task   Task
	tier   string
	states map[uint64]bool
	seen   map[string]bool
	cur    func() string // describes the case being run
}

func (w *W) Eval() {
	w.out.Evals++
	vsched.Progress.Add(1)
	if w.task.Deadline > 0 && w.out.Evals%64 == 0 && time.Now().Unix() > w.task.Deadline {
		panic(outOfTime{})
	}
}

// outOfTime ends a sequential task that exceeds the budget.
type outOfTime struct{}

func (w *W) Nontrivial()    { w.out.Nontriv++ }
func (w *W) Trans(n int)    { w.out.Trans += int64(n); vsched.Progress.Add(1) }
func (w *W) Trace()         { w.out.Traces++; vsched.Progress.Add(1) }
func (w *W) State(s string) { w.states[hash(s)] = true }
func (w *W) Sample(s string) {
	if len(w.out.Samples) < 2 {
		w.out.Samples = append(w.out.Samples, s)
	}
}

// Fail records a violation. Only the first of each key is kept.
func (w *W) Fail(key, format string, args ...any) {
	if w.seen[key] {
		return
	}
	w.seen[key] = true
	if len(w.out.Viols) < 20 {
		w.out.Viols = append(w.out.Viols, &Viol{Key: key, Msg: clip(fmt.Sprintf(format, args...)), Task: w.task})
	}
}

func clip(s string) string {
	if len(s) > 4000 {
		return s[:4000] + "..."
	}
	return s
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

var (
	fTier    = flag.String("mc.tier", "quick", "")
	fWorker  = flag.Bool("mc.worker", false, "")
	fReplay  = flag.String("mc.replay", "", "re-run a replay file")
	fVerif   = flag.String("mc.verif", "/verif", "")
	fBudget  = flag.Float64("mc.budget", 0, "seconds")
	fWorkers = flag.Int("mc.workers", 0, "")
	fPartial = flag.String("mc.partial", "", "reason why coverage is reduced")
	fSched   = flag.String("mc.sched", "", "the instrumented build that explores schedules, if not this one; - for none")
	fOnly    = flag.String("mc.only", "", "only tasks/scenarios whose name contains this")
)

func main() {
	log.SetOutput(io.Discard) // the code under test reports provoked errors there
	flag.Parse()
	if flag.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: mc [flags] ID")
		os.Exit(2)
	}
	d := defs[flag.Arg(0)]
	if d == nil {
		fmt.Fprintln(os.Stderr, "no such check", flag.Arg(0))
		os.Exit(2)
	}
	if *fSched == "-" {
		d.Scens = nil
	}
	if *fWorker {
		worker(d)
		return
	}
	if *fReplay != "" {
		os.Exit(replay(d, *fReplay))
	}
	os.Exit(coordinate(d))
}

// ---- worker ----

var (
	workerOut  *bufio.Writer
	workerMu   sync.Mutex
	curTask    Task
	curExplore *explorer
)

func emit(o *Out) {
	workerMu.Lock()
	defer workerMu.Unlock()
	b, err := json.Marshal(o)
	if err != nil {
		fmt.Fprintln(os.Stderr, "emit:", err)
		os.Exit(7)
	}
	workerOut.Write(b)
	workerOut.WriteByte('\n')
	workerOut.Flush()
}

func worker(d *Def) {
	realOut := os.Stdout
	os.Stdout = os.Stderr
	workerOut = bufio.NewWriter(realOut)
	debug.SetGCPercent(200)
	runtime.GOMAXPROCS(2)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	vsched.FatalHook = func(msg string) {
		v := &Viol{Key: "fatal", Msg: clip(msg), Task: curTask, Kind: "fatal"}
		if curW != nil && curW.cur != nil {
			v.Msg = clip("in " + curW.cur() + ": " + msg)
		}
		emit(&Out{Evals: 1, Viols: []*Viol{v}})
		os.Exit(5)
	}
	go func() { // watchdog
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			p := vsched.Progress.Load()
			if p != last || !busy.Load() {
				last, since = p, time.Now()
				continue
			}
			if time.Since(since) > 40*time.Second {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "mc worker: no progress for 40 s\n%s\n", buf)
				os.Exit(6)
			}
		}
	}()
	var scens map[string]Scen
	for {
		var t Task
		if err := dec.Decode(&t); err != nil {
			return
		}
		curTask = t
		busy.Store(true)
		vsched.Progress.Add(1)
		if t.Scen {
			if scens == nil {
				scens = map[string]Scen{}
				for _, s := range d.Scens(*fTier) {
					scens[s.Name] = s
				}
			}
			sc, ok := scens[t.Name]
			if !ok {
				fmt.Fprintln(os.Stderr, "no scenario", t.Name)
				os.Exit(7)
			}
			o := exploreTask(sc, t)
			busy.Store(false)
			emit(o)
		} else {
			o := runSequential(d, t)
			busy.Store(false)
			emit(o)
		}
	}
}

var curW *W

func runSequential(d *Def, t Task) (o *Out) {
	o = &Out{}
	w := &W{out: o, task: t, tier: *fTier, states: map[uint64]bool{}, seen: map[string]bool{}}
	curW = w
	defer func() {
		curW = nil
		if r := recover(); r != nil {
			if _, ok := r.(outOfTime); ok {
				o.Cut = true
				for h := range w.states {
					o.States = append(o.States, h)
				}
				return
			}
			c := ""
			if w.cur != nil {
				c = w.cur()
			}
			w.Fail("panic", "panic in %s: %v\n%s", c, r, debug.Stack())
		}
		for h := range w.states {
			o.States = append(o.States, h)
		}
	}()
	d.Do(w, t.Name)
	return o
}

// ---- coordinator ----

type proc struct {
	cmd   *exec.Cmd
	in    *json.Encoder
	inC   interface{ Close() error }
	out   *bufio.Reader
	err   *tail
	tasks int
	evals int64
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte("..."), t.b[len(t.b)-1<<15:]...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func startProc(d *Def, scen bool) (*proc, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	if scen && *fSched != "" {
		self = *fSched
	}
	cmd := exec.Command(self, "-mc.worker", "-mc.tier", *fTier, d.ID)
	cmd.Env = append(os.Environ(), "TZ=UTC", "GOTRACEBACK=single")
	inp, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	outp, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p := &proc{cmd: cmd, err: &tail{}}
	cmd.Stderr = p.err
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	p.in = json.NewEncoder(inp)
	p.inC = inp
	p.out = bufio.NewReaderSize(outp, 1<<20)
	return p, nil
}

func (p *proc) stop() {
	p.inC.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// do sends one task. A dead worker yields a result with Kind set.
func (p *proc) do(t Task) (*Out, string) {
	if err := p.in.Encode(t); err != nil {
		p.cmd.Process.Kill()
		p.cmd.Wait()
		return nil, "dead"
	}
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		p.cmd.Wait()
		code := p.cmd.ProcessState.ExitCode()
		switch {
		case code == 6:
			return nil, "hang"
		case code == 2:
			return nil, "crash"
		}
		return nil, fmt.Sprintf("dead (exit %d)", code)
	}
	var o Out
	if err := json.Unmarshal(line, &o); err != nil {
		return nil, "bad output"
	}
	p.tasks++
	p.evals += o.Evals
	return &o, ""
}

type agg struct {
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []Task
	running int
	stop    bool

	Out
	states     map[uint64]bool
	outcomes   map[string]int64
	viols      []*Viol
	noise      []string
	incomplete []string
	deadline   time.Time
	byScen     map[string]int64
}

func coordinate(d *Def) int {
	start := time.Now()
	tier := *fTier
	budget := *fBudget
	if budget == 0 {
		budget = 420
		if tier == "thorough" {
			budget = 780
		}
	}
	nw := *fWorkers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	known := readKnown(filepath.Join(*fVerif, "known_findings.txt"))
	a := &agg{states: map[uint64]bool{}, outcomes: map[string]int64{}, deadline: start.Add(time.Duration(budget * float64(time.Second)))}
	a.cond = sync.NewCond(&a.mu)

	var bounds []map[string]any
	run := func(ts []Task) {
		a.queue = append(a.queue, ts...)
		runPool(d, a, nw)
	}
	if d.Tasks != nil {
		var ts []Task
		for _, n := range d.Tasks(tier) {
			if *fOnly != "" && !strings.Contains(n, *fOnly) {
				continue
			}
			ts = append(ts, Task{Name: n})
		}
		if len(ts) > 0 {
			run(ts)
		}
	}
	// confirmed are violations that show again in fresh processes, doubtful the others.
	var confirmed, doubtful []*Viol
	settle := func() {
		for _, v := range a.viols {
			if len(confirmed) >= 3 {
				break
			}
			if confirm(d, v) {
				confirmed = append(confirmed, v)
			} else {
				doubtful = append(doubtful, v)
				if v.Task.Scen {
					break
				}
			}
		}
		a.viols = nil
	}
	schedules := func() {
		scens := d.Scens(tier)
		// shallow levels first, then each scenario's own bound
		levels := map[int]bool{0: true}
		for _, s := range scens {
			levels[s.Bound] = true
		}
		var order []int
		for b := range levels {
			order = append(order, b)
		}
		sort.Ints(order)
		for _, b := range order {
			var ts []Task
			for _, s := range scens {
				if *fOnly != "" && !strings.Contains(s.Name, *fOnly) {
					continue
				}
				if s.Bound == b || b == 0 {
					ts = append(ts, Task{Name: s.Name, Scen: true, Bound: b, Prefixes: [][]byte{{}}})
				}
			}
			if len(ts) == 0 {
				continue
			}
			before := a.Evals
			t0 := time.Now()
			if !a.stop {
				run(ts)
			}
			bounds = append(bounds, map[string]any{"deviation_bound": b, "scenarios": len(ts), "schedules": a.Evals - before,
				"complete": !a.stop, "wall_s": time.Since(t0).Seconds()})
			if a.stop {
				break
			}
		}
	}
	if d.Scens != nil && !a.stop {
		schedules()
		settle()
		if scenDoubt(doubtful) && len(confirmed) == 0 && !time.Now().After(a.deadline) {
			// an execution may have lost a background thread that serves later ones
			keepAll, doubtful, bounds = true, nil, nil
			a.stop, a.queue, a.incomplete = false, nil, nil
			schedules()
			settle()
		}
	}
	settle()
	for _, v := range doubtful {
		a.noise = append(a.noise, "not reproduced: "+firstLine(v.Msg))
	}

	exhaustive := !a.stop && len(a.noise) == 0 && a.Capped == 0 && len(a.incomplete) == 0 && *fPartial == ""
	var newViols []*Viol
	for _, v := range confirmed {
		if what, ok := known[d.ID+" "+v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.ID, what)
			continue
		}
		newViols = append(newViols, v)
	}
	rc := 0
	if len(newViols) > 0 {
		rc = 1
		dir := filepath.Join(*fVerif, "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, d.ID+".json")
		b, _ := json.MarshalIndent(newViols[0], "", " ")
		os.WriteFile(path, b, 0o644)
		for i, v := range newViols {
			fmt.Printf("violation %d [%s, task %s]: %s\n", i+1, v.Key, v.Task.Name, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.ID, path)
	}
	writeEvidence(d, a, tier, start, bounds, exhaustive, len(newViols))
	if os.Getenv("MC_DEBUG") != "" {
		var ks []string
		for k := range a.byScen {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return a.byScen[ks[i]] > a.byScen[ks[j]] })
		for i, k := range ks {
			if i < 40 {
				fmt.Fprintf(os.Stderr, "%9d %s\n", a.byScen[k], k)
			}
		}
	}
	if len(a.noise) > 0 {
		fmt.Fprintf(os.Stderr, "notes: %s\n", clip(strings.Join(a.noise, "\n")))
	}
	fmt.Printf("%s %s: %d executions, %d transitions, %d states, exhaustive=%v, %.1f s, %d violations\n",
		d.ID, tier, a.Evals, a.Trans, int64(len(a.states))+a.Nodes, exhaustive, time.Since(start).Seconds(), len(newViols))
	return rc
}

// keepAll lets background threads of earlier executions live on in all workers.
var keepAll bool

func scenDoubt(vs []*Viol) bool {
	for _, v := range vs {
		if v.Task.Scen {
			return true
		}
	}
	return false
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

const maxTasksPerWorker = 400
const maxEvalsPerWorker = 30000

func runPool(d *Def, a *agg, nw int) {
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.stop()
				}
			}()
			for {
				a.mu.Lock()
				for len(a.queue) == 0 && a.running > 0 && !a.stop {
					a.cond.Wait()
				}
				if a.stop || len(a.queue) == 0 {
					a.mu.Unlock()
					a.cond.Broadcast()
					return
				}
				if time.Now().After(a.deadline) {
					a.stop = true
					a.mu.Unlock()
					a.cond.Broadcast()
					return
				}
				t := a.queue[len(a.queue)-1]
				a.queue = a.queue[:len(a.queue)-1]
				a.running++
				a.mu.Unlock()

				if p != nil && (p.tasks >= maxTasksPerWorker || p.evals >= maxEvalsPerWorker) {
					p.stop()
					p = nil
				}
				if p == nil {
					var err error
					p, err = startProc(d, t.Scen)
					if err != nil {
						a.mu.Lock()
						a.noise = append(a.noise, "cannot start worker: "+err.Error())
						a.incomplete = append(a.incomplete, t.Name)
						a.running--
						a.mu.Unlock()
						a.cond.Broadcast()
						p = nil
						continue
					}
				}
				t.Deadline = a.deadline.Unix()
				t.Keep = keepAll
				o, bad := p.do(t)
				if o != nil && o.Cut {
					a.mu.Lock()
					a.stop = true
					a.mu.Unlock()
				}
				fatal := o != nil && (o.Restart || len(o.Viols) > 0 && o.Viols[0].Kind == "fatal")
				if bad != "" {
					v := &Viol{Key: bad, Msg: "worker " + bad + " in task " + t.Name + ":\n" + clip(p.err.String()), Task: t, Kind: bad}
					o = &Out{}
					a.mu.Lock()
					if bad == "hang" || bad == "crash" {
						o.Viols = []*Viol{v}
					} else {
						a.noise = append(a.noise, v.Msg)
					}
					a.incomplete = append(a.incomplete, t.Name)
					a.mu.Unlock()
				}
				if bad != "" || fatal {
					p.stop()
					p = nil
				}
				a.mu.Lock()
				o.name = t.Name
				a.merge(o)
				a.running--
				if len(a.viols) >= 3 {
					a.stop = true
				}
				a.mu.Unlock()
				a.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
}

func (a *agg) merge(o *Out) {
	a.Evals += o.Evals
	if a.byScen == nil {
		a.byScen = map[string]int64{}
	}
	a.byScen[o.name] += o.Evals
	a.Nontriv += o.Nontriv
	a.Trans += o.Trans
	a.Nodes += o.Nodes
	a.Traces += o.Traces
	a.Capped += o.Capped
	a.Pruned += o.Pruned
	a.Diverged += o.Diverged
	for _, h := range o.States {
		a.states[h] = true
	}
	for _, s := range o.Samples {
		if len(a.Samples) < 6 {
			a.Samples = append(a.Samples, s)
		}
	}
	for _, s := range o.Outcomes {
		a.outcomes[s]++
	}
	a.viols = append(a.viols, o.Viols...)
	a.queue = append(a.queue, o.More...)
	if o.Note != "" && len(a.noise) < 10 {
		a.noise = append(a.noise, o.Note)
	}
}

// confirm re-runs the failing execution in fresh processes. One that fails only after others is
// looked for again by exploring its scenario anew, with everything earlier executions left behind.
func confirm(d *Def, v *Viol) bool {
	if !v.Task.Scen || v.Kind != "fatal" {
		if confirmTask(d, v) {
			return true
		}
		if !v.Task.Scen || v.Kind != "" {
			return false
		}
	}
	v.Task = Task{Name: v.Task.Name, Scen: true, Bound: v.Task.Bound, Prefixes: [][]byte{{}}, Whole: true}
	return confirmTask(d, v)
}

func confirmTask(d *Def, v *Viol) bool {
	need, tries := 2, 4
	if v.Kind == "hang" {
		need, tries = 1, 1
	}
	if v.Task.Whole {
		tries = 2
	}
	got := 0
	for i := 0; i < tries && got < need; i++ {
		if v.Task.Whole && got < i {
			break
		}
		p, err := startProc(d, v.Task.Scen)
		if err != nil {
			continue
		}
		v.Task.Deadline = 0
		if v.Task.Whole {
			v.Task.Deadline = time.Now().Unix() + 25
		}
		o, bad := p.do(v.Task)
		p.stop()
		if bad != "" {
			if bad == v.Kind {
				got++
			}
			continue
		}
		for _, x := range o.Viols {
			if x.Key == v.Key {
				v.Msg = x.Msg
				got++
				break
			}
		}
	}
	return got >= need
}

func replay(d *Def, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Viol
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p, err := startProc(d, v.Task.Scen)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer p.stop()
	v.Task.Deadline = 0
	o, bad := p.do(v.Task)
	if bad != "" {
		fmt.Printf("worker: %s\n%s\n", bad, p.err.String())
		return 1
	}
	for _, x := range o.Viols {
		fmt.Printf("[%s] %s\n", x.Key, x.Msg)
	}
	if len(o.Viols) > 0 {
		return 1
	}
	fmt.Println("no violation")
	return 0
}

func readKnown(path string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C07 key=<key> <what>
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "key=") {
			m[f[0]+" "+strings.TrimPrefix(f[1], "key=")] = f[2]
		}
	}
	return m
}

func writeEvidence(d *Def, a *agg, tier string, start time.Time, bounds []map[string]any, exhaustive bool, nviol int) {
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	level := d.Level
	if level == "" {
		level = "model_checking"
	}
	samples := []any{}
	for _, s := range a.Samples {
		samples = append(samples, s)
	}
	cov := map[string]any{
		"exhaustive":                    exhaustive,
		"rule":                          d.Rule,
		"samples":                       samples,
		"states":                        int64(len(a.states)) + a.Nodes,
		"transitions":                   a.Trans,
		"traces_validated_against_impl": a.Traces,
		"evaluations":                   a.Evals,
	}
	if a.Nontriv > 0 || len(a.outcomes) > 0 {
		cov["distinct_nontrivial"] = a.Nontriv + int64(len(a.outcomes))
	}
	if len(bounds) > 0 {
		cov["levels"] = bounds
	}
	if len(a.outcomes) > 0 {
		var ks []string
		for k := range a.outcomes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["distinct_outcomes"] = len(ks)
		if len(ks) > 12 {
			ks = ks[:12]
		}
		cov["outcome_samples"] = ks
	}
	if a.Pruned > 0 {
		cov["executions_cut_at_equivalent_state"] = a.Pruned
	}
	if a.Capped > 0 {
		cov["step_capped_executions"] = a.Capped
	}
	if a.Diverged > 0 {
		cov["diverged_executions"] = a.Diverged
	}
	if len(a.noise) > 0 {
		n := a.noise
		if len(n) > 5 {
			n = n[:5]
		}
		cov["notes"] = n
	}
	if *fPartial != "" {
		cov["reduced"] = *fPartial
	}
	ev := map[string]any{
		"property": d.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, d.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
