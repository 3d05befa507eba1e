// Package vsched is a controlled scheduler: exactly one instrumented goroutine
// ("thread") runs at a time and every visible operation of instrumented code is
// a scheduling point whose outcome is decided by an explorer.
package vsched

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync/atomic"
	"time"
)

type tstate int

const (
	tRunnable tstate = iota
	tRunning
	tBlocked
	tDone
)

// Thread is one controlled goroutine.
type Thread struct {
	id      int
	wake    chan struct{}
	state   tstate
	harness bool // counted by Run for termination
	name    string
	blockOn string
	// wait results
	selIdx  int
	selVal  any
	selOk   bool
	granted bool
	// sleep
	wakeAt int64
	// happens-before
	lidx  int // execution local index, valid if epoch == curEpoch
	epoch int
	vc    VC
	// causal history, for recognising equivalent states
	h      uint64
	pts    uint64
	killed chan struct{}
	ident  uint64
	obj    map[any]int
}

// Point is one recorded nondeterministic choice.
type Point struct {
	N      int // number of alternatives
	Chosen int
	Costly bool   // alternatives > 0 are preemptions
	Sig    uint64 // identifies the state in which the choice was made; 0 if unknown
}

// Failure describes something wrong with an execution independent of the harness' oracle.
type Failure struct {
	Kind string // deadlock, race, panic
	Msg  string
}

type sched struct {
	cur      *Thread
	main     *Thread
	nextID   int
	runnable []*Thread // ascending id, excludes cur
	sleepers []*Thread

	exploring bool
	mainWait  bool
	liveHarn  int
	steps     int
	maxSteps  int
	capped    bool

	prefix   []int
	pos      int
	trace    []Point
	diverged string
	failures []Failure

	now     int64
	epoch   int
	nthr    int // execution local threads
	created []*Thread
	baseID  int
	clk     uint64
	opaque  bool
	thr     []*Thread
	acc     map[uintptr]*access
	obj     map[any]int
}

var s *sched

// Progress counts steps, for a watchdog.
var Progress atomic.Int64

// MapDescending makes instrumented map iteration run in descending instead of ascending order.
var MapDescending bool

// RaceDetect turns the happens-before checker on.
var RaceDetect = true

func init() {
	m := &Thread{id: 0, wake: make(chan struct{}, 1), state: tRunning, name: "main"}
	s = &sched{cur: m, main: m, nextID: 1, maxSteps: 200000, acc: map[uintptr]*access{}, obj: map[any]int{}}
	s.now = 1e9 * 1000
	s.epoch = 1
}

func (s *sched) addRunnable(t *Thread) {
	t.state = tRunnable
	i := sort.Search(len(s.runnable), func(i int) bool { return s.runnable[i].id >= t.id })
	s.runnable = append(s.runnable, nil)
	copy(s.runnable[i+1:], s.runnable[i:])
	s.runnable[i] = t
}

func (s *sched) choose(n int, costly bool) int {
	c := 0
	if s.pos < len(s.prefix) {
		c = s.prefix[s.pos]
		if c >= n || c < 0 {
			if s.diverged == "" {
				s.diverged = fmt.Sprintf("choice %d of %d at point %d", c, n, s.pos)
			}
			c = 0
		}
	}
	s.pos++
	s.trace = append(s.trace, Point{n, c, costly, s.sig(n, costly)})
	return c
}

// transfer hands the processor to t; the calling thread then waits for its own wake up.
func (s *sched) transfer(t, self *Thread) {
	s.cur = t
	t.state = tRunning
	t.wake <- struct{}{}
	self.wait()
}

// point is a scheduling point of the running thread.
func point() {
	Progress.Add(1)
	if !s.exploring {
		return
	}
	s.steps++
	s.cur.hb()
	s.cur.pts++
	if s.steps > s.maxSteps {
		s.capped = true
		return
	}
	if len(s.runnable) == 0 || s.cur == s.main {
		return
	}
	c := s.choose(1+len(s.runnable), true)
	if c == 0 {
		return
	}
	self := s.cur
	t := s.takeRunnable(c - 1)
	s.addRunnable(self)
	s.transfer(t, self)
}

func (s *sched) takeRunnable(i int) *Thread {
	t := s.runnable[i]
	s.runnable = append(s.runnable[:i], s.runnable[i+1:]...)
	return t
}

// next picks the next thread to run when the current one cannot continue.
// It returns nil if nothing can run at all.
func (s *sched) next() *Thread {
	for {
		if len(s.runnable) > 0 {
			i := 0
			if s.exploring && len(s.runnable) > 1 {
				i = s.choose(len(s.runnable), false)
			}
			return s.takeRunnable(i)
		}
		if s.mainWait {
			if s.liveHarn > 0 && len(s.sleepers) > 0 {
				s.advanceTime()
				continue
			}
			// quiescent: finished or deadlocked
			s.mainWait = false
			return s.main
		}
		if len(s.sleepers) > 0 {
			s.advanceTime()
			continue
		}
		return nil
	}
}

func (s *sched) advanceTime() {
	bi := 0
	for i, t := range s.sleepers {
		if t.wakeAt < s.sleepers[bi].wakeAt {
			bi = i
		}
	}
	t := s.sleepers[bi]
	s.sleepers = append(s.sleepers[:bi], s.sleepers[bi+1:]...)
	if t.wakeAt > s.now {
		s.now = t.wakeAt
	}
	s.addRunnable(t)
}

// block parks the running thread until another thread makes it runnable.
func block(on string) {
	self := s.cur
	self.state = tBlocked
	self.blockOn = on
	t := s.next()
	if t == nil {
		// Nothing can ever run. Outside an exploration this is a real global deadlock.
		fmt.Fprintf(os.Stderr, "vsched: global deadlock: %s blocked on %s\n", self.name, on)
		if FatalHook != nil {
			FatalHook("global deadlock outside exploration: " + on)
		}
		os.Exit(3)
	}
	if t == self { // main woken as quiescent right away
		t.state = tRunning
		s.cur = t
		return
	}
	s.transfer(t, self)
}

// FatalHook is called on a deadlock outside of an exploration.
var FatalHook func(string)

func ready(t *Thread) {
	if t.state == tBlocked {
		s.addRunnable(t)
	}
}

func (s *sched) exitCurrent() {
	self := s.cur
	self.state = tDone
	if self.harness {
		s.liveHarn--
	}
	t := s.next()
	if t == nil {
		return // nobody to run; main will never be here
	}
	s.cur = t
	t.state = tRunning
	t.wake <- struct{}{}
}

func spawn(name string, harness bool, f func()) *Thread {
	t := &Thread{id: s.nextID, wake: make(chan struct{}, 1), name: name, harness: harness}
	s.nextID++
	if harness {
		s.liveHarn++
	}
	if s.exploring || harness {
		parent := s.cur
		parent.hb()
		if s.exploring {
			t.ident = mix(parent.ident, parent.h^parent.pts<<32)
			parent.h = mix(parent.h, 77)
		} else {
			t.ident = mix(999, uint64(s.nextID-s.baseID))
		}
		hbFork(parent, t)
		t.h = mix(t.ident, parent.h)
	} else {
		t.ident = mix(1000, uint64(s.nextID-s.baseID))
	}
	s.created = append(s.created, t)
	go func() {
		<-t.wake
		if t.killed != nil {
			close(t.killed)
			return
		}
		defer func() {
			if t.killed != nil {
				recover()
				close(t.killed)
				return
			}
			if r := recover(); r != nil {
				fail("panic", fmt.Sprintf("thread %s: %v\n%s", t.name, r, trimStack(debug.Stack())))
			}
			s.exitCurrent()
		}()
		f()
	}()
	s.addRunnable(t)
	return t
}

func trimStack(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

func fail(kind, msg string) {
	if len(s.failures) < 5 {
		s.failures = append(s.failures, Failure{kind, msg})
	}
	if !s.exploring && FatalHook != nil && kind == "panic" {
		FatalHook(msg)
	}
}

// Go starts f as a new controlled goroutine.
func Go(f func()) {
	_, file, line, _ := runtime.Caller(1)
	spawn(fmt.Sprintf("go@%s:%d", base(file), line), false, f)
}

func base(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[i+1:]
		}
	}
	return p
}

// Result is what one controlled execution produced.
type Result struct {
	Trace    []Point
	Diverged string
	Capped   bool
	Failures []Failure
	Steps    int
	Threads  int
}

// Run executes the thread bodies under the scheduler, following prefix and taking
// alternative 0 at every later point, until all bodies are done and everything is quiescent.
func Run(prefix []int, bodies ...func()) Result {
	s.prefix, s.pos, s.trace, s.diverged = prefix, 0, nil, ""
	s.failures, s.capped, s.steps = nil, false, 0
	s.liveHarn = 0
	hbReset()
	for i, b := range bodies {
		spawn(fmt.Sprintf("T%d", i+1), true, b)
	}
	s.exploring = true
	s.mainWait = true
	block("join")
	s.exploring = false
	res := Result{Trace: s.trace, Diverged: s.diverged, Capped: s.capped, Failures: s.failures, Steps: s.steps, Threads: s.nthr}
	if s.pos < len(prefix) && res.Diverged == "" {
		res.Diverged = fmt.Sprintf("execution ended after %d of %d prescribed choices", s.pos, len(prefix))
	}
	if s.liveHarn > 0 {
		msg := ""
		for _, t := range s.thr {
			if t.harness && t.state == tBlocked {
				msg += fmt.Sprintf("%s blocked on %s; ", t.name, t.blockOn)
			}
		}
		res.Failures = append(res.Failures, Failure{"deadlock", msg})
	}
	hbReset()
	return res
}

// Self returns the index (1-based) of the running harness thread name, for monitors.
func Self() string { return s.cur.name }

// Exploring reports whether an exploration is running.
func Exploring() bool { return s.exploring }

// Tick returns a fresh logical time stamp, totally ordered along the execution.
func Tick() int64 { touchClock(); s.now++; return s.now }

// Stamp is like Tick but only for diagnostics: it does not order threads.
func Stamp() int64 { s.now++; return s.now }

// BeginExec marks the start of an execution's set up, so that threads created by it are
// identified the same way in every execution.
func BeginExec() {
	if len(s.runnable) > 0 && s.cur == s.main { // let background threads come to rest
		s.liveHarn = 0
		s.mainWait = true
		block("settle")
	}
	s.baseID = s.nextID
	s.created = s.created[:0]
	newChans = newChans[:0]
}

// EndExec disposes of the background threads an execution left behind, once nothing refers to
// its objects any more.
func EndExec() {
	for _, t := range s.created {
		if t.state != tBlocked || t.harness {
			continue
		}
		t.killed = make(chan struct{})
		s.cur = t
		t.wake <- struct{}{}
		<-t.killed
		s.cur = s.main
	}
	s.created = s.created[:0]
	for _, p := range newChans {
		delete(chans, p)
	}
	newChans = newChans[:0]
}

func (t *Thread) wait() {
	<-t.wake
	if t.killed != nil {
		runtime.Goexit()
	}
}

// touchClock orders the running thread with everything else that looks at the clock or at
// the harness' own records.
func touchClock() {
	if s.exploring {
		s.cur.hb()
		s.clk = mix(s.cur.h, s.clk)
		s.cur.h = s.clk
	}
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b + 0x9E3779B97F4A7C15 + a<<6 + a>>2)
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return x
}

// sig identifies the current state by the causal history of every thread: executions reaching
// the same signature have performed the same events in equivalent orders.
func (s *sched) sig(n int, costly bool) uint64 {
	if s.opaque || len(s.sleepers) > 0 {
		return 0
	}
	var sum uint64
	for _, t := range s.thr {
		st := uint64(0)
		switch t.state {
		case tBlocked:
			st = 1
		case tDone:
			st = 2
		}
		sum += mix(mix(t.ident, t.h), t.pts<<2|st)
	}
	c := uint64(n) << 1
	if costly {
		c |= 1
		c ^= mix(s.cur.ident, 5)
	}
	r := mix(sum, mix(c, s.clk))
	if r == 0 {
		r = 1
	}
	return r
}

// PointHere is an explicit scheduling point for harness code.
func PointHere() { point() }

// Free lets the environment choose one of n alternatives (not counted as a preemption).
func Free(n int) int {
	if !s.exploring || n <= 1 {
		return 0
	}
	c := s.choose(n, false)
	s.cur.hb()
	s.cur.h = mix(s.cur.h, uint64(c)+3)
	return c
}

// Virtual clock.
var clockBase = time.Unix(1500000000, 0).UTC()

// Now is the virtual time.Now: strictly increasing.
func Now() time.Time {
	touchClock()
	s.now += 1000
	return clockBase.Add(time.Duration(s.now))
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep blocks until virtual time has advanced, which happens when nothing else can run.
func Sleep(d time.Duration) {
	point()
	self := s.cur
	self.wakeAt = s.now + int64(d)
	if self == s.main && !s.mainWait && !s.exploring && len(s.runnable) == 0 {
		s.now = self.wakeAt
		return
	}
	s.sleepers = append(s.sleepers, self)
	block("sleep")
}

// Gosched yields to another runnable thread, free of cost.
func Gosched() {
	Progress.Add(1)
	if len(s.runnable) == 0 {
		return
	}
	if s.exploring {
		s.steps++
		s.cur.hb()
		s.cur.pts++
		if s.steps > s.maxSteps {
			s.capped = true
		}
	}
	self := s.cur
	i := 0
	if s.exploring && !s.capped && len(s.runnable) > 1 {
		i = s.choose(len(s.runnable), false)
	}
	t := s.takeRunnable(i)
	s.addRunnable(self)
	s.transfer(t, self)
}

func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	spawn("timer", false, func() {
		Sleep(d)
		Send(ch, Now())
	})
	return ch
}

func Tick_(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	spawn("ticker", false, func() {
		for {
			Sleep(d)
			if Len(ch) == 0 {
				Send(ch, Now())
			}
		}
	})
	return ch
}
