package main

import (
	"fmt"
	"net/url"
	"strings"

	"github.com/Symantec/tricorder/go/healthserver"

	"vsched"
)

// c23Op sets a status or probes. at is h (health) or r (readiness).
type c23Op struct {
	at     string
	probe  bool
	status string // "" sets OK
	bad    bool   // sets a forbidden status
}

func (o c23Op) String() string {
	switch {
	case o.probe:
		return "probe-" + o.at
	case o.bad:
		return fmt.Sprintf("bad-%s(%q)", o.at, o.status)
	case o.status == "":
		return "ok-" + o.at
	}
	return fmt.Sprintf("fail-%s(%q)", o.at, o.status)
}

func c23Probe(at string) (status string, err error) {
	u := &url.URL{Path: "/healthz"}
	if at == "r" {
		u.Path = "/readiness"
	}
	r := serve(u, 0)
	if r.Panic != "" {
		return "", fmt.Errorf("panic: %s", r.Panic)
	}
	switch r.Code {
	case 200:
		if string(r.Body) != "OK" && string(r.Body) != "OK\n" {
			return "", fmt.Errorf("answers 200 %q", r.Body)
		}
		return "", nil
	case 503:
		b := strings.TrimSuffix(string(r.Body), "\n")
		if b == "" || b == "OK" {
			return "", fmt.Errorf("answers 503 %q", r.Body)
		}
		return b, nil
	}
	return "", fmt.Errorf("answers %d %q", r.Code, r.Body)
}

func (o c23Op) do() (p any) {
	return catch(func() {
		switch {
		case o.at == "h" && o.status == "" && !o.bad:
			healthserver.SetHealthy()
		case o.at == "h":
			healthserver.SetNotHealthy(o.status)
		case o.status == "" && !o.bad:
			healthserver.SetReady()
		default:
			healthserver.SetNotReady(o.status)
		}
	})
}

// what a process answers before any status is set
var c23Start struct {
	h, r       string
	herr, rerr error
}

func init() {
	c23Start.h, c23Start.herr = c23Probe("h")
	c23Start.r, c23Start.rerr = c23Probe("r")
}

func c23Alphabet() (out []c23Op) {
	for _, at := range []string{"h", "r"} {
		out = append(out, c23Op{at: at})
		for _, s := range []string{"x", "no db", "ok", "OK ", "<b>&\n%s"} {
			out = append(out, c23Op{at: at, status: s})
		}
		out = append(out, c23Op{at: at, bad: true}, c23Op{at: at, status: "OK", bad: true})
	}
	return
}

func c23Seq(w *W, first, depth int) {
	ops := c23Alphabet()
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) == depth {
			w.Eval()
			st := map[string]string{"h": "", "r": "not ready"}
			healthserver.SetHealthy()
			healthserver.SetNotReady("not ready")
			var names []string
			for _, k := range seq {
				o := ops[k]
				names = append(names, o.String())
				d := strings.Join(names, " ")
				w.cur = func() string { return d }
				p := o.do()
				w.Trans(3)
				if (p != nil) != o.bad {
					w.Fail("panic", "%s: panics %v", d, p)
				}
				if !o.bad {
					st[o.at] = o.status
				}
				for _, at := range []string{"h", "r"} {
					if got, err := c23Probe(at); err != nil || got != st[at] {
						w.Fail("answer", "%s: probe-%s answers %q %v, want %q", d, at, got, err, st[at])
					}
				}
				w.State(fmt.Sprint(st))
			}
			w.Trace()
			w.Sample(strings.Join(names, " "))
			return
		}
		for k := range ops {
			rec(append(append([]int{}, seq...), k))
		}
	}
	rec([]int{first})
}

// c23Statuses sets every odd and long status at both endpoints, after every other of a few.
func c23Statuses(w *W) {
	for i, s := range oddStrings(w.tier) {
		if s == "" || s == "OK" {
			continue
		}
		for _, at := range []string{"h", "r"} {
			for _, before := range []c23Op{{at: at}, {at: at, status: "x"}} {
				w.Eval()
				w.cur = func() string { return fmt.Sprintf("status %.100q (%d bytes) at %s after %v", s, len(s), at, before) }
				before.do()
				if p := (c23Op{at: at, status: s}).do(); p != nil {
					w.Fail("panic", "%s: panics %v", w.cur(), p)
				}
				got, err := c23Probe(at)
				if err != nil || got != s {
					w.Fail("answer", "%s: probe answers %.100q (%d bytes) %v", w.cur(), got, len(got), err)
				}
				w.Trans(2)
				w.State(fmt.Sprint(at, i))
				w.Trace()
			}
		}
	}
	healthserver.SetHealthy()
	healthserver.SetNotReady("not ready")
}

type c23Done struct {
	c23Op
	start, end int64
	got        string
	err        error
	before     []int
}

func c23Scen(bound int, progs ...[]c23Op) Scen {
	return Scen{Name: fmt.Sprint(progs), Bound: bound, FreeCost: bound < unbounded, Build: func(x *Exec) ([]func(), func()) {
		x.timed = true
		healthserver.SetHealthy()
		healthserver.SetNotReady("not ready")
		res := make([][]c23Done, len(progs))
		var bodies []func()
		for ti, p := range progs {
			ti, p := ti, p
			bodies = append(bodies, func() {
				for _, o := range p {
					r := c23Done{c23Op: o}
					x.Log("%v starts", o)
					r.start = x.clock()
					if o.probe {
						r.got, r.err = c23Probe(o.at)
					} else if pn := o.do(); (pn != nil) != o.bad {
						r.err = fmt.Errorf("panics %v", pn)
					}
					r.end = x.clock()
					x.Log("%v ends: %q %v", o, r.got, r.err)
					res[ti] = append(res[ti], r)
				}
			})
		}
		return bodies, func() {
			var ops []c23Done
			for _, rs := range res {
				ops = append(ops, rs...)
			}
			for _, at := range []string{"h", "r"} {
				last := c23Done{c23Op: c23Op{at: at, probe: true}, start: vsched.Tick()}
				last.got, last.err = c23Probe(at)
				last.end = vsched.Tick()
				ops = append(ops, last)
			}
			desc := ""
			for i := range ops {
				if ops[i].err != nil {
					x.Failf("answer", "%v: %v", ops[i].c23Op, ops[i].err)
					return
				}
				for j := range ops {
					if i != j && ops[j].end < ops[i].start {
						ops[i].before = append(ops[i].before, j)
					}
				}
				desc += fmt.Sprintf("%v %q %v; ", ops[i].c23Op, ops[i].got, ops[i].before)
			}
			x.Outcome("%s", desc)
			used := make([]bool, len(ops))
			var rec func(h, r string, left int) bool
			rec = func(h, r string, left int) bool {
				if left == 0 {
					return true
				}
			next:
				for i := range ops {
					if used[i] {
						continue
					}
					for _, j := range ops[i].before {
						if !used[j] {
							continue next
						}
					}
					o := ops[i]
					h2, r2 := h, r
					switch {
					case o.probe && (o.at == "h" && o.got != h || o.at == "r" && o.got != r):
						continue
					case o.probe || o.bad:
					case o.at == "h":
						h2 = o.status
					default:
						r2 = o.status
					}
					used[i] = true
					ok := rec(h2, r2, left-1)
					used[i] = false
					if ok {
						return true
					}
				}
				return false
			}
			if !rec("", "not ready", len(ops)) {
				x.Failf("not-linearizable", "no order of the operations explains: %s", desc)
			}
		}
	}}
}

func c23Scens(tier string) (out []Scen) {
	ok := func(at string) c23Op { return c23Op{at: at} }
	fail := func(at, s string) c23Op { return c23Op{at: at, status: s} }
	probe := func(at string) c23Op { return c23Op{at: at, probe: true} }
	for _, at := range []string{"h", "r"} {
		o := "hr"[1-strings.Index("hr", at):][:1]
		out = append(out,
			c23Scen(unbounded, []c23Op{fail(at, "a"), ok(at)}, []c23Op{probe(at), probe(at)}),
			c23Scen(unbounded, []c23Op{fail(at, "a"), fail(at, "b"), ok(at)}, []c23Op{probe(at), probe(at), probe(at)}),
			c23Scen(unbounded, []c23Op{fail(at, "a"), probe(at)}, []c23Op{fail(at, "b"), probe(at)}),
			c23Scen(unbounded, []c23Op{fail(at, "a"), fail(o, "b")}, []c23Op{probe(o), probe(at)}),
			c23Scen(unbounded, []c23Op{fail(at, "a"), {at: at, status: "OK", bad: true}, {at: at, bad: true}}, []c23Op{probe(at), ok(at), probe(at)}),
			c23Scen(unbounded, []c23Op{ok(at)}, []c23Op{fail(at, "a")}, []c23Op{probe(at), probe(at)}),
			c23Scen(unbounded, []c23Op{fail(at, "a")}, []c23Op{fail(o, "b")}, []c23Op{probe(at), probe(o)}),
			c23Scen(unbounded, []c23Op{fail(at, "a"), ok(at)}, []c23Op{probe(at)}, []c23Op{probe(at)}))
		if tier == "thorough" {
			out = append(out,
				c23Scen(unbounded, []c23Op{fail(at, "a"), ok(at)}, []c23Op{fail(at, "b"), ok(o)}, []c23Op{probe(at), probe(o)}),
				c23Scen(unbounded, []c23Op{fail(at, "a"), probe(o)}, []c23Op{fail(o, "b"), probe(at)}, []c23Op{ok(at), probe(at)}))
		}
	}
	return
}

func init() {
	define(&Def{ID: "C23", Inst: true, Scens: c23Scens,
		Tasks: func(tier string) (out []string) {
			out = []string{"start", "statuses"}
			for i := range c23Alphabet() {
				out = append(out, fmt.Sprintf("seq/%d", i))
			}
			return
		},
		Do: func(w *W, name string) {
			vsched.BeginExec()
			if name == "start" {
				w.Eval()
				s := c23Start
				if s.herr != nil || s.h != "" {
					w.Fail("start", "before any status is set health answers %q %v", s.h, s.herr)
				}
				if s.rerr != nil || s.r == "" {
					w.Fail("start", "before any status is set readiness answers %q %v", s.r, s.rerr)
				}
				w.Trans(2)
				w.Trace()
				w.State("start")
				return
			}
			if name == "statuses" {
				c23Statuses(w)
				return
			}
			var i int
			fmt.Sscanf(name, "seq/%d", &i)
			depth := 4
			if w.tier == "thorough" {
				depth = 5
			}
			c23Seq(w, i, depth)
		},
		Rule: "all sequences of setting health and readiness, forbidden statuses included, with both endpoints probed after every step, every odd string and long string (up to 65537 bytes) as status, and all schedules of two and three threads that set and probe; histories matched against all orders of the operations; happens-before race detection; histories of 3000 (thorough: 70000) steps"})
}
