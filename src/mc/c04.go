package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// mnode is an entry of the reference tree. A directory has kids, a metric does not.
type mnode struct {
	name   string
	parent *mnode
	kids   map[string]*mnode
	val    *int64
	desc   string
	unit   units.Unit
}

func newMDir(name string, parent *mnode) *mnode {
	return &mnode{name: name, parent: parent, kids: map[string]*mnode{}}
}

func comps(path string) []string {
	var out []string
	for _, c := range strings.Split(path, "/") {
		if strings.TrimSpace(c) != "" {
			out = append(out, c)
		}
	}
	return out
}

func (n *mnode) isDir() bool { return n.kids != nil }

// find walks to a directory: not found or in use when something on the way is missing or a metric.
func (n *mnode) find(cs []string) (*mnode, error) {
	for _, c := range cs {
		k := n.kids[c]
		if k == nil {
			return nil, tricorder.ErrNotFound
		}
		if !k.isDir() {
			return nil, tricorder.ErrPathInUse
		}
		n = k
	}
	return n, nil
}

func (n *mnode) mkdir(cs []string) (*mnode, error) {
	for _, c := range cs {
		k := n.kids[c]
		if k == nil {
			k = newMDir(c, n)
			n.kids[c] = k
		} else if !k.isDir() {
			return nil, tricorder.ErrPathInUse
		}
		n = k
	}
	return n, nil
}

func (n *mnode) register(cs []string, v *int64, desc string, unit units.Unit) error {
	if len(cs) == 0 {
		return tricorder.ErrPathInUse
	}
	d, err := n.mkdir(cs[:len(cs)-1])
	if err != nil {
		return err
	}
	last := cs[len(cs)-1]
	if d.kids[last] != nil {
		return tricorder.ErrPathInUse
	}
	d.kids[last] = &mnode{name: last, parent: d, val: v, desc: desc, unit: unit}
	return nil
}

func (n *mnode) unregister(cs []string) {
	if len(cs) == 0 {
		return
	}
	d, err := n.find(cs[:len(cs)-1])
	if err == nil {
		delete(d.kids, cs[len(cs)-1])
	}
}

func (n *mnode) detach() {
	if n.parent != nil && n.parent.kids[n.name] == n {
		delete(n.parent.kids, n.name)
	}
}

func (n *mnode) path() string {
	if n.parent == nil {
		return ""
	}
	return n.parent.path() + "/" + n.name
}

// walk lists metrics depth first in lexicographic order.
func (n *mnode) walk(f func(m *mnode)) {
	var ks []string
	for k := range n.kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if c := n.kids[k]; c.isDir() {
			c.walk(f)
		} else {
			f(c)
		}
	}
}

// c04Op is one registry operation. slot -1 is the root by absolute path, otherwise a directory handle.
type c04Op struct {
	op   string
	slot int
	path string
}

func (o c04Op) String() string { return fmt.Sprintf("%s[%d]%q", o.op, o.slot, o.path) }

type c04World struct {
	dir     string
	root    *mnode // the real root; only the world's own directory is modelled below it
	top     *mnode
	real    []*tricorder.DirectorySpec
	model   []*mnode
	next    int
	slots   int
	errs    []string
	counter int64
	ids     map[*mnode]*tricorder.DirectorySpec
}

func newC04World(slots int) *c04World {
	execCount++
	w := &c04World{dir: fmt.Sprintf("/x%d", execCount), slots: slots, real: make([]*tricorder.DirectorySpec, slots), model: make([]*mnode, slots)}
	w.root = newMDir("", nil)
	w.top = newMDir(w.dir[1:], w.root)
	w.root.kids[w.top.name] = w.top
	w.ids = map[*mnode]*tricorder.DirectorySpec{}
	d, err := tricorder.RegisterDirectory(w.dir)
	must(err)
	w.ids[w.top] = d
	return w
}

func (w *c04World) close() { tricorder.UnregisterPath(w.dir) }

func (w *c04World) failf(f string, a ...any) { w.errs = append(w.errs, fmt.Sprintf(f, a...)) }

var errNames = map[error]string{nil: "ok", tricorder.ErrPathInUse: "in-use", tricorder.ErrNotFound: "not-found", tricorder.ErrWrongType: "wrong-type", tricorder.ErrWrongUnit: "wrong-unit"}

func errName(err error) string {
	for e, n := range errNames {
		if err == e || e != nil && errors.Is(err, e) {
			return n
		}
	}
	return err.Error()
}

var c04Units = []units.Unit{units.None, units.Byte, units.Second, units.Celsius}

// same checks that a returned directory is the model's.
func (w *c04World) same(o c04Op, n *mnode, d *tricorder.DirectorySpec) {
	if d == nil {
		w.failf("%v: nil directory without error", o)
		return
	}
	if old, ok := w.ids[n]; ok && old != d {
		w.failf("%v: got another directory than before", o)
	} else if !ok {
		for m, e := range w.ids {
			if e == d {
				w.failf("%v: got directory of %s, want a new one for %s", o, m.path(), n.path())
			}
		}
		w.ids[n] = d
	}
	want := n.path()
	if want == "" {
		want = "/"
	}
	if got := d.AbsPath(); got != want {
		w.failf("%v: AbsPath is %q, want %q", o, got, want)
	}
}

func (w *c04World) put(n *mnode, d *tricorder.DirectorySpec) {
	if w.slots == 0 || n == w.root { // the real root holds more than this world's entries
		return
	}
	w.real[w.next] = d
	w.model[w.next] = n
	w.next = (w.next + 1) % w.slots
}

// apply runs one operation on the real registry and the model. It reports false if the
// operation does not apply (empty handle).
func (w *c04World) apply(o c04Op) bool {
	var h *tricorder.DirectorySpec
	base := w.root
	path := o.path
	if o.slot >= 0 {
		h, base = w.real[o.slot], w.model[o.slot]
		if h == nil {
			return false
		}
	} else {
		path = w.dir + "/" + o.path
		if strings.HasPrefix(o.path, "^") {
			path = o.path[1:] // relative to the real root
		}
	}
	cs := comps(path)
	defer func() {
		if r := recover(); r != nil {
			w.failf("%v: panic %v", o, r)
		}
	}()
	check := func(got, want error) bool {
		if got != want {
			w.failf("%v returned %s, want %s", o, errName(got), errName(want))
			return false
		}
		return got == nil
	}
	switch o.op {
	case "reg":
		w.counter++
		v := new(int64)
		*v = w.counter
		desc := fmt.Sprintf("desc %d", w.counter)
		unit := c04Units[int(w.counter)%len(c04Units)]
		var err error
		// all ways to register are equivalent
		g := tricorder.DefaultGroup
		switch w.counter % 3 {
		case 0:
			if h != nil {
				err = h.RegisterMetric(path, v, unit, desc)
			} else {
				err = tricorder.RegisterMetric(path, v, unit, desc)
			}
		case 1:
			if h != nil {
				err = h.RegisterMetricInGroup(path, v, g, unit, desc)
			} else {
				err = tricorder.RegisterMetricInGroup(path, v, g, unit, desc)
			}
		default:
			if h != nil {
				err = tricorder.DirectoryGroup{Group: g, Directory: h}.RegisterMetric(path, v, unit, desc)
			} else {
				err = g.RegisterMetric(path, v, unit, desc)
			}
		}
		check(err, base.register(cs, v, desc, unit))
	case "bad":
		// only where the parent exists, so that no directory is created on the way
		if len(cs) == 0 {
			return false
		}
		p, perr := base.find(cs[:len(cs)-1])
		if perr != nil {
			return false
		}
		var err error
		bad := map[string]int{}
		if h != nil {
			err = h.RegisterMetric(path, &bad, units.None, "")
		} else {
			err = tricorder.RegisterMetric(path, &bad, units.None, "")
		}
		if p.kids[cs[len(cs)-1]] != nil && err == tricorder.ErrPathInUse {
			break
		}
		check(err, tricorder.ErrWrongType)
	case "dir":
		var d *tricorder.DirectorySpec
		var err error
		if h != nil {
			d, err = h.RegisterDirectory(path)
		} else {
			d, err = tricorder.RegisterDirectory(path)
		}
		n, merr := base.mkdir(cs)
		if check(err, merr) {
			w.same(o, n, d)
			w.put(n, d)
		}
	case "get":
		d, err := tricorder.GetDirectory(path)
		n, merr := base.find(cs)
		if check(err, merr) {
			w.same(o, n, d)
			w.put(n, d)
		}
	case "unreg":
		if h != nil {
			h.UnregisterPath(path)
		} else {
			tricorder.UnregisterPath(path)
		}
		base.unregister(cs)
	case "undir":
		h.UnregisterDirectory()
		base.detach()
	}
	return true
}

var c04Probe = []string{"", "a", "b", "a/a", "a/b", "b/a", "a/b/a", "a/a/b"}

// verify compares the whole observable state.
func (w *c04World) verify(all bool) {
	var want []*mnode
	top := w.root.kids[w.top.name]
	if top != nil && top.isDir() {
		top.walk(func(m *mnode) { want = append(want, m) })
	} else if top != nil {
		want = []*mnode{top}
	}
	got := tricorder.ReadMyMetrics(w.dir)
	if len(got) != len(want) {
		w.failf("listing has %d metrics, want %d: %s", len(got), len(want), w.state())
		return
	}
	for i, m := range want {
		g := got[i]
		if g.Path != m.path() || g.Value != *m.val || g.Description != m.desc || g.Unit != m.unit {
			w.failf("listing reports %s=%v %q %q, want %s=%d %q %q", g.Path, g.Value, g.Description, g.Unit, m.path(), *m.val, m.desc, m.unit)
		}
	}
	for _, p := range c04Probe {
		cs := comps(w.dir + "/" + p)
		_, merr := w.root.find(cs)
		d, err := tricorder.GetDirectory(w.dir + "/" + p)
		if err != merr {
			w.failf("GetDirectory(%q) returned %s, want %s", p, errName(err), errName(merr))
		} else if err == nil {
			n, _ := w.root.find(cs)
			w.same(c04Op{op: "lookup", slot: -1, path: p}, n, d)
		}
	}
	if !all {
		return
	}
	rl, err := rpcList(w.dir)
	if err != nil || len(rl) != len(want) {
		w.failf("RPC listing has %d metrics, want %d (%v)", len(rl), len(want), err)
	}
	jl, err := jsonList(w.dir)
	if err != nil || len(jl) != len(want) {
		w.failf("JSON listing has %d metrics, want %d (%v)", len(jl), len(want), err)
	}
	txt := ""
	for i, m := range want {
		if i < len(rl) && (rl[i].Path != m.path() || rl[i].Value != *m.val) {
			w.failf("RPC listing reports %s, want %s", rl[i].Path, m.path())
		}
		if i < len(jl) && (jl[i].Path != m.path() || string(jl[i].Value) != fmt.Sprint(*m.val) || jl[i].Description != m.desc || jl[i].Unit != string(m.unit)) {
			w.failf("JSON listing reports %v, want %s", *jl[i], m.path())
		}
		txt += fmt.Sprintf("%s %d\n", m.path(), *m.val)
		one, err := rpcGet(m.path())
		if err != nil || one.Value != *m.val {
			w.failf("RPC lookup of %s: %v", m.path(), err)
		}
	}
	if r := fetch(textURL(w.dir)); top != nil && top.isDir() && string(r.Body) != txt {
		w.failf("text listing is %q, want %q", r.Body, txt)
	}
}

// state is a canonical form of the model, including handles and what hangs below them.
func (w *c04World) state() string {
	ids := map[*mnode]int{}
	var show func(n *mnode) string
	show = func(n *mnode) string {
		if n == nil {
			return "-"
		}
		if !n.isDir() {
			return "m"
		}
		if id, ok := ids[n]; ok {
			return fmt.Sprintf("#%d", id)
		}
		ids[n] = len(ids)
		var ks []string
		for k := range n.kids {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := fmt.Sprintf("%d{", ids[n])
		for _, k := range ks {
			s += k + ":" + show(n.kids[k]) + ","
		}
		return s + "}"
	}
	s := show(w.root)
	for i := range w.model {
		n := w.model[i]
		s += "|" + show(n)
		for p := n; p != nil && p != w.root; p = p.parent {
			s += "<" + p.name + show(p)
		}
	}
	return s + fmt.Sprint(w.next)
}

func c04Ops(slots int) []c04Op {
	var out []c04Op
	for _, p := range []string{"a", "b", "a/a", "a/b", "a/b/a"} {
		out = append(out, c04Op{"reg", -1, p}, c04Op{"unreg", -1, p})
	}
	for _, p := range []string{"a", "a/b", "b"} {
		out = append(out, c04Op{"dir", -1, p})
	}
	out = append(out, c04Op{"get", -1, "a"}, c04Op{"get", -1, "a/b"}, c04Op{"bad", -1, "a"}, c04Op{"bad", -1, "a/b"})
	for s := 0; s < slots; s++ {
		out = append(out, c04Op{"reg", s, "a"}, c04Op{"reg", s, "b/a"}, c04Op{"dir", s, "b"}, c04Op{"unreg", s, "a"}, c04Op{"unreg", s, "b"}, c04Op{"undir", s, ""})
	}
	return out
}

// c04Odd are operations on odd paths, used with the sequences of depth two.
func c04Odd() []c04Op {
	var out []c04Op
	for _, p := range []string{"", "/", "//a", "a//b", "a/ /b", " /a", "a/", "a/b/ ", "ab", "A", "a/\t/b", "\n/\u00a0/a", "a/ \r\v\f\u0085\u2003\u3000/b/\r\n"} {
		out = append(out, c04Op{"reg", -1, p}, c04Op{"dir", -1, p}, c04Op{"unreg", -1, p}, c04Op{"get", -1, p}, c04Op{"bad", -1, p},
			c04Op{"reg", 0, p}, c04Op{"dir", 0, p}, c04Op{"bad", 0, p})
		if len(comps(p)) > 0 {
			out = append(out, c04Op{"unreg", 0, p})
		}
	}
	for _, p := range []string{"^", "^/", "^ / "} {
		out = append(out, c04Op{"reg", -1, p}, c04Op{"unreg", -1, p}, c04Op{"get", -1, p}, c04Op{"dir", -1, p})
	}
	return out
}

// c04Names are different names of entries.
var c04Names = []string{"a", "A", " a", "a ", "\ta", "a\n", "a b", "a  b", ".", "..", "a.b", "-", "\u00e9", "e\u0301", "\x00", "%2F", "a%20b", "*", "\u00a0a", "\\"}

// c04Sizes are numbers of components of a path, lengths of names and numbers of entries.
var c04Sizes = func() (out []int) {
	for i := 1; i <= 40; i++ {
		out = append(out, i)
	}
	return append(out, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400)
}()

// c04Widths are numbers of entries.
var c04Widths = append(append([]int{}, c04Sizes...), 511, 513, 999, 1001, 1025)

// c04Deep runs sequences on a path of n components, or on one whose last component has n bytes.
func c04Deep(w *W, kind string, n int) {
	var cs []string
	for i := 0; i < n; i++ {
		cs = append(cs, string("ab"[i%2]))
	}
	if kind == "long" {
		cs = []string{"a", strings.Repeat("x", n-1) + "b", strings.Repeat("x", n-1) + "a"}
	}
	at := func(k int) string { return strings.Join(cs[:k], "/") }
	rest := func(k int) string { return strings.Join(cs[k:], "/") }
	n = len(cs)
	p := at(n)
	other := p[:len(p)-1] + "c"
	cuts := map[int]bool{0: true, 1: true, n / 2: true, n - 1: true, n: true}
	for k := 0; k <= n; k++ {
		if n > 40 && !cuts[k] {
			continue
		}
		// k components name a metric or a directory on the way
		c04Run(w, []c04Op{{"reg", -1, at(k)}, {"reg", -1, p}, {"get", -1, p}, {"dir", -1, p}, {"unreg", -1, at(k)}, {"reg", -1, p}, {"reg", -1, other}, {"get", -1, at(k)}}, 0)
		c04Run(w, []c04Op{{"dir", -1, at(k)}, {"reg", 0, rest(k)}, {"bad", 0, rest(k)}, {"reg", -1, p}, {"get", -1, at(k)}, {"reg", -1, other}, {"unreg", -1, p}, {"dir", -1, p}, {"reg", -1, p + "/a"}}, 1)
		if k > 0 { // unregistering the top itself is for the odd paths
			c04Run(w, []c04Op{{"reg", -1, p}, {"reg", -1, other}, {"get", -1, at(k)}, {"unreg", -1, at(k)}, {"get", -1, p}, {"get", -1, at(k - 1)}, {"reg", -1, p}, {"get", -1, at(n - 1)}}, 0)
		}
		if k < n {
			c04Run(w, []c04Op{{"dir", -1, p}, {"get", -1, at(k)}, {"unreg", 1, rest(k)}, {"get", -1, p}, {"reg", 0, "a/b"}, {"dir", -1, p}}, 2)
		}
		if k > 0 && k < n {
			c04Run(w, []c04Op{{"dir", -1, at(k)}, {"reg", -1, p}, {"undir", 0, ""}, {"reg", 0, rest(k) + "/b"}, {"reg", 0, rest(k) + "x"}, {"reg", -1, p}, {"reg", -1, other}}, 1)
		}
	}
}

// c04Wide runs sequences on a directory with n metrics and n directories.
func c04Wide(w *W, n int) {
	vsched.MapDescending = n%2 == 1 // of effect in the instrumented build only
	defer func() { vsched.MapDescending = false }()
	var ops []c04Op
	for i := 0; i < n; i++ {
		ops = append(ops, c04Op{"reg", -1, fmt.Sprintf("a/m%d", i)}, c04Op{"reg", -1, fmt.Sprintf("a/d%d/m", i)})
	}
	c04RunLast(w, append(ops, c04Op{"reg", -1, "a/m0"}, c04Op{"reg", -1, fmt.Sprintf("a/m%d", n-1)}, c04Op{"dir", -1, fmt.Sprintf("a/d%d", n/2)}, c04Op{"get", -1, "a"},
		c04Op{"unreg", -1, fmt.Sprintf("a/d%d", n/2)}, c04Op{"unreg", -1, fmt.Sprintf("a/m%d", n-1)}), len(ops)-1)
	for i := 0; i < n; i++ {
		ops = append(ops, c04Op{"unreg", -1, fmt.Sprintf("a/m%d", (i*7)%n)}, c04Op{"unreg", -1, fmt.Sprintf("a/d%d", i)})
	}
	c04RunLast(w, append(ops, c04Op{"get", -1, "a"}, c04Op{"reg", -1, "a/m0"}, c04Op{"unreg", -1, "a"}, c04Op{"reg", -1, "a"}), len(ops)-1)
}

// run executes a sequence, verifying after every step; it reports false if some step does not apply.
func c04Run(w *W, ops []c04Op, slots int) (*c04World, bool) {
	return c04RunFrom(w, ops, slots, 0)
}

// c04RunLast leaves out the comparisons after the steps before from.
func c04RunLast(w *W, ops []c04Op, from int) { c04RunFrom(w, ops, 0, from) }

func c04RunFrom(w *W, ops []c04Op, slots, from int) (*c04World, bool) {
	w.Eval()
	w.cur = func() string { return fmt.Sprint(ops) }
	cw := newC04World(slots)
	defer cw.close()
	for i, o := range ops {
		if !cw.apply(o) {
			return cw, false
		}
		w.Trans(1)
		if i < from && len(cw.errs) == 0 {
			continue
		}
		cw.verify(i == len(ops)-1)
		if len(cw.errs) > 0 {
			w.Fail("tree/"+o.op, "after %v: %s", clipTo(fmt.Sprint(ops[:i+1]), 1500), clipTo(strings.Join(cw.errs, "; "), 1500))
			return cw, false
		}
	}
	w.State(cw.state())
	w.Trace()
	w.Sample(clipTo(fmt.Sprintf("%v -> %s", ops, cw.state()), 2000))
	return cw, true
}

func c04Do(w *W, name string) {
	kind, arg, _ := strings.Cut(name, "/")
	switch kind {
	case "all": // all sequences, no merging
		depth := 4
		if w.tier == "thorough" {
			depth = 5
		}
		ops := c04Ops(1)
		var n int
		fmt.Sscan(arg, &n)
		seq := []c04Op{ops[n]}
		var rec func()
		rec = func() {
			_, ok := c04Run(w, seq, 1)
			if !ok || len(seq) == depth {
				return
			}
			for _, o := range ops {
				seq = append(seq, o)
				rec()
				seq = seq[:len(seq)-1]
			}
		}
		rec()
	case "names": // every name is an entry of its own
		var n int
		fmt.Sscan(arg, &n)
		a := c04Names[n]
		for _, b := range c04Names {
			for _, s := range []string{"%s", "d/%s", "%s/x"} {
				pa, pb := fmt.Sprintf(s, a), fmt.Sprintf(s, b)
				for _, second := range []string{"reg", "dir", "unreg", "get"} {
					c04Run(w, []c04Op{{"reg", -1, pa}, {second, -1, pb}, {"unreg", -1, pa}, {"reg", -1, pa}}, 0)
					c04Run(w, []c04Op{{"dir", -1, pa}, {second, -1, pb}, {"reg", -1, pa + "/" + b}, {"unreg", -1, pb}}, 0)
					c04Run(w, []c04Op{{"dir", -1, pa}, {second, 0, pb}, {"reg", 0, pa}, {"unreg", 0, pb}}, 1)
				}
			}
		}
	case "deep", "long", "wide":
		var from, step int
		fmt.Sscanf(arg, "%d/%d", &from, &step)
		if kind == "wide" {
			for i := from; i < len(c04Widths); i += step {
				c04Wide(w, c04Widths[i])
			}
			return
		}
		for i := from; i < len(c04Sizes); i += step {
			c04Deep(w, kind, c04Sizes[i])
		}
	case "odd":
		odd := c04Odd()
		ops := append(c04Ops(1), odd...)
		var n int
		fmt.Sscan(arg, &n)
		if _, ok := c04Run(w, []c04Op{ops[n]}, 1); !ok {
			return
		}
		for _, o := range odd {
			if _, ok := c04Run(w, []c04Op{ops[n], o}, 1); ok {
				for _, p := range c04Ops(1) {
					c04Run(w, []c04Op{ops[n], o, p}, 1)
				}
			}
		}
	case "bfs": // reachable model states, each reached by a shortest sequence
		depth := 4
		if w.tier == "thorough" {
			depth = 5
		}
		ops := c04Ops(2)
		var n int
		fmt.Sscan(arg, &n)
		seen := map[string]bool{}
		frontier := [][]c04Op{{ops[n]}}
		for d := 1; d <= depth && len(frontier) > 0; d++ {
			var next [][]c04Op
			for _, seq := range frontier {
				cw, ok := c04Run(w, seq, 2)
				if !ok || seen[cw.state()] {
					continue
				}
				seen[cw.state()] = true
				if d == depth {
					continue
				}
				for _, o := range ops {
					next = append(next, append(append([]c04Op{}, seq...), o))
				}
			}
			frontier = next
		}
	}
}

func init() {
	define(&Def{ID: "C04", Inst: true, Do: func(w *W, n string) { vsched.BeginExec(); c04Do(w, n) },
		Tasks: func(tier string) []string {
			var out []string
			for i := range c04Ops(1) {
				out = append(out, fmt.Sprintf("all/%d", i))
			}
			for i := range c04Names {
				out = append(out, fmt.Sprintf("names/%d", i))
			}
			for i := 0; i < 8; i++ {
				out = append(out, fmt.Sprintf("deep/%d/8", i), fmt.Sprintf("long/%d/8", i), fmt.Sprintf("wide/%d/8", i))
			}
			for i := range append(c04Ops(1), c04Odd()...) {
				out = append(out, fmt.Sprintf("odd/%d", i))
			}
			for i := range c04Ops(2) {
				out = append(out, fmt.Sprintf("bfs/%d", i))
			}
			return out
		},
		Rule: "all sequences of registry operations (register metric/directory, get, unregister, by absolute path and through handles, also stale ones) up to a depth, and breadth first all reachable states of the reference tree to a greater depth, sequences on long paths, long names and wide directories, each executed on the real registry and compared in full after every step"})
}
