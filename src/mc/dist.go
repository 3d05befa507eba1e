package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"

	"vsched"
)

// dsnap is a distribution as reported through some access path. Text and HTML report less.
type dsnap struct {
	D       messages.Distribution
	Partial bool // only min, max, average, median, sum, count and the non empty ranges
	NoStats bool // HTML of an empty distribution
	Ranges  string
	TS      string
	Gid     int
}

func rangesString(rs []*messages.RangeWithCount, skipEmpty bool) string {
	s := ""
	for i, r := range rs {
		if skipEmpty && r.Count == 0 {
			continue
		}
		lo, hi := fmt.Sprint(float32(r.Lower)), fmt.Sprint(float32(r.Upper))
		if i == 0 {
			lo = "-inf"
		}
		if i == len(rs)-1 {
			hi = "inf"
		}
		s += fmt.Sprintf("[%s,%s):%d;", lo, hi, r.Count)
	}
	return s
}

var distKinds = []string{"inproc", "rpc1", "json1", "text1", "html1", "rpc", "json", "text", "html"}

// readDist reads the distribution at dir/name.
func readDist(kind, dir, name string) (s dsnap, err error) {
	path := dir + "/" + name
	native := func(m *messages.Metric) error {
		d, ok := m.Value.(*messages.Distribution)
		if !ok {
			return fmt.Errorf("value is %T", m.Value)
		}
		s.D = *d
		s.Ranges = rangesString(d.Ranges, true)
		s.Gid = m.GroupId
		if t, ok := m.TimeStamp.(time.Time); ok {
			s.TS = tsString(t)
		}
		return nil
	}
	js := func(m *jm) error {
		if err := json.Unmarshal(m.Value, &s.D); err != nil {
			return err
		}
		s.Ranges = rangesString(s.D.Ranges, true)
		s.TS = m.TimeStamp
		s.Gid = m.GroupId
		return nil
	}
	switch kind {
	case "inproc":
		l := tricorder.ReadMyMetrics(path)
		if len(l) != 1 {
			return s, fmt.Errorf("%d metrics", len(l))
		}
		return s, native(l[0])
	case "rpc1":
		m, err := rpcGet(path)
		if err != nil {
			return s, err
		}
		err = native(m)
		return s, err
	case "rpc":
		l, err := rpcList(dir)
		if err != nil {
			return s, err
		}
		for _, m := range l {
			if m.Path == path {
				err := native(m)
				return s, err
			}
		}
		return s, fmt.Errorf("not listed")
	case "json1":
		m, err := jsonOne(path)
		if err != nil {
			return s, err
		}
		err = js(m)
		return s, err
	case "json":
		l, err := jsonList(dir)
		if err != nil {
			return s, err
		}
		for _, m := range l {
			if m.Path == path {
				err := js(m)
				return s, err
			}
		}
		return s, fmt.Errorf("not listed")
	case "text", "text1":
		p := path
		if kind == "text" {
			p = dir
		}
		r := fetch(textURL(p))
		body := string(r.Body)
		if kind == "text" {
			i := strings.Index(body, path+" ")
			if i < 0 {
				return s, fmt.Errorf("not listed")
			}
			body = body[i+len(path)+1:]
			body, _, _ = strings.Cut(body, "\n")
		}
		return parseDistText(strings.TrimSpace(body))
	case "html", "html1":
		p := path
		if kind == "html" {
			p = dir
		}
		r := fetch(htmlURL(p))
		return parseDistHTML(htmlText(string(r.Body)), path)
	}
	panic(kind)
}

// normRange writes the bounds of "[a,b)" the way rangesString does.
func normRange(r string) string {
	lo, hi, ok := strings.Cut(strings.TrimSuffix(strings.TrimPrefix(r, "["), ")"), ",")
	if !ok {
		return r
	}
	norm := func(s string) string {
		f, err := strconv.ParseFloat(s, 32)
		if err != nil || math.IsInf(f, 0) {
			return s
		}
		return fmt.Sprint(float32(f))
	}
	return "[" + norm(lo) + "," + norm(hi) + ")"
}

func parseDistText(t string) (s dsnap, err error) {
	s.Partial = true
	if len(t) < 2 || t[0] != '{' || t[len(t)-1] != '}' {
		return s, fmt.Errorf("bad text distribution %q", t)
	}
	f := strings.Split(t[1:len(t)-1], ";")
	for _, x := range f {
		i := strings.LastIndexByte(x, ':')
		if i < 0 {
			return s, fmt.Errorf("bad field %q", x)
		}
		k, v := x[:i], x[i+1:]
		n, err := strconv.ParseFloat(v, 64)
		if err != nil {
			return s, err
		}
		switch k {
		case "min":
			s.D.Min = n
		case "max":
			s.D.Max = n
		case "avg":
			s.D.Average = n
		case "median":
			s.D.Median = n
		case "sum":
			s.D.Sum = n
		case "count":
			s.D.Count = uint64(n)
		default:
			s.Ranges += normRange(k) + ":" + v + ";"
		}
	}
	return
}

func parseDistHTML(words []string, path string) (s dsnap, err error) {
	s.Partial = true
	i := 0
	for i < len(words) && words[i] != path {
		i++
	}
	if i == len(words) {
		return s, fmt.Errorf("%s not on page %v", path, words)
	}
	s.NoStats = true
	for i++; i < len(words); i++ {
		w := words[i]
		num := func() float64 {
			if i+1 < len(words) {
				n, e := strconv.ParseFloat(words[i+1], 64)
				if e != nil {
					err = e
				}
				return n
			}
			return math.NaN()
		}
		switch {
		case strings.HasPrefix(w, "/"):
			return
		case w == "min:":
			s.NoStats = false
			s.D.Min = num()
		case w == "max:":
			s.D.Max = num()
		case w == "avg:":
			s.D.Average = num()
		case w == "~median:":
			s.D.Median = num()
		case w == "sum:":
			s.D.Sum = num()
		case w == "count:":
			s.D.Count = uint64(num())
		case strings.HasSuffix(w, ":") && w != "(distribution:" && w != "unit:":
			r := strings.TrimSuffix(w, ":")
			switch {
			case strings.HasPrefix(r, "<"):
				r = "[-inf," + r[1:] + ")"
			case strings.HasPrefix(r, ">="):
				r = "[" + r[2:] + ",inf)"
			default:
				if len(r) > 1 {
					if j := strings.IndexByte(r[1:], '-'); j >= 0 {
						r = "[" + r[:j+1] + "," + r[j+2:] + ")"
					}
				}
			}
			s.Ranges += normRange(r) + ":" + words[i+1] + ";"
		}
	}
	return
}

// dstr is a comparable form of the statistics.
func (s dsnap) dstr() string {
	f := func(x float64) string {
		if s.Partial {
			return fmt.Sprint(float32(x))
		}
		return fmt.Sprint(x)
	}
	o := fmt.Sprintf("n=%d sum=%s avg=%s min=%s max=%s med=%s %s", s.D.Count, f(s.D.Sum), f(s.D.Average), f(s.D.Min), f(s.D.Max), f(s.D.Median), s.Ranges)
	if !s.Partial {
		o += fmt.Sprintf(" gen=%d nc=%v", s.D.Generation, s.D.IsNotCumulative)
	}
	return o
}

// dmodel is the reference distribution: the multiset of values and what has to be remembered.
type dmodel struct {
	ends     []float64
	vals     []float64
	min, max float64
	gen      uint64
	nc       bool
}

func (m *dmodel) note(v float64) {
	if len(m.vals) == 0 {
		m.min, m.max = v, v
	}
	m.min = math.Min(m.min, v)
	m.max = math.Max(m.max, v)
}

func (m *dmodel) add(v float64) {
	m.note(v)
	m.vals = append(m.vals, v)
	m.gen++
}

func (m *dmodel) remove(v float64) {
	for i, x := range m.vals {
		if x == v {
			m.vals = append(append([]float64{}, m.vals[:i]...), m.vals[i+1:]...)
			m.gen++
			return
		}
	}
	panic("model: no such value")
}

func (m *dmodel) update(o, n float64) {
	for i, x := range m.vals {
		if x == o {
			m.vals = append([]float64{}, m.vals...)
			m.vals[i] = n
			m.min = math.Min(m.min, n)
			m.max = math.Max(m.max, n)
			m.gen++
			return
		}
	}
	panic("model: no such value")
}

func (m *dmodel) has(v float64) bool {
	for _, x := range m.vals {
		if x == v {
			return true
		}
	}
	return false
}

func rangeOf(ends []float64, v float64) int {
	i := 0
	for i < len(ends) && v >= ends[i] {
		i++
	}
	return i
}

func (m *dmodel) sum() (t float64) {
	for _, v := range m.vals {
		t += v
	}
	return
}

func (m *dmodel) ranges(all bool) string {
	var rs []*messages.RangeWithCount
	for i := 0; i <= len(m.ends); i++ {
		r := &messages.RangeWithCount{}
		if i > 0 {
			r.Lower = m.ends[i-1]
		}
		if i < len(m.ends) {
			r.Upper = m.ends[i]
		}
		for _, v := range m.vals {
			if rangeOf(m.ends, v) == i {
				r.Count++
			}
		}
		rs = append(rs, r)
	}
	return rangesString(rs, !all)
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// compare judges a reported distribution; the median is only checked by checkMedian.
func (m *dmodel) compare(s dsnap) error {
	n := uint64(len(m.vals))
	if s.NoStats {
		if n != 0 {
			return fmt.Errorf("no statistics shown for %d values", n)
		}
		return nil
	}
	eq := func(a, b float64) bool {
		if s.Partial {
			return near(float64(float32(a)), float64(float32(b)))
		}
		return near(a, b)
	}
	if s.D.Count != n {
		return fmt.Errorf("count is %d, want %d", s.D.Count, n)
	}
	sum, avg, min, max := m.sum(), 0.0, 0.0, 0.0
	if n > 0 {
		avg, min, max = sum/float64(n), m.min, m.max
	}
	switch {
	case !eq(s.D.Sum, sum):
		return fmt.Errorf("sum is %v, want %v", s.D.Sum, sum)
	case !eq(s.D.Average, avg):
		return fmt.Errorf("average is %v, want %v", s.D.Average, avg)
	case !eq(s.D.Min, min):
		return fmt.Errorf("min is %v, want %v", s.D.Min, min)
	case !eq(s.D.Max, max):
		return fmt.Errorf("max is %v, want %v", s.D.Max, max)
	case s.Ranges != m.ranges(false):
		return fmt.Errorf("ranges are %s, want %s", s.Ranges, m.ranges(false))
	}
	if n == 0 && s.D.Median != 0 {
		return fmt.Errorf("median of nothing is %v", s.D.Median)
	}
	if s.Partial {
		return nil
	}
	if s.D.Generation != m.gen {
		return fmt.Errorf("generation is %d, want %d", s.D.Generation, m.gen)
	}
	if s.D.IsNotCumulative != m.nc {
		return fmt.Errorf("not-cumulative marking is %v, want %v", s.D.IsNotCumulative, m.nc)
	}
	if got := rangesString(s.D.Ranges, false); got != m.ranges(true) {
		return fmt.Errorf("ranges are %s, want %s", got, m.ranges(true))
	}
	return nil
}

// checkMedian judges the median estimate.
func (m *dmodel) checkMedian(s dsnap) error {
	n := len(m.vals)
	if n == 0 || s.NoStats {
		return nil
	}
	med := s.D.Median
	slack := 1e-9 * math.Max(1, math.Max(math.Abs(m.min), math.Abs(m.max)))
	if s.Partial {
		slack = 1e-5 * math.Max(1, math.Max(math.Abs(m.min), math.Abs(m.max)))
	}
	if math.IsNaN(med) || med < s.D.Min-slack || med > s.D.Max+slack {
		return fmt.Errorf("median %v is outside [min %v, max %v]", med, s.D.Min, s.D.Max)
	}
	if n <= 2 {
		if want := m.sum() / float64(n); math.Abs(med-want) > slack {
			return fmt.Errorf("median of %v is %v, want exactly %v", m.vals, med, want)
		}
		return nil
	}
	v := append([]float64{}, m.vals...)
	sort.Float64s(v)
	lo, hi := v[(n-1)/2], v[n/2]
	rl, rh := rangeOf(m.ends, lo), rangeOf(m.ends, hi)
	if rl > 0 && med < m.ends[rl-1]-slack {
		return fmt.Errorf("median %v of %v lies below the range that holds the middle value %v", med, v, lo)
	}
	if rh < len(m.ends) && med > m.ends[rh]+slack {
		return fmt.Errorf("median %v of %v lies above the range that holds the middle value %v", med, v, hi)
	}
	return nil
}

// narrow judges and adopts the minimum and maximum that UpdateMinMax left behind:
// they may move towards those of the values held, and not beyond.
func (m *dmodel) narrow(s dsnap) error {
	if s.D.Generation == m.gen+1 {
		m.gen++
	}
	if len(m.vals) == 0 {
		return nil
	}
	lo, hi := m.vals[0], m.vals[0]
	for _, v := range m.vals {
		lo, hi = math.Min(lo, v), math.Max(hi, v)
	}
	if !(s.D.Min >= m.min && s.D.Min <= lo) || !(s.D.Max <= m.max && s.D.Max >= hi) {
		return fmt.Errorf("min %v and max %v after UpdateMinMax, want within [%v, %v] and [%v, %v]", s.D.Min, s.D.Max, m.min, lo, hi, m.max)
	}
	m.min, m.max = s.D.Min, s.D.Max
	return nil
}

// adist is either kind of distribution.
type adist interface{ Add(value interface{}) }

type dop struct {
	op   string // add, upd, rem
	a, b float64
}

func (o dop) String() string {
	switch o.op {
	case "upd":
		return fmt.Sprintf("update(%v->%v)", o.a, o.b)
	case "rem":
		return fmt.Sprintf("remove(%v)", o.a)
	case "mm":
		return "updateMinMax"
	}
	return fmt.Sprintf("add(%v)", o.a)
}

func (m *dmodel) apply(o dop) {
	switch o.op {
	case "add":
		m.add(o.a)
	case "upd":
		m.update(o.a, o.b)
	case "rem":
		m.remove(o.a)
	}
}

// asValue passes small integers alternately as float64 and float32.
func asValue(v float64, n int) any {
	if n%2 == 1 && float64(float32(v)) == v {
		return float32(v)
	}
	return v
}

func applyDist(d adist, o dop, n int) {
	switch o.op {
	case "add":
		d.Add(asValue(o.a, n))
	case "upd":
		d.(*tricorder.NonCumulativeDistribution).Update(asValue(o.a, n), asValue(o.b, n+1))
	case "rem":
		d.(*tricorder.NonCumulativeDistribution).Remove(asValue(o.a, n))
	case "mm":
		d.(*tricorder.NonCumulativeDistribution).UpdateMinMax()
	}
}

func newDist(ends []float64, nc bool) adist {
	b := tricorder.NewArbitraryBucketer(ends...)
	if nc {
		return b.NewNonCumulativeDistribution()
	}
	return b.NewCumulativeDistribution()
}

// distSeq enumerates all operation sequences over the given values, checking after every step.
func distSeq(w *W, id string, ends, values []float64, nc, mm bool, depth, maxHeld int, first int, judge func(m *dmodel, s dsnap) error) {
	var seq []dop
	var rec func(m dmodel)
	ops := func(m *dmodel) []dop {
		var out []dop
		if len(m.vals) < maxHeld {
			for _, v := range values {
				out = append(out, dop{op: "add", a: v})
			}
		}
		if nc {
			for _, v := range values {
				if m.has(v) {
					out = append(out, dop{op: "rem", a: v})
					for _, u := range values {
						out = append(out, dop{op: "upd", a: v, b: u})
					}
				}
			}
		}
		if mm && len(seq) > 0 && seq[len(seq)-1].op != "mm" {
			out = append(out, dop{op: "mm"})
		}
		return out
	}
	run := func() {
		w.Eval()
		w.cur = func() string { return fmt.Sprint(seq) }
		execCount++
		dir := fmt.Sprintf("/x%d", execCount)
		d := newDist(ends, nc)
		m := &dmodel{ends: ends, nc: nc}
		must(tricorder.RegisterMetric(dir+"/d", d, units.None, ""))
		defer tricorder.UnregisterPath(dir)
		for i := 0; i <= len(seq); i++ {
			if i > 0 {
				applyDist(d, seq[i-1], i)
				m.apply(seq[i-1])
				w.Trans(1)
				if seq[i-1].op == "mm" {
					s, err := readDist("inproc", dir, "d")
					if err == nil {
						err = m.narrow(s)
					}
					if err != nil {
						w.Fail(id+"/narrow", "bucket ends %v, after %v: %v", ends, seq[:i], err)
					}
				}
				if n, ok := d.(*tricorder.NonCumulativeDistribution); ok {
					if n.Count() != uint64(len(m.vals)) || len(m.vals) > 0 && !near(n.Sum(), m.sum()) {
						w.Fail(id+"/count-sum", "after %v Count() is %d and Sum() is %v, want %d and %v", seq[:i], n.Count(), n.Sum(), len(m.vals), m.sum())
					}
				}
			}
			kinds := []string{"inproc"}
			if i == len(seq) {
				kinds = []string{"inproc", "json1", "text", "rpc1", "html1"}
				if len(seq) == depth { // the innermost sequences dominate the cost
					kinds = []string{distKinds[int(w.out.Evals)%5]}
				}
			} else if i < len(seq)-1 {
				continue // judged as a sequence of its own
			}
			for _, k := range kinds {
				s, err := readDist(k, dir, "d")
				if err == nil {
					err = judge(m, s)
				}
				if err != nil {
					w.Fail(id+"/"+k, "bucket ends %v, non-cumulative=%v, after %v through %s: %v", ends, nc, seq[:i], k, err)
				}
			}
		}
		sort.Float64s(m.vals)
		w.State(fmt.Sprint(ends, nc, m.vals, m.min, m.max, m.gen))
		w.Trace()
		w.Sample(fmt.Sprint(seq))
	}
	rec = func(m dmodel) {
		run()
		if len(seq) == depth {
			return
		}
		for i, o := range ops(&m) {
			if len(seq) == 0 && first >= 0 && i != first {
				continue
			}
			m2 := m
			m2.vals = append([]float64{}, m.vals...)
			m2.apply(o)
			seq = append(seq, o)
			rec(m2)
			seq = seq[:len(seq)-1]
		}
	}
	rec(dmodel{ends: ends, nc: nc})
}

type distConf struct {
	ends, values []float64
	nc           bool
	depth, held  int
	mm           bool
}

// c07Confs are the enumerated alphabets.
func c07Confs(tier string) []distConf {
	t := 0
	if tier == "thorough" {
		t = 1
	}
	return []distConf{
		{[]float64{0, 10}, []float64{-5, 0, 3, 10, 25}, true, 4 + t, 4, false},
		{[]float64{0, 10}, []float64{-5, 7}, true, 7 + t, 3, false},
		{[]float64{0, 10}, []float64{-5, -3, 12}, true, 5 + t, 3, false},
		{[]float64{1, 2, 4, 8}, []float64{0, 1, 2, 8}, false, 6 + t, 8, false},
		{[]float64{5}, []float64{-1000000, 5, 1 << 40}, true, 5 + t, 4, false},
		{[]float64{0, 10}, []float64{-5, 4, 12}, true, 5 + t, 3, true},
	}
}

func init() {
	tasks := func(tier string) []string {
		var out []string
		for i, c := range c07Confs(tier) {
			for f := range c.values {
				out = append(out, fmt.Sprintf("conf/%d/%d", i, f))
			}
		}
		return out
	}
	define(&Def{ID: "C07", Inst: true, Tasks: func(tier string) []string {
		out := tasks(tier)
		for i := range c07Longs {
			out = append(out, fmt.Sprintf("long/%d", i))
		}
		return out
	}, Do: func(w *W, name string) {
		vsched.BeginExec()
		var i, f int
		if _, err := fmt.Sscanf(name, "long/%d", &i); err == nil {
			c07Long(w, i)
			return
		}
		fmt.Sscanf(name, "conf/%d/%d", &i, &f)
		c := c07Confs(w.tier)[i]
		distSeq(w, "stats", c.ends, c.values, c.nc, c.mm, c.depth, c.held, f, (*dmodel).compare)
	}, Rule: "all sequences of add, update and remove over small value alphabets (negative, zero, range boundaries, large) up to the depth on the real distributions, compared with the multiset after every step through every access path; UpdateMinMax at every point of such sequences; and histories of 65538 (thorough: a million) adds, updates and removals judged at all sizes up to 300 and around the powers of two; all sequences with NaN, the infinities and negative zero, whose counts are judged"})

	define(&Def{ID: "C09", Inst: true, Tasks: func(tier string) []string {
		var out []string
		for i := range c09Confs {
			for f := range c09Confs[i].values {
				out = append(out, fmt.Sprintf("sets/%d/%d", i, f))
			}
		}
		for _, t := range tasks(tier) {
			out = append(out, t)
		}
		return out
	}, Do: func(w *W, name string) {
		vsched.BeginExec()
		var i, f int
		if _, err := fmt.Sscanf(name, "conf/%d/%d", &i, &f); err == nil {
			c := c07Confs(w.tier)[i]
			distSeq(w, "median", c.ends, c.values, c.nc, c.mm, c.depth, c.held, f, (*dmodel).checkMedian)
			return
		}
		fmt.Sscanf(name, "sets/%d/%d", &i, &f)
		c09Sets(w, i, f)
	}, Rule: "all multisets of values up to a size over alphabets that cover every range, its boundaries and gaps between occupied ranges, and all add/update/remove sequences of C07; the median of every reached distribution is judged against the sorted values; counts up to 65536 in every combination over three ranges; and values in every one or two ranges of bucketers of up to 257 (thorough: 1025) endpoints"})
}

var c07Longs = []distConf{
	{ends: []float64{0, 10}, values: []float64{3}, nc: true},
	{ends: []float64{0, 10}, values: []float64{-5, 0, 3, 10, 25}, nc: true},
	{ends: []float64{1, 2, 4, 8}, values: []float64{1, 7, 100}},
	{ends: []float64{5}, values: []float64{9}},
}

// c07Long fills a distribution far beyond what the sequences reach, then moves and removes all values again,
// and judges it at every size up to 300 and around every power of two.
func c07Long(w *W, conf int) {
	c := c07Longs[conf]
	size := 1<<16 + 2
	if w.tier == "thorough" {
		size = 1<<20 + 2
	}
	execCount++
	dir := fmt.Sprintf("/x%d", execCount)
	d := newDist(c.ends, c.nc)
	m := &dmodel{ends: c.ends, nc: c.nc}
	must(tricorder.RegisterMetric(dir+"/d", d, units.None, ""))
	defer tricorder.UnregisterPath(dir)
	step := ""
	w.cur = func() string { return step }
	look := func(n int, doing string) {
		if !interesting(n) && n != size {
			return
		}
		step = fmt.Sprintf("%s %d", doing, n)
		w.Eval()
		kinds := []string{distKinds[n%5]}
		if n > 300 {
			kinds = distKinds
		}
		for _, k := range kinds {
			s, err := readDist(k, dir, "d")
			if err == nil {
				err = m.compare(s)
			}
			if err != nil {
				w.Fail("long/"+k, "bucket ends %v, non-cumulative=%v, values %v in turn, %s value %d, through %s: %v", c.ends, c.nc, c.values, doing, n, k, err)
			}
		}
		if nd, ok := d.(*tricorder.NonCumulativeDistribution); ok && (nd.Count() != uint64(len(m.vals)) || len(m.vals) > 0 && !near(nd.Sum(), m.sum())) {
			w.Fail("long/count-sum", "%s value %d: Count() is %d and Sum() is %v, want %d and %v", doing, n, nd.Count(), nd.Sum(), len(m.vals), m.sum())
		}
		w.State(fmt.Sprint(conf, doing, n))
		w.Trace()
	}
	for i := 1; i <= size; i++ {
		v := c.values[i%len(c.values)]
		d.Add(v)
		m.add(v)
		w.Trans(1)
		look(i, "added")
	}
	if !c.nc {
		return
	}
	nd := d.(*tricorder.NonCumulativeDistribution)
	for i := 1; i <= size; i++ {
		o, n := m.vals[i-1], c.values[(i*i)%len(c.values)]
		nd.Update(o, n)
		m.vals[i-1] = n
		m.note(n)
		m.gen++
		w.Trans(1)
		look(i, "updated")
	}
	for i := size; i >= 1; i-- {
		v := m.vals[len(m.vals)-1]
		nd.Remove(v)
		m.vals = m.vals[:len(m.vals)-1]
		m.gen++
		w.Trans(1)
		look(i-1, "removed down to")
	}
}

// interesting sizes: all small ones and the neighbours of the powers of two.
func interesting(n int) bool {
	if n <= 300 {
		return true
	}
	for p := 512; p <= 1<<24; p *= 2 {
		if n >= p-1 && n <= p+1 {
			return true
		}
	}
	return false
}

var c09Confs = []distConf{
	{ends: []float64{0, 10, 20}, values: []float64{-7, -1, 0, 9, 10, 15, 20, 99}},
	{ends: []float64{1, 2, 4, 8, 16}, values: []float64{0.5, 1, 1.5, 3, 5, 12, 16, 1000}},
	{ends: []float64{5}, values: []float64{-100, 0, 4.5, 5, 6, 700}},
	{ends: []float64{-20, -10, 0}, values: []float64{-1000, -25, -20, -15, -1, 0, 3}},
	{ends: []float64{1e-9, 1e3, 1e9}, values: []float64{-1e12, 0, 5e-10, 1, 999, 1e5, 1e15}},
}

// c09Sets adds every multiset of values whose smallest element is the given one.
func c09Sets(w *W, conf, first int) {
	size := 6
	if w.tier == "thorough" {
		size = 9
	}
	c := c09Confs[conf]
	cnt := make([]int, len(c.values))
	var rec func(i, left int)
	run := func() {
		for _, nc := range []bool{false, true} {
			w.Eval()
			w.cur = func() string { return fmt.Sprint(c.values, cnt) }
			execCount++
			dir := fmt.Sprintf("/x%d", execCount)
			d := newDist(c.ends, nc)
			m := &dmodel{ends: c.ends, nc: nc}
			must(tricorder.RegisterMetric(dir+"/d", d, units.None, ""))
			for i := range cnt {
				k := i
				if nc { // the other insertion order
					k = len(cnt) - 1 - i
				}
				for j := 0; j < cnt[k]; j++ {
					d.Add(c.values[k])
					m.add(c.values[k])
				}
			}
			kind := distKinds[int(w.out.Evals)%5]
			s, err := readDist(kind, dir, "d")
			if err == nil {
				err = m.checkMedian(s)
			}
			if err != nil {
				w.Fail("median/"+kind, "bucket ends %v, values %v: %v", c.ends, m.vals, err)
			}
			w.Trans(len(m.vals))
			w.State(fmt.Sprint(conf, cnt, nc))
			w.Trace()
			w.Sample(fmt.Sprint(c.ends, m.vals))
			tricorder.UnregisterPath(dir)
		}
	}
	rec = func(i, left int) {
		if i == len(cnt) {
			run()
			return
		}
		for k := 0; k <= left; k++ {
			cnt[i] = k
			rec(i+1, left-k)
		}
		cnt[i] = 0
	}
	for k := 1; k <= size; k++ {
		cnt[first] = k
		rec(first+1, size-k)
	}
}
