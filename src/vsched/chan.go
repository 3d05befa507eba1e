package vsched

import (
	"fmt"
	"reflect"
)

// Channels keep their native Go type; their state lives in a side table keyed by identity.
type chState struct {
	keep   any
	cap    int
	closed bool
	buf    []chItem
	recvq  []*waiter
	sendq  []*waiter
	slot   SyncVC // clock of receivers freeing slots
	clsVC  SyncVC
	native reflect.Value
	epoch  int
	h      uint64
}

type chItem struct {
	v  any
	vc SyncVC
}

type waiter struct {
	t    *Thread
	idx  int
	v    any
	dead *bool // set when one of the select's cases fired
}

var chans = map[uintptr]*chState{}
var newChans []uintptr

func stateOf(ch any) *chState {
	rv := reflect.ValueOf(ch)
	if rv.IsNil() {
		return nil
	}
	p := rv.Pointer()
	c := chans[p]
	if c == nil {
		c = &chState{keep: ch, cap: rv.Cap(), native: rv}
		chans[p] = c
		newChans = append(newChans, p)
	}
	return c
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.dead == nil || !*w.dead {
			return w
		}
	}
	return nil
}

func liveWaiter(q []*waiter) bool {
	for _, w := range q {
		if w.dead == nil || !*w.dead {
			return true
		}
	}
	return false
}

func (c *chState) canRecv() bool {
	if c == nil {
		return false
	}
	if len(c.buf) > 0 || liveWaiter(c.sendq) || c.closed {
		return true
	}
	return c.nativeReady()
}

// nativeReady reports whether an uninstrumented party made the channel readable.
func (c *chState) nativeReady() bool {
	if c.native.Type().ChanDir()&reflect.RecvDir == 0 {
		return false
	}
	return c.native.Len() > 0
}

func (c *chState) canSend() bool {
	if c == nil {
		return false
	}
	return c.closed || len(c.buf) < c.cap || liveWaiter(c.recvq)
}

// doRecv performs an enabled receive.
func (c *chState) doRecv() (any, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		c.touch(s.cur)
		Acquire(&it.vc)
		Release(&c.slot)
		if w := popWaiter(&c.sendq); w != nil {
			c.push(w.t, w.v)
			fire(w, nil, true)
		}
		return it.v, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		c.pairEvent(w.t, s.cur)
		v := w.v
		fire(w, nil, true)
		return v, true
	}
	c.touch(s.cur)
	if c.closed {
		Acquire(&c.clsVC)
		return nil, false
	}
	x, ok := c.native.TryRecv()
	if ok {
		return x.Interface(), true
	}
	return nil, false
}

func (c *chState) push(from *Thread, v any) {
	c.touch(from)
	it := chItem{v: v}
	if s.exploring {
		it.vc.epoch = s.epoch
		it.vc.vc = from.hb().clone()
		from.vc[from.lidx]++
		c.slot.fresh()
		from.hb().join(c.slot.vc)
	}
	c.buf = append(c.buf, it)
}

func fire(w *waiter, v any, ok bool) {
	if w.dead != nil {
		*w.dead = true
	}
	w.t.selIdx, w.t.selVal, w.t.selOk = w.idx, v, ok
	if s.exploring {
		w.t.hb()
		w.t.h = mix(w.t.h, uint64(w.idx)+17)
	}
	ready(w.t)
}

// doSend performs an enabled send.
func (c *chState) doSend(v any) {
	if c.closed {
		panic("send on closed channel")
	}
	if w := popWaiter(&c.recvq); w != nil {
		c.pairEvent(s.cur, w.t)
		fire(w, v, true)
		return
	}
	c.push(s.cur, v)
}

func Send[T any](ch chan<- T, v T) {
	point()
	c := stateOf(ch)
	if c.canSend() {
		c.doSend(v)
		s.cur.selected(0)
		return
	}
	if c == nil {
		block("send on nil channel")
		return
	}
	if liveWaiter(c.sendq) {
		c.touch(s.cur)
	}
	dead := false
	c.sendq = append(c.sendq, &waiter{t: s.cur, v: v, dead: &dead})
	block(fmt.Sprintf("chan send %T", ch))
	if !s.cur.selOk {
		panic("send on closed channel")
	}
}

// SendTo is the curried form of Send.
func SendTo[T any](ch chan<- T) func(T) { return func(v T) { Send(ch, v) } }

func recv(ch any) (any, bool) {
	point()
	c := stateOf(ch)
	if c.canRecv() {
		v, ok := c.doRecv()
		s.cur.selected(0)
		return v, ok
	}
	if c == nil {
		block("receive on nil channel")
		return nil, false
	}
	if liveWaiter(c.recvq) {
		c.touch(s.cur)
	}
	dead := false
	c.recvq = append(c.recvq, &waiter{t: s.cur, dead: &dead})
	block(fmt.Sprintf("chan receive %T", ch))
	return s.cur.selVal, s.cur.selOk
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := recv(ch)
	if v == nil {
		var z T
		return z, ok
	}
	return v.(T), ok
}

func Close[T any](ch chan<- T) {
	point()
	c := stateOf(ch)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.touch(s.cur)
	c.closed = true
	close(ch)
	Release(&c.clsVC)
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		hbPair(s.cur, w.t)
		c.touch(w.t)
		fire(w, nil, false)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		fire(w, nil, false)
	}
}

func Len[T any](ch <-chan T) int {
	point()
	c := stateOf(ch)
	if c == nil {
		return 0
	}
	c.touch(s.cur)
	return len(c.buf)
}

// Case is one select case.
type Case struct {
	c    *chState
	send bool
	v    any
}

func RecvCase[T any](ch <-chan T) Case { return Case{c: stateOf(ch)} }
func SendCase[T any](ch chan<- T) func(T) Case {
	return func(v T) Case { return Case{c: stateOf(ch), send: true, v: v} }
}

// Select performs a select; the default case is index -1.
func Select(hasDefault bool, cases ...Case) (int, any, bool) {
	point()
	var ready []int
	for i, k := range cases {
		if k.send && k.c.canSend() || !k.send && k.c.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 && s.exploring {
			i = ready[s.choose(len(ready), false)]
		}
		k := cases[i]
		if k.send {
			k.c.doSend(k.v)
			s.cur.selected(i)
			return i, nil, true
		}
		v, ok := k.c.doRecv()
		s.cur.selected(i)
		return i, v, ok
	}
	if hasDefault {
		for _, k := range cases {
			k.c.touch(s.cur)
		}
		return -1, nil, false
	}
	dead := false
	for i, k := range cases {
		if k.c == nil {
			continue
		}
		if k.send && liveWaiter(k.c.sendq) || !k.send && liveWaiter(k.c.recvq) {
			k.c.touch(s.cur)
		}
		w := &waiter{t: s.cur, idx: i, v: k.v, dead: &dead}
		if k.send {
			k.c.sendq = append(k.c.sendq, w)
		} else {
			k.c.recvq = append(k.c.recvq, w)
		}
	}
	block("select")
	t := s.cur
	// drop the waiters of the other cases
	for _, k := range cases {
		if k.c == nil {
			continue
		}
		k.c.recvq = dropDead(k.c.recvq)
		k.c.sendq = dropDead(k.c.sendq)
	}
	if cases[t.selIdx].send && !t.selOk {
		panic("send on closed channel")
	}
	return t.selIdx, t.selVal, t.selOk
}

func (t *Thread) selected(i int) {
	if s.exploring {
		t.h = mix(t.h, uint64(i)+17)
	}
}

func dropDead(q []*waiter) []*waiter {
	out := q[:0]
	for _, w := range q {
		if w.dead == nil || !*w.dead {
			out = append(out, w)
		}
	}
	return out
}

// Val converts a value received by Select to the channel's element type.
func Val[T any](ch <-chan T, v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}
