package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the code under test. One runs at a time; it runs until it
// blocks or ends. Two schedules are explored: a new goroutine runs at once, or
// only when its creator blocks or is done. Where a select can go several ways,
// all are explored. Timers fire when nothing else can run, and, the first three
// times that something waits while there is one, also before that.

type gor struct {
	id      int
	f       func()
	wake    chan struct{}
	ready   func() bool // may it go on
	started bool
	done    bool

	depth     int
	goroutine int
	curInstr  ssa.Instruction
	site      uint32
	held      []heldLock
}

type timer struct {
	at   int64
	fire func()
	off  bool
}

// elsewhere is where the ids of those that nd.Elsewhere stands for begin.
const elsewhere = 1000

type sched struct {
	cur    *gor
	all    []*gor // in order of creation, the path's own first
	floor  int    // those before it rest, until the nd.Alone under way is over
	timers []*timer
	now    int64
	slow   int  // how often a timer could be first
	late   bool // a timer was first
	lazy   bool
	fail   any // ends the path
	killed bool
	dead   bool
	back   chan struct{} // a killed goroutine is gone
}

func (m *Machine) scheduler() *sched {
	if m.sched == nil {
		main := &gor{wake: make(chan struct{}), started: true}
		m.sched = &sched{cur: main, all: []*gor{main}, back: make(chan struct{})}
		v := m.tb.Var("a new goroutine waits", SBool)
		m.sched.lazy = m.branch(v)
	}
	return m.sched
}

var always = func() bool { return true }

func (m *Machine) spawn(f func()) {
	if !m.trailOn {
		m.unsupported("go statement in an initialiser")
	}
	s := m.scheduler()
	if len(s.all) > 40 {
		m.unsupported("more than 40 goroutines")
	}
	g := &gor{id: len(s.all), goroutine: len(s.all), f: f, wake: make(chan struct{}), ready: always}
	s.all = append(s.all, g)
	if s.lazy {
		return
	}
	s.cur.ready = always
	m.switchTo(g)
}

// switchTo lets g go on, and returns when it is the caller's turn again.
func (m *Machine) switchTo(g *gor) {
	s := m.sched
	c := s.cur
	if c == g {
		return
	}
	m.leave(c)
	m.start(g)
	<-c.wake
	m.enter(c)
}

func (m *Machine) leave(c *gor) {
	c.depth, c.curInstr, c.site, c.goroutine = m.depth, m.curInstr, m.site, m.goroutine
	if m.race != nil {
		c.held = m.race.held
	}
}

func (m *Machine) enter(c *gor) {
	s := m.sched
	m.depth, m.curInstr, m.site, m.goroutine = c.depth, c.curInstr, c.site, c.goroutine
	if m.race != nil {
		m.race.held = c.held
	}
	if s.killed && c != s.all[0] {
		panic(pathAbort{"killed", ""})
	}
	if c == s.all[0] && s.fail != nil {
		f := s.fail
		s.fail = nil
		panic(f)
	}
}

func (m *Machine) start(g *gor) {
	s := m.sched
	s.cur = g
	if g.started {
		g.wake <- struct{}{}
		return
	}
	g.started = true
	go func() {
		defer func() {
			r := recover()
			g.done = true
			if s.killed {
				s.back <- struct{}{}
				return
			}
			if t, ok := r.(targetPanic); ok {
				r = nil
				func() {
					defer func() { r = recover() }()
					m.fatal("panic in a goroutine: " + m.panicString(t.v))
				}()
			}
			if r != nil {
				s.fail = r
				m.start(s.all[0])
				return
			}
			n := m.pick(g)
			if n == nil {
				s.dead = true
				n = s.all[0]
			}
			m.start(n)
		}()
		m.enter(g)
		g.f()
	}()
}

// pick chooses who runs next: the oldest that can, else who a timer wakes.
func (m *Machine) pick(c *gor) *gor {
	s := m.sched
	first := func() (t *timer) {
		for _, x := range s.timers {
			if !x.off && (t == nil || x.at < t.at) {
				t = x
			}
		}
		return t
	}
	fire := func(t *timer) {
		m.stopTimer(t)
		s.now = max(s.now, t.at)
		t.fire()
	}
	// the others may be slower than a timer
	if t := first(); t != nil && !c.done && s.slow < 3 {
		s.slow++
		m.fresh++
		if m.branch(m.tb.Var(fmt.Sprintf("slow!%d", m.fresh), SBool)) {
			s.late = true
			fire(t)
			if c.ready() {
				return c
			}
		}
	}
	for {
		for i, g := range s.all {
			if g != c && !g.done && (i == 0 || i >= s.floor) && g.ready != nil && g.ready() {
				return g
			}
		}
		if !c.done && c.ready() {
			return c
		}
		t := first()
		if t == nil {
			return nil
		}
		fire(t)
	}
}

// block waits until ready.
func (m *Machine) block(ready func() bool) {
	s := m.scheduler()
	c := s.cur
	c.ready = ready
	for !ready() {
		n := m.pick(c)
		if n == nil {
			if c != s.all[0] {
				s.dead = true
				n = s.all[0]
			} else {
				m.asleep()
			}
		}
		m.switchTo(n)
		if s.dead && c == s.all[0] {
			m.asleep()
		}
	}
	c.ready = nil
}

// asleep: nothing can go on.
func (m *Machine) asleep() {
	s := m.sched
	if m.goroutine >= elsewhere || s.floor > 1 {
		panic(pathAbort{"assume", "waits for another goroutine"})
	}
	m.fatal("all goroutines are asleep - deadlock!")
}

// drain runs the goroutines, from the floor on, that can run.
func (m *Machine) drain() {
	s := m.sched
	if s == nil {
		return
	}
	for {
		var n *gor
		for i, g := range s.all {
			if i > 0 && i >= s.floor && !g.done && g.ready != nil && g.ready() {
				n = g
				break
			}
		}
		if n == nil {
			return
		}
		s.cur.ready = always
		m.switchTo(n)
	}
}

// kill ends the goroutines from the i-th on.
func (m *Machine) kill(i int) {
	s := m.sched
	if s == nil {
		return
	}
	c := s.cur
	m.leave(c)
	s.killed = true
	for _, g := range s.all[i:] {
		if g.started && !g.done {
			g.wake <- struct{}{}
			<-s.back
		}
	}
	s.killed = false
	s.all = s.all[:i]
	m.depth, m.curInstr, m.site, m.goroutine = c.depth, c.curInstr, c.site, c.goroutine
}

// apart runs f with the goroutines it starts, and ends those.
func (m *Machine) apart(f func() Value) Value {
	if m.sched == nil {
		// whether there will be goroutines is not known yet
		r := f()
		if m.sched != nil {
			m.drain()
			m.kill(1)
			m.sched.timers = nil
		}
		return r
	}
	s := m.sched
	if s.cur != s.all[0] {
		m.unsupported("nd.Alone in a goroutine")
	}
	floor, timers, now := s.floor, s.timers, s.now
	s.floor, s.timers = len(s.all), nil
	defer func() { s.floor, s.timers, s.now = floor, timers, now }()
	r := f()
	m.drain()
	m.kill(s.floor)
	return r
}

func (m *Machine) addTimer(d Value, fire func()) *timer {
	s := m.scheduler()
	n, ok := d.(int64)
	if !ok {
		n = 1
	}
	t := &timer{at: s.now + max(n, 0), fire: fire}
	s.timers = append(s.timers, t)
	return t
}

func (m *Machine) stopTimer(t *timer) {
	old := t.off
	t.off = true
	m.trailFn(func() { t.off = old })
}

// ---------- channels

type waiter struct {
	done bool
	n    int // which case of the select
	v    Value
	ok   bool
	send bool
}
type chanWait struct {
	w *waiter
	n int
	v Value // to send
}

// Chan is what a channel's cell holds.
type Chan struct {
	size   int
	buf    []Value
	closed bool
	recvq  []chanWait
	sendq  []chanWait
}

func (m *Machine) makeChan(n int) Value {
	p := new(Value)
	*p = &Chan{size: n}
	return p
}

func (m *Machine) chanOf(v Value) *Chan {
	q, ok := v.(*Value)
	if !ok {
		m.unsupported("channel %T", v)
	}
	if q == nil {
		return nil
	}
	c, ok := (*q).(*Chan)
	if !ok {
		m.unsupported("channel of %T", *q)
	}
	return c
}

// change keeps a channel's state for the way back.
func (m *Machine) change(c *Chan) {
	old := *c
	m.trailFn(func() { *c = old })
}
func (m *Machine) finish(w *waiter, n int, v Value, ok bool) {
	old := *w
	m.trailFn(func() { *w = old })
	w.done, w.n, w.v, w.ok = true, n, v, ok
}

func live(q []chanWait) []chanWait {
	for len(q) > 0 && q[0].w.done {
		q = q[1:]
	}
	return q
}

func (c *Chan) canRecv() bool {
	return c != nil && (len(c.buf) > 0 || c.closed || len(live(c.sendq)) > 0)
}
func (c *Chan) canSend() bool {
	return c != nil && (c.closed || len(c.buf) < c.size || len(live(c.recvq)) > 0)
}

// take receives from a channel that can be received from.
func (m *Machine) take(c *Chan) (Value, bool) {
	m.sync(c, true, true)
	m.change(c)
	q := live(c.sendq)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:len(c.buf):len(c.buf)]
		if len(q) > 0 {
			c.buf = append(c.buf, q[0].v)
			c.sendq = q[1:]
			m.finish(q[0].w, q[0].n, nil, true)
		}
		return v, true
	}
	if len(q) > 0 {
		c.sendq = q[1:]
		m.finish(q[0].w, q[0].n, nil, true)
		return q[0].v, true
	}
	return nil, false
}

func (m *Machine) put(c *Chan, v Value) {
	if c.closed {
		panic(targetPanic{m.mkError("send on closed channel"), m.pos()})
	}
	m.sync(c, true, true)
	m.change(c)
	if q := live(c.recvq); len(q) > 0 {
		c.recvq = q[1:]
		m.finish(q[0].w, q[0].n, v, true)
		return
	}
	c.buf = append(c.buf[:len(c.buf):len(c.buf)], v)
}

func (m *Machine) closeChan(v Value) {
	c := m.chanOf(v)
	if c == nil {
		panic(targetPanic{m.mkError("close of nil channel"), m.pos()})
	}
	if c.closed {
		panic(targetPanic{m.mkError("close of closed channel"), m.pos()})
	}
	m.sync(c, true, true)
	m.change(c)
	c.closed = true
	for _, w := range c.recvq {
		if !w.w.done {
			m.finish(w.w, w.n, nil, false)
		}
	}
	for _, w := range c.sendq {
		if !w.w.done {
			m.finish(w.w, w.n, nil, false)
		}
	}
	c.recvq, c.sendq = nil, nil
}

type chanCase struct {
	c    *Chan
	send bool
	v    Value
}

// choose does one of the cases, and returns which, and what it received.
func (m *Machine) choose(cs []chanCase, blocking bool) (int, Value, bool) {
	var can []int
	for i, x := range cs {
		if x.send && x.c.canSend() || !x.send && x.c.canRecv() {
			can = append(can, i)
		}
	}
	if len(can) > 0 {
		i := can[len(can)-1]
		for _, k := range can[:len(can)-1] {
			m.fresh++
			if m.branch(m.tb.Var(fmt.Sprintf("select!%d", m.fresh), SBool)) {
				i = k
				break
			}
		}
		if cs[i].send {
			m.put(cs[i].c, cs[i].v)
			return i, nil, false
		}
		v, ok := m.take(cs[i].c)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	w := &waiter{}
	for i, x := range cs {
		if x.c == nil {
			continue
		}
		m.change(x.c)
		if x.send {
			x.c.sendq = append(x.c.sendq[:len(x.c.sendq):len(x.c.sendq)], chanWait{w, i, x.v})
		} else {
			x.c.recvq = append(x.c.recvq[:len(x.c.recvq):len(x.c.recvq)], chanWait{w, i, nil})
		}
	}
	m.block(func() bool { return w.done })
	x := cs[w.n]
	m.sync(x.c, true, true)
	if x.send && !w.ok {
		panic(targetPanic{m.mkError("send on closed channel"), m.pos()})
	}
	return w.n, w.v, w.ok
}

func (m *Machine) recv(ch Value, elem types.Type) (Value, bool) {
	_, v, ok := m.choose([]chanCase{{c: m.chanOf(ch)}}, true)
	if !ok {
		v = zero(elem)
	}
	return v, ok
}

func (m *Machine) send(ch, v Value) {
	m.choose([]chanCase{{c: m.chanOf(ch), send: true, v: copyVal(v)}}, true)
}

func (fr *frame) doSelect(in *ssa.Select, ci *cinstr) Value {
	m := fr.m
	var cs []chanCase
	for i, s := range in.States {
		// the operands are the channel and the value to send of each state
		x := chanCase{c: m.chanOf(fr.get(&ci.ops[2*i])), send: s.Dir == types.SendOnly}
		if x.send {
			x.v = copyVal(fr.get(&ci.ops[2*i+1]))
		}
		cs = append(cs, x)
	}
	n, v, ok := m.choose(cs, in.Blocking)
	t := Tuple{int64(n), ok}
	for i, s := range in.States {
		if s.Dir == types.SendOnly {
			continue
		}
		e := zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
		if i == n && ok {
			e = v
		}
		t = append(t, e)
	}
	return t
}

func init() {
	simple := func(f func(m *Machine, fr *frame, a []Value) Value) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return f(m, fr, a) }
	}
	cell := func(m *Machine, v Value) *Value {
		q, ok := v.(*Value)
		if !ok {
			m.unsupported("sync object %T", v)
		}
		if q == nil {
			m.nilDeref()
		}
		return q
	}
	add := func(m *Machine, v Value, n int) {
		q := cell(m, v)
		old := m.wgs[q]
		if old+n < 0 {
			panic(targetPanic{m.mkError("sync: negative WaitGroup counter"), m.pos()})
		}
		m.sync(q, true, false)
		m.wgs[q] = old + n
		m.trailFn(func() { m.wgs[q] = old })
	}
	reg("(*sync.WaitGroup).Add", simple(func(m *Machine, fr *frame, a []Value) Value {
		add(m, a[0], int(m.concInt(a[1])))
		return nil
	}))
	reg("(*sync.WaitGroup).Done", simple(func(m *Machine, fr *frame, a []Value) Value {
		add(m, a[0], -1)
		return nil
	}))
	reg("(*sync.WaitGroup).Wait", simple(func(m *Machine, fr *frame, a []Value) Value {
		q := cell(m, a[0])
		if m.wgs[q] > 0 {
			m.block(func() bool { return m.wgs[q] == 0 })
		}
		m.sync(q, false, true)
		return nil
	}))
	reg("(*sync.WaitGroup).Go", simple(func(m *Machine, fr *frame, a []Value) Value {
		add(m, a[0], 1)
		m.spawn(func() {
			m.callValue(a[1], nil, nil)
			add(m, a[0], -1)
		})
		return nil
	}))
	reg("runtime.Gosched", simple(func(m *Machine, fr *frame, a []Value) Value {
		if m.sched != nil {
			first := true
			m.block(func() bool { f := first; first = false; return !f })
		}
		return nil
	}))
	reg("time.Sleep", simple(func(m *Machine, fr *frame, a []Value) Value {
		if m.sched != nil {
			up := false
			m.addTimer(a[0], func() { up = true })
			m.block(func() bool { return up })
		}
		return nil
	}))
	now := func(m *Machine) Value {
		return m.call(m.prog.pkgs["time"].Func("Now"), nil, nil, nil)
	}
	after := func(m *Machine, d Value) (Value, *timer) {
		ch := m.makeChan(1)
		c := m.chanOf(ch)
		t := m.addTimer(d, func() {
			if c.canSend() {
				m.put(c, now(m))
			}
		})
		return ch, t
	}
	timerOf := func(m *Machine, ch Value, t *timer) Value {
		p := new(Value)
		*p = zero(m.prog.typ("time", "Timer"))
		(*p).(Struct)[0] = ch
		if m.extra["timers"] == nil {
			m.extra["timers"] = map[*Value]*timer{}
		}
		m.extra["timers"].(map[*Value]*timer)[p] = t
		return p
	}
	reg("time.After", simple(func(m *Machine, fr *frame, a []Value) Value {
		ch, _ := after(m, a[0])
		return ch
	}))
	reg("time.NewTimer", simple(func(m *Machine, fr *frame, a []Value) Value {
		ch, t := after(m, a[0])
		return timerOf(m, ch, t)
	}))
	reg("time.AfterFunc", simple(func(m *Machine, fr *frame, a []Value) Value {
		t := m.addTimer(a[0], nil)
		t.fire = func() {
			s := m.sched
			s.all = append(s.all, &gor{id: len(s.all), goroutine: len(s.all), f: func() { m.callValue(a[1], nil, nil) }, wake: make(chan struct{}), ready: always})
		}
		return timerOf(m, nilPtr, t)
	}))
	reg("(*time.Timer).Stop", simple(func(m *Machine, fr *frame, a []Value) Value {
		ts, _ := m.extra["timers"].(map[*Value]*timer)
		t := ts[cell(m, a[0])]
		if t == nil {
			m.unsupported("unknown timer")
		}
		was := !t.off
		m.stopTimer(t)
		return was
	}))
}
