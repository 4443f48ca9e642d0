package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races: nd.Race runs two threads one after the other and records what
// memory each accesses, under which locks. Two accesses of different threads to
// one cell (or map), one of them a write, are a race unless a common lock
// excludes them, both are atomic, or an atomic operation, a sync.Once or a
// sync.Map orders them. So every schedule of the two threads that keeps each on
// its path is covered. Where the first thread has written nothing that the
// second, or any global, can reach, no access of it races with a read, and the
// second thread is not run: harnesses also have the two in the other order.

type access struct {
	write bool
	locks []heldLock
	seq   int
	pos   string
}
type heldLock struct {
	l    any
	excl bool
}
type raceState struct {
	thread   int // 1 or 2
	acc      map[any][]access
	held     []heldLock
	seq      int
	release  map[any]int // by thread 1
	acquired int         // by thread 2
	found    string
	kept     bool // put something into a sync.Map or a sync.Pool, or ran a sync.Once
}

func (m *Machine) touch(key any, write bool) {
	r := m.race
	r.seq++
	if r.thread == 1 {
		for i := range r.acc[key] {
			a := &r.acc[key][i]
			if a.write == write && sameLocks(a.locks, r.held) {
				a.seq = r.seq
				return
			}
		}
		r.acc[key] = append(r.acc[key], access{write, append([]heldLock(nil), r.held...), r.seq, m.pos()})
		return
	}
	if r.found != "" {
		return
	}
	for _, a := range r.acc[key] {
		if !a.write && !write || a.seq <= r.acquired || excluded(a.locks, r.held) {
			continue
		}
		r.found = fmt.Sprintf("%s and %s", a.pos, m.pos())
		return
	}
}

func sameLocks(a, b []heldLock) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func excluded(a, b []heldLock) bool {
	for _, x := range a {
		for _, y := range b {
			if x.l == y.l && (x.excl || y.excl) {
				return true
			}
		}
	}
	return false
}

// touchCell records an access to a cell and the cells in it.
func (m *Machine) touchCell(q *Value, write bool) {
	switch v := (*q).(type) {
	case Struct:
		for i := range v {
			m.touchCell(&v[i], write)
		}
	case Array:
		for i := range v {
			m.touchCell(&v[i], write)
		}
	default:
		m.touch(q, write)
	}
}

// sync records an operation that orders what came before it in one thread
// before what comes after one on the same object in the other.
func (m *Machine) sync(key any, rel, acq bool) {
	r := m.race
	if r == nil {
		return
	}
	r.kept = r.kept || rel
	r.seq++
	if r.thread == 1 && rel {
		r.release[key] = r.seq
	}
	if r.thread == 2 && acq && r.release[key] > r.acquired {
		r.acquired = r.release[key]
	}
}

// quietly runs f without recording its accesses.
func (m *Machine) quietly(f func()) {
	r := m.race
	m.race = nil
	f()
	m.race = r
}

// atomically runs f, whose accesses race with no other atomic one.
func (m *Machine) atomically(f func()) {
	if m.race == nil {
		f()
		return
	}
	h := m.race.held
	m.race.held = append(h[:len(h):len(h)], heldLock{"atomic", true})
	f()
	m.race.held = h
}

// shares: the first thread wrote to what the second or a global can reach, its
// own objects aside.
func (m *Machine) shares(r *raceState, own, second Value) bool {
	mine, theirs := map[any]bool{}, map[any]bool{}
	reachable(own, mine)
	reachable(second, theirs)
	for g := range m.globals {
		p := m.globals[g]
		if touched(r, p) {
			reachable(p, theirs)
		}
	}
	for k, as := range r.acc {
		if !theirs[k] || mine[k] {
			continue
		}
		for _, a := range as {
			if a.write {
				return true
			}
		}
	}
	return false
}

// touched: the cell or one in it was accessed.
func touched(r *raceState, q *Value) bool {
	if _, ok := r.acc[q]; ok {
		return true
	}
	switch v := (*q).(type) {
	case Struct:
		for i := range v {
			if touched(r, &v[i]) {
				return true
			}
		}
	case Array:
		for i := range v {
			if touched(r, &v[i]) {
				return true
			}
		}
	}
	return false
}

// reachable adds the cells and maps that v leads to.
func reachable(v Value, to map[any]bool) {
	cells := func(vs []Value) {
		for i := range vs {
			if !to[&vs[i]] {
				to[&vs[i]] = true
				reachable(vs[i], to)
			}
		}
	}
	switch v := v.(type) {
	case *Value:
		if v != nil && !to[v] {
			to[v] = true
			reachable(*v, to)
		}
	case Struct:
		cells(v)
	case Array:
		cells(v)
	case Slice:
		cells(v[:cap(v)])
	case Tuple:
		for _, x := range v {
			reachable(x, to)
		}
	case Iface:
		reachable(v.V, to)
	case *Closure:
		if v != nil {
			for _, x := range v.env {
				reachable(x, to)
			}
		}
	case *Chan:
		if !to[v] {
			to[v] = true
			cells(v.buf)
			for _, w := range v.sendq {
				reachable(w.v, to)
			}
		}
	case *Map:
		if v != nil && !to[v] {
			to[v] = true
			for _, e := range v.ents {
				reachable(e.k, to)
				reachable(e.v, to)
			}
		}
	}
}

func init() {
	simple := func(f func(m *Machine, fr *frame, a []Value) Value) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return f(m, fr, a) }
	}
	reg(ndPkg+".Race", simple(func(m *Machine, fr *frame, a []Value) Value {
		r := &raceState{acc: map[any][]access{}, release: map[any]int{}}
		mk := m.callValue(a[0], nil, fr).(Tuple)
		defer func() { m.race, m.thread = nil, 0 }()
		for i := 0; i < 2; i++ {
			t := m.callValue(mk[i], nil, fr).(Tuple)
			r.thread, r.held = i+1, nil
			m.race, m.thread = r, i+1
			m.callValue(t[0], nil, fr)
			m.drain()
			m.race, m.thread = nil, 0
			if i == 0 && !m.shares(r, t[1], mk[1]) {
				break
			}
		}
		if r.found != "" && m.ex.opt.verbose {
			fmt.Println("RACE", r.found)
		}
		m.assertion(r.found == "", "no data race", "", nil)
		return nil
	}))
	reg(ndPkg+".Wrote", simple(func(m *Machine, fr *frame, a []Value) Value {
		r := &raceState{acc: map[any][]access{}, release: map[any]int{}, thread: 1}
		m.race = r
		defer func() { m.race = nil }()
		m.callValue(a[2], nil, fr)
		m.drain()
		m.race = nil
		wrote := r.kept || m.shares(r, a[0], a[1])
		n := m.inName("wrote")
		v := m.tb.Var(n, SBool)
		m.newInput(n, "bool", v)
		m.assume(m.tb.Eq(v, m.tb.Bool(wrote)), false)
		return wrote
	}))
	reg(ndPkg+".Made", simple(func(m *Machine, fr *frame, a []Value) Value {
		whole, part := m.simplify(m.str(a[0])), m.simplify(m.str(a[1]))
		if part.op == "str" && part.s == "" {
			return false
		}
		parts, seen := map[*Term]bool{}, map[*Term]bool{}
		for _, p := range pieces(part) {
			if strings.HasPrefix(p.op, "b64raw") {
				parts[p] = true
			}
		}
		if len(parts) == 0 {
			return boolVal(m.tb.StrContains(whole, part))
		}
		var has func(t *Term) bool
		has = func(t *Term) bool {
			if seen[t] {
				return false
			}
			seen[t] = true
			if parts[t] {
				return true
			}
			for _, x := range t.args {
				if has(x) {
					return true
				}
			}
			return false
		}
		return has(whole)
	}))
	reg(ndPkg+".Elsewhere", simple(func(m *Machine, fr *frame, a []Value) Value {
		old := m.goroutine
		m.goroutine = max(old, elsewhere) + 1
		defer func() { m.goroutine = old }()
		m.callValue(a[0], nil, fr)
		return nil
	}))
	reg(ndPkg+".Thread", simple(func(m *Machine, fr *frame, a []Value) Value { return int64(m.thread) }))

	lock := func(excl bool) intrinsic {
		return simple(func(m *Machine, fr *frame, a []Value) Value {
			m.lock(a[0], excl)
			return nil
		})
	}
	unlock := func(excl bool) intrinsic {
		return simple(func(m *Machine, fr *frame, a []Value) Value {
			m.unlock(a[0], excl)
			return nil
		})
	}
	reg("(*sync.Mutex).Lock (*sync.RWMutex).Lock", lock(true))
	reg("(*sync.RWMutex).RLock", lock(false))
	reg("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", unlock(true))
	reg("(*sync.RWMutex).RUnlock", unlock(false))
	try := func(excl bool) intrinsic {
		return simple(func(m *Machine, fr *frame, a []Value) Value {
			if _, s := m.muOf(a[0]); !s.free(excl) {
				return false
			}
			m.lock(a[0], excl)
			return true
		})
	}
	reg("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock", try(true))
	reg("(*sync.RWMutex).TryRLock", try(false))

	// atomics
	cell := func(m *Machine, p Value) *Value {
		q, ok := p.(*Value)
		if !ok {
			m.unsupported("atomic operation on %T", p)
		}
		if q == nil {
			m.nilDeref()
		}
		return q
	}
	ld := func(m *Machine, q *Value) (v Value) {
		m.sync(q, false, true)
		m.atomically(func() { v = m.load(q) })
		return v
	}
	st := func(m *Machine, q *Value, v Value) {
		m.atomically(func() { m.storeCell(q, v) })
		m.sync(q, true, false)
	}
	ints := map[string]types.Type{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64], "Uintptr": types.Typ[types.Uintptr], "Pointer": types.Typ[types.UnsafePointer]}
	for k, t := range ints {
		reg("sync/atomic.Load"+k, simple(func(m *Machine, fr *frame, a []Value) Value { return ld(m, cell(m, a[0])) }))
		reg("sync/atomic.Store"+k, simple(func(m *Machine, fr *frame, a []Value) Value {
			st(m, cell(m, a[0]), a[1])
			return nil
		}))
		reg("sync/atomic.Swap"+k, simple(func(m *Machine, fr *frame, a []Value) Value {
			q := cell(m, a[0])
			old := ld(m, q)
			st(m, q, a[1])
			return old
		}))
		reg("sync/atomic.CompareAndSwap"+k, simple(func(m *Machine, fr *frame, a []Value) Value {
			q := cell(m, a[0])
			if !m.branch(m.equal(t, ld(m, q), a[1])) {
				return false
			}
			st(m, q, a[2])
			return true
		}))
		if k != "Pointer" {
			reg("sync/atomic.Add"+k, simple(func(m *Machine, fr *frame, a []Value) Value {
				q := cell(m, a[0])
				v := m.arith(token.ADD, t, ld(m, q), a[1])
				st(m, q, v)
				return v
			}))
		}
	}
	// atomic.Pointer and atomic.Value: the value is in their last field
	field := func(m *Machine, p Value) *Value {
		s, ok := (*cell(m, p)).(Struct)
		if !ok {
			m.unsupported("atomic value in %T", *p.(*Value))
		}
		return &s[len(s)-1]
	}
	for _, k := range []string{"(*sync/atomic.Pointer[T])", "(*sync/atomic.Value)"} {
		reg(k+".Load", simple(func(m *Machine, fr *frame, a []Value) Value { return ld(m, field(m, a[0])) }))
		reg(k+".Store", simple(func(m *Machine, fr *frame, a []Value) Value {
			st(m, field(m, a[0]), a[1])
			return nil
		}))
		reg(k+".Swap", simple(func(m *Machine, fr *frame, a []Value) Value {
			q := field(m, a[0])
			old := ld(m, q)
			st(m, q, a[1])
			return old
		}))
		reg(k+".CompareAndSwap", simple(func(m *Machine, fr *frame, a []Value) Value {
			q := field(m, a[0])
			t := types.Type(types.Typ[types.UnsafePointer])
			if strings.Contains(k, "Value") {
				t = anyType
			}
			if !m.branch(m.equal(t, ld(m, q), a[1])) {
				return false
			}
			st(m, q, a[2])
			return true
		}))
	}

	reg("(*sync.Once).Do", simple(func(m *Machine, fr *frame, a []Value) Value {
		m.once(cell(m, a[0]), func() { m.callValue(a[1], nil, fr) })
		return nil
	}))

	// sync.Map is kept beside the program's memory
	smap := func(m *Machine, p Value) *Map {
		q := cell(m, p)
		if mp, ok := m.smaps[q]; ok {
			return mp
		}
		mp := newMap()
		m.smaps[q] = mp
		m.trailFn(func() { delete(m.smaps, q) })
		return mp
	}
	sm := func(names string, rel bool, f func(m *Machine, fr *frame, mp *Map, a []Value) Value) {
		reg(names, simple(func(m *Machine, fr *frame, a []Value) (r Value) {
			mp := smap(m, a[0])
			m.sync(mp, rel, true)
			m.quietly(func() { r = f(m, fr, mp, a[1:]) })
			return r
		}))
	}
	get := func(m *Machine, mp *Map, k Value) (Value, bool) {
		if e := m.mapFind(mp, k, anyType); e != nil {
			return e.v, true
		}
		return Iface{}, false
	}
	sm("(*sync.Map).Load", false, func(m *Machine, fr *frame, mp *Map, a []Value) Value {
		v, ok := get(m, mp, a[0])
		return Tuple{v, ok}
	})
	sm("(*sync.Map).Store", true, func(m *Machine, fr *frame, mp *Map, a []Value) Value {
		m.mapSet(mp, a[0], a[1], anyType)
		return nil
	})
	sm("(*sync.Map).LoadOrStore", true, func(m *Machine, fr *frame, mp *Map, a []Value) Value {
		if v, ok := get(m, mp, a[0]); ok {
			return Tuple{v, true}
		}
		m.mapSet(mp, a[0], a[1], anyType)
		return Tuple{a[1], false}
	})
	sm("(*sync.Map).Swap", true, func(m *Machine, fr *frame, mp *Map, a []Value) Value {
		v, ok := get(m, mp, a[0])
		m.mapSet(mp, a[0], a[1], anyType)
		return Tuple{v, ok}
	})
	sm("(*sync.Map).LoadAndDelete", true, func(m *Machine, fr *frame, mp *Map, a []Value) Value {
		v, ok := get(m, mp, a[0])
		m.mapDelete(mp, a[0], anyType)
		return Tuple{v, ok}
	})
	sm("(*sync.Map).Delete", true, func(m *Machine, fr *frame, mp *Map, a []Value) Value {
		m.mapDelete(mp, a[0], anyType)
		return nil
	})
	reg("(*sync.Map).Range", simple(func(m *Machine, fr *frame, a []Value) Value {
		mp := smap(m, a[0])
		m.sync(mp, false, true)
		for _, e := range mp.live() {
			if !m.branch(m.callValue(a[1], []Value{e.k, e.v}, fr)) {
				break
			}
		}
		return nil
	}))

	// sync.Pool: what was put may be lost
	reg("(*sync.Pool).Put", simple(func(m *Machine, fr *frame, a []Value) Value {
		q := cell(m, a[0])
		m.sync(q, true, false)
		old, had := m.pools[q]
		m.pools[q] = append(append([]Value(nil), old...), a[1])
		m.trailFn(func() {
			if had {
				m.pools[q] = old
			} else {
				delete(m.pools, q)
			}
		})
		return nil
	}))
	reg("(*sync.Pool).Get", simple(func(m *Machine, fr *frame, a []Value) Value {
		q := cell(m, a[0])
		m.sync(q, false, true)
		if old := m.pools[q]; len(old) > 0 {
			v := old[len(old)-1]
			m.pools[q] = old[:len(old)-1]
			m.trailFn(func() { m.pools[q] = old })
			return v
		}
		s := (*q).(Struct)
		nf, ok := s[len(s)-1].(*Closure)
		if f, isF := s[len(s)-1].(Value); isF && !ok && f != nil {
			return m.callValue(f, nil, fr)
		}
		if nf == nil {
			return Iface{}
		}
		return m.callValue(nf, nil, fr)
	}))
}

var anyType = types.NewInterfaceType(nil, nil).Complete()

// muState tells who holds a mutex.
type muState struct{ excl, shared []int }

func (m *Machine) muOf(p Value) (*Value, *muState) {
	q, ok := p.(*Value)
	if !ok {
		m.unsupported("lock of %T", p)
	}
	if q == nil {
		m.nilDeref()
	}
	s := m.mus[q]
	if s == nil {
		s = &muState{}
		m.mus[q] = s
	}
	return q, s
}

// free reports whether the mutex can be taken now.
func (s *muState) free(excl bool) bool {
	return len(s.excl) == 0 && (!excl || len(s.shared) == 0)
}

func (m *Machine) fatal(msg string) {
	m.assertion(false, "fatal error: "+msg, "", nil)
	panic(pathAbort{"violation", msg})
}

func (m *Machine) lock(p Value, excl bool) {
	_, s := m.muOf(p)
	if g := m.goroutine; !s.free(excl) && m.sched != nil {
		for _, o := range append(s.excl[:len(s.excl):len(s.excl)], s.shared...) {
			if g >= elsewhere && o != g && (o == 0 || o >= elsewhere) {
				panic(pathAbort{"assume", "it waits for the other one"})
			}
		}
		m.block(func() bool { return s.free(excl) })
	}
	if !s.free(excl) {
		for _, o := range append(s.excl[:len(s.excl):len(s.excl)], s.shared...) {
			if o != m.goroutine {
				panic(pathAbort{"assume", "it waits for the other one"})
			}
		}
		m.fatal("all goroutines are asleep - deadlock!")
	}
	h := &s.shared
	if excl {
		h = &s.excl
	}
	old := *h
	*h = append(old[:len(old):len(old)], m.goroutine)
	m.trailFn(func() { *h = old })
	if m.race != nil {
		m.race.held = append(m.race.held[:len(m.race.held):len(m.race.held)], heldLock{p, excl})
	}
}

func (m *Machine) unlock(p Value, excl bool) {
	_, s := m.muOf(p)
	h := &s.shared
	if excl {
		h = &s.excl
	}
	if len(*h) == 0 {
		m.fatal("sync: unlock of unlocked mutex")
	}
	old := *h
	k := len(old) - 1
	for i, o := range old {
		if o == m.goroutine {
			k = i
		}
	}
	*h = append(append([]int(nil), old[:k]...), old[k+1:]...)
	m.trailFn(func() { *h = old })
	if m.race == nil {
		return
	}
	l := m.race.held
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] == (heldLock{p, excl}) {
			m.race.held = append(append([]heldLock(nil), l[:i]...), l[i+1:]...)
			return
		}
	}
}

func (m *Machine) once(q *Value, f func()) {
	if !m.onces[q] {
		m.onces[q] = true
		m.trailFn(func() { delete(m.onces, q) })
		f()
		m.sync(q, true, false)
		return
	}
	m.sync(q, false, true)
}
