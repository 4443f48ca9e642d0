package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Program struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	eager    []*ssa.Package // in dependency order
	errorStr types.Type     // *errors.errorString
	initLine int
	now      int64
	tier     int
}

type trailEnt struct {
	p   *Value
	old Value
	fn  func()
}

type dec struct {
	val    bool
	forced bool
	site   uint32
	conc   any // concretized value
}

type inputRec struct {
	name string
	kind string // str int bool bytes
	t    *Term
}

type obsRec struct {
	name string
	v    Value
}

type Candidate struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Pos     string            `json:"pos"`
	Inputs  map[string]string `json:"inputs"` // name -> kind:value (hex for strings)
	Known   string            `json:"known,omitempty"`
	Exact   bool              `json:"exact"`
	Class   string            `json:"class"`
	Trace   []string          `json:"trace,omitempty"`
	Gor     bool              `json:"gor,omitempty"`  // goroutines were started
	Any     bool              `json:"any,omitempty"`  // natively other executions are possible too
	Late    bool              `json:"late,omitempty"` // and were slower than a timer
}

type Witness struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Reach   []string          `json:"reach"`
	Obs     []string          `json:"obs"`
}

type Machine struct {
	prog    *Program
	tb      *Table
	solver  *Solver
	globals map[*ssa.Global]*Value
	fixed   map[*Value]bool // cells of modelled globals
	pkgInit map[*ssa.Package]bool

	trail       []trailEnt
	trailOn     bool
	lenientInit *ssa.Function

	// path state
	pc        []*Term
	bind      map[*Term]*Term
	bindSyms  map[int]bool
	known     map[*Term]bool
	memo      map[*Term]*Term
	decs      []dec
	prefix    []dec
	pos_      int
	steps     int
	budget    int
	depth     int
	site      uint32
	curInstr  ssa.Instruction
	counters  map[string]int
	inputs    []inputRec
	reach     []string
	obs       []obsRec
	stdout    *Term
	capturing bool
	fresh     int
	reduced   map[string]bool
	harness   string
	extra     map[string]any
	evHook    func(*evaluator)
	race      *raceState // while nd.Race runs
	thread    int
	onces     map[*Value]bool
	mus       map[*Value]*muState
	goroutine int
	sched     *sched
	wgs       map[*Value]int
	smaps     map[*Value]*Map
	pools     map[*Value][]Value

	cache    map[string]Result
	cacheHit int
	ex       *Explorer

	funcsHit   map[string]bool
	totalSteps int64
	branches   int64
	asserts    int64
	discharged int64
}

func newMachine(p *Program, ex *Explorer) *Machine {
	tb := newTable()
	m := &Machine{prog: p, tb: tb, solver: newSolver(tb, ex.opt.solverMS), globals: map[*ssa.Global]*Value{}, fixed: map[*Value]bool{}, onces: map[*Value]bool{}, mus: map[*Value]*muState{}, wgs: map[*Value]int{}, smaps: map[*Value]*Map{}, pools: map[*Value][]Value{}, pkgInit: map[*ssa.Package]bool{},
		cache: map[string]Result{}, ex: ex, funcsHit: map[string]bool{}, budget: 1 << 40}
	m.resetPath()
	m.budget = 1 << 40
	for _, pkg := range p.eager {
		m.initEager(pkg)
	}
	m.trailOn = true
	return m
}

func (m *Machine) resetPath() {
	m.pc = m.pc[:0]
	m.bind = map[*Term]*Term{}
	m.bindSyms = map[int]bool{}
	m.known = map[*Term]bool{}
	m.memo = map[*Term]*Term{}
	m.decs = nil
	m.pos_ = 0
	m.steps = 0
	m.depth = 0
	m.counters = map[string]int{}
	m.inputs = nil
	m.reach = nil
	m.obs = nil
	m.stdout = m.tb.EmptyStr
	m.capturing = false
	m.fresh = 0
	m.reduced = map[string]bool{}
	m.extra = map[string]any{}
	m.race, m.thread = nil, 0
	m.sched, m.goroutine = nil, 0
	m.curInstr = nil
}

func (m *Machine) trailFn(f func()) {
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{fn: f})
	}
}

func (m *Machine) undo() { m.undoTo(0) }

func (m *Machine) undoTo(mark int) {
	for i := len(m.trail) - 1; i >= mark; i-- {
		e := m.trail[i]
		if e.fn != nil {
			e.fn()
		} else {
			*e.p = e.old
		}
	}
	m.trail = m.trail[:mark]
}

func (m *Machine) initEager(pkg *ssa.Package) {
	if m.pkgInit[pkg] {
		return
	}
	m.pkgInit[pkg] = true
	f := pkg.Func("init")
	if f == nil {
		return
	}
	old := m.trailOn
	m.trailOn = false
	defer func() { m.trailOn = old }()
	m.initCall(f)
}

// initCall interprets an init function, skipping other packages' init.
func (m *Machine) initCall(f *ssa.Function) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathAbort:
				m.ex.note("init of %s: %s", f.Pkg.Pkg.Path(), r.msg)
			case targetPanic:
				m.ex.note("panic in init of %s: %v", f.Pkg.Pkg.Path(), r.v)
			default:
				panic(r)
			}
		}
	}()
	m.call(f, nil, nil, nil)
}

func (m *Machine) global(g *ssa.Global) Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().(*types.Pointer).Elem())
	m.globals[g] = p
	if v, ok := globalOverride(m, g); ok {
		*p = v
		m.fixed[p] = true
		return p
	}
	if g.Pkg != nil && !m.pkgInit[g.Pkg] {
		m.lazyInit(g.Pkg)
	}
	return p
}

// lazyInit runs a (std) package initialiser leniently.
func (m *Machine) lazyInit(pkg *ssa.Package) {
	m.pkgInit[pkg] = true
	f := pkg.Func("init")
	if f == nil {
		return
	}
	pkg.Build()
	oldT, oldL, oldS, oldB, oldD, oldC, oldSite := m.trailOn, m.lenientInit, m.steps, m.budget, m.depth, m.curInstr, m.site
	m.trailOn = false
	m.lenientInit = f
	m.budget = 1 << 40
	defer func() {
		m.trailOn, m.lenientInit, m.steps, m.budget, m.depth, m.curInstr, m.site = oldT, oldL, oldS, oldB, oldD, oldC, oldSite
		if r := recover(); r != nil {
			m.ex.note("lazy init of %s: %v", pkg.Pkg.Path(), r)
		}
	}()
	m.call(f, nil, nil, nil)
}

// ---------- simplification under the path's bindings

func (m *Machine) simplifyVal(v Value) Value {
	if t, ok := v.(*Term); ok {
		t = m.simplify(t)
		switch {
		case t.sort == SStr:
			return m.strVal(t)
		case t.sort == SBool:
			return boolVal(t)
		default:
			return intVal(t)
		}
	}
	return v
}

func (m *Machine) simplify(t *Term) *Term {
	if !t.vars || len(m.bind) == 0 && len(m.known) == 0 {
		return t
	}
	if r, ok := m.memo[t]; ok {
		return r
	}
	if t.sort == SBool {
		if b, ok := m.known[t]; ok {
			return m.tb.Bool(b)
		}
	}
	if b, ok := m.bind[t]; ok {
		r := m.simplify(b)
		m.memo[t] = r
		return r
	}
	need := false
	if t.sort == SBool && len(t.args) > 0 {
		need = true
	} else {
		for _, s := range m.tb.syms(t) {
			if m.bindSyms[s] {
				need = true
				break
			}
		}
	}
	if !need {
		m.memo[t] = t
		return t
	}
	var r *Term
	if t.op == "lin" {
		r = m.tb.Int(t.i)
		for _, p := range t.lin {
			r = m.tb.Add(r, m.tb.linScale(m.simplify(p.t), p.c))
		}
	} else {
		changed := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = m.simplify(a)
			if args[i] != a {
				changed = true
			}
		}
		r = t
		if changed {
			r = m.tb.rebuild(t, args)
			if r != t && r.vars {
				if r.sort == SBool {
					if b, ok := m.known[r]; ok {
						r = m.tb.Bool(b)
					}
				} else if b, ok := m.bind[r]; ok && b != t {
					r = m.simplify(b)
				}
			}
		}
	}
	m.memo[t] = r
	return r
}

func (m *Machine) addBind(v, to *Term) {
	m.bind[v] = to
	for _, s := range m.tb.syms(v) {
		m.bindSyms[s] = true
	}
	clear(m.memo)
}

func isVar(t *Term) bool { return t.op == "var" }

func (m *Machine) occurs(v, in *Term) bool {
	for _, s := range m.tb.syms(in) {
		if s == v.id {
			return true
		}
	}
	return false
}

// assume records a fact (already known to be consistent with the path).
func (m *Machine) assume(c *Term, redundant bool) {
	if c == m.tb.True {
		return
	}
	if !redundant {
		m.pc = append(m.pc, c)
	}
	m.learn(c)
}

func (m *Machine) learn(c *Term) {
	tb := m.tb
	// earlier bindings must be applied first: binding a variable to a term that
	// contains it through another binding would be a cycle
	if s := m.simplify(c); s != c {
		if s == tb.True || s == tb.False {
			return
		}
		m.known[c] = true
		m.known[tb.Not(c)] = false
		c = s
	}
	if c.op == "and" {
		for _, a := range c.args {
			m.learn(a)
		}
		return
	}
	if c.op == "not" && c.args[0].op == "or" {
		for _, a := range c.args[0].args {
			m.learn(tb.Not(a))
		}
		return
	}
	m.known[c] = true
	m.known[tb.Not(c)] = false
	if c.op == "not" {
		m.known[c.args[0]] = false
	}
	clear(m.memo)
	switch {
	case c.op == "var":
		m.addBind(c, tb.True)
	case c.op == "not" && c.args[0].op == "var":
		m.addBind(c.args[0], tb.False)
	case c.op == "=":
		a, b := c.args[0], c.args[1]
		// prefer binding a variable to a non-variable; among variables bind by name order
		if isVar(a) && isVar(b) {
			if a.s < b.s {
				a, b = b, a
			}
			m.addBind(a, b)
		} else if isVar(a) && !m.occurs(a, b) && m.classOK(a, b) {
			m.addBind(a, b)
		} else if isVar(b) && !m.occurs(b, a) && m.classOK(b, a) {
			m.addBind(b, a)
		} else if b.op == "str" || b.op == "bv" {
			m.addBind(a, b)
		} else if a.op == "str" || a.op == "bv" {
			m.addBind(b, a)
		}
	case c.op == "eq0":
		l := c.args[0]
		parts, k, _ := tb.linOf(l)
		if len(parts) == 1 && (parts[0].c == 1 || parts[0].c == -1) && parts[0].t.op != "int" {
			m.addBind(parts[0].t, tb.Int(-k*parts[0].c))
		}
	}
}

// classOK: replacing v by t must not lose v's character class facts when t's are weaker
// (the class constraint itself stays asserted, so this only keeps simplifications strong).
func (m *Machine) classOK(v, t *Term) bool {
	if v.cs == nil {
		return true
	}
	return t.cs != nil && t.cs.subsetOf(v.cs)
}

// ---------- feasibility

func (m *Machine) slicePC(c *Term) []*Term {
	syms := m.tb.syms(c)
	used := make([]bool, len(m.pc))
	for changed := true; changed; {
		changed = false
		for i, p := range m.pc {
			if !used[i] && m.tb.syms(p).intersects(syms) {
				used[i] = true
				syms = syms.union(m.tb.syms(p))
				changed = true
			}
		}
	}
	var out []*Term
	for i, u := range used {
		if u {
			out = append(out, m.pc[i])
		}
	}
	// class / range side conditions of the variables involved
	for _, s := range syms {
		out = append(out, m.sideConds(m.tb.list[s])...)
	}
	return out
}

// sideConds: the declared domain of an input variable.
func (m *Machine) sideConds(v *Term) []*Term {
	if v.side != nil {
		return v.side
	}
	var out []*Term
	if v.op == "var" {
		switch v.sort {
		case SInt:
			if v.hasLo {
				out = append(out, m.tb.mk(&Term{op: "raw<=", sort: SBool, args: []*Term{m.tb.Int(v.lo), v}}))
			}
			if v.hasHi {
				out = append(out, m.tb.mk(&Term{op: "raw<=", sort: SBool, args: []*Term{v, m.tb.Int(v.hi)}}))
			}
		case SStr:
			if v.cs != nil {
				out = append(out, m.tb.mk(&Term{op: "in_class", sort: SBool, args: []*Term{v}, aux: v.cs}))
			}
			if v.minLen > 0 {
				out = append(out, m.tb.mk(&Term{op: "rawminlen", i: int64(v.minLen), sort: SBool, args: []*Term{v}}))
			}
			if v.maxLen >= 0 {
				out = append(out, m.tb.mk(&Term{op: "rawmaxlen", i: int64(v.maxLen), sort: SBool, args: []*Term{v}}))
			}
		case 8:
			if v.cs != nil {
				out = append(out, m.tb.mk(&Term{op: "bvclass", sort: SBool, args: []*Term{v}, aux: v.cs}))
			}
		}
	}
	if out == nil {
		out = []*Term{}
	}
	v.side = out
	return out
}

func (m *Machine) sat(c *Term) Result {
	if c == m.tb.False {
		return Unsat
	}
	sl := m.slicePC(c)
	sl = append(sl, c)
	ids := make([]int, len(sl))
	for i, t := range sl {
		ids[i] = t.id
	}
	sort.Ints(ids)
	var sb strings.Builder
	last := -1
	for _, i := range ids {
		if i == last {
			continue
		}
		last = i
		sb.WriteString(strconv.Itoa(i))
		sb.WriteByte(',')
	}
	k := sb.String()
	if r, ok := m.cache[k]; ok {
		m.cacheHit++
		return r
	}
	r, _ := m.solver.check(sl, nil)
	m.cache[k] = r
	if r == Unknown {
		m.ex.unknown(m, sl)
	}
	return r
}

// branch decides a condition, forking when both outcomes are feasible.
func (m *Machine) branch(cond Value) bool {
	var c *Term
	switch v := cond.(type) {
	case bool:
		return v
	case *Term:
		c = m.simplify(v)
	case Poison:
		if m.lenientInit != nil {
			return false
		}
		m.unsupported("poison condition: %s", v.why)
	default:
		m.unsupported("condition %T", cond)
	}
	if c == m.tb.True {
		return true
	}
	if c == m.tb.False {
		return false
	}
	if !m.trailOn {
		m.unsupported("symbolic branch during init")
	}
	m.branches++
	if m.pos_ < len(m.prefix) {
		d := m.prefix[m.pos_]
		if d.site != m.site || d.conc != nil {
			panic(pathAbort{"internal", fmt.Sprintf("replay divergence at %s (harness %s) cond %s", m.pos(), m.harness, clip(m.tb.SMT(c), 400))})
		}
		m.pos_++
		m.decs = append(m.decs, d)
		if d.val {
			m.assume(c, d.forced)
		} else {
			m.assume(m.tb.Not(c), d.forced)
		}
		return d.val
	}
	nc := m.tb.Not(c)
	rt := m.sat(c)
	if rt == Unsat {
		m.push(dec{val: false, forced: true, site: m.site})
		m.assume(nc, true)
		return false
	}
	rf := m.sat(nc)
	if rf == Unsat {
		m.push(dec{val: true, forced: true, site: m.site})
		m.assume(c, true)
		return true
	}
	m.ex.fork(m, dec{val: false, site: m.site})
	m.push(dec{val: true, site: m.site})
	m.assume(c, false)
	return true
}

func (m *Machine) push(d dec) {
	m.decs = append(m.decs, d)
	m.pos_ = len(m.decs)
	m.prefix = m.decs
}

// concretize fixes a term to one feasible value (a stated reduction).
func (m *Machine) concretize(t *Term) Value {
	t = m.simplify(t)
	if v := m.simplifyVal(t); isConc(v) {
		return v
	}
	m.reduced[fmt.Sprintf("concretized a value at %s", m.pos())] = true
	eq := func(v any) *Term {
		switch v := v.(type) {
		case int64:
			if t.sort > 0 {
				return m.tb.EqBV(t, m.tb.BV(v, t.sort))
			}
			return m.tb.EqInt(t, m.tb.Int(v))
		case string:
			return m.tb.StrEq(t, m.tb.Str(v))
		case bool:
			return m.tb.Eq(t, m.tb.Bool(v))
		}
		panic("concretize")
	}
	if m.pos_ < len(m.prefix) {
		d := m.prefix[m.pos_]
		if d.conc == nil {
			panic(pathAbort{"internal", "replay divergence (concretize)"})
		}
		m.pos_++
		m.decs = append(m.decs, d)
		m.assume(eq(d.conc), false)
		return d.conc
	}
	sl := m.slicePC(t)
	r, vals := m.solver.check(sl, []*Term{t})
	if r != Sat {
		m.unsupported("cannot concretize (%s)", r)
	}
	v, ok := parseVal(vals[0], t.sort)
	if !ok {
		m.unsupported("cannot concretize value %s", vals[0])
	}
	m.push(dec{val: true, site: m.site, conc: v})
	m.assume(eq(v), false)
	return v
}

const explodeMax = 6

// explodeOpaque turns the opaque pieces of a string into individual bytes, forking on their lengths.
func (m *Machine) explodeOpaque(t *Term) *Term {
	t = m.simplify(t)
	for rounds := 0; rounds < 50; rounds++ {
		ps := pieces(t)
		var p *Term
		for _, q := range ps {
			if q.op != "str" && q.op != "bytestr" {
				p = q
				break
			}
		}
		if p == nil {
			return t
		}
		n := -1
		if p.minLen == p.maxLen {
			n = p.minLen
		} else {
			l := m.tb.StrLen(p)
			for k := p.minLen; k <= p.minLen+explodeMax; k++ {
				if m.branch(boolVal(m.tb.EqInt(l, m.tb.Int(int64(k))))) {
					n = k
					break
				}
			}
			if n < 0 {
				m.reduced[fmt.Sprintf("string longer than %d bytes examined byte by byte at %s", explodeMax, m.pos())] = true
				panic(pathAbort{"unsupported", "opaque string too long to explode at " + m.pos()})
			}
		}
		bs := make([]*Term, n)
		for i := range bs {
			if p.op == "var" {
				b := m.tb.Var(fmt.Sprintf("%s@%d", p.s, i), 8)
				b.cs = p.cs
				bs[i] = m.tb.ByteStr(b)
			} else {
				if i == 0 {
					m.fresh++
				}
				b := m.tb.Var(fmt.Sprintf("%s#%d@%d", p.op, m.fresh, i), 8)
				b.cs = p.cs
				bs[i] = m.tb.ByteStr(b)
			}
		}
		c := m.tb.Concat(bs...)
		if p.op == "var" || c != p {
			eq := m.tb.mk(&Term{op: "=", sort: SBool, args: []*Term{p, c}})
			m.pc = append(m.pc, eq)
			m.addBind(p, c)
		}
		nt := m.simplify(t)
		if nt == t {
			// could not bind (e.g. nested): rebuild by hand
			var out []*Term
			for _, q := range ps {
				if q == p {
					out = append(out, c)
				} else {
					out = append(out, q)
				}
			}
			nt = m.tb.Concat(out...)
		}
		if nt == t {
			return t
		}
		t = nt
	}
	m.unsupported("explode")
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// ---------- errors

func (m *Machine) mkError(msg string) Value {
	return m.mkErrorT(m.tb.Str(msg))
}
func (m *Machine) mkErrorT(msg *Term) Value {
	p := new(Value)
	*p = Struct{m.strVal(msg)}
	return Iface{m.prog.errorStr, p}
}

// ---------- assertions

func (m *Machine) assertion(cond Value, msg string, known string, knownCond *Term) {
	m.asserts++
	c := m.boolT(cond)
	c = m.simplify(c)
	if c == m.tb.True {
		m.discharged++
		return
	}
	nc := m.tb.Not(c)
	// the executions to go on with: those on which it holds or fails as recorded
	cont := c
	if known != "" {
		cont = m.simplify(m.tb.Or(c, knownCond))
	}
	if m.pos_ < len(m.prefix) {
		// already decided on the path that created this prefix
		m.assume(cont, false)
		m.discharged++
		return
	}
	r := m.sat(nc)
	switch r {
	case Unsat:
		m.discharged++
		m.assume(c, true)
		return
	case Unknown:
		m.ex.incomplete("solver gave no answer for assertion %q at %s", msg, m.pos())
	}
	if known != "" {
		kc := m.simplify(knownCond)
		if kc != m.tb.False {
			if q := m.tb.And(nc, kc); m.sat(q) != Unsat {
				m.violation(q, msg, known)
			}
		}
		rest := m.tb.And(nc, m.tb.Not(kc))
		if m.sat(rest) != Unsat {
			m.violation(rest, msg, "")
		}
	} else {
		m.violation(nc, msg, "")
	}
	if m.sat(cont) == Unsat {
		panic(pathAbort{"violation", msg})
	}
	m.assume(cont, false)
}

func (m *Machine) violation(extra *Term, msg, known string) {
	pos := m.pos()
	if !m.ex.wantCandidate(msg, known) {
		return
	}
	inputs, res, exact := m.solveModel(extra)
	if res == Unsat {
		m.discharged++
		return
	}
	if inputs == nil {
		m.ex.incomplete("no model for violation %q at %s", msg, pos)
		return
	}
	m.ex.candidate(&Candidate{Harness: m.harness, Msg: msg, Pos: pos, Inputs: inputs, Known: known, Exact: exact, Class: msg, Gor: m.sched != nil, Any: m.sched != nil || m.decided(backwards), Late: m.sched != nil && m.sched.late})
}

// solveModel finds concrete inputs for the path plus extra, refining the contracts of
// uninterpreted functions with their real values.
func (m *Machine) solveModel(extra *Term) (map[string]string, Result, bool) {
	t0 := time.Now()
	var as []*Term
	as = append(as, m.pc...)
	if extra != nil {
		as = append(as, extra)
	}
	syms := map[int]bool{}
	for _, a := range as {
		for _, s := range m.tb.syms(a) {
			syms[s] = true
		}
	}
	// include inputs' own terms
	var vars []*Term
	addSyms := func(t *Term) {
		for _, s := range m.tb.syms(t) {
			syms[s] = true
		}
	}
	for _, in := range m.inputs {
		addSyms(in.t)
	}
	for _, o := range m.obs {
		if t, ok := o.v.(*Term); ok {
			addSyms(t)
		}
	}
	var ids []int
	for s := range syms {
		ids = append(ids, s)
	}
	sort.Ints(ids)
	var sides []*Term
	for _, s := range ids {
		v := m.tb.list[s]
		vars = append(vars, v)
		sides = append(sides, m.sideConds(v)...)
		if v.sort == SStr && v.cs == nil {
			sides = append(sides, m.tb.mk(&Term{op: "in_class", sort: SBool, args: []*Term{v}, s: "ascii", aux: csASCII}))
		}
	}
	cur := append(append([]*Term(nil), as...), sides...)
	var model map[*Term]any
	// eval reads a model and returns what it violates
	evalModel := func(vals []string) (ev *evaluator, good bool, lemmas, pins []*Term) {
		model = map[*Term]any{}
		good = true
		for i, v := range vars {
			x, ok := parseVal(vals[i], v.sort)
			if !ok {
				good = false
			}
			model[v] = x
		}
		ev = &evaluator{tb: m.tb, model: model, memo: map[*Term]any{}}
		pinned := map[*Term]bool{}
		for _, a := range as {
			v, ok := ev.eval(a)
			if !ok {
				continue
			}
			if b, isB := v.(bool); isB && !b {
				good = false
				lemmas = append(lemmas, m.ufLemmas(ev, a)...)
				for _, u := range m.ufArgVars(a) {
					if x, ok := model[u]; ok && x != nil && !pinned[u] {
						pinned[u] = true
						pins = append(pins, m.rawEq(u, x))
					}
				}
			}
		}
		return
	}
	// fixOf fixes the arguments of functions, to values that satisfy the constraints
	// without functions and of which one has the hint in it, and solves the rest
	fixOf := func(of func(*Term) bool, hint string) map[string]string {
		var easy, fixed []*Term
		args := map[*Term]bool{}
		cur := append(append([]*Term(nil), as...), sides...)
		for _, a := range cur {
			for _, u := range m.argVars(a, of) {
				args[u] = true
			}
			if !hasUF(a) {
				easy = append(easy, a)
			}
		}
		if len(args) == 0 {
			return nil
		}
		if hint != "" {
			var or []*Term
			for _, v := range vars {
				if args[v] && v.sort == SStr && !isUF(v) {
					or = append(or, m.tb.StrContains(v, m.tb.Str(hint)))
				}
			}
			easy = append(easy, m.tb.Or(or...))
		}
		r, vals := m.solver.check(easy, vars)
		if r != Sat {
			return nil
		}
		evalModel(vals)
		sub := map[*Term]*Term{}
		for _, v := range vars {
			if x := model[v]; args[v] && x != nil && !isUF(v) {
				if c := m.constTerm(v, x); c != nil {
					sub[v] = c
					fixed = append(fixed, m.rawEq(v, x))
				}
			}
		}
		for _, a := range cur {
			fixed = append(fixed, m.tb.subst(a, sub))
		}
		for i := 0; i < 8; i++ {
			r, vals := m.solver.check(fixed, vars)
			if r != Sat {
				return nil
			}
			ev, good, lemmas, _ := evalModel(vals)
			if good {
				return m.inputValues(ev)
			}
			if len(lemmas) == 0 {
				return nil
			}
			fixed = append(fixed, lemmas...)
		}
		return nil
	}
	fixHashes := func() map[string]string {
		if in := fixOf(isHash, ""); in != nil {
			return in
		}
		for _, hint := range []string{"", "????", "~~~~", "\"<&'", "%+ ;="} {
			if in := fixOf(isUF, hint); in != nil {
				return in
			}
		}
		return nil
	}
	for round := 0; round < 12; round++ {
		r, vals := m.solver.check(cur, vars)
		if r == Unsat {
			return nil, Unsat, true
		}
		if r != Sat {
			if in := fixHashes(); in != nil {
				return in, Sat, true
			}
			return nil, Unknown, false
		}
		ev, good, lemmas, pins := evalModel(vals)
		if good {
			return m.inputValues(ev), Sat, true
		}
		if len(lemmas) == 0 || time.Since(t0) > 20*time.Second {
			if in := fixHashes(); in != nil {
				return in, Sat, true
			}
			return m.inputValues(ev), Sat, false
		}
		cur = append(cur, lemmas...)
		// keep the arguments of uninterpreted functions as they are, if possible
		fixed := append(append([]*Term(nil), cur...), pins...)
		for i := 0; i < 4 && len(pins) > 0; i++ {
			r, vals := m.solver.check(fixed, vars)
			if r != Sat {
				break
			}
			ev, good, lemmas, more := evalModel(vals)
			if good {
				return m.inputValues(ev), Sat, true
			}
			if len(lemmas) == 0 {
				break
			}
			cur = append(cur, lemmas...)
			fixed = append(append(fixed, lemmas...), more...)
		}
	}
	if in := fixHashes(); in != nil {
		return in, Sat, true
	}
	ev := &evaluator{tb: m.tb, model: model, memo: map[*Term]any{}}
	return m.inputValues(ev), Sat, false
}

func (m *Machine) constTerm(t *Term, v any) *Term {
	switch v := v.(type) {
	case bool:
		return m.tb.Bool(v)
	case int64:
		if t.sort > 0 {
			return m.tb.BV(v, t.sort)
		}
		return m.tb.Int(v)
	case string:
		return m.tb.Str(v)
	}
	return nil
}

// subst replaces variables by constants.
func (tb *Table) subst(t *Term, sub map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if !t.vars {
			return t
		}
		if c := sub[t]; c != nil {
			return c
		}
		if r := memo[t]; r != nil {
			return r
		}
		r := t
		if t.op == "lin" {
			r = tb.Int(t.i)
			for _, p := range t.lin {
				r = tb.Add(r, tb.linScale(walk(p.t), p.c))
			}
		} else if len(t.args) > 0 {
			args := make([]*Term, len(t.args))
			changed := false
			for i, a := range t.args {
				args[i] = walk(a)
				changed = changed || args[i] != a
			}
			if changed {
				r = tb.rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return walk(t)
}

func hasUF(t *Term) bool {
	seen := map[*Term]bool{}
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if seen[x] || !x.vars {
			return false
		}
		seen[x] = true
		if isUF(x) {
			return true
		}
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		for _, p := range x.lin {
			if walk(p.t) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// ufArgVars are the variables below uninterpreted functions of t.
func (m *Machine) ufArgVars(t *Term) []*Term { return m.argVars(t, isUF) }

func isHash(t *Term) bool {
	switch t.op {
	case "sha1", "sha256", "sha384", "sha512", "hmac", "rsasig":
		return true
	}
	return false
}

func (m *Machine) argVars(t *Term, of func(*Term) bool) []*Term {
	var out []*Term
	seen := map[[2]any]bool{}
	var walk func(x *Term, in bool)
	walk = func(x *Term, in bool) {
		k := [2]any{x, in}
		if seen[k] || !x.vars {
			return
		}
		seen[k] = true
		in = in || of(x)
		if in {
			for _, s := range m.tb.syms(x) {
				if v := m.tb.list[s]; !isUF(v) {
					out = append(out, v)
				}
			}
		}
		for _, a := range x.args {
			walk(a, in)
		}
		for _, p := range x.lin {
			walk(p.t, in)
		}
	}
	walk(t, false)
	return out
}

func (m *Machine) ufLemmas(ev *evaluator, t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || !x.vars {
			return
		}
		seen[x] = true
		for _, a := range x.args {
			walk(a)
		}
		for _, p := range x.lin {
			walk(p.t)
		}
		if isUF(x) {
			v, ok := ev.eval(x)
			if !ok {
				return
			}
			pre := m.tb.True
			for _, a := range x.args {
				av, ok := ev.eval(a)
				if !ok {
					return
				}
				pre = m.tb.And(pre, m.rawEq(a, av))
			}
			concl := m.rawEq(x, v)
			out = append(out, m.tb.Or(m.tb.Not(pre), concl))
		}
	}
	walk(t)
	return out
}

func (m *Machine) rawEq(t *Term, v any) *Term {
	var c *Term
	switch v := v.(type) {
	case bool:
		return m.tb.Eq(t, m.tb.Bool(v))
	case int64:
		if t.sort > 0 {
			c = m.tb.BV(v, t.sort)
		} else {
			return m.tb.mk(&Term{op: "eq0", sort: SBool, args: []*Term{m.tb.Sub(t, m.tb.Int(v))}})
		}
	case string:
		c = m.tb.Str(v)
	}
	if c == t {
		return m.tb.True
	}
	return m.tb.mk(&Term{op: "=", sort: SBool, args: []*Term{t, c}})
}

func (m *Machine) inputValues(ev *evaluator) map[string]string {
	if m.evHook != nil {
		m.evHook(ev)
	}
	out := map[string]string{}
	for _, in := range m.inputs {
		v, ok := ev.eval(in.t)
		if !ok {
			v = nil
		}
		switch in.kind {
		case "str":
			s, _ := v.(string)
			out[in.name] = "s:" + fmt.Sprintf("%x", s)
		case "int":
			i, _ := v.(int64)
			out[in.name] = "i:" + strconv.FormatInt(i, 10)
		case "bool":
			b, _ := v.(bool)
			out[in.name] = "b:" + strconv.FormatBool(b)
		}
	}
	return out
}
