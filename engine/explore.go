package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type options struct {
	solverMS int
	workers  int
	budget   int
	maxPaths int
	deadline time.Time
	verbose  bool
	maxWit   int
}

type Explorer struct {
	opt     options
	prog    *Program
	fn      *ssa.Function
	name    string
	mu      sync.Mutex
	cond    *sync.Cond
	stack   [][]dec
	active  int
	stopped bool

	paths       int
	completed   int
	infeasible  int
	unsupported map[string]int
	internal    map[string]int
	incomplet   map[string]int
	reducedN    map[string]int
	notes       map[string]int
	reachCount  map[string]int
	cands       []*Candidate
	candCount   map[string]int
	witnesses   []*Witness
	witSig      map[string]int
	violEnd     int

	queries     int
	solverTime  time.Duration
	solverUnk   int
	steps       int64
	branches    int64
	asserts     int64
	discharged  int64
	cacheHits   int
	funcs       map[string]bool
	sampleConds []string
	onCand      func(*Candidate)
	timedOut    bool
}

func newExplorer(p *Program, fn *ssa.Function, opt options) *Explorer {
	e := &Explorer{opt: opt, prog: p, fn: fn, name: fn.Name(), unsupported: map[string]int{}, internal: map[string]int{}, incomplet: map[string]int{}, reducedN: map[string]int{},
		notes: map[string]int{}, reachCount: map[string]int{}, candCount: map[string]int{}, witSig: map[string]int{}, funcs: map[string]bool{}}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) note(f string, a ...any) {
	e.mu.Lock()
	e.notes[fmt.Sprintf(f, a...)]++
	e.mu.Unlock()
}
func (e *Explorer) incomplete(f string, a ...any) {
	e.mu.Lock()
	e.incomplet[fmt.Sprintf(f, a...)]++
	e.mu.Unlock()
}
func (e *Explorer) unknown(m *Machine, sl []*Term) {
	e.mu.Lock()
	e.solverUnk++
	if e.opt.verbose && e.solverUnk < 4 {
		fmt.Fprintf(os.Stderr, "UNKNOWN at %s:\n", m.pos())
		for _, t := range sl {
			fmt.Fprintf(os.Stderr, "   %s\n", clip(m.tb.SMT(t), 600))
		}
	}
	e.mu.Unlock()
}

func (e *Explorer) fork(m *Machine, d dec) {
	p := make([]dec, len(m.decs)+1)
	copy(p, m.decs)
	p[len(m.decs)] = d
	e.mu.Lock()
	e.stack = append(e.stack, p)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Explorer) wantCandidate(msg, known string) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := msg + "|" + known
	e.candCount[k]++
	if known != "" {
		return e.candCount[k] <= 3
	}
	return e.candCount[k] <= 12
}

func (e *Explorer) candidate(c *Candidate) {
	e.mu.Lock()
	e.cands = append(e.cands, c)
	e.mu.Unlock()
	if e.onCand != nil {
		e.onCand(c)
	}
}

func (e *Explorer) stop() {
	e.mu.Lock()
	e.stopped = true
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (e *Explorer) run() {
	e.stack = append(e.stack, nil)
	var wg sync.WaitGroup
	for i := 0; i < e.opt.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			e.worker(i)
		}(i)
	}
	wg.Wait()
}

func (e *Explorer) worker(i int) {
	var m *Machine
	for {
		e.mu.Lock()
		for len(e.stack) == 0 && e.active > 0 && !e.stopped {
			e.cond.Wait()
		}
		if e.stopped || len(e.stack) == 0 {
			e.mu.Unlock()
			break
		}
		if time.Now().After(e.opt.deadline) || e.opt.maxPaths > 0 && e.paths >= e.opt.maxPaths {
			e.timedOut = true
			e.stopped = true
			e.cond.Broadcast()
			e.mu.Unlock()
			break
		}
		p := e.stack[len(e.stack)-1]
		e.stack = e.stack[:len(e.stack)-1]
		e.active++
		e.paths++
		e.mu.Unlock()
		if m == nil {
			m = newMachine(e.prog, e)
			m.harness = e.name
		}
		if len(m.tb.list) > 400000 {
			// keep the term table bounded
			e.absorb(m)
			m.solver.close()
			m = newMachine(e.prog, e)
			m.harness = e.name
		}
		e.runPath(m, p)
		e.mu.Lock()
		e.active--
		e.cond.Broadcast()
		e.mu.Unlock()
	}
	if m != nil {
		e.absorb(m)
		m.solver.close()
	}
}

func (e *Explorer) absorb(m *Machine) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.queries += m.solver.queries
	e.solverTime += m.solver.time
	e.steps += m.totalSteps
	e.branches += m.branches
	e.asserts += m.asserts
	e.discharged += m.discharged
	e.cacheHits += m.cacheHit
	for f := range m.funcsHit {
		e.funcs[f] = true
	}
}

func (e *Explorer) runPath(m *Machine, prefix []dec) {
	m.resetPath()
	m.prefix = prefix
	m.budget = e.opt.budget
	m.trailOn = true
	defer m.undo()
	var end string
	var detail string
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathAbort:
					end, detail = r.kind, r.msg
					if r.kind == "unsupported" || r.kind == "internal" {
						detail += " @ " + m.pos()
					}
				case targetPanic:
					end = "panic"
					detail = m.panicString(r.v) + " at " + trimPos(r.where)
				default:
					end = "internal"
					detail = fmt.Sprintf("%v @ %s", r, m.pos())
					if e.opt.verbose {
						detail += "\n" + string(debug.Stack())
					}
				}
			}
		}()
		m.call(e.fn, nil, nil, nil)
		m.drain()
		end = "ok"
	}()
	m.kill(1)
	m.totalSteps += int64(m.steps)
	if end == "panic" {
		m.asserts++
		func() {
			defer func() {
				if r := recover(); r != nil {
					e.note("while reporting a panic: %v", r)
				}
			}()
			m.violation(m.tb.True, "PANIC "+stripLine(detail), "")
		}()
	}
	var wit *Witness
	if end == "ok" || end == "violation" || end == "panic" {
		sig := strings.Join(m.reach, ",")
		e.mu.Lock()
		n := e.witSig[sig]
		// natively goroutines may run in any order
		want := end == "ok" && m.sched == nil && (n < 3 && len(e.witnesses) < e.opt.maxWit || e.completed%41 == 40 && len(e.witnesses) < 2*e.opt.maxWit)
		if want {
			e.witSig[sig]++
		}
		e.mu.Unlock()
		if want {
			wit = m.witness()
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	for r := range m.reduced {
		e.reducedN[r]++
	}
	switch end {
	case "ok":
		e.completed++
		for _, r := range m.reach {
			e.reachCount[r]++
		}
		if wit != nil {
			e.witnesses = append(e.witnesses, wit)
		}
		if len(e.sampleConds) < 3 && len(m.pc) > 0 {
			var cs []string
			for _, c := range m.pc {
				cs = append(cs, clip(m.tb.SMT(c), 160))
				if len(cs) == 14 {
					break
				}
			}
			e.sampleConds = append(e.sampleConds, fmt.Sprintf("reach=[%s] path condition: %s", strings.Join(m.reach, ","), strings.Join(cs, " ∧ ")))
		}
	case "assume", "infeasible":
		e.infeasible++
	case "violation", "panic":
		e.violEnd++
	case "unsupported", "budget":
		e.unsupported[detail]++
	default:
		e.internal[end+": "+detail]++
	}
}

func trimPos(s string) string {
	if i := strings.LastIndex(s, "/repo/"); i >= 0 {
		return s[i+6:]
	}
	if i := strings.Index(s, "/verif/"); i >= 0 {
		return s[i:]
	}
	return s
}

// stripLine removes line:col so the class of a panic does not depend on layout.
func stripLine(s string) string { return s }

func (m *Machine) panicString(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.T == nil {
			return "panic(nil)"
		}
		if p, ok := x.V.(*Value); ok && p != nil {
			if s, ok := (*p).(Struct); ok && len(s) > 0 {
				if str, ok := s[0].(string); ok {
					return str
				}
			}
		}
		if s, ok := x.V.(string); ok {
			return s
		}
		return fmt.Sprintf("panic(%s)", x.T)
	}
	return fmt.Sprintf("%v", v)
}

func (m *Machine) witness() (w *Witness) {
	defer func() {
		if r := recover(); r != nil {
			m.ex.note("witness: %v", r)
			w = nil
		}
	}()
	inputs, res, exact := m.solveModelObs()
	if res != Sat || !exact {
		return nil
	}
	return inputs
}

func (m *Machine) solveModelObs() (*Witness, Result, bool) {
	var ev *evaluator
	m.evHook = func(e *evaluator) { ev = e }
	defer func() { m.evHook = nil }()
	in, res, exact := m.solveModel(nil)
	if res != Sat || !exact {
		return nil, res, exact
	}
	w := &Witness{Harness: m.harness, Inputs: in, Reach: append([]string(nil), m.reach...)}
	for _, o := range m.obs {
		w.Obs = append(w.Obs, o.name+"="+m.obsString(ev, o.v))
	}
	return w, res, exact
}

func (m *Machine) obsString(ev *evaluator, v Value) string {
	switch v := v.(type) {
	case string:
		return fmt.Sprintf("%q", v)
	case int64:
		return fmt.Sprint(v)
	case bool:
		return fmt.Sprint(v)
	case *Term:
		x, ok := ev.eval(v)
		if !ok {
			return "?"
		}
		if s, isS := x.(string); isS {
			return fmt.Sprintf("%q", s)
		}
		return fmt.Sprint(x)
	}
	return "?"
}

func sortedCounts(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s (x%d)", k, m[k]))
	}
	return out
}
