package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	opNone opKind = iota
	opReg
	opConst
	opGlobal
)

type operand struct {
	kind opKind
	reg  int
	c    Value
	g    *ssa.Global
}

type cinstr struct {
	in       ssa.Instruction
	dst      int
	ops      []operand
	loadOnly bool // IndexAddr whose referrers are all loads
	site     uint32
}

type cblock struct {
	ins   []cinstr
	preds []*ssa.BasicBlock
}

type fnInfo struct {
	fn     *ssa.Function
	nregs  int
	params []int
	fvs    []int
	blocks []cblock
	intr   intrinsic
	name   string
	inRepo bool
}

var fnCache sync.Map // *ssa.Function -> *fnInfo
var fnMu sync.Mutex
var siteCount uint32

func getInfo(fn *ssa.Function) *fnInfo {
	if v, ok := fnCache.Load(fn); ok {
		return v.(*fnInfo)
	}
	fnMu.Lock()
	defer fnMu.Unlock()
	if v, ok := fnCache.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{fn: fn, name: fnName(fn)}
	fi.intr = findIntrinsic(fn, fi.name)
	if fi.intr == nil {
		if fn.Blocks == nil && fn.Pkg != nil {
			fn.Pkg.Build()
		}
		compile(fi)
	}
	if p := fnPkgPath(fn); p != "" && isTargetPkg(p) {
		fi.inRepo = true
	}
	fnCache.Store(fn, fi)
	return fi
}

func fnName(fn *ssa.Function) string {
	s := fn.String()
	return s
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	if fn.Origin() != nil {
		return fnPkgPath(fn.Origin())
	}
	return ""
}

func isTargetPkg(p string) bool {
	return p == "github.com/lyokato/goidc" || strings.HasPrefix(p, "github.com/lyokato/goidc/")
}

func compile(fi *fnInfo) {
	fn := fi.fn
	regs := map[ssa.Value]int{}
	add := func(v ssa.Value) int {
		r := fi.nregs
		regs[v] = r
		fi.nregs++
		return r
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, add(p))
	}
	for _, p := range fn.FreeVars {
		fi.fvs = append(fi.fvs, add(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &fi.blocks[i]
		cb.preds = b.Preds
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			siteCount++
			ci := cinstr{in: in, dst: -1, site: siteCount}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			for _, op := range in.Operands(nil) {
				ci.ops = append(ci.ops, mkOperand(regs, *op))
			}
			if ia, ok := in.(*ssa.IndexAddr); ok {
				ci.loadOnly = true
				for _, r := range *ia.Referrers() {
					if _, dbg := r.(*ssa.DebugRef); dbg {
						continue
					}
					u, ok := r.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						ci.loadOnly = false
					}
				}
			}
			cb.ins = append(cb.ins, ci)
		}
	}
}

func mkOperand(regs map[ssa.Value]int, v ssa.Value) operand {
	switch v := v.(type) {
	case nil:
		return operand{}
	case *ssa.Const:
		return operand{kind: opConst, c: constVal(v)}
	case *ssa.Global:
		return operand{kind: opGlobal, g: v}
	case *ssa.Function:
		return operand{kind: opConst, c: v}
	case *ssa.Builtin:
		return operand{kind: opConst, c: v}
	}
	r, ok := regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %T %v", v, v))
	}
	return operand{kind: opReg, reg: r}
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			if b.Info()&types.IsUnsigned != 0 {
				return wrapInt(int64(c.Uint64()), t)
			}
			return wrapInt(c.Int64(), t)
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	return Poison{"const " + c.String()}
}

type deferred struct {
	fn   Value
	args []Value
}

type frame struct {
	m         *Machine
	fi        *fnInfo
	regs      []Value
	defers    []deferred
	panicking bool
	panicV    targetPanic
	result    Value
	caller    *frame
	lenient   bool // std package initialiser: failures poison the register
}

func (fr *frame) get(o *operand) Value {
	switch o.kind {
	case opReg:
		return fr.regs[o.reg]
	case opConst:
		return o.c
	case opGlobal:
		return fr.m.global(o.g)
	}
	return nil
}

func (m *Machine) call(fn *ssa.Function, args []Value, env []Value, caller *frame) Value {
	fi := getInfo(fn)
	if fi.intr != nil {
		return fi.intr(m, caller, fn, args)
	}
	if len(fi.blocks) == 0 {
		m.unsupported("no body: %s", fi.name)
	}
	if m.depth > 400 {
		m.unsupported("call depth in %s", fi.name)
	}
	if fi.inRepo && !m.funcsHit[fi.name] {
		m.funcsHit[fi.name] = true
	}
	m.depth++
	fr := &frame{m: m, fi: fi, regs: make([]Value, fi.nregs), caller: caller}
	for i, p := range fi.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fi.fvs {
		fr.regs[p] = env[i]
	}
	fr.runAll()
	m.depth--
	return fr.result
}

func (fr *frame) runAll() {
	m := fr.m
	if m.lenientInit == fr.fi.fn {
		fr.lenient = true
	}
	d0 := m.depth
	hasDefer := false
	_ = hasDefer
	run := func() (tp *targetPanic) {
		defer func() {
			if r := recover(); r != nil {
				if t, ok := r.(targetPanic); ok {
					m.depth = d0
					tp = &t
					return
				}
				panic(r)
			}
		}()
		fr.run(0)
		return nil
	}
	if !fnHasDefer(fr.fi) {
		fr.run(0)
		return
	}
	tp := run()
	if tp == nil {
		return
	}
	fr.panicking = true
	fr.panicV = *tp
	for fr.panicking && len(fr.defers) > 0 || len(fr.defers) > 0 {
		fr.runOneDefer()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
	// recovered: run the recover block
	if rb := fr.fi.fn.Recover; rb != nil {
		fr.run(rb.Index)
	} else {
		fr.result = zero(fr.fi.fn.Signature.Results())
		if fr.fi.fn.Signature.Results().Len() == 0 {
			fr.result = nil
		}
	}
}

var deferCache sync.Map

func fnHasDefer(fi *fnInfo) bool {
	if v, ok := deferCache.Load(fi); ok {
		return v.(bool)
	}
	has := false
	for _, b := range fi.blocks {
		for _, in := range b.ins {
			if _, ok := in.in.(*ssa.Defer); ok {
				has = true
			}
		}
	}
	deferCache.Store(fi, has)
	return has
}

func (fr *frame) runOneDefer() {
	n := len(fr.defers) - 1
	d := fr.defers[n]
	fr.defers = fr.defers[:n]
	func() {
		defer func() {
			if r := recover(); r != nil {
				if t, ok := r.(targetPanic); ok {
					fr.panicking = true
					fr.panicV = t
					return
				}
				panic(r)
			}
		}()
		fr.m.callValue(d.fn, d.args, fr)
	}()
}

func (m *Machine) callValue(f Value, args []Value, caller *frame) Value {
	switch f := f.(type) {
	case *ssa.Function:
		return m.call(f, args, nil, caller)
	case *Closure:
		if f == nil {
			m.nilDeref()
		}
		return m.call(f.fn, args, f.env, caller)
	case *ssa.Builtin:
		return m.builtin(f, args, caller)
	case nativeFn:
		return f(m, caller, args)
	}
	m.unsupported("call of %T", f)
	return nil
}

type nativeFn func(m *Machine, fr *frame, args []Value) Value

func (fr *frame) run(start int) {
	m := fr.m
	cur := start
	prev := -1
	for {
		b := &fr.fi.blocks[cur]
		next := -1
		// phis first, simultaneously
		i := 0
		if prev >= 0 {
			var tmp []Value
			for i < len(b.ins) {
				if _, ok := b.ins[i].in.(*ssa.Phi); !ok {
					break
				}
				for k, p := range b.preds {
					if p.Index == prev {
						tmp = append(tmp, fr.get(&b.ins[i].ops[k]))
						break
					}
				}
				i++
			}
			for k, v := range tmp {
				fr.regs[b.ins[k].dst] = v
			}
		}
		for ; i < len(b.ins); i++ {
			ci := &b.ins[i]
			m.steps++
			if m.steps > m.budget {
				panic(pathAbort{"budget", "instruction budget"})
			}
			m.site = ci.site
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = in.Block().Succs[0].Index
			case *ssa.If:
				m.curInstr = in
				if m.branch(fr.get(&ci.ops[0])) {
					next = in.Block().Succs[0].Index
				} else {
					next = in.Block().Succs[1].Index
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for k := range ci.ops {
						t[k] = fr.get(&ci.ops[k])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v := fr.get(&ci.ops[0])
				panic(targetPanic{v, fr.where(ci.in)})
			default:
				m.curInstr = ci.in
				if fr.lenient {
					fr.lenientExec(ci)
				} else {
					fr.exec(ci)
				}
			}
		}
		if next < 0 {
			m.unsupported("fell off block")
		}
		prev, cur = cur, next
	}
}

func (fr *frame) lenientExec(ci *cinstr) {
	m := fr.m
	d0 := m.depth
	defer func() {
		if r := recover(); r != nil {
			m.depth = d0
			why := fmt.Sprint(r)
			if ci.dst >= 0 {
				fr.regs[ci.dst] = Poison{why}
			}
		}
	}()
	if c, ok := ci.in.(*ssa.Call); ok {
		if f, ok := c.Call.Value.(*ssa.Function); ok {
			if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				return
			}
		}
	}
	fr.exec(ci)
}

func (fr *frame) where(in ssa.Instruction) string {
	return fr.m.prog.prog.Fset.Position(in.Pos()).String()
}

func (m *Machine) pos() string {
	if m.curInstr == nil {
		return "?"
	}
	return m.prog.prog.Fset.Position(m.curInstr.Pos()).String() + " in " + m.curInstr.Parent().String()
}

func (m *Machine) goPanicStr(s string) {
	panic(targetPanic{m.mkError("runtime error: " + s), m.pos()})
}
func (m *Machine) nilDeref() {
	m.goPanicStr("invalid memory address or nil pointer dereference")
}

func (m *Machine) load(p Value) Value {
	q, ok := p.(*Value)
	if !ok {
		if ps, isP := p.(Poison); isP {
			m.unsupported("poisoned pointer: %s", ps.why)
		}
		m.unsupported("load through %T", p)
	}
	if q == nil {
		m.nilDeref()
	}
	v := *q
	if ps, isP := v.(Poison); isP {
		m.unsupported("poisoned value: %s", ps.why)
	}
	if m.race != nil {
		m.touchCell(q, false)
	}
	return copyVal(v)
}

func (m *Machine) store(p Value, v Value) {
	q, ok := p.(*Value)
	if !ok {
		m.unsupported("store through %T", p)
	}
	if q == nil {
		m.nilDeref()
	}
	if m.lenientInit != nil && m.fixed[q] {
		return // a modelled global keeps its model
	}
	m.storeCell(q, v)
}

func (m *Machine) storeCell(q *Value, v Value) {
	switch old := (*q).(type) {
	case Struct:
		if nv, ok := v.(Struct); ok && len(nv) == len(old) {
			for i := range old {
				m.storeCell(&old[i], nv[i])
			}
			return
		}
	case Array:
		if nv, ok := v.(Array); ok && len(nv) == len(old) {
			if len(old) > 0 && &old[0] == &nv[0] {
				return
			}
			for i := range old {
				m.storeCell(&old[i], nv[i])
			}
			return
		}
	}
	if m.race != nil {
		m.touch(q, true)
	}
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{p: q, old: *q})
	}
	*q = copyVal(v)
}

func (fr *frame) exec(ci *cinstr) {
	m := fr.m
	set := func(v Value) { fr.regs[ci.dst] = v }
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(in.Type().Underlying().(*types.Pointer).Elem())
		set(p)
	case *ssa.UnOp:
		x := fr.get(&ci.ops[0])
		set(m.unop(in, x))
	case *ssa.BinOp:
		set(m.binop(in.Op, in.X.Type(), in.Y.Type(), in.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1])))
	case *ssa.Call:
		set(fr.doCall(&in.Call, ci))
	case *ssa.ChangeInterface:
		set(fr.get(&ci.ops[0]))
	case *ssa.ChangeType:
		set(fr.get(&ci.ops[0]))
	case *ssa.Convert:
		set(m.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0])))
	case *ssa.MultiConvert:
		set(m.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0])))
	case *ssa.Defer:
		f, args := fr.prepCall(&in.Call, ci)
		fr.defers = append(fr.defers, deferred{f, args})
	case *ssa.Extract:
		t, ok := fr.get(&ci.ops[0]).(Tuple)
		if !ok {
			m.unsupported("extract from %T", fr.get(&ci.ops[0]))
		}
		set(t[in.Index])
	case *ssa.Field:
		s, ok := fr.get(&ci.ops[0]).(Struct)
		if !ok {
			m.unsupported("field of %T", fr.get(&ci.ops[0]))
		}
		set(copyVal(s[in.Field]))
	case *ssa.FieldAddr:
		p, ok := fr.get(&ci.ops[0]).(*Value)
		if !ok {
			m.unsupported("fieldaddr of %T", fr.get(&ci.ops[0]))
		}
		if p == nil {
			m.nilDeref()
		}
		s, ok := (*p).(Struct)
		if !ok {
			m.unsupported("fieldaddr in %T", *p)
		}
		set(&s[in.Field])
	case *ssa.Go:
		f, args := fr.prepCall(&in.Call, ci)
		for i := range args {
			args[i] = copyVal(args[i])
		}
		if c, ok := f.(*Closure); ok && c == nil || f == nil {
			m.nilDeref()
		}
		m.spawn(func() { m.callValue(f, args, nil) })
	case *ssa.Send:
		m.send(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Select:
		set(fr.doSelect(in, ci))
	case *ssa.Index:
		set(m.index(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in.Index.Type()))
	case *ssa.IndexAddr:
		set(m.indexAddr(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in.Index.Type(), ci.loadOnly))
	case *ssa.Lookup:
		set(m.lookup(in, fr.get(&ci.ops[0]), fr.get(&ci.ops[1])))
	case *ssa.MakeChan:
		n := m.concInt(fr.get(&ci.ops[0]))
		if n < 0 {
			panic(targetPanic{m.mkError("makechan: size out of range"), m.pos()})
		}
		set(m.makeChan(int(n)))
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = fr.get(&ci.ops[i+1])
		}
		set(&Closure{in.Fn.(*ssa.Function), env})
	case *ssa.MakeInterface:
		v := fr.get(&ci.ops[0])
		if ps, ok := v.(Poison); ok {
			m.unsupported("poison: %s", ps.why)
		}
		set(Iface{in.X.Type(), v})
	case *ssa.MakeMap:
		set(newMap())
	case *ssa.MakeSlice:
		n := m.concInt(fr.get(&ci.ops[0]))
		c := m.concInt(fr.get(&ci.ops[1]))
		if n < 0 || c < n {
			m.goPanicStr("makeslice: len out of range")
		}
		if c > 1<<20 {
			m.unsupported("makeslice too large")
		}
		s := make(Slice, c)
		et := in.Type().Underlying().(*types.Slice).Elem()
		for i := range s {
			s[i] = zero(et)
		}
		set(s[:n])
	case *ssa.MapUpdate:
		mp, ok := fr.get(&ci.ops[0]).(*Map)
		if !ok {
			m.unsupported("mapupdate on %T", fr.get(&ci.ops[0]))
		}
		m.mapSet(mp, fr.get(&ci.ops[1]), copyVal(fr.get(&ci.ops[2])), in.Map.Type().Underlying().(*types.Map).Key())
	case *ssa.Next:
		set(m.next(in, fr.get(&ci.ops[0])))
	case *ssa.Range:
		switch x := fr.get(&ci.ops[0]).(type) {
		case *Map:
			set(&mapIter{m: x, back: fr.fi.inRepo && m.backwards(x)})
		case string:
			set(&strIter{s: x, conc: true})
		case *Term:
			t := m.simplify(x)
			if t.op == "str" {
				set(&strIter{s: t.s, conc: true})
				return
			}
			if !fixedBytes(pieces(t)) {
				t = m.explodeOpaque(t)
				if t.op == "str" {
					set(&strIter{s: t.s, conc: true})
					return
				}
			}
			it := &strIter{}
			for _, b := range m.tb.explode(pieces(t)) {
				it.bytes = append(it.bytes, intVal(b))
			}
			set(it)
		default:
			m.unsupported("range over %T", x)
		}
	case *ssa.RunDefers:
		for len(fr.defers) > 0 {
			fr.runOneDefer()
			if fr.panicking {
				tp := fr.panicV
				fr.panicking = false
				panic(tp)
			}
		}
	case *ssa.Slice:
		set(m.slice(in, fr.get(&ci.ops[0]), optGet(fr, ci, 1), optGet(fr, ci, 2), optGet(fr, ci, 3)))
	case *ssa.SliceToArrayPointer:
		s, ok := fr.get(&ci.ops[0]).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !ok {
			m.unsupported("slice to array pointer")
		}
		if int64(len(s)) < n {
			m.goPanicStr("cannot convert slice to array pointer")
		}
		p := new(Value)
		*p = Array(s[:n])
		set(p)
	case *ssa.Store:
		m.store(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.TypeAssert:
		set(m.typeAssert(in, fr.get(&ci.ops[0])))
	case *ssa.Phi:
		// entry block phi: cannot happen
	default:
		m.unsupported("instruction %T", in)
	}
}

func optGet(fr *frame, ci *cinstr, i int) Value {
	if i >= len(ci.ops) || ci.ops[i].kind == opNone {
		return nil
	}
	return fr.get(&ci.ops[i])
}

func (fr *frame) prepCall(c *ssa.CallCommon, ci *cinstr) (Value, []Value) {
	m := fr.m
	if c.IsInvoke() {
		recv, ok := fr.get(&ci.ops[0]).(Iface)
		if !ok {
			m.unsupported("invoke on %T", fr.get(&ci.ops[0]))
		}
		if recv.T == nil {
			m.nilDeref()
		}
		args := make([]Value, len(ci.ops))
		args[0] = recv.V
		for i := 1; i < len(ci.ops); i++ {
			args[i] = fr.get(&ci.ops[i])
		}
		f := m.findMethod(recv.T, c.Method)
		if f == nil {
			m.unsupported("method %s of %s", c.Method, recv.T)
		}
		return f, args
	}
	f := fr.get(&ci.ops[0])
	args := make([]Value, len(ci.ops)-1)
	for i := range args {
		args[i] = fr.get(&ci.ops[i+1])
	}
	return f, args
}

func (m *Machine) findMethod(t types.Type, meth *types.Func) Value {
	f := m.prog.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if f == nil {
		return nil
	}
	return f
}

func (fr *frame) doCall(c *ssa.CallCommon, ci *cinstr) Value {
	f, args := fr.prepCall(c, ci)
	if b, ok := f.(*ssa.Builtin); ok {
		return fr.m.builtinT(b, args, fr, c)
	}
	for i, a := range args {
		switch a := a.(type) {
		case Struct, Array:
			args[i] = copyVal(a)
		case Poison:
			fr.m.unsupported("poison argument: %s", a.why)
		}
	}
	r := fr.m.callValue(f, args, fr)
	fr.m.curInstr = ci.in
	fr.m.site = ci.site
	return r
}

// ---------- operators

func (m *Machine) unop(in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		return m.load(x)
	case token.ARROW:
		v, ok := m.recv(x, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	case token.NOT:
		if b, ok := x.(bool); ok {
			return !b
		}
		return boolVal(m.tb.Not(m.boolT(x)))
	case token.SUB:
		switch v := x.(type) {
		case int64:
			return wrapInt(-v, in.Type())
		case float64:
			return -v
		case *SymFloat:
			return &SymFloat{m.tb.linScale(v.t, -1)}
		case *Term:
			return m.arith(token.SUB, in.Type(), int64(0), v)
		}
	case token.XOR:
		switch v := x.(type) {
		case int64:
			return wrapInt(^v, in.Type())
		case *Term:
			return m.arith(token.XOR, in.Type(), v, int64(-1))
		}
	}
	m.unsupported("unop %s %T", in.Op, x)
	return nil
}

func (m *Machine) binop(op token.Token, xt, yt, rt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return m.eqAny(xt, yt, x, y)
	case token.NEQ:
		r := m.eqAny(xt, yt, x, y)
		if b, ok := r.(bool); ok {
			return !b
		}
		return boolVal(m.tb.Not(r.(*Term)))
	}
	u := basicOf(xt)
	if u == nil {
		m.unsupported("binop %s on %v", op, xt)
	}
	info := u.Info()
	switch {
	case info&types.IsString != 0:
		xs, ok1 := x.(string)
		ys, ok2 := y.(string)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return xs + ys
			case token.LSS:
				return xs < ys
			case token.LEQ:
				return xs <= ys
			case token.GTR:
				return xs > ys
			case token.GEQ:
				return xs >= ys
			}
		}
		a, b := m.str(x), m.str(y)
		switch op {
		case token.ADD:
			return m.strVal(m.tb.Concat(a, b))
		case token.LSS:
			return boolVal(m.tb.StrLt(a, b))
		case token.GTR:
			return boolVal(m.tb.StrLt(b, a))
		case token.LEQ:
			return boolVal(m.tb.Not(m.tb.StrLt(b, a)))
		case token.GEQ:
			return boolVal(m.tb.Not(m.tb.StrLt(a, b)))
		}
	case info&types.IsInteger != 0:
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return m.intCmp(op, xt, x, y)
		case token.SHL, token.SHR:
			return m.shift(op, xt, yt, x, y)
		}
		xi, ok1 := x.(int64)
		yi, ok2 := y.(int64)
		if ok1 && ok2 {
			return m.concArith(op, xt, xi, yi)
		}
		return m.arith(op, xt, x, y)
	case info&types.IsFloat != 0:
		xf, ok1 := x.(float64)
		yf, ok2 := y.(float64)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return xf + yf
			case token.SUB:
				return xf - yf
			case token.MUL:
				return xf * yf
			case token.QUO:
				return xf / yf
			case token.LSS:
				return xf < yf
			case token.LEQ:
				return xf <= yf
			case token.GTR:
				return xf > yf
			case token.GEQ:
				return xf >= yf
			}
		}
		if op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ {
			// compare float of int with constants
			a, b := m.floatCmpInt(x), m.floatCmpInt(y)
			switch op {
			case token.LSS:
				return boolVal(m.tb.Lt(a, b))
			case token.LEQ:
				return boolVal(m.tb.Le(a, b))
			case token.GTR:
				return boolVal(m.tb.Lt(b, a))
			case token.GEQ:
				return boolVal(m.tb.Le(b, a))
			}
		}
		if op == token.ADD || op == token.SUB {
			a, b := m.floatCmpInt(x), m.floatCmpInt(y)
			if op == token.ADD {
				return &SymFloat{m.tb.Add(a, b)}
			}
			return &SymFloat{m.tb.Sub(a, b)}
		}
	case info&types.IsBoolean != 0:
		// && || are control flow; & | not defined on bool
	}
	m.unsupported("binop %s on %v (%T,%T)", op, xt, x, y)
	return nil
}

func (m *Machine) floatCmpInt(v Value) *Term { return m.floatInt(v) }

func (m *Machine) eqAny(xt, yt types.Type, x, y Value) Value {
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi && !yi {
		if b, ok := yt.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return x.(Iface).T == nil
		}
		y = Iface{yt, y}
		return m.equal(xt, x, y)
	}
	if yi && !xi {
		if b, ok := xt.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return y.(Iface).T == nil
		}
		return m.equal(yt, Iface{xt, x}, y)
	}
	for _, v := range []Value{x, y} {
		if p, ok := v.(Poison); ok {
			m.unsupported("poison compare: %s", p.why)
		}
	}
	// nil comparisons
	switch xt.Underlying().(type) {
	case *types.Slice:
		if isNilSlice(x) && isNilSlice(y) {
			return true
		}
		return false
	case *types.Signature:
		return isNilFunc(x) && isNilFunc(y)
	}
	return m.equal(xt, x, y)
}

func (m *Machine) concArith(op token.Token, t types.Type, x, y int64) Value {
	uns := isUnsigned(t)
	switch op {
	case token.ADD:
		return wrapInt(x+y, t)
	case token.SUB:
		return wrapInt(x-y, t)
	case token.MUL:
		return wrapInt(x*y, t)
	case token.QUO:
		if y == 0 {
			m.goPanicStr("integer divide by zero")
		}
		if uns {
			return wrapInt(int64(uint64(x)/uint64(y)), t)
		}
		if y == -1 {
			return wrapInt(-x, t)
		}
		return wrapInt(x/y, t)
	case token.REM:
		if y == 0 {
			m.goPanicStr("integer divide by zero")
		}
		if uns {
			return wrapInt(int64(uint64(x)%uint64(y)), t)
		}
		if y == -1 {
			return int64(0)
		}
		return wrapInt(x%y, t)
	case token.AND:
		return wrapInt(x&y, t)
	case token.OR:
		return wrapInt(x|y, t)
	case token.XOR:
		return wrapInt(x^y, t)
	case token.AND_NOT:
		return wrapInt(x&^y, t)
	}
	m.unsupported("int op %s", op)
	return nil
}

func isBVTerm(v Value) bool {
	t, ok := v.(*Term)
	return ok && t.sort > 0
}

func intRange(t types.Type) (lo, hi int64, big bool) {
	w := intWidth(t)
	if isUnsigned(t) {
		if w == 64 {
			return 0, math.MaxInt64, true
		}
		return 0, int64(1)<<uint(w) - 1, false
	}
	if w == 64 {
		return math.MinInt64, math.MaxInt64, false
	}
	return -(int64(1) << uint(w-1)), int64(1)<<uint(w-1) - 1, false
}

func (m *Machine) wrapTerm(r *Term, t types.Type) Value {
	lo, hi, big := intRange(t)
	if r.hasLo && r.hasHi && r.lo >= lo && r.hi <= hi {
		return intVal(r)
	}
	// wrap via ite (one wrap in each direction)
	w := intWidth(t)
	tb := m.tb
	var full, hiT *Term
	if w == 64 {
		full = tb.BigInt("18446744073709551616")
	} else {
		full = tb.Int(int64(1) << uint(w))
	}
	if big {
		hiT = tb.BigInt("18446744073709551615")
	} else {
		hiT = tb.Int(hi)
	}
	res := tb.Ite(tb.Lt(hiT, r), tb.Sub(r, full), r)
	res = tb.Ite(tb.Lt(r, tb.Int(lo)), tb.Add(r, full), res)
	if res.op == "ite" {
		res.hasLo, res.lo = true, lo
		if !big {
			res.hasHi, res.hi = true, hi
		}
	}
	return intVal(res)
}

func (m *Machine) arith(op token.Token, t types.Type, x, y Value) Value {
	tb := m.tb
	w := intWidth(t)
	bv := isBVTerm(x) && (isBVTerm(y) || isConcInt(y)) || isBVTerm(y) && isConcInt(x)
	bitop := op == token.AND || op == token.OR || op == token.XOR || op == token.AND_NOT
	if bitop && !bv {
		// Int & const mask of low bits
		x = m.toBV(x, w)
		y = m.toBV(y, w)
		bv = true
	}
	if bv {
		a, b := m.bvT(x, w), m.bvT(y, w)
		var r *Term
		switch op {
		case token.ADD:
			r = tb.BVOp("bvadd", a, b)
		case token.SUB:
			r = tb.BVOp("bvsub", a, b)
		case token.MUL:
			r = tb.BVOp("bvmul", a, b)
		case token.AND:
			r = tb.BVOp("bvand", a, b)
		case token.OR:
			r = tb.BVOp("bvor", a, b)
		case token.XOR:
			r = tb.BVOp("bvxor", a, b)
		case token.AND_NOT:
			r = tb.BVOp("bvand", a, tb.BVOp("bvxor", b, tb.BV(-1, w)))
		case token.QUO, token.REM:
			if b.op == "bv" && (isUnsigned(t) || (a.op == "zero_extend" && sext(b.i, w) > 0)) {
				if mask(b.i, w) == 0 {
					m.goPanicStr("integer divide by zero")
				}
				if op == token.QUO {
					r = tb.BVOp("bvudiv", a, b)
				} else {
					r = tb.BVOp("bvurem", a, b)
				}
			}
		}
		if r != nil {
			return m.bvVal(r, t)
		}
	}
	a, b := m.intT(x, t), m.intT(y, t)
	switch op {
	case token.ADD:
		return m.wrapTerm(tb.Add(a, b), t)
	case token.SUB:
		return m.wrapTerm(tb.Sub(a, b), t)
	case token.MUL:
		if a.op == "int" && a.s == "" {
			a, b = b, a
		}
		if b.op == "int" && b.s == "" {
			if a.hasLo && a.hasHi && absI(a.lo) < 1<<31 && absI(a.hi) < 1<<31 && absI(b.i) < 1<<31 {
				return m.wrapTerm(tb.linScale(a, b.i), t)
			}
			if b.i == 1 {
				return intVal(a)
			}
			// general: bound check by branching on the no-overflow range
			lim := math.MaxInt64 / absI(b.i)
			if m.branch(boolVal(tb.And(tb.Le(a, tb.Int(lim)), tb.Le(tb.Int(-lim), a)))) {
				return intVal(tb.linScale(a, b.i))
			}
			m.unsupported("overflowing multiplication")
		}
	case token.QUO, token.REM:
		if b.op == "int" && b.s == "" {
			if b.i == 0 {
				m.goPanicStr("integer divide by zero")
			}
			if b.i > 0 {
				if a.hasLo && a.lo >= 0 || m.branch(boolVal(tb.Le(tb.Int(0), a))) {
					if op == token.REM {
						return intVal(tb.IntMod(a, b))
					}
					d := tb.mk(&Term{op: "div", sort: SInt, args: []*Term{a, b}})
					d.hasLo, d.lo = true, 0
					if a.hasHi {
						d.hasHi, d.hi = true, a.hi/b.i
					}
					return intVal(d)
				}
				na := tb.linScale(a, -1)
				if op == token.REM {
					return intVal(tb.linScale(tb.IntMod(na, b), -1))
				}
				d := tb.mk(&Term{op: "div", sort: SInt, args: []*Term{na, b}})
				d.hasLo, d.lo = true, 0
				return intVal(tb.linScale(d, -1))
			}
		}
	}
	// fall back to a concrete value of one operand
	if _, ok := y.(*Term); ok {
		return m.arithC(op, t, x, m.concretize(b))
	}
	return m.arithC(op, t, m.concretize(a), y)
}

func absI(i int64) int64 {
	if i < 0 {
		return -i
	}
	return i
}

func (m *Machine) arithC(op token.Token, t types.Type, x, y Value) Value {
	xi, ok1 := x.(int64)
	yi, ok2 := y.(int64)
	if ok1 && ok2 {
		return m.concArith(op, t, xi, yi)
	}
	return m.arith(op, t, x, y)
}

func isConcInt(v Value) bool { _, ok := v.(int64); return ok }

func (m *Machine) toBV(v Value, w Sort) Value {
	switch v := v.(type) {
	case *Term:
		if v.sort == SInt {
			return m.tb.Int2BV(v, w)
		}
	}
	return v
}

func (m *Machine) bvVal(r *Term, t types.Type) Value {
	if r.op == "bv" {
		if isUnsigned(t) {
			return wrapInt(r.i, t)
		}
		return sext(r.i, r.sort)
	}
	return r
}

func (m *Machine) intCmp(op token.Token, t types.Type, x, y Value) Value {
	xi, ok1 := x.(int64)
	yi, ok2 := y.(int64)
	uns := isUnsigned(t)
	if ok1 && ok2 {
		if uns {
			a, b := uint64(xi), uint64(yi)
			switch op {
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
		switch op {
		case token.LSS:
			return xi < yi
		case token.LEQ:
			return xi <= yi
		case token.GTR:
			return xi > yi
		case token.GEQ:
			return xi >= yi
		}
	}
	if isBVTerm(x) && (ok2 || isBVTerm(y)) || isBVTerm(y) && ok1 {
		w := intWidth(t)
		a, b := m.bvT(x, w), m.bvT(y, w)
		lt, le := "bvslt", "bvsle"
		if uns {
			lt, le = "bvult", "bvule"
		}
		switch op {
		case token.LSS:
			return boolVal(m.tb.BVCmp(lt, a, b))
		case token.LEQ:
			return boolVal(m.tb.BVCmp(le, a, b))
		case token.GTR:
			return boolVal(m.tb.BVCmp(lt, b, a))
		case token.GEQ:
			return boolVal(m.tb.BVCmp(le, b, a))
		}
	}
	a, b := m.intT(x, t), m.intT(y, t)
	switch op {
	case token.LSS:
		return boolVal(m.tb.Lt(a, b))
	case token.LEQ:
		return boolVal(m.tb.Le(a, b))
	case token.GTR:
		return boolVal(m.tb.Lt(b, a))
	}
	return boolVal(m.tb.Le(b, a))
}

func (m *Machine) shift(op token.Token, xt, yt types.Type, x, y Value) Value {
	n := m.concInt(y)
	if n < 0 {
		if isUnsigned(yt) {
			n = 64
		} else {
			m.goPanicStr("negative shift amount")
		}
	}
	w := intWidth(xt)
	switch v := x.(type) {
	case int64:
		if op == token.SHL {
			if n >= 64 {
				return int64(0)
			}
			return wrapInt(v<<uint(n), xt)
		}
		if isUnsigned(xt) {
			if n >= 64 {
				return int64(0)
			}
			return wrapInt(int64(uint64(mask(v, w))>>uint(n)), xt)
		}
		if n >= 64 {
			n = 63
		}
		return wrapInt(v>>uint(n), xt)
	case *Term:
		a := m.bvT(v, w)
		if n > int64(w) {
			n = int64(w)
		}
		b := m.tb.BV(n, w)
		if op == token.SHL {
			return m.bvVal(m.tb.BVOp("bvshl", a, b), xt)
		}
		if isUnsigned(xt) || a.op == "zero_extend" {
			return m.bvVal(m.tb.BVOp("bvlshr", a, b), xt)
		}
		return m.bvVal(m.tb.BVOp("bvashr", a, b), xt)
	}
	m.unsupported("shift %T", x)
	return nil
}

func (m *Machine) concInt(v Value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		t := m.simplify(v)
		if t.op == "int" && t.s == "" || t.op == "bv" {
			return t.i
		}
		r, ok := m.concretize(t).(int64)
		if ok {
			return r
		}
	}
	m.unsupported("concInt %T", v)
	return 0
}

func (m *Machine) convert(from, to types.Type, x Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	switch tu := tu.(type) {
	case *types.Basic:
		switch {
		case tu.Info()&types.IsString != 0:
			switch f := fu.(type) {
			case *types.Slice:
				eb := basicOf(f.Elem())
				if eb != nil && eb.Kind() == types.Uint8 {
					return m.strVal(m.bytesTerm(x))
				}
				// []rune
				s := x.(Slice)
				var ps []*Term
				for _, e := range s {
					switch e := e.(type) {
					case int64:
						ps = append(ps, m.tb.Str(string(rune(e))))
					case *Term:
						if e.sort > 0 { // ASCII byte widened
							ps = append(ps, m.tb.ByteStr(m.tb.Trunc(e, 8)))
						} else {
							m.unsupported("rune to string")
						}
					}
				}
				return m.strVal(m.tb.Concat(ps...))
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return x
				}
				if f.Info()&types.IsInteger != 0 {
					switch v := x.(type) {
					case int64:
						return string(rune(v))
					case *Term:
						if v.sort > 0 {
							// assume ASCII: branch
							if m.branch(boolVal(m.tb.BVCmp("bvult", v, m.tb.BV(128, v.sort)))) {
								return m.strVal(m.tb.ByteStr(m.tb.Trunc(v, 8)))
							}
						}
						m.unsupported("string(rune) of symbolic")
					}
				}
			}
		case tu.Info()&types.IsInteger != 0:
			if fb, ok := fu.(*types.Basic); ok {
				if fb.Info()&types.IsInteger != 0 {
					switch v := x.(type) {
					case int64:
						return wrapInt(v, to)
					case *Term:
						return m.convInt(v, from, to)
					}
				}
				if fb.Info()&types.IsFloat != 0 {
					switch v := x.(type) {
					case float64:
						if math.IsNaN(v) || math.IsInf(v, 0) || v >= 9.3e18 || v <= -9.3e18 {
							return wrapInt(math.MinInt64, to)
						}
						return wrapInt(int64(v), to)
					case *SymFloat:
						return m.wrapTerm(v.t, to)
					}
				}
				if fb.Kind() == types.UnsafePointer {
					m.unsupported("unsafe conversion")
				}
			}
		case tu.Info()&types.IsFloat != 0:
			switch v := x.(type) {
			case int64:
				if isUnsigned(from) {
					return float64(uint64(v))
				}
				return float64(v)
			case float64:
				if tu.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *SymFloat:
				return v
			case *Term:
				t := m.intT(v, from)
				const l = int64(1) << 53
				if !(t.hasLo && t.hasHi && t.lo >= -l && t.hi <= l) {
					if !m.branch(boolVal(m.tb.And(m.tb.Le(m.tb.Int(-l), t), m.tb.Le(t, m.tb.Int(l))))) {
						m.unsupported("inexact float conversion")
					}
				}
				return &SymFloat{t}
			}
		case tu.Info()&types.IsBoolean != 0:
			return x
		case tu.Kind() == types.UnsafePointer:
			return x
		}
	case *types.Slice:
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			eb := basicOf(tu.Elem())
			if eb.Kind() == types.Uint8 {
				switch v := x.(type) {
				case string:
					return bytesToSlice([]byte(v))
				case *Term:
					return m.strToBytes(m.simplify(v))
				}
			}
			// []rune
			switch v := x.(type) {
			case string:
				var s Slice = Slice{}
				for _, r := range v {
					s = append(s, int64(r))
				}
				return s
			case *Term:
				t := m.simplify(v)
				if !fixedBytes(pieces(t)) {
					t = m.explodeOpaque(t)
				}
				s := Slice{}
				for _, b := range m.tb.explode(pieces(t)) {
					m.asciiOnly(b)
					s = append(s, intVal(m.tb.ZeroExt(b, 32)))
				}
				return s
			}
		}
		return x
	case *types.Pointer:
		return x
	default:
		return x
	}
	m.unsupported("convert %v -> %v (%T)", from, to, x)
	return nil
}

func (m *Machine) asciiOnly(b *Term) {
	if b.op == "bv" {
		if b.i >= 128 {
			m.unsupported("non-ASCII byte in rune context")
		}
		return
	}
	if b.cs != nil {
		ok := true
		for i := 128; i < 256; i++ {
			if b.cs.has(byte(i)) {
				ok = false
			}
		}
		if ok {
			return
		}
	}
	if !m.branch(boolVal(m.tb.BVCmp("bvult", b, m.tb.BV(128, 8)))) {
		m.unsupported("non-ASCII byte in rune context")
	}
}

func (m *Machine) convInt(v *Term, from, to types.Type) Value {
	tb := m.tb
	wf, wt := intWidth(from), intWidth(to)
	if v.sort > 0 {
		var r *Term
		if wt == wf {
			r = v
		} else if wt < wf {
			r = tb.Trunc(v, wt)
		} else if isUnsigned(from) {
			r = tb.ZeroExt(v, wt)
		} else {
			r = tb.SignExt(v, wt)
		}
		return m.bvVal(r, to)
	}
	lo, hi, big := intRange(to)
	if v.hasLo && v.lo >= lo && (big || v.hasHi && v.hi <= hi) {
		return v
	}
	if wt == 64 {
		// sign change
		if isUnsigned(to) {
			return intVal(tb.Ite(tb.Lt(v, tb.Int(0)), tb.Add(v, tb.BigInt("18446744073709551616")), v))
		}
		if isUnsigned(from) && wf == 64 {
			return intVal(tb.Ite(tb.Lt(tb.Int(math.MaxInt64), v), tb.Sub(v, tb.BigInt("18446744073709551616")), v))
		}
		return v
	}
	if m.branch(boolVal(tb.And(tb.Le(tb.Int(lo), v), tb.Le(v, tb.Int(hi))))) {
		return v
	}
	return m.bvVal(tb.Int2BV(v, wt), to)
}

// ---------- indexing

func (m *Machine) boundsCheck(i Value, n *Term, it types.Type) {
	idx := m.intT(i, it)
	ok := m.tb.And(m.tb.Le(m.tb.Int(0), idx), m.tb.Lt(idx, n))
	if !m.branch(boolVal(ok)) {
		m.goPanicStr("index out of range")
	}
}

func (m *Machine) index(x, i Value, it types.Type) Value {
	switch v := x.(type) {
	case Array:
		if ii, ok := i.(int64); ok {
			if ii < 0 || ii >= int64(len(v)) {
				m.goPanicStr("index out of range")
			}
			return copyVal(v[ii])
		}
		return m.tableLookup(Slice(v), i, it)
	case string, *Term:
		return m.strIndex(m.str(x), i, it)
	}
	m.unsupported("index %T", x)
	return nil
}

func (m *Machine) strIndex(s *Term, i Value, it types.Type) Value {
	s = m.simplify(s)
	if t, ok := i.(*Term); ok {
		i = intVal(m.simplify(t))
	}
	if ii, ok := i.(int64); ok {
		if s.op == "str" {
			if ii < 0 || ii >= int64(len(s.s)) {
				m.goPanicStr("index out of range")
			}
			return int64(s.s[ii])
		}
		m.boundsCheck(i, m.tb.StrLen(s), it)
		return m.byteOf(s, int(ii))
	}
	m.boundsCheck(i, m.tb.StrLen(s), it)
	if s.op == "str" {
		return m.tableLookup(bytesToSlice([]byte(s.s)), i, it)
	}
	return m.strIndex(s, m.concretize(i.(*Term)), it)
}

func (m *Machine) byteOf(s *Term, i int) Value {
	off := 0
	ps := pieces(s)
	for k, p := range ps {
		if p.minLen == p.maxLen {
			if i < off+p.minLen {
				return intVal(m.tb.ByteAt(p, i-off))
			}
			off += p.minLen
			continue
		}
		// variable-length piece: if the byte is certainly inside
		if i < off+p.minLen {
			return intVal(m.tb.ByteAt(p, i-off))
		}
		_ = k
		break
	}
	t := m.explodeOpaque(s)
	return m.byteOf(t, i)
}

// tableLookup builds an ite-chain read of a table at a symbolic index.
func (m *Machine) tableLookup(tab Slice, i Value, it types.Type) Value {
	m.boundsCheck(i, m.tb.Int(int64(len(tab))), it)
	t := m.simplify(i.(*Term))
	if t.op == "int" || t.op == "bv" {
		return copyVal(tab[t.i])
	}
	if len(tab) == 0 {
		m.goPanicStr("index out of range")
	}
	for _, e := range tab {
		if _, ok := e.(int64); !ok {
			// fork over the possible entries
			return m.tableFork(tab, t, it)
		}
	}
	if t.sort == SInt {
		var r *Term
		for k := len(tab) - 1; k >= 0; k-- {
			c := m.tb.Int(tab[k].(int64))
			if r == nil {
				r = c
			} else {
				r = m.tb.Ite(m.tb.EqInt(t, m.tb.Int(int64(k))), c, r)
			}
		}
		return intVal(r)
	}
	// BV index: compress runs value = idx + c ; result BV8 if all values < 256
	w := t.sort
	nw := t
	if w > 8 && len(tab) <= 256 {
		nw = m.tb.Trunc(t, 8)
	}
	allByte := true
	for _, e := range tab {
		if e.(int64) < 0 || e.(int64) > 255 {
			allByte = false
		}
	}
	if !allByte || nw.sort != 8 {
		return m.tableLookup2(tab, t, it)
	}
	type run struct {
		start int
		delta int64
		konst bool
	}
	var runs []run
	for k := 0; k < len(tab); {
		v := tab[k].(int64)
		e := k + 1
		for e < len(tab) && tab[e].(int64)-int64(e) == v-int64(k) {
			e++
		}
		f := k + 1
		for f < len(tab) && tab[f].(int64) == v {
			f++
		}
		if f > e {
			runs = append(runs, run{k, v, true})
			k = f
		} else {
			runs = append(runs, run{k, v - int64(k), false})
			k = e
		}
	}
	var r *Term
	for k := len(runs) - 1; k >= 0; k-- {
		var val *Term
		if runs[k].konst {
			val = m.tb.BV(runs[k].delta, 8)
		} else {
			val = m.tb.BVOp("bvadd", nw, m.tb.BV(runs[k].delta, 8))
		}
		if r == nil {
			r = val
		} else {
			r = m.tb.Ite(m.tb.BVCmp("bvult", nw, m.tb.BV(int64(runs[k+1].start), 8)), val, r)
		}
	}
	var cs CharSet
	for _, e := range tab {
		cs.add(byte(e.(int64)))
	}
	if r.op != "bv" {
		r.cs = &cs
	}
	return intVal(r)
}

// tableFork reads a table by forking over its distinct entries.
func (m *Machine) tableFork(tab Slice, t *Term, it types.Type) Value {
	same := func(a, b Value) bool {
		switch x := a.(type) {
		case Slice:
			y, ok := b.(Slice)
			return ok && x == nil && y == nil
		case bool, string, int64:
			return a == b
		}
		return false
	}
	var groups [][]int
next:
	for k := range tab {
		for g := range groups {
			if same(tab[groups[g][0]], tab[k]) {
				groups[g] = append(groups[g], k)
				continue next
			}
		}
		groups = append(groups, []int{k})
	}
	sort.SliceStable(groups, func(i, j int) bool { return len(groups[i]) < len(groups[j]) })
	for g, ks := range groups {
		if g == len(groups)-1 {
			return copyVal(tab[ks[0]])
		}
		var cs []*Term
		for _, k := range ks {
			cs = append(cs, m.intCmpEq(t, int64(k), it))
		}
		if m.branch(m.simplifyVal(m.tb.Or(cs...))) {
			return copyVal(tab[ks[0]])
		}
	}
	return nil
}

func (m *Machine) tableLookup2(tab Slice, t *Term, it types.Type) Value {
	for k := range tab {
		if k == len(tab)-1 || m.branch(boolVal(m.intCmpEq(t, int64(k), it))) {
			return copyVal(tab[k])
		}
	}
	return nil
}

func (m *Machine) indexAddr(x, i Value, it types.Type, loadOnly bool) Value {
	var s Slice
	switch v := x.(type) {
	case Slice:
		s = v
	case *Value:
		if v == nil {
			m.nilDeref()
		}
		a, ok := (*v).(Array)
		if !ok {
			m.unsupported("indexaddr into %T", *v)
		}
		s = Slice(a)
	case *SymBytes:
		if loadOnly {
			p := new(Value)
			*p = m.strIndex(v.t, i, it)
			return p
		}
		m.unsupported("write into opaque bytes")
	default:
		if ps, ok := x.(Poison); ok {
			m.unsupported("poison: %s", ps.why)
		}
		m.unsupported("indexaddr %T", x)
	}
	if t, ok := i.(*Term); ok {
		i = intVal(m.simplify(t))
	}
	if ii, ok := i.(int64); ok {
		if ii < 0 || ii >= int64(len(s)) {
			m.goPanicStr("index out of range")
		}
		return &s[ii]
	}
	if loadOnly {
		p := new(Value)
		*p = m.tableLookup(s, i, it)
		return p
	}
	m.boundsCheck(i, m.tb.Int(int64(len(s))), it)
	for k := range s {
		if k == len(s)-1 || m.branch(boolVal(m.intCmpEq(i, int64(k), it))) {
			return &s[k]
		}
	}
	return nil
}

func (m *Machine) lookup(in *ssa.Lookup, x, k Value) Value {
	switch v := x.(type) {
	case *Map:
		mt := in.X.Type().Underlying().(*types.Map)
		e := m.mapFind(v, k, mt.Key())
		var r Value
		if e != nil {
			r = copyVal(e.v)
			if p, ok := r.(Poison); ok {
				m.unsupported("poison map value: %s", p.why)
			}
		} else {
			r = zero(mt.Elem())
		}
		if in.CommaOk {
			return Tuple{r, e != nil}
		}
		return r
	case string, *Term:
		return m.strIndex(m.str(x), k, in.Index.Type())
	}
	if p, ok := x.(Poison); ok {
		m.unsupported("poison map: %s", p.why)
	}
	m.unsupported("lookup %T", x)
	return nil
}

// backwards decides whether the path's maps are iterated from their end.
func (m *Machine) backwards(x *Map) bool {
	if x == nil || x.n < 2 || !m.trailOn {
		return false
	}
	return m.branch(m.tb.Var(backwards, SBool))
}

const backwards = "maps are iterated backwards"

// decided: the path depends on the variable.
func (m *Machine) decided(name string) bool {
	_, ok := m.known[m.tb.Var(name, SBool)]
	return ok
}

func (m *Machine) next(in *ssa.Next, it Value) Value {
	switch it := it.(type) {
	case *mapIter:
		if it.m != nil {
			if m.race != nil {
				m.touch(it.m, false)
			}
			for it.i < len(it.m.ents) {
				e := it.m.ents[it.i]
				if it.back {
					if it.n == 0 {
						it.n = len(it.m.ents)
					}
					if it.i >= it.n {
						break
					}
					e = it.m.ents[it.n-1-it.i]
				}
				it.i++
				if !e.dead {
					return Tuple{true, e.k, copyVal(e.v)}
				}
			}
		}
		tt := in.Type().(*types.Tuple)
		return Tuple{false, safeZero(tt.At(1).Type()), safeZero(tt.At(2).Type())}
	case *strIter:
		if it.conc {
			if it.i >= len(it.s) {
				return Tuple{false, int64(0), int64(0)}
			}
			r, n := utf8.DecodeRuneInString(it.s[it.i:])
			i := it.i
			it.i += n
			return Tuple{true, int64(i), int64(r)}
		}
		if it.i >= len(it.bytes) {
			return Tuple{false, int64(0), int64(0)}
		}
		b := it.bytes[it.i]
		i := it.i
		it.i++
		switch b := b.(type) {
		case int64:
			if b >= 128 {
				m.unsupported("non-ASCII in symbolic string range")
			}
			return Tuple{true, int64(i), b}
		case *Term:
			m.asciiOnly(b)
			return Tuple{true, int64(i), m.tb.ZeroExt(b, 32)}
		}
	}
	m.unsupported("next %T", it)
	return nil
}

func safeZero(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func (m *Machine) slice(in *ssa.Slice, x, lo, hi, max Value) Value {
	switch v := x.(type) {
	case string, *Term:
		return m.strSlice(m.str(x), lo, hi)
	case *SymBytes:
		r := m.strSlice(v.t, lo, hi)
		return m.strToBytesKeep(m.str(r))
	case Slice, *Value:
		var s Slice
		nilS := false
		if p, ok := v.(*Value); ok {
			if p == nil {
				m.nilDeref()
			}
			a, ok := (*p).(Array)
			if !ok {
				m.unsupported("slice of pointer to %T", *p)
			}
			s = Slice(a)
		} else {
			s = v.(Slice)
			nilS = s == nil
		}
		l, h, c := int64(0), int64(len(s)), int64(cap(s))
		if lo != nil {
			l = m.concInt(lo)
		}
		if hi != nil {
			h = m.concInt(hi)
		}
		if max != nil {
			c = m.concInt(max)
		}
		if l < 0 || h < l || c < h || c > int64(cap(s)) {
			m.goPanicStr("slice bounds out of range")
		}
		if nilS {
			return s
		}
		return s[l:h:c]
	}
	m.unsupported("slice of %T", x)
	return nil
}

func (m *Machine) strToBytesKeep(t *Term) Value { return m.strToBytes(t) }

func (m *Machine) strSlice(s *Term, lo, hi Value) Value {
	s = m.simplify(s)
	tb := m.tb
	it := types.Typ[types.Int]
	if s.op == "str" {
		l, lok := int64(0), true
		h, hok := int64(len(s.s)), true
		if lo != nil {
			lo = m.simplifyVal(lo)
			l, lok = lo.(int64)
		}
		if hi != nil {
			hi = m.simplifyVal(hi)
			h, hok = hi.(int64)
		}
		if lok && hok {
			if l < 0 || h < l || h > int64(len(s.s)) {
				m.goPanicStr("slice bounds out of range")
			}
			return s.s[l:h]
		}
	}
	lt, ht := tb.Int(0), tb.StrLen(s)
	n := ht
	if lo != nil {
		lt = m.simplify(m.intT(lo, it))
	}
	if hi != nil {
		ht = m.simplify(m.intT(hi, it))
	}
	ok := tb.And(tb.Le(tb.Int(0), lt), tb.Le(lt, ht), tb.Le(ht, n))
	if !m.branch(boolVal(ok)) {
		m.goPanicStr("slice bounds out of range")
	}
	s = m.simplify(s)
	lt, ht = m.simplify(lt), m.simplify(ht)
	return m.strVal(tb.StrSubstr(s, lt, tb.Sub(ht, lt)))
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x Value) Value {
	i, ok := x.(Iface)
	if !ok {
		if p, isP := x.(Poison); isP {
			m.unsupported("poison: %s", p.why)
		}
		m.unsupported("typeassert on %T", x)
	}
	good := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if i.T != nil && (types.Implements(i.T, it) || types.AssertableTo(it, i.T) && m.hasMethods(i.T, it)) {
			good = true
			v = i
		}
	} else if i.T != nil && types.Identical(i.T, in.AssertedType) {
		good = true
		v = copyVal(i.V)
	}
	if !good {
		if in.CommaOk {
			return Tuple{zero(in.AssertedType), false}
		}
		d := "nil"
		if i.T != nil {
			d = i.T.String()
		}
		m.goPanicStr(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.AssertedType))
	}
	if in.CommaOk {
		return Tuple{v, true}
	}
	return v
}

func (m *Machine) hasMethods(t types.Type, it *types.Interface) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < it.NumMethods(); i++ {
		f := it.Method(i)
		if ms.Lookup(f.Pkg(), f.Name()) == nil {
			return false
		}
	}
	return true
}

// ---------- builtins

func (m *Machine) builtin(b *ssa.Builtin, args []Value, fr *frame) Value {
	return m.builtinT(b, args, fr, nil)
}

func (m *Machine) builtinT(b *ssa.Builtin, args []Value, fr *frame, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case string:
			return int64(len(v))
		case *Term:
			return intVal(m.tb.StrLen(m.simplify(v)))
		case *SymBytes:
			return intVal(m.tb.StrLen(m.simplify(v.t)))
		case Slice:
			if b.Name() == "cap" {
				return int64(cap(v))
			}
			return int64(len(v))
		case Array:
			return int64(len(v))
		case *Map:
			if v == nil {
				return int64(0)
			}
			if m.race != nil {
				m.touch(v, false)
			}
			return int64(v.n)
		case *Value:
			if v == nil {
				return int64(0)
			}
			if a, ok := (*v).(Array); ok {
				return int64(len(a))
			}
			if c, ok := (*v).(*Chan); ok {
				if b.Name() == "cap" {
					return int64(c.size)
				}
				return int64(len(c.buf))
			}
		}
		if p, ok := args[0].(Poison); ok {
			m.unsupported("poison len: %s", p.why)
		}
		m.unsupported("len of %T", args[0])
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		switch y := args[1].(type) {
		case *SymBytes, *Term:
			var yt *Term
			if sb, ok := y.(*SymBytes); ok {
				yt = sb.t
			} else {
				yt = y.(*Term)
			}
			if s, ok := args[0].(Slice); ok && fixedBytes(pieces(yt)) {
				return m.appendSlice(s, m.strToBytes(yt).(Slice))
			}
			return m.strToBytes(m.tb.Concat(m.bytesTerm(args[0]), yt))
		case string:
			if sb, ok := args[0].(*SymBytes); ok {
				return m.strToBytes(m.tb.Concat(sb.t, m.tb.Str(y)))
			}
			return m.appendSlice(args[0].(Slice), bytesToSlice([]byte(y)))
		case Slice:
			if sb, ok := args[0].(*SymBytes); ok {
				return m.strToBytes(m.tb.Concat(sb.t, m.bytesTerm(y)))
			}
			s, ok := args[0].(Slice)
			if !ok {
				m.unsupported("append to %T", args[0])
			}
			return m.appendSlice(s, y)
		}
		m.unsupported("append %T", args[1])
	case "copy":
		dst, ok := args[0].(Slice)
		if !ok {
			m.unsupported("copy to %T", args[0])
		}
		var src Slice
		switch s := args[1].(type) {
		case Slice:
			src = s
		case string:
			src = bytesToSlice([]byte(s))
		case *Term:
			v, ok := m.strToBytes(m.simplify(s)).(Slice)
			if !ok {
				v = m.strToBytes(m.explodeOpaque(s)).(Slice)
			}
			src = v
		case *SymBytes:
			t := m.simplify(s.t)
			if t.minLen == t.maxLen {
				src = make(Slice, t.minLen)
				for i := range src {
					src[i] = m.byteOf(t, i)
				}
			} else {
				src = m.strToBytes(m.explodeOpaque(t)).(Slice)
			}
		}
		n := min(len(dst), len(src))
		tmp := make(Slice, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			m.storeCell(&dst[i], tmp[i])
		}
		return int64(n)
	case "delete":
		mp, _ := args[0].(*Map)
		m.mapDelete(mp, args[1], c.Args[0].Type().Underlying().(*types.Map).Key())
		return nil
	case "panic":
		panic(targetPanic{args[0], m.pos()})
	case "recover":
		// fr is the deferred function's frame; the panicking frame is its caller
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			return fr.caller.panicV.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "clear":
		if mp, ok := args[0].(*Map); ok {
			for _, e := range mp.live() {
				m.mapDelete(mp, e.k, c.Args[0].Type().Underlying().(*types.Map).Key())
			}
			return nil
		}
		if sl, ok := args[0].(Slice); ok {
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range sl {
				m.storeCell(&sl[i], zero(et))
			}
			return nil
		}
		m.unsupported("clear")
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			lt := m.binop(op, t, t, t, a, r)
			take := m.branch(lt)
			if b.Name() == "max" {
				take = m.branch(m.binop(token.LSS, t, t, t, r, a))
			}
			if take {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.nilDeref()
		}
		return args[0]
	case "close":
		m.closeChan(args[0])
		return nil
	case "String": // unsafe.String
		m.unsupported("unsafe.String")
	}
	m.unsupported("builtin %s", b.Name())
	return nil
}

func (m *Machine) appendSlice(s, y Slice) Value {
	if len(y) == 0 {
		return s
	}
	n := len(s)
	if n+len(y) <= cap(s) {
		r := s[:n+len(y)]
		for i, e := range y {
			if m.race != nil {
				m.touch(&r[n+i], true)
			}
			if m.trailOn {
				m.trail = append(m.trail, trailEnt{p: &r[n+i], old: r[n+i]})
			}
			r[n+i] = copyVal(e)
		}
		return r
	}
	nc := goGrow(n+len(y), cap(s))
	r := make(Slice, n+len(y), nc)
	copy(r, s)
	for i, e := range y {
		r[n+i] = copyVal(e)
	}
	return r
}

func goGrow(need, old int) int {
	if need > 2*old {
		return need
	}
	if old < 256 {
		return 2 * old
	}
	return need + need/4
}
