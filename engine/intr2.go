package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ndPkg = "vharness/nd"
const prePkg = "vharness/prelude"

// ---------- program lookups

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.prog.ImportedPackage(pkg)
	if sp == nil {
		panic(pathAbort{"unsupported", "package not loaded: " + pkg})
	}
	f := sp.Func(name)
	if f == nil {
		panic(pathAbort{"unsupported", "no function " + pkg + "." + name})
	}
	return f
}

func (p *Program) typ(pkg, name string) types.Type {
	sp := p.prog.ImportedPackage(pkg)
	if sp == nil {
		panic(pathAbort{"unsupported", "package not loaded: " + pkg})
	}
	t := sp.Type(name)
	if t == nil {
		panic(pathAbort{"unsupported", "no type " + pkg + "." + name})
	}
	return t.Type()
}

// callMethod calls an exported method by name; ok=false when there is none.
func (m *Machine) callMethod(i Iface, name string, fr *frame, args ...Value) (Value, bool) {
	if i.T == nil {
		return nil, false
	}
	ms := m.prog.prog.MethodSets.MethodSet(i.T)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil, false
	}
	f := m.prog.prog.MethodValue(sel)
	if f == nil {
		return nil, false
	}
	return m.call(f, append([]Value{i.V}, args...), nil, fr), true
}

func hasMethod(m *Machine, t types.Type, name string) bool {
	return t != nil && m.prog.prog.MethodSets.MethodSet(t).Lookup(nil, name) != nil
}

var errorIface = types.Universe.Lookup("error").Type()

// ---------- formatting

func (m *Machine) fmtValue(v Value, t types.Type, verb byte, fr *frame) *Term {
	if i, ok := v.(Iface); ok {
		if i.T == nil {
			if verb == 'v' {
				return m.tb.Str("<nil>")
			}
			return m.tb.Str("%!" + string(verb) + "(<nil>)")
		}
		return m.fmtValue(i.V, i.T, verb, fr)
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if hasMethod(m, t, "Error") {
			r, _ := m.callMethod(Iface{t, v}, "Error", fr)
			return m.quoteIf(m.str(r), verb)
		}
		if hasMethod(m, t, "String") {
			r, _ := m.callMethod(Iface{t, v}, "String", fr)
			return m.quoteIf(m.str(r), verb)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			switch verb {
			case 's', 'v', 'q', 'w':
				return m.quoteIf(m.str(v), verb)
			case 'x':
				if s := m.str(v); s.op == "str" {
					return m.tb.Str(fmt.Sprintf("%x", s.s))
				}
				return m.tb.App("hexenc", "", m.str(v))
			case 'X':
			default:
				if verb < 0x80 {
					return m.tb.Concat(m.tb.Str("%!"+string(verb)+"(string="), m.str(v), m.tb.Str(")"))
				}
			}
		case u.Info()&types.IsInteger != 0:
			switch verb {
			case 'd', 'v':
				return m.tb.App("itoa", "", m.simplify(m.intT(v, t)))
			case 's':
				return m.tb.Concat(m.tb.Str("%!s("+t.String()+"="), m.tb.App("itoa", "", m.simplify(m.intT(v, t))), m.tb.Str(")"))
			}
			if i, ok := v.(int64); ok {
				return m.tb.Str(fmt.Sprintf("%"+string(verb), i))
			}
		case u.Info()&types.IsBoolean != 0:
			if m.branch(v) {
				return m.tb.Str("true")
			}
			return m.tb.Str("false")
		case u.Info()&types.IsFloat != 0:
			if f, ok := v.(float64); ok {
				return m.tb.Str(fmt.Sprintf("%"+string(verb), f))
			}
		}
	case *types.Pointer:
		if p, ok := v.(*Value); ok && p == nil {
			return m.tb.Str("<nil>")
		}
		return m.tb.Str("0xc000000000")
	case *types.Slice:
		if isByteSlice(t) && (verb == 's' || verb == 'x' || verb == 'q') {
			return m.fmtValue(m.strVal(m.bytesTerm(v)), types.Typ[types.String], verb, fr)
		}
		s, ok := v.(Slice)
		if ok {
			ps := []*Term{m.tb.Str("[")}
			for i, e := range s {
				if i > 0 {
					ps = append(ps, m.tb.Str(" "))
				}
				ps = append(ps, m.fmtValue(e, u.Elem(), verb, fr))
			}
			return m.tb.Concat(append(ps, m.tb.Str("]"))...)
		}
	case *types.Map:
		mp, _ := v.(*Map)
		ps := []*Term{m.tb.Str("map[")}
		if mp != nil {
			for i, e := range m.sortedStrEntries(mp) {
				if i > 0 {
					ps = append(ps, m.tb.Str(" "))
				}
				ps = append(ps, m.fmtValue(e.k, u.Key(), verb, fr), m.tb.Str(":"), m.fmtValue(e.v, u.Elem(), verb, fr))
			}
		}
		return m.tb.Concat(append(ps, m.tb.Str("]"))...)
	}
	m.unsupported("fmt %%%c of %s", verb, t)
	return nil
}

func (m *Machine) quoteIf(t *Term, verb byte) *Term {
	if verb == 'q' {
		t = m.simplify(t)
		if t.op == "str" {
			return m.tb.Str(strconv.Quote(t.s))
		}
		if f := m.prog.fn("strconv", "Quote"); f != nil && m.extra["realstd"] == true {
			return m.str(m.call(f, []Value{m.strVal(t)}, nil, nil))
		}
		return m.tb.Concat(m.tb.Str(`"`), m.tb.App("qbody", "", t), m.tb.Str(`"`))
	}
	return t
}

func (m *Machine) sprintf(fv Value, args Slice, fr *frame) (*Term, Value) {
	// the format as a text in which \x00 stands for the next symbolic piece, which has
	// no % in it
	var format string
	var holes []*Term
	ft := m.simplify(m.str(fv))
	for _, p := range pieces(ft) {
		if p.op == "str" {
			format += p.s
			continue
		}
		if m.branch(m.tb.StrContains(p, m.tb.Str("%"))) || strings.HasSuffix(strings.TrimRight(format, "+-# 0123456789."), "%") {
			format, _ = m.concretize(ft).(string)
			holes = nil
			break
		}
		format += "\x00"
		holes = append(holes, p)
	}
	var ps []*Term
	var wrapped Value
	ai := 0
	for i := 0; i < len(format); {
		c := format[i]
		if c != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			for k, l := range strings.Split(format[i:i+j], "\x00") {
				if k > 0 && len(holes) > 0 {
					ps = append(ps, holes[0])
					holes = holes[1:]
				} else if k > 0 {
					l = "\x00" + l
				}
				ps = append(ps, m.tb.Str(l))
			}
			i += j
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			ps = append(ps, m.tb.Str("%!(NOVERB)"))
			break
		}
		verb := format[j]
		spec := format[i : j+1]
		i = j + 1
		if verb == '%' {
			ps = append(ps, m.tb.Str("%"))
			continue
		}
		if ai >= len(args) {
			ps = append(ps, m.tb.Str("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai].(Iface)
		ai++
		if verb == 'T' {
			s := "<nil>"
			if a.T != nil {
				s = types.TypeString(a.T, func(p *types.Package) string { return p.Name() })
			}
			ps = append(ps, m.tb.Str(s))
			continue
		}
		if verb == 'w' {
			wrapped = a
		}
		if len(spec) > 2 {
			switch x := a.V.(type) {
			case string, int64, float64, bool:
				if !hasMethod(m, a.T, "String") && !hasMethod(m, a.T, "Error") {
					ps = append(ps, m.tb.Str(fmt.Sprintf(spec, x)))
					continue
				}
			}
			if spec != "%+v" {
				m.unsupported("fmt verb %s", spec)
			}
		}
		ps = append(ps, m.fmtValue(a, nil, verb, fr))
	}
	if ai < len(args) {
		ps = append(ps, m.tb.Str("%!(EXTRA "))
		for k := ai; k < len(args); k++ {
			a := args[k].(Iface)
			if k > ai {
				ps = append(ps, m.tb.Str(", "))
			}
			if a.T == nil {
				ps = append(ps, m.tb.Str("<nil>"))
				continue
			}
			ps = append(ps, m.tb.Str(types.TypeString(a.T, func(p *types.Package) string { return p.Name() })+"="), m.fmtValue(a, nil, 'v', fr))
		}
		ps = append(ps, m.tb.Str(")"))
	}
	return m.tb.Concat(ps...), wrapped
}

func (m *Machine) sprint(args Slice, ln bool, fr *frame) *Term {
	var ps []*Term
	prevStr := true
	for i, e := range args {
		a := e.(Iface)
		isS := a.T != nil && isStringT(a.T)
		if i > 0 && (ln || !isS && !prevStr) {
			ps = append(ps, m.tb.Str(" "))
		}
		prevStr = isS
		ps = append(ps, m.fmtValue(a, nil, 'v', fr))
	}
	if ln {
		ps = append(ps, m.tb.Str("\n"))
	}
	return m.tb.Concat(ps...)
}

func (m *Machine) emitStdout(t *Term) {
	if m.capturing {
		m.stdout = m.tb.Concat(m.stdout, t)
	}
}

func (m *Machine) emitTo(w Iface, t *Term, fr *frame) Value {
	if p, ok := w.V.(*Value); ok && p != nil {
		if n, ok := (*p).(Native); ok {
			if n.v == "Stdout" {
				m.emitStdout(t)
			}
			return Tuple{intVal(m.tb.StrLen(t)), Iface{}}
		}
	}
	if w.T == nil {
		m.nilDeref()
	}
	r, ok := m.callMethod(w, "Write", fr, m.strToBytes(t))
	if !ok {
		m.unsupported("Fprint to %v", w.T)
	}
	return r
}

// ---------- JSON

type jfield struct {
	idx       int
	name      string
	omitempty bool
	asString  bool
	t         types.Type
}

func jsonFields(m *Machine, st *types.Struct) []jfield {
	var out []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if f.Embedded() {
			m.unsupported("json of embedded field %s", f.Name())
		}
		if !f.Exported() || tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		jf := jfield{idx: i, name: f.Name(), t: f.Type()}
		if parts[0] != "" && validJSONName(parts[0]) {
			jf.name = parts[0]
		}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				jf.omitempty = true
			case "string":
				jf.asString = true
			}
		}
		out = append(out, jf)
	}
	return out
}

func validJSONName(s string) bool {
	for _, c := range s {
		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) && !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

func (m *Machine) isEmpty(v Value) Value {
	switch v := v.(type) {
	case bool:
		return !v
	case int64:
		return v == 0
	case float64:
		return v == 0
	case string:
		return v == ""
	case *Term:
		switch {
		case v.sort == SBool:
			return boolVal(m.tb.Not(v))
		case v.sort == SStr:
			return boolVal(m.tb.StrEq(v, m.tb.EmptyStr))
		case v.sort == SInt:
			return boolVal(m.tb.EqInt(v, m.tb.Int(0)))
		default:
			return boolVal(m.tb.EqBV(v, m.tb.BV(0, v.sort)))
		}
	case Slice:
		return len(v) == 0
	case *SymBytes:
		return boolVal(m.tb.StrEq(v.t, m.tb.EmptyStr))
	case *Map:
		return v == nil || v.n == 0
	case *Value:
		return v == nil
	case Iface:
		return v.T == nil
	}
	return false
}

type jsonErr struct{ msg string }

func (m *Machine) toJSON(v Value, t types.Type, fr *frame) *JNode {
	if _, isI := t.Underlying().(*types.Interface); isI {
		i := v.(Iface)
		if i.T == nil {
			return &JNode{kind: 'n'}
		}
		return m.toJSON(i.V, i.T, fr)
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" && n.Obj().Name() == "Number" {
		s := m.simplify(m.str(v))
		if s.op == "itoa" {
			return &JNode{kind: 'i', T: s.args[0]}
		}
		if s.op == "str" {
			if i, err := strconv.ParseInt(s.s, 10, 64); err == nil {
				return &JNode{kind: 'i', T: m.tb.Int(i)}
			}
			if s.s == "" {
				return &JNode{kind: 'i', T: m.tb.Int(0)}
			}
			if f, err := strconv.ParseFloat(s.s, 64); err == nil {
				return &JNode{kind: 'f', F: f}
			}
			panic(jsonErr{"json: invalid number literal " + strconv.Quote(s.s)})
		}
		m.unsupported("symbolic json.Number")
	}
	if hasMethod(m, t, "MarshalJSON") || hasMethod(m, t, "MarshalText") {
		if p, ok := v.(*Value); !ok || p != nil {
			name := "MarshalJSON"
			if !hasMethod(m, t, name) {
				name = "MarshalText"
			}
			r, _ := m.callMethod(Iface{t, v}, name, fr)
			tp := r.(Tuple)
			if e := tp[1].(Iface); e.T != nil {
				panic(jsonErr{"json: error calling " + name})
			}
			bt := m.simplify(m.bytesTerm(tp[0]))
			if name == "MarshalText" {
				return &JNode{kind: 's', T: bt}
			}
			return m.parseTerm(bt)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &JNode{kind: 's', T: m.simplify(m.str(v))}
		case u.Info()&types.IsBoolean != 0:
			return &JNode{kind: 'b', T: m.simplify(m.boolT(v))}
		case u.Info()&types.IsInteger != 0:
			return &JNode{kind: 'i', T: m.simplify(m.intT(v, t))}
		case u.Info()&types.IsFloat != 0:
			switch f := v.(type) {
			case float64:
				if f == float64(int64(f)) && f < 1e15 && f > -1e15 {
					return &JNode{kind: 'i', T: m.tb.Int(int64(f))}
				}
				return &JNode{kind: 'f', F: f}
			case *SymFloat:
				return &JNode{kind: 'i', T: m.simplify(f.t)}
			}
		}
	case *types.Pointer:
		p, ok := v.(*Value)
		if ok && p == nil {
			return &JNode{kind: 'n'}
		}
		if ok {
			return m.toJSON(*p, u.Elem(), fr)
		}
	case *types.Struct:
		s := v.(Struct)
		n := &JNode{kind: 'o'}
		for _, f := range jsonFields(m, u) {
			if f.omitempty && m.branch(m.isEmpty(s[f.idx])) {
				continue
			}
			e := m.toJSON(s[f.idx], f.t, fr)
			if f.asString {
				switch e.kind {
				case 'i':
					e = &JNode{kind: 's', T: m.tb.App("itoa", "", e.T)}
				case 'b':
					e = &JNode{kind: 's', T: m.tb.Ite(e.T, m.tb.Str("true"), m.tb.Str("false"))}
				case 's':
					e = &JNode{kind: 's', T: m.tb.jsonTerm(e, "")}
				default:
					m.unsupported("json ,string")
				}
			}
			n.keys = append(n.keys, m.tb.Str(f.name))
			n.elems = append(n.elems, e)
		}
		return n
	case *types.Map:
		mp, _ := v.(*Map)
		if mp == nil {
			return &JNode{kind: 'n'}
		}
		if !isStringT(u.Key()) {
			m.unsupported("json map key %s", u.Key())
		}
		n := &JNode{kind: 'o'}
		for _, e := range m.sortedStrEntries(mp) {
			n.keys = append(n.keys, m.str(e.k))
			n.elems = append(n.elems, m.toJSON(e.v, u.Elem(), fr))
		}
		return n
	case *types.Slice:
		if isByteSlice(t) {
			if isNilSlice(v) {
				return &JNode{kind: 'n'}
			}
			return &JNode{kind: 's', T: m.b64enc("StdEncoding", m.bytesTerm(v))}
		}
		s, ok := v.(Slice)
		if !ok {
			break
		}
		if s == nil {
			return &JNode{kind: 'n'}
		}
		n := &JNode{kind: 'a'}
		for _, e := range s {
			n.elems = append(n.elems, m.toJSON(e, u.Elem(), fr))
		}
		return n
	case *types.Array:
		n := &JNode{kind: 'a'}
		for _, e := range v.(Array) {
			n.elems = append(n.elems, m.toJSON(e, u.Elem(), fr))
		}
		return n
	case *types.Chan, *types.Signature:
		panic(jsonErr{"json: unsupported type: " + t.String()})
	}
	m.unsupported("json of %s", t)
	return nil
}

func (m *Machine) parseTerm(t *Term) *JNode {
	if t.op == "json" {
		return t.aux.(*JNode)
	}
	if t.op == "str" {
		n, err := m.tb.parseJSON(t.s, false)
		if err != nil {
			panic(jsonErr{err.Error()})
		}
		return n
	}
	ps := pieces(t)
	blank := func(p *Term) bool { return p.op == "str" && strings.Trim(p.s, " \t\r\n") == "" }
	for len(ps) > 1 && blank(ps[0]) {
		ps = ps[1:]
	}
	for len(ps) > 1 && blank(ps[len(ps)-1]) {
		ps = ps[:len(ps)-1]
	}
	if len(ps) == 1 && ps[0].op == "json" {
		return ps[0].aux.(*JNode)
	}
	m.unsupported("JSON text %s", clip(m.tb.SMT(t), 100))
	return nil
}

func (m *Machine) marshal(v Value, mode string, fr *frame) (r Value) {
	defer func() {
		if e := recover(); e != nil {
			je, ok := e.(jsonErr)
			if !ok {
				panic(e)
			}
			r = Tuple{Slice(nil), m.mkError(je.msg)}
		}
	}()
	i := v.(Iface)
	var n *JNode
	if i.T == nil {
		n = &JNode{kind: 'n'}
	} else {
		n = m.toJSON(i.V, i.T, fr)
	}
	return Tuple{m.strToBytes(m.tb.jsonTerm(n, mode)), Iface{}}
}

// ifaceJSON: the interface{} value for a node.
func (m *Machine) ifaceJSON(n *JNode, useNumber bool) Value {
	switch n.kind {
	case 'n':
		return Iface{}
	case 'b':
		return Iface{types.Typ[types.Bool], boolVal(m.simplify(n.T))}
	case 'i':
		t := m.simplify(n.T)
		if useNumber {
			return Iface{m.prog.typ("encoding/json", "Number"), m.strVal(m.tb.App("itoa", "", t))}
		}
		if t.op == "int" {
			if t.s != "" {
				f, _ := strconv.ParseFloat(t.s, 64)
				return Iface{types.Typ[types.Float64], f}
			}
			return Iface{types.Typ[types.Float64], float64(t.i)}
		}
		return Iface{types.Typ[types.Float64], &SymFloat{t}}
	case 'f':
		if useNumber {
			return Iface{m.prog.typ("encoding/json", "Number"), strconv.FormatFloat(n.F, 'g', -1, 64)}
		}
		return Iface{types.Typ[types.Float64], n.F}
	case 's':
		return Iface{types.Typ[types.String], m.strVal(m.simplify(n.T))}
	case 'a':
		s := make(Slice, len(n.elems))
		for i, e := range n.elems {
			s[i] = m.ifaceJSON(e, useNumber)
		}
		return Iface{anySlice, s}
	case 'o':
		mp := newMap()
		for i, e := range n.elems {
			m.mapSet(mp, m.strVal(n.keys[i]), m.ifaceJSON(e, useNumber), types.Typ[types.String])
		}
		return Iface{anyMap, mp}
	}
	panic("ifaceJSON")
}

var anyT = types.Universe.Lookup("any").Type().Underlying()
var anySlice = types.NewSlice(types.NewInterfaceType(nil, nil))
var anyMap = types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))

// fromJSON decodes a node over the current value (returned), for type t.
// unquoteJSON: the node inside the string of a field with the ",string" option.
func (m *Machine) unquoteJSON(n *JNode, t types.Type) *JNode {
	if n.kind == 'n' {
		return n
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return n
	}
	bad := jsonErr{"json: invalid use of ,string struct tag, trying to unmarshal unquoted value into " + t.String()}
	if n.kind != 's' {
		panic(bad)
	}
	s := m.simplify(n.T)
	if s.op == "str" {
		r, err := m.tb.parseJSON(s.s, false)
		if err != nil {
			panic(bad)
		}
		return r
	}
	switch {
	case s.op == "itoa":
		return &JNode{kind: 'i', T: s.args[0]}
	case s.op == "json":
		return s.aux.(*JNode)
	case b.Info()&types.IsBoolean != 0:
		if m.branch(boolVal(m.tb.StrEq(s, m.tb.Str("true")))) {
			return &JNode{kind: 'b', T: m.tb.True}
		}
		if m.branch(boolVal(m.tb.StrEq(s, m.tb.Str("false")))) {
			return &JNode{kind: 'b', T: m.tb.False}
		}
	}
	m.unsupported("json ,string of arbitrary text")
	return nil
}

func (m *Machine) fromJSON(n *JNode, t types.Type, cur Value, useNumber bool) Value {
	kindName := map[byte]string{'b': "bool", 'i': "number", 'f': "number", 's': "string", 'a': "array", 'o': "object"}
	mism := func() {
		panic(jsonErr{"json: cannot unmarshal " + kindName[n.kind] + " into Go value of type " + types.TypeString(t, func(p *types.Package) string { return p.Name() })})
	}
	if hasMethod(m, types.NewPointer(t), "UnmarshalJSON") {
		p := new(Value)
		*p = copyVal(cur)
		r, _ := m.callMethod(Iface{types.NewPointer(t), p}, "UnmarshalJSON", nil, &SymBytes{m.tb.jsonTerm(n, "")})
		if e, ok := r.(Iface); ok && e.T != nil {
			panic(jsonErr{"json: error from UnmarshalJSON"})
		}
		return *p
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			if n.kind == 'n' {
				return Iface{}
			}
			mism()
		}
		return m.ifaceJSON(n, useNumber)
	case *types.Pointer:
		if n.kind == 'n' {
			return nilPtr
		}
		p := new(Value)
		*p = zero(u.Elem())
		if c, ok := cur.(*Value); ok && c != nil {
			*p = copyVal(*c)
		}
		*p = m.fromJSON(n, u.Elem(), *p, useNumber)
		return p
	}
	if n.kind == 'n' {
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice:
			return zero(t)
		}
		return cur
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if nm, ok := t.(*types.Named); ok && nm.Obj().Name() == "Number" && n.kind == 'i' {
				return m.strVal(m.tb.App("itoa", "", m.simplify(n.T)))
			}
			if n.kind != 's' {
				mism()
			}
			return m.strVal(m.simplify(n.T))
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 'b' {
				mism()
			}
			return boolVal(m.simplify(n.T))
		case u.Info()&types.IsInteger != 0:
			if n.kind != 'i' {
				mism()
			}
			v := m.simplify(n.T)
			if intWidth(t) < 64 || isUnsigned(t) || v.op == "int" && v.s != "" {
				lo, hi, big := intRange(t)
				if big {
					if v.op == "int" && v.s == "" && v.i < 0 {
						mism()
					}
				} else if !m.branch(boolVal(m.tb.And(m.tb.Le(m.tb.Int(lo), v), m.tb.Le(v, m.tb.Int(hi))))) {
					mism()
				}
			}
			return intVal(v)
		case u.Info()&types.IsFloat != 0:
			if n.kind != 'i' && n.kind != 'f' {
				mism()
			}
			return m.ifaceJSON(n, false).(Iface).V
		}
	case *types.Map:
		if n.kind != 'o' || !isStringT(u.Key()) {
			mism()
		}
		mp, _ := cur.(*Map)
		if mp == nil {
			mp = newMap()
		}
		for i, e := range n.elems {
			m.mapSet(mp, m.strVal(n.keys[i]), m.fromJSON(e, u.Elem(), zero(u.Elem()), useNumber), u.Key())
		}
		return mp
	case *types.Slice:
		if n.kind != 'a' {
			mism()
		}
		s := make(Slice, len(n.elems))
		for i, e := range n.elems {
			s[i] = m.fromJSON(e, u.Elem(), zero(u.Elem()), useNumber)
		}
		return s
	case *types.Struct:
		if n.kind != 'o' {
			mism()
		}
		s := copyVal(cur).(Struct)
		fs := jsonFields(m, u)
		for i, e := range n.elems {
			k := m.simplify(n.keys[i])
			if k.op != "str" {
				m.unsupported("symbolic JSON key")
			}
			best := -1
			for _, f := range fs {
				if f.name == k.s {
					best = f.idx
				}
			}
			if best < 0 {
				for _, f := range fs {
					if strings.EqualFold(f.name, k.s) {
						best = f.idx
						break
					}
				}
			}
			if best >= 0 {
				for _, f := range fs {
					if f.idx == best && f.asString {
						e = m.unquoteJSON(e, f.t)
					}
				}
				s[best] = m.fromJSON(e, u.Field(best).Type(), s[best], useNumber)
			}
		}
		return s
	}
	m.unsupported("JSON decoding into %s", t)
	return nil
}

func (m *Machine) unmarshal(data *Term, dst Iface, useNumber, stream bool) (r Value) {
	defer func() {
		if e := recover(); e != nil {
			je, ok := e.(jsonErr)
			if !ok {
				panic(e)
			}
			r = m.mkError(je.msg)
		}
	}()
	pt, ok := dst.T.(*types.Pointer)
	p, ok2 := dst.V.(*Value)
	if !ok {
		if pu, isP := dst.T.Underlying().(*types.Pointer); isP {
			pt, ok = pu, true
		}
	}
	if !ok || !ok2 || p == nil {
		return m.mkError("json: Unmarshal(non-pointer)")
	}
	data = m.simplify(data)
	var n *JNode
	if data.op == "str" {
		var err error
		n, err = m.tb.parseJSON(data.s, stream)
		if err != nil {
			return m.mkError(err.Error())
		}
	} else {
		n = m.parseTerm(data)
	}
	v := m.fromJSON(n, pt.Elem(), *p, useNumber)
	m.storeCell(p, v)
	return Iface{}
}

// ---------- url-tagged structs (go-querystring)

func (m *Machine) queryValues(v Iface, fr *frame) Value {
	out := newMap()
	t := v.T
	x := v.V
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		q, _ := x.(*Value)
		if q == nil {
			return Tuple{out, Iface{}}
		}
		x, t = *q, p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return Tuple{(*Map)(nil), m.mkError("query: Values() expects struct input. Got " + t.String())}
	}
	s := x.(Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("url")
		if !f.Exported() || tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		name := parts[0]
		if name == "" {
			name = f.Name()
		}
		omit := false
		for _, o := range parts[1:] {
			if o == "omitempty" {
				omit = true
			} else {
				m.unsupported("url tag option %s", o)
			}
		}
		if omit && m.branch(m.isEmpty(s[i])) {
			continue
		}
		var sv Value
		switch {
		case isStringT(f.Type()):
			sv = s[i]
		case isIntT(f.Type()):
			sv = m.strVal(m.tb.App("itoa", "", m.intT(s[i], f.Type())))
		default:
			m.unsupported("query value of %s", f.Type())
		}
		if e := m.mapFind(out, name, types.Typ[types.String]); e != nil {
			m.mapSet(out, name, append(append(Slice(nil), e.v.(Slice)...), sv), types.Typ[types.String])
		} else {
			m.mapSet(out, name, Slice{sv}, types.Typ[types.String])
		}
	}
	return Tuple{out, Iface{}}
}

// ---------- inputs

func (m *Machine) inName(v Value) string {
	s := m.constStr(v, "input name")
	if m.thread > 0 {
		s = fmt.Sprintf("thread%d.%s", m.thread, s)
	}
	m.counters[s]++
	if n := m.counters[s]; n > 1 {
		s = fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

func (m *Machine) newInput(name, kind string, t *Term) {
	m.inputs = append(m.inputs, inputRec{name, kind, t})
}

func (m *Machine) choice(name string, n int64) int64 {
	if n <= 0 {
		m.unsupported("empty choice")
	}
	v := m.tb.IntVar(name, 0, n-1, true, true)
	m.newInput(name, "int", v)
	for k := int64(0); k < n-1; k++ {
		if m.branch(boolVal(m.tb.EqInt(v, m.tb.Int(k)))) {
			return k
		}
	}
	return n - 1
}

var hashNames = map[int64]string{3: "sha1", 5: "sha256", 6: "sha384", 7: "sha512"}

func (m *Machine) arrayOf(t *Term, n int) Value {
	a := make(Array, n)
	if t.op == "str" {
		for i := range a {
			a[i] = int64(t.s[i])
		}
		return a
	}
	for i := range a {
		a[i] = intVal(m.tb.ByteAt(t, i))
	}
	return a
}

func (m *Machine) newSymHash(name string, key *Term, fr *frame) Value {
	if key == nil {
		return m.call(m.prog.fn(prePkg, "NewHash"), []Value{name}, nil, fr)
	}
	return m.call(m.prog.fn(prePkg, "NewHMAC"), []Value{name, m.strVal(key)}, nil, fr)
}

func rsaID(m *Machine, pub Value) string {
	s, ok := pub.(Struct)
	if !ok {
		m.unsupported("rsa key %T", pub)
	}
	p, ok := s[0].(*Value)
	if !ok || p == nil {
		// a zero key
		return ""
	}
	n, ok := (*p).(Native)
	if !ok {
		m.unsupported("rsa modulus")
	}
	return n.v.(string)
}

func init() {
	str := func(m *Machine, t *Term) Value { return m.strVal(t) }
	_ = str
	simple := func(f func(m *Machine, fr *frame, a []Value) Value) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return f(m, fr, a) }
	}
	nd := func(name string, f func(m *Machine, fr *frame, a []Value) Value) { reg(ndPkg+"."+name, simple(f)) }

	nd("Symbolic", func(m *Machine, fr *frame, a []Value) Value { return true })
	nd("Tier", func(m *Machine, fr *frame, a []Value) Value { return int64(m.prog.tier) })
	nd("Str", func(m *Machine, fr *frame, a []Value) Value {
		n := m.inName(a[0])
		v := m.tb.strVar(n, anyClass, 0, -1)
		m.newInput(n, "str", v)
		return m.simplifyVal(v)
	})
	nd("StrIn", func(m *Machine, fr *frame, a []Value) Value {
		n := m.inName(a[0])
		v := m.tb.strVar(n, m.constStr(a[1], "class"), int(m.concInt(a[2])), int(m.concInt(a[3])))
		m.newInput(n, "str", v)
		return m.simplifyVal(v)
	})
	nd("BytesIn", func(m *Machine, fr *frame, a []Value) Value {
		n := m.inName(a[0])
		cs := parseClass(m.constStr(a[1], "class"))
		max := m.concInt(a[2])
		l := m.choice(n+"@len", max+1)
		var ps []*Term
		for i := int64(0); i < l; i++ {
			b := m.tb.Var(fmt.Sprintf("%s@%d", n, i), 8)
			b.cs = cs
			ps = append(ps, m.tb.ByteStr(b))
		}
		t := m.tb.Concat(ps...)
		m.newInput(n, "str", t)
		return m.strVal(t)
	})
	nd("Int", func(m *Machine, fr *frame, a []Value) Value {
		n := m.inName(a[0])
		v := m.tb.IntVar(n, m.concInt(a[1]), m.concInt(a[2]), true, true)
		m.newInput(n, "int", v)
		return m.simplifyVal(v)
	})
	nd("Bool", func(m *Machine, fr *frame, a []Value) Value {
		n := m.inName(a[0])
		v := m.tb.Var(n, SBool)
		m.newInput(n, "bool", v)
		return m.simplifyVal(v)
	})
	nd("Choice", func(m *Machine, fr *frame, a []Value) Value {
		return m.choice(m.inName(a[0]), m.concInt(a[1]))
	})
	nd("Assume", func(m *Machine, fr *frame, a []Value) Value {
		c := m.simplify(m.boolT(a[0]))
		if c == m.tb.True {
			return nil
		}
		if m.pos_ < len(m.prefix) {
			m.assume(c, false)
			return nil
		}
		if m.sat(c) == Unsat {
			panic(pathAbort{"assume", "assumption"})
		}
		m.assume(c, false)
		return nil
	})
	nd("Assert", func(m *Machine, fr *frame, a []Value) Value {
		m.assertion(a[0], m.constStr(a[1], "msg"), "", nil)
		return nil
	})
	nd("AssertKnown", func(m *Machine, fr *frame, a []Value) Value {
		m.assertion(a[0], m.constStr(a[3], "msg"), m.constStr(a[2], "id"), m.boolT(a[1]))
		return nil
	})
	nd("Reach", func(m *Machine, fr *frame, a []Value) Value {
		m.reach = append(m.reach, m.constStr(a[0], "label"))
		return nil
	})
	bools := func(m *Machine, v Value) []*Term {
		var ts []*Term
		for _, e := range v.(Slice) {
			ts = append(ts, m.boolT(e))
		}
		return ts
	}
	nd("And", func(m *Machine, fr *frame, a []Value) Value { return m.simplifyVal(m.tb.And(bools(m, a[0])...)) })
	nd("Or", func(m *Machine, fr *frame, a []Value) Value { return m.simplifyVal(m.tb.Or(bools(m, a[0])...)) })
	nd("Not", func(m *Machine, fr *frame, a []Value) Value { return m.simplifyVal(m.tb.Not(m.boolT(a[0]))) })
	nd("Implies", func(m *Machine, fr *frame, a []Value) Value {
		return m.simplifyVal(m.tb.Or(m.tb.Not(m.boolT(a[0])), m.boolT(a[1])))
	})
	nd("Iff", func(m *Machine, fr *frame, a []Value) Value {
		return m.simplifyVal(m.tb.Eq(m.boolT(a[0]), m.boolT(a[1])))
	})
	nd("Observe", func(m *Machine, fr *frame, a []Value) Value {
		v := a[1].(Iface).V
		m.obs = append(m.obs, obsRec{m.constStr(a[0], "name"), v})
		return nil
	})
	nd("RealStd", func(m *Machine, fr *frame, a []Value) Value {
		m.extra["realstd"] = true
		m.extra["realb64"] = true
		return nil
	})
	nd("Concrete", func(m *Machine, fr *frame, a []Value) Value {
		return m.simplifyVal(m.boolT(a[0])) // stays symbolic: used to test
	})
	nd("Capture", func(m *Machine, fr *frame, a []Value) Value {
		old, oc := m.stdout, m.capturing
		m.stdout, m.capturing = m.tb.EmptyStr, true
		m.callValue(a[0], nil, fr)
		r := m.stdout
		m.stdout, m.capturing = old, oc
		return m.strVal(r)
	})
	nd("Open", func(m *Machine, fr *frame, a []Value) Value {
		o := &openMap{pre: m.inName(a[0]), known: map[string]bool{}, gone: map[string]bool{}}
		for _, k := range a[1].(Slice) {
			o.known[m.constStr(k, "known key")] = true
		}
		for _, v := range a[2].(Slice) {
			mp := v.(*Map)
			oo := *o
			oo.gone = map[string]bool{}
			mp.open = &oo
			m.trailFn(func() { mp.open = nil })
		}
		return nil
	})
	// a cookie that is asked for by name in open headers: absent, or the only one
	reg("net/http.readCookies", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		h, _ := a[0].(*Map)
		name, ok := m.simplifyVal(a[1]).(string)
		if h == nil || !ok || name == "" {
			return m.interpret(fn, a, fr)
		}
		kt := types.Typ[types.String]
		ck := m.prog.typ("net/http", "Cookie")
		cookie := func(v *Term) Value {
			c := zero(ck).(Struct)
			c[0], c[1] = name, m.simplifyVal(v)
			p := new(Value)
			*p = c
			return Slice{p}
		}
		if e := h.idx["Cookie"]; e != nil && !e.dead && h.open != nil {
			if v := h.open.cookies[e]; v != nil {
				if v.name != name {
					return Slice{}
				}
				return cookie(v.val)
			}
			return m.interpret(fn, a, fr)
		}
		if o := h.open; o == nil || o.known["Cookie"] || o.gone["Cookie"] {
			return m.interpret(fn, a, fr)
		} else if m.choice(m.inName(o.pre+".cookie"), 2) == 0 {
			o.gone["Cookie"] = true
			m.trailFn(func() { delete(o.gone, "Cookie") })
			return Slice{}
		}
		o := h.open
		v := m.tb.strVar(o.pre+".cookie."+name, "A-Za-z0-9._", 0, -1)
		t := m.tb.Concat(m.tb.Str(name+"="), v)
		m.newInput(o.pre+":Cookie", "str", t)
		h.open = nil
		m.mapSet(h, "Cookie", Slice{m.simplifyVal(t)}, kt)
		h.open = o
		e := h.idx["Cookie"]
		if o.cookies == nil {
			o.cookies = map[*mapEntry]*openCookie{}
		}
		o.cookies[e] = &openCookie{name, v}
		return cookie(v)
	})
	nd("Yield", func(m *Machine, fr *frame, a []Value) Value { return nil })
	nd("Alone", func(m *Machine, fr *frame, a []Value) Value {
		mark := len(m.trail)
		cs := map[string]int{}
		for k, v := range m.counters {
			cs[k] = v
		}
		nr, no, so := len(m.reach), len(m.obs), m.stdout
		r := m.apart(func() Value { return m.callValue(a[0], nil, fr) })
		m.undoTo(mark)
		m.counters, m.reach, m.obs, m.stdout = cs, m.reach[:nr], m.obs[:no], so
		return r
	})
	nd("RSAKey", func(m *Machine, fr *frame, a []Value) Value {
		id := m.concInt(a[0])
		kt := m.prog.typ("crypto/rsa", "PrivateKey")
		k := zero(kt).(Struct)
		n := new(Value)
		*n = Native{fmt.Sprintf("k%d", id)}
		pub := k[0].(Struct)
		pub[0] = n
		pub[1] = int64(65537)
		p := new(Value)
		*p = k
		return p
	})

	// fmt
	reg("fmt.Sprintf", simple(func(m *Machine, fr *frame, a []Value) Value {
		t, _ := m.sprintf(a[0], a[1].(Slice), fr)
		return m.strVal(t)
	}))
	reg("fmt.Errorf", simple(func(m *Machine, fr *frame, a []Value) Value {
		t, w := m.sprintf(a[0], a[1].(Slice), fr)
		if w != nil {
			p := new(Value)
			*p = Struct{m.strVal(t), w}
			return Iface{types.NewPointer(m.prog.typ("fmt", "wrapError")), p}
		}
		return m.mkErrorT(t)
	}))
	reg("fmt.Sprint", simple(func(m *Machine, fr *frame, a []Value) Value { return m.strVal(m.sprint(a[0].(Slice), false, fr)) }))
	reg("fmt.Sprintln", simple(func(m *Machine, fr *frame, a []Value) Value { return m.strVal(m.sprint(a[0].(Slice), true, fr)) }))
	outp := func(f func(m *Machine, fr *frame, a []Value) *Term) intrinsic {
		return simple(func(m *Machine, fr *frame, a []Value) Value {
			t := f(m, fr, a)
			m.emitStdout(t)
			return Tuple{int64(0), Iface{}}
		})
	}
	reg("fmt.Println", outp(func(m *Machine, fr *frame, a []Value) *Term { return m.sprint(a[0].(Slice), true, fr) }))
	reg("fmt.Print", outp(func(m *Machine, fr *frame, a []Value) *Term { return m.sprint(a[0].(Slice), false, fr) }))
	reg("fmt.Printf", outp(func(m *Machine, fr *frame, a []Value) *Term {
		t, _ := m.sprintf(a[0], a[1].(Slice), fr)
		return t
	}))
	reg("fmt.Fprintf", simple(func(m *Machine, fr *frame, a []Value) Value {
		t, _ := m.sprintf(a[1], a[2].(Slice), fr)
		return m.emitTo(a[0].(Iface), t, fr)
	}))
	reg("fmt.Fprint", simple(func(m *Machine, fr *frame, a []Value) Value {
		return m.emitTo(a[0].(Iface), m.sprint(a[1].(Slice), false, fr), fr)
	}))
	reg("fmt.Fprintln", simple(func(m *Machine, fr *frame, a []Value) Value {
		return m.emitTo(a[0].(Iface), m.sprint(a[1].(Slice), true, fr), fr)
	}))
	reg("io.WriteString", simple(func(m *Machine, fr *frame, a []Value) Value {
		return m.emitTo(a[0].(Iface), m.str(a[1]), fr)
	}))

	// json
	reg("encoding/json.Marshal", simple(func(m *Machine, fr *frame, a []Value) Value { return m.marshal(a[0], "", fr) }))
	reg("encoding/json.MarshalIndent", simple(func(m *Machine, fr *frame, a []Value) Value {
		return m.marshal(a[0], "@indent|"+strconv.Quote(m.constStr(a[1], ""))+"|"+strconv.Quote(m.constStr(a[2], ""))+";", fr)
	}))
	reg("encoding/json.Unmarshal", simple(func(m *Machine, fr *frame, a []Value) Value {
		return m.unmarshal(m.bytesTerm(a[0]), a[1].(Iface), false, false)
	}))
	reg("encoding/json.NewDecoder", simple(func(m *Machine, fr *frame, a []Value) Value {
		p := new(Value)
		*p = Struct{a[0], false, false}
		return p
	}))
	reg("(*encoding/json.Decoder).UseNumber", simple(func(m *Machine, fr *frame, a []Value) Value {
		m.storeCell(&(*a[0].(*Value)).(Struct)[1], true)
		return nil
	}))
	reg("(*encoding/json.Decoder).Decode", simple(func(m *Machine, fr *frame, a []Value) Value {
		d := (*a[0].(*Value)).(Struct)
		rd := d[0].(Iface)
		if d[2] == true {
			return m.mkError("EOF")
		}
		m.storeCell(&d[2], true)
		p, ok := rd.V.(*Value)
		if !ok || p == nil {
			m.unsupported("json.Decoder over %v", rd.T)
		}
		var t *Term
		switch rd.T.String() {
		case "*bytes.Buffer":
			t = m.bytesTerm((*p).(Struct)[0])
		case "*strings.Reader":
			t = m.str((*p).(Struct)[0])
		case "*bytes.Reader":
			t = m.bytesTerm((*p).(Struct)[0])
		default:
			m.unsupported("json.Decoder over %v", rd.T)
		}
		return m.unmarshal(t, a[1].(Iface), d[1] == true, true)
	}))
	reg("encoding/json.NewEncoder", simple(func(m *Machine, fr *frame, a []Value) Value {
		p := new(Value)
		*p = Struct{a[0], "", ""}
		return p
	}))
	reg("(*encoding/json.Encoder).Encode", simple(func(m *Machine, fr *frame, a []Value) Value {
		d := (*a[0].(*Value)).(Struct)
		r := m.marshal(a[1], "", fr).(Tuple)
		if e := r[1].(Iface); e.T != nil {
			return e
		}
		return m.emitTo(d[0].(Iface), m.tb.Concat(m.bytesTerm(r[0]), m.tb.Str("\n")), fr).(Tuple)[1]
	}))
	reg("(encoding/json.Number).Int64", simple(func(m *Machine, fr *frame, a []Value) Value {
		t := m.simplify(m.str(a[0]))
		if t.op == "itoa" {
			return Tuple{intVal(t.args[0]), Iface{}}
		}
		if t.op == "str" {
			i, err := strconv.ParseInt(t.s, 10, 64)
			if err != nil {
				return Tuple{i, m.numError(err.(*strconv.NumError), t)}
			}
			return Tuple{i, Iface{}}
		}
		m.unsupported("json.Number.Int64")
		return nil
	}))
	reg("github.com/google/go-querystring/query.Values", simple(func(m *Machine, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.T == nil {
			return Tuple{newMap(), Iface{}}
		}
		return m.queryValues(i, fr)
	}))

	// net/url query parsing
	reg("net/url.ParseQuery", simple(func(m *Machine, fr *frame, a []Value) Value {
		out := newMap()
		r := m.parseQuery(out, m.str(a[0]))
		return Tuple{out, r}
	}))
	reg("net/url.parseQuery", simple(func(m *Machine, fr *frame, a []Value) Value {
		return m.parseQuery(a[0].(*Map), m.str(a[1]))
	}))

	// errors
	unwrap := func(m *Machine, fr *frame, e Iface) Iface {
		r, ok := m.callMethod(e, "Unwrap", fr)
		if !ok {
			return Iface{}
		}
		if i, ok := r.(Iface); ok {
			return i
		}
		m.unsupported("multi-error Unwrap")
		return Iface{}
	}
	reg("errors.Unwrap", simple(func(m *Machine, fr *frame, a []Value) Value { return unwrap(m, fr, a[0].(Iface)) }))
	reg("errors.Is", simple(func(m *Machine, fr *frame, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		for e.T != nil {
			if types.Comparable(e.T) && m.branch(m.equal(errorIface, e, t)) {
				return true
			}
			if hasMethod(m, e.T, "Is") {
				r, _ := m.callMethod(e, "Is", fr, t)
				if m.branch(r) {
					return true
				}
			}
			e = unwrap(m, fr, e)
		}
		return t.T == nil && a[0].(Iface).T == nil
	}))
	reg("errors.As", simple(func(m *Machine, fr *frame, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		pt, ok := t.T.Underlying().(*types.Pointer)
		if !ok {
			m.goPanicStr("errors: target must be a non-nil pointer")
		}
		for e.T != nil {
			if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
				if types.Implements(e.T, it) {
					m.store(t.V, e)
					return true
				}
			} else if types.Identical(e.T, pt.Elem()) {
				m.store(t.V, e.V)
				return true
			}
			e = unwrap(m, fr, e)
		}
		return false
	}))

	// crypto
	sum := func(name string, n int) intrinsic {
		return simple(func(m *Machine, fr *frame, a []Value) Value {
			return m.arrayOf(m.tb.App(name, "", m.simplify(m.bytesTerm(a[0]))), n)
		})
	}
	reg("crypto/sha1.Sum", sum("sha1", 20))
	reg("crypto/sha256.Sum256", sum("sha256", 32))
	reg("crypto/sha512.Sum384", sum("sha384", 48))
	reg("crypto/sha512.Sum512", sum("sha512", 64))
	newh := func(name string) intrinsic {
		return simple(func(m *Machine, fr *frame, a []Value) Value { return m.newSymHash(name, nil, fr) })
	}
	reg("crypto/sha1.New", newh("sha1"))
	reg("crypto/sha256.New", newh("sha256"))
	reg("crypto/sha512.New384", newh("sha384"))
	reg("crypto/sha512.New", newh("sha512"))
	reg("(crypto.Hash).Available", simple(func(m *Machine, fr *frame, a []Value) Value {
		_, ok := hashNames[m.concInt(a[0])]
		return ok
	}))
	reg("(crypto.Hash).New", simple(func(m *Machine, fr *frame, a []Value) Value {
		n, ok := hashNames[m.concInt(a[0])]
		if !ok {
			m.unsupported("crypto.Hash %v", a[0])
		}
		return m.newSymHash(n, nil, fr)
	}))
	reg("crypto/hmac.New", simple(func(m *Machine, fr *frame, a []Value) Value {
		h := m.callValue(a[0], nil, fr).(Iface)
		p, ok := h.V.(*Value)
		if !ok {
			m.unsupported("hmac over %v", h.T)
		}
		return m.newSymHash((*p).(Struct)[0].(string), m.bytesTerm(a[1]), fr)
	}))
	reg(prePkg+".sum", simple(func(m *Machine, fr *frame, a []Value) Value {
		name := m.constStr(a[0], "hash")
		data := m.simplify(m.str(a[3]))
		if a[1] == true {
			return m.strVal(m.tb.App("hmac", name, m.simplify(m.str(a[2])), data))
		}
		return m.strVal(m.tb.App(name, "", data))
	}))
	reg("crypto/hmac.Equal", simple(func(m *Machine, fr *frame, a []Value) Value {
		return boolVal(m.tb.StrEq(m.bytesTerm(a[0]), m.bytesTerm(a[1])))
	}))
	reg("crypto/subtle.ConstantTimeCompare", simple(func(m *Machine, fr *frame, a []Value) Value {
		if m.branch(boolVal(m.tb.StrEq(m.bytesTerm(a[0]), m.bytesTerm(a[1])))) {
			return int64(1)
		}
		return int64(0)
	}))
	reg("crypto/rsa.SignPKCS1v15", simple(func(m *Machine, fr *frame, a []Value) Value {
		p, ok := a[1].(*Value)
		if !ok || p == nil {
			m.nilDeref()
		}
		id := rsaID(m, (*p).(Struct)[0])
		hn, ok := hashNames[m.concInt(a[2])]
		if id == "" || !ok {
			return Tuple{Slice(nil), m.mkError("crypto/rsa: invalid key")}
		}
		return Tuple{m.strToBytes(m.tb.App("rsasig", id+"/"+hn, m.simplify(m.bytesTerm(a[3])))), Iface{}}
	}))
	reg("crypto/rsa.VerifyPKCS1v15", simple(func(m *Machine, fr *frame, a []Value) Value {
		p, ok := a[0].(*Value)
		if !ok || p == nil {
			m.nilDeref()
		}
		id := rsaID(m, *p)
		hn, ok := hashNames[m.concInt(a[1])]
		if id == "" || !ok {
			return m.mkError("crypto/rsa: verification error")
		}
		want := m.tb.App("rsasig", id+"/"+hn, m.simplify(m.bytesTerm(a[2])))
		if m.branch(boolVal(m.tb.StrEq(m.simplify(m.bytesTerm(a[3])), want))) {
			return Iface{}
		}
		return m.mkError("crypto/rsa: verification error")
	}))

	// http
	reg("net/http.Redirect", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.call(m.prog.fn(prePkg, "Redirect"), a, nil, fr)
	})
	reg("net/http.Error", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.call(m.prog.fn(prePkg, "Error"), a, nil, fr)
	})

	// time
	reg("time.Now", simple(func(m *Machine, fr *frame, a []Value) Value {
		if t, ok := m.extra["now"]; ok {
			return m.call(m.prog.fn("time", "Unix"), []Value{t, int64(0)}, nil, fr)
		}
		return m.call(m.prog.fn("time", "Unix"), []Value{m.prog.now, int64(0)}, nil, fr)
	}))
	setNow := func(m *Machine, v Value) {
		old, had := m.extra["now"]
		m.extra["now"] = v
		m.trailFn(func() {
			if had {
				m.extra["now"] = old
			} else {
				delete(m.extra, "now")
			}
		})
	}
	nd("SystemTime", func(m *Machine, fr *frame, a []Value) Value {
		n := m.inName(a[0])
		v := m.tb.IntVar(n, 1<<30, 1<<40, true, true)
		m.newInput(n, "int", v)
		setNow(m, m.simplifyVal(v))
		return m.extra["now"]
	})
	nd("Wait", func(m *Machine, fr *frame, a []Value) Value {
		setNow(m, m.arith(token.ADD, types.Typ[types.Int64], m.extra["now"], int64(2)))
		return nil
	})

	// sync
	noop := simple(func(m *Machine, fr *frame, a []Value) Value { return nil })
	reg(`math/rand.Seed runtime.KeepAlive runtime.GC internal/race.Enable internal/race.Disable`, noop)
	reg("math/rand.Intn math/rand.Int63n", simple(func(m *Machine, fr *frame, a []Value) Value {
		m.fresh++
		n := m.concInt(a[0])
		return intVal(m.tb.IntVar(fmt.Sprintf("rand!%d", m.fresh), 0, n-1, true, true))
	}))
	reg("os.Getenv", simple(func(m *Machine, fr *frame, a []Value) Value { return "" }))
	reg("sort.Slice sort.SliceStable", simple(func(m *Machine, fr *frame, a []Value) Value {
		s, ok := a[0].(Iface).V.(Slice)
		if !ok {
			m.unsupported("sort.Slice")
		}
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !m.branch(m.callValue(a[1], []Value{int64(j), int64(j - 1)}, fr)) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				m.storeCell(&s[j], y)
				m.storeCell(&s[j-1], x)
			}
		}
		return nil
	}))
	reg("sort.Sort sort.Stable", simple(func(m *Machine, fr *frame, a []Value) Value {
		d := a[0].(Iface)
		lv, ok := m.callMethod(d, "Len", fr)
		if !ok {
			m.unsupported("sort.Sort")
		}
		n := m.concInt(lv)
		for i := int64(1); i < n; i++ {
			for j := i; j > 0; j-- {
				r, _ := m.callMethod(d, "Less", fr, j, j-1)
				if !m.branch(r) {
					break
				}
				m.callMethod(d, "Swap", fr, j, j-1)
			}
		}
		return nil
	}))
	reg("slices.Contains", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(Slice)
		if !ok {
			m.unsupported("slices.Contains")
		}
		t := fn.Signature.Params().At(1).Type()
		for _, e := range s {
			if m.branch(m.equal(t, e, a[1])) {
				return true
			}
		}
		return false
	})
	reg("slices.Sort", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return symHandlers["sort.Strings"](m, fr, fn, a)
	})
	_ = token.ADD
	_ = base64.StdEncoding
	_ = json.Marshal
}

func (m *Machine) parseQuery(out *Map, s *Term) Value {
	var firstErr Value = Iface{}
	for {
		s = m.simplify(s)
		if m.branch(boolVal(m.tb.StrEq(s, m.tb.EmptyStr))) {
			break
		}
		k, rest, _ := m.splitFirst(s, "&")
		s = rest
		k = m.simplify(k)
		if m.branch(boolVal(m.tb.StrEq(k, m.tb.EmptyStr))) {
			continue
		}
		k, v, _ := m.splitFirst(k, "=")
		un := func(t *Term) *Term {
			t = m.simplify(t)
			r, ok := m.queryUnescape(t)
			if !ok {
				m.unsupported("query text with escapes: %s", clip(m.tb.SMT(t), 100))
			}
			return r
		}
		key := m.strVal(un(k))
		val := m.strVal(un(v))
		var cur Slice
		if e := m.mapFind(out, key, types.Typ[types.String]); e != nil {
			cur = e.v.(Slice)
		}
		m.mapSet(out, key, append(append(Slice(nil), cur...), val), types.Typ[types.String])
	}
	return firstErr
}
