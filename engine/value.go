package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value = any

type Struct []Value
type Array []Value
type Slice []Value // nil means nil slice
type Tuple []Value
type Iface struct {
	T types.Type // nil: nil interface
	V Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type SymBytes struct{ t *Term } // immutable byte slice with opaque content
type SymFloat struct{ t *Term } // float64(int)
type Native struct{ v any }     // host object
type Poison struct{ why string }

type mapEntry struct {
	k, v Value
	dead bool
}
type Map struct {
	ents []*mapEntry
	idx  map[any]*mapEntry // concrete keys
	sym  int               // number of live entries with symbolic keys
	n    int
	open *openMap
}

// openMap: the map also holds a one-element list for every string key that is
// not known; entries are made when they are looked up.
type openMap struct {
	pre   string
	known map[string]bool
	gone  map[string]bool
	// cookies asked for by name, by the Cookie entry they are in
	cookies map[*mapEntry]*openCookie
}

type openCookie struct {
	name string
	val  *Term
}

type mapIter struct {
	m    *Map
	i    int
	back bool // from the end
	n    int  // the number of entries at the start
}
type strIter struct {
	bytes []Value
	i     int
	s     string
	conc  bool
}

var nilPtr = (*Value)(nil)

type targetPanic struct {
	v     Value // Iface
	where string
}

// pathAbort ends the current path.
type pathAbort struct {
	kind string // "infeasible", "unsupported", "budget", "violation", "assume"
	msg  string
}

func (m *Machine) unsupported(f string, a ...any) {
	panic(pathAbort{"unsupported", fmt.Sprintf(f, a...)})
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		c := make(Struct, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	case Array:
		c := make(Array, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	}
	return v
}

func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			return nilPtr
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return nilPtr
		case t.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
	case *types.Pointer:
		return nilPtr
	case *types.Array:
		a := make(Array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return Slice(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return nilPtr
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.TypeParam:
		return Poison{"typeparam"}
	}
	panic(fmt.Sprintf("zero: %T %v", t, t))
}

func isConc(v Value) bool {
	switch v := v.(type) {
	case *Term, *SymBytes, *SymFloat:
		return false
	case Struct:
		for _, e := range v {
			if !isConc(e) {
				return false
			}
		}
	case Array:
		for _, e := range v {
			if !isConc(e) {
				return false
			}
		}
	case Slice:
		for _, e := range v {
			if !isConc(e) {
				return false
			}
		}
	case Iface:
		return isConc(v.V)
	}
	return true
}

// ---- conversion to terms

func (m *Machine) str(v Value) *Term {
	switch v := v.(type) {
	case string:
		return m.tb.Str(v)
	case *Term:
		return v
	}
	panic(pathAbort{"unsupported", fmt.Sprintf("not a string: %T", v)})
}
func (m *Machine) strVal(t *Term) Value {
	if t.op == "str" {
		return t.s
	}
	return t
}
func (m *Machine) boolT(v Value) *Term {
	switch v := v.(type) {
	case bool:
		return m.tb.Bool(v)
	case *Term:
		return v
	}
	panic(pathAbort{"unsupported", fmt.Sprintf("not a bool: %T", v)})
}
func boolVal(t *Term) Value {
	switch t.op {
	case "true":
		return true
	case "false":
		return false
	}
	return t
}

// intT gives an Int-sorted term for an integer value of the given type.
func (m *Machine) intT(v Value, t types.Type) *Term {
	switch v := v.(type) {
	case int64:
		if isUnsigned(t) && v < 0 {
			return m.tb.BV2Nat(m.tb.BV(v, 64))
		}
		return m.tb.Int(v)
	case *Term:
		if v.sort == SInt {
			return v
		}
		if v.sort > 0 {
			if isUnsigned(t) {
				return m.tb.BV2Nat(v)
			}
			return m.tb.SBV2Int(v)
		}
	}
	panic(pathAbort{"unsupported", fmt.Sprintf("not an int: %T", v)})
}
func intVal(t *Term) Value {
	if t.op == "int" && t.s == "" {
		return t.i
	}
	if t.op == "bv" {
		return t.i
	}
	return t
}
func (m *Machine) bvT(v Value, w Sort) *Term {
	switch v := v.(type) {
	case int64:
		return m.tb.BV(v, w)
	case *Term:
		if v.sort == SInt {
			return m.tb.Int2BV(v, w)
		}
		if v.sort == w {
			return v
		}
	}
	panic(pathAbort{"unsupported", fmt.Sprintf("bvT %T", v)})
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}
func isUnsigned(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsUnsigned != 0
}
func intWidth(t types.Type) Sort {
	b := basicOf(t)
	if b == nil {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}
func isStringT(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsString != 0
}
func isIntT(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}
func isFloatT(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b := basicOf(s.Elem())
	return b != nil && b.Kind() == types.Uint8
}

func wrapInt(v int64, t types.Type) int64 {
	b := basicOf(t)
	if b == nil {
		return v
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32, types.UntypedRune:
		return int64(int32(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

// bytesTerm: the content of a byte-slice value as a string term
func (m *Machine) bytesTerm(v Value) *Term {
	switch v := v.(type) {
	case *SymBytes:
		return v.t
	case string:
		return m.tb.Str(v)
	case Array:
		return m.bytesTerm(Slice(v))
	case Slice:
		allc := true
		for _, e := range v {
			if _, ok := e.(int64); !ok {
				allc = false
				break
			}
		}
		if allc {
			b := make([]byte, len(v))
			for i, e := range v {
				b[i] = byte(e.(int64))
			}
			return m.tb.Str(string(b))
		}
		ps := make([]*Term, len(v))
		for i, e := range v {
			switch e := e.(type) {
			case int64:
				ps[i] = m.tb.Str(string([]byte{byte(e)}))
			case *Term:
				if e.sort == SInt {
					e = m.tb.Int2BV(e, 8)
				}
				ps[i] = m.tb.ByteStr(e)
			default:
				m.unsupported("byte slice with %T", e)
			}
		}
		return m.tb.Concat(ps...)
	}
	m.unsupported("bytesTerm %T", v)
	return nil
}

func bytesToSlice(b []byte) Slice {
	s := make(Slice, len(b))
	for i, c := range b {
		s[i] = int64(c)
	}
	return s
}

// strToBytes converts a string term to a byte slice value.
func (m *Machine) strToBytes(t *Term) Value {
	if t.op == "str" {
		return bytesToSlice([]byte(t.s))
	}
	if fixedBytes(pieces(t)) {
		bs := m.tb.explode(pieces(t))
		s := make(Slice, len(bs))
		for i, b := range bs {
			s[i] = intVal(b)
		}
		return s
	}
	return &SymBytes{t}
}

// ---- maps

func mapKey(k Value) (any, bool) {
	switch k := k.(type) {
	case bool, int64, float64, string, *Value:
		return k, true
	case Iface:
		if k.T == nil {
			return "nil-iface", true
		}
		u, ok := mapKey(k.V)
		if !ok {
			return nil, false
		}
		return fmt.Sprintf("%s|%T|%v", k.T, u, u), true
	case Struct:
		var sb strings.Builder
		for _, e := range k {
			u, ok := mapKey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T|%v|", u, u)
		}
		return "struct:" + sb.String(), true
	case Array:
		u, ok := mapKey(Struct(k))
		return u, ok
	}
	return nil, false
}

func newMap() *Map { return &Map{idx: map[any]*mapEntry{}} }

func (m *Machine) mapFind(mp *Map, k Value, kt types.Type) *mapEntry {
	if mp == nil {
		return nil
	}
	if m.race != nil {
		m.touch(mp, false)
	}
	if t, ok := k.(*Term); ok {
		k = m.simplifyVal(t)
	}
	key, conc := mapKey(k)
	if conc {
		if e := mp.idx[key]; e != nil && !e.dead {
			return e
		}
		if mp.open != nil {
			if e := m.openEntry(mp, key, kt); e != nil {
				return e
			}
		}
		if mp.sym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c := mapKey(e.k); c {
				continue
			}
		}
		if m.branch(m.equal(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) openEntry(mp *Map, key any, kt types.Type) *mapEntry {
	o := mp.open
	s, ok := key.(string)
	if !ok || o.known[s] || o.gone[s] {
		return nil
	}
	n := o.pre + ":" + s
	v := m.tb.strVar(n, " -_a-}", 0, -1)
	m.newInput(n, "str", v)
	mp.open = nil
	m.mapSet(mp, s, Slice{m.simplifyVal(v)}, kt)
	mp.open = o
	return mp.idx[key]
}

func (m *Machine) mapSet(mp *Map, k, v Value, kt types.Type) {
	if mp == nil {
		m.goPanicStr("assignment to entry in nil map")
	}
	if m.race != nil {
		m.touch(mp, true)
	}
	if t, ok := k.(*Term); ok {
		k = m.simplifyVal(t)
	}
	if o := mp.open; o != nil {
		if s, ok := k.(string); ok && mp.idx[s] == nil && !o.gone[s] {
			o.gone[s] = true
			m.trailFn(func() { delete(o.gone, s) })
		}
	}
	if e := m.mapFind(mp, k, kt); e != nil {
		old := e.v
		m.trailFn(func() { e.v = old })
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	key, conc := mapKey(k)
	mp.ents = append(mp.ents, e)
	mp.n++
	if conc {
		old := mp.idx[key]
		mp.idx[key] = e
		m.trailFn(func() {
			mp.ents = mp.ents[:len(mp.ents)-1]
			mp.n--
			if old != nil {
				mp.idx[key] = old
			} else {
				delete(mp.idx, key)
			}
		})
	} else {
		mp.sym++
		m.trailFn(func() { mp.ents = mp.ents[:len(mp.ents)-1]; mp.n--; mp.sym-- })
	}
}

func (m *Machine) mapDelete(mp *Map, k Value, kt types.Type) {
	if mp == nil {
		return
	}
	if m.race != nil {
		m.touch(mp, true)
	}
	if o := mp.open; o != nil {
		s, ok := k.(string)
		if !ok {
			m.unsupported("deletion of a symbolic key from an open map")
		}
		if !o.gone[s] {
			o.gone[s] = true
			m.trailFn(func() { delete(o.gone, s) })
		}
	}
	e := m.mapFind(mp, k, kt)
	if e == nil {
		return
	}
	e.dead = true
	mp.n--
	_, conc := mapKey(e.k)
	if !conc {
		mp.sym--
	}
	m.trailFn(func() {
		e.dead = false
		mp.n++
		if !conc {
			mp.sym++
		}
	})
}

func (mp *Map) live() []*mapEntry {
	if mp == nil {
		return nil
	}
	var out []*mapEntry
	for _, e := range mp.ents {
		if !e.dead {
			out = append(out, e)
		}
	}
	return out
}

// sortedStrEntries sorts entries by (possibly symbolic) string key, forking as needed.
func (m *Machine) sortedStrEntries(mp *Map) []*mapEntry {
	es := mp.live()
	allc := true
	for _, e := range es {
		if _, ok := e.k.(string); !ok {
			allc = false
		}
	}
	if allc {
		sort.SliceStable(es, func(i, j int) bool { return es[i].k.(string) < es[j].k.(string) })
		return es
	}
	// insertion sort with forks
	for i := 1; i < len(es); i++ {
		for j := i; j > 0; j-- {
			if m.branch(boolVal(m.tb.StrLt(m.str(es[j].k), m.str(es[j-1].k)))) {
				es[j], es[j-1] = es[j-1], es[j]
			} else {
				break
			}
		}
	}
	return es
}

// equal returns bool or *Term.
func (m *Machine) equal(t types.Type, x, y Value) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			xs, ok1 := x.(string)
			ys, ok2 := y.(string)
			if ok1 && ok2 {
				return xs == ys
			}
			return boolVal(m.tb.StrEq(m.str(x), m.str(y)))
		case t.Info()&types.IsBoolean != 0:
			xb, ok1 := x.(bool)
			yb, ok2 := y.(bool)
			if ok1 && ok2 {
				return xb == yb
			}
			return boolVal(m.tb.Eq(m.boolT(x), m.boolT(y)))
		case t.Info()&types.IsInteger != 0:
			xi, ok1 := x.(int64)
			yi, ok2 := y.(int64)
			if ok1 && ok2 {
				return xi == yi
			}
			return boolVal(m.intCmpEq(x, y, t))
		case t.Info()&types.IsFloat != 0:
			xf, ok1 := x.(float64)
			yf, ok2 := y.(float64)
			if ok1 && ok2 {
				return xf == yf
			}
			return boolVal(m.tb.EqInt(m.floatInt(x), m.floatInt(y)))
		case t.Kind() == types.UnsafePointer, t.Kind() == types.UntypedNil:
			return x == y
		}
	case *types.Pointer, *types.Chan:
		return x == y
	case *types.Interface:
		a, ok1 := x.(Iface)
		b, ok2 := y.(Iface)
		if !ok1 || !ok2 {
			m.unsupported("iface eq %T %T", x, y)
		}
		if a.T == nil || b.T == nil {
			return a.T == nil && b.T == nil
		}
		if !types.Identical(a.T, b.T) {
			return false
		}
		if !types.Comparable(a.T) {
			m.goPanicStr("comparing uncomparable type " + a.T.String())
		}
		return m.equal(a.T, a.V, b.V)
	case *types.Struct:
		xs, ok1 := x.(Struct)
		ys, ok2 := y.(Struct)
		if !ok1 || !ok2 {
			return x == y
		}
		r := m.tb.True
		for i := range xs {
			r = m.tb.And(r, m.boolT(m.equal(t.Field(i).Type(), xs[i], ys[i])))
		}
		return boolVal(r)
	case *types.Array:
		xs, ys := x.(Array), y.(Array)
		r := m.tb.True
		for i := range xs {
			r = m.tb.And(r, m.boolT(m.equal(t.Elem(), xs[i], ys[i])))
		}
		return boolVal(r)
	case *types.Map:
		return x.(*Map) == y.(*Map)
	case *types.Slice:
		// only comparison with nil
		return isNilSlice(x) && isNilSlice(y)
	case *types.Signature:
		return isNilFunc(x) && isNilFunc(y)
	}
	m.unsupported("equal on %v", t)
	return nil
}

func isNilSlice(v Value) bool {
	s, ok := v.(Slice)
	return ok && s == nil
}
func isNilFunc(v Value) bool {
	c, ok := v.(*Closure)
	return ok && c == nil
}

func (m *Machine) floatInt(v Value) *Term {
	switch v := v.(type) {
	case float64:
		if float64(int64(v)) == v {
			return m.tb.Int(int64(v))
		}
	case *SymFloat:
		return v.t
	}
	m.unsupported("float %T", v)
	return nil
}

func (m *Machine) intCmpEq(x, y Value, t types.Type) *Term {
	xt, xok := x.(*Term)
	yt, yok := y.(*Term)
	if xok && xt.sort > 0 && (!yok || yt.sort == xt.sort) {
		return m.tb.EqBV(xt, m.bvT(y, xt.sort))
	}
	if yok && yt.sort > 0 && !xok {
		return m.tb.EqBV(m.bvT(x, yt.sort), yt)
	}
	return m.tb.EqInt(m.intT(x, t), m.intT(y, t))
}
