package main

import (
	"encoding/base64"
	"fmt"
	"go/token"
	"go/types"
	"html"
	"math"
	"net/textproto"
	"net/url"
	"path"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, fr *frame, fn *ssa.Function, args []Value) Value

// natives are pure functions executed directly when every argument is concrete.
var natives = map[string]any{
	"strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Index": strings.Index,
	"strings.IndexByte": strings.IndexByte, "strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN,
	"strings.Join": strings.Join, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
	"strings.Fields": strings.Fields, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.EqualFold": strings.EqualFold,
	"strings.Compare": strings.Compare, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Repeat": strings.Repeat, "strings.Count": strings.Count,
	"strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny, "strings.IndexAny": strings.IndexAny, "strings.Title": strings.Title,
	"strings.Cut": strings.Cut, "strings.IndexRune": strings.IndexRune,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.Quote": strconv.Quote, "strconv.FormatBool": strconv.FormatBool, "strconv.QuoteToASCII": strconv.QuoteToASCII,
	"net/url.QueryEscape": url.QueryEscape, "net/url.PathEscape": url.PathEscape, "net/url.stringContainsCTLByte": ctlByte,
	"html.EscapeString": html.EscapeString, "html.UnescapeString": html.UnescapeString,
	"net/textproto.CanonicalMIMEHeaderKey": textproto.CanonicalMIMEHeaderKey, "net/http.CanonicalHeaderKey": textproto.CanonicalMIMEHeaderKey,
	"path.Clean": path.Clean, "path.Split": path.Split, "path.Join": path.Join,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneCountInString": utf8.RuneCountInString,
	"math.Floor": math.Floor, "math.Trunc": math.Trunc, "math.Ceil": math.Ceil, "math.Abs": math.Abs, "math.Max": math.Max, "math.Min": math.Min, "math.Round": math.Round,
	"strconv.AppendInt": nil,
}

func ctlByte(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' || s[i] == 0x7f {
			return true
		}
	}
	return false
}

func init() {
	delete(natives, "strconv.AppendInt")
}

func fromNative(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint())
	case reflect.Float64:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return Slice(nil)
		}
		s := make(Slice, v.Len())
		for i := range s {
			s[i] = fromNative(v.Index(i))
		}
		return s
	}
	panic("fromNative " + v.Kind().String())
}

func toNative(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		return reflect.ValueOf(s), ok
	case reflect.Bool:
		s, ok := v.(bool)
		return reflect.ValueOf(s), ok
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint, reflect.Uint32, reflect.Uint64:
		s, ok := v.(int64)
		return reflect.ValueOf(s).Convert(t), ok
	case reflect.Float64:
		s, ok := v.(float64)
		return reflect.ValueOf(s), ok
	case reflect.Slice:
		s, ok := v.(Slice)
		if !ok {
			return reflect.Value{}, false
		}
		if s == nil {
			return reflect.Zero(t), true
		}
		r := reflect.MakeSlice(t, len(s), len(s))
		for i, e := range s {
			x, ok := toNative(e, t.Elem())
			if !ok {
				return r, false
			}
			r.Index(i).Set(x.Convert(t.Elem()))
		}
		return r, true
	}
	return reflect.Value{}, false
}

func callNative(f any, args []Value) (Value, bool) {
	rf := reflect.ValueOf(f)
	t := rf.Type()
	if t.NumIn() != len(args) {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		v, ok := toNative(a, t.In(i))
		if !ok {
			return nil, false
		}
		in[i] = v
	}
	out := rf.Call(in)
	if len(out) == 1 {
		return fromNative(out[0]), true
	}
	tp := make(Tuple, len(out))
	for i := range out {
		tp[i] = fromNative(out[i])
	}
	return tp, true
}

var bodyCache = map[*ssa.Function]*fnInfo{}

// interpret runs a function's real body even when an intrinsic exists for it.
func (m *Machine) interpret(fn *ssa.Function, args []Value, caller *frame) Value {
	fnMu.Lock()
	fi := bodyCache[fn]
	if fi == nil {
		fi = &fnInfo{fn: fn, name: fn.String()}
		if fn.Blocks == nil && fn.Pkg != nil {
			fn.Pkg.Build()
		}
		compile(fi)
		bodyCache[fn] = fi
	}
	fnMu.Unlock()
	if len(fi.blocks) == 0 {
		m.unsupported("no body: %s", fi.name)
	}
	m.depth++
	fr := &frame{m: m, fi: fi, regs: make([]Value, fi.nregs), caller: caller}
	for i, p := range fi.params {
		fr.regs[p] = args[i]
	}
	fr.runAll()
	m.depth--
	return fr.result
}

var symHandlers = map[string]intrinsic{}

func reg(names string, f intrinsic) {
	for _, n := range strings.Fields(names) {
		symHandlers[n] = f
	}
}

func findIntrinsic(fn *ssa.Function, name string) intrinsic {
	nat, hasNat := natives[name]
	sym := symHandlers[name]
	if fn.Origin() != nil && sym == nil {
		sym = symHandlers[fn.Origin().String()]
	}
	if !hasNat && sym == nil {
		return nil
	}
	if !hasNat {
		return sym
	}
	return func(m *Machine, fr *frame, fn *ssa.Function, args []Value) Value {
		for i, a := range args {
			if t, ok := a.(*Term); ok {
				args[i] = m.simplifyVal(t)
			}
		}
		if r, ok := callNative(nat, args); ok {
			return r
		}
		if sym != nil {
			return sym(m, fr, fn, args)
		}
		for i, a := range args {
			if t, ok := a.(*Term); ok && t.sort == SStr && !fixedBytes(pieces(t)) {
				args[i] = m.strVal(m.explodeOpaque(t))
			}
		}
		return m.interpret(fn, args, fr)
	}
}

func globalOverride(m *Machine, g *ssa.Global) (Value, bool) {
	if g.Pkg == nil {
		return nil, false
	}
	switch g.Pkg.Pkg.Path() {
	case "encoding/base64":
		switch g.Name() {
		case "StdEncoding", "URLEncoding", "RawStdEncoding", "RawURLEncoding":
			p := new(Value)
			*p = Native{g.Name()}
			return p, true
		}
	case "crypto/rand":
		if g.Name() == "Reader" {
			return Iface{types.Typ[types.Int], int64(0)}, true
		}
	case "os":
		if g.Name() == "Stdout" || g.Name() == "Stderr" || g.Name() == "Stdin" {
			p := new(Value)
			*p = Native{g.Name()}
			return p, true
		}
	case "time":
		switch g.Name() {
		case "Local", "UTC":
			p := new(Value)
			*p = zero(g.Pkg.Type("Location").Type())
			return p, true
		}
	}
	return nil, false
}

// opaque helper: does s contain sep (single constant byte)? forks
func (m *Machine) containsT(s, sub *Term) bool {
	return m.branch(boolVal(m.tb.StrContains(m.simplify(s), sub)))
}

// splitFirst splits s at the first occurrence of the constant sep: returns before, after, found. Forks on opaque pieces.
func (m *Machine) splitFirst(s *Term, sep string) (*Term, *Term, bool) {
	s = m.simplify(s)
	if sep == "" {
		m.unsupported("split on empty separator")
	}
	if s.op == "str" {
		i := strings.Index(s.s, sep)
		if i < 0 {
			return s, m.tb.EmptyStr, false
		}
		return m.tb.Str(s.s[:i]), m.tb.Str(s.s[i+len(sep):]), true
	}
	if len(sep) > 1 {
		// only safe when sep cannot straddle pieces: explode
		if c := m.tb.StrContains(s, m.tb.Str(sep)); c == m.tb.False {
			return s, m.tb.EmptyStr, false
		}
		ps := pieces(s)
		safe := true
		for _, p := range ps {
			if p.op != "str" && (p.cs == nil || p.cs.has(sep[0]) || p.cs.has(sep[len(sep)-1])) {
				safe = false
			}
		}
		if !safe {
			s = m.explodeOpaque(s)
			return m.splitFirstBytes(s, sep)
		}
	}
	ps := pieces(s)
	var before []*Term
	for i, p := range ps {
		rest := func() *Term { return m.tb.Concat(ps[i+1:]...) }
		switch {
		case p.op == "str":
			if k := strings.Index(p.s, sep); k >= 0 {
				before = append(before, m.tb.Str(p.s[:k]))
				return m.tb.Concat(before...), m.tb.Concat(m.tb.Str(p.s[k+len(sep):]), rest()), true
			}
		case p.op == "bytestr":
			if len(sep) == 1 && m.branch(boolVal(m.tb.EqBV(p.args[0], m.tb.BV(int64(sep[0]), 8)))) {
				return m.tb.Concat(before...), rest(), true
			}
		default:
			if p.cs != nil && !p.cs.has(sep[0]) {
				break
			}
			if m.branch(boolVal(m.tb.mk(&Term{op: "str.contains", sort: SBool, args: []*Term{p, m.tb.Str(sep)}}))) {
				if strings.Count(p.s, "/r") >= 4 {
					m.reduced["opaque string with more than 4 separators at "+m.pos()] = true
					panic(pathAbort{"unsupported", "too many separators in an opaque string at " + m.pos()})
				}
				base := p.s
				if p.op != "var" {
					m.fresh++
					base = fmt.Sprintf("%s#%d", p.op, m.fresh)
				}
				a := m.freshStr(base+"/l", minusClass(p.cs, sep[0]))
				b := m.freshStr(base+"/r", p.cs)
				c := m.tb.Concat(a, m.tb.Str(sep), b)
				m.pc = append(m.pc, m.tb.mk(&Term{op: "=", sort: SBool, args: []*Term{p, c}}))
				m.addBind(p, c)
				return m.tb.Concat(append(before, a)...), m.tb.Concat(b, rest()), true
			}
		}
		before = append(before, p)
	}
	return s, m.tb.EmptyStr, false
}

func (m *Machine) splitFirstBytes(s *Term, sep string) (*Term, *Term, bool) {
	if s.op == "str" {
		return m.splitFirst(s, sep)
	}
	bs := m.tb.explode(pieces(s))
	toStr := func(b []*Term) *Term {
		var ps []*Term
		for _, x := range b {
			ps = append(ps, m.tb.ByteStr(x))
		}
		return m.tb.Concat(ps...)
	}
	for i := 0; i+len(sep) <= len(bs); i++ {
		c := m.tb.True
		for j := range sep {
			c = m.tb.And(c, m.tb.EqBV(bs[i+j], m.tb.BV(int64(sep[j]), 8)))
		}
		if m.branch(boolVal(c)) {
			return toStr(bs[:i]), toStr(bs[i+len(sep):]), true
		}
	}
	return s, m.tb.EmptyStr, false
}

func minusClass(c *CharSet, b byte) *CharSet {
	var d CharSet
	if c == nil {
		d = *csASCII
	} else {
		d = *c
	}
	d[b>>6] &^= 1 << (b & 63)
	return &d
}

func (m *Machine) freshStr(name string, cs *CharSet) *Term {
	t := m.tb.Var(name, SStr)
	if t.cs == nil {
		t.cs = cs
	}
	return t
}

func strSlice(ts []*Term, m *Machine) Slice {
	s := make(Slice, len(ts))
	for i, t := range ts {
		s[i] = m.strVal(t)
	}
	return s
}

func (m *Machine) iface(t types.Type, v Value) Value { return Iface{t, v} }

func (m *Machine) constStr(v Value, what string) string {
	t := m.simplify(m.str(v))
	if t.op != "str" {
		t2 := m.concretize(t)
		return t2.(string)
	}
	return t.s
}

func init() {
	reg("strings.Contains", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return boolVal(m.tb.StrContains(m.str(a[0]), m.str(a[1])))
	})
	reg("strings.HasPrefix", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return boolVal(m.tb.StrPrefix(m.str(a[1]), m.str(a[0])))
	})
	reg("strings.HasSuffix", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return boolVal(m.tb.StrSuffix(m.str(a[1]), m.str(a[0])))
	})
	reg("strings.Index", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		sep := m.str(a[1])
		if sep.op == "str" && sep.s != "" {
			b, _, ok := m.splitFirst(m.str(a[0]), sep.s)
			if !ok {
				return int64(-1)
			}
			return intVal(m.tb.StrLen(b))
		}
		return intVal(m.tb.StrIndex(m.str(a[0]), sep, m.tb.Int(0)))
	})
	reg("strings.IndexByte strings.IndexRune internal/bytealg.IndexByteString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		c, ok := a[1].(int64)
		if !ok || c >= 128 {
			m.unsupported("IndexByte with symbolic byte")
		}
		b, _, found := m.splitFirst(m.str(a[0]), string([]byte{byte(c)}))
		if !found {
			return int64(-1)
		}
		return intVal(m.tb.StrLen(b))
	})
	reg("strings.ContainsRune", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		c, ok := a[1].(int64)
		if !ok || c >= 128 {
			m.unsupported("ContainsRune with symbolic rune")
		}
		return boolVal(m.tb.StrContains(m.str(a[0]), m.tb.Str(string(rune(c)))))
	})
	reg("strings.ContainsAny", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		set := m.constStr(a[1], "chars")
		r := m.tb.False
		for i := 0; i < len(set); i++ {
			r = m.tb.Or(r, m.tb.StrContains(m.str(a[0]), m.tb.Str(set[i:i+1])))
		}
		return boolVal(r)
	})
	reg("strings.Cut", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		b, c, ok := m.splitFirst(m.str(a[0]), m.constStr(a[1], "sep"))
		return Tuple{m.strVal(b), m.strVal(c), ok}
	})
	splitN := func(m *Machine, s *Term, sep string, n int) Value {
		if n == 0 {
			return Slice(nil)
		}
		var out []*Term
		for n < 0 || len(out) < n-1 {
			b, c, ok := m.splitFirst(s, sep)
			if !ok {
				s = m.simplify(s)
				break
			}
			out = append(out, b)
			s = c
		}
		out = append(out, s)
		return strSlice(out, m)
	}
	reg("strings.Split", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		sep := m.constStr(a[1], "sep")
		if sep == "" {
			t := m.explodeOpaque(m.str(a[0]))
			var out []*Term
			if t.op == "str" {
				for i := range t.s {
					out = append(out, m.tb.Str(t.s[i:i+1]))
				}
			} else {
				for _, b := range m.tb.explode(pieces(t)) {
					out = append(out, m.tb.ByteStr(b))
				}
			}
			return strSlice(out, m)
		}
		return splitN(m, m.str(a[0]), sep, -1)
	})
	reg("strings.SplitN", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return splitN(m, m.str(a[0]), m.constStr(a[1], "sep"), int(m.concInt(a[2])))
	})
	reg("strings.Fields", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		// split on blanks; other white space is explored byte by byte
		t := m.simplify(m.str(a[0]))
		for _, p := range pieces(t) {
			if p.op == "str" {
				if strings.ContainsAny(p.s, "\t\n\v\f\r") {
					t = m.explodeOpaque(t)
					return m.interpret(fn, []Value{m.strVal(t)}, fr)
				}
				continue
			}
			if p.cs == nil || p.cs.has('\t') || p.cs.has('\n') || p.cs.has('\r') || p.cs.has('\v') || p.cs.has('\f') {
				t = m.explodeOpaque(t)
				return m.interpret(fn, []Value{m.strVal(t)}, fr)
			}
		}
		parts := splitN(m, t, " ", -1).(Slice)
		out := Slice{}
		for _, p := range parts {
			if !m.branch(boolVal(m.tb.StrEq(m.str(p), m.tb.EmptyStr))) {
				out = append(out, p)
			}
		}
		return out
	})
	reg("strings.Join", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		var ps []*Term
		for i, e := range s {
			if i > 0 {
				ps = append(ps, m.str(a[1]))
			}
			ps = append(ps, m.str(e))
		}
		return m.strVal(m.tb.Concat(ps...))
	})
	lowup := func(op string) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			t := m.simplify(m.str(a[0]))
			if fixedBytes(pieces(t)) && t.op != "str" {
				return m.interpret(fn, []Value{t}, fr)
			}
			return m.strVal(m.tb.App(op, "", t))
		}
	}
	reg("strings.ToLower", lowup("lower"))
	reg("strings.ToUpper", lowup("upper"))
	reg("strings.EqualFold", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := m.str(a[0]), m.str(a[1])
		if x.op == "str" {
			x, y = y, x
		}
		if y.op == "str" {
			return boolVal(m.tb.InCI(x, y.s))
		}
		return boolVal(m.tb.StrEq(m.tb.App("lower", "", x), m.tb.App("lower", "", y)))
	})
	reg("internal/ascii.EqualFold net/http/internal/ascii.EqualFold", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := m.simplify(m.str(a[0])), m.simplify(m.str(a[1]))
		if x.op == "str" {
			x, y = y, x
		}
		if y.op == "str" {
			return boolVal(m.tb.InCI(x, y.s))
		}
		return boolVal(m.tb.StrEq(m.tb.App("lower", "", x), m.tb.App("lower", "", y)))
	})
	noSpace := func(t *Term, cut string) bool {
		for _, p := range pieces(t) {
			if p.op == "str" || p.op == "json" && strings.Trim(cut, " \t\n\v\f\r") == "" && jsonMode(p) == "" {
				continue
			}
			if p.cs == nil {
				return false
			}
			for i := 0; i < len(cut); i++ {
				if p.cs.has(cut[i]) {
					return false
				}
			}
		}
		return true
	}
	trim := func(left, right bool) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			t := m.simplify(m.str(a[0]))
			cut := " \t\n\v\f\r"
			if len(a) > 1 {
				cut = m.constStr(a[1], "cutset")
			}
			if !noSpace(t, cut) {
				t = m.explodeOpaque(t)
				if t.op == "str" {
					args := append([]Value{t.s}, a[1:]...)
					return m.interpret(fn, args, fr)
				}
				// byte level
				bs := m.tb.explode(pieces(t))
				in := func(b *Term) bool {
					c := m.tb.False
					for i := 0; i < len(cut); i++ {
						c = m.tb.Or(c, m.tb.EqBV(b, m.tb.BV(int64(cut[i]), 8)))
					}
					return m.branch(boolVal(c))
				}
				i, j := 0, len(bs)
				for left && i < j && in(bs[i]) {
					i++
				}
				for right && j > i && in(bs[j-1]) {
					j--
				}
				var ps []*Term
				for _, b := range bs[i:j] {
					ps = append(ps, m.tb.ByteStr(b))
				}
				return m.strVal(m.tb.Concat(ps...))
			}
			ps := append([]*Term(nil), pieces(t)...)
			for left && len(ps) > 0 {
				if ps[0].op == "str" {
					s := strings.TrimLeft(ps[0].s, cut)
					if s == "" {
						ps = ps[1:]
						continue
					}
					ps[0] = m.tb.Str(s)
					break
				}
				if ps[0].minLen > 0 || len(ps) == 1 || !m.branch(boolVal(m.tb.StrEq(ps[0], m.tb.EmptyStr))) {
					break
				}
				ps = ps[1:]
			}
			for right && len(ps) > 0 {
				k := len(ps) - 1
				if ps[k].op == "str" {
					s := strings.TrimRight(ps[k].s, cut)
					if s == "" {
						ps = ps[:k]
						continue
					}
					ps[k] = m.tb.Str(s)
					break
				}
				if ps[k].minLen > 0 || len(ps) == 1 || !m.branch(boolVal(m.tb.StrEq(ps[k], m.tb.EmptyStr))) {
					break
				}
				ps = ps[:k]
			}
			return m.strVal(m.tb.Concat(ps...))
		}
	}
	reg("strings.TrimSpace strings.Trim", trim(true, true))
	reg("strings.TrimLeft", trim(true, false))
	reg("strings.TrimRight", trim(false, true))
	reg("strings.TrimPrefix", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.interpret(fn, a, fr) })
	reg("strings.TrimSuffix", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return m.interpret(fn, a, fr) })
	reg("strings.Count", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		sl := splitN(m, m.str(a[0]), m.constStr(a[1], "sep"), -1).(Slice)
		return int64(len(sl) - 1)
	})
	repl := func(m *Machine, s *Term, old string, nw *Term, n int) Value {
		var out []*Term
		k := 0
		for n < 0 || k < n {
			b, c, ok := m.splitFirst(s, old)
			if !ok {
				s = m.simplify(s)
				break
			}
			out = append(out, b, nw)
			s = c
			k++
		}
		out = append(out, s)
		return m.strVal(m.tb.Concat(out...))
	}
	reg("strings.Replace", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return repl(m, m.str(a[0]), m.constStr(a[1], "old"), m.str(a[2]), int(m.concInt(a[3])))
	})
	reg("strings.ReplaceAll", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return repl(m, m.str(a[0]), m.constStr(a[1], "old"), m.str(a[2]), -1)
	})
	reg("strings.Compare", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := m.str(a[0]), m.str(a[1])
		if m.branch(boolVal(m.tb.StrEq(x, y))) {
			return int64(0)
		}
		if m.branch(boolVal(m.tb.StrLt(x, y))) {
			return int64(-1)
		}
		return int64(1)
	})
	reg("strings.Repeat", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		n := m.concInt(a[1])
		var ps []*Term
		for i := int64(0); i < n; i++ {
			ps = append(ps, m.str(a[0]))
		}
		return m.strVal(m.tb.Concat(ps...))
	})
	reg("strings.LastIndex", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		sep := m.constStr(a[1], "sep")
		parts := splitN(m, m.str(a[0]), sep, -1).(Slice)
		if len(parts) == 1 {
			return int64(-1)
		}
		pos := m.tb.Int(0)
		for _, p := range parts[:len(parts)-1] {
			pos = m.tb.Add(pos, m.tb.StrLen(m.str(p)))
		}
		return intVal(m.tb.Add(pos, m.tb.Int(int64((len(parts)-2)*len(sep)))))
	})

	// strings.Builder: field 1 (buf) holds the text
	bld := func(f func(m *Machine, st Struct, a []Value) Value) intrinsic {
		return func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			p, ok := a[0].(*Value)
			if !ok || p == nil {
				m.nilDeref()
			}
			return f(m, (*p).(Struct), a[1:])
		}
	}
	bget := func(m *Machine, st Struct) *Term {
		if m.race != nil {
			m.touch(&st[1], false)
		}
		switch v := st[1].(type) {
		case Slice:
			return m.tb.EmptyStr
		case string, *Term:
			return m.str(v)
		}
		m.unsupported("builder")
		return nil
	}
	badd := func(m *Machine, st Struct, t *Term) {
		m.storeCell(&st[1], m.strVal(m.tb.Concat(bget(m, st), t)))
	}
	reg("(*strings.Builder).WriteString", bld(func(m *Machine, st Struct, a []Value) Value {
		t := m.str(a[0])
		badd(m, st, t)
		return Tuple{intVal(m.tb.StrLen(t)), Iface{}}
	}))
	reg("(*strings.Builder).Write", bld(func(m *Machine, st Struct, a []Value) Value {
		t := m.bytesTerm(a[0])
		badd(m, st, t)
		return Tuple{intVal(m.tb.StrLen(t)), Iface{}}
	}))
	reg("(*strings.Builder).WriteByte", bld(func(m *Machine, st Struct, a []Value) Value {
		badd(m, st, m.bytesTerm(Slice{a[0]}))
		return Iface{}
	}))
	reg("(*strings.Builder).WriteRune", bld(func(m *Machine, st Struct, a []Value) Value {
		v := m.convert(types.Typ[types.Rune], types.Typ[types.String], a[0])
		badd(m, st, m.str(v))
		return Tuple{int64(1), Iface{}}
	}))
	reg("(*strings.Builder).String", bld(func(m *Machine, st Struct, a []Value) Value { return m.strVal(bget(m, st)) }))
	reg("(*strings.Builder).Len", bld(func(m *Machine, st Struct, a []Value) Value { return intVal(m.tb.StrLen(bget(m, st))) }))
	reg("(*strings.Builder).Reset", bld(func(m *Machine, st Struct, a []Value) Value { m.storeCell(&st[1], ""); return nil }))
	reg("(*strings.Builder).Grow", bld(func(m *Machine, st Struct, a []Value) Value { return nil }))

	// bytes.Buffer: field 0 (buf) holds the text as bytes value
	bbget := func(m *Machine, st Struct) *Term {
		if m.race != nil {
			m.touch(&st[0], false)
		}
		return m.bytesTerm(st[0])
	}
	bbadd := func(m *Machine, st Struct, t *Term) {
		m.storeCell(&st[0], &SymBytes{m.tb.Concat(bbget(m, st), t)})
	}
	reg("(*bytes.Buffer).WriteString", bld(func(m *Machine, st Struct, a []Value) Value {
		t := m.str(a[0])
		bbadd(m, st, t)
		return Tuple{intVal(m.tb.StrLen(t)), Iface{}}
	}))
	reg("(*bytes.Buffer).Write", bld(func(m *Machine, st Struct, a []Value) Value {
		t := m.bytesTerm(a[0])
		bbadd(m, st, t)
		return Tuple{intVal(m.tb.StrLen(t)), Iface{}}
	}))
	reg("(*bytes.Buffer).WriteByte", bld(func(m *Machine, st Struct, a []Value) Value {
		bbadd(m, st, m.bytesTerm(Slice{a[0]}))
		return Iface{}
	}))
	reg("(*bytes.Buffer).String", bld(func(m *Machine, st Struct, a []Value) Value {
		if o, ok := st[1].(int64); !ok || o != 0 {
			m.unsupported("partially read buffer")
		}
		return m.strVal(bbget(m, st))
	}))
	reg("(*bytes.Buffer).Bytes", bld(func(m *Machine, st Struct, a []Value) Value { return m.strToBytes(bbget(m, st)) }))
	reg("(*bytes.Buffer).Len", bld(func(m *Machine, st Struct, a []Value) Value { return intVal(m.tb.StrLen(bbget(m, st))) }))
	reg("bytes.Equal", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return boolVal(m.tb.StrEq(m.bytesTerm(a[0]), m.bytesTerm(a[1])))
	})

	// strconv
	reg("strconv.Itoa", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.strVal(m.tb.App("itoa", "", m.intT(a[0], types.Typ[types.Int])))
	})
	reg("strconv.FormatInt", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if m.concInt(a[1]) != 10 {
			m.unsupported("FormatInt base")
		}
		return m.strVal(m.tb.App("itoa", "", m.intT(a[0], types.Typ[types.Int64])))
	})
	reg("strconv.FormatBool", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if m.branch(a[0]) {
			return "true"
		}
		return "false"
	})
	reg("strconv.Quote", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if t := m.simplify(m.str(a[0])); m.extra["realstd"] == true && t.op != "str" {
			return m.interpret(fn, []Value{m.strVal(m.explodeOpaque(t))}, fr)
		}
		return m.strVal(m.tb.Concat(m.tb.Str(`"`), m.tb.App("qbody", "", m.str(a[0])), m.tb.Str(`"`)))
	})
	reg("strconv.Unquote", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := m.simplify(m.str(a[0]))
		if t.op == "str" {
			s, err := strconv.Unquote(t.s)
			if err != nil {
				return Tuple{"", m.mkError(err.Error())}
			}
			return Tuple{s, Iface{}}
		}
		ps := pieces(t)
		n := len(ps)
		if n >= 2 && ps[0].op == "str" && ps[0].s[0] == '"' && ps[n-1].op == "str" && strings.HasSuffix(ps[n-1].s, `"`) {
			var out []*Term
			ok := true
			for i, p := range ps {
				switch {
				case p.op == "str":
					s := p.s
					if i == 0 {
						s = s[1:]
					}
					if i == n-1 {
						s = s[:len(s)-1]
					}
					v, err := strconv.Unquote(`"` + s + `"`)
					if err != nil {
						ok = false
					}
					out = append(out, m.tb.Str(v))
				case p.op == "qbody":
					out = append(out, p.args[0])
				case p.cs != nil && p.cs.subsetOf(parseClass("A-Za-z0-9 !#-[\\]-~")):
					out = append(out, p)
				default:
					ok = false
				}
			}
			if ok {
				return Tuple{m.strVal(m.tb.Concat(out...)), Iface{}}
			}
		}
		return m.interpret(fn, []Value{m.strVal(m.explodeOpaque(t))}, fr)
	})
	atoi := func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := m.simplify(m.str(a[0]))
		if len(a) > 1 && (m.concInt(a[1]) != 10 || m.concInt(a[2]) != 64 && m.concInt(a[2]) != 0) {
			m.unsupported("ParseInt base/size")
		}
		if t.op == "str" {
			i, err := strconv.ParseInt(t.s, 10, 64)
			if err != nil {
				if len(a) == 1 {
					err.(*strconv.NumError).Func = "Atoi"
				}
				return Tuple{i, m.numError(err.(*strconv.NumError), m.tb.Str(t.s))}
			}
			return Tuple{i, Iface{}}
		}
		if t.op == "itoa" {
			return Tuple{intVal(t.args[0]), Iface{}}
		}
		name := "ParseInt"
		if len(a) == 1 {
			name = "Atoi"
		}
		nonDigit := t.cs != nil
		if t.cs != nil {
			for c := byte('0'); c <= '9'; c++ {
				if t.cs.has(c) {
					nonDigit = false
				}
			}
		}
		if nonDigit {
			return Tuple{int64(0), m.numError(&strconv.NumError{Func: name, Err: strconv.ErrSyntax}, t)}
		}
		if m.branch(boolVal(m.tb.StrEq(t, m.tb.EmptyStr))) {
			return Tuple{int64(0), m.numError(&strconv.NumError{Func: name, Err: strconv.ErrSyntax}, t)}
		}
		return m.interpret(fn, append([]Value{m.strVal(m.explodeOpaque(t))}, a[1:]...), fr)
	}
	reg("strconv.Atoi strconv.ParseInt", atoi)
	reg("internal/stringslite.Clone strings.Clone", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })

	// net/url
	reg("net/url.QueryEscape", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if m.extra["realstd"] == true {
			return m.interpret(fn, []Value{m.strVal(m.explodeOpaque(m.str(a[0])))}, fr)
		}
		return m.strVal(m.tb.App("qesc", "", m.simplify(m.str(a[0]))))
	})
	reg("net/url.QueryUnescape", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := m.simplify(m.str(a[0]))
		if t.op == "str" {
			s, err := url.QueryUnescape(t.s)
			if err != nil {
				return Tuple{"", m.mkError(err.Error())}
			}
			return Tuple{s, Iface{}}
		}
		if m.extra["realstd"] != true {
			if r, ok := m.queryUnescape(t); ok {
				return Tuple{m.strVal(r), Iface{}}
			}
		}
		return m.interpret(fn, []Value{m.strVal(m.explodeOpaque(t))}, fr)
	})
	safePath := parseClass("A-Za-z0-9\\-_.~$&+,/:;=@")
	reg("net/url.unescape", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := m.simplify(m.str(a[0]))
		if t.op == "str" {
			return m.interpret(fn, a, fr)
		}
		ok := true
		for _, p := range pieces(t) {
			if p.cs == nil || !p.cs.subsetOf(safePath) || p.cs.has('+') {
				ok = false
			}
		}
		if ok {
			return Tuple{m.strVal(t), Iface{}}
		}
		if r, ok := m.queryUnescape(t); ok && m.concInt(a[1]) == int64(6) {
			return Tuple{m.strVal(r), Iface{}}
		}
		return m.interpret(fn, []Value{m.strVal(m.explodeOpaque(t)), a[1]}, fr)
	})
	reg("net/url.escape", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := m.simplify(m.str(a[0]))
		if t.op == "str" {
			return m.interpret(fn, a, fr)
		}
		ok := true
		for _, p := range pieces(t) {
			if p.cs == nil || !p.cs.subsetOf(csQSafe) {
				if p.op == "str" && strings.Trim(p.s, "/") != "" || p.op != "str" {
					ok = p.op == "str" && safeLit(p.s)
				}
			}
			if !ok {
				break
			}
		}
		if ok {
			return m.strVal(t)
		}
		return m.interpret(fn, []Value{m.strVal(m.explodeOpaque(t)), a[1]}, fr)
	})
	reg("net/url.validEncoded", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := m.simplify(m.str(a[0]))
		if t.op == "str" {
			return m.interpret(fn, a, fr)
		}
		for _, p := range pieces(t) {
			if p.cs == nil || !p.cs.subsetOf(safePath) {
				return m.interpret(fn, []Value{m.strVal(m.explodeOpaque(t)), a[1]}, fr)
			}
		}
		return true
	})
	reg("net/url.stringContainsCTLByte", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := m.simplify(m.str(a[0]))
		var ctl CharSet
		ctl.addRange(0, 31)
		ctl.add(127)
		r := m.tb.False
		for _, p := range pieces(t) {
			if p.cs != nil {
				hit := false
				for i := 0; i < 128; i++ {
					if ctl.has(byte(i)) && p.cs.has(byte(i)) {
						hit = true
					}
				}
				if !hit {
					continue
				}
			}
			if p.op == "bytestr" {
				b := p.args[0]
				r = m.tb.Or(r, m.tb.BVCmp("bvult", b, m.tb.BV(32, 8)), m.tb.EqBV(b, m.tb.BV(127, 8)))
				continue
			}
			return m.interpret(fn, []Value{m.strVal(m.explodeOpaque(t))}, fr)
		}
		return boolVal(r)
	})
	reg("(net/url.Values).Encode", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		mp, _ := a[0].(*Map)
		if mp == nil || mp.n == 0 {
			return ""
		}
		qe := m.prog.fn("net/url", "QueryEscape")
		var ps []*Term
		for _, e := range m.sortedStrEntries(mp) {
			k := m.str(m.call(qe, []Value{e.k}, nil, fr))
			for _, v := range e.v.(Slice) {
				if len(ps) > 0 {
					ps = append(ps, m.tb.Str("&"))
				}
				ps = append(ps, k, m.tb.Str("="), m.str(m.call(qe, []Value{v}, nil, fr)))
			}
		}
		return m.strVal(m.tb.Concat(ps...))
	})

	// html
	reg("html.EscapeString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		if m.extra["realstd"] == true {
			return m.interpret(fn, []Value{m.strVal(m.explodeOpaque(m.str(a[0])))}, fr)
		}
		return m.strVal(m.tb.App("hesc", "", m.simplify(m.str(a[0]))))
	})
	reg("html.UnescapeString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := m.simplify(m.str(a[0]))
		var out []*Term
		for _, p := range pieces(t) {
			switch {
			case p.op == "str":
				if strings.Contains(p.s, "&") && !strings.Contains(p.s, ";") {
					m.unsupported("html unescape of split entity")
				}
				out = append(out, m.tb.Str(html.UnescapeString(p.s)))
			case p.op == "hesc":
				out = append(out, p.args[0])
			case p.cs != nil && !p.cs.has('&'):
				out = append(out, p)
			default:
				return m.interpret(fn, []Value{m.strVal(m.explodeOpaque(t))}, fr)
			}
		}
		return m.strVal(m.tb.Concat(out...))
	})

	// sorting
	reg("sort.Strings slices.Sort[[]string,string] slices.Sort[[]string string]", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(Slice)
		if !ok {
			m.unsupported("sort.Strings %T", a[0])
		}
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !m.branch(m.binop(token.LSS, types.Typ[types.String], types.Typ[types.String], types.Typ[types.Bool], s[j], s[j-1])) {
					break
				}
				x, y := s[j], s[j-1]
				m.storeCell(&s[j], y)
				m.storeCell(&s[j-1], x)
			}
		}
		return nil
	})

	reg("encoding/base64.NewDecoder", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		rd, ok := a[1].(Iface)
		if !ok || rd.T == nil {
			return m.interpret(fn, a, fr)
		}
		p, _ := rd.V.(*Value)
		var t *Term
		switch rd.T.String() {
		case "*strings.Reader":
			t = m.str((*p).(Struct)[0])
		case "*bytes.Reader":
			t = m.bytesTerm((*p).(Struct)[0])
		case "*bytes.Buffer":
			t = m.bytesTerm((*p).(Struct)[0])
		default:
			return m.interpret(fn, a, fr)
		}
		r := symHandlers["(*encoding/base64.Encoding).DecodeString"](m, fr, fn, []Value{a[0], m.strVal(t)}).(Tuple)
		if e := r[1].(Iface); e.T != nil {
			if t = m.simplify(t); t.op != "str" {
				m.unsupported("stream of text that is not base64")
			}
			return m.interpret(fn, a, fr)
		}
		q := new(Value)
		*q = Struct{r[0], int64(0), int64(-1)}
		return Iface{types.NewPointer(m.prog.typ("bytes", "Reader")), q}
	})
	for _, n := range strings.Fields("Contains HasPrefix HasSuffix Index IndexByte Count ToLower ToUpper TrimSpace Trim TrimLeft TrimRight TrimPrefix TrimSuffix Replace ReplaceAll EqualFold Cut Split SplitN Fields Join") {
		n := n
		reg("bytes."+n, func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
			opaque := false
			for _, v := range a {
				if _, ok := v.(*SymBytes); ok {
					opaque = true
				}
				if s, ok := v.(Slice); ok && n == "Join" {
					for _, e := range s {
						if _, ok := e.(*SymBytes); ok {
							opaque = true
						}
					}
				}
			}
			sf := m.prog.fn("strings", n)
			if !opaque || sf == nil {
				return m.interpret(fn, a, fr)
			}
			b := make([]Value, len(a))
			for i, v := range a {
				b[i] = v
				if isByteSlice(fn.Signature.Params().At(i).Type()) {
					b[i] = m.strVal(m.bytesTerm(v))
				} else if s, ok := v.(Slice); ok && n == "Join" {
					l := make(Slice, len(s))
					for k, e := range s {
						l[k] = m.strVal(m.bytesTerm(e))
					}
					b[i] = l
				}
			}
			var back func(v Value, t types.Type) Value
			back = func(v Value, t types.Type) Value {
				if isByteSlice(t) {
					return m.strToBytes(m.str(v))
				}
				if sl, ok := t.Underlying().(*types.Slice); ok {
					var l Slice
					for _, e := range v.(Slice) {
						l = append(l, back(e, sl.Elem()))
					}
					return l
				}
				return v
			}
			res := fn.Signature.Results()
			r := m.call(sf, b, nil, fr)
			if res.Len() == 1 {
				return back(r, res.At(0).Type())
			}
			tp := r.(Tuple)
			out := make(Tuple, len(tp))
			for i := range tp {
				out[i] = back(tp[i], res.At(i).Type())
			}
			return out
		})
	}

	// base64
	reg("(*encoding/base64.Encoding).EncodeToString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.strVal(m.b64enc(m.encName(a[0]), m.bytesTerm(a[1])))
	})
	reg("(*encoding/base64.Encoding).DecodeString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		r, ok := m.b64dec(m.encName(a[0]), m.simplify(m.str(a[1])))
		if !ok {
			return Tuple{Slice{}, Iface{m.prog.typ("encoding/base64", "CorruptInputError"), int64(0)}}
		}
		return Tuple{m.strToBytes(r), Iface{}}
	})
	reg("(*encoding/base64.Encoding).EncodedLen", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return int64(b64real(m.encName(a[0])).EncodedLen(int(m.concInt(a[1]))))
	})
	reg("(*encoding/base64.Encoding).DecodedLen", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return int64(b64real(m.encName(a[0])).DecodedLen(int(m.concInt(a[1]))))
	})
	reg("(*encoding/base64.Encoding).Encode", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := m.b64enc(m.encName(a[0]), m.bytesTerm(a[2]))
		t = m.simplify(t)
		if t.minLen != t.maxLen {
			m.unsupported("base64 Encode into buffer of opaque length")
		}
		dst := a[1].(Slice)
		for i := 0; i < t.minLen; i++ {
			if i >= len(dst) {
				m.goPanicStr("index out of range")
			}
			m.storeCell(&dst[i], m.byteOf(t, i))
		}
		return nil
	})
	reg("(encoding/base64.Encoding).WithPadding", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		n, ok := a[0].(Native)
		if !ok {
			m.unsupported("base64 WithPadding")
		}
		name := n.v.(string)
		pad := m.concInt(a[1])
		p := new(Value)
		url := strings.Contains(name, "URL")
		switch {
		case pad == -1 && url:
			*p = Native{"RawURLEncoding"}
		case pad == -1:
			*p = Native{"RawStdEncoding"}
		case pad == '=' && url:
			*p = Native{"URLEncoding"}
		case pad == '=':
			*p = Native{"StdEncoding"}
		default:
			m.unsupported("base64 padding char")
		}
		return p
	})
	reg("github.com/golang-jwt/jwt.DecodeSegment", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := m.simplify(m.str(a[0]))
		if t.op == "str" {
			b, err := base64.RawURLEncoding.DecodeString(strings.TrimRight(t.s, "="))
			if l := len(t.s) % 4; l > 0 {
				b, err = base64.URLEncoding.DecodeString(t.s + strings.Repeat("=", 4-l))
			} else {
				b, err = base64.URLEncoding.DecodeString(t.s)
			}
			if err != nil {
				return Tuple{Slice{}, m.mkError(err.Error())}
			}
			return Tuple{bytesToSlice(b), Iface{}}
		}
		r, ok := m.b64dec("RawURLEncoding", t)
		if !ok {
			return Tuple{Slice{}, Iface{m.prog.typ("encoding/base64", "CorruptInputError"), int64(0)}}
		}
		return Tuple{m.strToBytes(r), Iface{}}
	})
	reg("encoding/hex.EncodeToString", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		t := m.bytesTerm(a[0])
		if t.op == "str" {
			return fmt.Sprintf("%x", t.s)
		}
		return m.strVal(m.tb.App("hexenc", "", t))
	})
}

func safeLit(s string) bool {
	for i := 0; i < len(s); i++ {
		if !csQSafe.has(s[i]) && s[i] != '/' {
			return false
		}
	}
	return true
}

func (m *Machine) queryUnescape(t *Term) (*Term, bool) {
	var out []*Term
	for _, p := range pieces(t) {
		switch {
		case p.op == "str":
			s, err := url.QueryUnescape(p.s)
			if err != nil {
				return nil, false
			}
			out = append(out, m.tb.Str(s))
		case p.op == "qesc":
			out = append(out, p.args[0])
		case p.cs != nil && !p.cs.has('%') && !p.cs.has('+'):
			out = append(out, p)
		default:
			return nil, false
		}
	}
	return m.tb.Concat(out...), true
}

func (m *Machine) numError(e *strconv.NumError, arg *Term) Value {
	p := new(Value)
	var inner Value
	if e.Err == strconv.ErrRange {
		inner = m.mkError("value out of range")
	} else {
		inner = m.mkError("invalid syntax")
	}
	*p = Struct{e.Func, m.strVal(arg), inner}
	return Iface{types.NewPointer(m.prog.typ("strconv", "NumError")), p}
}

func (m *Machine) encName(v Value) string {
	p, ok := v.(*Value)
	if !ok {
		m.unsupported("base64 encoding %T", v)
	}
	if p == nil {
		m.nilDeref()
	}
	n, ok := (*p).(Native)
	if !ok {
		m.unsupported("custom base64 encoding")
	}
	return n.v.(string)
}

func b64real(name string) *base64.Encoding {
	switch name {
	case "StdEncoding":
		return base64.StdEncoding
	case "URLEncoding":
		return base64.URLEncoding
	case "RawStdEncoding":
		return base64.RawStdEncoding
	}
	return base64.RawURLEncoding
}

func (m *Machine) b64enc(name string, t *Term) *Term {
	t = m.simplify(t)
	if t.op == "str" {
		return m.tb.Str(b64real(name).EncodeToString([]byte(t.s)))
	}
	op := "b64raw_std"
	if strings.Contains(name, "URL") {
		op = "b64raw_url"
	}
	// byte-exploded input: encode for real, bit by bit
	if fixedBytes(pieces(t)) && m.extra["realb64"] == true {
		return m.b64bits(name, t)
	}
	r := m.tb.App(op, "", t)
	if strings.HasPrefix(name, "Raw") {
		return r
	}
	return m.tb.Concat(r, m.tb.App("b64pad", "", t))
}

// b64bits computes base64 over bit-vector bytes exactly.
func (m *Machine) b64bits(name string, t *Term) *Term {
	tb := m.tb
	alpha := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	if strings.Contains(name, "URL") {
		alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	}
	bs := tb.explode(pieces(t))
	tab := bytesToSlice([]byte(alpha))
	var out []*Term
	for i := 0; i < len(bs); i += 3 {
		var g [3]*Term
		n := 0
		for j := 0; j < 3; j++ {
			if i+j < len(bs) {
				g[j] = tb.ZeroExt(bs[i+j], 32)
				n++
			} else {
				g[j] = tb.BV(0, 32)
			}
		}
		w := tb.BVOp("bvor", tb.BVOp("bvor", tb.BVOp("bvshl", g[0], tb.BV(16, 32)), tb.BVOp("bvshl", g[1], tb.BV(8, 32))), g[2])
		for k := 0; k <= n; k++ {
			idx := tb.BVOp("bvand", tb.BVOp("bvlshr", w, tb.BV(int64(18-6*k), 32)), tb.BV(63, 32))
			var v Value
			if idx.op == "bv" {
				v = tab[idx.i]
			} else {
				v = m.tableLookupNoCheck(tab, idx)
			}
			out = append(out, tb.ByteStr(m.bvT(v, 8)))
		}
		if n < 3 && !strings.HasPrefix(name, "Raw") {
			out = append(out, tb.Str("=="[:3-n]))
		}
	}
	return tb.Concat(out...)
}

func (m *Machine) tableLookupNoCheck(tab Slice, idx *Term) Value {
	// idx < 64 by construction
	nw := m.tb.Trunc(idx, 8)
	type run struct {
		start int
		delta int64
	}
	var runs []run
	for k := 0; k < len(tab); {
		v := tab[k].(int64)
		e := k + 1
		for e < len(tab) && tab[e].(int64)-int64(e) == v-int64(k) {
			e++
		}
		runs = append(runs, run{k, v - int64(k)})
		k = e
	}
	var r *Term
	for k := len(runs) - 1; k >= 0; k-- {
		val := m.tb.BVOp("bvadd", nw, m.tb.BV(runs[k].delta, 8))
		if r == nil {
			r = val
		} else {
			r = m.tb.Ite(m.tb.BVCmp("bvult", nw, m.tb.BV(int64(runs[k+1].start), 8)), val, r)
		}
	}
	return intVal(r)
}

// b64dec inverts an encoding; ok=false means a decoding error.
func (m *Machine) b64dec(name string, t *Term) (*Term, bool) {
	t = m.simplify(t)
	enc := b64real(name)
	if t.op == "str" {
		b, err := enc.DecodeString(t.s)
		return m.tb.Str(string(b)), err == nil
	}
	op := "b64raw_std"
	if strings.Contains(name, "URL") {
		op = "b64raw_url"
	}
	ps := pieces(t)
	raw := strings.HasPrefix(name, "Raw")
	if len(ps) == 1 && ps[0].op == op {
		if raw {
			return ps[0].args[0], true
		}
		// unpadded text under a padded alphabet decodes only when the length is a multiple of 3
		l := m.tb.StrLen(ps[0].args[0])
		if m.branch(boolVal(m.tb.EqInt(m.tb.IntMod(l, m.tb.Int(3)), m.tb.Int(0)))) {
			return ps[0].args[0], true
		}
		return nil, false
	}
	if len(ps) == 2 && ps[0].op == op && ps[1].op == "b64pad" && ps[1].args[0] == ps[0].args[0] {
		if !raw {
			return ps[0].args[0], true
		}
		l := m.tb.StrLen(ps[0].args[0])
		if m.branch(boolVal(m.tb.EqInt(m.tb.IntMod(l, m.tb.Int(3)), m.tb.Int(0)))) {
			return ps[0].args[0], true
		}
		return nil, false
	}
	// certain failure: a character outside the alphabet
	alpha := csB64std
	if strings.Contains(name, "URL") {
		alpha = csB64url
	}
	for _, p := range ps {
		if p.op == "str" {
			for i := 0; i < len(p.s); i++ {
				c := p.s[i]
				if !alpha.has(c) && c != '=' && c != '\n' && c != '\r' {
					return nil, false
				}
				if c == '=' && raw {
					return nil, false
				}
			}
			continue
		}
		if p.minLen > 0 && p.cs != nil {
			ok := false
			for i := 0; i < 256; i++ {
				if p.cs.has(byte(i)) && (alpha.has(byte(i)) || i == '=' || i == '\n' || i == '\r') {
					ok = true
				}
			}
			if !ok {
				return nil, false
			}
		}
	}
	if m.branch(boolVal(m.tb.StrEq(t, m.tb.EmptyStr))) {
		return m.tb.EmptyStr, true
	}
	t = m.simplify(t)
	if t.op == "str" || t.op == op {
		return m.b64dec(name, t)
	}
	// an arbitrary text: it either is the encoding of some bytes, or fails to decode.
	// (Non-canonical encodings are outside the model.)
	m.reduced["arbitrary text decoded as base64 at "+m.pos()] = true
	m.unsupported("base64 decoding of arbitrary text")
	return nil, false
}

var _ = sort.Strings
