package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed per machine (worker); no locking.

type Sort int

const (
	SBool Sort = -1
	SInt  Sort = -2
	SStr  Sort = -3
	// positive values: bit-vector of that width
)

func (s Sort) String() string {
	switch s {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SStr:
		return "String"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

type CharSet [4]uint64

func (c *CharSet) has(b byte) bool { return c[b>>6]&(1<<(b&63)) != 0 }
func (c *CharSet) add(b byte)      { c[b>>6] |= 1 << (b & 63) }
func (c *CharSet) addRange(lo, hi byte) {
	for i := int(lo); i <= int(hi); i++ {
		c.add(byte(i))
	}
}
func (c *CharSet) subsetOf(d *CharSet) bool {
	for i := range c {
		if c[i]&^d[i] != 0 {
			return false
		}
	}
	return true
}
func (c *CharSet) union(d *CharSet) *CharSet {
	var r CharSet
	for i := range c {
		r[i] = c[i] | d[i]
	}
	return &r
}

// parseClass: "A-Za-z0-9_" style; \- for literal dash; leading ^ complements within ASCII 0..127
func parseClass(s string) *CharSet {
	if s == "" {
		s = "^"
	}
	var c CharSet
	neg := false
	if strings.HasPrefix(s, "^") {
		neg = true
		s = s[1:]
	}
	var rs []byte
	var isRange []bool
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			rs = append(rs, s[i])
			isRange = append(isRange, false)
		} else if s[i] == '-' && i > 0 && i+1 < len(s) {
			rs = append(rs, '-')
			isRange = append(isRange, true)
		} else {
			rs = append(rs, s[i])
			isRange = append(isRange, false)
		}
	}
	for i := 0; i < len(rs); i++ {
		if i+2 < len(rs) && isRange[i+1] {
			c.addRange(rs[i], rs[i+2])
			i += 2
		} else {
			c.add(rs[i])
		}
	}
	if neg {
		var d CharSet
		for i := 0; i < 128; i++ {
			if !c.has(byte(i)) {
				d.add(byte(i))
			}
		}
		return &d
	}
	return &c
}

// Linear combination: sum coef*term + k
type linPart struct {
	t *Term
	c int64
}

type Term struct {
	id   int
	op   string
	sort Sort
	args []*Term
	s    string // const string, var name, big const
	i    int64
	lin  []linPart // op "lin"
	aux  any
	// derived facts
	declared     bool   // an input variable with its attributes set
	class        string // of an input string
	hasLo, hasHi bool
	lo, hi       int64
	cs           *CharSet // Str: all chars within (nil: unknown)
	minLen       int
	maxLen       int // -1 unknown
	smt          string
	vars         bool // contains any var
	symset       symSet
	symsDone     bool
	side         []*Term
}

type termKey struct {
	op   string
	sort Sort
	s    string
	i    int64
	a    [4]int32
	more string
}

type Table struct {
	m           map[termKey]*Term
	list        []*Term
	True, False *Term
	EmptyStr    *Term
	// declarations to be emitted
	newDecls []string
	ufs      map[string]bool
	opaque   map[string]*opaqueInfo
}

type opaqueInfo struct {
	t *Term
}

func newTable() *Table {
	tb := &Table{m: map[termKey]*Term{}, ufs: map[string]bool{}}
	tb.True = tb.mk(&Term{op: "true", sort: SBool, i: 1})
	tb.False = tb.mk(&Term{op: "false", sort: SBool})
	tb.EmptyStr = tb.Str("")
	return tb
}

func (tb *Table) mk(t *Term) *Term {
	k := termKey{op: t.op, sort: t.sort, s: t.s, i: t.i}
	n := len(t.args)
	if t.op == "lin" {
		var sb strings.Builder
		for _, p := range t.lin {
			sb.WriteString(strconv.Itoa(p.t.id))
			sb.WriteByte('*')
			sb.WriteString(strconv.FormatInt(p.c, 36))
			sb.WriteByte('+')
		}
		k.more = sb.String()
	} else if n <= 4 {
		for i, a := range t.args {
			k.a[i] = int32(a.id + 1)
		}
	} else {
		var sb strings.Builder
		for _, a := range t.args {
			sb.WriteString(strconv.Itoa(a.id))
			sb.WriteByte(',')
		}
		k.more = sb.String()
	}
	if o, ok := tb.m[k]; ok {
		return o
	}
	t.id = len(tb.list)
	tb.list = append(tb.list, t)
	tb.m[k] = t
	if t.op == "var" {
		t.vars = true
	}
	for _, a := range t.args {
		if a.vars {
			t.vars = true
		}
	}
	for _, p := range t.lin {
		if p.t.vars {
			t.vars = true
		}
	}
	tb.facts(t)
	return t
}

const inf = int64(1) << 62

func (tb *Table) facts(t *Term) {
	switch t.sort {
	case SInt:
		switch t.op {
		case "int":
			if t.s == "" {
				t.hasLo, t.hasHi, t.lo, t.hi = true, true, t.i, t.i
			}
		case "lin":
			lo, hi := big.NewInt(t.i), big.NewInt(t.i)
			hasLo, hasHi := true, true
			for _, p := range t.lin {
				c := big.NewInt(p.c)
				pl, ph := p.t.hasLo, p.t.hasHi
				vl, vh := p.t.lo, p.t.hi
				if p.c < 0 {
					pl, ph = ph, pl
					vl, vh = vh, vl
				}
				if pl {
					lo.Add(lo, new(big.Int).Mul(c, big.NewInt(vl)))
				} else {
					hasLo = false
				}
				if ph {
					hi.Add(hi, new(big.Int).Mul(c, big.NewInt(vh)))
				} else {
					hasHi = false
				}
			}
			if hasLo && lo.IsInt64() {
				t.hasLo, t.lo = true, lo.Int64()
			}
			if hasHi && hi.IsInt64() {
				t.hasHi, t.hi = true, hi.Int64()
			}
		case "ite":
			a, b := t.args[1], t.args[2]
			if a.hasLo && b.hasLo {
				t.hasLo, t.lo = true, min(a.lo, b.lo)
			}
			if a.hasHi && b.hasHi {
				t.hasHi, t.hi = true, max(a.hi, b.hi)
			}
		case "str.len":
			t.hasLo, t.lo = true, int64(t.args[0].minLen)
			if t.args[0].maxLen >= 0 {
				t.hasHi, t.hi = true, int64(t.args[0].maxLen)
			} else {
				// assume string lengths below 2^31
				t.hasHi, t.hi = true, 1<<31
			}
		case "bv2nat":
			t.hasLo, t.lo = true, 0
			if w := int(t.args[0].sort); w < 62 {
				t.hasHi, t.hi = true, int64(1)<<uint(w)-1
			}
		case "str.indexof":
			t.hasLo, t.lo = true, -1
			t.hasHi, t.hi = true, 1<<31
		case "mod":
			t.hasLo, t.lo = true, 0
			if t.args[1].op == "int" {
				t.hasHi, t.hi = true, t.args[1].i-1
			}
		case "var":
		}
	case SStr:
		switch t.op {
		case "str":
			t.minLen, t.maxLen = len(t.s), len(t.s)
			var c CharSet
			for i := 0; i < len(t.s); i++ {
				c.add(t.s[i])
			}
			t.cs = &c
		case "concat":
			t.cs = &CharSet{}
			t.maxLen = 0
			for _, a := range t.args {
				t.minLen += a.minLen
				if t.maxLen >= 0 && a.maxLen >= 0 {
					t.maxLen += a.maxLen
				} else {
					t.maxLen = -1
				}
				if t.cs != nil && a.cs != nil {
					t.cs = t.cs.union(a.cs)
				} else {
					t.cs = nil
				}
			}
		case "bytestr":
			t.minLen, t.maxLen = 1, 1
			if a := t.args[0]; a.cs != nil {
				t.cs = a.cs
			}
		case "var":
			if t.maxLen == 0 && t.i == 0 {
				t.maxLen = -1
			}
		default:
			strFacts(t)
		}
	}
}

// ---------- constructors

func (tb *Table) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}
func (tb *Table) Int(i int64) *Term { return tb.mk(&Term{op: "int", sort: SInt, i: i}) }
func (tb *Table) BigInt(s string) *Term {
	return tb.mk(&Term{op: "int", sort: SInt, s: s})
}
func (tb *Table) Str(s string) *Term { return tb.mk(&Term{op: "str", sort: SStr, s: s}) }
func (tb *Table) BV(v int64, w Sort) *Term {
	if w < 64 {
		v &= int64(1)<<uint(w) - 1
	}
	return tb.mk(&Term{op: "bv", sort: w, i: v})
}

// IntVar is the variable of that name; one declared differently on another
// path is another variable.
func (tb *Table) IntVar(name string, lo, hi int64, hasLo, hasHi bool) *Term {
	for {
		t := tb.mk(&Term{op: "var", sort: SInt, s: name})
		if !t.declared {
			t.declared = true
			t.hasLo, t.lo, t.hasHi, t.hi = hasLo, lo, hasHi, hi
		}
		if t.hasLo == hasLo && t.lo == lo && t.hasHi == hasHi && t.hi == hi {
			return t
		}
		name += "'"
	}
}

const anyClass = "any"

func (tb *Table) strVar(name, class string, min, max int) *Term {
	if max < 0 {
		max = -1
	}
	for {
		t := tb.Var(name, SStr)
		if !t.declared {
			t.declared, t.class = true, class
			if class != anyClass {
				t.cs = parseClass(class)
			}
			t.minLen, t.maxLen = min, max
		}
		if t.class == class && t.minLen == min && t.maxLen == max {
			return t
		}
		name += "'"
	}
}

func (tb *Table) Var(name string, s Sort) *Term {
	return tb.mk(&Term{op: "var", sort: s, s: name, maxLen: -1})
}

func (tb *Table) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return tb.False
	case "false":
		return tb.True
	case "not":
		return a.args[0]
	case "le0":
		// not (L <= 0)  ==  1 - L <= 0
		return tb.le0(tb.linAdd(tb.Int(1), tb.linScale(a.args[0], -1)))
	}
	return tb.mk(&Term{op: "not", sort: SBool, args: []*Term{a}})
}

func (tb *Table) And(xs ...*Term) *Term { return tb.andor("and", xs) }
func (tb *Table) Or(xs ...*Term) *Term  { return tb.andor("or", xs) }

func (tb *Table) andor(op string, xs []*Term) *Term {
	zero, unit := "false", tb.True
	if op == "or" {
		zero, unit = "true", tb.False
	}
	seen := map[int]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.op == zero {
			return false
		}
		if x == unit {
			return true
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		if seen[tb.Not(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			if op == "and" {
				return tb.False
			}
			return tb.True
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return tb.mk(&Term{op: op, sort: SBool, args: out})
}

func (tb *Table) Ite(c, a, b *Term) *Term {
	if c == tb.True {
		return a
	}
	if c == tb.False {
		return b
	}
	if a == b {
		return a
	}
	if c.op == "not" {
		return tb.Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		return tb.Or(tb.And(c, a), tb.And(tb.Not(c), b))
	}
	return tb.mk(&Term{op: "ite", sort: a.sort, args: []*Term{c, a, b}, maxLen: -1})
}

// ---------- linear integers

func (tb *Table) linOf(t *Term) ([]linPart, int64, bool) {
	switch t.op {
	case "int":
		if t.s != "" {
			return []linPart{{t, 1}}, 0, true
		}
		return nil, t.i, true
	case "lin":
		return t.lin, t.i, true
	}
	return []linPart{{t, 1}}, 0, true
}

func (tb *Table) mkLin(parts []linPart, k int64) *Term {
	if len(parts) == 0 {
		return tb.Int(k)
	}
	if len(parts) == 1 && parts[0].c == 1 && k == 0 {
		return parts[0].t
	}
	return tb.mk(&Term{op: "lin", sort: SInt, lin: parts, i: k})
}

func addOK(a, b int64) (int64, bool) {
	c := a + b
	if (c > a) == (b > 0) {
		return c, true
	}
	return 0, b == 0
}

func (tb *Table) linAdd(a, b *Term) *Term {
	pa, ka, _ := tb.linOf(a)
	pb, kb, _ := tb.linOf(b)
	k, ok := addOK(ka, kb)
	m := map[*Term]int64{}
	var order []*Term
	for _, p := range pa {
		if _, e := m[p.t]; !e {
			order = append(order, p.t)
		}
		m[p.t] += p.c
	}
	for _, p := range pb {
		if _, e := m[p.t]; !e {
			order = append(order, p.t)
		}
		m[p.t] += p.c
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var out []linPart
	for _, t := range order {
		if m[t] != 0 {
			out = append(out, linPart{t, m[t]})
		}
	}
	if !ok {
		s := new(big.Int).Add(big.NewInt(ka), big.NewInt(kb))
		out = append(out, linPart{tb.BigInt(s.String()), 1})
		k = 0
	}
	return tb.mkLin(out, k)
}

func (tb *Table) linScale(a *Term, c int64) *Term {
	if c == 0 {
		return tb.Int(0)
	}
	if c == 1 {
		return a
	}
	pa, ka, _ := tb.linOf(a)
	out := make([]linPart, len(pa))
	for i, p := range pa {
		out[i] = linPart{p.t, p.c * c}
	}
	if ka == -1<<63 {
		s := new(big.Int).Mul(big.NewInt(ka), big.NewInt(c))
		out = append(out, linPart{tb.BigInt(s.String()), 1})
		return tb.mkLin(out, 0)
	}
	return tb.mkLin(out, ka*c)
}

func (tb *Table) Add(a, b *Term) *Term { return tb.linAdd(a, b) }
func (tb *Table) Sub(a, b *Term) *Term { return tb.linAdd(a, tb.linScale(b, -1)) }

func (tb *Table) le0(l *Term) *Term {
	if l.hasHi && l.hi <= 0 {
		return tb.True
	}
	if l.hasLo && l.lo > 0 {
		return tb.False
	}
	return tb.mk(&Term{op: "le0", sort: SBool, args: []*Term{l}})
}
func (tb *Table) Le(a, b *Term) *Term { return tb.le0(tb.Sub(a, b)) }
func (tb *Table) Lt(a, b *Term) *Term { return tb.le0(tb.Add(tb.Sub(a, b), tb.Int(1))) }

func (tb *Table) EqInt(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	// itoa-like distribution over ite with constants
	d := tb.Sub(a, b)
	if d.op == "int" && d.s == "" {
		return tb.Bool(d.i == 0)
	}
	if d.hasLo && d.lo > 0 || d.hasHi && d.hi < 0 {
		return tb.False
	}
	if d.op == "lin" && d.lin[0].c < 0 {
		d = tb.linScale(d, -1)
	}
	return tb.mk(&Term{op: "eq0", sort: SBool, args: []*Term{d}})
}

// ---------- bit-vectors

func mask(v int64, w Sort) int64 {
	if w >= 64 {
		return v
	}
	return v & (int64(1)<<uint(w) - 1)
}
func sext(v int64, w Sort) int64 {
	if w >= 64 {
		return v
	}
	sh := 64 - uint(w)
	return v << sh >> sh
}

func (tb *Table) BVOp(op string, a, b *Term) *Term {
	w := a.sort
	if a.op == "bv" && b.op == "bv" {
		x, y := uint64(mask(a.i, w)), uint64(mask(b.i, w))
		switch op {
		case "bvadd":
			return tb.BV(int64(x+y), w)
		case "bvsub":
			return tb.BV(int64(x-y), w)
		case "bvmul":
			return tb.BV(int64(x*y), w)
		case "bvand":
			return tb.BV(int64(x&y), w)
		case "bvor":
			return tb.BV(int64(x|y), w)
		case "bvxor":
			return tb.BV(int64(x^y), w)
		case "bvshl":
			if y >= uint64(w) {
				return tb.BV(0, w)
			}
			return tb.BV(int64(x<<y), w)
		case "bvlshr":
			if y >= uint64(w) {
				return tb.BV(0, w)
			}
			return tb.BV(int64(x>>y), w)
		case "bvashr":
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return tb.BV(sext(int64(x), w)>>y, w)
		case "bvudiv":
			if y != 0 {
				return tb.BV(int64(x/y), w)
			}
		case "bvurem":
			if y != 0 {
				return tb.BV(int64(x%y), w)
			}
		}
	}
	if b.op == "bv" && mask(b.i, w) == 0 {
		switch op {
		case "bvadd", "bvsub", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr":
			return a
		case "bvand", "bvmul":
			return b
		}
	}
	if a.op == "bv" && mask(a.i, w) == 0 {
		switch op {
		case "bvadd", "bvor", "bvxor":
			return b
		case "bvand", "bvmul", "bvshl", "bvlshr":
			return a
		}
	}
	if op == "bvand" && b.op == "bv" && a.op == "zero_extend" {
		// mask covering all the low bits
		sw := a.args[0].sort
		if mask(b.i, sw) == mask(-1, sw) {
			return a
		}
	}
	return tb.mk(&Term{op: op, sort: w, args: []*Term{a, b}})
}

func (tb *Table) BVCmp(op string, a, b *Term) *Term {
	w := a.sort
	if a.op == "bv" && b.op == "bv" {
		x, y := uint64(mask(a.i, w)), uint64(mask(b.i, w))
		sx, sy := sext(a.i, w), sext(b.i, w)
		switch op {
		case "bvult":
			return tb.Bool(x < y)
		case "bvule":
			return tb.Bool(x <= y)
		case "bvslt":
			return tb.Bool(sx < sy)
		case "bvsle":
			return tb.Bool(sx <= sy)
		}
	}
	// reduce zero_extend comparisons with constants
	red := func(x *Term) (*Term, bool) {
		if x.op == "zero_extend" {
			return x.args[0], true
		}
		return nil, false
	}
	if x, ok := red(a); ok {
		sw := x.sort
		if b.op == "bv" {
			v := mask(b.i, w)
			neg := sext(b.i, w) < 0
			signed := op == "bvslt" || op == "bvsle"
			if signed && neg {
				return tb.False
			}
			if uint64(v) > uint64(mask(-1, sw)) {
				return tb.True
			}
			uop := "bvult"
			if op == "bvule" || op == "bvsle" {
				uop = "bvule"
			}
			return tb.BVCmp(uop, x, tb.BV(v, sw))
		}
		if y, ok := red(b); ok && y.sort == sw {
			uop := "bvult"
			if op == "bvule" || op == "bvsle" {
				uop = "bvule"
			}
			return tb.BVCmp(uop, x, y)
		}
	}
	if y, ok := red(b); ok && a.op == "bv" {
		sw := y.sort
		v := mask(a.i, w)
		neg := sext(a.i, w) < 0
		signed := op == "bvslt" || op == "bvsle"
		if signed && neg {
			return tb.True
		}
		if uint64(v) > uint64(mask(-1, sw)) {
			return tb.False
		}
		uop := "bvult"
		if op == "bvule" || op == "bvsle" {
			uop = "bvule"
		}
		return tb.BVCmp(uop, tb.BV(v, sw), y)
	}
	if a == b {
		return tb.Bool(op == "bvule" || op == "bvsle")
	}
	if op == "bvult" && b.op == "bv" && mask(b.i, w) == 0 {
		return tb.False
	}
	if op == "bvule" && a.op == "bv" && mask(a.i, w) == 0 {
		return tb.True
	}
	if op == "bvule" && b.op == "bv" && mask(b.i, w) == mask(-1, w) {
		return tb.True
	}
	return tb.mk(&Term{op: op, sort: SBool, args: []*Term{a, b}})
}

func (tb *Table) ZeroExt(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.op == "bv" {
		return tb.BV(mask(a.i, a.sort), w)
	}
	if a.op == "zero_extend" {
		return tb.ZeroExt(a.args[0], w)
	}
	return tb.mk(&Term{op: "zero_extend", sort: w, args: []*Term{a}})
}
func (tb *Table) SignExt(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.op == "bv" {
		return tb.BV(sext(a.i, a.sort), w)
	}
	if a.op == "zero_extend" {
		return tb.ZeroExt(a.args[0], w)
	}
	return tb.mk(&Term{op: "sign_extend", sort: w, args: []*Term{a}})
}
func (tb *Table) Trunc(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.op == "bv" {
		return tb.BV(a.i, w)
	}
	if a.op == "zero_extend" || a.op == "sign_extend" {
		in := a.args[0]
		if in.sort == w {
			return in
		}
		if in.sort > w {
			return tb.Trunc(in, w)
		}
		if a.op == "zero_extend" {
			return tb.ZeroExt(in, w)
		}
		return tb.SignExt(in, w)
	}
	if a.op == "ite" {
		return tb.Ite(a.args[0], tb.Trunc(a.args[1], w), tb.Trunc(a.args[2], w))
	}
	return tb.mk(&Term{op: "trunc", sort: w, args: []*Term{a}})
}

func (tb *Table) EqBV(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.op == "bv" && b.op != "bv" {
		a, b = b, a
	}
	if b.op == "bv" {
		if a.op == "bv" {
			return tb.Bool(mask(a.i, a.sort) == mask(b.i, b.sort))
		}
		if a.op == "zero_extend" {
			in := a.args[0]
			if uint64(mask(b.i, b.sort)) > uint64(mask(-1, in.sort)) {
				return tb.False
			}
			return tb.EqBV(in, tb.BV(b.i, in.sort))
		}
		if a.op == "ite" && (a.args[1].op == "bv" || a.args[2].op == "bv") {
			return tb.Or(tb.And(a.args[0], tb.EqBV(a.args[1], b)), tb.And(tb.Not(a.args[0]), tb.EqBV(a.args[2], b)))
		}
		if a.cs != nil && a.sort == 8 && !a.cs.has(byte(b.i)) {
			return tb.False
		}
	}
	if a.op == "zero_extend" && b.op == "zero_extend" && a.args[0].sort == b.args[0].sort {
		return tb.EqBV(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

func (tb *Table) BV2Nat(a *Term) *Term {
	if a.op == "bv" {
		if a.sort < 64 || a.i >= 0 {
			return tb.Int(mask(a.i, a.sort))
		}
		return tb.BigInt(new(big.Int).SetUint64(uint64(a.i)).String())
	}
	if a.op == "zero_extend" {
		return tb.BV2Nat(a.args[0])
	}
	if a.op == "ite" {
		return tb.Ite(a.args[0], tb.BV2Nat(a.args[1]), tb.BV2Nat(a.args[2]))
	}
	if a.op == "int2bv" {
		in := a.args[0]
		if in.hasLo && in.lo >= 0 && in.hasHi && (a.sort >= 63 || in.hi < int64(1)<<uint(a.sort)) {
			return in
		}
	}
	return tb.mk(&Term{op: "bv2nat", sort: SInt, args: []*Term{a}})
}
func (tb *Table) SBV2Int(a *Term) *Term {
	if a.op == "bv" {
		return tb.Int(sext(a.i, a.sort))
	}
	if a.op == "zero_extend" {
		return tb.BV2Nat(a.args[0])
	}
	n := tb.BV2Nat(a)
	half := new(big.Int).Lsh(big.NewInt(1), uint(a.sort)-1)
	full := new(big.Int).Lsh(big.NewInt(1), uint(a.sort))
	if a.sort >= 63 {
		return tb.Ite(tb.Lt(n, tb.BigInt(half.String())), n, tb.Sub(n, tb.BigInt(full.String())))
	}
	return tb.Ite(tb.Lt(n, tb.Int(half.Int64())), n, tb.Sub(n, tb.Int(full.Int64())))
}
func (tb *Table) Int2BV(a *Term, w Sort) *Term {
	if a.op == "int" && a.s == "" {
		return tb.BV(a.i, w)
	}
	if a.op == "bv2nat" {
		in := a.args[0]
		if in.sort <= w {
			return tb.ZeroExt(in, w)
		}
		return tb.Trunc(in, w)
	}
	return tb.mk(&Term{op: "int2bv", sort: w, args: []*Term{a}})
}

// ---------- printing

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			sb.WriteString(`""`)
		} else if c < 0x20 || c > 0x7e || c == '\\' {
			fmt.Fprintf(&sb, "\\u{%x}", c)
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func smtInt(i int64) string {
	if i < 0 {
		if i == -1<<63 {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -i)
	}
	return strconv.FormatInt(i, 10)
}

func sym(s string) string { return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(s) + "|" }

var builtinOps = map[string]bool{"and": true, "or": true, "not": true, "=": true, "ite": true,
	"bvadd": true, "bvsub": true, "bvmul": true, "bvand": true, "bvor": true, "bvxor": true, "bvshl": true, "bvlshr": true, "bvashr": true,
	"bvudiv": true, "bvurem": true, "bvult": true, "bvule": true, "bvslt": true, "bvsle": true,
	"str.len": true, "str.contains": true, "str.prefixof": true, "str.suffixof": true, "str.indexof": true, "str.<": true, "str.substr": true, "str.at": true,
	"mod": true, "*": true, "div": true, "str.to_code": true, "bv2nat": true, "str.replace": true, "str.from_int": true,
}

func (tb *Table) SMT(t *Term) string {
	if t.smt != "" {
		return t.smt
	}
	var r string
	switch t.op {
	case "true", "false":
		r = t.op
	case "int":
		if t.s != "" {
			if strings.HasPrefix(t.s, "-") {
				r = "(- " + t.s[1:] + ")"
			} else {
				r = t.s
			}
		} else {
			r = smtInt(t.i)
		}
	case "str":
		r = smtStr(t.s)
	case "bv":
		if t.sort%4 == 0 {
			r = fmt.Sprintf("#x%0*x", int(t.sort)/4, uint64(mask(t.i, t.sort)))
		} else {
			r = fmt.Sprintf("(_ bv%d %d)", uint64(mask(t.i, t.sort)), int(t.sort))
		}
	case "var":
		r = sym(t.s)
		tb.newDecls = append(tb.newDecls, fmt.Sprintf("(declare-const %s %s)", r, t.sort))
	case "lin":
		var sb strings.Builder
		sb.WriteString("(+")
		for _, p := range t.lin {
			if p.c == 1 {
				sb.WriteString(" " + tb.SMT(p.t))
			} else {
				sb.WriteString(" (* " + smtInt(p.c) + " " + tb.SMT(p.t) + ")")
			}
		}
		if t.i != 0 || len(t.lin) == 1 {
			sb.WriteString(" " + smtInt(t.i))
		}
		sb.WriteString(")")
		r = sb.String()
	case "le0":
		l := t.args[0]
		r = tb.cmpStr("<=", l)
	case "eq0":
		r = tb.cmpStr("=", t.args[0])
	case "concat":
		r = "(str.++"
		for _, a := range t.args {
			r += " " + tb.SMT(a)
		}
		r += ")"
	case "bytestr":
		r = "(str.from_code (bv2nat " + tb.SMT(t.args[0]) + "))"
	case "zero_extend":
		r = fmt.Sprintf("((_ zero_extend %d) %s)", int(t.sort-t.args[0].sort), tb.SMT(t.args[0]))
	case "sign_extend":
		r = fmt.Sprintf("((_ sign_extend %d) %s)", int(t.sort-t.args[0].sort), tb.SMT(t.args[0]))
	case "trunc":
		r = fmt.Sprintf("((_ extract %d 0) %s)", int(t.sort)-1, tb.SMT(t.args[0]))
	case "in_ci":
		r = "(str.in_re " + tb.SMT(t.args[0]) + " (re.++ (str.to_re \"\")"
		for i := 0; i < len(t.s); i++ {
			lo, up := strings.ToLower(t.s[i:i+1]), strings.ToUpper(t.s[i:i+1])
			if lo == up {
				r += " (str.to_re " + smtStr(lo) + ")"
			} else {
				r += " (re.union (str.to_re " + smtStr(lo) + ") (str.to_re " + smtStr(up) + "))"
			}
		}
		r += "))"
	case "raw<=":
		r = "(<= " + tb.SMT(t.args[0]) + " " + tb.SMT(t.args[1]) + ")"
	case "rawminlen":
		r = "(>= (str.len " + tb.SMT(t.args[0]) + ") " + smtInt(t.i) + ")"
	case "rawmaxlen":
		r = "(<= (str.len " + tb.SMT(t.args[0]) + ") " + smtInt(t.i) + ")"
	case "bvclass":
		c := t.aux.(*CharSet)
		a := tb.SMT(t.args[0])
		r = "(or false"
		for i := 0; i < 256; {
			if !c.has(byte(i)) {
				i++
				continue
			}
			j := i
			for j+1 < 256 && c.has(byte(j+1)) {
				j++
			}
			r += fmt.Sprintf(" (and (bvuge %s #x%02x) (bvule %s #x%02x))", a, i, a, j)
			i = j + 1
		}
		r += ")"
	case "in_class":
		r = "(str.in_re " + tb.SMT(t.args[0]) + " (re.* (re.union"
		c := t.aux.(*CharSet)
		n := 0
		for i := 0; i < 256; {
			if !c.has(byte(i)) {
				i++
				continue
			}
			j := i
			for j+1 < 256 && c.has(byte(j+1)) {
				j++
			}
			r += " (re.range " + smtStr(string([]byte{byte(i)})) + " " + smtStr(string([]byte{byte(j)})) + ")"
			n++
			i = j + 1
		}
		if n == 1 {
			r += " re.none"
		}
		r += ")))"
	case "int2bv":
		r = fmt.Sprintf("((_ int2bv %d) %s)", int(t.sort), tb.SMT(t.args[0]))
	default:
		name := t.op
		if !builtinOps[t.op] {
			// uninterpreted function; op name + aux id + arg sorts
			name = sym("f:" + t.op + t.s)
			key := name
			if !tb.ufs[key] {
				tb.ufs[key] = true
				d := "(declare-fun " + name + " ("
				for i, a := range t.args {
					if i > 0 {
						d += " "
					}
					d += a.sort.String()
				}
				d += ") " + t.sort.String() + ")"
				if len(t.args) == 0 {
					d = fmt.Sprintf("(declare-const %s %s)", name, t.sort)
				}
				tb.newDecls = append(tb.newDecls, d)
			}
		}
		if len(t.args) == 0 {
			r = name
		} else {
			var sb strings.Builder
			sb.WriteString("(" + name)
			for _, a := range t.args {
				sb.WriteString(" " + tb.SMT(a))
			}
			sb.WriteString(")")
			r = sb.String()
		}
	}
	t.smt = r
	return r
}

func (tb *Table) cmpStr(op string, l *Term) string {
	parts, k, _ := tb.linOf(l)
	var pos, neg []string
	for _, p := range parts {
		s := tb.SMT(p.t)
		c := p.c
		if c < 0 {
			c = -c
		}
		if c != 1 {
			s = "(* " + smtInt(c) + " " + s + ")"
		}
		if p.c > 0 {
			pos = append(pos, s)
		} else {
			neg = append(neg, s)
		}
	}
	if k > 0 {
		pos = append(pos, smtInt(k))
	} else if k < 0 {
		if k == -1<<63 {
			neg = append(neg, "9223372036854775808")
		} else {
			neg = append(neg, smtInt(-k))
		}
	}
	f := func(x []string) string {
		switch len(x) {
		case 0:
			return "0"
		case 1:
			return x[0]
		}
		return "(+ " + strings.Join(x, " ") + ")"
	}
	return "(" + op + " " + f(pos) + " " + f(neg) + ")"
}
