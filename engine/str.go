package main

import (
	"encoding/base64"
	"html"
	"net/url"
	"sort"
	"strconv"
	"strings"
)

var (
	csDigits  = parseClass("0-9\\-")
	csQesc    = parseClass("A-Za-z0-9\\-_.~+%")
	csQSafe   = parseClass("A-Za-z0-9\\-_.~")
	csPesc    = parseClass("A-Za-z0-9\\-_.~%$&+=:@")
	csB64url  = parseClass("A-Za-z0-9\\-_")
	csB64std  = parseClass("A-Za-z0-9+/")
	csPad     = parseClass("=")
	csHex     = parseClass("0-9a-f")
	csASCII   = parseClass("^")
	csHescBad = "<>&'\""
)

func strFacts(t *Term) {
	t.maxLen = -1
	switch t.op {
	case "qesc":
		t.cs = csQesc
		t.minLen = t.args[0].minLen
	case "pesc":
		t.cs = csPesc
		t.minLen = t.args[0].minLen
	case "itoa":
		t.cs = csDigits
		t.minLen = 1
		t.maxLen = 20
	case "b64raw_url", "b64raw_std":
		if t.op == "b64raw_url" {
			t.cs = csB64url
		} else {
			t.cs = csB64std
		}
		a := t.args[0]
		t.minLen = base64.RawStdEncoding.EncodedLen(a.minLen)
		if a.maxLen >= 0 {
			t.maxLen = base64.RawStdEncoding.EncodedLen(a.maxLen)
		}
	case "b64pad":
		t.cs = csPad
		t.maxLen = 2
	case "hexenc":
		t.cs = csHex
		a := t.args[0]
		t.minLen = 2 * a.minLen
		if a.maxLen >= 0 {
			t.maxLen = 2 * a.maxLen
		}
	case "hesc":
		t.minLen = t.args[0].minLen
		var c CharSet
		if a := t.args[0]; a.cs != nil {
			c = *a.cs
		} else {
			for i := 0; i < 256; i++ {
				c.add(byte(i))
			}
		}
		for _, b := range []byte("<>'\"") {
			c[b>>6] &^= 1 << (b & 63)
		}
		c = *c.union(parseClass("&;#a-z0-9"))
		t.cs = &c
	case "qbody":
		t.minLen = t.args[0].minLen
		t.cs = parseClass(" -~")
	case "sha256":
		t.minLen, t.maxLen = 32, 32
	case "sha384":
		t.minLen, t.maxLen = 48, 48
	case "sha512":
		t.minLen, t.maxLen = 64, 64
	case "sha1":
		t.minLen, t.maxLen = 20, 20
	case "hmac":
		n := hashLen(t.s)
		t.minLen, t.maxLen = n, n
	case "rsasig":
		t.minLen, t.maxLen = 256, 256
	case "sub":
		i, j := subRange(t)
		t.minLen, t.maxLen = j-i, j-i
		t.cs = t.args[0].cs
	case "lower", "upper":
		t.minLen, t.maxLen = t.args[0].minLen, t.args[0].maxLen
		if a := t.args[0].cs; a != nil {
			var c CharSet
			for i := 0; i < 256; i++ {
				if a.has(byte(i)) {
					if t.op == "lower" {
						c.add(strings.ToLower(string(rune(byte(i))))[0])
					} else {
						c.add(strings.ToUpper(string(rune(byte(i))))[0])
					}
				}
			}
			t.cs = &c
		}
	case "json":
		t.minLen = 1
	case "ite":
		a, b := t.args[1], t.args[2]
		t.minLen = min(a.minLen, b.minLen)
		if a.maxLen >= 0 && b.maxLen >= 0 {
			t.maxLen = max(a.maxLen, b.maxLen)
		}
		if a.cs != nil && b.cs != nil {
			t.cs = a.cs.union(b.cs)
		}
	case "str.substr", "str.at":
		t.cs = t.args[0].cs
		if t.op == "str.at" {
			t.maxLen = 1
		}
	}
}

func hashLen(name string) int {
	switch name {
	case "sha1":
		return 20
	case "sha256":
		return 32
	case "sha384":
		return 48
	case "sha512":
		return 64
	}
	return 0
}

func subRange(t *Term) (int, int) {
	p := strings.Split(t.s, ":")
	i, _ := strconv.Atoi(p[0])
	j, _ := strconv.Atoi(p[1])
	return i, j
}

var injective = map[string]bool{"qesc": true, "pesc": true, "hesc": true, "itoa": true, "b64raw_url": true, "b64raw_std": true, "sha1": true, "sha256": true, "sha384": true,
	"sha512": true, "hmac": true, "qbody": true, "hexenc": true, "rsasig": true}

func pieces(t *Term) []*Term {
	if t.op == "concat" {
		return t.args
	}
	if t.op == "str" && t.s == "" {
		return nil
	}
	return []*Term{t}
}

// Concat builds a normalised concatenation.
func (tb *Table) Concat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		for _, p := range pieces(x) {
			n := len(out)
			if n > 0 {
				l := out[n-1]
				if l.op == "str" && p.op == "str" {
					out[n-1] = tb.Str(l.s + p.s)
					continue
				}
				// byteat(S,i) ++ byteat(S,i+1) => sub
				if m := tb.joinBytes(l, p); m != nil {
					out[n-1] = m
					continue
				}
			}
			if p.op == "bytestr" && p.args[0].op == "bv" {
				p = tb.Str(string([]byte{byte(p.args[0].i)}))
				if n > 0 && out[n-1].op == "str" {
					out[n-1] = tb.Str(out[n-1].s + p.s)
					continue
				}
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return tb.EmptyStr
	case 1:
		return out[0]
	}
	return tb.mk(&Term{op: "concat", sort: SStr, args: out})
}

func byteRange(t *Term) (*Term, int, int, bool) {
	if t.op == "bytestr" && t.args[0].op == "byteat" {
		b := t.args[0]
		return b.args[0], int(b.i), int(b.i) + 1, true
	}
	if t.op == "sub" {
		i, j := subRange(t)
		return t.args[0], i, j, true
	}
	return nil, 0, 0, false
}

func (tb *Table) joinBytes(l, p *Term) *Term {
	s1, _, j1, ok1 := byteRange(l)
	if !ok1 {
		return nil
	}
	s2, i2, _, ok2 := byteRange(p)
	if !ok2 || s1 != s2 || j1 != i2 {
		return nil
	}
	_, i1, _, _ := byteRange(l)
	_, _, j2, _ := byteRange(p)
	return tb.Sub_(s1, i1, j2)
}

// Sub_ : bytes i..j of fixed-length opaque s
func (tb *Table) Sub_(s *Term, i, j int) *Term {
	if s.op == "sub" {
		a, _ := subRange(s)
		return tb.Sub_(s.args[0], a+i, a+j)
	}
	if i == j {
		return tb.EmptyStr
	}
	if i == 0 && s.minLen == s.maxLen && j == s.maxLen {
		return s
	}
	return tb.mk(&Term{op: "sub", sort: SStr, s: strconv.Itoa(i) + ":" + strconv.Itoa(j), args: []*Term{s}})
}

func (tb *Table) ByteAt(s *Term, i int) *Term {
	if s.op == "str" {
		return tb.BV(int64(s.s[i]), 8)
	}
	if s.op == "bytestr" && i == 0 {
		return s.args[0]
	}
	if s.op == "sub" {
		a, _ := subRange(s)
		return tb.ByteAt(s.args[0], a+i)
	}
	t := tb.mk(&Term{op: "byteat", sort: 8, i: int64(i), s: strconv.Itoa(i), args: []*Term{s}})
	t.cs = s.cs
	return t
}

func (tb *Table) ByteStr(b *Term) *Term {
	if b.op == "bv" {
		return tb.Str(string([]byte{byte(b.i)}))
	}
	return tb.mk(&Term{op: "bytestr", sort: SStr, args: []*Term{b}})
}

func (tb *Table) StrLen(t *Term) *Term {
	switch t.op {
	case "str":
		return tb.Int(int64(len(t.s)))
	case "concat":
		r := tb.Int(0)
		for _, a := range t.args {
			r = tb.Add(r, tb.StrLen(a))
		}
		return r
	}
	if t.minLen == t.maxLen {
		return tb.Int(int64(t.minLen))
	}
	return tb.mk(&Term{op: "str.len", sort: SInt, args: []*Term{t}})
}

func isConstStr(t *Term) bool { return t.op == "str" }

// App builds an uninterpreted (or simplified) string function application.
func (tb *Table) App(op, s string, args ...*Term) *Term {
	allc := true
	for _, a := range args {
		if a.op != "str" && a.op != "int" {
			allc = false
		}
	}
	switch op {
	case "itoa":
		if args[0].op == "int" && args[0].s == "" {
			return tb.Str(strconv.FormatInt(args[0].i, 10))
		}
	case "qesc":
		return tb.mapPieces(args[0], func(c string) string { return url.QueryEscape(c) }, csQSafe, op)
	case "hesc":
		safe := func(t *Term) bool {
			if t.cs == nil {
				return false
			}
			for i := 0; i < len(csHescBad); i++ {
				if t.cs.has(csHescBad[i]) {
					return false
				}
			}
			return true
		}
		var out []*Term
		for _, p := range pieces(args[0]) {
			if p.op == "str" {
				out = append(out, tb.Str(html.EscapeString(p.s)))
			} else if safe(p) {
				out = append(out, p)
			} else {
				out = append(out, tb.mk(&Term{op: op, sort: SStr, args: []*Term{p}}))
			}
		}
		return tb.Concat(out...)
	case "qbody":
		return tb.mapPieces(args[0], func(c string) string { q := strconv.Quote(c); return q[1 : len(q)-1] }, parseClass("A-Za-z0-9 !#-[\\]-~"), op)
	case "b64raw_url":
		if allc {
			return tb.Str(base64.RawURLEncoding.EncodeToString([]byte(args[0].s)))
		}
	case "b64raw_std":
		if allc {
			return tb.Str(base64.RawStdEncoding.EncodeToString([]byte(args[0].s)))
		}
	case "b64pad":
		a := args[0]
		if a.minLen == a.maxLen {
			return tb.Str("=="[:(3-a.minLen%3)%3])
		}
	case "lower":
		return tb.mapPieces(args[0], strings.ToLower, parseClass("a-z0-9 _.:/\\-?=&+%"), op)
	case "upper":
		return tb.mapPieces(args[0], strings.ToUpper, parseClass("A-Z0-9 _.:/\\-?=&+%"), op)
	case "sha256", "sha384", "sha512", "sha1":
		if allc {
			return tb.Str(realHash(op, args[0].s))
		}
	}
	return tb.mk(&Term{op: op, s: s, sort: SStr, args: args})
}

func (tb *Table) mapPieces(t *Term, f func(string) string, safe *CharSet, op string) *Term {
	var out []*Term
	for _, p := range pieces(t) {
		if p.op == "str" {
			out = append(out, tb.Str(f(p.s)))
		} else if p.cs != nil && p.cs.subsetOf(safe) {
			out = append(out, p)
		} else {
			out = append(out, tb.mk(&Term{op: op, sort: SStr, args: []*Term{p}}))
		}
	}
	return tb.Concat(out...)
}

func (tb *Table) StrEq(a, b *Term) *Term {
	return tb.strEq(pieces(a), pieces(b))
}

func minLenOf(ps []*Term) int {
	n := 0
	for _, p := range ps {
		n += p.minLen
	}
	return n
}
func maxLenOf(ps []*Term) int {
	n := 0
	for _, p := range ps {
		if p.maxLen < 0 {
			return -1
		}
		n += p.maxLen
	}
	return n
}

func fixedBytes(ps []*Term) bool {
	for _, p := range ps {
		if p.op != "str" && p.op != "bytestr" {
			return false
		}
	}
	return true
}

func (tb *Table) explode(ps []*Term) []*Term {
	var out []*Term
	for _, p := range ps {
		if p.op == "str" {
			for i := 0; i < len(p.s); i++ {
				out = append(out, tb.BV(int64(p.s[i]), 8))
			}
		} else {
			out = append(out, p.args[0])
		}
	}
	return out
}

func (tb *Table) strEq(x, y []*Term) *Term {
	x = append([]*Term(nil), x...)
	y = append([]*Term(nil), y...)
	// strip common prefix
	for len(x) > 0 && len(y) > 0 {
		p, q := x[0], y[0]
		if p == q {
			x, y = x[1:], y[1:]
			continue
		}
		if p.op == "str" && q.op == "str" {
			n := min(len(p.s), len(q.s))
			if p.s[:n] != q.s[:n] {
				return tb.False
			}
			if n == len(p.s) {
				x = x[1:]
			} else {
				x[0] = tb.Str(p.s[n:])
			}
			if n == len(q.s) {
				y = y[1:]
			} else {
				y[0] = tb.Str(q.s[n:])
			}
			continue
		}
		break
	}
	for len(x) > 0 && len(y) > 0 {
		i, j := len(x)-1, len(y)-1
		p, q := x[i], y[j]
		if p == q {
			x, y = x[:i], y[:j]
			continue
		}
		if p.op == "str" && q.op == "str" {
			n := min(len(p.s), len(q.s))
			if p.s[len(p.s)-n:] != q.s[len(q.s)-n:] {
				return tb.False
			}
			if n == len(p.s) {
				x = x[:i]
			} else {
				x[i] = tb.Str(p.s[:len(p.s)-n])
			}
			if n == len(q.s) {
				y = y[:j]
			} else {
				y[j] = tb.Str(q.s[:len(q.s)-n])
			}
			continue
		}
		break
	}
	if len(x) == 0 && len(y) == 0 {
		return tb.True
	}
	if len(x) == 0 {
		x, y = y, x
	}
	if len(y) == 0 {
		if minLenOf(x) > 0 {
			return tb.False
		}
		var cs []*Term
		for _, p := range x {
			cs = append(cs, tb.emptyEq(p))
		}
		return tb.And(cs...)
	}
	if mx := maxLenOf(x); mx >= 0 && mx < minLenOf(y) {
		return tb.False
	}
	if my := maxLenOf(y); my >= 0 && my < minLenOf(x) {
		return tb.False
	}
	if fixedBytes(x) && fixedBytes(y) {
		bx, by := tb.explode(x), tb.explode(y)
		if len(bx) != len(by) {
			return tb.False
		}
		var cs []*Term
		for i := range bx {
			cs = append(cs, tb.EqBV(bx[i], by[i]))
		}
		return tb.And(cs...)
	}
	if len(x) == 1 && x[0].op == "ite" {
		return tb.Ite(x[0].args[0], tb.strEq(pieces(x[0].args[1]), y), tb.strEq(pieces(x[0].args[2]), y))
	}
	if len(y) == 1 && y[0].op == "ite" {
		return tb.Ite(y[0].args[0], tb.strEq(pieces(y[0].args[1]), x), tb.strEq(pieces(y[0].args[2]), x))
	}
	if len(x) == 1 && len(y) == 1 {
		p, q := x[0], y[0]
		if p.op == q.op && p.s == q.s && injective[p.op] && len(p.args) == len(q.args) {
			var cs []*Term
			for i := range p.args {
				cs = append(cs, tb.Eq(p.args[i], q.args[i]))
			}
			return tb.And(cs...)
		}
		if p.op == "rsasig" && q.op == "rsasig" && p.s != q.s {
			return tb.False // ideal signatures: other key or other hash
		}
		if p.op == "json" && q.op == "json" {
			return tb.eqJSON(p, q)
		}
		if q.op == "str" {
			if r := tb.eqConst(p, q.s); r != nil {
				return r
			}
		}
		if p.op == "str" {
			if r := tb.eqConst(q, p.s); r != nil {
				return r
			}
		}
	}
	// charset conflicts with a constant side
	if len(y) == 1 && y[0].op == "str" {
		if r := tb.csConflict(x, y[0].s); r {
			return tb.False
		}
	}
	if len(x) == 1 && x[0].op == "str" {
		if r := tb.csConflict(y, x[0].s); r {
			return tb.False
		}
	}
	// delimiter rule
	if r := tb.delimRule(x, y); r != nil {
		return r
	}
	if r := tb.delimRule(y, x); r != nil {
		return r
	}
	// first/last char conflict: const vs nonempty piece with charset
	if firstConflict(x, y) || firstConflict(y, x) || lastConflict(x, y) || lastConflict(y, x) {
		return tb.False
	}
	a, b := tb.Concat(x...), tb.Concat(y...)
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

func firstConflict(x, y []*Term) bool {
	return x[0].op == "str" && y[0].minLen > 0 && y[0].cs != nil && !y[0].cs.has(x[0].s[0])
}
func lastConflict(x, y []*Term) bool {
	p, q := x[len(x)-1], y[len(y)-1]
	return p.op == "str" && q.minLen > 0 && q.cs != nil && !q.cs.has(p.s[len(p.s)-1])
}

func (tb *Table) emptyEq(p *Term) *Term {
	if p.minLen > 0 {
		return tb.False
	}
	switch p.op {
	case "str":
		return tb.Bool(p.s == "")
	case "qesc", "hesc", "pesc", "b64raw_url", "b64raw_std", "qbody", "lower", "upper", "hexenc":
		return tb.StrEq(p.args[0], tb.EmptyStr)
	case "ite":
		return tb.Ite(p.args[0], tb.emptyEq(p.args[1]), tb.emptyEq(p.args[2]))
	case "concat":
		return tb.strEq(p.args, nil)
	}
	a, b := p, tb.EmptyStr
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

func (tb *Table) csConflict(ps []*Term, c string) bool {
	var cs *CharSet = &CharSet{}
	for _, p := range ps {
		if p.cs == nil {
			return false
		}
		cs = cs.union(p.cs)
	}
	for i := 0; i < len(c); i++ {
		if !cs.has(c[i]) {
			return true
		}
	}
	return false
}

func (tb *Table) delimRule(x, y []*Term) *Term {
	// x = R ++ const(d...) ...; R nonconst pieces with d not in cs(R)
	if x[0].op == "str" {
		return nil
	}
	var d byte
	k := -1
	for i, p := range x {
		if p.op == "str" {
			d = p.s[0]
			k = i
			break
		}
		if p.cs == nil {
			return nil
		}
	}
	if k < 0 {
		return nil
	}
	for _, p := range x[:k] {
		if p.cs.has(d) {
			return nil
		}
	}
	for j, q := range y {
		if q.op == "str" {
			if idx := strings.IndexByte(q.s, d); idx >= 0 {
				pre := append([]*Term(nil), y[:j]...)
				if idx > 0 {
					pre = append(pre, tb.Str(q.s[:idx]))
				}
				post := append([]*Term{tb.Str(q.s[idx:])}, y[j+1:]...)
				return tb.And(tb.strEq(x[:k], pre), tb.strEq(x[k:], post))
			}
			continue
		}
		if q.cs == nil || q.cs.has(d) {
			return nil
		}
	}
	return tb.False
}

func (tb *Table) eqConst(p *Term, c string) *Term {
	if p.cs != nil {
		for i := 0; i < len(c); i++ {
			if !p.cs.has(c[i]) {
				return tb.False
			}
		}
	}
	if len(c) < p.minLen || p.maxLen >= 0 && len(c) > p.maxLen {
		return tb.False
	}
	switch p.op {
	case "qesc":
		v, err := url.QueryUnescape(c)
		if err != nil || url.QueryEscape(v) != c {
			return tb.False
		}
		return tb.StrEq(p.args[0], tb.Str(v))
	case "hesc":
		v := html.UnescapeString(c)
		if html.EscapeString(v) != c {
			return tb.False
		}
		return tb.StrEq(p.args[0], tb.Str(v))
	case "itoa":
		n, err := strconv.ParseInt(c, 10, 64)
		if err != nil || strconv.FormatInt(n, 10) != c {
			return tb.False
		}
		return tb.EqInt(p.args[0], tb.Int(n))
	case "b64raw_url", "b64raw_std":
		enc := base64.RawURLEncoding
		if p.op == "b64raw_std" {
			enc = base64.RawStdEncoding
		}
		v, err := enc.DecodeString(c)
		if err != nil || enc.EncodeToString(v) != c {
			return tb.False
		}
		return tb.StrEq(p.args[0], tb.Str(string(v)))
	case "lower":
		if strings.ToLower(c) != c {
			return tb.False
		}
		return tb.InCI(p.args[0], c)
	case "upper":
		if strings.ToUpper(c) != c {
			return tb.False
		}
		return tb.InCI(p.args[0], c)
	case "qbody":
		v, err := strconv.Unquote(`"` + c + `"`)
		if err != nil {
			return tb.False
		}
		return tb.StrEq(p.args[0], tb.Str(v))
	}
	return nil
}

// InCI: t equals c up to ASCII case
func (tb *Table) InCI(t *Term, c string) *Term {
	if t.op == "str" {
		return tb.Bool(strings.EqualFold(t.s, c))
	}
	if len(c) < t.minLen || t.maxLen >= 0 && len(c) > t.maxLen {
		return tb.False
	}
	if t.cs != nil {
		for i := 0; i < len(c); i++ {
			if !t.cs.has(c[i]|0x20) && !t.cs.has(c[i]&^0x20) && !t.cs.has(c[i]) {
				return tb.False
			}
		}
	}
	if ps := pieces(t); fixedBytes(ps) {
		bs := tb.explode(ps)
		if len(bs) != len(c) {
			return tb.False
		}
		var cs []*Term
		for i, b := range bs {
			lo, up := strings.ToLower(c[i : i+1])[0], strings.ToUpper(c[i : i+1])[0]
			cs = append(cs, tb.Or(tb.EqBV(b, tb.BV(int64(lo), 8)), tb.EqBV(b, tb.BV(int64(up), 8))))
		}
		return tb.And(cs...)
	}
	// strip constant prefix/suffix pieces
	ps := pieces(t)
	if len(ps) > 1 && ps[0].op == "str" {
		n := len(ps[0].s)
		if n > len(c) || !strings.EqualFold(ps[0].s, c[:n]) {
			return tb.False
		}
		return tb.InCI(tb.Concat(ps[1:]...), c[n:])
	}
	return tb.mk(&Term{op: "in_ci", sort: SBool, s: strings.ToLower(c), args: []*Term{t}})
}

func (tb *Table) Eq(a, b *Term) *Term {
	switch a.sort {
	case SInt:
		return tb.EqInt(a, b)
	case SStr:
		return tb.StrEq(a, b)
	case SBool:
		if a == b {
			return tb.True
		}
		if a == tb.True {
			return b
		}
		if b == tb.True {
			return a
		}
		if a == tb.False {
			return tb.Not(b)
		}
		if b == tb.False {
			return tb.Not(a)
		}
		if tb.Not(a) == b {
			return tb.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return tb.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
	}
	return tb.EqBV(a, b)
}

// ---- predicates

func (tb *Table) StrContains(s, sub *Term) *Term {
	if s.op == "str" && sub.op == "str" {
		return tb.Bool(strings.Contains(s.s, sub.s))
	}
	if sub.op == "str" {
		if sub.s == "" {
			return tb.True
		}
		ps := pieces(s)
		allNo := true
		for _, p := range ps {
			if p.op == "str" && strings.Contains(p.s, sub.s) {
				return tb.True
			}
		}
		if len(sub.s) == 1 {
			var cs []*Term
			for _, p := range ps {
				if p.op == "str" {
					continue
				}
				if p.cs != nil && !p.cs.has(sub.s[0]) {
					continue
				}
				if p.op == "json" && sub.s[0] < ' ' && jsonMode(p) == "" {
					continue // control characters are escaped
				}
				if p.op == "json" && strings.IndexByte("~`", sub.s[0]) >= 0 {
					c := tb.jsonHas(p.aux.(*JNode), sub, nil)
					if c != tb.False {
						allNo = false
						cs = append(cs, c)
					}
					continue
				}
				allNo = false
				if p.op == "bytestr" {
					cs = append(cs, tb.EqBV(p.args[0], tb.BV(int64(sub.s[0]), 8)))
				} else {
					cs = append(cs, tb.mk(&Term{op: "str.contains", sort: SBool, args: []*Term{p, sub}}))
				}
			}
			if allNo {
				return tb.False
			}
			return tb.Or(cs...)
		}
		if s.cs != nil {
			for i := 0; i < len(sub.s); i++ {
				if !s.cs.has(sub.s[i]) {
					return tb.False
				}
			}
		}
		if c := tb.wordIn(ps, sub); c != nil {
			return c
		}
		if s.maxLen >= 0 && s.maxLen < len(sub.s) {
			return tb.False
		}
		if fixedBytes(ps) {
			bs := tb.explode(ps)
			var ors []*Term
			for i := 0; i+len(sub.s) <= len(bs); i++ {
				var ands []*Term
				for j := 0; j < len(sub.s); j++ {
					ands = append(ands, tb.EqBV(bs[i+j], tb.BV(int64(sub.s[j]), 8)))
				}
				ors = append(ors, tb.And(ands...))
			}
			return tb.Or(ors...)
		}
	}
	return tb.mk(&Term{op: "str.contains", sort: SBool, args: []*Term{s, sub}})
}

func (tb *Table) StrPrefix(pre, s *Term) *Term {
	if pre.op == "str" && s.op == "str" {
		return tb.Bool(strings.HasPrefix(s.s, pre.s))
	}
	x, y := append([]*Term(nil), pieces(pre)...), append([]*Term(nil), pieces(s)...)
	for len(x) > 0 && len(y) > 0 {
		p, q := x[0], y[0]
		if p == q {
			x, y = x[1:], y[1:]
			continue
		}
		if p.op == "str" && q.op == "str" {
			n := min(len(p.s), len(q.s))
			if p.s[:n] != q.s[:n] {
				return tb.False
			}
			if n == len(p.s) {
				x = x[1:]
			} else {
				x[0] = tb.Str(p.s[n:])
			}
			if n == len(q.s) {
				y = y[1:]
			} else {
				y[0] = tb.Str(q.s[n:])
			}
			continue
		}
		if p.op == "str" && q.op == "bytestr" {
			c := tb.EqBV(q.args[0], tb.BV(int64(p.s[0]), 8))
			rest := tb.StrPrefix(tb.Concat(append([]*Term{tb.Str(p.s[1:])}, x[1:]...)...), tb.Concat(y[1:]...))
			return tb.And(c, rest)
		}
		break
	}
	if len(x) == 0 {
		return tb.True
	}
	if len(y) == 0 {
		return tb.strEq(x, nil)
	}
	if firstConflict(x, y) {
		return tb.False
	}
	a, b := tb.Concat(x...), tb.Concat(y...)
	if b.maxLen >= 0 && a.minLen > b.maxLen {
		return tb.False
	}
	return tb.mk(&Term{op: "str.prefixof", sort: SBool, args: []*Term{a, b}})
}

func (tb *Table) StrSuffix(suf, s *Term) *Term {
	if suf.op == "str" && s.op == "str" {
		return tb.Bool(strings.HasSuffix(s.s, suf.s))
	}
	x, y := append([]*Term(nil), pieces(suf)...), append([]*Term(nil), pieces(s)...)
	for len(x) > 0 && len(y) > 0 {
		i, j := len(x)-1, len(y)-1
		p, q := x[i], y[j]
		if p == q {
			x, y = x[:i], y[:j]
			continue
		}
		if p.op == "str" && q.op == "str" {
			n := min(len(p.s), len(q.s))
			if p.s[len(p.s)-n:] != q.s[len(q.s)-n:] {
				return tb.False
			}
			if n == len(p.s) {
				x = x[:i]
			} else {
				x[i] = tb.Str(p.s[:len(p.s)-n])
			}
			if n == len(q.s) {
				y = y[:j]
			} else {
				y[j] = tb.Str(q.s[:len(q.s)-n])
			}
			continue
		}
		if p.op == "str" && q.op == "bytestr" {
			c := tb.EqBV(q.args[0], tb.BV(int64(p.s[len(p.s)-1]), 8))
			rest := tb.StrSuffix(tb.Concat(append(append([]*Term{}, x[:i]...), tb.Str(p.s[:len(p.s)-1]))...), tb.Concat(y[:j]...))
			return tb.And(c, rest)
		}
		break
	}
	if len(x) == 0 {
		return tb.True
	}
	if len(y) == 0 {
		return tb.strEq(x, nil)
	}
	if lastConflict(x, y) {
		return tb.False
	}
	a, b := tb.Concat(x...), tb.Concat(y...)
	if b.maxLen >= 0 && a.minLen > b.maxLen {
		return tb.False
	}
	return tb.mk(&Term{op: "str.suffixof", sort: SBool, args: []*Term{a, b}})
}

func (tb *Table) StrLt(a, b *Term) *Term {
	if a == b {
		return tb.False
	}
	if a.op == "str" && b.op == "str" {
		return tb.Bool(a.s < b.s)
	}
	if b == tb.EmptyStr {
		return tb.False
	}
	if a == tb.EmptyStr {
		return tb.Not(tb.StrEq(b, tb.EmptyStr))
	}
	x, y := append([]*Term(nil), pieces(a)...), append([]*Term(nil), pieces(b)...)
	for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
		x, y = x[1:], y[1:]
	}
	if fixedBytes(x) && fixedBytes(y) {
		bx, by := tb.explode(x), tb.explode(y)
		var rec func(i int) *Term
		rec = func(i int) *Term {
			if i == len(by) {
				return tb.False
			}
			if i == len(bx) {
				return tb.True
			}
			return tb.Or(tb.BVCmp("bvult", bx[i], by[i]), tb.And(tb.EqBV(bx[i], by[i]), rec(i+1)))
		}
		return rec(0)
	}
	// first-character decision
	if len(x) > 0 && len(y) > 0 {
		if lo1, hi1, ok := firstRange(x[0]); ok {
			if lo2, hi2, ok2 := firstRange(y[0]); ok2 {
				if hi1 < lo2 {
					return tb.True
				}
				if lo1 > hi2 {
					return tb.False
				}
			}
		}
	}
	return tb.mk(&Term{op: "str.<", sort: SBool, args: []*Term{tb.Concat(x...), tb.Concat(y...)}})
}

func firstRange(p *Term) (lo, hi int, ok bool) {
	if p.minLen == 0 {
		return
	}
	if p.op == "str" {
		return int(p.s[0]), int(p.s[0]), true
	}
	if p.cs == nil {
		return
	}
	lo, hi = -1, -1
	for i := 0; i < 256; i++ {
		if p.cs.has(byte(i)) {
			if lo < 0 {
				lo = i
			}
			hi = i
		}
	}
	return lo, hi, lo >= 0
}

// rebuild reconstructs a term with new args through the smart constructors.
func (tb *Table) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return tb.Not(args[0])
	case "and":
		return tb.And(args...)
	case "or":
		return tb.Or(args...)
	case "ite":
		return tb.Ite(args[0], args[1], args[2])
	case "le0":
		return tb.le0(args[0])
	case "eq0":
		return tb.EqInt(args[0], tb.Int(0))
	case "=":
		return tb.Eq(args[0], args[1])
	case "concat":
		return tb.Concat(args...)
	case "bytestr":
		return tb.ByteStr(args[0])
	case "str.len":
		return tb.StrLen(args[0])
	case "str.contains":
		return tb.StrContains(args[0], args[1])
	case "str.prefixof":
		return tb.StrPrefix(args[0], args[1])
	case "str.suffixof":
		return tb.StrSuffix(args[0], args[1])
	case "str.<":
		return tb.StrLt(args[0], args[1])
	case "str.indexof":
		return tb.StrIndex(args[0], args[1], args[2])
	case "str.substr":
		return tb.StrSubstr(args[0], args[1], args[2])
	case "in_ci":
		return tb.InCI(args[0], t.s)
	case "sub":
		if args[0].op == "str" {
			i, j := subRange(t)
			return tb.Str(args[0].s[i:j])
		}
		i, j := subRange(t)
		return tb.Sub_(args[0], i, j)
	case "byteat":
		if args[0].op == "str" && int(t.i) < len(args[0].s) {
			return tb.BV(int64(args[0].s[t.i]), 8)
		}
		return tb.ByteAt(args[0], int(t.i))
	case "json":
		return tb.jsonRebuild(t, args)
	case "zero_extend":
		return tb.ZeroExt(args[0], t.sort)
	case "sign_extend":
		return tb.SignExt(args[0], t.sort)
	case "trunc":
		return tb.Trunc(args[0], t.sort)
	case "bv2nat":
		return tb.BV2Nat(args[0])
	case "int2bv":
		return tb.Int2BV(args[0], t.sort)
	case "bvult", "bvule", "bvslt", "bvsle":
		return tb.BVCmp(t.op, args[0], args[1])
	case "mod":
		return tb.IntMod(args[0], args[1])
	}
	if strings.HasPrefix(t.op, "bv") && t.sort > 0 && len(args) == 2 {
		return tb.BVOp(t.op, args[0], args[1])
	}
	if t.sort == SStr {
		return tb.App(t.op, t.s, args...)
	}
	return tb.mk(&Term{op: t.op, s: t.s, i: t.i, sort: t.sort, args: args, aux: t.aux, maxLen: -1})
}

func (tb *Table) IntMod(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && a.s == "" && b.i != 0 && a.i >= 0 {
		return tb.Int(a.i % b.i)
	}
	return tb.mk(&Term{op: "mod", sort: SInt, args: []*Term{a, b}})
}

func (tb *Table) StrIndex(s, sub, from *Term) *Term {
	if s.op == "str" && sub.op == "str" && from.op == "int" {
		f := int(from.i)
		if f <= len(s.s) {
			i := strings.Index(s.s[f:], sub.s)
			if i >= 0 {
				i += f
			}
			return tb.Int(int64(i))
		}
	}
	if sub.op == "str" && from.op == "int" && from.i == 0 {
		if c := tb.StrContains(s, sub); c == tb.False {
			return tb.Int(-1)
		}
		if sub.s == "" {
			return tb.Int(0)
		}
		if len(sub.s) == 1 {
			// known first occurrence?
			pos := tb.Int(0)
			for _, p := range pieces(s) {
				if p.op == "str" {
					if i := strings.Index(p.s, sub.s); i >= 0 {
						return tb.Add(pos, tb.Int(int64(i)))
					}
				} else if p.cs == nil || p.cs.has(sub.s[0]) {
					goto generic
				}
				pos = tb.Add(pos, tb.StrLen(p))
			}
			return tb.Int(-1)
		}
	}
generic:
	return tb.mk(&Term{op: "str.indexof", sort: SInt, args: []*Term{s, sub, from}})
}

// StrSubstr: substring of s from offset of given length; resolves piece boundaries syntactically.
func (tb *Table) StrSubstr(s, off, n *Term) *Term {
	if n.op == "int" && n.s == "" && n.i == 0 {
		return tb.EmptyStr
	}
	ps := pieces(s)
	// find piece position for off
	locate := func(pos *Term) (int, int, bool) {
		cum := tb.Int(0)
		for i := 0; i <= len(ps); i++ {
			d := tb.Sub(pos, cum)
			if d.op == "int" && d.s == "" {
				if d.i == 0 {
					return i, 0, true
				}
				if i < len(ps) && d.i > 0 && ps[i].minLen == ps[i].maxLen && int(d.i) < ps[i].minLen && (ps[i].op == "str" || ps[i].minLen > 1) {
					return i, int(d.i), true
				}
			}
			if i < len(ps) {
				cum = tb.Add(cum, tb.StrLen(ps[i]))
			}
		}
		return 0, 0, false
	}
	i, io, ok1 := locate(off)
	j, jo, ok2 := locate(tb.Add(off, n))
	if ok1 && ok2 && (i < j || i == j && io <= jo) {
		cut := func(p *Term, a, b int) *Term {
			if p.op == "str" {
				return tb.Str(p.s[a:b])
			}
			return tb.Sub_(p, a, b)
		}
		var out []*Term
		if i == j {
			if io == jo {
				return tb.EmptyStr
			}
			return cut(ps[i], io, jo)
		}
		if io > 0 {
			out = append(out, cut(ps[i], io, ps[i].minLen))
			i++
		}
		out = append(out, ps[i:j]...)
		if jo > 0 {
			out = append(out, cut(ps[j], 0, jo))
		}
		return tb.Concat(out...)
	}
	return tb.mk(&Term{op: "str.substr", sort: SStr, args: []*Term{s, off, n}, maxLen: -1})
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
