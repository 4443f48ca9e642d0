package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"hash"
	"html"
	"math/big"
	"net/url"
	"strconv"
	"strings"
)

// evaluator computes terms concretely with the real functions.
type evaluator struct {
	tb    *Table
	model map[*Term]any
	memo  map[*Term]any
}

var interpretedOps = map[string]bool{"true": true, "false": true, "int": true, "str": true, "bv": true, "var": true, "lin": true, "le0": true, "eq0": true, "concat": true,
	"bytestr": true, "zero_extend": true, "sign_extend": true, "trunc": true, "int2bv": true, "in_ci": true, "in_class": true, "raw<=": true, "rawminlen": true, "rawmaxlen": true, "bvclass": true}

func isUF(t *Term) bool {
	return !interpretedOps[t.op] && !builtinOps[t.op] && len(t.args) > 0
}

func (e *evaluator) eval(t *Term) (any, bool) {
	if v, ok := e.memo[t]; ok {
		return v, v != nil
	}
	v := e.eval1(t)
	e.memo[t] = v
	return v, v != nil
}

func (e *evaluator) str(t *Term) (string, bool) {
	v, ok := e.eval(t)
	if !ok {
		return "", false
	}
	s, ok := v.(string)
	return s, ok
}
func (e *evaluator) int(t *Term) (int64, bool) {
	v, ok := e.eval(t)
	if !ok {
		return 0, false
	}
	s, ok := v.(int64)
	return s, ok
}

func (e *evaluator) big(t *Term) (*big.Int, bool) {
	if t.op == "int" && t.s != "" {
		b, ok := new(big.Int).SetString(t.s, 10)
		return b, ok
	}
	if t.op == "lin" {
		r := big.NewInt(t.i)
		for _, p := range t.lin {
			x, ok := e.big(p.t)
			if !ok {
				return nil, false
			}
			r.Add(r, new(big.Int).Mul(big.NewInt(p.c), x))
		}
		return r, true
	}
	if t.op == "ite" {
		c, ok := e.eval(t.args[0])
		if !ok {
			return nil, false
		}
		if c.(bool) {
			return e.big(t.args[1])
		}
		return e.big(t.args[2])
	}
	i, ok := e.int(t)
	return big.NewInt(i), ok
}

func (e *evaluator) eval1(t *Term) any {
	switch t.op {
	case "true":
		return true
	case "false":
		return false
	case "int":
		if t.s != "" {
			return nil
		}
		return t.i
	case "bv":
		return mask(t.i, t.sort)
	case "str":
		return t.s
	case "var":
		if v, ok := e.model[t]; ok {
			return v
		}
		switch t.sort {
		case SBool:
			return false
		case SStr:
			return ""
		case SInt:
			if t.hasLo && t.lo > 0 {
				return t.lo
			}
		}
		return int64(0)
	case "lin":
		b, ok := e.big(t)
		if !ok || !b.IsInt64() {
			return nil
		}
		return b.Int64()
	case "le0":
		b, ok := e.big(t.args[0])
		if !ok {
			return nil
		}
		return b.Sign() <= 0
	case "eq0":
		b, ok := e.big(t.args[0])
		if !ok {
			return nil
		}
		return b.Sign() == 0
	case "not":
		v, ok := e.eval(t.args[0])
		if !ok {
			return nil
		}
		return !v.(bool)
	case "and", "or":
		unk := false
		for _, a := range t.args {
			v, ok := e.eval(a)
			if !ok {
				unk = true
				continue
			}
			if v.(bool) == (t.op == "or") {
				return t.op == "or"
			}
		}
		if unk {
			return nil
		}
		return t.op == "and"
	case "ite":
		c, ok := e.eval(t.args[0])
		if !ok {
			return nil
		}
		k := 2
		if c.(bool) {
			k = 1
		}
		v, _ := e.eval(t.args[k])
		return v
	case "concat":
		var sb strings.Builder
		for _, a := range t.args {
			s, ok := e.str(a)
			if !ok {
				return nil
			}
			sb.WriteString(s)
		}
		return sb.String()
	}
	var vs []any
	for _, a := range t.args {
		v, ok := e.eval(a)
		if !ok {
			return nil
		}
		vs = append(vs, v)
	}
	S := func(i int) string { s, _ := vs[i].(string); return s }
	I := func(i int) int64 { s, _ := vs[i].(int64); return s }
	w := t.sort
	var aw Sort
	if len(t.args) > 0 {
		aw = t.args[0].sort
	}
	U := func(i int) uint64 { return uint64(mask(I(i), aw)) }
	switch t.op {
	case "=":
		return vs[0] == vs[1]
	case "bytestr":
		return string([]byte{byte(I(0))})
	case "zero_extend":
		return I(0)
	case "sign_extend":
		return mask(sext(I(0), aw), w)
	case "trunc", "int2bv":
		return mask(I(0), w)
	case "bv2nat":
		return I(0)
	case "bvadd":
		return mask(I(0)+I(1), w)
	case "bvsub":
		return mask(I(0)-I(1), w)
	case "bvmul":
		return mask(I(0)*I(1), w)
	case "bvand":
		return mask(I(0)&I(1), w)
	case "bvor":
		return mask(I(0)|I(1), w)
	case "bvxor":
		return mask(I(0)^I(1), w)
	case "bvshl":
		if U(1) >= uint64(w) {
			return int64(0)
		}
		return mask(int64(U(0)<<U(1)), w)
	case "bvlshr":
		if U(1) >= uint64(w) {
			return int64(0)
		}
		return mask(int64(U(0)>>U(1)), w)
	case "bvashr":
		n := U(1)
		if n >= uint64(w) {
			n = uint64(w) - 1
		}
		return mask(sext(I(0), w)>>n, w)
	case "bvudiv":
		if U(1) == 0 {
			return nil
		}
		return mask(int64(U(0)/U(1)), w)
	case "bvurem":
		if U(1) == 0 {
			return nil
		}
		return mask(int64(U(0)%U(1)), w)
	case "bvult":
		return U(0) < U(1)
	case "bvule":
		return U(0) <= U(1)
	case "bvslt":
		return sext(I(0), aw) < sext(I(1), aw)
	case "bvsle":
		return sext(I(0), aw) <= sext(I(1), aw)
	case "mod":
		if I(1) == 0 {
			return nil
		}
		r := I(0) % I(1)
		if r < 0 {
			r += absI(I(1))
		}
		return r
	case "div":
		if I(1) == 0 || I(0) < 0 {
			return nil
		}
		return I(0) / I(1)
	case "str.len":
		return int64(len(S(0)))
	case "str.contains":
		return strings.Contains(S(0), S(1))
	case "str.prefixof":
		return strings.HasPrefix(S(1), S(0))
	case "str.suffixof":
		return strings.HasSuffix(S(1), S(0))
	case "str.<":
		return S(0) < S(1)
	case "str.indexof":
		f := I(2)
		if f < 0 || f > int64(len(S(0))) {
			return int64(-1)
		}
		i := strings.Index(S(0)[f:], S(1))
		if i < 0 {
			return int64(-1)
		}
		return int64(i) + f
	case "str.substr":
		o, n := I(1), I(2)
		l := int64(len(S(0)))
		if o < 0 || o >= l || n <= 0 {
			return ""
		}
		if o+n > l {
			n = l - o
		}
		return S(0)[o : o+n]
	case "in_ci":
		return strings.EqualFold(S(0), t.s)
	case "in_class":
		c := t.aux.(*CharSet)
		for i := 0; i < len(S(0)); i++ {
			if !c.has(S(0)[i]) {
				return false
			}
		}
		return true
	case "bvclass":
		return t.aux.(*CharSet).has(byte(I(0)))
	case "raw<=":
		return I(0) <= I(1)
	case "rawminlen":
		return int64(len(S(0))) >= t.i
	case "rawmaxlen":
		return int64(len(S(0))) <= t.i
	case "byteat":
		if int(t.i) >= len(S(0)) {
			return nil
		}
		return int64(S(0)[t.i])
	case "sub":
		i, j := subRange(t)
		if j > len(S(0)) {
			return nil
		}
		return S(0)[i:j]
	case "qesc":
		return url.QueryEscape(S(0))
	case "pesc":
		return url.PathEscape(S(0))
	case "hesc":
		return html.EscapeString(S(0))
	case "qbody":
		q := strconv.Quote(S(0))
		return q[1 : len(q)-1]
	case "itoa":
		return strconv.FormatInt(I(0), 10)
	case "b64raw_url":
		return base64.RawURLEncoding.EncodeToString([]byte(S(0)))
	case "b64raw_std":
		return base64.RawStdEncoding.EncodeToString([]byte(S(0)))
	case "b64pad":
		return "=="[:(3-len(S(0))%3)%3]
	case "hexenc":
		return hex.EncodeToString([]byte(S(0)))
	case "lower":
		return strings.ToLower(S(0))
	case "upper":
		return strings.ToUpper(S(0))
	case "sha1", "sha256", "sha384", "sha512":
		return realHash(t.op, S(0))
	case "hmac":
		var f func() hash.Hash
		switch t.s {
		case "sha256":
			f = sha256.New
		case "sha384":
			f = sha512.New384
		case "sha512":
			f = sha512.New
		default:
			return nil
		}
		h := hmac.New(f, []byte(S(0)))
		h.Write([]byte(S(1)))
		return string(h.Sum(nil))
	case "rsasig":
		return realRSASig(t.s, S(0))
	case "json":
		nt := e.jsonConst(t, vs)
		if nt == nil {
			return nil
		}
		return *nt
	case "trimspace":
		return strings.TrimSpace(S(0))
	}
	return nil
}

func (e *evaluator) jsonConst(t *Term, vs []any) *string {
	args := make([]*Term, len(vs))
	for i, v := range vs {
		switch v := v.(type) {
		case string:
			args[i] = e.tb.Str(v)
		case int64:
			args[i] = e.tb.Int(v)
		case bool:
			args[i] = e.tb.Bool(v)
		}
	}
	r := e.tb.jsonRebuild(t, args)
	if r.op != "str" {
		return nil
	}
	return &r.s
}
