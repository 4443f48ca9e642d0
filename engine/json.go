package main

import (
	"bytes"
	"encoding/json"
	"sort"
	"strconv"
	"strings"
)

// JNode is a JSON document whose leaves are terms.
type JNode struct {
	kind  byte // 'n' null, 'b' bool, 'i' int, 'f' float, 's' string, 'a' array, 'o' object
	T     *Term
	F     float64
	elems []*JNode
	keys  []*Term
}

func (tb *Table) jsonTerm(n *JNode, mode string) *Term {
	var leaves []*Term
	var sb strings.Builder
	sb.WriteString(mode)
	allc := true
	var walk func(n *JNode)
	leaf := func(t *Term) {
		leaves = append(leaves, t)
		if t.op != "str" && t.op != "int" && t.op != "true" && t.op != "false" {
			allc = false
		}
	}
	walk = func(n *JNode) {
		sb.WriteByte(n.kind)
		switch n.kind {
		case 'b', 'i', 's':
			leaf(n.T)
		case 'f':
			sb.WriteString(strconv.FormatFloat(n.F, 'g', -1, 64))
		case 'a':
			sb.WriteByte('[')
			for _, e := range n.elems {
				walk(e)
				sb.WriteByte(',')
			}
			sb.WriteByte(']')
		case 'o':
			sb.WriteByte('{')
			for i, e := range n.elems {
				if n.keys[i].op == "str" {
					sb.WriteString(strconv.Quote(n.keys[i].s))
				} else {
					sb.WriteString("$k")
					leaf(n.keys[i])
				}
				sb.WriteByte(':')
				walk(e)
				sb.WriteByte(',')
			}
			sb.WriteByte('}')
		}
	}
	walk(n)
	if allc {
		return tb.Str(encodeJSON(n, mode))
	}
	return tb.mk(&Term{op: "json", s: sb.String(), sort: SStr, args: leaves, aux: n})
}

func jsonMode(t *Term) string {
	if strings.HasPrefix(t.s, "@") {
		return t.s[:strings.IndexByte(t.s, ';')+1]
	}
	return ""
}

func (tb *Table) jsonRebuild(t *Term, args []*Term) *Term {
	i := 0
	var walk func(n *JNode) *JNode
	walk = func(n *JNode) *JNode {
		c := *n
		switch n.kind {
		case 'b', 'i', 's':
			c.T = args[i]
			i++
		case 'a':
			c.elems = make([]*JNode, len(n.elems))
			for k, e := range n.elems {
				c.elems[k] = walk(e)
			}
		case 'o':
			c.elems = make([]*JNode, len(n.elems))
			c.keys = append([]*Term(nil), n.keys...)
			for k, e := range n.elems {
				if n.keys[k].op != "str" {
					c.keys[k] = args[i]
					i++
				}
				c.elems[k] = walk(e)
			}
		}
		return &c
	}
	return tb.jsonTerm(walk(t.aux.(*JNode)), jsonMode(t))
}

func encodeJSON(n *JNode, mode string) string {
	var sb strings.Builder
	var walk func(n *JNode)
	walk = func(n *JNode) {
		switch n.kind {
		case 'n':
			sb.WriteString("null")
		case 'b':
			sb.WriteString(n.T.op)
		case 'i':
			if n.T.s != "" {
				sb.WriteString(n.T.s)
			} else {
				sb.WriteString(strconv.FormatInt(n.T.i, 10))
			}
		case 'f':
			b, _ := json.Marshal(n.F)
			sb.Write(b)
		case 's':
			b, _ := json.Marshal(n.T.s)
			sb.Write(b)
		case 'a':
			sb.WriteByte('[')
			for i, e := range n.elems {
				if i > 0 {
					sb.WriteByte(',')
				}
				walk(e)
			}
			sb.WriteByte(']')
		case 'o':
			sb.WriteByte('{')
			for i, e := range n.elems {
				if i > 0 {
					sb.WriteByte(',')
				}
				b, _ := json.Marshal(n.keys[i].s)
				sb.Write(b)
				sb.WriteByte(':')
				walk(e)
			}
			sb.WriteByte('}')
		}
	}
	walk(n)
	out := sb.String()
	if strings.HasPrefix(mode, "@indent") {
		p := strings.SplitN(strings.TrimSuffix(mode, ";"), "|", 3)
		pre, _ := strconv.Unquote(p[1])
		ind, _ := strconv.Unquote(p[2])
		var buf bytes.Buffer
		json.Indent(&buf, []byte(out), pre, ind)
		return buf.String()
	}
	if mode == "@nl;" {
		return out + "\n"
	}
	return out
}

func (tb *Table) eqJSON(p, q *Term) *Term {
	if jsonMode(p) != jsonMode(q) {
		return tb.mk(&Term{op: "=", sort: SBool, args: []*Term{p, q}})
	}
	ok := true
	var rec func(a, b *JNode) *Term
	rec = func(a, b *JNode) *Term {
		if a.kind != b.kind {
			if (a.kind == 'f' || a.kind == 'i') && (b.kind == 'f' || b.kind == 'i') {
				ok = false
			}
			return tb.False
		}
		switch a.kind {
		case 'n':
			return tb.True
		case 'b', 'i', 's':
			return tb.Eq(a.T, b.T)
		case 'f':
			return tb.Bool(a.F == b.F)
		}
		if len(a.elems) != len(b.elems) {
			return tb.False
		}
		var cs []*Term
		for i := range a.elems {
			if a.kind == 'o' {
				cs = append(cs, tb.StrEq(a.keys[i], b.keys[i]))
			}
			cs = append(cs, rec(a.elems[i], b.elems[i]))
		}
		return tb.And(cs...)
	}
	r := rec(p.aux.(*JNode), q.aux.(*JNode))
	if !ok {
		return tb.mk(&Term{op: "=", sort: SBool, args: []*Term{p, q}})
	}
	return r
}

// parseJSON parses a concrete document. The error is encoding/json's.
func (tb *Table) parseJSON(s string, stream bool) (*JNode, error) {
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	var v any
	if stream {
		if err := dec.Decode(&v); err != nil {
			return nil, err
		}
	} else {
		if err := json.Unmarshal([]byte(s), new(any)); err != nil {
			return nil, err
		}
		dec.Decode(&v)
	}
	return tb.jnodeOf(v), nil
}

func (tb *Table) jnodeOf(v any) *JNode {
	switch v := v.(type) {
	case nil:
		return &JNode{kind: 'n'}
	case bool:
		return &JNode{kind: 'b', T: tb.Bool(v)}
	case json.Number:
		if i, err := strconv.ParseInt(string(v), 10, 64); err == nil {
			return &JNode{kind: 'i', T: tb.Int(i)}
		}
		f, _ := strconv.ParseFloat(string(v), 64)
		return &JNode{kind: 'f', F: f}
	case string:
		return &JNode{kind: 's', T: tb.Str(v)}
	case []any:
		n := &JNode{kind: 'a'}
		for _, e := range v {
			n.elems = append(n.elems, tb.jnodeOf(e))
		}
		return n
	case map[string]any:
		n := &JNode{kind: 'o'}
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			n.keys = append(n.keys, tb.Str(k))
			n.elems = append(n.elems, tb.jnodeOf(v[k]))
		}
		return n
	}
	panic("jnodeOf")
}

// jsonHas: some string of the document has the text, which is neither syntax nor
// escaped. With plain, nil if a string may have characters outside it.
func (tb *Table) jsonHas(n *JNode, sub *Term, plain *CharSet) *Term {
	var cs []*Term
	in := func(t *Term) bool {
		if plain != nil {
			if t.op == "str" {
				for i := 0; i < len(t.s); i++ {
					if !plain.has(t.s[i]) {
						return false
					}
				}
			} else if t.cs == nil || !t.cs.subsetOf(plain) {
				return false
			}
		}
		cs = append(cs, tb.StrContains(t, sub))
		return true
	}
	if n.kind == 's' && !in(n.T) {
		return nil
	}
	for _, k := range n.keys {
		if !in(k) {
			return nil
		}
	}
	for _, e := range n.elems {
		c := tb.jsonHas(e, sub, plain)
		if c == nil {
			return nil
		}
		cs = append(cs, c)
	}
	return tb.Or(cs...)
}

var jsonPlain = parseClass("A-Za-z0-9 !#-%'-;=?-[]-}")

// wordIn: a word of letters and digits in a text; a capital letter of it (which
// no JSON syntax has) only occurs in the text's JSON objects. nil: do not know.
func (tb *Table) wordIn(ps []*Term, sub *Term) *Term {
	var c byte
	for i := 0; i < len(sub.s); i++ {
		b := sub.s[i]
		switch {
		case b >= 'A' && b <= 'Z':
			c = b
		case b >= 'a' && b <= 'z' || b >= '0' && b <= '9':
		default:
			return nil
		}
	}
	if c == 0 {
		return nil
	}
	var cs []*Term
	for _, p := range ps {
		switch {
		case p.op == "json" && p.aux.(*JNode).kind == 'o':
			r := tb.jsonHas(p.aux.(*JNode), sub, jsonPlain)
			if r == nil {
				return nil
			}
			cs = append(cs, r)
		case p.op == "str":
			if strings.IndexByte(p.s, c) >= 0 {
				return nil
			}
		case p.cs == nil || p.cs.has(c):
			return nil
		}
	}
	if len(cs) == 0 {
		return nil
	}
	return tb.Or(cs...)
}
