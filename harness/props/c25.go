package props

import (
	"net/url"

	"github.com/lyokato/goidc/authorization"
	"vharness/nd"
)

// parseParams reads application/x-www-form-urlencoded text, and rejects
// everything an encoder does not produce.
func parseParams(s string) ([]param, bool) {
	var out []param
	if s == "" {
		return nil, true
	}
	unhex := func(b byte) int {
		switch {
		case b >= '0' && b <= '9':
			return int(b - '0')
		case b >= 'A' && b <= 'F':
			return int(b-'A') + 10
		case b >= 'a' && b <= 'f':
			return int(b-'a') + 10
		}
		return -1
	}
	p := param{}
	var cur []byte
	inVal := false
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '&' {
			if !inVal {
				return nil, false
			}
			p.v = string(cur)
			out = append(out, p)
			p, cur, inVal = param{}, nil, false
			continue
		}
		switch b := s[i]; {
		case b == '=' && !inVal:
			p.k, cur, inVal = string(cur), nil, true
		case b == '+':
			cur = append(cur, ' ')
		case b == '%':
			if i+2 >= len(s) {
				return nil, false
			}
			h, l := unhex(s[i+1]), unhex(s[i+2])
			if h < 0 || l < 0 {
				return nil, false
			}
			cur = append(cur, byte(h<<4|l))
			i += 2
		case b <= ' ' || b >= 0x7f || b == '#' || b == ';' || b == '"' || b == '<' || b == '>' || b == '=':
			return nil, false
		default:
			cur = append(cur, b)
		}
	}
	return out, true
}

func sameParams(a, b []param) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(a))
	for _, x := range a {
		found := false
		for j, y := range b {
			if !found && !used[j] && x.k == y.k {
				if x.v != y.v {
					return false
				}
				used[j], found = true, true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// location: the redirect to uri with exactly the parameters in the component of the mode.
func checkLocation(w *recorder, mode, uri string, want []param) {
	loc := w.get("Location")
	nd.Assert(w.status == 302, "the answer is a redirect")
	ok := len(loc) >= len(uri) && loc[:len(uri)] == uri
	nd.Assert(ok, "the Location starts with the redirect URI")
	if !ok {
		return
	}
	rest := loc[len(uri):]
	if mode == "fragment" {
		ok = len(rest) > 0 && rest[0] == '#'
		nd.Assert(ok, "the parameters are in the fragment")
		if !ok {
			return
		}
		rest = rest[1:]
	} else {
		q := -1
		for i := 0; i < len(uri); i++ {
			if uri[i] == '?' {
				q = i
				break
			}
		}
		if q != len(uri)-1 {
			sep := byte('?')
			if q >= 0 {
				sep = '&'
			}
			ok = len(rest) > 0 && rest[0] == sep
			nd.Assert(ok, "the parameters are in the query, next to an existing one")
			if !ok {
				return
			}
			rest = rest[1:]
		}
	}
	got, ok := parseParams(rest)
	nd.Assert(ok && sameParams(got, want), "the component parses to exactly the given parameters")
}

// c25URI: fixed URIs, or one with an arbitrary query (then the values are fixed).
func c25URI() (uri, value string) {
	k := nd.Choice("uri", 8)
	if k == 7 {
		return "https://h/p?" + nd.BytesIn("query", "!$-;=?-Z_a-z~", 3+nd.Tier()), "v w"
	}
	return []string{"https://h/p", "https://h/p?", "https://h/p?a=b&c", "https://h/%zz", "https://h/%zz?", "https://h/%zz?a=b", "app:/p"}[k],
		nd.BytesIn("value", "\x00-\xff", 3+nd.Tier())
}

// C25_bytes: the real encoders, one parameter is an arbitrary byte string.
func C25_bytes() {
	nd.RealStd()
	mode := []string{"query", "fragment"}[nd.Choice("mode", 2)]
	uri, x := c25URI()
	const evil = "a&b=c#d?e+f%41\r\n\xff "
	w := newRecorder()
	r := consentReq()
	h := authorization.ResponseHandlerForMode(mode, w, r)
	var want []param
	switch nd.Choice("kind", 4) {
	case 0:
		h.Success(uri, map[string]string{"code": x, "state": evil})
		want = []param{{"code", x}, {"state", evil}}
	case 1:
		h.Success(uri, map[string]string{"state": x})
		want = []param{{"state", x}}
	case 2:
		h.Error(uri, "invalid_request", x, evil)
		want = []param{{"error", "invalid_request"}, {"error_description", x}, {"state", evil}}
		if x == "" {
			want = []param{want[0], want[2]}
		}
	case 3:
		h.Error(uri, "invalid_request", "", x)
		want = []param{{"error", "invalid_request"}, {"state", x}}
		if x == "" {
			want = want[:1]
		}
	}
	checkLocation(w, mode, uri, want)
	nd.Reach(mode)
}

// C25_any: values and URIs of any length; the encoders are abstract here.
func C25_any() {
	mode := []string{"query", "fragment", "", "other"}[nd.Choice("mode", 4)]
	base := "https://h/" + nd.StrIn("path", "A-Za-z0-9", 0, -1)
	uri, conn := base, "?"
	switch nd.Choice("uri", 3) {
	case 1:
		uri, conn = base+"?", ""
	case 2:
		uri, conn = base+"?x="+nd.StrIn("query", "A-Za-z0-9", 0, -1), "&"
	}
	if mode == "fragment" {
		conn = "#"
	}
	a, b, c := nd.Str("a"), nd.Str("b"), nd.Str("c")
	w := newRecorder()
	r := consentReq()
	h := authorization.ResponseHandlerForMode(mode, w, r)
	var want url.Values
	if nd.Choice("kind", 2) == 0 {
		h.Success(uri, map[string]string{"code": a, "state": b, "scope": c})
		want = url.Values{"code": {a}, "state": {b}, "scope": {c}}
	} else {
		h.Error(uri, a, b, c)
		want = url.Values{"error": {a}}
		if b != "" {
			want.Set("error_description", b)
		}
		if c != "" {
			want.Set("state", c)
		}
	}
	nd.Assert(w.status == 302, "the answer is a redirect")
	nd.Assert(w.get("Location") == uri+conn+want.Encode(), "the Location is the redirect URI followed by exactly the encoded parameters")
	nd.Reach("done")
}
