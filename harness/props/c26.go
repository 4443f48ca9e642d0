package props

import (
	"html"
	"strconv"
	"strings"

	"github.com/lyokato/goidc/authorization"
	"vharness/nd"
)

type tag struct {
	name  string
	attrs []param
}

func (t *tag) attr(k string) (string, bool) {
	for _, a := range t.attrs {
		if a.k == k {
			return a.v, true
		}
	}
	return "", false
}

func lower(b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b + 32
	}
	return b
}

// unescapeHTML decodes the character references an escaper produces; any other & is an error.
func unescapeHTML(s string) (string, bool) {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '&' {
			out = append(out, s[i])
			continue
		}
		ok := false
		for _, e := range []param{{"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&#34;", `"`}, {"&#39;", "'"}, {"&quot;", `"`}, {"&apos;", "'"}, {"&#x27;", "'"}, {"&#x22;", `"`}} {
			if i+len(e.k) <= len(s) && s[i:i+len(e.k)] == e.k {
				out = append(out, e.v[0])
				i += len(e.k) - 1
				ok = true
				break
			}
		}
		if !ok {
			return "", false
		}
	}
	return string(out), true
}

// parseHTML splits a document into its tags.
func parseHTML(s string) ([]tag, bool) {
	var out []tag
	i := 0
	for {
		for i < len(s) && s[i] != '<' {
			i++
		}
		if i == len(s) {
			return out, true
		}
		i++
		t := tag{}
		a := i
		for i < len(s) && s[i] != ' ' && s[i] != '>' && s[i] != '"' && s[i] != '<' {
			i++
		}
		t.name = s[a:i]
		for {
			for i < len(s) && s[i] == ' ' {
				i++
			}
			if i == len(s) {
				return nil, false
			}
			if s[i] == '/' {
				i++
				continue
			}
			if s[i] == '>' {
				i++
				break
			}
			a = i
			for i < len(s) && (lower(s[i]) >= 'a' && lower(s[i]) <= 'z') {
				i++
			}
			if a == i || i+1 >= len(s) || s[i] != '=' || s[i+1] != '"' {
				return nil, false
			}
			k := s[a:i]
			i += 2
			a = i
			for i < len(s) && s[i] != '"' {
				i++
			}
			if i == len(s) {
				return nil, false
			}
			v, ok := unescapeHTML(s[a:i])
			if !ok {
				return nil, false
			}
			for _, o := range t.attrs {
				if o.k == k {
					return nil, false
				}
			}
			t.attrs = append(t.attrs, param{k, v})
			i++
		}
		out = append(out, t)
	}
}

// formOf reads an auto-submitting form document.
func formOf(doc string) (action string, fields []param, ok bool) {
	ts, ok := parseHTML(doc)
	if !ok {
		return
	}
	ok = false
	auto, open, forms := false, false, 0
	for i := range ts {
		t := &ts[i]
		switch strings.ToLower(t.name) {
		case "html", "/html", "head", "/head", "title", "/title", "/body":
			if len(t.attrs) > 0 {
				return
			}
		case "body":
			v, _ := t.attr("onload")
			auto = strings.Contains(v, "submit()") && len(t.attrs) == 1
		case "form":
			m, _ := t.attr("method")
			a, has := t.attr("action")
			if open || forms > 0 || !has || strings.ToLower(m) != "post" || len(t.attrs) != 2 {
				return
			}
			action, open = a, true
			forms++
		case "/form":
			open = false
		case "input":
			n, hn := t.attr("name")
			v, hv := t.attr("value")
			ty, _ := t.attr("type")
			if !open || !hn || !hv || ty != "hidden" || len(t.attrs) != 3 {
				return
			}
			fields = append(fields, param{n, v})
		default:
			return
		}
	}
	ok = auto && forms == 1 && !open
	return
}

func formHeaders(w *recorder) bool {
	return w.status == 200 && strings.HasPrefix(w.get("Content-Type"), "text/html") &&
		strings.Contains(w.get("Cache-Control"), "no-store") && w.get("Pragma") == "no-cache"
}

// C26_bytes: URI or one value is an arbitrary byte string.
func C26_bytes() {
	nd.RealStd()
	const evil = "\"><script>'&amp;<input name=\"x\" value=\"y\">&#34;"
	uri := "https://h/p?a=b&c=" + evil
	x := ""
	const anyByte = "\x00-\xff"
	k := nd.Choice("kind", 5)
	if k == 4 {
		uri = "https://h/" + nd.BytesIn("uri", anyByte, 4+nd.Tier())
	} else {
		x = nd.BytesIn("value", anyByte, 4+nd.Tier())
	}
	w := newRecorder()
	h := authorization.ResponseHandlerForMode("form_post", w, newReq("GET", "/a", nil, nil))
	var want []param
	switch k {
	case 0, 4:
		h.Success(uri, map[string]string{"code": x, "state": evil})
		want = []param{{"code", x}, {"state", evil}}
	case 1:
		h.Success(uri, map[string]string{"state": x})
		want = []param{{"state", x}}
	case 2:
		h.Error(uri, "invalid_request", x, evil)
		want = []param{{"error", "invalid_request"}, {"error_description", x}, {"state", evil}}
		if x == "" {
			want = []param{want[0], want[2]}
		}
	case 3:
		h.Error(uri, "invalid_request", evil, x)
		want = []param{{"error", "invalid_request"}, {"error_description", evil}, {"state", x}}
		if x == "" {
			want = want[:2]
		}
	}
	nd.Assert(formHeaders(w), "the document is served as HTML with caching disabled")
	action, fields, ok := formOf(w.body)
	nd.Assert(ok, "the document is one auto-submitting form")
	if ok {
		nd.Assert(action == uri, "the form posts to exactly the redirect URI")
		nd.Assert(sameParams(fields, want), "the form posts exactly the given parameters")
	}
	nd.Reach("done")
}

// splitForm reads the document with the attribute values kept as they are
// (of any length, escaped abstractly).
func splitForm(doc string) (action string, fields []param, ok bool) {
	parts := strings.Split(doc, `"`)
	if len(parts)%2 == 0 {
		return
	}
	skeleton := ""
	for i, p := range parts {
		if i%2 == 1 {
			if m := parts[i-1]; strings.HasSuffix(m, "value=") || strings.HasSuffix(m, "action=") {
				p = strconv.Itoa(i)
			}
			p = `"` + p + `"`
		}
		skeleton += p
	}
	value := func(n string) (string, bool) {
		i, err := strconv.Atoi(n)
		if err != nil {
			return "", false
		}
		return html.UnescapeString(parts[i]), true
	}
	action, fields, ok = formOf(skeleton)
	if !ok {
		return
	}
	action, ok = value(action)
	for i := range fields {
		var k bool
		fields[i].v, k = value(fields[i].v)
		ok = ok && k
	}
	return
}

// C26_any: values and URI of any length; escaping is abstract here.
func C26_any() {
	uri := nd.Str("uri")
	a, b, c := nd.Str("a"), nd.Str("b"), nd.Str("c")
	w := newRecorder()
	h := authorization.ResponseHandlerForMode("form_post", w, newReq("GET", "/a", nil, nil))
	var want []param
	if nd.Choice("kind", 2) == 0 {
		h.Success(uri, map[string]string{"code": a, "state": b, "scope": c})
		want = []param{{"code", a}, {"state", b}, {"scope", c}}
	} else {
		h.Error(uri, a, b, c)
		want = []param{{"error", a}}
		if b != "" {
			want = append(want, param{"error_description", b})
		}
		if c != "" {
			want = append(want, param{"state", c})
		}
	}
	nd.Assert(formHeaders(w), "the document is served as HTML with caching disabled")
	action, fields, ok := splitForm(w.body)
	nd.Assert(ok, "the document is one form")
	if ok {
		nd.Assert(action == uri, "the form posts to exactly the redirect URI")
		nd.Assert(sameParams(fields, want), "the form posts exactly the given parameters")
	}
	nd.Reach("done")
}
