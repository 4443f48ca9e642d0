package props

import (
	"github.com/lyokato/goidc/prompt"
	"github.com/lyokato/goidc/scope"
	"vharness/nd"

	_ "vharness/prelude"
)

// words returns a string made of 1..max space-free words joined by single
// spaces: every string with at most max-1 spaces has this form.
func words(name string, max int) (string, []string) {
	n := nd.Choice(name+".n", max) + 1
	ws := make([]string, n)
	s := ""
	for i := range ws {
		ws[i] = nd.StrIn(name, "^ ", 0, -1)
		if i > 0 {
			s += " "
		}
		s += ws[i]
	}
	return s, ws
}

func member(ws []string, t string) bool {
	bs := make([]bool, len(ws))
	for i, w := range ws {
		bs[i] = w == t
	}
	return nd.Or(bs...)
}

func maxWords() int { return 3 + nd.Tier() }

func C28_scope_include() {
	s, ws := words("scope", maxWords())
	t := nd.StrIn("target", "^ ", 0, -1)
	nd.Assert(nd.Iff(scope.Include(s, t), member(ws, t)), "Include(scopes, target) iff target is one of the words")
	nd.Assert(nd.Iff(scope.IncludeOpenID(s), member(ws, "openid")), "IncludeOpenID iff openid is a word")
	nd.Assert(nd.Iff(scope.IncludeOfflineAccess(s), member(ws, "offline_access")), "IncludeOfflineAccess iff offline_access is a word")
	nd.Reach("done")
}

// C28_scope_all: the all-of test over a list of targets.
func C28_scope_all() {
	s, ws := words("scope", maxWords())
	k := nd.Choice("targets.n", 3)
	ts := make([]string, k)
	for i := range ts {
		ts[i] = nd.StrIn("target", "^ ", 0, -1)
	}
	ok, missing := scope.IncludeAll(s, ts)
	in := make([]bool, k)
	for i := range ts {
		in[i] = member(ws, ts[i])
	}
	nd.Assert(nd.Iff(ok, nd.And(in...)), "IncludeAll(scopes, targets) iff every target is a word")
	if !ok {
		cs := []bool{}
		for i := range ts {
			cs = append(cs, nd.And(append([]bool{nd.Not(in[i]), missing == ts[i]}, in[:i]...)...))
		}
		nd.Assert(nd.Or(cs...), "IncludeAll names the first target that is not a word")
		nd.Reach("missing")
	} else {
		nd.Reach("all")
	}
	ok2, missing2 := prompt.IncludeAll(s, ts)
	nd.Assert(nd.And(nd.Iff(ok2, ok), nd.Or(ok2, missing2 == missing)), "prompt.IncludeAll agrees with the specification of the all-of test")
}

func joinWhere(ws []string, t string) string {
	out := ""
	first := true
	for _, w := range ws {
		if w == t {
			continue
		}
		if !first {
			out += " "
		}
		first = false
		out += w
	}
	return out
}

func C28_scope_remove() {
	s, ws := words("scope", maxWords())
	t := nd.StrIn("target", "^ ", 0, -1)
	nd.Assert(scope.Remove(s, t) == joinWhere(ws, t), "Remove drops exactly the words equal to the target and keeps the others in order")
	nd.Reach("done")
}

func C28_scope_remove_named() {
	s, ws := words("scope", maxWords())
	if nd.Bool("openid") {
		nd.Assert(scope.RemoveOpenID(s) == joinWhere(ws, "openid"), "RemoveOpenID drops exactly the openid words")
	} else {
		nd.Assert(scope.RemoveOfflineAccess(s) == joinWhere(ws, "offline_access"), "RemoveOfflineAccess drops exactly the offline_access words")
	}
	nd.Reach("done")
}

func setLeq(a, b []string) bool {
	cs := make([]bool, len(a))
	for i := range a {
		cs[i] = member(b, a[i])
	}
	return nd.And(cs...)
}

func distinct(a []string) bool {
	var cs []bool
	for i := range a {
		for j := 0; j < i; j++ {
			cs = append(cs, a[i] != a[j])
		}
	}
	return nd.And(cs...)
}

// samePerm: b is a permutation of a (equal multisets).
func samePerm(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	var alts []bool
	var rec func(i int, used int, cs []bool)
	rec = func(i int, used int, cs []bool) {
		if i == len(a) {
			alts = append(alts, nd.And(cs...))
			return
		}
		for j := range b {
			if used&(1<<j) == 0 {
				rec(i+1, used|1<<j, append(append([]bool{}, cs...), a[i] == b[j]))
			}
		}
	}
	rec(0, 0, nil)
	return nd.Or(alts...)
}

// C28_scope_same: equal up to order. Scopes that repeat a word differently
// (equal as sets, not as multisets) are left open.
func C28_scope_same() {
	a, as := words("a", 3)
	b, bs := words("b", 3)
	got := scope.Same(a, b)
	if samePerm(as, bs) {
		nd.Assert(got, "Same holds for scopes that are reorderings of each other")
		nd.Reach("same")
	} else if !nd.And(setLeq(as, bs), setLeq(bs, as)) {
		nd.Assert(!got, "Same fails for scopes with different words")
		nd.Reach("different")
	}
}

func C28_prompt() {
	s, ws := words("prompt", maxWords())
	t := nd.StrIn("target", "^ ", 0, -1)
	nd.Assert(nd.Iff(prompt.Include(s, t), member(ws, t)), "prompt.Include iff the target is one of the words")
	nd.Assert(nd.Iff(prompt.IncludeNone(s), member(ws, "none")), "IncludeNone iff none is a word")
	nd.Assert(nd.Iff(prompt.IncludeLogin(s), member(ws, "login")), "IncludeLogin iff login is a word")
	nd.Assert(nd.Iff(prompt.IncludeConsent(s), member(ws, "consent")), "IncludeConsent iff consent is a word")
	nd.Assert(nd.Iff(prompt.IncludeSelectAccount(s), member(ws, "select_account")), "IncludeSelectAccount iff select_account is a word")
	nd.Reach("done")
}

func C28_prompt_validate() {
	s, ws := words("prompt", maxWords())
	var known, none, other []bool
	for _, w := range ws {
		o := nd.Or(w == "login", w == "consent", w == "select_account")
		known = append(known, nd.Or(w == "none", o))
		none = append(none, w == "none")
		other = append(other, o)
	}
	valid := nd.And(nd.And(known...), nd.Not(nd.And(nd.Or(none...), nd.Or(other...))))
	nd.Assert(nd.Iff(prompt.Validate(s), valid), "a prompt is valid iff every word is known and none stands without the others")
	nd.Reach("done")
}

// C28_unicode: only the ASCII space separates words, and words are compared
// byte by byte.
func C28_unicode() {
	odd := []string{"a\u00a0openid", "openid\u2003none\u0085", "\u3000login", "\uff4fpenid", "openid\xff", "\u212a"}[nd.Choice("odd", 6)]
	s, ws := words("scope", 2)
	if nd.Bool("first") {
		s, ws = odd+" "+s, append([]string{odd}, ws...)
	} else {
		s, ws = s+" "+odd, append(ws, odd)
	}
	t := odd
	if k := nd.Choice("target", 5); k > 0 {
		t = []string{"a", "openid", "none", "K"}[k-1]
	}
	nd.Assert(nd.Iff(scope.Include(s, t), member(ws, t)), "Include(scopes, target) iff target is one of the words")
	nd.Assert(nd.Iff(prompt.Include(s, t), member(ws, t)), "prompt.Include iff the target is one of the words")
	ok, _ := scope.IncludeAll(s, []string{t})
	nd.Assert(nd.Iff(ok, member(ws, t)), "IncludeAll(scopes, targets) iff every target is a word")
	nd.Assert(scope.Remove(s, t) == joinWhere(ws, t), "Remove drops exactly the words equal to the target and keeps the others in order")
	nd.Assert(nd.Iff(scope.IncludeOpenID(s), member(ws, "openid")), "IncludeOpenID iff openid is a word")
	nd.Assert(!prompt.Validate(s), "a prompt is valid iff every word is known and none stands without the others")
	nd.Assert(scope.Same(s, ws[len(ws)-1]+" "+joinWhere(ws[:len(ws)-1], " ")), "Same holds for scopes that are reorderings of each other")
	nd.Reach("done")
}
