package props

import (
	"strconv"

	oer "github.com/lyokato/goidc/oauth_error"
	"vharness/nd"
)

type param struct{ k, v string }

// parseChallenge reads a bearer challenge as RFC 7235 defines it: the scheme
// and comma separated name="quoted string" parameters. Values are unquoted
// with Go's rules (what the library quotes with).
func parseChallenge(h string) ([]param, bool) {
	const scheme = "Bearer "
	for i := 0; i < len(h); i++ {
		if h[i] < ' ' || h[i] == 0x7f {
			return nil, false
		}
	}
	if len(h) < len(scheme) || h[:len(scheme)] != scheme {
		return nil, false
	}
	i := len(scheme)
	var out []param
	for {
		a := i
		for i < len(h) && (h[i] >= 'a' && h[i] <= 'z' || h[i] == '_') {
			i++
		}
		if a == i || i+1 >= len(h) || h[i] != '=' || h[i+1] != '"' {
			return nil, false
		}
		k := h[a:i]
		b := i + 1
		i += 2
		for i < len(h) && h[i] != '"' {
			if h[i] == '\\' {
				i++
			}
			i++
		}
		if i >= len(h) {
			return nil, false
		}
		i++
		v, err := strconv.Unquote(h[b:i])
		if err != nil {
			return nil, false
		}
		out = append(out, param{k, v})
		if i == len(h) {
			return out, true
		}
		if h[i] != ',' {
			return nil, false
		}
		for i++; i < len(h) && h[i] == ' '; i++ {
		}
	}
}

var errTypes = []oer.OAuthErrorType{
	oer.ErrAccessDenied, oer.ErrInvalidClient, oer.ErrInvalidGrant, oer.ErrInvalidRequest, oer.ErrInvalidScope,
	oer.ErrUnauthorizedClient, oer.ErrUnsupportedGrantType, oer.ErrUnsupportedResponseType, oer.ErrServerError,
	oer.ErrTemporarilyUnavailable, oer.ErrInvalidToken, oer.ErrInsufficientScope, oer.ErrInteractionRequired,
	oer.ErrLoginRequired, oer.ErrAccountSelectionRequired, oer.ErrConsentRequired, oer.ErrInvalidRequestURI,
	oer.ErrInvalidRequestObject, oer.ErrRequestNotSupported, oer.ErrRequestURINotSupported, oer.ErrRegistrationNotSupported,
}

func checkChallenge(h, realm, code, desc, uri string) {
	got, ok := parseChallenge(h)
	nd.Assert(ok, "the challenge is a well-formed list of quoted parameters on one line")
	if !ok {
		return
	}
	var want []param
	for _, p := range []param{{"realm", realm}, {"error", code}, {"error_description", desc}, {"error_uri", uri}} {
		if p.v != "" || p.k == "error" {
			want = append(want, p)
		}
	}
	same := len(got) == len(want)
	if same {
		for i := range want {
			same = nd.And(same, got[i].k == want[i].k, got[i].v == want[i].v)
		}
	}
	nd.Assert(same, "the parameters unquote to exactly the original texts")
}

// C15_text: one text is an arbitrary byte string, the others are fixed ones
// with every critical character, or empty.
func C15_text() {
	nd.RealStd()
	x := nd.BytesIn("text", "\x00-\x7f", 3+nd.Tier())
	const evil = "a\"\\\r\n, error=\"x\x7f\x00"
	f := []string{"", evil}[nd.Choice("fixed", 2)]
	fixed := func() string { return f }
	realm, desc, uri := "", "", ""
	switch nd.Choice("which", 3) {
	case 0:
		realm, desc, uri = x, fixed(), fixed()
	case 1:
		realm, desc, uri = fixed(), x, fixed()
	case 2:
		realm, desc, uri = fixed(), fixed(), x
	}
	h := oer.NewOAuthDetailedError(oer.ErrInvalidToken, desc, uri).Header(realm)
	checkChallenge(h, realm, "invalid_token", desc, uri)
	nd.Reach("done")
}

// C15_unicode: bytes outside ASCII.
func C15_unicode() {
	nd.RealStd()
	x := nd.BytesIn("text", "\\\\\"\x80-\xff", 2+nd.Tier())
	h := oer.NewOAuthDetailedError(oer.ErrInvalidToken, x, "u").Header("r")
	checkChallenge(h, "r", "invalid_token", x, "u")
	nd.Reach("done")
}

// C15_all: all error types and texts of any length; quoting is abstract here.
func C15_all() {
	t := errTypes[nd.Choice("type", len(errTypes))]
	realm, desc, uri := nd.Str("realm"), nd.Str("desc"), nd.Str("uri")
	h := oer.NewOAuthDetailedError(t, desc, uri).Header(realm)
	want := "Bearer "
	if realm != "" {
		want += "realm=" + strconv.Quote(realm) + ", "
	}
	want += "error=" + strconv.Quote(t.String())
	if desc != "" {
		want += ", error_description=" + strconv.Quote(desc)
	}
	if uri != "" {
		want += ", error_uri=" + strconv.Quote(uri)
	}
	nd.Assert(h == want, "the challenge carries exactly the given texts")
	nd.Reach("done")
}
