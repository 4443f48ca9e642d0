package props

import (
	"strings"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"vharness/nd"
)

func sameRequest(a, b *authorization.Request) bool {
	if b == nil || (a.Flow == nil) != (b.Flow == nil) {
		return false
	}
	ok := true
	if a.Flow != nil {
		ok = nd.And(a.Flow.Type == b.Flow.Type, a.Flow.RequireAccessToken == b.Flow.RequireAccessToken, a.Flow.RequireIdToken == b.Flow.RequireIdToken)
	}
	return nd.And(ok, a.ClientId == b.ClientId, a.Scope == b.Scope, a.RedirectURI == b.RedirectURI, a.ResponseMode == b.ResponseMode,
		a.State == b.State, a.CodeVerifier == b.CodeVerifier, a.Nonce == b.Nonce, a.Display == b.Display, a.Prompt == b.Prompt,
		a.MaxAge == b.MaxAge, a.UILocale == b.UILocale, a.IdTokenHint == b.IdTokenHint, a.LoginHint == b.LoginHint)
}

func symRequest(cls string, max int, bytes bool) *authorization.Request {
	str := func(n string) string {
		if bytes {
			return nd.BytesIn(n, cls, max)
		}
		return nd.StrIn(n, cls, 0, max)
	}
	r := &authorization.Request{}
	for i, f := range []*string{&r.ClientId, &r.Scope, &r.RedirectURI, &r.ResponseMode, &r.State, &r.CodeVerifier, &r.Nonce, &r.Display, &r.Prompt, &r.UILocale, &r.IdTokenHint, &r.LoginHint} {
		*f = str("field" + string(rune('a'+i)))
	}
	return r
}

// C27_roundtrip: every request with ASCII fields of any length.
func C27_roundtrip() {
	r := symRequest("", -1, false)
	r.MaxAge = nd.Int("max_age", -1<<62, 1<<62)
	if k := nd.Choice("flow", 5); k < 4 {
		r.Flow = &flow.Flow{Type: flow.FlowType(k), RequireAccessToken: nd.Bool("tok"), RequireIdToken: nd.Bool("idt")}
	}
	e := r.Encode()
	nd.Assert(e != "" && !strings.ContainsAny(e, "+/?&#% \"<>"), "the encoded form is URL-safe")
	nd.Assert(sameRequest(r, authorization.DecodeRequest(e)), "decoding gives the same request")
	nd.Reach("done")
}

// C27_unicode: a field of text that is not ASCII.
func C27_unicode() {
	r := symRequest("", -1, false)
	fs := []*string{&r.ClientId, &r.Scope, &r.RedirectURI, &r.ResponseMode, &r.State, &r.CodeVerifier, &r.Nonce, &r.Display, &r.Prompt, &r.UILocale, &r.IdTokenHint, &r.LoginHint}
	*fs[nd.Choice("field", len(fs))] = unicodeTexts[nd.Choice("text", len(unicodeTexts))]
	r.Flow = &flow.Flow{Type: flow.Hybrid}
	nd.Assert(sameRequest(r, authorization.DecodeRequest(r.Encode())), "decoding gives the same request")
	nd.Reach("done")
}
