package props

import (
	"net/http"
	"net/url"
	"sort"
	"strconv"

	"github.com/lyokato/goidc"
	"vharness/nd"
)

// shown is all that the one who sent the request gets to see.
func (s *step) shown() string {
	o := strconv.Itoa(s.w.status) + " " + strconv.FormatBool(s.ret)
	var ks []string
	for k := range s.w.snap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, v := range s.w.snap[k] {
			o += "\n" + k + ": " + v
		}
	}
	return o + "\n\n" + s.w.body
}

// same: the request is refused, with one answer in both worlds.
func (sv *server) same(s *step, world func(exists bool)) {
	request := func() *http.Request {
		r := *s.r
		r.Header = s.r.Header.Clone()
		return &r
	}
	run := func(exists bool) string {
		s.r = request()
		world(exists)
		sv.handle(s)
		return s.shown()
	}
	not := nd.Alone(func() string { return run(false) })
	yes := run(true)
	nd.Assert(yes == not, "the answer does not tell whether it exists")
	nd.Assert(s.w.status >= 400 && !s.ret, "the request is refused")
	nd.Reach("status " + strconv.Itoa(s.w.status))
}

// granting is a token request of the grant type with credentials.
func granting(gt string) (*step, url.Values, string) {
	s := newStepAt("a", kToken)
	b := url.Values{}
	b.Set("grant_type", gt)
	s.d.client.secret = nd.StrIn("secret", textClass, 1, -1)
	word := func(k string) {
		if v := nd.StrIn(k, textClass, 0, -1); v != "" {
			b.Set(k, v)
		}
	}
	switch gt {
	case "authorization_code":
		word("code")
		word("redirect_uri")
		word("code_challenge")
		b.Set("code_challenge_method", []string{"plain", "S256", "x"}[nd.Choice("method", 3)])
	case "refresh_token":
		word("refresh_token")
	case "password":
		word("username")
		word("password")
		word("scope")
	case "client_credentials":
		word("scope")
	default:
		b.Set("assertion", hsToken("sub", "https://op", s.now+10, "k"))
		s.d.client.assertKey = func(alg, kid string) interface{} { return []byte("k") }
	}
	return s, b, nd.StrIn("client", "a-z", 1, -1)
}

var grantNames = []string{"authorization_code", "refresh_token", "password", "client_credentials", "urn:ietf:params:oauth:grant-type:jwt-bearer"}

// C47_client: an unknown client and a wrong secret.
func C47_client() {
	s, b, id := granting(grantNames[nd.Choice("grant", len(grantNames))])
	given := nd.StrIn("given", textClass, 0, -1)
	nd.Assume(given != s.d.client.secret)
	hdr := nd.Bool("header")
	if !hdr {
		b.Set("client_id", id)
		b.Set("client_secret", given)
	}
	s.r = newReq("POST", "/token", b, nil)
	if hdr {
		s.r.Header.Set("Authorization", basicHeader(id, given))
	}
	newServer(c33Policy()).same(s, func(exists bool) {
		s.d.missing = "FindClientById"
		if exists {
			s.d.missing = ""
			s.d.client.grants = func(string) bool { return nd.Bool("may") }
		}
	})
}

// known: the request is that of a client with the right secret.
func (s *step) known(b url.Values, id string) {
	s.r = newReq("POST", "/token", b, nil)
	s.r.Header.Set("Authorization", basicHeader(id, s.d.client.secret))
}

// C47_code: an unknown code, and a good one of another client, or one whose
// authorization is gone, or which was used at the same time.
func C47_code() {
	s, b, id := granting("authorization_code")
	s.known(b, id)
	s.d.sess = newSession()
	if !nd.Bool("hashed") {
		s.d.sess.code = b.Get("code")
	}
	other := nd.Choice("other", 3)
	if other == 0 {
		nd.Assume(s.d.info.clientId != id)
	} else {
		s.d.info.clientId = id
	}
	// which of several defects of a code is named is left open
	nd.Assume(nd.And(s.d.sess.uri == b.Get("redirect_uri"), nd.And(s.d.sess.created+s.d.sess.exp >= s.now, s.d.sess.verifier == "")))
	newServer(c33Policy()).same(s, func(exists bool) {
		s.d.missing = "FindAuthSessionByCode"
		if exists {
			s.d.missing = []string{"", "FindActiveAuthInfoById", "DisableSession"}[other]
		}
	})
}

// C47_refresh: an unknown refresh token, and a live one of another client, or
// one whose authorization is gone.
func C47_refresh() {
	s, b, id := granting("refresh_token")
	s.known(b, id)
	nd.Assume(s.d.oldTok.refExp+s.d.oldTok.created >= s.now)
	if !nd.Bool("hashed") {
		s.d.oldTok.refresh = b.Get("refresh_token")
	}
	gone := nd.Bool("gone")
	nd.Assume(nd.Or(gone, s.d.info.clientId != id))
	newServer(c33Policy()).same(s, func(exists bool) {
		s.d.missing = "FindOAuthTokenByRefreshToken"
		if exists {
			s.d.missing = ""
			if gone {
				s.d.missing = "FindActiveAuthInfoById"
			}
		}
	})
}

// C47_user: a wrong user name or password, and a user who may not use the client.
func C47_user() {
	s, b, id := granting("password")
	s.known(b, id)
	newServer(c33Policy()).same(s, func(exists bool) {
		s.d.missing = "FindUserId"
		if exists {
			s.d.missing = "CreateOrUpdateAuthInfo"
		}
	})
}

// C47_token: an unknown access token, and a live one whose authorization is
// gone.
func C47_token() {
	s := newStepAt("a", kResource)
	b := url.Values{}
	hdr := nd.Bool("header")
	tok := nd.StrIn("token", "a-z", 0, -1)
	if !hdr {
		b.Set("access_token", tok)
	}
	s.r = newReq("POST", "/resource", b, nil)
	if hdr {
		s.r.Header.Set("Authorization", "Bearer "+tok)
	}
	if !nd.Bool("hashed") {
		s.d.oldTok.access = tok
	}
	nd.Assume(s.d.oldTok.accessExp+s.d.oldTok.refreshed >= s.now)
	newServer(c33Policy(), func(sv *server, te *goidc.TokenEndpoint) { sv.rp.AcceptAccessToken(goidc.FromHeaderAndPostBody) }).same(s, func(exists bool) {
		s.d.missing = "FindOAuthTokenByAccessToken"
		if exists {
			s.d.missing = "FindActiveAuthInfoById"
		}
	})
}
