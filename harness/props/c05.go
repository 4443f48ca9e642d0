package props

import (
	"net/url"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	"vharness/nd"
)

// C05_disable: a token response only after the session was disabled.
func C05_disable() {
	c := newTok(grant.AuthorizationCode(), "redirect_uri", "code", "code_challenge", "code_challenge_method")
	d := c.d
	d.n["CreateOAuthToken"] = 5
	d.n["DisableSession"] = 4
	scp, _ := symScope("info.scope")
	d.info = newInfo(scp)
	d.sess = newSession()
	d.token = newToken("new")
	if nd.Bool("badkey") {
		d.client.key = 5
	}
	c.run()
	if isTokenResponse(c.w) {
		x := d.find("DisableSession")
		nd.Assert(x != nil && x.ans == ansOK && d.count("DisableSession") == 1, "a token response follows a confirmed disabling")
		nd.Assert(x != nil && x.o == interface{}(bridge.AuthSession(d.sess)), "the session disabled is the one looked up")
		nd.Reach("token")
		return
	}
	nd.Assert(oauthError(c.w) != "" && !leaks(c.w), "without a confirmed disabling there is an error and no token value")
	if x := d.find("DisableSession"); x != nil && x.ans != ansOK {
		nd.Reach("disable failed")
	} else {
		nd.Reach("other failure")
	}
}

// codeStore is a store that honours disabling.
type codeStore struct {
	di
	sessions []*symSession
	disabled []bool
	issued   []int // tokens handed out per session, as the client sees them
	depth    int
	before   func(op string)
}

func (s *codeStore) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	s.before("find")
	for i, x := range s.sessions {
		if !s.disabled[i] && x.code == code {
			return x, nil
		}
	}
	return nil, bridge.NewError(bridge.ErrFailed)
}

func (s *codeStore) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	s.before("info")
	return s.info, nil
}

func (s *codeStore) CreateOAuthToken(info bridge.AuthInfo, te bool) (bridge.OAuthToken, *bridge.Error) {
	s.before("create")
	return s.token, nil
}

func (s *codeStore) DisableSession(x bridge.AuthSession) *bridge.Error {
	s.before("disable")
	for i, y := range s.sessions {
		if x == bridge.AuthSession(y) && !s.disabled[i] {
			s.disabled[i] = true
			return nil
		}
	}
	return bridge.NewError(bridge.ErrFailed)
}

func newCodeStore() *codeStore {
	s := &codeStore{di: *newDI(), before: func(string) {}}
	s.client = &symClient{alg: "HS256", key: []byte("k")}
	s.issuer = "https://op"
	s.info = &symInfo{clientId: "c", scope: []string{"", "openid", "a openid"}[nd.Choice("scope", 3)]}
	s.token = &symToken{access: "~", accessExp: 5}
	for i := 0; i < 2; i++ {
		s.sessions = append(s.sessions, &symSession{code: nd.Str("sess.code"), uri: nd.Str("sess.uri"), created: nd.Int("sess.created", 0, maxTime), exp: nd.Int("sess.exp", 0, maxTime)})
	}
	s.disabled = make([]bool, 2)
	nd.Assume(s.sessions[0].code != s.sessions[1].code)
	return s
}

func (s *codeStore) attempt(te *goidc.TokenEndpoint, code string) *recorder {
	body := url.Values{"grant_type": {"authorization_code"}, "code": {code}, "redirect_uri": {nd.Str("uri")}}
	r := newReq("POST", "/token", body, nil)
	r.Header.Set("Authorization", basicHeader("c", ""))
	w := newRecorder()
	te.Handler(s)(w, r)
	return w
}

func codeEndpoint() *goidc.TokenEndpoint {
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	te.Support(grant.AuthorizationCode())
	te.SetTimeBuilder(setClock(symNow()))
	return te
}

// C05_history: redemption attempts one after another.
func C05_history() {
	te := codeEndpoint()
	s := newCodeStore()
	n := 3 + nd.Tier()
	codes := make([]string, n)
	okd := make([]bool, n)
	for i := 0; i < n; i++ {
		codes[i] = nd.Str("code")
		okd[i] = isTokenResponse(s.attempt(te, codes[i]))
		for j := 0; j < i; j++ {
			nd.Assert(nd.Not(nd.And(okd[i], okd[j], codes[i] == codes[j])), "no code produces two token responses")
		}
		if okd[i] {
			nd.Reach("redeemed")
		} else {
			nd.Reach("refused")
		}
	}
}

// C05_interleaved: a second and a third redemption run completely inside the
// first, before any of its store operations.
func C05_interleaved() {
	te := codeEndpoint()
	s := newCodeStore()
	depth, successes, maxDepth := 0, 0, 2
	code := nd.Str("code")
	s.before = func(op string) {
		if depth >= maxDepth || !nd.Bool("interrupt."+op) {
			return
		}
		depth++
		if isTokenResponse(s.attempt(te, code)) {
			successes++
		}
	}
	if isTokenResponse(s.attempt(te, code)) {
		successes++
	}
	nd.Assert(successes <= 1, "overlapping redemptions of one code produce at most one token response")
	if successes == 1 && depth > 0 {
		nd.Reach("one of several")
	}
	nd.Reach("done")
}
