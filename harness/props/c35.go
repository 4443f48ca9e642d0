package props

import (
	"crypto/sha256"
	"encoding/base64"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/prompt"
	"vharness/nd"
)

// store is an honest data interface: it keeps what it is told.
type store struct {
	di       // methods these histories do not need
	now      int64
	clients  []*symClient
	subjects [2]string
	infos    []*symInfo
	sessions []*symSession
	used     []bool
	tokens   []*symToken
}

func (s *store) FindClientById(id string) (bridge.Client, *bridge.Error) {
	for _, c := range s.clients {
		if c.id == id {
			return c, nil
		}
	}
	return nil, bridge.NewError(bridge.ErrFailed)
}

func (s *store) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	for i, x := range s.sessions {
		if !s.used[i] && x.code == code {
			return x, nil
		}
	}
	return nil, bridge.NewError(bridge.ErrFailed)
}

func (s *store) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	for _, x := range s.infos {
		if x.id == id {
			return x, nil
		}
	}
	return nil, bridge.NewError(bridge.ErrFailed)
}

func (s *store) FindAuthInfoByUserIdAndClientId(uid int64, clientId string) (bridge.AuthInfo, *bridge.Error) {
	for _, x := range s.infos {
		if x.userId == uid && x.clientId == clientId {
			return x, nil
		}
	}
	return nil, bridge.NewError(bridge.ErrFailed)
}

func (s *store) CreateOrUpdateAuthInfo(uid int64, clientId, scope string) (bridge.AuthInfo, *bridge.Error) {
	for _, x := range s.infos {
		if x.userId == uid && x.clientId == clientId {
			x.scope, x.at = scope, s.now
			return x, nil
		}
	}
	x := &symInfo{id: int64(100 + len(s.infos)), clientId: clientId, userId: uid, subject: s.subjects[uid], scope: scope, at: s.now, active: true}
	s.infos = append(s.infos, x)
	return x, nil
}

func (s *store) CreateAuthSession(info bridge.AuthInfo, x *authorization.Session) *bridge.Error {
	s.sessions = append(s.sessions, &symSession{code: x.Code, authId: info.GetId(), authTime: x.AuthTime, idtExp: 600, uri: x.RedirectURI,
		verifier: x.CodeVerifier, exp: x.ExpiresIn, nonce: x.Nonce, created: s.now})
	s.used = append(s.used, false)
	return nil
}

func (s *store) DisableSession(sess bridge.AuthSession) *bridge.Error {
	for i, x := range s.sessions {
		if x.code == sess.GetCode() {
			s.used[i] = true
		}
	}
	return nil
}

func (s *store) CreateOAuthToken(info bridge.AuthInfo, te bool) (bridge.OAuthToken, *bridge.Error) {
	n := strconv.Itoa(len(s.tokens))
	t := &symToken{authId: info.GetId(), access: "access" + n, accessExp: 3600, refresh: "refresh" + n, refExp: 7200, created: s.now, refreshed: s.now}
	if !te {
		t.refresh = ""
	}
	s.tokens = append(s.tokens, t)
	return t, nil
}

func (s *store) FindOAuthTokenByAccessToken(t string) (bridge.OAuthToken, *bridge.Error) {
	for _, x := range s.tokens {
		if x.access == t {
			return x, nil
		}
	}
	return nil, bridge.NewError(bridge.ErrFailed)
}

func (s *store) FindOAuthTokenByRefreshToken(t string) (bridge.OAuthToken, *bridge.Error) {
	for _, x := range s.tokens {
		if x.refresh == t {
			return x, nil
		}
	}
	return nil, bridge.NewError(bridge.ErrFailed)
}

func (s *store) RefreshAccessToken(info bridge.AuthInfo, t bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	x := t.(*symToken)
	n := "new" + x.access
	x.access, x.refreshed = n, s.now
	return x, nil
}

func (s *store) count() int { return len(s.tokens) }

// granted is what the user agreed to when a code was issued.
type granted struct {
	code, uri, nonce, verifier string
	client, user               int
	authTime, at               int64
	redeemed                   bool
}

// world is a server over a store, with the history so far.
type world struct {
	s    *store
	te   http.HandlerFunc
	ae   *goidc.AuthorizationEndpoint
	rp   *goidc.ResourceProtector
	pol  *authorization.Policy
	g    []*granted
	owns [][2]int // client and user of each token handed out
	// agreed is the scope last agreed to, by client and user.
	agreed [2][2]string
}

func newWorld() *world {
	h := &world{s: &store{}}
	s := h.s
	s.now = symNow()
	clk := func() time.Time { return time.Unix(s.now, 0) }
	jwt.TimeFunc = clk
	s.issuer = "https://op"
	s.clients = []*symClient{
		{id: "a", alg: "HS256", key: []byte("ka"), secret: "sa", flowOK: true, scopeOK: true, noConsent: prompt.NoConsentPromptPolicyForceConsent},
		{id: "b", alg: "HS256", key: []byte("kb"), secret: "sb", flowOK: true, scopeOK: true, noConsent: prompt.NoConsentPromptPolicyOmitConsentIfCan},
	}
	s.subjects = [2]string{nd.StrIn("subject", "a-z", 1, -1), nd.StrIn("subject", "a-z", 1, -1)}
	h.pol = c33Policy()
	h.pol.AuthSessionExpiresIn = int(nd.Int("code_lifetime", 0, maxTime))
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	te.SetTimeBuilder(clk)
	te.Support(grant.AuthorizationCode())
	te.Support(grant.RefreshToken())
	h.te = te.Handler(s)
	h.ae = goidc.NewAuthorizationEndpoint(s, h.pol)
	h.ae.SetLogger(nopLogger{})
	h.ae.SetTimeBuilder(clk)
	h.rp = goidc.NewResourceProtector("realm")
	h.rp.SetLogger(nopLogger{})
	h.rp.SetTimeBuilder(clk)
	return h
}

// authorize: a user completes an authorization request of a client.
func (h *world) authorize(client, user, want int) { h.authorizeAs(client, user, want, "code") }

func (h *world) authorizeAs(client, user, want int, typ string) {
	n := strconv.Itoa(len(h.g))
	tokens := h.s.count()
	g := &granted{code: "code" + n, client: client, user: user, at: h.s.now,
		uri:      "https://c/" + nd.StrIn("uri"+n, "A-Za-z0-9", 0, -1),
		nonce:    nd.StrIn("nonce"+n, textClass, 0, 200),
		verifier: nd.StrIn("verifier"+n, "A-Za-z0-9", 0, 200),
		authTime: nd.Int("auth_time"+n, 0, maxTime),
	}
	if typ != "code" {
		nd.Assume(g.nonce != "")
	}
	q := url.Values{}
	for k, v := range map[string]string{"client_id": h.s.clients[client].id, "redirect_uri": g.uri, "response_type": typ, "scope": storeScopes[want].scope, "prompt": storeScopes[want].prompt, "state": "s", "nonce": g.nonce, "code_verifier": g.verifier} {
		if v != "" {
			q.Set(k, v)
		}
	}
	cb := &cbs{n: map[string]int{}, def: 1, login: true, from: true, match: true, authTime: g.authTime, uid: int64(user), code: g.code, locale: "en"}
	w := newRecorder()
	ok := h.ae.HandleRequest(w, newReq("GET", "/authorize", nil, q), cb)
	if len(cb.consents) == 1 {
		nd.Assert(w.status == 0, "nothing is sent with the consent screen")
		cb.req = authorization.DecodeRequest(cb.consents[0].Encode())
		ok = h.ae.CompleteRequest(w, newReq("POST", "/continue", nil, nil), cb)
	}
	a := readAnswer(w, g.uri)
	if typ == "code" {
		nd.Assert(ok && a.only(map[string]string{"code": g.code, "state": "s"}), "the user's consent leads to a code")
	} else {
		h.front(g, a, typ, tokens)
		nd.Assert(ok, "the request is completed")
	}
	h.g = append(h.g, g)
	if len(cb.consents) == 1 {
		h.agreed[client][user] = storeScopes[want].granted
		return
	}
	nd.Assert(sameWords(h.agreed[client][user], storeScopes[want].granted), "consent is omitted only for what was agreed to before")
	nd.Reach("consent omitted")
}

// front: the answer has what the response type asks for, about the user.
func (h *world) front(g *granted, a *answer, typ string, tokens int) {
	nd.Assert(a != nil && a.ok && a.mode == "fragment", "the answer is in the fragment")
	g.redeemed = !hasWord(typ, "code")
	nd.Assert(a.v.Has("code") == !g.redeemed && a.v.Get("code") == map[bool]string{false: g.code}[g.redeemed], "there is a code if asked for")
	at := ""
	if hasWord(typ, "token") {
		tokens++
		nd.Assert(h.s.count() == tokens, "one token is created")
		at = h.s.tokens[tokens-1].access
		h.owns = append(h.owns, [2]int{g.client, g.user})
	}
	nd.Assert(h.s.count() == tokens && a.v.Has("access_token") == (at != "") && a.v.Get("access_token") == at, "there is an access token if asked for")
	nd.Assert(a.v.Has("id_token") == hasWord(typ, "id_token"), "there is an ID token if asked for")
	if !hasWord(typ, "id_token") {
		return
	}
	c := h.s.clients[g.client]
	_, cl, ok := readIdToken(a.v.Get("id_token"), idKey{alg: c.alg, key: c.key, verify: c.key})
	nd.Assert(ok, "the ID token is signed for the client")
	nd.Assert(nd.And(claimIs(cl, "nonce", g.nonce, true), claimInt(cl, "auth_time", g.authTime), claimIs(cl, "sub", h.s.subjects[g.user], false), claimIs(cl, "aud", c.id, false), claimIs(cl, "iss", "https://op", false)),
		"the ID token is about the user, the authentication and the request")
}

func hasWord(s, w string) bool {
	for _, x := range strings.Fields(s) {
		if x == w {
			return true
		}
	}
	return false
}

func (h *world) token(client int, body url.Values) *recorder {
	w := newRecorder()
	r := newReq("POST", "/token", body, nil)
	c := h.s.clients[client]
	r.Header.Set("Authorization", basicHeader(c.id, c.secret))
	h.te(w, r)
	return w
}

// redeem: a client presents any code, with any redirect URI and challenge.
func (h *world) redeem(client int) {
	n := strconv.Itoa(len(h.g)) + "." + strconv.Itoa(h.s.count())
	code, uri := nd.StrIn("given"+n, "a-z0-9", 1, -1), nd.StrIn("given_uri"+n, textClass, 0, -1)
	m := []string{"", "plain", "S256"}[nd.Choice("method", 3)]
	cc := ""
	if m != "" {
		cc = nd.StrIn("challenge"+n, textClass, 0, -1)
	}
	h.present(client, code, uri, m, cc)
}

// exchange: the client of the k-th code redeems it as it should.
func (h *world) exchange(k int) {
	g, n := h.g[k], len(h.owns)
	m := ""
	if g.verifier != "" {
		m = "plain"
	}
	h.present(g.client, g.code, g.uri, m, g.verifier)
	nd.Assume(len(h.owns) == n+1)
}

func (h *world) present(client int, code, uri, m, cc string) {
	b := url.Values{}
	b.Set("grant_type", "authorization_code")
	b.Set("code", code)
	b.Set("redirect_uri", uri)
	if m != "" {
		b.Set("code_challenge_method", m)
		b.Set("code_challenge", cc)
	}
	before := h.s.count()
	w := h.token(client, b)
	var g *granted
	for _, x := range h.g {
		if x.code == code {
			g = x
		}
	}
	right := false
	if g != nil && !g.redeemed && g.client == client {
		p := true
		if g.verifier != "" {
			sum := sha256.Sum256([]byte(g.verifier))
			switch m {
			case "":
				p = false
			case "plain":
				p = cc == g.verifier
			case "S256":
				p = cc == base64.RawURLEncoding.EncodeToString(sum[:])
			}
		}
		right = nd.And(g.uri == uri, h.s.now <= g.at+int64(h.pol.AuthSessionExpiresIn), p)
	}
	if !right {
		nd.Assert(w.status >= 400 && oauthError(w) != "" && h.s.count() == before, "other redemptions fail and create nothing")
		nd.Reach("refused")
		return
	}
	nd.Assert(w.status == 200 && h.s.count() == before+1, "the client redeems the code it got")
	g.redeemed = true
	m2, ok := jsonBody(w)
	nd.Assert(ok, "the token response is JSON")
	tok := h.s.tokens[before]
	nd.Assert(jstr(m2, "access_token") == tok.access && jstr(m2, "refresh_token") == tok.refresh, "the token created is handed out")
	info := h.infoOf(tok)
	nd.Assert(info.userId == int64(g.user) && info.clientId == h.s.clients[client].id, "the token belongs to the client and user of the code")
	nd.Assert(jstr(m2, "scope") == h.agreed[client][g.user], "the scope is that of the authorization")
	idt, has := m2["id_token"].(string)
	nd.Assert(has == (h.agreed[client][g.user] != "read"), "there is an ID token for openid")
	if has {
		c := h.s.clients[client]
		_, cl, ok := readIdToken(idt, idKey{alg: c.alg, key: c.key, verify: c.key})
		nd.Assert(ok, "the ID token is signed for the client")
		nd.Assert(nd.And(claimIs(cl, "nonce", g.nonce, true), claimInt(cl, "auth_time", g.authTime), claimIs(cl, "sub", h.s.subjects[g.user], false), claimIs(cl, "aud", c.id, false), claimIs(cl, "iss", "https://op", false)),
			"the ID token is about the user, the authentication and the request behind the code")
	}
	h.owns = append(h.owns, [2]int{client, g.user})
	nd.Reach("redeemed")
}

func (h *world) infoOf(t *symToken) *symInfo {
	for _, x := range h.s.infos {
		if x.id == t.authId {
			return x
		}
	}
	return &symInfo{}
}

// refresh: a client presents the refresh token of any token handed out.
func (h *world) refresh(client int) {
	k := nd.Choice("token", len(h.owns))
	t := h.s.tokens[k]
	old := t.access
	if t.refresh == "" {
		return
	}
	w := h.token(client, url.Values{"grant_type": {"refresh_token"}, "refresh_token": {t.refresh}})
	if h.owns[k][0] == client && h.agreed[client][h.owns[k][1]] == storeScopes[1].granted && h.s.now <= t.created+t.refExp {
		m, ok := jsonBody(w)
		nd.Assert(w.status == 200 && ok && t.access != old && jstr(m, "access_token") == t.access, "the client refreshes its token")
		nd.Reach("refreshed")
		return
	}
	nd.Assert(w.status >= 400 && oauthError(w) != "" && t.access == old, "other clients cannot refresh it")
	nd.Reach("not refreshed")
}

// use: a token handed out opens resources of its user, for its client.
func (h *world) use() {
	k := nd.Choice("token", len(h.owns))
	t := h.s.tokens[k]
	r := newReq("GET", "/resource", nil, nil)
	r.Header.Set("Authorization", "Bearer "+t.access)
	w := newRecorder()
	ok := h.rp.Validate(w, r, h.s)
	nd.Assert(ok == (h.s.now <= t.refreshed+t.accessExp), "a token is accepted while it lives")
	if ok {
		nd.Assert(r.Header.Get("X-OAUTH-USER-ID") == strconv.Itoa(h.owns[k][1]) && r.Header.Get("X-OAUTH-CLIENT-ID") == h.s.clients[h.owns[k][0]].id, "a token stands for the user and client of its code")
		nd.Reach("used")
	}
}

// storeScopes: what is requested, and what remains of it. Offline access needs
// the user's consent.
var storeScopes = []struct{ scope, prompt, granted string }{
	{"openid", "", "openid"},
	{"read offline_access openid", "consent", "read offline_access openid"},
	{"read", "", "read"},
	{"read openid offline_access", "", "read openid"},
	{"openid read", "login consent", "openid read"},
}

func someScope() int { return nd.Choice("scope", 3+2*nd.Tier()) }

// later: time passes.
func (h *world) later() {
	t := h.s.now
	h.s.now = nd.Int("later", 0, maxTime)
	nd.Assume(h.s.now >= t)
}

// C35_redeem: one authorization, then two attempts to redeem a code.
func C35_redeem() {
	h := newWorld()
	h.authorize(nd.Choice("client", 2), 0, someScope())
	h.later()
	h.redeem(nd.Choice("by", 2))
	if nd.Tier() > 0 {
		h.later()
	}
	h.redeem(nd.Choice("by", 2))
}

// C35_two: two authorizations, perhaps of the same client or user, then a
// redemption and a use of the token.
func C35_two() {
	h := newWorld()
	h.authorize(0, 0, 0)
	if nd.Tier() > 0 {
		h.later()
	}
	h.authorize(nd.Choice("client", 2), nd.Choice("user", 2), someScope())
	h.later()
	h.redeem(nd.Choice("by", 2))
	if len(h.owns) > 0 {
		h.use()
	}
}

// C35_front: authorizations of any response type, the code redeemed by anyone,
// and the tokens used.
func C35_front() {
	h := newWorld()
	types := []string{"code", "code token", "code id_token", "code id_token token", "token", "id_token", "id_token token"}
	h.authorizeAs(nd.Choice("client", 2), nd.Choice("user", 2), 0, types[nd.Choice("type", 7)])
	if nd.Tier() > 0 && nd.Bool("again") {
		h.authorizeAs(nd.Choice("client", 2), nd.Choice("user", 2), 0, types[nd.Choice("type", 7)])
	}
	h.later()
	h.redeem(nd.Choice("by", 2))
	if len(h.owns) > 0 {
		h.use()
	}
}

// C35_both: two authorizations, both redeemed, with the uses of the tokens.
func C35_both() {
	h := newWorld()
	h.authorize(0, 0, 0)
	h.authorize(nd.Choice("client", 2), nd.Choice("user", 2), 1)
	k := nd.Choice("first", 2)
	h.exchange(k)
	h.later()
	h.exchange(1 - k)
	h.later()
	h.use()
	if nd.Tier() > 0 {
		h.redeem(nd.Choice("by", 2))
	}
}

// C35_refresh: an authorization is redeemed, its token refreshed by anyone,
// and used.
func C35_refresh() {
	h := newWorld()
	h.authorize(nd.Choice("client", 2), nd.Choice("user", 2), someScope())
	h.later()
	h.exchange(0)
	for i := 0; i <= nd.Tier(); i++ {
		h.later()
		h.refresh(nd.Choice("by", 2))
	}
	h.later()
	h.use()
}

// C35_again: the user authorizes the client a second time with another scope;
// the tokens and codes of the first authorization follow it.
func C35_again() {
	h := newWorld()
	c := 1 - nd.Choice("client", 1+nd.Tier())
	h.authorize(c, 1, someScope())
	h.exchange(0)
	h.authorize(c, nd.Choice("user", 2), someScope())
	if nd.Choice("op", 2) == 0 {
		h.refresh(nd.Choice("by", 2))
	} else {
		h.redeem(nd.Choice("by", 2))
	}
	h.use()
}

func sameWords(a, b string) bool {
	x, y := strings.Fields(a), strings.Fields(b)
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, " ") == strings.Join(y, " ")
}
