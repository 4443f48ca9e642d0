package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/prompt"
)

var _ = io.EOF
var _ = jwt.TimeFunc

var now int64 = 1700000000

func clock() time.Time { return time.Unix(now, 0) }

func init() { jwt.TimeFunc = clock }

// check ends the demonstration when what should hold does not.
func check(ok bool, what string, info ...interface{}) {
	if !ok {
		fmt.Println("FAILED:", what, info)
		os.Exit(1)
	}
}

type quiet struct{}

func (quiet) Debug(a ...interface{})            {}
func (quiet) Info(a ...interface{})             {}
func (quiet) Warn(a ...interface{})             {}
func (quiet) Error(a ...interface{})            {}
func (quiet) Fatal(a ...interface{})            {}
func (quiet) Debugf(f string, a ...interface{}) {}
func (quiet) Infof(f string, a ...interface{})  {}
func (quiet) Warnf(f string, a ...interface{})  {}
func (quiet) Errorf(f string, a ...interface{}) {}
func (quiet) Fatalf(f string, a ...interface{}) {}

type Client struct {
	id, secret  string
	owner       int64
	alg, kid    string
	key         interface{}
	grants      string // words
	uri         string
	scopes      func(f flow.FlowType, s string) bool
	akey        func(alg, kid string) interface{}
	noConsent   prompt.NoConsentPromptPolicy
	none        prompt.NonePromptPolicy
	flowRefused bool
}

func (c *Client) GetId() string                     { return c.id }
func (c *Client) GetOwnerUserId() int64             { return c.owner }
func (c *Client) GetIdTokenAlg() string             { return c.alg }
func (c *Client) GetIdTokenKeyId() string           { return c.kid }
func (c *Client) GetIdTokenKey() interface{}        { return c.key }
func (c *Client) MatchSecret(s string) bool         { return s == c.secret }
func (c *Client) CanUseFlow(f flow.FlowType) bool   { return !c.flowRefused }
func (c *Client) CanUseGrantType(gt string) bool    { return has(c.grants, gt) }
func (c *Client) CanUseRedirectURI(uri string) bool { return uri == c.uri }
func (c *Client) CanUseScope(f flow.FlowType, s string) bool {
	return c.scopes == nil || c.scopes(f, s)
}
func (c *Client) GetAssertionKey(alg, kid string) interface{} {
	if c.akey == nil {
		return nil
	}
	return c.akey(alg, kid)
}
func (c *Client) GetNoConsentPromptPolicy() prompt.NoConsentPromptPolicy { return c.noConsent }
func (c *Client) GetNonePromptPolicy() prompt.NonePromptPolicy           { return c.none }

func has(words, w string) bool {
	for _, x := range strings.Fields(words) {
		if x == w {
			return true
		}
	}
	return false
}

type Info struct {
	id                     int64
	client, subject, scope string
	user, at               int64
	inactive               bool
}

func (i *Info) GetId() int64           { return i.id }
func (i *Info) GetClientId() string    { return i.client }
func (i *Info) GetUserId() int64       { return i.user }
func (i *Info) GetSubject() string     { return i.subject }
func (i *Info) GetScope() string       { return i.scope }
func (i *Info) GetAuthorizedAt() int64 { return i.at }
func (i *Info) IsActive() bool         { return !i.inactive }

type Session struct {
	code, uri, verifier, nonce      string
	auth, authTime, idtExp, exp, at int64
}

func (s *Session) GetCode() string            { return s.code }
func (s *Session) GetAuthId() int64           { return s.auth }
func (s *Session) GetAuthTime() int64         { return s.authTime }
func (s *Session) GetIdTokenExpiresIn() int64 { return s.idtExp }
func (s *Session) GetRedirectURI() string     { return s.uri }
func (s *Session) GetCodeVerifier() string    { return s.verifier }
func (s *Session) GetExpiresIn() int64        { return s.exp }
func (s *Session) GetNonce() string           { return s.nonce }
func (s *Session) GetCreatedAt() int64        { return s.at }

type Token struct {
	auth                                  int64
	access, refresh                       string
	accessExp, refreshed, refExp, created int64
}

func (t *Token) GetAuthId() int64                { return t.auth }
func (t *Token) GetAccessToken() string          { return t.access }
func (t *Token) GetAccessTokenExpiresIn() int64  { return t.accessExp }
func (t *Token) GetRefreshedAt() int64           { return t.refreshed }
func (t *Token) GetRefreshToken() string         { return t.refresh }
func (t *Token) GetRefreshTokenExpiresIn() int64 { return t.refExp }
func (t *Token) GetCreatedAt() int64             { return t.created }

// Store is a data interface in memory. fail[method] makes a method fail, and
// every call is recorded.
type Store struct {
	issuer   string
	clients  []*Client
	infos    []*Info
	sessions []*Session
	tokens   []*Token
	users    map[string]int64 // name:password
	subjects map[string]int64
	jtis     map[string]bool
	fail     map[string]*bridge.Error
	empty    map[string]bool // methods that answer (nil, nil)
	calls    []string
	recorded []string
	ttl      int64
}

func newStore(cs ...*Client) *Store {
	return &Store{issuer: "https://op.example", clients: cs, users: map[string]int64{}, subjects: map[string]int64{}, jtis: map[string]bool{},
		fail: map[string]*bridge.Error{}, empty: map[string]bool{}, ttl: 3600}
}

var notFound = bridge.NewError(bridge.ErrFailed)

func (s *Store) call(m string) (*bridge.Error, bool) {
	s.calls = append(s.calls, m)
	return s.fail[m], s.empty[m]
}

func (s *Store) called(m string) int {
	n := 0
	for _, c := range s.calls {
		if c == m {
			n++
		}
	}
	return n
}

func (s *Store) Issuer() string { return s.issuer }
func (s *Store) FindClientById(id string) (bridge.Client, *bridge.Error) {
	if e, n := s.call("FindClientById"); e != nil || n {
		return nil, e
	}
	for _, c := range s.clients {
		if c.id == id {
			return c, nil
		}
	}
	return nil, notFound
}
func (s *Store) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	if e, n := s.call("FindAuthSessionByCode"); e != nil || n {
		return nil, e
	}
	for _, x := range s.sessions {
		if x.code == code {
			return x, nil
		}
	}
	return nil, notFound
}
func (s *Store) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	if e, n := s.call("FindActiveAuthInfoById"); e != nil || n {
		return nil, e
	}
	for _, x := range s.infos {
		if x.id == id && !x.inactive {
			return x, nil
		}
	}
	return nil, notFound
}
func (s *Store) FindAuthInfoByUserIdAndClientId(uid int64, cid string) (bridge.AuthInfo, *bridge.Error) {
	if e, n := s.call("FindAuthInfoByUserIdAndClientId"); e != nil || n {
		return nil, e
	}
	for _, x := range s.infos {
		if x.user == uid && x.client == cid {
			return x, nil
		}
	}
	return nil, notFound
}
func (s *Store) FindOAuthTokenByAccessToken(t string) (bridge.OAuthToken, *bridge.Error) {
	if e, n := s.call("FindOAuthTokenByAccessToken"); e != nil || n {
		return nil, e
	}
	for _, x := range s.tokens {
		if x.access == t {
			return x, nil
		}
	}
	return nil, notFound
}
func (s *Store) FindOAuthTokenByRefreshToken(t string) (bridge.OAuthToken, *bridge.Error) {
	if e, n := s.call("FindOAuthTokenByRefreshToken"); e != nil || n {
		return nil, e
	}
	for _, x := range s.tokens {
		if x.refresh == t {
			return x, nil
		}
	}
	return nil, notFound
}
func (s *Store) CreateOAuthToken(info bridge.AuthInfo, te bool) (bridge.OAuthToken, *bridge.Error) {
	if e, n := s.call("CreateOAuthToken"); e != nil || n {
		return nil, e
	}
	t := &Token{auth: info.GetId(), access: fmt.Sprintf("ACCESS%d", len(s.tokens)), accessExp: s.ttl, refreshed: now, created: now, refExp: 10 * s.ttl}
	if has(info.GetScope(), "offline_access") {
		t.refresh = fmt.Sprintf("REFRESH%d", len(s.tokens))
	}
	s.tokens = append(s.tokens, t)
	return t, nil
}
func (s *Store) RefreshAccessToken(info bridge.AuthInfo, old bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	if e, n := s.call("RefreshAccessToken"); e != nil || n {
		return nil, e
	}
	t := old.(*Token)
	t.access, t.refreshed = t.access+"r", now
	return t, nil
}
func (s *Store) FindUserId(u, p string) (int64, *bridge.Error) {
	if e, _ := s.call("FindUserId"); e != nil {
		return 0, e
	}
	if id, ok := s.users[u+":"+p]; ok {
		return id, nil
	}
	return 0, notFound
}
func (s *Store) CreateOrUpdateAuthInfo(uid int64, cid, scope string) (bridge.AuthInfo, *bridge.Error) {
	if e, n := s.call("CreateOrUpdateAuthInfo"); e != nil || n {
		return nil, e
	}
	for _, x := range s.infos {
		if x.user == uid && x.client == cid {
			x.scope, x.at = scope, now
			return x, nil
		}
	}
	x := &Info{id: int64(len(s.infos) + 1), client: cid, user: uid, subject: fmt.Sprintf("sub%d", uid), scope: scope, at: now}
	s.infos = append(s.infos, x)
	return x, nil
}
func (s *Store) CreateAuthSession(info bridge.AuthInfo, x *authorization.Session) *bridge.Error {
	if e, _ := s.call("CreateAuthSession"); e != nil {
		return e
	}
	s.sessions = append(s.sessions, &Session{code: x.Code, uri: x.RedirectURI, verifier: x.CodeVerifier, nonce: x.Nonce, auth: info.GetId(),
		authTime: x.AuthTime, idtExp: 600, exp: x.ExpiresIn, at: now})
	return nil
}
func (s *Store) DisableSession(x bridge.AuthSession) *bridge.Error {
	if e, _ := s.call("DisableSession"); e != nil {
		return e
	}
	var left []*Session
	for _, y := range s.sessions {
		if y.code != x.GetCode() {
			left = append(left, y)
		}
	}
	s.sessions = left
	return nil
}
func (s *Store) FindUserIdBySubject(sub string) (int64, *bridge.Error) {
	if e, _ := s.call("FindUserIdBySubject"); e != nil {
		return 0, e
	}
	if id, ok := s.subjects[sub]; ok {
		return id, nil
	}
	return 0, notFound
}
func (s *Store) RecordAssertionClaims(cid, jti string, iat, exp int64) *bridge.Error {
	if e, _ := s.call("RecordAssertionClaims"); e != nil {
		return e
	}
	s.recorded = append(s.recorded, fmt.Sprintf("%s %s %d %d", cid, jti, iat, exp))
	if s.jtis[cid+" "+jti] {
		return notFound
	}
	s.jtis[cid+" "+jti] = true
	return nil
}

// CB are the callbacks of a user in front of the authorization endpoint.
type CB struct {
	login, fromLogin bool
	user, authTime   int64
	code             string
	hintOK           bool
	locale           string
	fail             map[string]bool
	shown            []string // screens
	req              *authorization.Request
	errs             []int
	asked            []string
	locales          []string
}

func (c *CB) err(m string) error {
	c.asked = append(c.asked, m)
	if c.fail[m] {
		return fmt.Errorf("failed")
	}
	return nil
}
func (c *CB) ShowErrorScreen(t int) { c.shown, c.errs = append(c.shown, "error"), append(c.errs, t) }
func (c *CB) ShowLoginScreen(r *authorization.Request) error {
	c.shown, c.req = append(c.shown, "login"), r
	return c.err("ShowLoginScreen")
}
func (c *CB) ShowConsentScreen(cl bridge.Client, r *authorization.Request) error {
	c.shown, c.req = append(c.shown, "consent"), r
	return c.err("ShowConsentScreen")
}
func (c *CB) ChooseLocale(l string) (string, error) {
	c.locales = append(c.locales, l)
	return c.locale, c.err("ChooseLocale")
}
func (c *CB) ConfirmLoginSession() (bool, error)    { return c.login, c.err("ConfirmLoginSession") }
func (c *CB) RequestIsFromLogin() (bool, error)     { return c.fromLogin, c.err("RequestIsFromLogin") }
func (c *CB) GetAuthTime() (int64, error)           { return c.authTime, c.err("GetAuthTime") }
func (c *CB) GetLoginUserId() (int64, error)        { return c.user, c.err("GetLoginUserId") }
func (c *CB) CreateAuthorizationCode() (string, error) {
	return c.code, c.err("CreateAuthorizationCode")
}
func (c *CB) Continue() (*authorization.Request, error) { return c.req, c.err("Continue") }
func (c *CB) LoginUserIsMatchedToSubject(s string) (bool, error) {
	return c.hintOK, c.err("LoginUserIsMatchedToSubject")
}

// post sends a form to a handler, with the given header lines.
func post(h http.HandlerFunc, form url.Values, header ...string) *httptest.ResponseRecorder {
	r := httptest.NewRequest("POST", "/token", strings.NewReader(form.Encode()))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	for i := 0; i+1 < len(header); i += 2 {
		r.Header.Set(header[i], header[i+1])
	}
	w := httptest.NewRecorder()
	h(w, r)
	return w
}

func basic(id, secret string) string {
	r, _ := http.NewRequest("GET", "/", nil)
	r.SetBasicAuth(id, secret)
	return r.Header.Get("Authorization")
}

func form(kv ...string) url.Values {
	v := url.Values{}
	for i := 0; i+1 < len(kv); i += 2 {
		v.Set(kv[i], kv[i+1])
	}
	return v
}

func get(path string, kv ...string) *http.Request {
	return httptest.NewRequest("GET", path+"?"+form(kv...).Encode(), nil)
}

func body(w *httptest.ResponseRecorder) map[string]interface{} {
	m := map[string]interface{}{}
	json.Unmarshal(w.Body.Bytes(), &m)
	return m
}

// location gives the parameters of a redirect: those of the query and those of
// the fragment.
func location(w *httptest.ResponseRecorder) (q, f url.Values) {
	u, err := url.Parse(w.Header().Get("Location"))
	if err != nil {
		return nil, nil
	}
	f, _ = url.ParseQuery(u.EscapedFragment())
	return u.Query(), f
}
