package props

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/prompt"
	"vharness/nd"
)

// maxT bounds ids and numeric claims (exact in a float64, so that JWT numeric
// claims are exact); maxTime bounds times and lifetimes (in nanoseconds, a
// lifetime fits a time.Duration).
const (
	maxT    = int64(1) << 52
	maxTime = int64(1) << 32
)

// tokenClass is used for secrets the server hands out: none of its characters
// occur in any fixed text of the library nor in the other inputs, so a token
// value can be recognised wherever it would leak.
const tokenClass = "~`"

// keyClass: characters of HMAC keys. HMAC pads keys with NUL, so keys that
// differ only in trailing NULs are the same key.
const keyClass = "\x01-\x7f"

// textClass: printable text without the token characters.
const textClass = " !#-Z_a-}"

// unicodeTexts are fixed texts that are not ASCII, with what JSON, HTML and
// URLs treat specially.
var unicodeTexts = []string{"\u00e9t\u00e9", "\u65e5\u672c<&>\"\\\u2028\u2029", "\U0001f600 \u00a0\u0085+%C3%A9\ufffd"}

// anyText: any ASCII text, or one of the unicodeTexts.
func anyText(name string) string {
	if k := nd.Choice(name+".unicode", 1+len(unicodeTexts)); k > 0 {
		return unicodeTexts[k-1]
	}
	return nd.Str(name)
}

// ---- recorder

type recorder struct {
	h      http.Header
	snap   http.Header
	status int
	body   string
	starts int // times an answer was started
	gone   int // ways in which writing the answer may go, if the client may be gone
}

func newRecorder() *recorder { return &recorder{h: http.Header{}} }

func (w *recorder) Header() http.Header { return w.h }

func (w *recorder) WriteHeader(code int) {
	w.starts++
	if w.status != 0 {
		return
	}
	w.status = code
	w.snap = http.Header{}
	for k, v := range w.h {
		w.snap[k] = append([]string(nil), v...)
	}
}

func (w *recorder) Write(p []byte) (int, error) {
	if w.status == 0 {
		w.WriteHeader(200)
	}
	w.body += string(p)
	if w.gone > 0 {
		switch nd.Choice("write", w.gone) {
		case 1:
			return 0, io.ErrClosedPipe
		case 2:
			return len(p) / 2, io.ErrShortWrite
		}
	}
	return len(p), nil
}

func (w *recorder) get(k string) string {
	if w.snap == nil {
		return ""
	}
	return w.snap.Get(k)
}

func (w *recorder) has(k string) bool {
	if w.snap == nil {
		return false
	}
	_, ok := w.snap[http.CanonicalHeaderKey(k)]
	return ok
}

// ---- logger

type nopLogger struct{}

func (nopLogger) Debug(args ...interface{})            {}
func (nopLogger) Info(args ...interface{})             {}
func (nopLogger) Warn(args ...interface{})             {}
func (nopLogger) Error(args ...interface{})            {}
func (nopLogger) Fatal(args ...interface{})            {}
func (nopLogger) Debugf(f string, args ...interface{}) {}
func (nopLogger) Infof(f string, args ...interface{})  {}
func (nopLogger) Warnf(f string, args ...interface{})  {}
func (nopLogger) Errorf(f string, args ...interface{}) {}
func (nopLogger) Fatalf(f string, args ...interface{}) {}

// memLogger keeps what is logged.
type memLogger struct {
	lines  []string
	levels []int // of the lines
}

func (l *memLogger) addf(n int, f string, args []interface{}) {
	l.levels = append(l.levels, n)
	l.lines = append(l.lines, fmt.Sprintf(f, args...))
}

func (l *memLogger) add(n int, args []interface{}) {
	for _, a := range args {
		l.levels = append(l.levels, n)
		if s, ok := a.(string); ok {
			l.lines = append(l.lines, s)
		} else {
			l.lines = append(l.lines, fmt.Sprint(a))
		}
	}
}

func (l *memLogger) Debug(args ...interface{})            { l.add(0, args) }
func (l *memLogger) Info(args ...interface{})             { l.add(1, args) }
func (l *memLogger) Warn(args ...interface{})             { l.add(2, args) }
func (l *memLogger) Error(args ...interface{})            { l.add(3, args) }
func (l *memLogger) Fatal(args ...interface{})            { l.add(4, args) }
func (l *memLogger) Debugf(f string, args ...interface{}) { l.addf(0, f, args) }
func (l *memLogger) Infof(f string, args ...interface{})  { l.addf(1, f, args) }
func (l *memLogger) Warnf(f string, args ...interface{})  { l.addf(2, f, args) }
func (l *memLogger) Errorf(f string, args ...interface{}) { l.addf(3, f, args) }
func (l *memLogger) Fatalf(f string, args ...interface{}) { l.addf(4, f, args) }

// has: some line has the text.
func (l *memLogger) has(text string) bool {
	r := false
	for _, s := range l.lines {
		r = nd.Or(r, strings.Contains(s, text))
	}
	return r
}

// ---- requests

// anyMethod: the method of a request to a resource, whatever it is.
func anyMethod() string {
	if nd.Bool("post") {
		return "POST"
	}
	m := nd.StrIn("method", "A-Z", 1, 10)
	nd.Assume(nd.And(m != "POST", m != "PUT", m != "PATCH"))
	return m
}

// consentReq: the request by which the user agrees or refuses.
func consentReq() *http.Request {
	r := newReq("GET", "/a", nil, nil)
	m := nd.StrIn("method", "A-Z", 3, 4)
	nd.Assume(nd.Or(m == "GET", m == "POST"))
	r.Method = m
	return r
}

// newReq builds the request as net/http presents it once the form is parsed.
// Form parameters of the body precede those of the query.
func newReq(method, path string, body, query url.Values) *http.Request {
	if body == nil {
		body = url.Values{}
	}
	form := url.Values{}
	for k, v := range body {
		form[k] = append([]string(nil), v...)
	}
	for k, v := range query {
		form[k] = append(form[k], v...)
	}
	r := &http.Request{
		Method:     method,
		URL:        &url.URL{Path: path, RawQuery: query.Encode()},
		Header:     http.Header{},
		Form:       form,
		PostForm:   body,
		Host:       nd.StrIn("host", textClass, 0, -1),
		RemoteAddr: nd.StrIn("remote", textClass, 0, -1),
		RequestURI: nd.StrIn("request_uri", textClass, 0, -1),
	}
	// parameters and headers that have no meaning here may have any value
	if method != "POST" {
		nd.Open("param", known[path], form)
	} else {
		nd.Open("param", known[path], form, body)
	}
	nd.Open("header", []string{"Authorization"}, r.Header)
	return r
}

// known are the parameters that have a meaning at an endpoint; where a harness
// does not set one, it is absent.
var known = map[string][]string{
	"/authorize": {"client_id", "redirect_uri", "state", "response_mode", "response_type", "display", "max_age", "prompt", "scope", "nonce", "code_verifier", "ui_locales", "id_token_hint", "login_hint"},
	"/token": {"grant_type", "client_id", "client_secret", "client_assertion", "client_assertion_type", "code", "redirect_uri", "code_challenge", "code_challenge_method",
		"username", "password", "scope", "refresh_token", "assertion"},
	"/resource": {"access_token"},
	"/x":        {"access_token"},
}

func basicHeader(id, secret string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(id+":"+secret))
}

// ---- clock

func clock(now int64) func() time.Time {
	return func() time.Time { return time.Unix(now, 0) }
}

// partOfSecond is a time within the second now. Expiry is judged at whole
// seconds, as it is kept in seconds: whether a thing that lives until second
// n still lives in the middle of that second is left open.
func partOfSecond(now int64) time.Time {
	return time.Unix(now, nd.Int("now.nanoseconds", 0, 999999999))
}

// setClock makes now the time of the endpoints and of the JWT library.
func setClock(now int64) func() time.Time {
	c := clock(now)
	jwt.TimeFunc = c
	return c
}

func symNow() int64 { return nd.Int("now", 1, maxTime) }

// ---- data interface

const (
	ansOK = iota
	ansFailed
	ansServer
	ansUnsupported
	ansNil
)

func errFor(a int) *bridge.Error {
	switch a {
	case ansFailed:
		return bridge.NewError(bridge.ErrFailed)
	case ansServer:
		// a server error is any error of no other type
		t := bridge.ErrorType(nd.Int("error.type", -maxT, maxT))
		nd.Assume(nd.And(t != bridge.ErrFailed, t != bridge.ErrUnsupported))
		return bridge.NewError(t)
	case ansUnsupported:
		return bridge.NewError(bridge.ErrUnsupported)
	}
	return nil
}

type call struct {
	name string
	ans  int
	s    []string
	i    []int64
	o    interface{} // object argument
	o2   interface{}
	ret  interface{}
}

// di is a DataInterface whose answers are inputs. It records every call.
type di struct {
	calls []call
	// modes: how many of the answers ansOK..ansNil a method may give
	n map[string]int
	// default number of answers
	def    int
	issuer string

	client  *symClient
	sess    *symSession
	info    *symInfo
	token   *symToken // what CreateOAuthToken / RefreshAccessToken return
	oldTok  *symToken // what the Find...Token methods return
	uid     int64
	subUid  int64
	nextID  int
	hooks   map[string]func()
	created []*symToken

	// pre distinguishes the inputs of several data interfaces
	pre string
	// onCall is called with the number of the call at the start of each call
	onCall func(n int)
	asked  int
	// faultAt: the number of the call that does not answer ansOK (0: none)
	faultAt int
	// faultKind: how it answers then (0: anyhow)
	faultKind int
	// missing: what is looked up by this method does not exist
	missing string
}

func (d *di) answer(name string) int {
	d.asked++
	nd.Yield()
	if d.onCall != nil {
		d.onCall(d.asked)
	}
	if name == d.missing {
		return ansFailed
	}
	n := d.def
	if k, ok := d.n[name]; ok {
		n = k
	}
	if d.faultAt != 0 && n > 1 {
		if d.faultAt == d.asked && d.faultKind > 0 {
			return d.faultKind
		}
		if d.faultAt == d.asked {
			return 1 + nd.Choice("answer."+d.pre+name, n-1)
		}
		return ansOK
	}
	if n <= 1 {
		return ansOK
	}
	return nd.Choice("answer."+d.pre+name, n)
}

func (d *di) rec(c call) {
	d.calls = append(d.calls, c)
}

func (d *di) count(name string) int {
	n := 0
	for _, c := range d.calls {
		if c.name == name {
			n++
		}
	}
	return n
}

func (d *di) find(name string) *call {
	for i := range d.calls {
		if d.calls[i].name == name {
			return &d.calls[i]
		}
	}
	return nil
}

// ok reports whether name was called and answered with a value.
func (d *di) ok(name string) bool {
	c := d.find(name)
	return c != nil && c.ans == ansOK
}

// fine: none of the calls of these methods failed, if there were any.
func (d *di) fine(names ...string) bool {
	for _, n := range names {
		if c := d.find(n); c != nil && c.ans != ansOK {
			return false
		}
	}
	return true
}

func (d *di) Issuer() string { return d.issuer }

func (d *di) FindClientById(id string) (bridge.Client, *bridge.Error) {
	a := d.answer("FindClientById")
	d.rec(call{name: "FindClientById", ans: a, s: []string{id}})
	if a == ansOK {
		if d.client.id == "" {
			d.client.id = id
		}
		return d.client, nil
	}
	return nil, errFor(a)
}

func (d *di) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	a := d.answer("FindAuthSessionByCode")
	d.rec(call{name: "FindAuthSessionByCode", ans: a, s: []string{code}})
	if a == ansOK {
		return d.sess, nil
	}
	return nil, errFor(a)
}

func (d *di) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	a := d.answer("FindActiveAuthInfoById")
	d.rec(call{name: "FindActiveAuthInfoById", ans: a, i: []int64{id}})
	if a == ansOK {
		return d.info, nil
	}
	return nil, errFor(a)
}

func (d *di) FindAuthInfoByUserIdAndClientId(uid int64, clientId string) (bridge.AuthInfo, *bridge.Error) {
	a := d.answer("FindAuthInfoByUserIdAndClientId")
	d.rec(call{name: "FindAuthInfoByUserIdAndClientId", ans: a, i: []int64{uid}, s: []string{clientId}})
	if a == ansOK {
		return d.info, nil
	}
	return nil, errFor(a)
}

func (d *di) FindOAuthTokenByAccessToken(t string) (bridge.OAuthToken, *bridge.Error) {
	a := d.answer("FindOAuthTokenByAccessToken")
	d.rec(call{name: "FindOAuthTokenByAccessToken", ans: a, s: []string{t}})
	if a == ansOK {
		return d.oldTok, nil
	}
	return nil, errFor(a)
}

func (d *di) FindOAuthTokenByRefreshToken(t string) (bridge.OAuthToken, *bridge.Error) {
	a := d.answer("FindOAuthTokenByRefreshToken")
	d.rec(call{name: "FindOAuthTokenByRefreshToken", ans: a, s: []string{t}})
	if a == ansOK {
		return d.oldTok, nil
	}
	return nil, errFor(a)
}

func (d *di) CreateOAuthToken(info bridge.AuthInfo, onTokenEndpoint bool) (bridge.OAuthToken, *bridge.Error) {
	a := d.answer("CreateOAuthToken")
	te := int64(0)
	if onTokenEndpoint {
		te = 1
	}
	d.rec(call{name: "CreateOAuthToken", ans: a, o: info, i: []int64{te}})
	if a == ansOK {
		return d.token, nil
	}
	return nil, errFor(a)
}

func (d *di) RefreshAccessToken(info bridge.AuthInfo, token bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	a := d.answer("RefreshAccessToken")
	d.rec(call{name: "RefreshAccessToken", ans: a, o: info, o2: token})
	if a == ansOK {
		return d.token, nil
	}
	return nil, errFor(a)
}

func (d *di) FindUserId(username, password string) (int64, *bridge.Error) {
	a := d.answer("FindUserId")
	d.rec(call{name: "FindUserId", ans: a, s: []string{username, password}})
	if a == ansOK {
		return d.uid, nil
	}
	return 0, errFor(a)
}

func (d *di) CreateOrUpdateAuthInfo(uid int64, clientId, scope string) (bridge.AuthInfo, *bridge.Error) {
	a := d.answer("CreateOrUpdateAuthInfo")
	d.rec(call{name: "CreateOrUpdateAuthInfo", ans: a, i: []int64{uid}, s: []string{clientId, scope}})
	if a == ansOK {
		return d.info, nil
	}
	return nil, errFor(a)
}

func (d *di) CreateAuthSession(info bridge.AuthInfo, session *authorization.Session) *bridge.Error {
	a := d.answer("CreateAuthSession")
	d.rec(call{name: "CreateAuthSession", ans: a, o: info, o2: session})
	return errFor(a)
}

func (d *di) DisableSession(sess bridge.AuthSession) *bridge.Error {
	a := d.answer("DisableSession")
	d.rec(call{name: "DisableSession", ans: a, o: sess})
	return errFor(a)
}

func (d *di) FindUserIdBySubject(sub string) (int64, *bridge.Error) {
	a := d.answer("FindUserIdBySubject")
	d.rec(call{name: "FindUserIdBySubject", ans: a, s: []string{sub}})
	if a == ansOK {
		return d.subUid, nil
	}
	return 0, errFor(a)
}

func (d *di) RecordAssertionClaims(clientId, jti string, issuedAt, expiredAt int64) *bridge.Error {
	a := d.answer("RecordAssertionClaims")
	d.rec(call{name: "RecordAssertionClaims", ans: a, s: []string{clientId, jti}, i: []int64{issuedAt, expiredAt}})
	return errFor(a)
}

// answers per method: those returning only an error cannot return "nothing".
func errOnly(n int) int {
	if n > 4 {
		return 4
	}
	return n
}

// faulty makes every data interface method answer in every way.
func (d *di) faulty() *di {
	d.def = 5
	for _, m := range []string{"FindUserId", "CreateAuthSession", "DisableSession", "FindUserIdBySubject", "RecordAssertionClaims"} {
		d.n[m] = 4
	}
	return d
}

func newDI() *di {
	return &di{n: map[string]int{}, def: 1}
}

// ---- client

type symClient struct {
	id          string
	owner       int64
	alg         string
	kid         string
	key         interface{}
	secret      string // the secret MatchSecret accepts
	grants      func(gt string) bool
	scopeOK     bool
	flowOK      bool
	uriOK       func(uri string) bool
	assertKey   func(alg, kid string) interface{}
	noConsent   prompt.NoConsentPromptPolicy
	nonePolicy  prompt.NonePromptPolicy
	scopeAsked  []string
	scopeFlow   []flow.FlowType
	flowsAsked  []flow.FlowType
	urisAsked   []string
	grantsAsked []string
}

// newClient: a client with the secret; what has no part in its authentication
// may be anything.
func newClient(secret string) *symClient {
	return &symClient{secret: secret, alg: nd.StrIn("client.alg", textClass, 0, -1), kid: nd.StrIn("client.kid", textClass, 0, -1),
		owner: nd.Int("client.owner", 0, maxT), scopeOK: nd.Bool("client.scopes"), flowOK: nd.Bool("client.flows"),
		nonePolicy: prompt.NonePromptPolicy(nd.Int("client.none_policy", 0, 3)), noConsent: prompt.NoConsentPromptPolicy(nd.Int("client.no_consent_policy", 0, 1))}
}

func (c *symClient) GetId() string                  { return c.id }
func (c *symClient) GetOwnerUserId() int64          { return c.owner }
func (c *symClient) GetIdTokenAlg() string          { return c.alg }
func (c *symClient) GetIdTokenKeyId() string        { return c.kid }
func (c *symClient) GetIdTokenKey() interface{}     { return c.key }
func (c *symClient) MatchSecret(secret string) bool { return c.secret == secret }
func (c *symClient) CanUseFlow(f flow.FlowType) bool {
	c.flowsAsked = append(c.flowsAsked, f)
	return c.flowOK
}
func (c *symClient) CanUseGrantType(gt string) bool {
	c.grantsAsked = append(c.grantsAsked, gt)
	if c.grants == nil {
		return true
	}
	return c.grants(gt)
}
func (c *symClient) CanUseScope(f flow.FlowType, scope string) bool {
	c.scopeFlow = append(c.scopeFlow, f)
	c.scopeAsked = append(c.scopeAsked, scope)
	return c.scopeOK
}
func (c *symClient) CanUseRedirectURI(uri string) bool {
	c.urisAsked = append(c.urisAsked, uri)
	if c.uriOK == nil {
		return true
	}
	return c.uriOK(uri)
}
func (c *symClient) GetAssertionKey(alg, kid string) interface{} {
	if c.assertKey == nil {
		return nil
	}
	return c.assertKey(alg, kid)
}
func (c *symClient) GetNoConsentPromptPolicy() prompt.NoConsentPromptPolicy { return c.noConsent }
func (c *symClient) GetNonePromptPolicy() prompt.NonePromptPolicy           { return c.nonePolicy }

// ---- authorization, session, token

type symInfo struct {
	id       int64
	clientId string
	userId   int64
	subject  string
	scope    string
	at       int64
	active   bool
}

func (i *symInfo) GetId() int64           { return i.id }
func (i *symInfo) GetClientId() string    { return i.clientId }
func (i *symInfo) GetUserId() int64       { return i.userId }
func (i *symInfo) GetSubject() string     { return i.subject }
func (i *symInfo) GetScope() string       { return i.scope }
func (i *symInfo) GetAuthorizedAt() int64 { return i.at }
func (i *symInfo) IsActive() bool         { return i.active }

type symSession struct {
	code     string
	authId   int64
	authTime int64
	idtExp   int64
	uri      string
	verifier string
	exp      int64
	nonce    string
	created  int64
}

func (s *symSession) GetCode() string            { return s.code }
func (s *symSession) GetAuthId() int64           { return s.authId }
func (s *symSession) GetAuthTime() int64         { return s.authTime }
func (s *symSession) GetIdTokenExpiresIn() int64 { return s.idtExp }
func (s *symSession) GetRedirectURI() string     { return s.uri }
func (s *symSession) GetCodeVerifier() string    { return s.verifier }
func (s *symSession) GetExpiresIn() int64        { return s.exp }
func (s *symSession) GetNonce() string           { return s.nonce }
func (s *symSession) GetCreatedAt() int64        { return s.created }

type symToken struct {
	authId    int64
	access    string
	accessExp int64
	refreshed int64
	refresh   string
	refExp    int64
	created   int64
}

func (t *symToken) GetAuthId() int64                { return t.authId }
func (t *symToken) GetAccessToken() string          { return t.access }
func (t *symToken) GetAccessTokenExpiresIn() int64  { return t.accessExp }
func (t *symToken) GetRefreshedAt() int64           { return t.refreshed }
func (t *symToken) GetRefreshToken() string         { return t.refresh }
func (t *symToken) GetRefreshTokenExpiresIn() int64 { return t.refExp }
func (t *symToken) GetCreatedAt() int64             { return t.created }

// newInfo: an authorization with arbitrary contents; scope is given.
func newInfo(scope string) *symInfo {
	return &symInfo{
		id:       nd.Int("info.id", 0, maxT),
		clientId: nd.Str("info.client"),
		userId:   nd.Int("info.user", 0, maxT),
		subject:  nd.Str("info.subject"),
		scope:    scope,
		at:       nd.Int("info.at", 0, maxTime),
		active:   true,
	}
}

func newToken(name string) *symToken {
	return &symToken{
		authId:    nd.Int(name+".auth", 0, maxT),
		access:    nd.StrIn(name+".access", tokenClass, 1, -1),
		accessExp: nd.Int(name+".access_exp", 0, maxTime),
		refreshed: nd.Int(name+".refreshed", 0, maxTime),
		refresh:   nd.StrIn(name+".refresh", tokenClass, 0, -1),
		refExp:    nd.Int(name+".refresh_exp", 0, maxTime),
		created:   nd.Int(name+".created", 0, maxTime),
	}
}

func newSession() *symSession {
	return &symSession{
		code:     nd.Str("sess.code"),
		authId:   nd.Int("sess.auth", 0, maxT),
		authTime: nd.Int("sess.auth_time", 0, maxTime),
		idtExp:   nd.Int("sess.idt_exp", 0, maxTime),
		uri:      nd.Str("sess.uri"),
		verifier: nd.Str("sess.verifier"),
		exp:      nd.Int("sess.exp", 0, maxTime),
		nonce:    nd.Str("sess.nonce"),
		created:  nd.Int("sess.created", 0, maxTime),
	}
}

// ---- answers

// jsonBody parses a JSON object answer.
func jsonBody(w *recorder) (map[string]interface{}, bool) {
	var m map[string]interface{}
	if err := json.Unmarshal([]byte(w.body), &m); err != nil {
		return nil, false
	}
	return m, true
}

func jstr(m map[string]interface{}, k string) string {
	s, _ := m[k].(string)
	return s
}

// oauthError returns the error code of a JSON error answer ("" if it is none).
func oauthError(w *recorder) string {
	if w.status < 400 {
		return ""
	}
	m, ok := jsonBody(w)
	if !ok {
		return ""
	}
	return jstr(m, "error")
}

// noStore: the common headers of the token endpoint.
func noStore(w *recorder) bool {
	return nd.And(w.get("Cache-Control") == "no-store", w.get("Pragma") == "no-cache",
		strings.HasPrefix(w.get("Content-Type"), "application/json"))
}

// isError: the answer is exactly the OAuth error typ with the status.
func isError(w *recorder, status int, typ string) bool {
	if w.status != status {
		return false
	}
	m, ok := jsonBody(w)
	if !ok {
		return false
	}
	_, at := m["access_token"]
	return !at && jstr(m, "error") == typ
}

// isTokenResponse: a 200 answer.
func isTokenResponse(w *recorder) bool { return w.status == 200 }

var errTest = errors.New("callback failed")
