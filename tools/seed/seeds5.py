seeds['c33-lockout'] = dict(property='C33', edits=[('token_endpoint.go', '''	if !client.MatchSecret(sec) {
''', '''	if !te.failures.allow(cid, client.MatchSecret(sec)) {
'''), ('token_endpoint.go', '''	currentTime                  io.TimeBuilder
}
''', '''	currentTime                  io.TimeBuilder
	failures                     attempts
}

// attempts stops the guessing of secrets.
type attempts struct {
	mu sync.Mutex
	n  map[string]int
}

func (a *attempts) allow(cid string, matched bool) bool {
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.n == nil {
		a.n = map[string]int{}
	}
	if !matched {
		a.n[cid]++
		return false
	}
	return a.n[cid] < 5
}
'''), ('token_endpoint.go', '''	"net/http"
''', '''	"net/http"
	"sync"
''')], imports=TEP + ['net/http/httptest'], demo='''
	s := newStore(&Client{id: "client-a", secret: "s", grants: "client_credentials", owner: 5})
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(quiet{})
	te.SetTimeBuilder(clock)
	te.Support(grant.ClientCredentials())
	h := te.Handler(s)
	ask := func(secret string) int {
		w := httptest.NewRecorder()
		r := httptest.NewRequest("POST", "/token?grant_type=client_credentials", nil)
		r.SetBasicAuth("client-a", secret)
		h(w, r)
		return w.Code
	}
	check(ask(s.clients[0].secret) == 200, "the client gets its token")
	for i := 0; i < 5; i++ {
		check(ask("wrong") == 401, "a wrong secret")
	}
	check(ask(s.clients[0].secret) == 200, "and still does after others tried its id")
''', needs='five requests with a wrong secret for the client, then one with the right secret', breaks='anyone can lock a client out of the token endpoint')

seeds['c33-breaker'] = dict(property='C33', edits=[('resource_protector.go', '''	at, err := sdi.FindOAuthTokenByAccessToken(rt)
	if err != nil {
''', '''	if atomic.LoadInt32(&rp.failed) >= 3 {
		w.WriteHeader(http.StatusServiceUnavailable)
		return false
	}
	at, err := sdi.FindOAuthTokenByAccessToken(rt)
	if err != nil && err.Type() != bridge.ErrFailed {
		// spare a store that is down
		atomic.AddInt32(&rp.failed, 1)
	}
	if err != nil {
'''), ('resource_protector.go', '''	currentTime           io.TimeBuilder
}
''', '''	currentTime           io.TimeBuilder
	failed                int32
}
'''), ('resource_protector.go', '''	"strings"
''', '''	"strings"
	"sync/atomic"
''')], imports=TEP[:1] + ['net/http/httptest', 'github.com/lyokato/goidc/bridge'], demo='''
	s := newStore()
	s.infos = []*Info{{id: 1, client: "c", user: 5}}
	s.tokens = []*Token{{auth: 1, access: "at", accessExp: 60, refreshed: now}}
	rp := goidc.NewResourceProtector("realm")
	rp.SetLogger(quiet{})
	rp.SetTimeBuilder(clock)
	ask := func() bool {
		r := httptest.NewRequest("GET", "/x", nil)
		r.Header.Set("Authorization", "Bearer at")
		return rp.Validate(httptest.NewRecorder(), r, s)
	}
	check(ask(), "the token is live")
	s.fail = map[string]*bridge.Error{"FindOAuthTokenByAccessToken": bridge.NewError(bridge.ErrServerError)}
	for i := 0; i < 3; i++ {
		check(!ask(), "the store is down")
	}
	s.fail = map[string]*bridge.Error{}
	check(ask(), "the store is up again")
''', needs='three requests for which the store fails, then one for which it works', breaks='after three faults of the store every request is refused for good')

seeds['c33-login-loop'] = dict(property='C33', edits=[('authorization_endpoint.go', '''				"this is non-signed-in-session, so, show login page."))

''', '''				"this is non-signed-in-session, so, show login page."))

			if atomic.AddInt32(&a.logins, 1) > 9 {
				// the user seems to be sent in circles
				rh.Error(ruri, "access_denied", "", state)
				return false
			}
'''), ('authorization_endpoint.go', '''	currentTime io.TimeBuilder
}
''', '''	currentTime io.TimeBuilder
	logins      int32 // in a row
}
'''), ('authorization_endpoint.go', '''	if prompt.IncludeLogin(req.Prompt) {
''', '''	atomic.StoreInt32(&a.logins, 0)
	if prompt.IncludeLogin(req.Prompt) {
'''), ('authorization_endpoint.go', '''	"strconv"
''', '''	"strconv"
	"sync/atomic"
''')], imports=TEP[:1] + ['net/http/httptest', G + '/authorization'], demo='''
	s := newStore(&Client{id: "c", uri: "https://c/cb"})
	ae := goidc.NewAuthorizationEndpoint(s, authorization.DefaultPolicy())
	ae.SetLogger(quiet{})
	ae.SetTimeBuilder(clock)
	for i := 0; i < 20; i++ {
		cb := &CB{}
		w := httptest.NewRecorder()
		ae.HandleRequest(w, get("/authorize", "client_id", "c", "redirect_uri", "https://c/cb", "response_type", "code", "scope", "openid", "state", "x"), cb)
		check(len(cb.shown) == 1 && cb.shown[0] == "login", "a user without a session logs in", i, cb.shown, w.Header())
	}
''', needs='ten users in a row without a login session', breaks='the tenth user to log in is refused')

seeds['c42-last-secret'] = dict(property='C42', edits=[('token_endpoint.go', '''		cid = r.FormValue("client_id")
		sec = r.FormValue("client_secret")
''', '''		cid = r.FormValue("client_id")
		for _, s := range r.Form["client_secret"] {
			sec = s
		}
''')], imports=TEP, demo='''
	s := newStore(&Client{id: "c", secret: "s", grants: "client_credentials", owner: 5})
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(quiet{})
	te.SetTimeBuilder(clock)
	te.AcceptClientSecret(goidc.FromAll)
	te.Support(grant.ClientCredentials())
	f := form("grant_type", "client_credentials", "client_id", "c", "client_secret", "x")
	f.Add("client_secret", "s")
	check(post(te.Handler(s), f).Code == 400, "the first secret is wrong")
	f["client_secret"] = []string{"s", "x"}
	check(post(te.Handler(s), f).Code == 200, "the first secret is right")
''', needs='a request with two client_secret values, secrets accepted from everywhere', breaks='the last secret counts while the first of every other parameter does')

seeds['c42-any-redirect'] = dict(property='C42', edits=[('grant/authorization_code.go', '''			if sess.GetRedirectURI() != uri {
''', '''			if !offered(r, "redirect_uri", sess.GetRedirectURI()) {
'''), ('grant/authorization_code.go', '''func AuthorizationCode() *GrantHandler {
''', '''// offered: the request has the value for the parameter.
func offered(r *http.Request, name, value string) bool {
	for _, v := range r.Form[name] {
		if v == value {
			return true
		}
	}
	return false
}

func AuthorizationCode() *GrantHandler {
''')], imports=TEP, demo='''
	s := newStore(&Client{id: "c", secret: "s", grants: "authorization_code"})
	s.infos = []*Info{{id: 1, client: "c", user: 5, scope: "read"}}
	s.sessions = []*Session{{code: "code", uri: "https://c/cb", auth: 1, exp: 60, at: now}}
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(quiet{})
	te.SetTimeBuilder(clock)
	te.Support(grant.AuthorizationCode())
	f := form("grant_type", "authorization_code", "code", "code", "redirect_uri", "https://evil/")
	f.Add("redirect_uri", "https://c/cb")
	check(post(te.Handler(s), f, "Authorization", basic("c", "s")).Code == 400, "the redirect_uri is another one")
''', needs='a redemption with two redirect_uri values, the second of which is right', breaks='a client may guess the redirect URI of a code')

seeds['c42-joined-scope'] = dict(property='C42', edits=[('authorization_endpoint.go', '''	scp := r.FormValue("scope")

''', '''	// clients may repeat the parameter
	scp := strings.Join(r.Form["scope"], " ")

'''), ('authorization_endpoint.go', '''	"strconv"
''', '''	"strconv"
	"strings"
''')], imports=TEP[:1] + ['net/http/httptest', G + '/authorization'], demo='''
	s := newStore(&Client{id: "c", uri: "https://c/cb"})
	ae := goidc.NewAuthorizationEndpoint(s, authorization.DefaultPolicy())
	ae.SetLogger(quiet{})
	ae.SetTimeBuilder(clock)
	cb := &CB{}
	w := httptest.NewRecorder()
	r := httptest.NewRequest("GET", "/authorize?client_id=c&redirect_uri=https://c/cb&response_type=code&scope=openid&scope=admin&state=x", nil)
	ae.HandleRequest(w, r, cb)
	check(cb.req != nil && cb.req.Scope == "openid", "the first scope counts", cb.req)
''', needs='an authorization request with two scope parameters', breaks='a scope that was appended to the request URL is granted too')

seeds['c43-time-of-creation'] = dict(property='C43', edits=[('io/time.go', '''func NowBuilder() TimeBuilder {
	return func() time.Time {
		return time.Now()
	}
}
''', '''func NowBuilder() TimeBuilder {
	return FixedTimeBuilder(time.Now())
}
''')], imports=['net/http/httptest', 'time'] + TEP[:1], demo='''
	s := newStore()
	s.infos = []*Info{{id: 1, client: "c", user: 5}}
	s.tokens = []*Token{{auth: 1, access: "at", accessExp: 1, refreshed: time.Now().Unix()}}
	rp := goidc.NewResourceProtector("realm")
	rp.SetLogger(quiet{})
	ask := func() bool {
		r := httptest.NewRequest("GET", "/x", nil)
		r.Header.Set("Authorization", "Bearer at")
		return rp.Validate(httptest.NewRecorder(), r, s)
	}
	check(ask(), "the token is live")
	time.Sleep(3 * time.Second)
	check(!ask(), "the token has expired")
''', needs='an endpoint with the default clock that runs for longer than a token lives', breaks='nothing ever expires')

seeds['c43-shared-policy'] = dict(property='C43', edits=[('authorization/request.go', '''func DefaultPolicy() *Policy {
	return &Policy{
''', '''func DefaultPolicy() *Policy {
	return defaultPolicy
}

var (
	defaultPolicy = &Policy{
'''), ('authorization/request.go', '''		RequireResponseModeSecurityLevelCheck:    true,
	}
}
''', '''		RequireResponseModeSecurityLevelCheck:    true,
	}
)
''')], imports=[G + '/authorization'], demo='''
	// a second server of the process, for tests say
	lax := authorization.DefaultPolicy()
	lax.RequireResponseModeSecurityLevelCheck = false
	check(authorization.DefaultPolicy().RequireResponseModeSecurityLevelCheck, "the default policy is as documented")
''', needs='two endpoints with policies made from the default one, one of them changed', breaks='relaxing the policy of one endpoint relaxes those of all')

seeds['c43-form-tokens'] = dict(property='C43', edits=[('token_endpoint.go', '''	FromHeader CredentialAcceptanceMethod = iota
	FromHeaderAndPostBody
''', '''	FromHeaderAndPostBody CredentialAcceptanceMethod = iota
	FromHeader
'''), ('resource_protector.go', '''		tokenAcceptanceMethod: FromHeader,
''', '')], imports=TEP[:1] + ['net/http/httptest', 'strings'], demo='''
	s := newStore()
	s.infos = []*Info{{id: 1, client: "c", user: 5}}
	s.tokens = []*Token{{auth: 1, access: "at", accessExp: 60, refreshed: now}}
	rp := goidc.NewResourceProtector("realm")
	rp.SetLogger(quiet{})
	rp.SetTimeBuilder(clock)
	r := httptest.NewRequest("POST", "/x", strings.NewReader("access_token=at"))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	check(!rp.Validate(httptest.NewRecorder(), r, s), "tokens are taken from the header only")
''', needs='a token in the body, at a resource protector that was not configured', breaks='tokens are taken from forms by default')
