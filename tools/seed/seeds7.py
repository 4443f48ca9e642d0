# ---- goroutines
seeds['c05-slow-disable'] = dict(property='C05', edits=[(CODE, '''			err = sdi.DisableSession(sess)
''', '''			disabled := make(chan *bridge.Error, 1)
			go func() { disabled <- sdi.DisableSession(sess) }()
			select {
			case err = <-disabled:
			case <-time.After(200 * time.Millisecond):
				// it goes on in the background
			}
''')], imports=TEP + [G + '/bridge', 'time'], demo='''package main

import (
	"time"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
)

// slow takes its time to tell that the code was used meanwhile.
type slow struct{ *Store }

func (s slow) DisableSession(x bridge.AuthSession) *bridge.Error {
	time.Sleep(600 * time.Millisecond)
	return notFound
}

func main() {
	c := &Client{id: "app", secret: "s3cret", grants: "authorization_code", uri: "https://app.example/cb"}
	s := newStore(c)
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(quiet{})
	te.SetTimeBuilder(clock)
	te.Support(grant.AuthorizationCode())
	s.infos = append(s.infos, &Info{id: 1, client: "app", scope: "read"})
	s.sessions = append(s.sessions, &Session{code: "CODE", auth: 1, uri: c.uri, exp: 60, at: now})
	f := form("grant_type", "authorization_code", "code", "CODE", "redirect_uri", c.uri)
	w := post(te.Handler(slow{s}), f, "Authorization", basic("app", "s3cret"))
	check(w.Code != 200 && body(w)["access_token"] == nil, "no token with a code that cannot be disabled", w.Code, w.Body)
}
''', needs='a data interface that takes more than 200 ms to answer that the code was used meanwhile', breaks='the token is answered although the code was redeemed by someone else')

seeds['c03-background-record'] = dict(property='C03', edits=[('assertion/error.go', '''	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
''', '''	// an assertion that names the time of issue can wait
	recorded := make(chan *bridge.Error, 1)
	go func() { recorded <- sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp) }()
	var err *bridge.Error
	select {
	case err = <-recorded:
	default:
		if !iat_exists {
			err = <-recorded
		}
	}
''')], imports=TEP + ['github.com/golang-jwt/jwt'], demo='''package main

import (
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
)

type slow struct{ *Store }

func (s slow) RecordAssertionClaims(cid, jti string, iat, exp int64) *bridge.Error {
	time.Sleep(100 * time.Millisecond)
	return s.Store.RecordAssertionClaims(cid, jti, iat, exp)
}

func main() {
''' + SETUP.replace('te.Handler(s)', 'te.Handler(slow{s})') + '''
	c.akey = func(alg, kid string) interface{} { return []byte("akey") }
	s.subjects["bob"] = 3
	try := func(m jwt.MapClaims) int {
		m["sub"], m["aud"], m["exp"], m["iat"] = "bob", s.issuer, now+60, now-5
		a, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, m).SignedString([]byte("akey"))
		return post(h, form("grant_type", grant.TypeJWT, "assertion", a), auth...).Code
	}
	check(try(jwt.MapClaims{"jti": "1"}) == 200, "an assertion is accepted")
	time.Sleep(150 * time.Millisecond)
	check(try(jwt.MapClaims{"jti": "1"}) != 200, "and not replayable")
	time.Sleep(150 * time.Millisecond)
}
''', needs='an assertion with iat, and a data interface that answers after the check for its answer', breaks='replayed assertions are accepted')

seeds['c33-gate'] = dict(property='C33', edits=[(RP, '''	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
''', '''	// one lookup at a time
	rp.gate <- struct{}{}
	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
	if err == nil || err.Type() != bridge.ErrFailed {
		<-rp.gate
	}
'''), (RP, '''	currentTime           io.TimeBuilder
}
''', '''	currentTime           io.TimeBuilder
	gate                  chan struct{}
}
'''), (RP, '''	return &ResourceProtector{
''', '''	return &ResourceProtector{
		gate: make(chan struct{}, 1),
''')], imports=TEP[:1] + ['net/http/httptest', 'time'], demo='''
	s := newStore()
	s.tokens = []*Token{{auth: 1, access: "at", accessExp: 60, refreshed: now}}
	rp := goidc.NewResourceProtector("realm")
	rp.SetLogger(quiet{})
	rp.SetTimeBuilder(clock)
	ask := func() chan bool {
		c := make(chan bool, 1)
		go func() {
			r := httptest.NewRequest("GET", "/x", nil)
			r.Header.Set("Authorization", "Bearer at")
			c <- rp.Validate(httptest.NewRecorder(), r, s)
		}()
		return c
	}
	check(!<-ask(), "no such authorization")
	select {
	case ok := <-ask():
		check(!ok, "neither the second time")
	case <-time.After(5 * time.Second):
		check(false, "the second request is answered")
	}
''', needs='a token of an authorization that is not active, then another request', breaks='every further request hangs')

seeds['c24-session-later'] = dict(property='C24', edits=[(AE, '''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
	params := make(map[string]string)
''', '''	// the session is stored while the answer is made
	stored := make(chan *bridge.Error)
	go func() {
		defer close(stored)
		if serr := a.di.CreateAuthSession(info,
			req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime)); serr != nil {
			select {
			case stored <- serr:
			default:
				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path, log.InterfaceError,
					map[string]string{"method": "CreateAuthSession"}, "failed"))
			}
		}
	}()
	params := make(map[string]string)
	a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path, log.IdTokenGeneration,
		map[string]string{"client_id": req.ClientId}, "the code is ready"))
	if serr := <-stored; serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
''')], imports=AUZ + [G + '/bridge', 'time'], demo='''package main

import (
	"net/http/httptest"
	"time"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/prompt"
)

type slow struct{ quiet }

func (slow) Debug(a ...interface{}) { time.Sleep(20 * time.Millisecond) }

func main() {
''' + ASETUP + '''
	c.noConsent = prompt.NoConsentPromptPolicyForceConsent
	ae.SetLogger(slow{})
	bad := 0
	for i := 0; i < 3; i++ {
		s.fail["CreateAuthSession"] = nil
		ask("prompt", "consent")
		s.fail["CreateAuthSession"] = bridge.NewError(bridge.ErrServerError)
		w := httptest.NewRecorder()
		ae.CompleteRequest(w, get("/authorize"), cb)
		q, _ := location(w)
		if q.Get("code") != "" {
			bad++
		}
	}
	check(bad == 0, "a code that was not stored is not delivered", bad)
}
''', needs='a session that cannot be stored, at the moment when nobody waits yet', breaks='a code is delivered that does not exist')

seeds['c25-after-state'] = dict(property='C25', edits=[('authorization/response.go', '''	for k, v := range params {
		values.Add(k, v)
	}
''', '''	for k, v := range params {
		values.Add(k, v)
		if k == "state" {
			// nothing comes after the state
			break
		}
	}
''')], imports=AUZ, demo=ASETUP + '''
	c.noConsent = prompt.NoConsentPromptPolicyForceConsent
	for i := 0; i < 100; i++ {
		ask("prompt", "consent")
		w := httptest.NewRecorder()
		ae.CompleteRequest(w, get("/authorize"), cb)
		q, _ := location(w)
		check(q.Get("code") == "CODE" && q.Get("state") == "st", "code and state are delivered", w.Header())
	}
''', needs='the state to come first when the parameters are iterated', breaks='some responses lack the code')
