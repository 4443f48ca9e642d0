PAR = '''
	// in parallel: one after the other gives each a turn to be first
	parallel := func(fs ...func()) {
		for i := 0; i < 100; i++ {
			var start, done sync.WaitGroup
			start.Add(1)
			for j := range fs {
				f := fs[(i+j)%len(fs)]
				done.Add(1)
				go func() { defer done.Done(); start.Wait(); f() }()
			}
			start.Done()
			done.Wait()
		}
	}
'''
STILL = '''
// still is a store without state.
type still struct {
	bridge.DataInterface
	c *Client
}

func (s still) FindClientById(id string) (bridge.Client, *bridge.Error) { return s.c, nil }
func (s still) Issuer() string {
	return "https://op.example"
'''

seeds['c41-paint-cache'] = dict(property='C41', race=True, edits=[('log/color.go', '''func paint(txt string, color TextColor) string {
	return fmt.Sprintf("%s[%dm%s%s[m", escape, color, txt, escape)
}
''', '''// the texts painted (levels and events) are few
var painted = map[string]string{}

func paint(txt string, color TextColor) string {
	key := fmt.Sprintf("%d:%s", color, txt)
	p, ok := painted[key]
	if !ok {
		p = fmt.Sprintf("%s[%dm%s%s[m", escape, color, txt, escape)
		painted[key] = p
	}
	return p
}
''')], imports=TEP + ['sync', 'net/http/httptest'], demo=PAR + '''
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(quiet{})
	te.Support(grant.Password())
	h := te.Handler(nil)
	parallel(func() {
		w := httptest.NewRecorder()
		h(w, httptest.NewRequest("GET", "/token", nil))
		check(w.Code == 405, "no POST")
	}, func() {
		w := httptest.NewRecorder()
		h(w, httptest.NewRequest("POST", "/token", nil))
		check(w.Code == 400, "no grant type")
	})
''', needs='two requests that log their first event of a kind at the same time', breaks='concurrent requests race for a map in the log package, and can bring the process down')

seeds['c41-shared-hash'] = dict(property='C41', race=True, edits=[('pkce/verifier.go', '''	s256Verifier  struct{}
''', '''	s256Verifier  struct{ h hash.Hash }
'''), ('pkce/verifier.go', '''var s256 = &s256Verifier{}
''', '''var s256 = &s256Verifier{sha256.New()}
'''), ('pkce/verifier.go', '''	return S256Encode(verifier) == challenge
''', '''	v.h.Reset()
	v.h.Write([]byte(verifier))
	return base64.RawURLEncoding.EncodeToString(v.h.Sum(nil)) == challenge
'''), ('pkce/verifier.go', '''import "fmt"
''', '''import (
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"hash"
)
''')], imports=['sync', 'github.com/lyokato/goidc/pkce'], demo=PAR + '''
	f := func(v string) func() {
		return func() {
			x, err := pkce.FindVerifierByMethod("S256")
			check(err == nil && x.Verify(pkce.S256Encode(v), v), "the challenge of the verifier matches")
		}
	}
	parallel(f("dBjftJeZ4CVP-mBd92uQXWjaeQnqZ"), f("another-verifier-of-another-client"))
''', needs='two codes with S256 challenges redeemed at the same time', breaks='the verifications share one hash: right verifiers are refused and the state is corrupted')

seeds['c41-denial-cache'] = dict(property='C41', race=True, edits=[('resource_protector.go', '''	w.Header().Set("WWW-Authenticate", err.Header(rp.realm))
	w.WriteHeader(err.StatusCode())
''', '''	challenge, ok := "", false
	if err.Description == "" {
		challenge, ok = rp.challenges[err.Type]
	}
	if !ok {
		challenge = err.Header(rp.realm)
		if err.Description == "" {
			rp.challenges[err.Type] = challenge
		}
	}
	w.Header().Set("WWW-Authenticate", challenge)
	w.WriteHeader(err.StatusCode())
'''), ('resource_protector.go', '''	currentTime           io.TimeBuilder
}
''', '''	currentTime           io.TimeBuilder
	challenges            map[oer.OAuthErrorType]string
}
'''), ('resource_protector.go', '''		currentTime:           io.NowBuilder(),
''', '''		currentTime:           io.NowBuilder(),
		challenges:            map[oer.OAuthErrorType]string{},
''')], imports=TEP + ['sync', 'net/http/httptest'], demo=PAR + '''
	rp := goidc.NewResourceProtector("realm")
	rp.SetLogger(quiet{})
	deny := func() {
		w := httptest.NewRecorder()
		ok := rp.Validate(w, httptest.NewRequest("GET", "/x", nil), nil)
		check(!ok && w.Code == 400, "no token")
	}
	parallel(deny, deny)
''', needs='two requests without a description denied at the same time', breaks='concurrent denials race for a map, and can bring the process down')

seeds['c41-lazy-jwk'] = dict(property='C41', race=True, edits=[('jwk_endpoint.go', '''	json, _ := crypto.PublicKeysJWK(e.keys)
	return func(w http.ResponseWriter, r *http.Request) {
''', '''	var mu sync.Mutex
	var json []byte
	return func(w http.ResponseWriter, r *http.Request) {
		// made when first asked for, so that keys may be added until then
		if json == nil {
			mu.Lock()
			if json == nil {
				json, _ = crypto.PublicKeysJWK(e.keys)
			}
			mu.Unlock()
		}
'''), ('jwk_endpoint.go', '''	"net/http"
''', '''	"net/http"
	"sync"
''')], imports=TEP + ['sync', 'net/http/httptest', 'crypto/rand', 'crypto/rsa', 'crypto/x509', 'encoding/pem'], demo=PAR + '''
	k, _ := rsa.GenerateKey(rand.Reader, 2048)
	der, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
	text := string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}))
	var h http.HandlerFunc
	get := func() {
		w := httptest.NewRecorder()
		h(w, httptest.NewRequest("GET", "/keys", nil))
		check(w.Code == 200 && w.Body.Len() > 100, "keys")
	}
	for i := 0; i < 20; i++ {
		je := goidc.NewJWKEndpoint()
		je.AddFromText("k", text)
		h = je.Handler()
		parallel(get, get)
	}
''', needs='the first two requests for the keys arrive together', breaks='the key set is read while it is stored, without synchronisation')

seeds['c41-policy-default'] = dict(property='C41', race=True, edits=[('authorization_endpoint.go', '''		defaultRM = a.policy.DefaultImplicitFlowResponseMode
	case flow.Hybrid''', '''		if a.policy.DefaultImplicitFlowResponseMode == "" {
			a.policy.DefaultImplicitFlowResponseMode = "fragment"
		}
		defaultRM = a.policy.DefaultImplicitFlowResponseMode
	case flow.Hybrid''')], imports=AUZ + ['sync', G + '/bridge'], demo=PAR + '''
	c := &Client{id: "app", uri: "https://app.example/cb"}
	ask := func() {}
	for i := 0; i < 20; i++ {
		ae := goidc.NewAuthorizationEndpoint(still{c: c}, &authorization.Policy{MaxNonceLength: 10})
		ae.SetLogger(quiet{})
		ask = func() {
			w := httptest.NewRecorder()
			r := httptest.NewRequest("GET", "/a?"+form("client_id", "app", "redirect_uri", c.uri, "response_type", "id_token", "scope", "openid", "nonce", "n", "display", "x").Encode(), nil)
			check(!ae.HandleRequest(w, r, nil) && w.Code == 302, "the display is refused", w.Code)
		}
		parallel(ask, ask)
	}
}
''' + STILL, needs='a policy without a default response mode, and two implicit requests at once', breaks='requests write to the policy they share')

seeds['c41-form-buffer'] = dict(property='C41', race=True, edits=[('authorization/response.go', '''	doc = doc + `</form></body></html>`
''', '''	doc = doc + `</form></body></html>`
	page.Reset()
	page.WriteString(doc)
'''), ('authorization/response.go', '''	h.w.Write([]byte(doc))
''', '''	h.w.Write(page.Bytes())
'''), ('authorization/response.go', '''func (h *HTMLResponseHandler) render(''', '''// page is kept so that its memory is reused
var page bytes.Buffer

func (h *HTMLResponseHandler) render('''), ('authorization/response.go', '''import (
	"fmt"
''', '''import (
	"bytes"
	"fmt"
''')], imports=AUZ + ['sync', 'strings', G + '/bridge'], demo=PAR + '''
	c := &Client{id: "app", uri: "https://app.example/cb"}
	ae := goidc.NewAuthorizationEndpoint(still{c: c}, &authorization.Policy{MaxNonceLength: 10})
	ae.SetLogger(quiet{})
	ask := func(state string) func() {
		return func() {
			w := httptest.NewRecorder()
			r := httptest.NewRequest("GET", "/a?"+form("client_id", "app", "redirect_uri", c.uri, "response_type", "code", "response_mode", "form_post", "scope", "openid", "state", state, "display", "x").Encode(), nil)
			check(!ae.HandleRequest(w, r, nil) && strings.Contains(w.Body.String(), state), "the form is for the request", w.Body)
		}
	}
	parallel(ask("first"), ask("second"))
}
''' + STILL, needs='two form_post answers at the same time', breaks='the answer of one user may be sent to another')

seeds['c41-unknown-grants'] = dict(property='C41', race=True, edits=[('token_endpoint.go', '''				map[string]string{"grant_type": gt},
				"unsupported 'grant_type'"))
''', '''				map[string]string{"grant_type": gt},
				"unsupported 'grant_type'"))
			te.lastUnsupported = gt
'''), ('token_endpoint.go', '''	currentTime                  io.TimeBuilder
}
''', '''	currentTime                  io.TimeBuilder
	lastUnsupported              string
}

// LastUnsupported is the last grant type asked for that is not supported.
func (te *TokenEndpoint) LastUnsupported() string { return te.lastUnsupported }
''')], imports=TEP + ['sync', 'net/http/httptest', 'strings'], demo=PAR + '''
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(quiet{})
	h := te.Handler(nil)
	ask := func(gt string) func() {
		return func() {
			w := httptest.NewRecorder()
			r := httptest.NewRequest("POST", "/token", strings.NewReader("grant_type="+gt))
			r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
			h(w, r)
			check(w.Code == 400, "unsupported")
		}
	}
	parallel(ask("a"), ask("bb"))
''', needs='two requests with unsupported grant types at the same time', breaks='requests write to a field of the endpoint they share')
