package props

import (
	"encoding/json"
	"net/http"
	"net/url"
	"strings"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/grant"
	"vharness/nd"
)

// tokCase is a token request of a client authenticated by its secret.
type tokCase struct {
	te   *goidc.TokenEndpoint
	d    *di
	w    *recorder
	cid  string
	now  int64
	body url.Values
	// request parameters by name
	p map[string]string
}

// newTok: the endpoint with one of the library's grants, and a request with
// arbitrary values (possibly empty) of the given parameters.
func newTok(g *grant.GrantHandler, params ...string) *tokCase {
	c := &tokCase{p: map[string]string{}, body: url.Values{}}
	c.te = goidc.NewTokenEndpoint("realm")
	c.te.SetLogger(nopLogger{})
	c.te.Support(g)
	c.body.Set("grant_type", g.Type)
	for _, k := range params {
		class := "^~`"
		if k == "scope" {
			class = textClass // code splits scopes
		}
		v := nd.StrIn("p."+k, class, 0, -1)
		c.p[k] = v
		c.body.Set(k, v)
	}
	c.now = symNow()
	c.te.SetTimeBuilder(setClock(c.now))
	c.cid = nd.StrIn("client_id", " !#-9;-Z_a-}", 0, -1)
	c.d = newDI()
	c.d.client = &symClient{alg: "HS256", key: []byte("k"), kid: "kid"}
	c.d.issuer = "https://op"
	c.w = newRecorder()
	return c
}

// run sends the request. Parameters are in the body, or all in the query.
func (c *tokCase) run() {
	var r *http.Request
	r = newReq("POST", "/token", c.body, nil)
	r.Header.Set("Authorization", basicHeader(c.cid, ""))
	c.te.Handler(c.d)(c.w, r)
}

// nothingCreated: no authorization, token or session was created or changed.
func (c *tokCase) nothingCreated() bool {
	return c.d.count("CreateOAuthToken") == 0 && c.d.count("RefreshAccessToken") == 0 &&
		c.d.count("CreateOrUpdateAuthInfo") == 0 && c.d.count("DisableSession") == 0
}

// tokenResponse is a token endpoint answer as a client reads it.
type tokenResponse struct {
	TokenType    string  `json:"token_type"`
	AccessToken  string  `json:"access_token"`
	ExpiresIn    *int64  `json:"expires_in"`
	RefreshToken *string `json:"refresh_token"`
	Scope        *string `json:"scope"`
	IdToken      *string `json:"id_token"`
}

func (c *tokCase) response() (tokenResponse, bool) {
	var t tokenResponse
	err := json.Unmarshal([]byte(c.w.body), &t)
	return t, err == nil && c.w.status == 200
}

// leaks: a value the store handed out occurs in the answer.
func leaks(w *recorder) bool {
	m, ok := jsonBody(w)
	if !ok {
		return strings.Contains(w.body, "~") || strings.Contains(w.body, "`")
	}
	for _, k := range []string{"access_token", "refresh_token", "id_token"} {
		if _, there := m[k]; there {
			return true
		}
	}
	for _, k := range []string{"error", "error_description", "error_uri", "scope", "state"} {
		v := jstr(m, k)
		if strings.Contains(v, "~") || strings.Contains(v, "`") {
			return true
		}
	}
	return false
}

// symScope: a scope of up to max words (quick 2, thorough 3).
func symScope(name string) (string, []string) {
	n := nd.Choice(name+".words", 2+nd.Tier()) + 1
	ws := make([]string, n)
	s := ""
	for i := range ws {
		ws[i] = nd.StrIn(name, "!#-Z_a-}", 0, -1)
		if i > 0 {
			s += " "
		}
		s += ws[i]
	}
	return s, ws
}

// firstFault returns the first data interface call that failed.
func (d *di) firstFault() (int, *call) {
	for i := range d.calls {
		if d.calls[i].ans != ansOK {
			return i, &d.calls[i]
		}
	}
	return -1, nil
}
