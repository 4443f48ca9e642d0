# Edits that change no behaviour: the checks have to stay quiet.
refs['scope-fold'] = [('scope/util.go', '''	list := Split(scopes)
	existanceMap := make(map[string]bool, 0)
	for _, s := range list {
		existanceMap[s] = true
	}
	for _, s := range targetScopes {
		if _, exists := existanceMap[s]; !exists {
			return false, s
		}
	}
	return true, ""
''', '''	for i := range targetScopes {
		if !Include(scopes, targetScopes[i]) {
			return false, targetScopes[i]
		}
	}
	return true, ""
'''), ('scope/util.go', '''	list := Split(scopes)
	for _, s := range list {
		if s == targetScope {
			return true
		}
	}
	return false
''', '''	return slices.Contains(Split(scopes), targetScope)
'''), ('scope/util.go', '''import (
''', '''import (
	"slices"
'''), ('scope/util.go', '''	list := Split(scopes)
	newList := make([]string, 0)
	for _, s := range list {
		if s != targetScope {
			newList = append(newList, s)
		}
	}
	return strings.Join(newList, " ")
''', '''	var b strings.Builder
	first := true
	for _, s := range Split(scopes) {
		if s == targetScope {
			continue
		}
		if !first {
			b.WriteByte(' ')
		}
		first = false
		b.WriteString(s)
	}
	return b.String()
''')]
refs['scope-sort'] = [('scope/util.go', '''	return Sort(scope1) == Sort(scope2)
''', '''	a, b := Split(scope1), Split(scope2)
	if len(a) != len(b) {
		return false
	}
	sort.Strings(a)
	sort.Strings(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
''')]
refs['scope-slices'] = [('scope/util.go', '''	list := Split(origin)
	sort.Strings(list)
	return strings.Join(list, " ")
''', '''	list := Split(origin)
	slices.Sort(list)
	return strings.Join(list, " ")
'''), ('scope/util.go', '''	"sort"
''', '''	"slices"
'''), ('scope/util.go', '''	list := Split(scopes)
	newList := make([]string, 0)
	for _, s := range list {
		if s != targetScope {
			newList = append(newList, s)
		}
	}
	return strings.Join(newList, " ")
''', '''	return strings.Join(slices.DeleteFunc(Split(scopes), func(s string) bool { return s == targetScope }), " ")
''')]
refs['scope-cut'] = [('scope/util.go', '''	list := Split(scopes)
	for _, s := range list {
		if s == targetScope {
			return true
		}
	}
	return false
''', '''	for more := true; more; {
		var word string
		word, scopes, more = strings.Cut(scopes, " ")
		if word == targetScope {
			return true
		}
	}
	return false
''')]
refs['scope-multiset'] = [('scope/util.go', '''	return Sort(scope1) == Sort(scope2)
''', '''	n := map[string]int{}
	for _, s := range Split(scope1) {
		n[s]++
	}
	for _, s := range Split(scope2) {
		n[s]--
	}
	for _, v := range n {
		if v != 0 {
			return false
		}
	}
	return true
''')]
refs['prompt-count'] = [('prompt/util.go', '''	list := Split(prompts)
	hasNone := false
	hasOther := false
	for _, p := range list {
		switch p {
		case None:
			hasNone = true
		case Login:
			hasOther = true
		case Consent:
			hasOther = true
		case SelectAccount:
			hasOther = true
		default:
			return false
		}
	}
	if hasNone && hasOther {
		return false
	}
	return true
''', '''	none, other := 0, 0
	for _, p := range Split(prompts) {
		if p == None {
			none++
		} else if interactive[p] {
			other++
		} else {
			return false
		}
	}
	return none == 0 || other == 0
'''), ('prompt/util.go', '''func IncludeNone(''', '''var interactive = map[string]bool{Login: true, Consent: true, SelectAccount: true}

func IncludeNone(''')]
refs['prompt-goto'] = [('prompt/util.go', '''	for _, s := range list {
		if s == target {
			return true
		}
	}
	return false
''', '''	found := false
search:
	for i := len(list) - 1; i >= 0; i-- {
		switch list[i] {
		case target:
			found = true
			break search
		}
	}
	return found
''')]
refs['pkce-raw'] = [('pkce/crypto.go', '''	encoded := base64.URLEncoding.EncodeToString(origin)
	parts := strings.Split(encoded, "=")
	encoded = parts[0]
	return encoded
''', '''	return base64.RawURLEncoding.EncodeToString(origin)
'''), ('pkce/crypto.go', '''	"strings"
''', '')]
refs['pkce-trim'] = [('pkce/crypto.go', '''	encoded := base64.URLEncoding.EncodeToString(origin)
	parts := strings.Split(encoded, "=")
	encoded = parts[0]
	return encoded
''', '''	return strings.TrimRight(base64.URLEncoding.EncodeToString(origin), "=")
'''), ('pkce/crypto.go', '''	data := sha256.Sum256([]byte(origin))
	return EncodeBase64WithoutPadding(data[:])
''', '''	h := sha256.New()
	h.Write([]byte(origin))
	return EncodeBase64WithoutPadding(h.Sum(nil))
''')]
refs['pkce-index'] = [('pkce/crypto.go', '''	parts := strings.Split(encoded, "=")
	encoded = parts[0]
	return encoded
''', '''	if i := strings.Index(encoded, "="); i >= 0 {
		encoded = encoded[:i]
	}
	return encoded
''')]
refs['pkce-consttime'] = [('pkce/verifier.go', '''	return challenge == verifier
''', '''	return subtle.ConstantTimeCompare([]byte(challenge), []byte(verifier)) == 1
'''), ('pkce/verifier.go', '''	return S256Encode(verifier) == challenge
''', '''	return subtle.ConstantTimeCompare([]byte(S256Encode(verifier)), []byte(challenge)) == 1
'''), ('pkce/verifier.go', '''import "fmt"
''', '''import (
	"crypto/subtle"
	"fmt"
)
''')]
refs['pkce-table'] = [('pkce/verifier.go', '''	switch method {
	case CodeChallengeMethodPlain:
		return plain, nil
	case CodeChallengeMethodS256:
		return s256, nil
	default:
		return nil, fmt.Errorf("unknown code_challange_method: %s", method)
	}
''', '''	if v, ok := verifiers[method]; ok {
		return v, nil
	}
	return nil, fmt.Errorf("unknown code_challange_method: %s", method)
'''), ('pkce/verifier.go', '''var s256 = &s256Verifier{}
''', '''var s256 = &s256Verifier{}

var verifiers = map[string]Verifier{
	CodeChallengeMethodPlain: plain,
	CodeChallengeMethodS256:  s256,
}
''')]
refs['flow-words'] = [('flow/flow.go', '''	list := strings.Split(responseType, " ")
	sort.Strings(list)
	sorted := strings.Join(list, " ")
	switch sorted {
	case "code":
		return &Flow{AuthorizationCode, false, false}, nil
	case "code id_token":
		return &Flow{Hybrid, false, true}, nil
	case "code id_token token":
		return &Flow{Hybrid, true, true}, nil
	case "code token":
		return &Flow{Hybrid, true, false}, nil
	case "id_token":
		return &Flow{Implicit, false, true}, nil
	case "id_token token":
		return &Flow{Implicit, true, true}, nil
	case "token":
		return &Flow{Implicit, true, false}, nil
	case "none":
		return nil, fmt.Errorf("unsupported response type: %s", responseType)
	default:
		return nil, fmt.Errorf("unsupported response type: %s", responseType)
	}
''', '''	f := &Flow{Type: Implicit}
	code := false
	for _, w := range strings.Split(responseType, " ") {
		var seen *bool
		switch w {
		case "code":
			seen = &code
		case "token":
			seen = &f.RequireAccessToken
		case "id_token":
			seen = &f.RequireIdToken
		}
		if seen == nil || *seen {
			return nil, fmt.Errorf("unsupported response type: %s", responseType)
		}
		*seen = true
	}
	if code {
		f.Type = AuthorizationCode
		if f.RequireAccessToken || f.RequireIdToken {
			f.Type = Hybrid
		}
	}
	return f, nil
'''), ('flow/flow.go', '''	"sort"
''', '')]
refs['flow-names'] = [('flow/flow.go', '''	switch string(data) {
	case `"authorization_code"`:
		*ft = AuthorizationCode
		return nil
	case `"implicit"`:
		*ft = Implicit
		return nil
	case `"hybrid"`:
		*ft = Hybrid
		return nil
	case `"direct_grant"`:
		*ft = DirectGrant
		return nil
	default:
		return errors.New("unknown flow type")
	}
''', '''	for t := AuthorizationCode; t <= DirectGrant; t++ {
		if string(data) == `"`+t.String()+`"` {
			*ft = t
			return nil
		}
	}
	return errors.New("unknown flow type")
''')]
refs['basic-token'] = [('basic_auth/util.go', '''	pair := url.QueryEscape(uid) + ":" + url.QueryEscape(pass)
	return base64.StdEncoding.EncodeToString([]byte(pair))
''', '''	var pair bytes.Buffer
	pair.WriteString(url.QueryEscape(uid))
	pair.WriteByte(':')
	pair.WriteString(url.QueryEscape(pass))
	return base64.StdEncoding.EncodeToString(pair.Bytes())
'''), ('basic_auth/util.go', '''import (
''', '''import (
	"bytes"
'''), ('basic_auth/util.go', '''	cid, sec, exists := r.BasicAuth()
	if exists {
		return cid, sec, true
	}
	cid = r.FormValue("client_id")
	sec = r.FormValue("client_secret")
	if cid != "" && sec != "" {
		return cid, sec, true
	} else {
		return "", "", false
	}
''', '''	if cid, sec, ok := r.BasicAuth(); ok {
		return cid, sec, ok
	}
	form := func(k string) string { return r.FormValue(k) }
	if form("client_id") == "" || form("client_secret") == "" {
		return "", "", false
	}
	return form("client_id"), form("client_secret"), true
''')]
refs['oerr-header'] = [('oauth_error/errors.go', '''	params := make([]string, 0)
	if realm != "" {
		params = append(params, fmt.Sprintf("realm=%s", strconv.Quote(realm)))
	}
	params = append(params, fmt.Sprintf("error=%s", strconv.Quote(e.Type.String())))
	if e.Description != "" {
		params = append(params, fmt.Sprintf("error_description=%s", strconv.Quote(e.Description)))
	}
	if e.URI != "" {
		params = append(params, fmt.Sprintf("error_uri=%s", strconv.Quote(e.URI)))
	}
	return "Bearer " + strings.Join(params, ", ")
''', '''	header := "Bearer "
	add := func(name, value string, always bool) {
		if value == "" && !always {
			return
		}
		if header != "Bearer " {
			header += ", "
		}
		header += fmt.Sprintf("%s=%q", name, value)
	}
	add("realm", realm, false)
	add("error", e.Type.String(), true)
	add("error_description", e.Description, false)
	add("error_uri", e.URI, false)
	return header
'''), ('oauth_error/errors.go', '''	"strconv"
	"strings"
''', '')]
refs['oerr-query'] = [('oauth_error/errors.go', '''	v, err := query.Values(&OAuthErrorQuery{
		Type:        e.Type.String(),
		Description: e.Description,
		URI:         e.URI,
		State:       state,
	})
	if err != nil {
		// must not come here
		panic(fmt.Sprintf("broken QueryString: %s", err))
	}
	return v.Encode()
''', '''	v := url.Values{"error": {e.Type.String()}}
	for _, p := range [...]struct{ k, v string }{{"error_description", e.Description}, {"error_uri", e.URI}, {"state", state}} {
		if p.v != "" {
			v.Set(p.k, p.v)
		}
	}
	return v.Encode()
'''), ('oauth_error/errors.go', '''	"github.com/google/go-querystring/query"
''', ''), ('oauth_error/errors.go', '''	"net/http"
''', '''	"net/http"
	"net/url"
''')]
refs['oerr-json'] = [('oauth_error/errors.go', '''	j := &OAuthErrorJSON{
		Type:        e.Type.String(),
		Description: e.Description,
		URI:         e.URI,
	}
	body, err := json.Marshal(j)
	if err != nil {
		// must not come here
		panic(fmt.Sprintf("broken JSON: %s", err))
	}
	return body
''', '''	j := map[string]string{"error": e.Type.String()}
	if e.Description != "" {
		j["error_description"] = e.Description
	}
	if e.URI != "" {
		j["error_uri"] = e.URI
	}
	body, _ := json.Marshal(j)
	return body
''')]
refs['oerr-encoder'] = [('oauth_error/errors.go', '''	body, err := json.Marshal(j)
	if err != nil {
		// must not come here
		panic(fmt.Sprintf("broken JSON: %s", err))
	}
	return body
''', '''	var b bytes.Buffer
	if err := json.NewEncoder(&b).Encode(j); err != nil {
		// must not come here
		panic(fmt.Sprintf("broken JSON: %s", err))
	}
	return bytes.TrimSpace(b.Bytes())
'''), ('oauth_error/errors.go', '''import (
''', '''import (
	"bytes"
''')]
refs['response-join'] = [('authorization/response.go', '''	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
''', '''	u := strings.Join([]string{uri, values.Encode()}, h.pt.Connector(uri))
'''), ('authorization/response.go', '''	params := url.Values{}
	params.Add("error", typ)
	if desc != "" {
		params.Add("error_description", desc)
	}
	if state != "" {
		params.Add("state", state)
	}
	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), params.Encode())
	http.Redirect(h.w, h.r, u, http.StatusFound)
''', '''	h.Success(uri, errorParams(typ, desc, state))
'''), ('authorization/response.go', '''	params := make(map[string]string)
	params["error"] = typ
	if desc != "" {
		params["error_description"] = desc
	}
	if state != "" {
		params["state"] = state
	}
	h.render(uri, params)
}
''', '''	h.render(uri, errorParams(typ, desc, state))
}

func errorParams(typ, desc, state string) map[string]string {
	params := map[string]string{"error": typ, "error_description": desc, "state": state}
	for _, k := range []string{"error_description", "state"} {
		if params[k] == "" {
			delete(params, k)
		}
	}
	return params
}
''')]
refs['response-builder'] = [('authorization/response.go', '''	doc := `<html><head><title>Submit This Form</title></head><body onload="javascript:document.forms[0].submit()">`
	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, html.EscapeString(uri))
	for k, v := range params {
		doc = doc + fmt.Sprintf(`<input type="hidden" name="%s" value="%s" />`, k, html.EscapeString(v))
	}
	doc = doc + `</form></body></html>`
''', '''	var doc bytes.Buffer
	doc.WriteString(`<html><head><title>Submit This Form</title></head><body onload="javascript:document.forms[0].submit()">`)
	fmt.Fprintf(&doc, `<form method="post" action="%s">`, html.EscapeString(uri))
	keys := make([]string, 0, len(params))
	for k := range params {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(&doc, `<input type="hidden" name="%s" value="%s" />`, k, html.EscapeString(params[k]))
	}
	doc.WriteString(`</form></body></html>`)
'''), ('authorization/response.go', '''	h.w.Write([]byte(doc))
''', '''	doc.WriteTo(h.w)
'''), ('authorization/response.go', '''import (
''', '''import (
	"bytes"
	"sort"
''')]
refs['response-iostring'] = [('authorization/response.go', '''	h.w.Write([]byte(doc))
''', '''	io.WriteString(h.w, doc)
'''), ('authorization/response.go', '''import (
''', '''import (
	"io"
'''), ('authorization/response.go', '''	h.w.Header().Set("Content-Type", "text/html; charset=UTF-8")
	h.w.Header().Set("Cache-Control", "no-cache, no-store")
	h.w.Header().Set("Pragma", "no-cache")
''', '''	header := h.w.Header()
	for k, v := range map[string]string{
		"Content-Type":  "text/html; charset=UTF-8",
		"Cache-Control": "no-cache, no-store",
		"Pragma":        "no-cache",
	} {
		header.Set(k, v)
	}
'''), ('authorization/response.go', '''	switch mode {
	case "query":
		return NewRedirectResponseHandler(w, r, ParamTypeQuery)
	case "fragment":
		return NewRedirectResponseHandler(w, r, ParamTypeFragment)
	case "form_post":
		return NewHTMLResponseHandler(w, r)
	default:
		return NewRedirectResponseHandler(w, r, ParamTypeQuery)
	}
''', '''	if mode == "form_post" {
		return NewHTMLResponseHandler(w, r)
	}
	pt := ParamTypeQuery
	if mode == "fragment" {
		pt++
	}
	return NewRedirectResponseHandler(w, r, pt)
''')]
refs['response-redirect'] = [('authorization/response.go', '''	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
	http.Redirect(h.w, h.r, u, http.StatusFound)
''', '''	h.redirect(uri, values)
'''), ('authorization/response.go', '''	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), params.Encode())
	http.Redirect(h.w, h.r, u, http.StatusFound)
''', '''	h.redirect(uri, params)
'''), ('authorization/response.go', '''func NewHTMLResponseHandler(''', '''func (h *RedirectResponseHandler) redirect(uri string, v url.Values) {
	to := uri
	to += h.pt.Connector(uri)
	to += v.Encode()
	http.Redirect(h.w, h.r, to, http.StatusFound)
}

func NewHTMLResponseHandler(''')]
refs['mode-order'] = [('response_mode/util.go', '''	switch mode {
	case Query:
		return 0
	case Fragment:
		return 1
	case FormPost:
		return 2
	}
	return -1
''', '''	for i, m := range []string{Query, Fragment, FormPost} {
		if m == mode {
			return i
		}
	}
	return -1
'''), ('response_mode/util.go', '''	return mode == Query || mode == Fragment || mode == FormPost
''', '''	return securityLevelForMode(mode) >= 0
''')]
refs['jwk-local'] = [('crypto/key.go', '''	set := &jwk.Set{}
	for kid, key := range keys {
		rk, err := jwk.New(key)
		if err != nil {
			return nil, err
		}
		rk.Set(jwk.KeyIDKey, kid)
		set.Keys = append(set.Keys, rk)
	}
''', '''	var set jwk.Set
	ids := make([]string, 0, len(keys))
	for kid := range keys {
		ids = append(ids, kid)
	}
	sort.Strings(ids)
	for _, kid := range ids {
		rk, err := jwk.New(keys[kid])
		if err != nil {
			return nil, err
		}
		rk.Set(jwk.KeyIDKey, kid)
		set.Keys = append(set.Keys, rk)
	}
'''), ('crypto/key.go', '''json.MarshalIndent(set, "", "    ")''', '''json.MarshalIndent(&set, "", "    ")'''), ('crypto/key.go', '''	"io/ioutil"
''', '''	"os"
	"sort"
'''), ('crypto/key.go', '''func LoadPublicKeyFromFile(pemPath string) (*rsa.PublicKey, error) {
	pem, err := ioutil.ReadFile''', '''func LoadPublicKeyFromFile(pemPath string) (*rsa.PublicKey, error) {
	pem, err := os.ReadFile'''), ('crypto/key.go', '''func LoadPrivateKeyFromFile(pemPath string) (*rsa.PrivateKey, error) {
	pem, err := ioutil.ReadFile''', '''func LoadPrivateKeyFromFile(pemPath string) (*rsa.PrivateKey, error) {
	pem, err := os.ReadFile''')]
refs['key-switch'] = [('crypto/key.go', '''	block, _ := pem.Decode(data)
	if block == nil {
		return nil, fmt.Errorf("failed to decode pem block")
	}
	if block.Type != "PUBLIC KEY" {
		return nil, fmt.Errorf("PEM block isn't a RSA PRIVATE KEY")
	}
	pubkeyInterface, err := x509.ParsePKIXPublicKey(block.Bytes)
	if err != nil {
		return nil, fmt.Errorf("public key can't be decoded: %s", err)
	}
	pubkey, ok := pubkeyInterface.(*rsa.PublicKey)
	if !ok {
		return nil, errors.New("couldn't convert to a RSA public key")
	}
	return pubkey, nil
''', '''	der, err := block(data, "PUBLIC KEY")
	if err != nil {
		return nil, err
	}
	any, err := x509.ParsePKIXPublicKey(der)
	if err != nil {
		return nil, fmt.Errorf("public key can't be decoded: %w", err)
	}
	switch key := any.(type) {
	case *rsa.PublicKey:
		return key, nil
	default:
		return nil, fmt.Errorf("couldn't convert %T to a RSA public key", key)
	}
'''), ('crypto/key.go', '''	block, _ := pem.Decode(data)
	if block == nil {
		return nil, fmt.Errorf("failed to decode pem block")
	}
	if block.Type != "RSA PRIVATE KEY" {
		return nil, fmt.Errorf("PEM block isn't a RSA PRIVATE KEY")
	}
	privkey, err := x509.ParsePKCS1PrivateKey(block.Bytes)
	if err != nil {
		return nil, fmt.Errorf("private key can't be decoded: %s", err)
	}
	return privkey, nil
''', '''	der, err := block(data, "RSA PRIVATE KEY")
	if err != nil {
		return nil, err
	}
	return x509.ParsePKCS1PrivateKey(der)
}

func block(data []byte, typ string) ([]byte, error) {
	b, _ := pem.Decode(data)
	switch {
	case b == nil:
		return nil, errors.New("failed to decode pem block")
	case b.Type != typ:
		return nil, errors.New("PEM block isn't a " + typ)
	}
	return b.Bytes, nil
''')]
refs['idt-hash'] = [('id_token/id_token.go', '''	if strings.HasSuffix(alg, "256") {
		data := sha256.Sum256([]byte(token))
		return base64.StdEncoding.EncodeToString(data[:16]), nil
	} else if strings.HasSuffix(alg, "384") {
		data := sha512.Sum384([]byte(token))
		return base64.StdEncoding.EncodeToString(data[:24]), nil
	} else if strings.HasSuffix(alg, "512") {
		data := sha512.Sum512([]byte(token))
		return base64.StdEncoding.EncodeToString(data[:32]), nil
	} else {
		return "", errors.New("unsupported signature algorithm")
	}
''', '''	var h hash.Hash
	switch {
	case strings.HasSuffix(alg, "256"):
		h = sha256.New()
	case strings.HasSuffix(alg, "384"):
		h = sha512.New384()
	case strings.HasSuffix(alg, "512"):
		h = sha512.New()
	default:
		return "", errors.New("unsupported signature algorithm")
	}
	io.WriteString(h, token)
	sum := h.Sum(nil)
	return base64.StdEncoding.EncodeToString(sum[:len(sum)/2]), nil
'''), ('id_token/id_token.go', '''	"fmt"
''', '''	"fmt"
	"hash"
	"io"
''')]
refs['idt-claims'] = [('id_token/id_token.go', '''	token := jwt.New(meth)
	claims := token.Claims.(jwt.MapClaims)
	claims["iss"] = issuer
	claims["aud"] = clientId
	claims["sub"] = subject
	claims["exp"] = expiredAt
	if nonce != "" {
		claims["nonce"] = nonce
	}
	if issuedAt >= 0 {
		claims["iat"] = issuedAt
	}
	if authTime >= 0 {
		claims["auth_time"] = authTime
	}
	if atHash != "" {
		claims["at_hash"] = atHash
	}
	if cHash != "" {
		claims["c_hash"] = cHash
	}
''', '''	claims := jwt.MapClaims{"iss": issuer, "aud": clientId, "sub": subject, "exp": expiredAt}
	optional := map[string]string{"nonce": nonce, "at_hash": atHash, "c_hash": cHash}
	for name, value := range optional {
		if value != "" {
			claims[name] = value
		}
	}
	for name, at := range map[string]int64{"iat": issuedAt, "auth_time": authTime} {
		if at > -1 {
			claims[name] = at
		}
	}
	token := jwt.NewWithClaims(meth, claims)
''')]
refs['idt-one'] = [('id_token/id_token.go', '''	exp := now.Unix() + expiresIn
	iat := now.Unix()
	atHash := ""
	var err error
	if accessToken != "" {
		atHash, err = Hash(alg, accessToken)
		if err != nil {
			return "", err
		}
	}
	cHash, err := Hash(alg, code)
	if err != nil {
		return "", err
	}
	return rawGen(alg, key, keyId,
		issuer, clientId, subject,
		nonce, exp, authTime, iat, atHash, cHash)
''', '''	var hashes [2]string
	for i, s := range []string{accessToken, code} {
		if i == 0 && s == "" {
			continue
		}
		h, err := Hash(alg, s)
		if err != nil {
			return "", err
		}
		hashes[i] = h
	}
	iat := now.Unix()
	return rawGen(alg, key, keyId, issuer, clientId, subject, nonce, iat+expiresIn, authTime, iat, hashes[0], hashes[1])
'''), ('id_token/id_token.go', '''	exp := now.Unix() + expiresIn
	iat := now.Unix()

	return rawGen(alg, key, keyId,
		issuer, clientId, subject,
		nonce, exp, authTime, iat,
		"", "")
''', '''	return GenForImplicit(alg, key, keyId, issuer, clientId, subject, nonce, expiresIn, authTime, "", now)
''')]
refs['log-levels'] = [('log/logger.go', '''	if defaultLoggerLevel <= LogLevelDebug {
		msg := l.insertLevelLabel(LogLevelDebug, args[0].(string))
		fmt.Println(msg)
	}
''', '''	l.print(LogLevelDebug, args)
'''), ('log/logger.go', '''	if defaultLoggerLevel <= LogLevelError {
		msg := l.insertLevelLabel(LogLevelError, format)
		fmt.Println(fmt.Sprintf(msg, args...))
	}
''', '''	if defaultLoggerLevel > LogLevelError {
		return
	}
	fmt.Printf(l.insertLevelLabel(LogLevelError, format)+"\\n", args...)
'''), ('log/logger.go', '''func (l *defaultLogger) Info(''', '''func (l *defaultLogger) print(level LogLevel, args []interface{}) {
	if level < defaultLoggerLevel {
		return
	}
	fmt.Fprintln(os.Stdout, l.insertLevelLabel(level, args[0].(string)))
}

func (l *defaultLogger) Info('''), ('log/logger.go', '''import "fmt"
''', '''import (
	"fmt"
	"os"
)
'''), ('log/logger.go', '''	levelPart := fmt.Sprintf("[%s]", level.String())
	color := l.colorMap[level]
	return fmt.Sprintf("%s %s", paint(levelPart, color), msg)
''', '''	return paint("["+level.String()+"]", l.colorMap[level]) + " " + msg
''')]
refs['request-encode'] = [('authorization/request.go', '''	data, _ := json.Marshal(r)
	return base64.URLEncoding.EncodeToString(data)
''', '''	var b bytes.Buffer
	json.NewEncoder(&b).Encode(r)
	return base64.URLEncoding.EncodeToString(b.Bytes())
'''), ('authorization/request.go', '''	data, _ := base64.URLEncoding.DecodeString(encoded)
	var r Request
	json.Unmarshal(data, &r)
	return &r
''', '''	r := new(Request)
	if data, err := base64.URLEncoding.DecodeString(encoded); err == nil {
		_ = json.Unmarshal(data, r)
	}
	return r
'''), ('authorization/request.go', '''import (
''', '''import (
	"bytes"
''')]
refs['request-stream'] = [('authorization/request.go', '''	data, _ := base64.URLEncoding.DecodeString(encoded)
	var r Request
	json.Unmarshal(data, &r)
	return &r
''', '''	var r Request
	json.NewDecoder(base64.NewDecoder(base64.URLEncoding, strings.NewReader(encoded))).Decode(&r)
	return &r
'''), ('authorization/request.go', '''import (
''', '''import (
	"strings"
''')]
refs['request-tags'] = [('authorization/request.go', '''		LoginHint    string     `json:"login_hint"`
''', '''		LoginHint    string     `json:"hint,omitempty"`
'''), ('authorization/request.go', '''		MaxAge       int64      `json:"max_age"`
''', '''		MaxAge       int64      `json:"max_age,string,omitempty"`
'''), ('authorization/request.go', '''		Flow         *flow.Flow `json:"flow"`
''', '''		Flow         *flow.Flow `json:"flow,omitempty"`
''')]
