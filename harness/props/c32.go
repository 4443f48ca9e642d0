package props

import (
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"math/big"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/crypto"
	"vharness/nd"
)

type jwkAnswer struct {
	Keys []map[string]interface{} `json:"keys"`
}

// C32_endpoint: up to three (thorough four) registrations, key ids may repeat.
func C32_endpoint() {
	je := goidc.NewJWKEndpoint()
	n := nd.Choice("n", 4+nd.Tier())
	early := n + 1 // when another handler is made, if at all
	if n <= 2 {
		early = nd.Choice("early", n+2)
	}
	var kids []string
	var keys []int
	for i := 0; i < n; i++ {
		if i == early {
			je.Handler()
		}
		kid, k := anyText("kid"), nd.Choice("key", 2)
		if nd.Bool("file") {
			je.AddFromFile(kid, nd.File(nd.PEM(0, k, "PUBLIC KEY"), true))
		} else {
			je.AddFromText(kid, nd.PEM(0, k, "PUBLIC KEY"))
		}
		known := false
		for j := range kids {
			if kids[j] == kid {
				keys[j], known = k, true
			}
		}
		if !known {
			kids, keys = append(kids, kid), append(keys, k)
		}
	}
	if early == n {
		je.Handler()(newRecorder(), newReq("GET", "/jwk", nil, nil))
	}
	h := je.Handler()
	if early == n {
		h(newRecorder(), newReq("GET", "/jwk", nil, nil))
	}
	w := newRecorder()
	h(w, newReq([]string{"GET", "POST"}[nd.Choice("method", 2)], "/jwk", nil, nil))
	nd.Assert(w.status == 200 && len(w.snap["Content-Type"]) == 1 && w.get("Content-Type") == "application/json", "the key set is served as JSON with status 200")
	var a jwkAnswer
	err := json.Unmarshal([]byte(w.body), &a)
	nd.Assert(err == nil, "the body is a JSON key set")
	nd.Assert(len(a.Keys) == len(kids), "there is one key per registered key id")
	for i, kid := range kids {
		found := 0
		for _, m := range a.Keys {
			got, there := m["kid"].(string)
			if !there && kid != "" || got != kid {
				continue
			}
			found++
			pk := &nd.RSAKey(keys[i]).PublicKey
			nd.Assert(jstr(m, "kty") == "RSA", "the key is an RSA key")
			nd.Assert(jstr(m, "n") == base64.RawURLEncoding.EncodeToString(pk.N.Bytes()), "the modulus is that of the registered key")
			nd.Assert(jstr(m, "e") == base64.RawURLEncoding.EncodeToString(big.NewInt(int64(pk.E)).Bytes()), "the exponent is that of the registered key")
			for _, s := range []string{"d", "p", "q", "dp", "dq", "qi", "oth"} {
				nd.Assert(!hasKey(m, s), "nothing private is published")
			}
		}
		nd.Assert(found == 1, "each registered key id has exactly one key")
	}
	nd.Reach([]string{"no key", "one key", "two keys", "three keys", "four keys"}[len(kids)])
}

// pemCase: a text that may be a PEM of any type and content, or no PEM.
func pemCase() (text, typ string, kind, key int) {
	typ = nd.StrIn("type", "A-Z ", 1, -1)
	kind = nd.Choice("kind", 16)
	if kind == 15 {
		return nd.StrIn("text", "^\\-", 0, -1), "", kind, 0
	}
	if kind < 2 {
		key = nd.Choice("key", 2)
	}
	return nd.PEM(kind, key, typ), typ, kind, key
}

// C32_public: only PEM texts of public RSA keys load as such.
func C32_public() {
	text, typ, kind, key := pemCase()
	var k *rsa.PublicKey
	var err error
	switch nd.Choice("from", 3) {
	case 0:
		k, err = crypto.LoadPublicKeyFromText(text)
	case 1:
		k, err = crypto.LoadPublicKeyFromData([]byte(text))
	case 2:
		there := nd.Bool("exists")
		k, err = crypto.LoadPublicKeyFromFile(nd.File(text, there))
		if !there {
			nd.Assert(err != nil && k == nil, "a missing file is an error")
			nd.Reach("missing file")
			return
		}
	}
	if nd.And(typ == "PUBLIC KEY", kind == 0) {
		nd.Assert(err == nil && k != nil && k.E == 65537 && k.N.Cmp(nd.RSAKey(key).N) == 0, "a public RSA key loads")
		nd.Reach("loaded")
		return
	}
	if nd.And(typ == "RSA PUBLIC KEY", kind == 2) {
		return // a public RSA key in another form
	}
	nd.Assert(err != nil && k == nil, "anything else is an error")
	nd.Reach("error")
}

// C32_private: only PEM texts of private RSA keys load as such.
func C32_private() {
	text, typ, kind, key := pemCase()
	var k *rsa.PrivateKey
	var err error
	switch nd.Choice("from", 3) {
	case 0:
		k, err = crypto.LoadPrivateKeyFromText(text)
	case 1:
		k, err = crypto.LoadPrivateKeyFromData([]byte(text))
	case 2:
		there := nd.Bool("exists")
		k, err = crypto.LoadPrivateKeyFromFile(nd.File(text, there))
		if !there {
			nd.Assert(err != nil && k == nil, "a missing file is an error")
			nd.Reach("missing file")
			return
		}
	}
	if nd.And(typ == "RSA PRIVATE KEY", kind == 1) {
		nd.Assert(err == nil && k != nil && k.E == 65537 && k.N.Cmp(nd.RSAKey(key).N) == 0, "a private RSA key loads")
		nd.Reach("loaded")
		return
	}
	if nd.And(typ == "PRIVATE KEY", kind == 3) {
		return // a private RSA key in another form
	}
	nd.Assert(err != nil && k == nil, "anything else is an error")
	nd.Reach("error")
}
