package props

import (
	"strings"

	"github.com/golang-jwt/jwt"
	"vharness/nd"
)

// numeric claim as the token carries it
type numClaim struct {
	kind int // 0 absent, 1 number, 2 anything else
	v    int64
}

func (n numClaim) put(m jwt.MapClaims, k string) {
	switch n.kind {
	case 1:
		m[k] = n.v
	case 2:
		m[k] = "2000000000"
	}
}

// assertionJWT is a JWT presented as an assertion, and what is true of it.
type assertionJWT struct {
	text     string
	parses   bool // three segments of well-formed JSON naming an available algorithm
	alg, kid string
	genuine  bool // the signature verifies under the registered key
	hasSub   bool
	sub      string
	exp      numClaim
	iat      numClaim
	nbf      numClaim
	audOK    int // 0 absent, 1 string, 2 not a string
	aud      string
	jti      string
	// registration
	regAlg, regKid string
	key            interface{}
}

func (a *assertionJWT) assertKey(alg, kid string) interface{} {
	if nd.And(alg == a.regAlg, kid == a.regKid) {
		return a.key
	}
	return nil
}

// registered: the client has a key for the token's alg and kid.
func (a *assertionJWT) registered() bool {
	return nd.And(a.key != nil, a.alg == a.regAlg, a.kid == a.regKid)
}

// fresh: exp present and not past; nbf and iat not in the future.
func (a *assertionJWT) fresh(now int64) bool {
	return nd.And(a.exp.kind == 1, now <= a.exp.v,
		nd.Or(a.iat.kind == 0, nd.And(a.iat.kind == 1, a.iat.v <= now)),
		nd.Or(a.nbf.kind == 0, nd.And(a.nbf.kind == 1, a.nbf.v <= now)))
}

// acceptable: everything that does not depend on the data interface.
func (a *assertionJWT) acceptable(now int64, issuer string) bool {
	return nd.And(a.parses, a.hasSub, a.registered(), a.genuine, a.fresh(now),
		a.audOK == 1, a.aud == issuer, issuer != "")
}

func (a *assertionJWT) recordedIat() int64 {
	if a.iat.kind == 1 {
		return a.iat.v
	}
	return -1
}

// b64 segments of some malformed tokens
var malformed = []string{
	"", "x", "a.b", "a.b.c.d", "..", "%.%.%", "bearer a.b.c",
	"e30.e30.",                                   // {} {} : no alg
	"eyJhbGciOiJIUzI1NiJ9.e30",                   // two segments
	"eyJhbGciOiJIUzI1NiJ9.%%%.AAAA",              // claims are not base64
	"eyJhbGciOiJIUzI1NiJ9.W10.AAAA",              // claims are an array
	"eyJhbGciOiJIUzI1NiJ9.eyJzdWIi.AAAA",         // truncated claims
	"eyJhbGciOiJYWCJ9.eyJzdWIiOiJzIn0.AAAA",      // unknown alg
	"eyJhbGciOjF9.eyJzdWIiOiJzIn0.AAAA",          // alg is a number
	"eyJhbGciOiJIUzI1NiJ9.eyJzdWIiOiJzIn0.%%%%",  // signature is not base64
	"bnVsbA.bnVsbA.AAAA",                         // null null
	"eyJhbGciOiJFUzI1NiJ9.eyJzdWIiOiJzIn0.AAAA",  // ES256 with no registered key
	"eyJhbGciOiJIUzI1NiJ9.eyJzdWIiOiJzIn0.AAAA ", // trailing space
}

// numeric: an arbitrary number of seconds, also 0 and negative.
func numeric(name string) int64 { return nd.Int(name, -5, maxT) }

// symAssertion makes an assertion. withSub: the sub claim names the client.
func symAssertion() *assertionJWT {
	a := &assertionJWT{}
	kind := nd.Choice("jwt.kind", 7)
	if kind == 0 {
		n := len(malformed)
		i := nd.Choice("jwt.malformed", n)
		a.text = malformed[i]
		if i == 14 || i == 16 || i == 17 { // well-formed up to the signature
			a.parses, a.hasSub, a.sub = true, true, "s"
		}
		a.regAlg, a.key = "HS256", []byte("k")
		return a
	}
	a.sub, a.hasSub = nd.Str("jwt.sub"), true
	a.exp = numClaim{1, numeric("jwt.exp")}
	a.iat = numClaim{1, numeric("jwt.iat")}
	a.nbf = numClaim{1, numeric("jwt.nbf")}
	a.aud, a.audOK = nd.Str("jwt.aud"), 1
	a.jti = nd.Str("jwt.jti")
	m := jwt.MapClaims{}
	odd := 0
	if kind == 1 {
		odd = nd.Choice("jwt.odd", 13)
	}
	switch odd {
	case 1:
		a.exp.kind = 0
	case 2:
		a.exp.kind = 2
	case 3:
		a.iat.kind = 0
	case 4:
		a.iat.kind = 2
	case 5:
		a.nbf.kind = 0
	case 6:
		a.nbf.kind = 2
	case 7:
		a.audOK = 0
	case 8:
		a.audOK = 2
	case 9:
		a.jti = ""
	case 10:
		a.hasSub = false
	case 11:
		a.hasSub = false
		m["sub"] = 5
	case 12:
		a.iat.kind, a.nbf.kind, a.jti = 0, 0, ""
	}
	if a.hasSub {
		m["sub"] = a.sub
	}
	if kind > 1 || odd == 12 { // claims without a meaning here
		for _, k := range []string{"iss", "azp", "client_id"} {
			m[k] = nd.Str("jwt." + k)
		}
	}
	a.exp.put(m, "exp")
	a.iat.put(m, "iat")
	a.nbf.put(m, "nbf")
	switch a.audOK {
	case 1:
		m["aud"] = a.aud
	case 2:
		m["aud"] = []string{a.aud}
	}
	if odd != 9 && odd != 12 {
		m["jti"] = a.jti
	}
	a.parses = true
	a.regKid = nd.Str("reg.kid")
	a.kid = nd.Str("jwt.kid")
	withKid := true
	var method jwt.SigningMethod
	var key interface{}
	switch kind {
	case 1, 2, 3: // HMAC
		i := 0
		if kind > 1 {
			i = nd.Choice("jwt.alg", 3)
		}
		method = []jwt.SigningMethod{jwt.SigningMethodHS256, jwt.SigningMethodHS384, jwt.SigningMethodHS512}[i]
		k, reg := nd.StrIn("jwt.key", keyClass, 0, -1), nd.StrIn("reg.key", keyClass, 0, -1)
		key = []byte(k)
		a.key = []byte(reg)
		a.genuine = k == reg
		if kind == 2 {
			switch nd.Choice("reg.keytype", 3) {
			case 0:
				a.key, a.genuine = nil, false
			case 1:
				a.key, a.genuine = &nd.RSAKey(0).PublicKey, false
			case 2: // no kid in the header
				withKid = false
				a.kid = ""
			}
		}
	case 4, 5: // RSA
		i := nd.Choice("jwt.alg", 3)
		method = []jwt.SigningMethod{jwt.SigningMethodRS256, jwt.SigningMethodRS384, jwt.SigningMethodRS512}[i]
		s := 0
		if kind == 5 {
			s = 1
		}
		key = nd.RSAKey(s)
		a.key = &nd.RSAKey(0).PublicKey
		a.genuine = s == 0
	case 6: // unsigned
		method = jwt.SigningMethodNone
		key = jwt.UnsafeAllowNoneSignatureType
		a.key = []byte("k")
		a.genuine = false
	}
	a.alg = method.Alg()
	switch nd.Choice("reg.alg", 2) {
	case 0:
		a.regAlg = a.alg
	case 1:
		a.regAlg = nd.Str("reg.algname")
	}
	t := jwt.NewWithClaims(method, m)
	if withKid {
		t.Header["kid"] = a.kid
	}
	s, err := t.SignedString(key)
	if err != nil {
		panic(err)
	}
	if kind == 3 { // the signature of other content, or none
		parts := strings.Split(s, ".")
		switch nd.Choice("jwt.tamper", 3) {
		case 0:
			m2 := jwt.MapClaims{}
			for k, v := range m {
				m2[k] = v
			}
			m2["sub"] = a.sub + "x"
			t2 := jwt.NewWithClaims(method, m2)
			t2.Header["kid"] = a.kid
			s2, _ := t2.SignedString(key)
			parts[2] = strings.Split(s2, ".")[2]
		case 1:
			parts[2] = ""
		case 2:
			parts[2] = "AAAA"
		}
		s = strings.Join(parts, ".")
		a.genuine = false
	}
	a.text = s
	return a
}
