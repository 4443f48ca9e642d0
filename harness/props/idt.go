package props

import (
	"crypto/rsa"
	"errors"

	"github.com/golang-jwt/jwt"
	"vharness/nd"
)

// idKey is a signing key with what verifies its signatures.
type idKey struct {
	alg    string
	key    interface{} // what signs
	verify interface{}
	bits   int
}

// symIdKey: one of the algorithms HS256..512 (symbolic key) and RS256..512.
func symIdKey() idKey {
	k := nd.Choice("alg", 6)
	alg := []string{"HS256", "HS384", "HS512", "RS256", "RS384", "RS512"}[k]
	bits := []int{256, 384, 512}[k%3]
	if k < 3 {
		s := []byte(nd.StrIn("key", keyClass, 0, -1))
		return idKey{alg, s, s, bits}
	}
	var p *rsa.PrivateKey = nd.RSAKey(0)
	return idKey{alg, p, &p.PublicKey, bits}
}

// readIdToken verifies the token with the key and returns header and claims.
func readIdToken(text string, k idKey) (map[string]interface{}, jwt.MapClaims, bool) {
	p := &jwt.Parser{SkipClaimsValidation: true}
	t, err := p.Parse(text, func(t *jwt.Token) (interface{}, error) {
		if a, _ := t.Header["alg"].(string); a != k.alg {
			return nil, errors.New("alg")
		}
		return k.verify, nil
	})
	if err != nil || !t.Valid {
		return nil, nil, false
	}
	return t.Header, t.Claims.(jwt.MapClaims), true
}

func hasKey(m map[string]interface{}, k string) bool {
	_, ok := m[k]
	return ok
}

// claimIs: claim k is exactly the string v, and absent if v is empty and optional.
func claimIs(m map[string]interface{}, k, v string, optional bool) bool {
	x, ok := m[k]
	if !ok {
		return nd.And(optional, v == "")
	}
	s, isS := x.(string)
	return nd.And(isS, s == v, nd.Or(!optional, v != ""))
}

func claimInt(m map[string]interface{}, k string, v int64) bool {
	f, ok := m[k].(float64)
	return ok && int64(f) == v
}

func onlyKeys(m map[string]interface{}, ks ...string) bool {
	for k := range m {
		ok := false
		for _, x := range ks {
			if x == k {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
