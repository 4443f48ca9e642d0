package props

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"strings"

	"github.com/lyokato/goidc/id_token"
	"vharness/nd"
)

// leftHalf is the left half of the hash an algorithm of this size names.
func leftHalf(bits int, text string) []byte {
	switch bits {
	case 256:
		h := sha256.Sum256([]byte(text))
		return h[:16]
	case 384:
		h := sha512.Sum384([]byte(text))
		return h[:24]
	}
	h := sha512.Sum512([]byte(text))
	return h[:32]
}

const hashFinding = "C12-hash-encoding"

func isHash(got string, bits int, text, what string) {
	b := leftHalf(bits, text)
	nd.AssertKnown(got == base64.RawURLEncoding.EncodeToString(b), got == base64.StdEncoding.EncodeToString(b), hashFinding,
		what+" is the unpadded base64url encoding of the left half of the hash")
}

// boundHash: got binds text (in the specified encoding or in that of finding C12-hash-encoding).
func boundHash(got string, bits int, text string) bool {
	b := leftHalf(bits, text)
	return nd.Or(got == base64.RawURLEncoding.EncodeToString(b), got == base64.StdEncoding.EncodeToString(b))
}

// C12_gen: the three generators for every supported algorithm.
func C12_gen() {
	k := symIdKey()
	kid, iss, cid, sub, nonce := nd.Str("kid"), nd.Str("iss"), nd.Str("cid"), nd.Str("sub"), nd.Str("nonce")
	at, code := nd.Str("at"), nd.Str("code")
	if k := nd.Choice("unicode", 1+len(unicodeTexts)); k > 0 {
		sub, nonce, at = unicodeTexts[k-1], unicodeTexts[k-1], unicodeTexts[k-1]
	}
	exp, authTime, now := nd.Int("exp", 0, maxTime), nd.Int("auth_time", -maxTime, maxTime), nd.Int("now", 0, maxTime)
	t := partOfSecond(now)
	kind := nd.Choice("kind", 3)
	var text string
	var err error
	switch kind {
	case 0:
		text, err = id_token.Gen(k.alg, k.key, kid, iss, cid, sub, nonce, exp, authTime, t)
	case 1:
		text, err = id_token.GenForImplicit(k.alg, k.key, kid, iss, cid, sub, nonce, exp, authTime, at, t)
	case 2:
		text, err = id_token.GenForHybrid(k.alg, k.key, kid, iss, cid, sub, nonce, exp, authTime, at, code, t)
	}
	nd.Assert(err == nil, "a supported algorithm with its key gives a token")
	if err != nil {
		return
	}
	h, m, ok := readIdToken(text, k)
	nd.Assert(ok, "the token is signed with the algorithm and the key")
	if !ok {
		return
	}
	nd.Assert(claimIs(h, "kid", kid, true), "the header carries the key id when not empty")
	nd.Assert(onlyKeys(h, "alg", "typ", "kid"), "the header carries nothing else")
	nd.Assert(nd.And(claimIs(m, "iss", iss, false), claimIs(m, "aud", cid, false), claimIs(m, "sub", sub, false)), "iss, aud and sub are as given")
	nd.Assert(nd.And(claimInt(m, "exp", now+exp), claimInt(m, "iat", now)), "exp is now plus the lifetime, iat is now")
	nd.Assert(claimIs(m, "nonce", nonce, true), "nonce is as given, when not empty")
	if authTime >= 0 {
		nd.Assert(claimInt(m, "auth_time", authTime), "auth_time is as given")
		nd.Reach("auth_time")
	} else {
		nd.Assert(!hasKey(m, "auth_time"), "a negative auth_time is left out")
		nd.Reach("no auth_time")
	}
	nd.Assert(onlyKeys(m, "iss", "aud", "sub", "exp", "iat", "nonce", "auth_time", "at_hash", "c_hash"), "there is no other claim")
	if kind > 0 && at != "" {
		x, _ := m["at_hash"].(string)
		isHash(x, k.bits, at, "at_hash")
		nd.Reach("at_hash")
	} else {
		nd.Assert(!hasKey(m, "at_hash"), "there is no at_hash without an access token")
	}
	if kind == 2 {
		x, _ := m["c_hash"].(string)
		isHash(x, k.bits, code, "c_hash")
		nd.Reach("c_hash")
	} else {
		nd.Assert(!hasKey(m, "c_hash"), "there is no c_hash without a code")
	}
}

// C12_unknown: other algorithm names, and keys that do not fit the algorithm.
func C12_unknown() {
	alg := nd.Str("alg")
	key := []interface{}{[]byte("key"), nd.RSAKey(0), nil, "text"}[nd.Choice("key", 4)]
	now := partOfSecond(nd.Int("now", 0, maxTime))
	kind := nd.Choice("kind", 3)
	nd.Assume(nd.And(alg != "none", alg != "PS256", alg != "PS384", alg != "PS512"))
	var text string
	var err error
	switch kind {
	case 0:
		text, err = id_token.Gen(alg, key, "kid", "iss", "cid", "sub", "n", 10, 5, now)
	case 1:
		text, err = id_token.GenForImplicit(alg, key, "kid", "iss", "cid", "sub", "n", 10, 5, "at", now)
	case 2:
		text, err = id_token.GenForHybrid(alg, key, "kid", "iss", "cid", "sub", "n", 10, 5, "at", "code", now)
	}
	good := false
	switch key.(type) {
	case []byte:
		good = nd.Or(alg == "HS256", alg == "HS384", alg == "HS512")
	case nil, string:
	default:
		good = nd.Or(alg == "RS256", alg == "RS384", alg == "RS512")
	}
	nd.Assert(nd.Iff(err == nil, good), "a token is generated exactly for a supported algorithm with a key of its kind")
	nd.Assert(nd.Implies(nd.Not(good), text == ""), "an error comes without a token")
	if good {
		nd.Reach("token")
	} else {
		nd.Reach("error")
	}
}

// C12_hash: the hash helper for every algorithm name and text.
func C12_hash() {
	alg, text := nd.Str("alg"), nd.Str("text")
	i := nd.Choice("size", 4)
	bits := []int{256, 384, 512, 0}[i]
	names := [][]string{{"HS256", "RS256", "ES256", "PS256"}, {"HS384", "RS384", "ES384", "PS384"}, {"HS512", "RS512", "ES512", "PS512"}}
	if bits == 0 {
		for _, n := range []string{"256", "384", "512"} {
			nd.Assume(nd.Not(strings.HasSuffix(alg, n)))
		}
		_, err := id_token.Hash(alg, text)
		nd.Assert(err != nil, "an unknown algorithm is an error")
		nd.Reach("unknown")
		return
	}
	l := names[i]
	nd.Assume(nd.Or(alg == l[0], alg == l[1], alg == l[2], alg == l[3]))
	x, err := id_token.Hash(alg, text)
	nd.Assert(err == nil, "a known algorithm is no error")
	isHash(x, bits, text, "the hash")
	nd.Reach("hash")
}
