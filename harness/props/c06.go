package props

import (
	"crypto/sha256"
	"encoding/base64"

	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/pkce"
	"vharness/nd"
)

// C06_grant: redemption of codes with and without a verifier.
func C06_grant() {
	c := newTok(grant.AuthorizationCode(), "redirect_uri", "code")
	cc, cm := nd.StrIn("code_challenge", textClass, 0, -1), nd.StrIn("code_challenge_method", textClass, 0, -1)
	c.body.Set("code_challenge", cc)
	c.body.Set("code_challenge_method", cm)
	d := c.d
	d.info = newInfo("")
	d.sess = newSession()
	d.token = newToken("new")
	nd.Assume(nd.And(c.p["redirect_uri"] != "", c.p["code"] != "", d.info.clientId == c.cid, d.sess.uri == c.p["redirect_uri"], c.now <= d.sess.created+d.sess.exp))
	v := d.sess.verifier
	h := sha256.Sum256([]byte(v))
	s256 := base64.RawURLEncoding.EncodeToString(h[:])
	c.run()
	if v == "" {
		nd.Assert(isTokenResponse(c.w), "a code without verifier needs no challenge")
		nd.Reach("no verifier")
		return
	}
	if nd.And(cc != "", nd.Or(nd.And(cm == "plain", cc == v), nd.And(cm == "S256", cc == s256))) {
		nd.Assert(isTokenResponse(c.w), "the right challenge is accepted")
		nd.Reach("match")
		return
	}
	nd.Assert(c.nothingCreated() && !leaks(c.w), "no token is issued without the right challenge")
	if nd.And(cc != "", nd.Or(cm == "plain", cm == "S256")) {
		nd.Assert(isError(c.w, 400, "invalid_grant"), "a mismatching challenge is invalid_grant")
		nd.Reach("mismatch")
	} else {
		nd.Assert(isError(c.w, 400, "invalid_request"), "a missing or unsupported method or missing challenge is invalid_request")
		nd.Reach("bad request")
	}
}

// rawURL is the unpadded base64url encoding, written from RFC 4648.
func rawURL(b []byte) string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	out := ""
	for i := 0; i < len(b); i += 3 {
		var x uint32
		n := 0
		for j := 0; j < 3; j++ {
			x <<= 8
			if i+j < len(b) {
				x |= uint32(b[i+j])
				n++
			}
		}
		for j := 0; j <= n; j++ {
			out += string([]byte{abc[x>>(18-6*j)&63]})
		}
	}
	return out
}

// C06_encode: the encoding helper on every byte string up to the bound.
func C06_encode() {
	nd.RealStd()
	s := nd.BytesIn("data", "\x00-\xff", 7+3*nd.Tier())
	nd.Assert(pkce.EncodeBase64WithoutPadding([]byte(s)) == rawURL([]byte(s)), "the helper returns the unpadded base64url form")
	nd.Reach("done")
}

// C06_s256: the helper on a digest-sized input, and the S256 transformation.
func C06_s256() {
	v := nd.Str("verifier")
	h := sha256.Sum256([]byte(v))
	nd.Assert(pkce.S256Encode(v) == base64.RawURLEncoding.EncodeToString(h[:]), "S256Encode is the unpadded base64url form of the SHA-256 digest")
	c := nd.Str("challenge")
	for i, m := range []string{"plain", "S256", nd.Str("method")} {
		x, err := pkce.FindVerifierByMethod(m)
		if i == 2 {
			nd.Assert(nd.Iff(err == nil, nd.Or(m == "plain", m == "S256")), "exactly plain and S256 are supported")
			continue
		}
		nd.Assert(err == nil, "plain and S256 are supported")
		if err != nil {
			continue
		}
		want := c == v
		if i == 1 {
			want = c == base64.RawURLEncoding.EncodeToString(h[:])
		}
		nd.Assert(nd.Iff(x.Verify(c, v), want), "the verifier accepts exactly the right challenge")
	}
	nd.Reach("done")
}
