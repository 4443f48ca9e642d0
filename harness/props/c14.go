package props

import (
	"github.com/lyokato/goidc"
	"vharness/nd"
)

// C14_paths: all authorization scopes and required scopes.
func C14_paths() {
	c := newRP(goidc.FromHeader)
	path := "/" + nd.Str("path")
	c.r = newReq(anyMethod(), path, nil, nil)
	c.r.URL.RawPath = nd.StrIn("raw_path", textClass, 0, -1)
	c.r.URL.Opaque = nd.StrIn("opaque", textClass, 0, -1)
	c.r.Header.Set("Authorization", "Bearer tok")
	c.forge()
	d := c.d
	if nd.Choice("fault", 2) == 1 {
		d.faulty()
	}
	d.oldTok = newToken("token")
	scp, ws := symScope("info.scope")
	d.info = newInfo(scp)
	paths := []string{"/" + nd.Str("listed"), "/b"}
	need := [][]string{nil, {"b"}}
	for i := nd.Choice("need", 3+nd.Tier()); i > 0; i-- {
		need[0] = append(need[0], nd.StrIn("need", "!#-[]-~", 0, -1))
	}
	nd.Assume(paths[0] != paths[1])
	m := map[string][]string{paths[0]: need[0], paths[1]: need[1]}
	ok := c.rp.ValidateWithScopes(c.w, c.r, d, m)
	live := d.oldTok.refreshed+d.oldTok.accessExp >= c.now
	base := nd.And(d.fine("FindOAuthTokenByAccessToken", "FindActiveAuthInfoById"), live)
	if !base {
		nd.Assert(nd.And(!ok, c.denied()), "a request that is not admitted without the map is not admitted with it")
		nd.Reach("denied anyway")
		return
	}
	has, listed := true, false
	for i, p := range paths {
		if path == p {
			listed = true
			for _, s := range need[i] {
				has = nd.And(has, member(ws, s))
			}
		}
	}
	if has {
		nd.Assert(ok && c.w.status == 0 && c.identity(), "a request with every required scope is admitted with the right identity")
		if listed {
			nd.Reach("admitted")
		} else {
			nd.Reach("unlisted")
		}
		return
	}
	nd.Assert(!ok && challenged(c.w, 403, "insufficient_scope"), "a request lacking a scope is denied with 403 insufficient_scope")
	nd.Reach("insufficient")
}

// C14_escaped: a path is listed as it is decoded, however it was written.
func C14_escaped() {
	c := newRP(goidc.FromHeader)
	p := [][]string{{"/a/b", "", "/a%2Fb", "/%61/b"}, {"/a b", "", "/a%20b"}, {"/\u00e9%", "", "/%C3%A9%25"}}[nd.Choice("path", 3)]
	c.r = newReq(anyMethod(), p[0], nil, nil)
	c.r.URL.RawPath = p[1+nd.Choice("written", len(p)-1)]
	c.r.Header.Set("Authorization", "Bearer tok")
	c.d.oldTok = newToken("token")
	nd.Assume(c.d.oldTok.refreshed+c.d.oldTok.accessExp >= c.now)
	scp, ws := symScope("info.scope")
	c.d.info = newInfo(scp)
	need := nd.StrIn("need", "!#-[]-~", 0, -1)
	ok := c.rp.ValidateWithScopes(c.w, c.r, c.d, map[string][]string{p[0]: {need}})
	if member(ws, need) {
		nd.Assert(ok && c.w.status == 0 && c.identity(), "a request with every required scope is admitted with the right identity")
		nd.Reach("admitted")
		return
	}
	nd.Assert(!ok && challenged(c.w, 403, "insufficient_scope"), "a request lacking a scope is denied with 403 insufficient_scope")
	nd.Reach("insufficient")
}
