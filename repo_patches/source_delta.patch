From f69098fac1ffd75c1303af7831304ca54618b4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 01/24] fix: malformed client assertion crashed the token
 endpoint

---
 assertion/error.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/assertion/error.go b/assertion/error.go
index e321c91..7a19ed5 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -46,9 +46,10 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 
 		if ve.Errors&jwt.ValidationErrorMalformed == jwt.ValidationErrorMalformed {
 
+			// the client is not identified yet when it authenticates with the assertion
 			logger.Debug(log.TokenEndpointLog(gt,
 				log.AssertionConditionMismatch,
-				map[string]string{"assertion": a, "client_id": c.GetId()},
+				map[string]string{"assertion": a},
 				"invalid 'assertion' format"))
 
 			return oer.NewOAuthError(oer.ErrInvalidGrant,
-- 
2.43.0


From a44be501f5614bd168311c524e2bda444ec67ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 02/24] fix: assertion with a zero exp never expired

---
 assertion/error.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/assertion/error.go b/assertion/error.go
index 7a19ed5..14ecaa1 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -140,6 +140,18 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 			"'exp' parameter not found in assertion")
 	}
 
+	// the jwt library takes a zero 'exp' for an absent one
+	if exp < jwt.TimeFunc().Unix() {
+
+		logger.Info(log.TokenEndpointLog(gt,
+			log.AssertionConditionMismatch,
+			map[string]string{"assertion": a, "client_id": c.GetId()},
+			"assertion expired"))
+
+		return oer.NewOAuthError(oer.ErrInvalidGrant,
+			"assertion expired")
+	}
+
 	switch num := claims["iat"].(type) {
 	case json.Number:
 		if iat, er = num.Int64(); er == nil {
-- 
2.43.0


From 3949c17b1419ef858da0918148abddee575f90b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 03/24] fix: client authenticated by assertion could use any
 grant type

---
 token_endpoint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/token_endpoint.go b/token_endpoint.go
index 32c4f2b..fa9a76b 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -267,6 +267,15 @@ func (te *TokenEndpoint) validateClientByAssertion(w http.ResponseWriter,
 		return nil, false
 	}
 
+	if !c.CanUseGrantType(gt) {
+
+		te.logger.Info(log.TokenEndpointLog(gt, log.UnauthorizedGrantType,
+			map[string]string{"client_id": c.GetId()}, "unauthorized 'grant_type'."))
+
+		te.fail(w, oer.NewOAuthSimpleError(oer.ErrUnauthorizedClient))
+		return nil, false
+	}
+
 	return c, true
 }
 
-- 
2.43.0


From a9debaab6c0a2ba503c91b56dd4dce38fede65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 04/24] fix: expired authorization codes were still redeemable

---
 grant/authorization_code.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/grant/authorization_code.go b/grant/authorization_code.go
index f3b29f6..9abaa48 100644
--- a/grant/authorization_code.go
+++ b/grant/authorization_code.go
@@ -168,6 +168,17 @@ func AuthorizationCode() *GrantHandler {
 					fmt.Sprintf("indicated 'redirect_uri' (%s) is not allowed for this client", uri))
 			}
 
+			if sess.GetExpiresIn()+sess.GetCreatedAt() < requestedTime.Unix() {
+
+				logger.Info(log.TokenEndpointLog(TypeAuthorizationCode,
+					log.AuthInfoConditionMismatch,
+					map[string]string{"client_id": c.GetId()},
+					"expired code"))
+
+				return nil, oer.NewOAuthError(oer.ErrInvalidGrant,
+					"expired 'code'")
+			}
+
 			// RFC7636: OAuth PKCE Extension
 			// https://tools.ietf.org/html/rfc7636
 			cv := sess.GetCodeVerifier()
-- 
2.43.0


From 87f3052dc6dba0bd4fac9966a38a5db3b7f4770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 05/24] fix: token responses carried an empty scope

---
 grant/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grant/interface.go b/grant/interface.go
index 8b60cd6..6b69d60 100644
--- a/grant/interface.go
+++ b/grant/interface.go
@@ -25,7 +25,7 @@ type (
 		AccessToken  string `json:"access_token"`
 		ExpiresIn    int64  `json:"expires_in"`
 		RefreshToken string `json:"refresh_token,omitempty"`
-		Scope        string `json:"scope",omitempty`
+		Scope        string `json:"scope,omitempty"`
 		IdToken      string `json:"id_token,omitempty"`
 	}
 )
-- 
2.43.0


From bed94e95871340d5181c6129128c4389f02272a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 06/24] fix: missing auth info crashed the resource protector

---
 resource_protector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource_protector.go b/resource_protector.go
index f22331e..13abdb5 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -221,7 +221,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 			return false
 		}
 	} else {
-		if at == nil {
+		if info == nil {
 
 			rp.logger.Error(log.ProtectedResourceLog(r.URL.Path, log.InterfaceError,
 				map[string]string{"method": "FindActiveAuthInfoById"},
-- 
2.43.0


From 236e7585f46133b05a74a88c1367047af7916827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 07/24] fix: access tokens in body or query were never accepted

---
 resource_protector.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/resource_protector.go b/resource_protector.go
index 13abdb5..c954413 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -51,20 +51,9 @@ func (rp *ResourceProtector) SetErrorURIBulder(builder oer.OAuthErrorURIBuilder)
 }
 
 func (rp *ResourceProtector) findTokenFromRequest(r *http.Request) string {
-	header := r.Header.Get("Authorization")
-	if header == "" {
-		return ""
-	}
-	parts := strings.Split(header, " ")
-	if len(parts) < 2 {
-		return ""
-	}
-	if strings.ToLower(parts[0]) != "bearer" {
-		return ""
-	}
-	token := parts[1]
-	if token != "" {
-		return token
+	parts := strings.Split(r.Header.Get("Authorization"), " ")
+	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
+		return parts[1]
 	}
 	switch rp.tokenAcceptanceMethod {
 	case FromHeader:
-- 
2.43.0


From b34a64ededcd2181cc79fb361e22a0484e43a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 08/24] fix: form_post target was not HTML-escaped

---
 authorization/response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization/response.go b/authorization/response.go
index 61358d0..06ac8df 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -124,7 +124,7 @@ func (h *HTMLResponseHandler) Error(uri, typ, desc, state string) {
 
 func (h *HTMLResponseHandler) render(uri string, params map[string]string) {
 	doc := `<html><head><title>Submit This Form</title></head><body onload="javascript:document.forms[0].submit()">`
-	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, uri)
+	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, html.EscapeString(uri))
 	for k, v := range params {
 		doc = doc + fmt.Sprintf(`<input type="hidden" name="%s" value="%s" />`, k, html.EscapeString(v))
 	}
-- 
2.43.0


From 170cd5bfae95160cc575807af2c58d34c1f6e573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 09/24] fix: unparsable redirect_uri crashed the redirect
 response

---
 authorization/response.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/authorization/response.go b/authorization/response.go
index 06ac8df..dd66204 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -5,6 +5,7 @@ import (
 	"html"
 	"net/http"
 	"net/url"
+	"strings"
 )
 
 type ResponseParamType int
@@ -33,7 +34,14 @@ type (
 )
 
 func (t ResponseParamType) Connector(uri string) string {
-	u, _ := url.Parse(uri)
+	u, err := url.Parse(uri)
+	if err != nil {
+		// not parsable: look for the component by its delimiter
+		u = &url.URL{}
+		base, fragment, _ := strings.Cut(uri, "#")
+		u.Fragment = fragment
+		_, u.RawQuery, _ = strings.Cut(base, "?")
+	}
 	switch t {
 	case ParamTypeQuery:
 		if len(u.RawQuery) == 0 {
-- 
2.43.0


From 145626e46d97bd70f59fece51ab5886f2c0cab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 10/24] fix: redirect_uri with an empty query got a second
 question mark

---
 authorization/response.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/authorization/response.go b/authorization/response.go
index dd66204..20aea9e 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -40,11 +40,15 @@ func (t ResponseParamType) Connector(uri string) string {
 		u = &url.URL{}
 		base, fragment, _ := strings.Cut(uri, "#")
 		u.Fragment = fragment
-		_, u.RawQuery, _ = strings.Cut(base, "?")
+		var hasQuery bool
+		_, u.RawQuery, hasQuery = strings.Cut(base, "?")
+		u.ForceQuery = hasQuery && u.RawQuery == ""
 	}
 	switch t {
 	case ParamTypeQuery:
-		if len(u.RawQuery) == 0 {
+		if u.ForceQuery {
+			return ""
+		} else if len(u.RawQuery) == 0 {
 			return "?"
 		} else {
 			return "&"
@@ -56,7 +60,9 @@ func (t ResponseParamType) Connector(uri string) string {
 			return "&"
 		}
 	default:
-		if len(u.RawQuery) == 0 {
+		if u.ForceQuery {
+			return ""
+		} else if len(u.RawQuery) == 0 {
 			return "?"
 		} else {
 			return "&"
-- 
2.43.0


From f6e5f22ee6fb13e7e3f2c955494fa099e33aae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 11/24] fix: prompt "none none" was handled interactively

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index f96be6f..445e4be 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -549,7 +549,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		LoginHint:    r.FormValue("login_hint"),
 	}
 
-	if req.Prompt == prompt.None {
+	if prompt.IncludeNone(req.Prompt) {
 
 		policy := clnt.GetNonePromptPolicy()
 
-- 
2.43.0


From 74b8f1147824e05f5d2fe5c0905e4e6a0eaee0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 12/24] fix: id_token_hint with a zero exp never expired

---
 authorization_endpoint.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 445e4be..db51a24 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -742,13 +742,15 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				return false
 			}
 			exp_exists := false
+			var exp int64
 			claims := t.Claims.(jwt.MapClaims)
 			switch num := claims["exp"].(type) {
 			case json.Number:
-				if _, err = num.Int64(); err == nil {
+				if exp, err = num.Int64(); err == nil {
 					exp_exists = true
 				}
 			case float64:
+				exp = int64(num)
 				exp_exists = true
 			}
 
@@ -758,6 +760,12 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 					state)
 				return false
 			}
+			// the jwt library takes a zero 'exp' for an absent one
+			if exp < jwt.TimeFunc().Unix() {
+				rh.Error(ruri, "invalid_request", "'id_token_hint' is expired.",
+					state)
+				return false
+			}
 			sub := ""
 			if found, ok := claims["sub"].(string); ok {
 				sub = found
-- 
2.43.0


From 4810d145482938f2db7b26eb86aacf71d5e44166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 13/24] fix: id_token_hint of clients with an RSA key was never
 accepted

---
 authorization_endpoint.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index db51a24..3cde652 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1,6 +1,7 @@
 package goidc
 
 import (
+	"crypto"
 	"encoding/json"
 	"fmt"
 	"net/http"
@@ -727,7 +728,11 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			}
 
 			t, jwt_err := jwt.Parse(req.IdTokenHint, func(t *jwt.Token) (interface{}, error) {
-				return clnt.GetIdTokenKey(), nil
+				key := clnt.GetIdTokenKey()
+				if signer, ok := key.(crypto.Signer); ok {
+					return signer.Public(), nil
+				}
+				return key, nil
 			})
 
 			if jwt_err != nil {
-- 
2.43.0


From e4be0e9d37846b1798d48578a4f19501ddacc66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 14/24] fix: unknown none-prompt policy led to a login or
 consent screen

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 3cde652..f135cb2 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -556,7 +556,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 
 		switch policy {
 
-		case prompt.NonePromptPolicyForbidden:
+		default: // prompt.NonePromptPolicyForbidden
 
 			a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
 				log.InvalidPrompt,
-- 
2.43.0


From 85dc5fe2e702dac6cdd2f10ecb9dd834883c9325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 15/24] fix: max_age=0 was ignored where the policy allows it

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index f135cb2..f0d98f5 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -925,7 +925,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		return false
 	}
 
-	if req.MaxAge > 0 {
+	if mas != "" {
 		age := a.currentTime().Unix() - authTime
 		if req.MaxAge < age {
 			a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
-- 
2.43.0


From 05b488d3a39297fe4cbdef1a637d9ce7e24e764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 16/24] fix: prompt=none ignored max_age

---
 authorization_endpoint.go | 40 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index f0d98f5..118c3bf 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -625,7 +625,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeSilently(callbacks, r, rh, info, req, mas != "")
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -712,7 +712,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeSilently(callbacks, r, rh, info, req, mas != "")
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -833,7 +833,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeSilently(callbacks, r, rh, info, req, mas != "")
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -1039,6 +1039,40 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 	return a.complete(callbacks, r, rh, info, req)
 }
 
+// completeSilently completes a 'prompt:none' request, unless the
+// authentication is older than its 'max_age'.
+func (a *AuthorizationEndpoint) completeSilently(
+	callbacks bridge.AuthorizationCallbacks,
+	r *http.Request,
+	rh authorization.ResponseHandler,
+	info bridge.AuthInfo, req *authorization.Request,
+	hasMaxAge bool) bool {
+	if hasMaxAge {
+		authTime, err := callbacks.GetAuthTime()
+		if err != nil {
+			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+				log.InterfaceError,
+				map[string]string{
+					"method": "GetAuthTime",
+				},
+				err.Error()))
+			rh.Error(req.RedirectURI, "server_error", "", req.State)
+			return false
+		}
+		if req.MaxAge < a.currentTime().Unix()-authTime {
+			a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
+				log.LoginRequired,
+				map[string]string{
+					"prompt": req.Prompt,
+				},
+				"'auth_time' is over 'max_age'."))
+			rh.Error(req.RedirectURI, "login_required", "", req.State)
+			return false
+		}
+	}
+	return a.complete(callbacks, r, rh, info, req)
+}
+
 func (a *AuthorizationEndpoint) complete(
 	callbacks bridge.AuthorizationCallbacks,
 	r *http.Request,
-- 
2.43.0


From 05c0e0e40ad7907f2f5aa295093ec768424ae391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 17/24] fix: implicit flow named expires_in "rexpires_in"

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 118c3bf..352efde 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1162,7 +1162,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 		at = t.GetAccessToken()
 		params["access_token"] = at
 		params["token_type"] = "bearer"
-		params["rexpires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
+		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
 	}
 
 	authTime, err := callbacks.GetAuthTime()
-- 
2.43.0


From 151b26388b8d787a1c67fb8222372094385d2f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 18/24] fix: failure to show a required login screen was not
 reported

---
 authorization_endpoint.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 352efde..4814df9 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -908,7 +908,17 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				},
 				"force-login is required by 'prompt'"))
 
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+			}
 			return false
 		}
 	}
@@ -934,7 +944,17 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 					"max_age": mas,
 				},
 				"'auth_time' is over 'max_age', so, show login page."))
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+			}
 			return false
 		}
 	}
-- 
2.43.0


From 90ef9a2a6df5843e7b04d7239296a0f13be33f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 19/24] fix: completing a request crashed when an interface
 returned nothing

---
 authorization_endpoint.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 4814df9..e9ff74b 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1022,6 +1022,15 @@ func (a *AuthorizationEndpoint) CancelRequest(w http.ResponseWriter, r *http.Req
 			err.Error()))
 		return false
 	}
+	if req == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "Continue",
+			},
+			"this method returns (nil, nil)."))
+		return false
+	}
 	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
 	rh.Error(req.RedirectURI, "access_denied", "", req.State)
 	return true
@@ -1039,6 +1048,15 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 			err.Error()))
 		return false
 	}
+	if req == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "Continue",
+			},
+			"this method returns (nil, nil)."))
+		return false
+	}
 	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
 	uid, err := callbacks.GetLoginUserId()
 	if err != nil {
@@ -1052,7 +1070,7 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 		return false
 	}
 	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
-	if serr != nil {
+	if serr != nil || info == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1160,7 +1178,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 	req *authorization.Request) bool {
 
 	clnt, serr := a.di.FindClientById(req.ClientId)
-	if serr != nil {
+	if serr != nil || clnt == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1175,7 +1193,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 	at := ""
 	if req.Flow.RequireAccessToken {
 		t, serr := a.di.CreateOAuthToken(info, false)
-		if serr != nil {
+		if serr != nil || t == nil {
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
@@ -1261,7 +1279,7 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 	}
 
 	clnt, serr := a.di.FindClientById(req.ClientId)
-	if serr != nil {
+	if serr != nil || clnt == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1278,7 +1296,7 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 	at := ""
 	if req.Flow.RequireAccessToken {
 		t, serr := a.di.CreateOAuthToken(info, false)
-		if serr != nil {
+		if serr != nil || t == nil {
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
-- 
2.43.0


From fc018b5d14ee4c77e729ca8bfda2724efec82748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 20/24] fix: error and fatal messages were labelled DEBUG

---
 log/logger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/log/logger.go b/log/logger.go
index 4e804ce..b930836 100644
--- a/log/logger.go
+++ b/log/logger.go
@@ -42,9 +42,9 @@ func (level LogLevel) String() string {
 	case LogLevelWarn:
 		return "WARN"
 	case LogLevelError:
-		return "DEBUG"
+		return "ERROR"
 	case LogLevelFatal:
-		return "DEBUG"
+		return "FATAL"
 	default:
 		return ""
 	}
-- 
2.43.0


From 21d1e6ddde573e306aac9bbaddd085715b629103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:11 +0000
Subject: [PATCH 21/24] fix: the password grant no longer logs the user's
 password

---
 grant/password.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/grant/password.go b/grant/password.go
index 0cdf6af..ef629f3 100644
--- a/grant/password.go
+++ b/grant/password.go
@@ -63,7 +63,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"user id not found."))
 
@@ -86,7 +85,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"interface returned ServerError."))
 
-- 
2.43.0


From c5b0641935b0fc757b66e2694a193fa72d226806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:59 +0000
Subject: [PATCH 22/24] fix: a grant type or request path with line breaks
 cannot forge log entries

---
 log/text.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/log/text.go b/log/text.go
index b2c8706..3ac0d11 100644
--- a/log/text.go
+++ b/log/text.go
@@ -3,6 +3,7 @@ package log
 import (
 	"encoding/json"
 	"fmt"
+	"strconv"
 )
 
 type LogEvent int
@@ -146,6 +147,9 @@ func ProtectedResourceLog(path string, ev LogEvent,
 func EndpointLog(endpoint, realm string, ev LogEvent,
 	params map[string]string, msg string) string {
 	attributes, _ := json.Marshal(params)
+	// the realm may come from the request: escape line breaks and the like
+	realm = strconv.Quote(realm)
+	realm = realm[1 : len(realm)-1]
 	return fmt.Sprintf("[goidc:%s:%s:%s] %s %s", endpoint,
 		lightPaint(realm, Blue), paint(ev.String(), Cyan), msg, lightPaint(string(attributes), Red))
 }
-- 
2.43.0


From 8292f796b73d3b9a1599f5c511a6b546047f35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:42 +0000
Subject: [PATCH 23/24] fix: code verifiers are generated from crypto/rand, not
 from math/rand seeded with the time

---
 pkce/crypto.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkce/crypto.go b/pkce/crypto.go
index 92fa4b5..8807ec1 100644
--- a/pkce/crypto.go
+++ b/pkce/crypto.go
@@ -1,18 +1,16 @@
 package pkce
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"encoding/base64"
-	"math/rand"
 	"strings"
-	"time"
 )
 
 func GenRandomCodeVerifier() string {
-	rand.Seed(time.Now().UnixNano())
 	var data [32]byte
-	for i := 0; i < 32; i++ {
-		data[i] = byte(rand.Intn(256))
+	if _, err := rand.Read(data[:]); err != nil {
+		panic(err)
 	}
 	return EncodeBase64WithoutPadding(data[:])
 }
-- 
2.43.0


From 3936515c83508020451c50ad20bb2337c054f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:17 +0000
Subject: [PATCH 24/24] fix: treat data interface errors of any other type as
 server errors

---
 authorization_endpoint.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index e9ff74b..c380f62 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -101,7 +101,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			callbacks.ShowErrorScreen(authorization.ErrServerError)
 			return false
 
-		} else if serr.Type() == bridge.ErrServerError {
+		} else {
 
 			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
 				log.InterfaceError,
@@ -610,7 +610,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				if serr.Type() == bridge.ErrUnsupported {
 					rh.Error(ruri, "server_error", "", state)
 					return false
-				} else if serr.Type() == bridge.ErrServerError {
+				} else if serr.Type() != bridge.ErrFailed {
 					rh.Error(ruri, "server_error", "", state)
 					return false
 				} else {
@@ -697,7 +697,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				if serr.Type() == bridge.ErrUnsupported {
 					rh.Error(ruri, "server_error", "", state)
 					return false
-				} else if serr.Type() == bridge.ErrServerError {
+				} else if serr.Type() != bridge.ErrFailed {
 					rh.Error(ruri, "server_error", "", state)
 					return false
 				} else {
@@ -818,7 +818,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				if serr.Type() == bridge.ErrUnsupported {
 					rh.Error(ruri, "server_error", "", state)
 					return false
-				} else if serr.Type() == bridge.ErrServerError {
+				} else if serr.Type() != bridge.ErrFailed {
 					rh.Error(ruri, "server_error", "", state)
 					return false
 				} else {
@@ -979,7 +979,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				if serr.Type() == bridge.ErrUnsupported {
 					rh.Error(ruri, "server_error", "", state)
 					return false
-				} else if serr.Type() == bridge.ErrServerError {
+				} else if serr.Type() != bridge.ErrFailed {
 					rh.Error(ruri, "server_error", "", state)
 					return false
 				}
-- 
2.43.0

