From 847c01565e6329bf42e192aeb8fa7c80b54bbe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 001/109] fix: use the systems randomness source when creating
 state, nonce and code verifier values

---
 src/oidcrp/util.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 17e0d51..a71f529 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -6,6 +6,7 @@ import io
 import json
 import logging
 import os
+import random
 import ssl
 import string
 import sys
@@ -18,11 +19,9 @@ from oidcmsg.exception import UnSupported
 from oidcmsg.oauth2 import is_error_message
 import yaml
 
-# Since SystemRandom is not available on all systems
-try:
-    import SystemRandom as rnd
-except ImportError:
-    import random as rnd
+# The values created here are used as state, nonce and PKCE code verifier values
+# and must therefor not be possible to guess.
+rnd = random.SystemRandom()
 
 from oidcrp.defaults import BASECHR
 from oidcrp.exception import ConfigurationError
-- 
2.43.0


From a576d7d8cadc2babc4c608f1121519e2ac866a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 002/109] fix: removing a session removes everything bound to
 it and nothing else

---
 src/oidcrp/state_interface.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index bfc7100..6d2a7dd 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -249,10 +249,13 @@ class StateInterface(ImpExp):
             _val = None
 
         if _val is None:
-            refs = {xtyp: value}
+            refs = {}
         else:
             refs = json.loads(_val)
-            refs[xtyp] = value
+        # There may be more then one value of each type
+        _values = refs.setdefault(xtyp, [])
+        if value not in _values:
+            _values.append(value)
         self._db["ref{}ref".format(state)] = json.dumps(refs)
 
     def get_state_by_x(self, value, xtyp):
@@ -382,7 +385,13 @@ class StateInterface(ImpExp):
         :param state: Key to the state
         """
         del self._db[state]
-        refs = json.loads(self._db.get("ref{}ref".format(state)))
-        if refs:
-            for xtyp, _val in refs.items():
-                del self._db[KEY_PATTERN[xtyp].format(_val)]
+        _ref_key = "ref{}ref".format(state)
+        _refs = self._db.get(_ref_key)
+        if _refs:
+            for xtyp, _values in json.loads(_refs).items():
+                for _val in _values:
+                    _key = KEY_PATTERN[xtyp].format(_val)
+                    # The value may by now be bound to another state
+                    if self._db.get(_key) == state:
+                        del self._db[_key]
+            del self._db[_ref_key]
-- 
2.43.0


From 7ae1d598ed9d280b9713580e2c071c714f28b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 003/109] fix: get_user_info uses the access token found in the
 session

---
 src/oidcrp/rp_handler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 6d42ced..da3b78b 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -594,6 +594,7 @@ class RPHandler(object):
             _arg = client.client_get("service_context").state.multiple_extend_request_args(
                 {}, state, ['access_token'],
                 ['auth_response', 'token_response', 'refresh_token_response'])
+            access_token = _arg.get('access_token', '')
 
         request_args = {'access_token': access_token}
 
-- 
2.43.0


From 6e8c63174c670f3ad515abce9191fa57f43ff59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 004/109] fix: finalize handles responses from plain OAuth2
 providers, which has no 'sub'

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index da3b78b..8cdc5a3 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -810,7 +810,7 @@ class RPHandler(object):
 
         if _id_token:
             _context.state.store_sub2state(_id_token['sub'], _state)
-        else:
+        elif 'sub' in inforesp:
             _context.state.store_sub2state(inforesp['sub'], _state)
 
         return {
-- 
2.43.0


From c42eec11c5f93c36a9798b4b8b99ee8de9a7751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 005/109] fix: report missing end_session and provider_info
 services as documented

---
 src/oidcrp/oauth2/__init__.py | 4 +---
 src/oidcrp/rp_handler.py      | 5 ++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 2ee8fa3..7e2c255 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -276,9 +276,7 @@ def dynamic_provider_info_discovery(client: Client, behaviour_args: Optional[dic
     :param behaviour_args:
     :param client: A :py:class:`oidcrp.oidc.Client` instance
     """
-    try:
-        client.get_service('provider_info')
-    except KeyError:
+    if client.get_service('provider_info') is None:
         raise ConfigurationError(
             'Can not do dynamic provider info discovery')
     else:
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 8cdc5a3..a20cc83 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -905,9 +905,8 @@ class RPHandler(object):
         if client is None:
             client = self.get_client_from_session_key(state)
 
-        try:
-            srv = client.client_get('service', 'end_session')
-        except KeyError:
+        srv = client.client_get('service', 'end_session')
+        if srv is None:
             raise OidcServiceError("Does not know how to logout")
 
         if post_logout_redirect_uri:
-- 
2.43.0


From 8315c6d8bffe4e7c4c666b7986516c788804d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 006/109] fix: create a redirect_uri when the response type is
 "code id_token"

---
 src/oidcrp/oidc/registration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 06a3ea9..5611238 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -125,7 +125,7 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
         # code and/or implicit
         if _in_config_or_client_preferences(context.config, "response_types", "code"):
             _uris['code'] = True
-        for rt in ["id_token", "id_token token", "code id_token token", "code idtoken",
+        for rt in ["id_token", "id_token token", "code id_token token", "code id_token",
                    "code token"]:
             if _in_config_or_client_preferences(context.config, "response_types", rt):
                 _uris["implicit"] = True
-- 
2.43.0


From 564b0cb771d9f1b9b8f505c77aca543d59c30a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 007/109] fix: HTTP Basic credentials are base64 encoded using
 the standard alphabet

---
 src/oidcrp/client_auth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 2a480bb..4f42822 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -79,7 +79,7 @@ class ClientSecretBasic(ClientAuthnMethod):
 
     The upshot of this is to construct an Authorization header that has the
     value 'Basic <token>' where <token> is username and password concatenated
-    together with a ':' in between and then URL safe base64 encoded.
+    together with a ':' in between and then base64 encoded (RFC 7617).
 
     Note that both username and password
     """
@@ -118,7 +118,7 @@ class ClientSecretBasic(ClientAuthnMethod):
         user = self._get_user(service, **kwargs)
 
         credentials = "{}:{}".format(quote_plus(user), quote_plus(passwd))
-        return base64.urlsafe_b64encode(credentials.encode("utf-8")).decode("utf-8")
+        return base64.b64encode(credentials.encode("utf-8")).decode("utf-8")
 
     @staticmethod
     def _with_or_without_client_id(request, service):
-- 
2.43.0


From 782b29d00f9e3e6a6b309831af9cd1435c6c02ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 008/109] fix: a query part in an endpoint URL is kept as is
 and can not override request parameters

---
 src/oidcrp/util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index a71f529..137ae4c 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -11,7 +11,6 @@ import ssl
 import string
 import sys
 from typing import Optional
-from urllib.parse import parse_qs
 from urllib.parse import urlsplit
 from urllib.parse import urlunsplit
 
@@ -109,12 +108,12 @@ def get_http_url(url, req, method='GET'):
     """
     if method in ["GET", "DELETE"]:
         if req.keys():
-            _req = req.copy()
             comp = urlsplit(str(url))
+            _query = str(req.to_urlencoded())
             if comp.query:
-                _req.update(parse_qs(comp.query))
+                # MUST be retained, as is, when adding parameters
+                _query = "{}&{}".format(comp.query, _query)
 
-            _query = str(_req.to_urlencoded())
             return urlunsplit((comp.scheme, comp.netloc, comp.path,
                                _query, comp.fragment))
 
-- 
2.43.0


From 9c71beabf53dc832fbb992f05e1635399ad50fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 009/109] fix: a refresh response is stored beside the token
 response instead of replacing it

---
 .../oauth2/client_credentials/cc_access_token.py     |  2 +-
 .../client_credentials/cc_refresh_access_token.py    | 12 ++++++++++--
 src/oidcrp/oauth2/refresh_access_token.py            |  9 ++++++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/oauth2/client_credentials/cc_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_access_token.py
index 0bec1bb..b1bf397 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_access_token.py
@@ -24,4 +24,4 @@ class CCAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get('service_context').state.store_item(resp, 'token_response', key)
+        self.client_get('service_context').state.store_item(resp, 'token_response', key or 'cc')
diff --git a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
index 13468a4..238e40e 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
@@ -22,7 +22,7 @@ class CCRefreshAccessToken(Service):
         self.post_construct.append(self.cc_post_construct)
 
     def cc_pre_construct(self, request_args=None, **kwargs):
-        _state_id = kwargs.get("state", "cc")
+        _state_id = kwargs.get("state") or "cc"
         parameters = ['refresh_token']
         _state_interface = self.client_get("service_context").state
         _args = _state_interface.extend_request_args({}, oauth2.AccessTokenResponse,
@@ -52,4 +52,12 @@ class CCRefreshAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+
+        key = key or 'cc'
+        _state_interface = self.client_get("service_context").state
+        if 'refresh_token' not in resp:
+            # No new refresh token, so keep on using the one from the previous refresh
+            _state_interface.extend_request_args(resp, oauth2.AccessTokenResponse,
+                                                 'refresh_token_response', key,
+                                                 ['refresh_token'])
+        _state_interface.store_item(resp, 'refresh_token_response', key)
diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index 4b5efa6..cc72c3f 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -30,7 +30,14 @@ class RefreshAccessToken(Service):
     def update_service_context(self, resp, key='', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+
+        _state_interface = self.client_get("service_context").state
+        if 'refresh_token' not in resp:
+            # No new refresh token, so keep on using the one from the previous refresh
+            _state_interface.extend_request_args(resp, oauth2.AccessTokenResponse,
+                                                 'refresh_token_response', key,
+                                                 ['refresh_token'])
+        _state_interface.store_item(resp, 'refresh_token_response', key)
 
     def oauth_pre_construct(self, request_args=None, **kwargs):
         """Preconstructor of request arguments"""
-- 
2.43.0


From 90b6f6665b3e88e7169e29d6ff6bfbd63fe1e430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 010/109] fix: the registration response may lack
 token_endpoint_auth_signing_alg

---
 src/oidcrp/client_auth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 4f42822..ae76fc0 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -456,8 +456,9 @@ class JWSAuthnMethod(ClientAuthnMethod):
         if 'authn_endpoint' in kwargs and kwargs['authn_endpoint'] in ['token_endpoint']:
             reg_resp = context.registration_response
             if reg_resp:
-                algorithm = reg_resp["token_endpoint_auth_signing_alg"]
-            else:
+                algorithm = reg_resp.get("token_endpoint_auth_signing_alg")
+
+            if not algorithm:
                 algorithm = context.client_preferences.get("token_endpoint_auth_signing_alg")
                 if algorithm is None:
                     _pi = context.provider_info
-- 
2.43.0


From d1435a7f74344e66b1574eec06f69150c5fea943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 011/109] fix: private_key_jwt and client_secret_jwt pick a
 signing algorithm of the right kind

---
 src/oidcrp/client_auth.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index ae76fc0..89646f0 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -377,6 +377,16 @@ class JWSAuthnMethod(ClientAuthnMethod):
     Web Tokens.
     """
 
+    @staticmethod
+    def is_preferred(algorithm):
+        """
+        Whether a signing algorithm is of the kind the authentication method should use.
+
+        :param algorithm: Name of a signing algorithm
+        :return: True/False
+        """
+        return True
+
     @staticmethod
     def choose_algorithm(context, **kwargs):
         """
@@ -467,7 +477,9 @@ class JWSAuthnMethod(ClientAuthnMethod):
                     except KeyError:
                         algorithm = "RS256"  # default
                     else:
-                        for alg in algs:  # pick the first one I support and have keys for
+                        # those that fits this authentication method goes first
+                        for alg in sorted(algs, key=lambda a: not self.is_preferred(a)):
+                            # pick the first one I support and have keys for
                             if alg in SIGNER_ALGS and self.get_signing_key_from_keyjar(alg,
                                                                                        context):
                                 algorithm = alg
@@ -562,6 +574,10 @@ class ClientSecretJWT(JWSAuthnMethod):
     bytes of the UTF-8 representation of the client_secret as the shared key.
     """
 
+    @staticmethod
+    def is_preferred(algorithm):
+        return algorithm.startswith("HS")
+
     def choose_algorithm(self, context="client_secret_jwt", **kwargs):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
@@ -574,6 +590,10 @@ class PrivateKeyJWT(JWSAuthnMethod):
     Clients that have registered a public key can sign a JWT using that key.
     """
 
+    @staticmethod
+    def is_preferred(algorithm):
+        return not algorithm.startswith("HS")
+
     def choose_algorithm(self, context="private_key_jwt", **kwargs):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
-- 
2.43.0


From a97e63a1d7d8f42be777f203064546df9c653002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 012/109] fix: DPoP add-on is a no-op when the provider does
 not support DPoP

---
 src/oidcrp/oauth2/add_on/dpop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 13981e1..f125007 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -102,7 +102,7 @@ def dpop_header(service_context: ServiceContext,
     dpop_key = service_context.add_on['dpop'].get('key')
 
     if not dpop_key:
-        algs_supported = provider_info["dpop_signing_alg_values_supported"]
+        algs_supported = provider_info.get("dpop_signing_alg_values_supported")
         if not algs_supported:  # does not support DPoP
             return headers
 
-- 
2.43.0


From 0eeddb348483a0c47c69bbe454f6aed24e730ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 013/109] fix: tampering with an encrypted cookie is reported
 as InvalidCookieSign

---
 src/oidcrp/cookie.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 7ece2ef..a750298 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -7,6 +7,7 @@ import os
 import sys
 import time
 
+from cryptography.exceptions import InvalidTag
 from cryptography.hazmat.primitives.ciphers.aead import AESGCM
 from cryptojwt.jwe.exception import JWEException
 from cryptojwt.jwe.utils import split_ctx_and_tag
@@ -235,9 +236,12 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     elif len(parts) == 4:
         # encrypted and signed
         timestamp = parts[0]
-        iv = base64.b64decode(parts[1])
-        ciphertext = base64.b64decode(parts[2])
-        tag = base64.b64decode(parts[3])
+        try:
+            iv = base64.b64decode(parts[1])
+            ciphertext = base64.b64decode(parts[2])
+            tag = base64.b64decode(parts[3])
+        except ValueError:
+            raise InvalidCookieSign()
         ct = ciphertext + tag
 
         # Make sure the key is 32-Bytes long
@@ -249,7 +253,7 @@ def parse_cookie(name, seed, kaka, enc_key=None):
         aad = timestamp.encode('utf-8')
         try:
             cleartext = aesgcm.decrypt(iv, ct, aad)
-        except JWEException:
+        except (InvalidTag, JWEException, ValueError):
             raise InvalidCookieSign()
         return cleartext.decode('utf-8'), timestamp
     return None
-- 
2.43.0


From 940a839b87a03a1fdd3c1e34001a83de83bb72d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 014/109] fix: cookie values containing the field separator
 survives the round trip

---
 src/oidcrp/cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index a750298..c5b94df 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -390,7 +390,7 @@ class CookieDealer(object):
             except (TypeError, AssertionError):
                 return None
             else:
-                value, _ts, typ = info.split("::")
+                value, _ts, typ = info.rsplit("::", 2)
                 if timestamp == _ts:
                     return value, _ts, typ
         return None
-- 
2.43.0


From 484f5f1862b90793d0a52b4ebd5a2768a9e1ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 015/109] fix: use the request arguments the request callback
 returns

---
 src/oidcrp/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/http.py b/src/oidcrp/http.py
index ef77c49..c5b9ad6 100644
--- a/src/oidcrp/http.py
+++ b/src/oidcrp/http.py
@@ -91,7 +91,7 @@ class HTTPLib(object):
 
         # If I want to modify the request arguments based on URL, method
         # and current arguments I can use this call back function.
-        self.run_req_callback(url, method, kwargs)
+        _kwargs = self.run_req_callback(url, method, _kwargs)
 
         try:
             # Do the request
-- 
2.43.0


From 22463846e76840d4523dffbd6df247507be943a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 016/109] fix: initiating a client does not modify the service
 definitions

---
 src/oidcrp/service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index c4726a5..7bce474 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -623,7 +623,8 @@ def init_services(service_definitions, client_get, client_authn_factory=None):
     service = DLDict()
     for service_name, service_configuration in service_definitions.items():
         try:
-            kwargs = service_configuration['kwargs']
+            # A service definition may be shared between clients
+            kwargs = dict(service_configuration['kwargs'])
         except KeyError:
             kwargs = {}
 
-- 
2.43.0


From 0b63d56724bf4d08d85c7607640e4bff23553ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 017/109] fix: setting up and using one client does not modify
 configuration shared with others

---
 src/oidcrp/oidc/authorization.py | 4 +++-
 src/oidcrp/rp_handler.py         | 8 +++++---
 src/oidcrp/service_context.py    | 3 ++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 5845640..04a8df1 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -96,7 +96,9 @@ class Authorization(authorization.Authorization):
         if 'scope' not in request_args:
             request_args['scope'] = _context.behaviour.get("scope", ["openid"])
         elif 'openid' not in request_args['scope']:
-            request_args['scope'].append('openid')
+            if isinstance(request_args['scope'], str):
+                request_args['scope'] = request_args['scope'].split(' ')
+            request_args['scope'] = request_args['scope'] + ['openid']
 
         # 'code' and/or 'id_token' in response_type means an ID Roken
         # will eventually be returnedm, hence the need for a nonce
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index a20cc83..eb757b9 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -1,3 +1,4 @@
+import copy
 from inspect import currentframe
 import logging
 import sys
@@ -158,7 +159,8 @@ class RPHandler(object):
         try:
             _cnf = self.pick_config(issuer)
         except KeyError:
-            _cnf = self.pick_config('')
+            # This configuration is shared between issuers, so don't change it
+            _cnf = copy.copy(self.pick_config(''))
             _cnf['issuer'] = issuer
 
         try:
@@ -399,9 +401,9 @@ class RPHandler(object):
 
         _req_args = _context.config.get("request_args")
         if _req_args:
-            if 'claims' in _req_args:
-                _req_args["claims"] = Claims(**_req_args["claims"])
             request_args.update(_req_args)
+            if 'claims' in _req_args:
+                request_args["claims"] = Claims(**_req_args["claims"])
 
         if req_args is not None:
             request_args.update(req_args)
diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index f68f81c..ae04454 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -147,7 +147,8 @@ class ServiceContext(OidcContext):
         # Dynamic information
         for param in ['client_secret', 'client_id', 'redirect_uris', 'provider_info',
                       'behaviour', 'callback', 'issuer']:
-            _val = config.get(param, _def_value[param])
+            # Will be modified, the configuration should not be
+            _val = copy.deepcopy(config.get(param, _def_value[param]))
             self.set(param, _val)
             if param == 'client_secret' and _val:
                 self.keyjar.add_symmetric('', _val)
-- 
2.43.0


From 2a61b4d61c650883c45b09894d838f815ee79c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 018/109] fix: never replace a client that has sessions when a
 user picks the same issuer once more

---
 src/oidcrp/rp_handler.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index eb757b9..c2f4d94 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -335,8 +335,13 @@ class RPHandler(object):
         else:
             temporary_client = None
 
+        # A client configuration may be known under another name than the issuer ID
+        _issuer = iss_id
+        if iss_id and iss_id not in self.issuer2rp:
+            _issuer = self.hash2issuer.get(iss_id, iss_id)
+
         try:
-            client = self.issuer2rp[iss_id]
+            client = self.issuer2rp[_issuer]
         except KeyError:
             if temporary_client:
                 client = temporary_client
@@ -349,11 +354,14 @@ class RPHandler(object):
         logger.debug("Get provider info")
         issuer = self.do_provider_info(client, behaviour_args=behaviour_args)
 
+        # There may already be a client, with active sessions, for this issuer. Don't replace it.
+        if issuer in self.issuer2rp:
+            return self.issuer2rp[issuer]
+
         logger.debug("Do client registration")
         self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
 
-        self.issuer2rp[issuer] = client
-        return client
+        return self.issuer2rp.setdefault(issuer, client)
 
     def _get_response_type(self, context, req_args: Optional[dict] = None):
         if req_args:
-- 
2.43.0


From 6abe9941a0057486ed58cead66adaad2515cb0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 019/109] fix: signed cookies can carry a payload that contains
 "|"

---
 src/oidcrp/cookie.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index c5b94df..102b0fe 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -227,7 +227,12 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     parts = cookie_parts(name, kaka)
     if parts is None:
         return None
-    elif len(parts) == 3:
+
+    if not enc_key and len(parts) > 3:
+        # Not encrypted, so it's the payload that contains the separator
+        parts = ["|".join(parts[:-2])] + parts[-2:]
+
+    if len(parts) == 3:
         # verify the cookie signature
         cleartext, timestamp, sig = parts
         if not verify_cookie_signature(sig, seed, cleartext, timestamp):
-- 
2.43.0


From 6a479196bde2eaf29b3ba2e666c5e4670511d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 020/109] fix: back-channel logout picks the session that the
 logout token points out

---
 src/oidcrp/rp_handler.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index c2f4d94..c511805 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -983,14 +983,17 @@ def backchannel_logout(client, request='', request_args=None):
 
     # Find the subject through 'sid' or 'sub'
     sub = req[verified_claim_name('logout_token')].get('sub')
-    sid = None
-    if not sub:
-        sid = req[verified_claim_name('logout_token')].get('sid')
+    sid = req[verified_claim_name('logout_token')].get('sid')
 
     if not sub and not sid:
         raise MessageException('Neither "sid" nor "sub"')
-    elif sub:
-        _state = _context.state.get_state_by_sub(sub)
-    elif sid:
-        _state = _context.state.get_state_by_sid(sid)
-    return _state
+
+    if sid:
+        # 'sid' identifies one session while 'sub' may be bound to several
+        try:
+            return _context.state.get_state_by_sid(sid)
+        except KeyError:
+            if not sub:
+                raise
+
+    return _context.state.get_state_by_sub(sub)
-- 
2.43.0


From 421cf2265938dd9cecb41bbace507416cfadddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 021/109] fix: report when none of a list of preferences is
 supported by the provider

---
 src/oidcrp/oidc/provider_info_discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/provider_info_discovery.py b/src/oidcrp/oidc/provider_info_discovery.py
index 230ce27..6529732 100644
--- a/src/oidcrp/oidc/provider_info_discovery.py
+++ b/src/oidcrp/oidc/provider_info_discovery.py
@@ -154,7 +154,7 @@ class ProviderInfoDiscovery(provider_info_discovery.ProviderInfoDiscovery):
                                 _behaviour[_pref] = val
                                 break
 
-            if _pref not in _behaviour:
+            if _pref not in _behaviour or (vals and not _behaviour[_pref]):
                 raise ConfigurationError("OP couldn't match preference:%s" % _pref, pcr)
 
         for key, val in _context.client_preferences.items():
-- 
2.43.0


From e0e028995656c035e8625b5ff2ba3baf9c62913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 022/109] fix: 201 is the status of a successful pushed
 authorization request

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 4fd1058..9f5e48b 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -37,7 +37,7 @@ def push_authorization(request_args, service, **kwargs):
         _context.provider_info["pushed_authorization_request_endpoint"], data=_body
     )
 
-    if resp.status_code == 200:
+    if resp.status_code in [200, 201]:
         _resp = Message().from_json(resp.text)
         _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
         if method_args["merge_rule"] == "lax":
-- 
2.43.0


From 4bcc0dc4068931f5191d320adcb8d2658eb18e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 023/109] fix: HTTP error and redirect responses are never
 treated as successful responses

---
 src/oidcrp/oauth2/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 7e2c255..43f82a2 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -125,6 +125,11 @@ class Client(Entity):
             raise
 
         if 300 <= resp.status_code < 400:
+            if service.synchronous and (
+                    response_body_type or service.response_body_type) != 'html':
+                # Expected the response in the body, a redirect is not that
+                raise OidcServiceError("HTTP ERROR: unexpected redirect [%s] on %s" % (
+                    resp.status_code, url))
             return {'http_response': resp}
 
         if resp.status_code < 300:
@@ -260,6 +265,11 @@ class Client(Entity):
             except JSONDecodeError:  # So it's not JSON assume text then
                 err_resp = {'error': reqresp.text}
 
+            if not is_error_message(err_resp):
+                # An HTTP error status can not come with a successful response
+                raise OidcServiceError("HTTP ERROR: %s [%s] on %s" % (
+                    reqresp.text, reqresp.status_code, reqresp.url))
+
             err_resp['status_code'] = reqresp.status_code
             return err_resp
         else:
-- 
2.43.0


From e0e0c2abb65936b2ad0a9bbe7b24b6ce530998bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 024/109] fix: ID Tokens from the authorization and token
 endpoints must have the same subject

---
 src/oidcrp/oidc/access_token.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcrp/oidc/access_token.py b/src/oidcrp/oidc/access_token.py
index 8a2b215..7d83eff 100644
--- a/src/oidcrp/oidc/access_token.py
+++ b/src/oidcrp/oidc/access_token.py
@@ -80,6 +80,12 @@ class AccessToken(access_token.AccessToken):
             except KeyError:
                 raise ValueError('Invalid nonce value')
 
+            # In a hybrid flow there may already be an ID Token. It must be about the same subject
+            _args = _state_interface.multiple_extend_request_args({}, key, ['id_token'],
+                                                                  ['auth_response'])
+            if 'id_token' in _args and _args['id_token']['sub'] != _idt['sub']:
+                raise ValueError('Incorrect "sub" value')
+
             _state_interface.store_sub2state(_idt['sub'], key)
 
         if 'expires_in' in resp:
-- 
2.43.0


From cb287cb4b01b2598418f3f9b04b8b08cf63ae166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 025/109] fix: an ID Token in a refresh response is verified as
 the original one and has the same subject

---
 src/oidcrp/oidc/refresh_access_token.py | 51 +++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index d6af5a3..b1cbd20 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -1,6 +1,12 @@
+from typing import Optional
+from typing import Union
+
 from oidcmsg import oidc
+from oidcmsg.message import Message
+from oidcmsg.oidc import verified_claim_name
 
 from oidcrp.oauth2 import refresh_access_token
+from oidcrp.oidc import IDT2REG
 
 
 class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
@@ -8,6 +14,51 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
     response_cls = oidc.AccessTokenResponse
     error_msg = oidc.ResponseMessage
 
+    def gather_verify_arguments(self,
+                                response: Optional[Union[dict, Message]] = None,
+                                behaviour_args: Optional[dict] = None):
+        """
+        An ID Token in a refresh response has to fulfill the same demands as the original one.
+
+        :return: dictionary with arguments to the verify call
+        """
+        _context = self.client_get("service_context")
+
+        kwargs = refresh_access_token.RefreshAccessToken.gather_verify_arguments(
+            self, response=response, behaviour_args=behaviour_args)
+        kwargs['skew'] = _context.clock_skew
+
+        _reg_resp = _context.registration_response
+        if _reg_resp:
+            for attr, param in IDT2REG.items():
+                try:
+                    kwargs[attr] = _reg_resp[param]
+                except KeyError:
+                    pass
+
+        try:
+            kwargs['allow_missing_kid'] = _context.allow['missing_kid']
+        except KeyError:
+            pass
+
+        _verify_args = _context.behaviour.get("verify_args")
+        if _verify_args:
+            kwargs.update(_verify_args)
+
+        return kwargs
+
+    def update_service_context(self, resp, key='', **kwargs):
+        _idt = resp.get(verified_claim_name('id_token'))
+        if _idt:
+            # MUST be about the same subject as the ID Token from the original authentication
+            _args = self.client_get("service_context").state.multiple_extend_request_args(
+                {}, key, ['id_token'], ['auth_response', 'token_response'])
+            if 'id_token' in _args and _args['id_token']['sub'] != _idt['sub']:
+                raise ValueError('Incorrect "sub" value')
+
+        refresh_access_token.RefreshAccessToken.update_service_context(self, resp, key=key,
+                                                                       **kwargs)
+
     def get_authn_method(self):
         try:
             return self.client_get("service_context").behaviour['token_endpoint_auth_method']
-- 
2.43.0


From fd38860bfc01a2caf652ed87d7c5c2350dba8f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 026/109] fix: finding a session is safe while another thread
 adds a client

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index c511805..2715a57 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -111,7 +111,7 @@ class RPHandler(object):
         :param state: The state value
         :return: An Issuer ID
         """
-        for _rp in self.issuer2rp.values():
+        for _rp in list(self.issuer2rp.values()):
             try:
                 _iss = _rp.client_get("service_context").state.get_iss(state)
             except KeyError:
-- 
2.43.0


From f9f6cf86d2164dd67c9a5d816e861b0767dccf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 027/109] fix: client_secret_jwt works for statically
 registered clients

---
 src/oidcrp/client_auth.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 89646f0..ac96af3 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -5,6 +5,7 @@ from urllib.parse import quote_plus
 
 from cryptojwt.exception import MissingKey
 from cryptojwt.exception import UnsupportedAlgorithm
+from cryptojwt.jwk.hmac import SYMKey
 from cryptojwt.jws.jws import SIGNER_ALGS
 from cryptojwt.jws.utils import alg2keytype
 from oidcmsg.message import VREQUIRED
@@ -582,7 +583,11 @@ class ClientSecretJWT(JWSAuthnMethod):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
     def get_signing_key_from_keyjar(self, algorithm, service_context):
-        return service_context.keyjar.get_signing_key(alg2keytype(algorithm), alg=algorithm)
+        _keys = service_context.keyjar.get_signing_key(alg2keytype(algorithm), alg=algorithm)
+        if not _keys and self.is_preferred(algorithm) and service_context.client_secret:
+            # The client secret is not among the keys of a statically registered client
+            _keys = [SYMKey(key=service_context.client_secret, use="sig")]
+        return _keys
 
 
 class PrivateKeyJWT(JWSAuthnMethod):
-- 
2.43.0


From dc1cd10f26de26e62c2deaa35e2ba570e40c2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 028/109] fix: an OIDC authorization request has a nonce
 whenever the response can bring an ID Token

---
 src/oidcrp/oidc/authorization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 04a8df1..073a525 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -102,7 +102,9 @@ class Authorization(authorization.Authorization):
 
         # 'code' and/or 'id_token' in response_type means an ID Roken
         # will eventually be returnedm, hence the need for a nonce
-        if "code" in _response_types or "id_token" in _response_types:
+        _words = [w for rt in _response_types or ['code'] for w in
+                  (rt.split(' ') if isinstance(rt, str) else rt)]
+        if "code" in _words or "id_token" in _words:
             if "nonce" not in request_args:
                 request_args["nonce"] = rndstr(32)
 
@@ -216,7 +218,7 @@ class Authorization(authorization.Authorization):
         """
         _context = self.client_get("service_context")
         if 'openid' in req['scope']:
-            _response_type = req['response_type'][0]
+            _response_type = ' '.join(req['response_type']).split(' ')
             if 'id_token' in _response_type or 'code' in _response_type:
                 _context.state.store_nonce2state(req['nonce'], req['state'])
 
-- 
2.43.0


From 948557caf5d3c987f62bb3c686b539242ad69c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 029/109] fix: a configured request parameter with the value 0
 is sent

---
 src/oidcrp/service.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 7bce474..fcfc7d8 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -34,6 +34,11 @@ SPECIAL_ARGS = ['authn_endpoint', 'algs']
 REQUEST_INFO = 'Doing request with: URL:{}, method:{}, data:{}, https_args:{}'
 
 
+def _no_value(val):
+    # 0 is a value, as in 'max_age': 0
+    return not val and (val is False or val != 0)
+
+
 class Service(ImpExp):
     """The basic Service class."""
     msg_type = Message
@@ -113,17 +118,17 @@ class Service(ImpExp):
                 continue
 
             val = _context.get(prop)
-            if not val:
+            if _no_value(val):
                 if "request_args" in self.conf:
                     val = self.conf['request_args'].get(prop)
-                if not val:
+                if _no_value(val):
                     val = _context.register_args.get(prop)
-                    if not val:
+                    if _no_value(val):
                         val = self.default_request_args.get(prop)
-                        if not val:
+                        if _no_value(val):
                             val = _context.behaviour.get(prop)
 
-            if val:
+            if not _no_value(val):
                 ar_args[prop] = val
 
         return ar_args
-- 
2.43.0


From ae6a2177fab713957fb67a45b8dc3ff607b871de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 030/109] fix: a configured encryption of request objects is
 for the issuer the request is sent to

---
 src/oidcrp/oidc/authorization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 073a525..d0c012b 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -190,6 +190,10 @@ class Authorization(authorization.Authorization):
             except KeyError:
                 kwargs['recv'] = _srv_cntx.issuer
 
+        # If the request object should be encrypted then it's for the same receiver
+        if not kwargs.get('target'):
+            kwargs['target'] = kwargs['recv']
+
         del kwargs['service']
 
         if expires_in:
-- 
2.43.0


From 0b9c999718215441cc0263b550d7401f047c0ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 031/109] fix: parameters beside a pushed request object are
 sent once, with their values joined

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 9f5e48b..87d700a 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -18,17 +18,20 @@ def push_authorization(request_args, service, **kwargs):
     _context = service.client_get("service_context")
     method_args = _context.add_on["pushed_authorization"]
 
+    # the parameter values the way they are to be sent
+    _args = request_args.to_dict()
+
     # construct the message body
     if method_args["body_format"] == "urlencoded":
         _body = request_args.to_urlencoded()
     else:
         _jwt = JWT(key_jar=_context.keyjar, iss=_context.base_url)
-        _jws = _jwt.pack(request_args.to_dict())
+        _jws = _jwt.pack(_args)
 
         _msg = Message(request=_jws)
         if method_args["merge_rule"] == "lax":
             for param in request_args.required_parameters():
-                _msg[param] = request_args.get(param)
+                _msg[param] = _args.get(param)
 
         _body = _msg.to_urlencoded()
 
-- 
2.43.0


From 318f2490421e5526e95eccd068f3177e91c9a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 032/109] fix: an authorization request with a pushed request
 and the strict merge rule can be sent

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 87d700a..af9cf4b 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -42,10 +42,13 @@ def push_authorization(request_args, service, **kwargs):
 
     if resp.status_code in [200, 201]:
         _resp = Message().from_json(resp.text)
-        _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
         if method_args["merge_rule"] == "lax":
+            _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
             for param in request_args.required_parameters():
                 _req[param] = request_args.get(param)
+        else:
+            # everything but the client_id is behind the request_uri
+            _req = Message(request_uri=_resp["request_uri"], client_id=request_args["client_id"])
         request_args = _req
 
     return request_args
-- 
2.43.0


From 3689607d01856e73314522848df9044a219f09eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 033/109] fix: a pushed request object is signed with the
 configured algorithm, by the client for the provider

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index af9cf4b..d264cc6 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -25,8 +25,9 @@ def push_authorization(request_args, service, **kwargs):
     if method_args["body_format"] == "urlencoded":
         _body = request_args.to_urlencoded()
     else:
-        _jwt = JWT(key_jar=_context.keyjar, iss=_context.base_url)
-        _jws = _jwt.pack(_args)
+        _jwt = JWT(key_jar=_context.keyjar, iss=_context.client_id,
+                   sign_alg=method_args["signing_algorithm"])
+        _jws = _jwt.pack(_args, recv=_context.issuer)
 
         _msg = Message(request=_jws)
         if method_args["merge_rule"] == "lax":
-- 
2.43.0


From 4d8a5bb41f2d4aad05701742a8448f4578688469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 034/109] fix: use the client authentication method that the
 provider registered

---
 src/oidcrp/oidc/registration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 5611238..56ff4aa 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -266,10 +266,13 @@ class Registration(Service):
         return request_args
 
     def update_service_context(self, resp, key='', **kwargs):
+        _context = self.client_get("service_context")
         if "token_endpoint_auth_method" not in resp:
             resp["token_endpoint_auth_method"] = "client_secret_basic"
+        else:
+            # The provider may have registered something else than what was asked for
+            _context.behaviour["token_endpoint_auth_method"] = resp["token_endpoint_auth_method"]
 
-        _context = self.client_get("service_context")
         _context.registration_response = resp
         _client_id = resp.get("client_id")
         if _client_id:
-- 
2.43.0


From 72e02c1d93ffc7ca2d4f40a16f6d1eb7ad71584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 035/109] fix: DPoP proofs accompany refresh requests too

---
 src/oidcrp/oauth2/add_on/dpop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index f125007..3cee536 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -159,6 +159,11 @@ def add_support(services, signing_algorithms):
     }
     _service.construct_extra_headers.append(dpop_header)
 
+    # The same for the other requests to the token endpoint
+    _refresh_service = services.get("refresh_token")
+    if _refresh_service:
+        _refresh_service.construct_extra_headers.append(dpop_header)
+
     # The same for userinfo requests
     _userinfo_service = services.get("userinfo")
     if _userinfo_service:
-- 
2.43.0


From 1536b532e0c9aefd9eb6117b82228426ea71b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 036/109] fix: a refresh without ID Token does not lose the ID
 Token of the previous refresh

---
 src/oidcrp/oidc/refresh_access_token.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index b1cbd20..75c4497 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -48,16 +48,26 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
         return kwargs
 
     def update_service_context(self, resp, key='', **kwargs):
+        _state_interface = self.client_get("service_context").state
+        _previous = {}
         _idt = resp.get(verified_claim_name('id_token'))
         if _idt:
             # MUST be about the same subject as the ID Token from the original authentication
-            _args = self.client_get("service_context").state.multiple_extend_request_args(
+            _args = _state_interface.multiple_extend_request_args(
                 {}, key, ['id_token'], ['auth_response', 'token_response'])
             if 'id_token' in _args and _args['id_token']['sub'] != _idt['sub']:
                 raise ValueError('Incorrect "sub" value')
+        else:
+            # No new ID Token, so the one from the previous refresh remains the latest
+            _state_interface.extend_request_args(
+                _previous, oidc.AccessTokenResponse, 'refresh_token_response', key,
+                ['id_token', verified_claim_name('id_token')], orig=True)
 
         refresh_access_token.RefreshAccessToken.update_service_context(self, resp, key=key,
                                                                        **kwargs)
+        if _previous:
+            _state_interface.store_item(self.response_cls(**resp, **_previous),
+                                        'refresh_token_response', key)
 
     def get_authn_method(self):
         try:
-- 
2.43.0


From de5c9470801b0d9a871d5854df1985d001592638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:55 +0000
Subject: [PATCH 037/109] fix: aggregated claims from an unsigned JWT are not
 used

---
 src/oidcrp/oidc/userinfo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/oidc/userinfo.py b/src/oidcrp/oidc/userinfo.py
index 6c93b80..e621e5d 100644
--- a/src/oidcrp/oidc/userinfo.py
+++ b/src/oidcrp/oidc/userinfo.py
@@ -91,6 +91,11 @@ class UserInfo(Service):
                             'Error encountered while unpacking aggregated '
                             'claims'.format(err))
                     else:
+                        _header = aggregated_claims.jws_header
+                        if not _header or _header['alg'] == 'none':
+                            logger.warning('Unsigned aggregated claims, ignored')
+                            continue
+
                         claims = [value for value, src in
                                   response["_claim_names"].items() if
                                   src == csrc]
-- 
2.43.0


From c94cb9339b3d9a4184bbb17cddf2406fa83ef06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 038/109] fix: aggregated and distributed claims can not
 replace the subject

---
 src/oidcrp/oidc/__init__.py | 4 +++-
 src/oidcrp/oidc/userinfo.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/__init__.py b/src/oidcrp/oidc/__init__.py
index df9db5e..3d57020 100755
--- a/src/oidcrp/oidc/__init__.py
+++ b/src/oidcrp/oidc/__init__.py
@@ -171,8 +171,10 @@ class RP(oauth2.Client):
                             "Claims from claim source doesn't match what's in "
                             "the userinfo")
 
-                    # only add those I expected
+                    # only add those I expected. Only the provider can say who the user is
                     for key in claims:
+                        if key == 'sub':
+                            continue
                         userinfo[key] = _uinfo[key]
 
         return userinfo
diff --git a/src/oidcrp/oidc/userinfo.py b/src/oidcrp/oidc/userinfo.py
index e621e5d..a7a076e 100644
--- a/src/oidcrp/oidc/userinfo.py
+++ b/src/oidcrp/oidc/userinfo.py
@@ -96,9 +96,10 @@ class UserInfo(Service):
                             logger.warning('Unsigned aggregated claims, ignored')
                             continue
 
+                        # Only the provider can say who the user is
                         claims = [value for value, src in
                                   response["_claim_names"].items() if
-                                  src == csrc]
+                                  src == csrc and value != 'sub']
 
                         for key in claims:
                             response[key] = aggregated_claims[key]
-- 
2.43.0


From d6039be5ffc9b0071e2a7db15db766d31b0867af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 039/109] fix: a signed response wrongly tagged as JSON must
 use an acceptable algorithm

---
 src/oidcrp/service.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index fcfc7d8..5ffc547 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -501,6 +501,13 @@ class Service(ImpExp):
                         info, 'jwt', iss=_context.issuer, **kwargs)
                 except Exception:
                     pass
+                else:
+                    # Tagging it wrongly doesn't change which algorithms that are acceptable
+                    _algs = _context.get_sign_alg(self.service_name)
+                    if isinstance(_algs, str):
+                        _algs = [_algs]
+                    if _algs and resp.jws_header and resp.jws_header['alg'] not in _algs:
+                        resp = None
 
             if resp is None:
                 LOGGER.error('Error while deserializing: %s', err)
-- 
2.43.0


From 1b5fb962bb9ac623f1f50d973f7f037caf1bc350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 040/109] fix: signed user info is held to the algorithm that
 the provider registered

---
 src/oidcrp/service_context.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index ae04454..23eaeab 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -272,6 +272,12 @@ class ServiceContext(OidcContext):
         :return:
         """
 
+        try:
+            # What the provider registered takes precedence over what was asked for
+            return self.registration_response[CLI_REG_MAP[typ]['sign']]
+        except (KeyError, TypeError):
+            pass
+
         try:
             return self.behaviour[CLI_REG_MAP[typ]['sign']]
         except KeyError:
@@ -291,6 +297,14 @@ class ServiceContext(OidcContext):
 
         res = {}
         for attr in ['enc', 'alg']:
+            try:
+                _alg = self.registration_response[CLI_REG_MAP[typ][attr]]
+            except (KeyError, TypeError):
+                pass
+            else:
+                res[attr] = _alg
+                continue
+
             try:
                 _alg = self.behaviour[CLI_REG_MAP[typ][attr]]
             except KeyError:
-- 
2.43.0


From 72516e8b4aa8995247e372159cbb597646f7fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 041/109] fix: clients without a jwks_uri register their keys
 by value

---
 src/oidcrp/rp_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 2715a57..7b36cb7 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -186,6 +186,8 @@ class RPHandler(object):
 
         _context.base_url = self.base_url
         _context.jwks_uri = self.jwks_uri
+        if not self.jwks_uri:  # the keys are not published, so they are registered by value
+            _context.jwks = self.jwks
         return client
 
     def do_provider_info(self,
-- 
2.43.0


From 6250ab638dd8633b0e25a033dc101c35f6421476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 042/109] fix: the scheme of a WebFinger link is case
 insensitive

---
 src/oidcrp/oidc/webfinger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/webfinger.py b/src/oidcrp/oidc/webfinger.py
index a442a36..4e53c79 100644
--- a/src/oidcrp/oidc/webfinger.py
+++ b/src/oidcrp/oidc/webfinger.py
@@ -58,7 +58,8 @@ class WebFinger(Service):
                     except KeyError:
                         _http_allowed = False
 
-                    if _href.startswith('http://') and not _http_allowed:
+                    # The scheme is case insensitive
+                    if urlsplit(_href).scheme == 'http' and not _http_allowed:
                         raise ValueError(
                             'http link not allowed ({})'.format(_href))
 
-- 
2.43.0


From 7570ca7b1d96014364c628982cb06f07868ace0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 043/109] fix: the host of a user identifier follows its last @
 and must be there

---
 src/oidcrp/oidc/webfinger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/webfinger.py b/src/oidcrp/oidc/webfinger.py
index 4e53c79..1fcdf41 100644
--- a/src/oidcrp/oidc/webfinger.py
+++ b/src/oidcrp/oidc/webfinger.py
@@ -103,7 +103,7 @@ class WebFinger(Service):
                             authority = part[NETLOC]
                         else:
                             if '@' in _path:
-                                authority = _path.split('@')[1]
+                                authority = _path.rsplit('@', 1)[1]
                             else:
                                 authority = _path
                             resource = 'acct:{}'.format(_path)
@@ -135,7 +135,7 @@ class WebFinger(Service):
                         _path = _path.split(c)[0]
 
                     if '@' in _path:
-                        authority = _path.split('@')[1]
+                        authority = _path.rsplit('@', 1)[1]
                     else:
                         raise ValueError(
                             'No authority part in the resource specification')
@@ -145,6 +145,9 @@ class WebFinger(Service):
                     authority = part[NETLOC]
                     resource = self.create_url(part, [FRAGMENT])
 
+        if not authority:
+            raise ValueError('No host in the resource specification')
+
         location = WF_URL.format(authority)
         return oidc.WebFingerRequest(
             resource=resource, rel=OIC_ISSUER).request(location)
-- 
2.43.0


From 8d220cfb88af061747e295ab72d94ee0dbe6d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 044/109] fix: a logout token must be signed also when ID
 Tokens need not be

---
 src/oidcrp/rp_handler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 7b36cb7..bf3f52f 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -967,12 +967,16 @@ def backchannel_logout(client, request='', request_args=None):
         raise MissingRequiredAttribute('logout_token')
 
     _context = client.client_get("service_context")
+    _sign_alg = _context.get('registration_response').get("id_token_signed_response_alg", "RS256")
+    if _sign_alg == 'none':
+        # ID Tokens may be unsigned, a logout token must be signed.
+        _sign_alg = "RS256"
+
     kwargs = {
         'aud': client.get_client_id(),
         'iss': _context.get('issuer'),
         'keyjar': _context.keyjar,
-        'allowed_sign_alg': _context.get('registration_response').get(
-            "id_token_signed_response_alg", "RS256")
+        'allowed_sign_alg': _sign_alg
     }
 
     logger.debug(f"(backchannel_logout) Verifying request using: {kwargs}")
-- 
2.43.0


From 43c25524984f5dc74834076dbdf7e180e876ed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 045/109] fix: index entries in the state database are not
 sessions

---
 src/oidcrp/state_interface.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index 6d2a7dd..99060b4 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -30,6 +30,22 @@ KEY_PATTERN = {
     'subject id': '=={}=='
 }
 
+REF_PATTERN = "ref{}ref"
+
+
+def is_index_key(key):
+    """
+    Whether a key in the database follows the pattern of something else than a session.
+
+    :param key: Key into the state database
+    :return: True/False
+    """
+    for pattern in [*KEY_PATTERN.values(), REF_PATTERN]:
+        mark = pattern.split('{}')[0]
+        if key.startswith(mark) and key.endswith(mark):
+            return True
+    return False
+
 
 class InMemoryStateDataBase:
     """The simplest possible implementation of the state database."""
@@ -93,7 +109,7 @@ class StateInterface(ImpExp):
         :return: A :py:class:´oidcrp.state_interface.State` instance
         """
         _data = self._db.get(key)
-        if not _data:
+        if not _data or is_index_key(key):
             raise KeyError(key)
 
         return State().from_json(_data)
@@ -244,7 +260,7 @@ class StateInterface(ImpExp):
         """
         self._db[KEY_PATTERN[xtyp].format(value)] = state
         try:
-            _val = self._db.get("ref{}ref".format(state))
+            _val = self._db.get(REF_PATTERN.format(state))
         except KeyError:
             _val = None
 
@@ -256,7 +272,7 @@ class StateInterface(ImpExp):
         _values = refs.setdefault(xtyp, [])
         if value not in _values:
             _values.append(value)
-        self._db["ref{}ref".format(state)] = json.dumps(refs)
+        self._db[REF_PATTERN.format(state)] = json.dumps(refs)
 
     def get_state_by_x(self, value, xtyp):
         """
@@ -370,9 +386,10 @@ class StateInterface(ImpExp):
         if not key:
             key = rndstr(32)
         else:
-            if key.startswith('__') and key.endswith('__'):
+            if is_index_key(key):
                 raise ValueError(
-                    'Invalid format. Leading and trailing "__" not allowed')
+                    'Invalid format. Leading and trailing "__" not allowed, nor are the other marks '
+                    'used for index keys')
 
         _state = State(iss=iss)
         self._db[key] = _state.to_json()
@@ -384,8 +401,10 @@ class StateInterface(ImpExp):
 
         :param state: Key to the state
         """
+        self.get_state(state)  # raises KeyError if there is no such session
+
         del self._db[state]
-        _ref_key = "ref{}ref".format(state)
+        _ref_key = REF_PATTERN.format(state)
         _refs = self._db.get(_ref_key)
         if _refs:
             for xtyp, _values in json.loads(_refs).items():
-- 
2.43.0


From 8c647c010101cc6cbbe876af3a8b6b2db6b3c249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 046/109] fix: a service context with a DPoP key can be
 exported and goes on with the same key

---
 src/oidcrp/oauth2/add_on/dpop.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 3cee536..e473fd9 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -99,9 +99,12 @@ def dpop_header(service_context: ServiceContext,
     """
 
     provider_info = service_context.provider_info
-    dpop_key = service_context.add_on['dpop'].get('key')
+    # The key is kept as a JWK since the service context must be possible to export
+    _jwk = service_context.add_on['dpop'].get('key')
 
-    if not dpop_key:
+    if _jwk:
+        dpop_key = key_from_jwk_dict(_jwk)
+    else:
         algs_supported = provider_info.get("dpop_signing_alg_values_supported")
         if not algs_supported:  # does not support DPoP
             return headers
@@ -117,7 +120,7 @@ def dpop_header(service_context: ServiceContext,
 
         # Mint a new key
         dpop_key = key_by_alg(chosen_alg)
-        service_context.add_on['dpop']['key'] = dpop_key
+        service_context.add_on['dpop']['key'] = dpop_key.serialize(private=True)
         service_context.add_on['dpop']['alg'] = chosen_alg
 
     header_dict = {
-- 
2.43.0


From 90dae0206b438ccab806e390722bc4fcd19c0ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 047/109] fix: a service context with pushed authorization
 requests can be exported

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index d264cc6..fd3dcc8 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -37,7 +37,8 @@ def push_authorization(request_args, service, **kwargs):
         _body = _msg.to_urlencoded()
 
     # Send it to the Pushed Authorization Request Endpoint
-    resp = method_args["http_client"].get(
+    _http_client = method_args["http_client"] or requests
+    resp = _http_client.get(
         _context.provider_info["pushed_authorization_request_endpoint"], data=_body
     )
 
@@ -67,9 +68,6 @@ def add_support(services, body_format="jws", signing_algorithm="RS256",
     :param body_format: jws or urlencoded
     """
 
-    if http_client is None:
-        http_client = requests
-
     _service = services["authorization"]
     _service.client_get("service_context").add_on['pushed_authorization'] = {
         "body_format": body_format,
-- 
2.43.0


From 3cfd63f45a6098d3485812449d9929d89409299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 048/109] fix: a service context with discovered provider info
 or a registration response can be exported as JSON

---
 src/oidcrp/service_context.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 23eaeab..3ee1de1 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -9,7 +9,10 @@ import os
 from cryptojwt.jwk.rsa import RSAKey, import_private_rsa_key_from_file
 from cryptojwt.key_bundle import KeyBundle
 from cryptojwt.utils import as_bytes
+from cryptojwt.utils import importer
+from cryptojwt.utils import qualified_name
 from oidcmsg.context import OidcContext
+from oidcmsg.message import Message
 from oidcmsg.oidc import RegistrationRequest
 from oidcmsg.util import rndstr
 
@@ -65,6 +68,20 @@ DEFAULT_VALUE = {
 }
 
 
+def dump_message(item, exclude_attributes=None):
+    """ Information from the provider is a Message instance, configured information is not. """
+    if isinstance(item, Message):
+        return {"MESSAGE": {"class": qualified_name(item.__class__), "content": item.to_dict()}}
+    return item
+
+
+def load_message(item, **kwargs):
+    if list(item.keys()) == ["MESSAGE"]:
+        _spec = item["MESSAGE"]
+        return importer(_spec["class"])().from_dict(_spec["content"])
+    return item
+
+
 # def add_issuer(conf, issuer):
 #     res = {}
 #     for key, val in conf.items():
@@ -113,6 +130,11 @@ class ServiceContext(OidcContext):
         'verify_args': None
     })
 
+    special_load_dump = {
+        'provider_info': {"dump": dump_message, "load": load_message},
+        'registration_response': {"dump": dump_message, "load": load_message}
+    }
+
     def __init__(self, base_url="", keyjar=None, config=None, state=None, **kwargs):
         if config is None:
             config = {}
-- 
2.43.0


From ca583a3d568dad4aefdd7bc1f7d053111869b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 049/109] fix: a cookie with something else than what
 create_cookie makes is no cookie

---
 src/oidcrp/cookie.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 102b0fe..2ffae82 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -395,7 +395,11 @@ class CookieDealer(object):
             except (TypeError, AssertionError):
                 return None
             else:
-                value, _ts, typ = info.rsplit("::", 2)
+                try:
+                    value, _ts, typ = info.rsplit("::", 2)
+                except ValueError:
+                    # Not something create_cookie has made
+                    return None
                 if timestamp == _ts:
                     return value, _ts, typ
         return None
-- 
2.43.0


From dbb382b332a830974f63c43def26149532f8b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 050/109] fix: a web name on another host or outside the
 directory is not mapped to a file

---
 src/oidcrp/service_context.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 3ee1de1..de03868 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -234,8 +234,15 @@ class ServiceContext(OidcContext):
             raise ValueError("Webname doesn't match base_url")
 
         _name = webname[len(self.base_url):]
-        if _name.startswith('/'):
-            return _name[1:]
+        if _name and not self.base_url.endswith('/'):
+            if not _name.startswith('/'):
+                # Another host, port or path that happens to start the same way
+                raise ValueError("Webname doesn't match base_url")
+            _name = _name[1:]
+
+        # Must be relative to, and stay below, the directory the RP is run from
+        if os.path.isabs(_name) or '..' in _name.split('/'):
+            raise ValueError("Webname doesn't map to a local file")
 
         return _name
 
-- 
2.43.0


From 0e5e89f6672721c0802ed062899618cfbaab9ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 051/109] fix: '?' and '#' in values of a urlencoded response
 do not make it a URL

---
 src/oidcrp/service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 5ffc547..07618ce 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -431,6 +431,9 @@ class Service(ImpExp):
         # If info is a whole URL pick out the query or fragment part
         if '?' in info or '#' in info:
             parts = urlparse(info)
+            if '=' in parts.path and not parts.netloc and not parts.path.startswith('/'):
+                # Not a URL, '?' or '#' is part of a parameter value
+                return info
             # either query of fragment
             if parts.query:
                 info = parts.query
-- 
2.43.0


From 74ab13dd6ca32c726ea2491d545f9a1df88ebaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 052/109] fix: response content types are matched
 case-insensitively

---
 src/oidcrp/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 137ae4c..4bae11a 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -332,6 +332,9 @@ def get_deserialization_method(reqresp):
         except:
             return 'urlencoded'  # reasonable default ??
 
+    # Media types are case-insensitive
+    _ctype = _ctype.lower()
+
     if match_to_("application/json", _ctype) or match_to_(
             'application/jrd+json', _ctype):
         deser_method = 'json'
-- 
2.43.0


From fc8c927b5a68f1cbbb1434c252399aa3615d6ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 053/109] fix: response bodies without a charset are UTF-8, not
 what a detector guesses

---
 src/oidcrp/http.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/http.py b/src/oidcrp/http.py
index c5b9ad6..5686560 100644
--- a/src/oidcrp/http.py
+++ b/src/oidcrp/http.py
@@ -105,6 +105,11 @@ class HTTPLib(object):
         if self.events is not None:
             self.events.store('HTTP response', r, ref=url)
 
+        if getattr(r, 'encoding', '') is None:
+            # No charset was given. The formats used here, JSON, urlencoded and JWTs, are all
+            # UTF-8 then. Guessing, which is the alternative, changes what was sent.
+            r.encoding = 'utf-8'
+
         self.set_cookie(r)
 
         # return the response
-- 
2.43.0


From d615e8fcdec14a1ed2a925261fc12e348dbc62e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 054/109] fix: threads that use a client at the same time share
 one DPoP key

---
 src/oidcrp/oauth2/add_on/dpop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index e473fd9..fda41dd 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -120,8 +120,10 @@ def dpop_header(service_context: ServiceContext,
 
         # Mint a new key
         dpop_key = key_by_alg(chosen_alg)
-        service_context.add_on['dpop']['key'] = dpop_key.serialize(private=True)
         service_context.add_on['dpop']['alg'] = chosen_alg
+        # Another thread may have done the same, then use the key that thread minted.
+        _jwk = service_context.add_on['dpop'].setdefault('key', dpop_key.serialize(private=True))
+        dpop_key = key_from_jwk_dict(_jwk)
 
     header_dict = {
         "typ": "dpop+jwt",
-- 
2.43.0


From a73cae905200ed6728ce3e25d860eeb72d0be459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 055/109] fix: removing a session while another thread adds one
 for the same subject keeps the index intact

---
 src/oidcrp/state_interface.py | 42 ++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index 99060b4..d17e8d6 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -1,5 +1,6 @@
 """A database interface for storing state information."""
 import json
+import threading
 
 from oidcmsg.impexp import ImpExp
 from oidcmsg.message import Message
@@ -32,6 +33,9 @@ KEY_PATTERN = {
 
 REF_PATTERN = "ref{}ref"
 
+# What is bound to a value may be changed by more then one session, that is more then one thread.
+INDEX_LOCK = threading.RLock()
+
 
 def is_index_key(key):
     """
@@ -258,21 +262,22 @@ class StateInterface(ImpExp):
         :param state: The state value
         :param xtyp: The type of value x is (e.g. nonce, ...)
         """
-        self._db[KEY_PATTERN[xtyp].format(value)] = state
-        try:
-            _val = self._db.get(REF_PATTERN.format(state))
-        except KeyError:
-            _val = None
-
-        if _val is None:
-            refs = {}
-        else:
-            refs = json.loads(_val)
-        # There may be more then one value of each type
-        _values = refs.setdefault(xtyp, [])
-        if value not in _values:
-            _values.append(value)
-        self._db[REF_PATTERN.format(state)] = json.dumps(refs)
+        with INDEX_LOCK:
+            self._db[KEY_PATTERN[xtyp].format(value)] = state
+            try:
+                _val = self._db.get(REF_PATTERN.format(state))
+            except KeyError:
+                _val = None
+    
+            if _val is None:
+                refs = {}
+            else:
+                refs = json.loads(_val)
+            # There may be more then one value of each type
+            _values = refs.setdefault(xtyp, [])
+            if value not in _values:
+                _values.append(value)
+            self._db[REF_PATTERN.format(state)] = json.dumps(refs)
 
     def get_state_by_x(self, value, xtyp):
         """
@@ -410,7 +415,8 @@ class StateInterface(ImpExp):
             for xtyp, _values in json.loads(_refs).items():
                 for _val in _values:
                     _key = KEY_PATTERN[xtyp].format(_val)
-                    # The value may by now be bound to another state
-                    if self._db.get(_key) == state:
-                        del self._db[_key]
+                    with INDEX_LOCK:
+                        # The value may by now be bound to another state
+                        if self._db.get(_key) == state:
+                            del self._db[_key]
             del self._db[_ref_key]
-- 
2.43.0


From 266603616b7122b7cc913b26f00405b669f43c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 056/109] fix: do not change the definition of a message class
 when a token is moved out of a request

---
 src/oidcrp/client_auth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index ac96af3..5532248 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -261,7 +261,8 @@ def find_token(request, token_type, service, **kwargs):
         else:
             del request[token_type]
             # Required under certain circumstances :-) not under other
-            request.c_param[token_type] = SINGLE_OPTIONAL_STRING
+            # in this request, the class is shared by all requests
+            request.c_param = {**request.c_param, token_type: SINGLE_OPTIONAL_STRING}
             return _token
 
     try:
-- 
2.43.0


From b810f82da330346373afffb3712f199fb24e31e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 057/109] fix: send pushed authorization requests with the
 transport settings of the client

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index fd3dcc8..f743d28 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -3,7 +3,8 @@ import logging
 from cryptojwt import JWT
 from oidcmsg.message import Message
 from oidcmsg.oauth2 import JWTSecuredAuthorizationRequest
-import requests
+
+from oidcrp.http import HTTPLib
 
 logger = logging.getLogger(__name__)
 
@@ -37,10 +38,14 @@ def push_authorization(request_args, service, **kwargs):
         _body = _msg.to_urlencoded()
 
     # Send it to the Pushed Authorization Request Endpoint
-    _http_client = method_args["http_client"] or requests
-    resp = _http_client.get(
-        _context.provider_info["pushed_authorization_request_endpoint"], data=_body
-    )
+    _url = _context.provider_info["pushed_authorization_request_endpoint"]
+    if method_args["http_client"]:
+        resp = method_args["http_client"].get(_url, data=_body)
+    else:
+        # The same way, and with the same settings, as all other requests
+        _entity = service.client_get("entity")
+        _http = getattr(_entity, "http", None) or HTTPLib(_entity.httpc_params)
+        resp = _http(_url, data=_body)
 
     if resp.status_code in [200, 201]:
         _resp = Message().from_json(resp.text)
-- 
2.43.0


From f828d0dfbbc7cf0a704f541e4303c1e07f292192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:20 +0000
Subject: [PATCH 058/109] fix: tell the content type of the body of a pushed
 authorization request

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index f743d28..3c8dafb 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -5,6 +5,7 @@ from oidcmsg.message import Message
 from oidcmsg.oauth2 import JWTSecuredAuthorizationRequest
 
 from oidcrp.http import HTTPLib
+from oidcrp.util import URL_ENCODED
 
 logger = logging.getLogger(__name__)
 
@@ -39,13 +40,14 @@ def push_authorization(request_args, service, **kwargs):
 
     # Send it to the Pushed Authorization Request Endpoint
     _url = _context.provider_info["pushed_authorization_request_endpoint"]
+    _headers = {"Content-Type": URL_ENCODED}
     if method_args["http_client"]:
-        resp = method_args["http_client"].get(_url, data=_body)
+        resp = method_args["http_client"].get(_url, data=_body, headers=_headers)
     else:
         # The same way, and with the same settings, as all other requests
         _entity = service.client_get("entity")
         _http = getattr(_entity, "http", None) or HTTPLib(_entity.httpc_params)
-        resp = _http(_url, data=_body)
+        resp = _http(_url, data=_body, headers=_headers)
 
     if resp.status_code in [200, 201]:
         _resp = Message().from_json(resp.text)
-- 
2.43.0


From f96154b9c23b53f7a7228530db898838d0ecbc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 059/109] fix: client assertions in requests that are not
 defined to have a client_id

---
 src/oidcrp/client_auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 5532248..ce02863 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -545,7 +545,7 @@ class JWSAuthnMethod(ClientAuthnMethod):
             pass
 
         # If client_id is not required to be present, remove it.
-        if not request.c_param["client_id"][VREQUIRED]:
+        if "client_id" not in request.c_param or not request.c_param["client_id"][VREQUIRED]:
             try:
                 del request["client_id"]
             except KeyError:
-- 
2.43.0


From 1d29761fbfb37dc86dfefd1112d3613cf044415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 060/109] fix: tokens got with client credentials replace those
 from an earlier refresh

---
 .../oauth2/client_credentials/cc_access_token.py    |  7 ++++++-
 src/oidcrp/state_interface.py                       | 13 +++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/client_credentials/cc_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_access_token.py
index b1bf397..669a926 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_access_token.py
@@ -24,4 +24,9 @@ class CCAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get('service_context').state.store_item(resp, 'token_response', key or 'cc')
+
+        key = key or 'cc'
+        _state_interface = self.client_get('service_context').state
+        _state_interface.store_item(resp, 'token_response', key)
+        # These tokens replace those that came from refreshing the previous ones
+        _state_interface.remove_item('refresh_token_response', key)
diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index d17e8d6..a3d7ccd 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -140,6 +140,19 @@ class StateInterface(ImpExp):
 
         self._db[key] = _state.to_json()
 
+    def remove_item(self, item_type, key):
+        """
+        Remove a service response.
+
+        :param item_type: The type of request or response
+        :param key: The key under which the information is stored in
+            the state database
+        """
+        _state = self.get_state(key)
+        if item_type in _state:
+            del _state[item_type]
+            self._db[key] = _state.to_json()
+
     def get_iss(self, key):
         """
         Get the Issuer ID
-- 
2.43.0


From 6a0145c8e43a265979182530d96b82b85ffcb004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 061/109] fix: fetch the keys of others with the configured
 HTTP parameters

---
 src/oidcrp/entity.py     |  2 ++
 src/oidcrp/rp_handler.py |  4 ++--
 src/oidcrp/util.py       | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/entity.py b/src/oidcrp/entity.py
index 69dffd6..68a6872 100644
--- a/src/oidcrp/entity.py
+++ b/src/oidcrp/entity.py
@@ -8,6 +8,7 @@ from oidcrp.client_auth import factory
 from oidcrp.configure import Configuration
 from oidcrp.service import init_services
 from oidcrp.service_context import ServiceContext
+from oidcrp.util import set_keyjar_httpc_params
 
 DEFAULT_SERVICES = {
     "discovery": {
@@ -41,6 +42,7 @@ class Entity():
 
         self._service_context = ServiceContext(keyjar=keyjar, config=config,
                                                jwks_uri=jwks_uri, httpc_params=self.httpc_params)
+        set_keyjar_httpc_params(self._service_context.keyjar, self.httpc_params)
 
         _cam = client_authn_factory or factory
 
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index bf3f52f..c568e4a 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -35,6 +35,7 @@ from .oauth2.utils import pick_redirect_uri
 from .util import add_path
 from .util import load_registration_response
 from .util import rndstr
+from .util import set_keyjar_httpc_params
 
 logger = logging.getLogger(__name__)
 
@@ -99,8 +100,7 @@ class RPHandler(object):
         else:
             self.httpc_params = httpc_params
 
-        if not self.keyjar.httpc_params:
-            self.keyjar.httpc_params = self.httpc_params
+        set_keyjar_httpc_params(self.keyjar, self.httpc_params)
 
     def state2issuer(self, state):
         """
diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 4bae11a..cd9e6c8 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -14,6 +14,7 @@ from typing import Optional
 from urllib.parse import urlsplit
 from urllib.parse import urlunsplit
 
+from cryptojwt.key_jar import KeyJar
 from oidcmsg.exception import UnSupported
 from oidcmsg.oauth2 import is_error_message
 import yaml
@@ -523,6 +524,19 @@ def get_http_params(config):
     return params
 
 
+def set_keyjar_httpc_params(keyjar, httpc_params):
+    """
+    Remote keys should be fetched using the same HTTP parameters as are used for everything else,
+    unless there are specific ones for the key jar.
+
+    :param keyjar: A :py:class:`cryptojwt.key_jar.KeyJar` instance
+    :param httpc_params: Arguments for the HTTP client
+    """
+    # A key jar that no one has configured may still have some parameters set by default
+    if not keyjar.httpc_params or keyjar.httpc_params == KeyJar().httpc_params:
+        keyjar.httpc_params = dict(httpc_params)
+
+
 def add_path(url, path):
     if url.endswith('/'):
         if path.startswith('/'):
-- 
2.43.0


From 5428c00a4560b4303aa9a30cd1b8230fda119b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 062/109] fix: domain and port are put into every URI of a
 configuration, as given or else as configured

---
 src/oidcrp/configure.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index 800d24f..eb0936b 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -19,17 +19,20 @@ except ImportError:
     from cryptojwt import rndstr as rnd_token
 
 URIS = [
-    "redirect_uris", 'post_logout_redirect_uris', 'frontchannel_logout_uri',
+    "redirect_uris", 'post_logout_redirect_uris', 'post_logout_redirect_uri',
+    'frontchannel_logout_uri',
     'backchannel_logout_uri', 'issuer', 'base_url']
 
 
 class RPConfiguration(Base):
+    uris = URIS
+
     def __init__(self,
                  conf: Dict,
                  base_path: Optional[str] = '',
                  entity_conf: Optional[List[dict]] = None,
-                 domain: Optional[str] = "127.0.0.1",
-                 port: Optional[int] = 80,
+                 domain: Optional[str] = "",
+                 port: Optional[int] = 0,
                  file_attributes: Optional[List[str]] = None,
                  dir_attributes: Optional[List[str]] = None,
                  ):
@@ -55,11 +58,12 @@ class RPConfiguration(Base):
 
         if entity_conf:
             self.extend(entity_conf=entity_conf, conf=conf, base_path=base_path,
-                        file_attributes=file_attributes, domain=domain, port=port)
+                        file_attributes=file_attributes, domain=self.domain, port=self.port)
 
 
 class Configuration(Base):
     """RP Configuration"""
+    uris = URIS
 
     def __init__(self,
                  conf: Dict,
@@ -71,7 +75,7 @@ class Configuration(Base):
                  dir_attributes: Optional[List[str]] = None,
                  ):
         Base.__init__(self, conf, base_path=base_path, file_attributes=file_attributes,
-                      dir_attributes=dir_attributes)
+                      dir_attributes=dir_attributes, domain=domain, port=port)
 
         log_conf = conf.get('logging')
         if log_conf:
@@ -83,7 +87,7 @@ class Configuration(Base):
 
         if entity_conf:
             self.extend(entity_conf=entity_conf, conf=conf, base_path=base_path,
-                        file_attributes=file_attributes, domain=domain, port=port,
+                        file_attributes=file_attributes, domain=self.domain, port=self.port,
                         dir_attributes=dir_attributes)
 
 
-- 
2.43.0


From be51011cfd678d0a47f7f028d79287fbdb19bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:56 +0000
Subject: [PATCH 063/109] fix: a relative base path is applied only once to the
 file names of a configuration

---
 src/oidcrp/configure.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index eb0936b..07104e0 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -37,6 +37,10 @@ class RPConfiguration(Base):
                  dir_attributes: Optional[List[str]] = None,
                  ):
 
+        if base_path and entity_conf:
+            # the entities will do this once more, so it has to be absolute
+            base_path = os.path.abspath(base_path)
+
         Base.__init__(self, conf,
                       base_path=base_path,
                       domain=domain,
@@ -74,6 +78,10 @@ class Configuration(Base):
                  port: Optional[int] = 0,
                  dir_attributes: Optional[List[str]] = None,
                  ):
+        if base_path and entity_conf:
+            # the entities will do this once more, so it has to be absolute
+            base_path = os.path.abspath(base_path)
+
         Base.__init__(self, conf, base_path=base_path, file_attributes=file_attributes,
                       dir_attributes=dir_attributes, domain=domain, port=port)
 
-- 
2.43.0


From 923fc21fee5ec8aa9519b6464f06cf4d83521fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 064/109] fix: a configuration parameter in upper case is found
 also when there is a default

---
 src/oidcrp/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index cd9e6c8..78e1446 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -409,9 +409,11 @@ def has_method(o, name):
 
 
 def lower_or_upper(config, param, default=None):
-    res = config.get(param.lower(), default)
+    res = config.get(param.lower())
     if not res:
-        res = config.get(param.upper(), default)
+        res = config.get(param.upper())
+    if not res and default is not None:
+        res = default
     return res
 
 
-- 
2.43.0


From 6c9f51b6bcaa143ae55922c1ae716fd1068a3592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 065/109] fix: replace keeps an upper case parameter that has
 nothing to replace

---
 src/oidcrp/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 78e1446..60f93e8 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -444,6 +444,8 @@ def replace(config, param, **kwargs):
             else:
                 if "{{{}}}".format(_key) in res:
                     config[lc_param] = res.format(**kwargs)
+                else:
+                    config[lc_param] = res
         else:
             config[lc_param] = res
 
-- 
2.43.0


From f53d4f44c5d4e937efa767aff416c9a26f0b9686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 066/109] fix: a logging configuration file can be loaded

---
 src/oidcrp/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/logging.py b/src/oidcrp/logging.py
index baf1db9..3f2071b 100755
--- a/src/oidcrp/logging.py
+++ b/src/oidcrp/logging.py
@@ -40,7 +40,7 @@ def configure_logging(debug: Optional[bool] = False,
         config_source = 'dictionary'
     elif filename is not None and os.path.exists(filename):
         with open(filename, "rt") as file:
-            config_dict = yaml.load(file)
+            config_dict = yaml.safe_load(file)
         config_source = 'file'
     else:
         config_dict = LOGGING_DEFAULT
-- 
2.43.0


From ede7e91e396c7ef22555c8426af52ed59ea88c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:42 +0000
Subject: [PATCH 067/109] fix: debug logging does not change the logging
 configuration it was given

---
 src/oidcrp/logging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/logging.py b/src/oidcrp/logging.py
index 3f2071b..e65f8e2 100755
--- a/src/oidcrp/logging.py
+++ b/src/oidcrp/logging.py
@@ -1,5 +1,6 @@
 """Common logging functions"""
 
+import copy
 import os
 import logging
 from logging.config import dictConfig
@@ -47,6 +48,7 @@ def configure_logging(debug: Optional[bool] = False,
         config_source = 'default'
 
     if debug:
+        config_dict = copy.deepcopy(config_dict)
         config_dict['root']['level'] = 'DEBUG'
 
     dictConfig(config_dict)
-- 
2.43.0


From 1d028fca8ae2823e30e6f54b2bd5d3c2c2c60654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 068/109] fix: yaml_to_py_stream writes Python

---
 src/oidcrp/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 60f93e8..56da675 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -6,6 +6,7 @@ import io
 import json
 import logging
 import os
+from pprint import pformat
 import random
 import ssl
 import string
@@ -397,7 +398,7 @@ def yaml_to_py_stream(file_name):
     d = load_yaml_config(file_name)
     fstream = io.StringIO()
     for i in d:
-        section = '{} = {}\n\n'.format(i, json.dumps(d[i], indent=2))
+        section = '{} = {}\n\n'.format(i, pformat(d[i]))
         fstream.write(section)
     fstream.seek(0)
     return fstream
-- 
2.43.0


From f97ed785b118376301da771f5b8281a43027775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 069/109] fix: get_response_type used an attribute that clients
 do not have

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index c568e4a..1371f4e 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -477,7 +477,7 @@ class RPHandler(object):
         :param client: A Client instance
         :return: The response_type
         """
-        return client.service_context.get('behaviour')['response_types'][0]
+        return client.client_get("service_context").get('behaviour')['response_types'][0]
 
     @staticmethod
     def get_client_authn_method(client, endpoint):
-- 
2.43.0


From 576645f460624b39173848a510e74c1f615945c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 070/109] fix: an ID Token from the authorization response got
 lost when the token response had none

---
 src/oidcrp/rp_handler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 1371f4e..abe5837 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -733,7 +733,7 @@ class RPHandler(object):
                     # Now which access_token should I use
                     access_token = token_resp["access_token"]
                     # May or may not get an ID Token
-                    id_token = token_resp.get('__verified_id_token')
+                    id_token = token_resp.get('__verified_id_token', id_token)
 
         elif _resp_type in [{'code'}, {'code', 'id_token'}]:
             # get the access token
@@ -742,8 +742,10 @@ class RPHandler(object):
                 return False, "Invalid response %s." % token_resp["error"]
 
             access_token = token_resp["access_token"]
-            # May or may not get an ID Token
-            id_token = token_resp.get('__verified_id_token')
+            # May or may not get an ID Token, if not there may still be one in the
+            # authorization response
+            id_token = token_resp.get('__verified_id_token',
+                                      authorization_response.get('__verified_id_token'))
 
         return {'access_token': access_token, 'id_token': id_token}
 
-- 
2.43.0


From 712400f83f7d295b38558c8f6e323678388f01b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:52 +0000
Subject: [PATCH 071/109] fix: an ID Token from a refresh that has a nonce must
 have the original one

---
 src/oidcrp/oidc/refresh_access_token.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index 75c4497..8ab4601 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -57,6 +57,10 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
                 {}, key, ['id_token'], ['auth_response', 'token_response'])
             if 'id_token' in _args and _args['id_token']['sub'] != _idt['sub']:
                 raise ValueError('Incorrect "sub" value')
+            # There may be no nonce, but if there is one it MUST be the original one
+            if 'id_token' in _args and 'nonce' in _idt and \
+                    _args['id_token'].get('nonce') != _idt['nonce']:
+                raise ValueError('Invalid nonce value')
         else:
             # No new ID Token, so the one from the previous refresh remains the latest
             _state_interface.extend_request_args(
-- 
2.43.0


From 0334f931c1d5aa4e92877a2e13c8d2fe19b8da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:16 +0000
Subject: [PATCH 072/109] fix: a faulty cookie is no reason for dropping the
 response it came with

---
 src/oidcrp/http.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/http.py b/src/oidcrp/http.py
index 5686560..74e5923 100644
--- a/src/oidcrp/http.py
+++ b/src/oidcrp/http.py
@@ -110,7 +110,11 @@ class HTTPLib(object):
             # UTF-8 then. Guessing, which is the alternative, changes what was sent.
             r.encoding = 'utf-8'
 
-        self.set_cookie(r)
+        try:
+            self.set_cookie(r)
+        except (NonFatalException, ValueError) as err:
+            # Whatever the cookie was, it's not a reason for dropping the response
+            logger.warning('Ignored faulty cookie from {}: {}'.format(url, err))
 
         # return the response
         return r
-- 
2.43.0


From 42467ad40d7427c0a675db0dcb5aa923bb783206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:30 +0000
Subject: [PATCH 073/109] fix: htu of a DPoP proof is the URL without query and
 fragment

---
 src/oidcrp/oauth2/add_on/dpop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index fda41dd..dc1d53a 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -131,7 +131,8 @@ def dpop_header(service_context: ServiceContext,
         "jwk": dpop_key.serialize(),
         "jti": uuid.uuid4().hex,
         "htm": http_method,
-        "htu": provider_info[service_endpoint],
+        # without query and fragment
+        "htu": provider_info[service_endpoint].split('#')[0].split('?')[0],
         "iat": utc_time_sans_frac()
     }
 
-- 
2.43.0


From 98de574738dd1e70c309c10784db89e3f9d83c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 074/109] fix: the ID Token as received in check session and
 check ID requests

---
 src/oidcrp/oidc/check_id.py      | 3 ++-
 src/oidcrp/oidc/check_session.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/check_id.py b/src/oidcrp/oidc/check_id.py
index 8ef8dd8..513630a 100644
--- a/src/oidcrp/oidc/check_id.py
+++ b/src/oidcrp/oidc/check_id.py
@@ -27,5 +27,6 @@ class CheckID(Service):
     def oidc_pre_construct(self, request_args=None, **kwargs):
         request_args = self.client_get("service_context").state.multiple_extend_request_args(
             request_args, kwargs['state'], ['id_token'],
-            ['auth_response', 'token_response', 'refresh_token_response'])
+            ['auth_response', 'token_response', 'refresh_token_response'],
+            orig=True)  # the ID Token as it was received
         return request_args, {}
diff --git a/src/oidcrp/oidc/check_session.py b/src/oidcrp/oidc/check_session.py
index bf7661a..7a9294f 100644
--- a/src/oidcrp/oidc/check_session.py
+++ b/src/oidcrp/oidc/check_session.py
@@ -27,5 +27,6 @@ class CheckSession(Service):
     def oidc_pre_construct(self, request_args=None, **kwargs):
         request_args = self.client_get("service_context").state.multiple_extend_request_args(
             request_args, kwargs['state'], ['id_token'],
-            ['auth_response', 'token_response', 'refresh_token_response'])
+            ['auth_response', 'token_response', 'refresh_token_response'],
+            orig=True)  # the ID Token as it was received
         return request_args, {}
-- 
2.43.0


From bf8eb761c0ee0627ce190737f20e39155eb18f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 075/109] fix: WebFinger asks for the relation it looks for in
 the answer

---
 src/oidcrp/oidc/webfinger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/webfinger.py b/src/oidcrp/oidc/webfinger.py
index 1fcdf41..0e41c01 100644
--- a/src/oidcrp/oidc/webfinger.py
+++ b/src/oidcrp/oidc/webfinger.py
@@ -150,7 +150,7 @@ class WebFinger(Service):
 
         location = WF_URL.format(authority)
         return oidc.WebFingerRequest(
-            resource=resource, rel=OIC_ISSUER).request(location)
+            resource=resource, rel=self.rel).request(location)
 
     def get_request_parameters(self, request_args=None, **kwargs):
 
-- 
2.43.0


From 83c3269221e717da5ebd95f949d810f2b976c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:16 +0000
Subject: [PATCH 076/109] fix: the hash seed given to the handler is used for
 the callback URIs

---
 src/oidcrp/rp_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index abe5837..0dbe13b 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -186,6 +186,8 @@ class RPHandler(object):
 
         _context.base_url = self.base_url
         _context.jwks_uri = self.jwks_uri
+        if not _cnf.get('hash_seed'):
+            _context.hash_seed = self.hash_seed
         if not self.jwks_uri:  # the keys are not published, so they are registered by value
             _context.jwks = self.jwks
         return client
-- 
2.43.0


From 36701470548a89f34bb2eb57846403e7d5ea60c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 077/109] fix: the registration access token is part of what is
 exported

---
 src/oidcrp/service_context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index de03868..b5195ef 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -125,6 +125,7 @@ class ServiceContext(OidcContext):
         'redirect_uris': None,
         "requests_dir": None,
         "register_args": None,
+        "registration_access_token": None,
         'registration_response': None,
         'state': StateInterface,
         'verify_args': None
@@ -162,6 +163,7 @@ class ServiceContext(OidcContext):
         self.post_logout_redirect_uris = []
         self.redirect_uris = []
         self.register_args = {}
+        self.registration_access_token = ''
         self.registration_response = {}
         self.requests_dir = ''
 
-- 
2.43.0


From f6bba770e8140d47428ce2e2b9fc9d061ac8d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 078/109] fix: an issuer found by WebFinger gets the client
 configured for it

---
 src/oidcrp/rp_handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 0dbe13b..4acd0dc 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -336,6 +336,11 @@ class RPHandler(object):
 
             logger.debug("Connecting to previously unknown OP")
             temporary_client = self.do_webfinger(user)
+            _iss = temporary_client.client_get("service_context").get('issuer')
+            if _iss in self.client_configs:
+                # There is a configuration for this very issuer
+                iss_id = _iss
+                temporary_client = None
         else:
             temporary_client = None
 
-- 
2.43.0


From ac800bbbc4f2345232f4c1e406ef7d03112c6c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 079/109] fix: services found by name are those of the package

---
 src/oidcrp/service_factory.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/oidcrp/service_factory.py b/src/oidcrp/service_factory.py
index 796823f..baf3ed9 100644
--- a/src/oidcrp/service_factory.py
+++ b/src/oidcrp/service_factory.py
@@ -1,29 +1,23 @@
 from glob import glob
+from importlib import import_module
 import inspect
 from os.path import basename
 from os.path import dirname
 from os.path import join
-import sys
 
 from oidcrp.service import Service
 
 
 def service_factory(req_name, module_dirs, **kwargs):
     pwd = dirname(__file__)
-    if pwd not in sys.path:
-        sys.path.insert(0, pwd)
 
     for dir in module_dirs:
         for x in glob(join(pwd, dir, '*.py')):
             _mod = basename(x)[:-3]
             if not _mod.startswith('__'):
-                if '/' in dir:
-                    dir = dir.replace('/', '.')
-                _dir_mod = '{}.{}'.format(dir, basename(x)[:-3])
-                if _dir_mod not in sys.modules:
-                    __import__(_dir_mod, globals(), locals())
+                _module = import_module('{}.{}.{}'.format(__package__, dir.replace('/', '.'), _mod))
 
-                for name, obj in inspect.getmembers(sys.modules[_dir_mod]):
+                for name, obj in inspect.getmembers(_module):
                     if inspect.isclass(obj) and issubclass(obj, Service):
                         try:
                             if obj.__name__ == req_name:
-- 
2.43.0


From 868bb08aaed960fcefd8668d6ca1c4ed2d99f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 080/109] fix: what pre construct methods hand over reaches the
 post construct methods

---
 src/oidcrp/service.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 07618ce..f16a554 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -164,8 +164,9 @@ class Service(ImpExp):
         for meth in self.pre_construct:
             request_args, _post_args = meth(request_args, service=self, post_args=post_args,
                                             **_args)
-            # Not necessarily independent
-            # post_args.update(_post_args)
+            # What is returned is not necessarily independent of what was given
+            if _post_args and _post_args is not post_args:
+                post_args.update(_post_args)
 
         return request_args, post_args
 
-- 
2.43.0


From 29eada1fc46236631623ed41af2f560e2e9910e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:45 +0000
Subject: [PATCH 081/109] fix: a DPoP proof signed with a symmetric algorithm
 does not verify

---
 src/oidcrp/oauth2/add_on/dpop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index dc1d53a..8a64b1c 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -54,6 +54,8 @@ class DPoPProof(Message):
             raise ValueError("Wrong type")
         if self["alg"] == "none":
             raise ValueError("'none' is not allowed as signing algorithm")
+        if self["alg"].startswith("HS"):
+            raise ValueError("Only asymmetric signing algorithms are allowed")
 
     def create_header(self) -> str:
         payload = {k: self[k] for k in self.body_params}
-- 
2.43.0


From 8b6f325091dfa4369685d752193cd87bb118390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:01 +0000
Subject: [PATCH 082/109] fix: an issuer mismatch is allowed only when
 issuer_mismatch is true

---
 src/oidcrp/oauth2/provider_info_discovery.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/oidcrp/oauth2/provider_info_discovery.py b/src/oidcrp/oauth2/provider_info_discovery.py
index 4aa4033..1760f70 100644
--- a/src/oidcrp/oauth2/provider_info_discovery.py
+++ b/src/oidcrp/oauth2/provider_info_discovery.py
@@ -66,9 +66,7 @@ class ProviderInfoDiscovery(Service):
 
         # In some cases we can live with the two URLs not being
         # the same. But this is an excepted that has to be explicit
-        try:
-            self.client_get("service_context").allow['issuer_mismatch']
-        except KeyError:
+        if not self.client_get("service_context").allow.get('issuer_mismatch'):
             if _issuer != _pcr_issuer:
                 raise OidcServiceError(
                     "provider info issuer mismatch '%s' != '%s'" % (
-- 
2.43.0


From cbd415449f59fffa4375f5ffdf74cd4f356b1f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 083/109] fix: the client configuration can tell where to find
 the keys of the OP

---
 src/oidcrp/service_context.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index b5195ef..cf26663 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -8,6 +8,7 @@ import os
 
 from cryptojwt.jwk.rsa import RSAKey, import_private_rsa_key_from_file
 from cryptojwt.key_bundle import KeyBundle
+from cryptojwt.key_jar import KeyJar
 from cryptojwt.utils import as_bytes
 from cryptojwt.utils import importer
 from cryptojwt.utils import qualified_name
@@ -141,6 +142,12 @@ class ServiceContext(OidcContext):
             config = {}
         self.config = config
 
+        # The name of the attribute used to be keys. Is not key_conf
+        _key_conf = config.get('keys', config.get('key_conf'))
+        if keyjar is None and _key_conf and not {'file', 'url'}.isdisjoint(_key_conf):
+            # Tells where the keys are, not how to create them
+            keyjar = KeyJar()
+
         OidcContext.__init__(self, config, keyjar, entity_id=config.get('client_id', ''))
         self.state = state or StateInterface()
 
@@ -211,8 +218,6 @@ class ServiceContext(OidcContext):
             if not os.path.isdir(self.requests_dir):
                 os.makedirs(self.requests_dir)
 
-        # The name of the attribute used to be keys. Is not key_conf
-        _key_conf = config.get('keys', config.get('key_conf'))
         if _key_conf:
             self.import_keys(_key_conf)
 
-- 
2.43.0


From 42bc5efd1e2c9af90aa93618b398a7c68991d678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:31 +0000
Subject: [PATCH 084/109] fix: keys are fetched from a configured URL using the
 configured HTTP parameters

---
 src/oidcrp/service_context.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index cf26663..b98581b 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -18,6 +18,7 @@ from oidcmsg.oidc import RegistrationRequest
 from oidcmsg.util import rndstr
 
 from oidcrp.state_interface import StateInterface
+from oidcrp.util import set_keyjar_httpc_params
 
 CLI_REG_MAP = {
     "userinfo": {
@@ -219,6 +220,8 @@ class ServiceContext(OidcContext):
                 os.makedirs(self.requests_dir)
 
         if _key_conf:
+            if kwargs.get('httpc_params'):
+                set_keyjar_httpc_params(self.keyjar, kwargs['httpc_params'])
             self.import_keys(_key_conf)
 
     def __setitem__(self, key, value):
@@ -298,7 +301,8 @@ class ServiceContext(OidcContext):
                             self.keyjar.add_kb('', _bundle)
             elif where == 'url':
                 for iss, url in spec.items():
-                    _bundle = KeyBundle(source=url)
+                    _bundle = KeyBundle(source=url, httpc=self.keyjar.httpc,
+                                        httpc_params=self.keyjar.httpc_params)
                     self.keyjar.add_kb(iss, _bundle)
 
     def get_sign_alg(self, typ):
-- 
2.43.0


From 17580b0da6273de878ee660505e7859481b503ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 085/109] fix: the body type of a response does not depend on
 how its content type is spelled

---
 src/oidcrp/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 56da675..8d70f10 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -275,6 +275,9 @@ def verify_header(reqresp, body_type):
 
     logger.debug('Expected body type: "{}"'.format(body_type))
 
+    # Media types are case-insensitive
+    _ctype = _ctype.lower()
+
     if body_type == "":
         if match_to_("application/json", _ctype) or match_to_(
                 'application/jrd+json', _ctype):
-- 
2.43.0


From 68172b12ee1105ca9a9edba072220c2ebf2fdc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 086/109] fix: a client that has no authentication method
 configured authenticates with its secret also when refreshing

---
 src/oidcrp/oauth2/refresh_access_token.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index cc72c3f..8db6f4d 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -19,7 +19,7 @@ class RefreshAccessToken(Service):
     endpoint_name = 'token_endpoint'
     synchronous = True
     service_name = 'refresh_token'
-    default_authn_method = 'bearer_header'
+    default_authn_method = 'client_secret_basic'
     http_method = 'POST'
 
     def __init__(self, client_get, client_authn_factory=None, conf=None):
-- 
2.43.0


From 35d03e1cd5f326f2ad07de20fa55dc6eaf16a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 087/109] fix: signing and encryption algorithms a statically
 registered client is configured with are required of ID Tokens, user info and
 logout tokens

---
 src/oidcrp/oidc/access_token.py         | 2 +-
 src/oidcrp/oidc/authorization.py        | 2 +-
 src/oidcrp/oidc/refresh_access_token.py | 2 +-
 src/oidcrp/oidc/userinfo.py             | 2 +-
 src/oidcrp/rp_handler.py                | 3 ++-
 5 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/oidc/access_token.py b/src/oidcrp/oidc/access_token.py
index 7d83eff..4d939ed 100644
--- a/src/oidcrp/oidc/access_token.py
+++ b/src/oidcrp/oidc/access_token.py
@@ -47,7 +47,7 @@ class AccessToken(access_token.AccessToken):
             'skew': _context.clock_skew,
         }
 
-        _reg_resp = _context.registration_response
+        _reg_resp = _context.registration_response or _context.config.get('behaviour')
         if _reg_resp:
             for attr, param in IDT2REG.items():
                 try:
diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index d0c012b..a4a05d3 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -268,7 +268,7 @@ class Authorization(authorization.Authorization):
         if _client_id:
             kwargs['client_id'] = _client_id
 
-        _reg_res = _context.registration_response
+        _reg_res = _context.registration_response or _context.config.get('behaviour')
         if _reg_res:
             for attr, param in IDT2REG.items():
                 try:
diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index 8ab4601..4203bfc 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -28,7 +28,7 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
             self, response=response, behaviour_args=behaviour_args)
         kwargs['skew'] = _context.clock_skew
 
-        _reg_resp = _context.registration_response
+        _reg_resp = _context.registration_response or _context.config.get('behaviour')
         if _reg_resp:
             for attr, param in IDT2REG.items():
                 try:
diff --git a/src/oidcrp/oidc/userinfo.py b/src/oidcrp/oidc/userinfo.py
index a7a076e..638d2b2 100644
--- a/src/oidcrp/oidc/userinfo.py
+++ b/src/oidcrp/oidc/userinfo.py
@@ -136,7 +136,7 @@ class UserInfo(Service):
             'skew': _context.clock_skew
         }
 
-        _reg_resp = _context.registration_response
+        _reg_resp = _context.registration_response or _context.config.get('behaviour')
         if _reg_resp:
             for attr, param in UI2REG.items():
                 try:
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 4acd0dc..da5a794 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -976,7 +976,8 @@ def backchannel_logout(client, request='', request_args=None):
         raise MissingRequiredAttribute('logout_token')
 
     _context = client.client_get("service_context")
-    _sign_alg = _context.get('registration_response').get("id_token_signed_response_alg", "RS256")
+    _reg_resp = _context.get('registration_response') or _context.config.get('behaviour') or {}
+    _sign_alg = _reg_resp.get("id_token_signed_response_alg", "RS256")
     if _sign_alg == 'none':
         # ID Tokens may be unsigned, a logout token must be signed.
         _sign_alg = "RS256"
-- 
2.43.0


From 4b1a6502bacd44c047ca57299124683ca9f046a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:27 +0000
Subject: [PATCH 088/109] fix: what is added to a request is not added to what
 the caller passed as arguments

---
 src/oidcrp/rp_handler.py | 4 +++-
 src/oidcrp/service.py    | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index da5a794..3eb79ef 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -289,7 +289,9 @@ class RPHandler(object):
 
             if behaviour_args:
                 _params = RegistrationRequest().parameters()
-                request_args.update({k: v for k, v in behaviour_args.items() if k in _params})
+                # What the caller has should not be modified
+                request_args = dict(request_args,
+                                    **{k: v for k, v in behaviour_args.items() if k in _params})
 
             load_registration_response(client, request_args=request_args)
 
diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index f16a554..712370b 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -207,6 +207,9 @@ class Service(ImpExp):
         """
         if request_args is None:
             request_args = {}
+        else:
+            # Will be modified, what the caller has should not be
+            request_args = request_args.copy()
 
         # run the pre_construct methods. Will return a possibly new
         # set of request arguments but also a set of arguments to
-- 
2.43.0


From 1399083e6029b34bada90bb3bd4826f43fb2e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:34 +0000
Subject: [PATCH 089/109] fix: keys given with a registration request are not
 dropped for a configured jwks_uri

---
 src/oidcrp/oidc/registration.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 56ff4aa..d70bfc2 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -252,6 +252,14 @@ class Registration(Service):
                     pass
         return request_args, {}
 
+    def gather_request_args(self, **kwargs):
+        ar_args = Service.gather_request_args(self, **kwargs)
+        # Only one of jwks_uri and jwks is allowed. A keyword argument takes precedence over
+        # what is configured.
+        if 'jwks' in kwargs and 'jwks_uri' not in kwargs:
+            ar_args.pop('jwks_uri', None)
+        return ar_args
+
     def oidc_post_construct(self, request_args=None, **kwargs):
         try:
             request_args['grant_types'] = response_types_to_grant_types(
-- 
2.43.0


From 0ad81c3e16db9ba84289fe669af1fa3c90d09cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:51 +0000
Subject: [PATCH 090/109] fix: a client without configured scope or response
 types can start a session

begin raised KeyError although the scope, or the response type, has a default (or was given by
the caller).
---
 src/oidcrp/rp_handler.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 3eb79ef..c53cae3 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -375,10 +375,15 @@ class RPHandler(object):
         return self.issuer2rp.setdefault(issuer, client)
 
     def _get_response_type(self, context, req_args: Optional[dict] = None):
-        if req_args:
-            return req_args.get("response_type", context.get('behaviour')['response_types'][0])
-        else:
-            return context.get('behaviour')['response_types'][0]
+        if req_args and "response_type" in req_args:
+            return req_args["response_type"]
+
+        return self._configured_response_type(context)
+
+    @staticmethod
+    def _configured_response_type(context):
+        # 'code' is the default if nothing is said about response types
+        return (context.get('behaviour').get('response_types') or ['code'])[0]
 
     def init_authorization(self,
                            client: Optional[Client] = None,
@@ -413,11 +418,14 @@ class RPHandler(object):
             'redirect_uri': pick_redirect_uri(_context,
                                               request_args=req_args,
                                               response_type=_response_type),
-            'scope': _context.get('behaviour')['scope'],
             'response_type': _response_type,
             'nonce': _nonce
         }
 
+        _scope = _context.get('behaviour').get('scope')
+        if _scope:
+            request_args['scope'] = _scope
+
         _req_args = _context.config.get("request_args")
         if _req_args:
             request_args.update(_req_args)
@@ -486,7 +494,7 @@ class RPHandler(object):
         :param client: A Client instance
         :return: The response_type
         """
-        return client.client_get("service_context").get('behaviour')['response_types'][0]
+        return RPHandler._configured_response_type(client.client_get("service_context"))
 
     @staticmethod
     def get_client_authn_method(client, endpoint):
-- 
2.43.0


From 0f893fdc7ddc69847e7f42540faf847e49f79088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:14 +0000
Subject: [PATCH 091/109] fix: the redirect_uri fits the configured request
 arguments

Configured request_args are part of the request, but the redirect_uri was chosen as if they
were not: a configured response_type or response_mode led to the wrong callback.
---
 src/oidcrp/rp_handler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index c53cae3..2b0a3b1 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -413,10 +413,12 @@ class RPHandler(object):
         _context = client.client_get("service_context")
 
         _nonce = rndstr(24)
-        _response_type = self._get_response_type(_context, req_args)
+        # What is asked for, by the configuration or the caller
+        _asked = {**(_context.config.get("request_args") or {}), **(req_args or {})}
+        _response_type = self._get_response_type(_context, _asked)
         request_args = {
             'redirect_uri': pick_redirect_uri(_context,
-                                              request_args=req_args,
+                                              request_args=_asked,
                                               response_type=_response_type),
             'response_type': _response_type,
             'nonce': _nonce
-- 
2.43.0


From 1b9450835da75a32e43c6722f52598f167c43440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 092/109] fix: a provider without userinfo endpoint is not
 asked for user info

finalize raised KeyError, and the login was lost, when the provider has no userinfo endpoint,
which it does not need to have.
---
 src/oidcrp/rp_handler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 2b0a3b1..e364eb1 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -805,7 +805,11 @@ class RPHandler(object):
         _id_token = token.get("id_token")
         logger.debug(f"ID Token: {_id_token}")
 
-        if client.client_get("service", "userinfo") and token['access_token']:
+        # There may be no userinfo endpoint
+        _userinfo = client.client_get("service", "userinfo")
+        if token['access_token'] and _userinfo and (
+                _userinfo.endpoint
+                or _userinfo.endpoint_name in client.client_get("service_context").provider_info):
             inforesp = self.get_user_info(
                 state=authorization_response['state'], client=client,
                 access_token=token['access_token'])
-- 
2.43.0


From 38b591896392c3a8ed65c10763f09bcbd5adc8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:04 +0000
Subject: [PATCH 093/109] fix: PKCE parameters have the defaults that are
 documented

Both code_challenge_length and code_challenge_method are documented to have default values,
but a client configured without one of them could not be created.
---
 src/oidcrp/oauth2/add_on/pkce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/pkce.py b/src/oidcrp/oauth2/add_on/pkce.py
index 0b4632d..eb01576 100644
--- a/src/oidcrp/oauth2/add_on/pkce.py
+++ b/src/oidcrp/oauth2/add_on/pkce.py
@@ -84,7 +84,7 @@ def put_state_in_post_args(request_args, **kwargs):
     return request_args, {'state': state}
 
 
-def add_support(service, code_challenge_length, code_challenge_method):
+def add_support(service, code_challenge_length=64, code_challenge_method='S256'):
     """
     PKCE support can only be considered if this client can access authorization and
     access token services.
-- 
2.43.0


From ef3f2208d2e54778a2fb76a1541335ea3ed5c0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:23 +0000
Subject: [PATCH 094/109] fix: the redirect_uri fits the configured response
 mode

A response_mode in the behaviour is part of the request, but was not considered when the
callback for the redirect_uri was picked.
---
 src/oidcrp/oauth2/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/oauth2/utils.py b/src/oidcrp/oauth2/utils.py
index d1c4038..f89b335 100644
--- a/src/oidcrp/oauth2/utils.py
+++ b/src/oidcrp/oauth2/utils.py
@@ -43,6 +43,9 @@ def pick_redirect_uri(context,
                 response_type = _conf_resp_types[0]
 
         _response_mode = request_args.get('response_mode')
+        if not _response_mode and 'form_post' in context.callback:
+            # what is configured is sent
+            _response_mode = context.behaviour.get('response_mode')
 
         if _response_mode == 'form_post' or response_type == ["form_post"]:
             redirect_uri = context.callback['form_post']
-- 
2.43.0


From 315bae5a38525fb25636b77c92f9d774cba3a03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:12 +0000
Subject: [PATCH 095/109] fix: logout URIs are registered only when the
 provider supports the logout

A provider that states false for frontchannel_logout_supported or
backchannel_logout_supported was taken to support it.
---
 src/oidcrp/oidc/registration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index d70bfc2..3a984a3 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -141,12 +141,12 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
             _uris['request_uris'] = True
 
     if "frontchannel_logout_uri" not in ignore:
-        if 'frontchannel_logout_supported' in _pi and _in_config_or_client_preferences(
+        if _pi.get('frontchannel_logout_supported') and _in_config_or_client_preferences(
                 context.config, "frontchannel_logout_usable", True):
             _uris["frontchannel_logout_uri"] = True
 
     if "backchannel_logout_uri" not in ignore:
-        if 'backchannel_logout_supported' in _pi and _in_config_or_client_preferences(
+        if _pi.get('backchannel_logout_supported') and _in_config_or_client_preferences(
                 context.config, "backchannel_logout_usable", True):
             _uris["backchannel_logout_uri"] = True
 
-- 
2.43.0


From 5beeba8dd8c4b76237e4fc47774a9dcc47f66d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:11 +0000
Subject: [PATCH 096/109] fix: openid is looked for as a word in the scope

With the scope given as a string, 'openid2 email' or 'urn:x:openid' was taken
to contain openid.
---
 src/oidcrp/oidc/authorization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index a4a05d3..d85c2ba 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -95,10 +95,11 @@ class Authorization(authorization.Authorization):
         # For OIDC 'openid' is required in scope
         if 'scope' not in request_args:
             request_args['scope'] = _context.behaviour.get("scope", ["openid"])
-        elif 'openid' not in request_args['scope']:
+        else:
             if isinstance(request_args['scope'], str):
                 request_args['scope'] = request_args['scope'].split(' ')
-            request_args['scope'] = request_args['scope'] + ['openid']
+            if 'openid' not in request_args['scope']:
+                request_args['scope'] = request_args['scope'] + ['openid']
 
         # 'code' and/or 'id_token' in response_type means an ID Roken
         # will eventually be returnedm, hence the need for a nonce
-- 
2.43.0


From bec9943d3ad2f99b296e3e8a0c19088aeddaffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:23 +0000
Subject: [PATCH 097/109] fix: the directory for request objects can be created
 by several threads at once

---
 src/oidcrp/oidc/utils.py      | 4 ++--
 src/oidcrp/service_context.py | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/oidc/utils.py b/src/oidcrp/oidc/utils.py
index 9605733..f3cf95c 100644
--- a/src/oidcrp/oidc/utils.py
+++ b/src/oidcrp/oidc/utils.py
@@ -75,8 +75,8 @@ def construct_request_uri(local_dir, base_path, **kwargs):
     :return: 2-tuple with (filename, url)
     """
     _filedir = local_dir
-    if not os.path.isdir(_filedir):
-        os.makedirs(_filedir)
+    # another thread or process may be creating it right now
+    os.makedirs(_filedir, exist_ok=True)
     _webpath = base_path
     _name = rndstr(10) + ".jwt"
     filename = os.path.join(_filedir, _name)
diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index b98581b..cefd108 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -216,8 +216,7 @@ class ServiceContext(OidcContext):
 
         if self.requests_dir:
             # make sure the path exists. If not, then make it.
-            if not os.path.isdir(self.requests_dir):
-                os.makedirs(self.requests_dir)
+            os.makedirs(self.requests_dir, exist_ok=True)
 
         if _key_conf:
             if kwargs.get('httpc_params'):
-- 
2.43.0


From cd21138bc43a503d55044e65759dad77c8ad38ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:05 +0000
Subject: [PATCH 098/109] fix: session IDs are kept when only front-channel
 logout sessions are supported

---
 src/oidcrp/rp_handler.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index e364eb1..c2cc71e 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -828,14 +828,10 @@ class RPHandler(object):
         logger.debug("UserInfo: %s", inforesp)
 
         _context = client.client_get("service_context")
-        try:
-            _sid_support = _context.get('provider_info')['backchannel_logout_session_supported']
-        except KeyError:
-            try:
-                _sid_support = _context.get('provider_info')[
-                    'frontchannel_logout_session_supported']
-            except:
-                _sid_support = False
+        # The session ID may be used in either kind of logout
+        _pi = _context.get('provider_info')
+        _sid_support = _pi.get('backchannel_logout_session_supported') or _pi.get(
+            'frontchannel_logout_session_supported')
 
         if _sid_support and _id_token:
             try:
-- 
2.43.0


From 07df54eb113396884843a21c081362e0b67dc909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:16 +0000
Subject: [PATCH 099/109] fix: a token endpoint authentication method
 configured as a list can be used

---
 src/oidcrp/oidc/access_token.py         | 5 ++++-
 src/oidcrp/oidc/refresh_access_token.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oidc/access_token.py b/src/oidcrp/oidc/access_token.py
index 4d939ed..1d0bc4f 100644
--- a/src/oidcrp/oidc/access_token.py
+++ b/src/oidcrp/oidc/access_token.py
@@ -96,6 +96,9 @@ class AccessToken(access_token.AccessToken):
 
     def get_authn_method(self):
         try:
-            return self.client_get("service_context").behaviour['token_endpoint_auth_method']
+            _method = self.client_get("service_context").behaviour['token_endpoint_auth_method']
         except KeyError:
             return self.default_authn_method
+        if _method and not isinstance(_method, str):  # a list
+            _method = _method[0]
+        return _method
diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index 4203bfc..e8545c6 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -75,6 +75,9 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
 
     def get_authn_method(self):
         try:
-            return self.client_get("service_context").behaviour['token_endpoint_auth_method']
+            _method = self.client_get("service_context").behaviour['token_endpoint_auth_method']
         except KeyError:
             return self.default_authn_method
+        if _method and not isinstance(_method, str):  # a list
+            _method = _method[0]
+        return _method
-- 
2.43.0


From 1cae3a9ee788fef48326214861e6d82e14dc9078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:57 +0000
Subject: [PATCH 100/109] fix: preferred signing algorithms for client
 assertions can be given as a list

---
 src/oidcrp/client_auth.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index ce02863..719ecf4 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -471,9 +471,15 @@ class JWSAuthnMethod(ClientAuthnMethod):
                 algorithm = reg_resp.get("token_endpoint_auth_signing_alg")
 
             if not algorithm:
-                algorithm = context.client_preferences.get("token_endpoint_auth_signing_alg")
+                _pi = context.provider_info
+                # what was negotiated with the provider or else what is preferred
+                algorithm = context.behaviour.get("token_endpoint_auth_signing_alg") or \
+                    context.client_preferences.get("token_endpoint_auth_signing_alg")
+                if algorithm and not isinstance(algorithm, str):  # a list
+                    _supported = _pi.get("token_endpoint_auth_signing_alg_values_supported")
+                    algorithm = next((alg for alg in algorithm if alg in (_supported or [])),
+                                     algorithm[0])
                 if algorithm is None:
-                    _pi = context.provider_info
                     try:
                         algs = _pi["token_endpoint_auth_signing_alg_values_supported"]
                     except KeyError:
-- 
2.43.0


From ee43b8143407d071a6d2eaca8a64d5a869e0c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:04 +0000
Subject: [PATCH 101/109] fix: encrypted user info can be decrypted with the
 client's own keys

---
 src/oidcrp/service.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 712370b..e1d403b 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -488,7 +488,9 @@ class Service(ImpExp):
         args['allowed_enc_algs'] = enc_algs['alg']
         args['allowed_enc_encs'] = enc_algs['enc']
         _jwt = JWT(key_jar=_context.keyjar, **args)
-        _jwt.iss = _context.client_id
+        # Keys that are filed under the client ID can be used besides the client's other keys
+        if _context.client_id in _context.keyjar.owners():
+            _jwt.iss = _context.client_id
         return _jwt.unpack(info)
 
     def _do_response(self, info, sformat, **kwargs):
-- 
2.43.0


From 1ecac6ec321c5387b3a84841c97b08533ea41257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 102/109] fix: a client is filed under the issuer it was
 configured with when another one is allowed

---
 src/oidcrp/rp_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index c2cc71e..63129d2 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -217,7 +217,8 @@ class RPHandler(object):
         _context = client.client_get("service_context")
         if not _context.get('provider_info'):
             dynamic_provider_info_discovery(client, behaviour_args=behaviour_args)
-            return _context.get('provider_info')['issuer']
+            # May differ from what is in the provider info if that is allowed
+            return _context.get('issuer')
         else:
             _pi = _context.get('provider_info')
             for key, val in _pi.items():
-- 
2.43.0


From 70b4526fc3dd43518423896934925095ab67faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 103/109] fix: an allowed issuer mismatch leaves the configured
 issuer as it is

---
 src/oidcrp/oauth2/provider_info_discovery.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/oauth2/provider_info_discovery.py b/src/oidcrp/oauth2/provider_info_discovery.py
index 1760f70..d4b62d7 100644
--- a/src/oidcrp/oauth2/provider_info_discovery.py
+++ b/src/oidcrp/oauth2/provider_info_discovery.py
@@ -71,6 +71,9 @@ class ProviderInfoDiscovery(Service):
                 raise OidcServiceError(
                     "provider info issuer mismatch '%s' != '%s'" % (
                         _issuer, _pcr_issuer))
+        elif _issuer != _pcr_issuer:
+            # It's still the same provider
+            return issuer
         return _issuer
 
     def _set_endpoints(self, resp):
-- 
2.43.0


From 71b924c2acfe4e58a8cb9bbdda521df7739276cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:08 +0000
Subject: [PATCH 104/109] fix: error responses are bound to the session they
 belong to, as other responses are

---
 src/oidcrp/rp_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 63129d2..7d32a52 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -677,9 +677,6 @@ class RPHandler(object):
         else:
             logger.debug('Authz response: {}'.format(authorization_response.to_dict()))
 
-        if is_error_message(authorization_response):
-            return authorization_response
-
         _context = client.client_get("service_context")
         try:
             _iss = _context.state.get_iss(authorization_response['state'])
@@ -691,6 +688,9 @@ class RPHandler(object):
             # got it from the wrong bloke
             raise ValueError('Impersonator {}'.format(issuer))
 
+        if is_error_message(authorization_response):
+            return authorization_response
+
         _srv.update_service_context(authorization_response, key=authorization_response['state'])
         _context.state.store_item(authorization_response, "auth_response",
                                   authorization_response['state'])
-- 
2.43.0


From 30bd7ba5e0edef018bcd634ba23f3f76c6845846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:15 +0000
Subject: [PATCH 105/109] fix: client_secret_jwt is signed with the present
 client secret

---
 src/oidcrp/client_auth.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 719ecf4..ea92774 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -590,11 +590,10 @@ class ClientSecretJWT(JWSAuthnMethod):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
     def get_signing_key_from_keyjar(self, algorithm, service_context):
-        _keys = service_context.keyjar.get_signing_key(alg2keytype(algorithm), alg=algorithm)
-        if not _keys and self.is_preferred(algorithm) and service_context.client_secret:
-            # The client secret is not among the keys of a statically registered client
-            _keys = [SYMKey(key=service_context.client_secret, use="sig")]
-        return _keys
+        if self.is_preferred(algorithm) and service_context.client_secret:
+            # The client may have other symmetric keys, among them an earlier client secret
+            return [SYMKey(key=service_context.client_secret, use="sig")]
+        return service_context.keyjar.get_signing_key(alg2keytype(algorithm), alg=algorithm)
 
 
 class PrivateKeyJWT(JWSAuthnMethod):
-- 
2.43.0


From 09e254d731c33e5ae954b642d1ad75b39f2149c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:21 +0000
Subject: [PATCH 106/109] fix: request objects are signed with the present
 client secret

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py |  5 +++--
 src/oidcrp/oidc/authorization.py                 |  2 +-
 src/oidcrp/service_context.py                    | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 3c8dafb..979305c 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -27,8 +27,9 @@ def push_authorization(request_args, service, **kwargs):
     if method_args["body_format"] == "urlencoded":
         _body = request_args.to_urlencoded()
     else:
-        _jwt = JWT(key_jar=_context.keyjar, iss=_context.client_id,
-                   sign_alg=method_args["signing_algorithm"])
+        _alg = method_args["signing_algorithm"]
+        _jwt = JWT(key_jar=_context.get_signing_keyjar(_alg), iss=_context.client_id,
+                   sign_alg=_alg)
         _jws = _jwt.pack(_args, recv=_context.issuer)
 
         _msg = Message(request=_jws)
diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index d85c2ba..8a41d65 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -173,7 +173,7 @@ class Authorization(authorization.Authorization):
 
         _context = self.client_get("service_context")
         if "keys" not in kwargs and alg and alg != "none":
-            kwargs["keys"] = _context.keyjar
+            kwargs["keys"] = _context.get_signing_keyjar(alg)
 
         if alg == "none":
             kwargs["keys"] = []
diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index cefd108..8d6b229 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -304,6 +304,20 @@ class ServiceContext(OidcContext):
                                         httpc_params=self.keyjar.httpc_params)
                     self.keyjar.add_kb(iss, _bundle)
 
+    def get_signing_keyjar(self, algorithm):
+        """
+        Find the keys that the client can sign something with.
+
+        :param algorithm: The name of the signing algorithm
+        :return: A KeyJar instance
+        """
+        if algorithm.startswith('HS') and self.client_secret:
+            # There may be other symmetric keys, among them an earlier client secret
+            _keyjar = KeyJar()
+            _keyjar.add_symmetric('', self.client_secret)
+            return _keyjar
+        return self.keyjar
+
     def get_sign_alg(self, typ):
         """
 
-- 
2.43.0


From 68587ece78ff1ea7383d6aab09aa67e9b00c2e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:27 +0000
Subject: [PATCH 107/109] fix: ID Tokens signed with the secret of a statically
 registered client are accepted

---
 src/oidcrp/oidc/access_token.py         |  2 ++
 src/oidcrp/oidc/authorization.py        |  2 ++
 src/oidcrp/oidc/refresh_access_token.py |  2 ++
 src/oidcrp/rp_handler.py                |  2 +-
 src/oidcrp/service_context.py           | 15 +++++++++++++++
 5 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/access_token.py b/src/oidcrp/oidc/access_token.py
index 1d0bc4f..d6f1d94 100644
--- a/src/oidcrp/oidc/access_token.py
+++ b/src/oidcrp/oidc/access_token.py
@@ -55,6 +55,8 @@ class AccessToken(access_token.AccessToken):
                 except KeyError:
                     pass
 
+        kwargs['keyjar'] = _context.get_verification_keyjar(kwargs.get('sigalg'))
+
         try:
             kwargs['allow_missing_kid'] = _context.allow['missing_kid']
         except KeyError:
diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 8a41d65..09f3a51 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -277,6 +277,8 @@ class Authorization(authorization.Authorization):
                 except KeyError:
                     pass
 
+        kwargs['keyjar'] = _context.get_verification_keyjar(kwargs.get('sigalg'))
+
         try:
             kwargs['allow_missing_kid'] = _context.allow['missing_kid']
         except KeyError:
diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index e8545c6..f6714ad 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -36,6 +36,8 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
                 except KeyError:
                     pass
 
+        kwargs['keyjar'] = _context.get_verification_keyjar(kwargs.get('sigalg'))
+
         try:
             kwargs['allow_missing_kid'] = _context.allow['missing_kid']
         except KeyError:
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 7d32a52..4459775 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -998,7 +998,7 @@ def backchannel_logout(client, request='', request_args=None):
     kwargs = {
         'aud': client.get_client_id(),
         'iss': _context.get('issuer'),
-        'keyjar': _context.keyjar,
+        'keyjar': _context.get_verification_keyjar(_sign_alg),
         'allowed_sign_alg': _sign_alg
     }
 
diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 8d6b229..fc1b3e9 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -318,6 +318,21 @@ class ServiceContext(OidcContext):
             return _keyjar
         return self.keyjar
 
+    def get_verification_keyjar(self, algorithm):
+        """
+        Find the keys that can verify something the provider has signed.
+
+        :param algorithm: The name of the signing algorithm the provider is expected to use
+        :return: A KeyJar instance
+        """
+        if isinstance(algorithm, str) and algorithm.startswith('HS') and self.client_secret:
+            # Not necessarily among the keys, if the client is statically registered
+            _keyjar = KeyJar()
+            for owner in ['', self.issuer]:
+                _keyjar.add_symmetric(owner, self.client_secret)
+            return _keyjar
+        return self.keyjar
+
     def get_sign_alg(self, typ):
         """
 
-- 
2.43.0


From 9f6f0d044104db70eba194a7042b1afc630ac9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:53 +0000
Subject: [PATCH 108/109] fix: user info signed with the secret of a statically
 registered client is accepted

---
 src/oidcrp/service.py         | 5 +++--
 src/oidcrp/service_context.py | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index e1d403b..07474cb 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -487,9 +487,10 @@ class Service(ImpExp):
         enc_algs = _context.get_enc_alg_enc(self.service_name)
         args['allowed_enc_algs'] = enc_algs['alg']
         args['allowed_enc_encs'] = enc_algs['enc']
-        _jwt = JWT(key_jar=_context.keyjar, **args)
+        _keyjar = _context.get_verification_keyjar(args['allowed_sign_algs'])
+        _jwt = JWT(key_jar=_keyjar, **args)
         # Keys that are filed under the client ID can be used besides the client's other keys
-        if _context.client_id in _context.keyjar.owners():
+        if _context.client_id in _keyjar.owners():
             _jwt.iss = _context.client_id
         return _jwt.unpack(info)
 
diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index fc1b3e9..0306f74 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -328,6 +328,12 @@ class ServiceContext(OidcContext):
         if isinstance(algorithm, str) and algorithm.startswith('HS') and self.client_secret:
             # Not necessarily among the keys, if the client is statically registered
             _keyjar = KeyJar()
+            # What is encrypted is encrypted to one of the client's other keys
+            _bundle = KeyBundle()
+            for owner in {'', self.client_id}.intersection(self.keyjar.owners()):
+                _bundle.extend([key for key in self.keyjar.get_issuer_keys(owner)
+                                if key.kty != 'oct'])
+            _keyjar.add_kb('', _bundle)
             for owner in ['', self.issuer]:
                 _keyjar.add_symmetric(owner, self.client_secret)
             return _keyjar
-- 
2.43.0


From 50523d0a848f9e3aebbcbf56d7624ce3eed05556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:33 +0000
Subject: [PATCH 109/109] fix: request objects are signed with the algorithm
 the provider registered

---
 src/oidcrp/oidc/authorization.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 09f3a51..276b87b 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -140,10 +140,15 @@ class Authorization(authorization.Authorization):
                 break
 
         if not alg:
-            try:
-                alg = self.client_get("service_context").behaviour["request_object_signing_alg"]
-            except KeyError:  # Use default
-                alg = "RS256"
+            _context = self.client_get("service_context")
+            # What the provider registered takes precedence over what was asked for
+            _reg_resp = _context.registration_response or {}
+            alg = _reg_resp.get("request_object_signing_alg")
+            if not alg:
+                try:
+                    alg = _context.behaviour["request_object_signing_alg"]
+                except KeyError:  # Use default
+                    alg = "RS256"
         return alg
 
     def store_request_on_file(self, req, **kwargs):
-- 
2.43.0

