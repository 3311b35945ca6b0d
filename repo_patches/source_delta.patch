From 0453cced5d1e685e7c04d2d402d6eee7a42eddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 01/55] fix: match every registered redirect URI that shares a
 base

---
 src/oidcop/oauth2/authorization.py | 68 +++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 25 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 86b7ce8..dedafa0 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -89,6 +89,40 @@ def max_age(request):
     return request.get(verified_request, {}).get("max_age") or request.get("max_age", 0)
 
 
+def verify_query(query, rquery):
+    """
+    Verify that the query part of a URI is the registered one.
+
+    :param query: The query part of the URI as a dictionary
+    :param rquery: The registered query part as a dictionary
+    """
+    # every registered query component must exist in the uri
+    if rquery:
+        if not query:
+            raise ValueError("Missing query part")
+
+        for key, vals in rquery.items():
+            if key not in query:
+                raise ValueError('"{}" not in query part'.format(key))
+
+            for val in vals:
+                if val not in query[key]:
+                    raise ValueError("{}={} value not in query part".format(key, val))
+
+    # and vice versa, every query component in the uri
+    # must be registered
+    if query:
+        if not rquery:
+            raise ValueError("No registered query part")
+
+        for key, vals in query.items():
+            if key not in rquery:
+                raise ValueError('"{}" extra in query part'.format(key))
+            for val in vals:
+                if val not in rquery[key]:
+                    raise ValueError("Extra {}={} value in query part".format(key, val))
+
+
 def verify_uri(
     endpoint_context: EndpointContext,
     request: Union[dict, Message],
@@ -135,6 +169,7 @@ def verify_uri(
         raise RedirectURIError(f"No registered {uri_type} for {_cid}")
     else:
         match = False
+        query_error = None
         for _item in redirect_uris:
             if isinstance(_item, str):
                 regbase = _item
@@ -144,33 +179,16 @@ def verify_uri(
 
             # The URI MUST exactly match one of the Redirection URI
             if _base == regbase:
-                # every registered query component must exist in the uri
-                if rquery:
-                    if not _query:
-                        raise ValueError("Missing query part")
-
-                    for key, vals in rquery.items():
-                        if key not in _query:
-                            raise ValueError('"{}" not in query part'.format(key))
-
-                        for val in vals:
-                            if val not in _query[key]:
-                                raise ValueError("{}={} value not in query part".format(key, val))
-
-                # and vice versa, every query component in the uri
-                # must be registered
-                if _query:
-                    if not rquery:
-                        raise ValueError("No registered query part")
-
-                    for key, vals in _query.items():
-                        if key not in rquery:
-                            raise ValueError('"{}" extra in query part'.format(key))
-                        for val in vals:
-                            if val not in rquery[key]:
-                                raise ValueError("Extra {}={} value in query part".format(key, val))
+                try:
+                    verify_query(_query, rquery)
+                except ValueError as err:
+                    # The same base may be registered with several query parts
+                    query_error = query_error or err
+                    continue
                 match = True
                 break
+        if not match and query_error:
+            raise query_error
         if not match:
             raise RedirectURIError("Doesn't match any registered uris")
 
-- 
2.43.0


From 2d5bf5aa9c53b7e550e0327cfb620c034eb03d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 02/55] fix: compare redirect URIs as they are, without
 decoding or leaving parts out

---
 src/oidcop/oauth2/authorization.py | 12 +++++++-----
 src/oidcop/util.py                 |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index dedafa0..3207ebf 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -3,7 +3,6 @@ import logging
 from typing import List
 from typing import Optional
 from typing import Union
-from urllib.parse import unquote
 from urllib.parse import urlencode
 from urllib.parse import urlparse
 
@@ -121,6 +120,8 @@ def verify_query(query, rquery):
             for val in vals:
                 if val not in rquery[key]:
                     raise ValueError("Extra {}={} value in query part".format(key, val))
+            if len(vals) != len(rquery[key]):
+                raise ValueError("Repeated {} in query part".format(key))
 
 
 def verify_uri(
@@ -150,13 +151,14 @@ def verify_uri(
     if _uri is None:
         raise ValueError(f"Wrong uri_type: {uri_type}")
 
-    _redirect_uri = unquote(_uri)
-
-    part = urlparse(_redirect_uri)
+    part = urlparse(_uri)
     if part.fragment:
         raise URIError("Contains fragment")
+    if part.geturl() != _uri:
+        # something a URI parser leaves out, like white space or an empty fragment
+        raise RedirectURIError(f"Malformed {uri_type}")
 
-    (_base, _query) = split_uri(_redirect_uri)
+    (_base, _query) = split_uri(_uri)
 
     # Get the clients registered redirect uris
     client_info = endpoint_context.cdb.get(_cid)
diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index 5800405..420527c 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -190,7 +190,7 @@ def split_uri(uri):
     if p.query:
         o = p._replace(query="")
         base = urlunsplit(o)
-        return base, parse_qs(p.query)
+        return base, parse_qs(p.query, keep_blank_values=True)
     else:
         base = urlunsplit(p)
         return base, ""
-- 
2.43.0


From 3e81b94bcfb9b58a86f8008e4841226739e5f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 03/55] fix: include the issuer in form_post authorization
 responses

---
 src/oidcop/oauth2/authorization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 3207ebf..f3b63e5 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -872,6 +872,9 @@ class Authorization(Endpoint):
 
         response_info = self.create_authn_response(request, session_id)
         response_info["session_id"] = session_id
+        # Mix-Up mitigation, must be in place before a form is constructed
+        response_info["response_args"]["iss"] = _context.issuer
+        response_info["response_args"]["client_id"] = request["client_id"]
 
         logger.debug("Known clients: {}".format(list(_context.cdb.keys())))
 
-- 
2.43.0


From cabbcc329898b9fe7f184292f5bd2d3afd91b85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 04/55] fix: store a grant under its own path, not under the
 encrypted session id

---
 src/oidcop/oauth2/authorization.py | 2 +-
 src/oidcop/oauth2/token.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index f3b63e5..f46a043 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -364,7 +364,7 @@ class Authorization(Endpoint):
             token.expires_at = utc_time_sans_frac() + _exp_in
 
         _mngr = self.server_get("endpoint_context").session_manager
-        _mngr.set(_mngr.unpack_session_key(session_id), grant)
+        _mngr.set(_mngr.decrypt_session_id(session_id), grant)
 
         return token
 
diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index bfee6df..c043269 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -91,7 +91,7 @@ class TokenEndpointHelper(object):
             if _exp_in:
                 token.expires_at = utc_time_sans_frac() + _exp_in
 
-        _context.session_manager.set(_context.session_manager.unpack_session_key(session_id), grant)
+        _mngr.set(_mngr.decrypt_session_id(session_id), grant)
 
         return token
 
-- 
2.43.0


From 2244276ea557ed6fbfd9f1b1e8cdfbcf79462011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 05/55] fix: delete exactly the sub tree a session path points
 to

---
 src/oidcop/session/database.py | 59 ++++++++++++++++++----------------
 src/oidcop/session/manager.py  |  3 --
 2 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 8f4e79e..8a8b203 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -126,45 +126,50 @@ class Database(ImpExp):
                 raise NoSuchGrant(grant_id)
 
     def delete(self, path: List[str]):
+        """
+        Removes the item a path points to and everything below it. A client session
+        or user that has nothing left below it is also removed.
+
+        :param path: a list of identifiers
+        """
         uid, client_id, grant_id = self._eval_path(path)
 
         if uid not in self.db:
             return
-        elif not client_id:
-            self.db.__delitem__(uid)
-            return
 
         _user_info = self.db[uid]
-        skey_uid_client = self.session_key(uid, client_id)
-        skey_uid_client_grant = self.session_key(uid, client_id, grant_id or "")
-
-        if client_id not in _user_info.subordinate:
-            self.db.__delitem__(client_id)
-            return
-
-        elif skey_uid_client in self.db:
-            _client_info = self.db[skey_uid_client]
-            if grant_id:
-                if skey_uid_client_grant in self.db:
-                    self.db.__delitem__(skey_uid_client_grant)
-                if grant_id in _client_info.subordinate:
-                    _client_info.subordinate.remove(grant_id)
-            else:
-                for grant_id in _client_info.subordinate:
+        if client_id:
+            if client_id not in _user_info.subordinate:
+                return
+            _client_ids = [client_id]
+        else:
+            _client_ids = list(_user_info.subordinate)
+
+        for _client_id in _client_ids:
+            skey_uid_client = self.session_key(uid, _client_id)
+            _client_info = self.db.get(skey_uid_client)
+            if _client_info is not None:
+                if grant_id:
+                    _grant_ids = [gid for gid in _client_info.subordinate if gid == grant_id]
+                else:
+                    _grant_ids = list(_client_info.subordinate)
+
+                for _grant_id in _grant_ids:
+                    skey_uid_client_grant = self.session_key(uid, _client_id, _grant_id)
                     if skey_uid_client_grant in self.db:
                         self.db.__delitem__(skey_uid_client_grant)
-                _client_info.subordinate = []
+                    while _grant_id in _client_info.subordinate:
+                        _client_info.subordinate.remove(_grant_id)
 
-            if len(_client_info.subordinate) == 0:
+                if _client_info.subordinate:
+                    continue
                 self.db.__delitem__(skey_uid_client)
-                _user_info.subordinate.remove(client_id)
-            else:
-                self.db[client_id] = _client_info
 
-        if len(_user_info.subordinate) == 0:
+            while _client_id in _user_info.subordinate:
+                _user_info.subordinate.remove(_client_id)
+
+        if not client_id or len(_user_info.subordinate) == 0:
             self.db.__delitem__(uid)
-        else:
-            self.db[uid] = _user_info
 
     def update(self, path: List[str], new_info: dict):
         _info = self.get(path)
diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index 3bddebc..e51ca7e 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -522,9 +522,6 @@ class SessionManager(Database):
         args = {k: v for k, v in kwargs.items() if k in Grant.parameter}
         _grant = Grant(**args)
         self.set([user_id, client_id, _grant.id], _grant)
-        _client_session_info = self.get([user_id, client_id])
-        _client_session_info.subordinate.append(_grant.id)
-        self.set([user_id, client_id], _client_session_info)
         return _grant
 
     def remove_session(self, session_id: str):
-- 
2.43.0


From e399d3f175bf7160d809aca682e46519aaab7e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 06/55] fix: export and import the identifier of a grant

---
 src/oidcop/session/grant.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index a7c6f8d..9398754 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -108,6 +108,7 @@ class Grant(Item):
             "authorization_request": AuthorizationRequest,
             "claims": {},
             "extra": {},
+            "id": "",
             "issued_token": [SessionToken],
             "resources": [],
             "scope": [],
@@ -138,6 +139,7 @@ class Grant(Item):
         token_map: Optional[dict] = None,
         sub: Optional[str] = "",
         extra: Optional[Dict[str, str]] = None,
+        id: str = "",
     ):
         Item.__init__(
             self,
@@ -154,7 +156,7 @@ class Grant(Item):
         self.claims = claims or {}  # default is to not release any user information
         self.resources = resources or []
         self.issued_token = issued_token or []
-        self.id = uuid1().hex
+        self.id = id or uuid1().hex
         self.sub = sub
         self.extra = extra or {}
 
-- 
2.43.0


From baf28e12837b27293be2a9dc1a0ad37e93a5c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 07/55] fix: bind a pushed authorization request to its client
 and lifetime and keep it as plain data

---
 src/oidcop/oauth2/authorization.py        | 12 +++++++-----
 src/oidcop/oauth2/pushed_authorization.py | 10 +++++++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index f46a043..24669ac 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -376,13 +376,15 @@ class Authorization(Endpoint):
             if _endp:
                 # Is it a UUID urn
                 if _request_uri.startswith("urn:uuid:"):
-                    _req = endpoint_context.par_db.get(_request_uri)
-                    if _req:
+                    _pushed = endpoint_context.par_db.get(_request_uri)
+                    # Only usable by the client that pushed it
+                    if _pushed and _pushed["client_id"] == client_id:
                         # One time usage
                         del endpoint_context.par_db[_request_uri]
-                        return _req
-                    else:
-                        raise ValueError("Got a request_uri I can not resolve")
+                        if utc_time_sans_frac() <= _pushed["expires_at"]:
+                            return self.request_cls(**_pushed["request"])
+
+                    raise ValueError("Got a request_uri I can not resolve")
 
             # Do I support request_uri ?
             if endpoint_context.provider_info.get("request_uri_parameter_supported", True) is False:
diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index d1f84f8..668c3a2 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -1,6 +1,8 @@
 import uuid
 
 from oidcmsg import oauth2
+from oidcmsg import verified_claim_name
+from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop.oauth2.authorization import Authorization
 
@@ -30,7 +32,13 @@ class PushedAuthorization(Authorization):
         # create URN
 
         _urn = "urn:uuid:{}".format(uuid.uuid4())
-        self.server_get("endpoint_context").par_db[_urn] = request
+        _verified_request = verified_claim_name("request")
+        # Plain data, such that it can be exported/imported
+        self.server_get("endpoint_context").par_db[_urn] = {
+            "client_id": request["client_id"],
+            "expires_at": utc_time_sans_frac() + self.ttl,
+            "request": {k: v for k, v in request.to_dict().items() if k != _verified_request},
+        }
 
         return {
             "http_response": {"request_uri": _urn, "expires_in": self.ttl},
-- 
2.43.0


From 4ac670cc2482c3448c53f73fb37c4cbf3a04f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 08/55] fix: a request object can not change the client of an
 authorization request

---
 src/oidcop/oauth2/authorization.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 24669ac..f9c7401 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -429,7 +429,7 @@ class Authorization(Endpoint):
 
                 request[verified_claim_name("request")] = _ver_request
             else:
-                raise ServiceError("Got a %s response", _resp.status)
+                raise ServiceError("Got a %s response", _resp.status_code)
 
         return request
 
@@ -458,6 +458,12 @@ class Authorization(Endpoint):
                 request, error="unauthorized_client", error_description="unknown client"
             )
 
+        if request.get("client_id") != client_id:
+            # A request object can not change which client it is
+            return self.authentication_error_response(
+                request, error="invalid_request", error_description="client_id mismatch"
+            )
+
         # Is the asked for response_type among those that are permitted
         if not self.verify_response_type(request, _cinfo):
             return self.authentication_error_response(
-- 
2.43.0


From e89e61da4545a349d6743a95e957a52c81cc9035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 09/55] fix: tokens of a revoked grant are neither active nor
 usable for userinfo

---
 src/oidcop/oauth2/introspection.py | 2 +-
 src/oidcop/oidc/userinfo.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index c298c12..8619a47 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -30,7 +30,7 @@ class Introspection(Endpoint):
         if token.token_class not in ["access_token", "refresh_token"]:
             return None
 
-        if not token.is_active():
+        if grant.revoked or not token.is_active():
             return None
 
         scope = token.scope
diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 6e6ce97..53bb676 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -122,7 +122,7 @@ class UserInfo(Endpoint):
             return self.error_cls(error="invalid_token", error_description="Wrong type of token")
 
         # And it should be valid
-        if token.is_active() is False:
+        if _grant.revoked or token is None or token.is_active() is False:
             return self.error_cls(error="invalid_token", error_description="Invalid Token")
 
         allowed = True
-- 
2.43.0


From 4ad64ee8db478965d770fed3b7abef9e97ed1336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 10/55] fix: answer introspection of any unusable token with
 inactive

---
 src/oidcop/oauth2/introspection.py |  5 ++++-
 src/oidcop/token/id_token.py       | 20 +++++++++++++-------
 src/oidcop/token/jwt_token.py      |  5 ++---
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index 8619a47..c37c43b 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -5,6 +5,7 @@ from typing import Optional
 from oidcmsg import oauth2
 
 from oidcop.endpoint import Endpoint
+from oidcop.exception import ToOld
 from oidcop.token.exception import UnknownToken
 from oidcop.token.exception import WrongTokenClass
 
@@ -95,11 +96,13 @@ class Introspection(Endpoint):
             _session_info = _context.session_manager.get_session_info_by_token(
                 request_token, grant=True
             )
-        except (UnknownToken, WrongTokenClass):
+        except (KeyError, ValueError, ToOld, UnknownToken, WrongTokenClass):
             return {"response_args": _resp}
 
         grant = _session_info["grant"]
         _token = grant.get_token(request_token)
+        if _token is None:
+            return {"response_args": _resp}
 
         _info = self._introspect(_token, _session_info["client_id"], _session_info["grant"])
         if _info is None:
diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index e8555ef..e690d31 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -2,7 +2,6 @@ import logging
 from typing import Callable
 from typing import Optional
 
-from cryptojwt.jws.exception import JWSException
 from cryptojwt.jws.jws import factory
 from cryptojwt.jws.utils import left_hash
 from cryptojwt.jwt import JWT
@@ -309,20 +308,27 @@ class IDToken(Token):
 
         _context = self.server_get("endpoint_context")
 
-        _jwt = factory(token)
+        try:
+            _jwt = factory(token)
+        except Exception as err:  # Not even close to a JWT
+            raise InvalidToken(err)
+
         if not _jwt:
             raise InvalidToken("Not valid token")
 
-        _payload = _jwt.jwt.payload()
-        client_id = _payload["aud"][0]
-        client_info = _context.cdb[client_id]
+        try:
+            _payload = _jwt.jwt.payload()
+            client_id = _payload["aud"][0]
+            client_info = _context.cdb[client_id]
+        except Exception as err:  # A JWT but not one of my ID Tokens
+            raise InvalidToken(err)
         alg_dict = get_sign_and_encrypt_algorithms(_context, client_info, "id_token", sign=True)
 
         verifier = JWT(key_jar=_context.keyjar, allowed_sign_algs=alg_dict["sign_alg"])
         try:
             _payload = verifier.unpack(token)
-        except JWSException:
-            raise UnknownToken()
+        except Exception as err:
+            raise UnknownToken(err)
 
         logger.debug(f"Received ID Token payload: {_payload}")
 
diff --git a/src/oidcop/token/jwt_token.py b/src/oidcop/token/jwt_token.py
index d865349..af59b25 100644
--- a/src/oidcop/token/jwt_token.py
+++ b/src/oidcop/token/jwt_token.py
@@ -2,7 +2,6 @@ from typing import Callable
 from typing import Optional
 
 from cryptojwt import JWT
-from cryptojwt.jws.exception import JWSException
 
 from oidcop.exception import ToOld
 from oidcop.token import Crypt
@@ -90,8 +89,8 @@ class JWTToken(Token):
         verifier = JWT(key_jar=_context.keyjar, allowed_sign_algs=[self.alg])
         try:
             _payload = verifier.unpack(token)
-        except JWSException:
-            raise UnknownToken()
+        except Exception as err:  # Anything but a JWT signed with a known key
+            raise UnknownToken(err)
 
         return _payload
 
-- 
2.43.0


From 70b983976049b693a9a5ee4bc9ead4cae78c1208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 11/55] fix: do not change the client configuration when
 collecting claims

---
 src/oidcop/session/claims.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index bcea058..c57a533 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -81,8 +81,8 @@ class ClaimsInterface:
         add_claims_always = _context.cdb[client_id].get("add_claims", {}).get("always", {})
         _always_add = add_claims_always.get(claims_release_point, [])
         if secondary_identifier:
-            _always_2 = add_claims_always.get(secondary_identifier, [])
-            _always_add.extend(_always_2)
+            # Must not change the client configuration
+            _always_add = [*_always_add, *add_claims_always.get(secondary_identifier, [])]
 
         return _claims_by_scope, _always_add
 
-- 
2.43.0


From 6a4fdb31a223b8b272c8af236f6c042711b976e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 12/55] fix: read back cookies whose value contains the
 separator

---
 src/oidcop/cookie_handler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index cb8130e..02f37c3 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -138,6 +138,13 @@ class CookieHandler:
 
         return (b"|".join(cookie_payload)).decode("utf-8")
 
+    def _split(self, cookie_value: str) -> List[str]:
+        parts = cookie_value.split("|")
+        if not self.enc_key and len(parts) > 3:
+            # Only signed, the payload is there as is and may contain the separator
+            parts = [parts[0], "|".join(parts[1:-1]), parts[-1]]
+        return parts
+
     def _ver_dec_content(self, parts):
         """
         Verifies the value of a cookie
@@ -258,10 +265,10 @@ class CookieHandler:
         for _cookie in cookies:
             LOGGER.debug("Cookie: {}".format(_cookie))
             if "name" in _cookie and _cookie["name"] == name:
-                _content = self._ver_dec_content(_cookie["value"].split("|"))
+                _content = self._ver_dec_content(self._split(_cookie["value"]))
                 if _content:
-                    payload, timestamp = self._ver_dec_content(_cookie["value"].split("|"))
-                    value, typ = payload.split("::")
+                    payload, timestamp = _content
+                    value, typ = payload.rsplit("::", 1)
                     res.append({"value": value, "type": typ, "timestamp": timestamp})
                 else:
                     LOGGER.debug(f"Could not verify {name} cookie")
-- 
2.43.0


From 5dd24def6afe5dbdad93b1da5c8a4437993495f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 13/55] fix: escape values in form_post responses

---
 src/oidcop/oauth2/authorization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index f9c7401..c6c86d2 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -1,3 +1,4 @@
+from html import escape
 import json
 import logging
 from typing import List
@@ -79,7 +80,7 @@ def inputs(form_args):
     for name, value in form_args.items():
         if name == "scope" and isinstance(value, list):
             value = " ".join(value)
-        element.append(html_field.format(name, value))
+        element.append(html_field.format(escape(str(name)), escape(str(value))))
     return "\n".join(element)
 
 
@@ -705,7 +706,7 @@ class Authorization(Endpoint):
                 if "return_type" in _args:
                     del _args["return_type"]
 
-            msg = FORM_POST.format(inputs=inputs(_args), action=return_uri)
+            msg = FORM_POST.format(inputs=inputs(_args), action=escape(return_uri))
             kwargs.update(
                 {
                     "response_msg": msg,
-- 
2.43.0


From a2278bf39e369e086aa7ab2d0a22daa171c471e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 14/55] fix: OAuth2 authorization responses without a code

---
 src/oidcop/oauth2/authorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index c6c86d2..6e4014f 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -298,7 +298,8 @@ def check_unknown_scopes_policy(request_info, client_id, endpoint_context):
 
 class Authorization(Endpoint):
     request_cls = oauth2.AuthorizationRequest
-    response_cls = oauth2.AuthorizationResponse
+    # Not oauth2.AuthorizationResponse since that one demands a code
+    response_cls = AuthorizationResponse
     error_cls = oauth2.AuthorizationErrorResponse
     request_format = "urlencoded"
     response_format = "urlencoded"
-- 
2.43.0


From bd0636379292e822b2cad36dcf98eb44d92bd24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 15/55] fix: return authorization errors in the response mode
 that applies

---
 src/oidcop/oauth2/authorization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 6e4014f..abacdbb 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -744,7 +744,11 @@ class Authorization(Endpoint):
         response_info = self.error_response(response_info, request, error, error_description)
         if "return_uri" not in response_info:
             response_info["return_uri"] = request["redirect_uri"]
-        response_info = self.response_mode(request, **response_info)
+        if request.get("response_mode") == "form_post":
+            response_info = self.response_mode(request, **response_info)
+        else:
+            # The response type decides where the response is placed
+            response_info["return_type"] = request["response_type"]
         return response_info
 
     def create_authn_response(self, request: Union[dict, Message], sid: str) -> dict:
@@ -1032,7 +1036,7 @@ class Authorization(Endpoint):
         info = self.setup_auth(request, request["redirect_uri"], cinfo, _my_cookies, **kwargs)
 
         if "error" in info:
-            if "response_mode" in request:
+            if request.get("response_mode") == "form_post":
                 return self.response_mode(request, info)
             else:
                 return info
-- 
2.43.0


From cd2cbf8a7788a1a05780f8821fa4d30affcfbe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:52 +0000
Subject: [PATCH 16/55] fix: a cookie for a session that is gone means not
 authenticated

---
 src/oidcop/oauth2/authorization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index abacdbb..193346e 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -611,6 +611,9 @@ class Authorization(Endpoint):
                 if _sid:
                     try:
                         _csi = _context.session_manager[_sid]
+                    except (KeyError, ValueError):
+                        logger.debug("Authentication session gone")
+                        identity = None
                     except Revoked:
                         logger.debug("Authentication session revoked!!")
                         identity = None
-- 
2.43.0


From 8cd7eb42d514a26c7651d7af6cb01a19b4717fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:35 +0000
Subject: [PATCH 17/55] fix: measure max_age from the authentication and honour
 max_age=0

---
 src/oidcop/oauth2/authorization.py | 34 ++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 193346e..279dddd 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -86,7 +86,10 @@ def inputs(form_args):
 
 def max_age(request):
     verified_request = verified_claim_name("request")
-    return request.get(verified_request, {}).get("max_age") or request.get("max_age", 0)
+    _max_age = request.get(verified_request, {}).get("max_age")
+    if _max_age is None:
+        _max_age = request.get("max_age")
+    return _max_age
 
 
 def verify_query(query, rquery):
@@ -545,6 +548,23 @@ class Authorization(Endpoint):
         logger.debug("Login required error: {}".format(_res))
         return _res
 
+    def too_old(self, request, authn_event) -> bool:
+        """
+        Whether the user was authenticated longer ago than what the request allows.
+
+        :param request: The authorization request
+        :param authn_event: The authentication event of the session
+        """
+        if "upm_answer" in request and request["upm_answer"] == "true":
+            return False
+
+        _max_age = max_age(request)
+        logger.debug(f"Max age: {_max_age}")
+        if _max_age is None:
+            return False
+
+        return utc_time_sans_frac() > authn_event["authn_time"] + int(_max_age)
+
     def _unwrap_identity(self, identity):
         if isinstance(identity, dict):
             try:
@@ -585,14 +605,7 @@ class Authorization(Endpoint):
         _context = self.server_get("endpoint_context")
         try:
             _auth_info = kwargs.get("authn", "")
-            if "upm_answer" in request and request["upm_answer"] == "true":
-                _max_age = 0
-            else:
-                _max_age = max_age(request)
-            logger.debug(f"Max age: {_max_age}")
-            identity, _ts = authn.authenticated_as(
-                client_id, cookie, authorization=_auth_info, max_age=_max_age
-            )
+            identity, _ts = authn.authenticated_as(client_id, cookie, authorization=_auth_info)
         except (NoSuchAuthentication, TamperAllert):
             identity = None
             _ts = 0
@@ -621,6 +634,9 @@ class Authorization(Endpoint):
                         logger.debug(f"Session info type: {_csi.__class__.__name__}")
                         if _csi.is_active() is False:
                             identity = None
+                        elif self.too_old(request, _csi.authentication_event):
+                            logger.info("Too old authentication")
+                            identity = None
 
         authn_args = authn_args_gather(request, authn_class_ref, cinfo, **kwargs)
         _mngr = _context.session_manager
-- 
2.43.0


From 6d1b154f4187b110b6b037a37505639cbc361cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:35 +0000
Subject: [PATCH 18/55] fix: never show a login page when prompting is
 forbidden

---
 src/oidcop/oauth2/authorization.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 279dddd..f196ab2 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -548,6 +548,13 @@ class Authorization(Endpoint):
         logger.debug("Login required error: {}".format(_res))
         return _res
 
+    def _authenticate(self, redirect_uri, request, authn, authn_args):
+        if "prompt" in request and "none" in request["prompt"]:
+            # Need to authenticate but not allowed
+            return self._login_required_error(redirect_uri, request)
+        else:
+            return {"function": authn, "args": authn_args}
+
     def too_old(self, request, authn_event) -> bool:
         """
         Whether the user was authenticated longer ago than what the request allows.
@@ -646,27 +653,19 @@ class Authorization(Endpoint):
         if not identity:  # No!
             logger.info("No active authentication")
             logger.debug("Known clients: {}".format(list(_context.cdb.keys())))
-
-            if "prompt" in request and "none" in request["prompt"]:
-                # Need to authenticate but not allowed
-                return self._login_required_error(redirect_uri, request)
-            else:
-                return {"function": authn, "args": authn_args}
+            return self._authenticate(redirect_uri, request, authn, authn_args)
         else:
             logger.info(f"Active authentication: {identity}")
             if re_authenticate(request, authn):
                 # demand re-authentication
-                return {"function": authn, "args": authn_args}
+                return self._authenticate(redirect_uri, request, authn, authn_args)
             else:
                 # I got back a dictionary
                 user = identity["uid"]
                 if "req_user" in kwargs:
                     if user != kwargs["req_user"]:
                         logger.debug("Wanted to be someone else!")
-                        if "prompt" in request and "none" in request["prompt"]:
-                            return self._login_required_error(redirect_uri, request)
-                        else:
-                            return {"function": authn, "args": authn_args}
+                        return self._authenticate(redirect_uri, request, authn, authn_args)
 
                 if "sid" in identity:
                     _session_id = identity["sid"]
@@ -674,15 +673,15 @@ class Authorization(Endpoint):
                     # make sure the client is the same
                     _uid, _cid, _gid = _mngr.decrypt_session_id(_session_id)
                     if request["client_id"] != _cid:
-                        return {"function": authn, "args": authn_args}
+                        return self._authenticate(redirect_uri, request, authn, authn_args)
 
                     grant = _mngr[_session_id]
                     if grant.is_active() is False:
-                        return {"function": authn, "args": authn_args}
+                        return self._authenticate(redirect_uri, request, authn, authn_args)
                     elif request != grant.authorization_request:
                         authn_event = _mngr.get_authentication_event(session_id=_session_id)
                         if authn_event.is_valid() is False:  # if not valid, do new login
-                            return {"function": authn, "args": authn_args}
+                            return self._authenticate(redirect_uri, request, authn, authn_args)
 
                         # create new grant
                         _session_id = _mngr.create_grant(
@@ -695,7 +694,7 @@ class Authorization(Endpoint):
         if _session_id:
             authn_event = _mngr.get_authentication_event(session_id=_session_id)
             if authn_event.is_valid() is False:  # if not valid, do new login
-                return {"function": authn, "args": authn_args}
+                return self._authenticate(redirect_uri, request, authn, authn_args)
         else:
             _session_id = self.create_session(request, identity["uid"], authn_class_ref, _ts, authn)
 
-- 
2.43.0


From 368c4034c5661630665bc7fac599ac01890c0bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 19/55] fix: use the subject type and sector a client is
 registered with

---
 src/oidcop/oauth2/authorization.py | 20 ++++++++++++++++++++
 src/oidcop/session/manager.py      |  8 +++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index f196ab2..52bfc05 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -515,6 +515,23 @@ class Authorization(Endpoint):
                 "return_type": request["response_type"],
             }
 
+    def subject_args(self, client_id):
+        """
+        The kind of subject identifier the client has registered for and the sector it
+        belongs to.
+        """
+        cinfo = self.server_get("endpoint_context").cdb.get(client_id) or {}
+        _uri = cinfo.get("sector_id")
+        if not _uri and cinfo.get("redirect_uris"):
+            _uri = cinfo["redirect_uris"][0]
+            if not isinstance(_uri, str):
+                _uri = _uri[0]
+
+        return {
+            "sub_type": cinfo.get("subject_type") or "public",
+            "sector_identifier": urlparse(_uri).netloc if _uri else "",
+        }
+
     def create_session(self, request, user_id, acr, time_stamp, authn_method):
         _context = self.server_get("endpoint_context")
         _mngr = _context.session_manager
@@ -534,6 +551,7 @@ class Authorization(Endpoint):
             user_id=user_id,
             client_id=request["client_id"],
             token_usage_rules=_token_usage_rules,
+            **self.subject_args(request["client_id"]),
         )
 
     def _login_required_error(self, redirect_uri, request):
@@ -689,6 +707,8 @@ class Authorization(Endpoint):
                             auth_req=request,
                             user_id=user,
                             client_id=request["client_id"],
+                            token_usage_rules=_context.authz.usage_rules(request["client_id"]),
+                            **self.subject_args(request["client_id"]),
                         )
 
         if _session_id:
diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index e51ca7e..c7927f2 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -167,6 +167,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = None,
     ) -> str:
         """
 
@@ -177,9 +178,11 @@ class SessionManager(Database):
         :param client_id:
         :param sub_type:
         :param token_usage_rules:
+        :param sector_identifier: Sector the client belongs to
         :return:
         """
-        sector_identifier = auth_req.get("sector_identifier_uri", "")
+        if sector_identifier is None:
+            sector_identifier = auth_req.get("sector_identifier_uri", "")
 
         _claims = auth_req.get("claims", {})
 
@@ -207,6 +210,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = None,
     ) -> str:
         """
         Create part of a user session. The parts added are user- and client
@@ -219,6 +223,7 @@ class SessionManager(Database):
         :param user_id: User ID
         :param sub_type: What kind of subject will be assigned
         :param token_usage_rules: Rules for how tokens can be used
+        :param sector_identifier: Sector the client belongs to
         :return: Session key
         """
 
@@ -245,6 +250,7 @@ class SessionManager(Database):
             sub_type=sub_type,
             token_usage_rules=token_usage_rules,
             scopes=scopes,
+            sector_identifier=sector_identifier,
         )
 
     def __getitem__(self, session_id: str):
-- 
2.43.0


From 54a08475ac0c39425e3e123dd74bd9e2db8541e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 20/55] fix: revoke what an OAuth2 code has been exchanged for
 when it is replayed

---
 src/oidcop/oauth2/token.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index c043269..bb0f464 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -214,6 +214,10 @@ class AccessTokenHelper(TokenEndpointHelper):
         if not isinstance(code, AuthorizationCode):
             return self.error_cls(error="invalid_request", error_description="Wrong token type")
 
+        if code.used:  # Has been used already
+            # invalidate all tokens that has been minted using this code
+            grant.revoke_token(based_on=request["code"], recursive=True)
+
         if code.is_active() is False:
             return self.error_cls(error="invalid_request", error_description="Code inactive")
 
-- 
2.43.0


From 5377f4224bb8a3bba4cc6eaefe3ad52577f6558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:22 +0000
Subject: [PATCH 21/55] fix: do not let user information replace the subject of
 a token

---
 src/oidcop/oauth2/introspection.py | 3 ++-
 src/oidcop/session/grant.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index c37c43b..6b9e4e9 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -124,7 +124,8 @@ class Introspection(Endpoint):
                 _session_info["user_id"], _claims_restriction
             )
             if user_info:
-                _resp.update(user_info)
+                # User information never replaces what the token is about
+                _resp.update({k: v for k, v in user_info.items() if k not in _resp})
 
         _resp["active"] = True
 
diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index 9398754..3ea6e8c 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -239,7 +239,8 @@ class Grant(Item):
         )
         user_id, _, _ = endpoint_context.session_manager.decrypt_session_id(session_id)
         user_info = endpoint_context.claims_interface.get_user_claims(user_id, _claims_restriction)
-        payload.update(user_info)
+        # User information never replaces what the token is about
+        payload.update({k: v for k, v in user_info.items() if k not in payload})
 
         # Should I add the acr value
         if self.add_acr_value(claims_release_point):
-- 
2.43.0


From 1adef85cb64c9393b63212cd5bc56c14775ec892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:22 +0000
Subject: [PATCH 22/55] fix: one relying party failing must not stop a logout

---
 src/oidcop/oidc/session.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 79a7f9d..f4b2db4 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -408,12 +408,17 @@ class Session(Endpoint):
                 _url, sjwt = spec
                 logger.info("logging out from {} at {}".format(_cid, _url))
 
-                res = _context.httpc.post(
-                    _url,
-                    data="logout_token={}".format(sjwt),
-                    headers={"Content-Type": "application/x-www-form-urlencoded"},
-                    **_context.httpc_params,
-                )
+                try:
+                    res = _context.httpc.post(
+                        _url,
+                        data="logout_token={}".format(sjwt),
+                        headers={"Content-Type": "application/x-www-form-urlencoded"},
+                        **_context.httpc_params,
+                    )
+                except Exception as err:
+                    # One failing relying party must not keep the others from being notified
+                    logger.error("failed to logout from {}: {}".format(_cid, err))
+                    continue
 
                 if res.status_code < 300:
                     logger.info("Logged out from {}".format(_cid))
-- 
2.43.0


From c6387f58e1096a166475858888b1dc3c4e39cb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 23/55] fix: logging out from all clients ends all the sessions
 of the user

---
 src/oidcop/oidc/session.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index f4b2db4..7e51b1e 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -167,6 +167,7 @@ class Session(Endpoint):
         fc_iframes = {}
         _rel_sid = []
         for _client_id in _session_info["user_session_info"].subordinate:
+            _rel_sid.append(_mngr.encrypted_session_id(_user_id, _client_id))
             # I prefer back-channel. Should it be configurable ?
             if "backchannel_logout_uri" in _cdb[_client_id]:
                 _cli = _mngr.get([_user_id, _client_id])
@@ -177,11 +178,10 @@ class Session(Endpoint):
                         continue
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
-                        _rel_sid.append(idt.session_id)
                         _spec = self.do_back_channel_logout(_cdb[_client_id], idt.session_id)
                         if _spec:
                             bc_logouts[_client_id] = _spec
-                        break
+                            break
             elif "frontchannel_logout_uri" in _cdb[_client_id]:
                 _cli = _mngr.get([_user_id, _client_id])
                 for gid in _cli.subordinate:
@@ -191,15 +191,15 @@ class Session(Endpoint):
                         continue
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
-                        _rel_sid.append(idt.session_id)
                         # Construct an IFrame
                         _spec = do_front_channel_logout_iframe(
                             _cdb[_client_id], _iss, idt.session_id
                         )
                         if _spec:
                             fc_iframes[_client_id] = _spec
-                        break
+                            break
 
+        # All of them, also the sessions of clients that there is no way of notifying
         self.clean_sessions(_rel_sid)
 
         res = {}
-- 
2.43.0


From baa112aa56c9748b09ace651eda147a4743000bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 24/55] fix: a failed client registration leaves nothing behind

---
 src/oidcop/oidc/registration.py | 46 ++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 529664a..80f72dd 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -339,6 +339,9 @@ class Registration(Endpoint):
             # res = None
             raise InvalidSectorIdentifier("Couldn't read from sector_identifier_uri")
 
+        if res.status_code != 200:
+            raise InvalidSectorIdentifier("Couldn't read from sector_identifier_uri")
+
         try:
             si_redirects = json.loads(res.text)
         except ValueError:
@@ -382,6 +385,18 @@ class Registration(Endpoint):
 
         return client_secret
 
+    @staticmethod
+    def remove_registration(client_id, context):
+        """
+        Remove what a failed registration has left behind.
+        """
+        del context.cdb[client_id]
+        for _rat, _cid in list(context.registration_access_token.items()):
+            if _cid == client_id:
+                del context.registration_access_token[_rat]
+        if client_id in context.keyjar:
+            del context.keyjar[client_id]
+
     def client_registration_setup(self, request, new_id=True, set_secret=True):
         try:
             request.verify()
@@ -434,18 +449,25 @@ class Registration(Endpoint):
         logger.debug("Stored client info in CDB under cid={}".format(client_id))
 
         _context.cdb[client_id] = _cinfo
-        _cinfo = self.do_client_registration(
-            request,
-            client_id,
-            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
-        )
-        if isinstance(_cinfo, ResponseMessage):
-            return _cinfo
-
-        args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
-
-        comb_uri(args)
-        response = self.response_cls(**args)
+        try:
+            _cinfo = self.do_client_registration(
+                request,
+                client_id,
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+            )
+            if isinstance(_cinfo, ResponseMessage):
+                if new_id:
+                    self.remove_registration(client_id, _context)
+                return _cinfo
+
+            args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
+
+            comb_uri(args)
+            response = self.response_cls(**args)
+        except Exception:
+            if new_id:
+                self.remove_registration(client_id, _context)
+            raise
 
         # Add the client_secret as a symmetric key to the key jar
         if client_secret:
-- 
2.43.0


From 721d64e73c92894feabaaadaaee724fc2fbff78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 25/55] fix: read the documented allowed_scopes and
 scopes_to_claims configuration

---
 src/oidcop/configure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/configure.py b/src/oidcop/configure.py
index 06332d2..7f4cd83 100755
--- a/src/oidcop/configure.py
+++ b/src/oidcop/configure.py
@@ -95,6 +95,7 @@ class EntityConfiguration(Base):
     uris = ["issuer", "base_url"]
     parameter = {
         "add_on": None,
+        "allowed_scopes": None,
         "authz": None,
         "authentication": None,
         "base_url": "",
@@ -106,6 +107,7 @@ class EntityConfiguration(Base):
         "httpc_params": {},
         "issuer": "",
         "keys": None,
+        "scopes_to_claims": {},
         "session_params": None,
         "template_dir": None,
         "token_handler_args": {},
@@ -165,7 +167,6 @@ class OPConfiguration(EntityConfiguration):
             "login_hint2acrs": {},
             "login_hint_lookup": None,
             "sub_func": {},
-            "scopes_to_claims": {},
         }
     )
 
-- 
2.43.0


From cc31b635e84bff078c2898403ff9fca625760ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 26/55] fix: sign the timestamp and the value of a cookie
 unambiguously

---
 src/oidcop/cookie_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index 02f37c3..d2ee922 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -109,7 +109,7 @@ class CookieHandler:
 
         if self.sign_key:
             signer = HMACSigner(algorithm=self.sign_alg)
-            mac = signer.sign(bytes_load + bytes_timestamp, self.sign_key.key)
+            mac = signer.sign(b"|".join([bytes_timestamp, bytes_load]), self.sign_key.key)
         else:
             mac = b""
 
@@ -161,7 +161,7 @@ class CookieHandler:
             mac = base64.b64decode(b64_mac)
             verifier = HMACSigner(algorithm=self.sign_alg)
             if verifier.verify(
-                    payload.encode("utf-8") + timestamp.encode("utf-8"),
+                    f"{timestamp}|{payload}".encode("utf-8"),
                     mac,
                     self.sign_key.key,
             ):
@@ -186,7 +186,7 @@ class CookieHandler:
             if len(p) == 3:
                 verifier = HMACSigner(algorithm=self.sign_alg)
                 if verifier.verify(
-                        payload.encode("utf-8") + timestamp.encode("utf-8"),
+                        f"{timestamp}|{payload}".encode("utf-8"),
                         base64.b64decode(p[2]),
                         self.sign_key.key,
                 ):
-- 
2.43.0


From a9c122cd69b772437c8357273ba1354de30e4992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:19 +0000
Subject: [PATCH 27/55] fix: a request object passed by value must use an
 allowed algorithm

---
 src/oidcop/oauth2/authorization.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 52bfc05..688b1d4 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -469,6 +469,17 @@ class Authorization(Endpoint):
                 request, error="invalid_request", error_description="client_id mismatch"
             )
 
+        _ver_request = request.get(verified_claim_name("request"))
+        if _ver_request is not None and _ver_request.jws_header is not None:
+            try:
+                self.allowed_request_algorithms(
+                    client_id, endpoint_context, _ver_request.jws_header.get("alg"), "sign"
+                )
+            except ValueError as err:
+                return self.authentication_error_response(
+                    request, error="invalid_request_object", error_description="{}".format(err)
+                )
+
         # Is the asked for response_type among those that are permitted
         if not self.verify_response_type(request, _cinfo):
             return self.authentication_error_response(
-- 
2.43.0


From 9f319f1efd9e053a147464c557be7ba6f2b04457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:53 +0000
Subject: [PATCH 28/55] fix: an ID Token hint decides for whom a session can be
 reused

---
 src/oidcop/oauth2/authorization.py |  4 ++++
 src/oidcop/oidc/authorization.py   | 11 +++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 688b1d4..c90b88a 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -705,6 +705,10 @@ class Authorization(Endpoint):
                         return self._authenticate(redirect_uri, request, authn, authn_args)
 
                     grant = _mngr[_session_id]
+                    if "req_sub" in kwargs and grant.sub != kwargs["req_sub"]:
+                        logger.debug("Wanted to be someone else!")
+                        return self._authenticate(redirect_uri, request, authn, authn_args)
+
                     if grant.is_active() is False:
                         return self._authenticate(redirect_uri, request, authn, authn_args)
                     elif request != grant.authorization_request:
diff --git a/src/oidcop/oidc/authorization.py b/src/oidcop/oidc/authorization.py
index fb4d73e..786f947 100755
--- a/src/oidcop/oidc/authorization.py
+++ b/src/oidcop/oidc/authorization.py
@@ -12,9 +12,12 @@ logger = logging.getLogger(__name__)
 
 
 def proposed_user(request):
-    cn = verified_claim_name("it_token_hint")
-    if request.get(cn):
-        return request[cn].get("sub", "")
+    """
+    The subject identifier in the ID Token that was provided as a hint, if any.
+    """
+    for cn in [verified_claim_name("id_token_hint"), "verified_id_token_hint"]:
+        if request.get(cn):
+            return request[cn].get("sub", "")
     return ""
 
 
@@ -104,7 +107,7 @@ class Authorization(authorization.Authorization):
 
     def do_request_user(self, request_info, **kwargs):
         if proposed_user(request_info):
-            kwargs["req_user"] = proposed_user(request_info)
+            kwargs["req_sub"] = proposed_user(request_info)
         else:
             _login_hint = request_info.get("login_hint")
             if _login_hint:
-- 
2.43.0


From 27881a80cfa696be6d03225b0d58719799609ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:40 +0000
Subject: [PATCH 29/55] fix: ignore client metadata that a client has no say in

---
 src/oidcop/oidc/registration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 80f72dd..4d336ec 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -176,8 +176,10 @@ class Registration(Endpoint):
         _cinfo = _context.cdb[client_id].copy()
         logger.debug("_cinfo: %s" % sanitize(_cinfo))
 
+        # Metadata that isn't understood is ignored. Specifically a client can not choose
+        # its credentials or the policies that apply to it.
         for key, val in request.items():
-            if key not in ignore:
+            if key not in ignore and key in self.request_cls.c_param:
                 _cinfo[key] = val
 
         _uri = request.get("post_logout_redirect_uri")
-- 
2.43.0


From e5319d0953ea2e69f65287fe19e2499088fce28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:17 +0000
Subject: [PATCH 30/55] fix: bind an OAuth2 access token to the key proven with
 DPoP

The OAuth2 access token helper ignored the proven key: the token it
issued was an ordinary bearer token bound to nothing, while refreshing
the same grant bound the tokens. Do as the OIDC helper does.
---
 src/oidcop/oauth2/token.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index bb0f464..f21fbd6 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -129,6 +129,15 @@ class AccessTokenHelper(TokenEndpointHelper):
             grant_types_supported = _context.provider_info["grant_types_supported"]
         grant = _session_info["grant"]
 
+        token_type = "Bearer"
+
+        # Is DPOP supported
+        if "dpop_signing_alg_values_supported" in _context.provider_info:
+            _dpop_jkt = req.get("dpop_jkt")
+            if _dpop_jkt:
+                grant.extra["dpop_jkt"] = _dpop_jkt
+                token_type = "DPoP"
+
         _based_on = grant.get_token(_access_code)
         _supports_minting = _based_on.usage_rules.get("supports_minting", [])
 
@@ -146,7 +155,7 @@ class AccessTokenHelper(TokenEndpointHelper):
 
         issue_refresh = kwargs.get("issue_refresh", False)
         _response = {
-            "token_type": "Bearer",
+            "token_type": token_type,
             "scope": grant.scope,
         }
 
@@ -158,6 +167,7 @@ class AccessTokenHelper(TokenEndpointHelper):
                     session_id=_session_info["session_id"],
                     client_id=_session_info["client_id"],
                     based_on=_based_on,
+                    token_type=token_type,
                 )
             except MintingNotAllowed as err:
                 logger.warning(err)
-- 
2.43.0


From 50d5512fb20d10a27a6b310f23bbe9b46f74ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:49 +0000
Subject: [PATCH 31/55] fix: announce and report the expiry a JWT token is held
 to

A JWT carries its own expiration. Where the usage rules give none the
lifetime of the token handler was written into the token but the session
database knew nothing of it, so the token response announced another
lifetime (or none) and introspection reported exp 0.
---
 src/oidcop/oauth2/token.py    |  4 +++-
 src/oidcop/session/grant.py   |  5 +++++
 src/oidcop/token/__init__.py  |  9 +++++++++
 src/oidcop/token/jwt_token.py | 11 ++++++-----
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index f21fbd6..7297194 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -89,7 +89,9 @@ class TokenEndpointHelper(object):
                 _exp_in = int(_exp_in)
 
             if _exp_in:
-                token.expires_at = utc_time_sans_frac() + _exp_in
+                _expires_at = utc_time_sans_frac() + _exp_in
+                if not token.expires_at or _expires_at < token.expires_at:
+                    token.expires_at = _expires_at
 
         _mngr.set(_mngr.decrypt_session_id(session_id), grant)
 
diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index 3ea6e8c..2b04994 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -348,6 +348,11 @@ class Grant(Item):
                 session_id=session_id, usage_rules=usage_rules, **token_payload
             )
 
+            # A token that itself says when it expires is not usable after that
+            _lifetime = token_handler.enforced_lifetime(usage_rules)
+            if _lifetime:
+                item.set_expires_at(_lifetime)
+
         else:
             raise ValueError("Can not mint that kind of token")
 
diff --git a/src/oidcop/token/__init__.py b/src/oidcop/token/__init__.py
index b1de26f..ca1ac3f 100755
--- a/src/oidcop/token/__init__.py
+++ b/src/oidcop/token/__init__.py
@@ -52,6 +52,15 @@ class Token(object):
         """
         raise NotImplementedError()
 
+    def enforced_lifetime(self, usage_rules: Optional[dict] = None) -> int:
+        """
+        How long a token lives according to what is written into the token itself.
+
+        :param usage_rules: The usage rules the token is minted with
+        :return: Number of seconds, 0 if nothing in the token limits its lifetime
+        """
+        return 0
+
     def info(self, token):
         """
         Return dictionary with token information.
diff --git a/src/oidcop/token/jwt_token.py b/src/oidcop/token/jwt_token.py
index af59b25..3258f2c 100644
--- a/src/oidcop/token/jwt_token.py
+++ b/src/oidcop/token/jwt_token.py
@@ -45,6 +45,11 @@ class JWTToken(Token):
         # inherit me and do your things here
         return payload
 
+    def enforced_lifetime(self, usage_rules: Optional[dict] = None) -> int:
+        if usage_rules and "expires_in" in usage_rules:
+            return usage_rules.get("expires_in")
+        return self.lifetime
+
     def __call__(
         self,
         session_id: Optional[str] = "",
@@ -71,14 +76,10 @@ class JWTToken(Token):
 
         # payload.update(kwargs)
         _context = self.server_get("endpoint_context")
-        if usage_rules and "expires_in" in usage_rules:
-            lifetime = usage_rules.get("expires_in")
-        else:
-            lifetime = self.lifetime
         signer = JWT(
             key_jar=_context.keyjar,
             iss=self.issuer,
-            lifetime=lifetime,
+            lifetime=self.enforced_lifetime(usage_rules),
             sign_alg=self.alg,
         )
 
-- 
2.43.0


From b9784e146cd2736b8b67682421e39c5841dbea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 32/55] fix: sign with the client's secret when its registered
 algorithm is symmetric

---
 src/oidcop/oidc/session.py   | 4 +++-
 src/oidcop/oidc/userinfo.py  | 5 ++++-
 src/oidcop/token/id_token.py | 5 ++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 7e51b1e..6a77878 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -137,7 +137,9 @@ class Session(Endpoint):
 
         _jws = JWT(_context.keyjar, iss=_context.issuer, lifetime=86400, sign_alg=alg)
         _jws.with_jti = True
-        _logout_token = _jws.pack(payload=payload, recv=cinfo["client_id"])
+        # A symmetric key is the one shared with the client
+        _owner = cinfo["client_id"] if alg2keytype(alg) == "oct" else ""
+        _logout_token = _jws.pack(payload=payload, issuer_id=_owner, recv=cinfo["client_id"])
 
         return back_channel_logout_uri, _logout_token
 
diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 53bb676..e6ef602 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -6,6 +6,7 @@ from typing import Optional
 from typing import Union
 
 from cryptojwt.exception import MissingValue
+from cryptojwt.jws.utils import alg2keytype
 from cryptojwt.jwt import JWT
 from cryptojwt.jwt import utc_time_sans_frac
 from oidcmsg import oidc
@@ -94,7 +95,9 @@ class UserInfo(Endpoint):
                 enc_alg=enc_alg,
             )
 
-            resp = _jwt.pack(response_args, recv=client_id)
+            # A symmetric key is the one shared with the client
+            _owner = client_id if alg2keytype(sign_alg) == "oct" else ""
+            resp = _jwt.pack(response_args, issuer_id=_owner, recv=client_id)
             content_type = "application/jwt"
         else:
             if isinstance(response_args, dict):
diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index e690d31..1104f70 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -3,6 +3,7 @@ from typing import Callable
 from typing import Optional
 
 from cryptojwt.jws.jws import factory
+from cryptojwt.jws.utils import alg2keytype
 from cryptojwt.jws.utils import left_hash
 from cryptojwt.jwt import JWT
 
@@ -256,7 +257,9 @@ class IDToken(Token):
 
         _jwt = JWT(_context.keyjar, iss=_context.issuer, lifetime=lifetime, **alg_dict)
 
-        return _jwt.pack(_payload, recv=client_id)
+        # A symmetric key is the one shared with the client
+        _owner = client_id if alg2keytype(alg_dict["sign_alg"]) == "oct" else ""
+        return _jwt.pack(_payload, issuer_id=_owner, recv=client_id)
 
     def __call__(
         self,
-- 
2.43.0


From fd34c533a433f9b1387b4fe01642a7f04a26ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 33/55] fix: an acr Claim asked for without a value does not
 stop the login

---
 src/oidcop/user_authn/authn_context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/user_authn/authn_context.py b/src/oidcop/user_authn/authn_context.py
index 8aa94df..32b5290 100755
--- a/src/oidcop/user_authn/authn_context.py
+++ b/src/oidcop/user_authn/authn_context.py
@@ -114,6 +114,9 @@ def _acr_claim(request):
         _id_token_claim = _claims.get("id_token")
         if _id_token_claim:
             _acr = _id_token_claim.get("acr")
+            if not _acr:
+                # asked for, but not for any specific value
+                return None
             if "value" in _acr:
                 return [_acr["value"]]
             elif "values" in _acr:
-- 
2.43.0


From 6f633ff16502454fad699887777f208e15bc9fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 34/55] fix: an ACR nobody supports ends in an error response
 with state

---
 src/oidcop/oauth2/authorization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index c90b88a..cb2cde3 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -519,12 +519,15 @@ class Authorization(Endpoint):
         if res:
             return res
         else:
-            return {
+            _res = {
                 "error": "access_denied",
                 "error_description": "ACR I do not support",
                 "return_uri": redirect_uri,
                 "return_type": request["response_type"],
             }
+            if request.get("state"):
+                _res["state"] = request["state"]
+            return _res
 
     def subject_args(self, client_id):
         """
@@ -633,6 +636,8 @@ class Authorization(Endpoint):
         """
 
         res = self.pick_authn_method(request, redirect_uri, acr, **kwargs)
+        if "error" in res:
+            return res
 
         authn = res["method"]
         authn_class_ref = res["acr"]
-- 
2.43.0


From 2f47f6d69472d897629e9809692e29301837eb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 35/55] fix: a login page token must be the provider's own

---
 src/oidcop/user_authn/user.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 9e54e3a..63da48d 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -84,7 +84,12 @@ class UserAuthnMethod(object):
         raise NotImplementedError
 
     def unpack_token(self, token):
-        return verify_signed_jwt(token=token, keyjar=self.server_get("endpoint_context").keyjar)
+        _context = self.server_get("endpoint_context")
+        _info = verify_signed_jwt(token=token, keyjar=_context.keyjar)
+        # The key jar also has the clients' keys
+        if _info["iss"] != _context.issuer:
+            raise FailedAuthentication("Not a token I have issued")
+        return _info
 
     def done(self, areq):
         """
-- 
2.43.0


From fb3655ede258f7e565d504704ae9354dbbd325ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 36/55] fix: a login_hint at nobody does not stop the login

---
 src/oidcop/login_hint.py         | 2 +-
 src/oidcop/oidc/authorization.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/login_hint.py b/src/oidcop/login_hint.py
index 904a64a..f7852cc 100644
--- a/src/oidcop/login_hint.py
+++ b/src/oidcop/login_hint.py
@@ -10,7 +10,7 @@ class LoginHintLookup(object):
     def __call__(self, arg):
         if arg.startswith("tel:"):
             _pnr = arg[4:]
-            if _pnr[0] == "+":
+            if _pnr.startswith("+"):
                 pass
             else:
                 _pnr = "+" + self.default_country_code + _pnr[1:]
diff --git a/src/oidcop/oidc/authorization.py b/src/oidcop/oidc/authorization.py
index 786f947..917fd30 100755
--- a/src/oidcop/oidc/authorization.py
+++ b/src/oidcop/oidc/authorization.py
@@ -113,5 +113,9 @@ class Authorization(authorization.Authorization):
             if _login_hint:
                 _context = self.server_get("endpoint_context")
                 if _context.login_hint_lookup:
-                    kwargs["req_user"] = _context.login_hint_lookup(_login_hint)
+                    try:
+                        kwargs["req_user"] = _context.login_hint_lookup(_login_hint)
+                    except KeyError:
+                        # Hints at someone who isn't among the users
+                        kwargs["req_user"] = ""
         return kwargs
-- 
2.43.0


From d869f68d0a4ebb5b88b30cf189bd35b4ebba8b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 37/55] fix: an essential acr is not met by a session with a
 weaker login

---
 src/oidcop/oauth2/authorization.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index cb2cde3..27ca459 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -37,6 +37,7 @@ from oidcop.exception import ToOld
 from oidcop.exception import UnAuthorizedClientScope
 from oidcop.exception import UnknownClient
 from oidcop.session import Revoked
+from oidcop.session.claims import claims_match
 from oidcop.token.exception import UnknownToken
 from oidcop.user_authn.authn_context import pick_auth
 from oidcop.util import split_uri
@@ -604,6 +605,21 @@ class Authorization(Endpoint):
 
         return utc_time_sans_frac() > authn_event["authn_time"] + int(_max_age)
 
+    def too_weak(self, request, authn_event) -> bool:
+        """
+        Whether the request demands, by way of the essential Claim acr (section 5.5.1.1 in
+        OpenID Connect Core), another kind of authentication than the one that was done.
+
+        :param request: The authorization request
+        :param authn_event: The authentication event of the session
+        """
+        _claims = (request.get("claims") or {}).get("id_token") or {}
+        _acr = _claims.get("acr")
+        if not _acr or not _acr.get("essential"):
+            return False
+
+        return not claims_match(authn_event["authn_info"], _acr)
+
     def _unwrap_identity(self, identity):
         if isinstance(identity, dict):
             try:
@@ -678,6 +694,9 @@ class Authorization(Endpoint):
                         elif self.too_old(request, _csi.authentication_event):
                             logger.info("Too old authentication")
                             identity = None
+                        elif self.too_weak(request, _csi.authentication_event):
+                            logger.info("Not the kind of authentication asked for")
+                            identity = None
 
         authn_args = authn_args_gather(request, authn_class_ref, cinfo, **kwargs)
         _mngr = _context.session_manager
-- 
2.43.0


From e018c63a8b055121fd0c4fec5dec7b3f31e7510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:34 +0000
Subject: [PATCH 38/55] fix: private-use redirect schemes make sectors of their
 own

---
 src/oidcop/oauth2/authorization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 27ca459..4606d35 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -542,9 +542,11 @@ class Authorization(Endpoint):
             if not isinstance(_uri, str):
                 _uri = _uri[0]
 
+        _parts = urlparse(_uri or "")
         return {
             "sub_type": cinfo.get("subject_type") or "public",
-            "sector_identifier": urlparse(_uri).netloc if _uri else "",
+            # Private-use schemes have no host
+            "sector_identifier": _parts.netloc or _parts.scheme,
         }
 
     def create_session(self, request, user_id, acr, time_stamp, authn_method):
-- 
2.43.0


From 56bda1a2742ee8d8034c441ab1771a82855e9ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:02 +0000
Subject: [PATCH 39/55] fix: state is added to a post-logout URI that has a
 query part

---
 src/oidcop/oidc/session.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 6a77878..3e00699 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -332,7 +332,9 @@ class Session(Endpoint):
 
         # redirect user to OP logout verification page
         if plur and "state" in request:
-            _uri = "{}?{}".format(_uri, urlencode({"state": request["state"]}))
+            # The registered URI may have a query part already
+            _sep = "&" if "?" in _uri else "?"
+            _uri = "{}{}{}".format(_uri, _sep, urlencode({"state": request["state"]}))
             payload["state"] = request["state"]
 
         payload["redirect_uri"] = _uri
-- 
2.43.0


From 6e7ad92f2552d9e0b654be4f31b6926c27bac7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:47 +0000
Subject: [PATCH 40/55] fix: a registered front-channel logout URI can not
 inject markup

---
 src/oidcop/oidc/session.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 3e00699..47326aa 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -1,3 +1,4 @@
+import html
 import json
 import logging
 from typing import Optional
@@ -65,10 +66,10 @@ def do_front_channel_logout_iframe(cinfo, iss, sid):
 
         logger.debug(f"IFrame query: {_query}")
         _iframe = '<iframe src="{}?{}">'.format(
-            frontchannel_logout_uri, urlencode(_query, doseq=True)
+            html.escape(frontchannel_logout_uri), urlencode(_query, doseq=True)
         )
     else:
-        _iframe = '<iframe src="{}">'.format(frontchannel_logout_uri)
+        _iframe = '<iframe src="{}">'.format(html.escape(frontchannel_logout_uri))
 
     return _iframe
 
-- 
2.43.0


From b13f29c983d16a1347edad06a572a3621609e1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:29 +0000
Subject: [PATCH 41/55] fix: a DPoP proof stands for the key that signed it

---
 src/oidcop/oauth2/add_on/dpop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index 472c5ea..d500bcb 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -71,10 +71,11 @@ class DPoPProof(Message):
                 _pub_key = key_from_jwk_dict(_jwt.headers["jwk"])
                 _pub_key.deserialize()
                 _info = _jws.verify_compact(keys=[_pub_key], sigalg=_jwt.headers["alg"])
-                for k, v in _jwt.headers.items():
+                for k, v in _info.items():
                     self[k] = v
 
-                for k, v in _info.items():
+                # The signing key is the one in the header whatever the body contains
+                for k, v in _jwt.headers.items():
                     self[k] = v
             else:
                 raise Exception()
-- 
2.43.0


From 76a9ca81c49a153aa3950e1924ac8a16bef7ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:39 +0000
Subject: [PATCH 42/55] fix: DPoP proofs of another type or with an unsupported
 algorithm are refused

---
 src/oidcop/oauth2/add_on/dpop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index d500bcb..dee56f4 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -106,6 +106,11 @@ def post_parse_request(request, client_id, endpoint_context, **kwargs):
     # The signature of the JWS is verified, now for checking the
     # content
 
+    _dpop.verify()
+
+    if _dpop["alg"] not in endpoint_context.provider_info["dpop_signing_alg_values_supported"]:
+        raise ValueError("Signing algorithm of the DPoP proof is not supported")
+
     if _dpop["htu"] != _http_info["url"]:
         raise ValueError("htu in DPoP does not match the HTTP URI")
 
-- 
2.43.0


From 620d00d56f206074f0979857536783e08a3e1e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:13 +0000
Subject: [PATCH 43/55] fix: a sector identifier document must be a list

---
 src/oidcop/oidc/registration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 4d336ec..0268275 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -349,6 +349,9 @@ class Registration(Endpoint):
         except ValueError:
             raise InvalidSectorIdentifier("Error deserializing sector_identifier_uri content")
 
+        if not isinstance(si_redirects, list):
+            raise InvalidSectorIdentifier("sector_identifier_uri content is not a list")
+
         if "redirect_uris" in request:
             logger.debug("redirect_uris: %s", request["redirect_uris"])
             for uri in request["redirect_uris"]:
-- 
2.43.0


From d685a53ee45b675b9bf31b9617eea04fe3070fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:46 +0000
Subject: [PATCH 44/55] fix: no redirect URI may have a fragment

---
 src/oidcop/oidc/registration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 0268275..02364f3 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -287,6 +287,9 @@ class Registration(Endpoint):
         for uri in registration_request["redirect_uris"]:
             _custom = False
             p = urlparse(uri)
+            if p.fragment:
+                raise InvalidRedirectURIError("redirect_uri contains fragment")
+
             if client_type == "native":
                 if p.scheme not in ["http", "https"]:  # Custom scheme
                     _custom = True
@@ -307,8 +310,6 @@ class Registration(Endpoint):
             elif p.scheme not in ["http", "https"]:
                 # Custom scheme
                 raise InvalidRedirectURIError("Custom redirect_uri not allowed for web client")
-            elif p.fragment:
-                raise InvalidRedirectURIError("redirect_uri contains fragment")
 
             if _custom:  # Can not verify a custom scheme
                 verified_redirect_uris.append((uri, {}))
-- 
2.43.0


From a0bc8d1341b32ce9a427f66d09e7206bae0bc48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:02 +0000
Subject: [PATCH 45/55] fix: a registration with unusable keys is refused

---
 src/oidcop/oidc/registration.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 02364f3..d69db69 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -265,6 +265,18 @@ class Registration(Endpoint):
         # just silently fail. Waiting for better times.
         _context.keyjar.load_keys(client_id, jwks_uri=t["jwks_uri"], jwks=t["jwks"])
 
+        # Keys that lack necessary parts can neither be used nor be exported
+        if t["jwks"]:
+            try:
+                for key in _context.keyjar.get_issuer_keys(client_id):
+                    key.serialize()
+            except Exception as err:
+                logger.error("Unusable key: %r", err)
+                return self.error_cls(
+                    error="invalid_configuration_parameter",
+                    error_description="jwks contains unusable keys",
+                )
+
         n_keys = 0
         for kb in _context.keyjar.get(client_id, []):
             n_keys += len(kb.keys())
-- 
2.43.0


From d115b817dcf03bac88717da5a151a737008cc5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:13 +0000
Subject: [PATCH 46/55] fix: a request behind a request_uri is verified as any
 other request

Pushed requests and requests passed by reference were never checked as
authorization requests. An id_token_hint in them was neither verified nor
honoured and a missing nonce, openid scope or consent prompt went unnoticed.
---
 src/oidcop/oauth2/authorization.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 4606d35..138c920 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -15,6 +15,8 @@ from cryptojwt.jws.exception import NoSuitableSigningKeys
 from cryptojwt.utils import as_bytes
 from cryptojwt.utils import b64e
 from oidcmsg import oauth2
+from oidcmsg.exception import MissingRequiredAttribute
+from oidcmsg.exception import MissingRequiredValue
 from oidcmsg.exception import ParameterError
 from oidcmsg.exception import URIError
 from oidcmsg.message import Message
@@ -374,6 +376,22 @@ class Authorization(Endpoint):
 
         return token
 
+    def _verify_resolved(self, request, client_id, endpoint_context):
+        """
+        A request that a request_uri stands for has to be as correct as one that was sent
+        directly to this endpoint.
+        """
+        # Has already been unpacked
+        if "request" in request:
+            del request["request"]
+
+        try:
+            request.verify(keyjar=endpoint_context.keyjar, opponent_id=client_id)
+        except (MissingRequiredAttribute, ValueError, MissingRequiredValue) as err:
+            return self.process_verify_error(err)
+
+        return request
+
     def _do_request_uri(self, request, client_id, endpoint_context, **kwargs):
         _request_uri = request.get("request_uri")
         if _request_uri:
@@ -388,7 +406,8 @@ class Authorization(Endpoint):
                         # One time usage
                         del endpoint_context.par_db[_request_uri]
                         if utc_time_sans_frac() <= _pushed["expires_at"]:
-                            return self.request_cls(**_pushed["request"])
+                            request = self.request_cls(**_pushed["request"])
+                            return self._verify_resolved(request, client_id, endpoint_context)
 
                     raise ValueError("Got a request_uri I can not resolve")
 
@@ -433,7 +452,9 @@ class Authorization(Endpoint):
                 for k, v in _ver_request.items():
                     request[k] = v
 
-                request[verified_claim_name("request")] = _ver_request
+                request = self._verify_resolved(request, client_id, endpoint_context)
+                if not isinstance(request, self.error_cls):
+                    request[verified_claim_name("request")] = _ver_request
             else:
                 raise ServiceError("Got a %s response", _resp.status_code)
 
-- 
2.43.0


From 1f0ab33cb9e3537e003c777db3dfdc4f4074099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:08 +0000
Subject: [PATCH 47/55] fix: a request object must be signed by the client it
 is used by

The keys it was verified with are those of whoever the object says is its
issuer, so another client could sign it. By value it could also be no JWS at
all.
---
 src/oidcop/oauth2/authorization.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 138c920..c9dcadd 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -376,6 +376,18 @@ class Authorization(Endpoint):
 
         return token
 
+    def _verify_request_object(self, request_object, client_id, endpoint_context):
+        """
+        Verify that it was the client that signed the request object.
+        """
+        # The keys that were used are those of the issuer
+        if request_object.get("iss", client_id) != client_id:
+            raise ValueError("Request object issued by someone else")
+
+        # Not a JWS is as good as not signed
+        _header = request_object.jws_header or {"alg": "none"}
+        self.allowed_request_algorithms(client_id, endpoint_context, _header.get("alg"), "sign")
+
     def _verify_resolved(self, request, client_id, endpoint_context):
         """
         A request that a request_uri stands for has to be as correct as one that was sent
@@ -429,12 +441,7 @@ class Authorization(Endpoint):
             if _resp.status_code == 200:
                 args = {"keyjar": endpoint_context.keyjar, "issuer": client_id}
                 _ver_request = self.request_cls().from_jwt(_resp.text, **args)
-                self.allowed_request_algorithms(
-                    client_id,
-                    endpoint_context,
-                    _ver_request.jws_header.get("alg", "RS256"),
-                    "sign",
-                )
+                self._verify_request_object(_ver_request, client_id, endpoint_context)
                 if _ver_request.jwe_header is not None:
                     self.allowed_request_algorithms(
                         client_id,
@@ -492,11 +499,9 @@ class Authorization(Endpoint):
             )
 
         _ver_request = request.get(verified_claim_name("request"))
-        if _ver_request is not None and _ver_request.jws_header is not None:
+        if _ver_request is not None:
             try:
-                self.allowed_request_algorithms(
-                    client_id, endpoint_context, _ver_request.jws_header.get("alg"), "sign"
-                )
+                self._verify_request_object(_ver_request, client_id, endpoint_context)
             except ValueError as err:
                 return self.authentication_error_response(
                     request, error="invalid_request_object", error_description="{}".format(err)
-- 
2.43.0


From 2bf9f46bea22b04f7c803787cafd70cf086005e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:44 +0000
Subject: [PATCH 48/55] fix: an encrypted request object behind a request_uri
 could not be used

The encryption algorithms are in the JWE header, not in that of the JWS.
---
 src/oidcop/oauth2/authorization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index c9dcadd..13e40da 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -446,13 +446,13 @@ class Authorization(Endpoint):
                     self.allowed_request_algorithms(
                         client_id,
                         endpoint_context,
-                        _ver_request.jws_header.get("alg"),
+                        _ver_request.jwe_header.get("alg"),
                         "enc_alg",
                     )
                     self.allowed_request_algorithms(
                         client_id,
                         endpoint_context,
-                        _ver_request.jws_header.get("enc"),
+                        _ver_request.jwe_header.get("enc"),
                         "enc_enc",
                     )
                 # The protected info overwrites the non-protected
-- 
2.43.0


From 89d787550839c6f84eb9a5fe31f5e68c837c22df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:07 +0000
Subject: [PATCH 49/55] fix: a user name that happens to be base64 was taken
 for a wrapped identity

Someone called 'anna' could not be recognized by the cookie, and a name that
is the encoding of a JSON object could make the user someone else.
---
 src/oidcop/oauth2/authorization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 13e40da..7175da1 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -650,6 +650,9 @@ class Authorization(Endpoint):
 
     def _unwrap_identity(self, identity):
         if isinstance(identity, dict):
+            # A wrapped identity is bytes, a string is just the name of a user
+            if isinstance(identity["uid"], str):
+                return identity
             try:
                 _id = b64d(as_bytes(identity["uid"]))
             except BadSyntax:
-- 
2.43.0


From 2cd0cbd4c49de0590bcabe715c382a0c8743ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:04 +0000
Subject: [PATCH 50/55] fix: a user name or client id may contain what divides
 a session path

The sessions of a user called 'diana;;client_1' were mixed up with those of
diana at client_1.
---
 src/oidcop/session/database.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 8a8b203..bc6e712 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -82,17 +82,18 @@ class Database(ImpExp):
                 cid_info.add_subordinate(grant_id)
                 self.db[cid_key] = cid_info
 
-        userinfo = self.db.get(uid, UserSessionInfo())
+        uid_key = self.session_key(uid)
+        userinfo = self.db.get(uid_key, UserSessionInfo())
         if client_id is None:
-            self.db[uid] = value
+            self.db[uid_key] = value
         if client_id and client_id not in userinfo.subordinate:
             userinfo.add_subordinate(client_id)
-            self.db[uid] = userinfo
+            self.db[uid_key] = userinfo
 
     def get(self, path: List[str]) -> Union[SessionInfo, Grant]:
         uid, client_id, grant_id = self._eval_path(path)
         try:
-            user_info = self.db[uid]
+            user_info = self.db[self.session_key(uid)]
         except KeyError:
             raise KeyError("No such UserID")
         except TypeError:
@@ -134,10 +135,11 @@ class Database(ImpExp):
         """
         uid, client_id, grant_id = self._eval_path(path)
 
-        if uid not in self.db:
+        uid_key = self.session_key(uid)
+        if uid_key not in self.db:
             return
 
-        _user_info = self.db[uid]
+        _user_info = self.db[uid_key]
         if client_id:
             if client_id not in _user_info.subordinate:
                 return
@@ -169,7 +171,7 @@ class Database(ImpExp):
                 _user_info.subordinate.remove(_client_id)
 
         if not client_id or len(_user_info.subordinate) == 0:
-            self.db.__delitem__(uid)
+            self.db.__delitem__(uid_key)
 
     def update(self, path: List[str], new_info: dict):
         _info = self.get(path)
@@ -178,10 +180,11 @@ class Database(ImpExp):
         self.set(path, _info)
 
     def session_key(self, *args):
-        return DIVIDER.join(args)
+        # None of the parts may contain what divides them
+        return DIVIDER.join([p.replace("%", "%25").replace(";", "%3B") for p in args])
 
     def unpack_session_key(self, key):
-        return key.split(DIVIDER)
+        return [p.replace("%3B", ";").replace("%25", "%") for p in key.split(DIVIDER)]
 
     def encrypted_session_id(self, *args) -> str:
         rnd = rndstr(32)
-- 
2.43.0


From 2724668e55c40c8c0135c0054879ca6a3380291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:59 +0000
Subject: [PATCH 51/55] fix: a stored authorization request is the same as when
 it arrives again

What was unpacked when it was parsed is not restored as it was, so after a
restart an ID Token hint or a request object made the same request another.
---
 src/oidcop/oauth2/authorization.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 7175da1..ad8ebee 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -87,6 +87,25 @@ def inputs(form_args):
     return "\n".join(element)
 
 
+def same_request(one, two):
+    """
+    Whether two requests are the same. What was unpacked from them when they were parsed
+    does not look the same after having been stored.
+    """
+    if one is None or two is None:
+        return False
+
+    first, second = [
+        {
+            key: val
+            for key, val in req.items()
+            if not key.startswith(verified_claim_name("")) and key != "verified_id_token_hint"
+        }
+        for req in (one, two)
+    ]
+    return first == second
+
+
 def max_age(request):
     verified_request = verified_claim_name("request")
     _max_age = request.get(verified_request, {}).get("max_age")
@@ -766,7 +785,7 @@ class Authorization(Endpoint):
 
                     if grant.is_active() is False:
                         return self._authenticate(redirect_uri, request, authn, authn_args)
-                    elif request != grant.authorization_request:
+                    elif not same_request(request, grant.authorization_request):
                         authn_event = _mngr.get_authentication_event(session_id=_session_id)
                         if authn_event.is_valid() is False:  # if not valid, do new login
                             return self._authenticate(redirect_uri, request, authn, authn_args)
-- 
2.43.0


From 5f03b6fea8642146b8cfda40579bf409d6742b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:42 +0000
Subject: [PATCH 52/55] fix: session info with both the grant and the
 authentication event

---
 src/oidcop/session/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index c7927f2..fe81776 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -460,7 +460,7 @@ class SessionManager(Database):
 
         if authentication_event:
             if grant:
-                res["authentication_event"] = res["grant"]["authentication_event"]
+                res["authentication_event"] = res["grant"].authentication_event
             else:
                 _grant = self.get([_user_id, _client_id, _grant_id])
                 res["authentication_event"] = _grant.authentication_event
-- 
2.43.0


From d65f927f3973c06f38f986155a56632a3792989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:39 +0000
Subject: [PATCH 53/55] fix: an ID Token hint has to be issued by this provider

---
 src/oidcop/oidc/authorization.py | 21 +++++++++++++++++++++
 src/oidcop/oidc/session.py       |  2 ++
 2 files changed, 23 insertions(+)

diff --git a/src/oidcop/oidc/authorization.py b/src/oidcop/oidc/authorization.py
index 917fd30..daecdd6 100755
--- a/src/oidcop/oidc/authorization.py
+++ b/src/oidcop/oidc/authorization.py
@@ -103,8 +103,29 @@ class Authorization(authorization.Authorization):
         authorization.Authorization.__init__(self, server_get, **kwargs)
         # self.pre_construct.append(self._pre_construct)
         self.post_parse_request.append(self._do_request_uri)
+        self.post_parse_request.append(self._verify_id_token_hint)
         self.post_parse_request.append(self._post_parse_request)
 
+    def _verify_id_token_hint(self, request, client_id, endpoint_context, **kwargs):
+        """
+        Only an ID Token that was issued by this provider can say who the user is.
+        """
+        for cn in [verified_claim_name("id_token_hint"), "verified_id_token_hint"]:
+            _hint = request.get(cn) if request else None
+            if _hint is None:
+                continue
+
+            _alg = (getattr(_hint, "jws_header", None) or {}).get("alg")
+            _algs = endpoint_context.provider_info.get("id_token_signing_alg_values_supported") or []
+            if _hint.get("iss") != endpoint_context.issuer or _alg not in _algs:
+                return self.authentication_error_response(
+                    request,
+                    error="invalid_request",
+                    error_description="ID Token hint not issued by me",
+                )
+
+        return request
+
     def do_request_user(self, request_info, **kwargs):
         if proposed_user(request_info):
             kwargs["req_sub"] = proposed_user(request_info)
diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 47326aa..7edf976 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -395,6 +395,8 @@ class Session(Endpoint):
                     not in _context.provider_info["id_token_signing_alg_values_supported"]
                 ):
                     raise JWSException("Unsupported signing algorithm")
+                if _ith.get("iss") != _context.issuer:
+                    raise InvalidRequest("The ID Token hint was issued by someone else")
 
         return request
 
-- 
2.43.0


From 83d41bb4c42b73e0a6a93e3f62b1858fb5bfb40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:54 +0000
Subject: [PATCH 54/55] fix: supported scopes are not emptied by an OAuth2
 authorization or PAR endpoint

---
 src/oidcop/oauth2/authorization.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index ad8ebee..068d1bb 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -341,7 +341,6 @@ class Authorization(Endpoint):
         "request_object_encryption_alg_values_supported": None,
         "request_object_encryption_enc_values_supported": None,
         "grant_types_supported": ["authorization_code", "implicit"],
-        "scopes_supported": [],
     }
 
     def __init__(self, server_get, **kwargs):
-- 
2.43.0


From 9661a2505cdf84b1ffc016323b60d3569ef6f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:19 +0000
Subject: [PATCH 55/55] fix: a logout token is signed the way the ID Tokens of
 the client are

---
 src/oidcop/oidc/session.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 7edf976..f7017a6 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -30,6 +30,7 @@ from oidcop.client_authn import UnknownOrNoAuthnMethod
 from oidcop.endpoint import Endpoint
 from oidcop.endpoint_context import add_path
 from oidcop.oauth2.authorization import verify_uri
+from oidcop.token.id_token import get_sign_and_encrypt_algorithms
 
 logger = logging.getLogger(__name__)
 
@@ -131,10 +132,8 @@ class Session(Endpoint):
 
         payload = {"sid": sid, "events": {BACK_CHANNEL_LOGOUT_EVENT: {}}}
 
-        try:
-            alg = cinfo["id_token_signed_response_alg"]
-        except KeyError:
-            alg = _context.provider_info["id_token_signing_alg_values_supported"][0]
+        # Signed the same way as the ID Tokens for this client
+        alg = get_sign_and_encrypt_algorithms(_context, cinfo, "id_token", sign=True)["sign_alg"]
 
         _jws = JWT(_context.keyjar, iss=_context.issuer, lifetime=86400, sign_alg=alg)
         _jws.with_jti = True
-- 
2.43.0

