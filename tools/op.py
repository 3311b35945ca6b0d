"""A small provider for demonstrations: the real oidcop from ./src, a movable clock, a stub
for outgoing HTTP, an in-memory browser."""
import atexit
import base64
import copy
import hashlib
import json
import os
import re
import shutil
import sys
import tempfile
import time
import warnings
from urllib.parse import parse_qs
from urllib.parse import urlparse

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.join(os.getcwd(), "src"))

OFFSET = [0]


def now():
    return int(time.time()) + OFFSET[0]


def tick(seconds):
    OFFSET[0] += seconds


_real_time = time.time
BASE = int(time.time())
time.time = lambda: BASE + OFFSET[0] + 0.25


def now():  # noqa: F811
    return BASE + OFFSET[0]


import cryptojwt.jwt  # noqa: E402
import oidcmsg.time_util  # noqa: E402

oidcmsg.time_util.utc_time_sans_frac = now
cryptojwt.jwt.utc_time_sans_frac = now
import oidcmsg.oidc  # noqa: E402
import oidcmsg.oidc.session  # noqa: E402

for m in (oidcmsg.oidc, oidcmsg.oidc.session, sys.modules.get("oidcmsg.oauth2")):
    if hasattr(m, "utc_time_sans_frac"):
        m.utc_time_sans_frac = now

from cryptojwt.key_jar import build_keyjar  # noqa: E402
from cryptojwt.jws.jws import JWS  # noqa: E402
from cryptojwt.key_jar import KeyJar  # noqa: E402
from oidcmsg.message import Message  # noqa: E402
from oidcmsg.oauth2 import ResponseMessage  # noqa: E402
from oidcmsg.oidc import AccessTokenRequest, AuthorizationRequest  # noqa: E402
from oidcop.configure import ASConfiguration, OPConfiguration  # noqa: E402
from oidcop.server import Server  # noqa: E402

ISSUER = "https://op.example.org"
SCRATCH = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, SCRATCH, ignore_errors=True)
os.makedirs(os.path.join(SCRATCH, "templates"))
with open(os.path.join(SCRATCH, "templates", "user_pass.jinja2"), "w") as _f:
    _f.write('<form><input type="hidden" name="token" value="{{ token }}"></form>')
with open(os.path.join(SCRATCH, "passwd.json"), "w") as _f:
    json.dump({"diana": "krall", "babs": "howes"}, _f)

with open(os.path.join(SCRATCH, "token_jwks.json"), "w") as _f:
    json.dump({"keys": [
        {"kty": "oct", "use": "enc", "kid": "code", "k": "wibBIc2CYbV97yNOBI7-S40OWSaa7usQ"},
        {"kty": "oct", "use": "enc", "kid": "token", "k": "EVp-CmhPECqiqCbhgFF9U9TWHifzzhxA"},
        {"kty": "oct", "use": "enc", "kid": "refresh", "k": "Hc3P39QKTt3Thhu0w49YPpxKtScuGCdv"},
    ]}, _f)

USERS = {
    "diana": {"name": "Diana Krall", "given_name": "Diana", "email": "diana@example.org",
              "phone_number": "+4690", "nickname": "Dina", "address": {"country": "Sweden"}},
    "babs": {"name": "Barbara", "given_name": "Barbara", "email": "babs@example.com",
             "phone_number": "+1555"},
}
RSA = [{"type": "RSA", "use": ["sig"]}]
OP_KEYS = build_keyjar(RSA)
CLIENT_KEYS = {}
RULES = {
    "authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"],
                           "max_usage": 1, "expires_in": 120},
    "access_token": {"expires_in": 600},
    "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"],
                      "expires_in": 3000},
}


class HTTP:
    def __init__(self):
        self.docs, self.calls, self.fail = {}, [], set()

    def __call__(self, method, url, data=None, **kw):
        self.calls.append((method.lower(), url, data))
        if url in self.fail:
            import requests
            raise requests.exceptions.ConnectionError("refused")
        r = type("R", (), {})()
        doc = self.docs.get(url)
        r.status_code = 200 if doc is not None or method.lower() == "post" else 404
        r.text = doc or ""
        r.headers = {"Content-Type": "application/json"}
        r.json = lambda: json.loads(r.text)
        return r

    def get(self, url, **kw):
        return self("get", url, **kw)

    def post(self, url, **kw):
        return self("post", url, **kw)

    request = __call__


def client(cid, **kw):
    d = {"client_id": cid, "client_secret": "secret-of-%s-0123456789abcdefghij" % cid,
         "redirect_uris": [["https://%s.example.com/cb" % cid, {}]],
         "response_types": ["code", "code id_token", "id_token token", "code token",
                            "code id_token token", "token", "id_token"],
         "allowed_scopes": ["openid", "profile", "email", "phone", "address", "offline_access"],
         "token_endpoint_auth_method": "client_secret_basic"}
    d.update(kw)
    return d


class OP:
    def __init__(self, clients=None, rules=None, jwt=(), flavour="oidc", grant_exp=40000,
                 authn_exp=None, pkce=None, dpop=False, revoke_refresh=None, userinfo=None,
                 idtoken=None, introspection=None, idt_life=300, extra=None, users=None,
                 cookie_kw=None, scopes_to_claims=None, token=None):
        self.http = HTTP()
        self.a = dict(locals())
        self.clients = clients or [client("c1"), client("c2")]
        self.build()
        self.jar = {}

    def conf(self):
        a = self.a
        oidc = a["flavour"] == "oidc"
        auth = ["client_secret_basic", "client_secret_post", "client_secret_jwt",
                "private_key_jwt"]
        tkw = {"client_authn_method": auth}
        if a["revoke_refresh"] is not None:
            tkw["revoke_refresh_on_issue"] = a["revoke_refresh"]
        tkw.update(a["token"] or {})
        p = "oidcop.oidc." if oidc else "oidcop.oauth2."
        ep = {
            "authorization": {"path": "authorization", "class": p + "authorization.Authorization",
                              "kwargs": {"response_types_supported": [
                                  "code", "token", "id_token", "code token", "code id_token",
                                  "id_token token", "code id_token token"] if oidc else
                                  ["code", "token", "code token"],
                                  "response_modes_supported": ["query", "fragment", "form_post"],
                                  "claims_parameter_supported": True,
                                  "request_parameter_supported": True,
                                  "request_uri_parameter_supported": True}},
            "token": {"path": "token", "class": p + "token.Token", "kwargs": tkw},
            "introspection": {"path": "introspection",
                              "class": "oidcop.oauth2.introspection.Introspection",
                              "kwargs": dict(client_authn_method=auth[:2],
                                             **(a["introspection"] or {}))},
            "pushed_authorization": {
                "path": "par", "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization",
                "kwargs": {"client_authn_method": auth, "ttl": 600}},
        }
        if oidc:
            ep["registration"] = {"path": "registration",
                                  "class": "oidcop.oidc.registration.Registration",
                                  "kwargs": {"client_authn_method": None,
                                             "client_secret_expires_in": 1000}}
            ep["registration_read"] = {
                "path": "registration_api",
                "class": "oidcop.oidc.read_registration.RegistrationRead",
                "kwargs": {"client_authn_method": ["bearer_header"]}}
            ep["userinfo"] = {"path": "userinfo", "class": "oidcop.oidc.userinfo.UserInfo",
                              "kwargs": dict(client_authn_method=["bearer_header", "bearer_body"],
                                             **(a["userinfo"] or {}))}
            ep["session"] = {"path": "session", "class": "oidcop.oidc.session.Session",
                             "kwargs": {"logout_verify_url": ISSUER + "/verify_logout",
                                        "post_logout_uri_path": "post_logout",
                                        "signing_alg": "RS256",
                                        "frontchannel_logout_supported": True,
                                        "frontchannel_logout_session_supported": True,
                                        "backchannel_logout_supported": True,
                                        "backchannel_logout_session_supported": True}}
        tha = {"jwks_def": {"private_path": os.path.join(SCRATCH, "token_jwks.json"),
                            "key_defs": [{"type": "oct", "bytes": 24, "use": ["enc"], "kid": k}
                                         for k in ("code", "token", "refresh")],
                            "read_only": True}}
        for k in ("code", "token", "refresh"):
            tha[k] = {"class": "oidcop.token.jwt_token.JWTToken",
                      "kwargs": {"alg": "RS256", "lifetime": 3600}} if k in a["jwt"] else \
                {"kwargs": {}}
        if oidc:
            tha["id_token"] = {"class": "oidcop.token.id_token.IDToken",
                               "kwargs": dict(lifetime=a["idt_life"], **(a["idtoken"] or {}))}
        ukw = {"verify_endpoint": "verify/user", "template": "user_pass.jinja2",
               "db": {"class": "oidcop.util.JSONDictDB",
                      "kwargs": {"filename": os.path.join(SCRATCH, "passwd.json")}}}
        if a["authn_exp"]:
            ukw["expires_in"] = a["authn_exp"]
        gc = {"usage_rules": copy.deepcopy(a["rules"] or RULES)}
        if a["grant_exp"]:
            gc["expires_in"] = a["grant_exp"]
        conf = {
            "issuer": ISSUER, "httpc_params": {"verify": False},
            "capabilities": {"subject_types_supported": ["public", "pairwise", "ephemeral"],
                             "grant_types_supported": ["authorization_code", "implicit",
                                                       "refresh_token"]},
            "token_handler_args": tha, "keys": {"uri_path": "jwks.json"}, "endpoint": ep,
            "authentication": {"user": {
                "acr": "oidcop.user_authn.authn_context.INTERNETPROTOCOLPASSWORD",
                "class": "oidcop.user_authn.user.UserPassJinja2", "kwargs": ukw}},
            "template_dir": os.path.join(SCRATCH, "templates"),
            "userinfo": {"class": "oidcop.user_info.UserInfo",
                         "kwargs": {"db": copy.deepcopy(a["users"] or USERS)}},
            "cookie_handler": {"class": "oidcop.cookie_handler.CookieHandler",
                               "kwargs": a["cookie_kw"] or {
                                   "sign_key": "ghsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch",
                                   "name": {"session": "oidc_op", "register": "oidc_op_rp",
                                            "session_management": "oidc_op_sman"}}},
            "session_params": {"password": "ses_key_0123456789abcdef01234567",
                               "salt": "ses_salt_0123456789abcdef0123456", "sub_func": {}},
            "authz": {"class": "oidcop.authz.AuthzHandling", "kwargs": {"grant_config": gc}},
            "claims_interface": {"class": "oidcop.session.claims." + (
                "ClaimsInterface" if oidc else "OAuth2ClaimsInterface"), "kwargs": {}},
        }
        add_on = {}
        if a["pkce"]:
            add_on["pkce"] = {"function": "oidcop.oidc.add_on.pkce.add_pkce_support",
                              "kwargs": a["pkce"]}
        if a["dpop"]:
            add_on["dpop"] = {"function": "oidcop.oauth2.add_on.dpop.add_support",
                              "kwargs": {"dpop_signing_alg_values_supported": ["RS256"]}}
        if add_on:
            conf["add_on"] = add_on
        if a["scopes_to_claims"]:
            conf["scopes_to_claims"] = a["scopes_to_claims"]
        conf.update(a["extra"] or {})
        return conf

    def build(self):
        kj = KeyJar(httpc=self.http)
        kj.import_jwks(OP_KEYS.export_jwks(private=True), "")
        kj.import_jwks(OP_KEYS.export_jwks(private=True), ISSUER)
        cls = OPConfiguration if self.a["flavour"] == "oidc" else ASConfiguration
        self.server = Server(cls(conf=self.conf(), base_path=SCRATCH), cwd=SCRATCH, keyjar=kj,
                             httpc=self.http)
        self.ctx = self.server.endpoint_context
        self.ctx.keyjar.httpc = self.http
        for ci in self.clients:
            self.ctx.cdb[ci["client_id"]] = copy.deepcopy(ci)
            self.ctx.keyjar.add_symmetric(ci["client_id"], ci["client_secret"])
            if ci["client_id"] in CLIENT_KEYS:
                self.ctx.keyjar.import_jwks(CLIENT_KEYS[ci["client_id"]].export_jwks(issuer_id=ci["client_id"]),
                                            ci["client_id"])

    def restart(self):
        """Export the state, build a new provider from configuration, load the state."""
        text = json.dumps(self.ctx.dump(exclude_attributes=[
            "conf", "endpoint_to_authn_method", "args", "token_args_methods",
            "login_hint_lookup", "login_hint2acrs"]))
        self.build()
        self.ctx.load(json.loads(text), init_args={
            "server_get": self.server.server_get, "handler": self.mngr.token_handler})
        self.ctx.keyjar.httpc = self.http

    @property
    def mngr(self):
        return self.server.endpoint_context.session_manager

    def ep(self, name):
        return self.server.server_get("endpoint", name)

    # -------------------------------------------------------------- requests
    def basic(self, cid, secret=None):
        s = secret or self.ctx.cdb[cid]["client_secret"]
        return {"authorization": "Basic " + base64.b64encode(
            ("%s:%s" % (cid, s)).encode()).decode()}

    def parse(self, ep, args, headers=None, url="", method="POST", cookies=None):
        info = {"headers": headers or {}, "method": method, "url": url}
        if cookies:
            info["cookie"] = cookies
        return self.ep(ep).parse_request(copy.deepcopy(args), http_info=info), info

    def respond(self, name, req, args):
        if isinstance(args, (ResponseMessage, Message)):
            args = dict(args.items())
        if "redirect_location" in args or "http_response" in args:
            return dict(args)
        if "error" in args:
            return {"error": args["error"]}
        info = self.ep(name).do_response(request=req, **dict(args))
        try:
            return json.loads(info["response"])
        except ValueError:
            return {"response": info["response"]}

    def call(self, name, args, headers=None, **kw):
        """-> dict; a refusal has 'error'."""
        try:
            req, info = self.parse(name, args, headers, **kw)
            if "error" in req:
                return {"error": req["error"]}
            return self.process(name, req, info)
        except Exception as err:
            return {"error": "exception", "exc": trace(err)}

    def process(self, name, req, info=None):
        if name == "token" and self.a["flavour"] == "oidc":
            req = AccessTokenRequest(**req)
        res = self.ep(name).process_request(req, http_info=info)
        return self.respond(name, req, res)

    def authz(self, cid="c1", user="diana", scope="openid", rt="code", cookies=True, login=True,
              **kw):
        """Run an authorization. -> dict with the response parameters, or {'page': ..} when
        a login page was shown and login is False."""
        args = {"client_id": cid, "response_type": rt, "scope": scope, "state": "st",
                "redirect_uri": "https://%s.example.com/cb" % cid}
        if "id_token" in rt or self.a["flavour"] == "oidc":
            args["nonce"] = "nonce-1"
        if "offline_access" in scope:
            args["prompt"] = "consent"
        args.update(kw)
        args = {k: v for k, v in args.items() if v is not None}
        try:
            req, info = self.parse("authorization", args, method="GET",
                                   cookies=list(self.jar.values()) if cookies else None)
            if "error" in req:
                return {"error": req["error"]}
            res = self.ep("authorization").process_request(req, http_info=info)
        except Exception as err:
            return {"error": "exception", "exc": trace(err)}
        if "http_response" in res:
            if not login:
                return {"page": res["http_response"]}
            token = re.search(r'name="token" value="([^"]*)"', res["http_response"]).group(1)
            return self.login(token, user)
        return self.result(req, res)

    def login(self, token, user):
        method = self.ctx.authn_broker.get_method_by_id("user")
        aa = method.unpack_token(token)
        req = AuthorizationRequest().from_urlencoded(aa["query"])
        ep = self.ep("authorization")
        sid = ep.create_session(req, user, aa["authn_class_ref"], aa.get("iat", 0), method)
        res = ep.authz_part2(request=req, session_id=sid)
        return self.result(req, res)

    def result(self, req, res):
        d = dict(res.items()) if isinstance(res, Message) else dict(res)
        for c in d.get("cookie") or []:
            self.jar[c["name"]] = dict(c)
        sid = d.get("session_id")
        err = d.pop("error", None)
        if err and "return_uri" not in d:
            return {"error": err}
        d.pop("session_id", None)
        out = self.ep("authorization").do_response(request=req, error=err or "", **d)["response"]
        if out.startswith("http"):
            u = urlparse(out)
            params = {k: v[0] for k, v in parse_qs(u.fragment or u.query).items()}
            params["_url"] = out
        else:
            params = dict(re.findall(r'name="([^"]*)" value="([^"]*)"', out))
            params["_form"] = out
        params["_sid"] = sid
        return params

    def redeem(self, code, cid="c1", **kw):
        args = {"grant_type": "authorization_code", "code": code, "client_id": cid,
                "redirect_uri": "https://%s.example.com/cb" % cid}
        headers = dict(kw.pop("headers", None) or self.basic(cid))
        args.update(kw)
        return self.call("token", {k: v for k, v in args.items() if v is not None}, headers)

    def refresh(self, token, cid="c1", **kw):
        headers = dict(kw.pop("headers", None) or self.basic(cid))
        args = {"grant_type": "refresh_token", "refresh_token": token, "client_id": cid}
        args.update(kw)
        return self.call("token", args, headers)

    def userinfo(self, token):
        return self.call("userinfo", {}, {"authorization": "Bearer " + token}, method="GET")

    def introspect(self, token, cid="c1"):
        return self.call("introspection", {"token": token}, self.basic(cid))

    def logout_confirm(self, sjwt, alla=False):
        ep = self.ep("session")
        info = ep.unpack_signed_jwt(sjwt)
        return ep.do_verified_logout(alla=alla, **info), info


def claims(jwt):
    return JWS().verify_compact(jwt, keys=OP_KEYS.get_issuer_keys(""))


def s256(v):
    return base64.urlsafe_b64encode(hashlib.sha256(v.encode()).digest()).rstrip(b"=").decode()


def check(cond, what):
    if not cond:
        print("FAIL: " + what)
        raise SystemExit(1)
    print("ok: " + what)


def trace(err):
    import traceback
    return "".join(traceback.format_exception(err))


def dpop_proof(key, htu, **over):
    """A DPoP proof signed with an RSA key."""
    pub = {k: v for k, v in key.serialize(private=False).items() if k in ("kty", "n", "e")}
    body = {"jti": "j1", "htm": "POST", "htu": htu, "iat": now()}
    body.update(over)
    from cryptojwt.jwk.jwk import key_from_jwk_dict
    priv = key_from_jwk_dict({k: v for k, v in key.serialize(private=True).items() if k != "kid"})
    return JWS(json.dumps(body), alg="RS256").sign_compact([priv], typ="dpop+jwt", jwk=pub)
