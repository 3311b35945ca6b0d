"""The simulated deployment: one OpenID provider node built from the real oidcop
code, the HTTP glue of example/flask_op/views.py, and an HTTP client stub that
stands in for the outside world."""
import copy
import json
import os

from . import env

env.install()

from cryptojwt.key_jar import KeyJar  # noqa: E402
import requests  # noqa: E402

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")
ISSUER = BASE = "https://op.example.org"

# exported attributes that are configuration (rebuilt by a restart), not state
CONFIGURATION = ["conf", "endpoint_to_authn_method", "args", "token_args_methods",
                 "login_hint_lookup", "login_hint2acrs"]


def _load(name):
    with open(os.path.join(DATA, name)) as fp:
        return json.load(fp)


OP_JWKS = _load("op_jwks.json")
TOKEN_JWKS = _load("token_jwks.json")
CLIENT_JWKS = _load("client_jwks.json")

ISSUERS = [ISSUER, "https://op.example.org/", "https://example.org/tenants/op-1",
           "https://Op.example.org:8443", "https://example.org/op/"]


def set_issuer(n):
    """what the provider is called and where its endpoints are"""
    global ISSUER, BASE
    ISSUER = ISSUERS[n % len(ISSUERS)]
    BASE = ISSUER[:-1] if ISSUER.endswith("/") else ISSUER


USERS = {
    "diana": {"password": "krall", "info": {
        "sub": "dikr0001", "name": "Diana Krall", "given_name": "Diana",
        "family_name": "Krall", "nickname": "Dina", "email": "diana@example.org",
        "email_verified": False, "phone_number": "+46907865000",
        "address": {"street_address": "Umea Univ", "country": "Sweden"},
        "eduperson_scoped_affiliation": ["staff@example.org"], "webid": "http://bblfish.net/#hjs"}},
    "babs@example.com": {"password": "howes pass", "info": {
        "sub": "babs0001", "name": "Barbara J Jensen", "given_name": "Barbara",
        "family_name": "Jensen", "nickname": "babs", "email": "babs@example.com",
        "email_verified": True, "phone_number_verified": True, "phone_number": "+1 555 0100"}},
    "upper crust|x": {"password": "crust:&=%", "info": {
        "sub": "uppe0001", "name": "Upper Crust \u00d6", "given_name": "Upper",
        "family_name": "Crust \u00d6", "email": "uc@example.com", "email_verified": True,
        "nonce": "evil-nonce", "aud": "evil-aud", "acr": "evil-acr", "auth_time": 1,
        "iss": "https://evil.example.com", "webid": "uc"}},
    # other spellings of the first
    "Diana": {"password": "krallx", "info": {
        "sub": "Dikr0001", "name": "Diana Krall Jr", "given_name": "diana",
        "family_name": "Kral", "nickname": "Din", "email": "Diana@example.org",
        "email_verified": True, "phone_number": "+4690786500"}},
    "dian": {"password": "kral", "info": {
        "sub": "dikr000", "name": "Diana", "given_name": "Dian", "nickname": "dina",
        "email": "diana@example.or", "email_verified": False,
        "eduperson_scoped_affiliation": ["staff@example.orga"]}},
    # what the first would look like at a client
    "diana;;c0": {"password": "p%3B;;", "info": {
        "sub": "dikr0002", "name": "Diana c0", "email": "diana;;c0@example.org",
        "email_verified": True}},
}
USER_IDS = list(USERS)
ACR = "oidcop.user_authn.authn_context.INTERNETPROTOCOLPASSWORD"
NARROW_RT = (["code", "id_token", "code id_token"], ["code", "id_token"],
             ["code", "code id_token token"], ["id_token token", "code", "code token"])
ACR2 = "urn:example:acr:strong"


def client_pub(i):
    out = []
    for k in CLIENT_JWKS[i]["keys"]:
        out.append({a: b for a, b in k.items() if a in ("kty", "use", "kid", "n", "e", "alg")})
    return {"keys": out}


class HTTPResult:
    def __init__(self, status, text, headers=None):
        self.status_code = status
        self.text = text
        self.content = text.encode() if isinstance(text, str) else text
        self.headers = headers or {"Content-Type": "application/json"}
        self.ok = status < 400

    def json(self):
        return json.loads(self.text)


class HTTPWorld:
    """Everything the provider calls out to.  `docs` maps url -> text.  `fault` decides,
    per call, what happens; it is set by the running operation."""

    def __init__(self):
        self.docs = {}
        self.calls = []
        self.fault_plan = []  # consumed per call; empty = no fault
        self.injected = {}

    def copy_plan(self):
        return list(self.fault_plan)

    def _fault(self):
        if self.fault_plan:
            f = self.fault_plan.pop(0)
        else:
            f = None
        if f:
            self.injected["http_" + f] = self.injected.get("http_" + f, 0) + 1
        return f

    def _do(self, method, url, body):
        f = self._fault()
        doc = self.docs.get(url)
        self.calls.append((method, url, body, f))
        if f == "refused":
            raise requests.exceptions.ConnectionError("simulated: connection refused")
        if f == "timeout":
            raise requests.exceptions.ReadTimeout("simulated: timed out")
        if f == "500":
            return HTTPResult(500, "internal error")
        if f == "503":
            return HTTPResult(503, "")
        if f == "404":
            return HTTPResult(404, "not found")
        if f == "501":
            return HTTPResult(501, "")
        if method == "post":
            return HTTPResult(200, "")
        if doc is None:
            return HTTPResult(404, "not found")
        if f == "garbage":
            return HTTPResult(200, "<html>\x00captive portal</html>")
        if f == "truncated":
            return HTTPResult(200, doc[: max(1, len(doc) * 2 // 3)])
        if f == "empty":
            return HTTPResult(200, "")
        return HTTPResult(200, doc)

    def get(self, url, **kw):
        return self._do("get", url, None)

    def post(self, url, data=None, **kw):
        return self._do("post", url, data)

    def request(self, method, url, data=None, **kw):
        return self._do(method.lower(), url, data)

    def __call__(self, method, url, **kw):
        return self.request(method, url, **kw)


def default_cfg():
    return {
        "flavour": "oidc",
        "fmt": {"code": "default", "token": "default", "refresh": "default"},
        "rules": {
            "authorization_code": {
                "supports_minting": ["access_token", "refresh_token", "id_token"],
                "max_usage": 1, "expires_in": 120},
            "access_token": {"expires_in": 600},
            "refresh_token": {
                "supports_minting": ["access_token", "refresh_token", "id_token"],
                "expires_in": 3000},
        },
        "grant_exp": 40000,
        "authn_exp": None,
        "deny_unknown": False,
        "pkce": None,
        "cookie": "both",
        "csi": False,
        "authn2": False,
        "hints": False,
        "idt_life": 300,
        "jwt_life": 3600,
        "revoke_refresh": False,
        "issue_refresh": None,
        "secret_expires_in": 2592000,
        "userinfo_conf": {},
        "idtoken_conf": {},
        "introspection_conf": {},
        "at_conf": {},
        "scopes_to_claims": None,
        "allowed_scopes": None,
        "dpop": False,
        "par_ttl": 600,
        "grants": 0,
        "custom": None,
        "narrow": None,
        "narrow_rt": 0,
        "iss": 0,
        "clients": [],
    }


class Node:
    """One oidcop provider process."""

    def __init__(self, cfg, http):
        self.cfg = cfg
        self.http = http
        self.server = None
        self.build()

    # ------------------------------------------------------------------ build
    def conf(self):
        cfg = self.cfg
        oidc = cfg["flavour"] == "oidc"

        def tok(kind, kid):
            f = cfg["fmt"][kind]
            if f == "jwt":
                kw = {"alg": "RS256", "lifetime": cfg["jwt_life"]}
                if kind == "token":
                    kw.update(copy.deepcopy(cfg["at_conf"]))
                return {"class": "oidcop.token.jwt_token.JWTToken", "kwargs": kw}
            return {"kwargs": {}}

        auth_methods = ["client_secret_basic", "client_secret_post", "client_secret_jwt",
                        "private_key_jwt"]
        token_kw = {"client_authn_method": auth_methods}
        if cfg["revoke_refresh"]:
            token_kw["revoke_refresh_on_issue"] = True
        if cfg["grants"] >= 2:
            mod = "oidcop.oidc.token." if oidc else "oidcop.oauth2.token."
            token_kw["grant_types_supported"] = {
                "authorization_code": {"class": mod + "AccessTokenHelper", "kwargs": {}}}
            if cfg["grants"] == 3:
                token_kw["grant_types_supported"]["refresh_token"] = {
                    "class": mod + "RefreshTokenHelper"}
        ep = {
            "authorization": {
                "path": "authorization",
                "class": "oidcop.oidc.authorization.Authorization" if oidc
                else "oidcop.oauth2.authorization.Authorization",
                "kwargs": {
                    "response_types_supported": [
                        "code", "token", "id_token", "code token", "code id_token",
                        "id_token token", "code id_token token", "none"]
                    if oidc and not cfg["narrow"] else list(NARROW_RT[cfg["narrow_rt"]]) if oidc
                    else ["code", "token", "code token"],
                    "response_modes_supported": ["query", "fragment", "form_post"],
                    "claims_parameter_supported": True,
                    "request_parameter_supported": True,
                    "request_uri_parameter_supported": True,
                }},
            "token": {
                "path": "token",
                "class": "oidcop.oidc.token.Token" if oidc else "oidcop.oauth2.token.Token",
                "kwargs": token_kw},
            "introspection": {
                "path": "introspection",
                "class": "oidcop.oauth2.introspection.Introspection",
                "kwargs": dict(client_authn_method=["client_secret_basic", "client_secret_post"],
                               **copy.deepcopy(cfg["introspection_conf"]))},
            "pushed_authorization": {
                "path": "par",
                "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization",
                "kwargs": {"client_authn_method": auth_methods, "ttl": cfg["par_ttl"]}},
        }
        if oidc:
            ep.update({
                "registration": {
                    "path": "registration",
                    "class": "oidcop.oidc.registration.Registration",
                    "kwargs": {"client_authn_method": None,
                               "client_secret_expires_in": cfg["secret_expires_in"],
                               "seed": "simulated-seed-0123456789abcdef"}},
                "registration_read": {
                    "path": "registration_api",
                    "class": "oidcop.oidc.read_registration.RegistrationRead",
                    "kwargs": {"client_authn_method": ["bearer_header"]}},
                "userinfo": {
                    "path": "userinfo", "class": "oidcop.oidc.userinfo.UserInfo",
                    "kwargs": dict(client_authn_method=["bearer_header", "bearer_body"],
                                   **copy.deepcopy(cfg["userinfo_conf"]))},
                "session": {
                    "path": "session", "class": "oidcop.oidc.session.Session",
                    "kwargs": {
                        "logout_verify_url": BASE + "/verify_logout",
                        "post_logout_uri_path": "post_logout",
                        "signing_alg": "RS256",
                        "frontchannel_logout_supported": True,
                        "frontchannel_logout_session_supported": True,
                        "backchannel_logout_supported": True,
                        "backchannel_logout_session_supported": True,
                        "check_session_iframe": "check_session_iframe.html"
                        if cfg["csi"] else None}},
                "provider_info": {
                    "path": ".well-known/openid-configuration",
                    "class": "oidcop.oidc.provider_config.ProviderConfiguration",
                    "kwargs": {"client_authn_method": None}},
                "webfinger": {
                    "path": ".well-known/webfinger",
                    "class": "oidcop.oidc.discovery.Discovery",
                    "kwargs": {"client_authn_method": None}},
            })
            if not cfg["csi"]:
                del ep["session"]["kwargs"]["check_session_iframe"]
            if cfg["narrow"]:
                ep["userinfo"]["kwargs"].update(
                    userinfo_signing_alg_values_supported=list(cfg["narrow"]))
        key_defs = [{"type": "oct", "bytes": 24, "use": ["enc"], "kid": k}
                    for k in ("code", "token", "refresh")]
        tha = {
            "jwks_def": {"private_path": os.path.join(DATA, "token_jwks.json"),
                         "key_defs": key_defs, "read_only": True},
            "code": tok("code", "code"),
            "token": tok("token", "token"),
            "refresh": tok("refresh", "refresh"),
        }
        if oidc:
            tha["id_token"] = {
                "class": "oidcop.token.id_token.IDToken",
                "kwargs": dict(lifetime=cfg["idt_life"], **copy.deepcopy(cfg["idtoken_conf"]))}
            if cfg["narrow"]:
                tha["id_token"]["kwargs"].update(
                    id_token_signing_alg_values_supported=list(cfg["narrow"]))
        cookie_kw = {"name": {"session": "oidc_op", "register": "oidc_op_reg",
                              "session_management": "oidc_op_sman"}}
        if cfg["cookie"] in ("sign", "both"):
            cookie_kw["sign_key"] = "WakaWakaSigningKeyForTheSimulation"
        if cfg["cookie"] in ("enc", "both"):
            cookie_kw["enc_key"] = "0123456789abcdef0123456789abcdef"
        grant_config = {"usage_rules": copy.deepcopy(cfg["rules"])}
        if cfg["grant_exp"]:
            grant_config["expires_in"] = cfg["grant_exp"]
        user_kw = {
            "verify_endpoint": "verify/user",
            "template": "user_pass.jinja2",
            "db": {"class": "oidcop.util.JSONDictDB",
                   "kwargs": {"filename": os.path.join(DATA, "passwd.json")}},
        }
        if cfg["authn_exp"]:
            user_kw["expires_in"] = cfg["authn_exp"]
        conf = {
            "issuer": ISSUER,
            "httpc_params": {"verify": False, "timeout": 4},
            "capabilities": {
                "subject_types_supported": ["public", "pairwise", "ephemeral"],
                "grant_types_supported": [g for g in (
                    "authorization_code", "implicit", "refresh_token",
                    "urn:ietf:params:oauth:grant-type:jwt-bearer")
                    if g != "refresh_token" or cfg["grants"] not in (1, 2)],
                "deny_unknown_scopes": bool(cfg["deny_unknown"]),
            },
            "token_handler_args": tha,
            "keys": {"uri_path": "static/jwks.json"},
            "endpoint": ep,
            "authentication": {
                "user": {"acr": ACR, "class": "oidcop.user_authn.user.UserPassJinja2",
                         "kwargs": user_kw}},
            "template_dir": os.path.join(DATA, "templates"),
            "userinfo": {"class": "oidcop.user_info.UserInfo",
                         "kwargs": {"db": copy.deepcopy({u: v["info"] for u, v in USERS.items()})}},
            "cookie_handler": {"class": "oidcop.cookie_handler.CookieHandler",
                               "kwargs": cookie_kw},
            "session_params": {"password": "ses_key_simulation_0123456789abc",
                               "salt": "ses_salt_simulation_0123456789ab",
                               "sub_func": {}},
            "authz": {"class": "oidcop.authz.AuthzHandling",
                      "kwargs": {"grant_config": grant_config}},
        }
        if cfg["flavour"] == "oauth2":
            conf["claims_interface"] = {
                "class": "oidcop.session.claims.OAuth2ClaimsInterface", "kwargs": {}}
        else:
            conf["claims_interface"] = {"class": "oidcop.session.claims.ClaimsInterface",
                                        "kwargs": {}}
        if cfg["authn2"]:
            # a second, stronger way to log in, with passwords of its own
            kw = dict(copy.deepcopy(user_kw), verify_endpoint="verify/strong")
            kw["db"]["kwargs"]["filename"] = os.path.join(DATA, "passwd2.json")
            kw.pop("expires_in", None)
            conf["authentication"]["strong"] = {
                "acr": ACR2, "class": "oidcop.user_authn.user.UserPassJinja2", "kwargs": kw}
        if cfg["hints"]:
            conf["login_hint_lookup"] = {"class": "oidcop.login_hint.LoginHintLookup",
                                         "kwargs": {}}
            conf["login_hint2acrs"] = {
                "class": "oidcop.login_hint.LoginHint2Acrs",
                "kwargs": {"scheme_map": {"tel": [ACR2], "mail": [ACR]}}}
        add_on = {}
        if cfg["pkce"] is not None:
            add_on["pkce"] = {"function": "oidcop.oidc.add_on.pkce.add_pkce_support",
                              "kwargs": {"essential": cfg["pkce"]["essential"],
                                         "code_challenge_methods": list(cfg["pkce"]["methods"])}}
        if cfg["dpop"]:
            add_on["dpop"] = {"function": "oidcop.oauth2.add_on.dpop.add_support",
                              "kwargs": {"dpop_signing_alg_values_supported": ["RS256", "ES256"]}}
        if cfg["custom"]:
            add_on["custom_scopes"] = {
                "function": "oidcop.oidc.add_on.custom_scopes.add_custom_scopes",
                "kwargs": copy.deepcopy(cfg["custom"])}
        if add_on:
            conf["add_on"] = add_on
        if cfg["scopes_to_claims"]:
            conf["scopes_to_claims"] = copy.deepcopy(cfg["scopes_to_claims"])
        if cfg["allowed_scopes"]:
            conf["allowed_scopes"] = list(cfg["allowed_scopes"])
        return conf

    def build(self):
        from oidcop.configure import ASConfiguration
        from oidcop.configure import OPConfiguration
        from oidcop.server import Server

        kj = KeyJar(httpc=self.http)
        kj.import_jwks(copy.deepcopy(OP_JWKS), "")
        kj.import_jwks(copy.deepcopy(OP_JWKS), ISSUER)
        cls = OPConfiguration if self.cfg["flavour"] == "oidc" else ASConfiguration
        self.server = Server(cls(conf=self.conf(), base_path=DATA), cwd=DATA, keyjar=kj,
                             httpc=self.http)
        ctx = self.server.endpoint_context
        ctx.keyjar.httpc = self.http
        for ci in self.cfg["clients"]:
            ctx.cdb[ci["id"]] = copy.deepcopy(ci["info"])
            if ci["info"].get("client_secret"):
                ctx.keyjar.add_symmetric(ci["id"], ci["info"]["client_secret"])
            if ci.get("jwk") is not None:
                ctx.keyjar.import_jwks(client_pub(ci["jwk"]), ci["id"])

    @property
    def ctx(self):
        return self.server.endpoint_context

    @property
    def mngr(self):
        return self.server.endpoint_context.session_manager

    def ep(self, name):
        return self.server.server_get("endpoint", name)

    # ------------------------------------------------------------- durability
    def dump(self):
        """What survives a crash: the exported state, as a JSON document."""
        return json.dumps(self.ctx.dump(exclude_attributes=CONFIGURATION))

    def load(self, text):
        """A new process: everything rebuilt from configuration, then the stored state."""
        self.build()
        ctx = self.ctx
        ctx.load(json.loads(text), init_args={
            "server_get": self.server.server_get,
            "handler": ctx.session_manager.token_handler,
        })
        ctx.keyjar.httpc = self.http
        for iss in ctx.keyjar.owners():
            for kb in ctx.keyjar[iss]:
                kb.httpc = self.http
