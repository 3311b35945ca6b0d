"""Seeded generation of cases: one integer -> one configuration, one operation sequence,
one fault plan.  Swarm style: every case draws its own feature subset and weights."""
import random

from .world import default_cfg
from .world import NARROW_RT

RTYPES = ["code", "token", "id_token", "code token", "code id_token", "id_token token",
          "code id_token token"]


class R(random.Random):
    def p(self, x):
        return self.random() < x

    def pick(self, *xs):
        return xs[int(self.random() * len(xs))]

    def i(self, n):
        return int(self.random() * n)

    def w(self, table):
        """weighted choice from {value: weight} (insertion order)"""
        tot = sum(table.values())
        x = self.random() * tot
        for k, v in table.items():
            x -= v
            if x < 0:
                return k
        return k


# --------------------------------------------------------------------- profiles
BASE = {"authz": 10, "login": 1, "redeem": 8, "refresh": 5, "resend": 2, "introspect": 4,
        "userinfo": 4, "revoke": 1.5, "par_use": 0.7, "logout": 0.8, "confirm": 0.4,
        "register": 0.5, "read": 0.3, "junk": 1, "meta": 0.3, "clock": 3, "snapshot": 0.7, "restart": 1,
        "crash": 0.5, "step": 2}

# knobs: probability (or weight) modifiers per property
PROFILES = {
    "P01": {"ops": {"redeem": 14, "resend": 8, "clock": 4, "restart": 2, "step": 4},
            "hold": 0.35},
    "P02": {"ops": {"redeem": 10, "resend": 9, "refresh": 12, "userinfo": 6, "introspect": 6},
            "offline": 0.8, "hold": 0.25},
    "P03": {"ops": {"redeem": 16, "refresh": 7}, "foreign": 0.35, "hold": 0.25},
    "P04": {"ops": {"redeem": 14, "authz": 12}, "pkce": 1.0, "hold": 0.2},
    "P05": {"ops": {"clock": 12, "redeem": 8, "refresh": 8, "introspect": 8, "userinfo": 7},
            "offline": 0.7, "hold": 0.2},
    "P06": {"ops": {"revoke": 8, "userinfo": 8, "introspect": 8, "refresh": 8}, "offline": 0.7,
            "hold": 0.25},
    "P07": {"ops": {"refresh": 14, "introspect": 6, "authz": 12}, "offline": 0.9, "hold": 0.1},
    "P08": {"ops": {"userinfo": 9, "introspect": 9, "redeem": 9, "refresh": 8, "crash": 1.5,
                    "register": 1.5, "read": 2.5},
            "corrupt": 0.45, "hold": 0.1},
    "P09": {"ops": {"refresh": 20, "resend": 6, "redeem": 8}, "offline": 0.9, "hold": 0.25},
    "P10": {"ops": {"introspect": 18, "refresh": 6, "revoke": 3, "clock": 5, "junk": 1.5},
            "offline": 0.6, "corrupt": 0.2},
    "P11": {"ops": {"authz": 14, "userinfo": 12, "introspect": 7, "redeem": 9}, "claims": 0.6,
            "oauth2": 0.08},
    "P12": {"ops": {"authz": 14, "userinfo": 9, "introspect": 6, "restart": 2}, "oauth2": 0.05},
    "P13": {"ops": {"authz": 14, "redeem": 11, "refresh": 8}, "oauth2": 0.0, "front": 0.8, "authn2": 0.3,
            "hold": 0.25, "offline": 0.5},
    "P14": {"ops": {"authz": 20, "clock": 7, "revoke": 2, "logout": 1.5}, "sso": 0.8, "authn2": 0.35,
            "oauth2": 0.12},
    "P15": {"ops": {"authz": 20, "login": 5, "logout": 3, "confirm": 1.5}, "sso": 0.6,
            "cookieatt": 0.4, "oauth2": 0.1, "hold": 0.2},
    "P16": {"ops": {"authz": 20, "login": 4, "par_use": 1.5}, "uri": 0.45, "front": 0.7,
            "hold": 0.2},
    "P17": {"ops": {"redeem": 8, "refresh": 6, "introspect": 6, "par_use": 1, "register": 2,
                    "read": 2, "resend": 5, "clock": 4, "restart": 2}, "badauth": 0.45, "par": 0.3},
    "P18": {"ops": {"register": 12, "read": 6, "redeem": 6, "introspect": 3}, "oauth2": 0.0,
            "regfault": 0.5},
    "P19": {"ops": {"authz": 14, "par_use": 10, "clock": 5, "restart": 2}, "par": 0.75},
    "P20": {"ops": {"authz": 14, "logout": 8, "confirm": 4, "userinfo": 5, "introspect": 4,
                    "register": 1.5},
            "oauth2": 0.0, "front": 0.5, "postfault": 0.4, "sso": 0.5},
    "P21": {"ops": {"restart": 5, "snapshot": 1, "crash": 1, "register": 1.2, "read": 1.2,
                    "par_use": 1}},
    "P22": {"ops": {"revoke": 6, "refresh": 7, "redeem": 9, "logout": 1.5, "restart": 2},
            "offline": 0.6, "front": 0.5},
    "P23": {"ops": {"junk": 6, "redeem": 8, "crash": 1.2, "logout": 1.2}, "foreign": 0.15,
            "corrupt": 0.1, "badauth": 0.15, "uri": 0.1, "cookieatt": 0.1},
    "P24": {"ops": {"authz": 22}, "ro": 0.8, "oauth2": 0.0},
    "P28": {"ops": {"authz": 12, "redeem": 10, "userinfo": 12, "logout": 3, "register": 3,
                    "restart": 1.5}, "oauth2": 0.0, "prot": 0.6, "front": 0.4},
    "P26": {"ops": {"meta": 8, "authz": 14, "register": 8, "redeem": 9, "refresh": 5,
                    "restart": 2.5, "crash": 1, "userinfo": 5, "junk": 3, "logout": 2},
            "oauth2": 0.0, "claims": 0.5, "front": 0.6, "regfault": 0.3, "prot": 0.4,
            "authn2": 0.25, "dpop": 0.15, "narrow": 0.5},
    "P25": {"ops": {"redeem": 14, "refresh": 8, "introspect": 7, "userinfo": 3}, "dpop": 1.0,
            "offline": 0.5},
}
KNOBS = {"oauth2": 0.22, "offline": 0.4, "hold": 0.15, "foreign": 0.06, "corrupt": 0.05,
         "claims": 0.3, "front": 0.35, "sso": 0.3, "cookieatt": 0.05, "uri": 0.06,
         "badauth": 0.06, "par": 0.1, "ro": 0.1, "dpop": 0.05, "pkce": 0.35, "regfault": 0.2,
         "postfault": 0.2, "prot": 0.12, "authn2": 0.12, "narrow": 0.12}


def knobs(prop, r):
    k = dict(KNOBS)
    k.update({a: b for a, b in PROFILES.get(prop, {}).items() if a != "ops"})
    w = dict(BASE)
    w.update(PROFILES.get(prop, {}).get("ops", {}))
    # swarm: switch off a random subset, boost another
    own = set(PROFILES.get(prop, {}).get("ops", {})) | {"authz", "redeem"}
    for op in list(w):
        if op not in own and r.p(0.3):
            del w[op]
        elif r.p(0.15):
            w[op] *= 3
    for a in list(k):
        if a in ("oauth2",) or k[a] in (0.0, 1.0):
            continue
        if a not in PROFILES.get(prop, {}) and r.p(0.25):
            k[a] = 0.0
        elif r.p(0.1):
            k[a] = min(0.95, k[a] * 2)
    # the target's own scenario must not be drowned in deviations: quiet cases exist too
    if r.p(0.25):
        for a in ("foreign", "corrupt", "uri", "badauth", "cookieatt"):
            k[a] = k[a] * 0.3
    return k, w


# ---------------------------------------------------------------- configuration
def gen_client(r, i, k, oidc):
    # one identifier may be the beginning, or another spelling, of the next
    cid = [("client_%d" % i), "c%d" % i, "https://rp%d.example.org/id" % i, "client id %d" % i,
           "cl-%d.x" % i, "rp" + "1" * i, ("app", "App", "APP", "aPP")[i]][
               (r.i(5) if r.p(0.8) else 1) if not k["ids"] else 4 + k["ids"]]
    host = "https://rp%d.example.com" % i
    uris = [[host + "/cb", {}]]
    if r.p(0.35):
        uris.append([host + "/cb", {"x": ["1"]}])
    if r.p(0.2):
        uris.append([r.pick(host, "https://alt%d.example.net" % i) + "/other/path", {}])
    if r.p(0.1):
        uris.append(r.pick(
            [host + "/cb", {"x": ["1", "2"], "y": [""]}],
            [host + "/cb", {"next": ["https://a.example/b?c=d&e=f#g"], "\u00e5": ["\u00e4 b"]}],
            [host + ":8443/a%20b/c", {}], [host + "/cb;p=1/d", {"x": ["+", "%"]}]))
    if r.p(0.1):
        uris.reverse()
    rts = ["code"]
    if r.p(k["front"]):
        pool = RTYPES[1:] if oidc else ["token", "code token"]
        for _ in range(1 + r.i(3)):
            x = pool[r.i(len(pool))]
            if x not in rts:
                rts.append(x)
    info = {"client_id": cid,
            "client_secret": "secret-%d-%s" % (i, "0123456789abcdef0123456789abcdef"[i:]),
            "redirect_uris": uris, "response_types": rts}
    jwk = i % 3 if r.p(0.6) else None
    if not oidc:
        if r.p(0.3):
            info["allowed_scopes"] = r.pick(["profile", "email"],
                                            ["profile", "offline_access", "email"])
        if r.p(0.25):
            info["token_usage_rules"] = gen_client_rules(r)
        if r.p(0.25):
            info["revoke_refresh_on_issue"] = r.p(0.6)
        if r.p(0.12):
            info["grant_types_supported"] = ["authorization_code"]
        if r.p(0.2):
            info["pkce_essential"] = r.p(0.5)
        if r.p(0.15):
            info["client_secret_expires_at"] = 1_700_000_000 + r.pick(50, 400, 3000, 90000)
        return {"id": cid, "jwk": jwk, "info": info}
    st = r.w({"none": 4, "public": 2, "pairwise": 3, "ephemeral": 1.5})
    if st != "none":
        info["subject_type"] = st
    if st == "pairwise" and (r.p(0.45) or len({u[0].split("/")[2] for u in uris}) > 1):
        info["sector_id"] = r.pick("https://sector.example.org/a.json", host + "/sector.json",
                                   "https://sector.example.org/b.json")
    if r.p(0.3):
        info["allowed_scopes"] = r.pick(
            ["openid", "profile"], ["openid", "offline_access"],
            ["openid", "profile", "email", "offline_access", "research"],
            ["openid", "email", "address", "phone", "offline_access"])
    if r.p(0.2):
        info["scopes_to_claims"] = r.pick(
            {"openid": ["sub"], "profile": ["name", "nickname"], "offline_access": []},
            {"openid": ["sub"], "email": ["email"], "research": [
                "eduperson_scoped_affiliation", "webid"], "offline_access": []},
            {"openid": ["sub", "webid"], "profile": ["given_name"], "email": ["email", "name"],
             "address": ["address"], "phone": ["phone_number"]})
    if r.p(0.25):
        info["token_usage_rules"] = gen_client_rules(r)
    if r.p(0.25):
        info["revoke_refresh_on_issue"] = r.p(0.6)
    if r.p(0.3):
        info["add_claims"] = {
            "always": {a: r.pick(["email"], ["nickname", "webid"], ["given_name", "email"])
                       for a in ("userinfo", "id_token", "introspection", "access_token")
                       if r.p(0.5)},
            "by_scope": {a: r.p(0.6) for a in ("userinfo", "id_token", "introspection",
                                              "access_token") if r.p(0.5)}}
    x = r.w({"none": 3, "back": 4, "front": 3})
    if x == "back":
        info["backchannel_logout_uri"] = host + "/bc_logout" + (r.pick("", "", "?p=1"))
        if r.p(0.5):
            info["backchannel_logout_session_required"] = True
    elif x == "front":
        info["frontchannel_logout_uri"] = host + "/fc_logout" + r.pick("", "", "?p=1&q=a%20b")
        if r.p(0.6):
            info["frontchannel_logout_session_required"] = True
    if r.p(0.6):
        info["post_logout_redirect_uris"] = r.pick(
            [[host + "/bye", ""]], [[host + "/bye", ""]], [host + "/bye"],
            [[host + "/bye", {"x": ["1"]}]],
            [[host + "/bye", {}], [host + "/bye2", {"x": ["1", "2"]}]])
    if r.p(0.2):
        info["pkce_essential"] = r.p(0.5)
    if jwk is not None and r.p(0.6):
        info["request_uris"] = [[host + "/ro.jwt", ""]]
    if jwk is not None and r.p(0.2):
        info["request_object_signing_alg"] = "RS256"
    if r.p(k["prot"]):
        info["id_token_signed_response_alg"] = r.pick("RS256", "RS512", "ES256", "PS256",
                                                      "HS256", "RS384")
    if r.p(k["prot"]):
        info["userinfo_signed_response_alg"] = r.pick("RS256", "ES256", "HS256", "PS384")
    if jwk is not None and r.p(k["prot"]):
        info["userinfo_encrypted_response_alg"] = r.pick("RSA-OAEP", "RSA-OAEP-256")
        info["userinfo_encrypted_response_enc"] = r.pick("A128CBC-HS256", "A256GCM")
    if r.p(0.15):
        info["client_secret_expires_at"] = 1_700_000_000 + r.pick(50, 400, 3000, 90000)
    if r.p(0.1):
        info["grant_types_supported"] = r.pick(["authorization_code"],
                                               ["authorization_code", "refresh_token"])
    return {"id": cid, "jwk": jwk, "info": info}


def gen_client_rules(r):
    out = {}
    if r.p(0.6):
        out["access_token"] = {"expires_in": r.pick(60, 777, 5000)}
    if r.p(0.5):
        out["refresh_token"] = {"expires_in": r.pick(200, 4000)}
        if r.p(0.4):
            out["refresh_token"]["max_usage"] = r.pick(1, 2, 3)
        if r.p(0.4):
            out["refresh_token"]["supports_minting"] = r.pick(
                ["access_token"], ["access_token", "refresh_token"],
                ["access_token", "id_token"], ["access_token", "refresh_token", "id_token"])
    if r.p(0.3):
        out["authorization_code"] = {"expires_in": r.pick(30, 300)}
        if r.p(0.5):
            out["authorization_code"]["supports_minting"] = r.pick(
                ["access_token"], ["access_token", "refresh_token"],
                ["access_token", "refresh_token", "id_token"])
    return out


def gen_cfg(r, prop, k):
    cfg = default_cfg()
    oidc = not r.p(k["oauth2"])
    cfg["flavour"] = "oidc" if oidc else "oauth2"
    jw = r.w({"none": 4, "some": 3, "all": 2})
    for t in cfg["fmt"]:
        cfg["fmt"][t] = "jwt" if jw == "all" or (jw == "some" and r.p(0.45)) else "default"
    rules = cfg["rules"]
    rules["authorization_code"]["expires_in"] = r.pick(30, 120, 120, 300)
    rules["access_token"]["expires_in"] = r.pick(60, 600, 600, 3600)
    rules["refresh_token"]["expires_in"] = r.pick(300, 3000, 3000, 86400)
    if r.p(0.2):
        rules["refresh_token"]["max_usage"] = r.pick(1, 2, 3)
    if r.p(0.15):
        rules["refresh_token"].pop("expires_in")
    if r.p(0.1):
        rules["access_token"] = {}
    if r.p(0.15):
        rules["authorization_code"]["supports_minting"] = r.pick(
            ["access_token", "id_token"], ["access_token", "refresh_token"])
    if r.p(0.15):
        rules["refresh_token"]["supports_minting"] = r.pick(
            ["access_token"], ["access_token", "refresh_token"], ["access_token", "id_token"])
    cfg["grant_exp"] = r.pick(40000, 40000, 1500, 200, 0)
    cfg["authn_exp"] = r.pick(None, None, 100, 2000, 500)
    cfg["deny_unknown"] = r.p(0.15)
    if r.p(k["pkce"]):
        cfg["pkce"] = {"essential": r.p(0.5), "methods": r.pick(
            ["plain", "S256", "S384", "S512"], ["S256"], ["plain", "S256"], ["S256", "S512"])}
    cfg["cookie"] = r.w({"both": 3, "sign": 2, "enc": 2})
    cfg["csi"] = oidc and r.p(0.3)
    cfg["authn2"] = oidc and r.p(k["authn2"])
    cfg["hints"] = oidc and r.p(k["authn2"])
    cfg["idt_life"] = r.pick(300, 300, 60, 86400)
    cfg["jwt_life"] = r.pick(3600, 3600, 400)
    cfg["revoke_refresh"] = r.p(0.35)
    if not oidc:
        cfg["issue_refresh"] = r.pick(True, True, None)
    else:
        cfg["issue_refresh"] = r.w({None: 7, True: 1.5, False: 0.5})
    cfg["secret_expires_in"] = r.pick(2592000, 2592000, 500, 0)
    cfg["par_ttl"] = r.pick(600, 60, 60, 5)
    cfg["iss"] = r.i(5) if r.p(0.4) else 0
    for n in ("userinfo_conf", "idtoken_conf", "introspection_conf", "at_conf"):
        c = {}
        if r.p(0.35 if prop != "P11" else 0.6):
            if r.p(0.4):
                c["base_claims"] = r.pick({"email": None}, {"webid": None, "nickname": None},
                                          {"phone_number": {"essential": True}})
            if r.p(0.5):
                c["enable_claims_per_client"] = True
            elif r.p(0.3):
                c["always_add_claims"] = r.pick(["given_name"], {"family_name": None},
                                                ["email", "name"])
            if r.p(0.4):
                c["add_claims_by_scope"] = r.p(0.7)
        cfg[n] = c
    if r.p(0.15):
        cfg["scopes_to_claims"] = {
            "openid": ["sub"], "profile": ["name", "given_name", "webid"],
            "email": ["email", "email_verified"], "address": ["address"],
            "research": ["eduperson_scoped_affiliation", "name"], "offline_access": []}
    if r.p(0.12):
        cfg["allowed_scopes"] = r.pick(["openid", "profile", "offline_access"],
                                       ["openid", "email", "offline_access", "profile",
                                        "address"])
    if r.p(0.1) and not cfg["scopes_to_claims"]:
        cfg["custom"] = {"research": ["eduperson_scoped_affiliation", "name"],
                         "webid": ["webid"]}
        if r.p(0.2):        # another meaning of a standard scope
            cfg["custom"]["email"] = ["email", "nickname"]
    cfg["grants"] = r.w({0: 8, 1: 0.5, 2: 0.5, 3: 1})
    if r.p(k["narrow"]) and oidc:
        cfg["narrow"] = r.pick(["RS256", "ES256", "HS256"], ["ES256", "RS256"], ["RS256"],
                               ["HS256", "RS256", "PS256"])
        cfg["narrow_rt"] = r.i(4)
    cfg["dpop"] = r.p(k["dpop"])
    n = r.pick(1, 2, 2, 3, 3, 4)
    if prop in ("P03", "P12", "P20", "P11", "P25", "P28") and n == 1:
        n = 3
    k["ids"] = r.w({0: 3, 1: 1, 2: 0.6})
    cfg["clients"] = [gen_client(r, i, k, oidc) for i in range(n)]
    for c in cfg["clients"]:
        if cfg["narrow"]:
            c["info"]["response_types"] = [
                t for t in c["info"].get("response_types", ["code"])
                if " ".join(sorted(t.split())) in NARROW_RT[cfg["narrow_rt"]]] or ["code"]
        for a in ("id_token", "userinfo"):      # within what is announced
            a += "_signed_response_alg"
            if cfg["narrow"] and c["info"].get(a) not in cfg["narrow"]:
                c["info"].pop(a, None)
    seen = set()
    for c in cfg["clients"]:
        if c["id"] in seen:
            raise RuntimeError("client ids collide")
        seen.add(c["id"])
    if prop == "P25":
        for c in cfg["fmt"]:
            if c == "token" and r.p(0.8):
                cfg["fmt"][c] = "jwt"
    return cfg


# -------------------------------------------------------------------- operations
def idx(r):
    """which earlier thing: mostly the latest"""
    return r.w({-1: 6, -2: 2.5, -3: 1.2, 0: 1, 1: 0.7, 2: 0.5, -4: 0.5, 5: 0.3})


def put(op, name, v):
    if v:
        op[name] = v


class Gen:
    def __init__(self, r, prop, cfg, k):
        self.r, self.prop, self.cfg, self.k = r, prop, cfg, k
        self.oidc = cfg["flavour"] == "oidc"
        # users whose names look alike
        self.near = r.p(0.2)

    def user(self, w):
        if self.near:
            w = {0: 4, 3: 2, 4: 2, 5: 3}
        return self.r.w(w)

    def hold(self, op):
        if self.r.p(self.k["hold"]):
            op["hold"] = 1 + self.r.i(5)

    def fhttp(self, n=2):
        r = self.r
        out = 0
        for _ in range(1 + r.i(n)):
            out = out * 10 + r.i(10)
        return out

    def auth(self, op, ep="token"):
        r = self.r
        if r.p(self.k["badauth"]):
            op["auth"] = r.i(15) if r.p(0.75) else 9
        elif r.p(0.5):
            op["auth"] = r.i(4)
        if op.get("auth") in (4, 5, 6, 8, 12):
            put(op, "an", r.i(10))
        elif op.get("auth") in (2, 3) and r.p(0.25):
            op["an"] = 1 + r.i(3)
        if op.get("auth") == 9:
            put(op, "n", idx(r))
        elif op.get("auth") in (2, 3) and r.p(0.6):
            op["au"] = r.w({1: 2, 2: 1, 3: 1})
        if r.p(self.k["badauth"] * 0.4):
            op["cm"] = 1

    def corr(self, op):
        r = self.r
        if r.p(self.k["corrupt"]):
            if r.p(0.4):
                op["cross"] = 1 + r.i(3) if r.p(0.9) else 4
            else:
                op["cor"] = 1 + r.i(11)
                op["pos"] = r.i(400)

    def make(self, name):
        op = {"op": name}
        getattr(self, "g_" + name)(op, self.r, self.k)
        return op

    def g_authz(self, op, r, k):
        if r.p(0.75) or k["sso"] > 0.5:
            put(op, "b", r.i(3) if r.p(0.5) else 0)
        put(op, "c", r.i(len(self.cfg["clients"]) + (1 if r.p(0.3) else 0)))
        put(op, "u", self.user({0: 5, 1: 2, 2: 2}))
        if r.p(k["front"] + 0.1):
            op["rt"] = r.i(4)
        if r.p(k["offline"]):
            put(op, "sc", r.pick(2, 3, 7, 9))
        elif r.p(0.8):
            put(op, "sc", r.i(13))
        if r.p(0.3):
            put(op, "st", r.i(7))
        if r.p(0.08):
            put(op, "nw", r.i(7))
        if r.p(0.1):
            op["ex"] = 1 + r.i(7)
        if r.p(k["sso"]):
            put(op, "pr", r.w({2: 3, 0: 3, 1: 1.2, 3: 0.5, 4: 0.3}))
            put(op, "ma", r.w({0: 3, 1: 1.2, 2: 1.2, 3: 1, 4: 0.5, 5: 0.8, 6: 0.5}))
        elif r.p(0.25):
            put(op, "pr", r.i(5))
        if r.p(k["sso"] * 0.35):
            op["hi"] = 1 + r.i(6) if r.p(0.6) else 0
            if op["hi"] and r.p(0.25):
                op["hx"] = 1 + r.i(4)
        if r.p(k["claims"]):
            put(op, "cl", r.i(20))
        if self.oidc and r.p(0.45 if self.cfg["authn2"] else 0.04):
            op["ac"] = 1 + r.i(6)
        if self.oidc and r.p(0.3 if self.cfg["hints"] else 0.03):
            op["lh"] = 1 + r.i(8)
        if r.p(0.06):
            op["rto"] = 1 + r.i(3)
        if r.p(k["uri"]):
            op["ru"] = 2 + r.i(8) if r.p(0.5) else 10 + r.i(28)
            if r.p(0.15):
                op["rt"] = 20 + r.i(6)
                op.pop("ru")
        elif r.p(0.35):
            op["ru"] = 1
        if self.cfg["pkce"] is not None and r.p(0.85):
            good = {"S256": 1, "plain": 2, "S384": 4, "S512": 7}
            m = self.cfg["pkce"]["methods"]
            op["pk"] = good[m[r.i(len(m))]] if r.p(0.8) else 1 + r.i(7)
        elif self.cfg["pkce"] is None and r.p(0.08):
            op["pk"] = 1
        if r.p(0.12 if k["uri"] < 0.3 else 0.3):
            put(op, "rm", r.w({0: 1, 1: 2, 2: 2, 3: 4, 4: 0.3}))
        if self.oidc and r.p(k["ro"]):
            op["via"] = r.pick(1, 2)
            if r.p(0.45):
                op["tam"] = 1 + r.i(14)
                if op["tam"] == 6:
                    put(op, "rv", r.i(9))
            if r.p(0.3):
                op["om"] = 1 + r.i(2)
            if op["via"] == 2 and r.p(0.3):
                op["hf"] = self.fhttp(2)
        elif r.p(k["par"]):
            op["via"] = 3
            self.auth(op)
            if r.p(0.4):
                op["keep"] = 1
            if r.p(0.25):
                op["om"] = 1
            if r.p(0.12):
                op["oc"] = 1 + r.i(2)
        if self.oidc and r.p(0.09 if op.get("via") else 0.01):
            op["df"] = 1 + r.i(4)
            if op.get("via") == 3 and r.p(0.8):
                op["om"] = 1
        lg = r.w({0: 12, 1: 1, 2: 1.5})
        put(op, "lg", lg)
        if r.p(k["cookieatt"]):
            op["ck"] = r.pick(2, 3, 4, 5, 6, 7, 8, 9, 9)
            op["n"] = r.i(60)
            op["pos"] = r.i(4)
        elif r.p(0.15):
            op["ck"] = r.pick(1, 3, 4, 5)
            put(op, "n", r.i(8))
        if r.p(k["hold"] * 0.6):
            op["hold"] = 1 + r.i(4)
        if r.p(0.04):
            op["drop"] = 1
        if r.p(0.08):
            op["rq"] = 1
            op["n"] = idx(r)
        if r.p(0.1):
            op["nn"] = 1
        if "n" not in op and r.p(0.3):
            put(op, "n", r.i(4))

    def g_login(self, op, r, k):
        put(op, "n", idx(r))
        put(op, "u", self.user({0: 5, 1: 3, 2: 2}))
        if r.p(0.2):
            op["bad"] = 1 + r.i(6)
        elif r.p(0.25):
            op["forge"] = 1 + r.i(5)
            put(op, "fc", r.i(3))
            if r.p(0.5):
                op["q"] = 1

    def g_redeem(self, op, r, k):
        put(op, "tok", idx(r) if r.p(0.7) else -1)
        if "tok" not in op:
            op["tok"] = 0
        if r.p(k["foreign"]):
            x = r.i(3)
            if x == 0:
                op["c"] = 1 + r.i(4)
            else:
                op["ru"] = 1 + r.i(5) if r.p(0.6) else 10 + r.i(28)
                put(op, "n", r.i(3))
        elif r.p(0.02):
            op["c"] = 1 + r.i(3)
        if self.cfg["pkce"] is not None and r.p(0.3):
            op["ver"] = 1 + r.i(7)
            put(op, "n", r.i(3))
            if r.p(0.3):
                op["xp"] = 1 + r.i(3)
                if op["xp"] == 1:
                    op["ver"] = 6
        elif r.p(0.06):
            op["xp"] = 1 + r.i(5)
        self.auth(op)
        self.corr(op)
        self.hold(op)
        if r.p(0.05):
            op["drop"] = 1
        self.dp(op)

    def dp(self, op):
        r = self.r
        if self.cfg["dpop"]:
            if r.p(0.35):
                op["dp"] = 1 + r.i(13)
                put(op, "hu", r.i(11))
            put(op, "dk", r.i(3))

    def g_refresh(self, op, r, k):
        op["tok"] = idx(r)
        if r.p(k["foreign"] * 0.7):
            op["c"] = 1 + r.i(4)
        if r.p(0.5 if self.prop in ("P07", "P09") else 0.3):
            put(op, "sc", r.i(11))
        self.auth(op)
        self.corr(op)
        self.hold(op)
        if r.p(0.05):
            op["drop"] = 1
        self.dp(op)

    def g_resend(self, op, r, k):
        op["n"] = idx(r)
        self.hold(op)

    def g_introspect(self, op, r, k):
        op["tok"] = idx(r)
        if r.p(0.4):
            op["k"] = 1
        put(op, "c", r.i(4))
        if r.p(k["badauth"]):
            op["auth"] = r.pick(4, 5, 10, 11, 13, 15, 0)
        elif r.p(0.4):
            op["auth"] = 1
        self.corr(op)
        if r.p(k["hold"] * 0.5):
            op["hold"] = 1 + r.i(3)

    def g_userinfo(self, op, r, k):
        op["tok"] = idx(r)
        if r.p(0.25):
            op["body"] = 1
        self.corr(op)
        if r.p(k["hold"] * 0.7):
            op["hold"] = 1 + r.i(3)

    def g_revoke(self, op, r, k):
        put(op, "k", r.w({0: 2, 1: 2, 2: 2, 3: 2, 4: 1, 5: 0.4, 6: 0.6, 7: 0.8, 8: 0.6}))
        op["tok"] = idx(r)
        op["g"] = idx(r)

    def g_par_use(self, op, r, k):
        op["n"] = idx(r)
        put(op, "b", r.i(3))
        put(op, "u", self.user({0: 1, 1: 1, 2: 1}))
        if r.p(0.25):
            op["om"] = 1
        if r.p(0.15):
            op["oc"] = 1 + r.i(3)
        self.hold(op)
        if r.p(0.15):
            op["ck"] = 1
        if r.p(0.1):
            op["lg"] = r.pick(1, 2)

    def g_logout(self, op, r, k):
        put(op, "b", r.i(3) if r.p(0.4) else 0)
        put(op, "h", r.w({0: 3, 1: 4, 2: 0.9, 3: 0.2, 4: 0.2, 5: 0.2, 6: 0.2}))
        if op.get("h"):
            op["tok"] = idx(r)
            put(op, "pl", r.w({0: 2, 1: 4, 2: 0.7, 3: 0.7, 4: 0.7, 5: 0.5, 6: 0.5}))
            put(op, "pi", r.i(2))
        elif r.p(0.1):
            op["pl"] = 1 + r.i(3)
        if r.p(0.3):
            op["st"] = r.pick(1, 1, 2, 3)
        if r.p(0.2):
            op["keep"] = 1
        if r.p(0.5):
            op["alla"] = 1
        if r.p(0.4):
            op["keepck"] = 1
        if r.p(k["postfault"]):
            op["hf"] = self.fhttp(3)
        if r.p(k["cookieatt"]):
            op["ck"] = r.pick(2, 3, 4, 5, 6, 7, 8, 9, 9)
            op["n"] = r.i(60)
            op["pos"] = r.i(4)
        elif r.p(0.1):
            op["ck"] = r.pick(1, 3, 4)
            put(op, "n", r.i(6))

    def g_confirm(self, op, r, k):
        op["n"] = idx(r)
        if r.p(0.3):
            op["fg"] = 1 + r.i(4)
        if r.p(0.5):
            op["alla"] = 1
        if r.p(k["postfault"]):
            op["hf"] = self.fhttp(3)
        if r.p(0.4):
            op["keepck"] = 1

    def g_register(self, op, r, k):
        if r.p(0.65):
            own = {"P28": (18, 3), "P20": (30, 3), "P26": (35, 4)}.get(self.prop)
            put(op, "v", r.i(39) if not own or r.p(0.3) else own[0] + r.i(own[1]))
        if op.get("v") in (2, 28, 33, 35, 36, 37, 38):
            put(op, "sd", r.i(14))
        if r.p(0.3):
            op["two"] = 1
        if r.p(0.3):
            put(op, "rt", r.i(5))
        if r.p(0.3):
            op["sub"] = 1
        if r.p(0.4):
            op["jk"] = 1 + r.i(2)
        if r.p(k["regfault"]):
            op["hf"] = self.fhttp(2)
            if r.p(0.6):
                op["v"] = 1
        if r.p(0.05):
            op["drop"] = 1
        if r.p(k["hold"] * 0.7):
            op["hold"] = 1 + r.i(3)

    def g_read(self, op, r, k):
        op["n"] = idx(r)
        if r.p(0.45):
            put(op, "v", 1 + r.i(5))
            put(op, "c", r.i(5))

    def g_meta(self, op, r, k):
        put(op, "v", r.i(5))

    def g_junk(self, op, r, k):
        put(op, "n", r.i(7))
        put(op, "v", r.i(14))
        if r.p(0.4):
            op["auth"] = 1
        put(op, "c", r.i(4))
        if r.p(0.3):
            op["h"] = 1 + r.i(3)

    def g_clock(self, op, r, k):
        m = r.w({0: 4, 1: 6, 2: 0.6, 3: 0.8})
        put(op, "m", m)
        if m == 0:
            op["n"] = r.pick(1, 1, 2, 5, 11, 30, 101, 400)
        elif m == 1:
            op["n"] = r.i(12) if r.p(0.6) else r.i(4)
            if r.p(0.2):
                op["f"] = 1
        elif m == 2:
            op["n"] = r.pick(1, 2, 10, 100, 399)
        else:
            op["n"] = r.i(90)

    def g_snapshot(self, op, r, k):
        pass

    def g_restart(self, op, r, k):
        if r.p(0.3):
            op["kill"] = 1

    def g_crash(self, op, r, k):
        pass

    def g_step(self, op, r, k):
        put(op, "n", r.i(3))


# small scenario templates: a correct flow laid down so that faults hit something alive
def flow(g, r, tail):
    out = [g.make("authz")]
    out[0].pop("lg", None)
    x = {"op": "redeem", "tok": -1}
    g.dp(x)
    if g.cfg["pkce"] is None or True:
        out.append(x)
    for t in tail:
        out.append(g.make(t))
    return out


TAILS = {
    "P02": [["refresh", "refresh", "resend", "userinfo", "introspect"],
            ["resend", "introspect", "userinfo"],
            ["refresh", "restart", "resend", "introspect", "refresh"]],
    "P06": [["refresh", "revoke", "userinfo", "introspect", "refresh"],
            ["revoke", "userinfo", "restart", "introspect", "authz"]],
    "P05": [["clock", "userinfo", "introspect", "refresh", "clock", "userinfo", "introspect"],
            ["refresh", "clock", "refresh", "clock", "refresh"]],
    "P07": [["refresh", "refresh", "introspect", "refresh", "introspect"]],
    "P09": [["refresh", "refresh", "refresh", "resend", "refresh"],
            ["refresh", "resend", "refresh", "introspect"]],
    "P14": [["authz", "clock", "authz", "clock", "authz"], ["clock", "authz", "revoke", "authz"]],
    "P15": [["authz", "authz", "authz"], ["logout", "authz"]],
    "P20": [["authz", "logout", "userinfo", "introspect", "authz"],
            ["authz", "redeem", "logout", "introspect", "userinfo", "refresh", "authz"]],
    "P18": [["register", "authz", "redeem", "read"], ["register", "register", "read"]],
    "P17": [["register", "clock", "redeem", "read"], ["redeem", "resend", "restart", "resend"]],
    "P19": [["par_use", "par_use", "restart", "par_use"], ["clock", "par_use"]],
    "P21": [["restart", "userinfo", "introspect", "refresh"], ["register", "restart", "read"],
            ["register", "restart", "authz", "redeem"], ["restart", "refresh", "resend"],
            ["par_use", "restart", "par_use", "logout", "restart", "confirm"]],
    "P08": [["userinfo", "introspect"], ["userinfo", "introspect"], ["register", "read", "read"]],
    "P25": [["refresh", "introspect", "redeem"], ["authz", "redeem", "introspect"]],
}


def gen_case(prop, seed, n):
    """The n-th case of a batch: a pure function of (prop, seed, n)."""
    r = R("%s/%s/%s" % (prop, seed, n))
    k, w = knobs(prop, r)
    cfg = gen_cfg(r, prop, k)
    g = Gen(r, prop, cfg, k)
    length = r.w({6: 2, 12: 4, 20: 4, 35: 3, 60: 1})
    length = max(3, int(length * (0.6 + 0.8 * r.random())))
    ops = []
    tails = TAILS.get(prop, [["userinfo", "introspect"]])
    for _ in range(r.pick(1, 1, 2)):
        if r.p(0.8):
            ops += flow(g, r, tails[r.i(len(tails))] if r.p(0.7) else [])
    if r.p(0.08):
        # much of one thing: what happens only when a lot has been accumulated
        ops += flow(g, r, [])
        kind = r.pick("refresh", "refresh", "refresh", "authz", "redeem",
                      *PROFILES.get(prop, {}).get("ops", {}))
        for _ in range(8 + r.i(12)):
            ops.append(g.make(kind))
            if r.p(0.1):
                ops.append(g.make(r.w(w)))
        for x in tails[r.i(len(tails))]:
            ops.append(g.make(x))
    while len(ops) < length:
        ops.append(g.make(r.w(w)))
        if r.p(0.05):
            ops += flow(g, r, tails[r.i(len(tails))] if r.p(0.5) else [])
    for i, op in enumerate(ops):
        op["id"] = i + 1
    twin = prop == "P21" and r.p(0.7)
    return {"cfg": cfg, "ops": ops, "seed": r.i(1 << 30), "target": prop, "twin": twin,
            "origin": "%s/%s/%s" % (prop, seed, n)}
