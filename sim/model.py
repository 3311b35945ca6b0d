"""Reference model: what the provider must remember, kept as plain objects.

Nothing here looks at the provider's internals; the model is fed only with the
requests the simulator sent, the answers it saw and the configuration."""
import copy

from .world import USERS

CODE, AT, RT, IDT = "authorization_code", "access_token", "refresh_token", "id_token"

SCOPE2CLAIMS = {
    "openid": ["sub"],
    "profile": ["name", "given_name", "family_name", "middle_name", "nickname", "profile",
                "picture", "website", "gender", "birthdate", "zoneinfo", "locale",
                "updated_at", "preferred_username"],
    "email": ["email", "email_verified"],
    "address": ["address"],
    "phone": ["phone_number", "phone_number_verified"],
    "offline_access": [],
}

UNIVERSE = sorted({k for u in USERS.values() for k in u["info"]} - {"sub", "nonce", "aud", "acr", "auth_time", "iss"})


class Tok:
    def __init__(self, kind, value, grant, parent, scope, iat, exp, jwt_exp, rules):
        self.kind = kind
        self.value = value
        self.grant = grant
        self.parent = parent
        self.kids = []
        self.scope = list(scope)
        self.iat = iat
        self.exp = exp
        self.jwt_exp = jwt_exp
        self.rules = rules or {}
        self.used = 0
        self.revoked = set()   # property tags: why it must be dead
        self.maybe = False     # dead or alive, both fine
        self.born = 0          # op count
        if parent is not None:
            parent.kids.append(self)

    def descendants(self):
        out = []
        for k in self.kids:
            out.append(k)
            out.extend(k.descendants())
        return out

    def expired(self, now):
        return (self.exp is not None and now > self.exp) or \
            (self.jwt_exp is not None and now > self.jwt_exp)

    def dead(self, now, ignore_grant_expiry=False):
        """(tags, maybe)"""
        tags = set(self.revoked)
        maybe = self.maybe
        g = self.grant
        if g.removed:
            tags |= {"P06", "P22"}
        tags |= g.revoked
        if g.maybe:
            maybe = True
        if self.expired(now):
            tags.add("P05")
        if self.kind == CODE and self.used:
            tags |= {"P01", "P02"}
        if self.kind == RT and "max_usage" in self.rules and \
                self.used >= self.rules["max_usage"]:
            tags.add("P09")
        if self.jwt_exp is not None and self.iat > now:
            maybe = True
        if g.expired(now):
            maybe = True
        return tags, maybe


class MGrant:
    def __init__(self, uid, cid, gid, sid, req, scope, authn):
        self.uid, self.cid, self.gid, self.sid = uid, cid, gid, sid
        self.req = req            # the effective request as a plain dict
        self.scope = list(scope)
        self.authn = authn        # shared dict: time, until
        self.expires_at = None
        self.revoked = set()
        self.removed = False
        self.maybe = False
        self.sub = None
        self.rules = {}
        self.toks = []
        self.idt = 0              # ID tokens issued
        self.t = 0
        self.jkt = None

    def key(self):
        return (self.uid, self.cid, self.gid)

    def expired(self, now):
        return self.expires_at is not None and now > self.expires_at


class Model:
    def __init__(self):
        self.toks = {}        # value -> Tok
        self.grants = {}      # (uid,cid,gid) -> MGrant
        self.clients = {}     # cid -> info
        self.jtis = set()
        self.par = {}         # urn -> dict
        self.rats = {}        # registration access token -> cid

    def copy(self):
        return copy.deepcopy(self)

    def client_grants(self, uid, cid):
        return [g for g in self.grants.values()
                if g.uid == uid and g.cid == cid and not g.removed]


# ------------------------------------------------------------- configuration
def usage_rules(cfg, cinfo):
    rules = copy.deepcopy(cfg["rules"])
    per = cinfo.get("token_usage_rules")
    if per is None:
        return rules
    if not rules:
        return copy.deepcopy(per)
    for typ in list(rules):
        pc = per.get(typ)
        if pc:
            rules[typ].update(pc)
        elif pc == {}:
            rules[typ] = {}
    for typ, r in per.items():
        if typ not in rules:
            rules[typ] = copy.deepcopy(r)
    return rules


def allowed_scopes(cfg, cinfo):
    if "allowed_scopes" in cinfo:
        return list(cinfo["allowed_scopes"])
    if "scopes_to_claims" in cinfo:
        return list(cinfo["scopes_to_claims"])
    return list(cfg["allowed_scopes"] or cfg["scopes_to_claims"] or SCOPE2CLAIMS) + \
        list(cfg["custom"] or [])


def filter_scopes(cfg, cinfo, scopes):
    al = allowed_scopes(cfg, cinfo)
    return [s for s in scopes if s in al]


def scope_claims(cfg, cinfo, scopes):
    mp = cinfo.get("scopes_to_claims") or cfg["scopes_to_claims"] or \
        dict(SCOPE2CLAIMS, **(cfg["custom"] or {}))
    out = {}
    for s in filter_scopes(cfg, cinfo, scopes):
        for c in mp.get(s, []):
            out[c] = None
    return out


def claims_spec(cfg, cinfo, point, scopes, req_claims, secondary=""):
    """Which claims must be released at `point`, and under which restriction."""
    if cfg["flavour"] == "oauth2" and point not in ("introspection", "access_token"):
        return {}
    conf = {"userinfo": dict({"add_claims_by_scope": True}, **cfg["userinfo_conf"]),
            "id_token": cfg["idtoken_conf"],
            "introspection": cfg["introspection_conf"],
            "access_token": cfg["at_conf"] if cfg["fmt"]["token"] == "jwt" else {}}[point]
    spec = dict(conf.get("base_claims", {}))
    if conf.get("enable_claims_per_client"):
        add = cinfo.get("add_claims", {})
        bs = add.get("by_scope", {})
        by_scope = False
        if bs:
            by_scope = bs.get(point, False)
            if not by_scope and secondary:
                by_scope = bs.get(secondary, False)
        if not by_scope:
            by_scope = conf.get("add_claims_by_scope", False)
        al = add.get("always", {})
        always = list(al.get(point, []))
        if secondary:
            always += list(al.get(secondary, []))
    else:
        by_scope = conf.get("add_claims_by_scope")
        always = conf.get("always_add_claims", {})
    if always:
        if isinstance(always, list):
            spec.update({k: None for k in always})
        else:
            spec.update(always)
    if by_scope and scopes:
        spec.update(scope_claims(cfg, cinfo, scopes))
    rc = (req_claims or {}).get(point) or {}
    spec.update(rc)
    return spec


def match(value, spec):
    if value is None:
        return False
    if spec is None:
        return True
    if "value" in spec and value == spec["value"]:
        return True
    if "values" in spec and value in spec["values"]:
        return True
    return list(spec.keys()) == ["essential"]


def released(uid, spec):
    info = USERS[uid]["info"]
    return {k: info[k] for k, v in spec.items() if k in UNIVERSE and match(info.get(k), v)}


def sector_of(cinfo):
    """Host of the sector identifier, else of the redirect URIs (they share one then)."""
    from urllib.parse import urlparse
    if cinfo.get("sector_id"):
        return urlparse(cinfo["sector_id"]).netloc
    for r in cinfo.get("redirect_uris", []):
        u = urlparse(r if isinstance(r, str) else r[0])
        return u.netloc or u.scheme
    return ""
