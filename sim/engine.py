"""The simulator: executes one case (configuration + operation list + seed) against a real
provider, with a seeded schedule and faults, and judges every answer with the model."""
import base64
import contextlib
import copy
import hashlib
import html
import json
from urllib.parse import parse_qs
from urllib.parse import parse_qsl
from urllib.parse import quote
from urllib.parse import quote_plus
from urllib.parse import urlencode
from urllib.parse import urlparse

from . import fresh
from . import world
from .env import CLOCK
from .env import ENTROPY
from .env import EPOCH
from .glue import Exchange
from .glue import login as glue_login
from .glue import page_action
from .glue import page_token
from .glue import stable
from .glue import parse_form_post
from .glue import verified_logout
from .model import AT
from .model import CODE
from .model import IDT
from .model import MGrant
from .model import Model
from .model import RT
from .model import Tok
from .model import UNIVERSE
from .model import allowed_scopes
from .model import claims_spec
from .model import filter_scopes
from .model import match
from .model import released
from .model import sector_of
from .model import usage_rules
from .world import ACR
from .world import ACR2
from .world import CLIENT_JWKS
from .world import HTTPWorld
from .world import Node
from .world import OP_JWKS
from .world import USERS
from .world import USER_IDS

from cryptojwt.jwe.jwe import JWE
from cryptojwt.jwe.jwe import factory as jwe_factory
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import JWS
from cryptojwt.jws.utils import left_hash

PATHS = {"token": "/token", "introspection": "/introspection", "pushed_authorization": "/par",
         "userinfo": "/userinfo", "registration": "/registration",
         "registration_read": "/registration_api", "authorization": "/authorization",
         "session": "/session"}
N_BROWSERS = 3
PROTECTED = {"userinfo_signed_response_alg", "userinfo_encrypted_response_alg"}

_KEYS = {}


def client_key(i):
    if ("c", i) not in _KEYS:
        d = [k for k in CLIENT_JWKS[i]["keys"] if k["kty"] == "RSA"][0]
        _KEYS[("c", i)] = key_from_jwk_dict(d)
    return _KEYS[("c", i)]


def client_enc_key(i):
    if ("e", i) not in _KEYS:
        d = [k for k in CLIENT_JWKS[i]["keys"] if k["use"] == "enc"][0]
        _KEYS[("e", i)] = key_from_jwk_dict(d)
    return _KEYS[("e", i)]


def op_keys():
    if "op" not in _KEYS:
        _KEYS["op"] = [key_from_jwk_dict({k: v for k, v in d.items()
                                          if k in ("kty", "n", "e", "kid", "use", "alg",
                                                   "crv", "x", "y")})
                       for d in OP_JWKS["keys"]]
    return _KEYS["op"]


def op_enc_key():
    d = next(d for d in OP_JWKS["keys"] if d["use"] == "enc")
    return key_from_jwk_dict({k: d[k] for k in ("kty", "n", "e", "kid", "use")})


def sign(payload, key, alg="RS256"):
    return JWS(json.dumps(payload), alg=alg).sign_compact([key] if key is not None else [])


def b64j(seg):
    return json.loads(base64.urlsafe_b64decode(seg + "=" * (-len(seg) % 4)))


def jwt_payload(tok):
    return b64j(tok.split(".")[1])


def pick(lst, i):
    if not lst:
        return None
    return lst[i % len(lst)]


def near_password(uid, action, n):
    strong = "-strong" if action == "verify/strong" else ""
    pw = USERS[uid]["password"] + strong
    return ["wrong", pw[:-1], pw + "x", pw.upper(), "",
            USERS[USER_IDS[(USER_IDS.index(uid) + 3) % len(USER_IDS)]]["password"] + strong][
                (n - 1) % 6]


class Stop(Exception):
    pass


class J:
    """Judgement about a request: tags = reasons it must be refused."""

    def __init__(self, tags=(), maybe=False, ctx=()):
        self.tags = set(tags)
        self.maybe = maybe
        self.ctx = set(ctx)

    def __or__(self, o):
        return J(self.tags | o.tags, self.maybe or o.maybe, self.ctx | o.ctx)


def same_uri(a, b):
    """Whether two URIs differ in how their query parts are written only."""
    a, _, qa = a.partition("?")
    b, _, qb = b.partition("?")
    return a == b and parse_qs(qa, keep_blank_values=True) == parse_qs(qb, keep_blank_values=True)


def spelling(uri, n):
    """spellings of a URI that are not that URI"""
    sep = "&" if "?" in uri else "?"
    scheme, _, rest = uri.partition("://")
    host, _, path = rest.partition("/")
    if n % 28 >= 19:
        head, _, q = uri.partition("?")
        q = q.split("&") if q else ["x=1"]
        k, _, v = q[0].partition("=")
        return head + "?" + "&".join(
            [["evil=1"] + q, q[1:], q[:-1], [k + "=" + v + "9"] + q[1:],
             [k + "=9"] + q, [k.swapcase() + "=" + v] + q[1:], ["", k + "=1&"] + q,
             [q[0], k + "=9"] + q[2:], (q[1:2] or q[:1]) + q[1:]][n % 28 - 19])
    return [uri + sep + "blank=", uri + sep + "extra",
            uri.replace("/cb", "/c%62").replace("/other", "/%6fther"),
            uri + ("&" if "?" in uri else "?"), uri + "#", uri + "\n",
            uri + (sep + "x=1"), uri + "/", scheme + "://" + host + ".evil.example/" + path,
            scheme + "://user@" + rest, uri.upper(), uri + "?x=1&x=1",
            scheme + "://" + host + ":443/" + path,
            scheme + "://" + host + "/../" + path, scheme + "://" + host.upper() + "/" + path,
            scheme + "://" + host + "/" + path.upper(), uri[:-1],
            scheme + "://" + host + "/" + path[:1], scheme + "://" + host][n % 28]


class EC:
    """A client as seen from outside."""

    def __init__(self, cid, secret, jwk, info, dyn=False, jwks_uri=None):
        self.cid, self.secret, self.jwk, self.info = cid, secret, jwk, info
        self.dyn = dyn
        self.jwks_uri = jwks_uri
        self.rat = None
        self.reg = None

    def uris(self):
        out = []
        for base, q in self.info["redirect_uris"]:
            if q:
                out.append(base + "?" + "&".join(
                    "%s=%s" % (quote(k, safe=""), quote(v, safe="")) for k in q for v in q[k]))
            else:
                out.append(base)
        return out

    def rtypes(self):
        return self.info.get("response_types") or ["code"]


class Pair:
    """One exchange, mirrored on the twin when there is one."""

    def __init__(self, sim, opid, ep, args, **kw):
        self.sim = sim
        self.opid = opid
        self.ep = ep
        self.main = Exchange(sim.node, ep, copy.deepcopy(args), **copy.deepcopy(kw))
        self.twin = Exchange(sim.twin, ep, copy.deepcopy(args), **copy.deepcopy(kw)) \
            if sim.twin else None

    def _both(self, phase):
        sim = self.sim
        ENTROPY.reseed(sim.seed, self.opid, self.ep, phase)
        plan = list(sim.http.fault_plan)
        sim.steps += 1
        sim.sched.append("%s.%s" % (self.ep, phase) + ("+" if sim.parked else ""))
        r = getattr(self.main, phase)()
        if self.twin is not None:
            ENTROPY.reseed(sim.seed, self.opid, self.ep, phase)
            sim.twin_http.docs = sim.http.docs
            sim.twin_http.fault_plan = plan
            with sim.twin_process:
                t = getattr(self.twin, phase)()
            sim.compare(self.ep + "." + phase, r, t)
        return r

    def parse(self):
        return self._both("parse")

    def process(self):
        return self._both("process")


def _scrub(v):
    return v


class Sim:
    MAX_SIDE = 6

    def __init__(self, case, keep=False):
        self.case = case
        self.cfg = case["cfg"]
        self.seed = case["seed"]
        self.target = case.get("target")
        self.violations = []
        self.log = []
        self.stats = {}
        self.hits = {}
        self.steps = 0
        self.sched = []
        self.model = Model()
        self.parked = []
        self.opid = 0
        self.n_ops = 0
        self.restarted = 0
        self.meta = None
        self.crashed = 0
        self.faulted = 0
        self.replays = 0
        self.revocations = 0
        self.desync = False
        CLOCK.set(EPOCH)
        self.t0 = EPOCH
        self.tmax = EPOCH
        world.set_issuer(self.cfg.get("iss", 0))
        self.http = HTTPWorld()
        ENTROPY.reseed(self.seed, "build")
        fresh.reset()
        self.node = Node(self.cfg, self.http)
        self.twin = None
        if case.get("twin"):
            ENTROPY.reseed(self.seed, "build")
            self.twin_http = HTTPWorld()
            self.twin_process = fresh.Process()
            with self.twin_process:
                self.twin = Node(self.cfg, self.twin_http)
        self.ec = []
        for ci in self.cfg["clients"]:
            self.ec.append(EC(ci["id"], ci["info"].get("client_secret"), ci.get("jwk"),
                              copy.deepcopy(ci["info"])))
            self.model.clients[ci["id"]] = copy.deepcopy(ci["info"])
        self.browsers = [{"jar": {}, "hist": []} for _ in range(N_BROWSERS)]
        self.cookies = {}
        self.toks = {CODE: [], AT: [], RT: [], IDT: []}
        self.pages = []
        self.reqs = []
        self.pars = []
        self.sent = []
        self.asserts = []
        self.logouts = []
        self.subs = {}
        self.sub_owner = {}
        self.snapshot = self._snap()
        self.seen_gids = set()
        self.sniff = {}

    # ------------------------------------------------------------ utilities
    def now(self):
        return int(CLOCK.now)

    def process(self, node):
        return self.twin_process if node is self.twin else contextlib.nullcontext()

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def hit(self, *props):
        for p in props:
            self.hits[p] = self.hits.get(p, 0) + 1

    def sched_digest(self):
        return hashlib.blake2b("\n".join(self.sched).encode(), digest_size=8).hexdigest()

    def note(self, s):
        self.log.append("%s %s" % (self.opid, s))

    def viol(self, tags, msg):
        tags = set(tags)
        if not tags:
            tags = {"P23"}
        self.violations.append({"props": sorted(tags), "msg": msg, "op": self.opid,
                                "time": CLOCK.now - self.t0})
        self.note("VIOLATION %s %s" % (",".join(sorted(tags)), msg))
        if self.target is None or self.target in tags or len(self.violations) >= self.MAX_SIDE:
            raise Stop()

    def compare(self, what, r, t):
        if self.restarted:
            self.hit("P21")
        if r is None and t is None:
            return
        if r is None or t is None or r.visible() != t.visible():
            self.viol({"P21"}, "%s answered differently by the restarted provider: %s vs %s" % (
                what, self._short(r), self._short(t)))

    def _short(self, r):
        if r is None:
            return "accepted"
        return "%s %.300s" % (r.short(), r.visible()[2:])

    def cinfo(self, cid):
        return self.model.clients.get(cid)

    # --------------------------------------------------------------- main loop
    def run(self):
        try:
            self.check_meta()
            for op in self.case["ops"]:
                self.opid = op["id"]
                self.n_ops += 1
                ENTROPY.reseed(self.seed, self.opid, "op")
                self.http.fault_plan = []
                fn = getattr(self, "op_" + op["op"])
                self.count("op_" + op["op"])
                fn(op)
                self.check_tree()
                self.check_meta()
                self.tick_parked()
                self.tmax = max(self.tmax, CLOCK.now)
            self.opid = 900000
            self.epilogue()
            self.check_meta()
            if self.target == "P26":
                self.op_meta({})
        except Stop:
            pass
        return self

    def digest(self):
        return hashlib.blake2b("\n".join(self.log).encode(), digest_size=12).hexdigest()

    def tick_parked(self):
        for e in list(self.parked):
            e["k"] -= 1
            if e["k"] <= 0 and e in self.parked:
                self.release(e)

    def release(self, e):
        self.parked.remove(e)
        save, self.opid = self.opid, e["opid"]
        self.count("sched_released")
        try:
            e["fn"]()
            self.check_tree()
        finally:
            self.opid = save

    def launch(self, op, ep, args, judge, finish, **kw):
        """parse now; process now or after `hold` further operations."""
        x = Pair(self, self.opid, ep, args, **kw)

        def done(res, j, phase):
            for t in j.tags:
                self.hit(t)
            finish(res, j, phase)

        http = self.plan(op)
        j1 = judge("parse")
        t1 = self.now()
        self.http.fault_plan = list(http)
        r = x.parse()
        rest = list(self.http.fault_plan)
        self.http.fault_plan = []
        if r is not None:
            done(r, j1, "parse")
            return r

        def second():
            j2 = judge("process")
            if self.now() < t1 and "P05" in j1.tags - j2.tags:
                # no longer expired when it is processed: the clock was set back in between
                j1.tags.discard("P05")
                j2.maybe = True
            self.http.fault_plan = rest
            res = x.process()
            self.http.fault_plan = []
            done(res, j1 | j2, "process")
            return res

        if op.get("hold"):
            self.count("fault_delay")
            self.note("parked")
            self.parked.append({"k": op["hold"], "fn": second, "opid": self.opid})
            return None
        return second()

    FAULTS = [None, "refused", "timeout", "500", "503", "404", "501", "garbage", "truncated",
              "empty"]

    def plan(self, op):
        f = op.get("hf")
        if not f:
            return []
        out = []
        while f:
            out.append(self.FAULTS[f % 10])
            f //= 10
        for k in out:
            if k:
                self.faulted += 1
                self.count("fault_http_" + k)
        return out

    # ------------------------------------------------------------- durability
    def _snap(self):
        txt = self.node.dump()
        return txt, self.model.copy()

    def op_snapshot(self, op):
        try:
            self.snapshot = self._snap()
        except Exception as err:
            self.viol({"P21"}, "state cannot be exported: %r" % err)
        self.note("snapshot")

    def _settle(self, op):
        if op.get("kill"):
            self.count("fault_killed_inflight", len(self.parked))
            self.parked = []
        while self.parked:
            self.release(self.parked[0])

    def op_restart(self, op):
        """Orderly stop and start: everything exported, everything loaded."""
        if self.twin:
            op = dict(op, kill=0)
        self._settle(op)
        try:
            self.snapshot = self._snap()
        except Exception as err:
            self.viol({"P21", "P22"}, "state cannot be exported: %r" % err)
            return
        self._load("restart")

    def _load(self, why):
        ENTROPY.reseed(self.seed, self.opid, "load")
        fresh.reset()
        try:
            self.node.load(self.snapshot[0])
        except Exception as err:
            self.viol({"P21"}, "exported state cannot be loaded: %r" % err)
            raise Stop()
        self.restarted += 1
        self.sched.append(why)
        self.count("fault_" + why)
        self.note(why)

    def op_crash(self, op):
        """Process dies; only the last snapshot survives."""
        if self.twin:
            return self.op_restart(op)
        self.count("fault_killed_inflight", len(self.parked))
        self.parked = []
        self._load("crash")
        self.model = self.snapshot[1].copy()
        self.crashed += 1

    # ------------------------------------------------------------------ clock
    def op_clock(self, op):
        mode, n = op.get("m", 0), op.get("n", 1)
        if mode == 0:
            CLOCK.advance(n)
        elif mode == 1:     # to an expiry boundary
            cands = sorted({e + d for e in self._boundaries() for d in (-1, 0, 1)
                            if e + d > self.now()})
            if cands:
                CLOCK.set(cands[n % min(len(cands), 12)] + (0.5 if op.get("f") else 0.0))
            else:
                CLOCK.advance(1 + n % 50)
        elif mode == 2:
            CLOCK.advance(-(n % 400))
            self.count("fault_clock_back")
        elif mode == 3:
            CLOCK.advance(n % 90 * 1000)
        self.count("fault_clock_move")
        self.note("clock %.1f" % (CLOCK.now - self.t0))

    def _boundaries(self):
        out = set()
        for t in self.model.toks.values():
            for e in (t.exp, t.jwt_exp):
                if e:
                    out.add(e)
        for g in self.model.grants.values():
            if g.expires_at:
                out.add(g.expires_at)
            out.add(g.authn["until"])
        for p in self.model.par.values():
            out.add(p["exp"])
        for c in self.model.clients.values():
            if c.get("client_secret_expires_at"):
                out.add(c["client_secret_expires_at"])
        return out

    def op_step(self, op):
        e = pick(self.parked, op.get("n", 0))
        if e:
            self.release(e)

    # ------------------------------------------------------ client credentials
    def authenticate(self, op, ec, ep, mode):
        """-> args, headers, judge()"""
        mode = mode or 0
        url = world.BASE + PATHS[ep]
        args, headers = {}, {}
        only_basic = ep == "introspection"
        cid, sec = ec.cid, ec.secret
        bad = set()
        jti = None
        other = pick([c for c in self.ec if c.cid != ec.cid], self.opid) or ec
        lvl = {"maybe": False}
        an = op.get("an", 0)
        made = self.now()

        def assertion(key, alg, **over):
            n = self.now()
            aud = [[url], sorted(world.BASE + x for x in PATHS.values()), url,
                   ["https://elsewhere.example.com/", url]][op.get("au", 0) % 4]
            p = {"iss": cid, "sub": cid, "aud": aud, "jti": "j%s" % self.opid,
                 "iat": n, "exp": n + 600}
            if an and mode in (2, 3) and not ec.jwks_uri:
                # identifiers only have to be unique for one issuer
                p["jti"] = "shared%d" % (an % 3)
            hdr = over.pop("hdr", {})
            p.update(over)
            tok = JWS(json.dumps(p), alg=alg).sign_compact([key], **hdr) if hdr else \
                sign(p, key, alg)
            self.asserts.append({"cid": cid, "jwt": tok, "jti": p["jti"], "ep": ep,
                                 "good": True, "wide": len(aud) > 2 and not over and
                                 isinstance(aud, list)})
            args["client_assertion"] = tok
            args["client_assertion_type"] = \
                "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
            return p["jti"]

        def basic(c, s):
            headers["authorization"] = "Basic " + base64.b64encode(
                ("%s:%s" % (quote_plus(c), quote_plus(s))).encode()).decode()

        if mode in (2, 3, 6, 7, 8, 9, 12, 14) and only_basic:
            mode = mode % 2
        if mode in (3, 6, 7, 8) and ec.jwk is None:
            mode = 0 if mode == 3 else 4
        if sec is None and mode in (0, 1, 2):
            mode = 3
        if mode == 0:
            basic(cid, sec)
        elif mode == 1:
            args.update(client_id=cid, client_secret=sec)
        elif mode == 2:
            jti = assertion(SYMKey(key=sec), "HS256")
        elif mode == 3:
            jti = assertion(client_key(ec.jwk), "RS256")
            if ec.jwks_uri and self.faulted:
                lvl["maybe"] = True
        elif mode == 4:
            basic(cid, self.near_secret(sec or "x", an))
            bad = {"P17"}
        elif mode == 5:
            args.update(client_id=cid, client_secret=self.near_secret(sec, an)
                        if an and sec else "wrong")
            bad = {"P17"}
        elif mode == 6:
            k = client_key((ec.jwk + 1 + an // 4) % len(CLIENT_JWKS))
            if k.kid == client_key(ec.jwk).kid:
                k = client_key((ec.jwk + 1) % len(CLIENT_JWKS))
            hdr = {}
            if an % 4 in (1, 3):
                # under the name of the registered key
                k = key_from_jwk_dict(dict(k.serialize(private=True),
                                           kid=client_key(ec.jwk).kid))
            if an % 4 in (2, 3):
                # with the verification key in the header
                hdr = {"jwk": k.serialize(private=False)}
            assertion(k, "RS256", hdr=hdr)
            self.asserts[-1]["good"] = False
            bad = {"P17"}
        elif mode == 7:
            assertion(client_key(ec.jwk), "RS256", iat=self.now() - 1000, exp=self.now() - 100)
            self.asserts[-1]["good"] = False
            bad = {"P17"}
        elif mode == 8:
            auds = [["https://elsewhere.example.com/token"], [url + "x"], [url[:-1]],
                    [world.BASE + "x"], [url.swapcase()], url + "/x", "x" + url,
                    [world.BASE + "/other", "https://elsewhere.example.com/"],
                    [world.BASE + PATHS["token" if ep != "token" else "pushed_authorization"]],
                    [url.replace("https:", "http:")]]
            assertion(client_key(ec.jwk), "RS256", aud=auds[an % len(auds)])
            self.asserts[-1]["good"] = False
            bad = {"P17"}
        elif mode == 9:
            old = pick([a for a in self.asserts if a["good"] and (a["ep"] == ep or a["wide"])],
                       op.get("n", -1))
            if old is None:
                basic(cid, "nope")
                bad = {"P17"}
            else:
                cid = old["cid"]
                jti = old["jti"]
                args["client_assertion"] = old["jwt"]
                args["client_assertion_type"] = \
                    "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
                lvl["maybe"] = True      # may have expired, may be acceptable after a crash
                self.count("fault_assertion_replay")
        elif mode == 10:
            args["client_id"] = cid
            bad = {"P17"}
        elif mode == 11:
            basic("nobody", sec or "x")
            bad = {"P17"}
        elif mode == 12:
            hk = "not-the-secret-of-this-client-0123456789"
            if an == 1 and other.secret and other.secret != sec:
                hk = other.secret
            elif an == 2 and ec.jwk is not None:
                # the public key of the client taken for a shared secret
                hk = json.dumps(client_key(ec.jwk).serialize(private=False))
            elif an == 3 and sec:
                hk = self.near_secret(sec, 0)
            assertion(SYMKey(key=hk), "HS256")
            self.asserts[-1]["good"] = False
            bad = {"P17"}
        elif mode == 13:
            if other.secret and other.secret != sec:
                basic(cid, other.secret)
            else:
                basic(cid, "nope")
            bad = {"P17"}
        elif mode == 14:
            assertion(None, "none")
            self.asserts[-1]["good"] = False
            bad = {"P17"}
        else:
            basic(cid, sec or "x")
            if not sec:
                bad = {"P17"}

        if op.get("cm") and ep == "token" and mode in (0, 2, 3, 9):
            # somebody else's name next to the credentials
            args["client_id"] = other.cid
            lvl["maybe"] = True
            self.count("fault_foreign_client_id")

        def judge(phase):
            if phase != "parse":
                return J(maybe=lvl["maybe"])
            tags = set(bad)
            maybe = lvl["maybe"]
            info = self.cinfo(cid)
            if info is None:
                tags.add("P17")
            else:
                eta = info.get("client_secret_expires_at", 0)
                if eta and eta < self.now():
                    if mode in (3, 9):
                        maybe = True
                    else:
                        tags.add("P17")
            if jti is not None and not bad:
                k = "%s:%s" % (cid, jti)
                if k in self.model.jtis:
                    tags.add("P17")
                elif mode != 9 and not made <= self.now() < made + 600:
                    # delivered late, or the clock was set back: not valid at the moment
                    maybe = True
                else:
                    if info is not None:
                        self.model.jtis.add(k)
            return J(tags, maybe, {"P17"})
        return args, headers, judge, cid

    @staticmethod
    def near_secret(sec, an):
        last = "0" if not sec.endswith("0") else "1"
        out = [sec[:-1] + last, sec[:-1], sec + "x", sec.swapcase(), "", last + sec[1:],
               sec + sec, sec[1:]][an % 8]
        return out if out != sec else sec + "y"

    # ------------------------------------------------------------ dpop proofs
    def dpop(self, op, ep, headers):
        """-> (reason tags, jkt)"""
        if not self.cfg["dpop"]:
            return set(), None
        v = op.get("dp", 0)
        key = client_key(op.get("dk", 0) % len(CLIENT_JWKS))
        pub = {k: x for k, x in key.serialize(private=False).items() if k in ("kty", "n", "e")}
        payload = {"jti": "d%s" % self.opid, "htm": "POST", "htu": world.BASE + PATHS[ep],
                   "iat": self.now()}
        hdr = {"typ": "dpop+jwt", "jwk": pub}
        bad = set()
        skey = key
        alg = "RS256"
        if v == 1:
            payload["htm"] = ["GET", "", "PO", "POST GET"][op.get("hu", 0) % 4]
            bad = {"P25"}
        elif v == 2:
            u = payload["htu"]
            payload["htu"] = [world.BASE + "/other", world.BASE, u + "/x", u[:-1], u + "?a=b", "",
                              world.BASE + "/", u.replace("https:", "http:"),
                              "https://evil.example.com/token", u[:-3] + u[-3:].upper(),
                              u.replace("/", "//")][op.get("hu", 0) % 11]
            bad = {"P25"}
        elif v == 3:
            skey = client_key((op.get("dk", 0) + 1) % len(CLIENT_JWKS))
            bad = {"P25"}
        elif v == 5:
            alg = "none"
            bad = {"P25"}
        elif v == 8:
            # a key of somebody else in the body
            k3 = client_key((op.get("dk", 0) + 1) % len(CLIENT_JWKS))
            payload["jwk"] = {k: x for k, x in k3.serialize(private=False).items()
                              if k in ("kty", "n", "e")}
        elif v == 9:
            hdr["typ"] = ["JWT", "dpop", "at+jwt", ""][op.get("hu", 0) % 4]
            bad = {"P25"}
        elif v == 10:
            alg = "HS256"
            sk = SYMKey(key="a-secret-everybody-can-see-0123456789")
            hdr["jwk"] = {"kty": "oct", "k": sk.serialize()["k"]}
            bad = {"P25"}
        elif v == 11:
            alg = ["RS384", "RS512", "PS256"][op.get("hu", 0) % 3]
            bad = {"P25"}
        elif v == 12:
            payload.pop(["jti", "htm", "htu", "iat"][op.get("hu", 0) % 4])
            bad = {"P25"}
        elif v == 13:
            del hdr["jwk"]
            bad = {"P25"}
        if v == 4:
            headers["dpop"] = "garbage.proof"
            return {"P25"}, None
        if v == 6:
            return {"noproof"}, None
        if alg == "none":
            h = base64.urlsafe_b64encode(json.dumps(dict(hdr, alg="none")).encode())
            b = base64.urlsafe_b64encode(json.dumps(payload).encode())
            proof = (h.rstrip(b"=") + b"." + b.rstrip(b"=") + b".").decode()
        else:
            k2 = key_from_jwk_dict({k: x for k, x in skey.serialize(private=True).items()
                                    if k != "kid"}) if alg != "HS256" else sk
            proof = JWS(json.dumps(payload), alg=alg).sign_compact([k2], **hdr)
        if v == 7:
            a, b, c = proof.split(".")
            q = dict(payload, jti="changed")
            b = base64.urlsafe_b64encode(json.dumps(q).encode()).rstrip(b"=").decode()
            proof = ".".join([a, b, c])
            bad = {"P25"}
        headers["dpop"] = proof
        canon = json.dumps({"e": pub["e"], "kty": "RSA", "n": pub["n"]}, sort_keys=True,
                           separators=(",", ":"))
        jkt = base64.urlsafe_b64encode(hashlib.sha256(canon.encode()).digest()) \
            .rstrip(b"=").decode()
        return bad, jkt

    # ------------------------------------------------------------ token values
    def choose(self, op, kinds=(AT,), own=None):
        """A token string to present, from everything the outside world has seen.
        -> (value, ext entry or None)"""
        cross = op.get("cross", 0)
        if cross:
            kinds = [pick([CODE, AT, RT, IDT], cross)]
        pool = []
        for k in kinds:
            pool += self.toks[k]
        e = pick(pool, op.get("tok", -1))
        if e is None:
            return None, None
        v = e["value"]
        cor = op.get("cor", 0)
        if cor:
            v = self.corrupt(v, cor, op.get("pos", 7), pool)
            if v is None:
                return e["value"], e
            self.count("fault_token_corruption")
        return v, e

    def corrupt(self, v, cor, pos, pool):
        n = len(v)
        i = pos % n
        alt = "AQZgw159b"
        out = None
        if cor == 1:
            c = alt[pos % len(alt)]
            if c == v[i]:
                c = "B" if v[i] != "B" else "C"
            out = v[:i] + c + v[i + 1:]
        elif cor == 2:
            out = v[:max(1, i)]
        elif cor == 3:
            o = pool[(pos * 7 + 1) % len(pool)]["value"]
            out = v[:i] + o[i:]
        elif cor == 4:
            out = v[::-1]
        elif cor == 5:
            out = v + "A"
        elif cor == 6:
            out = "garbage %d" % pos
        elif cor == 7 and v.count(".") == 2:
            h, p, s = v.split(".")
            d = b64j(p)
            d["token_class"] = pick([CODE, AT, RT], pos)
            p = base64.urlsafe_b64encode(json.dumps(d).encode()).rstrip(b"=").decode()
            out = ".".join([h, p, s])
        elif cor == 8 and v.count(".") == 2:
            h, p, s = v.split(".")
            h = base64.urlsafe_b64encode(b'{"alg":"none"}').rstrip(b"=").decode()
            out = ".".join([h, p, ""])
        elif cor == 9 and v.count(".") == 2:
            d = jwt_payload(v)
            d["exp"] = d.get("exp", 0) + 100000
            out = sign(d, client_key(0))
        elif cor == 11 and v.count(".") == 2 and self.ec:
            ec = self.ec[pos % len(self.ec)]
            out = self.client_signed(dict(jwt_payload(v), iss=ec.cid), ec)
        else:
            out = v[:i] + ("x" if v[i] != "x" else "y") + v[i + 1:]
        known = {e["value"] for l in self.toks.values() for e in l}
        if out == v or out in known or (self.cfg["fmt"] and self._equiv(out, v)):
            return None
        return out

    @staticmethod
    def _equiv(a, b):
        """Same bytes after (lenient) base64 decoding: the same token in another coat."""
        def dec(x):
            out = []
            for part in x.split("."):
                try:
                    out.append(base64.urlsafe_b64decode(part + "=" * (-len(part) % 4)))
                except Exception:
                    return x
            return out
        return dec(a) == dec(b)

    def lookup(self, value):
        return self.model.toks.get(value)

    # ------------------------------------------------------------------- token
    def op_redeem(self, op):
        ecode = None
        v, e = self.choose(op, (CODE,))
        if e is None:
            self.note("skip")
            return
        owner = next((c for c in self.ec if c.cid == e["cid"]), None)
        ec = owner
        if op.get("c"):
            ec = pick(self.ec, op["c"])
        if ec is None:
            return
        ru = e.get("ru") or owner.uris()[0]
        own_ru = ru
        rv = op.get("ru", 0)
        if rv == 1:
            ru = pick(owner.uris(), 1)
        elif rv == 2:
            ru = ru + "/x"
        elif rv == 3:
            ru = "https://evil.example.com/cb"
        elif rv == 4:
            ru = ru + ("&" if "?" in ru else "?") + "a=b"
        elif rv == 5:
            ru = pick(pick(self.ec, op.get("n", 1)).uris(), 0)
        elif rv >= 10:
            ru = spelling(ru, rv)
        ver = e.get("ver")
        pv = op.get("ver", 0)
        if pv == 1:
            ver = None
        elif pv == 2:
            ver = "wrong-verifier-%s" % ("y" * 40)
        elif pv == 3:
            others = [x["ver"] for x in self.toks[CODE] if x.get("ver") and x["ver"] != ver]
            ver = pick(others, op.get("n", 0)) or ver
        elif pv == 4 and ver:
            ver = hashlib.sha256(ver.encode()).hexdigest()
        elif pv == 5 and ver:
            ver = ver.upper() if ver.upper() != ver else ver.lower()
        elif pv == 6 and e.get("chal"):
            ver = e["chal"]
        elif pv == 7 and ver:
            ver = ver[:-1]
        meta = {"kind": "code", "value": v, "ru": ru, "ver": ver, "e": e, "own_ru": own_ru}
        xp = op.get("xp", 0)
        if xp == 1:
            meta["xp"] = {"code_challenge_method": "plain"}
        elif xp == 2:
            mine = "my-own-verifier-%s" % ("z" * 40)
            meta["xp"] = {"code_challenge": mine, "code_challenge_method": "plain"}
            if ver is not None:
                meta["ver"] = mine
        elif xp == 3:
            meta["xp"] = {"code_challenge": "", "code_challenge_method": ""}
        elif xp == 4:
            meta["xp"] = {"nonce": "n-of-the-token-request", "state": "x", "max_age": "0",
                          "response_type": "code", "prompt": "none"}
        elif xp == 5:
            meta["xp"] = {"dpop_jkt": "0ZcOCORZNYy-DWpqq30jZyJGHTN0d2HglBV3uiguA4I",
                          "token_type": "DPoP", "authenticated": "true"}
        self.send_token(op, ec, meta)

    def op_refresh(self, op):
        v, e = self.choose(op, (RT,))
        if e is None:
            self.note("skip")
            return
        ec = next((c for c in self.ec if c.cid == e["cid"]), None)
        if op.get("c"):
            ec = pick(self.ec, op["c"])
        if ec is None:
            return
        sc = None
        sv = op.get("sc", 0)
        base = list(e.get("scope") or [])
        if sv == 1:
            sc = base
        elif sv == 2:
            sc = base[:-1]
        elif sv == 3:
            sc = base + ["extra"]
        elif sv == 4:
            sc = base[:1]
        elif sv == 5:
            sc = [s for s in base if s != "openid"]
        elif sv == 6:
            sc = base + ["offline_access" if "offline_access" not in base else "admin"]
        elif sv == 7:
            sc = list(e.get("full") or base)
        elif sv == 8:
            sc = list(reversed(base))
        elif sv == 9:
            # less, but enough for another refresh token
            sc = [s for s in base if s in ("openid", "offline_access")]
        elif sv == 10:
            sc = [s for s in base if s != "profile"]
        if sc is not None and not sc:
            sc = None
        meta = {"kind": "refresh", "value": v, "sc": sc, "e": e}
        self.send_token(op, ec, meta)

    def op_resend(self, op):
        """A token request delivered again, byte for byte (duplication, delay)."""
        s = pick(self.sent, op.get("n", -1))
        if s is None:
            self.note("skip")
            return
        self.count("fault_duplicate")
        self._token_exchange(dict(op), s["args"], s["headers"], s["meta"], s["mkjudge"],
                             s["jkt"], s["authcid"])

    def send_token(self, op, ec, meta):
        args, headers, judge_auth, authcid = self.authenticate(op, ec, "token", op.get("auth"))
        bad_dpop, jkt = self.dpop(op, "token", headers)
        if meta["kind"] == "code":
            args.update(grant_type="authorization_code", code=meta["value"],
                        redirect_uri=meta["ru"])
            if meta["ver"] is not None:
                args["code_verifier"] = meta["ver"]
            if meta.get("xp"):
                # parameters that have no business in a token request
                args.update(meta["xp"])
                self.count("fault_stray_parameters")
        else:
            args.update(grant_type="refresh_token", refresh_token=meta["value"])
            if meta["sc"] is not None:
                args["scope"] = " ".join(meta["sc"])
        meta["bad_dpop"] = bad_dpop

        self.sent.append({"args": args, "headers": headers, "meta": meta,
                          "mkjudge": judge_auth, "jkt": jkt, "authcid": authcid})
        self._token_exchange(op, args, headers, meta, judge_auth, jkt, authcid)

    def judge_token(self, meta, authcid):
        """Reasons from the state of the presented code / refresh token."""
        t = self.lookup(meta["value"])
        want = CODE if meta["kind"] == "code" else RT
        ctx = {"P23"}
        if t is None or t.kind != want:
            return J({"P08"}, False, ctx), t
        tags, maybe = t.dead(self.now())
        g = t.grant
        if g.expired(self.now()):
            # nothing may be issued from an expired grant
            tags = tags | {"P05"}
            maybe = t.maybe or g.maybe
        if g.cid != authcid:
            tags.add("P03")
        ctx |= {"P05"}
        if self.revocations:
            ctx.add("P06")
        if self.replays:
            ctx.add("P02")
        if self.restarted:
            ctx.add("P21")
        if want == CODE:
            ctx.add("P01")
            if meta["ru"] != (t.req.get("redirect_uri") or meta.get("own_ru")):
                tags.add("P03")
            if self.cfg["pkce"] is not None and t.chal:
                ctx.add("P04")
                if meta["ver"] is None or not self.chal_ok(meta["ver"], t.chal, t.chm):
                    tags.add("P04")
        else:
            ctx.add("P09")
            if self.cfg["grants"] == 2:
                tags |= {"P09", "P26"}
            if meta["sc"] is not None:
                limit = set(t.parent.scope if t.parent else g.scope)
                if not set(meta["sc"]) <= set(g.scope) or not set(meta["sc"]) <= limit:
                    tags.add("P07")
                elif not set(meta["sc"]) <= set(t.scope):
                    maybe = True
                else:
                    ctx.add("P07")
        return J(tags, maybe, ctx), t

    @staticmethod
    def chal_ok(ver, chal, method):
        if method == "plain":
            return ver == chal
        h = {"S256": hashlib.sha256, "S384": hashlib.sha384, "S512": hashlib.sha512}[method]
        return base64.urlsafe_b64encode(h(ver.encode()).digest()).rstrip(b"=").decode() == chal

    def _token_exchange(self, op, args, headers, meta, judge_auth, jkt, authcid):
        st = {"used": False, "auth_ok": False, "wrong": True, "used2": False}

        def judge(phase):
            ja = judge_auth(phase)
            jt, t = self.judge_token(meta, authcid)
            if phase == "parse":
                st["auth_ok"] = not ja.tags
                st["maybe_auth"] = ja.maybe
                if meta["kind"] == "code" and t is not None and t.kind == CODE:
                    st["used"] = t.used > 0
                    # past the expiry inside its signed form a code says nothing any more
                    st["unread"] = t.jwt_exp is not None and not \
                        t.iat <= self.now() <= t.jwt_exp
                    st["wrong"] = bool({"P03", "P04"} & jt.tags)
            elif meta["kind"] == "code" and t is not None:
                st["used2"] = t.used > 0
            j = ja | jt
            for x in meta["bad_dpop"]:
                if x == "noproof":
                    j.maybe = True
                else:
                    j.tags.add(x)
            if self.cfg["dpop"]:
                j.ctx.add("P25")
            return j

        def finish(res, j, phase):
            self.token_done(op, meta, res, j, phase, st, jkt, authcid)

        kw = {}
        if self.cfg["issue_refresh"] is not None:
            kw["issue_refresh"] = self.cfg["issue_refresh"]
        self.launch(op, "token", args, judge, finish, headers=headers,
                    url=world.BASE + "/token", method="POST", proc_kwargs=kw)

    def token_done(self, op, meta, res, j, phase, st, jkt, authcid):
        t = self.lookup(meta["value"])
        what = "%s as %s" % (meta["kind"], authcid)
        self.note("token %s -> %s" % (what, res.short()))
        ok = res.status == "ok" and isinstance(res.body, dict) and "access_token" in res.body
        if meta["kind"] == "code" and st["used"] and st["auth_ok"]:
            # replay of a redeemed code
            self.replays += 1
            self.hit("P01", "P02")
            self.count("fault_replay")
            tt = t
            if tt is not None:
                for d in tt.descendants():
                    if st["wrong"] or st["maybe_auth"] or st["unread"]:
                        d.maybe = True
                    else:
                        d.revoked.add("P02")
        elif meta["kind"] == "code" and st["used2"] and t is not None:
            for d in t.descendants():
                d.maybe = True
        if not ok:
            if res.status == "ok" and not j.tags and not j.maybe:
                self.viol(j.ctx, "token response without access token for %s: %r" % (
                    what, res.body))
                return
            if res.status == "ok":
                got = sorted({"id_token", "refresh_token"} & set(res.body)) \
                    if isinstance(res.body, dict) else []
                if got and j.tags:
                    self.viol(j.tags, "token request (%s) answered with %s although it had to be "
                                      "refused (%s)" % (what, got, ",".join(sorted(j.tags))))
                return
            if not j.tags and not j.maybe:
                ctx = set(j.ctx)
                if phase == "parse" and res.exc is not None and type(res.exc).__name__ in (
                        "UnAuthorizedClient", "UnknownClient", "InvalidClient"):
                    ctx |= {"P17"}
                elif "P17" in ctx and not (phase == "parse" and res.exc is not None):
                    ctx -= {"P17"}
                self.viol(ctx, "correct token request (%s) refused: %s %s %r" % (
                    what, res.short(), res.body, res.exc))
            return
        if j.tags:
            self.viol(j.tags, "token request (%s) answered with tokens although it had to be "
                              "refused (%s)" % (what, ",".join(sorted(j.tags))))
            if t is None or t.kind not in (CODE, RT):
                return
        if t is None:
            return
        # ---------------- success
        g = t.grant
        self.hit("P07", *([] if meta["kind"] == "code" else ["P09"]))
        if self.cfg.get("dpop"):
            self.hit("P25")
        if g.req.get("code_challenge"):
            self.hit("P04")
        now = self.now()
        body = res.body
        cinfo = self.cinfo(g.cid) or {}
        if meta["kind"] == "code":
            exp_scope = set(t.scope)
        else:
            exp_scope = set(meta["sc"]) if meta["sc"] is not None else None
        got_scope = body.get("scope")
        if isinstance(got_scope, str):
            got_scope = got_scope.split()
        if got_scope is None:
            got_scope = list(exp_scope or t.scope)
        if not set(got_scope) <= set(g.scope):
            self.viol({"P07"}, "token response scope %s exceeds the authorization %s" % (
                got_scope, g.scope))
        elif meta["kind"] != "code" and t.parent and not set(got_scope) <= set(t.parent.scope):
            self.viol({"P07"}, "a refresh got scope %s, more than the token its refresh token was "
                      "minted from: %s" % (got_scope, t.parent.scope))
        elif meta["kind"] == "code":
            low = set(filter_scopes(self.cfg, cinfo, g.scope))
            if not low <= set(got_scope):
                self.viol({"P07"}, "token response scope %s lacks granted scopes %s" % (
                    got_scope, low))
        elif exp_scope is not None and set(got_scope) != exp_scope:
            self.viol({"P07"}, "refresh asked for scope %s and got %s" % (
                sorted(exp_scope), got_scope))
        if self.cfg["dpop"] and jkt:
            if body.get("token_type") != "DPoP":
                self.viol({"P25"}, "token type %r for a request with a valid proof" %
                          body.get("token_type"))
        elif body.get("token_type") != "Bearer":
            self.viol({"P25"}, "token type %r without a proof" % body.get("token_type"))
        g.jkt = jkt if jkt else g.jkt
        drop = op.get("drop")
        if drop:
            self.count("fault_response_lost")
        at = self.new_tok(AT, body["access_token"], g, t, got_scope, now, "token")
        at.jkt = jkt
        self.check_expiry(at, body.get("expires_in"), now, "token response")
        self.check_at_jwt(at, cinfo)
        self.add_ext(at, drop)
        # refresh token expectation
        mints = t.rules.get("supports_minting")
        if meta["kind"] == "code":
            mints = mints if mints is not None else ["access_token", "refresh_token", "id_token"]
            want_rt = self.want_refresh(g.scope) and RT in mints and RT in cinfo.get(
                "grant_types_supported", [] if self.cfg["grants"] in (1, 2) else [RT])
        else:
            mints = mints if mints is not None else ["access_token", "refresh_token"]
            want_rt = self.want_refresh(got_scope) and RT in mints
        rtv = body.get("refresh_token")
        if want_rt and not rtv:
            self.viol({"P09", "P23"}, "no refresh token although one is due (%s)" % what)
        elif rtv and not want_rt:
            self.viol({"P09"}, "refresh token issued although none is due (%s)" % what)
        if rtv:
            rt = self.new_tok(RT, rtv, g, t, got_scope, now, "token")
            if meta["kind"] == "refresh":
                rt.rules = copy.deepcopy(t.rules)
            self.add_ext(rt, drop)
        # id token expectation
        idt = body.get("id_token")
        if self.cfg["flavour"] == "oidc":
            want_idt = IDT in mints and "openid" in (
                t.req["scope"] if meta["kind"] == "code" else got_scope)
            if want_idt and not idt:
                self.viol({"P13", "P23"}, "no ID Token in the token response (%s)" % what)
            elif idt and not want_idt:
                self.viol({"P13"}, "ID Token although none was called for")
        if idt:
            self.check_idt(idt, g, t.req, got_scope, None, None, "",
                           drop=drop)
        # state
        t.used += 1
        if meta["kind"] == "refresh":
            rot = cinfo.get("revoke_refresh_on_issue", self.cfg["revoke_refresh"])
            if rot:
                t.revoked.add("P09")

    def want_refresh(self, scope):
        ir = self.cfg["issue_refresh"]
        if self.cfg["flavour"] == "oidc":
            if ir is None:
                return "offline_access" in scope
            return bool(ir)
        return bool(ir)

    def new_tok(self, kind, value, g, parent, scope, now, where):
        if value in self.sniff:
            self.viol({"P01", "P08", "P22"}, "the provider issued the same %s twice" % kind)
        self.sniff[value] = kind
        rules = g.rules.get(kind)
        exp = None
        if where == "token":
            if rules:
                ein = rules.get("expires_in")
            else:
                ein = 1800
        else:
            ein = (rules or {}).get("expires_in")
        if ein:
            exp = now + int(ein)
        jexp = None
        f = {CODE: "code", AT: "token", RT: "refresh"}[kind]
        if self.cfg["fmt"][f] == "jwt":
            life = self.cfg["jwt_life"]
            if rules and "expires_in" in rules:
                life = int(rules["expires_in"])
            jexp = now + life
        t = Tok(kind, value, g, parent, scope, now, exp, jexp, copy.deepcopy(rules))
        t.req = parent.req if parent is not None else None
        t.chal = t.chm = None
        t.front = where != "token"
        t.jkt = None
        t.no = self.opid
        self.model.toks[value] = t
        g.toks.append(t)
        return t

    def add_ext(self, t, drop=0, **extra):
        if drop:
            return
        e = {"value": t.value, "kind": t.kind, "cid": t.grant.cid, "uid": t.grant.uid,
             "scope": list(t.scope), "full": list(t.grant.scope)}
        e.update(extra)
        self.toks[t.kind].append(e)

    def check_expiry(self, t, announced, now, where):
        enforced = [x for x in (t.exp, t.jwt_exp) if x is not None]
        want = min(enforced) if enforced else None
        if announced is None:
            if want is not None:
                self.viol({"P05"}, "%s announces no expiry, %ds are enforced" % (
                    where, want - now))
            return
        if want is None or abs(int(announced) - (want - now)) > 0:
            self.viol({"P05"}, "%s announces %ss for the %s, enforced is %s" % (
                where, announced, t.kind, None if want is None else want - now))

    def check_at_jwt(self, t, cinfo):
        if self.cfg["fmt"]["token"] != "jwt":
            return
        g = t.grant
        try:
            p = JWS().verify_compact(t.value, keys=op_keys())
        except Exception as err:
            self.viol({"P08", "P23"}, "access token does not verify: %r" % err)
            return
        sc = p.get("scope")
        if isinstance(sc, str):
            sc = sc.split()
        if not set(sc or []) <= set(g.scope):
            self.viol({"P07"}, "self-contained token scope %s exceeds %s" % (sc, g.scope))
        elif set(sc or []) != set(t.scope):
            self.viol({"P07"}, "self-contained token scope %s differs from granted %s" % (
                sc, t.scope))
        if p.get("exp") != t.jwt_exp:
            self.viol({"P05"}, "exp in self-contained token %s, configured %s" % (
                p.get("exp"), t.jwt_exp))
        if p.get("client_id") != g.cid:
            self.viol({"P03", "P08"}, "client_id %r in a token of %s" % (p.get("client_id"),
                                                                        g.cid))
        self.sub_check(g, p.get("sub"), "access token")
        spec = claims_spec(self.cfg, cinfo, "access_token", sc or [],
                           g.req.get("claims"))
        self.claims_check(g.uid, spec, p, "access token")
        cnf = (p.get("cnf") or {}).get("jkt")
        if t.jkt and cnf != t.jkt:
            self.viol({"P25"}, "token bound to %s, proof was for %s" % (cnf, t.jkt))
        if not t.jkt and cnf and cnf != g.jkt:
            self.viol({"P25"}, "token without proof bound to a key of another exchange")

    def claims_check(self, uid, spec, got, where):
        want = released(uid, spec)
        have = {k: v for k, v in got.items() if k in UNIVERSE}
        if want != have:
            extra = sorted(set(have) - set(want))
            miss = sorted(set(want) - set(have))
            diff = sorted(k for k in set(want) & set(have) if want[k] != have[k])
            self.viol({"P11"}, "claims in %s: not granted %s, missing %s, wrong value %s" % (
                where, extra, miss, diff))

    # ---------------------------------------------------------------- subjects
    def sub_check(self, g, sub, where):
        if not sub:
            self.viol({"P12"}, "no subject in %s" % where)
            return
        cinfo = self.cinfo(g.cid) or {}
        st = cinfo.get("subject_type", "public")
        if st == "pairwise":
            key = ("pairwise", g.uid, sector_of(cinfo))
        elif st == "ephemeral":
            key = ("ephemeral", g.uid, g.cid, g.gid)
        else:
            key = ("public", g.uid)
        tags = {"P12"}
        if self.restarted:
            tags.add("P21")
        old = self.subs.get(key)
        if old is not None and old != sub:
            if where == "introspection":
                tags.add("P10")
            elif where == "ID Token":
                tags.add("P13")
            self.viol(tags, "subject of %s in %s changed from %s to %s" % (key, where, old, sub))
            return
        own = self.sub_owner.get(sub)
        if own is not None and own != key:
            self.viol(tags, "%s and %s share the subject %s (%s)" % (own, key, sub, where))
            return
        self.subs[key] = sub
        self.sub_owner[sub] = key

    # -------------------------------------------------------- message protection
    def alg_for(self, cid, what):
        return (self.cinfo(cid) or {}).get(what + "_signed_response_alg")

    def open_signed(self, value, cid, what, tags):
        """Verify a signed message the way client `cid` would. -> payload or None"""
        self.hit("P28")
        alg = self.alg_for(cid, what) or "RS256"
        ec = next((c for c in self.ec if c.cid == cid), None)
        secret = ec.secret if ec else (self.cinfo(cid) or {}).get("client_secret")
        try:
            hdr = b64j(value.split(".")[0])
            keys = [SYMKey(key=secret, kid=hdr.get("kid") or "")] if alg.startswith("HS") \
                else op_keys()
            self.announce("%s_signing_alg_values_supported" % what, hdr.get("alg"))
            if hdr.get("alg") != alg:
                self.viol({"P28"} | (tags & {"P20"}), "%s for %s is signed with %s, registered "
                          "is %s" % (what, cid, hdr.get("alg"), alg))
                return None
            return JWS(alg=alg).verify_compact(value, keys=keys)
        except Stop:
            raise
        except Exception as err:
            self.viol(tags, "%s of %s does not verify under the %s: %r" % (
                what, cid, "client secret" if alg.startswith("HS") else "published keys", err))
            return None

    def open_userinfo(self, res, cid):
        """-> the claims in a userinfo response, or None"""
        info = self.cinfo(cid) or {}
        sig = info.get("userinfo_signed_response_alg")
        enc = info.get("userinfo_encrypted_response_alg")
        if not sig and not enc:
            if res.kind != "json":
                self.viol({"P28"}, "userinfo response of %s is not plain JSON" % cid)
                return None
            return res.body
        self.hit("P28")
        val = res.body
        if not isinstance(val, str):
            self.viol({"P28"}, "userinfo response of %s is neither signed nor encrypted" % cid)
            return None
        if enc:
            ec = next((c for c in self.ec if c.cid == cid), None)
            try:
                hdr = b64j(val.split(".")[0])
                if val.count(".") != 4 or hdr.get("alg") != enc or hdr.get("enc") != \
                        info["userinfo_encrypted_response_enc"]:
                    self.viol({"P28"}, "userinfo response of %s is not encrypted with %s: %r" % (
                        cid, enc, hdr))
                    return None
                if ec is None or ec.jwk is None:
                    return None
                dec = jwe_factory(val, alg=enc, enc=info["userinfo_encrypted_response_enc"])
                val = dec.decrypt(val, keys=[client_enc_key(ec.jwk)])
                if isinstance(val, bytes):
                    val = val.decode()
            except Stop:
                raise
            except Exception as err:
                self.viol({"P28"}, "userinfo response of %s cannot be decrypted by it: %r" % (
                    cid, err))
                return None
        if sig:
            p = self.open_signed(val, cid, "userinfo", {"P28"})
            if p is None:
                return None
            aud = p.get("aud")
            if p.get("iss") != world.ISSUER or cid not in (aud if isinstance(aud, list) else [aud]):
                self.viol({"P28"}, "signed userinfo response names iss %r aud %r" % (
                    p.get("iss"), aud))
            return p
        try:
            return json.loads(val)
        except ValueError:
            self.viol({"P28"}, "encrypted userinfo response of %s is not JSON" % cid)

    # ---------------------------------------------------------------- ID token
    def check_idt(self, value, g, req, scope, code, at, secondary, drop=0):
        now = self.now()
        cinfo = self.cinfo(g.cid) or {}
        p = self.open_signed(value, g.cid, "id_token", {"P13", "P28"})
        if p is None:
            return
        alg = self.alg_for(g.cid, "id_token") or "RS256"
        aud = p.get("aud")
        if isinstance(aud, str):
            aud = [aud]
        bad = []
        if p.get("iss") != world.ISSUER:
            bad.append("iss %r" % p.get("iss"))
        if aud != [g.cid]:
            bad.append("aud %r" % aud)
        if p.get("nonce") != req.get("nonce"):
            bad.append("nonce %r not %r" % (p.get("nonce"), req.get("nonce")))
        if p.get("auth_time") != g.authn["time"]:
            bad.append("auth_time %r not %r" % (p.get("auth_time"), g.authn["time"]))
        if p.get("acr") != g.authn["acr"]:
            bad.append("acr %r, logged in with %r" % (p.get("acr"), g.authn["acr"]))
        if p.get("iat") != now:
            bad.append("iat %r at %r" % (p.get("iat"), now))
        if p.get("exp") != now + self.cfg["idt_life"]:
            bad.append("exp %r, lifetime %r" % (p.get("exp", 0) - now, self.cfg["idt_life"]))
        if code is not None and p.get("c_hash") != left_hash(code.encode(), "HS" + alg[-3:]):
            bad.append("c_hash")
        if code is None and "c_hash" in p:
            bad.append("c_hash without a code")
        if at is not None and p.get("at_hash") != left_hash(at.encode(), "HS" + alg[-3:]):
            bad.append("at_hash")
        if at is None and "at_hash" in p:
            bad.append("at_hash without a token")
        try:
            path = self.node.mngr.decrypt_session_id(p["sid"])
            if list(path) != [g.uid, g.cid, g.gid]:
                bad.append("sid of %r" % (path,))
        except Exception as err:
            bad.append("sid unusable: %r" % err)
        if bad:
            tags = {"P13"}
            if any(b.startswith("exp") for b in bad):
                tags.add("P05")
            self.viol(tags, "ID Token wrong: " + "; ".join(bad))
        self.sub_check(g, p.get("sub"), "ID Token")
        spec = claims_spec(self.cfg, cinfo, "id_token", scope, req.get("claims"), secondary)
        self.claims_check(g.uid, spec, p, "ID Token")
        g.idt += 1
        if not drop:
            self.toks[IDT].append({"value": value, "kind": IDT, "cid": g.cid, "uid": g.uid,
                                   "key": g.key(), "exp": now + self.cfg["idt_life"],
                                   "iat": now, "sub": p.get("sub"),
                                   "acr": g.authn["acr"]})

    def acr_check(self, g, point, got):
        """The acr claim outside ID Tokens: how the user really logged in, if at all."""
        rc = ((g.req.get("claims") or {}).get(point) or {})
        asked = "acr" in rc and match(g.authn["acr"], rc["acr"])
        if got.get("acr") != g.authn["acr"] and ("acr" in got or asked):
            self.viol({"P11", "P13"}, "acr in %s is %r, logged in with %r" % (
                point, got.get("acr"), g.authn["acr"]))

    @staticmethod
    def acr_ok(req, acr):
        """Does a login with `acr` meet what the claims parameter demands?"""
        spec = ((req.get("claims") or {}).get("id_token") or {}).get("acr") or {}
        return not spec.get("essential") or match(acr, spec)

    def acr_wanted(self, req, hint):
        """The acr a login for this request must lead to; None: no such login exists."""
        if not self.cfg["authn2"]:
            return ACR
        spec = ((req.get("claims") or {}).get("id_token") or {}).get("acr") or {}
        if "acr_values" in req:
            want = req["acr_values"].split()
        elif "value" in spec:
            want = [spec["value"]]
        elif "values" in spec:
            want = spec["values"]
        elif hint is not None:
            return "any"            # the hint may or may not be taken as a wish
        elif self.cfg["hints"] and "login_hint" in req:
            want = {"tel": [ACR2], "mail": [ACR]}.get(req["login_hint"].split(":")[0], [])
        else:
            want = []
        if not want:
            return ACR
        return next((a for a in want if a in (ACR, ACR2)), None)

    ACRS = [None, ACR, ACR2, ACR2 + " " + ACR, "urn:nope " + ACR2, "urn:nope", ACR + " " + ACR2]
    HINTS = [None, ("mail:diana@example.org", "diana"), ("tel:+46907865000", "diana"),
             ("tel:0907865000", "diana"), ("mail:babs@example.com", "babs@example.com"),
             ("mail:nobody@example.org", ""), ("somebody", ""), ("tel:", ""), ("tel:+1 555 0100",
                                                                         "babs@example.com")]

    # ----------------------------------------------------------- introspection
    def op_introspect(self, op):
        v, e = self.choose(op, (AT, RT) if op.get("k") else (AT,))
        if v is None:
            v = "unknown-token"
        ec = pick(self.ec, op.get("c", 0))
        args, headers, judge_auth, authcid = self.authenticate(op, ec, "introspection",
                                                               op.get("auth"))
        args["token"] = v
        kw = {}
        self.launch(op, "introspection", args, judge_auth,
                    lambda r, j, ph: self.introspect_done(v, r, j, authcid),
                    headers=headers, url=world.BASE + "/introspection", method="POST",
                    proc_kwargs=kw)

    def introspect_done(self, v, res, j, caller):
        t = self.lookup(v)
        self.note("introspect -> %s %s" % (res.short(), (res.body or {}).get("active")
                                           if isinstance(res.body, dict) else None))
        if j.tags:
            if res.status == "ok":
                self.viol(j.tags, "introspection served without valid credentials")
            return
        if res.status != "ok" or not isinstance(res.body, dict) or "active" not in res.body:
            if not j.maybe:
                tags = {"P10", "P23"}
                if res.exc is not None and type(res.exc).__name__ in (
                        "UnAuthorizedClient", "UnknownClient", "InvalidClient"):
                    tags = {"P17", "P23"}
                self.viol(tags, "introspection failed: %s %r" % (res.body, res.exc))
            return
        active = res.body["active"]
        now = self.now()
        if t is None or t.kind not in (AT, RT):
            if active:
                self.viol({"P08", "P10"}, "introspection calls a %s active" % (
                    t.kind if t else "value this provider never issued (or forgot)"))
            elif set(res.body) - {"active"}:
                self.viol({"P10"}, "inactive answer carries %s" % sorted(res.body))
            return
        tags, maybe = t.dead(now)
        if active and tags:
            self.viol(tags | {"P10"}, "introspection calls a dead %s active (%s)" % (
                t.kind, ",".join(sorted(tags))))
            return
        if not active:
            if not tags and not maybe:
                ctx = {"P10", "P23", "P05"}
                if self.revocations:
                    ctx.add("P06")
                if self.replays:
                    ctx.add("P02")
                if self.restarted:
                    ctx.add("P21")
                if t.kind == RT:
                    ctx.add("P09")
                self.viol(ctx, "introspection calls a live %s inactive" % t.kind)
            elif set(res.body) - {"active"}:
                self.viol({"P10"}, "inactive answer carries %s" % sorted(res.body))
            return
        g = t.grant
        b = res.body
        bad = []
        sc = set((b.get("scope") or "").split())
        low = set(filter_scopes(self.cfg, self.cinfo(g.cid) or {}, t.scope)) if t.front \
            else set(t.scope)
        if not (low <= sc <= set(t.scope)):
            self.viol({"P10", "P07"}, "introspection reports scope %s for a token with %s" % (
                sorted(sc), t.scope))
        if b.get("client_id") != g.cid:
            bad.append("client_id %r" % b.get("client_id"))
        if b.get("iss") != world.ISSUER:
            bad.append("iss %r" % b.get("iss"))
        if b.get("iat") != t.iat:
            bad.append("iat %r not %r" % (b.get("iat"), t.iat))
        enforced = [x for x in (t.exp, t.jwt_exp) if x is not None]
        want = min(enforced) if enforced else None
        if (b.get("exp") or None) != want:
            self.viol({"P10", "P05"}, "introspection reports exp %r, enforced is %r" % (
                b.get("exp"), want))
        if b.get("token_class", t.kind) != t.kind:
            bad.append("token_class %r" % b.get("token_class"))
        if t.kind == AT and str(b.get("token_type", "bearer")).lower() != (
                "dpop" if t.jkt else "bearer"):
            bad.append("token_type %r" % b.get("token_type"))
        if bad:
            self.viol({"P10"}, "introspection misreports a live token: " + "; ".join(bad))
        self.sub_check(g, b.get("sub"), "introspection")
        spec = claims_spec(self.cfg, self.cinfo(g.cid) or {}, "introspection", g.scope,
                           g.req.get("claims"))
        self.claims_check(g.uid, spec, b, "introspection")

    # ---------------------------------------------------------------- userinfo
    def op_userinfo(self, op):
        if self.cfg["flavour"] != "oidc":
            return self.op_introspect(op)
        v, e = self.choose(op, (AT,))
        if v is None:
            v = "unknown-token"
        args, headers = {}, {}
        if op.get("body"):
            args["access_token"] = v
        else:
            headers["authorization"] = "Bearer " + v

        def judge(phase):
            t = self.lookup(v)
            if t is None or t.kind != AT:
                return J({"P08"})
            tags, maybe = t.dead(self.now())
            if t.grant.authn["until"] < self.now():
                maybe = True
            if self.cinfo(t.grant.cid) is None:
                tags.add("P08")
            ctx = {"P23", "P05"}
            if self.revocations:
                ctx.add("P06")
            if self.replays:
                ctx.add("P02")
            if self.restarted:
                ctx.add("P21")
            return J(tags, maybe, ctx)

        self.launch(op, "userinfo", args, judge,
                    lambda r, j, ph: self.userinfo_done(v, r, j),
                    headers=headers, url=world.BASE + "/userinfo", method="GET")

    def userinfo_done(self, v, res, j):
        t = self.lookup(v)
        self.note("userinfo -> %s" % res.short())
        ok = res.status == "ok" and (isinstance(res.body, dict) and "sub" in res.body or
                                     isinstance(res.body, str) and res.body.count(".") in (2, 4))
        body = None
        if ok and t is not None and self.cinfo(t.grant.cid) is not None:
            body = self.open_userinfo(res, t.grant.cid)
            if body is not None and "error" in body and "sub" not in body:
                ok = False      # a refusal, signed or encrypted like any other answer
        if ok and j.tags:
            self.viol(j.tags, "userinfo answered a token that had to be refused (%s)" %
                      ",".join(sorted(j.tags)))
            return
        if not ok:
            if not j.tags and not j.maybe:
                self.viol(j.ctx | ({"P28"} if set(self.cinfo(t.grant.cid)) & PROTECTED else
                                   set()), "userinfo refused a live access token: %s %r" % (
                    res.body, res.exc))
            return
        g = t.grant
        if body is None:
            return
        self.sub_check(g, body.get("sub"), "userinfo")
        spec = claims_spec(self.cfg, self.cinfo(g.cid) or {}, "userinfo", g.scope,
                           g.req.get("claims"))
        self.claims_check(g.uid, spec, body, "userinfo")
        self.acr_check(g, "userinfo", body)

    # -------------------------------------------------------------- revocation
    def op_revoke(self, op):
        kind = op.get("k", 0) % 9
        live = [g for g in self.model.grants.values() if not g.removed]
        if kind in (0, 1):
            cands = [t for t in self.model.toks.values() if not t.grant.removed]
            t = pick(cands, op.get("tok", -1))
            if t is None:
                return self.note("skip")
            self._admin("revoke_token", t.grant.sid, t.value, recursive=bool(kind))
            t.revoked.add("P06")
            if kind:
                for d in t.descendants():
                    d.revoked.add("P06")
            self.note("revoke %s %s" % (t.kind, "recursively" if kind else ""))
        else:
            g = pick(live, op.get("g", -1))
            if g is None:
                return self.note("skip")
            if kind == 2:
                self._admin("revoke_grant", g.sid)
                g.revoked.add("P06")
            elif kind == 3:
                self._admin("revoke_client_session", g.sid)
                for x in self.model.client_grants(g.uid, g.cid):
                    x.revoked.add("P06")
            elif kind == 4:
                self._admin("remove_session", g.sid)
                g.removed = True
            elif kind == 5:
                # the account is gone
                self._admin("delete", [g.uid])
                for x in self.model.grants.values():
                    if x.uid == g.uid:
                        x.removed = True
            elif kind == 6:
                self._admin("delete", [g.uid, g.cid])
                for x in self.model.client_grants(g.uid, g.cid):
                    x.removed = True
            elif kind == 7:
                self.note("session queries")
                return self.check_queries(g)
            else:
                sid = self.node.mngr.encrypted_session_id(g.uid, g.cid)
                self._admin("revoke_client_session", sid)
                for x in self.model.client_grants(g.uid, g.cid):
                    x.revoked.add("P06")
            self.note("revoke %s" % ["", "", "grant", "client session", "remove", "remove user",
                                     "remove client session", "", "client session by path"][kind])
        self.revocations += 1

    def check_queries(self, g):
        """P22: what the session manager tells about a session is what there is."""
        m = self.node.mngr
        # what is stored; a request refused late may have left a grant without tokens behind
        paths = [m.unpack_session_key(k) for k in m.db.keys()]
        stored = {p[2]: m.db[m.session_key(*p)] for p in paths
                  if len(p) == 3 and p[0] == g.uid and p[1] == g.cid}
        want = sorted(stored)
        cids = sorted({p[1] for p in paths if len(p) > 1 and p[0] == g.uid})
        times = sorted(int(x.authentication_event["authn_time"]) for x in stored.values())
        bad = []
        try:
            if sorted(x.id for x in m.grants(g.sid)) != want:
                bad.append("grants(session_id)")
            if sorted(x.id for x in m.grants(user_id=g.uid, client_id=g.cid)) != want:
                bad.append("grants(user_id, client_id)")
            for kw in ({"session_id": g.sid}, {"user_id": g.uid, "client_id": g.cid}):
                if sorted(int(e["authn_time"])
                          for e in m.get_authentication_events(**kw)) != times:
                    bad.append("get_authentication_events")
            if sorted(m.get_client_session_info(g.sid).subordinate) != want:
                bad.append("get_client_session_info")
            if sorted(m.get_user_session_info(g.sid).subordinate) != cids:
                bad.append("get_user_session_info")
            if sorted(m.get_user_info(g.uid).subordinate) != cids:
                bad.append("get_user_info")
            if int(m.get_authentication_event(g.sid)["authn_time"]) != int(g.authn["time"]):
                bad.append("get_authentication_event")
            info = m.get_session_info(g.sid, user_session_info=True, client_session_info=True,
                                      grant=True, authentication_event=True)
            if (info["user_id"], info["client_id"], info["grant_id"], info["grant"].id) != \
                    (g.uid, g.cid, g.gid, g.gid):
                bad.append("get_session_info")
            for t in [t for t in self.model.toks.values() if t.grant is g][:4]:
                f = m.find_token(g.sid, t.value)
                if f is None or f.value != t.value:
                    bad.append("find_token")
        except Exception as err:
            bad.append("%r" % err)
        if bad:
            self.viol({"P22"}, "the session manager is wrong about a session: %s"
                      % ", ".join(sorted(set(bad))))

    def _admin(self, meth, *args, **kw):
        for node in (self.node, self.twin):
            if node is None:
                continue
            try:
                with self.process(node):
                    getattr(node.mngr, meth)(*args, **kw)
            except Exception as err:
                self.viol({"P06", "P22"}, "%s failed: %r" % (meth, err))

    # ----------------------------------------------------------- authorization
    SCOPES = [["openid"], ["openid", "profile"], ["openid", "profile", "email",
                                                  "offline_access"],
              ["openid", "offline_access"], ["openid", "email", "phone", "address"],
              ["openid", "research", "email"], ["openid", "unknown_scope", "profile"],
              ["openid", "profile", "email", "address", "phone", "offline_access",
               "research"], ["openid", "email"], ["openid", "offline_access", "email"],
              ["openid", "profile", "openid", "profile"], ["email", "openid", "OpenID", "Email"],
              ["openid", "emai", "profile2", "phone:x", "%70rofile"]]
    # parameters that mean nothing in an authorization request
    EXTRA = [{}, {"ui_locales": "sv en", "display": "page", "claims_locales": "sv"},
             {"foo": "bar", "x[]": "1"}, {"iss": "https://evil.example.com", "aud": "x"},
             {"sub": "dikr0001", "uid": "diana", "user": "diana", "username": "diana"},
             {"code": "c", "access_token": "t", "id_token": "i", "error": "e"},
             {"return_uri": "https://evil.example.com/cb", "error_description": "x",
              "fragment_enc": "true"},
             {"client_secret": "wrong", "grant_type": "x", "sid": "s", "session_state": "y"}]
    CLAIMS = [
        None,
        {"userinfo": {"email": None, "nickname": {"essential": True}}},
        {"id_token": {"email": {"essential": True}, "given_name": None}},
        {"userinfo": {"email": {"value": "diana@example.org"}}},
        {"userinfo": {"name": {"values": ["Diana Krall", "Nobody"]}},
         "id_token": {"nonce": None, "family_name": None}},
        {"introspection": {"webid": None}, "userinfo": {"webid": None}},
        {"access_token": {"email": None}},
        {"userinfo": {"email_verified": {"value": False}, "phone_number": None},
         "id_token": {"email_verified": None}},
        {"id_token": {"auth_time": {"essential": True}}},
        {"userinfo": {"sub": None, "eduperson_scoped_affiliation": None}},
        {"id_token": {"acr": None, "auth_time": None, "nonce": {"essential": True},
                      "aud": None, "iss": None, "nickname": None},
         "introspection": {"given_name": None}},
        {"userinfo": {"acr": None}},
        {"id_token": {"acr": {"essential": True, "value": ACR2}}},
        {"id_token": {"acr": {"values": [ACR2, ACR]}}, "userinfo": {"acr": {"value": ACR}}},
        {"introspection": {"acr": None}, "access_token": {"acr": {"values": [ACR2]}}},
        {"userinfo": {"name": {"values": ["Nobody", "Barbara J Jensen", "Diana Krall"]},
                      "email": {"essential": True, "value": "babs@example.com"}},
         "introspection": {"nickname": {"values": ["babs", "Dina"], "essential": True}}},
        {"id_token": {"nickname": {"essential": True, "values": ["x", "Dina"]},
                      "given_name": {"essential": False},
                      "email": {"value": "nobody@example.com", "essential": True}},
         "access_token": {"name": {"essential": True, "values": ["Nobody"]}, "webid": None}},
        {"userinfo": {"email_verified": {"value": True}, "given_name": {"value": "Diana"},
                      "family_name": {"values": []}}},
        # values that are only nearly what they are compared with
        {"userinfo": {"given_name": {"value": "Dian"}, "name": {"value": "Diana Krall "},
                      "nickname": {"values": ["Din", "DINA"]}, "email_verified": {"value": 0},
                      "email": {"value": "Diana@example.org"}},
         "introspection": {"family_name": {"value": "Krall Jr"}}},
        {"id_token": {"given_name": {"value": "Diana", "essential": True},
                      "name": {"values": ["Diana", "diana krall"]},
                      "email": {"values": ["diana@example.or", "Diana@example.org"]}},
         "access_token": {"nickname": {"value": "dina"}}},
    ]
    MAXAGE = [None, 10, 100, 1000, 0, 3, 3599]

    def state_value(self, v):
        i = self.opid
        return ["s%s" % i, "a::b::%s" % i, "q\"'<>&=%%25 +/%s" % i, "\u00f6\u4f60%s" % i,
                None, "x" * 300 + str(i), "t|%s|;;,{}" % i][v % 7]

    def build_request(self, op, ec):
        """-> (effective request, reasons, extra)"""
        oidc = self.cfg["flavour"] == "oidc"
        R = set()
        x = {"ver": None}
        req = {"client_id": ec.cid}
        rt = op.get("rt", 0)
        types = ec.rtypes()
        if rt < 20:
            req["response_type"] = pick(types, rt)
        else:
            allt = ["code", "token", "id_token", "code token", "code id_token",
                    "id_token token", "code id_token token"]
            have = [set(t.split()) for t in types]
            cand = [t for t in allt if set(t.split()) not in have]
            req["response_type"] = pick(cand, rt - 20) or "code"
            if cand:
                R.add("P16")
        if op.get("rto"):
            # the order of the parts means nothing
            parts = req["response_type"].split()
            k = op["rto"] % len(parts)
            req["response_type"] = " ".join(parts[k:] + parts[:k])
        sc = list(pick(self.SCOPES, op.get("sc", 0)))
        if not oidc:
            sc = [s for s in sc if s != "openid"] or ["profile"]
        pr = op.get("pr", 0)
        prompt = ["", "login", "none", "consent", "login consent"][pr % 5]
        if oidc and "offline_access" in sc:
            if prompt == "none":
                sc.remove("offline_access")
            elif "consent" not in prompt:
                prompt = (prompt + " consent").strip()
        req["scope"] = sc
        if prompt and oidc:
            req["prompt"] = prompt
        st = self.state_value(op.get("st", 0))
        if st is not None:
            req["state"] = st
        elif not oidc:
            req["state"] = "s%s" % self.opid
        if oidc:
            if "id_token" in req["response_type"] or not op.get("nn"):
                req["nonce"] = "n%s-0" % self.opid if not op.get("nw") else \
                    self.state_value(op["nw"]) or "0"
            ma = pick(self.MAXAGE, op.get("ma", 0))
            if ma is not None:
                req["max_age"] = ma
            cl = pick(self.CLAIMS, op.get("cl", 0))
            if cl:
                req["claims"] = cl
            if op.get("ac"):
                req["acr_values"] = pick(self.ACRS, op["ac"])
            if op.get("lh"):
                lh, who = pick(self.HINTS, op["lh"])
                req["login_hint"] = lh
                if self.cfg["hints"]:
                    x["lhint"] = who
            if op.get("hi"):
                hint = pick([e for e in self.toks[IDT] if e["cid"] == ec.cid and
                             (not op.get("hx") or e["value"].count(".") == 2)], op["hi"] - 1)
                if hint is not None:
                    req["id_token_hint"] = hint["value"]
                    x["hint"] = hint
                    if self.hint_unsure(hint):
                        x["maybe"] = True
                    if op.get("hx"):
                        req["id_token_hint"] = self.forge_jwt(hint["value"], op["hx"], ec)
                        R.add("P14")
            # no correct authentication request
            df = op.get("df", 0)
            if df == 1 and "id_token" in req["response_type"]:
                del req["nonce"]
                x["defect"] = True
            elif df == 2:
                req["scope"] = [s for s in sc if s not in ("openid", "offline_access")] \
                    or ["profile"]
                x["defect"] = True
            elif df == 3:
                req["scope"] = ["openid", "offline_access"]
                req.pop("prompt", None)
                x["defect"] = True
            elif df == 4:
                req["prompt"] = "none login"
                x["defect"] = True
            if x.get("defect"):
                if op.get("via", 0) in (1, 2, 3):
                    R.add("P19" if op["via"] == 3 else "P24")
                else:
                    x["maybe"] = True
        uris = ec.uris()
        ru = op.get("ru", 0)
        base = pick(uris, ru if ru < 2 else 0)
        if ru == 2:
            base = "https://evil.example.com/cb"
            R.add("P16")
        elif ru == 3:
            base = base + ("&" if "?" in base else "?") + "extra=1"
            R.add("P16")
        elif ru == 4:
            base = base + "#frag"
            R.add("P16")
        elif ru == 5:
            o = pick([u for c in self.ec for u in c.uris() if u not in uris], op.get("n", 0))
            if o:
                base = o
                R.add("P16")
        elif ru == 7:
            base = base.split("?")[0] + "/x"
            R.add("P16")
        elif ru == 8:
            q = [u for u in uris if "?" in u]
            if q:
                base = q[0].split("?")[0]
                if base not in uris:
                    R.add("P16")
        elif ru == 9:
            base = base.replace("https://", "http://", 1)
            R.add("P16")
        elif ru >= 10:
            if ru % 28 >= 19:
                base = ([u for u in uris if "?" in u] or uris)[-1]
            base = spelling(base, ru)
            if base not in uris:
                if any(same_uri(base, u) for u in uris):
                    x["maybe"] = True       # "?x" and "?x=", "?" and "": the same URI or not
                else:
                    R.add("P16")
        if base not in uris and "P16" not in R and not x.get("maybe"):
            R.add("P16")
        if ru == 6:
            if oidc or len(uris) != 1:
                x["maybe"] = True
            else:
                x["implied_ru"] = base
        else:
            req["redirect_uri"] = base
        pk = op.get("pk", 0)
        ver = None
        if pk:
            ver = "verifier-%s-%s" % (self.opid, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMN")
            meth = {1: "S256", 2: "plain", 3: None, 4: "S384", 5: "S1", 6: "S256",
                    7: "S512"}[pk % 8 or 1]
            if pk != 6:
                if meth in (None, "plain", "S1"):
                    req["code_challenge"] = ver
                else:
                    h = {"S256": hashlib.sha256, "S384": hashlib.sha384,
                         "S512": hashlib.sha512}[meth]
                    req["code_challenge"] = base64.urlsafe_b64encode(
                        h(ver.encode()).digest()).rstrip(b"=").decode()
            if meth:
                req["code_challenge_method"] = meth
        x["ver"] = ver
        want = self.acr_wanted(req, x.get("hint"))
        if want is None:
            x["maybe"] = True
        rm = op.get("rm", 0)
        if rm:
            req["response_mode"] = ["", "query", "fragment", "form_post", "bogus"][rm % 5]
        return req, R, x

    def hint_unsure(self, hint):
        """Whether an ID token may be too old, or of a kind, to serve as a hint."""
        return hint["exp"] <= self.now() or not 0 <= self.now() - hint["iat"] < 14400 or \
            (self.alg_for(hint["cid"], "id_token") or "RS").startswith("HS")

    def policy_reasons(self, req, ec):
        """Reasons that follow from configuration, for the effective request."""
        R = set()
        cinfo = self.cinfo(req["client_id"]) or {}
        if self.cfg["pkce"] is not None:
            ess = cinfo.get("pkce_essential", self.cfg["pkce"]["essential"])
            if ess and "code_challenge" not in req:
                R.add("P04")
            if "code_challenge" in req and req.get("code_challenge_method", "plain") not in \
                    self.cfg["pkce"]["methods"]:
                R.add("P04")
        if self.cfg["deny_unknown"]:
            if set(req["scope"]) - set(allowed_scopes(self.cfg, cinfo)):
                R.add("P07")
        return R

    def wire(self, req):
        """The request as it travels: strings."""
        out = {}
        for k, v in req.items():
            if k == "scope":
                v = " ".join(v)
            elif k == "claims":
                v = json.dumps(v)
            out[k] = v if isinstance(v, str) else str(v)
        return out

    def cookies_for(self, op):
        """-> list of cookies sent, plus whether a non-genuine one is among them"""
        b = self.browsers[op.get("b", 0) % N_BROWSERS]
        ck = op.get("ck", 0)
        jar = list(b["jar"].values())
        if ck == 0:
            return jar, False
        if ck == 1:
            return [], False
        sess = b["jar"].get("oidc_op")
        if ck == 2 and sess:
            v = self.tamper_cookie(sess["value"], op.get("n", 0))
            if v is None:
                return jar, False
            self.count("fault_cookie_tampered")
            return [dict(sess, value=v)], True
        if ck == 3:
            o = self.browsers[(op.get("b", 0) + 1) % N_BROWSERS]
            return list(o["jar"].values()), False
        if ck == 4 and b["hist"]:
            old = pick(b["hist"], op.get("n", 0))
            self.count("fault_cookie_stale")
            return [{"name": "oidc_op", "value": old}], False
        if ck == 5 and b["hist"]:
            old = pick(b["hist"], op.get("n", 0))
            return [{"name": "oidc_op", "value": old}] + jar, False
        if ck == 6 and sess:
            pool = [v for v in self.cookies if v != sess["value"]]
            o = pick(pool, op.get("n", 0))
            if o:
                a, c = sess["value"].split("|"), o.split("|")
                if len(a) == len(c):
                    i = 1 + op.get("pos", 0) % (len(a) - 1)
                    a[i] = c[i]
                    v = "|".join(a)
                    if v not in self.cookies and a[1:] != sess["value"].split("|")[1:] and \
                            a[1:] != c[1:]:
                        self.count("fault_cookie_spliced")
                        return [{"name": "oidc_op", "value": v}], True
        if ck == 7:
            o = b["jar"].get("oidc_op_sman")
            if o:
                return [{"name": "oidc_op", "value": o["value"]}], True
            return [{"name": "oidc_op", "value": "12|garbage|x"}], True
        if ck == 8:
            # a plausible unprotected cookie made up by an attacker
            sids = [g.sid for g in self.model.grants.values()]
            sid = pick(sids, op.get("n", 0))
            if sid:
                val = json.dumps({"sid": sid, "state": "x"}) + "::"
                self.count("fault_cookie_forged")
                return [{"name": "oidc_op", "value": "%s|%s|%s" % (
                    self.now(), val, base64.b64encode(b"0" * 32).decode())}], True
        if ck == 9:
            # a cookie that does not have the parts it should have
            n = op.get("n", 0)
            sid = pick([g.sid for g in self.model.grants.values()], n // 12)
            if not sid:
                return jar, False
            text = json.dumps({"sid": sid, "state": "x"}) + "::"
            if sess and n % 2:
                parts = sess["value"].split("|")
                part = [
                    lambda: parts[:2], lambda: parts[1:], lambda: parts[:1],
                    lambda: parts[1:2], lambda: parts + [parts[-1]],
                    lambda: parts[:-1] + [""]][n // 2 % 6]()
            else:
                now = str(int(self.now()))
                part = [
                    [now, text], [text], [text, now], [now, text, ""],
                    [now, text, "", ""],
                    [now, base64.b64encode(text.encode()).decode()]][n // 2 % 6]
            v = "|".join(part)
            if v not in self.cookies:
                self.count("fault_cookie_parts")
                return [{"name": "oidc_op", "value": v}], True
        return jar, False

    def tamper_cookie(self, v, n):
        parts = v.split("|")
        if n % 5 == 4 and self.cfg["cookie"] == "sign":
            # move a digit of the timestamp to the other end of what is signed
            parts[-2] += parts[0][0]
            parts[0] = parts[0][1:]
            return "|".join(parts)
        i = 1 + n % (len(parts) - 1)
        s = parts[i]
        if len(s) < 8:
            return None
        j = (n // 3) % (len(s) - 4)
        c = "A" if s[j] != "A" else "B"
        parts[i] = s[:j] + c + s[j + 1:]
        out = "|".join(parts)
        if out in self.cookies:
            return None
        if i >= 1 and len(parts) == 4:
            try:
                if base64.b64decode(parts[i]) == base64.b64decode(s):
                    return None
            except Exception:
                pass
        return out

    def op_authz(self, op):
        ec = pick(self.ec, op.get("c", 0))
        if op.get("rq") and self.reqs:
            cand = [r for r in self.reqs if r["cid"] == ec.cid] or self.reqs
            old = pick(cand, op.get("n", -1))
            ec = next((c for c in self.ec if c.cid == old["cid"]), ec)
            req, R, x = copy.deepcopy((old["req"], old["R"], old["x"]))
            if not op.get("via"):
                op = dict(op, via=old["via"], tam=old["tam"])
        else:
            req, R, x = self.build_request(op, ec)
            self.reqs.append({"cid": ec.cid, "req": copy.deepcopy(req), "R": set(R),
                              "x": dict(x), "via": op.get("via", 0), "tam": op.get("tam", 0)})
        via = op.get("via", 0)
        if self.cfg["flavour"] == "oauth2" and via in (1, 2):
            via = 0
        if via == 1 and (ec.jwk is None or ec.jwks_uri):
            via = 0
        if via == 2 and (ec.jwk is None or ec.jwks_uri or not ec.info.get("request_uris")):
            via = 0
        if via == 3:
            return self.par_flow(op, ec, req, R, x)
        self.authz_flow(op, ec, req, R, x, via)

    def authz_flow(self, op, ec, req, R, x, via, outer=None, par=None):
        R = set(R)
        maybe = bool(x.get("maybe"))
        wire = dict(self.EXTRA[op.get("ex", 0) % 8], **self.wire(req))
        tam = op.get("tam", 0)
        if via in (1, 2):
            inner = {k: v for k, v in req.items()}
            inner["scope"] = " ".join(req["scope"])
            if "response_mode" in inner and False:
                pass
            inner["iss"] = ec.cid
            inner["aud"] = world.ISSUER
            key, alg = client_key(ec.jwk), "RS256"
            if tam == 1:
                key = client_key((ec.jwk + 1) % len(CLIENT_JWKS))
                R.add("P24")
            elif tam == 2:
                key, alg = None, "none"
                R.add("P24")
            elif tam == 3:
                if ec.secret:
                    key, alg = SYMKey(key=ec.secret), "HS256"
                    maybe = True
            elif tam == 5:
                o = pick([c.cid for c in self.ec if c.cid != ec.cid], op.get("n", 0))
                o = {3: ec.cid.swapcase(), 6: ec.cid[:-1], 9: ec.cid + "1"}.get(
                    len(self.reqs) % 10, o)
                if o and o != ec.cid:
                    inner["client_id"] = o
                    R.add("P24")
            elif tam == 8:
                alg = "RS512"
                want = ec.info.get("request_object_signing_alg")
                if want:
                    R.add("P24")
                else:
                    maybe = True
            elif tam in (9, 14):
                # verified with the keys of whoever the object says is its issuer
                if tam == 9:
                    o = pick([c for c in self.ec if c.cid != ec.cid and c.jwk is not None],
                             op.get("n", 0))
                    if o:
                        inner["iss"], key = o.cid, client_key(o.jwk)
                        R.add("P24")
                else:
                    inner["iss"] = world.ISSUER
                    R.add("P24")
            elif tam == 13:
                del inner["iss"]
                maybe = maybe or via == 1
            robj = sign(inner, key, alg)
            if tam in (10, 11):
                robj = json.dumps(inner)
                R.add("P24")
            if tam in (11, 12):
                robj = JWE(robj, alg="RSA-OAEP", enc="A128CBC-HS256", cty="JWT").encrypt(
                    [op_enc_key()])
            if tam == 4:
                h, p, s = robj.split(".")
                q = dict(inner, scope="openid profile email", nonce="tampered")
                p = base64.urlsafe_b64encode(json.dumps(q).encode()).rstrip(b"=").decode()
                robj = ".".join([h, p, s])
                R.add("P24")
            if op.get("om"):
                wire = dict(wire, scope="openid")
                # a parameter only outside a referenced object is a parameter
                if "state" in wire or via == 1:
                    wire["state"] = "outer-%s" % self.opid
                if "nonce" in wire:
                    wire["nonce"] = "outer-nonce"
                # parameters only in the unsigned part
                if "max_age" not in wire and op.get("om") == 2 and via == 1:
                    wire["max_age"] = "3000"
            if via == 2 and x.get("defect"):
                # what is wrong is in the object only
                wire = dict(wire, scope="openid")
                wire.pop("prompt", None)
            if tam:
                self.count("fault_request_object_%d" % tam)
            if via == 1:
                wire["request"] = robj
            else:
                url = ec.info["request_uris"][0][0]
                if tam == 6:
                    h = url.split("/")[2]
                    url = ["https://evil.example.com/ro.jwt", url + "2", url + "/x", url[:-1],
                           url + "?a=b", url.replace(h, h + ".evil.example.com"),
                           url.replace("https:", "http:"), url.replace("/ro", "/RO"),
                           "https://%s@evil.example.com/ro.jwt" % h][op.get("rv", 0) % 9]
                    R.add("P24")
                self.http.docs[url] = robj
                wire["request_uri"] = url
                hf = op.get("hf", 0)
                if hf and self.FAULTS[hf % 10]:
                    R.add("P24")
                elif hf:
                    maybe = True
        if outer is not None:
            wire = outer
        if op.get("hf") and via != 2:
            op = dict(op, hf=0)
        cookies, forged = self.cookies_for(op)
        # what the browser believed when it sent this
        flow = {"req": req, "R": R, "x": x, "b": op.get("b", 0) % N_BROWSERS, "op": op,
                "cid": req["client_id"], "maybe": maybe, "forged": forged,
                "cookies": cookies, "via": via, "par": par, "id": self.opid,
                "u": op.get("u", 0)}

        def judge(phase):
            r = R | self.policy_reasons(req, ec)
            if self.cinfo(ec.cid) is None:
                r.add("P17")
            if phase == "parse" and x.get("hint") is not None and self.hint_unsure(x["hint"]):
                flow["maybe"] = True
            if par is not None and phase == "parse":
                p = self.model.par.get(par["urn"])
                if p is None:
                    r.add("P19")
                else:
                    if p["taken"]:
                        r.add("P19")
                    elif p["touched"]:
                        flow["maybe"] = True
                    if p["cid"] != ec.cid or par["cid"] != ec.cid:
                        r.add("P19")
                    if p["exp"] < self.now():
                        r.add("P19")
                    elif p["exp"] == self.now():
                        flow["maybe"] = True
                    flow["parent"] = p
                    flow["fresh"] = not p["touched"]
                    # what others try does not use it up
                    p["touched"] = p["touched"] or p["cid"] == ec.cid
            flow["R"] = flow["R"] | r
            j = J(r, flow["maybe"], {"P23"})
            j.sso = self.sso(req, cookies, forged, x)
            return j

        def finish(res, j, phase):
            self.authz_done(op, ec, flow, res, phase)

        self.launch(op, "authorization", wire, judge, finish, cookies=cookies,
                    url=world.BASE + "/authorization", method="GET")

    # ---- single sign-on oracle
    def sso(self, req, cookies, forged, x):
        """-> (possible answers subset of {'yes','no'}, the acceptable grants, tags)"""
        hint = x.get("hint")
        matches = []
        for c in cookies:
            if c.get("name") != "oidc_op":
                continue
            t = self.cookies.get(c["value"])
            if t and t["cid"] == req["client_id"]:
                matches.append(t)
        ans = set()
        grants = []
        if not matches:
            return {"no"}, []
        now = self.now()
        for t in matches:
            g = self.model.grants.get((t["uid"], t["cid"], t["gid"]))
            if g is None or g.removed or g.revoked or g.expired(now):
                ans.add("no")
                if g is not None and g.maybe and not (g.removed or g.revoked):
                    ans.add("yes")
                continue
            if "login" in req.get("prompt", ""):
                ans.add("no")
                continue
            if not self.acr_ok(req, g.authn["acr"]):
                ans.add("no")
                continue
            if hint is None and x.get("lhint") is not None and x["lhint"] != g.uid:
                ans.add("no")
                continue
            if hint is not None:
                if hint["uid"] != g.uid:
                    ans.add("no")
                    continue
                if (self.cinfo(g.cid) or {}).get("subject_type") == "ephemeral":
                    ans |= {"no", "yes"}
                    grants.append(g)
                    continue
            if g.authn["until"] < now:
                ans.add("no")
                continue
            if g.authn["until"] == now:
                ans |= {"yes", "no"}
                grants.append(g)
                continue
            if "max_age" in req:
                age = now - g.authn["time"]
                if age > req["max_age"]:
                    ans.add("no")
                    continue
                if req["max_age"] == 0:
                    ans.add("no")
            if g.maybe:
                ans.add("no")
            ans.add("yes")
            grants.append(g)
        return ans, grants

    def authz_parse(self, res):
        """-> (mode, url without parameters, params) of an authorization response, or None"""
        if res.kind == "redirect" and isinstance(res.url, str):
            if "#" in res.url:
                base, q = res.url.split("#", 1)
                return "fragment", base, dict(parse_qsl(q, keep_blank_values=True))
            return "query", res.url, dict(parse_qsl(urlparse(res.url).query,
                                                    keep_blank_values=True))
        if res.kind == "text" and isinstance(res.body, str) and "<form" in res.body \
                and "Submit This Form" in res.body:
            act, params = parse_form_post(res.body)
            return "form_post", act, params
        return None

    def authz_done(self, op, ec, flow, res, phase, sso=None):
        req = flow["req"]
        self.note("authz %s -> %s" % (flow["cid"], res.short()))
        R = flow["R"]
        ap = self.authz_parse(res)
        tok = page_token(res.body) if res.kind == "page" and isinstance(res.body, str) else None
        if ap is not None:
            self.check_response(flow, res, ap)
            mode, base, params = ap
            if "error" in params:
                return self.authz_error(flow, res, params)
            # silent sign-on
            ans, grants = self.sso(req, flow["cookies"], flow["forged"], flow["x"])
            keys = [g.key() for g in grants]
            self.authorized(flow, res, params, silent=(ans, keys))
            return
        if tok is not None:
            ans, grants = self.sso(req, flow["cookies"], flow["forged"], flow["x"])
            if "none" in req.get("prompt", "") and not R:
                self.viol({"P14"}, "login page shown although prompting was forbidden")
            if not flow["forged"] and "no" not in ans and not R and not flow["maybe"]:
                self.viol({"P14", "P23"} | ({"P21"} if self.restarted else set()),
                          "silent sign-on expected, got the login page")
            act = page_action(res.body)
            want = self.acr_wanted(req, flow["x"].get("hint"))
            if not R and want != "any" and act != {ACR: "verify/user", ACR2: "verify/strong"}.get(want):
                self.viol({"P13", "P14"}, "a login with %s was asked for, the page is for %s" % (
                    want, act))
            self.pages.append({"token": tok, "flow": flow, "done": 0, "action": act})
            lg = op.get("lg", 0)
            if lg == 0:
                self.submit(self.pages[-1], flow["u"], True, op)
            elif lg == 1:
                self.submit(self.pages[-1], flow["u"], False, op)
            return
        # no redirect, no page
        if res.status == "denied" or res.kind == "text" or res.kind == "page":
            if not R and not flow["maybe"] and not flow["forged"]:
                if flow["req"].get("response_mode") == "bogus":
                    return
                tags = {"P23", "P14"}
                if flow["via"] in (1, 2):
                    tags.add("P24")
                if flow["par"]:
                    tags.add("P19")
                if "P21" not in tags and self.restarted:
                    tags.add("P21")
                if self.cfg["pkce"] is not None:
                    tags.add("P04")
                self.viol(tags, "correct authorization request refused: %s %r" % (
                    res.body if isinstance(res.body, dict) else str(res.body)[:200], res.exc))
            return
        self.viol({"P16"}, "authorization endpoint answered with something odd: %s" %
                  res.short())

    def expected_mode(self, req):
        rt = req["response_type"].split()
        default = "query" if rt in (["code"], ["none"]) else "fragment"
        return req.get("response_mode") or default

    def check_response(self, flow, res, ap):
        """P16: where an authorization response or error goes."""
        mode, base, params = ap
        req = flow["req"]
        ru = req.get("redirect_uri") or flow["x"].get("implied_ru")
        if flow["R"] & {"P16"}:
            self.viol({"P16"}, "an unregistered response type or redirect URI got a redirect "
                               "to %s" % base)
        owner = next((c for c in self.ec if c.cid == flow["cid"]), None)
        if ru is not None:
            if mode == "query":
                okb = base.startswith(ru + ("&" if "?" in ru else "?"))
            else:
                okb = base == ru
            if not okb:
                self.viol({"P16"}, "response sent to %s instead of %s" % (base[:200], ru))
        elif owner is not None and not any(base.startswith(u) for u in owner.uris()):
            self.viol({"P16"}, "response sent to unregistered %s" % base[:200])
        if params.get("state") != req.get("state"):
            self.viol({"P16"}, "state %r returned for %r" % (params.get("state"),
                                                            req.get("state")))
        if "__alien__" in params:
            self.viol({"P16"}, "the response form carries foreign markup")
        want = self.expected_mode(req)
        if "error" in params:
            leak = [k for k in ("code", "access_token", "id_token") if k in params]
            if leak:
                self.viol({"P16"}, "error response carries %s" % leak)
            if want == "form_post" and mode != "form_post":
                self.viol({"P16"}, "error sent by %s although form_post was requested" % mode)
            if want in ("query", "fragment") and mode == "form_post":
                self.viol({"P16"}, "error sent by form_post, expected %s" % want)
        else:
            if mode != want:
                self.viol({"P16"}, "response sent by %s, expected %s" % (mode, want))
            if params.get("iss") != world.ISSUER:
                self.viol({"P16"}, "issuer %r in the authorization response" %
                          params.get("iss"))
            if params.get("client_id") != req["client_id"]:
                self.viol({"P16"}, "client_id %r in the authorization response for %s" % (
                    params.get("client_id"), req["client_id"]))
            if self.cfg["csi"]:
                self.session_state_check(req, res, params, ru)
            elif "session_state" in params:
                self.viol({"P20"}, "session_state without session management")

    def session_state_check(self, req, res, params, ru):
        """What the check session iframe will recompute at the client."""
        c = [c for c in res.cookies if c["name"] == "oidc_op_sman"]
        ss = params.get("session_state", "")
        if self.expected_mode(req) == "form_post" and not ss:
            return                      # the form is made before there is a session_state
        if len(c) != 1 or ss.count(".") != 1:
            self.viol({"P20"}, "session management without cookie or session_state: %r %r" % (
                [c["name"] for c in res.cookies], ss))
            return
        u = urlparse(ru) if ru else None
        salt = ss.split(".")[1]
        if u is not None and ss != hashlib.sha256(("%s %s://%s %s %s" % (
                req["client_id"], u.scheme, u.netloc, c[0]["value"], salt)).encode()
                ).hexdigest() + "." + salt:
            self.viol({"P20"}, "session_state does not match the session cookie of %s" %
                      req["client_id"])

    def mode_error_ok(self, req):
        """The requested response mode does not fit the response type."""
        rm = req.get("response_mode")
        code_only = req["response_type"].split() in (["code"], ["none"])
        return rm == "bogus" or (rm == "fragment" and code_only) or \
            (rm == "query" and not code_only)

    def authz_error(self, flow, res, params):
        req = flow["req"]
        if flow["R"] or flow["maybe"] or flow["forged"] or self.mode_error_ok(req):
            return
        if params["error"] == "login_required" and "none" in req.get("prompt", ""):
            ans, _ = self.sso(req, flow["cookies"], flow["forged"], flow["x"])
            if "no" not in ans:
                self.viol({"P14", "P23"} | ({"P21"} if self.restarted else set()),
                          "login_required although silent sign-on was possible")
            return
        self.viol({"P23"}, "correct authorization request answered with %s %s" % (
            params["error"], params.get("error_description")))

    def authorized(self, flow, res, params, silent=None, user=None):
        """A successful authorization response came back: record and check everything."""
        if flow["via"] in (1, 2):
            self.hit("P24")
        req = flow["req"]
        cid = flow["cid"]
        R = set(flow["R"])
        now = self.now()
        if R:
            self.viol(R, "an authorization was granted that had to be refused (%s)" %
                      ",".join(sorted(R)))
        try:
            uid, c2, gid = self.node.mngr.decrypt_session_id(res.sid)
        except Exception as err:
            if req["response_type"] == "none":
                return
            self.viol({"P22"}, "authorization without a usable session: %r" % err)
            return
        tags = {"P15"}
        g0 = None
        if silent is not None:
            ans, keys = silent
            if flow["forged"]:
                ans = {"no"} if not keys else ans
            if "yes" not in ans:
                t = {"P14"}
                if flow["forged"]:
                    t.add("P15")
                for c in flow["cookies"]:
                    tr = self.cookies.get(c["value"])
                    if tr:
                        g = self.model.grants.get((tr["uid"], tr["cid"], tr["gid"]))
                        if g is not None and g.revoked:
                            t |= g.revoked
                        if g is not None and g.removed:
                            t |= {"P06"}
                        if g is None:
                            t |= {"P08"}
                self.viol(t, "silent sign-on although the conditions do not hold")
            if uid not in [k[0] for k in keys] and keys:
                self.viol(tags, "silent sign-on as %s, cookie belongs to %s" % (uid, keys))
            g0 = next((self.model.grants[k] for k in keys if k[0] == uid), None)
            if "none" not in req.get("prompt", "") and False:
                pass
        elif uid != user:
            self.viol(tags, "logged in as %s, session is for %s" % (user, uid))
        if c2 != cid:
            self.viol({"P15", "P22"}, "session of client %s for a request of %s" % (c2, cid))
        cinfo = self.cinfo(cid) or {}
        g = self.model.grants.get((uid, c2, gid))
        if g is None:
            if gid in self.seen_gids:
                self.viol({"P22"}, "grant identifier %s used twice" % gid)
            self.seen_gids.add(gid)
            if silent is None:
                strong = flow.get("action") == "verify/strong"
                life = self.cfg["authn_exp"] if self.cfg["authn_exp"] and not strong else 3600
                authn = {"time": now, "until": now + life, "acr": ACR2 if strong else ACR}
            elif g0 is not None:
                authn = g0.authn
            else:
                authn = {"time": now, "until": now + 3600, "acr": ACR}
            g = MGrant(uid, c2, gid, res.sid, req, req["scope"], authn)
            g.t = now
            self.model.grants[g.key()] = g
        elif silent is None:
            self.viol({"P22", "P15"}, "a new login ended up in an existing grant")
        g.rules = usage_rules(self.cfg, cinfo)
        g.expires_at = now + self.cfg["grant_exp"] if self.cfg["grant_exp"] else None
        if flow.get("parent"):
            p = flow["parent"]
            p = self.model.par.get(flow["par"]["urn"])
            if p:
                if p["taken"] and "P19" not in R:
                    self.viol({"P19"}, "pushed request used for a second authorization")
                p["taken"] = True
        # response contents
        rts = set(req["response_type"].split()) - {"none"}
        names = {"code": "code", "token": "access_token", "id_token": "id_token"}
        for n, p in names.items():
            if (p in params) != (n in rts):
                self.viol({"P16", "P23"}, "response type %s, parameter %s %s" % (
                    req["response_type"], p, "present" if p in params else "missing"))
        full = req["scope"]
        if "scope" in params:
            got = params["scope"]
            got = got.split()
            bad = set(got) - set(filter_scopes(self.cfg, cinfo, full))
            if bad:
                self.viol({"P07"}, "authorization response reports scopes %s" % sorted(bad))
            if set(got) != set(filter_scopes(self.cfg, cinfo, full)):
                self.viol({"P07"}, "authorization response reports scopes %s of %s" % (
                    got, full))
        code = at = None
        if "code" in params:
            code = self.new_tok(CODE, params["code"], g, None, full, now, "authz")
            code.req = req
            if self.cfg["pkce"] is not None and req.get("code_challenge"):
                code.chal = req["code_challenge"]
                code.chm = req.get("code_challenge_method", "plain")
            self.add_ext(code, flow["op"].get("drop"),
                         ru=req.get("redirect_uri") or flow["x"].get("implied_ru"),
                         ver=flow["x"]["ver"], chal=req.get("code_challenge"))
        if "access_token" in params:
            at = self.new_tok(AT, params["access_token"], g, None, full, now, "authz")
            at.req = req
            self.check_expiry(at, params.get("expires_in"), now, "authorization response")
            self.check_at_jwt(at, cinfo)
            self.add_ext(at, flow["op"].get("drop"))
        if "id_token" in params:
            self.check_idt(params["id_token"], g, req, full,
                           code.value if code else None, at.value if at else None,
                           "userinfo" if req["response_type"] == "id_token" else "",
                           drop=flow["op"].get("drop"))
        # cookies reach the browser unless the response is lost
        if flow["op"].get("drop"):
            self.count("fault_response_lost")
        else:
            b = self.browsers[flow["b"]]
            for c in res.cookies:
                self.set_cookie(b, c, {"uid": uid, "cid": c2, "gid": gid})

    def set_cookie(self, b, c, truth):
        if "expires" in c or not c.get("value"):
            b["jar"].pop(c["name"], None)
            return
        b["jar"][c["name"]] = {"name": c["name"], "value": c["value"]}
        if c["name"] == "oidc_op":
            self.cookies[c["value"]] = dict(truth)
            b["hist"].append(c["value"])

    # --------------------------------------------------------------- login page
    def forged_page(self, page, op):
        """What the provider put in the login page, as somebody else would make it."""
        kind, v = op["forge"], page["token"]
        h, p, s = v.split(".")
        d = dict(b64j(p))
        if op.get("q"):
            d["authn_class_ref"] = ACR2 if d.get("authn_class_ref") != ACR2 else ACR
        ec = pick(self.ec, op.get("fc", 0))
        if kind == 1 and ec is not None:
            d["iss"] = ec.cid
            return self.client_signed(d, ec)
        if kind == 2 and ec is not None:
            return self.client_signed(d, ec)
        p = base64.urlsafe_b64encode(json.dumps(d, sort_keys=True).encode()).rstrip(b"=").decode()
        if kind == 3:
            h = base64.urlsafe_b64encode(b'{"alg":"none"}').rstrip(b"=").decode()
            return ".".join([h, p, ""])
        if kind == 4:
            d["query"] += "&prompt=x"
            p = base64.urlsafe_b64encode(json.dumps(d).encode()).rstrip(b"=").decode()
            return ".".join([h, p, s])
        e = pick(self.toks[IDT], op.get("fc", 0))
        return e["value"] if e else "garbage"

    def forge_jwt(self, value, kind, ec):
        """A signed token that someone else than the provider made from one of its own."""
        self.count("fault_forged_token")
        h, p, sig = value.split(".")
        d = jwt_payload(value)
        if kind % 4 == 1:
            h = base64.urlsafe_b64encode(b'{"alg":"none"}').rstrip(b"=").decode()
            return ".".join([h, p, ""])
        if kind % 4 == 2:
            d["exp"] = d.get("exp", 0) + 1000
            p = base64.urlsafe_b64encode(json.dumps(d).encode()).rstrip(b"=").decode()
            return ".".join([h, p, sig])
        if kind % 4 == 0 and ec is not None:
            d["iss"] = ec.cid
        if ec is None:
            return ".".join([h, p, sig[::-1]])
        return self.client_signed(d, ec)

    @staticmethod
    def client_signed(d, ec):
        if ec.jwk is not None:
            return sign(d, client_key(ec.jwk))
        return sign(d, SYMKey(key=ec.secret or "x" * 32), "HS256")

    def submit(self, page, u, good, op):
        flow = page["flow"]
        if op.get("forge"):
            self.count("fault_forged_login_page")
            uid = USER_IDS[u % len(USER_IDS)]
            token = self.forged_page(page, op)
            for node in (self.node, self.twin):
                if node:
                    ENTROPY.reseed(self.seed, self.opid, "forged")
                    with self.process(node):
                        res = glue_login(node, token, uid, USERS[uid]["password"] + (
                            "-strong" if page["action"] == "verify/strong" else ""),
                            page["action"])
            self.note("login with a forged page -> %s" % res.short())
            self.hit("P16")
            ap = self.authz_parse(res)
            if ap is not None and "error" not in ap[2]:
                self.viol({"P14", "P16"}, "authorization on a login page the provider never "
                                          "made (kind %d)" % op["forge"])
            return
        uid = USER_IDS[u % len(USER_IDS)]
        pw = USERS[uid]["password"] + ("-strong" if page["action"] == "verify/strong" else "") \
            if good else near_password(uid, page["action"], op.get("bad", 1))
        page["done"] += 1
        ENTROPY.reseed(self.seed, self.opid, "login", page["done"])
        res = glue_login(self.node, page["token"], uid, pw, page["action"])
        if self.twin:
            ENTROPY.reseed(self.seed, self.opid, "login", page["done"])
            with self.process(self.twin):
                t = glue_login(self.twin, page["token"], uid, pw, page["action"])
            self.compare("login", res, t)
        self.note("login %s -> %s" % ("ok" if good else "bad", res.short()))
        ap = self.authz_parse(res)
        if not good:
            if ap is not None and "error" not in ap[2]:
                self.viol({"P14", "P15"}, "authorization after a wrong password")
            return
        if self.cinfo(flow["cid"]) is None:
            flow["R"] = flow["R"] | {"P17"}
        if ap is None:
            if not flow["R"] and not flow["maybe"] and not self.mode_error_ok(flow["req"]):
                self.viol({"P23"}, "login did not lead to an authorization: %s %r" % (
                    res.body if isinstance(res.body, dict) else "", res.exc))
            return
        self.check_response(flow, res, ap)
        if "error" in ap[2]:
            if not flow["R"] and not flow["maybe"] and not self.mode_error_ok(flow["req"]):
                self.viol({"P23"}, "login ended with %s %s" % (
                    ap[2]["error"], ap[2].get("error_description")))
            return
        flow = dict(flow, action=page["action"])
        if flow.get("par") and page["done"] > 1:
            p = self.model.par.get(flow["par"]["urn"])
            if p and p["taken"]:
                # the same login page submitted twice: one request, one more login
                flow["par"] = None
                flow["parent"] = None
        self.authorized(flow, res, ap[2], silent=None, user=uid)

    def op_login(self, op):
        p = pick(self.pages, op.get("n", -1))
        if p is None:
            return self.note("skip")
        self.submit(p, op.get("u", 0), not op.get("bad"), op)

    # --------------------------------------------------------------------- PAR
    def par_flow(self, op, ec, req, R, x):
        args, headers, judge_auth, authcid = self.authenticate(op, ec, "pushed_authorization",
                                                               op.get("auth"))
        if "redirect_uri" not in req:
            x = dict(x, maybe=True)
        body = dict(self.wire(req))
        body.update(args)
        body["client_id"] = ec.cid
        pol = self.policy_reasons(req, ec)

        def finish(res, j, phase):
            urn = None
            if res.status == "ok" and isinstance(res.body, dict):
                urn = res.body.get("request_uri")
            self.note("par -> %s" % (res.short()))
            if urn is None:
                if not j.tags and not j.maybe and not R and not pol and not x.get("maybe"):
                    tags = {"P19", "P23"}
                    if res.exc is not None and type(res.exc).__name__ in (
                            "UnAuthorizedClient", "UnknownClient", "InvalidClient"):
                        tags.add("P17")
                    self.viol(tags, "correct pushed authorization request refused: %s %r" % (
                        res.body, res.exc))
                return
            if j.tags:
                self.viol(j.tags, "pushed authorization request accepted without valid "
                                  "credentials")
            ttl = res.body.get("expires_in")
            if ttl != self.cfg["par_ttl"]:
                self.viol({"P19"}, "pushed request lifetime announced as %r" % ttl)
            if urn in self.model.par:
                self.viol({"P19"}, "request URI handed out twice")
            self.model.par[urn] = {"cid": authcid, "exp": self.now() + self.cfg["par_ttl"],
                                   "taken": False, "touched": False}
            if not op.get("drop"):
                self.pars.append({"urn": urn, "cid": authcid, "req": req, "R": set(R),
                                  "x": dict(x)})
                if not op.get("keep"):
                    self.use_par(dict(op, hold=0, hf=0), self.pars[-1])

        self.launch(dict(op, hf=0), "pushed_authorization", body, judge_auth, finish,
                    headers=headers, url=world.BASE + "/par", method="POST")

    def use_par(self, op, p):
        ec = next((c for c in self.ec if c.cid == p["cid"]), None)
        if op.get("oc"):
            ec = pick([c for c in self.ec if c.cid != p["cid"]], op["oc"]) or ec
        if ec is None:
            return
        outer = self.wire(p["req"])
        outer.pop("redirect_uri", None)
        outer["redirect_uri"] = p["req"].get("redirect_uri") or pick(ec.uris(), 0)
        outer["client_id"] = ec.cid
        outer["request_uri"] = p["urn"]
        if op.get("om"):
            outer["state"] = "outer-%s" % self.opid
            outer["scope"] = "openid" if self.cfg["flavour"] == "oidc" else "profile"
            if "nonce" in outer or p["x"].get("defect"):
                outer["nonce"] = "outer-nonce"
            outer["redirect_uri"] = pick(ec.uris(), 0)
            for k in ("prompt", "max_age", "claims", "response_mode", "code_challenge",
                      "code_challenge_method", "id_token_hint"):
                outer.pop(k, None)
        elif "offline_access" in p["req"]["scope"] and self.cfg["flavour"] == "oidc":
            pass
        self.authz_flow(op, ec, p["req"], p["R"], p["x"], 3, outer=outer, par=p)

    def op_par_use(self, op):
        p = pick(self.pars, op.get("n", -1))
        if p is None:
            return self.note("skip")
        self.use_par(op, p)

    # ------------------------------------------------------------------ logout
    def op_logout(self, op):
        if self.cfg["flavour"] != "oidc":
            return
        bi = op.get("b", 0) % N_BROWSERS
        b = self.browsers[bi]
        cookies, forged = self.cookies_for(op)
        truth = None
        nsess = 0
        for c in cookies:
            if c.get("name") == "oidc_op":
                nsess += 1
                if truth is None:
                    truth = self.cookies.get(c["value"])
        args = {}
        R = set()
        maybe = False
        if forged:
            R.add("P15")
        elif truth is None:
            R.add("P15")
        g = None
        if truth:
            g = self.model.grants.get((truth["uid"], truth["cid"], truth["gid"]))
            if g is None or g.removed:
                R.add("P20")
        if nsess > 1:
            maybe = True
        uri = None
        hint = None
        hv = op.get("h", 0)
        if hv and truth:
            pool = self.toks[IDT]
            if hv == 1:
                pool = [e for e in pool if e["cid"] == truth["cid"] and e["uid"] == truth["uid"]]
            hint = pick([e for e in pool if hv < 3 or e["value"].count(".") == 2],
                        op.get("tok", -1))
            if hint is not None:
                args["id_token_hint"] = hint["value"]
                if hint["exp"] <= self.now() or not 0 <= self.now() - hint["iat"] < 14400 or \
                        (self.alg_for(hint["cid"], "id_token") or "RS").startswith("HS"):
                    maybe = True
                if hint["cid"] != truth["cid"]:
                    R.add("P20")
                elif g is not None and hint["uid"] != truth["uid"]:
                    R.add("P20")
                elif (self.cinfo(hint["cid"]) or {}).get("subject_type") == "ephemeral":
                    maybe = True
                if hv > 2:
                    owner = next((c for c in self.ec if c.cid == hint["cid"]), None)
                    args["id_token_hint"] = self.forge_jwt(hint["value"], hv - 2, owner)
                    R.add("P20")
                if self.cinfo(hint["cid"]) is None:
                    maybe = True
        pv = op.get("pl", 0)
        info = self.cinfo(truth["cid"]) if truth else None
        if pv and info is not None:
            regs = [r if isinstance(r, str) else
                    r[0] + ("?" + urlencode(r[1], doseq=True) if r[1] else "")
                    for r in info.get("post_logout_redirect_uris", [])]
            uri = pick(regs, op.get("pi", 0))
            if pv == 2 or uri is None:
                uri = "https://evil.example.com/bye"
                R.add("P20")
            elif pv == 3:
                uri = uri + "/x"
                R.add("P20")
            elif pv == 4:
                uri = uri + ("&a=b" if "?" in uri else "?a=b")
                R.add("P20")
            elif pv == 5:
                uri = uri.replace("https://", "https://x@") if op.get("pi") else uri.upper()
                R.add("P20")
            elif pv == 6 and "?" in uri:
                uri = uri.split("?")[0]
                if uri not in regs:
                    R.add("P20")
            args["post_logout_redirect_uri"] = uri
            if hint is None:
                R.add("P20")
            if op.get("st"):
                args["state"] = "lo%s" % self.opid + ("", "&x=1 2", "#/?")[op["st"] - 1]

        def finish(res, j, phase):
            self.note("logout -> %s" % res.short())
            if res.status == "ok" and res.kind == "logout":
                if R:
                    self.viol(R, "logout request accepted that had to be refused")
                    return
                q = parse_qs(urlparse(res.url).query)
                if not res.url.startswith(world.BASE + "/verify_logout?") or "sjwt" not in q:
                    self.viol({"P20"}, "logout goes to %s" % res.url[:100])
                    return
                if truth is None:
                    return
                self.logouts.append({"sjwt": q["sjwt"][0], "truth": truth, "b": bi,
                                     "uri": uri, "state": args.get("state"), "done": 0,
                                     "t": self.now(), "multi": nsess > 1})
                if not op.get("keep"):
                    self.confirm(dict(op), self.logouts[-1])
            elif not R and not maybe:
                self.viol({"P20", "P23"}, "correct logout request refused: %s %r" % (
                    res.body, res.exc))

        self.launch(dict(op, hf=0), "session", args, lambda ph: J(), finish, cookies=cookies,
                    url=world.BASE + "/session", method="GET")

    def op_confirm(self, op):
        if self.cfg["flavour"] != "oidc":
            return
        lo = pick(self.logouts, op.get("n", -1))
        if lo is None:
            return self.note("skip")
        if op.get("fg"):
            return self.forged_confirm(op, lo)
        self.confirm(op, lo)

    def forged_confirm(self, op, lo):
        owner = next((c for c in self.ec if c.cid == lo["truth"]["cid"]), None)
        token = self.forge_jwt(lo["sjwt"], op["fg"], owner)
        self.http.calls.clear()
        self.http.fault_plan = []
        before = [(g.key(), self.node.mngr.get_grant(g.sid).revoked)
                  for g in self.model.grants.values() if not g.removed]
        res = verified_logout(self.node, token, bool(op.get("alla")))
        self.note("forged confirm -> %s" % res.short())
        after = [(g.key(), self.node.mngr.get_grant(g.sid).revoked)
                 for g in self.model.grants.values() if not g.removed]
        if res.status == "ok" or before != after or [c for c in self.http.calls
                                                     if c[0] == "post"]:
            self.viol({"P20"}, "a logout confirmation the provider did not make was honoured")

    def confirm(self, op, lo):
        alla = bool(op.get("alla"))
        truth = lo["truth"]
        n = self.now()
        key = (truth["uid"], truth["cid"], truth["gid"])
        g = self.model.grants.get(key)
        plan = self.plan(op)
        unpack = self.node.mngr.unpack_session_key
        unknown = [tuple(unpack(k)) for k in self.node.mngr.db.keys() if len(unpack(k)) == 3]
        self.http.fault_plan = list(plan)
        self.http.calls.clear()
        lo["done"] += 1
        ENTROPY.reseed(self.seed, self.opid, "confirm", lo["done"])
        res = verified_logout(self.node, lo["sjwt"], alla)
        calls = [c for c in self.http.calls if c[0] == "post"]
        self.http.fault_plan = []
        if self.twin:
            self.twin_http.fault_plan = list(plan)
            self.twin_http.calls.clear()
            ENTROPY.reseed(self.seed, self.opid, "confirm", lo["done"])
            with self.process(self.twin):
                t = verified_logout(self.twin, lo["sjwt"], alla)
            self.compare("logout confirmation", res, t)
            if [stable(repr(c[:3])) for c in self.twin_http.calls if c[0] == "post"] != \
                    [stable(repr(c[:3])) for c in calls]:
                self.viol({"P21"}, "back-channel notifications differ after a restart")
        self.note("confirm alla=%s -> %s posts=%d" % (alla, res.short(), len(calls)))
        if lo.get("multi"):
            return self._resync_logout(res, truth)
        stale = n > lo["t"] + 86400 or n < lo["t"]
        if g is None or g.removed:
            if res.status == "ok" and g is None:
                self.viol({"P08", "P20"}, "logout confirmed for a forgotten session")
            return
        if res.status != "ok":
            if stale:
                return
            self.viol({"P20", "P23"}, "confirmed logout failed: %r" % (res.exc,))
            return
        uid, cid = truth["uid"], truth["cid"]
        if res.url != self.post_logout_url(lo):
            self.viol({"P20"}, "after logout the user is sent to %s" % res.url)
        clients = [cid]
        if alla:
            clients = sorted({x.cid for x in self.model.grants.values()
                              if x.uid == uid and not x.removed})
        # notifications
        posts = {}
        for m, url, body, f in calls:
            posts.setdefault(url, []).append((body, f))
        frames = list((res.body or {}).get("iframes") or [])
        expect_urls = set()
        for c in clients:
            info = self.cinfo(c) or {}
            gs = self.model.client_grants(uid, c)
            alive = [x for x in gs if not x.revoked and not x.maybe]
            if alla and c != cid:
                must = any(x.idt for x in alive) and len(alive) == len(gs)
                forbid = False
            else:
                must = not (g.revoked if c == cid else False) and (not alla or any(
                    x.idt for x in alive))
            if c == cid and alla and not any(x.idt for x in alive):
                must = False
            bu, fu = info.get("backchannel_logout_uri"), info.get("frontchannel_logout_uri")
            if bu:
                expect_urls.add(bu)
                got = posts.get(bu, [])
                if len(got) > 1 or (must and not got):
                    self.viol({"P20"}, "%s notified %d times by back channel" % (c, len(got)))
                for body, f in got:
                    self.check_logout_token(body, uid, c)
            elif fu:
                mine = [f for f in frames if fu.split("?")[0] in html.unescape(f)]
                expect_urls.add(fu)
                if len(mine) > 1 or (must and not mine):
                    self.viol({"P20"}, "%s notified by %d frames" % (c, len(mine)))
                for f in mine:
                    self.check_frame(f, info, uid, c)
        if alla:
            # grants left by requests that failed after the login: may be told, need not
            known = {(x.uid, x.cid, x.gid) for x in self.model.grants.values()}
            for k in unknown:
                if k[0] == uid and k not in known:
                    info = self.cinfo(k[1]) or {}
                    expect_urls |= {info[z] for z in ("backchannel_logout_uri",
                                                      "frontchannel_logout_uri") if z in info}
        for u in posts:
            if u not in expect_urls:
                self.viol({"P20"}, "logout notification sent to %s" % u)
        for f in frames:
            if not any(u.split("?")[0] in html.unescape(f) for u in expect_urls):
                self.viol({"P20"}, "logout frame for an unaffected party: %s" % f[:100])
        for c in clients:
            for x in self.model.client_grants(uid, c):
                x.revoked.add("P20")
        self.revocations += 1
        if not op.get("keepck"):
            jar = self.browsers[lo["b"]]["jar"]
            for c in res.cookies:
                if "expires" in c or not c.get("value"):
                    jar.pop(c["name"], None)

    def _resync_logout(self, res, truth):
        for g in self.model.grants.values():
            if g.uid == truth["uid"] or True:
                g.maybe = True

    def post_logout_url(self, lo):
        if lo["uri"] is None:
            return world.BASE + "/post_logout"
        if lo["state"]:
            return "%s%s%s" % (lo["uri"], "&" if "?" in lo["uri"] else "?",
                               urlencode({"state": lo["state"]}))
        return lo["uri"]

    def check_logout_token(self, body, uid, cid):
        try:
            tok = dict(parse_qsl(body))["logout_token"]
        except Exception as err:
            self.viol({"P20"}, "logout token unusable: %r" % err)
            return
        p = self.open_signed(tok, cid, "id_token", {"P20", "P28"})
        if p is None:
            return
        aud = p.get("aud")
        aud = [aud] if isinstance(aud, str) else aud
        bad = []
        if p.get("iss") != world.ISSUER or aud != [cid]:
            bad.append("iss %r aud %r" % (p.get("iss"), aud))
        if "http://schemas.openid.net/event/backchannel-logout" not in (p.get("events") or {}):
            bad.append("events")
        if not p.get("jti") or p.get("iat") != self.now() or "nonce" in p:
            bad.append("jti/iat/nonce")
        try:
            path = self.node.mngr.decrypt_session_id(p["sid"])
            if path[0] != uid or path[1] != cid:
                bad.append("sid of %r" % (path[:2],))
        except Exception as err:
            bad.append("sid %r" % err)
        if bad:
            self.viol({"P20"}, "logout token wrong: " + "; ".join(bad))

    def check_frame(self, f, info, uid, cid):
        try:
            parts = f.split('"')
            if parts[0] != "<iframe src=" or len(parts) != 3 or parts[2] not in (
                    ">", "></iframe>", "/>"):
                self.viol({"P20"}, "logout frame for %s is %r" % (cid, f[:200]))
            src = html.unescape(parts[1])
            base, _, query = src.partition("?")
            q = parse_qs(query)
            fbase, _, fq = info["frontchannel_logout_uri"].partition("?")
            fq = parse_qs(fq)
            if base != fbase or {k: v for k, v in q.items() if k not in ("iss", "sid")} != fq:
                self.viol({"P20"}, "logout frame of %s loads %r, registered %r" % (
                    cid, src, info["frontchannel_logout_uri"]))
            if not info.get("frontchannel_logout_session_required"):
                return
            path = self.node.mngr.decrypt_session_id(q["sid"][0])
            if q["iss"] != [world.ISSUER] or path[0] != uid or path[1] != cid:
                self.viol({"P20"}, "logout frame names %r" % (path[:2],))
        except Stop:
            raise
        except Exception as err:
            self.viol({"P20"}, "logout frame unusable: %r" % err)

    # ------------------------------------------------------------ registration
    def reg_state(self):
        ctx = self.node.ctx

        def ser(k):
            try:
                return str(k.serialize())
            except Exception:
                self.viol({"P18", "P21"}, "a key that can not be exported is kept")
                return "unusable"
        kj = {o: sorted(ser(k) for kb in ctx.keyjar[o] for k in
                        (kb.keys() if not kb.remote else [])) for o in ctx.keyjar.owners()}
        return (json.dumps(ctx.cdb, sort_keys=True, default=str),
                json.dumps(ctx.registration_access_token, sort_keys=True), kj)

    def op_register(self, op):
        if self.cfg["flavour"] != "oidc":
            return
        i = self.opid
        v = op.get("v", 0)
        host = "https://dyn%s.example.net" % i
        body = {"redirect_uris": [host + "/cb"], "response_types": ["code"],
                "client_name": "dyn"}
        R = False
        maybe = False
        jwk = None
        jwks_uri = None
        if op.get("two"):
            body["redirect_uris"].append(host + "/cb2?x=1")
        if op.get("rt"):
            body["response_types"] = pick([["code"], ["code", "code id_token"],
                                           ["id_token token", "code"], ["token"],
                                           ["id_token code", "token id_token"]], op["rt"])
        sub = op.get("sub", 0)
        if sub == 1:
            body["subject_type"] = "pairwise"
        k = op.get("jk", 0)
        if k == 1:
            jwk = i % len(CLIENT_JWKS)
            body["jwks"] = world.client_pub(jwk)
        elif k == 2:
            jwk = i % len(CLIENT_JWKS)
            jwks_uri = host + "/jwks.json"
            self.http.docs[jwks_uri] = json.dumps(world.client_pub(jwk))
            body["jwks_uri"] = jwks_uri
        hf = op.get("hf", 0)
        first = self.FAULTS[hf % 10] if hf else None
        if v == 1:
            body["sector_identifier_uri"] = host + "/sector.json"
            body["subject_type"] = "pairwise"
            self.http.docs[host + "/sector.json"] = json.dumps(body["redirect_uris"])
            if first in ("refused", "timeout", "500", "503", "404", "501", "garbage", "empty",
                         "truncated"):
                R = True
        elif v == 2:
            body["sector_identifier_uri"] = host + "/sector.json"
            sd, uu = op.get("sd", 0) % 14, body["redirect_uris"]
            doc = [["https://other.example/cb"], [u + "2" for u in uu], [u[:-1] for u in uu],
                   [host, host + "/"], uu[1:], [], [u.upper() for u in uu],
                   " ".join(uu), dict.fromkeys(uu, 1), None, 17, [uu],
                   uu[:-1], uu[:1] if len(uu) > 1 else [u + "/" for u in uu]][sd]
            self.http.docs[host + "/sector.json"] = json.dumps(doc)
            R = True
        elif v == 3:
            body["redirect_uris"] = ["http://plain.example.com/cb"]
            body["response_types"] = ["code", "id_token token"]
            R = True
        elif v == 4:
            body["redirect_uris"] = [host + "/cb#frag"]
            if i % 3:
                body.update(application_type="native", redirect_uris=[pick(
                    ["com.example.app%s:/cb#frag" % i, "http://localhost:80%s/cb#/" % (i % 90),
                     "http://127.0.0.1/cb?x=1#f"], i // 3)])
            R = True
        elif v == 5:
            body["id_token_signed_response_alg"] = "XX999"
            R = True
        elif v == 6:
            body["policy_uri"] = "https://elsewhere.example.org/policy"
            R = True
        elif v == 7:
            body["policy_uri"] = host + "/policy"
        elif v == 8:
            body["request_uris"] = [host + "/ro?x=1"]
            R = True
        elif v == 9:
            body["request_uris"] = [host + "/ro.jwt"]
        elif v == 10:
            body["post_logout_redirect_uri"] = host + "/bye#x"
            R = True
        elif v == 11:
            body.pop("redirect_uris")
            R = True
        elif v == 12:
            body["response_types"] = ["code nonsense"]
            R = True
        elif v == 13:
            body["redirect_uris"] = ["myapp://cb"]
            R = True
        elif v == 14:
            body["client_id"] = self.ec[0].cid   # an attempt to name an existing client
        elif v == 15:
            body["client_secret"] = "chosen-by-client"
            body["client_secret_expires_at"] = 1
        elif v == 16:
            body["registration_access_token"] = "chosen"
            body["client_salt"] = "s"
            body["allowed_scopes"] = ["openid"]
            body["auth_method"] = {"Token": {"1": "none"}}
        elif v == 17:
            body["initiate_login_uri"] = "http://insecure.example.com/"
            R = True
        elif v == 18:
            body["id_token_signed_response_alg"] = pick(["ES256", "RS512", "HS256", "PS256"], i)
        elif v == 19:
            body["userinfo_signed_response_alg"] = pick(["ES256", "RS256", "HS256"], i)
        elif v == 20 and k != 2:
            jwk = i % len(CLIENT_JWKS)
            body["jwks"] = world.client_pub(jwk)
            body["userinfo_encrypted_response_alg"] = "RSA-OAEP"
            body["userinfo_encrypted_response_enc"] = "A128CBC-HS256"
            if op.get("two"):
                body["userinfo_signed_response_alg"] = "RS256"
        elif v == 21:       # the provider has no such key: dropped, the default applies
            body["id_token_signed_response_alg"] = "ES384"
        elif v == 22:
            body.update(application_type="native", redirect_uris=["com.example.app%s:/cb" % i])
        elif v == 23:
            body.update(application_type="native", redirect_uris=["http://localhost:8%s/cb" %
                                                                  (i % 100)])
        elif v == 24:
            body.update(application_type="native", redirect_uris=["http://dyn%s.example.net/cb" %
                                                                  i])
            R = True
        elif v == 25:
            body["post_logout_redirect_uri"] = host + pick(["/bye", "/bye2?x=1"], i)
        elif v == 26:
            body["subject_type"] = "no-such-type"
            R = True
        elif v == 27:
            body["initiate_login_uri"] = host + "/start"
        elif v == 28:
            body[pick(["tos_uri", "logo_uri"], i)] = pick(
                [host + "/x", "https://elsewhere.example.org/x"], i // 2)
            R = bool(i // 2 % 2)
            if op.get("sd", 0) % 3 == 1:
                # on the host of any of the redirect URIs
                body["redirect_uris"].append("https://elsewhere.example.org/cb")
                R = False
        elif v == 29:
            body["token_endpoint_auth_method"] = "nonsense"
            R = True
        elif v == 30:
            body["backchannel_logout_uri"] = host + "/bc" + ("?p=1" if i % 3 == 0 else "")
            body["post_logout_redirect_uri"] = host + "/bye"
        elif v == 31:
            body["frontchannel_logout_uri"] = host + "/fc" + ("?p=1&q=a%20b" if i % 2 else "")
            if i % 3:
                body["frontchannel_logout_session_required"] = True
        elif v == 32:       # either refused, or harmless in the logout page
            body["frontchannel_logout_uri"] = host + '/fc"><script src="https://evil.example/x.js'
            if i % 3:
                body["frontchannel_logout_session_required"] = True
            maybe = True
        elif v == 33:       # keys that are none: fails half-way through
            good = world.client_pub(i % len(CLIENT_JWKS))["keys"]
            body.pop("jwks_uri", None)
            jwk = jwks_uri = None
            body["jwks"] = {"keys": pick([good + [{"kty": "RSA", "use": "sig", "kid": "x"}],
                                          good + [5], "x", [{"kty": "RSA"}],
                                          [{"kty": "zzz"}], []], op.get("sd", 0))}
            maybe = True
        elif v == 34:
            body["redirect_uris"] = [
                host + "/cb?next=https%3A%2F%2Fa.example%2Fb%3Fc%3Dd%26e%3Df%23g&x=1&x=2&y=",
                host + "/cb?x=%2B+", host + "/cb", host + ":8443/a%20b;c=d/e"]
            body.update({"client_name#sv": "Namn \u00f6 & <b>", "software_id": "x",
                         "contacts": ["a@example.com", "b@example.com"]})
        elif v == 35:       # names that only look like what is allowed
            h = host[8:]
            odd = pick([
                {"application_type": "native", "redirect_uris": [u]} for u in (
                    "http://localhost.evil.example/cb", "http://127.0.0.1.evil.example/cb",
                    "http://localhos/cb", "http://localhost@evil.example/cb",
                    "http://127.0.0.2/cb")] + [
                {"response_types": [t]} for t in ("codex", "cod", "code id", "id_tokentoken")] + [
                {"policy_uri": u} for u in (
                    host + ".evil.example/p", "https://x." + h + "/p", host + ":444/p",
                    "https://%s@evil.example/p" % h, host[:-1] + "/p", "http://" + h + "/p")] + [
                {"subject_type": t} for t in ("pair", "Public", "pairwisex")] + [
                {"id_token_signed_response_alg": t} for t in ("RS25", "rs256", "RS256x")],
                op.get("sd", 0) + i)
            body.update(odd)
            R = True
        elif v == 36:
            body["grant_types"] = pick(
                [["authorization_code"], ["authorization_code", "implicit"],
                 ["authorization_code", "refresh_token"], ["nonsense"],
                 ["authorization_code", "password"], ["refresh"]], op.get("sd", 0))
            R = op.get("sd", 0) % 6 > 2
        elif v == 37:
            body["default_acr_values"] = pick(
                [[world.ACR], ["urn:nobody:supports"], [world.ACR, "x"], [world.ACR[:-1]]],
                op.get("sd", 0))
            R = op.get("sd", 0) % 4 > 0
        elif v == 38:
            x = pick([("request_object_signing_alg", "RS256"), ("request_object_signing_alg", "X"),
                      ("token_endpoint_auth_signing_alg", "XS256"),
                      ("userinfo_signed_response_alg", "none256"),
                      ("id_token_encrypted_response_alg", "RSA-OAEP-9"),
                      ("userinfo_encrypted_response_enc", "A128"),
                      ("token_endpoint_auth_method", "client_secret_basic")], op.get("sd", 0))
            body[x[0]] = x[1]
            R = op.get("sd", 0) % 7 not in (0, 6)
        beyond = [kx for kx in body if self.announced(kx) and not set(
            body[kx] if isinstance(body[kx], list) else [body[kx]]) <= set(self.announced(kx))]
        if beyond:
            maybe = True        # refused, or registered without it
        before = self.reg_state()

        def finish(res, j, phase):
            self.note("register v=%s -> %s" % (v, res.short()))
            ok = res.status == "ok" and isinstance(res.body, dict) and "client_id" in res.body
            if not ok:
                if not op.get("hold") and self.reg_state() != before:
                    a, c = before, self.reg_state()
                    self.viol({"P18"}, "failed registration left something behind: %s" % (
                        sorted(set(json.loads(c[0])) - set(json.loads(a[0])))
                        or "keys or registration token"))
                elif op.get("hold") and set(self.node.ctx.cdb) - set(self.model.clients):
                    self.viol({"P18"}, "failed registration left a client behind")
                # resynchronise
                if not R and not maybe:
                    self.viol({"P18", "P23"}, "correct registration refused: %s %r" % (
                        res.body, res.exc))
                return
            b = res.body
            if R:
                self.viol({"P18", "P26"} if v in (12, 26, 29, 36, 37, 38) or (
                    v == 35 and not {"application_type", "policy_uri"} & set(odd)) else {"P18"},
                    "faulty registration (variant %d) accepted" % v)
                return
            cid = b["client_id"]
            if cid in self.model.clients:
                self.viol({"P18"}, "client identifier %s handed out twice" % cid)
                return
            secs = {c.secret for c in self.ec}
            if not b.get("client_secret") or b["client_secret"] in secs:
                self.viol({"P18"}, "client secret missing or not unique")
            if b["client_secret"] == "chosen-by-client" or \
                    b.get("registration_access_token") == "chosen":
                self.viol({"P18"}, "the client chose its own credentials")
            for kx in ("redirect_uris", "response_types", "subject_type", "jwks_uri",
                       "policy_uri", "sector_identifier_uri", "initiate_login_uri", "tos_uri",
                       "logo_uri", "post_logout_redirect_uris", "application_type",
                       "userinfo_signed_response_alg", "userinfo_encrypted_response_alg",
                       "userinfo_encrypted_response_enc", "id_token_signed_response_alg",
                       "backchannel_logout_uri", "frontchannel_logout_uri", "grant_types",
                       "default_acr_values", "request_object_signing_alg",
                       "token_endpoint_auth_method"):
                if v == 21 and kx == "id_token_signed_response_alg" and kx not in b:
                    continue
                if kx in beyond:
                    continue
                if kx in body and sorted(b.get(kx) or []) != sorted(body[kx]):
                    self.viol({"P18"}, "registered %s is %r, requested %r" % (
                        kx, b.get(kx), body[kx]))
            doc = self.published() if self.target in (None, "P18", "P26") else {}
            for kx, ann in self.ANNOUNCED.items():
                if kx not in b or ann not in doc:
                    continue
                # the order of the words in a response type means nothing
                got = {" ".join(sorted(x.split())) for x in (
                    b[kx] if isinstance(b[kx], list) else [b[kx]])}
                if not got <= {" ".join(sorted(x.split())) for x in doc[ann]}:
                    self.viol({"P18", "P26"}, "registered %s %s is not among those announced" % (
                        kx, sorted(got)))
            want = self.now() + self.cfg["secret_expires_in"]
            if self.cfg["secret_expires_in"] and \
                    b.get("client_secret_expires_at") != want:
                self.viol({"P18", "P17"}, "secret expiry %r, configured %r" % (
                    b.get("client_secret_expires_at"), want))
            if not b.get("registration_access_token") or \
                    b["registration_access_token"] in self.model.rats:
                self.viol({"P18"}, "registration access token missing or not unique")
            # everybody else untouched
            now_cdb = json.loads(self.reg_state()[0])
            old = json.loads(before[0])
            if not op.get("hold"):
                for c in old:
                    if now_cdb.get(c) != old[c]:
                        self.viol({"P18"}, "registration changed client %s" % c)
                if set(now_cdb) - set(old) != {cid}:
                    self.viol({"P18"}, "registration added clients %s" % sorted(
                        set(now_cdb) - set(old)))
            self._adopt(body, b, jwk, jwks_uri, op.get("drop"))

        self.launch(op, "registration", body, lambda ph: J(), finish,
                    url=world.BASE + "/registration", method="POST")

    def _adopt(self, body, b, jwk, jwks_uri, drop=0):
        cid = b["client_id"]
        info = {"client_id": cid, "client_secret": b["client_secret"],
                "redirect_uris": [], "response_types": b.get("response_types") or ["code"]}
        for u in body["redirect_uris"]:
            base, _, q = u.partition("?")
            info["redirect_uris"].append([base, parse_qs(q, keep_blank_values=True)
                                          if q else {}])
        if b.get("client_secret_expires_at"):
            info["client_secret_expires_at"] = b["client_secret_expires_at"]
        for k in ("subject_type", "userinfo_signed_response_alg", "id_token_signed_response_alg",
                  "userinfo_encrypted_response_alg", "userinfo_encrypted_response_enc",
                  "request_object_signing_alg",
                  "backchannel_logout_uri", "frontchannel_logout_uri",
                  "frontchannel_logout_session_required"):
            if k in body and k in b:
                info[k] = body[k]
        if "post_logout_redirect_uris" in body:
            info["post_logout_redirect_uris"] = [u.split("?")[:1] + [""] for u in
                                                 body["post_logout_redirect_uris"]
                                                 if "?" not in u]
        if "sector_identifier_uri" in body:
            info["sector_id"] = body["sector_identifier_uri"]
        if "request_uris" in body:
            info["request_uris"] = [[u, ""] for u in body["request_uris"]]
        self.model.clients[cid] = info
        rat = b.get("registration_access_token")
        if rat:
            self.model.rats[rat] = cid
        ec = EC(cid, b["client_secret"], jwk, copy.deepcopy(info), dyn=True, jwks_uri=jwks_uri)
        ec.rat = rat
        ec.reg = b
        if not drop:
            self.ec.append(ec)
        else:
            self.count("fault_response_lost")

    def op_read(self, op):
        if self.cfg["flavour"] != "oidc":
            return
        dyn = [c for c in self.ec if c.dyn and c.rat]
        ec = pick(dyn, op.get("n", -1))
        if ec is None:
            return self.note("skip")
        v = op.get("v", 0)
        rat, cid = ec.rat, ec.cid
        if v == 1:
            o = pick([c for c in self.ec if c.cid != cid], op.get("c", 0))
            if o:
                cid = o.cid
        elif v == 2:
            rat = rat[:-1] + ("A" if rat[-1] != "A" else "B")
        elif v == 3:
            cid = None
        elif v == 4:
            e = pick(self.toks[AT], -1)
            rat = e["value"] if e else "x"
        elif v == 5:
            rat = None
        args = {"client_id": cid} if cid else {}
        headers = {"authorization": "Bearer " + rat} if rat else {}

        def judge(ph):
            own = self.model.rats.get(rat)
            tags = set()
            if own is None or own != cid:
                tags = {"P17", "P18"}
                if v in (2, 4):
                    tags.add("P08")
            info = self.cinfo(cid) if cid else None
            maybe = False
            if info and info.get("client_secret_expires_at") and \
                    info["client_secret_expires_at"] < self.now():
                maybe = True
            return J(tags, maybe)

        def finish(res, j, ph):
            self.note("read -> %s" % res.short())
            ok = res.status == "ok" and isinstance(res.body, dict) and res.body.get("client_id")
            if ok and j.tags:
                self.viol(j.tags, "registration of %s read with a token of another or none" %
                          cid)
            elif ok:
                for k in ("client_id", "redirect_uris", "response_types", "subject_type",
                          "client_secret"):
                    if ec.reg.get(k) != res.body.get(k):
                        self.viol({"P18"}, "registration read returns %s %r, registered %r" % (
                            k, res.body.get(k), ec.reg.get(k)))
            elif not j.tags and not j.maybe:
                self.viol({"P18", "P23", "P17"}, "registration read refused: %s %r" % (
                    res.body, res.exc))

        self.launch(op, "registration_read", args, judge, finish, headers=headers,
                    url=world.BASE + "/registration_api", method="GET")

    # ------------------------------------------------------------------- junk
    def op_junk(self, op):
        """Malformed requests; nothing may come of them but a refusal."""
        n = op.get("n", 0)
        ep = pick(["token", "authorization", "introspection", "userinfo",
                   "pushed_authorization", "session", "registration"], n)
        if self.cfg["flavour"] != "oidc" and ep in ("userinfo", "session", "registration"):
            ep = "token"
        ec = pick(self.ec, op.get("c", 0))
        kinds = [
            {}, {"grant_type": "authorization_code"}, {"grant_type": "nonsense", "code": "x"},
            {"client_id": "nobody", "response_type": "code", "scope": "openid"},
            {"client_id": ec.cid, "response_type": "", "scope": "", "redirect_uri": "x"},
            {"client_id": ec.cid, "request": "a.b.c", "response_type": "code",
             "scope": "openid", "redirect_uri": pick(ec.uris(), 0)},
            {"client_id": ec.cid, "request_uri": "urn:uuid:unknown", "response_type": "code",
             "scope": "openid", "redirect_uri": pick(ec.uris(), 0)},
            {"token": ""}, {"access_token": "\u00f6"}, {"redirect_uris": "notalist"},
            {"id_token_hint": "x.y.z"}, {"grant_type": "refresh_token", "refresh_token": ""},
            {"client_id": ec.cid, "response_type": "code", "scope": "openid",
             "redirect_uri": pick(ec.uris(), 0), "claims": "{not json"},
            {"client_id": ec.cid, "response_type": "code", "scope": "openid",
             "redirect_uri": pick(ec.uris(), 0), "max_age": "abc", "prompt": "none login"},
        ]
        args = dict(pick(kinds, op.get("v", 0)))
        headers = {}
        if op.get("auth"):
            a2, headers, ja, _ = self.authenticate(op, ec, "token" if ep not in PATHS else ep, 0)
            args.update(a2)
        hv = op.get("h", 0)
        if hv == 1:
            headers["authorization"] = "Basic !!!"
        elif hv == 2:
            headers["authorization"] = "Bearer "
        elif hv == 3:
            headers["authorization"] = "Basic " + base64.b64encode(b"a:b:c").decode()
        before = set(self.node.ctx.cdb)

        def finish(res, j, ph):
            self.note("junk %s -> %s" % (ep, res.short()))
            if res.status == "ok" and isinstance(res.body, dict) and (
                    "access_token" in res.body or res.body.get("active")):
                self.viol({"P08", "P17"}, "malformed request to %s was served" % ep)
            ap = self.authz_parse(res)
            if ap and ("code" in ap[2] or "access_token" in ap[2]):
                self.viol({"P14"}, "malformed authorization request was granted")
            if ep == "registration" and res.status != "ok" and \
                    set(self.node.ctx.cdb) != before and not op.get("hold"):
                self.viol({"P18"}, "failed registration left a client behind")

        self.count("fault_malformed")
        self.launch(op, ep, args, lambda ph: J(), finish, headers=headers,
                    url=world.BASE + PATHS[ep], method="POST")

    # ---------------------------------------------------------------- metadata
    def published(self):
        """What the provider says about itself, as anybody can read it."""
        r = Exchange(self.node, "provider_config", {}).run()
        if r.status != "ok" or not isinstance(r.body, dict):
            self.viol({"P26"}, "no provider configuration: %s %r" % (r.short(), r.exc))
            return {}
        for k in ("scopes_supported", "claims_supported"):
            if k in r.body:
                r.body[k] = sorted(r.body[k])
        return r.body

    def check_meta(self):
        """P26: always the same document."""
        if self.target != "P26" or self.cfg["flavour"] != "oidc":
            return
        doc = self.published()
        if self.meta is None:
            self.meta = doc
        elif doc != self.meta:
            self.viol({"P26"}, "the provider configuration changed: %s" % [
                (k, self.meta.get(k), doc.get(k)) for k in sorted(set(doc) | set(self.meta))
                if doc.get(k) != self.meta.get(k)][:3])

    def announce(self, key, value):
        if self.target == "P26" and value not in (self.meta or {}).get(key, [value]):
            self.viol({"P26"}, "%r is used but not announced in %s" % (value, key))

    # what a client registers, and where the choice is announced
    ANNOUNCED = {"response_types": "response_types_supported",
                 "grant_types": "grant_types_supported",
                 "subject_type": "subject_types_supported",
                 "token_endpoint_auth_method": "token_endpoint_auth_methods_supported",
                 "id_token_signed_response_alg": "id_token_signing_alg_values_supported",
                 "userinfo_signed_response_alg": "userinfo_signing_alg_values_supported",
                 "request_object_signing_alg": "request_object_signing_alg_values_supported",
                 "userinfo_encrypted_response_alg":
                     "userinfo_encryption_alg_values_supported",
                 "userinfo_encrypted_response_enc":
                     "userinfo_encryption_enc_values_supported"}

    def announced(self, key):
        n = self.cfg["narrow"]
        if key == "grant_types" and self.cfg["grants"] in (1, 2):
            return ["authorization_code", "implicit"]
        return None if not n else {
            "response_types": world.NARROW_RT[self.cfg["narrow_rt"]],
            "id_token_signed_response_alg": n, "userinfo_signed_response_alg": n}.get(key)

    def op_meta(self, op):
        if self.cfg["flavour"] != "oidc":
            return
        doc = self.published()
        if not doc:
            return
        B, oidc = world.BASE, {"P26"}
        want = {"issuer": world.ISSUER, "jwks_uri": B + "/static/jwks.json",
                "authorization_endpoint": B + "/authorization", "token_endpoint": B + "/token",
                "userinfo_endpoint": B + "/userinfo", "end_session_endpoint": B + "/session",
                "introspection_endpoint": B + "/introspection",
                "registration_endpoint": B + "/registration",
                "pushed_authorization_request_endpoint": B + "/par"}
        bad = [(k, doc.get(k)) for k in want if doc.get(k) != want[k]]
        if bad:
            self.viol(oidc, "the provider configuration is wrong about %r" % bad[:3])
        want = {
            "acr_values_supported": [world.ACR] + ([world.ACR2] if self.cfg["authn2"] else []),
            "subject_types_supported": ["public", "pairwise", "ephemeral"],
            "token_endpoint_auth_methods_supported": [
                "client_secret_basic", "client_secret_post", "client_secret_jwt",
                "private_key_jwt"],
            "grant_types_supported": [g for g in (
                "authorization_code", "implicit", "refresh_token",
                "urn:ietf:params:oauth:grant-type:jwt-bearer")
                if g != "refresh_token" or self.cfg["grants"] not in (1, 2)]}
        if self.cfg["narrow"]:
            want.update(id_token_signing_alg_values_supported=self.cfg["narrow"],
                        userinfo_signing_alg_values_supported=self.cfg["narrow"],
                        response_types_supported=world.NARROW_RT[self.cfg["narrow_rt"]])
        if self.cfg["dpop"]:
            want["dpop_signing_alg_values_supported"] = ["RS256", "ES256"]
        bad = [(k, doc.get(k)) for k in want if sorted(doc.get(k) or []) != sorted(want[k])]
        if bad:
            self.viol(oidc, "the provider configuration does not match what is configured: %r"
                      % bad[:3])
        for k, v in (("claims_parameter_supported", True), ("request_parameter_supported", True),
                     ("request_uri_parameter_supported", True),
                     ("frontchannel_logout_supported", True),
                     ("backchannel_logout_supported", True)):
            if doc.get(k) is not v:
                self.viol(oidc, "%s is announced as %r" % (k, doc.get(k)))
        if doc.get("scopes_supported") and set(doc["scopes_supported"]) != set(
                allowed_scopes(self.cfg, {})):
            self.viol(oidc, "announced scopes %s, allowed are %s" % (
                doc["scopes_supported"], allowed_scopes(self.cfg, {})))
        txt = json.dumps(doc)
        for ec in self.ec:
            if ec.secret and ec.secret in txt:
                self.viol(oidc, "the provider configuration holds the secret of %s" % ec.cid)
        for secret in ("ses_key_simulation", "ses_salt_simulation", "WakaWaka", "simulated-seed"):
            if secret in txt:
                self.viol(oidc, "the provider configuration holds a secret of the provider")
        who = pick(["acct:diana@op.example.org", "https://op.example.org/diana",
                    "acct:No.Body+x%40y@Elsewhere.example", "https://Op.example.org:443/~d?x=Y#z", "acct:\u00f6@op.example.org"],
                   op.get("v", 0))
        r = Exchange(self.node, "discovery", {
            "resource": who, "rel": "http://openid.net/specs/connect/1.0/issuer"}).run()
        self.note("meta -> %s" % r.short())
        links = (r.body or {}).get("links") if isinstance(r.body, dict) else None
        if r.status != "ok" or r.body.get("subject") != who or not links or \
                [x.get("href") for x in links] != [world.ISSUER]:
            self.viol(oidc, "WebFinger for %r answered %r %r" % (who, r.body, r.exc))

    # -------------------------------------------------------------- invariants
    def check_tree(self):
        """P22: the session database is a well formed tree that matches the model."""
        if self.target not in (None, "P22", "P06", "P21"):
            return
        from oidcop.session.grant import Grant
        from oidcop.session.info import ClientSessionInfo
        from oidcop.session.info import UserSessionInfo
        for node in (self.node,):
            db = node.mngr.db
            keys = set(db.keys())
            seen = set()
            bad = []
            pack, unpack = node.mngr.session_key, node.mngr.unpack_session_key
            users = [k for k in keys if len(unpack(k)) == 1]
            for uk in users:
                u = unpack(uk)[0]
                ui = db[uk]
                seen.add(uk)
                if not isinstance(ui, UserSessionInfo):
                    bad.append("entry %r is a %s" % (u[:40], type(ui).__name__))
                    continue
                if u not in USERS:
                    bad.append("unknown user entry %r" % u[:40])
                subs = list(ui.subordinate)
                if len(subs) != len(set(subs)):
                    bad.append("duplicate client under %r" % u)
                for c in subs:
                    ck = pack(u, c)
                    if ck not in keys:
                        bad.append("client session %r listed but missing" % ck[:60])
                        continue
                    seen.add(ck)
                    ci = db[ck]
                    if not isinstance(ci, ClientSessionInfo):
                        bad.append("%r is a %s" % (ck[:60], type(ci).__name__))
                        continue
                    gs = list(ci.subordinate)
                    if len(gs) != len(set(gs)):
                        bad.append("duplicate grant under %r" % ck[:60])
                    for gid in gs:
                        gk = pack(u, c, gid)
                        if gk not in keys:
                            bad.append("grant %r listed but missing" % gk[-40:])
                            continue
                        seen.add(gk)
                        gr = db[gk]
                        if not isinstance(gr, Grant):
                            bad.append("%r is a %s" % (gk[-40:], type(gr).__name__))
                            continue
                        if gr.id != gid:
                            bad.append("grant stored under %s calls itself %s" % (gid, gr.id))
                        ar = gr.authorization_request
                        if ar is not None and ar.get("client_id") not in (None, c):
                            bad.append("grant of %s stored under %s" % (ar.get("client_id"), c))
            for k in sorted(keys - seen):
                bad.append("unreachable entry %r" % k[:60])
            for g in self.model.grants.values():
                gk = pack(*g.key())
                if g.removed and gk in keys:
                    bad.append("removed grant still stored")
                if not g.removed:
                    if gk not in seen:
                        bad.append("grant %s of %s at %s is gone" % (g.gid, g.uid, g.cid))
                    else:
                        try:
                            if node.mngr.get_grant(g.sid).id != g.gid:
                                bad.append("session id leads to another grant")
                        except Exception as err:
                            bad.append("session id does not lead to its grant: %r" % err)
            if bad:
                self.viol({"P22"}, "session tree: " + "; ".join(bad[:4]))

    # ------------------------------------------------------------------- audit
    def audit(self):
        """The run is over: present every token once more and compare with the model."""
        t = self.target
        if t not in (None, "P01", "P02", "P05", "P06", "P07", "P08", "P09", "P10", "P21", "P22",
                     "P28"):
            return
        now = self.now()
        caller = next((i for i, c in enumerate(self.ec) if c.secret and self.cinfo(c.cid) and not
                       0 < self.cinfo(c.cid).get("client_secret_expires_at", 0) <= now + 10), None)
        if caller is None:
            return
        self.audit_n = 0

        def do(name, **kw):
            self.audit_n += 1
            self.opid = 910000 + self.audit_n
            ENTROPY.reseed(self.seed, self.opid, "op")
            getattr(self, "op_" + name)(dict(kw, op=name, id=self.opid))
            while self.parked:
                self.release(self.parked[0])

        def some(kind, n):
            m = len(self.toks[kind])
            return list(range(max(0, m - n), m))

        def probe(n=6):
            for i in some(AT, n):
                do("introspect", tok=i, c=caller)
            for i in some(RT, 4):
                do("introspect", tok=len(self.toks[AT]) + i, k=1, c=caller)
            if t in ("P05", "P06", "P08", "P28"):
                for i in some(AT, 4):
                    do("userinfo", tok=i)

        probe()
        if t in ("P01", "P02", "P22", None):
            for i in some(CODE, 5):
                do("redeem", tok=i)
            probe()
        if t in ("P02", "P05", "P06", "P07", "P09"):
            for i in some(RT, 4):
                do("refresh", tok=i, sc=7 if t == "P07" else 0)
        if t == "P05":
            for n in (0, 2, 5):
                do("clock", m=1, n=n)
                probe(4)
        self.check_tree()

    # ---------------------------------------------------------------- liveness
    def epilogue(self):
        """Faults stop; everything correct must work."""
        self.http.fault_plan = []
        while self.parked:
            self.release(self.parked[0])
        self.audit()
        if self.target not in (None, "P23", "P01", "P17", "P14", "P12", "P13", "P06", "P18"):
            return
        for i, ec in enumerate(list(self.ec)[:6]):
            info = self.cinfo(ec.cid)
            if info is None:
                continue
            self.opid = 900001 + 10 * i
            CLOCK.advance(1)
            eta = info.get("client_secret_expires_at", 0)
            types = ec.rtypes()
            idx = next((k for k, t in enumerate(types) if t == "code"), 0)
            nu = (i + self.n_ops) % 3
            before = len(self.toks[CODE])
            self.op_authz({"op": "authz", "id": self.opid, "c": self.ec.index(ec), "rt": idx,
                           "sc": 1, "b": i % N_BROWSERS, "u": nu, "pk": 1 if self.cfg["pkce"]
                           and "S256" in self.cfg["pkce"]["methods"] else (
                               2 if self.cfg["pkce"] else 0)})
            if len(self.toks[CODE]) == before:
                continue
            if eta and eta <= self.now():
                continue
            self.opid += 1
            nat = len(self.toks[AT])
            self.op_redeem({"op": "redeem", "id": self.opid, "tok": -1})
            if len(self.toks[AT]) > nat:
                self.opid += 1
                self.op_userinfo({"op": "userinfo", "id": self.opid, "tok": -1})
                self.opid += 1
                self.op_introspect({"op": "introspect", "id": self.opid, "tok": -1,
                                    "c": self.ec.index(ec)})
        self.check_tree()


# which oracle functions decide which properties (for counting what a run exercised)
def _counted(name, *props):
    fn = getattr(Sim, name)

    def wrapper(self, *a, **k):
        self.hit(*props)
        return fn(self, *a, **k)
    wrapper.__name__ = name
    setattr(Sim, name, wrapper)


for _n, _p in {
        "check_expiry": ("P05",), "check_at_jwt": ("P07", "P08"), "claims_check": ("P11",),
        "sub_check": ("P12",), "check_idt": ("P13",), "introspect_done": ("P10",),
        "userinfo_done": ("P08",), "_admin": ("P06",), "sso": ("P14",),
        "check_response": ("P16",), "use_par": ("P19",), "confirm": ("P20",),
        "op_register": ("P18",), "op_read": ("P18",), "check_tree": ("P22",), "op_meta": ("P26",),
        "authorized": ("P15", "P23"), "token_done": ("P17", "P23")}.items():
    _counted(_n, *_p)
