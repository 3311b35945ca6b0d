"""The HTTP layer in front of a node: a transcription of example/flask_op/views.py,
split into the phases parse / process / respond so that the scheduler can interleave
exchanges, and without Flask."""
import base64
import copy
import html
from html.parser import HTMLParser
import json
import re

from . import world  # noqa: F401  (installs the seams first)

from oidcmsg.message import Message
from oidcmsg.oauth2 import ResponseMessage
from oidcmsg.oidc import AccessTokenRequest
from oidcmsg.oidc import AuthorizationRequest
from oidcop.oidc.token import Token as OIDCToken


_JWX = re.compile(r"(eyJ[\w-]+)((?:\.[\w-]*){2,4})")


def stable(txt):
    """Without what OpenSSL's own randomness decides: encryption, randomised signatures."""
    def cut(m):
        parts = m.group(2).split(".")
        if len(parts) == 5:
            return m.group(1)
        head = m.group(1)
        hdr = base64.urlsafe_b64decode(head + "=" * (-len(head) % 4))
        return head + "." + parts[1] if b'"ES' in hdr or b'"PS' in hdr else m.group(0)
    return _JWX.sub(cut, txt) if isinstance(txt, str) else txt


class Result:
    """What the caller of the endpoint sees."""

    __slots__ = ("status", "kind", "body", "url", "cookies", "sid", "exc", "code")

    def __init__(self, status, kind, body=None, url=None, cookies=(), sid=None, exc=None, code=200):
        self.status = status  # ok | denied
        self.kind = kind      # json | redirect | page | text | error | logout
        self.body = body
        self.url = url
        self.cookies = list(cookies)
        self.sid = sid
        self.exc = exc
        self.code = code

    def visible(self):
        """The part two equivalent providers must agree on."""
        if self.status == "denied" and self.kind == "error":
            return ("denied", "error", (self.body or {}).get("error") if isinstance(self.body, dict)
                    else None, type(self.exc).__name__ if self.exc is not None else None)
        return (self.status, self.kind,
                stable(json.dumps(self.body, sort_keys=True, default=str)),
                stable(self.url), json.dumps(self.cookies, sort_keys=True), self.sid)

    def short(self):
        if self.status == "denied":
            e = ""
            if isinstance(self.body, dict):
                e = str(self.body.get("error", ""))
            if self.exc is not None:
                e += "!" + type(self.exc).__name__
            return "denied(%s)" % e
        return "%s:%s" % (self.status, self.kind)


def denied(body=None, exc=None):
    return Result("denied", "error", body=body, exc=exc, code=400)


def _err(msg):
    return denied({k: v for k, v in msg.to_dict().items()})


class Exchange:
    """One HTTP request on one node."""

    def __init__(self, node, ep, args, headers=None, cookies=None, url="", method="GET",
                 proc_kwargs=None):
        self.node = node
        self.ep_name = ep
        self.args = args
        self.http_info = {
            "headers": {k.lower(): v for k, v in (headers or {}).items()},
            "method": method,
            "url": url,
        }
        if cookies:
            self.http_info["cookie"] = [dict(c) for c in cookies]
        self.proc_kwargs = proc_kwargs or {}
        self.req = None
        self.result = None

    def parse(self):
        ep = self.node.ep(self.ep_name)
        try:
            self.req = ep.parse_request(copy.deepcopy(self.args), http_info=self.http_info)
        except Exception as err:
            self.result = denied({"error": "invalid_request"}, err)
            return self.result
        if isinstance(self.req, ResponseMessage) and "error" in self.req:
            self.result = _err(self.req)
            return self.result
        if isinstance(self.req, Message) and "error" in self.req and len(self.req.keys()) <= 3:
            self.result = _err(self.req)
            return self.result
        return None

    def process(self):
        if self.result is not None:
            return self.result
        ep = self.node.ep(self.ep_name)
        try:
            if isinstance(ep, OIDCToken):
                args = ep.process_request(AccessTokenRequest(**self.req), http_info=self.http_info,
                                          **self.proc_kwargs)
            else:
                args = ep.process_request(self.req, http_info=self.http_info, **self.proc_kwargs)
        except Exception as err:
            self.result = denied({"error": "server_error"}, err)
            return self.result
        self.result = respond(ep, self.req, args)
        return self.result

    def run(self):
        return self.parse() or self.process()


def _plain(x):
    if isinstance(x, Message):
        return x.to_dict()
    return x


def respond(ep, req, args):
    try:
        if "redirect_location" in args:
            return Result("ok", "logout", url=args["redirect_location"])
        if "http_response" in args:
            return Result("ok", "page", body=_plain(args["http_response"]))
        args = dict(args.items()) if isinstance(args, Message) else dict(args)
        error = args.pop("error", "")
        sid = args.pop("session_id", None)
        code = args.get("response_code", 400 if error else 200)
        info = ep.do_response(request=req, error=error, **args)
        placement = info.get("response_placement", ep.response_placement)
        cookies = info.get("cookie") or []
        if isinstance(cookies, dict):
            cookies = [cookies]
        if placement == "body":
            body = info["response"]
            try:
                parsed = json.loads(body)
            except (ValueError, TypeError):
                parsed = body
            bad = bool(error) or (isinstance(parsed, dict) and "error" in parsed)
            if bad:
                r = denied(parsed)
                r.cookies = cookies
                return r
            return Result("ok", "json" if isinstance(parsed, dict) else "text", body=parsed,
                          cookies=cookies, sid=sid, code=code)
        return Result("ok", "redirect", url=info["response"], cookies=cookies, sid=sid)
    except Exception as err:
        return denied({"error": "server_error"}, err)


_TOKEN_RE = re.compile(r'name="token" value="([^"]*)"')


def page_token(body):
    m = _TOKEN_RE.search(body or "")
    return html.unescape(m.group(1)) if m else None


_ACTION_RE = re.compile(r'<form action="([^"]*)"')
METHODS = {"verify/user": "user", "verify/strong": "strong"}


def page_action(body):
    m = _ACTION_RE.search(body or "")
    return html.unescape(m.group(1)) if m else None


class _Form(HTMLParser):
    """Reads the page the way a browser does."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.action, self.fields, self.alien = None, [], []

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "form" and self.action is None:
            self.action = a.get("action")
        elif tag == "input" and a.get("type") == "hidden":
            self.fields.append((a.get("name"), a.get("value") or ""))
        elif tag not in ("html", "head", "title", "body", "form", "input"):
            self.alien.append(tag)

    handle_startendtag = handle_starttag


def parse_form_post(body):
    f = _Form()
    f.feed(body or "")
    f.close()
    if f.action is None:
        return None, {}
    d = dict(f.fields)
    if f.alien:
        d["__alien__"] = ",".join(f.alien)
    return f.action, d


def login(node, token, username, password, action="verify/user"):
    """views.verify"""
    ctx = node.ctx
    method = ctx.authn_broker.get_method_by_id(METHODS[action])
    try:
        username = method.verify(username=username, password=password)
        auth_args = method.unpack_token(token)
        req = AuthorizationRequest().from_urlencoded(auth_args["query"])
        if "max_age" in req:            # url decoding leaves a string
            req["max_age"] = int(req["max_age"])
        ep = node.ep("authorization")
        sid = ep.create_session(req, username, auth_args["authn_class_ref"],
                                auth_args.get("iat", 0), method)
        args = ep.authz_part2(request=req, session_id=sid)
    except Exception as err:
        return denied({"error": "login_failed"}, err)
    if isinstance(args, ResponseMessage) and "error" in args:
        return _err(args)
    res = respond(ep, req, args)
    if res.sid is None:
        res.sid = sid
    return res


def verified_logout(node, sjwt, alla):
    """views.rp_logout"""
    ep = node.ep("session")
    try:
        info = ep.unpack_signed_jwt(sjwt)
        iframes = ep.do_verified_logout(alla=alla, **info)
        res = Result("ok", "logout", url=info.get("redirect_uri"),
                     body={"iframes": [str(i) for i in iframes]})
        res.cookies = ep.kill_cookies()
        return res
    except Exception as err:
        return denied({"error": "logout_failed"}, err)
