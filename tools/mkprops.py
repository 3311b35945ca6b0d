"""Writes properties.jsonl (the source of truth for the property texts is this file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/oidcop/" + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})

GR = ("grant.issued_token", "every code and token a grant has issued, with used/revoked/expires_at", "src/oidcop/session/grant.py")
DB = ("session database", "user -> client -> grant tree", "src/oidcop/session/database.py")

p("P01", "An authorization code buys tokens at most once",
  "For every authorization code, at most one token request is ever answered with tokens, however many copies of the redemption are sent, delayed, duplicated, interleaved or repeated after a restart from persisted state. A first, correct redemption by the rightful client is answered with tokens.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "all interleavings of duplicated and concurrent redemptions at request-phase granularity, all clock movements, restarts and token formats",
  "The tests redeem one code once or twice in a straight line on one server object; they never overlap two parsed redemptions, duplicate a delivery, or restart between them.",
  ["oidc/token.py", "oauth2/token.py", "session/grant.py", "session/token.py"],
  [("used counter + max_usage=1 on codes", "session/token.py AuthorizationCode.set_defaults, Item.is_active"),
   ("minting refused on inactive parent", "session/grant.py Grant.mint_token"),
   ("usage registered after minting", "oidc/token.py AccessTokenHelper.process_request")], [GR], ["token endpoint responses"])
p("P02", "Replaying a redeemed code kills everything derived from it",
  "When an authenticated client presents an already redeemed authorization code at the token endpoint, the request is refused and every access and refresh token derived from that code, directly or through any chain of refreshes, is unusable everywhere from then on. Tokens of other codes, grants, clients and users are not affected. (A code whose own signed form has passed its expiry is refused as unknown and reveals no replay.)",
  ["histories", "schedules", "fault_sequences"],
  "all derivation trees (refresh chains of any depth and branching), replay moments, restarts and interleavings",
  "The tests replay once with a single directly minted token; transitive chains, siblings, restarts in between and isolation of unrelated tokens are not reached.",
  ["oidc/token.py", "oauth2/token.py", "session/grant.py"],
  [("recursive revocation", "session/grant.py Grant.revoke_token"), ("used-code detection", "oidc/token.py AccessTokenHelper.post_parse_request")], [GR],
  ["token, userinfo and introspection endpoints"])
p("P03", "Codes and refresh tokens work only for their client and redirect URI",
  "A code or refresh token is exchanged only by the client it was issued to, and a code only together with the exact redirect URI of the authorization request it came from. A refused attempt by the wrong client or with the wrong redirect URI yields no token and does not consume the code.",
  ["inputs", "histories", "schedules"],
  "all clients with valid credentials of their own, redirect URI variants, client authentication methods and interleavings",
  "Tests exercise one client and one redirect URI; the cross product with other authenticated clients, methods and in-flight exchanges is unbounded.",
  ["oidc/token.py", "oauth2/token.py", "endpoint.py", "client_authn.py"],
  [("client/redirect comparison", "oidc/token.py AccessTokenHelper.process_request, RefreshTokenHelper.process_request"), ("client_id overwritten by authenticated identity", "endpoint.py Endpoint.parse_request")], [GR],
  ["token endpoint responses"])
p("P04", "PKCE binds each code to the party that started the flow",
  "With proof key support on, a code whose authorization request carried a code challenge is redeemed only with the verifier matching that challenge under the requested method, and where a challenge is mandatory for the client no authorization is granted without one or with an unsupported method. A matching verifier is accepted.",
  ["inputs", "histories", "configurations"],
  "all challenge methods, verifier variants, per-client and global requirement settings, request transports (plain, request object, pushed) and concurrent flows of one client",
  "Tests check single flows with fixed values; mixing verifiers between concurrent flows, pushed requests, restarts and configuration combinations are out of reach.",
  ["oidc/add_on/pkce.py"], [("challenge check on both endpoints", "oidc/add_on/pkce.py post_authn_parse, post_token_parse")],
  [("grant.authorization_request", "holds the code challenge", "src/oidcop/session/grant.py")], ["authorization and token endpoints"])
p("P05", "Codes, tokens and grants are honoured exactly for their lifetime",
  "A code, access token or refresh token is refused at every endpoint after the lifetime configured for it (globally or for its client) has passed, is not refused as expired before that, and no token is issued from an expired grant. Every expiry announced to a client (token response, introspection, ID Token) equals the one enforced.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "all lifetimes and per-client rules, token formats, clock advances, backward steps and boundary instants, at any point of an exchange and across restarts",
  "Tests use the wall clock and one configuration; they cannot move time through boundaries between the phases of a request or between issue, refresh and restart.",
  ["session/token.py", "session/grant.py", "oauth2/token.py", "oauth2/authorization.py", "token/jwt_token.py", "authz/__init__.py"],
  [("expiry check", "session/token.py Item.is_active"), ("expiry assignment", "oauth2/token.py _mint_token, oauth2/authorization.py mint_token"), ("usage rules merge", "authz/__init__.py usage_rules")], [GR],
  ["all token consuming endpoints"])
p("P06", "Revocation is immediate, cascading and permanent",
  "Once a token, a grant or a client session is revoked, it and (for a grant or client session, and for a recursive token revocation) everything issued under it is refused at the token, userinfo and introspection endpoints from that moment on, and no request already in flight or later one, restart, clock change or new request revives it. Nothing outside the revoked subtree is affected, and the same user can log in to the same client again.",
  ["histories", "schedules", "fault_sequences", "crash_points"],
  "all revocation targets and orders, interleaved with in-flight requests, refreshes, new logins, clock jumps and restarts",
  "Tests set a flag and read it back; they do not follow the effect through the endpoints, in-flight requests, later logins or persistence.",
  ["session/manager.py", "session/grant.py", "session/database.py", "oidc/userinfo.py", "oauth2/introspection.py"],
  [("revocation", "session/manager.py revoke_token/revoke_grant/revoke_client_session"), ("mint refused on revoked grant", "session/grant.py Grant.mint_token")], [GR, DB],
  ["token, userinfo, introspection endpoints, session state"])
p("P07", "No token ever carries more scope than was granted",
  "The scope of every code, access and refresh token, in the token response, in introspection and inside a self-contained token, is within the scope of the authorization it descends from; a refresh that names a scope gets exactly that scope, one that exceeds the authorization is refused, and no refresh gets more than the token its refresh token was minted from. Scopes not allowed for the client are never reported as granted in the authorization response, and where unknown scopes are denied the authorization is refused.",
  ["inputs", "histories", "configurations"],
  "all scope sets, per-client allowed scopes, policies and refresh chains of any length",
  "Chains of refreshes with varying scope subsets are unbounded; tests sample one or two steps.",
  ["oauth2/token.py", "oidc/token.py", "session/grant.py", "scopes.py", "oauth2/authorization.py"],
  [("scope lookup along the chain", "session/grant.py Grant.find_scope"), ("subset check", "oidc/token.py RefreshTokenHelper.post_parse_request"), ("allowed scopes", "scopes.py Scopes.filter_scopes")], [GR],
  ["token responses, introspection"])
p("P08", "Only a genuine token of the right kind opens an endpoint",
  "A string opens the token, userinfo or registration-read endpoint, or introspects as active, only if it is byte for byte (up to transport encoding) a value this provider issued as that kind of token; codes, access tokens, refresh tokens and ID Tokens are never interchangeable. Altered, truncated, spliced, foreign or forgotten (lost in a crash) values are refused and change nothing.",
  ["inputs", "histories", "configurations"],
  "all issued values used at all endpoints, and all single- and multi-byte corruptions, in every token format",
  "Tests try a couple of literal bad strings; the space of values, kinds, formats and endpoints needs generation.",
  ["token/__init__.py", "token/handler.py", "token/jwt_token.py", "token/id_token.py", "session/manager.py", "oidc/userinfo.py", "oauth2/introspection.py"],
  [("token class check", "token/__init__.py DefaultToken.info, token/jwt_token.py JWTToken.info"), ("exact value lookup", "session/grant.py Grant.get_token")], [GR], ["all token consuming endpoints"])
p("P09", "Refresh tokens rotate and are limited exactly as configured",
  "A refresh token is accepted for as long as it is live and no longer: with rotation configured (globally, or overridden per client) it stops working as soon as a response has been issued for it, with a usage limit it works that many times, and otherwise it keeps working. A new refresh token is issued only when the configuration and scope call for it and the client may use refresh tokens, where refreshing is not enabled every refresh is refused, and refreshing one token never disturbs another.",
  ["histories", "configurations", "schedules"],
  "all combinations of rotation settings, usage limits, scopes and client overrides over refresh sequences with duplicated and overlapping requests",
  "Tests perform a single refresh under a fixed configuration.",
  ["oidc/token.py", "oauth2/token.py", "session/token.py"],
  [("rotation", "oidc/token.py RefreshTokenHelper.process_request"), ("usage limit", "session/token.py Item.max_usage_reached")], [GR], ["token endpoint responses"])
p("P10", "Introspection tells the truth and never fails",
  "For an authenticated caller and any token string, introspection answers and says active exactly when it is a live access or refresh token: issued here, not expired, revoked or used up, in a session that is not revoked; everything else, including unknown, malformed, expired, revoked or wrong-kind strings, is answered as inactive rather than with an error. For an active token the reported scope, client, subject, issuer, issue and expiry time and token type are those of the token.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "all token strings and all session histories, token formats, clock positions and restarts",
  "Tests introspect a handful of live tokens; the answer must agree with a whole history.",
  ["oauth2/introspection.py", "session/manager.py", "token/jwt_token.py"],
  [("state lookup", "oauth2/introspection.py _introspect"), ("token to session mapping", "session/manager.py get_session_info_by_token")], [GR], ["introspection responses"])
p("P11", "User claims are released exactly as granted, whatever came before",
  "The user claims in each userinfo response, ID Token, introspection response and self-contained access token are exactly those that this authorization's scopes, claims request, per-client settings and provider configuration call for at that release point, with the right user's values. The set does not depend on what other users, clients or earlier requests did, nor on a restart.",
  ["histories", "inputs", "configurations"],
  "all claim requests, scopes, client settings and release points in all orders of flows sharing one provider",
  "Leaks between requests only show up in particular orders of requests; each test starts from a fresh provider and one request.",
  ["session/claims.py", "session/grant.py", "oidc/userinfo.py", "token/id_token.py", "scopes.py", "user_info/__init__.py"],
  [("claims collection", "session/claims.py ClaimsInterface"), ("scope mapping", "scopes.py"), ("claims stored on the grant", "authz/__init__.py AuthzHandling.__call__")],
  [("grant.claims", "claims per release point fixed at authorization", "src/oidcop/session/grant.py")], ["userinfo, ID Token, introspection, JWT access token"])
p("P12", "Subject identifiers are stable, consistent and pairwise where registered",
  "For a given user and client the subject is the same in every ID Token, userinfo and introspection response of every session, across restarts, and different users never share one. Clients registered for pairwise identifiers in different sectors see different subjects for the same user, none of which is the public one, clients in one sector see the same, and ephemeral subjects differ between authorizations.",
  ["histories", "configurations", "crash_points"],
  "all users, clients, subject types, sectors, session orders and restarts",
  "Tests call the subject functions directly; whether the right one is used for each client over many sessions and restarts is not checked.",
  ["session/manager.py", "session/grant.py", "oauth2/authorization.py"],
  [("subject minting", "session/manager.py create_grant"), ("subject on the grant", "session/grant.py")], [("grant.sub", "subject of the grant", "src/oidcop/session/grant.py")], ["ID Token, userinfo, introspection"])
p("P13", "Every ID Token is correct for its own flow",
  "Every ID Token verifies under the provider's published keys and names the issuer, exactly the requesting client as audience, the nonce of its own authorization request, the subject and time of the actual authentication, a session identifier usable for logout, and a validity equal to the configured lifetime from now. Where a code or access token accompanies it in the front channel the hashes match those very values.",
  ["histories", "configurations", "inputs", "schedules"],
  "all response types, flows, concurrent sessions, refreshes, single sign-on reuse, clock positions and restarts",
  "Tests decode one token from one flow; mix-ups between concurrent sessions need interleaved histories.",
  ["token/id_token.py", "session/grant.py", "oauth2/authorization.py", "oidc/token.py"],
  [("payload construction", "token/id_token.py IDToken.payload, sign_encrypt"), ("hash inputs", "oauth2/authorization.py create_authn_response")], [GR], ["ID Tokens"])
p("P14", "Silent sign-on happens only on a fresh, matching login",
  "A user is signed in without being asked only if the browser holds a cookie for an active session of that very client whose authentication is still valid and no older than a requested maximum age, no ID Token hint names another user (a hint this provider did not issue, or that was altered, is refused), and no prompt for login was requested; otherwise the login page is shown, or login_required is returned when prompting is forbidden. When those conditions hold, silent sign-on succeeds for the user of that session.",
  ["histories", "schedules", "configurations", "fault_sequences"],
  "all sequences of logins, silent sign-ons, clock moves, revocations, logouts and restarts over several browsers, clients and users",
  "Age is measured across chains of silent sign-ons and clock movements that a test with a real clock does not build.",
  ["oauth2/authorization.py", "oidc/authorization.py", "user_authn/user.py", "authn_event.py", "cookie_handler.py"],
  [("login decision", "oauth2/authorization.py setup_auth"), ("cookie age", "user_authn/user.py authenticated_as")],
  [("authentication event", "who authenticated, when, valid until when", "src/oidcop/authn_event.py")], ["authorization endpoint outcome"])
p("P15", "Cookies cannot be forged, altered or used for another user or client",
  "A session or logout request is honoured on the strength of a cookie only if the cookie is one this provider issued, unaltered; any other value never yields a sign-on or a logout. An authorization reached through a cookie or a login always belongs to the user who logged in there, never to a user active in another browser or a concurrent flow.",
  ["inputs", "histories", "schedules", "configurations"],
  "all cookie corruptions, splices and swaps in every protection mode, and all interleavings of logins in several browsers",
  "Tests flip one byte of one cookie; splices, field moves and cross-browser histories are not covered.",
  ["cookie_handler.py", "user_authn/user.py", "oauth2/authorization.py", "oidc/session.py"],
  [("cookie protection", "cookie_handler.py _sign_enc_payload, _ver_dec_content, parse_cookie"), ("identity from cookie", "user_authn/user.py cookie_info")], [], ["authorization and logout endpoints"])
p("P16", "Authorization responses go only to registered redirect URIs, with the state",
  "Every redirect or posted form carrying an authorization response or error goes to a redirect URI registered for the requesting client and equal to the one in the request, in the response mode that applies, with exactly the state of that request; a successful response carries this issuer's identifier, an error response carries no code or token. A request for a response type or redirect URI the client has not registered gets no redirect.",
  ["inputs", "histories", "schedules", "configurations"],
  "all request parameter combinations, client registrations, response modes, error paths and interleaved flows",
  "Tests check a few exact strings; error paths combined with response modes and interleavings are rarely reached.",
  ["oauth2/authorization.py", "endpoint.py"],
  [("redirect URI verification", "oauth2/authorization.py verify_uri, get_uri"), ("response modes", "oauth2/authorization.py response_mode, error_by_response_mode"), ("response placement", "endpoint.py do_response")], [], ["authorization responses"])
p("P17", "Only properly authenticated clients are served",
  "The token, introspection, pushed authorization and registration-read endpoints serve a request only when it carries a currently valid credential of a known client: the right secret not past its expiry, or an assertion signed with that client's own key, addressed to this endpoint, unexpired, and never seen before, also across restarts. A request with valid credentials is not rejected for client authentication.",
  ["inputs", "histories", "schedules", "crash_points"],
  "all authentication methods, wrong, stale, foreign and replayed credentials, delayed and duplicated deliveries, clock moves and restarts",
  "One-time use and expiry depend on delivery duplication, time and persistence, none of which unit tests vary.",
  ["client_authn.py", "endpoint.py", "oidc/registration.py", "oidc/read_registration.py"],
  [("credential verification", "client_authn.py verify_client and method classes"), ("assertion replay store", "client_authn.py JWSAuthnMethod.verify")],
  [("jti_db", "assertions already seen", "src/oidcop/endpoint_context.py")], ["endpoint responses"])
p("P18", "Client registration is all or nothing",
  "A dynamic registration either succeeds, returning an identifier and credentials that are unique, reflect the request, stay within what the provider announces and work at once for exactly that client, or fails leaving no client, credential or key behind and every other client untouched, whatever external documents it refers to are slow, missing, garbled or truncated. A registration access token reads back only its own client's registration.",
  ["fault_sequences", "inputs", "histories"],
  "all metadata combinations, all failures of the fetched documents, interleaved registrations and restarts",
  "Tests stub one good or bad answer; partial effects after a failure and later use of the leftovers are not examined.",
  ["oidc/registration.py", "oidc/read_registration.py"],
  [("registration steps", "oidc/registration.py client_registration_setup, do_client_registration"), ("sector document check", "oidc/registration.py _verify_sector_identifier")],
  [("client database", "registered clients", "src/oidcop/endpoint_context.py")], ["registration, registration read, token endpoints"])
p("P19", "A pushed authorization request is used once, by its client, in time",
  "A request URI handed out for a pushed authorization request is usable for at most one authorization, only by the client that pushed it, only within the announced lifetime, and yields exactly the pushed parameters, held to the same rules as a request sent directly, regardless of what else the front channel request says. Unused, unexpired ones survive a restart from persisted state and are not used up by what other clients try.",
  ["histories", "schedules", "crash_points", "inputs"],
  "all orders of pushes, uses, duplicate uses, uses by other clients, clock moves and restarts",
  "Tests push and use once on a live object; lifetime, ownership, duplication and persistence are not varied.",
  ["oauth2/pushed_authorization.py", "oauth2/authorization.py"],
  [("store and one-time removal", "oauth2/authorization.py _do_request_uri, oauth2/pushed_authorization.py")],
  [("par_db", "pushed requests", "src/oidcop/endpoint_context.py")], ["authorization endpoint"])
p("P20", "Logout ends the sessions and reaches every relying party",
  "A logout needs a confirmation this provider made itself and honours only ID Token hints it issued; forged or altered ones are refused. After a confirmed logout of one client, or of all clients, nothing issued in the affected sessions works any more and silent sign-on from them fails, even when notifications to relying parties fail. Each affected relying party with a logout address is notified exactly once with a valid logout token or frame for its own session, one party's failure does not stop the others, and the user is only sent back to a registered post-logout address.",
  ["fault_sequences", "histories", "schedules"],
  "all sets of sessions, relying party kinds, notification failures, orders and restarts",
  "Tests log out with all parties answering; failures part way through and what works afterwards are not checked.",
  ["oidc/session.py", "session/manager.py"],
  [("logout", "oidc/session.py do_verified_logout, logout_all_clients, logout_from_client"), ("session revocation", "session/manager.py revoke_client_session")], [DB], ["notifications, all endpoints afterwards"])
p("P21", "A restart from persisted state is invisible",
  "The provider's state can be exported as plain data at any moment, and a new process that loads it answers every later request exactly as the one that never stopped would have. State that was not persisted is forgotten cleanly: values issued since are refused without disturbing anything else.",
  ["crash_points", "histories", "configurations"],
  "all crash points between and inside exchanges, all session histories and configurations",
  "Tests export and import one small session; equality of all later behaviour after arbitrary histories needs a twin run.",
  ["session/manager.py", "session/database.py", "session/grant.py", "session/token.py", "endpoint_context.py"],
  [("export/import", "session/*.py parameter tables, endpoint_context.py")], [DB, GR], ["all endpoints of a restarted and a never stopped provider"])
p("P22", "The session tree stays well formed",
  "After every operation each user entry lists exactly its client sessions, each client session exactly its grants, every listed entry exists, no entry is unreachable or duplicated, and each grant can be reached by its session identifier and belongs to the user and client it was created for. Removing a session, a client session or a user removes exactly that subtree, and what the session manager reports about a session is what is stored.",
  ["histories", "fault_sequences", "schedules"],
  "all sequences of logins, token requests, revocations, removals and restarts",
  "Stray and dangling entries are side effects that response-level tests do not look at.",
  ["session/database.py", "session/manager.py", "oauth2/token.py", "oauth2/authorization.py"],
  [("tree maintenance", "session/database.py set, delete")], [DB], ["session database, exported state"])
p("P23", "Correct requests keep succeeding whatever happened before",
  "Once faults stop, every correct request by a legitimate party succeeds: each client can complete a fresh login and token exchange with any user and any browser, and live tokens work. No malformed, refused, duplicated, interrupted or failing request, and no crash, leaves the provider unable to serve others or the same party's next correct request.",
  ["fault_sequences", "histories", "schedules"],
  "all histories of faulty and malformed requests, partial flows and crashes followed by correct ones",
  "Tests stop after the failure they provoke; what still works afterwards is not exercised.",
  ["oauth2/authorization.py", "oidc/token.py", "oauth2/token.py", "session/manager.py", "cookie_handler.py"],
  [("no shared state corrupted by refused requests", "all endpoints")], [DB], ["all endpoints"])
p("P24", "Request objects are applied whole and only when authentic",
  "Parameters passed in a signed request object, by value or by reference, take effect only if the object is signed with a key of the requesting client under an allowed algorithm, came from a registered location when passed by reference and the client registered any, and was retrieved completely; then its values override the unsigned ones. In every other case no authorization results from it, nor when the resulting request is not one that would be accepted had it been sent directly.",
  ["inputs", "fault_sequences", "histories"],
  "all signers, algorithms, locations, tamperings and retrieval failures",
  "Retrieval failures and mixed signed and unsigned parameters are sampled once or not at all by tests.",
  ["oauth2/authorization.py", "oidc/authorization.py"],
  [("retrieval and verification", "oauth2/authorization.py _do_request_uri, AllowedAlgorithms")], [], ["authorization endpoint"])
p("P25", "Sender-constrained tokens stay bound to the proven key",
  "With proof of possession enabled, a token request carrying a valid proof yields tokens of the DPoP type bound to exactly the proven key, and a request whose proof is malformed, of another type, badly signed, signed with an algorithm the provider does not support, or made for another method or address gets no tokens. The binding of one exchange never appears in tokens of an exchange without a proof in another authorization.",
  ["inputs", "histories"],
  "all proofs, keys, methods, addresses and interleaved exchanges",
  "Tests use one key and one proof; mixing keys across exchanges is not covered.",
  ["oauth2/add_on/dpop.py", "oidc/token.py", "session/grant.py"],
  [("proof verification", "oauth2/add_on/dpop.py"), ("confirmation claim", "session/grant.py payload_arguments")], [("grant.extra", "key thumbprint", "src/oidcop/session/grant.py")], ["token responses, JWT access tokens"])
p("P26", "The published metadata is true, constant and holds no secret",
  "At every moment, whatever has been requested, registered, refused or failed before and after any restart, the provider configuration document is the same: it names the configured issuer, the address of every endpoint served and the configured capabilities (algorithms, response, grant and subject types, authentication contexts, scopes), and holds no secret. What the provider does stays within it: nothing is signed with an algorithm that is not announced, no registration is accepted with a value that is not announced, and a grant type that is not enabled is refused. WebFinger discovery names the issuer for whatever resource is asked about.",
  ["histories", "schedules", "configurations", "crash_points"],
  "all histories of requests, registrations and restarts over all configurations",
  "Tests read the document once from a fresh provider; whether anything changes it later, and whether what is done stays within it, depends on the history and the configuration.",
  ["oidc/provider_config.py", "oidc/discovery.py", "configure.py", "util.py", "oidc/registration.py", "endpoint_context.py"],
  [("capability collection", "server.py get_capabilities, endpoint_context.py create_providerinfo, construct.py"), ("matching a registration", "oidc/registration.py match_client_request")],
  [("provider_info", "what is published; shared by every endpoint", "src/oidcop/endpoint_context.py")], ["provider configuration, discovery and registration responses, headers of signed messages"])
p("P27", "Configuration and packing helpers round-trip",
  "Length-value packing, encryption at rest, claim matching and configuration file expansion return, for every input, what was put in.",
  ["inputs"], "all strings and configurations", "Round trips hold for every input, tests sample a few.",
  ["util.py", "configure.py", "session/claims.py"], [("packing", "util.py lv_pack, lv_unpack, Crypt")], [], ["helper functions"])

p("P28", "Responses are protected the way their client registered",
  "ID tokens, logout tokens and userinfo responses are signed with the algorithm the receiving client registered and verify under the provider's published key or, for a symmetric algorithm, under that client's own secret; a userinfo response for which encryption was registered can be opened with that client's key and not otherwise. What other clients registered, other requests in progress, rotations, refused registrations or restarts never change how one client's responses are protected.",
  ["histories", "schedules", "configurations", "crash_points"],
  "all sets of clients with different registered algorithms, interleavings and restarts",
  "Tests use one client and the default algorithm; several clients with different registrations interleaved on one provider are not covered.",
  ["token/id_token.py", "oidc/userinfo.py", "oidc/session.py", "oidc/registration.py"],
  [("algorithm selection", "token/id_token.py get_sign_and_encrypt_algorithms, sign_encrypt"), ("userinfo protection", "oidc/userinfo.py do_response"), ("logout token", "oidc/session.py do_back_channel_logout")],
  [("keyjar", "client secrets and keys", "src/oidcop/endpoint_context.py"), ("client_db", "registered algorithms", "src/oidcop/endpoint_context.py")], ["token, authorization and userinfo responses, logout notifications"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        fp.write(json.dumps(x) + "\n")
