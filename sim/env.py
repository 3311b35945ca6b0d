"""Seams: everything nondeterministic that oidcop (and the libraries it uses) touches.

`install()` must run before oidcop, oidcmsg, cryptojwt, cryptography or requests
are imported.  After it:

* wall clock   -> CLOCK (virtual, moved only by the simulator)
* randomness   -> ENTROPY (a counter-mode hash stream, reseeded per operation)
* uuid1/uuid4  -> derived from CLOCK/ENTROPY
* HTTP client  -> any un-stubbed call raises
"""
import datetime as _datetime
import hashlib
import os
import random
import sys
import time
import uuid

_real_monotonic = time.monotonic
_real_urandom = os.urandom

EPOCH = 1_700_000_000


class Clock:
    def __init__(self):
        self.now = float(EPOCH)
        self.reads = 0

    def time(self):
        self.reads += 1
        return self.now

    def set(self, value):
        self.now = float(value)

    def advance(self, dt):
        self.now += dt


class Entropy:
    """Deterministic byte stream. `reseed` is called at the start of every simulated
    operation with (run seed, operation id), so dropping one operation while shrinking
    does not change the bytes another operation sees."""

    def __init__(self):
        self.key = b"init"
        self.n = 0
        self.buf = b""
        self.taken = 0

    def reseed(self, *parts):
        self.key = hashlib.blake2b(repr(parts).encode(), digest_size=32).digest()
        self.n = 0
        self.buf = b""
        random.seed(self.key)

    def take(self, k):
        self.taken += k
        while len(self.buf) < k:
            self.buf += hashlib.blake2b(
                self.n.to_bytes(8, "big"), key=self.key, digest_size=64
            ).digest()
            self.n += 1
        res, self.buf = self.buf[:k], self.buf[k:]
        return res

    def state(self):
        return (self.key, self.n, self.buf)

    def restore(self, st):
        self.key, self.n, self.buf = st


CLOCK = Clock()
ENTROPY = Entropy()
_installed = False


def real_monotonic():
    return _real_monotonic()


ACTIVE = [0]  # simulated runs in progress in this process


def install():
    global _installed
    if _installed:
        return
    for mod in ("oidcop", "oidcmsg", "cryptojwt", "cryptography", "requests"):
        if mod in sys.modules:
            raise RuntimeError("%s imported before the simulator seams" % mod)
    _installed = True

    real_gmtime, real_localtime = time.gmtime, time.localtime
    time.time = lambda: CLOCK.time()
    time.time_ns = lambda: int(CLOCK.time() * 1_000_000_000)
    time.gmtime = lambda secs=None: real_gmtime(CLOCK.time() if secs is None else secs)
    time.localtime = lambda secs=None: real_gmtime(CLOCK.time() if secs is None else secs)

    real_sleep = time.sleep

    def _no_sleep(secs):
        if ACTIVE[0]:
            raise RuntimeError("real sleep inside the simulation")
        real_sleep(secs)

    time.sleep = _no_sleep

    real_dt = _datetime.datetime

    class SimDateTime(real_dt):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(CLOCK.time(), tz if tz is not None else None) if tz else \
                cls.fromtimestamp(CLOCK.time(), _datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(CLOCK.time(), _datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.utcnow()

    SimDateTime.__name__ = "datetime"
    SimDateTime.__qualname__ = "datetime"
    _datetime.datetime = SimDateTime

    os.urandom = ENTROPY.take
    random._urandom = ENTROPY.take

    def uuid4():
        return uuid.UUID(bytes=ENTROPY.take(16), version=4)

    def uuid1(node=None, clock_seq=None):
        ts = int(CLOCK.now * 1e7) + 0x01B21DD213814000
        ts = (ts & ~0xFFFFF) | (int.from_bytes(ENTROPY.take(3), "big") & 0xFFFFF)
        r = int.from_bytes(ENTROPY.take(8), "big")
        return uuid.UUID(
            fields=(
                ts & 0xFFFFFFFF,
                (ts >> 32) & 0xFFFF,
                (ts >> 48) & 0x0FFF,
                (r >> 8) & 0x3F,
                r & 0xFF,
                0x02005E100000 | (r >> 20 & 0xFFFFF),
            ),
            version=1,
        )

    uuid.uuid1 = uuid1
    uuid.uuid4 = uuid4
    # module level PRNG users (none expected) are seeded as well
    random.seed(12345)

    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")

    sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
    import requests

    def _blocked(*a, **k):
        raise requests.exceptions.ConnectionError("no network in the simulation")

    for name in ("request", "get", "post", "put", "delete", "head"):
        setattr(requests, name, _blocked)
    requests.Session.request = _blocked

    # Skip the consistency check of fixed test keys (60 ms per key load); signing and
    # verification are untouched.
    from cryptography.hazmat.primitives.asymmetric import rsa as _rsa

    _orig_pk = _rsa.RSAPrivateNumbers.private_key

    def _private_key(self, backend=None, *, unsafe_skip_rsa_key_validation=False):
        return _orig_pk(self, backend, unsafe_skip_rsa_key_validation=True)

    _rsa.RSAPrivateNumbers.private_key = _private_key
