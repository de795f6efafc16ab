"""The simulated entropy device: numpy Generators whose raw bits come from the
simulator, with bursts of extreme values; and Generators whose draws are
simulator-visible events (yield points, failures)."""
import ctypes
import random

import numpy as np

U64 = ctypes.c_uint64
U32 = ctypes.c_uint32
DBL = ctypes.c_double
VP = ctypes.c_void_p
F64 = ctypes.CFUNCTYPE(U64, VP)
F32 = ctypes.CFUNCTYPE(U32, VP)
FD = ctypes.CFUNCTYPE(DBL, VP)


class _BitGen(ctypes.Structure):
    _fields_ = [
        ("state", VP),
        ("next_uint64", F64),
        ("next_uint32", F32),
        ("next_double", FD),
        ("next_raw", F64),
    ]


PyCapsule_New = ctypes.pythonapi.PyCapsule_New
PyCapsule_New.restype = ctypes.py_object
PyCapsule_New.argtypes = [VP, ctypes.c_char_p, VP]


class EntropyDevice:
    """Bit generator. ``bursts`` is a list of [start, length, mode]; outside the
    bursts the bits come from a seeded Mersenne twister."""

    MODES = ("low", "high", "stuck", "zero1", "ones1", "alternate")

    def __init__(self, seed, bursts=()):
        import threading

        self.rng = random.Random(seed)
        self.bursts = [tuple(b) for b in bursts]
        self.n = 0
        self.hits = {}
        self.stuck = None
        self._f64 = F64(lambda _: self.next64())
        self._f32 = F32(lambda _: self.next64() >> 32)
        self._fd = FD(lambda _: (self.next64() >> 11) * (1.0 / 9007199254740992.0))
        self._c = _BitGen(None, self._f64, self._f32, self._fd, self._f64)
        self._name = b"BitGenerator"
        self.capsule = PyCapsule_New(ctypes.addressof(self._c), self._name, None)
        self.lock = threading.Lock()
        self.limit = None

    def next64(self):
        i = self.n
        self.n += 1
        v = self.rng.getrandbits(64)
        for s, ln, mode in self.bursts:
            if s <= i < s + ln:
                self.hits[mode] = self.hits.get(mode, 0) + 1
                if mode == "low":
                    return v >> 20  # tiny but not zero
                if mode == "high":
                    return v | 0xFFFFFFFFFFFFF000
                if mode == "stuck":
                    if self.stuck is None:
                        self.stuck = v
                    return self.stuck
                if mode == "zero1":
                    return 0
                if mode == "ones1":
                    return 0xFFFFFFFFFFFFFFFF
                if mode == "alternate":
                    return 0xFFFFFFFFFFFFFFFF if i & 1 else 0
        self.stuck = None
        return v

    def generator(self):
        return np.random.Generator(self)


def gen_bursts(rng, horizon=200, single_zero=True):
    out = []
    for _ in range(rng.randint(0, 4)):
        mode = rng.choice(EntropyDevice.MODES)
        ln = rng.choice([1, 2, 3, 6])
        if mode == "alternate" and not single_zero:
            mode = "high"  # its zero words are single zero draws
        if mode in ("zero1", "ones1"):
            ln = 1
            if not single_zero and mode == "zero1":
                mode = "low"
        if mode == "stuck":
            ln = min(ln, 3)
        out.append([rng.randrange(horizon), ln, mode])
    return out


_DRAWS = {
    "random", "uniform", "normal", "standard_normal", "multinomial", "multivariate_normal",
    "integers", "choice", "shuffle", "permutation", "permuted", "exponential", "dirichlet", "bytes",
}


class TracedGenerator(np.random.Generator):
    """A Generator that reports every draw to the simulator first."""

    _on_draw = None
    _draws = 0

    def __getattribute__(self, name):
        if name in _DRAWS:
            cls = type(self)
            d = object.__getattribute__(self, "__dict__")
            d["_draws"] = d.get("_draws", 0) + 1
            cb = d.get("_on_draw")
            if cb is not None:
                cb(name, d["_draws"])
        return super().__getattribute__(name)


def state_of(gen):
    """Comparable state of a numpy Generator."""
    st = gen.bit_generator.state
    return repr(st)


class OsEntropy:
    """Replaces the operating system's entropy (numpy's and the stdlib's doors to
    it) with a seeded, counted one."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.calls = 0

    def randbits(self, k):
        self.calls += 1
        return self.rng.getrandbits(k)

    def urandom(self, n):
        self.calls += 1
        return bytes(self.rng.getrandbits(8) for _ in range(n))

    def __enter__(self):
        import os
        import secrets
        import numpy.random.bit_generator as bg

        self.bg, self.sec, self.os = bg, secrets, os
        self.old = bg.randbits, secrets.randbits, os.urandom
        bg.randbits = self.randbits
        secrets.randbits = self.randbits
        os.urandom = self.urandom
        return self

    def __exit__(self, *a):
        self.bg.randbits, self.sec.randbits, self.os.urandom = self.old
