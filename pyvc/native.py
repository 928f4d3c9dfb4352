"""Concrete execution of contracts under plain CPython, on the uninstrumented code.

Used to replay counter-models, to cross-check the verifier path by path and for the
bounded stand-in when an obligation cannot be discharged."""
import os
import random
import signal
import sys

from .api import Outcome


class Reject(BaseException):
    """assumption not met by the concrete input"""


class Stop(BaseException):
    pass


class Timeout(BaseException):
    pass


CHARSETS = {
    'token': "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-.!%*_+`'~",
    'alnum': "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789",
    'hex': '0123456789abcdef',
    'digits': '0123456789',
    'text': ''.join(chr(c) for c in range(32, 127)) + '\u00e9\u4e2d',
    'any': ''.join(chr(c) for c in range(1, 128)) + '\u00e9\u4e2d',
}


class NativeV:
    symbolic = False

    def __init__(self, assign=None, rng=None, tier='quick'):
        self.assign = assign
        self.rng = rng or random.Random(1)
        self.used = {}
        self.results = []     # (obligation, bool)
        self.covers = []
        self.patches = []
        self.tier = tier

    def _get(self, name, gen, default):
        if name in self.used:
            return self.used[name]
        if self.assign is not None:
            r = self.assign.get(name, default)
        else:
            r = gen()
        self.used[name] = r
        return r

    def int(self, name, lo=None, hi=None):
        def gen():
            a = lo if lo is not None else -50
            b = hi if hi is not None else max(a, 0) + 10000
            r = self.rng.random()
            if r < 0.15:
                return a
            if r < 0.3:
                return b
            if r < 0.6:
                return self.rng.randint(a, min(b, a + 12))
            return self.rng.randint(a, b)
        r = self._get(name, gen, lo if lo is not None else 0)
        if (lo is not None and r < lo) or (hi is not None and r > hi):
            raise Reject(name)
        return r

    def real(self, name, lo=None, hi=None):
        def gen():
            a = lo if lo is not None else -50.0
            b = hi if hi is not None else a + 1000.0
            r = self.rng.random()
            if r < 0.1:
                return float(a)
            if r < 0.2:
                return float(b)
            if r < 0.5:
                return float(self.rng.randint(int(a), int(min(b, a + 20))))
            # multiples of 1/8: sums of them are exact in floating point
            return min(max(int(self.rng.uniform(a, b) * 8) / 8.0, float(a)), float(b))
        r = float(self._get(name, gen, lo if lo is not None else 0.0))
        if (lo is not None and r < lo) or (hi is not None and r > hi):
            raise Reject(name)
        return r

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5, False))

    flag = bool

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, lambda: self.rng.randrange(len(options)), 0)
        return options[i % len(options)]

    def _chars(self, chars, no):
        cs = CHARSETS.get(chars, chars)
        return ''.join(c for c in cs if c not in no)

    def str(self, name, chars='text', min=0, max=None, no=''):
        cs = self._chars(chars, no)

        def gen():
            hi = max if max is not None else min + 8
            if self.rng.random() < 0.1:
                hi = max if max is not None else min + 80
            n = self.rng.randint(min, hi)
            return ''.join(self.rng.choice(cs) for _ in range(n))
        return self._get(name, gen, cs[:1] * min)

    def blob(self, name, n):
        import hashlib
        return hashlib.shake_128(('%s.%s' % (name, self._get(name, lambda: self.rng.randrange(1 << 30), 0))).encode()).digest(n)

    def token(self, name, no=''):
        return self.str(name, 'token', 1, None, no)

    def opt(self, name, f):
        return f() if self.flag(name + '?') else None

    def assume(self, cond):
        if not cond:
            raise Reject('assumption')

    def ensure(self, name, cond):
        ok = bool(cond)
        self.results.append((name, ok))

    def cover(self, label):
        self.covers.append(label)

    def note(self, text):
        pass

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k), None)
        except (Exception, SystemExit, KeyboardInterrupt, GeneratorExit) as e:
            return Outcome(None, e)

    def patch(self, obj, attr, val):
        if isinstance(obj, str):
            import importlib
            obj = importlib.import_module(obj)
        had = attr in vars(obj) if hasattr(obj, '__dict__') else hasattr(obj, attr)
        old = (vars(obj)[attr] if hasattr(obj, '__dict__') else getattr(obj, attr)) if had else None
        self.patches.append((obj, attr, had, old))
        setattr(obj, attr, val)

    def unpatch(self):
        for obj, attr, had, old in reversed(self.patches):
            if had:
                setattr(obj, attr, old)
            else:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
        self.patches = []

    # logic without forking
    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b

    def utf8len(self, s):
        return len(s.encode('utf-8'))

    def close(self, a, b, tol=1e-6):
        """equality of real arithmetic; native floats compare up to rounding"""
        return a is not None and b is not None and abs(a - b) <= tol * (1 + abs(a) + abs(b))

    def spec_hash(self, alg, data):
        import hashlib
        return hashlib.new(alg, data if isinstance(data, bytes) else data.encode('utf-8')).hexdigest()


def _alarm(*a):
    raise Timeout()


def run_native(c, assign=None, rng=None, limit=10.0):
    """returns (status, results, used, detail); status: ok, reject, exc, timeout"""
    v = NativeV(assign, rng)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    so = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        try:
            c.fn(v)
            st, det = 'ok', ''
        except (Reject, PathAssume):
            st, det = 'reject', ''
        except Stop:
            st, det = 'ok', ''
        except Timeout:
            st, det = 'timeout', 'no termination within %ss' % limit
        except (Exception, SystemExit) as e:
            import traceback
            st, det = 'exc', traceback.format_exc(limit=-8)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout.close()
        sys.stdout = so
        v.unpatch()
    return st, v.results, v.used, det, v.covers


class PathAssume(BaseException):
    pass
