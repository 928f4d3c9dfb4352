"""Semantics of the rerouted operations on symbolic operands (models of builtins)."""
import builtins
import functools
import heapq
import hmac
import operator
import re as _re
import collections
import string as _string
import sys
import types
import copy as _copy

import z3

from . import sym, blob
from .sym import (SStr, SInt, SReal, SBool, SBytes, SNum, SDict, Undecided, EngineControl, has_sym,
                  is_sym, mkstr, parts_of, pytype, str_len, truth, mknum, mkbool, IntAtom, UFAtom, CharSet,
                  ctx, sor, sand, DIGITS, HEX, WS)

sym.add_sym(blob.SBlob)
FUNC_SEEN = set()
BLK_SEEN = set()


def enter(k):
    FUNC_SEEN.add(k)


def blk(k):
    BLK_SEEN.add(k)


def tick(k):
    c = sym.CTX
    if c is not None:
        if c.dead is not None:
            raise c.dead
        c.ticks = getattr(c, 'ticks', 0) + 1
        if c.ticks > 20000:
            raise c.kill(Undecided('loop does not terminate within 20000 iterations'))


def guard():
    e = sys.exc_info()[1]
    if isinstance(e, EngineControl):
        raise e
    if sym.CTX is not None and sym.CTX.dead is not None:
        raise sym.CTX.dead


def iter(x):
    return x


def mkdict(d):
    return SDict(d)


def _user(t, name):
    """user (python) definition of a special method, or None"""
    for k in t.__mro__:
        if name in k.__dict__:
            f = k.__dict__[name]
            return f if isinstance(f, types.FunctionType) else None
    return None


# ------------------------------------------------------------- str() and friends
def to_str(x):
    if isinstance(x, (str, SStr)):
        return x
    if isinstance(x, SInt):
        p = ctx()
        if p.valid(x.e >= 0) or p.branch(x.e >= 0):
            return mkstr([IntAtom(x.e)])
        return mkstr(['-', IntAtom(-x.e)])
    if isinstance(x, SBool):
        return 'True' if bool(x) else 'False'
    if isinstance(x, SReal):
        return mkstr([UFAtom('strreal', [x], CharSet.of('0123456789.-e+'), 3)])
    if isinstance(x, SBytes):
        raise Undecided('str(bytes)')
    f = _user(type(x), '__str__')
    if f is not None:
        r = f(x)
        if not isinstance(r, (str, SStr)):
            raise TypeError('__str__ returned non-string (type %s)' % pytype(r).__name__)
        return r
    f = _user(type(x), '__repr__')
    if f is not None and type(x).__str__ is object.__str__:
        return f(x)
    if isinstance(x, (list, tuple, dict, set)) and has_sym(x):
        return to_repr(x)
    if isinstance(x, BaseException):
        if len(x.args) == 0:
            return ''
        if len(x.args) == 1:
            return to_str(x.args[0])
        if has_sym(x.args):
            raise Undecided('str() of exception with symbolic arguments')
    return builtins.str(x)


def to_repr(x):
    if isinstance(x, SStr):
        return mkstr([UFAtom('repr', [x], sym.TEXT, 2)])
    if isinstance(x, (SInt, SReal, SBool)):
        return to_str(x)
    if isinstance(x, SBytes):
        return mkstr(["b'", UFAtom('reprb', [x.s], sym.TEXT, 0), "'"])
    if isinstance(x, (list, tuple)) and has_sym(x):
        out = []
        for i, y in enumerate(x):
            if i:
                out.append(', ')
            out += parts_of(to_repr(y))
        a, b = ('[', ']') if isinstance(x, list) else ('(', ',)' if len(x) == 1 else ')')
        return mkstr([a] + out + [b])
    if isinstance(x, dict) and has_sym(x):
        out = []
        for i, (k, y) in enumerate(x.items()):
            if i:
                out.append(', ')
            out += parts_of(to_repr(k)) + [': '] + parts_of(to_repr(y))
        return mkstr(['{'] + out + ['}'])
    f = _user(type(x), '__repr__')
    if f is not None:
        return f(x)
    return builtins.repr(x)


def m_int(x=0, base=None):
    if base is not None:
        if is_sym(x):
            if isinstance(x, SStr) and base == 10:
                return m_int(x)
            if isinstance(x, SStr):
                return _int_atom(x, base)
            raise TypeError("int() can't convert non-string with explicit base")
        return builtins.int(x, base)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return sym._b2i(x)
    if isinstance(x, SReal):
        p = ctx()
        if p.branch(x.e >= 0):
            return mknum(z3.ToInt(x.e))
        return mknum(-z3.ToInt(-x.e))
    if isinstance(x, SBytes):
        return m_int(x.s)
    if isinstance(x, SStr):
        return _int_of_str(x)
    f = _user(type(x), '__int__')
    if f is not None:
        return f(x)
    return builtins.int(x)


def _int_of_str(s):
    t = s.strip()
    if isinstance(t, str):
        return builtins.int(t)
    ps = t.norm()
    neg = False
    if isinstance(ps[0], str) and ps[0] in ('-', '+') and len(ps) == 2 and not isinstance(ps[1], str):
        neg = ps[0] == '-'
        ps = ps[1:]
    if len(ps) == 1:
        a = ps[0]
        if a.kind == 'int':
            return mknum(-a.e if neg else a.e)
        return _int_atom(mkstr([a]), 10, neg)
    # several pieces: digits everywhere -> value of the whole; any certain non-digit -> error
    for x in ps:
        if isinstance(x, str):
            if not all(c in '0123456789_+-' for c in x):
                raise ValueError('invalid literal for int()')
        elif x.minlen > 0 and not (sym.acs(x).s & (DIGITS.s | {ord('_'), ord('+'), ord('-')})):
            raise ValueError('invalid literal for int()')
    raise Undecided('int() of %r' % (s,))


def _int_atom(s, base, neg=False):
    p = ctx()
    ps = s.norm()
    key = 'int%d!%r' % (base, ps)
    isint = z3.Bool('is' + key)
    val = z3.Int('val' + key)
    digs = CharSet.of('0123456789' if base == 10 else '0123456789abcdefABCDEF')
    if all((not isinstance(x, str)) and sym.acs(x).only(digs) for x in ps) and any(x.minlen > 0 for x in ps):
        ok = True
    else:
        cs = sym.acs(ps[0]) if len(ps) == 1 else None
        if cs is not None and not (cs.s & (digs.s)) and not cs.hi:
            raise ValueError('invalid literal for int()')
        ok = p.branch(isint)
    if not ok:
        raise ValueError('invalid literal for int()')
    if len(ps) == 1:
        p.intvals[ps[0].name] = (isint, val, base)
    if all(isinstance(x, str) or sym.acs(x).disjoint('-') for x in ps) and not getattr(p, 'vi_' + key, False) if False else True:
        if all((isinstance(x, str) and '-' not in x) or (not isinstance(x, str) and sym.acs(x).disjoint('-')) for x in ps):
            p.add(val >= 0)
    if len(ps) == 1 and base == 10:
        l = p.alen(ps[0])
        for k in range(1, 12):
            p.add(z3.Implies(l <= k, z3.And(val < 10 ** k, val > -10 ** k)))
    return mknum(-val if neg else val)


def m_float(x=0.0):
    if isinstance(x, SInt):
        return SReal(z3.ToReal(x.e))
    if isinstance(x, SReal):
        return x
    if isinstance(x, SBool):
        return SReal(z3.ToReal(sym._b2i(x).e))
    if isinstance(x, SStr):
        ps = x.strip()
        if isinstance(ps, str):
            return builtins.float(ps)
        ps = ps.norm()
        if len(ps) == 1 and ps[0].kind == 'int':
            return SReal(z3.ToReal(ps[0].e))
        if len(ps) == 1 and ps[0].kind == 'uf' and ps[0].fn == 'strreal':
            return ps[0].args[0]
        if len(ps) == 1:
            p = ctx()
            a = ps[0]
            isf = z3.Bool('isfloat!' + a.name)
            if not p.branch(isf):
                raise ValueError('could not convert string to float')
            val = z3.Real('floatval!' + a.name)
            p.floatvals[a.name] = (isf, val)
            return SReal(val)
        raise Undecided('float() of %r' % (x,))
    f = _user(type(x), '__float__')
    if f is not None:
        return f(x)
    return builtins.float(x)


def m_round(x, nd=None):
    if isinstance(x, SInt) and nd is None:
        return x
    if isinstance(x, SReal):
        if nd is None:
            p = ctx()
            fl = z3.ToInt(x.e)
            d = x.e - z3.ToReal(fl)
            return mknum(z3.If(d < z3.RealVal('1/2'), fl, z3.If(d > z3.RealVal('1/2'), fl + 1,
                                                               z3.If(fl % 2 == 0, fl, fl + 1))))
        raise Undecided('round to digits')
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def m_len(x):
    if isinstance(x, SStr):
        return x.length()
    if isinstance(x, (SBytes, blob.SBlob)):
        return x.length()
    f = _user(type(x), '__len__')
    if f is not None and type(x) is not SDict:
        return f(x)
    return builtins.len(x)


def m_isinstance(x, t):
    if is_sym(x) or type(x) is SDict:
        pt = pytype(x)
        ts = t if isinstance(t, tuple) else (t,)
        for y in ts:
            if isinstance(y, tuple):
                if m_isinstance(x, y):
                    return True
            elif isinstance(y, type):
                if issubclass(pt, y):
                    return True
            else:
                raise Undecided('isinstance')
        return False
    return builtins.isinstance(x, t)


def m_type(*a):
    if len(a) == 1:
        return pytype(a[0])
    return builtins.type(*a)


def m_bool(x=False):
    r = truth_user(x)
    return r


def truth_user(x):
    if is_sym(x):
        return truth(x)
    return builtins.bool(x)


def m_bytes(x=b'', *a):
    if isinstance(x, SStr):
        return SBytes(x)
    if isinstance(x, SBytes):
        return x
    return builtins.bytes(x, *a)


def m_strtype(x='', *a):
    if isinstance(x, SBytes):
        return x.s if a else to_str(x)
    if a:
        return builtins.str(x, *a)
    return to_str(x)


def m_abs(x):
    return builtins.abs(x)


def m_ord(x):
    if isinstance(x, SStr):
        raise Undecided('ord')
    return builtins.ord(x)


def m_range(*a):
    return builtins.range(*[x.__index__() if isinstance(x, SInt) else x for x in a])


def m_sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


def m_dict(*a, **k):
    return SDict(*a, **k)


def m_hash(x):
    if has_sym(x):
        raise Undecided('hash')
    return builtins.hash(x)


def m_any(xs):
    for x in xs:
        if x:
            return True
    return False


def m_list(*a):
    return builtins.list(*a)


def m_copy(x):
    if is_sym(x):
        return x
    return _copy.copy(x)


def m_deepcopy(x, memo=None):
    if is_sym(x):
        return x
    return _copy.deepcopy(x, memo)


for _c in (SStr, SInt, SReal, SBool, SBytes):
    _c.__copy__ = lambda self: self
    _c.__deepcopy__ = lambda self, memo: self


def m_print(*a, **k):
    return None


def m_set(xs=()):
    return builtins.set(xs) if sym.CTX is None else sym.SSet(xs)


def mkset(xs):
    return builtins.set(xs) if sym.CTX is None else sym.SSet(xs)


class SDefault(SDict):
    __slots__ = ('default_factory',)

    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SDict.__init__(self, *a, **k)

    def __getitem__(self, key):
        nk = self._find(key)
        if nk is sym._MISS:
            if self.default_factory is None:
                raise KeyError(key)
            x = self.default_factory()
            self[key] = x
            return x
        return builtins.dict.__getitem__(self, nk)

    def copy(self):
        return SDefault(self.default_factory, self)

    def __missing__(self, key):
        return self[key]


class SOrdered(SDict):
    __slots__ = ()

    def move_to_end(self, key, last=True):
        x = self.pop(key)
        rest = builtins.list(self.items())
        if last:
            self[key] = x
            return
        self.clear()
        self[key] = x
        for k, y in rest:
            self[k] = y

    def popitem(self, last=True):
        if last:
            return SDict.popitem(self)
        for k in self:
            return k, self.pop(k)
        raise KeyError('dictionary is empty')

    def copy(self):
        return SOrdered(self)


def m_map(f, *xs):
    return (call(f, *a) for a in builtins.zip(*xs))


def m_filter(f, xs):
    return (x for x in xs if (x if f is None else call(f, x)))


def _keyed(key):
    return None if key is None else lambda x: call(key, x)


def m_sorted(xs, *, key=None, reverse=False):
    return builtins.sorted(xs, key=_keyed(key), reverse=reverse)


def _minmax(fn):
    def f(*a, key=None, **k):
        return fn(*a, **(k if key is None else {**k, 'key': _keyed(key)}))
    return f


def m_reduce(f, xs, *init):
    return functools.reduce(lambda a, b: call(f, a, b), xs, *init)


def m_defaultdict(*a, **k):
    return collections.defaultdict(*a, **k) if sym.CTX is None else SDefault(*a, **k)


def m_ordereddict(*a, **k):
    return collections.OrderedDict(*a, **k) if sym.CTX is None else SOrdered(*a, **k)


def m_getattr(o, n, *d):
    if is_sym(n):
        raise Undecided('getattr with a symbolic name')
    return builtins.getattr(o, n, *d)


def _hashfn(alg):
    def f(data=b'', **kw):
        return SHash(alg, data)
    return f


class SHash:
    """model of hashlib objects over symbolic data: an uninterpreted function"""

    def __init__(self, alg, data=b'', **kw):
        self.alg = alg
        self.data = data
        self.name = alg
        self.digest_size = HLEN[alg] // 2

    def update(self, d):
        if isinstance(d, (str, SStr)):
            raise TypeError('Strings must be encoded before hashing')
        self.data = self.data + d

    def copy(self):
        return SHash(self.alg, self.data)

    def hexdigest(self):
        if isinstance(self.data, bytes):
            import hashlib
            return hashlib.new(self.alg, self.data).hexdigest()
        return hexhash(self.alg, self.data.s)

    def digest(self):
        if isinstance(self.data, bytes):
            import hashlib
            return hashlib.new(self.alg, self.data).digest()
        # opaque value, equal exactly when the data are: only good as a key
        return mkstr([UFAtom(self.alg + '.digest', [self.data.s], HEX, HLEN[self.alg] // 2, HLEN[self.alg] // 2)])


def m_hash_new(name, data=b'', **kw):
    if sym.CTX is None or name not in HLEN:
        import hashlib
        return hashlib.new(name, data)
    return SHash(name, data)


HLEN = {'md5': 32, 'sha1': 40, 'sha256': 64, 'sha512': 128, 'sha512_256': 64}


def hexhash(alg, s):
    import hashlib
    if isinstance(s, str):
        return hashlib.new(alg, s.encode('utf-8')).hexdigest()
    n = HLEN[alg]
    return mkstr([UFAtom(alg, [s], HEX, n, n)])


MODELS = {
    builtins.str: m_strtype, builtins.int: m_int, builtins.float: m_float, builtins.len: m_len,
    builtins.isinstance: m_isinstance, builtins.type: m_type, builtins.bool: m_bool, builtins.repr: to_repr,
    builtins.round: m_round, builtins.bytes: m_bytes, builtins.ord: m_ord, builtins.range: m_range,
    builtins.sum: m_sum, builtins.dict: m_dict, builtins.hash: m_hash, builtins.any: m_any,
    _copy.copy: m_copy, _copy.deepcopy: m_deepcopy, builtins.print: m_print, builtins.set: m_set,
    builtins.int.from_bytes: blob.from_bytes, builtins.int.to_bytes: blob.to_bytes, hmac.compare_digest: blob.compare_digest,
    builtins.map: m_map, builtins.filter: m_filter, builtins.sorted: m_sorted, builtins.min: _minmax(builtins.min), builtins.max: _minmax(builtins.max),
    functools.reduce: m_reduce, collections.defaultdict: m_defaultdict, collections.OrderedDict: m_ordereddict,
    operator.contains: lambda c, x: contains(c, x), operator.mod: lambda a, b: mod(a, b),
    builtins.getattr: m_getattr, builtins.dir: lambda *a: builtins.dir(pytype(a[0])) if a and is_sym(a[0]) else builtins.dir(*a),
}
OKNATIVE = {
    builtins.sorted, builtins.min, builtins.max, builtins.all, builtins.zip, builtins.enumerate, builtins.filter,
    builtins.map, builtins.reversed, builtins.iter, builtins.next, builtins.list, builtins.tuple, builtins.setattr,
    builtins.hasattr, builtins.id, builtins.callable, builtins.abs, builtins.issubclass, builtins.delattr,
    heapq.heappush, heapq.heappop, heapq.heapify, functools.partial, functools.reduce, collections.deque,
    collections.OrderedDict, builtins.object, builtins.divmod, builtins.frozenset,
    object.__init__, object.__setattr__, object.__new__, builtins.property,
}
OKTYPES = (list, tuple, dict, set, collections.deque, frozenset)


def _native_key(f):
    try:
        builtins.hash(f)
    except TypeError:
        return None
    return f


_builtin_types = (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType,
                  types.MethodWrapperType, types.ClassMethodDescriptorType)


def call(f, *a, **k):
    c = sym.CTX
    if c is not None and c.dead is not None:
        raise c.dead
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        fn = f if tf is types.FunctionType else f.__func__
        g = getattr(fn, '__globals__', None)
        if g is None or NAME in g or (g.get('__name__') or '').startswith('pyvc'):
            return f(*a, **k)
        m = PYMODELS.get((fn.__module__, fn.__qualname__))
        if m is not None:
            return m(*a, **k) if tf is types.FunctionType else m(f.__self__, *a, **k)
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            if fn.__module__ in PYOK or (isinstance(getattr(f, '__self__', None), threadish)):
                return f(*a, **k)
            raise Undecided('library function %s.%s on symbolic arguments' % (fn.__module__, fn.__qualname__))
        return f(*a, **k)
    if tf is functools.partial:
        return call(f.func, *(f.args + a), **{**f.keywords, **k})
    if tf in _builtin_types or isinstance(f, type):
        kf = _native_key(f)
        m = MODELS.get(kf) if kf is not None else None
        if m is not None:
            return m(*a, **k)
        if tf in _builtin_types:
            return native_method(f, a, k)
        # a class
        if issubclass(f, builtins.str) and len(a) == 1 and not k and isinstance(a[0], SStr) and f.__init__ is builtins.str.__init__ \
           and f.__new__ is builtins.str.__new__:
            return str_subclass(f)(a[0].parts)
        if f.__module__.startswith(('sippy', 'contracts')) or kf in OKNATIVE:
            return f(*a, **k)
        if issubclass(f, BaseException) or issubclass(f, SYM_OWN) or f.__module__ in ('itertools', 'operator') or (issubclass(f, tuple) and hasattr(f, '_fields')):
            return f(*a, **k)
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            if f.__init__ is not object.__init__ and isinstance(f.__init__, types.FunctionType):
                return f(*a, **k)
            if f in (builtins.bytearray, builtins.memoryview, complex):
                raise Undecided('native class %r on symbolic arguments' % (f,))
            mm = MODELS.get(getattr(f, '__name__', None))
            raise Undecided('native class %r on symbolic arguments' % (f,))
        return f(*a, **k)
    return f(*a, **k)


SYM_OWN = (sym.SDict, sym.SSet)
_strsubs = {}


def str_subclass(f):
    """a symbolic string with the methods of the str subclass f"""
    r = _strsubs.get(f)
    if r is None:
        ns = {}
        for c in reversed(f.__mro__[:f.__mro__.index(builtins.str)]):
            for n, x in vars(c).items():
                if isinstance(x, (types.FunctionType, classmethod, staticmethod, property)) or not n.startswith('__'):
                    ns[n] = x
        r = _strsubs[f] = builtins.type('S_' + f.__name__, (SStr,), dict(ns, __slots__=('__dict__',)))
    return r


NAME = '_pyvc_'
PYOK = {'threading', 'functools', 'collections', 'heapq', 'copy', 'contextlib', 'queue'}
import threading as _threading
threadish = (_threading.Thread,)
ALWAYS_SAFE = frozenset(map(ord, 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~'))


def m_quote(s, safe='/', encoding=None, errors=None):
    import urllib.parse as u
    if isinstance(s, str):
        return u.quote(s, safe)
    if isinstance(s, SBytes):
        s = s.s
    if not isinstance(s, SStr):
        return u.quote(s, safe)
    ok = ALWAYS_SAFE | {ord(c) for c in safe}
    out = []
    for x in s.norm():
        if isinstance(x, str):
            out.append(u.quote(x, safe))
        elif sym.acs(x).s <= ok and not sym.acs(x).hi:
            out.append(x)
        else:
            out.append(UFAtom('quote', [mkstr([x]), safe], CharSet((sym.acs(x).s & ok) | frozenset(map(ord, '%0123456789ABCDEF'))), x.minlen))
    return mkstr(out)


def m_unquote(s, encoding='utf-8', errors='replace'):
    import urllib.parse as u
    if isinstance(s, str):
        return u.unquote(s)
    out = []
    for x in s.norm():
        if isinstance(x, str):
            out.append(u.unquote(x))
        elif x.kind == 'uf' and x.fn == 'quote':
            out += parts_of(x.args[0])
        elif not sym.acs(x).has('%'):
            out.append(x)
        elif x.kind == 'var' and not ctx().branch(z3.Bool('haspct!' + x.name)):
            ctx().excl.setdefault(x.name, set()).add('%')
            if x.name in ctx().atom_z:
                ctx().add(z3.Not(z3.Contains(ctx().atom_z[x.name], z3.StringVal('%'))))
            out.append(x)
        else:
            out.append(UFAtom('unquote', [mkstr([x])], sym.ANY, 0, None, False))
    return mkstr(out)


# random values: one fixed pseudo-random sequence per path, so that re-execution is
# deterministic (listed among the assumptions)
class Rng:
    n = 0

    @classmethod
    def reset(cls):
        import random
        cls.n = 0
        random.seed(20261119)

    @classmethod
    def bytes(cls, n):
        import hashlib
        cls.n += 1
        return hashlib.shake_128(b'pyvc%d' % cls.n).digest(n)


def m_token_bytes(nbytes=None):
    return Rng.bytes(32 if nbytes is None else nbytes)


def m_token_hex(nbytes=None):
    return m_token_bytes(nbytes).hex()


def m_randbelow(n):
    return builtins.int.from_bytes(Rng.bytes(16), 'big') % n


PYMODELS = {
    ('hashlib', '__hash_new'): m_hash_new,
    ('base64', 'b64encode'): blob.b64encode,
    ('base64', 'b64decode'): blob.b64decode,
    ('hmac', 'new'): blob.hmac_new,
    ('Crypto.Cipher.AES', 'new'): blob.aes_new,
    ('Crypto.Cipher._mode_ecb', 'EcbMode.encrypt'): blob.ecb_encrypt,
    ('Crypto.Cipher._mode_ecb', 'EcbMode.decrypt'): blob.ecb_decrypt,
    ('secrets', 'token_bytes'): m_token_bytes,
    ('secrets', 'token_hex'): m_token_hex,
    ('secrets', 'randbelow'): m_randbelow,
    ('urllib.parse', 'quote'): m_quote,
    ('urllib.parse', 'unquote'): m_unquote,
}


def native_method(f, a, k):
    s = getattr(f, '__self__', None)
    if (getattr(f, '__module__', '') or '') in ('_hashlib', '_md5', '_sha2', '_sha1') and sym.CTX is not None:
        alg = f.__name__.replace('openssl_', '')
        if alg in HLEN:
            return SHash(alg, *a)
    if isinstance(s, (str, bytes)):
        if f.__name__ == 'join' and a:
            a = (builtins.list(a[0]),)
        if not (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
            return f(*a, **k)
        return str_method(s, f.__name__, a, k)
    if not (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
        if isinstance(f, types.MethodDescriptorType) and a and is_sym(a[0]):
            pass
        else:
            return f(*a, **k)
    if f in OKNATIVE or isinstance(s, OKTYPES) or isinstance(s, SHash):
        return f(*a, **k)
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        oc = getattr(f, '__objclass__', None)
        if oc in (list, dict, set, object, tuple, BaseException, Exception) or (isinstance(oc, type) and issubclass(oc, BaseException)):
            return f(*a, **k)
        if oc is str and a and isinstance(a[0], SStr):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if oc is str and a and isinstance(a[0], str):
            return str_method(a[0], f.__name__, a[1:], k)
    n = getattr(f, '__name__', '')
    if (getattr(f, '__module__', '') or '') in ('_operator', 'itertools'):
        return f(*a, **k)
    if isinstance(s, type) or isinstance(s, BaseException):
        return f(*a, **k)
    if s is not None and not isinstance(s, types.ModuleType) and n in ('__init__', '__new__', '__setattr__', '__getattribute__',
                                                                      '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__init_subclass__'):
        return f(*a, **k)
    raise Undecided('native call %r with symbolic arguments' % (f,))


def str_method(s, n, a, k):
    if isinstance(s, bytes):
        if n == 'join':
            xs = [x if isinstance(x, SBytes) else SBytes(x.decode('latin-1')) for x in a[0]]
            r = sym.SStr(()).join([]) if not xs else _join(s.decode('latin-1'), [x.s for x in xs])
            return SBytes(r)
        raise Undecided('bytes.%s with symbolic arguments' % n)
    if n == 'join':
        return _join(s, a[0])
    if n == 'format':
        return fmt(s, a, k)
    if n == 'startswith':
        return sym._startswith(s, a[0])
    if n == 'endswith':
        return sym._endswith(s, a[0])
    if n == '__eq__':
        return s == a[0]
    if n == '__add__':
        return s + a[0]
    if n in ('find', 'index', 'split', 'count', 'partition', 'replace', 'strip', 'lstrip', 'rstrip') and is_sym(a[0]):
        if n == 'replace' and isinstance(a[0], str):
            return sym.SStr([s]).replace(*a)
        if n in ('find',):
            # literal haystack, symbolic needle: fork over the substrings it can equal
            raise Undecided('str.%s with a symbolic needle' % n)
        raise Undecided('str.%s with symbolic arguments' % n)
    if n == 'replace':
        return sym.SStr([s]).replace(*a)
    if n in ('__getitem__',):
        return s[a[0]]
    raise Undecided('str.%s with symbolic arguments' % n)


def _join(s, xs):
    out = []
    for i, x in enumerate(xs):
        if i and s:
            out.append(s)
        if not isinstance(x, (str, SStr)):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, pytype(x).__name__))
        out += parts_of(x)
    return mkstr(out)


def contains(c, x):
    if isinstance(c, SStr):
        if not isinstance(x, (str, SStr)):
            raise TypeError("'in <string>' requires string as left operand")
        return c.find(x) is not None and _found(c, x)
    if isinstance(c, str) and is_sym(x):
        if not isinstance(x, SStr):
            raise TypeError("'in <string>' requires string as left operand, not %s" % pytype(x).__name__)
        if len(c) <= 24:
            subs = dict.fromkeys(c[i:j] for i in builtins.range(len(c) + 1) for j in builtins.range(i, len(c) + 1))
            r = False
            for y in subs:
                r = sor(r, x == y)
            return r
        return mkbool(z3.Contains(z3.StringVal(c), x.z()))
    if isinstance(c, SDict):
        return c.__contains__(x)
    if isinstance(c, SBytes):
        return contains(c.s, x.decode('latin-1') if isinstance(x, bytes) else x.s)
    if isinstance(c, (list, tuple, set, frozenset, collections.deque, dict)) or type(c) in (type({}.keys()), type({}.values())):
        if type(c) in (list, tuple, set, frozenset, collections.deque) or isinstance(c, (dict,)) or True:
            if is_sym(x) or has_sym(x) or (isinstance(c, (list, tuple, collections.deque)) and has_sym(c, 1)):
                r = False
                for y in builtins.list(c):
                    if y is x:
                        return True
                    e = (y == x)
                    if e is NotImplemented:
                        e = False
                    r = sor(r, e)
                    if r is True:
                        return True
                return r
        return x in c
    f = _user(type(c), '__contains__')
    if f is not None:
        return f(c, x)
    return x in c


def _found(c, x):
    r = c.find(x)
    return not (isinstance(r, int) and r == -1)


def mod(a, b):
    if isinstance(a, str):
        if isinstance(b, tuple):
            args = b
        else:
            args = (b,)
        if isinstance(b, dict):
            if any(has_sym(v) or _user(type(v), '__str__') for v in b.values()):
                return pct(a, b)
            return a % b
        if any(has_sym(v) or (not isinstance(v, (str, int, float, bytes)) and v is not None) for v in args):
            return pct(a, args)
        return a % b
    if isinstance(a, SStr):
        raise Undecided('symbolic format string')
    return a % b


def pct(f, args):
    import re
    out = []
    i = 0
    pos = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\d+))?([a-zA-Z%])', f):
        out.append(f[pos:m.start()])
        pos = m.end()
        if m.group(5) == '%':
            out.append('%')
            continue
        if m.group(1):
            v = args[m.group(1)]
        else:
            if i >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[i]
            i += 1
        conv = m.group(5)
        if not is_sym(v) and not (conv in 'sr' and not isinstance(v, (str, int, float))):
            out.append((m.group(0) if not m.group(1) else '%' + m.group(0)[m.group(0).index(')') + 1:]) % (v,))
            continue
        if m.group(4) and int(m.group(4)) <= 4 and conv == 'd' and not m.group(2) and not m.group(3) and is_sym(v):
            # digits padded with zeroes
            v = m_int(v)
            if ctx().branch(v.e < 0) if isinstance(v, SInt) else v < 0:
                raise Undecided('zero padding of a negative number')
            w = int(m.group(4))
            for k in range(1, w):
                if (v < 10 ** k if not isinstance(v, SInt) else ctx().branch(v.e < 10 ** k)):
                    out.append('0' * (w - k))
                    break
            out += parts_of(to_str(v))
            continue
        if m.group(2) or m.group(3) or m.group(4):
            if is_sym(v):
                out.append(UFAtom('fmt' + m.group(0), [v], sym.TEXT, 1))
                continue
            raise Undecided('format %r of an object' % m.group(0))
        if conv == 's':
            out += parts_of(to_str(v))
        elif conv == 'r':
            out += parts_of(to_repr(v))
        elif conv in 'di':
            if isinstance(v, SReal):
                v = m_int(v)
            elif not isinstance(v, (SInt, SBool)):
                raise TypeError('%%%s format: a real number is required' % conv)
            out += parts_of(to_str(m_int(v)))
        else:
            out.append(UFAtom('fmt' + m.group(0), [v], sym.TEXT, 1))
    out.append(f[pos:])
    if not isinstance(args, dict) and i < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return mkstr(out)


def fstr(parts):
    out = []
    for x in parts:
        if isinstance(x, str):
            out.append(x)
            continue
        v, conv, spec = x
        out += parts_of(fmt1(v, conv, spec))
    return mkstr(out)


def fmt1(v, conv, spec):
    if conv == 114:
        v = to_repr(v)
    elif conv == 115:
        v = to_str(v)
    if spec == '' or spec is None:
        if is_sym(v) or _user(type(v), '__format__') is None:
            return to_str(v)
        return builtins.format(v, '')
    if is_sym(v):
        if spec == 'd' and isinstance(v, SInt):
            return to_str(v)
        if _re.match(r'^0?\d*(\.\d+)?[a-zA-Z]$', spec):
            return pct('%' + spec, (v,))
        return mkstr([UFAtom('fmt' + spec, [v], sym.TEXT, 1)])
    return builtins.format(v, spec)


def fmt(s, a, k):
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        import re
        m = re.match(r'^([^.\[]*)(.*)$', field)
        nm, rest = m.group(1), m.group(2)
        if nm == '':
            v = a[auto]
            auto += 1
        elif nm.isdigit():
            v = a[int(nm)]
        else:
            v = k[nm]
        while rest:
            m = re.match(r'^\.(\w+)(.*)$', rest)
            if m:
                v = getattr(v, m.group(1))
            else:
                m = re.match(r'^\[(\w+)\](.*)$', rest)
                kk = m.group(1)
                v = v[int(kk) if kk.isdigit() else kk]
            rest = m.group(2)
        out += parts_of(fmt1(v, {'r': 114, 's': 115}.get(conv, -1), spec))
    return mkstr(out)
