"""Symbolic values and the per-path state of the verification-condition generator.

A *path* is one execution of a contract on symbolic inputs.  Every branch whose
condition is symbolic goes through Path.branch(), which asks z3 which sides are
feasible and schedules both.  Strings are ropes: sequences of literals and atoms
(an atom is a string of unknown, unbounded length over a stated alphabet).
"""
import array
import itertools
import z3


class EngineControl(BaseException):
    pass


class Undecided(EngineControl):
    """the engine cannot interpret something exactly; never a verdict"""


class PathEnd(EngineControl):
    """this path is over (assumption false, cut point)"""


class Infeasible(PathEnd):
    pass


CTX = None  # current Path


def ctx():
    if CTX is None:
        raise Undecided('symbolic value used outside a path')
    if CTX.dead is not None:
        raise CTX.dead
    return CTX


# --------------------------------------------------------------------- charset
ASCII = frozenset(range(1, 128))
PRINT = frozenset(range(33, 127))


class CharSet:
    __slots__ = ('s', 'hi', '_re')

    def __init__(self, s, hi=False):
        self.s = frozenset(s)
        self.hi = hi
        self._re = None

    @classmethod
    def of(cls, chars):
        return cls({ord(c) for c in chars if ord(c) < 128}, any(ord(c) > 127 for c in chars))

    def has(self, c):
        o = ord(c)
        return (o in self.s) if o < 128 else self.hi

    def minus(self, chars):
        return CharSet(self.s - {ord(c) for c in chars}, self.hi)

    def disjoint(self, chars):
        return not any(self.has(c) for c in chars)

    def only(self, other):
        return self.s <= other.s and (other.hi or not self.hi)

    def regex(self):
        if self._re is None:
            rs = []
            codes = sorted(self.s)
            i = 0
            while i < len(codes):
                j = i
                while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
                    j += 1
                rs.append(z3.Range(z3.Unit(z3.CharVal(codes[i])), z3.Unit(z3.CharVal(codes[j])))
                          if False else z3.Range(chr(codes[i]), chr(codes[j])))
                i = j + 1
            if self.hi:
                rs.append(z3.Range('\u0080', '\uffff'))
            if not rs:
                self._re = z3.Re('')
            else:
                self._re = z3.Star(rs[0] if len(rs) == 1 else z3.Union(*rs))
        return self._re


WS = ' \t\r\n\x0b\x0c\x1c\x1d\x1e\x1f'
TOKEN = CharSet.of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-.!%*_+`'~")
ALNUM = CharSet.of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789")
HEX = CharSet.of('0123456789abcdef')
DIGITS = CharSet.of('0123456789')
TEXT = CharSet(set(range(32, 127)), True)
ANY = CharSet(ASCII, True)


# ----------------------------------------------------------------------- atoms
class Atom:
    """base of everything non-literal in a rope"""
    __slots__ = ('name', 'cs', 'minlen', 'maxlen')
    kind = 'var'

    def __init__(self, name, cs, minlen=0, maxlen=None):
        self.name = name
        self.cs = cs
        self.minlen = minlen
        self.maxlen = maxlen

    def key(self):
        return self.name

    def z(self):
        p = ctx()
        zz = p.atom_z.get(self.name)
        if zz is None:
            zz = z3.String(self.name)
            p.atom_z[self.name] = zz
            p.add(z3.InRe(zz, self.cs.regex()))
            ln = p.alen(self)
            p.add(z3.Length(zz) == ln)
            ex = p.excl.get(self.name, ())
            for n in ex:
                p.add(z3.Not(z3.Contains(zz, z3.StringVal(n))))
        return zz

    def __repr__(self):
        return '<%s>' % self.name


class IntAtom(Atom):
    """decimal rendering of a non-negative integer term"""
    __slots__ = ('e',)
    kind = 'int'

    def __init__(self, e):
        self.e = z3.simplify(e)
        Atom.__init__(self, 'str(%s)' % self.e.sexpr(), DIGITS, 1)

    def z(self):
        ctx().linkint(self)
        return z3.IntToStr(self.e)


class UFAtom(Atom):
    """result of an uninterpreted function of strings (hashes, encoders)"""
    __slots__ = ('fn', 'args', 'inj', '_deps')
    kind = 'uf'

    @property
    def deps(self):
        """names of the atoms it is made of"""
        try:
            return self._deps
        except AttributeError:
            d = set()
            for x in self.args:
                if isinstance(x, SBytes):
                    x = x.s
                if isinstance(x, SStr):
                    for y in x.parts:
                        if isinstance(y, str):
                            continue
                        if y.kind == 'uf':
                            d |= y.deps
                        else:
                            d.add(y.name)
                            b = getattr(y, 'base', None)
                            if b is not None:
                                d.add(b.name)
            self._deps = d
            return d

    def now(self):
        """with what is known now about its arguments"""
        a = [mkstr(x.parts) if isinstance(x, SStr) else (SBytes(mkstr(x.s.parts)) if isinstance(x, SBytes) and isinstance(x.s, SStr) else x)
             for x in self.args]
        r = UFAtom(self.fn, a, self.cs, self.minlen, self.maxlen, self.inj)
        return self if r.name == self.name else r

    def __init__(self, fn, args, cs, minlen=0, maxlen=None, inj=True):
        self.fn = fn
        self.args = tuple(args)
        self.inj = inj
        Atom.__init__(self, '%s(%s)' % (fn, ','.join(_argkey(x) for x in self.args)), cs, minlen, maxlen)

    def z(self):
        p = ctx()
        zz = p.atom_z.get(self.name)
        if zz is None:
            f = z3.Function('uf_' + self.fn, *([_sort(x) for x in self.args] + [z3.StringSort()]))
            zz = f(*[to_z3(x) for x in self.args])
            p.atom_z[self.name] = zz
            p.add(z3.Length(zz) == p.alen(self))
            p.add(z3.InRe(zz, self.cs.regex()))
        return zz


class TransAtom(UFAtom):
    """str.translate of an atom, characters to characters"""
    __slots__ = ('table',)

    def __init__(self, x, table):
        self.table = table
        UFAtom.__init__(self, 'translate', [SStr([x]), ''.join('%c%c' % (a, b) for a, b in sorted(table.items()))],
                        CharSet({table.get(c, c) for c in x.cs.s}, x.cs.hi), x.minlen, x.maxlen, False)


class CharAtom(Atom):
    """first or last character of a non-empty atom, which is left whole"""
    __slots__ = ('base', 'last')
    kind = 'char'

    def __init__(self, base, last):
        self.base = base
        self.last = last
        Atom.__init__(self, '%s[%s]' % (base.name, '-1' if last else '0'), base.cs, 1, 1)

    def z(self):
        p = ctx()
        zz = p.atom_z.get(self.name)
        if zz is None:
            b = self.base.z()
            zz = z3.SubString(b, z3.Length(b) - 1 if self.last else z3.IntVal(0), 1)
            p.atom_z[self.name] = zz
            p.add(z3.Length(zz) == p.alen(self))
        return zz

    def cut(self):
        """make it an atom of its own"""
        p = ctx()
        if self.base.kind == 'var' and self.base.name not in p.subst:
            p.split_at(self.base, z3.simplify(p.alen(self.base) - 1) if self.last else z3.IntVal(1))

    def now(self):
        """what it is after splits of the base, or itself"""
        p = ctx()
        if self.base.name not in p.subst:
            return [self]
        ps = expand(p.subst[self.base.name])
        while ps:
            x = ps[-1 if self.last else 0]
            if isinstance(x, str):
                return [x[-1 if self.last else 0]]
            if x.minlen > 0 or p.branch(p.alen(x) > 0):
                return [x] if x.maxlen == 1 else [CharAtom(x, self.last)]
            ps = ps[:-1] if self.last else ps[1:]
        raise Undecided('character of an empty atom')


class CaseAtom(Atom):
    __slots__ = ('base', 'fn')
    kind = 'case'

    def __init__(self, base, fn):
        self.base = base
        self.fn = fn
        cs = CharSet({ord(getattr(chr(c), fn)()) for c in base.cs.s}, base.cs.hi)
        Atom.__init__(self, '%s(%s)' % (fn, base.name), cs, base.minlen, base.maxlen)

    def z(self):
        p = ctx()
        zz = p.atom_z.get(self.name)
        if zz is None:
            f = z3.Function('uf_' + self.fn, z3.StringSort(), z3.StringSort())
            zz = f(self.base.z())
            p.atom_z[self.name] = zz
            p.add(z3.Length(zz) == p.alen(self.base))
            p.add(z3.InRe(zz, self.cs.regex()))
        return zz


def _argkey(x):
    if isinstance(x, SStr):
        return repr(x.parts)
    if isinstance(x, SNum):
        return x.e.sexpr()
    if isinstance(x, SBytes):
        return 'b' + repr(x.s.parts if isinstance(x.s, SStr) else x.s)
    return repr(x)


def _sort(x):
    if isinstance(x, (SStr, str, SBytes, bytes)):
        return z3.StringSort()
    if isinstance(x, (SInt, int)):
        return z3.IntSort()
    if isinstance(x, (SReal, float)):
        return z3.RealSort()
    raise Undecided('uf argument %r' % type(x))


def to_z3(x):
    if isinstance(x, SStr):
        return x.z()
    if isinstance(x, SBytes):
        return to_z3(x.s)
    if isinstance(x, SNum) or isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return realval(x)
    if isinstance(x, str):
        return z3.StringVal(x)
    if isinstance(x, bytes):
        return z3.StringVal(x.decode('latin-1'))
    raise Undecided('no z3 term for %r' % (type(x),))


def realval(f):
    n, d = float(f).as_integer_ratio()
    return z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n)


# ------------------------------------------------------------------------ bool
class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, boolterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, boolterm(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.e == boolterm(o))
        if isinstance(o, (int, SNum)):
            return _b2i(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Undecided('hash of symbolic bool')

    def __int__(self):
        return 1 if bool(self) else 0

    def __repr__(self):
        return 'SBool(%s)' % self.e


def _b2i(b):
    return SInt(z3.If(b.e, z3.IntVal(1), z3.IntVal(0)))


def boolterm(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if x is None or isinstance(x, (bool, int, str, list, tuple, dict)):
        return z3.BoolVal(bool(x))
    t = truth(x)
    return t.e if isinstance(t, SBool) else z3.BoolVal(bool(t))


def truth(x):
    """truth value as bool or SBool without forking where possible"""
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        return mkbool(x.e != 0)
    if isinstance(x, SStr):
        return x.truth()
    return bool(x)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


# --------------------------------------------------------------------- numbers
class SNum:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        raise Undecided('hash of symbolic number')

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, self.e)

    def __eq__(self, o):
        a = numpair(self, o)
        return mkbool(a[0] == a[1]) if a else False

    def __ne__(self, o):
        a = numpair(self, o)
        return mkbool(a[0] != a[1]) if a else True

    def _cmp(self, o, f):
        a = numpair(self, o)
        if not a:
            return NotImplemented
        return mkbool(f(*a))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def _op(self, o, f):
        a = numpair(self, o)
        if not a:
            return NotImplemented
        return mknum(f(*a))

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._op(o, lambda a, b: b + a)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, SStr)):
            return o * self.__index__()
        if isinstance(o, array.array):
            return SRep(o, self)
        return self._op(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self): return mknum(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mknum(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        a = numpair(self, o)
        if not a:
            return NotImplemented
        return _div(a[0], a[1])

    def __rtruediv__(self, o):
        a = numpair(self, o)
        if not a:
            return NotImplemented
        return _div(a[1], a[0])

    def _posdiv(self, o):
        a = numpair(self, o)
        if not a or a[0].sort() != z3.IntSort():
            raise Undecided('integer division of %r by %r' % (self, o))
        if ctx().branch(a[1] == 0):
            raise ZeroDivisionError('integer modulo by zero')
        if not ctx().branch(a[1] > 0):
            raise Undecided('negative divisor')
        return a

    def __floordiv__(self, o):
        a = numpair(self, o)
        if a and a[0].sort() == z3.RealSort():
            if ctx().branch(a[1] == 0):
                raise ZeroDivisionError('float floor division by zero')
            return mknum(z3.ToReal(z3.ToInt(a[0] / a[1])))
        a = self._posdiv(o)
        return mknum(a[0] / a[1])

    def __mod__(self, o):
        a = numpair(self, o)
        if a and a[0].sort() == z3.RealSort():
            if ctx().branch(a[1] == 0):
                raise ZeroDivisionError('float modulo')
            return mknum(a[0] - a[1] * z3.ToReal(z3.ToInt(a[0] / a[1])))
        a = self._posdiv(o)
        return mknum(a[0] % a[1])

    def __rmod__(self, o):
        return mknum(to_z3(o)).__mod__(self) if isinstance(o, int) else NotImplemented

    def __rfloordiv__(self, o):
        if isinstance(o, int):
            return SInt(z3.IntVal(o)).__floordiv__(self)
        return NotImplemented

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o < 5:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Undecided('symbolic power')

    def __rpow__(self, o):
        return o ** self.__index__()

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __index__(self):
        return ctx().concretize(self.e)

    def __float__(self):
        raise Undecided('native float() of symbolic number')

    def __int__(self):
        raise Undecided('native int() of symbolic number')

    def __round__(self, nd=None):
        raise Undecided('round of symbolic number')

    def __format__(self, spec):
        raise Undecided('native format of symbolic number')

    def __str__(self):
        return repr(self)


def _div(a, b):
    if a.sort() == z3.IntSort():
        a, b = z3.ToReal(a), z3.ToReal(b)
    if ctx().branch(b == 0):
        raise ZeroDivisionError('division by zero')
    return mknum(a / b)


class SInt(SNum):
    __slots__ = ()

    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0 and (o & (o + 1)) == 0:
            return mknum(self.e % (o + 1))
        if isinstance(o, int) and o > 0 and (o & (o - 1)) == 0:
            return mknum(((self.e / o) % 2) * o)
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0:
            from . import blob
            return blob.int_and(self, o)
        if isinstance(o, (int, SInt)):
            return self.__index__() & (o if isinstance(o, int) else o.__index__())
        return NotImplemented
    __rand__ = __and__

    def __xor__(self, o):
        from . import blob
        if isinstance(o, (int, SInt)):
            return blob.int_xor(self, o)
        return NotImplemented
    __rxor__ = __xor__

    def __or__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0:
            from . import blob
            return blob.int_or(self, o)
        if isinstance(o, (int, SInt)):
            return self.__index__() | (o if isinstance(o, int) else o.__index__())
        return NotImplemented
    __ror__ = __or__

    def __lshift__(self, o):
        if isinstance(o, int):
            return mknum(self.e * (1 << o))
        return self * (1 << o.__index__())

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return mknum(self.e / (1 << (o if isinstance(o, int) else o.__index__())))

    def __rrshift__(self, o):
        return o >> self.__index__()


class SReal(SNum):
    __slots__ = ()


def numpair(a, b):
    if isinstance(b, SBool):
        b = _b2i(b)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, SNum):
        ea = a.e
    elif isinstance(a, int):
        ea = z3.IntVal(a)
    elif isinstance(a, float):
        if a != a or a in (float('inf'), float('-inf')):
            raise Undecided('non-finite float')
        ea = realval(a)
    else:
        return None
    if isinstance(b, SNum):
        eb = b.e
    elif isinstance(b, int):
        eb = z3.IntVal(b)
    elif isinstance(b, float):
        if b != b or b in (float('inf'), float('-inf')):
            raise Undecided('non-finite float')
        eb = realval(b)
    else:
        return None
    if ea.sort() != eb.sort():
        if ea.sort() == z3.IntSort():
            ea = z3.ToReal(ea)
        else:
            eb = z3.ToReal(eb)
    return ea, eb


def mknum(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return e.numerator_as_long() / e.denominator_as_long()
    if e.sort() == z3.IntSort():
        return SInt(e)
    return SReal(e)


# --------------------------------------------------------------------- strings
def expand(parts):
    """apply path-local substitutions of atoms; merge literals"""
    p = ctx()
    out = []
    stack = list(reversed(parts))
    while stack:
        x = stack.pop()
        if isinstance(x, str):
            if x:
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + x
                else:
                    out.append(x)
            continue
        if x.kind == 'case':
            sub = p.subst.get(x.base.name)
            if sub is not None:
                stack.extend(reversed([_case_part(y, x.fn) for y in sub]))
                continue
        if x.kind == 'char':
            sub = x.now()
            if sub != [x]:
                stack.extend(reversed(sub))
                continue
        if x.kind == 'uf' and type(x) is UFAtom and p.subst and not x.deps.isdisjoint(p.subst):
            n = x.now()
            if n is not x:
                # the same value under two names
                if x.name in p.atom_z or x.name in p.lens:
                    p.add(x.z() == n.z())
                stack.append(n)
                continue
        sub = p.subst.get(x.name)
        if sub is not None:
            stack.extend(reversed(sub))
            continue
        out.append(x)
    return out


def _case_part(y, fn):
    if isinstance(y, str):
        return getattr(y, fn)()
    if y.kind == 'case':
        return CaseAtom(y.base, fn)
    cs = acs(y)
    if all(getattr(chr(c), fn)() == chr(c) for c in cs.s) and not cs.hi:
        return y
    return CaseAtom(y, fn)


def acs(a):
    """alphabet of an atom, less the characters excluded on this path"""
    if a.kind == 'char':
        return acs(a.base)
    if a.kind == 'case':
        b = acs(a.base)
        if len(b.s) < len(a.base.cs.s):
            return CharSet({ord(getattr(chr(c), a.fn)()) for c in b.s} & a.cs.s, b.hi)
        return a.cs
    cs = a.cs
    ex = ctx().excl.get(a.name)
    if ex:
        cs = cs.minus([c for c in ex if len(c) == 1])
    if cs.hi and a.name in ctx().nohi:
        cs = CharSet(cs.s)
    return cs


def mkstr(parts):
    if all(isinstance(x, str) for x in parts):
        return ''.join(parts)
    out = expand(parts)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)


def parts_of(x):
    if isinstance(x, str):
        return [x] if x else []
    if isinstance(x, SStr):
        return expand(x.parts)
    raise Undecided('not a string: %r' % type(x))


def _nostrip(seq, cc, edge):
    """nothing to strip from this end of seq, whichever of its atoms are empty"""
    for y in seq:
        if isinstance(y, str):
            if y:
                return y[edge] not in cc
        elif not acs(y).disjoint(cc):
            return False
        elif y.minlen > 0:
            return True
    return True


class SStr:
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def norm(self):
        return expand(self.parts)

    def z(self):
        ps = self.norm()
        zs = [z3.StringVal(x) if isinstance(x, str) else x.z() for x in ps]
        if not zs:
            return z3.StringVal('')
        return zs[0] if len(zs) == 1 else z3.Concat(*zs)

    def length(self):
        p = ctx()
        n = z3.IntVal(0)
        for x in self.norm():
            n = n + (len(x) if isinstance(x, str) else p.alen(x))
        return mknum(n)

    def truth(self):
        ps = self.norm()
        if any(isinstance(x, str) or x.minlen > 0 for x in ps):
            return True
        p = ctx()
        return mkbool(z3.Or(*[p.alen(x) > 0 for x in ps]))

    def __bool__(self):
        return bool(self.truth())

    def __hash__(self):
        raise Undecided('hash of symbolic string')

    def __repr__(self):
        return 'SStr%r' % (list(self.parts),)

    __str__ = __repr__

    def __format__(self, spec):
        raise Undecided('native format of symbolic string')

    def __len__(self):
        r = self.length()
        return r if isinstance(r, int) else ctx().concretize(r.e)

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return str_eq(parts_of(self), parts_of(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return mkstr(list(self.parts) + parts_of(o))
        if isinstance(o, EngineStub):
            return NotImplemented
        raise TypeError('can only concatenate str (not "%s") to str' % pytype(o).__name__)

    def __radd__(self, o):
        if isinstance(o, (str, SStr)):
            return mkstr(parts_of(o) + list(self.parts))
        raise TypeError('unsupported operand type(s) for +: %s and str' % pytype(o).__name__)

    def __mul__(self, n):
        return mkstr(list(self.parts) * int(n if isinstance(n, int) else n.__index__()))

    def __mod__(self, o):
        raise Undecided('symbolic format string')

    def _lt(self, o, strict, swap):
        if not isinstance(o, (str, SStr)):
            return NotImplemented
        a, b = to_z3(self), to_z3(o)
        if swap:
            a, b = b, a
        return mkbool((a < b) if strict else (a <= b))

    def __lt__(self, o): return self._lt(o, True, False)
    def __le__(self, o): return self._lt(o, False, False)
    def __gt__(self, o): return self._lt(o, True, True)
    def __ge__(self, o): return self._lt(o, False, True)

    def __contains__(self, n):
        return self.find(n) != -1

    def __iter__(self):
        for x in self.norm():
            if not isinstance(x, str):
                raise Undecided('iteration over the characters of a symbolic string')
        raise Undecided('iteration')

    # -- position handling
    def _bounds(self):
        p = ctx()
        ps = self.norm()
        cum = [z3.IntVal(0)]
        for x in ps:
            cum.append(z3.simplify(cum[-1] + (len(x) if isinstance(x, str) else p.alen(x))))
        return ps, cum

    def _resolve(self, pos, ps, cum):
        """position (int or SInt) -> (part index, offset in literal part)"""
        p = ctx()
        if isinstance(pos, int):
            if pos < 0:
                e = z3.simplify(cum[-1] + pos)
            else:
                e = z3.IntVal(pos)
        else:
            e = pos.e
        neg = isinstance(pos, int) and pos < 0
        for k in range(len(cum)):
            d = z3.simplify(e - cum[k])
            if z3.is_int_value(d):
                c = d.as_long()
                if c == 0:
                    return k, 0
                if c > 0 and k < len(ps) and isinstance(ps[k], str) and c < len(ps[k]):
                    return k, c
        total = cum[-1]
        # beyond either end
        if p.valid(e >= total):
            return len(ps), 0
        if neg and p.valid(e <= 0):
            return 0, 0
        for k in range(len(cum)):
            if p.valid(e == cum[k]):
                return k, 0
        # inside an atom: split it
        for k in range(len(ps)):
            if not isinstance(ps[k], str) and p.valid(z3.And(e > cum[k], e < cum[k + 1])):
                a, b = p.split_at(ps[k], z3.simplify(e - cum[k]))
                return None
        # fork on being out of range
        if p.branch(e >= total):
            return len(ps), 0
        for k in range(len(ps)):
            if p.branch(e == cum[k]):
                return k, 0
            if p.branch(e < cum[k + 1]):
                if isinstance(ps[k], str):
                    c = p.concretize(z3.simplify(e - cum[k]))
                    return k, c
                p.split_at(ps[k], z3.simplify(e - cum[k]))
                return None
        raise Undecided('position %s in %r' % (e, self))

    def _cut(self, pos):
        """split into (parts before pos, parts from pos)"""
        for _ in range(6):
            ps, cum = self._bounds()
            r = self._resolve(pos, ps, cum)
            if r is None:
                continue
            k, off = r
            if off == 0:
                return ps[:k], ps[k:]
            return ps[:k] + [ps[k][:off]], [ps[k][off:]] + ps[k + 1:]
        raise Undecided('cut')

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Undecided('string slice with step')
            s = self
            first = i.start in (None, 0) and isinstance(i.stop, int) and i.stop == 1
            if first or (isinstance(i.start, int) and i.start == -1 and i.stop is None):
                # the first or last character: texts are left whole
                p = ctx()
                ps = self.norm()
                for x in ps if first else reversed(ps):
                    if isinstance(x, str):
                        return x[:1] if first else x[-1:]
                    if x.maxlen == 1 or x.kind != 'var' and not (first and x.kind == 'int'):
                        break
                    if x.minlen > 0 or p.branch(p.alen(x) > 0):
                        return mkstr([CharAtom(x, not first)])
                    p.empty(x)
                else:
                    return ''
            if i.stop is not None:
                # negative symbolic stops are not supported: positions come from find()/len()
                left, _ = s._cut(_symidx(s, i.stop))
                t = mkstr(left)
            else:
                t = s
            if i.start is None or (isinstance(i.start, int) and i.start == 0):
                return t
            st = _symidx(s, i.start)
            if isinstance(t, str):
                if t == '':
                    return ''
                if isinstance(st, int) and st >= 0:
                    return t[st:]
                left, right = s._cut(st)
                n = mkstr(left)
                n = len(n) if isinstance(n, str) else n.length()
                return t[n:] if isinstance(n, int) else t[n.__index__():]
            if i.stop is None:
                _, right = t._cut(st)
                return mkstr(right)
            if isinstance(st, int) and st < 0:
                l = s.length()
                st = l + st
                if isinstance(st, int) and st < 0:
                    st = 0
            _, right = t._cut(st)
            return mkstr(right)
        # single character
        ps, cum = self._bounds()
        p = ctx()
        if isinstance(i, int):
            if i >= 0 and ps and isinstance(ps[0], str) and i < len(ps[0]):
                return ps[0][i]
            if i < 0 and ps and isinstance(ps[-1], str) and -i <= len(ps[-1]):
                return ps[-1][i]
        l = self.length()
        inr = mkbool(z3.And(to_z3(i) < to_z3(l), to_z3(i) >= -to_z3(l)))
        if not inr:
            raise IndexError('string index out of range')
        if not isinstance(i, int) and not p.valid(i.e >= 0):
            if not p.branch(i.e >= 0):
                i = mknum(i.e + to_z3(l))
        ps, cum = self._bounds()
        for k in reversed(range(len(ps))):
            x = ps[k]
            if isinstance(x, str) or x.kind != 'var' or x.maxlen == 1:
                continue
            n = to_z3(i) if not (isinstance(i, int) and i < 0) else cum[-1] + i
            d = z3.simplify(n - cum[k + 1])
            if z3.is_int_value(d) and d.as_long() == -1:
                if x.minlen > 0 or p.branch(p.alen(x) > 0):
                    return mkstr([CharAtom(x, True)])
                break
        _, right = self._cut(i)
        r = mkstr(right)
        if isinstance(r, str):
            return r[0]
        for first in r.norm():
            if isinstance(first, str):
                return first[0]
            if first.minlen > 0 or p.branch(p.alen(first) > 0):
                break
            p.empty(first)
        else:
            raise Undecided('index into %r' % (self,))
        if first.kind == 'int':
            return mkstr([CharAtom(first, False)])
        p.split_at(first, z3.IntVal(1))
        c = expand([first])[0]
        return mkstr([c])

    # -- searching
    def find(self, n, start=None, end=None):
        r = self.locate(n, start, end)
        return -1 if r is None else r

    def locate(self, n, start=None, end=None):
        if end is not None:
            raise Undecided('find with end')
        if not isinstance(n, str):
            n = mkstr(parts_of(n))
        base = 0
        s = self
        if start is not None and not (isinstance(start, int) and start == 0):
            left, right = s._cut(_symidx(s, start))
            base = str_len(mkstr(left))
            s = mkstr(right)
        r = split_first(parts_of(s), n)
        if r is None:
            return None
        return base + str_len(mkstr(r[0]))

    def rfind(self, n, start=None, end=None):
        if start is not None or end is not None:
            raise Undecided('rfind with bounds')
        r = split_last(self.norm(), n)
        return -1 if r is None else str_len(mkstr(r[0]))

    def index(self, n, start=None, end=None):
        r = self.locate(n, start, end)
        if r is None:
            raise ValueError('substring not found')
        return r

    def rindex(self, n):
        r = self.rfind(n)
        if isinstance(r, int) and r == -1:
            raise ValueError('substring not found')
        return r

    def count(self, n):
        c = 0
        ps = self.norm()
        while True:
            r = split_first(ps, n)
            if r is None:
                return c
            c += 1
            ps = r[1]
            if c > 64:
                raise Undecided('count')

    def startswith(self, n, start=None, end=None):
        if end is not None:
            raise Undecided('startswith with end')
        s = self
        if start is not None:
            s = self[start:]
        if isinstance(n, tuple):
            return any(_startswith(s, x) for x in n)
        return _startswith(s, n)

    def endswith(self, n, start=None, end=None):
        if start is not None or end is not None:
            raise Undecided('endswith with bounds')
        if isinstance(n, tuple):
            return any(_endswith(self, x) for x in n)
        return _endswith(self, n)

    def removeprefix(self, n):
        return self[str_len(n):] if self.startswith(n) else self

    def removesuffix(self, n):
        if n == '' or not self.endswith(n):
            return self
        return self[:str_len(self) - str_len(n)]

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return split_ws(self, maxsplit)
        if sep == '':
            raise ValueError('empty separator')
        out = []
        ps = self.norm()
        while maxsplit < 0 or len(out) < maxsplit:
            r = split_first(ps, sep)
            if r is None:
                break
            out.append(mkstr(r[0]))
            ps = expand(r[1])
            if len(out) > ctx().max_pieces:
                raise Undecided('split into too many pieces')
        out.append(mkstr(ps))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Undecided('rsplit on whitespace')
        out = []
        ps = self.norm()
        while len(out) < maxsplit:
            r = split_last(ps, sep)
            if r is None:
                break
            out.insert(0, mkstr(r[1]))
            ps = expand(r[0])
        out.insert(0, mkstr(ps))
        return out

    def partition(self, sep):
        r = split_first(self.norm(), sep)
        if r is None:
            return (self, '', '')
        return (mkstr(r[0]), sep, mkstr(r[1]))

    def rpartition(self, sep):
        r = split_last(self.norm(), sep)
        if r is None:
            return ('', '', self)
        return (mkstr(r[0]), sep, mkstr(r[1]))

    def splitlines(self, keepends=False):
        if keepends:
            raise Undecided('splitlines(keepends)')
        out = []
        ps = self.norm()
        while True:
            best = None
            for x in ps:
                if isinstance(x, str):
                    if any(c in x for c in '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'):
                        break
                elif not acs(x).disjoint('\n\r\x0b\x0c\x1c\x1d\x1e') or acs(x).hi:
                    raise Undecided('splitlines over an atom that may hold a line break')
            else:
                if mkstr(ps) != '' if isinstance(mkstr(ps), str) else True:
                    t = mkstr(ps)
                    if isinstance(t, str) or bool(t):
                        out.append(t)
                return out
            before = []
            for k, x in enumerate(ps):
                if isinstance(x, str):
                    ls = x.splitlines(True)
                    if ls and ls[0] != (ls[0].splitlines() or [''])[0]:
                        before.append(ls[0].splitlines()[0] if ls[0].splitlines() else '')
                        ps = [x[len(ls[0]):]] + list(ps[k + 1:])
                        ps = expand(ps)
                        break
                before.append(x)
            out.append(mkstr(before))
            if not ps:
                return out

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars) if not isinstance(self.lstrip(chars), str) else self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=None):
        cc = WS if chars is None else chars
        ps = self.norm()
        while ps:
            x = ps[0]
            if isinstance(x, str):
                y = x.lstrip(chars)
                if y:
                    return mkstr([y] + ps[1:])
                ps = ps[1:]
                continue
            cs = acs(x)
            if cs.disjoint(cc):
                if x.minlen > 0:
                    return mkstr(ps)
                if _nostrip(ps[1:], cc, 0) or bool(mkbool(ctx().alen(x) > 0)):
                    return mkstr(ps)
                ctx().empty(x)
                ps = ps[1:]
                continue
            if all(chr(c) in cc for c in cs.s) and not cs.hi:
                ps = ps[1:]
                continue
            ps = ctx().strip_atom(x, cc, True) + ps[1:]
            return mkstr(ps)
        return ''

    def rstrip(self, chars=None):
        cc = WS if chars is None else chars
        ps = self.norm()
        while ps:
            x = ps[-1]
            if isinstance(x, str):
                y = x.rstrip(chars)
                if y:
                    return mkstr(ps[:-1] + [y])
                ps = ps[:-1]
                continue
            cs = acs(x)
            if cs.disjoint(cc):
                if x.minlen > 0:
                    return mkstr(ps)
                if _nostrip(ps[-2::-1], cc, -1) or bool(mkbool(ctx().alen(x) > 0)):
                    return mkstr(ps)
                ctx().empty(x)
                ps = ps[:-1]
                continue
            if all(chr(c) in cc for c in cs.s) and not cs.hi:
                ps = ps[:-1]
                continue
            ps = ps[:-1] + ctx().strip_atom(x, cc, False)
            return mkstr(ps)
        return ''

    def replace(self, a, b, count=-1):
        out = []
        ps = self.norm()
        n = 0
        while count < 0 or n < count:
            r = split_first(ps, a)
            if r is None:
                break
            out += r[0]
            out += parts_of(b)
            ps = expand(r[1])
            n += 1
            if n > ctx().max_pieces:
                raise Undecided('replace')
        return mkstr(out + list(ps))

    def _case(self, fn):
        return mkstr([_case_part(x, fn) for x in self.norm()])

    def lower(self): return self._case('lower')
    def upper(self): return self._case('upper')
    def casefold(self): return self._case('lower')

    def capitalize(self):
        ps = self.norm()
        if isinstance(ps[0], str):
            return mkstr([ps[0][:1].upper()] + parts_of(mkstr([ps[0][1:]] + ps[1:]).lower()))
        raise Undecided('capitalize')

    def encode(self, enc='utf-8', errors='strict'):
        return SBytes(self)

    def isdigit(self):
        return self._isclass('isdigit', False)

    isdecimal = isnumeric = isdigit

    def isalnum(self):
        return self._isclass('isalnum', True)

    def isalpha(self):
        return self._isclass('isalpha', True)

    def isspace(self):
        return self._isclass('isspace', False)

    def isascii(self):
        return self._isclass('isascii', False, True)

    def _class_of_whole(self, p, test, table, base):
        """what is known of a piece from what was decided for the text it was split from"""
        for t, tb, whole, res in p.alnum_of:
            if t != test or tb != table:
                continue
            ps = expand((whole,))
            if not any(y is base or (not isinstance(y, str) and y.name == base.name) for y in ps):
                continue
            if res:
                return True
            others = [y for y in ps if isinstance(y, str) or y.name != base.name]
            tn = [y if isinstance(y, str) else (TransAtom(y, table).name if table else y.name) for y in others]
            if all(getattr(str, test)(n.translate(table)) if isinstance(y, str) else p.alnum.get((test, n)) for y, n in zip(others, tn)):
                return False
        return None

    def _isclass(self, test, hi, empty=False):
        """str.isdigit and the like; other than ASCII: may be of the class (hi) or not"""
        ps = self.norm()
        test_ = getattr(str, test)
        if any(isinstance(x, str) and not test_(x) for x in ps):
            return False
        if not empty and not bool(self.truth()):
            return False
        p = ctx()
        for x in ps:
            if isinstance(x, str):
                continue
            base, table = (x.args[0].parts[0], x.table) if isinstance(x, TransAtom) else (x, {})
            cs = acs(base)
            ok = {c for c in cs.s if test_(chr(c).translate(table))}
            if len(ok) == len(cs.s) and not cs.hi:
                continue
            if (test, x.name) in p.alnum:
                if p.alnum[test, x.name]:
                    continue
                return False
            known = self._class_of_whole(p, test, table, base)
            if known is not None:
                b = known
            elif cs.hi and hi:
                b = z3.Bool('%s!%s' % (test, x.name))
            elif ok:
                b = z3.InRe(base.z(), CharSet(ok).regex())
            else:
                b = p.alen(base) == 0
            p.alnum[test, x.name] = p.branch(b) if known is None else known
            if cs.hi and hi:
                p.alnum_of.append((test, table, base, p.alnum[test, x.name]))
            if not p.alnum[test, x.name]:
                if cs.hi and hi:
                    p.add(z3.Not(z3.InRe(base.z(), CharSet(ok).regex())))
                return False
            if cs.hi and hi:
                p.add(z3.InRe(base.z(), CharSet(ok, True).regex()))
            p.excl.setdefault(base.name, set()).update(chr(c) for c in cs.s - ok)
            if cs.hi and not hi:
                p.nohi.add(base.name)
        return True

    def translate(self, table):
        out = []
        for x in self.norm():
            if isinstance(x, str):
                out.append(x.translate(table))
                continue
            cs = acs(x)
            if not cs.hi and not any(c in table for c in cs.s):
                out.append(x)
                continue
            if x.kind not in ('var', 'case', 'int') or any(k > 127 or not isinstance(r, int) or r > 127 for k, r in table.items()):
                raise Undecided('translate')
            out.append(TransAtom(x, table))
        return mkstr(out)

    def join(self, xs):
        xs = list(xs)
        out = []
        for i, x in enumerate(xs):
            if i:
                out += parts_of(self)
            if not isinstance(x, (str, SStr)):
                raise TypeError('sequence item %d: expected str instance' % i)
            out += parts_of(x)
        return mkstr(out)

    def format(self, *a, **k):
        raise Undecided('symbolic format string')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(str, n):
            raise Undecided('str.%s on a symbolic string' % n)
        raise AttributeError("'str' object has no attribute '%s'" % n)


def _symidx(s, pos):
    if isinstance(pos, SInt):
        p = ctx()
        if p.valid(pos.e >= 0):
            return pos
        if p.branch(pos.e >= 0):
            return pos
        n = mknum(pos.e + to_z3(s.length()))
        if isinstance(n, int):
            return max(n, 0)
        if not p.branch(n.e >= 0):
            return 0
        return n
    return pos


def str_len(x):
    return len(x) if isinstance(x, str) else x.length()


def _startswith(s, n):
    if isinstance(s, str) and isinstance(n, str):
        return s.startswith(n)
    a, b = parts_of(s), parts_of(n)
    while b:
        if not a:
            return str_eq([], b)
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            k = min(len(x), len(y))
            if x[:k] != y[:k]:
                return False
            a = ([x[k:]] if x[k:] else []) + a[1:]
            b = ([y[k:]] if y[k:] else []) + b[1:]
            continue
        if not isinstance(x, str) and not isinstance(y, str) and x.name == y.name:
            a, b = a[1:], b[1:]
            continue
        if isinstance(y, str) and not isinstance(x, str):
            if x.minlen > 0 and not acs(x).has(y[0]):
                return False
            if x.minlen == 0 and not acs(x).has(y[0]):
                if bool(mkbool(ctx().alen(x) > 0)):
                    return False
                a = a[1:]
                continue
            cs = acs(x)
            bad = [j for j, c in enumerate(y) if not cs.has(c)]
            if bad and len(y) > 1 and len(b) == 1:
                # the atom ends before the first character it cannot hold
                alts = []
                for k in range(x.minlen, bad[0] + 1):
                    if x.maxlen is not None and k > x.maxlen:
                        break
                    r = _startswith(mkstr(a[1:]), y[k:])
                    if r is False:
                        continue
                    alts.append(sand(str_eq([x], [y[:k]] if k else []), r))
                alts = [q for q in alts if q is not False]
                if not alts:
                    return False
                if any(q is True for q in alts):
                    return True
                return mkbool(z3.Or(*[q.e for q in alts]))
            # single character test: decide on the first character
            if len(y) == 1 and len(b) == 1:
                p = ctx()
                e = z3.PrefixOf(z3.StringVal(y), x.z())
                if x.minlen > 0:
                    return mkbool(e)
            e = z3.PrefixOf(to_z3(mkstr(b)), to_z3(mkstr(a)))
            return mkbool(e)
        return mkbool(z3.PrefixOf(to_z3(mkstr(b)), to_z3(mkstr(a))))
    return True


def _endswith(s, n):
    if isinstance(s, str) and isinstance(n, str):
        return s.endswith(n)
    a, b = parts_of(s), parts_of(n)
    while b:
        if not a:
            return str_eq([], b)
        x, y = a[-1], b[-1]
        if isinstance(x, str) and isinstance(y, str):
            k = min(len(x), len(y))
            if x[-k:] != y[-k:]:
                return False
            a = a[:-1] + ([x[:-k]] if x[:-k] else [])
            b = b[:-1] + ([y[:-k]] if y[:-k] else [])
            continue
        if not isinstance(x, str) and not isinstance(y, str) and x.name == y.name:
            a, b = a[:-1], b[:-1]
            continue
        if isinstance(y, str) and not isinstance(x, str):
            if x.minlen > 0 and not acs(x).has(y[-1]):
                return False
            if x.minlen == 0 and not acs(x).has(y[-1]):
                if bool(mkbool(ctx().alen(x) > 0)):
                    return False
                a = a[:-1]
                continue
        return mkbool(z3.SuffixOf(to_z3(mkstr(b)), to_z3(mkstr(a))))
    return True


def split_first(parts, n):
    """first occurrence of literal n: (before, after) part lists, or None"""
    if not isinstance(n, str):
        return split_first_sym(parts, n)
    if n == '':
        return ([], list(parts))
    p = ctx()
    ps = expand(parts)
    before = []
    i = 0
    while i < len(ps):
        x = ps[i]
        if isinstance(x, str):
            # an occurrence may start here and run into an atom
            k = x.find(n)
            if k >= 0:
                return (before + ([x[:k]] if k else []), ([x[k + len(n):]] if x[k + len(n):] else []) + ps[i + 1:])
            if len(n) > 1 and i + 1 < len(ps):
                for t in range(1, len(n)):
                    if x.endswith(n[:t]) and acs(ps[i + 1]).has(n[t]):
                        nxt = ps[i + 1]
                        e = _startswith(mkstr(ps[i + 1:]), n[t:])
                        if bool(e):
                            raise Undecided('needle %r across a part boundary' % n)
            before.append(x)
            i += 1
            continue
        cs = acs(x)
        if len(n) == 1:
            if not cs.has(n):
                before.append(x)
                i += 1
                continue
        else:
            if not cs.has(n[0]) or n in p.excl.get(x.name, ()):
                before.append(x)
                i += 1
                continue
            if any(not cs.has(c) for c in n[1:]):
                # can only start inside the atom and finish outside
                nxt = ps[i + 1] if i + 1 < len(ps) else None
                if nxt is None:
                    before.append(x)
                    i += 1
                    continue
                hit = False
                for t in range(1, len(n)):
                    if all(cs.has(c) for c in n[:t]):
                        rest = _startswith(mkstr(ps[i + 1:]), n[t:])
                        if rest is False:
                            continue
                        if bool(rest) and bool(_endswith(mkstr([x]), n[:t])):
                            hit = True
                if hit:
                    raise Undecided('needle %r across a part boundary' % n)
                before.append(x)
                i += 1
                continue
        # the atom itself may contain the needle
        r = p.split_on(x, n)
        if r is None:
            if len(n) > 1 and i + 1 < len(ps):
                for t in range(1, len(n)):
                    if all(acs(x).has(c) for c in n[:t]):
                        rest = _startswith(mkstr(ps[i + 1:]), n[t:])
                        if rest is False:
                            continue
                        if bool(rest) and bool(_endswith(mkstr([x]), n[:t])):
                            raise Undecided('needle %r across a part boundary' % n)
            before.append(x)
            i += 1
            continue
        a, b = r
        return (before + [a], [b] + ps[i + 1:])
    return None


def split_first_sym(parts, n):
    """first occurrence of a needle made of literals and atoms. It can only start in a
    literal, as its first character is one that no atom of the haystack can hold; where
    it may start, it is either there part by part, or not there at all"""
    nn, ps = expand(parts_of(n)), expand(parts)
    if not nn or not isinstance(nn[0], str) or any(not isinstance(x, str) and acs(x).has(nn[0][0]) for x in ps):
        raise Undecided('search for a symbolic needle')
    for i, x in enumerate(ps):
        if not isinstance(x, str):
            continue
        k = x.find(nn[0][0])
        while k >= 0:
            rest = [x[k:]] + ps[i + 1:]
            r = _consume(rest, nn)
            if r is not None:
                return (ps[:i] + ([x[:k]] if k else []), r)
            if bool(_startswith(mkstr(rest), mkstr(nn))):
                raise Undecided('symbolic needle across part boundaries')
            k = x.find(nn[0][0], k + 1)
    return None


def _consume(a, b):
    """what follows b in a, when a starts with the very parts of b"""
    a, b = list(a), list(b)
    while b:
        if not a:
            return None
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            k = min(len(x), len(y))
            if x[:k] != y[:k]:
                return None
            a = ([x[k:]] if x[k:] else []) + a[1:]
            b = ([y[k:]] if y[k:] else []) + b[1:]
        elif not isinstance(x, str) and not isinstance(y, str) and x.name == y.name:
            a, b = a[1:], b[1:]
        else:
            return None
    return a


def split_last(parts, n):
    p = ctx()
    ps = expand(parts)
    if len(n) != 1:
        raise Undecided('rfind of a multi-character needle')
    after = []
    for i in range(len(ps) - 1, -1, -1):
        x = ps[i]
        if isinstance(x, str):
            k = x.rfind(n)
            if k >= 0:
                return (ps[:i] + ([x[:k]] if k else []), ([x[k + 1:]] if x[k + 1:] else []) + after)
            after = [x] + after
            continue
        if not acs(x).has(n):
            after = [x] + after
            continue
        r = p.split_on(x, n, last=True)
        if r is None:
            after = [x] + after
            continue
        return (ps[:i] + [r[0]], [r[1]] + after)
    return None


def split_ws(s, maxsplit):
    out = []
    s = s.lstrip()
    while True:
        if isinstance(s, str):
            if s == '':
                return out
            if maxsplit < 0:
                return out + s.split()
            return out + s.split(None, maxsplit - len(out)) if len(out) < maxsplit else out + [s.rstrip()]
        if maxsplit >= 0 and len(out) >= maxsplit:
            return out + [s]
        ps = s.norm()
        before = []
        done = False
        for i, x in enumerate(ps):
            if isinstance(x, str):
                k = next((j for j, c in enumerate(x) if c.isspace()), None)
                if k is None:
                    before.append(x)
                    continue
                before.append(x[:k])
                out.append(mkstr(before))
                s = mkstr([x[k:]] + ps[i + 1:])
                s = s.lstrip()
                done = True
                break
            if not acs(x).disjoint(WS):
                raise Undecided('split() over an atom that may hold white space')
            before.append(x)
        if not done:
            out.append(mkstr(before))
            return out
        if len(out) > ctx().max_pieces:
            raise Undecided('split')


def str_eq(a, b):
    """equality of two part lists, as bool or SBool"""
    a, b = list(a), list(b)
    # common prefix / suffix
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            k = 0
            m = min(len(x), len(y))
            while k < m and x[k] == y[k]:
                k += 1
            if k < m:
                return False
            a = ([x[k:]] if x[k:] else []) + a[1:]
            b = ([y[k:]] if y[k:] else []) + b[1:]
            continue
        if not isinstance(x, str) and not isinstance(y, str) and x.name == y.name:
            a, b = a[1:], b[1:]
            continue
        break
    while a and b:
        x, y = a[-1], b[-1]
        if isinstance(x, str) and isinstance(y, str):
            k = 0
            m = min(len(x), len(y))
            while k < m and x[-1 - k] == y[-1 - k]:
                k += 1
            if k < m:
                return False
            a = a[:-1] + ([x[:len(x) - k]] if x[:len(x) - k] else [])
            b = b[:-1] + ([y[:len(y) - k]] if y[:len(y) - k] else [])
            continue
        if not isinstance(x, str) and not isinstance(y, str) and x.name == y.name:
            a, b = a[:-1], b[:-1]
            continue
        break
    if not a and not b:
        return True
    p = ctx()
    if not a or not b:
        r = a or b
        if any(isinstance(x, str) or x.minlen > 0 for x in r):
            return False
        return mkbool(z3.And(*[p.alen(x) == 0 for x in r]))
    for u, w in ((a, b), (b, a)):
        if len(u) == 1 and not isinstance(u[0], str) and u[0].kind == 'char' and len(w) == 1 and isinstance(w[0], str):
            if len(w[0]) != 1 or not acs(u[0]).has(w[0]):
                return False
            u[0].cut()
            n = expand(u)
            if len(n) == 1 and n[0] is u[0] or (len(n) == 1 and not isinstance(n[0], str) and n[0].name == u[0].name):
                base = u[0].base
                if base.kind == 'int' and not u[0].last and w[0] == '0':
                    return mkbool(base.e == 0)
                return mkbool(u[0].z() == z3.StringVal(w[0]))
            return str_eq(n, expand(w))
    # first / last character conflicts
    for u, w in ((a, b), (b, a)):
        if isinstance(u[0], str) and not isinstance(w[0], str) and w[0].minlen > 0 and not acs(w[0]).has(u[0][0]):
            return False
        if isinstance(u[-1], str) and not isinstance(w[-1], str) and w[-1].minlen > 0 and not acs(w[-1]).has(u[-1][-1]):
            return False
    if len(a) == 1 and len(b) == 1:
        x, y = a[0], b[0]
        if isinstance(y, str):
            x, y = y, x
        if isinstance(x, str):
            return atom_lit_eq(y, x)
        return atom_atom_eq(x, y)
    # split on a delimiter every preceding atom excludes
    lits = [c for r in (a, b) for x in r if isinstance(x, str) for c in x]
    for d in dict.fromkeys(lits):
        ra, rb = _det_split(a, d), _det_split(b, d)
        if ra is False or rb is False:
            continue
        if ra is None and rb is None:
            continue
        if ra is None or rb is None:
            return False
        e1 = str_eq(ra[0], rb[0])
        if e1 is False:
            return False
        e2 = str_eq(ra[1], rb[1])
        return sand(e1, e2)
    return mkbool(to_z3(mkstr(a)) == to_z3(mkstr(b)))


def _det_split(ps, d):
    """(before, after) first d; None when certainly absent; False when unknown"""
    for i, x in enumerate(ps):
        if isinstance(x, str):
            k = x.find(d)
            if k >= 0:
                return (ps[:i] + ([x[:k]] if k else []), ([x[k + 1:]] if x[k + 1:] else []) + ps[i + 1:])
        elif acs(x).has(d):
            return False
    return None


def sand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return mkbool(z3.And(boolterm(a), boolterm(b)))


def sor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return mkbool(z3.Or(boolterm(a), boolterm(b)))


def atom_lit_eq(x, lit):
    cs = acs(x)
    if any(not cs.has(c) for c in lit) or len(lit) < x.minlen or (x.maxlen is not None and len(lit) > x.maxlen):
        return False
    if any(len(n) > 1 and n in lit for n in ctx().excl.get(x.name, ())):
        return False
    if x.kind == 'int':
        if not lit.isdigit() or str(int(lit)) != lit:
            return False
        return mkbool(x.e == int(lit))
    if x.kind == 'case':
        if getattr(lit, x.fn)() != lit:
            return False
        b = x.base
        if b.kind in ('var',):
            alts = set()
            cased = [c for c in lit if c.lower() != c.upper()]
            if len(cased) > 40 or any(ord(c) > 127 for c in lit):
                return mkbool(x.z() == z3.StringVal(lit))
            rs = []
            for c in lit:
                opts = [o for o in {c, c.lower(), c.upper()} if len(o) == 1 and getattr(o, x.fn)() == c and b.cs.has(o)]
                if not opts:
                    return False
                rs.append(z3.Re(opts[0]) if len(opts) == 1 else z3.Union(*[z3.Re(o) for o in sorted(opts)]))
            if not rs:
                return mkbool(ctx().alen(b) == 0)
            return mkbool(z3.InRe(b.z(), rs[0] if len(rs) == 1 else z3.Concat(*rs)))
        return mkbool(x.z() == z3.StringVal(lit))
    if lit == '':
        return mkbool(ctx().alen(x) == 0)
    return mkbool(x.z() == z3.StringVal(lit))


def atom_atom_eq(x, y):
    if x.kind == 'int' and y.kind == 'int':
        return mkbool(x.e == y.e)
    if x.kind == 'uf' and y.kind == 'uf' and x.fn == y.fn and x.inj and y.inj and len(x.args) == len(y.args):
        r = True
        for p, q in zip(x.args, y.args):
            r = sand(r, p == q)
        return r
    cx, cy = acs(x), acs(y)
    if not (cx.s & cy.s) and not (cx.hi and cy.hi) and (x.minlen > 0 or y.minlen > 0):
        return False
    if y.name < x.name:
        x, y = y, x
    return mkbool(x.z() == y.z())


# ----------------------------------------------------------------------- bytes
class SBytes:
    """utf-8 encoding of a (possibly symbolic) string"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def decode(self, enc='utf-8', errors='strict'):
        return self.s

    def __eq__(self, o):
        if isinstance(o, SBytes):
            return self.s == o.s
        if isinstance(o, (bytes, bytearray)):
            try:
                return self.s == bytes(o).decode('utf-8')
            except UnicodeDecodeError:
                return False
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __add__(self, o):
        return SBytes(self.s + (o.s if isinstance(o, SBytes) else bytes(o).decode('utf-8')))

    def __radd__(self, o):
        return SBytes(bytes(o).decode('utf-8') + self.s)

    def __bool__(self):
        return bool(self.s)

    def _st(self, f, chars):
        c = None if chars is None else chars.decode('latin-1')
        if isinstance(self.s, str):
            return getattr(self.s.encode('utf-8'), f)(chars)
        if c is not None and any(ord(x) > 127 for x in c):
            raise Undecided('strip of octets')
        r = getattr(self.s, f)(c if c is not None else ' \t\n\r\x0b\x0c')
        return r.encode() if isinstance(r, str) else SBytes(r)

    def strip(self, chars=None): return self._st('strip', chars)
    def lstrip(self, chars=None): return self._st('lstrip', chars)
    def rstrip(self, chars=None): return self._st('rstrip', chars)

    def length(self):
        if isinstance(self.s, str):
            return len(self.s.encode('utf-8'))
        p = ctx()
        n = z3.IntVal(0)
        for x in self.s.norm():
            if isinstance(x, str):
                n = n + len(x.encode('utf-8'))
            elif acs(x).hi:
                n = n + p.blen(x)
            else:
                n = n + p.alen(x)
        return mknum(n)

    def __hash__(self):
        raise Undecided('hash of symbolic bytes')

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step not in (None, 1):
            raise Undecided('index of symbolic bytes')
        t = self
        if i.stop is not None:
            t = SBytes(t._bcut(i.stop)[0])
        if i.start is not None:
            t = SBytes(t._bcut(i.start)[1])
        return t

    def _bcut(self, n):
        """cut at octet n (non-negative), which must not be inside of a character"""
        if isinstance(n, int) and n < 0:
            raise Undecided('negative slice of symbolic bytes')
        ps = [self.s] if isinstance(self.s, str) else list(self.s.norm())
        done = 0
        left = []
        for k, x in enumerate(ps):
            l = len(x.encode('utf-8')) if isinstance(x, str) else SBytes(mkstr([x])).length()
            if truth(n >= done + l):
                left.append(x)
                done = done + l
                continue
            if isinstance(x, str):
                for c in range(len(x)):
                    w = len(x[:c].encode('utf-8'))
                    if truth(n == done + w):
                        return mkstr(left + [x[:c]]), mkstr([x[c:]] + ps[k + 1:])
                raise Undecided('cut inside of a character')
            if acs(x).hi:
                if truth(n == done):
                    return mkstr(left), mkstr(ps[k:])
                raise Undecided('slice of non-ASCII symbolic bytes')
            a = mkstr([x])
            m = n - done
            return mkstr(left + parts_of(a[:m])), mkstr(parts_of(a[m:]) + ps[k + 1:])
        return self.s, ''

    def __repr__(self):
        return 'SBytes(%r)' % (self.s,)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('startswith', 'endswith', 'find'):
            def f(x, *a):
                return getattr(self.s, n)(x.decode() if isinstance(x, bytes) else x.s, *a)
            return f
        if n in ('strip', 'lstrip', 'rstrip') :
            def g(x=None):
                return SBytes(getattr(self.s, n)(x if x is None else x.decode()))
            return g
        if n == 'split':
            def h(x=None, m=-1):
                return [SBytes(q) for q in self.s.split(x if x is None else x.decode(), m)]
            return h
        if hasattr(bytes, n):
            raise Undecided('bytes.%s on symbolic bytes' % n)
        raise AttributeError(n)


class EngineStub:
    pass


SYM = (SBool, SNum, SInt, SReal, SStr, SBytes)


def add_sym(cls):
    global SYM
    SYM += (cls,)



def is_sym(x):
    return isinstance(x, SYM)


def has_sym(x, d=3):
    if isinstance(x, SYM):
        return True
    if d and isinstance(x, (tuple, list, set, frozenset)):
        return any(has_sym(y, d - 1) for y in x)
    if d and isinstance(x, dict):
        if isinstance(x, SDict) and x.nsym:
            return True
        return any(has_sym(y, d - 1) for y in dict.values(x))
    return False


def pytype(x):
    if isinstance(x, SStr):
        return str
    if isinstance(x, SInt):
        return int
    if isinstance(x, SReal):
        return float
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SBytes) or type(x).__name__ == 'SBlob':
        return bytes
    if type(x) is SDict:
        return dict
    return type(x)


# ------------------------------------------------------------------------ dict
class SKey:
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


def _uk(k):
    return k.k if type(k) is SKey else k


def keysym(k):
    return isinstance(k, SYM) or (isinstance(k, (tuple, frozenset)) and has_sym(k))


_MISS = object()


class SRep:
    """an array repeated a symbolic number of times"""
    __slots__ = ('base', 'n')

    def __init__(self, base, n):
        self.base = base
        self.n = n

    def __len__(self):
        return (self.n if self.n > 0 else 0) * len(self.base)

    def __getattr__(self, n):
        if not n.startswith('__'):
            raise Undecided('%s of an array of symbolic length' % n)
        raise AttributeError(n)


class SSet(set):
    """set that also accepts symbolic elements; equality of elements forks the path"""
    __slots__ = ('els',)

    def __init__(self, xs=()):
        set.__init__(self)
        self.els = SDict()
        for x in xs:
            self.els[x] = True

    def add(self, x):
        self.els[x] = True

    def discard(self, x):
        self.els.pop(x, None)

    def remove(self, x):
        del self.els[x]

    def pop(self):
        return self.els.popitem()[0]

    def clear(self):
        self.els.clear()

    def update(self, *o):
        for xs in o:
            for x in xs:
                self.els[x] = True

    def copy(self):
        return SSet(self)

    __copy__ = copy

    def union(self, *o):
        r = SSet(self)
        r.update(*o)
        return r

    def intersection(self, *o):
        o = [SSet(x) for x in o]
        return SSet([x for x in self if all(x in y for y in o)])

    def difference(self, *o):
        o = [SSet(x) for x in o]
        return SSet([x for x in self if not any(x in y for y in o)])

    def symmetric_difference(self, o):
        o = SSet(o)
        return SSet([x for x in self if x not in o] + [x for x in o if x not in self])

    def difference_update(self, *o):
        for xs in o:
            for x in list(xs):
                self.discard(x)

    def issubset(self, o):
        o = SSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __contains__(self, x):
        return x in self.els

    def __iter__(self):
        return iter(self.els)

    def __len__(self):
        return len(self.els)

    def __bool__(self):
        return len(self.els) > 0

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _op(name):
        def op(self, o):
            if not isinstance(o, (set, frozenset)):
                return NotImplemented
            return getattr(self, name)(o)
        return op

    def _rop(name):
        def op(self, o):
            if not isinstance(o, (set, frozenset)):
                return NotImplemented
            return getattr(SSet(o), name)(self)
        return op

    def _iop(name):
        def op(self, o):
            if not isinstance(o, (set, frozenset)):
                return NotImplemented
            r = getattr(self, name)(o)
            self.els = r.els
            return self
        return op
    __or__, __and__, __sub__, __xor__ = _op('union'), _op('intersection'), _op('difference'), _op('symmetric_difference')
    __ror__, __rand__, __rsub__, __rxor__ = _rop('union'), _rop('intersection'), _rop('difference'), _rop('symmetric_difference')
    __ior__, __iand__, __isub__, __ixor__ = _iop('union'), _iop('intersection'), _iop('difference'), _iop('symmetric_difference')
    __le__, __ge__ = _op('issubset'), _op('issuperset')
    __hash__ = None

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __repr__(self):
        return '{%s}' % ', '.join(repr(x) for x in self)


class SDict(dict):
    """dict that also accepts symbolic keys; equality of keys forks the path"""
    __slots__ = ('nsym', '__weakref__')

    def __init__(self, *a, **k):
        dict.__init__(self)
        self.nsym = 0
        self.update(*a, **k)

    def _find(self, key):
        """native key under which key is stored, or _MISS"""
        if not self.nsym and not keysym(key):
            return key if dict.__contains__(self, key) else _MISS
        if not keysym(key) and dict.__contains__(self, key):
            return key
        for nk in list(dict.keys(self)):
            k = _uk(nk)
            if not keysym(k) and not keysym(key):
                continue
            if k is key or bool(k == key):
                return nk
        return _MISS

    def __getitem__(self, key):
        nk = self._find(key)
        if nk is _MISS:
            raise KeyError(key)
        return dict.__getitem__(self, nk)

    def __setitem__(self, key, val):
        if not self.nsym and not keysym(key):
            dict.__setitem__(self, key, val)
            return
        nk = self._find(key)
        if nk is _MISS:
            if keysym(key):
                nk = SKey(key)
                self.nsym += 1
            else:
                nk = key
        dict.__setitem__(self, nk, val)

    def __delitem__(self, key):
        nk = self._find(key)
        if nk is _MISS:
            raise KeyError(key)
        if type(nk) is SKey:
            self.nsym -= 1
        dict.__delitem__(self, nk)

    def __contains__(self, key):
        return self._find(key) is not _MISS

    def get(self, key, default=None):
        nk = self._find(key)
        return default if nk is _MISS else dict.__getitem__(self, nk)

    def pop(self, key, *d):
        nk = self._find(key)
        if nk is _MISS:
            if d:
                return d[0]
            raise KeyError(key)
        v = dict.__getitem__(self, nk)
        if type(nk) is SKey:
            self.nsym -= 1
        dict.__delitem__(self, nk)
        return v

    def setdefault(self, key, default=None):
        nk = self._find(key)
        if nk is _MISS:
            self[key] = default
            return default
        return dict.__getitem__(self, nk)

    def update(self, *a, **k):
        if a:
            o = a[0]
            if isinstance(o, SDict):
                for kk, v in o.items():
                    self[kk] = v
            elif isinstance(o, dict):
                for kk in o:
                    self[kk] = o[kk]
            elif hasattr(o, 'keys'):
                for kk in o.keys():
                    self[kk] = o[kk]
            else:
                for kk, v in o:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def keys(self):
        if not self.nsym:
            return dict.keys(self)
        return [_uk(k) for k in dict.keys(self)]

    def items(self):
        if not self.nsym:
            return dict.items(self)
        return [(_uk(k), v) for k, v in dict.items(self)]

    def __iter__(self):
        if not self.nsym:
            return dict.__iter__(self)
        return iter([_uk(k) for k in dict.keys(self)])

    def copy(self):
        return SDict(self)

    def popitem(self):
        k, v = dict.popitem(self)
        if type(k) is SKey:
            self.nsym -= 1
        return _uk(k), v

    def clear(self):
        self.nsym = 0
        dict.clear(self)

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if not self.nsym and not (isinstance(o, SDict) and o.nsym):
            return dict.__eq__(self, o)
        if len(self) != len(o):
            return False
        for k, v in self.items():
            w = o.get(k, _MISS)
            if w is _MISS or not (v == w):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = SDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __reduce__(self):
        return (dict, (dict(self),))

    def __deepcopy__(self, memo):
        import copy as _c
        return SDict([(k, _c.deepcopy(v, memo)) for k, v in self.items()])


# ------------------------------------------------------------------------ path
_VARS = {}
_NOVARS = frozenset()
_STRS = set()


def has_str(vs):
    """some of the symbols are strings"""
    return not _STRS.isdisjoint(vs)


def term_vars(e):
    """names of the uninterpreted symbols of a term"""
    i = e.get_id()
    r = _VARS.get(i)
    if r is not None:
        return r[0]
    if z3.is_var(e) or e.sort_kind() == z3.Z3_RE_SORT:
        vs = _NOVARS
    elif z3.is_quantifier(e):
        vs = term_vars(e.body())
    else:
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            n = d.name()
            vs = frozenset([n])
            if e.sort_kind() == z3.Z3_SEQ_SORT:
                _STRS.add(n)
        else:
            vs = _NOVARS
        for k in range(e.num_args()):
            w = term_vars(e.arg(k))
            if not w <= vs:
                vs = vs | w
    if len(_VARS) > 300000:
        _VARS.clear()
    _VARS[i] = (vs, e)
    return vs


class Comp:
    """constraints that share symbols, with a solver of their own"""
    __slots__ = ('vars', 'cons', 'solver', 'known', 'str')

    def __init__(self, timeout):
        self.vars = set()
        self.cons = []
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout)
        self.known = None
        self.str = False

    def add(self, e):
        self.cons.append(e)
        self.solver.add(e)
        self.known = None


class MultiModel:
    """one model out of the models of independent sets of constraints"""

    def __init__(self, parts):
        self.parts = parts      # [(symbols, model)]

    def eval(self, e, model_completion=True):
        vs = term_vars(e)
        ms = [m for ns, m in self.parts if not ns.isdisjoint(vs)]
        if len(ms) == 1:
            return ms[0].eval(e, model_completion=True)
        if not ms:
            s = z3.Solver()
            s.check()
            return s.model().eval(e, model_completion=True)
        for m in ms[:-1]:
            sub = []
            seen = set()

            def walk(t):
                if t.get_id() in seen:
                    return
                seen.add(t.get_id())
                if z3.is_const(t):
                    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and m[t.decl()] is not None:
                        sub.append((t, m.eval(t, model_completion=True)))
                    return
                for c in t.children():
                    walk(c)
            walk(e)
            e = z3.substitute(e, *sub) if sub else e
        return ms[-1].eval(e, model_completion=True)


class Path:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.trace = []          # decisions taken: (kind, value, nalt)
        self.alnum = {}
        self.alnum_of = []
        self.nohi = set()
        self.comps = {}          # symbol -> Comp
        self.falsum = False
        self.pc = []
        self.atom_z = {}
        self.lens = {}
        self.blens = {}
        self.subst = {}
        self.excl = {}
        self.inputs = {}         # name -> (kind, term)
        self.choices = {}        # name -> python value
        self.dead = None
        self.fresh = itertools.count()
        self.max_pieces = ex.max_pieces
        self.unknown = False
        self.obligs = []
        self.covers = set()
        self.atoms = {}
        self.intvals = {}
        self.floatvals = {}
        self.notes = []

    def add(self, e):
        self.pc.append(e)
        vs = term_vars(e)
        if not vs:
            if not z3.is_true(z3.simplify(e)):
                self.falsum = True
            return
        cs = self.touched(vs)
        if not cs:
            c = Comp(self.ex.timeout_ms)
        else:
            c = self.merge(cs)
        c.add(e)
        c.str = c.str or has_str(vs)
        for n in vs:
            self.comps[n] = c
        c.vars |= vs

    def merge(self, cs):
        if len(cs) == 1:
            return cs[0]
        c = max(cs, key=lambda x: len(x.cons))
        for o in cs:
            if o is not c:
                for t in o.cons:
                    c.add(t)
                for n in o.vars:
                    self.comps[n] = c
                c.vars |= o.vars
                c.str = c.str or o.str
        return c

    def touched(self, vs):
        r = []
        for n in vs:
            c = self.comps.get(n)
            if c is not None and not any(c is x for x in r):
                r.append(c)
        return r

    def allcomps(self):
        r = {}
        for c in self.comps.values():
            r[id(c)] = c
        return list(r.values())

    def _joint(self, e):
        """a solver holding everything e depends on, and whether e is to be given to it"""
        cs = self.touched(term_vars(e))
        if len(cs) == 1:
            return cs[0].solver, cs
        if cs and not any(c.str for c in cs):
            c = self.merge(cs)
            return c.solver, [c]
        s = z3.Solver()
        s.set('timeout', self.ex.timeout_ms)
        for c in cs:
            s.add(*c.cons)
        return s, cs

    def check(self, *extra):
        """satisfiability of the path condition with one more constraint, or (no argument) of
        the path condition; constraints without a symbol in common are solved apart, the path
        condition itself having been found satisfiable when it was extended"""
        self.ex.stats['queries'] += 1
        if self.falsum:
            return z3.unsat
        if extra:
            e = extra[0] if len(extra) == 1 else z3.And(*extra)
            return self._joint(e)[0].check(e)
        res = z3.sat
        for c in self.allcomps():
            if c.known is None:
                c.known = c.solver.check()
            if c.known == z3.unsat:
                return z3.unsat
            if c.known == z3.unknown:
                res = z3.unknown
        return res

    def model(self, extra=None):
        """a model of the path condition (and extra); None if there is none known"""
        if self.falsum:
            return None
        parts = []
        cs = []
        if extra is not None:
            s, cs = self._joint(extra)
            s.push()
            try:
                s.add(extra)
                if s.check() != z3.sat:
                    return None
                ns = set(term_vars(extra))
                for c in cs:
                    ns |= c.vars
                parts.append((ns, s.model()))
            finally:
                s.pop()
        for c in self.allcomps():
            if not any(c is x for x in cs):
                if c.solver.check() != z3.sat:
                    return None
                parts.append((c.vars, c.solver.model()))
        return MultiModel(parts)

    def valid(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.check(z3.Not(e)) == z3.unsat

    # -- decisions
    def _next(self):
        i = len(self.trace)
        return self.prefix[i] if i < len(self.prefix) else None

    def branch(self, e):
        if self.dead is not None:
            raise self.dead
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        d = self._next()
        if d is not None:
            if d[0] != 'b':
                raise self.kill(Undecided('non-deterministic replay of a path'))
            self.trace.append(d)
            if d[2]:
                self.add(e if d[1] else z3.Not(e))
            return d[1]
        rt = self.check(e)
        if rt == z3.unsat:
            self.trace.append(('b', False, False))
            return False
        rf = self.check(z3.Not(e))
        if rf == z3.unsat:
            if rt == z3.unknown:
                self.unknown = True
            self.trace.append(('b', True, False))
            return True
        if rt == z3.unknown or rf == z3.unknown:
            self.unknown = True
        self.ex.push(self.trace + [('b', False, True)])
        self.trace.append(('b', True, True))
        self.add(e)
        if len(self.trace) > self.ex.max_depth:
            raise self.kill(Undecided('path too deep'))
        return True

    def pick(self, n):
        """n-way unconstrained choice"""
        if self.dead is not None:
            raise self.dead
        d = self._next()
        if d is not None:
            if d[0] != 'p':
                raise self.kill(Undecided('non-deterministic replay of a path'))
            self.trace.append(d)
            return d[1]
        for i in range(n - 1, 0, -1):
            self.ex.push(self.trace + [('p', i, True)])
        self.trace.append(('p', 0, True))
        return 0

    def concretize(self, e):
        """fork over the possible values of an integer term"""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if e.sort() != z3.IntSort():
            raise self.kill(Undecided('index from a symbolic real'))
        for _ in range(40):
            d = self._next()
            if d is not None and d[0] == 'c':
                val = d[3]
                self.trace.append(d)
                if d[1]:
                    self.add(e == val)
                    return val
                self.add(e != val)
                continue
            r = self.check()
            if r != z3.sat:
                raise self.kill(Undecided('concretize: %s' % r))
            m = self.model()
            if m is None:
                raise self.kill(Undecided('concretize: no model'))
            val = m.eval(e, model_completion=True).as_long()
            if self.check(e != val) != z3.unsat:
                self.ex.push(self.trace + [('c', False, True, val)])
            self.trace.append(('c', True, True, val))
            self.add(e == val)
            return val
        raise self.kill(Undecided('too many values for an index'))

    def kill(self, exc):
        self.dead = exc
        return exc

    # -- strings
    def alen(self, a):
        l = self.lens.get(a.name)
        if l is None:
            if a.kind == 'case':
                return self.alen(a.base)
            if a.maxlen is not None and a.maxlen == a.minlen:
                l = z3.IntVal(a.minlen)
                self.lens[a.name] = l
                return l
            l = z3.Int('len!' + a.name)
            self.lens[a.name] = l
            self.add(l >= a.minlen)
            if a.maxlen is not None:
                self.add(l <= a.maxlen)
            if a.kind == 'int':
                self.linkint(a)
        return l

    def linkint(self, a):
        if a.name in self.atoms:
            return
        self.atoms[a.name] = a
        l = self.alen(a)
        for k in range(1, 8):
            self.add(z3.Implies(a.e >= 10 ** k, l >= k + 1))
            self.add(z3.Implies(a.e < 10 ** k, l <= k))

    def blen(self, a):
        l = self.blens.get(a.name)
        if l is None:
            l = z3.Int('blen!' + a.name)
            self.blens[a.name] = l
            self.add(l >= self.alen(a))
            self.add(l <= 4 * self.alen(a))
        return l

    def newatom(self, cs, minlen=0, maxlen=None, hint='t'):
        return Atom('%s!%d' % (hint, next(self.fresh)), cs, minlen, maxlen)

    def empty(self, a):
        """atom a has been found to be empty"""
        if a.kind == 'var' and a.name not in self.subst:
            self._link(a, [])

    def _link(self, a, parts):
        """atom a equals the concatenation of parts from now on"""
        self.subst[a.name] = parts
        tot = z3.IntVal(0)
        for x in parts:
            tot = tot + (len(x) if isinstance(x, str) else self.alen(x))
        self.add(self.alen(a) == tot)
        zs = [z3.StringVal(x) if isinstance(x, str) else x.z() for x in parts]
        if a.name in self.blens:
            self.add(self.blens[a.name] == sum((z3.IntVal(len(x.encode('utf-8', 'surrogatepass'))) if isinstance(x, str) else self.blen(x) for x in parts), z3.IntVal(0)))
        if a.name in self.atom_z:
            self.add(self.atom_z[a.name] == (z3.StringVal('') if not zs else zs[0] if len(zs) == 1 else z3.Concat(*zs)))

    def split_on(self, a, n, last=False):
        """does atom a contain literal n?  forks; (left atom, right atom) or None"""
        if a.kind != 'var':
            raise self.kill(Undecided('searching inside %r for %r' % (a, n)))
        if n in self.excl.get(a.name, ()):
            return None
        has = z3.Bool('has!%s!%r' % (a.name, n))
        if a.name in self.atom_z:
            self.add(has == z3.Contains(self.atom_z[a.name], z3.StringVal(n)))
        if a.maxlen is not None and a.maxlen < len(n):
            yes = False
        else:
            yes = self.branch(has)
        if not yes:
            self.excl.setdefault(a.name, set()).add(n)
            if a.name in self.atom_z:
                self.add(z3.Not(z3.Contains(self.atom_z[a.name], z3.StringVal(n))))
            return None
        cs = acs(a)
        l = self.newatom(cs, 0, None, a.name)
        r = self.newatom(cs, 0, None, a.name)
        self.excl.setdefault((r if last else l).name, set()).add(n)
        for q in self.excl.get(a.name, ()):
            if len(q) > 1:
                self.excl.setdefault(l.name, set()).add(q)
                self.excl.setdefault(r.name, set()).add(q)
        self._link(a, [l, n, r])
        return l, r

    def split_at(self, a, off):
        if a.kind != 'var':
            raise self.kill(Undecided('cutting inside %r' % a))
        cs = acs(a)
        c = z3.is_int_value(off) and off.as_long()
        l = self.newatom(cs, c or 0, c or None, a.name)
        r = self.newatom(cs, 0, None, a.name)
        self._link(a, [l, r])
        self.add(self.alen(l) == off)
        return l, r

    def strip_atom(self, a, cc, left):
        """strip characters cc from one side of an atom that may hold them"""
        if a.kind != 'var':
            raise self.kill(Undecided('strip inside %r' % a))
        edge = z3.Bool('edge!%s!%s!%s' % (a.name, cc, left))
        if not self.branch(edge):
            # the atom neither starts nor ends (as asked) with a stripped character
            if a.minlen == 0 and not self.branch(self.alen(a) > 0):
                raise self.kill(Undecided('strip of a possibly empty atom'))
            cs = acs(a)
            h = self.newatom(cs.minus(cc), 1, 1, a.name)
            t = self.newatom(cs, 0, None, a.name)
            self._link(a, [h, t] if left else [t, h])
            return [h, t] if left else [t, h]
        cs = acs(a)
        inter = CharSet({c for c in cs.s if chr(c) in cc})
        w = self.newatom(inter, 1, None, a.name)
        if self.branch(z3.Bool('allws!%s!%s!%s' % (a.name, cc, left))):
            self._link(a, [w])
            return []
        h = self.newatom(cs.minus(cc), 1, 1, a.name)
        t = self.newatom(cs, 0, None, a.name)
        self._link(a, [w, h, t] if left else [t, h, w])
        return [h, t] if left else [t, h]
