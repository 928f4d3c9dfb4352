"""Path explorer: turns a contract over the real code into verification conditions
and discharges them."""
import importlib
import os
import re
import signal
import sys
import time
import traceback

import z3

from . import sym, api, hooks, instrument, blob
from .api import Outcome
from .sym import (Path, PathEnd, Infeasible, Undecided, EngineControl, Atom, IntAtom, SStr, SInt, SReal, SBool, SBytes,
                  CharSet, mkstr, mkbool, boolterm, truth, TOKEN, ALNUM, HEX, DIGITS, TEXT, ANY)

CS = {'token': TOKEN, 'alnum': ALNUM, 'hex': HEX, 'digits': DIGITS, 'text': TEXT, 'any': ANY}


class V:
    """the symbolic value provider handed to contracts"""
    symbolic = True

    def __init__(self, path, tier):
        self.p = path
        self.patches = []
        self.tier = tier

    def int(self, name, lo=None, hi=None):
        p = self.p
        if name in p.inputs:
            return SInt(p.inputs[name][1])
        z = z3.Int(name)
        p.inputs[name] = ('int', z)
        if lo is not None:
            p.add(z >= lo)
        if hi is not None:
            p.add(z <= hi)
        return SInt(z)

    def real(self, name, lo=None, hi=None):
        p = self.p
        if name in p.inputs:
            return SReal(p.inputs[name][1])
        z = z3.Real(name)
        p.inputs[name] = ('real', z)
        if lo is not None:
            p.add(z >= sym.to_z3(float(lo)))
        if hi is not None:
            p.add(z <= sym.to_z3(float(hi)))
        return SReal(z)

    def bool(self, name):
        p = self.p
        if name in p.inputs:
            return SBool(p.inputs[name][1])
        z = z3.Bool(name)
        p.inputs[name] = ('bool', z)
        return SBool(z)

    def flag(self, name):
        p = self.p
        if name in p.choices:
            return bool(p.choices[name])
        r = bool(p.pick(2))
        p.choices[name] = r
        return r

    def choice(self, name, options):
        options = list(options)
        p = self.p
        if name in p.choices:
            return options[p.choices[name]]
        i = p.pick(len(options)) if len(options) > 1 else 0
        p.choices[name] = i
        return options[i]

    def str(self, name, chars='text', min=0, max=None, no=''):
        p = self.p
        if name in p.inputs:
            return mkstr([p.inputs[name][1]])
        cs = CS.get(chars) if isinstance(chars, str) else chars
        if cs is None:
            cs = CharSet.of(chars)
        if no:
            cs = cs.minus(no)
        a = Atom(name, cs, min, max)
        p.inputs[name] = ('str', a)
        return mkstr([a])

    def blob(self, name, n):
        """any n octets"""
        self.p.choices.setdefault(name, 0)
        return blob.SBlob([blob.Chunk('in(%s)' % name, n)])

    def token(self, name, no=''):
        return self.str(name, 'token', 1, None, no)

    def opt(self, name, f):
        return f() if self.flag(name + '?') else None

    def assume(self, cond):
        p = self.p
        t = boolterm(cond)
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise p.kill(Infeasible('assumption'))
        p.add(t)
        if len(p.trace) >= len(p.prefix) and p.check() == z3.unsat:
            raise p.kill(Infeasible('assumption'))

    def ensure(self, name, cond):
        self.p.ex.obligation(self.p, name, cond)

    def cover(self, label):
        self.p.covers.add(label)

    def note(self, text):
        self.p.notes.append(text)

    def call(self, f, *a, **k):
        try:
            r = Outcome(f(*a, **k), None)
        except (Exception, SystemExit, KeyboardInterrupt, GeneratorExit) as e:
            tb = e.__traceback__
            r = Outcome(None, e)
        if self.p.dead is not None:
            raise self.p.dead
        return r

    def patch(self, obj, attr, val):
        if isinstance(obj, str):
            obj = importlib.import_module(obj)
        had = attr in vars(obj) if hasattr(obj, '__dict__') else hasattr(obj, attr)
        old = (vars(obj)[attr] if hasattr(obj, '__dict__') else getattr(obj, attr)) if had else None
        self.patches.append((obj, attr, had, old))
        setattr(obj, attr, val)

    def unpatch(self):
        for obj, attr, had, old in reversed(self.patches):
            if had:
                setattr(obj, attr, old)
            else:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
        self.patches = []

    def and_(self, *xs):
        return mkbool(z3.And(*[boolterm(x) for x in xs]))

    def or_(self, *xs):
        return mkbool(z3.Or(*[boolterm(x) for x in xs]))

    def not_(self, x):
        return mkbool(z3.Not(boolterm(x)))

    def implies(self, a, b):
        return mkbool(z3.Implies(boolterm(a), boolterm(b)))

    def iff(self, a, b):
        return mkbool(boolterm(a) == boolterm(b))

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, (SInt, SReal, int, float)) and isinstance(b, (SInt, SReal, int, float)):
            x, y = sym.numpair(a, b)
            return sym.mknum(z3.If(boolterm(c), x, y))
        return a if c else b

    def eq(self, a, b):
        """structural equality without forking where possible"""
        if a is b:
            return True
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = sym.sand(r, self.eq(x, y))
                if r is False:
                    return False
            return r
        return truth(a == b)

    def close(self, a, b, tol=1e-6):
        if a is None or b is None:
            return False
        return a == b

    def utf8len(self, s):
        return SBytes(s).length() if not isinstance(s, str) else len(s.encode('utf-8'))

    def spec_hash(self, alg, data):
        if isinstance(data, SBytes):
            data = data.s
        elif isinstance(data, bytes):
            data = data.decode('utf-8')
        return hooks.hexhash(alg, data)


class TimeUp(BaseException):
    pass


def _alarm(*a):
    c = sym.CTX
    if c is not None:
        c.dead = Undecided('time limit of one path')
    raise Undecided('time limit of one path')


class Explorer:
    def __init__(self, contract, tier='quick', timeout_ms=20000, max_paths=20000, time_limit=600.0, max_pieces=40,
                 max_depth=3000, path_time=120.0):
        self.c = contract
        o = contract.opts
        self.tier = tier
        self.timeout_ms = o.get('timeout_ms', timeout_ms)
        self.max_paths = o.get('max_paths', max_paths)
        self.time_limit = o.get('time_limit', time_limit)
        self.max_pieces = o.get('max_pieces', max_pieces)
        self.max_depth = max_depth
        self.path_time = o.get('path_time', path_time)
        self.work = [[]]
        self.stats = {'queries': 0}
        self.vcs = {}         # obligation name -> [total, discharged z3, discharged by evaluation]
        self.violations = []
        self.undecided = []
        self.covers = {}
        self.paths = 0
        self.samples = []     # concrete inputs, one per completed path
        self.solver_time = 0.0
        self.infeasible = 0
        self.confirm = None   # called with the violations found so far; true: one of them is real, no need to go on
        self.stopped = False

    def push(self, prefix):
        self.work.append(prefix)

    # -- obligations
    def obligation(self, p, name, cond):
        if p.dead is not None:
            raise p.dead
        rec = self.vcs.setdefault(name, [0, 0, 0])
        rec[0] += 1
        cond = truth(cond)
        if cond is True:
            rec[2] += 1
            return
        if cond is False:
            r = p.check()
            if r == z3.unsat:
                raise p.kill(Infeasible('dead path'))
            if r == z3.unknown:
                self.undecided.append((name, 'solver answered unknown on the path condition'))
                raise p.kill(PathEnd())
            self.violation(p, name, p.model())
            raise p.kill(PathEnd())
        if z3.is_true(z3.simplify(cond.e)):
            rec[2] += 1
            return
        neg = z3.Not(cond.e)
        r = p.check(neg)
        if r == z3.unsat:
            rec[1] += 1
            p.add(cond.e)
            return
        if r == z3.unknown:
            self.undecided.append((name, 'solver answered unknown'))
            p.add(cond.e)
            return
        m = p.model(neg)
        if m is not None:
            self.violation(p, name, m)
        elif p.check() == z3.unsat:
            raise p.kill(Infeasible('dead path'))
        else:
            self.undecided.append((name, 'solver answered unknown on the path condition'))
        p.add(cond.e)
        if p.check() != z3.sat:
            raise p.kill(PathEnd())

    def violation(self, p, name, model):
        if model is None:
            self.undecided.append((name, 'no model'))
            return
        self.violations.append((name, concretize_inputs(p, model), str(p.pc[-6:])[:2000]))
        if len(self.violations) > 400:
            raise p.kill(Undecided('too many violations'))

    def run(self):
        t0 = time.time()
        ask = None
        old = signal.signal(signal.SIGALRM, _alarm)
        try:
            while self.work:
                if self.paths + self.infeasible >= self.max_paths:
                    self.undecided.append(('*', 'path limit %d' % self.max_paths))
                    break
                if time.time() - t0 > self.time_limit:
                    self.undecided.append(('*', 'time limit %ss, %d paths, %d pending' % (self.time_limit, self.paths, len(self.work))))
                    break
                if len(self.undecided) > 60:
                    break
                self.one(self.work.pop())
                if self.violations and self.confirm is not None:
                    if ask is None:
                        ask = time.time() + 15.0
                    elif time.time() > ask:
                        if self.confirm(self.violations):
                            self.stopped = bool(self.work)
                            break
                        ask = time.time() + 60.0
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        self.wall = time.time() - t0
        return self

    def one(self, prefix):
        p = Path(self, prefix)
        sym.CTX = p
        hooks.Rng.reset()
        v = V(p, self.tier)
        so = sys.stdout
        signal.setitimer(signal.ITIMER_REAL, self.path_time)
        status = 'ok'
        try:
            self.c.fn(v)
            if p.dead is not None:
                raise p.dead
        except Infeasible:
            status = 'infeasible'
        except PathEnd:
            status = 'end'
        except Undecided as e:
            status = 'undecided'
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if '/pyvc/' not in f.filename]
            w = where[-1] if where else tb[-1]
            self.undecided.append(('*', '%s [%s:%s]' % (e, os.path.basename(w.filename), w.lineno)))
        except (Exception, SystemExit) as e:
            status = 'exc'
            det = traceback.format_exc(limit=-6)
            if p.dead is not None:
                self.undecided.append(('*', str(p.dead)))
            else:
                rec = self.vcs.setdefault('no-unexpected-exception', [0, 0, 0])
                rec[0] += 1
                r = p.check()
                m = p.model() if r == z3.sat else None
                if m is not None:
                    self.violations.append(('no-unexpected-exception', concretize_inputs(p, m), det))
                elif r != z3.unsat:
                    self.undecided.append(('no-unexpected-exception', det))
                else:
                    status = 'infeasible'
                    rec[2] += 1
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            p.dead = p.dead or PathEnd()
            try:
                v.unpatch()
            finally:
                sym.CTX = None
        if status == 'infeasible':
            self.infeasible += 1
            return
        self.paths += 1
        if status in ('ok', 'end'):
            if status == 'ok':
                rec = self.vcs.setdefault('no-unexpected-exception', [0, 0, 0])
                rec[0] += 1
                rec[2] += 1
            for c in p.covers:
                self.covers[c] = self.covers.get(c, 0) + 1
            if len(self.samples) < 400:
                sym.CTX = p
                d, p.dead = p.dead, None
                try:
                    m = p.model() if p.check() == z3.sat else None
                    if m is not None:
                        self.samples.append((concretize_inputs(p, m), sorted(p.covers)))
                except EngineControl:
                    pass
                finally:
                    p.dead = d
                    sym.CTX = None


# ----------------------------------------------------------- model -> inputs
def zstr(s):
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def _num(m, e):
    x = m.eval(e, model_completion=True)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return x.numerator_as_long() / x.denominator_as_long()
    if z3.is_algebraic_value(x):
        a = x.approx(12)
        return a.numerator_as_long() / a.denominator_as_long()
    return 0


def concretize_inputs(p, m):
    out = {}
    memo = {}
    cnt = [0]

    def atom(a):
        if a.name in memo:
            return memo[a.name]
        r = atom1(a)
        memo[a.name] = r
        return r

    def atom1(a):
        if a.kind == 'int':
            return str(_num(m, a.e))
        if a.kind != 'var':
            raise Undecided('model of a derived atom')
        if a.name in p.subst:
            return ''.join(x if isinstance(x, str) else atom(x) for x in p.subst[a.name])
        iv = p.intvals.get(a.name)
        if iv is not None and z3.is_true(m.eval(iv[0], model_completion=True)):
            n = _num(m, iv[1])
            return ('%x' if iv[2] == 16 else '%d') % n
        if iv is not None and a.cs.only(DIGITS):
            n = _num(m, iv[1])
            s = '%d' % n
            l = p.lens.get(a.name)
            if l is not None:
                s = s.rjust(_num(m, l), '0')
            return s
        fv = p.floatvals.get(a.name)
        if fv is not None and z3.is_true(m.eval(fv[0], model_completion=True)):
            return repr(float(_num(m, fv[1])))
        if a.name in p.atom_z:
            s = m.eval(p.atom_z[a.name], model_completion=True)
            if z3.is_string_value(s):
                return zstr(s.as_string())
        ex = p.excl.get(a.name, ())
        cs = a.cs.minus([c for c in ex if len(c) == 1])
        chars = [c for c in 'abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ' if cs.has(c)]
        if not chars:
            chars = [chr(c) for c in sorted(cs.s)] or ['\u00e9']
        l = p.lens.get(a.name)
        n = _num(m, l) if l is not None else max(a.minlen, 5 if a.maxlen is None else min(5, a.maxlen))
        cnt[0] += 1
        k = cnt[0] + 9
        s = ''
        for _ in range(min(n, 100000)):
            s += chars[k % len(chars)]
            k = k // len(chars)
            if k == 0:
                k = cnt[0] + 3
        if cs.hi and n > 1 and l is not None:
            # a character outside ascii, when byte lengths are at stake
            bl = p.blens.get(a.name)
            if bl is not None:
                nb = _num(m, bl)
                s = _with_bytes(s, n, nb)
        return s

    for name, (kind, t) in p.inputs.items():
        if kind == 'str':
            out[name] = atom(t)
        elif kind == 'bool':
            out[name] = z3.is_true(m.eval(t, model_completion=True))
        else:
            out[name] = _num(m, t)
    out.update(p.choices)
    return out


def _with_bytes(s, n, nb):
    extra = nb - n
    out = list(s)
    i = 0
    while extra > 0 and i < len(out):
        if extra >= 2:
            out[i] = '\u4e2d'
            extra -= 2
        else:
            out[i] = '\u00e9'
            extra -= 1
        i += 1
    return ''.join(out)


def setup(repo='/repo', verif='/verif'):
    sys.dont_write_bytecode = True
    import logging
    instrument.install(repo, verif, hooks)
    sp = '/opt/venv/lib/python3.12/site-packages'
    if sp not in sys.path:
        sys.path.append(sp)
    if verif not in sys.path:
        sys.path.insert(0, verif)


def load(mods):
    for m in mods:
        importlib.import_module('contracts.' + m)
    return api.REGISTRY
