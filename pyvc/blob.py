"""Symbolic octet strings and the ideal cryptography used with them: block ciphers are opaque
and injective with the inverse that belongs to the same key, a message authentication code
that was not computed by the holder of the key does not match, base64 is exact (what the
strict decoder accepts has one encoding)."""
import builtins
import z3
from . import sym
from .sym import ctx, mkstr, mknum, mkbool, SInt, SStr, SBytes, Undecided, Atom, CharSet, parts_of, str_eq, to_z3

B64 = CharSet.of('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')


class Chunk:
    """opaque octets: named by how they came about"""
    __slots__ = ('key', 'n', 'what')

    def __init__(self, key, n, what=None):
        self.key = key
        self.n = n              # length, int or SInt
        self.what = what


class SBlob:
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for x in parts:
            if isinstance(x, (bytes, bytearray)):
                if x:
                    if out and isinstance(out[-1], bytes):
                        out[-1] += bytes(x)
                    else:
                        out.append(bytes(x))
            elif out and not isinstance(out[-1], bytes) and _joins(out[-1], x):
                a = out.pop()
                out.append(_part(a.what[1], a.what[2], x.what[3]))
            elif not (isinstance(x.n, int) and x.n == 0):
                out.append(x)
        self.parts = out

    def now(self):
        """with the decoded texts that have been identified since"""
        known = blobs().known
        out = []
        for x in self.parts:
            if not isinstance(x, bytes) and x.key in known:
                out += SBlob(known[x.key]).now()
            elif not isinstance(x, bytes) and x.what and x.what[0] == 'slice':
                base, a, b = x.what[1:]
                if base.key in known:
                    out += SBlob(known[base.key])._slice(a, b).now()
                else:
                    out.append(x)
            else:
                out.append(x)
        return SBlob(out).parts

    def key(self):
        return '+'.join(x.hex() if isinstance(x, bytes) else x.key for x in self.now())

    def length(self):
        r = 0
        for x in self.now():
            r = r + (len(x) if isinstance(x, bytes) else x.n)
        return r

    def __len__(self):
        r = self.length()
        return r if isinstance(r, int) else r.__index__()

    def __bool__(self):
        return bool(self.length() > 0)

    def __add__(self, o):
        return SBlob(self.parts + blob(o).parts)

    def __radd__(self, o):
        return SBlob(blob(o).parts + self.parts)

    def __eq__(self, o):
        if not isinstance(o, (SBlob, bytes, bytearray)):
            return False
        a, b = self.key(), blob(o).key()
        if a == b:
            return True
        la, lb = self.length(), blob(o).length()
        if isinstance(la, int) and isinstance(lb, int) and la != lb:
            return False
        if _same_parts(self.now(), blob(o).now()):
            return True
        return mkbool(z3.Bool('blobeq!%s!%s' % tuple(sorted((a, b)))))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Undecided('hash of symbolic octets')

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step not in (None, 1):
            raise Undecided('single octet of symbolic octets')
        return self._slice(i.start, i.stop)

    def _slice(self, a, b):
        n = self.length()

        def pos(x, dflt):
            if x is None:
                return dflt
            if isinstance(x, SInt) or isinstance(n, SInt):
                if isinstance(x, int) and x < 0:
                    r = n + x
                    return r if r >= 0 else 0
                if x < 0:
                    raise Undecided('slice of octets')
                return x if x <= n else n
            if x < 0:
                return max(n + x, 0)
            return min(x, n)
        lo, hi = pos(a, 0), pos(b, n)
        if isinstance(lo, int) and isinstance(hi, int) and isinstance(n, int):
            out = []
            at = 0
            for x in self.now():
                l = len(x) if isinstance(x, bytes) else x.n
                s, e = max(lo - at, 0), min(hi - at, l)
                if s < e:
                    if isinstance(x, bytes):
                        out.append(x[s:e])
                    else:
                        out.append(x if (s, e) == (0, l) else Chunk('%s[%d:%d]' % (x.key, s, e), e - s, ('slice', x, s, e)))
                at += l
            return SBlob(out)
        ps = self.now()
        if len(ps) == 1 and not isinstance(ps[0], bytes) and not ps[0].key.startswith('in('):
            x = ps[0]
            k = hi - lo
            if isinstance(k, int) and k <= 0:
                return b''
            return SBlob([Chunk('%s[%s:%s]' % (x.key, a, b), k, ('slice', x, a, b))])
        out = []
        at = 0
        for x in ps:
            l = len(x) if isinstance(x, bytes) else x.n
            s, e = lo - at, hi - at
            s = s if s > 0 else 0
            e = e if e < l else l
            if s < e:
                if isinstance(x, bytes):
                    if not (isinstance(s, int) and isinstance(e, int)):
                        raise Undecided('slice of octets of unknown length')
                    out.append(x[s:e])
                elif s == 0 and e == l:
                    out.append(x)
                else:
                    out.append(_part(x, s, e))
            at = at + l
        return SBlob(out)

    def __getattr__(self, n):
        if not n.startswith('__') and hasattr(bytes, n):
            raise Undecided('bytes.%s of symbolic octets' % n)
        raise AttributeError(n)


def _part(x, s, e):
    """octets s to e of x; parts of parts are parts of the whole"""
    if x.what and x.what[0] == 'slice' and x.key.startswith('in('):
        x, s, e = x.what[1], s + x.what[2], e + x.what[2]
    if _pos(s) == '0' and _pos(e) == _pos(x.n):
        return x
    return Chunk('%s[%s:%s]' % (x.key, _pos(s), _pos(e)), e - s, ('slice', x, s, e))


def _same_parts(a, b):
    """the same octets of the same inputs, cut up differently"""
    p = ctx()

    def view(x):
        if isinstance(x, bytes):
            return (x, 0, len(x))
        if x.what and x.what[0] == 'slice' and x.key.startswith('in('):
            return (x.what[1].key, x.what[2], x.what[3])
        return (x.key, 0, x.n)
    a, b = [view(x) for x in a], [view(x) for x in b]

    def sure(f):
        return f if isinstance(f, bool) else p.valid(f.e if hasattr(f, 'e') else f)
    while a and b:
        (ka, sa, ea), (kb, sb, eb) = a[0], b[0]
        if isinstance(ka, bytes) or isinstance(kb, bytes) or ka != kb or not sure(sa == sb):
            if isinstance(ka, bytes) and isinstance(kb, bytes) and ka[sa:ea] == kb[sb:eb]:
                a.pop(0), b.pop(0)
                continue
            return False
        if sure(ea == eb):
            a.pop(0), b.pop(0)
        elif sure(ea < eb):
            a.pop(0)
            b[0] = (kb, ea, eb)
        elif sure(eb < ea):
            b.pop(0)
            a[0] = (ka, eb, ea)
        else:
            return False
    return not a and not b


def _joins(a, b):
    return bool(a.what and b.what and a.what[0] == b.what[0] == 'slice' and a.key.startswith('in(')
                and a.what[1].key == b.what[1].key and _pos(a.what[3]) == _pos(b.what[2]))


def _pos(x):
    return str(x) if isinstance(x, int) else str(z3.simplify(to_z3(x))).replace('\n', ' ')


def blob(x):
    if isinstance(x, SBlob):
        return x
    if isinstance(x, (bytes, bytearray)):
        return SBlob([bytes(x)])
    if isinstance(x, SBytes):
        if isinstance(x.s, str):
            return SBlob([x.s.encode()])
        return SBlob([Chunk('utf8(%r)' % (x.s.norm(),), x.length())])
    raise Undecided('not octets: %r' % type(x))


class Blobs:
    def __init__(self):
        self.known = {}         # decoded text -> parts it has been identified with
        self.dec = {}           # decoded text -> (rope, strict)
        self.b64 = {}           # text atom -> blob
        self.macs = []          # (key, alg, data, n): computed by the holder of the key over data of its own
        self.n = 0


def blobs():
    p = ctx()
    r = getattr(p, 'blobs', None)
    if r is None:
        r = p.blobs = Blobs()
    return r


def foreign(b):
    """octets that somebody else made up are part of it"""
    return any(not isinstance(x, bytes) and ('dec(' in x.key) for x in blob(b).now())


# ------------------------------------------------------------------ integers
_XOR = z3.Function('uf_xor', z3.IntSort(), z3.IntSort(), z3.IntSort())


def int_xor(a, b):
    ea, eb = to_z3(a), to_z3(b)
    for u, w in ((ea, eb), (eb, ea)):
        if z3.is_app(u) and u.decl().eq(_XOR):
            for k in (0, 1):
                if u.arg(k).eq(w):
                    return mknum(u.arg(1 - k))
    if ea.eq(eb):
        return 0
    if ea.sexpr() > eb.sexpr():
        ea, eb = eb, ea
    r = _XOR(ea, eb)
    ctx().add(z3.And(r >= 0, z3.Implies(z3.And(ea >= 0, eb >= 0, ea < 2 ** 128, eb < 2 ** 128), r < 2 ** 128)))
    return mknum(r)


def int_or(a, m):
    e = a.e
    k = 0
    while m >> k:
        if (m >> k) & 1:
            b = 1 << k
            if ctx().valid((e / b) % 2 == 0):
                e = z3.simplify(e + b)
            else:
                e = z3.If((e / b) % 2 == 1, e, e + b)
        k += 1
    return mknum(e)


def int_and(a, m):
    e = z3.IntVal(0)
    if z3.is_add(a.e) and z3.is_int_value(a.e.arg(0)) and a.e.num_args() == 2:
        # a constant and a multiple of a higher power of two
        c, t = a.e.arg(0).as_long(), a.e.arg(1)
        if z3.is_mul(t) and z3.is_int_value(t.arg(0)):
            q = t.arg(0).as_long()
            low = q & -q
            if 0 <= c < low and m < low:
                return c & m
    k = 0
    while m >> k:
        if (m >> k) & 1:
            b = 1 << k
            e = e + ((a.e / b) % 2) * b
        k += 1
    return mknum(e)


def from_bytes(b, byteorder='big', signed=False):
    if isinstance(b, (bytes, bytearray)):
        return builtins.int.from_bytes(b, byteorder, signed=signed)
    if byteorder != 'big' or signed:
        raise Undecided('int.from_bytes')
    b = blob(b)
    ps = b.now()
    if not ps:
        return 0
    if len(ps) == 1 and ps[0].what and ps[0].what[0] == 'int':
        return mknum(ps[0].what[1])
    n = b.length()
    z = z3.Int('int(%s)' % b.key())
    ctx().add(z >= 0)
    if isinstance(n, int):
        ctx().add(z < 256 ** n)
    return SInt(z)


def to_bytes(x, length=1, byteorder='big', signed=False):
    if not isinstance(x, SInt):
        return builtins.int.to_bytes(x, length, byteorder, signed=signed)
    if byteorder != 'big' or signed or not isinstance(length, int):
        raise Undecided('int.to_bytes')
    if x < 0:
        raise OverflowError("can't convert negative int to unsigned")
    if x >= 256 ** length:
        raise OverflowError('int too big to convert')
    e = z3.simplify(x.e)
    if z3.is_const(e) and e.decl().name().startswith('int(') and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        k = e.decl().name()[4:-1]
        if '+' not in k:
            return SBlob([Chunk(k, length)])
    return SBlob([Chunk('be%d<%s>' % (length, e.sexpr()), length, ('int', e))])


# ------------------------------------------------------------------ base64
def b64encode(s, altchars=None):
    if isinstance(s, (bytes, bytearray)):
        import base64
        return base64.b64encode(s, altchars)
    if altchars is not None:
        raise Undecided('b64encode')
    b = blob(s)
    n = b.length()
    st = blobs()
    for a, x in st.b64.values():
        if x.key() == b.key():
            t = mkstr([a])
            break
    else:
        st.n += 1
        if isinstance(n, int):
            k = (n * 4 + 2) // 3
            a = Atom('b64!%d' % st.n, B64, k, k)
        else:
            a = Atom('b64!%d' % st.n, B64)
            ctx().add(ctx().alen(a) == (n.e * 4 + 2) / 3)
        st.b64[a.name] = (a, b)
        t = mkstr([a])
    r = n % 3
    return SBytes(t + '=' * (-(r if isinstance(r, int) else r.__index__()) % 3))


def b64decode(s, altchars=None, validate=False):
    import base64
    import binascii
    if isinstance(s, (bytes, bytearray, str)):
        return base64.b64decode(s, altchars, validate)
    if altchars is not None or not isinstance(s, (SBytes, SStr)):
        raise Undecided('b64decode')
    t = s.s if isinstance(s, SBytes) else s
    if isinstance(t, str):
        return base64.b64decode(t, None, validate)
    p = ctx()
    st = blobs()
    ps = t.norm()
    pad = ''
    if isinstance(ps[-1], str):
        q = ps[-1].rstrip('=')
        pad = ps[-1][len(q):]
        ps = ps[:-1] + ([q] if q else [])
    if not validate:
        ps = [x for x in (''.join(c for c in x if B64.has(c)) if isinstance(x, str) else x for x in ps) if x != '']
    if len(ps) == 1 and not isinstance(ps[0], str) and ps[0].name in st.b64:
        b = st.b64[ps[0].name][1]
        if len(pad) < -b.length() % 3:
            raise binascii.Error('padding')
        return b
    name = 'dec(%s,%s)' % (mkstr(ps).norm() if ps else '', validate)
    if not p.branch(z3.Bool('b64ok!' + name)):
        raise binascii.Error('not base64')
    n = z3.Int('len!' + name)
    p.add(n >= 0)
    st.dec[name] = (t, validate)
    return SBlob([Chunk(name, SInt(n))])


# ------------------------------------------------------------------ ciphers and codes
class SMac:
    def __init__(self, key, alg, data):
        self.key = key
        self.alg = alg
        self.data = data

    def update(self, d):
        self.data = self.data + d

    def digest(self):
        import hashlib
        n = hashlib.new(self.alg).digest_size
        if not foreign(self.data):
            blobs().macs.append((self.key, self.alg, self.data, n))
        return SBlob([Chunk('hmac(%s,%s,%s)' % (self.key.hex(), self.alg, self.data.key()), n, ('mac', self.key, self.alg, self.data))])


def hmac_new(key, msg=None, digestmod=''):
    import hmac
    alg = digestmod if isinstance(digestmod, str) else getattr(digestmod, '__name__', '').replace('openssl_', '')
    if not isinstance(msg, (SBlob, SBytes)):
        return hmac.new(key, msg, alg)
    if not isinstance(key, bytes):
        raise Undecided('symbolic key')
    return SMac(key, alg, blob(msg))


def compare_digest(a, b):
    if not isinstance(a, (SBlob, SBytes, SStr)) and not isinstance(b, (SBlob, SBytes, SStr)):
        import hmac
        return hmac.compare_digest(a, b)
    if isinstance(a, SStr) or isinstance(b, SStr):
        return a == b
    a, b = blob(a), blob(b)
    if a.key() == b.key():
        return True
    for m, t in ((a, b), (b, a)):
        ps = m.now()
        if len(ps) != 1 or isinstance(ps[0], bytes):
            continue
        c, lo, hi = ps[0], 0, ps[0].n
        if c.what and c.what[0] == 'slice':
            c, lo, hi = c.what[1:]
        if not c.what or c.what[0] != 'mac':
            continue
        ma = c.what[1:]
        tp = t.now()
        if (hi - lo) * 8 < 64:
            raise Undecided('a message authentication code this short')
        if not foreign(ma[2]) and not foreign(t):
            return False            # two codes of our own over different data
        # the text came from outside: it matches only if it is one of ours, whole
        if len(tp) == 1 and not isinstance(tp[0], bytes) and tp[0].what and tp[0].what[0] == 'slice':
            d = tp[0].what[1]
            dd = ma[2].now()
            same = len(dd) == 1 and not isinstance(dd[0], bytes) and dd[0].what and dd[0].what[0] == 'slice' and dd[0].what[1].key == d.key \
                or (len(dd) == 1 and not isinstance(dd[0], bytes) and dd[0].key == d.key)
            if same and d.key in blobs().dec:
                for key, alg, data, n in list(blobs().macs):
                    if key != ma[0] or alg != ma[1]:
                        continue
                    if ctx().pick(2):
                        identify(d, data, SMac(key, alg, data), lo, hi)
                        return True
                return False
        raise Undecided('comparison of a message authentication code')
    return a == b


def identify(d, data, mac, lo, hi):
    """the decoded text d is the data and the code of ours"""
    st = blobs()
    whole = SBlob(data.parts + mac.digest()._slice(lo, hi).parts)
    p = ctx()
    st.known[d.key] = whole.parts
    # what has been encoded from it is the encoding of ours
    ours = [a for a, b in st.b64.values() if b.key() == whole.key()]
    for o in ours[1:]:
        r = str_eq([ours[0]], [o])
        if r is False:
            p.falsum = True
        elif r is not True:
            p.add(r.e)
    if p.check() == z3.unsat:
        from .engine import Infeasible
        raise p.kill(Infeasible('not this text'))


_KEYS = {}


def aes_new(key, mode, *a, **k):
    from Crypto.Cipher import AES
    r = AES.new(key, mode, *a, **k)
    _KEYS[id(r)] = (bytes(key), mode, r)
    return r


def _keyof(c):
    k = _KEYS.get(id(c))
    return k[0].hex() if k is not None else 'obj%d' % id(c)


def ecb_encrypt(self, data, *a, **k):
    if not isinstance(data, (SBlob, SBytes)):
        return self.encrypt(data, *a, **k)
    data = blob(data)
    n = data.length()
    if n % 16 != 0:
        raise ValueError('Data must be aligned to block boundary in ECB mode')
    return SBlob([Chunk('aes(%s,%s)' % (_keyof(self), data.key()), n, ('aes', _keyof(self), data))])


def ecb_decrypt(self, data, *a, **k):
    if not isinstance(data, (SBlob, SBytes)):
        return self.decrypt(data, *a, **k)
    data = blob(data)
    ps = data.now()
    if len(ps) == 1 and not isinstance(ps[0], bytes) and ps[0].what and ps[0].what[0] == 'aes' and ps[0].what[1] == _keyof(self):
        return ps[0].what[2]
    n = data.length()
    if n % 16 != 0:
        raise ValueError('Data must be aligned to block boundary in ECB mode')
    return SBlob([Chunk('aesdec(%s,%s)' % (_keyof(self), data.key()), n)])
