"""Digest authentication and nonces: C12, C13"""
from pyvc.api import contract
from sippy.SipAuthorization import SipAuthorization, DigestCalcHA1, DigestCalcResponse, NameList2AlgMask, IsDigestAlgSupported
from sippy.SipProxyAuthorization import SipProxyAuthorization
from sippy.SipWWWAuthenticate import SipWWWAuthenticate
from sippy.SipProxyAuthenticate import SipProxyAuthenticate
from sippy.Security import SipNonce
from sippy.Security.SipNonce import HashOracle

D = 'sippy/'
# algorithm -> (hash, session variant, bit of the algorithm), written down from RFC 2617, 7616 and 8760
ALGS = {None: ('md5', False, 1), 'MD5': ('md5', False, 1), 'MD5-sess': ('md5', True, 2), 'SHA-256': ('sha256', False, 4),
        'SHA-256-sess': ('sha256', True, 8), 'SHA-512-256': ('sha512_256', False, 16), 'SHA-512-256-sess': ('sha512_256', True, 32)}
BITS = (1, 2, 4, 8, 16, 32)


def spec_ha1(v, alg, user, realm, pw, nonce, cnonce):
    h, sess, bit = ALGS[alg]
    a1 = v.spec_hash(h, user + ':' + realm + ':' + pw)
    if sess:
        a1 = v.spec_hash(h, a1 + ':' + nonce + ':' + cnonce)
    return a1


def spec_response(v, alg, ha1, nonce, nc, cnonce, qop, method, uri, body):
    h = ALGS[alg][0]
    a2 = method + ':' + uri
    if qop == 'auth-int':
        a2 = a2 + ':' + v.spec_hash(h, body)
    a2 = v.spec_hash(h, a2)
    if qop is None:
        return v.spec_hash(h, ha1 + ':' + nonce + ':' + a2)
    return v.spec_hash(h, ha1 + ':' + nonce + ':' + nc + ':' + cnonce + ':' + qop + ':' + a2)


def creds(v, n=''):
    """credentials: neither users nor realms hold a colon, as the digest cannot tell them apart"""
    return (v.str('user' + n, 'text', 0, None, ':'), v.str('realm' + n, 'text', 0, None, ':'), v.str('password' + n, 'any'))


@contract('C12', targets=[D + 'SipAuthorization.py:DigestCalcHA1', D + 'SipAuthorization.py:DigestCalcResponse'])
def digest_value(v):
    """the digest is the one of the standards"""
    alg = v.choice('alg', list(ALGS))
    user, realm, pw = creds(v)
    nonce, cnonce = v.str('nonce', 'any'), v.str('cnonce', 'any', 1)
    ha1 = DigestCalcHA1(alg, user, realm, pw, nonce, cnonce)
    want = spec_ha1(v, alg, user, realm, pw, nonce, cnonce)
    v.ensure('ha1', v.eq(ha1, want.encode()))
    qop = v.choice('qop', [None, 'auth', 'auth-int'])
    nc = v.str('nc', 'hex', 8, 8) if qop is not None else None
    method, uri = v.token('method'), v.str('uri', 'any')
    body = v.str('body', 'any')
    r = DigestCalcResponse(alg, ha1, nonce, nc, cnonce if qop is not None else v.choice('cn', [None, cnonce]), qop, method, uri, body)
    v.ensure('response', v.eq(r, spec_response(v, alg, want, nonce, nc, cnonce, qop, method, uri, body)))
    if qop == 'auth-int':
        r = DigestCalcResponse(alg, ha1, nonce, nc, cnonce, qop, method, uri, None)
        v.ensure('no-body', v.eq(r, spec_response(v, alg, want, nonce, nc, cnonce, qop, method, uri, '')))
    v.cover(str(alg))


class Oracle:
    """stands in for the nonce oracle: answers what it is told to, and keeps what it was asked"""

    def __init__(self, ok, nonce=None):
        self.ok = ok
        self.nonce = nonce
        self.asked = []
        self.emitted = []

    def validate_challenge(self, nonce, cmask):
        self.asked.append((nonce, tuple(cmask)))
        return self.ok

    def emit_challenge(self, cmask):
        self.emitted.append(tuple(cmask))
        return self.nonce


def auth_of(v, cls, alg, qop, n=''):
    a = cls(realm=v.str('realm' + n, 'text', 0, None, '",:\\'), nonce=v.str('nonce', 'alnum'), uri='sip:' + v.str('uri', 'alnum'),
            username=v.str('user' + n, 'text', 1, None, '",:\\'), response=v.str('response', 'hex'))
    a.algorithm = alg
    if qop is not None:
        a.qop, a.nc, a.cnonce = qop, v.str('nc', 'hex', 8, 8), v.str('cnonce', 'alnum', 1)
    return a


@contract('C12', targets=[D + 'SipAuthorization.py:SipAuthorization.verify', D + 'SipAuthorization.py:SipAuthorization.verifyHA1'])
def verify_iff(v):
    """accepted if and only if the response is the digest, the algorithm is known and the nonce is current"""
    cls = v.choice('cls', [SipAuthorization, SipProxyAuthorization])
    alg = v.choice('alg', list(ALGS) + ['md5', 'SHA-1', 'MD5-SESS', ''])
    qop = v.choice('qop', [None, 'auth', 'auth-int', 'other'])
    if alg in ALGS and ALGS[alg][1] and qop is None:
        return
    o = Oracle(v.flag('nonce-valid'))
    v.patch(SipAuthorization, 'ho', o)
    a = auth_of(v, cls, alg, qop)
    if v.flag('from-text'):
        if alg == '' or (alg is not None and alg not in ALGS):
            a.algorithm = alg or 'x'
        a = cls(str(a))
    pw, method, body = v.str('password', 'any'), v.token('method'), v.str('body', 'any')
    realm, user, nonce = v.str('realm', 'text', 0, None, '",:\\'), v.str('user', 'text', 1, None, '",:\\'), v.str('nonce', 'alnum')
    if v.flag('ha1'):
        if alg not in ALGS:
            return
        r = a.verifyHA1(spec_ha1(v, alg, user, realm, pw, nonce, v.str('cnonce', 'alnum', 1)).encode(), method, body)
    else:
        r = a.verify(pw, method, body)
    if alg not in ALGS or qop == 'other':
        v.ensure('unsupported-refused', r is False or v.eq(r, False))
        v.cover('unsupported')
        return
    ha1 = spec_ha1(v, alg, user, realm, pw, nonce, v.str('cnonce', 'alnum', 1))
    want = spec_response(v, alg, ha1, nonce, v.str('nc', 'hex', 8, 8), v.str('cnonce', 'alnum', 1), qop, method, 'sip:' + v.str('uri', 'alnum'), body)
    if not o.ok:
        v.ensure('stale-refused', v.eq(r, False))
    else:
        v.ensure('accepted-iff-digest', v.iff(r, v.eq(v.str('response', 'hex'), want)))
    v.ensure('nonce-checked', len(o.asked) == 1 and v.eq(o.asked[0][0], nonce) and o.asked[0][1] == (ALGS[alg][2],))
    v.cover(str(alg))


def challenge_of(v, cls, alg, o):
    v.patch(SipWWWAuthenticate, 'ho', o)
    c = cls(realm=v.str('realm', 'text', 0, None, '",:\\'), algorithm=alg)
    return c


@contract('C12', targets=[D + 'SipWWWAuthenticate.py:SipWWWAuthenticate.genAuthHF', D + 'SipWWWAuthenticate.py:SipWWWAuthenticate.__init__',
                          D + 'SipWWWAuthenticate.py:SipWWWAuthenticate.supportedAlgorithm', D + 'SipAuthorization.py:SipAuthorization.genAuthResponse'],
          path_time=200)
def challenge_answered(v):
    """the answer to our challenge is accepted for the same secret, and for nothing else"""
    alg = v.choice('alg', list(ALGS))
    proxy = v.flag('proxy')
    o = Oracle(True, v.str('nonce', 'alnum'))
    v.patch(SipAuthorization, 'ho', o)
    c = challenge_of(v, SipProxyAuthenticate if proxy else SipWWWAuthenticate, alg, o)
    v.ensure('nonce-for-algorithm', o.emitted == [(ALGS[alg][2],)])
    v.ensure('qop-offered', (c.qop is None) == (alg is None))
    if v.flag('parsed'):
        c = c.__class__(str(c))
        c.parse()
    ok, qop = c.supportedAlgorithm()
    v.ensure('supported', ok and qop == (None if alg is None else 'auth'))
    user, pw, method, uri, body = v.str('user', 'text', 1, None, '",:\\'), v.str('password', 'any'), v.token('method'), 'sip:' + v.str('uri', 'alnum'), v.str('body', 'any')
    a = c.genAuthHF(user, pw, method, uri, body, qop)
    v.ensure('class', a.__class__ is (SipProxyAuthorization if proxy else SipAuthorization))
    v.ensure('made-of', v.eq((a.username, a.realm, a.nonce, a.uri, a.algorithm, a.qop), (user, v.str('realm', 'text', 0, None, '",:\\'), o.nonce, uri, alg, qop)))
    v.ensure('counter', (a.nc, a.cnonce is not None) == (('00000001', True) if qop is not None else (None, False)))
    r = a.__class__(str(a))
    v.ensure('accepted', r.verify(pw, method, body))
    # any other: password, method, URI, user, realm or nonce
    what = v.choice('other', ['password', 'method', 'uri', 'user', 'realm', 'nonce'])
    n = {'password': lambda: v.str('password2', 'any'), 'method': lambda: v.token('method2'), 'uri': lambda: 'sip:' + v.str('uri2', 'alnum'),
         'user': lambda: v.str('user2', 'text', 1, None, '",:\\'), 'realm': lambda: v.str('realm2', 'text', 0, None, '",:\\'), 'nonce': lambda: v.str('nonce2', 'alnum')}[what]()
    b = a.__class__(str(a))
    b.parse()
    if what == 'password':
        v.assume(v.not_(v.eq(n, pw)))
        pw = n
    elif what == 'method':
        v.assume(v.not_(v.eq(n, method)))
        method = n
    elif what == 'uri':
        v.assume(v.not_(v.eq(n, uri)))
        b.uri = n
    elif what == 'user':
        v.assume(v.not_(v.eq(n, user)))
        b.username = n
    elif what == 'realm':
        v.assume(v.not_(v.eq(n, b.realm)))
        b.realm = n
    else:
        v.assume(v.not_(v.eq(n, b.nonce)))
        b.nonce = n
    v.ensure('other-refused', v.not_(b.verify(pw, method, body)))
    v.cover(what)


@contract('C12', targets=[D + 'SipWWWAuthenticate.py:SipWWWAuthenticate.supportedAlgorithm', D + 'SipWWWAuthenticate.py:SipWWWAuthenticate.genAuthHF'])
def challenge_foreign(v):
    """challenges of others: what we support, and the digest we answer with"""
    proxy = v.flag('proxy')
    cls = SipProxyAuthenticate if proxy else SipWWWAuthenticate
    alg = v.choice('alg', list(ALGS) + ['SHA-1'])
    qops = v.choice('qop', [None, ['auth'], ['auth-int'], ['auth', 'auth-int'], ['auth-int', 'auth'], ['other'], ['other', 'auth']])
    opq = v.opt('opaque', lambda: v.str('opq', 'text', 0, None, '"\\'))
    s = 'Digest realm="%s", nonce="%s"' % (v.str('realm', 'text', 0, None, '"\\'), v.str('nonce', 'text', 0, None, '"\\'))
    if qops is not None:
        s += ', qop="%s"' % ','.join(qops)
    if alg is not None:
        s += v.choice('algq', [', algorithm=%s', ', algorithm="%s"']) % alg
    if opq is not None:
        s += ', opaque="%s"' % opq
    c = cls(s)
    c.parse()
    ok, qop = c.supportedAlgorithm()
    known = [x for x in (qops or []) if x in ('auth', 'auth-int')]
    if alg not in ALGS or (qops is not None and not known) or (qops is None and alg not in (None, 'MD5')):
        v.ensure('not-supported', not ok)
        v.cover('not-supported')
        return
    v.ensure('supported', ok and qop == (known[0] if known else None))
    user, pw, method, uri, body = v.str('user', 'text', 1, None, '",:\\'), v.str('password', 'any'), v.token('method'), 'sip:' + v.str('uri', 'alnum'), v.str('body', 'any')
    a = c.genAuthHF(user, pw, method, uri, body, qop)
    realm, nonce = v.str('realm', 'text', 0, None, '"\\'), v.str('nonce', 'text', 0, None, '"\\')
    ha1 = spec_ha1(v, alg, user, realm, pw, nonce, a.cnonce or '')
    v.ensure('digest', v.eq(a.response, spec_response(v, alg, ha1, nonce, a.nc, a.cnonce, qop, method, uri, body)))
    v.ensure('challenge-repeated', v.eq((a.realm, a.nonce, a.algorithm, a.uri, a.username), (realm, nonce, alg, uri, user)))
    v.ensure('opaque-repeated', v.eq([x for x in a.otherparams if x[0] == 'opaque'], [('opaque', '"%s"' % opq)] if opq is not None else []))
    v.ensure('qop-told', (a.qop, a.nc is not None, a.cnonce is not None) == (qop, qop is not None, qop is not None))
    v.cover(str(alg))


@contract('C12', targets=[D + 'SipAuthorization.py:SipAuthorization.parse', D + 'SipAuthorization.py:SipAuthorization.__str__'])
def auth_comma(v):
    """a comma inside a quoted parameter is part of it"""
    where = v.choice('where', ['username', 'realm', 'nonce', 'uri', 'opaque', 'cnonce'])
    val = v.str('left', 'text', 0, None, '",:\\') + ',' + v.str('right', 'text', 0, None, '",:\\')
    d = {'username': v.str('user', 'alnum', 1), 'realm': 'r', 'nonce': v.str('nonce', 'alnum', 1), 'uri': 'sip:h', 'response': v.str('response', 'hex', 32, 32),
         'cnonce': 'cc', 'opaque': 'oo'}
    d[where] = val
    sep = v.choice('sep', [',', ', ', ' , '])
    order = list(d)
    if v.flag('reverse'):
        order.reverse()
    s = 'Digest ' + sep.join('%s="%s"' % (k, d[k]) for k in order) + sep + 'qop=auth' + sep + 'nc=00000001' + sep + 'algorithm=SHA-256'
    a = v.choice('cls', [SipAuthorization, SipProxyAuthorization])(s)
    a.parse()
    v.ensure('parts', v.eq((a.username, a.realm, a.nonce, a.uri, a.response, a.cnonce), tuple(d[k] for k in ('username', 'realm', 'nonce', 'uri', 'response', 'cnonce'))))
    v.ensure('other', v.eq(a.otherparams, [('opaque', '"%s"' % d['opaque'])]))
    v.ensure('tokens', (a.qop, a.nc, a.algorithm) == ('auth', '00000001', 'SHA-256'))
    b = a.__class__(str(a))
    b.parse()
    v.ensure('round-trip', v.eq((b.username, b.realm, b.nonce, b.uri, b.response, b.cnonce, b.otherparams), (a.username, a.realm, a.nonce, a.uri, a.response, a.cnonce, a.otherparams)))
    v.cover(where)


# ------------------------------------------------------------------------------- nonces
def at(v, t):
    v.patch(SipNonce, 'clock_getntime', lambda clk: t)


@contract('C13', targets=[D + 'Security/SipNonce.py:HashOracle.emit_challenge', D + 'Security/SipNonce.py:HashOracle.validate_challenge',
                          D + 'Security/SipNonce.py:AESCipher', D + 'Security/SipNonce.py:bxor'])
def nonce_life(v):
    """accepted for the algorithms it was issued for, from its issue until it is 32 seconds old"""
    v.patch(SipNonce, 'token_bytes', lambda n: v.blob('iv', n))
    issuer, checker = HashOracle(), HashOracle()
    t0, t1 = v.int('issued', 0, 2 ** 62), v.int('checked', 0, 2 ** 62)
    mask = tuple(b for b in BITS if v.flag('issue%d' % b))
    at(v, t0)
    n = issuer.emit_challenge(mask)
    at(v, t1)
    for b in BITS:
        r = checker.validate_challenge(n, (b,))
        v.ensure('valid-iff-current', v.iff(r, b in mask and v.and_(t1 >= t0, t1 - t0 <= 32 * 10 ** 9)))
    both = tuple(b for b in BITS if v.flag('ask%d' % b)) if len(mask) in (1, 2, 6) else BITS
    r = checker.validate_challenge(n, both)
    v.ensure('every-algorithm-asked-for', v.iff(r, all(b in mask for b in both) and v.and_(t1 >= t0, t1 - t0 <= 32 * 10 ** 9)))
    v.cover('%d' % len(mask))


@contract('C13', targets=[D + 'Security/SipNonce.py:HashOracle.validate_challenge', D + 'Security/SipNonce.py:AESCipher.decrypt'])
def nonce_forged(v):
    """any string that was not issued is refused, and quietly"""
    v.patch(SipNonce, 'token_bytes', lambda n: v.blob('iv', n))
    o = HashOracle()
    at(v, v.int('issued', 0, 2 ** 62))
    n = o.emit_challenge(BITS)
    at(v, v.int('checked', 0, 2 ** 62))
    f = v.str('forged', 'any')
    v.assume(v.not_(v.eq(f, n)))
    r = v.call(o.validate_challenge, f, (32,))
    v.ensure('refused', r.ok and v.not_(r.value))
    v.cover('forged')


@contract('C13', targets=[D + 'Security/SipNonce.py:HashOracle.validate_challenge', D + 'Security/SipNonce.py:AESCipher.decrypt'],
          bounded='two nonces and the listed alterations at every position')
def nonce_altered(v):
    """altered nonces: octets changed, added, taken away or exchanged between nonces"""
    o = HashOracle()
    at(v, 1000)
    n, m = o.emit_challenge((1,)), o.emit_challenge((1,))
    v.ensure('fresh', n != m)
    at(v, 2000)
    k = len(n)
    how = v.choice('how', ['replace', 'insert', 'remove', 'cut', 'append', 'mix', 'swap', 'case'])
    bad = 0
    r = []
    for i in range(k):
        if how == 'replace':
            r += [n[:i] + c + n[i + 1:] for c in 'A/z=\x00\u00e9' if c != n[i]]
        elif how == 'insert':
            r += [n[:i] + c + n[i:] for c in 'A! \n=-\u0444']
        elif how == 'remove':
            r.append(n[:i] + n[i + 1:])
        elif how == 'cut':
            r += [n[:i], n[i + 1:]]
        elif how == 'append':
            r += [n + '=' * i if i else n + '\n', n + n[:i + 1], m[i:] + n]
        elif how == 'mix' and 0 < i:
            r.append(n[:i] + m[i:])
        elif how == 'swap' and i:
            r.append(n[i:] + n[:i])
        elif how == 'case':
            r.append(n[:i] + n[i].swapcase() + n[i + 1:])
    for x in r:
        if x in (n, m):
            continue
        q = v.call(o.validate_challenge, x, (1,))
        if not q.ok or q.value:
            bad += 1
    v.ensure('refused', bad == 0)
    v.ensure('genuine', o.validate_challenge(n, (1,)) and o.validate_challenge(m, (1,)))
    v.cover(how)
