"""Header values, URIs and addresses: C08, C09"""
from pyvc.api import contract
from sippy.SipHeader import SipHeader, hf_types
from sippy.SipGenericHF import SipGenericHF
from sippy.SipCSeq import SipCSeq
from sippy.SipRAck import SipRAck
from sippy.SipRSeq import SipRSeq
from sippy.SipMaxForwards import SipMaxForwards
from sippy.SipExpires import SipExpires
from sippy.SipContentLength import SipContentLength
from sippy.SipContentType import SipContentType
from sippy.SipVia import SipVia
from sippy.SipReason import SipReason
from sippy.SipReplaces import SipReplaces
from sippy.SipWarning import SipWarning
from sippy.SipAllow import SipAllow
from sippy.SipSupported import SipSupported
from sippy.SipCallId import SipCallId
from sippy.SipCiscoGUID import SipCiscoGUID
from sippy.SipServer import SipServer
from sippy.SipUserAgent import SipUserAgent
from sippy.SipFrom import SipFrom
from sippy.SipTo import SipTo
from sippy.SipContact import SipContact
from sippy.SipRoute import SipRoute
from sippy.SipRecordRoute import SipRecordRoute
from sippy.SipPath import SipPath
from sippy.SipReferTo import SipReferTo
from sippy.SipReferredBy import SipReferredBy
from sippy.SipAlso import SipAlso
from sippy.SipDiversion import SipDiversion
from sippy.SipCCDiversion import SipCCDiversion
from sippy.SipPAssertedIdentity import SipPAssertedIdentity
from sippy.SipWWWAuthenticate import SipWWWAuthenticate
from sippy.SipProxyAuthenticate import SipProxyAuthenticate
from sippy.SipAuthorization import SipAuthorization
from sippy.SipProxyAuthorization import SipProxyAuthorization
from sippy.SipURL import SipURL
from sippy.SipAddress import SipAddress
from sippy.SipConf import SipConf
from sippy.ESipHeaderCSV import ESipHeaderCSV

D = 'sippy/'
MUT = (list, dict, set, bytearray)


def reach(o, d=6):
    """the mutable objects reachable from o"""
    if o is None or isinstance(o, (str, int, float, bytes, bool, type)) or d == 0:
        return []
    if isinstance(o, (list, set)):
        r = [o]
        for x in o:
            r += reach(x, d - 1)
        return r
    if isinstance(o, tuple):
        r = []
        for x in o:
            r += reach(x, d - 1)
        return r
    if isinstance(o, dict):
        r = [o]
        for x in o.values():
            r += reach(x, d - 1)
        return r
    if hasattr(o, '__dict__') and not hasattr(o, 'my') and not callable(o):
        r = [o]
        for x in o.__dict__.values():
            r += reach(x, d - 1)
        return r
    return []


def shared(a, b):
    ra, rb = reach(a), reach(b)
    ids = [id(x) for x in ra]
    return [x for x in rb if id(x) in ids]


def fields(o, names):
    return tuple(getattr(o, n) for n in names)


def sp(v, name):
    """whitespace allowed around a separator"""
    return v.choice(name, ['', ' '])


# ----------------------------------------------------------------- values: one builder per header class
def b_cseq(v):
    return SipCSeq(cseq=v.int('n', 0, 4294967295), method=v.token('m')), ('cseq', 'method')


def b_rack(v):
    return SipRAck(rseq=v.int('r', 0, 4294967295), cseq=v.int('n', 0, 4294967295), method=v.token('m')), ('rseq', 'cseq', 'method')


def b_rseq(v):
    return SipRSeq(number=v.int('n', 0, 4294967295)), ('number',)


def b_maxf(v):
    return SipMaxForwards(number=v.int('n', 0, 255)), ('number',)


def b_expires(v):
    return SipExpires(number=v.int('n', 0, 4294967295)), ('number',)


def b_clen(v):
    return SipContentLength(number=v.int('n', 0, 10000000)), ('number',)


def b_ctype(v):
    o = SipContentType('%s/%s%s' % (v.token('a'), v.token('b'), ';%s=%s' % ('p' + v.str('k', 'alnum'), v.token('pv')) if v.flag('par') else ''))
    o.parse()
    return o, ('name', 'params')


def b_via(v):
    o = SipVia()
    o.transport = v.choice('tr', ['UDP', 'TCP', 'WSS'])
    o.hostname = v.choice('h', [v.str('host', 'alnum', 1), '[2001:db8::10]'])
    o.port = v.opt('port', lambda: v.int('portn', 1, 65535))
    o.params = {}
    if v.flag('rport'):
        o.params['rport'] = v.choice('rportv', [None, v.str('rp', 'digits', 1)])
    if v.flag('recv'):
        o.params['received'] = v.str('rcv', 'alnum', 1)
    o.params['branch'] = 'z9hG4bK' + v.token('br')
    if v.flag('ext'):
        o.params['x' + v.str('xn', 'alnum')] = v.token('xv')
    return o, ('sipver', 'transport', 'hostname', 'port', 'params')


def b_reason(v):
    return SipReason(protocol=v.token('proto'), cause=v.int('cause', 0, 999),
                     reason=v.opt('text', lambda: v.str('rs', 'text', 0, None, '"\\'))), ('protocol', 'cause', 'reason')


def b_replaces(v):
    return SipReplaces(call_id=v.token('cid') + '@' + v.str('h', 'alnum'), from_tag=v.token('ft'), to_tag=v.token('tt'), early_only=v.flag('early'),
                       params=['x' + v.str('xp', 'alnum') + '=' + v.token('xv')] if v.flag('ext') else None), \
        ('call_id', 'from_tag', 'to_tag', 'early_only', 'params')


def b_warning(v):
    o = SipWarning(code=v.int('code', 300, 399), text=v.str('t', 'text', 0, None, '"\\'))
    o.agent = v.str('agent', 'alnum', 1)
    return o, ('code', 'agent', 'text')


def b_allow(v):
    n = v.choice('len', [1, 2, 3])
    return SipAllow(methods=[v.token('m%d' % i) for i in range(n)]), ('methods',)


def b_supported(v):
    n = v.choice('len', [1, 2, 3])
    return SipSupported(caps=[v.token('m%d' % i) for i in range(n)]), ('caps',)


def b_callid(v):
    return SipCallId(v.str('cid', 'text', 1, None, ' ')), ('body',)


def b_guid(v):
    return SipCiscoGUID(ciscoGUID=tuple(v.int('g%d' % i, 0, 4294967295) for i in range(4))), ('ciscoGUID',)


def b_server(v):
    return SipServer(name=v.token('n') + ' ' + v.token('n2')), ('name',)


def b_ua(v):
    return SipUserAgent(name=v.token('n') + '/' + v.token('n2')), ('name',)


def b_generic(v):
    return SipGenericHF(v.token('a') + ' ' + v.str('b', 'text', 0, None, ' ') + '.', name='x-' + v.str('n', 'alnum', 1)), ('body',)


def b_auth(v):
    cls = SipProxyAuthorization if v.flag('proxy') else SipAuthorization
    q = v.str
    o = cls(realm=q('realm', 'text', 0, None, '",\\'), nonce=v.token('nonce'), uri='sip:' + v.token('u') + '@' + v.str('h', 'alnum', 1),
            username=q('user', 'text', 1, None, '",\\'), response=v.str('resp', 'hex', 1))
    o.algorithm = v.opt('alg', lambda: v.token('algv'))
    if v.flag('qop'):
        o.qop, o.nc, o.cnonce = v.choice('qopv', ['auth', 'auth-int']), v.str('nc', 'hex', 8, 8), v.token('cn')
    if v.flag('opaque'):
        o.otherparams.append(('opaque', '"%s"' % v.token('opq')))
    return o, ('realm', 'nonce', 'uri', 'username', 'response', 'algorithm', 'qop', 'nc', 'cnonce', 'otherparams')


def b_wwwauth(v):
    cls = SipProxyAuthenticate if v.flag('proxy') else SipWWWAuthenticate
    o = cls(realm=v.str('realm', 'text', 0, None, '"\\'), nonce=v.token('nonce'))
    o.algorithm = v.opt('alg', lambda: 'A' + v.str('algv', 'alnum'))
    o.qop = v.choice('qop', [None, ['auth'], ['auth', 'auth-int']])
    o.opaque = v.opt('opq', lambda: v.str('opqv', 'text', 0, None, '"\\'))
    if v.flag('other'):
        o.otherparams.append(('stale', v.token('st')))
    return o, ('realm', 'nonce', 'algorithm', 'qop', 'opaque', 'otherparams')


B1 = [b_cseq, b_rack, b_rseq, b_maxf, b_expires, b_clen, b_ctype, b_reason, b_replaces, b_warning, b_allow, b_supported, b_callid,
      b_guid, b_server, b_ua, b_generic]
B2 = [b_via]
B3 = [b_auth, b_wwwauth]


def value_step(v, b):
    kind = b.__name__[2:]
    o, names = b(v)
    cls = o.__class__
    want = fields(o, names)
    s = str(o)
    v.ensure('local-form-same', v.eq(o.localStr(), s))
    # parsing the text gives the value back
    p = cls(s)
    v.ensure('unparsed-text-kept', v.eq(str(p), s))
    raw = p.getCopy()
    p.parse()
    v.ensure('parsed-back', v.eq(fields(p, names), want))
    v.ensure('written-again', v.eq(str(p), s))
    # the copy taken before it was parsed
    v.ensure('raw-copy-text', v.eq(str(raw), s) and raw.__class__ is cls)
    raw.parse()
    v.ensure('raw-copy', v.eq(fields(raw, names), want))
    # copies
    for x in (o, p):
        c = x.getCopy()
        v.ensure('copy-class', c.__class__ is cls)
        v.ensure('copy-equal', v.eq(fields(c, names), want) and v.eq(str(c), s))
        v.ensure('copy-apart', shared(x, c) == [])
    # as a header line
    hname = cls.hf_names[0] if kind != 'generic' else 'x-thing'
    h = SipHeader('%s: %s' % (hname, s))
    v.ensure('header-value', h.name == hname and h.body.__class__ is cls and v.eq(fields(h.getBody(), names), want))
    l = str(h)
    v.ensure('header-line', v.eq(l, '%s: %s' % (l.split(':', 1)[0], s)) and l.split(':', 1)[0].lower() in cls.hf_names + ('x-thing',)
             if kind != 'generic' else v.eq(l, 'X-thing: %s' % s))
    hc = h.getCopy()
    v.ensure('header-copy', v.eq(str(hc), l) and hc.name == h.name and shared(h, hc) == [])
    v.cover(kind)


T = [D + 'SipCSeq.py:SipCSeq.parse', D + 'SipRAck.py:SipRAck.parse', D + 'SipNumericHF.py:SipNumericHF.parse', D + 'SipContentType.py:SipContentType.parse',
     D + 'SipReason.py:SipReason.parse', D + 'SipReplaces.py:SipReplaces.parse', D + 'SipWarning.py:SipWarning.parse', D + 'SipAllow.py:SipAllow.parse',
     D + 'SipSupported.py:SipSupported.parse', D + 'SipCiscoGUID.py:SipCiscoGUID.parse', D + 'SipServer.py:SipServer.getCopy', D + 'SipGenericHF.py:SipGenericHF',
     D + 'SipHeader.py:SipHeader', D + 'SipCallId.py:SipCallId']


@contract('C08', targets=T, bounded='lists of up to three values')
def hdr_value(v):
    """any value written, parsed and copied is the same value; copies share nothing"""
    value_step(v, v.choice('header', B1))


@contract('C08', targets=[D + 'SipVia.py:SipVia'])
def hdr_value_via(v):
    value_step(v, b_via)


@contract(('C08', 'C12'), targets=[D + 'SipAuthorization.py:SipAuthorization.parse', D + 'SipWWWAuthenticate.py:SipWWWAuthenticate.parse',
                                   D + 'SipAuthorization.py:SipAuthorization.getCopy', D + 'SipWWWAuthenticate.py:SipWWWAuthenticate.getCopy'])
def hdr_value_auth(v):
    value_step(v, v.choice('header', B3))


# ----------------------------------------------------------------- values as they come from the network
def x_cseq(v):
    n, m = v.int('n', 0, 4294967295), v.token('m')
    return SipCSeq, '%s%d %s%s%s' % (sp(v, 's0'), n, sp(v, 's1'), m, sp(v, 's2')), {'cseq': n, 'method': m}


def x_rack(v):
    r, n, m = v.int('r', 0, 4294967295), v.int('n', 0, 4294967295), v.token('m')
    return SipRAck, '%d %s%d %s%s' % (r, sp(v, 's0'), n, sp(v, 's1'), m), {'rseq': r, 'cseq': n, 'method': m}


def x_num(v):
    n = v.int('n', 0, 4294967295)
    return v.choice('cls', [SipMaxForwards, SipExpires, SipContentLength, SipRSeq]), '%s%d%s' % (sp(v, 's0'), n, sp(v, 's1')), {'number': n}


def x_reason(v):
    pr, c = v.token('proto'), v.int('cause', 0, 999)
    pc = 'cause=%s%d%s' % (sp(v, 's1'), c, sp(v, 's2'))
    form = v.choice('form', ['none', 'token', 'quoted', 'escaped'])
    if form == 'none':
        ps, t = [pc], None
    else:
        if form == 'token':
            t = v.token('t')
            pt = 'text=' + t
        elif form == 'quoted':
            t = v.str('t', 'text', 0, None, '"\\')
            pt = 'text=%s"%s"' % (sp(v, 's3'), t)
        else:
            t = v.str('t', 'text', 0, None, '"\\') + '\\"' + v.str('t2', 'text', 0, None, '"\\')
            pt = 'text="%s"' % t
        ps = [pc, pt] if v.flag('cause-first') else [pt, pc]
    return SipReason, '%s%s;%s%s' % (pr, sp(v, 's4'), sp(v, 's5'), (';' + sp(v, 's6')).join(ps)), {'protocol': pr, 'cause': c, 'reason': t}


def x_replaces(v):
    cid, ft, tt = v.token('cid'), v.token('ft'), v.token('tt')
    ps = ['from-tag=' + ft, 'to-tag=' + tt]
    if v.flag('tofirst'):
        ps.reverse()
    early = v.flag('early')
    if early:
        ps.insert(v.choice('at', [0, 1, 2]), 'early-only')
    other = []
    if v.flag('ext'):
        other = ['x' + v.str('xp', 'alnum')]
        ps.insert(v.choice('xat', [0, 2]), other[0])
    return SipReplaces, cid + ''.join(';' + sp(v, 's%d' % i) + x for i, x in enumerate(ps)), \
        {'call_id': cid, 'from_tag': ft, 'to_tag': tt, 'early_only': early, 'params': other}


def x_via(v):
    tr = v.choice('tr', ['UDP', 'tls'])
    host = v.choice('h', [v.str('host', 'alnum', 1), '[2001:db8::10]'])
    port = v.opt('port', lambda: v.int('portn', 1, 65535))
    br = v.token('br')
    ps = ['branch=' + br, v.choice('rport', ['rport', 'rport=' + v.str('rp', 'digits', 1)])]
    if v.flag('rev'):
        ps.reverse()
    want = {'branch': br, 'rport': v.str('rp', 'digits', 1) if 'rport' not in ps else None}
    s = 'SIP/2.0/%s %s%s%s%s' % (tr, sp(v, 's0'), host, '' if port is None else ':%d' % port, ''.join(sp(v, 's1') + ';' + sp(v, 's2') + x for x in ps))
    return SipVia, s, {'sipver': 'SIP/2.0', 'transport': tr, 'hostname': host, 'port': port, 'params': want}


def x_warning(v):
    c, a, t = v.int('code', 300, 399), v.str('agent', 'alnum', 1), v.str('t', 'text', 0, None, '"\\')
    return SipWarning, '%d %s%s %s"%s"' % (c, sp(v, 's0'), a, sp(v, 's1'), t), {'code': c, 'agent': a, 'text': t}


def x_list(v):
    cls = v.choice('cls', [SipAllow, SipSupported])
    xs = [v.token('m%d' % i) for i in range(v.choice('len', [1, 2, 3]))]
    return cls, (sp(v, 's0') + ',' + sp(v, 's1')).join(xs), {('methods' if cls is SipAllow else 'caps'): xs}


def x_ctype(v):
    a, b = v.token('a'), v.token('b')
    ps = [('charset', v.token('cs')), ('boundary', '"%s"' % v.token('bn'))][:v.choice('np', [0, 1, 2])]
    return SipContentType, '%s/%s' % (a, b) + ''.join(';%s=%s' % x for x in ps), {'name': '%s/%s' % (a, b), 'params': dict(ps)}


def x_guid(v):
    g = tuple(v.int('g%d' % i, 0, 4294967295) for i in range(4))
    return SipCiscoGUID, '%d-%d-%d-%d' % g, {'ciscoGUID': g}


def perm(v, xs):
    """any rotation, either direction"""
    k = v.choice('rot', list(range(len(xs))))
    r = xs[k:] + xs[:k]
    if v.flag('rev'):
        r.reverse()
    return r


def x_auth(v):
    w = {'realm': v.str('realm', 'text', 0, None, '",\\'), 'nonce': v.token('nonce'), 'uri': 'sip:' + v.token('u') + '@h',
         'username': v.str('user', 'text', 0, None, '",\\'), 'response': v.str('resp', 'hex', 1), 'algorithm': None, 'qop': None, 'nc': None, 'cnonce': None}
    ps = ['realm="%s"' % w['realm'], 'nonce="%s"' % w['nonce'], 'uri="%s"' % w['uri'], 'username="%s"' % w['username'], 'response="%s"' % w['response']]
    if v.flag('alg'):
        w['algorithm'] = v.token('algv')
        ps.append(v.choice('algq', ['algorithm=%s', 'algorithm="%s"', 'Algorithm=%s']) % w['algorithm'])
    if v.flag('qop'):
        w['qop'], w['nc'], w['cnonce'] = v.choice('qopv', ['auth', 'auth-int']), v.str('nc', 'hex', 8, 8), v.token('cn')
        ps += ['qop=%s' % w['qop'], 'nc=%s' % w['nc'], 'cnonce="%s"' % w['cnonce']]
    w['otherparams'] = []
    if v.flag('opaque'):
        w['otherparams'] = [('opaque', '"%s"' % v.token('opq'))]
        ps.append('opaque="%s"' % v.token('opq'))
    return SipAuthorization, 'Digest ' + (',' + sp(v, 's0')).join(perm(v, ps)), w


def x_wwwauth(v):
    w = {'realm': v.str('realm', 'text', 0, None, '"\\'), 'nonce': v.token('nonce'), 'algorithm': None, 'qop': None, 'opaque': None, 'otherparams': []}
    ps = ['realm="%s"' % w['realm'], 'nonce="%s"' % w['nonce']]
    if v.flag('alg'):
        w['algorithm'] = v.choice('algv', ['MD5', 'SHA-256', 'X' + v.str('algx', 'alnum')])
        ps.append('algorithm=%s' % w['algorithm'])
    q = v.choice('qop', [None, 'qop=auth', 'qop="auth"', 'qop="auth,auth-int"', 'qop="auth-int, auth"'])
    if q:
        w['qop'] = {'qop=auth': ['auth'], 'qop="auth"': ['auth'], 'qop="auth,auth-int"': ['auth', 'auth-int'], 'qop="auth-int, auth"': ['auth-int', 'auth']}[q]
        ps.append(q)
    if v.flag('opaque'):
        w['opaque'] = v.str('opq', 'text', 0, None, '"\\')
        ps.append('opaque="%s"' % w['opaque'])
    if v.flag('stale'):
        w['otherparams'] = [('stale', 'FALSE')]
        ps.append('stale=FALSE')
    return SipWWWAuthenticate, 'Digest ' + (',' + sp(v, 's0')).join(perm(v, ps)), w


def same(v, o, want):
    ok = True
    for k, x in want.items():
        y = getattr(o, k)
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
            x, y = list(x), list(y)
        ok = v.and_(ok, v.eq(y, x))
    return ok


def text_step(v, f):
    cls, s, want = f(v)
    h = SipHeader('%s: %s' % (cls.hf_names[0], s), fixname=True)
    v.ensure('class', h.body.__class__ is cls and h.name == cls.hf_names[0])
    v.ensure('text-kept', v.eq(str(h.body), s.strip()))
    o = h.getBody()
    v.ensure('parsed', same(v, o, want))
    t = str(o)
    p = cls(t)
    p.parse()
    v.ensure('rewritten-means-the-same', same(v, p, want))
    c = o.getCopy()
    v.ensure('copy', same(v, c, want) and shared(o, c) == [])
    v.cover(f.__name__[2:])


X1 = [x_cseq, x_rack, x_num, x_reason, x_warning, x_list, x_ctype, x_guid]


@contract('C08', targets=T, bounded='lists of up to three values, one blank at the places where blanks may stand')
def hdr_text(v):
    """what comes from the network is understood and written out with the same meaning"""
    text_step(v, v.choice('header', X1))


@contract('C08', targets=[D + 'SipReplaces.py:SipReplaces.parse'], bounded='one further parameter, one blank at the places where blanks may stand')
def hdr_text_replaces(v):
    text_step(v, x_replaces)


@contract('C08', targets=[D + 'SipVia.py:SipVia.parse'], bounded='one blank at the places where blanks may stand')
def hdr_text_via(v):
    text_step(v, x_via)


@contract(('C08', 'C12'), targets=[D + 'SipAuthorization.py:SipAuthorization.parse'], bounded='rotations of the parameter order')
def hdr_text_auth(v):
    text_step(v, x_auth)


@contract(('C08', 'C12'), targets=[D + 'SipWWWAuthenticate.py:SipWWWAuthenticate.parse'], bounded='rotations of the parameter order')
def hdr_text_wwwauth(v):
    text_step(v, x_wwwauth)


COMPACT = {'via': 'v', 'from': 'f', 'to': 't', 'call-id': 'i', 'contact': 'm', 'content-type': 'c', 'content-length': 'l', 'supported': 'k'}
SHORT = dict(COMPACT)
SHORT['refer-to'] = 'r'
KNOWN = ['cseq', 'call-id', 'from', 'to', 'max-forwards', 'via', 'content-length', 'content-type', 'expires', 'record-route', 'route', 'contact',
         'www-authenticate', 'authorization', 'server', 'user-agent', 'cisco-guid', 'also', 'refer-to', 'cc-diversion', 'referred-by',
         'proxy-authenticate', 'proxy-authorization', 'replaces', 'p-asserted-identity', 'reason', 'allow', 'supported', 'rseq', 'rack', 'warning',
         'diversion', 'path']


@contract('C08', targets=[D + 'SipHeader.py:SipHeader.__init__', D + 'SipHeader.py:SipHeader.localStr', D + 'SipHeader.py:SipHeader.__str__'])
def hdr_name(v):
    """names in any case and in short form mean the same header; the full or the short name is written as asked"""
    n = v.choice('name', KNOWN)
    inp = v.choice('as', ['lower', 'upper', 'title', 'short', 'SHORT'])
    if inp in ('short', 'SHORT'):
        if n not in SHORT:
            return
        w = SHORT[n] if inp == 'short' else SHORT[n].upper()
    else:
        w = {'lower': n, 'upper': n.upper(), 'title': n.title()}[inp]
    val = v.str('a', 'alnum', 1) + v.str('b', 'text', 0, None, ',') + v.str('c', 'alnum', 1)
    h = SipHeader('%s%s:%s%s' % (w, sp(v, 's0'), sp(v, 's1'), val), fixname=True)
    v.ensure('name', h.name == n and h.body.__class__ is hf_types[n] and h.body.__class__.hf_names[0] == n)
    v.ensure('value', v.eq(str(h.body), val))
    for compact in (False, True):
        l = h.localStr((('10.0.0.1', 5060), 'udp'), compact)
        k = [x for x in (l.split(':', 1)[0],)][0]
        v.ensure('line', v.eq(l, '%s: %s' % (k, val)))
        if compact and n in COMPACT:
            v.ensure('short-name', k == COMPACT[n])
        else:
            v.ensure('full-name', k.lower() == n)
    v.ensure('str', v.eq(str(h), h.localStr()))
    # a header nobody knows stays what it was
    o = SipHeader('X-%s: %s' % (v.str('x', 'alnum', 1), val), fixname=True)
    v.ensure('unknown-name', v.eq(o.name, 'x-' + v.str('x', 'alnum', 1).lower()) and v.eq(o.localStr(None, v.flag('cmp')), 'X-%s: %s' % (v.str('x', 'alnum', 1).lower(), val)))
    v.cover(inp)


# ----------------------------------------------------------------- URIs and addresses
UATTR = ('scheme', 'username', 'userparams', 'password', 'host', 'port', 'headers', 'usertype', 'transport', 'ttl', 'maddr', 'method', 'tag', 'other', 'lr')
LA = (('192.0.2.77', 5082), 'udp')


def hosts(v):
    return v.choice('host', [v.str('hostn', 'alnum', 1) + '.' + v.str('hostd', 'alnum'), '[2001:db8::10]', '10.1.2.9'])


def b_url(v, small=False):
    kw = {}
    if v.flag('user'):
        kw['username'] = v.str('username', 'text', 0, None, ';')
        if not small:
            if v.flag('uparams'):
                kw['userparams'] = ['p' + v.token('up1'), 'q=' + v.token('up2')]
            if v.flag('pass'):
                kw['password'] = v.str('pw', 'text', 0, None, '@')
    u = SipURL(host=hosts(v), port=v.opt('port', lambda: v.int('portn', 1, 65535)), scheme=v.choice('scheme', ['sip', 'sips']), **kw)
    return u


def url_params(v, u):
    if v.flag('user='):
        u.usertype = v.token('usertype')
    if v.flag('transport='):
        u.transport = v.token('transport')
    if v.flag('ttl='):
        u.ttl = v.int('ttl', 0, 255)
    if v.flag('maddr='):
        u.maddr = v.str('maddr', 'alnum', 1)
    if v.flag('method='):
        u.method = v.token('method')
    if v.flag('tag='):
        u.tag = v.token('tag')
    if v.flag('lr'):
        u.lr = True
    k = v.choice('other', [0, 1, 2])
    if k > 0:
        u.other = ['x' + v.token('o1'), 'y' + v.token('o2') + '=' + v.token('o3')][:k]


def url_same(v, a, b):
    return v.eq(fields(a, UATTR), fields(b, UATTR))


def url_step(v, u):
    s = str(u)
    p = SipURL(s)
    v.ensure('parsed-back', url_same(v, p, u))
    v.ensure('written-again', v.eq(str(p), s))
    v.ensure('local-form', v.eq(u.localStr(LA), s))
    for x in (u, p):
        c = x.getCopy()
        v.ensure('copy-same', url_same(v, c, x) and v.eq(str(c), s))
        v.ensure('copy-apart', shared(x, c) == [])
    port = u.port if u.port is not None else 5060
    v.ensure('address', v.eq((u.getHost(), u.getPort(), u.getAddr()), (u.host, port, (u.host, port))))
    v.ensure('transport-address', v.eq(u.getTAddr(), ((u.host, port), u.transport if u.transport is not None else 'udp')))
    return s


@contract('C09', targets=[D + 'SipURL.py:SipURL.parseSipURL', D + 'SipURL.py:SipURL.localStr', D + 'SipURL.py:SipURL.getCopy', D + 'SipURL.py:SipURL.getTAddr'])
def url_user_host(v):
    """any user, password, host and port"""
    u = b_url(v)
    s = url_step(v, u)
    h = u.host if u.port is None else '%s:%d' % (u.host, u.port)
    v.ensure('host-last', s.endswith(h))
    v.ensure('one-at', s.count('@') == (0 if u.username is None else 1))
    if u.username is None:
        v.ensure('text', v.eq(s, '%s:%s' % (u.scheme, h)))
    v.cover('user' if u.username is not None else 'no-user')


@contract('C09', targets=[D + 'SipURL.py:SipURL.setParams', D + 'SipURL.py:SipURL.getParams', D + 'SipURL.py:SipURL.getCopy'])
def url_parameters(v):
    """any parameters"""
    u = SipURL(host='h' + v.str('hostn', 'alnum'), username=v.opt('user', lambda: v.str('username', 'alnum', 1)), port=v.opt('port', lambda: v.int('portn', 1, 65535)))
    url_params(v, u)
    s = url_step(v, u)
    want = ['user=%s' % u.usertype] if u.usertype is not None else []
    want += ['%s=%s' % (n, getattr(u, n)) for n in ('transport', 'ttl', 'maddr', 'method', 'tag') if getattr(u, n) is not None]
    want += u.other + (['lr'] if u.lr else [])
    v.ensure('parameters-written', v.eq(s.split(';')[1:], want))
    v.cover('%d' % len(want))


@contract('C09', targets=[D + 'SipURL.py:SipURL.parseSipURL', D + 'SipURL.py:SipURL.localStr', D + 'SipURL.py:SipURL.getCopy'], bounded='up to two headers')
def url_headers(v):
    """any headers"""
    u = SipURL(host='h' + v.str('hostn', 'alnum'), username=v.opt('user', lambda: v.str('username', 'text', 0, None, ';')),
               port=v.opt('port', lambda: v.int('portn', 1, 65535)), scheme=v.choice('scheme', ['sip', 'sips']))
    if v.flag('lr'):
        u.lr = True
    if v.flag('other'):
        u.other = ['x' + v.token('o1')]
    u.headers = {}
    for i in range(v.choice('n', [1, 2])):
        u.headers['k%d' % i + v.str('k%d' % i, 'alnum')] = v.str('v%d' % i, 'any')
    s = url_step(v, u)
    v.ensure('one-question-mark-after-host', s.split('@')[-1].count('?') == 1)
    v.ensure('one-line', '\r' not in s and '\n' not in s and ' ' not in s)
    # whatever is changed in the copy, the original stays
    c = u.getCopy()
    c.headers['added'] = 'x'
    c.other.append('y')
    c.userparams.append('z')
    v.ensure('original-untouched', v.eq(str(u), s))
    v.cover('headers')


@contract('C09', targets=[D + 'SipURL.py:SipURL.parseSipURL'], bounded='blanks and duplicates as listed')
def url_text(v):
    """URIs as the network writes them"""
    host = hosts(v)
    user = v.choice('user', ['none', 'plain', 'escaped', 'params', 'pass'])
    ut, want = {'none': ('', (None, [], None)), 'plain': (v.str('u', 'alnum', 1) + '@', (v.str('u', 'alnum', 1), [], None)),
                'escaped': ('%40' + v.str('u', 'alnum') + '%3A%25@', ('@' + v.str('u', 'alnum') + ':%', [], None)),
                'params': (v.str('u', 'alnum') + ';x=' + v.str('p', 'alnum', 1) + ';y@', (v.str('u', 'alnum'), ['x=' + v.str('p', 'alnum', 1), 'y'], None)),
                'pass': (v.str('u', 'alnum') + ':' + v.str('p', 'alnum', 1) + '@', (v.str('u', 'alnum'), [], v.str('p', 'alnum', 1)))}[user]
    scheme = v.choice('scheme', ['sip:', 'sips:', 'SIP:', 'Sips:', ''])
    if scheme == '' and (user == 'pass' or host[0] == '['):
        return
    portf = v.choice('port', ['none', 'one', 'twice', 'empty'])
    if scheme == '' and portf != 'none':
        return
    n = v.int('portn', 1, 65535)
    pt = {'none': '', 'one': ':%d' % n, 'twice': ':%d:%d' % (n, n), 'empty': ':'}[portf]
    par = v.choice('par', ['', ';lr', ';lr=on', ';transport=tcp', ';TRANSPORT=tcp', ';lr?a=%20b', '?a=%20b', ';foo;bar=1;lr'])
    u = SipURL(scheme + ut + host + pt + par)
    v.ensure('scheme', u.scheme == ('sips' if 's:' in scheme else 'sip'))
    v.ensure('user', v.eq((u.username, u.userparams, u.password), want))
    v.ensure('host-port', v.eq((u.host, u.port), (host, n if portf in ('one', 'twice') else None)))
    v.ensure('lr', u.lr == ('lr' in par))
    v.ensure('transport', u.transport == ('tcp' if ';transport' in par else None))
    v.ensure('other', u.other == {';TRANSPORT=tcp': ['TRANSPORT=tcp'], ';foo;bar=1;lr': ['foo', 'bar=1']}.get(par, []))
    v.ensure('headers', u.headers == ({'a': ' b'} if '?' in par else None))
    w = SipURL(str(u))
    v.ensure('rewritten-same', url_same(v, w, u))
    v.cover(user)


@contract('C09', targets=[D + 'SipURL.py:SipURL.parseSipURL', D + 'SipURL.py:SipURL.localStr'])
def url_escaped_semicolon(v):
    """a user name that holds a semicolon"""
    n = v.str('u1', 'alnum') + ';' + v.str('u2', 'alnum')
    u = SipURL('sip:%s%%3B%s@h' % (v.str('u1', 'alnum'), v.str('u2', 'alnum')))
    v.ensure('read', v.eq((u.username, u.userparams), (n, [])))
    w = SipURL(str(u))
    v.ensure('user-kept', v.eq((w.username, w.userparams), (n, [])))


@contract('C09', targets=[D + 'SipURL.py:SipURL.localStr', D + 'SipURL.py:SipURL.__init__', D + 'SipURL.py:SipURL.getAddr'])
def url_own(v):
    """a URI of our own shows the address and port it goes out from"""
    u = SipURL(username=v.opt('user', lambda: v.str('username', 'alnum', 1)))
    c = u.getCopy()
    h, p = v.str('la', 'alnum', 1), v.int('lp', 1, 65535)
    tr = v.choice('tr', ['udp', 'tcp', 'wss'])
    us = '' if u.username is None else v.str('username', 'alnum', 1) + '@'
    for x in (u, c):
        s = x.localStr(((h, p), tr))
        if tr == 'udp':
            v.ensure('own-address', v.eq(s, 'sip:%s%s' % (us, h) if p == 5060 else 'sip:%s%s:%d' % (us, h, p)))
        else:
            v.ensure('own-address', v.eq(s, 'sip:%s%s:%d;transport=%s' % (us, h, p, tr)))
    v.ensure('copy-same', str(u) == str(c))
    v.cover(tr)


@contract('C09', targets=[D + 'SipURL.py:SipURL.convertTelURL'], bounded='up to two user parameters')
def url_tel(v):
    """a tel URI is taken as a user at our own address, when asked to, and refused otherwise"""
    num = '+' + v.str('num', 'digits', 1)
    k = v.choice('np', [0, 1, 2])
    ps = [('ISUB' + v.str('k1', 'digits'), v.token('v1')), ('phone-context', v.token('v2'))][:k]
    s = 'tel:' + num + ''.join(';%s=%s' % x for x in ps)
    if v.flag('auto'):
        v.patch(SipConf, 'autoconvert_tel_url', True)
        relaxed = v.flag('relaxed')
        u = SipURL(s, relaxedparser=relaxed)
        v.ensure('user', v.eq((u.scheme, u.username, u.userparams), ('sip', num, ['%s=%s' % (a.lower(), b) for a, b in ps])))
        if relaxed:
            v.ensure('no-host', u.host == '' and u.port is None)
        else:
            v.ensure('own-host', u.host is SipConf.my_address and u.port is SipConf.my_port)
            w = SipURL(u.localStr((('10.0.0.1', 5070), 'udp')))
            v.ensure('written', v.eq((w.username, w.userparams, w.host, w.port), (u.username, u.userparams, '10.0.0.1', 5070)))
        v.cover('converted')
    else:
        r = v.call(SipURL, s)
        v.ensure('refused', r.raised(ValueError))
    r = v.call(SipURL, 'h' + v.str('sch', 'alnum') + ':x')
    v.ensure('unknown-scheme-refused', r.raised(ValueError))


# ------------------------------------------------------------------------------- addresses
def addr_params(v, a):
    for i in range(v.choice('params', [0, 1, 2])):
        # a value may hold '=' itself
        a.setParam(['tag', 'x' + v.str('pn', 'alnum')][i], [v.token('pv0'), v.choice('pv1', [None, v.token('pv'), v.token('pv') + '=' + v.token('pve')])][i])


def addr_url(v):
    k = v.choice('url', ['plain', 'port', 'params', 'headers'])
    u = SipURL(username=v.opt('user', lambda: v.str('username', 'text', 0, None, ';,')), host='h' + v.str('hostn', 'alnum'),
               scheme=v.choice('scheme', ['sip', 'sips']))
    if k != 'plain':
        u.port = v.int('portn', 1, 65535)
    if k in ('params', 'headers'):
        u.lr = True
        u.transport = v.token('tr')
    if k == 'headers':
        u.headers = {'a': v.str('hv', 'any')}
    return u


AATTR = ('params', 'params_order', 'hadbrace')


def addr_same(v, a, b):
    n1 = a.name if a.name is not None else ''
    n2 = b.name if b.name is not None else ''
    return v.and_(v.eq(n1, n2), url_same(v, a.url, b.url), v.eq(fields(a, AATTR), fields(b, AATTR)))


@contract('C09', targets=[D + 'SipAddress.py:SipAddress.__init__', D + 'SipAddress.py:SipAddress.localStr', D + 'SipAddress.py:SipAddress.getCopy', D + 'SipAddress.py:findquotes'],
          bounded='up to two parameters')
def address_value(v):
    """any name, URI and parameters"""
    name = v.choice('name', [None, v.str('dname', 'text', 1, None, '"\\'), v.token('tname')])
    a = SipAddress(name=name, url=addr_url(v))
    addr_params(v, a)
    s = str(a)
    p = SipAddress(s)
    v.ensure('parsed-back', addr_same(v, p, a))
    v.ensure('written-again', v.eq(str(p), s))
    for x in (a, p):
        c = x.getCopy()
        v.ensure('copy-same', addr_same(v, c, x) and v.eq(str(c), s))
        v.ensure('copy-apart', shared(x, c) == [])
    # parameters can be read, set and removed
    n = len(a.params_order)
    if n > 0:
        v.ensure('param', v.eq(p.getParam('tag'), v.token('pv0')))
        p.delParam('tag')
        v.ensure('param-gone', p.getParam('tag') is None and len(p.params_order) == n - 1 and SipAddress(str(p)).getParam('tag') is None)
    p.setParam('tag', 'new')
    v.ensure('param-set', p.getParam('tag') == 'new' and SipAddress(str(p)).getParam('tag') == 'new')
    v.ensure('original-untouched', v.eq(str(a), s))
    v.cover('named' if name else 'unnamed')


@contract('C09', targets=[D + 'SipAddress.py:SipAddress.__init__'], bounded='the listed forms, one blank where blanks may stand')
def address_text(v):
    """addresses as the network writes them"""
    form = v.choice('form', ['bare', 'brackets', 'name', 'quoted', 'escaped', 'tricky'])
    scheme = v.choice('scheme', ['sip', 'SIP', 'sips'])
    port = v.opt('port', lambda: v.int('portn', 1, 65535))
    uri = '%s:%s@h%s%s' % (scheme, v.str('u', 'alnum', 1), v.str('hostn', 'alnum'), '' if port is None else ':%d' % port)
    tag = v.token('tag')
    ps = [('tag', tag), ('q', v.choice('q', ['0.5', None] if form not in ('bare', 'name') else [None, v.token('qv') + '=' + v.str('qe', 'text', 0, 12, ' ;=,<>"') + '=']))]
    pt = ''.join('%s;%s%s%s' % (sp(v, 's1'), sp(v, 's2'), k, '' if x is None else '=' + x) for k, x in ps)
    up = '' if form == 'bare' else v.choice('uparams', ['', ';lr'])
    if form == 'bare':
        s, name = uri + pt, ''
    elif form == 'brackets':
        s, name = '<%s%s>%s' % (uri, up, pt), ''
    elif form == 'name':
        name = v.token('n1') + ' ' + v.token('n2')
        s = '%s%s<%s%s>%s' % (name, sp(v, 's3'), uri, up, pt)
    else:
        name = {'quoted': v.str('dname', 'text', 0, None, '"\\'), 'escaped': v.str('e1', 'text', 0, None, '"\\') + '\\"' + v.str('e2', 'text', 0, None, '"\\'),
                'tricky': '<sip:x@y>;tag=1, ' + v.str('e1', 'alnum')}[form]
        s = '"%s"%s<%s%s>%s' % (name, sp(v, 's3'), uri, up, pt)
    a = SipAddress(s)
    want = ('sips' if scheme == 'sips' else 'sip', v.str('u', 'alnum', 1), 'h' + v.str('hostn', 'alnum'), port, up != '')
    v.ensure('name', v.eq(a.name or '', name))
    v.ensure('uri', v.eq((a.url.scheme, a.url.username, a.url.host, a.url.port, a.url.lr), want))
    v.ensure('parameters', v.eq([(k, a.getParam(k)) for k in a.params_order], ps))
    w = SipAddress(str(a))
    v.ensure('rewritten-same', v.and_(v.eq(w.name or '', name), url_same(v, w.url, a.url), v.eq(w.params, a.params)))
    v.cover(form)


AHF = [SipFrom, SipTo, SipContact, SipRoute, SipRecordRoute, SipPath, SipReferTo, SipReferredBy, SipAlso, SipDiversion, SipCCDiversion, SipPAssertedIdentity]


@contract(('C08', 'C09'), targets=[D + 'SipAddressHF.py:SipAddressHF', D + 'SipFrom.py:SipFrom', D + 'SipContact.py:SipContact', D + 'SipRoute.py:SipRoute',
                                   D + 'SipRecordRoute.py:SipRecordRoute'])
def address_header(v):
    """headers that hold an address: written, parsed and copied, parsed or not"""
    cls = v.choice('cls', AHF)
    a = SipAddress(name=v.choice('name', [None, v.str('dname', 'text', 1, None, '",\\')]), url=addr_url(v))
    if v.flag('tag'):
        a.setParam('tag', v.token('tagv'))
    o = cls(address=a)
    s = str(o)
    v.ensure('text', v.eq(s, str(a)) and v.eq(o.localStr(LA), s))
    p = cls(s)
    raw = p.getCopy()
    v.ensure('raw-copy', v.eq(str(raw), s) and raw.__class__ is cls)
    raw.parse()
    p.parse()
    v.ensure('parsed', addr_same(v, p.address, a) and addr_same(v, raw.address, a))
    for x in (o, p):
        c = x.getCopy()
        v.ensure('copy', c.__class__ is cls and v.eq(str(c), s) and addr_same(v, c.address, a) and shared(x, c) == [])
    v.ensure('uri', p.getUri() is p.address and p.getUrl() is p.address.url)
    if isinstance(o, SipFrom):
        v.ensure('tag', v.eq(p.getTag(), v.token('tagv') if v.flag('tag') else None))
        p.setTag('other')
        v.ensure('tag-set', p.getTag() == 'other' and cls(str(p)).getCopy().__class__ is cls)
        q = cls(str(p))
        q.parse()
        v.ensure('tag-written', q.getTag() == 'other')
        p.delTag()
        r = cls(str(p))
        r.parse()
        v.ensure('tag-removed', p.getTag() is None and r.getTag() is None)
    if isinstance(o, (SipRoute, SipRecordRoute)):
        v.ensure('address', v.eq(o.getAddr(), a.url.getAddr()))
    v.ensure('original-untouched', v.eq(str(o), s))
    v.cover(cls.__name__)


@contract(('C08', 'C09'), targets=[D + 'SipAddressHF.py:SipAddressHF.__init__', D + 'SipVia.py:SipVia.__init__'], bounded='up to three values')
def header_lists(v):
    """values separated by commas are kept apart, commas within names or brackets do not separate"""
    k = v.choice('n', [1, 2, 3])
    if v.flag('via'):
        xs = ['SIP/2.0/UDP %s:%d;branch=%s' % (v.str('vh%d' % i, 'alnum', 1), v.int('vp%d' % i, 1, 65535), v.str('vb%d' % i, 'alnum')) for i in range(k)]
        cls = SipVia
    else:
        cls = v.choice('cls', [SipContact, SipRoute, SipRecordRoute, SipDiversion])
        forms = v.choice('forms', [('bare', 'quoted', 'brackets'), ('comma', 'bare', 'comma'), ('brackets', 'comma', 'quoted'), ('quoted', 'brackets', 'bare')])
        xs = []
        for i in range(k):
            u = 'sip:u%d@h%s' % (i, v.str('h%d' % i, 'alnum'))
            xs.append({'bare': u + ';q=1', 'brackets': '<%s;lr>;p=1' % u, 'quoted': '"n, %s" <%s>' % (v.str('n%d' % i, 'alnum'), u),
                       'comma': '"%s, <x>" <%s;x=1,2>' % (v.str('n%d' % i, 'alnum'), u)}[forms[i]])
    sep = v.choice('sep', [',', ', ', ' , '])
    r = v.call(cls, sep.join(xs))
    if k == 1:
        v.ensure('single', r.ok and v.eq(str(r.value), xs[0]))
    else:
        v.ensure('separated', r.raised(ESipHeaderCSV) and v.eq([x.strip() for x in r.exc.bodys], xs))
    v.cover('%d' % k)


@contract('C08', targets=[D + 'SipContact.py:SipContact.parse', D + 'SipContact.py:SipContact.getCopy'])
def contact_asterisk(v):
    h = SipHeader('%s: *' % v.choice('n', ['Contact', 'm']), fixname=True)
    o = h.getBody()
    v.ensure('asterisk', o.asterisk and str(o) == '*')
    c = h.getCopy()
    v.ensure('copy', c.getBody().asterisk and str(c) == 'Contact: *')
