"""C30: bodies of several parts; C31: allowed codecs"""
from pyvc.api import contract
from sippy.MsgBody import MsgBody
from sippy.MultipartMixBody import MultipartMixBody
from sippy.SdpBody import SdpBody
from sippy.SdpOrigin import SdpOrigin
from sippy.SipContentType import SipContentType
from sippy.SipRequest import SipRequest
from sippy.SipHeader import SipHeader
from sippy.b2bua import CallController
from sippy.Exceptions.SdpParseError import SdpParseError
from contracts.lib import Sim
from contracts.p_b2b import Resolver
from contracts.p_call import FUA, FSess, mkcall, trying, routes
from sippy.MyConfigParser import MyConfigParser
from sippy.CCEvents import CCEventFail
from contracts.p_sdp import text as sdptext

P = 'sippy/MultipartMixBody.py:MultipartMixBody.'
MB = 'sippy/MsgBody.py:MsgBody.'
CT = 'sippy/SipContentType.py:SipContentType.'


def ctype(v, bnd, quoted=False):
    """the Content-Type of a body of several parts"""
    sp = [('', ''), (' ', ''), (' ', ' ')][v.choice('spaces', [0, 1, 2])]
    more = v.choice('more', ['', ';charset=utf-8'])
    name = v.choice('case', ['multipart/mixed', 'Multipart/Mixed'])
    val = '"%s"' % bnd if quoted else bnd
    s = name + more + ';' + sp[0] + 'boundary' + sp[1] + '=' + sp[1] + val
    r = SipContentType(s)
    r.parse()
    return r, name, val


def parts(v, n):
    """parts: (type as written or None, type as told, other headers, content)"""
    r = []
    for i in range(n):
        t = v.choice('type%d' % i, [None, ['text/plain', 'application/pidf+xml', 'application/x;a=b'][i]])
        h = []
        if (i != 1) == (n < 3) and v.flag('disp%d' % i):
            h.append('Content-Disposition: by-reference;handling=' + v.str('h%d' % i, 'alnum', 1))
        if i == n - 1 and v.flag('own%d' % i):
            h.append('X-Own: ' + 'x' + v.str('o%d' % i, 'alnum'))
        c = v.choice('lines%d' % i, [0, 1, 2] if n < 3 else [0, 2])
        body = '\r\n'.join(['x' + v.str('l%d-%d' % (i, k), 'text') for k in range(c)] + ([''] if c > 0 else []))
        r.append((t, t if t is not None else 'text/plain', h, body))
    return r


def written(bnd, ps, pre='', post='', late=False):
    s = pre
    for t, told, h, body in ps:
        hs = ['Content-Type: ' + t] if t is not None else []
        hs = h + hs if late else hs + h
        s += '--' + bnd + '\r\n' + ''.join([x + '\r\n' for x in hs]) + '\r\n' + body + '\r\n'
    return s + '--' + bnd + '--' + post


def carried(v, label, out, bnd, ps):
    """the text has these parts, with these headers, and nothing else"""
    ls = out.split('\r\n')
    for t, told, h, body in ps:
        v.ensure(label + '-delimiter', v.eq(ls.pop(0), '--' + bnd))
        want = dict([x.split(': ', 1) for x in ['Content-Type: ' + told] + h])
        want = dict([(k.lower(), x) for k, x in want.items()])
        while len(want) > 0:
            l = ls.pop(0)
            v.ensure(label + '-headers', l.count(':') > 0)
            name, val = l.split(':', 1)
            name = name.lower()
            v.ensure(label + '-headers', name in want and v.eq(val.strip(), want[name]))
            want.pop(name)
        v.ensure(label + '-empty-line', v.eq(ls.pop(0), ''))
        for l in body.split('\r\n'):
            v.ensure(label + '-content', v.eq(ls.pop(0), l))
    v.ensure(label + '-end', v.and_(len(ls) in (1, 2), v.eq(ls[0], '--' + bnd + '--'), ls[1:] in ([], [''])))


def made(v, b):
    v.ensure('parsed', isinstance(b.content, MultipartMixBody))
    return b.content


@contract('C30', targets=[P + '__init__', P + '__str__', P + 'partHeaders', P + 'setBoundary', MB + 'parse', MB + 'getType', CT + 'parse'], bounded='up to three parts')
def body_parts(v):
    """every part comes out as it came in: its type, its headers and its content"""
    bnd = 'b' + v.str('bs', 'alnum')
    ct = SipContentType('multipart/mixed;boundary=' + bnd)
    ct.parse()
    ps = parts(v, v.choice('n', [1, 2, 3]))
    b = MsgBody(written(bnd, ps, late=len(ps) < 3 and v.flag('late')), ct)
    b.parse()
    m = made(v, b)
    v.ensure('parts', len(m.parts) == len(ps))
    for i, (t, told, h, body) in enumerate(ps):
        v.ensure('type', v.eq(str(m.parts[i].mtype), told))
        got = str(m.parts[i])
        v.ensure('content', v.or_(v.eq(got, body + '\r\n'), v.eq(got, body)))
    carried(v, 'passed-on', str(b), bnd, ps)
    carried(v, 'local', b.localStr((('1.2.3.4', 5060), 'udp')), bnd, ps)
    c = b.getCopy()
    carried(v, 'copied', str(c), bnd, ps)
    v.ensure('copy-type', v.eq(str(c.mtype), str(ct)))
    v.cover('parts')


@contract('C30', targets=[P + '__init__', P + '__str__', P + 'setBoundary', P + 'getContentType', MB + 'parse', MB + 'getType', CT + 'parse', CT + '__str__'])
def body_envelope(v):
    """whatever way the boundary is told and whatever precedes the first part and follows the last"""
    bnd = v.choice('bnd', ['b' + v.str('bs', 'alnum'), 'b' + v.str('bs', 'alnum') + "'()+_,-./:=?"])
    q = v.flag('quoted')
    ct, name, val = ctype(v, bnd, q)
    pre = v.choice('pre', ['', '\r\n', 'x' + v.str('prel', 'alnum') + '\r\n', 'x\r\n\r\n'])
    post = v.choice('post', ['', '\r\n', '\r\nx' + v.str('postl', 'alnum'), '\r\n\r\nx\r\n'])
    ps = [('text/plain', 'text/plain', [], 'x' + v.str('one', 'text')), ('application/y', 'application/y', [], 'x' + v.str('two', 'text') + '\r\n\r\n--y\r\n')]
    b = MsgBody(written(bnd, ps, pre, post), ct)
    b.parse()
    m = made(v, b)
    v.ensure('boundary', v.eq(m.boundary, bnd))
    carried(v, 'passed-on', str(b), bnd, ps)
    got = m.getContentType()
    v.ensure('own-type', v.and_(got.name == 'multipart/mixed', v.eq(got.params['boundary'], val)))
    v.ensure('type', b.getType() == 'multipart/mixed')
    told = SipContentType(str(b.mtype))
    told.parse()
    v.ensure('type-told', v.and_(told.name.lower() == 'multipart/mixed', v.eq(told.params['boundary'], val)))
    c = b.getCopy()
    carried(v, 'copied', str(c), bnd, ps)
    v.ensure('copy-type', v.and_(v.eq(str(c.mtype), str(b.mtype)), v.eq(str(c.content.getContentType()), str(got))))
    b.parse()
    v.ensure('parsed-once', b.content is m)
    v.cover('envelope')


def sdp(v, name, host=None):
    """(text, body) of a session description"""
    ls = [('v', '0'), ('o', '- %d 1 IN IP4 192.0.2.1' % v.int(name + 'id', 0, 1 << 60)), ('s', '-'), ('t', '0 0'),
          ('m', 'audio %d RTP/AVP 0' % v.int(name + 'port', 0, 65535)), ('c', 'IN IP4 ' + (host if host is not None else 'h' + v.str(name + 'host', 'alnum')))]
    return sdptext(ls)


@contract('C30', targets=[P + '__str__', P + 'localStr', P + 'partHeaders', P + 'getCopy', P + 'setBoundary', P + 'getContentType', MB + 'getCopy', MB + 'localStr', MB + '__str__'], bounded='three parts')
def body_made(v):
    """bodies put together by the application: our address goes into the session descriptions,
    and copies have a life of their own"""
    sd = SdpBody(sdp(v, 'own'))
    sd.o_header = SdpOrigin()
    other = 'x' + v.str('other', 'text')
    eol = v.choice('eol', ['', '\r\n'])
    order = v.flag('sdp-first')
    m = MultipartMixBody()
    ps = [MsgBody(sd), MsgBody(other + eol, SipContentType('text/plain'))]
    ps[1].mtype.parse()
    for x in ps if order else reversed(ps):
        m.parts.append(x)
    m2 = MultipartMixBody()
    v.ensure('own-boundary', m.boundary != m2.boundary and len(m.boundary) > 0 and m2.parts == [])
    if v.flag('named'):
        m.setBoundary('b' + v.str('bs', 'alnum'))
    bnd = m.boundary
    v.ensure('told', v.and_(m.getContentType().name == 'multipart/mixed', v.eq(m.getContentType().params['boundary'], bnd)))
    v.ensure('not-shared', v.eq(m2.getContentType().params['boundary'], m2.boundary))
    b = MsgBody(m, m.getContentType())
    to = (('10.1.1.1', 5060), 'udp')
    s = sd.localStr(to)
    v.ensure('address', s.count('10.1.1.1') == 1 and sd.o_header.localStr().count('10.1.1.1') == 0)
    def want(x, y=other):
        r = [('application/sdp', 'application/sdp', [], x.removesuffix('\r\n')), ('text/plain', 'text/plain', [], y)]
        return r if order else [r[1], r[0]]
    carried(v, 'sent', b.localStr(to), bnd, want(s))
    c = b.getCopy()
    if v.flag('twice'):
        c = c.getCopy()
    carried(v, 'copy-sent', c.localStr(to), bnd, want(s))
    v.ensure('copy-told', v.eq(str(c.mtype), str(b.mtype)) and v.eq(c.content.boundary, bnd))
    sdc = c.content.parts[0 if order else 1].content
    v.ensure('copy-kind', isinstance(sdc, SdpBody))
    first, second = (b, c) if v.flag('change-copy') else (c, b)
    changed, kept = (sdc, sd) if first is b else (sd, sdc)
    changed.sections[0].c_header.addr = '198.51.100.1'
    changed.sections[0].m_header.port = 9
    (c if first is b else b).content.setBoundary('another')
    carried(v, 'kept', first.localStr(to), bnd, want(s))
    v.ensure('kept-told', v.eq(first.content.getContentType().params['boundary'], bnd))
    carried(v, 'changed', second.localStr(to), 'another', want(changed.localStr(to)))
    told = str(first.mtype)
    second.mtype.params['boundary'] = 'another'
    v.ensure('kept-type', v.eq(str(first.mtype), told))
    (c if first is b else b).content.parts.pop()
    v.ensure('kept-parts', len(first.content.parts) == 2 and len(second.content.parts) == 1)
    v.cover('made')


@contract('C30', targets=[MB + '__init__', MB + 'parse', MB + 'getCopy', MB + '__str__', MB + 'getType', CT + 'getCopy', CT + 'parse', CT + '__str__'])
def body_unread(v):
    """copies of bodies, and of types, that nobody has looked into yet can be read as the original"""
    kind = v.choice('kind', ['application/sdp', 'Application/SDP', 'multipart/mixed', 'text/plain'])
    text = 'x' + v.str('text', 'text')
    if kind == 'multipart/mixed':
        text = '--bnd\r\n\r\n' + text + '\r\n--bnd--\r\n'
    elif kind != 'text/plain':
        text = sdp(v, 'a')
    t = SipContentType(kind + (';boundary=bnd' if kind == 'multipart/mixed' else ''))
    t = t.getCopy()
    t.parse()
    b = MsgBody(text, t)
    again = v.choice('looked', ['never', 'before', 'between'])
    if again == 'before':
        b.parse()
    c = b.getCopy()
    if again == 'between':
        b.parse()
    v.ensure('same', v.and_(v.eq(str(c), str(b) if again != 'between' else text), v.eq(str(c.mtype), str(t)), c.getType() == kind.lower()))
    c.parse()
    b.parse()
    c.parse()
    want = {'multipart/mixed': MultipartMixBody, 'text/plain': str}.get(kind, SdpBody)
    for x in (b, c):
        v.ensure('read', isinstance(x.content, want) if want is not str else v.eq(x.content, text))
    v.ensure('same-read', v.eq(str(c), str(b)))
    c.mtype.params['x'] = 'y'
    v.ensure('own-type', 'x' not in b.mtype.params)
    if want is MultipartMixBody:
        c.content.parts.pop()
        v.ensure('own-content', len(b.content.parts) == 1)
    elif want is SdpBody:
        c.content.sections[0].m_header.port = 9
        b.content.sections[0].m_header.port = 10
        v.ensure('own-content', c.content.sections[0].m_header.port == 9)
    v.cover(kind + ' ' + again)


@contract('C30', targets=[P + '__init__', P + '__str__', MB + 'parse', MB + 'getCopy', MB + 'localStr', CT + 'getCopy', CT + '__str__',
                          'sippy/SipMsg.py:SipMsg.localStr', 'sippy/SipMsg.py:SipMsg.getBody', 'sippy/SipMsg.py:SipMsg.setBody'], bounded='two parts')
def body_through(v):
    """a body of several parts in a message, and in the message it goes out with"""
    bnd = 'b' + v.str('bs', 'alnum')
    q = v.flag('quoted')
    ps = [('application/sdp', 'application/sdp', ['Content-Disposition: session'] if v.flag('disp') else [], sdp(v, 'a')),
          ('application/pidf+xml', 'application/pidf+xml', ['Content-Id: <%s@x>' % v.str('cid', 'alnum', 1)], 'x' + v.str('doc', 'alnum'))]
    body = written(bnd, ps)
    sp = v.choice('sp', ['', ' '])
    r = SipRequest('INVITE sip:u@h SIP/2.0\r\nVia: SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKx\r\nFrom: <sip:a@b>;tag=1\r\nTo: <sip:c@d>\r\nCall-ID: x\r\nCSeq: 1 INVITE\r\n'
                   + 'Content-Type: multipart/mixed;' + sp + 'boundary=' + ('"%s"' % bnd if q else bnd) + '\r\n\r\n' + body)
    r.init_body()
    b = r.getBody()
    if v.flag('parsed'):
        b.parse()
    c = b.getCopy()
    if v.flag('parsed-later'):
        c.parse()
    out = SipRequest(method='INVITE', ruri=r.ruri.getCopy(), sipver='SIP/2.0', to=r.getHFBody('to').getCopy(), fr0m=r.getHFBody('from').getCopy(),
                     callid=r.getHFBody('call-id').getCopy(), cseq=7, maxforwards=r.getHFBody('call-id').getCopy(), body=c)
    compact = v.flag('compact')
    s = out.localStr((('10.1.1.1', 5060), 'udp'), compact)
    hs, bs = s.split('\r\n\r\n', 1)
    carried(v, 'sent', bs, bnd, ps)
    h = dict([x.split(': ', 1) for x in hs.split('\r\n')[1:]])
    ct = SipContentType(h['c' if compact else 'Content-Type'])
    ct.parse()
    v.ensure('type', v.and_(ct.name == 'multipart/mixed', v.eq(ct.params['boundary'].replace('"', ''), bnd)))
    v.ensure('length', v.eq(h['l' if compact else 'Content-Length'], '%d' % v.utf8len(bs)))
    v.cover('through')


F = 'sippy/b2bua.py:CallController.'
MD = 'sippy/SdpMediaDescription.py:SdpMediaDescription.'


def allowing(v, sim, allowed, **more):
    cfg, cc, ph = mkcall(v, sim, acct=False, _allowed_pts=allowed, **more)
    return cfg, cc


def offer(v, n, transport, kind='audio', ename=None, host='192.0.2.5'):
    """an offer with one stream of n formats: text, formats, names by format"""
    pts = [v.int('pt%d' % i, 0, 127) for i in range(n)]
    for i in range(n):
        v.assume(v.and_(*[pts[i] != x for x in pts[:i]]) if i else True)
    names = [None if not v.flag('map%d' % i) else 'X' + v.str('name%d' % i, 'alnum') + '/8000' for i in range(n)]
    return pts, names


def offer_text(kind, transport, pts, names, before=(), after=()):
    ls = [('v', '0'), ('o', '- 1 1 IN IP4 192.0.2.1'), ('s', '-'), ('t', '0 0'),
          ('m', '%s 5004 %s %s' % (kind, transport, ' '.join(['%d' % x for x in pts]))), ('c', 'IN IP4 192.0.2.5')]
    ls += [('a', x) for x in before]
    for p, n in zip(pts, names):
        if n is not None:
            ls.append(('a', 'rtpmap:%d %s' % (p, n)))
        ls.append(('a', 'fmtp:%d x=1' % p))
    return sdptext(ls + [('a', x) for x in after])


def is_allowed(v, pts, names, nums, codec):
    """which of the formats the policy lets through"""
    r = []
    for i, p in enumerate(pts):
        ok = v.or_(*[v.eq(p, x) for x in nums]) if nums else False
        if codec is not None and names[i] is not None:
            first = v.and_(v.eq(names[i], codec), *[v.not_(v.eq(x, codec)) for x in names[:i] if x is not None])
            ok = v.or_(ok, first)
        r.append(True if ok else False)
    return r


@contract('C31', targets=[F + 'filter_SDP', F + 'filter_content', F + '__init__', MD + 'getPTbyName', MD + 'optimize_a'], bounded='up to three formats')
def codecs_filtered(v):
    """only formats that the operator allows, by number or by name, get through, with what is said about them"""
    sim = Sim(v)
    nums = [v.int('num', 0, 127)] if v.flag('by-number') else []
    codec = 'X' + v.str('codec', 'alnum') + '/8000' if v.flag('by-name') else None
    cfg, cc = allowing(v, sim, nums + ([codec] if codec is not None else []))
    kind = v.choice('kind', ['audio', 'video', 'text'])
    transport = v.choice('transport', ['RTP/AVP', 'rtp/savp', 'RTP/SAVPF', 'UDP/TLS/RTP/SAVPF'][:1 + 3 * (kind == 'audio')])
    pts, names = offer(v, v.choice('n', [1, 2, 3]) if kind == 'audio' else 2, transport)
    more = v.choice('odd', [(), ('rtpmap',), ('rtpmap:x', 'rtpmap: Xy/8000')]) if kind == 'audio' and len(pts) < 3 else ()
    b = MsgBody(offer_text(kind, transport, pts, names, more, ('sendrecv', 'ptime:20')))
    ok = is_allowed(v, pts, names, nums, codec)
    told = []
    out = v.call(cc.uaA.on_remote_sdp_change, b, told.append)
    if not any(ok):
        v.ensure('refused', not out.ok and isinstance(out.exc, SdpParseError))
        v.ensure('not-passed-on', told == [])
        v.cover('refused')
        return
    v.ensure('passed', out.ok and told == [])
    kept = [i for i, x in enumerate(ok) if x]
    want = list(more)
    for i in kept:
        want += (['rtpmap:%d %s' % (pts[i], names[i])] if names[i] is not None else []) + ['fmtp:%d x=1' % pts[i]]
    ls = str(out.value).split('\r\n')
    v.ensure('formats', v.eq([x for x in ls if x[:2] == 'm='], ['m=%s 5004 %s %s' % (kind, transport, ' '.join(['%d' % pts[i] for i in kept]))]))
    v.ensure('attributes', v.eq([x[2:] for x in ls if x[:2] == 'a='], want + ['sendrecv', 'ptime:20']))
    v.ensure('rest', v.eq([x for x in ls if x[:2] not in ('m=', 'a=')], ['v=0', 'o=- 1 1 IN IP4 192.0.2.1', 's=-', 'c=IN IP4 192.0.2.5', 't=0 0', '']))
    v.cover('passed %d' % len(kept))


@contract('C31', targets=[F + 'filter_SDP', F + 'filter_content'], bounded='two streams')
def codecs_streams(v):
    """every stream over RTP is filtered, wherever the description is; others are let through"""
    sim = Sim(v)
    cfg, cc = allowing(v, sim, [8, 101])
    fmts = [v.choice('f%d' % i, [[8], [0, 8], [0], [101, 8, 0], []]) for i in range(2)]
    v.assume(len(fmts[0]) > 0)
    trs = ['RTP/AVP', v.choice('tr', ['RTP/SAVP', 'udptl'])]
    ls = [('v', '0'), ('o', '- 1 1 IN IP4 192.0.2.1'), ('s', '-'), ('c', 'IN IP4 192.0.2.5'), ('t', '0 0')]
    for f, tr in zip(fmts, trs):
        if tr == 'udptl':
            ls.append(('m', 'image 5006 udptl t38'))
        elif len(f) > 0:
            ls.append(('m', 'audio 5004 %s %s' % (tr, ' '.join([str(x) for x in f]))))
    where = v.choice('where', ['plain', 'multipart', 'text', 'broken', 'broken-part', 'later'])
    t = sdptext(ls)
    if where in ('broken', 'broken-part'):
        t = t.replace('t=0 0\r\n', '')
    if where in ('plain', 'broken'):
        b = MsgBody(t)
    elif where == 'text':
        b = MsgBody(t, SipContentType('text/plain'))
        b.mtype.parse()
    else:
        ct = SipContentType('multipart/mixed;boundary=bnd')
        ct.parse()
        ps = [('text/plain', 'text/plain', [], 'hello m=audio'), ('application/sdp', 'application/sdp', [], t)]
        b = MsgBody(written('bnd', ps), ct)
    if where == 'later':
        b.parse()
    used = [f for f, tr in zip(fmts, trs) if tr != 'udptl' and len(f) > 0]
    bad = any(all(x not in (8, 101) for x in f) for f in used)
    out = v.call(cc.uaA.on_remote_sdp_change, b, None)
    if where == 'text':
        v.ensure('untouched', out.ok and v.eq(str(out.value), t))
        v.cover('text')
        return
    if where in ('broken', 'broken-part') or bad:
        v.ensure('refused', not out.ok and isinstance(out.exc, SdpParseError))
        v.cover('refused ' + where)
        return
    v.ensure('passed', out.ok)
    got = [x for x in str(out.value).split('\r\n') if x[:2] == 'm=']
    want = []
    for f, tr in zip(fmts, trs):
        if tr == 'udptl':
            want.append('m=image 5006 udptl t38')
        elif len(f) > 0:
            want.append('m=audio 5004 %s %s' % (tr, ' '.join([str(x) for x in f if x != 0])))
    v.ensure('formats', got == want)
    if where != 'plain':
        v.ensure('others', 'hello m=audio' in str(out.value).split('\r\n'))
    v.cover('passed ' + where)


@contract('C31', targets=[F + 'filter_SDP', F + 'placeOriginate', F + '__init__'])
def codecs_both_ways(v):
    """both sides of the call are filtered, and what is left goes through the RTP proxy"""
    sim = Sim(v)
    Resolver(v, '4')
    v.patch(FSess, 'all', [])
    v.patch(CallController, 'rtpps_cls', FSess)
    v.patch(FSess, 'AV_TRTYPES', ('rtp/avp',))
    relayed = v.flag('relayed')
    policy = v.flag('policy')
    more = {'_rtp_proxy_clients': ['x']} if relayed else {}
    if policy:
        more['_allowed_pts'] = [8]
    cfg, cc, ph = mkcall(v, sim, acct=False, **more)
    trying(v, sim, cc)
    cfg['_radius_client'].asked[0][0][5](routes(['a@h0', 'a@h1']))
    FUA.all[1].tell(CCEventFail((503, 'x'), rtime=sim.mt()))
    t = sdptext([('v', '0'), ('o', '- 1 1 IN IP4 192.0.2.1'), ('s', '-'), ('c', 'IN IP4 192.0.2.5'), ('t', '0 0'), ('m', 'audio 5004 RTP/AVP 0 8')])
    for i, u in enumerate(FUA.all):
        if not policy and (i == 0 or not relayed):  # nothing to do
            v.ensure('no-policy', u.on_remote_sdp_change is None)
            continue
        b = MsgBody(t)
        done = object()
        got = u.on_remote_sdp_change(b, done)
        want = t.replace(' 0 8', ' 8') if policy else t
        if i > 0 and relayed:
            v.ensure('through-the-proxy', got[0] == 'callee' and str(got[1][0]) == want and got[1][1] is done)
        else:
            v.ensure('straight', str(got) == want)
        for bad in ('v=0\r\n', t.replace(' 0 8', ' 0')):
            if policy:
                out = v.call(u.on_remote_sdp_change, MsgBody(bad), done)
                v.ensure('refused', not out.ok and isinstance(out.exc, SdpParseError))
    v.cover('both')


@contract('C31', targets=['sippy/MyConfigParser.py:MyConfigParser.check_and_set'])
def codecs_configured(v):
    """the policy as configured: numbers, and names in brackets"""
    cfg = MyConfigParser()
    n = v.int('n', 0, 127)
    name = 'X' + v.str('name', 'alnum') + '/8000'
    order = v.flag('order')
    a, b = ('%d' % n, '[%s]' % name) if order else ('[%s]' % name, '%d' % n)
    cfg.check_and_set('allowed_pts', a + ',' + b)
    got = cfg['_allowed_pts']
    v.ensure('policy', v.eq(got, [n, name] if order else [name, n]))
    v.cover('configured')


@contract('C31', targets=[F + 'filter_SDP', MD + 'getPTbyName', MD + 'optimize_a'], bounded='two streams')
def codecs_by_stream(v):
    """a name stands for the number that the stream itself maps it to"""
    sim = Sim(v)
    codec = 'X' + v.str('codec', 'alnum') + '/8000'
    cfg, cc = allowing(v, sim, [codec, 5])
    ls = [('v', '0'), ('o', '- 1 1 IN IP4 192.0.2.1'), ('s', '-'), ('c', 'IN IP4 192.0.2.5'), ('t', '0 0')]
    want, wanta = [], []
    for i in range(2):
        p, q = v.int('p%d' % i, 6, 127), v.int('q%d' % i, 6, 127)
        v.assume(p != q)
        has = v.flag('has%d' % i)
        ls += [('m', 'audio 5004 RTP/AVP %d 5 %d' % (p, q)), ('a', 'rtpmap:%d Y/8000' % p)]
        if has:
            ls.append(('a', 'rtpmap:%d %s' % (q, codec)))
        want.append('m=audio 5004 RTP/AVP 5' + (' %d' % q if has else ''))
        if has:
            wanta.append('a=rtpmap:%d %s' % (q, codec))
    v.assume(v.not_(v.eq(codec, 'Y/8000')))
    s = str(cc.uaA.on_remote_sdp_change(MsgBody(sdptext(ls)), None)).split('\r\n')
    v.ensure('formats', v.eq([x for x in s if x[:2] == 'm='], want))
    v.ensure('attributes', v.eq([x for x in s if x[:2] == 'a='], wanta))
    v.cover('by stream')
