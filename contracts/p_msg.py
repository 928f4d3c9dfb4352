"""C10, C11: messages - framing, body, what is derived from a request"""
from pyvc.api import contract
from contracts.p_hdr import shared, reach, fields
from sippy.SipRequest import SipRequest
from sippy.SipResponse import SipResponse
from sippy.SipMsg import SipMsg
from sippy.SipHeader import SipHeader
from sippy.SipVia import SipVia
from sippy.SipFrom import SipFrom
from sippy.SipTo import SipTo
from sippy.SipCSeq import SipCSeq
from sippy.SipCallId import SipCallId
from sippy.SipContact import SipContact
from sippy.SipRoute import SipRoute
from sippy.SipURL import SipURL
from sippy.SipAddress import SipAddress
from sippy.SipMaxForwards import SipMaxForwards
from sippy.SipReason import SipReason
from sippy.SipContentType import SipContentType
from sippy.MsgBody import MsgBody
from sippy.SipConf import MyAddress, MyPort, SipConf
from sippy.Exceptions.SipParseError import SipParseError

D = 'sippy/'
M = D + 'SipMsg.py:SipMsg.'
R = D + 'SipRequest.py:SipRequest.'
SL = {'request': 'INVITE sip:%s@h SIP/2.0', 'response': 'SIP/2.0 %d %s'}


def start(v, kind):
    """start line, and what it means"""
    if kind == 'request':
        m, u = v.token('method'), v.str('ruser', 'alnum', 1)
        return '%s sip:%s@h SIP/2.0' % (m, u), SipRequest
    c = v.int('code', 101, 399)
    return 'SIP/2.0 %d %s' % (c, v.token('reason')), SipResponse


def basic(v):
    """the mandatory header lines: [(name as told, value)]"""
    return [('via', 'SIP/2.0/UDP h;branch=%s' % v.token('br')), ('from', '<sip:a@b>;tag=%s' % v.token('ft')), ('to', '<sip:c@d>'),
            ('call-id', 'i' + v.str('cid', 'text', 0, None, ' ')), ('cseq', '%d %s' % (v.int('cseq', 0, 2 ** 31 - 1), v.token('cm')))]


NAMES = {'via': ['Via', 'v', 'VIA'], 'from': ['From', 'f'], 'to': ['To', 't', 'tO'], 'call-id': ['Call-ID', 'i', 'call-id'], 'cseq': ['CSeq'],
         'contact': ['Contact', 'm'], 'route': ['Route'], 'record-route': ['Record-Route']}


def told(hs):
    return [(h.name, str(h.body)) for h in hs]


def value(v, name):
    return v.token(name + 'a') + ' ' + v.str(name + 'b', 'text', 0, None, ' ') + '.'


@contract('C11', targets=[M + '__init__', R + 'setSL', R + 'getSL', D + 'SipResponse.py:SipResponse.setSL', D + 'SipResponse.py:SipResponse.getSL',
                          D + 'SipHeader.py:SipHeader.__init__'], bounded='up to three further header lines, folded at most twice')
def msg_headers(v):
    """start line, every header line in order, folded lines joined"""
    kind = v.choice('kind', ['request', 'response'])
    eol = v.choice('eol', ['\r\n', '\n', '\r'])
    sl, cls = start(v, kind)
    lines, want = [sl], []
    bs = basic(v)
    extra = []
    what = v.choice('what', ['place', 'shape'])
    turn = v.choice('turn', [0, 1, 2, 3, 4]) if what == 'place' else 0
    bs = bs[turn:] + bs[:turn]
    at = v.choice('at', [0, 2, 5]) if what == 'place' else 5 * v.flag('last')
    shape = v.choice('extra', ['repeated'] if what == 'place' else ['none', 'one', 'repeated', 'folded', 'folded-twice', 'folded-blank', 'named-folded', 'empty', 'colon', 'spaced'])
    n1, n2 = 'X-' + v.str('n1', 'alnum', 1), 'x-' + v.str('n2', 'alnum', 1)
    a, b, c = value(v, 'p'), value(v, 'q'), v.token('r')
    ws = v.choice('ws', [' ', '\t ']) if 'folded' in shape else ' '
    if shape == 'one':
        extra = [(n1 + ': ' + a, n1.lower(), a)]
    elif shape == 'repeated':
        extra = [(n1 + ': ' + a, n1.lower(), a), (n2 + ':' + b, n2.lower(), b), (n1 + ': ' + c, n1.lower(), c)]
    elif shape == 'folded':
        extra = [(n1 + ': ' + a + eol + ws + b, n1.lower(), a + ' ' + b), (n2 + ': ' + c, n2.lower(), c)]
    elif shape == 'folded-twice':
        extra = [(n1 + ': ' + a + eol + ws + b + eol + ws + c, n1.lower(), a + ' ' + b + ' ' + c)]
    elif shape == 'folded-blank':
        extra = [(n1 + ':' + eol + ws + a, n1.lower(), a)]
    elif shape == 'named-folded':
        extra = [('Contact:' + eol + ws + '<sip:' + c + '@z>', 'contact', '<sip:' + c + '@z>')]
    elif shape == 'empty':
        extra = [(n1 + ':', n1.lower(), ''), (n2 + ': ' + c, n2.lower(), c)]
    elif shape == 'colon':
        extra = [(n1 + ': ' + c + ': ' + a, n1.lower(), c + ': ' + a)]
    elif shape == 'spaced':
        extra = [(n1 + ' :  ' + a + ' ', n1.lower(), a)]
    allh = [(v.choice('n-' + n, NAMES[n]) + ': ' + x if n == bs[0][0] and what == 'place' else NAMES[n][0] + ': ' + x, n, x) for n, x in bs]
    allh = allh[:at] + extra + allh[at:]
    for l, n, x in allh:
        lines.append(l)
        want.append((n, x))
    text = eol.join(lines) + eol + eol
    if v.flag('no-blank-line'):
        text = text[:-len(eol)]
    m = cls(text)
    v.ensure('start-line', v.eq(m.getSL(), sl))
    v.ensure('headers', v.eq(told(m.headers), want))
    v.ensure('no-body', m.body is None)
    s = str(m)
    v.ensure('empty-body-told', s.endswith('\r\nContent-Length: 0\r\n\r\n'))
    p = cls(s)
    v.ensure('again', v.eq((p.getSL(), told(p.headers), p.body), (sl, want, None)) and v.eq(str(p), s))
    v.cover(shape)


@contract('C11', targets=[M + '__init__', D + 'SipVia.py:SipVia.__init__', D + 'SipAddressHF.py:SipAddressHF.__init__'], bounded='up to three values')
def msg_lists(v):
    """comma separated values are kept apart, in their place"""
    name = v.choice('name', ['via', 'contact', 'route', 'record-route'])
    n = v.choice('n', [2, 3])
    sep = v.choice('sep', [',', ', ', ' ,', ',\r\n '])
    f0 = 1 if sep == ',' else 2
    x = [('SIP/2.0/UDP h%d;branch=%s' % (i, v.token('b%d' % i))) if name == 'via' else
         ['<sip:%s@h%d>', '"A, %s" <sip:b@h%d>', '<sip:a,%s@h%d>'][v.choice('form%d' % i, [0, 1, 2]) if i < 2 else f0] % (v.str('b%d' % i, 'alnum', 1), i) for i in range(n)]
    fi = v.flag('first')
    bs = [('first', 'x-first', 'a'), ('v', 'via', 'SIP/2.0/UDP h')] + [(NAMES[k][0], k, w) for k, w in basic(v) if k != 'via'] + [('Last', 'last', 'z')]
    line = (NAMES[name][-1 if fi else 0], name, sep.join(x))
    hs = ([line] + bs) if fi else (bs + [line])
    m = SipRequest('OPTIONS sip:h SIP/2.0\r\n' + ''.join('%s: %s\r\n' % (a, b) for a, _, b in hs) + '\r\n')
    got = [(h.name, str(h.getBody())) for h in m.headers if h.name == name]
    if name == 'via':
        got = got[:-1] if fi else got[1:]
    v.ensure('each-value', v.eq([g[1] for g in got], x))
    order = [h.name for h in m.headers]
    other = [k if k != 'x-first' else 'first' for _, k, _ in bs]
    v.ensure('in-place', order == ([name] * n + other if fi else other + [name] * n))
    v.cover(name)


def head(v, kind):
    sl = 'INVITE sip:a@b SIP/2.0' if kind == 'request' else 'SIP/2.0 200 OK'
    cls = SipRequest if kind == 'request' else SipResponse
    hs = 'Via: SIP/2.0/UDP h\r\nFrom: <sip:a@b>;tag=1\r\nTo: <sip:a@b>\r\nCall-ID: x\r\nCSeq: 1 INVITE\r\n'
    return cls, sl, hs


@contract('C11', targets=[M + '__init__', M + 'init_body'])
def msg_body(v):
    """the body is what Content-Length says, or everything when it says nothing"""
    kind = v.choice('kind', ['request', 'response'])
    cls, sl, hs = head(v, kind)
    how = v.choice('length', ['absent', 'exact', 'smaller', 'larger', 'zero', 'negative', 'no-body'])
    cn = v.choice('cl-name', ['Content-Length', 'l', 'CONTENT-LENGTH'])
    body = v.str('body', 'any', 1)
    n = v.utf8len(body)
    early = v.flag('type-first')
    ct = v.choice('type', [None, 'Content-Type: application/' + v.token('ct'), 'c: text/' + v.token('ct')])
    rest = ''
    if how == 'smaller':
        rest = v.str('rest', 'any', 1)
        k = n
    elif how == 'exact':
        k = n
    elif how == 'larger':
        k = n + v.int('more', 1, 100000)
        v.assume(k - n >= 7)
    elif how == 'zero':
        k = 0
    elif how == 'negative':
        k = -v.int('neg', 1, 1000)
    elif how == 'no-body':
        k = v.int('expected', 0, 100000)
        body = ''
    lines = sl + '\r\n' + hs
    if ct is not None and early:
        lines += ct + '\r\n'
    if how != 'absent':
        lines += '%s: %d\r\n' % (cn, k)
    if ct is not None and not early:
        lines += ct + '\r\n'
    r = v.call(cls, lines + '\r\n' + body + rest)
    v.cover(how)
    if how in ('larger', 'negative'):
        v.ensure('rejected', not r.ok and isinstance(r.exc, SipParseError))
        if kind == 'request':
            v.ensure('answer-400', r.exc.sip_response is not None and r.exc.sip_response.scode == 400)
        return
    if how == 'no-body':
        v.ensure('missing-body-rejected', v.implies(k > 0, not r.ok))
        if r.ok:
            v.ensure('none', r.value.body is None)
        return
    v.ensure('accepted', r.ok)
    m = r.value
    if how == 'zero':
        v.ensure('no-body', m.body is None)
        return
    v.ensure('body', m.body is not None and v.eq(str(m.body), body))
    v.ensure('type', v.eq(str(m.body.mtype), 'application/sdp' if ct is None else ct.split(': ', 1)[1]))
    v.ensure('headers', [h.name for h in m.headers] == ['via', 'from', 'to', 'call-id', 'cseq'])
    s = str(m)
    v.ensure('written', v.eq(s, '%s\r\n%sContent-Type: %s\r\nContent-Length: %d\r\n\r\n%s' % (sl, hs, str(m.body.mtype), n, body)))
    l = m.localStr(compact=True)
    v.ensure('written-compact', l.endswith('\r\nc: %s\r\nl: %d\r\n\r\n%s' % (str(m.body.mtype), n, body)))


@contract('C11', targets=[M + 'init_body'])
def msg_body_repair(v):
    """a body up to six octets short is accepted only in the documented cases: never with other contents"""
    cls, sl, hs = head(v, v.choice('kind', ['request', 'response']))
    base = v.str('body', 'any', 0)
    end = v.choice('end', ['\r\n\r\n', '\r\n', '\r\n\n', 'x'])
    short = v.int('short', 1, 8)
    body = base + end
    n = v.utf8len(body)
    r = v.call(cls, '%s\r\n%sContent-Length: %d\r\n\r\n%s' % (sl, hs, n + short, body))
    v.cover(end)
    v.ensure('never-much', v.implies(short >= 7, not r.ok))
    v.ensure('only-line-end', v.implies(end == 'x', not r.ok))
    if not r.ok:
        v.ensure('parse-error', isinstance(r.exc, SipParseError))
        return
    got = str(r.value.body)
    if got.startswith(base) is not True:
        v.ensure('contents', False)
        return
    v.ensure('contents', v.or_(v.eq(got, body), v.eq(got, body + '\r\n'), v.eq(got, base + '\r\n\r\n')))
    v.ensure('bounded-repair', v.utf8len(got) - n <= 2)


@contract('C11', targets=[M + '__init__', R + '__init__', D + 'SipResponse.py:SipResponse.__init__'], bounded='the listed malformations')
def msg_rejected(v):
    """malformed input raises, it never yields a message"""
    kind = v.choice('kind', ['request', 'response'])
    cls, sl, hs = head(v, kind)
    hl = hs.split('\r\n')[:-1]
    what = v.choice('what', ['missing', 'no-colon', 'start', 'length', 'empty', 'no-headers'])
    k = v.int('k', 0, 4) if False else v.choice('k', [0, 1, 2, 3, 4])
    extra = ''
    if what == 'missing':
        del hl[k]
        if v.flag('another'):
            hl.append('X-%s: %s' % (v.str('xn', 'alnum', 1), v.token('xv')))
    elif what == 'no-colon':
        hl.insert(k, v.str('junk', 'alnum', 1))
    elif what == 'start':
        sl = v.choice('sl-' + kind, ['', v.token('one'), v.token('one') + ' sip:x', 'a sip:b c d'] if kind == 'request' else
                      ['', 'SIP/2.0', 'SIP/2.0 x' + v.token('code') + ' OK'])
    elif what == 'length':
        hl.append('Content-Length: ' + v.choice('cl', ['', 'x', 'x' + v.str('cl2', 'alnum'), '1 2', '0x10', '1.0']))
    elif what == 'empty':
        sl, hl = '', []
    else:
        hl = []
    r = v.call(cls, sl + '\r\n' + '\r\n'.join(hl) + '\r\n\r\n' + v.choice('body', ['', 'v=0\r\n']))
    v.ensure('rejected', not r.ok)
    v.cover(what)


@contract('C11', targets=[M + '__str__', M + 'localStr', D + 'MsgBody.py:MsgBody'], bounded='two further headers')
def msg_written(v):
    """what is written is read back the same; Content-Length counts the octets written"""
    kind = v.choice('kind', ['request', 'response'])
    cls, sl, hs = head(v, kind)
    m = cls(sl + '\r\n' + hs + '\r\n')
    x = value(v, 'x')
    m.appendHeader(SipHeader(name='x-a', body=None, bodys=x))
    m.appendHeader(SipHeader(name='contact', body=SipContact(address=SipAddress(url=SipURL(username=v.str('cu', 'alnum', 1), host='h')))))
    body = v.opt('body', lambda: v.str('bodyt', 'any', 1))
    if body is not None:
        mt = SipContentType(v.choice('ct', ['application/sdp', 'application/x-y', 'text/plain;charset=utf-8']))
        mt.parse()
        m.setBody(MsgBody(body, mt))
    way = v.choice('way', ['str', 'local', 'compact'])
    s = {'str': lambda: str(m), 'local': lambda: m.localStr(), 'compact': lambda: m.localStr(compact=True)}[way]()
    hp, bp = s.split('\r\n\r\n', 1)
    v.ensure('body-octets', v.eq(bp, body or ''))
    lens = [l.split(': ')[1] for l in hp.split('\r\n') if l.startswith('Content-Length: ') or l.startswith('l: ')]
    v.ensure('length', len(lens) == 1 and v.eq(lens[0], '%d' % (v.utf8len(body) if body is not None else 0)))
    p = cls(s)
    v.ensure('read-back', v.eq((p.getSL(), told(p.headers)), (m.getSL(), told(m.headers))))
    v.ensure('body-back', (p.body is None) if body is None else (v.eq(str(p.body), body) and v.eq(str(p.body.mtype), str(m.body.mtype))))
    if kind == 'response':
        c = m.getCopy()
        v.ensure('copy', v.eq(str(c), str(m)) and shared(m, c) == [])
    v.cover(way)


# ------------------------------------------------------------------- C10: what is derived from a request
def invite(v, method='INVITE', nv=None, nrr=None, nrt=None, ttag=True, hops=True):
    form = v.flag('form')
    nv = v.choice('vias', [1, 3]) if nv is None else nv
    nrr = v.choice('rrs', [0, 2]) if nrr is None else nrr
    nrt = v.choice('routes', [0, 2]) if nrt is None else nrt
    vias = ['SIP/2.0/UDP %s:%d;branch=z9hG4bK%s%s' % ('h%d' % i, 5000 + i, v.token('br%d' % i), ';received=1.2.3.4;rport=99' if form and i == 0 else '') for i in range(nv)]
    rrs = ['<sip:p%d;x=%s;lr>' % (i, v.token('rr%d' % i)) for i in range(nrr)]
    rts = ['<sip:q%d;x=%s;lr>' % (i, v.token('rt%d' % i)) for i in range(nrt)]
    fr = '%s<sip:%s@b>;tag=%s' % (v.str('fn', 'alnum', 1) + ' ' if form else '', v.str('fu', 'alnum', 1), v.token('ft'))
    to = '<sip:%s@d>' % v.str('tu', 'alnum', 1)
    if ttag and v.flag('to-tag'):
        to += ';tag=' + v.token('tt')
    cid = 'i' + v.str('cid', 'text', 0, None, ' ')
    n = v.int('cseq', 0, 2 ** 31 - 1)
    mf = v.opt('mf', lambda: v.int('mfn', 0, 255)) if hops else None
    s = '%s sip:%s@h;x=y SIP/2.0\r\n' % (method, v.str('ru', 'alnum', 1))
    for a in vias:
        s += 'Via: %s\r\n' % a
    for a in rrs:
        s += 'Record-Route: %s\r\n' % a
    for a in rts:
        s += 'Route: %s\r\n' % a
    if mf is not None:
        s += 'Max-Forwards: %d\r\n' % mf
    s += 'From: %s\r\nTo: %s\r\nCall-ID: %s\r\nCSeq: %d %s\r\nContact: <sip:me@c>\r\nUser-Agent: %s\r\nContent-Length: 0\r\n\r\n' % (fr, to, cid, n, method, v.token('ua'))
    return s, dict(vias=vias, rrs=rrs, rts=rts, fr=fr, to=to, cid=cid, n=n, mf=mf)


def vals(m, name):
    return [str(x) for x in m.getHFBodys(name)]


@contract('C10', targets=[R + 'genResponse', D + 'SipResponse.py:SipResponse.__init__'], bounded='up to three Via and two Record-Route')
def derive_response(v):
    """a response carries the Vias, From, To, Call-ID, CSeq and Record-Routes of its request and the status asked for"""
    method = v.token('method')
    s, d = invite(v, method, nrt=0, hops=False)
    q = SipRequest(s)
    if v.flag('parsed'):
        for h in q.headers:
            h.getBody()
    before = str(q)
    code, reason = v.int('code', 100, 699), v.token('reason')
    xr = v.choice('ext-reason', [None, 'text', 'header'])
    text = v.token('xr')
    body = MsgBody(v.str('body', 'any', 1)) if v.flag('body') else None
    er = {None: None, 'text': text, 'header': SipReason(protocol='Q.850', cause=16, reason=text)}[xr]
    r = q.genResponse(code, reason, body, None if body is None else 'srv', er)
    v.ensure('status', v.eq((r.scode, r.reason, r.sipver), (code, reason, 'SIP/2.0')))
    v.ensure('vias', v.eq(vals(r, 'via'), d['vias']))
    v.ensure('record-routes', v.eq(vals(r, 'record-route'), d['rrs']))
    v.ensure('identities', v.eq((vals(r, 'from'), vals(r, 'to'), vals(r, 'call-id'), vals(r, 'cseq')), ([d['fr']], [d['to']], [d['cid']], ['%d %s' % (d['n'], method)])))
    v.ensure('body', r.body is body)
    want = {None: [], 'text': ['SIP;cause=%d;text="%s"' % (code, text)], 'header': ['Q.850;cause=16;text="%s"' % text]}[xr]
    v.ensure('reason-header', v.eq([str(x).replace('; ', ';') for x in vals(r, 'reason')], want))
    v.ensure('apart', shared(q, r) == [])
    v.ensure('request-kept', v.eq(str(q), before))
    v.ensure('same-transaction', v.eq(r.getTId(wCSM=True, wBRN=True), q.getTId(wCSM=True, wBRN=True)) and v.eq(r.getTId(True, True, True), q.getTId(True, True, True)))
    p = SipResponse(str(r))
    v.ensure('seen-by-peer', v.eq(p.getTId(True, True, True), q.getTId(True, True, True)) and v.eq(p.getTIds(), q.getTIds()))
    v.cover(str(xr))


@contract('C10', targets=[R + 'genACK', R + 'genCANCEL', R + '__init__', R + 'genRequest'], bounded='up to three Via and two Route')
def derive_ack_cancel(v):
    """ACK and CANCEL are of the INVITE: target, branch, identities, number, routes"""
    s, d = invite(v, nrr=0)
    q = SipRequest(s)
    where = (v.str('thost', 'alnum', 1), v.int('tport', 1, 65535))
    q.setTarget(where)
    if v.flag('parsed'):
        for h in q.headers:
            h.getBody()
    before = str(q)
    what = v.choice('what', ['ACK', 'ACK-to', 'CANCEL', 'other'])
    to = d['to']
    if what == 'ACK':
        r = q.genACK()
    elif what == 'ACK-to':
        t = SipTo('<sip:z@d>;tag=' + v.token('nt'))
        t.parse()
        to = str(t)
        r = q.genACK(t)
    elif what == 'CANCEL':
        r = q.genCANCEL()
    else:
        n2 = v.opt('n2', lambda: v.int('n2v', 0, 2 ** 31 - 1))
        r = q.genRequest('PRACK', n2)
        v.ensure('number', v.eq(vals(r, 'cseq'), ['%d PRACK' % (d['n'] if n2 is None else n2)]))
        v.ensure('identities', v.eq((vals(r, 'from'), vals(r, 'to'), vals(r, 'call-id'), str(r.ruri)), ([d['fr']], [to], [d['cid']], str(q.ruri))))
        v.ensure('apart', shared(q, r) == [])
        v.cover(what)
        return
    m = what[:3] if what != 'CANCEL' else what
    v.ensure('method-target', v.eq((r.method, str(r.ruri), r.sipver), (m, str(q.ruri), 'SIP/2.0')))
    v.ensure('one-via', v.eq(vals(r, 'via'), d['vias'][:1]))
    v.ensure('identities', v.eq((vals(r, 'from'), vals(r, 'to'), vals(r, 'call-id')), ([d['fr']], [to], [d['cid']])))
    v.ensure('number', v.eq(vals(r, 'cseq'), ['%d %s' % (d['n'], m)]))
    v.ensure('routes', v.eq(vals(r, 'route'), d['rts']))
    v.ensure('hops', v.eq(vals(r, 'max-forwards'), ['%d' % d['mf']] if d['mf'] is not None else ['70']))
    v.ensure('where', v.eq(r.getTarget(), where))
    v.ensure('no-body', r.body is None)
    v.ensure('apart', [x for x in shared(q, r)] == [])
    v.ensure('request-kept', v.eq(str(q), before))
    # seen by the other end
    p = SipRequest(str(r))
    if what != 'ACK-to':
        v.ensure('same-transaction', v.eq(p.getTId(wBRN=True), q.getTId(wBRN=True)))
        v.ensure('own-method', v.eq(p.getTId(wCSM=True, wBRN=True), q.getTId()[:3] + (m, 'z9hG4bK' + v.token('br0'))))
    v.ensure('as-read', v.eq(p.getTId(True, True, True), r.getTId(True, True, True)))
    v.cover(what)


@contract('C10', targets=[M + 'getTId', M + 'getTIds'])
def transaction_ids(v):
    """ids are equal exactly when Call-ID, From tag, number (method, branch, To tag) are"""
    def one(i):
        return {'cid': 'i' + v.str('cid%d' % i, 'text', 0, None, ' '), 'ft': v.token('ft%d' % i), 'n': v.int('n%d' % i, 0, 2 ** 31 - 1), 'br': v.token('br%d' % i),
                'm': v.token('m%d' % i), 'tt': v.token('tt%d' % i)}
    a, b = one(0), one(1)
    two = v.flag('response')

    def msg(d, resp):
        h = 'Via: SIP/2.0/UDP h;branch=%s\r\nVia: SIP/2.0/UDP h2;branch=other\r\nFrom: <sip:a@b>;tag=%s\r\nTo: <sip:a@b>;tag=%s\r\nCall-ID: %s\r\nCSeq: %d %s\r\n\r\n' % (
            d['br'], d['ft'], d['tt'], d['cid'], d['n'], d['m'])
        return SipResponse('SIP/2.0 200 OK\r\n' + h) if resp else SipRequest('X sip:a@b SIP/2.0\r\n' + h)
    p, q = msg(a, False), msg(b, two)
    parts = {'csm': v.flag('csm'), 'brn': v.flag('brn'), 'ttg': v.flag('ttg')}
    x, y = p.getTId(*parts.values()), q.getTId(*parts.values())
    want = v.and_(v.eq(a['cid'], b['cid']), v.eq(a['ft'], b['ft']), a['n'] == b['n'])
    if parts['csm']:
        want = v.and_(want, v.eq(a['m'], b['m']))
    if parts['brn']:
        want = v.and_(want, v.eq(a['br'], b['br']))
    if parts['ttg']:
        want = v.and_(want, v.eq(a['tt'], b['tt']))
    v.ensure('equal-iff', v.iff(v.eq(x, y), want))
    v.ensure('ids-of-all-branches', v.eq(p.getTIds(), ((a['cid'], a['ft'], a['n'], a['m'], a['br']), (a['cid'], a['ft'], a['n'], a['m'], 'other'))))
    v.cover('any')


@contract('C10', targets=[D + 'SipVia.py:SipVia.getTAddr', D + 'SipVia.py:SipVia.getAddr'])
def response_address(v):
    """where a response is sent back to: received address and rport, or the Via address"""
    host = v.choice('host', [v.str('h', 'alnum', 1), '[2001:db8::1]'])
    port = v.opt('port', lambda: v.int('p', 1, 65535))
    recv = v.opt('received', lambda: v.str('r', 'alnum', 1))
    rp = v.choice('rport', ['none', 'empty', 'value'])
    rport = v.int('rp', 1, 65535)
    x = 'SIP/2.0/UDP ' + host
    if port is not None:
        x += ':%d' % port
    ps = []
    if recv is not None:
        ps.append(';received=' + recv)
    if rp == 'empty':
        ps.append(';rport')
    elif rp == 'value':
        ps.append(';rport=%d' % rport)
    ps.append(';branch=' + v.token('br'))
    if v.flag('reverse'):
        ps.reverse()
    via = SipVia(x + ''.join(ps))
    via.parse()
    wp = rport if rp == 'value' else (port if port is not None else SipConf.default_port)
    v.ensure('address', v.eq(via.getTAddr(), (recv if recv is not None else host, wp)))
    v.cover(rp)
