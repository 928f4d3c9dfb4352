"""C24: registration agent; C23: stateful proxy"""
from sippy.SipRegistrationAgent import SipRegistrationAgent
from sippy.SipURL import SipURL
from sippy.SipResponse import SipResponse
from sippy.SipRequest import SipRequest
from sippy.SipAuthorization import SipAuthorization
from sippy.SipProxyAuthorization import SipProxyAuthorization
from sippy.StatefulProxy import StatefulProxy
from pyvc.api import contract
from contracts.lib import Sim, Rec, mktm, hdrs, hdr, headers_of, sline, LADDR, LPORT
from contracts.p_auth import spec_ha1, spec_response
from contracts.p_tx import incoming

R = 'sippy/SipRegistrationAgent.py:SipRegistrationAgent.'


class Tm(object):
    def __init__(self):
        self.reqs = []
        self.open = []

    def newTransaction(self, msg, cb, laddress=None, **k):
        text = msg.localStr(((LADDR, LPORT), 'udp'))
        self.reqs.append((text, laddress, msg.getTarget()))
        self.open.append(cb)

    def answer(self, resp):
        self.open[-1](resp)
        if resp.scode >= 200:
            # what was asked last may be a new one by now
            return True


def resp(code, reason='R', extra=()):
    return SipResponse('\r\n'.join(['SIP/2.0 %d %s' % (code, reason), 'Via: SIP/2.0/UDP h', 'From: <sip:a@h>;tag=x', 'To: <sip:a@h>;tag=y', 'Call-ID: c',
                                    'CSeq: 1 REGISTER'] + list(extra) + ['', '']))


def agent(v, sim, tm, auth=True, cbs=True):
    gc = {'_sip_tm': tm}
    told = []
    exp = v.int('exp', 1, 86400)
    aor = SipURL('sip:%s@%s:%d' % ('x' + v.str('user', 'alnum'), 'r' + v.str('dom', 'alnum'), v.int('aport', 1, 65535)))
    ct = SipURL('sip:%s@10.0.0.9:5070' % ('y' + v.str('cuser', 'alnum')))
    u, p = ('a' + v.str('login', 'alnum'), v.str('pass', 'any', 1)) if auth else (None, None)
    ok = (lambda t, c, a: told.append(('ok', t, c, a))) if cbs else None
    bad = (lambda sl, a: told.append(('fail', sl, a))) if cbs else None
    a = SipRegistrationAgent(gc, aor, ct, u, p, exp, ok, bad, 'arg', (('10.8.8.8', 5060), 'udp'))
    return a, told, exp


def well_formed(v, req, exp, first=None, n=0):
    """what every attempt says"""
    text = req[0]
    user, dom = 'x' + v.str('user', 'alnum'), 'r' + v.str('dom', 'alnum')
    v.ensure('request-line', v.eq(sline(text), 'REGISTER sip:%s:%d SIP/2.0' % (dom, v.int('aport', 1, 65535))))
    v.ensure('contact', v.eq(hdrs(text, 'contact'), ['<sip:%s@10.0.0.9:5070>;expires=%d' % ('y' + v.str('cuser', 'alnum'), exp)]))
    v.ensure('to', v.eq(hdrs(text, 'to'), ['<sip:%s@%s>' % (user, dom)]))
    v.ensure('from', v.eq(hdr(text, 'from').split(';tag=')[0], '<sip:%s@%s>' % (user, dom)) and ';tag=' in hdr(text, 'from'))
    v.ensure('target', req[2] == (('10.8.8.8', 5060), 'udp'))
    if first is not None:
        for h in ('call-id', 'from', 'to', 'contact'):
            v.ensure('same-' + h, v.eq(hdr(text, h), hdr(first[0], h)))
        v.ensure('higher-cseq', v.eq(hdr(text, 'cseq'), '%d REGISTER' % (int(hdr(first[0], 'cseq').split(' ')[0]) + n)))
        v.ensure('own-branch', hdr(text, 'via') != hdr(first[0], 'via'))


ANSWERS = ['ok-contact', 'ok-expires', 'ok-plain', 'auth-failed', '401', '407', '403', '500', '408', '401-none', '401-alg']


@contract('C24', targets=[R + 'gotreply', R + 'doregister', R + '__init__'], bounded='up to five answers in a row')
def reg_history(v):
    """one attempt or one timer, never both, never none; challenges answered, successes and failures told once"""
    sim = Sim(v)
    tm = Tm()
    auth = v.flag('auth')
    a, told, exp = agent(v, sim, tm, auth)
    a.source_address = v.choice('source', [None, ('10.1.1.1', 7)]) if not auth else ('10.1.1.1', 7)
    v.ensure('nothing-yet', tm.reqs == [] and sim.timers == [])
    a.doregister()
    tries, nreq, ntold = 0, 1, 0
    for k in range(5):
        if k > 2 and tries < k - 1:
            break
        v.ensure('one-attempt', len(tm.reqs) == nreq and sim.live() == [])
        req = tm.reqs[-1]
        well_formed(v, req, exp, tm.reqs[0] if nreq > 1 else None, nreq - 1)
        v.ensure('source', req[1] == a.source_address)
        if k == 0 and not auth and v.flag('prov'):
            tm.answer(resp(v.int('pcode', 100, 199)))
            v.ensure('provisional-nothing', len(tm.reqs) == nreq and sim.live() == [] and len(told) == ntold)
        kind = v.choice('a%d' % k, ANSWERS if k == 0 else ['ok-contact', '401', '407', '403'] if k == 1 else ['ok-plain', '401', '500'])
        life = v.int('life%d' % k, 0, 100000)
        chal = 'Digest realm="r",nonce="n%d",algorithm=MD5,qop="auth"' % k
        r = {'ok-contact': lambda: resp(200, 'OK', ['Contact: <sip:z@h>;expires=%d' % life, 'Expires: 5']), 'ok-expires': lambda: resp(200, 'OK', ['Expires: %d' % life]),
             'ok-plain': lambda: resp(200, 'OK'), 'auth-failed': lambda: resp(200, 'Auth Failed'), '401': lambda: resp(401, 'U', ['WWW-Authenticate: ' + chal]),
             '407': lambda: resp(407, 'P', ['Proxy-Authenticate: ' + chal]), '403': lambda: resp(403), '500': lambda: resp(500), '408': lambda: resp(408),
             '401-none': lambda: resp(401, 'U', ['Proxy-Authenticate: ' + chal]),
             '401-alg': lambda: resp(401, 'U', ['WWW-Authenticate: Digest realm="r",nonce="n",algorithm=FOO'])}[kind]()
        out = v.call(tm.answer, r)
        v.ensure('no-exception', out.ok)
        if kind in ('401', '407') and auth and tries < 3:
            tries += 1
            nreq += 1
            v.ensure('tried-again', len(tm.reqs) == nreq and sim.live() == [] and len(told) == ntold)
            text = tm.reqs[-1][0]
            name, cls = ('authorization', SipAuthorization) if kind == '401' else ('proxy-authorization', SipProxyAuthorization)
            v.ensure('one-answer', len(hdrs(text, name)) == 1)
            c = cls(hdr(text, name))
            c.parse()
            uri = 'sip:r%s:%d' % (v.str('dom', 'alnum'), v.int('aport', 1, 65535))
            login = 'a' + v.str('login', 'alnum')
            v.ensure('answers-this', v.eq((c.realm, c.nonce, c.username, c.uri), ('r', 'n%d' % k, login, uri)))
            ha1 = spec_ha1(v, 'MD5', login, 'r', v.str('pass', 'any', 1), c.nonce, c.cnonce)
            v.ensure('digest', v.eq(c.response, spec_response(v, 'MD5', ha1, c.nonce, c.nc, c.cnonce, 'auth', 'REGISTER', uri, None)))
            v.cover('challenged')
            continue
        v.ensure('no-attempt-now', len(tm.reqs) == nreq)
        ntold += 1
        tries = 0
        v.ensure('told-once', len(told) == ntold)
        t = told[-1]
        live = sim.live()
        v.ensure('one-timer', len(live) == 1)
        if kind in ('ok-contact', 'ok-expires', 'ok-plain'):
            want = exp if kind == 'ok-plain' else life
            v.ensure('success-told', t[0] == 'ok' and t[3] == 'arg' and (t[2] is None) == (kind != 'ok-contact'))
            v.ensure('told-time', v.eq(t[1], sim.now + sim.REAL + want))
            v.ensure('not-after-lifetime', live[0].ival <= want)
            v.ensure('not-too-early', live[0].ival * 2 >= want)
            v.cover('ok')
        else:
            v.ensure('failure-told', v.eq(t, ('fail', 'SIP/2.0 %s %s' % ({'auth-failed': '200', '401-none': '401', '401-alg': '401'}.get(kind, kind), r.reason), 'arg')))
            v.ensure('retry', v.and_(0 < live[0].ival, live[0].ival <= 3600))
            v.cover('failed')
        live[0].fire()
        nreq += 1


@contract('C24', targets=[R + 'gotreply', R + 'doregister'], bounded='two attempts')
def reg_again(v):
    """what an attempt has come to does not hinder the next one: challenges are answered again"""
    sim = Sim(v)
    tm = Tm()
    a, told, exp = agent(v, sim, tm, True)
    a.doregister()
    for k in range(2):
        n = v.choice('n%d' % k, [[0, 1, 2, 3], [1, 3]][k])
        told0 = len(told)
        for i in range(n):
            had = len(tm.reqs)
            proxy = v.choice('proxy', [False, True])
            tm.answer(resp(407, 'P', ['Proxy-Authenticate: Digest realm="r",nonce="k%di%d"' % (k, i)]) if proxy else
                      resp(401, 'U', ['WWW-Authenticate: Digest realm="r",nonce="k%di%d"' % (k, i)]))
            v.ensure('answered', len(tm.reqs) == had + 1 and len(told) == told0 and sim.live() == [])
            x = hdrs(tm.reqs[-1][0], 'proxy-authorization' if proxy else 'authorization')
            v.ensure('this-challenge', len(x) == 1 and 'nonce="k%di%d"' % (k, i) in x[0])
        end = v.choice('end%d' % k, ['ok', 'refused', 'challenged'] if n == 3 else ['ok', 'refused'])
        had = len(tm.reqs)
        tm.answer({'ok': lambda: resp(200, 'OK'), 'refused': lambda: resp(403),
                   'challenged': lambda: resp(401, 'U', ['WWW-Authenticate: Digest realm="r",nonce="last"'])}[end]())
        v.ensure('told-once', len(told) == told0 + 1 and told[-1][0] == ('ok' if end == 'ok' else 'fail'))
        v.ensure('one-timer', len(sim.live()) == 1 and len(tm.reqs) == had)
        sim.live()[0].fire()
        v.ensure('one-attempt', len(tm.reqs) == had + 1 and sim.live() == [])
        v.cover(end)


@contract('C24', targets=[R + 'stopregister', R + 'doregister', R + 'gotreply'], bounded='one answer before and one after')
def reg_stop(v):
    """a stopped agent sends nothing more, tells nothing more and plans nothing more"""
    sim = Sim(v)
    tm = Tm()
    a, told, exp = agent(v, sim, tm, True, v.flag('callbacks'))
    chal = 'WWW-Authenticate: Digest realm="r",nonce="n",algorithm=MD5,qop="auth"'
    mk = {'ok': lambda: resp(200, 'OK'), '401': lambda: resp(401, 'U', [chal]), '403': lambda: resp(403), '100': lambda: resp(100)}
    when = v.choice('when', ['never-started', 'outstanding', 'after-answer', 'in-callback'])
    if when != 'never-started':
        a.doregister()
    if when == 'after-answer':
        tm.answer(mk[v.choice('first', ['ok', '401', '403', '100'])]())
    if when == 'in-callback':
        a.rok_cb = a.rfail_cb = lambda *x: a.stopregister()
        tm.answer(mk[v.choice('cb', ['ok', '403'])]())
    else:
        a.stopregister()
    n, m, live = len(tm.reqs), len(told), len(sim.live())
    v.ensure('at-most-one', live <= 1)
    out = v.call(a.doregister)
    v.ensure('quiet-start', out.ok)
    for t in sim.live():
        out = v.call(t.fire)
        v.ensure('quiet-timer', out.ok)
    if when in ('outstanding', 'after-answer'):
        out = v.call(tm.answer, mk[v.choice('late', ['ok', '401', '403', '100'])]())
        v.ensure('quiet-answer', out.ok)
    v.ensure('sent-nothing', len(tm.reqs) == n)
    v.ensure('told-nothing', len(told) == m)
    v.ensure('plans-nothing', sim.live() == [])
    v.cover(when)


@contract('C24', targets=[R + 'gotreply'])
def reg_odd_replies(v):
    """a reply that cannot be understood does not stop the agent"""
    sim = Sim(v)
    tm = Tm()
    v.patch('sippy.SipRegistrationAgent', 'dump_exception', lambda *a, **k: None)
    a, told, exp = agent(v, sim, tm)
    a.doregister()
    r = v.choice('reply', [
        lambda: resp(200, 'OK', ['Contact: *']), lambda: resp(200, 'OK', ['Contact: <sip:a@h>;expires=soon']), lambda: resp(200, 'OK', ['Contact: <sip:a@h>;expires']),
        lambda: resp(200, 'OK', ['Expires: x']), lambda: resp(200, 'OK', ['Contact: "']), lambda: resp(200, 'OK', ['Expires: ']), lambda: resp(299, 'OK', ['Contact: <sip:a']),
        lambda: resp(401, 'U', ['WWW-Authenticate: Digest']), lambda: resp(401, 'U', ['WWW-Authenticate: Basic realm="x"']), lambda: resp(401, 'U', ['WWW-Authenticate: ']),
        lambda: resp(407, 'U', ['Proxy-Authenticate: Digest realm']), lambda: resp(302, 'Moved', ['Contact: *']), lambda: resp(699, 'x')])
    out = v.call(tm.answer, r())
    v.ensure('no-exception', out.ok)
    v.ensure('goes-on', len(sim.live()) + len(tm.reqs) - 1 == 1)
    v.ensure('told-once', len(told) == len(sim.live()))
    if told and told[0][0] == 'ok':
        v.ensure('lifetime-asked-for', sim.live()[0].ival <= exp)
        v.cover('ok')
    else:
        v.cover('failed')


@contract('C24', targets=[R + 'gotreply', R + 'doregister'], bounded='two attempts')
def reg_over_network(v):
    """the same on top of the real transactions: an answer, a challenge, or no answer at all"""
    sim = Sim(v)
    tm, serv = mktm(v, sim)
    a, told, exp = agent(v, sim, tm)
    a.doregister()
    v.ensure('sent', len(serv.sent) == 1 and serv.sent[0][1] == ('10.8.8.8', 5060))
    first = serv.sent[0][0]
    how = v.choice('how', ['silence', 'ok', 'challenge'])
    if how == 'silence':
        for k in range(30):
            live = sorted([t for t in sim.live() if t.nticks != -1], key=lambda t: t.born + t.ival)
            if told or not live:
                break
            sim.now = live[0].born + live[0].ival
            live[0].fire()
        v.ensure('failure-told', len(told) == 1 and told[0][0] == 'fail')
        v.ensure('same-request', all(v.eq(x[0], first) for x in serv.sent))
        sim.now = sim.now + 60
        n = len(serv.sent)
        t = [x for x in sim.live() if x.cb == a.doregister]
        v.ensure('one-retry', len(t) == 1)
        t[0].fire()
        v.ensure('again', len(serv.sent) == n + 1)
    else:
        head = [x for x in first.split('\r\n') if x.split(':')[0] in ('Via', 'From', 'To', 'Call-ID', 'CSeq')]
        more = ['Expires: 60'] if how == 'ok' else ['WWW-Authenticate: Digest realm="r",nonce="n",qop="auth"']
        txt = '\r\n'.join([('SIP/2.0 200 OK' if how == 'ok' else 'SIP/2.0 401 U')] + [x + ';tag=t' if x.startswith('To') else x for x in head] + more + ['', ''])
        incoming(tm, serv, sim, txt)
        if how == 'ok':
            v.ensure('success-told', len(told) == 1 and told[0][0] == 'ok')
            t = [x for x in sim.live() if x.cb == a.doregister]
            v.ensure('one-refresh', len(t) == 1 and t[0].ival <= 60)
            t[0].fire()
            v.ensure('again', len(serv.sent) == 2)
        else:
            v.ensure('answered', len(serv.sent) == 2 and len(hdrs(serv.sent[1][0], 'authorization')) == 1 and told == [])
            incoming(tm, serv, sim, txt)
            v.ensure('old-challenge-ignored', len(serv.sent) == 2 and told == [])
    v.ensure('next', hdr(serv.sent[-1][0], 'call-id') == hdr(first, 'call-id') and hdr(serv.sent[-1][0], 'cseq').split()[0] != hdr(first, 'cseq').split()[0] and
             hdr(serv.sent[-1][0], 'via') != hdr(first, 'via'))
    v.cover(how)


# ---- C23: stateful proxy
P = 'sippy/StatefulProxy.py:StatefulProxy.'


class Prox(object):
    def __init__(self, v):
        v.patch('sippy.StatefulProxy', 'print', lambda *a: None)
        self.sim = Sim(v)
        self.seen = []
        self.tm, self.serv = mktm(v, self.sim, self.req)
        self.dport = v.int('dport', 1, 65535)
        self.proxy = StatefulProxy(self.tm.global_config, ('10.8.8.8', self.dport))

    def req(self, msg, t):
        self.seen.append(t)
        return self.proxy.recvRequest(msg)


def request(v, method, mf=None, extra=(), body='', vport=None, vparams=''):
    hs = ['%s sip:%s@10.8.8.8 SIP/2.0' % (method, 'u' + v.str('user', 'alnum')),
          'Via: SIP/2.0/UDP 10.7.7.7:%d;branch=z9hG4bK%s%s' % (v.int('vport', 1, 65535) if vport is None else vport, v.str('branch', 'alnum', 0, 30), vparams),
          'Via: SIP/2.0/UDP 10.6.6.6;branch=z9hG4bKother']
    if mf is not None:
        hs.append('Max-Forwards: %d' % mf)
    hs += ['From: <sip:a@10.7.7.7>;tag=%s' % v.str('ftag', 'alnum', 1), 'To: <sip:b@10.1.2.3>', 'Call-ID: %s' % v.str('cid', 'alnum', 1),
           'CSeq: %d %s' % (v.int('cseq', 0, 2147483647), method)]
    hs += list(extra)
    hs += ['Content-Length: %d' % len(body)]
    return '\r\n'.join(hs + ['', body])


@contract('C23', targets=[P + 'recvRequest', P + 'insertPath'])
def proxy_forward(v):
    """forwarded once, with our Via on top and nothing else changed"""
    p = Prox(v)
    method = v.choice('method', ['REGISTER', 'SUBSCRIBE', 'MESSAGE'])
    mf = v.opt('mf', lambda: v.int('hops', -1, 255))
    extra = ['X-%s: %s' % ('Foo', 'y' + v.str('x', 'alnum')), 'Contact: <sip:a@10.7.7.7:5080>;expires=60', 'Route: <sip:10.9.9.9;lr>']
    path = v.choice('path', [None, 'other', 'path', 'path-first', 'path-two'])
    if path:
        extra.append('Supported: %s' % {'other': 'gruu', 'path': 'gruu,path'}.get(path, 'path'))
    old = {'path-first': ['<sip:10.5.5.5;lr>'], 'path-two': ['<sip:10.5.5.5;lr>', '<sip:10.5.5.6;lr>']}.get(path, [])
    extra += ['Path: ' + x for x in old]
    path = path if not old else 'path-first'
    body = v.choice('body', ['', 'hello'])
    if body:
        extra.append('Content-Type: text/plain')
    rport = v.choice('rport', ['', ';rport'])
    text = request(v, method, mf, extra, body, vparams=rport)
    src = ('10.7.7.7', 4444)
    incoming(p.tm, p.serv, p.sim, text, src)
    v.ensure('seen-once', len(p.seen) == 1)
    v.ensure('one-message', len(p.serv.sent) == 1)
    out, to = p.serv.sent[0]
    if mf is not None and mf <= 0:
        v.ensure('refused', sline(out).startswith('SIP/2.0 483 ') and len(p.tm.tclient) == 0)
        v.ensure('refusal-back', to == (src if rport else ('10.7.7.7', v.int('vport', 1, 65535))) if rport else v.eq(to, ('10.7.7.7', v.int('vport', 1, 65535))))
        v.cover('refused')
        return
    if mf is not None and mf <= 1:
        # the last hop: may go either way
        return
    v.ensure('to-destination', v.eq(to, ('10.8.8.8', v.int('dport', 1, 65535))))
    v.ensure('request-line', v.eq(sline(out), sline(text)))
    hs, want = headers_of(out), headers_of(text)
    v.ensure('via-on-top', hs[0][0] == 'via' and hs[0][1].split(';')[0] in ('SIP/2.0/UDP %s' % LADDR, 'SIP/2.0/UDP %s:%d' % (LADDR, LPORT)) and ';branch=z9hG4bK' in hs[0][1])
    v.ensure('own-branch', v.not_(v.eq(hs[0][1].split('branch=')[1], 'z9hG4bK' + v.str('branch', 'alnum', 0, 30))))
    rest = hs[1:]
    mine = [x for x in rest if x[0] == 'path']
    exp = []
    for n, x in want:
        if n == 'max-forwards':
            x = '%d' % (mf - 1)
        if n == 'via' and '10.7.7.7' in x and rport:
            x = 'SIP/2.0/UDP 10.7.7.7:%d;branch=z9hG4bK%s;rport=4444' % (v.int('vport', 1, 65535), v.str('branch', 'alnum', 0, 30))
        exp.append((n, x))
    told_mf = [x for n, x in rest if n == 'max-forwards']
    v.ensure('hops', v.eq(told_mf, ['70' if mf is None else '%d' % (mf - 1)]))
    order = ['via', 'x-foo', 'contact', 'route', 'from', 'to', 'call-id', 'cseq', 'supported', 'content-type', 'content-length']
    if mf is not None:
        order.append('max-forwards')
    for n in order:
        a, b = [x for m, x in rest if m == n], [x for m, x in exp if m == n]
        if n == 'via' and rport:
            v.ensure('via-kept', len(a) == 2 and v.eq(a[1], b[1]) and v.eq(a[0].split(';')[0], b[0].split(';')[0]) and
                     v.eq(sorted_params(a[0]), sorted_params(b[0])))
        else:
            v.ensure(n + '-kept', v.eq(a, b))
    v.ensure('nothing-added', sorted(x[0] for x in rest) == sorted([x[0] for x in exp] + (['max-forwards'] if mf is None else []) +
             (['path'] if path in ('path', 'path-first') and method == 'REGISTER' else [])))
    if path in ('path', 'path-first') and method == 'REGISTER':
        v.ensure('path-added', mine[0][1].startswith('<sip:%s' % LADDR) and ';lr' in mine[0][1] and mine[1:] == [('path', x) for x in old])
        v.cover('path')
    v.ensure('body-kept', out.split('\r\n\r\n', 1)[1] == body)
    # a retransmission is not forwarded again
    incoming(p.tm, p.serv, p.sim, text, src)
    v.ensure('not-again', len(p.seen) == 1 and len(p.serv.sent) == 1)
    v.cover(method)


def sorted_params(via):
    ps = via.split(';')[1:]
    r = []
    for n in ('branch', 'rport', 'received'):
        r += [x for x in ps if x.startswith(n)]
    return r


@contract('C23', targets=[P + 'recvResponse', P + 'recvRequest'], bounded='three responses')
def proxy_return(v):
    """each response goes back with exactly our Via removed; those of transactions that are over are dropped"""
    p = Prox(v)
    method = v.choice('method', ['REGISTER', 'SUBSCRIBE'])
    rport = v.choice('rport', ['', ';rport'])
    src = ('10.7.7.7', 4444)
    text = request(v, method, 70, vparams=rport)
    incoming(p.tm, p.serv, p.sim, text, src)
    fwd = p.serv.sent.pop()[0]
    back = src if rport else ('10.7.7.7', v.int('vport', 1, 65535))
    final = False
    for k in range(3):
        code = v.choice('code%d' % k, [[None, 100, 180, 200, 404, 401], [None, 180, 200], [None, 404]][k])
        if code is None:
            break
        # (a 100 has no body)
        body = v.choice('body', ['', 'hi']) if code != 100 else ''
        hs = ['SIP/2.0 %d %s' % (code, 'r' + v.str('reason', 'alnum'))] + [x for x in fwd.split('\r\n') if x.split(':')[0] in ('Via', 'From', 'Call-ID', 'CSeq')]
        hs += ['To: <sip:b@10.1.2.3>;tag=%s' % v.str('ttag', 'alnum', 1), 'X-Foo: %s' % ('y%d' % k + v.str('x', 'alnum')), 'Contact: <sip:a@10.7.7.7:5080>;expires=60']
        if body:
            hs.append('Content-Type: text/plain')
        hs.append('Content-Length: %d' % len(body))
        rt = '\r\n'.join(hs + ['', body])
        n = len(p.serv.sent)
        incoming(p.tm, p.serv, p.sim, rt, ('10.8.8.8', p.dport))
        if final:
            v.ensure('late-dropped', len(p.serv.sent) == n)
            v.cover('late')
            continue
        v.ensure('returned-once', len(p.serv.sent) == n + 1)
        out, to = p.serv.sent[-1]
        v.ensure('to-source', v.eq(to, back))
        v.ensure('status', v.eq(sline(out), sline(rt)))
        a, b = headers_of(out), headers_of(rt)
        v.ensure('vias', v.eq([x for m, x in a if m == 'via'], [x for m, x in b if m == 'via'][1:]))
        for h in ('from', 'to', 'call-id', 'cseq', 'x-foo', 'contact', 'content-type', 'content-length'):
            v.ensure(h + '-kept', v.eq([x for m, x in a if m == h], [x for m, x in b if m == h]))
        v.ensure('nothing-added', len(a) == len(b) - 1)
        v.ensure('body-kept', out.split('\r\n\r\n', 1)[1] == body)
        final = code >= 200
        v.cover('final' if final else 'provisional')
    if not final and v.flag('silence'):
        # nobody answers: the source is told 408
        n = len(p.serv.sent)
        t = [x for x in p.sim.live() if x.cb == p.tm.timerB]
        v.ensure('waiting', len(t) == 1)
        t[0].fire()
        v.ensure('timeout-told', len(p.serv.sent) == n + 1 and sline(p.serv.sent[-1][0]).startswith('SIP/2.0 408') and v.eq(p.serv.sent[-1][1], back))
        v.ensure('timeout-vias', len(hdrs(p.serv.sent[-1][0], 'via')) == 2)
        v.cover('timeout')
