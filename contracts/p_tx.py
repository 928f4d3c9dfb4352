"""SIP transactions (SipTransactionManager): C01, C02, C03"""
from pyvc.api import contract
from contracts.lib import Sim, mktm, headers_of, hdr, hdrs, sline, Rec, LADDR, LPORT, tx_snap, tx_same
from sippy.SipTransactionManager import (SipTransactionManager, TRYING, RINGING, COMPLETED, CONFIRMED, TERMINATED,
                                         UACK, SipTransaction)
from sippy.SipRequest import SipRequest
from sippy.SipResponse import SipResponse
from sippy.Network_server import Remote_address

TM = 'sippy/SipTransactionManager.py:SipTransactionManager.'


class Q(object):
    """the identifying parts of an incoming request"""

    def __init__(self, v, p=''):
        self.v = v
        self.cid = v.str(p + 'cid', 'alnum', 1)
        self.ftag = v.str(p + 'ftag', 'alnum', 1)
        self.branch = v.str(p + 'branch', 'alnum', 1, 30)
        self.cseq = v.int(p + 'cseq', 0, 2147483647)
        self.user = v.str(p + 'user', 'alnum', 1)
        self.vport = v.int(p + 'vport', 1, 65535)

    def text(self, method, totag=None, extra=(), branch=None, cseq=None, smeth=None, ftag=None, cid=None, vias=(), vparams=''):
        b = self.branch if branch is None else branch
        n = self.cseq if cseq is None else cseq
        ls = ['%s sip:%s@%s:%d SIP/2.0' % (method, self.user, LADDR, LPORT),
              'Via: SIP/2.0/UDP 10.7.7.7:%d;branch=%s%s' % (self.vport, b, vparams)]
        ls += ['Via: %s' % x for x in vias]
        ls += ['From: <sip:a@10.7.7.7>;tag=%s' % (self.ftag if ftag is None else ftag),
               'To: <sip:%s@%s>%s' % (self.user, LADDR, '' if totag is None else ';tag=%s' % totag),
               'Call-ID: %s' % (self.cid if cid is None else cid),
               'CSeq: %d %s' % (n, smeth or method)]
        ls += list(extra)
        ls += ['Content-Length: 0', '', '']
        return '\r\n'.join(ls)


RA = ('10.7.7.7', 5060)


def incoming(tm, serv, sim, text, addr=RA):
    tm.handleIncoming(text, Remote_address(addr, 'udp'), serv, sim.mt())


class App(object):
    """the layer above: remembers what it is told"""

    def __init__(self, rval):
        self.rval = rval
        self.reqs = []
        self.cancels = []
        self.noacks = 0
        self.acks = []

    def req(self, msg, t):
        self.reqs.append((msg, t))
        if callable(self.rval):
            return self.rval(msg, t)
        return self.rval

    def cancel_cb(self, rtime, req):
        self.cancels.append((rtime, req))

    def noack_cb(self):
        self.noacks += 1

    def ack_cb(self, req):
        self.acks.append(req)


def server_tx(v, method, extra=(), deferred=True, vparams='', retr=0):
    """a server transaction right after the request has been handed up"""
    sim = Sim(v)
    app = App(None)
    app.rval = lambda msg, t: (None, app.cancel_cb, app.noack_cb)
    tm, serv = mktm(v, sim, app.req, provisional_retr=retr)
    q = Q(v)
    n0 = len(sim.timers)
    incoming(tm, serv, sim, q.text(method, extra=extra, vparams=vparams))
    msg, t = app.reqs[0]
    return sim, app, tm, serv, q, msg, t, n0


@contract('C02', targets=[TM + 'incomingRequest', TM + 'handleIncoming', TM + 'doCancel', TM + 'sendResponse'])
def tx_server_new_request(v):
    """a request matching no transaction is handed up once and opens one transaction"""
    method = v.choice('method', ['INVITE', 'OPTIONS', 'BYE'])
    kind = v.choice('answer', ['none', 'later', 'now'])
    sim = Sim(v)
    app = App(None)

    def rval(msg, t):
        if kind == 'none':
            return None
        if kind == 'later':
            return (None, app.cancel_cb, app.noack_cb)
        return (msg.genResponse(v.choice('code', [180, 200, 404]), 'Ok'), app.cancel_cb, app.noack_cb)
    app.rval = rval
    tm, serv = mktm(v, sim, app.req)
    q = Q(v)
    ex = v.choice('expires', ['no', 'yes'])
    e = v.int('exp', -1, 4000)
    n0 = len(sim.timers)
    incoming(tm, serv, sim, q.text(method, extra=['Expires: %d' % e] if ex == 'yes' else []))
    v.ensure('handed-up-once', len(app.reqs) == 1)
    live = sim.live()
    live = [x for x in live if x in sim.timers[n0:]]
    if kind == 'now':
        code = v.choice('code', [180, 200, 404])
        v.ensure('answered-once', len(serv.sent) == 1)
        v.ensure('answer-code', sline(serv.sent[0][0]) == 'SIP/2.0 %d Ok' % code)
        v.ensure('answer-to-source', serv.sent[0][1] == ('10.7.7.7', q.vport))
        if method != 'INVITE' and code >= 200:
            v.ensure('gone', len(tm.tserver) == 0)
            v.ensure('no-timer', live == [])
        else:
            v.ensure('kept', len(tm.tserver) == 1)
    else:
        v.ensure('nothing-sent', serv.sent == [])
        if kind == 'later' or method == 'INVITE':
            v.ensure('kept', len(tm.tserver) == 1)
        else:
            v.ensure('gone', len(tm.tserver) == 0)
    if method == 'INVITE' and kind != 'now':
        v.ensure('one-expiry-timer', len(live) == 1)
        want = v.ite(e > 0, e, 300) if ex == 'yes' else 300
        v.ensure('expiry-as-asked', live[0].ival == want)
        v.cover('invite')
    if method != 'INVITE':
        v.ensure('no-timer', live == [])
    v.cover(kind)


@contract('C02', targets=[TM + 'incomingRequest'])
def tx_server_duplicate(v):
    """a retransmitted request is never handed up again; the last answer, if any, is repeated.
    It differs from the first one in some unimportant text, so that the cache does not see it"""
    method = v.choice('method', ['INVITE', 'OPTIONS'])
    sim, app, tm, serv, q, msg, t, n0 = server_tx(v, method)
    code = v.int('code', 100, 199)
    prov = v.flag('provisional-sent')
    if prov:
        tm.sendResponse(msg.genResponse(code, 'Trying'), t)
    before = list(serv.sent)
    st = t.state
    incoming(tm, serv, sim, q.text(method, extra=['Subject: x']))
    v.ensure('not-handed-up-again', len(app.reqs) == 1)
    v.ensure('state-kept', t.state is st)
    v.ensure('table-kept', len(tm.tserver) == 1)
    if prov:
        v.ensure('last-answer-repeated', v.and_(len(serv.sent) == 2, v.eq(serv.sent[1], serv.sent[0])))
    else:
        v.ensure('silent', serv.sent == [])
    v.cover('prov' if prov else 'noprov')


@contract('C02', targets=[TM + 'sendResponse'])
def tx_server_answers(v):
    """any number of provisional answers, then one final answer, then refusal"""
    method = v.choice('method', ['INVITE', 'OPTIONS'])
    retr = v.choice('retr', [0, 2])
    sim, app, tm, serv, q, msg, t, n0 = server_tx(v, method, retr=retr)
    n = v.choice('nprov', [0, 1, 2])
    tid0 = t.tid
    for i in range(n):
        c = v.int('p%d' % i, 100, 199)
        tm.sendResponse(msg.genResponse(c, 'Progress'), t)
        v.ensure('provisional-sent', len(serv.sent) == i + 1)
        v.ensure('provisional-code', v.eq(sline(serv.sent[i][0]), 'SIP/2.0 %d Progress' % c))
        v.ensure('still-open', len(tm.tserver) == 1)
        v.ensure('at-most-one-provisional-timer', len([x for x in sim.live() if x.cbname() == 'timerF']) <= 1)
    f = v.int('f', 200, 699)
    resp = msg.genResponse(f, 'Final')
    hadtag = v.flag('to-tag-set')
    tag = v.str('tag', 'alnum', 1)
    if hadtag:
        resp.getHFBody('to').setTag(tag)
    acb = app.ack_cb
    tm.sendResponse(resp, t, ack_cb=acb)
    v.ensure('final-sent-once', len(serv.sent) == n + 1)
    data, addr = serv.sent[n]
    v.ensure('final-code', v.eq(sline(data), 'SIP/2.0 %d Final' % f))
    v.ensure('final-address', v.eq(addr, ('10.7.7.7', q.vport)))
    totag = SipResponse(data).getHFBody('to').getTag()
    v.ensure('final-has-to-tag', totag is not None and len(totag) > 0)
    if hadtag:
        v.ensure('to-tag-kept', v.eq(totag, tag))
    live = [x for x in sim.timers[n0:] if x.is_live()]
    if method == 'INVITE':
        v.ensure('kept-for-ack', len(tm.tserver) == 1)
        v.ensure('retransmit-and-giveup-timers', sorted([x.ival for x in live]) == [0.5, 32.0])
        was = tx_snap(tm, t, sim)
        r2 = msg.genResponse(v.int('f2', 100, 699), 'Again')
        out = v.call(tm.sendResponse, r2, t)
        v.ensure('second-final-refused', not out.ok)
        v.ensure('second-final-not-sent', len(serv.sent) == n + 1)
        v.ensure('transaction-unchanged', tx_same(v, was, tx_snap(tm, t, sim)))
        # it is still the first final answer that is repeated
        [x for x in live if x.ival == 0.5][0].fire()
        v.ensure('first-final-repeated', v.and_(len(serv.sent) == n + 2, v.eq(serv.sent[-1], serv.sent[n])))
        cov = 'invite'
    else:
        v.ensure('closed', len(tm.tserver) == 0)
        v.ensure('no-timer', live == [])
        out = v.call(tm.sendResponse, msg.genResponse(v.int('f2', 100, 699), 'Again'), t)
        v.ensure('second-final-refused', not out.ok)
        out = v.call(tm.sendResponse, msg.genResponse(v.int('f2', 100, 699), 'Again'))
        v.ensure('second-final-refused', not out.ok)
        v.ensure('second-final-not-sent', len(serv.sent) == n + 1)
        cov = 'other'
    v.cover(cov)


@contract('C02', targets=[TM + 'incomingRequest', TM + 'doCancel'])
def tx_server_cancel(v):
    """CANCEL: always answered; ends the INVITE with 487 iff it has not been finally answered"""
    sim, app, tm, serv, q, msg, t, n0 = server_tx(v, 'INVITE')
    phase = v.choice('phase', ['trying', 'ringing', 'final', 'nomatch'])
    f = v.int('f', 200, 699)
    if phase == 'ringing':
        tm.sendResponse(msg.genResponse(v.int('p', 100, 199), 'Progress'), t)
    elif phase == 'final':
        tm.sendResponse(msg.genResponse(f, 'Final'), t)
    n = len(serv.sent)
    was = tx_snap(tm, t, sim)
    extra = ['Reason: SIP;cause=200'] if v.flag('reason') else []
    if phase == 'nomatch':
        ob = v.str('obranch', 'alnum', 1)
        v.assume(v.not_(v.eq(ob, q.branch)))
        incoming(tm, serv, sim, q.text('CANCEL', branch=ob, extra=extra))
    else:
        incoming(tm, serv, sim, q.text('CANCEL', extra=extra))
    new = serv.sent[n:]
    v.ensure('cancel-answered', len(new) >= 1)
    canc = [x for x in new if hdr(x[0], 'cseq').endswith('CANCEL')]
    inv = [x for x in new if hdr(x[0], 'cseq').endswith('INVITE')]
    v.ensure('cancel-answered-once', len(canc) == 1)
    v.ensure('cancel-not-handed-up', len(app.reqs) == 1)
    if phase in ('trying', 'ringing'):
        v.ensure('cancel-200', sline(canc[0][0]).startswith('SIP/2.0 200 '))
        v.ensure('invite-487-once', len(inv) == 1 and sline(inv[0][0]).startswith('SIP/2.0 487 '))
        v.ensure('app-notified-once', len(app.cancels) == 1)
        v.ensure('invite-finished', t.state is COMPLETED and len(tm.tserver) == 1)
        live = [x for x in sim.timers[n0:] if x.is_live()]
        v.ensure('waits-for-ack', sorted([x.ival for x in live]) == [0.5, 32.0])
        # a second CANCEL is answered but changes nothing
        m = len(serv.sent)
        was = tx_snap(tm, t, sim)
        incoming(tm, serv, sim, q.text('CANCEL', extra=['Subject: again']))
        v.ensure('second-cancel-answered', len(serv.sent) == m + 1)
        v.ensure('app-notified-once', len(app.cancels) == 1)
        v.ensure('second-cancel-changes-nothing', tx_same(v, was, tx_snap(tm, t, sim)))
        out = v.call(tm.sendResponse, msg.genResponse(f, 'Late'), t)
        v.ensure('answer-after-487-refused', not out.ok and len(serv.sent) == m + 1)
    elif phase == 'final':
        v.ensure('no-487', inv == [])
        v.ensure('app-not-notified', app.cancels == [])
        v.ensure('changes-nothing', tx_same(v, was, tx_snap(tm, t, sim)))
    else:
        v.ensure('cancel-481', sline(canc[0][0]).startswith('SIP/2.0 481 '))
        v.ensure('no-487', inv == [])
        v.ensure('app-not-notified', app.cancels == [])
        v.ensure('invite-untouched', tx_same(v, was, tx_snap(tm, t, sim)))
    v.cover(phase)


@contract('C02', targets=[TM + 'incomingRequest', TM + 'timerA', TM + 'timerD'])
def tx_server_ack(v):
    """the answer to an INVITE is repeated at doubling intervals until the ACK or 32 s"""
    sim, app, tm, serv, q, msg, t, n0 = server_tx(v, 'INVITE', retr=v.choice('retr', [0, 2]))
    if v.flag('prov'):
        tm.sendResponse(msg.genResponse(v.int('p', 101, 199), 'Progress'), t)
    f = v.int('f', 200, 699)
    resp = msg.genResponse(f, 'Final')
    tm.sendResponse(resp, t, ack_cb=app.ack_cb)
    n = len(serv.sent)
    final = serv.sent[-1]
    totag = SipResponse(final[0]).getHFBody('to').getTag()
    rounds = v.choice('retransmissions', [0, 1, 2, 3])
    want = 0.5
    for i in range(rounds):
        a = [x for x in sim.timers[n0:] if x.is_live() and x.ival != 32.0]
        v.ensure('one-retransmit-timer', len(a) == 1)
        v.ensure('doubling', a[0].ival == want)
        a[0].fire()
        want = want * 2
        v.ensure('retransmitted', len(serv.sent) == n + 1 + i)
        v.ensure('retransmitted-same', v.eq(serv.sent[-1], final))
    n = len(serv.sent)
    end = v.choice('end', ['ack', 'timeout', 'wrong-ack'])
    if end == 'ack':
        ab = v.str('abranch', 'alnum', 1)
        incoming(tm, serv, sim, q.text('ACK', totag=totag, branch=ab))
        v.ensure('ack-delivered-once', len(app.acks) == 1 and app.noacks == 0)
        v.ensure('gone', len(tm.tserver) == 0)
        incoming(tm, serv, sim, q.text('ACK', totag=totag, branch=ab, extra=['Subject: dup']))
        v.ensure('ack-delivered-once', len(app.acks) == 1 and app.noacks == 0)
    elif end == 'timeout':
        d = [x for x in sim.timers[n0:] if x.is_live() and x.ival == 32.0]
        v.ensure('one-giveup-timer', len(d) == 1)
        d[0].fire()
        v.ensure('noack-delivered-once', app.noacks == 1 and app.acks == [])
        v.ensure('gone', len(tm.tserver) == 0)
        incoming(tm, serv, sim, q.text('ACK', totag=totag))
        v.ensure('noack-delivered-once', app.noacks == 1 and app.acks == [])
    else:
        wt = v.str('wtag', 'alnum', 1)
        v.assume(v.not_(v.eq(wt, totag)))
        was = tx_snap(tm, t, sim)
        incoming(tm, serv, sim, q.text('ACK', totag=wt))
        v.ensure('foreign-ack-ignored', app.acks == [] and app.noacks == 0)
        v.ensure('still-waiting', len(tm.tserver) == 1 and len([x for x in sim.timers[n0:] if x.is_live()]) == 2)
        v.ensure('foreign-ack-changes-nothing', tx_same(v, was, tx_snap(tm, t, sim)))
    v.ensure('ack-never-answered', len(serv.sent) == n)
    if end != 'wrong-ack':
        v.ensure('no-timer-left', [x for x in sim.timers[n0:] if x.is_live()] == [])
    v.ensure('ack-not-handed-up', len(app.reqs) == 1)
    v.cover(end)


@contract('C02', targets=[TM + 'timerE', TM + 'timerF', TM + 'doCancel'])
def tx_server_expiry(v):
    """the expiry of an INVITE ends it with 487 unless it has been answered; provisional answers are
    repeated only while there is no final one"""
    retr = v.choice('retr', [0, 2])
    sim, app, tm, serv, q, msg, t, n0 = server_tx(v, 'INVITE', retr=retr)
    e = [x for x in sim.timers[n0:] if x.is_live()][0]
    p = v.choice('prov', ['none', '100', '18x'])
    c = 100
    if p == '18x':
        c = v.int('p', 101, 199)
    if p != 'none':
        tm.sendResponse(msg.genResponse(c, 'Progress'), t)
        fs = [x for x in sim.timers[n0:] if x.is_live() and x is not e]
        if retr and p == '18x':
            v.ensure('provisional-repeated', len(fs) == 1 and fs[0].ival == retr)
            k = len(serv.sent)
            fs[0].fire()
            v.ensure('provisional-repeated-same', v.and_(len(serv.sent) == k + 1, v.eq(serv.sent[k], serv.sent[k - 1])))
            fs = [x for x in sim.timers[n0:] if x.is_live() and x is not e]
            v.ensure('provisional-rearmed', len(fs) == 1 and fs[0].ival == retr)
        else:
            v.ensure('provisional-not-repeated', fs == [])
    if v.flag('answered'):
        tm.sendResponse(msg.genResponse(v.int('f', 200, 699), 'Final'), t)
        v.ensure('expiry-cancelled', not e.is_live())
        v.ensure('provisional-timer-cancelled', sorted([x.ival for x in sim.timers[n0:] if x.is_live()]) == [0.5, 32.0])
        v.cover('answered')
        return
    n = len(serv.sent)
    e.fire()
    v.ensure('487-sent', len(serv.sent) == n + 1 and sline(serv.sent[n][0]).startswith('SIP/2.0 487 '))
    v.ensure('app-notified-once', len(app.cancels) == 1)
    v.ensure('waits-for-ack', sorted([x.ival for x in sim.timers[n0:] if x.is_live()]) == [0.5, 32.0])
    v.cover('expired')


# ------------------------------------------------------------------ client side
class C(object):
    """a client transaction started from an arbitrary request"""

    def __init__(self, v, method, uack=False, compact=False, cb=True, extra=(), ifver=1, max_forwards=True):
        self.v = v
        self.sim = Sim(v)
        self.tm, self.serv = mktm(v, self.sim, None)
        self.q = Q(v)
        self.port = v.int('tport', 1, 65535)
        self.told = []
        self.n0 = len(self.sim.timers)
        ex = list(extra)
        if max_forwards:
            ex.append('Max-Forwards: 70')
        self.msg = SipRequest(self.q.text(method, extra=ex))
        self.msg.setTarget((('10.8.8.8', self.port), 'udp'))
        self.addr = ('10.8.8.8', self.port)
        self.method = method
        t = SipTransaction()
        t.uack = uack
        self.t0 = t
        self.t = self.tm.newTransaction(self.msg, self.cb if cb else None, compact=compact, t=t, cb_ifver=ifver)

    def cb(self, *a):
        self.told.append(a[0])

    def live(self):
        return [x for x in self.sim.timers[self.n0:] if x.is_live()]

    def resp(self, code, totag='x', reason='Reason', extra=(), method=None, n=0):
        q = self.q
        ls = ['SIP/2.0 %d %s' % (code, reason),
              'Via: SIP/2.0/UDP 10.7.7.7:%d;branch=%s' % (q.vport, q.branch),
              'From: <sip:a@10.7.7.7>;tag=%s' % q.ftag,
              'To: <sip:%s@%s>%s' % (q.user, LADDR, '' if totag is None else ';tag=%s' % totag),
              'Call-ID: %s' % q.cid,
              'CSeq: %d %s' % (q.cseq, method or self.method)]
        ls += list(extra)
        ls += ['Content-Length: 0', '', '']
        return '\r\n'.join(ls)

    def recv(self, text):
        incoming(self.tm, self.serv, self.sim, text, self.addr)


@contract('C03', targets=[TM + 'newTransaction'])
def tx_client_start(v):
    method = v.choice('method', ['INVITE', 'BYE'])
    e = v.int('exp', -1, 4000)
    hasexp = v.flag('hasexp')
    c = C(v, method, extra=['Expires: %d' % e] if hasexp else [])
    v.ensure('sent-once', len(c.serv.sent) == 1)
    v.ensure('sent-to-target', v.eq(c.serv.sent[0][1], c.addr))
    v.ensure('request-line', v.eq(sline(c.serv.sent[0][0]), sline(c.q.text(method))))
    v.ensure('timers', sorted([x.ival for x in c.live()]) == [0.5, 32.0])
    v.ensure('registered', len(c.tm.tclient) == 1 and c.t.tid in c.tm.tclient)
    v.ensure('nothing-told', c.told == [])
    out = v.call(c.tm.newTransaction, c.msg, c.cb)
    v.ensure('same-id-refused', not out.ok and len(c.serv.sent) == 1 and len(c.tm.tclient) == 1)
    v.ensure('timers-kept', sorted([x.ival for x in c.live()]) == [0.5, 32.0])
    p = v.int('p', 100, 199)
    c.recv(c.resp(p))
    v.ensure('provisional-told', len(c.told) == 1 and c.told[0].getSCode()[0] == p)
    live = c.live()
    want = 32
    if method == 'INVITE':
        want = v.ite(e > 0, e, 300) if hasexp else 300
    v.ensure('one-timeout-after-provisional', len(live) == 1 and bool(live[0].ival == want))
    v.cover(method)


@contract('C03', targets=[TM + 'timerA', TM + 'timerB', TM + 'timerC', TM + 'incomingResponse'])
def tx_client_retransmit_timeout(v):
    """retransmission at doubling intervals while nothing was received; 408 once after the timeout"""
    method = v.choice('method', ['INVITE', 'BYE'])
    c = C(v, method, ifver=2 if method == 'BYE' else 1)
    rounds = v.choice('rounds', [0, 2])
    want = 0.5
    for i in range(rounds):
        a = [x for x in c.live() if x.ival != 32.0]
        v.ensure('doubling', len(a) == 1 and a[0].ival == want)
        a[0].fire()
        want = want * 2
        v.ensure('retransmitted', v.and_(len(c.serv.sent) == i + 2, v.eq(c.serv.sent[-1], c.serv.sent[0])))
    prov = v.choice('provisionals', [0, 1, 2])
    for i in range(prov):
        c.recv(c.resp(v.int('p%d' % i, 100, 199), reason='R%d' % i))
        v.ensure('provisional-told', len(c.told) == i + 1)
        v.ensure('retransmission-stopped', len(c.live()) == 1)
    n = len(c.serv.sent)
    b = [x for x in c.live() if x.cbname() == 'timerB'] or [x for x in c.live() if x.ival != want]
    v.ensure('one-timeout-timer', len(b) == 1)
    b[0].fire()
    v.ensure('408-told-once', len(c.told) == prov + 1 and c.told[-1].getSCode()[0] == 408)
    v.ensure('nothing-sent', len(c.serv.sent) == n)
    v.ensure('retransmission-stopped', len(c.live()) <= 1)
    late = v.flag('late-response')
    if late:
        was = tx_snap(c.tm, c.t, c.sim)
        c.recv(c.resp(v.int('late', 100, 699)))
        v.ensure('nothing-told-after-408', len(c.told) == prov + 1)
        v.ensure('late-response-changes-nothing', tx_same(v, was, tx_snap(c.tm, c.t, c.sim)))
    for x in c.live():
        x.fire()
    v.ensure('no-timer-left', c.live() == [])
    v.ensure('no-entry-left', len(c.tm.tclient) == 0)
    c.recv(c.resp(v.int('later', 100, 699), reason='Later'))
    v.ensure('nothing-told-after-408', len(c.told) == prov + 1)
    v.ensure('nothing-sent', len(c.serv.sent) == n)
    v.cover(method)


@contract('C03', targets=[TM + 'incomingResponse'])
def tx_client_final(v):
    """the final response is told once; a non-INVITE is not acknowledged, a failed INVITE is acknowledged
    on its own branch to where it went"""
    method = v.choice('method', ['INVITE', 'BYE'])
    cb = v.flag('cb')
    rt = v.flag('routes')
    c = C(v, method, cb=cb, extra=['Route: <sip:10.8.8.8;lr>', 'Route: <sip:10.8.8.9;lr>'] if rt else [])
    prov = v.choice('provisionals', [0, 1])
    for i in range(prov):
        c.recv(c.resp(v.int('p%d' % i, 100, 199)))
    n = len(c.serv.sent)
    k = len(c.told)
    v.ensure('told-provisional', k == (prov if cb else 0))
    f = v.int('f', 300 if method == 'INVITE' else 200, 699)
    tag = v.str('ttag', 'alnum', 1)
    hastag = v.flag('hastag')
    c.recv(c.resp(f, totag=tag if hastag else None))
    v.ensure('told-once', len(c.told) == k + (1 if cb else 0))
    if cb:
        v.ensure('told-code', c.told[-1].getSCode()[0] == f)
    if method == 'INVITE':
        v.ensure('ack-sent-once', len(c.serv.sent) == n + 1)
        data, addr = c.serv.sent[n]
        v.ensure('ack-goes-where-invite-went', v.eq(addr, c.addr))
        v.ensure('ack-request-line', v.eq(sline(data), sline(c.q.text('ACK'))))
        v.ensure('ack-same-via', v.eq(hdrs(data, 'via'), hdrs(c.serv.sent[0][0], 'via')))
        v.ensure('ack-from', v.eq(hdr(data, 'from'), '<sip:a@10.7.7.7>;tag=%s' % c.q.ftag))
        v.ensure('ack-call-id', v.eq(hdr(data, 'call-id'), c.q.cid))
        v.ensure('ack-cseq', v.eq(hdr(data, 'cseq'), '%d ACK' % c.q.cseq))
        v.ensure('ack-to', v.eq(hdr(data, 'to'), '<sip:%s@%s>%s' % (c.q.user, LADDR, ';tag=%s' % tag if hastag else '')))
        v.ensure('ack-same-routes', hdrs(data, 'route') == (['<sip:10.8.8.8;lr>', '<sip:10.8.8.9;lr>'] if rt else []))
    else:
        v.ensure('not-acknowledged', len(c.serv.sent) == n)
    v.ensure('no-timer-left', c.live() == [])
    v.ensure('no-entry-left', len(c.tm.tclient) == 0)
    n = len(c.serv.sent)
    c.recv(c.resp(v.int('g', 100, 699), reason='Other'))
    v.ensure('nothing-after-final', len(c.told) == k + (1 if cb else 0) and len(c.serv.sent) == n)
    v.cover(method)


RRK = ['none', 'lr', 'strict', 'lr+lr', 'strict+lr', 'lr+strict']


@contract('C03', targets=[TM + 'incomingResponse', TM + 'sendACK'],
          bounded='route sets of up to two entries')
def tx_client_2xx_ack(v):
    """the ACK of a 2xx goes along the route set of the answer, to its Contact, on a new branch"""
    rrk = v.choice('record-route', RRK)
    hascontact = v.flag('contact')
    uack = v.flag('uack')
    chost = v.choice('chost', ['10.3.3.3', 'h.example.org'])
    cport = v.int('cport', 1, 65535)
    hascport = v.flag('cport?')
    c = C(v, 'INVITE', uack=uack)
    prov = v.flag('prov')
    if prov:
        c.recv(c.resp(180))
    k = len(c.told)
    ports = [v.int('rp0', 1, 65535), v.int('rp1', 1, 65535)]
    rrs = []
    for i, x in enumerate(rrk.split('+') if rrk != 'none' else []):
        rrs.append(('10.5.5.%d' % i, ports[i], x == 'lr'))
    ex = ['Record-Route: <sip:%s:%d%s>' % (h, p, ';lr' if lr else '') for h, p, lr in rrs]
    curl = 'sip:cc@%s%s' % (chost, ':%d' % cport if hascport else '')
    if hascontact:
        ex.append('Contact: <%s>' % curl)
    tag = v.str('ttag', 'alnum', 1)
    f = v.int('f', 200, 299)
    n = len(c.serv.sent)
    c.recv(c.resp(f, totag=tag, extra=ex))
    v.ensure('told-once', len(c.told) == k + 1)
    if uack:
        v.ensure('ack-not-sent-before-asked', len(c.serv.sent) == n)
        c.recv(c.resp(f, totag=tag, extra=ex, reason='Again'))
        v.ensure('told-once', len(c.told) == k + 1)
        v.ensure('ack-not-sent-before-asked', len(c.serv.sent) == n)
        c.tm.sendACK(c.t)
    v.ensure('ack-sent-once', len(c.serv.sent) == n + 1)
    data, addr = c.serv.sent[n]
    ca = (chost, cport if hascport else 5060)
    # oracle: RFC 3261 12.1.2, 12.2.1.1
    rset = [rrs[len(rrs) - 1 - i] for i in range(len(rrs))]
    txt = lambda r: '<sip:%s:%d%s>' % (r[0], r[1], ';lr' if r[2] else '')
    if len(rset) > 0 and not rset[0][2]:
        ruri = 'sip:%s:%d' % (rset[0][0], rset[0][1])
        routes = [txt(x) for x in rset[1:]] + (['<%s>' % curl] if hascontact else [])
        dest = (rset[0][0], rset[0][1])
    else:
        ruri = curl if hascontact else 'sip:%s@%s:%d' % (c.q.user, LADDR, LPORT)
        routes = [txt(x) for x in rset]
        dest = (rset[0][0], rset[0][1]) if len(rset) > 0 else (ca if hascontact else c.addr)
    v.ensure('ack-request-line', v.eq(sline(data), 'ACK %s SIP/2.0' % ruri))
    v.ensure('ack-routes', v.eq(hdrs(data, 'route'), routes))
    v.ensure('ack-destination', v.eq(addr, dest))
    via = SipRequest(data).getHFBodys('via')
    v.ensure('ack-new-branch', len(via) == 1 and via[0].getBranch() is not None)
    v.ensure('ack-branch-differs', v.not_(v.eq(via[0].getBranch(), c.q.branch)))
    v.ensure('ack-cseq', v.eq(hdr(data, 'cseq'), '%d ACK' % c.q.cseq))
    v.ensure('ack-to', v.eq(hdr(data, 'to'), '<sip:%s@%s>;tag=%s' % (c.q.user, LADDR, tag)))
    v.ensure('ack-from', v.eq(hdr(data, 'from'), '<sip:a@10.7.7.7>;tag=%s' % c.q.ftag))
    v.ensure('ack-call-id', v.eq(hdr(data, 'call-id'), c.q.cid))
    v.ensure('no-timer-left', c.live() == [])
    v.ensure('no-entry-left', len(c.tm.tclient) == 0)
    v.cover('uack' if uack else 'auto')


@contract('C03', targets=[TM + 'cancelTransaction', TM + 'incomingResponse'])
def tx_client_cancel(v):
    """CANCEL goes out only after a provisional answer, once, with the extra headers asked for"""
    c = C(v, 'INVITE', extra=['Route: <sip:10.8.8.8;lr>'] if v.flag('routes') else [])
    from sippy.SipHeader import SipHeader
    exh = v.flag('extra')
    rs = v.str('reason', 'alnum', 1)
    eh = [SipHeader('X-Why: %s' % rs)] if exh else None
    before = v.flag('asked-before-provisional')
    n = len(c.serv.sent)
    if before:
        c.tm.cancelTransaction(c.t, eh)
        v.ensure('deferred', len(c.serv.sent) == n)
        if v.flag('final-first'):
            c.recv(c.resp(v.int('f', 200, 699)))
            v.ensure('never-cancelled-after-final', len([x for x in c.serv.sent if sline(x[0]).startswith('CANCEL')]) == 0)
            v.ensure('told-final', len(c.told) == 1)
            v.cover('final-first')
            return
        c.recv(c.resp(v.int('p', 100, 199)))
    else:
        c.recv(c.resp(v.int('p', 100, 199)))
        v.ensure('not-cancelled-unasked', len(c.serv.sent) == n)
        c.tm.cancelTransaction(c.t, eh)
    v.ensure('cancel-sent-once', len(c.serv.sent) == n + 1)
    data, addr = c.serv.sent[n]
    inv = c.serv.sent[0][0]
    v.ensure('cancel-destination', v.eq(addr, c.addr))
    v.ensure('cancel-request-line', v.eq(sline(data), sline(c.q.text('CANCEL'))))
    v.ensure('cancel-same-via', v.eq(hdrs(data, 'via'), hdrs(inv, 'via')))
    v.ensure('cancel-same-ids', v.eq([hdr(data, 'from'), hdr(data, 'to'), hdr(data, 'call-id')],
                                     [hdr(inv, 'from'), hdr(inv, 'to'), hdr(inv, 'call-id')]))
    v.ensure('cancel-cseq', v.eq(hdr(data, 'cseq'), '%d CANCEL' % c.q.cseq))
    v.ensure('cancel-same-routes', v.eq(hdrs(data, 'route'), hdrs(inv, 'route')))
    v.ensure('cancel-extra-headers', v.eq(hdrs(data, 'x-why'), [rs] if exh else []))
    c.recv(c.resp(v.int('p2', 100, 199), reason='More'))
    v.ensure('cancel-sent-once', len(c.serv.sent) == n + 1)
    v.ensure('still-told', len(c.told) == 2)
    c.recv(c.resp(200, method='CANCEL'))
    v.ensure('cancel-answer-not-told', len(c.told) == 2)
    c.recv(c.resp(487))
    v.ensure('final-told', len(c.told) == 3 and c.told[2].getSCode()[0] == 487)
    v.ensure('no-timer-left', c.live() == [])
    v.ensure('no-entry-left', len(c.tm.tclient) == 0)
    v.cover('deferred' if before else 'direct')


@contract(('C03', 'C10'), targets=[TM + 'handleIncoming', 'sippy/SipMsg.py:SipMsg.getTId'])
def tx_client_foreign_response(v):
    """a response is matched to the transaction only when Call-ID, From tag, CSeq number and method and
    branch are all its own"""
    c = C(v, 'INVITE')
    what = v.choice('differs', ['cid', 'ftag', 'branch', 'cseq', 'method'])
    o = v.str('other', 'alnum', 1)
    q = c.q
    n = v.int('ocseq', 0, 2147483647)
    saved = (q.cid, q.ftag, q.branch, q.cseq)
    m = 'INVITE'
    if what == 'cseq':
        v.assume(n != q.cseq)
        q.cseq = n
    elif what == 'method':
        m = 'BYE'
    else:
        v.assume(v.not_(v.eq(o, getattr(q, what))))
        setattr(q, what, o)
    was = tx_snap(c.tm, c.t, c.sim)
    text = c.resp(v.int('f', 100, 699), method=m)
    q.cid, q.ftag, q.branch, q.cseq = saved
    c.recv(text)
    v.ensure('foreign-response-dropped', c.told == [] and len(c.serv.sent) == 1)
    v.ensure('transaction-untouched', tx_same(v, was, tx_snap(c.tm, c.t, c.sim)))
    v.cover(what)


# ------------------------------------------------------------------ C01
@contract('C01', targets=[TM + 'handleIncoming', TM + 'transmitData', TM + 'rCachePurge'])
def tx_cache_request(v):
    """the same datagram again, within the cache lifetime: the same answer bytes to the same address,
    the application not involved"""
    method = v.choice('method', ['INVITE', 'OPTIONS', 'CANCEL', 'ACK'])
    # an application that returns nothing at all for a non-INVITE has answered it itself
    answer = v.choice('answer', ['none', 'prov', 'final', 'later'] if method != 'OPTIONS' else ['prov', 'final', 'later'])
    asbytes = v.flag('bytes')
    sim = Sim(v)
    app = App(None)
    f = v.int('f', 200, 699)
    p = v.int('p', 100, 199)
    # the test facility that loses an answer: the first copy of it is not sent, the next one is
    lost = 1 if answer == 'final' and v.flag('lost') else 0

    def rval(msg, t):
        r = None
        if answer == 'prov':
            r = msg.genResponse(p, 'Progress')
        elif answer == 'final':
            r = msg.genResponse(f, 'Final')
            r.lossemul = lost
        elif answer == 'none':
            return None
        return (r, app.cancel_cb, app.noack_cb)
    app.rval = rval
    tm, serv = mktm(v, sim, app.req)
    q = Q(v)
    text = q.text(method)
    if asbytes:
        text = text.encode('utf-8')
    incoming(tm, serv, sim, text)
    if answer == 'later' and app.reqs and method == 'INVITE':
        msg, t = app.reqs[0]
        tm.sendResponse(msg.genResponse(p, 'Progress'), t)
        if v.flag('then-final'):
            tm.sendResponse(msg.genResponse(f, 'Final'), t)
    first = list(serv.sent)
    nreq = len(app.reqs)
    live = sim.live()
    rot = v.choice('rotations', [0, 1])
    for i in range(rot):
        tm.rCachePurge()
    addr2 = ('10.99.99.99', v.int('p99', 1, 65535))
    incoming(tm, serv, sim, text, addr2)
    v.ensure('not-processed-again', len(app.reqs) == nreq)
    v.ensure('timers-untouched', sim.live() == live)
    v.ensure('no-transaction-made', len(tm.tclient) == 0)
    new = serv.sent[len(first):]
    if lost and app.reqs:
        v.ensure('lost-answer-not-sent', first == [])
        v.ensure('lost-answer-sent-on-retransmission', v.and_(
            len(new) == 1, v.eq(sline(new[0][0]), 'SIP/2.0 %d Final' % f), v.eq(hdr(new[0][0], 'call-id'), q.cid)))
    elif first:
        v.ensure('last-answer-repeated', v.and_(len(new) == 1, v.eq(new[0], first[-1])))
    else:
        v.ensure('silent', new == [])
    v.cover(method)


@contract('C01', targets=[TM + 'handleIncoming', TM + 'transmitMsg', TM + 'incomingResponse'])
def tx_cache_response(v):
    """the same response datagram again: the ACK, if it had one, is repeated, nothing is told again"""
    method = v.choice('method', ['INVITE', 'BYE'])
    c = C(v, method, uack=False)
    f = v.int('f', 100, 699)
    earlier = []
    k = v.choice('earlier', [0, 1, 2])
    for i in range(k):
        earlier.append(c.resp(v.int('p%d' % i, 100, 199), reason='Earlier%d' % i))
        c.recv(earlier[i])
        v.ensure('told-once', len(c.told) == i + 1)
    # a copy of an earlier one in between
    mid = k > 0 and v.flag('in-between')
    text = c.resp(f, extra=['Contact: <sip:c@10.3.3.3:5062>'])
    if mid:
        m = len(c.serv.sent)
        live = c.live()
        c.recv(earlier[k - 1])
        v.ensure('told-once', len(c.told) == k)
        v.ensure('copy-changes-nothing', len(c.serv.sent) == m and c.live() == live)
    c.recv(text)
    sent = list(c.serv.sent)
    told = len(c.told)
    v.ensure('told-once', told == k + 1)
    n = v.choice('copies', [1, 2])
    if v.flag('rotate'):
        c.tm.rCachePurge()
    live = c.live()
    for i in range(n):
        c.recv(text)
    v.ensure('told-once', len(c.told) == k + 1)
    for x in earlier:
        m = len(c.serv.sent)
        c.recv(x)
        v.ensure('earlier-copy-silent', len(c.told) == k + 1 and len(c.serv.sent) == m)
    v.ensure('timers-untouched', c.live() == live)
    if method == 'INVITE' and len(sent) == 2:
        v.ensure('ack-repeated', v.and_(len(c.serv.sent) == 2 + n, *[v.eq(x, sent[1]) for x in c.serv.sent[2:]]))
        v.cover('acked')
    else:
        v.ensure('silent', len(c.serv.sent) == len(sent))
        v.cover('silent')


@contract('C01', targets=[TM + 'handleIncoming', TM + 'rCachePurge'])
def tx_cache_lifetime(v):
    """an entry survives one cache rotation and is gone after two; rotation happens every 32 s"""
    sim = Sim(v)
    tm, serv = mktm(v, sim, None)
    cp = sim.live()
    v.ensure('rotation-timer', len(cp) == 1 and cp[0].ival == 32 and cp[0].nticks == -1)
    q = Q(v)
    text = q.text('CANCEL')
    incoming(tm, serv, sim, text)
    v.ensure('answered', len(serv.sent) == 1)
    v.ensure('remembered', len(tm.l1rcache) + len(tm.l2rcache) == 1)
    cp[0].fire()
    v.ensure('remembered', len(tm.l1rcache) + len(tm.l2rcache) == 1)
    cp[0].fire()
    v.ensure('forgotten', len(tm.l1rcache) + len(tm.l2rcache) == 0)
    v.cover('done')


@contract('C01', targets=[TM + 'handleIncoming'])
def tx_cache_different(v):
    """different datagrams are never taken for one another"""
    sim = Sim(v)
    app = App(None)
    app.rval = lambda msg, t: (msg.genResponse(200, 'OK'), None, None)
    tm, serv = mktm(v, sim, app.req)
    q = Q(v)
    incoming(tm, serv, sim, q.text('OPTIONS'))
    q2 = Q(v, 'b')
    t1 = q.text('OPTIONS')
    t2 = q2.text('OPTIONS')
    v.assume(v.not_(v.eq(t1, t2)))
    incoming(tm, serv, sim, t2)
    v.ensure('other-datagram-processed', len(app.reqs) == 2 and len(serv.sent) == 2)
    v.ensure('own-answer', v.eq(hdr(serv.sent[1][0], 'call-id'), q2.cid))
    v.cover('done')


@contract('C01', targets=[TM + 'handleIncoming'])
def tx_unparsable(v):
    """a datagram that does not parse changes nothing, raises nothing and is remembered as such"""
    sim = Sim(v)
    app = App(None)
    tm, serv = mktm(v, sim, app.req)
    kind = v.choice('kind', ['garbage', 'short', 'resp-code', 'no-via', 'bad-cseq', 'resp-unknown', 'long-body'])
    q = Q(v)
    x = v.str('x', 'alnum', 40)
    if kind == 'garbage':
        text = x
    elif kind == 'short':
        text = v.str('s', 'alnum', 0, 31)
    elif kind == 'resp-code':
        code = v.int('code', 0, 99999)
        v.assume(v.or_(code < 100, code > 999))
        text = 'SIP/2.0 %d Bad\r\n' % code + q.text('OPTIONS').split('\r\n', 1)[1]
    elif kind == 'no-via':
        text = q.text('OPTIONS').replace('Via:', 'X-Via:')
    elif kind == 'bad-cseq':
        h, r = q.text('OPTIONS').split('CSeq: ', 1)
        text = h + 'CSeq: z' + r
    elif kind == 'resp-unknown':
        text = 'SIP/2.0 200 OK\r\n' + q.text('OPTIONS').split('\r\n', 1)[1]
    else:
        text = q.text('OPTIONS').replace('Content-Length: 0', 'Content-Length: %d' % v.int('cl', 1, 100000))
    for i in range(2):
        incoming(tm, serv, sim, text)
        v.ensure('nothing-handed-up', app.reqs == [])
        v.ensure('no-transaction', len(tm.tserver) == 0 and len(tm.tclient) == 0)
        if kind == 'long-body':
            v.ensure('refused-400', len(serv.sent) >= 1 and sline(serv.sent[0][0]).startswith('SIP/2.0 400 '))
            v.ensure('refused-to-sender', serv.sent[0][1] == RA)
        else:
            v.ensure('nothing-sent', serv.sent == [])
    v.cover(kind)
