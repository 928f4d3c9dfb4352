"""Call legs (UA and its states): C04, C05, C06, C07"""
from pyvc.api import contract
from contracts.lib import hdr, hdrs, sline
from sippy.SipHeader import SipHeader
from contracts.ualib import *

D = 'sippy/'


def uac(v, phase, body=None, **kw):
    """a calling leg: waiting, after 100, or after another provisional answer"""
    L = Leg(v, **kw)
    L.try_(body)
    if phase in ('100', '180'):
        L.sim.advance(v.real('d100', 0, 1000))
        L.answer(L.inv(), 100, None)
    if phase in ('18x', '180'):
        L.sim.advance(v.real('d18x', 0, 1000))
        L.answer(L.inv(), v.int('p18x', 101, 199))
    return L


@contract('C05', targets=[D + 'UacStateTrying.py:UacStateTrying.recvResponse', D + 'UacStateRinging.py:UacStateRinging._recvResponse',
                          D + 'UA.py:UA.recvResponse', D + 'UA.py:UA.changeState'])
def ua_uac_response(v):
    """any response to the INVITE of a call being set up"""
    phase = v.choice('phase', ['none', '100', '18x', '180'])
    lim = v.choice('limits', ['none', 'expire', 'all'])
    kw = {}
    if lim in ('expire', 'all'):
        kw['expire'] = 60
    if lim in ('noprog', 'all'):
        kw['noprog'] = 40
    if lim in ('noreply', 'all'):
        kw['noreply'] = 20
    credit = v.flag('credit')
    L = uac(v, phase, MsgBody(SDP % 1), credit=v.real('credit', 1, 100000) if credit else None, **kw)
    ua = L.ua
    hasbody = v.flag('body')
    mode = v.choice('remote-sdp', ['none', 'same', 'async', 'error']) if hasbody else 'none'
    L.remote_sdp(mode)
    L.sim.advance(v.real('dt', 0, 1000))
    tag = v.flag('tag')
    code = v.int('code', 100, 699)
    n, na = len(L.events), L.tm.nsent()
    lim0 = L.limits()
    L.log = []
    now = L.sim.now
    ntr = len(L.tm.trs)
    tr = L.inv()
    L.answer(tr, code, 'rtag' if tag else None, SDP % 2 if hasbody else None, extra=['Contact: <sip:bob@10.8.8.8:5070>'])
    names = L.names(n)
    if code == 100:
        v.ensure('trying-told', names in (['CCEventRing'], []))
        v.ensure('not-ended', L.cnt('disc') + L.cnt('fail') + L.cnt('conn') == 0 and ua.disconnect_ts is None)
        v.ensure('not-connected', not ua.isConnected())
        v.cover('100')
    elif code < 200:
        if mode == 'error':
            v.ensure('failure-told', names == ['CCEventFail'] and L.cnt('fail') == 1 and L.cnt('disc') == 0)
            v.ensure('cancelled', len(tr.cancels) == 1)
            L.ended(now)
            L.aftermath()
            v.cover('1xx-error')
            return
        v.ensure('ringing-told', names == ([] if mode == 'async' else ['CCEventRing']))
        v.ensure('ring-callback', L.cnt('ring') == 1 and v.eq(L.log[0][3], code))
        v.ensure('not-ended', L.cnt('disc') + L.cnt('fail') + L.cnt('conn') == 0 and ua.disconnect_ts is None)
        v.ensure('not-connected', not ua.isConnected())
        if mode == 'async':
            L.upd[0][1](L.upd[0][0])
            v.ensure('ringing-told-later', L.names(n) == ['CCEventRing'])
        v.cover('1xx')
    elif code < 300 and tag:
        if mode == 'error':
            v.ensure('failure-told', names == ['CCEventFail'] and L.cnt('fail') == 1 and L.cnt('disc') == 0 and L.cnt('conn') == 0)
            v.ensure('one-bye', L.methods(ntr) == ['BYE'])
            L.ended(now)
            L.aftermath()
            v.cover('2xx-error')
            return
        v.ensure('connection-told', names == ([] if mode == 'async' else ['CCEventConnect']))
        v.ensure('connected-once', L.cnt('conn') == 1 and ua.isConnected())
        v.ensure('connect-time', v.eq(ua.connect_ts.monot, now))
        v.ensure('not-ended', L.cnt('disc') + L.cnt('fail') == 0 and ua.disconnect_ts is None)
        v.ensure('setup-timers-cancelled', [x for x in L.limits() if x in lim0] == [])
        v.ensure('credit-timer', len(L.limits()) == (1 if credit else 0))
        v.ensure('nothing-sent', L.tm.nsent() == na)
        if mode == 'async':
            if v.flag('update-fails'):
                L.upd[0][1](L.upd[0][0], ex=SdpParseError('late'))
                v.ensure('failure-told', L.names(n) == ['CCEventFail'])
                v.ensure('one-bye', L.methods(ntr) == ['BYE'])
                L.ended()
                L.aftermath()
            else:
                L.upd[0][1](L.upd[0][0])
                v.ensure('connection-told-later', L.names(n) == ['CCEventConnect'])
        v.cover('2xx')
    elif code < 300:
        v.ensure('failure-told', names == ['CCEventFail'] and L.evs(CCEventFail)[0].getData()[0] == 502)
        v.ensure('failed-once', L.cnt('fail') == 1 and L.cnt('conn') == 0)
        v.ensure('one-bye', L.methods(ntr) == ['BYE'])
        L.ended(now)
        L.aftermath()
        v.cover('2xx-no-tag')
    else:
        red = v.or_(code == 300, code == 301, code == 302)
        v.ensure('failure-told', v.or_(v.and_(red, names == ['CCEventRedirect']), v.and_(v.not_(red), names == ['CCEventFail'])))
        v.ensure('failure-code', v.eq(L.events[-1].getData()[0], code))
        v.ensure('failed-once', v.and_(L.cnt('fail') == 1, L.cnt('conn') == 0, v.eq(L.log[0][3], code)))
        v.ensure('nothing-sent', L.tm.nsent() == na)
        L.ended(now)
        L.aftermath()
        v.cover('failure')


def mkevent(v, kind, L, extra=None, data='default', origin='app'):
    rt = L.sim.mt()
    c = {'disconnect': CCEventDisconnect, 'fail': CCEventFail, 'redirect': CCEventRedirect, 'connect': CCEventConnect,
         'ring': CCEventRing, 'preconnect': CCEventPreConnect, 'update': CCEventUpdate, 'info': CCEventInfo}[kind]
    e = c(None if data == 'default' else data, rt, origin)
    e.extra_headers = extra
    return e


def xh(val):
    from sippy.SipHeader import SipHeader
    return (SipHeader('X-Why: %s' % val),)


@contract('C05', targets=[D + 'UacStateTrying.py:UacStateTrying.recvEvent', D + 'UacStateRinging.py:UacStateRinging.recvEvent',
                          D + 'UacStateCancelling.py:UacStateCancelling.recvResponse', D + 'UA.py:UA.recvEvent', D + 'UA.py:UA.disconnect'])
def ua_uac_giveup(v):
    """a call being set up is given up by the application or by one of its time limits"""
    phase = v.choice('phase', ['none', '100', '18x', '180'])
    how = v.choice('how', ['disconnect', 'fail', 'redirect', 'limit', 'method'])
    L = uac(v, phase, expire=60, noprog=40 if phase == 'none' else None, noreply=20)
    ua = L.ua
    L.log = []
    L.sim.advance(v.real('dt', 0, 1000))
    n, ntr = len(L.events), len(L.tm.trs)
    tr = L.inv()
    t0 = L.sim.now
    why = v.str('why', 'alnum', 1)
    if how == 'limit':
        ts = L.limits()
        v.ensure('limited', len(ts) == 1)
        L.fire(ts[0])
        t0 = L.sim.now
    elif how == 'method':
        ua.disconnect()
    else:
        L.ua.recvEvent(mkevent(v, how, L, xh(why)))
    v.ensure('cancelled-once', len(tr.cancels) == 1)
    if how in ('limit', 'method'):
        v.ensure('end-told', L.names(n) == ['CCEventDisconnect'])
    else:
        v.ensure('extra-headers-kept', v.eq([str(x).lower() for x in tr.cancels[0]], ['x-why: %s' % why.lower()]))
        v.ensure('end-not-echoed', L.names(n) == [])
    v.ensure('disconnected-once', L.cnt('disc') == 1 and L.cnt('fail') == 0)
    v.ensure('no-bye', len(L.tm.trs) == ntr)
    L.ended(t0)
    n = len(L.events)
    then = v.choice('then', ['nothing', 'event', '1xx', '2xx', 'failure'])
    if then == 'event':
        ua.recvEvent(mkevent(v, v.choice('again', ['disconnect', 'fail', 'connect']), L, None, (200, 'OK', None)))
        v.ensure('later-event-ignored', len(L.tm.trs) == ntr and len(tr.cancels) == 1 and L.cnt('disc') == 1)
    elif then == '1xx':
        L.answer(tr, v.int('c1', 100, 199))
        v.ensure('provisional-ignored', len(L.tm.trs) == ntr)
    elif then == '2xx':
        L.answer(tr, v.int('c2', 200, 299), extra=['Contact: <sip:bob@10.8.8.8:5077>'])
        v.ensure('one-bye', L.methods(ntr) == ['BYE'])
        b = L.tm.trs[-1].text
        v.ensure('bye-in-dialog', v.and_(v.eq(sline(b), 'BYE sip:bob@10.8.8.8:5077 SIP/2.0'), v.eq(hdr(b, 'to'), '<sip:bob@10.8.8.8>;tag=rtag')))
        L.recv(L.req('BYE', totag=ua.lTag, ftag='rtag', cseq=77))
        v.ensure('peer-bye-answered', L.codes() == [200])
    elif then == 'failure':
        L.answer(tr, v.int('c3', 300, 699))
        v.ensure('final-ignored', len(L.tm.trs) == ntr)
        v.ensure('dead', ua.isDead() and L.log[-1] == ('dead',))
        L.log.pop()
        L.log.append(('disc',))
    v.ensure('nothing-told-after-end', len(L.events) == n)
    if then != 'failure':
        L.aftermath()
    else:
        v.ensure('no-timer-left', L.sim.live() == [])
    v.cover(how + '/' + then)


@contract('C05', targets=[D + 'UacStateIdle.py:UacStateIdle.recvEvent'])
def ua_uac_never_started(v):
    """a leg that is ended before the INVITE was sent dies at once"""
    L = Leg(v, expire=60)
    how = v.choice('how', ['disconnect', 'fail'])
    L.ua.recvEvent(mkevent(v, how, L))
    v.ensure('dead', L.ua.isDead())
    v.ensure('nothing-sent', L.tm.nsent() == 0)
    v.ensure('told-once', v.and_(L.cnt('dead') == 1, L.sim.live() == []))
    v.ensure('end-time-recorded', v.eq(L.ua.disconnect_ts.monot, L.sim.now))
    L.ua.recvEvent(mkevent(v, 'fail', L))
    v.ensure('told-once', L.cnt('dead') == 1 and L.events == [])
    v.cover(how)


def uas(v, phase, body=None, expire=60, noprog=None, extra=(), mode='none', **kw):
    """a called leg: INVITE received, possibly ringing"""
    L = Leg(v, expire=expire, noprog=noprog, **kw)
    L.remote_sdp(mode)
    L.t0 = L.sim.now
    L.ireq = L.req('INVITE', body=body, extra=extra)
    L.cancel, L.noack = L.recv(L.ireq)
    if phase == 'ringing':
        L.sim.advance(v.real('dring', 0, 1000))
        L.ua.recvEvent(mkevent(v, 'ring', L, None, (v.int('p18x', 101, 199), 'Ringing', None)))
    return L


@contract('C05', targets=[D + 'UasStateIdle.py:UasStateIdle.recvRequest', D + 'UasStateTrying.py:UasStateTrying._recvEventRing',
                          D + 'UasStateRinging.py:UasStateRinging._recvEventRing', D + 'UasStateProgressing.py:UasStateProgressing._recvEventConnect',
                          D + 'UasStateProgressing.py:UasStateProgressing._recvEventFail', D + 'UasStateProgressing.py:UasStateProgressing._recvEventRedirect',
                          D + 'UasStateProgressing.py:UasStateProgressing._recvEventDisconnect', D + 'UasStateProgressing.py:UasStateProgressing.cancel',
                          D + 'UasStateRinging.py:UasStateRinging._recvRequestBye', D + 'UA.py:UA.recvRequest'])
def ua_uas_step(v):
    """everything that can happen to a call received and not yet answered"""
    phase = v.choice('phase', ['trying', 'ringing'])
    what = v.choice('what', ['ring', 'connect', 'preconnect', 'redirect', 'fail', 'fail-default', 'disconnect', 'cancel', 'limit',
                             'method', 'bye', 'update', '100'])
    credit = v.flag('credit')
    np = v.flag('noprog')
    L = uas(v, phase, SDP % 1, noprog=40 if np else None, credit=v.real('credit', 1, 100000) if credit else None)
    ua = L.ua
    v.ensure('try-told', len(L.evs(CCEventTry)) == 1 and L.names() == ['CCEventTry'])
    v.ensure('trying-sent', L.codes()[0] == 100 and len(L.codes()) == (2 if phase == 'ringing' else 1))
    v.ensure('limited', len(L.limits()) == 1)
    L.log = []
    L.sim.advance(v.real('dt', 0, 1000))
    lim0 = L.limits()
    n, na = len(L.events), len(L.tm.answers)
    now = L.sim.now
    code = v.int('code', 200, 299)
    fcode = v.int('fcode', 300, 699)
    why = v.str('why', 'alnum', 1)
    if what in ('ring', '100'):
        p = v.int('p', 101, 199) if what == 'ring' else 100
        ua.recvEvent(mkevent(v, 'ring', L, xh(why), (p, 'Progress', None)))
        v.ensure('not-ended', L.cnt('disc') + L.cnt('fail') + L.cnt('conn') == 0 and ua.disconnect_ts is None)
        v.ensure('not-connected', not ua.isConnected())
        v.ensure('limited', len(L.limits()) == 1)
        if what == 'ring' or phase == 'ringing':
            v.ensure('provisional-sent', v.eq(L.codes(na), [p]))
            v.ensure('ring-callback', v.and_(L.cnt('ring') == 1, v.eq(L.log[0][3], p)))
        else:
            v.ensure('100-not-repeated', L.codes(na) == [] and L.log == [])
        v.cover(what)
        return
    if what == 'update':
        ua.recvEvent(mkevent(v, what, L))
        v.ensure('ignored', L.log == [] and len(L.tm.answers) == na and L.limits() == lim0 and len(L.events) == n)
        v.cover(what)
        return
    if what in ('connect', 'preconnect'):
        ua.recvEvent(mkevent(v, what, L, xh(why), (code, 'OK', MsgBody(SDP % 2))))
        v.ensure('answered-once', v.eq(L.codes(na), [code]))
        s = L.tm.answers[na][2]
        v.ensure('extra-headers-kept', v.eq(hdrs(s, 'x-why'), [why]))
        v.ensure('body-sent', s.endswith(SDP % 2))
        v.ensure('connected', ua.isConnected())
        v.ensure('not-ended', L.cnt('disc') + L.cnt('fail') == 0 and ua.disconnect_ts is None)
        if what == 'preconnect':
            v.ensure('not-connected-before-ack', L.cnt('conn') == 0 and ua.connect_ts is None)
            ack = L.tm.answers[na][1]
            v.ensure('ack-awaited', ack is not None)
            L.sim.advance(v.real('dack', 0, 32))
            now = L.sim.now
            hb = v.flag('ackbody')
            ar = L.req('ACK', totag='ltag', body=SDP % 3 if hb else None)
            ack(ar)
            v.ensure('connection-told', L.names(n) == ['CCEventConnect'])
            d = L.events[-1].getData()
            v.ensure('ack-body-told', (str(d[2]) == SDP % 3) if hb else d[2] is None)
        else:
            v.ensure('ack-not-awaited', L.tm.answers[na][1] is None)
            v.ensure('connection-not-echoed', len(L.events) == n)
        v.ensure('connected-once', L.cnt('conn') == 1)
        v.ensure('connect-time', v.eq(ua.connect_ts.monot, now))
        v.ensure('setup-timers-cancelled', [x for x in L.limits() if x in lim0] == [])
        v.ensure('credit-timer', len(L.limits()) == (1 if credit else 0))
        v.cover(what)
        return
    told = []
    if what == 'redirect':
        rc = v.int('rcode', 300, 399)
        from sippy.SipAddress import SipAddress
        ua.recvEvent(mkevent(v, what, L, xh(why), (rc, 'Moved', None, (SipAddress('<sip:c@10.4.4.4>'),))))
        want = [rc]
    elif what == 'fail':
        ua.recvEvent(mkevent(v, what, L, xh(why), (fcode, 'Failed')))
        want = [fcode]
    elif what == 'fail-default':
        ua.recvEvent(mkevent(v, 'fail', L, xh(why)))
        want = [500]
    elif what == 'disconnect':
        ua.recvEvent(mkevent(v, what, L, xh(why)))
        want = [500]
    elif what == 'cancel':
        creq = L.req('CANCEL', cseq=L.rcseq, extra=['Reason: SIP;cause=200'] if v.flag('reason') else [])
        (L.cancel)(creq.rtime, creq)
        want = []
        told = ['CCEventDisconnect']
    elif what == 'limit':
        L.fire(lim0[0])
        now = L.sim.now
        want = [500]
        told = ['CCEventDisconnect']
    elif what == 'method':
        L.noack()
        want = [500]
        told = ['CCEventDisconnect']
    elif what == 'bye':
        L.indialog('BYE', totag='ltag')
        if phase == 'trying':
            v.ensure('not-ended', L.log == [] and L.limits() == lim0)
            v.cover('early bye')
            return
        want = [487, 200]
        told = ['CCEventDisconnect']
    v.ensure('final-answer-once', v.eq(L.codes(na), want))
    if what in ('redirect', 'fail', 'fail-default', 'disconnect'):
        v.ensure('extra-headers-kept', v.eq(hdrs(L.tm.answers[na][2], 'x-why'), [why]))
    if what == 'redirect':
        v.ensure('redirect-contact', hdrs(L.tm.answers[na][2], 'contact') == ['<sip:c@10.4.4.4>'])
    if what == 'bye':
        s = [hdr(x[2], 'cseq') for x in L.tm.answers[na:]]
        v.ensure('each-answered-its-own', v.eq([x.split(' ')[1] for x in s], ['INVITE', 'BYE']))
    v.ensure('end-told', L.names(n) == told)
    k = 'fail' if what in ('redirect', 'fail', 'fail-default') else 'disc'
    v.ensure('ended-as-it-should', L.cnt(k) == 1 and L.cnt('conn') == 0)
    if k == 'fail':
        v.ensure('fail-code', v.eq(L.log[0][3], want[0]))
    L.ended(now)
    L.aftermath()
    v.cover(what)


def talking(v, side, upd=None, body=True, **kw):
    """an established call, possibly with a session update in progress (in: peer's, out: ours)"""
    if side == 'uac':
        L = Leg(v, **kw)
        L.try_(MsgBody(SDP % 1))
        L.sim.advance(v.real('dans', 0, 1000))
        L.answer(L.inv(), 200, 'rtag', SDP % 2, extra=['Contact: <sip:bob@10.8.8.8:5077>'])
    else:
        L = uas(v, 'trying', SDP % 2, expire=None, **kw)
        L.sim.advance(v.real('dans', 0, 1000))
        L.ua.recvEvent(mkevent(v, 'connect', L, None, (200, 'OK', MsgBody(SDP % 1))))
    L.tconn = L.sim.now
    L.side = side
    if upd == 'in':
        L.uinv = L.req('INVITE', body=SDP % 22, branch='z9hG4bKu', **L.peer())
        L.ucancel, L.unoack = L.recv(L.uinv)
    elif upd == 'out':
        L.ua.recvEvent(mkevent(v, 'update', L, None, MsgBody(SDP % 11)))
        L.utr = L.inv()
    L.sim.advance(v.real('dtalk', 0, 100000))
    L.log = []
    L.n = len(L.events)
    L.ntr = len(L.tm.trs)
    L.na = len(L.tm.answers)
    return L


def peer(L):
    return dict(totag='ltag', ftag='rtag' if L.side == 'uac' else L.ftag)


Leg.peer = peer
CONN = D + 'UaStateConnected.py:UaStateConnected.'


@contract('C05', targets=[CONN + '_recvRequestBye', CONN + '_recvRequestRefer', CONN + '_recvEventDisconnect', CONN + '_recvEventFail',
                          CONN + '_recvEventRedirect', CONN + 'rComplete', D + 'UA.py:UA.credit_expires'])
def ua_connected_end(v):
    """an established call is ended by either side or by its limit"""
    side = v.choice('side', ['uac', 'uas'])
    what = v.choice('what', ['bye', 'refer', 'refer-bad', 'disconnect', 'transfer', 'transfer-also', 'fail', 'redirect', 'credit', 'method'])
    credit = v.flag('credit') or what == 'credit'
    L = talking(v, side, credit=v.real('credit', 1, 200000) if credit else None)
    ua = L.ua
    v.ensure('talking', ua.isConnected() and ua.connect_ts is not None)
    v.ensure('credit-timer', len(L.limits()) == (1 if credit else 0))
    now = L.sim.now
    why = v.str('why', 'alnum', 1)
    from sippy.SipAddress import SipAddress
    told, answers, reqs = [], [], ['BYE']
    if what == 'bye':
        also = v.flag('also')
        hr = v.flag('reason')
        L.recv(L.req('BYE', extra=(['Also: <sip:z@10.6.6.6>'] if also else []) + (['Reason: SIP;cause=200;text="a"'] if hr else []), **L.peer()))
        told, answers, reqs = ['CCEventDisconnect'], [200], []
        e = L.events[-1]
        v.ensure('also-told', (str(e.getData()) == '<sip:z@10.6.6.6>') if also else e.getData() is None)
        v.ensure('reason-told', (str(e.reason_rfc3326) == 'SIP; cause=200; text="a"') if hr else e.reason_rfc3326 is None)
    elif what == 'refer':
        L.recv(L.req('REFER', extra=['Refer-To: <sip:z@10.6.6.6>'], **L.peer()))
        told, answers = ['CCEventDisconnect'], [202]
        v.ensure('also-told', str(L.events[-1].getData()) == '<sip:z@10.6.6.6>')
    elif what == 'refer-bad':
        L.recv(L.req('REFER', **L.peer()))
        v.ensure('refused', L.codes(L.na) == [400] and L.log == [] and len(L.events) == L.n and ua.isConnected())
        v.ensure('credit-timer', len(L.limits()) == (1 if credit else 0))
        v.cover(what)
        return
    elif what == 'disconnect':
        ua.recvEvent(mkevent(v, what, L, xh(why)))
    elif what in ('transfer', 'transfer-also'):
        ua.useRefer = what == 'transfer'
        ua.recvEvent(mkevent(v, 'disconnect', L, xh(why), SipAddress('<sip:z@10.6.6.6>')))
        reqs = ['REFER'] if what == 'transfer' else ['BYE']
    elif what == 'fail':
        ua.recvEvent(mkevent(v, what, L, xh(why), (v.int('fc', 300, 699), 'Failed')))
    elif what == 'redirect':
        ua.useRefer = v.flag('userefer')
        ua.recvEvent(mkevent(v, what, L, xh(why), (302, 'Moved', None, (SipAddress('<sip:z@10.6.6.6>'),))))
        reqs = ['REFER'] if ua.useRefer else ['BYE']
    elif what == 'credit':
        L.fire(L.limits()[0])
        now = v.ite(now > L.sim.now, now, L.sim.now)
        told = ['CCEventDisconnect']
    else:
        L.unoack = None
        ua.disconnect()
        told = ['CCEventDisconnect']
    v.ensure('end-told', L.names(L.n) == told)
    v.ensure('answers', L.codes(L.na) == answers)
    v.ensure('one-request', L.methods(L.ntr) == reqs)
    if reqs:
        t = L.tm.trs[L.ntr].text
        v.ensure('extra-headers-kept', v.eq(hdrs(t, 'x-why'), [why] if what in ('disconnect', 'transfer', 'transfer-also', 'fail', 'redirect') else []))
        if reqs == ['REFER']:
            v.ensure('refer-to', hdrs(t, 'refer-to') == ['<sip:z@10.6.6.6>'])
        elif what in ('transfer-also', 'redirect'):
            v.ensure('also', hdrs(t, 'also') == ['<sip:z@10.6.6.6>'])
    v.ensure('disconnected-once', L.cnt('disc') == 1 and L.cnt('fail') == 0 and L.cnt('conn') == 0)
    L.ended(now if what != 'credit' else None)
    if reqs == ['REFER']:
        tr = L.tm.trs[-1]
        if v.flag('refer-provisional'):
            L.answer(tr, v.int('rp', 100, 199))
            v.ensure('no-bye-before-refer-final', L.methods(L.ntr) == ['REFER'])
        L.answer(tr, v.int('rf', 200, 699))
        v.ensure('one-bye-after-refer', L.methods(L.ntr) == ['REFER', 'BYE'])
    then = v.choice('then', ['nothing', 'bye', 'invite', 'event'])
    k = len(L.tm.answers)
    m = len(L.tm.trs)
    if then == 'bye':
        L.recv(L.req('BYE', **L.peer()))
        v.ensure('peer-bye-answered', L.codes(k) == [200])
    elif then == 'invite':
        L.recv(L.req('INVITE', body=SDP % 9, **L.peer()))
        v.ensure('late-invite-refused', L.codes(k) == [500])
    elif then == 'event':
        ua.recvEvent(mkevent(v, v.choice('again', ['disconnect', 'fail', 'connect', 'update']), L, None, (200, 'OK', None)))
        v.ensure('later-event-ignored', len(L.tm.answers) == k)
    v.ensure('no-second-end', len(L.tm.trs) == m and len(L.events) == L.n + len(told) and L.cnt('disc') == 1)
    L.aftermath()
    v.cover(what)


UIN = D + 'UasStateUpdating.py:UasStateUpdating.'
UOUT = D + 'UacStateUpdating.py:UacStateUpdating.'


@contract('C05', targets=[CONN + '_recvRequestInvite', UIN + '_recvRequestInvite', UIN + '_recvRequestBye', UIN + '_recvRequestRefer', UIN + '_recvEventConnect',
                          UIN + '_recvEventFail', UIN + '_recvEventDisconnect', UIN + 'cancel'])
def ua_update_in(v):
    """the peer updates the session of an established call"""
    side = v.choice('side', ['uac', 'uas'])
    what = v.choice('what', ['connect', 'fail', 'redirect', 'ring', 'invite', 'bye', 'refer', 'disconnect', 'cancel', 'credit', 'method'])
    credit = v.flag('credit') or what == 'credit'
    L = talking(v, side, 'in', credit=v.real('credit', 1, 200000) if credit else None)
    ua = L.ua
    v.ensure('update-told', L.names()[-1] == 'CCEventUpdate' and str(L.events[-1].getData()) == SDP % 22)
    v.ensure('trying-sent', L.codes()[-1] == 100)
    lim0 = L.limits()
    now = L.sim.now
    why = v.str('why', 'alnum', 1)
    from sippy.SipAddress import SipAddress
    if what in ('connect', 'fail', 'redirect', 'ring', 'invite'):
        c = v.int('c', 200, 299)
        f = v.int('f', 300, 699)
        if what == 'connect':
            ua.recvEvent(mkevent(v, what, L, xh(why), (c, 'OK', MsgBody(SDP % 33))))
            want = [c]
        elif what == 'fail':
            ua.recvEvent(mkevent(v, what, L, xh(why), (f, 'No')))
            want = [f]
        elif what == 'redirect':
            ua.recvEvent(mkevent(v, what, L, xh(why), (f, 'Moved', None, (SipAddress('<sip:z@10.6.6.6>'),))))
            want = [f]
        elif what == 'ring':
            p = v.int('p', 101, 199)
            ua.recvEvent(mkevent(v, what, L, xh(why), (p, 'Progress', None)))
            v.ensure('still-updating', v.eq(L.codes(L.na), [p]))
            ua.recvEvent(mkevent(v, 'connect', L, xh(why), (c, 'OK', MsgBody(SDP % 33))))
            want = [p, c]
        else:
            L.recv(L.req('INVITE', body=SDP % 44, branch='z9hG4bKv', **L.peer()))
            v.ensure('second-update-refused', L.codes(L.na) == [491])
            ua.recvEvent(mkevent(v, 'connect', L, xh(why), (c, 'OK', MsgBody(SDP % 33))))
            want = [491, c]
        v.ensure('answered-once', v.eq(L.codes(L.na), want))
        s = L.tm.answers[-1][2]
        v.ensure('extra-headers-kept', v.eq(hdrs(s, 'x-why'), [why]))
        v.ensure('answers-the-update', v.eq(hdr(s, 'cseq'), '%d INVITE' % L.uinv.getHFBody('cseq').getCSeqNum()))
        if what in ('connect', 'ring', 'invite'):
            v.ensure('body-sent', s.endswith(SDP % 33))
        v.ensure('still-connected', ua.isConnected() and ua.disconnect_ts is None and L.log == [])
        v.ensure('connect-time-kept', v.eq(ua.connect_ts.monot, L.tconn))
        v.ensure('limits-kept', L.limits() == lim0)
        v.ensure('nothing-echoed', len(L.events) == L.n)
        # and it can be updated again
        k = len(L.tm.answers)
        L.recv(L.req('INVITE', body=SDP % 55, branch='z9hG4bKw', **L.peer()))
        v.ensure('updated-again', L.names(L.n) == ['CCEventUpdate'] and L.codes(k) == [100])
        v.cover(what)
        return
    told, answers, reqs = ['CCEventDisconnect'], [], ['BYE']
    if what == 'bye':
        L.recv(L.req('BYE', **L.peer()))
        answers, reqs = [487, 200], []
    elif what == 'refer':
        L.recv(L.req('REFER', extra=['Refer-To: <sip:z@10.6.6.6>'], **L.peer()))
        answers, reqs = [487, 202], []
        v.ensure('also-told', str(L.events[-1].getData()) == '<sip:z@10.6.6.6>')
    elif what == 'disconnect':
        ua.recvEvent(mkevent(v, what, L, xh(why)))
        told, answers = [], [487]
    elif what == 'cancel':
        L.ucancel(L.sim.mt(), L.req('CANCEL', cseq=L.rcseq, **L.peer()))
    elif what == 'credit':
        L.fire(L.limits()[0])
        answers = [487]
    else:
        ua.disconnect()
        answers = [487]
    v.ensure('end-told', L.names(L.n) == told)
    v.ensure('answers', L.codes(L.na) == answers)
    v.ensure('one-bye', L.methods(L.ntr) == reqs)
    v.ensure('disconnected-once', L.cnt('disc') == 1 and L.cnt('fail') == 0 and L.cnt('conn') == 0)
    L.ended(now if what != 'credit' else None)
    L.aftermath()
    v.cover(what)


@contract('C05', targets=[CONN + '_recvEventUpdate', UOUT + 'recvResponse', UOUT + 'updateFailed', UOUT + 'recvEvent', UOUT + '_recvRequestBye',
                          UOUT + '_recvRequestInvite'])
def ua_update_out(v):
    """this side updates the session of an established call"""
    side = v.choice('side', ['uac', 'uas'])
    what = v.choice('what', ['1xx', '2xx', 'redirect', 'failure', 'gone', 'invite', 'bye', 'disconnect', 'fail', 'credit', 'method'])
    credit = v.flag('credit') or what == 'credit'
    L = talking(v, side, 'out', credit=v.real('credit', 1, 200000) if credit else None)
    ua = L.ua
    v.ensure('update-sent', L.methods()[-1] == 'INVITE' and L.utr.text.endswith(SDP % 11))
    lim0 = L.limits()
    now = L.sim.now
    why = v.str('why', 'alnum', 1)
    if what in ('1xx', '2xx', 'redirect', 'failure', 'invite'):
        mode = 'none'
        if what == '1xx':
            c = v.int('c', 100, 199)
            L.answer(L.utr, c, 'rtag')
            v.ensure('progress-told', L.names(L.n) == ([] if c == 100 else ['CCEventRing']))
            L.answer(L.utr, 200, 'rtag', SDP % 7)
            v.ensure('update-told', L.names(L.n)[-1] == 'CCEventConnect')
        elif what == '2xx':
            mode = v.choice('mode', ['none', 'same', 'async', 'error'])
            L.remote_sdp(mode)
            hb = v.flag('hb')
            L.answer(L.utr, v.int('c', 200, 299), 'rtag', SDP % 7 if hb else None)
            if mode == 'error' and hb:
                v.ensure('failure-told', L.names(L.n) == ['CCEventFail', 'CCEventDisconnect'])
                v.ensure('one-bye', L.methods(L.ntr) == ['BYE'])
                v.ensure('disconnected-once', L.cnt('disc') == 1 and L.cnt('fail') == 0)
                L.ended(now)
                L.aftermath()
                v.cover('2xx-error')
                return
            if mode == 'async' and hb:
                v.ensure('update-not-told-yet', L.names(L.n) == [])
                L.upd[0][1](L.upd[0][0])
            v.ensure('update-told', L.names(L.n) == ['CCEventConnect'])
            d = L.events[-1].getData()
            v.ensure('body-told', (str(d[2]) == SDP % 7) if hb else d[2] is None)
        elif what == 'redirect':
            L.answer(L.utr, v.int('c', 300, 302), 'rtag', extra=['Contact: <sip:z@10.6.6.6>'])
            v.ensure('failure-told', L.names(L.n) == ['CCEventRedirect'])
        elif what == 'failure':
            c = v.int('c', 303, 699)
            v.assume(v.and_(c != 408, c != 481))
            L.answer(L.utr, c, 'rtag', extra=['Reason: SIP;cause=1'] if v.flag('reason') else [])
            v.ensure('failure-told', L.names(L.n) == ['CCEventFail'])
            v.ensure('failure-code', v.eq(L.events[-1].getData()[0], c))
        else:
            L.recv(L.req('INVITE', body=SDP % 44, branch='z9hG4bKv', **L.peer()))
            v.ensure('crossing-update-refused', L.codes(L.na) == [491])
            L.answer(L.utr, 200, 'rtag', SDP % 7)
        v.ensure('nothing-sent', L.methods(L.ntr) == [])
        v.ensure('still-connected', ua.isConnected() and ua.disconnect_ts is None and L.log == [])
        v.ensure('connect-time-kept', v.eq(ua.connect_ts.monot, L.tconn))
        v.ensure('limits-kept', L.limits() == lim0)
        k = len(L.events)
        ua.recvEvent(mkevent(v, 'update', L, None, MsgBody(SDP % 12)))
        v.ensure('updated-again', L.methods(L.ntr) == ['INVITE'] and L.tm.trs[-1].text.endswith(SDP % 12) and len(L.events) == k)
        v.cover(what)
        return
    told, answers, ncanc = ['CCEventDisconnect'], [], 1
    reqs = ['BYE']
    if what == 'gone':
        L.answer(L.utr, v.choice('gc', [408, 481]), 'rtag')
        told, ncanc = ['CCEventFail', 'CCEventDisconnect'], 0
    elif what == 'bye':
        L.recv(L.req('BYE', **L.peer()))
        answers, reqs = [200], []
    elif what in ('disconnect', 'fail'):
        ua.recvEvent(mkevent(v, what, L, xh(why)))
        told = []
        v.ensure('extra-headers-kept', v.eq(hdrs(L.tm.trs[-1].text, 'x-why'), [why]))
    elif what == 'credit':
        L.fire(L.limits()[0])
    else:
        ua.disconnect()
    v.ensure('end-told', L.names(L.n) == told)
    v.ensure('answers', L.codes(L.na) == answers)
    v.ensure('one-bye', L.methods(L.ntr) == reqs)
    v.ensure('update-cancelled', len(L.utr.cancels) == ncanc)
    v.ensure('disconnected-once', L.cnt('disc') == 1 and L.cnt('fail') == 0 and L.cnt('conn') == 0)
    L.ended(now if what != 'credit' else None)
    if v.flag('late-answer') and what != 'gone':
        m = L.tm.nsent()
        L.answer(L.utr, v.int('late', 100, 699), 'rtag')
        v.ensure('late-answer-ignored', L.tm.nsent() == m and len(L.events) == L.n + len(told))
    L.aftermath()
    v.cover(what)


@contract('C05', targets=[CONN + 'keepAlive', CONN + 'keepAliveResp', CONN + 'onStateChange'])
def ua_keepalive(v):
    """keep-alives: one outstanding or one timer, a dead peer ends the call, an ended call stops them"""
    side = v.choice('side', ['uac', 'uas'])
    L = talking(v, side, kaInterval=30, user='u', password='p')
    ua = L.ua
    ts = [t for t in L.sim.live() if not t.abs_time]
    v.ensure('one-keepalive-timer', len(ts) == 1 and ts[0].ival == 30)
    L.fire(ts[0])
    v.ensure('keepalive-sent', L.methods(L.ntr) == ['INVITE'])
    tr = L.tm.trs[-1]
    what = v.choice('what', ['1xx', 'ok', 'lost', 'lost-twice', 'challenge', 'ended', 'ended-waiting'])
    if what == 'ended':
        ua.recvEvent(mkevent(v, 'disconnect', L))
        v.ensure('keepalive-cancelled', len(tr.cancels) == 1)
        L.answer(tr, v.int('c', 200, 699), 'rtag')
        v.ensure('one-bye', L.methods(L.ntr) == ['INVITE', 'BYE'])
        L.ended()
        L.aftermath()
        v.cover(what)
        return
    if what == '1xx':
        L.answer(tr, v.int('p', 100, 199), 'rtag')
        v.ensure('provisional-ignored', [t for t in L.sim.live()] == [])
        what = 'ok'
    if what == 'challenge':
        n = v.choice('hf', [401, 407])
        h = {401: 'WWW-Authenticate', 407: 'Proxy-Authenticate'}[n]
        ch = '%s: Digest realm="r",nonce="n"' % h
        L.answer(tr, n, 'rtag', extra=[ch])
        v.ensure('challenge-answered', L.methods(L.ntr) == ['INVITE', 'INVITE'])
        tr = L.tm.trs[-1]
        v.ensure('credentials', len(hdrs(tr.text, {401: 'authorization', 407: 'proxy-authorization'}[n])) == 1)
        L.answer(tr, n, 'rtag', extra=[ch])
        v.ensure('challenge-answered-once', L.methods(L.ntr) == ['INVITE', 'INVITE'])
        ts = L.sim.live()
        v.ensure('one-keepalive-timer', len(ts) == 1 and ts[0].ival == 30)
    elif what in ('ok', 'ended-waiting'):
        c = v.int('c', 200, 699)
        v.assume(v.and_(c != 401, c != 407, c != 408, c != 481, c != 486))
        L.answer(tr, c, 'rtag')
        ts = L.sim.live()
        v.ensure('one-keepalive-timer', len(ts) == 1 and ts[0].ival == 30)
        if what == 'ended-waiting':
            ua.recvEvent(mkevent(v, 'disconnect', L))
            m = L.tm.nsent()
            L.fire(ts[0])
            v.ensure('no-keepalive-after-end', L.tm.nsent() == m)
            L.ended()
            L.aftermath()
            v.cover(what)
            return
    elif what == 'lost':
        L.answer(tr, v.choice('lc', [408, 481, 486]), 'rtag')
        ts = L.sim.live()
        v.ensure('given-up-later', len(ts) == 1 and ts[0].ival == 600)
        L.fire(ts[0])
        v.ensure('disconnected', L.cnt('disc') == 1 and L.methods(L.ntr) == ['INVITE', 'BYE'] and L.names(L.n) == ['CCEventDisconnect'])
        L.ended()
        L.aftermath()
        v.cover(what)
        return
    else:
        L.answer(tr, 200, 'rtag')
        ts = L.sim.live()
        v.ensure('one-keepalive-timer', len(ts) == 1)
        L.fire(ts[0])
        tr = L.tm.trs[-1]
        L.answer(tr, v.choice('lc', [408, 481, 486]), 'rtag')
        v.ensure('disconnected', L.cnt('disc') == 1 and L.methods(L.ntr) == ['INVITE', 'INVITE', 'BYE'] and L.names(L.n) == ['CCEventDisconnect'])
        L.ended()
        L.aftermath()
        v.cover(what)
        return
    v.ensure('still-connected', ua.isConnected() and L.log == [])
    v.cover(what)


@contract('C05', targets=[CONN + '_recvRequestInfo', CONN + '_recvRequestOptions', CONN + '_recvEventInfo', CONN + '_recvRequestInvite', CONN + '_recvEventUpdate'])
def ua_connected_stays(v):
    """what does not end an established call leaves it as it is"""
    side = v.choice('side', ['uac', 'uas'])
    what = v.choice('what', ['info', 'options', 'info-event', 'same-invite', 'same-update', 'hops', 'connect', 'ring', 'response', 'no-body-invite', 'no-body-no-sdp', 'no-body-other'])
    credit = v.flag('credit')
    L = talking(v, side, credit=v.real('credit', 1, 200000) if credit else None)
    ua = L.ua
    lim0 = L.limits()
    told = []
    if what == 'info':
        L.recv(L.req('INFO', body=SDP % 6, **L.peer()))
        v.ensure('answered', L.codes(L.na) == [200])
        v.ensure('body-told', str(L.events[-1].getData()) == SDP % 6)
        told = ['CCEventInfo']
    elif what == 'options':
        L.recv(L.req('OPTIONS', **L.peer()))
        v.ensure('answered', L.codes(L.na) == [200])
    elif what == 'info-event':
        why = v.str('why', 'alnum', 1)
        ua.recvEvent(mkevent(v, 'info', L, xh(why), MsgBody('x')))
        v.ensure('info-sent', L.methods(L.ntr) == ['INFO'] and L.tm.trs[-1].text.endswith('\r\n\r\nx'))
        v.ensure('extra-headers-kept', v.eq(hdrs(L.tm.trs[-1].text, 'x-why'), [why]))
    elif what == 'same-invite':
        L.recv(L.req('INVITE', body=SDP % 2, **L.peer()))
        v.ensure('answered', L.codes(L.na) == [100, 200])
        v.ensure('own-body', L.tm.answers[-1][2].endswith(SDP % 1))
    elif what == 'no-body-invite':
        L.recv(L.req('INVITE', **L.peer()))
        v.ensure('hold-told', L.names(L.n) == ['CCEventUpdate'] and 'c=IN IP4 0.0.0.0' in str(L.events[-1].getData()))
        told = ['CCEventUpdate']
    elif what == 'no-body-other':
        # the peer's last body is not a session description, or one without addresses: there is nothing to put on hold
        other = v.choice('other', ['text/plain', 'multipart/mixed;boundary=b', 'application/sdp'])
        ua.rSDP = MsgBody({'text/plain': 'hello', 'application/sdp': 'v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\n'}.get(
            other, '--b\r\nContent-Type: text/plain\r\n\r\nhello\r\n--b--\r\n'), SipHeader('Content-Type: ' + other).getBody())
        L.recv(L.req('INVITE', **L.peer()))
        v.ensure('final-answer-due', L.codes(L.na) == [100] and L.names(L.n) == ['CCEventUpdate'])
        told = ['CCEventUpdate']
    elif what == 'no-body-no-sdp':
        # an update of the peer was refused, so there is no remote description to put on hold
        L.recv(L.req('INVITE', body=SDP % 22, branch='z9hG4bKu', **L.peer()))
        f = v.int('f', 300, 699)
        ua.recvEvent(mkevent(v, 'fail', L, None, (f, 'No')))
        k, n = len(L.tm.answers), len(L.events)
        L.recv(L.req('INVITE', branch='z9hG4bKw', **L.peer()))
        v.ensure('final-answer', L.codes(k) == [100, 200] and len(L.events) == n)
        told = ['CCEventUpdate']
    elif what == 'same-update':
        ua.recvEvent(mkevent(v, 'update', L, None, MsgBody(SDP % 1)))
        told = ['CCEventConnect']
        v.ensure('body-told', str(L.events[-1].getData()[2]) == SDP % 2)
        v.ensure('nothing-sent', L.methods(L.ntr) == [])
    elif what == 'hops':
        e = mkevent(v, 'update', L, None, MsgBody(SDP % 13))
        h = v.int('hops', 0, 255)
        e.max_forwards = h
        ua.recvEvent(e)
        if h == 0:
            v.ensure('too-many-hops', L.names(L.n) == ['CCEventFail'] and L.events[-1].getData()[0] == 483 and L.methods(L.ntr) == [])
            told = ['CCEventFail']
        else:
            v.ensure('one-hop-less', v.eq(hdr(L.tm.trs[-1].text, 'max-forwards'), '%d' % (h - 1)))
    elif what in ('connect', 'ring'):
        ua.recvEvent(mkevent(v, what, L, None, (200, 'OK', None)))
        v.ensure('nothing-sent', L.methods(L.ntr) == [] and L.codes(L.na) == [])
    else:
        if side == 'uac':
            L.answer(L.inv(), v.int('c', 100, 699), 'rtag')
        v.ensure('nothing-sent', L.methods(L.ntr) == [])
    v.ensure('told', L.names(L.n) == told)
    v.ensure('still-connected', ua.isConnected() and ua.disconnect_ts is None and L.log == [])
    v.ensure('connect-time-kept', v.eq(ua.connect_ts.monot, L.tconn))
    v.ensure('limits-kept', L.limits() == lim0)
    v.cover(what)


# ------------------------------------------------------------------ C04
RRK = ['none', 'lr', 'strict', 'lr+lr', 'strict+lr', 'lr+strict']


def rr_headers(v, kind):
    rrs = []
    for i, x in enumerate(kind.split('+') if kind != 'none' else []):
        rrs.append(('10.5.5.%d' % i, v.int('rp%d' % i, 1, 65535), x == 'lr'))
    return rrs, ['Record-Route: <sip:%s:%d%s>' % (h, p, ';lr' if lr else '') for h, p, lr in rrs]


def ctext(r):
    return '<sip:%s:%d%s>' % (r[0], r[1], ';lr' if r[2] else '')


@contract('C04', targets=[D + 'UA.py:UA.genRequest', D + 'UacStateTrying.py:UacStateTrying.updateRoutes', D + 'UasStateIdle.py:UasStateIdle.recvRequest',
                          D + 'UacStateCancelling.py:UacStateCancelling.recvResponse'],
          bounded='route sets of up to two entries')
def ua_dialog_requests(v):
    """every request of a dialog: next CSeq, same Call-ID and tags, the route set and target of the dialog,
    a branch of its own"""
    side = v.choice('side', ['uac', 'uac-18x', 'uac-cancelled', 'uas'])
    rrk = v.choice('record-route', RRK)
    rrs, ex = rr_headers(v, rrk)
    hascontact = side == 'uas' or v.flag('contact')
    cport = v.int('cport', 1, 65535)
    hasport = v.flag('port')
    curl = 'sip:cc@10.3.3.3%s' % (':%d' % cport if hasport else '')
    if hascontact:
        ex.append('Contact: <%s>' % curl)
    tag = v.str('rtag', 'alnum', 1)
    if side == 'uas':
        L = Leg(v)
        L.side = 'uas'
        r = L.req('INVITE', body=SDP % 2, extra=ex, contact=False)
        L.recv(r)
        L.ua.recvEvent(mkevent(v, 'connect', L, None, (200, 'OK', MsgBody(SDP % 1))))
        rset = rrs
        ids = ('<sip:bob@10.1.2.3>;tag=ltag', 'Al <sip:alice@10.8.8.8>;tag=%s' % L.ftag)
        first = None
    else:
        L = Leg(v)
        L.side = 'uac'
        L.try_(MsgBody(SDP % 1))
        t = L.inv()
        first = t.cseq()
        v.ensure('invite-target', v.eq((t.req.getTarget()[0], sline(t.text)), (('10.8.8.8', 5061), 'INVITE sip:bob@10.8.8.8:5061 SIP/2.0')))
        v.ensure('invite-ids', v.eq((hdr(t.text, 'from'), hdr(t.text, 'to'), hdr(t.text, 'call-id')),
                                    ('Alice <sip:alice@10.1.2.3>;tag=ltag', '<sip:bob@10.8.8.8>', L.cid)))
        if side == 'uac-18x':
            L.answer(t, 183, 'other')
        if side == 'uac-cancelled':
            L.ua.recvEvent(mkevent(v, 'disconnect', L))
        L.answer(t, 200, tag, SDP % 2, extra=ex)
        rset = [rrs[len(rrs) - 1 - i] for i in range(len(rrs))]
        ids = ('Alice <sip:alice@10.1.2.3>;tag=ltag', '<sip:bob@10.8.8.8>;tag=%s' % tag)
        if not hascontact:
            curl = 'sip:bob@10.8.8.8:5061'
    ca = (('10.3.3.3', cport if hasport else 5060) if hascontact else ('10.8.8.8', 5061))
    if len(rset) > 0 and not rset[0][2]:
        ruri = 'sip:%s:%d' % (rset[0][0], rset[0][1])
        routes = [ctext(x) for x in rset[1:]] + ['<%s>' % curl]
        dest = (rset[0][0], rset[0][1])
    else:
        ruri = curl
        routes = [ctext(x) for x in rset]
        dest = (rset[0][0], rset[0][1]) if len(rset) > 0 else ca
    if side != 'uac-cancelled':
        seq = ['INFO', 'INVITE', 'BYE']
        for m in seq:
            if m == 'INFO':
                L.ua.recvEvent(mkevent(v, 'info', L, None, MsgBody('x')))
            elif m == 'INVITE':
                L.ua.recvEvent(mkevent(v, 'update', L, None, MsgBody(SDP % 11)))
            else:
                L.ua.recvEvent(mkevent(v, 'disconnect', L))
    else:
        seq = ['BYE']
    k = len(L.tm.trs) - len(seq)
    v.ensure('requests', L.methods(k) == seq)
    for i, m in enumerate(seq):
        t = L.tm.trs[k + i]
        v.ensure('request-line', v.eq(sline(t.text), '%s %s SIP/2.0' % (m, ruri)))
        v.ensure('routes', v.eq(hdrs(t.text, 'route'), routes))
        v.ensure('destination', v.eq(t.req.getTarget()[0], dest))
        v.ensure('ids', v.eq((hdr(t.text, 'from'), hdr(t.text, 'to'), hdr(t.text, 'call-id')), ids + (L.cid,)))
        v.ensure('cseq', v.eq(hdr(t.text, 'cseq'), '%d %s' % (t.cseq(), m)))
        if k + i > 0:
            v.ensure('cseq-next', t.cseq() == L.tm.trs[k + i - 1].cseq() + 1)
        v.ensure('cseq-range', v.and_(t.cseq() > 0, t.cseq() < 2 ** 31))
        for o in L.tm.trs[:k + i]:
            v.ensure('branch-own', o.req.getHFBody('via').getBranch() != t.req.getHFBody('via').getBranch())
    v.cover(side + ' ' + rrk)


@contract('C04', targets=[D + 'UA.py:UA.genRequest'])
def ua_outbound_proxy(v):
    """with an outbound proxy every request goes to it"""
    side = v.choice('side', ['uac', 'uas'])
    L = talking(v, side, outbound_proxy=('10.77.0.1', 5099))
    if side == 'uac':
        v.ensure('invite-to-proxy', L.inv().req.getTarget()[0] == ('10.77.0.1', 5099))
    L.ua.recvEvent(mkevent(v, 'disconnect', L))
    v.ensure('bye-to-proxy', L.tm.trs[-1].req.getTarget()[0] == ('10.77.0.1', 5099))
    v.ensure('bye-to-target', sline(L.tm.trs[-1].text) == ('BYE sip:bob@10.8.8.8:5077 SIP/2.0' if side == 'uac' else 'BYE sip:alice@10.8.8.8:5066 SIP/2.0'))
    v.cover(side)


@contract('C04', targets=[D + 'UA.py:UA.genRequest'])
def ua_cseq_step(v):
    """whatever the counter stands at, a request takes its value and leaves it one higher"""
    L = talking(v, v.choice('side', ['uac', 'uas']))
    c = v.int('c', 1, 2 ** 31 - 2)
    L.ua.lCSeq = c
    L.ua.recvEvent(mkevent(v, 'info', L, None, MsgBody('x')))
    t = L.tm.trs[-1]
    v.ensure('cseq', v.and_(t.cseq() == c, v.eq(hdr(t.text, 'cseq'), '%d INFO' % c)))
    L.ua.recvEvent(mkevent(v, 'disconnect', L))
    v.ensure('cseq-next', L.tm.trs[-1].cseq() == c + 1)
    v.cover('done')


def snapshot(L):
    ua = L.ua
    return (str(ua.state), len(L.events), list(L.log), L.tm.nsent(), [(t, t.state) for t in L.sim.timers], ua.disconnect_ts, ua.connect_ts,
            ua.rTarget, ua.rAddr, str(ua.rSDP), str(ua.lSDP))


@contract('C04', targets=[D + 'UA.py:UA.recvRequest'])
def ua_stale_request(v):
    """a request whose CSeq is not above the last one accepted is answered 500 and nothing else happens"""
    where = v.choice('where', ['trying', 'ringing', 'uas', 'uac', 'in', 'out', 'ended'])
    if where in ('trying', 'ringing'):
        L = uas(v, where, SDP % 1)
        L.side = 'uas'
        last = L.rcseq
    elif where in ('uas', 'uac'):
        L = talking(v, where)
        L.recv(L.req('INFO', **L.peer()))
        last = L.rcseq
    elif where in ('in', 'out'):
        L = talking(v, 'uas', where)
        last = L.rcseq
    else:
        L = talking(v, 'uac')
        L.recv(L.req('BYE', **L.peer()))
        last = L.rcseq
    method = v.choice('method', ['INVITE', 'BYE', 'INFO', 'REFER', 'OPTIONS', 'UPDATE'])
    n = v.int('n', 0, 2147483647)
    na = len(L.tm.answers)
    before = snapshot(L)
    if v.flag('stale'):
        v.assume(n <= last)
        L.recv(L.req(method, cseq=n, body=SDP % 99 if method == 'INVITE' else None, branch='z9hG4bKx', **L.peer()))
        v.ensure('refused-500', L.codes(na) == [500])
        v.ensure('own-cseq', v.eq(hdr(L.tm.answers[-1][2], 'cseq'), '%d %s' % (n, method)))
        L.tm.answers.pop()
        v.ensure('nothing-changed', v.eq(snapshot(L), before))
        m = last + 1
        v.cover('stale')
    else:
        v.assume(n > last)
        L.recv(L.req(method, cseq=n, body=SDP % 99 if method == 'INVITE' else None, branch='z9hG4bKx', **L.peer()))
        na = len(L.tm.answers)
        L.recv(L.req('INFO', cseq=n, branch='z9hG4bKy', **L.peer()))
        v.ensure('refused-500', L.codes(na) == [500])
        m = n + 1
        v.cover('fresh')
    na = len(L.tm.answers)
    L.recv(L.req('INFO', cseq=m, branch='z9hG4bKz', **L.peer()))
    # over: an ended leg answers everything with 500
    over = L.ua.disconnect_ts is not None
    v.ensure('fresh-accepted', (500 in L.codes(na)) == over)


@contract('C04', targets=[D + 'UA.py:UA.isYours'])
def ua_is_yours(v):
    """a request belongs to the leg iff Call-ID and both tags are the leg's (and, before it is
    confirmed, its branch, except for BYE)"""
    where = v.choice('where', ['trying', 'uas', 'uac', 'calling'])
    if where == 'trying':
        L = uas(v, where, SDP % 1)
        rtag, want_branch = L.ftag, 'z9hG4bKb'
    elif where == 'calling':
        L = Leg(v)
        L.try_(MsgBody(SDP % 1))
        rtag, want_branch = None, None
    else:
        L = talking(v, where)
        rtag, want_branch = L.peer()['ftag'], None
    cid = v.str('qcid', 'alnum', 1)
    ft = v.str('qft', 'alnum', 1)
    tt = v.str('qtt', 'alnum', 1)
    br = v.str('qbr', 'alnum', 1)
    method = v.choice('method', ['BYE', 'INVITE', 'INFO'])
    q = L.req(method, cid=cid, ftag=ft, totag=tt, branch=br)
    got = L.ua.isYours(q)
    want = v.and_(v.eq(cid, L.cid), v.eq(tt, 'ltag'), v.eq(ft, rtag) if rtag is not None else False)
    if want_branch is not None and method != 'BYE':
        want = v.and_(want, v.eq(br, want_branch))
    v.ensure('claimed-iff-own', v.iff(got is not None, want))
    v.ensure('claims-itself', got is None or got is L.ua)
    got = L.ua.isYours(call_id=cid, from_tag=ft, to_tag=tt)
    want = v.and_(v.eq(cid, L.cid), v.eq(tt, 'ltag'), v.eq(ft, rtag) if rtag is not None else False)
    v.ensure('claimed-iff-own', v.iff(got is not None, want))
    v.cover(where)


@contract('C04', targets=[D + 'UA.py:UA.processChallenge', D + 'UA.py:UA.recvResponse'],
          bounded='up to two challenges in a response')
def ua_challenge(v):
    """a challenge is answered once, with credentials, for a supported algorithm only; otherwise it is a failure"""
    code = v.choice('code', [401, 407])
    hf = {401: 'WWW-Authenticate', 407: 'Proxy-Authenticate'}[code]
    ahf = {401: 'authorization', 407: 'proxy-authorization'}[code]
    cred = v.choice('credentials', ['yes', 'no-user', 'no-password'])
    passa = v.flag('pass-auth')
    algs = v.choice('algs', ['md5', 'none', 'bad', 'bad+md5', 'md5+sha', 'sha+md5', 'no-qop', 'bad-qop'])
    enalgs = v.choice('enabled', ['any', 'sha', 'md5'])
    L = Leg(v, user=None if cred == 'no-user' else 'u', password=None if cred == 'no-password' else 'p', extra_headers=None)
    if passa:
        L.ua.pass_auth = True
    if enalgs != 'any':
        L.ua.auth_enalgs = {'sha': ('SHA-256',), 'md5': ('MD5', None)}[enalgs]
    why = v.str('why', 'alnum', 1)
    L.try_(MsgBody(SDP % 1), extra=xh(why))
    t1 = L.inv()
    A = {'md5': ['algorithm=MD5,qop="auth"'], 'none': [], 'bad': ['algorithm=FOO,qop="auth"'], 'bad+md5': ['algorithm=FOO,qop="auth"', 'algorithm=MD5,qop="auth"'],
         'md5+sha': ['algorithm=MD5,qop="auth"', 'algorithm=SHA-256,qop="auth"'], 'sha+md5': ['algorithm=SHA-256,qop="auth"', 'algorithm=MD5,qop="auth"'],
         'no-qop': ['algorithm=MD5'], 'bad-qop': ['algorithm=MD5,qop="foo"']}[algs]
    ex = ['%s: Digest realm="r",nonce="n",%s' % (hf, x) for x in A]
    usable = [x for x in A if 'FOO' not in x and 'foo' not in x]
    if enalgs == 'sha':
        usable = [x for x in usable if 'SHA-256' in x]
    elif enalgs == 'md5':
        usable = [x for x in usable if 'MD5' in x]
    n = len(L.events)
    other = v.flag('wrong-header')
    if other:
        ex = [x.replace('WWW-', 'X-').replace('Proxy-', 'WWW-').replace('X-', 'Proxy-') for x in ex]
    L.answer(t1, code, 'rtag', extra=ex)
    answered = cred == 'yes' and not passa and len(usable) > 0 and not other
    if not answered:
        v.ensure('failure-told', L.names(n) == ['CCEventFail'] and L.events[-1].getData()[0] == code)
        v.ensure('not-answered', len(L.tm.trs) == 1)
        if passa and not other:
            v.ensure('challenges-passed-on', (L.events[-1].challenges is None) == (A == []) and
                     (A == [] or [str(x) for x in L.events[-1].challenges] == [str(x) for x in L.resp(t1, code, 'rtag', extra=ex).getHFs(hf.lower())]))
        L.ended()
        v.cover('failure')
        return
    v.ensure('nothing-told', L.names(n) == [])
    v.ensure('answered-once', L.methods() == ['INVITE', 'INVITE'])
    t2 = L.inv()
    au = hdrs(t2.text, ahf)
    v.ensure('one-authorization', len(au) == 1)
    alg = usable[0].split(',')[0].split('=')[1]
    v.ensure('algorithm', ('algorithm=%s' % alg in au[0]) or ('algorithm="%s"' % alg in au[0]) or alg == 'MD5')
    v.ensure('cseq-next', t2.cseq() == t1.cseq() + 1)
    v.ensure('same-dialog', v.eq((hdr(t2.text, 'from'), hdr(t2.text, 'to'), hdr(t2.text, 'call-id'), sline(t2.text)),
                                 (hdr(t1.text, 'from'), hdr(t1.text, 'to'), hdr(t1.text, 'call-id'), sline(t1.text))))
    v.ensure('extra-headers-kept', v.eq(hdrs(t2.text, 'x-why'), [why]))
    v.ensure('body-kept', t2.text.endswith(SDP % 1))
    v.ensure('branch-own', t1.req.getHFBody('via').getBranch() != t2.req.getHFBody('via').getBranch())
    again = v.choice('again', ['same', 'other-code', 'ok'])
    if again == 'same':
        L.answer(t2, code, 'rtag', extra=ex)
        v.ensure('second-challenge-fails', L.names(n) == ['CCEventFail'] and len(L.tm.trs) == 2)
    elif again == 'ok':
        L.answer(t2, 200, 'rtag', SDP % 2)
        v.ensure('connected', L.names(n) == ['CCEventConnect'] and L.ua.isConnected())
    v.cover('answered')


# ------------------------------------------------------------------ C06
@contract('C06', targets=[D + 'UA.py:UA.emitEvent', D + 'UA.py:UA.emitPendingEvents'],
          bounded='up to three pending events (the single-event step holds for any history)')
def ua_event_order(v):
    """events are delivered in the order of their numbers, each at most once, older ones never"""
    L = Leg(v)
    ua = L.ua
    last = v.int('last', 0) if v.flag('had-one') else None
    ua.elast_seq = last
    n = v.choice('n', [0, 1, 2, 3])
    es = []
    for i in range(n):
        e = CCEventRing(None, L.sim.mt())
        e.seq = v.int('s%d' % i, 0)
        es.append(e)
    how = v.choice('how', ['emit', 'pending', 'nested'])
    if how == 'emit':
        for e in es:
            ua.emitEvent(e)
    elif how == 'pending':
        ua.equeue = list(es)
        ua.emitPendingEvents()
        v.ensure('queue-empty', ua.equeue == [])
    else:
        # the controller makes the leg emit while it is handling an event
        rest = list(es[1:])

        def cb(e, u):
            L.events.append(e)
            if len(rest) > 0:
                u.equeue.append(rest.pop(0))
                u.emitPendingEvents()
        ua.event_cb = cb
        ua.equeue = list(es[:1])
        ua.emitPendingEvents()
        v.ensure('queue-empty', ua.equeue == [])
    # oracle
    want = []
    cur = last
    for e in es:
        if how == 'nested' and e is not es[0] and es[es.index(e) - 1] not in want:
            break
        if cur is None or e.seq > cur:
            want.append(e)
            cur = e.seq
    v.ensure('delivered', len(L.events) == len(want) and all([a is b for a, b in zip(L.events, want)]))
    v.ensure('last-remembered', v.eq(ua.elast_seq, cur))
    v.cover(how)


@contract('C06', targets=[D + 'CCEvents.py:CCEventGeneric.__init__', D + 'CCEvents.py:CCEventGeneric.getCopy', D + 'CCEvents.py:CCEventFail.getCopy',
                          D + 'CCEvents.py:CCEventTry.getCopy', D + 'CCEvents.py:CCEventUpdate.getCopy', D + 'CCEvents.py:CCEventGeneric.getExtraHeaders',
                          D + 'CCEvents.py:CCEventFail.getExtraHeaders'])
def ua_event_copy(v):
    """a new event is numbered above all before; a copy is equal but for its number, and independent"""
    from sippy.CCEvents import CCEventGeneric
    from sippy.SipHeader import SipHeader
    from sippy.SipReason import SipReason
    L = Leg(v)
    s0 = v.int('seq0', 1)
    v.patch(CCEventGeneric, 'seq', s0)
    cls = v.choice('cls', [CCEventTry, CCEventRing, CCEventPreConnect, CCEventConnect, CCEventUpdate, CCEventInfo, CCEventDisconnect,
                           CCEventFail, CCEventRedirect])
    data = v.choice('data', [None, 'x'])
    data = (v.int('code', 100, 699), 'r') if data == 'x' else None
    rt = L.sim.mt(v.real('off', 0, 100)) if v.flag('rtime') else None
    og = v.choice('origin', [None, 'caller', 'callee'])
    e = cls(data, rt, og)
    x = v.str('x', 'alnum', 1)
    h = v.flag('headers')
    r = v.flag('reason')
    if h:
        e.extra_headers = xh(x)
    if r:
        e.reason_rfc3326 = SipReason(protocol='SIP', cause=v.int('cause', 1, 699), reason=x)
    ch = w = False
    if cls is CCEventFail:
        ch = v.flag('challenges')
        w = v.flag('warning')
        if ch:
            e.challenges = [SipHeader('WWW-Authenticate: Digest realm="%s",nonce="n"' % x)]
        if w:
            e.setWarning(x)
    if cls in (CCEventTry, CCEventUpdate):
        e.max_forwards = v.int('mf', 0, 255) if v.flag('mf?') else None
    e2 = cls(data, rt, og)
    c = e.getCopy()
    v.ensure('numbers-rise', v.and_(e.seq >= s0, e2.seq > e.seq, c.seq > e2.seq))
    v.ensure('number-own', CCEventGeneric.seq > c.seq)
    v.ensure('same-kind', c.__class__ is cls and c.name == e.name)
    v.ensure('same-data', v.eq(c.getData(), data))
    v.ensure('same-time', v.and_(v.eq(c.rtime.monot, e.rtime.monot), v.eq(c.rtime.monot, rt.monot if rt is not None else L.sim.now)))
    v.ensure('same-origin', c.origin == og)
    eh = lambda z: [] if z.getExtraHeaders() is None else [str(y) for y in z.getExtraHeaders()]
    a = eh(e)
    v.ensure('headers-count', len(a) == int(h) + int(r) + int(ch) + int(w) and (len(a) > 0 or e.getExtraHeaders() is None))
    v.ensure('same-headers', v.eq(eh(c), a))
    if h:
        v.ensure('headers-kept', v.eq(a[0].lower(), 'x-why: %s' % x.lower()))
    if r:
        v.ensure('reason-kept', v.eq(str(c.reason_rfc3326), str(e.reason_rfc3326)))
        c.reason_rfc3326.cause = 9999
    if ch:
        v.ensure('challenges-kept', v.eq([str(y) for y in c.challenges], [str(y) for y in e.challenges]))
        c.challenges.append(None)
    if h:
        c.extra_headers[0].getBody().body = 'changed'
    if w:
        v.ensure('warning-kept', v.eq(str(c.warning), str(e.warning)))
        c.warning = None
    if cls in (CCEventTry, CCEventUpdate):
        v.ensure('hops-kept', v.eq(c.max_forwards, e.max_forwards))
    v.ensure('independent', v.eq(eh(e), a))
    v.cover(cls.__name__)


@contract('C06', targets=[D + 'UA.py:UA.delayed_remote_sdp_update', D + 'UA.py:UA.delayed_local_sdp_update'])
def ua_event_delayed(v):
    """an event held back for its body is delivered when the body is ready, unless a later one went first;
    never twice, never after the leg has died"""
    what = v.choice('what', ['remote-18x', 'remote-2xx', 'remote-invite', 'local-try', 'local-connect', 'local-update'])
    if what.startswith('remote-1') or what == 'remote-2xx':
        L = Leg(v)
        L.try_(MsgBody(SDP % 1))
        L.remote_sdp('async')
        c = v.int('p', 101, 199) if what == 'remote-18x' else 200
        L.answer(L.inv(), c, 'rtag', SDP % 2)
        v.ensure('held-back', L.names() == [] and len(L.upd) == 1)
        nxt = v.choice('meanwhile', ['nothing', 'ring', 'dead', 'error'])
        if what == 'remote-2xx' and nxt == 'ring':
            nxt = 'nothing'
        if nxt == 'ring':
            L.answer(L.inv(), 180, 'rtag')
            v.ensure('later-delivered', L.names() == ['CCEventRing'])
        elif nxt == 'dead':
            L.ua.recvEvent(mkevent(v, 'disconnect', L))
            L.aftermath()
        nb = MsgBody(SDP % 77)
        if nxt == 'error':
            L.upd[0][1](L.upd[0][0], ex=SdpParseError('late'))
            v.ensure('failure-told', L.names() == ['CCEventFail'])
            L.ended()
        else:
            L.upd[0][1](nb)
            if nxt == 'ring':
                v.ensure('older-dropped', L.names() == ['CCEventRing'] and L.events[0].getData()[0] == 180)
            elif nxt == 'dead':
                v.ensure('nothing-after-death', L.names() == [])
            else:
                v.ensure('delivered-once', L.names() == ['CCEventRing' if what == 'remote-18x' else 'CCEventConnect'])
                v.ensure('remote-body-kept', str(L.ua.rSDP) == SDP % 77)
    elif what == 'remote-invite':
        L = uas(v, 'trying', SDP % 2, mode='async')
        v.ensure('held-back', L.names() == [] and L.codes() == [100])
        if v.flag('error'):
            L.upd[0][1](L.upd[0][0], ex=SdpParseError('late'))
            v.ensure('refused', L.codes() == [100, 488])
            L.ended()
        else:
            L.upd[0][1](MsgBody(SDP % 77))
            v.ensure('delivered-once', L.names() == ['CCEventTry'] and str(L.ua.rSDP) == SDP % 77)
            L.upd[0][1](MsgBody(SDP % 78))
            v.ensure('delivered-once', L.names() == ['CCEventTry'])
    else:
        held = []

        def f(b, cb):
            held.append((b, cb))

        def ready(ex=None):
            b, cb = held.pop(0)
            b.needs_update = False
            if ex is None:
                cb(b)
            else:
                cb(b, ex=ex)
        err = v.flag('error')
        ex = SdpParseError('late') if err else None
        if what == 'local-try':
            L = Leg(v)
            L.ua.on_local_sdp_change = f
            L.try_(MsgBody(SDP % 1))
            v.ensure('held-back', L.tm.nsent() == 0 and len(held) == 1)
            ready(ex)
            if err:
                v.ensure('failure-told', L.names() == ['CCEventFail'] and L.tm.nsent() == 0 and L.ua.isDead())
            else:
                v.ensure('sent-once', L.methods() == ['INVITE'])
        elif what == 'local-connect':
            L = uas(v, v.choice('phase', ['trying', 'ringing']), SDP % 2)
            na = len(L.codes())
            L.ua.on_local_sdp_change = f
            L.ua.recvEvent(mkevent(v, 'connect', L, None, (200, 'OK', MsgBody(SDP % 1))))
            v.ensure('held-back', len(L.codes()) == na and len(held) == 1 and not L.ua.isConnected())
            ready(ex)
            v.ensure('answered-once', L.codes(na) == ([488] if err else [200]))
            v.ensure('outcome', L.ua.isConnected() != err and (L.names() == ['CCEventTry', 'CCEventFail']) == err)
        else:
            L = talking(v, v.choice('side', ['uac', 'uas']))
            L.ua.on_local_sdp_change = f
            L.ua.recvEvent(mkevent(v, 'update', L, None, MsgBody(SDP % 13)))
            v.ensure('held-back', L.methods(L.ntr) == [] and len(held) == 1)
            ready(ex)
            if err:
                v.ensure('failure-told', L.names(L.n) == ['CCEventFail'] and L.methods(L.ntr) == ['BYE'])
                L.ended()
            else:
                v.ensure('sent-once', L.methods(L.ntr) == ['INVITE'])
    v.cover(what)


# ------------------------------------------------------------------ C07
@contract('C07', targets=[D + 'UacStateIdle.py:UacStateIdle.recvEvent', D + 'UacStateTrying.py:UacStateTrying._recvResponse',
                          D + 'UacStateRinging.py:UacStateRinging._recvResponse', D + 'UA.py:UA.expires', D + 'UA.py:UA.no_progress_expires',
                          D + 'UA.py:UA.no_reply_expires'], weight=3)
def ua_limits_calling(v):
    """before the answer the earliest of the limits not yet satisfied is armed, counted from the start"""
    ex = v.real('expire', 0.001, 100000) if v.flag('expire?') else None
    np = v.real('noprog', 0.001, 100000) if v.flag('noprog?') else None
    nr = v.real('noreply', 0.001, 100000) if v.flag('noreply?') else None
    L = Leg(v, expire=ex, noprog=np, noreply=nr)
    L.try_(MsgBody(SDP % 1))
    t0 = L.sim.now

    def check(pend):
        ts = L.limits()
        want = None
        for p in pend:
            if p is not None:
                want = p if want is None else v.ite(p < want, p, want)
        if want is None:
            v.ensure('no-limit', ts == [])
        else:
            v.ensure('one-limit', len(ts) == 1)
            v.ensure('earliest-limit', v.eq(L.due(ts[0]), t0 + want))
    # a no-reply limit of 32 s or more is subsumed by the transaction's own time-out
    nr_on = nr is not None and bool(nr < 32)
    check([ex, np, nr if nr_on else None])
    steps = v.choice('steps', ['', '100', '100 100', '18x', '100 18x', '18x 18x', '18x 100'])
    prog = reply = False
    for i, s in enumerate(steps.split()):
        L.sim.advance(v.real('d%d' % i, 0, 1000))
        L.answer(L.inv(), 100 if s == '100' else v.int('p%d' % i, 101, 199), 'rtag')
        reply = True
        prog = prog or s == '18x'
        check([ex, None if prog else np])
    end = v.choice('end', ['limit', 'answer', 'failure'])
    L.sim.advance(v.real('dend', 0, 1000))
    if end == 'limit':
        ts = L.limits()
        if ts == []:
            return
        n = len(L.events)
        L.fire(ts[0])
        v.ensure('attempt-ended', L.names(n) == ['CCEventDisconnect'] and len(L.inv().cancels) == 1)
        L.ended()
    elif end == 'answer':
        L.answer(L.inv(), v.int('c', 200, 299), 'rtag', SDP % 2)
        v.ensure('no-limit-after-answer', L.limits() == [])
    else:
        L.answer(L.inv(), v.int('f', 300, 699), 'rtag')
        v.ensure('no-limit-after-answer', L.limits() == [])
    v.cover(end)


@contract('C07', targets=[D + 'UasStateIdle.py:UasStateIdle.recvRequest', D + 'UasStateTrying.py:UasStateTrying._recvEventRing',
                          D + 'UasStateTrying.py:UasStateTrying._recvEventConnect'])
def ua_limits_called(v):
    """the same for a call received"""
    ex = v.real('expire', 0.001, 100000) if v.flag('expire?') else None
    np = v.real('noprog', 0.001, 100000) if v.flag('noprog?') else None
    L = uas(v, 'trying', SDP % 1, expire=ex, noprog=np)
    t0 = L.t0

    def check(pend):
        ts = L.limits()
        want = None
        for p in pend:
            if p is not None:
                want = p if want is None else v.ite(p < want, p, want)
        if want is None:
            v.ensure('no-limit', ts == [])
        else:
            v.ensure('one-limit', len(ts) == 1)
            v.ensure('earliest-limit', v.eq(L.due(ts[0]), t0 + want))
    check([ex, np])
    for i in range(v.choice('rings', [0, 1, 2])):
        L.sim.advance(v.real('d%d' % i, 0, 1000))
        L.ua.recvEvent(mkevent(v, 'ring', L, None, (180, 'Ringing', None)))
        np = None
        check([ex])
    end = v.choice('end', ['limit', 'connect', 'fail'])
    if end == 'limit':
        ts = L.limits()
        if ts == []:
            return
        L.fire(ts[0])
        v.ensure('attempt-ended', L.names() == ['CCEventTry', 'CCEventDisconnect'] and L.codes()[-1] >= 400)
    elif end == 'connect':
        L.ua.recvEvent(mkevent(v, 'connect', L, None, (200, 'OK', MsgBody(SDP % 2))))
    else:
        L.ua.recvEvent(mkevent(v, 'fail', L, None, (404, 'No')))
    v.ensure('no-limit-after-end', L.limits() == [])
    v.cover(end)


@contract('C07', targets=[D + 'UA.py:UA.startCreditTimer', D + 'UA.py:UA.resetCreditTime', D + 'UA.py:UA.cancelCreditTimer', D + 'UA.py:UA.credit_expires'],
          bounded='up to three concurrent limits')
def ua_credit(v):
    """a connected call is ended at the earliest of its limits; new limits re-arm the one timer"""
    side = v.choice('side', ['uac', 'uas', 'ack'])
    lim = [v.real('l%d' % i, 0, 1000000) for i in range(3)]
    own = v.flag('own')
    L0 = Leg(v, credit=lim[0] if own else None)
    L = L0
    ua = L.ua
    pre = v.choice('pre', ['none', 'one', 'none-value'])
    start = L.sim.now
    if side == 'uac':
        L.side = 'uac'
        L.try_(MsgBody(SDP % 1))
    else:
        L.side = 'uas'
        L.recv(L.req('INVITE', body=SDP % 2))
    if pre == 'one':
        ua.resetCreditTime(L.sim.mt(), {1: L.sim.mt(lim[1])})
    elif pre == 'none-value':
        ua.resetCreditTime(L.sim.mt(), {1: None})
    v.ensure('no-timer-before-answer', L.limits() == [])
    L.sim.advance(v.real('dans', 0, 1000))
    if side == 'uac':
        L.answer(L.inv(), 200, 'rtag', SDP % 2)
    elif side == 'uas':
        ua.recvEvent(mkevent(v, 'connect', L, None, (200, 'OK', MsgBody(SDP % 1))))
    else:
        ua.recvEvent(mkevent(v, 'preconnect', L, None, (200, 'OK', MsgBody(SDP % 1))))
        v.ensure('no-timer-before-ack', L.limits() == [])
        L.sim.advance(v.real('dack', 0, 32))
        L.tm.answers[-1][1](L.req('ACK', totag='ltag'))
    conn = L.sim.now
    v.ensure('connect-time', v.eq(ua.connect_ts.monot, conn))

    def check(name, ws):
        ts = L.limits()
        if len(ws) == 0:
            v.ensure('no-limit-no-timer', ts == [])
            return None
        v.ensure('one-timer', len(ts) == 1)
        m = ws[0]
        for w in ws[1:]:
            m = v.ite(w < m, w, m)
        v.ensure(name, v.eq(L.due(ts[0]), m))
        return m
    ws = ([conn + lim[0]] if own else []) + ([start + lim[1]] if pre == 'one' else [])
    m = check('earliest-limit', ws)
    re = v.choice('re', ['none', 'add', 'replace', 'remove'])
    L.sim.advance(v.real('dre', 0, 1000))
    if re == 'add':
        ua.resetCreditTime(L.sim.mt(), {2: L.sim.mt(lim[2])})
        ws = ws + [L.sim.now + lim[2]]
    elif re == 'replace':
        ua.resetCreditTime(L.sim.mt(), {1: L.sim.mt(lim[2])})
        ws = ([conn + lim[0]] if own else []) + [L.sim.now + lim[2]]
    elif re == 'remove':
        ua.resetCreditTime(L.sim.mt(), {1: None})
        ws = [conn + lim[0]] if own else []
    m = check('rearmed-to-earliest', ws)
    n = len(L.events)
    if m is not None and v.flag('fire'):
        L.fire(L.limits()[0])
        v.ensure('ended-by-limit', L.names(n) == ['CCEventDisconnect'] and L.methods()[-1] == 'BYE' and not ua.isConnected())
        v.ensure('end-time', v.eq(ua.disconnect_ts.monot, m))
        v.ensure('talk-time', v.eq(ua.getAcct()[0], m - conn))
    v.cover(side)


@contract('C07', targets=[D + 'UA.py:UA.getAcct'])
def ua_acct(v):
    """reported times: talk from connection to end or now, setup from start to connection or end"""
    side = v.choice('side', ['uac', 'uas'])
    L = Leg(v)
    ua = L.ua
    t0 = L.sim.now
    if side == 'uac':
        L.side = 'uac'
        L.try_(MsgBody(SDP % 1))
    else:
        L.side = 'uas'
        L.recv(L.req('INVITE', body=SDP % 2))
    d = [v.real('d%d' % i, 0, 1000000) for i in range(4)]

    def check(dur, delay, conn, disc):
        a = ua.getAcct()
        v.ensure('talk-time', v.eq(a[0], dur))
        v.ensure('setup-time', v.eq(a[1], delay))
        v.ensure('connected?', a[2] == conn)
        v.ensure('ended?', a[3] == disc)
        v.ensure('never-negative', v.and_(a[0] >= 0, a[1] >= 0))
    L.sim.advance(d[0])
    check(0, d[0], False, False)
    answered = v.flag('answered')
    if answered:
        if side == 'uac':
            L.answer(L.inv(), 200, 'rtag', SDP % 2)
        else:
            ua.recvEvent(mkevent(v, 'connect', L, None, (200, 'OK', MsgBody(SDP % 1))))
        L.sim.advance(d[1])
        check(d[1], d[0], True, False)
    how = v.choice('how', ['event', 'peer', 'method'])
    if how == 'event':
        ua.recvEvent(mkevent(v, 'disconnect', L))
    elif how == 'method':
        ua.disconnect()
    elif answered:
        L.recv(L.req('BYE', **L.peer()))
    elif side == 'uac':
        L.answer(L.inv(), 486, 'rtag')
    else:
        ua.state.cancel(L.sim.mt(), None)
    L.sim.advance(d[2])
    if answered:
        check(d[1], d[0], True, True)
    else:
        check(0, d[0], False, True)
    L.aftermath()
    L.sim.advance(d[3])
    if answered:
        check(d[1], d[0], True, True)
    else:
        check(0, d[0], False, True)
    v.cover(how)


# ------------------------------------------------------------------ late offer, on the real transaction layer
@contract('C05', targets=[D + 'UacStateTrying.py:UacStateTrying._recvResponse', D + 'UacStateRinging.py:UacStateRinging._recvResponse',
                          D + 'UaStateConnected.py:UaStateConnected._recvEventConnect', D + 'UaStateConnected.py:UaStateConnected.onStateChange',
                          D + 'SipTransactionManager.py:SipTransactionManager.incomingResponse', D + 'SipTransactionManager.py:SipTransactionManager.sendACK'])
def ua_late_offer(v):
    """a call placed without an offer: the offer of the 2xx is told, the answer goes out in the one ACK"""
    from contracts.lib import mktm, Sim, hdr
    from sippy.Network_server import Remote_address
    sim = Sim(v)
    tm, serv = mktm(v, sim)
    gc = tm.global_config
    events, log = [], []
    ua = UA(gc, lambda e, u: events.append(e), None, None, ('10.8.8.8', 5061), None, (lambda *a: log.append('conn'),),
            (lambda *a: log.append('disc'),), (lambda *a: log.append('fail'),), (), (lambda *a: log.append('dead'),), 'ltag', None, None, None)
    ringing = v.flag('ringing')
    cid = v.str('cid', 'alnum', 1)
    e = CCEventTry((SipCallId(cid), 'alice', 'bob', None, None, 'Alice'), rtime=sim.mt())
    ua.recvEvent(e)
    inv = [s for s, a in serv.sent if s.startswith('INVITE')][0]

    def answer(code, body):
        ls = ['SIP/2.0 %d OK' % code, 'Via: %s' % hdr(inv, 'via'), 'From: %s' % hdr(inv, 'from'), 'To: %s;tag=rtag' % hdr(inv, 'to'),
              'Call-ID: %s' % hdr(inv, 'call-id'), 'CSeq: %s' % hdr(inv, 'cseq'), 'Contact: <sip:bob@10.8.8.8:5070>']
        if body is not None:
            ls.append('Content-Type: application/sdp')
        ls += ['Content-Length: %d' % (len(body) if body is not None else 0), '', body or '']
        tm.handleIncoming('\r\n'.join(ls), Remote_address(('10.8.8.8', 5061), 'udp'), serv, sim.mt())
    if ringing:
        answer(180, None)
    offer = v.flag('offer')
    n = len(events)
    answer(v.int('code', 200, 299), SDP % 2 if offer else None)
    acks = [s for s, a in serv.sent if s.startswith('ACK')]
    if not offer:
        v.ensure('acked', len(acks) == 1 and [x.name for x in events[n:]] == ['CCEventConnect'] and log == ['conn'])
        v.cover('no-offer')
        return
    v.ensure('offer-told', [x.name for x in events[n:]] == ['CCEventPreConnect'] and str(events[-1].getData()[2]) == SDP % 2)
    v.ensure('not-connected-yet', log == [])
    how = v.choice('then', ['answer', 'hangup'])
    if how == 'answer':
        r = v.call(ua.recvEvent, CCEventConnect((200, 'OK', MsgBody(SDP % 3)), rtime=sim.mt()))
    else:
        r = v.call(ua.recvEvent, CCEventDisconnect(rtime=sim.mt()))
    acks = [s for s, a in serv.sent if s.startswith('ACK')]
    byes = [s for s, a in serv.sent if s.startswith('BYE')]
    v.ensure('late-answer-accepted', r.ok)
    v.ensure('one-ack', len(acks) == 1)
    if how == 'answer':
        v.ensure('answer-in-ack', acks[0].endswith(SDP % 3))
        v.ensure('connected', log == ['conn'] and ua.isConnected())
    else:
        v.ensure('one-bye', len(byes) == 1 and log == ['disc'])
    v.cover('offer')
