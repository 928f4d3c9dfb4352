"""A call leg (sippy.UA.UA) on top of a recording transaction layer: what the UA contracts share.
The transaction layer stands for its contract (C01-C03)."""
from contracts.lib import Sim, Rec, hdr, hdrs, sline, FakeLogger
from sippy.UA import UA
from sippy.SipRequest import SipRequest
from sippy.SipResponse import SipResponse
from sippy.SipCallId import SipCallId
from sippy.MsgBody import MsgBody
from sippy.CCEvents import (CCEventTry, CCEventRing, CCEventPreConnect, CCEventConnect, CCEventUpdate, CCEventInfo,
                            CCEventDisconnect, CCEventFail, CCEventRedirect)
from sippy.Exceptions.SdpParseError import SdpParseError

SDP = ('v=0\r\no=- %d 1 IN IP4 10.9.9.9\r\ns=-\r\nc=IN IP4 10.9.9.9\r\nt=0 0\r\nm=audio 4000 RTP/AVP 0\r\n')
LADDR2 = (('10.1.2.3', 5060), 'udp')


class FAck(object):
    body = None

    def setBody(self, b):
        self.body = b


class FTr(object):
    """a client transaction as the call leg sees it"""
    uack = False
    req_extra_headers = None

    def __init__(self, req, kw):
        self.req = req
        self.method = req.getMethod()
        self.resp_cb = kw.get('resp_cb')
        self.ifver = kw.get('cb_ifver', 1)
        self.kw = kw
        self.ack = FAck()
        self.cancels = []
        self.acks = 0
        self.text = req.localStr(LADDR2)

    def deliver(self, resp):
        if self.resp_cb is None:
            return
        if self.ifver == 1:
            self.resp_cb(resp)
        else:
            self.resp_cb(resp, self)

    def cseq(self):
        return self.req.getHFBody('cseq').getCSeqNum()


class FSrvTr(object):
    compact = False
    cancel_cb = None
    noack_cb = None


class FTM(object):
    def __init__(self, sim):
        self.sim = sim
        self.trs = []
        self.answers = []
        self.reg = []
        self.unreg = []
        self.on_new = None

    def newTransaction(self, req, resp_cb=None, laddress=None, **kw):
        kw['resp_cb'] = resp_cb
        kw['laddress'] = laddress
        t = FTr(req, kw)
        self.trs.append(t)
        return t

    def sendResponse(self, resp, t=None, retrans=False, ack_cb=None, lossemul=0):
        self.answers.append((resp, ack_cb, resp.localStr(LADDR2)))

    def cancelTransaction(self, tr, extra_headers=None, *a, **k):
        tr.cancels.append(extra_headers)

    def sendACK(self, tr):
        tr.acks += 1

    def regConsumer(self, c, cid, compact=False):
        self.reg.append(cid)

    def unregConsumer(self, c, cid):
        self.unreg.append(cid)

    def nsent(self):
        n = len(self.trs) + len(self.answers)
        for t in self.trs:
            n += len(t.cancels) + t.acks
        return n


class Leg(object):
    """one call leg, its controller and its surroundings"""

    def __init__(self, v, credit=None, expire=None, noprog=None, noreply=None, user=None, password=None, cls=None,
                 extra_headers=None, late=False, **attrs):
        self.v = v
        self.sim = Sim(v)
        self.tm = FTM(self.sim)
        self.gc = {'_sip_tm': self.tm, '_sip_address': '10.1.2.3', '_sip_port': 5060, '_sip_logger': FakeLogger()}
        self.events = []
        self.log = []
        self.ua = (cls or UA)(self.gc, self.event, user, password, ('10.8.8.8', 5061), credit, (self.conn,), (self.disc,),
                              (self.fail,), (self.ring,), (self.dead,), 'ltag', extra_headers, expire, noprog)
        self.ua.no_reply_time = noreply
        for k, val in attrs.items():
            setattr(self.ua, k, val)
        self.t0 = None
        self.ftag = v.str('ftag', 'alnum', 1)
        self.cid = v.str('cid', 'alnum', 1)
        self.rcseq = v.int('rcseq', -1, 1000000)
        self.upd = []

    # ---------------------------------------------------- what the leg calls
    def event(self, e, ua):
        self.events.append(e)

    def conn(self, ua, rtime, origin, *a):
        self.log.append(('conn', rtime, origin) + a)

    def disc(self, ua, rtime, origin, *a):
        self.log.append(('disc', rtime, origin) + a)

    def fail(self, ua, rtime, origin, *a):
        self.log.append(('fail', rtime, origin) + a)

    def ring(self, ua, rtime, origin, *a):
        self.log.append(('ring', rtime, origin) + a)

    def dead(self, ua):
        self.log.append(('dead',))

    def remote_sdp(self, mode):
        """install a handler for bodies received: none, same, async, error"""
        if mode == 'none':
            return
        if mode == 'same':
            self.ua.on_remote_sdp_change = lambda b, cb: b
        elif mode == 'async':
            def f(b, cb):
                self.upd.append((b, cb))
                return None
            self.ua.on_remote_sdp_change = f
        else:
            def g(b, cb):
                raise SdpParseError('bad sdp')
            self.ua.on_remote_sdp_change = g

    def cnt(self, kind):
        return len([x for x in self.log if x[0] == kind])

    def evs(self, *types):
        return [x for x in self.events if isinstance(x, types)]

    def names(self, n=0):
        return [x.name for x in self.events[n:]]

    # ---------------------------------------------------- calling side
    def try_(self, body=None, auth=None, cid=None, rtime=None, extra=None, max_forwards=None):
        e = CCEventTry((SipCallId(self.cid) if cid is None else cid, 'alice', 'bob', body, auth, 'Alice'),
                       rtime=rtime or self.sim.mt())
        e.extra_headers = extra
        e.max_forwards = max_forwards
        self.t0 = self.sim.now
        self.ua.recvEvent(e)
        return e

    def inv(self):
        """the latest INVITE transaction"""
        return [t for t in self.tm.trs if t.method == 'INVITE'][-1]

    def resp(self, tr, code, tag='rtag', body=None, extra=(), reason='Reason'):
        q = tr.req
        ls = ['SIP/2.0 %d %s' % (code, reason),
              'Via: SIP/2.0/UDP 10.1.2.3:5060;branch=%s' % q.getHFBody('via').getBranch(),
              'From: <sip:alice@10.1.2.3>;tag=%s' % self.ua.lTag,
              'To: <sip:bob@10.8.8.8>%s' % ('' if tag is None else ';tag=%s' % tag),
              'Call-ID: %s' % str(self.ua.cId),
              'CSeq: %d %s' % (tr.cseq(), tr.method)]
        ls += list(extra)
        if body is not None:
            ls += ['Content-Type: application/sdp']
        ls += ['Content-Length: %d' % (0 if body is None else len(body)), '', body or '']
        r = SipResponse('\r\n'.join(ls))
        r.rtime = self.sim.mt()
        return r

    def answer(self, tr, *a, **k):
        tr.deliver(self.resp(tr, *a, **k))

    # ---------------------------------------------------- called side
    def req(self, method, cseq=None, body=None, extra=(), totag=None, branch='z9hG4bKb', ftag=None, cid=None, contact=True, raw=False):
        if cseq is None:
            self.rcseq = self.rcseq + 1
            cseq = self.rcseq
        ls = ['%s sip:bob@10.1.2.3:5060 SIP/2.0' % method,
              'Via: SIP/2.0/UDP 10.8.8.8:5060;branch=%s' % branch,
              'From: "Al" <sip:alice@10.8.8.8>;tag=%s' % (self.ftag if ftag is None else ftag),
              'To: <sip:bob@10.1.2.3>%s' % ('' if totag is None else ';tag=%s' % totag),
              'Call-ID: %s' % (self.cid if cid is None else cid),
              'CSeq: %d %s' % (cseq, method)]
        if contact:
            ls.append('Contact: <sip:alice@10.8.8.8:5066>')
        ls += list(extra)
        if body is not None:
            ls += ['Content-Type: application/sdp']
        ls += ['Content-Length: %d' % (0 if body is None else len(body)), '', body or '']
        r = SipRequest('\r\n'.join(ls))
        r.rtime = self.sim.mt()
        return r

    def recv(self, req):
        """as the transaction layer does: the result, if it carries a response, is sent.  Returns the response
        codes sent for it, and the callbacks"""
        t = FSrvTr()
        rv = self.ua.recvRequest(req, t)
        cancel = noack = None
        if rv is not None:
            resp, cancel, noack = rv
            if resp is not None:
                self.tm.sendResponse(resp, t)
        return cancel, noack

    def indialog(self, method, **k):
        k.setdefault('totag', self.ua.lTag)
        if self.ua.origin == 'callee' or self.ua.uasResp is None:
            k.setdefault('ftag', 'rtag')
        return self.recv(self.req(method, **k))

    def codes(self, n=0):
        return [r.getSCode()[0] for r, a, s in self.tm.answers[n:]]

    def methods(self, n=0):
        return [t.method for t in self.tm.trs[n:]]

    # ---------------------------------------------------- timers
    def due(self, t):
        if t.abs_time:
            return t.ival.monot
        return t.born + t.ival

    def limits(self):
        """live timers able to end the call (everything but the clean-up ones)"""
        return [t for t in self.sim.live() if t.abs_time]

    def fire(self, t):
        self.sim.now = self.v.ite(self.due(t) > self.sim.now, self.due(t), self.sim.now)
        t.fire()

    # ---------------------------------------------------- specification helpers
    def ended(self, when=None):
        """the leg is over: nothing is left running and nothing more is told or sent"""
        v = self.v
        ua = self.ua
        v.ensure('end-not-connected', not ua.isConnected())
        v.ensure('end-time-recorded', ua.disconnect_ts is not None)
        if ua.setup_ts is not None:
            v.ensure('end-not-before-start', ua.disconnect_ts.monot >= ua.setup_ts.monot)
        if when is not None:
            v.ensure('end-time', v.eq(ua.disconnect_ts.monot, when))
        v.ensure('end-no-limit-timer', self.limits() == [])
        v.ensure('ended-once', self.cnt('disc') + self.cnt('fail') == 1)

    def aftermath(self):
        """whatever fires after the end is without effect; finally the leg dies and is unregistered, once"""
        v = self.v
        n, m, k = len(self.events), self.tm.nsent(), len(self.log)
        i = 0
        while not self.ua.isDead() and i < 4:
            i += 1
            ts = self.sim.live()
            for t in reversed(ts):
                if t.is_live():
                    self.fire(t)
        v.ensure('dies', self.ua.isDead())
        v.ensure('end-silent', len(self.events) == n and self.tm.nsent() == m)
        v.ensure('dead-told-once', self.log[k:] == [('dead',)])
        v.ensure('unregistered-once', v.eq(self.tm.unreg, self.tm.reg))
