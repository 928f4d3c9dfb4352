"""C15: a call through the B2BUA: routes in order, both legs end; C17: admission"""
from pyvc.api import contract
from contracts.lib import Sim, FakeLogger, mktm, headers_of, hdr, sline
from contracts.p_b2b import Resolver
from sippy.UA import UA
from sippy.b2bua import CallController, CallMap, re_replace
from sippy import b2bua
from sippy.B2B.Route import B2BRoute, SRC_WSS
from sippy.B2B.States import CCStateIdle, CCStateWaitRoute, CCStateARComplete, CCStateConnected, CCStateDead, CCStateDisconnecting
from sippy.CCEvents import CCEventTry, CCEventRing, CCEventPreConnect, CCEventConnect, CCEventUpdate, CCEventInfo, CCEventDisconnect, CCEventFail, CCEventRedirect
from sippy.SipCallId import SipCallId
from sippy.SipHeader import SipHeader
from sippy.MsgBody import MsgBody

B = 'sippy/b2bua.py:CallController.'
ALL = [B + n for n in ('__init__', 'recvEvent', 'rDone', 'placeOriginate', 'disconnect', 'oConn', 'aConn', 'aDisc', 'aDead', 'oDead')]
STATES = (CCStateIdle, CCStateWaitRoute, CCStateARComplete, CCStateConnected, CCStateDead, CCStateDisconnecting)


class Cfg(dict):
    def getdefault(self, k, d):
        return self[k] if k in self else d


class FUA(object):
    """a leg: takes events, tells of its own; as UA and its states do"""
    UasStateTrying, UasStateRinging, UaStateDead = UA.UasStateTrying, UA.UasStateRinging, UA.UaStateDead
    state = None
    all = None

    def __init__(self, global_config, event_cb=None, username=None, password=None, nh_address=None, credit_time=None, conn_cbs=(), disc_cbs=(),
                 fail_cbs=(), ring_cbs=(), dead_cbs=(), ltag=None, extra_headers=None, expire_time=None, no_progress_time=None, nh_transport='udp'):
        self.__dict__.update({k: x for k, x in list(locals().items()) if k != 'self'})
        self.got, self.outbound_proxy, self.pass_auth, self.no_reply_time = [], None, False, None
        self.on_local_sdp_change = self.on_remote_sdp_change = None
        self.kaInterval, self.local_ua = 0, None
        self.over = self.dead = False
        FUA.all.append(self)

    def go(self, name):
        self.state = object.__new__(getattr(UA, name))

    def end(self, name, cbs, e, code=None):
        self.over = True
        self.go(name)
        for cb in cbs:
            cb(self, e.rtime, e.origin, *([] if code is None else [code]))

    def recvEvent(self, e):
        self.got.append(e)
        if self.over:
            return
        if isinstance(e, CCEventTry):
            self.go('UacStateTrying')
        elif isinstance(e, CCEventFail):
            self.end('UaStateFailed', self.fail_cbs, e, e.getData()[0])
        elif isinstance(e, CCEventDisconnect):
            self.end('UaStateDisconnected', self.disc_cbs, e)
        elif isinstance(e, CCEventConnect):
            self.up(e)
        elif isinstance(e, CCEventRing):
            self.go('UasStateRinging')

    def up(self, e):
        self.go('UaStateConnected')
        for cb in self.conn_cbs:
            cb(self, e.rtime, e.origin)

    def tell(self, e):
        """the other end of this leg does something"""
        if isinstance(e, CCEventFail):
            self.end('UaStateFailed', self.fail_cbs, e, e.getData()[0])
        elif isinstance(e, CCEventDisconnect):
            self.end('UaStateDisconnected', self.disc_cbs, e)
        elif isinstance(e, CCEventConnect):
            self.up(e)
        elif isinstance(e, CCEventRing):
            self.go('UacStateRinging')
        self.event_cb(e, self)

    def disconnect(self, rtime=None, origin=None):
        e = CCEventDisconnect(rtime=rtime, origin=origin)
        self.recvEvent(e)
        self.event_cb(e, self)

    def die(self):
        self.dead = True
        self.go('UaStateDead')
        for cb in self.dead_cbs:
            cb(self)


class Radius(object):
    def __init__(self):
        self.asked = []
        self.cancelled = 0

    def do_auth(self, *a, **k):
        self.asked.append((a, k))
        return self

    def cancel(self):
        self.cancelled += 1


class Acct(object):
    """accounting of a leg"""
    all = None

    def __init__(self, global_config, origin, lperiod=None, send_start=False):
        self.origin, self.lperiod, self.send_start, self.calls, self.params = origin, lperiod, send_start, [], None
        Acct.all.append(self)

    def setParams(self, *a):
        self.params = a

    def conn(self, *a):
        self.calls.append(('conn', a))

    def disc(self, *a):
        self.calls.append(('disc', a))


class FMap(object):
    def __init__(self):
        self.ccmap = []
        self.debug_mode = False


SRC = ('10.7.7.7', 5061)


def mkcall(v, sim, auth=True, acct=True, **more):
    v.patch(b2bua, 'UA', FUA)
    v.patch(FUA, 'all', [])
    v.patch(Acct, 'all', [])
    v.patch(b2bua, 'RadiusAccounting', Acct)
    cfg = Cfg({'keepalive_ans': 11, 'keepalive_orig': 22, '_uaname': 'the agent', 'auth_enable': auth, 'acct_enable': acct, 'start_acct_enable': True,
               '_cmap': FMap(), '_radius_client': Radius(), '_sip_logger': FakeLogger()})
    cfg.update(more)
    ph = [SipHeader('X-Pass: yes')]
    cc = CallController('10.9.9.9', SRC, '10.7.7.7', None, cfg, ph)
    cfg['_cmap'].ccmap.append(cc)
    return cfg, cc, ph


def trying(v, sim, cc, cld='200', cli='100', body=None, auth=None, name='The Name', mf=None):
    cc.uaA.go('UasStateTrying')
    e = CCEventTry((SipCallId('the-call'), cli, cld, body, auth, name), rtime=sim.mt(), origin='caller')
    e.max_forwards = mf
    cc.uaA.event_cb(e, cc.uaA)
    return e


def routes(texts):
    return (tuple(('h323-ivr-in', 'Routing:' + x) for x in texts), 0)


def want_route(n, text, cc_cld='200', cli='100', credit=None, ph=(), most=None):
    r = B2BRoute(text)
    r.customize(n, cc_cld, cli, credit, list(ph), most)
    return r


def check_attempt(v, cfg, u, r, e0):
    """the attempt is made as the route says"""
    v.ensure('next-hop', v.eq(u.nh_address, r.getNHAddr(SRC)[0]))
    v.ensure('login', v.eq([u.username, u.password, u.pass_auth], [r.user, r.passw, r.pass_auth]))
    v.ensure('limits', v.eq([u.credit_time, u.expire_time, u.no_progress_time, u.no_reply_time],
                            [r.credit_time, r.expires, r.no_progress_expires, r.no_reply_expires]))
    v.ensure('headers', v.eq([str(h) for h in u.extra_headers], [str(h) for h in r.extra_headers]))
    v.ensure('proxy', v.eq(u.outbound_proxy, r.params.get('outbound_proxy', None)))
    v.ensure('keepalive', u.kaInterval == 22 and u.local_ua == 'the agent')
    v.ensure('one-try', len([x for x in u.got if isinstance(x, CCEventTry)]) == 1 and isinstance(u.got[0], CCEventTry))
    cid, cli, cld, body, auth, name = u.got[0].getData()
    v.ensure('numbers', v.eq([cli, cld, name], [r.cli, r.cld, r.params.get('caller_name', e0.getData()[5])]))
    v.ensure('call-id', v.eq(str(cid), 'the-call-b2b_%d' % r.rnum))
    v.ensure('auth', auth is e0.getData()[4])


def gone(v, cfg, cc):
    """every leg dies: the call is forgotten, only then"""
    left = [u for u in FUA.all if u.state is not None]
    order = left if v.flag('A-first') else list(reversed(left))
    for i, u in enumerate(order):
        v.ensure('kept-while-alive', cfg['_cmap'].ccmap == [cc])
        out = v.call(u.die)
        v.ensure('no-failure', out.ok)
    v.ensure('forgotten', cfg['_cmap'].ccmap == [])
    v.ensure('nobody-waiting', cc.acctA is None and cc.acctO is None)


CODES = {'486': 486, '503': 503}


@contract('C15', targets=ALL, bounded='up to three routes')
def call_hunting(v):
    """every outcome of every attempt: what is tried next, what the caller is told"""
    sim = Sim(v)
    Resolver(v, '4')
    cfg, cc, ph = mkcall(v, sim, auth=True)
    n = v.choice('n', [1, 2, 3])
    skip = v.choice('skip', [None, 0, 1])
    stops = v.choice('stops', ['none', 'all', 'first', 'rest'])
    texts = []
    for i in range(n):
        t = 'n%d@h%d.example' % (i, i)
        if stops == 'all' or (stops == 'first' and i == 0) or (stops == 'rest' and i > 0):
            t += ';hs_scodes=486,600'
        if i == skip:
            t += v.choice('zero', [';credit-time=0', ';expires=0'])
        texts.append(t)
    e0 = trying(v, sim, cc)
    rad = cfg['_radius_client']
    v.ensure('asked-once', len(rad.asked) == 1 and cc.state is CCStateWaitRoute and len(FUA.all) == 1)
    v.call(rad.asked[0][0][5], routes(texts))
    use = [i for i in range(n) if i != skip]
    A = cc.uaA
    if not use:
        v.ensure('no-route-told', len(A.got) == 1 and isinstance(A.got[0], CCEventFail) and A.got[0].getData()[0] == 500)
        v.ensure('no-attempt', len(FUA.all) == 1)
        gone(v, cfg, cc)
        v.cover('none')
        return
    k = 0
    end = None
    while True:
        v.ensure('one-attempt-each', len(FUA.all) == 2 + k)
        u = FUA.all[1 + k]
        v.ensure('current', cc.uaO is u)
        check_attempt(v, cfg, u, want_route(use[k] + 1, texts[use[k]], ph=ph), e0)
        told = len(A.got)
        ev = v.choice('out%d' % k, ['486', '503', 'disc', 'ring-503', 'connect', 'gone', 'answered'])
        if ev == 'ring-503':
            r = CCEventRing((180, 'Ringing', None), rtime=sim.mt())
            u.tell(r)
            v.ensure('ringing-told', len(A.got) == told + 1 and A.got[-1] is r)
            told += 1
            ev = '503'
        if ev in CODES or ev == 'disc':
            e = CCEventDisconnect(rtime=sim.mt(), origin='callee') if ev == 'disc' else CCEventFail((CODES[ev], 'X'), rtime=sim.mt())
            out = v.call(u.tell, e)
            v.ensure('no-failure', out.ok)
            if k + 1 < len(use) and not ('hs_scodes' in texts[use[k]] and ev == '486'):
                v.ensure('caller-not-told', len(A.got) == told)
                v.cover('next')
                k += 1
                continue
            v.ensure('failure-passed-on', len(A.got) == told + 1 and A.got[-1] is e)
            v.cover('given-up')
            break
        if ev == 'answered':
            # early answer of the caller's leg by other means: no more hunting
            A.go('UaStateConnected')
            for cb in A.conn_cbs:
                cb(A, sim.mt(), 'caller')
            v.ensure('connected', cc.state is CCStateConnected)
            e = CCEventFail((503, 'X'), rtime=sim.mt())
            v.ensure('no-failure', v.call(u.tell, e).ok)
            v.ensure('told', A.got[-1] is e)
            v.cover('answered')
            break
        if ev == 'connect':
            e = CCEventConnect((200, 'OK', None), rtime=sim.mt(), origin='callee')
            v.ensure('no-failure', v.call(u.tell, e).ok)
            v.ensure('answer-passed-on', len(A.got) == told + 1 and A.got[-1] is e and cc.state is CCStateConnected)
            side = v.choice('hangup', ['caller', 'callee', 'server'])
            d = CCEventDisconnect(rtime=sim.mt(), origin=side)
            if side == 'server':
                v.ensure('no-failure', v.call(cc.disconnect).ok)
                v.ensure('both-told', isinstance(A.got[-1], CCEventDisconnect) and isinstance(u.got[-1], CCEventDisconnect))
            else:
                x, y = (A, u) if side == 'caller' else (u, A)
                v.ensure('no-failure', v.call(x.tell, d).ok)
                v.ensure('other-side-told', y.got[-1] is d)
            v.cover('connected')
            break
        # the caller goes away
        d = CCEventDisconnect(rtime=sim.mt(), origin='caller')
        v.ensure('no-failure', v.call(A.tell, d).ok)
        v.ensure('attempt-ended', u.got[-1] is d and cc.state is CCStateDisconnecting)
        if v.flag('late'):
            v.call(u.event_cb, CCEventFail((487, 'X'), rtime=sim.mt()), u)
        v.cover('caller-gone')
        break
    v.ensure('state', cc.state in STATES)
    v.ensure('no-more-attempts', len(FUA.all) == 2 + k)
    v.ensure('both-over', all(u.over for u in FUA.all))
    # accounting: one per leg, each attempt has its own
    acc = Acct.all
    v.ensure('accounted', [a.origin for a in acc] == ['answer'] + ['originate'] * (k + 1))
    v.ensure('accounted-end', all(len([x for x in a.calls if x[0] == 'disc']) == 1 and a.calls[-1][0] == 'disc' for a in acc))
    gone(v, cfg, cc)


class Auth(object):
    """credentials that came with the call"""

    def __init__(self, username):
        self.username, self.realm, self.nonce, self.uri, self.response = username, 'a realm', 'a nonce', 'sip:uri', 'a response'


@contract('C15', targets=ALL)
def call_authorisation(v):
    """what is asked of RADIUS; a call not authorised is never routed"""
    sim = Sim(v)
    Resolver(v, '4')
    cfg, cc, ph = mkcall(v, sim, auth=True)
    rad = cfg['_radius_client']
    A = cc.uaA
    if v.flag('weird'):
        # the first thing is not a new call
        A.go('UasStateTrying')
        e = v.choice('what', [CCEventDisconnect(rtime=sim.mt()), CCEventFail((500, 'x'), rtime=sim.mt()), CCEventInfo(None, rtime=sim.mt())])
        v.ensure('no-failure', v.call(A.event_cb, e, A).ok)
        v.ensure('refused', len(A.got) == 1 and isinstance(A.got[0], CCEventDisconnect) and len(FUA.all) == 1 and rad.asked == [])
        v.cover('weird')
        return
    cld = v.opt('cld', lambda: 'b' + v.str('cldn', 'text'))
    cli = v.opt('cli', lambda: v.str('clin', 'text'))
    au = v.choice('au', ['none', 'nouser', 'empty', 'user'])
    user = 'u' + v.str('user', 'text') if au == 'user' else None if au == 'nouser' else ''
    auth = None if au == 'none' else Auth(user)
    cc.challenge = SipHeader('WWW-Authenticate: Digest realm="r",nonce="n"') if v.flag('challenge') else None
    cc.extra_attributes = v.choice('extra', [None, (('a', 'b'),)])
    e0 = trying(v, sim, cc, cld=cld, cli=cli, auth=auth)
    if cld is None:
        v.ensure('no-number', len(A.got) == 1 and isinstance(A.got[0], CCEventFail) and A.got[0].getData()[0] == 500 and cc.state is CCStateDead and rad.asked == [])
        gone(v, cfg, cc)
        v.cover('no-number')
        return
    v.ensure('asked-once', len(rad.asked) == 1 and A.got == [] and len(FUA.all) == 1)
    args, kw = rad.asked[0]
    num = cld.split('nat-', 1)[1] if cld.startswith('nat-') else cld
    ident = user if au == 'user' else '10.9.9.9'
    v.ensure('asked-about', v.eq(list(args[:3]) + [str(args[3]), args[4]] + list(args[6:]),
                                 [ident, cli, num, 'the-call', '10.9.9.9'] + (['a realm', 'a nonce', 'sip:uri', 'a response'] if au == 'user' else [])))
    v.ensure('attributes-asked', kw == {'extra_attributes': cc.extra_attributes})
    cut = v.flag('cut')
    if cut:
        v.ensure('no-failure', v.call(A.tell, CCEventDisconnect(rtime=sim.mt(), origin='caller')).ok)
        v.ensure('query-cancelled', rad.cancelled == 1 and cc.state is CCStateDead)
        if v.flag('dead'):
            A.die()
            v.ensure('forgotten', cfg['_cmap'].ccmap == [])
            v.cover('caller-gone')
            return
    told = len(A.got)
    code = v.int('code', -1, 5)
    res = v.choice('res', ['accept', 'code', 'bad'])
    out = v.call(args[5], routes(['n@h'])[:1] + (0,) if res == 'accept' else ((), code) if res == 'code' else (0,))
    v.ensure('no-failure', out.ok)
    if cut:
        v.ensure('never-routed-once-gone', len(FUA.all) == 1 and len(A.got) == told)
        # (the time spent is still accounted when it was accepted)
        v.ensure('accounted-once', len(Acct.all) == (1 if res == 'accept' or (res == 'code' and code == 0) else 0) and
                 all([x[0] for x in a.calls] == ['disc'] for a in Acct.all))
        A.die()
        v.ensure('forgotten', cfg['_cmap'].ccmap == [])
        v.cover('gone-then-answer')
        return
    if res == 'accept':
        v.ensure('routed', len(FUA.all) == 2 and cc.state is CCStateARComplete)
        v.cover('routed')
        return
    v.ensure('not-routed', len(FUA.all) == 1)
    v.ensure('told-once', len(A.got) == 1 and isinstance(A.got[0], CCEventFail))
    ok = res == 'code' and code == 0
    v.ensure('dead', cc.state is CCStateDead)
    if ok:
        v.ensure('no-routes', A.got[0].getData()[0] == 500)
    elif cc.challenge is not None:
        v.ensure('challenged', A.got[0].getData()[0] == 401)
        hs = A.got[0].getExtraHeaders()
        v.ensure('challenge', hs is not None and len(hs) == 1 and hs[0] is cc.challenge)
    else:
        v.ensure('refused', A.got[0].getData()[0] == 403 and A.got[0].getExtraHeaders() is None)
    gone(v, cfg, cc)
    v.cover('refused')


@contract('C15', targets=ALL)
def call_settings(v):
    """each attempt has the settings of its route and of the configuration"""
    sim = Sim(v)
    Resolver(v, '4')
    acct, hide, alive, precise, withr = v.choice('conf', [(True, False, None, False, False), (True, True, 30, False, True), (True, False, None, True, True),
                                                          (False, True, None, True, False)])
    more = {}
    if alive is not None:
        more['alive_acct_int'] = alive
    if precise:
        more['precise_acct'] = True
    if hide:
        more['hide_call_id'] = True
    most = v.opt('most', lambda: v.int('mostn', 1, 100000))
    if most is not None:
        more['max_credit_time'] = most
    cfg, cc, ph = mkcall(v, sim, auth=True, acct=acct, **more)
    mf = v.opt('mf', lambda: v.int('mfn', 0, 255))
    opt = v.choice('opt', ['', ';forward_on_fail=1', ';auth=usr:pwd;cli=77;expires=20;np_expires=10;nr_expires=5', ';op=pr.example:5070;cnam=Her', ';op=10.7.7.7:5061',
                           ';bill-to=BT;bill-cli=BC;bill-cld=BD;ash=X-A%3A%20b'])
    text = v.choice('place', ['n@h.example', 'h.example', 'n@sip-ua']) + opt
    e0 = trying(v, sim, cc, mf=mf)
    e0.reason_rfc3326 = why = SipHeader('Reason: Q.850;cause=16').getBody() if withr else None
    attrs, code = routes([text])
    A = cc.uaA
    credit = v.opt('credit', lambda: v.int('creditn', 1, 100000))
    if credit is not None:
        attrs = attrs + (('h323-credit-time', '%d' % credit),)
    cli = '100'
    how = v.choice('override', ['none', 'set', 'clear'])
    name = 'The Name'
    if how == 'set':
        cli, name = '5' + v.str('ncli', 'alnum'), 'N' + v.str('nname', 'alnum')
        attrs = attrs + (('h323-ivr-in', 'CLI:' + cli), ('h323-ivr-in', 'CNAM:' + name), ('h323-ivr-in', 'CLI:other'))
    elif how == 'clear':
        cli = name = None
        attrs = attrs + (('h323-ivr-in', 'CLI:'), ('h323-ivr-in', 'CNAM:'))
    out = v.call(cfg['_radius_client'].asked[0][0][5], (attrs, code))
    v.ensure('no-failure', out.ok)
    if mf is not None and mf <= 1:
        v.ensure('too-many-hops', len(A.got) == 1 and isinstance(A.got[0], CCEventFail) and A.got[0].getData()[0] == 483)
        v.ensure('nothing-sent', all(u.got == [] for u in FUA.all[1:]))
        v.ensure('dead', cc.state is CCStateDead)
        gone(v, cfg, cc)
        v.cover('hops')
        return
    v.ensure('one-attempt', len(FUA.all) == 2 and A.got == [])
    u = FUA.all[1]
    r = want_route(1, text, cli=cli, credit=credit, ph=ph, most=most)
    sipua = text.split(';')[0] == 'n@sip-ua'
    v.ensure('next-hop', v.eq(u.nh_address, SRC if sipua else ('192.0.2.1', 5099)))
    v.ensure('login', v.eq([u.username, u.password, u.pass_auth], [r.user, r.passw, r.pass_auth]))
    lim = credit
    if most is not None and (lim is None or lim > most):
        lim = most
    v.ensure('limits', v.eq([u.credit_time, u.expire_time, u.no_progress_time, u.no_reply_time], [lim, r.expires, r.no_progress_expires, r.no_reply_expires]))
    v.ensure('headers', v.eq([str(h) for h in u.extra_headers], [str(SipHeader('X-A: b'))] * ('ash=' in opt) + [str(ph[0])]))
    v.ensure('proxy', u.outbound_proxy == (('pr.example', 5070) if 'op=pr' in opt else None))
    t = u.got[0]
    cid, tcli, tcld, body, auth, tname = t.getData()
    wcli = '77' if 'cli=77' in opt else cli
    wcld = 'n' if text.startswith('n@') else '200'
    v.ensure('numbers', v.eq([tcli, tcld, tname], [wcli, wcld, 'Her' if 'cnam' in opt else name]))
    v.ensure('hop-less', v.eq(t.max_forwards, None if mf is None else mf - 1))
    v.ensure('reason', t.reason_rfc3326 is why)
    v.ensure('call-id', (str(cid) != 'the-call-b2b_1' and str(cid).endswith('-b2b_1') and 'the-call' not in str(cid)) if hide else str(cid) == 'the-call-b2b_1')
    v.ensure('original-kept', str(e0.getData()[0]) == 'the-call')
    acc = Acct.all
    fof = 'forward_on_fail' in opt
    v.ensure('accounted', [a.origin for a in acc] == (['answer'] + ([] if fof else ['originate']) if acct else []))
    if acct:
        v.ensure('accounted-how', all(a.lperiod == alive and a.send_start is True and a.ms_precision is precise for a in acc))
        v.ensure('accounted-as', v.eq(list(acc[0].params[:3]) + [str(acc[0].params[3]), acc[0].params[4]], ['10.9.9.9', '100', '200', 'the-call', '10.9.9.9']))
        if not fof:
            host = '10.7.7.7' if sipua else 'h.example'
            w = ['BT', 'BC', 'BD'] if 'bill-to' in opt else ['10.9.9.9', wcli, wcld]
            v.ensure('attempt-accounted-as', v.eq(list(acc[1].params[:3]) + [str(acc[1].params[3]), acc[1].params[4]], w + ['the-call', host]))
    # answered, and over
    u.tell(CCEventConnect((200, 'OK', None), rtime=sim.mt(), origin='callee'))
    u.tell(CCEventDisconnect(rtime=sim.mt(), origin='callee'))
    v.ensure('accounted-connect-and-end', all([x[0] for x in a.calls] == ['conn', 'disc'] for a in acc))
    v.ensure('both-over', all(x.over for x in FUA.all))
    v.cover('attempt')


@contract('C15', targets=ALL + [B + 'group_expires'], bounded='up to three routes')
def call_groups(v):
    """time limit of a group of routes: the rest of the group is skipped"""
    sim = Sim(v)
    Resolver(v, '4')
    cfg, cc, ph = mkcall(v, sim, auth=True, acct=False)
    n = v.choice('n', [1, 2, 3])
    to = v.int('timeout', 1, 1000)
    grp = v.choice('skip', [1, 2, 3])
    # (a route that may not be used at all, not the first of the next group)
    zero = v.choice('zero', [x for x in [None, 1, 2] if x != grp])
    texts = ['n%d@h' % i + (';gt=%d,%d' % (to, grp) if i == 0 else '') + (';credit-time=0' if i == zero else '') for i in range(n)]
    trying(v, sim, cc)
    cfg['_radius_client'].asked[0][0][5](routes(texts))
    left = [i for i in range(n) if i != zero]
    A = cc.uaA
    t = [x for x in sim.live() if x.cb == cc.group_expires]
    v.ensure('timer', len(t) == 1 and v.eq(t[0].ival, to) and t[0].nticks == 1)
    k = 0
    for i in range(2):
        ev = v.choice('ev%d' % i, ['fail', 'ring', 'none'])
        u = cc.uaO
        if ev == 'fail' and k + 1 < len(left):
            u.tell(CCEventFail((503, 'x'), rtime=sim.mt()))
            k += 1
        elif ev == 'ring':
            u.tell(CCEventRing((180, 'x', None), rtime=sim.mt()))
    u = cc.uaO
    state = v.choice('then', ['trying', 'connected', 'gone'])
    if state == 'connected':
        u.tell(CCEventConnect((200, 'OK', None), rtime=sim.mt()))
    elif state == 'gone':
        A.tell(CCEventDisconnect(rtime=sim.mt()))
    have = len(FUA.all)
    got = len(A.got)
    v.ensure('no-failure', v.call(t[0].fire).ok)
    inside = left[k] < grp
    beyond = [i for i in left[k + 1:] if i >= grp]
    if state != 'trying' or not inside or not left[k + 1:]:
        v.ensure('nothing-happens', len(FUA.all) == have and len(A.got) == got and u.over == (state == 'gone'))
        v.cover('nothing')
        return
    if not beyond:
        # no other group: the current attempt goes on, no further one is made
        v.ensure('goes-on', len(FUA.all) == have and not u.over)
        e = CCEventFail((503, 'y'), rtime=sim.mt())
        u.tell(e)
        v.ensure('last', len(FUA.all) == have and A.got[-1] is e)
        v.cover('last-group')
        return
    v.ensure('attempt-ended', u.over and len(A.got) == got)
    v.ensure('next-group', len(FUA.all) == have + 1 and v.eq(FUA.all[-1].got[0].getData()[2], 'n%d' % beyond[0]))
    v.cover('next-group')


@contract('C15', targets=[B + 'rDone'], bounded='up to two routes')
def call_bad_answer(v):
    """routes that make no sense are left out; the caller always gets an answer"""
    sim = Sim(v)
    rs = Resolver(v, '4')
    v.patch(b2bua, 'dump_exception', lambda *a, **k: None)
    ask = rs.__call__

    def getaddrinfo(host, *a):
        if host == 'nowhere':
            raise OSError('unknown host')
        return ask(host, *a)
    v.patch('sippy.B2B.Route', 'getaddrinfo', getaddrinfo)
    cfg, cc, ph = mkcall(v, sim)
    x = v.str('x', 'alnum')
    bad = v.choice('bad', ['n@nowhere', 'n@h;x%s' % x, 'n@h;expires=x%s' % x, 'n@h:x%s' % x, 'n@h;gt=x%s' % x, 'n@h;gt=1,x%s' % x, 'n@h;auth=x%s' % x, 'n@h;hs_scodes=x%s' % x])
    order = v.choice('order', ['bad', 'bad-good', 'good-bad'])
    texts = {'bad': [bad], 'bad-good': [bad, 'm@g'], 'good-bad': ['m@g', bad]}[order]
    trying(v, sim, cc)
    attrs, code = routes(texts)
    time = v.choice('time', [None, 'x', ''])
    if time is not None:
        attrs = attrs + (('h323-credit-time', time),)
    out = v.call(cfg['_radius_client'].asked[0][0][5], (attrs, code))
    v.ensure('no-failure', out.ok)
    A = cc.uaA
    if time is None and order != 'bad':
        v.ensure('good-one-tried', len(FUA.all) == 2 and A.got == [] and v.eq(FUA.all[1].got[0].getData()[2], 'm'))
        e = CCEventFail((503, 'y'), rtime=sim.mt())
        FUA.all[1].tell(e)
        v.ensure('then-given-up', len(FUA.all) == 2 and A.got == [e])
        v.cover('good')
    else:
        v.ensure('told', len(FUA.all) == 1 and len(A.got) == 1 and isinstance(A.got[0], CCEventFail) and A.got[0].getData()[0] == 500)
        v.ensure('dead', cc.state is CCStateDead)
        v.cover('none')
    gone(v, cfg, cc)


class FSess(object):
    """media session"""
    all = None
    AV_TRTYPES = ('rtp/avp',)

    class Side(object):
        raddress = None

    def __init__(self, cfg, call_id=None, notify_tag=None):
        self.cfg, self.call_id, self.notify_tag = cfg, call_id, notify_tag
        self.caller, self.callee = FSess.Side(), FSess.Side()
        FSess.all.append(self)

    def on_caller_sdp_change(self, *a):
        return ('caller', a)

    def on_callee_sdp_change(self, *a):
        return ('callee', a)


@contract('C15', targets=ALL)
def call_media(v):
    """relaying of media: one session per call, used by the routes that want it"""
    sim = Sim(v)
    Resolver(v, '4')
    v.patch(FSess, 'all', [])
    v.patch(CallController, 'rtpps_cls', FSess)
    on = v.flag('on')
    cfg, cc, ph = mkcall(v, sim, acct=False, **({'_rtp_proxy_clients': ['x']} if on else {}))
    opts = [v.choice('o%d' % i, ['', ';rtpp=0', ';rtpp=1']) for i in range(2)]
    nat = v.flag('nat')
    text = 'v=0\r\n'
    body = v.opt('body', lambda: MsgBody(text, SipHeader('Content-Type: application/sdp').getBody()))
    e0 = trying(v, sim, cc, body=body, cld='nat-200' if nat else '200')
    v.ensure('one-session', len(FSess.all) == (1 if on else 0))
    ss = FSess.all[0] if on else None
    v.ensure('session', cc.rtp_proxy_session is ss)
    if on:
        v.ensure('session-of-call', str(ss.call_id) == 'the-call' and ss.notify_tag == 'r%%20%d' % cc.id and ss.callee.raddress == ('10.9.9.9', 5060))
    cfg['_radius_client'].asked[0][0][5](routes(['a%d@h%s' % (i, o) for i, o in enumerate(opts)]))
    wtext = text + 'a=nated:yes\r\n' if nat else text
    A = cc.uaA
    if on:
        ss.caller.raddress = None
    for i, o in enumerate(opts):
        u = FUA.all[1 + i]
        use = on and o != ';rtpp=0'
        b = u.got[0].getData()[3]
        if i == 1:
            v.ensure('peer', not on or ss.caller.raddress == (('192.0.2.1', 5099) if use else None))
        v.ensure('relayed', (u.on_local_sdp_change, u.on_remote_sdp_change) == ((ss.on_caller_sdp_change, ss.on_callee_sdp_change) if use else (None, None)))
        if body is None:
            v.ensure('no-body', b is None)
        else:
            v.ensure('body', str(b) == wtext and ((b is not body) if use else b is body))
            v.ensure('original-body-kept', str(e0.getData()[3]) == wtext)
        if i == 0:
            u.tell(CCEventFail((503, 'x'), rtime=sim.mt()))
    v.ensure('one-session', len(FSess.all) == (1 if on else 0) and cc.rtp_proxy_session is ss)
    if v.flag('media-timeout'):
        cc.disconnect(rtime=sim.mt(), origin='media_timeout', media_index=1)
        v.ensure('told-of-timeout', not on or ss.media_timeout_index == 1)
    else:
        A.tell(CCEventDisconnect(rtime=sim.mt()))
    v.ensure('both-over', all(x.over for x in FUA.all))
    v.ensure('session-given-up', cc.rtp_proxy_session is None)
    gone(v, cfg, cc)
    v.cover('relayed' if on else 'direct')


@contract('C15', targets=[B + 'recvEvent', B + 'placeOriginate', 'sippy/b2bua.py:re_replace'], bounded='numbers and translations of a table')
def call_translation(v):
    """numbers are translated on the way in and on the way out as configured"""
    sim = Sim(v)
    Resolver(v, '4')
    cld = v.choice('cld', ['200', 'nat-200', '+1200', '00200#5', '200200'])
    tr = [v.choice('tr' + n, [(None, {}), ('s/^/9/', {'200': '9200', '+1200': '9+1200', '00200#5': '900200', '200200': '9200200'}),
                              ('s/20/x/g', {'200': 'x0', '+1200': '+1x0', '00200#5': '00x0', '200200': 'x0x0'}),
                              ('s/20/x/', {'200': 'x0', '+1200': '+1x0', '00200#5': '00x0', '200200': 'x0200'}),
                              ('s/^[+]1//;s/^00//', {'200': '200', '+1200': '200', '00200#5': '200', '200200': '200200'})]) for n in ('in', 'out')]
    more = {}
    if tr[0][0] is not None:
        more['static_tr_in'] = tr[0][0]
    if tr[1][0] is not None:
        more['static_tr_out'] = tr[1][0]
    cfg, cc, ph = mkcall(v, sim, acct=False, **more)
    trying(v, sim, cc, cld=cld)
    bare = '200' if cld == 'nat-200' else cld
    inn = tr[0][1].get(bare, bare)
    v.ensure('asked-about', cfg['_radius_client'].asked[0][0][2] == inn)
    cfg['_radius_client'].asked[0][0][5](routes(['h']))
    t = FUA.all[1].got[0].getData()[2]
    if tr[1][0] is None:
        v.ensure('number', t == inn)
    elif inn in tr[1][1]:
        v.ensure('number', t == tr[1][1][inn])
    v.ensure('calling-number-kept', FUA.all[1].got[0].getData()[1] == '100')
    v.cover('translated')


M = 'sippy/b2bua.py:CallMap.'


class Prox(object):
    """the stateful proxy (its own contracts: C23)"""

    def __init__(self, dest):
        self.destination, self.reqs = dest, []

    def recvRequest(self, req):
        self.reqs.append(req)
        return (None, None, None)


class SUA(FUA):
    """a leg that takes its first request"""

    def __init__(self, *a, **k):
        FUA.__init__(self, *a, **k)
        self.reqs = []

    def recvRequest(self, req, sip_t):
        self.reqs.append((req, sip_t))
        self.go('UasStateTrying')
        return (None, None, self.disconnect)


def mkmap(v, sim, **more):
    from sippy.SipWWWAuthenticate import SipWWWAuthenticate
    v.patch(b2bua, 'UA', SUA)
    v.patch(FUA, 'all', [])
    v.patch(b2bua, 'Signal', lambda *a: None)
    v.patch(b2bua, 'dump_exception', lambda *a, **k: None)
    v.patch(SipWWWAuthenticate.ho, 'emit_challenge', lambda m: 'the-nonce')
    tm, serv = mktm(v, sim, None)
    cfg = Cfg(tm.global_config)
    cfg.update({'keepalive_ans': 0, 'keepalive_orig': 0, '_uaname': 'the agent', 'auth_enable': False, 'acct_enable': False, 'digest_auth': True, '_pass_headers': []})
    cfg.update(more)
    cm = CallMap(cfg)
    cfg['_cmap'] = cm
    tm.req_cb = cm.recvRequest
    return cfg, cm, tm, serv


def ask(v, tm, serv, sim, method, totag, extra=(), vias=2, src=SRC, transport='udp'):
    from sippy.SipTransactionManager import Remote_address
    host = v.str('host', 'alnum', 1)
    hs = ['%s sip:%s@%s.example SIP/2.0' % (method, 'u' + v.str('user', 'alnum'), host),
          'Via: SIP/2.0/UDP 10.7.7.7:5061;branch=z9hG4bK%s' % v.str('branch', 'alnum', 0, 30)]
    if vias > 1:
        hs.append('Via: SIP/2.0/UDP 10.6.6.6:%d;branch=z9hG4bKother' % v.int('vport', 1, 65535))
    hs += ['From: <sip:a@10.7.7.7>;tag=%s' % v.str('ftag', 'alnum', 1), 'To: <sip:b@10.1.2.3>' + (';tag=%s' % v.str('ttag', 'alnum', 1) if totag else ''),
           'Call-ID: %s' % v.str('cid', 'alnum', 1), 'CSeq: %d %s' % (v.int('cseq', 0, 2147483647), method), 'Contact: <sip:a@10.7.7.7:5061>'] + list(extra) + ['Content-Length: 0']
    tm.handleIncoming('\r\n'.join(hs + ['', '']), Remote_address(src, transport), serv, sim.mt())
    return '%s.example' % host


@contract('C17', targets=[M + 'recvRequest', M + 'remoteIPAuth', M + '__init__'])
def admission(v):
    """which requests are let in, and what the others are answered"""
    sim = Sim(v)
    method = v.choice('method', ['INVITE', 'REGISTER', 'SUBSCRIBE', 'NOTIFY', 'PING', 'OPTIONS', 'INFO', 'BYE', 'MESSAGE', 'X'])
    totag = v.flag('totag')
    rich = method == 'INVITE' and not totag
    more = {}
    acl = v.choice('acl', [None, 'listed', 'not', 'empty']) if rich else None
    if acl:
        more['_accept_ips'] = {'listed': ['10.1.1.1', '10.7.7.7'], 'not': ['10.7.7.8'], 'empty': []}[acl]
    au = v.choice('auth', ['off', 'ip', 'digest', 'digest-only']) if rich else 'off'
    more['auth_enable'] = au != 'off'
    more['digest_auth'] = au != 'ip'
    if au == 'digest-only':
        more['digest_auth_only'] = True
    ph = v.flag('pass') if rich else False
    if ph:
        more['_pass_headers'] = ['x-keep', 'x-none']
    cfg, cm, tm, serv = mkmap(v, sim, **more)
    drain = v.choice('drain', ['no', 'restart', 'stop']) if rich else 'no'
    if drain == 'restart':
        cm.safe_restart = True
    elif drain == 'stop':
        cm.safe_stop = True
    px = v.choice('proxy', ['none', 'other', 'from', 'same-host', 'same-port', 'transport'] if rich and au == 'off' and drain == 'no' else ['none', 'other', 'from'])
    if px != 'none':
        cm.proxy = Prox({'from': (SRC, 'udp'), 'other': (('10.4.4.4', 5060), 'udp'), 'same-host': ((SRC[0], SRC[1] + 1), 'udp'),
                         'same-port': (('10.4.4.4', SRC[1]), 'udp'), 'transport': (SRC, 'tcp')}[px])
    cred = rich and au != 'off' and v.flag('cred')
    vias = v.choice('vias', [1, 2]) if rich else 1
    extra = ['X-Keep: one', 'X-Keep: two', 'X-Other: three']
    if cred:
        extra.append('Authorization: Digest username="u",realm="r",nonce="n",uri="sip:x",response="0"')
    host = ask(v, tm, serv, sim, method, totag, extra, vias)
    new = [u for u in FUA.all]
    ans = [s for s, a in serv.sent]
    if totag:
        want = 481
    elif method == 'INVITE':
        src = 'proxy' if px == 'from' else 'ip'
        if drain != 'no':
            want = 503
        elif acl in ('not', 'empty') or (acl == 'listed' and src == 'proxy'):
            want = 403
        elif au == 'digest-only' and not cred:
            want = 401
        else:
            want = None
    elif method in ('REGISTER', 'SUBSCRIBE') and px != 'none':
        v.ensure('to-proxy', len(cm.proxy.reqs) == 1 and ans == [])
        want = None
    elif method in ('NOTIFY', 'PING'):
        want = 200
    else:
        want = 501
    if px != 'none':
        v.ensure('not-to-proxy', len(cm.proxy.reqs) == (1 if method in ('REGISTER', 'SUBSCRIBE') and not totag else 0))
    if want is not None:
        v.ensure('answer', len(ans) == 1 and sline(ans[0]).startswith('SIP/2.0 %d ' % want))
        v.ensure('no-call', new == [] and cm.ccmap == [])
        ch = [x for n, x in headers_of(ans[0]) if n == 'www-authenticate']
        v.ensure('challenge', len(ch) == (1 if want == 401 else 0))
        if want == 401:
            v.ensure('challenge-of-host', v.eq(ch[0], 'Digest realm="%s",nonce="the-nonce"' % host))
    elif method == 'INVITE':
        v.ensure('one-call', len(cm.ccmap) == 1 and len(new) == 1 and cm.ccmap[0].uaA is new[0])
        cc = cm.ccmap[0]
        v.ensure('given-the-request', len(new[0].reqs) == 1 and new[0].reqs[0][0].getMethod() == 'INVITE' and new[0].got == [])
        v.ensure('source', cc.source == SRC)
        v.ensure('address', cc.remote_ip == ('10.6.6.6' if vias == 2 else '10.7.7.7'))
        v.ensure('challenge-ready', (cc.challenge is not None) == (au in ('digest', 'digest-only') and not cred))
        if cc.challenge is not None:
            v.ensure('challenge-of-host', v.eq(str(cc.challenge.getBody()), 'Digest realm="%s",nonce="the-nonce"' % host))
        v.ensure('headers-passed', [h.getBody().body for h in cc.pass_headers] == (['one', 'two'] if ph else []))
        v.ensure('state', cc.state is CCStateIdle)
        v.ensure('media', cc.rtpps_cls is (b2bua.Rtp_proxy_session_sip2webrtc if px == 'from' else b2bua.Rtp_proxy_session_default))
    v.cover(str(want))


@contract('C17', targets=[M + 'recvRequest', M + 'remoteIPAuth'])
def admission_websocket(v):
    """calls from web sockets"""
    sim = Sim(v)
    acl = v.choice('acl', [None, ['10.7.7.7'], [SRC_WSS]])
    cfg, cm, tm, serv = mkmap(v, sim, **({} if acl is None else {'_accept_ips': acl}))
    if v.flag('proxy'):
        cm.proxy = Prox((SRC, 'udp'))
    src = ('%s.invalid' % v.str('src', 'alnum', 1), 443)
    serv.transport = 'wss'
    ask(v, tm, serv, sim, 'INVITE', False, (), v.choice('vias', [1, 2]), src, 'wss')

    if acl == ['10.7.7.7']:
        v.ensure('refused', cm.ccmap == [] and len(serv.sent) == 1 and sline(serv.sent[0][0]).startswith('SIP/2.0 403 '))
        v.cover('refused')
        return
    v.ensure('accepted', len(cm.ccmap) == 1 and serv.sent == [])
    cc = cm.ccmap[0]
    v.ensure('source', v.eq([cc.source, cc.remote_ip], [src, src[0]]))
    v.ensure('media', cc.rtpps_cls is b2bua.Rtp_proxy_session_webrtc2sip)
    v.cover('accepted')


@contract('C17', targets=[M + 'recvRequest', M + 'safeStop', M + 'safeRestart', M + 'executeStop', M + 'getActiveCalls', M + 'discAll', M + 'GClector'],
          bounded='up to two calls')
def draining(v):
    """draining: no new calls; stopped when the calls are over, or after a time"""
    sim = Sim(v)
    cfg, cm, tm, serv = mkmap(v, sim, _my_pid=1, _orig_cwd='/nowhere', _orig_argv=['a', 'b'])
    done = []
    v.patch(b2bua.ED2, 'breakLoop', lambda *a: done.append('stop'))
    v.patch(b2bua, 'os', FOs(done))
    v.patch(tm, 'shutdown', lambda: done.append('shutdown'))
    n = v.choice('calls', [0, 1, 2])
    for i in range(n):
        ask(v, tm, serv, sim, 'INVITE', False)
        cm.ccmap[-1].state = v.choice('state%d' % i, [CCStateWaitRoute, CCStateARComplete, CCStateConnected, CCStateDisconnecting])
        tm.tserver.clear()
        tm.l2rcache.clear()
    active = [cc for cc in cm.ccmap if cc.state in (CCStateARComplete, CCStateConnected)]
    v.ensure('calls', len(cm.ccmap) == n)
    if v.flag('restart'):
        cm.safeRestart(1)
        ask2 = len(serv.sent)
        g = [x for x in sim.live() if x.cb == cm.GClector]
        v.ensure('gc-timer', len(g) == 1 and g[0].ival == 60 and g[0].nticks == -1)
        for k in range(2):
            had = list(done)
            g[0].fire()
            v.ensure('restart-once-idle', done == had + ([] if active else ['shutdown', ('chdir', '/nowhere'), 'exec']))
            if not active:
                break
            # the last one ends
            for cc in active:
                cc.state = CCStateDead
            active = []
        v.ensure('no-call-touched', all(len(cc.uaA.got) == 0 for cc in cm.ccmap))
        v.cover('restart')
        return
    cm.safeStop(15)
    v.ensure('all-told-to-end', all(len(cc.uaA.got) == 1 and isinstance(cc.uaA.got[0], CCEventDisconnect) for cc in cm.ccmap))
    # (a leg that does not end stays in its state)
    for cc in cm.ccmap:
        cc.state = CCStateConnected if cc in active else CCStateDead
    t = [x for x in sim.live() if x.cb == cm.executeStop]
    v.ensure('stop-timer', len(t) == 1 and t[0].ival == 0.5 and t[0].nticks == -1)
    m = v.choice('ends', [0, 1, 3, 9])
    for k in range(1, 6):
        v.ensure('not-yet', done == [])
        if k > m:
            for cc in active:
                cc.state = CCStateDead
            active = []
        t[0].fire()
        if not active or k == 5:
            v.ensure('stopped', done == ['stop'] and not t[0].is_live())
            break
        v.ensure('waits', done == [] and t[0].is_live())
    v.cover('stop')


class FOs(object):
    def __init__(self, done):
        self.done = done

    def getpid(self):
        return 1

    def chdir(self, d):
        self.done.append(('chdir', d))

    def execv(self, *a):
        self.done.append('exec')
