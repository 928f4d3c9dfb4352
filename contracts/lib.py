"""Stand-ins for the environment of the code under contract: the clock, the timer
wheel, the sockets and the log.  They record what they are asked to do."""
from sippy.Core.EventDispatcher import ED2
from sippy.Time.MonoTime import MonoTime


class FakeTimer(object):
    cb_with_ts = False
    randomize_runs = None

    def __init__(self, sim, cb, ival, nticks, abs_time, params):
        self.sim = sim
        self.cb = cb
        self.ival = ival
        self.nticks = nticks
        self.abs_time = abs_time
        self.params = params
        self.state = 'new'
        self.fired = 0
        self.born = sim.now

    def go(self):
        assert self.state == 'new'
        self.state = 'live'
        self.etime = self.ival if self.abs_time else self.sim.mt(self.ival)

    def cancel(self):
        if self.state != 'done':
            self.state = 'cancelled'

    def cleanup(self):
        self.cancel()

    def spread_runs(self, p):
        self.randomize_runs = p

    def is_live(self):
        return self.state == 'live'

    def fire(self):
        """run it, as the dispatcher does when it is due"""
        assert self.state == 'live', self.state
        self.fired += 1
        if self.abs_time or self.nticks == 1:
            self.state = 'done'
        elif self.nticks > 1:
            self.nticks -= 1
        if self.cb_with_ts:
            self.cb(MonoTime(), *self.params)
        else:
            self.cb(*self.params)

    def cbname(self):
        return getattr(self.cb, '__name__', '?')


class Sim(object):
    """clock and timers.  now: monotonic time (seconds), real time is REAL later"""
    REAL = 1500000000.0

    def __init__(self, v, now=1000.0):
        self.v = v
        self.now = now
        self.timers = []
        g = MonoTime.globals
        f = type(g.realt_flt)(0.99, self.REAL)
        v.patch(g, 'realt_flt', f)
        v.patch(g, 'monot_max', now)
        v.patch('sippy.Time.MonoTime', 'clock_getdtime', self.clock)
        v.patch(ED2, 'regTimer', self.regTimer)
        v.patch(ED2, 'callFromThread', self.callFromThread)
        self.calls = []

    def clock(self, which):
        if which == 0:
            return self.now + self.REAL
        return self.now

    def advance(self, dt):
        self.now = self.now + dt

    def regTimer(self, timeout_cb, ival, nticks=1, abs_time=False, *cb_params):
        if abs_time and not isinstance(ival, MonoTime):
            raise TypeError('ival is not MonoTime')
        if not abs_time and nticks == 0:
            return None
        t = FakeTimer(self, timeout_cb, ival, nticks, abs_time, cb_params)
        self.timers.append(t)
        return t

    def callFromThread(self, cb, *params):
        self.calls.append((cb, params))

    def live(self):
        return [t for t in self.timers if t.state == 'live']

    def since(self, n):
        return self.timers[n:]

    def mt(self, off=0):
        return MonoTime(monot=self.now + off, realt=self.now + off + self.REAL)


class FakeLogger(object):
    def __init__(self):
        self.n = 0

    def write(self, *a, **k):
        self.n += 1


class FakeUopts(object):
    def __init__(self, laddress, handler):
        self.laddress = laddress
        self.flags = 0
        self.handler = handler
        self.ploss_out_rate = 0.0
        self.pdelay_out_max = 0.0

    def isWildCard(self):
        return False


class FakeServ(object):
    transport = 'udp'
    all_sent = None

    def __init__(self, global_config, uopts):
        self.uopts = uopts
        self.sent = []
        self.down = False

    def getSIPaddr(self):
        return (self.uopts.laddress, self.transport)

    def addr2str(self, address):
        return 'udp'

    def send_to(self, data, address, *a, **k):
        self.sent.append((data, address))

    def shutdown(self):
        self.down = True


LADDR = '10.1.2.3'
LPORT = 5060


def mktm(v, sim, req_cb=None, cls=None, **attrs):
    """a real SipTransactionManager on top of the stand-ins; returns (tm, server)"""
    from sippy import SipTransactionManager as M
    v.patch('sippy.SipTransactionManager', 'dump_exception', lambda *a, **k: None)
    v.patch('sippy.SipTransactionManager', 'monotonic', lambda: sim.now)
    c = cls or M.SipTransactionManager
    v.patch(M.SipTransactionManager, 'model_udp_server', (FakeServ, FakeUopts))
    gc = {'_sip_logger': FakeLogger(), '_sip_address': LADDR, '_sip_port': LPORT}
    tm = c(gc, req_cb)
    for k, val in attrs.items():
        setattr(tm, k, val)
    serv = tm.l4r.cache_l2s[(LADDR, LPORT)]
    gc['_sip_tm'] = tm
    return tm, serv


def lines(s):
    return s.split('\r\n')


def headers_of(s):
    """[(name, value)] of a serialised message"""
    head = s.split('\r\n\r\n', 1)[0]
    r = []
    for l in head.split('\r\n')[1:]:
        n, val = l.split(':', 1)
        r.append((n.strip().lower(), val.strip()))
    return r


def hdrs(s, name):
    return [x for n, x in headers_of(s) if n == name]


def hdr(s, name):
    x = hdrs(s, name)
    return x[0] if len(x) > 0 else None


def sline(s):
    return s.split('\r\n', 1)[0]


class Rec(object):
    """records calls"""

    def __init__(self, ret=None):
        self.calls = []
        self.ret = ret

    def __call__(self, *a, **k):
        self.calls.append(a)
        if callable(self.ret):
            return self.ret(*a, **k)
        return self.ret

    def n(self):
        return len(self.calls)


TXATTRS = ('tout', 'tid', 'address', 'data', 'checksum', 'cb_ifver', 'uack', 'compact', 'req_out_cb', 'res_out_cb',
           'ack', 'cancel', 'resp_cb', 'cancel_cb', 'noack_cb', 'ack_cb', 'r487', 'r408', 'teA', 'teB', 'teC', 'teD', 'teE',
           'teF', 'teG', 'userv', 'state', 'method', 'branch', 'needack', 'expires', 'cancelPending', 'rtime', 'fcode')


def tx_snap(tm, t, sim):
    """everything a transaction and the manager's tables hold (for frame conditions)"""
    r = [(n, getattr(t, n, None)) for n in TXATTRS]
    r.append(('live-timers', [(x, x.ival, x.cb) for x in sim.live()]))
    r.append(('server-table', [(k, id(x)) for k, x in tm.tserver.items()]))
    r.append(('client-table', [(k, id(x)) for k, x in tm.tclient.items()]))
    return r


def tx_same(v, a, b):
    """the condition that two snapshots are the same: texts, numbers and tuples of them compared by value,
    other things by identity"""
    conds = []
    for (n, x), (m, y) in zip(a, b):
        if x is y:
            continue
        if isinstance(x, (str, int, float, tuple, list)) and isinstance(y, (str, int, float, tuple, list)):
            conds.append(v.eq(x, y))
        else:
            return False
    return v.and_(*conds) if conds else True

