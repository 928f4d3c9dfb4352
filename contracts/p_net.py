"""C27: UDP servers"""
import socket
from errno import EWOULDBLOCK, ENOBUFS, EAGAIN, EINTR, EBADF, ECONNRESET, ENOTCONN, ESHUTDOWN, EADDRINUSE, EACCES, EHOSTUNREACH, ENOMEM, EPERM
from sippy.Udp_server import Udp_server, Udp_server_opts, AsyncSender, AsyncReceiver
from sippy.Network_server import Remote_address, RTP_port_allocator, PortAllocationError
from sippy.SipConf import MyPort
from pyvc.api import contract
from contracts.lib import Sim

U = 'sippy/Udp_server.py:'
N = 'sippy/Network_server.py:'


class Queue(object):
    def __init__(self, *a):
        self.q = []

    def put(self, x, *a, **k):
        self.q.append(x)

    def get(self, *a, **k):
        assert len(self.q) > 0, 'waits for ever'
        return self.q.pop(0)


class Skt(object):
    def __init__(self, w, family=None, kind=None):
        self.w, self.family, self.kind = w, family, kind
        self.sent, self.opts, self.bound, self.tried, self.closed, self.shut = [], [], None, [], 0, 0
        self.more = []

    def setsockopt(self, *a):
        assert self.bound is None
        self.opts.append(a)

    def bind(self, address):
        self.tried.append(address)
        e = self.w.binderr.pop(0) if self.w.binderr else None
        if e is not None:
            raise OSError(e, 'bind')
        self.bound = address

    def getsockname(self):
        return (self.bound[0], 33333) + tuple(self.bound[2:])

    def sendto(self, data, address):
        self.sent.append((data, address))
        r = self.w.results.pop(0)
        if r == 'ok':
            return len(data)
        if r == 'short':
            return 0
        if r == 'pipe':
            raise BrokenPipeError(32, 'Broken pipe')
        raise OSError(r, 'error')

    def recvfrom(self, n):
        r = self.w.inputs.pop(0)
        if isinstance(r, Exception):
            raise r
        return r

    def shutdown(self, how):
        self.shut += 1
        if self.w.shuterr is not None:
            raise OSError(self.w.shuterr, 'shutdown')

    def close(self):
        self.closed += 1


class World(object):
    def __init__(self, v):
        self.v = v
        self.skts, self.binderr, self.results, self.inputs, self.shuterr = [], [], [], [], None
        self.senders, self.receivers, self.naps, self.reports = [], [], [], 0
        self.dead = False
        v.patch('sippy.Network_server', 'Queue', Queue)
        v.patch(socket, 'socket', self.socket)
        v.patch(socket, 'getaddrinfo', self.getaddrinfo)
        v.patch('sippy.Udp_server', 'sleep', self.sleep)
        v.patch('sippy.Udp_server', 'dump_exception', self.report)
        v.patch('sippy.Network_server', 'dump_exception', self.report)
        senders, receivers = self.senders, self.receivers
        v.patch(AsyncSender, 'start', lambda t: senders.append(t))
        v.patch(AsyncReceiver, 'start', lambda t: receivers.append(t))
        v.patch(AsyncSender, 'join', lambda t: None)
        v.patch(AsyncReceiver, 'join', lambda t: None)

    def sleep(self, t):
        self.naps.append(t)

    def report(self, *a, **k):
        self.reports += 1

    def socket(self, *a, **k):
        s = Skt(self, *a, **k)
        self.skts.append(s)
        return s

    def getaddrinfo(self, host, port, family=0, *a, **k):
        self.asked = host
        if host == 'nowhere':
            raise socket.gaierror(-2, 'Name or service not known')
        if family == socket.AF_INET6:
            return [(family, 2, 17, '', ('ip-of-' + host, 0, 0, 7)), (family, 2, 17, '', ('other', 0, 0, 9))]
        return [(family, 2, 17, '', ('ip-of-' + host, 0)), (family, 2, 17, '', ('other', 0))]


def server(v, w, six=False, cb=None, laddress=None, **opts):
    o = Udp_server_opts(laddress if laddress is not None else ('[::1]', 5060) if six else ('10.0.0.1', 5060), cb)
    for k, x in opts.items():
        setattr(o, k, x)
    return Udp_server({}, o), o


@contract('C27', targets=[U + 'AsyncSender.run', U + 'AsyncSender.__init__', U + 'Udp_server.send_to', N + 'Network_server.send_to'],
          bounded='two datagrams in a row')
def udp_send(v):
    """each datagram queued is given to the socket, in order, until it takes it or can be
    seen never to take it; a datagram that cannot be sent holds up nothing but itself"""
    w = World(v)
    six = v.flag('six')
    srv, o = server(v, w, six)
    s = w.senders[0]
    want = []
    alive = True
    plan = []
    for i in range(2):
        host = v.choice('host%d' % i, ('known', 'nowhere'))
        text = v.flag('text%d' % i)
        d = v.str('data%d' % i, 'text', 1) if text else v.blob('data%d' % i, v.int('len%d' % i, 1, 65000))
        port = v.int('port%d' % i, 1, 65535)
        out = v.call(srv.send_to, d, ('[' + host + ']' if six else host, port))
        v.ensure('taken', out.ok)
        if host == 'nowhere':
            continue
        nbusy = v.choice('busy%d' % i, (0, 1, 19, 20))
        end = v.choice('end%d' % i, ('ok', 'refused', 'pipe'))
        busy = v.choice('why', (EWOULDBLOCK, ENOBUFS, 'short'))
        res = [busy] * nbusy
        if nbusy < 20:
            res.append({'ok': 'ok', 'refused': EPERM, 'pipe': 'pipe'}[end])
        plan += res
        if alive:
            want.append((d.encode() if text else d, port, len(res), nbusy < 20 and end == 'ok'))
        if nbusy < 20 and end == 'pipe':
            alive = False
    w.results = plan
    srv.sendqueue.put(None)
    out = v.call(s.run)
    v.ensure('never-raises', out.ok)
    sent = list(w.skts[-1].sent)
    k = 0
    addr = lambda p: ('ip-of-known', p, 0, 7) if six else ('ip-of-known', p)
    v.ensure('as-often-as-needed', len(sent) == sum(x[2] for x in want))
    for d, port, n, ok in want:
        for j in (0, n - 1):
            v.ensure('what-was-queued', v.eq(sent[k + j][0], d))
            v.ensure('where-to', v.eq(tuple(sent[k + j][1]), addr(port)))
        k += n
    if alive:
        v.ensure('all-tried', len(w.results) == 0)
        v.ensure('shutdown-passed-on', srv.sendqueue.q == [None])
        v.cover('both') if len(want) == 2 else None
    v.ensure('waits-a-little', all(0 < t <= 0.1 for t in w.naps))
    v.ensure('waits-between', len(w.naps) >= sum(x[2] - 1 for x in want))


@contract('C27', targets=[U + 'AsyncReceiver.run', U + 'AsyncReceiver.__init__', N + 'Network_server.handle_read', N + 'Remote_address.__init__'],
          bounded='three events of the socket in a row')
def udp_receive(v):
    """every datagram that the socket gives is handed over once, in order, with where it
    came from and when; an error of the socket ends this only when the socket is closed"""
    sim = Sim(v)
    w = World(v)
    six = v.flag('six')
    direct = v.flag('direct')
    got = []
    srv, o = server(v, w, six, lambda *a: got.append(a), direct_dispatch=direct)
    r = w.receivers[0]
    want = []
    now = [sim.now]
    open_ = True

    class Inputs(list):
        def pop(self, i):
            x = list.pop(self, i)
            sim.advance(1.5)
            return x
    ins = Inputs()
    for i in range(3):
        ev = v.choice('ev%d' % i, ('data', 'none', 'again', 'odd', 'raise', 'closed'))
        if ev == 'data':
            d = v.blob('d%d' % i, v.int('n', 1, 8192))
            p = v.int('port', 1, 65535)
            ins.append((d, ('fe80::2', p, 0, 3) if six else ('10.0.0.9', p)))
            if open_:
                want.append((d, '[fe80::2]' if six else '10.0.0.9', p, sim.now + 1.5 * len(ins)))
        elif ev == 'none':
            # what some systems give when the socket is closed, and at times otherwise
            ins += [(b'', None)] * 3
        elif ev == 'again':
            ins.append(OSError(EINTR, 'Interrupted system call'))
        elif ev == 'odd':
            ins.append(OSError(v.choice('odd', (ENOMEM, ENOBUFS, EHOSTUNREACH)), 'odd'))
        elif ev == 'raise':
            ins.append(ValueError('odd'))
        else:
            ins.append(OSError(v.choice('closed', (ECONNRESET, ENOTCONN, ESHUTDOWN, EBADF)), 'closed'))
            open_ = False
    ins.append(OSError(EBADF, 'closed'))
    w.inputs = ins
    n0 = len(ins)
    out = v.call(r.run)
    v.ensure('survives', out.ok)
    if open_:
        v.ensure('until-closed', len(ins) == 0)
    if not direct:
        v.ensure('nothing-in-this-thread', len(got) == 0)
        for cb, par in sim.calls:
            c = v.call(cb, *par)
            v.ensure('handled', c.ok)
    v.ensure('each-once', len(got) == len(want))
    for (d, a, s, t), (wd, wh, wp, wt) in zip(got, want):
        v.ensure('data', v.eq(d, wd))
        ad = a if direct else a.address
        v.ensure('from', v.eq(tuple(ad), (wh, wp)))
        if not direct:
            v.ensure('received', a.received == wh and a.transport == 'udp')
        v.ensure('server', s is srv)
        v.ensure('time', v.close(t.monot, wt))
    if len(want) == 3:
        v.cover('all')


@contract('C27', targets=[U + 'AsyncReceiver.run'], bounded='the number of empty answers')
def udp_receive_closed(v):
    """a socket that gives nothing without end is closed; now and then it is not"""
    sim = Sim(v)
    w = World(v)
    got = []
    srv, o = server(v, w, False, lambda *a: got.append(a))
    n, m = v.choice('n', (0, 1, 50, 99)), v.choice('m', (0, 1, 99))
    d = (b'x', ('10.0.0.9', 5060))
    w.inputs = [(b'', None)] * n + [d] + [(b'', None)] * m + [d] + [(b'', ('10.0.0.9', 5060))] * 200 + [d] + [(b'', None)] * 100000
    out = v.call(w.receivers[0].run)
    v.ensure('ends', out.ok)
    v.ensure('soon', len(w.inputs) >= 90000)
    for cb, par in sim.calls:
        v.call(cb, *par)
    v.ensure('all-before', len(got) == 3)


@contract('C27', targets=[N + 'Network_server.handle_read', N + 'Network_server.shutdown', U + 'Udp_server.shutdown', U + 'Udp_server.join'])
def udp_deliver(v):
    """the application is called once for each datagram, what it raises goes no further,
    and after the server has been shut down it is not called any more"""
    sim = Sim(v)
    w = World(v)
    got = []
    what = v.choice('raises', (None, ValueError, AssertionError, SystemExit))

    def cb(*a):
        got.append(a)
        if what is not None:
            raise what('oops')
    srv, o = server(v, w, v.flag('six'), cb)
    ra = Remote_address(('10.0.0.9', v.int('port', 1, 65535)), 'udp')
    d = v.blob('data', v.int('len', 1, 8192))
    t = sim.mt()
    out = v.call(srv.handle_read, d, ra, t)
    v.ensure('once', len(got) == 1)
    v.ensure('data', v.eq(got[0][0], d))
    v.ensure('rest', got[0][1] is ra and got[0][2] is srv and got[0][3] is t)
    if what is SystemExit:
        v.ensure('exit', out.raised(SystemExit))
    else:
        v.ensure('contained', out.ok)
    v.call(srv.handle_read, b'', ra, t)
    v.ensure('empty-ignored', len(got) == 1)
    w.shuterr = v.choice('shuterr', (None, ENOTCONN, EBADF))
    out = v.call(srv.shutdown)
    v.ensure('shut-down', out.ok)
    skt = w.skts[-1]
    v.ensure('closed', skt.closed == 1 and skt.shut == 1)
    v.ensure('senders-told', None in srv.sendqueue.q)
    v.call(srv.handle_read, d, ra, t)
    v.ensure('silent-after', len(got) == 1)


@contract('C27', targets=[N + 'Network_server.handle_read', N + 'Network_server.send_to'])
def udp_impaired(v):
    """the losses and delays that can be configured for tests: what is lost is lost, what is
    delayed comes once, as much later"""
    sim = Sim(v)
    w = World(v)
    x, y = v.real('x', 0, 1), v.real('y', 0, 1)
    rnd = [x, y]
    v.patch('sippy.Network_server', 'random', lambda: rnd.pop(0) if len(rnd) > 1 else rnd[0])
    v.patch('sippy.Network_server', 'Timeout', lambda cb, ival, n=1, *par: sim_timer(sim, cb, ival, n, par))
    got = []
    loss = v.choice('loss', (0.0, 0.25))
    delay = v.choice('delay', (0.0, 2.0))
    inward = v.flag('in')
    kw = dict(ploss_in_rate=loss, pdelay_in_max=delay) if inward else dict(ploss_out_rate=loss, pdelay_out_max=delay)
    six = v.flag('six')
    srv, o = server(v, w, six, lambda *a: got.append(a), **kw)
    ra = Remote_address(('10.0.0.9', 5060), 'udp')
    d = v.blob('data', v.int('len', 1, 8192))
    t = sim.mt()
    if inward:
        out = v.call(srv.handle_read, d, ra, t)
    else:
        out = v.call(srv.send_to, d, ('[fe80::9]' if six else '10.0.0.9', 5060))
    v.ensure('ok', out.ok)
    done = got if inward else srv.sendqueue.q
    lost = v.and_(loss > 0, x < loss)
    late = y if loss > 0 else x
    if len(done) == 1:
        v.ensure('not-lost', v.not_(lost))
        v.ensure('not-delayed', delay == 0.0 and len(sim.timers) == 0)
    elif len(sim.timers) == 0:
        v.ensure('lost', lost)
        return
    else:
        v.ensure('not-lost', v.not_(lost))
        v.ensure('delayed', len(sim.timers) == 1 and delay > 0)
        tm = sim.timers[0]
        v.ensure('how-long', v.eq(tm.ival, delay * late))
        sim.advance(tm.ival)
        o = v.call(tm.fire)
        v.ensure('comes', o.ok)
        v.cover('late')
    v.ensure('once', len(done) == 1 and len(sim.live()) == 0)
    v.ensure('data', v.eq(done[0][0], d))
    if not inward:
        v.ensure('where-to', done[0][1] == ('fe80::9' if six else '10.0.0.9', 5060))
    if inward:
        v.ensure('time', v.close(done[0][3].monot, t.monot + (delay * late if delay > 0 else 0)))


def sim_timer(sim, cb, ival, n, par):
    t = sim.regTimer(cb, ival, n, False, *par)
    t.go()
    return t


@contract('C27', targets=[U + 'Udp_server.__init__', U + 'Udp_server.getSIPaddr', U + 'Udp_server_opts.__init__', U + 'Udp_server_opts.getSockOpts',
                          U + 'Udp_server_opts.isWildCard', N + 'Network_server_opts.__init__', N + 'Network_server_opts.getCopy'])
def udp_setup(v):
    """a server has the address, socket options and number of workers it was asked for, an
    allocator of ports is asked until a port is free, and the address it tells is the one it
    has"""
    w = World(v)
    six = v.flag('six')
    host = v.choice('host', ('any', 'one'))
    kind = v.choice('kind', ('fixed', 'zero', 'alloc', 'my'))
    port = v.int('port', 1, 65535)
    used = v.choice('used', (0, 1, 3))
    err = v.choice('err', (None, EACCES))
    asked = []

    def alloc(n):
        asked.append(n)
        return port + 2 * n
    h = ('[::]' if six else '0.0.0.0') if host == 'any' else ('[2001:db8::1]' if six else '10.0.0.1')
    my = MyPort(5060)
    la = (h, {'fixed': port, 'zero': 0, 'alloc': alloc, 'my': my}[kind])
    if kind != 'alloc':
        used = 0
    w.binderr = [EADDRINUSE] * used + [err]
    flags = v.choice('flags', ('default', 0))
    nw = v.choice('nw', ('default', 1, 5))
    cb = lambda *a: None
    o = Udp_server_opts(la, cb)
    if flags == 0:
        o.flags = 0
    if nw != 'default':
        o.nworkers = nw
    o.direct_dispatch = v.flag('direct')
    o.ploss_out_rate, o.pdelay_out_max, o.ploss_in_rate, o.pdelay_in_max = 0.1, 0.2, 0.3, 0.4
    before = dict(o.__dict__)
    out = v.call(Udp_server, {}, o)
    v.ensure('options-untouched', o.__dict__ == before)
    skt = w.skts[-1]
    if err is not None:
        v.ensure('told', out.raised(OSError))
        v.ensure('no-workers', len(w.senders) == 0 and len(w.receivers) == 0)
        return
    v.ensure('made', out.ok)
    srv = out.value
    v.ensure('one-socket', len(w.skts) == 1 and skt.kind == socket.SOCK_DGRAM)
    v.ensure('family', skt.family == (socket.AF_INET6 if six else socket.AF_INET))
    ip = 'ip-of-' + h.strip('[]')
    for i, a in enumerate(skt.tried):
        v.ensure('address', v.eq(a[0], ip))
        p = {'fixed': port, 'zero': 0, 'alloc': port + 2 * i, 'my': 5060}[kind]
        v.ensure('port', v.eq(int(a[1]) if kind == 'my' else a[1], p))
    if kind == 'alloc':
        v.ensure('asked-in-order', asked == list(range(used + 1)))
    v.ensure('options', set(x[:2] for x in skt.opts) ==
             set(([(socket.SOL_SOCKET, socket.SO_REUSEADDR)] if flags == 'default' else []) +
                 ([(socket.SOL_SOCKET, socket.SO_REUSEPORT)] if flags == 'default' and nw != 1 else []) +
                 ([(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY)] if six and host == 'any' else [])))
    v.ensure('options-on', all(x[2] == 1 for x in skt.opts))
    n = 3 if nw == 'default' else nw
    v.ensure('workers', len(w.senders) == n and len(w.receivers) == n)
    u = srv.uopts
    v.ensure('kept', u.data_callback is cb and u.direct_dispatch == o.direct_dispatch and
             (u.ploss_out_rate, u.pdelay_out_max, u.ploss_in_rate, u.pdelay_in_max) == (0.1, 0.2, 0.3, 0.4))
    a, tr = srv.getSIPaddr()
    v.ensure('transport', tr == 'udp')
    if kind == 'alloc':
        v.ensure('told-port', v.eq(a[1], port + 2 * used))
    elif kind == 'zero':
        v.ensure('told-port', a[1] == 33333)
    else:
        v.ensure('told-port', v.eq(a[1], port) if kind == 'fixed' else a[1] is my)
    if kind in ('fixed', 'my'):
        v.ensure('told-host', a[0] == h)
    else:
        v.ensure('told-host', v.eq(a[0], '[' + ip + ']' if six else ip))


@contract('C27', targets=[N + 'RTP_port_allocator'])
def udp_ports(v):
    """ports for media are even and in the range that is configured, each of them can be
    given, and the search for a free one ends"""
    lo, hi = v.int('lo', 1, 65535), v.int('hi', 1, 65535)
    v.assume(lo + 1 <= hi)
    deflo, defhi = v.flag('deflo'), v.flag('defhi')
    rlo, rhi = 1024 if deflo else lo, 65535 if defhi else hi
    v.assume(rlo + 1 <= rhi)
    pick = v.int('pick', 0, 32767)
    asked = []

    def randint(a, b):
        asked.append((a, b))
        v.assume(v.and_(a <= pick, pick <= b))
        return pick
    v.patch('sippy.Network_server', 'randint', randint)
    out = v.call(RTP_port_allocator, None if deflo else lo, None if defhi else hi)
    v.ensure('made', out.ok)
    al = out.value
    n = v.int('n', 0, 40000)
    out = v.call(al, n)
    count = rhi // 2 - (rlo + 1) // 2 + 1
    v.ensure('tries', v.iff(out.ok, n < count))
    if not out.ok:
        v.ensure('says-so', out.raised(PortAllocationError))
        return
    p = out.value
    v.ensure('in-range', v.and_(p >= rlo, p <= rhi))
    v.ensure('even', v.eq(p % 2, 0))
    v.ensure('every-port', v.and_(v.eq(asked[0][0], 0), v.eq(asked[0][1], count - 1), v.eq(p, rlo + rlo % 2 + 2 * pick)))
