"""C29: control connections"""
import socket
from errno import EBADF, ECONNRESET, EPIPE, ENOTCONN, ECONNABORTED, EIO
from sippy.CLIManager import CLIConnectionManager, CLIManager, _CLIManager_r, _CLIManager_w, _Acceptor
from sippy.B2B.SimpleAPI import B2BSimpleAPI
from sippy.B2B.States import CCStateConnected, CCStateARComplete, CCStateDead, CCStateWaitRoute, CCStateDisconnecting
from sippy.b2bua import CallMap
from pyvc.api import contract
from contracts.lib import Sim
from contracts.p_ext import Cond

M = 'sippy/CLIManager.py:'
A = 'sippy/B2B/SimpleAPI.py:B2BSimpleAPI.'


class Conn(object):
    """the connection"""

    def __init__(self):
        self.ins, self.takes, self.sent, self.closed, self.shut = [], [], [], 0, 0
        self.shuterr = None

    def recv(self, n):
        x = self.ins.pop(0)
        if isinstance(x, Exception):
            raise x
        return x

    def send(self, data):
        assert self.closed == 0
        n = self.takes.pop(0) if self.takes else None
        if isinstance(n, Exception):
            raise n
        if n is None or n > len(data):
            n = len(data)
        if n > 0:
            self.sent.append(data[:n])
        return n

    def sendall(self, data):
        while len(data) > 0:
            data = data[self.send(data):]

    def shutdown(self, how):
        self.shut += 1
        if self.shuterr is not None:
            raise self.shuterr

    def close(self):
        self.closed += 1

    def all(self):
        r = b''
        for x in self.sent:
            r = r + x
        return r


class World(object):
    def __init__(self, v):
        self.v = v
        self.reports = 0
        self.threads = ts = []
        v.patch('sippy.CLIManager', 'dump_exception', self.report)
        v.patch('sippy.CLIManager', 'Condition', Cond)
        v.patch(_CLIManager_r, 'start', lambda t: ts.append(t))
        v.patch(_CLIManager_w, 'start', lambda t: ts.append(t))
        v.patch(_Acceptor, 'start', lambda t: ts.append(t))
        v.patch(_Acceptor, 'join', lambda t: None)

    def report(self, *a, **k):
        self.reports += 1


def manager(v, cb):
    sim = Sim(v)
    w = World(v)
    c = Conn()
    m = CLIManager(c, cb)
    return sim, w, c, m


@contract('C29', targets=[M + '_CLIManager_r', M + 'CLIManager.handle_cmd', M + 'CLIManager.__init__'],
          bounded='two commands, received in up to four pieces')
def cli_lines(v):
    """each line received is one command, handed over once and in order in the main thread,
    however the stream cuts it; blank lines are none; the connection is taken down when the
    peer closes or breaks it or sends what is no text"""
    got = []
    sim, w, c, m = manager(v, lambda clim, cmd: got.append((clim, cmd)))
    parts, want = [], []
    for i in range(2):
        a, b = v.str('a%d' % i, 'token', 1), v.str('b%d' % i, 'token', 1)
        kind = v.choice('kind%d' % i, ('one', 'words', 'blank', 'empty'))
        eol = v.choice('eol', ('\n', '\r\n'))
        if kind == 'one':
            parts += [a, eol]
            want.append(a)
        elif kind == 'words':
            parts += [' ' + a, ' ' + b + eol]
            want.append(a + ' ' + b)
        elif kind == 'blank':
            parts += ['  ', eol]
        else:
            parts += [eol]
    tail = v.flag('tail')
    if tail:
        parts.append(v.str('rest', 'token', 1))
    buf = ''
    for i, p in enumerate(parts):
        buf = buf + p
        if i == len(parts) - 1 or v.flag('cut%d' % i):
            c.ins.append(buf.encode('ascii'))
            buf = ''
    end = v.choice('end', ('eof', 'reset', 'closed', 'noise'))
    c.ins += {'eof': [b''], 'reset': [ConnectionResetError(ECONNRESET, 'reset')], 'closed': [OSError(EBADF, 'closed')],
              'noise': [b'l\xff\xfe\n']}[end]
    out = v.call(m.rthr.run)
    v.ensure('ends', out.ok and len(c.ins) == 0)
    v.ensure('not-in-this-thread', len(got) == 0 and c.closed == 0)
    for cb, par in sim.calls:
        o = v.call(cb, *par)
        v.ensure('handled', o.ok)
    v.ensure('each-once', len(got) == len(want))
    for (cl, cmd), x in zip(got, want):
        v.ensure('command', v.and_(v.eq(cmd, x), cl is m))
    if end != 'closed':
        v.ensure('taken-down', c.closed == 1)


@contract('C29', targets=[M + '_CLIManager_w', M + 'CLIManager.send', M + 'CLIManager.write', M + 'CLIManager.close', M + 'CLIManager.shutdown'],
          bounded='two answers, each taken in up to three pieces')
def cli_send(v):
    """what is sent arrives complete and in order, however little the socket takes at a time
    and whenever it is sent; a connection that has been closed by the application is taken
    down after all that was sent before, and nothing is sent after that"""
    sim, w, c, m = manager(v, lambda *a: None)
    wt = m.wthr
    steps, want = [], b''
    closing = v.choice('close', ('never', 'early', 'end'))
    for i in range(2):
        text = v.flag('text%d' % i)
        d = 'answer %d\n' % i if text else v.blob('d%d' % i, v.int('n%d' % i, 4, 9000))
        steps.append((lambda x, f: lambda: f(x))(d, (m.send, m.write)[i]))
        want = want + (d.encode('ascii') if text else d)
        if i == 0 and closing == 'early':
            steps.append(m.close)
            first = want
    if closing == 'end':
        steps.append(m.close)
    fail = v.choice('fail', (None, 'pipe', 'closed'))
    c.takes = [v.choice('take%d' % i, (None, 0, 1, 3)) for i in range(2)]
    if fail is not None:
        c.takes.append(BrokenPipeError(EPIPE, 'Broken pipe') if fail == 'pipe' else OSError(EBADF, 'closed'))
    cond = wt.w_available
    n = [0]
    done = [False]

    def env(waiting):
        n[0] += 1
        if steps and (waiting or n[0] > 5 or v.flag('now%d' % n[0])):
            k = cond.notified
            steps.pop(0)()
            v.ensure('woken', cond.notified > k)
        elif waiting and not done[0]:
            # nothing more to send: the peer goes away
            v.ensure('all-that-was-sent', v.eq(c.all(), want))
            done[0] = True
            wt.shutdown()
    cond.env = env
    out = v.call(wt.run)
    cond.env = None
    v.ensure('ends', out.ok)
    left = list(steps)
    for s in left:
        o = v.call(s)
        v.ensure('later-is-no-error', o.ok)
    if closing == 'never' or fail is not None and len(c.takes) == 0:
        v.ensure('not-taken-down', len(sim.calls) == 0 and c.closed == 0)
        if fail is None:
            v.ensure('all', done[0])
    else:
        if closing == 'early':
            # what was sent after the close may have made it or not
            all_ = c.all()
            v.ensure('complete', v.or_(v.eq(all_, first), v.eq(all_, want)))
        else:
            v.ensure('complete', v.eq(c.all(), want))
        v.ensure('then-taken-down', len(sim.calls) == 1 and c.closed == 0)
    c.shuterr = {'never': None, 'early': OSError(ENOTCONN, 'x'), 'end': OSError(EIO, 'x')}[closing]
    for cb, par in sim.calls + [(m.shutdown, ())]:
        o = v.call(cb, *par)
        v.ensure('down', o.ok and c.closed == 1)
    k = len(c.sent)
    for f in (lambda: m.send('late'), m.close, m.shutdown):
        o = v.call(f)
        v.ensure('silent-after', o.ok and c.closed == 1 and len(c.sent) == k)


@contract('C29', targets=[M + 'CLIManager.handle_cmd', M + 'CLIConnectionManager.handle_accept', M + 'CLIConnectionManager.__init__'])
def cli_accept(v):
    """a connection from an address that is not on the list, where there is one, is closed
    unheard; a command that fails ends its own connection only"""
    sim = Sim(v)
    w = World(v)
    got = []
    bad = v.choice('bad', (None, ValueError, KeyError, AttributeError))

    def cb(clim, cmd):
        got.append((clim, cmd))
        clim.send('so far')
        if bad is not None:
            raise bad('oops')
    cm = CLIConnectionManager.__new__(CLIConnectionManager)
    cm.command_cb = cb
    cm.tcp = v.flag('tcp')
    listed = v.choice('list', (None, 'none', 'others', 'with'))
    peer = v.str('peer', 'digits', 1)
    if listed is not None:
        other = v.str('other', 'digits', 1)
        v.assume(v.not_(v.eq(other, peer)))
        cm.accept_list = {'none': [], 'others': [other], 'with': [other, peer]}[listed]
    c = Conn()
    out = v.call(cm.handle_accept, c, (peer, 4000) if cm.tcp else '')
    v.ensure('ok', out.ok)
    if cm.tcp and listed in ('none', 'others'):
        v.ensure('turned-away', c.closed == 1 and len(w.threads) == 0)
        return
    v.ensure('served', c.closed == 0 and len(w.threads) == 2)
    m = w.threads[0].clim
    cmd = v.str('cmd', 'token', 1)
    o = v.call(m.handle_cmd, cmd)
    v.ensure('contained', o.ok)
    v.ensure('given', len(got) == 1 and got[0][0] is m and v.eq(got[0][1], cmd))
    # what was answered before the failure arrives, then the connection ends
    wt = [t for t in w.threads if isinstance(t, _CLIManager_w)][0]

    def idle(waiting):
        if waiting:
            wt.shutdown()
    wt.w_available.env = idle
    o = v.call(wt.run)
    v.ensure('answered', o.ok and c.all() == b'so far')
    ends = sim.calls
    v.ensure('ended-or-not', len(ends) == (1 if bad is not None else 0))
    for f, par in ends:
        f(*par)
    v.ensure('closed-or-not', c.closed == len(ends))
    v.ensure('reported', w.reports == (1 if bad is not None else 0))


class Poll(object):
    def __init__(self, w):
        self.w, self.fds = w, []

    def register(self, fd, *a):
        self.fds.append(fd)

    def poll(self, *a):
        return self.w.polls.pop(0)


class Serv(object):
    def __init__(self, w, *a):
        self.w, self.kind, self.log, self.closed, self.accepts = w, a, [], 0, []

    def setsockopt(self, *a):
        pass

    def bind(self, a):
        self.log.append(('bind', a))

    def listen(self, n):
        self.log.append(('listen', n))

    def fileno(self):
        return 50

    def accept(self):
        x = self.accepts.pop(0)
        if isinstance(x, Exception):
            raise x
        return x

    def close(self):
        self.closed += 1


def listener(v):
    """the control socket and all of the system it touches"""
    sim = Sim(v)
    w = World(v)
    w.polls, w.servs, w.log, w.fds = [], [], [], []
    m = 'sippy.CLIManager'
    v.patch(m, 'poll', lambda: Poll(w))

    def remove(p):
        w.log.append(('remove', p))
        if w.absent:
            raise OSError(2, 'No such file')
    w.absent = v.flag('absent')
    v.patch(m, 'remove', remove)
    v.patch(m, 'chown', lambda *a: w.log.append(('chown',) + a))
    v.patch(m, 'chmod', lambda *a: w.log.append(('chmod',) + a))
    v.patch(m, 'pipe', lambda: (60, 61))
    v.patch(m, 'read', lambda fd, n: w.fds.append(('read', fd)) or b'x')
    v.patch(m, 'write', lambda fd, d: w.fds.append(('write', fd)) or len(d))
    v.patch(m, 'close', lambda fd: w.fds.append(('close', fd)))

    def mk(*a):
        s = Serv(w, *a)
        w.servs.append(s)
        return s
    v.patch(socket, 'socket', mk)
    return sim, w


@contract('C29', targets=[M + '_Acceptor', M + 'CLIConnectionManager.__init__', M + 'CLIConnectionManager.shutdown', A + '__init__'],
          bounded='three events of the control socket')
def cli_listen(v):
    """the control socket is where the configuration says; each connection to it is handed
    over once and in order in the main thread, until it is shut down, which leaves no file"""
    sim, w = listener(v)
    kind = v.choice('kind', ('tcp', 'tcpport', 'unix', 'path'))
    port = v.int('port', 1, 65535)
    name = v.str('name', 'alnum', 1)
    spec = {'tcp': 'tcp:' + name, 'tcpport': 'tcp:' + name + ':' + str(port), 'unix': 'unix:/' + name, 'path': '/' + name}[kind]
    gc = {'b2bua_socket': spec}
    out = v.call(B2BSimpleAPI, gc)
    v.ensure('made', out.ok)
    api = out.value
    s = w.servs[-1]
    tcp = kind in ('tcp', 'tcpport')
    v.ensure('family', s.kind[0] == (socket.AF_INET if tcp else socket.AF_UNIX))
    v.ensure('bound-then-listening', [x[0] for x in s.log] == ['bind', 'listen'])
    b = s.log[0][1]
    if tcp:
        v.ensure('where', v.and_(v.eq(b[0], name), v.eq(b[1], port if kind == 'tcpport' else 12345)))
        v.ensure('no-files', len(w.log) == 0)
    else:
        v.ensure('where', v.eq(b, '/' + name))
        v.ensure('old-one-removed', len(w.log) == 1 and w.log[0][0] == 'remove' and v.eq(w.log[0][1], '/' + name))
    ac = w.threads[0]
    v.ensure('watching', sorted(ac.pollobj.fds) == [50, 60])
    want = []
    conns = [Conn() for i in range(3)]
    for i in range(3):
        ev = v.choice('ev%d' % i, ('conn', 'aborted', 'nothing'))
        if ev == 'nothing':
            w.polls.append(v.choice('none', ([], [(50, 8)])))
        else:
            w.polls.append([(50, 1)])
            s.accepts.append((conns[i], ('192.0.2.1', 7)) if ev == 'conn' else OSError(ECONNABORTED, 'aborted'))
            if ev == 'conn':
                want.append(conns[i])
    end = v.choice('end', ('wake', 'both', 'invalid', 'closed'))
    w.polls.append({'wake': [(60, 1)], 'both': [(50, 32), (60, 1)], 'invalid': [(50, 32)], 'closed': [(50, 1)]}[end])
    if end == 'closed':
        s.accepts.append(OSError(EBADF, 'closed'))
    w.absent = False
    if end != 'invalid':
        o = v.call(api.shutdown)
        v.ensure('shut-down', o.ok and s.closed == 1)
        v.ensure('woken', ('write', 61) in w.fds)
        if not tcp:
            v.ensure('no-file-left', len(w.log) == 2 and w.log[1][0] == 'remove' and v.eq(w.log[1][1], '/' + name))
    out = v.call(ac.run)
    v.ensure('ends', out.ok and len(w.polls) == 0)
    v.ensure('released', ('close', 60) in w.fds)
    v.ensure('handed-over', [p[0] for cb, p in sim.calls] == want)
    v.ensure('to-the-manager', all(cb.__name__ == 'handle_accept' for cb, p in sim.calls))


class Ua(object):
    rtps = None

    def __init__(self, log, who, state, addr):
        self.log, self.who, self.addr = log, who, addr
        self.state = type('St', (), {'sname': state})

    def getRAddr0(self):
        return self.addr

    def getCLD(self):
        return self.who + '-cld'

    def getCLI(self):
        return self.who + '-cli'

    def disconnect(self, *a, **k):
        self.log.append((self.who, a, k, self.rtps.media_timeout_index if self.rtps is not None else None))


class Rtps(object):
    media_timeout_index = None


class Call(object):
    def __init__(self, v, i, log):
        self.n, self.log = i, log
        self.id = v.int('id%d' % i, 0, 10**6)
        self.cId = v.str('cid%d' % i, 'token', 1)
        self.state = v.choice('state%d' % i, (CCStateWaitRoute, CCStateARComplete, CCStateConnected, CCStateDead)) if i == 0 else CCStateConnected
        self.proxied = v.flag('proxied%d' % i) if i == 0 else True
        self.rtp_proxy_session = Rtps() if i == 1 or v.flag('rtps') else None
        legs = v.choice('legs', ('both', 'caller', 'none')) if i == 0 and self.state is CCStateWaitRoute else 'both'
        self.uaA = Ua(log, 'A%d' % i, 'Ringing', (('192.0.2.1', 5060), 'udp')) if legs != 'none' else None
        self.uaO = Ua(log, 'O%d' % i, 'Connected', (('198.51.100.2', 5070), 'tcp')) if legs == 'both' else None
        if self.uaO is not None:
            self.uaO.rtps = self.rtp_proxy_session

    def disconnect(self, *a, **k):
        self.log.append((self.n, a, k))


class Clim(object):
    def __init__(self):
        self.text, self.closed = '', 0

    def send(self, x):
        self.text = self.text + x

    write = send

    def close(self):
        self.closed += 1


def calls(v):
    sim = Sim(v)
    log = []
    cs = [Call(v, i, log) for i in range(v.choice('n', (0, 1, 2)))]
    cm = CallMap.__new__(CallMap)
    cm.ccmap = cs
    api = B2BSimpleAPI.__new__(B2BSimpleAPI)
    api.global_config = {'_cmap': cm}
    return sim, log, cs, api, Clim()


@contract('C29', targets=[A + 'recvCommand', 'sippy/b2bua.py:CallMap.discAll'], bounded='up to two calls')
def cli_disconnect(v):
    """d <call-id> ends the calls that have that id, d * all of them, and no other command
    ends any"""
    sim, log, cs, api, cl = calls(v)
    what = v.choice('what', ('id', 'all', 'none', 'two', 'q', 'unknown'))
    x = v.str('x', 'token', 1)
    if what in ('id', 'two'):
        v.assume(v.not_(v.eq(x, '*')))
    cmd = {'id': 'd ' + x, 'all': 'd *', 'none': 'd', 'two': 'D ' + x + ' ' + x, 'q': 'q', 'unknown': 'x' + x}[what]
    out = v.call(api.recvCommand, cl, cmd)
    v.ensure('ok', out.ok)
    if what == 'id':
        for c in cs:
            done = [l for l in log if l[0] == c.n]
            v.ensure('those-with-the-id', v.iff(c.cId == x, len(done) == 1))
            v.ensure('once', len(done) <= 1)
        v.ensure('told', cl.text == 'OK\n' if len(log) > 0 else cl.text.startswith('ERROR'))
    elif what == 'all':
        v.ensure('all', [l[0] for l in log] == [c.n for c in cs])
        v.ensure('told', cl.text == 'OK\n')
    else:
        v.ensure('none', len(log) == 0)
        v.ensure('told', cl.text.startswith('ERROR') if what != 'q' else cl.text == '')
    v.ensure('closed', cl.closed == (1 if what == 'q' else 0))


@contract('C29', targets=[A + 'recvCommand'], bounded='up to two calls')
def cli_media_timeout(v):
    """r <id> [<media>] tells the call with that number, and no other, that its media have
    stopped a minute ago, and which"""
    sim, log, cs, api, cl = calls(v)
    i, m = v.int('i', 0, 10**6), v.int('m', 0, 9)
    withm = v.flag('withm')
    v.assume(v.not_(v.eq(cs[0].id, cs[1].id))) if len(cs) == 2 else None
    out = v.call(api.recvCommand, cl, 'r ' + str(i) + (' ' + str(m) if withm else ''))
    v.ensure('ok', out.ok)
    found = False
    for c in cs:
        cc = [l for l in log if l[0] == c.n]
        ua = [l for l in log if l[0] in ('A%d' % c.n, 'O%d' % c.n)]
        if len(cc) + len(ua) > 0:
            v.ensure('that-one', v.eq(c.id, i))
            v.ensure('proxied', c.proxied)
        s = c.state if c.proxied else None
        mine = v.eq(c.id, i)
        v.ensure('connected', v.iff(v.and_(mine, s is CCStateConnected), len(cc) == 1))
        v.ensure('setting-up', v.iff(v.and_(mine, s is CCStateARComplete), len(ua) == 1))
        v.ensure('once', len(cc) + len(ua) <= 1)
        want = m if withm else 0
        for l in cc:
            v.ensure('since', v.close(l[1][0].monot, sim.now - 60))
            v.ensure('why', l[2]['origin'] == 'media_timeout' and v.eq(l[2]['media_index'], want))
        for l in ua:
            v.ensure('callee', l[0] == 'O%d' % c.n and l[2]['origin'] == 'media_timeout')
            v.ensure('since', v.close(l[1][0].monot, sim.now - 60))
            if c.rtp_proxy_session is not None:
                v.ensure('which', v.and_(l[3] is not None, v.eq(c.rtp_proxy_session.media_timeout_index, want)))
                v.ensure('told-before', v.eq(l[3], want))
    none = v.and_(*[v.not_(v.eq(c.id, i)) for c in cs]) if cs else True
    v.ensure('told', v.iff(none, cl.text.startswith('ERROR')))
    v.ensure('stays', cl.closed == 0)


@contract('C29', targets=[A + 'recvCommand', 'sippy/b2bua.py:CallMap.listActiveCalls', 'sippy/b2bua.py:CallMap.getActiveCalls'], bounded='up to two calls')
def cli_list(v):
    """l tells each call once: its id, its state, and the state and the address of the other
    end of each leg"""
    sim, log, cs, api, cl = calls(v)
    out = v.call(api.recvCommand, cl, v.choice('cmd', ('l', 'L')))
    v.ensure('ok', out.ok)
    v.ensure('harmless', len(log) == 0 and cl.closed == 0)
    want = 'In-memory calls:\n'
    for c in cs:
        a = 'Ringing udp:192.0.2.1:5060 A%d-cld A%d-cli' % (c.n, c.n) if c.uaA is not None else 'N/A'
        o = 'Connected tcp:198.51.100.2:5070 O%d-cli O%d-cld' % (c.n, c.n) if c.uaO is not None else 'N/A'
        want = want + c.cId + ': ' + c.state.sname + ' (' + a + ' -> ' + o + ')\n'
    want = want + 'Total: %d\n' % len(cs)
    v.ensure('each-call', v.eq(cl.text, want))
    act = v.call(api.global_config['_cmap'].getActiveCalls)
    v.ensure('active', list(act.value) == [c for c in cs if c.state in (CCStateConnected, CCStateARComplete)])


class Tx(object):
    def __init__(self, method, state, rtime):
        self.method, self.state, self.rtime = method, state, rtime


class Tm(object):
    pass


@contract('C29', targets=[A + 'recvCommand'], bounded='one transaction of each kind')
def cli_transactions(v):
    """lt tells all the transactions, llt those that are a minute old"""
    sim, log, cs, api, cl = calls(v)
    tm = Tm()
    age = [v.real('age%d' % i, 0, 1000) for i in range(2)]
    tm.tserver = {('callid-a', '1', 'br'): Tx('INVITE', 'S0', sim.mt(0 - age[0]))} if v.flag('s') else {}
    tm.tclient = {('callid-b', '2', 'br'): Tx('BYE', 'S1', sim.mt(0 - age[1]))} if v.flag('c') else {}
    api.global_config['_sip_tm'] = tm
    long = v.flag('long')
    out = v.call(api.recvCommand, cl, 'llt' if long else 'lt')
    v.ensure('ok', out.ok)
    v.ensure('harmless', len(log) == 0 and cl.closed == 0)
    lines = cl.text.split('\n')
    for i, (d, who, method) in enumerate(((tm.tserver, 'callid-a', 'INVITE'), (tm.tclient, 'callid-b', 'BYE'))):
        n = len([l for l in lines if who in l and method in l])
        v.ensure('at-most-once', n <= 1)
        v.ensure('those', v.iff(v.and_(len(d) == 1, v.or_(not long, age[i] >= 60)), n == 1))
    v.ensure('sections', len([l for l in lines if l.startswith('In-memory')]) == 2)
