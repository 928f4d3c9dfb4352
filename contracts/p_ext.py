"""C26: queries to helper processes (the RADIUS client)"""
from errno import EINTR
from sippy.External_command import External_command, _Worker, Work_item
from sippy.Radius_client import Radius_client
from sippy.RadiusAuthorisation import RadiusAuthorisation
from pyvc.api import contract
from contracts.lib import Sim

X = 'sippy/External_command.py:'
R = 'sippy/Radius_client.py:Radius_client.'
A = 'sippy/RadiusAuthorisation.py:RadiusAuthorisation.'


class Cond(object):
    """a condition variable; while a worker waits (and at any moment it does not hold
    the lock) the other threads do what `env` says they do next"""
    env = None

    def __init__(self, *a):
        self.held = False
        self.notified = 0
        self.waits = 0

    def acquire(self, *a, **k):
        assert not self.held, 'deadlock'
        self.others()
        self.held = True
        return True

    def release(self):
        assert self.held, 'not held'
        self.held = False

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def wait(self, timeout=None):
        assert self.held, 'not held'
        self.waits += 1
        self.held = False
        self.others(True)
        self.held = True
        return True

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            self.wait()
        return True

    def notify(self, n=1):
        assert self.held, 'not held'
        self.notified += 1

    def notify_all(self):
        self.notify()

    def others(self, waiting=False):
        if self.env is not None:
            env, self.env = self.env, None
            env(waiting)
            self.env = env


class Pipe(object):
    """the helper process"""

    def __init__(self, world, command):
        self.w, self.command = world, command
        self.stdin = self.stdout = self.stderr = self
        self.got, self.buf, self.script = [], [], None
        self.killed = False
        self.dead = False
        self.reaped = False
        self.flushed = True

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def write(self, data):
        assert not self.killed
        self.w.busy()
        q = self.w.next_query(self) if self.script is None else self.script
        self.script = q
        if q.kind == 'wdie':
            self.dead = True
            raise BrokenPipeError(32, 'Broken pipe')
        self.buf.append(data)
        self.flushed = False

    def flush(self):
        if self.buf:
            self.got.append((self.script, self.buf))
            self.script.asked += 1
            self.out = [a.encode() + b'\n' for a in self.script.answer]
        self.buf = []
        self.flushed = True

    def close(self):
        pass

    def readline(self):
        assert self.flushed, 'deadlock'
        q = self.script
        self.w.busy()
        if q.kind == 'eintr' and not q.intr:
            q.intr = True
            raise InterruptedError(EINTR, 'Interrupted system call')
        if len(self.out) > 0:
            return self.out.pop(0)
        if q.kind == 'rdie':
            self.dead = True
            return b''
        self.script = None
        return b'\n'

    def poll(self):
        return 1 if self.dead else None

    def kill(self):
        self.killed = True

    terminate = kill

    def communicate(self, *a, **k):
        self.reaped = True
        return (b'', b'')

    def wait(self, *a, **k):
        self.reaped = True
        return 1


class Query(object):
    def __init__(self, n, kind, data, answer, par):
        self.n, self.kind, self.data, self.answer, self.par = n, kind, data, answer, par
        self.intr = False
        self.asked = 0
        self.results = []

    def cb(self, *a):
        self.results.append(a)


class World(object):
    def __init__(self, v):
        self.v = v
        self.pipes = []
        self.queue = []
        v.patch('sippy.External_command', 'Condition', Cond)
        v.patch('sippy.External_command', 'Popen', self.popen)
        self.started = []
        started = self.started
        v.patch(_Worker, 'start', lambda w: started.append(w))
        self.onbusy = None

    def popen(self, command, **k):
        self.v.ensure(not k.get('shell', False), 'no shell')
        p = Pipe(self, command)
        self.pipes.append(p)
        return p

    def busy(self):
        if self.onbusy is not None:
            self.onbusy()

    def next_query(self, pipe):
        return self.queue.pop(0)


KINDS = ('ok', 'cancelled', 'wdie', 'rdie', 'eintr')


def mkquery(v, n, kind, lines, answers):
    data = ['q%dl%d=' % (n, i) + v.str('q%dl%d' % (n, i), 'alnum', 0) for i in range(lines)]
    answer = [v.str('a%dl%d' % (n, i), 'alnum', 1) for i in range(answers)]
    return Query(n, kind, data, answer, v.token('par%d' % n))


@contract('C26', targets=[X + '_Worker.run', X + '_Worker.__init__', X + 'External_command.__init__', X + 'External_command.process_command',
                          X + 'External_command.shutdown', X + 'Work_item.__init__', X + 'Work_item.cancel', X + 'Work_item.is_cancelled'],
          bounded='two queries of up to two lines, with answers of up to two lines', path_time=120)
def ext_worker(v):
    """one worker, while the other threads queue queries, cancel them and take them away
    whenever the lock is free: every query the worker takes is written as its lines and an
    empty line to a helper that is alive, and the answer to it, as far as it came, is handed
    over once; a helper that has died is replaced; after a shutdown the worker ends, and
    so will the others"""
    sim = Sim(v)
    w = World(v)
    nworkers = 3
    master = External_command('helper', nworkers)
    v.ensure('as many workers as were asked for', len(w.started) == nworkers)
    worker = w.started[0]
    qs = []
    for n in range(2):
        kind = v.choice('kind%d' % n, KINDS)
        qs.append(mkquery(v, n, kind, 2 * n, v.choice('na', (0, 1, 2))))
    # what the others do: each of these happens at some time before the worker is done
    late = v.choice('late', (0, 1, 2))
    stolen = v.flag('stolen')
    todo = []
    handles = []

    def put(q):
        h = master.process_command(q.data, q.cb, q.par, q.n)
        handles.append(h)
        if q.kind == 'cancelled':
            h.cancel()
        else:
            w.queue.append(q)

    if stolen:
        # somebody else is woken up first
        todo.append(lambda: None)
    for q in qs:
        todo.append(lambda q=q: put(q))
    todo.append(master.shutdown)
    for i in range(2 - late):
        # queued before the worker gets to run
        todo.pop(0)()
    wa = master.work_available
    k0, ours = wa.notified, [0]

    def other():
        k = wa.notified
        todo.pop(0)()
        ours[0] += wa.notified - k

    def env(waiting):
        if waiting:
            assert len(todo) > 0, 'waits for ever'
            other()
    wa.env = env
    if v.flag('during'):
        # while the helper is busy
        w.onbusy = lambda: other() if len(todo) > 0 else None
    out = v.call(worker.run)
    v.ensure('the worker survives whatever happens to the helper', out.ok)
    if not out.ok:
        return
    v.ensure('the lock is released', not wa.held)
    while len(todo) > 0:
        other()
    v.ensure('the shutdown is passed on to the next worker', len(master.work) > 0 and None in master.work)
    v.ensure('which is woken up', wa.notified - k0 > ours[0])
    taken = [q for q in qs if q.kind != 'cancelled']
    asked = [(p, q, b) for p in w.pipes for q, b in p.got]
    got = [q for p, q, b in asked]
    v.ensure('every query is asked once', sorted(q.n for q in got) == [q.n for q in taken if q.kind != 'wdie'])
    for p, q, b in asked:
        want = b''.join([l.encode() + b'\n' for l in q.data]) + b'\n'
        v.ensure('the helper gets the lines of the query and an empty line', v.eq(b''.join(b), want))
    for p in w.pipes:
        v.ensure('the configured command is run', p.command == 'helper')
        if p.dead:
            v.ensure('nothing is asked of a helper that has died', len([1 for q, b in p.got if q.kind == 'rdie']) + (p.script is not None and p.script.kind == 'wdie') == 1)
            v.ensure('what is left of a helper that has died is collected', p.reaped)
    for h, q in zip(handles, qs):
        mine = [c for c in sim.calls if c[1][0] == q.cb]
        if q.kind == 'cancelled':
            v.ensure('a query cancelled before it was taken is not answered', len(mine) == 0)
            continue
        v.ensure('each query is answered once', len(mine) == 1)
        cb, par = mine[0]
        v.ensure('the answer goes to the master in the thread of the loop', cb == master.process_result)
        v.ensure('with what the query came with', len(par) == 4)
        v.ensure('with the parameters of the query', v.eq(par[2], q.par))
        v.ensure('with the parameters of the query', par[3] == q.n)
        want = [] if q.kind == 'wdie' else [a.encode() for a in q.answer]
        v.ensure('the answer is that to the query', v.eq(tuple(par[1]), tuple(want)))
    if len(taken) == 2:
        v.cover('two')
    if any(p.dead for p in w.pipes):
        v.cover('dead')


@contract('C26', targets=[X + 'External_command.process_result', X + 'External_command.process_command'])
def ext_result(v):
    """the callback gets the answer and the parameters of the query, once; what it raises
    goes no further, except the wish to exit"""
    sim = Sim(v)
    w = World(v)
    master = External_command('helper', 1)
    v.patch('sippy.External_command', 'dump_exception', lambda *a, **k: None)
    got = []
    what = v.choice('raises', (None, ValueError, KeyError, AssertionError, SystemExit))
    par = [v.token('p%d' % i) for i in range(v.choice('npar', (0, 1, 2)))]
    res = v.token('res')

    def cb(*a):
        got.append(a)
        if what is not None:
            raise what('oops')
    for i in range(v.choice('waiting', (0, 1, 2, 100))):
        master.process_command(('x',), None)
    before = list(master.work)
    n0, k0 = len(before), master.work_available.notified
    h = v.call(master.process_command, ['a', 'b'], cb, *par)
    v.ensure('the query is queued after the others, and can be cancelled', h.ok and len(master.work) == n0 + 1 and master.work[-1] is h.value and
             all(a is b for a, b in zip(before, master.work)))
    v.ensure('a worker is woken up', not master.work_available.held and master.work_available.notified > k0)
    out = v.call(master.process_result, cb, res, *par)
    v.ensure('the callback is called once', len(got) == 1)
    v.ensure('with its parameters', len(got[0]) == 1 + len(par))
    v.ensure('with the answer and its parameters', v.eq(tuple(got[0]), tuple([res] + par)))
    if what is SystemExit:
        v.ensure('the wish to exit is honoured', out.raised(SystemExit))
    else:
        v.ensure('other exceptions go no further', out.ok)


class Conf(dict):
    def getdefault(self, k, d):
        return self.get(k, d)


class Log(object):
    def __init__(self):
        self.log = []

    def write(self, *a, **k):
        self.log.append((a, k))


NAMES = ('User-Name', 'Calling-Station-Id', 'call-id', 'h323-session-protocol', 'h323-ivr-out', 'h323-incoming-conf-id', 'release-source',
         'alert-timepoint', 'provisional-timepoint', 'h323-remote-address', 'h323-conf-id', 'h323-setup-time', 'h323-call-origin',
         'h323-call-type', 'h323-connect-time', 'h323-disconnect-time', 'h323-disconnect-cause', 'h323-voice-quality',
         'h323-credit-time', 'h323-return-code', 'h323-redirect-number', 'h323-preferred-lang', 'h323-billing-model', 'h323-currency')
AVP = NAMES[2:9]
VSA = NAMES[9:]


def told(name, value):
    """how RADIUS wants an attribute to be written"""
    if name in AVP:
        return 'Cisco-AVPair="' + name + '=' + value + '"'
    if name in VSA:
        return name + '="' + name + '=' + value + '"'
    return name + '="' + value + '"'


def oneline(s):
    return s.replace('\r', ' ').replace('\n', ' ').replace('"', "'")


def client(v, cls=Radius_client, **conf):
    w = World(v)
    c = Conf(_sip_logger=Log(), **conf)
    return cls(c), w, c


@contract('C26', targets=[R + '_prepare_attributes', R + 'do_auth', R + 'do_acct', R + '__init__'])
def rad_ask(v):
    """each attribute is one line of the query, in order, with the prefix RADIUS wants"""
    conf = {}
    if v.flag('conf'):
        conf['radiusclient.conf'] = '/etc/rc.conf'
    if v.flag('cmd'):
        conf['radiusclient'] = '/bin/rc'
    n = v.choice('n', (1, 20))
    conf['max_radiusclients'] = n
    rc, w, c = client(v, **conf)
    v.ensure('as many workers as configured', len(w.started) == n)
    cmd = conf.get('radiusclient', '/usr/local/sbin/radiusclient')
    for x in w.started:
        v.ensure('the client as configured', tuple(x.command) == ((cmd, '-f', '/etc/rc.conf', '-s') if 'radiusclient.conf' in conf else (cmd, '-s')))
    name = v.choice('name', NAMES)
    val = v.str('val1', 'text', no='"') + v.choice('sep1', ('', '\r\n', '\n')) + v.str('val2', 'text', no='"') + v.choice('sep2', ('', '\r', '"', '",User-Name="'))
    kind = v.choice('kind', ('str', 'int'))
    if kind == 'int':
        val = v.int('ival', 0, 9999)
    attrs = [(name, val), ('User-Name', v.str('user', 'text', no='"'))]
    what = v.choice('what', ('AUTH', 'ACCT'))
    cb = v.choice('cb', (None, print))
    f = rc.do_auth if what == 'AUTH' else rc.do_acct
    out = v.call(f, attrs, cb, 7)
    v.ensure('the query is taken', out.ok)
    v.ensure('as one query', len(rc.work) == 1)
    wi = rc.work[0]
    if what == 'AUTH':
        v.ensure('which can be cancelled', out.value is wi)
    v.ensure('with its callback', wi.result_callback is cb and tuple(wi.callback_parameters) == (7,))
    v.ensure('one line for the kind of query and one for each attribute', len(wi.data) == 3)
    v.ensure('the kind of query comes first', v.eq(wi.data[0], what))
    v.ensure('the attribute as RADIUS wants it', v.eq(wi.data[1], told(name, oneline(str(val)))))
    v.ensure('the attributes in order', v.eq(wi.data[2], told('User-Name', oneline(attrs[1][1]))))


@contract('C26', targets=[R + 'process_result'], bounded='up to two attributes')
def rad_answer(v):
    """the callback gets the attributes of the answer, in order and without prefixes, and
    the result; nonsense is a failure; nobody is told when nobody asked"""
    rc, w, c = client(v)
    got = []
    cb = (lambda *a: got.append(a)) if v.flag('cb') else None
    bad = v.choice('bad', (None, 'empty', 'noeq', 'nocode', 'utf8'))
    n = v.choice('n', (0, 1, 2))
    lines, want = [], []
    for i in range(n):
        name = v.choice('name%d' % i, ('Reply-Message', 'h323-return-code', 'h323-credit-time', 'Cisco-AVPair'))
        val = v.str('val%d' % i, 'text', 1, no="'=")
        prefix = v.choice('prefix%d' % i, (None, 'own', 'other'))
        t = val
        wn, wv = name, val
        if prefix == 'own':
            t = name + '=' + val
        elif prefix == 'other':
            t = 'h323-ivr-in=' + val
            if name == 'Reply-Message':
                wv = t
            else:
                wn = 'h323-ivr-in'
        more = v.flag('more')
        if more:
            t, wv = t + ' = x=y', wv + ' = x=y'
            if prefix is None and name != 'Reply-Message':
                wn, wv = val + ' ', ' x=y'
        lines.append((name + " = '" + t + "'").encode())
        want.append((wn, wv))
    code = v.choice('code', (0, 1, -1, 2))
    lines.append(str(code).encode())
    if bad == 'empty':
        lines = []
    elif bad == 'noeq':
        lines.insert(0, b'garbage')
    elif bad == 'nocode':
        lines[-1] = v.str('nc', 'text', 1, no="'").encode()
        lines[-1] = b'x' + lines[-1]
    elif bad == 'utf8':
        lines.insert(0, b'Reply-Message = \'\xff\xfe\'')
    out = v.call(rc.process_result, cb, tuple(lines), 'p1', 'p2')
    v.ensure('no answer is too strange', out.ok)
    if cb is None:
        v.ensure('nobody asked', len(got) == 0)
        return
    v.ensure('the callback is called once', len(got) == 1)
    res, p1, p2 = got[0]
    v.ensure('with its parameters', (p1, p2) == ('p1', 'p2'))
    if bad is not None:
        v.ensure('a malformed answer is a failure', tuple(res[0]) == () and res[1] not in (0, 1))
        return
    v.ensure('the result is that of the server', res[1] == code)
    v.ensure('all the attributes', len(res[0]) == len(want))
    for (a, b), (x, y) in zip(res[0], want):
        v.ensure('the name of the attribute', v.eq(a, x))
        v.ensure('the value of the attribute', v.eq(b, y))


@contract('C26', targets=[A + 'do_auth', A + '_process_result'])
def rad_auth(v):
    """an authorisation request tells who calls whom, from where and with which
    credentials; its answer is handed on as it came"""
    sim = Sim(v)
    v.patch('sippy.RadiusAuthorisation', 'time', lambda: sim.now)
    rc, w, c = client(v, RadiusAuthorisation)
    got = []
    user = v.str('user', 'alnum', 1)
    caller = v.opt('caller', lambda: v.str('cli', 'alnum', 0))
    callee = v.str('cld', 'alnum', 1)
    cid = v.str('cid', 'alnum', 1)
    ip = '192.0.2.7'
    dig = {}
    for k in ('realm', 'nonce', 'uri', 'response'):
        dig[k] = v.str(k, 'alnum', 0) if v.flag('has_' + k) else None
    extra = v.opt('extra', lambda: (('h323-ivr-out', 'x:' + v.str('xv', 'alnum', 0)), ('NAS-Port', 5)))
    out = v.call(rc.do_auth, user, caller, callee, cid, ip, got.append, dig['realm'], dig['nonce'], dig['uri'], dig['response'], extra)
    v.ensure('the request is sent', out.ok)
    v.ensure('once', len(rc.work) == 1)
    wi = rc.work[0]
    if all(x is not None for x in dig.values()):
        want = [('User-Name', user), ('Digest-Realm', dig['realm']), ('Digest-Nonce', dig['nonce']), ('Digest-Method', 'INVITE'),
                ('Digest-URI', dig['uri']), ('Digest-Algorithm', 'MD5'), ('Digest-User-Name', user), ('Digest-Response', dig['response'])]
        v.cover('digest')
    else:
        want = [('User-Name', ip), ('Password', 'cisco')]
    want += [('Calling-Station-Id', caller if caller is not None else ''), ('Called-Station-Id', callee), ('call-id', cid),
             ('h323-remote-address', ip), ('h323-session-protocol', 'sipv2')]
    want += [(a, str(b)) for a, b in extra] if extra is not None else []
    have = list(wi.data)
    v.ensure('with these attributes and no others', len(have) == len(want) + 1)
    v.ensure('asks for authorisation', v.eq(have[0], 'AUTH'))
    todo = [told(a, b) for a, b in want]
    order = v.choice('i', range(16))
    if order < len(todo):
        v.ensure('the attributes are those of the call', v.eq(have[1 + order], todo[order]))
    n = v.choice('nattr', (0, 2))
    code = v.choice('code', (0, 1, -1, 2))
    res = (tuple(('A%d' % i, v.str('r%d' % i, 'alnum', 0)) for i in range(n)), code)
    sim.advance(v.real('delay', 0, 100))
    o = v.call(wi.result_callback, res, *wi.callback_parameters)
    v.ensure('the answer is handled', o.ok)
    v.ensure('and handed on once', len(got) == 1)
    v.ensure('as it came', got[0] is res or tuple(got[0]) == res)
