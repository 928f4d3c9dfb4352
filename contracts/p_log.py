"""C32: the SIP log, signals"""
import signal as _signal
from time import localtime, strftime
from errno import ENOTSUP, EIO, ENOSPC
from pyvc.api import contract
from sippy import SipLogger as M
from sippy.SipLogger import SipLogger, AsyncLogger, AsyncLoggerSyslog, SIPLOG_DBUG, SIPLOG_INFO, SIPLOG_WARN, SIPLOG_ERR, SIPLOG_CRIT
from sippy.Signal import Signal, LogSignal
from contracts.lib import Sim
from contracts.p_ext import Cond

L = 'sippy/SipLogger.py:'
S = 'sippy/Signal.py:'


class FFile(object):
    """a file opened for appending"""

    def __init__(self, w, name, mode):
        assert mode[:1] == 'a'
        self.w, self.name = w, name
        self.data, self.buf, self.locked = [], [], 0

    def write(self, s):
        assert self.locked == 1 or self.w.nolocks
        self.buf.append(s)

    def flush(self):
        e = self.w.fails.pop(0) if self.w.fails else None
        if e is not None:
            self.buf = []
            raise e
        self.data += self.buf
        self.buf = []

    def close(self):
        pass


class FOs(object):
    def __init__(self, env):
        self.environ = env


class World(object):
    def __init__(self, v, env=None, locks=None):
        self.v, self.files, self.fails, self.lockfails = v, [], [], []
        self.nolocks = False
        self.conds, self.handlers, self.started = [], {}, []
        self.now = 1500000000.125
        v.patch('sippy.SipLogger', 'open', self.open)
        v.patch('sippy.SipLogger', 'flock', self.flock)
        v.patch('sippy.SipLogger', 'Condition', self.cond)
        v.patch('sippy.SipLogger', 'time', lambda: self.now)
        e = {'SIPLOG_BEND': 'file', 'SIPLOG_TFORM': 'rel', 'SIPLOG_TSTART': '1500000000'}
        e.update(env or {})
        v.patch('sippy.SipLogger', 'os', FOs({k: x for k, x in e.items() if x is not None}))
        v.patch('sippy.Signal', 'signal', self.signal)
        v.patch('sippy.Signal', 'dump_exception', lambda *a, **k: None)
        v.patch(AsyncLogger, 'start', lambda x: self.start(x))
        v.patch(AsyncLogger, 'join', lambda x: self.join())
        self.run_in_join = True

    def start(self, t):
        # a thread may run as soon as it is started: until it first waits
        self.started.append(t)

        class Waits(BaseException):
            pass

        def env(waiting):
            if waiting:
                raise Waits()
        self.conds[0].env = env
        try:
            t.run()
        except Waits:
            self.conds[0].held = False
        t.__dict__.pop('log', None)
        self.at_start, self.files = self.files, []
        self.conds[0].env = self.stuck

    def stuck(self, waiting):
        if waiting:
            self.v.ensure('never-stuck', False)
            raise RuntimeError('waits for ever')

    def join(self):
        # the writer runs when it is waited for, unless it is the one running
        if self.run_in_join:
            self.out = self.v.call(self.started[0].run)

    def cond(self, *a):
        c = Cond()
        self.conds.append(c)
        return c

    def open(self, name, mode='r'):
        f = FFile(self, name, mode)
        if self.fails and self.fails[0] == 'first':
            self.fails.pop(0)
        elif self.fails and self.fails[0] == 'open':
            self.fails.pop(0)
            raise OSError(EIO, 'x')
        self.files.append(f)
        return f

    def flock(self, f, how):
        if not isinstance(f, FFile):
            raise TypeError('no file')
        if how == M.LOCK_EX:
            e = self.lockfails.pop(0) if self.lockfails else None
            if e is not None:
                self.nolocks = e.args[0] == ENOTSUP
                raise e
            f.locked += 1
        else:
            f.locked -= 1

    def signal(self, n, h):
        old = self.handlers.get(n, _signal.SIG_DFL)
        self.handlers[n] = h
        return old

    def text(self, i=0):
        r = ''
        for x in self.files[i].data:
            r = r + x
        return r


def line(text, call='GLOBAL', app='/app', when='00:00:00.125'):
    return '%s/%s%s: %s\n' % (when, call, app, text)


@contract('C32', targets=[L + 'AsyncLogger.run', L + 'AsyncLogger.do_write', L + 'AsyncLogger.safe_open', L + 'AsyncLogger.shutdown', L + 'AsyncLogger.closelog',
                          L + 'SipLogger.write_logfile', L + 'SipLogger.reopen', L + 'SipLogger.shutdown', L + 'SipLogger.__init__'], bounded='three messages')
def log_written(v):
    """what is logged is in the file once and in order when the log is shut down, whenever it is
    logged; after a reopening it goes into the file that is there then"""
    sim = Sim(v)
    w = World(v, {'SIPLOG_LOGFILE_FILE': '/the/log'} if v.flag('by-environment') else {})
    log = SipLogger('app', logfile='/the/log')
    log.wi.clear()
    t = w.started[0]
    v.ensure('one-writer', len(w.started) == 1 and [f.name for f in w.at_start] == ['/the/log'])
    texts = ['x' + v.str('m%d' % i, 'text') for i in range(3)]

    def logger(i, x):
        def f():
            w.now = 1500000000.125 + i
            log.write(x)
            w.now += 100
        return f
    steps = [logger(i, x) for i, x in enumerate(texts)]
    lines = [line(x, when='00:00:0%d.125' % i) for i, x in enumerate(texts)]
    rot = v.choice('rotate', [None, 0, 1, 2, 3])
    if rot is not None:
        steps.insert(rot, log.reopen)
    w.run_in_join = False

    def end():
        # the thread that shuts the log down waits for the writer, and goes on after it
        log.shutdown()
        t.master = log
    steps.append(end)
    cond = w.conds[0]
    n = [0]

    def env(waiting):
        n[0] += 1
        if not steps:
            w.stuck(waiting)
        while steps and (waiting or n[0] > 4 or v.flag('now%d-%d' % (n[0], len(steps)))):
            k, last = cond.notified, len(steps) == 1
            steps.pop(0)()
            v.ensure('woken', cond.notified > k)
            if waiting:
                break
    cond.env = env
    out = v.call(t.run)
    v.ensure('ends', out.ok and steps == [])
    v.ensure('file', all(f.name == '/the/log' for f in w.files) and len(w.files) == (1 if rot is None else 2))
    v.ensure('all-in-order', v.eq(w.text(0), ''.join(lines if rot is None else lines[:rot])))
    if rot is not None:
        v.ensure('all-in-order', v.eq(w.text(1), ''.join(lines[rot:])))
    v.ensure('unlocked', all(f.locked == 0 for f in w.files))
    v.ensure('over', log.logger is None)
    o = v.call(log.shutdown)
    v.ensure('twice-is-no-error', o.ok)
    v.cover('written')


@contract('C32', targets=[L + 'AsyncLogger.run', L + 'AsyncLogger.do_write', L + 'AsyncLogger.safe_open'], bounded='three messages')
def log_errors(v):
    """a message that cannot be written is the only one lost; file systems without locks do"""
    sim = Sim(v)
    w = World(v)
    log = SipLogger('app')
    log.wi.clear()
    what = v.choice('what', ['no-locks', 'lock', 'write', 'open', 'reopen'])
    at = v.choice('at', [0, 1, 2])
    if what == 'no-locks':
        w.lockfails = [OSError(ENOTSUP, 'x')] * 3
    elif what == 'lock':
        w.lockfails = [None] * at + [OSError(EIO, 'x')]
    elif what == 'write':
        w.fails = [None] * at + [OSError(ENOSPC, 'x')]
    elif what == 'open':
        w.fails = ['open']
    texts = ['x' + v.str('m%d' % i, 'text') for i in range(3)]
    for i, x in enumerate(texts):
        if what == 'reopen' and i == at:
            log.reopen()
            w.fails = ['first'] + [None] * at + ['open']
        log.write(x)
    log.shutdown()
    v.ensure('goes-on', w.out.ok)
    v.ensure('unlocked', all(f.locked == 0 for f in w.files))
    lost = {'no-locks': None, 'lock': at, 'write': at, 'open': 0, 'reopen': None}[what]
    got = ''
    for i in range(len(w.files)):
        got = got + w.text(i)
    v.ensure('others-written', v.eq(got, ''.join([line(x) for i, x in enumerate(texts) if i != lost])))
    v.cover(what)


@contract('C32', targets=[L + 'SipLogger.write_logfile'])
def log_behind(v):
    """when the disk does not keep up the latest messages are kept, and every reopening"""
    sim = Sim(v)
    w = World(v)
    log = SipLogger('app')
    log.wi.clear()
    k = v.choice('queued', [999, 1000, 1001, 1002, 1010])
    at = v.choice('reopen', [None, 0, 1, 5, 500])
    for i in range(k):
        if i == at:
            log.reopen()
        log.write('m%d' % i)
    log.write('last')
    log.shutdown()
    v.ensure('ends', w.out.ok)
    v.ensure('reopening-kept', len(w.files) == (1 if at is None else 2))
    msgs = [x[x.index(': ') + 2:-1] for f in w.files for x in f.data]
    v.ensure('newest-kept', msgs == ['m%d' % i for i in range(k - len(msgs) + 1, k)] + ['last'] and len(msgs) >= min(k, 999) + 1)
    v.ensure('bounded', len(msgs) <= 1002)
    new = w.files[-1].data
    v.ensure('after-it-in-the-new-one', at is None or len(new) == min(k - at + 1, len(msgs)))
    v.cover('behind')


@contract('C32', targets=[L + 'SipLogger.__init__', L + 'SipLogger.format', L + 'SipLogger.ftime', L + 'SipLogger.write_stderr', L + 'SipLogger.donoting', L + 'AsyncLoggerSyslog'])
def log_lines(v):
    """what is told of each message, and which ones are told at all"""
    sim = Sim(v)
    lv = v.choice('level', ['DBUG', 'WARN', 'CRIT', None])
    bend = v.choice('bend', ['stderr', 'none', 'file', 'syslog'])
    env = {'SIPLOG_BEND': bend}
    if lv is not None:
        env['SIPLOG_LVL'] = lv
    clock = v.choice('clock', ['since', 'since-now', 'of-day']) if bend in ('stderr', 'file') and lv is None else 'since'
    if clock != 'since':
        env['SIPLOG_TSTART'] = None
    if clock == 'of-day':
        env['SIPLOG_TFORM'] = v.choice('form', [None, 'abs'])
    w = World(v, env)
    w.now = 1500000000
    told = []

    class Err(object):
        def write(self, s):
            told.append(s)

    class Sys(object):
        __stderr__ = Err()
    v.patch('sippy.SipLogger', 'sys', Sys)

    class Syslog(object):
        LOG_NOTICE, LOG_PID = 5, 1

        def openlog(self, ident, *a):
            self.ident = ident

        def closelog(self):
            self.ident = None

        def syslog(self, prio, s):
            assert self.ident == 'app'
            told.append(s)
    slog = Syslog()
    v.patch('sippy.SipLogger', 'syslog', slog)
    log = SipLogger('app', call_id='the-call')
    if bend == 'file':
        log.wi.clear()
    kw = {}
    ml = v.choice('mlevel', [None, SIPLOG_DBUG, SIPLOG_INFO, SIPLOG_WARN, SIPLOG_ERR, SIPLOG_CRIT])
    if ml is not None:
        kw['level'] = ml
    how = v.choice('how', ['plain', 'call', 'time', 'pid', 'all']) if lv == 'DBUG' and ml != SIPLOG_DBUG else 'plain'
    cid = None
    if how in ('call', 'all'):
        cid = kw['call_id'] = 'c' + v.str('ci', 'alnum')
    s = v.choice('seconds', [0, 59, 60, 3599, 3600, 3661, 86399, 360000]) if bend == 'stderr' and lv == 'DBUG' and ml is None else 3723
    ms = v.choice('eighths', [0, 1, 7, 7.9969]) if how != 'plain' else 1
    if how in ('time', 'all'):
        kw['ltime'] = 1500000000 + s + ms / 8
    else:
        w.now = 1500000000 + s + ms / 8
    if how in ('pid', 'all'):
        log.pid = 77
    a, b = 'x' + v.str('a', 'text'), v.int('b', 0, 999)
    log.write(a, ' ', b, **kw)
    got = told
    if bend in ('file', 'syslog'):
        log.shutdown()
        v.ensure('ends', w.out.ok and (bend == 'file' or slog.ident is None))
        if bend == 'file':
            got = w.files[0].data
    order = ['DBUG', 'INFO', 'WARN', 'ERR', 'CRIT']
    shown = bend != 'none' and (1 if ml is None else ml) >= order.index(lv or 'INFO')
    v.ensure('level', len(got) == (1 if shown else 0))
    if not shown:
        v.cover('not shown')
        return
    h, m, sec = s // 3600, s // 60 % 60, s % 60
    when = '%.2d:%.2d:%.2d.%.3d' % (h, m, sec, {0: 0, 1: 125, 7: 875}.get(ms, 999))
    if clock == 'of-day':
        when = strftime('%d %b %H:%M:%S', localtime(1500000000 + s)) + when[-4:]
    want = '%s/%s%s%s: %s %d\n' % (when, cid if cid is not None else 'the-call', '' if bend == 'syslog' else '/app', '[77]' if log.pid is not None else '', a, b)
    v.ensure('line', v.eq(got[0], want))
    v.cover('shown ' + bend)


@contract('C32', targets=[S + 'Signal', S + 'log_signal', S + 'LogSignal', L + 'SipLogger.reopen', L + 'SipLogger.shutdown'])
def log_signals(v):
    """a signal is handled in the main thread, by every handler there is, whatever the others do;
    a cancelled handler hears nothing"""
    sim = Sim(v)
    w = World(v)
    heard = []

    def handler(name, bad):
        def f(*a):
            heard.append((name, a))
            if bad:
                raise ValueError('x')
        return f
    n = v.int('signum', 1, 31)
    v.assume(n != _signal.SIGUSR1)
    prev = v.choice('prev', [_signal.SIG_DFL, _signal.SIG_IGN, 'mine', 'bad'])
    if prev in ('mine', 'bad'):
        w.handlers[n] = handler('prev', prev == 'bad')
    else:
        w.handlers[n] = prev
    par = (1, v.token('par'))
    bad = v.flag('bad')
    if v.flag('logged'):
        log = SipLogger('app')
        s = LogSignal(log, n, handler('first', bad), *par)
    else:
        s = Signal(n, handler('first', bad), *par)
    two = v.flag('two')
    if two:
        s2 = Signal(n, handler('second', v.flag('bad2')), 'p')
    out = v.call(w.handlers[n], n, None)
    v.ensure('no-failure', out.ok)
    v.ensure('not-in-the-handler', [x[0] for x in heard] == (['prev'] if prev in ('mine', 'bad') else []))
    for cb, p in sim.calls:
        o = v.call(cb, *p)
        v.ensure('contained', o.ok)
    names = [x[0] for x in heard]
    v.ensure('all-told', names.count('first') == 1 and names.count('second') == (1 if two else 0) and names.count('prev') == (1 if prev in ('mine', 'bad') else 0))
    v.ensure('parameters', v.eq([x[1] for x in heard if x[0] == 'first'], [par]))
    del sim.calls[:]
    if v.flag('pending'):
        # cancelled after the signal, before it is acted upon
        v.call(w.handlers[n], n, None)
    k = len(heard)
    if two:
        s2.cancel()
    v.ensure('restored', not two or w.handlers[n] == s.signal_handler)
    s.cancel()
    if prev in ('mine', 'bad'):
        v.call(w.handlers[n], n, None)
    else:
        v.ensure('restored', w.handlers[n] == prev)
    for cb, p in sim.calls:
        cb(*p)
    v.ensure('silent', [x[0] for x in heard[k:]] == (['prev'] if prev in ('mine', 'bad') else []))
    v.cover('signal')


@contract('C32', targets=[L + 'SipLogger.__init__', L + 'SipLogger.reopen', L + 'SipLogger.shutdown'])
def log_rotation(v):
    """SIGUSR1 reopens the log, until it is shut down"""
    sim = Sim(v)
    w = World(v)
    log = SipLogger('app', logfile='/the/log')
    h = w.handlers[_signal.SIGUSR1]
    log.wi.clear()
    log.write('one')
    h(_signal.SIGUSR1, None)
    later = v.flag('later')
    if later:
        log.write('two')
    for cb, p in sim.calls:
        cb(*p)
    log.write('three')
    log.shutdown()
    v.ensure('handler-gone', w.handlers[_signal.SIGUSR1] == _signal.SIG_DFL)
    v.ensure('ends', w.out.ok)
    v.ensure('reopened', len(w.files) == 2)
    v.ensure('new-file', w.text(1).endswith(line('three')) and w.text(0).count('three') == 0)
    v.ensure('nothing-lost', (w.text(0) + w.text(1)).count('one') == 1 and (w.text(0) + w.text(1)).count('two') == (1 if later else 0))
    v.cover('rotated')
