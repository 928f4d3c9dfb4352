"""C20: the event dispatcher"""
from _thread import get_ident
from queue import Queue
from sippy.Core.EventDispatcher import EventDispatcher2, EventListener
from sippy.Time import Timeout as timeout_mod
from sippy.Time.Timeout import Timeout, TimeoutInact, TimeoutAbsMono
from sippy.Time.MonoTime import MonoTime
from pyvc.api import contract
from contracts.lib import Sim, Rec

M = 'sippy/Core/EventDispatcher.py:'
ED = [M + 'EventDispatcher2.dispatchTimers', M + 'EventDispatcher2.loop', M + 'EventDispatcher2.regTimer', M + 'EventListener.go',
      M + 'EventListener.cancel', M + 'EventListener.cleanup', 'sippy/Time/MonoTime.py:MonoTime.__init__']


class Boom(Exception):
    pass


class Elp(object):
    """the periodic waiter: lets time pass, runs what other threads have handed over"""

    def __init__(self, freq):
        self.freq, self.waits, self.calls, self.log = freq, [], [], []

    def CFT_enable(self, sig):
        self.log.append(('cft', sig))

    def addband(self, f):
        self.log.append(('add', f))
        return 10 + len(self.log)

    def useband(self, n):
        self.log.append(('use', n))

    def call_from_thread(self, f, *a):
        self.calls.append((f, a))

    def procrastinate(self):
        for f, a in self.calls:
            f(*a)
        del self.calls[:]
        self.waits.pop(0)()


def mked(v):
    sim = Sim(v)
    v.patch(EventDispatcher2, 'ed_inum', 0)
    v.patch('sippy.Core.EventDispatcher', 'ElPeriodic', Elp)
    v.patch('sippy.Core.EventDispatcher', 'dump_exception', Rec())
    ed = object.__new__(EventDispatcher2)
    ed.__init__()
    v.patch(timeout_mod, 'ED2', ed)
    return sim, ed


class T(object):
    """a timer and what is to be expected of it"""

    def __init__(self, w, name, n):
        self.w, self.name, self.n, self.ran, self.due, self.el, self.gone, self.todo = w, name, n, 0, None, None, False, None
        self.ival = None

    def __call__(self, *params):
        w = self.w
        w.v.ensure('never-once-cancelled', not self.gone)
        w.v.ensure('parameters', list(params) == [self.name, 'p'])
        w.v.ensure('number-of-times', self.n == -1 or self.ran < self.n)
        w.v.ensure('never-early', w.v.implies(True, w.sim.now >= self.due))
        if w.last is not None:
            w.v.ensure('due-order', w.last <= self.due)
        w.last = self.due
        self.ran += 1
        w.runs.append((self.name, self.due))
        if self.ran == self.n:
            self.gone_soon = True
        self.due = self.due + self.ival if self.ival is not None else None
        if self.todo is not None:
            t, self.todo = self.todo, None
            t()

    def cancel(self):
        self.el.cancel()
        self.gone = True

    def over(self):
        return self.gone or self.ran == self.n


class W(object):
    def __init__(self, v, sim, ed):
        self.v, self.sim, self.ed, self.runs, self.last = v, sim, ed, [], None

    def timer(self, name, n, ival, absolute=False):
        t = T(self, name, n)
        if absolute:
            t.due = self.sim.now + ival
            t.el = TimeoutAbsMono(t, self.sim.mt(ival), name, 'p')
        else:
            t.due = self.sim.now + ival
            t.ival = ival
            t.el = Timeout(t, ival, n, name, 'p')
        return t

    def settle(self, ts):
        """after a round nothing that is due is left"""
        for t in ts:
            if not t.over():
                self.v.ensure('all-that-is-due', self.sim.now < t.due)
        self.last = None


@contract('C20', targets=ED + ['sippy/Time/Timeout.py:Timeout', 'sippy/Time/Timeout.py:TimeoutAbsMono'], bounded='three timers, two rounds')
def timer_order(v):
    """one-shot timers run once, in the order of their times, none early, none late; whatever one of them does to another"""
    sim, ed = mked(v)
    w = W(v, sim, ed)
    act = v.choice('action', [None, 'cancel-other', 'cancel-self', 'raise', 'new', 'cancel-new', 'again'])
    kinds = v.choice('absolute', [(False, False, False), (True, False, True)]) if act is None else (False, True, False)
    ts = [w.timer('t%d' % i, 1, v.real('ival%d' % i, 0, 100), kinds[i]) for i in range(3)]
    a, b = ts[0], ts[1]

    def todo():
        if act == 'cancel-other':
            if not b.over():
                b.cancel()
            else:
                b.el.cancel()
        elif act == 'cancel-self':
            a.cancel()
        elif act == 'raise':
            raise Boom('x')
        elif act == 'new':
            ts.append(w.timer('n', 1, v.real('ival3', 0, 100)))
        elif act == 'cancel-new':
            n = w.timer('n', 1, v.real('ival3', 0, 100))
            n.cancel()
            ts.append(n)
        elif act == 'again':
            a.el.cancel()
            a.el.cancel()
    if act:
        a.todo = todo
    if act in (None, 'cancel-other', 'raise') and v.flag('cancelled-first'):
        b.cancel()

    def wait():
        w.settle(ts)
        sim.advance(v.real('dt', 0, 200))

    def stop():
        w.settle(ts)
        sim.advance(300)

    def last():
        w.settle(ts)
        ed.breakLoop(5)
    ed.elp.waits = [wait, stop, stop, last]
    sim.advance(v.real('dt0', 0, 50))
    r = v.call(ed.loop)
    v.ensure('loop-goes-on', r.ok and r.value == 5)
    for t in ts:
        v.ensure('exactly-once', t.ran == (0 if t.gone and t.ran == 0 else 1))
    v.ensure('told', len(v_dump(v)) == (1 if act == 'raise' else 0) if a.ran else True)
    v.cover(str(act))


def v_dump(v):
    import sippy.Core.EventDispatcher as m
    return m.dump_exception.calls


@contract('C20', targets=ED, bounded='a repeating timer and another, three rounds')
def timer_periodic(v):
    """a repeating timer runs once per period, the number of times asked for"""
    sim, ed = mked(v)
    w = W(v, sim, ed)
    n = v.choice('times', [2, 3, -1])
    a = w.timer('a', n, v.real('ival', 1, 10))
    b = w.timer('b', 1, v.real('other', 0, 20))
    act = v.choice('action', [None, 'cancel-self', 'cancelled', 'raise', 'new'])
    ts = [a, b]

    def todo():
        if act == 'cancel-self':
            a.cancel()
        elif act == 'raise':
            raise Boom()
        elif act == 'new':
            ts.append(w.timer('n', 1, v.real('ival3', 1, 10)))
    if act == 'cancelled':
        b.todo = lambda: a.gone or a.cancel()
    elif act:
        a.todo = todo

    def wait(i):
        def f():
            w.settle(ts)
            sim.advance(v.real('dt%d' % i, 0, 12))
        return f

    def last():
        w.settle(ts)
        ed.breakLoop()
    ed.elp.waits = [wait(0), wait(1), last]
    v.assume(v.real('dt0', 0, 12) + v.real('dt1', 0, 12) <= 3 * v.real('ival', 1, 10))
    r = v.call(ed.loop)
    v.ensure('loop-goes-on', r.ok and r.value == 0)
    # times and number of runs
    k = 0
    for nm, due in w.runs:
        if nm == 'a':
            k += 1
            v.ensure('period', v.eq(due, 1000.0 + k * v.real('ival', 1, 10)))
    v.ensure('counted', k == a.ran)
    v.cover(str(act))


@contract('C20', targets=ED + [M + 'EventListener.spread_runs', M + 'EventListener.get_randomizer'], bounded='three periods')
def timer_spread(v):
    """a spread timer's periods stay within the share asked for; a timer asking for it is told the time"""
    sim, ed = mked(v)
    rnd = [v.real('r0', 0, 1), v.real('r1', 0, 1), v.real('r2', 0, 1)]
    v.patch('sippy.Core.EventDispatcher', 'random', lambda: rnd.pop(0))
    runs = []
    ival = v.real('ival', 1, 10)
    el = TimeoutInact(lambda *p: runs.append((p, sim.now)), ival, 2, 'x')
    el.cb_with_ts = True
    el.spread_runs(0.1)
    v.ensure('not-started', ed.tlisteners == [])
    el.go()
    step = v.choice('step', [0.25, 0.5])

    def wait():
        if len(runs) < 2:
            sim.advance(step * ival)
            ed.elp.waits.append(wait)
        else:
            ed.breakLoop()
    ed.elp.waits = [wait]
    ed.loop()
    v.ensure('twice', len(runs) == 2)
    for i, (p, t) in enumerate(runs):
        v.ensure('told-time', len(p) == 2 and p[1] == 'x' and v.eq(p[0].monot, t))
        v.ensure('not-before', t >= 1000 + (i + 1) * ival * 0.9)
        v.ensure('not-after', t <= 1000 + (i + 1) * ival * 1.1 + step * ival)


@contract('C20', targets=ED, bounded='four timers')
def timer_cleanup(v):
    """taking cancelled timers off the list keeps the others"""
    sim, ed = mked(v)
    w = W(v, sim, ed)
    iv = [v.real('ival%d' % i, 1, 100) for i in range(4)]
    ts = [w.timer('t%d' % i, 1, iv[i]) for i in range(4)]
    gone = v.choice('cancelled', [[0], [1, 2], [0, 1, 2], [3, 0, 1], [0, 1, 2, 3], [2, 3]])
    for i in gone:
        ts[i].cancel()

    def wait():
        w.settle(ts)
        v.ensure('list', len([x for x in ed.tlisteners if x.cb_func is not None]) == 4 - len(gone))
        sim.advance(100)

    def last():
        w.settle(ts)
        ed.breakLoop()
    ed.elp.waits = [wait, last]
    ed.loop()
    for i in range(4):
        v.ensure('ran', ts[i].ran == (0 if i in gone else 1))
    v.ensure('empty', len([x for x in ed.tlisteners if x.cb_func is not None]) == 0)


@contract('C20', targets=ED, bounded='eleven timers, six of them cancelled')
def timer_cleanup_many(v):
    """taking many cancelled timers off the list at once leaves the others in the order of their times"""
    sim, ed = mked(v)
    w = W(v, sim, ed)
    # the order of setting them makes the list as it is here: each no earlier than the one at (i - 1) / 2
    iv = [v.real('ival%d' % i, 1, 100) for i in range(11)]
    for i in range(1, 11):
        v.assume(iv[(i - 1) // 2] <= iv[i])
    ts = [w.timer('t%d' % i, 1, iv[i]) for i in range(11)]
    kept = v.choice('kept', [[1, 2, 5, 6], [3, 4, 5, 6], [1, 3, 4, 5], [7, 8, 9, 10], [1, 2, 3, 5], [2, 3, 4, 5], [1, 5, 6, 9]])
    for i in range(1, 11):
        if i not in kept:
            ts[i].cancel()

    def wait():
        w.settle(ts)
        sim.advance(100)

    def last():
        w.settle(ts)
        ed.breakLoop()
    ed.elp.waits = [wait, last]
    ed.loop()
    for i in range(11):
        v.ensure('ran', ts[i].ran == (1 if i == 0 or i in kept else 0))


@contract('C20', targets=[M + 'EventDispatcher2.loop', M + 'EventDispatcher2.breakLoop'])
def loop_ends(v):
    """the loop ends when told, or when its time is over, and not before; nothing more is run once told"""
    sim, ed = mked(v)
    w = W(v, sim, ed)
    how = v.choice('how', ['timeout', 'timer', 'signal', 'thread', 'exit', 'interrupt'])
    ival, limit = v.real('ival', 0, 10), v.real('limit', 0, 30)
    a, b = w.timer('a', 1, ival), w.timer('b', 1, ival)
    t0 = sim.now
    n = [0]

    def wait():
        n[0] += 1
        if n[0] == 1:
            sim.advance(v.real('dt', 0, 40))
        else:
            sim.advance(50)
        if n[0] < 3:
            ed.elp.waits.append(wait)
        else:
            ed.elp.waits.append(lambda: ed.breakLoop('late'))
    ed.elp.waits = [wait]
    if how == 'timeout':
        r = v.call(ed.loop, limit)
        v.ensure('returned', r.ok)
        v.ensure('not-before', sim.now > t0 + limit)
        v.ensure('at-once', n[0] <= 2)
        v.ensure('both-ran', a.ran == 1 and b.ran == 1 if n[0] == 2 else True)
    elif how == 'timer':
        a.todo = b.todo = lambda: ed.breakLoop('t')
        r = v.call(ed.loop)
        v.ensure('value', r.ok and r.value == 't')
        v.ensure('one-only', a.ran + b.ran == 1)
    elif how == 'signal':
        s = Rec()
        sig = []
        v.patch('sippy.Core.EventDispatcher', 'signal', type('S', (), {'signal': staticmethod(lambda *x: sig.append(x)), 'SIG_DFL': 'dfl'}))
        ed.regSignal(7, lambda *p, **k: (s(*p, **k), ed.breakLoop('s')), 1, x=2)
        sl = ed.regSignal(7, s, 2)
        sl3 = ed.regSignal(8, s, 3)
        v.ensure('handler', sig == [(7, ed.signal), (8, ed.signal)])
        ed.signal(7, None)
        r = v.call(ed.loop)
        v.ensure('value', r.ok and r.value == 's')
        v.ensure('told', len(s.calls) == 1 and list(s.calls[0]) == [1])
        v.ensure('nothing-after', a.ran == 0 and b.ran == 0)
        ed.unregSignal(sl)
        ed.unregSignal(sl3)
        v.ensure('default', sig[2:] == [(8, 'dfl')])
    else:
        ex = {'exit': SystemExit, 'interrupt': KeyboardInterrupt, 'thread': Boom}[how]
        g = []

        def f(x):
            g.append(x)
            raise ex()
        ed.callFromThread(f, 1)
        ed.callFromThread(g.append, 2)
        r = v.call(lambda: ed.loop(100))
        v.ensure('run-in-order', g == [1, 2])
        v.ensure('outcome', r.ok if how == 'thread' else r.raised(ex))
        v.ensure('reported', len(v_dump(v)) == (1 if how == 'thread' else 0))
    v.cover(how)


@contract('C20', targets=[M + 'EventDispatcher2.callFromThread', M + 'EventDispatcher2.callFromThreadSync', M + 'EventDispatcher2.dispatchThreadCallback',
                          M + 'EventDispatcher2.dispatchThreadCallbackSync', M + 'EventDispatcher2.dispatchSignals'])
def handed_over(v):
    """what another thread hands over is run exactly once, in order, and a result or an error goes back to who asked"""
    sim, ed = mked(v)
    how = v.choice('how', ['calls', 'sync', 'signals'])
    bad = v.choice('bad', [None, 0, 1])
    if how == 'calls':
        g = []

        def f(*p):
            g.append(p)
            if p[0] == bad:
                raise v.choice('error', [Boom, ValueError])('x')
        x = v.int('x', 0, 9)
        for i in range(3):
            ed.callFromThread(f, i, x)
        v.ensure('not-at-once', g == [])
        ed.elp.waits = [lambda: None, lambda: ed.breakLoop()]
        r = v.call(ed.loop)
        v.ensure('loop', r.ok)
        v.ensure('once-in-order', v.eq(g, [(0, x), (1, x), (2, x)]))
        v.ensure('reported', len(v_dump(v)) == (0 if bad is None else 1))
    elif how == 'sync':
        # the dispatcher's thread picks it up while the caller waits
        g = []

        def cft(f, *a):
            g.append(1)
            f(*a)
        v.patch(ed.elp, 'call_from_thread', cft)
        res = v.int('res', 0, 99)

        def f(p, q):
            if bad is not None:
                raise [Boom, SystemExit][bad]('x')
            return res + p + q
        for i in range(2):
            r = v.call(ed.callFromThreadSync, f, i, 5)
            if bad is None:
                v.ensure('result', r.ok and v.eq(r.value, res + i + 5))
            else:
                v.ensure('error', r.raised([Boom, SystemExit][bad]))
        v.ensure('once', len(g) == 2)
    else:
        g = []
        v.patch('sippy.Core.EventDispatcher', 'signal', type('S', (), {'signal': staticmethod(lambda *x: None), 'SIG_DFL': 'dfl'}))

        def f(i, k=None):
            g.append((i, k))
            if i == bad:
                raise Boom()
            if i == 2:
                ed.unregSignal(last)
        for i in range(3):
            ed.regSignal(7, f, i, k=i + 1)
        last = ed.regSignal(7, f, 3)
        ed.regSignal(8, f, 4)
        sigs = v.choice('signals', [[7], [8, 7], [7, 8], [9]])
        for s in sigs:
            ed.signal(s, None)
        ed.dispatchSignals()
        want = []
        for s in sigs:
            want += [(0, 1), (1, 2), (2, 3)] if s == 7 else [(4, None)] if s == 8 else []
        v.ensure('told', g == want)
        v.ensure('done', ed.signals_pending == [])
    v.cover(how)


@contract('C20', targets=['sippy/Time/MonoTime.py:MonoTime.getOffsetCopy', 'sippy/Time/MonoTime.py:MonoTime.offset', 'sippy/Time/MonoTime.py:MonoTime.__lt__',
                          'sippy/Time/MonoTime.py:MonoTime.__sub__', 'sippy/Time/MonoTime.py:MonoTime.__init__'])
def time_points(v):
    """points in time: order and distance are those of the monotonic clock, a copy is independent"""
    sim = Sim(v)
    x, y, d = v.real('x', 0, 1e6), v.real('y', 0, 1e6), v.real('d', -1000, 1000)
    a, b = MonoTime(monot=x, realt=x + 5), MonoTime(monot=y, realt=y + 5)
    v.ensure('order', v.and_(v.iff(a < b, x < y), v.iff(a <= b, x <= y), v.iff(a > b, x > y), v.iff(a >= b, x >= y), v.iff(a == b, x == y), v.iff(a != b, x != y)))
    v.ensure('distance', v.eq(a - b, x - y))
    c = a.getOffsetCopy(d)
    v.ensure('copy', v.and_(v.eq(c.monot, x + d), v.eq(c.realt, x + 5 + d), v.eq(a.monot, x)))
    e = a.getCopy()
    e.offset(d)
    v.ensure('moved', v.and_(v.eq(e.monot, x + d), v.eq(e.realt, x + 5 + d), v.eq(a.monot, x), v.eq(a.realt, x + 5)))
    n = MonoTime()
    v.ensure('now', v.and_(v.eq(n.monot, sim.now), v.eq(n.realt, sim.now + sim.REAL)))
    sim.advance(v.real('pass', 0, 100))
    v.ensure('elapsed', v.eq(n.offsetFromNow(), v.real('pass', 0, 100)))
    # a time of day that is not to come: the monotonic part never lies ahead of the clock
    r = MonoTime(realt=sim.REAL + y)
    v.ensure('not-ahead', v.and_(v.implies(y <= 1000, v.eq(r.monot, y)), r.monot <= sim.now))
    t = MonoTime(realt=sim.REAL + y, trust_realt=True)
    v.ensure('trusted', v.eq(t.monot, y))
    m = MonoTime(monot=y)
    v.ensure('from-monotonic', v.eq(m.realt, y + sim.REAL))
