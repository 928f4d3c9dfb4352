"""C22: accounting records"""
from pyvc.api import contract
from contracts.lib import Sim
from sippy.RadiusAccounting import RadiusAccounting
from sippy.UA import UA

A = 'sippy/RadiusAccounting.py:RadiusAccounting.'
ALL = [A + n for n in ('__init__', 'setParams', 'conn', 'disc', 'asend')] + ['sippy/UA.py:UA.getAcct']

# Q.850 cause (hexadecimal) by final SIP code
CAUSE = {400: '7f', 401: '39', 402: '15', 403: '39', 404: '1', 405: '7f', 406: '7f', 407: '15', 408: '66', 409: '29', 410: '1', 411: '7f', 413: '7f',
         414: '7f', 415: '4f', 420: '7f', 480: '12', 481: '7f', 482: '7f', 483: '7f', 484: '1c', 485: '1', 486: '11', 487: '12', 488: '7f',
         500: '29', 501: '4f', 502: '26', 503: '3f', 504: '66', 505: '7f', 580: '2f', 600: '11', 603: '15', 604: '1', 606: '3a'}


class Radius(object):
    def __init__(self):
        self.recs = []

    def do_acct(self, attributes, cb, *params):
        self.recs.append((list(attributes), cb, params))


class Log(object):
    def __init__(self):
        self.lines = []

    def write(self, *a, **k):
        self.lines.append((a, k))


def stamp(self, t):
    """a time as it goes into a record (see record_time)"""
    return 'time<%s>' % t


def cause(v, result):
    if result < 200:
        return '10'
    if result < 400:
        return '0'
    for c in sorted(CAUSE):
        if result == c:
            return CAUSE[c]
    return '7f'


def mkacct(v, lperiod, send_start, ms=False, origin=None):
    sim = Sim(v)
    rad, log = Radius(), Log()
    v.patch(RadiusAccounting, 'ftime', stamp)
    origin = v.choice('direction', ['answer', 'originate']) if origin is None else origin
    a = RadiusAccounting({'_sip_logger': log, '_radius_client': rad}, origin, lperiod=lperiod, send_start=send_start)
    a.ms_precision = ms
    return sim, rad, log, a, origin


def params(v, a, plain=False):
    user, callee, cid, ip = v.str('user', 'text'), v.str('callee', 'text'), v.str('cid', 'text'), v.str('ip', 'text')
    caller, conf = ('a', None) if plain else (v.opt('caller', lambda: v.str('callern', 'text')), v.opt('conf', lambda: v.str('confn', 'text')))
    a.setParams(user, caller, callee, cid, ip, conf)
    w = [('User-Name', user), ('Calling-Station-Id', '' if caller is None else caller), ('Called-Station-Id', callee), ('call-id', cid),
         ('Acct-Session-Id', cid), ('h323-remote-address', ip)]
    if conf is not None:
        w.append(('h323-incoming-conf-id', conf))
    return cid, w


def attr(rec, n):
    return [x for m, x in rec if m == n]


def check(v, rec, kind, ident, origin, ua, dur, delay, **k):
    """one record"""
    rec = [(m, x) for m, x in rec]
    base = [('h323-call-origin', origin), ('h323-call-type', 'VoIP'), ('h323-session-protocol', 'sipv2')] + ident
    v.ensure('identity', v.eq(rec[:len(base)], base))
    rest = rec[len(base):]
    v.ensure('each-once', len(set(m for m, x in rec)) == len(rec))
    want = {'Acct-Status-Type': kind, 'h323-setup-time': 'time<%s>' % ua.setup_ts.realt, 'h323-connect-time': 'time<%s>' % (ua.setup_ts.realt + delay)}
    if kind != 'Start':
        want['h323-disconnect-time'] = 'time<%s>' % (ua.setup_ts.realt + delay + dur)
        want['h323-disconnect-cause'] = k['cause']
    if kind == 'Stop':
        want['release-source'] = k['src']
    if k['agent'] is not None:
        want['h323-ivr-out'] = 'sip_ua:' + k['agent']
    if k['p100'] is not None:
        want['provisional-timepoint'] = 'time<%s>' % k['p100'].realt
    if k.get('connected') and kind != 'Start':
        want['h323-voice-quality'] = 0
        want['Acct-Terminate-Cause'] = 'User-Request'
    for n in sorted(want):
        v.ensure(n, v.eq(attr(rest, n), [want[n]]))
    extra = [m for m, x in rest if m not in want]
    v.ensure('nothing-else', extra == (['Acct-Session-Time'] if kind != 'Start' else []) + (['Acct-Delay-Time'] if k['p1xx'] is not None else []))
    if kind != 'Start':
        v.ensure('session-time', v.eq(attr(rest, 'Acct-Session-Time'), ['%d' % round(dur)]))


def leg(v, sim, rich):
    """a leg with a call set up on it"""
    ua = object.__new__(UA)
    ua.setup_ts = sim.mt()
    ua.remote_ua = v.opt('agent', lambda: v.str('agentn', 'text')) if rich else None
    ua.p1xx_ts, ua.p100_ts = (sim.mt(), sim.mt()) if rich and v.flag('early') else (None, None)
    return ua, {'agent': ua.remote_ua, 'p1xx': ua.p1xx_ts, 'p100': ua.p100_ts}


@contract('C22', targets=ALL, bounded='up to five reports and interim records')
def acct_history(v):
    """every order of reports: which records are sent, and what they say"""
    lperiod = v.choice('lperiod', [None, 60])
    start = v.flag('start')
    sim, rad, log, a, origin = mkacct(v, lperiod, start, False, 'answer')
    full = v.flag('params')
    cid, ident = params(v, a, True) if full else (None, [])
    ua, k = leg(v, sim, False)
    up = down = False
    t0 = sim.now
    ct = None
    for i in range(5):
        ev = v.choice('ev%d' % i, ['conn', 'disc', 'alive', 'end'])
        if ev == 'end':
            break
        sim.advance(v.real('dt%d' % i, 0, 100000))
        have = len(rad.recs)
        live = sim.live()
        v.ensure('interim-only-between', len(live) == (1 if up and not down and lperiod == 60 else 0))
        if ev == 'conn':
            if not up and not down:
                ua.connect_ts = sim.mt()
            out = v.call(a.conn, ua, sim.mt(), 'callee')
            v.ensure('no-failure', out.ok)
            new = full and start and not up and not down
            if not down and not up:
                up, ct = True, sim.now
            v.ensure('start-once', len(rad.recs) == have + (1 if new else 0))
            if new:
                check(v, rad.recs[-1][0], 'Start', ident, origin, ua, 0, round(sim.now - t0), **k)
                v.cover('start')
        elif ev == 'disc':
            if not down:
                ua.disconnect_ts = sim.mt()
            out = v.call(a.disc, ua, sim.mt(), 'callee', 486)
            v.ensure('no-failure', out.ok)
            new = full and not down
            v.ensure('stop-once', len(rad.recs) == have + (1 if new else 0))
            if new:
                dur, delay = (sim.now - ct, ct - t0) if up else (0, sim.now - t0)
                check(v, rad.recs[-1][0], 'Stop', ident, origin, ua, round(dur), round(delay), connected=up, cause='11', src='4', **k)
                v.cover('stop-connected' if up else 'stop')
            down = True
        else:
            if not live:
                break
            v.ensure('interim-period', v.eq(live[0].ival, 60))
            v.ensure('no-failure', v.call(live[0].fire).ok)
            v.ensure('interim-record', len(rad.recs) == have + (1 if full else 0))
            if full:
                check(v, rad.recs[-1][0], 'Alive', ident, origin, ua, round(sim.now - ct), round(ct - t0), connected=True, cause='10', **k)
                v.cover('interim')
    v.ensure('no-more-timers', len(sim.live()) == (1 if up and not down and lperiod == 60 else 0))
    for r, cb, p in rad.recs:
        v.ensure('answers-to-this', cb == a._process_result and len(p) == 2 and v.eq(p[0], cid))
    v.ensure('logged', len(log.lines) == len(rad.recs) and all(v.eq(kw, {'call_id': cid}) for ar, kw in log.lines))


@contract('C22', targets=ALL)
def acct_stop_record(v):
    """what a stop record says: times, cause and side of the disconnection"""
    ms = v.flag('ms')
    sim, rad, log, a, origin = mkacct(v, v.choice('lperiod', [None, 0, -1]), False, ms)
    cid, ident = params(v, a)
    ua, k = leg(v, sim, True)
    t0 = sim.now
    sim.advance(v.real('ring', 0, 100000))
    up = v.flag('up')
    dur = 0
    if up:
        ua.connect_ts = sim.mt()
        a.conn(ua, sim.mt(), 'callee')
        v.ensure('no-interim', sim.live() == [])
    delay = sim.now - t0
    if up:
        dur = v.real('talk', 0, 1000000)
        sim.advance(dur)
    ua.disconnect_ts = sim.mt()
    src = v.choice('src', ['caller', 'callee', 'switch', None])
    sim.advance(v.real('late', 0, 10))
    a.disc(ua, ua.disconnect_ts, src, 200)
    v.ensure('stop-once', len(rad.recs) == 1)
    check(v, rad.recs[-1][0], 'Stop', ident, origin, ua, rnd(ms, dur), rnd(ms, delay), connected=up, cause='0',
          src={'caller': '2', 'callee': '4'}.get(src, '8'), **k)
    v.cover('connected' if up else 'failed')


@contract('C22', targets=ALL)
def acct_cause(v):
    """the cause told, for every final code"""
    sim, rad, log, a, origin = mkacct(v, None, False)
    a.setParams('u', 'a', 'b', 'c', 'd')
    ua, k = leg(v, sim, False)
    ua.disconnect_ts = sim.mt()
    code = v.int('code', 0, 699)
    default = v.flag('default')
    a.disc(ua, sim.mt(), 'caller', *([] if default else [code]))
    want = cause(v, 0 if default else code)
    v.ensure('cause', v.eq(attr(rad.recs[0][0], 'h323-disconnect-cause'), [want]))
    v.cover(want)


@contract('C22', targets=[A + '_process_result', A + 'addAttributes'])
def acct_result(v):
    """answers are told in the log of the call; further attributes are added once"""
    sim, rad, log, a, origin = mkacct(v, None, True)
    v.patch('sippy.RadiusAccounting', 'time', lambda: sim.now)
    sim.now = v.real('now', 0, 1000000)
    n = v.str('n', 'token', 1)
    val = v.str('val', 'text')
    more = v.choice('more', [0, 1, 2, 3])
    if more:
        a.addAttributes([[(n, val)], ((n, val), (n, val)), [[n, val], ['h323-call-type', 'VoIP']]][more - 1])
    a.setParams('u', 'a', 'b', 'cid', 'd')
    ua, k = leg(v, sim, False)
    ua.connect_ts = sim.mt()
    a.conn(ua, sim.mt(), 'caller')
    rec, cb, p = rad.recs[0]
    v.ensure('attributes-once', v.eq([x for x in rec[3:] if x[0] not in ('User-Name', 'Calling-Station-Id', 'Called-Station-Id', 'call-id', 'Acct-Session-Id', 'h323-remote-address',
                                                                         'h323-connect-time', 'h323-setup-time', 'Acct-Status-Type')],
                                     [(n, val)] if more else []) if more == 0 or v.and_(*[n != x for x, y in rec if x is not n]) else True)
    del log.lines[:]
    code = v.int('rcode', -1, 5)
    sim.now = sim.now + v.real('dt', 0, 1000)
    cb(((), code), *p)
    v.ensure('told-once', len(log.lines) == 1 and v.eq(log.lines[0][1], {'call_id': 'cid'}))
    t = log.lines[0][0][0]
    v.ensure('told-as-is', t.startswith({0: 'Acct/%s request accepted', 1: 'Acct/%s request rejected'}.get(code if code in (0, 1) else 2, 'Error sending Acct/%s request') % origin))
    v.cover('result')


@contract('C22', targets=[A + 'ftime'])
def record_time(v):
    """the form of a time"""
    sim = Sim(v)
    a = RadiusAccounting({}, 'answer')
    a.ms_precision = v.flag('ms')
    day = v.int('day', 1, 31)
    oth = {'%H': v.str('H', 'digits', 2, 2), '%M': v.str('M', 'digits', 2, 2), '%S': v.str('S', 'digits', 2, 2), '%a': v.str('a', 'alnum', 3, 3),
           '%b': v.str('b', 'alnum', 3, 3), '%Y': v.str('Y', 'digits', 4, 4)}
    dd = '0%d' % day if day < 10 else '%d' % day
    asked = []

    def gmtime(t):
        asked.append(t)
        return ('gm', t)

    def strftime(f, g):
        v.ensure('of-this-time', g[0] == 'gm' and g[1] is t)
        r = f.replace('%d', dd)
        for m in oth:
            r = r.replace(m, oth[m])
        v.ensure('known-directives', '%' not in r)
        return r

    v.patch('sippy.RadiusAccounting', 'gmtime', gmtime)
    v.patch('sippy.RadiusAccounting', 'strftime', strftime)
    t = v.int('sec', 0, 4000000000) + v.real('frac', 0, 1)
    v.assume(t < 4000000001)
    got = a.ftime(t)
    ms = v.int('msec', 0, 999)
    f = (t % 1) * 1000 if a.ms_precision else 0
    v.assume(v.and_(ms <= f, f < ms + 1))
    pad = '00' if ms < 10 else '0' if ms < 100 else ''
    v.ensure('form', v.eq(got, '%s:%s:%s.%s%d GMT %s %s %d %s' % (oth['%H'], oth['%M'], oth['%S'], pad, ms, oth['%a'], oth['%b'], day, oth['%Y'])))
    v.ensure('asked', len(asked) == 1 and asked[0] is t)
    v.cover('ms' if a.ms_precision else 's')


def rnd(ms, x):
    return x if ms else round(x)
