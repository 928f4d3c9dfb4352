"""C28: RTP proxies are watched, and used while they answer"""
import socket
from sippy.Rtp_proxy.client import Rtp_proxy_client
from sippy.Rtp_proxy.Client.udp import Rtp_proxy_client_udp
from sippy.Rtp_proxy.Client.stream import Rtp_proxy_client_stream
from sippy.Rtp_proxy.session import Rtp_proxy_session
from sippy.Exceptions.RtpProxyError import RtpProxyError
from pyvc.api import contract
from contracts.lib import Sim

R = 'sippy/Rtp_proxy/'
C = R + 'client.py:Rtp_proxy_client.'

# what can be asked of a proxy, from the release that brought it
CAPS = {'20071218': 'copy', '20080403': 'stat', '20081224': 'tnot', '20090810': 'sbind', '20150617': 'wdnt', '20250523': 'copy_p'}


class Wire(object):
    """what the transport is asked to do"""

    def __init__(self, v):
        self.out, self.inits, self.downs = [], [], 0
        w = self

        def init(kind):
            def f(c, gc, *a, **kw):
                w.inits.append((kind, a, kw))
            return f

        def send(c, command, cb=None, *par):
            w.out.append((str(command).strip(), cb, par))

        def down(c):
            w.downs += 1
        for kind, cls in (('udp', Rtp_proxy_client_udp), ('stream', Rtp_proxy_client_stream)):
            v.patch(cls, '__init__', init(kind))
            v.patch(cls, 'send_command', lambda c, command, cb=None, *par: send(c, command, cb, *par))
            v.patch(cls, 'shutdown', lambda c: down(c))

    def take(self):
        o = list(self.out)
        del self.out[:]
        return o


def watch(v):
    sim = Sim(v)
    w = Wire(v)
    c = Rtp_proxy_client({'_sip_address': '10.0.0.1'}, spath='udp:192.0.2.9')
    return sim, w, c


def later(v, t, label, n, p=0.1001):
    """a timer of about n seconds"""
    v.ensure(label, t.nticks == 1 and v.close(t.ival, n) and (t.randomize_runs is None or 0 <= t.randomize_runs <= p))


def checking(v, sim, w, n0, label):
    """offline: looked at again in about a minute, and by nothing else before"""
    new = [t for t in sim.since(n0) if t.state == 'live']
    v.ensure(label + '-quiet', len(w.out) == 0)
    new = [t for t in new if t.ival > 30]
    v.ensure(label + '-later', len(new) == 1)
    later(v, new[0], label + '-a-minute', 60.0)
    return new[0]


@contract('C28', targets=[C + '__init__', C + '__init_udp', C + '__init_udp6', C + '__init_tcp', C + '__init_tcp6', C + '__init_unix'])
def rtpc_address(v):
    """the proxy is reached where the configuration says, and is not in use before it has answered"""
    Sim(v)
    w = Wire(v)
    kind = v.choice('kind', ('udp', 'tcp', 'udp6', 'tcp6', 'unix', 'cunix', 'path'))
    port = v.int('port', 1, 65535)
    withport = v.flag('withport')
    six = kind in ('udp6', 'tcp6')
    brackets = v.flag('brackets')
    gc = {'_sip_address': '10.0.0.1'}
    if kind in ('unix', 'cunix', 'path'):
        path = '/' + v.str('path', 'token', 1)
        spath = path if kind == 'path' else kind + ':' + path
    else:
        host = v.str('host', 'alnum', 1)
        h = host
        if six and brackets:
            h = '[' + v.choice('six', ('::1', 'fe80::1:2')) + ']'
        spath = kind + ':' + h + (':' + str(port) if withport else '')
    nocheck = v.flag('nocheck')
    kw = dict(no_version_check=True) if nocheck else {}
    out = v.call(Rtp_proxy_client, gc, spath=spath, **kw)
    v.ensure('made', out.ok)
    c = out.value
    v.ensure('one', len(w.inits) == 1)
    cls, a, k = w.inits[0]
    v.ensure('kind', cls == ('udp' if kind in ('udp', 'udp6') else 'stream'))
    if kind in ('unix', 'cunix', 'path'):
        v.ensure('path', v.eq(k['address'], path))
        v.ensure('local', k['family'] == socket.AF_UNIX and c.proxy_address == '10.0.0.1')
    else:
        want = h if not six or brackets else '[' + h + ']'
        v.ensure('host', v.eq(k['address'][0], want))
        v.ensure('port', v.eq(k['address'][1], port if withport else 22222))
        v.ensure('family', k['family'] == (socket.AF_INET6 if six else socket.AF_INET))
        v.ensure('media', v.eq(c.proxy_address, want))
    v.ensure('no-more', set(k) == set(('family', 'address')))
    if nocheck:
        v.ensure('taken-on-trust', c.online and len(w.out) == 0)
    else:
        v.ensure('not-yet', not c.online)
        v.ensure('asked', [x[0] for x in w.out] == ['V'])



@contract('C28', targets=[C + '__init__'])
def rtpc_given(v):
    """an address may be given as such"""
    Sim(v)
    w = Wire(v)
    kind = v.choice('kind', ('tuple', 'list', 'path', 'none'))
    host, port, path = 'h' + v.str('host', 'alnum'), v.int('port', 1, 65535), '/' + v.str('path', 'token', 1)
    a = {'tuple': ((host, port),), 'list': ([host, port],), 'path': (path,), 'none': ()}[kind]
    nocheck = v.flag('nocheck')
    kw = dict(no_version_check=True) if nocheck else {}
    c = Rtp_proxy_client({'_sip_address': '10.0.0.1'}, *a, **kw)
    v.ensure('kind', [x[0] for x in w.inits] == ['udp' if kind in ('tuple', 'list') else 'stream'])
    v.ensure('address', v.eq(w.inits[0][1], a) and w.inits[0][2] == {})
    v.ensure('media', v.eq(c.proxy_address, host if kind in ('tuple', 'list') else '10.0.0.1'))
    v.ensure('taken-on-trust', c.online == nocheck and [x[0] for x in w.out] == ([] if nocheck else ['V']))
    v.cover(kind)


@contract('C28', targets=[C + 'version_check', C + 'version_check_reply', C + 'go_online', C + 'go_offline', R + 'client.py:Rtpp_caps_checker.__init__'])
def rtpc_version(v):
    """the answer to the check of the version decides: right, the capabilities are asked for
    and then it is in use; anything else, it is looked at again in about a minute"""
    sim, w, c = watch(v)
    c.caps_done = v.flag('known')
    (cmd, cb, par), = w.take()
    a = v.choice('answer', ('right', 'other', 'error', 'nothing'))
    reply = {'right': '20040107', 'error': 'E1', 'nothing': None}.get(a)
    if a == 'other':
        reply = v.str('version', 'digits', 1)
        v.assume(reply != '20040107')
    n0 = len(sim.timers)
    out = v.call(cb, reply, *par)
    v.ensure('ok', out.ok)
    if a != 'right':
        v.ensure('unused', not c.online)
        t = checking(v, sim, w, n0, 'wrong')
        t.fire()
        v.ensure('again', [x[0] for x in w.out] == ['V'] and len(sim.live()) == 0)
    elif c.caps_done:
        v.ensure('used', c.online)
        v.ensure('watched', [x[0] for x in w.out] == ['Ib'] and len(sim.live()) == 0)
    else:
        v.ensure('not-yet', not c.online)
        v.ensure('asked', sorted(x[0] for x in w.out) == sorted('VF ' + d for d in CAPS))
        v.ensure('no-timers', len(sim.live()) == 0)


@contract('C28', targets=[R + 'client.py:Rtpp_caps_checker.caps_query_done', C + 'go_online', C + 'heartbeat'],
          bounded='answers in two orders')
def rtpc_caps(v):
    """what the proxy says it can do, and nothing else, is what it is asked to do; it is in
    use once all have been answered"""
    sim, w, c = watch(v)
    (cmd, cb, par), = w.take()
    cb('20040107', *par)
    qs = w.take()
    if v.flag('backwards'):
        qs.reverse()
    no = v.choice('no', ('0', 'E1', None))
    yes = {}
    for i, (cmd, cb, par) in enumerate(qs):
        v.ensure('not-yet', not c.online and len(w.out) == 0)
        d = cmd.split()[1]
        yes[d] = v.flag('yes' + d)
        out = v.call(cb, '1' if yes[d] else no, *par)
        v.ensure('ok', out.ok)
    for d, n in CAPS.items():
        v.ensure(n, getattr(c, n + '_supported') == yes[d])
    v.ensure('used', c.online)
    v.ensure('watched', [x[0] for x in w.out] == ['Ib'] and len(sim.live()) == 0)


LINES = (('sessions created', 'sessions_created'), ('active sessions', 'active_sessions'), ('active streams', 'active_streams'),
         ('packets received', 'preceived'), ('packets transmitted', 'ptransmitted'))


def running(v):
    sim, w, c = watch(v)
    w.take()
    c.caps_done = True
    c.go_online()
    return sim, w, c


@contract('C28', targets=[C + 'heartbeat', C + 'heartbeat_reply', C + 'update_active'], bounded='three lines of the answer')
def rtpc_heartbeat(v):
    """while the heartbeat is answered - whatever is in the answer - the proxy stays in use
    and is asked again about a second later; the counters are those it told"""
    sim, w, c = running(v)
    (cmd, cb, par), = w.take()
    told = {}
    text = ''
    for i in range(3):
        what = v.choice('what%d' % i, (0, 1, 2, 3, 4, 'bad', 'short', 'other', 'none'))
        if what == 'none':
            continue
        if what == 'bad':
            l = LINES[0][0] + ': ' + v.str('bad', 'alnum', 0, no='0123456789')
        elif what == 'short':
            l = LINES[1][0]
        elif what == 'other':
            l = 'x' + v.str('other', 'token', 1) + ': 77'
        else:
            n = v.int('n%d' % i, 0, 10**9)
            l = '%s: %d' % (LINES[what][0], n)
            told[LINES[what][1]] = n
        text = text + l + '\n'
    v.assume(text != '')
    n0 = len(sim.timers)
    out = v.call(cb, text.strip(), *par)
    v.ensure('ok', out.ok)
    v.ensure('used', c.online)
    v.ensure('not-at-once', len(w.out) == 0)
    new = sim.since(n0)
    v.ensure('again', len(new) == 1 and new[0].state == 'live')
    later(v, new[0], 'in-a-second', 1.0)
    for line, name in LINES:
        v.ensure(name, v.eq(getattr(c, name) or 0, told.get(name, 0)))
    new[0].fire()
    v.ensure('asked', [x[0] for x in w.out] == ['Ib'] and len(sim.live()) == 0)


@contract('C28', targets=[C + 'heartbeat_reply', C + 'go_offline', C + 'heartbeat', C + 'version_check'])
def rtpc_lost(v):
    """a proxy that does not answer its heartbeat is not used from then on, until a check of
    the version - the first about a minute later - is answered"""
    sim, w, c = running(v)
    (cmd, cb, par), = w.take()
    n0 = len(sim.timers)
    out = v.call(cb, None, *par)
    v.ensure('ok', out.ok)
    v.ensure('unused', not c.online)
    v.ensure('count-unknown', c.active_sessions is None)
    t = checking(v, sim, w, n0, 'lost')
    # a heartbeat on its way does not bring it back
    for x in sim.live():
        if x is not t:
            x.fire()
            for cmd, cb, par in w.take():
                v.ensure('only-heartbeats', cmd == 'Ib')
                v.call(cb, 'active sessions: 3' if v.flag('late') else None, *par)
    v.ensure('still-unused', not c.online and len(w.out) == 0)
    v.ensure('nothing-else', sim.live() == [t])
    t.fire()
    (cmd, cb, par), = w.take()
    v.ensure('checked', cmd == 'V')
    if v.flag('back'):
        v.call(cb, '20040107', *par)
        v.ensure('used', c.online)
        v.ensure('watched', [x[0] for x in w.out] == ['Ib'] and len(sim.live()) == 0)
    else:
        n0 = len(sim.timers)
        v.call(cb, v.choice('no', ('E1', None)), *par)
        v.ensure('still', not c.online)
        checking(v, sim, w, n0, 'still')


class FakeUdp(object):
    def __init__(self, gc, uopts):
        self.uopts, self.sent, self.down = uopts, [], 0
        FakeUdp.last = self

    def send_to(self, data, address, *a, **k):
        assert not self.down
        self.sent.append((data, address))

    def shutdown(self):
        self.down += 1


@contract('C28', targets=[R + 'Client/udp.py:Rtp_proxy_client_udp.send_command', R + 'Client/udp.py:Rtp_proxy_client_udp.retransmit',
                          R + 'Client/udp.py:getnretrans', C + 'send_command', C + 'go_offline', C + 'shutdown'],
          bounded='one command outstanding')
def rtpc_udp_lost(v):
    """over UDP any command that is not answered after it has been repeated takes the proxy
    out of use, unless it has been shut down, and is reported to who gave it once"""
    sim = Sim(v)
    v.patch('sippy.Rtp_proxy.Client.udp', 'Udp_server', FakeUdp)
    v.patch('sippy.Rtp_proxy.Client.net', 'getaddrinfo', lambda h, p, *a: [(socket.AF_INET, 2, 17, '', (h, p))])
    c = Rtp_proxy_client({'_sip_address': '10.0.0.1'}, spath='udp:192.0.2.9', no_version_check=True)
    s = FakeUdp.last
    c.delay_flt.lastval = v.choice('delay', (0.005, 0.25, 5.0))
    got = []
    cmd = v.choice('cmd', ('U x y z', 'I', 'Ib', 'G x', 'D x y'))
    told = v.flag('told')
    out = v.call(c.send_command, cmd, lambda *a, **k: got.append(a), 7) if told else v.call(c.send_command, cmd)
    v.ensure('sent', out.ok and len(s.sent) == 1)
    stop = v.choice('stop', (None, 0, 1))
    n = 0
    while True:
        live = [t for t in sim.live() if t.ival < 30]
        if len(live) == 0:
            break
        v.ensure('one-timer', len(live) == 1)
        v.ensure('used-until-then', c.online and len(got) == 0)
        if stop == n:
            c.shutdown()
        n += 1
        v.ensure('not-for-ever', n < 30)
        sim.advance(live[0].ival)
        o = v.call(live[0].fire)
        v.ensure('no-error', o.ok)
    v.ensure('reported', got == ([(None, 7)] if told else []))
    v.ensure('same-command', len(set(x[0] for x in s.sent)) == 1)
    v.ensure('same-address', all(x[1] == ('192.0.2.9', 22222) for x in s.sent))
    if c.shut_down:
        v.ensure('no-checks', len(sim.live()) == 0)
    else:
        v.ensure('unused', not c.online)
        t, = sim.live()
        later(v, t, 'later', 60.0)


@contract('C28', targets=[C + 'shutdown', C + 'version_check', C + 'version_check_reply', C + 'heartbeat', C + 'heartbeat_reply', C + 'go_online',
                          C + 'go_offline', R + 'client.py:Rtpp_caps_checker.caps_query_done'])
def rtpc_shutdown(v):
    """after it has been shut down a proxy is asked nothing more, whatever is on its way"""
    sim, w, c = watch(v)
    at = v.choice('at', ('version', 'waiting', 'caps', 'heartbeat', 'resting', 'lost'))
    if at != 'version':
        (cmd, cb, par), = w.take()
        cb(None if at == 'waiting' else '20040107', *par)
        if at not in ('waiting', 'caps'):
            for cmd, cb, par in w.take():
                cb('1', *par)
            if at != 'heartbeat':
                (cmd, cb, par), = w.take()
                cb(None if at == 'lost' else 'active sessions: 1', *par)
    was = c.online
    out = v.call(c.shutdown)
    v.ensure('ok', out.ok and w.downs == 1)
    out = v.call(c.shutdown)
    v.ensure('twice', out.ok and w.downs == 1)
    n0 = len(sim.timers)
    for cmd, cb, par in w.take():
        o = v.call(cb, v.choice('answer', ('20040107', '1', 'active sessions: 4', None)), *par)
        v.ensure('no-error', o.ok)
    for t in sim.live():
        o = v.call(t.fire)
        v.ensure('no-error', o.ok)
    c.go_offline()
    c.go_online()
    v.ensure('silent', len(w.out) == 0)
    v.ensure('no-timers', len(sim.since(n0)) == 0)
    v.ensure('not-put-to-use', was or not c.online)


class FakeProxy(object):
    notify_socket = None

    def __init__(self, online):
        self.online = online


@contract('C28', targets=[R + 'session.py:Rtp_proxy_session.__init__'], bounded='up to four proxies')
def rtpc_chosen(v):
    """a call gets one of the proxies in use, each as likely; without any there is no session"""
    v.patch(Rtp_proxy_session, '__del__', lambda s: None)
    r = v.real('r', 0, 1)
    v.assume(r < 1)
    v.patch('sippy.Rtp_proxy.session', 'random', lambda: r)
    ps = [FakeProxy(v.flag('on%d' % i)) for i in range(v.choice('n', (0, 1, 2, 4)))]
    single = v.flag('single') and len(ps) == 1
    gc = {'rtp_proxy_client': ps[0]} if single else {'_rtp_proxy_clients': ps}
    on = [p for p in ps if p.online]
    out = v.call(Rtp_proxy_session, gc)
    if len(on) == 0:
        v.ensure('refused', out.raised(RtpProxyError))
        return
    v.ensure('made', out.ok)
    p = out.value.rtp_proxy_client
    v.ensure('in-use', any(x is p for x in on))
    for i, x in enumerate(on):
        if x is p:
            v.ensure('share', v.and_(r * len(on) >= i, r * len(on) < i + 1))
