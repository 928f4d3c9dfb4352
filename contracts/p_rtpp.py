"""C18: commands to the RTP proxy; C19: media sessions"""
from pyvc.api import contract
from contracts.lib import Sim, Rec
from sippy.Rtp_proxy.session import Rtp_proxy_session
from sippy.Rtp_proxy.Session.update import update_params
from sippy.Rtp_proxy.Session.webrtc import Rtp_proxy_session_webrtc2sip, Rtp_proxy_session_sip2webrtc
from sippy.Rtp_proxy.Cmd.sequencer import Rtp_proxy_cmd_sequencer
from sippy.Rtp_proxy.cmd import Rtp_proxy_cmd, Rtpp_stats
from sippy.Rtp_proxy.Client.udp import Rtp_proxy_client_udp
from sippy.Rtp_proxy.Client.stream import Rtp_proxy_client_stream
from sippy.Rtp_proxy.Client.Worker.external import RTPPLWorker_external
from sippy.Exceptions.RtpProxyError import RtpProxyError
from sippy.Exceptions.SdpParseError import SdpParseError
from sippy.MsgBody import MsgBody
from sippy.SipContentType import SipContentType
from sippy.SipConf import SipConf
from socket import AF_INET, AF_INET6, AF_UNIX, error as socket_error
from errno import EINTR, EPIPE, ECONNRESET, EIO

R = 'sippy/Rtp_proxy/'

# when an object is collected is not up to the program: deletion is driven by the contracts
_DEL = vars(Rtp_proxy_session).get('__del__')
Rtp_proxy_session.__del__ = lambda self: None


class FakeClient(object):
    """an RTP proxy client: records the commands; answers when told to"""
    online = True
    sbind_supported = False
    tnot_supported = False
    is_local = False
    proxy_address = '192.0.2.200'
    notify_socket = None

    def __init__(self):
        self.sent = []
        self.todo = []
        self.peak = 0

    def send_command(self, command, result_callback=None, *params):
        self.sent.append(command)
        self.todo.append((result_callback, params))
        self.peak = max(self.peak, len(self.todo))

    def answer(self, result, **k):
        cb, params = self.todo.pop(0)
        if cb is not None:
            cb(result, *params, **k)


class Cb(object):
    """a callback that records the answers and may do something"""

    def __init__(self, i, act=None):
        self.i, self.act, self.got = i, act, []

    def __call__(self, *a):
        self.got.append(a)
        if self.act is not None:
            self.act()


def quiet(v):
    v.patch('sippy.Rtp_proxy.Cmd.sequencer', 'dump_exception', lambda *a, **k: None)
    v.patch('sippy.Rtp_proxy.Session.side', 'dump_exception', lambda *a, **k: None)


@contract('C18', targets=[R + 'Cmd/sequencer.py:Rtp_proxy_cmd_sequencer'], bounded='histories of up to five operations, then all answers')
def sequencer_history(v):
    """one at a time, in the order submitted, each answered once with its own answer, whatever the callbacks do"""
    quiet(v)
    c = FakeClient()
    q = Rtp_proxy_cmd_sequencer(c)
    cmds, cbs, kinds, state = [], [], [], {'deleted': False}
    style = v.choice('answers', ['text', 'error', 'none'])

    def submit(kind):
        i = len(cmds)
        act = {'submit': lambda: submit('plain'), 'delete': delete, 'plain': None, 'none': None}[kind]
        cb = Cb(i, act)
        text = 'V%d %s' % (i, v.str('cmd%d' % i, 'alnum'))
        if not state['deleted']:
            cmds.append(text)
            cbs.append(cb)
            kinds.append(kind)
        if kind == 'none':
            q.send_command(text)
        elif i % 2:
            q.send_command(text, cb)
        else:
            q.send_command(text, cb, i, 'p')

    def delete():
        state['deleted'] = True
        q.delete()

    answered = []

    def answer():
        n = len(answered)
        a = {'text': '%d %s' % (n, v.str('ans%d' % n, 'alnum')), 'error': 'E%d' % n, 'none': None}[style]
        answered.append(a)
        if style == 'none' and n % 2:
            c.answer(None, ex=OSError('gone'))
        else:
            c.answer(a)

    def check():
        v.ensure('one-at-a-time', c.peak <= 1)
        n = len(c.sent)
        v.ensure('in-order', n <= len(cmds) and v.eq(list(c.sent), cmds[:n]))
        v.ensure('none-waits-without-cause', n == min(len(cmds), len(answered) + 1))
        for i, cb in enumerate(cbs):
            if i < len(answered) and kinds[i] != 'none':
                v.ensure('answered-once', len(cb.got) == 1)
                v.ensure('own-answer', v.eq(list(cb.got[0]), [answered[i]] + ([i, 'p'] if i % 2 == 0 else [])))
            else:
                v.ensure('not-answered-yet', cb.got == [])

    for k in range(v.choice('steps', [5])):
        ops = ['plain', 'submit', 'delete-in-cb', 'none'] if k < 4 else []
        if c.todo:
            ops = ops + ['answer']
        if not state['deleted'] and k > 0:
            ops = ops + ['delete']
        if not ops:
            break
        op = v.choice('op%d' % k, ops)
        if op == 'answer':
            answer()
        elif op == 'delete':
            delete()
        else:
            submit('delete' if op == 'delete-in-cb' else op)
        check()
    n = 0
    while c.todo and n < 12:
        answer()
        check()
        n += 1
    v.ensure('all-answered', c.todo == [] and len(answered) == len(cmds))
    if state['deleted']:
        q.send_command('late', None)
        v.ensure('nothing-after-deletion', len(c.sent) == len(cmds))
    v.cover('deleted' if state['deleted'] else 'alive')


def mksession(v, cls=Rtp_proxy_session, notify=False, **attrs):
    quiet(v)
    c = FakeClient()
    for k, x in attrs.items():
        setattr(c, k, x)
    cid, ft, tt = v.token('callid'), v.token('ft'), v.token('tt')
    tag = None
    if notify:
        c.notify_socket = 'tcp:127.0.0.1:%d' % v.int('nport', 1, 65535)
        tag = v.str('ntag', 'alnum', 1)
    s = cls({'rtp_proxy_client': c}, cid, ft, tt, notify_tag=tag)
    return s, c, (cid, ft, tt, tag)


@contract('C18', targets=[R + 'session.py:Rtp_proxy_session', R + 'Session/side.py:_rtpps_side'])
def session_commands(v):
    """the texts of the commands of a media session"""
    sim = Sim(v)
    s, c, (cid, ft, tt, tag) = mksession(v)
    side = v.choice('side', ['caller', 'callee'])
    tags = '%s %s' % ((ft, tt) if side == 'caller' else (tt, ft))
    me, other = (s.caller, s.callee) if side == 'caller' else (s.callee, s.caller)
    what = v.choice('what', ['play', 'stop', 'copy', 'record', 'record-named', 'stats', 'version', 'delete'])
    ix = v.choice('index', [0, v.int('ix', 1, 9)])
    cb = Rec()
    have = v.choice('created', ['none', 'own', 'other', 'both'])
    me.session_exists = have in ('own', 'both')
    other.session_exists = have in ('other', 'both')
    me.codecs = '0,%d' % v.int('codec', 1, 127)
    name = v.token('name')
    ustag = '%s' % (ft if side == 'caller' else tt)
    want = None
    if what == 'play':
        n = v.int('times', -1, 100)
        (s.play_caller if side == 'caller' else s.play_callee)(name, n, cb, ix)
        want = 'P%d %s-%d %s 0,%d %s' % (n, cid, ix, name, v.int('codec', 1, 127), tags)
        if have in ('own',):
            # the stream towards the listener must be there first
            v.ensure('creates', v.eq(c.sent, ['U %s-%d 0.0.0.0 0 %s %s' % (cid, ix, tt if side == 'caller' else ft, ft if side == 'caller' else tt)]))
            ok = v.flag('ok')
            c.answer('35000 192.0.2.1' if ok else 'E7')
            c.sent.pop(0)
            if not ok:
                v.ensure('error-reported', cb.calls == [(None,)] and c.sent == [])
                return
    elif what == 'stop':
        (s.stop_play_caller if side == 'caller' else s.stop_play_callee)(cb, ix)
        want = 'S %s-%d %s' % (cid, ix, tags)
    elif what == 'copy':
        (s.copy_caller if side == 'caller' else s.copy_callee)('192.0.2.7', v.int('cport', 1, 65535), cb, ix)
        want = 'C %s-%d udp:192.0.2.7:%d %s' % (cid, ix, v.int('cport', 1, 65535), tags)
        if have in ('none', 'other'):
            v.ensure('creates', v.eq(c.sent, ['U %s-%d 0.0.0.0 0 %s' % (cid, ix, ustag if have == 'none' else tags)]))
            ok = v.flag('ok')
            c.answer('35000 192.0.2.1' if ok else None)
            c.sent.pop(0)
            if not ok:
                v.ensure('error-reported', cb.calls == [(None,)] and c.sent == [])
                return
    elif what in ('record', 'record-named'):
        if side == 'callee':
            return
        fl = v.choice('flags', ['', 's'])
        only = v.flag('only')
        s.start_recording(name if what == 'record-named' else None, cb if v.flag('cb') else None, ix, fl, only)
        if have in ('none', 'other'):
            v.ensure('creates', v.eq(c.sent, ['U %s-%d 0.0.0.0 0 %s' % (cid, ix, ft if have == 'none' else tags)]))
            ok = v.flag('ok')
            c.answer('35000 192.0.2.1' if ok else v.choice('err', ['E7', None, 'x']))
            c.sent.pop(0)
            if not ok:
                v.ensure('error-reported', cb.calls == ([(None,)] if v.flag('cb') else []) and c.sent == [])
                return
        if what == 'record':
            want = 'R%s %s-%d %s %s' % (fl, cid, ix, ft, tt)
        else:
            want = 'C%s %s-%d %s.a %s %s' % (fl, cid, ix, name, ft, tt)
            if not only:
                v.ensure('text', v.eq(c.sent, [want]))
                ok = v.flag('ok2')
                c.answer('0' if ok else None)
                c.sent.pop(0)
                if not ok:
                    v.ensure('error-reported', cb.calls == ([(None,)] if v.flag('cb') else []) and c.sent == [])
                    return
                want = 'C%s %s-%d %s.o %s %s' % (fl, cid, ix, name, tt, ft)
        if not v.flag('cb'):
            v.ensure('text', v.eq(c.sent, [want]))
            c.answer('0')
            return
    elif what == 'stats':
        s.stats(cb, ix, 'x')
        want = 'Q %s-%d %s %s' % (cid, ix, ft, tt)
        v.ensure('text', v.eq(c.sent, [want]))
        k = v.choice('stats', ['ok', 'err', 'none'])
        ns = [v.int('st%d' % i, 0, 10 ** 9) for i in range(5)]
        c.answer({'ok': ' '.join(['%d' % n for n in ns]), 'err': 'E8', 'none': None}[k])
        v.ensure('stats', len(cb.calls) == 1 and v.eq(list(cb.calls[0]), [tuple(ns) if k == 'ok' else None, 'x']))
        return
    elif what == 'version':
        s.version(cb)
        want = 'V'
    else:
        s.delete()
        v.ensure('nothing-to-delete', c.sent == [])
        s.caller.session_exists = s.callee.session_exists = True
        (s.play_caller if side == 'caller' else s.play_callee)(name, 1, cb, ix)
        (s.stop_play_caller if side == 'caller' else s.stop_play_callee)(cb, ix)
        s.copy_caller('192.0.2.7', 5, cb, ix)
        s.start_recording(name, cb, ix, '')
        s.delete()
        v.ensure('nothing-after-deletion', c.sent == [])
        v.cover('delete')
        return
    if what in ('play', 'stop') and have not in ('own', 'both'):
        # no media from that side: nothing to play to
        v.ensure('nothing-sent', c.sent == [])
        v.ensure('told-later', len(sim.calls) == 1 and sim.calls[0] == (cb, (None,)))
        return
    v.ensure('text', v.eq(c.sent, [want]))
    a = v.choice('answer', [v.str('a', 'alnum', 1), None])
    c.answer(a)
    v.ensure('answered-once', len(cb.calls) == 1 and v.eq(list(cb.calls[0]), [a]))
    v.cover(what)


@contract('C18', targets=[R + 'Session/side.py:_rtpps_side.update', R + 'session.py:Rtp_proxy_session.get_notify_tag'])
def update_command(v):
    """the text of the command that creates or changes a stream"""
    notify = v.choice('notify', [None, 'unsupported', 'supported'])
    s, c, (cid, ft, tt, tag) = mksession(v, notify=notify is not None, tnot_supported=notify == 'supported',
                                         sbind_supported=v.flag('sbind'), is_local=v.flag('local'))
    side = v.choice('side', ['caller', 'callee'])
    me, other = (s.caller, s.callee) if side == 'caller' else (s.callee, s.caller)
    other.session_exists = v.flag('other')
    bind = v.choice('bind', [None, 'r', 'l'])
    if bind == 'r':
        me.raddress = ('192.0.2.' + '%d' % v.int('r', 1, 254), 5060)
    elif bind == 'l':
        me.laddress = '192.0.2.%d' % v.int('l', 1, 254)
    other.needs_new_port = v.flag('newport')
    up = update_params()
    up.rtpps = s
    up.index = v.choice('index', [0, 1, v.int('ix', 2, 9)])
    up.remote_ip = v.str('ip', 'alnum', 1)
    up.remote_port = v.int('port', 0, 65535)
    up.options = opts = v.choice('options', ['', '6', 'z%d' % v.int('z', 10, 200)])
    up.result_callback = Rec()
    me.update(up)
    o = 'U' + opts
    if v.flag('sbind') and bind == 'r':
        o += 'R192.0.2.' + '%d' % v.int('r', 1, 254)
    elif v.flag('sbind') and bind == 'l' and v.flag('local'):
        o += 'L192.0.2.%d' % v.int('l', 1, 254)
    if v.flag('newport'):
        o += 'N'
    a, b = (ft, tt) if side == 'caller' else (tt, ft)
    o += ' %s-%d %s %d %s' % (cid, up.index, v.str('ip', 'alnum', 1), v.int('port', 0, 65535), a)
    if v.flag('other'):
        o += ' ' + b
    if notify == 'supported':
        o += ' tcp:127.0.0.1:%d %s' % (v.int('nport', 1, 65535), tag if up.index == 0 else '%s%%20%d' % (tag, up.index))
    v.ensure('text', v.eq(c.sent, [o]))
    v.ensure('new-port-once', other.needs_new_port is False)
    v.cover(side)


def fields(p):
    r = [p.type, p.command_opts, p.call_id, p.args]
    if p.ul_opts is not None:
        u = p.ul_opts
        r += [u.destination_ip, u.local_ip, u.codecs, u.otherparams, u.remote_ip, u.remote_port, u.from_tag, u.to_tag,
              u.notify_socket, u.notify_tag, u.subargs]
    return r


@contract('C18', targets=[R + 'cmd.py:Rtp_proxy_cmd', R + 'cmd.py:UpdateLookupOpts'], bounded='up to two other options')
def command_text(v):
    """parsing the text of a command gives the command back, with the parts it was made of"""
    t = v.choice('type', ['U', 'D', 'P', 'S', 'R', 'C', 'Q', 'G', 'V', 'I', 'X'])
    cid, ft, tt = v.token('cid'), v.token('ft'), v.token('tt')
    if t == 'U':
        t = v.choice('ul', ['U', 'L']) if v.choice('vary', ['options', 'rest']) == 'rest' else 'U'
        want = [t, None, cid, None]
        vary = v.choice('vary', ['options', 'rest'])
        opts = vary == 'options'
        oth = v.choice('others', ['', '6', '6z' + v.str('z', 'digits', 1, 2), 'AN'] if opts else ['6'])
        dst = v.choice('dst', [None, '192.0.2.' + v.str('d', 'digits', 1, 2), '[2001:db8::%s]' % v.str('d6', 'hex', 1)] if opts else [None, '1.2.3.4'])
        loc = v.choice('loc', [None, '10.0.0.' + v.str('d', 'digits', 1, 2), '[::%s]' % v.str('l6', 'hex', 1)] if opts else [None])
        cod = v.choice('codecs', [None, [0], [8, 101, 0]] if opts else [[18, 0]])
        o = oth + ('R' + dst if dst else '') + ('L' + loc if loc else '') + ('c' + ','.join(['%d' % x for x in cod]) if cod else '')
        ip, port = v.str('ip', 'alnum', 1), v.int('port', 0, 65535)
        text = '%s%s %s %s %d %s' % (t, o, cid, ip, port, ft)
        form = v.choice('form', ['short', 'to', 'notify', 'both'] if not opts else ['both'])
        if form in ('to', 'both'):
            text += ' ' + tt
        ns, nt = v.token('ns'), v.token('nt')
        if form in ('notify', 'both'):
            text += ' %s %s' % (ns, nt)
        sub = v.choice('sub', [None, 'M4:1 S', 'M4:1 S && M5:1 A %s x' % v.str('subarg', 'alnum', 1)] if not opts else [None])
        if sub is not None:
            text += ' && ' + sub
        want += [dst, loc, cod, oth, ip, '%d' % port, ft, tt if form in ('to', 'both') else None,
                 ns if form in ('notify', 'both') else None, nt if form in ('notify', 'both') else None, sub]
        v.assume(v.not_(v.eq(ft, '&&')))
        v.assume(v.not_(v.eq(tt, '&&')))
        v.assume(v.not_(v.eq(ns, '&&')))
        v.assume(v.not_(v.eq(nt, '&&')))
        if form in ('to', 'both'):
            p = Rtp_proxy_cmd(text)
            if p.ul_opts.to_tag is not None:
                sw = p.ul_opts.getstr(p.call_id, swaptags=True, skipnotify=True)
                v.ensure('swapped', v.eq(sw, '%s %s %s %d %s %s%s' % (o, cid, ip, port, tt, ft, '' if sub is None else ' && ' + sub)))
    elif t in 'DPSRCQ':
        o = v.str('ostr', 'alnum')
        more = v.choice('args', [ft, '%s %s' % (ft, tt), '%s %s %s' % (ft, tt, v.token('x'))])
        text = '%s%s %s %s' % (t, o, cid, more)
        want = [t, o, cid, more]
    elif t == 'G':
        o = v.choice('o', [None, 'v', 'z' + v.str('ostr', 'alnum')])
        names = v.choice('names', [None, ft, '%s %s' % (ft, tt)])
        if o is None and names is None:
            return
        text = 'G' + (o or '') + ('' if names is None else ' ' + names)
        want = ['G', o, None, names]
    else:
        o = v.choice('o', ['', 'F 2008%d' % v.int('o', 1000, 1231), 'b'])
        text = t + o
        want = [t, o, None, None]
    p = Rtp_proxy_cmd(text)
    v.ensure('parts', v.eq(fields(p), want))
    v.ensure('text', v.eq(str(p), text))
    v.cover(t)


@contract('C18', targets=[R + 'cmd.py:UpdateLookupOpts'], bounded='three options')
def command_options_order(v):
    """the order of the options in the text does not matter"""
    oth = v.choice('others', ['6', 'z20', 'N'])
    parts = ['R192.0.2.' + v.str('d', 'digits', 1, 2), 'L10.0.0.' + v.str('d', 'digits', 1, 2), oth]
    order = v.choice('order', [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)])
    if oth == '6':
        # a digit cannot follow an address
        order = v.choice('order6', [(2, 0, 1), (2, 1, 0)])
    text = 'U%s cid 1.2.3.4 %d ft' % (''.join([parts[i] for i in order]), v.int('port', 0, 65535))
    p = Rtp_proxy_cmd(text)
    want = [parts[0][1:], parts[1][1:], None, oth]
    v.ensure('read', v.eq(fields(p)[4:8], want))
    v.ensure('read-again', v.eq(fields(Rtp_proxy_cmd(str(p))), fields(p)))
    v.cover(oth[0])


@contract('C18', targets=[R + 'cmd.py:Rtpp_stats'], bounded='three counters')
def command_stats(v):
    """counters are added up one by one"""
    names = ['nsess_created', 'total_duration', 'npkts']
    s = Rtpp_stats(names)
    a = [v.int('a%d' % i, 0, 10 ** 9) for i in range(3)]
    b = [v.int('b%d' % i, 0, 10 ** 9) for i in range(3)]
    s.parseAndAdd('%d %d %d' % tuple(a))
    t = Rtpp_stats(names)
    t.parseAndAdd('%d %d %d' % tuple(b))
    s += t
    v.ensure('sum', v.eq([s.nsess_created, s.npkts], [a[0] + b[0], a[2] + b[2]]) and v.close(s.total_duration, a[1] + b[1]))
    v.ensure('other', v.eq([t.nsess_created, t.npkts], [b[0], b[2]]))
    v.cover('any')


class FakeUdp(object):
    def __init__(self, gc, uopts):
        self.uopts, self.sent, self.down = uopts, [], False
        FakeUdp.last = self

    def send_to(self, data, address, *a, **k):
        self.sent.append((data, address))

    def shutdown(self):
        self.down = True


def mkudp(v):
    sim = Sim(v)
    v.patch('sippy.Rtp_proxy.Client.udp', 'Udp_server', FakeUdp)
    v.patch('sippy.Rtp_proxy.Client.net', 'getaddrinfo', lambda h, p, *a: [(AF_INET6, 2, 17, '', ('::9', p)), (AF_INET, 2, 17, '', (h, p))])

    class Client(Rtp_proxy_client_udp):
        offline = 0

        def go_offline(self):
            self.offline += 1
    c = Client({}, ('192.0.2.9', v.int('rport', 1, 65535)))
    return sim, c, FakeUdp.last


@contract('C18', targets=[R + 'Client/udp.py:Rtp_proxy_client_udp'], bounded='three commands outstanding')
def udp_replies(v):
    """each reply goes to the command it answers, whatever the order; copies of a reply and strange packets are dropped"""
    sim, c, serv = mkudp(v)
    addr = ('192.0.2.9', v.int('rport', 1, 65535))
    v.ensure('address', v.eq(c.address, addr))
    cbs = [Rec() for i in range(3)]
    ck = []
    for i, cb in enumerate(cbs):
        cmd = v.choice('cmd%d' % i, ['V', 'D %s' % v.token('c%d' % i)]) if i != 1 else Rtp_proxy_cmd('Ib')
        c.send_command(cmd, cb, i) if i != 2 else c.send_command(cmd, cb)
        data, to = serv.sent[-1]
        v.ensure('sent-once', len(serv.sent) == i + 1 and v.eq(to, addr))
        cookie, text = data.split(' ', 1)
        v.ensure('text', v.eq(text, str(cmd)))
        v.ensure('new-cookie', cookie not in ck)
        ck.append(cookie)
    got = [[], [], []]
    sim.advance(0.125)
    for k in range(4):
        op = v.choice('op%d' % k, ['r0', 'r1', 'r2', 'odd'] if k != 3 else ['r0', 'r2'])
        if op == 'odd':
            data = v.choice('odd', ['', 'x', 'nocookie 0', ck[0], ck[0][:-1] + ' 0', '\r\n'])
            c.process_reply(data.encode('ascii'), addr, serv, sim.mt())
        else:
            i = int(op[1])
            txt = '%d %s' % (k, v.str('a%d' % k, 'alnum', 1))
            c.process_reply(('%s %s\n' % (ck[i], txt)).encode('ascii'), addr, serv, sim.mt())
            if got[i] == []:
                got[i].append((txt, i) if i != 2 else (txt,))
        for i in range(3):
            v.ensure('own-answer-once', len(cbs[i].calls) == len(got[i]) and v.eq([list(x) for x in cbs[i].calls], [list(x) for x in got[i]]))
    for i in range(3):
        v.ensure('no-timer-left', (sim.timers[i].state == 'live') == (got[i] == []))
    v.ensure('nothing-sent-again', len(serv.sent) == 3 and c.offline == 0)
    v.cover('any')


@contract('C18', targets=[R + 'Client/udp.py:Rtp_proxy_client_udp', R + 'Client/udp.py:getnretrans'])
def udp_retransmit(v):
    """an unanswered command is sent again, unchanged, then given up: told once, never hanging"""
    sim, c, serv = mkudp(v)
    d = v.choice('delay', [0.25, 0.0625, 0.5, 1.0])
    c.delay_flt.lastval = d
    cb = Rec()
    kind = v.choice('kind', ['D', 'Ib', 'G'])
    cmd = kind + ' ' + v.token('x')
    limit = {'D': 3.0, 'Ib': 10.0, 'G': 1.0}[kind]
    c.send_command(cmd, cb, 7)
    first = serv.sent[0]
    n = 0
    at = v.choice('answer-after', [None, 0, 1, 2])
    spent = 0.0
    while cb.calls == [] and n < 20:
        ls = sim.live()
        v.ensure('one-timer', len(ls) == 1)
        v.ensure('interval', v.close(ls[0].ival, d * 4.0 * 2 ** n))
        if n == at:
            sim.advance(0.01)
            data = (first[0].split(' ', 1)[0] + ' 42\n').encode('ascii')
            c.process_reply(data, c.address, serv, sim.mt())
            v.ensure('answer', cb.calls == [('42', 7)] and sim.live() == [] and c.offline == 0)
            c.process_reply(data, c.address, serv, sim.mt())
            v.ensure('once', len(cb.calls) == 1)
            v.ensure('estimate-only-when-certain', (c.delay_flt.lastval != d) == (n == 0))
            v.cover('answered')
            return
        sim.advance(ls[0].ival)
        spent += ls[0].ival
        ls[0].fire()
        n += 1
    v.ensure('given-up', cb.calls == [(None, 7)] and sim.live() == [])
    v.ensure('offline', c.offline == 1)
    v.ensure('all-the-same', all(v.eq(x, first) is True or x == first for x in serv.sent))
    v.ensure('within-limit', len(serv.sent) == 1 or spent <= limit)
    late = (first[0].split(' ', 1)[0] + ' 42\n').encode('ascii')
    c.process_reply(late, c.address, serv, sim.mt())
    v.ensure('late-answer-dropped', len(cb.calls) == 1)
    v.cover('given-up')


class Wi(object):
    def __init__(self, items):
        self.items, self.back = list(items), []

    def get(self, *a, **k):
        return self.items.pop(0)

    def put(self, x):
        self.back.append(x)


class Sock(object):
    """a stream connection; the script says what each operation does"""

    def __init__(self, world, fam):
        self.world, self.fam = world, fam
        world.socks.append(self)

    def connect(self, a):
        self.to = a
        if self.world.step('connect'):
            raise socket_error(EIO, 'refused')

    def send(self, data):
        e = self.world.step('send')
        if e:
            raise socket_error(e, 'send')
        self.world.sent.append(data)
        return len(data)

    sendall = send

    def recv(self, n):
        e = self.world.step('recv')
        if e == 'eof':
            return b''
        if e:
            raise socket_error(e, 'recv')
        return self.world.answer()


class World(object):
    def __init__(self, script, answers):
        self.script, self.answers, self.socks, self.sent, self.n = dict(script), list(answers), [], [], {}

    def step(self, what):
        k = self.n.get(what, 0)
        self.n[what] = k + 1
        return self.script.get((what, k))

    def answer(self):
        return self.answers.pop(0)


@contract('C18', targets=[R + 'Client/Worker/external.py:RTPPLWorker_external', R + 'Client/stream.py:Rtp_proxy_client_stream.send_command'],
          bounded='two commands, one disturbance')
def stream_worker(v):
    """commands over a stream: sent in order, each callback handed its own answer once; a broken connection is
    opened again; a failure is told and does not stop the worker"""
    sim = Sim(v)
    v.patch('sippy.Rtp_proxy.Client.Worker.external', 'dump_exception', lambda *a, **k: None)
    # (the reply of the proxy is taken to arrive in one piece, see DESIGN.md)
    dist = v.choice('disturbance', [None, ('send', EINTR), ('send', EPIPE), ('send', ECONNRESET), ('recv', EINTR), ('recv', 'eof'),
                                    ('recv', ECONNRESET), ('send', EIO), ('recv', EIO), ('connect', EIO)])
    at = v.choice('at', [0, 1])
    if dist and dist[0] == 'connect':
        at = 0
    w = World([((dist[0], at), dist[1])] if dist else [], [])
    a = [v.str('a%d' % i, 'alnum', 1) for i in range(2)]
    fatal = dist is not None and dist[1] == EIO
    w.answers = [(a[i] + '\n').encode('ascii') for i in range(2) if not (fatal and i == at)]
    v.patch('sippy.Rtp_proxy.Client.Worker.external', 'socket', type('S', (), {
        'socket': staticmethod(lambda fam, kind: Sock(w, fam)), 'error': socket_error, 'SOCK_STREAM': 1, 'AF_INET6': AF_INET6}))
    cl = Rtp_proxy_client_stream.__new__(Rtp_proxy_client_stream)
    cl.family, cl.address, cl.nworkers_act = v.choice('family', [(AF_UNIX, '/sock'), (AF_INET6, ('[::1]', 5)), (AF_INET, ('127.0.0.1', 5))]) + (1,)
    cl.wi = Wi([])
    cbs = [Rec(), Rec()]
    for i in range(2):
        t = 'D %s' % v.token('c%d' % i)
        cl.send_command(Rtp_proxy_cmd(t + ' f t') if i else t + ' f t', cbs[i], i, 'x')
    v.ensure('queued', len(cl.wi.back) == 2)
    v.patch(cl, 'register_delay', Rec())
    wk = RTPPLWorker_external.__new__(RTPPLWorker_external)
    wk.userv = cl
    cl.wi = Wi(cl.wi.back + [None])
    wk.run()
    v.ensure('shutdown-passed-on', cl.wi.back == [None])
    reg = cl.__dict__['register_delay']
    v.ensure('not-in-this-thread', cbs[0].calls == [] and cbs[1].calls == [])
    for cb, p in sim.calls:
        v.call(cb, *p)
    for i in range(2):
        want = None if fatal and i == at else a[i]
        v.ensure('own-answer-once', len(cbs[i].calls) == 1 and v.eq(list(cbs[i].calls[0]), [want, i, 'x']))
    lines = [x.decode('ascii') for x in w.sent]
    want = ['D %s f t\n' % v.token('c%d' % i) for i in range(2)]
    if dist == ('send', EIO) or (dist and dist[0] == 'connect'):
        del want[at]
    elif dist and dist[0] == 'recv' and dist[1] in ('eof', ECONNRESET):
        want.insert(at, want[at])
    v.ensure('sent', v.eq(lines, want))
    v.ensure('address', all(x.to == {AF_UNIX: '/sock', AF_INET6: ('::1', 5), AF_INET: ('127.0.0.1', 5)}[cl.family] for x in w.socks))
    v.cover(str(dist))


@contract('C18', targets=[R + 'Client/Worker/external.py:RTPPLWorker_external'], bounded='two commands')
def stream_fragments(v):
    """an answer belongs to its command however the stream cuts it"""
    sim = Sim(v)
    v.patch('sippy.Rtp_proxy.Client.Worker.external', 'dump_exception', lambda *a, **k: None)
    w = World([], [])
    a = [v.choice('a0', ['35000 10.0.0.1', '7']), v.choice('a1', ['35002 10.0.0.1', '0'])]
    w.answers = [(x + '\n').encode('ascii') for x in a]
    cut = v.flag('cut')
    if cut:
        split = v.choice('split', [1, 3, 6] if len(a[0]) > 3 else [1])
        w.answers[:1] = [w.answers[0][:split], w.answers[0][split:]]
    v.patch('sippy.Rtp_proxy.Client.Worker.external', 'socket', type('S', (), {
        'socket': staticmethod(lambda fam, kind: Sock(w, fam)), 'error': socket_error, 'SOCK_STREAM': 1, 'AF_INET6': AF_INET6}))
    cl = Rtp_proxy_client_stream.__new__(Rtp_proxy_client_stream)
    cl.family, cl.address, cl.nworkers_act = AF_UNIX, '/sock', 1
    cl.wi = Wi([])
    cbs = [Rec(), Rec()]
    for i in range(2):
        cl.send_command('U c%d f t' % i, cbs[i])
    v.patch(cl, 'register_delay', Rec())
    wk = RTPPLWorker_external.__new__(RTPPLWorker_external)
    wk.userv = cl
    cl.wi = Wi(cl.wi.back + [None])
    wk.run()
    for cb, p in sim.calls:
        v.call(cb, *p)
    for i in range(2):
        v.ensure('whole-answer', [list(x) for x in cbs[i].calls] == [[a[i]]])
    v.cover('cut' if cut else 'whole')


# ---- C19: media sessions

def mkup(v, s, sub=()):
    up = update_params()
    up.rtpps = s
    up.subcommands = list(sub)
    up.got = []

    def cb(ur, rtpps, ex=None):
        up.got.append((ur, rtpps, ex))
    up.result_callback = cb
    return up


@contract('C19', targets=[R + 'Session/update.py:update_params.process_rtpp_result'])
def relay_answer(v):
    """an answer of the RTP proxy is taken for exactly what it says; anything else is an error"""
    s, c, ids = mksession(v)
    up = mkup(v, s)
    fam, ip = v.choice('remote', [('IP4', '0.0.0.0'), ('IP4', '::'), ('IP6', '::'), ('IP6', '0.0.0.0'), ('IP4', 'x' + v.str('rip', 'alnum')), ('IP6', 'x' + v.str('rip', 'alnum'))])
    up.atype, up.remote_ip = fam, ip
    kind = v.choice('kind', ['port', 'addr', 'addr4', 'addr6', 'none', 'error', 'zero', 'minus', 'large', 'junk', 'empty', 'blank'])
    p, a, end = v.int('port', 1, 65535), v.str('addr', 'alnum', 1), v.choice('end', ['', '\n', ' \r\n'])
    junk = v.choice('junk', ['x', '1x', '0x10', '1.5', '-', '1,2']) if kind == 'junk' else ''
    text = {'port': '%d' % p, 'addr': '%d %s' % (p, a), 'addr4': '%d %s 4' % (p, a), 'addr6': '%d %s 6' % (p, a), 'error': 'E%s' % v.str('code', 'alnum'),
            'zero': '0', 'minus': '-%d' % p, 'large': '%d %s' % (65535 + p, a), 'junk': junk + ' ' + a, 'empty': '', 'blank': ' ', 'none': ''}[kind]
    out = v.call(up.process_rtpp_result, None if kind == 'none' else text + end)
    v.ensure('no-exception', out.ok)
    v.ensure('told-once', len(up.got) == 1 and up.got[0][1] is s)
    ur, _, ex = up.got[0]
    if kind in ('port', 'addr', 'addr4', 'addr6'):
        v.ensure('accepted', ex is None and ur is not None)
        v.ensure('port', v.eq(ur.rtpproxy_port, p))
        v.ensure('address', v.eq(ur.rtpproxy_address, c.proxy_address if kind == 'port' else a))
        v.ensure('family', ur.family == ('IP6' if kind == 'addr6' else 'IP4'))
        v.ensure('hold', ur.sendonly is ((fam, ip) in (('IP4', '0.0.0.0'), ('IP6', '::'))))
        v.cover('accepted')
    else:
        v.ensure('refused', ur is None and isinstance(ex, RtpProxyError))
        v.cover('refused')


def lines_of(s):
    return [tuple(x.split('=', 1)) for x in s.split('\r\n')[:-1]]


def sdp(v, sects, sid='77', ver='1', sess_c=False, more=()):
    """a body: sects is a list of (media, port, transport, formats, family, address, attributes)"""
    r = 'v=0\r\no=u%s %s %s IN IP4 h\r\ns=-\r\n' % (v.str('user', 'alnum'), sid, ver)
    if sess_c:
        r += 'c=IN %s %s\r\n' % sects[0][4:6]
    r += 't=0 0\r\n' + ''.join(['a=%s\r\n' % x for x in more])
    for m, p, t, f, fam, addr, at in sects:
        r += 'm=%s %d %s %s\r\n' % (m, p, t, f)
        if not sess_c:
            r += 'c=IN %s %s\r\n' % (fam, addr)
        r += ''.join(['a=%s\r\n' % x for x in at])
    return r


def told(s):
    """(origin, session lines, [(m, c, attributes)]) of a body"""
    top, sects, c, o = [], [], None, None
    for n, x in lines_of(s):
        if n == 'm':
            sects.append([x, None, []])
        elif n == 'c':
            if sects:
                sects[-1][1] = x
            else:
                c = x
        elif n == 'o':
            o = x
        elif not sects:
            top.append((n, x))
        else:
            sects[-1][2].append((n, x))
    return o, top, [(m, cc if cc is not None else c, a) for m, cc, a in sects]


CT = SipContentType('application/sdp')
CT.parse()


def body(text):
    return MsgBody(text, CT.getCopy())


class Done(object):
    """what the user agent is handed"""

    def __init__(self):
        self.got = []

    def __call__(self, sdp_body, ex=None):
        self.got.append((sdp_body, ex, None if sdp_body is None else str(sdp_body)))


def sections(v, n):
    out = []
    for i in range(n):
        kind = v.choice('m%d' % i, ['audio', 'audio-hold', 'video6', 'image', 'off', 'other']) if i < 2 else 'other'
        addr = '10.0.%d.%s' % (i, v.str('oct%d' % i, 'digits', 1))
        port = v.int('p%d' % i, 1, 65535)
        at = ['x%s:%s' % (v.str('an%d' % i, 'alnum'), v.str('av%d' % i, 'alnum'))]
        if kind == 'audio':
            out.append(('audio', port, 'RTP/AVP', '0 101', 'IP4', addr, at + ['rtcp:%d IN IP4 %s' % (port, addr), 'sendrecv']))
        elif kind == 'audio-hold':
            out.append(('audio', port, 'RTP/SAVP', '8', 'IP4', '0.0.0.0', ['sendrecv'] + at))
        elif kind == 'video6':
            out.append(('video', port, 'rtp/avp', '99', 'IP6', '2001:db8::%s' % v.str('oct%d' % i, 'digits', 1), at + ['fmtp:99 a=b', 'ptime:30']))
        elif kind == 'image':
            out.append(('image', port, 'udptl', 't38', 'IP4', addr, at))
        elif kind == 'off':
            out.append(('audio', 0, 'RTP/AVP', '0', 'IP4', addr, at))
        else:
            out.append(('application', port, 'TCP/MSRP', '*', 'IP4', addr, at))
    return out


SUP = ('rtp/avp', 'rtp/savp', 'udptl')


def rewritten(x, p, fam, addr, ptime=None):
    """what a section is to become"""
    m, port, t, f, ofam, oaddr, at = x
    at = list(at)
    if (ofam, oaddr) in (('IP4', '0.0.0.0'), ('IP6', '::')):
        at = [a for a in at if a != 'sendrecv'] + ['sendonly']
    at = ['rtcp:%d IN %s %s' % (p + 1, fam, addr) if a.startswith('rtcp:') else a for a in at]
    if ptime is not None:
        i = [k for k, a in enumerate(at) if a.startswith('ptime') or a.startswith('fmtp')]
        at = [a for a in at if not a.startswith('ptime')]
        k = i[0] + (1 if i and at[i[0]:i[0] + 1] and at[i[0]].startswith('fmtp') else 0) if i else None
        if k is None:
            at.insert(len(at) - 1, 'ptime:%d' % ptime)
        else:
            at.insert(k, 'ptime:%d' % ptime)
    return ('%s %s %s %s' % (m, '0' if port == 0 else '%d' % p, t, f), 'IN %s %s' % (fam, addr), [('a', a) for a in at])


TS = [R + 'Session/side.py:_rtpps_side._on_sdp_change', R + 'Session/side.py:_rtpps_side._sdp_change_finish', R + 'Session/side.py:_rtpps_side.update',
      R + 'Session/side.py:_rtpps_side.update_result', R + 'Session/update.py:update_params.process_rtpp_result',
      R + 'session.py:Rtp_proxy_session.on_caller_sdp_change', R + 'session.py:Rtp_proxy_session.on_callee_sdp_change', R + 'session.py:Rtp_proxy_session.delete']


@contract('C19', targets=TS, bounded='up to two media sections')
def relay_body(v):
    """each section gets the relay address for that very section; nothing else changes; handed on once, when all are known"""
    sim = Sim(v)
    s, c, (cid, ft, tt, tag) = mksession(v)
    side = v.choice('side', ['caller', 'callee'])
    n = v.choice('sections', [1, 2])
    sects = sections(v, n)
    text = sdp(v, sects, more=['session:x'])
    want = told(text)
    b = body(text)
    done = Done()
    (s.on_caller_sdp_change if side == 'caller' else s.on_callee_sdp_change)(b, done)
    live = [i for i in range(n) if sects[i][2].lower() in SUP]
    a, o = (ft, tt) if side == 'caller' else (tt, ft)
    if not live:
        # nothing to relay: as it is
        v.ensure('nothing-asked', c.sent == [])
        for cb, p in sim.calls:
            cb(*p)
        v.ensure('handed-on', len(done.got) == 1 and done.got[0][0] is b and done.got[0][1] is None)
        v.ensure('unchanged', v.eq(told(done.got[0][2]), want))
        v.ensure('not-again', b.needs_update is False)
        v.cover('nothing')
        return
    fail = v.choice('fail', [None] + list(range(len(live))))
    res = []
    for k, i in enumerate(live):
        v.ensure('handed-on-only-when-complete', done.got == [] or (fail is not None and k > fail))
        m, port, t, f, fam, addr, at = sects[i]
        v.ensure('asked', len(c.sent) == k + 1 and v.eq(c.sent[k], 'U%s %s-%d %s %d %s' % ('6' if fam == 'IP6' else '', cid, k, addr, port, a)))
        # the peer's address is asked for once per section, one after the other
        v.ensure('one-at-a-time', c.peak == 1)
        if fail == k:
            c.answer(v.choice('err', ['E5', None, '0', 'junk', '']))
            continue
        r = (v.int('rp%d' % k, 1, 65535), v.choice('rfam%d' % k, ['IP4', 'IP6']) if n == 1 else 'IP4', 'r%d%s' % (k, v.str('ra%d' % k, 'alnum')))
        res.append(r)
        c.answer('%d %s%s\n' % (r[0], r[2], ' 6' if r[1] == 'IP6' else ''))
    v.ensure('nothing-more-asked', len(c.sent) == len(live) and c.todo == [])
    v.ensure('handed-on-once', len(done.got) == 1)
    got, ex, out = done.got[0]
    v.ensure('not-again', b.needs_update is False)
    if fail is not None:
        v.ensure('error-told', got is None and isinstance(ex, RtpProxyError))
        v.cover('failed')
    else:
        v.ensure('same-body', got is b and ex is None)
        go, gt, gs = told(out)
        v.ensure('session-lines', v.eq(gt, want[1]))
        v.ensure('sections', len(gs) == n)
        for i in range(n):
            w = want[2][i] if i not in live else rewritten(sects[i], *res[live.index(i)])
            v.ensure('media', v.eq(gs[i][0], w[0]))
            v.ensure('connection', v.eq(gs[i][1], w[1]))
            v.ensure('attributes', v.eq(gs[i][2], w[2]))
        x = s.caller.origin if side == 'caller' else s.callee.origin
        v.ensure('origin', v.eq(go, '- %d %d IN IP4 %s' % (x.session_id, x.version, SipConf.my_address)))
        v.cover('relayed')
    # everything asked for is released, once
    s.delete()
    for k in range(len(live)):
        c.answer('0')
    v.ensure('released', v.eq(sorted(c.sent[len(live):]) if False else list(reversed(c.sent[len(live):])), ['D %s-%d %s %s' % (cid, k, ft, tt) for k in range(len(live))]))
    s.delete()
    v.ensure('released-once', len(c.sent) == 2 * len(live) and c.todo == [])


@contract('C19', targets=[R + 'session.py:Rtp_proxy_session.delete', R + 'session.py:Rtp_proxy_session.__del__'], bounded='up to four streams, one deletion pending')
def relay_release(v):
    """every stream ever created is deleted, exactly once, however the session ends"""
    sim = Sim(v)
    s, c, (cid, ft, tt, tag) = mksession(v)
    cbs = []
    made = set()
    for k in range(3):
        i = v.choice('ix%d' % k, [None, 0, 1, 3])
        if i is None:
            continue
        up = mkup(v, s)
        up.index = i
        cbs.append(up)
        made.add(i)
        (s.caller if v.choice('who', [0, 1]) == k % 2 else s.callee).update(up)
        if v.flag('answered'):
            c.answer('35000 10.0.0.1')
    told_gone = v.choice('timeout', [None, 0, 1]) if made else None
    if told_gone is not None and told_gone in made:
        # the RTP proxy itself has dropped that one
        s.media_timeout_index = told_gone
    else:
        told_gone = None
    how = v.choice('how', ['delete', 'collected', 'other-thread', 'twice'])
    n = len(c.sent)
    if how in ('delete', 'twice'):
        s.delete()
    elif how == 'collected':
        _DEL(s)
    else:
        s.my_ident = -1
        _DEL(s)
        v.ensure('not-from-here', len(c.sent) == n and len(sim.calls) == 1)
        for cb, p in sim.calls:
            cb(*p)
    if how == 'twice':
        s.delete()
        _DEL(s)
    for k in range(20):
        if c.todo:
            c.answer('35000 10.0.0.1' if c.sent[-1][0] == 'U' else '0')
    dels = [x for x in c.sent if x[0] == 'D']
    for i in range(5):
        x = 'D %s-%d %s %s' % (cid, i, ft, tt)
        cnt = len([1 for y in dels if v.eq(y, x) is True or y == x])
        if i in made and i != told_gone:
            v.ensure('deleted-once', cnt == 1)
        elif i == told_gone or i > max(made or [-1]):
            v.ensure('not-deleted', cnt == 0)
        else:
            v.ensure('at-most-once', cnt <= 1)
    v.ensure('answered', len([1 for u in cbs if len(u.got) == 1]) == len(cbs))
    v.cover(how)


@contract('C19', targets=TS, bounded='three bodies from one side')
def relay_origin(v):
    """the origin follows the changes of the peer's: another version for another version, another session for
    another session, the same for the same; the other options of a side"""
    sim = Sim(v)
    s, c, ids = mksession(v)
    opt = v.choice('options', [None, 'ptime', 'soft', 'nortpp', 'after'])
    z = v.int('z', 10, 200)
    if opt in ('ptime', 'soft'):
        s.caller.repacketize = z
        s.caller.soft_repacketize = opt == 'soft'
    s.insert_nortpp = opt == 'nortpp'
    seen = []
    if opt == 'after':
        s.caller.after_sdp_change = seen.append
    prev = None
    pid = None
    form = v.choice('form', ['plain', 'fmtp', 'ptime'])
    at = {'plain': ['q', 'sendrecv'], 'fmtp': ['fmtp:0 x', 'sendrecv'], 'ptime': ['q', 'ptime:90', 'sendrecv']}[form]
    for k in range(3 if opt is None else 1):
        sid, ver = v.choice('o%d' % k, [('1', '1'), ('1', '2'), ('2', '1')]) if k else ('1', '1')
        x = ('audio', v.int('p', 1, 65535), 'RTP/AVP', '0', 'IP4', '10.0.0.1', at)
        b, d = body(sdp(v, [x], sid, ver, v.choice('where', [True, False]))), Done()
        s.on_caller_sdp_change(b, d)
        v.ensure('asked', v.eq(c.sent[-1].split(' ', 1)[0], 'U' + ('z%d' % z if opt == 'ptime' else '')))
        c.answer('%d 10.9.9.9' % v.int('rp', 1, 65535))
        v.ensure('handed-on', len(d.got) == 1 and d.got[0][0] is b)
        o, top, ss = told(d.got[0][2])
        w = rewritten(x, v.int('rp', 1, 65535), 'IP4', '10.9.9.9', z if opt in ('ptime', 'soft') else None)
        if opt == 'nortpp':
            w = (w[0], w[1], w[2] + [('a', 'nortpproxy:yes')])
        v.ensure('section', v.eq(ss, [w]))
        o = o.split(' ')
        now = (o[1], o[2])
        if prev is not None:
            if pid == (sid, ver):
                v.ensure('same', v.eq(list(now), list(prev)))
            elif pid[0] == sid:
                v.ensure('next-version', v.eq([now[0], int(now[1])], [prev[0], int(prev[1]) + 1]))
            else:
                v.ensure('new-session', now[0] != prev[0])
        prev, pid = now, (sid, ver)
    if opt == 'after':
        v.ensure('told-address', seen == ['10.9.9.9'])
    v.cover(str(opt))


@contract('C19', targets=TS)
def relay_not_sdp(v):
    """a body that is not SDP is handed on as it is; one that cannot be read is refused"""
    sim = Sim(v)
    s, c, ids = mksession(v)
    side = v.choice('side', [s.on_caller_sdp_change, s.on_callee_sdp_change])
    d = Done()
    if v.flag('other'):
        several = v.flag('several')
        ct = SipContentType('text/plain' if not several else 'multipart/mixed;boundary=bnd')
        ct.parse()
        t = v.str('text', 'text', 1)
        if several:
            ps = ['v=0\r\no=- 1 1 IN IP4 h\r\ns=-\r\nt=0 0\r\nc=IN IP4 h\r\nm=audio 5 RTP/AVP 0\r\n', 'x' + t + '\r\n']
            t = ''.join(['--bnd\r\nContent-Type: %s\r\n\r\n%s' % x for x in zip(('application/sdp', 'text/plain'), ps)]) + '--bnd--\r\n'
        b = MsgBody(t, ct)
        side(b, d)
        for cb, p in sim.calls:
            cb(*p)
        v.ensure('as-it-is', len(d.got) == 1 and d.got[0][0] is b and d.got[0][1] is None and v.eq(d.got[0][2], t))
        v.cover('other')
    else:
        b = body(v.choice('bad', ['junk', 'v=0\r\n', 'v=0\r\no=- 1 1 IN IP4 h\r\ns=-\r\nt=0 0\r\nm=audio 5 RTP/AVP 0\r\n',
                                  'v=0\r\no=- 1\r\ns=-\r\nt=0 0\r\n', 'v=0\r\no=- 1 1 IN IP4 h\r\ns=-\r\nt=0 0\r\nc=IN IP4 h\r\nm=audio x RTP/AVP 0\r\n']))
        r = v.call(side, b, d)
        v.ensure('refused', r.raised(SdpParseError) and d.got == [])
        v.cover('bad')
    v.ensure('nothing-asked', c.sent == [])


T2 = [R + 'Session/subcommand.py:subcommand_dtls', R + 'Session/subcommand.py:subcommand_dedtls', R + 'Session/subcommand_ice.py:subcommand_ice',
      R + 'Session/subcommand_ice.py:subcommand_deice', R + 'Session/update.py:update_params.process_rtpp_result']


@contract('C19', targets=T2 + [R + 'Session/webrtc.py:Rtp_proxy_session_webrtc2sip'], bounded='up to two candidates')
def relay_from_webrtc(v):
    """encrypted media with ICE from one side: the keys and candidates go to the RTP proxy, the other side sees plain media"""
    sim = Sim(v)
    cls, side = v.choice('class', [(Rtp_proxy_session_webrtc2sip, 'caller'), (Rtp_proxy_session_sip2webrtc, 'callee')])
    s, c, (cid, ft, tt, tag) = mksession(v, cls)
    fp, uf, pw, extra = v.str('fp', 'alnum', 1), v.str('uf', 'alnum', 1), v.str('pw', 'alnum', 1), 'x' + v.str('extra', 'alnum')
    setup = v.choice('setup', ['active', 'actpass', 'passive', 'odd', None])
    miss = v.choice('missing', [None, 'fingerprint', 'ice-ufrag', 'ice-pwd']) if setup == 'active' else None
    cands = v.choice('cands', [[], ['1 1 UDP 99 10.0.0.5 %d typ host' % v.int('cp', 1, 65535)],
                               ['1 1 tcp 99 10.0.0.5 9 typ host', '1 1 udp 98 192.168.1.1 7 typ host', '1 1 udp 97 192.0.0.2 8 typ host']])
    ssrc = v.flag('ssrc')
    at = ['ice-ufrag:' + uf, 'ice-pwd:' + pw, 'fingerprint:' + fp] + (['setup:' + setup] if setup else []) + ['candidate:' + x for x in cands] + \
        ['rtpmap:0 PCMU/8000', extra, 'rtcp-mux'] + (['ssrc:77 cname:z'] if ssrc else [])
    at = [x for x in at if miss is None or not x.startswith(miss)]
    x = ('audio', v.int('p', 1, 65535), 'UDP/TLS/RTP/SAVPF', '0', 'IP4', '10.0.0.1', at)
    b, d = body(sdp(v, [x])), Done()
    r = v.call(s.on_caller_sdp_change if side == 'caller' else s.on_callee_sdp_change, b, d)
    if miss or setup in ('odd', None):
        v.ensure('refused', r.raised(SdpParseError) and c.sent == [] and d.got == [])
        v.cover('refused')
        return
    v.ensure('accepted', r.ok)
    use = [y for y in cands if y.split()[2].lower() == 'udp' and not y.split()[4].startswith('192.0.')]
    subs = ['M4:1 %s %s%s' % ('P' if setup == 'passive' else 'A', fp, ' 77' if ssrc else ''), 'M5:1 A %s %s' % (uf, pw)] + ['M5:1 C ' + y for y in use]
    v.ensure('asked', v.eq(c.sent, [' && '.join(['U %s-0 10.0.0.1 %d %s' % (cid, v.int('p', 1, 65535), ft if side == 'caller' else tt)] + subs)]))
    n = len(subs)
    kind = v.choice('answer', ['all', 'none', 'fail', 'bad', 'many', 'short'])
    oks = ['0'] * n
    if kind == 'fail':
        f = v.choice('failed', [0, n - 1])
        oks = ['0'] * f + ['-1']
    elif kind == 'bad':
        oks = ['0'] * (n - 1) + ['7']
    elif kind == 'many':
        oks = ['0'] * (n + 1)
    elif kind == 'none':
        oks = []
    elif kind == 'short':
        oks = ['0']
    out = v.call(c.answer, ' && '.join(['%d 10.9.9.9' % v.int('rp', 1, 65535)] + oks) + '\n')
    v.ensure('no-exception', out.ok)
    v.ensure('told-once', len(d.got) == 1)
    if kind in ('fail', 'bad', 'many'):
        v.ensure('error-told', d.got[0][0] is None and isinstance(d.got[0][1], RtpProxyError))
        v.cover(kind)
        return
    o, top, ss = told(d.got[0][2])
    v.ensure('plain', v.eq(ss, [('audio %d RTP/AVP 0' % v.int('rp', 1, 65535), 'IN IP4 10.9.9.9',
                                 [('a', y) for y in ['rtpmap:0 PCMU/8000', extra] + (['ssrc:77 cname:z'] if ssrc else [])])]))
    v.cover(kind)


@contract('C19', targets=T2 + [R + 'Session/webrtc.py:Rtp_proxy_session_sip2webrtc'], bounded='up to two candidates')
def relay_to_webrtc(v):
    """plain media from one side: the other side is offered the keys and candidates the RTP proxy made"""
    sim = Sim(v)
    cls, side = v.choice('class', [(Rtp_proxy_session_webrtc2sip, 'callee'), (Rtp_proxy_session_sip2webrtc, 'caller')])
    s, c, (cid, ft, tt, tag) = mksession(v, cls)
    extra = 'x' + v.str('extra', 'alnum')
    x = ('audio', v.int('p', 1, 65535), 'RTP/AVP', '0', 'IP4', '10.0.0.1', ['rtpmap:0 PCMU/8000', extra])
    b, d = body(sdp(v, [x])), Done()
    (s.on_caller_sdp_change if side == 'caller' else s.on_callee_sdp_change)(b, d)
    v.ensure('asked', v.eq(c.sent, ['U %s-0 10.0.0.1 %d %s && M4:1 S && M5:1 S' % (cid, v.int('p', 1, 65535), ft if side == 'caller' else tt)]))
    mode, fp, uf, pw = v.choice('mode', ['active', 'passive']), v.str('fp', 'alnum', 1), v.str('uf', 'alnum', 1), v.str('pw', 'alnum', 1)
    cands = v.choice('cands', [['1 1 UDP 5 10.0.0.8 %d typ host' % v.int('cp', 1, 65535)], ['1 1 UDP 5 10.0.0.8 1 typ host', '2 1 UDP 4 10.0.0.9 2 typ host']])
    good = v.choice('answer', ['ok', 'dtls-short', 'ice-short', 'one', 'none', 'fail-1', 'fail-2', 'error'])
    dtls = '%s sha-256 %s' % (mode, fp)
    ice = '%s %s %s' % (uf, pw, ' '.join(['a=' + y.replace(' ', '%20') for y in cands]))
    first = '%d 10.9.9.9' % v.int('rp', 1, 65535)
    ans = {'ok': [first, dtls, ice], 'dtls-short': [first, mode, ice], 'ice-short': [first, dtls, uf], 'one': [first, dtls], 'none': [first],
           'fail-1': [first, '-1'], 'fail-2': [first, dtls, '-1'], 'error': ['E1', dtls, ice]}[good]
    out = v.call(c.answer, ' && '.join(ans) + '\n')
    v.ensure('no-exception', out.ok)
    v.ensure('told-once', len(d.got) == 1)
    if good != 'ok':
        v.ensure('error-told', d.got[0][0] is None and isinstance(d.got[0][1], RtpProxyError))
        v.cover(good)
        return
    o, top, ss = told(d.got[0][2])
    w = ['rtpmap:0 PCMU/8000', extra, 'setup:' + mode, 'fingerprint:sha-256 ' + fp, 'rtcp-mux', 'ice-lite', 'ice-ufrag:' + uf, 'ice-pwd:' + pw] + \
        ['candidate:' + y for y in cands]
    v.ensure('encrypted', v.eq(ss, [('audio %d UDP/TLS/RTP/SAVP 0' % v.int('rp', 1, 65535), 'IN IP4 10.9.9.9', [('a', y) for y in w])]))
    v.cover('ok')
