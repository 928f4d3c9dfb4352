"""C25: media in and out"""
from sippy.Rtp.OutputWorker import RTPOutputWorker
from sippy.Rtp.Ingest import RTPInStream
from sippy.Rtp.EPoint import RTPEPoint
from sippy.Rtp.Handlers import RTPHandlers
from sippy.Rtp.Params import RTPParams, canonicalize_rtp_target, canonicalize_rtp_address
from sippy.Rtp.Codecs.G711 import G711Codec
from sippy.Rtp.Codecs.G722 import G722Codec
from array import array
from sippy.Rtp.Core.AudioChunk import AudioChunk
from sippy.Rtp import Singletons
from sippy.Network_server import RTP_port_allocator
from rtpsynth.RtpJBuf import RTPFrameType, RTPParseError
from pyvc.api import contract
from contracts.lib import Sim

# the collector decides when these run; the contracts call them instead
_DEL = {}
for _c in (RTPOutputWorker, RTPEPoint):
    _DEL[_c] = _c.__dict__['__del__']
    _c.__del__ = lambda self: None

O = 'sippy/Rtp/OutputWorker.py:RTPOutputWorker.'
N = 'sippy/Rtp/Ingest.py:RTPInStream.'
E = 'sippy/Rtp/EPoint.py:RTPEPoint.'
P = 'sippy/Rtp/Params.py:'
S = 'sippy/Rtp/Singletons.py:'


class Audio(object):
    """samples, of which only the number matters here"""

    def __init__(self, name, n):
        self.name, self.n, self.more = name, n, 0

    def __len__(self):
        return self.n + self.more

    def __bool__(self):
        return True if self.n + self.more > 0 else False

    def extend(self, x):
        self.more = self.more + len(x)

    def __iadd__(self, x):
        self.extend(x)
        return self


class Chunk(object):
    debug = False
    rtime = None

    def __init__(self, v, name, n, rate=8000, rn=None):
        self.v, self.name, self.samplerate, self.rn = v, name, rate, rn
        self.audio = Audio(name, n)
        self.resampled = []

    def resample(self, rate):
        assert rate != self.samplerate
        self.resampled.append(rate)
        self.samplerate = rate
        self.audio = Audio(self.name, self.rn)
        return self

    @property
    def nframes(self):
        return len(self.audio)

    def to_bytes(self):
        return self.v.blob('pcm' + self.name, 2 * self.nframes)


class Synth(object):
    def __init__(self, crate, ptime):
        self.crate, self.ptime, self.log = crate, ptime, []
        Synth.last = self

    def next_pkt(self, plen, pt, pload=None):
        self.log.append(('pkt', plen, pt, pload))
        return ('pkt', len(self.log), pload)

    def skip(self, n):
        self.log.append(('skip', n))


class Chan(object):
    def __init__(self, owner, kw):
        self.owner, self.kw, self.closed, self.sent, self.target = owner, kw, False, [], None
        self.local_addr = (kw.get('bind_host'), kw.get('bind_port'))

    def close(self):
        assert not self.closed
        if self.owner.down:
            raise RuntimeError('Server has been shutdown')
        self.closed = True

    def set_target(self, host, port):
        assert not self.closed
        self.target = (host, port)

    def send_pkt(self, pkt):
        assert not self.closed
        self.sent.append(pkt)


class Worker(object):
    """the process or server that media workers share"""
    made = []
    busy = ()

    def __init__(self):
        self.chans, self.down = [], 0
        type(self).made.append(self)

    def create_channel(self, **kw):
        assert not self.down
        if kw.get('bind_port') in self.busy:
            raise OSError(98, 'Address already in use')
        c = Chan(self, kw)
        self.chans.append(c)
        return c

    def shutdown(self):
        self.down += 1

    def alive(self):
        return [c for c in self.chans if not c.closed]


def media(v):
    class Proc(Worker):
        made = []

    class Server(Worker):
        made = []
    v.patch(Singletons, 'RtpProc', Proc)
    v.patch(Singletons, '_rtp_proc_singleton', None)
    v.patch(Singletons, '_rtp_proc_refcount', 0)
    v.patch(Singletons, '_rtp_server_singleton', None)
    v.patch(Singletons, '_rtp_server_refcount', 0)
    v.patch('sippy.Rtp.OutputWorker', 'RtpSynth', Synth)
    return Proc, Server


def codec_of(v, base):
    class Codec(base):
        def __init__(self):
            self.out_srate = self.srate

        def encode(self, chunk):
            self.encoded.append((chunk.name, chunk.samplerate, len(chunk.audio), chunk.audio.more))
            return v.blob('enc' + chunk.name, len(chunk.audio))
        encoded = []
    return Codec


def worker(v, log=False):
    Proc, Server = media(v)
    ptime, base = v.choice('ptime', [(20, G711Codec), (30, G722Codec)])
    p = RTPParams(None, ptime)
    p.codec = codec_of(v, base)
    w = RTPOutputWorker(p)
    sent = []
    w.set_pkt_send_f(sent.append)
    if log:
        w.enable_datalog('/nonexistent/never')
    w.start()
    v.ensure('one-channel', len(Proc.made) == 1 and len(Proc.made[0].alive()) == 1)
    return Proc, w, p, sent, Proc.made[0].alive()[0].kw['proc_in'], 8 * ptime


def ceil(n, k):
    return -(-n // k) * k


@contract('C25', targets=[O + '_proc_in', O + 'soundout', O + '_mark_processed_bytes', O + '__init__', O + 'start', O + 'update_frm_ctrs', O + 'join'],
          bounded='up to three chunks, together up to four packets')
def rtp_out(v):
    """every frame is sent, in order, in packets of full size, one per period; the counters are exact"""
    Proc, w, p, sent, tick, psize = worker(v)
    sy = Synth.last
    v.ensure('clock', (sy.crate, sy.ptime) == (8000, p.out_ptime))
    n = v.choice('chunks', [0, 1, 2, 3])
    late = v.choice('later', [0, 1]) if n > 1 else 0     # the last chunk comes after a pause
    first = v.int('first', 0)
    odd = n > 0 and v.flag('resampled')
    chunks, cum, fs, total = [], [], [], 0
    for i in range(n):
        f = m = v.int('n%d' % i, 1, 3 * psize if n < 3 else 2 * psize)
        rate = 8000
        if odd and i == 0:
            rate = v.int('rate', 1, 192000)
            v.assume(rate != 8000)
            m = v.int('rn', 0, 2 * psize)
        chunks.append(Chunk(v, str(i), f, rate, m))
        total = total + ceil(m, psize)
        cum.append(total)
        fs.append(f)
    v.assume(total <= 4 * psize)
    held = chunks[n - late:]
    rcvd = 0
    for i, c in enumerate(chunks[:n - late]):
        v.ensure('queued', v.eq(w.soundout(c), (i + 1, False)))
        rcvd = rcvd + fs[i]
    v.ensure('received', v.eq(w.get_frm_ctrs(), (rcvd, 0)))
    now, dl, idle, loads = 1000, first, 0, []
    while idle < 2 or held:
        if held and idle == 1:
            c = held.pop()
            w.soundout(c)
            rcvd = rcvd + fs[n - 1]
        n0, l0 = len(sent), len(sy.log)
        ndl = tick(now, dl)
        v.ensure('deadline', ndl == (dl or now) + p.out_ptime * 1000000)
        dl = ndl
        now += p.out_ptime * 1000000
        new = sy.log[l0:]
        v.ensure('one-a-period', len(new) == (1 if n - len(held) > 0 else 0))
        if new and new[0][0] == 'pkt':
            v.ensure('packet', new[0][1:3] == (psize, p.codec.ptype) and len(sent) == n0 + 1)
            v.ensure('handed-out', len(sent) == n0 + 1 and sent[-1][1] == len(sy.log))
            loads.append(new[0][3])
        else:
            v.ensure('nothing-sent', len(sent) == n0 and new in ([], [('skip', 1)]))
            idle += 1
        out = len(loads) * psize
        there = cum[n - len(held) - 1] if n > len(held) else 0
        if not loads or not new or new[0][0] == 'skip':
            v.ensure('nothing-left', there <= out)
        if not odd or idle > 1:
            gone = 0
            for i in range(n - len(held)):
                gone = gone + v.ite(cum[i] <= out, fs[i], 0)
            v.ensure('processed', v.eq(w.get_frm_ctrs(), (rcvd, gone)))
    whole = b''
    for x in loads:
        v.ensure('full', v.eq(len(x), psize))
        whole = whole + x
    want = b''
    for i, c in enumerate(chunks):
        if len(c.audio) > 0:
            want = want + v.blob('enc%d' % i, len(c.audio))
        v.ensure('samples', v.and_(v.eq(c.audio.n, c.rn), v.eq(c.audio.more, ceil(c.rn, psize) - c.rn), c.resampled == ([8000] if odd and i == 0 else [])))
    v.ensure('all-sent', v.eq(whole, want))
    v.ensure('all-processed', v.eq(w.get_frm_ctrs(), (rcvd, rcvd)))
    v.cover('silent' if not loads else 'sent')
    w.end()
    v.ensure('ended', tick(now, dl) is None and len(sent) == len(loads) and w.ended())
    w.join()
    v.ensure('released', Proc.made[0].down == 1 and not Proc.made[0].alive())


# ------------------------------------------------------------------ received media
class JBuf(object):
    """the jitter buffer: hands on what it has put in order"""
    made = []

    def __init__(self, size):
        self.size, self.ins, self.outs = size, [], []
        JBuf.made.append(self)

    def udp_in(self, data, rtime):
        self.ins.append((data, rtime))
        r = self.outs.pop(0)
        if isinstance(r, Exception):
            raise r
        return r


class Obj(object):
    def __init__(self, **k):
        for n, x in k.items():
            setattr(self, n, x)


def rtp_pkt(lseq, data, rtime):
    return Obj(content=Obj(type=RTPFrameType.RTP, frame=Obj(rtp=Obj(lseq=lseq))), rtp_data=data, opaque=rtime)


def lost(a, b, diff):
    return Obj(content=Obj(type=RTPFrameType.ERS, lseq_start=a, lseq_end=b, ts_diff=diff))


@contract('C25', targets=[N + '__init__', N + 'rtp_received', N + 'pkt_proc', N + 'stream_update', N + 'stream_connect'],
          bounded='up to three packets, together up to three chunks')
def rtp_in(v):
    """what is received is handed on complete, in order, in equal chunks; what was lost is silence"""
    v.patch('sippy.Rtp.Ingest', 'RtpJBuf', JBuf)
    v.patch(JBuf, 'made', [])
    rate = v.choice('rate', [8000, 16000])
    p = RTPParams(None, 20, rate)
    decoded = []

    class Codec(G711Codec):
        def __init__(self):
            self.out_srate = self.srate

        def decode(self, data, *a, **k):
            decoded.append((data, a, k, self.out_srate))
            return Obj(n=len(decoded))

        def silence(self, n):
            return v.blob('silence', n)
    p.codec = Codec
    got, got2 = [], []
    s = RTPInStream(p, got.append)
    jb = JBuf.made[-1]
    n = v.choice('packets', [1, 2, 3])
    kinds = []
    total = 0
    want = b''
    have = 0            # octets taken
    seq = v.int('seq', 0, 70000)
    broken = v.flag('broken')
    for i in range(n):
        kind = v.choice('kind%d' % i, ['pkt', 'lost', 'none'] if i == 1 else ['pkt'])
        rt = v.real('rt%d' % i, 0, 1000000)
        k = v.int('len%d' % i, 1, 1700)
        total = total + k
        v.assume(total <= 2500)
        if kind == 'pkt':
            d = v.blob('d%d' % i, k)
            outs = [rtp_pkt(seq, d, rt)]
            want = want + d
            seq = seq + 1
        elif kind == 'lost':
            gap = v.int('gap', 1, 5)
            outs = [lost(seq, seq + gap - 1, k)]
            want = want + v.blob('silence', k)
            seq = seq + gap
        else:
            outs = []
        if broken and i == 0:
            jb.outs.append(RTPParseError('no packet'))
            s.rtp_received(b'what is this', ('10.0.0.1', 5000), rt)
            v.ensure('broken-ignored', not got and not decoded)
        jb.outs.append(outs)
        raw = b'raw%d' % i
        n0 = len(got)
        start = (len(want) if kind == 'pkt' else 0) - (k if kind == 'pkt' else 0)
        s.rtp_received(raw, ('10.0.0.1', 5000), rt)
        v.ensure('to-jitter-buffer', v.eq(jb.ins[-1], (raw, rt)))
        have = 0
        for d, a, kw, r in decoded:
            have = have + len(d)
        left = len(want) - have
        v.ensure('no-more-than-a-chunk-kept', v.and_(left >= 0, left < 800))
        if kind == 'pkt':
            # the time of a chunk is the one of its first sample
            at = 0
            for j, (d, a, kw, r) in enumerate(decoded):
                if j >= n0:
                    off = got[j].rtime - (rt + (at - start) / 8000)
                    v.ensure('time', v.and_(off < 0.000001, off > -0.000001))
                at = at + len(d)
    whole = b''
    for j, (d, a, kw, r) in enumerate(decoded):
        v.ensure('chunk', v.and_(v.eq(len(d), 800), r == rate))
        v.ensure('whole-chunk-decoded', len(a) == 0 and not kw)
        whole = whole + d
    v.ensure('handed-on', [x.n for x in got] == list(range(1, len(decoded) + 1)))
    v.ensure('all-in-order', v.eq(whole, want[:len(decoded) * 800] if decoded else b''))
    v.cover('chunk' if got else 'short')
    # the stream begins anew, for somebody else
    s.stream_update()
    s.stream_connect(got2.append)
    v.ensure('new-jitter-buffer', len(JBuf.made) == 2 and JBuf.made[1].size == JBuf.made[0].size)
    rest = len(want) - len(decoded) * 800
    n0 = len(got)
    JBuf.made[1].outs.append([rtp_pkt(v.int('seq2', 0, 70000), v.blob('e', 800), v.real('rte'))])
    s.rtp_received(b'x', ('10.0.0.1', 5000), v.real('rte'))
    v.ensure('after-update', len(got) == n0 and len(got2) == 1 and len(decoded) == n0 + 1)
    v.ensure('octets-after-update', v.eq(len(decoded[-1][0]), 800))


# ------------------------------------------------------------------ parameters
HOSTS = [('10.0.0.1', '10.0.0.1', 'IP4'), ('10.0.0.2', '10.0.0.2', 'IP4'), ('[::1]', '::1', 'IP6'), ('0:0:0:0:0:0:0:1', '::1', 'IP6'), ('::1', '::1', 'IP6'),
         ('2001:DB8::0001', '2001:db8::1', 'IP6'), ('[2001:db8:0::1]', '2001:db8::1', 'IP6'), ('media.example.com', 'media.example.com', 'IP4')]


def lookups(v):
    log = []

    def l4r(host, family=2):
        log.append((host, int(family)))
        if (':' in host) != (int(family) == 10):
            raise OSError('address family for hostname not supported')
        return '[2001:db8::99]' if int(family) == 10 else '10.9.9.9'
    v.patch('sippy.Rtp.Params', 'local4remote', l4r)
    return log


@contract('C25', targets=[P + 'canonicalize_rtp_target', P + 'canonicalize_rtp_address', P + 'canonicalize_rtp_host'])
def rtp_addresses(v):
    """addresses that denote the same host and port are the same target"""
    a, ca, fa = v.choice('a', HOSTS)
    b, cb, fb = v.choice('b', HOSTS)
    p, q = v.int('p', 1, 65535), v.int('q', 1, 65535)
    x = canonicalize_rtp_target((a, p))
    y = canonicalize_rtp_target((b, str(q)))
    v.ensure('canonical', v.and_(v.eq(x, (ca, p)), v.eq(y, (cb, q))))
    v.ensure('same-iff', v.iff(v.eq(x, y), v.and_(ca == cb, v.eq(p, q))))
    v.ensure('again', v.eq(canonicalize_rtp_target(x), x))
    v.ensure('none', canonicalize_rtp_target(None) is None)
    tail = v.choice('tail', [(), (0, 0), (0, 2)])
    v.ensure('source', v.eq(canonicalize_rtp_address((a, p) + tail), x))
    for odd in (None, 'host', (a,), [a, 5], (b'10.0.0.1', 5)):
        v.ensure('odd', canonicalize_rtp_address(odd) is None)
    v.cover('same' if ca == cb else 'other')


@contract('C25', targets=[P + 'RTPParams.__init__', P + 'RTPParams._get_laddr'], bounded='three settings')
def rtp_parameters(v):
    """the parameters are what they were set to; the local address is the one for the target and family"""
    log = lookups(v)
    port = v.int('port', 1, 65535)
    fam = v.choice('proto', ['IP4', 'IP6', 'ip4', 'ip6'])
    here = {'IP4': ('0.0.0.0', '10.9.9.9'), 'IP6': ('::', '2001:db8::99')}
    hosts = [None] + [h for h in HOSTS if h[2] == fam.upper()]
    t = v.choice('t0', range(len(hosts))) if True else 0
    t = hosts[t] if t < len(hosts) else None
    ptime, sr = v.int('ptime', 10, 100), v.int('sr', 8000, 48000)
    p = RTPParams(None if t is None else (t[0], port), ptime, sr, fam)

    def check(name, t, port, fam):
        v.ensure(name, v.eq(p.rtp_target, None if t is None else (t[1], port)))
        v.ensure(name + '-proto', p.rtp_proto == fam and int(p.rtp_family) == (2 if fam == 'IP4' else 10))
        v.ensure(name + '-local', p.rtp_laddr == here[fam][0 if t is None else 1])
    check('made', t, port, fam.upper())
    v.ensure('times', v.and_(v.eq(p.out_ptime, ptime), v.eq(p.out_sr, sr)))
    v.ensure('port', p.rtp_lport == 0)
    # another target of the family
    u = v.choice('t1', range(len(hosts)))
    u = hosts[u] if u < len(hosts) else None
    q = v.int('port2', 1, 65535)
    n0 = len(log)
    p.rtp_target = None if u is None else (u[0], q)
    check('changed', u, q, fam.upper())
    if u is not None and t is not None and u[1] == t[1] and bool(v.eq(q, port)):
        v.cover('same')
        v.ensure('no-lookup', len(log) == n0)
    elif u is not None:
        v.ensure('lookup', log[n0:] == [(u[1], 2 if fam.upper() == 'IP4' else 10)])
    # another family
    p.rtp_target = None
    other = 'IP6' if fam.upper() == 'IP4' else 'IP4'
    p.rtp_proto = v.choice('case', [other, other.lower()])
    check('family', None, 0, other)
    o = [h for h in HOSTS if h[2] == other][0]
    p.rtp_target = (o[0], q)
    check('again', o, q, other)
    bad = v.choice('bad', ['IP5', '', 'UDP'])
    try:
        p.rtp_proto = bad
        v.ensure('bad-refused', False)
    except AssertionError:
        pass
    check('kept', o, q, other)


# ------------------------------------------------------------------ shared workers
@contract('C25', targets=[S + 'acquire_rtp_server', S + 'release_rtp_server', S + 'acquire_rtp_proc', S + 'release_rtp_proc'],
          bounded='up to six operations')
def rtp_workers(v):
    """a shared worker exists exactly as long as it has users"""
    Proc, Server = media(v)
    kind = v.choice('kind', ['server', 'proc'])
    cls = Server if kind == 'server' else Proc
    acquire = (lambda: Singletons.acquire_rtp_server(Server)) if kind == 'server' else Singletons.acquire_rtp_proc
    release = Singletons.release_rtp_server if kind == 'server' else Singletons.release_rtp_proc
    users = 0
    held = None
    old = None
    for i in range(6):
        op = v.choice('op%d' % i, ['acquire', 'release', 'stray'])
        made = len(cls.made)
        if op == 'acquire':
            w = acquire()
            users += 1
            v.ensure('one-at-a-time', w is cls.made[-1] and len(cls.made) == made + (1 if held is None else 0))
            v.ensure('the-same', held is None or w is held)
            held = w
        elif op == 'release':
            # the one in use, or the one that was
            release(held if held is not None else old if old is not None else object())
            if users:
                users -= 1
                if users == 0:
                    old, held = held, None
        else:
            release(old if old is not None else object())
        v.ensure('alive-iff-used', [x for x in cls.made if not x.down] == ([held] if users else []))
        v.ensure('ended-once', all(x.down <= 1 for x in cls.made))


# ------------------------------------------------------------------ endpoints
TARGETS = [None, ('10.0.0.1', 5000), ('10.0.0.2', 5002), ('::1', 5004)]


class Writer(RTPOutputWorker):
    pass


def fam_of(t):
    return 'IP6' if t is not None and ':' in t[0] else 'IP4'


def mkparams(codec, t, ptime=20):
    p = RTPParams(t, ptime, 8000, fam_of(t))
    p.codec = codec
    return p


@contract('C25', targets=[E + '__init__', E + 'update', E + 'shutdown', E + 'writer_setup', E + 'make_udp_server', E + '_swap_channel', E + '_bind_channel',
                          E + 'send_pkt', E + 'rtp_received', E + 'soundout', E + 'make_udp_server_opts', E + '_create_channel'], bounded='up to two updates')
def rtp_endpoint(v):
    """an endpoint has one channel, bound in the family of its target and told it, a writer while there is a target, and
    nothing once it is shut down; only what comes from the target is taken"""
    Proc, Server = media(v)
    lookups(v)
    JB = []
    codec = codec_of(v, G711Codec)
    h = RTPHandlers()

    class In(object):
        def __init__(self, p, ain):
            self.p, self.ain, self.log = p, ain, []

        def rtp_received(self, data, address, rtime):
            self.log.append((data, address, rtime))

        def stream_update(self):
            self.log.append('update')

        def stream_connect(self, ain):
            self.ain = ain
    h.rtp_instream_cls = In
    h.rtp_server_cls = Server
    ports = [20000, 20002, 20004, 20006, 20008]
    tries = []

    def palloc(n):
        tries.append(n)
        return ports[len(tries) - 1]
    busy = v.choice('busy', [(), (20000, 20002)])
    Server.busy = busy
    rc = Obj(palloc=palloc)
    t = v.choice('t0', TARGETS)
    ptime = 20
    ep = RTPEPoint(rc, mkparams(codec, t), 'consumer', h)

    def check(name):
        srv = [s for s in Server.made if not s.down]
        v.ensure(name + '-server', len(srv) == 1 and len(Server.made) == 1)
        ch = srv[0].alive()
        v.ensure(name + '-one-channel', len(ch) == 1)
        c = ch[0]
        v.ensure(name + '-bound', int(c.kw['bind_family']) == (2 if fam == 'IP4' else 10) and c.kw['bind_port'] == ep.rtp_params.rtp_lport
                 and c.kw['bind_host'] == {'IP4': '0.0.0.0' if t is None else '10.9.9.9', 'IP6': '::' if t is None else '2001:db8::99'}[fam]
                 if moved else True)
        v.ensure(name + '-family', int(c.kw['bind_family']) == (2 if fam == 'IP4' else 10))
        v.ensure(name + '-target', t is None or c.target == t)
        procs = [x for x in Proc.made if not x.down]
        w = [x for p in procs for x in p.alive()]
        v.ensure(name + '-writer', len(w) == (0 if t is None else 1))
        v.ensure(name + '-worker', len(procs) == len(w) and (ep.writer is not None) == (t is not None))
        # media goes out of the channel
        n0 = len(c.sent)
        a = Chunk(v, 'a' + name, v.int('frames', 1, 160))
        got = ep.soundout(a)
        if t is None:
            v.ensure(name + '-no-output', got is None and len(a.audio) == v.int('frames', 1, 160))
        else:
            v.ensure(name + '-queued', v.eq(got, (1, False)))
            w[0].kw['proc_in'](1000, 0)
            v.ensure(name + '-sent', len(c.sent) == n0 + 1)
            sy = Synth.last
            v.ensure(name + '-clock', (sy.crate, sy.ptime) == (8000, ptime) and sy.log[-1][0:3] == ('pkt', 8 * ptime, 0))
        # media that comes in
        src = (v.choice('source', ['10.0.0.1', '10.0.0.2', '::1']), v.int('sport', 1, 65535))
        n0 = len(ep.rsess.log)
        c.kw['pkt_in'](b'data', src, 5000000000)
        taken = len(ep.rsess.log) - n0
        v.ensure(name + '-source', v.iff(taken == 1, True if t is None else v.eq(src, t)))
        v.ensure(name + '-handed-on', taken in (0, 1) and (taken == 0 or v.eq(ep.rsess.log[-1], (b'data', src, 5.0))))
    fam = fam_of(t)
    moved = True
    v.ensure('tried', tries == list(range(len(busy) + 1)))
    check('made')
    for i in range(v.choice('updates', [0, 1, 2])):
        t1 = v.choice('t%d' % (i + 1), TARGETS)
        pt1 = v.choice('pt', [20, 30])
        if i == 0 and v.flag('taken'):
            # the port in use here is not free in the other family
            Server.busy = busy + (ep.rtp_params.rtp_lport,)
        n0 = len(ep.rsess.log)
        ep.update(mkparams(codec, t1, pt1))
        moved = fam_of(t1) != fam
        t, ptime, fam = t1, pt1, fam_of(t1)
        v.ensure('told-stream', ep.rsess.log[n0:] == ['update'])
        check('updated%d' % i)
    ep.connect('other')
    v.ensure('connected', ep.rsess.ain == 'other')
    if v.flag('collected'):
        _DEL[RTPEPoint](ep)
    else:
        ep.shutdown()
    v.ensure('all-closed', not [c for s in Server.made for c in s.alive()] and not [c for p in Proc.made for c in p.alive()])
    v.ensure('all-released', all(s.down == 1 for s in Server.made) and all(p.down == 1 for p in Proc.made))
    ep.shutdown()
    ep.update(mkparams(codec, ('10.0.0.1', 5000), 20))
    v.ensure('stays-closed', not [c for s in Server.made for c in s.alive()] and not [c for p in Proc.made for c in p.alive()]
             and all(p.down == 1 for p in Proc.made) and ep.soundout(Chunk(v, 'z', 5)) is None)


@contract('C25', targets=[E + 'make_udp_server', E + '_bind_channel'])
def rtp_endpoint_fails(v):
    """an endpoint that cannot be made leaves nothing behind"""
    Proc, Server = media(v)
    lookups(v)
    h = RTPHandlers()
    h.rtp_instream_cls = lambda p, ain: None
    what = v.choice('what', ['bind', 'no-ports', 'target', 'in-use'])
    err = v.int('errno', 1, 130)
    v.assume(err != 98)

    class Bad(Server):
        made = []

        def create_channel(self, **kw):
            if what == 'bind':
                raise OSError(err, 'cannot')
            if what == 'in-use':
                raise OSError(98, 'Address already in use')
            c = Server.create_channel(self, **kw)
            if what == 'target':
                def no(*a):
                    raise ValueError('no such host')
                c.set_target = no
            return c
    h.rtp_server_cls = Bad
    if what == 'no-ports':
        def palloc(n):
            raise RuntimeError('no free ports')
    else:
        lo = v.int('lo', 1024, 60000)
        pa = RTP_port_allocator(lo, lo + 2)
        asked = []

        def palloc(n):
            p = pa(n)
            asked.append(p)
            v.ensure('port-in-range', v.and_(p >= lo, p <= lo + 3, v.eq(p % 2, 0)))
            return p
    try:
        ep = RTPEPoint(Obj(palloc=palloc), mkparams(codec_of(v, G711Codec), ('10.0.0.1', 5000)), None, h)
        v.ensure('raises', False)
    except (OSError, ValueError):
        v.ensure('error-kept', what != 'no-ports')
    except RuntimeError as e:
        v.ensure('error-kept', what == 'no-ports' and str(e) == 'no free ports')
    except Exception as e:
        v.ensure('port-error', what == 'in-use' and type(e).__name__ == 'PortAllocationError')
        v.cover('gave-up')
    v.ensure('nothing-left', not [c for s in Bad.made for c in s.alive()] and all(s.down == 1 for s in Bad.made) and not Proc.made)


@contract('C25', targets=['sippy/Rtp/Codecs/G711.py:G711Codec.e2d_frames', 'sippy/Rtp/Codecs/G711.py:G711Codec.d2e_frames', 'sippy/Rtp/Codecs/G722.py:G722Codec.e2d_frames',
                          'sippy/Rtp/Codecs/G722.py:G722Codec.d2e_frames', 'sippy/Rtp/Codecs/GenCodec.py:GenCodec.rtpmap', 'sippy/Rtp/Codecs/GenCodec.py:GenCodec.e2t',
                          'sippy/Rtp/Codecs/G722.py:G722Codec.e2t'])
def rtp_codecs(v):
    """numbers of samples and of octets belong to each other; time is that of the codec"""
    cls, pt, name = v.choice('codec', [(G711Codec, 0, 'PCMU'), (G722Codec, 9, 'G722')])
    c = cls()
    v.ensure('rtpmap', cls.rtpmap() == 'rtpmap:%d %s/8000' % (pt, name) and cls.ptype == pt)
    k = v.choice('times', [1, 2, 4, 6])
    c.out_srate = 8000 * k
    n = v.int('octets', 0)
    m = v.int('samples', 0)
    v.ensure('samples-of-octets', v.eq(c.e2d_frames(n), k * n))
    v.ensure('octets-of-samples', v.eq(c.d2e_frames(m), m // k))
    v.ensure('back', v.eq(c.d2e_frames(c.e2d_frames(n)), n))
    r = 8000 * v.choice('rate', [1, 2, 3])
    v.ensure('other-rate', v.and_(v.eq(c.e2d_frames(n, r), r // 8000 * n), v.eq(c.d2e_frames(m, r), m // (r // 8000))))
    t = c.e2t(n) - v.ite(n >= 0, n, 0) / 8000
    v.ensure('time', v.and_(t < 0.000001, t > -0.000001))
    w = cls()
    w.out_srate = c.out_srate
    for l in (0, 1, 160):
        v.ensure('silence', len(w.silence(l)) == l and type(w.silence(l)) is type(w.encode(AudioChunk(array('h'), 8000))))
    s = v.choice('len', [0, 1, 80, 160, 161, 320])
    enc = cls().encode(AudioChunk(array('h', [v.choice('level', [0, 1000, -32768])] * s), 8000))
    if cls is G711Codec or s % 2 == 0:
        v.ensure('encoded', len(enc) == s)
        dec = cls().decode(bytes(enc))
        v.ensure('decoded', len(dec.audio) == s and dec.samplerate == 8000 and dec.nframes == s)


@contract('C25', targets=['sippy/Rtp/Core/AudioChunk.py:AudioChunk', 'sippy/Rtp/Core/AudioChunk.py:pcm16_from'], bounded='chunks of a table')
def rtp_chunks(v):
    """samples from any form are the same samples"""
    xs = v.choice('samples', [[], [0], [1, -1, 32767, -32768], list(range(100))])
    rate = v.int('rate', 1, 192000)
    a = array('h', xs)
    form = v.choice('form', [array, bytes, bytearray, memoryview])
    src = a if form is array else memoryview(a) if form is memoryview else form(a.tobytes())
    c = AudioChunk(src, rate)
    v.ensure('samples', list(c.audio) == xs and c.nframes == len(xs) and c.to_bytes() == a.tobytes())
    d = c.duration() * rate - len(xs)
    v.ensure('duration', v.and_(d < 0.001, d > -0.001, v.eq(c.samplerate, rate)))
    try:
        AudioChunk(array('i', xs), rate)
        v.ensure('other-samples-refused', False)
    except TypeError:
        pass
    if len(xs) > 3:
        c = AudioChunk(array('h', xs), 8000)
        c.resample(16000)
        v.ensure('resampled', c.samplerate == 16000 and 2 * len(xs) - 2 <= c.nframes <= 2 * len(xs) + 2)
