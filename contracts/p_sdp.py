"""C14: SDP bodies"""
from pyvc.api import contract
from contracts.p_hdr import shared
from sippy.SdpBody import SdpBody
from sippy.SdpMediaDescription import SdpMediaDescription, a_header
from sippy.SdpMedia import SdpMedia
from sippy.SdpOrigin import SdpOrigin
from sippy.SdpConnecton import SdpConnecton
from sippy.SdpGeneric import SdpGeneric
from sippy.MsgBody import MsgBody
from sippy.SipContentType import SipContentType
from sippy.SipConf import SipConf
from sippy.Exceptions.SdpParseError import SdpParseError

B = 'sippy/SdpBody.py:SdpBody.'
MD = 'sippy/SdpMediaDescription.py:SdpMediaDescription.'
ORDER = 'vosiuepcbtrzk'
MORDER = 'micbk'


def txt(v, name):
    return 'x' + v.str(name, 'text', 0, None, ' ')


def conn(v, name):
    return 'IN %s %s' % (['IP4', 'IP6'][(len(name) + v.choice('fam', [0, 1])) % 2], v.str(name, 'alnum', 1))


def attr(v, name, form=None):
    """an attribute line, with or without a value"""
    return (v.choice if form is None else lambda n, x: x[form])(name + '-form', ['%s', '%s:%s', '%s:%s: x=y']).replace('%s', 'a' + v.str(name + 'n', 'alnum'), 1).replace('%s', 'x' + v.str(name + 'v', 'text', 0, None, ' '), 1)


def session(v, extra=''):
    """mandatory session lines and the ones asked for, in the order of RFC 4566"""
    r = []
    for n in ORDER:
        if n == 'o':
            r.append(('o', '%s %s %s IN IP4 %s' % (v.token('oun'), v.str('osid', 'digits', 1), v.str('over', 'digits', 1), v.str('oaddr', 'alnum', 1))))
        elif n in 'vst' or n in extra:
            if n != 'c':
                r.append((n, txt(v, 's-' + n)))
            else:
                r.append(('c', conn(v, 's-c')))
    return r


def media(v, i, extra='', attrs=0):
    kind = ['audio', 'video', 'application'][i % 3]
    fmts = ' '.join('%d' % v.int('pt%d-%d' % (i, k), 0, 127) for k in range(2)) if kind != 'application' else v.str('fmt%d' % i, 'alnum', 1) + ' *'
    r = [('m', '%s %d %s %s' % (kind, v.int('port%d' % i, 0, 65535), v.choice('tr%d' % i, ['RTP/AVP']), fmts))]
    for n in 'icbk':
        if n in extra:
            r.append((n, txt(v, 'm%d-%s' % (i, n)) if n != 'c' else conn(v, 'm%d-c' % i)))
    return r + [('a', attr(v, 'm%da%d' % (i, k), (i + k) % 3)) for k in range(attrs)]


def text(ls, eol='\r\n'):
    return eol.join('%s=%s' % x for x in ls) + eol


def read(s, eol='\r\n'):
    """an SDP text as told: session lines without connection, sections as (connection, other lines)"""
    top, sects, c = [], [], None
    for l in s.split(eol)[:-1]:
        n, val = l.split('=', 1)
        if n == 'm':
            sects.append([None, []])
        if len(sects) == 0:
            if n == 'c':
                c = val
            else:
                top.append((n, val))
        elif n == 'c':
            sects[-1][0] = val
        else:
            sects[-1][1].append((n, val))
    return (top, [(x[0] if x[0] is not None else c, x[1]) for x in sects], c if len(sects) == 0 else None)


def same(v, s, want):
    got = read(s)
    return v.eq(got, want)


T = [B + '__init__', B + '__str__', B + 'localStr', B + 'addHeader', MD + 'addHeader', MD + '__str__', MD + 'localStr', 'sippy/SdpMediaDescription.py:a_header',
     'sippy/SdpMedia.py:SdpMedia', 'sippy/SdpOrigin.py:SdpOrigin', 'sippy/SdpConnecton.py:SdpConnecton']


def body_step(v, ls, eol='\r\n', tail=''):
    want = read(text(ls))
    b = SdpBody(text(ls, eol) + tail)
    s = str(b)
    v.ensure('kept', same(v, s, want))
    v.ensure('local-form', same(v, b.localStr(None), want) and same(v, b.localStr((('9.9.9.9', 5060), 'udp')), want))
    p = SdpBody(s)
    v.ensure('again', v.eq(str(p), s))
    c = b.getCopy()
    v.ensure('copy-equal', v.eq(str(c), s) and v.eq(c.localStr(None), b.localStr(None)) and c.__class__ is SdpBody and len(c.sections) == len(b.sections))
    v.ensure('copy-apart', shared(b, c) == [])
    return b, want


@contract('C14', targets=T, bounded='up to three media sections')
def sdp_lines(v):
    """every session and media line is kept, in order; what is written is read back the same"""
    n = v.choice('sections', [0, 1, 2, 3])
    extra = v.choice('lines', ['', 'iuepbrzk', 'ib', 'uekprz'])
    c = v.choice('conn', ['session', 'media', 'both', 'first', 'same'])
    if n == 0 and c not in ('session', 'media'):
        return
    ls = session(v, extra + ('c' if c in ('session', 'both', 'first') else ''))
    for i in range(0 if extra else 2):
        ls.append(('a', attr(v, 'sa%d' % i, 1 - i)))
    c0 = conn(v, 'same-c') if c == 'same' else None
    for i in range(n):
        x = media(v, i, extra + ('c' if c in ('media', 'both') or (c == 'first' and i == 0) else ''), 2 if i != 1 else 0)
        if c == 'same':
            x.insert(2 if len(x) > 1 and x[1][0] == 'i' else 1, ('c', c0))
        ls += x
    eol = v.choice('eol', ['\r\n', '\n', '\r'])
    body_step(v, ls, eol, '' if eol != '\r\n' else v.choice('tail', ['', '\r\n']))
    v.cover(c)


@contract('C14', targets=T, bounded='three media sections')
def sdp_attributes(v):
    """attributes stay with their section, in order, with their values"""
    ls = session(v, 'c')
    ls.append(('a', attr(v, 's1')))
    ls.append(('a', attr(v, 's2')))
    for i in range(3):
        ls += media(v, i, '', 0)
        if i == v.choice('which', [0, 1, 2]):
            ls += [('a', attr(v, 'm1')), ('a', attr(v, 'm2')), ('a', 'sendrecv')]
    b, want = body_step(v, ls)
    v.ensure('session-attributes', v.eq([str(x) for x in b.a_headers], [x[1] for x in want[0] if x[0] == 'a']))
    for sect, w in zip(b.sections, want[1]):
        v.ensure('section-attributes', v.eq([str(x) for x in sect.a_headers], [x[1] for x in w[1] if x[0] == 'a']))
        v.ensure('section-connection', v.eq(str(sect.c_header), w[0]))
    v.cover('any')


@contract('C14', targets=[B + '__str__', B + 'localStr'], bounded='up to three media sections')
def sdp_connections(v):
    """after connections are rewritten each section has the connection it was given"""
    n = v.choice('sections', [1, 2, 3])
    ls = session(v, v.choice('top', ['', 'c', 'ib', 'cib']))
    top = [x for x in ls if x[0] == 'c']
    for i in range(n):
        ls += media(v, i, '' if top else 'c')
    b = SdpBody(text(ls))
    if v.flag('copy'):
        b = b.getCopy()
    want = read(text(ls))
    new = []
    for i in range(n):
        if v.flag('rewrite%d' % i):
            b.sections[i].c_header.atype = 'IP4'
            b.sections[i].c_header.addr = v.str('addr%d' % i, 'alnum', 1)
            b.sections[i].m_header.port = v.int('nport%d' % i, 0, 65535)
            f = want[1][i][1][0][1].split(' ')
            m = ' '.join([f[0], '%d' % v.int('nport%d' % i, 0, 65535)] + f[2:])
            new.append(('IN IP4 ' + v.str('addr%d' % i, 'alnum', 1), [('m', m)] + want[1][i][1][1:]))
        else:
            new.append(want[1][i])
    w = (want[0], new, None)
    v.ensure('str', same(v, str(b), w))
    v.ensure('local', same(v, b.localStr(), w))
    v.cover('%d' % n)


@contract('C14', targets=[B + 'getCopy', MD + 'getCopy', 'sippy/MsgBody.py:MsgBody'], bounded='two media sections')
def sdp_copy(v):
    """a copy of a body is equal, and nothing done to it shows in the original"""
    ls = session(v, 'cib') + [('a', 'x:y'), ('a', 'z')] + media(v, 0, 'i', 1) + media(v, 1, 'c', 1)
    ct = SipContentType('application/sdp')
    b = MsgBody(text(ls), ct)
    ct.parse()
    if v.flag('parsed'):
        b.parse()
    s = str(b)
    c = b.getCopy()
    v.ensure('equal', v.eq(str(c), s) and v.eq(c.localStr(), b.localStr()) and str(c.mtype) == 'application/sdp' and c.parsed == b.parsed)
    v.ensure('apart', shared(b, c) == [])
    c.parse()
    d = c.content
    k = v.choice('change', ['port', 'formats', 'addr', 'attr', 'del-attr', 'sattr', 'origin', 'section', 'session-line'])
    if k == 'port':
        d.sections[0].m_header.port = 1
    elif k == 'formats':
        d.sections[0].m_header.formats.append(99)
    elif k == 'addr':
        d.sections[1].c_header.addr = 'new'
    elif k == 'attr':
        d.sections[0].addHeader('a', 'new')
    elif k == 'del-attr':
        d.sections[1].a_headers[0].value = 'changed'
    elif k == 'sattr':
        d.a_headers[0].value = 'changed'
    elif k == 'origin':
        d.o_header.version = 'changed'
    elif k == 'section':
        del d.sections[1]
    else:
        d += 'a=new'
        d.addHeader('s', 'new')
    v.ensure('original-kept', v.eq(str(b), s))
    v.cover(k)


@contract('C14', targets=[B + '__init__'], bounded='the listed malformations')
def sdp_malformed(v):
    """a mandatory line missing, or a line that cannot be, raises"""
    what = v.choice('what', ['missing', 'no-conn', 'no-conn-second', 'no-equals', 'unknown', 'port', 'origin', 'conn', 'media', 'format', 'empty'])
    spe = False
    if what == 'missing':
        k = v.choice('line', ['v', 'o', 's', 't'])
        ls = [x for x in session(v, 'c') if x[0] != k] + (media(v, 0) if v.flag('media') else [])
        spe = True
    elif what in ('no-conn', 'no-conn-second'):
        ls = session(v) + media(v, 0, 'c' if what != 'no-conn' else '') + media(v, 1, '' if what != 'no-conn' else 'c')
        spe = True
    else:
        ls = session(v, 'c') + media(v, 0)
    s = text(ls)
    if what == 'no-equals':
        at = v.choice('at', [0, 3, 6])
        q = s.split('\r\n')
        q.insert(at, 'x' + v.str('junk', 'alnum'))
        s = '\r\n'.join(q)
    elif what == 'unknown':
        q = 'q=%s\r\n' % txt(v, 'q')
        s = s + q if v.flag('last') else q + s
    elif what == 'port':
        s = s + 'm=audio %s RTP/AVP 0\r\n' % ('x' + v.str('badport', 'alnum'))
    elif what == 'origin':
        s = text([(n, ('extra ' if v.flag('more') else '') + x.split(' ', 0 if v.flag('more') else 1)[-1]) if n == 'o' else (n, x) for n, x in ls])
    elif what == 'conn':
        s = s + 'c=IN %s\r\n' % v.str('one', 'alnum', 1)
    elif what == 'media':
        s = s + 'm=' + v.choice('short', ['', 'audio', 'audio 5', 'video 5'])
    elif what == 'format':
        s = s + 'm=audio 5 RTP/AVP x' + v.str('badfmt', 'alnum')
    elif what == 'empty':
        s = v.choice('blank', ['', '\r\n', ' \r\n \r\n'])
        spe = True
    r = v.call(SdpBody, s)
    v.ensure('raises', not r.ok)
    v.ensure('the-sdp-error', not spe or isinstance(r.exc, SdpParseError))
    v.cover(what)


@contract('C14', targets=[MD + 'isOnHold'])
def sdp_hold(v):
    """on hold: a null address, or a direction without receiving"""
    fam = v.choice('fam', ['IP4', 'IP6'])
    addr = v.choice('addr', ['0.0.0.0', '::', v.str('host', 'alnum', 1)])
    d = v.choice('direction', [None, 'sendrecv', 'recvonly', 'sendonly', 'inactive', 'sendonly:1', 'x-sendonly'])
    ls = session(v) + [('m', 'audio %d RTP/AVP 0' % v.int('port', 0, 65535)), ('c', 'IN %s %s' % (fam, addr)), ('a', attr(v, 'm1'))]
    if d is not None:
        ls.insert(-1 if v.flag('first') else len(ls), ('a', d))
    b = SdpBody(text(ls))
    v.assume(v.not_(v.eq(b.sections[0].a_headers[0].name, 'a')))
    null = (fam, addr) in (('IP4', '0.0.0.0'), ('IP6', '::'))
    v.ensure('hold', b.sections[0].isOnHold() is (null or d in ('sendonly', 'inactive')))
    v.cover(str(d))


@contract('C14', targets=[MD + 'getPTbyName', MD + 'optimize_a', MD + 'insertHeader'], bounded='three rtpmap lines')
def sdp_payloads(v):
    """payload names come from the rtpmap lines; the ones of formats no longer there are removed"""
    pts = [v.int('pt%d' % i, 0, 127) for i in range(3)]
    v.assume(v.and_(pts[0] != pts[1], pts[1] != pts[2], pts[0] != pts[2]))
    names = [v.str('name%d' % i, 'alnum', 1) + '/8000' for i in range(3)]
    ls = session(v, 'c') + [('m', 'audio 5 RTP/AVP %d %d %d' % tuple(pts))]
    for p, n in zip(pts, names):
        ls.append(('a', 'rtpmap:%d %s' % (p, n)))
        ls.append(('a', 'fmtp:%d x=%s' % (p, v.token('f'))))
    ls.append(('a', 'ptime:20'))
    ls.append(('a', 'rtpmap'))if v.flag('odd') else None
    b = SdpBody(text(ls))
    s = b.sections[0]
    want = v.str('want', 'alnum', 1) + '/8000'
    if not v.flag('odd'):
        r = s.getPTbyName(want)
        if v.flag('asked'):
            i = v.choice('ask', [0, 1, 2])
            v.ensure('found', v.or_(v.eq(s.getPTbyName(names[i]), pts[i]), v.or_(*[v.eq(names[j], names[i]) for j in range(i)]) if i else False))
        for i in range(3):
            v.ensure('name', v.implies(v.and_(v.eq(want, names[i]), *[v.not_(v.eq(want, names[j])) for j in range(i)]), v.eq(r, pts[i])))
        v.ensure('unknown', v.iff(r is None, v.and_(*[v.not_(v.eq(want, n)) for n in names])))
        v.cover('name')
        return
    keep = [i for i in range(3) if v.flag('keep%d' % i)]
    s.m_header.formats = [pts[i] for i in keep]
    s.optimize_a()
    want = []
    for i in keep:
        want += ['rtpmap:%d %s' % (pts[i], names[i]), 'fmtp:%d x=%s' % (pts[i], v.token('f'))]
    v.ensure('removed', v.eq([str(x) for x in s.a_headers], want + ['ptime:20', 'rtpmap']))
    v.cover('optimize')


@contract('C14', targets=['sippy/SdpOrigin.py:SdpOrigin'])
def sdp_origin(v):
    """the origin of our own bodies: fresh, and with our address put in on output"""
    a, b = SdpOrigin(), SdpOrigin()
    v.ensure('fresh', a.session_id != b.session_id and a.version == a.session_id)
    c = a.getCopy()
    v.ensure('copy', v.eq(c.localStr((('1.2.3.4', 5060), 'udp')), '- %d %d IN IP4 1.2.3.4' % (a.session_id, a.version)))
    v.ensure('ipv6', v.eq(c.localStr((('[::1]', 5060), 'udp')), '- %d %d IN IP6 ::1' % (a.session_id, a.version)))
    v.ensure('again', v.eq(c.localStr((('1.2.3.4', 5060), 'udp')), '- %d %d IN IP4 1.2.3.4' % (a.session_id, a.version)))
    v.cover('own')


@contract('C14', targets=[B + '__init__'], bounded='one line repeated')
def sdp_repeated(v):
    """lines that may be there more than once"""
    line = v.choice('line', ['b', 't', 'r', 'e', 'p', 'mb', 'mc'])
    ls = session(v, 'c' if line == 'c' else 'cbre')
    if line in ('mb', 'mc'):
        one = ('b', txt(v, 'one')) if line == 'mb' else ('c', conn(v, 'one'))
        two = ('b', txt(v, 'two')) if line == 'mb' else ('c', conn(v, 'two'))
        ls += media(v, 0) + [one, two]
    else:
        i = [k for k, x in enumerate(ls) if x[0] == line]
        i = i[0] + 1 if i else 4
        ls[i:i] = [(line, txt(v, 'two'))] if line != 'p' else [('p', txt(v, 'one')), ('p', txt(v, 'two'))]
        ls += media(v, 0)
    b = SdpBody(text(ls))
    got = [x for x in str(b).split('\r\n')]
    v.ensure('kept', len(got) == len(text(ls).split('\r\n')))
    v.cover(line)


@contract('C14', targets=[B + '__init__'])
def sdp_line_ends(v):
    """only CR and LF end a line"""
    odd = v.choice('odd', ['\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029'])
    ls = session(v, 'c') + media(v, 0)
    name = 'x' + v.str('l', 'alnum') + odd + v.str('r', 'alnum', 1)
    ls = [(n, name if n == 's' else x) for n, x in ls] + [('a', 'label:' + name)]
    s = str(SdpBody(text(ls)))
    v.ensure('kept', same(v, s, read(text(ls))))
    v.cover('any')
