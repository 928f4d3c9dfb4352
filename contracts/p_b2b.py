"""the B2BUA itself: routing rules (C16)"""
from pyvc.api import contract
from contracts.lib import hdrs
from contracts.p_hdr import shared
from sippy.B2B.Route import B2BRoute
from sippy.B2B.Transforms import VAL2Xattrs, VAL2XattrsA, VAL2XattrsO, HDR2Xattrs, getTransProc
from sippy.SipHeader import SipHeader
from sippy.SipConf import SipConf
from socket import AF_INET, AF_INET6, SOCK_STREAM

R = 'sippy/B2B/Route.py:B2BRoute.'
RATTR = ('rnum', 'cld', 'cld_set', 'hostport', 'hostonly', 'credit_time', 'crt_set', 'expires', 'no_progress_expires',
         'no_reply_expires', 'forward_on_fail', 'user', 'passw', 'pass_auth', 'cli', 'cli_set', 'params', 'ainfo')
DEF = {'rnum': None, 'cld': None, 'cld_set': False, 'credit_time': None, 'crt_set': False, 'expires': None,
       'no_progress_expires': None, 'no_reply_expires': None, 'forward_on_fail': False, 'user': None, 'passw': None,
       'pass_auth': True, 'cli': None, 'cli_set': False}


class Resolver(object):
    """getaddrinfo: records what is asked, answers with a fixed mixture of families"""

    def __init__(self, v, order='46'):
        self.asked = []
        self.ans = {'46': [(AF_INET, 1, 6, '', ('192.0.2.1', 5099)), (AF_INET6, 1, 6, '', ('2001:db8::1', 5098, 0, 0)),
                           (AF_INET, 1, 6, '', ('192.0.2.2', 5097))],
                    '64': [(AF_INET6, 1, 6, '', ('2001:db8::1', 5098, 0, 0)), (AF_INET, 1, 6, '', ('192.0.2.2', 5097))],
                    '4': [(AF_INET, 1, 6, '', ('192.0.2.1', 5099))], '6': [(AF_INET6, 1, 6, '', ('2001:db8::1', 5098, 0, 0))]}[order]
        v.patch('sippy.B2B.Route', 'getaddrinfo', self)

    def __call__(self, *a):
        self.asked.append(a)
        return self.ans


def option(v, i, only=None):
    """one option of a rule: text, attributes, parameters, extra header"""
    p = 'o%d' % i
    k = v.choice(p, ['credit', 'expires', 'np', 'nr', 'neg', 'fof', 'auth', 'nopass', 'cli', 'nocli', 'cnam', 'nocnam', 'ash', 'rtpp', 'op', 'op-port',
                     'hs', 'other', 'none'] if only is None else only)
    n = v.int(p + 'n', 0, 2147483647)
    t = 'x' + v.str(p + 't', 'alnum')
    if k == 'credit':
        return 'credit-time=%d' % n, {'credit_time': n, 'crt_set': True}, {}, None
    if k == 'expires':
        return 'expires=%d' % n, {'expires': n}, {}, None
    if k == 'np':
        return 'np_expires=%d' % n, {'no_progress_expires': n}, {}, None
    if k == 'nr':
        return 'nr_expires=%d' % n, {'no_reply_expires': n}, {}, None
    if k == 'neg':
        # a negative limit: no limit
        o, a = v.choice(p + 'neg', [('credit-time', 'credit_time'), ('expires', 'expires'), ('np_expires', 'no_progress_expires'),
                                    ('nr_expires', 'no_reply_expires')])
        r = {a: None}
        if a == 'credit_time':
            r['crt_set'] = True
        return '%s=%d' % (o, -1 - n), r, {}, None
    if k == 'fof':
        return 'forward_on_fail=1', {'forward_on_fail': True}, {}, None
    if k == 'auth':
        pw = v.str(p + 'pw', 'text', 0, None, ';')
        return 'auth=%s:%s' % (t, pw), {'user': t, 'passw': pw, 'pass_auth': False}, {}, None
    if k == 'nopass':
        return 'auth=nopass', {'pass_auth': False}, {}, None
    if k == 'cli':
        x = v.str(p + 'cli', 'text', 1, None, ';')
        return 'cli=%s' % x, {'cli': x, 'cli_set': True}, {}, None
    if k == 'nocli':
        return 'cli=', {'cli': None, 'cli_set': True}, {}, None
    if k == 'cnam':
        return 'cnam=%s%%20%s%%3B' % (t, t), {}, {'caller_name': '%s %s;' % (t, t)}, None
    if k == 'nocnam':
        return 'cnam=', {}, {'caller_name': None}, None
    if k == 'ash':
        return 'ash=X-%s%%3A%%20v%s%%3D1' % (t, t), {}, {}, ('X-%s' % t, 'v%s=1' % t)
    if k == 'rtpp':
        return 'rtpp=%d' % n, {}, {'rtpp': n != 0}, None
    if k == 'op':
        return 'op=%s.example' % t, {}, {'outbound_proxy': (t + '.example', 5060)}, None
    if k == 'op-port':
        return 'op=%s.example:%d' % (t, n), {}, {'outbound_proxy': (t + '.example', n)}, None
    if k == 'hs':
        m = v.int(p + 'm', 100, 699)
        return v.choice(p + 'hs', [('hs_scodes=%d,%d' % (n, m), {}, {'huntstop_scodes': (n, m)}, None),
                                   ('hs_scodes=%d' % n, {}, {'huntstop_scodes': (n,)}, None),
                                   ('hs_scodes=', {}, {'huntstop_scodes': ()}, None)])
    if k == 'other':
        x = v.str(p + 'x', 'text', 0, None, ';')
        return 'zz%s=%s' % (t, x), {}, {'zz' + t: x}, None
    return None, {}, {}, None


def attrs_of(r):
    return [getattr(r, n) for n in RATTR]


def hlist(r):
    return [] if r.extra_headers is None else [(x.name.lower(), str(x.body)) for x in r.extra_headers]


def check_rule(v, r, want, params, hds):
    for n in sorted(want):
        v.ensure('attribute', v.eq(getattr(r, n), want[n]))
    v.ensure('parameters', v.eq(sorted(r.params.items()) if len(r.params) < 2 else [(k, r.params.get(k, 'missing')) for k in params],
                                sorted(params.items()) if len(r.params) < 2 else [(k, params[k]) for k in params]))
    v.ensure('no-other-parameter', len(r.params) == len(params))
    v.ensure('headers', v.eq(hlist(r), [(n.lower(), b) for n, b in hds]))


@contract('C16', targets=[R + '__init__', R + 'cli', R + 'cld'])
def route_rule_place(v):
    """number and host of a rule, as written"""
    rs = Resolver(v)
    num = v.choice('num', ['absent', 'empty', 'given'])
    cld = v.str('cld', 'text', 1, None, '@;') if num == 'given' else None
    hk = v.choice('host', ['name', 'v6', 'sip-ua', 'wss-ua'])
    h = {'name': 'h' + v.str('h', 'alnum'), 'v6': '[2001:db8::%s]' % v.str('h', 'hex', 1, 4), 'sip-ua': 'sip-ua', 'wss-ua': 'wss-ua'}[hk]
    port = v.opt('port', lambda: v.int('portn', 1, 65535)) if hk in ('name', 'v6') else None
    hp = h if port is None else '%s:%d' % (h, port)
    r = B2BRoute(hp if num == 'absent' else '@' + hp if num == 'empty' else cld + '@' + hp)
    want = dict(DEF)
    want.update({'cld': cld, 'cld_set': num != 'absent', 'hostport': hp, 'hostonly': h})
    check_rule(v, r, want, {}, [])
    if hk in ('sip-ua', 'wss-ua'):
        v.ensure('not-resolved', rs.asked == [] and r.ainfo is None)
    else:
        bare = h[1:-1] if hk == 'v6' else h
        v.ensure('resolved-once', len(rs.asked) == 1 and r.ainfo is rs.ans)
        v.ensure('resolved-as-written', v.eq(list(rs.asked[0]), [bare, SipConf.default_port if port is None else port,
                                                                 AF_INET6 if hk == 'v6' else 0, SOCK_STREAM]))
    v.cover(hk)


@contract('C16', targets=[R + '__init__', R + 'getCopy'], bounded='up to two options')
def route_rule_options(v):
    """options of a rule; the later one wins"""
    rs = Resolver(v)
    a = option(v, 0)
    b = option(v, 1, ['credit', 'auth', 'nopass', 'ash', 'hs', 'none'])
    want, params, hds, text = dict(DEF), {}, [], 'n@h'
    want.update({'cld': 'n', 'cld_set': True, 'hostport': 'h', 'hostonly': 'h'})
    for t, at, pr, hd in (a, b):
        if t is not None:
            text += ';' + t
        want.update(at)
        for k, x in pr.items():
            params[k] = x
        if hd is not None:
            hds.append(hd)
    r = B2BRoute(text)
    check_rule(v, r, want, params, hds)
    c = r.getCopy()
    v.ensure('copy-class', c.__class__ is B2BRoute)
    check_rule(v, c, want, params, hds)
    v.ensure('copy-addresses', c.ainfo is r.ainfo)
    v.ensure('copy-apart', [x for x in shared(r, c) if x is not r.ainfo] == [] and c.params is not r.params)
    v.cover('done')


@contract('C16', targets=[R + '__init__'])
def route_rule_malformed(v):
    """a rule that makes no sense is refused with an error"""
    rs = Resolver(v)
    k = v.choice('bad', ['port', 'noequals', 'number', 'hs', 'op', 'auth', 'rtpp', 'proc'])
    t = 'x' + v.str('t', 'alnum')
    text = 'n@h'
    if k == 'port':
        text = 'n@h:' + t
    elif k == 'noequals':
        text += ';' + t
    elif k == 'number':
        text += ';%s=%s' % (v.choice('which', ['credit-time', 'expires', 'np_expires', 'nr_expires']), v.choice('text', [t, '', '1.5', '12' + t]))
    elif k == 'hs':
        text += ';hs_scodes=400,' + t
    elif k == 'op':
        text += ';op=h:' + t
    elif k == 'auth':
        text += ';auth=' + t
    elif k == 'rtpp':
        text += ';rtpp=' + t
    else:
        text += ';po_proc=' + v.choice('proc', ['Nop' + t, 'Nop[' + t, 'Nopx[%s]' % t, 'VAL2Xattrs[%s]' % t, 'VAL2Xattrs[a=1,%s]' % t])
    ok = v.str('ok', 'alnum', 1)
    out = v.call(B2BRoute, text + v.choice('more', ['', ';zz=' + ok]))
    v.ensure('refused', out.raised(ValueError, AttributeError))
    v.cover(k)


@contract('C16', targets=[R + 'customize', R + 'getCopy'])
def route_customize(v):
    """a rule applied to a call: the caller's values where the rule has none; never more talk time than
    the maximum; the rule it was copied from and other calls are not affected"""
    rs = Resolver(v)
    text = v.choice('rule', ['h', '@h', 'n@h'])
    cred = v.choice('credit', ['none', 'given', 'unlimited'])
    c = v.int('c', 0, 1000000)
    if cred == 'given':
        text += ';credit-time=%d' % c
    elif cred == 'unlimited':
        text += ';credit-time=-1'
    clik = v.choice('cli', ['none', 'given', 'empty'])
    if clik != 'none':
        text += ';cli=' + ('me' if clik == 'given' else '')
    extras = v.choice('extras', [[], ['gt'], ['ash'], ['pass'], ['gt', 'ash', 'pass']])
    gt = 'gt' in extras
    g, s = v.int('g', 0, 1000), v.int('s', 0, 100)
    if gt:
        text += ';gt=%d,%d' % (g, s)
    ash = 'ash' in extras
    if ash:
        text += ';ash=X-A%3A1'
    rule = B2BRoute(text)
    r = rule.getCopy()
    rnum = v.int('rnum', 1, 100)
    dcld, dcli = v.str('dcld', 'alnum', 1), v.str('dcli', 'alnum', 1)
    dcred = v.choice('dcredit', [None, v.int('dc', 0, 1000000)])
    mx = v.choice('max', [None, v.int('mx', 1, 1000000)])
    ph = [SipHeader('X-P: 1')] if 'pass' in extras else []
    before = [attrs_of(rule), dict(rule.params), hlist(rule)]
    r.customize(rnum, dcld, dcli, dcred, ph, mx)
    v.ensure('number', v.eq(r.cld, {'h': dcld, '@': None, 'n': 'n'}[text[0]]))
    v.ensure('caller', v.eq(r.cli, {'none': dcli, 'given': 'me', 'empty': None}[clik]))
    v.ensure('rank', r.rnum == rnum)
    # talk time: what the rule says, else the default; never above the maximum
    own = {'none': dcred, 'given': c, 'unlimited': None}[cred]
    if own is None and mx is None:
        v.ensure('unlimited', r.credit_time is None)
    elif own is None:
        v.ensure('maximum-applies', r.credit_time is not None and r.credit_time == mx)
    elif mx is None:
        v.ensure('own-limit', r.credit_time is not None and r.credit_time == own)
    else:
        v.ensure('lower-of-both', r.credit_time is not None and r.credit_time == v.ite(own < mx, own, mx))
    if gt:
        v.ensure('group', v.eq(r.params['group_timeout'], (g, rnum + s)))
    else:
        v.ensure('no-group', 'group_timeout' not in r.params)
    v.ensure('headers', hlist(r) == ([('x-a', '1')] if ash else []) + ([('x-p', '1')] if ph else []))
    v.ensure('rule-untouched', v.eq([attrs_of(rule), dict(rule.params), hlist(rule)], before))
    v.ensure('headers-passed-untouched', [str(x.body) for x in ph] == (['1'] if ph else []))
    # another call made from the same rule
    o = rule.getCopy()
    o.customize(7, 'other', 'who', None, [], None)
    v.ensure('other-call-unaffected', v.eq(o.cld, {'h': 'other', '@': None, 'n': 'n'}[text[0]]) and
             hlist(o) == ([('x-a', '1')] if ash else []))
    v.ensure('first-call-kept', r.rnum == rnum)
    v.cover(cred)


@contract('C16', targets=[R + 'getNHAddr'])
def route_next_hop(v):
    """the next hop is an address of the rule, of the caller's family when there is one"""
    order = v.choice('addresses', ['46', '64', '4', '6'])
    rs = Resolver(v, order)
    r = B2BRoute('h')
    src = v.choice('source', [('10.1.1.1', 5060), ('[2001:db8::77]', 5060)])
    (addr, same) = r.getNHAddr(src)
    fam = '6' if src[0].startswith('[') else '4'
    v.ensure('same-family', same == (fam in order))
    use = fam if fam in order else order[0]
    want = {'4': ('192.0.2.1' if order != '64' else '192.0.2.2', 5099 if order != '64' else 5097), '6': ('[2001:db8::1]', 5098)}[use]
    v.ensure('address', addr == want)
    v.cover(order)


class Acct(object):
    def __init__(self):
        self.got = []

    def addAttributes(self, a):
        self.got.extend(a)


class CC(object):
    def __init__(self, o, a):
        self.acctO, self.acctA = o, a
        self.extra_attributes = None


@contract('C16', targets=['sippy/B2B/Transforms.py:getTransProc', 'sippy/B2B/Transforms.py:VAL2Xattrs.__call__'], bounded='up to two attributes')
def route_procedures(v):
    """the post-processing of a rule adds exactly the attributes it names, to the legs it names"""
    rs = Resolver(v)
    fn, onA, onO = v.choice('fn', [('VAL2Xattrs', True, True), ('VAL2XattrsA', True, False), ('VAL2XattrsO', False, True), ('Nop', False, False)])
    kv = [('k' + v.str('k%d' % i, 'alnum'), v.str('v%d' % i, 'text', 1, None, ',;')) for i in range(v.choice('n', [1, 2]))]
    r = B2BRoute('h;po_proc=%s[%s]' % (fn, ','.join(['%s=%s' % x for x in kv])))
    haveA, haveO = v.flag('A'), v.flag('O')
    cc = CC(Acct() if haveO else None, Acct() if haveA else None)
    r.params['po_proc'](cc, None)
    if haveA:
        v.ensure('A', v.eq(cc.acctA.got, kv if onA else []))
    if haveO:
        v.ensure('O', v.eq(cc.acctO.got, kv if onO else []))
    v.ensure('copy-keeps', r.getCopy().params['po_proc'] is r.params['po_proc'])
    v.cover(fn)
