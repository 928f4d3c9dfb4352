"""C21: the configuration"""
from pyvc.api import contract
from contracts.lib import Sim
from sippy.MyConfigParser import MyConfigParser, SUPPORTED_OPTIONS
from sippy import MyConfigParser as _m
from sippy.SipConf import SipConf

P = 'sippy/MyConfigParser.py:MyConfigParser.'
ALL = [P + n for n in ('__init__', 'check_and_set', '__getitem__', '__setitem__', '__contains__', 'has_key', 'get', 'getdefault')]
BOOL = ['acct_enable', 'precise_acct', 'auth_enable', 'digest_auth', 'foreground', 'hide_call_id', 'start_acct_enable', 'digest_auth_only', 'nat_traversal', 'ui']
INT = ['alive_acct_int', 'keepalive_ans', 'keepalive_orig', 'max_credit_time', 'max_radiusclients', 'sip_port', 'xmpp_b2bua_id']
STR = ['config', 'b2bua_socket', 'logfile', 'pidfile', 'radiusclient.conf', 'static_route', 'static_tr_in', 'static_tr_out', 'sip_proxy', 'wss_socket', 'uiparams']
LIST = ['accept_ips', 'rtp_proxy_clients', 'pass_headers', 'allowed_pts']
TRUE, FALSE = ('1', 'yes', 'true', 'on'), ('0', 'no', 'false', 'off')


def same(v, cfg, key, before):
    """every option is as it was, but for the one"""
    for k in sorted(SUPPORTED_OPTIONS):
        if k != key:
            v.ensure('others-kept', (k in cfg) == (k in before) and (k not in before or v.eq(cfg[k], before[k])))


def setup(v, key, old):
    """a configuration in use: some other options are set, the one may be"""
    cfg = MyConfigParser()
    before = {'logfile': 'a log', 'hide_call_id': True, 'sip_proxy': 'pr:1', 'alive_acct_int': 77}
    before.pop(key, None)
    for k in sorted(before):
        cfg[k] = before[k]
    if old is not None:
        cfg[key] = old
        before[key] = old
    return cfg, before


def pad(v):
    return v.choice('pad', [('', ''), (' ', '\t '), ('\t', '')])


def bad(v, cfg, before, key, text):
    priv = {k: list(x) if isinstance(x, list) else x for k, x in cfg._private_keys.items()}
    out = v.call(cfg.check_and_set, key, text)
    v.ensure('refused', not out.ok)
    same(v, cfg, None, before)
    v.ensure('private-kept', v.eq(sorted(priv.items()), sorted(cfg._private_keys.items())))
    v.cover('refused')


@contract('C21', targets=ALL)
def config_booleans(v):
    """options that are on or off"""
    key = v.choice('key', BOOL)
    old = v.choice('old', [None, True, False])
    cfg, before = setup(v, key, old)
    a, b = pad(v)
    w = v.choice('kind', ['word', 'any'])
    if w == 'word':
        t = v.choice('word', list(TRUE + FALSE))
        t = v.choice('case', [t, t.upper(), t.capitalize()])
        v.ensure('accepted', v.call(cfg.check_and_set, key, a + t + b).ok)
        v.ensure('value', cfg[key] is (t.lower() in TRUE))
        v.ensure('value', cfg.get(key) is cfg[key] and cfg.getdefault(key, None) is cfg[key] and key in cfg and cfg.has_key(key))
        same(v, cfg, key, before)
        v.cover('accepted')
        return
    t = v.str('t', 'alnum', 0, 12)
    for x in TRUE + FALSE:
        v.assume(v.not_(t.lower() == x))
    bad(v, cfg, before, key, a + t + b)


@contract('C21', targets=ALL)
def config_numbers(v):
    """options that are numbers, with their limits"""
    key = v.choice('key', INT)
    old = v.opt('old', lambda: v.int('oldn', 1, 65535))
    cfg, before = setup(v, key, old)
    a, b = pad(v)
    if v.flag('number'):
        n = v.int('n', -1000000000, 1000000000)
        low, high = {'keepalive_ans': (0, None), 'keepalive_orig': (0, None), 'max_credit_time': (1, None), 'sip_port': (1, 65535)}.get(key, (None, None))
        t = a + '%d' % n + b
        if (low is not None and n < low) or (high is not None and n > high):
            bad(v, cfg, before, key, t)
            return
        v.ensure('accepted', v.call(cfg.check_and_set, key, t).ok)
        v.ensure('value', v.eq(cfg[key], n))
        v.ensure('port', key != 'sip_port' or v.eq(cfg['_sip_port'], n))
        v.ensure('found', v.eq([cfg.get(key), cfg.getdefault(key, None)], [n, n]) and key in cfg and cfg.has_key(key))
        same(v, cfg, key, before)
        v.cover('accepted')
        return
    x = v.str('x', 'alnum')
    bad(v, cfg, before, key, v.choice('junk', ['', 'x' + x, '1.5', '0x10', '5 5', '5x' + x, '-', '1e3']))


@contract('C21', targets=ALL)
def config_texts(v):
    """options that are texts"""
    key = v.choice('key', STR)
    old = v.opt('old', lambda: v.str('oldt', 'text'))
    cfg, before = setup(v, key, old)
    a, b = pad(v)
    t = v.choice('form', ['a%sb' % v.str('t', 'text'), '%', '%(x)s', 'a;b#c', ''])
    v.ensure('accepted', v.call(cfg.check_and_set, key, a + t + b).ok)
    v.ensure('value', v.eq([cfg[key], cfg.get(key), cfg.getdefault(key, None), cfg.get('general', key)], [t, t, t, t]))
    same(v, cfg, key, before)
    v.cover('accepted')


@contract('C21', targets=ALL, bounded='lists of up to three')
def config_lists(v):
    """options that are lists"""
    key = v.choice('key', LIST)
    old = v.choice('old', [None, 'x'])
    cfg, before = setup(v, key, old)
    if old:
        cfg['_' + key] = ['x']
    a, b = pad(v)
    n = v.choice('n', [1, 2, 3])
    up = v.choice('up', ['', 'X-Up'])
    els, want = [], []
    for i in range(n):
        if key == 'allowed_pts':
            k = v.choice('k%d' % i, ['num', 'name', 'junk', 'half'])
            if k == 'num':
                els.append('%d' % v.int('n%d' % i, 0, 127))
                want.append(v.int('n%d' % i, 0, 127))
            elif k == 'name':
                els.append('[%s]' % v.str('s%d' % i, 'alnum'))
                want.append(v.str('s%d' % i, 'alnum'))
            else:
                els.append('x%s' % v.str('s%d' % i, 'alnum') if k == 'junk' else '[%s' % v.str('s%d' % i, 'alnum'))
                want = None
                break
        else:
            e = up + 'q' + v.str('s%d' % i, 'digits')
            els.append(a + e + b)
            want.append(e.lower() if key == 'pass_headers' else e)
    text = ','.join(els)
    if want is None:
        bad(v, cfg, before, key, text)
        return
    v.ensure('accepted', v.call(cfg.check_and_set, key, text).ok)
    v.ensure('list', v.eq(cfg['_' + key], want))
    v.ensure('text', v.eq(cfg[key], text.strip()))
    same(v, cfg, key, before)
    v.cover('accepted')


@contract('C21', targets=ALL, bounded='up to three additions')
def config_additions(v):
    """options given several times add up"""
    key = v.choice('key', ['rtp_proxy_client', 'pass_header'])
    cfg, before = setup(v, key + 's', None)
    # the default of a program
    have = v.choice('have', [None, []])
    if have is not None:
        cfg['_' + key + 's'] = []
    els = []
    for i in range(v.choice('n', [1, 2, 3])):
        e = 'e' + v.str('s%d' % i, 'alnum')
        v.ensure('accepted', v.call(cfg.check_and_set, key, ' %s ' % e).ok)
        els.append(e)
        v.ensure('list', v.eq(cfg['_' + key + 's'], els))
        v.ensure('text', v.eq(cfg[key + 's'], ','.join(els)))
    same(v, cfg, key + 's', before)
    v.cover('added')


@contract('C21', targets=ALL)
def config_others(v):
    """the address; the procedure; options unknown"""
    what = v.choice('what', ['address', 'any', 'unknown', 'proc', 'badproc', 'private'])
    key = {'address': 'sip_address', 'any': 'sip_address', 'proc': 'pre_auth_proc', 'badproc': 'pre_auth_proc'}.get(what)
    cfg, before = setup(v, key, v.choice('old', [None, 'x']) if key else None)
    x = v.str('x', 'alnum')
    if what == 'address':
        t = 'h' + x
        v.ensure('accepted', v.call(cfg.check_and_set, key, ' %s ' % t).ok)
        v.ensure('address', v.eq([cfg['_sip_address'], cfg[key]], [t, t]))
        same(v, cfg, key, before)
    elif what == 'any':
        t = v.choice('t', ['*', '0.0.0.0', '::'])
        v.ensure('accepted', v.call(cfg.check_and_set, key, t).ok)
        v.ensure('address', cfg['_sip_address'] is SipConf.my_address and cfg[key] == t)
        same(v, cfg, key, before)
    elif what == 'proc':
        v.ensure('accepted', v.call(cfg.check_and_set, key, 'HDR2Xattrs[X-%s,Y]' % x).ok)
        v.ensure('procedure', v.eq(cfg[key], 'HDR2Xattrs[X-%s,Y]' % x) and callable(cfg['_pre_auth_proc']))
        same(v, cfg, key, before)
    elif what == 'badproc':
        bad(v, cfg, before, key, v.choice('proc', ['Zork[a]', 'HDR2Xattrs[']))
    elif what == 'unknown':
        bad(v, cfg, before, 'zork' + x, 'value')
    else:
        k = '_k' + x
        v.ensure('unknown', k not in cfg and cfg.getdefault(k, 5) == 5)
        o = object()
        cfg[k] = o
        v.ensure('private', k in cfg and cfg[k] is o and cfg.get(k) is o and cfg.getdefault(k, 5) is o)
        same(v, cfg, None, before)
    v.cover(what)


class FFile(object):
    """a text file"""

    def __init__(self, text=''):
        self.parts = [text] if text else []

    def write(self, s):
        self.parts.append(s)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return iter(''.join(self.parts).splitlines(True))


@contract('C21', targets=ALL + [P + 'read'], bounded='values of a table')
def config_file(v):
    """what is written out reads back; a file with a wrong value is refused"""
    cfg = MyConfigParser()
    vals = {'acct_enable': v.choice('b', [True, False]), 'sip_port': v.choice('i', [1, 5060, 65535]),
            'logfile': v.choice('s', ['', 'a b', '/x;y', 'a = b: c', '#no', '%(x)s %', "x y\tz"]),
            'pass_headers': v.choice('l', ['X-a', 'X-a,Y-b']), 'rtp_proxy_clients': 'udp:1.2.3.4:5,/var/x'}
    for k in sorted(vals):
        cfg.check_and_set(k, str(vals[k]))
    cfg.check_and_set('pass_header', 'Z')
    vals['pass_headers'] += ',Z'
    f = FFile()
    v.ensure('written', v.call(cfg.write, f).ok)
    wrong = v.choice('wrong', [None, 'sip_port = 0', 'acct_enable = maybe', 'zork = 1', 'rtp_proxy_client = x'])
    text = ''.join(f.parts)
    if wrong:
        text = text.replace('[general]\n', '[general]\n%s\n' % wrong)
        if 'zork' not in wrong and 'client =' not in wrong:
            k = wrong.split(' ')[0]
            text = '\n'.join([l for l in text.split('\n') if not l.startswith(k) or l == wrong])
    v.patch('sippy.MyConfigParser', 'open', lambda n: FFile(text))
    c2 = MyConfigParser()
    c2['sip_port'] = 99
    out = v.call(c2.read, 'the file')
    if wrong:
        v.ensure('refused', not out.ok)
        v.ensure('not-taken', c2['sip_port'] in (99, vals['sip_port']) and ('acct_enable' not in c2 or c2['acct_enable'] is vals['acct_enable']) and
                 'zork' not in c2 and 'rtp_proxy_client' not in c2)
        v.cover('refused')
        return
    v.ensure('read', out.ok)
    for k in sorted(vals):
        v.ensure('value', c2[k] == vals[k])
    v.ensure('lists', c2['_pass_headers'] == vals['pass_headers'].lower().split(',') and c2['_rtp_proxy_clients'] == ['udp:1.2.3.4:5', '/var/x'])
    v.ensure('nothing-else', sorted(c2.options('general')) == sorted(vals))
    v.cover('read')
