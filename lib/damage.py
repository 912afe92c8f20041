"""Damaged storage files: what a writer, a disk or an attacker may have left (C16)."""
import base64, json, os, random
import common
from libdrive import *
from vault import Harness, Session, parallel
from pfpcrypto import *

b64 = lambda b: base64.b64encode(b).decode()


def flip(rng, b):
    if not b:
        return b'\0'
    i = rng.randrange(len(b))
    return b[:i] + bytes([b[i] ^ 1 << rng.randrange(8)]) + b[i + 1:]


def ciphertexts(rng, value, key):
    """Damaged forms of a 'nonce_ciphertext' value."""
    n, c = value.split('_', 1)
    nonce, data = base64.b64decode(n), base64.b64decode(c)
    enc = lambda nn: b64(nn) + '_' + b64(gcm_encrypt(key, nn, b'{}'))
    res = [
        '', '_', n, n + c, n + '-' + c, n + '_', '_' + c, 'x', ' ' + value, value + ' ', value + '_', '_' + value,
        n + '__' + c, n + '_' + c[:-1], n + '_' + c + '=', n + '_!' + c[1:], n[:-1] + '_' + c, '!' + n[1:] + '_' + c,
        'ü' + value, value[:len(value) // 2], n + '_' + c.replace('A', 'é') + 'é', n + '_' + c[:4], n + '_' + b64(data[:15]),
        n + '_' + b64(data[:16]), n + '_' + b64(data[:-1]), n + '_' + b64(data + b'\0'), n + '_' + b64(b''),
        n + '_' + b64(flip(rng, data)), b64(flip(rng, nonce)) + '_' + c, b64(nonce[:11]) + '_' + c, b64(nonce + b'x') + '_' + c,
        b64(nonce[:1]) + '_' + c, b64(nonce * 8) + '_' + c, '_' + b64(data), enc(nonce[:8]), enc(nonce + nonce),
        n + '_' + b64(os.urandom(len(data))), b64(os.urandom(12)) + '_' + c, '\u0000' + value, n + '_\n' + c, value.replace('_', '\uff3f'),
    ]
    # whether incomplete padding is damage is left open
    return [v for v in res if v.rstrip('=') != value.rstrip('=')]


def plaintexts(rng, obj):
    """Damaged forms of the JSON inside."""
    good = json.dumps(obj).encode()
    res = [b'', b'\xff\xfe', b'{', b'[]', b'null', b'3', b'"x"', b'{}', good[:-1], good[:len(good) // 2], good + b'}', good + b'x',
           good[1:], b'\xef\xbb\xbf' + good, good.replace(b'"', b"'"), good[:10] + b'\xff' + good[10:], b'[' * 3000,
           b'{"site":' * 500, good.replace(b': "', b': "\x01', 1), good.replace(b': "', b': "\\ud800', 1), b'\0' * 40]
    for k in obj:
        if k in ('notes', 'alias', 'lower', 'upper', 'number', 'symbol'):
            continue                      # may be absent
        d = dict(obj)
        del d[k]
        res.append(json.dumps(d).encode())
    for k in obj:
        wrong = [3, [], {}, True, [obj[k]]] if isinstance(obj[k], str) else [str(obj[k]), [], {}, 'x']
        if k != 'alias':
            wrong.append(None)
        for v in wrong:
            if type(v) is not type(obj[k]):
                res.append(json.dumps(dict(obj, **{k: v})).encode())
    if 'type' in obj:
        for t in ('generated', 'Stored', 'STORED', '', 'generated3', ' stored'):
            res.append(json.dumps(dict(obj, type=t)).encode())
        for other in ('generated2', 'stored'):
            if other != obj['type']:
                res.append(json.dumps(dict(obj, type=other)).encode())
    if 'length' in obj:
        for l in (0, -1, 65536, 1 << 31, 1 << 32, (1 << 64) - 1, 1 << 64, 10 ** 30, 3.5, 1e300, '8'):
            res.append(json.dumps(dict(obj, length=l)).encode())
        res.append(json.dumps(dict(obj, lower=False, upper=False, number=False, symbol=False)).encode())
        res.append(json.dumps({k: v for k, v in obj.items() if k not in ('lower', 'upper', 'number', 'symbol')}).encode())
        for k in ('lower', 'symbol'):
            for v in (0, 1, 'true', None):
                res.append(json.dumps(dict(obj, **{k: v})).encode())
    return res


def readable(wr, k, value):
    """Would an independent reader read this entry?"""
    plain = decrypt_value(value, wr.key)
    if not isinstance(plain, bytes):
        return False
    try:
        (parse_site if k.count(':') == 1 else parse_password)(plain)
        return True
    except Exception:
        return False


class Damaged:
    """A storage file some of whose entries are damaged."""

    def __init__(self, rng, pp, sites, names, revs, values=VALUES, notes=NOTES, ndamage=None):
        self.rng = rng
        wr = self.wr = Writer(pp)
        self.sites, self.ids = [], []
        objs = {}
        real = rng.sample(sites, min(3, len(sites)))
        strip = lambda s: s[4:] if s.startswith('www.') else s
        real = sorted({strip(s) for s in real if not strip(s).startswith('www.')}) or ['a']
        alias = [s for s in sorted({strip(s) for s in sites}) if s not in real and not s.startswith('www.')]
        for s in real:
            self.sites.append(s)
            objs[wr.site(s)] = {'site': s}
        for s in alias[:2]:
            self.sites.append(s)
            t = rng.choice(real)
            objs[wr.site(s, t)] = {'site': s, 'alias': t}
        for _ in range(rng.randrange(3, 8)):
            s, n, r = rng.choice(real), rng.choice(names), rng.choice([x for x in revs if x != '1'] + [''])
            if (s, n, r) in self.ids:
                continue
            self.ids.append((s, n, r))
            if rng.random() < 0.35:
                p = dict(type='gen', site=s, name=n, rev=r, len=rng.randrange(4, 12), cs=rng.randrange(1, 16), value='', notes='')
            else:
                p = dict(type='sto', site=s, name=n, rev=r, len=0, cs=0, value=rng.choice(values), notes='')
            if rng.random() < 0.5:
                p['notes'] = rng.choice(notes)
            objs[wr.password(p)] = make_password(p)
        keys = sorted(objs)
        rng.shuffle(keys)
        self.what = []
        for k in keys[:ndamage if ndamage is not None else rng.randrange(1, 5)]:
            for _ in range(20):
                if rng.random() < 0.45:
                    v = rng.choice(ciphertexts(rng, wr.data[k], wr.key))
                else:
                    v = encrypt_value(rng.choice(plaintexts(rng, objs[k])), wr.key)
                if not readable(wr, k, v):
                    break
            else:
                continue
            wr.data[k] = v
            self.what.append((objs[k], v))
        if rng.random() < 0.3:       # things nobody can attribute
            wr.data[rng.choice(['x', '', 'site', 'site:', 'site:x', 'site:x:y', 'site:a:b:c', 'salt2', 'SITE:' + b64(os.urandom(32)),
                                'site:' + b64(os.urandom(32)), 'site:' + b64(os.urandom(32)) + ':' + b64(os.urandom(32))])] = \
                rng.choice(['', 'junk', '_', wr.data[keys[0]] + 'A', encrypt_value(b'{}', wr.key)])


def history(h, rng, length):
    d = os.path.join(common.scratch('dmg'), 'dir')
    os.makedirs(d)
    path = os.path.join(d, 'storage.json')
    pp = rng.choice(PPS)
    g = Gen(rng, DAMAGE, nsites=5, nnames=3, nrevs=2)
    g.pps = [pp]
    dm = Damaged(rng, pp, g.sites, g.names, g.revs)
    g.used = list(dm.ids) * 2 + [(s, g.names[0], '') for s in dm.sites]
    g.sites += dm.sites
    dm.wr.write(path)
    s = Session(h, path, Project([pp], dm.sites, dm.ids))
    s.call('load')
    s.call('unlock', pp=pp)
    gets = 0
    for _ in range(length):
        if s.dead:
            break
        op, a = g.call()
        if op == 'get':
            gets += 1
            if gets > 8:
                op = 'getNotes'
        if op == 'reload':
            s.call('drop')
            s.call('load')
            s.call('unlock', pp=pp)
            continue
        if op == 'removeSites':
            a['sites'] = [e['site'] for e in s.disk['sites'] if not any(p['site'] == e['site'] for p in s.disk['pws'])][:1]
        s.call(op, **a)
    if not s.dead:
        s.call('drop')
        s.call('load')
        s.call('unlock', pp=pp)
        s.call('listSites', site='*')
        for site in sorted({p['site'] for p in s.disk['pws']}):
            s.call('list', site='www.' + site, name='*')
    h.call(op='drop', i=1)
    return s.hist


DAMAGE = {'setStored': 5, 'setGenerated': 2, 'remove': 2, 'setNotes': 4, 'getNotes': 4, 'get': 3, 'has': 3, 'setAlias': 3,
          'removeAlias': 2, 'getAlias': 3, 'list': 6, 'listSites': 5, 'removeSites': 0.4, 'reload': 1.2}


def _job(a):
    exe, seed, n, length = a
    rng = random.Random(seed)
    h = Harness(exe)
    res = []
    for _ in range(n):
        s = history(h, rng, length)
        res.append(s)
        if any(e['res']['e'] == 'crash' for e in s['events']):
            h.close()
            h = Harness(exe)
    h.close()
    return res


def histories(chk, n, length):
    parts = 8
    jobs = [(chk.bins['harness'], '%s/dmg/%d/%d' % (chk.prop, chk.seed, k), (n + parts - 1) // parts, length) for k in range(parts)]
    res = [h for r in parallel(_job, jobs) for h in r]
    chk.count('damaged_files', len(res))
    chk.count('damaged_entries', sum(1 for h in res for p in h['disk0']['pws'] + h['disk0']['sites'] if p['bad']))
    return res
