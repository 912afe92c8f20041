"""Random histories of library calls, recorded for TraceVault.tla."""
import os, random
import common, vault
from vault import Harness, Session, parallel
from pfpcrypto import *

# Texts chosen so that wrong normalisation, truncation, trimming, case folding, joining without
# separator or byte/character confusion identifies two different texts or splits equal ones.
SITES = ['a', 'www.a', 'www.www.a', 'A', 'a ', ' a', 'ab', 'b', 'www.b', 'c', 'www.', '', 'WWW.a', 'www', 'wwwwa',
         'wwww.a', 'a.www.', 'é', 'e\u0301', '\U0001f980', 'a:b', 'site:a', 'a/b', 'x.example.com',
         'example.com', 'www.example.com', 'www1.example.com', 'm.example.com', 'xn--a', 'ß', 'ss', 'a\tb', '"a"', 'a\\b',
         'l' * 300]
NAMES = ['x', 'X', 'x ', ' x', '', 'y', 'xy', 'www.x', 'x 1', '1', 'x:', 'é', 'e\u0301', '\U0001f511', '*', '?', 'x*',
         'ab', 'n' * 300, 'x\ty']
REVS = ['', '1', '01', ' 1', '1 ', '11', '2', '0', '1.0', '-1', '+1', '\u0661', '\uff11', 'x', 'rev', '10', '']
VALUES = ['', ' ', 'secret', 'Secret', ' padded ', 'trailing\n', '\nlead', '"quoted"', "it's", 'back\\slash', '\u0001\u001f\u007f',
          'é\u0301ü', '日本語', '\U0001f980\U0001f511', 'a\u2028b', '{"type":"stored"}', 'v' * 500, '\ufeffbom', '1', 'null',
          'nul\u0000inside', 'p&<>!', '%s%n']
NOTES = ['', 'n', ' ', 'note', 'line\nbreak', 'tab\there', 'é日本\U0001f511', '"', '\\', "'", 'z' * 400, '\u0007', '0', 'false']
PPS = ['primary1', 'primary2', 'Primary1', 'primary1 ', 'prümary\U0001f511']

IDOPS = ['has', 'get', 'getNotes', 'setNotes', 'setGenerated', 'setStored', 'remove']


class Gen:
    def __init__(self, rng, weights, nsites=5, nnames=3, nrevs=3, sites=SITES, names=NAMES, revs=REVS, npps=1,
                 gen_get=0.1, patterns=False):
        self.rng = rng
        pick = lambda pool, n: rng.sample(pool, min(n, len(pool)))
        self.sites = pick(sites, nsites)
        # always some pair of spellings of one site
        base = rng.choice(self.sites)
        self.sites.append('www.' + base)
        self.names = pick(names, nnames)
        self.revs = pick(revs, nrevs) + ['', '1']
        self.pps = pick(PPS, npps)
        self.ops = list(weights)
        self.w = [weights[o] for o in self.ops]
        self.gen_get = gen_get
        self.patterns = patterns
        self.genlens = [rng.choice([4, 5, 8, 16, 24])]
        self.used = []

    def ident(self):
        if self.used and self.rng.random() < 0.65:
            s, n, r = self.rng.choice(self.used)
            k = self.rng.random()
            # the same password through another spelling, or a near miss
            if k < 0.15:
                s = 'www.' + s
            elif k < 0.25:
                n = self.rng.choice(self.names)
            elif k < 0.4:
                r = self.rng.choice(self.revs)
            elif k < 0.5:
                s = self.rng.choice(self.sites)
            return dict(site=s, name=n, rev=r)
        i = (self.rng.choice(self.sites), self.rng.choice(self.names), self.rng.choice(self.revs))
        self.used.append(i)
        return dict(site=i[0], name=i[1], rev=i[2])

    def pattern(self, pool):
        r = self.rng
        k = r.random()
        if k < 0.3:
            return '*'
        t = r.choice(pool)
        if k < 0.45 or not t:
            return t
        if k < 0.6:
            return t[:r.randrange(len(t))] + '*'
        if k < 0.75:
            return '*' + t[r.randrange(len(t)):]
        i = r.randrange(len(t))
        if k < 0.9:
            return t[:i] + '?' + t[i + 1:]
        return t[:i] + '*' + t[i + 1:]

    def call(self):
        op = self.rng.choices(self.ops, self.w)[0]
        r = self.rng
        kw = {}
        if op in IDOPS:
            kw = self.ident()
        if op in ('getAlias', 'removeAlias', 'setAlias', 'list'):
            kw['site'] = r.choice(self.sites)
        if op == 'setAlias':
            kw['target'] = r.choice(self.sites)
        if op == 'setGenerated':
            kw.update(len=r.choice(self.genlens), cs=r.randrange(1, 16))
        if op == 'setStored':
            kw['value'] = r.choice(VALUES)
        if op == 'setNotes':
            kw['notes'] = r.choice(NOTES)
        if op == 'list':
            kw['name'] = self.pattern(self.names) if self.patterns else '*'
        if op == 'listSites':
            kw['site'] = self.pattern(self.sites) if self.patterns else '*'
        if op in ('unlock', 'reset'):
            kw['pp'] = r.choice(self.pps)
        return op, kw


class Faults:
    """Makes saving the storage file fail, and work again, without the library's help."""

    def __init__(self, path, kinds=('parent', 'target')):
        self.path, self.kinds = path, kinds
        self.kind = kinds[0]

    def on(self):
        d = os.path.dirname(self.path)
        if self.kind == 'parent':        # the directory becomes a file
            os.rename(d, d + '.away')
            with open(d, 'w'):
                pass
        else:                            # the file becomes a directory (not empty)
            os.rename(self.path, self.path + '.away') if os.path.exists(self.path) else None
            os.makedirs(os.path.join(self.path, 'x'))

    def off(self):
        d = os.path.dirname(self.path)
        if self.kind == 'parent':
            os.remove(d)
            os.rename(d + '.away', d)
        else:
            import shutil
            shutil.rmtree(self.path)
            if os.path.exists(self.path + '.away'):
                os.rename(self.path + '.away', self.path)


def history(exe, rng, weights, length, setup='reset', faults=0.0, probe=True, harness=None, **kw):
    """One random history on a fresh file."""
    h = harness or Harness(exe)
    d = os.path.join(common.scratch('hist'), 'dir')
    os.makedirs(d)
    path = os.path.join(d, 'storage.json')
    g = Gen(rng, weights, **kw)
    f = Faults(path)
    s = Session(h, path, Project(PPS), faults=f)
    s.call('new')
    s.call('reset', pp=g.pps[0])
    for _ in range(length):
        if s.dead:
            break
        op, a = g.call()
        if op == 'get' and rng.random() > g.gen_get:
            st = s.disk
            if st['kind'] == 'store' and any(p['type'] == 'gen' and p['name'] == a['name'] for p in st['pws']):
                op, a = 'has', a
        if op == 'removeSites':
            st = s.disk
            free = [e['site'] for e in st['sites']
                    if e['alias'] or not any(p['site'] == e['site'] for p in st['pws'])]
            if rng.random() < 0.3:
                free.append('missing.site')
            rng.shuffle(free)
            a['sites'] = free[:rng.randrange(3)]
        if op == 'reload':
            s.call('drop')
            s.call('load')
            s.call('unlock', pp=rng.choice(g.pps) if rng.random() < 0.2 else s.disk['pp'] or g.pps[0])
            continue
        if op == 'relock':
            s.call('lock')
            continue
        fault = faults and rng.random() < faults
        if fault:
            f.kind = rng.choice(f.kinds)
        s.call(op, fault=bool(fault), **a)
    # what a new process finds
    if probe and not s.dead:
        s.call('drop')
        s.call('load')
        s.call('unlock', pp=s.disk['pp'] or g.pps[0])
        s.call('listSites', site='*')
        for site in {p['site'] for p in s.disk['pws']}:
            s.call('list', site='www.' + site, name='*')
        for p in s.disk['pws'][:6]:
            s.call('getNotes', site='www.' + p['site'], name=p['name'], rev=p['rev'])
            if p['type'] == 'sto':
                s.call('get', site='www.' + p['site'], name=p['name'], rev=p['rev'])
    if harness is None:
        h.close()
    else:
        h.call(op='drop', i=1)
    return s.hist


def shared(rng, weights, length, hs, n, **kw):
    """One random history of several instances on one file."""
    d = os.path.join(common.scratch('hist'), 'dir')
    os.makedirs(d)
    g = Gen(rng, weights, **kw)
    s = Session(hs[0], os.path.join(d, 'storage.json'), Project(PPS), n=n, others=hs[1:])
    s.call('new')
    s.call('reset', pp=g.pps[0])
    has = set()        # sites which had passwords at any time
    cur = 1
    opened = {1: g.pps[0]}
    for k in range(length):
        if s.dead:
            break
        if rng.random() < 0.6:
            cur = rng.randrange(1, n + 1)
        if cur not in opened or rng.random() < 0.06:
            if rng.random() < 0.3:
                s.call('drop', i=cur)
            s.call('load', i=cur)
            if rng.random() < 0.9:
                s.call('unlock', i=cur, pp=s.disk['pp'] or g.pps[0])
            opened[cur] = s.disk['pp']
            continue
        op, a = g.call()
        has |= {p['site'] for p in s.disk['pws']}
        if op == 'get' and rng.random() > g.gen_get and any(p['name'] == a['name'] for p in s.gens.values()):
            op = 'has'
        if op == 'removeSites':
            a['sites'] = [e['site'] for e in s.disk['sites'] if e['alias'] or e['site'] not in has][:rng.randrange(3)]
        if op in ('reload', 'relock'):
            continue
        if op == 'unlock' and rng.random() < 0.6:
            a['pp'] = opened[cur] or g.pps[0]
        s.call(op, i=cur, **a)
        if op == 'reset':
            opened[cur] = a['pp']
    for i in range(1, n + 1):
        if not s.dead:
            s.call('load', i=i)
            s.call('unlock', i=i, pp=s.disk['pp'])
            s.call('listSites', i=i, site='*')
    return s.hist


def _shared_job(a):
    exe, seed, n, weights, length, kw = a
    rng = random.Random(seed)
    res = []
    for k in range(n):
        insts = rng.choice([2, 2, 3])
        hs = [Harness(exe) for _ in range(insts if k % 2 else 1)]
        res.append(shared(rng, weights, length, hs, insts, **kw))
        for h in hs:
            h.close()
    return res


def shared_histories(chk, n, length, weights, **kw):
    parts = 8
    jobs = [(chk.bins['harness'], '%s/shared/%d/%d' % (chk.prop, chk.seed, k), (n + parts - 1) // parts, weights, length, kw)
            for k in range(parts)]
    res = [h for r in parallel(_shared_job, jobs) for h in r]
    chk.count('calls_recorded', sum(len(h['events']) for h in res))
    return res


DEFAULT = {'setStored': 8, 'setGenerated': 5, 'remove': 4, 'setNotes': 5, 'getNotes': 2, 'get': 3, 'has': 3,
           'setAlias': 6, 'removeAlias': 3, 'getAlias': 2, 'list': 2, 'listSites': 2, 'removeSites': 2,
           'reload': 0.6, 'relock': 0.2, 'unlock': 0.5, 'lock': 0.15}


def _job(a):
    exe, seed, n, weights, length, kw = a
    rng = random.Random(seed)
    h = Harness(exe)
    res = []
    for _ in range(n):
        res.append(history(exe, rng, weights, length, harness=h, **kw))
    h.close()
    return res


def histories(chk, n, length, weights=DEFAULT, **kw):
    exe = chk.bins['harness']
    parts = 8
    jobs = [(exe, '%s/%d/%d' % (chk.prop, chk.seed, k), (n + parts - 1) // parts, weights, length, kw)
            for k in range(parts)]
    res = [h for r in parallel(_job, jobs) for h in r]
    chk.count('calls_recorded', sum(len(h['events']) for h in res))
    return res


# ------------------------------------------------------------------ generated passwords (C08)

def _derive_job(a):
    exe, seed, combos = a
    rng = random.Random(seed)
    h = Harness(exe)
    res = []
    for at in range(0, len(combos), 12):
        d = os.path.join(common.scratch('gen'), 'dir')
        os.makedirs(d)
        pps = rng.sample(PPS + ['p' * 100, '\U0001f511' * 3, '        '], 2)
        s = Session(h, os.path.join(d, 'storage.json'), Project(pps))
        s.call('new')
        s.call('reset', pp=pps[0])
        if rng.random() < 0.5:
            s.call('setAlias', site='alias', target='target')
        last = None
        for n, c in combos[at:at + 12]:
            if last and rng.random() < 0.35:        # near the last one: only one thing differs
                i = dict(last)
                k = rng.choice(['site', 'name', 'rev'])
                i[k] = rng.choice({'site': SITES + ['alias', 'target'], 'name': NAMES, 'rev': REVS}[k])
            else:
                i = dict(site=rng.choice(SITES + ['alias']), name=rng.choice(NAMES), rev=rng.choice(REVS))
            if '\0' in ''.join(i.values()):
                continue
            last = i
            s.call('setGenerated', len=n, cs=c, **i)
            k = rng.random()
            if k < 0.15:
                s.call('setNotes', notes='note', **i)
            elif k < 0.3:
                s.call('drop')
                s.call('load')
                s.call('unlock', pp=pps[0])
            elif k < 0.4:
                s.call('lock')
                s.call('unlock', pp=pps[0])
            elif k < 0.45:        # the same in another storage
                s.call('reset', pp=pps[1])
                pps.reverse()
                s.call('setGenerated', len=n, cs=c, **i)
            j = dict(i)
            if rng.random() < 0.3:
                j['site'] = 'www.' + j['site'] if not j['site'].startswith('www.') else j['site']
            if j['rev'] in ('', '1'):
                j['rev'] = rng.choice(['', '1'])
            s.call('get', **j)
        res.append(s.hist)
    h.close()
    return res


def derivations(chk, combos):
    parts = 8
    rng = random.Random('%s/%d' % (chk.prop, chk.seed))
    rng.shuffle(combos)
    jobs = [(chk.bins['harness'], '%s/gen/%d/%d' % (chk.prop, chk.seed, k), combos[k::parts]) for k in range(parts)]
    res = [h for r in parallel(_derive_job, jobs) for h in r]
    chk.count('passwords_derived', sum(1 for h in res for e in h['events'] if e['op'] == 'get'))
    return res
