"""Another implementation of the format, taking turns with the real one (C17)."""
import base64, json, os, random
import common
from libdrive import *
from vault import Harness, Session, parallel
from pfpcrypto import *

ESCAPES = {'"': '\\"', '\\': '\\\\', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}


class Layout:
    """How one writer lays out JSON: spacing, order of fields, escapes, optional fields."""

    def __init__(self, rng):
        self.rng = rng
        self.space = rng.choice([0, 0, 0.3, 1])
        self.escape = rng.choice([0, 0, 0.05, 0.3, 1])       # of characters which need none
        self.ascii = rng.random() < 0.5
        self.slash = rng.random() < 0.3
        self.keys = rng.random() < 0.3                       # escapes in the names of fields as well
        self.order = rng.random() < 0.8
        self.optional = rng.choice([0, 0.5, 1])

    def ws(self):
        r = self.rng
        return ''.join(r.choice(' \n\t\r') for _ in range(r.randrange(1, 4))) if r.random() < self.space else ''

    def text(self, s, key=False):
        res = '"'
        for c in s:
            n = ord(c)
            esc = (self.escape if not key or self.keys else 0)
            if self.rng.random() < esc or (n > 126 and self.ascii) or (n < 32 and c not in ESCAPES):
                for u in ([n] if n < 0x10000 else [0xd800 + (n - 0x10000 >> 10), 0xdc00 + (n - 0x10000 & 0x3ff)]):
                    h = '%04x' % u
                    res += '\\u' + (h if self.rng.random() < 0.5 else h.upper())
            elif c in ESCAPES:
                res += ESCAPES[c]
            elif c == '/' and self.slash:
                res += '\\/'
            else:
                res += c
        return res + '"'

    def json(self, v):
        if isinstance(v, str):
            return self.text(v)
        if isinstance(v, dict):
            items = list(v.items())
            if self.order:
                self.rng.shuffle(items)
            return '{' + self.ws() + ','.join(
                self.ws() + self.text(k, True) + self.ws() + ':' + self.ws() + self.json(x) + self.ws() for k, x in items) + '}'
        return json.dumps(v)

    def top(self, v):
        return self.ws() + self.json(v) + self.ws()

    def site(self, e):
        d = {'site': e['site']}
        if e['alias']:
            d['alias'] = e['alias'][0]
        elif self.rng.random() < self.optional:
            d['alias'] = None
        return self.top(d).encode()

    def password(self, p):
        d = make_password(p)
        if 'notes' not in d and self.rng.random() < self.optional:
            d['notes'] = ''
        for f, _ in CS_FIELDS:
            if f in d and not d[f] and self.rng.random() >= self.optional:
                del d[f]
        return self.top(d).encode()


class Other:
    """The other implementation.  It keeps to the same rules about aliases."""

    def __init__(self, rng, pp, path, sites, names, revs, values, notes):
        self.rng, self.path = rng, path
        self.lay = Layout(rng)
        self.wr = Writer(pp)
        strip = lambda s: s[4:] if s.startswith('www.') else s
        self.sites = [s for s in {strip(s): 1 for s in sites} if not s.startswith('www.')] or ['a']
        self.names, self.revs, self.values, self.notes = names, [r for r in revs if r != '1'] or [''], values, notes
        self.state = {'sites': [], 'pws': []}

    def read(self, d, last):
        """Takes over what the file holds now."""
        self.wr.pp, self.wr.key, self.wr.secret, self.wr.salt = last['pp'], last['key'], last['secret'], last['salt']
        self.wr.data = dict(last['data'])
        self.state = {'sites': [dict(e) for e in d['sites']], 'pws': [dict(p) for p in d['pws']]}

    def alias(self, s):
        return next((e['alias'][0] for e in self.state['sites'] if e['site'] == s and e['alias']), None)

    def drop_site(self, s):
        self.state['sites'] = [e for e in self.state['sites'] if e['site'] != s]
        self.wr.data.pop(site_key(self.wr.secret, s), None)

    def put_site(self, s, alias=None):
        self.drop_site(s)
        e = {'site': s, 'alias': [] if alias is None else [alias]}
        self.state['sites'].append(e)
        self.wr.site(s, plain=self.lay.site(e))

    def put(self, p):
        if not any(e['site'] == p['site'] for e in self.state['sites']):
            self.put_site(p['site'])
        self.drop(p)
        self.state['pws'].append(p)
        self.wr.password(p, plain=self.lay.password(p))

    def drop(self, p):
        same = lambda q: (q['site'], q['name'], q['rev']) == (p['site'], p['name'], p['rev'])
        self.state['pws'] = [q for q in self.state['pws'] if not same(q)]
        self.wr.data.pop(pw_key(self.wr.secret, p['site'], p['name'], p['rev']), None)

    def new_password(self, s):
        r = self.rng
        p = dict(site=s, name=r.choice(self.names), rev=r.choice(self.revs), notes=r.choice(self.notes) if r.random() < 0.5 else '',
                 len=0, cs=0, value='', type='sto')
        if r.random() < 0.4:
            p.update(type='gen', len=r.randrange(4, 25), cs=r.randrange(1, 16))
        else:
            p['value'] = r.choice(self.values)
        return p

    def change(self):
        r = self.rng
        for _ in range(r.randrange(1, 5)):
            k = r.random()
            s = r.choice(self.sites)
            pws = self.state['pws']
            if k < 0.5:
                self.put(self.new_password(self.alias(s) or s))
            elif k < 0.65 and pws:
                self.drop(r.choice(pws))
            elif k < 0.75 and pws:
                self.put(dict(r.choice(pws), notes=r.choice(self.notes)))
            elif k < 0.9:
                t = r.choice(self.sites)
                t = self.alias(t) or t
                if t != s and not any(p['site'] == s for p in pws) and not any(e['alias'] == [s] for e in self.state['sites']):
                    self.put_site(s, t)
            elif self.alias(s):
                self.drop_site(s)

    def rewrite(self):
        """All entries again, in another layout."""
        for e in list(self.state['sites']):
            self.put_site(e['site'], e['alias'][0] if e['alias'] else None)
        for p in list(self.state['pws']):
            self.put(p)

    def write(self):
        data = dict(self.wr.data)
        with open(self.path, 'w', encoding='utf-8') as f:
            f.write(self.lay.top({'application': 'pfp', 'format': 3, 'data': data}))

    def turn(self):
        if self.rng.random() < 0.5:
            self.lay = Layout(self.rng)
        self.change()
        if self.rng.random() < 0.3:
            self.rewrite()
        self.write()


def history(h, rng, turns):
    d = os.path.join(common.scratch('iop'), 'dir')
    os.makedirs(d)
    path = os.path.join(d, 'storage.json')
    pp = rng.choice(PPS)
    g = Gen(rng, INTEROP, nsites=4, nnames=3, nrevs=2)
    g.pps = [pp]
    o = Other(rng, pp, path, g.sites, g.names, g.revs, VALUES, NOTES)
    s = Session(h, path, Project([pp]))
    if rng.random() < 0.3:
        s.call('new')
        s.call('reset', pp=pp)
        s.call('drop')
        if s.disk['kind'] != 'store':
            return s.hist
        o.read(s.disk, s.project.last)
    gets = 0
    for _ in range(turns):
        o.turn()
        s.foreign()
        g.used = [(p['site'], p['name'], p['rev']) for p in s.disk['pws']] * 2
        s.call('load')
        s.call('unlock', pp=pp)
        if s.dead:
            return s.hist
        if rng.random() < 0.6:
            s.call('listSites', site='*')
            for site in sorted({p['site'] for p in s.disk['pws']}):
                s.call('list', site=site, name='*')
        for p in rng.sample(s.disk['pws'], min(4, len(s.disk['pws']))):
            if p['type'] == 'sto' or gets < 8:
                gets += p['type'] == 'gen'
                s.call('get', site=p['site'], name=p['name'], rev=p['rev'])
            s.call('getNotes', site='www.' + p['site'], name=p['name'], rev=p['rev'] or '1')
        for _ in range(rng.randrange(0, 6)):
            if s.dead:
                return s.hist
            op, a = g.call()
            if op == 'get':
                op = 'has'
            s.call(op, **a)
        s.call('drop')
        if s.disk['kind'] == 'store':
            o.read(s.disk, s.project.last)
        else:
            break
    return s.hist


INTEROP = {'setStored': 5, 'setGenerated': 2, 'remove': 3, 'setNotes': 5, 'getNotes': 2, 'has': 1, 'get': 1, 'setAlias': 3, 'removeAlias': 2,
           'getAlias': 2, 'list': 2}


def _job(a):
    exe, seed, n, turns = a
    rng = random.Random(seed)
    h = Harness(exe)
    res = [history(h, rng, turns) for _ in range(n)]
    h.close()
    return res


def histories(chk, n, turns):
    parts = 8
    jobs = [(chk.bins['harness'], '%s/iop/%d/%d' % (chk.prop, chk.seed, k), (n + parts - 1) // parts, turns) for k in range(parts)]
    res = [h for r in parallel(_job, jobs) for h in r]
    chk.count('files_from_elsewhere', sum(1 for h in res for e in h['events'] if e['op'] == 'foreign'))
    return res
