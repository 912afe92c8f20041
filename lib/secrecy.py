"""Histories of the storage file, recovery codes and the shell's history, for TraceSecrecy.tla."""
import base64, hashlib, json, os, random, re
import common, clidrive, cligen
from clidrive import World, CODE, code_data
from cligen import User, asked
from vault import Harness, Session, parallel
from pfpcrypto import *

ALNUM = 'abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789'


def word(rng, n=14):
    return ''.join(rng.choice(ALNUM) for _ in range(n))


class Pools:
    """Texts which do not occur anywhere by chance."""

    def __init__(self, rng):
        w = lambda: word(rng)
        deco = lambda: rng.choice([w(), w(), w() + ' ' + w(), w() + 'é日' + w(), w() + '"\\' + w(), w() + '/' + w(), w() + '\U0001f511'])
        self.sites = ['www.' + w().lower()] + [rng.choice([w().lower() + '.example', w(), deco()]) for _ in range(5)]
        self.names = [deco() for _ in range(4)]
        self.revs = [w() for _ in range(3)]
        self.values = [deco() for _ in range(6)]
        self.notes = [deco() for _ in range(5)]
        self.pps = [w(), deco(), w()]
        strip = lambda s: s[4:] if s.startswith('www.') else s
        self.secret = self.values + self.notes + self.pps
        self.all = self.secret + [strip(s) for s in self.sites] + self.names + self.revs
        self.needles = {t: needles(t) for t in self.all}


def needles(text):
    """[(form, bytes)] by which the text would be readable; form 'lower' is looked for in lower case."""
    u = text.encode()
    res = [('lower', text.lower().encode()), ('utf16', text.encode('utf-16-le')), ('utf16', text.encode('utf-16-be')),
           ('reversed', text[::-1].encode()), ('json', json.dumps(text)[1:-1].encode()), ('rot13', re.sub(
               b'[a-zA-Z]', lambda m: bytes([(m.group()[0] & 31) + 12]) and bytes([((m.group()[0] & 31) - 1 + 13) % 26 + (m.group()[0] & 96) + 1]), u))]
    parts = re.findall('[A-Za-z0-9]{10,}', text)
    for t in parts:
        b = t.encode()
        res += [('part', b[i:i + 10]) for i in range(len(b) - 9)]
    res += [('lower', u.hex().encode()), ('hex', u.hex().upper().encode())]
    for k in range(3):      # Base64 at every alignment, without the characters at the ends
        for enc in (base64.b64encode, base64.urlsafe_b64encode):
            b = enc(bytes(k) + u).rstrip(b'=')
            res.append(('base64', b[[0, 2, 3][k]:len(b) - (1 if (len(u) + k) % 3 else 0)]))
    res.append(('base32', base64.b32encode(u)[:len(u) * 8 // 5 - 1]))
    for h in ('md5', 'sha1', 'sha256', 'sha512', 'sha3_256', 'blake2b'):
        d = hashlib.new(h, u).digest()
        res += [('digest', d), ('lower', d.hex().encode()), ('digest', d.hex().upper().encode()), ('digest', base64.b64encode(d).rstrip(b'='))]
    return res


TOKEN = re.compile(rb'[A-Za-z0-9+/]{8,}={0,2}')


def readable(data, texts, pools):
    """Which of the texts can be read in the data?"""
    decoded = []
    for t in TOKEN.findall(data):
        try:
            decoded.append(base64.b64decode(t + b'=' * (-len(t) % 4)))
        except Exception:
            pass
    dec = b'\0'.join(decoded)
    low = data.lower() + b'\0' + dec.lower()
    hay = data + b'\0' + dec
    return ['%s (%s)' % (t, form) for t in texts for form, n in pools.needles[t] if n in (low if form == 'lower' else hay)]


def derived(salt):
    """What anybody can compute from the salt."""
    res = set()
    for t in (salt, salt.hex().encode(), base64.b64encode(salt)):
        for h in ('md5', 'sha1', 'sha256', 'sha512', 'sha3_256', 'blake2b', 'blake2s'):
            d = hashlib.new(h, t).digest()
            res |= {d, d[:32], hashlib.sha256(d).digest()}
    res |= {salt + salt, salt, salt + bytes(16), hashlib.sha256(b'').digest(), bytes(32)}
    return res


class Watch:
    """Turns what is seen into events of TraceSecrecy.tla."""

    def __init__(self, pools, project, path, histfile=None):
        Watch.latest = self
        self.pools, self.project, self.path, self.histfile = pools, project, path, histfile
        self.events = []
        self.seen = set()
        self.what = []        # what was done, for messages
        self.nonces, self.salts, self.secrets = [], [], []
        self.prev = None

    def _scan(self, data, texts, where):
        h = hashlib.sha256(data).digest() + bytes([len(texts) % 256])
        if not data or h in self.seen:
            return []
        self.seen.add(h)
        return ['%s in %s' % (x, where) for x in readable(data, texts, self.pools)]

    def note(self, what, op='step', reset='no', ops=(), codes=(), typed=(), ended=False):
        p = self.pools
        leaks, odd = [], []
        raw = None
        d = os.path.dirname(self.path)
        for base, dirs, files in os.walk(d):
            for f in dirs + files:
                leaks += self._scan(f.encode('utf-8', 'surrogateescape'), p.all, 'a file name')
            for f in files:
                with open(os.path.join(base, f), 'rb') as g:
                    data = g.read()
                if os.path.join(base, f) == self.path:
                    raw = data
                leaks += self._scan(data, p.all, f)
        buf = {}
        for o in ops:
            if o.get('path') == self.histfile:
                continue
            if o['op'] in ('write', 'writev', 'pwrite') or o['data']:
                buf[o['path']] = buf.get(o['path'], b'') + o['data']
            for k in ('path', 'path2'):
                leaks += self._scan(os.path.basename(o.get(k) or '').encode(), p.all, 'a file name')
        for k, v in buf.items():
            leaks += self._scan(v, p.all, 'what was written to ' + k)
        hist = []
        if self.histfile and os.path.exists(self.histfile):
            with open(self.histfile, 'rb') as f:
                data = f.read()
            leaks += self._scan(data, p.secret, 'the history')
            lines = data.decode('utf-8', 'replace').split('\n')
            if lines and not lines[-1]:
                lines.pop()
            if lines and lines[0] == '#V2':
                lines = [re.sub(r'\\(.)', lambda m: '\n' if m.group(1) == 'n' else m.group(1), l) for l in lines[1:]]
            hist = lines
        ev = {'op': op, 'reset': reset, 'present': False, 'salt': [], 'secret': [], 'entries': [],
              'codes': [{'salt': list(c[1:17]), 'n': list(c[17:29])} for c in codes],
              'leaks': leaks, 'odd': odd, 'typed': [codes_of(t) for t in typed], 'ended': ended, 'hist': [codes_of(t) for t in hist],
              'nonces': [], 'salts': [], 'secrets': []}
        for c in ev['codes']:
            self.nonces.append(c['n'])
        last = self.project.last
        if raw is not None:
            state = self.project.raw(raw)
            last = self.project.last
            if last is None:
                odd.append('the file is not in the format: ' + state['kind'])
            else:
                odd += state['odd']
                ev['present'] = True
                if bytes(last['secret']) in derived(last['salt']):
                    odd.append('the digest secret can be computed from the salt')
                ev['salt'], ev['secret'] = list(last['salt']), list(last['secret'])
                for k, v in sorted(last['data'].items()):
                    if k == 'salt':
                        continue
                    n, _, c = v.partition('_')
                    ev['entries'].append({'k': k, 'n': list(base64.b64decode(n)), 'c': hashlib.sha256(c.encode()).hexdigest()[:24]})
                if op != 'adopt':
                    was = self.prev or {'salt': [], 'secret': [], 'entries': []}
                    old = [e['n'] for e in was['entries']]
                    self.nonces += [e['n'] for e in ev['entries'] if e['n'] not in old]
                    if ev['salt'] != was['salt']:
                        self.salts.append(ev['salt'])
                    if ev['secret'] != was['secret']:
                        self.secrets.append(ev['secret'])
                self.prev = ev
        self.events.append(ev)
        self.what.append(what)

    def hist(self):
        return {'events': self.events, 'what': self.what, 'drawn': (self.nonces, self.salts, self.secrets)}


def codes_of(t):
    return [ord(c) for c in t]


# ------------------------------------------------ library

class WatchedSession(Session):
    def __init__(self, *a, watch, log, **kw):
        super().__init__(*a, **kw)
        self.watch, self.log, self.pos = watch, log, 0

    def written(self):
        try:
            with open(self.log) as f:
                f.seek(self.pos)
                text = f.read()
        except FileNotFoundError:
            return []
        text = text[:text.rfind('\n') + 1]
        self.pos += len(text)
        return clidrive.parse_log(text)

    def call(self, op, fault=False, **kw):
        r = super().call(op, fault=fault, **kw)
        codes = []
        if op == 'recoveryCode' and 'ok' in r:
            codes = [code_data(r['ok'])]
        reset = 'no' if op != 'reset' else 'done' if 'ok' in r else 'maybe'
        self.watch.note({'call': op, 'result': r, **kw}, reset=reset, ops=self.written(), codes=codes)
        return r


class Lib:
    """A session of the library below the shim; restart() goes on in a new process."""

    def __init__(self, exe, shim, pools):
        self.exe, self.pools = exe, pools
        self.dir = os.path.join(common.scratch('sec'), 'dir')
        os.makedirs(self.dir)
        top = os.path.dirname(self.dir)
        self.path = os.path.join(self.dir, 'storage.json')
        log = os.path.join(top, 'fs.log')
        self.env = dict(LD_PRELOAD=shim, FSDIR='/', FSLOG=log, FSCTL=os.path.join(top, 'fs.ctl'), TMPDIR=self.dir)
        project = Project(pools.pps)
        self.watch = Watch(pools, project, self.path)
        self.s = WatchedSession(Harness(exe, self.env), self.path, project, watch=self.watch, log=log)
        self.pp = None

    def restart(self):
        self.s.hs[0].close()
        self.s.hs[0] = Harness(self.exe, self.env)
        self.s.call('load')
        if self.pp:
            self.s.call('unlock', pp=self.pp)

    def reset(self, pp, op='new'):
        if op:
            self.s.call(op)
        self.pp = pp
        self.s.call('reset', pp=pp)

    def close(self):
        self.s.hs[0].close()
        return self.watch.hist()


def _model_job(a):
    """Sequences of operations enumerated by TLC from MCSecrecy.tla."""
    exe, shim, seed, seqs = a
    rng = random.Random(seed)
    res = []
    for ops in seqs:
        def one():
            p = Pools(rng)
            l = Lib(exe, shim, p)
            keys = {'a': dict(site=p.sites[1], name=p.names[0], rev=''), 'b': dict(site=p.sites[1], name=p.names[1], rev=p.revs[0])}
            values = {'p': p.values[0], 'q': p.values[1]}
            first = True
            for o in ops:
                if o['op'] == 'reset':
                    l.reset(p.pps[0], 'new' if first else None)
                    first = False
                elif o['op'] == 'set':
                    l.s.call('setStored', value=values[o['x']], **keys[o['k']])
                elif o['op'] == 'remove':
                    l.s.call('remove', **keys[o['k']])
                elif o['op'] == 'code':
                    l.s.call('recoveryCode', **keys[o['k']])
                elif o['op'] == 'restart':
                    l.restart()
            return l.close()

        res += common.attempt(one, lambda: Watch.latest.hist())
    return res

def model_runs(chk, seqs):
    parts = 8
    jobs = [(chk.bins['harness'], chk.bins['shim'], '%s/secmodel/%d/%d' % (chk.prop, chk.seed, k), seqs[k::parts]) for k in range(parts)]
    res = [h for r in parallel(_model_job, jobs) for h in r]
    chk.count('spec_behaviours_replayed', len(res))
    return res


WEIGHTS = {'setStored': 8, 'same': 3, 'setGenerated': 3, 'setNotes': 6, 'remove': 4, 'setAlias': 4, 'removeAlias': 2, 'recoveryCode': 6,
           'get': 1, 'getNotes': 1, 'list': 1, 'listSites': 1, 'removeSites': 1, 'restart': 2, 'reload': 1, 'lock': 0.7, 'unlock': 0.7, 'reset': 1.2}


def _lib_job(a):
    exe, shim, seed, n, length, weights = a
    rng = random.Random(seed)
    res = []
    for _ in range(n):
        def one():
            p = Pools(rng)
            l = Lib(exe, shim, p)
            s = l.s
            l.reset(rng.choice(p.pps))
            used = []
            for _ in range(length):
                if s.dead:
                    break
                op = rng.choices(list(weights), list(weights.values()))[0]
                i = dict(site=rng.choice(p.sites), name=rng.choice(p.names), rev=rng.choice(p.revs + ['']))
                if used and (rng.random() < 0.7 or op in ('recoveryCode', 'remove', 'setNotes', 'get', 'getNotes')):
                    i = rng.choice(used)
                if op == 'setStored':
                    used.append(i)
                    s.call(op, value=rng.choice(p.values), **i)
                elif op == 'same':
                    used.append(i)
                    for _ in range(2):
                        s.call('setStored', value=p.values[0], **i)
                elif op == 'setGenerated':
                    used.append(i)
                    s.call(op, len=rng.choice([8, 16]), cs=rng.randrange(1, 16), **i)
                elif op == 'setNotes':
                    s.call(op, notes=rng.choice(p.notes + ['']), **i)
                elif op == 'recoveryCode':
                    if any(q['type'] == 'sto' for q in s.disk['pws']):
                        q = rng.choice([q for q in s.disk['pws'] if q['type'] == 'sto'])
                        for _ in range(rng.choice([1, 2])):
                            s.call(op, site=q['site'], name=q['name'], rev=q['rev'])
                elif op in ('remove', 'getNotes'):
                    s.call(op, **i)
                elif op == 'get':
                    if any(q['type'] == 'sto' and q['name'] == i['name'] for q in s.disk['pws']):
                        s.call('getNotes', **i)
                elif op == 'setAlias':
                    s.call(op, site=rng.choice(p.sites), target=rng.choice(p.sites))
                elif op == 'removeAlias':
                    s.call(op, site=rng.choice(p.sites))
                elif op == 'list':
                    s.call(op, site=rng.choice(p.sites), name='*')
                elif op == 'listSites':
                    s.call(op, site='*')
                elif op == 'removeSites':
                    s.call(op, sites=[e['site'] for e in s.disk['sites'] if e['alias']][:1])
                elif op == 'restart':
                    l.restart()
                elif op == 'reload':
                    s.call('load')
                    s.call('unlock', pp=l.pp)
                elif op == 'lock':
                    s.call('lock')
                elif op == 'unlock':
                    s.call('unlock', pp=rng.choice(p.pps))
                    s.call('unlock', pp=l.pp)
                elif op == 'reset':
                    l.reset(rng.choice(p.pps), rng.choice([None, None, 'new', 'load']))
            return l.close()

        res += common.attempt(one, lambda: Watch.latest.hist())
    return res

def libs(chk, n, length, weights=WEIGHTS):
    parts = 8
    jobs = [(chk.bins['harness'], chk.bins['shim'], '%s/seclib/%d/%d' % (chk.prop, chk.seed, k), (n + parts - 1) // parts, length, weights) for k in range(parts)]
    res = [h for r in parallel(_lib_job, jobs) for h in r]
    chk.count('calls_recorded', sum(len(h['events']) for h in res))
    return res


# ------------------------------------------------ command line

class WatchedWorld(World):
    def __init__(self, exe, pools, **kw):
        super().__init__(exe, pps=pools.pps, env=dict(TMPDIR='/nonexistent'), **kw)
        self.env['TMPDIR'] = self.dir
        self.fsdir = '/'
        self.watch = Watch(pools, self.project, self.path, os.path.join(self.dir, 'history.txt'))
        self.cmd, self.typed = {}, {}
        self.raw = self.contents()

    def contents(self):
        try:
            with open(self.path, 'rb') as f:
                return f.read()
        except OSError:
            return None

    def start(self, words, i=1, **kw):
        self.cmd[i], self.typed[i] = words, []
        return super().start(words, i, **kw)

    def line(self, t, i=1, **kw):
        if self.cmd[i] == ['shell'] and asked(self.outs.get(i, '')) is None:
            self.typed[i].append(t)
        return super().line(t, i, **kw)

    def kill(self, i=1):
        super().kill(i)
        self.watch.note('killed')

    def _finish(self, i, inp, fault, inject, at=None, disk=None):
        st = super()._finish(i, inp, fault, inject, at, disk)
        raw = self.contents()
        reset = 'no'
        if self.cmd[i][:1] == ['set-primary'] and raw != self.raw:
            reset = 'done' if st == 0 else 'maybe'
        self.raw = raw
        over = st != -1
        self.watch.note({'process': i, 'command': self.cmd[i], 'input': uncodes(inp['t']) if inp['k'] == 'line' else inp['k'],
                         'output': self.out, 'status': st}, reset=reset, ops=self.ops,
                        codes=[code_data(m.group(1)) for m in CODE.finditer(self.out)],
                        typed=self.typed[i] if over else [], ended=st == 0 and self.cmd[i] == ['shell'])
        return st


def _cli_job(a):
    exe, shim, seed, n, steps, weights, kw = a
    rng = random.Random(seed)
    res = []
    for _ in range(n):
        def one():
            p = Pools(rng)
            w = WatchedWorld(exe, p, shim=shim)
            u = User(w, rng, weights, values=p.values, notes=p.notes, sites=p.sites, names=p.names, revs=p.revs, **kw)
            if rng.random() < 0.7:
                w.start(['set-primary', '-y'])
                for _ in range(2):
                    if w.st == -1:
                        w.line(p.pps[0])
            else:
                st = cligen.start_state(w, rng, p.pps[0], sites=p.sites, names=p.names, revs=[''] + p.revs, values=p.values, notes=p.notes)
                u.used += [(q['site'], q['name'], q['rev']) for q in st['pws']]
                w.raw = w.contents()
                w.watch.note('written by another implementation', op='adopt')
            for _ in range(steps):
                u.step()
            if 1 in w.procs:
                w.eof()
            w.close()
            return w.watch.hist()

        res += common.attempt(one, lambda: Watch.latest.hist())
    return res

def clis(chk, n, steps, weights, **kw):
    parts = 8
    jobs = [(chk.bins['cli'], chk.bins['shim'], '%s/seccli/%d/%d' % (chk.prop, chk.seed, k), (n + parts - 1) // parts, steps, weights, kw)
            for k in range(parts)]
    res = [h for r in parallel(_cli_job, jobs) for h in r]
    chk.count('dialogues_recorded', len(res))
    chk.count('inputs_recorded', sum(len(h['events']) for h in res))
    return res


def _long_job(a):
    """Many encryptions in one process."""
    exe, shim, seed, saves, codes = a
    rng = random.Random(seed)
    p = Pools(rng)
    l = Lib(exe, shim, p)
    l.reset(p.pps[0])
    ids = [dict(site=p.sites[1], name=n, rev='') for n in p.names[:2]]
    for k in range(saves):
        l.s.call('setStored', value=rng.choice(p.values), **ids[k % 2])
    for k in range(codes):
        l.s.call('recoveryCode', **ids[k % 2])
    return l.close()


def longruns(chk, n, saves, codes):
    jobs = [(chk.bins['harness'], chk.bins['shim'], '%s/long/%d/%d' % (chk.prop, chk.seed, k), saves, codes) for k in range(n)]
    res = parallel(_long_job, jobs)
    chk.count('encryptions_in_one_process', saves + codes)
    return res


def together(hist):
    """One history of everything the others have drawn."""
    empty = {'op': 'summary', 'reset': 'no', 'present': False, 'salt': [], 'secret': [], 'entries': [], 'codes': [], 'leaks': [], 'odd': [],
             'typed': [], 'ended': False, 'hist': [], 'nonces': [], 'salts': [], 'secrets': []}
    events = []
    for h in hist:
        n, s, x = h.pop('drawn')
        events.append(dict(empty, nonces=n, salts=s, secrets=x))
    return {'events': events + [dict(empty, op='spread')], 'what': ['history %d' % k for k in range(len(hist))] + ['all of them']}


def describe(h, at):
    if at is None:
        return 'history not explained by the specification', {'history': h['what'][:60]}
    k = at['l'] - 1
    return 'after %s: %s' % (json.dumps(h['what'][k], ensure_ascii=False)[:300], '; '.join(at['allowed'])[:600]), \
        {'history': h['what'][:k + 1], 'wrong': at['allowed'], 'event': h['events'][k]}
