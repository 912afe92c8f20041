"""Library level: runs calls in the harness, records histories, validates them with TraceVault.tla
and walks the transitions TLC enumerates for MCVault.tla through the real library."""
import collections, heapq, json, os, select, subprocess
import common
from pfpcrypto import *

NOARGS = {'op': '', 'i': 1, 'fault': False, 'site': '', 'name': '', 'rev': '', 'target': '', 'value': '',
          'notes': '', 'len': 0, 'cs': 0, 'pp': '', 'sites': []}


class Harness:
    def __init__(self, exe, env=None):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=dict(os.environ, **env) if env else None)

    def call(self, **req):
        try:
            self.p.stdin.write(json.dumps(req).encode() + b'\n')
            self.p.stdin.flush()
            ready, _, _ = select.select([self.p.stdout], [], [], 2 * common.patience())
            if not ready:
                common.hung()
                self.p.kill()
                return {'crash': 'hangs'}
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b''
        if not line:
            rc = self.p.wait()
            return {'crash': rc}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        self.p.wait()


CHARS = ['abcdefghjkmnpqrstuvwxyz', 'ABCDEFGHJKMNPQRSTUVWXYZ', '23456789', '!#$%&()*+,-./:;<=>?@[]^_{|}~']


def salt_of(p):
    return p['site'] + '\0' + p['name'] + ('\0' + p['rev'] if p['rev'] else '')


def bits_row(pp, p):
    salt = salt_of(p)
    return {'pp': codes(pp), 'salt': codes(salt), 'len': p['len'],
            'bytes': list(scrypt(pp.encode(), salt.encode(), p['len']))}


class Session:
    """Executes calls on one storage file and records them as a history of the specification."""

    def __init__(self, harness, path, project, n=1, faults=None, others=()):
        """Instance i works in the i-th process, or in the first one if there are fewer."""
        self.hs = [harness] + list(others)
        self.path, self.project = path, project
        self.disk = project.path(path)
        self.events = []
        self.faults = faults
        self.hist = {'n': n, 'disk0': tla_state(self.disk), 'events': self.events}
        self.dead = False
        self.faulty = False
        self.gens = {}
        self.resets, self.tried, self.targets = set(), set(), set()

    def bits(self, ev):
        """Oracle rows for every generated password the call may concern.

        After a failed save the session may hold entries the file does not have."""
        rows = {}
        if self.hist['n'] > 1:       # any instance may hold what was there at any time
            for k, p in self.gens.items():
                if p['name'] == ev['name']:
                    rows[k] = p
        if self.disk['kind'] == 'store':
            for p in self.disk['pws']:
                if p['type'] == 'gen' and p['name'] == ev['name'] and p['len'] > 0:
                    rows[(self.disk['pp'], salt_of(p), p['len'])] = p
        if self.faults and self.faulty:
            strip = lambda s: s[4:] if s.startswith('www.') else s
            sites = {strip(ev['site'])} | self.targets
            lens = {l for (s, n, r, l) in self.tried if n == ev['name']}
            rev = '' if ev['rev'] == '1' else ev['rev']
            for pp in {self.disk['pp']} | self.resets - {''}:
                for s in sites:
                    for l in lens:
                        p = {'site': s, 'name': ev['name'], 'rev': rev, 'len': l}
                        rows[(pp, salt_of(p), l)] = p
        return [bits_row(k[0], p) for k, p in sorted(rows.items(), key=lambda x: x[0])]

    def call(self, op, fault=False, **kw):
        self.faulty = self.faulty or fault
        if op == 'setAlias':
            self.targets.add(kw['target'][4:] if kw['target'].startswith('www.') else kw['target'])
        ev = dict(NOARGS, op=op, fault=fault, **kw)
        req = dict(ev, path=self.path)
        bits = []
        if op == 'reset':
            self.resets.add(kw['pp'])
        if op == 'setGenerated':
            self.tried.add((ev['site'], ev['name'], ev['rev'], ev['len']))
        if op == 'get':
            bits = self.bits(ev)
        if fault:
            self.faults.on()
        r = (self.hs[ev['i'] - 1] if ev['i'] <= len(self.hs) else self.hs[0]).call(**req)
        if fault:
            self.faults.off()
        if 'ok' in r:
            v = r['ok']
            if op == 'list':
                v = [tla_pw(p) for p in v]
            elif op == 'listSites':
                v = [{'site': codes(e['site']), 'alias': [codes(a) for a in e['alias']], 'bad': '', 'raw': ''}
                     for e in v]
            elif isinstance(v, str):
                v = codes(v)
            res = {'ok': True, 'v': v, 'e': ''}
        else:
            e = 'panic' if 'panic' in r else 'crash' if 'crash' in r else r['err']
            res = {'ok': False, 'v': [], 'e': e}
            self.dead = 'crash' in r
        self.disk = self.project.path(self.path)
        if self.hist['n'] > 1 and self.disk['kind'] == 'store':
            for p in self.disk['pws']:
                if p['type'] == 'gen' and p['len'] > 0:
                    self.gens[(self.disk['pp'], salt_of(p), p['len'])] = p
        rec = {k: (codes(v) if k in ('site', 'name', 'rev', 'target', 'value', 'notes', 'pp') else v)
               for k, v in ev.items()}
        rec['sites'] = [codes(s) for s in ev['sites']]
        rec.update(res=res, disk=tla_state(self.disk), bits=bits)
        self.events.append(rec)
        return r

    def foreign(self):
        """Something else has changed the file."""
        self.disk = self.project.path(self.path)
        rec = {k: ([] if isinstance(v, str) else v) for k, v in NOARGS.items()}
        rec.update(op='foreign', res={'ok': True, 'v': 0, 'e': ''}, disk=tla_state(self.disk), bits=[])
        self.events.append(rec)


def readable(ev):
    """An event in readable form, for replay files and messages."""
    r = {}
    for k, v in ev.items():
        if k in ('site', 'name', 'rev', 'target', 'value', 'notes', 'pp', 'text', 'out'):
            if v or k in ('site',):
                r[k] = uncodes(v)
        elif k == 'sites' and ev.get('op') == 'removeSites':
            r[k] = [uncodes(s) for s in v]
        elif k == 'disk':
            r[k] = readable_state(v)
        elif k in ('bits', 'fault', 'len', 'cs') and not v:
            pass
        elif k == 'bits':
            pass
        elif k == 'res':
            r[k] = {'ok': v['ok'], 'e': v['e'], 'v': nice(v['v'])}
        else:
            r[k] = v
    return r


def nice(v):
    if isinstance(v, list):
        if v and all(type(x) is int for x in v):
            return uncodes(v)
        return [nice(x) for x in v]
    if isinstance(v, dict):
        return {k: nice(x) for k, x in v.items()}
    return v


def readable_state(d):
    return nice(d)


def validate(chk, spec, histories, describe, prop=None, env=None, chunk=40000, workers=None):
    """Validates histories against a trace specification; reports rejected ones."""
    if not histories:
        return []
    rejected = []
    # balanced chunks, validated one TLC run each
    batches, cur, size = [], [], 0
    for i, h in enumerate(histories):
        cur.append(i)
        size += len(h['events'])
        if size >= chunk:
            batches.append(cur)
            cur, size = [], 0
    if cur:
        batches.append(cur)
    for batch in batches:
        rejected += _validate(chk, spec, histories, batch, prop or chk.prop, env or {}, workers)
    for i, at in rejected:
        h = histories[i]
        what, replay = describe(h, at)
        chk.violation(what, replay)
    chk.count('traces_validated_against_impl', len(histories))
    chk.count('events_validated', sum(len(h['events']) for h in histories))
    return rejected


def _run(chk, spec, lines, prop, env, verbose, workers):
    d = common.scratch('trace')
    path = os.path.join(d, 'trace.ndjson')
    with open(path, 'w') as f:
        for h in lines:
            f.write(json.dumps(h) + '\n')
    e = {'PFP_TRACE': path, 'PFP_PROP': prop, 'PFP_VERBOSE': '1' if verbose else '0'}
    e.update(env)
    r = common.tlc(spec + '.tla', spec + '.cfg', env=e, workers=1 if verbose else workers)
    if not r.ok:
        raise common.ToolError('trace validation failed to run: %s\n%s' % (spec, r.out[-4000:]))
    common.shutil.rmtree(d, ignore_errors=True)
    return r


def _validate(chk, spec, histories, batch, prop, env, workers):
    r = _run(chk, spec, [histories[i] for i in batch], prop, env, False, workers)
    chk.cov['states'] += r.distinct
    chk.cov['transitions'] += r.generated
    done = set()
    for line in r.out.split('\n'):
        if line.startswith('"DONE '):
            done.add(int(line[6:-1]))
    bad = [batch[k] for k in range(len(batch)) if k + 1 not in done]
    res = []
    for i in bad[:5]:
        rr = _run(chk, spec, [histories[i]], prop, env, True, 1)
        ats = common.printed(rr.out, 'AT')
        at = max(ats, key=lambda a: a['l'])
        at['all'] = [a for a in ats if a['l'] == at['l']]
        res.append((i, at))
    for i in bad[5:]:
        res.append((i, None))
    return res


def describe_vault(h, at):
    if at is None:
        return 'history not explained by the specification', {'history': [readable(e) for e in h['events']]}
    k = at['l'] - 1
    ev = h['events'][k]
    what = 'call %d %s not permitted by the specification: result %s' % (
        k + 1, json.dumps({x: y for x, y in readable(ev).items() if x not in ('disk', 'res')}, ensure_ascii=False),
        json.dumps(readable(ev)['res'], ensure_ascii=False)[:300])
    return what, {'history': [readable(e) for e in h['events'][:k + 1]], 'before': nice(at['v']),
                  'permitted': nice(at['allowed']), 'disk0': nice(h['disk0'])}


# ------------------------------------------------------------------ spec -> code

def canon(d):
    """Canonical form of a disk state of the specification (as printed) or of a projected one."""
    return json.dumps([d['kind'], d['pp'], sorted(json.dumps(e, sort_keys=True) for e in d['st']['sites']),
                       sorted(json.dumps(p, sort_keys=True) for p in d['st']['pws'])])


def canon_obs(d):
    return canon({'kind': d['kind'], 'pp': d['pp'], 'st': {'sites': d['sites'], 'pws': d['pws']}})


def insts(w):
    """The instances of a printed state: one (MCVault) or several (MCShare)."""
    return w['inst'] if isinstance(w['inst'], list) else [w['inst']]


class Graph:
    """Transition graph enumerated by TLC (NODE lines of MCVault)."""

    def __init__(self, nodes):
        self.out = {}         # state -> call -> [(res, post)]
        self.state = {}
        self._succ = {}
        names = {}
        for n in nodes:
            pre = self.key(n['state'])
            self.state[pre] = n['state']
            out = self.out[pre] = {}
            for c in n['calls']:
                outs = []
                for o in c['outs']:
                    post = pre
                    if o['post']:
                        post = self.key(o['post'][0])
                        self.state.setdefault(post, o['post'][0])
                    outs.append((json.dumps(o['res'], sort_keys=True), post))
                ev = json.dumps(c['ev'], sort_keys=True)
                out[names.setdefault(ev, ev)] = outs
        # beyond the bound: no further calls
        for s in self.state:
            self.out.setdefault(s, {})

    def succ(self, s):
        """Other states reachable by one call with a single outcome."""
        r = self._succ.get(s)
        if r is None:
            r = self._succ[s] = {outs[0][1]: c for c, outs in self.out[s].items() if len(outs) == 1 and outs[0][1] != s}
        return r

    @staticmethod
    def key(w):
        return canon(w['disk']) + ''.join('|' + canon(i['mem']) + '|%d%d' % (i['open'], i['unl']) for i in insts(w))

    def size(self):
        return sum(len(c) for c in self.out.values())


def res_matches(op, want, got, pp):
    """Does the real result equal the one the specification gives for this edge?"""
    if not want['ok']:
        if 'ok' in got:
            return False
        if 'panic' in got or 'crash' in got:
            return want['e'] == 'AnyError'
        return want['e'] in (got['err'], 'AnyError') or \
            (want['e'] == 'AliasRefused' and got['err'] in ('SiteHasPasswords', 'AliasToSelf')) or \
            (want['e'] == 'SaveFailure' and got['err'] in ('FileWriteFailure', 'CreateDirFailure'))
    if 'ok' not in got:
        return False
    v, g = want['v'], got['ok']
    if op == 'get':
        if v['type'] == 'sto':
            return uncodes(v['value']) == g
        p = {k: (uncodes(x) if isinstance(x, list) else x) for k, x in v.items()}
        return derive(pp, p) == g
    if op == 'list':
        norm = lambda ps: sorted(json.dumps(p, sort_keys=True) for p in ps)
        return norm(v) == norm([tla_pw(p) for p in g])
    if op == 'listSites':
        norm = lambda es: sorted(json.dumps([e['site'], e['alias']]) for e in es)
        return norm(v) == norm([{'site': codes(e['site']), 'alias': [codes(a) for a in e['alias']]} for e in g])
    if op in ('getAlias', 'getNotes'):
        return uncodes(v) == g
    if op in ('has', 'initialized', 'unlocked'):
        return v == g
    return True


def derive(pp, p):
    """Reference derivation, used where the specification leaves the value symbolic."""
    data = scrypt(pp.encode(), salt_of(p).encode(), p['len'])
    kinds = [k for k in range(4) if p['cs'] >> k & 1]
    seen, out = set(), ''
    for i, b in enumerate(data):
        allowed = [k for k in kinds if k not in seen] if len(kinds) - len(seen) >= len(data) - i else kinds
        chars = ''.join(CHARS[k] for k in allowed)
        c = chars[b % len(chars)]
        out += c
        seen.add([k for k in range(4) if c in CHARS[k]][0])
    return out


def tla_event(ev, res, disk, bits=()):
    rec = {k: (codes(v) if k in ('site', 'name', 'rev', 'target', 'value', 'notes', 'pp') else v)
           for k, v in ev.items()}
    rec['sites'] = [codes(s) for s in ev['sites']]
    rec.update(res=res, disk=disk, bits=list(bits))
    return rec


def model_state_to_py(d):
    return {'kind': d['kind'], 'pp': uncodes(d['pp']),
            'sites': [{'site': uncodes(e['site']), 'alias': [uncodes(a) for a in e['alias']], 'bad': '', 'raw': ''}
                      for e in d['st']['sites']],
            'pws': [{k: (uncodes(x) if isinstance(x, list) else x) for k, x in p.items()} for p in d['st']['pws']]}


class Walker:
    """Walks transitions of the specification through the real library."""

    def __init__(self, exe, graph, part, parts, deadline=None, keep=1.0, seed=0):
        self.g = graph
        n = len(insts(next(iter(graph.state.values()))))
        self.n = n
        # several instances: within one process, or one process each
        self.hs = [Harness(exe) for _ in range(n if part % 2 else 1)]
        self.h = self.hs[0]
        self.dir = common.scratch('walk')
        self.path = os.path.join(self.dir, 'storage.json')
        pps = {uncodes(s['disk']['pp']) for s in graph.state.values()}
        self.project = Project(sorted(pps))
        self.salt, self.secret = os.urandom(16), os.urandom(32)
        self.states = sorted(graph.out)
        # keep: the part of all transitions to be replayed, drawn by the seed
        self.todo = {s: set(c for j, c in enumerate(sorted(graph.out[s])) if (hash_str(s) + j) % parts == part
                            and (keep >= 1 or hash_str('%s|%s|%s' % (seed, s, c)) % 100000 < keep * 100000))
                     for s in self.states}
        self.suspicious = []
        self.covered = 0
        self.steps = 0
        self.ops = collections.Counter()
        self.deadline = deadline

    def write(self, d):
        d = model_state_to_py(d)
        wr = Writer(d['pp'], self.salt, self.secret)
        wr.store(d)
        wr.write(self.path)
        return d['pp']

    def enter(self, s):
        """Puts the real library into state s of the specification, by way of an independent writer."""
        w = self.g.state[s]
        for i, I in enumerate(insts(w)):
            h, i = self.where(i + 1)
            if not I['open']:
                h.call(op='drop', i=i)
                continue
            pp = self.write(I['mem'])
            h.call(op='load', i=i, path=self.path)
            if I['unl']:
                h.call(op='unlock', i=i, pp=pp)
        self.write(w['disk'])
        self.cur = s

    def where(self, i):
        """Instance i: (process, its number there)"""
        return (self.h, i) if len(self.hs) == 1 else (self.hs[i - 1], 1)

    def route(self):
        """Calls leading to the nearest state with work left."""
        prev = {self.cur: None}
        cost = {self.cur: 0}
        q = [(0, self.cur)]
        while q:
            d, s = heapq.heappop(q)
            if d > cost[s]:
                continue
            if self.todo.get(s):
                path = []
                while prev[s]:
                    path.append(prev[s][1])
                    s = prev[s][0]
                return path[::-1]
            for post, c in self.g.succ(s).items():
                e = d + (30 if '"op": "unlock"' in c or '"op": "reset"' in c else 1)      # deriving a key takes time
                if e < cost.get(post, 1 << 30):
                    prev[post], cost[post] = (s, c), e
                    heapq.heappush(q, (e, post))
        return None

    def step(self, c):
        s = self.cur
        ev = json.loads(c)
        outs = self.g.out[s][c]
        req = {k: (uncodes(v) if k in ('site', 'name', 'rev', 'target', 'value', 'notes', 'pp') else v)
               for k, v in ev.items()}
        req['sites'] = [uncodes(x) for x in ev['sites']]
        h, req['i'] = self.where(ev['i'])
        got = h.call(path=self.path, **req)
        req['i'] = ev['i']
        disk = tla_state(self.project.path(self.path))
        after = canon_obs(disk)
        self.steps += 1
        self.ops[ev['op']] += 1
        w = self.g.state[s]
        for res, post in outs:
            if not disk['odd'] and canon(self.g.state[post]['disk']) == after and \
                    res_matches(ev['op'], json.loads(res), got, uncodes(insts(w)[ev['i'] - 1]['mem']['pp'])):
                self.cur = post
                return True
        self.suspicious.append(self.mini(w, req, got, disk))
        self.enter(outs[0][1])
        return False

    def mini(self, w, req, got, disk):
        obs = lambda d: {'kind': d['kind'], 'pp': d['pp'], 'sites': d['st']['sites'], 'pws': d['st']['pws'], 'odd': []}
        ok = {'ok': True, 'v': 0, 'e': ''}
        all = insts(w)
        I = all[req['i'] - 1]
        d0 = obs(w['disk'] if self.n > 1 else I['mem'] if I['open'] else w['disk'])
        disk0 = d0
        evs = []
        for i, J in enumerate(all):
            if J['open']:
                m = obs(J['mem'])
                if m != disk0:
                    evs.append(tla_event(dict(NOARGS, op='foreign'), ok, m))
                evs.append(tla_event(dict(NOARGS, op='load', i=i + 1), ok, m))
                if J['unl']:
                    evs.append(tla_event(dict(NOARGS, op='unlock', i=i + 1, pp=uncodes(m['pp'])), ok, m))
        if evs:
            evs.append(tla_event(dict(NOARGS, op='foreign'), ok, obs(w['disk'])))
        op = req['op']
        if 'ok' in got:
            v = got['ok']
            if op == 'list':
                v = [tla_pw(p) for p in v]
            elif op == 'listSites':
                v = [{'site': codes(e['site']), 'alias': [codes(a) for a in e['alias']], 'bad': '', 'raw': ''} for e in v]
            elif isinstance(v, str):
                v = codes(v)
            res = {'ok': True, 'v': v, 'e': ''}
        else:
            res = {'ok': False, 'v': [], 'e': 'panic' if 'panic' in got else 'crash' if 'crash' in got else got['err']}
        bits = []
        if op == 'get':
            bits = [bits_row(uncodes(I['mem']['pp']), p) for p in model_state_to_py(I['mem'])['pws']
                    if p['type'] == 'gen' and p['name'] == req['name']]
        evs.append(tla_event(dict(NOARGS, **req), res, disk, bits))
        return {'n': self.n, 'disk0': disk0, 'events': evs}

    def run(self):
        self.enter(next(s for s in self.states if self.todo[s]) if any(self.todo.values()) else self.states[0])
        while len(self.suspicious) < 10:
            if self.deadline and common.time.time() > self.deadline:
                break
            if not self.todo.get(self.cur):
                r = self.route()
                if r is None:
                    rest = [s for s in self.states if self.todo[s]]
                    if not rest:
                        break
                    self.enter(rest[0])
                    continue
                for c in r:
                    if not self.step(c):
                        break
                continue
            c = self.todo[self.cur].pop()
            self.covered += 1
            self.step(c)
        for h in self.hs:
            h.close()
        return {'suspicious': self.suspicious, 'covered': self.covered, 'steps': self.steps, 'ops': dict(self.ops),
                'left': sum(len(t) for t in self.todo.values())}


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


def parallel(fn, jobs):
    """Runs fn(job) in forked processes; exceptions are passed on."""
    import gc, multiprocessing
    gc.collect()
    gc.freeze()
    ctx = multiprocessing.get_context('fork')
    common.scratch_root()
    with ctx.Pool(min(len(jobs), os.cpu_count() or 1)) as pool:
        return pool.map(fn, jobs, chunksize=1)


def walk(chk, graph, parts=8, deadline=None, limit=None):
    exe = chk.bins['harness']
    keep = min(1.0, limit / max(1, graph.size())) if limit else 1.0

    global _walk_job

    def _walk_job(part):
        return Walker(exe, graph, part, parts, deadline, keep, chk.seed).run()
    res = parallel(_call_walk_job, range(parts))
    sus = [h for r in res for h in r['suspicious']]
    ops = collections.Counter()
    for r in res:
        ops.update(r['ops'])
    chk.count('spec_transitions_replayed', sum(r['covered'] for r in res))
    chk.count('replay_calls', sum(r['steps'] for r in res))
    chk.cov['replayed_by_operation'] = dict(ops + collections.Counter(chk.cov.get('replayed_by_operation', {})))
    left = sum(r['left'] for r in res)
    if left and not sus:
        chk.count('spec_transitions_left_by_time_limit', left)
    return sus


def _call_walk_job(p):
    return _walk_job(p)


def graph_from_model(chk, cfg, module='MCVault'):
    """Model checks the configuration and returns the transition graph it enumerates."""
    with open(os.path.join(common.SPEC, cfg + '.cfg')) as f:
        text = f.read()
    d = common.scratch('cfg')
    path = os.path.join(d, cfg + '.cfg')
    with open(path, 'w') as f:
        f.write(text.replace('Emit = FALSE', 'Emit = TRUE'))
    r = chk.model(module + '.tla', path)
    g = Graph(common.printed(r.out, 'NODE'))
    chk.cov['models'][-1].update(config=cfg, emitted_transitions=g.size())
    return g


# ------------------------------------------------ tours of nondeterministic graphs, judged by TraceVault

def tours(chk, graph, faults, length=40, limit=2000):
    """Histories which together take every call in every (possible) state of the graph, up to the limit.

    Outcomes of failing saves are open, so the real library is only recorded here; TraceVault.tla
    decides whether what it did is permitted."""
    exe = chk.bins['harness']
    parts = 8

    global _tour_job

    def _tour_job(part):
        import random
        rng = random.Random('tour/%d/%d' % (chk.seed, part))
        h = Harness(exe)
        todo = {s: set(graph.out[s]) for s in graph.out}
        res, done = [], 0
        start = [s for s in sorted(graph.out) if graph.state[s]['inst']['open'] and graph.state[s]['inst']['unl']
                 and canon(graph.state[s]['disk']) == canon(graph.state[s]['inst']['mem'])
                 and not graph.state[s]['disk']['st']['pws']]
        while done < limit // parts:
            s0 = rng.choice(start)
            d = os.path.join(common.scratch('tour'), 'dir')
            os.makedirs(d)
            path = os.path.join(d, 'storage.json')
            w = graph.state[s0]
            py = model_state_to_py(w['disk'])
            wr = Writer(py['pp'])
            wr.store(py)
            wr.write(path)
            f = faults(path)
            ses = Session(h, path, Project(sorted({uncodes(x['disk']['pp']) for x in graph.state.values()})), faults=f)
            ses.call('load')
            ses.call('unlock', pp=py['pp'])
            belief = {s0}
            for _ in range(length):
                cands = [(s, c) for s in sorted(belief) for c in todo[s]]
                if cands and rng.random() < 0.8:
                    s, c = rng.choice(sorted(cands)) if len(cands) < 50 else cands[rng.randrange(len(cands))]
                else:
                    s = rng.choice(sorted(belief))
                    c = rng.choice(sorted(graph.out[s]))
                for b in belief:
                    todo[b].discard(c)
                ev = json.loads(c)
                req = {k: (uncodes(v) if k in ('site', 'name', 'rev', 'target', 'value', 'notes', 'pp') else v)
                       for k, v in ev.items()}
                req['sites'] = [uncodes(x) for x in ev['sites']]
                op, fault = req.pop('op'), req.pop('fault')
                req.pop('i')
                if fault:
                    f.kind = rng.choice(f.kinds)
                got = ses.call(op, fault=fault, **req)
                done += 1
                if ses.dead:
                    break
                after = canon_obs(tla_state(ses.disk))
                nb = set()
                for b in belief:
                    for r, post in graph.out[b].get(c, ()):
                        if json.loads(r)['ok'] == ('ok' in got) and canon(graph.state[post]['disk']) == after:
                            nb.add(post)
                if not nb:
                    break        # for TraceVault to judge
                belief = nb
            ses.call('load')
            ses.call('unlock', pp=ses.disk['pp'])
            ses.call('listSites', site='*')
            res.append(ses.hist)
        h.close()
        return res
    res = [h for r in parallel(_call_tour_job, range(parts)) for h in r]
    chk.count('tour_calls', sum(len(h['events']) for h in res))
    return res


def _call_tour_job(p):
    return _tour_job(p)
