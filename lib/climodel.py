"""Takes the real program through the dialogues enumerated by TLC from MCCli.tla."""
import json, os, random
import common
from clidrive import *
from cligen import asked
from libdrive import Faults
from vault import canon, canon_obs, parallel, model_state_to_py

PCS = {'unlock': 'unlock', 'consent': 'consent', 'value': 'value', 'notes': 'notes', 'code': 'code', 'extra': 'extra',
       'reset?': 'reset?', 'new1': 'new1', 'new2': 'new2', None: 'line'}


def codes_file(pp, rng):
    """Recovery codes with their oracle rows, for MCCli.tla: a short code in parts, some lines with typos."""
    good, data = make_code(pp, 'p#', salt=bytes(range(16)), nonce=bytes(range(50, 62)))
    other, data2 = make_code(pp, 'q#', salt=bytes(range(16)), nonce=bytes(range(70, 82)))
    n = len(good)
    wrong = good[1][:5] + ('A' if good[1][5] != 'A' else 'B') + good[1][6:]
    lines = [good[0], '\n'.join(good[1:]), wrong, ' '.join(good) + good[0][:7], ''.join(other).lower(), good[1][:13]]
    lines = [' '.join(l.split()) for l in lines]
    rows = []
    texts = set()

    # everything these lines may be put together to
    def grow(acc, depth):
        for l in lines:
            cs = clean(acc + l)
            d, k = b'', 0
            while k < len(cs) // 24:
                row = decode32(cs[24 * k:24 * k + 24])
                if row[14] == pearson(row[:14], 255 - k % 256):
                    texts.add(d + row[:14])
                    break
                if row[14] != pearson(row[:14], k % 256):
                    break
                d += row[:14]
                k += 1
            if k and depth:
                grow(cs[:24 * k], depth - 1)
    grow('', n)
    rows = [oracle_row(pp, d) for d in sorted(texts)]
    return {'lines': [codes(l) for l in lines], 'rows': rows}, lines


class CliGraph:
    def __init__(self, nodes):
        self.state, self.out = {}, {}
        for n in nodes:
            k = self.key(n['state'])
            self.state[k] = n['state']
            out = self.out[k] = {}
            for e in n['edges']:
                outs = []
                for o in e['outs']:
                    post = k
                    if o['post']:
                        post = self.key(o['post'][0])
                        self.state.setdefault(post, o['post'][0])
                    outs.append((o['st'], post))
                out[json.dumps([e['in']['k'], e['in']['words'], e['in']['t'], e['f']])] = outs
        self.ids = {s: n for n, s in enumerate(sorted(self.state))}
        self.disk = {s: canon(x['disk']) for s, x in self.state.items()}

    @staticmethod
    def key(s):
        p = s['p']
        return json.dumps([canon(s['disk']), p['pc'], p['cmd'], p['sh'], p['unl'], canon(p['mem']), p['acc']], sort_keys=True)

    def size(self):
        return sum(len(o) for o in self.out.values())


def _tour_job(a):
    exe, seed, part, parts, limit, length, path, split = a
    g = _graph
    rng = random.Random('%s/%d' % (seed, part))
    todo = {s: set(c for c in g.out[s] if hash_of(s, c) % parts == part) for s in g.out}
    left = sum(len(t) for t in todo.values())
    done, res = 0, []
    tries, met = {}, {}
    idle = 0
    ended = sorted(s for s in g.out if g.state[s]['p']['pc'] == 'end')
    edges = {s: [(c, [p for _, p in o]) for c, o in sorted(g.out[s].items())] for s in g.out}

    def way(starts):
        """The inputs leading to the nearest step not taken yet."""
        seen, queue = {s: None for s in starts}, list(starts)
        for s in queue:
            if todo.get(s):
                steps = []
                c = rng.choice(sorted(todo[s]))
                while seen[s]:
                    s, via = seen[s]
                    steps.append(via)
                return steps[::-1] + [c], s
            for c, posts in edges.get(s, ()):
                if json.loads(c)[3] != 'no':
                    continue
                if len(posts) > 1 and tries.get((s, c), 0) > 2:      # outcomes the program does not choose
                    posts = [p for p in posts if p in met.get((s, c), ())]
                for p in posts:
                    if p not in seen:
                        seen[p] = (s, c)
                        queue.append(p)
        return None, None

    while left and done < limit and idle < 12 and common.patience() > 2:
        before = left
        steps, s0 = way(rng.sample(ended, len(ended)))
        if steps is None:
            break
        w = World(exe, pps=sorted({uncodes(x['disk']['pp']) for x in g.state.values() if x['disk']['pp']}), faults=Faults, split=split)
        kind = g.state[s0]['disk']['kind']
        if kind == 'bad':
            with open(w.path, 'wb') as f:
                f.write(b'{"application":"pfp"')
        elif kind == 'uninit':
            with open(w.path, 'wb') as f:
                f.write(b'{"application":"pfp","format":3,"data":{}}')
        elif kind == 'store':
            py = model_state_to_py(g.state[s0]['disk'])
            wr = Writer(py['pp'])
            wr.store(py)
            wr.write(w.path)
        w.disk = w.look()
        w.hist['disk0'] = tla_state(w.disk)
        belief = {s0}
        if canon_obs(tla_state(w.disk)) != g.disk[s0]:
            raise common.ToolError('the state %s was not set up' % g.disk[s0])
        def tour():
            nonlocal steps, belief, left, done
            for _ in range(length):
                if not steps:
                    steps, s = way(sorted(belief))
                    if steps is None:
                        break
                c = steps.pop(0)
                k, words, t, f = json.loads(c)
                if not all(c in g.out.get(b, {}) for b in belief):
                    belief = {b for b in belief if c in g.out.get(b, {})}
                if not belief:
                    break
                for b in belief:
                    if c in todo[b]:
                        todo[b].discard(c)
                        left -= 1
                done += 1
                if f != 'no':
                    w.faults.kind = rng.choice(w.faults.kinds)
                if k == 'start':
                    w.start([uncodes(x) for x in words], fault=f != 'no')
                elif k == 'line':
                    w.line(uncodes(t), fault=f != 'no')
                    if any(g.state[b]['p']['pc'] not in ('code', 'extra') for b in belief):
                        w.code_reset()
                elif k == 'eof':
                    w.eof()
                else:
                    w.kill()
                st = w.events[-1]['st']
                pc = PCS[asked(w.out)] if st == -1 else 'end'
                after = canon_obs(tla_state(w.disk))
                posts = {(st2, p) for b in belief for st2, p in g.out[b][c]}
                nb = {p for st2, p in posts if (st2 == st or k == 'kill') and g.disk[p] == after and g.state[p]['p']['pc'] == pc}
                if not nb:
                    break            # for TraceCli to judge
                for b in belief:
                    tries[b, c] = tries.get((b, c), 0) + 1
                    met.setdefault((b, c), set()).update(p for _, p in g.out[b][c] if p in nb)
                if len({p for _, p in posts}) > 1 or nb != belief and len(nb) > 1:
                    steps = []
                belief = nb
                for b in nb:         # the program may know passwords the file does not
                    mem = g.state[b]['p']['mem']
                    if any(x['type'] == 'gen' for x in mem['st']['pws']):
                        for x in model_state_to_py(mem)['pws']:
                            if x['type'] == 'gen':
                                w.gens[(uncodes(mem['pp']), x['site'], x['name'], x['rev'], x['len'])] = x
                if steps and not any(steps[0] in g.out.get(b, {}) for b in belief):
                    steps = []
            return w.close()

        res += common.attempt(tour, rescued)
        idle = 0 if left < before else idle + 1
    return res, done, left


def hash_of(s, c):
    import zlib
    return zlib.crc32((s + c).encode())


_graph = None


def replay(chk, cfg, limit=None, length=60, split=False):
    """Histories which together take every step of the bounded model (or about limit of them)."""
    global _graph
    top = common.scratch('climodel')
    path = os.path.join(top, 'codes.ndjson')
    data, lines = codes_file('primary1', chk.rng)
    with open(path, 'w') as f:
        f.write(json.dumps(data) + '\n')
    with open(os.path.join(common.SPEC, 'MCCli_%s.cfg' % cfg)) as f:
        text = f.read().replace('Emit = FALSE', 'Emit = TRUE')
    p = os.path.join(top, 'MCCli.cfg')
    with open(p, 'w') as f:
        f.write(text)
    r = chk.model('MCCli.tla', p, env={'PFP_CODES': path})
    g = CliGraph(common.printed(r.out, 'NODE'))
    chk.cov['models'][-1].update(config='MCCli_' + cfg, emitted_transitions=g.size())
    parts = 8
    _graph = g
    jobs = [(chk.bins['cli'], '%s/%s/%d' % (chk.prop, cfg, chk.seed), k, parts, (limit or 10 ** 9) // parts, length, path, split) for k in range(parts)]
    hist, done, left = [], 0, 0
    for h, d, l in parallel(_tour_job, jobs):
        hist += h
        done += d
        left += l
    _graph = None
    chk.count('spec_transitions_replayed', g.size() - left)
    chk.log('MCCli_%s: %d states, %d transitions, %d taken by the program with %d inputs' % (cfg, len(g.state), g.size(), g.size() - left, done))
    if limit is None and left:
        chk.log('%d transitions not reached' % left)
    return hist
