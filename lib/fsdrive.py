"""Interrupts the real program at its file operations (shim/fsshim.c) and records what is left."""
import os, random, shutil
import common
from cligen import *
from clidrive import World, make_code
from vault import parallel

ERRNOS = {'EIO': 5, 'ENOSPC': 28, 'EACCES': 13, 'EROFS': 30, 'EINTR': 4, 'EDQUOT': 122, 'EMFILE': 24, 'ENOENT': 2}
CHANGES = {'trunc', 'open', 'excl', 'append', 'write', 'truncate', 'rename', 'exchange', 'link', 'unlink'}


def image(rng, pp, big=False):
    """Contents to start from, as an independent writer's storage."""
    st = {'sites': [{'site': s, 'alias': []} for s in ('a', 'b', 'empty', 'target')]
          + [{'site': s, 'alias': [t]} for s, t in (('al', 'a'), ('to', 'redirected'), ('to2', 'redirected'))],
          'pws': []}
    for s, n, r in [('a', 'x', ''), ('a', 'x', '2'), ('b', 'y', ''), ('target', 'z', 'rev 2')]:
        p = dict(type='sto', site=s, name=n, rev=r, len=0, cs=0, value=rng.choice(VALUES), notes=rng.choice(NOTES))
        st['pws'].append(p)
    st['pws'].append(dict(type='gen', site='b', name='g', rev='', len=rng.randrange(4, 25), cs=rng.randrange(1, 16), value='',
                          notes=rng.choice(NOTES)))
    if big:
        for k in range(60):
            st['pws'].append(dict(type='sto', site='b', name='n%d' % k, rev='', len=0, cs=0, value='v' * 500, notes='n' * 300))
    wr = Writer(pp)
    wr.store(st)
    return wr.text().encode()


def cases(rng, pp, newpp):
    """(words, answers) of commands which save; answers[0] is for the primary password."""
    code, _ = make_code(pp, rng.choice(VALUES))
    return [
        (['add', 'c', 'new'], [pp]),
        (['add', '-y', 'a', 'x', '-w'], [pp]),
        (['add', 'al', 'x', '-r', '2'], [pp, 'y']),
        (['add-stored', 'c', 'new', '-r', '7'], [pp, rng.choice(VALUES)]),
        (['add-stored', 'www.a', 'x'], [pp, 'yes', rng.choice(VALUES)]),
        (['add-stored', '-c', 'b', 'code'], [pp] + code),
        (['remove', 'al', 'x'], [pp]),
        (['notes', '-s', 'b', 'g'], [pp, rng.choice(NOTES[1:])]),
        (['notes', '-s', 'target', 'z', '-r', 'rev 2'], [pp, '']),
        (['alias', 'redirected', 'target'], [pp]),
        (['alias', '-r', 'al'], [pp]),
        (['list', '-v'], [pp]),
        (['set-primary', '-y'], [newpp, newpp]),
        (['set-primary'], ['y', newpp, newpp]),
    ]


class Image:
    """A directory with a storage file, created for every run.

    how: 'none' a regular file, 'link' a symbolic link, 'chain' one to another one elsewhere, 'hard' a file with a second name,
    'locked' one without write permission, 'beside' one among similarly named files"""

    def __init__(self, exe, shim, data, pps, how='none', around=None):
        self.exe, self.shim, self.data, self.pps, self.how, self.around = exe, shim, data, pps, how, around

    def world(self):
        w = World(self.exe, n=2, pps=self.pps, shim=self.shim)
        d = os.path.dirname(w.path)
        if self.data is None:
            os.rmdir(d)
        elif self.how in ('link', 'chain'):
            os.mkdir(os.path.join(d, 'real'))
            with open(os.path.join(d, 'real', 'file.json'), 'wb') as f:
                f.write(self.data)
            if self.how == 'chain':
                os.symlink(os.path.join(d, 'real', 'file.json'), os.path.join(d, 'other'))
            os.symlink('other' if self.how == 'chain' else os.path.join('real', 'file.json'), w.path)
        else:
            with open(w.path, 'wb') as f:
                f.write(self.data)
            if self.how == 'hard':
                os.link(w.path, os.path.join(d, 'backup.json'))
            if self.how == 'locked':
                os.chmod(w.path, 0o400)
            if self.how == 'beside':
                for e in ('.tmp', '.bak', '.new', '.old', '~', '.1', '.lock', '.part', '.swp'):
                    with open(w.path + e, 'wb') as f:
                        f.write(self.data * 3)
        w.disk = w.look()
        w.hist['disk0'] = tla_state(w.disk)
        if self.around is not None:
            w.surround(random.Random(self.around))
        return w


def files(w):
    """Regular files by the storage file, itself first."""
    d = os.path.dirname(w.path)
    res = []
    if os.path.isfile(w.path):
        res.append({'path': w.path, 'size': os.path.getsize(w.path)})
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if p != w.path and os.path.isfile(p):
                res.append({'path': p, 'size': os.path.getsize(p)})
    return res


def fs_history(before, ops, w):
    """The operations of one input for TraceFs.tla."""
    evs, k = [], 0
    for o in ops:
        if o['op'] == '!' or o['ret'] < 0:
            continue
        k += 1
        evs.append({'p': 1, 'op': o['op'], 'path': o['path'], 'path2': o['path2'], 'off': o['off'],
                    'len': o['ret'] if o['op'] == 'write' else 0, 'w': k})
    return {'target': w.path, 'files': before, 'events': evs,
            'size': os.path.getsize(w.path) if os.path.isfile(w.path) else -1}


def give(w, words, answers, at=None, inject=None, shell=False, i=1):
    """Runs a command; the step number `at` is interrupted.  Returns [(files before, ops, disk after)] per step."""
    steps = []
    if shell and words[0] != 'set-primary':
        inputs = [('start', ['shell']), ('line', ' '.join(words))] + [('line', a) for a in answers]
    else:
        inputs = [('start', words)] + [('line', a) for a in answers]
    for k, (kind, x) in enumerate(inputs):
        if k and w.st != -1:
            break
        before = files(w)
        inj = inject if k == at else None
        if kind == 'start':
            w.start(x, i, inject=inj)
        else:
            w.line(x, i, inject=inj)
        steps.append((before, w.ops, w.disk))
    return steps


def afterwards(w, rng, i=2):
    """What a new process finds, and that saving works again."""
    if w.disk['kind'] == 'none' or w.disk['pp'] == '':
        w.start(['list'], i)
        if w.st == -1:
            w.kill(i)
        return
    w.start(['list', '-s', '-v'], i)
    if w.st == -1:
        w.line(w.disk['pp'], i)
    if w.st == -1:
        w.kill(i)
    w.start(['add-stored', '-y', 'later', 'entry'], i)
    for a in (w.disk['pp'], 'later value'):
        if w.st == -1:
            w.line(a, i)
    if w.st == -1:
        w.kill(i)


def failures(rng, at, o, errnos):
    """What may happen at operation number at: one failure, or a failure and what comes of reacting to it."""
    err = lambda: str(ERRNOS[rng.choice(errnos)])
    few = len(errnos) < 4
    one = [[(at, 'kill')]] + [[(at, err())] for _ in range(1 if few else 3)]
    if o['op'] == 'write':
        one += [[(at, 'mid')], [(at, 'short')]]
    e = err()
    two = [[(at, e), (str(at + 1) + '+', e)], [(at, err()), (at + 1, 'kill')], [(at, err()), (at + 2, 'kill')], [(at, err()), (at + 1, 'mid')]]
    if o['op'] == 'write':
        two += [[(at, 'short'), (at + 1, e)], [(at, 'short'), (at + 1, 'kill')], [(at, 'short'), (str(at + 1) + '+', e)]]
    return one + (rng.sample(two, 2) if few else two)


def _job(a):
    exe, shim, seed, part, parts, errnos, images, around = a
    rng = random.Random('%s/%d' % (seed, part))
    hist, fs, counts = [], [], {'interruptions': 0, 'file_operations': 0}
    todo = []
    crng = random.Random(seed)      # the same in all parts
    for im in range(images):
        pps = crng.sample(PPS, 2)
        data = image(crng, pps[0], big=im % 3 == 2)
        for c, (words, answers) in enumerate(cases(crng, *pps)):
            todo.append((im, pps, data, words, answers, 'none'))
        todo.append((im, pps, None, ['set-primary'], [pps[1], pps[1]], 'none'))
        todo.append((im, pps, b'{"application":"pfp","format":3,"data":{}}', ['set-primary', '-y'], [pps[1], pps[1]], 'none'))
        for how in ('link', 'chain', 'hard', 'locked', 'beside'):
            words, answers = crng.choice([(['remove', 'a', 'x'], [pps[0]]), (['add-stored', 'c', 'new'], [pps[0], 'v' * 700]),
                                          (['notes', '-s', 'b', 'g'], [pps[0], 'n' * 500])])
            todo.append((im, pps, data, words, answers, how))
    for k, (im, pps, data, words, answers, how) in enumerate(todo):
        if k % parts != part:
            continue
        shell = words[0] != 'set-primary' and rng.random() < 0.3
        img = Image(exe, shim, data, pps, how, k if around else None)
        w = img.world()
        first = common.attempt(lambda: give(w, words, answers, shell=shell), rescued)
        if first and isinstance(first[0], dict):
            hist += first
        if not first or isinstance(first[0], dict):
            continue
        steps = first[0]
        for n, (before, ops, disk) in enumerate(steps):
            ops = [o for o in ops if o['op'] != '!']
            if any(o['op'] in CHANGES for o in ops) and how not in ('link', 'chain'):
                after = steps[n + 1][0] if n + 1 < len(steps) else files(w)
                h = fs_history(before, ops, w)
                h['size'] = after[0]['size'] if after and after[0]['path'] == w.path else -1
                h['what'] = '%s, input %d' % (' '.join(words), n + 1)
                fs.append(h)
        if w.procs:
            w.kill(1)
        hist.append(w.close())
        for n, (before, ops, disk) in enumerate(steps):
            ops = [o for o in ops if o['op'] != '!']
            counts['file_operations'] += len(ops)
            # the file as it would be without the failure, and what was shown in this step
            for at, o in enumerate(ops):
                for inject in failures(rng, at, o, errnos):
                    def interrupted():
                        w = img.world()
                        w.normal = [disk]
                        # steps before have to come out the same
                        give(w, words, answers, at=n, inject=inject, shell=shell)
                        w.normal = []
                        counts['interruptions'] += w.fired != 'no' or any(e['fault'] != 'no' for e in w.events)
                        if w.procs and shell and rng.random() < 0.8:        # the session goes on
                            for line in ('add-stored -y more entry', 'its value', 'list -s -v', 'lock'):
                                if 1 in w.procs:
                                    w.line(line, 1)
                        if 1 in w.procs:
                            w.kill(1)
                        afterwards(w, rng)
                        return w.close()

                    hist += common.attempt(interrupted, rescued)
    return hist, fs, counts


def crashes(chk, images, errnos=('EIO', 'ENOSPC'), around=False):
    """Histories with one interruption each, and the recorded file operations."""
    parts = 8
    jobs = [(chk.bins['cli'], chk.bins['shim'], '%s/fs/%d' % (chk.prop, chk.seed), k, parts, list(errnos), images, around) for k in range(parts)]
    hist, fs = [], []
    for h, f, c in parallel(_job, jobs):
        hist += h
        fs += f
        for k in c:
            chk.count(k, c[k])
    chk.count('dialogues_recorded', len(hist))
    return hist, fs


def savers(rng, pp, newpp):
    """Commands which save, as (words to start, lines); the last line leads to the save."""
    v = rng.choice(VALUES[:6])
    return [
        (['shell'], ['add-stored -y a x', pp, v]),
        (['shell'], ['add-stored c new', pp, v]),
        (['shell'], ['list -v', pp, 'add -y b g -l 8']),
        (['shell'], ['list -v', pp, 'remove al x']),
        (['shell'], ['show a x', pp, 'alias redirected target']),
        (['shell'], ['show a x', pp, 'alias -r al']),
        (['shell'], ['notes -s b y', pp, 'new notes']),
        (['remove', 'target', 'z', '-r', 'rev 2'], [pp]),
        (['list'], [pp]),       # drops what is empty
        (['set-primary', '-y'], [newpp, newpp]),
        (['add-stored', '-y', 'www.a', 'x', '-r', '2'], [pp, v]),
    ]


def prepare(w, i, cmd):
    """Everything but the last line."""
    words, lines = cmd
    w.start(words, i)
    for l in lines[:-1]:
        if i in w.procs:
            w.line(l, i)
    return i in w.procs


def schedule(img, rng, cmds, stops, order, look, kill=None):
    """Two processes which save, each stopped before one of its file operations (or killed there)."""
    w = img.world()
    w.hist['n'] = 3
    pp = img.pps[0]
    live = [i for i in (1, 2) if prepare(w, i, cmds[i - 1])]
    for i in live:
        line, at = cmds[i - 1][1][-1], stops[i - 1]
        if kill == i:
            w.line(line, i, inject=[(at, rng.choice(['kill', 'mid']))])
        else:
            w.line_paused(line, at, i)
        if look and rng.random() < 0.5:
            w.start(['list', '-s', '-v', 'a'], 3)
            if 3 in w.procs:
                w.line(w.disk['pp'] or pp, 3)
            if 3 in w.procs:
                w.kill(3)
    for i in order:
        if i in w.paused:
            w.resume(i)
            if 3 in w.procs:
                w.kill(3)
    for i in live:      # the sessions go on with what they know
        if i in w.procs and cmds[i - 1][0] == ['shell']:
            w.line('list -s -v', i)
            if i in w.procs and asked(w.outs[i]) is None and rng.random() < 0.5:
                w.line('add-stored -y more entry', i)
                w.line('its value', i)
    for i in list(w.procs):
        w.kill(i)
    w.start(['list', '-s', '-v'], 3)
    if 3 in w.procs:
        w.line(w.disk['pp'] or pp, 3)
    return w.close()


def _schedule_job(a):
    exe, shim, seed, part, parts, rounds = a
    rng = random.Random('%s/%d' % (seed, part))
    pps = random.Random(seed).sample(PPS, 2)
    data = image(random.Random(seed), pps[0])
    img = Image(exe, shim, data, pps)
    # how many file operations a save takes
    w = img.world()
    prepare(w, 1, savers(rng, *pps)[0])
    w.line('value', 1)
    ops = len([o for o in w.ops if o['op'] != '!'])
    w.close()
    res = []
    todo = [(k, j, o) for _ in range(rounds) for k in range(ops + 1) for j in range(ops + 1) for o in ((1, 2), (2, 1))]
    for n, (k, j, o) in enumerate(todo):
        if n % parts == part:
            cmds = rng.sample(savers(rng, *pps), 2)
            res += common.attempt(lambda: schedule(img, rng, cmds, (k, j), o, True, kill=rng.choice([None, None, None, 1, 2])), rescued)
    return res, ops


def schedules(chk, rounds):
    """Histories of two processes saving at the same time: every pair of points at which they are stopped."""
    parts = 8
    jobs = [(chk.bins['cli'], chk.bins['shim'], '%s/sched/%d' % (chk.prop, chk.seed), k, parts, rounds) for k in range(parts)]
    res = parallel(_schedule_job, jobs)
    hist = [h for r, _ in res for h in r]
    chk.cov['file_operations_per_save'] = max(o for _, o in res)
    chk.count('schedules_of_two_saves', len(hist))
    return hist


def describe_fs(h, at):
    strip = os.path.dirname(h['target']) + '/'
    ops = [{'op': o['op'], 'file': o['path'].replace(strip, ''), **({'to': o['path2'].replace(strip, '')} if o['path2'] != '-' else {}),
            **({'bytes': o['len']} if o['op'] == 'write' else {})} for o in h['events']]
    k = at['l'] if at else None
    what = 'command %r: during file operation %s the storage file is neither as before nor as afterwards: %s' % (
        h.get('what'), k, ops[k - 1] if k else ops)
    return what, {'command': h.get('what'), 'file operations': ops, 'at': k}
