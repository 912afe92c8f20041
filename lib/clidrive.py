"""Runs the real command line program and records its dialogues as histories of Cli.tla."""
import os, random, re, shutil, time
import common, qr
from clidrv import Cli, EditCli, PtyCli, Timeout
from pfpcrypto import *
from vault import bits_row, readable, nice

A32 = 'ABCDEFGHJKLMNPQRSTUVWXYZ23456789'
PERM = [((i + 379) * 467) & 255 for i in range(256)]


def pearson(data, virtual):
    h = PERM[virtual]
    for b in data:
        h = PERM[h ^ b]
    return h


def enc32(data):
    v = int.from_bytes(data, 'big') << (-len(data) * 8 % 5)
    n = (len(data) * 8 + 4) // 5
    return ''.join(A32[v >> 5 * (n - 1 - i) & 31] for i in range(n))


def code_lines(data):
    """The lines of the code for these bytes (padded to whole blocks), without punctuation."""
    data += bytes(-len(data) % 14)
    n = len(data) // 14
    lines = []
    for i in range(n):
        block = data[14 * i:14 * i + 14]
        s = pearson(block, 255 - i % 256 if i == n - 1 else i % 256)
        lines.append(enc32(block + bytes([s])))
    return lines


def punctuate(line):
    return '-'.join(line[i:i + 4] for i in range(0, 12, 4)) + ':' + '-'.join(line[i:i + 4] for i in range(12, 24, 4)) \
        if len(line) == 24 else line


def make_code(pp, value, salt=None, nonce=None, version=1, plain=None):
    """Recovery code made independently of the implementation under test: (lines, data bytes)."""
    salt = os.urandom(16) if salt is None else salt
    nonce = os.urandom(12) if nonce is None else nonce
    plain = value.encode() if plain is None else plain
    plain += bytes(-(29 + 16 + len(plain)) % 14)
    data = bytes([version]) + salt + nonce + gcm_encrypt(storage_key(pp, salt), nonce, plain)
    return code_lines(data), data


def clean(text):
    return ''.join(c for c in (chr(ord(c) - 32) if 'a' <= c <= 'z' else c for c in text) if c in A32)


def decode32(cs):
    v = 0
    for c in cs:
        v = v * 32 + A32.index(c)
    return (v >> (len(cs) * 5 % 8)).to_bytes(len(cs) * 5 // 8, 'big')


def code_data(text):
    """Bytes without checksums of all complete lines."""
    cs = clean(text)
    out = b''
    for i in range(len(cs) // 24):
        out += decode32(cs[24 * i:24 * i + 24])[:14]
    return out


def oracle_row(pp, data):
    plain = None
    if len(data) >= 45:
        plain = gcm_decrypt(storage_key(pp, data[1:17]), data[17:29], data[29:])
    return {'pp': codes(pp), 'data': list(data), 'plain': [] if plain is None else [list(plain)]}


HISTORY_NOISE = re.compile(r'^(Did not load previous command history from .*|Failed saving history to .*)\n', re.M)
DETAILS = re.compile(r'(Failed reading storage file|Failed writing storage file|Failed creating directory for storage|'
                     r'Corrupt Base64 data in storage|Corrupt JSON data in storage|Corrupt UTF-8 data in storage) '
                     r'\(.*\)', re.M)
CODE = re.compile(r'(?<=        Recovery code:\n)((?:        [A-HJ-NP-Z2-9:-]+\n)+)')
QRCODE = re.compile(r'Password retrieved\.((?:[ \u2580\u2584\u2588]+\n){11,})')


def segments(text):
    """Observed output as segments of the specification."""
    text = HISTORY_NOISE.sub('', text)
    text = DETAILS.sub(r'\1 (...)', text)
    res = []

    def txt(t):
        if t:
            res.append({'k': 'txt', 't': codes(t)})
    pos = 0
    marks = [(m.start(1), m.end(1), 'code', m.group(1)) for m in CODE.finditer(text)]
    m = QRCODE.search(text)
    if m:
        marks.append((m.start(1), m.end(1), 'qr', m.group(1)))
    for a, b, k, t in sorted(marks):
        txt(text[pos:a])
        if k == 'code':
            res.append({'k': 'code', 't': codes('\n'.join(l[8:] for l in t.split('\n')[:-1]))})
        else:
            try:
                res.append({'k': 'qr', 't': codes(qr.read(t[:-1]))})
            except qr.Unreadable as e:
                res.append({'k': 'badqr', 't': codes(str(e))})
        pos = b
    txt(text[pos:])
    return res


def parse_log(text):
    """Lines written by shim/fsshim.c."""
    res = []
    for l in text.split('\n'):
        f = l.split(' ')
        if len(f) >= 9:
            res.append({'n': int(f[0]), 'op': f[1], 'ret': int(f[2]), 'err': int(f[3]), 'path': f[4], 'path2': f[5],
                        'off': int(f[6]), 'len': int(f[7]), 'data': bytes.fromhex(f[8])})
    return res


def read_history(path):
    """Lines of a history file, in the format of the line editing library."""
    try:
        with open(path, encoding='utf-8', errors='surrogateescape', newline='') as f:
            lines = f.read().split('\n')
    except FileNotFoundError:
        return []
    if lines[0] == '#V2':
        return [re.sub(r'\\(.)', lambda m: '\n' if m.group(1) == 'n' else m.group(1), l) for l in lines[1:] if l]
    return [l for l in lines if l]


def write_history(path, lines):
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write('#V2\n' + ''.join(l.replace('\\', '\\\\') + '\n' for l in lines))


class World:
    """One storage file and the processes working on it."""

    latest = None

    def __init__(self, exe, n=1, pps=(), path=None, faults=None, sites=(), ids=(), env=None, shim=None, place='abs', tty=False, past=(), split=False):
        World.latest = self
        self.tty, self.split = tty, split
        self.exe, self.env, self.shim = exe, env, shim
        self.dir = common.scratch('cli')
        self.cwd, self.history = self.dir, os.path.join(self.dir, 'history.txt')
        below = {'home': '.config/PfP/storage.json', 'odd': 'a dir \u00e9%s/storage file', 'deep': 'x/y/z/storage.json'}.get(place, 'dir/storage.json')
        self.path = path or os.path.join(self.dir, below)
        given = {'home': None, 'below': below, 'dots': './x/../' + below, 'bare': 'storage.json', 'link': os.path.join(self.dir, 'link')}.get(place, self.path)
        self.where = {None: [], 'long': ['--storage', given], 'below': ['--storage=%s' % given]}.get(place if given else None, ['-c', given])
        if place != 'deep':
            os.makedirs(os.path.dirname(self.path), exist_ok=True)
        if place == 'dots':
            os.makedirs(os.path.join(self.dir, 'x'))
        elif place == 'bare':
            self.cwd = os.path.dirname(self.path)
        elif place == 'link':
            os.symlink(self.path, given)
        elif place == 'home':
            self.history = None
        self.project = Project(pps, sites, ids)
        self.past_path = self.history or os.path.join(self.dir, '.config/PfP/history.txt')
        if past:
            write_history(self.past_path, past)
            if self.history:         # the default one is of no concern then
                os.makedirs(os.path.join(self.dir, '.config/PfP'), exist_ok=True)
                write_history(os.path.join(self.dir, '.config/PfP/history.txt'), ['list unrelated', 'show some thing'])
        self.past = read_history(self.past_path)
        self.pps = list(pps)
        self.faults = faults(self.path) if faults else None
        self.procs = {}
        self.events = []
        self.gens = {}
        self.datas = set()
        self.want_bits = False
        self.acc = {}
        self.disk = self.look()
        self.hist = {'n': n, 'split': split, 'disk0': tla_state(self.disk), 'path': codes(given or self.path), 'rows': [], 'bits': [],
                     'hist0': [codes(t) for t in self.past],
                     'events': self.events}
        self.around, self.seen = False, None
        self.numbers = {}
        self.hist.update(target=[], above=[], place0=[])
        self.normal = []     # contents of the file after the coming input, if nothing fails
        self.seq = 0
        self.ops = []        # operations on files during the last input, with a shim
        self.fsdir = os.path.dirname(self.path)
        self.paused = {}
        self.armed = set()   # processes with an interruption set
        self.logpos = {}
        self.out = ''        # last output
        self.st = None
        self.outs, self.sts = {}, {}     # by process

    # ------------------------------------------------ what lies around the file
    def surround(self, rng):
        """Puts other files beside the storage file, and gives it unusual permissions."""
        d = os.path.dirname(self.path)
        for where in (d, self.dir):
            if os.path.isdir(where):
                for e in rng.sample(['.tmp', '.bak', '.new', '.old', '~', '.1', '.lock', '.swp', '.json', '.part'], 4):
                    p = os.path.join(where, os.path.basename(self.path) + e)
                    if not os.path.exists(p):
                        with open(p, 'w') as f:
                            f.write('something else%s' % e)
                        os.chmod(p, rng.choice([0o600, 0o644, 0o444]))
        self.protect(rng)
        home = os.path.join(self.dir, '.config')
        if rng.random() < 0.3 and not os.path.exists(home):
            os.makedirs(home, mode=0o700)
        target = os.path.realpath(self.path)
        above = []
        p = os.path.dirname(target)
        while p.startswith(self.dir + '/'):
            above.append(p)
            p = os.path.dirname(p)
        self.around = True
        self.hist.update(target=codes(target[len(self.dir):]), above=[codes(a[len(self.dir):]) for a in above], place0=self.things())

    def protect(self, rng):
        if os.path.isfile(self.path):
            os.chmod(self.path, rng.choice([0o600, 0o600, 0o640, 0o644, 0o660, 0o666, 0o400]))

    def things(self):
        target = os.path.realpath(self.path)
        res = []
        for top, dirs, files in os.walk(self.dir):
            for f in dirs + files:
                p = os.path.join(top, f)
                if p == self.past_path or top == self.dir and f.startswith('fs.'):
                    continue
                st = os.lstat(p)
                kind = {0o100000: 'file', 0o040000: 'dir', 0o120000: 'link'}.get(st.st_mode & 0o170000, 'other')
                what = os.readlink(p) if kind == 'link' else ''
                if kind == 'file' and p != target:
                    with open(p, 'rb') as fd:
                        what = fd.read()
                res.append({'path': codes(p[len(self.dir):]), 'kind': kind, 'mode': st.st_mode & 0o7777,
                            'id': self.numbers.setdefault(what, len(self.numbers) + 1) if what else 0})
        return sorted(res, key=lambda x: x['path'])

    def place(self):
        """For an event: what lies there now, if that can be told and has changed."""
        if not self.around or self.paused:
            return []
        now = self.things()
        before, self.seen = self.seen, now
        return [] if now == before else [now]

    def know(self, pp):
        """A primary password that may come into use."""
        if pp not in self.pps:
            self.pps.append(pp)
            self.project.pps.append(pp)

    def look(self):
        d = self.project.path(self.path)
        if d['kind'] == 'store':
            for p in d['pws']:
                if p['type'] == 'gen':
                    self.gens[(d['pp'], p['site'], p['name'], p['rev'], p['len'])] = p
        return d

    # ------------------------------------------------ the shim below the program
    def _aux(self, i, name):
        return os.path.join(self.dir, 'fs.%s.%d' % (name, i))

    def _control(self, i, *pairs):
        self.seq += 1
        tmp = self._aux(i, 'new')
        with open(tmp, 'w') as f:
            f.write('s%d %s\n' % (self.seq, ' '.join('%s %s' % p for p in pairs)))
        os.rename(tmp, self._aux(i, 'ctl'))

    def _log(self, i):
        """Operations recorded since the last call."""
        try:
            with open(self._aux(i, 'log')) as f:
                f.seek(self.logpos.get(i, 0))
                text = f.read()
        except FileNotFoundError:
            return []
        text = text[:text.rfind('\n') + 1]
        self.logpos[i] = self.logpos.get(i, 0) + len(text)
        return parse_log(text)

    def log_has(self, i, what):
        try:
            with open(self._aux(i, 'log')) as f:
                f.seek(self.logpos.get(i, 0))
                return any(l.split(' ')[1] == what for l in f.read().split('\n')[:-1])
        except FileNotFoundError:
            return False

    def _event(self, i, inp, fault, act, inject=None):
        if fault:
            self.faults.on()
        if inject:
            self._control(i, *inject)     # pairs of the number of an operation and what happens to it
            self.armed.add(i)
        elif i in self.armed:
            self._control(i, (-1, 'none'))
            self.armed.discard(i)
        act()
        return self._finish(i, inp, fault, inject)

    def _finish(self, i, inp, fault, inject, at=None, disk=None):
        p = self.procs[i]
        try:
            raw, ended = p.read_until_quiet()
            errors = p.errors() if self.split else b''
            st = p.finish() if ended else -1
        except Timeout as t:
            raw, st, errors = t.args[0], -2, b''      # neither waits nor ends
            if not self.tty:
                p.proc.stdout.close()
        if st != -1:
            del self.procs[i]
        if fault:
            self.faults.off()
        if self.shim:
            self.ops = self._log(i)
        how = 'yes' if fault else 'no'
        mess = fault
        done = [o['path2'] for o in self.ops if o['op'] == '!' and o['path2'] != 'pause']
        if inject and done:
            how = 'crash' if {'kill', 'mid'} & set(done) else 'maybe'
            # it cannot tidy up if it was killed, or if that fails as well
            mess = how == 'crash' or len(done) > 1 or any(o['op'] == '!' and o['path'] == 'unlink' for o in self.ops)
        self.fired = how
        if disk is None:
            self.disk = self.look()
        past, self.past = self.past, read_history(self.past_path)
        text = raw.decode('utf-8', 'replace')
        self.out, self.st = text, st
        self.outs[i], self.sts[i] = text, st
        for m in CODE.finditer(text):
            self.datas.add(code_data(m.group(1)))
        if 'Password retrieved' in text or 'Passwords for' in text:
            self.want_bits = True
        ev = {'i': i, 'in': inp, 'fault': how, 'out': segments(text), 'err': segments(errors.decode('utf-8', 'replace')), 'st': st, 'disk': disk or tla_state(self.disk),
              'normal': [tla_state(d) for d in self.normal],
              'echo': 'none' if not self.tty or st == -2 else 'on' if p.echo else 'off',
              'hist': [] if past == self.past else [[codes(t) for t in self.past]],
              'mess': mess, 'place': self.place()}
        self.events.insert(len(self.events) if at is None else at, ev)
        return st

    def start(self, words, i=1, fault=False, preexec=None, inject=None):
        argv = [self.exe] + self.where + ([] if self.tty else ['--stdin-passwords']) + words
        if words == ['shell'] and self.history:
            argv += ['-s', self.history]
        env = dict(self.env or {}, HOME=self.dir)
        if self.shim:
            env.update(LD_PRELOAD=self.shim, FSDIR=self.fsdir, FSLOG=self._aux(i, 'log'), FSCTL=self._aux(i, 'ctl'))

        def act():
            argb = [a.encode() for a in argv]
            if self.tty:
                self.procs[i] = (EditCli if self.tty == 'edit' else PtyCli)(argb, cwd=self.cwd, preexec=preexec, env=env)
            else:
                self.procs[i] = Cli(argb, cwd=self.cwd, preexec=preexec, env=env, split=self.split)
        return self._event(i, {'k': 'start', 'words': [codes(w) for w in words], 't': []}, fault, act, inject)

    def line(self, t, i=1, fault=False, inject=None):
        if self.tty:        # characters which a terminal treats as commands
            t = ''.join(c for c in t if c == '\t' or ord(c) >= 32 and ord(c) != 127)[:PtyCli.MAX // 4]
        self.note_code(t, i)
        return self._event(i, {'k': 'line', 'words': [], 't': codes(t)}, fault, lambda: self.procs[i].send(t.encode()), inject)

    def eof(self, i=1, fault=False, inject=None):
        return self._event(i, {'k': 'eof', 'words': [], 't': []}, fault, lambda: self.procs[i].close_stdin(), inject)

    # only on terminals
    def quit(self, i=1):
        """The end of input at a prompt where what is entered isn't displayed."""
        return self._event(i, {'k': 'quit', 'words': [], 't': []}, False, lambda: self.procs[i].close_stdin())

    def interrupt(self, t, i=1):
        """A command line which is not completed."""
        return self._event(i, {'k': 'intr', 'words': [], 't': codes(t)}, False, lambda: self.procs[i].keys(t.encode() + EditCli.INTERRUPT))

    def recall(self, n, i=1):
        """The n-th last command line once more."""
        return self._event(i, {'k': 'recall', 'words': [], 't': [n]}, False, lambda: self.procs[i].keys(EditCli.PREVIOUS * n + b'\r'))

    def line_paused(self, t, at, i=1):
        """Enters a line and stops the process before its file operation number at.

        Returns False if it does not come to this operation, the input then is complete."""
        self.note_code(t, i)
        before = self.disk
        pos = len(self.events)
        self._control(i, (at, 'pause'))
        self.armed.add(i)
        p = self.procs[i]
        p.send(t.encode())
        inp = {'k': 'line', 'words': [], 't': codes(t)}
        deadline = time.time() + 20
        while not self.log_has(i, '!'):
            if (p._pending_in() == 0 and p._asleep()) or p.proc.poll() is not None or time.time() > deadline:
                if not self.log_has(i, '!'):
                    self._finish(i, inp, False, None)
                    return False
            time.sleep(0.0005)
        self.disk = self.look()
        # has it taken effect already?
        self.paused[i] = (inp, pos, tla_state(self.disk)) if tla_state(self.disk) != tla_state(before) else (inp, None, None)
        return True

    def resume(self, i):
        inp, at, disk = self.paused.pop(i)
        self._control(i, (-1, 'none'))
        return self._finish(i, inp, False, [(-1, 'pause')], at, disk)

    def kill(self, i=1):
        """Ends a waiting process by a signal."""
        p = self.procs.pop(i)
        p.kill()
        p.finish()
        self.disk = self.look()
        self.events.append({'i': i, 'in': {'k': 'kill', 'words': [], 't': []}, 'fault': 'no', 'out': [], 'st': -9,
                            'disk': tla_state(self.disk), 'normal': [], 'echo': 'none', 'err': [],
                            'hist': [], 'mess': False, 'place': self.place()})

    def foreign(self):
        """Something else has changed the file."""
        self.disk = self.look()
        self.events.append({'i': 1, 'in': {'k': 'foreign', 'words': [], 't': []}, 'fault': 'no', 'out': [], 'st': -1,
                            'disk': tla_state(self.disk), 'normal': [], 'echo': 'none', 'err': [],
                            'hist': [], 'mess': False, 'place': self.place()})

    # every text that may be decoded as a recovery code needs an oracle row
    def note_code(self, t, i):
        if 'empty line to abort' not in self.outs.get(i, '')[-200:]:
            self.acc[i] = ''         # no line of a code
            return
        acc = self.acc.get(i, '')
        for text in {t.strip(), acc + t.strip()}:
            cs = clean(text)
            n = len(cs) // 24
            data = b''
            for k in range(n):
                row = decode32(cs[24 * k:24 * k + 24])
                data += row[:14]
                if row[14] == pearson(row[:14], 255 - k % 256):
                    self.datas.add(data)
        cs = clean(acc + t.strip())
        good = 0
        for k in range(len(cs) // 24):
            row = decode32(cs[24 * k:24 * k + 24])
            if row[14] not in (pearson(row[:14], k % 256),):
                break
            good = k + 1
        whole = good == len(cs) // 24
        self.acc[i] = cs if whole else cs[:24 * good]

    def code_reset(self, i=1):
        self.acc[i] = ''

    def close(self):
        """Ends everything and completes the history."""
        for i in list(self.procs):
            self.kill(i)
        self.hist['rows'] = [oracle_row(pp, d) for d in sorted(self.datas) for pp in self.pps]
        if self.want_bits:
            self.hist['bits'] = [bits_row(k[0], p) for k, p in sorted(self.gens.items()) if p['len'] > 0]
        shutil.rmtree(self.dir, ignore_errors=True)
        return self.hist


def rescued():
    """What there is of the history being recorded."""
    return World.latest.close()


def show_out(out):
    return ''.join(uncodes(s['t']) if s['k'] == 'txt' else '<%s %s>' % (s['k'], uncodes(s['t'])) for s in out)


def show_event(e):
    inp = e['in']
    return {'process': e['i'],
            'input': ('start ' + ' '.join(repr(uncodes(w)) for w in inp['words'])) if inp['k'] == 'start'
            else {'line': 'line ', 'intr': 'interrupted line ', 'recall': 'recall '}.get(inp['k'], inp['k'])
            + ('%d' % inp['t'][0] if inp['k'] == 'recall' else repr(uncodes(inp['t'])) if inp['t'] else ''),
            **({'file operations': {'yes': 'writing fails', 'maybe': 'one fails or is cut short', 'crash': 'killed'}[e['fault']]}
               if e['fault'] != 'no' else {}),
            'output': show_out(e['out']), **({'errors': show_out(e['err'])} if e['err'] else {}), 'status': e['st'], 'file': nice(e['disk']),
            **({'around': ['%s %s %o' % (uncodes(x['path']), x['kind'], x['mode']) for x in e['place'][0]]} if e['place'] else {}),
            **({'history': [uncodes(t) for t in e['hist'][0]]} if e['hist'] else {})}


def describe_cli(h, at):
    events = [show_event(e) for e in h['events']]
    if at is None:
        return 'dialogue not explained by the specification', {'dialogue': events}
    k = at['l'] - 1
    e = events[k]
    allowed = []
    for a in at.get('all', [at]):
        for o in a['allowed']:
            allowed.append({'output': show_out(o['out']), 'status': o['st'], 'file': nice(o['disk']),
                            'agrees': o['matches']})
    what = 'step %d, %s: output %r status %s is not permitted; permitted: %s' % (
        k + 1, e['input'], e['output'][:300], e['status'],
        '; '.join('%r status %s%s' % (a['output'][:200], a['status'], '' if a['agrees']['disk'] else ' with other file contents')
                  for a in allowed[:3]))
    return what, {'dialogue': events[:k + 1], 'permitted': allowed, 'disk0': nice(h['disk0'])}
