"""Random users of the command line program."""
import json, os, random
import common
from clidrive import *
from libdrive import Faults
from vault import parallel

SITES = ['a', 'www.a', 'A', 'ab', 'b', 'example.com', 'www.example.com', 'm.example.com', 'é', 'e\u0301', '\U0001f980', 'a:b',
         'x y', ' a', 'a ', 'WWW.a', 'wwww.a', '"a"', "it's", 'a\\b', '$HOME', '`x`', '#a', 'a=b', '~', 'l' * 120, '', 'ß', 'ss',
         '-', 'a*', 'a?']
NAMES = ['x', 'X', 'xy', '', 'x y', ' x', 'x ', 'é', '\U0001f511', '"', "'", '\\', 'a\\"b', '$x', '#', 'x*', '?', 'aab', 'n' * 100,
         'x@example.com', '1', '-', '<>', 'a;b', 'a&b', '\\n', '%s', '{}']
REVS = ['', '1', '01', '2', '10', 'x', ' ', '1 ', '\u0661', 'rev 2', '+1', '0']
VALUES = ['secret', 'S3cret!', 'ü', '12345', 'HELLO WORLD', 'a b  c', '日本語', '\U0001f980', '"quoted"', "it's", 'back\\slash', '', 'v' * 300,
          'x' * 13, 'x' * 14, 'x' * 11, 'x' * 12, '<b>&', '%s', '-', 'y', '0', '1' * 40, 'ABC-123 $%*+./:', '{"a":1}', '!#$%&()']
# what only a recovery code can bring in: entered values come without blanks at their ends
PADDED = [' x', 'x ', 'trailing  ', '\ttab', ' ', '   ', '\n', 'line\n', 'two\nlines', '\r\n', 'nul\0', '\0', '\u3000wide\u3000', '\ufeffx', 'é ', ' ' * 14,
          'end of line\r', 'v' * 13 + ' ']
NOTES = ['n', 'some notes', ' padded ', 'tab\there', 'é日本\U0001f511', '"', '\\', 'z' * 200, '', 'y', "it's", '  ', 'None']
PPS = ['primary1', 'primary2', 'Primary1', 'prümary\U0001f511', 'a b c d', 'x' * 80, '123456', 'yes yes']
WRONG = ['primary3', 'primary', 'primary11', 'PRIMARY1', 'primar y1', '', ' ', 'short', 'x', '12345', 'äöü', 'primary1x']
ANSWERS_YES = ['y', 'yes', 'Y', 'YES', ' y ', 'Yes', '\ty']
ANSWERS_NO = ['n', 'no', 'N', '', ' ', 'No', ' no ']
ANSWERS_OTHER = ['maybe', 'yy', 'ye', 'nope', '1', 'true', '0', 'ja', 'y n', 'q', 'да']

PROMPTS = [('unlock', 'Your primary password: '), ('new1', 'New primary password: '),
           ('new2', 'Repeat primary password: '), ('value', 'Password to be stored: '),
           ('consent', 'Overwrite? (y/N) '), ('reset?', 'Continue? (y/N) '), ('extra', '(Y/n) '),
           ('code', '(empty line to abort): '), ('notes', 'notes to be stored:')]


def asked(out):
    for k, p in PROMPTS:
        if out.endswith(p):
            return k
    return None


def quote(rng, w):
    """The word as it may be written in a shell line."""
    simple = bool(w) and all(c.isalnum() or c in '.:@/_-+=*?,^%~{}<>!|&;()[]#$`' for c in w)
    if simple and rng.random() < 0.7:
        return w
    k = rng.random()
    if k < 0.35 and "'" not in w:
        return "'" + w + "'"
    if k < 0.75:
        return '"' + ''.join('\\' + c if c in '"\\' or (c in '$`' and rng.random() < 0.5) else c for c in w) + '"'
    if w and k < 0.9:
        return ''.join(c if c.isalnum() else '\\' + c for c in w)
    if len(w) > 1:      # put together from parts
        i = rng.randrange(1, len(w))
        return quote(rng, w[:i]) + quote(rng, w[i:])
    return '"' + ''.join('\\' + c if c in '"\\' else c for c in w) + '"'


class User:
    """Keeps issuing commands and answering questions."""

    def __init__(self, w, rng, weights, nsites=4, nnames=3, nrevs=2, right=0.85, yes=0.5, fault=0.0, usage=0.05,
                 shell=0.5, newproc=0.25, wild=0.3, values=VALUES, notes=NOTES, sites=SITES, names=NAMES, revs=REVS,
                 pps=None, eof=0.04, kill=0.02, typos=0.4, maxgen=3, verbose=0.5, again=0.6, foreign=0.0):
        self.w, self.rng = w, rng
        pick = lambda pool, n: rng.sample(pool, min(n, len(pool)))
        self.sites = pick(sites, nsites)
        self.sites.append('www.' + next((s for s in self.sites if not s.startswith('www.')), 'a'))
        self.names, self.revs = pick(names, nnames), pick(revs, nrevs) + ['1', '']
        self.values, self.notes = values, notes
        self.pps = pps or w.pps
        self.ops, self.ws = list(weights), list(weights.values())
        self.right, self.yes, self.fault, self.usage = right, yes, fault, usage
        self.shell, self.newproc, self.wild, self.eofp, self.killp = shell, newproc, wild, eof, kill
        self.quitp = 0.03
        self.typos, self.maxgen, self.verbose, self.again, self.foreign = typos, maxgen, verbose, again, foreign
        self.used = []
        self.codes = []          # (pp, value, lines)
        self.plan = {}           # process -> lines of the code being entered
        self.shells = set()
        self.newpp = {}

    # ------------------------------------------------ commands
    def ident(self):
        r = self.rng
        if self.used and r.random() < self.again:
            s, n, v = r.choice(self.used)
            k = r.random()
            if k < 0.15 and not s.startswith('www.'):
                s = 'www.' + s
            elif k < 0.25:
                n = r.choice(self.names)
            elif k < 0.35:
                v = r.choice(self.revs)
            elif k < 0.45:
                s = r.choice(self.sites)
            return s, n, v
        i = (r.choice(self.sites), r.choice(self.names), r.choice(self.revs))
        self.used.append(i)
        return i

    def rev_words(self, rev):
        r = self.rng
        if rev in ('', '1') and r.random() < 0.6:
            return []
        if rev.startswith('-') and rev != '-':
            return ['--revision=' + rev]
        k = r.random()
        if k < 0.5:
            return ['-r', rev]
        if k < 0.7 and rev and not rev.startswith('='):
            return ['-r' + rev]
        return ['--revision', rev] if k < 0.85 else ['--revision=' + rev]

    def flags(self, pairs):
        """pairs: (short, long, probability)"""
        r = self.rng
        res, cluster = [], ''
        for s, l, p in pairs:
            if r.random() < p:
                if r.random() < 0.5:
                    cluster += s
                else:
                    res.append('--' + l)
        if cluster:
            res.append('-' + cluster)
        return res

    def pattern(self, pool):
        r = self.rng
        if r.random() > self.wild:
            return r.choice(pool)
        t = r.choice(pool)
        k = r.random()
        if k < 0.3 or not t:
            return '*'
        i = r.randrange(len(t))
        if k < 0.5:
            return t[:i] + '*'
        if k < 0.65:
            return '*' + t[i:]
        if k < 0.8:
            return t[:i] + '?' + t[i + 1:]
        return t[:i] + '*' + t[i + 1:]

    def command(self):
        r = self.rng
        op = r.choices(self.ops, self.ws)[0]
        if op == 'add' and len(self.w.gens) >= self.maxgen:
            op = 'add-stored' if 'add-stored' in self.ops else 'remove'
        s, n, v = self.ident()
        pos, opts = [], []
        if op == 'add':
            pos, opts = [s, n], self.rev_words(v) + self.flags([('y', 'assume-yes', 0.2)])
            if r.random() < 0.4:
                l = r.choice(['4', '5', '8', '16', '24', '+8', '08'] if r.random() < 0.75 else ['3', '25', '0', '-1', '1000', '99999999999999999999', ' 8', '8 ', '4.0', '0x8', ''])
                opts += r.choice([['-l', l], ['--length', l], ['--length=' + l], ['-l' + l if l else '-l=']])
            opts += self.flags([('w', 'no-lower', 0.25), ('u', 'no-upper', 0.25), ('d', 'no-digit', 0.25), ('s', 'no-symbol', 0.25)])
            if r.random() < 0.04:
                opts = ['-wuds']
        elif op == 'add-stored':
            pos, opts = [s, n], self.rev_words(v) + self.flags([('y', 'assume-yes', 0.2)])
        elif op == 'add-code':
            op = 'add-stored'
            pos, opts = [s, n], self.rev_words(v) + self.flags([('y', 'assume-yes', 0.5)]) + [r.choice(['-c', '--recovery'])]
        elif op == 'remove':
            pos, opts = [s, n], self.rev_words(v)
        elif op == 'show':
            pos, opts = [s, n], self.rev_words(v)
        elif op == 'qr':
            op = 'show'
            pos, opts = [s, n], self.rev_words(v) + [r.choice(['-q', '--qrcode'])]
        elif op == 'notes':
            pos, opts = [s, n], self.rev_words(v)
        elif op == 'set-notes':
            op = 'notes'
            pos, opts = [s, n], self.rev_words(v) + [r.choice(['-s', '--set'])]
        elif op == 'list':
            k = r.random()
            pos = [] if k < 0.3 else [self.pattern(self.sites)] if k < 0.6 else [self.pattern(self.sites), self.pattern(self.names)]
            opts = self.flags([('s', 'show', 0.25), ('r', 'recovery', 0.3), ('v', 'verbose', self.verbose)])
        elif op == 'alias':
            pos = [r.choice(self.sites)]
        elif op == 'set-alias':
            op = 'alias'
            pos = [r.choice(self.sites), r.choice(self.sites)]
            opts = self.flags([('r', 'remove', 0.1)])
        elif op == 'remove-alias':
            op = 'alias'
            pos, opts = [r.choice(self.sites)], self.flags([('r', 'remove', 1)])
        elif op == 'set-primary':
            opts = self.flags([('y', 'assume-yes', 0.3)])
        elif op in ('lock', 'exit', 'shell'):
            pass
        pos = ['-' if p.startswith('-') else p for p in pos]
        words = [op]
        k = r.random()
        if k < 0.1 and pos:
            words += opts + ['--'] + pos
        elif k < 0.3:
            words += opts + pos
        else:
            words += pos + opts
        if r.random() < self.usage:
            words = self.spoil(words)
        return words

    def spoil(self, words):
        r = self.rng
        k = r.randrange(9)
        if k == 0:
            return words[:-1]
        if k == 1:
            return words + ['extra']
        if k == 2:
            return words + [r.choice(['-z', '--unknown', '-x', '--lenght', '--Revision', '-Y'])]
        if k == 3:
            return [r.choice(['shwo', 'SHOW', 'Add', 'delete', 'set', '', 'ls', 'shows'])] + words[1:]
        if k == 4:
            return words + ['-r', 'a', '-r', 'b']
        if k == 5:
            return [r.choice(['help', '--help', '-h', '--version', '-V'])]
        if k == 6:
            return words + [r.choice(['-h', '--help'])]
        if k == 7:
            return words + ['-r']
        return []

    # ------------------------------------------------ answers
    def pp(self):
        r = self.rng
        cur = self.w.disk['pp']
        if r.random() < self.right and cur:
            return r.choice([cur, cur, cur, cur + ' ', '  ' + cur, '\t' + cur])
        return r.choice(WRONG + [p for p in self.pps if p != cur])

    def new_code(self, pp=None):
        r = self.rng
        k = r.random()
        pp = pp or self.w.disk['pp'] or self.pps[0]
        if self.codes and k < 0.6:
            return r.choice(self.codes)
        v = r.choice(self.values if self.values is not VALUES or r.random() < 0.6 else PADDED)
        if k < 0.85:
            lines, _ = make_code(pp, v)
        elif k < 0.9:
            lines, _ = make_code(r.choice(self.pps), v)
        elif k < 0.92:
            lines, _ = make_code(pp, v, version=r.choice([0, 2, 255]))
        elif k < 0.95:
            lines = code_lines(bytes([1]) + os.urandom(r.choice([1, 13, 20, 27, 41, 42, 55])))
        elif k < 0.97:
            lines, _ = make_code(pp, v, plain=b'\xff\xfe' + v.encode())
        else:
            lines, _ = make_code(pp, v, plain=v.encode() + bytes(r.randrange(0, 30)))
        c = (pp, v, lines)
        if len(self.codes) < 6:
            self.codes.append(c)
        return c

    def noise(self, line):
        r = self.rng
        k = r.random()
        if k < 0.3:
            return punctuate(line)
        if k < 0.45:
            return line
        if k < 0.6:
            return line.lower()
        out = ''
        for c in line:
            if r.random() < 0.12:
                out += r.choice([' ', '-', ':', '.', '0', '1', 'I', 'O', 'i', 'o', '/', '\t', '_', 'ü', '…'])
            out += c.lower() if r.random() < 0.4 else c
        return out

    def spoil_line(self, line):
        r = self.rng
        k = r.randrange(7)
        i = r.randrange(len(line))
        c = r.choice([x for x in A32 if x != line[i]])
        if k in (0, 1):
            return line[:i] + c + line[i + 1:]
        if k == 2:
            return line[:i] + line[i + 1:]
        if k == 3:
            return line[:i] + c + line[i:]
        if k == 4 and i:
            return line[:i - 1] + line[i] + line[i - 1] + line[i + 1:]
        if k == 5:
            return line[:i]
        return ''.join(r.sample(line, len(line)))

    def code_line(self, i):
        r = self.rng
        if i not in self.plan:
            self.plan[i] = self.new_code()
            self.w.code_reset(i)
        lines = self.plan[i][2]
        have = len(self.w.acc.get(i, '')) // 24
        nxt = lines[have] if have < len(lines) else lines[-1]
        if r.random() < self.typos:
            k = r.random()
            if k < 0.45:
                return self.noise(self.spoil_line(nxt)) or 'A'
            if k < 0.55:
                return self.noise(r.choice(lines))
            if k < 0.65:
                return self.noise(r.choice(self.new_code()[2]))
            if k < 0.75:
                return self.noise(nxt) + r.choice([' ', '', '-']) + self.noise(self.spoil_line(r.choice(lines)))
            if k < 0.85:
                return ' '.join(self.noise(l) for l in lines[have:] + [r.choice(lines)[:r.randrange(1, 25)]])
            if k < 0.9:
                return r.choice(['?', '0', '-', '1I0O', 'hello', 'A', 'quit', '....'])
            if k < 0.95:
                return ''
            return self.noise(nxt[:r.randrange(1, 24)])
        k = r.random()
        if k < 0.65:
            return self.noise(nxt)
        n = r.randrange(1, 4)
        return r.choice([' ', '', ', ']).join(self.noise(l) for l in lines[have:have + n] or [nxt])

    def answer(self, q, i):
        r = self.rng
        if q == 'unlock':
            return self.pp()
        if q in ('consent', 'reset?', 'extra'):
            if r.random() < 0.2:
                return r.choice(ANSWERS_OTHER)
            return r.choice(ANSWERS_YES if r.random() < self.yes else ANSWERS_NO)
        if q == 'value':
            return r.choice(self.values)
        if q == 'notes':
            return r.choice(self.notes)
        if q == 'new1':
            new = self.newpp[i] = r.choice(self.pps) if r.random() < 0.8 else r.choice(WRONG)
            self.w.know(new.strip())
            return new
        if q == 'new2':
            new = self.newpp[i]
            return new if r.random() < 0.75 else r.choice(self.pps + WRONG + [new + 'x', new.upper()])
        if q == 'code':
            return self.code_line(i)
        return r.choice(['', 'y', 'n', 'x'])

    # ------------------------------------------------ sessions
    def talk(self, i):
        """Answers questions until the command in process i is over; True if the process goes on."""
        w, r = self.w, self.rng
        for _ in range(40):
            if w.st != -1:
                self.shells.discard(i)
                self.plan.pop(i, None)
                return False
            q = asked(w.out)
            if q is None and i in self.shells:
                self.plan.pop(i, None)
                return True
            k = r.random()
            if k < self.killp:
                w.kill(i)
                self.shells.discard(i)
                self.plan.pop(i, None)
                return False
            if w.tty and k < self.killp + self.quitp and q in ('unlock', 'value', 'new1', 'new2'):
                w.quit(i)
                continue
            if k < self.killp + self.eofp and q in ('consent', 'reset?', 'extra', 'new1', 'new2', 'code'):
                w.eof(i)
                continue
            fault = bool(self.fault) and r.random() < self.fault
            if fault:
                w.faults.kind = r.choice(w.faults.kinds)
            w.line(self.answer(q, i), i, fault=fault)
        w.kill(i)
        self.shells.discard(i)
        return False

    def poke(self, i, paused=0.0):
        """One input to process i, in whatever state it is."""
        w, r = self.w, self.rng
        if i not in w.procs:
            self.shells.discard(i)
            self.plan.pop(i, None)
            if r.random() < self.shell:
                w.start(['shell'], i)
                if w.st == -1:
                    self.shells.add(i)
            else:
                w.start(self.command(), i)
            return
        if r.random() < self.killp:
            w.kill(i)
            return
        q = asked(w.outs[i])
        if q is None:
            self.plan.pop(i, None)
            t = self.line_of(self.command()) if r.random() > 0.04 else 'exit'
        else:
            t = self.answer(q, i)
        if r.random() < paused:
            w.line_paused(t, r.randrange(6), i)
        else:
            w.line(t, i)

    def step(self, i=1):
        w, r = self.w, self.rng
        if i in w.procs and (i not in self.shells or r.random() < self.newproc):
            k = r.random()
            if k < 0.3:
                w.kill(i)
            elif k < 0.6:
                w.eof(i)
            else:
                w.line('exit', i)
            if i in w.procs:
                w.kill(i)
            self.shells.discard(i)
        if i in w.procs and w.tty == 'edit' and r.random() < 0.15:
            w.interrupt(r.choice(['', 'exit', 'lock', self.line_of(self.command())]).replace('\t', ' ').replace('\n', ' '), i)
            if i not in w.procs:
                self.shells.discard(i)
                return False
        if i in w.procs and w.tty == 'edit' and r.random() < 0.15:
            self.plan.pop(i, None)
            w.recall(r.choice([1, 1, 2, 3, 5, 99]), i)
            return self.talk(i)
        words = self.command()
        if i in w.procs:
            w.line(self.line_of(words), i)
            return self.talk(i)
        if words and words[0] in ('lock', 'exit', 'shell') and r.random() < 0.9:
            words = ['shell']
        elif r.random() < self.shell:
            w.start(['shell'], i)
            if w.st == -1:
                self.shells.add(i)
                w.line(self.line_of(words), i)
                return self.talk(i)
            return False
        if words == ['shell']:
            self.shells.add(i)
        w.start(words, i)
        return self.talk(i)

    def line_of(self, words):
        r = self.rng
        if r.random() < self.usage * 0.5:
            return r.choice(['', ' ', '"', "'", 'show "a', "list 'x", 'list \\', 'foo', '# list', 'list;list', 'list | cat', 'lock x',
                             'exit 1', 'EXIT', 'lists', 'help', 'help add', '-h', 'show "a"b c\\ d', '""', "''"])
        t = quote(r, words[0]) if words else ''
        for x in words[1:]:
            t += r.choice([' ', ' ', ' ', '  ', '\t']) + quote(r, x)
        if r.random() < 0.1:
            t = ' ' + t + ' '
        return t


def start_state(w, rng, pp, n=None, sites=SITES, names=NAMES, revs=REVS, values=VALUES + PADDED, notes=NOTES):
    """A storage file from an independent writer."""
    st = {'sites': [], 'pws': []}
    n = n or rng.choice([3, 3, 4, 8])
    pool = [s for s in sites if not s.startswith('www.')]
    if n > 40:
        pool += ['site%d.example' % k for k in range(n)]
        names = names + ['user%d' % k for k in range(n)]
        revs = revs + [str(k) for k in range(2, 120)]
    ss = rng.sample(pool, max(3, n // 4))
    for s in ss:
        st['sites'].append({'site': s, 'alias': []})
    if n > 40:
        for k in range(n // 4):
            st['sites'].append({'site': 'alias%d' % k, 'alias': [rng.choice(ss)]})
        ss += ss[:2] * (n // 4)     # some with many passwords
    seen = set()
    for _ in range(n):
        i = (rng.choice(ss), rng.choice(names), rng.choice([r for r in revs if r != '1']))
        if i in seen:
            continue
        seen.add(i)
        st['pws'].append({'type': 'sto', 'site': i[0], 'name': i[1], 'rev': i[2], 'len': 0, 'cs': 0,
                          'value': rng.choice(values), 'notes': rng.choice(notes)})
    wr = Writer(pp)
    wr.store(st)
    wr.write(w.path)
    w.disk = w.look()
    w.hist['disk0'] = tla_state(w.disk)
    return st


def bad_file(rng, pp):
    """Contents which are no usable storage: (kind, bytes)."""
    w = Writer(pp)
    w.site('a')
    good = w.text()
    k = rng.randrange(15)
    if k == 0:
        return b''
    if k == 1:
        return rng.choice([b'garbage', b'{', b'[]', b'null', b'3', b'"x"', b'\xff\xfe{}', b'{}', b'\x00' * 50])
    if k == 2:
        return good[:rng.randrange(1, len(good))].encode()
    if k == 3:
        return good.replace('"pfp"', rng.choice(['"PfP"', '"pfpx"', '""', 'null', '3'])).encode()
    if k == 4:
        return good.replace('"format": 3', '"format": ' + rng.choice(['2', '4', '"3"', '-3', '3.5', 'null', '300'])).encode()
    if k == 5:
        return (good + rng.choice(['x', '}', '{}', ',', '\x00'])).encode()
    if k == 6:
        d = json.loads(good)
        del d[rng.choice(list(d))]
        return json.dumps(d).encode()
    if k == 7:
        d = json.loads(good)
        d['data'] = rng.choice([[], None, 'x', {'salt': 3}, dict(d['data'], x=5), dict(d['data'], salt=None)])
        return json.dumps(d).encode()
    if k == 8:
        return json.dumps({'application': 'pfp', 'format': 3, 'data': {}}).encode()
    d = json.loads(good)
    if k == 9:
        del d['data'][rng.choice(['salt', 'hmac-secret'])]
    elif k in (10, 11):
        s = d['data']['salt']
        d['data']['salt'] = rng.choice(['', 'A', '====', s[:-4], s[:-3], 'ü', s + 'AAAA', s[:5] + ('A' if s[5] != 'A' else 'B') + s[6:]])
    else:
        s = d['data']['hmac-secret']
        d['data']['hmac-secret'] = rng.choice(['', '_', 'A_A', s.replace('_', ''), s[:-8], s[8:], s + 'AAAA', s[:-4] + '!!!!',
                                               '_' + s.split('_')[1], s.split('_')[0] + '_',
                                               encrypt_value(b'', w.key), encrypt_value(b'"!"', w.key), encrypt_value(b'5', w.key),
                                               encrypt_value(b'\xff', w.key), encrypt_value(b'"AAAA', w.key)])
    return json.dumps(d).encode()


PLACES = ['abs', 'abs', 'abs', 'home', 'below', 'dots', 'odd', 'deep', 'long']


def past_lines(rng):
    """Contents of a history file, from nothing to a full one."""
    res = []
    for k in range(rng.choice([0, 1, 3, 96, 99, 100])):
        t = rng.choice(['show a x', 'list', 'foo \\ bar', '\\n', 'ü "x', '#V2', "add 'a b' c", ' blank', 'lock', 'show s%d n' % k])
        if not res or res[-1] != t:
            res.append(t)
    return res


def dialogue(exe, rng, weights, steps, setup='reset', npps=2, procs=1, place=None, stored=None, tty=False, past=False, split=False, around=False, **kw):
    pps = rng.sample(PPS, npps)
    setup = {'mixed': rng.choice(['reset', 'write', 'none']), 'any': rng.choice(['reset', 'write', 'none', 'bad', 'bad']),
             'harmed': rng.choice(['damaged', 'damaged', 'damaged', 'bad'])}.get(setup, setup)
    place = place or rng.choice([p for p in PLACES if p != 'deep' or setup in ('reset', 'none')]
                                + ([] if kw.get('fault') else ['bare']) + (['link', 'link'] if setup == 'write' and not kw.get('fault') else []))
    w = World(exe, n=procs, pps=pps, faults=Faults if kw.get('fault') else None, place=place, tty=tty, past=past_lines(rng) if past else (), split=split)
    if tty:
        kw['eof'] = 0
    u = User(w, rng, weights, **kw)
    if setup == 'damaged':
        import damage
        dm = damage.Damaged(rng, pps[0], [s for s in u.sites if '\0' not in s], u.names, u.revs, VALUES, NOTES)
        w.project.sites, w.project.ids = dm.sites, dm.ids
        dm.wr.write(w.path)
        w.disk = w.look()
        w.hist['disk0'] = tla_state(w.disk)
        u.used += list(dm.ids) * 2
        u.sites += dm.sites
    if setup == 'bad':
        with open(w.path, 'wb') as f:
            f.write(bad_file(rng, pps[0]))
        w.disk = w.look()
        w.hist['disk0'] = tla_state(w.disk)
    def surround():
        if around:
            w.surround(rng)
    if setup != 'write':
        surround()
    if setup == 'reset':
        w.start(['set-primary', '-y'])
        if w.st == -1:
            w.line(pps[0])
        if w.st == -1:
            w.line(pps[0])
        if w.st == -1:
            w.kill()
    elif setup == 'write':
        st = start_state(w, rng, pps[0], stored)
        u.used += [(p['site'], p['name'], p['rev']) for p in st['pws']]
        u.sites += [e['site'] for e in st['sites']]
        surround()
    other = None
    if kw.get('foreign'):
        import interop
        other = interop.Other(rng, pps[0], w.path, u.sites, u.names, u.revs, VALUES, NOTES)
    for _ in range(steps):
        if other and rng.random() < kw['foreign'] and (w.disk['kind'] == 'store' or w.disk['kind'] == 'none'):
            for i in list(w.procs):
                w.kill(i)
            u.shells.clear()
            if w.disk['kind'] == 'store':
                other.read(w.disk, w.project.last)
            other.turn()
            w.foreign()
            u.used += [(p['site'], p['name'], p['rev']) for p in rng.sample(w.disk['pws'], min(3, len(w.disk['pws'])))] * 2
        if around and rng.random() < 0.05:
            w.protect(rng)
            w.foreign()
        u.step(rng.randrange(1, procs + 1))
    return w.close()


def crowd(exe, rng, weights, steps, procs=3, shim=None, paused=0.3, npps=2, **kw):
    """Several processes at a time, one input after the other, some stopped while they save."""
    pps = rng.sample(PPS, npps)
    w = World(exe, n=procs, pps=pps, shim=shim)
    u = User(w, rng, weights, **kw)
    if rng.random() < 0.8:
        st = start_state(w, rng, pps[0])
        u.used += [(p['site'], p['name'], p['rev']) for p in st['pws']]
        u.sites += [e['site'] for e in st['sites']]
    i = 1
    for _ in range(steps):
        if rng.random() < 0.6:
            i = rng.randrange(1, procs + 1)
        if i in w.paused:
            w.resume(i)
        else:
            u.poke(i, paused if shim else 0)
    for i in list(w.paused):
        w.resume(i)
    for i in list(w.procs):
        w.kill(i)
    # what is left
    pp = w.disk['pp']
    if pp:
        w.start(['list', '-v', '-s'], 1)
        if w.st == -1:
            w.line(pp, 1)
    return w.close()


def _crowd_job(a):
    exe, seed, n, weights, steps, kw = a
    rng = random.Random(seed)
    return [h for _ in range(n) for h in common.attempt(lambda: crowd(exe, rng, weights, steps, **kw), rescued)]


def crowds(chk, n, steps, weights, **kw):
    parts = 8
    jobs = [(chk.bins['cli'], '%s/crowd/%d/%d' % (chk.prop, chk.seed, k), (n + parts - 1) // parts, weights, steps, kw)
            for k in range(parts)]
    res = [h for r in parallel(_crowd_job, jobs) for h in r]
    chk.count('dialogues_recorded', len(res))
    chk.count('inputs_recorded', sum(len(h['events']) for h in res))
    return res


def _job(a):
    exe, seed, n, weights, steps, kw = a
    rng = random.Random(seed)
    return [h for _ in range(n) for h in common.attempt(lambda: dialogue(exe, rng, weights, steps, **kw), rescued)]


DEFAULT = {'add': 3, 'add-stored': 6, 'add-code': 1.5, 'remove': 2, 'show': 4, 'qr': 1, 'notes': 1, 'set-notes': 2,
           'list': 4, 'alias': 1, 'set-alias': 2.5, 'remove-alias': 1, 'set-primary': 0.3, 'lock': 0.6, 'exit': 0.2, 'shell': 0.2}


def dialogues(chk, n, steps, weights=DEFAULT, **kw):
    parts = 8
    jobs = [(chk.bins['cli'], '%s/cli/%d/%d' % (chk.prop, chk.seed, k), (n + parts - 1) // parts, weights, steps, kw)
            for k in range(parts)]
    res = [h for r in parallel(_job, jobs) for h in r]
    chk.count('dialogues_recorded', len(res))
    chk.count('inputs_recorded', sum(len(h['events']) for h in res))
    return res
