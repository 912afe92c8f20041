"""Histories of recovery codes made and decoded by the library, for TraceRecovery.tla."""
import os, random
import common
from clidrive import A32, make_code, code_lines, punctuate, clean, decode32, pearson, oracle_row, code_data
from vault import Harness, parallel, uncodes
from pfpcrypto import *

VALUES = ['', 'a', 'secret', 'x' * 10, 'x' * 11, 'x' * 12, 'x' * 13, 'x' * 14, 'x' * 24, 'x' * 25, 'x' * 26, 'ü', '日本語', '\U0001f980\U0001f511',
          ' padded ', 'nul\0inside', '\0lead', 'line\nbreak', 'v' * 300, '"\\', '\u007f', 'é' * 20, '0', '1' * 55, 'AAAA-BBBB']
PPS = ['primary1', 'primary2', 'prümary\U0001f511', 'x' * 70]
JUNK = [' ', '-', ':', '\n', '\r\n', '\t', '.', '0', '1', 'I', 'O', 'i', 'o', '/', '_', 'ü', '…', '=', '\u0131', '\u017f', '\u212a', '\0', '\ufeff', '８', 'Α']

ENDS = [chr(c) for c in range(33)] + list('\x7f\x80\x85\xa0\u2028\u3000\ufeff\u200b\ufffe\uffff=-:.0Oo1Il') + ['\U0010ffff', '\u0301', '\ud7ff', '\ue000']


def accepted(text):
    """Bytes of a text all of whose checksums are right, else None."""
    cs = clean(text)
    n = len(cs) // 24
    data = b''
    for k in range(n):
        row = decode32(cs[24 * k:24 * k + 24])
        data += row[:14]
        if row[14] == pearson(row[:14], 255 - k % 256):
            return data if k == n - 1 and len(cs) % 24 == 0 else None
        if row[14] != pearson(row[:14], k % 256):
            return None
    return None


def typed(rng, chars, p=0.15):
    """The characters as a user may type them."""
    k = rng.random()
    if k < 0.2:
        return '\n'.join(punctuate(chars[i:i + 24]) for i in range(0, len(chars), 24))
    if k < 0.3:
        return chars.lower()
    if k < 0.4:
        return chars
    out = rng.choice(['', ' ', '\n'])
    for c in chars:
        while rng.random() < p:
            out += rng.choice(JUNK)
        out += c.lower() if rng.random() < 0.4 else c
    return out + rng.choice(['', '\n', ' ', '-', '  \n'])


def edits(rng, chars):
    """One text near the code."""
    n = len(chars)
    lines = [chars[i:i + 24] for i in range(0, n, 24)]
    k = rng.randrange(16)
    i = rng.randrange(n)
    other = lambda c: rng.choice([x for x in A32 if x != c])
    if k == 0:
        return chars[:i] + other(chars[i]) + chars[i + 1:]
    if k == 1:
        return chars[:i] + chars[i + 1:]
    if k == 2:
        return chars[:i] + rng.choice(A32) + chars[i:]
    if k == 3:
        j = rng.randrange(n)
        c = list(chars)
        c[i], c[j] = c[j], c[i]
        return ''.join(c)
    if k == 4:
        return chars[:i]
    if k == 5:
        return chars[:24 * rng.randrange(len(lines))]
    if k == 6:
        return chars + ''.join(rng.choice(A32) for _ in range(rng.choice([1, 5, 23, 24, 25, 48])))
    if k == 7:
        return chars + rng.choice(lines)
    if k == 8:
        rng.shuffle(lines)
        return ''.join(lines)
    if k == 9:
        del lines[rng.randrange(len(lines))]
        return ''.join(lines)
    if k == 10:
        j = rng.randrange(len(lines))
        lines.insert(j, lines[j])
        return ''.join(lines)
    if k == 11:
        return chars[i:]
    if k == 12:      # several substitutions
        c = list(chars)
        for _ in range(rng.randrange(2, 6)):
            j = rng.randrange(n)
            c[j] = other(c[j])
        return ''.join(c)
    if k == 13:      # a changed line with the checksum of its new contents, as any kind
        j = rng.randrange(len(lines))
        row = bytearray(decode32(lines[j])[:14])
        row[rng.randrange(14)] ^= 1 << rng.randrange(8)
        data = code_data(chars)
        data = data[:14 * j] + bytes(row) + data[14 * j + 14:]
        return ''.join(code_lines(data))
    if k == 14:      # fewer data with right checksums
        data = code_data(chars)
        return ''.join(code_lines(data[:14 * rng.randrange(1, len(lines) + 1)]))
    data = code_data(chars)
    a, b = rng.randrange(len(lines)), rng.randrange(len(lines))
    blocks = [data[j:j + 14] for j in range(0, len(data), 14)]
    blocks[a], blocks[b] = blocks[b], blocks[a]
    return ''.join(code_lines(b''.join(blocks)))


class Recorder:
    def __init__(self, h):
        self.h, self.events, self.datas = h, [], set()

    def row(self, pp, text):
        d = accepted(text)
        if d is not None:
            self.datas.add((pp, d))

    def result(self, r):
        if 'ok' in r:
            return {'ok': True, 'v': codes(r['ok']), 'e': '', 'line': 0}
        return {'ok': False, 'v': [], 'e': 'panic' if 'panic' in r else 'crash' if 'crash' in r else r['err'], 'line': r.get('line', -1)}

    def decode(self, pp, text, value, strict, session):
        self.row(pp, text)
        r = self.h.call(op='decode', i=1, code=text) if session else self.h.call(op='decode_pp', code=text, pp=pp)
        self.events.append({'op': 'decode', 'pp': codes(pp), 'text': codes(text), 'value': codes(value), 'strict': strict,
                            'res': self.result(r)})
        return r

    def code(self, pp, site, name, value):
        r = self.h.call(op='recoveryCode', i=1, site=site, name=name, rev='')
        if 'ok' in r:
            self.row(pp, r['ok'])
        self.events.append({'op': 'code', 'pp': codes(pp), 'text': [], 'value': codes(value), 'strict': True, 'res': self.result(r)})
        return r.get('ok')

    def format(self, text):
        r = self.h.call(op='format', code=text)
        self.events.append({'op': 'format', 'pp': [], 'text': codes(text), 'value': [], 'strict': False, 'res': self.result(r)})

    def history(self):
        """The recorded calls as histories of similar cost."""
        rows = [oracle_row(pp, d) for pp, d in sorted(self.datas)]
        size = 2 if max(len(e['text']) for e in self.events) > 1000 else 80
        return [{'rows': rows, 'events': self.events[i:i + size]} for i in range(0, len(self.events), size)]


def histories(chk, n, edits_per_code, systematic=1):
    """n histories per part; systematic: how many of them try all single edits of one code."""
    parts = 8
    jobs = [(chk.bins['harness'], '%s/rec/%d/%d' % (chk.prop, chk.seed, k), k, n, edits_per_code, systematic) for k in range(parts)]
    res = [h for r in parallel(_job, jobs) for h in r]
    chk.count('codes_edited', sum(len(h['events']) for h in res))
    return res


def _job(a):
    exe, seed, part, n, per, systematic = a
    rng = random.Random(seed)
    h = Harness(exe)
    res = []
    # every value once, also with all kinds of characters at its ends
    ends = VALUES + [c + 'x' for c in ENDS] + ['x' + c for c in ENDS if c != '\0'] + \
        ['v' * n + rng.choice([' ', 'é', '\t', '"']) for n in range(60)]
    for j in range(part, len(ends), 8 * 6):
        rec = Recorder(h)
        pp = rng.choice(PPS)
        h.call(op='new', i=1, path=common.scratch('rec') + '/s.json')
        h.call(op='reset', i=1, pp=pp)
        for value in ends[j:j + 8 * 6:8]:
            h.call(op='setStored', i=1, site='s', name='n', rev='', value=value)
            text = rec.code(pp, 's', 'n', value)
            if text is not None:
                rec.decode(pp, text, value, True, rng.random() < 0.7)
            rec.decode(pp, '\n'.join(punctuate(l) for l in make_code(pp, value)[0]), value, True, rng.random() < 0.7)
        res += rec.history()
    for k in range(n):
        rec = Recorder(h)
        pp = rng.choice(PPS)
        d = common.scratch('rec')
        h.call(op='new', i=1, path=d + '/s.json')
        h.call(op='reset', i=1, pp=pp)
        value = VALUES[(part + 8 * k) % len(VALUES)] if k % 2 == 0 else rng.choice(VALUES) + rng.choice(['', 'y', 'zz'])
        if k == 1 and part % 4 == 0:
            value = 'w' * rng.choice([3510, 3530, 3541, 3600])
        h.call(op='setStored', i=1, site='s', name='n', rev='', value=value)
        own = rng.random() < 0.5
        if own:
            text = '\n'.join(punctuate(l) for l in make_code(pp, value)[0])
        else:
            text = rec.code(pp, 's', 'n', value)
            if text is None:
                res += rec.history()
                continue
        chars = clean(text)
        long = len(chars) > 1000
        for _ in range(2 if long else 4):
            t = typed(rng, chars)
            rec.decode(pp, t, value, True, rng.random() < 0.7)
            if rng.random() < 0.5:
                rec.format(t)
        rec.decode(rng.choice([p for p in PPS if p != pp]), text, value, True, False)
        # a code of this one for another storage and back: decoding does not depend on the storage
        if rng.random() < 0.3:
            h.call(op='reset', i=1, pp=pp)
            rec.decode(pp, text, value, True, True)
        for _ in range(4 if long else per):
            e = edits(rng, chars)
            rec.decode(pp, typed(rng, e, 0.02) if e else '', value, True, True)
            if rng.random() < 0.1:
                rec.format(e)
        # codes with other contents
        for _ in range(4):
            k2 = rng.randrange(7)
            if k2 == 0:
                l, _d = make_code(pp, value, version=rng.choice([0, 2, 3, 127, 255]))
            elif k2 == 1:
                l = code_lines(bytes([1]) + os.urandom(rng.choice([0, 1, 13, 14, 27, 28, 41, 42, 43, 55])))
            elif k2 == 2:
                l, _d = make_code(pp, '', plain=rng.choice([b'\xff', b'\xc3', b'\xed\xa0\x80', b'a\x80b', b'\xf4\x90\x80\x80']))
            elif k2 == 3:
                l, _d = make_code(pp, value, plain=value.encode() + bytes(rng.randrange(0, 40)))
            elif k2 == 4:
                l, _d = make_code(pp, '', plain=bytes(rng.randrange(0, 40)))
            elif k2 == 5:
                l, _d = make_code(rng.choice(PPS), value)
            else:
                l, _d = make_code(pp, value)
                l2, _d = make_code(pp, value[::-1] + 'other')
                j = rng.randrange(len(l))
                l = l[:j] + l2[j:]
            rec.decode(pp, typed(rng, ''.join(l), 0.03), '', False, True)
        if k < systematic and not long:
            n0 = len(chars)
            every = []
            for i in range(n0):
                every += [chars[:i] + c + chars[i + 1:] for c in A32 if c != chars[i]]
                every += [chars[:i] + chars[i + 1:]]
                every += [chars[:i] + rng.choice(A32) + chars[i:]]
                if i:
                    every += [chars[:i - 1] + chars[i] + chars[i - 1] + chars[i + 1:]]
            for e in every[part::8] if systematic == 1 else every:
                rec.decode(pp, e, value, True, True)
        res += rec.history()
    h.close()
    return res


def describe(hist, at):
    if at is None:
        return 'recovery codes not explained by the specification', {'events': hist['events'][:50]}
    e = hist['events'][at['l'] - 1]
    show = {'op': e['op'], 'pp': uncodes(e['pp']), 'text': uncodes(e['text']), 'value': uncodes(e['value']),
            'result': uncodes(e['res']['v']) if e['res']['ok'] else e['res']['e'], 'line': e['res']['line']}
    want = [{'k': a['k'], 'line': a['line'], 'value': uncodes(a['value'])} for a in at['allowed']]
    return 'recovery code: %r, permitted: %r' % (show, want), {'event': show, 'permitted': want}
