"""Independent reader of QR codes drawn with half blocks, as `show --qrcode` prints them."""

ECC_LEN = [
    [-1, 7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [-1, 10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28],
    [-1, 13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30],
    [-1, 17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30]]
BLOCKS = [
    [-1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25],
    [-1, 1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49],
    [-1, 1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68],
    [-1, 1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81]]
LEVEL = {1: 0, 0: 1, 3: 2, 2: 3}       # format bits -> row of the tables
MASKS = [lambda x, y: (x + y) % 2, lambda x, y: y % 2, lambda x, y: x % 3, lambda x, y: (x + y) % 3,
         lambda x, y: (x // 3 + y // 2) % 2, lambda x, y: x * y % 2 + x * y % 3,
         lambda x, y: (x * y % 2 + x * y % 3) % 2, lambda x, y: ((x + y) % 2 + x * y % 3) % 2]
ALNUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:'
FINDER = ['1111111', '1000001', '1011101', '1011101', '1011101', '1000001', '1111111']

EXP, LOG = [0] * 512, [0] * 256
x = 1
for i in range(255):
    EXP[i] = EXP[i + 255] = x
    LOG[x] = i
    x = x << 1 ^ (0x11d if x & 0x80 else 0)


class Unreadable(Exception):
    pass


def modules(text):
    cell = {' ': (0, 0), '\u2580': (1, 0), '\u2584': (0, 1), '\u2588': (1, 1)}
    rows = []
    for line in text.split('\n'):
        try:
            pairs = [cell[c] for c in line]
        except KeyError:
            raise Unreadable('characters')
        rows.append([p[0] for p in pairs])
        rows.append([p[1] for p in pairs])
    n = len(rows[0])
    if len(rows) not in (n, n + 1) or any(len(r) != n for r in rows) or n < 21 or n > 177 or n % 4 != 1:
        raise Unreadable('size')
    return rows[:n]


def read(text):
    """Decodes the printed code; raises Unreadable."""
    m = modules(text)
    n = len(m)
    ver = (n - 17) // 4
    fun = [[False] * n for _ in range(n)]

    def area(x0, y0, w, h):
        for y in range(max(0, y0), min(n, y0 + h)):
            for x in range(max(0, x0), min(n, x0 + w)):
                fun[y][x] = True
    for fx, fy in ((0, 0), (n - 7, 0), (0, n - 7)):
        for y in range(7):
            for x in range(7):
                if m[fy + y][fx + x] != int(FINDER[y][x]):
                    raise Unreadable('finder')
    area(0, 0, 9, 9)
    area(n - 8, 0, 8, 9)
    area(0, n - 8, 9, 8)
    area(6, 0, 1, n)
    area(0, 6, n, 1)
    for i in range(8, n - 8):
        if m[6][i] != (i + 1) % 2 or m[i][6] != (i + 1) % 2:
            raise Unreadable('timing')
    if ver >= 2:
        k = ver // 7 + 2
        step = 26 if ver == 32 else (ver * 4 + k * 2 + 1) // (k * 2 - 2) * 2
        pos = [6] + [n - 7 - i * step for i in range(k - 1)][::-1]
        for a in pos:
            for b in pos:
                if (a, b) not in ((6, 6), (6, n - 7), (n - 7, 6)):
                    area(a - 2, b - 2, 5, 5)
    if ver >= 7:
        area(n - 11, 0, 3, 6)
        area(0, n - 11, 6, 3)
    f = 0
    order = [(8, i) for i in range(6)] + [(8, 7), (8, 8), (7, 8)] + [(14 - i, 8) for i in range(9, 15)]
    for i, (x, y) in enumerate(order):
        f |= m[y][x] << i
    f ^= 0x5412
    rem = f >> 10
    for _ in range(10):
        rem = rem << 1 ^ (rem >> 9) * 0x537
    if (f >> 10 << 10 | rem) != f:
        raise Unreadable('format')
    level, mask = LEVEL[f >> 13], MASKS[f >> 10 & 7]
    bits = []
    right = n - 1
    while right >= 1:
        if right == 6:
            right = 5
        up = (right + 1) & 2 == 0
        for v in range(n):
            y = n - 1 - v if up else v
            for x in (right, right - 1):
                if not fun[y][x]:
                    bits.append(m[y][x] ^ (mask(x, y) == 0))
        right -= 2
    words = [int(''.join(map(str, map(int, bits[i:i + 8]))), 2) for i in range(0, len(bits) // 8 * 8, 8)]
    nb, el = BLOCKS[level][ver], ECC_LEN[level][ver]
    short = len(words) // nb
    nshort = nb - len(words) % nb
    blocks = [[] for _ in range(nb)]
    k = 0
    for i in range(short - el + 1):
        for b in range(nb):
            if i < short - el or b >= nshort:
                blocks[b].append(words[k])
                k += 1
    data = sum(blocks, [])
    ecc = [[words[k + i * nb + b] for i in range(el)] for b in range(nb)]
    for b in range(nb):
        for i in range(el):
            s = 0
            for c in blocks[b] + ecc[b]:
                s = (EXP[LOG[s] + i] if s else 0) ^ c
            if s:
                raise Unreadable('error correction')
    stream = ''.join(format(c, '08b') for c in data)
    p = 0

    def take(c):
        nonlocal p
        if p + c > len(stream):
            raise Unreadable('data')
        r = int(stream[p:p + c], 2) if c else 0
        p += c
        return r
    size = 0 if ver < 10 else 1 if ver < 27 else 2
    out = b''
    while len(stream) - p >= 4:
        mode = take(4)
        if mode == 0:
            break
        if mode == 1:
            c = take((10, 12, 14)[size])
            while c > 0:
                d = min(c, 3)
                out += format(take((0, 4, 7, 10)[d]), '0%dd' % d).encode()
                c -= d
        elif mode == 2:
            c = take((9, 11, 13)[size])
            while c > 0:
                if c >= 2:
                    v = take(11)
                    out += (ALNUM[v // 45] + ALNUM[v % 45]).encode()
                else:
                    out += ALNUM[take(6)].encode()
                c -= 2
        elif mode == 4:
            c = take((8, 16, 16)[size])
            out += bytes(take(8) for _ in range(c))
        else:
            raise Unreadable('mode')
    try:
        return out.decode('utf-8')
    except UnicodeDecodeError:
        raise Unreadable('text')
