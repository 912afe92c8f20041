"""Independent implementation of the cryptographic primitives and of the PfP storage format.

AES-256-GCM comes from OpenSSL's libcrypto, scrypt and HMAC from Python's hashlib: nothing here
shares code with the implementation under test.
"""
import base64, ctypes, ctypes.util, functools, hashlib, hmac, json, os

_lib = ctypes.CDLL(ctypes.util.find_library('crypto') or 'libcrypto.so.3')
_lib.EVP_CIPHER_CTX_new.restype = ctypes.c_void_p
_lib.EVP_aes_256_gcm.restype = ctypes.c_void_p
_lib.EVP_CIPHER_CTX_free.argtypes = [ctypes.c_void_p]
for _n in ('EVP_DecryptInit_ex', 'EVP_EncryptInit_ex'):
    getattr(_lib, _n).argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p,
                                  ctypes.c_char_p, ctypes.c_char_p]
for _n in ('EVP_DecryptUpdate', 'EVP_EncryptUpdate'):
    getattr(_lib, _n).argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_int),
                                  ctypes.c_char_p, ctypes.c_int]
for _n in ('EVP_DecryptFinal_ex', 'EVP_EncryptFinal_ex'):
    getattr(_lib, _n).argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_int)]
_lib.EVP_CIPHER_CTX_ctrl.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_void_p]
_SET_IVLEN, _GET_TAG, _SET_TAG = 0x9, 0x10, 0x11


def gcm_decrypt(key, nonce, data):
    """Returns the plaintext or None."""
    if len(data) < 16 or len(nonce) == 0:
        return None
    ctx = _lib.EVP_CIPHER_CTX_new()
    try:
        n = ctypes.c_int()
        out = ctypes.create_string_buffer(len(data) + 16)
        _lib.EVP_DecryptInit_ex(ctx, _lib.EVP_aes_256_gcm(), None, None, None)
        _lib.EVP_CIPHER_CTX_ctrl(ctx, _SET_IVLEN, len(nonce), None)
        _lib.EVP_DecryptInit_ex(ctx, None, None, key, nonce)
        body, tag = data[:-16], data[-16:]
        total = 0
        if body:
            _lib.EVP_DecryptUpdate(ctx, out, ctypes.byref(n), body, len(body))
            total = n.value
        _lib.EVP_CIPHER_CTX_ctrl(ctx, _SET_TAG, 16, ctypes.create_string_buffer(tag, 16))
        if _lib.EVP_DecryptFinal_ex(ctx, ctypes.create_string_buffer(32), ctypes.byref(n)) != 1:
            return None
        return out.raw[:total]
    finally:
        _lib.EVP_CIPHER_CTX_free(ctx)


def gcm_encrypt(key, nonce, data):
    ctx = _lib.EVP_CIPHER_CTX_new()
    try:
        n = ctypes.c_int()
        out = ctypes.create_string_buffer(len(data) + 16)
        _lib.EVP_EncryptInit_ex(ctx, _lib.EVP_aes_256_gcm(), None, None, None)
        _lib.EVP_CIPHER_CTX_ctrl(ctx, _SET_IVLEN, len(nonce), None)
        _lib.EVP_EncryptInit_ex(ctx, None, None, key, nonce)
        total = 0
        if data:
            _lib.EVP_EncryptUpdate(ctx, out, ctypes.byref(n), data, len(data))
            total = n.value
        _lib.EVP_EncryptFinal_ex(ctx, ctypes.create_string_buffer(32), ctypes.byref(n))
        tag = ctypes.create_string_buffer(16)
        _lib.EVP_CIPHER_CTX_ctrl(ctx, _GET_TAG, 16, tag)
        return out.raw[:total] + tag.raw
    finally:
        _lib.EVP_CIPHER_CTX_free(ctx)


@functools.lru_cache(maxsize=100000)
def scrypt(password: bytes, salt: bytes, n: int) -> bytes:
    return hashlib.scrypt(password, salt=salt, n=32768, r=8, p=1, dklen=n, maxmem=64 * 1024 * 1024)


def storage_key(pp: str, salt: bytes) -> bytes:
    # every salt byte is taken as a character and encoded as UTF-8
    return scrypt(pp.encode(), salt.decode('latin-1').encode('utf-8'), 32)


def digest(secret: bytes, text: str) -> str:
    return base64.b64encode(hmac.new(secret, text.encode(), hashlib.sha256).digest()).decode()


def b64strict(text):
    """Standard Base64 with padding; None if invalid."""
    try:
        raw = base64.b64decode(text, validate=True)
    except Exception:
        return None
    return raw if base64.b64encode(raw).decode() == text else None


def decrypt_value(value, key):
    """'nonce_ciphertext' -> plaintext bytes, or the error kind."""
    if '_' not in value:
        return 'InvalidCiphertext'
    a, b = value.split('_', 1)
    nonce = b64strict(a)
    if nonce is None:
        return 'InvalidBase64'
    if len(nonce) != 12:
        return 'InvalidCiphertext'
    data = b64strict(b)
    if data is None:
        return 'InvalidBase64'
    plain = gcm_decrypt(key, nonce, data)
    return 'DecryptionFailure' if plain is None else plain


def encrypt_value(plain: bytes, key: bytes, nonce=None) -> str:
    nonce = os.urandom(12) if nonce is None else nonce
    return base64.b64encode(nonce).decode() + '_' + base64.b64encode(gcm_encrypt(key, nonce, plain)).decode()


def site_key(secret, site):
    return 'site:' + digest(secret, site)


def pw_key(secret, site, name, rev):
    return 'site:' + digest(secret, site) + ':' + digest(secret, site + '\0' + name + '\0' + rev)


CS_FIELDS = [('lower', 1), ('upper', 2), ('number', 4), ('symbol', 8)]


def _str(d, k):
    v = d.get(k)
    if not isinstance(v, str):
        raise ValueError(k)
    return v


def parse_site(plain):
    d = json.loads(plain.decode('utf-8'))
    if not isinstance(d, dict) or set(d) - {'site', 'alias'}:
        raise ValueError('site')
    alias = d.get('alias')
    if alias is not None and not isinstance(alias, str):
        raise ValueError('alias')
    return {'site': _str(d, 'site'), 'alias': [] if alias is None else [alias]}


def parse_password(plain):
    d = json.loads(plain.decode('utf-8'))
    if not isinstance(d, dict):
        raise ValueError('password')
    t = d.get('type')
    r = {'site': _str(d, 'site'), 'name': _str(d, 'name'), 'rev': _str(d, 'revision'),
         'notes': d['notes'] if 'notes' in d else '', 'len': 0, 'cs': 0, 'value': ''}
    if not isinstance(r['notes'], str):
        raise ValueError('notes')
    if t == 'generated2':
        r['type'] = 'gen'
        if type(d.get('length')) is not int or d['length'] < 0:
            raise ValueError('length')
        r['len'] = d['length']
        for f, bit in CS_FIELDS:
            if f in d:
                if type(d[f]) is not bool:
                    raise ValueError(f)
                if d[f]:
                    r['cs'] |= bit
        if not 1 <= r['len'] <= 65535 or not r['cs']:
            raise ValueError('no such password can be derived')
    elif t == 'stored':
        r['type'] = 'sto'
        r['value'] = _str(d, 'password')
    else:
        raise ValueError('type')
    return r


def make_site(e):
    d = {'site': e['site']}
    if e['alias']:
        d['alias'] = e['alias'][0]
    return d


def make_password(p):
    d = {'type': 'generated2' if p['type'] == 'gen' else 'stored',
         'site': p['site'], 'name': p['name'], 'revision': p['rev']}
    if p['type'] == 'gen':
        d['length'] = p['len']
        for f, bit in CS_FIELDS:
            d[f] = bool(p['cs'] & bit)
    else:
        d['password'] = p['value']
    if p['notes']:
        d['notes'] = p['notes']
    return d


class Writer:
    """Writes storage files independently of the implementation under test."""

    def __init__(self, pp, salt=None, secret=None):
        self.pp = pp
        self.salt = os.urandom(16) if salt is None else salt
        self.secret = os.urandom(32) if secret is None else secret
        self.key = storage_key(pp, self.salt)
        self.data = {'salt': base64.b64encode(self.salt).decode(),
                     'hmac-secret': encrypt_value(
                         json.dumps(base64.b64encode(self.secret).decode()).encode(), self.key)}

    def site(self, site, alias=None, plain=None):
        e = make_site({'site': site, 'alias': [] if alias is None else [alias]})
        k = site_key(self.secret, site)
        self.data[k] = encrypt_value(json.dumps(e).encode() if plain is None else plain, self.key)
        return k

    def password(self, p, plain=None):
        k = pw_key(self.secret, p['site'], p['name'], p['rev'])
        self.data[k] = encrypt_value(
            json.dumps(make_password(p)).encode() if plain is None else plain, self.key)
        return k

    def store(self, st):
        for e in st['sites']:
            self.site(e['site'], e['alias'][0] if e['alias'] else None)
        for p in st['pws']:
            self.password(p)

    def text(self):
        return json.dumps({'application': 'pfp', 'format': 3, 'data': self.data})

    def write(self, path):
        with open(path, 'w') as f:
            f.write(self.text())


class Project:
    """Abstraction function: storage file -> state of the specification.

    pps: primary passwords to try; idents: texts which may identify damaged entries.
    """

    def __init__(self, pps, sites=(), ids=()):
        self.pps = list(pps)
        self.sites = list(sites)
        self.ids = list(ids)
        self.cache = {}
        self.filecache = {}
        self.recent = None
        self.last = None       # details of the last projected file

    NONE = {'kind': 'none', 'pp': '', 'sites': [], 'pws': [], 'odd': []}

    def path(self, path):
        try:
            with open(path, 'rb') as f:
                raw = f.read()
        except (FileNotFoundError, NotADirectoryError):
            return dict(self.NONE)
        except IsADirectoryError:
            return dict(self.NONE, kind='bad')
        return self.raw(raw)

    def raw(self, raw):
        hit = self.filecache.get(raw)
        if hit is None:
            hit = (self._raw(raw), self.last)
            if len(self.filecache) > 5000:
                self.filecache.clear()
            self.filecache[raw] = hit
        self.last = hit[1]
        return hit[0]

    def _raw(self, raw):
        self.last = None
        bad = dict(self.NONE, kind='bad')
        try:
            dup = []

            def pairs(items):
                d = dict(items)
                if len(d) != len(items):
                    dup.append(1)
                return d
            doc = json.loads(raw.decode('utf-8'), object_pairs_hook=pairs)
        except Exception:
            return bad
        if not isinstance(doc, dict) or set(doc) != {'application', 'format', 'data'} \
                or doc['application'] != 'pfp' or doc['format'] != 3 or type(doc['format']) is not int \
                or not isinstance(doc['data'], dict) \
                or not all(isinstance(v, str) for v in doc['data'].values()):
            return bad
        data = doc['data']
        if 'salt' not in data or 'hmac-secret' not in data:
            return dict(self.NONE, kind='uninit', odd=sorted(data))
        salt = b64strict(data['salt'])
        if salt is None:
            return dict(self.NONE, kind='damaged', odd=sorted(data))
        for pp in sorted(self.pps, key=lambda x: x != self.recent):
            key = storage_key(pp, salt)
            plain = decrypt_value(data['hmac-secret'], key)
            if isinstance(plain, bytes):
                self.recent = pp
                break
        else:
            return dict(self.NONE, kind='damaged', odd=sorted(data))
        try:
            secret = b64strict(json.loads(plain.decode('utf-8')))
            assert secret is not None
        except Exception:
            return dict(self.NONE, kind='damaged', odd=sorted(data))
        self.last = {'key': key, 'secret': secret, 'salt': salt, 'pp': pp, 'data': data, 'raw': raw}
        sites, pws, odd = [], [], []
        for k, value in data.items():
            if k in ('salt', 'hmac-secret'):
                continue
            ck = (k, value, key, secret)
            e = self.cache.get(ck)
            if e is None:
                e = self._entry(k, value, key, secret)
                if len(self.cache) > 200000:
                    self.cache.clear()
                self.cache[ck] = e
            {'site': sites, 'pw': pws, 'odd': odd}[e[0]].append(e[1])
        sites.sort(key=lambda e: e['site'])
        pws.sort(key=lambda p: (p['site'], p['name'], p['rev']))
        if dup:
            odd.append('duplicate keys')
        return {'kind': 'store', 'pp': pp, 'sites': sites, 'pws': pws, 'odd': sorted(odd)}

    def _entry(self, k, value, key, secret):
        tag = hashlib.sha256((k + '=' + value).encode()).hexdigest()[:16]
        plain = decrypt_value(value, key)
        err = None
        if isinstance(plain, bytes):
            try:
                if k.count(':') == 1:
                    e = parse_site(plain)
                    if site_key(secret, e['site']) == k:
                        return 'site', dict(e, bad='', raw='')
                else:
                    p = parse_password(plain)
                    if pw_key(secret, p['site'], p['name'], p['rev']) == k:
                        return 'pw', dict(p, bad='', raw='')
                return 'odd', 'misfiled ' + tag
            except Exception:
                err = 'InvalidJson'
        else:
            err = plain
        for s in self.sites:
            if site_key(secret, s) == k:
                return 'site', {'site': s, 'alias': [], 'bad': err, 'raw': tag}
        for (s, n, r) in self.ids:
            if pw_key(secret, s, n, r) == k:
                return 'pw', {'type': 'bad', 'site': s, 'name': n, 'rev': r, 'len': 0, 'cs': 0,
                              'value': '', 'notes': '', 'bad': err, 'raw': tag}
        return 'odd', 'unreadable ' + tag


def codes(text):
    return [ord(c) for c in text]


def uncodes(seq):
    return ''.join(chr(c) for c in seq)


TEXT_FIELDS = {'site', 'name', 'rev', 'value', 'notes', 'pp', 'target', 'text', 'out', 'pattern'}


def tla_state(d):
    """Projected state -> JSON for the specification."""
    return {'kind': d['kind'], 'pp': codes(d['pp']),
            'sites': [{'site': codes(e['site']), 'alias': [codes(a) for a in e['alias']],
                       'bad': e['bad'], 'raw': e['raw']} for e in d['sites']],
            'pws': [tla_pw(p) for p in d['pws']],
            'odd': d['odd']}


def tla_pw(p):
    return {'type': p['type'], 'site': codes(p['site']), 'name': codes(p['name']), 'rev': codes(p['rev']),
            'len': p['len'], 'cs': p['cs'], 'value': codes(p['value']), 'notes': codes(p['notes']),
            'bad': p.get('bad', ''), 'raw': p.get('raw', '')}
