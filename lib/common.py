"""Paths, building, TLC, evidence and reporting shared by all checks."""
import fcntl, json, multiprocessing, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PFP_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
TLA_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- building

def _cargo_env(target):
    env = dict(os.environ)
    home = env.get('HOME', '/root')
    for d in ('/usr/local/cargo/bin', home + '/.cargo/bin'):
        if os.path.isdir(d):
            env['PATH'] = d + ':' + env.get('PATH', '/usr/bin:/bin')
    env.update(RUSTUP_TOOLCHAIN='1.90.0', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
               CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
               TERM='xterm', CARGO_TARGET_DIR=target)
    env.pop('RUSTFLAGS', None)
    return env


def build(cli=True, harness=True, shim=False):
    """Builds what is needed from /repo's working tree; returns paths of the executables."""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, 'target')
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.isdir(target):
            src = os.path.join(REPO, 'target', 'debug')
            if os.path.isdir(os.path.join(src, 'deps')):
                # compiled dependencies are reused, this project's own crates never are
                os.makedirs(target + '.part/debug', exist_ok=True)
                for d in ('deps', 'build', '.fingerprint'):
                    subprocess.run(['cp', '-a', os.path.join(src, d), target + '.part/debug/'], check=False)
                os.rename(target + '.part', target)
        fp = os.path.join(target, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('pfp-'):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        env = _cargo_env(target)
        res = {}
        jobs = []
        if cli:
            jobs.append((['cargo', 'test', '-p', 'pfp-cli', '--test', 'cli', '--no-run', '--locked', '--offline'], REPO))
            res['cli'] = os.path.join(target, 'debug', 'pfp-cli')
        if harness:
            hdir = os.path.join(BUILD, 'harness')
            shutil.rmtree(hdir, ignore_errors=True)
            shutil.copytree(os.path.join(VERIF, 'harness'), hdir,
                            ignore=shutil.ignore_patterns('target'))
            with open(os.path.join(hdir, 'Cargo.toml')) as f:
                text = f.read().replace('"/repo/pfp"', json.dumps(os.path.join(REPO, 'pfp')))
            with open(os.path.join(hdir, 'Cargo.toml'), 'w') as f:
                f.write(text)
            jobs.append((['cargo', 'build', '--profile', 'test', '--offline'], hdir))
            res['harness'] = os.path.join(target, 'debug', 'pfp-harness')
        for cmd, cwd in jobs:
            p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True)
            if p.returncode != 0:
                raise ToolError('build failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
        # private copies, so that a later build does not replace an executable in use
        bindir = tempfile.mkdtemp(prefix='bin-', dir=BUILD)
        for k in res:
            dst = os.path.join(bindir, os.path.basename(res[k]))
            shutil.copy2(res[k], dst)
            res[k] = dst
        if shim:
            res['shim'] = os.path.join(bindir, 'fsshim.so')
            p = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', res['shim'], os.path.join(VERIF, 'shim', 'fsshim.c'), '-ldl'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise ToolError('shim: ' + p.stdout[-2000:])
        res['dir'] = bindir
        return res


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.complete = bool(m) and m.group(3) == '0'
        self.ok = rc == 0 and 'No error has been found' in out


def tlc(module, cfg, workers=None, env=None, timeout=800, extra=(), cwd=SPEC, heap=None, ok_codes=(0,)):
    """Runs TLC; returns TlcResult.  Violations (codes 10-14) are for the caller to judge."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch_root())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xss400m', '-Djava.io.tmpdir=' + meta]
    if heap:
        cmd.append('-Xmx' + heap)
    cmd += ['-cp', TLA_JARS, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers or os.cpu_count()),
            '-config', cfg, '-noGenerateSpecTE', '-lncheck', 'final', *extra, module]
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError('TLC timed out: %s %s\n%s' % (module, cfg, (x.stdout or b'')[-2000:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult(p.stdout.decode('utf-8', 'replace'), p.returncode)
    if r.rc not in (0, 10, 11, 12, 13):
        raise ToolError('TLC failed (%d): %s %s\n%s' % (r.rc, module, cfg, (r.out if os.environ.get("PFP_FULL") else r.out[-3000:])))
    return r


def printed(out, prefix):
    """Values printed by PrintT("PREFIX json") in the specification."""
    res = []
    tag = '"' + prefix + ' '
    for line in out.split('\n'):
        if line.startswith(tag):
            # TLC prints the string with quotes and backslashes escaped
            res.append(json.loads(line[len(tag):-1].replace('\\\\', '\0').replace('\\"', '"').replace('\0', '\\')))
    return res


# ---------------------------------------------------------------- scratch

_scratch = None


def scratch_root():
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix='pfpverif-', dir=base)
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def scratch(name):
    return tempfile.mkdtemp(prefix=name + '-', dir=scratch_root())


# ---------------------------------------------------------------- programs which misbehave

_hangs = multiprocessing.Value('i', 0)      # shared with forked processes


def hung():
    with _hangs.get_lock():
        _hangs.value += 1


def patience():
    """Seconds to wait for a program to get on; less once it is known to hang."""
    n = _hangs.value
    return 30 if n < 4 else 5 if n < 16 else 1.5


def attempt(fn, rescue):
    """[fn()], or what there is of it when the program does something no driver is prepared for.

    The trouble makes the check fail as such, unless what was recorded turns out to be a violation."""
    try:
        return [fn()]
    except ToolError:
        raise
    except Exception:
        with open(os.path.join(scratch_root(), 'trouble'), 'a') as f:
            f.write(traceback.format_exc() + '\n')
        try:
            return [rescue()]
        except Exception:
            return []


def trouble():
    try:
        with open(os.path.join(scratch_root(), 'trouble')) as f:
            return f.read()
    except FileNotFoundError:
        return ''


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    """Lines 'finding: property=<id> key=<key> <description>' of the committed file."""
    res = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


# ---------------------------------------------------------------- check

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.start = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = []
        self.findings = known_findings(prop)
        self.seen_findings = set()
        self.bins = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def build(self, cli=True, harness=True, shim=False):
        self.bins = build(cli, harness, shim)
        return self.bins

    def log(self, *args):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.start), *args, flush=True)

    def model(self, module, cfg, **kw):
        """Model checks the specification itself; a violation there is an error of the check."""
        r = tlc(module, cfg, **kw)
        if not r.ok:
            raise ToolError('specification violates its own properties: %s %s\n%s' % (module, cfg, r.out[-6000:]))
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        self.cov.setdefault('models', []).append({'module': module, 'config': cfg, 'distinct_states': r.distinct,
                                                  'generated': r.generated, 'complete': r.complete})
        return r

    def refute(self, module, cfg, what, **kw):
        """A deliberately wrong variant of the specification has to be rejected by TLC."""
        r = tlc(module, cfg, **kw)
        if r.ok or r.rc not in (10, 12, 13):
            raise ToolError('vacuous: %s %s is accepted (%s)\n%s' % (module, cfg, what, (r.out if os.environ.get("PFP_FULL") else r.out[-3000:])))
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        self.cov.setdefault('rejected_variants', []).append({'module': module, 'config': cfg, 'what': what})
        return r

    def sample(self, s, limit=6):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(s)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, replay):
        """Records a violation with everything needed to understand and repeat it."""
        if len(self.violations) >= 20:
            self.violations.append(None)
            return
        d = os.path.join(BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d-%d.json' % (self.prop, self.seed, len(self.violations)))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'seed': self.seed, 'tier': self.tier,
                       'replay': replay}, f, indent=1, default=repr)
        self.violations.append((what, path))

    def finding(self, key, what):
        """A deviation listed in known_findings.txt; anything else is a violation."""
        if key in self.findings:
            if key not in self.seen_findings:
                self.seen_findings.add(key)
                print('KNOWN-FINDING: property=%s %s' % (self.prop, self.findings[key]), flush=True)
            return True
        self.violation(what, {'unlisted finding': key})
        return False

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': self.cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.start, 2), 'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        for v in self.violations:
            if v:
                print('   %s' % v[0][:1500])
                print('VIOLATION property=%s replay=%s' % (self.prop, v[1]))
        self.log('done: %d violation(s), %s' % (len(self.violations), {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 1 if self.violations else 0


def run(prop, body):
    """Entry point of a check: exit 0, 1 (with VIOLATION lines) or 2 (the check itself failed)."""
    chk = Check(prop)
    try:
        body(chk)
        if trouble() and not chk.violations:
            raise ToolError(trouble()[-3000:])
        rc = chk.finish()
    except ToolError as e:
        if chk.violations:      # what was found before stands
            rc = chk.finish()
        else:
            print('CHECK ERROR: %s' % e)
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = chk.finish() if chk.violations else 2
    finally:
        if chk.bins:
            shutil.rmtree(chk.bins['dir'], ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
