#!/usr/bin/env python3
"""Validates planted bugs: seed.py ID...   Scratch copies live in /tmp/seed-* and are removed.

For each: the patch applies, touches lines of the original repository only, builds, keeps the stable
tests passing, demo.sh exits 0 without and nonzero with it.  With --check, also runs the check of its
property (or those given by --checks=C01,C02) against the patched copy (PFP_REPO).
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile
V = '/verif'
BASE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.Popen(cmd, cwd=cwd, shell=isinstance(cmd, str), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 98, out + '\ntest timeout ... FAILED\n'


def env(repo):
    rc, out = sh('. /opt/vp/env.sh; env -0', '/')
    e = dict(x.split('=', 1) for x in out.split('\0') if '=' in x)
    e['CARGO_TARGET_DIR'] = repo + '/target'
    return e


def tests(repo):
    e = env(repo)
    rc, out = sh('cargo test --workspace --locked --offline --no-fail-fast 2>&1', repo, e, 120)
    if 'error: could not compile' in out or 'error[E' in out:
        return None, out
    bad = {'timeout'} if rc == 98 else set()
    bad |= set(l.split(' ')[1] for l in out.split('\n') if l.startswith('test ') and l.endswith('... FAILED'))
    return bad, out


def demo(repo, d):
    # demos may not delete anything: what they create below TMPDIR is removed here
    text = open(d + '/demo.sh').read()
    if re.search(r'\brm\b|rmtree|unlink|find .*-delete', text):
        return 99, d + '/demo.sh deletes something'
    tmp = tempfile.mkdtemp(prefix='seed-demo-')
    os.mkdir(tmp + '/tmp')
    shutil.copytree(d, tmp, dirs_exist_ok=True, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    try:
        e = dict(os.environ, TMPDIR=tmp + '/tmp')
        return sh(['bash', tmp + '/demo.sh'], repo, e, 300)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
    check = any(a.startswith('--check') for a in sys.argv)
    only = [a for a in sys.argv if a.startswith('--checks=')]
    nodemo = '--no-demo' in sys.argv
    repo = '/tmp/seed-repo-%d' % os.getpid()
    shutil.rmtree(repo, ignore_errors=True)
    sh(['cp', '-a', '/repo', repo], '/')
    rc = 0
    try:
        for i in ids:
            d = os.path.join(V, 'seeded', i)
            meta = json.load(open(d + '/meta.json'))
            sh('git checkout -q -- .', repo)
            res = [i, meta['property']]
            if not nodemo:
                b, out = tests(repo)
                r0, o0 = demo(repo, d)
                res.append('clean demo %d' % r0)
                if r0:
                    print(o0)
            a, out = sh(['git', 'apply', d + '/patch.diff'], repo)
            if a:
                print(i, 'patch does not apply', out)
                rc = 1
                continue
            if not nodemo:
                b2, out = tests(repo)
                if b2 is None:
                    print(i, 'does not build\n', out[-3000:])
                    rc = 1
                    continue
                if b2 - b:
                    res.append('TESTS FAIL %s' % (b2 - b))
                r1, o1 = demo(repo, d)
                res.append('patched demo %d' % r1)
                if not r1:
                    print(o1)
            print(' | '.join(res), flush=True)
            if check:
                for c in (only[0][9:].split(',') if only else [meta['property']]):
                    e = dict(os.environ, PFP_REPO=repo, VERIF_TIER='quick')
                    r, o = sh([V + '/check', c], V, e, 1200)
                    v = [l for l in o.split('\n') if 'VIOLATION' in l or 'KNOWN' in l or l.startswith('   ') or 'ERROR' in l]
                    print('   %s rc=%d %s' % (c, r, '' if r == 0 else ' '.join(x.strip() for x in v)[:600]), flush=True)
    finally:
        shutil.rmtree(repo, ignore_errors=True)
    sys.exit(rc)


main()
