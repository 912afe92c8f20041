#!/usr/bin/env python3
"""Mutation campaign: mutate.py stage1 OUT.jsonl [WORKERS] [PART/PARTS]   small changes to non-test code which pass the tests
                      mutate.py stage2 IN.jsonl OUT.jsonl                 which of them do random lib/cli checks notice (Prop=ALL)
Not used by any check.  Scratch copies live in /tmp/mut*/."""
import json, os, random, re, shutil, subprocess, sys
sys.path.insert(0, '/verif/tools')
FILES = subprocess.check_output(['git', '-C', '/repo', 'ls-files', '*.rs'], text=True).split()
FILES = [f for f in FILES if '/tests/' not in f and 'allocator' not in f and 'memory.rs' not in f]

OPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<=if )!', ''), (r'\bif (?!let)', 'if !'),
       (r' \+ ', ' - '), (r' - ', ' + '), (r'\.is_empty\(\)', '.len() == 1'), (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'),
       (r'\.trim\(\)', ''), (r'\.is_none\(\)', '.is_some()'), (r'\.is_some\(\)', '.is_none()'), (r'\.sort\w*\(', None), (r'\.unwrap_or_default\(\)', None),
       (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)), (r'(?<![\w.])([1-9]\d*)(?![\w.])', lambda m: str(int(m.group(1)) - 1)),
       (r'\brevision\b(?=[,)])', 'name'), (r'\bname\b(?=[,)])', 'site'), (r'"([^"{}]+)"', '""'), (r' % ', ' / '), (r' / ', ' % '),
       (r'\.\.=', '..'), (r'\bOk\(\(\)\) =>', None), (r'\?;', ';'), (r'\.filter\(', None)]


def mutants():
    res = []
    for f in FILES:
        text = open('/repo/' + f).read()
        end = text.find('#[cfg(test)]')
        while end != -1 and not re.match(r'#\[cfg\(test\)\]\s*mod ', text[end:]):
            end = text.find('#[cfg(test)]', end + 1)
        lines = (text if end == -1 else text[:end]).split('\n')
        for n, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith(('//', '#', 'use ', '/*', '*', 'pub fn', 'fn ', 'impl', 'mod ', 'pub mod')):
                continue
            new = set()
            for a, b in OPS:
                if b is None:
                    continue
                for m in re.finditer(a, l):
                    x = l[:m.start()] + (b(m) if callable(b) else b) + l[m.end():]
                    if x != l:
                        new.add(x)
            if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'const ', 'type ', '}', ')', 'static')) and s.count('(') == s.count(')'):
                new.add(re.match(r'\s*', l).group() + '// deleted')
            for x in sorted(new):
                res.append({'file': f, 'line': n, 'old': l, 'new': x})
    random.Random(7).shuffle(res)
    for k, m in enumerate(res):
        m['id'] = k
    return res


def apply(repo, m):
    p = os.path.join(repo, m['file'])
    lines = open('/repo/' + m['file']).read().split('\n')
    assert lines[m['line']] == m['old']
    lines[m['line']] = m['new']
    open(p, 'w').write('\n'.join(lines))


def undo(repo, m):
    shutil.copyfile('/repo/' + m['file'], os.path.join(repo, m['file']))


def stage1_worker(k, n, out):
    import importlib.util
    spec = importlib.util.spec_from_file_location('seed', '/verif/tools/seed.py')
    src = open('/verif/tools/seed.py').read().rsplit('main()', 1)[0]
    ns = {}
    exec(compile(src, 'seed', 'exec'), ns)
    repo = '/tmp/mut/repo%d' % k
    if not os.path.isdir(repo):
        subprocess.check_call(['cp', '-a', '/repo', repo])
    stable = ns['BASE']
    clean, _ = ns['tests'](repo)
    done = {json.loads(l)['id'] for l in open(out)} if os.path.exists(out) else set()
    for m in mutants():
        if m['id'] % n != k or m['id'] in done:
            continue
        apply(repo, m)
        bad, o = ns['tests'](repo)
        undo(repo, m)
        m['res'] = 'nobuild' if bad is None else 'killed' if bad - clean else 'survived'
        with open(out, 'a') as f:
            f.write(json.dumps(m) + '\n')


def stage2(src, out):
    repo = '/tmp/mut/repo_s2'
    if not os.path.isdir(repo):
        subprocess.check_call(['cp', '-a', '/repo', repo])
    done = {json.loads(l)['id'] for l in open(out)} if os.path.exists(out) else set()
    for l in open(src):
        m = json.loads(l)
        if m['res'] != 'survived' or m['id'] in done:
            continue
        apply(repo, m)
        try:
            p = subprocess.run([sys.executable, '/verif/tools/mutcheck.py', str(m['id'])], env=dict(os.environ, PFP_REPO=repo),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            m['rc'], m['out'] = p.returncode, p.stdout[-1500:]
        except subprocess.TimeoutExpired:
            m['rc'], m['out'] = 99, ''
        undo(repo, m)
        with open(out, 'a') as f:
            f.write(json.dumps(m) + '\n')


if __name__ == '__main__':
    if sys.argv[1] == 'count':
        print(len(mutants()))
    elif sys.argv[1] == 'stage1':
        import multiprocessing
        n = int(sys.argv[3])
        ps = [multiprocessing.Process(target=stage1_worker, args=(k, n, sys.argv[2])) for k in range(n)]
        [p.start() for p in ps]
        [p.join() for p in ps]
    else:
        stage2(sys.argv[2], sys.argv[3])
