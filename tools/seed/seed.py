#!/usr/bin/env python3
"""Builds and tries the planted bugs.

  seed.py make [ID...]    write /verif/seeded/ID from defs.py, and confirm it
  seed.py check [ID...]   run the check of its property against it
"""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SEEDED = os.path.join(VERIF, 'seeded')
REPO = '/repo'


def load():
    import defs
    return {d['id']: d for d in defs.SEEDS}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def base_lines(path):
    """numbers of the lines of path which the base commit has"""
    out = sh('git -C %s blame -s %s' % (REPO, path)).stdout.splitlines()
    return {i + 1 for i, l in enumerate(out) if l.startswith('^')}


def clean():
    sh('git -C %s checkout -- .' % REPO)


def apply_edits(d):
    for f, old, new in d['edits']:
        p = os.path.join(REPO, f)
        s = open(p, encoding='utf-8', newline='').read()
        n = s.count(old)
        if n != 1:
            raise SystemExit('%s: %s: %d matches of %r' % (d['id'], f, n, old))
        open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))


def make(d):
    clean()
    dir = os.path.join(SEEDED, d['id'])
    os.makedirs(dir, exist_ok=True)
    for f in os.listdir(dir):
        os.remove(os.path.join(dir, f))
    env = dict(os.environ)
    demo = 'bash %s/demo.sh' % dir
    if 'demo' in d:
        open(dir + '/demo.sh', 'w').write(d['demo'])
        for f, t in d.get('files', {}).items():
            open(os.path.join(dir, f), 'w').write(t)
    else:
        shutil.copy(HERE + '/demo.sh.txt', dir + '/demo.sh')
        shutil.copy(HERE + '/demo.go.txt', dir + '/main.go.txt')
        json.dump(d['cases'], open(dir + '/cases.json', 'w'))
        r = sh('RECORD=1 ' + demo, cwd=REPO)
        if r.returncode:
            return 'record: ' + r.stdout
    os.chmod(dir + '/demo.sh', 0o755)
    sh('bash /opt/vp/build.sh')
    r = sh('timeout 300 ' + demo, cwd=REPO)
    if r.returncode:
        return 'demo fails on the unchanged tree: ' + r.stdout[-2000:]
    bases = {f: base_lines(f) for f, _, _ in d['edits']}
    try:
        apply_edits(d)
        diff = sh('git -C %s diff' % REPO).stdout
        # at least one removed line of the base
        hit = False
        f = None
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                f = l[6:]
            m = re.match(r'@@ -(\d+)', l)
            if m:
                ln = int(m.group(1))
                continue
            if f and l[:1] in '- ' and not l.startswith('---'):
                if l[0] == '-':
                    if ln in bases[f]:
                        hit = True
                    else:
                        return 'changes line %d of %s, which is not in the base' % (ln, f)
                ln += 1
        if not hit:
            return 'removes no line of the base'
        open(dir + '/patch.diff', 'w').write(diff)
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            return 'does not build: ' + r.stdout
        r = sh('timeout 300 ' + demo, cwd=REPO)
        if r.returncode == 0:
            return 'demo does not fail'
        if r.returncode not in (1, 124):
            print('note: %s: demo exits %d: %s' % (d['id'], r.returncode, r.stdout[-500:]))
        out = r.stdout
        r = sh('bash /opt/vp/test.sh /tmp/seed-test.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        t = json.load(open('/tmp/seed-test.json'))
        failed = [k for k in stable(base) if k not in passed(t)]
        if failed:
            return 'tests fail: %s' % failed[:6]
    finally:
        clean()
        sh('bash /opt/vp/build.sh')
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']},
              open(dir + '/meta.json', 'w'), indent=1)
    return None


def names(x):
    if isinstance(x, dict):
        for k in ('passed', 'pass', 'stable', 'tests'):
            if k in x:
                return names(x[k])
        return {k for k, v in x.items()}
    return set(x)


def stable(x):
    return set(x['stable'])


def passed(x):
    return set(x['passed'])


def scratch():
    """copies of /repo and of the checker, which refers to that copy"""
    w = tempfile.mkdtemp(prefix='seedcheck-')
    sh('cp -a %s %s/repo' % (REPO, w))
    sh('git -C %s/repo checkout -- .' % w)
    os.mkdir(w + '/verif')
    sh('git ls-files -co --exclude-standard | grep -v ^seeded | tar -T - -c | tar -x -C %s/verif' % w, cwd=VERIF)
    p = w + '/verif/mc/go.mod'
    s = open(p).read()
    open(p, 'w').write(s.replace('=> /repo', '=> %s/repo' % w))
    return w


def check(d, w):
    p = os.path.join(SEEDED, d['id'], 'patch.diff')
    sh('git -C %s/repo checkout -- .' % w)
    r = sh('git -C %s/repo apply %s' % (w, p))
    if r.returncode:
        return 'patch: ' + r.stdout
    t = time.time()
    r = sh('REPO=%s/repo VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash check.sh %s' % (w, d['property']), cwd=w + '/verif')
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return '%s %-28s rc=%d %4.0f s %s' % ('caught' if r.returncode == 1 and any('property=' + d['property'] in l for l in v) else 'MISSED',
                                     d['id'], r.returncode, time.time() - t, '' if v else r.stdout[-300:])


def note(id, prop, what):
    """keep the results in results.txt"""
    p = os.path.join(HERE, 'results.txt')
    rows = dict((l.split()[0], l.strip()) for l in open(p)) if os.path.exists(p) else {}
    rows[id] = '%-28s %s %s' % (id, prop, what)
    open(p, 'w').write(''.join(v + '\n' for k, v in sorted(rows.items()) if os.path.isdir(os.path.join(SEEDED, k))))


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    defs = load()
    ids = sys.argv[2:] or list(defs)
    if sys.argv[1] == 'make':
        for i in ids:
            e = make(defs[i])
            print(i, 'ok' if e is None else 'BAD ' + e, flush=True)
            if e:
                shutil.rmtree(os.path.join(SEEDED, i), ignore_errors=True)
    else:
        w = scratch()
        try:
            for i in ids:
                if os.path.exists(os.path.join(SEEDED, i, 'patch.diff')):
                    r = check(defs[i], w)
                    print(r, flush=True)
                    note(i, defs[i]['property'], r.split()[0])
        finally:
            shutil.rmtree(w)
