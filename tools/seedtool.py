"""
Make and validate a planted bug (not used by any check).

seedtool.py new SPEC.py   SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO
seedtool.py check [ID...] validate again
seedtool.py catch ID [CHECK...]  run checks against it
seedtool.py table LOG   writes SEEDED.md, from the output of catch
"""
import json, os, shutil, subprocess, sys, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = VERIF + '/seeded'
BASE = '50c7288'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
PY = '/opt/venv/bin/python'
DEMOSH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy(name):
    d = '/tmp/seedw/' + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/seedw', exist_ok=True)
    assert sh(['git', 'clone', '-q', '/repo', d]).returncode == 0
    return d


def tests(d):
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-p', 'pytest_timeout', 'tests'], cwd=d, env=dict(ENV, PYTHONPATH=d, PYTEST_DISABLE_PLUGIN_AUTOLOAD='1'))
    return r.stdout.strip().splitlines()[-1]


def demo(d, i):
    # laid elsewhere, like when it counts
    o = '/tmp/seedw/demo-' + i
    shutil.rmtree(o, ignore_errors=True)
    shutil.copytree(SEEDED + '/' + i, o)
    r = sh(['bash', o + '/demo.sh'], cwd=d, timeout=300)
    shutil.rmtree(o)
    return r


def validate(i):
    s = SEEDED + '/' + i
    d = copy(i)
    clean = demo(d, i)
    ok = clean.returncode == 0
    if not ok:
        print(i, 'DEMO FAILS ON CLEAN TREE', clean.stdout[-800:])
    patch = open(s + '/patch.diff').read()
    r = sh(['git', 'apply', s + '/patch.diff'], cwd=d)
    if r.returncode:
        print(i, 'DOES NOT APPLY', r.stdout)
        return False
    t = tests(d)
    if '173 passed' not in t or 'failed' in t:
        print(i, 'TESTS', t)
        ok = False
    bad = demo(d, i)
    if bad.returncode == 0:
        print(i, 'DEMO PASSES WITH THE BUG', bad.stdout[-300:])
        ok = False
    # the lines changed come from the original repository
    added = set(l[:8] for l in sh(['git', 'log', '--format=%H', BASE + '..HEAD'], cwd='/repo').stdout.split())
    for f, hunks in re.findall(r'^--- a/(\S+)\n.*\n((?:@@.*\n(?:[ +\\-].*\n?|\n)*)+)', patch, re.M):
        for start, body in re.findall(r'@@ -(\d+)\S* .*@@.*\n((?:[ +\\-].*\n?|\n)*)', hunks):
            n = int(start)
            for l in body.splitlines():
                if l.startswith('-'):
                    b = sh(['git', 'blame', '-l', '-L', '%d,%d' % (n, n), 'HEAD', '--', f], cwd='/repo').stdout
                    if b[:8] in added:
                        print(i, 'CHANGES A LINE THAT I ADDED:', l)
                        ok = False
                if not l.startswith('+'):
                    n += 1
    shutil.rmtree(d)
    print(i, 'valid' if ok else 'INVALID', '|', bad.stdout.strip().splitlines()[-1][:150] if bad.stdout.strip() else '')
    return ok


def new(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for one in ns['SEEDS']:
        i = one['id']
        d = copy(i)
        for f, old, newtext in one['edits']:
            p = d + '/typedload/' + f
            t = open(p).read()
            assert t.count(old) == 1, (i, f, old, t.count(old))
            open(p, 'w').write(t.replace(old, newtext))
        s = SEEDED + '/' + i
        os.makedirs(s, exist_ok=True)
        open(s + '/patch.diff', 'w').write(sh(['git', 'diff'], cwd=d).stdout)
        open(s + '/demo.sh', 'w').write(DEMOSH)
        open(s + '/demo.py', 'w').write(one['demo'].lstrip())
        json.dump({'property': one['property'], 'needs': one['needs'], 'what_it_breaks': one['breaks']}, open(s + '/meta.json', 'w'), indent=1)
        shutil.rmtree(d)
        validate(i)


def catch(i, checks):
    d = copy('catch-' + i)
    assert sh(['git', 'apply', SEEDED + '/' + i + '/patch.diff'], cwd=d).returncode == 0
    res = []
    for c in checks:
        try:
            r = sh(['./run.sh', c, 'quick'], cwd=VERIF, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1'), timeout=900)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res.append(c + ('!' if r.returncode == 1 and v else '-' if r.returncode == 0 else '?%d' % r.returncode))
        except subprocess.TimeoutExpired:
            res.append(c + 'TIMEOUT')
    shutil.rmtree(d)
    p = json.load(open(SEEDED + '/' + i + '/meta.json'))['property']
    print(i, '(%s)' % p, ' '.join(res), flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        new(sys.argv[2])
    elif sys.argv[1] == 'check':
        for i in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            validate(i)
    elif sys.argv[1] == 'table':
        # the last line about each bug and check counts
        caught = {}
        for l in open(sys.argv[2]):
            m = re.match(r'(\S+) \(C\d\d\) (.*)', l)
            if m:
                for c in m[2].split():
                    caught.setdefault(m[1], {})[c[:3]] = c[3:]
        with open(VERIF + '/SEEDED.md', 'w') as f:
            f.write('# Planted bugs\n\nWritten by `tools/seedtool.py table`. Caught: checks that reported it (quick tier); not: checks that were run and stayed quiet.\n\n| bug | property | what it needs | caught | not |\n|---|---|---|---|---|\n')
            for i in sorted(os.listdir(SEEDED)):
                m = json.load(open(SEEDED + '/' + i + '/meta.json'))
                r = caught.get(i, {})
                f.write('| %s | %s | %s | %s | %s |\n' % (i, m['property'], m['needs'].replace('|', '\\|'), ' '.join(sorted(c for c in r if r[c] == '!')), ' '.join(sorted(c for c in r if r[c] != '!'))))
    else:
        i, checks = sys.argv[2], sys.argv[3:]
        for i in (sorted(os.listdir(SEEDED)) if i == 'all' else [i]):
            c = checks
            if c == ['own'] or not c:
                c = [json.load(open(SEEDED + '/' + i + '/meta.json'))['property']]
            catch(i, c)
