"""Planting bugs: seed(id, property, [(file, old, new)], demo_php, needs, breaks) writes seeded/<id>/ after verifying it in a scratch
copy of /repo (under /tmp/seed, removed at exit); verify(id) re-verifies one the same way. seedlib.py [-jN] [ids] re-verifies."""
import atexit, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = '/tmp/seed/%d' % os.getpid()
R = B + '/repo'
os.makedirs(B)
atexit.register(lambda pid=os.getpid(): os.getpid() == pid and shutil.rmtree(B, ignore_errors=True))
subprocess.check_call(['git', 'clone', '-q', '--no-hardlinks', '/repo', R])
for _n in ('build', 'test'):
    _s = open('/opt/vp/%s.sh' % _n).read().replace('sub(/^\\/repo\\//,', 'sub("^/repo/",').replace('/repo', R).replace('/opt/vp/build.sh', B + '/build.sh')
    open(B + '/%s.sh' % _n, 'w').write(_s)
ENV = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=B + '/vb', VERIF_EVIDENCE=B + '/ev', VERIF_REPLAYS=B + '/rp', VERIF_OBJCACHE='/tmp/objcache')
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as documented; nonzero: the property is broken
d=$(cd "$(dirname "$0")" && pwd)
timeout -s KILL 60 php8.3 -n -d extension="$PWD/modules/teds.so" "$d/demo.php" > /dev/null 2>&1
rc=$?
[ $rc -eq 0 ] || { echo "demo failed (exit $rc)"; exit 1; }
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    return sh('git', '-C', R, 'status', '--porcelain', '-uno').stdout.strip() == ''


def tests(timeout=None):
    sh('bash', B + '/test.sh', B + '/t.json', timeout=timeout)
    r = json.load(open(B + '/t.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = set(base['stable'])
    return sorted(base - set(r['passed']))


def seed(id, prop, edits, demo, needs, breaks, check=True):
    assert clean(), 'repo dirty'
    d = os.path.join(V, 'seeded', id)
    try:
        for f, a, b in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(a) != 1:
                print('EDIT MISMATCH', id, f, s.count(a), a[:80])
                return False
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE).stdout
    finally:
        sh('git', '-C', R, 'checkout', '--', '.')
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.php', 'w').write('<?php\n' + demo.strip() + '\n')
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    return verify(id, check)


def verify(id, check=True, scale=None):
    assert clean(), 'repo dirty'
    d = os.path.join(V, 'seeded', id)
    prop = json.load(open(d + '/meta.json'))['property']
    msgs = []
    sh('bash', B + '/build.sh')
    r = sh('bash', d + '/demo.sh', cwd=R)
    if r.returncode:
        msgs.append('DEMO FAILS ON CLEAN TREE')
    caught = None
    try:
        r = sh('git', '-C', R, 'apply', d + '/patch.diff')
        if r.returncode:
            print(id, 'PATCH DOES NOT APPLY', r.stdout)
            return False
        bad = tests()
        if bad:
            msgs.append('TESTS BREAK: %s' % bad[:5])
        r = sh('bash', d + '/demo.sh', cwd=R)
        if r.returncode == 0:
            msgs.append('DEMO PASSES WITH THE BUG')
        if check and not msgs:
            e = dict(ENV)
            if scale:
                e['VERIF_SCALE'] = str(scale)
            r = sh('python3', os.path.join(V, 'bin/check.py'), prop, cwd=V, env=e)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            caught = r.returncode == 1 and any('property=' + prop in l for l in v)
            if not caught:
                msgs.append('MISSED by %s (exit %d): %s' % (prop, r.returncode, r.stdout[-300:]))
    finally:
        sh('git', '-C', R, 'checkout', '--', '.')
        sh('bash', B + '/build.sh')
    print(id, prop, 'OK caught' if not msgs else ' | '.join(msgs), flush=True)
    return not msgs


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
    if ids[0].startswith('-j'):
        n = int(ids[0][2:])
        ids = ids[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
        ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__)] + ids[k::n]) for k in range(n) if ids[k::n]]
        sys.exit(max(p.wait() for p in ps))
    res = {i: verify(i) for i in ids}
    print(sum(res.values()), 'of', len(res))
