"""Author planted bugs: `seed(...)` writes /verif/seeded/<id>/ and confirms the demonstration.

Used by hand only (no check imports it).  `python tools/mkseed.py catch [ids]` applies every
seeded patch to /repo in turn, runs its property's quick check and undoes the patch;
`python tools/mkseed.py suite [ids]` applies them all (as far as they do not overlap) and runs the tests.
"""
import json, os, subprocess, sys, textwrap, time
REPO, OUT = os.environ.get('SEED_REPO', '/repo'), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh('git -C %s checkout -- .' % REPO)


def seed(sid, prop, edits, needs, breaks, demo):
    """edits: list of (file relative to qiskit/ignis, old, new)."""
    d = os.path.join(OUT, sid)
    os.makedirs(d, exist_ok=True)
    assert sh('git -C %s status --short' % REPO).stdout == ''
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, 'qiskit/ignis', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, 'EDIT MATCHES', s.count(old), repr(old)); return
            open(p, 'w').write(s.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % REPO).stdout)
        open(os.path.join(d, 'demo.py'), 'w').write(textwrap.dedent(demo).lstrip())
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\nexport LC_ALL=C.UTF-8 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        bad = sh('cd %s && PYTHONPATH=%s bash %s/demo.sh' % (REPO, REPO, d))
    finally:
        clean()
    good = sh('cd %s && PYTHONPATH=%s bash %s/demo.sh' % (REPO, REPO, d))
    ok = good.returncode == 0 and bad.returncode != 0
    print(sid, 'demo', 'OK' if ok else 'WRONG', good.returncode, bad.returncode, bad.stdout.strip().splitlines()[-1:])
    if good.returncode:
        print(good.stdout[-800:])


def ids(args):
    return args or sorted(x for x in os.listdir(OUT) if os.path.exists(os.path.join(OUT, x, 'patch.diff')))


def catch(args):
    for s in ids(args):
        d = os.path.join(OUT, s)
        prop = json.load(open(d + '/meta.json'))['property']
        r = sh('git -C %s apply %s/patch.diff' % (REPO, d))
        if r.returncode:
            print(s, 'does not apply', r.stdout); continue
        t = time.time()
        try:
            r = sh('cd %s && PYVC_REPO=%s VERIF_SEED=1 VERIF_TIER=quick ./check %s' % (os.path.dirname(OUT), REPO, prop))
        finally:
            clean()
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        hard = [l for l in v if 'no-failing-input' not in l]
        print('%-28s %s rc=%d %s %s (%.0fs)' % (s, prop, r.returncode, 'CAUGHT' if v else 'MISSED',
              'with-input' if hard else ('no-input' if v else ''), time.time() - t), flush=True)


def suite(args):
    todo = ids(args)
    while todo:
        rest, batch = [], []
        for s in todo:
            r = sh('git -C %s apply %s/%s/patch.diff' % (REPO, OUT, s))
            (batch if r.returncode == 0 else rest).append(s)
        try:
            sh('sed "s,/repo,%s,g;s,/opt/vp/work,/tmp/vpwork,;s,unset PYTHONPATH,export PYTHONPATH=%s," /opt/vp/test.sh > /tmp/test_seed.sh; bash /tmp/test_seed.sh /tmp/o.json' % (REPO, REPO))
        finally:
            clean()
        o = json.load(open('/tmp/o.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        print(batch, 'missing:', [t for t in stable if t not in set(o['passed'])])
        if not batch:
            break
        todo = rest


if __name__ == '__main__':
    {'catch': catch, 'suite': suite}[sys.argv[1]](sys.argv[2:])
