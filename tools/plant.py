"""Plants bugs for testing the checks (never used by a check).

plant.py SPEC.py [id...]: for every entry of BUGS in the spec: apply the edits to /repo, build, run the stable tests,
run the demonstration with and without the change, run the property's check, undo. Valid ones are kept in
/verif/seeded/<id>/ whether the check catches them or not.
"""
import importlib.util, json, os, pathlib, shutil, subprocess, sys, time

REPO = pathlib.Path('/repo')
SEEDED = pathlib.Path('/verif/seeded')
HERE = pathlib.Path(__file__).resolve().parent
PY = '/opt/venv/bin/python'
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec %s "$(dirname "$0")/demo.py"\n' % PY


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def undo():
    sh('git', '-C', str(REPO), 'checkout', '--', '.')


def build():
    return sh('bash', '/opt/vp/build.sh')


def tests():
    sh('bash', '/opt/vp/test.sh', '/tmp/plant-o.json')
    o = json.load(open('/tmp/plant-o.json'))
    b = json.load(open('/opt/vp/BASELINE.json'))

    def names(x):
        for k in ('passed', 'stable', 'tests'):
            if k in x:
                return set(x[k])
    return sorted(names(b) - names(o))


def run_demo(d):
    try:
        r = sh('bash', str(d / 'demo.sh'), cwd='/repo', timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def check(prop, seed='1'):
    t = time.time()
    e = dict(os.environ, VERIF_SEED=seed, VERIF_TIER='quick')
    r = sh(PY, 'check.py', prop, cwd='/verif', env=e)
    v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    return r.returncode, v, time.time() - t, r.stdout[-500:]


def note(i, ok):
    """strengthened: missed at first"""
    f = HERE / 'seeded.json'
    st = json.load(open(f)) if f.exists() else {}
    st[i] = (st.get(i) if st.get(i, '').startswith('strengthened') else 'strengthened' if st.get(i) == 'MISSED' else 'caught') if ok else 'MISSED'
    f.write_text(json.dumps(st, indent=1, sort_keys=True) + '\n')


def main():
    if sys.argv[1] == '--recheck':
        ids = sys.argv[2:] or sorted(p.name for p in SEEDED.iterdir())
        bad = []
        for i in ids:
            d = SEEDED / i
            prop = json.load(open(d / 'meta.json'))['property']
            r = sh('git', '-C', str(REPO), 'apply', str(d / 'patch.diff'))
            if r.returncode:
                print(i, 'DOES NOT APPLY', r.stderr[:200], flush=True)
                continue
            try:
                rc, v, t, out = check(prop, os.environ.get('VERIF_SEED', '1'))
            finally:
                undo()
            ok = rc == 1 and any('property=%s ' % prop in x for x in v)
            print(i, 'caught' if ok else 'MISSED rc=%d %s' % (rc, out), '%.0fs' % t, flush=True)
            note(i, ok)
            if not ok:
                bad.append(i)
        print('missed:', bad)
        return
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    for b in m.BUGS:
        if only and b['id'] not in only:
            continue
        undo()
        d = SEEDED / b['id']
        assert d != SEEDED
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        (d / 'demo.sh').write_text(DEMO_SH)
        shutil.copy(HERE / 'demo' / 'ev.py', d / 'ev.py')
        (d / 'demo.py').write_text(b['demo'].strip() + '\n')
        (d / 'meta.json').write_text(json.dumps(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), indent=1) + '\n')
        fail = None
        build()
        rc, out = run_demo(d)
        if rc != 0:
            fail = 'demo fails on the unchanged tree: ' + out
        if not fail:
            for path, old, new in b['edits']:
                f = REPO / path
                s = f.read_text()
                if s.count(old) != 1:
                    fail = 'edit matches %d times: %r' % (s.count(old), old)
                    break
                f.write_text(s.replace(old, new))
        try:
            if not fail:
                diff = sh('git', '-C', str(REPO), 'diff').stdout
                (d / 'patch.diff').write_text(diff)
                r = build()
                if r.returncode:
                    fail = 'does not build ' + (r.stdout + r.stderr)[-500:]
            if not fail:
                miss = tests()
                if miss:
                    fail = 'tests notice: %s' % miss[:4]
            if not fail:
                rc, out = run_demo(d)
                if rc == 0:
                    fail = 'demo passes with the change'
            if not fail:
                crc, v, t, tail = check(b['property'])
        finally:
            undo()
        if fail:
            shutil.rmtree(d)
            print(b['id'], 'REJECTED', fail, flush=True)
        else:
            ok = crc == 1 and any('property=%s ' % b['property'] in x for x in v)
            note(b['id'], ok)
            print(b['id'], 'caught' if ok else 'MISSED rc=%d' % crc, '%.0fs' % t, flush=True)
    build()


main()
