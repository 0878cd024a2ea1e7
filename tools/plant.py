"""Create and confirm planted bugs:  plant.py DEFS.py [ID ...]
DEFS.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=python text, needs, breaks)].
Each bug is applied to /repo's working tree, built, tested, demonstrated, checked, and undone."""
import json, os, re, subprocess, sys, runpy

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
DEMO = '''#!/bin/bash
# exit 0 when the property holds on this example
export LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH=/opt/vp/py3/compat:/opt/eustace-py3/src LD_LIBRARY_PATH=/opt/vp/py3/lib:/opt/venv/lib
HERE=$(cd "$(dirname "$0")" && pwd)
WORK=$(mktemp -d)
trap 'rm -rf "$WORK"' EXIT
cd "$WORK" && /opt/venv/bin/python -W ignore "$HERE/demo.py"
'''


def git(*args):
    return subprocess.run(['git', '-C', '/repo'] + list(args), check=True, capture_output=True, text=True).stdout


def tests():
    if subprocess.run('bash /opt/vp/build.sh >/tmp/plant.build 2>&1', shell=True).returncode:
        return 'build failed'
    subprocess.run('bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1', shell=True)
    passed = set(json.load(open('/tmp/plant.json')).get('passed', []))
    missing = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in passed]
    return 'tests fail: %s' % missing[:5] if missing else None


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if sys.argv[2:]:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    assert not git('status', '--porcelain').strip(), 'repo is not clean'
    for b in bugs:
        d = os.path.join(SEEDED, b['id'])
        os.makedirs(d, exist_ok=True)
        try:
            for path, old, new in b['edits']:
                full = os.path.join('/repo', path)
                text = open(full, newline='').read()
                if '\r\n' in text:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                assert text.count(old) == 1, '%s: %d occurrences of %r in %s' % (b['id'], text.count(old), old, path)
                open(full, 'w', newline='').write(text.replace(old, new))
            with open(os.path.join(d, 'patch.diff'), 'wb') as stream:
                stream.write(subprocess.run(['git', '-C', '/repo', 'diff'], check=True, capture_output=True).stdout)
        finally:
            git('checkout', '--', '.')
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    subprocess.run('bash /opt/vp/build.sh >/tmp/plant.build 2>&1', shell=True, check=True)
    good = []
    for b in bugs:
        r = subprocess.run([os.path.join(SEEDED, b['id'], 'demo.sh')], cwd='/repo', capture_output=True, text=True)
        if r.returncode:
            print(b['id'], 'DEMO FAILS ON THE UNCHANGED TREE\n', r.stdout[-500:], r.stderr[-1500:])
        else:
            good.append(b)
    for b in good:
        d = os.path.join(SEEDED, b['id'])
        try:
            git('apply', os.path.join(d, 'patch.diff'))
            problem = tests()
            if problem:
                print(b['id'], 'UNUSABLE:', problem, flush=True)
                continue
            r = subprocess.run([os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
            c = subprocess.run(['./check', b['property']], cwd=ROOT, capture_output=True, text=True)
            caught = c.returncode == 1 and 'VIOLATION property=%s' % b['property'] in c.stdout
            print(b['id'], 'demo', r.returncode, (r.stderr.strip().splitlines() or ['-'])[-1][:100], '| CAUGHT' if caught else '| MISSED %d %s' % (c.returncode, (c.stdout + c.stderr)[-300:]), flush=True)
            if caught:
                print('    ', c.stdout.splitlines()[0][:200], flush=True)
        finally:
            git('checkout', '--', '.')


if __name__ == '__main__':
    main()
