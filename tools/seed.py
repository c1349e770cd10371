"""Writes and verifies planted bugs: tools/seed.py BUGFILE [id ...].
BUGFILE defines bug(id, prop, edits=[(file, old, new), ...], needs, breaks, demo) calls.  Each bug is tried in a scratch copy of
/repo: it has to build, pass the stable tests, and its demo has to pass without and fail with it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HELP = open(os.path.join(HERE, 'tools', 'demo_help.py')).read()
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def main():
    exec(open(sys.argv[1]).read(), dict(bug=bug))
    want = sys.argv[2:]
    base = [t for t in json.load(open('/opt/vp/BASELINE.json')).get('passed', [])] if os.path.exists('/opt/vp/BASELINE.json') else []
    for b in BUGS:
        if want and b['id'] not in want:
            continue
        d = os.path.join(HERE, 'seeded', b['id'])
        t = tempfile.mkdtemp(prefix='seed.')
        try:
            w = os.path.join(t, 'repo')
            shutil.copytree('/repo', w, symlinks=True)
            for f, old, new in b['edits']:
                p = os.path.join(w, f)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, text=True).stdout
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.py'), 'w').write(HELP + b['demo'])
            open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            r0 = sh('bash %s/demo.sh' % d, '/repo')
            r1 = sh('bash %s/demo.sh' % d, w)
            ts = sh('/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider tests/v2 tests/a1a2 2>&1 | tail -3', w)
            ok = r0.returncode == 0 and r1.returncode != 0 and '32 passed' in ts.stdout
            print('%-24s %s  clean=%s bugged=%s  tests: %s | %s' % (b['id'], 'OK' if ok else 'BAD', r0.returncode, r1.returncode, ts.stdout.strip().splitlines()[-1],
                                                              (r1.stdout.strip().splitlines() or [''])[-1][:120]))
            if r0.returncode:
                print(r0.stdout[-1500:])
        finally:
            shutil.rmtree(t)


main()
