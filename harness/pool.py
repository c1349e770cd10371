"""Runs items in crash-isolated worker processes and collects what they found."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


class HarnessError(Exception):
    pass


def _spawn(task, d, n, items, env):
    job, out, err = (os.path.join(d, '%s.%d' % (x, n)) for x in ('job', 'out', 'err'))
    with open(job, 'w') as h:
        for it in items:
            h.write(json.dumps(it) + '\n')
    e = dict(os.environ)
    e.update({'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent', 'PYTHONHASHSEED': '0'})
    e.pop('PYTHONPATH', None)
    e.update(env or {})
    p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), task, job, out], stdout=open(err, 'wb'), stderr=subprocess.STDOUT,
                         cwd=d, env=e, start_new_session=True)
    return p, out, err


def run(task, items, nproc=8, timeout=700, env=None, chunk=None):
    """items: list of JSON-able.  -> list of (item index, [[step, facet, text], ...]) for items with findings, stats"""
    d = tempfile.mkdtemp(prefix='saltpool.')
    found, done = [], set()
    t0 = time.time()
    try:
        idx = list(enumerate(items))
        nproc = max(1, min(nproc, len(idx)))
        queues = [idx[k::nproc] for k in range(nproc)]
        live, serial = {}, 0
        restarts = 0
        for q in queues:
            live[serial] = (_spawn(task, d, serial, q, env), q)
            serial += 1
        while live:
            for n in list(live):
                (p, out, err), q = live[n]
                rc = p.poll()
                if rc is None:
                    if time.time() - t0 > timeout:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        rc = 'timeout'
                    else:
                        continue
                del live[n]
                cur, ended, mine = None, False, set()
                with open(out) as h:
                    for line in h:
                        try:
                            r = json.loads(line)
                        except ValueError:
                            continue
                        if r[0] == 'B':
                            cur = r[1]
                        elif r[0] == 'R':
                            mine.add(r[1])
                            cur = None
                            if r[2]:
                                found.append((r[1], r[2]))
                        elif r[0] == 'END':
                            ended = True
                        elif r[0] == 'IMPORT':
                            found.append((q[0][0], [[-1, 'import', 'the package cannot be imported: %s\n%s' % (r[1], r[2])]]))
                            ended = True
                done |= mine
                if not ended:
                    text = open(err, 'rb').read()[-1500:].decode('utf-8', 'replace')
                    if cur is None and not mine:
                        raise HarnessError('worker failed: %s' % text)
                    if rc == 'timeout':
                        if cur is not None:
                            found.append((cur, [[-1, 'hang', 'no answer within the time limit']]))
                    else:
                        if cur is not None:
                            found.append((cur, [[-1, 'crash', 'the process died (%s): %s' % (rc, text)]]))
                            mine.add(cur)
                        rest = [x for x in q if x[0] not in mine]
                        restarts += 1
                        if rest and restarts < 20 and len(found) < 200:
                            live[serial] = (_spawn(task, d, serial, rest, env), rest)
                            serial += 1
            time.sleep(0.02)
        return found, {'items': len(items), 'done': len(done), 'wall': time.time() - t0}
    finally:
        shutil.rmtree(d, ignore_errors=True)
