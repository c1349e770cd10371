"""Runs client/server pairs (spec/Pair.tla) and the example sessions (spec/Examples.tla) in processes of their own."""
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import tempfile

from nacl import bindings as nb

import concrete

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
LIMIT = 60


def child(p):
    """-> (events, returncode or None, output)"""
    d = tempfile.mkdtemp(prefix='saltpair.')
    try:
        p = dict(p, log=os.path.join(d, 'log'), limit=LIMIT)
        with open(os.path.join(d, 'out'), 'wb') as h:
            q = subprocess.Popen([PY, '-B', os.path.join(HERE, 'child_pair.py'), json.dumps(p)], stdin=subprocess.DEVNULL, stdout=h, stderr=subprocess.STDOUT, cwd=d,
                                 start_new_session=True)
            try:
                rc = q.wait(LIMIT)
            except subprocess.TimeoutExpired:
                rc = None
            try:
                os.killpg(q.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            q.wait()
        ev = []
        if os.path.exists(p['log']):
            for l in open(p['log']):
                try:
                    ev.append(json.loads(l))
                except ValueError:
                    pass
        return ev, rc, open(os.path.join(d, 'out'), 'rb').read().decode('utf-8', 'replace')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pair(loop, item):
    ev, rc, out = child(dict(do='pair', kind=item['kind'], grp=item['grp'], jit=item['jit'], seed=item['seed'], pause=item.get('pause')))
    bad = []
    if rc is None:
        bad.append([len(ev), 'hang', 'the pair did not finish: %s; last events %s\n%s' % (item['grp'], ev[-4:], out[-1500:])])
    elif rc != 0 or not ev or ev[-1]['k'] != 'stop':
        bad.append([len(ev), 'pair.died', 'the process running the pair ended with %s: %s' % (rc, out[-1500:])])
    for v in ev:
        for k, d in (('c', 0), ('s', 0), ('n', 0), ('r', '')):
            v.setdefault(k, d)
    with open(item['out'], 'w') as f:
        json.dump({'kind': item['kind'], 'grp': item['grp'], 'ev': ev}, f)
    return bad


# ---------------------------------------------------------------- examples
REQ = {'r1': '010505050505', 'r2': '0104040404', 'r3': '03030303'}
# the fixed keys of the examples (appendix of the Salt Channel v2 specification)
CSEED = '55f4d1d198093c84de9ee9a6299e0f6891c2e1d0b369efb592a9e3f169fb0f79'
SSEED = '7a772fa9014b423300076a2ff646463952f141e2aa8d98263c690c0d72eed52d'
CENC = '77076d0a7318a57d3c16c17251b26645df4c2f87ebc0992ab177fba51db92c2a'
SENC = '5dab087e624a8a4b79e17f8b83800ee66f3bb1292618b6fd1c2f8b27ff88e0eb'
MODS = {'1': 'saltchannel.dev.example_session1', '1a': 'saltchannel.dev.example_session1_a', '2': 'saltchannel.dev.example_session2', '2a': 'saltchannel.dev.example_session2_a',
        '3': 'saltchannel.dev.example_session3', '3a': 'saltchannel.dev.example_session3_a'}


def fixed(n):
    c = concrete.Concrete('example')
    for k, sec in (('cE', CENC), ('sE', SENC)):
        c.enc[k] = (bytes.fromhex(sec), nb.crypto_scalarmult_base(bytes.fromhex(sec)))
    for k, seed in (('cS', CSEED), ('sS', SSEED)):
        c.sig[k] = nb.crypto_sign_seed_keypair(bytes.fromhex(seed))[::-1]
    c.same = False
    c.tbase = {'c': 0, 's': 0}
    for i, k in enumerate(('r1', 'r2', 'r3')):
        c.datalen[(k, i + 1)] = bytes.fromhex(REQ[k])
    if n == '2':
        c.sig['sS'] = (c.sig['sS'][0], b'\x08' * 32)
        c.prot = lambda p: [(b'SCv2------', b'ECHO------')] if p == 'echo' else []
    return c


def frames(b):
    out = []
    while b:
        n = struct.unpack('<i', b[:4])[0]
        out.append(b[4:4 + n])
        b = b[4 + n:]
    return out


def example(loop, item):
    beh, mod = item['beh'], item['how']
    if beh['n'] != {'2a': '2', '3a': '3'}.get(mod, mod):
        return []
    c = fixed(beh['n'])
    want = {d: [c.expected(m) for m in beh[d]] for d in ('up', 'dn')}
    ev, rc, out = child(dict(do='main', mod=MODS[mod]))
    if rc is None:
        return [[0, 'hang', 'example %s does not finish: %s' % (mod, out[-1500:])]]
    bad = []
    if rc != 0 or {'k': 'main', 'r': 'done'} not in ev:
        bad.append([0, 'example.died', 'example %s ended with %s: %s' % (mod, rc, out[-1500:])])
    ends = [v['r'] for v in ev if v['k'] == 'cend']
    if ends != ['done']:
        bad.append([0, 'example.end', 'example %s: its client sessions ended with %s' % (mod, ends)])
    got = {'up': [bytes.fromhex(v['m']) for v in ev if v['k'] == 'up'], 'dn': [bytes.fromhex(m) for v in ev if v['k'] == 'dn' for m in v['m']]}
    for d in ('up', 'dn'):
        raw = b''.join(bytes.fromhex(v['m']) for v in ev if v['k'] == d + 'raw')
        if raw:
            got[d] = frames(raw)
        if got[d] != want[d]:
            bad.append([0, 'example.wire', 'example %s, %s: %s instead of %s' % (mod, 'client to server' if d == 'up' else 'server to client', [x.hex() for x in got[d]], [x.hex() for x in want[d]])])
    totals = {'client --> server total bytes': sum(map(len, want['up'])), 'client <-- server total bytes': sum(map(len, want['dn'])),
              'TOTAL BYTES': sum(map(len, want['up'])) + sum(map(len, want['dn']))}
    for k, v in totals.items():
        m = re.search(re.escape(k) + r':\s*(\d+)', out)
        if m and int(m.group(1)) != v:
            bad.append([0, 'example.report', 'example %s reports %s: %s, true is %s' % (mod, k, m.group(1), v)])
    m = re.search(r'session key: ?([0-9a-f]+)', out)
    if m and beh['n'] != '2' and m.group(1) != c.shared(['cE', 'sE']).hex():
        bad.append([0, 'example.report', 'example %s reports the session key %s, true is %s' % (mod, m.group(1), c.shared(['cE', 'sE']).hex())])
    return bad


def echo(loop, item):
    """The echo sessions: every client gets each of its requests back and the run ends."""
    mod = item['mod']
    ev, rc, out = child(dict(do='main', mod=mod))
    if rc is None:
        return [[0, 'hang', '%s does not finish: %s' % (mod, out[-1500:])]]
    bad = []
    if rc != 0 or {'k': 'main', 'r': 'done'} not in ev:
        bad.append([0, 'example.died', '%s ended with %s: %s' % (mod, rc, out[-1500:])])
    ends = [v['r'] for v in ev if v['k'] == 'cend']
    n = item['n']
    if ends != ['done'] * n or len([v for v in ev if v['k'] == 'send']) != n:
        bad.append([0, 'example.end', '%s: %d clients; ended with %s; %s server sessions ended' % (mod, n, ends, len([v for v in ev if v['k'] == 'send']))])
    up, dn = [v['m'] for v in ev if v['k'] == 'up'], [m for v in ev if v['k'] == 'dn' for m in v['m']]
    raw = {d: b''.join(bytes.fromhex(v['m']) for v in ev if v['k'] == d + 'raw') for d in ('up', 'dn')}
    if up:
        if up != dn or len(up) != 10 * n:
            bad.append([0, 'example.wire', '%s: requests %s, echoes %s' % (mod, up, dn)])
    elif len(raw['dn']) != 10 * n * 10 or len(raw['up']) != len(raw['dn']) + 4 * n:
        bad.append([0, 'example.wire', '%s: %d bytes of requests, %d of echoes' % (mod, len(raw['up']), len(raw['dn']))])
    return bad
