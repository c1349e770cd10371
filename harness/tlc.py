"""Running TLC and reading what it prints."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class TlcError(Exception):
    pass


class Run:
    def __init__(self):
        self.states = self.distinct = self.depth = 0
        self.lines = []
        self.violation = None
        self.out = ''


def cfg_text(consts, invariants=(), properties=(), spec='Spec', view=None, action_constraint=None, constraint=None,
             post=None, deadlock=False):
    t = ['SPECIFICATION ' + spec]
    if view:
        t.append('VIEW ' + view)
    if consts:
        t.append('CONSTANTS')
        for k, v in consts.items():
            t.append('  %s %s %s' % (k, '<-' if isinstance(v, str) and re.match(r'^[A-Z]\w*$', v) and v not in ('TRUE', 'FALSE') else '=', v))
    for i in invariants:
        t.append('INVARIANT ' + i)
    for p in properties:
        t.append('PROPERTY ' + p)
    if action_constraint:
        t.append('ACTION_CONSTRAINT ' + action_constraint)
    if constraint:
        t.append('CONSTRAINT ' + constraint)
    if post:
        t.append('POSTCONDITION ' + post)
    t.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
    return '\n'.join(t) + '\n'


def run(module, cfg, workers=1, timeout=800, env=None, extra=(), heap='6g', files=None, props=()):
    """Run TLC on spec/<module>.tla with the given cfg text.  files: extra files (name -> text) beside the module."""
    d = tempfile.mkdtemp(prefix='salttlc.')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        for n, txt in (files or {}).items():
            with open(os.path.join(d, n), 'w') as h:
                h.write(txt)
        with open(os.path.join(d, 'M.cfg'), 'w') as h:
            h.write(cfg)
        jar = '/opt/veriftools/tla/tla2tools.jar'
        cp = jar + ':' + ':'.join(os.path.join('/opt/veriftools/tla', f) for f in sorted(os.listdir('/opt/veriftools/tla')) if f.endswith('.jar') and f != 'tla2tools.jar')
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m'] + list(props) + ['-Djava.io.tmpdir=' + d, '-cp', cp, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', os.path.join(d, 'meta'), '-config', 'M.cfg', '-noGenerateSpecTE'] + list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        r = Run()
        rest = []
        try:
            with open(os.path.join(d, 'out.txt'), 'wb') as h:
                p = subprocess.run(cmd, cwd=d, stdout=h, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise TlcError('TLC timed out after %ss on %s' % (timeout, module))
        with open(os.path.join(d, 'out.txt'), encoding='utf-8', errors='replace') as h:
            for l in h:
                if l.startswith('"') and l[1:5] in ('GEN ', 'INI ', 'OUT '):
                    r.lines.append(json.loads(l))
                else:
                    rest.append(l)
        r.out = ''.join(rest)
        r.rc = p.returncode
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.out)
        if m:
            r.states, r.distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r'depth of the complete state graph search is (\d+)', r.out)
        if m:
            r.depth = int(m.group(1))
        if 'is violated' in r.out or 'Temporal properties were violated' in r.out:
            r.violation = r.out
        elif '-simulate' in extra:
            m = re.search(r'states generated: (\d+)', r.out.replace(',', ''))
            if p.returncode != 0 or not m:
                raise TlcError('TLC failed on %s:\n%s' % (module, r.out[-3000:]))
            r.states = r.distinct = int(m.group(1))
        elif p.returncode != 0 or 'No error has been found' not in r.out:
            raise TlcError('TLC failed on %s:\n%s' % (module, r.out[-3000:]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def behaviours(r):
    """GEN/INI lines -> (cfgs, children): the tree of printed transitions."""
    cfgs, kids, par = {}, {}, {}
    for l in r.lines:
        if l.startswith('INI '):
            _, n, js = l.split(' ', 2)
            cfgs[int(n)] = json.loads(js)
        else:
            _, a, b, js = l.split(' ', 3)
            a, b = int(a), int(b)
            kids.setdefault(a, []).append((b, js))
    return cfgs, kids
