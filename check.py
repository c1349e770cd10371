#!/opt/venv/bin/python
"""check.py <property id>: decides one property.  VERIF_TIER=quick|thorough, VERIF_SEED=<int>.
check.py --replay <file>: runs one recorded case again and prints what it shows."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True

import pool
import suites
import table
import tlc

ALWAYS = ('crash', 'import', 'unexpected', 'hang')


def owned(prop, facet):
    return facet in ALWAYS or any(facet == f or facet.startswith(f + '.') for f in table.PROPS[prop]['facets'])


def known(prop):
    out = []
    with open(os.path.join(HERE, 'known_findings.txt')) as h:
        for l in h:
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                _, _, pat, what = l.split(' ', 3)
                out.append((pat, what))
    return out


class Ctx:
    pass


def replay(rec):
    """Runs one recorded case again, in the same way as the suite that found it."""
    ctx = Ctx()
    ctx.tier, ctx.seed, ctx.prop = 'quick', 1, None
    kind, _, rest = rec['task'].partition(':')
    item = {k: v for k, v in rec['item'].items() if k != 'out'}
    if kind in ('trace', 'judge'):
        module, task = rest.split(':', 1)
        mk = suites.trace_suite if kind == 'trace' else suites.judge_suite
        return mk(rec['suite'], module, task, lambda ctx: [item], consts=rec.get('consts'))(ctx).findings
    found, _ = pool.run(rec['task'], [item], nproc=1, env=rec.get('env'))
    return [dict(step=b[0], facet=b[1], text=b[2]) for _, bad in found for b in bad]


def main():
    if sys.argv[1] == '--replay':
        rec = json.load(open(sys.argv[2]))
        found = replay(rec)
        for f in found:
            print('step %s  %s  %s' % (f['step'], f['facet'], f['text']))
        print('reproduced' if found else 'not reproduced')
        return 1 if found else 0
    prop = sys.argv[1]
    ctx = Ctx()
    ctx.tier = os.environ.get('VERIF_TIER', 'quick')
    ctx.seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx.prop = prop
    p = table.PROPS[prop]
    t0 = time.time()
    results, err = [], None
    for name in p['suites'] + (p.get('deep', []) if ctx.tier == 'thorough' else []):
        try:
            r = suites.suite(name, ctx.tier)(ctx)
        except (pool.HarnessError, tlc.TlcError) as e:
            err = '%s: %s' % (name, e)
            break
        results.append(r)
        print('%-10s states=%d transitions=%d traces=%d findings=%d  %.1fs' % (r.name, r.states, r.transitions, r.traces, len(r.findings), r.wall), flush=True)
        if any(owned(prop, f['facet']) for f in r.findings):
            break
    viol, harness, other = [], [], {}
    kn = known(prop)
    seen_known = set()
    for r in results:
        for f in r.findings:
            if f['facet'] == 'HARNESS':
                harness.append(f)
            elif owned(prop, f['facet']):
                k = [w for pat, w in kn if pat in f['facet'] + ' ' + f['text']]
                if k:
                    seen_known.add(k[0])
                else:
                    viol.append(f)
            else:
                other[f['facet']] = other.get(f['facet'], 0) + 1
    for w in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    samples = [s for r in results for s in r.samples][:6]
    ev = {'property': prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'model_checking',
          'coverage': {'states': sum(r.states for r in results), 'transitions': sum(r.transitions for r in results),
                       'traces_validated_against_impl': sum(r.traces for r in results), 'samples': samples,
                       'suites': {r.name: dict(r.note, states=r.states, transitions=r.transitions, traces=r.traces, wall_s=round(r.wall, 1)) for r in results}},
          'assumptions': table.ASSUME + p.get('assume', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as h:
        json.dump(ev, h, indent=1)
        h.write('\n')
    if viol:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s.json' % prop)
        f = min(viol, key=lambda f: len(json.dumps(f['item'])))
        with open(path, 'w') as h:
            json.dump(f, h, indent=1)
        n = {}
        for v in viol:
            n[v['facet']] = n.get(v['facet'], 0) + 1
        print('findings: %s' % json.dumps(n))
        print('first: suite %s step %s facet %s: %s' % (f['suite'], f['step'], f['facet'], f['text'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if err or harness:
        print('ERROR of the check: %s' % (err or harness[0]['text']))
        return 2
    if other:
        print('other deviations from the specification, not part of this property: %s' % json.dumps(other))
    print('OK property=%s' % prop)
    return 0


if __name__ == '__main__':
    sys.exit(main())
