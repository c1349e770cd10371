"""From TLC's printed transitions to behaviours to replay."""
import json
import random

import tlc


def generate(consts, workers=1, timeout=600, gen=True):
    c = dict(Cfgs='CfgOne', Batches='B1', MaxW=1, MaxT=1, Lasts='NoLast', Faults='NoFault', Budget=0, Attack='EmptySet',
             PrintGen='TRUE' if gen else 'FALSE')
    c.update(consts)
    return tlc.run('SaltMC', tlc.cfg_text(c, invariants=['Inv'] + (['GenInit'] if gen else []), properties=['FailedSilent'], view='View',
                                          action_constraint='GenConstraint' if gen else None), workers=workers, timeout=timeout)


def is_loop(o):
    return o['a'] in ('inj', 'crd') and o['ph'] == 'open' and o['ph0'] == 'open' and o['r']['k'] in ('BadPeer', 'Com', 'cancel')


def paths(r, seed, revisit=2, keep=None):
    """Behaviours that together take every printed transition: one per leaf of the tree.  Moves that leave a session
    exactly where it was are taken on the way, all of them on the first visit of a state."""
    rng = random.Random('paths/%s' % seed)
    cfgs, kids = tlc.behaviours(r)
    out = []
    split = {}
    for n, ks in kids.items():
        loops, moves = [], []
        for c, js in ks:
            o = json.loads(js)
            if keep and not keep(o):
                continue
            (loops if is_loop(o) else moves).append((c, js))
        split[n] = (loops, moves)
    visited = set()

    def at(n):
        loops = split.get(n, ((), ()))[0]
        if not loops:
            return []
        if n not in visited:
            visited.add(n)
            l = [js for _, js in loops]
            rng.shuffle(l)
            return l
        return [js for _, js in rng.sample(loops, min(revisit, len(loops)))]

    for root, cfg in cfgs.items():
        stack = [(root, [])]
        while stack:
            n, pre = stack.pop()
            moves = split.get(n, ((), ()))[1]
            if not moves:
                l = at(n)
                if l or pre:
                    out.append({'cfg': cfg, 'steps': pre + l})
                continue
            for c, js in moves:
                stack.append((c, pre + at(n) + [js]))
    return out
