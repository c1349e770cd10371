"""Records writes of very many messages for spec/SaltBlocks.tla."""
import asyncio
import json

from drive import Hang, Watchdog, exc_name
from tasks_trace import BASE, OTHER, Rec, TraceChannel


def runs(ds):
    out = []
    for d in ds:
        c, s = d[0], d[1]
        if out and out[-1][0] == c and (out[-1][1] + out[-1][2] == s if s else out[-1][1] == 0):
            out[-1][2] += 1
        else:
            out.append([c, s, 1])
    return out


def groups(pk):
    out = []
    for p in pk:
        q = out[-1] if out else None
        if q and p['t'] == 'APP' and q['t'] == 'APP' and not q['last'] and q['time'] == p['time'] and p['n'] == q['n'] + 2 * q['cnt'] \
                and len(runs(q['ds_'] [-1:] + p['ds'])) == 1:
            q['cnt'] += 1
            q['last'] = p['last']
            q['ds_'].append(p['ds'][0])
        else:
            out.append(dict(n=p['n'], cnt=1, last=p['last'], t=p['t'], time=p['time'], ds_=list(p['ds'])))
    for q in out:
        q['ds'] = runs(q.pop('ds_'))
    return out


async def counts(rec, item):
    r = rec.rnd
    e = item['side']
    o = OTHER[e]
    ev = []
    for b in item['batches'] + [[[1, 5]]]:
        msgs = []
        for n, size in b:
            msgs += [rec.fresh(e, size) for _ in range(n)]
        rec.ends[e].keeper.now = r.randrange(1 << 32)
        last = r.random() < .4
        rec.ev.clear()
        rec.flight[o].clear()
        await rec.write(e, msgs, last)
        txs = [x for x in rec.ev if x['k'] == 'tx']
        end = [x for x in rec.ev if x['k'] == 'end'][0]
        call = [x for x in rec.ev if x['k'] == 'call'][0]
        g = [dict(g=groups(x['pk']), last=x['last']) for x in txs]
        ev.append(dict(k='wr', e=e, ds=runs(call['ds']), last=last, now=str(rec.ends[e].keeper.now), tx=g, r=end['r']))
        me = len(ev)
        if len(txs) != 1:
            break
        fl = list(rec.flight[o])
        pos = 0
        for j, gr in enumerate(g[0]['g']):
            part = fl[pos:pos + gr['cnt']]
            pos += gr['cnt']
            if gr['t'] == 'M4':
                s = rec.ends['s']
                s.ch.feed(part[0][0])
                await s.settle()
                s.ch.taken.clear()
                if s.outcome()[0] != 'ret':
                    ev.append(dict(k='hs', r=str(s.outcome()[0])))
                    return ev
                continue
            got, mid, lst, bad = [], False, False, None
            total = sum(x[2] for x in gr['ds'])
            for n, (m, _, _) in enumerate(part):
                rec.ch[o].feed(m)
                k = total if gr['t'] == 'MUL' else 1
                for q in range(k):
                    try:
                        v = await asyncio.wait_for(rec.ends[o].s.app_channel.read(), 30)
                        got.append(rec.known(e, v) if isinstance(v, (bytes, bytearray)) else ['?', 0])
                    except Exception as x:
                        bad = exc_name(x)
                        break
                    if q == 0:
                        lst = bool(rec.ends[o].s.app_channel.last)
                        if lst and n < len(part) - 1:
                            mid = True
                if bad:
                    break
            if bad:
                got.append(['raised ' + bad, 0])
            ev.append(dict(k='rd', e=o, ev=me, j=j + 1, ds=runs(got), last=lst, midlast=mid))
            if bad:
                return ev
    return ev


def record(loop, item):
    cfg = dict(BASE)
    cfg.update(item.get('cfg', {}))
    rec = Rec(item['seed'], cfg)
    bad, out = [], []

    async def go():
        w = await rec.handshake()
        if w:
            bad.append([-1, 'reject.hs', w])
            return
        if cfg['b4'] and item['side'] == 's':
            # let the client's first write complete the server's handshake
            pre = dict(item, side='c', batches=[])
            out.append(await counts(rec, pre))
            out.append(await counts(rec, item))
        else:
            out.append(await counts(rec, item))
        await rec.close()
    try:
        with Watchdog(item.get('limit', 240)):
            loop.run_until_complete(go())
    except Hang as h:
        bad.append([-1, 'hang', str(h)])
    if not bad:
        st = {e: dict(rec.st[e]) for e in 'cs'}
        if cfg['b4']:
            st['s']['rn'] = 3
        ev = []
        for part in out:
            k = len(ev)
            for v in part:
                if v['k'] == 'rd':
                    v['ev'] += k
                ev.append(v)
        with open(item['out'], 'w') as h:
            json.dump(dict(c=st['c'], s=st['s'], ev=ev), h)
    return bad
