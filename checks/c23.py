"""A time step sweeps the whole local volume once per stage, with neighbours and ghosts all at the same stage."""
import re
import jx, sym, steps
from steps import T, at

LEVEL = 'other'
EXPLANATION = ('The schedule of every step function (kernel calls, ghost exchanges, time updates, on every path) is extracted from the source for a set of slab shapes and replayed on '
               'abstract planes that carry only how many drifts and kicks they have received: each stage must kick and drift every plane exactly once, every plane read with its '
               'neighbours must see neighbours and ghosts of the same stage, buffers in flight must not be modified, and the field must end in the main buffer.')
RULES = []
# ghost planes, planes
QUICK = [(1, 2), (2, 4), (2, 2), (2, 5), (3, 8)]
THOROUGH = QUICK + [(1, 1), (1, 7), (3, 3), (3, 6), (4, 8), (4, 4), (5, 10), (5, 13)]
S_ = 256


class Bad(Exception): pass


def replay(ctx, f, p, Ng, n, enums):
    W, D = enums['WAIT'], enums['SDRV']
    V, BO = n * S_, Ng * S_
    buf = {b: [('old', b)] * (n + 2 * Ng) for b in ('m', 'v', 'm2')}
    inner = range(Ng, n + Ng)
    for b in ('m', 'v'):
        for q in inner: buf[b][q] = 0
    kicks = [0] * (n + 2 * Ng)
    flight = {}
    fields = {enums['FIELD_M']: 'm', enums['FIELD_M2']: 'm2', enums['FIELD_V']: 'v'}
    name = {'mCpu': 'm', 'vCpu': 'v', 'm2Cpu': 'm2'}
    lap = {}
    last = 'm'

    def bufof(k, r):
        x = at(k.a[r])
        b = name.get(x[1]) if x and x[0] == 'sym' else None
        if b is None: raise jx.Broken('%s: buffer of %s not recognised: %s' % (f.short, k.name, str(k.a[r])[:80]))
        return b

    def wr(k, b, q, v):
        if b in flight and (q < 2 * Ng or q >= n): raise Bad(k, 'modifies planes of %s that are being sent' % b)
        buf[b][q] = v

    def neigh(k, b, q):
        t = buf[b][q]
        for x in range(max(q - Ng, 0), q + Ng + 1):
            if buf[b][x] != t:
                if x < Ng or x >= n + Ng: raise Bad(k, 'reads ghost planes of %s before those of this stage have arrived' % b)
                raise Bad(k, 'reads planes of %s of different stages' % b)
        return t

    for it in p.x.get('log', ()):
        if it[0] == 'ghost':
            b = fields.get(it[1])
            if b is None: continue
            if it[2] == D:
                flight[b] = (list(buf[b][Ng:2 * Ng]), list(buf[b][n:n + Ng]))
            elif it[2] == W:
                if b not in flight: raise Bad(it[3], 'waits for ghosts of %s that were not sent' % b)
                lo, hi = flight.pop(b)
                buf[b][0:Ng] = hi
                buf[b][n + Ng:] = lo
            continue
        if it[0] == 'lap':
            for q in inner: buf['m2'][q] = ('lap', buf['m'][q])
            continue
        if it[0] == 'z':
            for b, what in ((last, 'drifted'), ):
                t = {buf[b][q] for q in inner}
                if len(t) > 1: raise Bad(it[2], 'the time is advanced when only part of the volume has been %s' % what)
            if len({kicks[q] for q in inner}) > 1: raise Bad(it[2], 'the time is advanced when only part of the volume has been kicked')
            continue
        if it[0] != 'k': continue
        k = it[1]
        if k.kind.startswith('fs'): continue
        lo, hi = (k.a[x].const() for x in ('Vo', 'Vf'))
        if lo is None or hi is None or lo % S_ or hi % S_: raise jx.Broken('%s: range of %s not recognised: %s %s' % (f.short, k.name, k.a['Vo'], k.a['Vf']))
        if hi <= lo: continue
        lo, hi = lo // S_, hi // S_
        spec = k.kind == 'speckickdrift' or f.spectral
        off = Ng - 1 if spec else 0
        rng = range(lo + off, hi + off)
        if rng[0] < Ng or rng[-1] >= n + Ng: raise Bad(k, 'sweeps planes outside of the local volume')
        m, v = bufof(k, 'm'), bufof(k, 'v')
        if k.kind in ('kickdrift', 'nax'):
            m2 = bufof(k, 'm2')
            for q in rng:
                t = neigh(k, m, q)
                kicks[q] += 1
                wr(k, m2, q, t + 1 if isinstance(t, int) else t)
            last = m2
        elif k.kind == 'kick':
            for q in rng: neigh(k, m, q); kicks[q] += 1
        elif k.kind == 'drift':
            for q in rng: wr(k, m, q, buf[m][q] + 1 if isinstance(buf[m][q], int) else buf[m][q])
            last = m
        elif k.kind == 'speckickdrift':
            m2 = bufof(k, 'm2')
            for q in rng:
                if buf[m2][q] != ('lap', buf[m][q]): raise Bad(k, 'uses a Laplacian of another stage')
                kicks[q] += 1
                wr(k, m, q, buf[m][q] + 1)
            last = m
        elif k.kind == 'pax':
            kd = int(re.search(r'\(AxionEnum::KickDriftType_s\)(\d+)', k.tmpl).group(1))
            if kd == enums['LAP']:
                for q in rng: neigh(k, m, q); wr(k, v, q, buf[v][q] + 1)
                if m == 'm':
                    for q in rng: kicks[q] += 1
                last = v
            else:
                for q in rng: wr(k, m, q, buf[m][q] + 1); wr(k, v, q, buf[v][q] + 1); kicks[q] += 1
        for b in ('m', 'v', 'm2'):
            pass
    if flight: raise Bad(None, 'ends with ghosts of %s still in flight' % '/'.join(flight))
    k = [kicks[q] for q in inner]
    if len(set(k)) > 1: raise Bad(None, 'kicks planes %s times' % sorted(set(k)))
    t = {buf['m'][q] for q in inner}
    if len(t) > 1 or not isinstance(next(iter(t)), int): raise Bad(None, 'leaves a main buffer with planes of different stages')
    return max(k), next(iter(t))


def one(ctx, P, f, meth, ns, st, vq, shapes, enums):
    f.spectral = meth in ('sSpecCpu', 'tSpecCpu')
    n = 0
    for Ng, nz in shapes:
        W = steps.Steps(P, f, conc=dict(Ng=Ng, Lx=16, S=S_, V=nz * S_))
        res = set()
        for p in W.run():
            n += 1
            try:
                r = replay(ctx, f, p, Ng, nz, enums)
                res.add(r)
                want = ns + (1 if st == 'PROP_LAST' else 0)
                if meth in ('sFpecCpu', 'tFpecCpu'): continue
                kk = want + (2 if meth == 'pRunCpu' else 0)
                if meth == 'pRunCpu' and st == 'PROP_FIRST' or meth == 'nRunCpu' and st == 'PROP_FIRST': kk += 1
                if r[0] != kk: raise Bad(None, 'kicks every plane %d times in %d stages' % (r[0], want))
                drifts = ns + (1 if st == 'PROP_FIRST' else 0)
                if meth in ('sRunCpu', 'tRunCpu', 'lowCpu', 'sSpecCpu', 'tSpecCpu') and r[1] < drifts: raise Bad(None, 'drifts the field %d times instead of %d' % (r[1], drifts))
            except Bad as e:
                k, msg = e.args
                inst = getattr(k, 'inst', k)
                key = '%s/%s/%s' % (meth, re.sub(r'[^a-z]+', '-', re.sub(r'\[.*|\d+', '', msg.lower())).strip('-')[:60], 'thin' if nz < 2 * Ng else 'slab')
                ctx.violation(key, inst.where() if inst is not None and hasattr(inst, 'where') else '%s:%d' % (f.file, f.line),
                              '%s%s %s (%d planes per rank, %d ghost planes)' % (f.short, ': ' + k.name if isinstance(k, steps.K) else '', msg, nz, Ng), function=f.dem)
                return
    ctx.cover(step_functions=1, replays=n, by_method={meth: 1})


def run(ctx):
    P = steps.program()
    co = P.enum('CommOperation_s')
    fi = P.enum('FieldIndex_s')
    enums = dict(WAIT=co['COMM_WAIT'], SDRV=co['COMM_SDRV'], FIELD_M=fi['FIELD_M'], FIELD_M2=fi['FIELD_M2'], FIELD_V=fi['FIELD_V'], LAP=P.enum('KickDriftType_s')['KIDI_LAP'])
    L = [x for x in steps.instances(P)]
    ctx.floor('instances', len(L), 300)
    shapes = QUICK if ctx.tier == 'quick' else THOROUGH
    ctx.par([L[k::8] for k in range(8)], lambda part: [one(ctx, P, *x, shapes, enums) for x in part] and None)
    ctx.cover(shapes=[[a, b] for a, b in shapes])
    ctx.floor('replays', ctx.cov['replays'], 1000)
