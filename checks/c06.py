"""Splitting coefficients: every step advances the time by the full step and has the order its integrator is named for."""
import re
import jx, sym, steps
from sym import C, add, mul, mk, atom_poly
from steps import T, at

LEVEL = 'other'
EXPLANATION = ('The sequence of kicks and drifts of every step function is extracted from the source, the coefficients are read from the constructors of the integrators, '
               'and the Baker-Campbell-Hausdorff order conditions (Nystroem case) are evaluated on the exact constants: consistency, the integrator\'s order, the time advance, '
               'and that every kick happens at the time reached by the drifts before it.')
RULES = []
ORDER = {'PropLeap': 2, 'PropMLeap': 2, 'PropOmelyan2': 2, 'PropOmelyan4': 4, 'PropRKN4': 4}
ONLY_NORMAL = ('sFpecCpu', 'tFpecCpu')       # documented (warning at run time) not to work with PROP_FIRST / PROP_LAST


def coefficients(P, ctx):
    """class -> (nStages, stage, VQ -> {('c',i)|('d',i): value})"""
    out = {}
    st = {v: k for k, v in P.enum('PropStage_s').items()}
    import walk
    class Ct(walk.Walk):
        def interesting(s, i): return i.op == 'store'
    for f in P.all:
        m = re.search(r'\b(PropLeap|PropMLeap|PropOmelyan2|PropOmelyan4|PropRKN4)<\(AxionEnum::VqcdType_s\)(\d+)>::\1\(', f.dem)
        if not m: continue
        paths = Ct(P, f).run()
        base = [t for o, sz, n, t in P.struct(m.group(0).rsplit('>::', 1)[0] + '>')['m'] if n == '<base>']
        b = re.search(r'PropClass<(\d+), \(AxionEnum::PropStage_s\)(\d+), \(AxionEnum::VqcdType_s\)(\d+)>', base[0] if base else '')
        ctx.need(b, '%s does not construct a PropClass' % f.short)
        S_ = P.struct(b.group(0))
        off = {n: (o, sz // 8) for o, sz, n, t in S_['m'] if n in ('c', 'd')}
        vals = set()
        this = atom_poly(mk('arg', 'this'))
        for p in paths:
            v = {}
            for n, (o, cnt) in off.items():
                for i in range(cnt):
                    x = p.mem.get(add(this, C(o + 8 * i)).key())
                    ctx.need(x is not None and x.const() is not None, '%s: coefficient %s[%d] is not a constant' % (f.short, n, i))
                    v[(n, i)] = x.const()
            vals.add(tuple(sorted(v.items())))
        ctx.need(len(vals) == 1, '%s: coefficients depend on the path' % f.short)
        out[(m.group(1), int(m.group(2)))] = (b.group(0), dict(next(iter(vals))), f)
    return out


def expo(letter, a, N):
    r, t = {(): 1.0}, 1.0
    for k in range(1, N + 1):
        t = t * a / k
        r[(letter,) * k] = t
    return r


def wmul(a, b, N):
    r = {}
    for x, u in a.items():
        for y, v in b.items():
            if len(x) + len(y) <= N: r[x + y] = r.get(x + y, 0.0) + u * v
    return r


def order(seq, tol=2e-13, N=4):
    """largest k such that the composition agrees with the exact flow through degree k.  D, K words; T(p) quadratic: [K,[K,[K,D]]] = 0 at degree 4"""
    P = {(): 1.0}
    for l, a in seq: P = wmul(P, expo(l, a, N), N)
    k = 0
    import itertools, math
    for n in range(1, N + 1):
        for w in itertools.product('DK', repeat=n):
            if n == 4 and w.count('K') == 3: continue
            if abs(P.get(w, 0.0) - 1.0 / math.factorial(n)) > tol: return k, (w, P.get(w, 0.0), 1.0 / math.factorial(n))
        k = n
    return k, None


def sequence(ctx, f, meth, p, val):
    """[(letter, coefficient)], [(letter index, z advance so far)] of one path"""
    sub_ = {mk('arg', 'dz'): C(1)}
    for (n, i), v in val.items(): sub_[mk('sym', '%s[%d]' % (n, i))] = C(v)

    def num(q, what):
        r = sym.subst(q, sub_)
        return r.const()
    seq, cur, z, zs, final = [], None, 0.0, [], 0.0
    grp = None
    zk = []
    for it in p.x.get('log', ()):
        if it[0] == 'z':
            d = num(sym.sub(it[1], T('z0')), 'time')
            if d is None: return None, 'the time advance is not a multiple of the step'
            final = d
            grp = None
        if it[0] != 'k': continue
        k = it[1]
        a = k.a
        g = None
        if k.kind in ('kickdrift', 'speckickdrift', 'nax', 'fsprop'):
            g = (k.kind, a['c'].key(), a['d'].key(), a['m'].key(), k.z.key()); ops = [('K', mul(a['dz'], a['c'])), ('D', mul(a['dz'], a['d']))]
        elif k.kind == 'kick': g = (k.kind, a['c'].key(), k.z.key(), len([1 for x in seq if x[0] == 'D'])); ops = [('K', mul(a['dz'], a['c']))]
        elif k.kind == 'drift': g = (k.kind, a['d'].key(), k.z.key()); ops = [('D', mul(a['dz'], a['d']))]
        elif k.kind == 'pax':
            if re.search(r'\(AxionEnum::KickDriftType_s\)(\d+)', k.tmpl) is None: return None, 'unknown kernel variant'
            kd = int(re.search(r'\(AxionEnum::KickDriftType_s\)(\d+)', k.tmpl).group(1))
            sg = k.pp['sign'].const() if k.pp.get('sign') is not None else None
            x = at(a['m'])
            l = ('K' if x == ('sym', 'mCpu') else 'D') if kd == f.x_lap else 'P'
            if l != 'P' and sg != {'K': 1, 'D': -1}[l]: return None, 'kernel called with the wrong sign'
            g = (l, a['dz'].key(), k.z.key()); ops = [(l, a['dz'])]
        if g is None: continue
        if grp == g: continue
        grp = g
        for l, c in ops:
            v = num(c, l)
            if v is None: return None, 'coefficient %s is not one of the integrator\'s' % str(c)[:60]
            if l == 'K':
                zk.append((len(seq), num(sym.sub(k.z, T('z0')), 'time')))
            if l == 'P': zk.append((len(seq), None))
            seq.append((l, v))
    return (seq, final, zk), None


def one(ctx, P, f, meth, cls, val, lap):
    f.x_lap = lap
    W = steps.Steps(P, f)
    n = 0
    for p in W.run():
        base = '%s/%s' % (cls, meth)
        r, err = sequence(ctx, f, meth, p, val)
        if err:
            ctx.violation('%s/sequence' % base, '%s:%d' % (f.file, f.line), '%s with the coefficients of %s: %s' % (f.short, cls, err)); return
        seq, final, zk = r
        n += 1
        ctx.need(len(seq) >= 4, '%s: kicks and drifts are no longer recognised' % f.short)
        if abs(final - 1) > 2e-13:
            ctx.violation('%s/time' % base, '%s:%d' % (f.file, f.line), '%s with the coefficients of %s advances the conformal time by %.15g steps' % (f.short, cls, final)); return
        pot = [c for l, c in seq if l == 'P']
        if pot and (abs(sum(pot) - 1) > 2e-13 or seq[0][0] != 'P' or seq[-1][0] != 'P'):
            ctx.violation('%s/potential' % base, '%s:%d' % (f.file, f.line), '%s: potential half steps %s do not enclose the step' % (f.short, pot)); return
        dsum = 0.0; acc = []
        for l, c in seq:
            acc.append(dsum)
            if l == 'D': dsum += c
        for i, z in zk:
            if z is not None and seq[i][0] == 'K' and abs(z - acc[i]) > 2e-13:
                ctx.violation('%s/clock' % base, '%s:%d' % (f.file, f.line), '%s with the coefficients of %s: kick %d happens at time %.15g, the drifts before it add to %.15g'
                              % (f.short, cls, i, z, acc[i])); return
        w = [(l, c) for l, c in seq if l != 'P' and c != 0]
        o, bad = order(w)
        if o < ORDER[cls]:
            ctx.violation('%s/order' % base, '%s:%d' % (f.file, f.line), '%s with the coefficients of %s: order %d instead of %d, the series coefficient of %s is %.15g, exact %.15g'
                          % (f.short, cls, o, ORDER[cls], ''.join(bad[0]), bad[1], bad[2]), function=f.dem); return
    ctx.cover(step_functions=1, paths=n, by_integrator={cls: 1})


def run(ctx):
    P = steps.program()
    co = coefficients(P, ctx)
    ctx.floor('integrator_constructors', len(co), 5 * 20)
    lap = P.enum('KickDriftType_s')['KIDI_LAP']
    jobs = []
    byc = {}
    for (cls, vq), (base, val, f) in co.items(): byc.setdefault(base, []).append((cls, val))
    for f, meth, ns, st, vq in steps.instances(P):
        base = re.search(r'PropClass<\d+, \(AxionEnum::PropStage_s\)\d+, \(AxionEnum::VqcdType_s\)\d+>', f.dem).group(0)
        for cls, val in byc.get(base, ()):
            if meth in ONLY_NORMAL and st != 'PROP_NORMAL': continue
            jobs.append((f, meth, cls, val, lap))
    jobs.sort(key=lambda j: (j[0].name, j[2]))
    ctx.floor('combinations', len(jobs), 1000)
    ctx.par([jobs[k::8] for k in range(8)], lambda part: [one(ctx, P, *x) for x in part] and None)
    ctx.cover(coefficients={c: [[n, i, v] for (n, i), v in sorted(val.items())] for (c, _), (b, val, f) in co.items()}, order_claimed=ORDER)
