"""The expanding background is consistent: rates are the derivatives of the scale factor, mass derivatives and integrals those of the mass."""
import re, math
import jx, sym, walk, steps
from sym import C, ZERO, ONE, add, sub, mul, inv, neg, scale, power, mk, atom_poly, fromkey, _atoms
from steps import at
import c14

LEVEL = 'other'
EXPLANATION = ('Every background routine is unfolded symbolically in each regime (expansion exponent, power of the mass, before / during / after saturation, with and without restoration, matter correction, tabulated cosmology), '
               'which gives its value as an expression of time. The expressions are differentiated or integrated exactly and compared: R\' / R and R\'\'/R with R, d m^2/dct and dlog(mR)/dlog ct with m^2, '
               'the first and second time integrals used by the spectral propagator with m^2 R^n, and the no-argument forms with the forms that take a time.')
RULES = ['Rp = R\'/R, Rpp = R\'\'/R', 'm^2 = indi3^2 R^n up to saturation, constant from there, rising from restoration, continuous', 'DAxionMass2Dct = d m^2/dct, DlogMARDlogct = dlog(mR)/dlogct',
         'IAxionMassSqn = int m^2 R^n, IIAxionMassSqn = int int m^2 R^n, in both directions and across saturation', 'lambda = lambda0/R^e, m_s^2 = 2 (8) lambda', 'finite differences of tables are exact on linear tables',
         'X() = X(now); the step is the safety factor over the largest frequency, and never jumps to before the saturation']


def diff(p, a):
    r = ZERO
    for m, c in p.t.items():
        for i, (x, e) in enumerate(m):
            if x == a:
                q = tuple((y, f - (y == a)) for y, f in m if not (y == a and f == 1))
                r = add(r, scale(sym.Poly({q: c}), e))
            elif a in sym.allatoms(atom_poly(x)): raise jx.Broken('expression not differentiable: %s' % sym.show(p)[:200])
    return r


def integ(p, a):
    """primitive of a sum of powers"""
    r = ZERO
    for m, c in p.t.items():
        e = dict(m).get(a, 0)
        if e == -1: raise jx.Broken('logarithm')
        d = dict(m); d[a] = e + 1
        if any(a in sym.allatoms(atom_poly(x)) for x in d if x != a): raise jx.Broken('expression not integrable: %s' % sym.show(p)[:200])
        r = add(r, sym.Poly({tuple(sorted(d.items())): c / (e + 1)}))
    return r


def at_(p, a, v): return sym.subst(p, {a: v})


def num(p, env):
    t = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a, e in m: v *= natom(a, env) ** e
        t += v
    return t


def natom(a, env):
    if a in env: return env[a]
    A = _atoms[a]
    if A.kind == 'sqrt': return math.sqrt(num(fromkey(A.args[0]), env))
    if A.kind == 'inv': return 1 / num(fromkey(A.args[0]), env)
    if A.kind == 'fn':
        v = [num(fromkey(k), env) for k in A.args[1:]]
        if A.args[0] == 'pow': return v[0] ** v[1]
        f = getattr(math, A.args[0], None)
        if f: return f(*v)
    raise KeyError(a)


def root(a, k):
    """pow(a, k) for constant k"""
    if k == 0: return ONE
    if len(a.t) == 1:
        (m, c), = a.t.items()
        ex = [e * k for _, e in m]
        if all(abs(e - round(e)) < 1e-9 for e in ex) and c > 0:
            return sym.Poly({tuple((x, int(round(e))) for (x, _), e in zip(m, ex) if round(e)): c ** k if c != 1 else 1})
    return sym.fpow(a, C(k))


class Num(c14.W_):
    """one regime: comparisons are decided by the numbers in env"""

    def __init__(s, M, f, bind, this):
        super().__init__(M.P, f, {}, bind=bind)
        s.M, s.this = M, this

    def cmp(s, pred, a, b):
        r = super().cmp(pred, a, b)
        if r.const() is not None: return r
        if pred in ('uno', 'ord'): return C(int(pred == 'ord'))
        try: d = num(sub(a, b), s.M.env)
        except KeyError: return r
        if abs(d) < 1e-9 and not sym.equal(a, b): raise jx.Broken('%s: sample on a boundary' % s.f.short)
        d = 0 if abs(d) < 1e-9 else d
        p = pred.lstrip('ous') if pred[0] in 'ous' else pred
        return C(int({'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[p]))

    def onload(s, p, i, a):
        for base, mem in s.M.mem.items():
            o = sub(a, atom_poly(base)).const()
            if o is not None: return mem.get(o)
        x = at(a)
        if x and x[0] == 'glob' and x[1] in s.M.globs: return s.M.globs[x[1]]
        return super().onload(p, i, a)

    def call(s, p, i):
        n = i.x if isinstance(i.x, str) else ''
        m = re.match(r'llvm\.(sqrt|pow|fabs|maxnum|minnum|sin|cos|exp|log)\.f(32|64)$', n)
        n = m.group(1) if m else n
        v = lambda: [s.op(p, q) for q in i.ops]
        if n == 'sqrt': return sym.sqrt(v()[0])
        if n == 'pow':
            a, b = v()
            if sym.equal(b, a_('inf')): return ZERO if num(a, s.M.env) < 1 else b
            if b.const() is None: raise jx.Broken('%s: exponent %s not understood at %s' % (s.f.short, sym.show(b)[:80], i.where()))
            return root(a, float(b.const()))
        if n in ('sin', 'cos', 'exp', 'log', 'cosh', 'atanh', 'atan2', 'fabs', 'sinh', 'acos', 'cbrt'): return sym.fn(n, *v())
        if re.search(r'spline', s.P.dem(n, s.f.mod)) and 'operator()' in s.P.dem(n, s.f.mod):
            t, x = v()
            for base, tabs in s.M.tabs.items():
                o = sub(t, atom_poly(base)).const()
                if o in tabs: return tabs[o](x)
            raise jx.Broken('%s: table not understood at %s' % (s.f.short, i.where()))
        return super().call(p, i)

    def step(s, p, i):
        if i.op in ('fptosi', 'fptoui'):
            k = s.op(p, i.ops[0]).const()
            if k is not None: p.env[i.id] = C(int(k)); return
        if i.op == 'fdiv' and s.op(p, i.ops[1]).const() == 0:
            k = s.op(p, i.ops[0]).const()
            if k is not None and k > 0:
                s.M.env[A('inf')] = 1e300
                p.env[i.id] = a_('inf'); return
        super().step(p, i)

    def value(s, p, i, name, args):
        n = steps.fname(name)
        if n == 'Verbosity': return ZERO
        if n in ('exit', 'abort'):
            p.x['exit'] = i
            raise walk.Stop
        m = re.search(r'\b(Cosmos|Scalar)::(\w+)\s*\(', name)
        if m: return s.M.method(m.group(1), m.group(2), args, i)
        if n in ('max', 'min') and re.search(r'std::', name): raise jx.Broken('std::%s kept as a call' % n)
        if n == 'commRank': return ZERO
        return None


class Model:
    def __init__(s, P, ctx):
        s.P, s.ctx = P, ctx
        s.env, s.mem, s.tabs, s.globs = {}, {}, {}, {}
        s.fns = {}
        for f in P.all:
            m = re.search(r'\b(Cosmos|Scalar)::(\w+)\((.*)\)', f.dem)
            if m: s.fns[(m.group(1), m.group(2), len(f.args))] = f
        s.depth = 0

    def method(s, cls, n, args, i):
        if (cls, n, len(args)) in s.fns: return s.call(cls, n, args)
        if cls == 'Scalar' and n in ('BckGnd',): return atom_poly(mk('cosmos'))
        if cls == 'Scalar' and n in s.acc: return s.acc[n]
        return None

    def call(s, cls, n, args):
        f = s.fns.get((cls, n, len(args)))
        if f is None: raise jx.Broken('%s::%s not found' % (cls, n))
        s.depth += 1
        if s.depth > 12: raise jx.Broken('%s::%s recurses' % (cls, n))
        W = Num(s, f, {a[0]: v for a, v in zip(f.args, args)}, args[0])
        ps = W.run()
        s.depth -= 1
        ps = [p for p in ps if 'exit' not in p.x]
        if len(ps) != 1: raise jx.Broken('%s::%s: %d paths in one regime; undecided: %s' % (cls, n, len(ps), [str(fromkey(k))[:300] for p in ps[:1] for k in list(p.truth)[:2]]))
        s.ctx.cover(evaluations=1)
        return ps[0].ret

    def get(s, n, *args): return s.call('Cosmos', n, (atom_poly(mk('cosmos')),) + args)
    def sget(s, n, *args): return s.call('Scalar', n, (atom_poly(mk('scalar')),) + args)


A = lambda n: mk('q', n)
a_ = lambda n: atom_poly(A(n))


def run(ctx):
    P = jx.Program(['lib/cosmos/cosmos.cpp', 'lib/scalar/scalarField.cpp'], 'kern',
                   ['--inline-lambdas', r'--keep=Cosmos::|Scalar::(IAxion|IIAxion|LambdaP|Msa|HubbleMassSq|Rpp|HubbleConformal|AxionMass|AxionMassSq|SaxionMassSq|SaxionShift|Saskia|dzSize|Rfromct|updateR)',
                    '--noinline=' + jx.KERN_KEEPOUT + r'|Cosmos::(R|Rp|Rpp|AxionMass2|LambdaP|SaxionMass2|DAxionMass2Dct|DlogMARDlogct|T|TopSus)\(|Scalar::(Rfromct|AxionMass|AxionMassSq|LambdaP|SaxionShift|HubbleMassSq|Saskia|rsvPQ2|dzSize|SaxionMassSq)\(|spline|Logger'])
    M = Model(P, ctx)
    for n in ('R', 'Rp', 'Rpp', 'AxionMass2', 'DAxionMass2Dct', 'DlogMARDlogct', 'LambdaP', 'SaxionMass2'): ctx.need(('Cosmos', n, 2) in M.fns, 'Cosmos::%s not found' % n)
    seen = set()

    def bad(key, f, msg):
        if key in seen: return
        seen.add(key)
        ctx.violation(key, '%s:%d' % (f.file, f.line), msg)

    co = {n: o for o, sz, n, t in P.struct('Cosmos')['m']}
    ic = {n: o for o, sz, n, t in P.struct('IcData_v')['m']} if 'grav' in str(P.struct('IcData_v')) else {}
    ctx.need('grav' in ic, 'IcData::grav not found')
    for n in ('frw', 'nQcd', 'nQcdr', 'zThRes', 'zRestore', 'indi3', 'lambda', 'lz2e', 'ueCosm', 'pot', 'icdatastruc', 'sR', 'schi', 'sRpp'): ctx.need(n in co, 'member %s of Cosmos not found' % n)
    sc = {n: o for o, sz, n, t in P.struct('Scalar')['m']}
    E = {n: P.enum(n) for n in ('VqcdType_s', 'FieldType_s')}
    analytic(ctx, M, bad, co, ic, sc, E)
    tables(ctx, M, bad, co, ic)
    ctx.floor('evaluations', ctx.cov.get('evaluations', 0), 500)


def setup(M, co, ic, frw, n, nr, T, X, g, ue=0, pot=1, lz2e=2):
    """T, X: times of saturation and restoration (polynomials)"""
    this = mk('cosmos')
    th, xr = power(T, frw) if frw else a_('th'), power(X, frw) if frw else a_('xr')
    M.mem = {this: {co['frw']: C(frw), co['nQcd']: C(n), co['nQcdr']: C(nr), co['zThRes']: th, co['zRestore']: xr, co['indi3']: a_('indi3'), co['lambda']: a_('lambda'), co['lz2e']: C(lz2e),
                    co['ueCosm']: C(ue), co['pot']: C(pot), co['icdatastruc'] + ic['grav']: g, co['lSize']: a_('L'), co['mink']: C(0)}}
    return th, xr


def mass2(R, th, xr, n, nr, regime):
    i2 = power(a_('indi3'), 2)
    if regime == 'before': return mul(i2, power(R, n))
    if regime == 'plateau': return mul(i2, power(th, n))
    return mul(mul(i2, power(th, n)), mul(power(R, nr), power(inv(xr), nr)))


def analytic(ctx, M, bad, co, ic, sc, E):
    ct = a_('ct'); c = A('ct')
    fn = lambda n: M.fns[('Cosmos', n, 2)]
    for frw, n, nr, grav in ((1, 7, 7, 0), (1, 4, 2, 0), (2, 3, 5, 0), (4, 2, 3, 0), (0, 7, 7, 0), (1, 0, 0, 0), (1, 2, 3, 1)):
        for regime in ('before', 'plateau', 'restored', 'saturated'):
            env = {A('indi3'): 1.7, A('lambda'): 900.0, A('L'): 6.0, A('ct'): 2.0, A('grav'): 0.3}
            times = {'before': (3.0, 5.0), 'plateau': (1.5, 2.5), 'restored': (1.2, 1.6), 'saturated': (1.5, 0.5)}[regime]
            env[A('T')], env[A('X')] = times
            if frw == 0:      # R = 1
                env[A('th')], env[A('xr')] = {'before': (2.0, 3.0), 'plateau': (0.5, 2.0), 'restored': (0.3, 0.6), 'saturated': (0.5, 0.4)}[regime]
            M.env = env
            g = a_('grav') if grav else C(-1)
            if grav:      # thresholds in R are plain numbers there
                env[A('th')], env[A('xr')] = {'before': (5.0, 9.0), 'plateau': (1.5, 4.0), 'restored': (1.2, 1.6), 'saturated': (1.5, 0.5)}[regime]
            th, xr = setup(M, co, ic, frw, n, nr, a_('T'), a_('X'), g)
            if grav:
                th, xr = a_('th'), a_('xr')
                M.mem[mk('cosmos')][co['zThRes']], M.mem[mk('cosmos')][co['zRestore']] = th, xr
            who = 'expansion exponent %d%s, mass exponent %d (%d after restoration), %s' % (frw, ' with matter' if grav else '', n, nr, regime)
            R = M.get('R', ct)
            wR = power(ct, frw) if not grav else mul(ct, add(ONE, scale(mul(ct, g), 0.25)))

            def same(name, got, want, what):
                ctx.cover(obligations=1)
                if not sym.equal(got, want):
                    bad('Cosmos::%s' % name, fn(name), '%s is %s instead of %s = %s (%s)' % (name, sym.show(got)[:120], what, sym.show(want)[:120], who))
            same('R', R, wR, 'the scale factor')
            same('Rp', M.get('Rp', ct), mul(diff(wR, c), inv(wR)), 'R\'/R')
            same('Rpp', M.get('Rpp', ct), mul(diff(diff(wR, c), c), inv(wR)), 'R\'\'/R')
            m2 = mass2(wR, th, xr, n, nr, 'plateau' if regime == 'saturated' else regime)
            same('AxionMass2', M.get('AxionMass2', ct), m2, 'the mass')
            same('DAxionMass2Dct', M.get('DAxionMass2Dct', ct), diff(m2, c), 'd m^2/dct')
            want = mul(mul(ct, add(mul(diff(m2, c), inv(scale(m2, 2))), mul(diff(wR, c), inv(wR)))), ONE)
            same('DlogMARDlogct', M.get('DlogMARDlogct', ct), want, 'dlog(mR)/dlogct')
            for e in (0, 2):
                M.mem[mk('cosmos')][co['lz2e']] = C(e)
                lam = mul(a_('lambda'), power(inv(wR), e))
                same('LambdaP', M.get('LambdaP', ct), lam, 'lambda/R^%d' % e)
                for pn, k in (('V_PQ1', 2), ('V_PQ2', 8), ('V_PQ3', 2)):
                    M.mem[mk('cosmos')][co['pot']] = C(E['VqcdType_s'][pn])
                    same('SaxionMass2', M.get('SaxionMass2', ct), scale(lam, k), '%d lambda' % k)
            if not grav: scalar(ctx, M, bad, co, sc, E, frw, n, nr, regime, wR, th, m2, who)


def scalar(ctx, M, bad, co, sc, E, frw, n, nr, regime, wR, th, m2, who):
    ct = a_('ct'); c = A('ct')
    cos, me = M.mem[mk('cosmos')], mk('scalar')
    cos[co['pot']] = C(E['VqcdType_s']['V_QCD1_PQ1']); cos[co['lz2e']] = C(2)
    zp, rp = mk('zptr'), mk('rptr')
    M.acc = {'zV': atom_poly(zp), 'RV': atom_poly(rp), 'Length': C(64), 'Size': C(64 ** 3), 'Depth': C(64)}
    mem = {sc['bckgnd']: atom_poly(mk('cosmos')), sc['z']: atom_poly(zp), sc['R']: atom_poly(rp), sc['n1']: C(64)}
    M.mem[me] = mem; M.mem[zp] = {0: ct}; M.mem[rp] = {0: wR}

    def same(name, nargs, got, want, what):
        ctx.cover(obligations=1)
        f = M.fns[('Scalar', name, nargs)]
        if not sym.equal(got, want): bad('Scalar::%s/%d' % (name, nargs - 1), f, '%s is %s instead of %s = %s (%s)' % (name, sym.show(got)[:120], what, sym.show(want)[:120], who))
    lam = mul(a_('lambda'), power(inv(wR), 2))
    same('HubbleConformal', 1, M.sget('HubbleConformal'), mul(diff(wR, c), inv(wR)), 'R\'/R')
    for nm in ('HubbleMassSq', 'Rpp'): same(nm, 1, M.sget(nm), mul(diff(diff(wR, c), c), inv(wR)), 'R\'\'/R')
    same('AxionMassSq', 1, M.sget('AxionMassSq'), m2, 'the mass squared now')
    same('AxionMass', 1, M.sget('AxionMass'), sym.sqrt(m2), 'the mass now')
    same('LambdaP', 1, M.sget('LambdaP'), lam, 'lambda now')
    same('SaxionMassSq', 1, M.sget('SaxionMassSq'), scale(lam, 2), 'the saxion mass squared now')
    same('Msa', 1, M.sget('Msa'), mul(sym.sqrt(scale(lam, 2)), scale(mul(wR, a_('L')), 1.0 / 64)), 'saxion mass times spacing')
    # with a time: nothing of the present enters
    M.mem[zp] = {0: a_('znow')}; M.mem[rp] = {0: a_('Rnow')}
    M.env[A('znow')], M.env[A('Rnow')] = 1.1, 1.1 ** frw
    same('AxionMassSq', 2, M.sget('AxionMassSq', ct), m2, 'the mass squared then')
    same('AxionMass', 2, M.sget('AxionMass', ct), sym.sqrt(m2), 'the mass then')
    same('SaxionMassSq', 2, M.sget('SaxionMassSq', ct), scale(lam, 2), 'the saxion mass squared then')
    for pq in ('V_QCD1_PQ1', 'V_QCD1_PQ2', 'V_QCD2_PQ1'):
        if pq not in E['VqcdType_s']: continue
        cos[co['pot']] = C(E['VqcdType_s'][pq])
        for nm in ('SaxionShift', 'Saskia'):
            if ('Scalar', nm, 2) not in M.fns: continue
            M.mem[zp] = {0: a_('znow')}
            v = M.sget(nm, ct)
            M.mem[zp] = {0: ct}
            w = M.sget(nm)
            same(nm, 2, v, w, 'its value at that time (%s)' % pq)
    M.mem[zp] = {0: a_('znow')}
    cos[co['pot']] = C(E['VqcdType_s']['V_QCD1_PQ1'])
    if regime in ('before', 'saturated'): stepsize(ctx, M, bad, co, sc, E, frw, wR, th, m2, lam, who, regime)
    integrals(ctx, M, bad, co, frw, n, wR, th, who, regime)


WDZ = 1e-7      # small enough that no step crosses the saturation


def stepsize(ctx, M, bad, co, sc, E, frw, wR, th, m2, lam, who, regime):
    """dzSize: safety factor over the largest frequency on the lattice"""
    ct = a_('ct')
    f = M.fns[('Scalar', 'dzSize', 2)]
    ft = E['FieldType_s']
    k2 = scale(power(inv(a_('L')), 2), 12 * 64 ** 2)
    for t in ('FIELD_SAXION', 'FIELD_AXION', 'FIELD_AXION_MOD', 'FIELD_NAXION', 'FIELD_PAXION'):
        for pq, fac in (('V_QCD1_PQ1', 1), ('V_QCD1_PQ2', 4)):
            for L in (6.0, 6000.0):
                M.env[A('L')] = L
                M.env[A('wDz')] = WDZ
                M.mem[mk('scalar')][sc['fieldType']] = C(ft[t])
                M.mem[mk('cosmos')][co['pot']] = C(E['VqcdType_s'][pq])
                M.globs = {'wDz': a_('wDz')}
                got = M.sget('dzSize', ct)
                ctx.cover(obligations=1)
                m2R2 = mul(m2, power(wR, 2))
                wa = sym.sqrt(add(m2R2, k2))
                ws = sym.sqrt(add(scale(mul(lam, power(wR, 2)), 2 * fac), k2))
                if t == 'FIELD_SAXION': ws_ = [wa, ws] + ([] if frw < 2 else [scale(power(inv(ct), 2), frw * (frw - 1))])
                elif t in ('FIELD_NAXION', 'FIELD_PAXION'): ws_ = [mul(k2, inv(add(wa, sym.sqrt(m2R2))))]
                else: ws_ = [wa]
                vals = [num(w, M.env) for w in ws_]
                v = num(got, M.env)
                if v > WDZ / max(vals) * (1 + 1e-6): bad('dzSize/%s/large' % t, f, 'the time step of a %s field is %.4g of the safety factor, more than the %.4g of its fastest mode (%s)' % (t, v / WDZ, 1 / max(vals), who))
                elif v < WDZ / max(vals) * (1 - 1e-6): bad('dzSize/%s/small' % t, f, 'the time step of a %s field is %.4g of the safety factor instead of %.4g (%s)' % (t, v / WDZ, 1 / max(vals), who))
                elif A('znow') in sym.allatoms(got): bad('dzSize/%s/now' % t, f, 'the time step at a given time depends on the present time')


def integrals(ctx, M, bad, co, frw, n, wR, th, who, regime):
    if regime not in ('before', 'saturated'): return
    for nn in (0, 2, 3):
        for z0, z1, T in ((1.0, 1.4, 2.0), (1.0, 1.4, 1.2), (1.3, 1.4, 1.2), (1.4, 1.0, 2.0), (1.4, 1.0, 1.2), (1.4, 1.3, 1.2)):
            M.env[A('z0')], M.env[A('z1')] = z0, z1
            M.env[A('T')], M.env[A('X')] = T, 0.5 if regime == 'saturated' else 50.0
            if frw == 0:
                if (z0 > T) != (z1 > T): continue
                M.env[A('th')] = 2.0 if z0 < T else 0.5
            s, c = a_('s'), A('s')
            Rs = power(s, frw)
            i2 = power(a_('indi3'), 2)
            below = mul(mul(i2, power(Rs, n)), power(Rs, nn))
            above = mul(mul(i2, power(th, n)), power(Rs, nn))

            def I(f, x, y): q = integ(f, c); return sub(at_(q, c, y), at_(q, c, x))
            x, y, T_ = a_('z0'), a_('z1'), a_('T')
            lo = lambda v: v < T
            if lo(z0) == lo(z1): parts = [(below if lo(z0) else above, x, y)]
            else: parts = [(below if lo(z0) else above, x, T_), (above if lo(z0) else below, T_, y)]
            if frw == 0: parts = [(below if z0 < T else above, x, y)]
            w1, w2 = ZERO, ZERO
            for f, p, q in parts:
                w1 = add(w1, I(f, p, q))
                w2 = add(w2, sub(mul(y, I(f, p, q)), I(mul(s, f), p, q)))
            for nm, w in (('IAxionMassSqn', w1), ('IIAxionMassSqn', w2)):
                F = M.fns.get(('Scalar', nm, 4))
                ctx.need(F is not None, 'Scalar::%s not found' % nm)
                got = M.sget(nm, x, y, C(nn))
                ctx.cover(obligations=1)
                if got is None or not sym.equal(got, w):
                    side = 'before saturation' if lo(z0) and lo(z1) else 'after saturation' if not lo(z0) and not lo(z1) else 'across saturation'
                    bad('%s/%s' % (nm, side.replace(' ', '-')), F, '%s %s is %s instead of %s (exponents %d of R, %d of the mass, %d)' % (nm, side, sym.show(got)[:150], sym.show(w)[:150], frw, n, nn))


def tables(ctx, M, bad, co, ic):
    """tabulated cosmology: finite differences are exact on linear tables"""
    ct = a_('ct'); c = A('ct')
    M.env = {A('ct'): 2.0, A('a'): 1.0, A('b'): 0.5, A('p'): 1.5, A('q'): 0.25, A('rpp'): 0.8}
    lin = lambda a, b: lambda x: add(a_(a), mul(a_(b), x))
    sq = lambda a, b: lambda x: power(add(a_(a), mul(a_(b), x)), 2)
    for chi, mass in ((lin('p', 'q'), lambda x: None), (sq('p', 'q'), lin('p', 'q'))):
        setup(M, co, ic, 1, 7, 7, a_('T'), a_('X'), C(-1), ue=1)
        M.tabs = {mk('cosmos'): {co['sR']: lin('a', 'b'), co['schi']: chi, co['sRpp']: lambda x: a_('rpp')}}
        R = add(a_('a'), mul(a_('b'), ct))
        fn = lambda n: M.fns[('Cosmos', n, 2)]

        def same(name, got, want, what):
            ctx.cover(obligations=1)
            near = True
            for v in (2.0, 0.7, 3.1):      # the roots do not cancel symbolically: the two expressions are compared at three times
                M.env[A('ct')] = v
                g, w = num(got, M.env), num(want, M.env)
                near = near and abs(g - w) <= 1e-5 * abs(w) + 1e-9
            M.env[A('ct')] = 2.0
            if not sym.equal(got, want) and not near: bad('Cosmos::%s/table' % name, fn(name), '%s with tabulated cosmology is %s instead of %s = %s' % (name, sym.show(got)[:120], what, sym.show(want)[:120]))
        same('R', M.get('R', ct), R, 'the table')
        same('Rp', M.get('Rp', ct), mul(a_('b'), inv(R)), 'R\'/R')
        same('Rpp', M.get('Rpp', ct), mul(a_('rpp'), power(inv(ct), 2)), 'the table over ct^2')
        same('AxionMass2', M.get('AxionMass2', ct), chi(ct), 'the table')
        if mass(ct) is None:
            same('DAxionMass2Dct', M.get('DAxionMass2Dct', ct), a_('q'), 'd m^2/dct')
        else:
            # constant R: the derivative of the mass alone; constant mass: that of R alone
            for r, m, want in ((lambda x: a_('a'), sq('p', 'q'), mul(mul(ct, a_('q')), inv(add(a_('p'), mul(a_('q'), ct))))), (lin('a', 'b'), lambda x: power(a_('p'), 2), mul(mul(ct, a_('b')), inv(R)))):
                M.tabs = {mk('cosmos'): {co['sR']: r, co['schi']: m, co['sRpp']: lambda x: a_('rpp')}}
                same('DlogMARDlogct', M.get('DlogMARDlogct', ct), want, 'dlog(mR)/dlogct')
