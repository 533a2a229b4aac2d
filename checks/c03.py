"""Evolution kernels implement the documented equation of motion, for every variant and both precisions."""
import re
import jx, sym, kern
from kern import *

LEVEL = 'other'
EXPLANATION = ('Every instantiated evolution kernel is reduced, per precision, to a normal form (gated-SSA value numbering over real '
               'arithmetic) of what it stores into field and velocity as a function of the site values, the neighbour sum and the '
               'parameters; that normal form is compared, identically and for all values, with the equation of motion of its variant.')
RULES = []


def enums(P): return P.enum('VqcdType_s')


class Env:
    """symbols a specification may use"""
    def __init__(s, V, vq):
        s.V, s.vq = V, vq

    def has(s, n): return bool(s.vq & s.V[n])

    def __getattr__(s, n):
        if n.startswith('pp_'): return S('pp.' + n[3:])
        raise AttributeError(n)


def PCsum(): return summation('pc', At('ld', add(scale(ksym('pc'), 8), S('pp.PC'))), S('pp.Ng'))


def lap(N, m, weight):
    """Laplacian of one component from the sum N of one neighbour (all equal) and the centre"""
    return mul(scale(mul(S('pp.ood2a'), weight), 6), sub(N, m))


def saxion_rate(e, m, v, L, dzc, theta=True, rho_qcd=False):
    """velocity after the kick; m, v, L: (re, im)"""
    R, LL, Rpp, Rp, mA2 = e.pp_R, e.pp_lambda, e.pp_Rpp, e.pp_Rp, e.pp_massA2
    V = e.V
    R2 = mul(R, R); R3 = mul(R2, R); R4 = mul(R2, R2)
    rho2 = add(mul(m[0], m[0]), mul(m[1], m[1]))
    i2 = inv(rho2)
    th = theta and e.has('V_EVOL_THETA')
    if th: a = list(L)
    else:
        pq = e.vq & V['V_PQ']
        if pq == V['V_PQ1']: p = mul(LL, sub(rho2, R2))
        elif pq == V['V_PQ2']: p = mul(mul(scale(div(LL, R4), 2), rho2), sub(mul(rho2, rho2), R4))
        else: raise jx.Broken('variant %d: unknown PQ potential' % e.vq)
        a = [sub(L[i], mul(m[i], sub(p, Rpp))) for i in (0, 1)]
    if rho_qcd or not e.has('V_EVOL_RHO'):
        q = e.vq & V['V_QCD']
        if q == V['V_QCD1']: a[0] = add(a[0], mul(mA2, R3))
        elif q == V['V_QCDV']:
            z = mul(mA2, R3)
            a = [add(a[0], mul(z, sub(R, m[0]))), sub(a[1], mul(z, m[1]))]
        elif q == V['V_QCD2']:
            z = scale(mul(mA2, R2), 0.5)
            a = [add(a[0], mul(z, m[0])), sub(a[1], mul(z, m[1]))]
        elif q == V['V_QCDC']:
            z = mul(mul(mA2, R4), inv(mul(rho2, sqrt(rho2))))
            a = [add(a[0], mul(z, mul(m[1], m[1]))), sub(a[1], mul(z, mul(m[0], m[1])))]
        elif q == V['V_QCDL']:
            return None
        elif q != V['V_QCD0']: raise jx.Broken('variant %d: unknown QCD potential' % e.vq)
    if th:
        t = (neg(m[1]), m[0])
        def proj(x, d): 
            k = mul(add(mul(x[0], t[0]), mul(x[1], t[1])), i2)
            return [add(mul(t[i], k), mul(m[i], d)) for i in (0, 1)]
        a = proj(a, Rpp); v = proj(v, Rp)
    g = div(e.pp_gamma, R)
    deti = e.pp_dectime
    pos = sym._lt0(neg(deti), False)
    g = sel(pos, mul(g, div(R2, deti)), g)
    mola = scale(mul(g, dzc), 0.5)
    d = e.vq & V['V_DAMP']
    if d == 0: w = [add(v[i], mul(a[i], dzc)) for i in (0, 1)]
    elif d == V['V_DAMP_RHO']:
        eps = div(mola, add(ONE, mola))
        mv = add(mul(m[0], v[0]), mul(m[1], v[1])); ma = add(mul(m[0], a[0]), mul(m[1], a[1]))
        k = mul(mul(eps, i2), add(scale(sub(mv, mul(rho2, Rp)), 2), mul(ma, dzc)))
        w = [sub(add(v[i], mul(a[i], dzc)), mul(m[i], k)) for i in (0, 1)]
    elif d == V['V_DAMP_ALL']:
        d1 = inv(add(ONE, mola))
        w = [add(mul(v[i], mul(sub(ONE, mola), d1)), mul(a[i], mul(d1, dzc))) for i in (0, 1)]
    else: raise jx.Broken('variant %d: unknown damping' % e.vq)
    if e.has('V_EVOL_RHO'):
        k = mul(add(mul(m[0], w[0]), mul(m[1], w[1])), i2)
        w = [mul(m[i], k) for i in (0, 1)]
    return w


def divides(p, d):
    """constant remainder of p modulo d when every other coefficient is a multiple of d"""
    r = 0
    for m, c in p.t.items():
        if not m: r = c % d if isinstance(c, int) else None
        elif not isinstance(c, int) or c % d: return None
    return r


def run(ctx):
    P = jx.Program(['lib/propagator/propagator.cpp'], 'kern', ['--keep=' + KEEP], defs=DEFS)
    parts(ctx, lambda: Check(ctx, P))
    ctx.floor('lanes_compared', ctx.cov.get('lanes_compared', 0), 1000)


def parts(ctx, make, n=8):
    def one(w):
        c = make(); c.part = (w, n); c.run()
    ctx.par(range(n), one)


KEEP = r'^(void )?[A-Za-z0-9]+Xeon(<|\()'
DEFS = ['USE_PROP_LEAP', 'USE_PROP_MLEAP', 'USE_PROP_OM2', 'USE_PROP_OM4']
PREC = ('FIELD_DOUBLE', 'FIELD_SINGLE')


def A(n): return At('arg', n)


class Check:
    def __init__(s, ctx, P):
        s.ctx, s.P = ctx, P
        s.V, s.FP = P.enum('VqcdType_s'), P.enum('FieldPrecision_s')
        s.count = {}
        s.part, s.turn = (0, 1), 0
        s.lanes = 0

    def kernels(s, pat):
        for f in s.P.all:
            m = re.match(pat, f.dem)
            if m:
                for pn in PREC:
                    s.turn += 1
                    if s.turn % s.part[1] != s.part[0]: continue
                    yield f, m, pn, Kernel(s.P, f, {'precision': C(s.FP[pn])})

    def cmp(s, f, pn, w, what, got, want, alts=()):
        """want: the documented form; alts: [(tag, form)] deviations already recorded as findings"""
        s.lanes += 1
        if equal(got, want): return
        b = re.sub(r'AxionEnum::|\s', '', f.short)
        for tag, q in alts:
            if q is not None and equal(got, q):
                s.ctx.violation('%s/%s' % (re.sub(r'<.*', '', b.replace('void', '')), tag), w.where(),
                                '%s does not follow the documented equation: %s' % (f.short, tag))
                return
        s.ctx.violation('%s/%s/%s' % (b, pn, what.split()[0]), w.where(),
                        '%s (%s): the %s written differs from the equation of motion of this variant' % (f.short, pn, what))
        if getattr(s.ctx, 'verbose', 0):
            print(f.short, pn, what, '\n GOT ', str(got)[:1500], '\n WANT', str(want)[:1500])

    def one(s, K, root):
        st = [x for x in K.field_stores([root])]
        s.ctx.need(len(st) >= 1, '%s: no store to %s found' % (K.f.short, root))
        if len(st) > 1:
            a0 = st[0][2]
            s.ctx.need(False, '%s: %d separate stores to %s' % (K.f.short, len(st), root))
        return st[0]

    def tally(s, n): s.count[n] = s.count.get(n, 0) + 1

    def vq(s, m): return int(m.group(1))

    # -- Saxion, explicit Laplacian: v and m2 from m --------------------------------------------------------------
    def propagate(s):
        for f, mt, pn, K in s.kernels(r'void propagateKernelXeon<\(AxionEnum::VqcdType_s\)(\d+)>'):
            s.tally('propagateKernelXeon')
            e = Env(s.V, s.vq(mt))
            _, wm, Am, gm, valm, esz = s.one(K, 'm2_')
            _, wv, Av, gv, valv, _ = s.one(K, 'v_')
            a = rebase(Am, 'm2_', 'm_')
            s.place(K, wv, Av, rebase(Am, 'm2_', 'v_'), neg(scale(NSf(), 2 * esz)))
            dz, c, d = A('dz'), A('c'), A('d')
            for l, m, v, can in s.sites(K, valm, a, Av, esz):
                L = [lap(S('N%d' % i), m[i], PCsum()) for i in (0, 1)]
                w = saxion_rate(e, m, v, L, mul(dz, c))
                alts = []
                if w is None: w, alts = s.qcdl(e, m, v, L, mul(dz, c))
                for i in (0, 1):
                    s.cmp(f, pn, wv, 'velocity (lane %d)' % (l + i), can(valv[l + i]), w[i], [(t, q[i]) for t, q in alts])
                    mm = lambda q: add(m[i], mul(mul(dz, d), q[i]))
                    s.cmp(f, pn, wm, 'field (lane %d)' % (l + i), can(valm[l + i]), mm(w), [(t, mm(q)) for t, q in alts])

    def qcdl(s, e, m, v, L, dzc, **kw):
        """documented: V = m_A^2 R^3/2 * phase^2 ... (linear force along the phase); the code falls through"""
        b = Env(s.V, (e.vq & ~s.V['V_QCD']) | s.V['V_QCD0'])
        cs = Env(s.V, (e.vq & ~s.V['V_QCD']) | s.V['V_QCDC'])
        R2 = mul(e.pp_R, e.pp_R)
        rho2 = add(mul(m[0], m[0]), mul(m[1], m[1]))
        none = saxion_rate(b, m, v, L, dzc, **kw)
        cos = saxion_rate(cs, m, v, L, dzc, **kw)
        th = fn('atan2', m[1], m[0])
        k = mul(mul(e.pp_massA2, mul(R2, R2)), mul(th, inv(rho2)))
        want = [sub(none[0], mul(neg(k), mul(m[1], dzc))), sub(none[1], mul(k, mul(m[0], dzc)))]
        return want, [('linear-QCD-ignored', none), ('linear-QCD-as-cosine', cos)]

    def sites(s, K, vals, a, Av, esz, nb=True, extra=None):
        n = len(vals)
        tab = {}
        for l in range(n):
            tab[mk('ld', add(a, C(l * esz)))] = S('m%d' % l)
            if Av is not None: tab[mk('ld', add(Av, C(l * esz)))] = S('v%d' % l)
            if extra is not None: tab[mk('ld', add(extra, C(l * esz)))] = S('x%d' % l)
        for l in range(0, n, 2):
            def nbf(ad):
                r = divides(sub(ad, a), 2 * esz)
                return None if r is None else S('N%d' % (r // esz))
            m = [S('m%d' % (l + i)) for i in (0, 1)]; v = [S('v%d' % (l + i)) for i in (0, 1)]
            yield l, m, v, (lambda p: canon(p, K, tab, {'m_': nbf} if nb else {}))

    def place(s, K, w, got, base, off):
        d = canon(sub(got, base), K, {})
        if not equal(d, off):
            s.ctx.violation(re.sub(r'AxionEnum::|\s', '', K.f.short) + '/place', w.where(),
                            '%s: the velocity is stored %s bytes from the field of its site instead of %s' % (K.f.short, str(d)[:200], off))

    # -- Saxion, low-memory kick ------------------------------------------------------------------------------------
    def update_v(s):
        for f, mt, pn, K in s.kernels(r'void updateVXeon<\(AxionEnum::VqcdType_s\)(\d+)>'):
            s.tally('updateVXeon')
            e = Env(s.V, s.vq(mt))
            _, wv, Av, gv, valv, esz = s.one(K, 'v_')
            a = subst(add(rebase(Av, 'v_', 'm_'), scale(NSf(), 2 * esz)), inverse(K))
            dzc = mul(A('dz'), A('c'))
            for l, m, v, can in s.sites(K, valv, a, Av, esz):
                L = [lap(S('N%d' % i), m[i], PCsum()) for i in (0, 1)]
                s.kick(f, pn, e, wv, valv, l, m, v, L, dzc, can)

    def kick(s, f, pn, e, wv, valv, l, m, v, L, dzc, can, then=None):
        w = saxion_rate(e, m, v, L, dzc)
        alts = []
        if w is None: w, alts = s.qcdl(e, m, v, L, dzc)
        for tag, kw in (('theta-only-evolution-ignored', dict(theta=False)), ('QCD-kept-under-radial-evolution', dict(rho_qcd=True))):
            if (tag[0] == 't' and not e.has('V_EVOL_THETA')) or (tag[0] == 'Q' and not e.has('V_EVOL_RHO')): continue
            q = saxion_rate(e, m, v, L, dzc, **kw)
            if q is None: alts += [(t, x) for t, x in s.qcdl(e, m, v, L, dzc, **kw)[1]]
            else: alts.append((tag, q))
        for i in (0, 1):
            s.cmp(f, pn, wv, 'velocity (lane %d)' % (l + i), can(valv[l + i]), w[i], [(t, q[i]) for t, q in alts])
            if then:
                valm, wm, dzd = then
                mm = lambda q: add(m[i], mul(dzd, q[i]))
                s.cmp(f, pn, wm, 'field (lane %d)' % (l + i), can(valm[l + i]), mm(w), [(t, mm(q)) for t, q in alts])

    # -- Saxion, spectral Laplacian ---------------------------------------------------------------------------------
    def sprop(s):
        for f, mt, pn, K in s.kernels(r'void sPropKernelXeon<\(AxionEnum::VqcdType_s\)(\d+)>'):
            s.tally('sPropKernelXeon')
            e = Env(s.V, s.vq(mt))
            _, wv, Av, gv, valv, esz = s.one(K, 'v_')
            _, wm, Am, gm, valm, _ = s.one(K, 'm_')
            Lx = S('pp.Lx')
            s.place(K, wv, Av, rebase(Am, 'm_', 'v_'), neg(scale(mul(Lx, Lx), 2 * esz)))
            dz, c, d = A('dz'), A('c'), A('d')
            for l, m, v, can in s.sites(K, valv, Am, Av, esz, nb=False, extra=rebase(Av, 'v_', 'm2_')):
                L = [mul(S('pp.fMom1'), S('x%d' % (l + i))) for i in (0, 1)]
                s.kick(f, pn, e, wv, valv, l, m, v, L, mul(dz, c), can, (valm, wm, mul(dz, d)))

    # -- drifts -----------------------------------------------------------------------------------------------------
    def drift(s):
        for name, per in (('updateMXeon', 2), ('updateMThetaXeon', 1)):
            for f, mt, pn, K in s.kernels(name + r'\('):
                s.tally(name)
                _, wm, Am, gm, valm, esz = s.one(K, 'm_')
                Av = sub(rebase(Am, 'm_', 'v_'), scale(A('Vo'), per * esz))
                for l in range(len(valm)):
                    tab = {mk('ld', add(Am, C(l * esz))): S('m'), mk('ld', add(Av, C(l * esz))): S('v')}
                    s.cmp(f, pn, wm, 'field (lane %d)' % l, canon(valm[l], K, tab), add(S('m'), mul(mul(A('dz'), A('d')), S('v'))))

    # -- axion (angle only) -------------------------------------------------------------------------------------------
    def theta(s):
        for f, mt, pn, K in s.kernels(r'void propThetaKernelXeon<(\w+), \(AxionEnum::VqcdType_s\)(\d+)>'):
            s.tally('propThetaKernelXeon')
            wmod, q = mt.group(1) == 'true', int(mt.group(2))
            _, wm, Am, gm, valm, esz = s.one(K, 'm2_')
            _, wv, Av, gv, valv, _ = s.one(K, 'v_')
            a = rebase(Am, 'm2_', 'm_')
            s.place(K, wv, Av, rebase(Am, 'm2_', 'v_'), neg(scale(NSf(), esz)))
            R, mA2, Rpp = S('pp.R'), S('pp.massA2'), S('pp.Rpp')
            dzc, dzd = mul(A('dz'), A('c')), mul(A('dz'), A('d'))
            tp = s.twopi(R)
            for l in range(len(valm)):
                tab = {mk('ld', add(a, C(l * esz))): S('m'), mk('ld', add(Av, C(l * esz))): S('v')}
                nb = lambda ad: S('N') if divides(sub(ad, a), esz) is not None else None
                m, v = S('m'), S('v')
                if wmod: L = None
                got = canon(valv[l], K, tab, {'m_': nb})
                L = lap(S('N'), m, PCsum())
                if wmod:
                    L = scale(mul(mul(S('pp.ood2a'), PCsum()), s.modf(sub(S('N'), m), tp, pn)), 6)
                w = add(v, mul(dzc, s.theta_acc(q, m, L, R, mA2, Rpp)))
                alts = []
                if q == s.V['V_QCDL']:
                    th = div(m, R)
                    x = scale(mul(mul(th, th), S('pp.beta')), 0.1666667)
                    force = mul(th, sub(ONE, sub(x, scale(mul(x, x), 0.3))))
                    alts.append(('linear-QCD-not-linear-in-single-precision', add(v, mul(dzc, sub(add(L, mul(Rpp, m)), mul(mul(mA2, mul(R, mul(R, R))), force))))))
                fin = lambda w: s.modf(add(m, mul(dzd, w)), tp, pn) if wmod else add(m, mul(dzd, w))
                s.cmp(f, pn, wv, 'velocity (lane %d)' % l, got, w, alts)
                s.cmp(f, pn, wm, 'field (lane %d)' % l, canon(valm[l], K, tab, {'m_': nb}), fin(w), [(t, fin(x)) for t, x in alts])

    def twopi(s, R): return scale(R, 6.283185307179586)

    def modf(s, x, per, pn): return fn('mod', x, per)

    def theta_acc(s, q, m, L, R, mA2, Rpp):
        V = s.V
        z = mul(mA2, mul(R, mul(R, R)))
        a = add(L, mul(Rpp, m))
        th = div(m, R)
        if q == V['V_QCD0']: return a
        if q == V['V_QCDL']: return sub(a, mul(z, th))
        if q == V['V_QCDC']: return sub(a, mul(z, fn('sin', th)))
        if q == V['V_QCDS']:
            pi = C(3.141592653589793)
            return sub(a, mul(z, fn('sin', sym.fmax(neg(pi), sym.fmin(pi, th, False), False))))
        raise jx.Broken('angle kernel: unknown QCD potential %d' % q)

    # -- axion, spectral Laplacian ------------------------------------------------------------------------------------
    def stheta(s):
        for f, mt, pn, K in s.kernels(r'sPropThetaKernelXeon\('):
            s.tally('sPropThetaKernelXeon')
            _, wm, Am, gm, valm, esz = s.one(K, 'm_')
            _, wv, Av, gv, valv, _ = s.one(K, 'v_')
            Lx = A('Lx')
            s.place(K, wv, Av, rebase(Am, 'm_', 'v_'), neg(scale(mul(Lx, Lx), esz)))
            site = sym.Poly({k: c // esz for k, c in sub(Av, A('v_')).t.items()})
            a2 = add(A('m2_'), scale(add(sym.mod(site, Lx), mul(sym.fdiv(site, Lx), add(Lx, A('pad')))), esz))
            R = At('ld', A('R'))
            dzc, dzd = mul(A('dz'), A('c')), mul(A('dz'), A('d'))
            for l in range(len(valm)):
                tab = {mk('ld', add(Am, C(l * esz))): S('m'), mk('ld', add(Av, C(l * esz))): S('v'), mk('ld', add(a2, C(l * esz))): S('x')}
                m, v = S('m'), S('v')
                w = add(v, mul(dzc, s.theta_acc(s.V['V_QCDC'], m, mul(A('fMom'), S('x')), R, A('aMass2'), A('Rpp'))))
                s.cmp(f, pn, wv, 'velocity (lane %d)' % l, canon(valv[l], K, tab), w)
                s.cmp(f, pn, wm, 'field (lane %d)' % l, canon(valm[l], K, tab), add(m, mul(dzd, w)))

    # -- non-relativistic axion ---------------------------------------------------------------------------------------
    def nax(s):
        for f, mt, pn, K in s.kernels(r'void propagateNaxKernelXeon<\(AxionEnum::VqcdType_s\)(\d+)>'):
            s.tally('propagateNaxKernelXeon')
            _, wm, Am, gm, valm, esz = s.one(K, 'm2_')
            a = rebase(Am, 'm2_', 'm_')
            dz, d, R = A('dz'), A('d'), S('pp.R')
            for l, m, v, can in s.sites(K, valm, a, None, esz):
                w = div(mul(dz, mul(d, S('pp.ood2a'))), scale(mul(S('pp.massA'), R), 2))
                L = [scale(mul(mul(w, PCsum()), sub(S('N%d' % i), m[i])), 6) for i in (0, 1)]
                p = [sub(m[0], L[1]), add(m[1], L[0])]
                ang = mul(s.phase(f, pn), add(mul(p[0], p[0]), mul(p[1], p[1])))
                c, sn = fn('cos', ang), fn('sin', ang)
                want = [sub(mul(p[0], c), mul(p[1], sn)), add(mul(p[1], c), mul(p[0], sn))]
                for i in (0, 1):
                    s.cmp(f, pn, wm, 'field (lane %d)' % (l + i), can(valm[l + i]), want[i])

    def phase(s, f, pn):
        """exact phase over one drift: integral of beta/(4 R^2) with R a power law of time"""
        return s.powphase(mul(A('dz'), A('d')), 4)

    def powphase(s, dt, k):
        ct, R = S('pp.ct'), S('pp.R')
        u = sub(scale(S('pp.frw'), 2), ONE)
        t1, t0 = sym.fpow(add(ct, dt), u), sym.fpow(ct, u)
        return div(mul(mul(ct, S('pp.beta')), sub(t1, t0)), scale(mul(mul(mul(R, R), u), t1), k))

    def paxphase(s, dz): return mul(S('pp.sign'), s.powphase(dz, 8))

    def dzp(s, dz):
        """integral of dt/(m_A R) relative to its present value, m_A R a power law of time"""
        ct, n = S('pp.ct'), S('pp.n')
        al = sub(n, ONE)
        r = add(ONE, div(dz, ct))
        near = sym._lt0(sub(sym.fabs(al), C(0.01)), False)
        return sel(near, mul(ct, fn('log', r)), mul(div(ct, al), sub(ONE, sym.fpow(r, neg(al)))))

    def pax(s):
        kd = {v: k for k, v in s.P.enum('KickDriftType_s').items()}
        for f, mt, pn, K in s.kernels(r'void propagatePaxKernelXeon<\(AxionEnum::KickDriftType_s\)(\d+)>'):
            s.tally('propagatePaxKernelXeon')
            kind = kd[int(mt.group(1))]
            _, wv, Av, gv, valv, esz = s.one(K, 'v_')
            a = rebase(Av, 'v_', 'm_')
            dz, R, ct = A('dz'), S('pp.R'), S('pp.ct')
            for l in range(len(valv)):
                tab = {mk('ld', add(a, C(l * esz))): S('m'), mk('ld', add(Av, C(l * esz))): S('v'), mk('ld', add(rebase(a, 'm_', 'm2_'), C(l * esz))): S('g')}
                nb = lambda ad: S('N') if divides(sub(ad, a), esz) is not None else None
                m, v = S('m'), S('v')
                if kind == 'KIDI_LAP':
                    w = div(mul(mul(S('pp.sign'), s.dzp(dz)), S('pp.ood2a')), scale(mul(S('pp.massA'), R), 2))
                    want = add(v, scale(mul(mul(w, PCsum()), sub(S('N'), m)), 6))
                    s.cmp(f, pn, wv, 'velocity (lane %d)' % l, canon(valv[l], K, tab, {'m_': nb}), want)
                else:
                    s.ctx.need(kind in ('KIDI_POT', 'KIDI_POT_GRAV'), 'unknown kick/drift kind ' + kind)
                    _, wm, Am, gm, valm, _ = s.one(K, 'm_')
                    if l == 0: s.place(K, wm, Am, a, ZERO)
                    ang = mul(s.paxphase(dz), add(mul(m, m), mul(v, v)))
                    if kind == 'KIDI_POT_GRAV': ang = sub(ang, mul(mul(mul(S('pp.massA'), S('pp.grav')), dz), S('g')))
                    c, sn = fn('cos', ang), fn('sin', ang)
                    s.cmp(f, pn, wm, 'real part (lane %d)' % l, canon(valm[l], K, tab), sub(mul(c, m), mul(sn, v)))
                    s.cmp(f, pn, wv, 'imaginary part (lane %d)' % l, canon(valv[l], K, tab), add(mul(c, v), mul(sn, m)))

    def run(s):
        s.propagate(); s.update_v(); s.sprop(); s.drift(); s.theta(); s.stheta(); s.nax(); s.pax()
        s.ctx.cover(kernel_instances=s.count, lanes_compared=s.lanes)


def NSf():
    Lx = S('pp.Lx')
    return mul(mul(Lx, Lx), S('pp.Ng'))


def inverse(K): return {list(q.t)[0][0][0]: atom_poly(a) for a, q in K.mp.items()}
