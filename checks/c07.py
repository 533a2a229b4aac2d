"""Finite-difference stencil: on small lattices every site's update reads exactly its periodic neighbours, once each, with the weight of their distance."""
import re
import jx, sym, kern, sweep, c03
from kern import *
from sweep import *

LEVEL = 'other'
EXPLANATION = ('The closed forms of loop bounds, guards, addresses and stored values of every neighbour-reading sweep are instantiated on small periodic '
               'lattices; at each site the stored value (a polynomial over the individual field elements) must equal the equation of motion with the '
               'Laplacian built from the true neighbours of the folded layout, all wrap-arounds and SIMD lane rotations included.')
RULES = ['index(x,y,z): z*Lx^2 + yC*(Lx*sh) + x*sh + lane with y = yC + lane*(Lx/sh), sh sites per vector',
         'Laplacian = ood2a * sum_n PC[n-1] * (sum over x+-n, y+-n, z+-n, periodic in x and y, minus 6 times the centre)']


class Layout:
    """folded layout of one array: per components, elemsize bytes, sh sites per vector"""
    def __init__(s, Lx, sh, per, esz): s.Lx, s.sh, s.per, s.esz = Lx, sh, per, esz

    def pos(s, i):
        """global site position -> (x, y, z)"""
        L2 = s.Lx * s.Lx
        z, r = divmod(i, L2)
        yC, r = divmod(r, s.Lx * s.sh)
        x, lane = divmod(r, s.sh)
        return x, yC + lane * (s.Lx // s.sh), z

    def idx(s, x, y, z):
        x %= s.Lx; y %= s.Lx
        h = s.Lx // s.sh
        return z * s.Lx * s.Lx + (y % h) * (s.Lx * s.sh) + x * s.sh + y // h

    def neighbours(s, i, n):
        x, y, z = s.pos(i)
        return [s.idx(x + n, y, z), s.idx(x - n, y, z), s.idx(x, y + n, z), s.idx(x, y - n, z), s.idx(x, y, z + n), s.idx(x, y, z - n)]


def PC(n): return At('ld', add(S('pp.PC'), C(8 * n)))


class Check(c03.Check):
    def __init__(s, ctx, P):
        super().__init__(ctx, P)
        s.sites_checked = 0
        # (Lx, neighbours, every site, only the first variant of each kernel)
        s.lat = [(16, 1, 2, True), (32, 2, 1, True), (32, 2, 0, False), (32, 5, 0, True)]
        if ctx.tier != 'quick': s.lat += [(16, 1, 2, False), (48, 3, 1, False), (64, 4, 1, True), (32, 2, 2, True), (80, 5, 1, True)]

    def sample(s, pts, lay, nl, full):
        """full 2: every store of the lattice; 1: one vector of every combination of wrap classes in x and y; 0: every class of x and of y at least once"""
        if full == 2: return pts
        if full == 0:
            out, sx, sy = [], set(), set()
            for pr in (False, True):
                for b, o in pts:
                    x, y, z = lay.pos((o // lay.esz) // lay.per)
                    h = lay.Lx // lay.sh
                    cx = x if x < s.Ng or x >= lay.Lx - s.Ng else -1
                    cy = y if y < s.Ng or y >= h - s.Ng else -1
                    if (cx not in sx and cy not in sy) or (pr and (cx not in sx or cy not in sy)): out.append((b, o)); sx.add(cx); sy.add(cy)
            return out
        out, seen = [], set()
        for b, o in pts:
            x, y, z = lay.pos((o // lay.esz) // lay.per)
            h = lay.Lx // lay.sh
            cls = (x if x < s.Ng or x >= lay.Lx - s.Ng else -1, y if y < s.Ng or y >= h - s.Ng else -1)
            if cls in seen: continue
            seen.add(cls); out.append((b, o))
        return out

    def geometry(s, K, Lx, Ng, per, esz, kindz=2):
        sh = 32 // (per * esz)
        nz = kindz
        return Layout(Lx, sh, per, esz), consts(Lx=Lx, pp_Lx=Lx, pp_Ng=Ng, Vo=Ng * Lx * Lx, Vf=(Ng + nz) * Lx * Lx, bSizeX=Lx * sh, bSizeY=3, bSizeZ=2, pp_beta=0)

    def run(s):
        n = {}
        for title, pat, root, per, vroot, spec in s.table():
            first = True
            for f, mt, pn, K in s.kernels(pat):
                sp = spec(s, mt)
                if sp is None: continue
                st = K.field_stores([root])
                s.ctx.need(st, '%s: no store to %s' % (f.short, root))
                plain = s.plain(f, pat, spec)
                for x in st:
                    S_ = Sweep(K, x)
                    for Lx, s.Ng, full, only in s.lat:
                        if only and not plain: continue
                        lay, env = s.geometry(K, Lx, s.Ng, per, S_.esz)
                        pts = S_.points(env)
                        s.ctx.need(pts, '%s: no site visited on the test lattice' % f.short)
                        nl = len(S_.vals)
                        vt = {v: subst(a, env) for v, a in K.mp.items()}
                        vals0 = [subst(v, env) for v in S_.vals]
                        for b, o in s.sample(pts, lay, nl, full):
                            if s.point(f, pn, K, S_, lay, env, b, o, vals0, sp, title, vroot, per): break
                n[title] = n.get(title, 0) + 1
        s.ctx.cover(kernels=n, kernel_instances=sum(n.values()), sites_compared=s.sites_checked, lattices=['Lx=%d neighbours=%d %s' % (l[0], l[1], ('each wrap-around class once', 'every combination of wrap-around classes', 'every site')[l[2]] + (', first variant of each kernel' if l[3] else ', every variant')) for l in s.lat])

    def plain(s, f, pat, spec):
        for g in s.P.all:
            m = re.match(pat, g.dem)
            if m and spec(s, m) is not None: return g is f

    def point(s, f, pn, K, S_, lay, env, b, o, vals0, sp, title, vroot, per):
        i0 = (o // lay.esz) // per
        shift = s.voff(S_.root, lay) // 1
        i0 += shift
        Mb, Vb = At('arg', 'm_'), At('arg', 'v_')
        m = lambda i, c: At('ld', add(Mb, C((i * per + c) * lay.esz)))
        v = lambda i, c: At('ld', add(Vb, C(((i - s.voff('v_', lay)) * per + c) * lay.esz)))
        for l in range(0, len(vals0), per):
            i = i0 + l // per
            nb = [lay.neighbours(i, k + 1) for k in range(s.Ng)]
            L = []
            for c in range(per):
                t = ZERO
                for k in range(s.Ng):
                    d = ZERO
                    for q in nb[k]: d = add(d, m(q, c))
                    t = add(t, mul(PC(k), sub(d, scale(m(i, c), 6))))
                L.append(t)
            want = sp(K, lay, i, [m(i, c) for c in range(per)], [v(i, c) for c in range(per)], L, nb, m)
            s.sites_checked += 1
            for c in range(per):
                got = subst(vals0[l + c], b)
                w = subst(want[c], env)
                if not equal(got, w):
                    x, y, z = lay.pos(i)
                    short = lay.Lx // lay.sh < 2 * s.Ng
                    b_ = re.sub(r'AxionEnum::|\s|^void ', '', f.short)
                    s.ctx.violation('%s/%s%s' % (re.sub('<.*', '', b_) if short else b_, pn, '/rows-shorter-than-twice-the-stencil' if short else ''), S_.w.where(),
                                    '%s (%s): the update of a site on a periodic lattice does not combine its true neighbours%s' % (f.short, pn,
                                    ' when a folded row is shorter than twice the stencil' if short else ''))
                    if s.ctx.verbose:
                        print(f.short, pn, 'site', (x, y, z), 'lane', l + c, '\nDIFF', str(sub(got, w))[:300])
                    return True

    def voff(s, root, lay): return s.Ng * lay.Lx ** 2 if root == 'v_' and s.shifted else 0

    # -- specifications: velocity (or field) written, from the true Laplacian -----------------------------------------------
    def table(s):
        V = s.V
        o = S('pp.ood2a')

        def sax(s, mt):
            e = c03.Env(V, int(mt.group(1)))
            if e.vq & V['V_QCD'] == V['V_QCDL']: return None
            s.shifted = True
            return lambda K, lay, i, m, v, L, nb, M: c03.saxion_rate(e, m, v, [mul(o, x) for x in L], mul(A('dz'), A('c')))

        def low(s, mt):
            e = c03.Env(V, int(mt.group(1)))
            if e.vq & V['V_QCD'] == V['V_QCDL'] or e.has('V_EVOL_RHO') or e.has('V_EVOL_THETA'): return None
            s.shifted = True
            return lambda K, lay, i, m, v, L, nb, M: c03.saxion_rate(e, m, v, [mul(o, x) for x in L], mul(A('dz'), A('c')))

        def theta(s, mt):
            w, q = mt.group(1) == 'true', int(mt.group(2))
            if q == V['V_QCDL']: return None
            s.shifted = True
            R, mA2, Rpp = S('pp.R'), S('pp.massA2'), S('pp.Rpp')
            tp = s.twopi(R)

            def sp(K, lay, i, m, v, L, nb, M):
                if w:
                    L = []
                    t = ZERO
                    for k in range(s.Ng):
                        d = ZERO
                        for j in nb[k]: d = add(d, s.modf(sub(M(j, 0), m[0]), tp, None))
                        t = add(t, mul(PC(k), d))
                    L = [t]
                return [add(v[0], mul(mul(A('dz'), A('c')), s.theta_acc(q, m[0], mul(o, L[0]), R, mA2, Rpp)))]
            return sp

        def nax(s, mt):
            s.shifted = False
            def sp(K, lay, i, m, v, L, nb, M):
                dz, d, R = A('dz'), A('d'), S('pp.R')
                w = div(mul(dz, mul(d, o)), scale(mul(S('pp.massA'), R), 2))
                p = [sub(m[0], mul(w, L[1])), add(m[1], mul(w, L[0]))]
                ang = mul(s.phase(None, None), add(mul(p[0], p[0]), mul(p[1], p[1])))
                c, sn = fn('cos', ang), fn('sin', ang)
                return [sub(mul(p[0], c), mul(p[1], sn)), add(mul(p[1], c), mul(p[0], sn))]
            return sp

        s.shifted = True
        kd = {v: k for k, v in s.P.enum('KickDriftType_s').items()}

        def pax(s, mt):
            if kd[int(mt.group(1))] != 'KIDI_LAP': return None
            s.shifted = False
            def sp(K, lay, i, m, v, L, nb, M):
                w = div(mul(mul(S('pp.sign'), s.dzp(A('dz'))), o), scale(mul(S('pp.massA'), S('pp.R')), 2))
                return [add(v[0], mul(w, L[0]))]
            return sp
        return [('complex field', r'void propagateKernelXeon<\(AxionEnum::VqcdType_s\)(\d+)>', 'v_', 2, 'v_', sax),
                ('complex field, low memory', r'void updateVXeon<\(AxionEnum::VqcdType_s\)(\d+)>', 'v_', 2, 'v_', low),
                ('angle', r'void propThetaKernelXeon<(\w+), \(AxionEnum::VqcdType_s\)(\d+)>', 'v_', 1, 'v_', theta),
                ('non-relativistic field', r'void propagateNaxKernelXeon<\(AxionEnum::VqcdType_s\)(\d+)>', 'm2_', 2, None, nax),
                ('non-relativistic components', r'void propagatePaxKernelXeon<\(AxionEnum::KickDriftType_s\)(\d+)>', 'v_', 1, 'v_', pax)]


def A(n): return At('arg', n)


def run(ctx):
    P = jx.Program(['lib/propagator/propagator.cpp'], 'kern', ['--keep=' + c03.KEEP], defs=c03.DEFS)
    c03.parts(ctx, lambda: Check(ctx, P))
    ctx.floor('kernel_instances', ctx.cov.get('kernel_instances', 0), 100)
    ctx.cov['lattices'] = sorted(set(ctx.cov['lattices']))
