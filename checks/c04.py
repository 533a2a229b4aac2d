"""Every sweep visits every site of its range exactly once and touches nothing else; every step kicks and drifts the whole volume, border slices only after their ghosts arrived."""
import re
import jx, sym, kern, sweep, c03
from kern import *
from sweep import *

LEVEL = 'other'
EXPLANATION = ('For every sweep kernel instance and precision the closed forms of loop bounds, guards and store addresses are instantiated on small lattices, '
               'with block sizes that do and do not divide the lattice, and the stored positions are compared with the requested range: each site once, '
               'all components, nothing outside.')
RULES = []


def kernels():
    """pattern, array, components per site, position of the array's first site, kind"""
    nsf = lambda e: e['Ng'] * e['Lx'] ** 2
    one = lambda e: e['Lx'] ** 2
    zero = lambda e: 0
    vo = lambda e: e['Vo']
    return [
        (r'void propagateKernelXeon<', 'v_', 2, nsf), (r'void propagateKernelXeon<', 'm2_', 2, zero),
        (r'void updateVXeon<', 'v_', 2, nsf),
        (r'updateMXeon\(', 'm_', 2, zero), (r'updateMThetaXeon\(', 'm_', 1, zero),
        (r'void propThetaKernelXeon<', 'v_', 1, nsf), (r'void propThetaKernelXeon<', 'm2_', 1, zero),
        (r'void propagateNaxKernelXeon<', 'm2_', 2, zero),
        (r'void propagatePaxKernelXeon<', 'v_', 1, zero), (r'void propagatePaxKernelXeon<', 'm_', 1, zero),
        (r'void sPropKernelXeon<', 'v_', 2, one), (r'void sPropKernelXeon<', 'm_', 2, zero),
        (r'sPropThetaKernelXeon\(', 'v_', 1, one), (r'sPropThetaKernelXeon\(', 'm_', 1, zero)]


# Lx, Ng, first and last plane, block sizes
LAT = [dict(Lx=16, Ng=2, z0=2, z1=4, bSizeY=3, bSizeZ=2), dict(Lx=16, Ng=1, z0=1, z1=4, bSizeY=2, bSizeZ=2), dict(Lx=16, Ng=2, z0=4, z1=5, bSizeY=1, bSizeZ=4),
       dict(Lx=16, Ng=2, z0=3, z1=3, bSizeY=2, bSizeZ=1)]
LAT2 = LAT + [dict(Lx=48, Ng=3, z0=3, z1=5, bSizeY=4, bSizeZ=1), dict(Lx=24, Ng=1, z0=1, z1=7, bSizeY=5, bSizeZ=4), dict(Lx=32, Ng=4, z0=4, z1=9, bSizeY=32, bSizeZ=3)]


class Check(c03.Check):
    def run(s):
        lat = LAT if s.ctx.tier == 'quick' else LAT2
        n = {}
        for pat, root, per, off in kernels():
            for f, mt, pn, K in s.kernels(pat):
                name = re.sub(r'AxionEnum::|\s|^void ', '', f.short)
                st = K.field_stores([root])
                if not st:
                    s.ctx.need('propagatePaxKernelXeon' in f.short or 'updateV' in f.short, '%s: no store to %s' % (f.short, root))
                    continue
                S_ = [Sweep(K, x) for x in st]
                n[name.split('<')[0].split('(')[0]] = n.get(name.split('<')[0].split('(')[0], 0) + 1
                s.sweeps += 1
                for e in lat:
                    e = dict(e, Vo=e['z0'] * e['Lx'] ** 2, Vf=e['z1'] * e['Lx'] ** 2)
                    env = consts(Lx=e['Lx'], pp_Lx=e['Lx'], pp_Ng=e['Ng'], Vo=e['Vo'], Vf=e['Vf'], bSizeX=e['Lx'], bSizeY=e['bSizeY'], bSizeZ=e['bSizeZ'], pad=2)
                    got = {}
                    for x in S_:
                        for b, o in x.points(env):
                            for l in range(len(x.vals)):
                                p = o // x.esz + l + off(e) * per
                                if root == 'v_' and 'update' in f.short and 'V' not in f.short: pass
                                got[p] = got.get(p, 0) + 1
                    s.points += len(got)
                    want = range(e['Vo'] * per, e['Vf'] * per)
                    bad = None
                    miss = [p for p in want if p not in got]
                    twice = [p for p in want if got.get(p, 0) > 1]
                    beyond = [p for p in got if p not in want]
                    if miss: bad = 'misses'
                    elif twice: bad = 'updates twice'
                    elif beyond: bad = 'writes outside of the requested range'
                    if bad:
                        s.ctx.violation('%s/%s/%s/%s' % (name, pn, root, bad.split()[0]), st[0][1].where(),
                                        '%s (%s): the sweep over [Vo,Vf) %s %s of %s on a lattice with Lx=%d, %d planes, blocks of %d x %d' % (f.short, pn, bad,
                                        'sites' if bad != 'writes outside of the requested range' else '', root, e['Lx'], e['z1'] - e['z0'], e['bSizeY'], e['bSizeZ']))
                        break
        s.ctx.cover(sweeps=s.sweeps, instances=n, positions=s.points)

    sweeps = points = 0


def run(ctx):
    P = jx.Program(['lib/propagator/propagator.cpp'], 'kern', ['--keep=' + c03.KEEP], defs=c03.DEFS)
    c03.parts(ctx, lambda: Check(ctx, P))
    ctx.floor('sweeps', ctx.cov['sweeps'], 200)
