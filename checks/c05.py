"""Every kernel call of a time step gets the background of the current time."""
import re
import jx, sym, steps
from sym import C, add, mk, atom_poly
from steps import T, at

LEVEL = 'other'
EXPLANATION = ('The step functions of every propagator instance are unfolded into their schedule (constant loops unrolled, both outcomes of unknown branches), '
               'with the conformal time as a symbolic value. At each kernel call every background quantity passed (scale factor, derivatives, masses, couplings) '
               'must be the one evaluated at the conformal time then current, after the scale factor was refreshed for it.')
RULES = []

# members a kernel family uses
SAX = ('Ng', 'Lx', 'PC', 'R', 'ood2a', 'massA2', 'gamma', 'lambda', 'Rpp', 'Rp', 'dectime')
NEED = {
    'propagateKernelXeon': SAX, 'updateVXeon': SAX,
    'sPropKernelXeon': tuple(x for x in SAX if x != 'PC') + ('fMom1',),
    'propThetaKernelXeon': ('Ng', 'Lx', 'PC', 'R', 'ood2a', 'Rpp', 'massA2'),
    'sPropThetaKernelXeon': ('massA2', 'Rpp', 'Lx', 'fMom', 'Rptr'),
    'propagateNaxKernelXeon': ('ct', 'Ng', 'Lx', 'PC', 'R', 'beta', 'massA', 'ood2a', 'frw'),
    'propagatePaxKernelXeon': ('ct', 'Ng', 'Lx', 'PC', 'R', 'beta', 'massA', 'ood2a', 'frw', 'sign', 'n'),
    'fsAccKernelXeon': ('Rptr', 'ood2a', 'lambda', 'massA2', 'gamma', 'Lx'),
    'fsPropKernelXeon': ('Rptr', 'intm3', 'iintm3', 'shift', 'Lx', 'Tz'),
    'fsAccKernelThetaXeon': ('Lx', 'R', 'ood2a', 'Rpp', 'massA2'),
    'fsPropKernelThetaXeon': ('fMom1', 'Lx', 'Tz'),
    'updateMXeon': ('Lx',), 'updateMThetaXeon': ('Lx',),
}


def expected(k):
    z = k.z.key()
    bg = lambda n, *a: atom_poly(mk('bg', n, z, z, *a))
    return {'R': lambda: atom_poly(mk('R', z)), 'ct': lambda: k.z, 'massA': lambda: bg('AxionMass'), 'massA2': lambda: bg('AxionMassSq'), 'Rpp': lambda: bg('Rpp'),
            'Rp': lambda: atom_poly(mk('cos', 'Rp', z)), 'lambda': lambda: bg('LambdaP'), 'n': lambda: atom_poly(mk('cos', 'DlogMARDlogct', z)),
            'shift': lambda: bg('Saskia'),
            'intm3': lambda: bg('IAxionMassSqn', z, add(k.z, sym.mul(k.a['dz'], k.a['d'])).key(), C(3).key()),
            'iintm3': lambda: bg('IIAxionMassSqn', z, add(k.z, sym.mul(k.a['dz'], k.a['d'])).key(), C(3).key())}


WHAT = {'R': 'scale factor', 'ct': 'conformal time', 'massA': 'axion mass', 'massA2': 'squared axion mass', 'Rpp': "R''/R", 'Rp': "R'", 'lambda': 'saxion self-coupling',
        'n': 'd log(mA R)/d log(ct)', 'intm3': 'mass integral', 'iintm3': 'double mass integral', 'shift': 'saxion shift'}
STATIC = {'gamma': r'amma', 'frw': r'Frw', 'dectime': r'DecTime', 'beta': r'ICData', 'PC': r'getCO', 'ood2a': r'ood2', 'Ng': r'Ng', 'Lx': r'Lx|Length', 'Tz': r'TotalDepth', 'fMom1': r'PhysSize', 'fMom': r'PhysSize'}


def one(ctx, P, f, meth, ns, st, vq):
    W = steps.Steps(P, f)
    nk = no = 0
    seen = set()
    for p in W.run():
        for it in p.x.get('log', ()):
            if it[0] != 'k': continue
            k = it[1]; nk += 1
            need = NEED[k.name]
            exp = expected(k)
            for m in need:
                v = k.pp.get(m) if m not in k.a and 'pp' in k.a else k.a.get(m)
                no += 1
                key = '%s/%s/%s' % (meth, k.name, m)
                if v is None or 'undef' in str(v):
                    if key not in seen:
                        seen.add(key)
                        ctx.violation('%s/unset' % key, k.inst.where(), '%s: %s is called without a value for %s' % (f.short, k.name, WHAT.get(m, m)))
                    continue
                if m == 'Rptr':
                    if at(v) != ('sym', 'RV') or k.R.key() != k.z.key():
                        if key not in seen:
                            seen.add(key)
                            ctx.violation('%s/stale' % key, k.inst.where(), '%s: %s reads a scale factor that was not refreshed for the current time' % (f.short, k.name))
                    continue
                if m in exp:
                    e = exp[m]()
                    if v.key() != e.key() and key not in seen:
                        seen.add(key)
                        ctx.violation('%s/stale' % key, k.inst.where(), '%s: %s is called with %s = %s while the conformal time is %s: not the value at that time'
                                      % (f.short, k.name, WHAT[m], str(v)[:200], str(k.z)[:120]))
                elif m in STATIC and not (m in ('Lx', 'Ng') and v.const()):
                    if not re.search(STATIC[m], str(v)) and key not in seen:
                        seen.add(key)
                        ctx.violation('%s/other' % key, k.inst.where(), '%s: %s is called with %s = %s' % (f.short, k.name, m, str(v)[:200]))
    ctx.cover(kernel_calls=nk, obligations=no, step_functions=1, by_method={meth: 1})
    return nk


def run(ctx):
    P = steps.program()
    L = list(steps.instances(P))
    ctx.floor('instances', len(L), 300)
    meths = {m for _, m, *_ in L}
    ctx.need(meths == set(steps.METHODS), 'step functions not found: %s' % (set(steps.METHODS) - meths))
    ctx.par([L[k::8] for k in range(8)], lambda part: [one(ctx, P, *x) for x in part] and None)
    ctx.floor('kernel_calls', ctx.cov['kernel_calls'], 3000)
