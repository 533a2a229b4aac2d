"""Time-step schedules of PropClass: along every path of a step function, the kernel calls with the state they receive (background, ghosts, buffers)."""
import re
import jx, sym, walk, c03
from sym import C, ZERO, ONE, add, sub, mul, neg, inv, mk, atom_poly

TU = 'lib/propagator/propagator.cpp'
METHODS = ('sRunCpu', 'lowCpu', 'sSpecCpu', 'sFpecCpu', 'tRunCpu', 'tSpecCpu', 'tFpecCpu', 'nRunCpu', 'pRunCpu')


def program():
    return jx.Program([TU], 'kern', ['--keep=PropClass<.*>::[a-zA-Z]*Cpu|PropBase::|Prop(Leap|MLeap|Omelyan2|Omelyan4|RKN4)<.*>::Prop',
                                     '--noinline=' + jx.KERN_KEEPOUT + '|Xeon[(<]|applyLaplacian|Folder::|FTfield::|tuneP|::updateR|Gravi|gravity|GRAV'], defs=c03.DEFS)


def T(n): return atom_poly(mk('sym', n))


def at(p):
    """the single atom a polynomial consists of, or None"""
    k = p.key()
    if len(k) == 1 and k[0][1] == 1 and len(k[0][0]) == 1 and k[0][0][0][1] == 1:
        A = sym._atoms[k[0][0][0][0]]
        return (A.kind,) + A.args
    return None


# kernels: position-independent description by parameter role.  Arguments in call order.
# (pattern, roles); roles: R = read with its neighbours, r = read at the site, w = written
KERN = [
    (r'\bpropagateKernelXeon\b', 'kickdrift', ('m', 'v', 'm2', 'pp', 'dz', 'c', 'd', 'Vo', 'Vf')),
    (r'\bpropThetaKernelXeon\b', 'kickdrift', ('m', 'v', 'm2', 'pp', 'dz', 'c', 'd', 'Vo', 'Vf')),
    (r'\bpropagateNaxKernelXeon\b', 'nax', ('m', 'v', 'm2', 'pp', 'dz', 'c', 'd', 'Vo', 'Vf')),
    (r'\bpropagatePaxKernelXeon\b', 'pax', ('m', 'v', 'm2', 'pp', 'dz', 'Vo', 'Vf')),
    (r'\bupdateVXeon\b', 'kick', ('m', 'v', 'pp', 'dz', 'c', 'Vo', 'Vf')),
    (r'\bupdateM(Theta)?Xeon\b', 'drift', ('m', 'v', 'dz', 'd', 'Lx', 'Vo', 'Vf')),
    (r'\bsPropKernelXeon\b', 'speckickdrift', ('m', 'v', 'm2', 'pp', 'dz', 'c', 'd', 'Vo', 'Vf')),
    (r'\bsPropThetaKernelXeon\b', 'speckickdrift', ('m', 'v', 'm2', 'Rptr', 'dz', 'c', 'd', 'massA2', 'Rpp', 'fMom', 'Lx', 'Vo', 'Vf')),
    (r'\bfsAccKernelXeon\b', 'fsacc', ('v', 'm2', 'Rptr', 'dz', 'c', 'd', 'ood2a', 'lambda', 'massA2', 'gamma', 'fMom', 'Lx', 'Vo', 'Vf')),
    (r'\bfsPropKernelXeon\b', 'fsprop', ('m', 'v', 'm2', 'Rptr', 'dz', 'c', 'd', 'intm3', 'iintm3', 'shift', 'fMom', 'Lx', 'Tz')),
    (r'\bfsAccKernelThetaXeon\b', 'fsaccT', ('m2', 'pp', 'Vo', 'Vf')),
    (r'\bfsPropKernelThetaXeon\b', 'fsprop', ('m', 'v', 'm2', 'pp', 'dz', 'c', 'd')),
]
KERN = [(re.compile(p), k, r) for p, k, r in KERN]


def fname(dem):
    """unqualified name with template arguments stripped"""
    return re.sub(r'.*[ :*&]', '', jx.short(dem).split('<')[0])


class K:
    """one kernel call"""
    __slots__ = ('name', 'kind', 'a', 'pp', 'z', 'R', 'inst', 'n', 'tmpl')

    def __repr__(s): return '%s %s %s' % (s.name, {k: str(v)[:40] for k, v in s.a.items()}, {k: str(v)[:40] for k, v in s.pp.items()})


class Steps(walk.Walk):
    """records a list of items in path.x['log']: ('k', K), ('z', value), ('R',), ('ghost', field, op, inst), ('lap', inst), ('m2', status), ('ft', ..)"""
    BG = ('AxionMassSq', 'AxionMass', 'LambdaP', 'Rpp', 'Saskia', 'IAxionMassSqn', 'IIAxionMassSqn')

    def __init__(s, P, f, conc=None, **kw):
        super().__init__(P, f, **kw)
        s.conc = conc or {}
        cls = f.dem.rsplit('::', 1)[0]
        m = re.match(r'(?:void )?(.*)::[A-Za-z]+\(', f.dem)
        st = P.struct(m.group(1))
        s.members = {o: (n, sz) for o, sz, n, t in st['m'] if n != '<base>'}
        s.pps = {o: n for o, sz, n, t in P.struct('PropParms_v')['m']}

    def log(s, p, *it): p.x['log'] = p.x.get('log', ()) + (it,)

    def z(s, p): return p.mem.get(T('zV').key(), T('z0'))
    def Rtag(s, p): return p.x.get('Rz', T('z0'))

    def interesting(s, i):
        if i.op != 'call' or not isinstance(i.x, str): return False
        n = s.P.dem(i.x, s.f.mod)
        return bool(re.search(r'Xeon|zV|updateR|sendGhosts|applyLapl|setM2|FTfield', n))

    def onload(s, p, i, a):
        x = at(a)
        if x == ('sym', 'zV'): return T('z0')
        if x == ('sym', 'RV'): return atom_poly(mk('R', s.Rtag(p).key()))
        if x and x[0] == 'arg' and x[1] == 'this': return None
        d = sub(a, atom_poly(mk('arg', 'this'))).const()
        if d is not None:
            for o, (n, sz) in s.members.items():
                if o <= d < o + sz:
                    if n in s.conc: return C(s.conc[n])
                    return T('%s[%d]' % (n, (d - o) // 8)) if sz > 8 or n in 'cd' else T(n)
        return None

    def onstore(s, p, i, a, v):
        if at(a) == ('sym', 'zV'): s.log(p, 'z', v, i)

    def value(s, p, i, name, args):
        n = fname(name)
        sc = re.search(r'\bScalar::', name)
        if n in ('zV', 'RV', 'mCpu', 'vCpu', 'm2Cpu', 'mStart', 'vStart', 'm2Start', 'BckGnd', 'getCO', 'mFrontGhost', 'mBackGhost') and sc: return T(n)
        if n == 'getNg' and sc: return C(s.conc['Ng']) if 'Ng' in s.conc else T('Ng')
        if n in s.BG and sc:
            return atom_poly(mk('bg', n, s.z(p).key(), s.Rtag(p).key(), *[a.key() for a in args[1:]]))
        if 'Cosmos::' in name:
            return atom_poly(mk('cos', n, *[a.key() for a in args[1:]]))
        if n == 'updateR' and sc:
            p.x['Rz'] = s.z(p); s.log(p, 'R', i); return None
        if n == 'sendGhosts':
            s.log(p, 'ghost', args[1].const(), args[2].const(), i); return None
        if n == 'applyLaplacian': s.log(p, 'lap', i); return None
        if n in ('setM2',) and sc: s.log(p, 'm2', args[1].const(), i); return None
        if 'FTfield::operator()' in name: s.log(p, 'ft', args[1].const(), args[2].const(), i); return None
        if 'Gravi' in name: s.log(p, 'gravi', i); return None
        for r, kind, roles in KERN:
            if r.search(n):
                k = K(); k.name, k.kind, k.inst, k.tmpl = n, kind, i, name
                if len(args) < len(roles): raise jx.Broken('%s: %s takes %d arguments, %d expected' % (s.f.short, n, len(args), len(roles)))
                k.a = dict(zip(roles, args)); k.pp = {}
                k.z, k.R = s.z(p), s.Rtag(p)
                if 'pp' in k.a:
                    for o, nm in s.pps.items():
                        v = p.mem.get(add(k.a['pp'], C(o)).key())
                        k.pp[nm] = v
                k.n = len(p.x.get('log', ()))
                s.log(p, 'k', k)
                return None
        if sc: return atom_poly(mk('sc', n, *[a.key() for a in args[1:]]))
        if 'Xeon' in n: raise jx.Broken('%s calls a kernel this analysis does not know: %s' % (s.f.short, n))
        return None


def instances(P, methods=METHODS):
    """(function, method, nStages, stage, VqcdType)"""
    st = {v: k for k, v in P.enum('PropStage_s').items()}
    for f in P.all:
        m = re.search(r'PropClass<(\d+), \(AxionEnum::PropStage_s\)(\d+), \(AxionEnum::VqcdType_s\)(\d+)>::(\w+)\(', f.dem)
        if m and m.group(4) in methods:
            yield f, m.group(4), int(m.group(1)), st[int(m.group(2))], int(m.group(3))
