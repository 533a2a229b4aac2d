"""Energies: every reported density is that of the model that is evolved, averaged over the lattice."""
import re, math
from fractions import Fraction
import jx, sym, kern, c03, c07, walk, steps
from kern import *
from steps import at
from c14 import W_, one

LEVEL = 'other'
EXPLANATION = ('The energy kernels of the complex field (every potential, mask and map mode), of the angle (plain and wrapped) and of the non-relativistic field are reduced to normal forms. The contribution of every vector of sites to each '
               'total is obtained from the summand of the reduction, instantiated on small folded lattices, and compared with the density built from the elements of the field at the site and its periodic neighbours; so are the values and the places of the '
               'energy maps. The drivers are unfolded to check which kernel runs, with which parameters, and how sums become averages over all ranks.')
RULES = ['gradient energy of direction d: half the sum of squares of forward and backward differences, projected on the radial and angular direction', 'kinetic energy: radial and angular part of v/R - m R\'/R^2, halved',
         'potential energy: the potential whose derivative is the force of the sweeps', 'masked totals: the same over masked sites', 'maps: density of each site in unfolded order, angular part first',
         'sums over all ranks divided by the number of sites (or of masked sites)']

PREC = ('FIELD_DOUBLE', 'FIELD_SINGLE')
SC = lambda n, *a: At('sc', n, *a)
R = At('ld', SC('RV'))                                     # scale factor
HUB = At('Rp', At('ld', SC('zV')).key())                   # R'/R at the field's time
LAM, DEL = SC('LambdaP'), SC('Delta')
i1, iD2 = inv(R), mul(inv(DEL), inv(DEL))
OOD = scale(iD2, 0.25)                                     # half of the mean of forward and backward squares


def md2(a): return [add(a[k], a[k ^ 1]) for k in range(len(a))]


class EK(Kernel):
    def __init__(s, P, f, pn, bind=None):
        super().__init__(P, f, bind, pure=r"_md2_p[ds]\(|_mod_p[ds]\(|opCode_P\(mod")
        FP = P.enum('FieldPrecision_s')

        def hook(E, i):
            d = P.dem(i.x, f.mod)
            if 'Scalar::Precision' in d: return C(FP[pn])
            if 'Scalar::sData' in d: return S('sdata')
            if re.search(r'_md2_p[ds]\(', d): return md2(sym.aslist(args(E, i, 0), lanes(i.ty)[0]))
            return None

        def args(E, i, n):
            v = E.op(i.ops[n], i.bb.idx)
            if isinstance(v, Poly) and E.root(v) is not None and E.isptrarg(i, n):
                e = lanes(i.ty)[1]
                return [E.read(add(v, C(q * sym.SZ[e])), e, i.bb.idx, i.pos) for q in range(lanes(i.ty)[0])]
            return v
        s.E.callhook = hook


from sym import Poly


def summand(p, what):
    """p: a total over the sweep with a concrete number of iterations -> function of the iteration"""
    parts, rest, T = [], ZERO, None
    for m, c in p.t.items():
        ss = [(a, e) for a, e in m if sym._atoms[a].kind == 'sum']
        if not ss:
            rest = add(rest, Poly({m: c})); continue
        if len(ss) != 1 or ss[0][1] != 1: raise jx.Broken('%s: not a sum over the sites' % what)
        b, body, tr = sym._atoms[ss[0][0]].args
        t = sym.fromkey(tr).const()
        if t is None: raise jx.Broken('%s: number of iterations unknown: %s' % (what, str(sym.fromkey(tr))[:100]))
        if T not in (None, t): raise jx.Broken('%s: loops of different length' % what)
        T = t
        parts.append((Poly({tuple(x for x in m if x[0] != ss[0][0]): c}), b, sym.fromkey(body)))
    def at_(k):
        by = {}
        out = ZERO
        for co, b, body in parts:
            out = add(out, mul(co, subst(body, {mk('k', b): C(k)})))
        return out
    return at_, rest, T


class Drive(W_):
    """energy(), the class behind it and the drivers, down to the kernel that runs"""

    def value(s, p, i, name, args):
        n = steps.fname(name)
        if re.search(r'energy\w*Xeon(<|\()', name):
            p.x['kern'] = p.x.get('kern', ()) + ((i.x, tuple(args), dict(p.mem), i),)
            return None
        f = s.P.byname.get(i.x) if isinstance(i.x, str) and not re.search(r'Scalar::|Cosmos::|Logger|rofiler|Tunable|Folder|Track|track|std::', name) else None
        if f is not None and f.blocks and re.search(r'nergy', name): return s.descend(p, i, f, args)
        if n == 'MPI_Allreduce':
            p.x['red'] = p.x.get('red', ()) + ((tuple(args), i),)
            return None
        if 'Cosmos::' in name:
            if n == 'QcdPot': return At('pot')
            if n == 'Rp': return At('Rp', args[1].key())
            if n == 'PhysSize': return At('lSize')
            return At('cosmos', n, *[a.key() for a in args[1:]])
        if n == 'pow' and args[1].const() is not None and args[1].const() == int(args[1].const()): return sym.power(args[0], int(args[1].const())) if hasattr(sym, 'power') else ipow(args[0], int(args[1].const()))
        if 'Verbosity' in name: return C(0)
        if n == 'exchangeGhosts': p.x['ghost'] = p.x.get('ghost', ()) + ((args[1].const(), len(p.x.get('kern', ()))),)
        if name.startswith('Folder::operator()'): p.x['fold'] = p.x.get('fold', ()) + ((args[1].const(), len(p.x.get('kern', ()))),)
        if 'Tunable' in name or 'rofiler' in name: return At('void', i.id)
        return super().value(p, i, name, args)

    def descend(s, p, i, f, args):
        w = Drive(s.P, f, s.ans, s.globs, bind={a[0]: v for a, v in zip(f.args, args)})
        w.start = p
        done = [q for q in w.run() if not q.x.get('exit')]
        if len(done) != 1: raise jx.Broken('%s: %d ways through' % (f.short, len(done)))
        p.x, p.mem = done[0].x, done[0].mem
        return done[0].ret if done[0].ret is not None else At('void', i.id)

    def call(s, p, i):
        if isinstance(i.x, list) and i.x and i.x[0][0] == 'g':                        # complete constructor, an alias
            f = s.P.byname.get(i.x[0][1].replace('C1E', 'C2E'))
            if f is not None: return s.descend(p, i, f, [s.op(p, q) for q in i.ops])
        r = super().call(p, i)
        if isinstance(i.x, str) and i.x.startswith('llvm.memset'): p.x['zero'] = p.x.get('zero', ()) + (tuple(s.op(p, q) for q in i.ops[:3]) + (len(p.x.get('kern', ())),),)
        return r

    def run(s):
        if getattr(s, 'start', None) is None: return super().run()
        q = s.start.fork(); q.events, q.env = [], {}
        s.paths, s.steps = [(q, 0, None)], 0
        while s.paths:
            s.go(*s.paths.pop())
            if len(s.done) + len(s.paths) > 32: raise jx.Broken('%s: too many paths' % s.f.short)
        return s.done

    def onload(s, p, i, a):
        if at(a) == ('pot',): return C(s.ans['pot'])
        if at(a) == ('lSize',): return scale(DEL, s.ans['Length'])
        for args, j in p.x.get('red', ()):
            o = sub(a, args[1]).const()
            if o is not None and o % 8 == 0 and 0 <= o < 8 * (args[2].const() or 0): return At('total', int(o) // 8)
        return super().onload(p, i, a)


def ipow(b, n):
    r = ONE
    for _ in range(abs(n)): r = mul(r, b)
    return r if n >= 0 else inv(r)


INDEX = ['%s_%s' % (a, b) for a in ('TH', 'RH') for b in ('GRX', 'GRY', 'GRZ', 'KIN', 'POT')] + ['RH_RHO']


class Check:
    def __init__(s, ctx, P):
        s.ctx, s.P = ctx, P
        s.V, s.FP, s.EN, s.FT = P.enum('VqcdType_s'), P.enum('FieldPrecision_s'), P.enum('EnType_s'), P.enum('FieldType_s')
        s.FI, s.DEV, s.FOLD = P.enum('FieldIndex_s'), P.enum('DeviceType_s'), P.enum('FoldType_s')
        s.IX = jx.constants('enum-field.h', INDEX + [n + 'M' for n in INDEX if n != 'RH_RHO'] + ['RH_RHOM', 'MM_NUMM', 'STRING_MASK', 'SD_MASK', 'M2_ENERGY'])
        s.MASKBIT = s.IX['STRING_MASK']
        s.part, s.turn = (0, 1), 0
        s.byname = P.byname = {f.name: f for f in P.all}
        s.top = one(P, ctx, r'^energy\(Scalar', 'energy()')
        s.n = dict(scenarios=0, kernels=0, totals_compared=0, sites_compared=0, map_values=0, averages=0)
        s.kernels = set()

    def mine(s):
        s.turn += 1
        return s.turn % s.part[1] == s.part[0]

    def run(s):
        V, EN = s.V, s.EN
        pots = [(q, p) for p in ('V_PQ1', 'V_PQ2') for q in ('V_QCDC', 'V_QCD1', 'V_QCD2', 'V_QCDV', 'V_QCD0')]
        for pn in PREC:
            for q, p in pots:
                for e in ('EN_ENE', 'EN_MAP', 'EN_MASK', 'EN_ENEMASK', 'EN_MAPMASK', 'EN_ENEMAPMASK'):
                    for low in (0, 1):
                        if low and EN[e] & EN['EN_ONLYMAP']: continue          # refused: m2 has no room
                        if s.mine(): s.scene('FIELD_SAXION', pn, q, p, e, low, int(q == 'V_QCDC'))
            for ft in ('FIELD_AXION', 'FIELD_AXION_MOD', 'FIELD_PAXION'):
                for q in ('V_QCDC', 'V_QCD0') if ft != 'FIELD_PAXION' else ('V_QCDC',):
                    for e in ('EN_ENE', 'EN_MAP'):
                        if s.mine(): s.scene(ft, pn, q, 'V_PQ1', e, 0, 1)
        s.ctx.cover(**s.n)

    # ------------------------------------------------------------------------------------------------
    def scene(s, ft, pn, q, pq, e, low, folded):
        s.n['scenarios'] += 1
        s.tag = '/%s/%s/%s%s' % (ft[6:], q[2:] if pq == 'V_PQ1' else q[2:] + '+' + pq[2:], e, '/lowmem' if low else '')
        what = 'energy of a %s field (%s, %s+%s, %s%s)' % (ft[6:].lower(), pn[6:].lower(), pq, q, e, ', low memory' if low else '')
        per = 2 if ft == 'FIELD_SAXION' else 1
        Lx = 8 if (pn, per) == ('FIELD_DOUBLE', 2) else 16
        Ng = nz = 2
        S2 = Lx * Lx
        esz = 8 if pn == 'FIELD_DOUBLE' else 4
        sh = 32 // (per * esz)
        lay = c07.Layout(Lx, sh, per, esz)
        ans = dict(getNg=Ng, Length=Lx, Surf=S2, Depth=nz, Size=nz * S2, eSize=(nz + 2 * Ng) * S2, TotalSize=3 * nz * S2, Precision=s.FP[pn], DataSize=per * esz, LowMem=low,
                   Folded=folded, Device=s.DEV['DEV_CPU'], Field=s.FT[ft], sDStatus=s.IX['SD_MASK'], pot=s.V[q] | s.V[pq])
        D = Drive(s.P, s.top, ans, {}, bind={'emap': C(s.EN[e])})
        where = '%s:%d' % (s.top.file, s.top.line)
        seen = 0
        for p in D.run():
            if p.x.get('exit'): continue
            seen += 1
            K = p.x.get('kern', ())
            if len(K) != 1:
                s.ctx.violation('energy/kernels' + s.tag, where, '%s: %d energy kernels run, expected one' % (what, len(K))); continue
            s.average(p, what, ft, pn, e, ans, K[0])
            need = [s.FI['FIELD_M']] + ([s.FI['FIELD_V']] if ft == 'FIELD_PAXION' else [])
            for n in need:
                if not any(g == n and k == 0 for g, k in p.x.get('ghost', ())):
                    s.ctx.violation('energy/ghosts' + s.tag, K[0][3].where(), '%s: the borders of %s are not exchanged before the gradients are taken' % (what, 'm' if n == need[0] else 'v'))
            if not folded and not any(k == 0 and t == s.FOLD['FOLD_ALL'] for t, k in p.x.get('fold', ())):
                s.ctx.violation('energy/fold' + s.tag, where, '%s: the kernel, which expects a folded field, runs on an unfolded one' % what)
            s.kernel(K[0], what, ft, pn, q, pq, e, lay, Ng, nz)
        if not seen: raise jx.Broken('%s: no path' % what)
        s.tag = ''

    def average(s, p, what, ft, pn, e, ans, K):
        """what the kernel summed ends, averaged over all ranks, in the caller's array"""
        red = p.x.get('red', ())
        buf = [a for a in K[1] if a.key() in {r[0][0].key() for r in red} | {r[0][1].key() for r in red}]
        if len(red) != 1 or not buf:
            s.ctx.violation('energy/allreduce' + s.tag, K[3].where(), '%s: the sums of the ranks are not added up' % what); return
        args, ri = red[0]
        g = at(args[4]), at(args[3]), at(args[5])
        if not (g[0] and 'op_sum' in str(g[0])) or not (g[1] and 'mpi_double' in str(g[1])) or not (g[2] and 'comm_world' in str(g[2])):
            s.ctx.violation('energy/allreduce' + s.tag, ri.where(), '%s: the sums of the ranks are combined with %s, %s, %s' % (what, args[3], args[4], args[5])); return
        EN = s.EN
        names = (INDEX if EN[e] & EN['EN_ENE'] else []) + ([n + 'M' for n in INDEX] + ['MM_NUMM'] if EN[e] & EN['EN_MASK'] else [])
        if ft != 'FIELD_SAXION': names = INDEX[:5]
        out = At('arg', 'eRes')
        for n in names:
            i = s.IX[n]
            tot = At('total', i)
            w = tot if n == 'MM_NUMM' else mul(tot, inv(At('total', s.IX['MM_NUMM']))) if n.endswith('M') and n != 'MM_NUMM' else scale(tot, __import__('fractions').Fraction(1, ans['TotalSize']))
            v = p.mem.get(add(out, C(8 * i)).key())
            if v is None:
                o = sub(out, args[1]).const()
                v = tot if o == 0 and i < (args[2].const() or 0) else None
            s.n['averages'] += 1
            if v is None or not equal(v, w):
                s.ctx.violation('energy/average/%s' % n + s.tag, ri.where(), '%s: %s in the result is %s, expected %s' % (what, n, str(v)[:120], str(w)[:120])); return

    def kernel(s, call, what, ft, pn, q, pq, e, lay, Ng, nz):
        f = s.byname.get(call[0])
        s.ctx.need(f is not None, '%s: kernel not found' % what)
        names = [a[0] for a in f.args]
        env, bind, role = {}, {}, {}
        for n, v in zip(names, call[1]):
            k = v.const()
            if k is not None: bind[n] = v
            env[mk('arg', n)] = v
            x = at(v)
            if x and x[0] == 'sc' and len(x) == 2: role.setdefault(x[1], []).append(n)
        K = EK(s.P, f, pn, bind)
        pv = dict(zip(names, call[1])).get(K.pp) if K.pp else None
        if K.pp:
            for nm, off, ty in members(s.P.struct('PropParms_v')):
                v = call[2].get(add(pv, C(off)).key())
                if v is not None: env[mk('ld', add(At('arg', K.pp), C(off)))] = v
        K.mp = {}
        out = [n for n, v in zip(names, call[1]) if str(v).startswith('M(') and at(v) is not None and at(v)[0] == 'ld'] or [n for n in names if n.startswith('eRes')]
        s.kernels.add((f.name, pn)); s.n['kernels'] = len(s.kernels)
        g = Scene()
        g.f, g.K, g.env, g.lay, g.Ng, g.pn, g.e, g.what = f, K, env, lay, Ng, pn, e, what
        g.out, g.map = out, role.get('m2Cpu', [])
        per, esz, sh, S2 = lay.per, lay.esz, lay.sh, lay.Lx ** 2
        g.vec = lambda x, y, z: ((z * S2) + y * lay.Lx * sh + x * sh) // sh
        g.el = lambda arr, x, y, z, c, gh=Ng: At('ld', add(SC(arr), C((lay.idx(x, y, z + gh) * per + c) * esz)))
        g.half = (nz + 2 * Ng) * S2
        getattr(s, ft[6:].lower().replace('_mod', ''))(g, q, pq, ft == 'FIELD_AXION_MOD')

    # ------------------------------------------------------------------------------------------------
    def picks(s, lay, full):
        """sites whose vectors meet every kind of wrap (all with full)"""
        h = lay.Lx // lay.sh
        xs = range(lay.Lx) if full else sorted({0, 1, lay.Lx // 2, lay.Lx - 1})
        ys = range(h) if full else sorted({0, 1, h - 1})
        return [(x, y, z) for z in (0, 1) for y in ys for x in xs if full or z == 0 or (x == 0 and y == 0)]

    def vector(s, lay, x, y, z): return [(x, y + l * (lay.Lx // lay.sh), z) for l in range(lay.sh)]

    def key(s, g, n): return '%s/%s/%s' % (re.sub(r'AxionEnum::|\s|^void ', '', g.f.short).split('<')[0], g.pn[6:], n) + s.tag

    def totals(s, g, spec, picks, combos):
        """spec(sites, mask) -> {index: value}"""
        K, lay = g.K, g.lay
        st = K.field_stores(g.out)
        s.ctx.need(st, '%s: no totals stored' % g.f.short)
        got = {}
        for root, w, a, gd, vals, esz in st:
            if gd.const() != 1: raise jx.Broken('%s: conditional total' % g.f.short)
            o = sub(a, At('arg', root)).const()
            if o is None or o % 8: raise jx.Broken('%s: place of a total unknown' % g.f.short)
            for l, v in enumerate(vals): got[int(o) // 8 + l] = (subst(v, g.env), w)
        names = {s.IX[n]: n for n in s.IX if n in INDEX or n.endswith('M')}
        want, bad, form = set(), set(), {}
        for (x, y, z) in picks:
            k = g.vec(x, y, z)
            sites = s.vector(lay, x, y, z)
            for cb in combos:
                for n, val in spec(sites, cb).items():
                    want.add(n)
                    if n in bad: continue
                    nm = names.get(n, str(n))
                    if n not in got:
                        bad.add(n)
                        s.ctx.violation(s.key(g, nm + '/missing'), '%s:%d' % (g.f.file, g.f.line), '%s: %s is not computed' % (g.what, nm)); continue
                    v, w = got[n]
                    if n not in form: form[n] = summand(v, '%s %s' % (g.f.short, nm))
                    fun, rest, T = form[n]
                    b = fun(k)
                    if T: b = add(b, scale(rest, Fraction(1, int(T))))
                    elif rest.t: b = rest
                    b = s.masks(b, lay, sites, cb, g.f)
                    s.n['sites_compared'] += len(sites)
                    if not equal(b, val):
                        bad.add(n)
                        s.ctx.violation(s.key(g, nm), w.where(), '%s: %s of the sites of vector (%d,%d,%d) is not the density of the model%s; computed %s, expected %s' % (g.what, nm, x, y, z,
                                        '' if cb is None else ' (mask %s)' % ''.join(map(str, cb)), str(b)[:160], str(val)[:160]))
        s.n['totals_compared'] += len(want)

    def masks(s, p, lay, sites, cb, f):
        """decide the mask bits of the sites"""
        if cb is None: return p
        on = {}
        for (x, y, z), b in zip(sites, cb): on[x + y * lay.Lx + z * lay.Lx ** 2] = b
        mp = {}
        for a in sym.allatoms(p):
            A = sym._atoms[a]
            if A.kind == 'ld':
                o = sub(sym.fromkey(A.args[0]), S('sdata')).const()
                if o is not None:
                    if int(o) not in on: raise OtherSite(int(o))
                    mp[a] = C(s.MASKBIT if on[int(o)] else 0)
        if not mp: return p
        for a in sym.allatoms(p):
            A = sym._atoms[a]
            if A.kind == 'fn' and A.args[0] == 'and':
                u, v = [subst(sym.fromkey(x), mp).const() for x in A.args[1:]]
                if u is not None and v is not None: mp[a] = C(int(u) & int(v))
        return subst(p, mp)

    def maps(s, g, spec, picks, combos):
        """spec(site, masked) -> {offset added to the site number: value}"""
        K, lay = g.K, g.lay
        st = K.field_stores(g.map)
        V = []
        for root, w, a, gd, vals, esz in st:
            lp = list(K.E.loopchain(w.bb.idx))
            if not lp: raise jx.Broken('%s: map stored outside the loop over the sites' % g.f.short)
            its = [{}]
            for l in lp[:-1]:                                       # loops over the lanes of a vector
                t = K.E.trip(l).const()
                if t is None or not 0 < t <= 32: raise jx.Broken('%s: map stored in a loop of unknown length' % g.f.short)
                its = [{**it, mk('k', l.id): C(n)} for it in its for n in range(int(t))]
            for it in its:
                V.append((w, mk('k', lp[-1].id), *[subst(subst(q, it), g.env) for q in (sub(a, At('arg', root)), gd)], [subst(subst(v, it), g.env) for v in vals], esz))
        for (x, y, z) in picks:
            k = g.vec(x, y, z)
            sites = s.vector(lay, x, y, z)
            for cb in combos:
                got = {}
                for w, kk, a, gd, vals, esz in V:
                    q = {kk: C(k)}
                    gv = s.masks(subst(gd, q), lay, sites, cb, g.f).const()
                    if gv is None: raise jx.Broken('%s: condition of the map store undecided: %s' % (g.f.short, str(s.masks(subst(gd, q), lay, sites, cb, g.f))[:200]))
                    if not gv: continue
                    o = subst(a, q).const()
                    if o is None: raise jx.Broken('%s: place of the map value unknown: %s' % (g.f.short, str(subst(a, q))[:100]))
                    for l, v in enumerate(vals): got[int(o) // esz + l] = (s.masks(subst(v, q), lay, sites, cb, g.f), w)
                want = {}
                for n, (X, Y, Z) in enumerate(sites):
                    for off, val in spec((X, Y, Z), cb[n] if cb else 1).items(): want[X + Y * lay.Lx + Z * lay.Lx ** 2 + off] = val
                for p, val in want.items():
                    s.n['map_values'] += 1
                    if p not in got:
                        s.ctx.violation(s.key(g, 'map/place'), V[0][0].where() if V else '%s:%d' % (g.f.file, g.f.line), '%s: the map value of a site of vector (%d,%d,%d) is not stored in its place' % (g.what, x, y, z)); return
                    if not equal(got[p][0], val):
                        s.ctx.violation(s.key(g, 'map/value'), got[p][1].where(), '%s: the map value of a site of vector (%d,%d,%d) is %s, expected %s' % (g.what, x, y, z, str(got[p][0])[:160], str(val)[:160])); return
                for p in got:
                    if p not in want:
                        s.ctx.violation(s.key(g, 'map/stray'), got[p][1].where(), '%s: a value is stored at position %d of the map, which belongs to no site of the vector' % (g.what, p)); return

    def compare(s, g, spec, mspec, mapped, picks, combos):
        try:
            s.totals(g, spec, picks, combos)
            if mapped: s.maps(g, mspec, picks, combos)
            elif g.map and g.K.field_stores(g.map):
                s.ctx.violation(s.key(g, 'map/unasked'), g.K.field_stores(g.map)[0][1].where(), '%s: m2 is overwritten although only averages were asked for' % g.what)
        except OtherSite as x:
            s.ctx.violation(s.key(g, 'mask/site'), '%s:%d' % (g.f.file, g.f.line), '%s: a vector of sites reads the mask of site %d, which it does not contain' % (g.what, x.args[0]))

    def saxion(s, g, q, pq, mod):
        IX, EN, e = s.IX, s.EN, g.e
        el, lay = g.el, g.lay
        shift = At('arg', 'shift')
        memo = {}
        i4 = power4(i1)
        ma2 = ZERO if q == 'V_QCD0' else SC('AxionMassSq')

        def dens(x, y, z):
            if (x, y, z) in memo: return memo[(x, y, z)]
            m = [el('mCpu', x, y, z, c) for c in (0, 1)]
            v = [el('vCpu', x, y, z, c, 0) for c in (0, 1)]
            r2 = add(mul(m[0], m[0]), mul(m[1], m[1]))
            i2 = inv(r2)
            out = {}

            def proj(d): return add(mul(d[0], m[0]), mul(d[1], m[1])), sub(mul(d[1], m[0]), mul(d[0], m[1]))
            for n, (dx, dy, dz) in (('GRX', (1, 0, 0)), ('GRY', (0, 1, 0)), ('GRZ', (0, 0, 1))):
                a = [ZERO, ZERO]
                for sg in (1, -1):
                    o = [el('mCpu', x + sg * dx, y + sg * dy, z + sg * dz, c) for c in (0, 1)]
                    p = proj([sub(o[c], m[c]) for c in (0, 1)])
                    a = [add(a[c], mul(mul(p[c], p[c]), i2)) for c in (0, 1)]
                out['RH_' + n], out['TH_' + n] = [mul(mul(b, OOD), i4) for b in a]
            p = proj(v)
            kr = sub(mul(p[0], i2), HUB); kt = mul(p[1], i2)                # m'/R - m R'/R^2 = (v - m R'/R)/R
            out['RH_KIN'], out['TH_KIN'] = [scale(mul(mul(mul(b, b), r2), i4), Fraction(1, 2)) for b in (kr, kt)]
            ms = [sub(m[0], shift), m[1]]
            s2 = add(mul(ms[0], ms[0]), mul(ms[1], ms[1]))
            F2 = mul(s2, mul(i1, i1))
            w = sub(F2, ONE) if pq == 'V_PQ1' else sub(mul(F2, F2), ONE)
            out['RH_POT'] = scale(mul(LAM, mul(w, w)), Fraction(1, 4))
            if q in ('V_QCD1', 'V_QCDC'): u = sub(ONE, div(ms[0], sqrt(s2)))
            elif q == 'V_QCDV':
                a, b = sub(ONE, mul(ms[0], i1)), mul(ms[1], i1)
                u = scale(add(mul(a, a), mul(b, b)), Fraction(1, 2))
            elif q == 'V_QCD2': u = scale(sub(ONE, div(mul(ms[0], ms[0]), s2)), Fraction(1, 2))
            else: u = ZERO
            out['TH_POT'] = mul(ma2, u)
            out['RH_RHO'] = sqrt(F2)
            memo[(x, y, z)] = out
            return out
        ene, mask, map_ = EN[e] & EN['EN_ENE'], EN[e] & EN['EN_MASK'], EN[e] & EN['EN_ONLYMAP']

        def spec(sites, cb):
            out = {}
            for n in INDEX:
                if ene: out[IX[n]] = summed([dens(*c)[n] for c in sites])
                if mask: out[IX[n + 'M']] = summed([dens(*c)[n] for c, b in zip(sites, cb) if b])
            if mask: out[IX['MM_NUMM']] = C(sum(cb))
            return out

        def mspec(c, b):
            if e == 'EN_MAPMASK' and not b: return {0: ZERO, g.half: ZERO}
            d = dens(*c)
            return {0: summed([d['TH_' + t] for t in T5]), g.half: summed([d['RH_' + t] for t in T5])}
        combos = [None] if not mask else [(1,) * lay.sh, (0,) * lay.sh, (1,) + (0,) * (lay.sh - 1), (0,) * (lay.sh - 1) + (1,)] if lay.sh == 2 else [(1, 1, 1, 1), (0, 0, 0, 0), (1, 0, 0, 1), (0, 1, 1, 0), (0, 0, 1, 0)]
        plain = q == 'V_QCDC' and pq == 'V_PQ1'
        pk = s.picks(lay, False) if plain else [(0, 0, 0), (2, 1, 1)]
        if plain and s.ctx.tier != 'quick': pk = s.picks(lay, True)
        s.compare(g, spec, mspec, map_, pk, combos)

    def axion(s, g, q, pq, mod):
        IX, el, lay = s.IX, g.el, g.lay
        i4 = power4(i1)
        ma2 = ZERO if q == 'V_QCD0' else SC('AxionMassSq')
        memo = {}

        def dens(x, y, z):
            if (x, y, z) in memo: return memo[(x, y, z)]
            m, v = el('mCpu', x, y, z, 0), el('vCpu', x, y, z, 0, 0)
            out = {}
            for n, (dx, dy, dz) in (('GRX', (1, 0, 0)), ('GRY', (0, 1, 0)), ('GRZ', (0, 0, 1))):
                a = ZERO
                for sg in (1, -1):
                    d = sub(el('mCpu', x + sg * dx, y + sg * dy, z + sg * dz, 0), m)
                    if mod: d = fn('mod', d, scale(R, TWOPI))
                    a = add(a, mul(d, d))
                out['TH_' + n] = mul(mul(a, OOD), i4)
            k = sub(v, mul(m, HUB))
            out['TH_KIN'] = scale(mul(mul(k, k), i4), Fraction(1, 2))
            sn = fn('sin', scale(mul(m, i1), Fraction(1, 2)))
            out['TH_POT'] = mul(ma2, scale(mul(sn, sn), 2))
            memo[(x, y, z)] = out
            return out
        spec = lambda sites, cb: {IX['TH_' + t]: summed([dens(*c)['TH_' + t] for c in sites]) for t in T5}
        s.compare(g, spec, lambda c, b: {0: summed([dens(*c)['TH_' + t] for t in T5])}, s.EN[g.e] & s.EN['EN_ONLYMAP'], s.picks(lay, s.ctx.tier != 'quick'), [None])

    def paxion(s, g, q, pq, mod):
        """units of the mass: gradient |grad psi|^2 / (2 m R^5), self-interaction -|psi|^4 / (16 R^6), number |psi|^2"""
        IX, el, lay = s.IX, g.el, g.lay
        memo = {}
        i5 = mul(power4(i1), i1)

        def dens(x, y, z):
            if (x, y, z) in memo: return memo[(x, y, z)]
            F = lambda *c: [el(a, *c, 0) for a in ('mCpu', 'vCpu')]
            m = F(x, y, z)
            out = {}
            for n, (dx, dy, dz) in (('GRX', (1, 0, 0)), ('GRY', (0, 1, 0)), ('GRZ', (0, 0, 1))):
                a = ZERO
                for sg in (1, -1):
                    o = F(x + sg * dx, y + sg * dy, z + sg * dz)
                    for c in (0, 1):
                        d = sub(o[c], m[c]); a = add(a, mul(d, d))
                out['TH_' + n] = mul(mul(mul(a, OOD), i5), inv(SC('AxionMass')))
            n2 = add(mul(m[0], m[0]), mul(m[1], m[1]))
            out['TH_KIN'] = n2
            out['TH_POT'] = scale(mul(mul(i5, i1), mul(n2, n2)), Fraction(-1, 16))
            memo[(x, y, z)] = out
            return out
        spec = lambda sites, cb: {IX['TH_' + t]: summed([dens(*c)['TH_' + t] for c in sites]) for t in T5}
        mspec = lambda c, b: {0: dens(*c)['TH_KIN'], g.half: summed([dens(*c)['TH_' + t] for t in ('GRX', 'GRY', 'GRZ', 'POT')])}
        s.compare(g, spec, mspec, s.EN[g.e] & s.EN['EN_ONLYMAP'], s.picks(lay, s.ctx.tier != 'quick'), [None])


class Scene: pass


class OtherSite(Exception): pass


T5 = ('GRX', 'GRY', 'GRZ', 'KIN', 'POT')
TWOPI = 2 * math.pi


def summed(l):
    r = ZERO
    for x in l: r = add(r, x)
    return r


def power4(p): return mul(mul(p, p), mul(p, p))


def run(ctx):
    # the loops over the lanes of a vector are unrolled, so that the arrays they fill are plain values
    unroll = jx.KERN_PASSES + ',' + 'function(loop-simplify,lcssa,loop(loop-unroll-full)),' + jx.KERN_PASSES.split(',', 1)[1]
    P = jx.Program(['lib/energy/energyXeon.cpp', 'lib/energy/energyThetaXeon.cpp', 'lib/energy/energyPaxionXeon.cpp', 'lib/energy/energy.cpp'], 'kern',
                   [r'--keep=^(void )?[A-Za-z0-9]+Xeon(<|\()|^(void )?energy[A-Za-z]*Cpu(<|\()|^energy\(|Energy::Energy\(',
                    '--noinline=' + jx.KERN_KEEPOUT + r'|Scalar::|Logger|Log|Folder|Tunable|basic_string|std::__cxx11|std::map|std::(_Rb_tree|pair)|rofiler|energy[A-Za-z]*Xeon(<|\()', '--passes=' + unroll])
    c03.parts(ctx, lambda: Check(ctx, P), 8)
    ctx.floor('scenarios', ctx.cov.get('scenarios', 0), 180)
    ctx.floor('totals_compared', ctx.cov.get('totals_compared', 0), 1000)
    ctx.floor('map_values', ctx.cov.get('map_values', 0), 500)
