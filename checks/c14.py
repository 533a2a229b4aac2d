"""Every Fourier plan transforms the buffers, in the precision, layout and direction that its type names, and runs the direction asked for."""
import re
import jx, sym, walk, steps
from sym import C, ZERO, add, sub, mul, inv, mk, atom_poly
from steps import at

LEVEL = 'other'
EXPLANATION = ('The plan constructor is unfolded for every plan type, precision, direction and planner effort with symbolic buffers; the FFTW planner calls reached must name the library of that '
               'precision, the global grid divided by the reduction factor, the source and target buffers of the type, the direction stored, and matching transposed layouts of the two '
               'directions. run(), destroyPlan(), initFFT() and the field transform are unfolded the same way, and every plan name that is fetched must be one that is created with the directions run on it.')
RULES = ['planner call = (library, kind, sign, grid, source, target, layout) of its type', 'layout written by the forward plan = layout read by the backward plan',
         'execute and destroy use the library of the plan and the plan of the direction', 'forward field transform: plan of the buffer, then division by the number of points; backward: plan, then rows unpadded',
         'fetched plan names are created names']

# kind, forward source -> target, backward source -> target, transposed in momentum space
M, V, M2, M2S, M2H, M0 = 'mStart', 'vCpu', 'm2Cpu', 'm2Start', 'm2half', 'mCpu'
PLANS = {'FFT_CtoC_MtoM': ('c2c', M, M, M, M, 1), 'FFT_CtoC_VtoV': ('c2c', V, V, V, V, 1), 'FFT_CtoC_M2toM2': ('c2c', M2, M2, M2, M2, 1),
         'FFT_CtoC_MtoM2': ('c2c', M, M2, M2, M, 0), 'FFT_CtoC_M2toM': ('c2c', M2, M, M, M2, 1), 'FFT_CtoC_VtoM2': ('c2c', V, M2, M2, V, 0),
         'FFT_RDSX_V': ('c2c', V, M2, M2, M2, 0), 'FFT_RDSX_M': ('c2c', M, M2, M2, M2, 1), 'FFT_SPSX': ('c2c', M, M2, M2, M2, 1),
         'FFT_SPAX': ('r2c', M2, M2, M2, M2, 1), 'FFT_PSPEC_AX': ('r2c', M2, M2, M2, M2, 1), 'FFT_RHO_SX': ('r2c', M2H, M2H, M2H, M2H, 1),
         'FFT_RtoC_M2StoM2S': ('r2c', M2S, M2S, M2S, M2S, 1), 'FFT_RtoC_MtoM_WKB': ('r2c', M0, M0, M0, M0, 1), 'FFT_RtoC_VtoV_WKB': ('r2c', V, V, V, V, 1),
         'FFT_RtoC_M2toM2_WKB': ('r2c', M2, M2, M2, M2, 1), 'FFT_RtoC_M2toM': ('r2c', M2, M0, M0, M2, 1), 'FFT_RtoC_M2toV': ('r2c', M2, V, V, M2, 1)}
OUT, IN = 1 << 30, 1 << 29          # FFTW_MPI_TRANSPOSED_OUT, _IN
LIBNAME = {'FIELD_SINGLE': 'fftwf_', 'FIELD_DOUBLE': 'fftw_'}
SIZE = {'FIELD_SINGLE': 4, 'FIELD_DOUBLE': 8}


class W_(walk.Walk):
    def __init__(s, P, f, ans=None, globs=None, **kw):
        super().__init__(P, f, **kw)
        s.ans, s.globs = ans or {}, globs or {}

    def interesting(s, i): return False

    def cmp(s, pred, a, b):
        if pred in ('eq', 'ne') and b.const() == 0 and buf(a): return C(int(pred == 'ne'))   # the buffers exist
        return super().cmp(pred, a, b)

    def onload(s, p, i, a):
        x = at(a)
        if x and x[0] == 'glob':
            for k, v in s.globs.items():
                if re.search(k, x[1]): return C(v)
        return None

    def call(s, p, i):
        if isinstance(i.x, str) and (i.x.startswith('llvm.memcpy') or i.x.startswith('llvm.memmove') or i.x in ('memcpy', 'memmove')):
            p.x['copy'] = p.x.get('copy', ()) + (tuple(s.op(p, q) for q in i.ops[:3]) + (i,),)
        return super().call(p, i)

    def value(s, p, i, name, args):
        n = steps.fname(name)
        if re.search(r'\bScalar::', name):
            if n in s.ans: return C(s.ans[n])
            if n.startswith('set'): p.x['log'] = p.x.get('log', ()) + (('set', n, tuple(args[1:]), i),)
            return atom_poly(mk('sc', n, *[a.key() for a in args[1:]]))
        if n in ('exit', 'abort', '_exit'):
            p.x['exit'] = i
            raise walk.Stop
        if n == 'commRank': return C(s.ans.get('rank', 0))
        if re.search(r'AxionEnum::operator([&|^])<', name):
            a, b = args[0].const(), args[1].const()
            if a is not None and b is not None:
                o = re.search(r'AxionEnum::operator(.)<', name).group(1)
                return C({'&': a & b, '|': a | b, '^': a ^ b}[o])
        if re.match(r'fftwf?_', n) or n in ('run', 'PlanFwd', 'PlanBack', 'ftField', 'iftField', 'padtom2', 'unpadfromm2') or 'scaleField' in name:
            p.x['log'] = p.x.get('log', ()) + ((n, n, tuple(args), i),)
            if n.startswith('fftw') and n.endswith('init_threads'): return C(1)
            if n.startswith('fftw'): return atom_poly(mk('plan', len(p.x['log']), i.id))
        if 'basic_string' in name and re.search(r'::basic_string(<.*>)?\(', name) and len(args) > 1:
            v = s.string(p, args[1])
            if v is not None: p.x['str'] = dict(p.x.get('str', {})); p.x['str'][args[0].key()] = v
            return None
        if n == 'fetchPlan':
            v = s.string(p, args[0])
            return atom_poly(mk('fetched', v if v is not None else str(args[0])[:40]))
        return None

    def string(s, p, a):
        k = a.key()
        if k in p.x.get('str', {}): return p.x['str'][k]
        x = at(a)
        if x and x[0] == 'glob':
            g = s.f.mod.gv.get(x[1])
            if g and g.get('str') is not None: return g['str'].rstrip('\0')
        return None

    def go(s, p, b, frm):
        try: super().go(p, b, frm)
        except walk.Stop: s.done.append(p)


def one(P, ctx, pat, what):
    L = [f for f in P.all if re.search(pat, f.dem)]
    ctx.need(len(L) == 1, '%s not found (%d candidates)' % (what, len(L)))
    return L[0]


def buf(a):
    x = at(a)
    return x[1] if x and x[0] == 'sc' and len(x) == 2 else None


def run(ctx):
    P = jx.Program(['lib/fft/fftCode.cpp', 'lib/scalar/fourier.cpp'], 'kern',
                   [r'--keep=FFTplan::|AxionFFT::|FTfield::', '--noinline=' + jx.KERN_KEEPOUT + r'|std::(__cxx11|map|_Rb_tree|_Construct|pair)|basic_string|Tunable::|FTfield::|scaleField|Folder|FFTplan::|AxionFFT::'])
    E = {n: P.enum(n) for n in ('FFTtype_s', 'FFTdir_s', 'FieldPrecision_s', 'FieldType_s', 'FieldIndex_s')}
    ft, fd, fp = E['FFTtype_s'], E['FFTdir_s'], E['FieldPrecision_s']
    ctor(ctx, P, ft, fd, fp)
    execute(ctx, P, fd, fp)
    init(ctx, P, fp)
    field(ctx, P, E)
    names(ctx, fd)
    ctx.floor('planner_calls', ctx.cov.get('planner_calls', 0), 100)


def ctor(ctx, P, ft, fd, fp):
    f = one(P, ctx, r'FFTplan::FFTplan\(Scalar\*', 'the plan constructor')
    st = {n: o for o, sz, n, t in P.struct('FFTplan')['m']}
    ctx.need('planForward' in st and 'planBackward' in st, 'members of FFTplan not recognised')
    a = [x[0] for x in f.args]
    types = [t for t in ft if t != 'FFT_NOTYPE']
    this = atom_poly(mk('arg', a[0]))
    for t in types:
        for pr in LIBNAME:
            for d in ('FFT_FWD', 'FFT_BCK', 'FFT_FWDBCK'):
                for eff, red in ((0, 1), (64, 2)):
                    ans = dict(Precision=fp[pr], Length=64, TotalDepth=128, LowMem=0, m2half=None)
                    ans = {k: v for k, v in ans.items() if v is not None}
                    W = W_(P, f, ans, {'fftplanType': eff}, bind={a[2]: C(ft[t]), a[3]: C(fd[d]), a[4]: C(red)})
                    for p in W.run():
                        ctx.cover(obligations=1)
                        ends(ctx, f, p, W, t, pr, d, fd[d], eff, red, this, st)


def ends(ctx, f, p, W, t, pr, d, dv, eff, red, this, st):
    w = PLANS.get(t)
    key = 'plan/%s/%s' % (t, pr)
    L = [x for x in p.x.get('log', ()) if re.search(r'mpi_plan', x[0])]
    here = '%s:%d' % (f.file, f.line)
    if 'exit' in p.x:
        ctx.violation(key + '/refused', p.x['exit'].where(), 'the plan %s in %s is refused although its buffers exist' % (t, pr))
        return
    if w is None:
        if L: ctx.violation(key + '/unknown-type', L[0][3].where(), 'a plan type this table does not know creates a plan: ' + t)
        return
    kind, fs, fd_, bs, bd, tr = w
    got = {}
    for n, _, args, i in L:
        ctx.cover(planner_calls=1)
        lib = re.match(r'fftwf?_', n).group(0)
        if lib != LIBNAME[pr]: ctx.violation(key + '/library', i.where(), '%s in %s is planned with %s' % (t, pr, n)); continue
        m = re.match(r'fftwf?_mpi_plan_dft(_r2c|_c2r)?_3d$', n)
        if not m: ctx.violation(key + '/planner', i.where(), '%s is planned with %s' % (t, n)); continue
        k = (m.group(1) or '')[1:]
        if [x.const() for x in args[:3]] != [128 // red, 64 // red, 64 // red]:
            ctx.violation(key + '/grid', i.where(), '%s in %s is planned on a grid (%s) instead of (TotalDepth, Length, Length)/reduction' % (t, pr, ', '.join(str(x)[:20] for x in args[:3])))
        sgn, fl = (args[6].const(), args[7].const()) if not k else ({'r2c': -1, 'c2r': 1}[k], args[6].const())
        if sgn not in (-1, 1): ctx.violation(key + '/sign', i.where(), '%s in %s is planned with direction %s' % (t, pr, sgn)); continue
        where = [x for x, o in st.items() if x in ('planForward', 'planBackward') and p.mem.get(add(this, C(o)).key()) is not None
                 and at(p.mem[add(this, C(o)).key()]) == ('plan', p.x['log'].index((n, _, args, i)) + 1, i.id)]
        side = 'planForward' if sgn == -1 else 'planBackward'
        if where != [side]: ctx.violation(key + '/%s-stored' % side, i.where(), 'the %s transform of %s in %s is stored as %s' % ('forward' if sgn == -1 else 'backward', t, pr, where or 'nothing'))
        if (kind == 'c2c') != (k == ''): ctx.violation(key + '/kind', i.where(), '%s in %s is planned as a %s transform' % (t, pr, k or 'complex'))
        if sgn == -1: ws, wd, wl = fs, fd_, OUT if tr else 0
        else: ws, wd, wl = bs, bd, IN if tr else 0
        if (buf(args[3]), buf(args[4])) != (ws, wd):
            ctx.violation(key + '/%s-buffers' % side, i.where(), '%s of %s in %s goes from %s to %s instead of %s to %s' % (side, t, pr, buf(args[3]) or args[3], buf(args[4]) or args[4], ws, wd))
        if fl != eff | wl:
            ctx.violation(key + '/%s-layout' % side, i.where(), '%s of %s in %s is planned with flags %s instead of %s' % (side, t, pr, fl, eff | wl))
        got[side] = i
    want = {x for x, b in (('planForward', 1), ('planBackward', 2)) if dv & b}
    for x in want - set(got):
        if not any(v['key'].startswith(key) for v in ctx.viol): ctx.violation(key + '/%s-missing' % x, here, '%s in %s for %s has no %s' % (t, pr, d, x))
    for x in set(got) - want: ctx.violation(key + '/%s-unasked' % x, got[x].where(), '%s in %s for %s creates %s' % (t, pr, d, x))


def execute(ctx, P, fd, fp):
    st = {n: o for o, sz, n, t in P.struct('FFTplan')['m']}
    f = one(P, ctx, r'FFTplan::run\(', 'FFTplan::run')
    a = [x[0] for x in f.args]
    this = atom_poly(mk('arg', a[0]))

    class R(W_):
        def onload(s, p, i, ad):
            d = sub(ad, this).const()
            if d == st['prec']: return C(s.ans['prec'])
            if d in (st['planForward'], st['planBackward']): return atom_poly(mk('member', 'F' if d == st['planForward'] else 'B'))
            return super().onload(p, i, ad)
    for pr in LIBNAME:
        for d, mem in (('FFT_FWD', 'F'), ('FFT_BCK', 'B')):
            for rank in (0, 1):
                W = R(P, f, dict(prec=fp[pr], rank=rank), bind={a[1]: C(fd[d])})
                for p in W.run():
                    ctx.cover(obligations=1)
                    L = [x for x in p.x.get('log', ()) if 'execute' in x[0]]
                    if len(L) != 1 or L[0][0] != LIBNAME[pr] + 'execute' or at(L[0][2][0]) != ('member', mem):
                        ctx.violation('run/%s/%s' % (pr, d), (L[0][3].where() if L else '%s:%d' % (f.file, f.line)),
                                      'run(%s) of a plan in %s executes %s' % (d, pr, [(x[0], str(x[2][0])) for x in L] or 'nothing'))
    g = one(P, ctx, r'AxionFFT::destroyPlan\(', 'destroyPlan')
    a = [x[0] for x in g.args]
    that = atom_poly(mk('arg', a[0]))

    class D(W_):
        def onload(s, p, i, ad):
            d = sub(ad, that).const()
            if d == st['prec']: return C(s.ans['prec'])
            if d == st['dFft']: return C(s.ans['dir'])
            if d in (st['planForward'], st['planBackward']): return atom_poly(mk('member', 'F' if d == st['planForward'] else 'B'))
            return None

        def value(s, p, i, name, args):
            n = steps.fname(name)
            if n == 'Precision': return C(s.ans['prec'])
            if n == 'Direction': return C(s.ans['dir'])
            if n == 'PlanFwd': return atom_poly(mk('member', 'F'))
            if n == 'PlanBack': return atom_poly(mk('member', 'B'))
            return super().value(p, i, name, args)
    for pr in LIBNAME:
        for d in ('FFT_FWD', 'FFT_BCK', 'FFT_FWDBCK'):
            W = D(P, g, dict(prec=fp[pr], dir=fd[d]))
            for p in W.run():
                ctx.cover(obligations=1)
                got = sorted((x[0], str(at(x[2][0])[1])) for x in p.x.get('log', ()) if 'destroy' in x[0])
                want = sorted((LIBNAME[pr] + 'destroy_plan', m) for m, b in (('F', 1), ('B', 2)) if fd[d] & b)
                if got != want: ctx.violation('destroy/%s/%s' % (pr, d), '%s:%d' % (g.file, g.line), 'destroying a %s plan in %s calls %s instead of %s' % (d, pr, got, want))


def init(ctx, P, fp):
    f = one(P, ctx, r'AxionFFT::initFFT\(', 'initFFT')
    a = [x[0] for x in f.args]
    for pr in LIBNAME:
        W = W_(P, f, dict(rank=1), {'fftplanType': 0, r'AxionFFT.*init|initE$': 0}, bind={a[0]: C(fp[pr])})
        for p in W.run():
            ctx.cover(obligations=1)
            L = [x[0] for x in p.x.get('log', ())]
            want = [LIBNAME[pr] + x for x in ('init_threads', 'mpi_init', 'plan_with_nthreads')]
            if [x for x in L if x in want] != want or any(not x.startswith(LIBNAME[pr]) for x in L):
                ctx.violation('init/%s' % pr, '%s:%d' % (f.file, f.line), 'initialising the transforms in %s calls %s; threads must be initialised before MPI, in that library' % (pr, L))


def field(ctx, P, E):
    FT, FI = E['FieldType_s'], E['FieldIndex_s']
    fwd = {('FIELD_SAXION', 'FIELD_M'): ('C2CM2M', None), ('FIELD_SAXION', 'FIELD_V'): ('C2CV2V', None), ('FIELD_SAXION', 'FIELD_M2TOM2'): ('C2CM22M2', None),
           ('FIELD_AXION', 'FIELD_M'): ('R2CM22M', 'mStart'), ('FIELD_AXION', 'FIELD_V'): ('R2CM22V', 'vCpu'), ('FIELD_AXION', 'FIELD_M2TOM2'): ('pSpecAx', None)}
    bck = {('FIELD_SAXION', 'FIELD_M'): ('C2CM2M', None), ('FIELD_SAXION', 'FIELD_V'): ('C2CV2V', None), ('FIELD_SAXION', 'FIELD_MTOM2'): ('C2CM22M', None),
           ('FIELD_AXION', 'FIELD_M'): ('R2CM22M', 'mStart'), ('FIELD_AXION', 'FIELD_V'): ('R2CM22V', 'vCpu'), ('FIELD_AXION', 'FIELD_MTOM2'): ('R2CM22M', None)}
    target = {'FIELD_M': 'FIELD_M', 'FIELD_V': 'FIELD_V', 'FIELD_M2TOM2': 'FIELD_M2'}
    for tab, fn, momf, d in ((fwd, 'ftField', 0, 1), (bck, 'iftField', 1, 2)):
        f = one(P, ctx, r'FTfield::%s\(' % fn, fn)
        a = [x[0] for x in f.args]
        st = {o: n for o, sz, n, t in P.struct('FTfield')['m']}
        this = atom_poly(mk('arg', a[0]))

        class F(W_):
            def onload(s, p, i, ad):
                dd = sub(ad, this).const()
                if dd is not None and dd in st: return atom_poly(mk('sym', st[dd]))
                return super().onload(p, i, ad)
        for (fld, ix), (plan, pad) in tab.items():
            W = F(P, f, dict(Field=FT[fld], Device=0, MMomSpace=momf, VMomSpace=momf, Folded=0), bind={a[1]: C(FI[ix])})
            for p in W.run():
                ctx.cover(obligations=1)
                L = [x for x in p.x.get('log', ()) if x[0] != 'set' or x[1] in ('setMMomSpace', 'setVMomSpace')]
                seq, ok = [], True
                for n, nm, args, i in L:
                    if n == 'run': seq.append(('run', (at(args[0]) or ('', '?'))[1], args[1].const()))
                    elif n in ('padtom2', 'unpadfromm2'): seq.append((n, buf(args[1])))
                    elif n == 'scaleField': seq.append((n, args[1].const(), args[2].key()))
                    elif n == 'set': seq.append((nm, args[0].const()))
                want = []
                if d == 1 and pad: want.append(('padtom2', pad))
                want.append(('run', plan, d))
                if d == 1: want.append(('scaleField', FI[target[ix]], inv(atom_poly(mk('sym', 'N'))).key()))
                if d == 2 and pad: want.append(('unpadfromm2', pad))
                if ix in ('FIELD_M', 'FIELD_V'): want.append(('setMMomSpace' if ix == 'FIELD_M' else 'setVMomSpace', 1 if d == 1 else 0))
                if seq != want:
                    ctx.violation('%s/%s/%s' % (fn, fld, ix), '%s:%d' % (f.file, f.line), 'the %s transform of %s of a %s field does %s instead of %s'
                                  % ('forward' if d == 1 else 'backward', ix, fld, pretty(seq), pretty(want)))
    # padding and unpadding of rows
    for fn, way in (('padtom2', 0), ('unpadfromm2', 1)):
        f = one(P, ctx, r'FTfield::%s\(' % fn, fn)
        a = [x[0] for x in f.args]
        for L_, D_, pr in ((4, 3, 4), (6, 2, 8)):
            W = W_(P, f, dict(Field=FT['FIELD_AXION'], Length=L_, Depth=D_, Precision=pr))
            for p in W.run():
                ctx.cover(obligations=1)
                pt, m2 = atom_poly(mk('arg', a[1])), atom_poly(mk('sc', 'm2Cpu'))
                got = set()
                for dst, src, n, i in p.x.get('copy', ()):
                    x, y = (dst, src) if way == 0 else (src, dst)
                    got.add((sub(x, m2).const(), sub(y, pt).const(), n.const()))
                want = {(r * (L_ + 2) * pr, r * L_ * pr, L_ * pr) for r in range(L_ * D_)}
                if got != want: ctx.violation('%s/rows' % fn, '%s:%d' % (f.file, f.line), '%s of a field of %d slices of %dx%d does not copy each row between stride Lx and stride Lx+2' % (fn, D_, L_, L_))


def pretty(L): return '; '.join(' '.join(str(y)[:40] for y in x) for x in L)


def names(ctx, fd):
    tus = [t for t in jx.ALL_TUS if re.search(r'fetchPlan|initPlan|potentialClass\.h|propClass\.h', open('%s/%s' % (jx.REPO, t)).read())]
    P = jx.Program(tus, 'cfg', ['--keep=.*'])
    created, fetched = {}, []
    callers = {}
    for f in P.all:
        for i in f.insts():
            if i.op == 'call' and isinstance(i.x, str): callers.setdefault(i.x, []).append((f, i))

    def lits(f, o, seen):
        """literals that reach a string (object or character pointer); None in the set: something else"""
        if not isinstance(o, int):
            s = jx.gstr(f.mod, o)
            return {s.rstrip('\0')} if s is not None else {None}
        if (f.name, o) in seen: return set()
        seen.add((f.name, o))
        if o < len(f.args):
            out = set()
            for g, i in callers.get(f.name, ()): out |= lits(g, i.ops[o], seen)
            return out
        d = f.val.get(o)
        if d is None: return {None}
        if d.op == 'phi': return set().union(*[lits(f, q[0], seen) for q in d.ops])
        if d.op == 'select': return lits(f, d.ops[1], seen) | lits(f, d.ops[2], seen)
        if d.op == 'alloca':
            out = set()
            for u in f.users().get(o, ()):
                if u.op == 'call' and isinstance(u.x, str) and u.ops and u.ops[0] == o and len(u.ops) > 1:
                    n = P.dem(u.x, f.mod)
                    if re.search(r'::basic_string(<.*>)?\(|basic_string<.*>::operator=\(', n): out |= lits(f, u.ops[1], seen)
            return out or {None}
        if d.op == 'call' and isinstance(d.x, str) and 'c_str' in d.x and d.ops: return lits(f, d.ops[0], seen)
        return {None}

    for f in P.all:
        for i in f.insts():
            if i.op != 'call' or not isinstance(i.x, str): continue
            n = P.dem(i.x, f.mod)
            if n.startswith('AxionFFT::initPlan('):
                for s in lits(f, i.ops[3], set()):
                    ty, d = (o[2] if isinstance(o, list) and o[0] == 'ci' else None for o in i.ops[1:3])
                    ctx.cover(plans_created=1)
                    if s is None or ty is None or d is None: raise jx.Broken('%s: the plan created at %s is not identified' % (f.short, i.where()))
                    created.setdefault(s, []).append((ty, d, f, i))
            elif n.startswith('AxionFFT::fetchPlan('):
                ds = set()
                for u in f.users().get(i.id, ()):
                    if u.op == 'call' and isinstance(u.x, str) and 'FFTplan::run(' in P.dem(u.x, f.mod): ds.add((u.ops[1][2] if not isinstance(u.ops[1], int) else None, u))
                fetched.append((lits(f, i.ops[0], set()), ds, f, i))
    for s, L in created.items():
        ctx.cover(obligations=1)
        if len({t for t, d, f, i in L}) > 1:
            ctx.violation('names/%s/types' % s, L[-1][3].where(), 'plan "%s" is created with different types: which one is used depends on who comes first' % s)
    for ss, ds, f, i in fetched:
        ctx.cover(plans_fetched=1)
        for s in sorted(ss, key=str):
            if s is None: raise jx.Broken('%s: the plan fetched at %s is not identified' % (f.short, i.where()))
            ctx.cover(obligations=1)
            if s not in created:
                ctx.violation('names/%s/never-created' % s, i.where(), '%s uses plan "%s", which nothing creates' % (f.short, s)); continue
            for d, u in ds:
                ctx.cover(plan_runs=1)
                if d is None: continue
                if not any(have & d for t, have, g, j in created[s]):
                    ctx.violation('names/%s/direction' % s.replace(' ', '_'), u.where(), '%s runs plan "%s" in a direction (%s) that was never planned' % (f.short, s, d))
    ctx.floor('plan_names', len(created), 15)
    ctx.floor('plan_users', len(fetched), 30)
