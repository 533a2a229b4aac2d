"""The propagation code that runs is the one selected by field type, engine, integrator, potential, memory mode and precision."""
import re, subprocess
import jx, sym, walk, steps, c03
from sym import C, ZERO, add, sub, mk, atom_poly
from steps import T, at

LEVEL = 'other'
EXPLANATION = ('Every selector of the propagator is unfolded with concrete selector values and symbolic everything else: which integrator instance initPropagator builds for each '
               '(integrator, engine, potential), which step function each engine and memory mode installs for each field type, which installed step propagate() calls for each field '
               'type and with which step size, which potential, precision and block sizes each step passes to its kernels, and which angle kernel the run time dispatch picks.')
RULES = []

QCD = {1: 'V_QCD0', 2: 'V_QCD1', 4: 'V_QCDV', 8: 'V_QCD2', 16: 'V_QCDL', 32: 'V_QCDC'}
# expected step function: (engine, lowmem) -> field -> method
TABLE = {('PROPC_SPEC', 0): {'propSaxion': 'sSpecCpu', 'propAxion': 'tSpecCpu'},
         ('PROPC_FSPEC', 0): {'propSaxion': 'sFpecCpu', 'propAxion': 'tFpecCpu'},
         ('PROPC_BASE', 0): {'propSaxion': 'sRunCpu', 'propAxion': 'tRunCpu', 'propNaxion': 'nRunCpu', 'propPaxion': 'pRunCpu'},
         ('PROPC_BASE', 1): {'propSaxion': 'lowCpu', 'propAxion': 'tRunCpu'}}
FIELDS = {'FIELD_SAXION': 'propSaxion', 'FIELD_AXION': 'propAxion', 'FIELD_AXION_MOD': 'propAxion', 'FIELD_NAXION': 'propNaxion', 'FIELD_PAXION': 'propPaxion'}
# potentials the angle kernels implement: the periodic ones have the same reduction to the angle
THETA = {0: 'V_QCD0', 1: 'V_QCD0', 2: 'V_QCDC', 4: 'V_QCDC', 32: 'V_QCDC', 16: 'V_QCDL'}


class Sel(walk.Walk):
    """a selector function with concrete answers of the field object"""

    def __init__(s, P, f, ans=None, **kw):
        super().__init__(P, f, **kw)
        s.ans = ans or {}

    def interesting(s, i): return False

    def value(s, p, i, name, args):
        n = steps.fname(name)
        if re.search(r'\bScalar::', name) and n in s.ans: return C(s.ans[n])
        if n in ('exit', 'abort', '_exit'):
            p.x['exit'] = i
            raise walk.Stop
        if re.search(r'AxionEnum::operator([&|^])<', name):
            a, b = args[0].const(), args[1].const()
            if a is not None and b is not None:
                o = re.search(r'AxionEnum::operator(.)<', name).group(1)
                return C({'&': a & b, '|': a | b, '^': a ^ b}[o])
        r = s.sel(p, i, name, n, args)
        return r

    def sel(s, p, i, name, n, args): return None

    def go(s, p, b, frm):
        try: super().go(p, b, frm)
        except walk.Stop: s.done.append(p)


class Ctor(Sel):
    def sel(s, p, i, name, n, args):
        m = re.search(r'std::function<void \(double\)>::operator=<(.*)$', name)
        if m:
            off = sub(args[0], atom_poly(mk('arg', 'this'))).const()
            p.x['set'] = dict(p.x.get('set', {})); p.x['set'][off] = (m.group(1), i)
        return None


def methods_of(P, typ, cls, cache={}):
    """step functions called by a callable type, virtual calls resolved through the class's function table"""
    if typ in cache: return cache[typ]
    out = set()
    tabs = [(d, m) for m in P.mods.values() for d in m.gv.values() if d['dem'] == 'vtable for ' + cls]
    vt = [e[1] if e[0] == 'g' else '-' for e in tabs[0][0]['init'][1][0][1]] if tabs else []
    vt = subprocess.run(['llvm-cxxfilt-18'] + vt, capture_output=True, text=True).stdout.split('\n') if vt else []
    for f in P.all:
        if not f.dem.startswith(typ + '::operator()('): continue
        for i in f.insts():
            if i.op != 'call': continue
            if isinstance(i.x, str): q = P.dem(i.x, f.mod)
            else:
                sl = slot(f, i)
                q = vt[2 + sl] if sl is not None and 2 + sl < len(vt) and vt[2 + sl] else '<unresolved virtual call>'
            n = re.sub(r'.*::', '', q.split('(double)')[0])
            if n.endswith(('Cpu', 'Gpu')) or '<' == q[0]: out.add((n, q))
    cache[typ] = out
    return out


def slot(f, i):
    """index of the function table entry a virtual call uses"""
    for x in (i.x if isinstance(i.x, list) else [i.x]):
        o = f.val.get(x) if isinstance(x, int) else None
        if o is None or o.op != 'load' or o.ty != 'ptr': continue
        q = f.val.get(o.ops[0])
        if q is not None and q.op == 'getelementptr' and q.x[0] % 8 == 0 and not q.x[1]:
            base = f.val.get(q.ops[0])
            if base is not None and base.op == 'load': return q.x[0] // 8
        elif q is not None and q.op == 'load': return 0
    return None


class Init(Sel):
    def sel(s, p, i, name, n, args):
        m = re.search(r'std::make_unique<(Prop\w+)<\(AxionEnum::VqcdType_s\)(\d+)>', name)
        if m:
            eng = p.mem.get(args[-1].key(), args[-1])
            p.x['made'] = p.x.get('made', ()) + ((m.group(1), int(m.group(2)), eng, args, i),)
        return None


class Prop(Sel):
    def sel(s, p, i, name, n, args):
        if re.search(r'std::function<void \(double\)>::operator\(\)', name):
            p.x['ran'] = p.x.get('ran', ()) + ((args[0], args[1], i),)
        return None

    def onload(s, p, i, a):
        return None


class Theta(Sel):
    def sel(s, p, i, name, n, args):
        m = re.search(r'propThetaKernelXeon<(true|false), \(AxionEnum::VqcdType_s\)(\d+)>', name)
        if m: p.x['ran'] = p.x.get('ran', ()) + ((m.group(1) == 'true', int(m.group(2)), args, i),)
        return None


def run(ctx):
    P = jx.Program([steps.TU], 'kern', ['--keep=PropClass<.*>::PropClass|^initPropagator|^propagate\\(|^propThetaKernelXeon|PropBase::|_Function_handler',
                                        '--noinline=' + jx.KERN_KEEPOUT + r'|std::(__cxx11|map|_Rb_tree|_Construct|pair|unique_ptr)|std::function|make_unique|Tunable::|PropBase::|Folder|Xeon[(<]|(Cpu|Gpu)\('], defs=c03.DEFS)
    off = {o: n for o, sz, n, t in P.struct('PropBase')['m'] if n.startswith('prop')}
    ctx.need(len(off) >= 4, 'the installed step functions of PropBase are not recognised')
    E = {n: P.enum(n) for n in ('PropType_s', 'PropcType_s', 'FieldType_s', 'VqcdType_s', 'DeviceType_s')}
    pc, pt, ft, vq = E['PropcType_s'], E['PropType_s'], E['FieldType_s'], E['VqcdType_s']

    # -- constructors: engine and memory mode -> step function per field
    ctors = [f for f in P.all if re.search(r"PropClass<[^']*>::PropClass\(Scalar\*, AxionEnum::PropcType_s\)$", f.dem)]
    ctx.floor('constructors', len(ctors), 100)

    def ctor(f):
        cls = f.dem.split('::PropClass(')[0]
        for (eng, low), want in TABLE.items():
            a = [x[0] for x in f.args]
            W = Ctor(P, f, ans=dict(Device=0, LowMem=low, LowMemGPU=0, DataAlign=32, DataSize=4), bind={a[2]: C(pc[eng])})
            for p in W.run():
                if 'exit' in p.x:
                    ctx.violation('ctor/%s/lowmem%d/stops' % (eng, low), p.x['exit'].where(), '%s stops for %s%s' % (cls, eng, ' with low memory' if low else ''))
                    continue
                got = {}
                for o, (typ, i) in p.x.get('set', {}).items():
                    got[off.get(o, o)] = (methods_of(P, lam(typ), cls), i)
                for fld, meth in want.items():
                    ctx.cover(obligations=1)
                    if fld not in got:
                        ctx.violation('ctor/%s/lowmem%d/%s/none' % (eng, low, fld), '%s:%d' % (f.file, f.line), '%s: no %s installed for %s%s' % (cls, fld, eng, ' with low memory' if low else ''))
                        continue
                    ms, i = got[fld]
                    ctx.need(ms, '%s: the callable installed as %s runs no recognised step' % (cls, fld))
                    if {m for m, _ in ms} != {meth} or any(not q.startswith(cls + '::') for _, q in ms):
                        ctx.violation('ctor/%s/lowmem%d/%s' % (eng, low, fld), i.where(), '%s: %s installed for %s%s runs %s instead of %s'
                                      % (cls, fld, eng, ' with low memory' if low else '', sorted(m for m, _ in ms), meth))
        return None
    for f in ctors: ctor(f)

    # -- initPropagator: integrator, engine, potential -> instance
    init = [f for f in P.all if f.dem.startswith('initPropagator(')]
    ctx.need(len(init) == 1, 'initPropagator not found')
    init = init[0]
    a = [x[0] for x in init.args]
    cls = {'PROP_LEAP': 'PropLeap', 'PROP_MLEAP': 'PropMLeap', 'PROP_OMELYAN2': 'PropOmelyan2', 'PROP_OMELYAN4': 'PropOmelyan4', 'PROP_RKN4': 'PropRKN4'}
    pots = sorted({v for n, v in vq.items() if re.match(r'V_QCD[012VLC]_PQ\d', n)})
    jobs = [(i, e, v) for i in cls for e in ('BASE', 'SPEC', 'FSPEC') for v in pots + [v for v in (0, 3, 1024 + 64)]]
    made = set()

    def one(part):
        for i, e, v in part:
            W = Init(P, init, bind={a[0]: C(pt[i] | pt['PROP_' + e]), a[2]: C(v)})
            for p in W.run():
                ctx.cover(obligations=1)
                m = p.x.get('made', ())
                pn = next((n for n, x in vq.items() if x == v), v)
                if not m:
                    if 'exit' not in p.x:
                        ctx.violation('init/unsupported-potential-continues', '%s:%d' % (init.file, init.line),
                                      'initPropagator(%s, %s): no propagator is built for this potential and the run continues' % (i, pn))
                    continue
                c, q, eng, args, inst = m[-1]
                if c != cls[i]: ctx.violation('init/%s/integrator' % i, inst.where(), 'initPropagator(%s|PROP_%s, %s) builds %s' % (i, e, pn, c))
                if q != v: ctx.violation('init/%s/potential' % pn, inst.where(), 'initPropagator(%s, %s) builds the propagator of potential %s' % (i, pn, next((n for n, x in vq.items() if x == q), q)))
                if eng.const() != pc['PROPC_' + e]: ctx.violation('init/%s/engine' % e, inst.where(), 'initPropagator(%s|PROP_%s, ..) builds engine %s' % (i, e, eng.const()))
                ctx.cover(by_integrator={c: 1})
    ctx.par([jobs[k::8] for k in range(8)], lambda part: one(part))

    # -- propagate: field type -> installed step
    pr = [f for f in P.all if f.dem.startswith('propagate(')]
    ctx.need(len(pr) == 1, 'propagate not found')
    pr = pr[0]
    pa = [x[0] for x in pr.args]
    inv = {n: o for o, n in off.items()}
    for fld, want in FIELDS.items():
        W = Prop(P, pr, ans=dict(Field=ft[fld], Folded=1))
        for p in W.run():
            ctx.cover(obligations=1)
            ran = p.x.get('ran', ())
            if len(ran) != 1:
                ctx.violation('propagate/%s/count' % fld, '%s:%d' % (pr.file, pr.line), 'propagate() runs %d steps for %s' % (len(ran), fld)); continue
            tgt, dz, i = ran[0]
            o = [k for k in off if const_part(tgt) == k]
            if not o or off[o[0]] != want:
                ctx.violation('propagate/%s' % fld, i.where(), 'propagate() runs %s for %s instead of %s' % (off[o[0]] if o else tgt, fld, want))
            if at(dz) != ('arg', pa[1]): ctx.violation('propagate/%s/step' % fld, i.where(), 'propagate() runs the step of %s with size %s' % (fld, dz))

    # -- run time choice of the angle kernel
    th = [f for f in P.all if f.dem.startswith('propThetaKernelXeon(')]
    ctx.need(len(th) == 1, 'the angle kernel dispatch is not found')
    th = th[0]
    ta = [x[0] for x in th.args]
    for v in pots + [0]:
        for wm in (0, 1):
            W = Theta(P, th, bind={ta[-1]: C(v), ta[-2]: C(wm)})
            for p in W.run():
                ctx.cover(obligations=1)
                ran = p.x.get('ran', ())
                pn = next((n for n, x in vq.items() if x == v), v)
                if v & 63 not in THETA:
                    if 'exit' not in p.x and not ran:
                        ctx.violation('theta/unsupported-potential-continues', '%s:%d' % (th.file, th.line), 'the angle sweep does nothing for potential %s and the run continues' % pn)
                    elif ran: ctx.violation('theta/%s' % QCD[v & 63], ran[0][3].where(), 'the angle sweep runs another potential for %s' % pn)
                    continue
                if len(ran) != 1: ctx.violation('theta/%s/count' % QCD.get(v & 63, 'V_NONE'), '%s:%d' % (th.file, th.line), 'the angle sweep runs %d kernels for %s' % (len(ran), pn)); continue
                w, q, args, i = ran[0]
                if w != bool(wm): ctx.violation('theta/wrapping', i.where(), 'the angle sweep for %s ignores the wrapping of the angle' % pn)
                if q & 63 != vq[THETA[v & 63]]: ctx.violation('theta/%s' % QCD.get(v & 63, 'V_NONE'), i.where(), 'the angle sweep for %s runs the kernel of %s' % (pn, QCD.get(q & 63, q)))
                for k, (x, y) in enumerate(zip(args, [x[0] for x in th.args])):
                    if at(x) != ('arg', y) and not passed(W, p, x, y):
                        ctx.violation('theta/argument-%s' % y, i.where(), 'the angle sweep passes %s for its parameter %s' % (str(x)[:80], y))

    # -- template and run time selectors the steps pass to the kernels
    P2 = steps.program()
    L = list(steps.instances(P2))
    ctx.floor('step_functions', len(L), 300)
    ctx.par([L[k::8] for k in range(8)], lambda part: [kernels(ctx, P2, *x, vq, ft) for x in part] and None)
    ctx.floor('kernel_calls', ctx.cov.get('kernel_calls', 0), 1000)


def passed(W, p, x, y):
    """a parameter block passed by value: a copy of the argument"""
    return y == 'ppar' or 'ppar' in str(x)


def const_part(p):
    for m, c in p.t.items():
        if not m: return c
    return 0


def lam(t):
    """type of the callable: up to the closing angle bracket"""
    d = 0
    for k, ch in enumerate(t):
        if ch in '<(': d += 1
        elif ch == ')' : d -= 1
        elif ch == '>':
            if d == 0: return t[:k]
            d -= 1
    return t


class KSteps(steps.Steps):
    def __init__(s, P, f, field=None):
        super().__init__(P, f)
        s.field = field
        s.calls = []

    def value(s, p, i, name, args):
        if re.search(r'\bScalar::Field\b', name) and s.field is not None: return C(s.field)
        if 'Xeon' in name: s.calls.append((i, name, args))
        return super().value(p, i, name, args)


def kernels(ctx, P, f, meth, ns, st, vq, VQ, ft):
    flds = {'t': ('FIELD_AXION', 'FIELD_AXION_MOD')}.get(meth[0], (None,))
    for fld in flds:
        W = KSteps(P, f, ft[fld] if fld else None)
        W.run()
        seen = set()
        for i, name, args in W.calls:
            n = steps.fname(name)
            g = P.resolve(i.x, f.mod)
            ctx.cover(kernel_calls=1, obligations=1)
            m = re.search(n + r'<.*\(AxionEnum::VqcdType_s\)(\d+)', name.split('(PropParms')[0])
            if m and int(m.group(1)) != vq and n != 'propThetaKernelXeon':
                v(ctx, seen, '%s/%s/potential' % (meth, n), i, '%s calls %s for potential %s' % (f.short, n, m.group(1)))
            ps = [x[0] for x in g.args] if g is not None else []
            if g is None or len(ps) < len(args): continue
            for nm, x in zip(ps, args):
                want = {'precision': 'precision', 'bSizeX': 'xBlock', 'bSizeY': 'yBlock', 'bSizeZ': 'zBlock'}.get(nm)
                if want:
                    ctx.cover(obligations=1)
                    if at(x) != ('sym', want) and want not in str(x): v(ctx, seen, '%s/%s/%s' % (meth, n, nm), i, '%s passes %s for %s of %s' % (f.short, str(x)[:60], nm, n))
                if nm == 'wMod' and fld and x.const() != (1 if fld == 'FIELD_AXION_MOD' else 0):
                    v(ctx, seen, '%s/%s/wrapping' % (meth, n), i, '%s: %s does not follow the wrapping of the field' % (f.short, n))
                if nm == 'VQcd' and x.const() != vq:
                    v(ctx, seen, '%s/%s/potential' % (meth, n), i, '%s calls %s for potential %s' % (f.short, n, x))


def v(ctx, seen, key, i, msg):
    if key not in seen:
        seen.add(key); ctx.violation(key, i.where(), msg)
