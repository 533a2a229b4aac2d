"""Changing the storage order or the kind of a field keeps the physical field."""
import re
import jx, sym, walk, steps
from sym import C, ZERO, ONE, add, sub, mul, inv, neg, scale, mk, atom_poly, fromkey, _atoms
from steps import at
import c14

LEVEL = 'other'
EXPLANATION = ('Every conversion routine is unfolded over small lattices with symbolic field values, element by element: what each element of the arrays holds afterwards, as an expression of what the arrays held before, is compared '
               'with the definition of the target form. Orders of storage are compared as permutations, so folding is one-to-one and unfolding its inverse; slices as the values of that slice; the complex, angle, '
               'non-relativistic and paxion forms as the formulas of the change of variables. Reads of elements already overwritten show up as wrong expressions.')
RULES = ['folded position of (x, y, z) = z S + (y mod n/s) n s + x s + y div (n/s); unfolding is the inverse', 'slice buffers hold the slice in row order', 'flags: changed exactly when the order changed; second call is a no-op',
         'angle = R arg(phi - s), derivative = R Im(phi\' conj(phi - s))/|phi - s|^2 + frw R/z angle', 'complex = R exp(i theta)', 'all points converted, ghosts and other arrays not consulted']
BASE = {'mCpu': ('M', 0), 'mFrontGhost': ('M', 0), 'vFrontGhost': ('V', 0), 'm2Cpu': ('M2', 0), 'm2FrontGhost': ('M2', 0), 'vCpu': ('V', 0)}


class Cells(c14.W_):
    """element-wise memory over the arrays of a field"""

    def __init__(s, P, f, ans, addr, psz, **kw):
        super().__init__(P, f, ans, maxsteps=4000000, **kw)
        s.addr, s.psz = addr, psz

    def pos(s, a):
        for m, c in a.t.items():
            if len(m) == 1 and m[0][1] == 1 and c == 1 and _atoms[m[0][0]].kind == 'arr':
                o = sub(a, atom_poly(m[0][0])).const()
                if o is None: raise jx.Broken('%s: position not understood: %s' % (s.f.short, str(a)[:200]))
                return _atoms[m[0][0]].args[0], o
        return None

    def cell(s, p, b, o):
        q = p.x.get('cells')
        if q is None: q = p.x['cells'] = {}
        v = q.get((b, o))
        return v if v is not None else atom_poly(mk('cell', b, o))

    def size(s, ty):
        n, e = sym.lanes(ty)
        return n * sym.SZ.get(e, 8)

    def load(s, p, i, a):
        q = s.pos(a)
        if q is None: return super().load(p, i, a)
        n = s.size(i.ty)
        if n <= s.psz: return s.cell(p, *q)
        return atom_poly(mk('pack', *[s.cell(p, q[0], q[1] + k).key() for k in range(0, n, s.psz)]))

    def store(s, p, i, a, v):
        q = s.pos(a)
        if q is None: return super().store(p, i, a, v)
        n = s.size(i.sty)
        s.cell(p, *q)
        if n <= s.psz: p.x['cells'][q] = v; p.x.setdefault('wr', {})[q] = i; return
        x = at(v)
        for k in range(n // s.psz):
            w = fromkey(x[1 + k]) if x and x[0] in ('pack', 'agg') and k < len(x) - 1 else atom_poly(mk('lane', v.key(), k)) if v.const() is None else v
            p.x['cells'][(q[0], q[1] + k * s.psz)] = w
            p.x.setdefault('wr', {})[(q[0], q[1] + k * s.psz)] = i

    def call(s, p, i):
        if isinstance(i.x, str) and re.match(r'(llvm\.)?mem(cpy|move)', i.x):
            d, r, n = (s.op(p, q) for q in i.ops[:3])
            D, R, n = s.pos(d), s.pos(r), n.const()
            if D is not None or R is not None:
                if D is None or R is None or n is None: raise jx.Broken('%s: copy not understood at %s' % (s.f.short, i.where()))
                if n % s.psz: raise jx.Broken('%s: copy of a fraction of an element at %s' % (s.f.short, i.where()))
                if 'move' not in i.x and D[0] == R[0] and abs(D[1] - R[1]) < n and n: p.x['overlap'] = i
                w = [s.cell(p, R[0], R[1] + k) for k in range(0, n, s.psz)]
                for k, v in enumerate(w):
                    p.x['cells'][(D[0], D[1] + k * s.psz)] = v
                    p.x.setdefault('wr', {})[(D[0], D[1] + k * s.psz)] = i
                return None
        return super().call(p, i)

    def value(s, p, i, name, args):
        n = steps.fname(name)
        if n == 'Verbosity': return C(0)
        if re.search(r'\bScalar::', name) and n in s.addr:
            b, o = s.addr[n]
            return add(atom_poly(mk('arr', b)), C(o))
        return super().value(p, i, name, args)


def dims(t, psz, n1, Lz, Ng, SX):
    fs = psz * (2 if t in SX else 1)
    S = n1 * n1
    g = Ng * S * fs
    px = t == 'FIELD_PAXION'
    return fs, S, dict(mCpu=('M', 0), mFrontGhost=('M', 0), mStart=('M', g), mBackGhost=('M', g + S * Lz * fs), vCpu=('V', 0), vStart=('V', g if px else 0), vFrontGhost=('V', 0), vBackGhost=('V', g + S * Lz * fs),
                       m2Cpu=('M2', 0), m2FrontGhost=('M2', 0), m2Start=('M2', g), m2BackGhost=('M2', g + S * Lz * fs))


def run(ctx):
    seen = set()

    def bad(key, i, f, msg):
        if key in seen: return
        seen.add(key)
        ctx.violation(key, i.where() if i is not None else '%s:%d' % (f.file, f.line), msg)

    folding(ctx, bad)
    wrappers(ctx, bad, convert(ctx, bad))
    kinds(ctx, bad)
    ctx.floor('elements', ctx.cov.get('elements', 0), 5000)


SX = ('FIELD_SAXION', 'FIELD_NAXION')


def folding(ctx, bad):
    P = jx.Program(['lib/scalar/folder.cpp'], 'kern', [r'--keep=Folder::(operator\(\)|Folder)', '--noinline=' + jx.KERN_KEEPOUT + r'|Tunable::|basic_string|std::(__cxx11|map|_Rb_tree)|Folder::Folder'])
    F = [f for f in P.all if re.search(r'Folder::operator\(\)', f.dem)]
    ctx.need(len(F) == 1, 'Folder::operator() not found')
    f = F[0]; a = [x[0] for x in f.args]
    ty, pr, fo = P.enum('FieldType_s'), P.enum('FieldPrecision_s'), P.enum('FoldType_s')
    st = {n: o for o, sz, n, t in P.struct('Folder')['m']}
    for n in ('field', 'Lz', 'n1', 'n2', 'n3'): ctx.need(n in st, 'member %s of Folder not found' % n)
    this = atom_poly(mk('arg', a[0]))
    for t in ('FIELD_SAXION', 'FIELD_NAXION', 'FIELD_AXION', 'FIELD_AXION_MOD', 'FIELD_WKB', 'FIELD_PAXION'):
        for pn, psz in (('FIELD_SINGLE', 4), ('FIELD_DOUBLE', 8)):
            for op in ('FOLD_ALL', 'UNFOLD_ALL', 'UNFOLD_SLICE', 'UNFOLD_SLICEYZ', 'FOLD_M2', 'UNFOLD_M2', 'UNFOLD_SLICEM2'):
                for n1, Lz, Ng in ((16, 2, 1), (8, 3, 2), (12, 2, 1), (8, 9, 1)):
                    for folded in (0, 1):
                        fs, S, addr = dims(t, psz, n1, Lz, Ng, SX)
                        sh = 32 // fs
                        for c in ([0] if 'SLICE' not in op else sorted({0, (Lz if op != 'UNFOLD_SLICEYZ' else n1) - 1, Lz if op != 'UNFOLD_SLICEYZ' else n1})):
                            ans = dict(Precision=pr[pn], Field=ty[t], DataSize=fs, DataAlign=32, Depth=Lz, Length=n1, Surf=S, Size=S * Lz, Device=P.enum('DeviceType_s')['DEV_CPU'],
                                       Folded=folded, M2Folded=folded, getNg=Ng, LowMem=0)
                            W = Cells(P, f, ans, addr, psz, bind={a[1]: C(fo[op]), a[2]: C(c)})
                            W.onload = lambda p, i, ad, o=W.onload: next((C(v) for n, v in (('Lz', Lz), ('n1', n1), ('n2', S), ('n3', S * Lz)) if sub(ad, this).const() == st[n]), None) or o(p, i, ad)
                            ps = W.run()
                            if len(ps) != 1: raise jx.Broken('Folder: %d paths for %s' % (len(ps), op))
                            ctx.cover(paths=1)
                            if 'exit' in ps[0].x and n1 % sh: continue       # refused
                            if 'exit' in ps[0].x: bad('%s/%s/refused' % (op, t), ps[0].x['exit'], f, '%s of a %s field of side %d ends the program' % (op, t, n1)); continue
                            if n1 % sh and op.startswith('FOLD') and not folded:
                                bad('%s/side' % op, None, f, '%s of a %s field of side %d accepts a side that is not a multiple of the %d points of a vector' % (op, t, n1, sh)); continue
                            if n1 % sh: continue                             # cannot be folded
                            if 'SLICE' in op and (c >= (n1 if 'YZ' in op else Lz) or 'YZ' in op and Lz > Ng * n1):
                                outside(ctx, bad, f, W, ps[0], t, op, Lz, Ng, S, fs, addr, psz, c, n1); continue
                            check_fold(ctx, bad, f, W, ps[0], t, op, n1, Lz, Ng, folded, c, fs, psz, S, sh, addr)


def outside(ctx, bad, f, W, p, t, op, Lz, Ng, S, fs, addr, psz, c, n1):
    """a slice that does not exist, or that does not fit in the ghost slices, leaves the field alone and reads nothing beyond it"""
    ctx.cover(obligations=1)
    own = {'M': (addr['mStart'][1], addr['mStart'][1] + Lz * S * fs), 'V': (addr['vStart'][1], addr['vStart'][1] + Lz * S * fs), 'M2': (addr['m2Start'][1], addr['m2Start'][1] + Lz * S * fs)}
    end = {'M': (Lz + 2 * Ng) * S * fs, 'V': 0, 'M2': (Lz + 2 * Ng) * S * fs}
    for (b, o), i in p.x.get('wr', {}).items():
        if own[b][0] <= o < own[b][1] or not 0 <= o < end[b]:
            bad('%s/%s/outside' % (op, t), i, f, '%s of slice %d of a %s field of %d^2 x %d points with %d ghost slices writes over the field' % (op, c, t, n1, Lz, Ng)); return
        x = at(p.x['cells'][(b, o)])
        if x and x[0] == 'cell' and not own[x[1]][0] <= x[2] < own[x[1]][1]:
            bad('%s/%s/nothing' % (op, t), i, f, '%s of slice %d of a %s field of %d^2 x %d points copies what is not part of the field' % (op, c, t, n1, Lz)); return


def check_fold(ctx, bad, f, W, p, t, op, n1, Lz, Ng, folded, c, fs, psz, S, sh, addr):
    who = '%s of a %s field (%d bytes per point, %d^2 x %d points, %d ghost slices)' % (op, t, fs, n1, Lz, Ng)
    fold = lambda x, y: (y % (n1 // sh)) * n1 * sh + x * sh + y // (n1 // sh)
    plain = lambda x, y: y * n1 + x
    flags = [x for x in p.x.get('log', ()) if x[0] == 'set']
    arrs = {'M': addr['mStart'], 'V': addr['vStart']} if 'M2' not in op else {'M2': addr['m2Start']}
    flagname = 'setM2Folded' if 'M2' in op else 'setFolded'
    whole = 'SLICE' not in op
    change = whole and folded == (0 if op.startswith('FOLD') else 1)
    want = [(flagname, 1 if op.startswith('FOLD') else 0)] if change else []
    got = [(x[1], x[2][0].const()) for x in flags]
    ctx.cover(obligations=1)
    if got != want: bad('%s/flag' % op, flags[0][3] if flags else None, f, '%s %s: the order flag is set as %s instead of %s' % (who, 'on a folded field' if folded else 'on an unfolded field', got, want))
    wr = p.x.get('wr', {})

    def look(b, o, what, ab, ao):
        for k in range(0, fs, psz):
            ctx.cover(elements=1)
            v = W.cell(p, b, o + k)
            if v.key() != atom_poly(mk('cell', ab, ao + k)).key():
                bad('%s/%s/%s' % (op, t, what), wr.get((b, o + k)), f, '%s: element (%s) holds %s instead of the value of that point' % (who, what, str(v)[:80]))
                return

    src = fold if folded else plain
    for b, (bb, base) in arrs.items():
        for z in range(Lz):
            for y in range(n1):
                for x in range(n1):
                    o0 = base + (z * S + src(x, y)) * fs
                    dst = (fold if op.startswith('FOLD') else plain) if whole else src
                    look(b, base + (z * S + dst(x, y)) * fs, 'the field' if whole else 'the field itself', b, o0)
    # slices
    if not whole:
        bufs = [('M', addr['mStart'], addr['mFrontGhost']), ('V', addr['vStart'], addr['mBackGhost'])] if 'M2' not in op else [('M2', addr['m2Start'], addr['m2FrontGhost'])]
        for b, (x0, base), (db, d0) in bufs:
            for j in range(n1 if op != 'UNFOLD_SLICEYZ' else Lz):
                for k in range(n1):
                    x, y, z = (k, j, c) if op != 'UNFOLD_SLICEYZ' else (c, k, j)
                    look(db, d0 + (j * n1 + k) * fs, 'slice buffer of ' + b, b, base + (z * S + src(x, y)) * fs)
    # nothing else is written but the ghost slices used as scratch
    size = {'M': (Lz + 2 * Ng) * S * fs, 'V': (Lz + 2) * S * fs if t != 'FIELD_PAXION' else (Lz + 2 * Ng) * S * fs, 'M2': (Lz + 2 * Ng) * S * fs}
    for (b, o), i in wr.items():
        if not 0 <= o < size[b]: bad('%s/%s/beyond' % (op, t), i, f, '%s writes outside the array' % who)
    if 'overlap' in p.x: bad('%s/%s/overlap' % (op, t), p.x['overlap'], f, '%s copies between overlapping regions' % who)


# ---- conversions between kinds of fields
class Conv(Cells):
    """conversion kernels: complex arithmetic, elementary functions and background quantities named"""

    def cmp(s, pred, a, b):
        if pred == 'uno': return ZERO          # the values are numbers
        if pred == 'ord': return ONE
        return super().cmp(pred, a, b)

    def onload(s, p, i, a):
        x = at(a)
        if x and x[0] == 'sc' and x[1] in ('RV', 'zV'): return atom_poly(mk('bg', x[1]))
        if x and x[0] == 'bg' and x[1] == 'frw': return a      # returned by reference
        return super().onload(p, i, a)

    def step(s, p, i):
        if i.op in ('extractvalue', 'extractelement'):
            v = p.x.get(('agg', i.ops[0]))
            k = i.x if i.op == 'extractvalue' else s.op(p, i.ops[1]).const()
            k = k[0] if isinstance(k, list) else k
            if v is None:
                x = at(s.op(p, i.ops[0]))
                if x and x[0] == 'pack': v = [fromkey(q) for q in x[1:]]
                elif x and x[0] == 'agg': v = [fromkey(q) for q in x[1:]]
            if v is not None and k is not None and k < len(v): p.env[i.id] = v[k]; return
        if i.op in ('insertvalue', 'insertelement'):
            o = s.op(p, i.ops[0]) if isinstance(i.ops[0], int) else None
            x = at(o) if o is not None else None
            v = [fromkey(q) for q in x[1:]] if x and x[0] in ('agg', 'pack') else [ZERO, ZERO]
            k = i.x if i.op == 'insertvalue' else s.op(p, i.ops[2]).const()
            k = k[0] if isinstance(k, list) else k
            if k is not None and k < 8:
                v = v + [ZERO] * (k + 1 - len(v)); v[k] = s.op(p, i.ops[1])
                p.env[i.id] = atom_poly(mk('agg', *[q.key() for q in v])); return
        super().step(p, i)

    def agg(s, *v): return atom_poly(mk('agg', *[q.key() for q in v]))

    def call(s, p, i):
        n = i.x if isinstance(i.x, str) else ''
        m = re.match(r'llvm\.(sqrt|sin|cos|exp|fabs|log)\.f(32|64)$', n)
        n = m.group(1) if m else n
        n = n[:-1] if n in ('sqrtf', 'sinf', 'cosf', 'cargf', 'cexpf', 'atan2f') else n
        a = lambda: [s.op(p, q) for q in i.ops]
        if n == 'sqrt': return sym.sqrt(a()[0])
        if n in ('sin', 'cos'): return sym.fn(n, a()[0])
        if n == 'atan2': return sym.fn('atan2', *a())
        if n in ('__muldc3', '__mulsc3'):
            x, y, u, v = a()
            return s.agg(sub(mul(x, u), mul(y, v)), add(mul(x, v), mul(y, u)))
        if n == 'carg':
            v = s.two(a(), n)
            return sym.fn('atan2', v[1], v[0])
        if n == 'cexp':
            v = s.two(a(), n)
            e = ONE if v[0].const() == 0 else sym.fn('exp', v[0])
            return s.agg(mul(e, sym.fn('cos', v[1])), mul(e, sym.fn('sin', v[1])))
        return super().call(p, i)

    def two(s, a, n):
        if len(a) == 2: return a
        x = at(a[0])
        if x and x[0] in ('agg', 'pack') and len(x) == 3: return [fromkey(q) for q in x[1:]]
        raise jx.Broken('%s: argument of %s not understood' % (s.f.short, n))

    def value(s, p, i, name, args):
        n = steps.fname(name)
        if re.search(r'\bCosmos::', name):
            if n == 'Frw': return atom_poly(mk('bg', 'frw'))
            if n == 'Rp': return mul(atom_poly(mk('bg', 'frw')), inv(args[1]))
            return atom_poly(mk('bg', n, *[q.key() for q in args[1:]]))
        if re.search(r'\bScalar::', name) and n == 'AxionMass' and len(args) == 1: return atom_poly(mk('bg', 'mA'))
        if re.search(r'\bScalar::', name) and n == 'AxionMassSq' and len(args) == 1: return mul(*[atom_poly(mk('bg', 'mA'))] * 2)
        return super().value(p, i, name, args)


def bg(*a): return atom_poly(mk('bg', *a))


def totheta(m, v, R, z, frw, shift):
    re_, im = sub(m[0], shift), m[1]
    th = sym.fn('atan2', im, re_)
    n = add(mul(re_, re_), mul(im, im))
    d = mul(sub(mul(v[1], re_), mul(v[0], im)), inv(n))
    return [mul(R, th)], [add(mul(R, d), mul(mul(mul(frw, R), inv(z)), th))]


def tocmplx(m, v, R, z, frw, shift):
    c, s_ = sym.fn('cos', m[0]), sym.fn('sin', m[0])
    rp = mul(frw, inv(z))
    M = [mul(R, c), mul(R, s_)]
    return M, [sub(mul(rp, M[0]), mul(v[0], M[1])), add(mul(rp, M[1]), mul(v[0], M[0]))]


def tonaxion(m, v, R, z, frw, shift):
    q = sym.sqrt(mul(bg('mA'), R))
    return [mul(m[0], q), neg(mul(v[0], inv(q)))], None


def topaxion(m, v, R, z, frw, shift):
    mA = bg('mA')
    M = mul(m[0], sym.sqrt(scale(mul(mA, R), jx_half)))
    ad = mul(add(bg('DAxionMass2Dct', z.key()), scale(mul(mul(mul(frw, mul(mA, mA)), mul(R, R)), inv(z)), 2)), inv(scale(mul(mA, mul(mA, mA)), 4)))
    return [M], [add(mul(v[0], inv(sym.sqrt(scale(mul(mA, R), 2)))), mul(M, ad))]


from fractions import Fraction
jx_half = Fraction(1, 2)

# kernel: source field, target field, spec, where the parts of the source and target are
KERNELS = {'toThetaXeon': ('FIELD_SAXION', 'FIELD_AXION', totheta), 'th2cxXeon': ('FIELD_SAXION', 'FIELD_SAXION', tocmplx),
           'th2NaxionXeon': ('FIELD_AXION', 'FIELD_NAXION', tonaxion), 'th2PaxionXeon': ('FIELD_AXION', 'FIELD_PAXION', topaxion)}


def convert(ctx, bad):
    tus = ['lib/scalar/%s.cpp' % n for n in ('thetaScalar', 'theta2Cmplx', 'theta2Naxion', 'theta2Paxion', 'folder', 'thetaXeon', 'theta2CmplxXeon', 'theta2NaxionXeon', 'theta2PaxionXeon')]
    P = jx.Program(tus, 'kern', [r'--keep=toThetaXeon|th2cxXeon|th2NaxionXeon|th2PaxionXeon|cmplxToTheta|theta2Cmplx|thetaToNaxion|thetaToPaxion', '--noinline=' + jx.KERN_KEEPOUT + r'|^toThetaXeon|^th2cxXeon|^th2NaxionXeon|^th2PaxionXeon|Tunable::|basic_string|std::(__cxx11|map|_Rb_tree)|Folder::|Profiler::'])
    ty, pr = P.enum('FieldType_s'), P.enum('FieldPrecision_s')
    for k, (src, dst, spec) in KERNELS.items():
        F = [f for f in P.all if re.match(r'(void )?%s\(' % k, f.dem)]
        ctx.need(len(F) == 1, '%s not found' % k)
        for pn, psz in (('FIELD_SINGLE', 4), ('FIELD_DOUBLE', 8)):
            for n1, Lz, Ng in ((4, 2, 1), (2, 3, 2), (4, 5, 3)):
                fs, S, addr = dims(src, psz, n1, Lz, Ng, SX)
                ans = dict(Precision=pr[pn], Field=ty[src], DataSize=fs, DataAlign=32, Depth=Lz, Length=n1, Surf=S, Size=S * Lz, getNg=Ng, LowMem=0)
                f = F[0]; nf = [f]
                if f.name and len(f.blocks) <= 6:      # a dispatcher over the precision
                    t = 'float' if psz == 4 else 'double'
                    G = [g for g in P.all if re.search(r'\b%s<%s>' % (k, t), g.dem)]
                    if G: nf = G
                f = nf[0]
                sh = atom_poly(mk('shift')) if len(f.args) > 1 else ZERO
                W = Conv(P, f, ans, addr, psz, bind={f.args[1][0]: sh} if len(f.args) > 1 else {}, maxpaths=64)
                ps = [p for p in W.run() if 'exit' not in p.x]
                if len(ps) != 1: raise jx.Broken('%s: %d paths' % (k, len(ps)))
                ctx.cover(conversions=1)
                check_conv(ctx, bad, f, W, ps[0], k, src, dst, spec, n1, Lz, Ng, psz, S, addr, sh)
    return P


def check_conv(ctx, bad, f, W, p, k, src, dst, spec, n1, Lz, Ng, psz, S, addr, sh):
    who = '%s (%d bytes, %d^2 x %d points, %d ghost slices)' % (k, psz, n1, Lz, Ng)
    R, z, frw = bg('RV'), bg('zV'), bg('frw')
    fs, ms, vs = dims(src, psz, n1, Lz, Ng, SX)[0], addr['mStart'][1], addr['vStart'][1]
    fd, _, ad = dims(dst, psz, n1, Lz, Ng, SX)
    md, vd = ad['mStart'][1], ad['vStart'][1]
    cell = lambda b, o: atom_poly(mk('cell', b, o))
    wr = p.x.get('wr', {})
    for j in range(S * Lz):
        m = [cell('M', ms + j * fs + c) for c in range(0, fs, psz)]
        v = [cell('V', vs + j * fs + c) for c in range(0, fs, psz)]
        wm, wv = spec(m, v, R, z, frw, sh)
        for b, o0, want in (('M', md, wm), ('V', vd, wv)):
            for c, w in enumerate(want or ()):
                o = o0 + j * fd + c * psz
                got = W.cell(p, b, o)
                ctx.cover(elements=1)
                if got.key() != w.key() and not sym.equal(got, w):
                    wrong = [_atoms[a] for a in allcells(got)] if got.const() is None else []
                    bad('%s/%s' % (k, 'field' if b == 'M' else 'velocity'), wr.get((b, o)), f, '%s: component %d of point %d of the %s is %s instead of %s' % (who, c, j, 'field' if b == 'M' else 'velocity', sym.show(got)[:160], sym.show(w)[:160]))
                    return
    lim = {'M': (Lz + 2 * Ng) * S * 2 * psz, 'V': (Lz + 2) * S * 2 * psz, 'M2': (Lz + 2 * Ng) * S * 2 * psz}
    for (b, o), i in wr.items():
        if not 0 <= o < lim[b]: bad('%s/beyond' % k, i, f, '%s writes %s at byte %d, outside the array of %d bytes' % (who, b, o, lim[b])); return
    if 'overlap' in p.x: bad('%s/overlap' % k, p.x['overlap'], f, '%s copies between overlapping regions' % who)


def allcells(p): return [a for a in sym.allatoms(p) if _atoms[a].kind == 'cell']


# ---- the routines that change a field: order of storage around the kernel, bookkeeping, then mending
WRAP = {'cmplxToTheta': ('toThetaXeon', ('FIELD_AXION', 'FIELD_AXION_MOD')), 'thetaToNaxion': ('th2NaxionXeon', ('FIELD_NAXION',)), 'thetaToPaxion': ('th2PaxionXeon', ('FIELD_PAXION',)), 'theta2Cmplx': ('th2cxXeon', ())}


class Seq(c14.W_):
    def value(s, p, i, name, args):
        n = steps.fname(name)
        if n == 'Verbosity': return C(0)
        if re.search(r'Folder::operator\(\)', name): s.rec(p, 'order', args[1].const(), i); return None
        for k, (kern, _) in WRAP.items():
            if n == kern: s.rec(p, 'convert', kern, i); return None
        if n in ('mendTheta', 'mendThetaXeon'): s.rec(p, 'mend', None, i); return ZERO
        if re.search(r'\bScalar::', name) and n in ('setField', 'setFolded', 'setLowMem', 'setM2'): s.rec(p, n, args[1].const(), i); return None
        return super().value(p, i, name, args)

    def rec(s, p, *x): p.x['seq'] = p.x.get('seq', ()) + (x,)


def wrappers(ctx, bad, P):
    ty, fo, dv = P.enum('FieldType_s'), P.enum('FoldType_s'), P.enum('DeviceType_s')
    for w, (kern, to) in WRAP.items():
        F = [f for f in P.all if re.match(r'(void )?%s\(Scalar\*' % w, f.dem)]
        ctx.need(len(F) == 1, '%s not found' % w)
        f = F[0]; a = [x[0] for x in f.args]
        for mod in ((0, 1) if len(to) > 1 else (0,)):
            W = Seq(P, f, dict(Device=dv['DEV_CPU'], Folded=1), bind={a[-1]: C(mod)} if len(to) > 1 else {}, maxpaths=256)
            ps = [p for p in W.run() if 'exit' not in p.x]
            ctx.need(ps, '%s never finishes' % w)
            for p in ps:
                ctx.cover(wrapped=1)
                sequence(bad, f, p, w, kern, to[mod] if to else None, ty, fo)


def sequence(bad, f, p, w, kern, to, ty, fo):
    L = p.x.get('seq', ())
    folded, kind, done = True, 'old', 0
    names = {v: k for k, v in fo.items()}
    for k, x, i in L:
        if k == 'order':
            n = names.get(x, '')
            if n == 'UNFOLD_ALL':
                if done and kind == 'old' and to: bad('%s/order' % w, i, f, '%s changes the order of storage between the conversion and the change of type' % w)
                folded = False
            elif n == 'FOLD_ALL':
                if done and kind == 'old' and to: bad('%s/order' % w, i, f, '%s folds the converted values with the vector length of the old type' % w)
                folded = True
            elif n: bad('%s/order' % w, i, f, '%s reorders %s' % (w, n))
        elif k == 'convert':
            if x != kern: bad('%s/kernel' % w, i, f, '%s converts with %s' % (w, x))
            if folded and to: bad('%s/folded' % w, i, f, '%s converts a folded field: the order depends on the size of a point, which changes' % w)
            if kind == 'new': bad('%s/early' % w, i, f, '%s converts after the change of type' % w)
            done += 1
        elif k == 'setField':
            if x != ty.get(to): bad('%s/type' % w, i, f, '%s declares the field to be of type %s instead of %s' % (w, x, to))
            if not done: bad('%s/early' % w, i, f, '%s changes the type before the conversion' % w)
            kind = 'new'
        elif k == 'setFolded': bad('%s/flag' % w, i, f, '%s sets the order flag itself' % w)
        elif k == 'mend':
            if kind != 'new' or to != 'FIELD_AXION': bad('%s/mend' % w, i, f, '%s mends a field that is %s' % (w, 'not yet an angle' if kind != 'new' else 'kept between -pi and pi'))
    end = L[-1][2] if L else None
    if done != 1: bad('%s/once' % w, end, f, '%s converts %d times on a path' % (w, done))
    if to and kind != 'new': bad('%s/type' % w, end, f, '%s leaves the type of the field as it was' % w)
    if w == 'cmplxToTheta' and to == 'FIELD_AXION' and not any(k == 'mend' for k, x, i in L): bad('%s/mend' % w, end, f, '%s leaves the jumps of the angle' % w)
    if w == 'cmplxToTheta' and ('setLowMem', 0) not in [(k, x) for k, x, i in L]: bad('%s/lowmem' % w, end, f, '%s leaves the low-memory mode, which an angle does not have' % w)


class SetF(c14.W_):
    def value(s, p, i, name, args):
        return C(0) if steps.fname(name) == 'Verbosity' else super().value(p, i, name, args)


def kinds(ctx, bad):
    """Scalar::setField: size of a point and points per vector follow the type"""
    P = jx.Program(['lib/scalar/scalarField.cpp'], 'kern', [r'--keep=Scalar::setField', '--noinline=' + jx.KERN_KEEPOUT + r'|AxionEnum'])
    F = [f for f in P.all if re.search(r'Scalar::setField\(', f.dem)]
    ctx.need(len(F) == 1, 'Scalar::setField not found')
    f = F[0]; a = [x[0] for x in f.args]
    ty, dv = P.enum('FieldType_s'), P.enum('DeviceType_s')
    st = {n: (o, sz) for o, sz, n, t in P.struct('Scalar')['m']}
    for n in ('fSize', 'shift', 'fieldType', 'device'): ctx.need(n in st, 'member %s of Scalar not found' % n)
    this = atom_poly(mk('arg', a[0]))
    one = {'FIELD_SAXION': 2, 'FIELD_NAXION': 2}
    good = {('FIELD_SAXION', 'FIELD_AXION'), ('FIELD_SAXION', 'FIELD_AXION_MOD'), ('FIELD_AXION', 'FIELD_SAXION'), ('FIELD_AXION_MOD', 'FIELD_SAXION'), ('FIELD_AXION', 'FIELD_NAXION'), ('FIELD_AXION', 'FIELD_PAXION'),
            ('FIELD_AXION_MOD', 'FIELD_NAXION'), ('FIELD_AXION_MOD', 'FIELD_PAXION')}
    for old in ('FIELD_SAXION', 'FIELD_AXION', 'FIELD_AXION_MOD', 'FIELD_WKB', 'FIELD_NAXION', 'FIELD_PAXION'):
        for new in ('FIELD_SAXION', 'FIELD_AXION', 'FIELD_AXION_MOD', 'FIELD_NAXION', 'FIELD_PAXION', 'FIELD_WKB'):
            for psz in (4, 8):
                fs = psz * one.get(old, 1)
                mem = {'fSize': fs, 'shift': 32 // fs, 'fieldType': ty[old], 'device': dv['DEV_CPU']}
                W = SetF(P, f, bind={a[1]: C(ty[new])})
                W.onload = lambda p, i, ad, o=W.onload: next((C(v) for n, v in mem.items() if sub(ad, this).const() == st[n][0]), None) or o(p, i, ad)
                ps = [p for p in W.run() if 'exit' not in p.x]
                if len(ps) != 1: raise jx.Broken('setField: %d paths' % len(ps))
                p = ps[0]
                got = {}
                for n in mem:
                    v = p.mem.get(add(this, C(st[n][0])).key())
                    got[n] = mem[n] if v is None else v.const()
                ctx.cover(obligations=1)
                to = next((k for k in ty if ty[k] == got['fieldType']), None)
                if (old, new) in good and to != new or (old, new) not in good and to not in (old, new):
                    bad('setField/%s/%s' % (old, new), None, f, 'setField(%s) on a %s field leaves the type %s' % (new, old, to)); continue
                w = psz * one.get(to, 1)
                if got['fSize'] != w or got['shift'] != 32 // w:
                    bad('setField/%s/%s/size' % (old, new), None, f, 'setField(%s) on a %s field leaves it of type %s with %s bytes per point and %s points per vector, instead of %d and %d' % (new, old, to, got['fSize'], got['shift'], w, 32 // w))
                if got['device'] != mem['device']: bad('setField/device', None, f, 'setField changes the device')
