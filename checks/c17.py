"""Memory of a field: what the constructor obtains is what the layout of the field needs, every block has one owner and is given back once."""
import re
import jx, sym, walk, steps
from sym import C, ZERO, add, sub, mk, atom_poly, _atoms
from steps import at
import c14

LEVEL = 'other'
EXPLANATION = ('The constructor is unfolded for every field type, precision, memory mode and set of grid sizes: the blocks it obtains are recorded with their sizes and every pointer member, initialisation and Fourier plan '
               'must stay inside the block its layout assigns to it, each block kept by exactly one member. The destructor is unfolded for every type a field can have had and turned into: what it frees must be '
               'exactly the blocks obtained.')
RULES = ['m: points with ghosts; v: points and two slices (behind m in one block for real fields); m2: like m, twice that for real fields; none in low memory complex runs', 'no block is lost or owned twice',
         'initialisation within the block and all of m and v', 'plans only over existing buffers, within their blocks', 'destructor frees each block once and nothing else']
PTR = ('m', 'v', 'm2', 'str', 'z', 'R', 'rho', 'vho', 'g')
SX = ('FIELD_SAXION', 'FIELD_SX_RD', 'FIELD_NAXION')
REAL1 = ('FIELD_AXION_MOD', 'FIELD_AX_MOD_RD', 'FIELD_AXION', 'FIELD_AX_RD', 'FIELD_WKB')


class Ctor(c14.W_):
    def __init__(s, P, f, st, **kw):
        super().__init__(P, f, **kw)
        s.this = atom_poly(mk('arg', f.args[0][0]))
        s.st, s.nb = st, 0

    def cmp(s, pred, a, b):
        for x, y in ((a, b), (b, a)):
            t = at(x)
            if pred in ('eq', 'ne') and t and t[0] == 'block' and y.const() == 0: return C(int(pred == 'ne'))
        return super().cmp(pred, a, b)

    def onload(s, p, i, a):
        d = sub(a, s.this).const()
        if d is not None:
            n = s.st.get(d)
            if n in PTR: return atom_poly(mk('unset', n))
        return super().onload(p, i, a)

    def call(s, p, i):
        if isinstance(i.x, str) and (i.x.startswith('llvm.memset') or i.x == 'memset'):
            p.x['memset'] = p.x.get('memset', ()) + ((s.op(p, i.ops[0]), s.op(p, i.ops[1]), s.op(p, i.ops[2]), i),)
            return None
        return super().call(p, i)

    def value(s, p, i, name, args):
        n = steps.fname(name)
        if n == 'Verbosity': return C(0)
        if n in ('alignAlloc', 'trackAlloc', 'malloc', 'posix_memalign'):
            s.nb += 1
            sz = args[{'alignAlloc': 2, 'trackAlloc': 1, 'malloc': 0, 'posix_memalign': 2}[n]]
            b = atom_poly(mk('block', p.x.get('nb', 0)))
            p.x['nb'] = p.x.get('nb', 0) + 1
            p.x['blocks'] = p.x.get('blocks', ()) + ((b, sz.const(), i),)
            if n == 'malloc': return b
            p.mem[args[0].key()] = b
            return ZERO
        if n in ('trackFree', 'free'):
            p.x['freed'] = p.x.get('freed', ()) + ((args[0], i),)
            return ZERO
        if n == 'initPlan':
            p.x['plans'] = p.x.get('plans', ()) + ((args[1].const(), args[2].const(), i),)
            return ZERO
        if n in ('genConf', 'readConf'): p.x['gen'] = i
        return super().value(p, i, name, args)


def run(ctx):
    tu = 'lib/scalar/scalarField.cpp'
    P = jx.Program([tu], 'kern', [r'--keep=Scalar::Scalar|Scalar::~Scalar', '--noinline=' + jx.KERN_KEEPOUT + r'|std::(__cxx11|map|_Rb_tree|_Construct|pair)|basic_string|(trackFree|trackAlloc|alignAlloc|genConf|endComms|initPlan|initFFT|closeFFT)\(|Cosmos::|Folder'])
    F = [f for f in P.all if re.search(r'^Scalar::Scalar\(', f.dem)]
    D = [f for f in P.all if re.search(r'^Scalar::~Scalar\(', f.dem)]
    ctx.need(F and D, 'constructor or destructor of Scalar not found')
    f = F[0]; d = D[0]
    st = {o: n for o, sz, n, t in P.struct('Scalar')['m']}
    off = {n: o for o, n in st.items()}
    for n in PTR: ctx.need(n in off, 'member %s not found' % n)
    ty, pr = P.enum('FieldType_s'), P.enum('FieldPrecision_s')
    dev = P.enum('DeviceType_s')['DEV_CPU']
    ft = {v: k for k, v in P.enum('FFTtype_s').items()}
    seen = set()

    def bad(key, i, msg):
        if key in seen: return
        seen.add(key)
        ctx.violation(key, i.where() if i is not None else '%s:%d' % (f.file, f.line), msg)

    this = atom_poly(mk('arg', f.args[0][0]))
    built = {}
    types = [t for t in SX + REAL1 + ('FIELD_PAXION', 'FIELD_FAXION') if t in ty]
    a = [x[0] for x in f.args]
    for t in types:
        for pn, psz in (('FIELD_SINGLE', 4), ('FIELD_DOUBLE', 8)):
            for low in (0, 1):
                for lg in (0, 1):
                    for fsp in (0, 1):
                        for Lx, Lz, Ng in ((64, 64, 1), (64, 16, 2), (32, 32, 3), (32, 64, 1), (64, 8, 1)):
                            W = Ctor(P, f, st, ans={}, globs={'^lowmemGPU': lg, '^fpectral': fsp},
                                     bind={a[2]: C(Lx), a[3]: C(Lz), a[4]: C(pr[pn]), a[5]: C(dev), a[7]: C(low), a[8]: C(1), a[9]: C(ty[t]), a[11]: C(Ng)})
                            ps = W.run()
                            ctx.cover(paths=len(ps), configurations=1)
                            for p in ps:
                                if 'exit' in p.x: continue
                                who = ('%s, %s%s%s') % (t, pn, ', low memory' if low else '', ', low GPU memory' if lg else '') + (', momentum-space run' if fsp else '')
                                check(ctx, bad, f, p, this, off, t, psz, low, lg, Lx, Lz, Ng, who, ft)
                                own = {}
                                for n in PTR: own[n] = p.mem.get(add(this, C(off[n])).key(), ZERO)
                                own['device'] = C(dev)
                                built.setdefault(t, []).append((own, p.x.get('blocks', ()), p, who))
    ctx.floor('built', sum(len(x) for x in built.values()), 100)
    scaling(ctx, bad, ty, pr, P.enum('FieldIndex_s'))
    # the destructor
    this = atom_poly(mk('arg', d.args[0][0]))
    conv = {'FIELD_SAXION': ('FIELD_SAXION', 'FIELD_AXION', 'FIELD_AXION_MOD', 'FIELD_NAXION', 'FIELD_PAXION'), 'FIELD_AXION': ('FIELD_AXION', 'FIELD_PAXION'), 'FIELD_PAXION': ('FIELD_PAXION',)}
    for t, L in built.items():
        for own, blocks, p0, who in L[::7]:
            for t2 in conv.get(t, (t,)):
                W = Ctor(P, d, st, ans={})
                W.onload = (lambda p, i, ad, W=W, o=type(W).onload: seed(W, p, i, ad, o, this, off, own, p0, f, ty[t2]))
                for p in W.run():
                    if 'exit' in p.x: continue
                    ctx.cover(obligations=1)
                    fr = {}
                    for v, i in p.x.get('freed', ()):
                        if v.const() == 0: continue
                        x = at(v)
                        if not x or x[0] != 'block': bad('~Scalar/%s-%s/foreign' % (t, t2), i, 'the destructor of a field built as %s and turned into %s frees memory that is not a block of its own' % (t, t2)); continue
                        if v.key() in fr: bad('~Scalar/%s-%s/twice' % (t, t2), i, 'the destructor of a field built as %s and turned into %s frees a block twice' % (t, t2))
                        fr[v.key()] = i
                    for b, sz, i in blocks:
                        if b.key() not in fr: bad('~Scalar/%s-%s/lost' % (t, t2), None, 'a block of a field built as %s and turned into %s is never freed (obtained at line %s)' % (t, t2, i.where().split(':')[-1]))


def seed(W, p, i, ad, o, this, off, own, p0, f, t2):
    k = sub(ad, this).const()
    if k is not None:
        for n, q in off.items():
            if q == k:
                if n == 'fieldType': return C(t2)
                if n in own: return own[n]
                v = p0.mem.get(add(atom_poly(mk('arg', f.args[0][0])), C(k)).key())
                if v is not None: return v
    return o(W, p, i, ad)


def need(t, psz, low, lg, Lx, Lz, Ng):
    """bytes each array must offer"""
    n2 = Lx * Lx
    fs = psz * (2 if t in SX else 1)
    full = n2 * (Lz + 2 * Ng) * fs
    r = {'m': full, 'v': n2 * (Lz + 2) * fs if t not in ('FIELD_PAXION', 'FIELD_FAXION', 'FIELD_AXION', 'FIELD_AXION_MOD') else max(full, n2 * (Lz + 2) * fs), 'str': n2 * Lz, 'z': 8, 'R': 8}
    if t == 'FIELD_SAXION': r['m2'] = 0 if low else full
    elif t in ('FIELD_AXION', 'FIELD_AXION_MOD', 'FIELD_PAXION', 'FIELD_FAXION'): r['m2'] = full * (1 if lg else 2)
    else: r['m2'] = 0
    if t == 'FIELD_FAXION': r.update(rho=full, vho=full, g=3 * full)
    return r, fs, full


def block(v):
    """(block atom, offset) of a pointer"""
    for m, c in v.t.items():
        if len(m) == 1 and m[0][1] == 1 and c == 1 and _atoms[m[0][0]].kind == 'block':
            o = sub(v, atom_poly(m[0][0])).const()
            return m[0][0], o
    return None, None


def check(ctx, bad, f, p, this, off, t, psz, low, lg, Lx, Lz, Ng, who, ft):
    R, fs, full = need(t, psz, low, lg, Lx, Lz, Ng)
    size = {at_id(b): (s, i) for b, s, i in p.x.get('blocks', ())}
    users = {}
    ext = {}
    for n in PTR:
        v = p.mem.get(add(this, C(off[n])).key())
        w = R.get(n, 0)
        b, o = block(v) if v is not None else (None, None)
        ctx.cover(obligations=1)
        if b is None:
            if v is None or v.const() != 0:
                if n in ('rho', 'vho', 'g'): continue
                if v is None: bad('%s/%s/unset' % (t, n), None, 'the pointer %s of a field (%s) is left undefined' % (n, who)); continue
            if w: bad('%s/%s/none' % (t, n), None, 'no memory is obtained for %s (%s)' % (n, who))
            continue
        if not w and n == 'm2': bad('%s/m2/lowmem' % t, size[b][1], 'm2 is obtained although the run asked for low memory (%s)' % who)
        s, i = size[b]
        users.setdefault(b, []).append((o, n))
        ext[n] = (b, o, s)
        if s is None or o is None: raise jx.Broken('size or place of %s not understood' % n)
        if o + w > s: bad('%s/%s/short' % (t, n), i, 'the block of %s has %d bytes from there on, the layout needs %d (%s)' % (n, s - o, w, who))
    for b, s, i in p.x.get('blocks', ()):
        if at_id(b) not in users: bad('%s/lost-block' % t, i, 'a block obtained here is lost: no member keeps it (%s)' % who)
    for b, L in users.items():
        L.sort()
        for (o1, n1), (o2, n2_) in zip(L, L[1:]):
            if o1 + R.get(n1, 0) > o2: bad('%s/overlap-%s-%s' % (t, n1, n2_), size[b][1], '%s and %s share memory (%s)' % (n1, n2_, who))
    done = {}
    for dst, val, n, i in p.x.get('memset', ()):
        b, o = block(dst)
        if b is None: continue
        if n.const() is None or o is None: raise jx.Broken('extent of an initialisation not understood at %s' % i.where())
        if o + n.const() > size[b][0]: bad('%s/init-beyond' % t, i, 'the initialisation writes %d bytes past the end of the block (%s)' % (o + n.const() - size[b][0], who))
        if val.const() == 0: done.setdefault(b, []).append((o, o + n.const()))
    for n in ('m', 'v'):
        if n not in ext: continue
        b, o, s = ext[n]
        e = o
        for x, y in sorted(done.get(b, [])):
            if x <= e: e = max(e, y)
        if e < o + R[n]: bad('%s/%s/not-zeroed' % (t, n), size[b][1], 'only the first %d of the %d bytes of %s are set to zero (%s)' % (max(0, e - o), R[n], n, who))
    # plans
    for k, d, i in p.x.get('plans', ()):
        nm = ft.get(k)
        w = c14.PLANS.get(nm)
        ctx.cover(plans=1)
        if w is None: continue
        kind = w[0]
        by = psz * (2 * Lx * Lx * Lz if kind == 'c2c' else Lx * (Lx + 2) * Lz)
        for bf in sorted(set(w[1:5])):
            n, o2 = {'mStart': ('m', Ng * Lx * Lx * fs), 'mCpu': ('m', 0), 'vCpu': ('v', 0), 'm2Cpu': ('m2', 0), 'm2Start': ('m2', Ng * Lx * Lx * fs), 'm2half': ('m2', full)}[bf]
            ctx.cover(obligations=1)
            if n not in ext: bad('plan/%s/%s/missing-%s' % (nm, t, n), i, 'the plan %s is made over %s, which does not exist (%s)' % (nm, n, who)); continue
            b, o, s = ext[n]
            end = min([s] + [x for x, m in users[b] if x > o])       # what follows in the same block belongs to another array
            if o + o2 + by > end:
                if Lz <= Lx: bad('plan/%s/%s/beyond-%s' % (nm, t, n), i, 'the plan %s reaches %d bytes past %s (%s, %d^2 x %d points)' % (nm, o + o2 + by - end, n, who, Lx, Lz))
                else: bad('elongated/%s/%s%s' % (nm, n, '/lowmemgpu' if lg and n == 'm2' else ''), i, 'when a rank holds more slices than the side of the grid the plan %s reaches %d bytes past %s (%s, %d^2 x %d points)' % (nm, o + o2 + by - end, n, who, Lx, Lz))


def at_id(b):
    return next(iter(b.t))[0][0]


class Scale(c14.W_):
    """which elements a field-wide loop writes, and with what"""

    def value(s, p, i, name, args):
        if steps.fname(name) == 'Verbosity': return C(0)
        return super().value(p, i, name, args)

    def onstore(s, p, i, a, v):
        for m, c in a.t.items():
            if len(m) == 1 and m[0][1] == 1 and c == 1 and _atoms[m[0][0]].kind == 'sc':
                o = sub(a, atom_poly(m[0][0])).const()
                if o is None: raise jx.Broken('place of a store not understood at %s' % i.where())
                p.x['st'] = p.x.get('st', ()) + ((_atoms[m[0][0]].args[0], o, sym.SZ.get(i.sty, 8), v, i, a),)


def scaling(ctx, bad, ty, pr, fi):
    P = jx.Program(['lib/scalar/scaleXeon.cpp'], 'kern', [r'--keep=scaleXeon', '--noinline=' + jx.KERN_KEEPOUT])
    F = [f for f in P.all if re.match(r'scaleXeon\(', f.dem)]
    ctx.need(len(F) == 1, 'scaleXeon not found')
    f = F[0]; a = [x[0] for x in f.args]
    n = 0
    for t in ('FIELD_SAXION', 'FIELD_NAXION', 'FIELD_AXION', 'FIELD_AXION_MOD', 'FIELD_PAXION'):
        for pn, psz in (('FIELD_SINGLE', 4), ('FIELD_DOUBLE', 8)):
            for fld in ('FIELD_M', 'FIELD_V', 'FIELD_M2'):
                for Lx, Lz, Ng in ((2, 4, 1), (2, 3, 2), (4, 1, 3)):
                    R, fs, full = need(t, psz, 0, 0, Lx, Lz, Ng)
                    if t == 'FIELD_NAXION': R['m2'] = full
                    S = Lx * Lx
                    ans = dict(Precision=pr[pn], DataSize=fs, eSize=S * (Lz + 2 * Ng), Size=S * Lz, Surf=S, Length=Lx, Depth=Lz, eDepth=Lz + 2 * Ng, getNg=Ng, Field=ty[t], LowMem=0)
                    W = Scale(P, f, ans, bind={a[1]: C(fi[fld])}, maxsteps=2000000)
                    fac = atom_poly(mk('arg', a[2]))
                    arr = {'FIELD_M': ('mCpu', 'm'), 'FIELD_V': ('vCpu', 'v'), 'FIELD_M2': ('m2Cpu', 'm2')}[fld]
                    ps = [p for p in W.run() if 'exit' not in p.x]
                    ctx.cover(paths=len(ps), obligations=1)
                    who = '%s of a %s field, %s, %d^2 x %d points, %d ghost slices' % (arr[1], t, pn, Lx, Lz, Ng)
                    if len(ps) != 1: raise jx.Broken('scaleXeon: %d paths' % len(ps))
                    seen = {}
                    for b, o, sz, v, i, ad in ps[0].x.get('st', ()):
                        if b != arr[0]: bad('scale/%s/wrong-array' % fld, i, 'rescaling %s writes to %s' % (who, b))
                        elif o < 0 or o + sz > R[arr[1]]: bad('scale/%s/%s/beyond' % (fld, t), i, 'rescaling writes %d bytes past the end of %s' % (o + sz - R[arr[1]], who))
                        elif o in seen: bad('scale/%s/twice' % fld, i, 'rescaling touches an element twice (%s)' % who)
                        else:
                            seen[o] = i
                            want = sym.mul(fac, atom_poly(mk('ld', ad.key())))
                            if not sym.equal(v, want): bad('scale/%s/value' % fld, i, 'rescaling does not multiply by the factor (%s)' % who)
                    n += len(seen)
                    g = {'m': Ng * S * fs, 'v': 0 if t != 'FIELD_PAXION' else Ng * S * fs, 'm2': 0}[arr[1]]
                    size = S * Lz * fs if arr[1] != 'm2' else full
                    miss = [o for o in range(g, g + size, psz) if o not in seen]
                    if miss: bad('scale/%s/%s/missed' % (fld, t), None, 'rescaling leaves %d of %d values of %s unchanged' % (len(miss), size // psz, who))
    ctx.cover(scaled=n)
