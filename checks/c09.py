"""A configuration written to disk reads back to the same state, and writes the same file again."""
import re, itertools
import jx, sym, walk, steps
from sym import C, ZERO, ONE, add, sub, mul, mk, atom_poly
from steps import at
from c14 import W_, one

LEVEL = 'other'
EXPLANATION = ('writeConf is unfolded for every field type, precision, potential, damping and evolution mode, coupling law and kind of initial conditions, with the physical parameters symbolic, '
               'giving the file it produces: attributes (group, name, type, value) and the file and memory range of every slab. readConf is unfolded on exactly that file; '
               'every parameter of the cosmology, every global and constructor argument it sets must be the one that was written, and the slabs must fill the same memory.')
RULES = ['attribute read = attribute written: same group, name, type', 'state set by the reader = state the writer took it from', 'buffers are at least as large as the type transferred',
         'slabs written: disjoint, in order, the whole local block to the rank\'s part of the file, from m and from v', 'slabs read: same file range to the same place',
         'unfolded, in position space and on the host before the data are written', 'a name written for a kind of initial conditions is read back to a kind with that name']

MAND = {'PhysSize': 'PhysSize', 'QcdExp': 'QcdExp', 'QcdExpr': 'QcdExpr', 'Indi3': 'Indi3', 'ZThRes': 'ZThRes', 'ZRestore': 'ZRestore', 'Lambda': 'Lambda', 'Gamma': 'Gamma', 'LamZ2Exp': 'LamZ2Exp'}
UNSET = {'PhysSize': 0, 'QcdExp': -10**8, 'Indi3': -10**8, 'ZThRes': -10**8, 'ZRestore': -10**8, 'Lambda': -10**8, 'Gamma': -10**8}
POTS = ('V_QCD', 'V_PQ', 'V_DAMP', 'V_EVOL')
WITH = {'QcdExpr': 'QcdExp', 'LamZ2Exp': 'Lambda'}  # given together on the command line
IC = {'CONF_SMOOTH': ('iter', 'alpha'), 'CONF_THERMAL': ('kCrit',), 'CONF_SPAX': ('kMax',)}
KIND = ('kMax', 'kCrit')
L, DEPTH, RANK, GRID = 4, 3, 1, 2
H5 = lambda *a: atom_poly(mk('h5', *a))


class File:
    def __init__(s): s.attr, s.data, s.sets, s.groups, s.name, s.grid = {}, [], {}, set(), None, 1


class IO(W_):
    """common part of writer and reader: strings, HDF5 objects, the cosmology"""

    def __init__(s, P, f, ctx, ans, globs, cos, file, **kw):
        super().__init__(P, f, ans, globs, maxpaths=400, **kw)
        s.ctx, s.cos0, s.file = ctx, cos, file

    def interesting(s, i): return False

    def cmp(s, pred, a, b):
        x = at(a) or at(b)
        if x and x[0] == 'h5' and (a.const() == 0 or b.const() == 0):
            return C(int(pred in ('ne', 'sge', 'sgt', 'uge', 'ugt') if b.const() == 0 else pred in ('ne', 'sle', 'slt', 'ule', 'ult')))
        if x and x[0] == 'cos' and (a.const() is not None or b.const() is not None):
            if pred in ('oeq', 'ueq'): return ZERO
            if pred in ('une', 'one'): return ONE
        return super().cmp(pred, a, b)

    def cosval(s, p, n, args=()):
        k = ('cos', n)
        if k in p.x: return p.x[k][0]
        v = s.cos0.get(n)
        return C(v) if v is not None else atom_poly(mk('cos', n, *[a.key() for a in args[1:]]))

    def onstore(s, p, i, a, v):
        x = at(a)
        if x and x[0] == 'cosref': p.x[('cos', x[1])] = (v, i); p.mem.pop(a.key(), None)

    def onload(s, p, i, a):
        x = at(a)
        if x and x[0] == 'cosref': return s.cosval(p, x[1])
        if x and x[0] == 'glob':
            m = re.match(r'H5T_(\w+)_g$', x[1])
            if m: return atom_poly(mk('type', m.group(1)))
            if x[1] in s.globs:
                v = s.globs[x[1]]
                return C(v) if isinstance(v, int) else v
        return None

    def size(s, p, a):
        """bytes available at a, and the type of the variable"""
        for m, c in a.t.items():
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                k = sym._atoms[m[0][0]]
                off = sub(a, atom_poly(m[0][0])).const()
                if off is None: return None
                if k.kind == 'alloca':
                    i = s.f.val.get(k.args[1])
                    ty = i.x if i is not None else None
                elif k.kind == 'glob':
                    g = s.f.mod.gv.get(k.args[0]); ty = g and g['type']
                else: continue
                if isinstance(ty, list): ty = ty[0]
                n = sym.csize(ty) if isinstance(ty, str) else None
                return (n - int(off), ty) if n else None
        return None

    def tname(s, p, t):
        k = at(t)
        if k and k[0] == 'type': return k[1]
        if k and k[0] == 'h5' and k[1] == 'tcopy': return 'string[%s]' % p.x.get(('tsize', t.key()), '?')
        return str(t)[:40]

    def fits(s, p, i, name, t, a, write):
        """the buffer holds what the type transfers"""
        z = s.size(p, a)
        s.ctx.cover(buffers=1)
        if z is None: return
        m = re.match(r'string\[(\d+)\]', t)
        n = int(m.group(1)) if m else {'NATIVE_DOUBLE': 8, 'NATIVE_INT': 4, 'NATIVE_UINT': 4, 'NATIVE_HSIZE': 8, 'NATIVE_ULLONG': 8, 'NATIVE_FLOAT': 4}.get(t)
        if n is None: return
        what = 'writes' if write else 'reads'
        if z[0] < n:
            s.ctx.violation('%s/%s/buffer' % (s.f.short, name), i.where(), '%s %s the attribute "%s" as %d bytes %s a buffer of %d' % (s.f.short, what, name, n, 'from' if write else 'into', z[0]))
        elif not m and (t in ('NATIVE_DOUBLE', 'NATIVE_FLOAT')) != (z[1] in ('double', 'float')) and re.match(r'double|float|i\d+$', z[1]):
            s.ctx.violation('%s/%s/kind' % (s.f.short, name), i.where(), '%s %s the attribute "%s" as %s but the variable is %s' % (s.f.short, what, name, t, z[1]))

    def setstr(s, p, a, v):
        p.x['str'] = dict(p.x.get('str', {})); p.x['str'][a.key()] = v

    def call(s, p, i):
        if isinstance(i.x, str) and (i.x.startswith('llvm.memcpy') or i.x == 'memcpy'):
            v = s.string(p, s.op(p, i.ops[1]))
            if v is not None: s.setstr(p, s.op(p, i.ops[0]), v)
        return super().call(p, i)

    def log(s, p, *a): p.x['log'] = p.x.get('log', ()) + (a,)

    def value(s, p, i, name, args):
        n = steps.fname(name)
        if n == 'Verbosity': return ZERO
        if n in ('sprintf', 'snprintf', 'strcpy', 'strncpy'):
            k = 2 if n == 'snprintf' else 1
            fmt = s.string(p, args[k])
            if fmt is None: raise jx.Broken('%s: text copied at %s not recognised' % (s.f.short, i.where()))
            if '%' in fmt and n.endswith('printf'):
                rest = [s.string(p, a) or str(a) for a in args[k + 1:]]
                if fmt == '%s': fmt = rest[0]
                else: fmt = 'fmt:' + fmt + '|' + '|'.join(rest)
            s.setstr(p, args[0], fmt)
            z = s.size(p, args[0])
            if z and not fmt.startswith('fmt:') and len(fmt) + 1 > z[0]: s.ctx.violation('%s/%s/overflow' % (s.f.short, fmt), i.where(), 'the text "%s" does not fit in a buffer of %d' % (fmt, z[0]))
            return C(len(fmt))
        if n == 'strcmp':
            a, b = s.string(p, args[0]), s.string(p, args[1])
            if a is None or b is None: return None
            return C((a > b) - (a < b))
        if n == 'H5Tcopy': return H5('tcopy', i.id)
        if n == 'H5Tset_size': p.x[('tsize', args[0].key())] = args[1].const(); return H5('ok')
        if n in ('H5Fcreate', 'H5Fopen'):
            s.log(p, 'file', s.string(p, args[0]), args[1].const(), i); return H5('file')
        if n in ('H5Gcreate2', 'H5Gopen2'):
            g = s.string(p, args[1]); s.log(p, 'group', n, g, i)
            return H5('group', g)
        if n == 'H5Lexists':
            g = s.string(p, args[1])
            return C(1) if s.file is None or g in s.file.groups else ZERO
        if n in ('H5Screate_simple',):
            return H5('space', 'mem', i.id, p.mem.get(args[1].key(), args[1]).key())
        if n == 'H5Dcreate2': return H5('dset', s.string(p, args[1]), s.tname(p, args[2]), args[3].key())
        if n == 'H5Dopen2': return H5('dset', s.string(p, args[1]), '', '')
        if n == 'H5Dget_space': return H5('space', at(args[0])[2] if at(args[0]) else '?', i.id)
        if n == 'H5Sselect_hyperslab':
            v = [p.mem.get(a.key()) if a.const() is None else None for a in (args[2], args[4])]
            p.x[('sel', args[0].key())] = (v[0], v[1], args[3].const(), args[5].const())
            return H5('ok')
        if n in ('H5Dwrite', 'H5Dread'):
            s.log(p, n, at(args[0]), s.tname(p, args[1]), args[2], p.x.get(('sel', args[3].key())), args[5], i)
            return H5('ok')
        if n.startswith('H5') and 'ttribute' not in n: return H5('x', n, i.id)
        m = re.search(r'AxionEnum::operator(\|=|&=|\^=)<', name)
        if m:
            a, b = p.mem.get(args[0].key()), args[1].const()
            a = a.const() if a is not None else None
            if a is None or b is None: raise jx.Broken('%s: flags at %s not known (%s, %s)' % (s.f.short, i.where(), p.mem.get(args[0].key()), args[1]))
            p.mem[args[0].key()] = C({'|': a | b, '&': a & b, '^': a ^ b}[m.group(1)[0]])
            return args[0]
        if re.search(r'\bCosmos::', name):
            if n == 'ICData': return atom_poly(mk('icdata'))
            if n == 'SetICData':
                ic = {m: p.mem.get(add(args[1], C(o)).key()) for o, z, m, t in s.P.struct('IcData_v')['m']}
                s.log(p, 'ic', ic, i); return None
            if n.startswith('Set'):
                p.x[('cos', n[3:])] = (args[1], i); return None
            if i.ty == 'ptr': return atom_poly(mk('cosref', n))
            return s.cosval(p, n, args)
        if 'Scalar::Scalar(' in name: s.log(p, 'new', args, i); return None
        if n in ('cmplxToTheta', 'ctheta2csaxion', 'expandField', 'reduceField', 'mendTheta', 'setFolded', 'transferCpu') or re.match(r'(Folder|FTfield)::operator', name): s.log(p, 'do', n if 'operator' not in n else name.split('::')[0], args, i)
        if n == 'commRank': return C(RANK)
        return super().value(p, i, name, args)


class Writer(IO):
    def value(s, p, i, name, args):
        n = steps.fname(name)
        if n == 'writeAttribute':
            g, t = at(args[0]), s.tname(p, args[3])
            nm = s.string(p, args[2])
            v = s.string(p, args[1])
            s.fits(p, i, nm, t, args[1], True)
            val = v if v is not None and t.startswith('string') else p.mem.get(args[1].key())
            if val is None: val = s.load(p, i, args[1])
            s.log(p, 'attr', (g[2] if g and len(g) > 2 else ''), nm, t, val, i)
            return ZERO
        return super().value(p, i, name, args)


class Reader(IO):
    def value(s, p, i, name, args):
        n = steps.fname(name)
        if n == 'readAttribute':
            g, t = at(args[0]), s.tname(p, args[3])
            nm = s.string(p, args[2])
            s.fits(p, i, nm, t, args[1], False)
            g = g[2] if g and len(g) > 2 else ''
            a = s.file.attr.get((g, nm))
            s.ctx.cover(attributes_read=1)
            if a is None:
                s.log(p, 'absent', g, nm, i); return C(-1)
            if a[0] != t: s.log(p, 'types', g, nm, a[0], t, i)
            if isinstance(a[1], str): s.setstr(p, args[1], a[1])
            else: p.mem[args[1].key()] = a[1]
            return ZERO
        if s.file is not None and n == 'H5Dopen2' and s.string(p, args[1]) not in s.file.sets: s.log(p, 'nodata', s.string(p, args[1]), i)
        return super().value(p, i, name, args)


def last(p, kind): return [x for x in p.x.get('log', ()) if x[0] == kind]


def glob(g): return atom_poly(mk('glob', g))


def mem(g): return atom_poly(mk('ld', glob(g).key()))


def run(ctx):
    P = jx.Program(['lib/io/readWrite.pHdf5.cpp'], 'kern',
                   [r'--keep=^writeConf|^readConf|^AxionEnum::', '--noinline=' + jx.KERN_KEEPOUT + r'|std::|basic_string|Folder|FTfield|Scalar::|Cosmos::|(read|write)Attribute\(|Logger|Profiler|prof|H5|sprintf|reduceField|mendTheta|expandField|cmplxToTheta|ctheta2csaxion'])
    E = {n: P.enum(n) for n in ('FieldType_s', 'FieldPrecision_s', 'LambdaType_s', 'VqcdType_s', 'ConfType_s', 'ConfsubType_s', 'DeviceType_s', 'FoldType_s', 'FieldIndex_s', 'FFTdir_s')}
    w = one(P, ctx, r'^writeConf\(Scalar', 'writeConf')
    r = one(P, ctx, r'^readConf\(Cosmos[^:]*$', 'readConf')
    F = E['FieldType_s']; V = E['VqcdType_s']; CT = E['ConfType_s']; ST = E['ConfsubType_s']
    base = dict(field='FIELD_SAXION', prec='FIELD_DOUBLE', lam='LAMBDA_Z2', v=V['V_QCD1'] | V['V_PQ1'], ct='CONF_KMAX', st='CONF_RAND', req=None, restart=0, folded=0, mom=0, uprec=None, dev='DEV_CPU')
    S = [base]
    for fld in ('FIELD_SAXION', 'FIELD_AXION', 'FIELD_AXION_MOD', 'FIELD_PAXION', 'FIELD_NAXION', 'FIELD_WKB'):
        for pr in ('FIELD_SINGLE', 'FIELD_DOUBLE'): S.append(dict(base, field=fld, prec=pr))
        S.append(dict(base, field=fld, restart=1))
    for x in ('V_QCD0', 'V_QCD1', 'V_QCD2', 'V_QCDV', 'V_QCDL', 'V_QCDC'): S.append(dict(base, v=V[x] | V['V_PQ1']))
    for x in ('V_PQ2', 'V_PQ3'): S.append(dict(base, v=V['V_QCD1'] | V[x]))
    for x in ('V_DAMP_RHO', 'V_DAMP_ALL', 'V_EVOL_RHO', 'V_EVOL_THETA'): S.append(dict(base, v=V['V_QCD2'] | V['V_PQ1'] | V[x]))
    S.append(dict(base, lam='LAMBDA_FIXED'))
    S += [dict(base, ct=x) for x in CT] + [dict(base, st=x) for x in ST]
    S += [dict(base, restart=1), dict(base, folded=1), dict(base, mom=1), dict(base, mom=2), dict(base, dev='DEV_GPU')]
    S += [dict(base, prec='FIELD_DOUBLE', uprec='FIELD_SINGLE'), dict(base, prec='FIELD_SINGLE', uprec='FIELD_DOUBLE')]
    S += [dict(base, field=a, req=b) for a, b in (('FIELD_SAXION', 'FIELD_AXION'), ('FIELD_SAXION', 'FIELD_AXION_MOD'), ('FIELD_AXION', 'FIELD_SAXION'), ('FIELD_AXION_MOD', 'FIELD_SAXION'))]
    names = {'ct': {}, 'st': {}}
    kinds = []
    for sc in S:
        f = write(ctx, P, E, w, sc)
        if f is None: continue
        ctx.cover(configurations=1)
        for k in ('ct', 'st'):
            a = f.attr.get(('/ic', {'ct': 'Initial conditions', 'st': 'Configuration type'}[k]))
            names[k][E[{'ct': 'ConfType_s', 'st': 'ConfsubType_s'}[k]][sc[k]]] = a[1] if a else None
        read(ctx, P, E, r, sc, f, kinds)
    damp = dict(base, v=V['V_QCD2'] | V['V_PQ1'] | V['V_DAMP_RHO'] | V['V_EVOL_THETA'])
    fl = write(ctx, P, E, w, damp)
    keys = [x for x in UNSET] + list(POTS) + ['zi', 'zFinl']
    for on in [keys] + [[k] for k in keys] + [[x for x in keys if x != k] for k in keys] + [list(x) for x in itertools.combinations(keys, 2)]:
        given(ctx, P, E, r, damp, fl, on)
        ctx.cover(command_lines=1)
    ctx.floor('command_lines', ctx.cov.get('command_lines', 0), 60)
    for k, v, text, where in kinds:
        n = {'ct': 'ConfType_s', 'st': 'ConfsubType_s'}[k]
        nm = [x for x, y in E[n].items() if y == v]
        if v in names[k] and names[k][v] != text:
            ctx.violation('readConf/%s/%s' % (k, text), where, 'the kind of initial conditions "%s" is read back as %s, which is written as "%s"' % (text, nm and nm[0], names[k][v]))
    ctx.floor('configurations', ctx.cov.get('configurations', 0), 50)
    ctx.floor('attributes_read', ctx.cov.get('attributes_read', 0), 1000)


def tag(sc, base=('FIELD_SAXION', 'FIELD_DOUBLE')):
    return '%s/%s%s' % (sc['field'][6:], sc['prec'][6:], '/restart' if sc['restart'] else '')


COMP = {'FIELD_SAXION': 2, 'FIELD_NAXION': 2}


def write(ctx, P, E, f, sc):
    F, V = E['FieldType_s'], E['VqcdType_s']
    a = [x[0] for x in f.args]
    ans = dict(Field=F[sc['field']], Precision=E['FieldPrecision_s'][sc['prec']], Folded=sc['folded'], MMomSpace=int(sc['mom'] == 1), VMomSpace=int(sc['mom'] == 2),
               Device=E['DeviceType_s'][sc['dev']], LambdaT=E['LambdaType_s'][sc['lam']], Length=L, Depth=DEPTH, TotalDepth=DEPTH * GRID, Surf=L * L, Size=L * L * DEPTH)
    globs = {'cType': E['ConfType_s'][sc['ct']], 'smvarType': E['ConfsubType_s'][sc['st']]}
    cos = dict(QcdPot=sc['v'], UeC=0)
    if sc['lam'] == 'LAMBDA_FIXED': cos['LamZ2Exp'] = 0
    W = Writer(P, f, ctx, ans, globs, cos, None, bind={a[1]: atom_poly(mk('index')), a[2]: C(sc['restart'])})
    here = '%s:%d' % (f.file, f.line)
    out = None
    paths = W.run()
    good = [p for p in paths if 'exit' not in p.x]
    if not good:
        ctx.violation('writeConf/%s/refused' % sc['field'][6:], paths[0].x['exit'].where() if paths else here, 'a %s field in %s cannot be written' % (sc['field'], sc['prec'])); return None
    for p in good:
        fl = File()
        for x in p.x.get('log', ()):
            if x[0] == 'attr':
                if (x[1], x[2]) in fl.attr: ctx.violation('writeConf/%s/twice' % x[2], x[5].where(), 'the attribute "%s" is written twice' % x[2])
                fl.attr[(x[1], x[2])] = (x[3], x[4], x[5])
            elif x[0] == 'group': fl.groups.add(x[2])
            elif x[0] == 'file': fl.name = x[1]
        fl.mpaths = len(good)
        prepare(ctx, E, p, sc)
        data(ctx, f, p, sc, 'H5Dwrite', fl)
        out = fl
    return out


def prepare(ctx, E, p, sc):
    """what has to happen to the field before its buffers are written"""
    log = p.x.get('log', ())
    first = next((n for n, x in enumerate(log) if x[0] == 'H5Dwrite'), len(log))
    todo = []
    if sc['folded']: todo.append(('Folder', lambda a: a[1].const() == E['FoldType_s']['UNFOLD_ALL'], 'unfolded'))
    if sc['mom']: todo.append(('FTfield', lambda a: a[1].const() == E['FieldIndex_s']['FIELD_MV'] and a[2].const() == E['FFTdir_s']['FFT_BCK'], 'brought back to position space'))
    if sc['dev'] == 'DEV_GPU': todo.append(('transferCpu', lambda a: a[1].const() == E['FieldIndex_s']['FIELD_MV'], 'copied to the host'))
    for n, ok, what in todo:
        ctx.cover(obligations=1)
        if not any(x[0] == 'do' and x[1] == n and ok(x[2]) for x in log[:first]):
            i = log[first][-1] if first < len(log) else None
            ctx.violation('writeConf/not-%s' % what.split()[0], i.where() if i is not None else 'lib/io', 'the field is not %s before its data are written' % what)


def where(ptr):
    for b in ('mStart', 'vStart', 'mCpu', 'vCpu', 'm2Cpu', 'm2Start', 'mBackGhost', 'mFrontGhost'):
        d = sub(ptr, atom_poly(mk('sc', b))).const()
        if d is not None: return b, int(d)
    return None, None


def data(ctx, f, p, sc, kind, fl):
    """slabs transferred: file range and memory range"""
    w = kind == 'H5Dwrite'
    comp = COMP.get(sc['field'], 1)
    prec = sc['prec'] if w or not sc['uprec'] else sc['uprec']
    es = 8 if prec == 'FIELD_DOUBLE' else 4
    ht = 'NATIVE_DOUBLE' if es == 8 else 'NATIVE_FLOAT'
    sets = {}
    here = '%s:%d' % (f.file, f.line)
    t = tag(sc)
    for x in last(p, kind):
        ctx.cover(slabs=1)
        _, ds, mt, ms, sel, ptr, i = x
        if not ds or ds[1] != 'dset' or sel is None or sel[0] is None or sel[1] is None: raise jx.Broken('%s: transfer at %s not understood' % (f.short, i.where()))
        if sel[2] not in (0,) or sel[3] not in (0,): raise jx.Broken('%s: strided selection at %s' % (f.short, i.where()))
        off, cnt = sel[0].const(), sel[1].const()
        b, d = where(ptr)
        if off is None or cnt is None or b is None: raise jx.Broken('%s: transfer at %s has no known place' % (f.short, i.where()))
        sets.setdefault(ds[2], []).append((int(off), int(cnt), b, d, i, ds, mt, ms))
    want = {'/m': 'mStart', '/v': 'vStart'}
    if sc['field'] == 'FIELD_NAXION': want = {'/m': 'mStart'}
    for ds, buf in want.items():
        ctx.cover(obligations=1)
        T = sets.get(ds)
        if not T:
            ctx.violation('%s/%s/%s/missing' % (f.short, t, ds), here, '%s of a %s field: nothing is transferred for %s' % (f.short, sc['field'], ds)); continue
        lo = RANK * DEPTH * L * L * comp
        pos = lo
        for off, cnt, b, d, i, dset, mt, ms in sorted(T, key=lambda z: z[0]):
            if mt != ht: ctx.violation('%s/%s/%s/type' % (f.short, t, ds), i.where(), '%s of a %s field transfers %s as %s' % (f.short, prec, ds, mt)); break
            if w and dset[3] != ht: ctx.violation('%s/%s/%s/dataset' % (f.short, t, ds), i.where(), 'the dataset %s of a %s field is created as %s' % (ds, prec, dset[3])); break
            m = at(ms)
            if off != pos or not b == buf or d != (off - lo) * es:
                ctx.violation('%s/%s/%s/place' % (f.short, t, ds), i.where(), '%s: elements %d to %d of %s come from/go to %s + %d bytes; on rank %d the block begins at element %d and lies at %s' % (f.short, off, off + cnt, ds, b, d, RANK, lo, buf)); break
            if m and len(m) > 4 and m[4] != C(cnt).key(): ctx.violation('%s/%s/%s/memory-space' % (f.short, t, ds), i.where(), 'memory and file selections of %s differ in size' % ds); break
            pos = off + cnt
        else:
            if pos != lo + DEPTH * L * L * comp:
                ctx.violation('%s/%s/%s/length' % (f.short, t, ds), T[-1][4].where(), '%s transfers elements %d to %d of %s; the rank holds %d to %d' % (f.short, lo, pos, ds, lo, lo + DEPTH * L * L * comp))
        if w:
            m = [k for k in [T[0][5][4]]]
            sp = [x for x in p.env.values() if at(x) and at(x)[0] == 'h5' and at(x)[1] == 'space' and x.key() == T[0][5][4]]
            n = at(sp[0])[4] if sp and len(at(sp[0])) > 4 else None
            if n != C(DEPTH * GRID * L * L * comp).key():
                ctx.violation('writeConf/%s/%s/extent' % (t, ds), T[0][4].where(), 'the dataset %s is not created with the number of elements of the whole field' % ds)
            fl.sets[ds] = T


def read(ctx, P, E, f, sc, fl, kinds):
    F, V = E['FieldType_s'], E['VqcdType_s']
    a = [x[0] for x in f.args]
    stored = {'FIELD_WKB': 'FIELD_AXION'}.get(sc['field'], sc['field'])
    req = sc['req'] or stored
    globs = dict(uZin=0, uZfn=0, uPrec=int(sc['uprec'] is not None), sPrec=E['FieldPrecision_s'][sc['uprec'] or sc['prec']], sizeN=L, sizeZ=DEPTH, zGrid=GRID, fTypeP=F[req], debug=0)
    cos = dict(UNSET, QcdPot=0)
    ans = {}
    W = Reader(P, f, ctx, ans, globs, cos, fl, bind={a[2]: atom_poly(mk('index')), a[3]: C(sc['restart'])})
    here = '%s:%d' % (f.file, f.line)
    t = tag(sc)
    ps = W.run()
    ctx.cover(paths=len(ps))
    for p in ps:
        if 'exit' in p.x:
            ctx.violation('readConf/%s/refused' % sc['field'][6:], p.x['exit'].where(), 'a configuration of a %s field that was written is refused when it is read' % sc['field']); continue
        for x in last(p, 'absent'): ctx.violation('readConf/%s/absent' % x[2], x[3].where(), 'readConf reads the attribute "%s" of %s, which writeConf does not write (%s, %s)' % (x[2], x[1] or 'the file', sc['ct'], sc['st']))
        for x in last(p, 'types'): ctx.violation('readConf/%s/type' % x[2], x[5].where(), 'the attribute "%s" is written as %s and read as %s' % x[2:5])
        for x in last(p, 'nodata'): ctx.violation('readConf/%s%s/absent' % (t, x[1]), x[2].where(), 'readConf reads the dataset %s, which writeConf does not write for a %s field' % (x[1], sc['field']))
        n = last(p, 'file')
        if not n or n[0][1] != fl.name: ctx.violation('readConf/%sname' % ('restart-' if sc['restart'] else ''), n[0][3].where() if n else here, 'the file read is not the file written')
        # cosmology
        for k in MAND:
            ctx.cover(obligations=1)
            g = p.x.get(('cos', k))
            if k == 'LamZ2Exp' and sc['lam'] == 'LAMBDA_FIXED': w = ZERO
            else: w = atom_poly(mk('cos', k))
            if g is None: ctx.violation('readConf/%s/lost' % k, here, '%s is not restored from the file' % k)
            elif g[0].key() != w.key(): ctx.violation('readConf/%s/other' % k, g[1].where(), '%s is restored from another quantity: %s' % (k, str(g[0])[:80]))
        g = p.x.get(('cos', 'QcdPot'))
        if g is None or g[0].const() != sc['v']:
            d = (g[0].const() or 0) ^ sc['v'] if g else sc['v']
            nm = '+'.join(sorted(x for x, y in V.items() if x != 'V_NONE' and y & sc['v'] & d == y)) or '+'.join(x for x, y in V.items() if y == sc['v'])
            ctx.violation('readConf/potential/%s' % nm, g[1].where() if g else here, 'the potential %d (%s) is read back as %s' % (sc['v'], nm, g[0].const() if g else 'nothing'))
        # globals
        need = ['zInit', 'zFinl', 'mode0'] + list(IC.get(sc['ct'], KIND if '/ic' in fl.groups and names(fl) != 'None' else ()))
        for k in need:
            ctx.cover(obligations=1)
            v = p.mem.get(glob(k).key())
            if v is None: ctx.violation('readConf/%s/%s/lost' % (sc['ct'] if k not in ('zInit', 'zFinl', 'mode0') else 'any', k), here, '%s is not restored from the file (%s)' % (k, sc['ct']))
            elif v.key() != mem(k).key(): ctx.violation('readConf/%s/other' % k, here, '%s is restored from another quantity: %s' % (k, str(v)[:80]))
        if sc['restart']:
            v = p.mem.get(glob('fIndex').key())
            if v is None or v.key() != atom_poly(mk('index')).key(): ctx.violation('readConf/index', here, 'the index of a restart file is not restored')
        v = p.mem.get(glob('lType').key())
        if v is None or v.const() != E['LambdaType_s'][sc['lam']]: ctx.violation('readConf/%s' % sc['lam'], here, 'the law of the coupling %s is read back as %s' % (sc['lam'], v))
        for k, g, at_ in (('ct', 'cType', 'Initial conditions'), ('st', 'smvarType', 'Configuration type')):
            v = p.mem.get(glob(g).key())
            x = fl.attr.get(('/ic', at_))
            if x is None: continue
            if v is None:
                if not (k == 'ct' and x[1] == 'None'): ctx.violation('readConf/%s/%s' % (k, x[1]), here, 'the kind of initial conditions "%s", which writeConf writes for %s, is not recognised' % (x[1], sc[k]))
            else: kinds.append((k, v.const(), x[1], here))
        # the field
        N = last(p, 'new')
        if len(N) != 1: raise jx.Broken('readConf: %d fields created' % len(N))
        A = N[0][1]
        prec = sc['uprec'] or sc['prec']
        z = atom_poly(mk('ld', atom_poly(mk('sc', 'zV')).key()))
        made = 'FIELD_SAXION' if req == 'FIELD_SAXION' and stored in ('FIELD_AXION', 'FIELD_AXION_MOD') else stored
        for n, v, w in (('size', A[2].const(), L), ('depth', A[3].const(), DEPTH), ('precision', A[4].const(), E['FieldPrecision_s'][prec]), ('time', A[6].key(), z.key()),
                        ('ranks', A[8].const(), GRID), ('type', A[9].const(), F[made]), ('coupling', A[10].const(), E['LambdaType_s'][sc['lam']])):
            ctx.cover(obligations=1)
            if v != w: ctx.violation('readConf/%s/new-%s' % (t, n), N[0][2].where(), 'the field is created with %s %s; the file holds %s (%s requested)' % (n, A[{'size': 2, 'depth': 3, 'precision': 4, 'time': 6, 'ranks': 8, 'type': 9, 'coupling': 10}[n]], w, req))
        for x in last(p, 'ic'):
            for m, g in (('zi', z), ('alpha', None), ('siter', 'iter'), ('kcr', 'kCrit'), ('kMax', None), ('mode0', None), ('cType', None), ('smvarType', None)):
                w = g if not isinstance(g, (str, type(None))) else p.mem.get(glob(g or m).key(), mem(g or m))
                if x[1].get(m) is None or x[1][m].key() != w.key():
                    ctx.violation('readConf/ICData.%s' % m, x[2].where(), 'the initial-condition record gets another value for %s: %s' % (m, str(x[1].get(m))[:60]))
        data(ctx, f, p, dict(sc, field=stored), 'H5Dread', fl)
        log = p.x.get('log', ())
        conv = [x for x in log if x[0] == 'do' and x[1] in ('cmplxToTheta', 'ctheta2csaxion')]
        need = None
        if req != stored: need = 'ctheta2csaxion' if req == 'FIELD_SAXION' else 'cmplxToTheta'
        ctx.cover(obligations=1)
        if [x[1] for x in conv] != ([need] if need else []):
            ctx.violation('readConf/%s-to-%s' % (stored[6:], req[6:]), (conv[0][3] if conv else N[0][2]).where(), 'reading a %s configuration as %s: conversions %s' % (stored, req, [x[1] for x in conv] or 'none'))
        elif need == 'cmplxToTheta':
            sh = mul(atom_poly(mk('sc', 'Saskia')), atom_poly(mk('ld', atom_poly(mk('sc', 'RV')).key())))
            if conv[0][2][1].key() != sh.key(): ctx.violation('readConf/shift', conv[0][3].where(), 'the conversion to an angle does not use the shift Saskia*R: %s' % str(conv[0][2][1])[:80])
            if conv[0][2][2].const() != int(req == 'FIELD_AXION_MOD'): ctx.violation('readConf/periodic', conv[0][3].where(), 'the conversion to %s uses periodic = %s' % (req, conv[0][2][2]))
        rd = [n for n, x in enumerate(log) if x[0] == 'H5Dread']
        cv = [n for n, x in enumerate(log) if x[0] == 'do' and x[1] in ('cmplxToTheta', 'ctheta2csaxion', 'expandField', 'reduceField')]
        fo = [n for n, x in enumerate(log) if x[0] == 'do' and x[1] == 'setFolded' and x[2][1].const() == 0]
        if rd and cv and min(cv) < max(rd): ctx.violation('readConf/order', log[min(cv)][3].where(), 'the field is converted before it is read')
        if not fo or cv and min(cv) < fo[0]: ctx.violation('readConf/unfolded', here, 'the field that was read is not marked as unfolded')


def given(ctx, P, E, f, sc, fl, on):
    """what was given on the command line (on) is kept, everything else comes from the file"""
    F, V = E['FieldType_s'], E['VqcdType_s']
    a = [x[0] for x in f.args]
    globs = dict(uZin=int('zi' in on), uZfn=int('zFinl' in on), uPrec=0, sPrec=E['FieldPrecision_s'][sc['prec']], sizeN=L, sizeZ=DEPTH, zGrid=GRID, fTypeP=F[sc['field']], debug=0)
    G = lambda n: atom_poly(mk('cos', 'given ' + n))
    other = V['V_QCDC'] | V['V_PQ2'] | V['V_DAMP_ALL'] | V['V_EVOL_RHO']
    parts = sum(V[x] for x in on if x in POTS)
    cos = {n: (G(n) if n in on else UNSET[n]) for n in UNSET}
    for x, y in WITH.items():
        if y in on: cos[x] = G(x)
    cos['QcdPot'] = other & parts
    pot = other & parts | sc['v'] & ~parts
    zi = {o: m for o, z, m, t in P.struct('IcData_v')['m']}
    nm = '+'.join(sorted(on)) if len(on) < 4 else 'many'

    class R(Reader):
        def cosval(s, p, n, args=()):
            v = s.cos0.get(n)
            if ('cos', n) not in p.x and v is not None and not isinstance(v, int): return v
            return super().cosval(p, n, args)

        def onload(s, p, i, ad):
            d = sub(ad, atom_poly(mk('icdata'))).const()
            if d is not None and zi.get(int(d)) == 'zi': return G('zi')
            return super().onload(p, i, ad)
    here = '%s:%d' % (f.file, f.line)
    for p in R(P, f, ctx, {}, globs, cos, fl, bind={a[2]: atom_poly(mk('index')), a[3]: C(0)}).run():
        if 'exit' in p.x: ctx.violation('readConf/given/refused', p.x['exit'].where(), 'parameters given on the command line (%s) make readConf give up' % nm); continue
        for n in MAND:
            ctx.cover(obligations=1)
            g = p.x.get(('cos', n))
            if n in on or WITH.get(n) in on:
                if g is not None and g[0].key() != G(n).key(): ctx.violation('readConf/given/%s' % n, g[1].where(), '%s given on the command line is replaced when a configuration is read' % n)
            elif g is None: ctx.violation('readConf/%s/lost-when-given-%s' % (n, nm), here, '%s is not restored from the file when only %s was given on the command line' % (n, nm))
            elif g[0].key() != atom_poly(mk('cos', n)).key(): ctx.violation('readConf/%s/other-when-given-%s' % (n, nm), g[1].where(), '%s is restored from another quantity when %s was given on the command line: %s' % (n, nm, str(g[0])[:80]))
        g = p.x.get(('cos', 'QcdPot'))
        ctx.cover(obligations=1)
        have = g[0].const() if g is not None else cos['QcdPot']
        if have != pot:
            ctx.violation('readConf/given/QcdPot', g[1].where() if g is not None else here, 'with %s given on the command line and %d in the file the potential becomes %s, not %d' % (nm, sc['v'], have, pot))
        if 'zFinl' in on and glob('zFinl').key() in p.mem: ctx.violation('readConf/given/zFinl', f.file, 'the final time given on the command line is replaced when a configuration is read')
        if 'zFinl' not in on:
            v = p.mem.get(glob('zFinl').key())
            if v is None or v.key() != mem('zFinl').key(): ctx.violation('readConf/zFinl/lost-when-given-%s' % nm, here, 'the final time is not restored from the file when only %s was given' % nm)
        N = last(p, 'new')
        if 'zi' in on and (len(N) != 1 or N[0][1][6].key() != G('zi').key()): ctx.violation('readConf/given/zi', (N[0][2].where() if N else f.file), 'the initial time given on the command line is not used for the field')
        if 'zi' not in on and len(N) == 1 and N[0][1][6].key() == G('zi').key(): ctx.violation('readConf/zi/lost-when-given-%s' % nm, N[0][2].where(), 'the time in the file is not used although no initial time was given')


def names(fl):
    x = fl.attr.get(('/ic', 'Initial conditions'))
    return x[1] if x else 'None'
