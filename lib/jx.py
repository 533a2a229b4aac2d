"""Shared machinery: builds LLVM IR from /repo's current working tree with the real build's
flags (clang instead of gcc, analysis only, nothing is run) and loads it as a Python model."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JX_REPO', '/repo')
CACHE = os.environ.get('JX_CACHE', os.path.join(VERIF, '.cache'))

# Translation units compiled by the repository's default build (lib/CMakeLists.txt, test/CMakeLists.txt).
LIB_TUS = """fft/fftCuda comms/comms fft/fftCode utils/parse io/readWrite.pHdf5 scalar/scalarField
propagator/propagator energy/energy energy/energyXeon energy/energyThetaXeon energy/energyNaxionXeon
energy/energyPaxionXeon energy/dContrast strings/strings strings/length strings/stringCpu
strings/stringXeon utils/memAlloc gen/genConf gen/momConf gen/randXeon gen/anystringXeon gen/smoothXeon
gen/prepropa meas/measa scalar/scaleField scalar/scaleXeon scalar/theta2Cmplx scalar/theta2CmplxXeon
scalar/theta2Naxion scalar/theta2NaxionXeon scalar/theta2Paxion scalar/theta2PaxionXeon axiton/tracker
scalar/normField scalar/normXeon scalar/normCore scalar/normCoreXeon scalar/thetaXeon scalar/thetaScalar
scalar/folder scalar/mendTheta scalar/mendThetaXeon scalar/fourier utils/logger utils/profiler utils/misc
utils/kgvops projector/projector propagator/laplacian reducer/reducer spectrum/spectrum WKB/WKB
cosmos/cosmos gravity/potential gadget/gadget_output""".split()
LIB_TUS = ['lib/%s.cpp' % t for t in LIB_TUS]
EXE_TUS = ['test/%s.cpp' % t for t in 'vaxions WKVaxion Paxions gravi3 reduce gadgetme'.split()]
ALL_TUS = LIB_TUS + EXE_TUS

CLANG = 'clang++'
FLAGS = ['-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include',
         '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
         '-I/usr/include/hdf5/openmpi', '-I%s/include' % VERIF,
         '-mavx2', '-mfma', '-DUSE_PROP_RKN4', '-std=gnu++14', '-w', '-Wno-argument-outside-range',
         '-ferror-limit=0', '-fignore-exceptions', '-fno-discard-value-names', '-fno-strict-aliasing',
         '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-Xclang', '-debug-info-kind=limited', '-gno-column-info']


class Broken(Exception):
    """The analysis could not be carried out (vanished anchor, unparsable source): an error, never a verdict."""


def repo_hash():
    h = hashlib.sha256()
    for d in ('include', 'lib', 'test'):
        for r, ds, fs in sorted(os.walk(os.path.join(REPO, d))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.cpp', '.h', '.hpp', '.c', '.cu')):
                    p = os.path.join(r, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    for p in (__file__, os.path.join(VERIF, 'tool/irdump.cpp'), os.path.join(VERIF, 'include/omp.h')):
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def build_tool():
    src = os.path.join(VERIF, 'tool/irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    exe = os.path.join(CACHE, 'irdump-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(CACHE, exist_ok=True)
    cfg = lambda a: subprocess.check_output(['llvm-config-18'] + a, text=True).split()
    tmp = exe + '.%d' % os.getpid()
    cmd = ['clang++', '-std=c++17', '-O1', '-fno-rtti'] + cfg(['--cppflags']) + [src, '-o', tmp] + cfg(['--ldflags']) + ['-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build irdump: ' + r.stderr[:2000])
    os.rename(tmp, exe)
    return exe


SHIM = ('-include', os.path.join(VERIF, 'include/voidarith.h'))
RANGE = re.compile(r'^(/[^:]+):(\d+):\d+:((?:\{[^}]*\})+): error: arithmetic on a pointer to void')


def _compile(tu, bc, openmp, defs=()):
    """clang -> bitcode.  g++ accepts arithmetic on void* (step 1); clang does not, so those operands are
    wrapped, in a scratch copy of the file only, in a shim class with exactly g++'s meaning."""
    src = os.path.join(REPO, tu)
    if not os.path.exists(src):
        raise Broken('translation unit %s has vanished' % tu)
    base = [CLANG, '-I%s/lib' % REPO, '-I%s/include' % REPO] + FLAGS + (['-fopenmp'] if openmp else ['-fno-openmp', '-Wno-source-uses-openmp']) + ['-D' + x for x in defs]
    patched = {}
    tmpd = None
    try:
        for attempt in range(6):
            cmd = base + ['-fdiagnostics-print-source-range-info'] + (list(SHIM) if patched else [])
            for k, v in patched.items():
                cmd += ['-Xclang', '-remap-file', '-Xclang', '%s;%s' % (k, v)]
            cmd += ['-c', '-emit-llvm', '-o', bc + '.tmp', src]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode == 0:
                os.rename(bc + '.tmp', bc)
                return
            fixes = {}
            for line in r.stderr.splitlines():
                m = RANGE.match(line)
                if not m:
                    continue
                f = os.path.normpath(m.group(1))
                rg = re.findall(r'\{(?:[^{}]*:)?(\d+):(\d+)-(\d+):(\d+)\}', m.group(3))
                if rg:
                    fixes.setdefault(m.group(1), set()).add(tuple(map(int, rg[0])))
            if not fixes:
                raise Broken('clang cannot parse %s: %s' % (tu, r.stderr[:1500]))
            if tmpd is None:
                tmpd = tempfile.mkdtemp(prefix='jxshim')
            for f, rs in fixes.items():
                cur = patched.get(f, f)
                lines = open(cur, 'rb').read().decode('latin-1').split('\n')
                done = set()
                for (l0, c0, l1, c1) in sorted(rs, key=lambda x: (-x[0], -x[1])):
                    if l0 in done or l0 != l1:
                        continue       # one per line per attempt keeps the columns valid
                    done.add(l0)
                    s = lines[l0 - 1]
                    lines[l0 - 1] = s[:c0 - 1] + 'jx_vp{' + s[c0 - 1:c1 - 1] + '}' + s[c1 - 1:]
                new = os.path.join(tmpd, '%d_%s' % (attempt, os.path.basename(f)))
                open(new, 'wb').write('\n'.join(lines).encode('latin-1'))
                patched[f] = new
        raise Broken('clang cannot parse %s after void* shimming: %s' % (tu, r.stderr[:1500]))
    finally:
        if tmpd:
            shutil.rmtree(tmpd, ignore_errors=True)


CFG_PASSES = 'always-inline,function(sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;speculate-blocks;bonus-inst-threshold=0>)'
CFG_PASSES_PLAIN = 'always-inline,function(sroa,early-cse)'
KERN_PASSES = 'always-inline,function(sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,sccp,adce)'
# never inlined in the value analyses: transcendental SIMD primitives, logging, communication, timing
KERN_KEEPOUT = r'^(_?_mm(256)?_(sin|cos|exp|log|mod|md2|atan2)_p|commRank|commSize|commSync|.*AxionsLog|.*Profiler::|.*Scalar::|.*Cosmos::|.*FFTplan::|.*AxionFFT::|trackAlloc|trackFree|alignAlloc|PropParms|getCurrentProfile)|(^|[ :*&])(commRank|commSize|commSync|trackFree|trackAlloc|alignAlloc|initProfilers|getCurrentProfile|getProfiler)\('
MODES = {
    # control-flow / call-site analyses: repo functions stay separate, OpenMP outlined
    # value analyses: OpenMP ignored (its pragmas do not change values), everything inlined into the chosen roots
    'kern': dict(openmp=False, args=['--passes=' + KERN_PASSES, '--inline-std', '--inline-repo', '--noinline=' + KERN_KEEPOUT]),
    'cfg': dict(openmp=True, args=['--passes=' + CFG_PASSES_PLAIN,
                r'--alwaysinline=^(std::__shared_ptr_access|std::complex|std::array<|std::unique_ptr<[^()]*>::(get|operator)|[^(]*std::vector<[^(]*>::(operator\[\]|size|data|at|begin|end)\()']),
}


def gen(tus, mode='cfg', extra=None, defs=(), jobs=8):
    """Return {tu: path of jsonl} for the given mode, generating what is not cached for this exact tree."""
    tool = build_tool()
    h = repo_hash()
    d = os.path.join(CACHE, 'ir', h)
    if not os.path.isdir(d):
        shutil.rmtree(os.path.join(CACHE, 'ir'), ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    spec = MODES[mode]
    args = spec['args'] + (extra or [])
    akey = hashlib.sha256(json.dumps([spec['openmp'], args, list(defs)]).encode()).hexdigest()[:8]
    out = {}

    def one(tu):
        bn = tu.replace('/', '_')
        bc = os.path.join(d, bn + ('.omp' if spec['openmp'] else '.ser') + ''.join('.' + x for x in defs) + '.bc')
        js = os.path.join(d, bn + '.' + akey + '.jsonl')
        if not os.path.exists(js):
            if not os.path.exists(bc):
                _compile(tu, bc, spec['openmp'], defs)
            r = subprocess.run([tool, bc, js + '.tmp', '--root=' + REPO] + args, capture_output=True, text=True)
            if r.returncode:
                raise Broken('irdump failed on %s: %s' % (tu, r.stderr[:800]))
            os.rename(js + '.tmp', js)
        return tu, js
    with ThreadPoolExecutor(jobs) as ex:
        for tu, js in ex.map(one, tus):
            out[tu] = js
    return out


# --------------------------------------------------------------------------------------------------
class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'loc', 'x', 'name', 'sty', 'bb', 'fn', 'pos')

    def __init__(s, fn, bb, raw, pos):
        s.id, s.op, s.ty, s.ops, s.loc, s.x, s.name, s.sty = raw
        s.bb, s.fn, s.pos = bb, fn, pos

    @property
    def callee(s):
        return s.x if s.op in ('call', 'invoke') and isinstance(s.x, str) else None

    def line(s):
        """(file, line) of the innermost source location that lies in /repo"""
        if not s.loc:
            return (s.fn.file, s.fn.line)
        fl = s.fn.mod.files
        for i in range(0, len(s.loc), 2):
            f = fl[s.loc[i]]
            if not f.startswith('/') and s.loc[i + 1]:
                return (f, s.loc[i + 1])
        return (fl[s.loc[0]], s.loc[1])

    def where(s):
        return '%s:%d' % s.line()

    def __repr__(s):
        return '%%%d=%s %s %s' % (s.id, s.op, s.ops, s.x if s.x is not None else '')


class Block:
    __slots__ = ('idx', 'insts', 'succs', 'preds', 'fn')

    def __init__(s, fn, idx):
        s.fn, s.idx, s.insts, s.succs, s.preds = fn, idx, [], [], []

    @property
    def term(s):
        return s.insts[-1]


class Fn:
    def __init__(s, mod, d):
        s.mod = mod
        s.name, s.dem, s.file, s.line, s.args, s.ret = d['name'], d['dem'], d['file'], d['line'], d['args'], d['ret']
        s.internal = d['internal']
        s.dbg = d.get('dbg', [])
        s.blocks = []
        s.val = {}
        for bi, b in enumerate(d['blocks']):
            B = Block(s, bi)
            for p, raw in enumerate(b):
                I = Inst(s, B, raw, p)
                B.insts.append(I)
                s.val[I.id] = I
            s.blocks.append(B)
        for B in s.blocks:
            t = B.insts[-1]
            if t.op == 'br':
                B.succs = [o[1] for o in t.ops if isinstance(o, list) and o[0] == 'b']
            elif t.op == 'switch':
                B.succs = [t.ops[1][1]] + [o[2] for o in t.ops[2:]]
            elif t.op == 'invoke':
                B.succs = []
            for q in B.succs:
                if B.idx not in s.blocks[q].preds:
                    s.blocks[q].preds.append(B.idx)
        s._dom = s._pdom = s._cd = s._users = None

    def insts(s):
        for b in s.blocks:
            for i in b.insts:
                yield i

    def calls(s, *names):
        for i in s.insts():
            if i.op == 'call' and (not names or i.x in names):
                yield i

    @property
    def short(s):
        return short(s.dem)

    # ---- dominators (simple iterative on sets of ints; functions here are at most a few thousand blocks)
    def _idoms(s, n, entry, succs, preds):
        order, seen, st = [], {entry}, [(entry, iter(succs[entry]))]
        while st:
            b, it = st[-1]
            for q in it:
                if q not in seen:
                    seen.add(q); st.append((q, iter(succs[q]))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == entry:
                    continue
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new; ch = True
        return idom, num

    def dom(s):
        if s._dom is None:
            n = len(s.blocks)
            su = {b.idx: b.succs for b in s.blocks}
            pr = {b.idx: b.preds for b in s.blocks}
            s._dom = s._idoms(n, 0, su, pr)
        return s._dom

    def dominates(s, a, b):
        """block a dominates block b"""
        idom, num = s.dom()
        if b not in idom: return True
        while True:
            if a == b: return True
            if b == 0: return False
            b = idom[b]

    def pdom(s, exits=None):
        """post-dominator tree w.r.t. normal returns; blocks ending in unreachable/noreturn do not count as
        exits, so a branch to a fatal exit does not make the rest control dependent on it.
        Returns idom over ids with virtual exit -1."""
        if s._pdom is None:
            X = -1
            su = {b.idx: [] for b in s.blocks}; su[X] = []
            pr = {b.idx: [] for b in s.blocks}; pr[X] = []
            dead = s.dead_blocks()
            for b in s.blocks:
                if b.idx in dead: continue
                if b.insts[-1].op == 'ret':
                    su[X].append(b.idx); pr[b.idx].append(X)
                for q in b.succs:
                    if q in dead: continue
                    su[q].append(b.idx); pr[b.idx].append(q)
            s._pdom = s._idoms(len(s.blocks) + 1, X, su, pr)
        return s._pdom

    def dead_blocks(s):
        """blocks from which no return is reachable (exit(), abort(), unreachable)"""
        if getattr(s, '_deadb', None) is None:
            live, st = set(), []
            noret = set()
            for b in s.blocks:
                for i in b.insts:
                    if i.op == 'call' and isinstance(i.x, str) and s.mod.prog.noreturn(i.x, s.mod):
                        noret.add(b.idx)
            for b in s.blocks:
                if b.insts[-1].op == 'ret' and b.idx not in noret:
                    live.add(b.idx); st.append(b.idx)
            while st:
                b = st.pop()
                for p in s.blocks[b].preds:
                    if p not in live and p not in noret:
                        live.add(p); st.append(p)
            s._deadb = {b.idx for b in s.blocks} - live
        return s._deadb

    def cdeps(s):
        """control dependence: block -> set of (branch block, successor)"""
        if s._cd is None:
            idom, num = s.pdom()
            cd = {b.idx: set() for b in s.blocks}
            dead = s.dead_blocks()
            for b in s.blocks:
                if len(b.succs) < 2 or b.idx in dead:
                    continue
                stop = idom.get(b.idx)
                for q in b.succs:
                    if q in dead: continue
                    r = q
                    while r is not None and r != stop and r != -1:
                        cd[r].add((b.idx, q))
                        r = idom.get(r)
            s._cd = cd
        return s._cd

    def cdeps_closure(s, bidx):
        seen, st = set(), [bidx]
        cd = s.cdeps()
        out = set()
        while st:
            b = st.pop()
            for (p, q) in cd[b]:
                if (p, q) not in out:
                    out.add((p, q))
                    if p not in seen:
                        seen.add(p); st.append(p)
        return out

    def users(s):
        if s._users is None:
            u = {}
            for i in s.insts():
                for o in flat_ops(i):
                    u.setdefault(o, []).append(i)
            s._users = u
        return s._users


def flat_ops(i):
    """ids of SSA values used by the instruction"""
    out = []

    def rec(o):
        if isinstance(o, bool): return
        if isinstance(o, int):
            out.append(o)
        elif isinstance(o, list) and o:
            if o[0] in ('ci', 'cf', 'g', 'null', 'undef', 'cz', 'b', 'case', '?', 'md', 'c?'): return
            if o[0] == 'cv':
                for e in o[1]: rec(e)
            elif o[0] == 'ce':
                for e in o[2]: rec(e)
    if i.op == 'phi':
        for v, b in i.ops: rec(v)
    else:
        for o in i.ops: rec(o)
    if i.op == 'call' and isinstance(i.x, list): rec(i.x[0])
    return out


def short(dem):
    d = re.sub(r'\[clone [^\]]*\]', '', dem)
    # strip arguments: keep up to the matching '(' of the parameter list
    depth = 0
    for k, c in enumerate(d):
        if c == '<': depth += 1
        elif c == '>' and d[k - 1] != '-': depth -= 1
        elif c == '(' and depth <= 0:
            if d.startswith('(anonymous namespace)', k): continue
            d = d[:k]; break
    d = d.strip()
    # strip return type of templates
    if ' ' in d:
        depth = 0; cut = 0
        for k, c in enumerate(d):
            if c == '<': depth += 1
            elif c == '>' and d[k - 1] != '-': depth -= 1
            elif c == ' ' and depth == 0 and not d.startswith('operator', cut): cut = k + 1
        d = d[cut:]
    return d


class Mod:
    def __init__(s, prog, tu, path):
        s.prog, s.tu = prog, tu
        s.fns, s.gv, s.structs, s.enums, s.names, s.files = {}, {}, {}, {}, {}, []
        raws = []
        with open(path) as f:
            for line_ in _records(f):
                d = json.loads(line_)
                k = d['k']
                if k == 'fn':
                    if prog.drop and prog.drop.search(d['dem']): continue
                    raws.append(d)
                elif k == 'gv': s.gv[d['name']] = d
                elif k == 'struct': s.structs[d['name']] = d
                elif k == 'enum': s.enums[d['name']] = d
                elif k == 'files': s.files = d['files']
                elif k == 'names': s.names = d['names']
        for d in raws:
            s.fns[d['name']] = Fn(s, d)


def _records(f):
    """one JSON object may span several physical lines"""
    buf = []
    for line_ in f:
        if line_.startswith('{"k":') and buf:
            yield ''.join(buf); buf = []
        buf.append(line_)
    if buf: yield ''.join(buf)


NORETURN = {'exit', 'abort', '_exit', 'MPI_Abort', '__cxa_throw', '_ZSt9terminatev', '__clang_call_terminate', '_Exit', 'quick_exit'}


class Program:
    def __init__(s, tus, mode='cfg', extra=None, defs=(), drop=r'^(auto |void )?AxionsLog::|AxionsLog::Msg::|^void AxionsLog'):
        s.drop = re.compile(drop) if drop else None
        s.mods = {}
        paths = gen(tus, mode, extra, defs)
        for tu in tus:
            s.mods[tu] = Mod(s, tu, paths[tu])
        s.fns = {}       # external/linkonce: by name; internal: by (tu, name)
        s.all = []
        seen = set()
        for tu, m in s.mods.items():
            for n, f in m.fns.items():
                if f.internal:
                    s.all.append(f)
                elif n not in seen:
                    seen.add(n); s.fns[n] = f; s.all.append(f)
        s._nr = {}

    def resolve(s, name, mod):
        f = mod.fns.get(name)
        if f is not None: return f
        return s.fns.get(name)

    def dem(s, name, mod):
        r = mod.names.get(name)
        return r[0] if r else name

    def noreturn(s, name, mod):
        if name in NORETURN: return True
        r = mod.names.get(name)
        if r and r[3]: return True
        # wrappers all of whose paths end in a noreturn call
        key = name if name in s.fns else (mod.tu, name)
        if key in s._nr: return s._nr[key]
        s._nr[key] = False
        f = s.resolve(name, mod)
        if f is not None and len(f.blocks) < 60:
            s._nr[key] = not any(b.idx not in f.dead_blocks() for b in f.blocks[:1])
        return s._nr[key]

    def find(s, pattern, file=None):
        r = re.compile(pattern)
        return [f for f in s.all if r.search(f.dem) and (file is None or f.file == file)]

    def enum(s, typename):
        for m in s.mods.values():
            if typename in m.enums:
                return {k: int(v) for k, v in m.enums[typename]['m']}
        raise Broken('enum %s not found' % typename)

    def struct(s, name):
        best = None
        for m in s.mods.values():
            if name in m.structs and m.structs[name]['m']:
                return m.structs[name]
        raise Broken('struct %s not found' % name)


def gstr(mod, o):
    """constant string behind an operand, or None"""
    if isinstance(o, list) and o and o[0] == 'g':
        g = mod.gv.get(o[1])
        if g is not None and 'str' in g: return g['str']
        if g is not None and g.get('init') and g['init'][0] == 'cz' and 'i8' in g['type']: return ''
    if isinstance(o, list) and o and o[0] == 'ce' and o[1] == 'getelementptr':
        p = o[3] if len(o) > 3 else None
        s = gstr(mod, o[2][0])
        if s is not None and p and not p[1]:
            return s[p[0]:]
    return None


def constants(header, names, prelude='using namespace AxionEnum;'):
    """values of enumerators and constants, as the compiler evaluates them"""
    src = '#include "%s"\n%s\n' % (header, prelude) + ''.join('extern "C" const long long jxv_%s; const long long jxv_%s = (long long)(%s);\n' % (n, n, n) for n in names)
    r = subprocess.run([CLANG, '-I%s/lib' % REPO, '-I%s/include' % REPO] + FLAGS + ['-fno-openmp', '-x', 'c++', '-S', '-emit-llvm', '-o', '-', '-'], input=src, capture_output=True, text=True)
    if r.returncode: raise Broken('constants of %s: %s' % (header, r.stderr[:500]))
    out = {m.group(1): int(m.group(2)) for m in re.finditer(r'^@jxv_(\w+) = [^\n]*\bconstant i64 (-?\d+)', r.stdout, re.M)}
    for n in names:
        if n not in out: raise Broken('constant %s of %s not found' % (n, header))
    return out
