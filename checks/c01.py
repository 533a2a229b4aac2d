"""All ranks perform the same sequence of collective operations."""
import re
import jx
from cfgutil import *

LEVEL = 'other'
EXPLANATION = ('Rank-dependent values (the rank itself, received messages, local lattice data) are propagated through the LLVM IR of every function of all translation units, through arguments, returns, globals, locals and control dependence. '
               'At every branch whose condition is rank-dependent the sequences of collective operations (MPI, parallel HDF5, FFTW-MPI, and functions that perform them) on the two sides up to the point where they join are compared; '
               'a rank-dependent loop must contain none.')
RULES = ['both sides of a rank-dependent branch perform the same collectives in the same order', 'no collective inside a loop whose trip count depends on the rank', 'a side that ends the program is exempt (the run is over)']

MPI = {'MPI_' + x for x in 'Barrier Bcast Allreduce Reduce Gather Allgather Gatherv Allgatherv Scatter Scatterv Alltoall Alltoallv Scan Exscan Reduce_scatter Comm_dup Comm_split Comm_create Comm_free Win_create Win_free Win_fence File_open File_close Finalize Ibarrier Ibcast Iallreduce Cart_create'.split()}
H5 = {'H5' + x for x in 'Fcreate Fopen Fclose Fflush Gcreate1 Gcreate2 Acreate1 Acreate2 Awrite Adelete Ldelete Dcreate1 Dcreate2 Dset_extent Lcreate_soft Lcreate_hard Lmove Ocopy'.split()}
FFTW = re.compile(r'^fftwf?_mpi_(plan_|execute|broadcast_wisdom|gather_wisdom)|^fftwf?_execute')
COND_H5 = {'H5Dwrite', 'H5Dread'}
UNIFORM_OUT = {'MPI_Bcast': 0, 'MPI_Allreduce': 1, 'MPI_Allgather': 3}     # argument that ends up the same everywhere
DIV_OUT = {'MPI_Comm_rank': (1,), 'MPI_Recv': (0,), 'MPI_Irecv': (0,), 'MPI_Reduce': (1,), 'MPI_Gather': (3,), 'MPI_Scatter': (3,), 'MPI_Scan': (1,), 'MPI_Exscan': (1,), 'MPI_Sendrecv': (5,), 'MPI_Iprobe': (3, 4), 'MPI_Probe': (3,), 'MPI_Test': (1,), 'MPI_Get_count': (2,), 'MPI_Wait': ()}
PARAMS = {'MPI_Bcast': (1, 3), 'MPI_Reduce': (2, 5), 'MPI_Allreduce': (2,), 'MPI_Gather': (6,), 'MPI_Allgather': (1,), 'H5Fcreate': (1,), 'H5Fopen': (1,), 'H5Dset_extent': ()}    # counts, roots
DATA = re.compile(r'^Scalar::(mCpu|vCpu|m2Cpu|sData|mStart|vStart|m2Start|m2half|mFrontGhost|mBackGhost|vGhost|m2FrontGhost|m2BackGhost|mGpu|vGpu|m2Gpu|mGhost|m2Ghost)')


_S = 'simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>'
PASSES = ['--passes=always-inline,function(sroa,early-cse,%s,jump-threading,instsimplify,sccp,%s)' % (_S, _S)]


class Div:
    def __init__(s, P, ctx):
        s.P, s.ctx = P, ctx
        s.arg = {}           # (fn key, index) -> 'V' | 'D'  (rank-dependent value / pointer to rank-dependent data)
        s.ret = {}           # fn key -> label
        s.glob = set()
        s.locals = {}        # fn key -> {alloca id: label}
        s.val = {}           # fn key -> {id: label}
        s.uni = {}           # fn key -> allocas that are made uniform
        s.flds, s.fwhy = set(), {}
        s.work = True

    def key(s, f): return f.name if not f.internal else (f.mod.tu, f.name)

    def base(s, f, o, d=0):
        """alloca / global / argument behind an address"""
        while d < 30:
            d += 1
            if isinstance(o, list):
                if o[0] == 'g': return ('g', o[1])
                if o[0] == 'ce' and o[2]: o = o[2][0]; continue
                return None
            if o < len(f.args): return ('a', o)
            i = f.val.get(o)
            if i is None: return None
            if i.op == 'alloca': return ('l', i.id)
            fl = field(f, i)
            if fl:
                r = s.base(f, i.ops[0], d)
                return ('f', fl, r)
            if i.op in ('getelementptr', 'bitcast', 'addrspacecast'): o = i.ops[0]; continue
            return ('v', i.id)
        return None

    def lab(s, f, o):
        V = s.val[s.key(f)]
        if isinstance(o, int): return V.get(o)
        if isinstance(o, list):
            if o[0] == 'g': return 'D' if o[1] in s.glob else None
            if o[0] == 'ce' and o[2]: return s.lab(f, o[2][0])
        return None

    def setv(s, f, i, l):
        if l is None: return
        V = s.val[s.key(f)]
        if V.get(i.id) != l and V.get(i.id) != 'V':
            V[i.id] = l; s.work = True; s.loc = True

    def mark(s, f, addr):
        """the memory behind addr holds rank-dependent data"""
        b = s.base(f, addr)
        if b is None: return
        k = s.key(f)
        if b[0] == 'g':
            if b[1] not in s.glob: s.glob.add(b[1]); s.work = True; s.loc = True
        elif b[0] == 'f':
            if b[1] not in s.flds: s.flds.add(b[1]); s.work = True; s.loc = True; s.fwhy[b[1]] = (f.short, addr)
        elif b[0] == 'l':
            if b[1] not in s.uni[k] and s.locals[k].get(b[1]) is None: s.locals[k][b[1]] = 'D'; s.work = True; s.loc = True

    def fn(s, f):
        k = s.key(f)
        if k not in s.val:
            s.val[k] = {}; s.locals[k] = {}
            s.uni[k] = set()
            for i in f.insts():
                if i.op == 'call' and isinstance(i.x, str) and i.x in UNIFORM_OUT and len(i.ops) > UNIFORM_OUT[i.x]:
                    b = s.base(f, i.ops[UNIFORM_OUT[i.x]])
                    if b and b[0] == 'l': s.uni[k].add(b[1])
        V = s.val[k]
        for n in range(len(f.args)):
            l = s.arg.get((k, n))
            if l and V.get(n) is None: V[n] = l
        s.loc = True
        rounds = 0
        divb = set()
        while s.loc and rounds < 50:
            s.loc = False; rounds += 1
            # blocks executed under a rank-dependent branch
            cd = None
            for b in f.blocks:
                t = b.term
                if t.op in ('br', 'switch') and len(b.succs) > 1 and s.lab(f, t.ops[0]) == 'V': divb.add(b.idx)
            under = set()
            if divb:
                for b in f.blocks:
                    if b.idx in f.dead_blocks(): continue
                    if any(p in divb for p, q in f.cdeps()[b.idx]): under.add(b.idx)
            for i in f.insts(): s.inst(f, i, under, divb)
            s.under[k] = under

    def inst(s, f, i, under, divb):
        k = s.key(f)
        op = i.op
        L = lambda o: s.lab(f, o)
        if op == 'load':
            b = s.base(f, i.ops[0])
            if b and b[0] == 'l':
                r = s.reach(f).get(i.id)
                if r is not None:
                    for q in r:
                        if q.op == 'store':
                            if L(q.ops[0]) == 'V' or L(q.ops[0]) == 'D' or q.bb.idx in under: s.setv(f, i, 'V' if not ptr(i.ty) else 'D')
                        elif q.op == 'call' and not uniform_def(s, f, q, b[1]): s.setv(f, i, 'V' if not ptr(i.ty) else 'D')
                    return
                if s.locals[k].get(b[1]): s.setv(f, i, 'V' if not ptr(i.ty) else 'D')
                return
            if b and b[0] == 'g':
                if b[1] in s.glob: s.setv(f, i, 'V')
                return
            if b and b[0] == 'f' and b[1] in s.flds: s.setv(f, i, 'V' if not ptr(i.ty) else 'D')
            l = L(i.ops[0])
            if l: s.setv(f, i, 'V' if not ptr(i.ty) else 'D')
        elif op == 'store':
            if L(i.ops[0]) == 'V' or (i.bb.idx in under and varies(f, i.ops[0])): s.mark(f, i.ops[1])
            elif L(i.ops[0]) == 'D':
                s.mark(f, i.ops[1])
        elif op == 'atomicrmw' or op == 'cmpxchg':
            if any(L(o) == 'V' for o in i.ops[1:]) or i.bb.idx in under: s.mark(f, i.ops[0])
            if memdiv(s, f, i.ops[0]) or L(i.ops[0]): s.setv(f, i, 'V')
        elif op in ('getelementptr', 'bitcast'):
            if L(i.ops[0]) == 'V' and op == 'bitcast': s.setv(f, i, 'V')
            elif L(i.ops[0]) == 'D' and not field(f, i): s.setv(f, i, 'D')
            elif any(L(o) == 'V' for o in i.ops[1:]): s.setv(f, i, 'D')
        elif op == 'phi':
            ls = [L(v) for v, b in i.ops]
            if 'V' in ls: s.setv(f, i, 'V')
            elif 'D' in ls: s.setv(f, i, 'D')
            elif not ptr(i.ty):
                vs = {repr(v) for v, b in i.ops}
                if len(vs) > 1 and any(joins(f, d, i) for d in divb): s.setv(f, i, 'V')
        elif op in ('icmp', 'fcmp'):
            if any(L(o) == 'V' for o in i.ops): s.setv(f, i, 'V')
        elif op == 'select':
            ls = [L(o) for o in i.ops]
            if ls[0] == 'V' or 'V' in ls[1:]: s.setv(f, i, 'V' if not ptr(i.ty) else 'D')
            elif 'D' in ls: s.setv(f, i, 'D')
        elif op == 'call': s.call(f, i, under)
        elif op == 'ret':
            if i.ops:
                l = L(i.ops[0])
                if l and s.ret.get(k) != l and s.ret.get(k) != 'V': s.ret[k] = l; s.work = True
                elif not l and i.bb.idx in under and not ptr(f.ret) and False: pass
        else:
            if any(L(o) == 'V' for o in i.ops if isinstance(o, int)): s.setv(f, i, 'V')
            elif op in ('extractvalue', 'insertvalue', 'ptrtoint', 'inttoptr') and any(L(o) == 'D' for o in i.ops if isinstance(o, int)): s.setv(f, i, 'D')

    def call(s, f, i, under):
        n = i.x if isinstance(i.x, str) else None
        L = lambda o: s.lab(f, o)
        if n is None: return
        d = s.P.dem(n, f.mod)
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            if L(i.ops[1]) == 'D' or memdiv(s, f, i.ops[1]): s.mark(f, i.ops[0])
            return
        if n.startswith('llvm.'):
            if any(L(o) == 'V' for o in i.ops): s.setv(f, i, 'V')
            return
        if n in DIV_OUT:
            for q in DIV_OUT[n]: s.mark(f, i.ops[q])
            return
        if re.search(r'Logger::runTime|chrono::_V2::(system|steady)_clock::now|^clock$|^time$|^rand$|random_device|^gettimeofday$|^std::chrono.*::now', d):
            s.setv(f, i, 'V'); return
        if re.match(r'commRank\(', d): s.setv(f, i, 'V'); return
        if DATA.search(d.split('(')[0] + '('): s.setv(f, i, 'D'); return
        g, args = target(s.P, f, i)
        if g is not None:
            gk = s.key(g)
            for q, o in args:
                l = L(o)
                if l is None and memdiv(s, f, o): l = 'D'
                if l and q < len(g.args) and s.arg.get((gk, q)) not in (l, 'V'):
                    s.arg[(gk, q)] = l; s.work = True
            if n != '__kmpc_fork_call' and s.ret.get(gk): s.setv(f, i, s.ret[gk] if not ptr(i.ty) else 'D')
            # by-reference results: a callee that stores rank-dependent values through an argument
            for q, o in args:
                if (gk, q) in s.outs: s.mark(f, o)
            return
        if n in ('fopen', 'malloc', 'fftw_malloc'): return
        if any(L(o) == 'V' for o in i.ops): s.setv(f, i, 'V')

    def reach(s, f):
        """definitions (stores, calls that get the address) of a scalar local that reach each load of it"""
        k = s.key(f)
        if k in s.rd: return s.rd[k]
        out = s.rd[k] = {}
        U = f.users()
        for a in f.insts():
            if a.op != 'alloca': continue
            acc, ok = {}, True
            for u in U.get(a.id, ()):
                if u.op == 'load': acc[u.id] = ('use', u)
                elif u.op == 'store' and u.ops[1] == a.id and u.ops[0] != a.id: acc[u.id] = ('def', u)
                elif u.op == 'call' and isinstance(u.x, str):
                    if u.x.startswith('llvm.lifetime') or u.x.startswith('llvm.dbg'): continue
                    if u.x in IN_ONLY and all(o != a.id or q in IN_ONLY[u.x] for q, o in enumerate(u.ops)): continue
                    strong = u.x in UNIFORM_OUT and u.ops[UNIFORM_OUT[u.x]] == a.id or u.x in DIV_OUT and any(u.ops[q] == a.id for q in DIV_OUT[u.x])
                    acc[u.id] = ('def' if strong else 'may', u)
                else: ok = False; break
            if not ok or not any(t == 'use' for t, u in acc.values()): continue
            inn = {b.idx: set() for b in f.blocks}
            wl = [0]; seen = set()
            while wl:
                x = wl.pop(); cur = set(inn[x]); seen.add(x)
                for i in f.blocks[x].insts:
                    t = acc.get(i.id)
                    if t is None: continue
                    if t[0] == 'use': out[i.id] = {f.val.get(z) for z in cur} - {None}
                    elif t[0] == 'def': cur = {i.id}
                    else: cur = cur | {i.id}
                for y in f.blocks[x].succs:
                    if y not in seen or not cur <= inn[y]:
                        inn[y] |= cur; wl.append(y)
        return out

    def run(s):
        s.rd = {}
        s.outs, s.under = set(), {}
        n = 0
        fs = s.P.all
        while s.work and n < 12:
            s.work = False; n += 1
            for f in fs: s.fn(f)
            for f in fs:
                k = s.key(f)
                idx = {a[0]: q for q, a in enumerate(f.args)}
                for i in f.insts():
                    tgt = None
                    if i.op == 'store' and (s.lab(f, i.ops[0]) == 'V' or i.bb.idx in s.under[k]): tgt = [i.ops[1]]
                    elif i.op in ('atomicrmw', 'cmpxchg') and (any(s.lab(f, o) == 'V' for o in i.ops[1:]) or i.bb.idx in s.under[k]): tgt = [i.ops[0]]
                    elif i.op == 'call' and isinstance(i.x, str) and i.x in DIV_OUT: tgt = [i.ops[q] for q in DIV_OUT[i.x]]
                    elif i.op == 'call':
                        g, prs = target(s.P, f, i)
                        if g is not None: tgt = [o for q, o in prs if (s.key(g), q) in s.outs]
                    for o in tgt or ():
                        b = s.base(f, o)
                        if b and b[0] == 'a' and (k, b[1]) not in s.outs: s.outs.add((k, b[1])); s.work = True
        return n


IN_ONLY = {'MPI_Allgather': (0,), 'MPI_Allreduce': (0,), 'MPI_Send': (0,), 'MPI_Isend': (0,), 'MPI_Reduce': (0,), 'MPI_Gather': (0,), 'MPI_Scan': (0,), 'MPI_Exscan': (0,), 'fprintf': range(2, 40), 'printf': range(1, 40), 'H5Awrite': (2,)}


def uniform_def(s, f, q, a):
    """does call q leave local a the same everywhere?"""
    if q.x in UNIFORM_OUT and q.ops[UNIFORM_OUT[q.x]] == a: return True
    if q.x in DIV_OUT and any(q.ops[z] == a for z in DIV_OUT[q.x]): return False
    g, args = target(s.P, f, q)
    if g is None: return True
    return not any(o == a and (s.key(g), z) in s.outs for z, o in args)


def field(f, i):
    """class member addressed by a getelementptr"""
    if i.op != 'getelementptr' or not i.x or len(i.ops) < 3: return None
    ty = i.x[2] if isinstance(i.x, list) and len(i.x) > 2 else None
    if not ty or not ty.startswith('%') or 'std::' in ty or '__gnu_cxx' in ty: return None
    idx = [o[2] if isinstance(o, list) and o[0] == 'ci' else None for o in i.ops[2:]]
    if idx[0] is None: return None
    return (ty, idx[0])


def memdiv(s, f, o):
    b = s.base(f, o)
    if b is None: return False
    if b[0] == 'l': return bool(s.locals[s.key(f)].get(b[1]))
    if b[0] == 'g': return b[1] in s.glob
    return False


def ptr(ty): return ty.startswith('ptr') or ty.endswith('*')


def varies(f, v): return False if isinstance(v, list) and False else True


def joins(f, d, i):
    """the two sides of branch d meet at the block of phi i and bring different values"""
    idom, num = f.pdom()
    J = i.bb.idx
    if idom.get(d) != J: return False
    dead, sets = f.dead_blocks(), []
    for q in dict.fromkeys(f.blocks[d].succs):
        if q in dead: continue
        vals = set()
        if q == J: vals |= {repr(v) for v, b in i.ops if b == d}
        seen, st = {q}, [q] if q != J else []
        while st:
            x = st.pop()
            for y in f.blocks[x].succs:
                if y == J: vals |= {repr(v) for v, b in i.ops if b == x}
                elif y not in seen and y not in dead: seen.add(y); st.append(y)
        sets.append(vals)
    return len(sets) > 1 and any(v != sets[0] for v in sets)


def target(P, f, i):
    """callee and pairs (parameter, operand)"""
    if i.x == '__kmpc_fork_call':
        o = i.ops[2]
        if isinstance(o, list) and o[0] == 'g':
            g = P.resolve(o[1], f.mod)
            return g, [(q - 1, i.ops[q]) for q in range(3, len(i.ops))]
        return None, []
    if not isinstance(i.x, str): return None, []
    g = P.resolve(i.x, f.mod)
    return g, list(enumerate(i.ops))


def collective(P, f, i):
    n = i.x
    if not isinstance(n, str): return None
    if n in MPI or n in H5: return n
    if FFTW.search(n): return n
    if n in COND_H5 and len(i.ops) > 4 and not (isinstance(i.ops[4], list) and i.ops[4][0] == 'ci' and i.ops[4][2] == 0): return n
    return None


def run(ctx):
    P = jx.Program(jx.ALL_TUS, 'cfg', PASSES)
    D = Div(P, ctx)
    rounds = D.run()
    ctx.need(rounds < 12, 'propagation of rank dependence does not settle')
    # functions that perform collectives
    coll = set()
    ch = True
    while ch:
        ch = False
        for f in P.all:
            k = D.key(f)
            if k not in coll and any(op_(P, D, coll, f, i) for i in f.insts()): coll.add(k); ch = True
    args(ctx, P, D)
    nb = nd = ns = ni = 0
    for f in P.all:
        for i in f.insts():
            if collective(P, f, i): ns += 1
        if D.key(f) not in coll: continue
        dead, words, done = f.dead_blocks(), {}, set()

        def word(b):
            if b not in words: words[b] = [(c, i) for i in f.blocks[b].insts for c in [op_(P, D, coll, f, i)] if c]
            return words[b]
        for b in f.blocks:
            if len(b.succs) < 2 or b.idx in dead: continue
            nb += 1
            if D.lab(f, b.term.ops[0]) != 'V': continue
            nd += 1
            stop = f.pdom()[0].get(b.idx)
            sides = []
            for q in dict.fromkeys(b.succs):
                if q not in dead: sides.append((q,) + paths(ctx, f, b.idx, q, stop, dead, word))
            if len(sides) < 2: continue
            allw = set().union(*[x[1] for x in sides])
            if len(allw) <= 1 and not any(w and w[0] == 'loop' for w in allw): continue
            if all(x[1] == sides[0][1] for x in sides) and len(sides[0][1]) == 1: continue
            site = [i for x in sides for i in x[2]]
            first = min(site, key=lambda i: i.id)
            names = sorted({c for w in allw for c in w if c != 'loop'})
            key = '%s/%s' % (fkey(f), '+'.join(names))
            if key in done: continue
            done.add(key)
            loop = any(w and w[0] == 'loop' for w in allw)
            ctx.violation(key, first.where(), '%s: %s %s, whose outcome differs between ranks' % (f.short, ', '.join(names)[:120], ('repeats as long as the condition at %s holds' if loop else 'is reached or not depending on the condition at %s') % b.term.where()))
    ctx.cover(functions=len(P.all), collective_functions=len(coll), collective_sites=ns, branches=nb, rank_dependent_branches=nd)
    ctx.floor('collective call sites', ns, 300)
    ctx.floor('rank-dependent branches', nd, 200)


def op_(P, D, coll, f, i):
    if i.op != 'call': return None
    c = collective(P, f, i)
    if c: return c
    g, _ = target(P, f, i)
    return fkey(g) if g is not None and D.key(g) in coll else None


def paths(ctx, f, b, q, stop, dead, word):
    """sequences of collectives from q up to the join; a loop inside counts by its body once"""
    seqs, sites = set(), []
    st, seen = [(q, (), frozenset())], set()
    while st:
        x, w, on = st.pop()
        if (x, w, x in on) in seen: continue
        seen.add((x, w, x in on))
        ctx.need(len(seen) < 20000, '%s: too many paths' % f.short)
        if x in dead: continue
        if x == stop: seqs.add(w); continue
        if x in on: continue
        w = w + tuple(c for c, i in word(x))
        sites += [i for c, i in word(x)]
        if x == b:      # the branch heads a loop
            seqs.add(('loop',) + w if w else ()); continue
        if f.blocks[x].term.op == 'ret': seqs.add(w)
        for y in f.blocks[x].succs: st.append((y, w, on | {x}))
    return seqs, sites


def args(ctx, P, D):
    """sizes and roots of collectives"""
    done = set()
    for f in P.all:
        for i in f.insts():
            if i.op != 'call' or not isinstance(i.x, str): continue
            ag = PARAMS.get(i.x)
            if ag is None and re.search(r'^fftwf?_mpi_plan_', i.x): ag = (0, 1, 2)
            if ag is None: continue
            ctx.cover(collective_arguments=len(ag))
            for q in ag:
                if q < len(i.ops) and D.lab(f, i.ops[q]) == 'V':
                    key = '%s/%s/argument-%d' % (fkey(f), i.x, q)
                    if key not in done: ctx.violation(key, i.where(), '%s: argument %d of %s differs between ranks' % (f.short, q, i.x))
                    done.add(key)
