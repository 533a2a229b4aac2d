"""Threads: no two threads touch the same memory at the same time unless both only read it or a lock orders them."""
import re, random, math
import jx, sym, c03
from sym import Poly, Eval, C, ZERO, ONE, mk, subst, tsize, lanes, SZ
from sym import add, sub, scale

LEVEL = 'other'
EXPLANATION = ('Every OpenMP parallel region of the library is taken from the compiler\'s outlined code, with the functions it calls inlined. Each memory access is private to the thread (locals, private and reduction copies, memory allocated in the region), or '
               'shared with an address that is an expression of the loop counters. Two accesses that no barrier separates, of which one writes, must hold a common lock, be atomic, or have addresses that differ for any two iterations different threads may run.')
RULES = ['shared scalars are written only under a lock, atomically, in a reduction or by one thread', 'array elements written by an iteration are neither written nor read by another iteration of the same parallel loop', 'accesses under a lock are under the same lock everywhere',
         'nothing that keeps a hidden state (rand, strtok, MPI) is called by several threads']

# functions with hidden shared state
UNSAFE = re.compile(r'^(rand|srand|random|drand48|strtok|localtime|gmtime|asctime|ctime|MPI_\w+|H5\w+|fftwf?_plan\w*|fftwf?_mpi_plan\w*|fftwf?_destroy\w*)$')
PRIVATE = re.compile(r'^(_Znwm|_Znam|malloc|calloc|aligned_alloc|memalign|_ZnwmSt11align_val_t)$')
RUNTIME = re.compile(r'^(__kmpc_|omp_|llvm\.(?!mem))')


class Access:
    __slots__ = ('i', 'root', 'addr', 'size', 'write', 'atomic', 'locks', 'phase', 'ws', 'loops', 'guard', 'c', 'rest')


class Region:
    def __init__(s, f, P):
        s.f, s.P = f, P
        s.E = Eval(f, P)
        s.ws = {}                                  # loop id -> (init call, lb, ub)
        s.find_loops()
        s.held = s.locks()
        s.phase = s.phases()
        s.memo = {}

    # ---- the loops shared out among the threads
    def find_loops(s):
        f, E = s.f, s.E
        s.inits = [i for i in f.insts() if i.op in ('call', 'invoke') and isinstance(i.x, str) and i.x.startswith('__kmpc_for_static_init')]
        s.dyn = [i for i in f.insts() if i.op in ('call', 'invoke') and isinstance(i.x, str) and i.x.startswith('__kmpc_dispatch_init')]
        s.lb = {}
        for c in s.inits:
            lb, ub = [E.op(c.ops[n], c.bb.idx) for n in (4, 5)]
            ty = 'i64' if c.x.endswith(('8', '8u')) else 'i32'
            n = add(E.read(ub, ty, c.bb.idx, c.pos), ONE)
            low = E.read(lb, ty, c.bb.idx, c.pos)
            s.lb[c.id] = (c, low, n)
        s.lbatoms = {}

    def global_iv(s, p):
        """lower bounds of the chunk -> 0: counters then count the iterations of the whole loop"""
        mp = {}
        for a in sym.allatoms(p):
            A = sym._atoms[a]
            if A.kind == 'written' and A.args[1] in s.lb:
                mp[a] = s.lb[A.args[1]][1]
        return subst(p, mp) if mp else p

    def wsloop(s, b):
        """the worksharing loop around block b: its loop object and init call"""
        for lp in s.E.loopchain(b):
            for c, low, n in s.lb.values():
                if s.wsof(lp) is c: return lp, c, n
        return None

    def wsof_k(s, q):
        A = sym._atoms[q]
        if A.kind != 'k': return False
        if not hasattr(s, '_wsk'): s._wsk = {}
        if q not in s._wsk: s._wsk[q] = any(mk('k', lp.id) == q and s.wsof(lp) is not None for b in s.f.blocks for lp in s.E.loopchain(b.idx))
        return s._wsk[q]

    def wsof(s, lp):
        if not hasattr(s, '_wsof'): s._wsof = {}
        if lp.id in s._wsof: return s._wsof[lp.id]
        r = None
        # the outermost loop dominated by an init call, with its matching end after it
        d = [c for c in s.inits if s.f.dominates(c.bb.idx, lp.head) and c.bb.idx not in lp.body]
        if d:
            c = max(d, key=lambda c: sum(s.f.dominates(o.bb.idx, c.bb.idx) for o in d))
            fin = [i for i in s.f.insts() if isinstance(i.x, str) and i.x.startswith('__kmpc_for_static_fini') and s.f.dominates(c.bb.idx, i.bb.idx)]
            par = lp.parent
            while par is not None and c.bb.idx not in par.body: par = par.parent
            top = lp.parent is par or (lp.parent is not None and par is not None and lp.parent.id == par.id)
            before = [i for i in fin if s.f.dominates(i.bb.idx, lp.head) and not s.f.dominates(i.bb.idx, c.bb.idx)]
            if top and not before: r = c
        s._wsof[lp.id] = r
        return r

    # ---- locks
    def locks(s):
        f = s.f
        IN = {0: frozenset()}
        work = [0]
        red = {}
        out = {}
        while work:
            b = work.pop()
            cur = IN[b]
            bl = f.blocks[b]
            seq = []
            for i in bl.insts:
                if i.op in ('call', 'invoke') and isinstance(i.x, str):
                    n = i.x
                    if n in ('__kmpc_critical', '__kmpc_critical_with_hint'): cur = cur | {('crit', str(i.ops[2]))}
                    elif n == '__kmpc_end_critical': cur = cur - {('crit', str(i.ops[2]))}
                    elif n in ('omp_set_lock', 'omp_set_nest_lock'): cur = cur | {('lock', str(s.E.op(i.ops[0], b)))}
                    elif n in ('omp_unset_lock', 'omp_unset_nest_lock'): cur = cur - {('lock', str(s.E.op(i.ops[0], b)))}
                    elif n in ('__kmpc_end_reduce', '__kmpc_end_reduce_nowait'): cur = frozenset(x for x in cur if x[0] != 'reduce')
                    elif n in ('__kmpc_end_single', '__kmpc_end_master', '__kmpc_end_masked'): cur = frozenset(x for x in cur if x[0] != 'one')
                seq.append(cur)
            out[b] = seq
            t = bl.term
            for x in bl.succs:
                c = cur
                k = s.edgelock(bl, x)
                if k: c = c | k
                n = c if x not in IN else IN[x] & c
                if x not in IN or n != IN[x]:
                    IN[x] = n; work.append(x)
        s.lockseq = out
        return IN

    def edgelock(s, bl, x):
        t = bl.term
        if t.op == 'switch':
            for n, j in s.calls(bl):
                if n.startswith('__kmpc_reduce') and t.ops[0] == j.id:
                    if any(o[0] == 'case' and o[2] == x for o in t.ops[1:]): return {('reduce', s.f.name)}
        if t.op == 'br' and len(t.ops) == 3:
            for n, j in s.calls(bl):
                if n in ('__kmpc_single', '__kmpc_master', '__kmpc_masked'):
                    c = s.E.op(t.ops[0], bl.idx)
                    if len(bl.succs) == 2 and x == t.ops[1][1]: return {('one', n)}
        return None

    def calls(s, bl):
        return [(i.x, i) for i in bl.insts if i.op in ('call', 'invoke') and isinstance(i.x, str)]

    def lockat(s, i): 
        return s.lockseq.get(i.bb.idx, [frozenset()] * (i.pos + 1))[i.pos] if i.pos < len(s.lockseq.get(i.bb.idx, ())) else frozenset()

    # ---- phases between barriers
    def phases(s):
        f = s.f
        IN = {0: frozenset(['start'])}
        work = [0]
        s.phseq = {}
        while work:
            b = work.pop()
            cur = IN[b]; seq = []
            for i in f.blocks[b].insts:
                if i.op in ('call', 'invoke') and isinstance(i.x, str) and i.x in ('__kmpc_barrier', '__kmpc_end_reduce', '__kmpc_cancel_barrier'): cur = frozenset([i.id])
                seq.append(cur)
            s.phseq[b] = seq
            for x in f.blocks[b].succs:
                n = IN.get(x, frozenset()) | cur
                if x not in IN or n != IN[x]: IN[x] = n; work.append(x)
        return IN


def fname(x): return x if isinstance(x, str) else ''


class Check:
    def __init__(s, ctx, P):
        s.ctx, s.P = ctx, P
        s.n = dict(regions=0, parallel_loops=0, accesses=0, private=0, shared_writes=0, pairs=0, decided_exactly=0, decided_on_samples=0, undecided=0, slabs_of_threads=0, owned_by_an_element=0, under_lock=0, commuting=0)
        s.part, s.turn = (0, 1), 0
        s.und = []

    def mine(s):
        s.turn += 1
        return s.turn % s.part[1] == s.part[0]

    def run(s):
        seen = set()
        for f in s.P.all:
            if 'omp_outlined' not in f.name or 'reduction_func' in f.name or 'copy_func' in f.name or f.name in seen or not f.blocks: continue
            seen.add(f.name)
            if any('omp_outlined_debug__' in fname(i.x) for i in f.insts() if i.op in ('call', 'invoke')): continue      # only passes on its arguments
            if s.mine(): s.region(f)
        s.ctx.cover(**s.n)

    def region(s, f):
        s.n['regions'] += 1
        R = Region(f, s.P)
        s.n['parallel_loops'] += len(R.inits) + len(R.dyn)
        A = []
        for i in f.insts():
            if i.bb.idx not in R.lockseq: continue            # unreachable
            A += s.accesses(R, i)
        by = {}
        for a in A: by.setdefault(a.root, []).append(a)
        name = re.sub(r' ?\(\.omp_outlined.*', '', s.P.dem(f.name, f.mod))
        for r, l in by.items():
            ws = [a for a in l if a.write]
            if not ws: continue
            done = set()
            for n, w in enumerate(ws):
                s.n['shared_writes'] += 1
                for x in l:
                    if x.write and ws.index(x) < n: continue
                    if not (w.phase & x.phase): continue
                    if w.locks & x.locks: s.n['under_lock'] += 1; continue
                    if w.atomic and x.atomic:
                        s.n['under_lock'] += 1
                        if w.i.op == x.i.op == 'store' and s.depends(R, w, l) and (s.samples(R, w, x, False) if sym._atoms[w.root].kind != 'unknown' else False):
                            s.ctx.violation('lost-update/%s/%s' % (s.base(name), s.describe(R, w.root)), w.i.where(), '%s: %s is written depending on the value read before, but another thread can write it in between: %s at %s' % (name[:120], s.describe(R, w.root), str(w.addr)[:120], w.i.where()))
                        continue
                    if s.commute(R, w, x): s.n['commuting'] += 1; continue
                    s.n['pairs'] += 1
                    v = s.conflict(R, w, x)
                    if v:
                        k = s.describe(R, w.root)
                        if k in done: continue
                        done.add(k)
                        s.ctx.violation('race/%s/%s' % (s.base(name), k), w.i.where(), '%s: two threads can access %s at the same time, one of them writing%s: %s at %s' % (name[:120], k, '' if x is w else ' (other access: %s)' % x.i.where(), str(w.addr)[:160], w.i.where()))

    def base(s, name):
        m = re.match(r'(?:[^<(]* )?([\w:~]+)(<.*?>)?\(', re.sub(r'\(AxionEnum::\w+\)(\d+)', r'#\1', name))
        if not m: return re.sub(r'<.*', '', name.split('(')[0]).split(' ')[-1]
        n = re.findall(r'#(\d+)', m.group(2) or '')
        return m.group(1) + ('<%s>' % ','.join(n) if n else '')

    def depends(s, R, w, l):
        """is the store decided by, or made from, a value read atomically from the same array?"""
        f = R.f
        want = {a.i.id for a in l if a.atomic and a.i.op == 'load'}
        if not want: return False
        todo = [o for o in w.i.ops[:1] if isinstance(o, int)]
        inner = next(iter(R.E.loopchain(w.i.bb.idx)), None)
        seen, blocks = set(), [w.i.bb.idx]
        done = set()
        while blocks:
            b = blocks.pop()
            for c in f.cdeps().get(b, ()):
                x = c[0] if isinstance(c, tuple) else c
                if x in done or (inner is not None and x not in inner.body): continue
                done.add(x); blocks.append(x)
                t = f.blocks[x].term
                todo += [o for o in t.ops[:1] if isinstance(o, int)]
        while todo:
            o = todo.pop()
            if o in seen or o < len(f.args): continue
            seen.add(o)
            if o in want: return True
            i = f.val[o]
            if i.op in ('load', 'phi', 'call'): continue
            todo += [q for q in i.ops if isinstance(q, int)]
        return False

    def commute(s, R, w, x):
        """an atomic OR of some bits and a read of other bits"""
        if x.write: w, x = x, w
        if x.write or w.i.op != 'atomicrmw' or w.i.x not in ('or', 'and') or x.i.op != 'load': return False
        k = R.E.op(w.i.ops[1], w.i.bb.idx)
        k = k.const() if isinstance(k, Poly) else None
        if k is None: return False
        bits = int(k) if w.i.x == 'or' else ~int(k)
        return s.onlybits(R.f, x.i.id, ~bits)

    def onlybits(s, f, v, ok, depth=0):
        us = f.users().get(v, ())
        for u in us:
            if u.op in ('zext', 'sext', 'trunc') and depth < 4:
                if not s.onlybits(f, u.id, ok, depth + 1): return False
            elif u.op == 'and':
                c = [o for o in u.ops if isinstance(o, list) and o[0] == 'ci']
                if not c or int(c[0][2]) & ~ok: return False
            else: return False
        return bool(us)

    def describe(s, R, root):
        A = sym._atoms[root]
        if A.kind == 'arg': return A.args[0]
        if A.kind == 'ld':
            p = sym.fromkey(A.args[0])
            r = R.E.root(p)
            return '*' + s.describe(R, r) if r is not None else '*' + re.sub(r'\s', '', str(p))[:40]
        if A.kind == 'glob': return str(A.args[0])
        return A.kind

    def accesses(s, R, i):
        E, b = R.E, i.bb.idx
        out = []

        def make(p, size, write, atomic):
            if not isinstance(p, Poly): return
            s.n['accesses'] += 1
            r = E.root(p)
            if r is None:
                if p.const() is not None: return
                top = {a for m in p.t for a, e in m}
                if any(s.private(R, a) for a in top) and not any(sym._atoms[a].kind in ('arg', 'glob') for a in top): s.n['private'] += 1; return       # memory of the thread, through one of several pointers
                r = mk('unknown', R.f.name)
            A = sym._atoms[r]
            if s.private(R, r): s.n['private'] += 1; return
            if A.kind == 'ld' and any(R.wsof_k(q) for q in sym.allatoms(sym.atom_poly(r))): s.n['owned_by_an_element'] += 1; return     # e.g. the storage of a vector that is an element of the shared array
            a = Access()
            a.i, a.root, a.size, a.write, a.atomic = i, r, size, write, atomic
            a.addr = R.global_iv(sub(p, Poly({((r, 1),): 1})))
            a.locks, a.phase = R.lockat(i), R.phseq[b][i.pos]
            a.ws = R.wsloop(b)
            a.loops = list(E.loopchain(b))
            a.guard = a.rest = None
            out.append(a)
        if i.op == 'load': make(E.op(i.ops[0], b), tsize(i.ty) or 8, False, i.x == 1)
        elif i.op == 'store': make(E.waddr(i), tsize(i.sty) or 8, True, i.x == 1)
        elif i.op in ('atomicrmw', 'cmpxchg'): make(E.op(i.ops[0], b), 8, True, True)
        elif i.op in ('call', 'invoke') and isinstance(i.x, str):
            if i.x.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                ln = E.op(i.ops[2], b)
                n = ln.const() if isinstance(ln, Poly) else None
                make(E.op(i.ops[0], b), int(n) if n else 8, True, False)
                if 'memset' not in i.x: make(E.op(i.ops[1], b), int(n) if n else 8, False, False)
            elif UNSAFE.match(i.x) and not any(k[0] in ('crit', 'one', 'lock') for k in R.lockat(i)):
                s.ctx.violation('unsafe/%s' % i.x, i.where(), '%s: called by several threads, though it keeps a state of its own' % i.x)
        return out

    def private(s, R, r):
        A = sym._atoms[r]
        if A.kind == 'alloca': return True
        if A.kind == 'call' and isinstance(A.args[1], str) and PRIVATE.match(A.args[1]): return True
        if A.kind == 'arg' and A.args[0] in ('.global_tid.', '.bound_tid.', '0', '1'): return True
        if A.kind in ('ld', 'written') and isinstance(A.args[0], tuple):
            q = R.E.root(sym.fromkey(A.args[0]))
            return False if q is None else (sym._atoms[q].kind in ('call', 'alloca', 'ld', 'written') and s.private(R, q))          # storage of a local vector
        return False

    # ---- two accesses by different threads
    def conflict(s, R, w, x):
        if sym._atoms[w.root].kind == 'unknown': s.n['undecided'] += 1; s.und.append((w.i.where(), x.i.where(), str(w.addr)[:200], 'pointer not resolved')); return False
        return s.conflict_(R, w, x)

    def conflict_(s, R, w, x):
        """True: they can meet whatever the sizes; False: they cannot, or not for all sizes"""
        E = R.E
        for t in s.tids(R):                              # each thread has its own slab of an array
            cw, rw = s.linear(w.addr, t, True); cx, rx = s.linear(x.addr, t, True)
            if cw is not None and cx is not None and cw.t and not sub(cw, cx).t and cw.const() is None: s.n['slabs_of_threads'] += 1; return False
        if w.ws and x.ws and w.ws[1] is x.ws[1]:
            k = mk('k', w.ws[0].id)
            cw, rw = s.linear(w.addr, k); cx, rx = s.linear(x.addr, k)
            if cw is not None and cx is not None and cw == cx and cw != 0 and not s.others(rw) and not s.others(rx):
                d = sub(rw, rx).const()
                if d is not None:
                    s.n['decided_exactly'] += 1
                    if d == int(d) and cw == int(cw):
                        n0 = -int(d) // int(cw)
                        hit = any(n and -w.size < int(cw) * n + int(d) < x.size for n in (n0 - 1, n0, n0 + 1))
                        if not hit: return False
                        return s.feasible(R, w, x)
        return s.sampled(R, w, x)

    def feasible(s, R, w, x): return s.sampled(R, w, x)

    def others(s, p):
        return [a for a in sym.allatoms(p) if sym._atoms[a].kind in ('k', 'fn')] if p.t else []

    def linear(s, p, k, poly=False):
        if poly:
            c, rest = {}, {}
            for m, v in p.t.items():
                if (k, 1) in m: c[tuple(q for q in m if q[0] != k)] = v
                elif any(a == k for a, e in m): return None, None
                else: rest[m] = v
            c, r = Poly(c), Poly(rest)
            return (None, None) if k in sym.allatoms(c) or k in sym.allatoms(r) else (c, r)
        c = 0; rest = {}
        for m, v in p.t.items():
            if any(a == k for a, e in m):
                if len(m) == 1 and m[0][1] == 1: c = v
                else: return None, None
            else: rest[m] = v
        r = Poly(rest)
        if k in sym.allatoms(r): return None, None
        return c, r

    def sampled(s, R, w, x):
        k = s.akey(w) + s.akey(x)
        if k not in R.memo: R.memo[k] = s.samples(R, w, x, False)
        else: s.n['decided_on_samples'] += not R.memo[k]
        if not R.memo[k]: return False
        k += (w.i.bb.idx, x.i.bb.idx)
        if k not in R.memo: R.memo[k] = s.samples(R, w, x, True)
        return R.memo[k]

    def akey(s, a): return (a.addr.key(), a.size, a.ws and a.ws[0].id, tuple(l.id for l in a.loops))

    def samples(s, R, w, x, guarded):
        hits = tot = 0
        s.guarded = guarded
        for seed in range(60):
            if tot >= 10: break
            v = s.sample(R, w, x, random.Random(seed))
            if v is None: continue
            tot += 1
            hits += v
            if not v and tot >= 4 and hits == 0: break
        if not guarded:
            if tot >= 3 and hits == 0: s.n['decided_on_samples'] += 1; return False
            return True
        if tot < 3:
            s.n['undecided'] += 1; s.und.append((w.i.where(), x.i.where(), str(w.addr)[:200], 'tot%d' % tot)); return False
        if hits == 0: s.n['decided_on_samples'] += 1; return False
        if hits < tot and w.atomic == x.atomic:                                                       # an atomic access elsewhere shows that threads do meet here
            s.n['undecided'] += 1; s.und.append((w.i.where(), x.i.where(), str(w.addr)[:200], str(x.addr)[:200], '%d/%d' % (hits, tot))); return False
        return True

    def sample(s, R, w, x, rnd):
        """do threads 0 and 1 meet, for one choice of sizes and data? None: no two iterations run"""
        val = {}
        s.unique = {}

        def value(a):
            if a not in val: val[a] = 2 ** rnd.randint(1, 7)
            return val[a]

        def num(t, env, memo):
            """value of a polynomial (its terms)"""
            r = 0
            for m, c in t:
                v = c
                for a, e in m:
                    x = env.get(a)
                    if x is None: x = atom(a, env, memo)
                    if x is None: return None
                    if e == 1: v *= x
                    elif e < 0 and x == 0: return None
                    elif e < 0 or isinstance(e, int): v = v * (x ** e if e > 0 else 1.0 / x ** -e)
                    else: v *= abs(x) ** e
                r += v
            return r

        def atom(a, env, memo):
            if a in memo: return memo[a]
            A = sym._atoms[a]
            K = A.kind
            if K in ('inv', 'sqrt', 'fn', 'I', 'fdiv', 'mod'):
                x = [num(q, env, memo) if isinstance(q, tuple) else q for q in A.args]
                r = None if None in x else s.apply(K, x)
            elif K == 'k': return None
            elif K == 'sum':
                b, body, tr = A.args
                n = num(tr, env, memo)
                r = None
                if n is not None and n <= 64:
                    bk = mk('k', b); r = 0
                    for q in range(max(0, int(n))):
                        v = num(body, {**env, bk: q}, {})
                        if v is None: r = None; break
                        r += v
            else: r = s.datum(a, value, env)
            memo[a] = r
            return r

        def ev(p, env):
            e = env.get('memo')
            if e is None: e = env['memo'] = {}
            return num(p.t.items(), env, e)
        se = same = w.ws is not None and x.ws is not None and w.ws[1] is x.ws[1]
        N = None
        sets = []
        for a in (w, x):                                  # sizes are multiples of what they are divided by
            if a.rest is None: a.rest = [sym._atoms[q] for q in sym.allatoms(a.addr) if sym._atoms[q].kind == 'fdiv' and not any(sym._atoms[z].kind in ('k', 'written') for z in sym.allatoms(sym.atom_poly(q)))]
            for A in a.rest:
                    u, v = [num(z, {}, {}) for z in A.args]
                    if u is None or not v or u % v or u // v < 2: return None
        for n, a in enumerate((w, x)):
            tid = {t: n for t in s.tids(R)}
            outs = []
            its = [None]
            if a.ws:
                N = ev(R.global_iv(a.ws[2]), tid)
                if N is None: N = 4
                N = int(N)
                if N < 2: return None
                its = sorted({0, 1, 2, 3, N // 2, N - 1} & set(range(N)))
            for g in its:
                env = dict(tid)
                if a.ws: env[mk('k', a.ws[0].id)] = g; env.pop('memo', None)
                for e2 in s.inner(R, a, env, ev):
                    ad = ev(a.addr, e2)
                    if ad is None: outs.append((g, None)); continue
                    gd = s.guard(R, a) if s.guarded else None
                    gv = ev(gd, e2) if gd is not None else 1
                    if gv == 0: continue
                    outs.append((g, ad))
            sets.append(outs)
        if any(ad is None for l in sets for g, ad in l):
            return None
        for g1, a1 in sets[0]:
            for g2, a2 in sets[1]:
                if same and g1 == g2: continue
                if a1 < a2 + x.size and a2 < a1 + w.size: return True
        return False if sets[0] and sets[1] else None

    def guard(s, R, a):
        if a.guard is None:
            try: a.guard = (R.global_iv(R.E.guard(a.i.bb.idx)),)
            except (jx.Broken, RecursionError): a.guard = (None,)
        return a.guard[0]

    def tids(s, R):
        if not hasattr(R, '_tids'):
            R._tids = [mk('call', R.E.tag, i.x, i.id) for i in R.f.insts() if fname(i.x) == 'omp_get_thread_num']
            R._tids += [mk('ld', sym.At('arg', '.global_tid.')) if hasattr(sym, 'At') else mk('ld', sym.atom_poly(mk('arg', '.global_tid.')))]
        return R._tids

    def apply(s, K, x):
        try:
            if K == 'inv': return 1.0 / x[0]
            if K == 'sqrt': return math.sqrt(x[0])
            if K == 'fdiv': return x[0] // x[1]
            if K == 'mod': return x[0] % x[1]
            if K == 'I': return int(x[1] == 0 if x[0] == 'eq' else x[1] < 0)
            n, x = x[0], x[1:]
            if n == 'trunc': return int(x[0])
            if n == 'pow2': return 2 ** int(x[0])
            if n == 'shr': return int(x[0]) >> int(x[1])
            if n == 'and': return int(x[0]) & int(x[1])
            if n in ('floor', 'ceil'): return getattr(math, n)(x[0])
            if n in ('fabs', 'abs'): return abs(x[0])
            if n in ('max', 'smax', 'umax', 'fmax'): return max(x)
            if n in ('min', 'smin', 'umin', 'fmin'): return min(x)
            return 2 ** random.Random(repr((n, x))).randint(1, 7)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError): return None

    def datum(s, a, value, env):
        A = sym._atoms[a]
        if 'atomicrmw' in str(A.args[:1]):                 # a number nobody else gets
            k = (a, tuple(sorted((q, v) for q, v in env.items() if q != 'memo')))
            return s.unique.setdefault(k, len(s.unique) + 1)
        return value(a)

    def inner(s, R, a, env, ev):
        """counters of the loops inside (and outside) the parallel one"""
        envs = [env]
        for lp in reversed(a.loops):
            if a.ws and lp.id == a.ws[0].id: continue
            k = mk('k', lp.id)
            new = []
            for e in envs:
                t = ev(R.global_iv(R.E.trip(lp)), e)
                t = int(t) if t is not None and t >= 0 else 3
                for q in sorted({q for q in (0, 1, t // 2, t // 2 + 1, t - 1) if q < t} if len(a.loops) < 6 else {q for q in (0, t // 2, t - 1) if 0 <= q < t}): new.append({**e, k: q, 'memo': None})
            envs = new if len(new) <= 400 else [new[j * len(new) // 400] for j in range(400)]
        return envs


def run(ctx):
    jx.MODES['omp'] = dict(openmp=True, args=['--passes=' + jx.KERN_PASSES, '--inline-std', '--inline-repo', '--keep=omp_outlined', '--noinline=' + jx.KERN_KEEPOUT + r'|basic_string|std::__cxx11|std::map|std::(_Rb_tree|pair)|H5|printf'])
    P = jx.Program(jx.LIB_TUS, 'omp')
    c03.parts(ctx, lambda: Check(ctx, P), 8)
    ctx.floor('regions', ctx.cov.get('regions', 0), 1000)
    ctx.floor('shared_writes', ctx.cov.get('shared_writes', 0), 1000)
