"""Ghost slices: every message that is sent is received by the neighbour it is meant for, into the slices it belongs to, whatever the size."""
import re
import jx, sym, walk, steps
from sym import C, ZERO, add, sub, mk, atom_poly, _atoms, fromkey
from steps import at

LEVEL = 'other'
EXPLANATION = ('Along every path of the exchange functions the MPI calls are extracted with their buffers, lengths, partners and tags as expressions of the rank and of the number of ranks; on rings of one to '
               'six ranks, with every matching rule of MPI applied to those expressions, every send must meet exactly one receive of the same length, the bytes of each ghost region must all arrive, in place, from the '
               'right slices of the right neighbour, and every request started must be waited for and freed once. Every exchange begun elsewhere must be waited for on all paths before the next one of its kind.')
RULES = ['message (source, destination, tag, order) matches one receive of equal length', 'front ghosts <- last slices of the previous rank; back ghosts <- first slices of the next rank',
         'no message longer than an int; each byte of the region exactly once', 'wait then free every request started, each request handle used for one message at a time', 'begin/wait typestate per caller']
INT_MAX = 2**31 - 1
CHUNK = 2147483584


def ev(p, env):
    """value of an expression of rank and number of ranks"""
    k = 0
    for m, c in p.t.items():
        t = c
        for a, e in m:
            A = _atoms[a]
            if A.kind == 'sym' and A.args[0] in env: v = env[A.args[0]]
            elif A.kind in ('srem', 'urem'):
                x, y = (ev(fromkey(q), env) for q in A.args if isinstance(q, tuple) and (not q or isinstance(q[0], tuple)))
                v = abs(x) % abs(y) * (1 if x >= 0 or A.kind == 'urem' else -1)
            elif A.kind in ('and', 'or', 'xor', 'udiv', 'sdiv', 'shl', 'lshr', 'ashr'):
                x, y = (ev(fromkey(q), env) for q in A.args if isinstance(q, tuple) and (not q or isinstance(q[0], tuple)))
                if 'div' in A.kind and not y: raise jx.Broken('division by zero in a rank expression')
                v = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'udiv': lambda: x // y, 'sdiv': lambda: int(x / y), 'shl': lambda: x << y, 'lshr': lambda: x >> y, 'ashr': lambda: x >> y}[A.kind]()
            elif A.kind == 'select':
                x, y, z = (ev(fromkey(q), env) for q in A.args)
                v = y if x else z
            elif A.kind == 'cmp':
                d = ev(fromkey(A.args[1]), env)
                v = int({'eq': d == 0, 'slt': d < 0, 'ult': d < 0}[A.args[0]])
            else: raise jx.Broken('rank or tag expression not understood: %s' % str(p)[:200])
            t *= v ** e
        k += t
    return k


class Comm(walk.Walk):
    def __init__(s, P, f, members, bind, tsize=1, fns=None):
        super().__init__(P, f, bind=bind)
        s.tsize, s.fns = tsize, fns or {}
        st = P.struct('Scalar')
        s.off = {o: n for o, sz, n, t in st['m']}
        s.members = members
        s.this = atom_poly(mk('arg', f.args[0][0]))

    def interesting(s, i): return False

    def onload(s, p, i, a):
        d = sub(a, s.this).const()
        if d is not None and d in s.off:
            n = s.off[d]
            return C(s.members[n]) if n in s.members else atom_poly(mk('sym', n))
        x = at(a)
        if x and x[0] == 'glob' and x[1].startswith('_ZGV'): return ZERO
        return None

    def value(s, p, i, name, args):
        n = steps.fname(name)
        if n == 'commRank': return atom_poly(mk('sym', 'rank'))
        if n == 'commSize': return atom_poly(mk('sym', 'nSplit'))
        if n == '__cxa_guard_acquire': return C(1)
        if n == 'Verbosity': return C(0)
        if n == 'MPI_Type_size':
            p.mem[args[1].key()] = C(s.tsize); return ZERO
        if i.x in s.fns and re.search(r'Scalar::(send|exchange)', name):
            g = s.fns[i.x]
            W = Comm(s.P, g, s.members, {x[0]: v for x, v in zip(g.args, args)}, s.tsize, s.fns)
            W.this = s.this
            ps = W.run()
            if len(ps) != 1: raise jx.Broken('%s: %d paths' % (g.short, len(ps)))
            p.x['mpi'] = p.x.get('mpi', ()) + ps[0].x.get('mpi', ())
            if 'exit' in ps[0].x: p.x['exit'] = ps[0].x['exit']; raise walk.Stop
            return ZERO
        if n in ('exit', 'abort', '_exit'):
            p.x['exit'] = i
            raise walk.Stop
        if n.startswith('MPI_'):
            p.x['mpi'] = p.x.get('mpi', ()) + ((n, tuple(args), i),)
            return ZERO
        return None

    def cmp(s, pred, a, b):
        # different buffers have different addresses
        if pred in ('eq', 'ne'):
            t = sub(a, b).t
            if len(t) == 2 and all(len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].kind == 'sym' for m in t) and sorted(t.values()) == [-1, 1]: return C(int(pred == 'ne'))
        return super().cmp(pred, a, b)

    def go(s, p, b, frm):
        try: super().go(p, b, frm)
        except walk.Stop: s.done.append(p)


class Bad(Exception): pass


def collect(p, f):
    """messages and request life of one path: [(kind, buf, count, peer, tag, request, inst)]"""
    req, out, waited = {}, [], set()
    for n, a, i in p.x.get('mpi', ()):
        if n in ('MPI_Send_init', 'MPI_Recv_init', 'MPI_Isend', 'MPI_Irecv'):
            k = a[6].key()
            if k in req and req[k][0] != 'freed': raise Bad(i, 'uses the request of another message that is still open')
            m = ['S' if 'end' in n[:9] and 'S' in n or n == 'MPI_Isend' else 'R', a[0], a[1].const(), a[3], a[4], k, i]
            m[0] = 'S' if n in ('MPI_Send_init', 'MPI_Isend') else 'R'
            if n in ('MPI_Isend', 'MPI_Irecv'): out.append(m)
            req[k] = ['started' if n[4] == 'I' else 'init', m, n[4] == 'I']
        elif n == 'MPI_Start':
            k = a[0].key()
            if k not in req or req[k][0] != 'init': raise Bad(i, 'starts a request that has no message')
            req[k][0] = 'started'; out.append(req[k][1])
        elif n == 'MPI_Wait': waited.add((a[0].key(), i)); req.setdefault(a[0].key(), ['ext', None, False]); req[a[0].key()][0] = 'waited'
        elif n == 'MPI_Request_free':
            k = a[0].key()
            if k not in req or req[k][0] not in ('waited',): raise Bad(i, 'frees a request that was not waited for')
            req[k][0] = 'freed'
        elif n in ('MPI_Send', 'MPI_Recv', 'MPI_Ssend'):
            out.append(['S' if n != 'MPI_Recv' else 'R', a[0], a[1].const(), a[3], a[4], None, i])
        elif n in ('MPI_Type_size', 'MPI_Barrier', 'MPI_Waitall', 'MPI_Startall'):
            if n in ('MPI_Waitall', 'MPI_Startall'): raise jx.Broken('%s: %s is not understood' % (f.short, n))
        else: raise jx.Broken('%s: %s is not understood' % (f.short, n))
    for k, (st, m, now) in req.items():
        if st == 'init': raise Bad(m[6], 'prepares a message that is never started')
    return out, req


def ring(msgs, sends, recvs, want, size, S):
    """msgs: (sends, recvs) of every rank are the same expressions. want: {('front'|'back'): (dst region start, src region start, source rank offset)}"""
    q = {}
    for r in range(S):
        for m in sends:
            env = {'rank': r, 'nSplit': S}
            if m[2] is None or not 0 <= m[2] <= INT_MAX: raise Bad(m[6], 'sends a message of %s bytes' % m[2])
            d = ev(m[3], env)
            if not 0 <= d < S: raise Bad(m[6], 'sends to rank %d of %d' % (d, S))
            q.setdefault((r, d, ev(m[4], env)), []).append(m)
    got = {}
    for r in range(S):
        for m in recvs:
            env = {'rank': r, 'nSplit': S}
            src = ev(m[3], env); tag = ev(m[4], env)
            L = q.get((src, r, tag))
            if not L: raise Bad(m[6], 'waits for a message with tag %d from rank %d that is never sent (rank %d of %d)' % (tag, src, r, S))
            s = L.pop(0)
            if s[2] != m[2]: raise Bad(m[6], 'expects %d bytes, %d are sent' % (m[2], s[2]))
            got.setdefault(r, []).append((m[1], s[1], src, s[2], m[6]))
    for k, L in q.items():
        if L: raise Bad(L[0][6], 'sends a message with tag %d from rank %d to %d that nobody receives (%d ranks)' % (k[2], k[0], k[1], S))
    for r in range(S):
        cov = {w: [] for w in want}
        for dst, src, sr, n, i in got.get(r, ()):
            if n == 0: continue
            for w, (d0, s0, ro) in want.items():
                x, y = sub(dst, d0).const(), sub(src, s0).const()
                if x is not None and y is not None and 0 <= x < size:
                    if x != y: raise Bad(i, 'the %s ghost slices receive the neighbour\'s slices shifted by %d bytes' % (w, y - x))
                    if sr != (r + ro) % S: raise Bad(i, 'the %s ghost slices of rank %d come from rank %d of %d' % (w, r, sr, S))
                    cov[w].append((x, x + n, i)); break
            else: raise Bad(i, 'received bytes do not belong to the ghost slices, or do not come from the slices next to the border')
        for w, L in cov.items():
            e = 0
            for a, b, i in sorted(L, key=lambda t: t[0]):
                if a != e: raise Bad(i, 'the %s ghost region is received with a gap or an overlap at byte %d of %d' % (w, e, size))
                e = b
            if e != size: raise Bad(L[-1][2] if L else None, 'only %d of the %d bytes of the %s ghost region are received' % (e, size, w))


def run(ctx):
    tu = 'lib/scalar/scalarField.cpp'
    P = jx.Program([tu], 'kern', [r'--keep=Scalar::(send|exchange)', r'--noinline=.*AxionsLog|(^|[ :*&])(commRank|commSize|commSync|trackFree|trackAlloc|alignAlloc|getProfiler)\(|Profiler|Cosmos::|Folder|AxionFFT|Scalar::Scalar|genConf'])
    fns = {re.search(r'::(\w+)\(', f.dem).group(1): f for f in P.all if re.search(r'Scalar::(send|exchange)', f.dem)}
    byname = {f.name: f for f in fns.values()}
    for n in ('sendGeneral', 'sendGhosts2', 'sendGhosts', 'exchangeGhosts'): ctx.need(n in fns, '%s not found' % n)
    op, fi, ft = P.enum('CommOperation_s'), P.enum('FieldIndex_s'), P.enum('FieldType_s')
    shapes = []
    for n2, Lz, Ng, fs in ((64, 4, 1, 4), (256, 4, 2, 8), (256, 3, 3, 16), (16384 * 16384, 4, 2, 16), (CHUNK // 8, 2, 1, 8), (CHUNK // 8, 4, 2, 8), (CHUNK // 16 + 4, 2, 1, 16), (CHUNK // 4 - 16, 3, 1, 4)):
        shapes.append(dict(n2=n2, Lz=Lz, Ng=Ng, fSize=fs, n3=n2 * Lz, v3=n2 * (Lz + 2 * Ng), precision=4 if fs == 4 else 8))
    seen = set()

    def bad(fn, e, f, extra=''):
        i, msg = e.args
        key = '%s/%s' % (fn, re.sub(r'\d+', 'N', msg)[:90].replace(' ', '-'))
        if key in seen: return
        seen.add(key)
        ctx.violation(key, i.where() if i is not None else '%s:%d' % (f.file, f.line), '%s %s%s' % (f.short, msg, extra))

    def walkone(f, sh, bind, tsize=1):
        W = Comm(P, f, sh, bind, tsize, byname)
        return W.run()

    def pair(fn, f, sh, binds, want, size, tsize=1):
        """binds(op) -> argument bindings; checks SDRV, SEND+RECV and WAIT"""
        res = {}
        for o in ('COMM_SDRV', 'COMM_SEND', 'COMM_RECV', 'COMM_WAIT'):
            ps = walkone(f, sh, binds(C(op[o])), tsize)
            if any('exit' in p.x for p in ps):
                if size <= 9 * CHUNK: bad(fn, Bad(ps[0].x.get('exit'), 'stops although the slices fit'), f)
                return
            if len(ps) != 1: raise jx.Broken('%s: %d paths for %s' % (f.short, len(ps), o))
            try: res[o] = collect(ps[0], f)
            except Bad as e:
                # a wait on its own waits for requests begun earlier
                bad(fn, e, f, ' (%s)' % o); return
            ctx.cover(paths=1, messages=len(res[o][0]))
        for combo in (('COMM_SDRV',), ('COMM_SEND', 'COMM_RECV')):
            M = [m for o in combo for m in res[o][0]]
            for S in (1, 2, 3, 4, 6):
                ctx.cover(obligations=1)
                try: ring(None, [m for m in M if m[0] == 'S'], [m for m in M if m[0] == 'R'], want, size, S)
                except Bad as e: bad(fn, e, f); return
            ctx.cover(obligations=1)
            begun = {m[5] for m in M}
            w = res['COMM_WAIT'][1]
            ended = {k for k, v in w.items() if v[0] == 'freed'}
            if begun != ended:
                bad(fn, Bad((M[0][6] if M else None), 'starts %d requests but the wait ends %d of them' % (len(begun), len(begun & ended))), f)

    T = lambda n: atom_poly(mk('sym', n))
    for sh in shapes:
        g = sh['Ng'] * sh['n2'] * sh['fSize']
        full = sh['n3'] * sh['fSize']
        for fld, base, types in (('FIELD_M', 'm', ('FIELD_SAXION', 'FIELD_AXION')), ('FIELD_M2', 'm2', ('FIELD_SAXION', 'FIELD_AXION')), ('FIELD_V', 'v', ('FIELD_PAXION',))):
            for ty in types:
                s2 = dict(sh, fieldType=ft[ty])
                b = T(base)
                for fn in ('sendGhosts', 'sendGhosts2'):
                    f = fns[fn]; a = [x[0] for x in f.args]
                    ngs = [-1] + (list(range(1, sh['Ng'] + 1)) if fn == 'sendGhosts2' else [])
                    for ng in ngs[:1 if fn == 'sendGhosts' else None]:
                        k = sh['Ng'] if ng == -1 else ng
                        size = k * sh['n2'] * sh['fSize']
                        want = {'front': (add(b, C(g - size)), add(b, C(g + full - size)), -1), 'back': (add(b, C(g + full)), add(b, C(g)), 1)}
                        bd = lambda o: dict({a[1]: C(fi[fld]), a[2]: o}, **({a[3]: C(ng)} if len(a) > 3 else {}))
                        pair(fn, f, s2, bd, want, size)
                # begin and wait in one call
                f = fns['exchangeGhosts']; a = [x[0] for x in f.args]
                want = {'front': (b, add(b, C(full)), -1), 'back': (add(b, C(g + full)), add(b, C(g)), 1)}
                ps = [p for p in walkone(f, dict(s2, device=P.enum('DeviceType_s')['DEV_CPU']), {a[1]: C(fi[fld])}) if 'exit' not in p.x]
                for p in ps:
                    try:
                        M, req = collect(p, f)
                        for S in (1, 2, 3, 5):
                            ctx.cover(obligations=1)
                            ring(None, [m for m in M if m[0] == 'S'], [m for m in M if m[0] == 'R'], want, g, S)
                        for k, v in req.items():
                            if v[0] != 'freed' and not (v[2] and v[0] == 'waited'): raise Bad(v[1][6] if v[1] else None, 'returns before a message has arrived')
                    except Bad as e: bad('exchangeGhosts', e, f)
                ctx.need(ps or g > 9 * CHUNK, 'exchangeGhosts has no path for the CPU %s' % sh)
        # the general exchange, either side or both
        f = fns['sendGeneral']; a = [x[0] for x in f.args]
        for ts in (1, 4):
            cnt = -(-g // ts)
            size = cnt * ts
            for sides in ('both', 'B', 'F'):
                e = T('none')
                sB, rF, sF, rB = (T('sB'), T('rF'), T('sF'), T('rB'))
                if sides == 'F': sB = rF = e
                if sides == 'B': sF = rB = e
                want = {}
                if sides != 'F': want['back'] = (rF, sB, 1)
                if sides != 'B': want['front'] = (rB, sF, -1)
                pair('sendGeneral', f, sh, lambda o: {a[1]: o, a[2]: C(cnt), a[4]: sB, a[5]: rF, a[6]: sF, a[7]: rB}, want, size, ts)
    ctx.floor('messages', ctx.cov.get('messages', 0), 500)
    callers(ctx, op)


def callers(ctx, op):
    """begin/wait typestate in the callers, per exchange function and field"""
    tus = [t for t in jx.ALL_TUS if t != steps.TU and t != 'lib/scalar/scalarField.cpp' and re.search(r'sendGeneral|sendGhosts|potentialClass\.h|trackerClass\.h', open('%s/%s' % (jx.REPO, t)).read())]
    P = jx.Program(tus, 'cfg', ['--keep=.*'])
    n = 0
    for f in P.all:
        ev_ = {}
        for i in f.insts():
            if i.op != 'call' or not isinstance(i.x, str): continue
            m = re.search(r'\bScalar::(sendGeneral|sendGhosts2?)\(', P.dem(i.x, f.mod))
            if not m: continue
            o, fld = (i.ops[1], None) if m.group(1) == 'sendGeneral' else (i.ops[2], str(i.ops[1]))
            if isinstance(o, int): raise jx.Broken('%s: kind of exchange at %s not constant' % (f.short, i.where()))
            slot = ('general' if m.group(1) in ('sendGeneral', 'sendGhosts2') else 'ghosts')
            ev_[i.id if i.id is not None else id(i)] = (slot, o[2], i)
            ev_[id(i)] = (slot, o[2], i)
        if not ev_: continue
        n += 1
        idx = {i.id: i for i in f.insts() if i.id is not None}
        ctl = set()
        for B in f.blocks:
            if any(id(i) in ev_ for i in B.insts): ctl |= {x if isinstance(x, int) else x[0] for x in f.cdeps_closure(B.idx)}
        track, todo = set(), [f.blocks[c].insts[-1].ops[0] for c in ctl if f.blocks[c].insts[-1].op == 'br' and len(f.blocks[c].insts[-1].ops) == 3]
        while todo:
            v = todo.pop()
            if not isinstance(v, int) or v in track: continue
            track.add(v); i = idx.get(v)
            if i is None: continue
            if i.op == 'phi': todo += [o for o, q in i.ops]
            elif i.op in ('trunc', 'zext', 'xor', 'freeze', 'and', 'or'): todo += i.ops
            elif i.op == 'icmp' and any(not isinstance(o, int) for o in i.ops): todo += i.ops

        def val(v, cur):
            if not isinstance(v, int): return v[2] & ((1 << v[1]) - 1) if v[0] == 'ci' else None
            if v in cur: return cur[v]
            i = idx.get(v)
            if i is None or v not in track: return None
            if i.op in ('trunc', 'zext', 'freeze'):
                x = val(i.ops[0], cur)
                return x if x is None or i.op != 'trunc' or i.ty != 'i1' else x & 1
            if i.op in ('icmp', 'xor', 'and', 'or'):
                x, y = val(i.ops[0], cur), val(i.ops[1], cur)
                if x is None or y is None: return None
                if i.op == 'icmp': return {'eq': int(x == y), 'ne': int(x != y)}.get(i.x)
                return {'xor': x ^ y, 'and': x & y, 'or': x | y}[i.op]
        # forward dataflow: open exchanges at block entry
        state = {0: {frozenset()}}
        work = [0]; rep = set()
        dead = f.dead_blocks()
        while work:
            b = work.pop()
            if b in dead: continue
            for st in list(state[b]):
                cur = dict(st)
                ok = True
                for i in f.blocks[b].insts:
                    e = ev_.get(id(i))
                    if e is None:
                        if i.op == 'ret' and [k for k in cur if not isinstance(k, int)] and ('ret', b) not in rep:
                            rep.add(('ret', b))
                            ctx.violation('%s/not-waited' % fkey(f), i.where(), '%s returns with an exchange of ghost slices still open' % f.short)
                        continue
                    slot, o, _ = e
                    ctx.cover(obligations=1)
                    if o == op['COMM_WAIT']:
                        if slot not in cur and id(i) not in rep:
                            rep.add(id(i)); ctx.violation('%s/wait-without-begin' % fkey(f), i.where(), '%s waits for an exchange it has not begun' % f.short)
                        cur.pop(slot, None)
                    else:
                        if slot in cur and cur[slot] == op['COMM_SDRV'] and id(i) not in rep:
                            rep.add(id(i)); ctx.violation('%s/begin-twice' % fkey(f), i.where(), '%s begins an exchange before the previous one has been waited for' % f.short)
                        cur[slot] = o
                t = f.blocks[b].insts[-1]
                for q in f.blocks[b].succs:
                    c2 = dict(cur)
                    if t.op == 'br' and len(t.ops) == 3 and (not isinstance(t.ops[0], int) or t.ops[0] in track) and t.ops[1][1] != t.ops[2][1]:
                        v = int(t.ops[1][1] == q)
                        k = val(t.ops[0], cur)
                        if k is not None and k != v: continue
                        if isinstance(t.ops[0], int): c2[t.ops[0]] = v
                    # flags carried along; what is computed again in the next block is forgotten
                    new = {}
                    for i in f.blocks[q].insts:
                        if i.id in track and i.op == 'phi':
                            for o, pb in i.ops:
                                if pb == b: new[i.id] = val(o, c2)
                    for i in f.blocks[q].insts:
                        if i.id in track: c2.pop(i.id, None)
                    c2.update({k: v for k, v in new.items() if v is not None})
                    out = frozenset(c2.items())
                    if out not in state.setdefault(q, set()):
                        state[q].add(out); work.append(q)
    ctx.floor('callers', n, 5)


def fkey(f): return re.sub(r'[^\w:<>]', '', f.short)[:60]
