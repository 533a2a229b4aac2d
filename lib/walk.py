"""Schedules: the sequence of effects (calls, stores to shared memory) of a function along each of its paths, with loops of constant length
unrolled and data-independent branches resolved.  Values are polynomials (sym.Poly) over opaque atoms; nothing is executed."""
import re
from fractions import Fraction
import jx, sym
from sym import C, ZERO, ONE, add, sub, mul, neg, inv, scale, mk, atom_poly, SZ


class Stop(Exception): pass


class Event:
    __slots__ = ('kind', 'name', 'args', 'inst', 'data', 'loop')

    def __init__(s, kind, name, args, inst, data=None, loop=None):
        s.kind, s.name, s.args, s.inst, s.data, s.loop = kind, name, args, inst, data, loop

    def __repr__(s): return '%s %s(%s)%s' % (s.kind, s.name, ', '.join(str(a)[:80] for a in s.args), ' in loop' if s.loop else '')


class Path:
    """state of one path"""

    def __init__(s):
        s.env, s.mem, s.events, s.truth, s.x = {}, {}, [], {}, {}

    def fork(s):
        q = Path()
        q.env, q.mem, q.events, q.truth, q.x = dict(s.env), dict(s.mem), list(s.events), dict(s.truth), dict(s.x)
        return q


class Walk:
    """client hooks: value(path, inst, name, args) -> Poly or None (opaque), event(path, inst, name, args) -> True to record,
    store(path, inst, addr, val), load(path, inst, addr) -> Poly or None"""

    def __init__(s, P, f, bind=None, maxpaths=1024, maxsteps=200000):
        s.P, s.f, s.bind = P, f, dict(bind or {})
        s.maxpaths, s.maxsteps = maxpaths, maxsteps
        s.done = []
        s.loops = s.find_loops()

    # ---- hooks
    def value(s, p, i, name, args): return None
    def event(s, p, i, name, args): return False
    def onstore(s, p, i, addr, val): return False
    def onload(s, p, i, addr): return None
    def boring(s, f, blocks): return all(not s.interesting(i) for b in blocks for i in f.blocks[b].insts)
    def interesting(s, i): return i.op == 'call'

    # ---- natural loops: header -> body
    def find_loops(s):
        f = s.f; L = {}
        idom = f.dom()[0]
        for b in f.blocks:
            if b.idx not in idom: continue
            for q in b.succs:
                if f.dominates(q, b.idx):
                    body = L.setdefault(q, {q})
                    st = [b.idx]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(f.blocks[x].preds)
        return L

    def run(s):
        s.paths, s.steps = [(Path(), 0, None)], 0
        while s.paths:
            p, b, frm = s.paths.pop()
            s.go(p, b, frm)
            if len(s.done) + len(s.paths) > s.maxpaths: raise jx.Broken('%s: too many paths' % s.f.short)
        return s.done

    def op(s, p, o):
        if isinstance(o, int):
            if o in p.env: return p.env[o]
            if o < len(s.f.args):
                n = s.f.args[o][0] or 'arg%d' % o
                return s.bind.get(n, atom_poly(mk('arg', n)))
            return atom_poly(mk('v', s.f.name, o))
        k = o[0]
        if k == 'ci': return C(o[2] & 1 if o[1] == 1 else o[2])
        if k == 'cf':
            try: return C(float(o[2]))
            except ValueError: return atom_poly(mk('fconst', o[2]))
        if k == 'g': return atom_poly(mk('glob', o[1]))
        if k in ('null', 'cz'): return ZERO
        if k == 'ce' and o[1] == 'getelementptr':
            base = s.op(p, o[2][0])
            if o[3]:
                r = add(base, C(o[3][0]))
                for ix, st in o[3][1]: r = add(r, scale(s.op(p, ix), st))
                return r
        if k == 'ce' and o[1] in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'): return s.op(p, o[2][0])
        return atom_poly(mk('const', str(o)[:60]))

    def go(s, p, b, frm):
        f = s.f
        while True:
            B = f.blocks[b]
            phis = [i for i in B.insts if i.op == 'phi']
            new = {}
            for i in phis:
                v = None
                for o, q in i.ops:
                    if q == frm: v = s.op(p, o)
                new[i.id] = v if v is not None else atom_poly(mk('phi', i.id))
            p.env.update(new)
            for i in B.insts[len(phis):]:
                s.steps += 1
                if s.steps > s.maxsteps: raise jx.Broken('%s: schedule too long' % f.short)
                if i.op == 'br':
                    if len(i.ops) == 1: frm, b = b, i.ops[0][1]; break
                    c = s.op(p, i.ops[0]); k = c.const()
                    y, z = i.ops[1][1], i.ops[2][1]
                    if k is None: k = p.truth.get(c.key())
                    if k is None:
                        r = s.unknown(p, b, i, c, y, z)
                        if r is None: return
                        frm, b = r; break
                    frm, b = b, (y if k else z); break
                if i.op == 'switch':
                    v = s.op(p, i.ops[0]); k = v.const()
                    if k is None: k = p.x.get(('sw', v.key()))
                    dflt = i.ops[1][1]
                    if k is None:
                        for cs in i.ops[2:]:
                            q = p.fork(); q.x[('sw', v.key())] = cs[1]; s.paths.append((q, cs[2], b))
                        p.x[('sw', v.key())] = 'default'
                        frm, b = b, dflt; break
                    t = dflt
                    for cs in i.ops[2:]:
                        if cs[1] == k: t = cs[2]
                    frm, b = b, t; break
                if i.op == 'ret':
                    p.ret = s.op(p, i.ops[0]) if i.ops else None
                    s.done.append(p); return
                if i.op == 'unreachable': return
                s.step(p, i)

    def unknown(s, p, b, i, c, y, z):
        """branch on a value that is not known: loops of unknown length are summarised, other branches fork"""
        for h, body in s.loops.items():
            if b in body and (y in body) != (z in body) and h in body:
                inner = y if y in body else z
                out = z if y in body else y
                # only at the first exit test of the smallest loop
                for i2 in (x for q in sorted(body) for x in s.f.blocks[q].insts):
                    if i2.op in ('call', 'store') and s.interesting(i2):
                        s.loopevent(p, i2, h)
                for q in body:
                    for x in s.f.blocks[q].insts:
                        if x.id is not None: p.env[x.id] = atom_poly(mk('after', s.f.name, x.id))
                return b, out
        k = c.key()
        q = p.fork(); q.truth[k] = 0
        s.paths.append((q, z, b))
        p.truth[k] = 1
        return b, y

    def loopevent(s, p, i, h):
        if i.op == 'call' and isinstance(i.x, str):
            name = s.P.dem(i.x, s.f.mod)
            p.events.append(Event('call', name, [s.loopval(p, o, h) for o in i.ops], i, None, h))
        elif i.op == 'store':
            p.events.append(Event('store', '', [s.loopval(p, i.ops[1], h), s.loopval(p, i.ops[0], h)], i, None, h))

    def loopval(s, p, o, h): return atom_poly(mk('inloop', s.f.name, str(o)[:40])) if isinstance(o, int) and o not in p.env and o >= len(s.f.args) else s.op(p, o)

    def step(s, p, i):
        o = lambda k: s.op(p, i.ops[k])
        op = i.op
        r = None
        if op == 'alloca': r = atom_poly(mk('alloca', s.f.name, i.id))
        elif op == 'load': r = s.load(p, i, o(0))
        elif op == 'store': s.store(p, i, o(1), o(0)); return
        elif op == 'getelementptr':
            r = o(0)
            if i.x and isinstance(i.x, list):
                r = add(r, C(i.x[0]))
                for ix, st in i.x[1]: r = add(r, scale(s.op(p, ix), st))
        elif op in ('add', 'fadd'): r = add(o(0), o(1))
        elif op in ('sub', 'fsub'): r = sub(o(0), o(1))
        elif op in ('mul', 'fmul'): r = mul(o(0), o(1))
        elif op == 'fneg': r = neg(o(0))
        elif op == 'fdiv': r = mul(o(0), inv(o(1)))
        elif op == 'shl' and o(1).const() is not None: r = scale(o(0), 1 << o(1).const())
        elif op in ('sext', 'zext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'): r = o(0)
        elif op in ('icmp', 'fcmp'): r = s.cmp(i.x, o(0), o(1))
        elif op == 'select':
            k = o(0).const()
            if k is None: k = p.truth.get(o(0).key())
            r = o(1) if k else o(2) if k is not None else None
            if r is None and o(1).key() == o(2).key(): r = o(1)
            if r is None: r = atom_poly(mk('select', o(0).key(), o(1).key(), o(2).key()))
        elif op in ('and', 'or', 'xor'):
            a, b = o(0), o(1)
            ka, kb = a.const(), b.const()
            if ka is not None and kb is not None: r = C({'and': ka & kb, 'or': ka | kb, 'xor': ka ^ kb}[op])
            elif i.ty == 'i1' and op == 'xor' and kb == 1: r = sub(ONE, a)
            elif i.ty == 'i1' and op == 'and' and 0 in (ka, kb): r = ZERO
            elif i.ty == 'i1' and op == 'or' and 1 in (ka, kb): r = ONE
            elif op == 'and' and kb == 0: r = ZERO
            else: r = atom_poly(mk(op, a.key(), b.key()))
        elif op in ('udiv', 'sdiv') and o(0).const() is not None and o(1).const(): r = C(int(Fraction(o(0).const()) / Fraction(o(1).const())))
        elif op in ('urem', 'srem') and o(0).const() is not None and o(1).const(): r = C(o(0).const() % o(1).const())
        elif op == 'call': r = s.call(p, i)
        if r is None: r = atom_poly(mk(op if op != 'call' or not isinstance(i.x, str) else 'call ' + i.x, i.ty, *[s.op(p, q).key() for q in i.ops if isinstance(q, int)], str([q for q in i.ops if not isinstance(q, int)])))
        p.env[i.id] = r

    def cmp(s, pred, a, b):
        d = sub(a, b); k = d.const()
        if k is not None:
            f = {'eq': k == 0, 'ne': k != 0, 'slt': k < 0, 'sle': k <= 0, 'sgt': k > 0, 'sge': k >= 0,
                 'ult': k < 0, 'ule': k <= 0, 'ugt': k > 0, 'uge': k >= 0}.get(pred.lstrip('o') if pred[0] == 'o' and pred not in ('oeq',) else pred)
            if pred[0] in 'ou' and pred[1:] in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and f is None:
                f = {'eq': k == 0, 'ne': k != 0, 'lt': k < 0, 'le': k <= 0, 'gt': k > 0, 'ge': k >= 0}[pred[1:]]
            if f is not None: return C(int(f))
        neg_ = {'ne': 'eq', 'sge': 'slt', 'sle': 'sgt', 'uge': 'ult', 'ule': 'ugt'}
        if pred in neg_: return sub(ONE, s.cmp(neg_[pred], a, b))
        if pred in ('sgt', 'ugt'): return s.cmp('slt' if pred[0] == 's' else 'ult', b, a)
        return atom_poly(mk('cmp', pred, d.key()))

    # ---- memory: exact cells of this function's own allocas and of whatever addresses were stored to
    def constglob(s, a):
        """element of a constant table at address a, exact"""
        for m, c in a.t.items():
            if len(m) == 1 and m[0][1] == 1 and c == 1 and sym._atoms[m[0][0]].kind == 'glob':
                g = s.f.mod.gv.get(sym._atoms[m[0][0]].args[0])
                k = sub(a, atom_poly(m[0][0])).const()
                if g is None or not g.get('const') or not g.get('init') or k is None: return None
                init, ty, off = g['init'], g['type'], int(k)
                while init[0] == 'cv':
                    w = re.match(r'^[\[<](\d+) x (.+)[\]>]$', ty)
                    es = sym.csize(w.group(2)) if w else None
                    if not es or not 0 <= off // es < len(init[1]): return None
                    init, ty, off = init[1][off // es], w.group(2), off % es
                if off: return None
                if init[0] == 'cz': return ZERO
                if init[0] == 'ci': return C(init[2])
                if init[0] == 'cf' and init[2] not in ('inf', '-inf', 'nan'): return C(float(init[2]))
        return None

    def load(s, p, i, a):
        k = a.key()
        if k in p.mem: return p.mem[k]
        v = s.constglob(a)
        if v is not None: return v
        v = s.onload(p, i, a)
        if v is not None: return v
        return atom_poly(mk('ld', k))

    def store(s, p, i, a, v):
        p.mem[a.key()] = v
        s.onstore(p, i, a, v)

    def call(s, p, i):
        if not isinstance(i.x, str):
            args = [s.op(p, q) for q in i.ops]
            if s.event(p, i, '<indirect>', args): p.events.append(Event('call', '<indirect>', args, i))
            return None
        if i.x.startswith('llvm.'):
            args = [s.op(p, q) for q in i.ops]
            if i.x.startswith('llvm.fmuladd') or i.x.startswith('llvm.fma.'): return add(mul(args[0], args[1]), args[2])
            if i.x.startswith('llvm.memcpy') or i.x.startswith('llvm.memmove'):
                n = args[2].const()
                if n is not None:
                    for o in range(0, n, 4):
                        k = add(args[1], C(o)).key()
                        d = add(args[0], C(o)).key()
                        if k in p.mem: p.mem[d] = p.mem[k]
                        else:
                            g = s.constglob(add(args[1], C(o)))
                            if g is None: g = s.onload(p, i, add(args[1], C(o)))
                            if g is not None: p.mem[d] = g
                            else: p.mem.pop(d, None)
                return None
            if i.x.startswith('llvm.smax') or i.x.startswith('llvm.umax'):
                x, y = args[0].const(), args[1].const()
                if x is not None and y is not None: return C(max(x, y))
            if i.x.startswith('llvm.smin') or i.x.startswith('llvm.umin'):
                x, y = args[0].const(), args[1].const()
                if x is not None and y is not None: return C(min(x, y))
            return None
        name = s.P.dem(i.x, s.f.mod)
        args = [s.op(p, q) for q in i.ops]
        if s.event(p, i, name, args): p.events.append(Event('call', name, args, i))
        return s.value(p, i, name, args)
