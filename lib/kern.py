"""Site-update kernels: what one sweep stores, as functions of the site's own field values, its neighbour sum and the
parameters.  Built on the value numbering of sym.py."""
import re
import jx, sym
from sym import (C, ZERO, ONE, add, sub, mul, scale, neg, inv, div, sqrt, fn, mk, atom_poly, subst, equal, sel, lt0, summation, ksym, fromkey, _atoms, lanes, SZ)


def S(name): return atom_poly(mk('sym', name))


def At(kind, *a): return atom_poly(mk(kind, *a))


def allloads(p, out=None, seen=None):
    """every load atom occurring anywhere inside p (also inside sums, reciprocals, ...)"""
    if out is None: out, seen = set(), set()
    st = [p.key()]
    while st:
        k = st.pop()
        for m, c in k:
            for a, e in m:
                if a in seen: continue
                seen.add(a)
                A = _atoms[a]
                if A.kind == 'ld': out.add(a)
                for x in A.args:
                    if isinstance(x, tuple) and (not x or isinstance(x[0], tuple)): st.append(x)
    return out


def argatom(name): return mk('arg', name)


class Kernel:
    """One instantiation of one kernel for one precision."""

    def __init__(s, P, f, bind=None, pure=None):
        s.P, s.f = P, f
        s.names = {a[0]: k for k, a in enumerate(f.args)}
        s.E = sym.Eval(f, P, {s.names[n]: v for n, v in (bind or {}).items()}, pure=pure)
        s.pp = None
        for k, a in enumerate(f.args):
            if a[2] and 'PropParms' in a[2]: s.pp = a[0]
        s.mp = {}
        if s.pp:
            st = P.struct('PropParms_v')
            base = At('arg', s.pp)
            for nm, off, ty in members(st):
                s.mp[mk('ld', add(base, C(off)))] = S('pp.' + nm)

    def field_stores(s, roots):
        """[(root name, inst, address Poly, guard Poly, [lane values])] for reachable stores into the named arguments"""
        out = []
        want = {argatom(r): r for r in roots}
        for w in s.E.stores:
            a = s.E.waddr(w)
            r = s.E.root(a)
            if r not in want: continue
            g = s.E.guard(w.bb.idx)
            if not g.t: continue
            v = s.E.op(w.ops[0], w.bb.idx)
            if not isinstance(v, list): v = [v]
            n, e = lanes(w.sty)
            if n != len(v):
                v = list(v) * n if len(v) == 1 else v
            out.append((want[r], w, a, g, v, SZ.get(e, 8)))
        return out


def members(st):
    """[(name, byte offset, type)]"""
    return [(m[2], m[0], m[3]) for m in st['m']]


def rebase(addr, frm, to):
    """the same position in another array"""
    return subst(addr, {argatom(frm): At('arg', to)}) if frm != to else addr


def canon(p, k, table, neighbour=None):
    """replace loads by symbols: `table` maps load atoms; loads rooted in an argument listed in `neighbour`
    (name -> function(addr) -> Poly or None) are classified; PropParms members become pp.NAME"""
    mp = dict(k.mp)
    mp.update(table)
    if neighbour:
        for a in allloads(p):
            if a in mp: continue
            ad = fromkey(_atoms[a].args[0])
            r = k.E.root(ad)
            for nm, f in neighbour.items():
                if r == argatom(nm):
                    q = f(ad)
                    if q is not None: mp[a] = q
    return subst(subst(p, mp), k.mp)
