"""Lattice sweeps: which sites a compiled kernel visits and which neighbours it reads, obtained by instantiating its
closed-form loop bounds, guards and addresses (normal forms of sym.py) on small lattices; field values stay symbolic."""
import jx, sym, kern
from kern import *


def consts(**kw):
    """bindings: name -> int for kernel arguments, pp_NAME -> int for parameter-block members"""
    d = {}
    for k, v in kw.items():
        d[mk('sym', 'pp.' + k[3:]) if k.startswith('pp_') else argatom(k)] = C(v)
    return d


class Sweep:
    def __init__(s, K, store):
        s.K = K
        s.root, s.w, a, g, vals, s.esz = store
        s.addr, s.guard = subst(a, K.mp), subst(g, K.mp)
        s.vals = [subst(v, K.mp) for v in vals]
        s.loops = list(reversed(list(K.E.loopchain(s.w.bb.idx))))
        s.trips = [subst(K.E.trip(l), K.mp) for l in s.loops]
        s.ks = [mk('k', l.id) for l in s.loops]

    def points(s, env, cap=200000):
        """[(counter bindings, byte offset of the store from its array)] in execution order, for the executed iterations only"""
        out = []
        addr = subst(sub(s.addr, At('arg', s.root)), env)
        guard = subst(s.guard, env)
        trips = [subst(t, env) for t in s.trips]

        def go(n, b, ad, gu):
            if n == len(s.loops):
                gc = gu.const()
                if gc is None: raise jx.Broken('%s: condition of the store is not determined by the lattice: %s' % (s.K.f.short, str(gu)[:200]))
                if not gc: return
                o = ad.const()
                if o is None: raise jx.Broken('%s: stored position is not determined by the lattice: %s' % (s.K.f.short, str(ad)[:200]))
                out.append((dict(b), o))
                if len(out) > cap: raise jx.Broken('%s: lattice too large' % s.K.f.short)
                return
            t = subst(trips[n], b).const()
            if t is None: raise jx.Broken('%s: number of iterations is not determined by the lattice: %s' % (s.K.f.short, str(trips[n])[:200]))
            for k in range(t):
                q = {s.ks[n]: C(k)}
                b2 = dict(b); b2.update(q)
                go(n + 1, b2, subst(ad, q), subst(gu, q))
        go(0, {}, addr, guard)
        return out
