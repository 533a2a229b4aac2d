"""Fatal errors never end in a success status."""
import jx
from cfgutil import *

LEVEL = 'other'
EXPLANATION = ('Every call site of exit/_exit/_Exit/quick_exit and every constant status returned by main, in the LLVM IR of all '
               'translation units of the default build, is classified: the status is a non-zero constant, or no error report '
               '(LogError, or a printf/LogOut text announcing an error) dominates it. Functions that forward a parameter to exit are '
               'treated as exit themselves at each of their call sites.')
RULES = ['exit status 0 is never dominated by an error report in the same function (callees that only report count as reports)']
EXITS = {'exit', '_exit', '_Exit', 'quick_exit'}


def _text(f, r):
    for o in r.ops:
        t = jx.gstr(f.mod, o)
        if t and not t.endswith(('.cpp', '.h')): return re.sub(r'\W+', '_', t).strip('_')
    return '-'


def _hoist(f, i):
    """block of a report; a report made by rank 0 only (LogOut) counts for every rank that passes the rank test"""
    b = i.bb.idx
    if i.x not in ('printf', 'puts', 'fprintf', 'perror'): return b
    d = f.dom()[0].get(b)
    if d is None or d == b: return b
    for t in f.blocks[d].insts:
        if t.op == 'call' and isinstance(t.x, str) and ('commRank' in t.x or t.x == 'MPI_Comm_rank'):
            return d
    return b


def run(ctx):
    P = jx.Program(jx.ALL_TUS)
    LE = P.enum('LogLevel_s')['LOG_ERROR']
    # functions that forward a parameter as status: name -> parameter index
    fwd = {}
    for _ in range(3):
        for f in P.all:
            for i in f.insts():
                if i.op != 'call' or not isinstance(i.x, str): continue
                k = 0 if i.x in EXITS else fwd.get(i.x)
                if k is not None and k < len(i.ops) and isinstance(i.ops[k], int) and i.ops[k] < len(f.args):
                    fwd[f.name] = i.ops[k]
    # functions that do nothing but report an error (helpers): report on every path to their return
    def direct(f, i): return is_log_error(P, i, f.mod, LE) or prints_error(P, i, f.mod)
    rep = set()
    for _ in range(3):
        for f in P.all:
            if f.name in rep or len(f.blocks) > 12: continue
            rb = {b.idx for b in f.blocks for i in b.insts if direct(f, i) or (i.op == 'call' and isinstance(i.x, str) and i.x in rep)}
            if rb and any(f.dominates(r, b.idx) for r in rb for b in f.blocks if b.term.op == 'ret'):
                if any(f.dominates(r, f.blocks[-1].idx) for r in rb):
                    # unconditional reporters only
                    if any(all(f.dominates(r, b.idx) for b in f.blocks if b.term.op == 'ret') for r in rb):
                        rep.add(f.name)
    n = z = nrep = 0
    for f in P.all:
        ismain = f.name == 'main'
        sites = []
        reports = []
        for i in f.insts():
            if i.op == 'call' and isinstance(i.x, str):
                if direct(f, i) or (isinstance(i.x, str) and i.x in rep and i.x not in fwd):
                    reports.append((i, _hoist(f, i)))
                k = 0 if i.x in EXITS else (fwd.get(i.x) if isinstance(i.x, str) else None)
                if k is not None and k < len(i.ops):
                    sites.append((i, i.ops[k], 'exit'))
            elif i.op == 'ret' and ismain and i.ops:
                sites.append((i, i.ops[0], 'return from main'))
        nrep += len(reports)
        for i, o, what in sites:
            vals = [(o, i.bb.idx)]
            if isinstance(o, int) and o in f.val and f.val[o].op == 'phi':
                vals = [(v, b) for v, b in f.val[o].ops]
            for v, b in vals:
                n += 1
                c = const(v)
                if c is None or (c & 0xff) != 0: continue
                z += 1
                for r, rb in reports:
                    if (r.bb.idx == b and (r.pos < i.pos or b != i.bb.idx)) or (rb != b and f.dominates(rb, b)):
                        ctx.violation('%s:%s/%s/%s' % (f.file, fkey(f), what.split()[0], _text(f, r)), i.where(),
                                      '%s: %s with status 0 after the error reported at %s' % (f.short, what, r.where()), function=f.dem)
                        break
    ctx.floor('exit_sites', n, 500)
    ctx.cover(zero_status_sites=z, error_report_sites=nrep, functions=len(P.all))
    ctx.need(nrep > 300, 'error reports are no longer recognised (%d)' % nrep)
