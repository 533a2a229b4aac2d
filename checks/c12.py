"""Every command line option is recognised, takes exactly its value, and never reads past the arguments; unknown options stop the run; explicit physical parameters win over the ones of a snapshot."""
import re
import jx, sym, walk
from sym import C, ZERO, ONE, add, sub, mk, atom_poly

LEVEL = 'other'
EXPLANATION = ('The argument loop of parseArgs and parseDims is unfolded once for every option literal the program compares with, with the option as the last word and with words following, everything else '
               'symbolic: what is converted and stored where, how many words are consumed, what is read past the end, and how a following unknown word is treated; the results are compared with the '
               "program's own help text. createCosmos is unfolded for a fresh start and for a snapshot.")
RULES = ['an unknown word, first or after any option, ends the run with a failure', 'a value option consumes exactly the next word and stores it, converted, in its own setting; a flag consumes none',
         'no word beyond the last is read: a missing value ends the run with a failure or leaves a documented default', 'an unknown keyword of a keyword option ends the run with a failure',
         'options of the help text exist and take a value exactly when the help says so', 'each physical parameter of the model is set from its own variable, on a snapshot exactly when its option was given']
TU = 'lib/utils/parse.cpp'
CONV = {'atoi': 'int', 'atol': 'int', 'atoll': 'int', 'strtol': 'int', 'strtoul': 'int', 'strtoll': 'int', 'strtoull': 'int', 'atof': 'real', 'strtod': 'real', 'strtof': 'real'}


def globs(a):
    """(global, offset) of an address"""
    g, off = None, 0
    for m, c in a.t.items():
        if not m: off = c
        elif len(m) == 1 and m[0][1] == 1 and c == 1 and sym._atoms[m[0][0]].kind == 'glob' and g is None: g = sym._atoms[m[0][0]].args[0]
        else: return None
    return (g, off) if g else None


def argn(a):
    """k when a is the string argv[k]"""
    m = re.fullmatch(r'M\((\d+) \+ arg\(argv\)\)', str(a))
    return int(m.group(1)) // 8 if m else 0 if str(a) == 'M(arg(argv))' else None


class Parse(walk.Walk):
    """one pass over a command line: words gives the known words; argc is concrete"""

    def __init__(s, P, f, words, argc):
        super().__init__(P, f, bind={f.args[0][0]: C(argc)}, maxpaths=4096)
        s.words, s.argc = words, argc
        s.main = max(s.loops.values(), key=len) if s.loops else set()
        live, st = set(), [b.idx for b in f.blocks if b.term.op == 'ret']
        while st:
            x = st.pop()
            if x not in live: live.add(x); st += f.blocks[x].preds
        s.after = live - s.main - {b for b in live if not any(f.dominates(m, b) for m in s.loops if len(s.loops[m]) == len(s.main))}

    def step(s, p, i):
        if s.after is not None and i.bb.idx in s.after:
            s.note(p, ('end', None, i))
            raise walk.Stop
        super().step(p, i)

    def onload(s, p, i, a):
        m = re.search(r'M\((\d+) \+ arg\(argv\)\)', str(a))
        if m and int(m.group(1)) // 8 >= s.argc: s.note(p, ('past', int(m.group(1)) // 8, i))
        return None

    def interesting(s, i): return False

    def unknown(s, p, b, i, c, y, z):
        for h, body in s.loops.items():
            if b in body and len(body) < len(s.main) and (y in body) != (z in body): return super().unknown(p, b, i, c, y, z)
        q = p.fork(); q.truth[c.key()] = 0
        s.paths.append((q, z, b))
        p.truth[c.key()] = 1
        return b, y

    def lit(s, a):
        g = globs(a)
        if not g or g[1]: return None
        d = s.f.mod.gv.get(g[0])
        return d.get('str') if d and d.get('const') else None

    def note(s, p, what): p.x['log'] = p.x.get('log', ()) + (what,)

    def value(s, p, i, name, args):
        n = i.x
        if re.search(r'::Verbosity\(', name): return C(0)
        if n in ('exit', '_exit', 'abort'):
            p.x['exit'] = args[0].const() if n != 'abort' else 134
            raise walk.Stop
        for a in args:
            k = argn(a)
            if k is not None: s.note(p, ('use', k, n, i))
            if k is not None and k >= s.argc and not re.match(r'(AxionsLog::|std::|printf)', name) and n != 'printf':
                s.note(p, ('past', k, i))
        if n in ('strcmp', 'strcasecmp'):
            x, y = args
            if s.lit(x) is not None: x, y = y, x
            k, l = argn(x), s.lit(y)
            if k is not None and l is not None:
                if k in s.words:
                    if l == s.words[k]: s.note(p, ('match', k, l, i))
                    else: s.note(p, ('differs', k, l, i))
                    return C(0 if l == s.words[k] else 1)
                if l.startswith('--') :
                    s.note(p, ('next', k, i))
                    raise walk.Stop
                s.note(p, ('key', k, l, i))
                return atom_poly(mk('strcmp', k, l))
        n = re.sub('^__isoc[0-9]+_', '', n)
        if n in CONV: return atom_poly(mk('conv', CONV[n], argn(args[0]) if argn(args[0]) is not None else -1, str(args[0])))
        if n in ('sscanf',):
            fm = s.lit(args[1])
            for a in args[2:]:
                t = 'str' if fm and 's' in fm else 'int' if fm and re.search(r'%[lz]*[dui]', fm) else 'real' if fm and re.search(r'%l*[fge]', fm) else '?'
                v = atom_poly(mk('conv', t, argn(args[0]) if argn(args[0]) is not None else -1, str(args[0])))
                if globs(a): s.note(p, ('set', globs(a), v, i))
                p.mem[a.key()] = v
            return None
        return None

    def onstore(s, p, i, a, v):
        g = globs(a)
        if g: s.note(p, ('set', g, v, i))

    def go(s, p, b, frm):
        try: super().go(p, b, frm)
        except walk.Stop: s.done.append(p)


def program():
    return jx.Program([TU], 'kern', ['--keep=^(parseArgs|parseDims|createCosmos|PrintUsage)\\(',
                                    '--noinline=' + jx.KERN_KEEPOUT + '|std::|legal_int|^Print|createMeas|createOutput'], defs=['JX12'])


# the setting each documented value option stands for: the variable read by the rest of the program
SPEC = {'--size': 'sizeN', '--depth': 'sizeZ', '--zgrid': 'zGrid', '--steps': 'nSteps', '--lap': 'Nng', '--wDz': 'wDz', '--fftplan': 'fftplanType', '--sst0': 'safest0', '--dwgam': 'dwgammo',
        '--frw': 'frw', '--zi': 'icdatst.zi', '--zf': 'zFinl', '--Rc': 'zthres', '--lsize': 'sizeL', '--qcd': 'nQcd', '--llcf': 'LL', '--msa': 'msa', '--ind3': 'indi3', '--gam': 'gammo',
        '--kmax': 'icdatst.kMax', '--kcr': 'icdatst.kcr', '--mode0': 'icdatst.mode0', '--sIter': 'icdatst.siter', '--alpha': 'icdatst.alpha', '--wkb': 'wkb2z', '--index': 'fIndex',
        '--dump': 'dump', '--meas': 'defaultmeasType', '--wTime': 'wTime', '--p2Dslice': 'slicepp', '--p3Def': 'endredmap', '--p3Dewkb': 'endredmapwkb', '--p3D': 'deninfa.printconf'}
REAL = {'--wDz', '--dwgam', '--frw', '--zi', '--zf', '--Rc', '--lsize', '--qcd', '--llcf', '--msa', '--ind3', '--gam', '--kcr', '--mode0', '--alpha', '--wkb', '--wTime'}
KEYS = {('--prec', 'double'): ('sPrec', 'FieldPrecision_s', 'FIELD_DOUBLE'), ('--prec', 'single'): ('sPrec', 'FieldPrecision_s', 'FIELD_SINGLE'),
        ('--device', 'cpu'): ('cDev', 'DeviceType_s', 'DEV_CPU'), ('--device', 'gpu'): ('cDev', 'DeviceType_s', 'DEV_GPU'),
        ('--prop', 'leap'): ('pType', 'PropType_s', 'PROP_LEAP'), ('--prop', 'rkn4'): ('pType', 'PropType_s', 'PROP_RKN4'), ('--prop', 'om2'): ('pType', 'PropType_s', 'PROP_OMELYAN2'),
        ('--prop', 'om4'): ('pType', 'PropType_s', 'PROP_OMELYAN4'), ('--ftype', 'saxion'): ('fTypeP', 'FieldType_s', 'FIELD_SAXION'), ('--ftype', 'axion'): ('fTypeP', 'FieldType_s', 'FIELD_AXION'),
        ('--ctype', 'kmax'): ('icdatst.cType', 'ConfType_s', 'CONF_KMAX'), ('--ctype', 'smooth'): ('icdatst.cType', 'ConfType_s', 'CONF_SMOOTH'), ('--ctype', 'vilgor'): ('icdatst.cType', 'ConfType_s', 'CONF_VILGOR')}
FLAG = {'--vqcdC': ('vqcdType', 'V_QCDC'), '--vqcdV': ('vqcdType', 'V_QCDV'), '--vqcdL': ('vqcdType', 'V_QCDL'), '--vqcd0': ('vqcdType', 'V_QCD0'), '--N2': ('vqcdType', 'V_QCD2'), '--vPQ2': ('vpqType', 'V_PQ2'),
        '--onlyrho': ('vqcdTypeEvol', 'V_EVOL_RHO'), '--onlytheta': ('vqcdTypeEvol', 'V_EVOL_THETA'), '--lowmem': ('lowmem', 1), '--mink': ('mink', 1), '--cax': ('aMod', 1), '--restart': ('restart_flag', 1),
        '--notheta': ('coSwitch2theta', 0)}
# setter of the cosmology -> its variable; the options that set the variable must raise the flag that lets it replace the snapshot's
COSMO = {'SetLambda': 'LL', 'SetQcdExp': 'nQcd', 'SetGamma': 'gammo', 'SetDecTime': 'dectime', 'SetQcdPot': 'vqcdType', 'SetPhysSize': 'sizeL', 'SetZThRes': 'zthres', 'SetZRestore': 'zrestore',
         'SetIndi3': 'indi3', 'SetFrw': 'frw', 'SetMink': 'mink', 'SetUeC': 'uexCosm', 'SetFA': 'fA'}
OPTS = {'--llcf': 'SetLambda', '--msa': 'SetLambda', '--qcd': 'SetQcdExp', '--gam': 'SetGamma', '--gamall': 'SetGamma', '--dectime': 'SetDecTime', '--vqcdC': 'SetQcdPot', '--vqcdV': 'SetQcdPot', '--vqcdL': 'SetQcdPot',
        '--vqcd0': 'SetQcdPot', '--N2': 'SetQcdPot', '--vPQ2': 'SetQcdPot', '--onlyrho': 'SetQcdPot', '--onlytheta': 'SetQcdPot', '--lsize': 'SetPhysSize', '--Rc': 'SetZThRes', '--RcOff': 'SetZRestore',
        '--ind3': 'SetIndi3', '--frw': 'SetFrw', '--mink': 'SetMink', '--fA': 'SetFA'}


class Cosmo(walk.Walk):
    """createCosmos for a fresh start or a snapshot: which setter is called with which variable under which flags"""

    def __init__(s, P, f, fresh): super().__init__(P, f); s.fresh = fresh

    def interesting(s, i): return False

    def unknown(s, p, b, i, c, y, z):
        q = p.fork(); q.truth[c.key()] = 0
        s.paths.append((q, z, b))
        p.truth[c.key()] = 1
        return b, y

    def onload(s, p, i, a):
        g = globs(a)
        if g and g[0] == 'fIndex': return C(-1 if s.fresh else 3)
        if g and s.flags is not None and g[0] in s.flags: return C(s.flags[g[0]])
        if g: return atom_poly(mk('var', g[0], g[1]))
        return None

    def value(s, p, i, name, args):
        m = re.search(r'Cosmos::(Set\w+)\(', name)
        if m: p.x['set'] = p.x.get('set', ()) + ((m.group(1), args[1], i),)
        return None


def conv_in(v, k, seen=()):
    """types of the conversions of word k that v is made of"""
    return set(re.findall(r"conv\(['\"]?(\w+)['\"]?, %d\b" % k, str(v)))


def run(ctx):
    P = program()
    fn = {n: [f for f in P.all if f.dem.startswith(n + '(')] for n in ('parseArgs', 'parseDims', 'createCosmos', 'PrintUsage')}
    for n, l in fn.items(): ctx.need(len(l) == 1, '%s not found' % n)
    fn = {n: l[0] for n, l in fn.items()}
    def member(g):
        if g is None: return None
        n, o = g
        st = {'icdatst': ICS, 'deninfa': MIS}.get(n)
        return '%s.%s' % (n, st.get(o, o)) if st else n
    ICS, MIS = layout(P, 'kMax', 'siter'), layout(P, 'printconf', 'idxprint')

    # ---- the options each parser knows
    known = {}
    for n in ('parseArgs', 'parseDims'):
        rs = Parse(P, fn[n], {1: '--no-such-option'}, 5).run()
        known[n] = [x[2] for x in rs[0].x['log'] if x[0] == 'differs']
        if n == 'parseArgs':
            for p in rs:
                ctx.cover(obligations=1)
                if not p.x.get('exit'): ctx.violation('unknown-accepted', loc(fn[n]), 'an unknown option does not end the run with a failure')
    ctx.floor('options', len(known['parseArgs']), 100)
    ctx.floor('early_options', len(known['parseDims']), 6)
    takes = {}

    def one(n, o):
        f = fn[n]
        both = n == 'parseArgs' and o in known['parseDims']     # the early parser has already dealt with it
        ways = set()
        for p in Parse(P, f, {1: o}, 5).run():
            L = p.x.get('log', ()); k0 = [k for k, x in enumerate(L) if x[0] == 'match']
            if not k0: continue
            L = L[k0[0]:]
            inst = L[0][3]
            ex = p.x.get('exit')
            ctx.cover(obligations=1, paths=1)
            used = [x for x in L if x[0] == 'use' and x[1] == 2]
            keys = [x[2] for x in L if x[0] == 'key' and x[1] == 2]
            eq = [l for l in keys if truth_eq(p, l)]
            sets = [(member(x[1]), x[2], x[3]) for x in L if x[0] == 'set']
            if ex is not None:
                if ex == 0 and o not in ('--help', '--icinfo', '--gravinfo', '--measinfo'): ctx.violation('%s/exit' % o, inst.where(), 'option %s ends the run with success' % o)
                continue
            nx = [x[1] for x in L if x[0] == 'next']
            if len(nx) != 1:
                if [x for x in L if x[0] == 'end']: ctx.violation('%s/stops-parsing' % o, inst.where(), 'after %s no further option is looked at' % o)
                continue
            ways.add(nx[0])
            if nx[0] not in (2, 3): ctx.violation('%s/consumed' % o, inst.where(), '%s skips %d words' % (o, nx[0] - 1)); continue
            stored = [t for t, v, i in sets if conv_in(v, 2)]
            if nx[0] == 2 and (stored or eq): ctx.violation('%s/value-not-skipped' % o, inst.where(), '%s uses the next word as its value and then parses that word again as an option' % o)
            if nx[0] == 3 and not used and not both: ctx.violation('%s/skips-a-word' % o, inst.where(), '%s uses no value but skips the next word' % o)
            if n == 'parseArgs' and nx[0] == 3 and keys and not eq and not [x for x in used if x[2] not in ('strcmp', 'strcasecmp', 'strncmp')]:
                ctx.violation('%s/keyword' % o, inst.where(), '%s accepts any word that is none of its keywords' % o)
            want = SPEC.get(o)
            if want and nx[0] == 3 and not both and not eq:
                kinds = set()
                for t, v, i in sets:
                    if t == want: kinds = conv_in(v, 2)
                if not kinds: ctx.violation('%s/setting' % o, inst.where(), '%s does not set %s from its value but %s' % (o, want, stored or 'nothing'))
                elif o in REAL and 'real' not in kinds: ctx.violation('%s/conversion' % o, inst.where(), '%s reads its real value as an integer' % o)
            for l in eq:
                kk = KEYS.get((o, l))
                if kk:
                    var, en, val = kk
                    val = P.enum(en)[val]
                    got = [v for t, v, i in sets if t == var]
                    ctx.cover(keywords=1)
                    if not got or not (got[0].const() == val or re.search(r'\b%d\b' % val, str(got[0]))): ctx.violation('%s/%s' % (o, l), inst.where(), '%s %s does not select %s' % (o, l, kk[2]))
            fl = FLAG.get(o)
            if fl:
                val = P.enum('VqcdType_s')[fl[1]] if isinstance(fl[1], str) else fl[1]
                got = [v for t, v, i in sets if t == fl[0]]
                if not got or got[-1].const() != val: ctx.violation('%s/setting' % o, inst.where(), '%s does not set %s to %s' % (o, fl[0], fl[1]))
            takes.setdefault(o, set()).add(nx[0] == 3)
            if o in OPTS: takes.setdefault(('flags', o), set()).update(t for t, v, i in sets if isinstance(v, sym.Poly) and v.const() == 1)
        # the option as the last word
        for p in Parse(P, f, {1: o}, 2).run():
            L = p.x.get('log', ()); k0 = [k for k, x in enumerate(L) if x[0] == 'match']
            if not k0: continue
            L = L[k0[0]:]
            ctx.cover(obligations=1)
            past = [x for x in L if x[0] == 'past' and x[1] >= 2]
            if past and not (both and not [x for x in L if x[0] == 'use' and x[1] >= 2]):
                ctx.violation('%s/missing-value' % o, past[0][-1].where(), '%s as the last word reads past the end of the command line' % o)
            elif p.x.get('exit') is None and ways == {3} and not both and not [x for x in L if x[0] == 'set']:
                ctx.violation('%s/missing-value-ignored' % o, L[0][3].where(), '%s as the last word is accepted without a value' % o)
        # an unknown word after it
        if n == 'parseArgs':
            for k in ways & {2, 3}:
                for p in Parse(P, f, {1: o, k: '--no-such-option'}, 5).run():
                    L = p.x.get('log', ())
                    ctx.cover(obligations=1)
                    if not [x for x in L if x[0] == 'differs' and x[1] == k]: continue
                    if p.x.get('exit') is None: ctx.violation('unknown-accepted', L[-1][-1].where(), 'an unknown option after %s does not end the run with a failure' % o)
        return (n, o, ways)

    def truth_eq(p, l):
        """word 2 equals l on this path"""
        k = atom_poly(mk('strcmp', 2, l))
        e = atom_poly(mk('cmp', 'eq', k.key()))
        return p.truth.get(e.key()) == 1 or p.truth.get(sub(ONE, e).key()) == 0 or p.truth.get(k.key()) == 0
    jobs = [(n, o) for n in known for o in dict.fromkeys(known[n])]
    for n, o in jobs: one(n, o)
    takes_value = {o: w for o, w in takes.items() if isinstance(o, str)}

    # ---- the help text
    help_ = {}
    for i in fn['PrintUsage'].insts():
        for q in i.ops:
            d = fn['PrintUsage'].mod.gv.get(q[1]) if isinstance(q, list) and q[0] == 'g' else None
            m = re.match(r'\s*(--\w+)\s+(\[\w+[^\]]*\]|[\w\d]+(/[\w.]+)+)?', d.get('str', '')) if d else None
            if m: help_[m.group(1)] = (m.group(2), i)
    ctx.floor('documented_options', len(help_), 60)
    for o, (val, i) in sorted(help_.items()):
        ctx.cover(obligations=1)
        if o not in known['parseArgs'] and o not in known['parseDims']:
            ctx.violation('%s/undocumented' % o, i.where(), 'the documented option %s does not exist' % o); continue
        if o in takes_value and val and True not in takes_value[o]: ctx.violation('%s/help' % o, i.where(), '%s is documented to take a value but takes none' % o)
        if o in takes_value and not val and False not in takes_value[o]: ctx.violation('%s/help' % o, i.where(), '%s is documented as a flag but takes a value' % o)

    # ---- the cosmology
    f = fn['createCosmos']
    for fresh in (True, False):
        W = Cosmo(P, f, fresh); W.flags = None
        uf = sorted(flagvars(f))
        for case in ([{}] if fresh else [{u: 0 for u in uf}] + [{w: int(w == u) for w in uf} for u in uf]):
            W = Cosmo(P, f, fresh); W.flags = case
            for p in W.run():
                ctx.cover(obligations=1)
                got = p.x.get('set', ())
                names = [g[0] for g in got]
                on = [u for u, x in case.items() if x]
                for nm, v, i in got:
                    want = COSMO.get(nm)
                    if want and want not in str(v) and not (v.const() == 1 and on == [want]): ctx.violation('cosmology/%s' % nm, i.where(), '%s is set from %s instead of %s' % (nm[3:], v, want))
                if fresh:
                    for nm in COSMO:
                        if nm not in names: ctx.violation('cosmology/%s/fresh' % nm, loc(f), 'a fresh start does not set %s' % nm[3:])
                elif not on:
                    for nm, v, i in got:
                        if nm in COSMO: ctx.violation('cosmology/%s/overrides' % nm, i.where(), '%s of a snapshot is replaced although no option asked for it' % nm[3:])
                else:
                    for nm in names: GUARD.setdefault(nm, set()).add(on[0])
    for o, nm in OPTS.items():
        ctx.cover(obligations=1)
        fl = takes.get(('flags', o), set())
        if not fl & GUARD.get(nm, set()):
            ctx.violation('cosmology/%s/%s' % (nm, o), loc(f), '%s given together with a snapshot is ignored: %s is not replaced' % (o, nm[3:]))


GUARD = {}


def flagvars(f):
    """globals createCosmos branches on"""
    out, hold = set(), {}
    for i in f.insts():
        if i.op == 'load' and isinstance(i.ops[0], list) and i.ops[0][0] == 'g': hold[i.id] = i.ops[0][1]
        elif i.op in ('trunc', 'icmp', 'and', 'or', 'xor', 'zext'):
            for q in i.ops:
                if isinstance(q, int) and q in hold: hold[i.id] = hold[q]
        elif i.op == 'br' and len(i.ops) > 1 and isinstance(i.ops[0], int) and i.ops[0] in hold: out.add(hold[i.ops[0]])
    return out - {'fIndex'}


def layout(P, *members):
    """offset -> member of the record that has these members"""
    for m in P.mods.values():
        for st in m.structs.values():
            ns = {n: o for o, sz, n, t in st['m']}
            if all(x in ns for x in members): return {o: n for n, o in ns.items()}
    raise jx.Broken('record with the members %s not found' % (members,))


def loc(f): return '%s:%d' % (f.file, f.line)
