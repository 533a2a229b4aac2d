"""Runs one property's static check, compares what it reports with the known findings, writes the evidence."""
import importlib, json, os, re, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib')); sys.path.insert(0, os.path.join(VERIF, 'checks'))
import jx

KF = os.path.join(VERIF, 'known_findings.txt')


class Ctx:
    def __init__(s, pid, tier, seed):
        s.pid, s.tier, s.seed = pid, tier, seed
        s.viol, s.cov, s.notes = [], {}, []
        s.t0 = time.time()

    def violation(s, key, where, msg, **extra):
        """key: identifies the construct without line numbers; where: file:line; msg: what is wrong"""
        s.viol.append(dict(key=key, where=where, msg=msg, **extra))

    def cover(s, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool) and isinstance(s.cov.get(k), int):
                s.cov[k] += v
            elif isinstance(v, list) and isinstance(s.cov.get(k), list):
                s.cov[k] += v
            elif isinstance(v, dict) and isinstance(s.cov.get(k), dict):
                for q, x in v.items():
                    s.cov[k][q] = s.cov[k][q] + x if isinstance(x, int) and isinstance(s.cov[k].get(q), int) else x
            else:
                s.cov[k] = v

    def need(s, cond, what):
        """an anchor or obligation the analysis depends on; when it is missing the check gives no verdict"""
        if not cond:
            raise jx.Broken(what)

    def floor(s, name, n, least):
        """instances found must not silently collapse"""
        s.cover(**{name: n})
        if n < least:
            raise jx.Broken('%s: only %d found, at least %d expected: the analysis no longer sees the code it should' % (name, n, least))


    def par(s, items, fn, workers=None):
        """fn(item) for every item in forked workers; returns the results in order, violations and coverage merged"""
        import pickle, threading
        items = list(items)
        n = min(workers or (os.cpu_count() or 4), len(items), 8)
        if n <= 1: return [fn(x) for x in items]
        import sym
        kids = []
        nxt = [0]
        # static round robin: deterministic
        for w in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    s.viol, s.cov = [], {}
                    res, err = [], None
                    def work():
                        nonlocal err
                        try:
                            for k in range(w, len(items), n): res.append((k, fn(items[k])))
                        except jx.Broken as e: err = ('broken', str(e))
                        except Exception: err = ('internal', traceback.format_exc())
                    sym.run_big_stack(work)
                    with os.fdopen(wr, 'wb') as f: pickle.dump((res, s.viol, s.cov, err), f)
                    sys.stdout.flush()
                except BaseException:
                    traceback.print_exc(); code = 1
                os._exit(code)
            os.close(wr)
            kids.append((pid, r))
        out, err = {}, None
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f: data = f.read()
            os.waitpid(pid, 0)
            if not data: raise RuntimeError('worker died')
            res, viol, cov, e = pickle.loads(data)
            err = err or e
            out.update(res)
            s.viol += viol
            s.cover(**cov)
        if err:
            if err[0] == 'broken': raise jx.Broken(err[1])
            raise RuntimeError(err[1])
        return [out[k] for k in range(len(items))]


def known(pid):
    out = {}
    if os.path.exists(KF):
        for l in open(KF):
            m = re.match(r'KNOWN property=(\w+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main(argv):
    pid = argv[1]
    tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(pid, tier, seed)
    ctx.verbose = '-v' in argv
    mod = importlib.import_module(pid.lower())
    try:
        mod.run(ctx)
    except jx.Broken as e:
        print('ERROR property=%s cannot analyse: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s internal error of the analysis' % pid)
        return 2
    kn = known(pid)
    seen, new, listed = set(), [], []
    for v in ctx.viol:
        if v['key'] in seen: continue
        seen.add(v['key'])
        (listed if v['key'] in kn else new).append(v)
    for k in sorted({v['key'] for v in listed}):
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    cov = dict(ctx.cov)
    cov.setdefault('explanation', mod.EXPLANATION)
    cov['rules'] = getattr(mod, 'RULES', [])
    cov['violations'] = [dict(key=v['key'], where=v['where'], msg=v['msg']) for v in new]
    cov['known_findings_reported'] = sorted({v['key'] for v in listed})
    if hasattr(mod, 'evidence'):
        mod.evidence(ctx, cov)
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'other'), coverage=cov,
              wall_s=round(time.time() - ctx.t0, 2))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if new:
        rp = os.path.join(VERIF, 'evidence', 'replay', pid + '.json')
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1)
        for v in new:
            print('%s: [%s] %s  (%s)' % (v['where'], pid, v['msg'], v['key']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s tier=%s %.1fs %s' % (pid, tier, time.time() - ctx.t0,
          ' '.join('%s=%s' % (k, v) for k, v in sorted(ctx.cov.items()) if isinstance(v, int))))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
