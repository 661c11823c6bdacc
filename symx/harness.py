"""harness registry and the per-property runner"""
import importlib
import json
import os
import pickle
import re
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if LIB not in sys.path:
    sys.path.append(LIB)

REG = []
REAL = {'py': 'real-py', 'c': 'real-c', 'both': 'real-both'}


class H(object):
    def __init__(self, fn, modes, tier, opt, bounds, validate, finding, rtol, atol, weight, ns):
        self.fn, self.modes, self.tier, self.opt, self.bounds = fn, modes, tier, opt, bounds
        self.validate, self.finding = validate, finding
        self.rtol, self.atol = rtol, atol
        self.weight = weight
        self.name = fn.__name__
        self.doc = ' '.join((fn.__doc__ or '').split())


def harness(modes=('py', 'c'), tier='quick', bounds='', validate=6, finding=None, rtol=1e-6, atol=1e-9, weight=1, **opt):
    """modes: worlds the harness is proved in.  finding: id of a recorded finding this harness reproduces."""
    def deco(fn):
        REG.append(H(fn, modes, tier, opt, bounds, validate, finding, rtol, atol, weight, None))
        return fn
    return deco


class Both(object):
    """two worlds for equivalence checks: .py and .c"""

    def __init__(self, real):
        from . import load
        self.py = load.world('real-py' if real else 'py')
        self.c = load.world('real-c' if real else 'c')
        self.symbolic = not real

    @property
    def swallowed(self):
        return self.py.swallowed + self.c.swallowed

    def clear(self):
        del self.py.swallowed[:]
        del self.c.swallowed[:]


def get_world(mode, real):
    from . import load
    if mode == 'both':
        return Both(real)
    return load.world(REAL[mode] if real else mode)


def clear(w):
    if isinstance(w, Both):
        w.clear()
    else:
        del w.swallowed[:]


def bind(h, mode, real, sw=None):
    w = get_world(mode, real)
    from . import snp, load

    def run(t):
        clear(w)
        if real:
            np = load.NpProxy()
            if mode in ('c', 'both'):
                from . import build
                cr = []
                k = 0
                while 'crand#%d' % k in t.values:
                    cr.append(t.values['crand#%d' % k])
                    k += 1
                build.scratch()
                keep = build.script_rand(cr)
        else:
            np = snp.np_module
        t.mode = mode
        try:
            h.fn(t, w, np)
        finally:
            if sw is not None:
                for e in w.swallowed:
                    sw.append('%s: %s' % (e[1], e[2]))
    return run


def run_one(h, mode, tier, deadline):
    """in a child process"""
    from . import explore
    res = {'harness': h.name, 'mode': mode, 'doc': h.doc, 'bounds': h.bounds, 'finding': h.finding}
    t0 = time.time()
    opt = dict(h.opt)
    if tier == 'thorough':
        opt.update(opt.pop('thorough', {}))
    else:
        opt.pop('thorough', None)
    opt = explore.Options(**opt)
    opt.time_s = max(5, min(opt.time_s, deadline - time.time()))
    sw = []
    sym = bind(h, mode, False, sw)
    real = [None]

    def confirm(vals, expect=None):
        if real[0] is None:
            real[0] = bind(h, mode, True)
        return explore.run_concrete(real[0], vals, expect, rtol=h.rtol, atol=h.atol)

    funcs = set()
    srcdir = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src')

    def prof(frame, ev, arg):
        if ev == 'call':
            c = frame.f_code
            if c.co_filename.startswith(srcdir):
                funcs.add('%s:%s' % (os.path.relpath(c.co_filename, srcdir).replace('<translated>', ''), c.co_name))

    sys.setprofile(prof)
    try:
        out = explore.explore(sym, opt, confirm)
    finally:
        sys.setprofile(None)
    res.update(out)
    res['functions'] = sorted(f for f in funcs if not f.endswith('<lambda>') and '<module>' not in f and '>' not in f.split(':')[1])
    res['swallowed'] = sorted(set(sw))[:10]
    # validation of the encoding: the same harness on the real code with concrete inputs
    res['validation'] = {'runs': 0, 'skipped': 0, 'mismatch': []}
    if not res['violations'] and not h.finding:
        real_sw = []
        n = h.validate if not res['inconclusive'] else 40
        try:
            rh = bind(h, mode, True, real_sw)
            k = 0
            tries = 0
            while k < n and tries < 6 * n:
                vals = explore.AutoValues('%s/val%d' % (opt.seed, tries))
                tries += 1
                r = explore.run_concrete(rh, vals, rtol=h.rtol, atol=h.atol)
                if r[0] == 'skip':
                    res['validation']['skipped'] += 1
                    continue
                k += 1
                res['validation']['runs'] += 1
                if r[0] == 'violation':
                    r2 = explore.run_concrete(rh, vals, rtol=h.rtol, atol=h.atol)
                    if r2[0] == 'violation':
                        res['violations'].append({'claim': 'concrete run: ' + r[1], 'inputs': dict(vals), 'replay': r[1], 'solver': 'concrete validation run'})
                        break
                if r[0] == 'error':
                    res['validation']['mismatch'].append(r[1])
            if set(sw) - set(real_sw) and mode != 'py':
                new = [s for s in set(sw) if s.split(':')[0] not in set(x.split(':')[0] for x in real_sw)]
                if new:
                    res['inconclusive'].append('exceptions swallowed by the symbolic run but not by the real code: %s' % sorted(new)[:3])
        except Exception as e:
            res['validation']['mismatch'].append('%s: %s' % (type(e).__name__, traceback.format_exc()[-600:]))
    res['time'] = time.time() - t0
    res['rss_mb'] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    return res


def child(h, mode, tier, path, deadline):
    try:
        sys.setrecursionlimit(20000)
        import warnings
        warnings.simplefilter('ignore')
        res = run_one(h, mode, tier, deadline)
    except BaseException as e:
        res = {'harness': h.name, 'mode': mode, 'doc': h.doc, 'bounds': h.bounds, 'finding': h.finding, 'violations': [], 'functions': [], 'claims': 0, 'stats': {}, 'time': 0,
               'inconclusive': ['%s: %s' % (type(e).__name__, traceback.format_exc()[-1500:])]}
    with open(path, 'wb') as f:
        pickle.dump(json.loads(json.dumps(res, default=repr)), f)


def run_all(jobs, tier, nproc, hard):
    """fork one process per (harness, mode)"""
    import tempfile
    d = tempfile.mkdtemp(prefix='verif_')
    todo = sorted(jobs, key=lambda j: -j[0].weight)
    running = {}
    results = []
    deadline = time.time() + hard       # undecided harnesses fall back to concrete runs after this
    end = deadline + 100
    sys.stdout.flush()
    try:
        while todo or running:
            while todo and len(running) < nproc:
                h, mode = todo.pop(0)
                path = os.path.join(d, '%s.%s' % (h.name, mode))
                pid = os.fork()
                if pid == 0:
                    os.setsid()
                    try:
                        import ctypes
                        import resource
                        ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # end with the parent
                        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                        if not os.environ.get('VERIF_VERBOSE'):
                            dn = os.open('/dev/null', os.O_WRONLY)
                            os.dup2(dn, 1)
                            os.dup2(dn, 2)
                        child(h, mode, tier, path, deadline)
                    finally:
                        os._exit(0)
                running[pid] = (h, mode, path, time.time())
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid:
                h, mode, path, t0 = running.pop(pid)
                if os.path.exists(path):
                    with open(path, 'rb') as f:
                        results.append(pickle.load(f))
                    if os.environ.get('VERIF_PROGRESS'):
                        r = results[-1]
                        print('done %s[%s] %.0fs viol %d inconcl %d %s' % (h.name, mode, r['time'], len(r['violations']), len(r['inconclusive']),
                                                                        str(r['inconclusive'][:1])[:300]), flush=True)
                    if results[-1]['violations'] and not h.finding:
                        end = min(end, time.time() + 60)
                else:
                    results.append({'harness': h.name, 'mode': mode, 'doc': h.doc, 'bounds': h.bounds, 'finding': h.finding, 'violations': [], 'functions': [], 'claims': 0,
                                    'stats': {}, 'time': time.time() - t0, 'inconclusive': ['process ended with status %d' % st]})
            else:
                time.sleep(0.02)
                if time.time() > end:
                    for h, mode in todo:
                        results.append({'harness': h.name, 'mode': mode, 'doc': h.doc, 'bounds': h.bounds, 'finding': h.finding, 'violations': [], 'functions': [], 'claims': 0,
                                        'stats': {}, 'time': 0, 'inconclusive': ['not started within the time of this run']})
                    todo = []
                    for pid in running:
                        try:
                            os.killpg(pid, signal.SIGKILL)
                        except OSError:
                            pass
    finally:
        for pid in running:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return results


# ---------------------------------------------------------------------------

def known_findings(prop):
    """lines 'known: property=C05 id=<finding id> <what fails>' of /verif/known_findings.txt"""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+id=(\S+)\s+(.*)', l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--mode')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 4))
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    os.environ['VERIF_TIER'] = a.tier
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    t0 = time.time()
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('checks.%s' % prop.lower())
    regs = [h for h in REG if h.fn.__module__ == 'checks.' + prop.lower()]
    if a.replay:
        return replay(prop, regs, a.replay)
    hs = [h for h in regs if (h.tier == 'quick' or a.tier == 'thorough')]
    if a.only:
        hs = [h for h in hs if re.search(a.only, h.name)]
    jobs = [(h, m) for h in hs for m in h.modes if not a.mode or m == a.mode]
    # modules are loaded (and .pyx translated) once, before forking
    from . import load
    modes = set(m for _, m in jobs)
    if modes & {'c', 'both'}:
        from . import pyx
        for n, rel in load.EXT.items():
            try:
                p = os.path.join(load.SRC, rel)
                with open(p, 'rb') as f:
                    key = (p, hash(f.read()))
                pyx._SRC[key] = pyx.translate(p, n)
            except (Exception, load.core.Unsupported) as e:
                print('NOTE: translating %s failed: %s' % (rel, e))
    for m in sorted(modes):
        for real in (False, True):
            for n in getattr(mod, 'PRELOAD', ()):
                try:
                    ws = get_world(m, real)
                    for x in ([ws.py, ws.c] if isinstance(ws, Both) else [ws]):
                        x.load(n)
                except (Exception, load.core.Unsupported) as e:
                    print('NOTE: loading %s failed: %s' % (n, str(e)[:200]))
    hard = float(os.environ.get('VERIF_HARD_S', 0)) or getattr(mod, 'HARD_S', 600 if a.tier == 'quick' else 6 * 3600)
    results = run_all(jobs, a.tier, a.j, hard)
    known = known_findings(prop)
    nviol = 0
    lines = []
    undecided = []
    decided = 0
    bad_ce = False
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    found = []
    for r in sorted(results, key=lambda r: (r['harness'], r['mode'])):
        tag = '%s[%s]' % (r['harness'], r['mode'])
        st = r.get('stats', {})
        if a.v or a.only:
            print('%-50s claims %4s obligations %s/%s paths %s queries %s solver %.1fs total %.1fs viol %d inconcl %d swallowed %s valid %s' % (
                tag, r.get('claims'), st.get('discharged'), st.get('obligations'), st.get('paths'), st.get('queries'), st.get('solver_s', 0), r['time'], len(r['violations']),
                len(r['inconclusive']), r.get('swallowed'), r.get('validation')))
        if r.get('finding'):
            if r['violations']:
                if r['finding'] in known:
                    lines.append('KNOWN-FINDING: property=%s %s [%s, %s]' % (prop, known[r['finding']], tag, r['violations'][0]['replay'][:160]))
                    found.append({'id': r['finding'], 'inputs': r['violations'][0]['inputs'], 'claim': r['violations'][0]['replay'][:300]})
                    continue
            else:
                if a.v:
                    print('finding %s did not reproduce (%s)' % (r['finding'], '; '.join(r['inconclusive'])[:200]))
                continue
        for v in r['violations'][:1]:
            nviol += 1
            p = os.path.join(ROOT, 'evidence', 'replay', '%s_%s_%s.json' % (prop, r['harness'], r['mode']))
            with open(p, 'w') as f:
                json.dump({'property': prop, 'harness': r['harness'], 'mode': r['mode'], 'claim': v['claim'], 'inputs': v['inputs'], 'observed': v['replay'], 'solver': v['solver'],
                           'how': '/verif/check.sh %s --replay %s' % (prop, p)}, f, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (prop, p))
            lines.append('  %s: %s -- %s' % (tag, v['claim'][:200], v['replay'][:300]))
        if r['inconclusive'] and not r['violations']:
            undecided.append(tag)
            for i in r['inconclusive'][:3]:
                lines.append('INCONCLUSIVE %s %s: %s' % (prop, tag, i[:700]))
            if any('did not reproduce' in i for i in r['inconclusive']):
                bad_ce = True
        elif not r['violations']:
            decided += 1
    for l in lines:
        print(l)
    tot = lambda k: sum((r.get('stats') or {}).get(k, 0) for r in results)
    ev = {
        'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(mod, 'LEVEL', 'other'),
        'coverage': {
            'explanation': 'Bounded symbolic execution of the functions listed (from the current sources under /repo/src); every claim on every path is sent to an SMT solver (z3), '
                           'after an exact normalisation of real arithmetic. obligations = claims x paths; discharged = unsat verdicts.',
            'obligations': tot('obligations'), 'discharged': tot('discharged'), 'paths': tot('paths'), 'infeasible_paths': tot('dropped'), 'decisions': tot('decisions'),
            'queries': tot('queries'), 'queries_unsat': tot('unsat'), 'queries_sat': tot('sat'), 'queries_unknown': tot('unknown'), 'solver_s': round(tot('solver_s'), 2),
            'harnesses': [{'name': r['harness'], 'mode': r['mode'], 'claim': r['doc'], 'bounds': r['bounds'], 'paths': (r.get('stats') or {}).get('paths'),
                           'obligations': (r.get('stats') or {}).get('obligations'), 'discharged': (r.get('stats') or {}).get('discharged'),
                           'vacuity': r.get('vacuity'), 'seconds': round(r['time'], 1), 'rss_mb': r.get('rss_mb'),
                           'validation_runs_on_real_code': (r.get('validation') or {}).get('runs'), 'validation_errors': (r.get('validation') or {}).get('mismatch', [])[:2],
                           'swallowed_exceptions': r.get('swallowed', [])[:3],
                           'outcome': 'known finding' if r.get('finding') and r['violations'] else 'violation' if r['violations'] else 'undecided' if r['inconclusive'] else 'held',
                           'why_undecided': [i[:300] for i in r['inconclusive'][:2]]} for r in sorted(results, key=lambda r: (r['harness'], r['mode']))],
            'functions': sorted(set(f for r in results for f in r.get('functions', []))),
            'undecided': undecided, 'decided_harnesses': decided, 'known_findings_seen': found,
            'validation_runs': sum((r.get('validation') or {}).get('runs', 0) for r in results),
            'outside': getattr(mod, 'OUTSIDE', ''),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
        'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    if ev['level'] == 'proof':
        ev['coverage']['checker_cmd'] = 'z3 (python bindings)'
        ev['coverage']['trusted_base'] = COMMON
    if not a.only and not a.mode:
        with open(os.path.join(ROOT, 'evidence', '%s.json' % prop), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s: %d harness runs, %d held, %d undecided, %d violations; %d/%d obligations discharged on %d paths, %.1fs solver, %.1fs wall' % (
        prop, len(results), decided, len(undecided), nviol, tot('discharged'), tot('obligations'), tot('paths'), tot('solver_s'), time.time() - t0))
    if nviol:
        return 1
    if not decided:
        return 2
    return 0


COMMON = [
    'doubles are treated as exact reals with explicit inf/nan; rounding error is outside the claim (harnesses in float mode bound exp/erf arguments at the binary64 range)',
    'trusted: the symx engine (operator-overloading symbolic execution, polynomial normaliser, numpy/.pyx translation), z3',
    'compiled extensions are checked as translations of the current .pyx sources; counterexamples are replayed on freshly compiled modules',
]


def replay(prop, regs, path):
    from . import explore
    with open(path) as f:
        d = json.load(f)
    h = [h for h in regs if h.name == d['harness']][0]
    r = explore.run_concrete(bind(h, d['mode'], True), d['inputs'], rtol=h.rtol, atol=h.atol)
    print(r)
    return 1 if r[0] == 'violation' else 0
