"""Run the checks.

  run.py check ID [--tier quick|thorough]     decide one property on /repo's tree
  run.py replay FILE                          re-run one recorded counterexample
"""
import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

REPO_DIR = os.environ.get('HAPUA_REPO', '/repo')

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

PY = sys.executable
WORKERS = int(os.environ.get('SYMX_WORKERS', '8'))


def load_harness(pid):
    path = os.path.join(ROOT, 'harnesses', pid + '.py')
    spec = importlib.util.spec_from_file_location('harness_' + pid, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules['harness_' + pid] = m
    hd = os.path.join(ROOT, 'harnesses')
    if hd not in sys.path:
        sys.path.insert(0, hd)
    spec.loader.exec_module(m)
    return m


# --------------------------------------------------------------- symbolic --

_W = {}


def _worker_init(pid, tier):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    sys.setrecursionlimit(20000)
    m = load_harness(pid)
    _W['mod'] = m
    _W['cases'] = m.cases(tier)
    _W['tier'] = tier


def run_path(case, prefix, opts, deadline):
    """One path. Returns (result dict, alternative prefixes)."""
    from symx import core, harness
    stats = core.Stats()
    E = core.Engine(prefix, stats, feas_ms=opts.get('feas_ms', 1500),
                    max_decisions=opts.get('max_decisions', 3000), deadline=deadline,
                    name_div=opts.get('name_div', False), loose=opts.get('loose', False))
    X = harness.SymX(E, opts)
    res = {'status': 'ok', 'found': [], 'undecided': [], 'labels': {}, 'reached': [], 'why': '',
           'witness': None}
    core.Engine.cur = E
    name, fn, kw = case
    try:
        fn(X, **kw)
        stats.paths += 1
    except core.PathAbort:
        res['status'] = 'aborted'
        stats.aborted += 1
    except core.Unsupported as e:
        res['status'] = 'unsupported'
        res['why'] = 'unsupported: %s' % e + _where()
        stats.unsupported += 1
    except core.BoundExceeded as e:
        res['status'] = 'bound'
        res['why'] = str(e)
        stats.bound_exceeded += 1
    except core.TimeUp:
        res['status'] = 'timeup'
        stats.timeup += 1
    except RecursionError:
        res['status'] = 'unsupported'
        res['why'] = 'recursion limit'
        stats.unsupported += 1
    except Exception as e:
        res['status'] = 'crash'
        stats.paths += 1
        res['why'] = '%s: %s' % (type(e).__name__, str(e)[:200])
        res['trace'] = traceback.format_exc()[-3000:]
        try:
            cex = X.make_cex(core.z3.BoolVal(True), 'crash')
        except BaseException as e2:       # solver trouble while building the model
            cex = None
            res['why'] += ' / ' + repr(e2)[:100]
        label = 'crash:%s' % type(e).__name__
        if cex is None and E.lin_dead():       # a branch that no input takes
            res['status'] = 'aborted'
            stats.paths -= 1
            stats.aborted += 1
        elif cex is not None:
            cex['label'] = label
            X.found.append(cex)
        else:
            X.undecided.append(label)
    try:
        if res['status'] == 'ok' and opts.get('want_witness') and not X.found:
            res['witness'] = X.witness()
    except (core.Unsupported, core.z3.Z3Exception, core.TimeUp):
        pass
    finally:
        core.Engine.cur = None
    for c in X.found:
        c['incomplete'] = sorted(set(E.incomplete))
    res['found'] = X.found
    res['undecided'] = X.undecided
    res['labels'] = X.labels
    res['reached'] = sorted(X.reached)
    res['incomplete'] = sorted(set(E.incomplete))
    res['approx'] = sorted(set(E.approx))
    if res['status'] == 'timeup':
        pend = [prefix]
    else:
        pend = E.pending
    return res, pend, stats


def _where():
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    t = [f for f in fr if '/hapuamod/' in f.filename]
    return ' at %s:%d' % (os.path.basename(t[-1].filename), t[-1].lineno) if t else ''


def run_chunk(args):
    ci, prefixes, budget, deadline, want = args
    from symx import core
    case = _W['cases'][ci]
    opts = dict(getattr(_W['mod'], 'OPTS', {}))
    t0 = time.time()
    stats = core.Stats()
    out = {'ci': ci, 'results': [], 'left': []}
    stack = list(prefixes)
    n = 0
    while stack and (time.time() - t0 < budget or n == 0) and time.time() < deadline:
        p = stack.pop()
        opts['want_witness'] = n < want
        try:
            res, pend, st = run_path(case, p, opts, deadline)
        except MemoryError:
            res, pend, st = {'status': 'unsupported', 'why': 'out of memory', 'found': [],
                             'undecided': [], 'labels': {}, 'reached': [], 'witness': None,
                             'incomplete': [], 'approx': []}, [], core.Stats()
        stats.merge(st)
        out['results'].append(res)
        stack += pend
        n += 1
        if res['status'] == 'timeup':
            break
    out['left'] = stack
    out['stats'] = stats.__dict__
    return out


# ----------------------------------------------------------------- replay --

class _Hang(BaseException):
    pass


def _alarm(*a):
    raise _Hang()


def replay_items(pid, tier, items):
    """Run counterexamples on the real code (this process imports no symbolic module)."""
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings('ignore')
    m = load_harness(pid)
    cases = {c[0]: c for c in m.cases(tier)}
    from symx import harness
    outs = []
    signal.signal(signal.SIGALRM, _alarm)
    import numpy as np
    for it in items:
        name, fn, kw = cases[it['case']]
        X = harness.ConcX(it['cex'])
        r = {'status': 'ok', 'failed': [], 'observed': [], 'why': ''}
        np.seterr(all='ignore')
        signal.alarm(int(getattr(m, 'REPLAY_S', 20)))
        try:
            fn(X, **kw)
        except harness.SkipReplay as e:
            r['status'], r['why'] = 'skip', str(e)
        except _Hang:
            r['status'], r['why'] = 'hang', 'no answer in time'
        except Exception as e:
            r['status'] = 'crash'
            r['why'] = '%s: %s' % (type(e).__name__, str(e)[:300])
            tb = traceback.extract_tb(sys.exc_info()[2])
            r['where'] = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb][-4:]
        finally:
            signal.alarm(0)
            for f in getattr(X, 'scratch', []):
                f.close()
        if X.failed and r['status'] in ('ok', 'skip'):
            r['status'] = 'failed'
        r['failed'] = X.failed[:20]
        r['checked'] = X.checked
        obs = []
        for n, v in X.observed:
            try:
                obs.append((n, bool(v) if isinstance(v, (bool, np.bool_)) else float(v)))
            except (TypeError, ValueError):
                pass
        r['observed'] = obs
        outs.append(r)
    return outs


def replay_subprocess(pid, tier, items, timeout):
    if not items:
        return []
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        fi, fo = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        with open(fi, 'w') as f:
            json.dump(items, f)
        try:
            p = subprocess.run([PY, os.path.join(HERE, 'run.py'), 'replaybatch', pid, fi, fo, '--tier', tier],
                               timeout=timeout, capture_output=True, text=True, cwd=d)
        except subprocess.TimeoutExpired:
            return [{'status': 'skip', 'why': 'replay timed out', 'failed': [], 'observed': []}] * len(items)
        if not os.path.exists(fo):
            return [{'status': 'skip', 'why': 'replay process failed: ' + p.stderr[-400:], 'failed': [],
                     'observed': []}] * len(items)
        with open(fo) as f:
            return json.load(f)


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= 1e-6 + 1e-5 * max(abs(a), abs(b))


# ---------------------------------------------------------- known findings --

def known_findings(pid):
    out = []
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            head, _, what = line.partition(' :: ')
            kv = dict(t.split('=', 1) for t in head.split()[1:])
            if kv.get('property') == pid:
                out.append({'case': kv.get('case', '*'), 'label': kv.get('label', '*'), 'what': what})
    return out


def match_known(kf, case, label):
    import fnmatch
    for k in kf:
        if fnmatch.fnmatchcase(case, k['case']) and fnmatch.fnmatchcase(label, k['label']):
            return k
    return None


# ------------------------------------------------------------------- check --

def check(pid, tier):
    t_start = time.time()
    m = load_harness(pid)
    cases = m.cases(tier)
    budget = getattr(m, 'BUDGET', {}).get(tier, 60 if tier == 'quick' else 600)
    if os.environ.get('SYMX_BUDGET'):
        budget = float(os.environ['SYMX_BUDGET'])
    deadline = t_start + budget
    from symx import core
    stats = core.Stats()
    only = os.environ.get('SYMX_CASE')
    queue = [(ci, [[]]) for ci in range(len(cases)) if not only or only in cases[ci][0]]
    per_case = {c[0]: {'paths': 0, 'unsupported': {}, 'undecided': {}, 'left': 0, 'crash': {}, 'aborted': 0}
                for c in cases}
    labels, reached = {}, set()
    cexs, witnesses = {}, []
    incomplete, approx = {}, {}
    wcount = {}
    wmax = getattr(m, 'WITNESSES', 12 if tier == 'quick' else 60)
    hit_labels = {}
    ctx = mp.get_context('fork')
    pool = ctx.Pool(WORKERS, _worker_init, (pid, tier))
    try:
        running = []
        while queue or running:
            now = time.time()
            while queue and len(running) < WORKERS + 2 and now < deadline:
                ci, pref = queue.pop(0)
                want = 1 if wcount.get(ci, 0) < wmax else 0
                if want:
                    wcount[ci] = wcount.get(ci, 0) + 1
                running.append(pool.apply_async(run_chunk, ((ci, pref, 1.5, deadline, want),)))
            done = [r for r in running if r.ready()]
            if not done:
                if now > deadline + 40:
                    break
                if now > deadline and not running:
                    break
                time.sleep(0.01)
                continue
            for r in done:
                running.remove(r)
                o = r.get()
                name = cases[o['ci']][0]
                pc = per_case[name]
                s = core.Stats()
                s.__dict__.update(o['stats'])
                stats.merge(s)
                for res in o['results']:
                    if res['status'] in ('ok', 'crash'):
                        pc['paths'] += 1
                    if res['status'] == 'aborted':
                        pc['aborted'] += 1
                    if res['status'] in ('unsupported', 'bound'):
                        pc['unsupported'][res['why']] = pc['unsupported'].get(res['why'], 0) + 1
                    for l, k in res['labels'].items():
                        labels[l] = labels.get(l, 0) + k
                    for l in res['undecided']:
                        pc['undecided'][l] = pc['undecided'].get(l, 0) + 1
                    reached.update(res['reached'])
                    for l in res['incomplete']:
                        incomplete[l] = incomplete.get(l, 0) + 1
                    for l in res['approx']:
                        approx[l] = approx.get(l, 0) + 1
                    for c in res['found']:
                        key = (name, c['label'])
                        lst = cexs.setdefault(key, [])
                        c['why'] = res['why']
                        c['tb'] = res.get('trace', '')
                        lst.append(c)
                    if res['witness'] is not None:
                        witnesses.append((name, res['witness']))
                left = o['left']
                if left:
                    # share the remaining prefixes out (shortest first: biggest subtrees)
                    left.sort(key=len)
                    k = min(len(left), 4)
                    for i in range(k):
                        queue.append((o['ci'], left[i::k]))
            if time.time() > deadline:
                for ci, pref in queue:
                    per_case[cases[ci][0]]['left'] += len(pref)
                queue = []
            # stop early once enough counterexamples are in hand
            if sum(len(v) for v in cexs.values()) > 400:
                for ci, pref in queue:
                    per_case[cases[ci][0]]['left'] += len(pref)
                queue = []
    finally:
        pool.terminate()
        pool.join()

    # ---- replay counterexamples and witnesses on the real code
    items, meta = [], []
    for (name, label), lst in sorted(cexs.items()):
        lst.sort(key=lambda c: (-c['eps'], bool(c['incomplete'])))
        for c in lst[:4]:
            items.append({'case': name, 'cex': c})
            meta.append(('cex', name, label, c))
    for name, w in witnesses:
        items.append({'case': name, 'cex': w})
        meta.append(('wit', name, None, w))
    outs = []
    CH = max(1, (len(items) + WORKERS - 1) // WORKERS)
    if items:
        from concurrent.futures import ThreadPoolExecutor
        chunks = [items[i:i + CH] for i in range(0, len(items), CH)]
        with ThreadPoolExecutor(WORKERS) as ex:
            for r in ex.map(lambda ch: replay_subprocess(pid, tier, ch, 200), chunks):
                outs += r
    kf = known_findings(pid)
    violations, knowns, spurious, mismatches = [], {}, [], []
    confirmed = set()
    validated = 0
    for (kind, name, label, c), r in zip(meta, outs):
        bad = r['status'] in ('failed', 'crash', 'hang')
        if kind == 'cex':
            if bad:
                lab = label
                fl = [f[0] for f in r['failed']]
                if label not in fl and not (label.startswith('crash') and r['status'] == 'crash'):
                    lab = fl[0] if fl else ('crash' if r['status'] == 'crash' else 'hang')
                k = match_known(kf, name, lab)
                if k is not None:
                    knowns[k['what']] = knowns.get(k['what'], 0) + 1
                elif (name, lab) not in confirmed:
                    confirmed.add((name, lab))
                    violations.append({'case': name, 'label': lab, 'cex': c, 'replay': r})
            else:
                spurious.append({'case': name, 'label': label, 'cex': c, 'replay': r})
        else:
            if r['status'] == 'skip':
                stats.validation_skipped += 1
                continue
            if bad:
                lab = r['failed'][0][0] if r['failed'] else r['status']
                if match_known(kf, name, lab) is not None:
                    continue
                if c['eps'] >= 1e-5 and (name, lab) not in confirmed:
                    confirmed.add((name, lab))
                    violations.append({'case': name, 'label': lab, 'cex': c, 'replay': r})
                continue
            if c['eps'] < 1e-5 or not c['refined']:
                stats.validation_skipped += 1
                continue
            real = dict(r['observed'])
            diff = [(n, v, real[n]) for n, v in c['observed'] if n in real and not same(v, real[n])]
            if diff:
                mismatches.append({'case': name, 'diff': diff[:4], 'cex': {k: c[k] for k in ('values', 'choices', 'eps')}})
                stats.mismatch += 1
            else:
                validated += 1
    stats.validated = validated
    spurious = [s for s in spurious if (s['case'], s['label']) not in confirmed]

    rdir = os.path.join(ROOT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for i, v in enumerate(violations[:25]):
        path = os.path.join(rdir, '%s-%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, **v}, f, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        v['path'] = path

    # ---- report
    wall = time.time() - t_start
    required = getattr(m, 'REQUIRED', [])
    missing = [l for l in required if not any(k == l or k.startswith(l + '[') for k in labels) and l not in reached]
    undecided = {n: d['undecided'] for n, d in per_case.items() if d['undecided']}
    unsup = {n: d['unsupported'] for n, d in per_case.items() if d['unsupported']}
    empty = [n for n, d in per_case.items() if d['aborted'] and not d['paths'] and not d['unsupported'] and not d['left']
             and not any(v['case'] == n for v in violations)]
    left = {n: d['left'] for n, d in per_case.items() if d['left']}
    samples = [{'case': n, 'inputs': w['values'], 'choices': w['choices']} for n, w in witnesses[:5]]
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking',
        'coverage': {
            'states': max(1, stats.paths), 'transitions': max(1, stats.decisions),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'note': 'no witness'}],
            'functions_encoded': m.FUNCS, 'bounds': m.BOUNDS,
            'cases': len(cases), 'paths': stats.paths, 'forks': stats.forks,
            'paths_cut_by_assumptions': stats.aborted,
            'property_queries': stats.prop_queries, 'property_queries_proved': stats.proved,
            'property_queries_undecided': stats.unknown, 'feasibility_queries': stats.feas_queries,
            'solver_s': round(stats.solver_s, 2), 'solver': 'z3 %s, cvc5' % core.z3.get_version_string(),
            'checks_by_label': _group(labels), 'undecided': undecided, 'unsupported_paths': unsup,
            'unexplored_prefixes_at_deadline': left, 'cases_without_paths': empty,
            'paths_using_uninterpreted_functions': approx, 'under_approximated_paths': incomplete,
            'encoding_mismatches': mismatches[:5], 'validation_skipped': stats.validation_skipped,
            'unreproduced_counterexamples': [
                {'case': s['case'], 'label': s['label'], 'eps': s['cex']['eps'],
                 'replay': s['replay']['status'] + ' ' + s['replay'].get('why', '')} for s in spurious[:10]],
            'known_findings_reproduced': knowns,
        },
        'assumptions': list(getattr(m, 'ASSUMPTIONS', [])) + [
            'real arithmetic stands for double arithmetic; equalities are decided exactly or within the stated tolerance',
            'tanh, exp, log and powers with a symbolic exponent are uninterpreted with sign, bound and monotonicity facts'],
        'wall_s': round(wall, 2),
        'violations': [{'case': v['case'], 'label': v['label'], 'replay': v.get('path', '')} for v in violations],
    }
    edir = os.path.join(ROOT, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d paths (%d cut), %d property queries: %d proved, %d undecided; '
          'solver %.1f s, wall %.1f s; %d traces validated, %d mismatches' %
          (pid, tier, len(cases), stats.paths, stats.aborted, stats.prop_queries, stats.proved,
           stats.unknown, stats.solver_s, wall, validated, stats.mismatch))
    if empty:
        print('  every path cut by assumptions: %s' % empty)
    if left:
        print('  not explored within the time budget: %s' % left)
    for n, d in unsup.items():
        print('  unsupported in %s: %s' % (n, d))
    for n, d in undecided.items():
        print('  undecided in %s: %s' % (n, d))
    for s in spurious[:10]:
        print('  counterexample not reproduced on the real code: %s %s eps=%g (%s %s) %s' % (
            s['case'], s['label'], s['cex']['eps'], s['replay']['status'], s['replay'].get('why', ''),
            s['cex'].get('why', '')))
        if os.environ.get('SYMX_DEBUG'):
            print(s['cex']['values'], s['cex']['choices'], s['cex'].get('tb', ''))
    for x in mismatches[:5]:
        print('  encoding differs from the real code: %s' % x)
    for what in knowns:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    for v in violations[:25]:
        print('  %s: %s  %s %s' % (v['case'], v['label'], v['replay']['status'],
                                   v['replay'].get('why') or v['replay']['failed'][:3]))
    for l in lines:
        print(l)
    sys.stdout.flush()
    if violations:
        return 1
    if missing:
        print('INCONCLUSIVE: nothing was decided for %s' % missing)
        return 2
    if stats.proved == 0:
        print('INCONCLUSIVE: no query was decided')
        return 2
    return 0


def _group(labels):
    out = {}
    for l, k in labels.items():
        b = l.split('[')[0]
        out[b] = out.get(b, 0) + k
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'replaybatch', 'selftest'])
    ap.add_argument('args', nargs='*')
    ap.add_argument('--tier', default='quick')
    a = ap.parse_args()
    if a.cmd == 'check':
        sys.exit(check(a.args[0], a.tier))
    if a.cmd == 'selftest':
        # nothing to build: only see that the solvers and the code under test are there
        from symx import core
        x = core.z3.Real('x')
        sol = core.z3.Solver()
        sol.add(x * x == 2, x > 0)
        ok = str(sol.check()) == 'sat'
        ok = ok and os.path.isdir(REPO_DIR)
        print('z3 %s, code under test in %s: %s' % (core.z3.get_version_string(), REPO_DIR, 'ok' if ok else 'FAILED'))
        sys.exit(0 if ok else 2)
    if a.cmd == 'replaybatch':
        pid, fi, fo = a.args
        outs = replay_items(pid, a.tier, json.load(open(fi)))
        with open(fo, 'w') as f:
            json.dump(outs, f)
        sys.stdout.flush()
        os._exit(0)
    rec = json.load(open(a.args[0]))
    out = replay_items(rec['property'], rec.get('tier', 'quick'), [{'case': rec['case'], 'cex': rec['cex']}])[0]
    print(json.dumps({k: out[k] for k in ('status', 'why', 'failed')}, indent=1))
    sys.exit(0 if out['status'] == 'ok' else 1)


if __name__ == '__main__':
    main()
