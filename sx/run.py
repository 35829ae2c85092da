"""Decide one property:  run.py ID [quick|thorough] [--case SUBSTR] [-v]"""
import ast
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import tempfile
import threading
import shutil
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV_Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.path[:0] = [VERIF]
sys.path.append(VENV_Z3)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

PATH_SECONDS = 60
# how long a task may run on after its deadline
GRACE = int(os.environ.get('VERIF_GRACE', '150'))
# how long to go on after a reproduced violation
AFTER_FIRST = int(os.environ.get('VERIF_AFTER_FIRST', '60'))
_state = {}


class Replayer:
    def __init__(self):
        self.proc = None
        self.runs = 0
        self.seconds = 0.0

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        self.proc = subprocess.Popen(
            [sys.executable, os.path.join(VERIF, 'sx', 'replay.py'),
             '--serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True, env=env)

    def run(self, req):
        t0 = time.perf_counter()
        for attempt in (1, 2):
            if self.proc is None:
                self.start()
            try:
                self.proc.stdin.write(json.dumps(req) + '\n')
                self.proc.stdin.flush()
                line = self.proc.stdout.readline()
                if line:
                    break
            except OSError:
                pass
            self.proc.kill()
            self.proc.wait()
            self.proc = None
        else:
            # The process dies on this input.
            line = json.dumps({'log': [['survives', False,
                                        'the process died']], 'err': None})
        self.runs += 1
        self.seconds += time.perf_counter() - t0
        return json.loads(line)


def worker_init():
    from sx import loader, files     # noqa: registers the models
    finder = loader.Finder(REPO, 'dsch')
    finder.install()
    pf = loader.Finder(VERIF, 'props')
    pf.install()
    _state['finder'] = finder
    _state['replayer'] = Replayer()


def _alarm(*a):
    from sx import engine
    p = engine.CURRENT
    if p is not None:
        p.stop(engine.PathLimit('path took more than %d s' % PATH_SECONDS))


def run_task(job):
    try:
        return _run_task(job)
    except Exception:
        return {'task': job['task'], 'error': traceback.format_exc()}


def _run_task(job):
    import importlib
    from sx import engine, loader, symapi, values
    import z3
    prop, case, params, tier = (job['prop'], job['case'], job['params'],
                                job['tier'])
    z3.set_param('smt.random_seed', job['seed'])
    mod = importlib.import_module('props.' + prop.lower())
    fn = [c['fn'] for c in mod.CASES if c['name'] == case][0]
    rep = _state['replayer']
    loader.ENTERED.clear()
    eng = engine.Engine(max_paths=job['max_paths'] or 20000,
                        max_decisions=job['max_decisions'] or 1500,
                        deadline=job['deadline'])
    out = {'task': job['task'], 'paths': 0, 'ok': 0, 'infeasible': 0,
           'undecided': [], 'labels': {}, 'violations': [], 'unreproduced': [],
           'divergent': [], 'replays': 0, 'rejected': 0, 'sample': None,
           'transitions': 0, 'hangs': 0}
    t0 = time.time()
    seen_viol = set()
    known = known_findings()

    def run(path):
        _state['finder'].purge()
        values.HASHES.clear()
        dirs = []

        def tmpfn():
            dirs.append(tempfile.mkdtemp(prefix='sxs_'))
            return dirs[-1]
        E = symapi.Symbolic(path, tmpfn, tier)
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(PATH_SECONDS)
        try:
            fn(E, **params)
        except symapi.Base.Skip:
            pass
        except engine.Control:
            raise
        except Exception as e:
            if path.pending is not None:
                raise path.pending
            path.labels.append('unexpected:' + type(e).__name__)
            path.fail('unexpected:' + type(e).__name__,
                      traceback.format_exc()[-1500:], path.get_model())
        finally:
            signal.alarm(0)
            for d in dirs:
                shutil.rmtree(d, ignore_errors=True)

    def replay(inputs):
        out['replays'] += 1
        r = rep.run({'prop': prop, 'case': case, 'params': params,
                     'inputs': inputs, 'tier': tier})
        if r['err'] == 'hang':
            out['hangs'] += 1
        if r['err'] and r['err'].startswith('rejected'):
            out['rejected'] += 1
        bad = [x for x in r['log'] if not x[1]]
        for label, _, info in bad:
            if label not in seen_viol:
                seen_viol.add(label)
                out['violations'].append({'label': label, 'info': info,
                                          'inputs': inputs})
                if (prop, '%s/%s' % (job['task'], label)) not in known:
                    eng.deadline = min(eng.deadline, time.time()
                                       + AFTER_FIRST)
        return r, bad

    stop = False
    for res in eng.explore(run):
        p = res['path']
        if res['status'] == 'infeasible' and not p.cex:
            out['infeasible'] += 1
            continue
        out['paths'] += 1
        out['transitions'] += len(p.trail) + len(p.labels)
        for l in p.labels:
            out['labels'][l] = out['labels'].get(l, 0) + 1
        for c in p.cex:
            if c['label'] in seen_viol:
                continue
            r, bad = replay(c['witness'])
            if not bad:
                out['unreproduced'].append(
                    {'label': c['label'], 'info': str(c['info'])[-900:],
                     'inputs': c['witness'], 'err': r['err']})
        if res['status'] == 'ok':
            out['ok'] += 1
            if not p.cex:
                w = p.witness(p.get_model())
                r, bad = replay(w)
                if out['sample'] is None or len(str(w)) > len(
                        str(out['sample']['inputs'])) and len(str(w)) < 400:
                    out['sample'] = {'task': job['task'], 'inputs': w,
                                     'asserted': len(p.labels)}
                if not bad and [x[0] for x in r['log']] != p.labels:
                    out['divergent'].append({
                        'inputs': w, 'model': p.labels[-6:],
                        'real': [x[0] for x in r['log']][-6:],
                        'err': r['err']})
        elif res['status'] != 'infeasible':
            out['undecided'].append(res['reason'])
            n = len(out['undecided'])
            if n <= 60 or p.spread and n < 3000 or n % 20 == 0:
                extra = 3 if n < 20 else 0
                try:
                    ws = p.witnesses(extra)
                except engine.Control:
                    ws = []
                for w in ws:
                    replay(w)
        if len(out['violations']) >= 4 or out['hangs'] >= 2:
            eng.truncated = 'stopped after violations'
            stop = True
        if len(out['unreproduced']) >= 40:
            eng.truncated = 'stopped after unreproduced counterexamples'
            stop = True
        if stop:
            break
    trunc = eng.truncated
    out['truncated'] = trunc
    out['left'] = len(eng.worklist)
    out['stats'] = eng.stats.as_dict()
    out['replay_s'] = rep.seconds
    rep.seconds = 0.0
    out['wall_s'] = time.time() - t0
    out['functions'] = sorted(k for k in loader.ENTERED
                              if k.startswith('dsch'))
    return out


def harness_labels(mod, prop):
    """Labels of all assertions in the harness files."""
    labels = set()
    nodes = []
    for name in [prop.lower()] + getattr(mod, 'LABEL_FILES', []):
        with open(os.path.join(VERIF, 'props', name + '.py')) as f:
            nodes += ast.walk(ast.parse(f.read()))
    for n in nodes:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr == 'check' and n.args and \
                isinstance(n.args[0], ast.Constant):
            labels.add(n.args[0].value)
    return labels


def known_findings():
    """{(property, key): text} of the recorded, unrepaired defects."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: '):
                    _, prop, key, text = line.split(' ', 3)
                    out[(prop.split('=')[1], key.split('=', 1)[1])] = text
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?',
                    default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default='')
    ap.add_argument('-j', type=int, default=os.cpu_count() or 4)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args(argv)
    prop, tier = args.prop, args.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 420 if tier == 'quick' else 5400

    import importlib
    from sx.case import tasks
    mod = importlib.import_module('props.' + prop.lower())
    for n in [n for n in sys.modules if n.split('.')[0] == 'props']:
        del sys.modules[n]
    jobs = []
    for c, name, params in tasks(mod.CASES, tier):
        if args.case in name:
            jobs.append({'prop': prop, 'case': c['name'], 'task': name,
                         'params': params, 'tier': tier, 'seed': seed,
                         'max_paths': c['max_paths'],
                         'max_decisions': c['max_decisions'],
                         'deadline': t0 + budget})
    results = []
    nproc = max(1, min(args.j, len(jobs)))
    ctx = multiprocessing.get_context('fork')
    from sx import loader, files     # noqa: an error here must end the run
    pool = ctx.Pool(nproc, worker_init)
    try:
        known = known_findings()
        it = pool.imap_unordered(run_task, jobs, 1)
        stop_at = None
        # Tasks end by themselves at their deadline; this is for workers that
        # died or are stuck in the solver.
        last = t0 + budget + GRACE
        workers = {p.pid for p in pool._pool}
        lost = 0
        while len(results) + lost < len(jobs):
            try:
                r = it.next(5)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                now = {p.pid for p in pool._pool}
                lost += len(now - workers)
                workers |= now
                if stop_at is not None and time.time() > stop_at:
                    print('NOTE: stopped %d s after the first violation'
                          % AFTER_FIRST)
                    break
                if time.time() > last:
                    print('NOTE: stopped at the time limit')
                    break
                continue
            results.append(r)
            if args.v:
                show(r)
            if stop_at is None and any(
                    (prop, '%s/%s' % (r['task'], v['label'])) not in known
                    for v in r.get('violations', [])):
                stop_at = time.time() + AFTER_FIRST
    finally:
        end_pool(pool)
    done = {r['task'] for r in results}
    missing = [j['task'] for j in jobs if j['task'] not in done]
    return report(mod, prop, tier, seed, results, missing, time.time() - t0,
                  args)


def end_pool(pool):
    """Like terminate() and join(), which may block after a worker died."""
    pids = [p.pid for p in pool._pool]
    t = threading.Thread(target=pool.terminate, daemon=True)
    t.start()
    t.join(10)
    if t.is_alive():
        for pid in pids + [p.pid for p in pool._pool]:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass


def show(r):
    if 'error' in r:
        print(r['task'], 'ERROR', r['error'])
        return
    print('%-60s paths %d ok %d inf %d und %d viol %d unrep %d div %d q %d '
          'solver %.1fs replay %.1fs wall %.1fs %s' % (
              r['task'][:60], r['paths'], r['ok'], r['infeasible'],
              len(r['undecided']), len(r['violations']),
              len(r['unreproduced']), len(r['divergent']),
              r['stats']['queries'], r['stats']['solver_s'], r['replay_s'],
              r['wall_s'], r['truncated'] or ''))
    for u in sorted(set(r['undecided'])):
        print('   undecided x%d: %s' % (r['undecided'].count(u), u))
    for v in r['violations']:
        print('   VIOL', v['label'], v['inputs'], v['info'][-700:])
    seen = set()
    for v in r['unreproduced']:
        if v['label'] in seen:
            continue
        seen.add(v['label'])
        print('   UNREPRODUCED', v['label'], v['inputs'], v['err'],
              v['info'][-350:])
    for v in r['divergent'][:3]:
        print('   DIVERGENT', v)
    sys.stdout.flush()


def report(mod, prop, tier, seed, results, missing, wall, args):
    errors = [r for r in results if 'error' in r]
    good = sorted((r for r in results if 'error' not in r),
                  key=lambda r: r['task'])
    known = known_findings()
    evdir = os.path.join(VERIF, 'evidence')
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for n in os.listdir(rdir):
        if n.startswith(prop + '-'):
            os.remove(os.path.join(rdir, n))
    nviol = 0
    lines = []
    unstable = []
    for r in good:
        case = r['task'].split('[')[0]
        params = next(p for c, n, p in task_list(mod, tier)
                      if n == r['task'])
        for v in r['violations']:
            key = '%s/%s' % (r['task'], v['label'])
            path = os.path.join(rdir, '%s-%d.json' % (prop, len(
                os.listdir(rdir))))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'case': case, 'params': params,
                           'inputs': v['inputs'], 'tier': tier,
                           'label': v['label'], 'info': v['info'],
                           'how': '%s %s FILE' % (
                               sys.executable, os.path.join(
                                   VERIF, 'sx', 'replay.py'))}, f, indent=1)
            if nviol < 6:
                # Confirm in a process of its own.
                try:
                    pr = subprocess.run(
                        [sys.executable,
                         os.path.join(VERIF, 'sx', 'replay.py'), path],
                        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                        timeout=120, env=dict(os.environ,
                                              PYTHONDONTWRITEBYTECODE='1'))
                    rc = pr.returncode
                except subprocess.TimeoutExpired:
                    rc = 1
                if rc == 0:
                    unstable.append({'key': key, 'replay': path})
                    continue
            if (prop, key) in known:
                lines.append('KNOWN-FINDING: property=%s %s (%s)'
                             % (prop, known[(prop, key)], key))
                continue
            nviol += 1
            if nviol <= 6:
                lines.append('VIOLATION property=%s replay=%s' % (prop, path))
                lines.append('  %s: %s' % (key, v['info'].strip().split(
                    '\n')[-1][:300]))
    # Known findings that no longer fail are only mentioned.
    reached = {}
    for r in good:
        for l, n in r['labels'].items():
            reached[l] = reached.get(l, 0) + n
    unreached = sorted(l for l in harness_labels(mod, prop) if l not in reached)
    tot = lambda k: sum(r[k] for r in good)
    st = lambda k: sum(r['stats'][k] for r in good)
    undecided = {}
    for r in good:
        for u in r['undecided']:
            undecided[u] = undecided.get(u, 0) + 1
    functions = sorted({f for r in good for f in r['functions']})
    samples = [r['sample'] for r in good if r['sample']][:12]
    unrep = [dict(u, task=r['task']) for r in good for u in r['unreproduced']]
    div = [dict(u, task=r['task']) for r in good for u in r['divergent']]
    trunc = {r['task']: r['truncated'] for r in good if r['truncated']}
    trunc.update((n, 'no result') for n in missing)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': tot('paths'),
            'transitions': tot('transitions'),
            'traces_validated_against_impl': tot('replays'),
            'samples': samples,
            'exhaustive': not trunc and not undecided and not errors,
            'method': 'symbolic execution of the current source; every path '
                      'of every harness task is one state, branch decisions '
                      'and assertions are the transitions',
            'tasks': len(good),
            'paths_decided': tot('ok'),
            'paths_infeasible': tot('infeasible'),
            'assertions_discharged': st('checks'),
            'assertions_sent_to_solver': st('checks_solver'),
            'solver_queries': st('queries'), 'solver_sat': st('sat'),
            'solver_unsat': st('unsat'), 'solver_unknown': st('unknown'),
            'solver_s': round(st('solver_s'), 2),
            'functions_encoded': functions,
            'assertion_labels_reached': reached,
            'assertion_labels_unreached': unreached,
            'bounds': {c['name']: c['bounds'] for c in mod.CASES},
            'undecided_paths': undecided,
            'truncated_tasks': trunc,
            'unreproduced_counterexamples': unrep[:10],
            'model_divergences': div[:10],
            'unstable_replays': unstable,
            'task_errors': [r['error'][-600:] for r in errors],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + STANDING,
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    if not args.case:
        with open(os.path.join(evdir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print('%s %s: %d tasks, %d paths (%d decided, %d undecided), '
          '%d assertions, %d solver queries in %.1f s, %d replays on the real '
          'code, %.1f s' % (prop, tier, len(good), tot('paths'), tot('ok'),
                            sum(undecided.values()), st('checks'),
                            st('queries'), st('solver_s'), tot('replays'),
                            wall))
    for r in errors:
        print('ERROR in', r['task'], r['error'])
    if unrep:
        print('NOTE: %d solver counterexamples did not reproduce on the real '
              'code (no verdict there, see the evidence)' % len(unrep))
    if div:
        print('NOTE: %d paths where model and real run differ in the '
              'assertions reached' % len(div))
    if unreached and not args.case:
        print('NOTE: assertions never reached:', unreached)
    if undecided:
        print('NOTE: undecided:', undecided)
    if trunc:
        print('NOTE: truncated:', trunc)
    if nviol:
        return 1
    if errors or not good:
        return 2
    return 0


_tl = {}


def task_list(mod, tier):
    from sx.case import tasks
    if tier not in _tl:
        _tl[tier] = tasks(mod.CASES, tier)
    return _tl[tier]


STANDING = [
    'CPython, NumPy, SciPy, h5py, json and hashlib behave as modelled in '
    'sx/npsym.py, sx/files.py, sx/calls.py; every decided path is validated '
    'by running its witness on the real code and libraries',
    'SHA-256 and JSON texts are treated as collision free',
    'z3 is trusted',
]

if __name__ == '__main__':
    sys.stdout.reconfigure(errors='backslashreplace')
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 2    # no verdict
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)      # does not wait for anything
