"""Check runner: python -m pysym.run PROPERTY"""

import importlib
import json
import multiprocessing
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback

from . import paths


REPLAY_LIMIT = 30    # seconds of processor time for a single replay

def explore(modname, jobname, tier, seed, deadline, share=None):
    """Explore all paths of one harness (in worker process).

    While other processors are idle, unexplored parts are left to forks of
    this process."""
    from . import engine as E, instrument, symctx, watchdog
    from .ctx import jsonable
    from .job import Params

    mod = importlib.import_module(f'harness.{modname}')
    job = {j.name: j for j in mod.jobs(tier)}[jobname]
    trace = instrument.CallTrace(paths.SRC)
    trace.start()
    eng = E.Engine(deadline=deadline)
    E.current = eng
    st = eng.stats
    rnd = random.Random(f'{seed}/{modname}/{jobname}')
    res = {'job': jobname, 'module': modname, 'bounds': job.bounds,
           'candidate': None, 'error': None, 'cuts': [], 'labels': [],
           'samples': []}
    labels = set()
    pools = {}
    t0 = time.monotonic()
    nok = 0
    dog = watchdog.Watchdog(eng)
    dog.start()
    try:
        while True:
            eng.start_path()
            ctx = symctx.SymCtx(Params(job.params), eng, pools)
            exc = None
            try:
                job.func(ctx)
            except E.PathSteering as e:
                exc = e
            except Exception as e:
                exc = e
                tb = traceback.format_exc()
            if eng.pending_error is not None:
                exc = eng.pending_error
            if exc is None:
                labels |= ctx.labels
                labels.add('end')
                nok += 1
                # reservoir sample of completed paths for validation
                if len(res['samples']) < job.validate:
                    slot = len(res['samples'])
                    res['samples'].append(None)
                else:
                    slot = rnd.randrange(nok)
                if slot < job.validate:
                    m = eng.exact_model()
                    res['samples'][slot] = None if m is None else {
                        'inputs': eng.input_values(m),
                        'observations': [
                            [n, jsonable(symctx.evaluate(v, m))]
                            for n, v in ctx.observations]}
            elif isinstance(exc, E.Hang):
                # solver and trail could be out of step: last path
                dog.stop()
                eng.pending_error = None
                res['candidate'] = {
                    'msg': str(exc), 'kind': 'hang',
                    'inputs': eng.input_values(eng.model()),
                    'observations': []}
                break
            elif isinstance(exc, E.PathAbort):
                st.aborted += 1
            elif isinstance(exc, E.Violation):
                res['candidate'] = {
                    'msg': exc.msg, 'kind': 'violation',
                    'inputs': eng.input_values(exc.model),
                    'observations': [
                        [n, jsonable(symctx.evaluate(v, exc.model))]
                        for n, v in ctx.observations]}
                break
            elif isinstance(exc, (E.Inconclusive, E.EngineError)):
                res['error'] = f'{type(exc).__name__}: {exc}'
                break
            elif isinstance(exc, E.PathSteering) or \
                    isinstance(exc, Exception):
                # engine limitation or unexpected exception of the code: the
                # path is cut and its representative is run on plain code
                labels |= ctx.labels
                eng.pending_error = None
                st.cut += 1
                try:
                    m = eng.model()
                except E.Unknown:
                    eng.pending_error = None
                    m = None
                if m is not None and len(res['cuts']) < 50:
                    res['cuts'].append({
                        'msg': f'{type(exc).__name__}: {exc}',
                        'inputs': eng.input_values(m),
                        'tb': None if isinstance(exc, E.PathSteering) else tb})
                if st.cut >= 50:
                    break
            if share is not None:
                if share.idle.value < 0:
                    res['error'] = 'stopped'
                    break
                if share.idle.value > 0 and time.monotonic() > t0 + 0.3:
                    i = eng.splittable()
                    if i is not None and share.fork():
                        # in the new process
                        dog.start()
                        eng.keep(i)
                        st = eng.stats
                        t0 = time.monotonic()
                        nok = 0
                        labels = set()
                        res.update(cuts=[], samples=[], candidate=None)
                    elif i is not None and share.forked:
                        eng.drop(i)
            if not eng.backtrack():
                break
            if st.paths >= job.max_paths:
                res['error'] = 'path limit reached'
                break
            if time.monotonic() > deadline:
                res['error'] = 'time budget exhausted'
                break
    except E.PathSteering as e:
        res['error'] = f'{type(e).__name__}: {e}'
    except Exception:
        res['error'] = 'runner: ' + traceback.format_exc()
    dog.stop()
    res['labels'] = sorted(labels)
    res['functions'] = trace.functions()
    llvm = sys.modules.get('pysym.llvm')
    if llvm:
        res['functions'] = sorted({*res['functions'], *llvm.called})
    res['wall_s'] = round(time.monotonic() - t0, 2)
    res['stats'] = {k: (round(v, 3) if isinstance(v, float) else v)
                    for k, v in vars(st).items()}
    return res


class Share:
    """State shared by exploring processes"""

    def __init__(self, mp, dir):
        self.idle = mp.Value('i', 0)
        self.dir = dir
        self.forked = False

    def started(self, pid, mod, job):
        self.job = mod, job
        with open(os.path.join(self.dir, f'{pid}.tmp'), 'w') as f:
            json.dump([mod, job], f)
        os.rename(f.name, os.path.join(self.dir, f'{pid}.run'))

    def fork(self):
        """True in the new process"""
        self.forked = False
        with self.idle.get_lock():
            if self.idle.value < 1:
                return False
            self.idle.value -= 1
        r, w = os.pipe()
        pid = os.fork()
        if pid:
            # coordinator knows of it before this process can end
            self.started(pid, *self.job)
            self.forked = True
            os.close(r)
            os.write(w, b'x')
            os.close(w)
            return False
        os.close(w)
        os.read(r, 1)
        os.close(r)
        return True

    def finished(self, result):
        name = os.path.join(self.dir, str(os.getpid()))
        with open(name + '.tmp', 'w') as f:
            json.dump(result, f)
        os.rename(name + '.tmp', name + '.json')


def _worker(share, mod, job, args):
    share.started(os.getpid(), mod, job)
    try:
        r = explore(mod, job, *args, share)
    except BaseException:
        r = {'job': job, 'module': mod,
             'error': 'worker: ' + traceback.format_exc()}
    share.finished(r)
    os._exit(0)


def _alive(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:
            return f.read().rsplit(')', 1)[1].split()[0] not in 'ZX'
    except OSError:
        return False


def run_jobs(specs, args, procs):
    """Each job (part of it) in its own forked process"""
    mp = multiprocessing.get_context('fork')
    pending = list(specs)
    results = []
    done = set()
    stop_at = None
    with tempfile.TemporaryDirectory() as d:
        share = Share(mp, d)
        while True:
            with share.idle.get_lock():
                files = set(os.listdir(d))
                running = [int(f[:-4]) for f in files
                           if f.endswith('.run') and int(f[:-4]) not in done]
            dead = [pid for pid in running if not _alive(pid)]
            for pid in running:
                path = os.path.join(d, str(pid))
                if os.path.exists(path + '.json'):
                    x = json.load(open(path + '.json'))
                elif pid in dead:
                    mod, job = json.load(open(path + '.run'))
                    x = {'job': job, 'module': mod, 'error': 'worker died'}
                else:
                    continue
                done.add(pid)
                results.append(x)
                if x.get('candidate') and stop_at is None:
                    # others get some time to find theirs
                    stop_at = time.monotonic() + 20
            running = [i for i in running if i not in done]
            if stop_at is not None:
                pending.clear()
            if not pending and not running:
                return results
            while pending and len(running) < procs:
                mod, job = pending.pop(0)
                p = mp.Process(target=_worker, args=(share, mod, job, args))
                p.start()
                while not os.path.exists(os.path.join(d, f'{p.pid}.run')):
                    if not p.is_alive():
                        break
                    time.sleep(0.001)
                running.append(p.pid)
            with share.idle.get_lock():
                if stop_at is not None:
                    share.idle.value = (-1 if time.monotonic() > stop_at
                                        else 0)
                else:
                    forks = sum(1 for f in os.listdir(d)
                                if f.endswith('.run') and
                                int(f[:-4]) not in done)
                    share.idle.value = max(0, procs - forks - len(pending))
            time.sleep(0.02)


def merge(results, jobs):
    """Results of parts of the same job together"""
    out = {}
    for r in results:
        key = r['module'], r['job']
        if key not in out:
            out[key] = {**r, 'parts': 1}
            continue
        o = out[key]
        o['parts'] += 1
        o['candidate'] = o.get('candidate') or r.get('candidate')
        if o.get('error') in (None, 'stopped'):
            o['error'] = r.get('error') or o.get('error')
        for k in ('cuts', 'labels', 'samples', 'functions'):
            o[k] = o.get(k, []) + r.get(k, [])
        for k, v in r.get('stats', {}).items():
            o.setdefault('stats', {})[k] = o['stats'].get(k, 0) + v
        o['wall_s'] = round(o.get('wall_s', 0) + r.get('wall_s', 0), 2)
    for key, o in out.items():
        job = jobs[key]
        o['labels'] = sorted(set(o.get('labels', [])))
        o['functions'] = sorted(set(o.get('functions', [])))
        o['samples'] = [s for s in o.get('samples', []) if s][:job.validate]
        o.setdefault('cuts', [])
        o['missing'] = [i for i in ('end', *job.require)
                        if i not in o['labels']]
        if o.get('stats'):
            o['stats'] = {k: round(v, 3) for k, v in o['stats'].items()}
    return [out[k] for k in jobs if k in out]


def replay(items, tier):
    out = []
    with tempfile.TemporaryDirectory() as d:
        src, dst = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        while len(out) < len(items):
            json.dump({'items': items[len(out):], 'tier': tier},
                      open(src, 'w'))
            with open(os.path.join(d, 'err'), 'w+') as err:
                p = subprocess.Popen(
                    [sys.executable, '-m', 'pysym.replay', src, dst],
                    cwd=paths.VERIF, stdin=subprocess.DEVNULL,
                    stdout=subprocess.DEVNULL, stderr=err)
                hangs = _watch(p, dst)
                err.seek(0)
                text = err.read()
            if os.path.exists(dst):
                with open(dst) as f:
                    out.extend(json.loads(i) for i in f)
                os.unlink(dst)
            if hangs:
                out.append({'ok': False, 'failure': 'code does not end',
                            'observations': []})
            elif p.returncode != 0:
                raise Exception('replay failed: ' + text[-2000:])
    return out


def _watch(p, dst):
    """Wait for the end of process which writes results to dst; True if it
    was stopped while it made no progress (in processor time)"""
    size, start = -1, 0
    t0 = time.monotonic()
    while True:
        try:
            p.wait(0.05)
            return False
        except subprocess.TimeoutExpired:
            pass
        try:
            with open(f'/proc/{p.pid}/stat') as f:
                x = f.read().rsplit(')', 1)[1].split()
            cpu = (int(x[11]) + int(x[12])) / os.sysconf('SC_CLK_TCK')
        except (OSError, IndexError):
            continue
        now = os.path.getsize(dst) if os.path.exists(dst) else 0
        if now != size:
            size, start, t0 = now, cpu, time.monotonic()
        elif time.monotonic() > t0 + 300:
            p.kill()
            p.wait()
            raise Exception('replay failed: no progress')
        elif cpu - start > REPLAY_LIMIT:
            p.kill()
            p.wait()
            return True


def main():
    t0 = time.monotonic()
    prop = sys.argv[1]
    only = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = float(os.environ.get('VERIF_BUDGET',
                                  '500' if tier == 'quick' else '3300'))
    procs = int(os.environ.get('VERIF_PROCS', '8'))

    subprocess.run([sys.executable, '-m', 'pysym.genrepo', paths.REPO],
                   cwd=paths.VERIF, check=True)

    paths.setup_symbolic()
    names = [f[:-3] for f in sorted(os.listdir(
        os.path.join(paths.VERIF, 'harness')))
        if f.lower().startswith(prop.lower()) and f.endswith('.py')]
    mods = [importlib.import_module(f'harness.{n}') for n in names]
    deadline = time.monotonic() + budget
    specs, jobs = [], {}
    for n, m in zip(names, mods):
        for j in m.jobs(tier):
            if only and not any(j.name.startswith(o) for o in only):
                continue
            specs.append((n, j.name))
            jobs[n, j.name] = j
    results = merge(run_jobs(specs, (tier, seed, deadline), procs), jobs)

    violations, errors, items, meta, undecided = [], [], [], [], []
    for r in results:
        if r.get('error') in ('time budget exhausted', 'path limit reached',
                              'Inconclusive: time budget exhausted'):
            undecided.append(f'{r["job"]}: {r["error"]}')
        elif r.get('error') and r['error'] != 'stopped':
            errors.append(f'{r["job"]}: {r["error"]}')
        base = {'module': r['module'], 'job': r['job']}
        if r.get('candidate'):
            items.append({**base, 'inputs': r['candidate']['inputs']})
            meta.append(('candidate', r, r['candidate']))
        for c in r.get('cuts', [])[:10]:
            items.append({**base, 'inputs': c['inputs']})
            meta.append(('cut', r, c))
        for s in filter(None, r.get('samples', [])):
            items.append({**base, 'inputs': s['inputs']})
            meta.append(('sample', r, s))
    validated = 0
    try:
        outs = replay(items, tier)
    except Exception as e:
        outs = []
        errors.append(str(e))
    cuts_ok = 0
    for (kind, r, x), item, o in zip(meta, items, outs):
        if kind == 'sample':
            if not o['ok']:
                # concrete run fails where the symbolic run passed: the
                # plain code is decisive
                violations.append((r, item, o, 'concrete validation run'))
            elif o['observations'] != json.loads(
                    json.dumps(x['observations'])):
                errors.append(
                    f'{r["job"]}: model mismatch: symbolic '
                    f'{x["observations"]} concrete {o["observations"]} '
                    f'inputs {x["inputs"]}')
            else:
                validated += 1
        elif not o['ok']:
            violations.append((r, item, o, x['msg']))
        elif kind == 'candidate' and x['kind'] == 'hang':
            undecided.append(f'{r["job"]}: a path takes too long')
        elif kind == 'candidate':
            errors.append(f'{r["job"]}: counterexample does not reproduce: '
                          f'{x["msg"]} {x["inputs"]} {x.get("observations")}')
        else:
            cuts_ok += 1

    for r in results:
        if r.get('missing') and not r.get('candidate') and not violations \
                and not r.get('error'):
            errors.append(f'{r["job"]}: not reached: {r["missing"]} '
                          f'(cuts: {[c["msg"] for c in r["cuts"][:3]]})')
        if os.environ.get('VERIF_VERBOSE') and r.get('stats'):
            print(f'# {r["job"]}: paths={r["stats"]["paths"]} '
                  f'aborted={r["stats"]["aborted"]} '
                  f'cut={r["stats"]["cut"]} '
                  f'queries={r["stats"]["queries"]} '
                  f'checks={r["stats"]["checks"]} '
                  f'trivial={r["stats"]["checks_trivial"]} '
                  f'solver={r["stats"]["solver_s"]}s wall={r["wall_s"]}s parts={r["parts"]} '
                  f'labels={r["labels"]}')
            for c in r['cuts'][:3]:
                print('#   cut:', c['msg'], c['tb'] or '')

    if undecided and len(undecided) == len(results):
        errors.append('nothing decided')

    tot = {}
    for r in results:
        for k, v in r.get('stats', {}).items():
            tot[k] = round(tot.get(k, 0) + v, 3)
    ncut = tot.get('cut', 0)
    functions = sorted({f for r in results for f in r.get('functions', [])})
    known = _known(prop)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': validated,
            'samples': [
                {'harness': r['job'], 'inputs': s['inputs'],
                 'observations': s['observations'][:6]}
                for r in results for s in r.get('samples', [])[:1] if s][:10],
            'meaning': 'states: symbolic execution paths explored to the '
                       'end; transitions: branch decisions put to the '
                       'solver; traces: path models re-run on the '
                       'uninstrumented code with equal observations',
            'queries': tot.get('queries', 0),
            'queries_sat': tot.get('sat', 0),
            'queries_unsat': tot.get('unsat', 0),
            'assertions_checked': tot.get('checks', 0),
            'assertions_by_simplification': tot.get('checks_trivial', 0),
            'solver_s': tot.get('solver_s', 0),
            'paths_infeasible_by_assumption': tot.get('aborted', 0),
            'paths_cut': ncut,
            'complete_within_bounds': not errors and not ncut and
            not undecided and not violations,
            'harnesses': [
                {'name': r['job'], 'bounds': r.get('bounds', ''),
                 'paths': r.get('stats', {}).get('paths', 0),
                 'queries': r.get('stats', {}).get('queries', 0),
                 'assertions': r.get('stats', {}).get('checks', 0),
                 'witnesses_reached': r.get('labels', []),
                 'wall_s': r.get('wall_s', 0)} for r in results],
            'functions_encoded': functions},
        'assumptions': [a for m in mods
                        for a in getattr(m, 'ASSUMPTIONS', [])],
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(violations)}
    if errors:
        ev['coverage']['errors'] = errors[:10]
    if undecided:
        ev['coverage']['undecided'] = undecided
    evdir = os.path.join(paths.VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for k in known:
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    if violations:
        r, item, o, msg = violations[0]
        path = os.path.join(evdir, f'{prop}.replay.json')
        with open(path, 'w') as f:
            json.dump({'tier': tier, 'items': [item], 'failure': o['failure'],
                       'symbolic': msg}, f, indent=1)
        print(f'{r["job"]}: {o["failure"]}')
        print(f'VIOLATION property={prop} replay={path}')
        print(f'(re-run on plain code: {paths.VERIF}/replay.sh {path})')
        sys.exit(1)
    if errors:
        for e in errors:
            print('ERROR', e)
        sys.exit(2)
    for u in undecided:
        print(f'INCOMPLETE: {u}')
    if ncut:
        print(f'INCOMPLETE: {ncut} paths cut (only a concrete representative '
              f'was run)')
    print(f'{prop}: held on {tot.get("paths", 0)} paths, '
          f'{tot.get("queries", 0)} queries, {tot.get("checks", 0)} '
          f'assertions, {ev["wall_s"]}s')


def _known(prop):
    path = os.path.join(paths.VERIF, 'known_findings.json')
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return []
    return [i for i in data.get('known', []) if i['property'] == prop]


if __name__ == '__main__':
    main()
