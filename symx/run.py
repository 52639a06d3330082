"""Runs one property's harness cases symbolically (mode 'sym') or concretely against the
real code (mode 'real').  Called by check.py as a subprocess; forks one child per case.

  run.py sym  PROP TIER DEADLINE_S OUTFILE
  run.py real PROP INFILE OUTFILE
"""
import importlib.util
import json
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from symx.limits import stub_limit


def load_harness(prop):
    p = os.path.join(VERIF, 'harness', prop + '.py')
    spec = importlib.util.spec_from_file_location('harness_' + prop, p)
    m = importlib.util.module_from_spec(spec)
    sys.modules['harness_' + prop] = m
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    spec.loader.exec_module(m)
    return m


def jsonable(v):
    if isinstance(v, Fraction):
        return str(v)
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return str(v)


class FnRecorder:
    """records which functions of the repository were executed (sys.monitoring)"""

    def __init__(self, repo):
        self.repo = repo
        self.seen = set()
        mon = sys.monitoring
        mon.use_tool_id(mon.PROFILER_ID, 'symx')
        mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, self._start)
        mon.set_events(mon.PROFILER_ID, mon.events.PY_START)

    def _start(self, code, off):
        if code.co_filename.startswith(self.repo):
            self.seen.add(os.path.relpath(code.co_filename, self.repo) + ':' + code.co_qualname)
        return sys.monitoring.DISABLE


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    frames = ['%s:%d %s' % (f.filename, f.lineno, f.name) for f in tb[-6:]]
    try:
        msg = str(e)
    except BaseException:
        msg = '?'
    return '%s: %s' % (type(e).__name__, msg[:300]), frames


def run_case(mod, world, case, deadline, repo):
    from symx import engine as E, values as V
    from symx.ctx import SymCtx
    rec = FnRecorder(repo)
    fn = getattr(mod, case['fn'])
    params = case.get('params', {})
    eng = E.Engine(deadline=deadline, max_paths=case.get('max_paths', 100000))
    # timeouts: z3 per query
    eng.timeout = case.get('query_ms', 60000)
    viols, undec = [], []
    count = {}

    def body(e):
        try:
            fn(SymCtx(e, world, params), params)
            return True
        except E.Violation as v:
            note(v.label, v.values, v.detail, [])
        except V.Unsupported as ex:
            undecided('unsupported', ex)
        except V.SymHashError as ex:
            undecided('unsupported', ex)
        except RecursionError as ex:
            undecided('recursion', ex)
        except E.Inconclusive as ex:
            if eng.deadline and time.time() > eng.deadline or 'budget' in str(ex):
                raise
            undecided('solver', ex)
        except E.PathInfeasible:
            raise
        except E.PathTruncated:
            raise
        except (Exception, SystemExit) as ex:
            if stub_limit(ex):
                undecided('unsupported', ex)
                return False
            m = None
            try:
                m = e.model()
            except BaseException:
                pass
            d, frames = describe(ex)
            if m is None:
                undecided('exception without model', ex)
            else:
                note('exception:' + type(ex).__name__, e.values_from(m), d, frames)
        return False

    def note(label, values, detail, frames):
        eng.stats.violating += 1
        n = count.get(label, 0)
        count[label] = n + 1
        if os.environ.get('SYMX_FIRST') and n >= 2:
            raise E.Inconclusive('stopped')
        if n < 5:
            viols.append(dict(case=case['name'], label=label, values=jsonable(values), detail=detail, frames=frames))
        if len(viols) >= 30 or count[label] > 200:
            raise E.Inconclusive('stopped after %d violations' % len(viols))

    def undecided(kind, ex):
        eng.stats.undecided += 1
        if len(undec) < 5:
            d, frames = describe(ex)
            undec.append(dict(case=case['name'], kind=kind, detail=d, frames=frames))

    complete, why = True, ''
    t0 = time.time()
    try:
        eng.explore(body)
    except E.Inconclusive as ex:
        complete, why = False, str(ex)
    st = eng.stats
    return dict(
        case=case['name'], complete=complete, why=why, paths=st.paths, infeasible=st.infeasible,
        branches=st.branches, truncated=st.truncated, queries=st.queries, solver_s=st.solver_s,
        obligations=st.obligations, decided=st.decided, violating=st.violating, undecided=st.undecided,
        reached=st.reached, violations=viols, undecided_samples=undec, wall_s=time.time() - t0,
        cases=[dict(case=case['name'], values=jsonable(v), observed=jsonable(o)) for v, o in eng.cases],
        functions=sorted(rec.seen))


def fork_map(jobs, fn, out_prefix, nproc=8, hard_deadline=None, job_limit=None, stop_on=None):
    """run fn(job) in forked children; returns list of results (or an error dict)"""
    results = [None] * len(jobs)
    pending = list(range(len(jobs)))
    running = {}
    while pending or running:
        while pending and len(running) < nproc:
            i = pending.pop(0)
            path = '%s.%d' % (out_prefix, i)
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    os.setpgid(0, 0)
                    r = fn(jobs[i])
                    with open(path, 'w') as f:
                        json.dump(r, f)
                except BaseException as e:
                    rc = 3
                    try:
                        with open(path, 'w') as f:
                            json.dump(dict(error=''.join(traceback.format_exception(e))[-3000:]), f)
                    except BaseException:
                        pass
                finally:
                    sys.stdout.flush()
                    os._exit(rc)
            running[pid] = (i, path, time.time())
        done = None
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid and pid in running:
            i, path, t0 = running.pop(pid)
            try:
                with open(path) as f:
                    results[i] = json.load(f)
                os.unlink(path)
            except Exception:
                results[i] = dict(error='child ended with status %d' % status, crashed=True)
            if stop_on and stop_on(results[i]):
                hard_deadline = time.time() - 1
            continue
        now = time.time()
        for pid, (i, path, t0) in list(running.items()):
            if (hard_deadline and now > hard_deadline) or (job_limit and now - t0 > job_limit):
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
                running.pop(pid)
                results[i] = dict(error='time limit', timeout=True)
        if hard_deadline and now > hard_deadline:
            for i in pending:
                results[i] = dict(error='not started: time limit', timeout=True)
            pending = []
        time.sleep(0.01)
    return results


def quiet_fds():
    """the code under test logs and prints; keep the check's own stdout clean"""
    sys.stdout.flush()
    keep = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get('SYMX_DEBUG'):
        os.dup2(dn, 2)
    return keep


def main():
    mode, prop = sys.argv[1], sys.argv[2]
    mod = load_harness(prop)
    from symx import world as W
    quiet_fds()
    sys.setrecursionlimit(3000)
    if mode == 'sym':
        tier, budget, out = sys.argv[3], float(sys.argv[4]), sys.argv[5]
        only = sys.argv[6] if len(sys.argv) > 6 else None
        world = W.SymWorld()
        if hasattr(mod, 'prepare'):
            mod.prepare(world)
        cases = mod.cases(tier)
        if only:
            cases = [c for c in cases if only in c['name']]
        start = time.time()
        deadline = start + budget

        def job(c):
            return run_case(mod, world, c, min(deadline, time.time() + c.get('budget', budget)), W.REPO)
        res = fork_map(cases, job, out, hard_deadline=deadline + 20,
                       nproc=int(os.environ.get('SYMX_NPROC', 8)),
                       stop_on=(lambda r: r.get('violations')) if os.environ.get('SYMX_FIRST') else None)
        for c, r in zip(cases, res):
            r.setdefault('case', c['name'])
        with open(out, 'w') as f:
            json.dump(res, f)
    else:
        inp, out = sys.argv[3], sys.argv[4]
        with open(inp) as f:
            items = json.load(f)
        world = W.RealWorld()
        if hasattr(mod, 'prepare'):
            mod.prepare(world)
        table = {c['name']: c for c in mod.cases('thorough') + mod.cases('quick')}

        def job(it):
            from symx.ctx import ConcCtx, Reject, CheckFailed
            case = table[it['case']]
            ctx = ConcCtx(it['values'], world, case.get('params', {}))
            r = dict(outcome='pass', label=None, detail='')
            try:
                getattr(mod, case['fn'])(ctx, case.get('params', {}))
            except Reject:
                r['outcome'] = 'reject'
            except CheckFailed as e:
                r['outcome'], r['label'] = 'fail', e.label
            except (Exception, SystemExit) as e:
                d, frames = describe(e)
                limit = stub_limit(e)
                if limit:
                    r.update(outcome='limit', label=limit, detail=d, frames=frames)
                else:
                    r.update(outcome='fail', label='exception:' + type(e).__name__, detail=d, frames=frames)
            r['observed'] = jsonable(ctx.observed)
            r['checked'] = ctx.checked
            return r
        res = fork_map(items, job, out, job_limit=60)
        with open(out, 'w') as f:
            json.dump(res, f)


if __name__ == '__main__':
    main()
