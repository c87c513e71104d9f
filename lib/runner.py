"""Runs the scenarios of one check, writes evidence, reports violations.

usage: runner.py check <PROPERTY>        (tier from VERIF_TIER, seed from VERIF_SEED)
       runner.py replay <replay.json>
"""
import argparse
import importlib
import json
import os
import random
import resource
import select
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PEAK_REPO', '/repo')


def setup_paths():
    for p in (REPO, VERIF):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)


def known_for(prop):
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            return [e for e in json.load(f)['findings'] if e['property'] == prop]
    except FileNotFoundError:
        return []


# ---------------------------------------------------------------- function coverage
class FnTrace:
    TOOL = 3

    def __init__(self):
        self.seen = set()
        self.repo = os.path.realpath(REPO) + os.sep
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'verif')
        m.register_callback(self.TOOL, m.events.PY_START, self._cb)
        m.set_events(self.TOOL, m.events.PY_START)

    def _cb(self, code, off):
        fn = code.co_filename
        if fn.startswith(self.repo) or '/.ast_tools/' in fn or fn.startswith('.ast_tools'):
            if fn.startswith(self.repo):
                fn = fn[len(self.repo):]
            else:
                fn = 'rewritten:' + os.path.basename(fn)
            self.seen.add(f'{fn}:{code.co_qualname}')
        return sys.monitoring.DISABLE

    def stop(self):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)


# ---------------------------------------------------------------- one scenario
def run_scenario(sc, known, deadline, shims, history=False):
    """in a forked child"""
    from lib import symex, hwpatch
    from lib.ctx import Ctx
    hwpatch.install()
    if shims:
        for m in ('peak', 'peak.assembler', 'peak.assembler2', 'peak.mapper', 'peak.ir', 'peak.bitfield', 'peak.auto_assembler'):
            try:
                importlib.import_module(m)
            except Exception:
                pass             # the scenario imports what it needs and reports the failure
        hwpatch.shim_all_peak()
    random.seed(0)
    eng = symex.Engine(max_paths=sc.max_paths, deadline=deadline, query_ms=sc.query_ms)
    res = dict(name=sc.name, status='ok')
    last = {}
    past = []
    t0 = time.time()

    def body():
        ctx = Ctx(None, eng, known)
        last['ctx'] = ctx
        try:
            sc.fn(ctx)
        except symex.EngineError:
            raise
        except Exception as e:
            tb = traceback.format_exc(limit=-6)
            last['tb'] = tb
            raise symex.Violation(f'raised {type(e).__name__}: {e}', eng.model())
        res['reached'] = res.get('reached', 0) + ctx.reached
        for k in ctx.notes:
            res.setdefault('notes', []).append(k)
        if history:
            past.append(ctx.model_inputs(eng.model()))

    tr = FnTrace()
    try:
        v = eng.explore(body)
        if v is not None:
            res.update(status='violation', msg=v.msg, inputs=last['ctx'].model_inputs(v.model), tb=last.get('tb'))
            if history:
                res['history'] = past[-3000:]
        elif not res.get('reached'):
            res.update(status='error', msg='vacuous: no assertion was reached')
    except symex.BudgetError as e:
        res.update(status='undecided', msg=str(e))
    except symex.EngineError as e:
        res.update(status='error', msg=str(e) + '\n' + traceback.format_exc(limit=-8))
    except RecursionError as e:
        res.update(status='error', msg='recursion')
    except Exception as e:
        res.update(status='error', msg=traceback.format_exc(limit=-8))
    tr.stop()
    res['stats'] = eng.stats.as_dict()
    res['functions'] = sorted(tr.seen)
    res['wall_s'] = round(time.time() - t0, 3)
    return res


class Scenario:
    """fn(ctx) is executed symbolically; `name` identifies it for replay"""

    def __init__(self, name, fn, max_paths=20000, query_ms=60000, budget_s=120):
        self.name = name
        self.fn = fn
        self.max_paths = max_paths
        self.query_ms = query_ms
        self.budget_s = budget_s


def _spawn(sc, known, shims, hard_deadline, history=False):
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 0
    try:
        os.close(r)
        os.setpgid(0, 0)
        d = os.path.join(os.getcwd(), f'job{os.getpid()}')    # generated sources of parallel scenarios must not meet
        os.mkdir(d)
        os.chdir(d)
        resource.setrlimit(resource.RLIMIT_AS, (3584 << 20, 3584 << 20))
        deadline = min(time.time() + sc.budget_s, hard_deadline)
        with open(os.devnull, 'w') as dn:
            os.dup2(dn.fileno(), 1)
        try:
            res = run_scenario(sc, known, deadline, shims, history)
        except BaseException:
            res = dict(name=sc.name, status='error', msg=traceback.format_exc())
        with os.fdopen(w, 'w') as f:
            json.dump(res, f)
    except BaseException:
        code = 3
    finally:
        os._exit(code)


def run_all(scs, known, jobs, hard_deadline, shims=True, stop_on_violation=True, history=False):
    results = []
    queue = list(scs)
    live = {}     # fd -> (pid, sc, buf, t0)
    stop = False
    while queue or live:
        while queue and len(live) < jobs and not stop:
            if time.time() > hard_deadline:
                for s in queue:
                    results.append(dict(name=s.name, status='undecided', msg='check time budget exhausted',
                                        stats={}, functions=[]))
                queue = []
                break
            sc = queue.pop(0)
            pid, fd = _spawn(sc, known, shims, hard_deadline, history)
            live[fd] = (pid, sc, bytearray(), time.time())
        if stop:
            queue = []
        if not live:
            continue
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            data = os.read(fd, 1 << 16)
            pid, sc, buf, t0 = live[fd]
            if data:
                buf += data
                continue
            os.close(fd)
            _, st = os.waitpid(pid, 0)
            del live[fd]
            try:
                res = json.loads(buf.decode())
            except ValueError:
                res = dict(name=sc.name, status='error', msg=f'child ended with status {st}', stats={}, functions=[])
            results.append(res)
            if res['status'] == 'violation' and stop_on_violation:
                stop = True
        now = time.time()
        for fd, (pid, sc, buf, t0) in list(live.items()):
            if now > min(t0 + sc.budget_s + 20, hard_deadline + 20):
                try:
                    os.killpg(pid, 9)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                results.append(dict(name=sc.name, status='undecided', msg='killed at its time limit', stats={}, functions=[]))
    return results


# ---------------------------------------------------------------- replay
def replay_main(path):
    """concrete run of one scenario on the unpatched code; exit 1 if it violates"""
    setup_paths()
    with open(path) as f:
        rp = json.load(f)
    mod = importlib.import_module('checks.' + rp['property'].lower())
    scs = {s.name: s for s in mod.scenarios(rp.get('tier', 'quick'), rp.get('seed', 1))}
    sc = scs[rp['scenario']]
    from lib.ctx import Ctx, CheckFailed, AssumeFailed
    known = [e['id'] for e in known_for(rp['property']) if e.get('status', 'known') == 'known']
    # inputs the scenario was run on before in the same process
    for past in rp.get('history') or ():
        try:
            sc.fn(Ctx(given=past, known=known))
        except (Exception, CheckFailed, AssumeFailed):
            pass
    ctx = Ctx(given=rp['inputs'], known=known)
    try:
        sc.fn(ctx)
    except CheckFailed as e:
        print('REPRODUCED:', e)
        return 1
    except AssumeFailed:
        print('inputs do not satisfy the assumptions of the scenario')
        return 0
    except Exception as e:
        traceback.print_exc()
        print(f'REPRODUCED: raised {type(e).__name__}: {e}')
        return 1
    print('not reproduced: the property holds on these inputs')
    return 0


def concrete_replay(path):
    p = subprocess.run([sys.executable, '-m', 'lib.runner', 'replay', path], cwd=os.getcwd(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300,
                       env=dict(os.environ, PYTHONPATH=VERIF))
    return p.returncode, p.stdout


# ---------------------------------------------------------------- check
def check_main(prop):
    setup_paths()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    hard = t0 + (720 if tier == 'quick' else 6 * 3600)
    mod = importlib.import_module('checks.' + prop.lower())
    kf = known_for(prop)
    known = [e['id'] for e in kf if e.get('status', 'known') == 'known']
    jobs = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
    if hasattr(mod, 'warmup'):
        mod.warmup()
    scs = list(mod.scenarios(tier, seed))
    names = [s.name for s in scs]
    assert len(set(names)) == len(names), 'duplicate scenario names'
    only = os.environ.get('VERIF_ONLY')
    if only:
        scs = [s for s in scs if only in s.name]
    rng = random.Random(seed)
    rng.shuffle(scs)
    by_name = {s.name: s for s in scs}

    rc = 0
    results = []
    rep_dir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    confirmed = []
    unconfirmed = []

    def try_confirm(r, history=()):
        path = os.path.join(rep_dir, f"{prop}-{abs(hash_name(r['name'])):08x}.json")
        with open(path, 'w') as f:
            json.dump(dict(property=prop, scenario=r['name'], inputs=r['inputs'], message=r['msg'], tier=tier,
                           seed=seed, history=list(history), how='PYTHONPATH=/verif /opt/venv/bin/python -m lib.runner replay <this file>',
                           trace=r.get('tb')), f, indent=1)
        try:
            code, out = concrete_replay(path)
        except subprocess.TimeoutExpired:
            code, out = 99, 'replay timed out'
        if code == 1 and 'REPRODUCED' in out:
            confirmed.append((r, path, out))
            return True
        if not history:
            unconfirmed.append((r, path, out))
        return False

    def confirm_with_history(r):
        """the failure may need what the scenario did before in the same process"""
        rh = run_all([by_name[r['name']]], known, 1, hard, history=True)[0]
        if rh['status'] != 'violation' or not rh.get('history'):
            return False
        n = 1
        while time.time() < hard:
            if try_confirm(rh, rh['history'][-n:]):
                unconfirmed[:] = [u for u in unconfirmed if u[0]['name'] != r['name']]
                return True
            if n >= len(rh['history']):
                return False
            n *= 4
        return False

    more = []
    pending = scs
    shim_blamed = 0
    while pending:
        batch = run_all(pending, known, jobs, hard, stop_on_violation=not os.environ.get('VERIF_ALL'))
        results += batch
        done = {r['name'] for r in results}
        pending = [s for s in pending if s.name not in done]
        for r in [r for r in batch if r['status'] == 'violation']:
            if len(confirmed) >= 2:
                more.append(r)       # reported below, counted only as unexamined
            elif not try_confirm(r) and not confirm_with_history(r):
                # once more without the int()/bool() shims: if the shim was to blame the scenario is decided without it
                shim_blamed += 1
                r2 = run_all([by_name[r['name']]], known, 1, hard, shims=False)[0]
                if r2['status'] == 'violation':
                    if try_confirm(r2):
                        unconfirmed[:] = [u for u in unconfirmed if u[0]['name'] != r['name']]
                elif r2['status'] == 'ok':
                    unconfirmed[:] = [u for u in unconfirmed if u[0] is not r]
                    results.remove(r)
                    results.append(r2)
                    print(f"  note {r['name']}: decided without the int()/bool() shims ({r['msg'][:200]})")
        if confirmed or len(unconfirmed) > 20:
            break                    # the rest of the scenarios cannot change the verdict
    errors = [r for r in results if r['status'] == 'error']
    undecided = [r for r in results if r['status'] == 'undecided']

    tot = {}
    funcs = set()
    for r in results:
        for k, v in (r.get('stats') or {}).items():
            tot[k] = round(tot.get(k, 0) + v, 3)
        funcs.update(r.get('functions') or ())
    ok = [r for r in results if r['status'] == 'ok']
    meta = getattr(mod, 'META', {})
    sample = [dict(scenario=r['name'], stats=r['stats'], wall_s=r.get('wall_s')) for r in
              sorted(ok, key=lambda r: -r['stats'].get('paths', 0))[:5]]
    cov = dict(
        explanation=meta.get('explanation', '') + ' Every scenario below is decided by the SMT solver for all values '
        'of its symbolic inputs: each path of the real code is enumerated by solver feasibility queries, and each '
        'assertion is discharged as unsatisfiability of its negation under the path condition.',
        bounds=meta.get('bounds', ''),
        obligations=tot.get('assertions', 0),
        discharged=tot.get('assertions', 0) - len(confirmed) - len(unconfirmed),
        scenarios=len(results), decided=len(ok), undecided=[dict(scenario=r['name'], why=r['msg']) for r in undecided][:50],
        errors=[dict(scenario=r['name'], why=r['msg'][-2000:]) for r in errors][:20],
        engine=tot, functions_encoded=sorted(funcs),
        evaluations=tot.get('paths', 0), distinct_nontrivial=tot.get('paths', 0),
        rule='one evaluation = one feasible execution path of a scenario over symbolic inputs, with every assertion on '
             'it discharged by the solver; paths are distinct by construction (they differ in a solver-decided branch) '
             'and non-trivial because each path condition is satisfiable and reaches at least one assertion',
        slowest=[[r['name'], r.get('wall_s')] for r in sorted(results, key=lambda r: -(r.get('wall_s') or 0))[:8]],
        samples=sample or [dict(scenario='none decided')],
        programs=len(ok), disagreements_checked=tot.get('assertions', 0),
        checker_cmd=f'./run.sh {prop}', trusted_base=meta.get('trusted', []) + [
            'z3', 'CPython', 'hwtypes/ast_tools/pysmt (dependencies)', '/verif/lib/symex.py, hwpatch.py'],
    )
    for k in meta.get('drop', ()):
        cov.pop(k, None)
    ev = dict(property=prop, tier=tier, seed=seed, level=meta.get('level', 'other'), coverage=cov,
              assumptions=meta.get('assumptions', []) + ['text rendering of symbolic values (messages) is a placeholder'],
              wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print(f'{prop}: {len(ok)}/{len(results)} scenarios decided, {tot.get("paths", 0)} paths, '
          f'{tot.get("queries", 0)} queries, {tot.get("solver_s", 0)} s solver, {time.time() - t0:.1f} s wall')
    for e in kf:
        if e.get('status', 'known') == 'known':
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
    for r, path, out in confirmed:
        print(f"  {r['name']}: {r['msg']}\n    inputs {json.dumps(r['inputs'])[:400]}")
        rc = 1
    for r in more[:40]:
        print(f"  also {r['name']}: {r['msg'][:150]}")
    for r in undecided:
        print(f"  UNDECIDED {r['name']}: {r['msg'][:300]}")
    if rc == 1:
        for r, path, out in confirmed[:1]:
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    for r, path, out in unconfirmed:
        print(f"  NOT REPRODUCED {r['name']}: {r['msg']}\n{(r.get('tb') or '')}\n  inputs {json.dumps(r['inputs'])[:400]}\n  replay said: {out[-1500:]}")
        rc = 2
    for r in errors:
        print(f"  ERROR {r['name']}: {r['msg'][-1500:]}")
        rc = 2
    if rc == 0 and (not ok or len(undecided) > max(1, len(results) // 10)):
        print('  too many undecided scenarios')
        rc = 2
    return rc


def hash_name(s):
    import zlib
    return zlib.crc32(s.encode())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay'])
    ap.add_argument('arg')
    a = ap.parse_args()
    if a.cmd == 'replay':
        sys.exit(replay_main(a.arg))
    scratch = tempfile.mkdtemp(prefix='peakverif-')
    os.chdir(scratch)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    try:
        rc = check_main(a.arg)
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
