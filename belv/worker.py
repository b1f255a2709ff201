"""python -m belv.worker MODE PROP TIER SEED OUT [contract ...] : run the contracts of one property in one mode."""
import sys, os, json, time, signal, traceback, random


def main():
    mode, prop, tier, seed, out = sys.argv[1:6]
    only = sys.argv[6:]
    seed = int(seed)
    sys.path.insert(0, os.environ.get('BELV_REPO', '/repo'))
    if mode in ('sym', 'bsym'):
        from . import hook
        hook.install(full=(mode == 'sym'))
        from . import stubs
        stubs.install()
    if mode == 'conc':
        os.environ['NUMBA_DISABLE_JIT'] = '1'
    import warnings
    warnings.filterwarnings('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    from .world import World, Missing, Discard, REGISTRY, _h
    from . import contracts
    contracts.load(prop)
    cs = [c for c in REGISTRY.get(prop, []) if mode in c.modes and (not only or c.name in only)]
    results = {}
    res_err = None
    try:
        import beluga
    except BaseException as e:
        res_err = traceback.format_exc()
    if res_err:
        json.dump({'import_error': res_err}, open(out, 'w'))
        return
    par = int(os.environ.get('BELV_PAR', '4'))
    replays = json.load(open(os.environ['BELV_REPLAY'])) if os.environ.get('BELV_REPLAY') else {}
    running, todo = {}, list(cs)
    tmp = out + '.d'
    os.makedirs(tmp, exist_ok=True)
    while todo or running:
        while todo and len(running) < par:
            c = todo.pop(0)
            f = os.path.join(tmp, c.name + '.json')
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setsid()
                    r = run_one(mode, c, tier, seed, replays.get(c.name))
                    json.dump(r, open(f, 'w'))
                except BaseException:
                    json.dump({'error': traceback.format_exc()}, open(f, 'w'))
                finally:
                    os._exit(0)
            bud = max(c.budget * (1 if tier == 'quick' else 5) + 15, 75 if mode == 'conc' else 0)
            running[pid] = (c, f, time.time() + bud)
        time.sleep(0.05)
        for pid in list(running):
            c, f, dl = running[pid]
            p, _ = os.waitpid(pid, os.WNOHANG)
            if p:
                try:
                    results[c.name] = json.load(open(f))
                except Exception:
                    results[c.name] = {'error': 'worker died'}
                del running[pid]
            elif time.time() > dl:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                results[c.name] = {'timeout': True}
                del running[pid]
    json.dump(results, open(out, 'w'))


def run_one(mode, c, tier, seed, replay=None):
    sys.stdout = open(os.devnull, 'w')
    import tempfile, atexit, shutil
    d = tempfile.mkdtemp(prefix='belv_')
    os.chdir(d)
    try:
        return _run_one(mode, c, tier, seed, replay)
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)


def _run_one(mode, c, tier, seed, replay=None):
    if mode in ('conc', 'jit'):
        if replay:
            # counterexamples of the prover against the real code, then a wider random search
            for m in replay:
                r = run_conc(mode, c, 'replay', seed, m)
                if r.get('fails'):
                    r['from_model'] = True
                    return r
            return run_conc(mode, c, 'thorough', seed + 7919)
        return run_conc(mode, c, tier, seed)
    return run_symb(mode, c, tier)


TRIAL_CPU = 40.0


class Endless(Exception):
    pass


def _endless(*a):
    raise Endless('one execution used %g s of processor time without coming to an end' % TRIAL_CPU)


def run_conc(mode, c, tier, seed, replay=None):
    from .world import World, Missing, Discard, _h
    from .sx import NotConv
    import numpy as np
    np.seterr(all='ignore')
    t0 = time.time()
    n = c.trials if mode == 'conc' else max(1, c.trials // 10)
    if tier == 'replay':
        n, tier = 6, 'quick'
    if tier == 'thorough':
        n *= 6
    budget = c.budget * (1 if tier == 'quick' else 5) * 0.8
    done = ens = disc = 0
    longest = 0.0
    fails = []
    for k in range(n):
        if time.time() - t0 > budget and done:
            break
        w = World(mode, seed=_h(seed, c.prop, c.name, k), replay=replay)
        random.seed(w.seed)
        np.random.seed(w.seed % 2 ** 31)
        tt = time.process_time()
        try:
            try:
                if mode == 'conc':      # one execution takes well under a second; processor time, so load does not matter
                    signal.signal(signal.SIGPROF, _endless)
                    signal.setitimer(signal.ITIMER_PROF, TRIAL_CPU)
                c.fn(w)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                longest = max(longest, time.process_time() - tt)
            done += 1
            ens += w.nensure
            if w.fails:
                fails.append({'trial': k, 'seed': w.seed, 'inputs': w.inputs,
                              'ensures': [(f.name, f.detail) for f in w.fails[:5]]})
        except Missing as e:
            return {'missing': str(e)}
        except (Discard, NotConv):     # NotConv: the expected value of an expression could not be computed
            disc += 1
        except Exception as e:
            done += 1
            fails.append({'trial': k, 'seed': w.seed, 'inputs': w.inputs,
                          'ensures': [('no unexpected exception', traceback.format_exc(limit=-5))]})
        if len(fails) >= 2:
            break
    return {'trials': done, 'ensures': ens, 'discarded': disc, 'fails': fails, 'time': time.time() - t0,
            'longest': round(longest, 2)}


def run_symb(mode, c, tier):
    from .world import World, Missing
    from . import terms as T
    import numpy as np
    np.seterr(all='ignore')
    budget = c.budget * (1 if tier == 'quick' else 5)
    t0 = time.time()
    missing = []
    ens = [0]

    def go(cx):
        w = World(mode)
        try:
            c.fn(w)
        except Missing as e:
            missing.append(str(e))
            raise T.PathEnd('missing')
        finally:
            ens[0] += w.nensure
    r = T.explore(go, t0 + budget, max_paths=3000 if tier == 'quick' else 20000,
                  solver_ms=8000 if tier == 'quick' else 40000)
    if missing:
        return {'missing': missing[0]}
    obs = [{'name': o.name, 'status': o.status, 'time': round(o.time, 4), 'backend': o.backend,
            'model': o.model, 'detail': o.detail} for o in r.obligations]
    by = {}
    for o in obs:
        by[o['status']] = by.get(o['status'], 0) + 1
    bad = [o for o in obs if o['status'] != 'proved']
    be = {}
    for o in obs:
        be[o['backend']] = be.get(o['backend'], 0) + 1
    return {'obligations': len(obs), 'by': by, 'backends': be, 'solver_time': sum(o['time'] for o in obs),
            'bad': bad[:12], 'names': sorted({o['name'] for o in obs})[:60],
            'paths': r.paths, 'completed': r.completed, 'vacuous': r.vacuous, 'exhausted': r.exhausted,
            'escapes': [(repr(e), tb, m) for e, tb, m in r.escapes[:4]], 'nescapes': len(r.escapes),
            'unsupported': sorted(set(r.unsupported))[:6], 'time': time.time() - t0}


if __name__ == '__main__':
    main()
