#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]: decide one property against /repo's current tree.

Runs the property's contracts in up to four processes (see DESIGN.md):
  sym  unbounded proof obligations      bsym  size-bounded proof obligations, values symbolic
  conc genuine modules, generated inputs (bounded)   jit  the same with numba compilation on
"""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('BELV_REPO', '/repo')


def env(par, extra=None):
    e = dict(os.environ, PYTHONPATH=HERE, MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             NUMEXPR_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             BELV_PAR=str(par), NUMBA_CACHE_DIR=tempfile.gettempdir() + '/belv_numba')
    e.pop('NUMBA_DISABLE_JIT', None)
    e.update(extra or {})
    return e


def source_digest():
    h = hashlib.sha256()
    n = 0
    for d, ds, fs in os.walk(os.path.join(REPO, 'beluga')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode())
                h.update(open(p, 'rb').read())
                n += 1
    return h.hexdigest()[:16], n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--modes', default='conc jit bsym sym')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    wall = 780 if tier == 'quick' else 3600
    tmp = tempfile.mkdtemp(prefix='belv_check_')
    try:
        return decide(a.prop, tier, seed, a.modes.split(), tmp, t0, wall)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def meta(prop):
    sys.path.insert(0, HERE)
    r = subprocess.run([PY, '-c', '''
import sys, json
from belv import contracts
from belv.world import REGISTRY
contracts.load(sys.argv[1])
print(json.dumps([dict(name=c.name, modes=c.modes, funcs=c.funcs, bound=c.bound, doc=(c.fn.__doc__ or "").strip(),
                       finding=c.finding, assumes=c.assumes) for c in REGISTRY.get(sys.argv[1], [])]))
''', prop], env=env(1), capture_output=True, text=True, cwd=HERE)
    if r.returncode:
        print(r.stderr[-2000:])
        sys.exit(2)
    return json.loads(r.stdout.strip().splitlines()[-1])


def decide(prop, tier, seed, modes, tmp, t0, wall):
    cs = meta(prop)
    if not cs:
        print('no contracts for', prop)
        return 2
    used = [m for m in modes if any(m in c['modes'] for c in cs)]
    cost = {m: sum(m in c['modes'] for c in cs) for m in used}
    procs = {}
    for m in used:
        par = max(1, min(cost[m], round(9 * cost[m] / max(1, sum(cost.values())))))
        if len(used) == 1:
            par = 8
        out = os.path.join(tmp, m + '.json')
        log = open(os.path.join(tmp, m + '.log'), 'w')
        procs[m] = (subprocess.Popen([PY, '-m', 'belv.worker', m, prop, tier, str(seed), out], env=env(par),
                                     stdout=log, stderr=subprocess.STDOUT, cwd=HERE, start_new_session=True), out)
    res = {}
    for m, (p, out) in procs.items():
        try:
            p.wait(max(5, wall - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
        try:
            res[m] = json.load(open(out))
        except Exception:
            log = open(os.path.join(tmp, m + '.log')).read()[-1500:]
            res[m] = {}
            print('NOTE %s tier gave no result: %s' % (m, log.strip()[-400:]))
    # ------------------------------------------------------------------ verdict
    viol, notes, undecided = [], [], []
    known = {}
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = {f['id']: f for f in json.load(open(kf)).get('findings', [])}
    info = {c['name']: c for c in cs}
    known_lines = []

    for m in ('conc', 'jit'):
        r = res.get(m, {})
        if 'import_error' in r:
            viol.append(dict(contract='import', mode=m, kind='concrete', detail=r['import_error'][-1500:]))
            continue
        for name, v in r.items():
            if v.get('fails'):
                f = v['fails'][0]
                fid = info[name]['finding']
                if fid and fid in known and known[fid]['property'] == prop:
                    bad = {e[0] for f in v['fails'] for e in f['ensures']}
                    if bad <= set(known[fid]['ensures']):
                        known_lines.append('KNOWN-FINDING: property=%s %s' % (prop, known[fid]['what']))
                        continue
                viol.append(dict(contract=name, mode=m, kind='concrete', detail=f['ensures'], inputs=f['inputs'],
                                 seed=f['seed'], trial=f['trial']))
            elif v.get('error') or v.get('timeout'):
                undecided.append('%s/%s: %s' % (m, name, str(v.get('error') or 'time limit')[-200:]))
    # refuted obligations: replay the counterexample on the real code
    rep, why = {}, {}
    for m in ('bsym', 'sym'):
        r = res.get(m, {})
        if 'import_error' in r:
            undecided.append('%s: extraction could not import the modules: %s' % (m, r['import_error'][-300:]))
            continue
        for name, v in r.items():
            if info[name]['finding']:
                continue
            for o in v.get('bad', []):
                if o['status'] == 'refuted':
                    rep.setdefault(name, []).append(o.get('model') or {})
                    why.setdefault(name, []).append((m, o))
                else:
                    undecided.append('%s/%s: obligation "%s" not decided (%s)' % (m, name, o['name'], o['detail'][:80]))
            for e in v.get('escapes', []):
                rep.setdefault(name, []).append((e[2] if len(e) > 2 and isinstance(e[2], dict) else {}))
                why.setdefault(name, []).append((m, dict(name='no exception escapes', detail=e[0], esc=True, tb=e[1][-800:])))
            for u in v.get('unsupported', []):
                undecided.append('%s/%s: outside the verifier\'s reach: %s' % (m, name, str(u)[:120]))
            if v.get('error') or v.get('timeout'):
                undecided.append('%s/%s: %s' % (m, name, str(v.get('error') or 'time limit')[-300:]))
            elif not v.get('missing') and not v.get('exhausted', True):
                undecided.append('%s/%s: path budget exhausted' % (m, name))
    have = {v['contract'] for v in viol}
    todo = {n: ms[:4] for n, ms in rep.items() if n not in have}
    concable = {c['name'] for c in cs if 'conc' in c['modes']}
    run = {n: ms for n, ms in todo.items() if n in concable}
    if run:
        rp = os.path.join(tmp, 'replay.json')
        json.dump(run, open(rp, 'w'))
        out = os.path.join(tmp, 'replayed.json')
        p = subprocess.Popen([PY, '-m', 'belv.worker', 'conc', prop, 'quick', str(seed), out] + sorted(run),
                             env=env(6, {'BELV_REPLAY': rp}), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                             cwd=HERE, start_new_session=True)
        try:
            p.wait(max(30, min(180, wall + 60 - (time.time() - t0))))
            rr = json.load(open(out))
        except Exception:
            try:
                os.killpg(p.pid, 9)
            except Exception:
                pass
            rr = {}
        for n, v in rr.items():
            if isinstance(v, dict) and v.get('fails'):
                f = v['fails'][0]
                viol.append(dict(contract=n, mode='replay of the verifier\'s counterexample', kind='concrete',
                                 detail=f['ensures'], inputs=f['inputs'], seed=f['seed'], trial=f['trial'],
                                 obligation=why[n][0][1].get('name')))
                todo.pop(n)
    for n in list(todo):
        bs = [(m, o) for m, o in why[n] if m == 'bsym' and not o.get('esc')]
        if bs:
            m, o = bs[0]
            viol.append(dict(contract=n, mode=m, kind='proof', detail=o.get('detail'), inputs=o.get('model'),
                             obligation=o['name']))
        else:
            m, o = why[n][0]
            undecided.append('%s/%s: obligation "%s" not accepted, counterexample not confirmed on the real code: %s'
                             % (m, n, o['name'], str(o.get('detail'))[:100]))
    # ------------------------------------------------------------------ evidence
    S = dict(sym=tally(res.get('sym', {})), bsym=tally(res.get('bsym', {})))
    tr = {m: sum(v.get('trials', 0) for v in res.get(m, {}).values() if isinstance(v, dict)) for m in ('conc', 'jit')}
    en = {m: sum(v.get('ensures', 0) for v in res.get(m, {}).values() if isinstance(v, dict)) for m in ('conc', 'jit')}
    missing = {'%s/%s' % (m, n): v['missing'] for m, r in res.items() for n, v in r.items()
               if isinstance(v, dict) and v.get('missing')}
    if not (S['sym']['obligations'] + S['bsym']['obligations'] + en['conc'] + en['jit']) and not viol:
        print('ERROR: no obligation was generated for', prop, '; '.join(undecided)[:600])
        return 2
    dig, nfiles = source_digest()
    man = {}
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            man[c['property']] = c
    except Exception:
        pass
    level = man.get(prop, {}).get('level', 'proof')
    ev_path = os.path.join(HERE, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    trusted = ['CPython, z3 4.x (python3-vt), the extraction/import hook belv/hook.py + belv/rewrite.py',
               'numpy stand-in belv/npshim.py, belv/symarr.py (assumed contract of numpy on symbolic-size arrays)',
               'floats treated as real numbers in symbolic tiers (machine arithmetic as mathematical)',
               'numba.njit treated as identity in symbolic tiers (jit tier executes compiled code)',
               'assumed contracts on scipy/sympy as named in belv/stubs.py and belv/sx.py']
    contracts = []
    for c in cs:
        d = dict(contract=c['name'], functions=c['funcs'], bound=c['bound'])
        for m in ('sym', 'bsym'):
            v = res.get(m, {}).get(c['name'])
            if v and 'obligations' in v:
                d[m] = dict(obligations=v['obligations'], by=v['by'], backends=v['backends'], paths=v['paths'],
                            exhausted=v['exhausted'], solver_s=round(v['solver_time'], 2))
        for m in ('conc', 'jit'):
            v = res.get(m, {}).get(c['name'])
            if v and 'trials' in v:
                d[m] = dict(executions=v['trials'], assertions=v['ensures'], discarded=v['discarded'])
        contracts.append(d)
    cov = dict(
        obligations=S['sym']['obligations'], discharged=S['sym']['proved'],
        checker_cmd='%s %s/check.py %s --tier %s' % (PY, HERE, prop, tier), trusted_base=trusted,
        functions_under_contract=sorted({f for c in cs for f in c['funcs']}),
        back_ends={**S['sym']['backends']}, solver_s=round(S['sym']['time'], 2),
        bounded=dict(obligations=S['bsym']['obligations'], discharged=S['bsym']['proved'], back_ends=S['bsym']['backends'],
                     solver_s=round(S['bsym']['time'], 2), note='sizes bounded as stated per contract, values symbolic'),
        concrete=dict(executions=tr['conc'], assertions=en['conc'], jit_executions=tr['jit'], jit_assertions=en['jit'],
                      note='bounded stand-in: genuine modules on generated inputs'),
        contracts=contracts, undecided=undecided[:40], missing_anchors=missing,
        source=dict(digest=dig, files=nfiles, repo=REPO),
        evaluations=tr['conc'] + tr['jit'] + S['sym']['obligations'] + S['bsym']['obligations'],
        distinct_nontrivial=S['sym']['names'] + S['bsym']['names'] + tr['conc'],
        rule='one evaluation = one obligation sent to the back end or one concrete execution; distinct = distinct '
             'obligation names plus concrete executions with pairwise different seeds',
        samples=[c['contract'] for c in contracts][:6],
        explanation='contract obligations generated by running the real functions of /repo on symbolic inputs; '
                    'see DESIGN.md', known_findings=known_lines)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=trusted + sorted({x for c in cs for x in c['assumes']}),
              violations=len(viol))
    rc = 0
    lines = []
    for i, v in enumerate(viol):
        rd = os.path.join(HERE, 'replays')
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, '%s-%s.json' % (prop, v['contract']))
        v['property'] = prop
        v['how'] = '%s %s/check.py %s  (VERIF_SEED=%d)' % (PY, HERE, prop, seed)
        json.dump(v, open(p, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, p, '' if v['kind'] == 'concrete' else ' no-failing-input-found'))
        if i == 0:
            print('failed contract %s (%s): %s' % (v['contract'], v['mode'], str(v['detail'])[:1200]))
        rc = 1
    json.dump(ev, open(ev_path, 'w'), indent=1, default=str)
    for l in sorted(set(known_lines)):
        print(l)
    # concrete violations first
    for l in sorted(lines, key=lambda x: x.endswith('found')):
        print(l)
    print('%s %s: unbounded obligations %d/%d, size-bounded %d/%d, concrete executions %d (+%d jit), undecided %d, %.1fs'
          % (prop, 'VIOLATED' if rc else 'ok', S['sym']['proved'], S['sym']['obligations'], S['bsym']['proved'],
             S['bsym']['obligations'], tr['conc'], tr['jit'], len(undecided), time.time() - t0))
    for u in undecided[:int(os.environ.get('BELV_SHOW', '4'))]:
        print('  undecided:', u)
    return rc


def tally(r):
    d = dict(obligations=0, proved=0, backends={}, time=0.0, names=0)
    for v in r.values():
        if isinstance(v, dict) and 'obligations' in v:
            d['obligations'] += v['obligations']
            d['proved'] += v['by'].get('proved', 0)
            d['time'] += v['solver_time']
            d['names'] += len(v['names'])
            for k, n in v['backends'].items():
                d['backends'][k] = d['backends'].get(k, 0) + n
    return d


if __name__ == '__main__':
    sys.exit(main())
