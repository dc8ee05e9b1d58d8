"""Runs the proof jobs and the witness search of one property, decides, writes evidence."""
import hashlib, importlib, json, multiprocessing as mp, os, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV_PY = os.environ.get('PYDV_PY', '/opt/venv/bin/python')


class Job:
    """One function (or lemma) to be proved. make(reflect, deadline) -> Interp,
    prove(I) -> (fn | None, results) or None if the function does not exist (any more)
    and its proof is not needed because callers are then verified without it.
    expect: outcome kinds that have to occur (vacuity check)."""
    def __init__(self, label, module, make, prove, expect=('return',), optional=False):
        self.label, self.module, self.make, self.prove = label, module, make, prove
        self.expect, self.optional = expect, optional


def run_job(args):
    job, deadline, timeout = args
    from .engine import Unsupported, Limit
    from .reflect import Reflect
    t0 = time.time()
    out = dict(label=job.label, obligations=[], error=None, absent=False, kinds=[], inlined=[], contracted=[], ext=[], paths=0)
    R = Reflect()
    I = None
    try:
        m = importlib.import_module(job.module)
        I = getattr(m, job.make)(R, deadline)
        I.prove_timeout = timeout
        r = getattr(m, job.prove)(I)
        if r is None:
            out['absent'] = True
            if not job.optional: out['error'] = 'function under contract not found'
        else:
            f, results = r
            kinds = set()
            for x in results:
                k = x[1] if x[0] == 'normal' else x[0]
                for kk in (k if isinstance(k, (tuple, set, frozenset, list)) else [k]): kinds.add(str(kk))
            out['kinds'] = sorted(kinds)
            missing = [k for k in job.expect if k not in kinds]
            if missing: out['error'] = f'vacuous: no path ends with {missing}'
            if not any(o.status == 'proved' for o in I.obligations) and not out['error']:
                out['error'] = 'vacuous: no obligation'
    except (Unsupported, Limit) as e:
        out['error'] = f'{type(e).__name__}: {e}'
    except RecursionError as e:
        out['error'] = 'RecursionError in the verifier'
    except Exception as e:
        out['error'] = f'verifier error {type(e).__name__}: {e}\n' + traceback.format_exc()[-3000:]
    finally:
        try: R.close()
        except Exception: pass
    if I is not None:
        out['obligations'] = [(o.name, o.status, o.detail[:6000], o.time, o.backend) for o in I.obligations]
        out['paths'] = I.stats['paths']
        for k in ('inlined', 'contracted', 'ext'): out[k] = sorted(I.stats[k])
        out['solver_s'] = I.stats['prove_t'] + I.stats['feas_t']
    out['wall'] = time.time() - t0
    return out


def run_jobs(jobs, deadline, timeout, procs=8):
    with mp.get_context('fork').Pool(min(procs, max(1, len(jobs))), maxtasksperchild=1) as pool:
        rs = [pool.apply_async(run_job, ((j, deadline, timeout),)) for j in jobs]
        out = []
        for j, r in zip(jobs, rs):
            try: out.append(r.get(max(1.0, deadline + 20 - time.time())))
            except mp.TimeoutError:
                out.append(dict(label=j.label, obligations=[], error='Limit: time budget exhausted', absent=False, kinds=[],
                                inlined=[], contracted=[], ext=[], paths=0, solver_s=0.0, wall=0.0))
        return out


def start_witness(prop, seed, tier, budget):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_SEED=str(seed))
    return subprocess.Popen([VENV_PY, os.path.join(HERE, 'witness', 'run.py'), prop, tier, str(seed), str(budget)],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=HERE)


def end_witness(p, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return dict(error='witness search: time limit', cases=0, distinct=0, samples=[], failures=[], rule='')
    line = out.strip().splitlines()[-1] if out.strip() else ''
    try: return json.loads(line)
    except ValueError:
        return dict(error='witness search died: ' + err[-2000:], cases=0, distinct=0, samples=[], failures=[], rule='')


def known_findings():
    known = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property='):
                prop, rest = line[len('known: property='):].split(' ', 1)
                key, _, text = rest.partition(' :: ')
                known.setdefault(prop, {})[key.strip()] = text.strip()
    return known


def main(prop, tier, seed):
    from contracts import registry
    t0 = time.time()
    P = registry.PROPS[prop]
    budget = 640 if tier == 'quick' else 840
    wb = P.get('witness_s', 45) if tier == 'quick' else 300
    w = start_witness(prop, seed, tier, wb) if P.get('witness', True) else None
    timeout = 8000 if tier == 'quick' else 20000
    res = run_jobs(P['jobs'], t0 + budget, timeout)
    wres = end_witness(w, max(30, wb * 2 + 60)) if w else None
    failed, undecided = [], []
    proved = total = 0
    backends = {}
    for r in res:
        for (name, status, detail, t, be) in r['obligations']:
            total += 1
            if status == 'proved':
                proved += 1
                backends[be] = backends.get(be, 0) + 1
            else: failed.append(dict(function=r['label'], obligation=name, status=status, verifier_output=detail))
        if r['error']: undecided.append(dict(function=r['label'], obligation=f'{r["label"]} verifiable', status='undecided', verifier_output=r['error']))
    known = known_findings().get(prop, {})
    failures, found = [], set()
    if wres:
        if wres.get('error'):
            undecided.append(dict(function='witness search', obligation='witness search runs', status='error', verifier_output=wres['error']))
        for f in wres['failures']:
            if f.get('key') in known: found.add(f['key'])
            else: failures.append(f)
        for k in wres.get('known', ()): 
            if k in known: found.add(k)
            else: failures.append(dict(key=k, what='finding that is not listed', expected='', observed=''))
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for fn in os.listdir(rdir):
        if fn.startswith(prop + '.'): os.remove(os.path.join(rdir, fn))
    lines = []
    bad = failed + undecided
    uniq = {}
    for b in bad: uniq.setdefault((b['function'], b['obligation']), b)
    bad = list(uniq.values())
    if failures:
        path = os.path.join(rdir, prop + '.input.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, failing_inputs=failures[:10], failed_obligations=bad[:20],
                           how_to_replay=f'cd /verif && {VENV_PY} witness/run.py {prop} --replay {path}'), f, indent=1)
        lines.append(f'VIOLATION property={prop} replay={path}')
    elif bad:
        path = os.path.join(rdir, prop + '.obligations.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, failed_obligations=bad[:40], failing_input=None,
                           how_to_replay=f'cd /verif && python3 check.py {prop}'), f, indent=1)
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
    for k in sorted(known):
        if k in found or not wres: print(f'KNOWN-FINDING: property={prop} {k}: {known[k]}')
    for b in bad[:12]: print(f'failed obligation: {b["function"]}: {b["obligation"]} [{b["status"]}] {b["verifier_output"][:300]!r}')
    for f in failures[:5]: print('failing input:', json.dumps(f)[:600])
    cov = dict(obligations=total, discharged=proved,
               checker_cmd=f'python3 /verif/check.py {prop}',
               trusted_base=P['trusted'] + registry.TRUSTED_COMMON,
               functions_under_contract=[r['label'] for r in res if not r['absent']],
               functions_absent=[r['label'] for r in res if r['absent']],
               per_function=[dict(function=r['label'], obligations=len(r['obligations']), discharged=sum(o[1] == 'proved' for o in r['obligations']),
                                  paths=r['paths'], outcomes=r['kinds'], solver_s=round(r.get('solver_s', 0.0), 2), wall_s=round(r['wall'], 2),
                                  inlined=r['inlined'], callee_contracts_used=r['contracted'], external_models_used=r['ext'], error=r['error']) for r in res],
               backends=backends, solver_s=round(sum(r.get('solver_s', 0.0) for r in res), 2),
               obligation_names=sorted({o[0] for r in res for o in r['obligations']})[:200])
    if wres:
        cov['bounded_cross_check'] = dict(note='bounded, not counted as proved: the executable specification run by CPython against the real code',
                                          evaluations=wres['cases'], distinct_nontrivial=wres['distinct'], rule=wres.get('rule', ''), samples=wres['samples'][:5])
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get('level', 'proof'), coverage=cov,
              assumptions=P['trusted'] + registry.TRUSTED_COMMON, wall_s=round(time.time() - t0, 2), violations=len(lines))
    if P.get('bounded'): cov['bounded_stand_ins'] = P['bounded']
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print(f'{prop}: {proved}/{total} obligations discharged, {len(res)} jobs, '
          f'{wres["cases"] if wres else 0} cases cross-checked, {time.time() - t0:.1f} s')
    for l in lines: print(l)
    return 1 if lines else 0
