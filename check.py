#!/usr/bin/env python3
"""check.py <property>: decide one property.

Every contract of the property is (1) verified deductively: verification
conditions are generated from the current source in /repo and discharged by
z3 / cvc5 for all inputs; (2) evaluated on the real functions for solver
supplied, exhaustive small-scope and seeded random inputs (finding concrete
replays; never counted as proof).

  check.py C01               run (VERIF_TIER, VERIF_SEED from environment)
  check.py --replay FILE     re-run a stored violation on the real code
"""
import base64
import glob
import importlib
import json
import multiprocessing as mp
import os
import pickle
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
if os.environ.get('DV_CHILD') != '1' and os.path.exists(VENV):
    os.environ['DV_CHILD'] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ[v] = '1'
    os.execv(VENV, [VENV, '-B'] + sys.argv)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.chdir(HERE)

PROOF_WALL = int(os.environ.get('DV_PROOF_WALL', '420'))


def registry():
    reg = {}
    for p in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.py'))):
        nm = os.path.basename(p)[:-3]
        if nm in ('__init__', 'common', 'stubs'):
            continue
        mod = importlib.import_module('contracts.' + nm)
        for ct in getattr(mod, 'CONTRACTS', []):
            ct.module = nm
            pid = getattr(ct, 'property', None) or mod.PROPERTY
            ct.pid = pid
            reg.setdefault(pid, []).append(ct)
    return reg


def limit():
    g = 5 << 30
    resource.setrlimit(resource.RLIMIT_AS, (g, g))


def worker(task, conn):
    try:
        limit()
        kind = task[0]
        reg = REG
        ct = [c for c in reg[task[1]] if c.name == task[2]][0]
        if kind == 'proof':
            out = do_proof(ct)
        else:
            out = do_conc(ct, task[3], task[4], task[5])
    except BaseException as e:                          # noqa: B902
        out = {'error': '%s: %s' % (type(e).__name__, e),
               'trace': traceback.format_exc()}
    try:
        conn.send(out)
    except Exception as e:
        conn.send({'error': 'unpicklable: %s' % e})
    conn.close()


def do_proof(ct):
    from dv import contract as C
    o = C.prove(ct)
    bad = None
    tried = 0
    import inspect
    for c in o.candidates:
        tried += 1
        try:
            m = C.run_concrete(ct, c)
        except Exception as e:
            continue
        if m and m not in ('skip', 'blind'):
            bad = (m, c)
            break
    return {'status': o.status, 'reason': o.reason, 'obligs': o.obligs,
            'failed': o.failed, 'paths': o.paths, 'loops': o.loops,
            'functions': o.functions, 'assumed': o.assumed,
            'solver': o.solver, 'bad': pack(bad), 'tried': tried}


def pack(bad):
    if bad is None:
        return None
    try:
        blob = base64.b64encode(pickle.dumps(bad[1])).decode()
    except Exception:
        blob = None
    return {'why': bad[0], 'inputs': short_inputs(bad[1]), 'pickle': blob}


def show(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return 'array(%s, %s)' % (v.tolist(), v.dtype)
    if isinstance(v, list):
        return '[%s]' % ', '.join(show(x) for x in v)
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%s: %s' % (k, show(x))
                                  for k, x in v.items())
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(show(x) for x in v)
    if hasattr(v, '__dict__') and not isinstance(v, type):
        return '%s(%s)' % (type(v).__name__, ', '.join(
            '%s=%s' % (k, show(x)) for k, x in vars(v).items()
            if k != '_dv'))
    return repr(v)


def short_inputs(vals):
    return {k: show(v)[:1500] for k, v in vals.items()}


def do_conc(ct, seed, count, wall):
    from dv import contract as C
    t0 = time.time()
    n = skip = blind = 0
    if not C.signature_fits(ct):
        return {'n': 0, 'skip': 0, 'distinct': 0, 'cut': False,
                'sample': [], 'bad': None, 'wall': 0, 'blind': 0,
                'blind_why': ct.fn + ' is missing or takes other '
                'parameters'}
    bad = None
    seen = set()
    sample = []
    cut = False
    for vals in C.sample_inputs(ct, seed, count):
        if time.time() - t0 > wall:
            cut = True
            break
        try:
            key = hash(pickle.dumps(vals))
        except Exception:
            key = id(vals)
        m = C.run_concrete(ct, vals)
        if m == 'skip':
            skip += 1
            continue
        if m == 'blind':
            blind += 1
            continue
        n += 1
        seen.add(key)
        if len(sample) < 2 and n % 7 == 1:
            sample.append(short_inputs(vals))
        if m:
            bad = (m, vals)
            break
    return {'n': n, 'skip': skip, 'blind': blind,
            'blind_why': C.BLIND if blind else None, 'distinct': len(seen), 'cut': cut,
            'sample': sample, 'bad': pack(bad),
            'wall': round(time.time() - t0, 2)}


def run_tasks(tasks, jobs=8):
    ctx = mp.get_context('fork')
    pend = list(tasks)
    live = []
    res = {}
    while pend or live:
        while pend and len(live) < jobs:
            t = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(t, b))
            p.start()
            b.close()
            live.append((t, p, a, time.time()))
        nxt = []
        for t, p, a, t0 in live:
            done = False
            if a.poll(0):
                try:
                    res[t[:3]] = a.recv()
                except EOFError:
                    res[t[:3]] = {'error': 'worker died'}
                done = True
            elif not p.is_alive():
                if a.poll(0.2):
                    continue_recv = True
                    try:
                        res[t[:3]] = a.recv()
                    except EOFError:
                        res[t[:3]] = {'error': 'worker died'}
                else:
                    res[t[:3]] = {'error': 'worker died'}
                done = True
            elif time.time() - t0 > PROOF_WALL:
                p.kill()
                res[t[:3]] = {'error': 'wall clock limit %d s' % PROOF_WALL}
                done = True
            if done:
                p.join(2)
                a.close()
            else:
                nxt.append((t, p, a, t0))
        live = nxt
        time.sleep(0.01)
    return res


def load_known():
    p = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return []


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    global REG
    try:
        import dv.contract                               # noqa: F401
        import contracts.stubs
        contracts.stubs.install()
        REG = registry()
    except Exception:
        # a source file of /repo does not import: the build would fail too
        traceback.print_exc()
        return 3
    cts = REG.get(pid)
    if not cts:
        print('unknown property', pid)
        return 2
    mult = 1 if tier == 'quick' else 25
    wall = 100 if tier == 'quick' else 900
    global PROOF_WALL
    if tier != 'quick':
        PROOF_WALL = 2400
    tasks = []
    for ct in cts:
        if ct.mode == 'proof' and ct.proof_tier == 'thorough' and \
                tier == 'quick':
            # costly proof: left to the thorough command
            ct.mode = 'bounded'
            ct.samples *= 4
            ct.note = (ct.note + ' proof obligations are generated and '
                       'discharged by the thorough command only').strip()
        if ct.mode == 'proof':
            tasks.append(('proof', pid, ct.name))
    for ct in cts:
        tasks.append(('conc', pid, ct.name, seed, ct.samples * mult, wall))
    res = run_tasks(tasks)
    # functions that left the verified subset: deeper bounded stand-in
    again = []
    for ct in cts:
        if ct.mode == 'proof':
            r = res[('proof', pid, ct.name)]
            c = res[('conc', pid, ct.name)]
            if not c.get('bad') and (r.get('error') or
                                     r['status'] != 'proved'):
                again.append(('conc', pid, ct.name, seed + 1000,
                              ct.samples * mult * 8, wall))
    extra = run_tasks(again) if again else {}
    return report(pid, tier, seed, cts, res, extra, time.time() - t0)


def write_replay(pid, ct, kind, payload):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, ct.name.replace('/', '_')))
    payload.update({'property': pid, 'contract': ct.name,
                    'function': ct.fn, 'kind': kind,
                    'replay_cmd': 'python3 check.py --replay ' + path})
    with open(path, 'w') as f:
        json.dump(payload, f, indent=1)
    return path


def report(pid, tier, seed, cts, res, extra, wall):
    viol = []
    lines = []
    n_obl = n_ok = 0
    evals = distinct = 0
    by_backend = {}
    functions = set()
    assumed = set()
    per = []
    samples = []
    nproved = nbounded = 0
    solver_s = 0.0
    errors = []
    for ct in cts:
        c = res[('conc', pid, ct.name)]
        e = extra.get(('conc', pid, ct.name), {})
        row = {'contract': ct.name, 'function': ct.fn, 'mode': ct.mode}
        if ct.note:
            row['note'] = ct.note
        bad = c.get('bad') or e.get('bad')
        if c.get('error'):
            errors.append('%s: concrete run: %s' % (ct.name, c['error']))
            if 'trace' in c:
                print(c['trace'])
        elif not c.get('n') and not c.get('bad') and c.get('blind_why'):
            row['not_evaluated'] = c['blind_why']
        elif not c.get('n') and not c.get('bad'):
            errors.append('%s: no input satisfied the precondition'
                          % ct.name)
        for q in (c, e):
            evals += q.get('n', 0)
            distinct += q.get('distinct', 0)
        row['runtime_evaluations'] = c.get('n', 0) + e.get('n', 0)
        samples += [{'contract': ct.name, 'inputs': s}
                    for s in c.get('sample', [])[:1]]
        p = None
        if ct.mode == 'proof':
            p = res[('proof', pid, ct.name)]
            if p.get('error'):
                p = {'status': 'unsupported', 'reason': p['error'],
                     'obligs': [], 'failed': [], 'functions': [],
                     'assumed': [], 'solver': {}, 'paths': 0, 'loops': 0,
                     'bad': None}
            bad = bad or p.get('bad')
            row['proof'] = p['status']
            if p['reason']:
                row['reason'] = p['reason']
            row['paths'], row['loops'] = p['paths'], p['loops']
            row['obligations'] = len(p['obligs'])
            row['discharged'] = sum(1 for o in p['obligs']
                                    if o[2] == 'proved')
            row['solver'] = p['solver']
            if p['status'] == 'unsupported':
                nbounded += 1
                row['mode'] = 'bounded stand-in (this run: %s)' % p['reason']
            else:
                n_obl += row['obligations']
                n_ok += row['discharged']
                for o in p['obligs']:
                    if o[2] == 'proved':
                        by_backend[o[3]] = by_backend.get(o[3], 0) + 1
                functions |= set(p['functions'])
                assumed |= set(p['assumed'])
                solver_s += p['solver'].get('solver_seconds', 0)
                if p['status'] == 'proved':
                    nproved += 1
        else:
            nbounded += 1
        if bad:
            path = write_replay(pid, ct, 'failing input', {
                'why': bad['why'], 'inputs': bad['inputs'],
                'pickle': bad['pickle'],
                'obligations': p['failed'] if p else []})
            viol.append('VIOLATION property=%s replay=%s' % (pid, path))
            lines.append('  %s: %s\n    inputs %s' % (
                ct.name, bad['why'], bad['inputs']))
            row['violation'] = bad['why']
        elif p is not None and p['status'] == 'failed':
            path = write_replay(pid, ct, 'undischarged obligation', {
                'obligations': p['failed'], 'reason': p['reason'],
                'inputs_tried': evals})
            viol.append('VIOLATION property=%s replay=%s '
                        'no-failing-input-found' % (pid, path))
            lines.append('  %s: obligation not discharged: %s' % (
                ct.name, '; '.join(f['obligation'] + ' (' + f['status'] + ')'
                                   for f in p['failed']) or p['reason']))
            row['violation'] = 'undischarged'
        per.append(row)
    known = [k for k in load_known() if k.get('property') == pid
             and k.get('status') != 'fixed']
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    nothing = (n_obl == 0 and evals == 0)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'proof' if any(c.mode == 'proof' for c in cts)
        else 'exploration',
        'coverage': {
            'obligations': n_obl, 'discharged': n_ok,
            'checker_cmd': 'python3 check.py %s' % pid,
            'trusted_base': TRUSTED,
            'contracts_proved': nproved,
            'contracts_bounded_only': nbounded,
            'by_back_end': by_backend,
            'solver_seconds': round(solver_s, 2),
            'functions_under_contract': sorted(functions),
            'assumed_contracts': sorted(assumed),
            'evaluations': evals, 'distinct_nontrivial': distinct,
            'rule': 'runtime evaluation of the same contracts on the real '
                    'functions (bounded, never counted as proof): seeded '
                    'random and exhaustive small-scope inputs satisfying '
                    'the precondition; distinct by value',
            'samples': samples[:6] or ['none'],
            'contracts': per,
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d contracts, %d proved for all inputs, %d bounded; '
          '%d/%d obligations discharged; %d runtime evaluations; %.1f s' % (
              pid, len(cts), nproved, nbounded, n_ok, n_obl, evals, wall))
    for r in per:
        print('   %-34s %-28s %s' % (
            r['contract'], r.get('proof', 'bounded'),
            r.get('not_evaluated', r.get('reason', ''))))
    for x in lines:
        print(x)
    for x in errors:
        print('  error:', x)
    if viol:
        for v in viol:
            print(v)
        return 1
    if errors or (nothing and not all('not_evaluated' in r for r in per)):
        print('no verdict')
        return 3
    return 0


TRUSTED = [
    'dv/ (verification condition generator: meaning given to the Python and '
    'numpy subset, loop summarisation rule, summation lemmas)',
    'z3 5.3.2 (python binding), cvc5 1.1.2 (second back end)',
    'CPython / numpy for runtime evaluation of the contracts']
ASSUMPTIONS = [
    'integers and reals are mathematical (no overflow of int16 counters, no '
    'rounding of float64)',
    'partial correctness: termination of while loops is not proved',
    'numpy arrays passed in as different parameters do not share memory',
    'inputs have the documented types; preconditions are listed in '
    'contracts/*.py']


def replay(path):
    import contracts.stubs
    contracts.stubs.install()
    from dv import contract as C
    with open(path) as f:
        d = json.load(f)
    reg = registry()
    ct = [c for c in reg[d['property']] if c.name == d['contract']][0]
    if not d.get('pickle'):
        o = C.prove(ct, verbose=True)
        print(o.status, o.reason, o.failed)
        return 0 if o.status == 'proved' else 1
    vals = pickle.loads(base64.b64decode(d['pickle']))
    print('inputs', short_inputs(vals))
    m = C.run_concrete(ct, vals)
    print('contract', ct.name, 'on', ct.fn, '->', m or 'holds')
    return 0 if m in (None, 'skip', 'blind') else 1


REG = None
if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
