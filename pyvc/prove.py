"""python3-vt -m pyvc.prove CNN --out FILE [--tier T] [--budget S]

Runs the proof harnesses of contracts/cNN.py on the current source of /repo
and writes the obligations and their outcome."""
import argparse
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

import z3

from pyvc.ctx import Report, explore, OutOfTime
from pyvc.interp import Program, Interp
from pyvc.values import Unsupported, PyRaise, Infeasible


def run_harness(mod_name, name, deadline):
    mod = importlib.import_module(mod_name)
    fn = dict(mod.HARNESSES)[name]
    rep = Report(deadline)
    t0 = time.time()
    reason = None
    try:
        program = Program()
        if getattr(fn, 'static', False):
            fn(program, rep)
        else:
            def go(ctx):
                fn(Interp(program, ctx))
            explore(rep, go)
    except (Unsupported, OutOfTime) as e:
        reason = '{}: {}'.format(type(e).__name__, e)
    except PyRaise as e:
        reason = 'harness error: the code raises {} outside the harness' \
            .format(e.cls.__name__)
    except Infeasible:
        reason = 'harness error: infeasible'
    except RecursionError:
        reason = 'engine recursion limit'
    except Exception:                      # engine error: never a verdict
        reason = 'engine error: ' + traceback.format_exc()[-1500:]
    if reason is None and not rep.obs:
        reason = 'no obligation was generated'
    if reason is None and not all(rep.covers.values()):
        reason = 'precondition not satisfiable: ' + str(
            [k for k, v in rep.covers.items() if not v])
    obs = list(rep.obs.values())
    if reason is not None:
        # nothing from an incomplete exploration counts as discharged; a
        # refutation found before the engine gave up still stands
        for o in obs:
            if o['status'] == 'discharged':
                o['status'] = 'undecided'
                o['detail'] = reason
        if not obs:
            obs = [{'name': 'all', 'status': 'undecided', 'detail': reason,
                    'paths': 0, 'backend': '-'}]
    for o in obs:
        o['name'] = name + ': ' + o['name']
        o['models'] = sorted(rep.models_used)
    return {'name': name, 'obs': obs, 'reason': reason,
            'paths': rep.paths, 'solver_time': rep.solver_time,
            'queries': rep.queries, 'backends': rep.backends,
            'covers': rep.covers, 'inlined': sorted(rep.inlined),
            'contracts': sorted(rep.contracts_used),
            'models': sorted(rep.models_used),
            'wall': round(time.time() - t0, 2),
            'sources': Program().sources if reason is None else {}}


def _work(a):
    return run_harness(*a)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--budget', type=float, default=400)
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.setrecursionlimit(6000)
    mod_name = 'contracts.' + a.prop.lower()
    mod = importlib.import_module(mod_name)
    deadline = time.time() + a.budget
    names = [n for n, _ in mod.HARNESSES if not a.only or a.only in n]
    jobs = [(mod_name, n, deadline) for n in names]
    if len(jobs) == 1 or a.jobs == 1:
        results = [_work(j) for j in jobs]
    else:
        with multiprocessing.get_context('fork').Pool(
                min(a.jobs, len(jobs)), maxtasksperchild=1) as pool:
            results = pool.map(_work, jobs, 1)
    obs, notes, inlined, contracts, models = [], [], set(), set(), set()
    covers, backends, sources = {}, {}, {}
    for r in results:
        obs += r['obs']
        if r['reason']:
            notes.append('{}: {}'.format(r['name'], r['reason']))
        inlined |= set(r['inlined'])
        contracts |= set(r['contracts'])
        models |= set(r['models'])
        covers.update({r['name'] + ': ' + k: v
                       for k, v in r['covers'].items()})
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
        sources.update(r['sources'])
    cvc5 = subprocess.run(['cvc5', '--version'], capture_output=True,
                          text=True).stdout.split('\n')[0]
    out = {
        'property': a.prop, 'obligations': obs, 'notes': notes,
        'functions': list(mod.FUNCTIONS),
        'inlined': sorted(inlined), 'contracts_used': sorted(contracts),
        'models': sorted(models),
        'backend': 'z3 {} ({}); {}'.format(z3.get_version_string(),
                                           backends, cvc5),
        'solver_time_s': round(sum(r['solver_time'] for r in results), 2),
        'queries': sum(r['queries'] for r in results),
        'paths': sum(r['paths'] for r in results),
        'covers': covers, 'sources': sources,
        'trusted_base': TRUSTED + ['model of ' + m for m in sorted(models)]
        + ['assumed contract: ' + c for c in sorted(
            getattr(mod, 'ASSUMED', []))],
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'bounded_for': list(getattr(mod, 'BOUNDED_FOR', [])),
        'walls': {r['name']: r['wall'] for r in results},
    }
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(out, f, indent=1)
    if a.v or not a.out:
        nd = sum(o['status'] == 'discharged' for o in obs)
        print('{} of {} discharged'.format(nd, len(obs)))
        for o in obs:
            if o['status'] == 'discharged' and not a.v:
                continue
            print('{:11s} {:4d} {} {}'.format(
                o['status'], o['paths'], o['name'],
                '' if o['status'] == 'discharged' else '-- ' + o['detail']))
        for n in notes:
            print('NOTE', n)
        print('covers', covers)
        print(out['backend'], 'solver', out['solver_time_s'], 'paths',
              out['paths'], out['walls'])
    return 0


TRUSTED = [
    'pyvc: the verification-condition generator in /verif/pyvc (own code; '
    'compared with CPython by pyvc/selftest.py)',
    'z3 and cvc5',
    'Python float arithmetic treated as real arithmetic; str as sequences '
    'of characters',
    'logging calls have no effect; __str__ and __repr__ return some text '
    'and have no effect',
]


if __name__ == '__main__':
    sys.exit(main())
