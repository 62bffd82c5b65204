#!/usr/bin/env python3
"""check.py CNN [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property of NREL/NRWAL on the current tree of /repo:

1. the deductive part (pyvc + contracts/cNN.py): obligations generated from
   the source files of /repo as they are now, discharged by z3 / cvc5;
2. the bounded part (bounded/cNN.py): run-time contracts on the real code,
   which stand in for what the deductive part does not reach and which replay
   refutations on the real code.

Exit 0: held.  Exit 1 and a VIOLATION line: broken.
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NRWAL_REPO', '/repo')
REAL_PY = '/opt/venv/bin/python'
PROVER_PY = 'python3-vt'
EVID = os.path.join(HERE, 'evidence')


def load_known():
    """Entries of known_findings.txt: KNOWN lines by finding id."""
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('known: '):
                parts = dict(p.split('=', 1) for p in line.split()[1:3])
                text = line.split(' ', 3)[3]
                out[parts['id']] = (parts['property'], text)
    return out


def load_baseline(prop):
    path = os.path.join(HERE, 'contracts', 'baseline.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        return json.load(f).get(prop, {})


def start(cmd, log, env):
    return subprocess.Popen(cmd, cwd=HERE, stdout=log, stderr=subprocess.STDOUT,
                            env=env, start_new_session=True)


def wait(proc, limit):
    try:
        proc.wait(timeout=max(1, limit))
        return proc.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(proc.pid, 9)
        except OSError:
            pass
        proc.wait()
        return 'timeout'


def read_json(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--no-prover', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['NRWAL_REPO'] = REPO

    if a.replay:
        r = read_json(a.replay)
        if r is None or 'case' not in r:
            print('no real input recorded in', a.replay)
            print(json.dumps(r, indent=1)[:4000])
            return 0
        p = subprocess.run([REAL_PY, '-m', 'bounded.run', prop,
                            '--replay', a.replay], cwd=HERE, env=env)
        return p.returncode

    b_out = os.path.join(EVID, prop + '.bounded.json')
    p_out = os.path.join(EVID, prop + '.prover.json')
    for f in (b_out, p_out):
        if os.path.exists(f):
            os.remove(f)
    has_prover = (os.path.exists(os.path.join(
        HERE, 'contracts', prop.lower() + '.py')) and not a.no_prover)

    b_budget = 90 if tier == 'quick' else 900
    p_budget = 360 if tier == 'quick' else 1800
    b_log = open(os.path.join(EVID, prop + '.bounded.log'), 'w')
    p_log = open(os.path.join(EVID, prop + '.prover.log'), 'w')
    b_cmd = [REAL_PY, '-m', 'bounded.run', prop, '--tier', tier, '--seed',
             str(a.seed), '--out', b_out, '--budget', str(b_budget)]
    p_cmd = [PROVER_PY, '-m', 'pyvc.prove', prop, '--tier', tier, '--out',
             p_out, '--budget', str(p_budget)]
    bproc = start(b_cmd, b_log, env)
    pproc = start(p_cmd, p_log, env) if has_prover else None
    b_rc = wait(bproc, b_budget + 120)
    bounded = read_json(b_out)
    p_left = p_budget + 40 - (time.time() - t0)
    if bounded and bounded['failures']:
        p_left = min(p_left, 60)     # a failing input is at hand
    p_rc = wait(pproc, p_left) if pproc else None

    prover = read_json(p_out) if has_prover else None
    known = load_known()
    base = load_baseline(prop)
    violations = []          # (replay path, suffix)
    notes = []

    # ---- bounded part
    known_hit = {}
    if bounded is None:
        notes.append('the bounded part gave no answer (exit {})'.format(b_rc))
        bounded = {'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [],
                   'failures': [], 'known': [], 'rule': '', 'bound': '',
                   'kinds': {}, 'exhausted': False}
    for k in bounded['known']:
        known_hit.setdefault(k['id'], k)
    for n, f in enumerate(bounded['failures']):
        path = os.path.join(EVID, '{}.replay.{}.json'.format(prop, n))
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'case': {'kind': f['kind'],
                                                  'data': f['data']},
                       'message': f['message'],
                       'how': 'python3 check.py {} --replay {}'.format(
                           prop, path)}, fh, indent=1)
        violations.append((path, '', f['message']))

    # ---- deductive part
    refuted, undecided, discharged, obligations = [], [], [], []
    if has_prover and prover is None:
        notes.append('the deductive part gave no answer (exit {})'
                     .format(p_rc))
    elif has_prover:
        obligations = prover['obligations']
        for o in obligations:
            {'discharged': discharged, 'refuted': refuted}.get(
                o['status'], undecided).append(o)
        notes += prover.get('notes', [])
    expected = set(base.get('discharged', []))
    got = {o['name'] for o in discharged}
    lost = sorted(expected - got)
    if lost:
        notes.append('obligations discharged on the reference tree and not '
                     'now (bounded stand-in decides): ' + ', '.join(lost))
    # a refutation that rests on the model of a library function that the
    # reference tree did not need is not taken at its word
    seen = base.get('models', {})
    serious = [o for o in refuted if o['name'] in expected
               and set(o.get('models', [])) <= set(seen.get(o['name'], []))]
    for o in refuted:
        if o not in serious:
            notes.append('refuted, but not reported (new obligation or new '
                         'library model; bounded stand-in decides): '
                         + o['name'])
    deep = None
    if (serious or lost or (has_prover and prover is None)) \
            and not violations and not a.no_prover:
        # look for a real failing input with the deeper bounded search
        extra_budget = max(10, min(200, 640 - (time.time() - t0)))
        deep_out = os.path.join(EVID, prop + '.deep.json')
        cmd = [REAL_PY, '-m', 'bounded.run', prop, '--tier', 'thorough',
               '--seed', str(a.seed + 7), '--out', deep_out, '--budget',
               str(extra_budget)]
        wait(start(cmd, b_log, env), extra_budget + 60)
        deep = read_json(deep_out)
    if not violations and (serious or (deep and deep['failures'])):
        case = None
        if deep and deep['failures']:
            case = deep['failures'][0]
        path = os.path.join(EVID, '{}.replay.json'.format(prop))
        rec = {'property': prop,
               'failed_obligations': serious,
               'verifier': (prover or {}).get('backend'),
               'checker_cmd': ' '.join(p_cmd)}
        suffix = ' no-failing-input-found'
        if case:
            rec['case'] = {'kind': case['kind'], 'data': case['data']}
            rec['message'] = case['message']
            suffix = ''
        with open(path, 'w') as fh:
            json.dump(rec, fh, indent=1)
        violations.append((path, suffix, '; '.join(
            ([case['message']] if case else []) + [
            'obligation {} refuted: {}'.format(o['name'], o['detail'][:300])
            for o in serious[:3]])))
    elif serious:
        for path, _, _ in violations:
            d = read_json(path)
            d['failed_obligations'] = serious
            with open(path, 'w') as fh:
                json.dump(d, fh, indent=1)

    n_ob, n_dis = len(obligations), len(discharged)
    full = bool(n_ob) and n_ob == n_dis and not lost
    level = base.get('level', 'exploration') if full else 'exploration'
    cov = {
        'evaluations': bounded['evaluations'],
        'distinct_nontrivial': bounded['distinct_nontrivial'],
        'rule': bounded.get('rule', ''),
        'samples': bounded['samples'],
        'bound': bounded.get('bound', ''),
        'bounded_cases_by_kind': bounded.get('kinds', {}),
        'bounded_enumeration_completed': bounded.get('exhausted', False),
        'obligations': n_ob,
        'discharged': n_dis,
        'refuted': len(refuted),
        'undecided': len(undecided),
        'checker_cmd': ' '.join(p_cmd) if has_prover else '',
        'trusted_base': (prover or {}).get('trusted_base', []),
    }
    if prover:
        cov['functions_under_contract'] = prover.get('functions', [])
        cov['functions_inlined'] = prover.get('inlined', [])
        cov['contracts_used_at_calls'] = prover.get('contracts_used', [])
        cov['backend'] = prover.get('backend')
        cov['solver_time_s'] = prover.get('solver_time_s')
        cov['paths'] = prover.get('paths')
        cov['covers_reached'] = prover.get('covers')
        cov['source_sha256'] = prover.get('sources')
        cov['obligation_list'] = [
            {k: o[k] for k in ('name', 'status', 'backend', 'paths')
             if k in o} for o in obligations]
        cov['decided_by_bounded_stand_in'] = prover.get('bounded_for', [])
    evidence = {
        'property': prop, 'tier': tier, 'seed': a.seed, 'level': level,
        'coverage': cov,
        'assumptions': (prover or {}).get('assumptions', [])
        + ['bounded part: ' + (bounded.get('bound') or 'see rule')],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if notes:
        evidence['coverage']['notes'] = notes
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for n in notes:
        print('note:', n)
    print('{}: {} of {} obligations discharged, {} refuted; bounded: {} cases '
          '({} non-trivial), {} failures; {:.1f} s'
          .format(prop, n_dis, n_ob, len(refuted), bounded['evaluations'],
                  bounded['distinct_nontrivial'], len(bounded['failures']),
                  time.time() - t0))
    for kid, hit in sorted(known_hit.items()):
        if kid in known and known[kid][0] == prop:
            print('KNOWN-FINDING: property={} {} e.g. {}'.format(
                prop, known[kid][1], json.dumps(hit['data'])[:300]))
        else:
            path = os.path.join(EVID, prop + '.replay.known.json')
            with open(path, 'w') as fh:
                json.dump({'property': prop, 'case': hit}, fh)
            violations.append((path, '', 'unlisted finding ' + kid))
    for path, suffix, msg in violations[:3]:
        print('  ', msg[:600])
    if violations:
        path, suffix, _ = violations[0]
        print('VIOLATION property={} replay={}{}'.format(prop, path, suffix))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
