#!/usr/bin/env python3
"""Record what the deductive part discharges on the current tree of /repo in
contracts/baseline.json and write MANIFEST.json from it.  Run by hand when a
contract changes; no check runs it."""
import importlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    base_path = os.path.join(HERE, 'contracts', 'baseline.json')
    base = json.load(open(base_path)) if os.path.exists(base_path) else {}
    props = [json.loads(line)['id'] for line in
             open(os.path.join(HERE, 'properties.jsonl')) if line.strip()]
    want = sys.argv[1:] or props
    for p in want:
        if not os.path.exists(os.path.join(HERE, 'contracts',
                                           p.lower() + '.py')):
            base.pop(p, None)
            continue
        out = '/tmp/rebase_{}.json'.format(p)
        subprocess.run(['python3-vt', '-m', 'pyvc.prove', p, '--out', out,
                        '--budget', '600'], cwd=HERE, check=True)
        d = json.load(open(out))
        os.remove(out)
        obs = d['obligations']
        done = {o['name']: o['models'] for o in obs
                if o['status'] == 'discharged'}
        full = len(done) == len(obs)
        print(p, len(done), 'of', len(obs), d['solver_time_s'], 's',
              '' if full else [o['name'] for o in obs
                               if o['status'] != 'discharged'], flush=True)
        src = open(os.path.join(HERE, 'contracts', p.lower() + '.py')).read()
        partial = '\nPARTIAL = True' in src
        base[p] = {'level': 'proof' if full and not partial
                   else 'exploration',
                   'discharged': sorted(done),
                   'models': {k: v for k, v in sorted(done.items())},
                   'functions': d['functions']}
    with open(base_path, 'w') as f:
        json.dump(base, f, indent=1, sort_keys=True)
        f.write('\n')

    mpath = os.path.join(HERE, 'MANIFEST.json')
    man = json.load(open(mpath))
    for c in man['checks']:
        b = base.get(c['property'])
        if not b:
            c['technique'] = ('bounded stand-in: run-time contracts on the '
                              'real functions over enumerated and random '
                              'inputs')
            c['level'] = 'exploration'
            c['level_note'] = 'bounded, not proved; see DESIGN.md'
            continue
        c['technique'] = (
            'contract-based deductive verification: verification conditions '
            'generated from the current source of the functions under '
            'contract, discharged by z3/cvc5; plus bounded run-time '
            'contracts on the real code')
        c['level'] = b['level']
        c['level_note'] = (
            '{} obligations over {}; assumed contracts and models are listed '
            'in the evidence (trusted_base); {}'.format(
                len(b['discharged']), ', '.join(b['functions'])[:400],
                'the rest of the property is decided by the bounded stand-in'
                if b['level'] != 'proof' else
                'callee contracts of other properties are assumed here'))
    with open(mpath, 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
