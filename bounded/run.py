"""Runner: python -m bounded.run CNN --tier quick --seed 1 --out FILE
          python -m bounded.run CNN --replay FILE"""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback

CASE_LIMIT = 30     # seconds; on the unchanged tree a case takes milliseconds


class CaseTimeout(BaseException):
    pass


def on_alarm(signum, frame):
    raise CaseTimeout('no answer after {} s'.format(CASE_LIMIT))

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def key_of(kind, data):
    return json.dumps([kind, data], sort_keys=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--extra', help='JSON list of extra cases to try first')
    a = ap.parse_args()

    out = {'evaluations': 0, 'distinct_nontrivial': 0, 'kinds': {},
           'samples': [], 'failures': [], 'known': [], 'error': None,
           'exhausted': True}
    t0 = time.time()
    try:
        from bounded import base
        mod = importlib.import_module('bounded.' + a.prop.lower())
    except BaseException as e:   # the package cannot even be imported
        out['failures'].append({'kind': 'import', 'data': None,
                                'message': 'cannot import: {!r}'.format(e),
                                'trace': traceback.format_exc()[-2000:]})
        out['wall_s'] = time.time() - t0
        text = json.dumps(out)
        if a.out:
            open(a.out, 'w').write(text)
        else:
            print(text)
        return 1

    if a.replay:
        d = json.load(open(a.replay))
        cases = [(d['case']['kind'], d['case']['data'])]
    else:
        def gen():
            if a.extra:
                for k, d in json.load(open(a.extra)):
                    yield k, d
            for c in mod.cases(a.tier, a.seed):
                yield c
        cases = gen()
    signal.signal(signal.SIGALRM, on_alarm)
    budget = a.budget or (60 if a.tier == 'quick' else 600)
    seen = set()
    for kind, data in cases:
        data = json.loads(json.dumps(data))
        k = hash(key_of(kind, data))
        if k in seen:
            continue
        seen.add(k)
        out['evaluations'] += 1
        try:
            signal.alarm(CASE_LIMIT)
            try:
                # a copy: the code under test may change it
                nontrivial = mod.check(kind, json.loads(json.dumps(data)))
            finally:
                signal.alarm(0)
        except base.Known as e:
            out['known'].append({'id': str(e), 'kind': kind, 'data': data})
            nontrivial = True
        except base.Fail as e:
            out['failures'].append({'kind': kind, 'data': data,
                                    'message': str(e)})
            if len(out['failures']) >= 3:
                break
            continue
        except base.Skip:
            nontrivial = False
        except (Exception, CaseTimeout) as e:
            # the code's answer is not even of the kind the contract names
            out['failures'].append({
                'kind': kind, 'data': data,
                'message': 'unexpected {}: {}'.format(type(e).__name__,
                                                      str(e)[:300]),
                'trace': traceback.format_exc()[-3000:]})
            if len(out['failures']) >= 3:
                break
            continue
        if nontrivial is not False:
            out['distinct_nontrivial'] += 1
            n = out['kinds'].get(kind, 0)
            out['kinds'][kind] = n + 1
            if n < 1 and len(out['samples']) < 12:
                out['samples'].append([kind, data])
        if time.time() - t0 > budget:
            out['exhausted'] = False
            break
    out['rule'] = getattr(mod, 'RULE', mod.__doc__ or '')
    out['bound'] = getattr(mod, 'BOUND', '')
    out['wall_s'] = time.time() - t0
    text = json.dumps(out)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(text)
    else:
        for f in out['failures']:
            print('FAIL', f['kind'], json.dumps(f['data'])[:600])
            print('    ', f['message'])
        print({k: v for k, v in out.items()
               if k not in ('failures', 'samples', 'known', 'rule', 'bound')},
              'failures', len(out['failures']), 'known', len(out['known']))
    return 1 if out['failures'] else 0


if __name__ == '__main__':
    sys.exit(main())
