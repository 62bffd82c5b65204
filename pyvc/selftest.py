"""python3-vt -m pyvc.selftest [-v]: pyvc against CPython.

Every function of selftest_cases is run by CPython on its inputs and executed
by pyvc on the same inputs, as constants and as symbolic values that are only
*assumed* to equal them.  What CPython does (value, exception, effects on the
arguments) must be possible on some path of pyvc: otherwise pyvc could prove
something false, and the self-test fails.  'exact' counts the runs where pyvc
proves that nothing else is possible, 'wider' those where it knows less
(uninterpreted string functions and the like), 'unsupported' those it
refuses."""
import ast
import copy
import os
import sys
import time

import z3

from contracts.common import dom, outcome, setup
from pyvc import regex, selftest_cases as cases
from pyvc.ctx import Report, explore
from pyvc.models import contains
from pyvc.interp import DictState, Interp, ListState, Program, SeqState
from pyvc.values import Ref, S, Unsupported, V

NAME = 'NRWAL.selftest'


def program():
    p = Program()
    path = os.path.join(os.path.dirname(__file__), 'selftest_cases.py')
    with open(path) as f:
        p.trees[NAME] = ast.parse(f.read())
    p.load(NAME)
    return p


def embed(I, x, symbolic, n=[0]):
    """A python value as a value of pyvc."""
    if isinstance(x, dict) and symbolic == 'unknown':
        n[0] += 1
        vals = {k: I.tv(embed(I, v, 'any')) for k, v in x.items()}
        d = z3.Function('dom{}'.format(n[0]), V, z3.BoolSort())
        v = z3.Function('val{}'.format(n[0]), V, V)

        for w, t in vals.items():
            I.ctx.define(z3.And(d(I.tv(w)), v(I.tv(w)) == t))
        return I.sym_dict(d, v, lambda k, x: z3.Or(
            [z3.And(k == I.tv(w), x == t) for w, t in vals.items()]
            or [z3.BoolVal(False)]))
    if isinstance(x, dict):
        return I.new_dict([(k, embed(I, v, symbolic)) for k, v in x.items()])
    if isinstance(x, list):
        return I.new_list([embed(I, v, symbolic) for v in x])
    if symbolic == 'no':
        return x
    n[0] += 1
    if symbolic == 'typed' and isinstance(x, (bool, int, str)):
        kind, sort, val = (
            ('bool', z3.BoolSort(), z3.BoolVal) if isinstance(x, bool) else
            ('int', z3.IntSort(), z3.IntVal) if isinstance(x, int) else
            ('str', z3.StringSort(), z3.StringVal))
        c = I.ctx.const('in{}'.format(n[0]), sort)
        I.ctx.assume(c == val(x))
        return S(kind, c)
    c = I.ctx.const('in{}'.format(n[0]), V)
    I.ctx.assume(c == I.tv(x))
    return S('v', c)


def same(I, got, want):
    """The obligation that a value of pyvc is a python value."""
    got = I.force(got)
    if isinstance(want, (list, tuple)) and isinstance(got, tuple):
        if type(want) is not tuple or len(got) != len(want):
            return z3.BoolVal(False)
        return z3.And([same(I, g, w) for g, w in zip(got, want)]
                      or [z3.BoolVal(True)])
    if isinstance(got, Ref):
        st = I.state(got)
        if isinstance(st, DictState):
            if not isinstance(want, dict):
                return z3.BoolVal(False)
            k = I.ctx.const('any_key', V)
            has = dom(I, got, k)
            out = []
            for w, x in want.items():
                if not I.test(contains(I, got, w)):
                    return z3.BoolVal(False)
                out.append(same(I, I.getitem(got, w), x))
            out.append(z3.Implies(has, z3.Or([k == I.tv(w) for w in want]
                                             or [z3.BoolVal(False)])))
            return z3.And(out or [z3.BoolVal(True)])
        if isinstance(st, ListState):
            if not isinstance(want, list):
                return z3.BoolVal(False)
            if any(p.params for p in st.parts):
                raise Unsupported('list of unknown length')
            # conditional elements: the guards are decided by the assumptions
            items = [p.elem for p in st.parts if I.ctx.branch(p.guard)]
            if len(items) != len(want):
                return z3.BoolVal(False)
            return z3.And([same(I, g, w) for g, w in zip(items, want)]
                          or [z3.BoolVal(True)])
        if isinstance(st, SeqState):
            if not isinstance(want, (list, tuple)):
                return z3.BoolVal(False)
            return z3.And([st.n == len(want)] + [
                same(I, st.elem(z3.IntVal(i)), w)
                for i, w in enumerate(want)])
        raise Unsupported('result object')
    if isinstance(want, (dict, list, tuple)):
        if isinstance(got, S):
            raise Unsupported('opaque result')
        return z3.BoolVal(False)
    return I.tv(got) == I.tv(want)


def main():
    p = program()
    tally = {'exact': 0, 'wider': 0, 'unsupported': 0}
    bad = 0
    t0 = time.time()
    for name, inputs in cases.CASES:
        for args in inputs:
            mine = copy.deepcopy(args)
            try:
                want = ('ok', getattr(cases, name)(*mine))
            except Exception as e:                       # noqa: B902
                want = ('raise', type(e).__name__)
            for symbolic in ('no', 'typed', 'any', 'unknown'):
                rep = Report(time.time() + 60)
                seen = []

                def go(ctx):
                    I = Interp(p, ctx)
                    setup(I, views=False)
                    I.contracts.clear()
                    regex.install(I)
                    a = [embed(I, x, symbolic) for x in args]
                    ctx.cover('inputs')
                    f = p.modules[NAME].env[name]
                    kind, r = outcome(I, lambda: I.run_body(f, list(a), {}))
                    if kind != want[0]:
                        ctx.prove('agrees', z3.BoolVal(False))
                        return
                    if kind == 'raise':
                        goal = z3.BoolVal(r.cls.__name__ == want[1])
                    else:
                        goal = z3.And([same(I, r, want[1])] + [
                            same(I, x, w) for x, w in zip(a, mine)])
                    ctx.solver.push()
                    ctx.solver.add(goal)
                    if ctx.solver.check_full() != z3.unsat:
                        seen.append(goal)
                    ctx.solver.pop()
                    ctx.prove('agrees', goal)
                what = '{}{!r} [{}]'.format(name, args, symbolic)
                try:
                    explore(rep, go)
                except Unsupported as e:
                    tally['unsupported'] += 1
                    if '-v' in sys.argv:
                        print('gap', what, e)
                    continue
                if not seen:
                    bad += 1
                    print('ERROR: no path of pyvc is what CPython does:',
                          what, want, rep.obs)
                    continue
                status = rep.obs['agrees']['status']
                tally['exact' if status == 'discharged' else 'wider'] += 1
                if status != 'discharged' and '-v' in sys.argv:
                    print('wider', what, rep.obs['agrees']['detail'][:200])
    print(tally, round(time.time() - t0, 1), 's')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
