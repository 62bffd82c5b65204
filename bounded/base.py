"""Run-time contract checks on the real NRWAL code (bounded part).

Every module cNN.py in this package defines

    cases(tier, seed)   a generator of (kind, data), data JSON-serialisable
    check(kind, data)   raises Fail when the property is broken by that case

Only NRWAL's public behaviour is used, so the checks do not depend on how the
code is written.  A failing case is written out as JSON and can be replayed.
"""
import contextlib
import itertools
import json
import logging
import math
import os
import random
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get('NRWAL_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')

import numpy as np            # noqa: E402
import pandas as pd           # noqa: E402

np.seterr(all='ignore')

from NRWAL import (Equation, EquationGroup, EquationDirectory,  # noqa: E402
                   NrwalConfig)
from NRWAL.handlers.groups import VariableGroup                 # noqa: E402
from NRWAL.utilities.utilities import (find_parens,             # noqa: E402
                                       find_np_pd_methods)

assert os.path.realpath(sys.modules['NRWAL'].__file__).startswith(
    os.path.realpath(REPO) + os.sep), sys.modules['NRWAL'].__file__

ILLEGAL = ('import ', 'os.', 'sys.', '.__', '__.', 'eval', 'exec')
OPS = ('+', '-', '*', '/', '**')
BASE_SEED = 20240229


class Fail(Exception):
    """The property is broken by the current case."""


class Known(Exception):
    """The case hits a listed known finding (id of the finding)."""


def rng_for(*parts):
    return random.Random(repr((BASE_SEED,) + parts))


def require(cond, msg):
    if not cond:
        raise Fail(msg)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='nrwalchk_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_tree(root, tree):
    """tree: {'name/': subtree, 'file.yaml': dict or text}"""
    import yaml
    for name, content in tree.items():
        path = os.path.join(root, name)
        if name.endswith('/'):
            os.makedirs(path)
            write_tree(path, content)
        elif isinstance(content, dict):
            with open(path, 'w') as f:
                if name.endswith('.json'):
                    json.dump(content, f)
                else:
                    yaml.safe_dump(content, f, sort_keys=False)
        else:
            with open(path, 'w') as f:
                f.write(str(content))


def outcome(fun, *args, **kwargs):
    """('ok', value) or ('err', exception class name, text)"""
    try:
        return ('ok', fun(*args, **kwargs))
    except Exception as e:
        return ('err', type(e).__name__, str(e)[:300])


def raises(fun, *args, **kwargs):
    return outcome(fun, *args, **kwargs)[0] == 'err'


def expect_error(what, fun, *args, **kwargs):
    out = outcome(fun, *args, **kwargs)
    if out[0] == 'ok':
        raise Fail('{}: expected an error but got {!r}'
                   .format(what, short(out[1])))
    return out


def run(what, fun, *args, **kwargs):
    """Call that must not raise."""
    try:
        return fun(*args, **kwargs)
    except Exception as e:
        raise Fail('{}: unexpected {}: {}'
                   .format(what, type(e).__name__, str(e)[:300]))


def short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'


def is_number(x):
    return (isinstance(x, (int, float, np.number))
            and not isinstance(x, bool))


def same_value(a, b, tol=0.0):
    """Equality of numbers / arrays; tol is absolute."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return False
            return bool(np.allclose(a.astype(float), b.astype(float),
                                    rtol=tol or 1e-12, atol=tol,
                                    equal_nan=True))
        except (TypeError, ValueError):
            return False
    if not is_number(a) or not is_number(b):
        return False
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol + 1e-12 * max(abs(a), abs(b))


# ------------------------------------------------------------ expressions
# trees are nested lists: ['n', '2.5'], ['v', 'x'], ['b', op, l, r],
# ['u', x] (minus sign), ['p', x] (redundant parentheses),
# ['c', 'np.exp', [args]]

PREC = {'+': 1, '-': 1, '*': 2, '/': 2, '**': 4}
SPACINGS = ((' ', ' '), ('', ''), (' ', ''), ('', ' '), ('\t', ' '),
            ('  ', '  '), ('\n', '\n'))


def render(t, sp=(' ', ' '), power='**', right_of_op=False):
    """Minimal-parentheses text of the tree, as Python would parse it."""
    k = t[0]
    if k in 'nv':
        return t[1]
    if k == 'p':
        return '(' + render(t[1], sp, power) + ')'
    if k == 'c':
        return t[1] + '(' + ', '.join(render(a, sp, power)
                                      for a in t[2]) + ')'
    if k == 'u':
        x = t[1]
        s = render(x, sp, power)
        if ((x[0] == 'b' and PREC[x[1]] < 3)
                or (x[0] == 'n' and x[1][0] == '-')):
            s = '(' + s + ')'
        return '-' + s
    op, l, r = t[1], t[2], t[3]
    p = PREC[op]
    sl, sr = render(l, sp, power), render(r, sp, power)
    if l[0] == 'b' and (PREC[l[1]] < p or (op == '**' and l[1] == '**')):
        sl = '(' + sl + ')'
    if op == '**' and (l[0] == 'u' or (l[0] == 'n' and l[1][0] == '-')):
        sl = '(' + sl + ')'
    if r[0] == 'b' and (PREC[r[1]] < p or (PREC[r[1]] == p and op != '**')):
        sr = '(' + sr + ')'
    o = power if op == '**' else op
    return sl + sp[0] + o + sp[1] + sr


class Skip(Exception):
    """The reference value is ill-conditioned; do not compare."""


def has_call(t):
    return t[0] == 'c' or any(has_call(x) for x in t if isinstance(x, list)
                              and x and isinstance(x[0], str))


def exact(t):
    """The exponent is written as a number: no rounding in it."""
    return t[0] == 'n' or (t[0] in 'pu' and exact(t[1]))


def ref_value(t, env, mag):
    """Reference value of a tree by plain arithmetic (no parsing at all).
    mag: one-element list tracking the largest intermediate magnitude."""
    k = t[0]
    if k == 'n':
        out = float(t[1])
    elif k == 'v':
        out = env(t[1])
    elif k == 'p':
        out = ref_value(t[1], env, mag)
    elif k == 'u':
        out = -ref_value(t[1], env, mag)
    elif k == 'c':
        args = [ref_value(a, env, mag) for a in t[2]]
        out = float(getattr(np, t[1].split('.', 1)[1])(*args))
    else:
        a = ref_value(t[2], env, mag)
        b = ref_value(t[3], env, mag)
        op = t[1]
        if op == '+':
            out = a + b
        elif op == '-':
            out = a - b
        elif op == '*':
            out = a * b
        elif op == '/':
            if abs(b) < 1e-3:
                raise Skip()
            out = a / b
        else:
            if a < 0 and not (b == int(b) and exact(t[3])):
                raise Skip()   # A rounding error decides: real or complex
            if abs(a) < 1e-3 or abs(b) > 40:
                raise Skip()
            if b < 0 and b == int(b) and (has_call(t[2]) or has_call(t[3])):
                raise Skip()   # numpy integers refuse negative powers
            try:
                out = a ** b
            except OverflowError:
                raise Skip()
    if isinstance(out, complex) or out != out or abs(out) > 1e12:
        raise Skip()
    mag[0] = max(mag[0], abs(out))
    return out


def tree_vars(t):
    if t[0] == 'v':
        return {t[1]}
    if t[0] == 'n':
        return set()
    if t[0] in 'pu':
        return tree_vars(t[1])
    if t[0] == 'c':
        return set().union(*[tree_vars(a) for a in t[2]])
    return tree_vars(t[2]) | tree_vars(t[3])


def shapes(n_ops):
    """All binary tree shapes with n_ops operator nodes."""
    if n_ops == 0:
        return ['leaf']
    out = []
    for i in range(n_ops):
        for l in shapes(i):
            for r in shapes(n_ops - 1 - i):
                out.append((l, r))
    return out


def fill(shape, ops, leaves):
    """Fill a shape with an operator iterator and a leaf iterator."""
    if shape == 'leaf':
        return next(leaves)
    l = fill(shape[0], ops, leaves)
    op = next(ops)
    r = fill(shape[1], ops, leaves)
    return ['b', op, l, r]


def all_trees(n_ops, leaf, ops=OPS):
    """All trees with n_ops binary operators; leaf(i) makes the i-th leaf."""
    for shape in shapes(n_ops):
        for choice in itertools.product(ops, repeat=n_ops):
            yield fill(shape, iter(choice),
                       (leaf(i) for i in itertools.count()))


def random_tree(rng, n_ops, leaf, unary=0.0, paren=0.1, call=0.0, top=True):
    if n_ops == 0:
        t = leaf(rng)
    else:
        i = rng.randrange(n_ops)
        op = rng.choice(('+', '-', '*', '/', '+', '-', '*', '/', '**'))
        t = ['b', op,
             random_tree(rng, i, leaf, unary, paren, call, False),
             random_tree(rng, n_ops - 1 - i, leaf, unary, paren, call,
                         False)]
    if call and rng.random() < call:
        if rng.random() < 0.5:
            t = ['c', rng.choice(('np.sqrt', 'np.abs', 'np.square')), [t]]
            if t[1] == 'np.sqrt':
                t = ['c', 'np.sqrt', [['c', 'np.abs', t[2]]]]
        else:
            t = ['c', rng.choice(('np.maximum', 'np.minimum')),
                 [t, leaf(rng)]]
    if unary and rng.random() < unary and t[0] != 'u':
        t = ['u', t]
    if paren and rng.random() < paren:
        t = ['p', t]
    return t


def wide_tree(rng, n, leaf, wrap=None):
    """n different parenthesised parts side by side or nested."""
    def part(i, inner=None):
        a = ['b', rng.choice('+-*'), inner or leaf(),
             ['n', str(i + 1.5)]]
        return wrap(a) if wrap and rng.random() < .3 else ['p', a]
    if rng.random() < .3:
        t = part(0)
        for i in range(1, n):
            t = part(i, t)
        return ['b', '-', leaf(), t]
    t = part(0)
    for i in range(1, n):
        t = ['b', rng.choice('+--'), t, part(i)]
    return t


def env_values(names, rng):
    return {n: round(rng.uniform(1.05, 2.6), 3) for n in sorted(names)}


def compare_value(what, got, tree, env, deps=''):
    """Compare a value against the reference value of a tree."""
    mag = [1.0]
    try:
        ref = ref_value(tree, env, mag)
    except Skip:
        return False
    if not is_number(got) or not same_value(got, ref, 1e-8 * mag[0]):
        raise Fail('{}: value {} but the standard value is {} {}'
                   .format(what, short(got), ref, deps))
    return True


def numeric(x):
    """A plain float from a number or 0-d / 1-element array, else None."""
    if is_number(x):
        return float(x)
    if isinstance(x, np.ndarray) and x.size == 1:
        return float(x.ravel()[0])
    return None
