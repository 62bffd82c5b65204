"""Variables of an equation: texts assembled from tokens (names, numbers,
operators, calls, brackets, keyword arguments) whose names are known."""
from bounded.base import *   # noqa
import builtins

BOUND = 'token sequences of at most 12 tokens; 29 names, 22 number forms; 14 operators'
NAMES = ['a', 'b2', 'depth', 'x_y', 'e', 'E1', 'e5', 'tier2eff', 'x1e5',
         'np_a', 'pdx', 'npx', 'turbine_capacity', '_lead', 'A', 'mean_u',
         'in_', 'eff2e', 'a1', 'maximum', 'a12e3', 'v10E2', 'n_1e5', 'x22e1b',
         'maxx', 'sum_x', 'info', 'nanx', 'abs1']
NUMS = ['1', '2.5', '1e5', '1E5', '1e-5', '1.5e-3', '2.E+4', '.5', '.5e-3',
        '1.', '0', '10', '1e+5', '123.456', '3e0', '2e10', '.25E+2', '007.5',
        '6.02E23', '1_000', '5e-07', '0.0']
BINOPS = ['+', '-', '*', '/', '**', '>', '<', '>=', '<=', '==', '!=', '&',
          '|', '//']
FUNCS = ['np.exp', 'np.maximum', 'np.where', 'np.log2', 'max', 'min', 'abs',
         'np.e_fun', 'pd.isna', 'np.random.rand', 'round', 'float', 'sum']
WS = ['\t', '\n', '\r', ' \n ', '\t\t', '  ', '\r\n']
CONSTS = ['np.pi', 'np.e', 'np.inf', 'True']
KW = ['axis=0', 'axis=1', 'dtype=float', 'out=None']


def cases(tier, seed):
    rng = rng_for('C18', tier, seed)
    for n in NAMES:
        for num in NUMS:
            for op in BINOPS:
                sp = rng.choice(['', ' '])
                if rng.random() < .5:
                    yield 'text', {'t': n + sp + op + sp + num, 'v': [n]}
                else:
                    yield 'text', {'t': num + sp + op + sp + n, 'v': [n]}
    for n in NAMES + ['alpha']:
        for m in NAMES:
            op = rng.choice(BINOPS)
            sp = rng.choice(['', ' '])
            yield 'text', {'t': n + sp + op + sp + m, 'v': sorted({n, m})}
    for ws in WS:
        for n in ('a', 'b2', 'E1'):
            for t in ('{0}{1}', '{1}{0}', '{0}{1}+{1}2', '2{1}*{1}{0}',
                      '({0}{1}-{1}3)', 'np.maximum({1}{0}{1},{1}2)',
                      '({0}{1}>{1}1e-3)', '{0}{1}**{1}2', 'max({0}{1}, 3)'):
                yield 'text', {'t': t.format(n, ws), 'v': [n]}
    for num in NUMS:
        yield 'text', {'t': num, 'v': []}
        yield 'text', {'t': '-' + num, 'v': []}
    for num in [5, 2.5, -3, 1e-5, 1e30, 0.1]:
        yield 'num', {'x': num}
    for _ in range(12000 if tier == 'quick' else 50000):
        names = set()
        t = gen(rng, rng.randrange(1, 5), names)
        yield 'text', {'t': t, 'v': sorted(names)}


def gen(rng, depth, names):
    r = rng.random()
    if depth == 0 or r < .2:
        r = rng.random()
        if r < .55:
            n = rng.choice(NAMES)
            names.add(n)
            return n
        if r < .9:
            return rng.choice(NUMS)
        return rng.choice(CONSTS)
    if r < .65:
        sp = rng.choice(['', ' ', '', ' ', '  ', '\t', '\n'])
        return gen(rng, depth - 1, names) + sp + rng.choice(BINOPS) + sp + \
            gen(rng, depth - 1, names)
    if r < .78:
        return '(' + gen(rng, depth - 1, names) + ')'
    if r < .84:
        return '-' + gen(rng, 0, names)
    if r < .94:
        args = [gen(rng, depth - 1, names)
                for _ in range(rng.randrange(1, 4))]
        if rng.random() < .3:
            args.append(rng.choice(KW))
        return rng.choice(FUNCS) + '(' + rng.choice([',', ', ']).join(args) \
            + ')'
    return 'np.array([' + rng.choice([',', ', ']).join(
        gen(rng, depth - 1, names) for _ in range(2)) + '])'


def check(kind, data):
    if kind == 'num':
        e = run('create', Equation, data['x'])
        require(list(e.variables) == [], 'number {} has variables {}'
                .format(data['x'], e.variables))
        require(same_value(run('evaluate', e.evaluate), data['x']), 'value')
        return True
    t, v = data['t'], data['v']
    if any(f in t for f in ILLEGAL):
        return False
    e = run('create {!r}'.format(t), Equation, t)
    require(list(e.variables) == v, '{!r} has variables {} expected {}'
            .format(t, e.variables, v))
    require(list(Equation(t, name='zz_name').variables) == v, 'named')
    return bool(v)
