"""Arithmetic of Equation objects is arithmetic of their values.  All pairs of
a list of operand texts under all operators, all two-step combinations, and
random deeper combinations; every operand is evaluated on its own."""
from bounded.base import *   # noqa

BOUND = 'operand texts: 30 forms and random trees of at most 4 operators; combination depth at most 4'
TEXTS = ['a', 'b', '2', '-2', '0.5', '-1.5', '1e-3', '-2e1', 'a + b', 'a - b',
         'a-b', 'a*b', 'a/b', 'a ** b', '-a', '-a ** 2', 'a - b - c',
         '(a + b) * (c - 5)', '(a)', 'np.exp(a) - 7', 'np.maximum(a, b)',
         'a > b', 'a+b', '2 - a', '-(a + b)', 'tier2', 'a*-b', ' -3 ',
         ' a ', '+4', 'np.minimum(a, 3) * -c', 'a == b', 'a//b + 1', '1E+1',
         '3 if a > b else 4', 'np.where(a > b, a, b)', '-b', '.5', '1.',
         'np.pi', 'np.pi*a', '0', '-1e-5', 'np.exp(a) - np.exp(b)',
         'np.abs(a)*(b)', '-2.5e+1', '1', '0.0', 'a\n- b', 'np.pi - 4', '1_0',
         '(a) - (b)', 'max(a, b) - min(b, 1)', 'a*\t-2', '-1', '1.0', '12']
NAMES = ['a', 'b', 'c', 'tier2']


def apply(op, x, y):
    return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
            '/': lambda: x / y, '**': lambda: x ** y}[op]()


def cases(tier, seed):
    rng = rng_for('C03', tier, seed)
    for t1 in TEXTS:
        for t2 in TEXTS:
            for op in OPS:
                yield 'pair', {'t1': t1, 't2': t2, 'op': op,
                               'raw': rng.choice([0, 0, 1])}
    for num in [2, -3, 0.25, -0.5, 4.0, 0, 1, -1, 1e-7, -2.5e16, True]:
        for t1 in TEXTS:
            for op in OPS:
                yield 'num', {'t1': t1, 'num': num, 'op': op}
    for d1 in ({}, {'a': 1.2}, {'a': 1.3, 'b': 2.1}):
        for d2 in ({}, {'a': 1.9}, {'b': 1.1, 'c': 3.0}, {'a': 0.0},
                   {'b': 0.0, 'a': 1.0}):
            for op in OPS:
                yield 'defaults', {'d1': d1, 'd2': d2, 'op': op}
    n = 2500 if tier == 'quick' else 60000
    for _ in range(n):
        def leaf(r):
            return ['v', r.choice(NAMES)] if r.random() < .6 else \
                ['n', r.choice(['2', '3', '0.5', '-2', '-0.5', '1e-1'])]

        def expr(k):
            if k == 0:
                return ['t', random_tree(rng, rng.randrange(5), leaf,
                                         unary=.2, paren=.15)]
            return ['o', rng.choice(OPS), expr(rng.randrange(k)),
                    expr(rng.randrange(k))]
        yield 'deep', {'e': expr(rng.randrange(1, 4)),
                       's': rng.randrange(10 ** 6)}


def env_for(s):
    return env_values(NAMES, rng_for('env', s))


def val(e, env):
    """value of a single operand by its own evaluation ('ok', v) or None"""
    out = outcome(e.evaluate, **env)
    if out[0] == 'err':
        return None
    return out[1]


def ref_op(op, x, y):
    """The operation on values or Skip."""
    if x is None or y is None:
        raise Skip()
    if any(isinstance(z, complex) for z in (x, y)):
        raise Skip()
    x, y = float(x), float(y)
    if op == '/' and abs(y) < 1e-6:
        raise Skip()
    if op == '**':
        if (x < 0 and y != int(y)) or abs(y) > 60 or abs(x) < 1e-9:
            raise Skip()
    try:
        out = apply(op, x, y)
    except (OverflowError, ZeroDivisionError):
        raise Skip()
    if isinstance(out, complex) or not math.isfinite(out) or abs(out) > 1e200:
        raise Skip()
    return out


def snap(e):
    return e.full, list(e.variables), dict(e.default_variables)


def check(kind, data):
    if kind == 'defaults':
        t1, t2 = 'a + 2*b', 'a*b - c'
        e1 = Equation(t1, default_variables=dict(data['d1']))
        e2 = Equation(t2, default_variables=dict(data['d2']))
        s1, s2 = snap(e1), snap(e2)
        out = run('combine', apply, data['op'], e1, e2)
        merged = dict(data['d1'])
        merged.update(data['d2'])
        require(dict(out.default_variables) == merged,
                'merged defaults {} expected {}'
                .format(out.default_variables, merged))
        require(snap(e1) == s1 and snap(e2) == s2, 'operands changed')
        env = {'a': 2.3, 'b': 1.7, 'c': 1.6}
        need = {k: v for k, v in env.items() if k not in merged}
        env.update(merged)
        got = run('evaluate', out.evaluate, **need)
        ref = ref_op(data['op'], val(Equation(t1), env),
                     val(Equation(t2), env))
        require(same_value(got, ref, 1e-9), 'defaults {} {} op {}: {} '
                'instead of {}'.format(data['d1'], data['d2'], data['op'],
                                       got, ref))
        out.set_default_variables({'a': 77.0, 'zz': 3.0})
        require(snap(e1) == s1 and snap(e2) == s2,
                'changing the result changes an operand')
        e1.set_default_variables({'a': 55.0})
        require(out.default_variables['a'] == 77.0,
                'changing an operand changes the result')
        return True
    if kind in ('pair', 'num'):
        e1 = run('create', Equation, data['t1'])
        other = data['num'] if kind == 'num' else data['t2']
        e2 = run('create', Equation, other)
        s1, s2 = snap(e1), snap(e2)
        out = run('{!r} {} {!r}'.format(data['t1'], data['op'], other),
                  apply, data['op'], e1,
                  other if kind == 'num' or data.get('raw') else e2)
        require(snap(e1) == s1 and snap(e2) == s2, 'operands changed')
        nt = False
        for s in range(3):
            env = env_for(s)
            try:
                ref = ref_op(data['op'], val(e1, env), val(e2, env))
            except Skip:
                continue
            nt = True
            got = run('evaluate {!r}'.format(out.full), out.evaluate, **env)
            require(same_value(got, ref, 1e-9 * max(1, abs(ref))),
                    '({!r}) {} ({!r}) with {}: {} instead of {}'
                    .format(data['t1'], data['op'], other, env, short(got),
                            ref))
        return nt

    env = env_for(data['s'])

    def build(e):
        if e[0] == 't':
            text = render(e[1])
            eq = run('create', Equation, text)
            mag = [1.0]
            try:
                v = ref_value(e[1], env.__getitem__, mag)
            except Skip:
                v = None
            return eq, v, repr(text), mag[0]
        l, vl, sl, ml = build(e[2])
        r, vr, sr, mr = build(e[3])
        a, b = snap(l), snap(r)
        out = run('combine', apply, e[1], l, r)
        require(snap(l) == a and snap(r) == b, 'operands changed')
        try:
            v = ref_op(e[1], vl, vr)
            if abs(v) > 1e12 or (e[1] == '/' and abs(vr) < 1e-3):
                v = None
        except Skip:
            v = None
        return out, v, '({} {} {})'.format(sl, e[1], sr), \
            max(ml, mr, abs(v or 0))
    eq, v, text, mag = build(data['e'])
    if v is None:
        return False
    got = run('evaluate', eq.evaluate, **env)
    require(same_value(got, v, 1e-7 * mag), '{} with {}: {} instead of {}'
            .format(text, env, short(got), v))
    return True
