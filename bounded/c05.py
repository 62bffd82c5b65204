"""Config expressions follow standard arithmetic.  All trees with up to 3
operators, unary minus in every position, numpy calls, references to
constants, entries (backward and forward), groups and library paths, spacing
variants and random larger configurations, against direct arithmetic."""
from bounded.base import *   # noqa

BOUND = 'all trees of at most 3 operators with a minus sign at each single position, random trees of at most 8 operators, at most 6 entries'
LIB = {'f1.yaml': {'e1': 'p + 1', 'e2': 'p - q', 'k3': -2.5,
                   'sub': {'e4': 'q * 2'}},
       'd1/': {'f2.yaml': {'e1': '-r', 'e5': 'p / q'}}}
LIBV = {'f1::e1': lambda e: e['p'] + 1, 'f1::e2': lambda e: e['p'] - e['q'],
        'f1::k3': lambda e: -2.5, 'f1::sub::e4': lambda e: e['q'] * 2,
        'd1::f2::e1': lambda e: -e['r'],
        'd1::f2::e5': lambda e: e['p'] / e['q'],
        'grp::e1': lambda e: e['p'] + 1,
        'grp::sub::e4': lambda e: e['q'] * 2}
VARS = ['p', 'q', 'r', 'depth2', 'workspace_3']
CONSTS = {'kc': 3, 'kneg': -1.5, 'workspace_5': 2.25}
_DIR = {}
# constants of any magnitude keep their digits
KS = {'kd': 1.23456789012345, 'kt': 2.5e-15, 'kb': 987654321.125, 'ki': 123456789,
      'kn': -7.000000001e-07, 'ks': '1.234567891'}
PREC_CASES = [
    ('kd * p', lambda e, k: k['kd'] * e['p']),
    ('p * kt', lambda e, k: k['kt'] * e['p']),
    ('kb + p', lambda e, k: k['kb'] + e['p']),
    ('(ki - p) * 2', lambda e, k: (k['ki'] - e['p']) * 2),
    ('kt / kd', lambda e, k: k['kt'] / k['kd']),
    ('np.multiply(kd, p)', lambda e, k: k['kd'] * e['p']),
    ('np.multiply(kt, p) * kb', lambda e, k: k['kt'] * e['p'] * k['kb']),
    ('p * kn', lambda e, k: k['kn'] * e['p']),
    ('-kn * p', lambda e, k: -k['kn'] * e['p']),
    ('ks * p', lambda e, k: float(k['ks']) * e['p']),
    ('mid * p', lambda e, k: k['kd'] * k['kt'] * e['p']),
    ('np.abs(mid) * p', lambda e, k: k['kd'] * k['kt'] * e['p']),
    ('kd', lambda e, k: k['kd']), ('kt', lambda e, k: k['kt']),
    ('p / 1.000000000123', lambda e, k: e['p'] / 1.000000000123),
    ('p * 0.000000000000125', lambda e, k: e['p'] * 1.25e-13),
    ('p * 12345678901234', lambda e, k: e['p'] * 12345678901234.),
    ('(kd ** 2) ** 3 * p', lambda e, k: k['kd'] ** 6 * e['p'])]

BAD = ['p +', 'p -', 'p *', '* p', 'p /', '/ p', 'p **', '** p', '(p + q',
       'p + q)', 'p * * q', 'p + / q', '-', 'p -(', '(p + q))', 'p + () * 2',
       'p * (q + )', 'p q + 1', ')p + q(', 'p * (q', '2 * np.exp(p',
       'np.exp(p)) + 1', '(p + q)2', '(p + q)(r + 1)', '2*f(p + q)',
       '(p + 1)q', '(p + q)2*' + '(p)*'.join(['(q + 1)'] * 9), 'p / * q', 'p ** / q', '-*p']


def libdir():
    if not _DIR:
        _DIR['d'] = tempfile.mkdtemp(prefix='nrwalchk_')
        write_tree(_DIR['d'], LIB)
        import atexit
        atexit.register(shutil.rmtree, _DIR['d'], ignore_errors=True)
    return _DIR['d']


def positions(t, path=()):
    yield path
    if t[0] == 'b':
        for i in (2, 3):
            for p in positions(t[i], path + (i,)):
                yield p


def wrap(t, path, f):
    if not path:
        return f(t)
    t = list(t)
    t[path[0]] = wrap(t[path[0]], path[1:], f)
    return t


def cases(tier, seed):
    rng = rng_for('C05', tier, seed)

    def leaf(r=rng, extra=()):
        x = r.random()
        if x < .4:
            return ['v', r.choice(VARS)]
        if x < .55:
            return ['n', r.choice(['2', '3', '0.5', '1.25'])]
        if x < .7:
            return ['v', r.choice(list(CONSTS))]
        if extra and x < .85:
            return ['v', r.choice(extra)]
        return ['v', r.choice(list(LIBV))]

    def one(t, **kw):
        d = {'entries': [['x', t]], 'sp': rng.randrange(7),
             'pw': rng.choice(['**', '^']), 's': rng.randrange(10 ** 6),
             'order': rng.randrange(10 ** 6)}
        d.update(kw)
        return 'cfg', d
    for n in (1, 2, 3):
        for t in all_trees(n, lambda i: leaf()):
            yield one(t)
            if n < 3 or tier != 'quick':
                for pos in positions(t):
                    yield one(wrap(t, pos, lambda y: ['u', y]))
            else:
                pos = rng.choice(list(positions(t)))
                yield one(wrap(t, pos, lambda y: ['u', y]))
    for t in all_trees(2, lambda i: leaf()):
        pos = rng.choice(list(positions(t)))
        yield one(wrap(t, pos, lambda y: ['c', 'np.abs', [y]]))
        yield one(wrap(t, pos, lambda y: ['c', 'np.maximum', [y, ['v', 'q']]]))
        yield one(wrap(t, pos, lambda y: ['u', ['p', y]]))
        yield one(wrap(t, pos, lambda y: ['p', ['p', y]]))
    for n in (1, 2):       # the same part several times, plain and nested
        for t in all_trees(n, lambda i: leaf()):
            c = ['c', rng.choice(['np.abs', 'np.square']), [t]]
            sub = rng.choice([['p', t], c, ['p', c]])
            outer = rng.choice([['c', 'np.abs', [sub]], ['p', sub],
                                ['c', 'np.maximum', [sub, ['v', 'q']]],
                                ['p', ['b', '*', ['n', '2'], sub]]])
            a, b = rng.sample([sub, outer], 2)
            yield one(['b', rng.choice(['+', '-', '*']), a, b])
    for n in range(3, 16 if tier == 'quick' else 26):     # many parts
        for _ in range(3):
            yield one(wide_tree(rng, n, leaf, lambda a: ['c', rng.choice(
                ['np.abs', 'np.square']), [a]]))
    for b in BAD:
        yield 'bad', {'text': b}
    for i, _ in enumerate(PREC_CASES):
        for o in range(3):
            yield 'precise', {'i': i, 'order': o}
    for t in all_trees(1, lambda i: leaf()):       # two minus signs
        for pos in positions(t):
            yield one(wrap(t, pos, lambda y: ['u', ['u', y]]))
    yield 'group', {}
    for i in range(6):
        yield 'directory', {'order': i}
    n = 1500 if tier == 'quick' else 15000
    for _ in range(n):
        k = rng.randrange(1, 6)
        entries = []
        for i in range(k):
            names = [e[0] for e in entries]
            t = random_tree(rng, rng.randrange(0, 7),
                            lambda r: leaf(r, names), unary=.12, paren=.15,
                            call=.06)
            while t[0] == 'p' and not has_op(t):
                t = t[1]     # '(path)' alone combines nothing
            entries.append(['ent{}'.format(i) + rng.choice(['', '_y', '2b']) if i != 1
                            else 'workspace_4',
                            t])
        yield one(None, entries=entries)


def has_op(t):
    return t[0] in 'buc' or (t[0] == 'p' and has_op(t[1]))


def ok_in_call(t):
    # np calls are passed to the equation as text: only variables,
    # constants and entries may be named inside
    return not any('::' in v for v in tree_vars(t))


def calls(t):
    if t[0] == 'c':
        yield t
        for a in t[2]:
            for c in calls(a):
                yield c
    elif t[0] == 'b':
        for x in t[2:]:
            for c in calls(x):
                yield c
    elif t[0] in 'pu':
        for c in calls(t[1]):
            yield c


def floats(t, inside=False):
    """Number literals inside numpy calls are written as floats."""
    if t[0] == 'n':
        return ['n', str(float(t[1]))] if inside else t
    if t[0] == 'v':
        return t
    if t[0] == 'c':
        return ['c', t[1], [floats(a, True) for a in t[2]]]
    if t[0] == 'b':
        return ['b', t[1], floats(t[2], inside), floats(t[3], inside)]
    return [t[0], floats(t[1], inside)]


def check(kind, data):
    d = libdir()
    base = {'equation_directory': d, 'grp': 'f1'}
    base.update(CONSTS)
    if kind == 'bad':
        env = {'p': 1.2, 'q': 1.7}

        def go():
            out = NrwalConfig(dict(base, x=data['text']),
                              inputs=dict(env)).evaluate()['x']
            if numeric(out) is None:
                raise ValueError('not a number')
            return out
        expect_error('config expression {!r}'.format(data['text']), go)
        return True
    if kind == 'precise':
        text, f = PREC_CASES[data['i']]
        items = [('x', text), ('mid', 'kd * kt')] + list(KS.items())
        if data['order']:
            rng_for('o', data['i'], data['order']).shuffle(items)
        o = run('config', NrwalConfig, dict(items, equation_directory=d))
        env = {'p': 1.75}
        out = run('evaluate', o.evaluate, inputs=dict(env))
        got = out['x'] if 'x' in out else o.global_variables['x']
        ref = f(env, KS)
        require(numeric(got) is not None and abs(float(got) / ref - 1) < 1e-9,
                'config {}: x = {} but the standard value is {}'.format(
                    json.dumps(dict(items)), short(got), ref))
        return True
    if kind == 'group':
        o = run('config', NrwalConfig, dict(base, g2='grp', x='g2::e1 * 2'),
                inputs={'p': 2.0})
        out = run('evaluate', o.evaluate)
        require(same_value(out['x'], 6.0), 'group reference: {}'.format(out))
        return True
    if kind == 'directory':
        items = [('dd', 'd1'), ('x', 'dd::f2::e5 * 2'), ('y', 'dd::f2::e1')]
        items = list(itertools.permutations(items))[data['order']]
        o = run('config', NrwalConfig, dict(base, **dict(items)),
                inputs={'p': 3.0, 'q': 2.0, 'r': 4.0})
        out = run('evaluate', o.evaluate)
        require(same_value(out['x'], 3.0) and same_value(out['y'], -4.0),
                'reference to a directory entry, order {}: {}'.format(
                    [k for k, _ in items], out))
        return True
    data['entries'] = [[n, floats(t)] for n, t in data['entries']]
    for _, t in data['entries']:
        for c in calls(t):
            if not ok_in_call(c):
                return False
    names = [n for n, _ in data['entries']]
    items = [(n, render(t, SPACINGS[data['sp']], data['pw'])
              if not list(calls(t)) else render(t, SPACINGS[data['sp']]))
             for n, t in data['entries']]
    items += list(base.items())
    rng_for('order', data['order']).shuffle(items)
    cfg = dict(items)
    desc = json.dumps({k: v for k, v in cfg.items()
                       if k not in ('equation_directory',)})
    try:
        obj = NrwalConfig(cfg)
    except Exception as e:
        env, trees = env_values(VARS, rng_for(1)), dict(data['entries'])

        def look0(name):
            if name in env:
                return env[name]
            if name in CONSTS:
                return float(CONSTS[name])
            if name in LIBV:
                return LIBV[name](env)
            return ref_value(trees[name], look0, [1.0])
        for t in trees.values():
            ref_value(t, look0, [1.0])     # Skip if ill-conditioned
        raise Fail('config {} refused: {} {}'.format(desc, type(e).__name__,
                                                     e))
    nt = False
    for i in range(2):
        env = env_values(VARS, rng_for(data['s'], i))
        trees = dict(data['entries'])

        def look(name, depth=0):
            if name in env:
                return env[name]
            if name in CONSTS:
                return float(CONSTS[name])
            if name in LIBV:
                return LIBV[name](env)
            return ref_value(trees[name], look, mag)
        skip = False
        mags = {}
        for n in names:
            mag = [1.0]
            try:
                ref_value(trees[n], look, mag)
            except Skip:
                skip = True
            mags[n] = mag[0]
        if skip:
            continue
        nt = True
        need = {v: env[v] for v in VARS}
        out = run('evaluate config {}'.format(desc), obj.evaluate,
                  inputs=need)
        for n in names:
            if n not in out:
                require(not tree_vars(trees[n])
                        or n in obj.global_variables,
                        'config {}: no output for {}'.format(desc, n))
                got = obj.global_variables.get(n, None)
            else:
                got = out[n]
            mag = [1.0]
            ref = ref_value(trees[n], look, mag)
            g = numeric(got)
            require(g is not None and same_value(g, ref, 1e-8 * mags[n]),
                    'config {} with {}: {} = {} but the standard value is {}'
                    .format(desc, need, n, short(got), ref))
    return nt
