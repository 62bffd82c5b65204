"""Evaluation of configurations: completeness, consistency, independence of
entry order and of history.  Random dependency graphs whose edges are plain
references, references inside parentheses or numpy calls, groups and
constants; sequences of input assignments and evaluations."""
from bounded.base import *   # noqa

BOUND = 'at most 6 equation entries (all 6 orders for 3 entries), histories of at most 4 evaluations'
_DIR = {}
VARS = ['v', 'w', 'u2']


def libdir():
    if not _DIR:
        _DIR['d'] = tempfile.mkdtemp(prefix='nrwalchk_')
        write_tree(_DIR['d'], {'f.yaml': {'e1': 'v * 2 + w', 'e2': 'u2 - v',
                                          'k9': 4.0}})
        write_tree(_DIR['d'], {'lib/': {'variables.yaml': {'d1': 2.0,
                                                           'd2': 0.5},
                                        'h.yaml': {'e3': 'd1 * 3',
                                                   'e4': 'd1 - d2 + v'}}})
        import atexit
        atexit.register(shutil.rmtree, _DIR['d'], ignore_errors=True)
    return _DIR['d']


def ref_leaf(rng, names):
    """A leaf that refers to an earlier entry, maybe inside a numpy call
    (then the name stays a variable of the equation)."""
    n = rng.choice(names)
    r = rng.random()
    if r < .4:
        return ['c', 'np.maximum', [['v', n], ['n', '0.125']]]
    if r < .5:
        return ['p', ['v', n]]
    return ['v', n]


def cases(tier, seed):
    rng = rng_for('C11', tier, seed)
    # chains through numpy calls in all orders
    for order in itertools.permutations(range(4)):
        yield 'cfg', {'entries': [
            ['x0', ['b', '+', ['v', 'v'], ['v', 'k1']]],
            ['x1', ['c', 'np.square', [['v', 'x0']]]],
            ['x2', ['b', '-', ['c', 'np.maximum', [['v', 'x1'], ['v', 'w']]],
                    ['v', 'x0']]],
            ['x3', ['b', '*', ['c', 'np.minimum', [['v', 'x2'], ['v', 'x1']]],
                    ['v', 'x2']]]],
            'order': list(order), 'hist': [[1, 1, 1], [2, 0, 2]], 's': 7}
    n = 1200 if tier == 'quick' else 6000
    for _ in range(n):
        k = rng.randrange(1, 7)
        entries = []
        for i in range(k):
            names = [e[0] for e in entries]

            def leaf(r, names=names):
                x = r.random()
                if names and x < .4:
                    return ref_leaf(r, names)
                if x < .7:
                    return ['v', r.choice(VARS)]
                if x < .8:
                    return ['v', r.choice(['k1', 'k2'])]
                if x < .9:
                    return ['v', r.choice(['f::e1', 'f::e2'])]
                return ['n', r.choice(['2', '0.5', '3'])]
            t = random_tree(rng, rng.randrange(0, 4), leaf, paren=.1)
            while t[0] == 'p':
                t = t[1]
            entries.append([rng.choice('abcdxyz') + str(i), t])
        order = list(range(k))
        rng.shuffle(order)
        hist = [[rng.randrange(3) for _ in VARS]
                for _ in range(rng.randrange(1, 4))]
        yield 'cfg', {'entries': entries, 'order': order, 'hist': hist,
                      's': rng.randrange(10 ** 6)}
    # entries all of whose variables have defaults, overridden and not
    for order in itertools.permutations(range(4)):
        for over in ([{}], [{}, {'d1': 10.0}], [{'d1': 4.0}, {'d2': 3.0}],
                     [{'d1': 7.0, 'd2': 2.0}, {'d1': 1.0}, {'v': 9.0}]):
            yield 'defaults', {'order': list(order), 'over': over}
    # an entry with the name of a default variable of the library
    for order in itertools.permutations(range(4)):
        yield 'shadow', {'order': list(order)}
    for k in (2.5e-15, -1e-13, 1e20, 1.23456789012, 123456789.125):
        yield 'constant', {'k': k}
    yield 'array', {}
    yield 'long', {'n': 130, 'rev': True}
    yield 'long', {'n': 130, 'rev': False}
    yield 'clear', {}
    yield 'shape', {}


def check(kind, data):
    d = libdir()
    if kind == 'shape':
        o = run('cfg', NrwalConfig, {'equation_directory': d, 'g': 'f',
                                     'k': 3, 'x': 'g::e1 * k', 'y': 'f::e2',
                                     'c2': 'k + 1'})
        out = run('eval', o.evaluate, inputs={'v': 1., 'w': 2., 'u2': 5.})
        require(set(out) >= {'x', 'y'} and set(out) <= {'x', 'y', 'k', 'c2'},
                'outputs {}'.format(sorted(out)))
        require('g' not in out, 'group in outputs')
        require(same_value(out['x'], 12.0) and same_value(out['y'], 4.0),
                'values {}'.format(out))
        require(all(same_value(out[k], v) for k, v in
                    (('k', 3.0), ('c2', 4.0)) if k in out), 'constants')
        require(o.outputs == out and o.solved, 'outputs property')
        return True
    if kind == 'defaults':
        items = [('a', 'lib::h::e3'), ('b', 'np.abs(a) + v'),
                 ('c', '(a + b) * 2'), ('e', 'lib::h::e4')]
        o = run('cfg', NrwalConfig, dict(
            [items[i] for i in data['order']], equation_directory=d))
        env = {'d1': 2.0, 'd2': 0.5, 'v': 1.0}
        for i, h in enumerate(data['over']):
            env.update(h)
            out = run('eval', o.evaluate, inputs=dict(h, v=env['v']))
            a, b = env['d1'] * 3, env['d1'] * 3 + env['v']
            ref = {'a': a, 'b': b, 'c': (a + b) * 2,
                   'e': env['d1'] - env['d2'] + env['v']}
            require(set(out) == set(ref), 'outputs {}'.format(sorted(out)))
            for n, x in ref.items():
                require(same_value(out[n], x), '{}, evaluation {}: {} = {} '
                        'instead of {}'.format(env, i, n, out[n], x))
        return True
    if kind == 'shadow':
        items = [('d1', 'np.square(v)'), ('e', 'lib::h::e4'),
                 ('y', 'np.add(d1, e)'), ('z', 'lib::h::e3')]
        o = run('cfg', NrwalConfig, dict(
            [items[i] for i in data['order']], equation_directory=d))
        for v in (3.0, 1.5):
            out = run('eval', o.evaluate, inputs={'v': v})
            ref = {'d1': v * v, 'e': v * v - .5 + v, 'z': v * v * 3,
                   'y': 2 * v * v - .5 + v}
            for n, x in ref.items():
                require(n in out and same_value(out[n], x, 1e-9),
                        '{} with v = {}: {} = {} instead of {}'.format(
                            [items[i] for i in data['order']], v, n,
                            out.get(n), x))
        return True
    if kind == 'constant':
        k = data['k']
        o = run('cfg', NrwalConfig, {
            'equation_directory': d, 'k': k, 'k2': 'k * 3', 'x': 'v * k',
            'y': 'np.multiply(v, k)', 'z': 'np.multiply(v, k2)',
            'd1': k, 'e': 'lib::h::e3'})
        out = run('eval', o.evaluate, inputs={'v': 2.0})
        for n, x in (('x', 2 * k), ('y', 2 * k), ('z', 6 * k), ('e', 3 * k)):
            require(abs(out[n] / x - 1) < 1e-9, 'constant {}: {} = {} instead '
                    'of {}'.format(k, n, out[n], x))
        return True
    if kind == 'long':
        items = [('e000', 'np.abs(v)')] + [
            ('e{:03d}'.format(i), 'np.add(e{:03d}, 1)'.format(i - 1))
            for i in range(1, data['n'])]
        if data['rev']:
            items.reverse()
        o = run('long chain', NrwalConfig, dict(items, equation_directory=d))
        out = run('long chain', o.evaluate, inputs={'v': 2.0})
        require(len(out) == data['n'] and all(
            same_value(out['e{:03d}'.format(i)], 2.0 + i)
            for i in range(data['n'])), 'long chain values')
        return True
    if kind == 'array':
        o = run('cfg', NrwalConfig, {'equation_directory': d,
                                     'y': 'np.square(x) + w',
                                     'x': 'f::e1 - w'})
        for n in (1, 3):
            v = np.linspace(1, 2, n)
            w = np.linspace(3, 4, n)
            out = run('eval', o.evaluate, inputs={'v': v, 'w': w})
            v, w = v.astype(np.float32), w.astype(np.float32)
            require(same_value(out['x'], v * 2 + w - w, 1e-4)
                    and same_value(out['y'], (2 * v) ** 2 + w, 1e-4),
                    'array outputs {}'.format(out))
        df = pd.DataFrame({'v': [1.0, 2.0], 'w': [3, 4]})
        out = run('eval', o.eval, df)
        require(same_value(out['y'], np.array([7., 20.]), 1e-4), 'DataFrame')
        return True
    if kind == 'clear':
        o = run('cfg', NrwalConfig, {'equation_directory': d, 'x': 'v + w',
                                     'y': 'np.abs(x) * 2'})
        run('eval', o.evaluate, inputs={'v': 1.0, 'w': 2.0})
        first = dict(o.outputs)
        o.inputs = {'v': 10.0}
        out = run('eval', o.evaluate)
        require(same_value(out['x'], 12.0) and same_value(out['y'], 24.0),
                'stale outputs {}'.format(out))
        o.inputs = None
        expect_error('cleared inputs', o.evaluate)
        o.inputs = {'v': 3.0, 'w': 4.0}
        out = run('eval', o.evaluate)
        require(same_value(out['x'], 7.0) and same_value(out['y'], 14.0),
                'after clear {}'.format(out))
        return True
    trees = dict(data['entries'])
    items = [(data['entries'][i][0], render(data['entries'][i][1]))
             for i in data['order']]
    rng = rng_for('c11', data['s'])
    pos = rng.randrange(len(items) + 1)
    items[pos:pos] = [('k1', 1.75), ('gg', 'f'), ('k2', 2)]
    cfg = dict(items)
    what = 'config {}'.format(json.dumps(cfg))
    obj, env, nt = None, {}, False
    for h in data['hist']:
        new = {v: round(1.1 + .37 * c + .11 * i, 3)
               for i, (v, c) in enumerate(zip(VARS, h))}
        send = {v: x for v, x in new.items() if env.get(v) != x}
        env = new

        def look(n):
            if n in env:
                return env[n]
            if n in ('k1', 'k2'):
                return {'k1': 1.75, 'k2': 2.0}[n]
            if n == 'f::e1':
                return env['v'] * 2 + env['w']
            if n == 'f::e2':
                return env['u2'] - env['v']
            return ref_value(trees[n], look, mag)
        refs, ok = {}, True
        for n in trees:
            mag = [1.0]
            try:
                refs[n] = (ref_value(trees[n], look, mag), mag[0])
            except Skip:
                ok = False
        if not ok:
            return False
        if obj is None:     # constants are evaluated by the constructor
            obj = run(what, NrwalConfig, dict(cfg, equation_directory=d))
        out = run(what + ' evaluate', obj.evaluate, inputs=send or None)
        require('gg' not in out, what + ': a group is in the outputs')
        require(set(out) <= set(cfg), what + ': outputs {}'.format(list(out)))
        for n, (ref, m) in refs.items():
            if n not in out and n in obj.global_variables:
                got = obj.global_variables[n]
            else:
                require(n in out, '{}: no output for {}'.format(what, n))
                got = out[n]
            require(numeric(got) is not None
                    and same_value(numeric(got), ref, 1e-8 * m),
                    '{} with {}: {} = {} instead of {}'
                    .format(what, env, n, short(got), ref))
            if n in out:
                require(same_value(obj.outputs[n], got), 'outputs property')
        nt = True
    return nt
