"""Malformed and circular configurations are refused.  All reference graphs
on 3 entries, with references as plain operands, in parentheses or in numpy
calls; long cycles; non-expression values and numeric names."""
from bounded.base import *   # noqa

BOUND = 'all 512 reference graphs on 3 entries, random graphs on at most 7'
_DIR = {}


def libdir():
    if not _DIR:
        _DIR['d'] = tempfile.mkdtemp(prefix='nrwalchk_')
        write_tree(_DIR['d'], {'f.yaml': {'e1': 'v * 2 + w', 'a': 'v'}})
        import atexit
        atexit.register(shutil.rmtree, _DIR['d'], ignore_errors=True)
    return _DIR['d']


STYLES = ['{}', '({} + 1)', 'np.exp({})', '2*{}', '(3 - {})']
BADVAL = [['[1, 2]', [1, 2]], ['[]', []], ['mapping', {'a': 1}],
          ['empty mapping', {}], ['none', None], ['nested', {'a': {'b': 'v'}}]]
BADNAME = ['5', '2.5', '1e5', '-3', '2015']
BRACKET = ['v[0] + 1', '[v] * 2', '{v} + 1', 'v * {2', 'v + 1]', 'v }- 1',
           '2 * [v + 1', 'np.array([1, 2]) * v', '(v + [1]) * 2']
GOOD = ['v', 'v + 1', '2', 3, 2.5, 'f::e1', 'f', 'np.array([1, 2])',
        'np.exp(v)', '(v)', 'v - 1e5', '-v', 'f::e1 * 2']


def cases(tier, seed):
    rng = rng_for('C13', tier, seed)
    for bits in range(512):
        m = [[(bits >> (3 * i + j)) & 1 for j in range(3)] for i in range(3)]
        order = [0, 1, 2]
        rng.shuffle(order)
        yield 'graph', {'m': m, 'order': order,
                        'st': [rng.randrange(len(STYLES)) for _ in range(9)]}
    for _ in range(700 if tier == 'quick' else 4000):
        k = rng.randrange(2, 8)
        m = [[int(j < i and rng.random() < .3) for j in range(k)]
             for i in range(k)]
        if rng.random() < .5:     # one long cycle
            cyc = rng.sample(range(k), rng.randrange(1, k + 1))
            for x, y in zip(cyc, cyc[1:] + cyc[:1]):
                m[x][y] = 1
        order = list(range(k))
        rng.shuffle(order)
        yield 'graph', {'m': m, 'order': order,
                        'st': [rng.randrange(len(STYLES)) for _ in range(k * k)]}
    for k in (1, 2, 3, 4):
        for pad in itertools.product(['', ' ', '\t', '  '], repeat=2):
            for form in ('{} + 1', '{}', '2 * ({})', 'np.exp({})', '-{}',
                         '{}**2', '{}*{}', 'v - {}', 'np.maximum(v, {})',
                         '1 / {}', '({})', 'f::e1 * {}', '3 if {} > 2 else 1',
                         'max({}, 1)', '((v + 1) * ({} - 2))'):
                if k > 2 and pad[0] != pad[1]:
                    continue
                yield 'ring', {'k': k, 'pad': list(pad), 'form': form,
                               's': rng.randrange(100)}
    for i in range(len(BADVAL)):
        for pos in (0, 1):
            for route in ('dict', 'file'):
                yield 'value', {'i': i, 'pos': pos, 'route': route}
    for n in BADNAME:
        for route in ('dict', 'file'):
            yield 'name', {'n': n, 'route': route}
    for b in BRACKET:
        yield 'bracket', {'t': b}
    for i in range(len(GOOD)):
        yield 'good', {'i': i}
    for w in ('list', 'none', 'int', 'missing', 'txt', 'listfile',
              'scalarfile', 'missingdir'):
        yield 'container', {'w': w}
    for ext in ('.txt', '', '.yaml.bak', '.jsonl', '.json5', '.toml', '.csv',
                '.py', 'yaml', 'json', '.ymlx', '.cfg'):
        for text in ('{"x": "v + 1"}', 'x: v + 1\n'):
            yield 'extension', {'ext': ext, 'text': text}


def cyclic(m):
    n = len(m)
    r = [row[:] for row in m]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                r[i][j] |= r[i][k] & r[k][j]
    return any(r[i][i] for i in range(n))


def create(cfg, route):
    if route == 'dict':
        return NrwalConfig(cfg)
    with scratch() as d:
        write_tree(d, {'c.yaml': cfg})
        return NrwalConfig(os.path.join(d, 'c.yaml'))


def check(kind, data):
    d = libdir()
    base = {'equation_directory': d}
    if kind == 'graph':
        m = data['m']
        k = len(m)
        names = ['a', 'b', 'a_b', 'c1', 'dd', 'e', 'ab'][:k]
        texts = {}
        for i in range(k):
            refs = [STYLES[data['st'][i * k + j]].format(names[j])
                    for j in range(k) if m[i][j]]
            texts[names[i]] = ' + '.join(refs + ['v']) if i % 2 else \
                ' - '.join(['f::e1'] + refs)
        cfg = dict(base)
        for i in data['order']:
            cfg[names[i]] = texts[names[i]]
        what = 'config {}'.format(json.dumps({n: cfg[n] for n in names}))
        if cyclic(m):
            expect_error(what + ' is circular', NrwalConfig, cfg)
        else:
            run(what, NrwalConfig, cfg)
        return True
    if kind == 'ring':
        # entry i refers to entry i + 1, the last one to the first
        k = data['k']
        names = ['a', 'b_1', 'cc', 'd'][:k]
        texts = [data['pad'][0] + data['form'].replace('{}', names[(i + 1) % k])
                 + data['pad'][1] for i in range(k)]
        order = list(range(k))
        rng = rng_for('ring', data['s'])
        rng.shuffle(order)
        cfg = dict(base)
        for i in order:
            cfg[names[i]] = texts[i]
        if rng.random() < .5:
            cfg['unrelated'] = 'v + 1'
        out = expect_error('circular config {}'.format(
            {n: cfg[n] for n in names}), NrwalConfig, cfg)
        require(out[1] != 'RecursionError', 'circular config {} is not '
                'refused but runs away'.format({n: cfg[n] for n in names}))
        return True
    if kind == 'value':
        v = BADVAL[data['i']][1]
        cfg = dict(base)
        if data['pos']:
            cfg['x'] = 'v + 1'
        cfg['bad'] = v
        cfg['y'] = 'v + 2'
        expect_error('entry of kind {}'.format(BADVAL[data['i']][0]),
                     create, cfg, data['route'])
        return True
    if kind == 'name':
        cfg = dict(base)
        cfg['x'] = 'v + 1'
        cfg[data['n']] = 'v * 2'
        expect_error('entry named {}'.format(data['n']), create, cfg,
                     data['route'])
        if data['route'] == 'dict':
            cfg = dict(base)
            cfg[float(data['n'])] = 'v'
            expect_error('entry named by a number', create, cfg, 'dict')
        return True
    if kind == 'bracket':
        expect_error('brackets {}'.format(data['t']), NrwalConfig,
                     dict(base, x=data['t']))
        return True
    if kind == 'good':
        run('entry {!r}'.format(GOOD[data['i']]), NrwalConfig,
            dict(base, x=GOOD[data['i']], y='v + 3'))
        return True
    if kind == 'extension':
        with scratch() as t:
            write_tree(t, {'c' + data['ext']: data['text']})
            expect_error('configuration from a file c{} that is no json or '
                         'yaml file'.format(data['ext']), NrwalConfig,
                         os.path.join(t, 'c' + data['ext']))
        return True
    w = data['w']
    with scratch() as t:
        if w == 'list':
            arg = ['v + 1']
        elif w == 'none':
            arg = None
        elif w == 'int':
            arg = 5
        elif w == 'missing':
            arg = os.path.join(t, 'nope.yaml')
        elif w == 'missingdir':
            arg = {'equation_directory': os.path.join(t, 'nodir'), 'x': 'v'}
        else:
            name = 'c.txt' if w == 'txt' else 'c.yaml'
            write_tree(t, {name: {'txt': 'x: v + 1\n',
                                  'listfile': '- v + 1\n',
                                  'scalarfile': 'v + 1\n'}[w]})
            arg = os.path.join(t, name)
        expect_error('configuration from {}'.format(w), NrwalConfig, arg)
    return True
