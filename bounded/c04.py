"""Retrieval-key arithmetic in groups and directories.  All expression trees
with up to 3 operators (every operator choice), redundant parentheses, spacing
variants, ** and ^, and random larger trees, against direct arithmetic on the
values of the stored entries; malformed keys must raise."""
from bounded.base import *   # noqa

BOUND = 'all trees of at most 3 operators, random trees of at most 8; 9 stored entries'
ENTRIES = {'e1': 'p + 1', 'e2': 'p - q', 'cost_2': 'q * 2', 'e11': '-r',
           'const': 3.5, 'neg': -1.25, 'e3': 'p / q + r', 'workspace_1': 'q + r', 'workspace_2': 'p * r'}
PATHS = {'group': ['e1', 'e2', 'cost_2', 'e11', 'const', 'neg', 'sub::e1',
                   'sub::deep::e3', 'e3', 'workspace_1', 'workspace_2'],
         'directory': ['f1::e1', 'f1::e2', 'f1.yaml::cost_2', 'd1::f2::e11',
                       'f1::const', 'd1::f2::sub::e1', 'f1::e3',
                       'f1::neg', '2015::f3::e1', 'f1::workspace_1']}
SUB = {'e1': 'q + 0.5', 'deep': {'e3': 'r * 2'}}
VALUES = {'e1': lambda p, q, r: p + 1, 'e2': lambda p, q, r: p - q,
          'cost_2': lambda p, q, r: q * 2, 'e11': lambda p, q, r: -r,
          'const': lambda p, q, r: 3.5, 'neg': lambda p, q, r: -1.25,
          'sub::e1': lambda p, q, r: q + 0.5,
          'sub::deep::e3': lambda p, q, r: r * 2,
          'e3': lambda p, q, r: p / q + r,
          'workspace_1': lambda p, q, r: q + r,
          'workspace_2': lambda p, q, r: p * r}
BAD_KEYS = ['{0} +', '+ {0}', '* {0}', '{0} *', '{0} ** ', '({0} + {1}',
            '{0} + {1})', '[{0}] + 1', '{0} + {{{1}}}', '{0} + [1]',
            '{0} + nope', 'nope * 2', '{0} / ', '- {0}', '{0} + {1} -',
            '{0} + ()', ')({0} + {1}', '{0} - zz::yy', '{0} {1}', '{0} + {1} 2',
            '2 {0} + 1', '({0} + {1}){0}', '{0}({1} + 2)', '{0} + {1}[0]',
            '{0} + {1}]', '({0} + {1})2', 'x({0} * 2)', '({0} + 1)({1} + 1)',
            '({0} + {1}) 3 * 2', '({0})({0} + 1)', '({0} + {1}){0} * 2', '{0} * {{2', '{0} * }}2', '{0} + (1', ') + {0}(']

# a minus sign before an operand: refused or the standard value
MINUS = [('{0} ** -{1}', lambda a, b: a ** -b), ('{0} * -{1}', lambda a, b: -a * b),
         ('{0} - -{1}', lambda a, b: a + b), ('-{0} + {1}', lambda a, b: b - a),
         ('{0} ^ - {1}', lambda a, b: a ** -b), ('(-{0}) * {1}', lambda a, b: -a * b),
         ('{0}--{1}', lambda a, b: a + b), ('{0} / -{1} + 2', lambda a, b: 2 - a / b),
         ('-{0} ** {1}', lambda a, b: -a ** b), ('{0} + -{1}', lambda a, b: a - b),
         ('{0} - (-{1})', lambda a, b: a + b), ('{0}**-{1}', lambda a, b: a ** -b),
         ('-{0} * -{1}', lambda a, b: a * b), ('{0} - - - {1}', lambda a, b: a - b),
         ('{0} + +{1}', lambda a, b: a + b), ('+{0} * {1}', lambda a, b: a * b),
         ('{0} ** {1}e-1', None), ('1e-2 * {0} + {1}', lambda a, b: .01 * a + b)]

# a key means the entries as they are when it is looked up
STATE = [('g::e1 + g::e2', 'e1 + e2'), ('(g::e1 + 1) * g::e2', '(e1 + 1) * e2'),
         ('(g::e1 - g::e2) / (g::e2 + 3)', '(e1 - e2) / (e2 + 3)'),
         ('2 * g::e1', '2 * e1'), ('g::e2 ** 2', 'e2 ** 2')]

_OBJ = {}


def objects():
    if not _OBJ:
        d = tempfile.mkdtemp(prefix='nrwalchk_')
        write_tree(d, {'f1.yaml': ENTRIES, '2015/': {'f3.yml': ENTRIES},
                       'd1/': {'f2.json': dict(ENTRIES, sub=SUB)}})
        _OBJ['directory'] = run('load', EquationDirectory, d)
        _OBJ['group'] = run('load', EquationGroup, dict(ENTRIES, sub=SUB))
        shutil.rmtree(d)
    return _OBJ


def base_name(path):
    parts = path.split('::')
    if 'sub' in parts:
        return '::'.join(parts[parts.index('sub'):])
    return parts[-1]


def cases(tier, seed):
    rng = rng_for('C04', tier, seed)

    def leaf_gen(obj):
        def leaf(r=rng):
            if r.random() < .7:
                return ['v', r.choice(PATHS[obj])]
            return ['n', r.choice(['2', '3', '0.5', '1.25', '7'])]
        return leaf
    for n in (1, 2, 3):
        for obj in ('group', 'directory'):
            lf = leaf_gen(obj)
            for t in all_trees(n, lambda i: lf()):
                yield 'tree', {'t': t, 'obj': obj, 'sp': rng.randrange(7),
                               'pw': rng.choice(['**', '^']),
                               's': rng.randrange(10 ** 6)}
    for n in (1, 2):       # the same part several times, plain and nested
        for obj in ('group', 'directory'):
            lf = leaf_gen(obj)
            for t in all_trees(n, lambda i: lf()):
                sub = ['p', t]
                outer = rng.choice([['p', sub], ['p', ['b', '-', sub, lf()]],
                                    ['b', '*', sub, sub]])
                a, b = rng.sample([sub, outer], 2)
                yield 'tree', {'t': ['b', rng.choice('+-*/'), a, b],
                               'obj': obj, 'sp': rng.randrange(7),
                               'pw': rng.choice(['**', '^']),
                               's': rng.randrange(10 ** 6)}
    for n in range(3, 16 if tier == 'quick' else 26):     # many parts
        for obj in ('group', 'directory'):
            for _ in range(2):
                yield 'tree', {'t': wide_tree(rng, n, leaf_gen(obj)),
                               'obj': obj, 'sp': rng.randrange(7),
                               'pw': '**', 's': rng.randrange(10 ** 6)}
    for obj in PATHS:
        for k in BAD_KEYS:
            yield 'bad', {'obj': obj, 'key': k.format(*PATHS[obj][:2])}
        for i in range(len(MINUS)):
            for a, b in ((0, 2), (2, 0), (0, 4), ('2', 0), (0, '2.5')):
                yield 'minus', {'obj': obj, 'i': i, 'ab': [a, b]}
    for key, val in STATE:
        for how in ('group', 'directory'):
            yield 'state', {'key': key, 'val': val, 'obj': how}
    n = 9000 if tier == 'quick' else 40000
    for _ in range(n):
        obj = rng.choice(['group', 'directory'])
        t = random_tree(rng, rng.randrange(2, 9), leaf_gen(obj), paren=.25)
        if t[0] == 'p' and t[1][0] in 'vn':
            t = t[1]
        yield 'tree', {'t': t, 'obj': obj, 'sp': rng.randrange(7),
                       'pw': rng.choice(['**', '^']),
                       's': rng.randrange(10 ** 6)}


def has_op(t):
    return t[0] == 'b' or (t[0] == 'p' and has_op(t[1]))


def check_state(data):
    def build(e1, e2):
        if data['obj'] == 'group':
            return EquationGroup({'g': {'e1': e1, 'e2': e2}})
        with scratch() as d:
            write_tree(d, {'g.yaml': {'e1': e1, 'e2': e2}})
            return EquationDirectory(d)

    def look(what, obj, e1, e2, **kw):
        env = {'e1': e1, 'e2': e2}
        got = run(what, lambda: obj[data['key']].evaluate(**kw))
        ref = eval(data['val'], {}, env)
        require(same_value(numeric(got), ref, 1e-9), '{}: key {!r} gives {} '
                'instead of {}'.format(what, data['key'], short(got), ref))
    obj = run('load', build, 'x + 1', 'y * 2')
    look('first', obj, 4.0, 10.0, x=3.0, y=5.0)
    look('again', obj, 3.0, 12.0, x=2.0, y=6.0)
    first = run('lookup', obj.__getitem__, data['key'])
    run('set', obj.set_default_variables, {'x': 7.0})
    look('with a default', obj, 8.0, 10.0, y=5.0)
    run('set', obj.set_default_variables, {'x': 9.0, 'y': 1.5})
    look('with another default', obj, 10.0, 3.0)
    look('overridden', obj, 2.0, 3.0, x=1.0)
    require('y' not in first.default_variables, 'an equation looked up '
            'earlier changed')
    more = run('add', obj.__add__, run('load', build, 'x - 1', 'y / 2'))
    look('merged', more, 4.0, 2.5, x=5.0, y=5.0)
    look('operand', obj, 6.0, 10.0, x=5.0, y=5.0)
    return True


def check(kind, data):
    if kind == 'state':
        return check_state(data)
    obj = objects()[data['obj']]
    if kind == 'bad':
        expect_error('malformed key {!r} of a {}'.format(data['key'],
                                                         data['obj']), obj.__getitem__,
                     data['key'])
        return True
    if kind == 'minus':
        text, val = MINUS[data['i']]
        paths = [x if isinstance(x, str) else PATHS[data['obj']][x]
                 for x in data['ab']]
        key = text.format(*paths)
        env = {'p': 1.3, 'q': 2.1, 'r': 1.7}
        got = outcome(lambda: obj[key].evaluate(**env))
        if got[0] == 'err':
            return True
        require(val is not None, 'key {!r} gave {}'.format(key, short(got)))
        a, b = [float(x) if x[0].isdigit() and '::' not in x
                else VALUES[base_name(x)](**env) for x in paths]
        require(same_value(numeric(got[1]), val(a, b), 1e-9),
                '{} key {!r}: {} but the standard value is {}'.format(
                    data['obj'], key, short(got[1]), val(a, b)))
        return True
    t = data['t']
    if not has_op(t):
        return False
    key = render(t, SPACINGS[data['sp']], data['pw'])
    eqn = run('{} key {!r}'.format(data['obj'], key), obj.__getitem__, key)
    nt = False
    for i in range(2):
        env = env_values(['p', 'q', 'r'], rng_for(data['s'], i))

        def look(path):
            return VALUES[base_name(path)](**env)
        try:
            ref_value(t, look, [1.0])
        except Skip:
            continue
        got = run('evaluate key {!r}'.format(key), eqn.evaluate, **env)
        nt |= compare_value('{} key {!r} with {}'.format(data['obj'], key,
                                                         env),
                            got, t, look)
    return nt
