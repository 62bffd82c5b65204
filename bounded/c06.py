"""Path lookup: every path of random trees returns the stored object itself,
every near-miss path raises a key error, get returns the fallback exactly
then, numbers give constants; look-ups leave the tree unchanged."""
from bounded.base import *   # noqa

BOUND = 'random trees of depth at most 4 with at most 40 entries; all existing paths and 12 mutations of each'
WORDS = ['alpha', 'beta', 'cost', 'cost_2', 'x', 'array', 'e10', 'jacket',
         'Alpha', 'cos', 'alpha_b', 'a.b']


def rand_group(rng, depth):
    out = {}
    for w in rng.sample(WORDS, rng.randrange(1, 6)):
        if depth and rng.random() < .35:
            out[w] = rand_group(rng, depth - 1)
        else:
            out[w] = rng.choice(['v1 * 2', 'v2 + 1', 3.5, 'v1 / v3', 7])
    return out


def rand_dir(rng, depth):
    out = {}
    for w in rng.sample([x for x in WORDS if '.' not in x],
                        rng.randrange(1, 5)):
        if depth and rng.random() < .4:
            out[w + '/'] = rand_dir(rng, depth - 1)
        else:
            out[w + rng.choice(['.yaml', '.yml', '.json'])] = \
                rand_group(rng, 2)
    if rng.random() < .3:
        out['2015/'] = {'f.yaml': rand_group(rng, 1)}
    return out


def cases(tier, seed):
    rng = rng_for('C06', tier, seed)
    for i in range(150 if tier == 'quick' else 1500):
        yield 'group', {'g': rand_group(rng, 3), 's': rng.randrange(10 ** 6)}
        yield 'dir', {'d': rand_dir(rng, 2), 's': rng.randrange(10 ** 6)}
    yield 'group', {'g': {'a': 'x', 'b': {'a': 'y', 'b': {'b': 'z'}}}, 's': 1}
    yield 'dir', {'d': {'a/': {'a.yaml': {'a': 'x'}}, 'b.yaml': {'b': 'y'}},
                  's': 1}
    for k in ['5', '3.25', '1e5', '0', '2015']:
        yield 'num', {'k': k}
    yield 'ext', {}
    yield 'other', {}


def items_of(obj):
    """All (path components, object) below an object."""
    for k in list(obj.keys()):
        v = dict(obj.items())[k]
        yield (k,), v
        if isinstance(v, (EquationGroup, EquationDirectory)):
            for p, w in items_of(v):
                yield (k,) + p, w


def describe(obj):
    return sorted(('::'.join(p), id(v), getattr(v, 'full', None))
                  for p, v in items_of(obj))


def fetch(what, obj, key, want):
    got = outcome(obj.__getitem__, key)
    require(got[0] == 'ok', '{} key {!r}: {}'.format(what, key, got[1:]))
    require(got[1] is want, '{} key {!r} returned {} instead of {}'
            .format(what, key, short(got[1]), short(want)))
    sentinel = object()
    require(obj.get(key, sentinel) is want,
            '{} get({!r}) is not the stored object'.format(what, key))


def missing(what, obj, key):
    got = outcome(obj.__getitem__, key)
    require(got[0] == 'err', '{} missing key {!r} returned {}'
            .format(what, key, short(got[1])))
    require(got[1] == 'KeyError', '{} missing key {!r} raised {}'
            .format(what, key, got[1:]))
    sentinel = object()
    got = outcome(obj.get, key, sentinel)
    require(got[0] == 'ok' and got[1] is sentinel,
            '{} get({!r}, fallback) gave {}'.format(what, key, short(got)))
    require(obj.get(key, None) is None, 'get with None')


def probe(what, obj, s, filelevel):
    rng = rng_for('p', s)
    before = describe(obj)
    paths = list(items_of(obj))
    exist = set(p for p, _ in paths)
    for p, v in paths:
        fetch(what, obj, '::'.join(p), v)
        if len(p) > 1:
            sub = obj
            for comp in p[:-1]:
                sub = sub[comp]
            fetch(what + ' (stepwise)', sub, p[-1], v)
        # near misses: change one component
        for i in range(len(p)):
            for alt in (p[i] + '_x', p[i][:-1], p[i].upper(), p[i] + '1',
                        p[i].lower(), 'zz', p[i] + '_5MW', p[i] + '_2010',
                        p[i] + ' ', ' ' + p[i], p[i] + '.txt',
                        p[i] + '::', '::' + p[i],
                        p[i] + '::::' + p[i]) + (
                            () if filelevel else
                            (p[i] + '.yaml', p[i] + '.json')):
                q = p[:i] + (alt,) + p[i + 1:]
                if not alt or alt == p[i]:
                    continue
                try:
                    float(alt)
                    continue
                except ValueError:
                    pass
                if q in exist or (len(q) == 1 and alt in WORDS
                                  and (alt,) in exist):
                    continue
                # components before i exist; q[:i+1] must not
                if q[:i + 1] in exist:
                    continue
                missing(what, obj, '::'.join(q))
        if not isinstance(v, Equation):
            missing(what, obj, '::'.join(p + ('nothere',)))
        else:
            # below an equation there is nothing
            missing(what, obj, '::'.join(p + ('v1',)))
            missing(what, obj, '::'.join(p + ('nothere',)))
        if len(p) >= 2 and p[1:] not in exist and '2015' not in p:
            missing(what, obj, '::'.join(p[1:]))
    require(describe(obj) == before, what + ': look-ups changed the tree')
    missing(what, obj, 'nothing_here')
    return len(paths) > 1


def check(kind, data):
    if kind == 'group':
        obj = run('load', EquationGroup, data['g'])
        return probe('group', obj, data['s'], False)
    if kind == 'num':
        for obj in (EquationGroup({'a': 'x'}),):
            got = run('number key', obj.__getitem__, data['k'])
            require(isinstance(got, Equation)
                    and same_value(run('ev', got.evaluate),
                                   float(data['k'])),
                    'number key {!r} gave {}'.format(data['k'], short(got)))
        with scratch() as d:
            write_tree(d, {'2015/': {'f.yaml': {'a': 'x'}}})
            obj = run('load', EquationDirectory, d)
            got = run('number key', obj.__getitem__, data['k'])
            if data['k'] == '2015':
                require(isinstance(got, EquationDirectory),
                        'directory named 2015 not returned')
            else:
                require(isinstance(got, Equation)
                        and same_value(got.evaluate(), float(data['k'])),
                        'number key {!r} gave {}'
                        .format(data['k'], short(got)))
        return True
    with scratch() as d:
        if kind == 'other':
            # errors that are not about a missing entry are not hidden
            write_tree(d, {'f.yaml': {'a': 'x', 'b': 'y', 's': {'c': 'z'}}})
            for obj, pre in ((run('load', EquationDirectory, d), 'f::'),
                             (run('load', EquationGroup, os.path.join(
                                 d, 'f.yaml')), '')):
                for key in ('[{0}a] + 1', '{0}a + {{2}}', '({0}a + {0}b',
                            '{0}a) * (2', '{0}a * {0}b)'):
                    key = key.format(pre)
                    expect_error('key ' + key, obj.__getitem__, key)
                    g = outcome(obj.__getitem__, key)
                    if g[1] != 'KeyError':
                        expect_error('get ' + key, obj.get, key, None)
                missing('obj', obj, pre + 'a + ' + pre + 'zz')
                missing('obj', obj, '2 * ' + pre + 'zz')
                got = obj.get(pre + 'a + ' + pre + 'b', None)
                require(isinstance(got, Equation), 'get of a sum')
            return True
        if kind == 'ext':
            write_tree(d, {'one.yaml': {'a': 'x'},
                           'v1.2.yaml': {'a': 'x + 1'},
                           'v1.yaml': {'a': 'x + 2'},
                           'd.yml/': {'q.w.json': {'r': 'x'}},
                           's/': {'two.json': {'b': 'y'},
                                  'three.yml': {'c': 'z'}}})
            obj = run('load', EquationDirectory, d)
            fetch('dir', obj, 'one.yaml', obj['one'])
            fetch('dir', obj, 'one.yaml::a', obj['one::a'])
            fetch('dir', obj, 's::two.json::b', obj['s']['two']['b'])
            fetch('dir', obj, 's::three.yml', obj['s::three'])
            top = dict(obj.items())
            fetch('dir', obj, 'v1.2.yaml', top['v1.2'])
            fetch('dir', obj, 'v1.2::a', dict(top['v1.2'].items())['a'])
            fetch('dir', obj, 'v1::a', dict(top['v1'].items())['a'])
            fetch('dir', obj, 'v1.2.yaml::a', dict(top['v1.2'].items())['a'])
            missing('dir', obj, 'v1.3::a')
            missing('dir', obj, 'v1.3.yaml::a')
            missing('dir', obj, 'two.yaml')
            missing('dir', obj, 'one.txt')
            root = os.path.basename(d)
            missing('dir', obj, root)
            missing('dir', obj, root + '::one')
            missing('dir', obj, root + '::s::two::b')
            missing('dir', obj, 's::s::two::b')
            missing('dir', obj, 's::s')
            missing('dir', obj, 'one::one::a')
            grp = run('load', EquationGroup, os.path.join(d, 'one.yaml'))
            missing('group', grp, 'one::a')
            missing('group', grp, 'one.yaml::a')
            missing('group', grp, 'one.yaml')
            return True
        write_tree(d, data['d'])
        obj = run('load', EquationDirectory, d)
        return probe('directory', obj, data['s'], True)
