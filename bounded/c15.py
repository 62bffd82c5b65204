"""Directory loading: random trees with decoys (hidden, dunder, other file
types, empty directories), broken files, option propagation."""
from bounded.base import *   # noqa

BOUND = 'trees of at most 3 levels, at most 8 names per level'
EXTS = ['.yaml', '.yml', '.json']
DECOY = ['.hidden.yaml', '__init__.py', 'README.md', 'notes.txt',
         '__dunder.yaml', '.DS_Store', 'data.csv', 'x.yaml.bak', 'yaml',
         'x.YAML', 'script.py', 'noext', 'x.jsonl', 'ayml']
BROKEN = {'list.yaml': '- a\n- b\n', 'empty.yaml': '', 'syn.json': '{"a": ',
          'syn.yaml': 'a: [1, 2\nb', 'illegal.yaml': 'a: eval(1)\n',
          'selfref.yaml': 'a: a + 1\n', 'listval.yaml': 'a: [1, 2]\n',
          'numkey.yaml': '5: v + 1\n', 'scalar.json': '5',
          'variables.yaml': 'a: text\n', 'variables.yml': 'a: [1]\n',
          'variables.json': '{"5": 1.0}', 'noneval.yaml': 'a:\n'}


def rand_tree(rng, depth):
    t = {}
    for n in rng.sample(['aa', 'bb', 'cost', '2015', 'f_1', '_u', 'a__', 'A',
                         'Variables', 'a b', 'a-b', 'init', 'my_variables',
                         'variables2', 'a.b', 'yaml', 'é', '_', 'json'],
                        rng.randrange(0, 6)):
        t[n + rng.choice(EXTS)] = rng.choice([
            {'e1': 'v * 2', 'k': 3}, {'e2': 'e3 + 1', 'e3': 'w'},
            {'s': {'t': {'e4': 'v - w'}}, 'e5': 2.5}])
    for n in rng.sample(DECOY, rng.randrange(0, 4)):
        t[n] = 'a: v + 1\n'
    if rng.random() < .3:
        t['_w' + rng.choice(EXTS)] = {'e1': 'v * 2', 'k': 3}
    if rng.random() < .3:
        t['variables' + rng.choice(EXTS)] = {'v': rng.choice([2, 3.5]),
                                             'zz': 1}
    if depth:
        for n in rng.sample(['da', 'db', '2016', '.hid', '__pycache__',
                             'empty', 'src.d', '_dd', 'd.yaml', 'D',
                             'tests'], rng.randrange(0, 5)):
            t[n + '/'] = {} if n == 'empty' else rand_tree(rng, depth - 1)
    return t


def cases(tier, seed):
    rng = rng_for('C15', tier, seed)
    yield 'tree', {'t': {}}
    yield 'tree', {'t': {n: 'a: v\n' for n in DECOY}}
    yield 'tree', {'t': {'a/': {'b/': {'c/': {}}}, 'x/': {'y/': {
        'f.yml': {'e': 'v'}}}}}
    for _ in range(700 if tier == 'quick' else 4000):
        yield 'tree', {'t': rand_tree(rng, 2)}
    for n in BROKEN:
        for where in ('top', 'sub'):
            yield 'broken', {'n': n, 'where': where}
    for opts in itertools.product([0, 1], repeat=4):
        yield 'flags', {'opts': list(opts)}
    yield 'files', {}
    yield 'links', {}
    yield 'changed', {}


def expected(t):
    """Nested dict of the expected content."""
    out = {}
    for n, c in t.items():
        if n.startswith(('.', '__')):
            continue
        if n.endswith('/'):
            sub = expected(c)
            if sub:
                out[n[:-1]] = ('dir', sub)
        elif n.endswith(('.json', '.yml', '.yaml')):
            base = n.rsplit('.', 1)[0]
            out[base] = ('vars' if base == 'variables' else 'group', c)
    return out


GV = {'v * 2': lambda v, w: v * 2, 'e3 + 1': lambda v, w: w + 1,
      'w': lambda v, w: w, 'v - w': lambda v, w: v - w,
      'v': lambda v, w: v, '3': lambda v, w: 3, '2.5': lambda v, w: 2.5}


def cmp_group(what, obj, c):
    require(isinstance(obj, EquationGroup), what + ' is no group')
    require(set(obj.keys()) == set(c), '{}: keys {} expected {}'
            .format(what, list(obj.keys()), list(c)))
    for k, x in c.items():
        if isinstance(x, dict):
            cmp_group(what + '::' + k, dict(obj.items())[k], x)
        else:
            e = dict(obj.items())[k]
            require(isinstance(e, Equation), what + ': no equation')
            got = run('evaluate', e.evaluate, v=1.25, w=4.5)
            require(same_value(got, GV[str(x)](1.25, 4.5)),
                    '{}::{} = {}'.format(what, k, got))


def cmp_dir(what, obj, exp):
    require(isinstance(obj, EquationDirectory), what + ' is no directory')
    require(set(obj.keys()) == set(exp), '{}: entries {} expected {}'
            .format(what, sorted(obj.keys()), sorted(exp)))
    for k, (kind, c) in exp.items():
        sub = dict(obj.items())[k]
        if kind == 'dir':
            cmp_dir(what + '/' + k, sub, c)
        elif kind == 'vars':
            require(isinstance(sub, VariableGroup)
                    and dict(sub.items()) == {a: float(b)
                                              for a, b in c.items()}
                    and all(type(x) is float for x in sub.values()),
                    '{}: variables {}'.format(what, dict(sub.items())))
        else:
            cmp_group(what + '/' + k, sub, c)


def check(kind, data):
    with scratch() as d:
        if kind == 'tree':
            # avoid two files of the same name
            def clean(t):
                seen, out = set(), {}
                for n, c in t.items():
                    b = n[:-1] if n.endswith('/') else n.rsplit('.', 1)[0]
                    if b in seen and not n.startswith(('.', '__')):
                        continue
                    seen.add(b)
                    out[n] = clean(c) if n.endswith('/') else c
                return out
            t = clean(data['t'])
            write_tree(d, t)
            obj = run('load {}'.format(json.dumps(t)), EquationDirectory, d)
            cmp_dir('directory {}'.format(json.dumps(t)), obj, expected(t))
            return bool(expected(t))
        if kind == 'broken':
            good = {'good.yaml': {'e1': 'v * 2'}, 'zz.yaml': {'e': 'v'}}
            good.pop(data['n'], None)
            bad = dict(good)
            bad[data['n']] = BROKEN[data['n']]
            write_tree(d, bad if data['where'] == 'top' else
                       dict(good, **{'s/': bad}))
            expect_error('directory with broken file {}'.format(data['n']),
                         EquationDirectory, d)
            return True
        if kind == 'links':
            # a linked file or directory is loaded like any other
            write_tree(d, {'lib/': {'g.yaml': {'a': 'v - w'}},
                           'away/': {'h.json': {'a': 'v'}, 's/': {
                               'k.yml': {'a': 'w'}}}})
            lib = os.path.join(d, 'lib')
            os.symlink(os.path.join(d, 'away'), os.path.join(lib, 'sub'))
            os.symlink(os.path.join(d, 'away', 'h.json'),
                       os.path.join(lib, 'one.json'))
            obj = run('load', EquationDirectory, lib)
            cmp_dir('linked directory', obj, expected({
                'g.yaml': {'a': 'v - w'}, 'one.json': {'a': 'v'},
                'sub/': {'h.json': {'a': 'v'}, 's/': {
                    'k.yml': {'a': 'w'}}}}))
            os.symlink(lib, os.path.join(d, 'all'))
            obj2 = run('load', EquationDirectory, os.path.join(d, 'all'))
            require(set(obj2.keys()) == set(obj.keys()), 'linked top: {}'
                    .format(sorted(obj2.keys())))
            return True
        if kind == 'changed':
            # the files as they are when the directory is loaded
            for t in ({'g.yaml': {'a': 'v'}, 'variables.yaml': {'k': 1}},
                      {'g.yaml': {'a': 'w'}, 'variables.yaml': {'k': 2}},
                      {'g.yaml': {'b': 'v'}, 'h.json': {'a': 'w'},
                       'variables.yaml': {'k': 3}}):
                write_tree(d, t)
                obj = run('load', EquationDirectory, d)
                cmp_dir('changed directory {}'.format(t), obj, expected(t))
            for f in ('h.json', 'g.yaml'):
                os.remove(os.path.join(d, f))
            write_tree(d, {'g/': {'z.yaml': {'a': 'v'}}})
            obj = run('load', EquationDirectory, d)
            cmp_dir('changed directory', obj, expected(
                {'variables.yaml': {'k': 3}, 'g/': {'z.yaml': {'a': 'v'}}}))
            return True
        if kind == 'files':
            write_tree(d, {'g.yaml': {'a': 'v + 1', 'n': {'b': 'v'}},
                           'g.txt': 'a: v\n', 'h.json': {'a': 'v + 2'}})
            cmp_group('g', run('g', EquationGroup,
                               os.path.join(d, 'h.json')) and
                      EquationGroup({'a': 'v'}), {'a': 'v'})
            require(same_value(EquationGroup(os.path.join(d, 'h.json'))['a']
                               .evaluate(v=1.), 3.0), 'json group')
            expect_error('txt', EquationGroup, os.path.join(d, 'g.txt'))
            expect_error('missing', EquationGroup, os.path.join(d, 'q.yaml'))
            expect_error('list', EquationGroup, ['v'])
            return True
        o = ['interp_extrap_power', 'use_nearest_power',
             'interp_extrap_year', 'use_nearest_year']
        kw = {k: bool(b) for k, b in zip(o, data['opts'])}
        c = {'e_2MW': 'v', 'e_4MW': '3 * v', 'y_2010': 'v', 'y_2020': '5 * v'}
        write_tree(d, {'f.yaml': c, 's/': {'t/': {'g.json': dict(c, sub=c)}},
                       'h.yml': {'n': {'m': c}}})
        obj = run('load', EquationDirectory, d, **kw)
        for pre in ('f', 's::t::g', 's::t::g::sub', 'h::n::m'):
            for req, kindn, lin, near in (
                    ('e_5MW', 'power', 4.0, 3.0), ('y_2025', 'year', 7.0, 5.0)):
                got = outcome(obj.__getitem__, pre + '::' + req)
                objs = [got]
                par = obj[pre]
                objs.append(outcome(par.__getitem__, req))
                for got in objs:
                    if kw['interp_extrap_' + kindn]:
                        want = lin
                    elif kw['use_nearest_' + kindn]:
                        want = near
                    else:
                        want = None
                    if want is None:
                        require(got[0] == 'err' and got[1] == 'KeyError',
                                'options {}: {} gave {}'.format(
                                    data['opts'], req, short(got)))
                    else:
                        require(got[0] == 'ok' and same_value(
                            got[1].evaluate(v=1.0), want, 1e-9),
                            'options {} at {}: {} gave {}'.format(
                                data['opts'], pre, req, short(got)))
    return True
