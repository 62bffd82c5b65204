"""Config pointers: chains of files in nested directories against the config
with the values written in place; malformed pointers are refused."""
from bounded.base import *   # noqa

BOUND = 'chains of at most 4 files in at most 3 directories'


ODD = [[1, 2], [], {}, {'a': 1}, None, True, False, '3', '-2.5', '', ' v ',
       'v*2', 'v - 1', '-v', 'np.exp(v)', 'f', 'f::e1', '1e3', 1e-9, 12345678912,
       '[1, 2]', 'v[0]', 'v +', 'nope::q', 'eval(v)', 'x + 1', 'x', 'k',
       'None', '2 * (v + w)', '0', 0, -1, 'nan', ['v'], 'a b']


def cases(tier, seed):
    rng = rng_for('C17', tier, seed)
    for _ in range(900 if tier == 'quick' else 3000):
        n = rng.randrange(1, 5)
        yield 'chain', {'dirs': [rng.choice(['', 'a', 'a/b', 'c'])
                                 for _ in range(n + 1)],
                        'ext': [rng.choice(['.yaml', '.yml', '.json'])
                                for _ in range(n + 1)],
                        'val': rng.choice(['v * 2 + w', 3.5, 7, 'f::e1',
                                           'f::e1 - v', 'local + v']),
                        'dot': rng.random() < .5,
                        'abs': rng.random() < .2,
                        's': rng.randrange(10 ** 6)}
    for b in ('dict', 'nofile', 'nokey', 'two', 'plus', 'times', 'paren',
              'nosep', 'pair'):
        yield 'bad', {'b': b}
    for key in ('k', 'm', 'a::b', 'k)', '(k', 'k*2', 'k + 2', 'k * k', 'k/m',
                'k-2', 'k ** 2', 'k::m', 'm)', 'K', ' k', 'k ', 'k::'):
        for form in ('./o.yaml::{}', 'o.yaml::{}', '(o.yaml::{}',
                     '(o.yaml::{})', '2 * o.yaml::{}', 'o.yaml::{} + v',
                     'o.yaml::{} * 2', 'o.yaml::{}::m', 'o.yaml::{} - k'):
            yield 'exact', {'key': key, 'form': form}
    yield 'several', {}
    yield 'cwd', {}
    yield 'reload', {}
    for i in range(len(ODD)):
        for n in (1, 2):
            yield 'place', {'i': i, 'n': n}
    for ptr in ('other.yaml', './other.yaml', '../other.yaml',
                'sub/other.yaml', './sub/other.yaml', '../w/other.yaml'):
        for how in ('abs', 'rel'):
            for miss in (False, True):
                yield 'decoy', {'ptr': ptr, 'how': how, 'miss': miss}


def check(kind, data):
    with scratch() as d:
        lib = os.path.join(d, 'lib')
        write_tree(d, {'lib/': {'f.yaml': {'e1': 'v + w * 3'}}})
        if kind == 'chain':
            n = len(data['dirs']) - 1
            paths = [os.path.join(d, 'cfg', data['dirs'][i],
                                  'c{}{}'.format(i, data['ext'][i]))
                     for i in range(n + 1)]
            for i, p in enumerate(paths):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                content = {'other{}'.format(i): 'v * {}'.format(i + 100)}
                if i < n:
                    rel = os.path.relpath(paths[i + 1], os.path.dirname(p))
                    if data['dot'] and not rel.startswith('.'):
                        rel = './' + rel
                    if data['abs']:
                        rel = paths[i + 1]
                    content['k{}'.format(i)] = '{}::k{}'.format(rel, i + 1)
                else:
                    content['k{}'.format(i)] = data['val']
                if i == 0:
                    content.update(equation_directory=lib, x='k0 * 2',
                                   local=1.25)
                write_tree(os.path.dirname(p), {os.path.basename(p): content})
            plain = {'equation_directory': lib, 'other0': 'v * 100',
                     'k0': data['val'], 'x': 'k0 * 2', 'local': 1.25}
            a = run('config with pointers {}'.format(data), NrwalConfig,
                    paths[0])
            b = run('plain config', NrwalConfig, plain)
            require(set(a.keys()) == set(b.keys()), 'entries {} expected {}'
                    .format(list(a.keys()), list(b.keys())))
            inp = {'v': 1.75, 'w': 2.5}
            x = run('evaluate', a.evaluate, inputs=dict(inp))
            y = run('evaluate', b.evaluate, inputs=dict(inp))
            require(set(x) == set(y) and all(same_value(x[k], y[k])
                                             for k in x),
                    '{}: outputs {} expected {}'.format(data, x, y))
            require(a.required_inputs == b.required_inputs, 'required')
            return True
        base = {'equation_directory': lib, 'x': 'k * 2'}
        write_tree(d, {'other.yaml': {'k': 'v + 1', 'm': 5.0, 'p/q': 'v'}})
        if kind == 'several':
            write_tree(d, {'c.yaml': dict(base, k='./other.yaml::k',
                                          m='other.yaml::m', y='m + k')})
            o = run('config', NrwalConfig, os.path.join(d, 'c.yaml'))
            out = run('evaluate', o.evaluate, inputs={'v': 1.0})
            require(same_value(out['x'], 4.0) and same_value(out['y'], 7.0)
                    and same_value(out['k'], 2.0), 'outputs {}'.format(out))
            return True
        if kind == 'reload':
            # the files as they are when the configuration is created
            write_tree(d, {'c.yaml': dict(base, k='sub/o1.yaml::m'),
                           'sub/': {'o1.yaml': {'m': '../o2.yaml::q'}},
                           'o2.yaml': {'q': 'v + 1'}})
            p = os.path.join(d, 'c.yaml')
            for new, ref in (('v + 1', 6.0), ('v + 2', 8.0), (3, 6.0),
                             ('v', 4.0)):
                write_tree(d, {'o2.yaml': {'q': new}})
                o = run('config', NrwalConfig, p)
                out = run('evaluate', o.evaluate, inputs={'v': 2.0})
                require(same_value(out['x'] if 'x' in out else
                                   o['x'].evaluate(), ref), 'pointer to {!r} '
                        'in a changed file: {}'.format(new, out))
            write_tree(os.path.join(d, 'sub'),
                       {'o1.yaml': {'m': '../o3.yaml::q'}})
            write_tree(d, {'o3.yaml': {'q': 'v * 10'}})
            o = run('config', NrwalConfig, p)
            out = run('evaluate', o.evaluate, inputs={'v': 2.0})
            require(same_value(out['x'], 40.0), 'changed pointer: {}'
                    .format(out))
            os.remove(os.path.join(d, 'o3.yaml'))
            expect_error('pointer to a removed file', NrwalConfig, p)
            return True
        if kind == 'place':
            # whatever the value is, as if it had been written in place
            val = ODD[data['i']]
            write_tree(d, {'plain.yaml': dict(base, k=val),
                           'ptr.yaml': dict(base, k='t1.yaml::a'),
                           't1.yaml': {'a': val} if data['n'] == 1 else
                           {'a': 't2.yaml::b'}, 't2.yaml': {'b': val}})
            a = outcome(NrwalConfig, os.path.join(d, 'plain.yaml'))
            b = outcome(NrwalConfig, os.path.join(d, 'ptr.yaml'))
            require(a[0] == b[0], 'value {!r}: in place {}, by pointer {}'
                    .format(val, short(a), short(b)))
            if a[0] == 'ok':
                a, b = a[1], b[1]
                require(a.required_inputs == b.required_inputs
                        and a.global_variables.keys()
                        == b.global_variables.keys()
                        and type(a['k']) is type(b['k']), 'value {!r}: '
                        'differs from the one in place'.format(val))
                env = {n: 2.5 for n in a.required_inputs}
                x, y = [outcome(o.evaluate, inputs=dict(env)) for o in (a, b)]
                require(x[0] == y[0], 'value {!r}: {} and {}'.format(
                    val, x, y))
                if x[0] == 'ok':
                    require(set(x[1]) == set(y[1]) and all(
                        np.array_equal(x[1][n], y[1][n], equal_nan=True)
                        for n in x[1]), 'value {!r}: {} in place, {} by '
                        'pointer'.format(val, x, y))
            return True
        if kind == 'exact':
            # the referenced file also has keys that look like expressions
            odd = {'a::b': 11.0, 'k)': 12.0, '(k': 13.0, 'k*2': 14.0,
                   'k + 2': 15.0, 'k * k': 16.0, 'k/m': 17.0, 'k-2': 18.0,
                   'k ** 2': 19.0, 'k::m': 20.0, 'm)': 21.0, 'k + v': 22.0,
                   'm + v': 23.0, 'k::': 24.0, 'k * 2': 25.0, '': 26.0,
                   'k - k': 27.0, 'k)::m': 28.0}
            plain = {'k': 5.0, 'm': 7.0}
            write_tree(d, {'o.yaml': dict(odd, **plain)})
            val = data['form'].format(data['key'])
            write_tree(d, {'c.yaml': {'equation_directory': lib, 'x': val}})
            o = outcome(NrwalConfig, os.path.join(d, 'c.yaml'))
            key = val.partition('::')[2]
            content = dict(odd, **plain)
            if key in content and not any(
                    c in val.replace('::', '', 1)
                    for c in ('::', '+', '*', '(', ')')):
                require(o[0] == 'ok' and same_value(
                    run('evaluate', o[1]['x'].evaluate), content[key]),
                    '{!r}: {}'.format(val, short(o)))
            elif key != key.strip() and key.strip() in content:
                return False        # blanks around the key
            else:
                require(o[0] == 'err', 'malformed or missing pointer {!r} '
                        'was accepted: {}'.format(val, short(o)))
            return True
        if kind == 'decoy':
            # a file of the same relative name below the working directory
            conf = os.path.join(d, 'p', 'conf')
            work = os.path.join(d, 'work', 'z')
            targets = {os.path.normpath(os.path.join(b, data['ptr'])): v
                       for b, v in ((work, 400.0), (conf, 3.0))}
            if data['miss']:
                targets.pop(os.path.normpath(os.path.join(conf,
                                                          data['ptr'])))
            os.makedirs(conf)
            os.makedirs(work)
            for t, v in targets.items():
                os.makedirs(os.path.dirname(t), exist_ok=True)
                write_tree(os.path.dirname(t), {'other.yaml': {'k': v}})
            write_tree(conf, {'c.yaml': dict(base, k=data['ptr'] + '::k',
                                              x='k * v')})
            path = os.path.join(conf, 'c.yaml')
            old = os.getcwd()
            try:
                os.chdir(work)
                if data['how'] == 'rel':
                    path = os.path.relpath(path)
                o = outcome(NrwalConfig, path)
            finally:
                os.chdir(old)
            if data['miss']:
                require(o[0] == 'err', '{}: took a file that is not next to '
                        'the config'.format(data))
                return True
            require(o[0] == 'ok', '{}: {}'.format(data, o[1:]))
            out = run('evaluate', o[1].evaluate, inputs={'v': 2.0})
            require(same_value(out['x'], 6.0), '{}: the pointer is not '
                    'relative to its file: {}'.format(data, out))
            return True
        if kind == 'cwd':
            write_tree(d, {'s/': {'c.yaml': dict(base, k='../other.yaml::k'),
                                  'other.yaml': {'k': 'v + 100'}}})
            old = os.getcwd()
            try:
                os.chdir(os.path.join(d, 's'))
                o = run('config', NrwalConfig, 'c.yaml')
                os.chdir(d)
                o2 = run('config', NrwalConfig, 's/c.yaml')
            finally:
                os.chdir(old)
            for x in (o, o2):
                out = run('evaluate', x.evaluate, inputs={'v': 1.0})
                require(same_value(out['k'], 2.0), 'resolved relative to the '
                        'working directory: {}'.format(out))
            return True
        val = {'dict': './other.yaml::k', 'nofile': './nope.yaml::k',
               'nokey': './other.yaml::zz', 'two': './other.yaml::k::m',
               'plus': './other.yaml::k + 2', 'times': '2 * ./other.yaml::k',
               'paren': '(./other.yaml::k)', 'nosep': './other.yaml',
               'pair': './other.yaml::k * ./other.yaml::m'}[data['b']]
        cfg = dict(base, k=val)
        if data['b'] == 'dict':
            old = os.getcwd()
            try:
                os.chdir(d)
                expect_error('pointer in a dictionary', NrwalConfig, cfg)
            finally:
                os.chdir(old)
        else:
            write_tree(d, {'c.yaml': cfg})
            expect_error('pointer {!r}'.format(val), NrwalConfig,
                         os.path.join(d, 'c.yaml'))
        return True
