"""Merging groups and directories: right-biased union, frame conditions."""
from bounded.base import *   # noqa

BOUND = 'random pairs of groups / directories of depth at most 3; 5 later changes of the result'
WORDS = ['a', 'b', 'c', 'd', 'e']


def rand_group(rng, depth):
    out = {}
    for w in rng.sample(WORDS, rng.randrange(1, 5)):
        if depth and rng.random() < .3:
            out[w + 's'] = rand_group(rng, depth - 1)
        else:
            out[w] = rng.choice(['{} * v1', 'v2 + {}', '{} - k1', '{}',
                                 'k2 / {}']).format(rng.randrange(2, 99))
    return out


def rand_dir(rng, depth):
    out = {}
    for w in rng.sample(WORDS, rng.randrange(1, 4)):
        if depth and rng.random() < .4:
            out[w + 'x/'] = rand_dir(rng, depth - 1)
        else:
            out[w + '.yaml'] = rand_group(rng, 1)
    if rng.random() < .5:
        out['variables.yaml'] = {k: round(rng.uniform(1, 9), 2)
                                 for k in rng.sample(['k1', 'k2', 'k3'], 2)}
    return out


def cases(tier, seed):
    rng = rng_for('C10', tier, seed)
    n = 900 if tier == 'quick' else 4000
    for _ in range(n):
        yield 'group', {'g1': rand_group(rng, 2), 'g2': rand_group(rng, 2),
                        'd1': {'k1': 1.5} if rng.random() < .5 else {},
                        'd2': rng.choice([{}, {'k1': 2.5, 'k2': 3.5},
                                          {'k2': 4.5}]),
                        'how': rng.choice(['obj', 'dict', 'path', 'obj'])}
        yield 'dir', {'t1': rand_dir(rng, 2), 't2': rand_dir(rng, 2),
                      'how': rng.choice(['obj', 'path'])}
    for _ in range(200 if tier == 'quick' else 500):
        yield 'config', {'s': rng.randrange(10 ** 6)}
    yield 'chain', {}
    yield 'flags', {}


def deep(obj):
    """Observable state of everything reachable, with identities."""
    if isinstance(obj, Equation):
        return ('E', id(obj), obj.full, sorted(obj.default_variables.items()))
    if isinstance(obj, (int, float, str)):
        return obj
    dv = sorted(getattr(obj, 'default_variables', {}).items()) \
        if not isinstance(obj, VariableGroup) else None
    return (type(obj).__name__, id(obj), dv,
            [(k, deep(v)) for k, v in obj.items()])


def plain(obj):
    """Observable state without identities or defaults."""
    if isinstance(obj, Equation):
        return obj.full
    if isinstance(obj, (int, float, str)):
        return obj
    return {k: plain(v) for k, v in obj.items()}


def eqns(obj, p=()):
    for k, v in obj.items():
        if isinstance(v, Equation):
            yield p + (k,), v
        elif not isinstance(v, (int, float, VariableGroup)):
            for x in eqns(v, p + (k,)):
                yield x


def later_changes(out):
    out.set_default_variables({'k1': 1234.0, 'newk': 7.0})
    for _, e in eqns(out):
        e.set_default_variables({'k2': 555.0})
        e.default_variables['k9'] = 3.0
    for v in list(out.values()):
        if isinstance(v, (EquationGroup, EquationDirectory)):
            v.set_default_variables({'k3': 8.0})
            v.default_variables['zz'] = 1.0
    out.default_variables['zzz'] = 5.0


def same_lookup(what, obj):
    for k, v in obj.items():
        if not any(c in k for c in '+-*/^'):
            require(obj[k] is v, '{}: looking up {} gives {} and not the '
                    'entry'.format(what, k, short(obj[k])))


def check(kind, data):
    if kind == 'group':
        with scratch() as d:
            g1 = run('load', EquationGroup, data['g1'])
            g2 = run('load', EquationGroup, data['g2'])
            g1.set_default_variables(data['d1'])
            if data['how'] == 'obj':
                g2.set_default_variables(data['d2'])
                other = g2
            elif data['how'] == 'dict':
                other = json.loads(json.dumps(data['g2']))
            else:
                write_tree(d, {'g.yaml': data['g2']})
                other = os.path.join(d, 'g.yaml')
            for x in (g1, g2):          # look-ups leave no trace
                for k in x.keys():
                    if not any(c in k for c in '+-*/^'):
                        run('lookup', x.__getitem__, k)
            b1, b2 = deep(g1), deep(g2)
            p1, p2 = plain(g1), plain(g2)
            out = run('add', lambda: g1 + other)
            what = 'group {} + {} ({})'.format(data['g1'], data['g2'],
                                               data['how'])
            want = dict(p1)
            want.update(p2)
            require(plain(out) == want, '{}: {} expected {}'
                    .format(what, plain(out), want))
            require(out is not g1 and out is not g2, what + ': not new')
            same_lookup(what, out)
            require(deep(g1) == b1, what + ': left operand changed')
            require(deep(g2) == b2, what + ': right operand changed: {} '
                    'was {}'.format(deep(g2), b2))
            if data['how'] == 'dict':
                require(other == data['g2'], what + ': dictionary changed')
            d2 = data['d2'] if data['how'] == 'obj' else {}
            for p, e in eqns(out):
                src = data['d1'] if p[0] not in p2 else {}
                w = dict(src)
                w.update(d2)
                require(dict(e.default_variables) == w,
                        '{}: defaults of {} are {} expected {}'
                        .format(what, p, e.default_variables, w))
            later_changes(out)
            require(deep(g1) == b1 and deep(g2) == b2,
                    what + ': a later change of the result changes an '
                    'operand')
        return True
    if kind == 'dir':
        with scratch() as d:
            write_tree(d, {'one/': data['t1'], 'two/': data['t2']})
            d1 = run('load', EquationDirectory, os.path.join(d, 'one'))
            d2 = run('load', EquationDirectory, os.path.join(d, 'two'))
            for x in (d1, d2):          # look-ups leave no trace
                for k in x.keys():
                    run('lookup', x.__getitem__, k)
            b1, b2, p1, p2 = deep(d1), deep(d2), plain(d1), plain(d2)
            out = run('add', lambda: d1 + (d2 if data['how'] == 'obj' else
                                           os.path.join(d, 'two')))
            what = 'directory {} + {} ({})'.format(
                json.dumps(data['t1']), json.dumps(data['t2']), data['how'])
            want = dict(p1)
            want.update(p2)
            require(plain(out) == want, '{}: {} expected {}'
                    .format(what, plain(out), want))
            same_lookup(what, out)
            require(deep(d1) == b1, what + ': left operand changed')
            require(deep(d2) == b2, what + ': right operand changed')
            v2 = data['t2'].get('variables.yaml', {})
            own2 = {'/'.join(p): dict(e.default_variables)
                    for p, e in eqns(d2)}
            for p, e in eqns(out):
                if p[0] in p2 and v2:
                    require(dict(e.default_variables)
                            == own2['/'.join(p)],
                            '{}: defaults of {} are {} expected {}'
                            .format(what, p, e.default_variables,
                                    own2['/'.join(p)]))
                if len(p) == 2:      # top-level files see the union
                    for k, v in v2.items():
                        require(e.default_variables.get(k) == v,
                                '{}: {} has {}={} expected {}'.format(
                                    what, p, k, e.default_variables.get(k),
                                    v))
            later_changes(out)
            require(deep(d1) == b1 and deep(d2) == b2,
                    what + ': a later change of the result changes an '
                    'operand')
        return True
    if kind == 'chain':
        a = EquationGroup({'x': '1 * v', 's': {'y': 'v'}})
        b = EquationGroup({'x': '2 * v', 't': 'v'})
        c = EquationGroup({'x': '3 * v', 's': {'z': 'v'}})
        out = run('add', lambda: a + b + c)
        require(plain(out) == {'x': '3 * v', 's': {'z': 'v'}, 't': 'v'},
                'three-way sum {}'.format(plain(out)))
        require(plain(a)['s'] == {'y': 'v'}, 'left changed')
        return True
    if kind == 'flags':
        a = EquationGroup({'x': 'v'}, use_nearest_power=True)
        out = run('add', lambda: a + {'e_3MW': 'v*3', 's': {'q_4MW': 'v'}})
        require(same_value(run('nearest', out.__getitem__, 'e_5MW')
                           .evaluate(v=1.), 3.0), 'options of the sum')
        require(same_value(run('nearest', out['s'].__getitem__, 'q_5MW')
                           .evaluate(v=1.), 1.0), 'options of the sum')
        return True
    # creating a configuration leaves its dictionary alone
    rng = rng_for('c10', data['s'])
    with scratch() as d:
        write_tree(d, {'f.yaml': {'e1': 'v * 2', 's': {'e2': 'w'}}})
        cfg = {'equation_directory': d, 'k': rng.choice([2, 3.5]),
               'x': 'f::e1 + k', 'g': 'f', 'y': 'g::s::e2 * x',
               'z': 'np.exp(x) - (x + y)'}
        if data['s'] % 37 == 0:
            cfg = {'k': 3.5, 'x': 'v * 2 + k', 'y': 'w * x', 'z': 'x + y'}
        if rng.random() < .5:
            cfg['use_nearest_power'] = rng.choice([True, False])
        if rng.random() < .5:
            cfg['interp_extrap_year'] = True
        keep = json.loads(json.dumps(cfg))
        order = list(cfg)
        obj = run('config', NrwalConfig, cfg,
                  inputs={'v': 1.0} if rng.random() < .5 else None)
        require(cfg == keep and list(cfg) == order,
                'NrwalConfig changed its dictionary to {}'.format(cfg))
        run('evaluate', obj.evaluate, inputs={'v': 1.0, 'w': 2.0})
        require(cfg == keep and list(cfg) == order,
                'evaluate changed the dictionary to {}'.format(cfg))
        again = run('second config', NrwalConfig, cfg)
        out = run('evaluate', again.evaluate, inputs={'v': 1.0, 'w': 2.0})
        require(same_value(out['x'], 2.0 + keep['k']), 'second config')
    return True
