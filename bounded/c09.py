"""Scope of default variables.  Directory trees of up to 3 levels with a
variables file at every combination of levels; configurations with constants;
overriding at evaluation."""
from bounded.base import *   # noqa

BOUND = 'trees of at most 3 levels and 3 directories per level; 4 variable names'
NAMES = ['k1', 'k2', 'k3', 'k4']


def rand_vars(rng):
    return {n: round(rng.uniform(1, 9), 2) if rng.random() < .7
            else rng.randrange(1, 9)
            for n in rng.sample(NAMES, rng.randrange(1, 4))}


def rand_tree(rng, depth):
    t = {}
    if rng.random() < .6:
        t['variables' + rng.choice(['.yaml', '.yml', '.json'])] = \
            rand_vars(rng)
    for i in range(rng.randrange(1, 3)):
        t['f{}.yaml'.format(i)] = {
            'e1': 'k1 + 2*k2 + 3*k3 + 5*k4 + v',
            'sub': {'e2': 'k1 * k4 - v'}}
    if depth:
        for i in range(rng.randrange(1, 4)):
            t['d{}/'.format(rng.choice('abcxyz')) if i else 'da/'] = \
                rand_tree(rng, depth - 1)
    return t


def cases(tier, seed):
    rng = rng_for('C09', tier, seed)
    files = {'f.yaml': {'e1': 'k1 + 2*k2 + v', 'sub': {'e2': 'k1*k2'}}}
    for bits in range(16):
        def maybe(i, d):
            return dict(d, **({'variables.yaml': {'k1': 10.0 * (i + 1)}}
                              if (bits >> i) & 1 else {}))
        tree = maybe(0, dict(files, **{
            'da/': maybe(1, dict(files, **{'dc/': maybe(3, files)})),
            'db/': maybe(2, files), 'zz/': files}))
        yield 'tree', {'tree': tree, 's': bits}
    for _ in range(500 if tier == 'quick' else 2000):
        yield 'tree', {'tree': rand_tree(rng, rng.randrange(0, 3)),
                       's': rng.randrange(10 ** 6)}
    for _ in range(300 if tier == 'quick' else 1500):
        yield 'config', {'tree': rand_tree(rng, 1),
                         'consts': rand_vars(rng),
                         'over': rand_vars(rng) if rng.random() < .5 else {},
                         's': rng.randrange(10 ** 6)}
    yield 'setdef', {}
    yield 'const_override', {}
    for v in ('5', '1e5', '2.50', ' 3 ', '.5', '-4', '0', 7, 2.5, -3, 0):
        yield 'const_text', {'v': v}
    yield 'sub_object', {}
    for bits in range(8):
        yield 'config_dir', {'bits': bits}


def expected(tree, inherited):
    """{path: defaults} by the scoping rule."""
    own = dict(inherited)
    for n, c in tree.items():
        if n.startswith('variables.'):
            own.update({k: float(v) for k, v in c.items()})
    out = {}
    for n, c in tree.items():
        if n.endswith('/'):
            for p, dv in expected(c, own).items():
                out[n[:-1] + '::' + p] = dv
        elif not n.startswith('variables.'):
            base = n.split('.')[0]
            for k, v in c.items():
                if isinstance(v, dict):
                    for kk in v:
                        out['::'.join([base, k, kk])] = own
                else:
                    out[base + '::' + k] = own
    return out


def value(path, env):
    e = dict(env)
    if path.endswith('e2'):
        return e['k1'] * e['k4'] - e['v']
    return e['k1'] + 2 * e['k2'] + 3 * e['k3'] + 5 * e['k4'] + e['v']


def check(kind, data):
    if kind == 'setdef':
        d = {'k1': 2.0}
        e = Equation('k1 * v', default_variables={'k1': 1.0, 'k2': 5.0})
        e.set_default_variables(d)
        require(e.default_variables == {'k1': 2.0, 'k2': 5.0}, 'update')
        d['k1'] = 9.0
        require(e.evaluate(v=3.0) == 6.0, 'defaults share the caller\'s dict')
        e.set_default_variables(None)
        require(e.default_variables == {'k1': 2.0, 'k2': 5.0}, 'None')
        require(e.evaluate(v=3.0, k1=4.0) == 12.0, 'override')
        g = EquationGroup({'a': 'k1 * v', 's': {'b': 'k1 + k2'}})
        g.set_default_variables({'k1': 2.0})
        g.set_default_variables({'k2': 3.0})
        require(g['a'].default_variables == {'k1': 2.0, 'k2': 3.0}
                and g['s::b'].default_variables == {'k1': 2.0, 'k2': 3.0}
                and g.default_variables == {'k1': 2.0, 'k2': 3.0},
                'group set_default_variables')
        require(g['s::b'].evaluate() == 5.0, 'group default')
        # what is set on one equation or group stays there
        g = EquationGroup({'a': 'k1 * v', 'b': 'k1 + v', 's': {'b': 'k1',
                           'c': 'k1 * 2'}, 't': {'d': 'k1 + 1'}})
        given = {'k1': 2.0}
        g.set_default_variables(given)
        g['a'].set_default_variables({'k1': 3.0, 'z': 1.0})
        g['s'].set_default_variables({'k1': 4.0, 'y': 1.0})
        g['s::b'].set_default_variables({'k1': 5.0})
        got = {p: dict(g[p].default_variables) for p in
               ('a', 'b', 's', 's::b', 's::c', 't', 't::d')}
        want = {'a': {'k1': 3.0, 'z': 1.0}, 'b': given,
                's': {'k1': 4.0, 'y': 1.0}, 's::b': {'k1': 5.0, 'y': 1.0},
                's::c': {'k1': 4.0, 'y': 1.0}, 't': given, 't::d': given}
        require(got == want and given == {'k1': 2.0}
                and g.default_variables == given,
                'setting defaults of one object: {}'.format(got))
        with scratch() as d:
            write_tree(d, {'variables.yaml': {'k1': 2.0}, 'f.yaml':
                           {'a': 'k1', 'b': 'k1 * 2'},
                           'h/': {'f.yaml': {'c': 'k1'}}})
            o = run('load', EquationDirectory, d)
            o['f::a'].set_default_variables({'k1': 3.0, 'z': 1.0})
            o['h'].set_default_variables({'k1': 4.0})
            got = [dict(o[p].default_variables) for p in
                   ('f::a', 'f::b', 'f', 'h::f::c', 'h', 'h::f')]
            require(got == [{'k1': 3.0, 'z': 1.0}, given, given]
                    + [{'k1': 4.0}] * 3 and o.default_variables == given
                    and o['variables'].var_dict == given,
                    'setting defaults of one object: {}'.format(got))
            # several configurations over the same directory
            for i in range(3):
                c = run('config', NrwalConfig, {
                    'equation_directory': d, 'k1': 5 + i, 'x': 'f::a',
                    'y': 'h::f::c * 2'})
                out = run('evaluate', c.evaluate)
                require(dict(out) == {} or (same_value(out['x'], 5. + i)
                        and same_value(out['y'], 10. + 2 * i)),
                        'config {}: {}'.format(i, out))
        return True
    with scratch() as d:
        if kind == 'const_override':
            write_tree(d, {'f.yaml': {'e1': 'kc * v'}})
            cfg = {'equation_directory': d, 'kc': 2.0, 'x': 'kc * v',
                   'y': 'f::e1', 'z': 'np.maximum(kc, 0) * v'}
            o = run('config', NrwalConfig, cfg)
            out = run('evaluate', o.evaluate, inputs={'v': 3.0, 'kc': 5.0})
            require(same_value(out['y'], 15.0) and same_value(out['z'], 15.0),
                    'an input does not override a constant: {}'.format(out))
            if not same_value(out['x'], 15.0):
                require(same_value(out['x'], 6.0), 'unexpected {}'
                        .format(out))
                raise Known('KF1')
            return True
        if kind == 'const_text':
            # a number is a constant however it is written
            write_tree(d, {'variables.yaml': {'kc': 77.0, 'other': 2},
                           'f.yaml': {'e1': 'kc * v + other'}})
            num = float(data['v'])
            for route in ('dict', 'yaml'):
                cfg = {'equation_directory': d, 'kc': data['v'],
                       'y': 'f::e1', 'z': 'np.maximum(kc, -99) * v',
                       'w': 'f::e1 - kc'}
                if route == 'yaml':
                    write_tree(d, {'c/': {'c.yaml': cfg}})
                    cfg = os.path.join(d, 'c', 'c.yaml')
                o = run('config', NrwalConfig, cfg)
                what = 'constant {!r} ({})'.format(data['v'], route)
                require(o.required_inputs == ['v'], '{}: required {}'.format(
                    what, o.required_inputs))
                require(o['y'].default_variables.get('kc') == num
                        and o['y'].default_variables.get('other') == 2.0,
                        '{}: defaults {}'.format(
                            what, o['y'].default_variables))
                out = run('evaluate', o.evaluate, inputs={'v': 3.0})
                require(same_value(out['y'], num * 3 + 2)
                        and same_value(out['z'], num * 3)
                        and same_value(out['w'], num * 2 + 2),
                        '{}: {}'.format(what, out))
                out = run('evaluate', o.evaluate, inputs={'v': 3.0,
                                                          'kc': 11.0})
                require(same_value(out['y'], 35.0), '{}: input does not '
                        'override: {}'.format(what, out))
            return True
        if kind == 'config_dir':
            # a whole directory as a config entry: the constants of the
            # configuration take precedence at every level below it
            lv = [{'variables.yaml': {'k1': 2.0 + i, 'k2': 7.0}}
                  if (data['bits'] >> i) & 1 else {} for i in range(3)]
            f = {'f.yaml': {'e': 'k1 + 10 * k2', 's': {'g': 'k1 * k2'}}}
            write_tree(d, {'lib/': dict(lv[0], **dict(f, **{
                'da/': dict(lv[1], **dict(f, **{
                    'db/': dict(lv[2], **f)}))}))})
            o = run('config', NrwalConfig, {
                'equation_directory': d, 'k1': 5, 'whole': 'lib'})
            for p in ('', 'da::', 'da::db::'):
                for e in ('f::e', 'f::s::g'):
                    q = run('lookup', o['whole'].__getitem__, p + e)
                    require(q.default_variables.get('k1') == 5.0,
                            'constant k1 = 5 does not take precedence in '
                            'the directory entry at {}: {}'.format(
                                p + e, q.default_variables))
                    w = data['bits'] & {'': 1, 'da::': 3}.get(p, 7)
                    require(q.default_variables.get('k2') ==
                            (7.0 if w else None), 'k2 at {}'.format(p + e))
            return True
        write_tree(d, data['tree'] if 'tree' in data else
                   {'variables.yaml': {'k1': 1.0},
                    'a/': {'f.yaml': {'e': 'k1 * 2'}},
                    'b/': {'variables.yaml': {'k1': 7.0},
                           'f.yaml': {'e': 'k1 * 2'}}})
        if kind == 'sub_object':
            o = run('load', EquationDirectory, d)
            require(o['a'].default_variables == {'k1': 1.0}
                    and o['b'].default_variables == {'k1': 7.0}
                    and o.default_variables == {'k1': 1.0}
                    and o['a::f'].default_variables == {'k1': 1.0},
                    'defaults of sub-directories')
            require(o['variables'].var_dict == {'k1': 1.0}, 'variables file')
            return True
        exp = expected(data['tree'], {})
        rng = rng_for('c09', data['s'])
        full = {n: round(rng.uniform(1, 5), 2) for n in NAMES + ['v']}
        if kind == 'tree':
            obj = run('load', EquationDirectory, d)
            for path, dv in exp.items():
                eqn = run('lookup', obj.__getitem__, path)
                require(dict(eqn.default_variables) == dv,
                        '{} of {}: defaults {} expected {}'.format(
                            path, json.dumps(data['tree']),
                            eqn.default_variables, dv))
                need = {v: full[v] for v in eqn.variables if v not in dv}
                got = run('evaluate', eqn.evaluate, **need)
                if not path.endswith('e2') and 'k3' in eqn.variables:
                    require(same_value(got, value(path, dict(full, **dv)),
                                       1e-9), 'default values not used')
                    over = dict(full)
                    got = run('evaluate', eqn.evaluate, **over)
                    require(same_value(got, value(path, full), 1e-9),
                            'supplied values do not win over defaults')
            return bool(exp)
        cfg = {'equation_directory': d}
        cfg.update(data['consts'])
        paths = sorted(exp)
        for i, p in enumerate(paths):
            cfg['out{}'.format(i)] = p
            cfg['sum{}'.format(i)] = p + ' + 1'
        obj = run('config', NrwalConfig, cfg)
        need = {v: full[v] for v in obj.required_inputs}
        out = run('evaluate', obj.evaluate, inputs=dict(need, v=full['v']))
        consts = {k: float(v) for k, v in data['consts'].items()}
        for rep in range(2):
            for i, p in enumerate(paths):
                env = dict(full)
                env.update(exp[p])
                env.update(consts)
                env.update({k: v for k, v in need.items()})
                if rep:
                    env.update(over)
                ref = value(p, env)
                require(same_value(out['out{}'.format(i)], ref, 1e-9)
                        and same_value(out['sum{}'.format(i)], ref + 1, 1e-9),
                        'config constants {} and directory defaults {}: {} '
                        'gives {} expected {}'.format(
                            consts, exp[p], p, out['out{}'.format(i)], ref))
            if rep == 0:
                over = {k: float(v) for k, v in data['over'].items()}
                if not over:
                    break
                out = run('evaluate', obj.evaluate, inputs=dict(over))
        return True
