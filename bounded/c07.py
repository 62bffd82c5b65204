"""Nearest and interpolated power / year look-up.  Sets of stored keys (with
look-alike base names) x requests x all 16 option combinations, on groups,
directories and configs, against a direct computation."""
from bounded.base import *   # noqa

BOUND = 'at most 7 stored keys per group; values 1-20 MW and 1990-2050; all 16 option combinations'
OPTS = ['interp_extrap_power', 'use_nearest_power', 'interp_extrap_year',
        'use_nearest_year']
BASES = ['spar', 'spar_b', 'a_spar', 'cost_per_MW', 'x2010', 'Spar', 'x_10MW']


def parse(key):
    """Independent parsing of the documented key forms."""
    head, sep, tail = key.rpartition('_')
    if sep and tail[-2:].upper() == 'MW' and tail[:-2].isdigit() \
            and tail[:-2].isascii():
        return 'power', head, float(tail[:-2])
    if sep and len(tail) == 4 and tail.isdigit() and \
            1800 <= int(tail) <= 2200:
        return 'year', head, float(tail)
    return None, key, None


def cases(tier, seed):
    rng = rng_for('C07', tier, seed)
    fixed = ['spar_3MW', 'spar_6MW', 'spar_10MW', 'spar_b_4MW', 'a_spar_7MW',
             'spar_2015', 'spar_2030', 'plain', 'spar_gt10MW']
    reqs = ['spar_4MW', 'spar_5MW', 'spar_12MW', 'spar_1MW', 'spar_3MW',
            'spar_7mw', 'spar_b_9MW', 'b_4MW', 'spar_2020', 'spar_2040',
            'spar_1999', 'spar_2015', 'par_4MW', 'spar_gt9MW', 'plain',
            'plain_3MW', 'plain_2020', 'spar_1799', 'spar_9999', 'spar_MW',
            'spar4MW', 'spar_4.5MW', 'spar_12345', 'a_spar_1MW', 'spar',
            'spar_2019_x', 'spar_6MW_2015', 'spar_205', 'spar_1800',
            'spar_2200', 'spar_2201', 'spar_06MW', 'spar_004MW',
            'spar_5 MW', 'spar_5MWh', 'spar_5kW', 'spar_5_MW', 'spar_20 20']
    for opts in itertools.product([0, 1], repeat=4):
        for r in reqs:
            yield 'look', {'keys': fixed, 'req': r, 'opts': list(opts),
                           'where': 'group'}
    n = 4000 if tier == 'quick' else 12000
    for _ in range(n):
        keys = set()
        for _ in range(rng.randrange(1, 7)):
            b = rng.choice(BASES[:4] if rng.random() < .8 else BASES)
            keys.add(b + rng.choice(['_{}MW'.format(rng.randrange(1, 21)),
                                     '_{}'.format(rng.randrange(1990, 2051)),
                                     '_{}MW'.format(rng.randrange(1, 21)), '']))
        kb = rng.choice(sorted(keys))
        base = parse(kb)[1] if rng.random() < .8 else rng.choice(BASES)
        req = base + rng.choice(['_{}MW'.format(rng.randrange(1, 21)),
                                 '_{}Mw'.format(rng.randrange(1, 21)),
                                 '_{}'.format(rng.randrange(1990, 2051))])
        # distinct (base, value) per group
        seen, ks = set(), []
        for k in sorted(keys):
            if parse(k) not in seen or parse(k)[0] is None:
                seen.add(parse(k))
                ks.append(k)
        rng.shuffle(ks)
        yield 'look', {'keys': ks, 'req': req,
                       'opts': [rng.randrange(2) for _ in range(4)],
                       'where': rng.choice(['group', 'nested', 'directory',
                                            'config', 'config_opt',
                                            'merged'])}
    for opts in itertools.product([0, 1], repeat=4):
        yield 'paths', {'opts': list(opts)}
    for how in ('set', 'directory', 'config'):
        yield 'override', {'how': how}
    yield 'math', {}
    yield 'constant', {}


def text_for(i):
    return 'v * {} + {}'.format(i + 2, 10 * (i + 1) ** 2)


def val_for(i, v):
    return v * (i + 2) + 10 * (i + 1) ** 2


def check(kind, data):
    if kind == 'math':
        g = run('load', EquationGroup, {'e_2MW': 'v', 'e_4MW': '3*v',
                                        'f': 'v + 1'},
                interp_extrap_power=True)
        out = run('key', g.__getitem__, 'f * 2 - e_3MW').evaluate(v=1.5)
        require(same_value(out, 5.0 - 3.0), 'math with interpolation: {}'
                .format(out))
        return True
    if kind == 'paths':
        # only the last component may be replaced, wherever it occurs
        kw = {o: bool(b) for o, b in zip(OPTS, data['opts'])}
        inner = {'x_6MW': 'v', 'x_10MW': 'v * 3', 'y_2010': 'v + 1',
                 'y_2020': 'v + 5'}
        with scratch() as d:
            write_tree(d, {'f.yaml': {'x_6MW': inner, 'y_2010': inner,
                                      'x_7MW': inner, 'y_2012': inner,
                                      'z_3MW': {'x_7MW': inner}}})
            for obj, pre in ((run('load', EquationDirectory, d, **kw),
                              'f::'),
                             (run('load', EquationGroup, os.path.join(
                                 d, 'f.yaml'), **kw), '')):
                # (a directory hands each component to the groups singly)
                for p in ('x_8MW::x_6MW', 'y_2011::y_2010', 'x_5MW::x_10MW',
                          'z_4MW::x_7MW::x_6MW', 'z_3MW::x_8MW::x_6MW',
                          'y_2013::x_6MW') if not pre else ():
                    g = outcome(obj.__getitem__, p)
                    require(g[0] == 'err' and g[1] == 'KeyError',
                            '{} with {}: {}'.format(p, kw, short(g)))
                for p, fam, near, line in (
                        ('x_7MW::x_7MW', 'power', 1.5, 1.5 + .25 * 3.0),
                        ('z_3MW::x_7MW::x_7MW', 'power', 1.5, 2.25),
                        ('y_2012::y_2012', 'year', 2.5, 3.3)):
                    g = outcome(obj.__getitem__, pre + p)
                    what = '{}{} with {}'.format(pre, p, kw)
                    if kw['interp_extrap_' + fam]:
                        w = line
                    elif kw['use_nearest_' + fam]:
                        w = near
                    else:
                        require(g[0] == 'err' and g[1] == 'KeyError',
                                '{}: {}'.format(what, short(g)))
                        continue
                    require(g[0] == 'ok', '{}: {}'.format(what, short(g)))
                    r = run(what, g[1].evaluate, v=1.5)
                    require(same_value(r, w, 1e-6), '{}: {} instead of {}'
                            .format(what, r, w))
        return True
    if kind == 'override':
        # defaults of the entries stay defaults of the interpolated equation
        content = {'e_2MW': 'k * 3', 'e_4MW': 'k + j', 'c_2010': 5,
                   'c_2020': 'k'}
        kw = {'interp_extrap_power': True, 'interp_extrap_year': True}
        with scratch() as d:
            write_tree(d, {'variables.yaml': {'k': 2.0, 'j': 7.0},
                           'f.yaml': content})
            if data['how'] == 'set':
                g = run('load', EquationGroup, content, **kw)
                g.set_default_variables({'k': 2.0, 'j': 7.0})
                look = lambda k: g[k].evaluate
            elif data['how'] == 'directory':
                g = run('load', EquationDirectory, d, **kw)
                look = lambda k: g['f::' + k].evaluate
            else:
                o = run('cfg', NrwalConfig, {'equation_directory': d,
                                             'x': 'f::e_3MW',
                                             'y': 'f::c_2015'}, **kw)
                names = {'e_3MW': 'x', 'c_2015': 'y'}

                def look(k):
                    def f(**env):
                        o.inputs = None
                        return o.evaluate(env)[names[k]]
                    return f
            for env in ({}, {'k': 10.0}, {'j': 1.0}, {'k': 4.0, 'j': 0.5}):
                k, j = env.get('k', 2.0), env.get('j', 7.0)
                for key, w in (('e_3MW', (k * 3 + k + j) / 2),
                               ('c_2015', (5 + k) / 2)):
                    r = run(key, look(key), **env)
                    require(same_value(r, w, 1e-6), '{} {} with {}: {} '
                            'instead of {}'.format(data['how'], key, env, r,
                                                   w))
        return True
    if kind == 'constant':
        g = run('load', EquationGroup, {'e_2010': 5.0, 'e_2020': 9},
                interp_extrap_year=True)
        for y, w in ((2015, 7.0), (2025, 11.0), (2000, 1.0), (2010, 5.0)):
            out = run('const', g.__getitem__, 'e_{}'.format(y)).evaluate()
            require(same_value(out, w, 1e-9), 'e_{} = {} expected {}'
                    .format(y, out, w))
        return True
    keys, req = data['keys'], data['req']
    kw = {o: bool(b) for o, b in zip(OPTS, data['opts'])}
    content = {k: text_for(i) for i, k in enumerate(keys)}
    index = {k: i for i, k in enumerate(keys)}
    where = data['where']
    stored = {}
    with scratch() as d:
        if where == 'group':
            obj = run('load', EquationGroup, content, **kw)
            stored = dict(obj.items())
            got = outcome(obj.__getitem__, req)
        elif where == 'nested':
            obj = run('load', EquationGroup, {'s': {'t': content},
                                              'u': 'v'}, **kw)
            stored = dict(obj['s::t'].items())
            got = outcome(obj.__getitem__, 's::t::' + req)
        elif where == 'merged':
            obj = run('load', EquationGroup, {'zz': 'v'}, **kw) + content
            stored = dict(obj.items())
            got = outcome(obj.__getitem__, req)
        elif where == 'directory':
            write_tree(d, {'sub/': {'f.yaml': content}})
            obj = run('load', EquationDirectory, d, **kw)
            stored = dict(obj['sub::f'].items())
            got = outcome(obj.__getitem__, 'sub::f::' + req)
        else:
            write_tree(d, {'sub/': {'f.yaml': content}})
            cfg = {'equation_directory': d, 'x': 'sub::f::' + req,
                   'y': 'sub::f::{} * 2 + 1'.format(req)}
            if where == 'config_opt':
                cfg.update(kw)
                # options in the config take precedence
                o = outcome(NrwalConfig, cfg, None,
                            **{k: not v for k, v in kw.items()})
            else:
                o = outcome(NrwalConfig, cfg, None, **kw)
            got = o
            if o[0] == 'ok':
                ev = outcome(o[1].evaluate, inputs={'v': 1.5})
                got = ('cfg', ev)
    fam, base, value = parse(req)
    what = 'request {!r} among {} with {} ({})'.format(
        req, keys, [o for o in OPTS if kw[o]], where)
    like = [(abs(parse(k)[2] - value), k) for k in keys
            if fam and parse(k)[:2] == (fam, base)]
    interp = kw['interp_extrap_' + (fam or 'year')] if fam else False
    near = kw['use_nearest_' + (fam or 'year')] if fam else False
    allowed = []          # list of functions v -> value, and identities
    ident = None
    if req in keys:
        ident = [req]
    elif fam and (interp or near) and like:
        like.sort()
        if interp and len(like) > 1:
            # two closest: ties allow several choices
            dists = [x[0] for x in like]
            firsts = [k for dd, k in like if dd == dists[0]]
            pairs = set()
            for k1 in firsts:
                rest = [(dd, k) for dd, k in like if k != k1]
                m = min(dd for dd, _ in rest)
                pairs |= {(k1, k) for dd, k in rest if dd == m}
            for k1, k2 in pairs:
                x1, x2 = parse(k1)[2], parse(k2)[2]
                if x1 == x2:
                    raise Skip()

                def line(v, k1=k1, k2=k2, x1=x1, x2=x2):
                    y1, y2 = val_for(index[k1], v), val_for(index[k2], v)
                    return y1 + (y2 - y1) * (value - x1) / (x2 - x1)
                allowed.append(line)
        else:
            m = like[0][0]
            ident = [k for dd, k in like if dd == m]
    if where.startswith('config'):
        if ident is None and not allowed:
            # the unknown path is not a lookup result: it never evaluates
            require(got[0] == 'err' or got[1][0] == 'err',
                    what + ': evaluated to {}'.format(short(got)))
            return True
        require(got[0] == 'cfg' and got[1][0] == 'ok',
                what + ': {}'.format(short(got)))
        vals = got[1][1]
        funs = allowed or [lambda v, k=k: val_for(index[k], v) for k in ident]
        require(any(same_value(vals['x'], f(1.5), 1e-7)
                    and same_value(vals['y'], 2 * f(1.5) + 1, 1e-7)
                    for f in funs), what + ': config values {} expected x in '
                '{}'.format(vals, [f(1.5) for f in funs]))
        return True
    if ident is None and not allowed:
        require(got[0] == 'err' and got[1] == 'KeyError',
                what + ': expected a KeyError, got {}'.format(short(got)))
        return True
    require(got[0] == 'ok', what + ': {}'.format(got[1:]))
    eqn = got[1]
    if ident is not None:
        require(any(eqn is stored[k] for k in ident), what + ' returned {} '
                'instead of {}'.format(short(eqn), ident))
    funs = allowed or [lambda v, k=k: val_for(index[k], v) for k in ident]
    ok = False
    for f in funs:
        ok |= all(same_value(run(what, eqn.evaluate, v=v), f(v), 1e-6)
                  for v in (1.0, 2.25, -3.5))
    require(ok, what + ': value {} expected {}'
            .format(eqn.evaluate(v=2.25), [f(2.25) for f in funs]))
    # stored entries are untouched
    for k, i in index.items():
        require(stored[k].full == text_for(i), what + ' changed stored ' + k)
    return True
