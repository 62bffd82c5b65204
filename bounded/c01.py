"""Equation.evaluate binds names exactly: supplied value over default, missing
name or non-numeric input raises, nothing is mutated.  Cases: expression trees
with up to 3 operators over up to 4 names, every split of the names into
supplied / default / both / neither, scalar, integer and array values."""
from bounded.base import *   # noqa

BOUND = 'trees of at most 5 operators, at most 4 names, arrays of length 1-3'
NAMES = ['a', 'b2', 'depth', 'x_y']
KINDS = ['float', 'int', 'farr', 'iarr', 'npf', 'npi', 'bool']
BAD = ['str', 'none', 'dict', 'series', 'obj']


def cases(tier, seed):
    rng = rng_for('C01', tier, seed)
    forms = ['{0} * {1} + {2}', '{0}/({1} - 3*{2})', 'np.maximum({0}, {1})',
             '{0}', '-{0} ** 2 + {1}', '{0} + {0} * {1}', '3.5', '1e-3*{0}',
             'max({0}, {1})', 'np.where({0} > {1}, {2}, {0})']
    for form in forms:
        n = form.count('{')
        k = sum('{%d}' % i in form for i in range(3))
        for status in itertools.product(['in', 'def', 'both', 'none'],
                                        repeat=k):
            yield 'bind', {'form': form, 'status': list(status),
                           'kinds': [rng.choice(KINDS[:2]) for _ in range(k)],
                           's': rng.randrange(10 ** 6)}
    for kinds in itertools.product(KINDS, repeat=2):
        yield 'bind', {'form': '{0} * 2 + {1} / 3',
                       'status': ['in', rng.choice(['in', 'both'])],
                       'kinds': list(kinds), 's': rng.randrange(10 ** 6)}
    for bad in BAD:
        for extra in (0, 1):
            yield 'bad', {'bad': bad, 'extra': extra}
    yield 'large', {}
    for v in SPECIAL:
        for d in SPECIAL[:6]:
            for form in ('x_y', 'x_y + a', 'x_y * 2 + a',
                         'np.where(x_y == 0, a, x_y)'):
                yield 'special', {'v': v, 'd': d, 'form': form}
    for dt in ('uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16',
               'int32', 'int64'):
        for form in ('n - m', 'n * n + m', '-n', 'n ** 3', 'm - n * 50',
                     'n / m', '(m - n) / 2'):
            for other in ('same', 'int', 'float', 'default'):
                yield 'narrow', {'dt': dt, 'form': form, 'other': other}
    yield 'fail', {}
    for form, names in SEQ:
        for k in range(3):
            yield 'sequence', {'form': form, 'names': names, 's': k}
    for text in ('{}', '{} * 2', '2 * {} + a', 'a * ({} - 1)'):
        for name in GLOBALS:
            for st in ('in', 'def', 'both', 'none'):
                yield 'global', {'text': text, 'name': name, 'st': st}
    for k in range(len(exact_values())):
        for form in ('x_y', 'x_y * 1', 'x_y - a', '(x_y + a) / 3', '-x_y'):
            for dflt in (0, 1):
                yield 'exact', {'k': k, 'form': form, 'd': dflt}
    for text in ('2 * a + 0 * np.size(np.put(arr, 0, 9))',
                 'a + np.size(np.copyto(arr, 7))',
                 'np.clip(arr, 2, 2, arr) * a', 'np.add(arr, a, arr)'):
        yield 'mutating', {'text': text}
    n = 8000 if tier == 'quick' else 30000
    for _ in range(n):
        t = random_tree(rng, rng.randrange(6), lambda r:
                        ['v', r.choice(NAMES)] if r.random() < .7
                        else ['n', r.choice(['2', '0.5', '3'])], unary=.1,
                        call=.05)
        yield 'tree', {'t': t, 's': rng.randrange(10 ** 6)}


SEQ = [('a * 2 + b2', ['a', 'b2']), ('a', ['a']), ('depth / a', ['depth',
       'a']), ('np.maximum(a, x_y) - depth', ['a', 'x_y', 'depth']),
       ('4.5 + 1', []), ('a - a * b2', ['a', 'b2'])]
GLOBALS = ['re', 'copy', 'logger', 'Equation', 'builtins', 'logging',
           'np', 'cls', 'kwargs', 'out', 'msg', 'missing']


def exact_values():
    """Values that must arrive exactly as they are (integers as floats)."""
    return [16777217, -123456789, 10 ** 15 + 1, 0.1, 1e300, 5e-324,
            np.float64(0.1), np.float64(1 / 3), np.float64(16777217.),
            np.array([0.1, 1 / 3]), np.array([[1, 2], [3, 4]]),
            np.array([[7]], dtype=np.uint8), np.array(5), np.array([3]),
            np.array([2.5]), np.array([[0.1]]), np.zeros((2, 0)),
            np.array([1, 2], dtype='>i4'), np.array([0.1], dtype='>f8'),
            np.array([True, False]), 10 ** 18, np.int64(3), np.uint8(200),
            np.array([1 + 2j]), np.float32(0.1)]


SPECIAL = ['zero', 'nan', 'inf', 'mzero', 'one', 'neg', 'izero', 'false',
           'empty', 'nanarr', 'zarr', 'izarr', 'zero_d', 'npnan', 'npz']


def special(kind):
    return {'zero': 0.0, 'nan': float('nan'), 'inf': float('inf'),
            'mzero': -0.0, 'one': 1.0, 'neg': -float('inf'), 'izero': 0,
            'false': False, 'empty': np.array([]),
            'nanarr': np.full(2, np.nan), 'zarr': np.zeros(2),
            'izarr': np.zeros(2, dtype=int), 'zero_d': np.array(0.0),
            'npnan': np.float64('nan'), 'npz': np.float32(0)}[kind]


def make(kind, rng):
    if kind == 'float':
        return round(rng.uniform(1.1, 3), 3)
    if kind == 'int':
        return rng.randrange(2, 9)
    if kind == 'bool':
        return True
    if kind == 'farr':
        return np.round(np.array([rng.uniform(1, 3) for _ in range(2)]), 3)
    if kind == 'iarr':
        return np.array([rng.randrange(2, 9) for _ in range(2)])
    if kind == 'npf':
        return np.float64(rng.uniform(1, 3))
    if kind == 'npi':
        return np.int64(rng.randrange(2, 9))
    if kind == 'str':
        return '3'
    if kind == 'none':
        return None
    if kind == 'dict':
        return {'q': 1}
    if kind == 'series':
        return pd.Series([1.0, 2.0])
    if kind == 'obj':
        return object()
    raise ValueError(kind)


def snap(d):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v, type(v),
                getattr(v, 'dtype', None)) for k, v in d.items()}


def same_snap(d, s):
    if list(d) != list(s):
        return False
    for k, v in d.items():
        v0, t0, dt0 = s[k]
        if type(v) is not t0 or getattr(v, 'dtype', None) != dt0:
            return False
        if isinstance(v, np.ndarray):
            if not np.array_equal(v, v0):
                return False
        elif v is not v0 and v != v0:
            return False
    return True


def as_float(v):
    if isinstance(v, bool) or isinstance(v, int):
        return float(v)
    if isinstance(v, np.ndarray) and v.dtype.kind in 'iu':
        return v.astype(np.float32)
    return v


def do_eval(text, inputs, defaults, env):
    """Evaluate, check frame conditions, return outcome."""
    given = dict(defaults)
    eqn = run('create', Equation, text, 'the_name', given)
    full0, vars0 = eqn.full, list(eqn.variables)
    d0, i0 = snap(eqn.default_variables), snap(inputs)
    outs = []
    for rep in range(2):
        meth = eqn.evaluate if rep == 0 else eqn.eval
        outs.append(outcome(meth, **inputs))
        require(same_snap(inputs, i0), '{!r}: the caller\'s inputs changed: '
                '{}'.format(text, short(inputs)))
        require(same_snap(eqn.default_variables, d0),
                '{!r}: defaults changed by evaluation to {}'
                .format(text, short(eqn.default_variables)))
        require(eqn.full == full0 and list(eqn.variables) == vars0,
                '{!r}: the equation changed'.format(text))
    a, b = outs
    require(a[0] == b[0] and (a[0] == 'err' or same_value(a[1], b[1], 1e-9)
                              or (isinstance(a[1], complex)
                                  and a[1] == b[1])),
            '{!r}: repeated evaluation differs: {} then {}'
            .format(text, short(a), short(b)))
    return a


def check(kind, data):
    if kind == 'bind':
        rng = rng_for(data['s'])
        names = NAMES[:len(data['status'])]
        text = data['form'].format(*(NAMES[:3]))
        inputs, defaults, env, missing = {}, {}, {}, []
        for n, st, kd in zip(names, data['status'], data['kinds']):
            if st in ('def', 'both'):
                defaults[n] = env[n] = make('float', rng) + 10
            if st in ('in', 'both'):
                inputs[n] = make(kd, rng)
                env[n] = as_float(inputs[n])
            if st == 'none':
                missing.append(n)
        inputs['unused'] = 99.0
        defaults['unused_too'] = 98.0
        out = do_eval(text, inputs, defaults, env)
        used = [n for n in missing if n in text]
        if used:
            require(out[0] == 'err', '{!r}: no value for {} but evaluated to '
                    '{}'.format(text, used, short(out[1:])))
            return True
        try:
            ref = eval(text, {'np': np}, dict(env))
        except ZeroDivisionError:
            return False
        require(out[0] == 'ok', '{!r} with {} and defaults {}: unexpected '
                'error {}'.format(text, short(inputs), short(defaults),
                                  out[1:]))
        require(same_value(out[1], ref, 1e-5), '{!r} with {} and defaults {} '
                'gives {} instead of {}'.format(text, short(inputs),
                                                short(defaults),
                                                short(out[1]), short(ref)))
        if any(k in ('int', 'bool', 'iarr') for k in data['kinds']):
            kindc = np.asarray(out[1]).dtype.kind
            require(kindc == 'f', '{!r}: integer inputs were not taken as '
                    'floats: {}'.format(text, short(out[1])))
        return True
    if kind == 'bad':
        v = make(data['bad'], rng_for(1))
        eqn = run('create', Equation, 'a * 2' if not data['extra'] else 'b*2')
        kw = {'a': v}
        if data['extra']:
            kw['b'] = 2.0
        expect_error('input of kind {}'.format(data['bad']),
                     eqn.evaluate, **kw)
        return True
    if kind == 'special':
        # a supplied value wins over the default whatever it is
        v = special(data['v'])
        eqn = run('create', Equation, data['form'],
                  default_variables={'x_y': special(data['d']), 'a': 7.0})
        ref = eval(data['form'], {'np': np}, {
            'x_y': float(v) if isinstance(v, int) else v, 'a': 7.0})
        for meth in (eqn.evaluate, eqn.eval):
            out = run(str(data), meth, x_y=v)
            require(np.shape(out) == np.shape(ref) and np.array_equal(
                np.asarray(out, float), np.asarray(ref, float),
                equal_nan=True), '{}: {} instead of {}'.format(
                    data, short(out), short(ref)))
            require(np.asarray(out).dtype.kind == 'f', '{}: result {} is no '
                    'float'.format(data, short(out)))
        return True
    if kind == 'sequence':
        # no evaluation depends on an earlier one
        rng = rng_for('seq', data['form'], data['s'])
        names, form = data['names'], data['form']
        dflts = {n: make('float', rng) + 5 for n in names
                 if rng.random() < .7}
        if data['s'] == 0:
            dflts = {n: make('float', rng) + 5 for n in names}
        dflts['other'] = 4.0
        eqn = run('create', Equation, form, default_variables=dict(dflts))
        for step in range(12):
            if step == 8 and names:
                new = {names[0]: make('float', rng) + 20}
                run('set', eqn.set_default_variables, new)
                dflts.update(new)
            kw = {n: make(rng.choice(KINDS), rng) for n in names + ['z1']
                  if rng.random() < (.5, 0, 1)[step % 3]}
            env = dict(dflts)
            env.update({n: as_float(v) for n, v in kw.items()})
            out = outcome(eqn.evaluate if step % 2 else eqn.eval, **kw)
            lost = [n for n in names if n not in env]
            if lost:
                require(out[0] == 'err', '{!r} evaluation {} with {}: no '
                        'value for {} but gives {}'.format(
                            form, step, short(kw), lost, short(out[1:])))
                continue
            ref = eval(form, {'np': np}, env)
            require(out[0] == 'ok' and same_value(out[1], ref, 1e-9),
                    '{!r} evaluation {} with {} over defaults {}: {} instead '
                    'of {}'.format(form, step, short(kw), short(dflts),
                                   short(out[1:]), short(ref)))
        return True
    if kind == 'global':
        # names that mean something to the implementation are plain names
        name, text = data['name'], data['text'].format(data['name'])
        kw, dflts = {'a': 3.0}, {}
        if data['st'] in ('in', 'both'):
            kw[name] = 2.5
        if data['st'] in ('def', 'both'):
            dflts[name] = 7.5
        eqn = run('create', Equation, text, default_variables=dflts)
        out = outcome(eqn.evaluate, **kw)
        if data['st'] == 'none':
            require(out[0] == 'err', '{!r}: no value for {} but evaluated to '
                    '{}'.format(text, name, short(out[1:])))
            return True
        ref = eval(text, {}, dict(dflts, **kw))
        require(out[0] == 'ok' and same_value(out[1], ref), '{!r} with {} '
                'over {}: {} instead of {}'.format(text, kw, dflts,
                                                   short(out[1:]), ref))
        return True
    if kind == 'exact':
        v = exact_values()[data['k']]
        form = data['form']
        dflts = {'a': 3.0}
        if data['d']:
            dflts['x_y'] = 5.0
        if form == '-x_y' and getattr(v, 'dtype', None) == bool:
            return False
        i0 = snap({'x_y': v})
        eqn = run('create', Equation, form, default_variables=dflts)
        out = run(str(data), eqn.evaluate, x_y=v)
        w = v
        if isinstance(v, np.ndarray) and v.dtype.kind in 'iu':
            w = v.astype(np.float32)
        elif isinstance(v, int):
            w = float(v)
        ref = eval(form, {}, {'x_y': w, 'a': 3.0})
        require(np.shape(out) == np.shape(ref) and
                isinstance(out, np.ndarray) == isinstance(ref, np.ndarray)
                and np.array_equal(out, ref), '{} with x_y = {!r}: {!r} '
                'instead of {!r}'.format(form, v, out, ref))
        require(same_snap({'x_y': v}, i0), 'the input {!r} changed'.format(v))
        return True
    if kind == 'mutating':
        # an expression that writes to an array does not reach the defaults
        eqn = run('create', Equation, data['text'], default_variables={
            'arr': np.array([3.0, 1.0, 2.0]), 'np.x': 1.0})
        d0 = snap(eqn.default_variables)
        for _ in range(2):
            run(data['text'], eqn.evaluate, a=2.0)
            require(same_snap(eqn.default_variables, d0), '{!r}: defaults '
                    'changed by evaluation to {}'.format(
                        data['text'], short(eqn.default_variables)))
        return True
    if kind == 'large':
        eqn = run('create', Equation, 'n * m')
        out = run('evaluate', eqn.evaluate,
                  n=np.full(2, 2 ** 30), m=np.full(2, 2 ** 30))
        require(np.allclose(out.astype(float), 2.0 ** 60),
                'integer arrays overflow: {}'.format(out))
        out = run('evaluate', Equation('n / m').evaluate, n=7, m=2)
        require(out == 3.5, 'integer division: {}'.format(out))
        return True
    if kind == 'narrow':
        n = np.array([3, 100, 7], dtype=data['dt'])
        m = {'same': np.array([120, 5, 9], dtype=data['dt']), 'int': 120,
             'float': 33.5, 'default': 120.0}[data['other']]
        inputs, defaults = {'n': n}, {}
        if 'm' in data['form']:
            (defaults if data['other'] == 'default' else inputs)['m'] = m
        out = do_eval(data['form'], inputs, defaults, {})
        require(out[0] == 'ok', '{}: {}'.format(data, out[1:]))
        ref = eval(data['form'], {'n': n.astype(float), 'm':
                                  np.asarray(m, dtype=float)})
        require(same_value(out[1], ref, 1e-5) and out[1].dtype.kind == 'f',
                '{}: integer inputs {} give {} instead of {}'
                .format(data['form'], short(inputs), short(out[1]),
                        short(ref)))
        return True
    if kind == 'fail':
        expect_error('division by zero', Equation('a / b').evaluate,
                     a=1.0, b=0.0)
        expect_error('bad syntax', Equation('a * * b').evaluate, a=1., b=2.)
        out = outcome(Equation('a + b * c').evaluate, a=1)
        require(out[0] == 'err' and 'b' in out[2] and 'c' in out[2],
                'the error does not name the missing inputs: {}'.format(out))
        return True
    t = data['t']
    rng = rng_for(data['s'])
    env = env_values(tree_vars(t), rng)
    inputs, defaults = {}, {}
    for n, v in env.items():
        r = rng.random()
        if r < .5:
            inputs[n] = v
        elif r < .75:
            defaults[n] = v
        else:
            inputs[n], defaults[n] = v, v + 1.37
    text = render(t)
    out = do_eval(text, inputs, defaults, env)
    mag = [1.0]
    try:
        ref = ref_value(t, env.__getitem__, mag)
    except Skip:
        return False
    require(out[0] == 'ok', '{!r}: unexpected error {}'.format(text, out[1:]))
    require(same_value(out[1], ref, 1e-8 * mag[0]),
            '{!r} with inputs {} and defaults {} gives {} instead of {}'
            .format(text, inputs, defaults, short(out[1]), ref))
    return True
