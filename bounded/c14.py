"""Assignment of config inputs: random sequences of assignments of mappings,
tables and None against a reference dictionary."""
from bounded.base import *   # noqa

BOUND = 'sequences of at most 5 assignments, 5 names, 9 kinds of value'
_DIR = {}
NAMES = ['v', 'w', 'u2', 'extra', 'x y']
KINDS = ['float', 'int', 'f64', 'f32', 'i64', 'i32', 'npf', 'list', 'bool',
         'u8', 'neg', 'nan', 'inf', 'zero', 'fzero', 'nanarr', 'infarr',
         'zarr']


def libdir():
    if not _DIR:
        _DIR['d'] = tempfile.mkdtemp(prefix='nrwalchk_')
        write_tree(_DIR['d'], {'f.yaml': {'e1': 'v * 2 + w'}})
        import atexit
        atexit.register(shutil.rmtree, _DIR['d'], ignore_errors=True)
    return _DIR['d']


def cases(tier, seed):
    rng = rng_for('C14', tier, seed)
    for k in KINDS:
        for route in ('setter', 'ctor', 'evaluate'):
            yield 'seq', {'steps': [['dict', [['v', k]]]], 's': 1,
                          'route': route}
    for _ in range(2500 if tier == 'quick' else 6000):
        steps = []
        for _ in range(rng.randrange(1, 6)):
            r = rng.random()
            if r < .15:
                steps.append(['none', []])
            elif r < .75:
                steps.append(['dict', [[n, rng.choice(KINDS)] for n in
                                       rng.sample(NAMES, rng.randrange(0, 4))]])
            else:
                steps.append(['df', [[n, rng.choice(['f64', 'i64', 'f32', 'i32',
                                                     'nanarr', 'infarr',
                                                     'zarr'])] for n in
                                     rng.sample(NAMES, rng.randrange(1, 4))]])
        yield 'seq', {'steps': steps, 's': rng.randrange(10 ** 6),
                      'route': rng.choice(['setter', 'setter', 'evaluate'])}
    for b in ('list', 'str', 'int', 'series', 'array', 'tuple'):
        yield 'badcontainer', {'b': b}
    for b in ('str', 'none', 'dict', 'obj', 'series', 'key'):
        yield 'badvalue', {'b': b}


def make(kind, rng):
    vals = [rng.randrange(1, 100) for _ in range(3)]
    if kind == 'float':
        return round(rng.uniform(0, 5), 4)
    if kind == 'int':
        return vals[0]
    if kind == 'neg':
        return -vals[0]
    if kind == 'bool':
        return True
    if kind == 'npf':
        return np.float64(1.5)
    if kind in ('nan', 'inf'):
        return float(kind)
    if kind in ('zero', 'fzero'):
        return 0 if kind == 'zero' else 0.0
    if kind == 'nanarr':
        return np.full(3, np.nan)
    if kind == 'infarr':
        return np.array([np.nan, np.inf, 1.25])
    if kind == 'zarr':
        return np.zeros(3, dtype=rng.choice([float, int]))
    if kind == 'list':
        return [1.0, 2.0]
    dt = {'f64': np.float64, 'f32': np.float32, 'i64': np.int64,
          'i32': np.int32, 'u8': np.uint8}[kind]
    a = np.array(vals, dtype=dt)
    if kind[0] == 'f':
        a = a + dt(0.3)
    return a


def norm(v):
    if isinstance(v, np.ndarray):
        return v.astype(np.float32)
    if isinstance(v, int):
        return float(v)
    return v


def same(a, b):
    if isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and a.dtype == np.float32
                and np.array_equal(a, b, equal_nan=True))
    return type(a) is type(b) and (a == b or a != a and b != b)


def check(kind, data):
    obj = run('config', NrwalConfig, {'equation_directory': libdir(),
                                      'x': 'f::e1'})
    if kind == 'badcontainer':
        arg = {'list': [1.0], 'str': 'v', 'int': 5,
               'series': pd.Series([1.0]), 'array': np.ones(2),
               'tuple': (('v', 1.0),)}[data['b']]
        obj.inputs = {'w': 2.0}

        def setit():
            obj.inputs = arg
        expect_error('inputs of kind ' + data['b'], setit)
        require(obj.inputs == {'w': 2.0}, 'inputs changed')
        expect_error('evaluate with inputs of kind ' + data['b'],
                     obj.evaluate, inputs=arg)
        expect_error('constructor', NrwalConfig,
                     {'equation_directory': libdir(), 'x': 'f::e1'}, arg)
        return True
    if kind == 'badvalue':
        arg = {'str': {'v': 'text'}, 'none': {'v': None},
               'dict': {'v': {'a': 1}}, 'obj': {'v': object()},
               'series': {'v': pd.Series([1.0])}, 'key': {5: 1.0}}[data['b']]

        def setit():
            obj.inputs = arg
        expect_error('input value of kind ' + data['b'], setit)
        return True
    rng = rng_for('c14', data['s'])
    ref = {}
    for how, content in data['steps']:
        if how == 'none':
            obj.inputs = None
            ref = {}
        else:
            new = {n: make(k, rng) for n, k in content}
            arg = new if how == 'dict' else pd.DataFrame(new)
            keep = {n: (v.copy() if isinstance(v, np.ndarray) else
                        list(v) if isinstance(v, list) else v)
                    for n, v in new.items()}
            types = {n: (type(v), getattr(v, 'dtype', None))
                     for n, v in new.items()}
            dfkeep = arg.copy() if how == 'df' else None
            if data['route'] == 'setter':
                try:
                    obj.inputs = arg
                except Exception as e:
                    raise Fail('assigning {}: {} {}'.format(
                        short(arg), type(e).__name__, e))
            elif data['route'] == 'ctor':
                obj = run('ctor', NrwalConfig,
                          {'equation_directory': libdir(), 'x': 'f::e1'},
                          inputs=arg)
            else:
                out = outcome(obj.evaluate, inputs=arg)
                ok = {'v', 'w'} <= set(ref) | set(new)
                require(ok or out[0] == 'err', 'evaluated without inputs')
            ref.update({n: norm(v) for n, v in new.items()})
            require(list(new) == list(keep) and all(
                (type(v), getattr(v, 'dtype', None)) == types[n]
                and (np.array_equal(v, keep[n], equal_nan=v.dtype.kind == 'f')
                     if isinstance(v, np.ndarray) else
                     v == keep[n] or v != v and keep[n] != keep[n])
                for n, v in new.items()), 'the caller\'s mapping changed')
            if dfkeep is not None:
                require(arg.equals(dfkeep)
                        and list(arg.dtypes) == list(dfkeep.dtypes),
                        'the table changed')
            # later changes of the caller's mapping do not matter
            if how == 'dict':
                arg['later'] = 5.0
            # nor do later changes of what is in it, in both directions
            for n, v in new.items():
                if n in obj.inputs and isinstance(v, np.ndarray):
                    require(not np.shares_memory(v, obj.inputs[n]),
                            'input {} ({}) still is the caller\'s array'
                            .format(n, v.dtype))
                    v += v.dtype.type(1)
            if dfkeep is not None:
                for n in arg:
                    if n in obj.inputs:
                        require(not np.shares_memory(arg[n].values,
                                                     obj.inputs[n]),
                                'input {} still is the table\'s column'
                                .format(n))
        got = obj.inputs
        require(set(got) == set(ref), 'after {}: inputs {} expected {}'
                .format(data['steps'], sorted(got), sorted(ref)))
        for n, v in ref.items():
            require(same(got[n], v), 'after {}: input {} is {} {} expected '
                    '{}'.format(data['steps'], n, short(got[n]),
                                getattr(got[n], 'dtype', ''), short(v)))
    return True
