"""Item access on configurations under sequences of evaluations, resets and
look-ups against a reference dictionary."""
from bounded.base import *   # noqa

BOUND = 'sequences of at most 8 operations on a configuration of 7 entries'
_DIR = {}


def libdir():
    if not _DIR:
        _DIR['d'] = tempfile.mkdtemp(prefix='nrwalchk_')
        write_tree(_DIR['d'], {'f.yaml': {'e1': 'v * 2 + w', 'e2': 'v'}})
        import atexit
        atexit.register(shutil.rmtree, _DIR['d'], ignore_errors=True)
    return _DIR['d']


NAMES = ['x', 'y', 'z', 'gg', 'kk', 'out_q', 'k2']
CONST = {'kk': 4.0, 'k2': 8.0}


def cases(tier, seed):
    rng = rng_for('C19', tier, seed)
    ops = ['eval'] + ['reset_' + n for n in NAMES] + ['reset', 'reset_nope',
                                                      'badeval', 'input',
                                                      'entry_input']
    for a in ops:
        for b in ops:
            yield 'seq', {'ops': ['eval', a, b], 's': rng.randrange(1000)}
    for names in itertools.permutations(['', ' ', 'a b', 'None', 'k'], 3):
        for key in names:
            yield 'odd', {'names': list(names), 'key': key}
    for name in ('a__b', 'x__', '_x', 'x::y', 'x.y', 'X', 'x2', 'keys2',
                 'long_name_of_an_entry', 'a_', '__a'):
        yield 'names', {'name': name}
    for vals in itertools.product(['zero', 'neg', 'arr', 'zarr', 'marr', 'nan',
                                   'one', 'true', 'inf'], repeat=2):
        yield 'values', {'vals': list(vals)}
    for _ in range(1200 if tier == 'quick' else 4000):
        yield 'seq', {'ops': [rng.choice(ops) for _ in
                              range(rng.randrange(1, 9))],
                      's': rng.randrange(1000)}


def check(kind, data):
    if kind == 'values':
        # whatever an entry evaluates to, that is what it shows
        make = {'zero': 0.0, 'neg': -2.0, 'arr': np.array([1., 2.]),
                'zarr': np.zeros(2), 'marr': np.array([0., 3.]),
                'nan': float('nan'), 'one': 1.0, 'true': 5.0,
                'inf': float('inf')}
        a, b = [make[x] for x in data['vals']]
        obj = run('config', NrwalConfig, {
            'equation_directory': libdir(), 'x': 'p', 'y': 'q * 1',
            'z': 'p > 3' if data['vals'][0] == 'true' else 'p * 0'})
        entries = dict(obj.items())
        out = dict(run('evaluate', obj.evaluate, inputs={'p': a, 'q': b}))
        require(set(out) == {'x', 'y', 'z'}, 'outputs {}'.format(out))
        require(same_value(out['x'], a) and same_value(out['y'], b),
                '{}: outputs {}'.format(data, out))
        for n in 'xyz':
            for got in (obj[n], getattr(obj, n), obj.get(n, 5)):
                require(got is out[n] or same_value(got, out[n])
                        or got == out[n], '{}: {} shows {} after the output '
                        '{}'.format(data, n, short(got), short(out[n])))
        obj.reset_output('y')
        require(obj['y'] is entries['y'] and 'y' not in obj.outputs
                and set(obj.outputs) == {'x', 'z'}, '{}: reset'.format(data))
        obj.reset_output()
        require(all(obj[n] is entries[n] for n in 'xyz')
                and not obj.outputs, '{}: full reset'.format(data))
        return True
    if kind == 'names':
        # item and attribute access agree for any name of an entry
        n = data['name']
        cfg = {'equation_directory': libdir(), n: 'v * 2', 'x': 'v + 1',
               'xx': 'w', 'a': 3}
        o = outcome(NrwalConfig, cfg)
        if o[0] == 'err':       # a name that is refused throughout
            return False
        obj = o[1]
        entries = dict(obj.items())
        require(set(entries) == {n, 'x', 'xx', 'a'}, 'entries')
        for rep in range(2):
            for m, w in ((n, 6.0), ('x', 4.0), ('xx', 5.0)):
                for got in (obj[m], getattr(obj, m), obj.get(m, 9)):
                    require(got is entries[m] if not rep else
                            same_value(got, w), '{!r}: access of {!r} {}'
                            .format(n, m, short(got)))
            run('evaluate', obj.evaluate, inputs={'v': 3.0, 'w': 5.0})
        for m in ('x', n, 'xx'):
            obj.reset_output(m)
            require(obj[m] is entries[m] and m not in obj.outputs
                    and list(obj.to_be_solved) == [m],
                    '{!r}: reset of {!r}: {}'.format(n, m, obj.outputs))
            run('evaluate', obj.evaluate)
        require(raises(getattr, obj, n + 'zz') and raises(
            obj.__getitem__, n + 'zz') and raises(getattr, obj, 'no__ne'),
            'unknown names')
        return True
    if kind == 'odd':
        # entries with unusual names
        cfg = {n: 'v * {}'.format(i + 2) for i, n in enumerate(data['names'])}
        obj = run('config', NrwalConfig,
                  dict(cfg, equation_directory=libdir()))
        entries = dict(obj.items())
        out = run('evaluate', obj.evaluate, inputs={'v': 3.0})
        ref = {n: 3.0 * (i + 2) for i, n in enumerate(data['names'])}
        require(out == ref, '{}: outputs {}'.format(data, out))
        key = data['key']
        obj.reset_output(key)
        rest = {n: v for n, v in ref.items() if n != key}
        require(obj.outputs == rest, '{}: outputs after reset_output({!r}): '
                '{}'.format(data, key, obj.outputs))
        require(obj[key] is entries[key] and obj.get(key, 5) is entries[key],
                '{}: reset of {!r}'.format(data, key))
        require(list(obj.to_be_solved) == [key] and not obj.solved,
                'to_be_solved {}'.format(obj.to_be_solved))
        for n, v in rest.items():
            require(obj[n] == v and obj.get(n, 5) == v,
                    '{}: {!r} is {}'.format(data, n, short(obj[n])))
        return True
    cfg = {'equation_directory': libdir(), 'x': 'f::e1', 'y': 'x + kk',
           'z': 'np.abs(y) - w', 'gg': 'f', 'kk': 4, 'k2': 'kk * 2', 'out_q': 'gg::e2 * v'}
    obj = run('config', NrwalConfig, cfg)
    entries = dict(obj.items())
    require(set(entries) == set(NAMES), 'entries {}'.format(list(entries)))
    require(isinstance(entries['gg'], EquationGroup)
            and all(isinstance(entries[n], Equation) for n in NAMES
                    if n != 'gg'), 'types of the entries')
    rng = rng_for('c19', data['s'])
    shown = {}
    inputs = {}
    what = 'after {}'.format(data['ops'])

    def verify():
        for n in NAMES:
            for how in ('item', 'attr', 'get'):
                if how == 'item':
                    got = outcome(obj.__getitem__, n)
                elif how == 'attr':
                    got = outcome(getattr, obj, n)
                else:
                    got = outcome(obj.get, n, 'fallback')
                require(got[0] == 'ok', '{}: {} of {} raised {}'
                        .format(what, how, n, got[1:]))
                if n in shown:
                    require(same_value(got[1], shown[n], 1e-6),
                            '{}: {} of {} is {} expected the output {}'
                            .format(what, how, n, short(got[1]), shown[n]))
                elif n in CONST and n in obj.outputs:
                    require(same_value(got[1], CONST[n])
                            and got[1] is obj.outputs[n],
                            what + ': constant')
                else:
                    require(got[1] is entries[n], '{}: {} of {} is {} '
                            'expected the entry'.format(what, how, n,
                                                        short(got[1])))
        outs = {k: v for k, v in obj.outputs.items() if k not in CONST}
        require(set(outs) == {k for k in shown if k not in CONST},
                '{}: outputs {} expected {}'.format(what, sorted(outs),
                                                    sorted(shown)))
        unsolved = [n for n in ('x', 'y', 'z', 'out_q') if n not in shown]
        require(sorted(obj.to_be_solved) == sorted(unsolved)
                and obj.solved == (not unsolved),
                '{}: to_be_solved {} expected {}'
                .format(what, obj.to_be_solved, unsolved))
        # inputs and variables of the directory are no entries
        for n in ('unknown_name', 'v', 'w', 'X'):
            got = outcome(obj.__getitem__, n)
            require(got[0] == 'err' and got[1] == 'KeyError', '{}: {} gave {}'
                    .format(what, n, short(got)))
            require(raises(getattr, obj, n), '{}: attribute {}'
                    .format(what, n))
            require(obj.get(n, 'fallback') == 'fallback',
                    '{}: get {}'.format(what, n))
        f = object()
        require(obj.get('unknown_name', f) is f, 'fallback')
        require(obj.get('unknown_name', None) is None, 'fallback None')

    verify()
    for op in data['ops']:
        if op == 'eval':
            inputs = {'v': round(rng.uniform(1, 3), 3),
                      'w': round(rng.uniform(1, 3), 3)}
            run('evaluate', obj.evaluate, inputs=dict(inputs))
            v, w = inputs['v'], inputs['w']
            x = v * 2 + w
            shown = {'x': x, 'y': x + 4, 'z': x + 4 - w, 'out_q': v * v}
        elif op == 'badeval':
            keep = dict(obj.inputs)
            obj.inputs = None
            expect_error('evaluate without inputs', obj.evaluate)
            obj.inputs = keep
        elif op == 'input':
            obj.inputs = {'v': 9.5}
        elif op == 'entry_input':
            keep = dict(obj.inputs)
            obj.inputs = {'x': 5.0, 'y': np.array([1.0, 2.0])}
            verify()
            obj.inputs = None
            obj.inputs = keep
        elif op == 'reset':
            obj.reset_output()
            shown = {}
        else:
            n = op[6:]
            run('reset_output', obj.reset_output, n)
            shown.pop(n, None)
        verify()
    return True
