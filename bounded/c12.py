"""Required / missing inputs, all_variables, solvable and the guard of
evaluate.  Random configurations over a library with defaults; every subset
of the required inputs supplied."""
from bounded.base import *   # noqa

BOUND = 'at most 5 entries, at most 6 required inputs (all subsets of up to 4 supplied)'
_DIR = {}
LIB = {'f.yaml': {'e1': ['v', 'w'], 'e2': ['u2', 'dflt'], 'e3': ['dflt']},
       'sub': {'e4': ['v', 'dflt', 'z']}}
TEXT = {'e1': 'v * 2 + w', 'e2': 'u2 - dflt', 'e3': 'dflt * 3',
        'e4': 'v + dflt - z'}


def libdir():
    if not _DIR:
        _DIR['d'] = tempfile.mkdtemp(prefix='nrwalchk_')
        write_tree(_DIR['d'], {
            'f.yaml': {k: TEXT[k] for k in ('e1', 'e2', 'e3')},
            'variables.yaml': {'dflt': 2.5},
            'p/': {'h.yaml': {'e4': TEXT['e4']},
                   'variables.yaml': {'z': 1.5}},
            'q/': {'h.yaml': {'e4': TEXT['e4']}}})
        import atexit
        atexit.register(shutil.rmtree, _DIR['d'], ignore_errors=True)
    return _DIR['d']


PATHS = {'f::e1': ['v', 'w'], 'f::e2': ['u2', 'dflt'], 'f::e3': ['dflt'],
         'p::h::e4': ['v', 'dflt', 'z'], 'q::h::e4': ['v', 'dflt', 'z']}
DEFS = {'f': {'dflt': 2.5}, 'p': {'dflt': 2.5, 'z': 1.5},
        'q': {'dflt': 2.5}}


def cases(tier, seed):
    rng = rng_for('C12', tier, seed)
    n = 1500 if tier == 'quick' else 4000
    for _ in range(n):
        entries, names = [], []
        for i in range(rng.randrange(1, 6)):
            parts = []
            for _ in range(rng.randrange(1, 4)):
                r = rng.random()
                if r < .35:
                    parts.append(rng.choice(list(PATHS)))
                elif r < .6:
                    parts.append(rng.choice(['v', 'aa', 'b9', 'dflt', 'z',
                                             '_u', 'Zz']))
                elif r < .75 and names:
                    parts.append(rng.choice(names))
                elif r < .85 and names:
                    parts.append('np.abs({})'.format(rng.choice(names)))
                elif r < .92:
                    parts.append('kc')
                else:
                    parts.append('2.5')
            n_ = 'ent{}'.format(i)
            entries.append([n_, parts])
            names.append(n_)
        rng.shuffle(entries)
        yield 'cfg', {'entries': entries, 's': rng.randrange(10 ** 6),
                      'kc': rng.random() < .6}
    yield 'order', {}
    for v in ('nan', 'zero', 'npzero', 'zarr', 'inf', 'list', 'tuple',
              'false'):
        yield 'values', {'v': v}


def needs(name, ent, kc, seen):
    """(variables used, defaults available) of an entry, by its parts."""
    used, dv = set(), {}
    for p in ent[name]:
        if p in PATHS:
            used |= set(PATHS[p])
            dv.update(DEFS[p.split('::')[0]])
        elif p.startswith('np.abs('):
            used.add(p[7:-1])
        elif p in ent:
            u, d = needs(p, ent, kc, seen)
            used |= u
            dv.update(d)
        elif p == 'kc' and kc:
            pass
        elif p != '2.5':
            used.add(p)
    return used, dv


def check(kind, data):
    d = libdir()
    if kind == 'order':
        o = run('cfg', NrwalConfig, {'equation_directory': d,
                                     'x': 'b + a - a2', 'y': 'a * x'})
        require(o.required_inputs == ['a', 'a2', 'b'], 'required {}'
                .format(o.required_inputs))
        require(o.missing_inputs == ['a', 'a2', 'b'], 'missing')
        o.inputs = {'a': 1.0, 'zzz': 4.0}
        require(o.missing_inputs == ['a2', 'b'] and not o.solvable,
                'missing {}'.format(o.missing_inputs))
        out = outcome(o.evaluate)
        require(out[0] == 'err' and 'a2' in out[2] and 'b' in out[2],
                'error {}'.format(out))
        require(o.outputs == {}, 'outputs set')
        o.inputs = {'a2': 2.0, 'b': 5.0}
        require(o.missing_inputs == [] and o.solvable, 'solvable')
        run('evaluate', o.evaluate)
        keep = dict(o.outputs)
        o.inputs = None
        require(o.missing_inputs == ['a', 'a2', 'b'], 'after clear')
        expect_error('missing', o.evaluate)
        require(o.outputs == keep, 'failed evaluation changed the outputs')
        for inp in ({'a': 7.0}, {'b': 1, 'zz': 2}, {}, pd.DataFrame(
                {'a': [1.0, 2.0]})):
            o.inputs = None
            for meth in (o.evaluate, o.eval):
                out = outcome(meth, inputs=inp)
                require(out[0] == 'err' and 'a2' in out[2], 'evaluate with '
                        'inputs {}: {}'.format(short(inp), out))
                require(o.outputs == keep, 'failed evaluation with inputs {} '
                        'changed the outputs'.format(short(inp)))
        names = ['n{}'.format(i) for i in range(9)]
        for n in range(1, 10):      # every missing name is reported
            o = run('cfg', NrwalConfig, {
                'equation_directory': d, 'x': ' + '.join(names[:n]),
                'y': ' * '.join(names[:n])})
            for have in range(n):
                o.inputs = None
                o.inputs = {k: 1.0 for k in names[:have]}
                out = outcome(o.evaluate)
                require(out[0] == 'err' and all(
                    repr(k) in out[2] for k in names[have:n]), '{} of {} '
                    'inputs: error {}'.format(have, n, out))
        return True
    if kind == 'values':
        # an input is supplied whatever its value; an entry (a group, too)
        # is never a required input
        val = {'nan': float('nan'), 'zero': 0, 'npzero': np.float64(0),
               'zarr': np.zeros(2), 'list': [], 'tuple': (),
               'false': False,
               'inf': float('inf')}[data['v']]
        o = run('cfg', NrwalConfig, {'equation_directory': d,
                                     'x': 'b + 2', 'y': 'np.abs(x) - b',
                                     'gg': 'f', 'k': 3})
        require(o.required_inputs == ['b'] and o.missing_inputs == ['b'],
                'required {}'.format(o.required_inputs))
        o.inputs = {'b': val}
        require(o.missing_inputs == [] and o.solvable, 'b = {} is missing'
                .format(val))
        if not isinstance(val, (list, tuple)):
            run('evaluate with b = {}'.format(val), o.evaluate)
        o = run('cfg', NrwalConfig, {'equation_directory': d, 'gg': 'f',
                                     'x': 'np.abs(gg) + np.abs(k) + v',
                                     'k': 3, 'p': 'p_not_an_entry * 2'})
        require(o.required_inputs == ['p_not_an_entry', 'v'],
                'required {}'.format(o.required_inputs))
        require(o.all_variables == ['gg', 'k', 'p_not_an_entry', 'v'],
                'all_variables {}'.format(o.all_variables))
        return True
    ent = dict((n, p) for n, p in data['entries'])
    cfg = {'equation_directory': d}
    if data['kc']:
        cfg['kc'] = 3
    for n, parts in data['entries']:
        cfg[n] = ' + '.join(parts)
    what = 'config {}'.format({k: v for k, v in cfg.items()
                               if k != 'equation_directory'})
    obj = run(what, NrwalConfig, cfg)
    allv, req = set(obj.global_variables), set()
    if data['kc']:
        require('kc' in allv, 'constant not a global variable')
    const = set(obj.global_variables)
    for n in ent:
        used, dv = needs(n, ent, data['kc'], ())
        allv |= used
        req |= {v for v in used if v not in const and v not in ent
                and v not in dv}
    require(obj.all_variables == sorted(allv), '{}: all_variables {} '
            'expected {}'.format(what, obj.all_variables, sorted(allv)))
    require(obj.required_inputs == sorted(req), '{}: required_inputs {} '
            'expected {}'.format(what, obj.required_inputs, sorted(req)))
    rng = rng_for('c12', data['s'])
    req = sorted(req)
    if len(req) <= 3:
        subsets = [list(c) for k in range(len(req) + 1)
                   for c in itertools.combinations(req, k)]
    else:
        subsets = [rng.sample(req, k) for k in range(len(req) + 1)]
        subsets += [[x for x in req if x != y] for y in req]
    for sub in subsets:
        obj.inputs = None
        obj.reset_output()
        extra = {'unused_input': 3.0} if rng.random() < .5 else {}
        obj.inputs = dict({v: 1.5 for v in sub}, **extra)
        miss = sorted(set(req) - set(sub))
        require(obj.missing_inputs == miss, '{} with {}: missing_inputs {} '
                'expected {}'.format(what, sub, obj.missing_inputs, miss))
        require(obj.solvable == (not miss), '{} with {}: solvable {}'
                .format(what, sub, obj.solvable))
        out = outcome(obj.evaluate)
        if miss:
            require(out[0] == 'err', '{} evaluated without {}'
                    .format(what, miss))
            require(any(m in out[2] for m in miss), '{}: the error does not '
                    'name {}: {}'.format(what, miss, out))
            require(obj.outputs == {}, '{}: outputs changed'.format(what))
        else:
            require(out[0] == 'ok', '{} with {}: {}'.format(what, sub, out))
            require(obj.solved, what + ': not solved')
    return True
