"""Expansion of sibling names in groups.  All reference graphs on 3 equations
and random graphs on up to 6, with overlapping names, several definition
orders and loading routes; acyclic groups evaluate as the composed
expressions, cyclic ones are refused."""
from bounded.base import *   # noqa

BOUND = 'all 512 reference graphs on 3 names (2 orders each), random graphs on at most 6 names'
NAMESETS = [['a', 'b', 'c'], ['x', 'x2', 'x_x'], ['cost', 'cost_a', 'a_cost'],
            ['e1', 'e', 'e11']]
POOL = ['a', 'ab', 'a_b', 'b', 'b2', 'cost', 'cost_x', 'x_cost', 'e', 'exp',
        'p', 'np_x', 'E1']


def cases(tier, seed):
    rng = rng_for('C08', tier, seed)
    for bits in range(512):
        m = [[(bits >> (3 * i + j)) & 1 for j in range(3)] for i in range(3)]
        for rep in range(2):
            order = [0, 1, 2]
            rng.shuffle(order)
            yield 'graph', {'names': rng.choice(NAMESETS), 'm': m,
                            'order': order, 's': rng.randrange(10 ** 6),
                            'route': rng.choice(['dict', 'yaml', 'nested',
                                                 'dir'])}
    n = 1500 if tier == 'quick' else 8000
    for _ in range(n):
        k = rng.randrange(2, 9)
        names = rng.sample(POOL, k)
        m = [[int(j < i and rng.random() < .5) for j in range(k)]
             for i in range(k)]
        if rng.random() < .2:
            i, j = rng.randrange(k), rng.randrange(k)
            m[i][j] = 1
        order = list(range(k))
        rng.shuffle(order)
        yield 'graph', {'names': names, 'm': m, 'order': order,
                        's': rng.randrange(10 ** 6),
                        'const': rng.choice([0, .3, .6]),
                        'route': rng.choice(['dict', 'yaml', 'nested',
                                             'dir'])}
    # chains in every order, with unrelated and constant equations between
    for k in (3, 4):
        for order in itertools.permutations(range(k + 2)):
            m = [[int(j == i - 1 and 0 < i < k) for j in range(k + 2)]
                 for i in range(k + 2)]
            m[k + 1][k] = 1
            yield 'graph', {'names': POOL[:k + 2], 'm': m,
                            'order': list(order), 's': rng.randrange(10 ** 6),
                            'const': .5, 'route': 'dict'}
    yield 'scopes', {}
    yield 'names', {}
    yield 'dotted', {}
    yield 'precedence', {}
    yield 'many', {}


def is_numeral(t):
    try:
        float(t)
        return True
    except ValueError:
        return False


EXTRA = ['v', 'w', 'vv']


def make_tree(i, m, names, rng, const=False):
    refs = [['v', names[j]] for j in range(len(names)) if m[i][j]]
    refs += [['v', n] for n in rng.sample(EXTRA, rng.randrange(1, 3))]
    if const:       # an equation of siblings and numbers only
        refs = [x for x in refs if x[1] not in EXTRA]
        refs += [['n', rng.choice(['4', '2.5', '0.5'])]]
        t = refs[0]
        for r in refs[1:]:
            t = ['b', rng.choice(['+', '*', '-']), t, r]
        return t
    if refs and rng.random() < .3:
        refs.append(rng.choice(refs))
    # a decoy: a name that contains a sibling's name but is an input
    if rng.random() < .5:
        refs.append(['v', rng.choice(names) + rng.choice(['_q', 'Z', '9q'])])
    rng.shuffle(refs)
    t = refs[0]
    for r in refs[1:]:
        op = rng.choice(['+', '-', '*', '-'])
        t = ['b', op, t, r] if rng.random() < .6 else ['b', op, r, t]
    if rng.random() < .3:
        t = ['b', '*', ['n', rng.choice(['2', '1e-3', '1E-1', '0.5'])], t]
    if rng.random() < .2:
        t = ['c', 'np.square', [t]]
    return t


def cyclic(m):
    n = len(m)
    reach = [row[:] for row in m]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                reach[i][j] |= reach[i][k] & reach[k][j]
    return any(reach[i][i] for i in range(n))


def load(content, route):
    if route == 'dict':
        return EquationGroup(content)
    if route == 'nested':
        return EquationGroup({'out': content, 'other': 'v + 1'})['out']
    with scratch() as d:
        if route == 'yaml':
            write_tree(d, {'g.yaml': content})
            return EquationGroup(os.path.join(d, 'g.yaml'))
        write_tree(d, {'s/': {'g.yaml': content}})
        return EquationDirectory(d)['s::g']


def check(kind, data):
    if kind == 'scopes':
        # names of an enclosing or nested group are not expanded
        g = run('load', EquationGroup,
                {'a': 'v + 1', 'sub': {'b': 'a * 2'}, 'c': 'b + a'})
        require(g['sub::b'].variables == ['a'], 'outer name expanded')
        require(g['c'].variables == ['b', 'v'], 'c: {}'
                .format(g['c'].variables))
        return True
    if kind == 'names':
        # a group named like one of its equations; letters of any alphabet
        g = run('load', EquationGroup, {
            'k': {'k': 'v + 1', 'm': 'k * 2', 'k2': {'k2': 'v', 'k': 'k2 - 1'}},
            'm': 'q * 3', 'q': 'v * 5'})
        for p, ref in (('k::m', 6.0), ('k::k2::k', 1.0), ('m', 30.0)):
            require(g[p].variables == ['v'] and same_value(
                run('eval', g[p].evaluate, v=2.0), ref), '{}: {!r}'.format(
                    p, g[p].full))
        with scratch() as d:
            write_tree(d, {'k.yaml': {'k': 'v + 1', 'm': 'k * 2'}})
            o = run('load', EquationDirectory, d)
            require(o['k::m'].variables == ['v'], 'k.yaml: {!r}'.format(
                o['k::m'].full))
        for a, b in (('a', 'a\u00f1o'), ('a', '\u00e1a'), ('\u03b1', '\u03b12'),
                     ('x', 'x\u0435'), ('\u00e9', 'b\u00e9')):
            g = run('load', EquationGroup, {
                a: 'v + 1', 'y': '{0} * 2 + {1}'.format(a, b),
                'z': '{1} - {0}'.format(a, b)})
            env = {'v': 2.0, b: 10.0}
            require(same_value(run('y', g['y'].evaluate, **env), 16.0)
                    and same_value(run('z', g['z'].evaluate, **env), 7.0),
                    'names {} and {}: {!r}'.format(a, b, g['y'].full))
        return True
    if kind == 'dotted':
        # text that merely contains the name is left alone
        g = run('load', EquationGroup,
                {'exp': 'v + 1', 'y': 'np.exp(w) * exp', 'e': 'w * 3',
                 'z': '1e-3 * e + 2.5E2'})
        require(same_value(run('eval', g['y'].evaluate, v=1., w=0.), 2.0),
                'np.exp was rewritten')
        require(same_value(run('eval', g['z'].evaluate, w=1.), 250.003),
                'a number was rewritten: {}'.format(g['z'].full))
        return True
    if kind == 'precedence':
        # an inlined sibling binds as a parenthesised operand
        sibs = {'m': -2, 'n': -1.5, 's': 'v + w', 'd': 'v / w', 'g': '-v',
                'p': 'v ** w', 'e': 1e-05, 'q': '-3', 't': 'v - w'}
        forms = ['{0} ** 2', '2 ** {0}', '-{0}', '{0} ** {1}', '{0} - {1}',
                 'u - {0}', '{0} / {1}', 'u / {0}', '{0} * {1}',
                 '{0} ** 2 ** {1}', 'u - {0} - {1}', 'u / {0} / {1}',
                 '{0} - -{1}', '{0}*-{1}', 'np.square({0})', '({0})**2',
                 '{0} > {1}', 'u*{0}-{1}*u', '{0}**-{1}']
        env = {'v': 1.75, 'w': 2.25, 'u': 3.5}
        for a, b in itertools.permutations(sibs, 2):
            for form in forms:
                text = form.format(a, b)
                g = run('load', EquationGroup, dict(sibs, y=text))
                ref = eval(text, {'np': np}, dict(env, **{
                    k: (eval(x, dict(env)) if isinstance(x, str) else x)
                    for k, x in sibs.items()}))
                if isinstance(ref, complex) or ref != ref:
                    continue
                got = run('evaluate', g['y'].evaluate, **{
                    k: env[k] for k in g['y'].variables})
                require(abs(got - ref) <= 1e-6 * abs(ref), 'y = {!r} with {}: {!r} '
                        'gives {} instead of {}'.format(
                            text, sibs, g['y'].full, got, ref))
        return True
    if kind == 'many':
        # every occurrence, and long chains
        for n in (1, 2, 5, 9, 17, 40):
            g = run('load', EquationGroup, {
                'y': ' + '.join(['a'] * n) + ' - b * b', 'a': 'v * 2',
                'b': 'a + w'})
            require(g['y'].variables == ['v', 'w'], '{} occurrences: {}'
                    .format(n, g['y'].variables))
            require(same_value(g['y'].evaluate(v=2.0, w=1.0),
                               4.0 * n - 25.0), '{} occurrences'.format(n))
            for order in (1, -1):
                names = ['a{}'.format(i) for i in range(n + 1)]
                c = [('a0', 'v')] + [(names[i + 1], names[i] + ' + 1')
                                     for i in range(n)]
                g = run('load', EquationGroup, dict(c[::order]))
                require(same_value(g[names[-1]].evaluate(v=2.0), 2.0 + n),
                        'chain of {}'.format(n))
                c[0] = ('a0', names[-1] + ' * 2')
                expect_error('cycle of {}'.format(n + 1), EquationGroup,
                             dict(c[::order]))
        return True
    rng = rng_for('c08', data['s'])
    names, m = data['names'], data['m']
    trees = [make_tree(i, m, names, rng, rng.random() < data.get('const', 0))
             for i in range(len(names))]
    content = {names[i]: render(trees[i]) for i in data['order']}
    for n, t in list(content.items()):
        if is_numeral(t) and rng.random() < .5:
            content[n] = float(t)       # a number in the file
    # the decoys must not be siblings
    decoys = set().union(*[tree_vars(t) for t in trees]) - set(names)
    uses = [[int(names[j] in tree_vars(trees[i]))
             for j in range(len(names))] for i in range(len(names))]
    # references through names used as decoys
    what = 'group {} ({})'.format(json.dumps(content), data['route'])
    if cyclic(uses):
        expect_error(what + ' has a cycle', load, content, data['route'])
        return True
    g = run(what, load, dict(content), data['route'])
    env = env_values(decoys, rng)
    tr = dict(zip(names, trees))

    def look(n):
        return env[n] if n in env else ref_value(tr[n], look, mag)
    nt = False
    for n in names:
        eqn = g[n]
        need = set()
        todo = [n]
        while todo:
            for v in tree_vars(tr[todo.pop()]):
                if v in tr:
                    todo.append(v)
                else:
                    need.add(v)
        require(sorted(need) == list(eqn.variables),
                '{}: {} has variables {} instead of {}'
                .format(what, n, eqn.variables, sorted(need)))
        mag = [1.0]
        try:
            ref = ref_value(tr[n], look, mag)
        except Skip:
            continue
        got = run('evaluate {} of {}'.format(n, what), eqn.evaluate,
                  **{k: env[k] for k in need})
        require(same_value(got, ref, 1e-8 * mag[0]),
                '{} with {}: {} = {} instead of {}'
                .format(what, env, n, short(got), ref))
        nt = True
    return nt
