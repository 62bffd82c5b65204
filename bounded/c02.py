"""Forbidden fragments never become an equation and are never executed.  Each
fragment is tried in several surrounding texts and on every public route;
a CPython audit hook observes every text that is compiled."""
from bounded.base import *   # noqa

BOUND = '7 fragments x 12 surrounding texts x 24 routes; fragments that arise by combination of two texts'

COMPILED = []
_WATCH = [False]


def _hook(event, args):
    if _WATCH[0] and event == 'compile':
        src = args[0]
        if isinstance(src, bytes):
            src = src.decode('utf8', 'replace')
        COMPILED.append(src if isinstance(src, str) else '')


sys.addaudithook(_hook)

FORMS = ['{}', 'a + {}', '{}a + 2', 'a*{}b', '2 + np.exp({})', '{}(a) * 3',
         '(a) / ({} + 1)', 'x{}y', '3 - x.{}', "{}('1+1')", '({})', '{}.a']
ROUTES = ['eqn', 'eqn_name', 'replace', 'add', 'sub', 'mul', 'div', 'pow',
          'group', 'group_nested', 'group_yaml', 'group_json', 'group_add',
          'group_sibling', 'directory', 'directory_sub', 'directory_add',
          'config', 'config_math', 'config_paren', 'config_np',
          'config_ref', 'config_file', 'config_group_entry']
WORDS = ['evaluate', 'execute', 'a.evaluate()', 'execution', 'medieval',
         'retrieval', 'lambda_x', 'alambda', 'my_lambda', 'eval_a', 'exec2',
         'os.path', 'os.getcwd()', 'chaos.x', 'sys.path', 'a.sys.b',
         '__x__', 'a.__class__', 'import os', 'a import b', 'xeval',
         'np.evaluate(a)', 'evaluated + executed', 'EVALeval']
SPLITS = [('import', '+', 'x'), ('import', '*', '2'), ('a import', '-', 'b')]


def cases(tier, seed):
    for frag in ILLEGAL:
        for form in FORMS:
            for route in ROUTES:
                yield 'route', {'text': form.format(frag), 'route': route}
    for w in WORDS:
        if bad(w):
            for route in ROUTES:
                yield 'route', {'text': w, 'route': route}
    for n in (40, 400, 3000):                  # anywhere in a long text
        for form in ('{1}{0}', '{0} + {1}2', '{1}{0} + {1}3', '{1}\n{0}'):
            for route in ROUTES[:10]:
                frag = ILLEGAL[(n + len(route)) % len(ILLEGAL)]
                yield 'route', {'text': form.format(frag, 'a + ' * n),
                                'route': route}
    for frag in ILLEGAL:                       # comments, quotes, lines
        for form in ('a # {}', '# {}\na', "a + '{}'", 'a\n+ {}', '\t{}\t',
                     'a + 2;{}', '{}\\', '0{}', '1e3 + {}1'):
            for route in ROUTES:
                if route[:6] in ('eqn', 'replac', 'add', 'group', 'group_',
                                 'config', 'direct'):
                    yield 'route', {'text': form.format(frag),
                                    'route': route}
    for frag in ILLEGAL:                       # an interrupted fragment
        for i in range(1, len(frag)):
            for c in ('\t', '\n', ' ', '\\', '\r', '#', "'", '\x0b', '\xad',
                      '\u200b', '_', '(', ','):
                for route in ('eqn', 'replace', 'add', 'group', 'config'):
                    yield 'broken', {'text': 'a + ' + frag[:i] + c + frag[i:],
                                     'route': route}
        for text in (frag.upper(), frag.title(), frag[::-1],
                     frag.replace('e', '\uff45').replace('o', '\uff4f')):
            yield 'broken', {'text': text, 'route': 'eqn'}
    for a, op, b in SPLITS:
        yield 'split', {'a': a, 'op': op, 'b': b}
    for text in ['sibling', 'a + sibling * 2']:
        for sib in ['eval(1)', 'exec', 'x.__y']:
            yield 'inline', {'text': text, 'sib': sib}
    rng = rng_for('C02', tier, seed)
    for _ in range(1000 if tier == 'quick' else 5000):
        frag = rng.choice(ILLEGAL)
        pre = ''.join(rng.choice('ab1 +*-(_.,/') for _ in range(rng.randrange(6)))
        post = ''.join(rng.choice('ab1 +*-)_.,/') for _ in range(rng.randrange(6)))
        yield 'route', {'text': pre + frag + post,
                        'route': rng.choice(ROUTES[:9])}
    for text in ['evil', 'exe', 'importx', 'osx + sysx', 'a__b', 'x._y',
                 'evaporation']:
        yield 'legal', {'text': text}


def attempt(route, text, d):
    """Create through the route and evaluate whatever came out."""
    if route == 'eqn':
        return [Equation(text)]
    if route == 'eqn_name':
        return [Equation(text, name='nm', default_variables={'a': 1.0})]
    if route == 'replace':
        return [Equation('a + 1', name='nm').replace_equation(text)]
    if route in ('add', 'sub', 'mul', 'div', 'pow'):
        e = Equation('a + 1')
        return [{'add': lambda: e + text, 'sub': lambda: e - text,
                 'mul': lambda: e * text, 'div': lambda: e / text,
                 'pow': lambda: e ** text}[route]()]
    if route == 'group':
        return EquationGroup({'z1': 'a + 1', 'k1': text}).all_equations
    if route == 'group_nested':
        return EquationGroup({'z1': {'z2': {'k1': text}}}).all_equations
    if route in ('group_yaml', 'group_json'):
        p = os.path.join(d, 'g.' + route[6:])
        write_tree(d, {'g.' + route[6:]: {'k1': text, 'z1': 'a + 1'}})
        return EquationGroup(p).all_equations
    if route == 'group_add':
        return (EquationGroup({'z1': 'a + 1'}) + {'k1': text}).all_equations
    if route == 'group_sibling':
        return EquationGroup({'z1': 'k1 + 1', 'k1': text}).all_equations
    if route == 'directory':
        write_tree(d, {'g.yaml': {'k1': text}})
        return EquationDirectory(d).all_equations
    if route == 'directory_sub':
        write_tree(d, {'s/': {'g.yaml': {'q': {'k1': text}}}})
        return EquationDirectory(d).all_equations
    if route == 'directory_add':
        write_tree(d, {'d1/': {'g.yaml': {'k1': 'a'}},
                       'd2/': {'g.yaml': {'k1': text}}})
        return (EquationDirectory(os.path.join(d, 'd1'))
                + os.path.join(d, 'd2')).all_equations
    write_tree(d, {'e/': {'g.yaml': {'q': 'a + 1', 'q2': 'b'}}})
    cfg = {'equation_directory': os.path.join(d, 'e'), 'z1': 'g::q'}
    if route == 'config':
        cfg['k1'] = text
    elif route == 'config_math':
        cfg['k1'] = 'a - ' + text
    elif route == 'config_paren':
        cfg['k1'] = '(a + {}) * 2'.format(text)
    elif route == 'config_np':
        cfg['k1'] = 'np.abs({}) * 2'.format(text)
    elif route == 'config_ref':
        cfg['z2'] = 'k1 * 2'
        cfg['k1'] = text
    elif route == 'config_group_entry':
        cfg['z2'] = 'g::q + ' + text
    elif route == 'config_file':
        cfg['k1'] = text
        write_tree(d, {'c.yaml': cfg})
        cfg = os.path.join(d, 'c.yaml')
    obj = NrwalConfig(cfg, inputs={'a': 1.0, 'b': 2.0})
    out = [v for v in obj.values() if isinstance(v, Equation)]
    outcome(obj.evaluate)
    return out


def watch(fun):
    COMPILED.clear()
    _WATCH[0] = True
    try:
        out = outcome(fun)
        if out[0] == 'ok':
            for e in out[1]:
                if isinstance(e, Equation):
                    outcome(e.evaluate, a=1.0, b=2.0, x=3.0)
    finally:
        _WATCH[0] = False
    return out


def bad(s):
    return any(f in s for f in ILLEGAL)


def check(kind, data):
    if kind == 'legal':
        run('legal text {!r}'.format(data['text']), Equation, data['text'])
        return True
    with scratch() as d:
        if kind == 'route':
            text = data['text']
            out = watch(lambda: attempt(data['route'], text, d))
            what = '{!r} by route {}'.format(text, data['route'])
            if data['route'].startswith('config'):
                # operands are stripped: 'a + import ' has no such equation
                if out[0] == 'ok':
                    texts = [e.full for e in out[1]]
                    require(not any(f in text for f in ILLEGAL[1:])
                            and not any(bad(t) for t in texts),
                            what + ' was accepted: {}'.format(short(texts)))
            else:
                require(out[0] == 'err', what + ' was accepted: {}'
                        .format(short(out[1])))
        elif kind == 'broken':
            # whether accepted or not, no text has a forbidden fragment
            out = watch(lambda: attempt(data['route'], data['text'], d))
            what = '{!r} by route {}'.format(data['text'], data['route'])
            require(bad(data['text']) is False or out[0] == 'err'
                    or data['route'] == 'config', what + ' was accepted')
            if out[0] == 'ok':
                for e in out[1]:
                    require(not bad(e.full), what + ' gives an equation with '
                            'text {!r}'.format(e.full))
        elif kind == 'split':
            out = watch(lambda: [{'+': lambda a, b: a + b,
                                  '-': lambda a, b: a - b,
                                  '*': lambda a, b: a * b}[data['op']](
                                      Equation(data['a']), data['b'])])
            what = 'combination {}'.format(data)
            if out[0] == 'ok':
                require(not bad(out[1][0].full), what + ' created {!r}'
                        .format(out[1][0].full))
        else:
            out = watch(lambda: EquationGroup(
                {'k': data['text'], 'sibling': data['sib']}).all_equations)
            what = 'group {}'.format(data)
            require(out[0] == 'err', what + ' was accepted')
    ran = [c for c in COMPILED if bad(c)]
    # config values that are legal yaml may be compiled by python itself
    require(not ran, what + ': executed text {!r}'.format(ran[:1]))
    return True
