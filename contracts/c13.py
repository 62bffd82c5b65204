"""C13: malformed and circular configurations are refused on creation."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (SS, TRUE, arg, directory, dom, flat_events,
                              instance, is_var, key, outcome, prove_exists,
                              same_dict, setup, sym_dict, val)
from contracts.c09 import ENTRY, opaque_entry
from contracts.c17 import exists, text

FUNCTIONS = ['NrwalConfig._check_circ_ref', 'NrwalConfig.__init__ (checks)',
             'NrwalConfig._parse_config (refusals)',
             'NrwalConfig._load_config (refusals)',
             'NrwalConfig._parse_equation (brackets)',
             'NrwalConfig._parse_expression (dispatch)']
ASSUMED = ['Equation.parse_variables gives the variables of a text (C18, '
           'bounded)',
           '_check_circ_ref at its recursive calls: an error iff the text '
           'leads back to the name (the same contract, verified here: '
           'induction over the depth of the recursion)',
           '_parse_expression succeeds or raises']
ASSUMPTIONS = ['a chain of references that never ends makes the recursion '
               'fail with an error (RecursionError)']
BOUNDED_FOR = ['a configuration without such defects is accepted',
               'whole configurations end to end']
B = z3.BoolSort()
# the text leads back to the name (least relation with the rule `step`)
back = F('leads_back', V, SS, B)


def step(o, t, d, v, w):
    """The text t mentions o, or mentions an entry w that leads back."""
    return z3.Or(is_var(t, o), z3.And(is_var(t, w), d(w),
                                      back(o, text(v(w)))))


def circ(I):
    ctx = I.ctx
    setup(I)
    c, cd, cv = sym_dict(I, 'config', lambda k, v: is_str(k))
    o = ctx.const('start', V)
    ctx.assume(is_str(o))
    e = ctx.const('expression', V)
    ctx.assume(z3.Not(is_obj(e)))
    f = I.p.method('NrwalConfig', '_check_circ_ref')
    cls = I.p.cls('NrwalConfig')

    def rec(I, args, kwargs):
        on = I.tv(arg(args, kwargs, 1, 'orig_name'))
        ex = I.tv(arg(args, kwargs, 2, 'expression'))
        cf = arg(args, kwargs, 3, 'config')
        I.ctx.prove('the search goes on for the same name', on == o)
        I.ctx.prove('the search goes on in the same configuration',
                    z3.BoolVal(isinstance(cf, Ref) and cf.oid == c.oid))
        if I.ctx.branch(back(on, text(ex))):
            raise PyRaise(RuntimeError, ())
        return None
    args = [cls, from_v(o), from_v(e), c]
    if ctx.choose('nested'):
        m = ctx.const('current', V)
        ctx.assume(is_str(m))
        args += [from_v(m), S('str', ctx.const('msg', SS))]
    ctx.cover('any call')
    # one call of the body, recursive calls by contract
    I.contracts['NrwalConfig._check_circ_ref'] = rec
    kind, r = outcome(I, lambda: I.run_body(f, args, {}))
    t = text(e)
    w = key(I, 'mentioned')
    same_dict(I, ctx, 'the configuration is unchanged', c, cd, cv, w)
    if kind == 'ok':
        ctx.prove('accepted only if the text does not lead back',
                  z3.Not(step(o, t, cd, cv, w)))
    else:
        x = z3.Const('some', V)
        prove_exists(I, ctx, 'refused only if the text leads back', [x],
                     step(o, t, cd, cv, x))


FLAG_KEYS = ('use_nearest_year', 'use_nearest_power', 'interp_extrap_year',
             'interp_extrap_power')


def init(I):
    """NrwalConfig(...): every entry is checked against all entries."""
    ctx = I.ctx
    box = {}

    def parse_config(I, args, kwargs):
        c = arg(args, kwargs, 1, 'config')
        box['parsed'] = I.state(c)
        if I.ctx.choose('parse_fails'):
            raise unknown_raise()
        return sym_dict(I, 'parsed', lambda k, v: z3.And(
            is_str(k), has_cls(v, *ENTRY)))[0]

    def check(I, args, kwargs):
        name = I.tv(arg(args, kwargs, 1, 'orig_name'))
        e = I.tv(arg(args, kwargs, 2, 'expression'))
        c = arg(args, kwargs, 3, 'config')
        if not isinstance(c, Ref):
            raise Unsupported('configuration given to the check')
        w = z3.Const('any_entry', V)
        I.ctx.touch(w)
        I.ctx.prove('the check sees every entry', z3.And(
            dom(I, c, w) == rest(w),
            z3.Implies(rest(w), val(I, c, w) == lv(w))))
        cur = arg(args, kwargs, 4, 'current_name')
        if cur is not None:
            raise Unsupported('current_name')
        I.ctx.events.append(('check', {'name': name, 'expr': e}))
        if I.ctx.branch(back(name, text(e))):
            raise PyRaise(RuntimeError, ())
        return None

    def evaluate(I, args, kwargs):
        return from_v(I.ctx.fresh(V, 'value'))

    def load_config(I, args, kwargs):
        if I.ctx.choose('load_fails'):
            raise unknown_raise()
        return (loaded, from_v(I.ctx.fresh(V, 'eqn_dir')))

    def new_directory(I, cls, args, kwargs):
        return directory(I, 'library')[0]

    def constants(I, args, kwargs):
        return sym_dict(I, 'constants')[0]
    setup(I, {'NrwalConfig._parse_config': parse_config,
              'NrwalConfig._check_circ_ref': check,
              'NrwalConfig._load_config': load_config,
              'NrwalConfig._parse_global_variables': constants,
              'Equation.eval': evaluate, 'Equation.evaluate': evaluate,
              'EquationDirectory.__new__': new_directory})
    loaded, ld, lv = sym_dict(I, 'loaded', lambda k, v: is_str(k))
    fl = [StrV(z3.StringVal(x)) for x in FLAG_KEYS]

    def rest(k):
        return z3.And(ld(k), *[k != x for x in fl])
    k = key(I, 'entry')
    given = from_v(ctx.const('given', V))
    kind, r = outcome(I, lambda: I.call(I.p.cls('NrwalConfig'), [given], {}))
    if kind == 'raise':
        return
    ctx.cover('accepted')
    ctx.prove('no accepted entry leads back to itself', z3.Implies(
        rest(k), z3.Not(back(k, text(lv(k))))))
    st = box.get('parsed')
    ctx.prove('what was checked is what is parsed', z3.BoolVal(False)
              if st is None else z3.And(
                  st.dom(k, I.tv) == rest(k),
                  z3.Implies(rest(k), st.val(k, I.tv) == lv(k))))


def parse_config(I):
    ctx = I.ctx
    ok = F('parses', V, B)

    def parse(I, args, kwargs):
        e = I.tv(arg(args, kwargs, 1, 'expression'))
        if not I.ctx.branch(ok(e)):
            raise unknown_raise()
        return opaque_entry(I, 'parsed', *ENTRY)
    setup(I, {'NrwalConfig._parse_expression': parse})
    c, cd, cv = sym_dict(I, 'config')
    g = sym_dict(I, 'gvars')[0]
    d = directory(I, 'library')[0]
    f = I.p.method('NrwalConfig', '_parse_config')
    ctx.cover('any configuration')
    kind, r = outcome(I, lambda: I.call_func(
        f, [I.p.cls('NrwalConfig'), c, d, g], {}))
    k = key(I)

    def bad(k):
        v = cv(k)
        return z3.And(cd(k), z3.Or(
            is_int(k), is_flt(k), is_numeral(text(k)),
            z3.Not(z3.Or(is_int(v), is_flt(v), is_str(v), is_bool(v))),
            z3.Not(ok(v))))
    if kind == 'raise':
        x = z3.Const('some', V)
        prove_exists(I, ctx, 'refused only for a bad name, a bad kind of '
                     'entry or a bad expression', [x], bad(x))
        return
    ctx.prove('a number as a name is refused', z3.Implies(
        cd(k), z3.Not(z3.Or(is_int(k), is_flt(k), is_numeral(text(k))))))
    ctx.prove('a list, mapping or other non-expression is refused',
              z3.Implies(cd(k), z3.Not(z3.Or(is_obj(cv(k)),
                                             is_none(cv(k))))))
    ctx.prove('an expression that does not parse is refused',
              z3.Implies(cd(k), ok(cv(k))))
    ctx.prove('one entry for each name', dom(I, r, k) == cd(k))


def not_a_config(I):
    """Neither a mapping nor an existing json or yaml file."""
    ctx = I.ctx
    ctx.light()
    setup(I)
    x = ctx.const('given', V)
    missing = z3.And(is_str(x), z3.Not(exists(vs(x))))
    wrong = z3.And(is_str(x), *[z3.Not(z3.SuffixOf(z3.StringVal(e), vs(x)))
                                for e in ('.json', '.yml', '.yaml')])
    other = z3.And(z3.Not(is_str(x)), z3.Not(has_cls(x, 'dict')))
    which = 0 if ctx.choose('missing') else (1 if ctx.choose('wrong') else 2)
    ctx.assume((missing, wrong, other)[which])
    ctx.cover('case %d' % which)
    f = I.p.method('NrwalConfig', '_load_config')
    kind, r = outcome(I, lambda: I.call_func(
        f, [I.p.cls('NrwalConfig'), from_v(x)], {}))
    ctx.prove(('a missing file is refused', 'another kind of file is refused',
               'something that is no mapping is refused')[which],
              z3.BoolVal(kind == 'raise'))


def not_a_mapping(I):
    """A file that holds something else."""
    ctx = I.ctx
    ctx.light()
    setup(I)
    path = ctx.const('path', SS)
    for n in ('file_json', 'file_yaml'):
        ctx.assume(z3.Not(has_cls(F(n, SS, V)(path), 'dict')))
    ctx.cover('a file')
    f = I.p.method('NrwalConfig', '_load_config')
    kind, r = outcome(I, lambda: I.call_func(
        f, [I.p.cls('NrwalConfig'), S('str', path)], {}))
    ctx.prove('a file that holds no mapping is refused',
              z3.BoolVal(kind == 'raise'))


OPERATORS = ('*', '/', '+', '-', '^')


def brackets(I):
    ctx = I.ctx
    ctx.light()

    def stop(I, args, kwargs):
        raise Unsupported('parsing of an expression with brackets goes on')
    setup(I, {'find_np_pd_methods': stop, 'find_parens': stop,
              'NrwalConfig._parse_expression_part': stop})
    c = sym_dict(I, 'config', lambda k, v: is_str(k))[0]
    g = sym_dict(I, 'gvars', lambda k, v: is_str(k))[0]
    d = directory(I, 'library')[0]
    t = ctx.const('expression', SS)
    b = ('[', ']', '{', '}')
    ctx.assume(z3.Or(*[z3.Contains(t, z3.StringVal(x)) for x in b]))
    ctx.assume(z3.Or(*[z3.Contains(t, z3.StringVal(x)) for x in OPERATORS]))
    ctx.assume(z3.Not(is_numeral(t)))
    ctx.cover('brackets in an arithmetic expression')
    kind, r = outcome(I, lambda: I.call_func(
        I.p.method('NrwalConfig', '_parse_expression'),
        [I.p.cls('NrwalConfig'), S('str', t), c, d, g, None], {}))
    ctx.prove('an arithmetic expression with square or curly brackets is '
              'refused', z3.BoolVal(kind == 'raise'))


HARNESSES = [('circular references', circ), ('new config', init),
             ('_parse_config', parse_config), ('no config', not_a_config),
             ('no mapping', not_a_mapping), ('brackets', brackets)]
