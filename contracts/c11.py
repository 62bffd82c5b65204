"""C11: a config evaluates every equation, consistently and afresh."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (SS, TRUE, arg, attr, config, directory, dom,
                              is_var, key,
                              numeric_input, outcome, same_dict, setup, state_of,
                              sym_dict, val)
from contracts.c14 import taken
from pyvc.loops import Entries

FUNCTIONS = ['NrwalConfig.evaluate', 'NrwalConfig.eval',
             'NrwalConfig.to_be_solved', 'NrwalConfig.solved',
             'NrwalConfig.reset_output',
             'NrwalConfig.__init__ (constants)']
ASSUMED = ['assignment to NrwalConfig.inputs (verified by C14)',
           'Equation.evaluate(**kwargs) is a function of the equation and of '
           'what the names in its text are bound to (C01); it may raise',
           'Equation.parse_variables (C18, bounded)']
ASSUMPTIONS = [
    'inputs do not name entries (as the statement says)',
    'the equation parsed for a number has that value and no variables (C05)',
    'no entry names itself (C13)',
    'partial correctness: that the rounds end, and that evaluation raises '
    'no error, is not proved (bounded)']
BOUNDED_FOR = ['values of whole configurations over histories of inputs; '
               'that evaluation succeeds; long chains of references']

ideal = F('ideal_value', V, V)      # value of an entry's equation


def set_inputs(I, args, kwargs):
    """config.inputs, and config.inputs = <dictionary> (verified by C14)"""
    ctx = I.ctx
    obj = args[0]
    if len(args) == 1:
        return attr(I, obj, '_inputs')
    if args[1] is None:
        I.state(obj).attrs['_inputs'] = I.new_dict()
        return None
    new = state_of(I, args[1])
    if ctx.choose('inputs_refused'):
        raise PyRaise(TypeError, ())
    old = I.state(attr(I, obj, '_inputs'))
    nd, nv = (lambda k: new.dom(k, I.tv)), (lambda k: new.val(k, I.tv))
    od, ov = (lambda k: old.dom(k, I.tv)), (lambda k: old.val(k, I.tv))
    q = z3.Const('q!{}'.format(next(ctx.counter)), V)
    ctx.forall([q], z3.Implies(nd(q), z3.And(is_str(q),
                                             numeric_input(nv(q)))))
    I.state(obj).attrs['_inputs'] = I.sym_dict(
        lambda k: z3.Or(od(k), nd(k)),
        lambda k: z3.If(nd(k), taken(nv(k)), ov(k)), None)
    return None


def evaluation(how):
    def h(I):
        ctx = I.ctx
        ctx.light(300)
        setup(I)
        obj, (cd, cv), (gd, gv), (od, ov), o = config(I)
        a, b = z3.Const('na', V), z3.Const('nb', V)
        if how == 'given':
            new, ad, av = sym_dict(I, 'given', lambda k, v: z3.And(
                is_str(k), numeric_input(v)))
            idm = lambda k: z3.Or(od(k), ad(k))
            iv = lambda k: z3.If(ad(k), taken(av(k)), ov(k))
        else:
            idm, iv, new = od, ov, None
        ctx.forall([a], z3.Not(z3.And(idm(a), cd(a))))
        ctx.forall([a], z3.Implies(gd(a), z3.And(
            cd(a), z3.Not(is_obj(gv(a))), z3.Implies(
                has_cls(cv(a), 'Equation'), gv(a) == ideal(cv(a))))))
        ctx.forall([a, b], z3.Implies(
            z3.And(gd(a), has_cls(cv(a), 'Equation')),
            z3.Not(is_var(eqn_text(cv(a)), b))))
        ctx.forall([a], z3.Implies(cd(a), z3.Not(is_var(
            eqn_text(cv(a)), a))))

        def equation(k):
            return z3.And(cd(k), has_cls(cv(k), 'Equation'))

        def intended(y):
            """(bound, value) the statement gives a name"""
            return (z3.Or(idm(y), equation(y), gd(y)),
                    z3.If(idm(y), iv(y), z3.If(equation(y), ideal(cv(y)),
                                               gv(y))))

        def evaluate(I2, args, kwargs):
            """v.evaluate(**kwargs)"""
            c = I2.ctx
            v = I2.tv(args[0])
            star = kwargs.get('**')
            if star is None or len(kwargs) != 1 or len(args) != 1:
                raise Unsupported('call of evaluate')
            if c.choose('evaluation_fails'):
                raise unknown_raise()
            st = I2.state(star)
            w = c.fresh(V, 'name')
            c.touch(w)
            r = c.fresh(V, 'value')
            c.define(z3.Or(is_flt(r), is_int(r), is_bool(r),
                           has_cls(r, 'ndarray', 'npnum')))
            bound, value = intended(w)
            got = st.dom(w, I2.tv)
            c.define(z3.Or(r == ideal(v), z3.And(
                is_var(eqn_text(v), w), z3.Or(got != bound, z3.And(
                    got, st.val(w, I2.tv) != value)))))
            return from_v(r)
        I.contracts['Equation.evaluate'] = evaluate
        I.contracts['NrwalConfig.inputs'] = set_inputs
        Entries('every value so far is the value of its entry',
                lambda I2: attr(I2, obj, '_outputs'),
                lambda k, v: z3.And(equation(k), v == ideal(cv(k)))
                ).install(I)
        ctx.cover('a configuration')
        f = I.p.method('NrwalConfig', 'eval' if how == 'eval' else 'evaluate')
        kind, r = outcome(I, lambda: I.call_func(
            f, [obj] + ([new] if new is not None else []), {}))
        if kind == 'raise':
            return
        if not isinstance(r, Ref):
            raise Unsupported('result of evaluate')
        ctx.cover('evaluated')
        k = key(I, 'entry')
        dk, vk = dom(I, r, k), val(I, r, k)
        ctx.prove('one value for every equation that is not constant',
                  z3.Implies(z3.And(equation(k), z3.Or(
                      z3.Not(gd(k)), is_var(eqn_text(cv(k)),
                                            key(I, 'a variable')))), dk))
        ctx.prove('no value for anything but an equation',
                  z3.Implies(dk, equation(k)))
        ctx.prove('each value is computed from the current inputs, the '
                  'constants and the other entries',
                  z3.Implies(dk, vk == ideal(cv(k))))
        ctx.prove('the outputs are what is returned', z3.BoolVal(
            attr(I, obj, '_outputs').oid == r.oid))
        same_dict(I, ctx, 'the entries are unchanged',
                  attr(I, obj, '_config'), cd, cv, k)
        same_dict(I, ctx, 'the constants are unchanged',
                  attr(I, obj, '_global_variables'), gd, gv, k)
        same_dict(I, ctx, 'the inputs are those given and those before',
                  attr(I, obj, '_inputs'), idm, iv, k)
    return h


FLAG_KEYS = ('use_nearest_year', 'use_nearest_power', 'interp_extrap_year',
             'interp_extrap_power')


def constants(I):
    """NrwalConfig(...): what evaluation assumes of the constants."""
    ctx = I.ctx
    num = F('is_number_entry', V, z3.BoolSort())
    value = F('number_of_entry', V, z3.RealSort())
    loaded, ld, lv = sym_dict(I, 'loaded', lambda k, v: is_str(k))
    parsed, pd, pv = sym_dict(I, 'parsed', lambda k, v: z3.And(
        is_str(k), has_cls(v, 'Equation', 'EquationGroup',
                           'EquationDirectory')))
    fl = [StrV(z3.StringVal(x)) for x in FLAG_KEYS]

    def rest(k):
        return z3.And(ld(k), *[k != x for x in fl])

    def parse_config(I, args, kwargs):
        if I.ctx.choose('parse_fails'):
            raise unknown_raise()
        return parsed

    def load_config(I, args, kwargs):
        if I.ctx.choose('load_fails'):
            raise unknown_raise()
        return (loaded, from_v(I.ctx.fresh(V, 'eqn_dir')))

    def numbers(I, args, kwargs):
        """verified by C09"""
        st = state_of(I, arg(args, kwargs, 0, 'config'))
        return I.sym_dict(lambda k: z3.And(st.dom(k, I.tv),
                                           num(st.val(k, I.tv))),
                          lambda k: FltV(value(st.val(k, I.tv))), None)

    def evaluate(I, args, kwargs):
        """no value is supplied: the value, unless the text has a variable"""
        c = I.ctx
        if kwargs or len(args) != 1:
            raise Unsupported('values supplied to a constant')
        t = I.tv(args[0])
        if c.choose('evaluation_fails'):
            raise unknown_raise()
        r, w = c.fresh(V, 'value'), c.fresh(V, 'name')
        c.define(z3.Or(r == ideal(t), is_var(eqn_text(t), w)))
        c.touch(w)
        return from_v(r)
    setup(I, {'NrwalConfig._parse_config': parse_config,
              'NrwalConfig._check_circ_ref': lambda I, a, k: None,
              'NrwalConfig._load_config': load_config,
              'NrwalConfig._parse_global_variables': numbers,
              'Equation.eval': evaluate, 'Equation.evaluate': evaluate,
              'EquationDirectory.__new__': lambda I, c, a, k: directory(
                  I, 'library')[0]})
    x = key(I, 'a variable')
    k = key(I, 'entry')
    given = from_v(ctx.const('given', V))
    kind, r = outcome(I, lambda: I.call(I.p.cls('NrwalConfig'), [given], {}))
    if kind == 'raise':
        return
    ctx.cover('created')
    g = attr(I, r, '_global_variables')
    dk, vk = dom(I, g, k), val(I, g, k)
    n = z3.And(rest(k), num(lv(k)))
    eq = z3.And(pd(k), has_cls(pv(k), 'Equation'))
    ctx.prove('a constant is a number or an equation without variables',
              z3.Implies(dk, z3.Or(n, z3.And(eq, z3.Not(is_var(
                  eqn_text(pv(k)), x))))))
    ctx.prove('the numbers among the entries are constants',
              z3.Implies(n, dk))
    ctx.prove('a constant has the value of its entry', z3.Implies(
        dk, z3.If(eq, z3.Or(vk == ideal(pv(k)), z3.And(
            n, vk == FltV(value(lv(k))))), vk == FltV(value(lv(k))))))
    same_dict(I, ctx, 'the entries are what was parsed',
              attr(I, r, '_config'), pd, pv, k)
    for a in ('_outputs', '_inputs'):
        ctx.prove('nothing is evaluated or supplied yet',
                  z3.Not(dom(I, attr(I, r, a), k)))


HARNESSES = [('constants', constants), ('evaluate', evaluation('plain')), ('eval', evaluation('eval')),
             ('evaluate with inputs', evaluation('given'))]
