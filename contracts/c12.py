"""C12: required and missing inputs are exact and guard evaluation."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (SS, TRUE, attr, bag_complete, bag_sound, config,
                              is_var, key, outcome, prove_exists, same_dict,
                              setup, sym_dict)
from contracts.c11 import set_inputs

FUNCTIONS = ['NrwalConfig.required_inputs', 'NrwalConfig.missing_inputs',
             'NrwalConfig.solvable', 'NrwalConfig.all_variables',
             'NrwalConfig.evaluate (refusal)', 'NrwalConfig.eval (refusal)']
ASSUMED = ['assignment to NrwalConfig.inputs (verified by C14)',
           'Equation.parse_variables returns the variables of the text '
           '(C18, bounded)']
ASSUMPTIONS = ['entries of a configuration are equations, groups or '
               'directories under string names (established by '
               '_parse_config, C13)']
BOUNDED_FOR = ['the error message names the missing input',
               'evaluation never fails for want of a name (with C01 and C11)']


def needs(c, g, k, x):
    """entry k is an equation that needs x from outside"""
    (cd, cv), (gd, _) = c, g
    return z3.And(cd(k), has_cls(cv(k), 'Equation'),
                  is_var(eqn_text(cv(k)), x), z3.Not(gd(x)), z3.Not(cd(x)),
                  z3.Not(eqn_def_dom(cv(k), x)))


def frames(I, ctx, obj, c, g, i, o, k):
    same_dict(I, ctx, 'the entries are unchanged', attr(I, obj, '_config'),
              *c, k)
    same_dict(I, ctx, 'the constants are unchanged',
              attr(I, obj, '_global_variables'), *g, k)
    same_dict(I, ctx, 'the inputs are unchanged', attr(I, obj, '_inputs'),
              *i, k)
    same_dict(I, ctx, 'the outputs are unchanged', attr(I, obj, '_outputs'),
              *o, k)


def names(prop):
    def h(I):
        ctx = I.ctx
        setup(I)
        obj, c, g, i, o = config(I)
        kind, r = outcome(I, lambda: I.getattr(obj, prop))
        ctx.prove('no error', z3.BoolVal(kind == 'ok'))
        if kind != 'ok':
            return
        k, x = key(I, 'entry'), key(I, 'name')

        def spec(k, x):
            f = needs(c, g, k, x)
            return z3.And(f, z3.Not(i[0](x))) if prop == 'missing_inputs' \
                else f
        ctx.cover('some configuration')
        bag_sound(I, ctx, 'only needed names are listed', r,
                  lambda e, ws: z3.Or(*[spec(w, e) for w in ws]))
        bag_complete(I, ctx, 'every needed name is listed', r, x,
                     spec(k, x), [k, x])
        frames(I, ctx, obj, c, g, i, o, k)
    return h


def solvable(I):
    ctx = I.ctx
    setup(I)
    obj, c, g, i, o = config(I)
    kind, r = outcome(I, lambda: I.getattr(obj, 'solvable'))
    ctx.prove('no error', z3.BoolVal(kind == 'ok'))
    if kind != 'ok':
        return
    k, x = key(I, 'entry'), key(I, 'name')
    miss = z3.And(needs(c, g, k, x), z3.Not(i[0](x)))
    if I.test(r):
        ctx.prove('solvable means that nothing is missing', z3.Not(miss))
    else:
        a, b = z3.Const('ea', V), z3.Const('eb', V)
        prove_exists(I, ctx, 'not solvable means that something is missing',
                     [a, b], z3.And(needs(c, g, a, b), z3.Not(i[0](b))))


def refuses(entry, how='stored'):
    """evaluate() and evaluate(inputs=<mapping>) while x is missing"""
    def h(I):
        ctx = I.ctx
        setup(I)
        obj, c, g, i, o = config(I)
        k, x = key(I, 'entry'), key(I, 'name')
        ctx.assume(z3.And(needs(c, g, k, x), z3.Not(i[0](x))))
        args = [obj]
        if how == 'given':
            new, nd, nv = sym_dict(I, 'given')
            ctx.assume(z3.Not(nd(x)))
            I.contracts['NrwalConfig.inputs'] = set_inputs
            args.append(new)
        ctx.cover('an input is missing')
        f = I.p.method('NrwalConfig', entry)
        kind, r = outcome(I, lambda: I.call_func(f, args, {}))
        ctx.prove('evaluation with a missing input raises',
                  z3.BoolVal(kind == 'raise'))
        q = key(I, 'key')
        if how == 'stored':
            frames(I, ctx, obj, c, g, i, o, q)
            return
        same_dict(I, ctx, 'the outputs are unchanged',
                  attr(I, obj, '_outputs'), *o, q)
        same_dict(I, ctx, 'the entries are unchanged',
                  attr(I, obj, '_config'), *c, q)
        same_dict(I, ctx, 'the given mapping is unchanged', new, nd, nv, q)
    return h


HARNESSES = [('required_inputs', names('required_inputs')),
             ('missing_inputs', names('missing_inputs')),
             ('solvable', solvable),
             ('evaluate refuses', refuses('evaluate')),
             ('eval refuses', refuses('eval')),
             ('evaluate with inputs refuses', refuses('evaluate', 'given')),
             ('eval with inputs refuses', refuses('eval', 'given'))]
