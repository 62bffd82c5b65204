"""C19: item access on a configuration."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (SS, TRUE, attr, config, dom, key, outcome,
                              same_dict, setup, val)

FUNCTIONS = ['NrwalConfig.__getitem__', 'NrwalConfig.__getattr__',
             'NrwalConfig.get', 'NrwalConfig.reset_output',
             'NrwalConfig.outputs']
ASSUMED = []
ASSUMPTIONS = ['python calls __getattr__ exactly for names that are not '
               'attributes of the object']
BOUNDED_FOR = ['outputs after evaluate (C11)']


def shown(I, r, c, o, k):
    return I.tv(r) == z3.If(o[0](k), o[1](k), c[1](k))


def frames(I, ctx, obj, c, o, k):
    same_dict(I, ctx, 'the entries are unchanged', attr(I, obj, '_config'),
              *c, k)
    same_dict(I, ctx, 'the outputs are unchanged', attr(I, obj, '_outputs'),
              *o, k)


def access(how):
    def h(I):
        ctx = I.ctx
        setup(I)
        obj, c, g, i, o = config(I)
        k = key(I)
        ctx.assume(is_str(k))
        d = ctx.const('fallback', V)
        name = S('str', vs(k)) if ctx.choose('as_text') else from_v(k)
        f = I.p.method('NrwalConfig', how)
        args = [obj, name] + ([from_v(d)] if how == 'get' else [])
        kind, r = outcome(I, lambda: I.call_func(f, args, {}))
        known = z3.Or(o[0](k), c[0](k))
        q = key(I, 'any_key')
        frames(I, ctx, obj, c, o, q)
        if kind == 'raise':
            ctx.prove('an error is a KeyError', z3.BoolVal(
                how != 'get' and issubclass(r.cls, KeyError)))
            ctx.prove('an error means an unknown name', z3.Not(known))
            return
        if how == 'get':
            ctx.prove('the current value of a known name',
                      z3.Implies(known, shown(I, r, c, o, k)))
            ctx.prove('the fallback for an unknown name',
                      z3.Implies(z3.Not(known), I.tv(r) == d))
        else:
            ctx.prove('a result means a known name', known)
            ctx.prove('the current value', shown(I, r, c, o, k))
    return h


def reset(I):
    ctx = I.ctx
    setup(I)
    obj, c, g, i, o = config(I)
    k, q = key(I), key(I, 'any_key')
    all_of_them = ctx.choose('all')
    if not all_of_them:
        ctx.assume(is_str(k))
    f = I.p.method('NrwalConfig', 'reset_output')
    kind, r = outcome(I, lambda: I.call_func(
        f, [obj] + ([] if all_of_them else [from_v(k)]), {}))
    ctx.prove('no error', z3.BoolVal(kind == 'ok'))
    if kind != 'ok':
        return
    ds = attr(I, obj, '_outputs')
    dq = dom(I, ds, q)
    same_dict(I, ctx, 'the entries are unchanged', attr(I, obj, '_config'),
              *c, q)
    if all_of_them:
        ctx.prove('a full reset removes every output', z3.Not(dq))
    else:
        ctx.prove('a reset removes exactly that output',
                  dq == z3.And(o[0](q), q != k))
        ctx.prove('other outputs keep their values',
                  z3.Implies(dq, val(I, ds, q) == o[1](q)))


def outputs(I):
    ctx = I.ctx
    setup(I)
    obj, c, g, i, o = config(I)
    kind, r = outcome(I, lambda: I.getattr(obj, 'outputs'))
    ctx.prove('no error', z3.BoolVal(kind == 'ok'))
    if kind == 'ok':
        same_dict(I, ctx, 'the outputs are those of the latest evaluation',
                  r, *o, key(I))


HARNESSES = [('item', access('__getitem__')), ('attribute',
                                               access('__getattr__')),
             ('get', access('get')), ('reset_output', reset),
             ('outputs', outputs)]
