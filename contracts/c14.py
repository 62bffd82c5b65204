"""C14: assigning the inputs of a configuration."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (SS, TRUE, attr, config, dom, key, numeric_input,
                              outcome, prove_exists, same_dict, setup,
                              sym_dict, val)

FUNCTIONS = ['NrwalConfig.inputs (setter)', 'Equation._check_input_args']
ASSUMED = ['Equation.is_num (verified by C01)']
ASSUMPTIONS = ['numpy / pandas: astype(float32) and Series.values.flatten() '
               'give new arrays with the same values; np.issubdtype as '
               'documented', 'arrays are non-empty and one-dimensional',
               'the inputs held before are normalised (the setter '
               're-establishes this)']
BOUNDED_FOR = ['the values inside arrays']


def numtext(v):
    return z3.Or(is_int(v), is_flt(v), is_numeral(
        z3.If(is_str(v), vs(v), str_of(v))))


def taken(v):
    """What a supplied value is stored as."""
    return z3.If(z3.And(has_cls(v, 'ndarray'),
                        z3.Or(numtext(elem0(v)), int_array(v))), as_f32(v),
                 z3.If(is_int(v), FltV(z3.ToReal(vi(v))),
                       z3.If(is_bool(v), FltV(z3.If(vb(v), z3.RealVal(1),
                                                    z3.RealVal(0))), v)))


def assign(I, obj, value):
    """config.inputs = value"""
    f = I.p.cls('NrwalConfig').lookup('inputs')[0]
    return outcome(I, lambda: I.call_func(f.setter, [obj, value], {}))


def given(what):
    def h(I):
        ctx = I.ctx
        setup(I)
        obj, c, g, (od, ov), o = config(I)
        if what == 'mapping':
            a, ad, av = sym_dict(I, 'given')
        else:
            t = ctx.const('table', V)
            ctx.assume(has_cls(t, 'DataFrame'))
            a = from_v(t)
            ad, av = (lambda k: df_dom(t, k)), (lambda k: df_val(t, k))
            q = z3.Const('q', V)
            ctx.forall([q], z3.Implies(ad(q), has_cls(av(q), 'ndarray')))
        ctx.cover('any ' + what)
        kind, r = assign(I, obj, a)
        k = key(I)
        if what == 'mapping':
            same_dict(I, ctx, "the caller's mapping is unchanged", a, ad, av,
                      k)
        same_dict(I, ctx, 'the outputs are unchanged',
                  attr(I, obj, '_outputs'), *o, k)
        if kind == 'raise':
            q = z3.Const('bad', V)
            prove_exists(I, ctx, 'an error means a bad name or value', [q],
                         z3.And(ad(q), z3.Or(z3.Not(is_str(q)), z3.Not(
                             numeric_input(av(q))))))
            return
        ds = attr(I, obj, '_inputs')
        dk, vk = dom(I, ds, k), val(I, ds, k)
        ctx.prove('the inputs are the old ones and the given ones',
                  dk == z3.Or(od(k), ad(k)))
        ctx.prove('a given value is stored, numbers as floating point',
                  z3.Implies(ad(k), vk == taken(av(k))))
        ctx.prove('other inputs keep their values',
                  z3.Implies(z3.And(od(k), z3.Not(ad(k))), vk == ov(k)))
        ctx.prove('no error means proper names and values', z3.Implies(
            ad(k), z3.And(is_str(k), numeric_input(av(k)))))
        ctx.prove('what is stored is normalised', z3.Implies(
            dk, z3.And(numeric_input(vk), normal(vk) == vk)))
        if what == 'mapping':
            ctx.prove('the mapping itself is not kept',
                      z3.BoolVal(ds.oid != a.oid))
    return h


def none(I):
    ctx = I.ctx
    setup(I)
    obj, c, g, i, o = config(I)
    kind, r = assign(I, obj, None)
    ctx.prove('None is accepted', z3.BoolVal(kind == 'ok'))
    if kind == 'ok':
        k = key(I)
        ctx.prove('None removes every input',
                  z3.Not(dom(I, attr(I, obj, '_inputs'), k)))


def other(I):
    ctx = I.ctx
    setup(I)
    obj, c, g, i, o = config(I)
    x = ctx.const('given', V)
    ctx.assume(z3.Not(z3.Or(is_none(x), has_cls(x, 'dict', 'DataFrame'))))
    ctx.cover('something else')
    kind, r = assign(I, obj, from_v(x))
    ctx.prove('anything else is refused with a TypeError',
              z3.BoolVal(kind == 'raise' and issubclass(r.cls, TypeError)))
    same_dict(I, ctx, 'a refusal leaves the inputs alone',
              attr(I, obj, '_inputs'), *i, key(I))


HARNESSES = [('mapping', given('mapping')), ('table', given('table')),
             ('none', none), ('other', other)]
