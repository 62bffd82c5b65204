"""C03: arithmetic on equations builds `A op B` from protected operand texts,
with the union of the defaults."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (EQN, SS, TRUE, copy_of, defaults_of, dom,
                              equation, key, ok_text, outcome, same_dict,
                              setup, sym_dict, text_of, val)
from pyvc.models import strip_term

FUNCTIONS = ['Equation.__add__', 'Equation.__sub__', 'Equation.__mul__',
             'Equation.__truediv__', 'Equation.__pow__',
             'Equation._Equation__eqn_math', 'Equation.is_variable']
ASSUMED = ['Equation constructor (verified by C02)',
           'Equation.is_num (verified by C01)']
ASSUMPTIONS = [
    "python's grammar: the text 'A op B' means the operation on the meanings "
    "of A and B when each is in parentheses, a numeral or free of operators, "
    "brackets and blanks, except that a leading minus of A binds weaker "
    "than **"]
BOUNDED_FOR = ['the value of the combined text (python eval)']

OPS = {'__add__': '+', '__sub__': '-', '__mul__': '*', '__truediv__': '/',
       '__pow__': '**'}
SPECIAL = '()[]{}+-/*^ <>=\\|&$@'


def atomic(t):
    """Text that needs no parentheses as an operand."""
    return z3.Or(is_numeral(t), z3.And(*[
        z3.Not(z3.Contains(t, z3.StringVal(c))) for c in SPECIAL]))


def cat(*xs):
    return z3.Concat(*[z3.StringVal(x) if isinstance(x, str) else x
                       for x in xs])


def goal(I, t, t1, t2, op):
    """t is t1 op t2 with every operand protected where it must be."""
    neg = z3.PrefixOf(z3.StringVal('-'), strip_term(I, t1)) \
        if op == '**' else z3.BoolVal(False)
    out = []
    for a_bare in (True, False):
        for b_bare in (True, False):
            for sep in (' ', ''):
                for outer in (False, True):
                    parts = [t1] if a_bare else ['(', t1, ')']
                    parts += [sep + op + sep]
                    parts += [t2] if b_bare else ['(', t2, ')']
                    if outer:
                        parts = ['('] + parts + [')']
                    side = z3.And(
                        z3.And(atomic(t1), z3.Not(neg)) if a_bare else TRUE,
                        atomic(t2) if b_bare else TRUE)
                    eq = z3.simplify(t == cat(*parts))
                    if z3.is_true(eq):
                        return side
                    out.append(z3.And(eq, side))
    return z3.Or(*out)


def operator(name):
    def h(I):
        ctx = I.ctx
        setup(I, EQN)
        a, t1, d1, v1 = equation(I, 'left')
        da = defaults_of(I, a)
        is_eq = ctx.choose('other_is_equation')
        if is_eq and ctx.choose('other_is_self'):
            b, t2, d2, v2, db = a, t1, d1, v1, da
        elif is_eq:
            b, t2, d2, v2 = equation(I, 'right')
            db = defaults_of(I, b)
        else:
            x = ctx.const('other', V)
            ctx.assume(z3.Or(is_str(x), is_int(x), is_flt(x)))
            b = from_v(x)
            t2 = z3.If(is_str(x), vs(x), str_of(x))
            d2, v2 = (lambda k: z3.BoolVal(False)), (lambda k: NoneV)
        ctx.cover('two operands')
        f = I.p.method('Equation', name)
        kind, r = outcome(I, lambda: I.call_func(f, [a, b], {}))
        k = key(I)
        ctx.prove('the text of the left operand is unchanged',
                  text_of(I, a) == t1)
        same_dict(I, ctx, 'the defaults of the left operand are unchanged',
                  defaults_of(I, a), d1, v1, k)
        if is_eq:
            ctx.prove('the text of the right operand is unchanged',
                      text_of(I, b) == t2)
            same_dict(I, ctx,
                      'the defaults of the right operand are unchanged',
                      defaults_of(I, b), d2, v2, k)
        if kind == 'raise':
            ctx.prove('only forbidden text is refused',
                      z3.BoolVal(issubclass(r.cls, ValueError)))
            return
        t = text_of(I, r)
        ctx.prove('the result is the operation on the protected texts',
                  goal(I, t, t1, t2, OPS[name]))
        ds = defaults_of(I, r)
        dk, vk = dom(I, ds, k), val(I, ds, k)
        ctx.prove('the defaults of the result are those of both operands',
                  dk == z3.Or(d1(k), d2(k)))
        ctx.prove("the right operand's default is used where both exist",
                  z3.Implies(d2(k), copy_of(vk, v2(k))))
        ctx.prove("otherwise the left operand's default is used",
                  z3.Implies(z3.And(d1(k), z3.Not(d2(k))),
                             copy_of(vk, v1(k))))
        ctx.prove('the result shares no dictionary with the operands',
                  z3.BoolVal(ds.oid != da.oid
                             and (not is_eq or ds.oid != db.oid)))
        ctx.prove('the result is a new equation', z3.BoolVal(
            isinstance(r, Ref) and r != a and r != b))
    return h


HARNESSES = [('operator ' + n, operator(n)) for n in OPS]
