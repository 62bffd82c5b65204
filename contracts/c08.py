"""C08: names of sibling equations are expanded exactly, cycles refused."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (SS, TRUE, FLAGS, EQN, arg, dom, is_var, key,
                              names_flags, ok_text, outcome, setup, sym_dict,
                              val)
from pyvc.loops import Relation
from pyvc.values import Native, FuncVal, Opaque

FUNCTIONS = ['EquationGroup._parse_group', 'AbstractGroup._parse_group',
             'Equation.replace_equation']
ASSUMED = [
    're.sub of (?<![\\w.])NAME(?![\\w.]) by a parenthesised text: the result '
    'means the text with the name bound to the meaning of the replacement; '
    'its variables are those of the text other than the name and those of '
    'the replacement; no forbidden fragment arises',
    'Equation.parse_variables (C18, bounded)',
    'the Equation constructor (C02)']
ASSUMPTIONS = ['partial correctness: that the rounds of expansion end is '
               'not proved',
               'the given mapping has string keys']
BOUNDED_FOR = ['the values of expanded equations; the assumed contract of '
               're.sub on texts; endless expansion (time limit)']

PRE, POST = '(?<![\\w.])', '(?![\\w.])'
meaning = F('meaning', SS, z3.RealSort())       # in a fixed environment ...
value_of = F('value_of_name', V, z3.RealSort())  # ... that binds names so
name_sub = F('name_sub', SS, SS, SS, SS)
re_escape = F('re_escape', SS, SS)
subgroup = F('load_subgroup', V, V, *[z3.BoolSort()] * 4, V)
loads = F('loads_subgroup', V, V, *[z3.BoolSort()] * 4, z3.BoolSort())
on_cycle = F('on_cycle', V, z3.BoolSort())
names_cycle = F('names_cycle', SS, z3.BoolSort())
cycle_wit = F('cycle_witness', SS, V)
sibling = F('uses_sibling', SS, z3.BoolSort())
sib_wit = F('sibling_witness', SS, V)
rank = F('rank', V, z3.IntSort())


def pieces(t):
    """Flat list of the pieces of a concatenation."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in t.children() for x in pieces(c)]
    return [t]


def lit(t):
    return unescape(t) if z3.is_string_value(t) else None


def inside(t, left, right):
    """X with t == left + X + right, by the form of the term; or None."""
    ps = pieces(z3.simplify(t))
    if len(ps) < 2 or lit(ps[0]) is None or lit(ps[-1]) is None:
        return None
    a, b = lit(ps[0]), lit(ps[-1])
    if not a.startswith(left) or not b.endswith(right):
        return None
    mid = ([z3.StringVal(a[len(left):])] if a[len(left):] else []) + \
        ps[1:-1] + ([z3.StringVal(b[:len(b) - len(right)])]
                    if b[:len(b) - len(right)] else [])
    if not mid:
        return None
    return mid[0] if len(mid) == 1 else z3.Concat(*mid)


def c_escape(I, args, kwargs):
    s = I.kind(args[0], 'str')
    if s is None:
        raise Unsupported('re.escape')
    return sstr(re_escape(s))


def unknown_text(I):
    I.ctx.approx.append('a text replacement of another form')
    return sstr(I.ctx.fresh(SS, 'replaced'))


def c_sub(I, args, kwargs):
    """re.sub(pattern, replacement, text)"""
    if kwargs or len(args) != 3:
        return unknown_text(I)
    pat, s = I.kind(args[0], 'str'), I.kind(args[2], 'str')
    if pat is None or s is None:
        return unknown_text(I)
    x = inside(pat, PRE, POST)
    if x is None or not (z3.is_app(x) and x.decl().eq(re_escape)):
        return unknown_text(I)
    x = x.arg(0)
    if not isinstance(args[1], (FuncVal, Native)):
        return unknown_text(I)          # backslashes would be interpreted
    r = I.kind(I.call(args[1], [Opaque('match')], {}), 'str')
    t = inside(r, '(', ')') if r is not None else None
    if t is None:
        return unknown_text(I)
    new = name_sub(s, x, t)
    ctx = I.ctx
    xv = StrV(x)
    ctx.touch(xv)
    ctx.define(z3.Implies(meaning(t) == value_of(xv),
                          meaning(new) == meaning(s)))
    ctx.define(z3.Implies(z3.And(ok_text(s), ok_text(t)), ok_text(new)))
    y = z3.Const('vy!{}'.format(next(ctx.counter)), V)
    ctx.forall([y], is_var(new, y) == z3.Or(
        z3.And(y != xv, is_var(s, y)), z3.And(is_var(s, xv), is_var(t, y))))
    for u in (s, t, new):
        cycle_facts(I, u)
    return sstr(new)


def cycle_facts(I, u):
    """names_cycle(u): some variable of u is on the cycle."""
    ctx = I.ctx
    if not getattr(I, 'cycles', False):
        return
    y = z3.Const('cy!{}'.format(next(ctx.counter)), V)
    ctx.forall([y], z3.Implies(z3.And(is_var(u, y), on_cycle(y)),
                               names_cycle(u)))
    ctx.define(z3.Implies(names_cycle(u), z3.And(
        on_cycle(cycle_wit(u)), is_var(u, cycle_wit(u)))))
    ctx.touch(cycle_wit(u))


def c_subgroup(I, cls, args, kwargs):
    """EquationGroup(mapping, name=.., options): a function of these, or an
    error (this contract, one level down)."""
    v = I.tv(arg(args, kwargs, 0, 'group'))
    n = I.tv(arg(args, kwargs, 1, 'name'))
    for x in kwargs:
        if x not in FLAGS + ('group', 'name'):
            raise Unsupported('constructor argument ' + x)
    fl = []
    for i, f in enumerate(FLAGS):
        t = I.truth(arg(args, kwargs, i + 2, f, False))
        fl.append(z3.BoolVal(t) if isinstance(t, bool) else t)
    if not I.ctx.branch(loads(v, n, *fl)):
        raise unknown_raise()
    t = subgroup(v, n, *fl)
    I.ctx.define(has_cls(t, 'EquationGroup'))
    return S('v', t)


def texty(v):
    return z3.Or(is_str(v), is_int(v), is_bool(v), is_flt(v))


def text(v):
    return z3.If(is_str(v), vs(v), str_of(v))


def parse(I, g, relation):
    setup(I, EQN)
    I.contracts.update({'re.sub': c_sub, 're.escape': c_escape,
                        'EquationGroup.__new__': c_subgroup})
    relation.install(I)
    fl = names_flags(I, 'self')
    obj = I.new_obj(I.p.cls('EquationGroup'), dict(
        fl, _default_variables=I.new_dict()))
    f = I.p.method('EquationGroup', '_parse_group')
    return fl, outcome(I, lambda: I.run_body(f, [obj, g], {}))


def rel_base(v, v0):
    return z3.And(has_cls(v, 'Equation'), eqn_name(v) == eqn_name(v0))


def keep(v, v0, more):
    return z3.If(has_cls(v0, 'Equation'),
                 z3.And(rel_base(v, v0), more), v == v0)


def result(I, kind, r):
    if not isinstance(r, Ref):
        raise Unsupported('result of _parse_group')
    return r


def expansion(I):
    ctx = I.ctx
    ctx.light(400)
    g, gd, gv = sym_dict(I, 'given', lambda k, v: is_str(k))
    ctx.forall([z3.Const('gk', V)], z3.Implies(
        z3.And(gd(z3.Const('gk', V)), texty(gv(z3.Const('gk', V)))),
        value_of(z3.Const('gk', V)) == meaning(text(gv(z3.Const('gk', V))))))

    def flag(I2, k, v, ref):
        u = eqn_text(v)
        c = I2.ctx
        if not k.decl().name().startswith(('sn!', 'sl!')):
            c.touch(sib_wit(u))
            c.define(z3.Implies(sibling(u), z3.And(
                gd(sib_wit(u)), is_var(u, sib_wit(u)))))
        return z3.Implies(has_cls(v, 'Equation'), z3.Not(sibling(u)))
    a, b = z3.Const('sa', V), z3.Const('sb', V)
    ctx.forall([a, b], z3.Implies(z3.And(has_cls(a, 'Equation'), gd(b),
                                         is_var(eqn_text(a), b)),
                                  sibling(eqn_text(a))))
    k, y = key(I, 'entry'), key(I, 'other')
    ctx.cover('a group')
    fl, (kind, r) = parse(I, g, Relation(
        'expansion keeps the meaning of every entry',
        lambda I2, q, v, v0: keep(v, v0, meaning(eqn_text(v)) == meaning(
            eqn_text(v0))), flag,
        'a round without an expansion has found no sibling name'))
    if kind == 'raise':
        return
    res = result(I, kind, r)
    ctx.cover('a group is loaded')
    v0 = gv(k)
    dk, v = dom(I, res, k), val(I, res, k)
    ctx.touch(v)
    ctx.prove('exactly the entries given', dk == gd(k))
    here = z3.And(gd(k), texty(v0))
    ctx.prove('a text or number is an equation of that name', z3.Implies(
        here, z3.And(has_cls(v, 'Equation'), eqn_name(v) == k)))
    ctx.prove('an entry means its own text with siblings for their names',
              z3.Implies(here, meaning(eqn_text(v)) == value_of(k)))
    ctx.prove('no sibling name remains', z3.Implies(
        z3.And(here, gd(y)), z3.Not(is_var(eqn_text(v), y))))
    bools = [f.t for f in [fl['_' + n] for n in FLAGS]]
    ctx.prove('a mapping is a group with the same options', z3.Implies(
        z3.And(gd(k), has_cls(v0, 'dict')),
        v == subgroup(v0, k, *bools)))
    ctx.prove('anything else is refused', z3.Implies(
        gd(k), z3.Or(texty(v0), has_cls(v0, 'dict'))))
    ctx.prove('numbers as names are refused', z3.Implies(
        gd(k), z3.Not(is_numeral(vs(k)))))


def cycle(I):
    ctx = I.ctx
    ctx.light(400)
    I.cycles = True
    g, gd, gv = sym_dict(I, 'given', lambda k, v: z3.And(
        is_str(k), z3.Implies(on_cycle(k), z3.And(
            texty(v), names_cycle(text(v))))))
    q = z3.Const('oc', V)
    ctx.forall([q], z3.Implies(on_cycle(q), gd(q)))
    c = key(I, 'member')
    ctx.assume(on_cycle(c))
    ctx.touch(gv(c))
    ctx.cover('a group with a cycle')

    def flag(I2, k, v, ref):
        u = eqn_text(v)
        if not k.decl().name().startswith(('sn!', 'sl!')):
            cycle_facts(I2, u)
        return z3.Implies(has_cls(v, 'Equation'), z3.Not(names_cycle(u)))
    fl, (kind, r) = parse(I, g, Relation(
        'expansion keeps a reference into the cycle',
        lambda I2, q, v, v0: keep(v, v0, z3.Implies(
            names_cycle(eqn_text(v0)), names_cycle(eqn_text(v)))), flag,
        'a round without an expansion has found no name of the cycle'))
    if kind == 'raise':
        return
    res = result(I, kind, r)
    v = val(I, res, c)
    dom(I, res, c)
    ctx.touch(v)
    ctx.prove('a group with a cycle is refused', z3.BoolVal(False))


def acyclic(I):
    ctx = I.ctx
    ctx.light(400)

    def below(u, k, y):
        return z3.Implies(z3.And(is_var(u, y), gd(y)), rank(y) < rank(k))
    g, gd, gv = sym_dict(I, 'given', lambda k, v: z3.And(
        is_str(k), texty(v), z3.Not(is_numeral(vs(k))), ok_text(text(v))))
    a, b = z3.Const('ra', V), z3.Const('rb', V)
    ctx.forall([a, b], z3.Implies(gd(a), below(text(gv(a)), a, b)))
    ctx.cover('a group without a cycle')

    def inv(I2, k, v, y):
        # the siblings an equation names rank below its own name
        return z3.Implies(has_cls(v, 'Equation'), z3.And(
            below(eqn_text(v), eqn_name(v), y), ok_text(eqn_text(v)),
            gd(eqn_name(v)), eqn_name(v) == k if k is not None else TRUE))
    fl, (kind, r) = parse(I, g, Relation(
        'expansion keeps the order of the siblings',
        lambda I2, q, v, v0: keep(v, v0, TRUE), inv=inv))
    ctx.prove('a group without a cycle is loaded',
              z3.BoolVal(kind != 'raise'))


HARNESSES = [('expansion', expansion), ('cycle', cycle),
             ('no cycle', acyclic)]
