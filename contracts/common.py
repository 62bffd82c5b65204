"""Contracts shared by the properties, and helpers to build symbolic states.

A contract is a function (I, args, kwargs) used at calls instead of the body;
harnesses verify bodies against the same statements."""
import ast

import z3

from pyvc.values import *          # noqa: F401,F403
from pyvc.values import (V, S, Ref, Part, ListState, DictState, ObjState,
                         Unsupported, PyRaise, Infeasible, from_v, sbool,
                         sstr, has_cls, CLS, F, DView)
from pyvc.models import unknown_raise
from pyvc.interp import SeqState

TRUE = z3.BoolVal(True)
SS = z3.StringSort()

ILLEGAL = ('import ', 'os.', 'sys.', '.__', '__.', 'eval', 'exec')


def clean(t):
    """No forbidden fragment in the text."""
    return z3.And(*[z3.Not(z3.Contains(t, z3.StringVal(f)))
                    for f in ILLEGAL])


def arg(args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


# --------------------------------------------------- contract: variables
def parse_variables(I, args, kwargs):
    """Equation.parse_variables(expression): the bag {x | vars_of(text, x)}
    of non-empty strings (assumed; C18 checks it within bounds)."""
    text = I.str_term(arg(args, kwargs, 1, 'expression'))
    return var_list(I, text)


def var_list(I, text):
    p = z3.Const('var!{}'.format(next(I.ctx.counter)), V)
    return I.new(ListState([Part((p,), is_var(text, p), S('v', p))]))


def is_var(text, x):
    return z3.And(vars_of(text, x), is_str(x), vs(x) != z3.StringVal(''))


def is_num(I, args, kwargs):
    """Equation.is_num(s): float(str(s)) succeeds (verified by C01)."""
    x = arg(args, kwargs, 0, 's')
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return True
    if isinstance(x, str):
        try:
            float(x)
            return True
        except ValueError:
            return False
    if isinstance(x, S) and x.kind in ('int', 'real'):
        return True
    if isinstance(x, S) and x.kind == 'v':
        t = x.t
        return sbool(z3.Or(is_int(t), is_flt(t),
                           z3.And(z3.Not(is_int(t)), z3.Not(is_flt(t)),
                                  is_numeral(I.str_term(x)))))
    return sbool(is_numeral(I.str_term(x)))


ok_text = F('ok_text', SS, z3.BoolSort())   # no forbidden fragment


def new_equation(I, cls, args, kwargs):
    """Equation(eqn, name, default_variables): refused iff the text has a
    forbidden fragment or names itself; otherwise the given text, name and
    defaults (verified against the constructor by C02)."""
    for n in kwargs:
        if n not in ('eqn', 'name', 'default_variables'):
            raise Unsupported('constructor argument ' + n)
    e = arg(args, kwargs, 0, 'eqn')
    name = arg(args, kwargs, 1, 'name')
    dv = arg(args, kwargs, 2, 'default_variables')
    text = I.str_term(I.force(e))
    nt = I.tv(name)
    if not I.ctx.branch(ok_text(text)):
        raise PyRaise(ValueError, ())
    if I.ctx.branch(z3.And(is_str(nt), is_var(text, nt))):
        raise PyRaise(ValueError, ())
    if dv is None:
        dv = I.new_dict()
    return I.new_obj(cls, {'_eqn': sstr(text), '_base_name': name,
                           '_str': None, '_default_variables': dv})


def text_of(I, r):
    """Term of the text of the equation the code returned."""
    r = I.force(r)
    if isinstance(r, Ref):
        st = I.state(r)
        if isinstance(st, ObjState) and '_eqn' in st.attrs:
            return I.str_term(st.attrs['_eqn'])
    if isinstance(r, S) and r.kind == 'v':
        return eqn_text(r.t)
    raise Unsupported('the result is not an equation')


def defaults_of(I, r):
    r = I.force(r)
    if isinstance(r, Ref):
        st = I.state(r)
        if isinstance(st, ObjState) and isinstance(
                st.attrs.get('_default_variables'), Ref):
            return st.attrs['_default_variables']
    raise Unsupported('the result has no dictionary of defaults')


EQN = {'Equation.__new__': new_equation}

BASIC = {'Equation.parse_variables': parse_variables,
         'Equation.is_num': is_num}


# ------------------------------------------------- symbolic repository state
def sym_dict(I, name, facts=None):
    """A dictionary with unknown contents; returns (ref, dom, val)."""
    d = F(name + '_dom', V, z3.BoolSort())
    v = F(name + '_val', V, V)
    ref = I.sym_dict(lambda k: d(k), lambda k: v(k), facts)
    return ref, d, v


def equation(I, name, defaults=None):
    """An Equation object in any state its class invariant allows."""
    text = I.ctx.const(name + '_text', SS)
    if defaults is None:
        ref, d, v = sym_dict(I, name + '_def', lambda k, x: is_str(k))
    else:
        ref, d, v = defaults
    I.ctx.named_refs['defaults'] = ref.oid
    base = I.ctx.const(name + '_name', V)
    I.ctx.assume(z3.Or(is_none(base), is_str(base)))
    o = I.new_obj(I.p.cls('Equation'), {
        '_eqn': S('str', text), '_base_name': from_v(base), '_str': None,
        '_default_variables': ref})
    return o, text, d, v


def frozen(I, dom, val):
    """Dictionary of an opaque object: readable, not writable."""
    ref = I.new(DictState(None, ('base', dom, val)))
    I.ctx.frozen.add(ref.oid)
    return ref


def eq_view(attr):
    def f(I, t):
        if attr == '_eqn':
            return S('str', eqn_text(t))
        if attr == '_base_name':
            return from_v(eqn_name(t))
        if attr == '_str':
            return None
        return frozen(I, lambda k: eqn_def_dom(t, k),
                      lambda k: eqn_def_val(t, k))
    return f


def grp_view(attr):
    def f(I, t):
        if attr == 'defaults':
            return frozen(I, lambda k: grp_def_dom(t, k),
                          lambda k: grp_def_val(t, k))
        return frozen(I, lambda k: grp_dom(t, k), lambda k: grp_val(t, k))
    return f


VIEWS = {('Equation', a): eq_view(a) for a in
         ('_eqn', '_base_name', '_str', '_default_variables')}
for _c in ('EquationGroup', 'VariableGroup'):
    VIEWS[(_c, '_group')] = grp_view('entries')
    VIEWS[(_c, '_default_variables')] = grp_view('defaults')
VIEWS[('EquationDirectory', '_eqns')] = grp_view('entries')
VIEWS[('EquationDirectory', '_default_variables')] = grp_view('defaults')


def setup(I, contracts=None, views=True):
    I.contracts.update(BASIC)
    if contracts:
        I.contracts.update(contracts)
    if views:
        I.views.update(VIEWS)


def outcome(I, fn):
    """Run fn: ('ok', value) or ('raise', PyRaise)."""
    try:
        return 'ok', fn()
    except PyRaise as e:
        return 'raise', e


def key(I, name='key'):
    """A skolem constant for 'for every key'."""
    return I.ctx.const(name, V)


def dstate(I, ref):
    st = I.state(ref)
    if not isinstance(st, DictState):
        raise Unsupported('not a dictionary')
    return st


def dom(I, ref, k):
    I.ctx.touch(k)
    return dstate(I, ref).dom(k, I.tv)


def val(I, ref, k):
    I.ctx.touch(k)
    return dstate(I, ref).val(k, I.tv)


def same_dict(I, ctx, name, ref, d, v, k):
    """Obligation: the dictionary still has the contents (d, v)."""
    dk, vk = dom(I, ref, k), val(I, ref, k)
    ctx.prove(name, z3.And(dk == d(k), z3.Implies(d(k), vk == v(k))))


def copy_of(t, orig):
    """t is what copy.deepcopy makes of orig (equal for plain values)."""
    return z3.If(is_obj(orig),
                 z3.And(is_obj(t), ocls(t) == ocls(orig),
                        cont(t) == cont(orig)),
                 t == orig)


def method(I, cls, name):
    return I.p.method(cls, name)


def static(fn):
    fn.static = True
    return fn


def numeric_input(v):
    """Values accepted as inputs."""
    return z3.Or(is_int(v), is_bool(v), is_flt(v),
                 has_cls(v, 'ndarray', 'list', 'tuple', 'npnum'))


def normal(v):
    """What a supplied value is taken as."""
    return z3.If(z3.And(has_cls(v, 'ndarray'), int_array(v)), as_f32(v),
                 z3.If(is_int(v), FltV(z3.ToReal(vi(v))),
                       z3.If(is_bool(v),
                             FltV(z3.If(vb(v), z3.RealVal(1),
                                        z3.RealVal(0))), v)))


# ------------------------------------------------------ bags (lists, sets)
def parts_of(I, ref):
    """Pieces of the list the code returned; None if it is not a list."""
    if isinstance(ref, tuple):
        return I.parts(ref)
    if not isinstance(ref, Ref) or not isinstance(I.state(ref), ListState):
        return None
    return I.parts(ref)


def bag_sound(I, ctx, name, ref, spec):
    """Obligation: every element x of the collection satisfies spec(x, ws),
    where ws are the values of the loop variables it was found with."""
    from pyvc.interp import subst
    parts = parts_of(I, ref)
    if parts is None:
        raise Unsupported('the result is not a list of known form')
    goals = []
    for p in parts:
        pairs = [(q, ctx.fresh(q.sort(), 'elem')) for q in p.params]
        for _, w in pairs:
            if w.sort() == V:
                ctx.touch(w)
        e = I.tv(subst(p.elem, pairs))
        ctx.touch(e)
        g = z3.substitute(p.guard, *pairs) if pairs else p.guard
        goals.append(z3.Implies(g, spec(e, [w for _, w in pairs])))
    ctx.prove(name, z3.And(*goals) if goals else TRUE)


def prove_exists(I, ctx, name, params, body):
    """Obligation: some values of params satisfy body (any term seen on the
    path may serve)."""
    nu = len(ctx.universals)
    ctx.solver.push()
    try:
        ctx.forall(params, z3.Not(body))
        ctx.prove(name, z3.BoolVal(False))
    finally:
        ctx.solver.pop()
        del ctx.universals[nu:]


def bag_complete(I, ctx, name, ref, x, fact, hints):
    """Obligation: if fact holds then x is in the collection; `hints` are
    terms that may serve as witnesses for the loop variables."""
    import itertools as it
    from pyvc.interp import subst
    parts = parts_of(I, ref)
    if parts is None:
        raise Unsupported('the result is not a list of known form')
    opts = []
    for p in parts:
        for c in it.product(list(hints), repeat=len(p.params)):
            if any(q.sort() != w.sort() for q, w in zip(p.params, c)):
                continue
            pairs = list(zip(p.params, c))
            e = I.tv(subst(p.elem, pairs))
            g = z3.substitute(p.guard, *pairs) if pairs else p.guard
            opts.append(z3.And(g, e == x))
    ctx.prove(name, z3.Implies(fact, z3.Or(*opts) if opts
                               else z3.BoolVal(False)))


def flat_events(events, kind):
    """(params, condition, event) of all recorded events of a kind."""
    out = []
    for e in events:
        if e[0] == 'forall':
            _, params, guard, conds, inner = e
            for ps, c, x in flat_events(inner, kind):
                out.append((list(params) + ps, z3.And(guard, conds, c), x))
        elif e[0] == kind:
            out.append(([], TRUE, e[1]))
    return out


# ------------------------------------------------------------ configurations
def config(I, gv_floats=True):
    """An NrwalConfig in any state its class invariant allows: entries are
    equations, groups or directories under string names; constants are
    numbers; inputs are normalised."""
    ctx = I.ctx
    entry = lambda k, v: z3.And(is_str(k), has_cls(
        v, 'Equation', 'EquationGroup', 'EquationDirectory'))
    c, cd, cv = sym_dict(I, 'config', entry)
    g, gd, gv = sym_dict(I, 'gvars', lambda k, v: is_str(k))
    i, idm, iv = sym_dict(I, 'inputs', lambda k, v: z3.And(
        is_str(k), numeric_input(v), normal(v) == v))
    o, od, ov = sym_dict(I, 'outputs', lambda k, v: z3.And(is_str(k), cd(k)))
    obj = I.new_obj(I.p.cls('NrwalConfig'), {
        '_inputs': i, '_outputs': o, '_config': c, '_global_variables': g,
        '_raw_config': I.new_dict(), '_eqn_dir': None})
    return obj, (cd, cv), (gd, gv), (idm, iv), (od, ov)


def attr(I, obj, name):
    v = I.state(obj).attrs.get(name)
    if not isinstance(v, Ref):
        raise Unsupported('{} is not a known object'.format(name))
    return v


# ------------------------------------------------- set_default_variables
def state_of(I, x):
    """DictState of a dictionary argument (None if it is None)."""
    x = I.force(x)
    if x is None:
        return None
    if isinstance(x, Ref) and isinstance(I.state(x), DictState):
        return I.state(x)
    if isinstance(x, S) and x.kind == 'v' \
            and I.ctx.entails(has_cls(x.t, 'dict')):
        t = x.t
        return DictState(None, ('base', lambda k: dct_dom(t, k),
                                lambda k: dct_val(t, k)))
    raise Unsupported('defaults that are not a known dictionary')


def set_defaults(cls, params):
    """obj.set_default_variables(...): on an object whose parts are not known
    it is recorded; on a known one the body is executed."""
    def f(I, args, kwargs):
        obj = I.force(args[0])
        if isinstance(obj, Ref):
            for c in I.state(obj).cls.mro():
                m = c.attrs.get('set_default_variables')
                if m is not None:
                    return I.run_body(m, args, kwargs)
        ev = {'obj': I.tv(obj), 'cls': cls, 'force': False, 'vars': None}
        for i, p in enumerate(params):
            v = arg(args, kwargs, i + 1, p)
            if p == 'force_update':
                ev['force'] = I.truth(v)
            else:
                ev['vars'] = state_of(I, v)
        I.ctx.events.append(('setdef', ev))
        return None
    return f


SETDEF = {
    'Equation.set_default_variables': set_defaults('Equation', ['var_dict']),
    'AbstractGroup.set_default_variables': set_defaults(
        'Group', ['var_dict']),
    'EquationDirectory.set_default_variables': set_defaults(
        'EquationDirectory', ['var_group', 'force_update'])}


def group(I, name, cls='EquationGroup'):
    """A group in any state its class invariant allows."""
    e, ed, ev = sym_dict(I, name + '_entry', lambda k, v: z3.And(
        is_str(k), has_cls(v, 'Equation', 'EquationGroup')))
    d, dd, dv = sym_dict(I, name + '_def', lambda k, v: is_str(k))
    o = I.new_obj(I.p.cls(cls), dict({
        '_group': e, '_default_variables': d}, **names_flags(I, name)))
    return o, (ed, ev), (dd, dv)


def names_flags(I, name):
    out = {n: from_v(I.ctx.const('{}{}'.format(name, n), V))
           for n in ('_base_name', '_dir_name')}
    for n in FLAGS:
        out['_' + n] = S('bool', I.ctx.const('{}_{}'.format(name, n),
                                             z3.BoolSort()))
    return out


FLAGS = ('interp_extrap_power', 'use_nearest_power', 'interp_extrap_year',
         'use_nearest_year')


def directory(I, name):
    e, ed, ev = sym_dict(I, name + '_entry', lambda k, v: z3.And(
        is_str(k), z3.If(k == StrV(z3.StringVal('variables')),
                         has_cls(v, 'VariableGroup'),
                         has_cls(v, 'EquationGroup', 'EquationDirectory'))))
    d, dd, dv = sym_dict(I, name + '_def', lambda k, v: is_str(k))
    o = I.new_obj(I.p.cls('EquationDirectory'), dict({
        '_eqns': e, '_default_variables': d}, **names_flags(I, name)))
    return o, (ed, ev), (dd, dv)


def instance(params, term, values):
    return z3.substitute(term, *zip(params, values)) if params else term


def event_at(I, ev, params, w, k):
    """Contents (dom, val) at key k of the dictionary given in an event, its
    loop variables set to w."""
    st = ev['vars']
    if st is None:
        return z3.BoolVal(False), NoneV
    return (instance(params, st.dom(k, I.tv), w),
            instance(params, st.val(k, I.tv), w))
