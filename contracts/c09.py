"""C09: default variables follow directory scope; constants of a configuration
take precedence."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (EQN, SETDEF, SS, TRUE, arg, attr, copy_of,
                              directory, dom, event_at, flat_events, group,
                              instance, key, outcome, same_dict, setup,
                              state_of, sym_dict, val)
from contracts.c01 import set_defaults

FUNCTIONS = ['EquationDirectory.set_default_variables',
             'AbstractGroup.set_default_variables',
             'Equation.set_default_variables',
             'EquationDirectory.__init__ (defaults)',
             'NrwalConfig._parse_expression (defaults)',
             'NrwalConfig._parse_config (constants handed on)',
             'NrwalConfig._parse_global_variables']
ASSUMED = ['set_default_variables of an entry is an update of its defaults '
           'with copies (verified here, '
           'for groups and directories by induction over the depth of the tree)',
           'EquationDirectory._parse_eqn_dir gives the entries (C15)',
           'NrwalConfig._parse_equation, EquationDirectory lookup: some '
           'equation, group or directory, or an error (C05, C06)']
ASSUMPTIONS = ['the directory tree is finite and its objects are distinct']
BOUNDED_FOR = ['whole trees and configurations end to end, with the values '
               'the equations evaluate to']
VARS = StrV(z3.StringVal('variables'))


def scoped(I, ents, force, gd, gv):
    """(dom, val) of what a directory hands on: the given variables
    overridden by those of its own variables file."""
    d, v = ents
    own = lambda q: z3.And(z3.Not(force), d(VARS), grp_dom(v(VARS), q))
    return (lambda q: z3.Or(gd(q), own(q)),
            lambda q: z3.If(own(q), grp_val(v(VARS), q), gv(q)))


def handed_on(I, ctx, ents, wd, wv, force, k, q, classes):
    """Obligations: every entry k of the classes gets exactly (wd, wv)."""
    d, v = ents
    evs = flat_events(ctx.events, 'setdef')
    opts = []
    for params, cond, ev in evs:
        if len(params) > 1:
            raise Unsupported('nested loops over the entries')
        w = [k] * len(params)
        dq, vq = event_at(I, ev, params, w, q)
        fo = ev['force']
        fo = z3.BoolVal(fo) if isinstance(fo, bool) else fo
        opts.append((instance(params, z3.And(cond, ev['obj'] == v(k)), w),
                     z3.And(dq == wd(q), z3.Implies(wd(q),
                                                    copy_of(vq, wv(q)))),
                     z3.Implies(has_cls(v(k), 'EquationDirectory'),
                                fo == force)))
    ctx.prove('every entry gets the defaults', z3.Implies(
        z3.And(d(k), has_cls(v(k), *classes)),
        z3.Or(*[o[0] for o in opts]) if opts else z3.BoolVal(False)))
    for o in opts:
        ctx.prove('an entry gets exactly the variables in scope',
                  z3.Implies(z3.And(d(k), o[0]), o[1]))
        ctx.prove('the option to override is handed on', z3.Implies(
            z3.And(d(k), o[0]), o[2]))
    # nothing but the entries is touched
    for params, cond, ev in evs:
        ws = [ctx.fresh(p.sort(), 'at') for p in params]
        for w in ws:
            ctx.touch(w)
        ctx.prove('only entries are touched', z3.Implies(
            instance(params, cond, ws),
            z3.Or(*[z3.And(d(w), instance(params, ev['obj'], ws) == v(w))
                    for w in ws]) if ws else z3.BoolVal(False)))


def dir_defaults(I):
    ctx = I.ctx
    setup(I, SETDEF)
    o, ents, (dd, dv) = directory(I, 'self')
    gd, gv = (lambda k: z3.BoolVal(False)), (lambda k: NoneV)
    g = None
    if not ctx.choose('none_given'):
        g, gd, gv = sym_dict(I, 'given')
    force = ctx.const('force', z3.BoolSort())
    ctx.cover('any directory')
    f = I.p.method('EquationDirectory', 'set_default_variables')
    kind, r = outcome(I, lambda: I.call_func(
        f, [o, g, S('bool', force)], {}))
    k, q = key(I, 'entry'), key(I, 'name')
    ctx.prove('no error', z3.BoolVal(kind == 'ok'))
    if kind != 'ok':
        return
    wd, wv = scoped(I, ents, force, gd, gv)
    handed_on(I, ctx, ents, wd, wv, force, k, q,
              ('EquationGroup', 'EquationDirectory'))
    ds = attr(I, o, '_default_variables')
    dq, vq = dom(I, ds, q), val(I, ds, q)
    ctx.prove('its own defaults are updated', z3.And(
        dq == z3.Or(dd(q), wd(q)),
        z3.Implies(wd(q), copy_of(vq, wv(q))),
        z3.Implies(z3.And(dd(q), z3.Not(wd(q))), vq == dv(q))))
    same_dict(I, ctx, 'its entries are unchanged', attr(I, o, '_eqns'),
              *ents, k)
    if g is not None:
        same_dict(I, ctx, 'the given variables are unchanged', g, gd, gv, q)
        ctx.prove('the given dictionary is not kept',
                  z3.BoolVal(ds.oid != g.oid))


def group_defaults(I):
    ctx = I.ctx
    setup(I, SETDEF)
    o, ents, (dd, dv) = group(I, 'self')
    g, gd, gv = sym_dict(I, 'given')
    none = ctx.choose('none_given')
    ctx.cover('any group')
    f = I.p.method('EquationGroup', 'set_default_variables')
    kind, r = outcome(I, lambda: I.call_func(
        f, [o, None if none else g], {}))
    ctx.prove('no error', z3.BoolVal(kind == 'ok'))
    if kind != 'ok':
        return
    k, q = key(I, 'entry'), key(I, 'name')
    ds = attr(I, o, '_default_variables')
    dq, vq = dom(I, ds, q), val(I, ds, q)
    no = z3.BoolVal(False)
    wd = (lambda x: no) if none else gd
    if not none:
        handed_on(I, ctx, ents, gd, gv, no, k, q,
                  ('Equation', 'EquationGroup'))
    ctx.prove('its own defaults are updated', z3.And(
        dq == z3.Or(dd(q), wd(q)),
        z3.Implies(wd(q), copy_of(vq, gv(q))),
        z3.Implies(z3.And(dd(q), z3.Not(wd(q))), vq == dv(q))))
    same_dict(I, ctx, 'its entries are unchanged', attr(I, o, '_group'),
              *ents, k)
    same_dict(I, ctx, 'the given variables are unchanged', g, gd, gv, q)


def dir_init(I):
    """A new directory hands its own variables to its entries."""
    ctx = I.ctx
    box = {}

    def parse_dir(I, args, kwargs):
        if I.ctx.choose('load_fails'):
            raise unknown_raise()
        _, ents, _ = d = directory(I, 'loaded')
        box['ents'] = ents
        return attr(I, d[0], '_eqns')
    setup(I, dict(SETDEF, **{'EquationDirectory._parse_eqn_dir': parse_dir}))
    path = S('str', ctx.const('path', SS))
    kind, r = outcome(I, lambda: I.call(I.p.cls('EquationDirectory'),
                                        [path], {}))
    if kind == 'raise':
        ctx.prove('only loading fails', z3.BoolVal('ents' not in box))
        return
    ents = box['ents']
    no = z3.BoolVal(False)
    k, q = key(I, 'entry'), key(I, 'name')
    wd, wv = scoped(I, ents, no, lambda k: no, lambda k: NoneV)
    handed_on(I, ctx, ents, wd, wv, no, k, q,
              ('EquationGroup', 'EquationDirectory'))
    ds = attr(I, r, '_default_variables')
    ctx.prove('its own defaults are its variables', z3.And(
        dom(I, ds, q) == wd(q),
        z3.Implies(wd(q), copy_of(val(I, ds, q), wv(q)))))


def lemma(I):
    """Induction step over the depth: an entry that has the defaults T of the
    directories from its own up to some ancestor, and then gets P overridden
    by T from the next ancestor (whose variables are P), has P overridden by
    T.  And what a directory hands on, from what it was handed, is the
    override by its own variables."""
    ctx = I.ctx
    q = key(I, 'name')
    fs = {}
    for n in 'TPU':
        fs[n] = (F(n + '_dom', V, z3.BoolSort())(q), F(n + '_val', V, V)(q))

    def over(a, b):
        return (z3.Or(a[0], b[0]), z3.If(b[0], b[1], a[1]))

    def same(a, b):
        return z3.And(a[0] == b[0], z3.Implies(a[0], a[1] == b[1]))
    T, P, U = fs['T'], fs['P'], fs['U']
    ctx.prove('updating T with P overridden by T gives P overridden by T',
              same(over(T, over(P, T)), over(P, T)))
    ctx.prove('overriding is associative',
              same(over(over(P, T), U), over(P, over(T, U))))
    none = (z3.BoolVal(False), NoneV)
    ctx.prove('a new equation starts with no defaults',
              same(over(none, T), T))


# ------------------------------------------------------------ configuration
def opaque_entry(I, name, *classes):
    t = I.ctx.fresh(V, name)
    I.ctx.assume(has_cls(t, *classes))
    I.ctx.touch(t)
    return from_v(t)


ENTRY = ('Equation', 'EquationGroup', 'EquationDirectory')


def parse_nested(I, args, kwargs):
    """_parse_expression on something else: an entry or an error"""
    if I.ctx.choose('nested_fails'):
        raise unknown_raise()
    return opaque_entry(I, 'nested', *ENTRY)


def parse_equation(I, args, kwargs):
    if I.ctx.choose('equation_fails'):
        raise unknown_raise()
    return opaque_entry(I, 'combined', 'Equation')


def lookup(I, args, kwargs):
    if I.ctx.choose('unknown_key'):
        raise PyRaise(KeyError, ())
    if I.ctx.choose('other_error'):
        raise unknown_raise()
    return opaque_entry(I, 'found', *ENTRY)


def expression(I):
    ctx = I.ctx
    setup(I, dict(SETDEF, **EQN))
    I.contracts.update({
        'NrwalConfig._parse_equation': parse_equation,
        'EquationDirectory._getitem': lookup,
        'EquationDirectory.__getitem__': lookup,
        'AbstractGroup._getitem': lookup,
        'AbstractGroup.__getitem__': lookup})
    I.views[('write', '_base_name')] = lambda I, t, v: None
    I.views[('write', '_str')] = lambda I, t, v: None
    cls = I.p.cls('NrwalConfig')
    f = I.p.method('NrwalConfig', '_parse_expression')
    c, cd, cv = sym_dict(I, 'config', lambda k, v: z3.And(is_str(k), z3.Or(
        is_str(v), is_int(v), is_flt(v), has_cls(v, *ENTRY))))
    g, gd, gv = sym_dict(I, 'gvars', lambda k, v: is_str(k))
    e = ctx.const('expression', V)
    ctx.assume(z3.Or(is_str(e), is_int(e), is_flt(e), has_cls(e, *ENTRY)))
    d = directory(I, 'library')[0]
    n = ctx.const('name', V)
    ctx.assume(z3.Or(is_none(n), is_str(n)))
    ctx.cover('any expression')
    I.contracts['NrwalConfig._parse_expression'] = parse_nested
    kind, r = outcome(I, lambda: I.run_body(
        f, [cls, from_v(e), c, d, g, from_v(n)], {}))
    k, q = key(I, 'key'), key(I, 'constant')
    same_dict(I, ctx, 'the configuration is unchanged', c, cd, cv, k)
    if kind == 'raise':
        return
    wd = z3.And(gd(q), is_flt(gv(q)))
    r = I.force(r)
    if isinstance(r, Ref):
        ds = attr(I, r, '_default_variables')
        ctx.prove('the constants are defaults of the entry', z3.Implies(
            wd, z3.And(dom(I, ds, q), val(I, ds, q) == gv(q))))
        return
    t = I.tv(r)
    opts = []
    for params, cond, ev in flat_events(ctx.events, 'setdef'):
        if params:
            raise Unsupported('defaults set in a loop')
        dq, vq = event_at(I, ev, params, [], q)
        fo = ev['force']
        fo = z3.BoolVal(fo) if isinstance(fo, bool) else fo
        opts.append(z3.And(cond, ev['obj'] == t, dq == wd, z3.Implies(
            wd, vq == gv(q)), z3.Implies(
                has_cls(t, 'EquationDirectory'), fo)))
    ctx.prove('the constants are defaults of the entry, with precedence',
              z3.Or(*opts) if opts else z3.BoolVal(False))


def constants(I):
    """_parse_global_variables: the numbers among the entries."""
    ctx = I.ctx
    setup(I)
    c, cd, cv = sym_dict(I, 'config', lambda k, v: z3.Or(
        is_str(v), is_int(v), is_flt(v)))
    f = I.p.method('NrwalConfig', '_parse_global_variables')
    kind, r = outcome(I, lambda: I.call_func(f, [c], {}))
    k = key(I)
    same_dict(I, ctx, 'the configuration is unchanged', c, cd, cv, k)
    ctx.prove('no error', z3.BoolVal(kind == 'ok'))
    if kind != 'ok':
        return
    num = z3.Or(is_int(cv(k)), is_flt(cv(k)),
                z3.And(is_str(cv(k)), is_numeral(vs(cv(k)))))
    ctx.prove('the constants are exactly the numeric entries',
              dom(I, r, k) == z3.And(cd(k), num))
    x = cv(k)
    ctx.prove('a constant has the value of its entry', z3.Implies(
        z3.And(cd(k), num), val(I, r, k) == FltV(z3.If(
            is_int(x), z3.ToReal(vi(x)),
            z3.If(is_flt(x), vr(x), num_of(vs(x)))))))


def parse_config(I):
    """Every entry is parsed with the constants of the configuration."""
    ctx = I.ctx

    def parse(I, args, kwargs):
        I.ctx.events.append(('parse', {
            'vars': state_of(I, arg(args, kwargs, 4, 'gvars')),
            'expr': I.tv(arg(args, kwargs, 1, 'expression')),
            'name': I.tv(arg(args, kwargs, 5, 'name'))}))
        if I.ctx.choose('parse_fails'):
            raise unknown_raise()
        return opaque_entry(I, 'parsed', *ENTRY)
    setup(I, {'NrwalConfig._parse_expression': parse})
    c, cd, cv = sym_dict(I, 'config')
    g, gd, gv = sym_dict(I, 'gvars', lambda k, v: z3.And(is_str(k),
                                                         is_flt(v)))
    d = directory(I, 'library')[0]
    f = I.p.method('NrwalConfig', '_parse_config')
    kind, r = outcome(I, lambda: I.call_func(
        f, [I.p.cls('NrwalConfig'), c, d, g], {}))
    k, q = key(I), key(I, 'constant')
    same_dict(I, ctx, 'the constants are unchanged', g, gd, gv, q)
    if kind == 'raise':
        return
    opts = []
    for params, cond, ev in flat_events(ctx.events, 'parse'):
        if len(params) != 1:
            continue
        dq, vq = event_at(I, ev, params, [k], q)
        opts.append(instance(params, cond, [k]))
        ctx.prove('an entry is parsed with exactly the constants',
                  z3.Implies(z3.And(cd(k), opts[-1]), z3.And(
                      dq == gd(q), z3.Implies(gd(q), copy_of(vq, gv(q))))))
        ctx.prove('an entry is parsed under its own name',
                  z3.Implies(z3.And(cd(k), opts[-1]),
                             instance(params, ev['name'], [k]) == k))
    ctx.prove('every entry is parsed', z3.Implies(
        cd(k), z3.Or(*opts) if opts else z3.BoolVal(False)))


HARNESSES = [('directory', dir_defaults), ('group', group_defaults),
             ('new directory', dir_init), ('composition', lemma),
             ('_parse_expression', expression),
             ('_parse_global_variables', constants),
             ('_parse_config', parse_config),
             ('equation', set_defaults)]
