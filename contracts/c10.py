"""C10: merging groups and directories; a configuration's dictionary."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (EQN, FLAGS, SETDEF, SS, TRUE, arg, attr,
                              copy_of, directory, dom, event_at, flat_events,
                              group, instance, key, outcome, same_dict, setup,
                              sym_dict, val)
from contracts.c01 import set_defaults

FUNCTIONS = ['AbstractGroup.__add__', 'EquationDirectory.__add__',
             'AbstractGroup.set_default_variables',
             'EquationDirectory.set_default_variables',
             'Equation.set_default_variables',
             'NrwalConfig._load_config', 'NrwalConfig.__init__']
ASSUMED = ['set_default_variables of the entries (verified by C01 and C09)',
           'EquationGroup(path or dictionary), EquationDirectory(path): some '
           'new object (C08, C09, C15)',
           'NrwalConfig._parse_config, _check_circ_ref change no dictionary '
           'but the one they are given']
ASSUMPTIONS = ['copy.deepcopy: an equal copy that shares nothing with the '
               'original']
BOUNDED_FOR = ['what is reachable from the operands, after later changes of '
               'the result, end to end']


def new_group(I, cls, args, kwargs):
    """EquationGroup(...): a new group"""
    if I.ctx.choose('load_fails'):
        raise unknown_raise()
    o, e, d = group(I, 'loaded')
    I.ctx.named_refs['loaded'] = (o, e, d)
    return o


def new_dir(I, cls, args, kwargs):
    if I.ctx.choose('load_fails'):
        raise unknown_raise()
    o, e, d = directory(I, 'loaded')
    I.ctx.named_refs['loaded'] = (o, e, d)
    return o


def merge(cname):
    is_dir = cname == 'EquationDirectory'
    entries = '_eqns' if is_dir else '_group'
    make = directory if is_dir else group
    VARS = StrV(z3.StringVal('variables'))

    def h(I):
        ctx = I.ctx
        setup(I, dict(SETDEF, **{'EquationGroup.__new__': new_group,
                                 'EquationDirectory.__new__': new_dir}))
        a, (d1, v1), (dd1, dv1) = make(I, 'left')
        as_object = ctx.choose('other_is_object')
        given = None
        if as_object and ctx.choose('other_is_self'):
            b, e2, f2 = a, (d1, v1), (dd1, dv1)
            other = b
        elif as_object:
            b, e2, f2 = make(I, 'right')
            other = b
        elif is_dir or ctx.choose('path'):
            other = S('str', ctx.const('path', SS))
        else:
            given = sym_dict(I, 'given')
            other = given[0]
        ctx.cover('two operands')
        f = I.p.method(cname, '__add__')
        kind, r = outcome(I, lambda: I.call_func(f, [a, other], {}))
        k, q = key(I), key(I, 'name')
        same_dict(I, ctx, "the first operand's entries are unchanged",
                  attr(I, a, entries), d1, v1, k)
        same_dict(I, ctx, "the first operand's defaults are unchanged",
                  attr(I, a, '_default_variables'), dd1, dv1, k)
        if given:
            same_dict(I, ctx, 'the given dictionary is unchanged', *given, k)
        if as_object:
            (d2, v2), (dd2, dv2) = e2, f2
            same_dict(I, ctx, "the second operand's entries are unchanged",
                      attr(I, b, entries), d2, v2, k)
            same_dict(I, ctx, "the second operand's defaults are unchanged",
                      attr(I, b, '_default_variables'), dd2, dv2, k)
        evs = flat_events(ctx.events, 'setdef')
        for n, (params, cond, ev) in enumerate(evs):
            ws = [ctx.fresh(p.sort(), 'entry') for p in params]
            for w in ws:
                ctx.touch(w)
            ctx.prove('only copies get new defaults', z3.Implies(
                instance(params, cond, ws),
                is_copy(instance(params, ev['obj'], ws))))
        if kind == 'raise':
            ctx.prove('only loading the second operand can fail',
                      z3.BoolVal(not as_object))
            return
        if not as_object:
            b, (d2, v2), (dd2, dv2) = ctx.named_refs['loaded']
        ctx.prove('the result is a new object', z3.BoolVal(
            isinstance(r, Ref) and r != a and r != b
            and I.state(r).cls.name == cname))
        ents = attr(I, r, entries)
        dk, vk = dom(I, ents, k), val(I, ents, k)
        ctx.prove('the entries are the union', dk == z3.Or(d1(k), d2(k)))
        ctx.prove("the second's entry replaces the first's",
                  z3.Implies(d2(k), copy_of(vk, v2(k))))
        ctx.prove("the first's entry is kept otherwise",
                  z3.Implies(z3.And(d1(k), z3.Not(d2(k))),
                             copy_of(vk, v1(k))))
        ctx.prove('every entry of the result is a copy',
                  z3.Implies(dk, is_copy(vk)))
        ctx.prove('the result shares no dictionary', z3.BoolVal(
            len({ents.oid, attr(I, r, '_default_variables').oid,
                 attr(I, a, entries).oid, attr(I, b, entries).oid,
                 attr(I, a, '_default_variables').oid,
                 attr(I, b, '_default_variables').oid})
            == (4 if b == a else 6)))
        # defaults added to every entry
        if is_dir:
            hasv = dom(I, ents, VARS)
            own = val(I, ents, VARS)
            od = z3.And(hasv, grp_dom(own, q))
            wd = z3.Or(dd2(q), od)
            wv = z3.If(od, grp_val(own, q), dv2(q))
        else:
            wd, wv = dd2(q), dv2(q)
        opts = []
        for params, cond, ev in evs:
            if len(params) > 1:
                continue
            w = [k] * len(params)
            dq, vq = event_at(I, ev, params, w, q)
            opts.append(z3.And(
                instance(params, cond, w),
                instance(params, ev['obj'], w) == vk, dq == wd,
                z3.Implies(wd, copy_of(vq, wv))))
        ctx.prove("every entry gets the second's defaults", z3.Implies(
            z3.And(dk, z3.Not(has_cls(vk, 'VariableGroup'))),
            z3.Or(*opts) if opts else z3.BoolVal(False)))
        ds = attr(I, r, '_default_variables')
        dq, vq = dom(I, ds, q), val(I, ds, q)
        ctx.prove('the defaults of the result are those of both',
                  dq == z3.Or(dd1(q), wd))
        ctx.prove("the second's default is used where both exist",
                  z3.Implies(wd, copy_of(vq, wv)))
        ctx.prove('the other defaults are kept', z3.Implies(
            z3.And(dd1(q), z3.Not(wd)), copy_of(vq, dv1(q))))
        for fl in FLAGS:
            ctx.prove('the options of the first operand are kept',
                      I.tv(I.state(r).attrs['_' + fl])
                      == I.tv(I.state(a).attrs['_' + fl]))
    return h


def load(I):
    ctx = I.ctx
    setup(I)
    c, cd, cv = sym_dict(I, 'config')
    ctx.cover('any dictionary')
    f = I.p.method('NrwalConfig', '_load_config')
    kind, r = outcome(I, lambda: I.call_func(
        f, [I.p.cls('NrwalConfig'), c], {}))
    k = key(I)
    same_dict(I, ctx, 'the dictionary given is unchanged', c, cd, cv, k)
    if kind == 'raise':
        return
    new = r[0]
    ctx.prove('the configuration works on another dictionary', z3.BoolVal(
        isinstance(new, Ref) and new.oid != c.oid))
    vk = val(I, new, k)
    ctx.prove('its values are copies', z3.Implies(
        dom(I, new, k), z3.And(cd(k), copy_of(vk, cv(k)),
                               z3.Implies(is_obj(cv(k)), is_copy(vk)))))


def init(I):
    """NrwalConfig(dictionary): only the copy reaches anything that writes."""
    ctx = I.ctx

    def parse_config(I, args, kwargs):
        I.ctx.events.append(('writes', {'ref': arg(args, kwargs, 1,
                                                   'config')}))
        if I.ctx.choose('parse_fails'):
            raise unknown_raise()
        out, od, ov = sym_dict(I, 'parsed', lambda k, v: z3.And(
            is_str(k), has_cls(v, 'Equation', 'EquationGroup',
                               'EquationDirectory')))
        return out

    def check(I, args, kwargs):
        return None

    def evaluate(I, args, kwargs):
        return from_v(I.ctx.fresh(V, 'value'))

    def load_config(I, args, kwargs):
        """verified by the harness _load_config"""
        if I.ctx.choose('load_fails'):
            raise unknown_raise()
        I.ctx.events.append(('loads', {'ref': arg(args, kwargs, 1,
                                                  'config')}))
        return (sym_dict(I, 'loaded')[0],
                from_v(I.ctx.fresh(V, 'eqn_dir')))

    def new_directory(I, cls, args, kwargs):
        return directory(I, 'library')[0]
    setup(I, {'NrwalConfig._parse_config': parse_config,
              'NrwalConfig._check_circ_ref': check,
              'NrwalConfig._load_config': load_config,
              'Equation.eval': evaluate, 'Equation.evaluate': evaluate,
              'EquationDirectory.__new__': new_directory})
    c, cd, cv = sym_dict(I, 'config')
    kind, r = outcome(I, lambda: I.call(I.p.cls('NrwalConfig'), [c], {}))
    k = key(I)
    same_dict(I, ctx, 'the dictionary given is unchanged', c, cd, cv, k)
    for params, cond, ev in flat_events(ctx.events, 'writes'):
        ctx.prove('only a copy is parsed in place', z3.BoolVal(
            isinstance(ev['ref'], Ref) and ev['ref'].oid != c.oid))
    if kind == 'ok':
        ctx.prove('the object keeps no reference to the dictionary',
                  z3.BoolVal(all(x != c for x in
                                 I.state(r).attrs.values())))


HARNESSES = [('group', merge('EquationGroup')),
             ('directory', merge('EquationDirectory')),
             ('_load_config', load), ('config', init),
             ('equation', set_defaults)]
