"""C15: a directory holds exactly its equation files and subdirectories."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (SS, TRUE, FLAGS, arg, dom, key, outcome,
                              names_flags, prove_exists, setup, sym_dict,
                              val)
from contracts.c08 import expansion
from pyvc.models import listed

FUNCTIONS = ['EquationDirectory.__init__', 'EquationDirectory._parse_eqn_dir',
             'AbstractGroup._parse_group', 'EquationGroup._parse_group',
             'VariableGroup._parse_group']
ASSUMED = ['the constructors of the entries are functions of the path and the '
           'options (the same contracts, one level down: induction over the '
           'depth of the tree)',
           'os.listdir, os.path, json and yaml as modelled']
ASSUMPTIONS = ['of two names with the same stem either may be kept',
               'EquationDirectory.set_default_variables as verified by C03']
BOUNDED_FOR = ['real directory trees, the values of their equations, the '
               'options in lookups']

EXTS = ('.json', '.yml', '.yaml')
KINDS = ('EquationDirectory', 'EquationGroup', 'VariableGroup')
BOOL4 = [z3.BoolSort()] * 4
made = {c: F('load_' + c, SS, *BOOL4, V) for c in KINDS}
loads = {c: F('loads_' + c, SS, *BOOL4, z3.BoolSort()) for c in KINDS}
join = F('path_join', SS, SS, SS)
isdir = F('path_isdir', SS, z3.BoolSort())
VARIABLES = z3.StringVal('variables')


def constructor(cname):
    """C(path, options): the object loaded from the path, or an error; a
    function of the path and of the options given."""
    def f(I, cls, args, kwargs):
        for n in kwargs:
            if n not in FLAGS:
                raise Unsupported('constructor argument ' + n)
        if len(args) != 1:
            raise Unsupported('positional options')
        p = I.kind(args[0], 'str')
        if p is None:
            raise Unsupported('path of ' + cname)
        fl = [as_bool(I, kwargs.get(n, False)) for n in FLAGS]
        if not I.ctx.branch(loads[cname](p, *fl)):
            raise unknown_raise()
        t = made[cname](p, *fl)
        I.ctx.define(has_cls(t, cname))
        I.ctx.touch(t)
        return S('v', t)
    return f


def as_bool(I, x):
    t = I.truth(x)
    return z3.BoolVal(t) if isinstance(t, bool) else t


def suffixed(n):
    return z3.Or(*[z3.SuffixOf(z3.StringVal(e), n) for e in EXTS])


def ignored(n):
    return z3.Or(z3.PrefixOf(z3.StringVal('.'), n),
                 z3.PrefixOf(z3.StringVal('__'), n))


def named(n, k):
    """n is k with one of the extensions"""
    return z3.And(is_str(k), z3.Or(*[
        n == z3.Concat(vs(k), z3.StringVal(e)) for e in EXTS]))


def is_vars(path, n):
    return z3.And(z3.Not(isdir(path)), z3.Or(*[
        n == z3.Concat(VARIABLES, z3.StringVal(e)) for e in EXTS]))


def is_group(path, n):
    return z3.And(z3.Not(isdir(path)), suffixed(n), z3.Not(ignored(n)),
                  z3.Not(is_vars(path, n)))


def is_sub(path, n):
    return z3.And(isdir(path), z3.Not(ignored(n)))


def load(I, d, fl):
    """EquationDirectory(d, options): the real constructor."""
    ctx = I.ctx
    ctx.light()
    setup(I)
    for c in KINDS:
        I.contracts[c + '.__new__'] = constructor(c)

    def defaults(I2, args, kwargs):
        I2.ctx.events.append(('setdef', {'obj': I2.tv(args[0])}))
    I.contracts['EquationDirectory.set_default_variables'] = defaults
    a, b = z3.Const('da', V), z3.Const('db', V)
    # entries of a loaded subdirectory: named (this contract, one level down)
    ctx.forall([a, b], z3.Implies(
        z3.And(has_cls(a, 'EquationDirectory'), grp_dom(a, b)),
        z3.And(is_str(b), vs(b) != z3.StringVal(''))))
    ctx.forall([a, b], z3.Implies(grp_dom(a, b), holds(a)))
    obj = I.new_obj(I.p.cls('EquationDirectory'), {})
    init = I.p.method('EquationDirectory', '__init__')
    kw = {n: S('bool', f) for n, f in zip(FLAGS, fl)}
    return (obj,) + outcome(I, lambda: I.run_body(
        init, [obj, S('str', d)], kw))


holds = F('holds_an_entry', V, z3.BoolSort())


def begin(I):
    d = I.ctx.const('directory', SS)
    return d, [I.ctx.const(n, z3.BoolSort()) for n in FLAGS]


def entries(I, obj):
    e = I.state(obj).attrs.get('_eqns')
    if not isinstance(e, Ref):
        raise Unsupported('entries of the directory')
    return e


def given(cname, ext):
    """One name of the listing, of one kind."""
    def h(I):
        ctx = I.ctx
        d, fl = begin(I)
        stem = ctx.const('stem', SS)
        n = z3.Concat(stem, z3.StringVal(ext)) if ext else stem
        name = StrV(n)
        path = join(d, n)
        ctx.touch(name)
        ctx.assume(listed(d, name))
        if cname == 'VariableGroup':
            ctx.assume(z3.And(z3.Not(isdir(path)), stem == VARIABLES))
        elif cname == 'EquationGroup':
            ctx.assume(z3.And(z3.Not(isdir(path)), z3.Not(ignored(n)),
                              stem != VARIABLES))
        else:
            ctx.assume(z3.And(isdir(path), z3.Not(ignored(n))))
            ctx.touch(made[cname](path, *fl))
            ctx.assume(grp_dom(made[cname](path, *fl), key(I, 'inner')))
        ctx.cover('a name')
        obj, kind, r = load(I, d, fl)
        if kind == 'raise':
            return
        ctx.prove('a {} that cannot be read fails the load'.format(cname),
                  loads[cname](path, *fl))
        ctx.prove('a {} has an entry'.format(cname), dom(
            I, entries(I, obj), StrV(stem)))
    return h


def whole(I):
    ctx = I.ctx
    d, fl = begin(I)
    k = key(I, 'entry')
    ctx.cover('a directory')
    obj, kind, r = load(I, d, fl)
    w = z3.Const('w', V)
    p = join(d, vs(w))
    cases = [(is_vars(p, vs(w)), 'VariableGroup', named(vs(w), k)),
             (is_group(p, vs(w)), 'EquationGroup', named(vs(w), k)),
             (is_sub(p, vs(w)), 'EquationDirectory', w == k)]
    if kind == 'raise':
        if getattr(r, 'unknown', False) and issubclass(r.cls, OSError):
            return                      # the directory cannot be listed
        prove_exists(I, ctx, 'the load fails only for a file that cannot be '
                     'read', [w], z3.And(listed(d, w), z3.Or(*[
                         z3.And(c, z3.Not(loads[kd](p, *fl)))
                         for c, kd, _ in cases])))
        return
    st = I.state(obj).attrs
    for n, f in zip(FLAGS, fl):
        ctx.prove('the option {} is kept'.format(n),
                  as_bool(I, st.get('_' + n)) == f)
    e = entries(I, obj)
    dk, vk = dom(I, e, k), val(I, e, k)
    alts = []
    for cond, kd, nm in cases:
        t = made[kd](p, *fl)
        alts.append(z3.And(cond, nm, vk == t, holds(t)
                           if kd == 'EquationDirectory' else TRUE))
    ctx.prove('the constants of the variables file are handed down',
              z3.BoolVal(any(x[0] == 'setdef' for x in ctx.events)))
    ctx.assume(dk)
    prove_exists(I, ctx, 'every entry is one of the files or subdirectories, '
                 'loaded from its own path with the given options', [w],
                 z3.And(listed(d, w), z3.Or(*alts)))
    ctx.prove('entries have names', z3.And(is_str(k),
                                           vs(k) != z3.StringVal('')))


def text(v):
    return z3.If(is_str(v), vs(v), str_of(v))


def group_file(ext):
    """AbstractGroup._parse_group(path): the mapping in the file, its keys
    as strings."""
    def h(I):
        ctx = I.ctx
        ctx.light()
        setup(I)
        stem = ctx.const('stem', SS)
        path = z3.Concat(stem, z3.StringVal(ext))
        if not ext:
            ctx.assume(z3.Not(suffixed(path)))
        t = F('file_json' if ext == '.json' else 'file_yaml', SS, V)(path)
        ctx.cover('a file')
        f = I.p.method('AbstractGroup', '_parse_group')
        kind, r = outcome(I, lambda: I.run_body(f, [S('str', path)], {}))
        if kind == 'raise':
            if not getattr(r, 'unknown', False):
                ctx.prove('refused only if it is no file with a mapping',
                          z3.Or(z3.Not(exists(path)), z3.BoolVal(not ext),
                                z3.Not(has_cls(t, 'dict'))))
            return
        if not isinstance(r, Ref):
            raise Unsupported('result of _parse_group')
        ctx.prove('only json and yaml files are read', z3.BoolVal(bool(ext)))
        ctx.prove('only an existing file is read', exists(path))
        ctx.prove('only a mapping is a group', has_cls(t, 'dict'))
        mapping(I, r, lambda q: dct_dom(t, q), lambda q: dct_val(t, q),
                lambda v, v0: v == v0)
    return h


def mapping(I, r, d, v, same):
    """Obligations: r has the entries of (d, v), named by the text of the
    keys."""
    ctx = I.ctx
    k, q = key(I, 'entry'), key(I, 'given')
    k0 = StrV(text(q))
    ctx.touch(k0)
    ctx.prove('every entry of the file is there', z3.Implies(
        d(q), dom(I, r, k0)))
    dk, vk = dom(I, r, k), val(I, r, k)
    ctx.touch(vk)
    ctx.assume(dk)
    w = z3.Const('w', V)
    prove_exists(I, ctx, 'every entry is one of the file', [w], z3.And(
        d(w), k == StrV(text(w)), same(vk, v(w))))


exists = F('path_exists', SS, z3.BoolSort())


def constants(I):
    """VariableGroup._parse_group"""
    ctx = I.ctx
    ctx.light()
    setup(I)
    g, gd, gv = sym_dict(I, 'file')
    obj = I.new_obj(I.p.cls('VariableGroup'), dict(
        names_flags(I, 'self'), _default_variables=I.new_dict()))
    f = I.p.method('VariableGroup', '_parse_group')
    ctx.cover('a file of constants')

    def number(v):
        return z3.Or(is_int(v), is_bool(v), is_flt(v))

    def as_float(v):
        return z3.If(is_int(v), FltV(z3.ToReal(vi(v))), z3.If(
            is_bool(v), FltV(z3.If(vb(v), z3.RealVal(1), z3.RealVal(0))), v))
    kind, r = outcome(I, lambda: I.run_body(f, [obj, g], {}))
    if kind == 'raise':
        w = z3.Const('w', V)
        prove_exists(I, ctx, 'refused only for a value or name that is not '
                     'allowed', [w], z3.And(gd(w), z3.Or(
                         z3.Not(number(gv(w))), is_numeral(text(w)))))
        return
    if not isinstance(r, Ref):
        raise Unsupported('result of _parse_group')
    mapping(I, r, gd, gv, lambda v, v0: z3.And(number(v0), v == as_float(v0)))
    ctx.prove('numbers as names are refused', z3.Not(is_numeral(
        vs(key(I, 'entry')))))


HARNESSES = [('a directory', whole),
             ('a subdirectory', given('EquationDirectory', '')),
             ('constants', constants), ('entries of a group', expansion)] + [
    ('a {} file{}'.format(x, e), given(c, e)) for x, c in (
        ('variables', 'VariableGroup'), ('group', 'EquationGroup'))
    for e in EXTS] + [
    ('contents of a file' + e, group_file(e)) for e in EXTS + ('',)]
