"""C17: config pointers resolve to the referenced entry."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (SS, TRUE, dom, key, outcome, prove_exists,
                              same_dict, setup, sym_dict, val)

FUNCTIONS = ['NrwalConfig._load_config']
ASSUMED = ['_load_config of the file a pointer names gives that file\'s '
           'resolved entries or an error (the same contract, verified here: '
           'induction over the length of the chain of pointers)']
ASSUMPTIONS = ['a chain of pointers is finite',
               'entries that are lists or mappings have no file ending in '
               'their text (such an entry is refused, bounded)']
BOUNDED_FOR = ['whole configurations behave as if the value had been written '
               'in place; lists and mappings that contain file names']
MARKS = ('.json', '.yaml', '.yml')
FORBID = ('*', '+', '(', ')')
SEP = z3.StringVal('::')

loaded = F('loaded_config', SS, V)      # resolved entries of a file
loads = F('load_succeeds', SS, z3.BoolSort())
exists = F('path_exists', SS, z3.BoolSort())
join = F('path_join', SS, SS, SS)
dirname = F('path_dirname', SS, SS)
abspath = F('path_abspath', SS, SS)
EQ_DIR = StrV(z3.StringVal('equation_directory'))


def nested(I, args, kwargs):
    """_load_config(path) -> (resolved entries, directory), or an error"""
    p = I.kind(args[1], 'str')
    if p is None:
        raise Unsupported('pointer path')
    if not I.ctx.branch(loads(p)):
        raise unknown_raise()
    t = loaded(p)
    I.ctx.define(has_cls(t, 'dict'))
    I.ctx.touch(t)
    return (S('v', t), from_v(I.ctx.fresh(V, 'eqn_dir')))


def text(v):
    return z3.If(is_str(v), vs(v), str_of(v))


def pointer(v):
    return z3.Or(*[z3.Contains(text(v), z3.StringVal(m)) for m in MARKS])


# text.partition('::') and text.count('::'), in the terms of the models
p_head = F('py_partition_head_3a3a', SS, SS)
p_tail = F('py_partition_tail_3a3a', SS, SS)
p_count = F('py_count', SS, SS, z3.IntSort())


def head(v):
    return p_head(vs(v))


def tail(v):
    return p_tail(vs(v))


def target(path, v):
    return join(dirname(abspath(path)), head(v))


def well_formed(v):
    """one '::', no operator or bracket"""
    return z3.And(is_str(v), p_count(vs(v), SEP) == 1,
                  *[z3.Not(z3.Contains(vs(v), z3.StringVal(x)))
                    for x in FORBID])


def resolves(path, v):
    p = target(path, v)
    return z3.And(well_formed(v), exists(p), loads(p),
                  dct_dom(loaded(p), StrV(tail(v))))


def plain(k, v):
    # (the copy of a list or mapping has the same text)
    return z3.And(is_str(k), z3.Implies(is_obj(v), z3.And(
        has_cls(v, 'list', 'dict'), z3.Not(pointer(v)),
        str_of(dcopy(v)) == str_of(v))),
                  z3.Implies(z3.Not(is_str(v)), z3.Not(pointer(v))))


def call(I, x):
    setup(I)
    f = I.p.method('NrwalConfig', '_load_config')
    orig = {}

    def rec(I2, args, kwargs):
        if not orig.get('entered'):
            orig['entered'] = True
            return I2.run_body(f, args, kwargs)
        return nested(I2, args, kwargs)
    I.contracts['NrwalConfig._load_config'] = rec
    return outcome(I, lambda: I.call(I.getattr(I.p.cls('NrwalConfig'),
                                               '_load_config'), [x], {}))


def result(I, r):
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Ref)):
        raise Unsupported('result of _load_config')
    return r


def from_file(I):
    ctx = I.ctx
    ctx.light()
    path = ctx.const('path', SS)
    ext = 'json' if ctx.choose('json') else \
        ('yml' if ctx.choose('yml') else 'yaml')
    for x in ('json', 'yml', 'yaml'):
        # (a text ends in at most one of them)
        ends = z3.SuffixOf(z3.StringVal('.' + x), path)
        ctx.assume(ends if x == ext else z3.Not(ends))
    t = F('file_json' if ext == 'json' else 'file_yaml', SS, V)(path)
    q = z3.Const('fk', V)
    ctx.forall([q], z3.Implies(z3.And(has_cls(t, 'dict'), dct_dom(t, q)),
                               plain(q, dct_val(t, q))))
    ctx.cover('a file')
    kind, r = call(I, S('str', path))
    k = key(I, 'entry')
    fd = z3.And(dct_dom(t, k), k != EQ_DIR)
    v = dct_val(t, k)
    if kind == 'raise':
        # an unreadable file, or a bad pointer
        e = r
        if getattr(e, 'unknown', False) and not ctx.entails(
                has_cls(t, 'dict')):
            return          # opening or parsing failed
        w = z3.Const('bad', V)
        wv = dct_val(t, w)
        prove_exists(I, ctx, 'refused only for a bad file or pointer', [w],
                     z3.Or(z3.Not(exists(path)),
                           z3.Not(has_cls(t, 'dict')),
                           z3.And(dct_dom(t, w), w != EQ_DIR, pointer(wv),
                                  z3.Not(resolves(path, wv)))))
        return
    res, eqn_dir = result(I, r)
    ctx.prove('only an existing file is loaded', exists(path))
    dk, vk = dom(I, res, k), val(I, res, k)
    ctx.prove('exactly the entries of the file', dk == fd)
    ctx.prove('an entry that is no pointer is unchanged', z3.Implies(
        z3.And(fd, z3.Not(pointer(v)), z3.Not(is_obj(v))), vk == v))
    ctx.prove('a pointer is well formed and resolves', z3.Implies(
        z3.And(fd, pointer(v)), resolves(path, v)))
    ctx.prove('a pointer takes the value of the key in the file it names',
              z3.Implies(z3.And(fd, pointer(v)), vk == dct_val(
                  loaded(target(path, v)), StrV(tail(v)))))
    ctx.prove('the equation directory of the file is used', z3.Implies(
        z3.And(dct_dom(t, EQ_DIR), z3.Not(is_obj(dct_val(t, EQ_DIR)))),
        I.tv(eqn_dir) == dct_val(t, EQ_DIR)))


def from_dict(I):
    ctx = I.ctx
    c, cd, cv = sym_dict(I, 'given', plain)
    k = key(I, 'entry')
    ctx.cover('a dictionary')
    kind, r = call(I, c)
    v = cv(k)
    same_dict(I, ctx, 'the given dictionary is unchanged', c, cd, cv, k)
    if kind == 'raise':
        w = z3.Const('bad', V)
        prove_exists(I, ctx, 'a dictionary is refused only for a pointer',
                     [w], z3.And(cd(w), w != EQ_DIR, pointer(cv(w))))
        return
    ctx.prove('a pointer in a dictionary is refused', z3.Implies(
        z3.And(cd(k), k != EQ_DIR), z3.Not(pointer(v))))
    res, eqn_dir = result(I, r)
    dk, vk = dom(I, res, k), val(I, res, k)
    ctx.prove('exactly the entries given', dk == z3.And(cd(k), k != EQ_DIR))
    ctx.prove('the entries are unchanged', z3.Implies(
        z3.And(dk, z3.Not(is_obj(v))), vk == v))
    ctx.prove('the result is another dictionary', z3.BoolVal(res.oid
                                                             != c.oid))


HARNESSES = [('from a file', from_file), ('from a dictionary', from_dict)]
