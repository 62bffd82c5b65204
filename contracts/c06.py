"""C06: path lookup returns exactly the named entry or fails."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (SS, EQN, FLAGS, TRUE, arg, directory, group,
                              outcome, setup, text_of)
from pyvc.interp import SeqState, assigned_names, target_names
from pyvc.values import Brk, Cont, Poison, sint

FUNCTIONS = ['AbstractGroup._getitem', 'AbstractGroup.__getitem__',
             'AbstractGroup._get_nn_eqns_values', 'AbstractGroup.get',
             'AbstractGroup.__contains__', 'AbstractGroup.keys',
             'EquationDirectory._getitem', 'EquationDirectory.__getitem__',
             'EquationDirectory.get', 'EquationDirectory.__contains__',
             'EquationDirectory.keys']
ASSUMED = [
    'text.split("::"): at least one component, one if and only if "::" does '
    'not occur; a component has no "::" and no character the text does not '
    'have',
    'os.path.splitext (terms of its root and extension)',
    'Equation(text) for a number (verified by C02)',
    '__getitem__ of a contained group or directory for one component (the '
    'same contract, verified here for paths of one component: induction over '
    'the depth of the tree)']
ASSUMPTIONS = [
    'entries of a group are equations, groups or numbers, those of a '
    'directory are groups or directories (class invariant; C08, C13)',
    'no nearest or interpolation option is on (C07 has these)']
BOUNDED_FOR = ['how the components are split off; files on disk; keys with '
               'operators (C04)']
Int, B = z3.IntSort(), z3.BoolSort()
OPS = ('+', '-', '*', '/', '^')
EXTS = ('.json', '.yml', '.yaml')
SEP = z3.StringVal('::')

n_comp = F('py_split_n_3a3a', SS, Int)
comp_at = F('py_split_3a3a', SS, Int, SS)
root = F('path_root', SS, SS)
walk = F('object_after', Int, V)         # after so many components
konst = F('constant_equation', SS, V)    # Equation(text of a number)
CONTAINERS = ('EquationGroup', 'VariableGroup', 'EquationDirectory')


def stem(c):
    """A component without its file extension."""
    return z3.If(z3.Or(*[z3.SuffixOf(z3.StringVal(e), c) for e in EXTS]),
                 root(c), c)


def number_step(t, c):
    return z3.And(z3.Not(grp_dom(t, StrV(c))), is_numeral(c))


def found(t, c):
    """Component c exists in container t."""
    k = z3.If(has_cls(t, 'EquationDirectory'), stem(c), c)
    return z3.And(has_cls(t, *CONTAINERS), grp_dom(t, StrV(k)))


def entry(t, c):
    k = z3.If(has_cls(t, 'EquationDirectory'), stem(c), c)
    return grp_val(t, StrV(k))


def piece(I, i):
    """Facts about component i."""
    t = I.path
    c = comp_at(t, i)
    plain(I, c)
    return c


def plain(I, c):
    """A text without delimiter and operators; so is its stem."""
    for x in (c, root(c), root(root(c))):
        for o in (SEP,) + tuple(z3.StringVal(o) for o in OPS):
            I.ctx.define(z3.Not(z3.Contains(x, o)))


class Tree:
    """What the path means for the object under verification."""

    def __init__(self, I, cls, ed, ev):
        self.dir = cls == 'EquationDirectory'
        self.ed, self.ev = ed, ev

    def comp(self, c):
        return stem(c) if self.dir else c

    def exists(self, i, c):
        """Component c exists at position i (c as looked up)."""
        w = walk(i)
        deep = found(w, c)
        if self.dir:
            deep = z3.Or(deep, z3.And(has_cls(w, *CONTAINERS),
                                      number_step(w, c)))
        return z3.If(i == 0, self.ed(StrV(c)), deep)

    def step(self, i, c):
        """The object after component c at position i."""
        w = walk(i)
        deep = entry(w, c)
        if self.dir:
            deep = z3.If(number_step(w, c), konst(c), deep)
        return z3.If(i == 0, self.ev(StrV(c)), deep)

    def reached(self, I, i, c, value):
        """Component c at position i led to the value."""
        I.ctx.prove('a component that exists', self.exists(i, c))
        I.ctx.prove('one level per component, the entry of that name',
                    I.tv(value) == self.step(i, c))

    def missing(self, I, i, c):
        """Component c at position i led to an error."""
        I.ctx.prove('an error means that a component does not exist',
                    z3.Not(self.exists(i, c)))


def one(I, args, kwargs, f):
    """x[component] of a contained object."""
    obj = I.force(args[0])
    if isinstance(obj, Ref):
        return I.run_body(f, args, kwargs)
    c = I.kind(arg(args, kwargs, 1, 'key'), 'str')
    if c is None:
        raise Unsupported('component')
    I.ctx.prove('one component at a time', z3.And(
        z3.Not(z3.Contains(c, SEP)),
        *[z3.Not(z3.Contains(c, z3.StringVal(o))) for o in OPS]))
    t = obj.t
    if I.ctx.branch(number_step(t, c)):
        k = konst(c)
        I.ctx.define(z3.And(has_cls(k, 'Equation'), eqn_text(k) == c))
        return S('v', k)
    if not I.ctx.branch(found(t, c)):
        raise PyRaise(KeyError, ())
    return I.fv(entry(t, c))


def contract(cls, name):
    def f(I, args, kwargs):
        return one(I, args, kwargs, I.p.method(cls, name))
    return f


CONTRACTS = {c + '.' + n: contract(c, n)
             for c in ('AbstractGroup', 'EquationDirectory')
             for n in ('__getitem__', '_getitem')}


def valid(t, in_dir):
    """Class invariant: what a group or directory can contain."""
    return z3.Or(has_cls(t, 'Equation', *(CONTAINERS if in_dir else
                                          CONTAINERS[:2])), is_flt(t))


def descend(I, node, frame, it):
    """The loop over the components.  Invariant: before component i exactly
    one local holds the object the first i components lead to, and all of
    them exist."""
    ctx, tree = I.ctx, I.tree
    if not (isinstance(it, Ref) and isinstance(I.state(it), SeqState)):
        return False
    st = I.state(it)
    if not ctx.entails(st.n == n_comp(I.path)):
        raise Unsupported('a loop over something else')
    names = assigned_names(node.body)
    hold = [x for x in sorted(names) if isinstance(frame.vars.get(x), Ref)
            and frame.vars[x] == I.root]
    ctx.prove('the walk starts at the entries of the object',
              z3.BoolVal(len(hold) == 1))
    if len(hold) != 1:
        raise Unsupported('local that holds the object')
    hold = hold[0]
    n = st.n
    if ctx.choose('all components'):
        i = n
    elif ctx.choose('first component'):
        i = z3.IntVal(0)
    else:
        i = ctx.fresh(Int, 'position')
        ctx.assume(z3.And(i >= 1, i < n))
    for x in names | target_names(node.target):
        if x != hold:
            frame.vars[x] = Poison(x)
    if not z3.is_int_value(i):
        ctx.assume(valid(walk(i), tree.dir))
        frame.vars[hold] = I.fv(walk(i))
    if i is n:
        I.block(node.orelse, frame)
        return True
    I.at = i
    raw = piece(I, i)
    before = dict(ctx.heap)
    I.assign(node.target, st.elem(i), frame)
    try:
        I.block(node.body, frame)
    except Cont:
        pass
    except Brk:
        raise Unsupported('the walk is left by break')
    for m, s in before.items():
        ctx.prove('nothing is changed by a lookup',
                  z3.BoolVal(ctx.heap.get(m) is s))
    tree.reached(I, i, tree.comp(raw), frame.vars[hold])
    raise Infeasible()


def lookup(cls, how='__getitem__', kind_of=Tree, prepare=None):
    def h(I):
        ctx = I.ctx
        setup(I, EQN)
        ctx.light(1000)
        I.contracts.update(CONTRACTS)
        I.lazy_seqs = True
        I.loop_rules['for'] = descend
        if cls == 'EquationDirectory':
            obj, (ed, ev), _ = directory(I, 'dir')
            I.root = I.state(obj).attrs['_eqns']
        else:
            obj, (ed, ev), _ = group(I, 'grp', cls)
            I.root = I.state(obj).attrs['_group']
        if prepare is None:
            for f in FLAGS:
                ctx.assume(z3.Not(I.state(obj).attrs['_' + f].t))
        p = ctx.const('path', SS)
        I.path, I.at = p, z3.IntVal(0)
        I.tree = tree = kind_of(I, cls, ed, ev)
        ctx.assume(z3.And(*[z3.Not(z3.Contains(p, z3.StringVal(o)))
                            for o in OPS]))
        ctx.define(z3.Implies(is_numeral(p), z3.And(
            z3.Not(z3.Contains(p, SEP)), ok_text(p))))
        no_var = z3.Const('any_variable', V)
        ctx.forall([no_var], z3.Implies(is_numeral(p),
                                        z3.Not(vars_of(p, no_var))))
        if prepare is not None:
            prepare(I, obj)
        ctx.cover('any path')
        before = dict(ctx.heap)
        kind, r = outcome(I, lambda: I.run_body(
            I.p.method(cls, how), [obj, S('str', p)], {}))
        for m, s in before.items():
            ctx.prove('nothing is changed by a lookup',
                      z3.BoolVal(ctx.heap.get(m) is s))
        single = z3.Not(z3.Contains(p, SEP))
        number = z3.And(z3.Not(ed(StrV(p))), is_numeral(p))
        ctx.touch(StrV(p))
        if kind == 'raise':
            ctx.prove('an error is a KeyError',
                      z3.BoolVal(issubclass(r.cls, KeyError)))
            ctx.prove('a number is no error', z3.Not(number))
            i = I.at
            c = z3.If(single, p, comp_at(p, i))
            ctx.cover('a component may be missing')
            tree.missing(I, i, tree.comp(c))
            return
        if ctx.branch(number):
            ctx.cover('a number')
            ctx.prove('a number that names no entry is a constant',
                      text_of(I, r) == p)
            return
        if ctx.branch(single):
            ctx.cover('one component')
            tree.reached(I, z3.IntVal(0), tree.comp(p), r)
            return
        ctx.cover('several components')
        ctx.prove('the object at the end of the path',
                  I.tv(r) == walk(n_comp(p)))
    return h


def fallback(cls):
    def h(I):
        ctx = I.ctx
        setup(I)
        d = ctx.const('fallback', V)
        v = ctx.const('stored', V)
        k = ctx.const('path', SS)
        obj = (directory if cls == 'EquationDirectory' else group)(
            I, 'obj')[0]
        what = {}

        def c_item(I, args, kwargs):
            ctx.prove('the path that was asked for', z3.BoolVal(
                args[0] == obj) if I.kind(args[1], 'str') is None else
                z3.And(z3.BoolVal(args[0] == obj),
                       I.kind(args[1], 'str') == k))
            if ctx.choose('found'):
                what['r'] = 'ok'
                return from_v(v)
            if ctx.choose('missing'):
                what['r'] = 'missing'
                raise PyRaise(KeyError, ())
            what['r'] = 'other'
            raise PyRaise(RuntimeError, ())
        for c in ('AbstractGroup', 'EquationDirectory'):
            for n in ('__getitem__', '_getitem'):
                I.contracts[c + '.' + n] = c_item
        ctx.cover('a lookup with a fallback')
        kind, r = outcome(I, lambda: I.run_body(
            I.p.method(cls, 'get'), [obj, S('str', k), from_v(d)], {}))
        w = what.get('r')
        ctx.prove('the path is looked up', z3.BoolVal(w is not None))
        if w == 'ok':
            ctx.prove('the stored object', I.tv(r) == v if kind == 'ok'
                      else z3.BoolVal(False))
        elif w == 'missing':
            ctx.prove('the fallback if it is missing', I.tv(r) == d
                      if kind == 'ok' else z3.BoolVal(False))
        elif w == 'other':
            ctx.prove('the fallback for a key error only',
                      z3.BoolVal(kind == 'raise'))
    return h


HARNESSES = [
    ('EquationGroup lookup', lookup('EquationGroup')),
    ('VariableGroup lookup', lookup('VariableGroup')),
    ('EquationDirectory lookup', lookup('EquationDirectory')),
    ('group fallback', fallback('EquationGroup')),
    ('directory fallback', fallback('EquationDirectory'))]
