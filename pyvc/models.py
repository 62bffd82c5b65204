"""Models of builtins, string / dict / list methods and of the library
functions the repository calls.  Everything in this file is part of the
trusted base; `used` names what a run relied on."""
import ast
import os
import re

import z3

from pyvc.values import *          # noqa: F401,F403
from pyvc.values import (V, S, Ref, Part, ListState, DictState, ObjState,
                         ClassVal, FuncVal, Bound, BMethod, Ext, Native,
                         DView, GlobalsVal, TypeOf, ExcVal, Opaque, Poison,
                         Unsupported, PyRaise, from_v, sbool, sint, sstr,
                         has_cls)
from pyvc import vectors
from pyvc.interp import SeqState, BoxState, EXC, subst, concat, Frame

TT = z3.BoolVal(True)
SS = z3.StringSort()


def used(I, name):
    I.ctx.report.models_used.add(name)


def unknown_raise(base=Exception):
    e = PyRaise(base, ())
    e.unknown = True
    return e


# ================================================================ operators
OPNAMES = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__',
           ast.Div: '__truediv__', ast.Pow: '__pow__', ast.Mod: '__mod__',
           ast.FloorDiv: '__floordiv__', ast.BitOr: '__or__',
           ast.BitAnd: '__and__'}


def binop(I, op, a, b):
    ty = type(op)
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num) \
            and not isinstance(a, bool) and not isinstance(b, bool):
        try:
            return _py_binop(ty, a, b)
        except ZeroDivisionError:
            raise PyRaise(ZeroDivisionError, ())
    if isinstance(a, str) and isinstance(b, str) and ty is ast.Add:
        return a + b
    if isinstance(a, str) and isinstance(b, int) and ty is ast.Mult:
        return a * b
    if isinstance(a, tuple) and isinstance(b, tuple) and ty is ast.Add:
        return a + b
    v = vectors.binop(I, ty, a, b)
    if v is not None:
        return v
    # repository objects with operator methods
    for x, y in ((a, b),):
        m = _method(I, x, OPNAMES.get(ty))
        if m is not None:
            return I.call(m, [y], {})
    if _is_repo_obj(I, b) and not _is_repo_obj(I, a):
        raise PyRaise(TypeError, ('unsupported operand',))
    if ty in (ast.BitOr, ast.BitAnd) :
        ta, tb = I.truth(a), I.truth(b)
        if _boolish(a) and _boolish(b):
            ta = z3.BoolVal(ta) if isinstance(ta, bool) else ta
            tb = z3.BoolVal(tb) if isinstance(tb, bool) else tb
            return sbool((z3.Or if ty is ast.BitOr else z3.And)(ta, tb))
    if ty is ast.Add:
        sa, sb = I.kind(a, 'str'), I.kind(b, 'str')
        if sa is not None and sb is not None:
            return sstr(z3.Concat(sa, sb))
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = I.state(a), I.state(b)
            if isinstance(x, ListState) and isinstance(y, ListState):
                return I.new(ListState(x.parts + y.parts, x.kind))
    if ty is ast.Mod and isinstance(a, str):
        return sstr(I.ctx.fresh(SS, 'fmt'))
    ia, ib = I.kind(a, 'int'), I.kind(b, 'int')
    if ia is not None and ib is not None and ty in (ast.Add, ast.Sub,
                                                    ast.Mult):
        return sint({ast.Add: ia + ib, ast.Sub: ia - ib,
                     ast.Mult: ia * ib}[ty])
    ra, rb = I.kind(a, 'real'), I.kind(b, 'real')
    if ra is not None and rb is not None:
        if ty is ast.Div:
            if I.ctx.branch(rb == 0):
                raise PyRaise(ZeroDivisionError, ())
            return S('real', ra / rb)
        if ty in (ast.Add, ast.Sub, ast.Mult):
            return S('real', {ast.Add: ra + rb, ast.Sub: ra - rb,
                              ast.Mult: ra * rb}[ty])
    raise Unsupported('operator {} on {!r}, {!r}'.format(ty.__name__, a, b))


def _boolish(x):
    return isinstance(x, bool) or (isinstance(x, S) and x.kind == 'bool')


def _py_binop(ty, a, b):
    import operator as o
    return {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul,
            ast.Div: o.truediv, ast.Pow: o.pow, ast.Mod: o.mod,
            ast.FloorDiv: o.floordiv, ast.BitOr: o.or_,
            ast.BitAnd: o.and_}[ty](a, b)


def _is_repo_obj(I, x):
    if isinstance(x, Ref):
        return isinstance(I.state(x), ObjState)
    if isinstance(x, S) and x.kind == 'v':
        return I.ctx.entails(has_cls(x.t, *I.REPO_CLASSES))
    return False


def _method(I, x, name):
    if name is None:
        return None
    if isinstance(x, Ref):
        st = I.state(x)
        if isinstance(st, ObjState):
            f, _ = st.cls.lookup(name)
            if f is None:
                raise PyRaise(TypeError, ('unsupported operand',))
            return Bound(f, x)
    if isinstance(x, S) and x.kind == 'v':
        if I.ctx.entails(z3.Not(has_cls(x.t, *I.REPO_CLASSES))):
            return None
        c = I.opaque_class(x.t)
        if c is not None:
            f, _ = c.lookup(name)
            if f is None:
                raise PyRaise(TypeError, ('unsupported operand',))
            return Bound(f, x)
    return None


# =============================================================== comparison
def compare(I, op, a, b):
    a, b = I.force(a), I.force(b)
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = identical(I, a, b)
        if isinstance(op, ast.IsNot):
            r = (not r) if isinstance(r, bool) else sbool(z3.Not(r.t))
        return r
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(I, b, a)
        if isinstance(op, ast.NotIn):
            if isinstance(r, bool):
                return not r
            return sbool(z3.Not(r.t))
        return r
    if isinstance(op, (ast.Eq, ast.NotEq)):
        r = equal(I, a, b)
        if isinstance(op, ast.NotEq):
            return (not r) if isinstance(r, bool) else sbool(z3.Not(r.t))
        return r
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                ast.GtE: a >= b}[type(op)]
    if isinstance(a, str) and isinstance(b, str):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                ast.GtE: a >= b}[type(op)]
    for k in ('int', 'real'):
        x, y = I.kind(a, k), I.kind(b, k)
        if x is not None and y is not None:
            return sbool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y,
                          ast.GtE: x >= y}[type(op)])
    raise Unsupported('comparison of {!r} and {!r}'.format(a, b))


def identical(I, a, b):
    if a is None or b is None:
        other = b if a is None else a
        if other is None:
            return True
        if isinstance(other, S) and other.kind == 'v':
            return sbool(is_none(other.t))
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        x, y = (a, b) if isinstance(a, bool) else (b, a)
        if isinstance(y, bool):
            return x is y
        if isinstance(y, S) and y.kind == 'bool':
            return sbool(y.t == z3.BoolVal(x))
        if isinstance(y, S) and y.kind == 'v':
            return sbool(y.t == BoolV(z3.BoolVal(x)))
        return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.oid == b.oid
    if isinstance(a, (ClassVal, Ext)) or isinstance(b, (ClassVal, Ext)):
        return a is b or (isinstance(a, Ext) and a == b)
    raise Unsupported('identity of {!r} and {!r}'.format(a, b))


def is_number(t):
    return z3.Or(is_int(t), is_flt(t), is_bool(t))


def as_number(t):
    return z3.If(is_int(t), z3.ToReal(vi(t)), z3.If(
        is_flt(t), vr(t), z3.If(vb(t), z3.RealVal(1), z3.RealVal(0))))


def equal(I, a, b):
    simple = (bool, int, float, str)
    if (a is None or isinstance(a, simple)) and (b is None
                                                 or isinstance(b, simple)):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        rs = [equal(I, x, y) for x, y in zip(a, b)]
        if any(r is False for r in rs):
            return False
        ts = [r.t for r in rs if isinstance(r, S)]
        return sbool(z3.And(*ts)) if ts else True
    if isinstance(a, tuple) or isinstance(b, tuple):
        if isinstance(a, (S,)) or isinstance(b, S):
            return False if not (isinstance(a, S) and a.kind == 'v' or
                                 isinstance(b, S) and b.kind == 'v') \
                else _unk(I)
        return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.oid == b.oid:
            return True
        x, y = I.state(a), I.state(b)
        if isinstance(x, ObjState) and isinstance(y, ObjState):
            for st in (x, y):
                if isinstance(st.cls, ClassVal) and st.cls.lookup(
                        '__eq__') is not None:
                    raise Unsupported('__eq__')
            return False
        if isinstance(x, ListState) and isinstance(y, ListState) \
                and x.concrete() and y.concrete():
            return equal(I, tuple(x.items()), tuple(y.items()))
        raise Unsupported('equality of containers')
    if isinstance(a, S) or isinstance(b, S):
        x, y = (a, b) if isinstance(a, S) else (b, a)
        if y is None:
            return sbool(I.tv(x) == NoneV)
        if isinstance(y, str) or (isinstance(y, S) and y.kind == 'str'):
            if x.kind in ('str', 'v'):
                return sbool(I.tv(x) == I.tv(y))
            return False
        if x.kind == 'str' and isinstance(y, S) and y.kind == 'v':
            return sbool(I.tv(x) == I.tv(y))
        if x.kind == 'bool' and isinstance(y, bool):
            return sbool(x.t == y)
        if x.kind in ('int', 'real', 'bool') and (
                isinstance(y, (int, float))
                or (isinstance(y, S) and y.kind in ('int', 'real', 'bool'))):
            p, q = I.kind(x, 'int'), I.kind(y, 'int')
            if p is None or q is None:
                p, q = I.kind(x, 'real'), I.kind(y, 'real')
            if p is not None and q is not None:
                return sbool(p == q)
        if isinstance(y, S) and x.kind == 'v' and y.kind == 'v':
            if x.t.eq(y.t):
                return True
            if I.ctx.entails(z3.Or(is_str(x.t), is_str(y.t),
                                   is_none(x.t), is_none(y.t))):
                return sbool(x.t == y.t)
            if I.ctx.entails(z3.Not(z3.Or(is_obj(x.t), is_obj(y.t)))):
                return sbool(z3.Or(x.t == y.t, z3.And(
                    is_number(x.t), is_number(y.t),
                    as_number(x.t) == as_number(y.t))))
            return _unk(I)
        if x.kind == 'v' and isinstance(y, (int, float)):
            t = x.t
            r = z3.RealVal(repr(float(y)))
            return sbool(z3.Or(z3.And(is_int(t), z3.ToReal(vi(t)) == r),
                               z3.And(is_flt(t), vr(t) == r),
                               z3.And(is_bool(t), z3.If(vb(t), z3.RealVal(1), z3.RealVal(0))
                                      == r),
                               z3.And(is_obj(t), I.ctx.fresh(
                                   z3.BoolSort(), 'objeq'))))
        if isinstance(y, Ref):
            return False if x.kind != 'v' else _unk(I)
        if y is None or isinstance(y, (bool, int, float, str, S)):
            p, q = I.tv(x), I.tv(y)
            if I.ctx.entails(z3.Not(z3.Or(is_obj(p), is_obj(q)))):
                return sbool(z3.Or(p == q, z3.And(
                    is_number(p), is_number(q),
                    as_number(p) == as_number(q))))
        return _unk(I)
    if isinstance(a, Ref) or isinstance(b, Ref):
        return False
    if isinstance(a, (Ext, ClassVal)) or isinstance(b, (Ext, ClassVal)):
        return a is b or a == b
    raise Unsupported('equality of {!r} and {!r}'.format(a, b))


def _unk(I):
    return S('bool', I.ctx.fresh(z3.BoolSort(), 'eq'))


def member(I, parts, x):
    """x in a collection given by parts: bool or S(bool)"""
    t = []
    rest = []
    xv = None
    for p in parts:
        if not p.params:
            e = equal(I, p.elem, x)
            e = z3.BoolVal(e) if isinstance(e, bool) else e.t
            t.append(z3.And(p.guard, e))
            continue
        if xv is None:
            xv = I.tv(x)
        ev = I.tv(p.elem)
        if len(p.params) == 1 and z3.simplify(ev).eq(p.params[0]):
            t.append(z3.substitute(p.guard, (p.params[0], xv)))
        else:
            rest.append(p)
    if xv is not None:
        I.ctx.touch(xv)
    now = z3.simplify(z3.Or(*t)) if t else z3.BoolVal(False)
    if z3.is_true(now):
        return True
    if rest:
        if not z3.is_false(now) and I.ctx.branch(now):
            return True

        def pred(e):
            r = equal(I, e, x)
            return z3.BoolVal(r) if isinstance(r, bool) else r.t
        return I.ctx.exists(rest, pred, 'member')
    return sbool(now)


def contains(I, c, x):
    """x in c"""
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    sc = I.kind(c, 'str')
    if sc is not None:
        sx = I.kind(x, 'str')
        if sx is None:
            if isinstance(x, S) and x.kind == 'v':
                if not I.ctx.branch(is_str(x.t)):
                    raise PyRaise(TypeError, ('in <string>',))
                sx = vs(x.t)
            else:
                raise PyRaise(TypeError, ('in <string>',))
        return sbool(z3.Contains(sc, sx))
    if isinstance(c, tuple):
        return member(I, I.parts(c), x)
    if isinstance(c, DView) and c.what == 'keys':
        c = c.ref
    if isinstance(c, Ref):
        st = I.state(c)
        if isinstance(st, DictState):
            h = I.dict_has(c, x)
            return h if isinstance(h, bool) else sbool(h)
        if isinstance(st, ListState):
            I.log_read(c, None)
            return member(I, st.parts, x)
        if isinstance(st, SeqState):
            return _unk(I)
        if isinstance(st, ObjState):
            f, _ = st.cls.lookup('__contains__')
            if f is not None:
                r = I.truth(I.call_func(f, [c, x], {}))
                return r if isinstance(r, bool) else sbool(r)
            if st.cls.lookup('__getitem__')[0] is not None:
                raise Unsupported('in through __getitem__')
    if isinstance(c, DView):
        return member(I, I.parts(c), x)
    if isinstance(c, GlobalsVal):
        used(I, 'globals()')
        if isinstance(x, str):
            return x in c.module.env or x.startswith('__')
        g = z3.Function('is_global_' + c.module.name.split('.')[-1], V,
                        z3.BoolSort())
        return sbool(g(I.tv(x)))
    if isinstance(c, Ext) and c.name == 'dir(builtins)':
        import builtins
        if isinstance(x, str):
            return x in dir(builtins)
        return sbool(z3.Function('is_builtin', V, z3.BoolSort())(I.tv(x)))
    if isinstance(c, S) and c.kind == 'v':
        cl = I.opaque_class(c.t)
        if cl is not None:
            f, _ = cl.lookup('__contains__')
            if f is None:
                raise PyRaise(TypeError, ('not iterable',))
            r = I.truth(I.call_func(f, [c, x], {}))
            return r if isinstance(r, bool) else sbool(r)
        if I.ctx.entails(has_cls(c.t, 'dict')):
            k = I.tv(x)
            I.ctx.touch(k)
            return sbool(dct_dom(c.t, k))
        if I.ctx.entails(has_cls(c.t, 'ndarray', 'list', 'tuple', 'set')):
            return _unk(I)
        if I.ctx.branch(is_str(c.t)):
            return contains(I, sstr(vs(c.t)), x)
        if I.ctx.branch(has_cls(c.t, 'dict')):
            return contains(I, c, x)
        if I.ctx.branch(is_obj(c.t)):
            return _unk(I)
        raise PyRaise(TypeError, ('not iterable',))
    if c is None or isinstance(c, (int, float, bool)) or isinstance(c, S):
        raise PyRaise(TypeError, ('not iterable',))
    raise Unsupported('membership in {!r}'.format(c))


# ================================================================= indexing
def getitem(I, obj, key):
    if isinstance(obj, (tuple, str)) and isinstance(key, int):
        try:
            return obj[key]
        except IndexError:
            raise PyRaise(IndexError, ())
    if isinstance(obj, Ref):
        st = I.state(obj)
        if isinstance(st, ListState):
            I.log_read(obj, None)
            if st.order is not None:
                return st.order.item(I, st, key)
            if st.concrete() and isinstance(key, int):
                try:
                    return st.items()[key]
                except IndexError:
                    raise PyRaise(IndexError, ())
            if isinstance(key, int) and key == 0 and all(
                    not p.params for p in st.parts):
                for p in st.parts:
                    if I.ctx.branch(p.guard):
                        return p.elem
                raise PyRaise(IndexError, ())
            if isinstance(key, int) and key == 0 and len(st.parts) == 1 \
                    and st.kind == 'list' and len(st.parts[0].params) == 1 \
                    and st.parts[0].params[0].sort() == z3.IntSort():
                # in the order of the index
                p = st.parts[0]
                q = p.params[0]
                u = z3.Const('first!{}'.format(next(I.ctx.counter)),
                             z3.IntSort())
                g = z3.substitute(p.guard, (q, u))
                if I.ctx.choose('nonempty'):
                    w = I.ctx.fresh(z3.IntSort(), 'first')
                    I.ctx.define(z3.substitute(p.guard, (q, w)))
                    I.ctx.forall([u], z3.Implies(u < w, z3.Not(g)))
                    if I.ctx.check() == z3.unsat:
                        raise Infeasible()
                    return subst(p.elem, [(q, w)])
                I.ctx.forall([u], z3.Not(g))
                raise PyRaise(IndexError, ())
        if isinstance(st, SeqState):
            k = I.kind(key, 'int')
            if k is None and st.vec:
                return vectors.take(I, st, key)
            if k is not None:
                if isinstance(key, int) and key < 0:
                    k = st.n + key
                if not I.ctx.branch(z3.And(k >= 0, k < st.n)):
                    raise PyRaise(IndexError, ())
                if st.elem is None:
                    return st.item(I, k)
                return st.elem(k)
    s = I.kind(obj, 'str')
    if s is not None:
        k = I.kind(key, 'int')
        if k is not None:
            if isinstance(key, int) and key < 0:
                k = z3.Length(s) + key
            if not I.ctx.branch(z3.And(k >= 0, k < z3.Length(s))):
                raise PyRaise(IndexError, ())
            return sstr(z3.SubString(s, k, 1))
    if isinstance(obj, S) and obj.kind == 'v':
        t = obj.t
        if I.ctx.entails(has_cls(t, 'ndarray')):
            if isinstance(key, int) and key == 0:
                used(I, 'ndarray[0]')
                return S('v', elem0(t))
        if I.ctx.entails(has_cls(t, 'DataFrame')):
            used(I, 'DataFrame[column]')
            return Opaque('column', frame=obj, key=key)
        if I.ctx.entails(has_cls(t, 'dict')):
            k = I.tv(key)
            I.ctx.touch(k)
            if not I.ctx.branch(dct_dom(t, k)):
                raise PyRaise(KeyError, ())
            return I.fv(dct_val(t, k))
    raise Unsupported('index {!r}[{!r}]'.format(obj, key))


def getslice(I, obj, lo, hi, step):
    if step is not None and step != 1:
        raise Unsupported('slice step')
    conc = all(x is None or isinstance(x, int) for x in (lo, hi))
    if isinstance(obj, (str, tuple)) and conc:
        return obj[lo:hi]
    if isinstance(obj, Ref) and conc:
        st = I.state(obj)
        if isinstance(st, ListState) and st.concrete():
            return I.new_list(st.items()[lo:hi], st.kind)
        if isinstance(st, ListState) and st.order is not None:
            n = (hi or 0) - (lo or 0)
            return tuple(st.order.item(I, st, (lo or 0) + i)
                         for i in range(n))
    if isinstance(obj, Ref) and isinstance(I.state(obj), SeqState) \
            and I.state(obj).elem is not None and lo in (None, 0) \
            and isinstance(hi, int) and hi > 0:
        st = I.state(obj)
        if I.ctx.branch(st.n >= hi):
            return I.new_list([st.elem(z3.IntVal(i)) for i in range(hi)])
        return I.new(SeqState(st.n, st.elem))
    if isinstance(obj, Ref) and isinstance(I.state(obj), SeqState) \
            and I.state(obj).elem is not None and hi is None:
        st = I.state(obj)
        k = I.kind(lo, 'int')
        if k is not None and I.ctx.entails(z3.And(k >= 0, k <= st.n)):
            return I.new(SeqState(st.n - k, lambda i: st.elem(k + i)))
    s = I.kind(obj, 'str')
    if s is not None:
        n = z3.Length(s)

        def pos(x, d):
            if x is None:
                return d
            k = I.kind(x, 'int')
            if k is None:
                raise Unsupported('slice index')
            k = z3.If(k < 0, z3.If(n + k < 0, 0, n + k), z3.If(k > n, n, k))
            return k
        a, b = pos(lo, z3.IntVal(0)), pos(hi, n)
        return sstr(z3.If(b > a, z3.SubString(s, a, b - a),
                          z3.StringVal('')))
    raise Unsupported('slice of {!r}'.format(obj))


# ============================================================ str() and co.
def to_str(I, x):
    x = I.force(x)
    return sstr(I.str_term(x))


def to_float(I, x):
    x = I.force(x)
    if isinstance(x, (bool, int, float)):
        return float(x)
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            raise PyRaise(ValueError, ())
    if isinstance(x, S):
        if x.kind == 'real':
            return x
        if x.kind == 'int':
            return S('real', z3.ToReal(x.t))
        if x.kind == 'bool':
            return S('real', z3.If(x.t, z3.RealVal(1), z3.RealVal(0)))
        if x.kind == 'str':
            return _float_str(I, x.t)
        t = x.t
        if I.ctx.branch(is_str(t)):
            return _float_str(I, vs(t))
        if I.ctx.branch(z3.Or(is_int(t), is_flt(t), is_bool(t))):
            return S('real', z3.If(is_int(t), z3.ToReal(vi(t)), z3.If(
                is_flt(t), vr(t), z3.If(vb(t), z3.RealVal(1),
                                        z3.RealVal(0)))))
        if I.ctx.branch(has_cls(t, 'npnum')):
            return S('real', z3.Function('np_float', V, z3.RealSort())(t))
        if I.ctx.branch(has_cls(t, 'ndarray')):
            if I.ctx.choose('array_float'):
                return S('real', I.ctx.fresh(z3.RealSort(), 'af'))
            raise PyRaise(TypeError, ())
        raise PyRaise(TypeError, ())
    raise PyRaise(TypeError, ())


def _float_str(I, s):
    used(I, 'float(str)')
    if not I.ctx.branch(is_numeral(s)):
        raise PyRaise(ValueError, ())
    return S('real', num_of(s))


def is_type(I, x, t):
    """isinstance(x, t) as bool or z3 Bool; t a single type."""
    x = I.force(x)
    name = t.name if isinstance(t, (Ext, ClassVal)) else None
    if name is None:
        raise Unsupported('isinstance with {!r}'.format(t))
    name = name.split('.')[-1] if isinstance(t, Ext) else name
    if isinstance(x, S) and x.kind == 'v':
        v = x.t
        table = {
            'str': is_str(v), 'int': z3.Or(is_int(v), is_bool(v)),
            'bool': is_bool(v), 'float': is_flt(v),
            'NoneType': is_none(v),
            'list': has_cls(v, 'list'), 'tuple': has_cls(v, 'tuple'),
            'dict': has_cls(v, 'dict'), 'set': has_cls(v, 'set'),
            'ndarray': has_cls(v, 'ndarray'),
            'DataFrame': has_cls(v, 'DataFrame'),
            'number': has_cls(v, 'npnum'),
            'Equation': has_cls(v, 'Equation'),
            'EquationGroup': has_cls(v, 'EquationGroup'),
            'VariableGroup': has_cls(v, 'VariableGroup'),
            'AbstractGroup': has_cls(v, 'EquationGroup', 'VariableGroup'),
            'EquationDirectory': has_cls(v, 'EquationDirectory'),
            'NrwalConfig': has_cls(v, 'NrwalConfig'),
        }
        if name in table:
            return table[name]
        raise Unsupported('isinstance with ' + name)
    pyt = {'str': str, 'int': int, 'bool': bool, 'float': float,
           'tuple': tuple}
    if isinstance(x, S):
        k = {'str': 'str', 'int': 'int', 'float': 'real',
             'bool': 'bool'}.get(name)
        return k == x.kind or (name == 'int' and x.kind == 'bool')
    if isinstance(x, Ref):
        st = I.state(x)
        if isinstance(st, ObjState):
            return any(c.name == name for c in st.cls.mro())
        if isinstance(st, DictState):
            return name in ('dict', 'OrderedDict') and name == 'dict'
        if isinstance(st, (ListState, SeqState)):
            return name == st.kind
        return False
    if isinstance(x, (Ext, ClassVal, FuncVal, Opaque, ExcVal)):
        if name in EXC and isinstance(x, ExcVal):
            return issubclass(x.exc.cls, EXC[name])
        return False
    if name in pyt:
        return isinstance(x, pyt[name])
    return False


def isinstance_(I, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for y in ts:
        flat += list(y) if isinstance(y, tuple) else [y]
    rs = [is_type(I, x, y) for y in flat]
    if any(r is True for r in rs):
        return True
    rs = [r for r in rs if not isinstance(r, bool)]
    if not rs:
        return False
    return sbool(z3.Or(*rs))


def any_(I, parts, neg=False):
    """any(...): formula when no piece has parameters."""
    simple = [p for p in parts if not p.params]
    gen = [p for p in parts if p.params]

    def tr(e):
        t = I.truth(e)
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        return z3.Not(t) if neg else t
    f = z3.simplify(z3.Or(*[z3.And(p.guard, tr(p.elem)) for p in simple])) \
        if simple else z3.BoolVal(False)
    if not gen:
        return sbool(f)
    if I.ctx.branch(f):
        return True
    return I.ctx.exists(gen, tr, 'any')


class SortKey:
    pass


def collect(I, it, kind, order=None):
    """list(it) / set(it) / sorted(it)"""
    it = I.force(it)
    if isinstance(it, Ref) and isinstance(I.state(it), SeqState):
        st = I.state(it)
        return I.new(SeqState(st.n, st.elem, kind))
    if isinstance(it, Ref) and isinstance(I.state(it), ListState) \
            and I.state(it).order is not None and kind == 'list':
        st = I.state(it)
        return I.new(ListState(st.parts, 'list', st.order))
    parts = I.parts(it)
    return I.new(ListState(parts, kind))


def format_(I, fmt, args, kwargs):
    if not isinstance(fmt, str):
        raise Unsupported('format of a symbolic string')
    out = []
    auto = 0
    pos = 0
    for m in re.finditer(r'\{\{|\}\}|\{([^{}]*)\}', fmt):
        out.append(z3.StringVal(fmt[pos:m.start()]))
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            out.append(z3.StringVal(m.group(0)[0]))
            continue
        f = m.group(1)
        if f == '':
            x = args[auto]
            auto += 1
        elif f.isdigit():
            x = args[int(f)]
        elif f in kwargs:
            x = kwargs[f]
        else:
            out.append(I.ctx.fresh(SS, 'fmt'))
            continue
        out.append(I.str_term(I.force(x)))
    out.append(z3.StringVal(fmt[pos:]))
    out = [t for t in out if not (z3.is_string_value(t)
                                  and t.as_string() == '')]
    return concat(out)


# ============================================================= str methods
def strip_term(I, s, what='both'):
    """s.strip(): t with s == ws + t + ws."""
    f = z3.Function('py_strip_' + what, SS, SS)
    t = f(s)
    ws = z3.Star(z3.Union(z3.Re(' '), z3.Re('\t'), z3.Re('\n'),
                          z3.Re('\r'), z3.Re('\x0b'), z3.Re('\x0c')))
    l = z3.Function('ws_left', SS, SS)(s)
    r = z3.Function('ws_right', SS, SS)(s)
    I.ctx.define(z3.And(s == z3.Concat(l, t, r), z3.InRe(l, ws),
                        z3.InRe(r, ws)))
    blanks = [z3.StringVal(c) for c in ' \t\n\r']
    I.ctx.define(z3.And(*[z3.And(z3.Not(z3.PrefixOf(c, t)),
                                 z3.Not(z3.SuffixOf(c, t)))
                          for c in blanks]))
    return t


def str_method(I, s, name, args, kwargs):
    """Method of a (possibly symbolic) string."""
    if isinstance(s, str) and all(
            isinstance(a, (str, int)) or (isinstance(a, tuple) and all(
                isinstance(x, str) for x in a)) for a in args) \
            and not kwargs and name not in ('format', 'join'):
        m = getattr(s, name, None)
        if m is None:
            raise PyRaise(AttributeError, (name,))
        r = m(*args)
        if isinstance(r, list):
            return I.new_list(r)
        return r
    if name == 'format':
        return format_(I, s, args, kwargs)
    if name == 'join':
        parts = I.parts(args[0])
        if isinstance(s, str) and all(p.simple() for p in parts):
            ts = []
            for i, p in enumerate(parts):
                if i:
                    ts.append(z3.StringVal(s))
                ts.append(I.str_term(p.elem))
            return concat(ts) if ts else ''
        used(I, 'str.join of unknown parts')
        return sstr(I.ctx.fresh(SS, 'joined'))
    t = I.kind(s, 'str')
    if name in ('startswith', 'endswith'):
        opts = args[0] if isinstance(args[0], tuple) else (args[0],)
        f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
        return sbool(z3.Or(*[f(I.kind(o, 'str'), t) for o in opts]))
    if name == 'strip' and not args:
        return sstr(strip_term(I, t))
    if name in ('partition', 'rpartition'):
        sep = args[0]
        if not isinstance(sep, str):
            raise Unsupported('partition by a symbolic string')
        sp = z3.StringVal(sep)
        if not I.ctx.branch(z3.Contains(t, sp)):
            return (sstr(t), '', '') if name == 'partition' \
                else ('', '', sstr(t))
        k = '' .join('%02x' % ord(c) for c in sep)
        a = z3.Function('py_%s_head_%s' % (name, k), SS, SS)(t)
        b = z3.Function('py_%s_tail_%s' % (name, k), SS, SS)(t)
        I.ctx.define(t == z3.Concat(a, sp, b))
        if name == 'partition':
            if len(sep) == 1:
                I.ctx.define(z3.Not(z3.Contains(a, sp)))
            else:
                I.ctx.define(z3.Length(a) == z3.IndexOf(t, sp, 0))
                I.ctx.define(z3.Not(z3.Contains(a, sp)))
        else:
            if len(sep) == 1:
                I.ctx.define(z3.Not(z3.Contains(b, sp)))
            else:
                raise Unsupported('rpartition')
        return (sstr(a), sep, sstr(b))
    if name == 'split' and len(args) == 1 and isinstance(args[0], str):
        sep = args[0]
        sp = z3.StringVal(sep)
        k = ''.join('%02x' % ord(c) for c in sep)
        n = z3.Function('py_split_n_' + k, SS, z3.IntSort())(t)
        e = z3.Function('py_split_' + k, SS, z3.IntSort(), SS)
        I.ctx.define(n >= 1)
        I.ctx.define((n == 1) == z3.Not(z3.Contains(t, sp)))
        I.ctx.define(z3.Implies(n == 1, e(t, 0) == t))
        first = e(t, 0)
        rest = z3.Function('py_split_rest_' + k, SS, SS)(t)
        I.ctx.define(z3.Not(z3.Contains(first, sp)))
        I.ctx.define(z3.Implies(n > 1, t == z3.Concat(first, sp, rest)))
        used(I, 'str.split')
        return I.new(SeqState(n, lambda i: S('str', e(t, i))))
    if name == 'replace' and len(args) == 2:
        a, b = I.kind(args[0], 'str'), I.kind(args[1], 'str')
        used(I, 'str.replace')
        r = z3.Function('py_replace', SS, SS, SS, SS)(t, a, b)
        I.ctx.define(z3.Implies(z3.Not(z3.Contains(t, a)), r == t))
        if isinstance(args[0], str) and isinstance(args[1], str):
            if args[0] and args[0] not in args[1] and not _overlap(
                    args[0], args[1]):
                I.ctx.define(z3.Not(z3.Contains(r, a)))
        return sstr(r)
    if name == 'count':
        a = I.kind(args[0], 'str')
        c = z3.Function('py_count', SS, SS, z3.IntSort())(t, a)
        I.ctx.define(c >= 0)
        I.ctx.define((c == 0) == z3.Not(z3.Contains(t, a)))
        used(I, 'str.count')
        # exactly one: head, tail without the separator
        h = z3.Function('py_count_head', SS, SS, SS)(t, a)
        r = z3.Function('py_count_tail', SS, SS, SS)(t, a)
        I.ctx.define(z3.Implies(c >= 1, z3.And(
            t == z3.Concat(h, a, r), z3.Not(z3.Contains(h, a)),
            (c == 1) == z3.Not(z3.Contains(r, a)))))
        return sint(c)
    if name in ('lstrip', 'rstrip') and not args:
        b = strip_term(I, t)
        w = z3.Function('ws_left' if name == 'rstrip' else 'ws_right',
                        SS, SS)(t)
        return sstr(z3.Concat(w, b) if name == 'rstrip'
                    else z3.Concat(b, w))
    if name in ('upper', 'lower', 'lstrip', 'rstrip', 'strip', 'title',
                'casefold'):
        key = name + ''.join('%02x' % ord(c) for a in args
                             if isinstance(a, str) for c in a)
        used(I, 'str.' + name)
        return sstr(z3.Function('py_' + key, SS, SS)(t))
    if name == 'find':
        a = I.kind(args[0], 'str')
        if len(args) == 1:
            return sint(z3.IndexOf(t, a, 0))
    if name == 'rfind' and len(args) == 1:
        a = I.kind(args[0], 'str')
        r = z3.Function('py_rfind', SS, SS, z3.IntSort())(t, a)
        I.ctx.define(z3.Or(z3.And(r == -1, z3.Not(z3.Contains(t, a))), z3.And(
            r >= 0, z3.SubString(t, r, z3.Length(a)) == a,
            r + z3.Length(a) <= z3.Length(t),
            z3.Not(z3.Contains(z3.SubString(
                t, r + 1, z3.Length(t) - r - 1), a)))))
        return sint(r)
    if name == 'encode':
        return Opaque('bytes')
    raise Unsupported('str.' + name)


def _overlap(a, b):
    """could replacing a by b create a new a across a boundary?"""
    for i in range(1, len(a)):
        if b.endswith(a[:i]) or b.startswith(a[i:]) or b == '':
            return True
    return b == ''


def call_method(I, obj, name, args, kwargs):
    obj = I.force(obj)
    if kwargs and name not in ('format', 'update', 'sort') \
            and not isinstance(obj, Opaque):
        raise Unsupported('keyword arguments of .' + name)
    if isinstance(obj, Ref):
        st = I.state(obj)
        if isinstance(st, DictState):
            return dict_method(I, obj, name, args, kwargs)
        if isinstance(st, ListState):
            return list_method(I, obj, name, args, kwargs)
        if isinstance(st, SeqState):
            return seq_method(I, obj, name, args, kwargs)
    if I.kind(obj, 'str') is not None:
        return str_method(I, obj, name, args, kwargs)
    if isinstance(obj, tuple):
        if name == 'index' and all(isinstance(x, (str, int)) for x in obj) \
                and isinstance(args[0], (str, int)):
            try:
                return obj.index(args[0])
            except ValueError:
                raise PyRaise(ValueError, ())
        if name == 'count' and all(isinstance(x, (str, int)) for x in obj):
            return obj.count(args[0])
    if isinstance(obj, Opaque):
        return opaque_method(I, obj, name, args, kwargs)
    if isinstance(obj, DView):
        raise Unsupported('view.' + name)
    if isinstance(obj, S) and obj.kind == 'v':
        t = obj.t
        if I.ctx.entails(has_cls(t, 'ndarray')):
            if name == 'astype' and len(args) == 1 \
                    and isinstance(args[0], Ext) \
                    and args[0].name.endswith('float32'):
                used(I, 'ndarray.astype')
                r = as_f32(t)
                I.ctx.define(z3.And(has_cls(r, 'ndarray'),
                                    z3.Not(int_array(r))))
                return S('v', r)
            if name in ('flatten', 'copy') and not args:
                used(I, 'ndarray.' + name)
                return obj
        if I.ctx.entails(has_cls(t, 'dict')):
            st = DictState(None, ('base', lambda k: dct_dom(t, k),
                                  lambda k: dct_val(t, k)))
            if name in ('keys', 'items', 'values', 'get'):
                return dict_method(I, I.new(st), name, args, kwargs)
        if I.ctx.entails(is_str(t)):
            return str_method(I, sstr(vs(t)), name, args, kwargs)
        if name in STR_METHODS:
            if I.ctx.branch(is_str(t)):
                return str_method(I, sstr(vs(t)), name, args, kwargs)
            if I.ctx.branch(z3.Not(is_obj(t))):
                raise PyRaise(AttributeError, (name,))
    if isinstance(obj, (int, float, bool)) or obj is None or (
            isinstance(obj, S) and obj.kind in ('int', 'real', 'bool')):
        raise PyRaise(AttributeError, (name,))
    if isinstance(obj, TypeOf):
        return Opaque('typeinfo')
    raise Unsupported('method {} of {!r}'.format(name, obj))


STR_METHODS = ('count', 'partition', 'rpartition', 'split', 'strip', 'upper',
               'lower', 'replace', 'startswith', 'endswith', 'lstrip',
               'rstrip', 'find', 'rfind', 'format', 'join')


def opaque_method(I, obj, name, args, kwargs):
    hook = I.views.get(('opaque', obj.what, name))
    if hook is not None:
        return hook(I, obj, args, kwargs)
    if obj.what == 'columns' and name in ('tolist', 'to_list', 'copy'):
        return obj
    raise Unsupported('{}.{}'.format(obj.what, name))


def dict_method(I, ref, name, args, kwargs):
    if name in ('keys', 'items', 'values'):
        return DView(ref, name)
    if name == 'get':
        d = args[1] if len(args) > 1 else None
        h = I.dict_has(ref, args[0])
        if h if isinstance(h, bool) else I.ctx.branch(h):
            return I.dict_get(ref, args[0])
        return d
    if name == 'update':
        st = I.state(ref)
        if args:
            st = I.updated(st, args[0])
            if args and isinstance(I.force(args[0]), Ref):
                pass
        star = kwargs.get('**')
        for k, v in kwargs.items():
            if k != '**':
                st = DictState(st, ('set', k, v))
        if star is not None:
            st = I.updated(st, star)
        I.set_state(ref, st)
        return None
    if name == 'copy':
        return I.new(I.state(ref))
    if name == 'pop':
        h = I.dict_has(ref, args[0])
        if h if isinstance(h, bool) else I.ctx.branch(h):
            v = I.dict_get(ref, args[0])
            I.set_state(ref, DictState(I.state(ref),
                                       ('del', I.dkey(args[0]))))
            return v
        if len(args) > 1:
            return args[1]
        raise PyRaise(KeyError, (args[0],))
    if name == 'setdefault':
        h = I.dict_has(ref, args[0])
        if h if isinstance(h, bool) else I.ctx.branch(h):
            return I.dict_get(ref, args[0])
        v = args[1] if len(args) > 1 else None
        I.dict_set(ref, args[0], v)
        return v
    if name == 'clear':
        I.set_state(ref, DictState(None, ('empty',)))
        return None
    raise Unsupported('dict.' + name)


def list_method(I, ref, name, args, kwargs):
    st = I.state(ref)
    if name in ('append', 'add'):
        I.set_state(ref, ListState(st.parts + (Part((), TT, args[0]),),
                                   st.kind))
        return None
    if name in ('extend', 'update'):
        I.set_state(ref, ListState(list(st.parts) + I.parts(args[0]),
                                   st.kind))
        return None
    if name == 'pop' and st.concrete():
        I.log_read(ref, None)
        items = st.items()
        i = args[0] if args else -1
        if not isinstance(i, int):
            raise Unsupported('pop at a symbolic index')
        try:
            v = items.pop(i)
        except IndexError:
            raise PyRaise(IndexError, ())
        I.set_state(ref, ListState([Part((), TT, x) for x in items],
                                   st.kind))
        return v
    if name == 'index' and st.concrete():
        I.log_read(ref, None)
        for i, x in enumerate(st.items()):
            e = equal(I, x, args[0])
            if e if isinstance(e, bool) else I.ctx.branch(e.t):
                return i
        raise PyRaise(ValueError, ())
    if name == 'sort' and not args:
        if kwargs:
            raise Unsupported('sort with a key')
        r = sorted_(I, ref)
        I.set_state(ref, ListState(I.state(r).parts, st.kind))
        return None
    if name == 'copy':
        return I.new(ListState(st.parts, st.kind, st.order))
    if name in ('union',):
        parts = list(st.parts)
        for a in args:
            parts += I.parts(a)
        return I.new(ListState(parts, 'set'))
    raise Unsupported('list.' + name)


def seq_method(I, ref, name, args, kwargs):
    from pyvc import seqs
    if isinstance(I.state(ref), seqs.TermSeq):
        I.log_read(ref, None)
        return seqs.method(I, ref, I.state(ref), name, args, kwargs)
    if name == 'index' and len(args) == 1:
        st = I.state(ref)
        if not I.ctx.branch(st.n > 0):
            raise PyRaise(ValueError, ())
        e = equal(I, st.elem(z3.IntVal(0)), args[0])
        if e if isinstance(e, bool) else I.ctx.branch(e.t):
            return 0
        if I.ctx.branch(I.ctx.fresh(z3.BoolSort(), 'listed')):
            k = I.ctx.fresh(z3.IntSort(), 'index')
            I.ctx.define(z3.And(k > 0, k < st.n))
            e = equal(I, st.elem(k), args[0])
            if e if isinstance(e, bool) else I.ctx.branch(e.t):
                return sint(k)
            raise Infeasible()
        raise PyRaise(ValueError, ())
    raise Unsupported('sequence.' + name)


def sorted_(I, it, kwargs=None):
    if kwargs:
        raise Unsupported('sorted with a key')
    r = collect(I, it, 'list')
    st = I.state(r)
    if isinstance(st, ListState) and st.concrete():
        items = st.items()
        if all(isinstance(x, str) for x in items) or all(
                isinstance(x, (int, float)) for x in items):
            return I.new_list(sorted(items))
        if all(isinstance(x, tuple) and isinstance(x[0], str)
               for x in items):
            return I.new_list(sorted(items, key=lambda x: x[0]))
    return r


# ======================================================== copy.deepcopy ...
def dc_term(I, t):
    """V term of a deep copy."""
    return z3.If(is_obj(t), dcopy(t), t)


def dc_axiom(I, t):
    r = dcopy(t)
    I.ctx.define(z3.Implies(is_obj(t), z3.And(
        is_obj(r), ocls(r) == ocls(t), cont(r) == cont(t), oid(r) < 0,
        is_copy(r))))


def deepcopy(I, x, memo=None):
    used(I, 'copy.deepcopy')
    memo = {} if memo is None else memo
    x = I.force(x)
    if isinstance(x, S):
        if x.kind != 'v':
            return x
        if I.ctx.entails(has_cls(x.t, 'dict')):
            t = x.t
            return deepcopy(I, I.new(DictState(None, (
                'base', lambda k: dct_dom(t, k), lambda k: dct_val(t, k)))))
        dc_axiom(I, x.t)
        return I.fv(dc_term(I, x.t))
    if isinstance(x, tuple):
        return tuple(deepcopy(I, v, memo) for v in x)
    if not isinstance(x, Ref):
        return x
    if x.oid in memo:
        return memo[x.oid]
    st = I.state(x)
    if isinstance(st, DictState):
        I.log_read(x, None)
        d = st.concrete()
        if d is not None:
            out = I.new_dict()
            memo[x.oid] = out
            for k, v in d.items():
                I.dict_set(out, k, deepcopy(I, v, memo))
            return out
        # every value is copied; objects become content-equal copies
        k = z3.Const('ck!{}'.format(next(I.ctx.counter)), V)
        v = st.val(k, I.tv)
        r = dcopy(v)
        I.ctx.forall([k], z3.Implies(
            z3.And(st.dom(k, I.tv), is_obj(v)),
            z3.And(is_obj(r), ocls(r) == ocls(v), cont(r) == cont(v),
                   oid(r) < 0, is_copy(r))))
        return I.new(DictState(st, ('apply', lambda t: z3.If(
            is_obj(t), dcopy(t), t))))
    if isinstance(st, ListState):
        I.log_read(x, None)
        parts = []
        for p in st.parts:
            if p.simple() or not p.params:
                parts.append(Part((), p.guard, deepcopy(I, p.elem, memo)))
            else:
                t = I.tv(p.elem)
                parts.append(Part(p.params, p.guard, I.fv(dc_term(I, t))))
        return I.new(ListState(parts, st.kind))
    if isinstance(st, ObjState):
        m, _ = st.cls.lookup('__deepcopy__')
        if m is not None:
            return I.call_func(m, [x, None], {})
        out = I.new_obj(st.cls, {})
        memo[x.oid] = out
        attrs = {k: deepcopy(I, v, memo) for k, v in st.attrs.items()}
        I.set_state(out, ObjState(st.cls, attrs))
        return out
    if isinstance(st, SeqState):
        return I.new(st)
    raise Unsupported('deepcopy')


# ============================================================ library calls
def ext_attr(I, obj, name):
    full = obj.name + '.' + name
    if obj.name == 'logger':
        return Native(lambda i, a, k: None)
    return Ext(full)


LOGGING = ('debug', 'info', 'warning', 'error', 'exception', 'critical')


def call_ext(I, name, args, kwargs):
    args = [I.force(a) for a in args]
    base = name.split('.')
    if name in I.contracts:
        I.ctx.report.contracts_used.add(name)
        return I.contracts[name](I, args, kwargs)
    if base[0] == 'logging' or base[-1] in LOGGING and base[0] == 'logger':
        if base[-1] == 'getLogger':
            return Ext('logger')
        return None
    f = EXT.get(name)
    if f is None and base[0] == 'builtins' and base[-1] in EXC:
        return ExcVal(PyRaise(EXC[base[-1]], tuple(args)))
    if f is None:
        raise Unsupported('call of ' + name)
    if kwargs and name not in KW_OK:
        raise Unsupported('keyword arguments of ' + name)
    if name in ARITY and len(args) not in ARITY[name]:
        raise Unsupported('number of arguments of ' + name)
    return f(I, args, kwargs)


KW_OK = ('builtins.dict', 'collections.OrderedDict', 'builtins.sorted',
         'builtins.open', 'builtins.print')
_ARITY = {
    (0, 1): 'str float bool list tuple set frozenset dict',
    (1,): 'repr int len any all reversed iter dir abs type sorted',
    (2,): 'isinstance hasattr', (2, 3): 'getattr', (1, 2): 'next open'}
ARITY = {'builtins.' + n: k for k, v in _ARITY.items() for n in v.split()}
ARITY.update({'builtins.enumerate': (1,), 'copy.deepcopy': (1,),
              'copy.copy': (1,), 'numpy.issubdtype': (2,),
              'json.load': (1,), 'yaml.safe_load': (1,),
              'os.path.exists': (1,), 'os.path.isdir': (1,),
              'os.path.isfile': (1,), 'builtins.map': (2,)})


EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


@ext('builtins.str')
def _(I, a, k):
    return to_str(I, a[0]) if a else ''


@ext('builtins.repr')
def _(I, a, k):
    used(I, 'repr')
    return sstr(I.ctx.fresh(SS, 'repr'))


@ext('builtins.float')
def _(I, a, k):
    return to_float(I, a[0]) if a else 0.0


@ext('builtins.int')
def _(I, a, k):
    x = a[0]
    if isinstance(x, (bool, int, float, str)):
        try:
            return int(x)
        except (ValueError, OverflowError) as e:
            raise PyRaise(type(e), ())
    t = I.kind(x, 'int')
    if t is not None:
        return sint(t)
    s = I.kind(x, 'str')
    if s is not None:
        ok = z3.Function('is_int_text', SS, z3.BoolSort())(s)
        if not I.ctx.branch(ok):
            raise PyRaise(ValueError, ())
        return S('int', z3.Function('int_of', SS, z3.IntSort())(s))
    raise Unsupported('int({!r})'.format(x))


@ext('builtins.bool')
def _(I, a, k):
    if not a:
        return False
    t = I.truth(a[0])
    return t if isinstance(t, bool) else sbool(t)


@ext('builtins.isinstance')
def _(I, a, k):
    return isinstance_(I, a[0], a[1])


@ext('builtins.issubclass')
def _(I, a, k):
    raise Unsupported('issubclass')


@ext('builtins.hasattr')
def _(I, a, k):
    obj, name = I.force(a[0]), a[1]
    if isinstance(obj, Ref):
        st = I.state(obj)
        if isinstance(st, ObjState):
            return name in st.attrs or st.cls.lookup(name)[0] is not None
        ty = {ListState: list, DictState: dict, SeqState: list}[type(st)]
        return hasattr(ty, name)
    if isinstance(obj, S) and obj.kind == 'v':
        c = I.opaque_class(obj.t)
        if c is not None:
            return c.lookup(name)[0] is not None \
                or (c.name, name) in I.views
        return sbool(z3.Or(
            z3.And(has_cls(obj.t, 'dict'), z3.BoolVal(hasattr(dict, name))),
            z3.And(is_str(obj.t), z3.BoolVal(hasattr(str, name))),
            z3.And(has_cls(obj.t, 'DataFrame'),
                   I.ctx.fresh(z3.BoolSort(), 'hasattr'))))
    if isinstance(obj, (str, int, float, bool, tuple)) or obj is None:
        return hasattr(obj, name)
    raise Unsupported('hasattr')


@ext('builtins.getattr')
def _(I, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('getattr with a symbolic name')
    try:
        return I.getattr(a[0], a[1])
    except PyRaise as e:
        if len(a) > 2 and issubclass(e.cls, AttributeError):
            return a[2]
        raise


@ext('builtins.type')
def _(I, a, k):
    x = a[0]
    if isinstance(x, Ref) and isinstance(I.state(x), ObjState):
        return I.state(x).cls
    return TypeOf(x)


@ext('builtins.len')
def _(I, a, k):
    x = a[0]
    if isinstance(x, (str, tuple)):
        return len(x)
    s = I.kind(x, 'str')
    if s is not None:
        return sint(z3.Length(s))
    if isinstance(x, DView):
        x = x.ref
    if isinstance(x, Ref):
        st = I.state(x)
        I.log_read(x, None)
        if isinstance(st, ListState):
            if st.order is not None:
                return st.order.length(I, st)
            if st.concrete() and (st.kind == 'list' or all(
                    isinstance(y, (str, int)) for y in st.items())):
                items = st.items()
                return len(set(items)) if st.kind == 'set' else len(items)
            return list_len(I, st)
        if isinstance(st, DictState):
            d = st.concrete()
            if d is not None:
                return len(d)
            n = I.ctx.fresh(z3.IntSort(), 'len')
            I.ctx.define(n >= 0)
            I.ctx.approx.append('len(dict)')
            return sint(n)
        if isinstance(st, SeqState):
            return sint(st.n)
    raise Unsupported('len({!r})'.format(x))


def list_len(I, st):
    """0, 1 or more elements of a list with unknown contents."""
    n = I.ctx.fresh(z3.IntSort(), 'len')
    I.ctx.define(n >= 0)
    if not I.ctx.exists(st.parts, lambda e: TT, 'nonempty'):
        I.ctx.assume(n == 0)
        return 0
    I.ctx.define(n >= 1)
    I.ctx.approx.append('len(list)')
    return sint(n)


@ext('builtins.any')
def _(I, a, k):
    if isinstance(a[0], Ref) and isinstance(I.state(a[0]), SeqState) \
            and I.state(a[0]).elem is not None:
        st = I.state(a[0])
        if not I.ctx.branch(st.n > 0):
            return False
        if I.test(st.elem(z3.IntVal(0))):
            return True
        raise Unsupported('any of a sequence')
    return any_(I, I.parts(a[0]))


@ext('builtins.all')
def _(I, a, k):
    r = any_(I, I.parts(a[0]), neg=True)
    return (not r) if isinstance(r, bool) else sbool(z3.Not(r.t))


@ext('builtins.list')
def _(I, a, k):
    return collect(I, a[0], 'list') if a else I.new_list()


@ext('builtins.tuple')
def _(I, a, k):
    if not a:
        return ()
    ps = I.parts(a[0])
    if all(p.simple() for p in ps):
        return tuple(p.elem for p in ps)
    return collect(I, a[0], 'list')


@ext('builtins.set', 'builtins.frozenset')
def _(I, a, k):
    return collect(I, a[0], 'set') if a else I.new_list((), 'set')


@ext('builtins.sorted')
def _(I, a, k):
    return sorted_(I, a[0], k)


@ext('builtins.reversed')
def _(I, a, k):
    ps = I.parts(a[0])
    return I.new(ListState(list(reversed(ps))))


@ext('builtins.iter')
def _(I, a, k):
    return a[0]


@ext('builtins.next')
def _(I, a, k):
    ps = I.parts(a[0])
    if all(p.simple() for p in ps):
        if ps:
            return ps[0].elem
        if len(a) > 1:
            return a[1]
        raise PyRaise(StopIteration, ())
    raise Unsupported('next')


@ext('builtins.enumerate')
def _(I, a, k):
    if isinstance(a[0], Ref) and isinstance(I.state(a[0]), SeqState) \
            and I.state(a[0]).elem is not None:
        st = I.state(a[0])
        return I.new(SeqState(st.n, lambda i: (sint(i), st.elem(i))))
    ps = I.parts(a[0])
    if all(p.simple() for p in ps):
        return I.new_list([(i, p.elem) for i, p in enumerate(ps)])
    raise Unsupported('enumerate of an unknown collection')


@ext('builtins.zip')
def _(I, a, k):
    cols = [I.parts(x) for x in a]
    if all(p.simple() for c in cols for p in c):
        return I.new_list([tuple(p.elem for p in row)
                           for row in zip(*cols)])
    raise Unsupported('zip of an unknown collection')


@ext('builtins.map')
def _(I, a, k):
    ps = I.parts(a[1])
    if all(p.simple() for p in ps):
        return I.new_list([I.call(a[0], [p.elem], {}) for p in ps])
    raise Unsupported('map')


@ext('builtins.range')
def _(I, a, k):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    raise Unsupported('symbolic range')


@ext('builtins.dict', 'collections.OrderedDict')
def _(I, a, k):
    st = DictState(None, ('empty',))
    if a:
        st = I.updated(st, a[0])
    star = k.get('**')
    for x, v in k.items():
        if x != '**':
            st = DictState(st, ('set', x, v))
    if star is not None:
        st = I.updated(st, star)
    return I.new(st)


@ext('builtins.dir')
def _(I, a, k):
    if a and isinstance(a[0], Ext) and a[0].name == 'builtins':
        return Ext('dir(builtins)')
    raise Unsupported('dir')


def _extreme(greatest):
    def f(I, a, k):
        if len(a) < 2:
            raise Unsupported('max or min of a collection')
        if all(isinstance(x, (int, float)) for x in a):
            return max(a) if greatest else min(a)
        ts = [I.kind(x, 'int') for x in a]
        real = any(t is None for t in ts)
        if real:
            ts = [I.kind(x, 'real') for x in a]
        if any(t is None for t in ts):
            raise Unsupported('max or min')
        out = ts[0]
        for t in ts[1:]:
            out = z3.If(t > out if greatest else t < out, t, out)
        return S('real', out) if real else sint(out)
    return f


EXT['builtins.max'] = _extreme(True)
EXT['builtins.min'] = _extreme(False)


@ext('builtins.abs')
def _(I, a, k):
    if isinstance(a[0], (int, float)):
        return abs(a[0])
    for kd in ('int', 'real'):
        t = I.kind(a[0], kd)
        if t is not None:
            return S(kd, z3.If(t < 0, -t, t))
    raise Unsupported('abs')


@ext('builtins.print')
def _(I, a, k):
    return None


@ext('copy.deepcopy')
def _(I, a, k):
    return deepcopy(I, a[0])


@ext('copy.copy')
def _(I, a, k):
    x = a[0]
    if isinstance(x, Ref):
        st = I.state(x)
        if isinstance(st, ObjState):
            return I.new(ObjState(st.cls, dict(st.attrs)))
        return I.new(st)
    if isinstance(x, S) and x.kind == 'v':
        raise Unsupported('copy.copy of an unknown value')
    return x


@ext('numpy.issubdtype')
def _(I, a, k):
    what = a[1].name.split('.')[-1] if isinstance(a[1], Ext) else None
    x = a[0]
    if isinstance(x, TypeOf) and what == 'number':
        v = I.tv(x.value)
        used(I, 'np.issubdtype(type(x), np.number)')
        # numpy maps int and float to dtypes; a bool is not a np.number
        return sbool(z3.Or(is_int(v), is_flt(v), has_cls(v, 'npnum')))
    if isinstance(x, Opaque) and x.what == 'dtype' and what == 'integer':
        used(I, 'np.issubdtype(x.dtype, np.integer)')
        return sbool(int_array(x.info['array']))
    raise Unsupported('np.issubdtype')


for _n, _op in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult),
                ('truediv', ast.Div), ('pow', ast.Pow)):
    EXT['operator.' + _n] = (lambda o: lambda I, a, k: binop(
        I, o(), I.force(a[0]), I.force(a[1])))(_op)


@ext('os.listdir')
def _(I, a, k):
    used(I, 'os.listdir')
    s = I.kind(a[0], 'str') if a else None
    if s is None:
        raise Unsupported('os.listdir')
    if I.ctx.choose('listing_fails'):
        raise unknown_raise(OSError)
    p = z3.Const('name!{}'.format(next(I.ctx.counter)), V)
    return I.new(ListState([Part((p,), listed(s, p), S('str', vs(p)))]))


def listed(s, p):
    """p is a name in the directory s"""
    return z3.And(z3.Function('dir_entry', SS, V, z3.BoolSort())(s, p),
                  is_str(p), z3.Length(vs(p)) > 0,
                  z3.Not(z3.Contains(vs(p), z3.StringVal('/'))))


@ext('os.path.exists')
def _(I, a, k):
    used(I, 'os.path.exists')
    s = I.kind(a[0], 'str')
    if s is None:
        raise Unsupported('os.path.exists')
    return sbool(z3.Function('path_exists', SS, z3.BoolSort())(s))


@ext('os.path.isdir')
def _(I, a, k):
    used(I, 'os.path.isdir')
    return sbool(z3.Function('path_isdir', SS, z3.BoolSort())(
        I.kind(a[0], 'str')))


@ext('os.path.isfile')
def _(I, a, k):
    return sbool(z3.Function('path_isfile', SS, z3.BoolSort())(
        I.kind(a[0], 'str')))


def _path1(fn):
    def f(I, a, k):
        s = a[0]
        if isinstance(s, str):
            return getattr(os.path, fn)(s)
        used(I, 'os.path.' + fn)
        return sstr(z3.Function('path_' + fn, SS, SS)(I.kind(s, 'str')))
    return f


for _n in ('basename', 'dirname', 'abspath', 'realpath', 'normpath',
           'expanduser'):
    EXT['os.path.' + _n] = _path1(_n)


@ext('os.path.join')
def _(I, a, k):
    if all(isinstance(x, str) for x in a):
        return os.path.join(*a)
    used(I, 'os.path.join')
    ts = [I.kind(x, 'str') for x in a]
    f = z3.Function('path_join', SS, SS, SS)
    out = ts[0]
    for t in ts[1:]:
        out = f(out, t)
    return sstr(out)


@ext('os.path.splitext')
def _(I, a, k):
    if isinstance(a[0], str):
        return os.path.splitext(a[0])
    used(I, 'os.path.splitext')
    s = I.kind(a[0], 'str')
    r = z3.Function('path_root', SS, SS)(s)
    e = z3.Function('path_ext', SS, SS)(s)
    I.ctx.define(s == z3.Concat(r, e))
    for x in ('.json', '.yml', '.yaml'):
        # a name that is more than the bare extension splits off exactly it
        I.ctx.define(z3.Implies(
            z3.And(z3.SuffixOf(z3.StringVal(x), s),
                   z3.Not(z3.SuffixOf(z3.StringVal('/' + x), s)),
                   z3.Length(s) > len(x),
                   z3.Not(z3.SuffixOf(z3.StringVal('.' + x), s))),
            e == z3.StringVal(x)))
        I.ctx.define(z3.Implies(
            z3.And(z3.SuffixOf(z3.StringVal(x), s),
                   z3.Not(z3.Contains(s, z3.StringVal('/'))),
                   z3.Not(z3.PrefixOf(z3.StringVal('.'), s))),
            e == z3.StringVal(x)))
    return (sstr(r), sstr(e))


@ext('builtins.open')
def _(I, a, k):
    used(I, 'open')
    if I.ctx.choose('open_fails'):
        raise unknown_raise(OSError)
    return Opaque('file', path=a[0])


def _loader(fn):
    def f(I, a, k):
        used(I, fn)
        if not (isinstance(a[0], Opaque) and a[0].what == 'file'):
            raise Unsupported(fn)
        if I.ctx.choose('parse_fails'):
            raise unknown_raise()
        s = I.kind(a[0].info['path'], 'str')
        t = z3.Function('file_' + ('json' if 'json' in fn else 'yaml'),
                        SS, V)(s)
        I.ctx.touch(t)
        return I.fv(t)
    return f


EXT['json.load'] = _loader('json.load')
EXT['yaml.safe_load'] = _loader('yaml.safe_load')
