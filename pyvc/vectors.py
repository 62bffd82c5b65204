"""Arrays of unknown length: enumerations of a collection, elementwise
arithmetic, argsort and selection by positions (models of numpy).

Facts are stated for the positions the code or a specification mentions
(`at`), so that no quantifier reaches the solver.
"""
import ast

import z3

from pyvc.interp import SeqState, subst
from pyvc.values import (ListState, Ref, S, Unsupported, V, sint)

Int = z3.IntSort()


class Vec(SeqState):
    vec = True

    def __init__(self, n, elem):
        SeqState.__init__(self, n, elem, 'array')


class Enumeration:
    """The elements of { elem | param, guard } in some order, each once."""

    def __init__(self, I, param, guard):
        k = next(I.ctx.counter)
        self.param, self.guard = param, guard
        self.n = z3.Int('count!{}'.format(k))
        self.key = z3.Function('listed!{}'.format(k), Int, V)
        self.pos = z3.Function('place!{}'.format(k), V, Int)
        I.ctx.define(self.n >= 0)

    def at(self, I, j):
        t = self.key(j)
        I.ctx.touch(t)
        I.ctx.define(z3.Implies(z3.And(j >= 0, j < self.n), z3.And(
            self.pos(t) == j, z3.substitute(self.guard, (self.param, t)))))
        return t

    def place(self, I, t):
        """Position of a member."""
        g = z3.substitute(self.guard, (self.param, t))
        p = self.pos(t)
        I.ctx.define(z3.Implies(g, z3.And(p >= 0, p < self.n,
                                          self.key(p) == t)))
        return p


class Sorting:
    """argsort(v): a permutation of the positions, values not descending."""

    def __init__(self, I, v):
        k = next(I.ctx.counter)
        self.v, self.n = v, v.n
        self.perm = z3.Function('sorted!{}'.format(k), Int, Int)
        self.inv = z3.Function('unsorted!{}'.format(k), Int, Int)
        self.used = []

    def at(self, I, j):
        j = z3.simplify(j)
        p = self.perm(j)
        if any(j.eq(x) for x in self.used):
            return p
        ok = z3.And(j >= 0, j < self.n)
        I.ctx.define(z3.Implies(ok, z3.And(p >= 0, p < self.n,
                                           self.inv(p) == j)))
        d = I.kind(self.v.elem(p), 'real')
        for x in self.used:
            e = I.kind(self.v.elem(self.perm(x)), 'real')
            I.ctx.define(z3.Implies(z3.And(ok, x >= 0, x <= j), e <= d))
            I.ctx.define(z3.Implies(z3.And(ok, x >= j, x < self.n), d <= e))
        self.used.append(j)
        return p

    def place(self, I, i):
        """Where position i ends up."""
        j = self.inv(i)
        I.ctx.define(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(
            j >= 0, j < self.n, self.perm(j) == i)))
        self.at(I, j)
        return j


def enumeration(I, part):
    """One enumeration for all lists that were filled in the same step."""
    if len(part.params) != 1 or part.params[0].sort() != V:
        raise Unsupported('order of a collection')
    q = part.params[0]
    c = z3.Const('canonical', V)
    g = z3.simplify(z3.substitute(part.guard, (q, c)))
    for old, e in I.enumerations:
        if old.eq(g):
            return e
    e = Enumeration(I, c, g)
    I.enumerations.append((g, e))
    return e


def array(I, args, kwargs):
    """np.array(list), np.asarray(list)"""
    if len(args) != 1 or kwargs or not isinstance(args[0], Ref):
        raise Unsupported('np.array')
    st = I.state(args[0])
    if isinstance(st, SeqState) and st.elem is not None:
        return I.new(Vec(st.n, st.elem))
    if isinstance(st, ListState) and st.kind == 'list' \
            and len(st.parts) == 1 and st.parts[0].params:
        p = st.parts[0]
        e = enumeration(I, p)
        return I.new(Vec(e.n, lambda j: subst(p.elem, [
            (p.params[0], e.at(I, j))])))
    raise Unsupported('np.array')


def absolute(I, args, kwargs):
    x = args[0]
    if isinstance(x, Ref) and isinstance(I.state(x), Vec) and len(args) == 1:
        v = I.state(x)

        def elem(j):
            t = I.kind(v.elem(j), 'real')
            return S('real', z3.If(t < 0, -t, t))
        return I.new(Vec(v.n, elem))
    t = I.kind(x, 'real')
    if t is None or len(args) != 1:
        raise Unsupported('np.abs')
    return S('real', z3.If(t < 0, -t, t))


def argsort(I, args, kwargs):
    if len(args) != 1 or set(kwargs) - {'kind'} or not (
            isinstance(args[0], Ref) and isinstance(I.state(args[0]), Vec)):
        raise Unsupported('np.argsort')
    s = Sorting(I, I.state(args[0]))
    I.sortings.append(s)
    v = Vec(s.n, lambda j: sint(s.at(I, j)))
    return I.new(v)


def take(I, st, key):
    """array[positions]"""
    if isinstance(key, Ref) and isinstance(I.state(key), Vec):
        p = I.state(key)

        def elem(j):
            t = I.kind(p.elem(j), 'int')
            if t is None:
                raise Unsupported('positions')
            if not I.ctx.entails(z3.Implies(
                    z3.And(j >= 0, j < p.n), z3.And(t >= 0, t < st.n))):
                raise Unsupported('positions out of range')
            return st.elem(t)
        return I.new(Vec(p.n, elem))
    raise Unsupported('index of an array')


def binop(I, ty, a, b):
    va, vb = [isinstance(x, Ref) and isinstance(I.state(x), Vec)
              for x in (a, b)]
    if not (va or vb):
        return None
    if ty not in (ast.Add, ast.Sub, ast.Mult):
        raise Unsupported('operator on arrays')
    if va and vb and not I.ctx.entails(I.state(a).n == I.state(b).n):
        raise Unsupported('shapes of arrays')
    n = I.state(a if va else b).n

    def elem(j):
        x = I.state(a).elem(j) if va else a
        y = I.state(b).elem(j) if vb else b
        x, y = I.kind(x, 'real'), I.kind(y, 'real')
        if x is None or y is None:
            raise Unsupported('operator on arrays')
        return S('real', {ast.Add: x + y, ast.Sub: x - y,
                          ast.Mult: x * y}[ty])
    return I.new(Vec(n, elem))


NUMPY = {'numpy.array': array, 'numpy.asarray': array,
         'numpy.abs': absolute, 'numpy.absolute': absolute,
         'numpy.argsort': argsort}


def install(I):
    I.enumerations, I.sortings = [], []
    I.contracts.update(NUMPY)
