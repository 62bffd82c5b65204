"""The meaning of an arithmetic text, and the loop that takes its parts in
parentheses out of it (shared by C04 and C05).

`mean(text)` is the value of a text for some fixed values of the inputs, by
the standard rules.  It is not defined in general; what is used of it are the
laws below, each instantiated for the texts at hand:

* split laws: without parentheses, a text means the operation of highest
  level on what is before and behind the operator (any +; the last - when
  there is no +; any * when there is neither; the last / ; the first ^);
* blanks at the ends do not matter; ** is another way to write ^;
* a part in parentheses may be replaced by a new name with its value."""
import z3

from contracts.common import *       # noqa: F401,F403
from contracts.common import SS, TRUE, arg
from pyvc.interp import SeqState, assigned_names
from pyvc.models import EXT, strip_term
from pyvc.values import Brk, Cont, Poison, sint

Int, Real, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
mean = F('meaning_of', SS, Real)
worth = F('worth_of', V, Real)           # value of an equation
parses = F('has_a_meaning', SS, B)
power = F('power', Real, Real, Real)
OPS = ('+', '-', '*', '/', '^')
SIGNS = OPS + ('(', ')', '[', ']', '{', '}', ' ', '\t', '\n', '\r')
METHODS = {'+': '__add__', '-': '__sub__', '*': '__mul__',
           '/': '__truediv__', '^': '__pow__'}
quotient = F('quotient', Real, Real, Real)
product = F('product', Real, Real, Real)


def apply(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    # no law of these is used
    return {'*': product, '/': quotient, '^': power}[op](a, b)


def has(t, c):
    return z3.Contains(t, z3.StringVal(c))


def stripped(I, t):
    """Blanks at the ends do not matter."""
    u = strip_term(I, t)
    I.ctx.define(mean(u) == mean(t))
    I.ctx.define(parses(u) == parses(t))
    for c in '()':
        I.ctx.define(has(u, c) == has(t, c))
    return u


# -------------------------------------------------------------- equations
def new_term(I, name, value):
    t = I.ctx.fresh(V, name)
    I.ctx.define(has_cls(t, 'Equation'))
    I.ctx.define(worth(t) == value)
    I.ctx.touch(t)
    return S('v', t)


def operation(op):
    def f(I, args, kwargs):
        a, b = I.tv(args[0]), I.tv(arg(args, kwargs, 1, 'other'))
        I.ctx.prove('operands are equations', z3.And(
            has_cls(a, 'Equation'), has_cls(b, 'Equation')))
        return new_term(I, 'combined', apply(op, worth(a), worth(b)))
    return f


OPERATIONS = {'Equation.' + m: operation(op) for op, m in METHODS.items()}


# -------------------------------------------------------------- workspace
class Space:
    """The dictionary of temporary names.  Invariant: it holds one equation
    for each name, with the value the name stands for; the names were made
    by the same rule from the sizes 0, 1, ... the dictionary had then."""

    def __init__(self, I, extra=None):
        self.extra = extra          # further entries (dom, val) of the caller
        self.n0 = 0
        self.havoc(I, True)

    def havoc(self, I, first=False):
        i = next(I.ctx.counter)
        self.dom_f = F('space_dom!%d' % i, V, B)
        self.val_f = F('space_val!%d' % i, V, V)
        self.idx = F('space_no!%d' % i, V, Int)
        self.n = I.ctx.fresh(Int, 'size')
        I.ctx.define(self.n >= 0)
        st = DictState(None, ('base', lambda k: self.has(I, k), self.val_f))
        if first:
            self.ref = I.new(st)
        else:
            I.ctx.heap[self.ref.oid] = st
        self.base = st

    def has(self, I, k):
        d, v = self.dom_f(k), self.val_f(k)
        I.ctx.define(z3.Implies(d, z3.And(
            is_str(k), has_cls(v, 'Equation'),
            worth(v) == mean(vs(k)), parses(vs(k)),
            *[z3.Not(has(vs(k), c)) for c in SIGNS])))
        # without blanks
        I.ctx.define(z3.Implies(d, strip_term(I, vs(k)) == vs(k)))
        i = self.idx(k)
        I.ctx.define(z3.Implies(d, z3.And(i >= 0, i < self.n)))
        q = z3.simplify(k)
        nums = numerals(q)
        if any(occurs(self.n, x) for x in nums):
            other = z3.substitute(q, (self.n, i))
            I.ctx.define(z3.Implies(d, q == other))
            for x in nums + numerals(other):
                numeral_facts(I, x)
        return d

    def size(self, I):
        """Size now: one more for each entry with a new name."""
        n, st = self.n, I.ctx.heap[self.ref.oid]
        while st is not self.base:
            if st.op[0] != 'set':
                raise Unsupported('change of the workspace')
            n, st = n + 1, st.parent
        return n

    def writes(self, I, before):
        out, st = [], I.ctx.heap[self.ref.oid]
        while st is not before:
            if st is None or st.op[0] != 'set':
                raise Unsupported('change of the workspace')
            out.append((I.tv(st.op[1]), I.tv(st.op[2]), st.parent))
            st = st.parent
        return out[::-1]


def numerals(t):
    """The texts of numbers a term is made of."""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            if x.decl().name() == 'str_of':
                out.append(x)
            else:
                todo += x.children()
    return out


def occurs(c, t):
    return c.eq(t) or any(occurs(c, x) for x in t.children())


def numeral_facts(I, x):
    """str(i) of a whole number i >= 0: digits, and i can be read off."""
    v = x.arg(0)
    I.ctx.define(z3.Implies(is_int(v), F('number_in_text', SS, Int)(x)
                            == vi(v)))
    I.ctx.define(z3.Implies(z3.And(is_int(v), vi(v) >= 0), z3.And(
        z3.Length(x) > 0, *[z3.Not(has(x, c)) for c in SIGNS])))


def c_len(I, args, kwargs):
    x = args[0]
    if isinstance(x, Ref) and x.oid == I.space.ref.oid:
        return sint(I.space.size(I))
    return EXT['builtins.len'](I, args, kwargs)


# ------------------------------------------------------------ parentheses
balanced = F('balanced', SS, B)


def c_find_parens(I, args, kwargs):
    """find_parens(text) (verified by C16): the first pair is a pair with no
    parentheses between; an error if they do not match."""
    t = I.kind(arg(args, kwargs, 0, 'str') if args else
               next(iter(kwargs.values())), 'str')
    if t is None:
        raise Unsupported('find_parens')
    if not I.ctx.branch(balanced(t)):
        I.refused = 'unbalanced'
        raise PyRaise(ValueError, ())
    n = F('n_pairs', SS, Int)(t)
    I.ctx.define(z3.And(n >= 0, (n > 0) == has(t, '(')))
    a, e = F('pair_start', SS, Int, Int), F('pair_end', SS, Int, Int)
    first_pair(I, t, a(t, 0), e(t, 0))

    def elem(i):
        return (sint(a(t, i)), sint(e(t, i)))
    return I.new(SeqState(n, elem))


def first_pair(I, t, s, e):
    h, c, r = (F('pair_' + x, SS, SS)(t) for x in ('before', 'inside',
                                                   'behind'))
    p1, p2 = z3.StringVal('('), z3.StringVal(')')
    whole = z3.Concat(p1, c, p2)
    I.ctx.define(z3.Implies(has(t, '('), z3.And(
        s >= 0, e > s + 1, e <= z3.Length(t),
        z3.SubString(t, s, e - s) == whole,
        z3.SubString(t, s + 1, e - 1 - (s + 1)) == c,
        z3.SubString(t, 0, s) == h,
        z3.SubString(t, e, z3.Length(t) - e) == r,
        z3.Not(has(c, '(')), z3.Not(has(c, ')')))))
    I.spans.append((t, s, e, h, c, r, whole))
    # lstrip('(') and rstrip(')') of a text in one pair of parentheses
    lf, rf = F('py_lstrip28', SS, SS), F('py_rstrip29', SS, SS)
    cl, cr = z3.Concat(c, p2), z3.Concat(p1, c)
    free = z3.And(z3.Not(has(c, '(')), z3.Not(has(c, ')')))
    I.ctx.define(z3.Implies(free, z3.And(
        lf(whole) == cl, rf(cl) == c, rf(whole) == cr, lf(cr) == c,
        F('py_strip2829', SS, SS)(whole) == c)))
    stripped(I, c)


def take_out(I, node, frame):
    """while there is a part in parentheses: it is replaced by a new name.
    Invariant: the text means the same, has no **, and every name of the
    workspace stands for the value it holds."""
    ctx, sp = I.ctx, I.space
    if getattr(I, 'done_loop', False):
        raise Unsupported('a second loop')
    I.done_loop = True
    names = assigned_names(node.body)
    carried = [x for x in sorted(names)
               if x in frame.vars and I.kind(frame.vars[x], 'str') is not None]
    if len(carried) != 1:
        raise Unsupported('carried locals ' + ', '.join(carried))
    name = carried[0]
    p0 = I.kind(frame.vars[name], 'str')
    ctx.prove('the text means what the key means', mean(p0) == mean(I.text))
    inv = I.invariant
    ctx.prove('the form of the text (start)', inv(p0))
    what = 'none' if ctx.choose('no_part') else (
        'done' if ctx.choose('no_more_parts') else 'step')
    for x in names:
        if x != name:
            frame.vars[x] = Poison(x)
    p = p0
    if what != 'none':
        p = ctx.const('current_text', SS)
        ctx.assume(has(I.text, '('))
        ctx.assume(mean(p) == mean(I.text))
        ctx.assume(inv(p))
        I.space.havoc(I)
        frame.vars[name] = S('str', p)
    again = I.test(I.eval(node.test, frame))
    if again != (what == 'step'):
        raise Infeasible()
    ctx.prove('parts are taken out as long as there are any',
              has(p, '(') == z3.BoolVal(again))
    if not again:
        I.now = p
        split_laws(I, p)
        sp.has(I, StrV(p))
        sp.has(I, StrV(stripped(I, p)))
        I.block(node.orelse, frame)
        return True
    I.at = p
    before = ctx.heap[sp.ref.oid]
    others = {m: s for m, s in ctx.heap.items() if m != sp.ref.oid}
    try:
        I.block(node.body, frame)
    except Cont:
        pass
    except Brk:
        raise Unsupported('break')
    for m, s in others.items():
        ctx.prove('nothing else is changed',
                  z3.BoolVal(ctx.heap.get(m) is s))
    p2 = I.kind(frame.vars[name], 'str')
    if p2 is None:
        raise Unsupported('carried local')
    ws = sp.writes(I, before)
    for k, v, st in ws:
        w = z3.simplify(vs(k))
        for x in numerals(w):
            numeral_facts(I, x)
        ctx.touch(k)
        ctx.prove('a temporary name is new', z3.And(
            is_str(k), z3.Not(st.dom(k, I.tv))))
        ctx.prove('a temporary name has no operator, bracket or blank',
                  z3.And(*[z3.Not(has(w, c)) for c in SIGNS]))
        ctx.prove('a temporary name holds an equation',
                  has_cls(v, 'Equation'))
        ctx.prove('a temporary name stands for the part in parentheses',
                  z3.Or(*[worth(v) == mean(x[4]) for x in I.spans
                          if x[0].eq(p)] + I.calls_of(worth(v))))
        # the name is new: it means what it stands for
        ctx.define(mean(w) == worth(v))
        for t, s, e, h, c, r, whole in I.spans:
            if not t.eq(p):
                continue
            one = z3.Concat(h, w, r)
            every = F('py_replace', SS, SS, SS, SS)(p, whole, w)
            for new in (one, every):
                ctx.define(z3.Implies(worth(v) == mean(c),
                                      mean(new) == mean(p)))
                ctx.define(z3.Implies(z3.And(
                    z3.Not(has(p, '**')), z3.Not(has(w, '*'))),
                    z3.Not(has(new, '**'))))
        I.renamed(w, v, p)
    ctx.prove('the text means the same after a part is taken out',
              mean(p2) == mean(p))
    ctx.prove('the form of the text', inv(p2))
    raise Infeasible()


# ------------------------------------------------------------------ laws
def split_laws(I, p):
    """The operation of highest level of a text without parentheses."""
    ctx = I.ctx
    for n, op in enumerate(OPS):
        above = z3.And(*[z3.Not(has(p, x)) for x in OPS[:n]]) if n else TRUE
        k = '%02x' % ord(op)
        # the last - and /, the first ^, any + and *
        for how in ('partition', 'rpartition'):
            a = F('py_%s_head_%s' % (how, k), SS, SS)(p)
            b = F('py_%s_tail_%s' % (how, k), SS, SS)(p)
            cond = z3.And(has(p, op), above)
            # (what the two texts are is the model of partition)
            ctx.define(z3.Implies(has(p, op), z3.Not(has(
                a if how == 'partition' else b, op))))
            for c in '()':
                ctx.define(z3.Implies(has(p, op), has(p, c) == z3.Or(
                    has(a, c), has(b, c))))
            if (op in '-/' and how == 'partition') \
                    or (op == '^' and how == 'rpartition'):
                # only if it is the same place
                cond = z3.And(cond, z3.Not(has(b if op in '-/' else a, op)))
            ctx.define(z3.Implies(cond, mean(p) == apply(
                op, mean(a), mean(b))))
            stripped(I, a)
            stripped(I, b)
