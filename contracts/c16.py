"""C16: parentheses and numpy calls are located exactly."""
import ast

from contracts.common import *       # noqa: F401,F403
from contracts.common import SS, TRUE, arg, outcome, setup
from pyvc.interp import assigned_names, target_names
from pyvc.seqs import TermSeq, shape
from pyvc.values import Opaque, Poison, Cont, Brk, sint

FUNCTIONS = ['find_parens', 'find_np_pd_methods']
ASSUMED = [
    'str.count of a bracket is the number of positions that hold it '
    '(recurrence over the positions of the text)',
    're.search(r"\\b(np|pd)\\.[\\w.]*\\(", text): None, or a match that ends '
    'behind an opening bracket of the text; that it is the first call is '
    'bounded']
ASSUMPTIONS = []
BOUNDED_FOR = ['the first np. or pd. call is the one the regular expression '
               'finds']
Int, B = z3.IntSort(), z3.BoolSort()
# of the text under verification: 1 = '(', 2 = ')', 0 = anything else
ch = F('bracket_at', Int, Int)
opens = F('opens_before', Int, Int)      # number of '(' before a position
closes = F('closes_before', Int, Int)


def D(i):
    """Depth before position i."""
    return opens(i) - closes(i)


def begin(I):
    """The text and its brackets."""
    setup(I)
    ctx = I.ctx
    ctx.light(1000)
    s = ctx.const('text', SS)
    n = z3.Int('length')
    ctx.define(n == z3.Length(s))
    ctx.define(n >= 0)
    ctx.define(z3.And(opens(0) == 0, closes(0) == 0))
    cnt = z3.Function('py_count', SS, SS, Int)
    ctx.define(cnt(s, z3.StringVal('(')) == opens(n))
    ctx.define(cnt(s, z3.StringVal(')')) == closes(n))
    I.text, I.length = s, n
    I.terms, I.clauses = [], []
    I.contracts.update({'builtins.enumerate': c_enumerate,
                        'builtins.range': c_range})
    I.loop_rules['for'] = scan
    return S('str', s), n


def c_enumerate(I, args, kwargs):
    x = I.kind(args[0], 'str') if args else None
    if x is not None and x.eq(I.text) and len(args) == 1 and not kwargs:
        return Opaque('scan', over='enumerate')
    raise Unsupported('enumerate')


def c_range(I, args, kwargs):
    k = [I.kind(a, 'int') for a in args]
    if len(k) == 2 and args[0] == 0:
        k = k[1:]
    if len(k) == 1 and k[0] is not None and not kwargs \
            and I.ctx.entails(k[0] == I.length):
        return Opaque('scan', over='range')
    raise Unsupported('range')


def at(I, i):
    """Character i of the text."""
    c = z3.simplify(z3.SubString(I.text, i, 1))
    I.ctx.define((c == z3.StringVal('(')) == (ch(i) == 1))
    I.ctx.define((c == z3.StringVal(')')) == (ch(i) == 2))
    I.ctx.define(z3.Length(c) == 1)
    one = z3.IntVal(1)
    nil = z3.IntVal(0)
    I.ctx.define(opens(i + 1) == opens(i) + z3.If(ch(i) == 1, one, nil))
    I.ctx.define(closes(i + 1) == closes(i) + z3.If(ch(i) == 2, one, nil))
    return sstr(c)


def matched(a, b, x):
    """The brackets at a and b belong together (for every x)."""
    return z3.And(a >= 0, a < b, ch(a) == 1, ch(b) == 2, D(a) == D(b + 1),
                  z3.Implies(z3.And(a < x, x <= b), D(x) > D(a)))


# ------------------------------------------------------------ the invariant
# each clause is (name, variables, body) for the state before position i
def clauses(i, stack, res, pair):
    j, x, m = z3.Ints('j x m')
    out = [('no bracket is closed before it is opened', [x],
            z3.Implies(z3.And(x >= 0, x <= i), D(x) >= 0))]
    if stack is not None:
        p = stack.fns[0]
        out += [
            ('as many brackets are open as the depth', [], stack.n == D(i)),
            ('the open brackets in order', [j], z3.Implies(
                z3.And(j >= 0, j < stack.n), z3.And(
                    p(j) >= 0, p(j) < i, ch(p(j)) == 1, D(p(j)) == j))),
            ('an open bracket is not closed yet', [j, x], z3.Implies(
                z3.And(j >= 0, j < stack.n, p(j) < x, x <= i), D(x) > j))]
    if res is not None:
        a, e = res.fns
        inr = z3.And(m >= 0, m < res.n)
        out += [
            ('one pair for each closed bracket', [],
             z3.And(res.n == closes(i), res.n >= 0)),
            ('pairs are spans', [m], z3.Implies(inr, z3.And(
                a(m) >= 0, a(m) < e(m) - 1, e(m) <= i))),
            ('pairs are brackets', [m], z3.Implies(inr, z3.And(
                ch(a(m)) == 1, ch(e(m) - 1) == 2))),
            ('pairs are numbered by their end', [m], z3.Implies(
                inr, closes(e(m) - 1) == m)),
            ('pairs are of one depth', [m], z3.Implies(
                inr, D(a(m)) == D(e(m)))),
            ('inside a pair it is deeper', [m, x], z3.Implies(z3.And(
                inr, a(m) < x, x < e(m)), D(x) > D(a(m)))),
            ('closed brackets have a pair', [x], z3.Implies(
                z3.And(x >= 0, x < i, ch(x) == 2), z3.And(
                    closes(x) >= 0, closes(x) < res.n,
                    e(closes(x)) == x + 1))),
            ('an opened bracket is open or has a pair', [x], z3.Implies(
                z3.And(x >= 0, x < i, ch(x) == 1), z3.Or(
                    z3.And(pair(x) >= 0, pair(x) < res.n,
                           a(pair(x)) == x),
                    z3.And(D(x) < stack.n, stack.fns[0](D(x)) == x)
                    if stack is not None else z3.BoolVal(False)))),
            ('pairs in the order of the closing brackets', [m], z3.Implies(
                z3.And(m >= 0, m + 1 < res.n), e(m) < e(m + 1)))]
    return out


def establish(I, i, stack, res, pair, what):
    if getattr(I, 'invariant_known', False):
        return              # proved by the harness `pairs`
    for name, vs_, body in clauses(i, stack, res, pair):
        pairs = [(v, I.ctx.fresh(Int, 'any')) for v in vs_]
        n_terms = len(I.terms)
        I.ctx.solver.push()
        for _, w in pairs:
            use(I, w)
            # for the clauses that lead from a position to an index
            for t in (w + 1, w - 1, D(w), closes(w), pair(w),
                      res.fns[0](w), res.fns[1](w), res.fns[1](w) - 1):
                use(I, t)
        I.ctx.prove('{} ({})'.format(name, what),
                    z3.substitute(body, *pairs) if pairs else body)
        I.ctx.solver.pop()
        del I.terms[n_terms:]


def suppose(I, i, stack, res, pair):
    for clause in clauses(i, stack, res, pair):
        known(I, *clause)
    for t in (i, i + 1, stack.n, stack.n - 1, stack.fns[0](stack.n - 1),
              stack.fns[0](stack.n), res.n, res.n - 1):
        use(I, t)


def known(I, name, vs_, body):
    """Assume the clause; it is instantiated with the terms in use."""
    I.clauses.append((vs_, body))
    if not vs_:
        I.ctx.assume(body)
    else:
        I.ctx.universals.append((tuple(vs_), body))
    for t in list(I.terms):
        instances(I, (vs_, body), t)


def use(I, t):
    t = z3.simplify(t)
    if any(t.eq(x) for x in I.terms):
        return
    I.terms.append(t)
    for c in I.clauses:
        instances(I, c, t)


def instances(I, clause, t):
    vs_, body = clause
    if len(vs_) == 1:
        I.ctx.assume(z3.substitute(body, (vs_[0], t)))
    if len(vs_) == 2:
        for u in I.terms:
            I.ctx.assume(z3.substitute(body, (vs_[0], t), (vs_[1], u)))
            I.ctx.assume(z3.substitute(body, (vs_[0], u), (vs_[1], t)))


def roles(I, node, frame):
    """The list of open brackets (the one that is popped) and the list of
    pairs, among the lists a loop changes."""
    calls = {'pop': set(), 'append': set()}
    for x in ast.walk(ast.Module(node.body, [])):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
                and isinstance(x.func.value, ast.Name) \
                and x.func.attr in calls:
            calls[x.func.attr].add(x.func.value.id)
    stacks = sorted(calls['pop'])
    results = sorted(calls['append'] - calls['pop'])
    if len(stacks) != 1 or len(results) != 1:
        raise Unsupported('lists of the scan')
    refs = [frame.vars.get(stacks[0]), frame.vars.get(results[0])]
    for r in refs:
        if not isinstance(r, Ref) or not isinstance(
                I.state(r), ListState) or I.state(r).parts:
            raise Unsupported('lists of the scan')
    return refs


def pair_form(node):
    """Are the pairs written as tuples?"""
    for x in ast.walk(ast.Module(node.body, [])):
        if isinstance(x, ast.Tuple) and isinstance(x.ctx, ast.Load) \
                and len(x.elts) == 2:
            return 'tuple'
    return 'list'


def scan(I, node, frame, it):
    """A loop over the positions of the text, by the invariant."""
    ctx = I.ctx
    if isinstance(it, S) and it.kind == 'str' and it.t.eq(I.text):
        it = Opaque('scan', over='text')
    if not (isinstance(it, Opaque) and it.what == 'scan'):
        return False
    sref, rref = roles(I, node, frame)
    form = pair_form(node)
    nil = [lambda k: z3.IntVal(0)]
    zero = z3.IntVal(0)
    establish(I, zero, TermSeq(zero, nil), TermSeq(zero, nil * 2, form),
              nil[0], 'before the loop')
    names = assigned_names(node.body) | target_names(node.target)
    # a local that counts the characters
    counters = [n for n in sorted(names) if isinstance(
        frame.vars.get(n), int) and frame.vars[n] in (0, -1)
        and n not in target_names(node.target)]
    off = {n: frame.vars[n] for n in counters}
    k = next(ctx.counter)
    P, A, E, Q = (z3.Function('{}!{}'.format(x, k), Int, Int)
                  for x in 'PAEQ')
    n = I.length
    more = ctx.choose('one more character')
    i = ctx.fresh(Int, 'position') if more else n
    if more:
        ctx.assume(z3.And(i >= 0, i < n))
    stack = TermSeq(ctx.fresh(Int, 'open'), [P])
    res = TermSeq(ctx.fresh(Int, 'pairs'), [A, E], form)
    I.set_state(sref, stack)
    I.set_state(rref, res)
    suppose(I, i, stack, res, Q)
    for x in names:
        frame.vars[x] = sint(i + off[x]) if x in off else Poison(x)
    I.ghost = Q
    if not more:
        I.block(node.orelse, frame)
        return True
    before = dict(ctx.heap)
    c = at(I, i)
    elem = {'enumerate': lambda: (sint(i), c), 'range': lambda: sint(i),
            'text': lambda: c}[it.info['over']]()
    I.assign(node.target, elem, frame)
    try:
        I.block(node.body, frame)
    except Cont:
        pass
    except Brk:
        raise Unsupported('the scan is left by break')
    for m, st in before.items():
        if m not in (sref.oid, rref.oid) and ctx.heap.get(m) is not st:
            raise Unsupported('the scan changes another object')
    for x in counters:
        t = I.kind(frame.vars[x], 'int')
        if t is None or not ctx.entails(t == i + 1 + off[x]):
            raise Unsupported('local ' + x)
    # ghost: the index of the pair an opening bracket belongs to
    new = I.state(rref)
    establish(I, i + 1, I.state(sref), new,
              lambda x: z3.If(z3.And(new.n > res.n, x == new.fns[0](res.n)),
                              res.n, Q(x)), 'one more character')
    raise Infeasible()


# --------------------------------------------------------------- harnesses
def call_parens(I, s):
    return outcome(I, lambda: I.run_body(I.p.func('find_parens'), [s], {}))


def result(I, r):
    if not isinstance(r, Ref) or not isinstance(I.state(r), TermSeq) \
            or len(I.state(r).fns) != 2:
        raise Unsupported('result of find_parens')
    return I.state(r)


def pairs(I):
    ctx = I.ctx
    s, n = begin(I)
    ctx.cover('any text')
    kind, r = call_parens(I, s)
    if kind == 'raise':
        return
    res = result(I, r)
    ctx.cover('a text is accepted')
    a, e = res.fns
    x, m, p, q = (ctx.const(v, Int) for v in ('position', 'index', 'open',
                                              'close'))
    for t in (n, x, m, q, m + 1, p, D(x), closes(q), e(m), e(m) - 1,
              I.ghost(x), a(closes(q))):
        use(I, t)
    ctx.prove('only balanced text is accepted', z3.And(
        D(n) == 0, z3.Implies(z3.And(x >= 0, x <= n), D(x) >= 0)))
    here = z3.And(m >= 0, m < res.n)
    ctx.prove('a reported span is a matching pair', z3.Implies(
        here, z3.And(matched(a(m), e(m) - 1, x), e(m) <= n)))
    ctx.prove('in the order of the closing brackets', z3.Implies(
        z3.And(here, m + 1 < res.n), e(m) < e(m + 1)))
    w = z3.Int('inside')
    ctx.assume(q < n)
    known(I, '', [w], matched(p, q, w))
    ctx.prove('every matching pair is reported', z3.And(
        closes(q) >= 0, closes(q) < res.n, a(closes(q)) == p,
        e(closes(q)) == q + 1))
    ctx.prove('every opening bracket is in a pair', z3.Implies(
        z3.And(x >= 0, x < n, ch(x) == 1), z3.And(
            I.ghost(x) >= 0, I.ghost(x) < res.n, a(I.ghost(x)) == x)))
    ctx.prove('every matching pair is reported once', z3.Implies(
        z3.And(here, e(m) == q + 1), m == closes(q)))


def balanced(I, n):
    x = z3.Int('prefix')
    I.ctx.assume(D(n) == 0)
    known(I, '', [x], z3.Implies(z3.And(x >= 0, x <= n), D(x) >= 0))
    use(I, n)


def accepted(I):
    ctx = I.ctx
    s, n = begin(I)
    balanced(I, n)
    I.invariant_known = True
    ctx.cover('a balanced text')
    kind, r = call_parens(I, s)
    ctx.prove('balanced text is accepted', z3.BoolVal(kind != 'raise'))


def c_parens(I, args, kwargs):
    """find_parens (verified above): the matching pairs of a balanced text in
    the order of the closing brackets; an error otherwise."""
    t = I.kind(arg(args, kwargs, 0, 's'), 'str')
    if t is None or not I.ctx.entails(t == I.text):
        raise Unsupported('find_parens of another text')
    n = I.length
    if not getattr(I, 'is_balanced', False):
        raise Unsupported('find_parens of a text that may not be balanced')
    A, E = (z3.Function('pair_' + x, Int, Int) for x in ('open', 'end'))
    num = z3.Int('number_of_pairs')
    res = TermSeq(num, [A, E], 'list')
    Q = F('pair_of', Int, Int)
    for clause in clauses(n, None, res, Q):
        known(I, *clause)
    o = call_open(I.text)
    for t in (o, Q(o), A(Q(o)), E(Q(o)), E(Q(o)) - 1):
        use(I, t)
    return I.new(res)


has_call = F('has_call', SS, B)
call_start = F('call_start', SS, Int)
call_open = F('call_open', SS, Int)
PATTERN = r'\b(np|pd)\.[\w.]*\('


def c_search(I, args, kwargs):
    """re.search for the head of an np. or pd. call."""
    p, t = args[0], I.kind(args[1], 'str')
    if p != PATTERN or t is None or not I.ctx.entails(t == I.text) \
            or len(args) != 2 or kwargs:
        raise Unsupported('re.search')
    if not I.ctx.branch(has_call(t)):
        return None
    o = call_open(t)
    I.ctx.define(z3.And(call_start(t) >= 0, call_start(t) < o,
                        o < I.length, ch(o) == 1))
    return Opaque('match', of=t)


def span(which):
    def f(I, obj, args, kwargs):
        if args not in ([], [0]) or kwargs:
            raise Unsupported('match.' + which)
        t = obj.info['of']
        lo, hi = sint(call_start(t)), sint(call_open(t) + 1)
        return {'start': lo, 'end': hi, 'span': (lo, hi)}[which]
    return f


def indices(t):
    """Arguments of functions in a term."""
    out = []
    for c in t.children():
        if c.sort() == Int:
            out += [c] + indices(c)
    return out


def call(I):
    ctx = I.ctx
    s, n = begin(I)
    balanced(I, n)
    I.is_balanced = True
    I.contracts.update({'find_parens': c_parens, 're.search': c_search})
    for x in ('start', 'end', 'span'):
        I.views[('opaque', 'match', x)] = span(x)
    ctx.cover('a balanced text')
    f = I.p.func('find_np_pd_methods')
    kind, r = outcome(I, lambda: I.run_body(f, [s], {}))
    t = I.text
    ctx.prove('no error for balanced text', z3.BoolVal(kind != 'raise'))
    if kind == 'raise':
        return
    if isinstance(r, Ref):
        r = tuple(I.state(r).items())
    if not isinstance(r, tuple) or len(r) != 2:
        raise Unsupported('result of find_np_pd_methods')
    if r == (None, None):
        ctx.prove('nothing is reported only if there is no call',
                  z3.Not(has_call(t)))
        return
    ctx.cover('a text with a call')
    a, e = [I.kind(v, 'int') for v in r]
    if a is None or e is None:
        ctx.prove('a span is two positions', z3.BoolVal(False))
        return
    x = ctx.const('inside', Int)
    for y in [x, e, e - 1] + indices(e):
        use(I, y)
    ctx.prove('a call is reported only if there is one', has_call(t))
    ctx.prove('from the start of the call', a == call_start(t))
    ctx.prove('to the end of its argument list', z3.And(
        e <= n, matched(call_open(t), e - 1, x)))


HARNESSES = [('pairs', pairs), ('balanced text', accepted), ('call', call)]
