"""C07: nearest and interpolated power and year lookup."""
from contracts import c06
from contracts.common import *       # noqa: F401,F403
from contracts.common import (SS, EQN, FLAGS, TRUE, arg, bag_sound, equation,
                              group, new_equation, outcome, setup, sym_dict)
from contracts.c06 import CONTAINERS, OPS, SEP, Tree, lookup, n_comp, walk
from pyvc import regex, vectors
from pyvc.interp import SeqState
from pyvc.values import sint

FUNCTIONS = ['AbstractGroup.find_nearest_power_eqns',
             'AbstractGroup.find_nearest_year_eqns',
             'AbstractGroup._get_nn_eqns_values', 'AbstractGroup._getitem',
             'AbstractGroup.__getitem__', 'AbstractGroup.is_power_eqn',
             'AbstractGroup.is_year_eqn', 'AbstractGroup.__init__',
             'AbstractGroup._parse_power', 'AbstractGroup._parse_year']
ASSUMED = [
    're.search with an end-anchored pattern of characters, classes and one '
    'repetition; int and float of a text of digits',
    'the number that a text of digits denotes is not negative',
    'np.array, np.abs and np.argsort (positions in ascending order of the '
    'values), selection of an array by positions',
    'arithmetic on equations is arithmetic on their values (C03)',
    'an equation without variables evaluates to its value, Equation(number) '
    'has that value (C01, C02)']
ASSUMPTIONS = [
    'entries whose names end in a power or year are equations (the '
    'interpolation of anything else is an error)',
    'two entries of one base name have different values (a_5MW and a_05MW '
    'do not; there is no line through them)',
    'keys contain no line break (a $ matches before a last one)',
    ] + c06.ASSUMPTIONS[:1]
BOUNDED_FOR = ['options given to directories and configurations']
Int, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
KINDS = ('power', 'year')
has = {k: F('has_' + k, SS, B) for k in KINDS}
num = {'power': F('power_of', SS, R), 'year': F('year_of', SS, Int)}
base = {k: F('base_of_' + k, SS, SS) for k in KINDS}
value_of = F('value_for_some_inputs', V, R)
varies = F('has_variables', V, B)


def number(kind, k):
    n = num[kind](k)
    return z3.ToReal(n) if n.sort() == Int else n


def positive(kind, k):
    return z3.And(has[kind](k), num[kind](k) != 0)


def key_facts(I, t):
    """What is known of any key."""
    t = z3.simplify(t)
    for k in KINDS:
        I.ctx.define(z3.Implies(has[k](t), z3.And(
            t != z3.StringVal(''), num[k](t) >= 0)))
        for o in (SEP,) + tuple(z3.StringVal(o) for o in OPS):
            I.ctx.define(z3.Implies(has[k](t), z3.Contains(t, o) ==
                                    z3.Contains(base[k](t), o)))
    I.ctx.define(z3.Implies(has['year'](t), num['year'](t) > 0))
    I.ctx.define(z3.Not(z3.And(has['power'](t), has['year'](t))))


def c_parse(kind):
    def f(I, args, kwargs):
        t = I.kind(I.force(arg(args, kwargs, 0, 'key')), 'str')
        if t is None:
            x = I.tv(args[0])
            if not I.ctx.entails(is_str(x)):
                raise Unsupported('key that is no text')
            t = vs(x)
        key_facts(I, t)
        if not I.ctx.branch(has[kind](t)):
            return (None, sstr(t))
        n = num[kind](t)
        return (S('real' if n.sort() == R else 'int', n), sstr(base[kind](t)))
    return f


PARSE = {'AbstractGroup._parse_' + k: c_parse(k) for k in KINDS}


class Candidates:
    """Entries of a container that match a request."""

    def __init__(self, kind, request, dom, val):
        self.kind, self.request, self.dom, self.val = kind, request, dom, val

    def match(self, k):
        t = vs(k)
        return z3.And(self.dom(k), is_str(k), positive(self.kind, t),
                      positive(self.kind, self.request),
                      base[self.kind](t) == base[self.kind](self.request))

    def number(self, k):
        return number(self.kind, vs(k))

    def distance(self, k):
        d = number(self.kind, self.request) - self.number(k)
        return z3.If(d < 0, -d, d)


def contents(I, g):
    """Entries of the container given to find_nearest_*."""
    g = I.force(g)
    if isinstance(g, Ref) and isinstance(I.state(g), DictState):
        st = I.state(g)
        return (lambda k: st.dom(k, I.tv)), (lambda k: st.val(k, I.tv))
    if isinstance(g, Ref) and isinstance(I.state(g), ObjState):
        return contents(I, I.state(g).attrs['_group'])
    if isinstance(g, S) and g.kind == 'v':
        t = g.t
        return (lambda k: grp_dom(t, k)), (lambda k: grp_val(t, k))
    raise Unsupported('container')


# ----------------------------------------------- find_nearest_*: the search
def search(kind, where):
    def h(I):
        ctx = I.ctx
        setup(I, EQN)
        ctx.light(1000)
        I.contracts.update(c06.CONTRACTS)
        I.contracts.update(PARSE)
        I.lazy_seqs = True
        vectors.install(I)
        obj, (ed, ev), _ = group(I, 'grp')
        r = ctx.const('request', SS)
        key_facts(I, r)
        args = [obj, S('str', r)]
        if where == 'given':
            d, ed, ev = sym_dict(I, 'given', lambda k, v: is_str(k))
            args.append(d)
        if where == 'contained':
            g = ctx.const('contained', V)
            ctx.assume(has_cls(g, 'EquationGroup'))
            for o in (SEP,) + tuple(z3.StringVal(o) for o in OPS):
                ctx.assume(z3.Not(z3.Contains(r, o)))
            q = z3.Const('any_name', V)
            ctx.forall([q], z3.Implies(grp_dom(g, q), is_str(q)))
            ed, ev = (lambda k: grp_dom(g, k)), (lambda k: grp_val(g, k))
            args.append(from_v(g))
        c = Candidates(kind, r, ed, ev)
        ctx.cover('any request')
        f = I.p.method('EquationGroup', 'find_nearest_{}_eqns'.format(kind))
        out, res = outcome(I, lambda: I.run_body(f, args, {}))
        ctx.prove('no error', z3.BoolVal(out == 'ok'))
        if out != 'ok':
            return
        if isinstance(res, Ref):
            res = tuple(I.state(res).items())
        if not isinstance(res, tuple) or len(res) != 2:
            raise Unsupported('result')
        eqns, vals = [I.state(x) for x in res]
        k = ctx.const('some_key', V)
        ctx.touch(k)
        ctx.define(z3.Implies(ed(k), is_str(k)))
        key_facts(I, vs(k))
        if isinstance(eqns, ListState) and isinstance(vals, ListState):
            # nothing was sorted: nothing may match
            ctx.prove('every entry of the base name is a candidate',
                      z3.Not(c.match(k)))
            for ref in res:
                bag_sound(I, ctx, 'only entries of the base name', ref,
                          lambda e, ws: z3.BoolVal(False))
            return
        ctx.cover('some candidates')
        if not (isinstance(eqns, SeqState) and isinstance(vals, SeqState)):
            raise Unsupported('result')
        ctx.prove('one value for each entry', eqns.n == vals.n)
        if len(I.enumerations) != 1 or len(I.sortings) != 1:
            raise Unsupported('order of the entries')
        enum, srt = I.enumerations[0][1], I.sortings[0]
        i, j = ctx.const('place_1', Int), ctx.const('place_2', Int)
        ctx.assume(z3.And(i >= 0, i < j, j < eqns.n))

        def key_at(x):
            t = enum.at(I, srt.at(I, x))
            key_facts(I, vs(t))
            ctx.define(z3.Implies(ed(t), is_str(t)))
            return t
        for x in (i, j):
            t = key_at(x)
            ctx.prove('only entries of the base name', c.match(t))
            ctx.prove('the entry itself', I.tv(eqns.elem(x)) == ev(t))
            ctx.prove('its value', I.kind(vals.elem(x), 'real')
                      == c.number(t))
        ti, tj = key_at(i), key_at(j)
        ctx.prove('no entry twice', ti != tj)
        ctx.prove('the closest first', c.distance(ti) <= c.distance(tj))
        p = srt.place(I, enum.place(I, k))
        ctx.prove('every entry of the base name is a candidate', z3.Implies(
            c.match(k), z3.And(p >= 0, p < eqns.n, key_at(p) == k)))
    return h


# ------------------------------------------------- the lookup with options
def c_nearest(kind):
    """find_nearest_*_eqns (verified above): the candidates by distance."""
    def f(I, args, kwargs):
        t = I.kind(arg(args, kwargs, 1, 'request'), 'str')
        g = arg(args, kwargs, 2, 'group')
        if t is None:
            raise Unsupported('request')
        d, v = contents(I, I.state(args[0]).attrs['_group']
                        if g is None else g)
        c = Candidates(kind, t, d, v)
        n = F('candidates_' + kind, SS, Int)(t)
        key = F('nearest_' + kind, SS, Int, V)
        I.ctx.define(n >= 0)
        key_facts(I, t)
        I.ctx.define(z3.Implies(z3.Not(positive(kind, t)), n == 0))

        def at(j):
            k = key(t, j)
            I.ctx.touch(k)
            I.ctx.define(z3.Implies(z3.And(j >= 0, j < n), z3.And(
                c.match(k), has_cls(v(k), 'Equation'))))
            return k
        a, b = at(z3.IntVal(0)), at(z3.IntVal(1))
        I.ctx.define(z3.Implies(n > 1, c.number(a) != c.number(b)))

        def val(j):
            x = num[kind](vs(at(j)))
            return S('real', x) if x.sort() == R else sint(x)
        I.searched[kind] = n
        return (I.new(SeqState(n, lambda j: I.fv(v(at(j))))),
                I.new(SeqState(n, val)))
    return f


def arithmetic(op):
    def f(I, args, kwargs):
        ts = []
        for x in args:
            x = I.force(x)
            r = I.kind(x, 'real')
            if r is None:
                t = I.tv(x)
                if not I.ctx.entails(has_cls(t, 'Equation')):
                    raise Unsupported('operand')
                r = value_of(t)
            ts.append(r)
        if op == '/':
            I.ctx.assume(ts[1] != 0)
        return made(I, {'+': ts[0] + ts[1], '-': ts[0] - ts[1],
                        '*': ts[0] * ts[1], '/': ts[0] / ts[1]}[op])
    return f


def made(I, value):
    t = I.ctx.fresh(V, 'equation')
    I.ctx.define(z3.And(has_cls(t, 'Equation'), value_of(t) == value))
    return S('v', t)


def c_variables(I, args, kwargs):
    t = I.tv(I.force(args[0]))
    return I.new_list(['x'] if I.ctx.branch(varies(t)) else [])


def c_eval(I, args, kwargs):
    t = I.tv(I.force(args[0]))
    if not I.ctx.entails(z3.Not(varies(t))) or len(args) > 1 or kwargs:
        raise Unsupported('evaluation of an equation with variables')
    return S('real', value_of(t))


def c_new(I, cls, args, kwargs):
    x = I.force(arg(args, kwargs, 0, 'eqn'))
    r = I.kind(x, 'real')
    if r is not None and not isinstance(x, bool):
        return made(I, r)
    return new_equation(I, cls, args, kwargs)


MATH = {'Equation.__' + n + '__': arithmetic(o) for n, o in (
    ('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'))}
MATH.update({'Equation.variables': c_variables, 'Equation.eval': c_eval,
             'Equation.evaluate': c_eval, 'Equation.__new__': c_new})
MATH.update({'AbstractGroup.find_nearest_{}_eqns'.format(k): c_nearest(k)
             for k in KINDS})


class Options(Tree):
    """The meaning of a path when options are on."""

    def last(self, I, i):
        return z3.Or(z3.Not(z3.Contains(I.path, SEP)),
                     i == n_comp(I.path) - 1)

    def entries(self, i):
        if z3.is_int_value(i):
            return self.ed, self.ev
        w = walk(i)
        return (lambda k: grp_dom(w, k)), (lambda k: grp_val(w, k))

    def flag(self, I, name, kind):
        return I.state(I.obj).attrs['_{}_{}'.format(name, kind)].t

    def on(self, I, kind):
        return z3.Or(self.flag(I, 'interp_extrap', kind),
                     self.flag(I, 'use_nearest', kind))

    def reached(self, I, i, c, value):
        ctx = I.ctx
        stored = self.exists(i, c)
        ctx.prove('a stored key returns its own entry', z3.Implies(
            stored, I.tv(value) == self.step(i, c)))
        for kind in KINDS:
            ctx.prove('nothing is substituted for other keys', z3.Or(
                stored, *[z3.And(self.last(I, i), has[k](c), self.on(I, k))
                          for k in KINDS]))
            here = z3.And(z3.Not(stored), has[kind](c))
            n = F('candidates_' + kind, SS, Int)(c)
            key = F('nearest_' + kind, SS, Int, V)
            dom, val = self.entries(i)
            cand = Candidates(kind, c, dom, val)
            a, b = key(c, z3.IntVal(0)), key(c, z3.IntVal(1))
            line = z3.And(n >= 2, self.flag(I, 'interp_extrap', kind))
            ctx.prove('an entry of the base name exists ({})'.format(kind),
                      z3.Implies(here, z3.And(n >= 1, cand.match(a))))
            ctx.prove('the nearest entry ({})'.format(kind), z3.Implies(
                z3.And(here, z3.Not(line)), I.tv(value) == val(a)))
            x1, x3, x = cand.number(a), cand.number(b), number(kind, c)
            y1, y3 = value_of(val(a)), value_of(val(b))
            y = value_of(I.tv(value))
            ctx.prove('the two nearest entries ({})'.format(kind),
                      z3.Implies(z3.And(here, line), z3.And(
                          cand.match(a), cand.match(b), x1 != x3)))
            ctx.prove('the line through the two nearest ({})'.format(kind),
                      z3.Implies(z3.And(here, line), (y - y1) * (x3 - x1)
                                 == (y3 - y1) * (x - x1)))

    def missing(self, I, i, c):
        ctx = I.ctx
        ctx.prove('a stored key is no error', z3.Not(self.exists(i, c)))
        for kind in KINDS:
            n = F('candidates_' + kind, SS, Int)(c)
            ctx.prove('an error means no candidate ({})'.format(kind),
                      z3.Implies(z3.And(self.last(I, i), has[kind](c),
                                        has_cls(walk(i), *CONTAINERS)
                                        if not z3.is_int_value(i) else TRUE,
                                        self.on(I, kind)), n == 0))


def prepare(I, obj):
    I.obj = obj
    I.searched = {}
    I.contracts.update(PARSE)
    I.contracts.update(MATH)
    key_facts(I, I.path)
    key_facts(I, c06.comp_at(I.path, z3.IntVal(0)))


# ------------------------------------------------------ what a key says
def parse(kind):
    def h(I):
        ctx = I.ctx
        setup(I)
        regex.install(I)
        t = ctx.const('key', SS)
        n = z3.Length(t)
        digit = z3.Range('0', '9')

        def one(*xs):
            return z3.Union(*[z3.Re(z3.StringVal(x)) for x in xs])
        ctx.assume(z3.Not(z3.Contains(t, z3.StringVal('\n'))))
        if kind == 'power':
            at = regex.last_facts(I, t, '_')
            tail = z3.Concat(z3.Re(z3.StringVal('_')), z3.Plus(digit),
                             one('m', 'M'), one('w', 'W'))
            num_ = z3.StrToInt(z3.SubString(t, at + 1, n - at - 3))
            fits = TRUE
        else:
            at = n - 5
            tail = z3.Concat(z3.Re(z3.StringVal('_')), one('1', '2'),
                             z3.Loop(digit, 3, 3))
            num_ = z3.StrToInt(z3.SubString(t, n - 4, 4))
            fits = z3.And(num_ >= 1800, num_ <= 2200)
        is_it = z3.And(at >= 0, z3.InRe(z3.SubString(t, at, n - at), tail),
                       fits)
        ctx.cover('any key')
        f = I.p.method('AbstractGroup', '_parse_' + kind)
        out, r = outcome(I, lambda: I.run_body(f, [S('str', t)], {}))
        ctx.prove('no error', z3.BoolVal(out == 'ok'))
        if out != 'ok':
            return
        if isinstance(r, Ref):
            r = tuple(I.state(r).items())
        if not isinstance(r, tuple) or len(r) != 2:
            raise Unsupported('result')
        b = I.kind(r[1], 'str')
        if b is None:
            raise Unsupported('base name')
        if r[0] is None:
            ctx.prove('no value only for a key without one',
                      z3.Not(is_it))
            ctx.prove('a key without a value is its own base name', b == t)
            return
        ctx.cover('a key with a value')
        v = I.kind(r[0], 'real')
        ctx.prove('a value only for a key that has one', is_it)
        ctx.prove('the number at the end of the key', v == z3.ToReal(num_))
        ctx.prove('the base name is what stands before it',
                  b == z3.SubString(t, 0, at))
    return h


def lemmas(I):
    """key_facts, from what 'parse power' and 'parse year' prove of a key:
    base + '_' + digits + 'MW', or base + '_' + four digits."""
    ctx = I.ctx
    setup(I)
    b, d, x = (ctx.const(n, SS) for n in ('base', 'digits', 'unit'))
    digit = z3.Range('0', '9')

    def one(*xs):
        return z3.Union(*[z3.Re(z3.StringVal(y)) for y in xs])
    power = I.ctx.const('is_power', B)
    if I.ctx.branch(power):
        ctx.assume(z3.InRe(d, z3.Plus(digit)))
        ctx.assume(z3.InRe(x, z3.Concat(one('m', 'M'), one('w', 'W'))))
        t = z3.Concat(b, z3.StringVal('_'), d, x)
    else:
        ctx.assume(z3.InRe(d, z3.Concat(one('1', '2'),
                                        z3.Loop(digit, 3, 3))))
        t = z3.Concat(b, z3.StringVal('_'), d)
        ctx.prove('a key has not both', z3.Not(z3.Or(
            z3.SuffixOf(z3.StringVal('w'), t),
            z3.SuffixOf(z3.StringVal('W'), t))))
    ctx.cover('any key')
    ctx.prove('a key with a value is not empty', t != z3.StringVal(''))
    for o in ('::',) + OPS:
        ctx.prove(o + ' is in the key if in the base name',
                  z3.Contains(t, z3.StringVal(o))
                  == z3.Contains(b, z3.StringVal(o)),
                  ms=1000 if o == '::' else None)     # cvc5 decides


def options(I):
    """The constructor keeps the options."""
    ctx = I.ctx
    setup(I)
    parsed = I.new_dict()
    I.contracts['EquationGroup._parse_group'] = lambda I, a, k: parsed
    vals = {f: ctx.const(f, B) for f in FLAGS}
    ctx.cover('any options')
    obj = I.new_obj(I.p.cls('EquationGroup'), {})
    kind, r = outcome(I, lambda: I.run_body(
        I.p.method('EquationGroup', '__init__'), [obj, I.new_dict()],
        {f: S('bool', v) for f, v in vals.items()}))
    ctx.prove('no error', z3.BoolVal(kind == 'ok'))
    if kind != 'ok':
        return
    for f, v in vals.items():
        x = I.state(obj).attrs.get('_' + f)
        if x is None:
            raise Unsupported('attribute of an option')
        t = I.truth(x)
        ctx.prove('the option is kept ' + f,
                  (z3.BoolVal(t) if isinstance(t, bool) else t) == v)


HARNESSES = [
    ('lookup with options', lookup('EquationGroup', kind_of=Options,
                                   prepare=prepare)),
    ('options', options), ('lemmas', lemmas)]
for _k in KINDS:
    HARNESSES.append(('parse ' + _k, parse(_k)))
    for _w in ('own', 'given', 'contained'):
        HARNESSES.append(('nearest {} {}'.format(_k, _w), search(_k, _w)))
