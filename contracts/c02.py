"""C02: every equation that exists has a text without forbidden fragments, and
only the text of an equation is ever executed."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (ILLEGAL, SS, TRUE, clean, defaults_of, dom, equation, is_var, key,
                              outcome, ok_text, setup, static, sym_dict, text_of,
                              val, EQN)

FUNCTIONS = ['Equation.__init__', 'Equation._preflight',
             'Equation.replace_equation', 'Equation.__add__',
             'Equation.__sub__', 'Equation.__mul__', 'Equation.__truediv__',
             'Equation.__pow__', 'Equation._Equation__eqn_math',
             'all functions (scan for stores to _eqn and for uses of eval, '
             'exec, compile)']
ASSUMED = ['Equation.parse_variables returns the variables of the text '
           '(C18, bounded)']
ASSUMPTIONS = ['no code outside the repository stores into Equation._eqn; '
               'copy.deepcopy of an equation has the same text']
BOUNDED_FOR = ['the same through group files, directories and '
               'configurations, end to end']


def construct(I):
    ctx = I.ctx
    setup(I)
    e = ctx.const('eqn', V)
    n = ctx.const('name', V)
    ctx.assume(z3.Or(is_none(n), is_str(n)))
    given, _, _ = sym_dict(I, 'given')
    dv = None if ctx.choose('no_defaults') else given
    text = z3.If(is_str(e), vs(e), str_of(e))
    ctx.cover('any text')
    kind, r = outcome(I, lambda: I.call(I.p.cls('Equation'),
                                        [from_v(e), from_v(n), dv], {}))
    if kind == 'raise':
        ctx.prove('the constructor raises a ValueError',
                  z3.BoolVal(issubclass(r.cls, ValueError)))
        ctx.prove('a text is refused only for a fragment or a '
                  'self-reference',
                  z3.Or(z3.Not(clean(text)),
                        z3.And(is_str(n), is_var(text, n))))
        return
    t = text_of(I, r)
    ctx.prove('the text is the given one', t == text)
    ctx.prove('a self-reference is refused',
              z3.Not(z3.And(is_str(n), is_var(text, n))))
    ctx.prove('the name is the given one',
              I.tv(I.state(r).attrs['_base_name']) == n)
    k = key(I)
    ds = defaults_of(I, r)
    ctx.prove('the defaults are the given ones', z3.And(
        dom(I, ds, k) == (z3.BoolVal(False) if dv is None
                          else dom(I, given, k)),
        z3.Implies(dom(I, ds, k), val(I, ds, k) == val(I, given, k))))
    for f in ILLEGAL:
        ctx.prove('an equation with {!r} is refused'.format(f),
                  z3.Not(z3.Contains(t, z3.StringVal(f))))


def replace(I):
    ctx = I.ctx
    setup(I)
    eq, text, dd, dv = equation(I, 'self')
    e = ctx.const('new', V)
    new = z3.If(is_str(e), vs(e), str_of(e))
    f = I.p.method('Equation', 'replace_equation')
    kind, r = outcome(I, lambda: I.call_func(f, [eq, from_v(e)], {}))
    if kind == 'raise':
        return
    t = text_of(I, r)
    ctx.prove('the text of the replacement is the given one', t == new)
    ctx.prove('a replacement has no forbidden fragment', clean(t))
    ctx.prove('the original keeps its text', text_of(I, eq) == text)


def operator(name):
    def h(I):
        ctx = I.ctx
        setup(I, EQN)
        a, t1, _, _ = equation(I, 'left')
        if ctx.choose('other_is_equation'):
            b = equation(I, 'right')[0]
        else:
            b = from_v(ctx.const('other', V))
            ctx.assume(z3.Not(is_obj(I.tv(b))))
        f = I.p.method('Equation', name)
        kind, r = outcome(I, lambda: I.call_func(f, [a, b], {}))
        if kind == 'raise':
            return
        ctx.prove('the result has no forbidden fragment',
                  ok_text(text_of(I, r)))
    return h


DANGER = ('eval', 'exec', 'compile', '__import__', 'execfile')


@static
def scan(program, rep):
    """Whole-repository frame: who writes the text, who executes text."""
    import os
    writes, execs, other = [], [], []
    root = os.path.join(program.repo, 'NRWAL')
    for d, _, files in sorted(os.walk(root)):
        for fn in sorted(files):
            if not fn.endswith('.py'):
                continue
            path = os.path.join(d, fn)
            tree = ast.parse(open(path).read())
            _scan(tree, os.path.relpath(path, program.repo), '', writes,
                  execs, other)
    E = 'NRWAL/handlers/equations.py'

    def rec(name, bad):
        rep.record(name, 'undecided' if bad else 'discharged', str(bad),
                   'ast scan')
    rec('the text of an equation is stored only by its constructor',
        [w for w in writes if w != (E, 'Equation.__init__')])
    rec('text is executed only by Equation.evaluate',
        [x for x in execs if x != (E, 'Equation.evaluate', 'eval')])
    rec('no other way to set attributes or make objects is used', other)


def _scan(node, path, scope, writes, execs, other):
    for ch in ast.iter_child_nodes(node):
        s = scope
        if isinstance(ch, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            s = (scope + '.' if scope else '') + getattr(ch, 'name', 'lambda')
        if isinstance(ch, ast.Attribute) and ch.attr == '_eqn' \
                and isinstance(ch.ctx, (ast.Store, ast.Del)):
            writes.append((path, s))
        if isinstance(ch, ast.Call):
            f = ch.func
            n = f.id if isinstance(f, ast.Name) else \
                f.attr if isinstance(f, ast.Attribute) else None
            if isinstance(f, ast.Name) and n in DANGER:
                execs.append((path, s, n))
            if isinstance(f, ast.Attribute) and n in ('exec', 'system',
                                                      'popen', 'run'):
                execs.append((path, s, n))
            if n in ('setattr', '__setattr__', '__new__', 'vars'):
                other.append((path, s, n))
        if isinstance(ch, ast.Attribute) and ch.attr == '__dict__':
            other.append((path, s, '__dict__'))
        if isinstance(ch, ast.Attribute) and ch.attr in DANGER \
                and isinstance(ch.value, ast.Name) \
                and ch.value.id in ('pd', 'np', 'builtins'):
            execs.append((path, s, ch.attr))
        _scan(ch, path, s, writes, execs, other)


HARNESSES = [('constructor', construct), ('replace_equation', replace)] + [
    ('operator ' + n, operator(n)) for n in
    ('__add__', '__sub__', '__mul__', '__truediv__', '__pow__')] + [
    ('scan', scan)]
