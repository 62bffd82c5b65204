"""C01: what Equation.evaluate hands to eval, and what it leaves alone."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (SS, TRUE, arg, clean, copy_of, dom, equation,
                              key, normal, numeric_input, outcome, setup,
                              same_dict, sym_dict, val, vars_of)

FUNCTIONS = ['Equation.evaluate', 'Equation.eval',
             'Equation._check_input_args', 'Equation._merge_vars',
             'Equation.variables', 'Equation.is_num',
             'Equation.set_default_variables']
ASSUMED = ['Equation.parse_variables returns the variables of the text '
           '(C18, bounded)',
           "builtins.eval: the value of a text depends only on the text, the "
           "module's globals and the names in the namespace; it changes "
           "neither"]
ASSUMPTIONS = [
    'copy.deepcopy makes an equal, unshared copy',
    'numpy: np.issubdtype and astype(float32) as documented']
BOUNDED_FOR = ['the value of the expression itself (python eval)',
               'the same result on repetition, from the frame obligations']


def eval_contract(I, args, kwargs):
    """builtins.eval(text, globals, locals)"""
    ns = args[2] if len(args) > 2 else kwargs.get('locals')
    text = I.kind(args[0], 'str')
    if text is None:
        raise Unsupported('eval of something that is not text')
    glob = args[1] if len(args) > 1 else None
    if not isinstance(glob, GlobalsVal):
        raise Unsupported('eval with other globals')
    st = I.state(ns) if isinstance(ns, Ref) else None
    r = I.ctx.fresh(V, 'eval_result')
    ev = {'text': text, 'ns': st, 'result': r, 'raised': False}
    I.ctx.events.append(('eval', ev))
    if I.ctx.choose('eval_raises'):
        ev['raised'] = True
        raise unknown_raise()
    return from_v(r)


def start(I):
    setup(I, {'builtins.eval': eval_contract})
    eq, text, dd, dv = equation(I, 'self')
    kw, kd, kv = sym_dict(I, 'kw', lambda k, v: is_str(k))
    return eq, text, dd, dv, kw, kd, kv


def spec_ns(ctx, I, st, dd, dv, kd, kv, k):
    """Obligations: the namespace is the defaults overridden by the call."""
    dk, vk = st.dom(k, I.tv), st.val(k, I.tv)
    ctx.prove('a name is bound iff it was supplied or has a default',
              dk == z3.Or(kd(k), dd(k)))
    ctx.prove('a supplied value is bound, integers as floating point',
              z3.Implies(kd(k), vk == normal(kv(k))))
    ctx.prove('otherwise the default is bound',
              z3.Implies(z3.And(z3.Not(kd(k)), dd(k)),
                         copy_of(vk, dv(k))))


def evaluate(entry):
    def h(I):
        ctx = I.ctx
        eq, text, dd, dv, kw, kd, kv = start(I)
        ctx.cover('precondition')
        k = key(I)
        f = I.p.method('Equation', entry)
        kind, r = outcome(I, lambda: I.call_func(f, [eq], {'**': kw}))
        evals = [e for n, e in ctx.events if n == 'eval']
        st = I.state(eq)
        # frame, on every exit
        ctx.prove('the text of the equation is unchanged',
                  I.tv(st.attrs['_eqn']) == StrV(text))
        d = st.attrs['_default_variables']
        ctx.prove('the defaults are the same dictionary',
                  z3.BoolVal(isinstance(d, Ref)
                             and d.oid == eq_defaults(I)))
        same_dict(I, ctx, 'the defaults are unchanged', d, dd, dv, k)
        same_dict(I, ctx, "the caller's inputs are unchanged", kw, kd, kv, k)
        if kind == 'raise':
            return
        ctx.prove('exactly one text is evaluated',
                  z3.BoolVal(len(evals) == 1 and not evals[0]['raised']
                             and evals[0]['ns'] is not None))
        if len(evals) != 1 or evals[0]['ns'] is None:
            return
        e = evals[0]
        ctx.prove('the text evaluated is the text of the equation',
                  e['text'] == text)
        spec_ns(ctx, I, e['ns'], dd, dv, kd, kv, k)
        ctx.prove('the result is the value of the text',
                  I.tv(r) == e['result'])
        # errors: no return when a name has no value or a type is wrong
        x = key(I, 'name')
        ctx.prove('returning means that every name has a value',
                  z3.Implies(is_var(text, x),
                             z3.Or(kd(x), dd(x))))
        ctx.prove('returning means that every supplied value is a number, '
                  'list, tuple or array',
                  z3.Implies(kd(x), numeric_input(kv(x))))
    return h


def eq_defaults(I):
    return I.ctx.named_refs['defaults']


def accepts(I):
    """No error of its own: with all names bound and proper values only the
    evaluation of the text itself can fail."""
    ctx = I.ctx
    eq, text, dd, dv, kw, kd, kv = start(I)
    q = z3.Const('q', V)
    ctx.forall([q], z3.Implies(is_var(text, q), z3.Or(kd(q), dd(q))))
    ctx.forall([q], z3.Implies(kd(q), numeric_input(kv(q))))
    ctx.cover('all names bound')
    f = I.p.method('Equation', 'evaluate')
    kind, r = outcome(I, lambda: I.call_func(f, [eq], {'**': kw}))
    evals = [e for n, e in ctx.events if n == 'eval']
    ctx.prove('the text is evaluated when nothing is missing',
              z3.BoolVal(len(evals) == 1 and (kind == 'ok'
                                              or evals[0]['raised'])))


def is_num_body(I):
    """The body of is_num against the contract used elsewhere."""
    ctx = I.ctx
    f = I.p.method('Equation', 'is_num')
    s = ctx.const('s', V)
    kind, r = outcome(I, lambda: I.call_func(f, [from_v(s)], {}))
    ctx.prove('is_num never raises', z3.BoolVal(kind == 'ok'))
    if kind == 'ok':
        t = I.truth(r)
        t = z3.BoolVal(t) if isinstance(t, bool) else t
        ctx.prove('is_num(s) iff float(str(s)) succeeds',
                  t == is_numeral(z3.If(is_str(s), vs(s), str_of(s))))


def set_defaults(I):
    """Equation.set_default_variables: right-biased update with copies."""
    ctx = I.ctx
    setup(I)
    eq, text, dd, dv = equation(I, 'self')
    d0 = I.state(eq).attrs['_default_variables']
    new, nd, nv = sym_dict(I, 'new')
    none = ctx.choose('none_given')
    k = key(I)
    f = I.p.method('Equation', 'set_default_variables')
    kind, r = outcome(I, lambda: I.call_func(
        f, [eq, None if none else new], {}))
    ctx.prove('set_default_variables does not raise',
              z3.BoolVal(kind == 'ok'))
    if kind != 'ok':
        return
    d = I.state(eq).attrs['_default_variables']
    given = z3.BoolVal(not none)
    dk, vk = dom(I, d, k), val(I, d, k)
    ctx.prove('defaults afterwards are the old ones and the given ones',
              dk == z3.Or(dd(k), z3.And(given, nd(k))))
    ctx.prove('the given value is used where both exist',
              z3.Implies(z3.And(given, nd(k)), copy_of(vk, nv(k))))
    ctx.prove('other defaults are kept',
              z3.Implies(z3.And(dd(k), z3.Not(z3.And(given, nd(k)))),
                         vk == dv(k)))
    ctx.prove('the text is unchanged',
              I.tv(I.state(eq).attrs['_eqn']) == StrV(text))
    same_dict(I, ctx, 'the given dictionary is unchanged', new, nd, nv, k)
    ctx.prove('the given dictionary is not shared',
              z3.BoolVal(d.oid != new.oid))


HARNESSES = [('evaluate', evaluate('evaluate')),
             ('eval', evaluate('eval')),
             ('evaluate accepts', accepts),
             ('is_num', is_num_body),
             ('set_default_variables', set_defaults)]
