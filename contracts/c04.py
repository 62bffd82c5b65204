"""C04: arithmetic in retrieval keys follows standard precedence."""
from contracts.common import *       # noqa: F401,F403
from contracts.common import (SS, arg, directory, group, key, outcome, setup,
                              sym_dict)
from contracts.arith import (B, OPERATIONS, OPS, Space, c_find_parens, c_len,
                             has, mean, new_term, parses, take_out, worth)

FUNCTIONS = ['AbstractGroup._getitem_math', 'AbstractGroup._getitem (keys '
             'with operators)', 'EquationDirectory._getitem (keys with '
             'operators)', 'AbstractGroup.__getitem__',
             'EquationDirectory.__getitem__']
ASSUMED = [
    'find_parens (verified by C16)', 'operators of Equation: the value of '
    'the result is the operation on the values (C03)',
    '_getitem for a part of the key: the equation it stands for, or an error '
    '(the same contract: induction over the length of the key; paths and '
    'numbers: C06)',
    'str.replace of a part in parentheses by a name: the text with the part '
    'taken out; lstrip("("), rstrip(")") of one pair of parentheses',
    'str(i) of different whole numbers are different texts of digits']
ASSUMPTIONS = [
    'laws of arithmetic: see contracts/arith.py; real numbers (rounding is '
    'outside)',
    'the key does not contain a temporary name (::workspace_1::)',
    'entries that are operands are equations, not groups',
    'termination (parts are shorter than the key)']
BOUNDED_FOR = ['values of whole keys, errors for malformed keys']


def mathematics(cls):
    def h(I):
        ctx = I.ctx
        setup(I)
        ctx.light(1500)
        # what is known of the texts is not complete: nothing is refuted
        ctx.approx.append('laws of texts')
        k = ctx.const('key', SS)
        I.text, I.spans, I.refused, I.calls = k, [], None, []
        I.calls_of = lambda w: []
        I.renamed = lambda w, v, p: None
        I.invariant = lambda p: z3.Not(has(p, '**'))
        I.space = sp = Space(I)
        # ** is ^
        r = F('py_replace', SS, SS, SS, SS)(
            k, z3.StringVal('**'), z3.StringVal('^'))
        ctx.define(mean(r) == mean(k))
        for c in '()[]{}+-/':
            ctx.define(has(r, c) == has(k, c))
        obj = S('v', ctx.const('obj', V))
        ctx.assume(has_cls(obj.t, cls))

        def c_item(I, args, kwargs):
            o = I.force(args[0])
            t = I.kind(arg(args, kwargs, 1, 'key'), 'str')
            w = arg(args, kwargs, 2, 'workspace')
            if t is None or not (isinstance(w, Ref)
                                 and w.oid == sp.ref.oid):
                raise Unsupported('recursive call')
            I.ctx.prove('parts are looked up in the same object',
                        I.tv(o) == obj.t)
            I.ctx.prove('parts that are looked up have no parentheses',
                        z3.Not(has(t, '(')))
            if not I.ctx.branch(parses(t)):
                I.refused = 'part'
                raise PyRaise(KeyError, ())
            return new_term(I, 'operand', mean(t))
        for c in ('AbstractGroup', 'EquationDirectory'):
            I.contracts[c + '._getitem'] = c_item
        I.contracts.update(OPERATIONS)
        I.contracts.update({'find_parens': c_find_parens,
                            'builtins.len': c_len})
        I.loop_rules['while'] = take_out
        I.now = None
        ctx.assume(z3.Or(*[has(k, o) for o in OPS]))
        ctx.cover('any key with an operator')
        before = ctx.heap[sp.ref.oid]
        f = I.p.method('AbstractGroup', '_getitem_math')
        kind, r = outcome(I, lambda: I.run_body(
            f, [obj, S('str', k), sp.ref], {}))
        brackets = z3.Or(*[has(k, c) for c in '[]{}'])
        if kind == 'raise':
            if I.refused is None:
                p = I.now
                ctx.prove('an error only for brackets, a bad part or a text '
                          'without operator', brackets if p is None else
                          z3.Or(brackets, z3.And(
                              z3.Not(I.state(sp.ref).dom(StrV(p), I.tv)),
                              *[z3.Not(has(p, o)) for o in OPS])))
            return
        ctx.cover('a value')
        ctx.prove('square and curly brackets are refused', z3.Not(brackets))
        p = I.now
        if p is None:
            raise Unsupported('no loop over the parts in parentheses')
        ctx.prove('the result is an equation', has_cls(I.tv(r), 'Equation'))
        ctx.prove('the value of the key by the standard rules',
                  worth(I.tv(r)) == mean(k))
        ctx.prove('a key without parentheses leaves the workspace',
                  z3.Or(has(k, '('), z3.BoolVal(
                      ctx.heap[sp.ref.oid] is before)))
    return h


def dispatch(cls, how):
    def h(I):
        ctx = I.ctx
        setup(I)
        ctx.light(1000)
        obj = (directory if cls == 'EquationDirectory' else group)(
            I, 'obj', *([] if cls == 'EquationDirectory' else [cls]))[0]
        k = ctx.const('key', SS)
        ctx.assume(z3.Or(*[has(k, o) for o in OPS]))
        out = ctx.const('result', V)
        box = []

        def c_math(I, args, kwargs):
            o, t = args[0], I.kind(arg(args, kwargs, 1, 'key'), 'str')
            w = arg(args, kwargs, 2, 'workspace')
            I.ctx.prove('the arithmetic is done on the object itself',
                        z3.BoolVal(o == obj))
            if t is None or not isinstance(w, Ref):
                raise Unsupported('arguments')
            I.ctx.prove('the arithmetic is that of the key', t == k)
            if how == '__getitem__':
                I.ctx.prove('the workspace is empty at the start',
                            z3.Not(I.state(w).dom(key(I, 'any'), I.tv)))
            else:
                I.ctx.prove('the workspace is handed on',
                            z3.BoolVal(w == ws))
            box.append(1)
            if I.ctx.choose('fails'):
                raise PyRaise(KeyError, ())
            return from_v(out)
        I.contracts['AbstractGroup._getitem_math'] = c_math
        args = [obj, S('str', k)]
        ws = None
        if how == '_getitem':
            ws = sym_dict(I, 'workspace')[0]
            args.append(ws)
        ctx.cover('a key with an operator')
        kind, r = outcome(I, lambda: I.run_body(I.p.method(cls, how), args,
                                                {}))
        ctx.prove('a key with an operator is arithmetic',
                  z3.BoolVal(len(box) == 1))
        if kind == 'ok':
            ctx.prove('its value is the result', I.tv(r) == out)
    return h


HARNESSES = [('arithmetic of a group', mathematics('EquationGroup')),
             ('arithmetic of a directory', mathematics('EquationDirectory'))
             ] + [('%s %s' % (c, n), dispatch(c, n))
                  for c in ('EquationGroup', 'VariableGroup',
                            'EquationDirectory')
                  for n in ('__getitem__', '_getitem')]
