"""Lists of unknown length with integer terms as elements.

`TermSeq(n, fns, form)`: n elements; element k is the integer fns[0](k) for
form 'int', and a list or tuple of the integers f(k), f in fns, otherwise."""
import z3

from pyvc.interp import SeqState
from pyvc.values import Ref, ListState, PyRaise, S, Unsupported, sint


class TermSeq(SeqState):
    def __init__(self, n, fns, form='int'):
        SeqState.__init__(self, n, None)
        self.fns = list(fns)
        self.form = form

    def item(self, I, k):
        vals = [sint(z3.simplify(f(k))) for f in self.fns]
        if self.form == 'int':
            return vals[0]
        if self.form == 'tuple':
            return tuple(vals)
        return I.new_list(vals)

    def view(self, k):
        """Element k for reading (a list shows as a tuple)."""
        vals = [sint(z3.simplify(f(k))) for f in self.fns]
        return vals[0] if self.form == 'int' else tuple(vals)

    def appended(self, I, x):
        form, vals = shape(I, x)
        if form != self.form or len(vals) != len(self.fns):
            raise Unsupported('element of another form appended')
        n = self.n
        return TermSeq(n + 1, [
            (lambda k, f=f, v=v: z3.If(k == n, v, f(k)))
            for f, v in zip(self.fns, vals)], form)

    def popped(self):
        return TermSeq(self.n - 1, self.fns, self.form)


def shape(I, x):
    """(form, integer terms) of an element."""
    form, items = 'int', [x]
    if isinstance(x, tuple):
        form, items = 'tuple', list(x)
    elif isinstance(x, Ref):
        st = I.state(x)
        if isinstance(st, TermSeq) or not (isinstance(st, ListState)
                                           and st.concrete()):
            raise Unsupported('element of a list')
        form, items = 'list', st.items()
    vals = [I.kind(v, 'int') for v in items]
    if any(v is None for v in vals):
        raise Unsupported('element that is no integer')
    return form, vals


def method(I, ref, st, name, args, kwargs):
    if name == 'append' and len(args) == 1:
        I.set_state(ref, st.appended(I, args[0]))
        return None
    if name == 'pop' and not args or (name == 'pop' and args == [-1]):
        if not I.ctx.branch(st.n > 0):
            raise PyRaise(IndexError, ())
        v = st.item(I, st.n - 1)
        I.set_state(ref, st.popped())
        return v
    raise Unsupported('sequence.' + name)
