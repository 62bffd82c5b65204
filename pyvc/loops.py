"""Loops by invariant.

`Relation` is a loop invariant given as a relation between the state at the
start of the loop and the current state:

* dictionaries with unknown keys keep their keys, and the value at each key is
  related (rel(key, now, before)) to the one it had at the start;
* a local that is reassigned in the loop is related to its value at the start
  in the same way (a truth value or a number becomes arbitrary);
* everything else must not be changed by the loop.

The rule: (a) the loop does not run; or (b) in an arbitrary state that is so
related, the body runs for an arbitrary element, and the invariant is proved
again of the state after it; the code behind the loop is then verified in that
state.  Left as it is by exceptions, returns and breaks of the body.
`flag(I, key, value)` may state what holds of every entry already visited as
long as a carried flag still has the value it started with.
`inv(I, key, value, y)` may state, for every y, what holds of every entry in
every state; it is proved before the loop and after each iteration."""
import z3

from pyvc.values import *          # noqa: F401,F403
from pyvc.values import (V, S, Ref, Part, ListState, DictState, ObjState,
                         Poison, DView, Unsupported, Infeasible, Cont, Brk,
                         has_cls)


class Relation:
    def __init__(self, name, rel, flag=None, flag_name='', inv=None):
        self.name = name
        self.inv = inv
        self.rel = rel
        self.flag = flag
        self.flag_name = flag_name

    def install(self, I):
        self.busy = False
        I.loop_rules['for'] = self.loop_for
        I.loop_rules['while'] = self.loop_while

    # ------------------------------------------------------------- states
    def dicts(self, I):
        out = []
        for n, st in I.ctx.heap.items():
            if isinstance(st, DictState) and n not in I.ctx.frozen \
                    and st.concrete() is None:
                out.append(n)
        return out

    def settle(self, I, n):
        """Give the equations made by the code their terms."""
        for m, st in list(I.ctx.heap.items()):
            if isinstance(st, ObjState) and st.cls.name == 'Equation' \
                    and m not in I.ctx.frozen and '_eqn' in st.attrs:
                t = I.tv(Ref(m))
                I.ctx.define(eqn_text(t) == I.str_term(st.attrs['_eqn']))
                I.ctx.define(eqn_name(t) == I.tv(st.attrs['_base_name']))
                I.ctx.frozen.add(m)
                I.ctx.touch(t)

    def carried(self, I, frame, names):
        """Locals of the loop: (name, kind, value at the start)."""
        out = []
        for n in sorted(names):
            if n not in frame.vars:
                continue
            v = frame.vars[n]
            if isinstance(v, bool) or (isinstance(v, S)
                                       and v.kind == 'bool'):
                out.append((n, 'bool', v))
            elif isinstance(v, int) or (isinstance(v, S)
                                        and v.kind == 'int'):
                out.append((n, 'int', v))
            elif isinstance(v, (S, Ref)) and self.is_equation(I, v):
                out.append((n, 'v', v))
            else:
                out.append((n, None, v))
        return out

    def is_equation(self, I, v):
        if isinstance(v, Ref):
            st = I.ctx.heap.get(v.oid)
            return isinstance(st, ObjState) and st.cls.name == 'Equation'
        return v.kind == 'v' and I.ctx.entails(has_cls(v.t, 'Equation'))

    def havoc(self, I, frame, names, entry):
        """An arbitrary state related to the entry state."""
        ctx = I.ctx
        for n, st in entry['dicts'].items():
            self.havoc_dict(I, n, st)
        self.havoc_locals(I, frame, names, entry)

    def havoc_dict(self, I, n, st):
        ctx = I.ctx
        i = next(ctx.counter)
        hd = z3.Function('loop_dom!{}'.format(i), *self.psorts(I), V,
                         z3.BoolSort())
        hv = z3.Function('loop_val!{}'.format(i), *self.psorts(I), V, V)
        ps = list(ctx.params)
        k = z3.Const('lk!{}'.format(i), V)
        d0, v0 = st.dom(k, I.tv), st.val(k, I.tv)
        ctx.forall([k], z3.And(
            hd(*ps, k) == d0,
            z3.Implies(d0, self.rel(I, k, hv(*ps, k), v0))))
        if self.inv is not None:
            y = z3.Const('ly!{}'.format(i), V)
            ctx.forall([k, y], z3.Implies(
                hd(*ps, k), self.inv(I, k, hv(*ps, k), y)))
        ctx.heap[n] = DictState(None, (
            'base', lambda q, h=hd: h(*ps, q),
            lambda q, h=hv: h(*ps, q)))

    def havoc_locals(self, I, frame, names, entry):
        ctx = I.ctx
        for n, kind, v in entry['locals']:
            if kind == 'bool':
                frame.vars[n] = S('bool', ctx.fresh(z3.BoolSort(), n))
            elif kind == 'int':
                frame.vars[n] = S('int', ctx.fresh(z3.IntSort(), n))
            elif kind == 'v':
                t = ctx.fresh(V, n)
                ctx.touch(t)
                ctx.define(self.rel(I, None, t, I.tv(v)))
                if self.inv is not None:
                    y = z3.Const('ly!{}'.format(next(ctx.counter)), V)
                    ctx.forall([y], self.inv(I, None, t, y))
                frame.vars[n] = S('v', t)
            else:
                frame.vars[n] = Poison(n)
        for n in names:
            if n not in [x[0] for x in entry['locals']]:
                frame.vars[n] = Poison(n)

    def psorts(self, I):
        return [p.sort() for p in I.ctx.params]

    def entry(self, I, frame, names):
        self.settle(I, None)
        out = {'dicts': {n: I.ctx.heap[n] for n in self.dicts(I)},
               'locals': self.carried(I, frame, names)}
        self.prove_inv(I, frame, out, 'before the loop', out['dicts'])
        return out

    def prove_inv(self, I, frame, entry, what, changed):
        if self.inv is None:
            return
        ctx = I.ctx
        for n in changed:
            k, y = ctx.fresh(V, 'any'), ctx.fresh(V, 'all')
            st = ctx.heap[n]
            ctx.touch(k)
            ctx.touch(y)
            ctx.prove('{} ({})'.format(self.name, what), z3.Implies(
                st.dom(k, I.tv), self.inv(I, k, st.val(k, I.tv), y)))
        for n, kind, v in entry['locals']:
            if kind == 'v':
                y = ctx.fresh(V, 'all')
                ctx.touch(y)
                ctx.prove('{}, in a local ({})'.format(self.name, what),
                          self.inv(I, None, I.tv(frame.vars[n]), y))

    def maintained(self, I, frame, entry, before, what):
        """Obligation: the state is still related to the entry state."""
        ctx = I.ctx
        self.settle(I, None)
        for n, st in before.items():
            if n in entry['dicts'] or n in ctx.frozen:
                continue
            if ctx.heap.get(n) is not st:
                raise Unsupported('a loop changes another object')
        for n, st0 in entry['dicts'].items():
            st = ctx.heap[n]
            if st is before[n]:
                continue
            if not isinstance(st, DictState):
                raise Unsupported('a loop changes the kind of an object')
            self.prove_dict(I, st0, st, what)
        for n, kind, v in entry['locals']:
            if kind != 'v':
                continue
            x = frame.vars.get(n)
            if isinstance(x, Poison) or x is None:
                raise Unsupported('local ' + n)
            t = I.tv(x)
            ctx.touch(t)
            ctx.prove('{}, in a local ({})'.format(self.name, what),
                      self.rel(I, None, t, I.tv(v)))
        self.prove_inv(I, frame, entry, what, [
            n for n in entry['dicts'] if ctx.heap[n] is not before[n]])

    def prove_dict(self, I, st0, st, what):
        ctx = I.ctx
        k = ctx.fresh(V, 'any')
        ctx.touch(k)
        d0, v0 = st0.dom(k, I.tv), st0.val(k, I.tv)
        d1, v1 = st.dom(k, I.tv), st.val(k, I.tv)
        ctx.touch(v1)
        ctx.prove('{} ({})'.format(self.name, what), z3.And(
            d1 == d0, z3.Implies(d0, self.rel(I, k, v1, v0))))

    # -------------------------------------------------------------- for
    def loop_for(self, I, node, frame, it):
        from pyvc.interp import assigned_names, target_names
        ctx = I.ctx
        if not isinstance(it, (DView, Ref)):
            return False
        if isinstance(it, Ref) and not isinstance(
                I.state(it), (DictState, ListState)):
            return False
        if isinstance(it, Ref) and isinstance(I.state(it), ListState) \
                and I.state(it).concrete():
            return False
        # independent iterations need no invariant
        saved = dict(I.loop_rules)
        snap = ctx.snapshot()
        nact, nfr = len(I.active), len(ctx.frames)
        I.loop_rules.clear()
        try:
            I.plain_for(node, frame, it)
            return True
        except Unsupported:
            ctx.restore(snap)
            del I.active[nact:]
            del ctx.frames[nfr:]
        finally:
            I.loop_rules.update(saved)
        names = assigned_names(node.body) | target_names(node.target)
        ref = it.ref if isinstance(it, DView) else it
        live = isinstance(I.state(ref), DictState)
        parts = I.parts(it)
        if len(parts) != 1 or not parts[0].params:
            return False
        part = parts[0]
        if not ctx.choose('loop_runs'):
            u = [(p, z3.Const('no!{}'.format(next(ctx.counter)), p.sort()))
                 for p in part.params]
            ctx.forall([w for _, w in u], z3.Not(z3.substitute(
                part.guard, *u)))
            I.block(node.orelse, frame)
            return True
        entry = self.entry(I, frame, names)
        flags = [x for x in entry['locals'] if x[1] in ('bool', 'int')]
        self.havoc(I, frame, names, entry)
        # the entries visited so far
        i = next(ctx.counter)
        seen = z3.Function('seen!{}'.format(i), *self.psorts(I), V,
                           z3.BoolSort())
        ps = list(ctx.params)
        # the dictionaries whose keys the loop visits
        targets = []
        if self.flag is not None and flags and len(part.params) == 1 \
                and part.params[0].sort() == V:
            q = ctx.fresh(V, 'key')
            ctx.touch(q)
            visits = z3.substitute(part.guard, (part.params[0], q))
            targets = [Ref(n) for n, st in entry['dicts'].items()
                       if ctx.entails(visits == st.dom(q, I.tv))]

        def kept(frame_vars):
            return z3.And(*[I.tv(frame_vars[n]) == I.tv(v)
                            for n, _, v in flags])
        for ref in targets:
            k = z3.Const('sn!{}'.format(i), V)
            st = I.state(ref)
            ctx.forall([k], z3.Implies(
                z3.And(kept(frame.vars), seen(*ps, k), st.dom(k, I.tv)),
                self.flag(I, k, st.val(k, I.tv), ref)))
        if live:
            part = I.parts(it)[0]
        from pyvc.interp import subst
        pairs = [(p, ctx.fresh(p.sort(), 'at')) for p in part.params]
        for _, w in pairs:
            if w.sort() == V:
                ctx.touch(w)
        ctx.define(z3.substitute(part.guard, *pairs))
        if ctx.check() == z3.unsat:
            raise Infeasible()
        elem = subst(part.elem, pairs)
        before = dict(ctx.heap)
        I.assign(node.target, elem, frame)
        try:
            I.block(node.body, frame)
        except Cont:
            pass
        except Brk:
            self.maintained(I, frame, entry, before, 'loop left')
            return True
        self.maintained(I, frame, entry, before, 'one more iteration')
        for ref in targets:
            st = I.state(ref)
            k = ctx.fresh(V, 'visited')
            ctx.touch(k)
            now = kept(frame.vars)
            goal = z3.Implies(
                z3.And(now, z3.Or(seen(*ps, k), k == pairs[0][1]),
                       st.dom(k, I.tv)),
                self.flag(I, k, st.val(k, I.tv), ref))
            ctx.prove(self.flag_name, goal)
            # after the last iteration every entry has been visited
            k = z3.Const('sl!{}'.format(i), V)
            ctx.forall([k], z3.Implies(
                z3.And(now, st.dom(k, I.tv)),
                self.flag(I, k, st.val(k, I.tv), ref)))
        I.block(node.orelse, frame)
        return True

    # ------------------------------------------------------------ while
    def loop_while(self, I, node, frame):
        from pyvc.interp import assigned_names
        ctx = I.ctx
        names = assigned_names(node.body)
        if not I.test(I.eval(node.test, frame)):
            I.block(node.orelse, frame)
            return True
        entry = self.entry(I, frame, names)
        self.havoc(I, frame, names, entry)
        if not I.test(I.eval(node.test, frame)):
            raise Infeasible()
        before = dict(ctx.heap)
        try:
            I.block(node.body, frame)
        except Cont:
            pass
        except Brk:
            self.maintained(I, frame, entry, before, 'loop left')
            return True
        self.maintained(I, frame, entry, before, 'one more round')
        if I.test(I.eval(node.test, frame)):
            raise Infeasible()          # another arbitrary round
        I.block(node.orelse, frame)
        return True


class Entries(Relation):
    """Invariant of one dictionary (found by `which` when a loop starts):
    fact(key, value) of every entry, whatever entries there are."""

    def __init__(self, name, which, fact):
        Relation.__init__(self, name, None)
        self.which = which
        self.fact = fact

    def dicts(self, I):
        return [self.which(I).oid]

    def carried(self, I, frame, names):
        return [(n, k if k != 'v' else None, v) for n, k, v in
                Relation.carried(self, I, frame, names)]

    def entry(self, I, frame, names):
        out = Relation.entry(self, I, frame, names)
        for n in out['dicts']:
            self.prove_dict(I, None, I.ctx.heap[n], 'before the loop')
        return out

    def havoc_dict(self, I, n, st):
        ctx = I.ctx
        i = next(ctx.counter)
        ps = list(ctx.params)
        hd = z3.Function('loop_dom!{}'.format(i), *self.psorts(I), V,
                         z3.BoolSort())
        hv = z3.Function('loop_val!{}'.format(i), *self.psorts(I), V, V)
        k = z3.Const('lk!{}'.format(i), V)
        ctx.forall([k], z3.Implies(hd(*ps, k), self.fact(k, hv(*ps, k))))
        ctx.heap[n] = DictState(None, ('base', lambda q: hd(*ps, q),
                                       lambda q: hv(*ps, q)))

    def prove_dict(self, I, st0, st, what):
        ctx = I.ctx
        k = ctx.fresh(V, 'any')
        ctx.touch(k)
        ctx.prove('{} ({})'.format(self.name, what), z3.Implies(
            st.dom(k, I.tv), self.fact(k, st.val(k, I.tv))))
