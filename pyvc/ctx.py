"""Path context: path condition, decisions, solver, obligations."""
import itertools
import os
import re
import subprocess
import tempfile
import time

import z3

from pyvc.values import (V, Infeasible, Unsupported, PyRaise, Ret, Brk, Cont,
                         StrV)

FEAS_MS = int(os.environ.get('PYVC_FEAS_MS', '1500'))
PROVE_MS = int(os.environ.get('PYVC_PROVE_MS', '15000'))


class OutOfTime(Exception):
    """The time budget of the run is used up."""


class Dec:
    """Decisions of one path of one exploration."""

    def __init__(self, prefix, stack):
        self.prefix = prefix
        self.i = 0
        self.taken = []
        self.stack = stack
        self.conds = []
        self.defs = []      # definitional facts with the conds before them


class Names:
    """Supply of fresh names inside a nested exploration: the name of a
    symbol is a function of the decisions taken before it, so the paths that
    share a prefix share the symbols of that prefix."""

    def __init__(self, scope, dec):
        self.scope = scope
        self.dec = dec
        self.n = 0

    def __next__(self):
        self.n += 1
        bits = ''.join('1' if c else '0' for c, _ in self.dec.taken)
        return '{}.{}.{}'.format(self.scope, bits, self.n)


class Report:
    """Obligations and their outcome, merged over paths."""

    def __init__(self, deadline=None):
        self.obs = {}           # name -> dict
        self.covers = {}
        self.paths = 0
        self.solver_time = 0.0
        self.queries = 0
        self.backends = {}
        self.unsupported = []
        self.contracts_used = set()
        self.inlined = set()
        self.models_used = set()
        self.deadline = deadline

    def record(self, name, status, detail='', backend='z3'):
        o = self.obs.setdefault(name, {'name': name, 'status': 'discharged',
                                       'paths': 0, 'detail': '',
                                       'backend': backend})
        o['paths'] += 1
        rank = {'discharged': 0, 'undecided': 1, 'refuted': 2}
        if rank[status] > rank[o['status']]:
            o['status'] = status
            o['detail'] = detail
        self.backends[backend] = self.backends.get(backend, 0) + 1

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise OutOfTime()


STRING_OPS = {k: k for k in (
    z3.Z3_OP_SEQ_CONTAINS, z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX,
    z3.Z3_OP_SEQ_CONCAT, z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_INDEX,
    z3.Z3_OP_SEQ_LENGTH, z3.Z3_OP_SEQ_AT, z3.Z3_OP_SEQ_REPLACE,
    z3.Z3_OP_SEQ_IN_RE)}
_light = {}


def light(t):
    """The term with the string operations uninterpreted: every model of the
    original gives one of the result, so unsat carries over."""
    if z3.is_quantifier(t):
        vs = [z3.Const('lq!%d!%s' % (t.get_id(), t.var_name(i)),
                       t.var_sort(i)) for i in range(t.num_vars())]
        body = light(z3.substitute_vars(t.body(), *reversed(vs)))
        return z3.ForAll(vs, body) if t.is_forall() else z3.Exists(vs, body)
    key = t.get_id()
    hit = _light.get(key)
    if hit is not None:
        return hit[1]
    if not z3.is_app(t) or t.num_args() == 0:
        out = t
    else:
        kids = [light(c) for c in t.children()]
        k = t.decl().kind()
        if k in STRING_OPS and not all(z3.is_string_value(c)
                                       for c in t.children()):
            if k == z3.Z3_OP_SEQ_IN_RE:
                out = z3.Function('l_in_re!%d' % t.arg(1).get_id(),
                                  kids[0].sort(), z3.BoolSort())(kids[0])
            else:
                out = z3.Function('l_%d_%d' % (k, len(kids)),
                                  *[c.sort() for c in kids], t.sort())(*kids)
        elif all(a.eq(b) for a, b in zip(kids, t.children())):
            out = t
        elif k == z3.Z3_OP_AND:
            out = z3.And(*kids)
        elif k == z3.Z3_OP_OR:
            out = z3.Or(*kids)
        elif k == z3.Z3_OP_ADD:
            out = z3.Sum(*kids)
        elif k == z3.Z3_OP_DISTINCT:
            out = z3.Distinct(*kids)
        else:
            out = t.decl()(*kids)
    _light[key] = (t, out)
    return out


class Dual:
    """A solver and, in light mode, a second one with strings abstracted."""

    def __init__(self):
        self.full = z3.Solver()
        self.abs = None
        self.ms = FEAS_MS
        self.stuck = 0

    def lighten(self):
        self.abs = z3.Solver()
        self.abs.set('timeout', FEAS_MS)
        for a in self.full.assertions():
            self.abs.add(light(a))

    def add(self, c):
        self.full.add(c)
        if self.abs is not None:
            self.abs.add(light(c) if z3.is_expr(c) else c)

    def push(self):
        self.full.push()
        if self.abs is not None:
            self.abs.push()

    def pop(self):
        self.full.pop()
        if self.abs is not None:
            self.abs.pop()

    def set(self, *a):
        if a[0] == 'timeout':
            self.ms = a[1]
        self.full.set(*a)
        if self.abs is not None:
            self.abs.set(*a)

    def check(self, *a):
        """Feasibility: sat may be spurious in light mode."""
        if self.abs is not None:
            return self.check_abs(*a)
        return self.full.check(*a)

    def check_abs(self, *a):
        self.abs.set('timeout', min(self.ms, 200 if self.stuck < 3 else 50))
        r = self.abs.check(*a)
        self.abs.set('timeout', self.ms)
        if r != z3.unknown:
            return r
        self.stuck += 1
        # a solver that has seen many queries can be stuck where a new one
        # is not; `none`: strings are values without any theory
        for theory, ms in (('none', self.ms), ('seq', self.ms)):
            s = z3.Solver()
            s.set('timeout', ms)
            if theory == 'none':
                s.set('smt.string_solver', 'none')
            s.add(self.abs.assertions())
            r = s.check(*a)
            if r != z3.unknown:
                break
        return r

    def check_full(self):
        if self.abs is not None and self.check_abs() == z3.unsat:
            return z3.unsat
        return self.full.check()

    def assertions(self):
        return self.full.assertions()

    def model(self):
        return self.full.model()

    def reason_unknown(self):
        return self.full.reason_unknown()

    def to_smt2(self):
        return self.full.to_smt2()


class Ctx:
    def __init__(self, report, prefix, stack):
        self.report = report
        self.solver = Dual()
        self.solver.set('timeout', FEAS_MS)
        self.dec = Dec(prefix, stack)
        self.params = []
        self.universals = []
        self.keyterms = []
        self.counter = itertools.count()
        self.heap = {}
        self.frames = []
        self.next_oid = itertools.count(1)
        self.readlog = None
        self.events = []        # ghost trace (calls of interest)
        self.named = {}         # constants worth showing in a model
        self.approx = []        # approximations made on this path
        self.depth = 0
        self.named_refs = {}
        self.feas_ms = FEAS_MS
        self.frozen = set()     # read-only views of opaque objects

    def light(self, ms=None):
        """Decide reachability with the string operations uninterpreted
        (more paths may be explored, none is lost); `ms` limits each query
        of this kind."""
        self.feas_ms = ms or FEAS_MS
        if self.solver.abs is None:
            self.solver.lighten()
        self.solver.set('timeout', self.feas_ms)

    # ---------------------------------------------------------- symbols
    def fresh(self, sort, name='x'):
        n = '{}!{}'.format(name, next(self.counter))
        if self.params:
            f = z3.Function(n, *[p.sort() for p in self.params], sort)
            return f(*self.params)
        return z3.Const(n, sort)

    def const(self, name, sort):
        c = z3.Const(name, sort)
        self.named[name] = c
        if sort == V:
            self.touch(c)
        return c

    # ------------------------------------------------------ assumptions
    def assume(self, c):
        self.solver.add(c)

    def define(self, c):
        """A fact that holds by definition of fresh symbols or by a trusted
        axiom, valid for every instance of the enclosing parameters."""
        self.solver.add(c)
        if self.params:
            self.dec.defs.append((c, list(self.dec.conds)))

    def forall(self, params, body):
        """Assume body for all values of params (instantiated on demand)."""
        if any(p.sort() != V for p in params):
            # left to the solver
            q = z3.ForAll(list(params), body)
            self.solver.add(q)
            if self.params:
                self.dec.defs.append((q, list(self.dec.conds)))
            return
        u = (tuple(params), body)
        self.universals.append(u)
        if self.params:
            self.dec.defs.append((u, list(self.dec.conds)))
        self._instances(u, self.keyterms, None)

    def touch(self, k):
        """Make k a term universal facts are instantiated with."""
        k = z3.simplify(k)
        for t in self.keyterms:
            if t.eq(k):
                return
        self.keyterms.append(k)
        for u in list(self.universals):
            self._instances(u, self.keyterms, k)

    def _instances(self, u, terms, must):
        params, body = u
        vparams = [p for p in params if p.sort() == V]
        if len(vparams) != len(params):
            return          # instantiated by its owner
        if len(params) > 2 and len(terms) > 8:
            terms = terms[-8:]
        for combo in itertools.product(terms, repeat=len(params)):
            if must is not None and not any(c.eq(must) for c in combo):
                continue
            self.solver.add(z3.substitute(body, *zip(params, combo)))

    # --------------------------------------------------------- branching
    def check(self, *assumptions, ms=None):
        self.report.tick()
        t0 = time.time()
        if ms:
            self.solver.set('timeout', ms)
        r = self.solver.check(*assumptions)
        if ms:
            self.solver.set('timeout', self.feas_ms)
        self.report.solver_time += time.time() - t0
        self.report.queries += 1
        return r

    def feasible(self, c):
        self.solver.push()
        self.solver.add(c)
        r = self.check()
        self.solver.pop()
        return r != z3.unsat

    def entails(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.solver.push()
        self.solver.add(z3.Not(c))
        r = self.check()
        self.solver.pop()
        return r == z3.unsat

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        d = self.dec
        if d.i < len(d.prefix):
            choice, forced = d.prefix[d.i]
        else:
            can_t = self.feasible(c)
            can_f = self.feasible(z3.Not(c)) if can_t else True
            if can_t and can_f:
                d.stack.append(d.taken + [(False, False)])
                choice, forced = True, False
            else:
                choice, forced = can_t, True
        d.i += 1
        d.taken.append((choice, forced))
        lit = c if choice else z3.Not(c)
        if not forced:
            d.conds.append(lit)
        self.solver.add(lit)
        return choice

    def choose(self, name):
        """Nondeterministic choice (both are explored)."""
        return self.branch(self.fresh(z3.BoolSort(), name))

    def exists(self, parts, pred, name='ex'):
        """Decide whether some element of the parts satisfies pred(elem):
        branches; on the positive side a witness is assumed, on the negative
        side a universal fact.  pred maps an elem to a z3 Bool."""
        from pyvc.interp import subst
        for p in parts:
            if not p.params:
                if self.branch(z3.And(p.guard, pred(p.elem))):
                    return True
                continue
            b = self.fresh(z3.BoolSort(), name)
            if self.branch(b):
                pairs = [(q, self.fresh(q.sort(), 'wit')) for q in p.params]
                for _, w in pairs:
                    self.touch(w)
                self.define(z3.substitute(p.guard, *pairs))
                self.define(pred(subst(p.elem, pairs)))
                if self.check() == z3.unsat:
                    raise Infeasible()
                return True
            pairs = [(q, z3.Const('u!{}'.format(next(self.counter)),
                                  q.sort())) for q in p.params]
            body = z3.Not(z3.And(z3.substitute(p.guard, *pairs),
                                 pred(subst(p.elem, pairs))))
            self.forall([w for _, w in pairs], body)
        return False

    # ------------------------------------------------------------ proving
    def cover(self, name):
        """Reachability behind a precondition."""
        if not self.report.covers.get(name):
            self.solver.set("timeout", 5000)
            self.report.covers[name] = self.solver.check_full() != z3.unsat
            self.solver.set('timeout', self.feas_ms)

    def prove(self, name, goal, note='', ms=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        self.report.tick()
        t0 = time.time()
        self.solver.push()
        self.solver.add(z3.Not(goal))
        # an obligation already lost on another path gets little more time
        lost = self.report.obs.get(name, {}).get('status',
                                                 'discharged') != 'discharged'
        self.solver.set('timeout', 1500 if lost else (ms or PROVE_MS))
        r = self.solver.check_full()
        backend = 'z3'
        detail = ''
        status = 'undecided'
        if r == z3.unsat:
            status = 'discharged'
        else:
            quant = False
            if self.universals:
                quant = True
                for params, body in self.universals:
                    self.solver.add(z3.ForAll(list(params), body))
                r2 = self.solver.check_full()
                if r2 == z3.unsat:
                    status = 'discharged'
                elif r == z3.sat and r2 == z3.sat:
                    status = 'refuted'
                    detail = self.model_text(self.solver.model())
                else:
                    detail = 'z3: ' + str(r) + ' / ' + str(r2)
            elif r == z3.sat:
                status = 'refuted'
                detail = self.model_text(self.solver.model())
            else:
                detail = 'z3: ' + self.solver.reason_unknown()
            if status == 'undecided' and not lost:
                r3 = cvc5_check(self.solver)
                if r3 == 'unsat':
                    status, backend = 'discharged', 'cvc5'
                elif r3 == 'sat' and not quant:
                    status, backend = 'refuted', 'cvc5'
                    detail = 'cvc5: sat'
                else:
                    detail += '; cvc5: ' + r3
        self.solver.set('timeout', self.feas_ms)
        self.solver.pop()
        self.report.solver_time += time.time() - t0
        self.report.queries += 1
        if status == 'refuted' and self.approx:
            status = 'undecided'
            detail = ('refuted only under approximations {}: '
                      .format(self.approx)) + detail
        self.report.record(name, status,
                           (note + ' ' if note else '') + detail, backend)
        return status == 'discharged'

    def model_text(self, m):
        out = []
        for name, c in self.named.items():
            try:
                out.append('{} = {}'.format(
                    name, m.eval(c, model_completion=True)))
            except z3.Z3Exception:
                pass
        extra = [str(d) for d in m.decls() if d.arity() == 0
                 and str(d) not in self.named][:12]
        for d in m.decls():
            if str(d) in extra:
                out.append('{} = {}'.format(d, m[d]))
        return '; '.join(out)[:1500]

    # -------------------------------------------------- nested exploration
    def snapshot(self):
        return (dict(self.heap), [dict(f.vars) for f in self.frames],
                list(self.events), list(self.approx))

    def restore(self, snap):
        self.heap = dict(snap[0])
        for f, v in zip(self.frames, snap[1]):
            f.vars = dict(v)
        self.events = list(snap[2])
        self.approx = list(snap[3])

    def nested(self, params, guard, fn):
        """Explore fn for one generic value of params under guard.
        Returns the list of outcomes; the state is left as before."""
        base = self.snapshot()
        nframes = len(self.frames)
        outer_dec = self.dec
        outer_counter = self.counter
        scope = next(self.counter)
        stack = [[]]
        outcomes = []
        pend = []
        while stack:
            prefix = stack.pop()
            self.solver.push()
            n_keys, n_univ = len(self.keyterms), len(self.universals)
            self.restore(base)
            self.dec = Dec(prefix, stack)
            self.counter = Names(scope, self.dec)
            old_params = self.params
            self.params = old_params + list(params)
            out = None
            try:
                for p in params:
                    if p.sort() == V:
                        self.touch(p)
                self.assume(guard)
                try:
                    value = fn()
                    out = ('ok', value)
                except Cont:
                    out = ('ok', None)
                except Ret as e:
                    out = ('ret', e.value)
                except Brk:
                    out = ('brk', None)
                except PyRaise as e:
                    out = ('raise', e)
                except Infeasible:
                    out = None
                if out is not None:
                    conds = z3.And(*self.dec.conds) if self.dec.conds \
                        else z3.BoolVal(True)
                    outcomes.append({
                        'kind': out[0], 'value': out[1], 'conds': conds,
                        'heap': dict(self.heap),
                        'frames': [dict(f.vars)
                                   for f in self.frames[:nframes]],
                        'events': list(self.events[len(base[2]):]),
                        'approx': list(self.approx)})
                for fact, conds in self.dec.defs:
                    pre = z3.And(guard, *conds)
                    pend.append((fact, pre))
            finally:
                self.params = old_params
                self.dec = outer_dec
                self.counter = outer_counter
                self.frames = self.frames[:nframes]
                self.solver.pop()
                del self.keyterms[n_keys:]
                del self.universals[n_univ:]
        self.restore(base)
        for fact, pre in pend:
            if isinstance(fact, tuple):
                self.forall(tuple(params) + fact[0],
                            z3.Implies(pre, fact[1]))
            elif params:
                self.forall(params, z3.Implies(pre, fact))
        for o in outcomes:
            for x in o['approx']:
                if x not in self.approx:
                    self.approx.append(x)
        return outcomes


def cvc5_check(solver, seconds=15):
    """Second opinion of cvc5 on the current assertions."""
    text = solver.to_smt2()
    text = re.sub(r'\(set-info [^)]*\)', '', text)
    text = '(set-logic ALL)\n' + text
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='pyvc_')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write(text)
        p = subprocess.run(['cvc5', '--strings-exp', '--tlimit={}'.format(
            seconds * 1000), path], capture_output=True, text=True,
            timeout=seconds + 10)
        first = (p.stdout.strip().splitlines() or ['no answer'])[0]
        return first if first in ('sat', 'unsat', 'unknown') else \
            'no answer ' + (p.stdout + p.stderr)[:80]
    except (subprocess.TimeoutExpired, OSError) as e:
        return 'no answer ' + type(e).__name__
    finally:
        os.unlink(path)


def explore(report, fn, max_paths=4000):
    """Run fn(ctx) for every feasible path."""
    stack = [[]]
    n = 0
    while stack:
        report.tick()
        prefix = stack.pop()
        ctx = Ctx(report, prefix, stack)
        try:
            fn(ctx)
            report.paths += 1
        except Infeasible:
            pass
        n += 1
        if n > max_paths:
            raise Unsupported('more than {} paths'.format(max_paths))
