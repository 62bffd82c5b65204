"""Symbolic execution of the repository's python functions, straight from the
abstract syntax tree of the current source files."""
import ast
import builtins as pybuiltins
import hashlib
import os

import z3

from pyvc.values import *          # noqa: F401,F403
from pyvc.values import (V, S, Ref, Part, ListState, DictState, ObjState,
                         ClassVal, FuncVal, PropVal, Bound, BMethod, Ext,
                         Native, SuperVal, DView, GlobalsVal, TypeOf, ExcVal,
                         Opaque, Poison, Tainted, Unsupported, Infeasible,
                         PyRaise, Ret, Brk, Cont, from_v, sbool, sint, sstr,
                         has_cls, CLS)

REPO = os.environ.get('NRWAL_REPO', '/repo')
MODULES = {
    'NRWAL.handlers.equations': 'NRWAL/handlers/equations.py',
    'NRWAL.handlers.groups': 'NRWAL/handlers/groups.py',
    'NRWAL.handlers.directories': 'NRWAL/handlers/directories.py',
    'NRWAL.handlers.config': 'NRWAL/handlers/config.py',
    'NRWAL.utilities.utilities': 'NRWAL/utilities/utilities.py',
}
MAX_DEPTH = 60


class BoxState:
    def __init__(self, value):
        self.value = value


class SeqState:
    """A sequence of unknown length: elem(i) for 0 <= i < n."""
    vec = False         # a numpy array

    def __init__(self, n, elem, kind='list'):
        self.n = n
        self.elem = elem
        self.kind = kind


def subst(value, pairs):
    if not pairs:
        return value
    if isinstance(value, S):
        t = z3.substitute(value.t, *pairs)
        if value.kind == 'v':
            return from_v(t)
        return S(value.kind, t)
    if isinstance(value, tuple):
        return tuple(subst(v, pairs) for v in value)
    return value


class Frame:
    def __init__(self, module, func=None, parent=None):
        self.module = module
        self.func = func
        self.vars = {}
        self.parent = parent


class Module:
    def __init__(self, name):
        self.name = name
        self.env = {}


class Program:
    """The repository's source, parsed afresh."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.sources = {}
        self.trees = {}
        for name, rel in MODULES.items():
            path = os.path.join(self.repo, rel)
            with open(path) as f:
                text = f.read()
            self.sources[rel] = hashlib.sha256(text.encode()).hexdigest()
            self.trees[name] = ast.parse(text)
        for name in MODULES:
            self.load(name)

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        m = Module(name)
        self.modules[name] = m
        for node in self.trees[name].body:
            self.top(node, m)
        return m

    def top(self, node, m):
        if isinstance(node, ast.Import):
            for a in node.names:
                top = a.name if a.asname else a.name.split('.')[0]
                m.env[a.asname or top] = Ext(top)
        elif isinstance(node, ast.ImportFrom):
            for a in node.names:
                n = a.asname or a.name
                if node.module in MODULES:
                    other = self.load(node.module)
                    if a.name not in other.env:
                        raise Unsupported('import of ' + a.name)
                    m.env[n] = other.env[a.name]
                elif node.module and node.module.startswith('NRWAL'):
                    for mod in MODULES:
                        other = self.load(mod)
                        if a.name in other.env:
                            m.env[n] = other.env[a.name]
                else:
                    m.env[n] = Ext('{}.{}'.format(node.module, a.name))
        elif isinstance(node, ast.FunctionDef):
            m.env[node.name] = FuncVal(
                node, m, kind='unknown' if node.decorator_list
                else 'function')
        elif isinstance(node, ast.ClassDef):
            m.env[node.name] = self.klass(node, m)
        elif isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, ast.Name):
                    m.env[t.id] = ('lazy', node.value, m, t.id,
                                   m.env.get(t.id))

    def klass(self, node, m):
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Name) and isinstance(m.env.get(b.id),
                                                      ClassVal):
                bases.append(m.env[b.id])
        c = ClassVal(node.name, bases, m)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                kind = 'method'
                prop = None
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'staticmethod':
                        kind = 'static'
                    elif isinstance(d, ast.Name) and d.id == 'classmethod':
                        kind = 'class'
                    elif isinstance(d, ast.Name) and d.id == 'property':
                        prop = 'get'
                    elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                        prop = 'set'
                    else:
                        kind = 'unknown'
                f = FuncVal(st, m, owner=c, kind=kind)
                name = mangle(st.name, c)
                if prop == 'get':
                    c.attrs[name] = PropVal(f)
                elif prop == 'set':
                    old = c.attrs.get(name)
                    c.attrs[name] = PropVal(
                        old.getter if isinstance(old, PropVal) else None, f)
                else:
                    c.attrs[name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[mangle(t.id, c)] = ('lazy', st.value, m, '',
                                                    None)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                c.attrs[st.target.id] = ('lazy', st.value, m, '', None)
        return c

    def cls(self, name):
        for m in self.modules.values():
            v = m.env.get(name)
            if isinstance(v, ClassVal) and v.module is m:
                return v
        raise Unsupported('no class ' + name)

    def func(self, name):
        for m in self.modules.values():
            v = m.env.get(name)
            if isinstance(v, FuncVal) and v.module is m:
                return v
        raise Unsupported('no function ' + name)

    def method(self, cname, mname):
        c = self.cls(cname)
        f, owner = c.lookup(mangle(mname, c))
        if f is None:
            raise Unsupported('no method {}.{}'.format(cname, mname))
        return f


def mangle(name, cls):
    if cls is not None and name.startswith('__') and not name.endswith('__'):
        return '_' + cls.name.lstrip('_') + name
    return name


EXC = {n: getattr(pybuiltins, n) for n in dir(pybuiltins)
       if isinstance(getattr(pybuiltins, n), type)
       and issubclass(getattr(pybuiltins, n), BaseException)}


class Interp:
    def __init__(self, program, ctx, contracts=None, views=None):
        self.p = program
        self.ctx = ctx
        self.contracts = contracts or {}
        self.views = views or {}
        self.lazy_seqs = False
        self.loop_rules = {}
        from pyvc import models
        self.models = models
        self.active = []

    # ================================================== heap and embedding
    def new(self, state):
        n = next(self.ctx.next_oid)
        self.ctx.heap[n] = state
        return Ref(n)

    def state(self, ref):
        st = self.ctx.heap.get(ref.oid)
        if st is None:
            raise Unsupported('object of another iteration')
        if isinstance(st, Tainted):
            raise Unsupported('state after a loop left in the middle')
        return st

    def set_state(self, ref, st):
        if ref.oid in self.ctx.frozen:
            raise Unsupported('write through a view of an opaque object')
        self.ctx.heap[ref.oid] = st

    def new_list(self, items=(), kind='list'):
        return self.new(ListState([Part((), z3.BoolVal(True), x)
                                   for x in items], kind))

    def new_dict(self, items=()):
        st = DictState(None, ('empty',))
        for k, v in items:
            st = DictState(st, ('set', k, v))
        return self.new(st)

    def sym_dict(self, dom, val, facts=None):
        """Dictionary with unknown keys; facts(k, v) hold for every entry."""
        if facts is not None:
            k = z3.Const('dk!{}'.format(next(self.ctx.counter)), V)
            self.ctx.forall([k], z3.Implies(dom(k), facts(k, val(k))))
        return self.new(DictState(None, ('base', dom, val)))

    def new_obj(self, cls, attrs):
        return self.new(ObjState(cls, dict(attrs)))

    def cls_code(self, st):
        if isinstance(st, ListState) or isinstance(st, SeqState):
            return CLS['set'] if st.kind == 'set' else CLS['list']
        if isinstance(st, DictState):
            return CLS['dict']
        if isinstance(st, ObjState):
            for c in st.cls.mro():
                if c.name in CLS:
                    return CLS[c.name]
        if isinstance(st, BoxState) and isinstance(st.value, tuple):
            return CLS['tuple']
        return CLS['other']

    def tv(self, x):
        """Embed a value into V."""
        if x is None:
            return NoneV
        if isinstance(x, bool):
            return BoolV(z3.BoolVal(x))
        if isinstance(x, int):
            return IntV(z3.IntVal(x))
        if isinstance(x, float):
            if x != x or x in (float('inf'), float('-inf')):
                return FltV(z3.Real('special_' + repr(x)))
            return FltV(z3.RealVal(repr(x)))
        if isinstance(x, str):
            return StrV(z3.StringVal(x))
        if isinstance(x, S):
            return {'bool': BoolV, 'int': IntV, 'real': FltV, 'str': StrV,
                    'v': lambda t: t}[x.kind](x.t)
        if isinstance(x, Ref):
            st = self.ctx.heap.get(x.oid)
            return ObjV(z3.IntVal(x.oid), z3.IntVal(self.cls_code(st)))
        # tuples, functions, classes, ...
        for n, st in self.ctx.heap.items():
            if isinstance(st, BoxState) and st.value is x:
                return self.tv(Ref(n))
        return self.tv(self.new(BoxState(x)))

    def fv(self, t):
        r = from_v(t)
        if isinstance(r, Ref):
            st = self.ctx.heap.get(r.oid)
            if isinstance(st, BoxState):
                return st.value
        return r

    def force(self, x):
        """Resolve a term that is a choice between known objects."""
        while isinstance(x, S) and x.kind == 'v' and z3.is_app(x.t) \
                and x.t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = x.t.children()
            x = self.fv(a if self.ctx.branch(c) else b)
        return x

    # ------------------------------------------------------- type queries
    def kind(self, x, want):
        """Is x certainly of the scalar kind `want`? Returns a term or None"""
        if want == 'str':
            if isinstance(x, str):
                return z3.StringVal(x)
            if isinstance(x, S):
                if x.kind == 'str':
                    return x.t
                if x.kind == 'v' and self.ctx.entails(is_str(x.t)):
                    return vs(x.t)
        if want == 'int':
            if isinstance(x, bool):
                return z3.IntVal(int(x))
            if isinstance(x, int):
                return z3.IntVal(x)
            if isinstance(x, S):
                if x.kind == 'int':
                    return x.t
                if x.kind == 'bool':
                    return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
                if x.kind == 'v' and self.ctx.entails(is_int(x.t)):
                    return vi(x.t)
        if want == 'real':
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                if x != x or abs(x) == float('inf'):
                    return None
                return z3.RealVal(repr(x))
            if isinstance(x, S):
                if x.kind == 'real':
                    return x.t
                if x.kind == 'int':
                    return z3.ToReal(x.t)
                if x.kind == 'v' and self.ctx.entails(is_flt(x.t)):
                    return vr(x.t)
                if x.kind == 'v' and self.ctx.entails(is_int(x.t)):
                    return z3.ToReal(vi(x.t))
        return None

    def str_term(self, x):
        """Term of str(x)."""
        t = self.kind(x, 'str')
        if t is not None:
            return t
        if isinstance(x, (bool, int, float)) or x is None:
            return z3.StringVal(str(x))
        if isinstance(x, S):
            v = self.tv(x)
            if x.kind == 'v':
                return z3.If(is_str(v), vs(v), str_of(v))
            return str_of(v)
        # objects: text not modelled
        return self.ctx.fresh(z3.StringSort(), 'text')

    def truth(self, x):
        """Truth value as a z3 Bool or python bool."""
        x = self.force(x)
        if isinstance(x, Poison):
            raise Unsupported('loop-carried variable ' + x.name)
        if x is None or isinstance(x, (bool, int, float, str, tuple)):
            return bool(x)
        if isinstance(x, S):
            if x.kind == 'bool':
                return x.t
            if x.kind == 'int':
                return x.t != 0
            if x.kind == 'real':
                return x.t != 0
            if x.kind == 'str':
                return x.t != z3.StringVal('')
            t = x.t
            return z3.Or(z3.And(is_bool(t), vb(t)),
                         z3.And(is_int(t), vi(t) != 0),
                         z3.And(is_flt(t), vr(t) != 0),
                         z3.And(is_str(t), vs(t) != z3.StringVal('')),
                         has_cls(t, 'Equation', 'EquationGroup',
                                 'VariableGroup', 'EquationDirectory',
                                 'NrwalConfig'),
                         z3.And(is_obj(t), z3.Not(has_cls(
                             t, 'Equation', 'EquationGroup', 'VariableGroup',
                             'EquationDirectory', 'NrwalConfig')),
                             truthy_obj(t)))
        if isinstance(x, Ref):
            st = self.state(x)
            if isinstance(st, ListState):
                self.log_read(x, None)
                return self.nonempty(st.parts)
            if isinstance(st, DictState):
                d = st.concrete()
                if d is not None:
                    return bool(d)
                return self.nonempty(self.parts(x))
            if isinstance(st, SeqState):
                return st.n > 0
            if isinstance(st, ObjState):
                for m in ('__bool__', '__len__'):
                    f, _ = st.cls.lookup(m)
                    if f is not None:
                        return self.truth(self.call(Bound(f, x), [], {}))
            return True
        if isinstance(x, DView):
            return self.nonempty(self.parts(x))
        return True

    def nonempty(self, parts):
        if any(p.simple() for p in parts):
            return True
        if all(not p.params for p in parts):
            return z3.Or(*[p.guard for p in parts]) if parts else False
        return self.ctx.exists(parts, lambda e: z3.BoolVal(True))

    def test(self, x):
        t = self.truth(x)
        return t if isinstance(t, bool) else self.ctx.branch(t)

    # ==================================================== names and frames
    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported('loop-carried variable ' + v.name)
                return v
            f = f.parent
        return self.lookup_global(name, frame.module)

    def lookup_global(self, name, module):
        if name in module.env:
            v = module.env[name]
            return self.lazy(v)
        if name in EXC:
            return Ext('builtins.' + name)
        if hasattr(pybuiltins, name):
            return Ext('builtins.' + name)
        if name == '__name__':
            return module.name
        if name == '__file__':
            return os.path.join(self.p.repo, MODULES[module.name])
        raise PyRaise(NameError, (name,))

    def lazy(self, v):
        """Value of a module or class level assignment."""
        if not (isinstance(v, tuple) and len(v) == 5 and v[0] == 'lazy'):
            return v
        _, node, module, name, before = v
        fr = Frame(module)
        if before is not None:
            fr.vars[name] = self.lazy(before)
        self.ctx.frames.append(fr)
        try:
            return self.eval(node, fr)
        finally:
            self.pop_frame(fr)

    # =========================================================== functions
    def call(self, fn, args, kwargs):
        fn = self.force(fn)
        if isinstance(fn, Bound):
            return self.call_func(fn.func, [fn.self_val] + list(args), kwargs)
        if isinstance(fn, FuncVal):
            return self.call_func(fn, list(args), kwargs)
        if isinstance(fn, BMethod):
            return self.models.call_method(self, fn.self_val, fn.name,
                                           list(args), kwargs)
        if isinstance(fn, ClassVal):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, Native):
            return fn.fn(self, list(args), kwargs)
        if isinstance(fn, Ext):
            return self.models.call_ext(self, fn.name, list(args), kwargs)
        raise Unsupported('call of {!r}'.format(fn))

    def instantiate(self, cls, args, kwargs):
        key = cls.name + '.__new__'
        if key in self.contracts:
            self.ctx.report.contracts_used.add(cls.name)
            return self.contracts[key](self, cls, list(args), kwargs)
        obj = self.new_obj(cls, {})
        init, _ = cls.lookup('__init__')
        if init is not None:
            self.call_func(init, [obj] + list(args), kwargs)
        return obj

    def call_func(self, fn, args, kwargs):
        key = fn.qualname
        if key in self.contracts:
            self.ctx.report.contracts_used.add(key)
            return self.contracts[key](self, args, kwargs)
        if fn.kind == 'unknown':
            raise Unsupported('decorator on ' + key)
        return self.run_body(fn, args, kwargs)

    def run_body(self, fn, args, kwargs):
        """Execute the body of a repository function."""
        if fn.kind == 'unknown':
            raise Unsupported('decorator on ' + fn.qualname)
        if len(self.active) > MAX_DEPTH:
            raise Unsupported('recursion of {} without a contract'
                              .format(fn.qualname))
        if self.active.count(fn.qualname) > 6:
            raise Unsupported('recursion of {} without a contract'
                              .format(fn.qualname))
        self.ctx.report.inlined.add(fn.qualname)
        frame = Frame(fn.module, fn, fn.closure)
        self.bind(fn, frame, args, kwargs)
        if isinstance(fn.node, ast.Lambda):
            self.ctx.frames.append(frame)
            self.active.append(fn.qualname)
            try:
                return self.eval(fn.node.body, frame)
            finally:
                self.active.pop()
                self.pop_frame(frame)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await))
               for n in ast.walk(fn.node)):
            raise Unsupported('generator ' + fn.qualname)
        self.ctx.frames.append(frame)
        self.active.append(fn.qualname)
        try:
            self.block(fn.node.body, frame)
            return None
        except Ret as r:
            return r.value
        finally:
            self.active.pop()
            self.pop_frame(frame)

    def pop_frame(self, frame):
        if self.ctx.frames and self.ctx.frames[-1] is frame:
            self.ctx.frames.pop()

    def bind(self, fn, frame, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        star = kwargs.pop('**', None) if isinstance(kwargs, dict) else None
        kwargs = dict(kwargs)
        pos, rest = args[:len(names)], args[len(names):]
        for n, v in zip(names, pos):
            frame.vars[n] = v
        if rest:
            if not a.vararg:
                raise PyRaise(TypeError, ('too many arguments',))
            frame.vars[a.vararg.arg] = tuple(rest)
        elif a.vararg:
            frame.vars[a.vararg.arg] = ()
        for n in names[len(pos):] + [x.arg for x in a.kwonlyargs]:
            if n in kwargs:
                frame.vars[n] = kwargs.pop(n)
        defaults = list(zip(names[len(names) - len(a.defaults):],
                            a.defaults))
        defaults += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)
                     if d is not None]
        dframe = Frame(fn.module, None, fn.closure)
        for n, d in defaults:
            if n not in frame.vars:
                if star is not None:
                    raise Unsupported('** into named parameters')
                frame.vars[n] = self.eval(d, dframe)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in frame.vars:
                raise PyRaise(TypeError, ('missing argument ' + n,))
        if a.kwarg:
            if star is not None:
                st = self.state(star)
                for n in names[1:] if fn.kind == 'method' else names:
                    # a key equal to a parameter name would be a TypeError
                    pass
                if not isinstance(st, DictState):
                    raise Unsupported('** of a non-dict')
                for k, v in kwargs.items():
                    st = DictState(st, ('set', k, v))
                frame.vars[a.kwarg.arg] = self.new(st)
            else:
                frame.vars[a.kwarg.arg] = self.new_dict(kwargs.items())
        elif kwargs:
            raise PyRaise(TypeError, ('unexpected keyword',))
        elif star is not None:
            raise Unsupported('** of a symbolic dict')

    # ========================================================= attributes
    def getattr(self, obj, name, frame=None):
        owner = None
        if frame is not None:
            f = frame
            while f is not None and (f.func is None or f.func.owner is None):
                f = f.parent
            owner = f.func.owner if f is not None else None
        name = mangle(name, owner)
        obj = self.force(obj)
        if isinstance(obj, Ref):
            st = self.state(obj)
            if isinstance(st, ObjState):
                if name == '__class__':
                    return st.cls
                if name == '__dict__':
                    raise Unsupported('__dict__')
                attr, ocl = st.cls.lookup(name)
                if isinstance(attr, PropVal):
                    return self.call_func(attr.getter, [obj], {})
                if name in st.attrs:
                    return st.attrs[name]
                if attr is not None:
                    return self.class_attr(attr, obj, st.cls)
                ga, _ = st.cls.lookup('__getattr__')
                if ga is not None:
                    return self.call_func(ga, [obj, name], {})
                raise PyRaise(AttributeError, (name,))
            return BMethod(obj, name)
        if isinstance(obj, ClassVal):
            attr, _ = obj.lookup(name)
            if attr is None:
                if name == '__name__':
                    return obj.name
                raise PyRaise(AttributeError, (name,))
            if isinstance(attr, FuncVal):
                if attr.kind == 'class':
                    return Bound(attr, obj)
                return attr
            return self.class_attr(attr, None, obj)
        if isinstance(obj, SuperVal):
            mro = obj.cls.mro()
            for c in mro[1:]:
                if name in c.attrs:
                    return self.class_attr(c.attrs[name], obj.self_val, c)
            if name == '__init__':
                return Native(lambda i, a, k: None)
            raise PyRaise(AttributeError, (name,))
        if isinstance(obj, Ext):
            return self.models.ext_attr(self, obj, name)
        if isinstance(obj, S) and obj.kind == 'v':
            return self.opaque_attr(obj, name)
        if isinstance(obj, (str, int, float, bool, tuple, S, DView)):
            return BMethod(obj, name)
        if isinstance(obj, Opaque) and obj.what == 'columns' \
                and name == 'values':
            return obj
        if isinstance(obj, Opaque) and obj.what == 'column' \
                and name == 'values':
            self.models.used(self, 'DataFrame[column].values')
            t = df_val(obj.info['frame'].t, self.tv(obj.info['key']))
            self.ctx.define(has_cls(t, 'ndarray'))
            return S('v', t)
        if isinstance(obj, (Opaque, ExcVal, GlobalsVal, TypeOf)):
            return BMethod(obj, name)
        if obj is None:
            raise PyRaise(AttributeError, (name,))
        if isinstance(obj, (FuncVal, Bound)) and name == '__name__':
            f = obj.func if isinstance(obj, Bound) else obj
            return f.node.name
        raise Unsupported('attribute {} of {!r}'.format(name, obj))

    def class_attr(self, attr, self_val, cls):
        if isinstance(attr, FuncVal):
            if attr.kind == 'static':
                return attr
            if attr.kind == 'class':
                c = cls
                if isinstance(self_val, Ref):
                    c = self.state(self_val).cls
                elif isinstance(self_val, ClassVal):
                    c = self_val
                return Bound(attr, c)
            if attr.kind == 'unknown':
                raise Unsupported('decorator on ' + attr.qualname)
            if self_val is None:
                return attr
            return Bound(attr, self_val)
        if isinstance(attr, PropVal):
            return self.call_func(attr.getter, [self_val], {})
        return self.lazy(attr)

    REPO_CLASSES = ('Equation', 'EquationGroup', 'VariableGroup',
                    'EquationDirectory', 'NrwalConfig')

    def opaque_class(self, t):
        """Decide the repository class of an opaque object (branching);
        None if it is not an object of the repository."""
        if self.ctx.entails(z3.Not(has_cls(t, *self.REPO_CLASSES))):
            return None
        for n in self.REPO_CLASSES:
            if self.ctx.branch(has_cls(t, n)):
                return self.p.cls(n)
        return None

    def opaque_attr(self, obj, name):
        c = self.opaque_class(obj.t)
        if c is not None:
            if (c.name, name) in self.views:
                return self.views[(c.name, name)](self, obj.t)
            attr, _ = c.lookup(name)
            if attr is not None:
                return self.class_attr(attr, obj, c)
            if name == '__class__':
                return c
            if name not in instance_attrs(c) \
                    and c.lookup('__getattr__')[0] is None:
                raise PyRaise(AttributeError, (name,))
            raise Unsupported('no view of {}.{}'.format(c.name, name))
        if name == 'dtype' and self.ctx.entails(has_cls(obj.t, 'ndarray')):
            return Opaque('dtype', array=obj.t)
        if name == 'columns' \
                and self.ctx.entails(has_cls(obj.t, 'DataFrame')):
            self.models.used(self, 'DataFrame.columns')
            return Opaque('columns', frame=obj.t)
        return BMethod(obj, name)

    def setattr(self, obj, name, value, frame):
        f = frame
        while f is not None and (f.func is None or f.func.owner is None):
            f = f.parent
        name = mangle(name, f.func.owner if f is not None else None)
        obj = self.force(obj)
        if isinstance(obj, Ref):
            st = self.state(obj)
            if isinstance(st, ObjState):
                attr, _ = st.cls.lookup(name)
                if isinstance(attr, PropVal):
                    if attr.setter is None:
                        raise PyRaise(AttributeError, (name,))
                    self.call_func(attr.setter, [obj, value], {})
                    return
                attrs = dict(st.attrs)
                attrs[name] = value
                self.set_state(obj, ObjState(st.cls, attrs))
                return
        if isinstance(obj, S) and obj.kind == 'v':
            hook = self.views.get(('write', name))
            if hook is not None:
                hook(self, obj.t, value)
                return
        raise Unsupported('assignment to {}.{}'.format(obj, name))

    # ========================================================= collections
    def parts(self, it):
        """Pieces of an iterable."""
        it = self.force(it)
        tt = z3.BoolVal(True)
        if isinstance(it, tuple):
            return [Part((), tt, x) for x in it]
        if isinstance(it, str):
            return [Part((), tt, x) for x in it]
        if isinstance(it, range):
            return [Part((), tt, x) for x in it]
        if isinstance(it, DView):
            return self.dict_parts(it.ref, it.what)
        if isinstance(it, Opaque) and it.what == 'columns':
            k = z3.Const('col!{}'.format(next(self.ctx.counter)), V)
            return [Part((k,), df_dom(it.info['frame'], k), self.fv(k))]
        if isinstance(it, Ref):
            st = self.state(it)
            if isinstance(st, ListState):
                self.log_read(it, None)
                return list(st.parts)
            if isinstance(st, DictState):
                return self.dict_parts(it, 'keys')
            if isinstance(st, SeqState) and st.elem is None:
                self.log_read(it, None)
                k = z3.Const('at!{}'.format(next(self.ctx.counter)),
                             z3.IntSort())
                return [Part((k,), z3.And(k >= 0, k < st.n),
                             st.view(k))]
            if isinstance(st, ObjState):
                raise Unsupported('iteration over an object')
        if isinstance(it, S) and it.kind == 'v':
            t = it.t
            hook = self.views.get(('iter',))
            if hook is not None:
                r = hook(self, t)
                if r is not None:
                    return r
        raise Unsupported('iteration over {!r}'.format(it))

    def dict_parts(self, ref, what):
        self.log_read(ref, None)
        st = self.state(ref)
        d = st.concrete()
        tt = z3.BoolVal(True)
        if d is not None:
            def el(k):
                return {'keys': k, 'values': d[k], 'items': (k, d[k])}[what]
            return [Part((), tt, el(k)) for k in d]
        k = z3.Const('k!{}'.format(next(self.ctx.counter)), V)
        dom, val = st.dom(k, self.tv), st.val(k, self.tv)
        kv, vv = self.fv(k), self.fv(val)
        return [Part((k,), dom,
                     {'keys': kv, 'values': vv, 'items': (kv, vv)}[what])]

    def log_read(self, ref, key):
        if self.ctx.readlog is not None:
            self.ctx.readlog.append((ref.oid, key))

    def dict_has(self, ref, key):
        st = self.state(ref)
        k = self.tv(key)
        self.log_read(ref, k)
        d = st.concrete()
        if d is not None and isinstance(key, (str, int, float)):
            return key in d
        self.ctx.touch(k)
        return st.dom(k, self.tv)

    def dict_get(self, ref, key):
        """Value at a key known to be present."""
        st = self.state(ref)
        k = self.tv(key)
        self.log_read(ref, k)
        d = st.concrete()
        if d is not None and isinstance(key, (str, int, float)):
            return d[key]
        self.ctx.touch(k)
        v = z3.simplify(st.val(k, self.tv))
        return self.settle(v)

    def settle(self, v):
        """Drop the alternatives of an if-term the path has excluded."""
        v = z3.simplify(v)
        while z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = v.children()
            if self.ctx.entails(c):
                v = a
            elif self.ctx.entails(z3.Not(c)):
                v = b
            else:
                break
        return self.fv(v)

    def dict_index(self, ref, key):
        h = self.dict_has(ref, key)
        if not (h if isinstance(h, bool) else self.ctx.branch(h)):
            raise PyRaise(KeyError, (key,))
        return self.dict_get(ref, key)

    def dict_set(self, ref, key, value):
        st = self.state(ref)
        self.set_state(ref, DictState(st, ('set', self.dkey(key), value)))

    def dkey(self, key):
        """Canonical form of a key."""
        if isinstance(key, S) and key.kind == 'v':
            return key
        if isinstance(key, S) and key.kind == 'str':
            # StrV(vs(k)) is k for a key known to be a string
            t = key.t
            if z3.is_app(t) and t.decl().name() == 'vs' \
                    and self.ctx.entails(is_str(t.arg(0))):
                return S('v', t.arg(0))
        if isinstance(key, S):
            for p in self.ctx.params:
                if p.sort() == V and self.ctx.entails(self.tv(key) == p):
                    return S('v', p)
        return key

    # ---------------------------------------------------- generic iteration
    def iterate(self, parts, body, assigned, frame):
        """Run body(elem) for every element.  Pieces with parameters are
        handled by one generic iteration (see DESIGN.md, DOALL rule)."""
        for p in parts:
            if not p.params:
                if z3.is_true(p.guard) or self.ctx.branch(p.guard):
                    try:
                        body(p.elem)
                    except Cont:
                        pass
                    except Brk:
                        return 'break'
            else:
                r = self.generic(p, body, assigned, frame)
                if r == 'break':
                    return r
        return None

    def generic(self, part, body, assigned, frame):
        ctx = self.ctx
        pairs = [(q, z3.Const('g!{}'.format(next(ctx.counter)), q.sort()))
                 for q in part.params]
        params = [w for _, w in pairs]
        guard = z3.substitute(part.guard, *pairs)
        elem = subst(part.elem, pairs)
        saved = {}
        for n in assigned:
            if n in frame.vars:
                saved[n] = frame.vars[n]
            frame.vars[n] = Poison(n)
        base_heap = dict(ctx.heap)
        base_frame = dict(frame.vars)
        outer_log = ctx.readlog
        ctx.readlog = []
        n_active = len(self.active)

        def run():
            del self.active[n_active:]
            return body(elem)
        try:
            outcomes = ctx.nested(params, guard, run)
            log = ctx.readlog
        finally:
            ctx.readlog = outer_log
            del self.active[n_active:]
        if outer_log is not None:
            outer_log.extend(log)
        for o in outcomes:
            if o['events']:
                ctx.events.append(('forall', params, guard, o['conds'],
                                   o['events']))
        # --- effects of the iterations that finish normally
        changed = {}
        for o in outcomes:
            for n, st in o['heap'].items():
                if n in base_heap and st is not base_heap[n]:
                    changed.setdefault(n, []).append((o, st))
        normal = [o for o in outcomes if o['kind'] == 'ok']
        early = [o for o in outcomes if o['kind'] != 'ok']
        new_states = {}
        for n, lst in changed.items():
            new_states[n] = self.merge(n, base_heap[n], lst, params, guard,
                                       log, normal)
        # --- iterations that leave the loop
        for o in early:
            b = ctx.fresh(z3.BoolSort(), 'leaves')
            if ctx.branch(b):
                wit = [(p, ctx.fresh(p.sort(), 'at')) for p in params]
                for _, w in wit:
                    if w.sort() == V:
                        ctx.touch(w)
                ctx.define(z3.substitute(z3.And(guard, o['conds']), *wit))
                if ctx.check() == z3.unsat:
                    raise Infeasible()
                for n in changed:
                    ctx.heap[n] = Tainted()
                if o['kind'] == 'raise':
                    raise o['value']
                if o['kind'] == 'ret':
                    val = o['value']
                    if isinstance(val, Ref) and val.oid not in base_heap:
                        val = self.export(val, o['heap'])
                    raise Ret(subst(val, wit))
                return 'break'
            u = [(p, z3.Const('n!{}'.format(next(ctx.counter)), p.sort()))
                 for p in params]
            ctx.forall([w for _, w in u], z3.substitute(
                z3.Not(z3.And(guard, o['conds'])), *u))
        for n, st in new_states.items():
            ctx.heap[n] = st
        # --- locals assigned in the loop
        fi = ctx.frames.index(frame)
        for n in assigned:
            vals = [o['frames'][fi].get(n) for o in normal]
            sets = [(o, v) for o, v in zip(normal, vals)
                    if not isinstance(v, Poison)]
            frame.vars[n] = Poison(n)
            if not sets:
                if n in saved:
                    frame.vars[n] = saved[n]
                else:
                    del frame.vars[n]
                continue
            first = sets[0][1]
            if all(v is first or (isinstance(v, (bool, int, str))
                                  and type(v) is type(first) and v == first)
                   for _, v in sets) and (first is None or isinstance(
                       first, (bool, int, str, float))) and n in saved:
                # the loop sets the variable to one constant or leaves it
                hit = z3.Or(*[o['conds'] for o, _ in sets])
                if ctx.exists([Part(params, z3.And(guard, hit), None)],
                              lambda e: z3.BoolVal(True), 'flag'):
                    frame.vars[n] = first
                else:
                    frame.vars[n] = saved[n]
            elif n in saved and isinstance(saved[n], Ref) and all(
                    v == saved[n] for _, v in sets):
                frame.vars[n] = saved[n]
        return None

    def export(self, ref, heap):
        raise Unsupported('object made inside a loop leaves it')

    def merge(self, n, base, lst, params, guard, log, normal):
        """State of heap object n after a generic loop."""
        norm_ids = {id(o) for o in normal}
        if isinstance(base, ListState):
            parts = list(base.parts)
            for o, st in lst:
                if not isinstance(st, ListState) \
                        or st.parts[:len(base.parts)] != base.parts:
                    raise Unsupported('list changed in a loop')
                if id(o) not in norm_ids:
                    continue
                for p in st.parts[len(base.parts):]:
                    elem = self.reify(p.elem, o['heap'], params)
                    parts.append(Part(tuple(params) + p.params,
                                      z3.And(guard, o['conds'], p.guard),
                                      elem))
            if any(oid == n for oid, _ in log):
                raise Unsupported('list read and changed in a loop')
            return ListState(parts, base.kind)
        if isinstance(base, DictState):
            key = None
            cases = []
            for o, st in lst:
                ops = []
                s = st
                while s is not base:
                    if s is None or not isinstance(s, DictState):
                        raise Unsupported('dict replaced in a loop')
                    ops.append(s.op)
                    s = s.parent
                for op in reversed(ops):
                    if op[0] not in ('set', 'del'):
                        raise Unsupported('dict ' + op[0] + ' in a loop')
                    k = self.tv(op[1])
                    k = z3.simplify(k)
                    if len(params) != 1 or not k.eq(params[0]):
                        return self.scatter(n, base, lst, params, guard, log,
                                            norm_ids)
                    key = params[0]
                    if id(o) not in norm_ids:
                        continue
                    val = None if op[0] == 'del' else self.tv(
                        self.reify(op[2], o['heap'], params))
                    cases.append((o['conds'], val))
            for oid_, k in log:
                if oid_ == n and (k is None or not z3.simplify(k).eq(key)):
                    raise Unsupported('dict read and changed in a loop')
            return DictState(base, ('map', key, guard, cases))
        if isinstance(base, ObjState):
            # the same constant assigned in every iteration is harmless only
            # when known to run; refuse
            raise Unsupported('attribute assigned in a loop')
        raise Unsupported('state changed in a loop')

    def scatter(self, n, base, lst, params, guard, log, norm_ids):
        """A dictionary written by a loop at keys computed from the loop
        variable.  The value at a key is the one of some iteration that
        writes it (which one, when there are several, is left open)."""
        ctx = self.ctx
        if any(oid_ == n for oid_, _ in log):
            raise Unsupported('dict read and changed in a loop')
        writes = []
        for o, st in lst:
            s, ops = st, []
            while s is not base:
                if s is None or not isinstance(s, DictState) \
                        or s.op[0] != 'set':
                    raise Unsupported('dict written at a key other than the '
                                      'loop key')
                ops.append(s.op)
                s = s.parent
            if id(o) not in norm_ids:
                continue
            for op in ops:
                writes.append((o['conds'], self.tv(op[1]), self.tv(
                    self.reify(op[2], o['heap'], params))))
        if ctx.params or any(p.sort() != V for p in params):
            raise Unsupported('computed keys in a nested loop')
        i = next(ctx.counter)
        hit = z3.Function('hit!{}'.format(i), V, z3.BoolSort())
        wit = [z3.Function('writer!{}.{}'.format(i, j), V, p.sort())
               for j, p in enumerate(params)]
        got = z3.Function('written!{}'.format(i), V, V)
        k = z3.Const('sk!{}'.format(i), V)
        pairs = [(p, w(k)) for p, w in zip(params, wit)]
        ctx.forall([k], z3.Implies(hit(k), z3.substitute(z3.Or(*[
            z3.And(guard, c, kt == k, got(k) == v)
            for c, kt, v in writes]) if writes else z3.BoolVal(False),
            *pairs)))
        u = [(p, z3.Const('sp!{}.{}'.format(i, j), p.sort()))
             for j, p in enumerate(params)]
        for c, kt, v in writes:
            ctx.forall([w for _, w in u], z3.substitute(
                z3.Implies(z3.And(guard, c), hit(kt)), *u))

        def dom(key):
            if not z3.is_var(key):
                for w in wit:
                    ctx.touch(w(key))
            return hit(key)
        return DictState(base, ('scatter', dom, got))

    def reify(self, value, heap, params):
        """Turn an object made in a generic iteration into a term."""
        if isinstance(value, tuple):
            return tuple(self.reify(v, heap, params) for v in value)
        if not isinstance(value, Ref) or value.oid in self.ctx.heap:
            return value
        st = heap.get(value.oid)
        if isinstance(st, ObjState) and st.cls.name == 'Equation':
            f = z3.Function('made!{}'.format(next(self.ctx.counter)),
                            *[p.sort() for p in params], z3.IntSort())
            t = ObjV(f(*params), z3.IntVal(CLS['Equation']))
            facts = [f(*params) < 0]
            text = st.attrs.get('_eqn')
            facts.append(eqn_text(t) == self.kind(text, 'str'))
            facts.append(eqn_name(t) == self.tv(st.attrs.get('_base_name')))
            u = [p for p in params]
            self.ctx.forall(u, z3.And(*facts))
            dv = st.attrs.get('_default_variables')
            if isinstance(dv, Ref) and isinstance(heap.get(dv.oid),
                                                  DictState):
                ds = heap[dv.oid]
                k = z3.Const('rk!{}'.format(next(self.ctx.counter)), V)
                self.ctx.forall(u + [k], z3.And(
                    eqn_def_dom(t, k) == ds.dom(k, self.tv),
                    z3.Implies(ds.dom(k, self.tv),
                               eqn_def_val(t, k) == ds.val(k, self.tv))))
            return S('v', t)
        raise Unsupported('object made inside a loop escapes')

    # ========================================================== statements
    def block(self, stmts, frame):
        for st in stmts:
            self.stmt(st, frame)

    def stmt(self, n, f):
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(n).__name__)
        self.ctx.report.tick()
        return m(n, f)

    def st_Pass(self, n, f):
        pass

    def st_Expr(self, n, f):
        self.eval(n.value, f)

    def st_Import(self, n, f):
        for a in n.names:
            top = a.name if a.asname else a.name.split('.')[0]
            f.vars[a.asname or top] = Ext(top)

    def st_Return(self, n, f):
        raise Ret(self.eval(n.value, f) if n.value is not None else None)

    def st_Break(self, n, f):
        raise Brk()

    def st_Continue(self, n, f):
        raise Cont()

    def st_Assign(self, n, f):
        v = self.eval(n.value, f)
        for t in n.targets:
            self.assign(t, v, f)

    def st_AnnAssign(self, n, f):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, f), f)

    def st_AugAssign(self, n, f):
        cur = self.eval(_load(n.target), f)
        rhs = self.eval(n.value, f)
        cur = self.force(cur)
        if isinstance(cur, Ref) and isinstance(n.op, ast.Add) \
                and isinstance(self.state(cur), ListState):
            st = self.state(cur)
            self.set_state(cur, ListState(list(st.parts) + self.parts(rhs),
                                          st.kind))
            self.assign(n.target, cur, f)
            return
        self.assign(n.target, self.binop(n.op, cur, rhs), f)

    def assign(self, t, v, f):
        if isinstance(t, ast.Name):
            f.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, f), t.attr, v, f)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, f), self.eval(t.slice, f), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y, f)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        v = self.force(v)
        if isinstance(v, Ref):
            st = self.state(v)
            if isinstance(st, ListState) and st.concrete():
                v = tuple(st.items())
            elif isinstance(st, SeqState) and st.elem is not None \
                    and self.ctx.entails(st.n == n):
                return [st.elem(z3.IntVal(i)) for i in range(n)]
            elif isinstance(st, (ListState, SeqState)):
                return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise(ValueError, ('unpack',))
            return list(v)
        raise Unsupported('unpacking of {!r}'.format(v))

    def st_If(self, n, f):
        if self.test(self.eval(n.test, f)):
            self.block(n.body, f)
        else:
            self.block(n.orelse, f)

    def st_Assert(self, n, f):
        if not self.test(self.eval(n.test, f)):
            raise PyRaise(AssertionError, ())

    def st_Raise(self, n, f):
        if n.exc is None:
            cur = f.vars.get('$exc')
            if cur is None:
                raise Unsupported('bare raise')
            raise cur.exc
        e = self.eval(n.exc, f)
        if isinstance(e, ExcVal):
            raise e.exc
        if isinstance(e, Ext) and e.name.split('.')[-1] in EXC:
            raise PyRaise(EXC[e.name.split('.')[-1]], ())
        raise Unsupported('raise of {!r}'.format(e))

    def st_Delete(self, n, f):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                obj = self.force(self.eval(t.value, f))
                key = self.eval(t.slice, f)
                if isinstance(obj, Ref) and isinstance(self.state(obj),
                                                       DictState):
                    self.dict_index(obj, key)
                    st = self.state(obj)
                    self.set_state(obj, DictState(
                        st, ('del', self.dkey(key))))
                    continue
            if isinstance(t, ast.Name):
                f.vars.pop(t.id, None)
                continue
            raise Unsupported('del')

    def st_FunctionDef(self, n, f):
        if n.decorator_list:
            raise Unsupported('decorator on ' + n.name)
        f.vars[n.name] = FuncVal(n, f.module, None, 'function', f)

    def st_For(self, n, f):
        it = self.force(self.eval(n.iter, f))
        rule = self.loop_rules.get('for')
        if rule is not None:
            done = rule(self, n, f, it)
            if done:
                return
        self.plain_for(n, f, it)

    def plain_for(self, n, f, it):
        parts = self.parts(it)
        assigned = assigned_names(n.body) | target_names(n.target)
        # lists extended in place by += keep their identity
        keep = set()
        for x in assigned:
            v = f.vars.get(x)
            if x in aug_only(n.body) and isinstance(v, Ref):
                keep.add(x)

        def body(elem):
            self.assign(n.target, elem, f)
            self.block(n.body, f)
        r = self.iterate(parts, body, assigned - keep, f)
        if r != 'break':
            self.block(n.orelse, f)

    def st_While(self, n, f):
        rule = self.loop_rules.get('while')
        if rule is not None:
            done = rule(self, n, f)
            if done:
                return
        fuel = 400
        while self.test(self.eval(n.test, f)):
            fuel -= 1
            if fuel == 0:
                raise Unsupported('while loop without an invariant')
            before = len(self.ctx.dec.conds)
            try:
                self.block(n.body, f)
            except Cont:
                pass
            except Brk:
                return
            if len(self.ctx.dec.conds) > before + 30 or fuel < 360:
                # progress depends on symbolic data
                if len(self.ctx.dec.conds) > 60:
                    raise Unsupported('while loop without an invariant')
        self.block(n.orelse, f)

    def st_With(self, n, f):
        for item in n.items:
            v = self.eval(item.context_expr, f)
            if not isinstance(v, Opaque):
                raise Unsupported('with statement')
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, f)
        self.block(n.body, f)

    def st_Try(self, n, f):
        nfr = len(self.ctx.frames)
        nact = len(self.active)
        try:
            try:
                self.block(n.body, f)
            except PyRaise as e:
                del self.ctx.frames[nfr:]
                del self.active[nact:]
                for h in n.handlers:
                    if self.matches(h.type, e, f):
                        old = f.vars.get('$exc')
                        if h.name:
                            f.vars[h.name] = ExcVal(e)
                        f.vars['$exc'] = ExcVal(e)
                        try:
                            self.block(h.body, f)
                        except PyRaise as e2:
                            if e2 is not e and e2.cause is None:
                                e2.cause = e
                            raise
                        finally:
                            if old is None:
                                f.vars.pop('$exc', None)
                            else:
                                f.vars['$exc'] = old
                        break
                else:
                    raise
            else:
                self.block(n.orelse, f)
        finally:
            if n.finalbody:
                raise_unsupported_final(n)

    def matches(self, typ, e, f):
        if typ is None:
            return True
        t = self.eval(typ, f)
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, Ext) and x.name.split('.')[-1] in EXC:
                c = EXC[x.name.split('.')[-1]]
                if issubclass(e.cls, c):
                    return True
                if issubclass(c, e.cls) and getattr(e, 'unknown', False):
                    # an exception of unknown class below e.cls
                    if self.ctx.choose('is_' + c.__name__):
                        return True
            else:
                raise Unsupported('except clause')
        return False

    # ========================================================= expressions
    def eval(self, n, f):
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(n).__name__)
        return m(n, f)

    def ex_Constant(self, n, f):
        return n.value

    def ex_Name(self, n, f):
        return self.lookup(n.id, f)

    def ex_Attribute(self, n, f):
        return self.getattr(self.eval(n.value, f), n.attr, f)

    def ex_Tuple(self, n, f):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                ps = self.parts(self.eval(e.value, f))
                if not all(p.simple() for p in ps):
                    raise Unsupported('starred')
                out += [p.elem for p in ps]
            else:
                out.append(self.eval(e, f))
        return tuple(out)

    def ex_List(self, n, f):
        parts = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                parts += self.parts(self.eval(e.value, f))
            else:
                parts.append(Part((), z3.BoolVal(True), self.eval(e, f)))
        return self.new(ListState(parts))

    def ex_Set(self, n, f):
        return self.new_list([self.eval(e, f) for e in n.elts], 'set')

    def ex_Dict(self, n, f):
        st = DictState(None, ('empty',))
        for k, v in zip(n.keys, n.values):
            if k is None:
                other = self.force(self.eval(v, f))
                st = self.updated(st, other)
            else:
                key = self.eval(k, f)
                st = DictState(st, ('set', self.dkey(key), self.eval(v, f)))
        return self.new(st)

    def updated(self, st, other):
        """State after .update(other)."""
        other = self.force(other)
        if isinstance(other, S) and other.kind == 'v':
            t = other.t
            if not self.ctx.entails(has_cls(t, 'dict')):
                raise Unsupported('update with {!r}'.format(other))
            o = DictState(None, ('base', lambda k: dct_dom(t, k),
                                 lambda k: dct_val(t, k)))
            return DictState(st, ('update', o))
        if isinstance(other, Ref):
            o = self.state(other)
            if isinstance(o, DictState):
                self.log_read(other, None)
                d = o.concrete()
                if d is not None:
                    for k, v in d.items():
                        st = DictState(st, ('set', k, v))
                    return st
                if st.op[0] == 'empty':
                    return o
                return DictState(st, ('update', o))
            if isinstance(o, ListState) and o.concrete():
                for e in o.items():
                    k, v = self.unpack(e, 2)
                    st = DictState(st, ('set', self.dkey(k), v))
                return st
        if isinstance(other, DView) and other.what == 'items':
            return self.updated(st, other.ref)
        raise Unsupported('update with {!r}'.format(other))

    def ex_JoinedStr(self, n, f):
        t = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                t.append(z3.StringVal(v.value))
            else:
                if v.format_spec is not None:
                    t.append(self.ctx.fresh(z3.StringSort(), 'fmt'))
                    continue
                t.append(self.str_term(self.eval(v.value, f)))
        return concat(t)

    def ex_Lambda(self, n, f):
        fn = FuncVal(n, f.module, None, 'function', f)
        # defaults are evaluated now
        if n.args.defaults:
            cap = Frame(f.module, None, f)
            names = [a.arg for a in n.args.args]
            for a, d in zip(names[len(names) - len(n.args.defaults):],
                            n.args.defaults):
                cap.vars['$d_' + a] = self.eval(d, f)
            node = ast.Lambda(args=ast.arguments(
                posonlyargs=[], args=n.args.args, vararg=n.args.vararg,
                kwonlyargs=[], kw_defaults=[], kwarg=n.args.kwarg,
                defaults=[ast.Name('$d_' + a, ast.Load()) for a in
                          names[len(names) - len(n.args.defaults):]]),
                body=n.body)
            fn = FuncVal(node, f.module, None, 'function', cap)
        return fn

    def ex_NamedExpr(self, n, f):
        v = self.eval(n.value, f)
        self.assign(n.target, v, f)
        return v

    def ex_IfExp(self, n, f):
        if self.test(self.eval(n.test, f)):
            return self.eval(n.body, f)
        return self.eval(n.orelse, f)

    def ex_BoolOp(self, n, f):
        is_and = isinstance(n.op, ast.And)
        for i, e in enumerate(n.values):
            v = self.eval(e, f)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if not isinstance(t, bool):
                t = self.ctx.branch(t)
            if is_and and not t:
                return False if isinstance(v, S) and v.kind == 'bool' else v
            if not is_and and t:
                return True if isinstance(v, S) and v.kind == 'bool' else v
        raise Unsupported('empty bool op')

    def ex_UnaryOp(self, n, f):
        v = self.eval(n.operand, f)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else sbool(z3.Not(t))
        v = self.force(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            t = self.kind(v, 'int')
            if t is not None:
                return sint(-t)
            t = self.kind(v, 'real')
            if t is not None:
                return S('real', -t)
        raise Unsupported('unary operator')

    def ex_BinOp(self, n, f):
        a = self.eval(n.left, f)
        b = self.eval(n.right, f)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        return self.models.binop(self, op, self.force(a), self.force(b))

    def ex_Compare(self, n, f):
        left = self.eval(n.left, f)
        res = None
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r, f)
            c = self.models.compare(self, op, left, right)
            if i == len(n.ops) - 1:
                if res is None:
                    return c
                return c
            if not self.test(c):
                return False
            res = True
            left = right
        return res

    def ex_Subscript(self, n, f):
        obj = self.eval(n.value, f)
        if isinstance(n.slice, ast.Slice):
            lo = self.eval(n.slice.lower, f) if n.slice.lower else None
            hi = self.eval(n.slice.upper, f) if n.slice.upper else None
            st = self.eval(n.slice.step, f) if n.slice.step else None
            return self.models.getslice(self, self.force(obj), lo, hi, st)
        return self.getitem(obj, self.eval(n.slice, f))

    def getitem(self, obj, key):
        obj = self.force(obj)
        if isinstance(obj, Ref):
            st = self.state(obj)
            if isinstance(st, DictState):
                return self.dict_index(obj, key)
            if isinstance(st, ObjState):
                g, _ = st.cls.lookup('__getitem__')
                if g is not None:
                    return self.call_func(g, [obj, key], {})
        if isinstance(obj, S) and obj.kind == 'v':
            c = self.opaque_class(obj.t)
            if c is not None:
                g, _ = c.lookup('__getitem__')
                if g is None:
                    raise PyRaise(TypeError, ('not subscriptable',))
                return self.call_func(g, [obj, key], {})
        return self.models.getitem(self, obj, key)

    def setitem(self, obj, key, value):
        obj = self.force(obj)
        if isinstance(obj, Ref) and isinstance(self.state(obj), DictState):
            self.dict_set(obj, key, value)
            return
        raise Unsupported('item assignment to {!r}'.format(obj))

    # ------------------------------------------------------ comprehensions
    def comp(self, n, f, emit):
        """Run a comprehension; emit(frame) at each innermost element."""
        fr = Frame(f.module, f.func, f)
        self.ctx.frames.append(fr)
        try:
            self.comp_level(n.generators, 0, fr, emit)
        finally:
            self.pop_frame(fr)

    def comp_level(self, gens, i, fr, emit):
        if i == len(gens):
            emit(fr)
            return
        g = gens[i]
        parts = self.parts(self.eval(g.iter, fr))
        names = target_names(g.target)
        for h in gens[i + 1:]:
            names |= target_names(h.target)

        def body(elem):
            self.assign(g.target, elem, fr)
            for c in g.ifs:
                if not self.test(self.eval(c, fr)):
                    return
            self.comp_level(gens, i + 1, fr, emit)
        self.iterate(parts, body, names, fr)

    def mapped(self, n, f):
        """[elt for target in sequence], element by element: the element
        is evaluated where it is read (contracts that switch this on read a
        generic position)."""
        g = n.generators[0]
        if len(n.generators) != 1 or g.ifs:
            return None
        it = self.force(self.eval(g.iter, f))
        st = self.state(it) if isinstance(it, Ref) else None
        if not isinstance(st, SeqState) or st.elem is None:
            return it, None
        up = Frame(f.module, f.func, f.parent)
        up.vars = dict(f.vars)

        def elem(i):
            fr = Frame(f.module, f.func, up)
            before = dict(self.ctx.heap)
            self.ctx.frames.append(fr)
            try:
                self.assign(g.target, st.elem(i), fr)
                v = self.eval(n.elt, fr)
            except PyRaise as e:
                raise Unsupported('comprehension that may raise') from e
            finally:
                self.pop_frame(fr)
            if any(self.ctx.heap.get(m) is not x for m, x in before.items()):
                raise Unsupported('comprehension with effects')
            return v
        return it, SeqState(st.n, elem)

    def ex_ListComp(self, n, f, kind='list'):
        if self.lazy_seqs and kind == 'list':
            r = self.mapped(n, f)
            if r is not None and r[1] is not None:
                return self.new(r[1])
        out = self.new_list((), kind)

        def emit(fr):
            v = self.eval(n.elt, fr)
            st = self.ctx.heap[out.oid]
            self.set_state(out, ListState(
                st.parts + (Part((), z3.BoolVal(True), v),), kind))
        self.comp(n, f, emit)
        return out

    def ex_GeneratorExp(self, n, f):
        return self.ex_ListComp(n, f, 'gen')

    def ex_SetComp(self, n, f):
        return self.ex_ListComp(n, f, 'set')

    def ex_DictComp(self, n, f):
        out = self.new_dict()

        def emit(fr):
            k = self.eval(n.key, fr)
            self.dict_set(out, k, self.eval(n.value, fr))
        self.comp(n, f, emit)
        return out

    # --------------------------------------------------------------- calls
    def ex_Call(self, n, f):
        # any() / all() over a generator of truth values: keep a formula
        if isinstance(n.func, ast.Name) and n.func.id == 'super' \
                and not n.args:
            fr = f
            while fr is not None and (fr.func is None
                                      or fr.func.owner is None):
                fr = fr.parent
            first = fr.func.node.args.args[0].arg
            return SuperVal(fr.func.owner, fr.vars[first])
        if isinstance(n.func, ast.Name) and n.func.id == 'globals' \
                and not n.args and 'globals' not in f.vars:
            return GlobalsVal(f.module)
        fn = self.eval(n.func, f)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                ps = self.parts(self.eval(a.value, f))
                if not all(p.simple() for p in ps):
                    raise Unsupported('starred argument')
                args += [p.elem for p in ps]
            else:
                args.append(self.eval(a, f))
        for k in n.keywords:
            if k.arg is not None:
                kwargs[k.arg] = self.eval(k.value, f)
            else:
                d = self.force(self.eval(k.value, f))
                if isinstance(d, Ref):
                    st = self.state(d)
                    if isinstance(st, DictState):
                        c = st.concrete()
                        if c is not None and all(isinstance(x, str)
                                                 for x in c):
                            kwargs.update(c)
                        else:
                            kwargs['**'] = self.new(st)
                        continue
                raise Unsupported('** argument')
        return self.call(fn, args, kwargs)


def instance_attrs(c):
    """Names the methods of a class assign on an object."""
    out = set()
    for k in c.mro():
        for a in k.attrs.values():
            for f in ([a.getter, a.setter] if isinstance(a, PropVal)
                      else [a]):
                if isinstance(f, FuncVal):
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Attribute):
                            if isinstance(x.ctx, ast.Store):
                                out.add(mangle(x.attr, k))
                        elif isinstance(x, ast.Name) and x.id in (
                                'setattr', '__dict__'):
                            raise Unsupported('setattr')
    return out


def raise_unsupported_final(n):
    raise Unsupported('finally clause')


def concat(ts):
    if not ts:
        return ''
    if len(ts) == 1:
        return sstr(ts[0])
    return sstr(z3.Concat(*ts))


def _load(t):
    t2 = ast.parse(ast.unparse(t), mode='eval').body
    return t2


def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def assigned_names(stmts):
    out = set()
    for st in stmts:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, ast.FunctionDef):
                out.add(x.name)
        # comprehension targets are local to the comprehension
    comp = set()
    for st in stmts:
        for x in ast.walk(st):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                for g in x.generators:
                    comp |= target_names(g.target)
    plain = set()
    for st in stmts:
        plain |= _plain_stores(st)
    return (out - comp) | plain


def _plain_stores(st):
    out = set()
    stack = [st]
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp, ast.Lambda)):
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        stack.extend(ast.iter_child_nodes(x))
    return out


def aug_only(stmts):
    aug, plain = set(), set()
    for st in stmts:
        for x in ast.walk(st):
            if isinstance(x, ast.AugAssign) and isinstance(x.target,
                                                           ast.Name):
                aug.add(x.target.id)
            elif isinstance(x, (ast.Assign,)):
                for t in x.targets:
                    plain |= target_names(t)
            elif isinstance(x, ast.For):
                plain |= target_names(x.target)
    return aug - plain
