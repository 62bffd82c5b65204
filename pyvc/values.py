"""Value model of the verifier.

Python values are either concrete (None, bool, int, float, str, tuples),
references to heap objects (Ref), or symbolic terms (S).  Everything has an
embedding into the universal z3 sort V, so that dictionaries with an unknown
set of keys can hold anything.
"""
import z3


class Unsupported(Exception):
    """The function leaves the subset the verifier understands."""


class Infeasible(Exception):
    """The current path turned out to be impossible."""


class PyRaise(Exception):
    """The code under verification raises."""

    def __init__(self, cls, args=(), cause=None):
        Exception.__init__(self, cls.__name__)
        self.cls = cls
        self.eargs = args
        self.cause = cause


class Ret(Exception):
    def __init__(self, value):
        self.value = value


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ------------------------------------------------------------------ sort V
_V = z3.Datatype('V')
_V.declare('NoneV')
_V.declare('BoolV', ('vb', z3.BoolSort()))
_V.declare('IntV', ('vi', z3.IntSort()))
_V.declare('FltV', ('vr', z3.RealSort()))
_V.declare('StrV', ('vs', z3.StringSort()))
_V.declare('ObjV', ('oid', z3.IntSort()), ('ocls', z3.IntSort()))
V = _V.create()
NoneV, BoolV, IntV, FltV, StrV, ObjV = (V.NoneV, V.BoolV, V.IntV, V.FltV,
                                        V.StrV, V.ObjV)
is_none, is_bool, is_int, is_flt, is_str, is_obj = (
    V.is_NoneV, V.is_BoolV, V.is_IntV, V.is_FltV, V.is_StrV, V.is_ObjV)
vb, vi, vr, vs, oid, ocls = V.vb, V.vi, V.vr, V.vs, V.oid, V.ocls

# class codes of opaque objects
CLS = {n: i + 1 for i, n in enumerate((
    'list', 'tuple', 'dict', 'set', 'ndarray', 'npnum', 'DataFrame',
    'Equation', 'EquationGroup', 'VariableGroup', 'EquationDirectory',
    'NrwalConfig', 'box', 'other'))}


def has_cls(term, *names):
    return z3.And(is_obj(term),
                  z3.Or(*[ocls(term) == CLS[n] for n in names]))


# ---------------------------------------------------- uninterpreted symbols
_B, _I, _S, _R = (z3.BoolSort(), z3.IntSort(), z3.StringSort(), z3.RealSort())


def F(name, *sorts):
    return z3.Function(name, *sorts)


str_of = F('str_of', V, _S)             # str(x) of a non-string value
is_numeral = F('is_numeral', _S, _B)    # float(s) succeeds
num_of = F('num_of', _S, _R)            # float(s)
truthy_obj = F('truthy_obj', V, _B)     # bool(x) of an opaque object
vars_of = F('vars_of', _S, V, _B)       # x is a variable of the text
eqn_text = F('eqn_text', V, _S)
eqn_name = F('eqn_name', V, V)
eqn_def_dom = F('eqn_def_dom', V, V, _B)
eqn_def_val = F('eqn_def_val', V, V, V)
grp_dom = F('grp_dom', V, V, _B)        # entries of a group or directory
grp_val = F('grp_val', V, V, V)
grp_def_dom = F('grp_def_dom', V, V, _B)
grp_def_val = F('grp_def_val', V, V, V)
dct_dom = F('dct_dom', V, V, _B)        # a dictionary held as a value
dct_val = F('dct_val', V, V, V)
int_array = F('int_array', V, _B)       # ndarray of an integer dtype
as_f32 = F('as_f32', V, V)              # x.astype(np.float32)
df_dom = F('df_dom', V, V, _B)          # column names of a table
df_val = F('df_val', V, V, V)           # values of a column
elem0 = F('elem0', V, V)                # first element of an array
dcopy = F('dcopy', V, V)                # copy.deepcopy of an object
is_copy = F('is_copy', V, _B)           # made by copy.deepcopy here
cont = F('cont', V, _I)                 # content (equal for a deep copy)


class S:
    """Symbolic value: kind in bool, int, real, str, v."""
    __slots__ = ('kind', 't')

    def __init__(self, kind, t):
        self.kind = kind
        self.t = t

    def __repr__(self):
        return 'S({}, {})'.format(self.kind, self.t)

    def __bool__(self):
        raise Unsupported('symbolic value used as a python bool')


def sbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return S('bool', t)


def sint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return S('int', t)


def sreal(t):
    return S('real', t)


def sstr(t):
    t = z3.simplify(t)
    if z3.is_string_value(t):
        return unescape(t)
    return S('str', t)


def unescape(t):
    return ''.join(_chars(t.as_string()))


def _chars(s):
    """z3 prints non-ascii characters as \\u{..}"""
    i = 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            yield chr(int(s[i + 3:j], 16))
            i = j + 1
        else:
            yield s[i]
            i += 1


def sv(t):
    return from_v(t)


def from_v(t):
    """Value of a V term: typed when the constructor is known."""
    t = z3.simplify(t)
    if z3.is_app(t):
        d = t.decl().name()
        if d == 'NoneV':
            return None
        if d == 'BoolV':
            return sbool(t.arg(0))
        if d == 'IntV':
            return sint(t.arg(0))
        if d == 'FltV':
            a = t.arg(0)
            if z3.is_rational_value(a):
                return float(a.as_fraction())
            return sreal(a)
        if d == 'StrV':
            return sstr(t.arg(0))
        if d == 'ObjV' and z3.is_int_value(t.arg(0)):
            n = t.arg(0).as_long()
            if n >= 0:
                return Ref(n)
    return S('v', t)


class Ref:
    """Reference to a heap object known to the verifier."""
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Ref({})'.format(self.oid)

    def __eq__(self, other):
        return isinstance(other, Ref) and other.oid == self.oid

    def __hash__(self):
        return hash(('Ref', self.oid))


class Poison:
    """Value of a local that one iteration cannot know."""

    def __init__(self, name):
        self.name = name


class Part:
    """One piece of a collection: { elem | params, guard }"""
    __slots__ = ('params', 'guard', 'elem')

    def __init__(self, params, guard, elem):
        self.params = tuple(params)
        self.guard = guard
        self.elem = elem

    def simple(self):
        return not self.params and z3.is_true(self.guard)


class ListState:
    """list / set / tuple-like contents; `kind` in list, set."""
    __slots__ = ('parts', 'kind', 'order')

    def __init__(self, parts=(), kind='list', order=None):
        self.parts = tuple(parts)
        self.kind = kind
        self.order = order

    def concrete(self):
        return all(p.simple() for p in self.parts)

    def items(self):
        return [p.elem for p in self.parts]


class DictState:
    """Dictionary state as a chain of operations."""

    def __init__(self, parent, op):
        self.parent = parent
        self.op = op

    def concrete(self):
        """Python dict of the contents if every key is concrete."""
        if self.op[0] == 'empty':
            return {}
        if self.op[0] == 'set' and _hashable(self.op[1]):
            d = self.parent.concrete()
            if d is not None:
                d = dict(d)
                d[self.op[1]] = self.op[2]
            return d
        if self.op[0] == 'del' and _hashable(self.op[1]):
            d = self.parent.concrete()
            if d is not None:
                d = dict(d)
                d.pop(self.op[1], None)
            return d
        return None

    def dom(self, k, tv):
        op = self.op
        if op[0] == 'empty':
            return z3.BoolVal(False)
        if op[0] == 'base':
            return op[1](k)
        if op[0] == 'set':
            return z3.Or(k == tv(op[1]), self.parent.dom(k, tv))
        if op[0] == 'del':
            return z3.And(k != tv(op[1]), self.parent.dom(k, tv))
        if op[0] == 'update':
            return z3.Or(op[1].dom(k, tv), self.parent.dom(k, tv))
        if op[0] == 'map':          # param, guard, [(cond, value term|None)]
            out = self.parent.dom(k, tv)
            p, guard, cases = op[1:]
            for cond, val in cases:
                c = z3.substitute(z3.And(guard, cond), (p, k))
                if val is None:
                    out = z3.And(z3.Not(c), out)
                else:
                    out = z3.Or(c, out)
            return out
        if op[0] == 'apply':        # values mapped by a function
            return self.parent.dom(k, tv)
        if op[0] == 'scatter':      # written by a loop at computed keys
            return z3.Or(op[1](k), self.parent.dom(k, tv))
        raise Unsupported('dict state ' + op[0])

    def val(self, k, tv):
        op = self.op
        if op[0] == 'empty':
            return NoneV
        if op[0] == 'base':
            return op[2](k)
        if op[0] == 'set':
            return z3.If(k == tv(op[1]), tv(op[2]), self.parent.val(k, tv))
        if op[0] == 'del':
            return self.parent.val(k, tv)
        if op[0] == 'update':
            return z3.If(op[1].dom(k, tv), op[1].val(k, tv),
                         self.parent.val(k, tv))
        if op[0] == 'map':
            out = self.parent.val(k, tv)
            p, guard, cases = op[1:]
            for cond, val in cases:
                if val is not None:
                    c = z3.substitute(z3.And(guard, cond), (p, k))
                    out = z3.If(c, z3.substitute(val, (p, k)), out)
            return out
        if op[0] == 'apply':
            return op[1](self.parent.val(k, tv))
        if op[0] == 'scatter':
            return z3.If(op[1](k), op[2](k), self.parent.val(k, tv))
        raise Unsupported('dict state ' + op[0])


def _hashable(k):
    return k is None or isinstance(k, (str, int, float, bool))


class ObjState:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs


class Tainted:
    """Contents unknown (a loop was left in the middle)."""


# -------------------------------------------------------- program entities
class ClassVal:
    def __init__(self, name, bases, module):
        self.name = name
        self.bases = bases
        self.module = module
        self.attrs = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                out += [c for c in b.mro() if c not in out]
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def __repr__(self):
        return '<class {}>'.format(self.name)


class FuncVal:
    def __init__(self, node, module, owner=None, kind='function',
                 closure=None):
        self.node = node
        self.module = module
        self.owner = owner
        self.kind = kind
        self.closure = closure
        name = getattr(node, 'name', '<lambda>')
        self.qualname = (owner.name + '.' if owner else '') + name

    def __repr__(self):
        return '<function {}>'.format(self.qualname)


class PropVal:
    def __init__(self, getter, setter=None):
        self.getter = getter
        self.setter = setter


class Bound:
    def __init__(self, func, self_val):
        self.func = func
        self.self_val = self_val


class BMethod:
    """Method of a builtin type bound to a value."""

    def __init__(self, self_val, name):
        self.self_val = self_val
        self.name = name


class Ext:
    """Something outside the repository, by dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext({})'.format(self.name)

    def __eq__(self, other):
        return isinstance(other, Ext) and other.name == self.name

    def __hash__(self):
        return hash(self.name)


class Native:
    """A model function: fn(interp, args, kwargs)."""

    def __init__(self, fn, name=''):
        self.fn = fn
        self.name = name


class SuperVal:
    def __init__(self, cls, self_val):
        self.cls = cls
        self.self_val = self_val


class DView:
    def __init__(self, ref, what):
        self.ref = ref
        self.what = what


class GlobalsVal:
    def __init__(self, module):
        self.module = module


class TypeOf:
    def __init__(self, value):
        self.value = value


class ExcVal:
    """A caught exception object."""

    def __init__(self, exc):
        self.exc = exc


class Opaque:
    """Some python object nothing is known about (e.g. an open file)."""

    def __init__(self, what, **info):
        self.what = what
        self.info = info
