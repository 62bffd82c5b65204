"""Small functions that exercise the Python subset of pyvc, with inputs.
Imported by CPython and interpreted by pyvc (selftest.py)."""
import copy
import os
import re

CASES = []


def case(*inputs):
    def deco(f):
        CASES.append((f.__name__, inputs))
        return f
    return deco


@case((1, 2), (2, 1), (0, 0), (-3, 5))
def arithmetic(a, b):
    c = a + b * 2 - (a - b)
    if a < b <= c:
        c += 1
    elif a == b or c != 3:
        c -= 10
    return c, -c, a > b


@case((1, 1.0), (True, 1), (False, 0), (2, True), ('1', 1), (None, 0),
      (2.5, 2.5), ('a', 'a'), (0, None))
def equality(a, b):
    return (a == b, a == 1, b == 1.0, a is None, a != b, a == '1', b == True,
            a in (0, 2), a in [b])


@case((1, 'x'), (0, 'x'), ('', 'y'), (None, ''))
def truthy(a, b):
    return a or b, a and b, not a, bool(b), (1 if a else 2)


@case(('a+b', '+'), ('ab', '+'), ('a+b+c', '+'), ('', 'x'), ('++', '+'))
def text(s, o):
    out = []
    if o in s:
        i = s.index(o) if hasattr(s, 'index') else 0
        out.append(s[:i])
        out.append(s[i + len(o):])
    out.append(s.startswith(o))
    out.append(s.endswith(o))
    out.append(s.replace(o, '-'))
    out.append(s + '::' + o)
    return out


@case(('a b',), ('a::b::c',), ('abc',), ('',), (' a ',), ('(x)',))
def parts(s):
    out = [len(s), s == 'abc', s.strip(), s.count('::'), s != '']
    out.append(s.partition('::'))
    out.append(s.split('::'))
    out.append(s.lstrip('('))
    out.append(s[-1:])
    out.append(s[1:])
    return out


@case(('Ab_1',), ('xYz',), ('',))
def letters(s):
    return s.upper(), s.lower(), '{}/{}'.format(s, 1), '-'.join([s, 'q'])


@case(('12',), ('1.5',), ('x',), ('',), ('-3',), (' 7',), ('1e3',), (None,),
      (True,), (4,))
def numbers(s):
    out = []
    try:
        out.append(int(s))
    except ValueError:
        out.append('not an int')
    except TypeError:
        out.append('wrong type')
    try:
        out.append(float(s))
    except Exception:
        out.append('not a float')
    else:
        out.append('fine')
    return out


@case((1, True), (2.5, 'x'), ('x', None), (True, 1), (None, 2.5))
def types(a, b):
    out = []
    for x in (a, b):
        out.append((isinstance(x, int), isinstance(x, bool),
                    isinstance(x, (int, float)), isinstance(x, str),
                    x is None, isinstance(x, dict)))
    return out, a == b


@case(({'a': 1, 'b': 2}, 'a'), ({'a': 1, 'b': 2}, 'c'), ({}, 'a'))
def dictionaries(d, k):
    out = {}
    out['in'] = k in d
    out['get'] = d.get(k)
    out['get2'] = d.get(k, 7)
    e = dict(d)
    e[k] = 5
    d2 = d.copy()
    d2.update({'z': 9, 'b': 3})
    e.pop('b', None)
    out['same'] = d is e
    out['keys'] = sorted(e.keys())
    try:
        out['item'] = d[k]
    except KeyError:
        out['item'] = 'missing'
    return out, d, e, d2


@case(({'a': 1, 'b': 2},), ({'x': 0},), ({},))
def aliasing(d):
    e = d
    f = copy.deepcopy(d)
    e['new'] = 1
    f['other'] = 2
    inner = {'d': d}
    inner['d']['deep'] = 3
    g = copy.copy(inner)
    g['d']['x'] = 4
    g['only'] = 1
    return d, e, f, inner, g


@case(([1, 2, 3],), ([],), (['a'],))
def lists(x):
    y = x + [4]
    z = [i for i in y if i != 2]
    x.append('end')
    w = list(x)
    w.append(0)
    return x, y, z, w, 2 in y, len(x), [a for a in x], y[0], y[-1]


@case((3,), (0,), (7,))
def loops(n):
    out = []
    i = 0
    while True:
        if i >= n:
            break
        i += 1
        if i == 2:
            continue
        out.append(i)
    else:
        out.append('never')
    for j in range(n):
        if j == 5:
            out.append('five')
            break
    else:
        out.append('no five')
    for k, v in enumerate(['a', 'b']):
        out.append((k, v))
    for k, v in zip([1, 2], 'xy'):
        out.append((k, v))
    return out


@case((0,), (1,), (2,), (3,))
def exceptions(n):
    out = []
    try:
        try:
            if n == 0:
                raise ValueError('v')
            if n == 1:
                raise KeyError('k')
            if n == 2:
                raise RuntimeError('r')
            out.append('body')
        except (ValueError, RuntimeError) as e:
            out.append(type(e) is ValueError)
            if n == 2:
                raise
        else:
            out.append('else')
        finally:
            out.append('finally')
    except LookupError:
        out.append('lookup')
    except Exception:
        out.append('other')
    return out


@case((0,), (1,))
def raises(n):
    if n:
        raise KeyError('no')
    return {}['x']


@case((2, 3), (0, 1))
def closures(a, b):
    def add(x, y=b, *rest, z=10, **kw):
        return x + y + z + len(rest) + kw.get('w', 0)
    f = [lambda q: q + a]
    args = (1, 2, 3)
    kw = {'z': 1, 'w': 5}
    return add(a), add(a, 1), add(*args, **kw), f[0](b)


class Base:
    kind = 'base'

    def __init__(self, x, y=2):
        self.x = x
        self._y = y

    @property
    def y(self):
        return self._y

    @y.setter
    def y(self, v):
        self._y = v + 1

    @staticmethod
    def s(a):
        return a * 2

    @classmethod
    def make(cls, x):
        return cls(x, y=cls.s(x))

    def who(self):
        return self.kind

    def __add__(self, o):
        return Base(self.x + o.x)

    def __contains__(self, o):
        return o == self.x

    def __getattr__(self, name):
        if name == 'magic':
            return 42
        raise AttributeError(name)


class Derived(Base):
    kind = 'derived'

    def __init__(self, x, y=0):
        super().__init__(x, y=y)
        self.extra = [x]

    def who(self):
        return super().who() + '!'


@case((1,), (5,))
def objects(x):
    b, d = Base(x), Derived.make(x)
    b.y = 7
    out = [b.x, b.y, d.y, d.who(), b.who(), d.extra, x in b, 99 in d]
    out.append((b + d).x)
    out.append(b.magic)
    out.append(hasattr(b, 'nothing'))
    out.append(getattr(d, 'x'))
    out.append(getattr(d, 'nothing', 'dflt'))
    out.append(isinstance(d, Base))
    out.append(isinstance(b, Derived))
    return out


@case(('a', 'b'), ('', 'b'), ('x/', 'y'), ('x', '/y'))
def paths(a, b):
    return os.path.join(a, b)


@case(({'a': {'b': 1}}, 'a'), ({'a': 3}, 'a'), ({'c': 1}, 'a'))
def nested(d, k):
    def deep(x, path):
        if isinstance(x, dict):
            out = []
            for kk, v in x.items():
                out += deep(v, path + [kk])
            return out
        return [(path, x)]
    return deep(d, []), {kk: vv for kk, vv in d.items() if kk != k}


@case((1, 2), (2, 1))
def unpack(a, b):
    a, b = b, a
    (c, d), e = (a, b), [a, b]
    f = g = e
    f.append(3)
    e += [4]
    return a, b, c, d, e, g


@case(('a_5MW',), ('a_MW',), ('x_12mw',), ('y_3MWh',), ('_1_2Mw',))
def pattern(s):
    m = re.search('_[0-9]+MW$', s, flags=re.IGNORECASE)
    if m is None:
        return None
    n = int(m.group(0).upper().replace('MW', '').lstrip('_'))
    return n, m.start(), s[:m.start()]


# loops over dictionaries of which pyvc is given only the contents as a
# relation ('unknown'): the loop rules, not element-by-element execution
DICTS = (({'a': 1, 'b': 2},), ({'a': 1},), ({},), ({'b': 0, 'c': 3},),
         ({'a': 'a', 'b': 'x'},), ({'x': None, 'b': 2.5},))


@case(*DICTS)
def copy_loop(d):
    out = {}
    for k, v in d.items():
        out[k] = v
    return out


@case(*DICTS)
def filter_loop(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, int):
            out[k] = v
    return out, d


@case(*DICTS)
def overwrite_loop(d):
    out = {'a': 'old', 'q': 'old'}
    for k in d:
        if k == 'b':
            continue
        out[k] = d[k]
    return out


@case(*DICTS)
def raise_loop(d):
    for k, v in d.items():
        if v is None:
            raise ValueError(k)
        if v == 'x':
            raise KeyError(k)
    return 'fine'


@case(*DICTS)
def early_return(d):
    for k, v in d.items():
        if v == 2:
            return k
    return 'none'


@case(*DICTS)
def break_flag(d):
    found = False
    for k in d.keys():
        if k == 'b':
            found = True
            break
    return found


@case(*DICTS)
def any_all(d):
    return (any(v == 2 for v in d.values()),
            all(isinstance(v, int) for v in d.values()),
            'a' in d, 'b' in [k for k in d])


@case(*DICTS)
def comprehension(d):
    return {k: v for k, v in d.items() if v != 1}


@case(*DICTS)
def in_place(d):
    for k in list(d.keys()):
        d[k] = 'new'
    return d


@case(*DICTS)
def constant_key(d):
    out = {}
    for v in d.values():
        out['last'] = v
    return 'last' in out


@case(*DICTS)
def swallow(d):
    out = {}
    for k, v in d.items():
        try:
            if v is None:
                raise ValueError
            out[k] = v
        except ValueError:
            out[k] = 'bad'
    return out


@case(*DICTS)
def other_key(d):
    out = {}
    for k, v in d.items():
        out[k + '_1'] = v
    return out


@case(*DICTS)
def merge(d):
    out = {'a': 0, 'z': 0}
    out.update(d)
    e = dict(d)
    e.update(out)
    e.update(n=1)
    return out, e, d


@case(*DICTS)
def setdefaults(d):
    for k, v in {'a': 5, 'n': 6}.items():
        if k not in d:
            d[k] = v
    return d


@case(*DICTS)
def collect(d):
    out = []
    for k, v in d.items():
        if v != 1:
            out.append(k)
    return 'a' in out, 'b' in out, 'zz' in out


@case(*DICTS)
def first_wins(d):
    out = {}
    for k in ('a', 'b', 'a'):
        if k in d and k not in out:
            out[k] = d[k]
    d.pop('a', None)
    return out, d


@case(*DICTS)
def two_loops(d):
    out = {}
    for k, v in d.items():
        out[k] = v
    for k, v in d.items():
        if v == 1:
            out[k] = 'one'
    return out


@case(*DICTS)
def nested_call(d):
    def f(x, acc):
        for k, v in x.items():
            acc[k] = v
        return acc
    a = {}
    b = f(d, a)
    b['extra'] = 1
    return a, d


@case(*DICTS)
def del_loop(d):
    e = dict(d)
    for k in list(e):
        if k != 'a':
            del e[k]
    return e, d
