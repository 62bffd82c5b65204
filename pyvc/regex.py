"""re.search with a pattern that describes the end of a text ('...$'), and
the text it matches as a sequence of pieces.

Only patterns made of characters, character classes and repetitions are
understood, with at most one repetition of variable length; in that case the
first character of the pattern must be a literal that the rest of the pattern
cannot match (the match then starts at its last occurrence).
"""
import re._constants as c
import re._parser as parser

import z3

from pyvc.values import (Ext, Opaque, PyRaise, S, Unsupported, sint, sstr)

SS, Int = z3.StringSort(), z3.IntSort()
ASCII = [chr(i) for i in range(128)]


def classes(pattern, ignorecase):
    """[(set of characters, min, max)], max None: without limit."""
    out = []
    seq = list(parser.parse(pattern))
    if not seq or seq[-1] != (c.AT, c.AT_END):
        raise Unsupported('pattern that is not anchored at the end')
    for op, av in seq[:-1]:
        lo, hi = 1, 1
        if op is c.MAX_REPEAT:
            lo, hi, sub = av
            if len(sub) != 1:
                raise Unsupported('pattern')
            op, av = sub[0]
            hi = None if hi is c.MAXREPEAT else int(hi)
        chars = chars_of(op, av)
        if ignorecase:
            if chars & set('kKsS'):
                raise Unsupported('pattern with special folding')
            chars = chars | {x.swapcase() for x in chars}
        out.append((frozenset(chars), int(lo), hi))
    return out


def chars_of(op, av):
    if op is c.LITERAL:
        return {chr(av)}
    if op is c.IN:
        out = set()
        for o, a in av:
            if o is c.RANGE:
                out |= {chr(x) for x in range(a[0], a[1] + 1)}
            elif o is c.LITERAL:
                out.add(chr(a))
            else:
                raise Unsupported('pattern')
        return out
    raise Unsupported('pattern')


def z3_class(chars):
    xs = sorted(chars)
    parts, i = [], 0
    while i < len(xs):
        j = i
        while j + 1 < len(xs) and ord(xs[j + 1]) == ord(xs[j]) + 1:
            j += 1
        parts.append(z3.Range(xs[i], xs[j]) if j > i
                     else z3.Re(z3.StringVal(xs[i])))
        i = j + 1
    return parts[0] if len(parts) == 1 else z3.Union(*parts)


def z3_regex(cl):
    parts = []
    for chars, lo, hi in cl:
        r = z3_class(chars)
        if (lo, hi) == (1, 1):
            parts.append(r)
        elif (lo, hi) == (1, None):
            parts.append(z3.Plus(r))
        elif (lo, hi) == (0, None):
            parts.append(z3.Star(r))
        elif hi is not None:
            parts.append(z3.Loop(r, lo, hi))
        else:
            parts.append(z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def last_index(t, ch):
    return z3.Function('last_index_' + '%02x' % ord(ch), SS, Int)(t)


def last_facts(I, t, ch):
    """L is the last position of the character, or -1."""
    L = last_index(t, ch)
    rest = z3.SubString(t, L + 1, z3.Length(t) - L - 1)
    I.ctx.define(z3.And(L >= -1, L < z3.Length(t)))
    I.ctx.define(z3.Implies(L >= 0, z3.SubString(t, L, 1)
                            == z3.StringVal(ch)))
    I.ctx.define(z3.Not(z3.Contains(rest, z3.StringVal(ch))))
    return L


def ending(I, t, pattern, ignorecase):
    """(does the end of t match, start, pieces)"""
    cl = classes(pattern, ignorecase)
    n = z3.Length(t)
    var = [i for i, x in enumerate(cl) if x[1] != x[2]]
    if len(var) > 1:
        raise Unsupported('pattern with two repetitions')
    if var:
        first = cl[0]
        if var[0] == 0 or first[1:] != (1, 1) or len(first[0]) != 1 \
                or any(first[0] & x[0] for x in cl[1:]):
            raise Unsupported('pattern whose start is not fixed')
        start = last_facts(I, t, list(first[0])[0])
        after = sum(x[1] for x in cl[var[0] + 1:])
    else:
        start = n - sum(x[1] for x in cl)
    has = z3.And(start >= 0, z3.InRe(z3.SubString(t, start, n - start),
                                     z3_regex(cl)))
    pieces, at = [], start
    for i, (chars, lo, hi) in enumerate(cl):
        if var and i == var[0]:
            size = n - after - at
        else:
            size = z3.IntVal(lo)
        term = z3.simplify(z3.SubString(t, at, size))
        if len(chars) == 1 and lo == hi:
            pieces.append(list(chars)[0] * lo)
        else:
            pieces.append((term, chars, lo if lo == hi else None))
        at = at + size
    return has, start, pieces


def search(I, args, kwargs):
    pattern, t = args[0], I.kind(args[1], 'str')
    flags = list(args[2:]) + [v for k, v in kwargs.items() if k == 'flags']
    if set(kwargs) - {'flags'} or len(flags) > 1 \
            or not isinstance(pattern, str) or t is None:
        raise Unsupported('re.search')
    ic = False
    if flags:
        if not (isinstance(flags[0], Ext)
                and flags[0].name in ('re.IGNORECASE', 're.I')):
            raise Unsupported('flags of re.search')
        ic = True
    has, start, pieces = ending(I, t, pattern, ic)
    if not I.ctx.branch(has):
        return None
    return Opaque('ending', of=t, start=start, pieces=pieces)


def m_start(I, obj, args, kwargs):
    return sint(obj.info['start'])


def m_end(I, obj, args, kwargs):
    return sint(z3.Length(obj.info['of']))


def m_group(I, obj, args, kwargs):
    if args not in ([], [0]):
        raise Unsupported('group of a match')
    return Opaque('pieces', pieces=obj.info['pieces'])


def made(pieces):
    out = []
    for p in pieces:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    return Opaque('pieces', pieces=out)


def case(fold):
    def f(I, obj, args, kwargs):
        out = []
        for p in obj.info['pieces']:
            if isinstance(p, str):
                out.append(fold(p))
                continue
            img = {fold(x) for x in p[1]}
            if all(fold(x) == x for x in p[1]):
                out.append(p)
            elif len(img) == 1 and p[2] is not None:
                out.append(list(img)[0] * p[2])
            else:
                raise Unsupported('case of a text')
        return made(out)
    return f


def replace(I, obj, args, kwargs):
    if len(args) != 2 or not all(isinstance(a, str) for a in args) \
            or not args[0]:
        raise Unsupported('replace')
    a, b = args
    out = []
    for p in made(obj.info['pieces']).info['pieces']:
        if isinstance(p, str):
            out.append(p.replace(a, b))
        elif set(a) & p[1]:
            raise Unsupported('replace')
        else:
            out.append(p)
    return made(out)


def strip(left, right):
    def f(I, obj, args, kwargs):
        if len(args) > 1 or not all(isinstance(a, str) for a in args):
            raise Unsupported('strip')
        chars = set(args[0] if args else ' \t\n\r\f\v')
        ps = list(made(obj.info['pieces']).info['pieces'])
        for side, on in ((0, left), (-1, right)):
            if not on or not ps:
                continue
            if isinstance(ps[side], str):
                s = ps[side]
                s = s.lstrip(''.join(chars)) if side == 0 \
                    else s.rstrip(''.join(chars))
                ps[side] = s
                if s:
                    continue
                del ps[side]
            if ps and (isinstance(ps[side], str) or ps[side][1] & chars):
                raise Unsupported('strip')
        return made(ps)
    return f


def digits(obj):
    ps = obj.info['pieces']
    if not ps or any(set(p if isinstance(p, str) else p[1])
                     - set('0123456789') for p in ps):
        return None
    ts = [z3.StringVal(p) if isinstance(p, str) else p[0] for p in ps]
    return z3.StrToInt(ts[0] if len(ts) == 1 else z3.Concat(*ts))


def to_number(name):
    def f(I, args, kwargs):
        if len(args) == 1 and not kwargs and isinstance(args[0], Opaque) \
                and args[0].what == 'pieces':
            d = digits(args[0])
            if d is None:
                raise Unsupported('number from a text')
            return sint(d) if name == 'int' else S('real', z3.ToReal(d))
        return I.models.EXT['builtins.' + name](I, args, kwargs)
    return f


def install(I):
    I.contracts.update({'re.search': search, 'builtins.int': to_number('int'),
                        'builtins.float': to_number('float')})
    I.views.update({
        ('opaque', 'ending', 'start'): m_start,
        ('opaque', 'ending', 'end'): m_end,
        ('opaque', 'ending', 'group'): m_group,
        ('opaque', 'pieces', 'upper'): case(str.upper),
        ('opaque', 'pieces', 'lower'): case(str.lower),
        ('opaque', 'pieces', 'replace'): replace,
        ('opaque', 'pieces', 'strip'): strip(True, True),
        ('opaque', 'pieces', 'lstrip'): strip(True, False),
        ('opaque', 'pieces', 'rstrip'): strip(False, True)})
