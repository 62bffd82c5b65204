"""find_parens and find_np_pd_methods on all short strings and random longer
ones, against a direct matcher."""
from bounded.base import *   # noqa

BOUND = "find_parens: all strings over '()a' up to length 8 (thorough 10); calls: assembled strings of at most 6 pieces"


def cases(tier, seed):
    rng = rng_for('C16', tier, seed)
    for n in range(0, 9 if tier == 'quick' else 11):
        # batch per length and first two characters
        for pre in (itertools.product('()a', repeat=min(2, n))):
            yield 'parens', {'n': n, 'pre': ''.join(pre)}
    for _ in range(4000 if tier == 'quick' else 10000):
        s, depth = '', 0
        for _ in range(rng.randrange(0, 40)):
            c = rng.choice('(()) ab+[]{}1\n,')
            s += c
        if rng.random() < .7:
            # balance it
            out, depth = '', 0
            for c in s:
                if c == ')' and depth == 0:
                    continue
                depth += (c == '(') - (c == ')')
                out += c
            s = out + ')' * depth
        yield 'one', {'s': s}
    pieces = ['10 + ', 'np.exp(', 'pd.cut(', ')', '(', 'x', ' * ', 'np.pi',
              'np.random.rand(', 'ynp.a(', 'np_x', 'np.', 'pd.x', ' ', 'np',
              'np.linalg.norm(', '(a)', 'log2(', 'np.log2(', 'np.a_1(', '.np.b(',
              'NP.c(', 'snpd.z(', '_np.exp(', '2np.b(', 'x_np.c(', '\tnp.d(',
              '_pd.q(']
    for a in pieces:
        for b in pieces:
            yield 'call', {'s': balance(a + b)}
    for _ in range(8000 if tier == 'quick' else 20000):
        s = ''.join(rng.choice(pieces) for _ in range(rng.randrange(1, 7)))
        yield 'call', {'s': balance(s)}
    for s, r in [('10 + np.exp(input)', [5, 18]),
                 ('np.exp(a) + np.log(b)', [0, 9]), ('a + b', None),
                 ('np.where((a > 1) & (b), (c), d) * 2', [0, 31]),
                 ('(2 * pd.x(1))', [5, 12]), ('np.pi * (a)', None)]:
        yield 'exact', {'s': s, 'r': r}


def balance(s):
    out, depth = '', 0
    for c in s:
        if c == ')' and depth == 0:
            continue
        depth += (c == '(') - (c == ')')
        out += c
    return out + ')' * depth


def ref_pairs(s):
    """None if unbalanced, else pairs by closing position (quadratic)."""
    depth = 0
    for c in s:
        depth += (c == '(') - (c == ')')
        if depth < 0:
            return None
    if depth:
        return None
    out = []
    for j, c in enumerate(s):
        if c == ')':
            d = 0
            i = j
            while True:
                d += (s[i] == ')') - (s[i] == '(')
                if d == 0:
                    break
                i -= 1
            out.append([i, j + 1])
    return out


def one(s):
    want = ref_pairs(s)
    got = outcome(find_parens, s)
    if want is None:
        require(got[0] == 'err', 'find_parens({!r}) gave {}'
                .format(s, short(got[1])))
    else:
        require(got[0] == 'ok' and [list(x) for x in got[1]] == want,
                'find_parens({!r}) gave {} expected {}'
                .format(s, short(got[1]), want))
        if want and len(want) > 1:
            # a result a caller has changed is not seen by the next one
            try:
                got[1][0][0] = 99
                got[1].pop()
            except (TypeError, AttributeError):
                return
            got = outcome(find_parens, s)
            require(got[0] == 'ok' and [list(x) for x in got[1]] == want,
                    'second find_parens({!r}) gave {} expected {}'
                    .format(s, short(got[1]), want))


def ref_call(s):
    """First np./pd. call by scanning (identifier characters only)."""
    idc = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'
    for i in range(len(s)):
        if s[i:i + 3] in ('np.', 'pd.') and (i == 0 or s[i - 1] not in idc):
            j = i + 3
            while j < len(s) and s[j] in idc + '.':
                j += 1
            if j < len(s) and s[j] == '(':
                d, k = 0, j
                while True:
                    d += (s[k] == '(') - (s[k] == ')')
                    k += 1
                    if d == 0:
                        return [i, k]
    return None


def check(kind, data):
    if kind == 'parens':
        n, pre = data['n'], data['pre']
        for rest in itertools.product('()a', repeat=n - len(pre)):
            one(pre + ''.join(rest))
        return True
    if kind == 'one':
        one(data['s'])
        return '(' in data['s']
    s = data['s']
    want = data['r'] if kind == 'exact' else ref_call(s)
    got = run('find_np_pd_methods({!r})'.format(s), find_np_pd_methods, s)
    got = None if got[0] is None and got[1] is None else list(got)
    require(got == want, 'find_np_pd_methods({!r}) gave {} expected {}'
            .format(s, got, want))
    return want is not None
