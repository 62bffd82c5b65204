#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_template.md, the contract modules, the
baseline and seeded/ (run after rebase.py)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ARGUMENT = {
 'C01': 'eval is a contract: its result is a function of the text and of the '
        'namespace it is given. The obligations say that the namespace binds '
        'every variable of the text to the supplied (normalised) value, else '
        'to the default, that nothing is executed when a name or a value is '
        'missing or bad, and that equation, defaults and inputs are framed.',
 'C02': 'Class invariant of Equation: the text has no forbidden fragment. '
        'Established by the constructor, kept by every function that stores '
        'into `_eqn`; a scan of all sources shows that no other function '
        'stores into it and that eval/exec/compile is used once, on that text.',
 'C03': 'The combined text is the two operand texts with an operator between, '
        'each operand in parentheses unless it is atomic; python\'s grammar '
        'is the assumed lemma that such a text means the operation.',
 'C04': 'Ghost function `mean(text)`: the value of a text by the standard '
        'rules, known only through laws (contracts/arith.py): how a text '
        'without parentheses splits at the operator of highest level, and '
        'that a part in parentheses may be replaced by a new name with its '
        'value. Loop invariant of the part-by-part replacement: the text '
        'means the same and every temporary name holds the value it stands '
        'for; postcondition: the value of the result is mean(key). An '
        'obligation that is not discharged here is never counted as refuted '
        '(the laws are incomplete); the stand-in then decides.',
 'C05': 'As C04 for `_parse_equation`.',
 'C06': 'See the obligations.',
 'C07': 'See the obligations.',
 'C08': 'Ghost meaning `mean(text, env)`; loop invariant over the rounds: every '
        'text still means what the original meant, and its variables are '
        'reachable from the original ones. At the exit no sibling name is '
        'left. A cycle is refused because a text of the cycle always keeps a '
        'name of the cycle (relational invariant).',
 'C09': 'set_default_variables is verified for equations, groups and '
        'directories against "update with copies, nearest wins", `__init__` '
        'hands its own variables on, and a lemma composes the levels by '
        'induction over the depth.',
 'C10': 'Contents of the result, frame of both operands, and that nothing '
        'kept by the result is an object of an operand (deepcopy contract).',
 'C11': 'ideal_value(e) is the value the statement gives an entry; invariant '
        'of both loops: every output so far is the ideal value of its entry. '
        'One evaluation is then right because all its variables are bound to '
        'ideal values; the exit condition gives completeness; outputs are '
        'reset first, so no history enters. The constructor harness '
        'establishes what evaluation assumes of the constants.',
 'C12': 'The lists are bags {x | guard}: soundness and completeness are '
        'proved separately, then solvable and the refusal.',
 'C13': '`_check_circ_ref` is verified with its own contract at recursive '
        'calls (error iff the text leads back to the name); the constructor '
        'calls it for every entry before parsing.',
 'C14': 'The setter against the exact update, including what an error means '
        'and that the caller\'s mapping is framed.',
 'C15': 'Directory listing is an uninterpreted set of names; the entries after '
        'the loop are exactly the statement\'s, each made by the constructor '
        'contract from its own path with the options given.',
 'C16': 'See the obligations.',
 'C17': '`_load_config` with its own contract at the recursive call '
        '(resolved entries of the file the pointer names, relative to the '
        'containing file).',
 'C18': 'parse_variables is a pipeline of regular-expression substitutions; '
        'its specification (a tokeniser of Python expressions) cannot be '
        'stated in the string theories of z3/cvc5, which have no replace by '
        'lookaround expressions. Bounded only.',
 'C19': 'Every lookup against outputs-then-entries; reset frames all other '
        'outputs.',
}


def consts(path):
    out = {}
    with open(path) as f:
        t = ast.parse(f.read())
    out['doc'] = ast.get_docstring(t) or ''
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def main():
    with open(os.path.join(HERE, 'tools', 'design_template.md')) as f:
        text = f.read()
    with open(os.path.join(HERE, 'contracts', 'baseline.json')) as f:
        base = json.load(f)
    props = [json.loads(x) for x in open(os.path.join(
        HERE, 'properties.jsonl')) if x.strip()]
    out = []
    for p in props:
        i = p['id']
        out.append('### {} {}\n'.format(i, p['title']))
        c = os.path.join(HERE, 'contracts', i.lower() + '.py')
        b = consts(os.path.join(HERE, 'bounded', i.lower() + '.py'))
        out.append(ARGUMENT[i] + '\n')
        if os.path.exists(c):
            k = consts(c)
            obs = base.get(i, {}).get('discharged', [])
            hs = {}
            for o in obs:
                h, _, n = o.partition(': ')
                hs.setdefault(h, []).append(n)
            out.append('* under contract: ' + ', '.join(
                '`{}`'.format(x) for x in k.get('FUNCTIONS', [])))
            out.append('* proved ({} obligations): '.format(len(obs))
                       + '; '.join('*{}*: {}'.format(h, ', '.join(
                           sorted(set(n)))) for h, n in hs.items()))
            for what, n in (('assumed at calls', 'ASSUMED'),
                            ('assumptions', 'ASSUMPTIONS'),
                            ('bounded only', 'BOUNDED_FOR')):
                if k.get(n):
                    out.append('* {}: {}'.format(what, '; '.join(k[n])))
        else:
            out.append('* level: bounded (exploration), no obligation is '
                       'claimed as proved')
        out.append('* bounded stand-in: {} Bound: {}.\n'.format(
            ' '.join(b['doc'].split()), b.get('BOUND', '')))
    seeds = ['| change | property | what it breaks | caught by |',
             '|---|---|---|---|']
    n = 0
    sd = os.path.join(HERE, 'seeded')
    for s in sorted(os.listdir(sd)):
        with open(os.path.join(sd, s, 'meta.json')) as f:
            m = json.load(f)
        n += 1
        by = CAUGHT.get(s, 'bounded')
        seeds.append('| {} | {} | {} | {} |'.format(
            s, m['property'], m['what_it_breaks'], by))
    text = text.replace('@PROPS@', '\n'.join(out)).replace(
        '@SEEDS@', '\n'.join(seeds)).replace('@NSEEDS@', str(n))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write(text)


P = 'prover and bounded'
with open(os.path.join(HERE, 'tools', 'caught.json')) as _f:
    CAUGHT = json.load(_f)

if __name__ == '__main__':
    main()
