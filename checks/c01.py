"""C01: the parser yields exactly what the text spells"""
from .common import *
from harness import dictionary, sxgen

TITLE = 'Parsing yields exactly the nested list the text spells'
RULE = ('Random nested lists (depth up to 8, empty lists included) of words, near-numbers, number literals and quoted texts '
        'are spelled with drawn whitespace (none where none is needed) and parsed; the result is compared with the list the '
        'text was spelled from, type by type. Stream documents does the same for whole generated KiCad documents, and '
        'compares the parser with an independent character scanner on generated text. Non-trivial: at least 5 tokens, '
        'nested at least 2 deep; distinct by text.')
ASSUMPTIONS = ['A number or quoted text is separated from a following opening bracket by whitespace, as in every KiCad file',
               'Words contain no quotes, Unicode digits or Unicode blanks', DOMAIN]


def same(got, exp, path='top'):
    if isinstance(exp, list):
        if type(got) is not list:
            return f'{path}: expected a list, got {got!r:.200}'
        for i, (a, b) in enumerate(zip(got, exp)):
            r = same(a, b, f'{path}[{i}]')
            if r:
                return r
        if len(got) != len(exp):
            return f'{path}: expected {len(exp)} items, got {len(got)}: {got!r:.300}'
        return ''
    kind, v = exp
    if kind == 'n':
        ok = type(got) in (int, float) and got == v and (type(got) is int or not got.is_integer())
    else:
        ok = type(got) is str and got == v
    return '' if ok else f'{path}: expected {v!r:.200} ({"number" if kind == "n" else "text"}), got {got!r:.200}'


def check(text, exp):
    got = ops.parse(text)
    r = same(got, exp)
    if r:
        raise Violation('the parser does not yield what the text spells: ' + r, text=text)


def expressions(g, ctx):
    g.flags.add('memory')
    t = sxgen.tree(g)
    text = sxgen.spell(sxgen.tokens(t), g)
    check(text, t)
    return text, ops.size(t) >= 5 and ops.depth(t) >= 2, text[:500]


def atoms(g, ctx):
    """One atom in different surroundings"""
    g.flags.add('memory')
    x = sxgen.leaf(g)
    pre, post = g.pick((('', ''), ('a ', ''), ('', ' b'), ('(', ')'), ('"q" ', ' "r"'), ('', '\n'), ('1 ', '\t2'),
                        ('(x 1)', ' (y 2)'), ('"(" ', ' ")"')))
    if x[0] == 'q' and post != ' ")"' and g.chance(0.2):
        s = x[1] + '\\' * (1 + g.count(0, 3, 0.3))
        x = sxgen.Lit('q', s, sx.quote(s))
    exp = {'': [], 'a ': [('s', 'a')], '(': None, '"q" ': [('q', 'q')], '1 ': [('n', 1)],
           '(x 1)': [[('s', 'x'), ('n', 1)]], '"(" ': [('q', '(')]}[pre]
    if exp is None:
        t = [[x]]
    else:
        tail = {'': [], ' b': [('s', 'b')], ' "r"': [('q', 'r')], '\n': [], '\t2': [('n', 2)],
                ' (y 2)': [[('s', 'y'), ('n', 2)]], ' ")"': [('q', ')')]}[post]
        t = exp + [x] + tail
    text = f'({pre}{x.lit}{post})'
    check(text, t)
    return text, True, text[:300]


def deep(g, ctx):
    """Long and deep expressions"""
    n = (1 + g.below(60)) if g.chance(0.5) else 1 + g.below(400)
    if dictionary.NEW_SIZES and g.chance(0.4):
        n = dictionary.size(g, True)
    x = sxgen.leaf(g)
    if g.chance(0.5):
        t = [x]
        for _ in range(n):
            t = [('s', 'l'), t]
        text = '(l ' * n + f'({x.lit})' + ')' * n
        got = ops.parse(text)
        for _ in range(n):
            if not (type(got) is list and len(got) == 2 and got[0] == 'l'):
                raise Violation(f'nesting of depth {n} is not reproduced', text=text)
            got = got[1]
        r = same(got, [x])
        if r:
            raise Violation(f'nesting of depth {n}: {r}', text=text)
        return ('d', n, x.lit), n > 5, text[:200]
    text = '(' + f'{x.lit} (i {x.lit})\n' * n + ')'
    check(text, [x, [('s', 'i'), x]] * n)
    return ('w', n, x.lit), n > 5, text[:200]


def documents(g, ctx):
    start(g)
    name, m = draw(g, specs.DOCUMENTS)
    t = m.tree('r', g)
    text = sx.render(t, g)
    try:
        ref = sx.tokenize(text)
    except sx.TokenError as e:
        raise RuntimeError(f'harness: {e}')
    check(text, ref[0])
    return text, True, text[:300]


STREAMS = [Stream('expressions', expressions, 60000, 1500000), Stream('atoms', atoms, 80000, 2000000),
           Stream('deep', deep, 4000, 60000), Stream('documents', documents, 6000, 150000)]



def probe_backslash(ctx):
    """True while the finding is there"""
    try:
        return ops.parser()('(a "C:\\" ") b")') != ['a', 'C:\\', ') b']
    except Exception:
        return True


PROBES = {'backslash': probe_backslash}
