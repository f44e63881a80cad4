"""C24: numbers survive exactly"""
from .common import *
from harness import values

TITLE = 'Numbers survive reading and writing with their exact value'
RULE = ('Models of every class and of whole documents with numbers over the whole range of magnitudes (1e-25 to 1e305, integers '
        'of up to 40 digits, 17 significant digits). Streams items and documents write and read them; stream literals reads '
        'differently spelled literals of the same value (trailing zeros, sign, exponent). Plot settings with a documented '
        'fixed precision of six decimals are compared after rounding; stream rounded sets the decimals of colours. Non-trivial: at least one number that is not a small '
        'integer; distinct by text.')
ASSUMPTIONS = [TRUST, 'Finite numbers only']
NAMES = [n for n in specs.SPECS if n not in specs.NO_WRITE and n not in specs.DOCUMENTS]


def interesting(tree):
    for x in tree:
        if isinstance(x, list):
            if interesting(x):
                return True
        elif x[0] == 'n' and (isinstance(x[1], float) or abs(x[1]) > 1000):
            return True
    return False


def items(g, ctx):
    start(g, 'numsoup')
    name, m = draw(g, NAMES)
    obj = ops.make(m)
    got, text = ops.written(obj)
    exp = m.tree('w')
    ops.check_tree(got, exp, 'what is written differs from the object', text)
    ops.check_object(ops.read_text(m, text), m, 'after writing and reading again', True, text)
    return text, interesting(exp), ops.describe(m, text)


def literals(g, ctx):
    start(g, 'numsoup')
    name, m = draw(g, list(specs.SPECS))
    t = m.tree('r', g)
    text = respell(t, g)
    obj = ops.read_text(m, text)
    ops.check_object(obj, m, 'after reading', False, text)
    return text, interesting(t), ops.describe(m, text)


def respell(t, g):
    out = []
    for i, x in enumerate(t):
        if isinstance(x, list):
            out.append(respell(x, g))
        elif x[0] == 'n':
            out.append(spelling(x[1], g))
        else:
            out.append(sx.leaf_text(x))
    return '(' + ' '.join(out) + ')'


def spelling(v, g):
    """Some literal denoting exactly v"""
    c = g.below(6)
    cand = repr(v) if isinstance(v, float) else str(v)
    if c == 1 and 'e' not in cand:
        cand = cand + ('0' if '.' in cand else '.0') * (1 if '.' not in cand else 1 + g.below(5))
    elif c == 2:
        cand = f'{v:.17e}' if isinstance(v, float) else cand
    elif c == 3 and isinstance(v, float):
        cand = f'{v:.{g.below(20)}f}'
    elif c == 4 and '.' in cand and not cand.startswith('-'):
        cand = '+' + cand
    elif c == 5 and isinstance(v, int):
        cand = f'{v:e}' if abs(v) < 10 ** 6 else cand
    w = sx.number_value(cand)
    if w is None or w != v:
        return repr(v) if isinstance(v, float) else str(v)
    return cand


def documents(g, ctx):
    start(g, 'numsoup')
    return document_round_trip(g, ctx, specs.document_of(g, specs.DOCUMENTS))


def rounded(g, ctx):
    """The alpha of a colour that was given a number of decimals, or of a sheet (four decimals)"""
    from decimal import Decimal, ROUND_HALF_EVEN, localcontext
    K = model.CLASSES
    a = values.any_num(g) if g.chance(0.3) else values.num(g) if g.chance(0.5) else g.below(2000001) / 10 ** (1 + g.below(9))
    if abs(a) > 1e40:
        a = 0.5
    p = g.below(9)
    rgb = [values.num(g) for _ in range(3)]
    where = g.below(6)
    if where == 5:
        p = 4
        exp = f'(sheet (at 1 1) (size 1 1) (stroke (width 0)) (fill (color 1 2 3 {a!r})) (property "Sheet name" "a" (at 0 0)) ' \
              '(property "Sheet file" "a" (at 0 0)))'
        if sx.number_value(repr(a)) != a:
            a = 0.25
            exp = exp.replace(exp[exp.index('3 ') + 2:exp.index('))')], '0.25', 1)
        o = ops.from_sexpr(K['sch.HierarchicalSheet'], ops.parse(exp))
        if o.fill.A != a:
            raise Violation(f'the alpha of the colour was read as {o.fill.A!r}', text=exp)
        rgb = [1, 2, 3]
    else:
        c = K['common.ColorRGBA'](*rgb, a, p)
        o = (c, K['common.Stroke'](color=c), K['common.Font'](color=c), K['common.Fill'](color=c),
             K['sch.HierarchicalSheet'](fill=c))[where]
    text = ops.to_sexpr(o)
    found = color_of(sx.tokenize_one(text))
    with localcontext() as ctx2:
        ctx2.prec = 500
        want = Decimal(float(a)).quantize(Decimal(1).scaleb(-p), rounding=ROUND_HALF_EVEN)
    if found is None or [x[1] for x in found[1:4]] != rgb or len(found) != 5 or Decimal(want) != want \
            or found[4] != ('n', sx.number_value(f'{want:f}')):
        raise Violation(f'colour {rgb} with alpha {a!r} and {p} decimals: expected {want}', text=text)
    lit = text[text.index('(color '):].split(')')[0].split()[4]
    if len(lit.partition('.')[2]) != p:
        raise Violation(f'alpha {a!r} is written with {len(lit.partition(".")[2])} decimals instead of {p}', text=text)
    return (where, text), p > 0, text


def color_of(tree):
    if tree and tree[0] == ('s', 'color'):
        return tree
    for x in tree:
        if isinstance(x, list):
            r = color_of(x)
            if r:
                return r
    return None


STREAMS = [Stream('items', items, 60000, 1500000), Stream('literals', literals, 40000, 1000000),
           Stream('documents', documents, 8000, 200000), Stream('rounded', rounded, 15000, 400000)]
