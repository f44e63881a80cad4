"""C20: token order and unknown tokens"""
from .common import *

TITLE = 'Token order and unknown tokens do not change what is read'
RULE = ('The same model is rendered twice: in the documented order, and with its keyed tokens permuted (repeated items keep '
        'their relative order) and/or with lists under unknown keywords and unknown words inserted at every '
        'level. Both texts have to read as '
        'the same objects, equal to the model and to each other, and are written as the same text. Non-trivial: the second '
        'text differs from the first in its token sequence; distinct by text.')
ASSUMPTIONS = [TRUST, DOMAIN, 'Fixed arity lists (points, colours, sizes) are not permuted and get no unknown tokens']
NAMES = list(specs.SPECS)


def items(g, ctx):
    start(g)
    name, m = draw(g, NAMES)
    plain = m.tree('r', None)
    g.flags.add(g.pick(('shuffle', 'unknown', 'both')))
    if 'both' in g.flags:
        g.flags.update(('shuffle', 'unknown'))
    t = m.tree('r', g)
    text1, text2 = sx.render(plain), sx.render(t)
    a, b = ops.read_text(m, text1), ops.read_text(m, text2)
    ops.check_object(b, m, 'with tokens in another order or unknown tokens', False, text2)
    ops.check_equal(a, b, 'the same tokens in another order', text1 + '\n/\n' + text2)
    if name not in specs.NO_WRITE:
        sa, sb = ops.to_sexpr(a), ops.to_sexpr(b)
        if sa != sb:
            raise Violation('the same tokens in another order are written differently', first=text1, second=text2,
                            where=first_difference(sa, sb))
    return text2, text1 != text2, ops.describe(m, text2)


def files(g, ctx):
    start(g)
    doc = specs.document_of(g, specs.DOCUMENTS)
    m = specs.SPECS[doc](g)
    g.flags.update(('shuffle', 'unknown') if g.chance(0.5) else ('shuffle',))
    d = ctx.scratch()
    p1, p2 = f'{d}/a{ops.SUFFIX[doc]}', f'{d}/b{ops.SUFFIX[doc]}'
    src = ops.file_text(m, m.tree('r', g), g)
    ops.put(p1, src)
    obj = ops.load(ops.cls_of(m), p1)
    ops.check_loaded(obj, m, p1, 'after loading a file in another order', False, src)
    ops.save(obj, p2)
    out = ops.get(p2)
    exp = m.tree('w')
    ops.check_tree(ops.file_tree(m, out), exp, 'the saved file is not in the documented order', src + '\n=>\n' + out)
    return src, ops.size(exp) >= 12, ops.describe(m, src)


STREAMS = [Stream('items', items, 80000, 2000000), Stream('files', files, 12000, 300000)]
