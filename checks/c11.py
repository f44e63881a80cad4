"""C11: loading and saving neither loses nor adds anything"""
from .common import *

TITLE = 'Loading and saving a file loses nothing and invents nothing'
RULE = ('Items and whole documents of all formats are rendered as text in a drawn layout, read and written without touching '
        'the object; the token tree written (in the documented order) has to equal the token tree of the input. Stream chain '
        'does so repeatedly over one file. Non-trivial: at least 4 tokens (items) or 12 (files); distinct by text. '
        + FLAG_DENSITY)
ASSUMPTIONS = [TRUST, DOMAIN, 'Only tokens the library documents as supported are generated']
NAMES = [n for n in specs.SPECS if n not in specs.NO_WRITE]


def items(g, ctx):
    start(g)
    name, m = draw(g, NAMES)
    text = sx.render(m.tree('r', g), g)
    obj = ops.read_text(m, text)
    got, out = ops.written(obj)
    exp = m.tree('w')
    ops.check_tree(got, exp, 'what is written differs from what was read', text + '\n=>\n' + out)
    return std(m, exp, text)


def files(g, ctx):
    start(g)
    return document_from_file(g, ctx, specs.document_of(g, specs.DOCUMENTS))


def chain(g, ctx):
    """Load and save the same file in place several times"""
    start(g)
    doc = specs.document_of(g, specs.DOCUMENTS)
    m = specs.SPECS[doc](g)
    p = f'{ctx.scratch()}/a{ops.SUFFIX[doc]}'
    src = ops.file_text(m, m.tree('r', g), g)
    ops.put(p, src)
    exp = m.tree('w')
    for i in range(2 + g.below(3)):
        obj = ops.load(ops.cls_of(m), p)
        ops.save(obj)
        t = ops.get(p)
        ops.check_tree(ops.file_tree(m, t), exp, f'after {i + 1} rounds of loading and saving', src + '\n=>\n' + t)
    return src, ops.size(exp) >= 12, ops.describe(m, src)


def big(g, ctx):
    return big_document(g, ctx, specs.document_of(g, specs.DOCUMENTS))


STREAMS = [Stream('big', big, 96, 2400), Stream('items', items, 80000, 2000000), Stream('files', files, 10000, 250000),
           Stream('chain', chain, 5000, 120000)]


def probe_zeros(ctx):
    """True while the finding is there"""
    import kiutils.items.common as c
    try:
        return '0012' not in c.Image.from_sexpr(ops.parser()('(image (at 0 0) (data\n0012\n))')).to_sexpr()
    except Exception:
        return True


PROBES = {'zeros': probe_zeros}
