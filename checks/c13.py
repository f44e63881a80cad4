"""C13: saving is idempotent"""
from .common import *

TITLE = 'Saving is idempotent: a saved file reloads and saves byte for byte'
RULE = ('Documents are loaded from files in a drawn layout (stream files) or built in memory (stream built), saved, loaded and '
        'saved again: once a file was written from what was read, writing it again gives the same bytes. For built objects the '
        'first save may spell a number differently (1.0 / 1), its layout may not differ. Stream items does the same for every '
        'class. Non-trivial: at least 4 tokens (items) or 12 (documents); distinct by text.')
ASSUMPTIONS = [DOMAIN]
NAMES = [n for n in specs.SPECS if n not in specs.NO_WRITE and n != 'dru.DesignRules']


def same(a, b, what):
    if a != b:
        raise Violation(f'{what}: the second text differs', first=a, second=b, where=first_difference(a, b))


def same_layout(a, b, what):
    if sx.gaps(a) != sx.gaps(b):
        raise Violation(f'{what}: the layout differs', first=a, second=b, where=first_difference(a, b))


def items(g, ctx):
    start(g, *(('soup',) if g.chance(0.3) else ()))
    name, m = draw(g, NAMES)
    cls = ops.cls_of(m)
    if g.chance(0.5):
        t1 = ops.to_sexpr(ops.make(m))
        t2 = ops.to_sexpr(ops.from_sexpr(cls, ops.parse(t1)))
        same_layout(t1, t2, 'writing, reading and writing')
    else:
        t2 = ops.to_sexpr(ops.read_text(m, sx.render(m.tree('r', g), g)))
    t3 = ops.to_sexpr(ops.from_sexpr(cls, ops.parse(t2)))
    same(t2, t3, 'writing, reading and writing')
    return t2, len(sx.scan(t2)) >= 6, ops.describe(m, t2)


def _doc(g, ctx, built):
    start(g, *(('soup',) if g.chance(0.3) else ()))
    doc = specs.document_of(g, specs.DOCUMENTS)
    m = specs.SPECS[doc](g)
    cls = ops.cls_of(m)
    d = ctx.scratch()
    p = [f'{d}/{i}{ops.SUFFIX[doc]}' for i in range(4)]
    if built:
        ops.save(ops.make(m), p[0])
    else:
        ops.put(p[0], ops.file_text(m, m.tree('r', g), g))
    for i in range(3):
        ops.save(ops.load(cls, p[i]), p[i + 1])
    t = [ops.get(x) for x in p]
    if built:
        same_layout(t[0], t[1], 'saving, loading and saving')
    same(t[1], t[2], 'saving, loading and saving')
    same(t[2], t[3], 'saving, loading and saving')
    return t[1], len(sx.scan(t[1])) >= 20, ops.describe(m, t[1])


def files(g, ctx):
    return _doc(g, ctx, False)


def built(g, ctx):
    return _doc(g, ctx, True)


STREAMS = [Stream('items', items, 60000, 1500000), Stream('files', files, 6000, 150000),
           Stream('built', built, 6000, 150000)]
