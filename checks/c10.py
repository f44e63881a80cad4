"""C10: reading gives every attribute its documented meaning"""
from .common import *

TITLE = 'Reading gives each attribute the value its token spells, else its default'
RULE = ('For every class a model is drawn with each optional token present or absent, rendered in a drawn layout (whitespace, '
        'quoted or plain words, different spellings of a number) and read; every documented attribute, nested objects '
        'included, has to equal the value its token spells, or the documented default when the token is absent. Stream files '
        'does so for whole documents through files, legacy footprints (module) included. Non-trivial: at least 4 tokens; '
        'distinct by text. ' + FLAG_DENSITY)
ASSUMPTIONS = [TRUST, 'Documented defaults as recorded in harness/defaults.json', DOMAIN]
NAMES = list(specs.SPECS)


def items(g, ctx):
    start(g)
    name, m = draw(g, NAMES)
    t = m.tree('r', g)
    text = sx.render(t, g)
    obj = ops.read_text(m, text)
    ops.check_object(obj, m, 'after reading', False, text)
    return std(m, t, text)


def files(g, ctx):
    start(g)
    doc = specs.document_of(g, specs.DOCUMENTS)
    m = specs.SPECS[doc](g)
    d = ctx.scratch()
    p = f'{d}/a{ops.SUFFIX[doc]}'
    t = m.tree('r', g)
    if doc == 'footprint.Footprint' and g.chance(0.3):
        t[0] = sx.W('module')
    src = ops.file_text(m, t, g)
    ops.put(p, src)
    obj = ops.load(ops.cls_of(m), p)
    ops.check_loaded(obj, m, p, 'after loading', False, src)
    return src, ops.size(t) >= 12, ops.describe(m, src)


STREAMS = [Stream('items', items, 120000, 3000000), Stream('files', files, 15000, 300000)]
