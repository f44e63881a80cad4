"""C15: wrong expressions are rejected"""
import os
from .common import *

TITLE = 'An expression of another kind is rejected, not read as something else'
RULE = ('Every class that can be read is given values that are not lists, valid expressions of other classes, its own valid '
        'expression under another keyword (drawn from all keywords of the formats, near misses and case changes included), or '
        'a fixed-size list (points, colours, sizes, layers) with items missing or added (stream items); document classes are '
        'given files of other formats, missing files and directories (stream files). Each has to raise; the valid expression '
        'itself has to be read (control). Non-trivial: a well formed expression with at least 2 tokens; distinct by class and '
        'expression.')
ASSUMPTIONS = [TRUST]



def heads_of(m):
    special = {'libraries.LibTable': {'fp_lib_table', 'sym_lib_table'}, 'footprint.Footprint': {'footprint', 'module'},
               'sch.Connection': {'wire', 'bus'}}
    return special.get(m.cls, {m.head})


ANY_HEAD = {'common.Position', 'wks.WksPosition', 'brd.LayerToken', 'dru.DesignRules'}
KEYWORDS = sorted({'kicad_pcb', 'kicad_sch', 'kicad_symbol_lib', 'kicad_wks', 'footprint', 'module', 'symbol', 'wire', 'bus',
                   'fp_line', 'gr_line', 'fp_text', 'gr_text', 'text', 'text_box', 'fp_text_box', 'gr_text_box', 'arc',
                   'fp_arc', 'gr_arc', 'fp_circle', 'gr_circle', 'circle', 'fp_poly', 'gr_poly', 'polyline', 'polygon',
                   'filled_polygon', 'fill_segments', 'rectangle', 'rect', 'line', 'fp_rect', 'gr_rect', 'fp_curve',
                   'gr_curve', 'curve', 'xy', 'xyz', 'at', 'color', 'stroke', 'font', 'effects', 'justify', 'fill', 'net',
                   'group', 'paper', 'page', 'title_block', 'property', 'image', 'bitmap', 'tbtext', 'setup', 'general',
                   'layer', 'layers', 'stackup', 'pcbplotparams', 'segment', 'via', 'target', 'dimension', 'format', 'style',
                   'zone', 'keepout', 'hatch', 'model', 'pad', 'drill', 'options', 'attr', 'primitives', 'junction',
                   'no_connect', 'bus_entry', 'bus_alias', 'label', 'global_label', 'hierarchical_label', 'sheet', 'pin',
                   'path', 'project', 'netclass_flag', 'render_cache', 'lib', 'fp_lib_table', 'sym_lib_table', 'rule',
                   'constraint', 'version', 'alternate', 'textsize', 'size', 'unknown', '', 'kicad', 'Symbol', 'x'})


def must_reject(f, what, text):
    try:
        r = f()
    except Exception:
        return
    raise Violation(f'{what} is accepted', text=text, result=repr(r)[:800])


NAMES = list(specs.SPECS)


def near(g, w):
    """A keyword that is nearly the given one"""
    p = w.split('_')
    c = g.below(12)
    if c < 6:
        return (w.upper(), w + 's', w[:-1], '_' + w, w.capitalize(), w + ' ')[c]
    k = g.below(len(w))
    if c == 6:
        return '_'.join(p[:1 + g.below(len(p))])
    if c == 7:
        return '_'.join(p[g.below(len(p)):])
    if c == 8:
        return g.pick((w.replace('_', '-'), w.replace('_', ''), w.replace('_', ' '), '"' + w + '"', '(' + w, ' ' + w, w + '\n'))
    if c == 9:
        return w[:k] + w[k + 1:]
    if c == 10:
        return w[:k] + g.pick('aexs_1') + w[k:]
    return g.pick(('kicad_', 'fp_', 'gr_', 'sy_', 'sch_')) + w if g.chance(0.5) else w + g.pick(('_v2', '2', '_new', '.', ':'))


def items(g, ctx):
    start(g)
    name, m = draw(g, NAMES)
    cls = ops.cls_of(m)
    t = m.tree('r', g)
    exp = sx.to_parsed(t)
    ops.from_sexpr(cls, sx.to_parsed(t))
    c = g.below(4)
    if c == 0:
        bad = g.pick((None, 'text', m.head or '', 5, 1.5, True, {}, {'a': 1}, (), tuple(exp), b'x', object, '(' + str(m.head)))
        if g.chance(0.3):
            bad = sx.render(t)
        must_reject(lambda: cls.from_sexpr(bad), f'a {m.cls} given {bad!r:.80}', repr(bad))
        return (m.cls, repr(bad)[:200]), False, ''
    if m.cls in ANY_HEAD and c != 3:
        c = 3
    if c == 1:
        w = g.pick(KEYWORDS)
        if g.chance(0.3) and m.head:
            w = near(g, m.head)
        if w in heads_of(m):
            raise Discard()
        exp[0] = w
        text = repr(exp)
        must_reject(lambda: cls.from_sexpr(exp), f'a {m.cls} under the keyword {w!r}', text)
    elif c == 2:
        name2, m2 = draw(g, NAMES)
        t2 = m2.tree('r', g)
        exp = sx.to_parsed(t2)
        if not exp or (isinstance(exp[0], str) and exp[0] in heads_of(m)):
            raise Discard()
        text = repr(exp)
        must_reject(lambda: cls.from_sexpr(exp), f'a {m2.cls} expression given as {m.cls}', text)
    else:
        if m.cls == 'dru.DesignRules':
            exp[0] = g.pick((['rule', 'a'], 'version', ['versions', 1], 5))
        elif m.cls in ('common.Position', 'wks.WksPosition'):
            exp = exp[:1 + g.below(2)]
        elif m.cls == 'brd.LayerToken':
            exp = g.pick((exp[:1], exp[:2], exp[:3] + ['a', 'b', 'c']))
        elif m.cls in ('common.Coordinate', 'common.ColorRGBA', 'wks.WksFontSize', 'wks.TextSize', 'sch.BusAlias'):
            exp = exp[:-1] if g.chance(0.5) else exp + [1]
        else:
            raise Discard()
        text = repr(exp)
        must_reject(lambda: cls.from_sexpr(exp), f'a {m.cls} with the wrong parts', text)
    return (m.cls, text), len(exp) >= 2, f'{m.cls} given {text[:300]}'


def files(g, ctx):
    start(g)
    d = ctx.scratch()
    docs = list(specs.DOCUMENTS)
    doc = g.pick(docs)
    cls = model.CLASSES[doc]
    c = g.below(4)
    if c == 0:
        p = g.pick((f'{d}/missing{ops.SUFFIX[doc]}', d, f'{d}/no/such/dir/x'))
        must_reject(lambda: cls.from_file(p), f'loading a {doc} from something that is no file', p)
        if os.listdir(d):
            raise Violation('loading a missing file left something behind', listing=str(os.listdir(d)))
        return (doc, p[len(d):]), False, ''
    other = g.pick([x for x in docs if x != doc])
    m = specs.SPECS[other](g)
    text = ops.file_text(m, m.tree('r', g), g)
    if c == 1:
        # an item of the format as a file of its own
        name, m = draw(g, [n for n in NAMES if n not in docs and n not in specs.NO_WRITE and n not in
                           ('brd.LayerToken',)])
        if doc == 'dru.DesignRules' and m.cls == 'common.Position':
            raise Discard()
        text = sx.render(m.tree('r', g), g)
    p = f'{d}/a{ops.SUFFIX[doc]}'
    ops.put(p, text)
    must_reject(lambda: cls.from_file(p, encoding='utf-8'), f'a {m.cls} file loaded as {doc}', text)
    if ops.get(p) != text or os.listdir(d) != [os.path.basename(p)]:
        raise Violation('rejecting a file changed it or its directory', text=text)
    return (doc, text), True, f'{doc} given {text[:300]}'


STREAMS = [Stream('items', items, 100000, 2000000), Stream('files', files, 12000, 250000)]
