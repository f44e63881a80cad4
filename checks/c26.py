"""C26: incomplete items are refused"""
import os
from .common import *
from harness.model import M

TITLE = 'Items that lack what their format needs are refused, never written broken'
RULE = ('A generated zone loses its layers, a dimension its points, a user defined paper its width or height, a text box of a '
        'board or footprint its start, end or corners (as its angle needs them); the item is written on its own and inside of a '
        'generated board, footprint or schematic, at a drawn place: each has to raise, and a save leaves the file as it was. '
        'The complete item (all angles included) has to be written (control). A user defined paper without both sizes is '
        'refused when it is read. Non-trivial: the document has other items; distinct by document text and damage.')
ASSUMPTIONS = [TRUST, DOMAIN]
CARDINAL = (0, 90, 180, 270, 0.0, 90.0, 180.0, 270.0)
ODD = (45, 30.5, 89.9, 0.1, 90.5, 271, 1, -45, 359.9, 90.00001, 0.0001, 360, -90, 450, -180, -270, -360, 720, 360.0, -90.0, 1e-9,
       269.999999, 2, 3, 4, 100, 900, 1800)


def xy(g):
    return specs.pos(g, 'xy')


def textbox(g, cls):
    """(complete text box, what is removed, the incomplete one)"""
    o = ops.make(specs.SPECS[cls](g))
    pt = lambda: ops.make(xy(g))
    if g.chance(0.5):
        o.angle = g.pick(CARDINAL + (None, None))
        o.start, o.end = pt(), pt()
        o.pts = [] if g.chance(0.7) else [pt() for _ in range(4)]
        what = g.pick(('start', 'end', 'start and end'))

        def damage():
            for w in what.split(' and '):
                setattr(o, w, None)
    else:
        o.angle = g.pick(ODD)
        o.pts = [pt() for _ in range(4)]
        if g.chance(0.5):
            o.start, o.end = (None, None) if g.chance(0.5) else (pt(), pt())
        n = g.pick((0, 3, 1, 2, 5, 8))
        what = f'corners, {n} instead of 4,'

        def damage():
            o.pts = (o.pts * 2)[:n]
    return o, f'a text box at {o.angle} without {what}', damage


def incomplete(g, cls):
    if cls in ('gr.GrTextBox', 'fp.FpTextBox'):
        return textbox(g, cls)
    o = ops.make(specs.SPECS[cls](g))
    if cls == 'zones.Zone':
        return o, 'a zone without layers', lambda: setattr(o, 'layers', [])
    if cls == 'dim.Dimension':
        return o, 'a dimension without points', lambda: setattr(o, 'pts', [])
    o.paperSize, o.width, o.height = 'User', g.pick((0, 100, 12.5)), g.pick((0, 200, 0.5))
    what = g.pick(('width', 'height', 'size'))

    def damage():
        for k in (what,) if what != 'size' else ('width', 'height'):
            setattr(o, k, None)
    return o, f'a user defined paper without {what}', damage


PLACES = (('board.Board', 'zones.Zone', 'zones'), ('board.Board', 'dim.Dimension', 'dimensions'),
          ('board.Board', 'gr.GrTextBox', 'graphicItems'), ('board.Board', 'common.PageSettings', 'paper'),
          ('board.Board', 'zones.Zone', 'footprints zones'), ('board.Board', 'fp.FpTextBox', 'footprints graphicItems'),
          ('footprint.Footprint', 'zones.Zone', 'zones'), ('footprint.Footprint', 'fp.FpTextBox', 'graphicItems'),
          ('schematic.Schematic', 'common.PageSettings', 'paper'),
          ('footprint.Footprint', 'gr.GrTextBox', 'pads customPadPrimitives'),
          ('board.Board', 'gr.GrTextBox', 'footprints pads customPadPrimitives'))
INSIDE = {'footprints': 'footprint.Footprint', 'pads': 'footprint.Pad'}


def refused(f, what):
    try:
        r = f()
    except Exception:
        return
    raise Violation(f'{what} is written', text=repr(r)[:3000])


def items(g, ctx):
    start(g)
    doc, cls, where = g.pick(PLACES)
    alone = g.chance(0.5)
    item, what, damage = incomplete(g, cls)
    text = ops.to_sexpr(item)
    if alone:
        damage()
        refused(item.to_sexpr, what)
        refused(lambda: item.to_sexpr(indent=g.below(9), newline=g.chance(0.5)), what)
        return (what, text), True, f'{what}: {text[:300]}'
    m = specs.SPECS[doc](g)
    o = ops.make(m)
    host = o
    *path, attr = where.split()
    for step in path:
        new = ops.make(specs.SPECS[INSIDE[step]](g))
        lst = getattr(host, step)
        lst.insert(g.below(len(lst) + 1), new)
        host = new
    if attr == 'paper':
        o.paper = item
    else:
        lst = getattr(host, attr)
        lst.insert(g.below(len(lst) + 1), item)
    d = ctx.scratch()
    p = f'{d}/x'
    ops.save(o, p)
    text = ops.get(p)
    damage()
    if g.chance(0.3):
        os.unlink(p)
        before = []
    else:
        before = ['x']
    refused(o.to_sexpr, f'a {doc} with {what}')
    refused(lambda: o.to_file(p, encoding='utf-8'), f'a {doc} with {what}')
    if sorted(os.listdir(d)) != before or before and ops.get(p) != text:
        raise Violation(f'refusing to save a {doc} with {what} changed files', listing=str(os.listdir(d)))
    return (what, text), len(text) > 400, f'{doc} with {what}'


def papers(g, ctx):
    """Reading a user defined paper"""
    start(g)
    n = g.below(3)
    t = [sx.W('paper'), sx.Q('User')] + [sx.N(g.pick((0, 100, 12.5, 7))) for _ in range(n)]
    tail = [sx.W('portrait')] if g.chance(0.4) and n != 1 else []
    text = sx.render(t + tail, g)
    cls = model.CLASSES['common.PageSettings']
    if n == 2:
        o = ops.from_sexpr(cls, ops.parse(text))
        if (o.paperSize, o.width, o.height, o.portrait) != ('User', t[2][1], t[3][1], bool(tail)):
            raise Violation('a user defined paper is read differently', text=text, result=repr(o))
        return text, True, text
    try:
        o = cls.from_sexpr(ops.parse(text))
    except Exception:
        return text, False, text
    raise Violation('a user defined paper without both sizes is accepted', text=text, result=repr(o))


STREAMS = [Stream('items', items, 30000, 600000), Stream('papers', papers, 500, 2000)]
