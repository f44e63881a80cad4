"""Specs: one generator per class of the library, each yielding a model (see model.py).

Written from the KiCad file format documentation cited in the classes, the attribute documentation
and the sample files; it states for every attribute which token carries it.
"""
from . import dictionary
from .model import M, _SAME, copy_model, usual
from .sx import W, Q, N
from .values import num, int_, text, word, stamp, bool_, layer, opt, enum, code, version, sized

SPECS = {}


def spec(name):
    def deco(f):
        SPECS[name] = f
        return f
    return deco


def hot(f):
    """Is this the spec of a class that changed (or of several, one of which did)?"""
    return any(SPECS.get(n) in getattr(f, 'of', (f,)) for n in dictionary.HOT)


def steered(g, seq):
    """One of several specs or spec names, preferably one of a class that changed"""
    if dictionary.HOT:
        h = [x for x in seq if (x in dictionary.HOT if isinstance(x, str) else hot(x))]
        if h and g.chance(0.5):
            return g.pick(h)
    return g.pick(seq)


def either(*fs):
    """The spec of an item of one of several kinds"""
    def f(g):
        return steered(g, fs)(g)
    f.of = fs
    return f


# documents that hold items of a family
HOLDERS = {'board': ('board.Board', 'footprint.Footprint'), 'footprint': ('footprint.Footprint', 'board.Board'),
           'schematic': ('schematic.Schematic',), 'symbol': ('symbol.SymbolLib', 'schematic.Schematic'), 'wks': ('wks.WorkSheet',),
           'rules': ('dru.DesignRules', 'libraries.LibTable')}


def document_of(g, docs):
    """The kind of a document, preferably one that holds items of a class that changed"""
    if dictionary.HOT:
        h = [n for n in docs if n in dictionary.HOT]
        h += [d for n in dictionary.HOT if n in FAMILY for d in HOLDERS.get(FAMILY[n], ()) if d in docs]
        if h and g.chance(0.5):
            return g.pick(h)
    return g.pick(docs)


def many(g, f, hi=3, lo=0, p=0.45):
    if dictionary.HOT and hot(f) and g.chance(0.5):
        out = [f(g) for _ in range(g.count(max(lo, 1), max(hi, 4), 0.6))]
        return twins(g, out) if g.chance(0.3) else out
    if 'focus' in g.flags:
        # few lists, but with several items
        n = 1 + g.count(1, 5, 0.5) if g.chance(0.15) else 0
        out = [f(g) for _ in range(max(lo, n))]
        return twins(g, out) if out and g.chance(0.1) else out
    if 'long' in g.flags and g.chance(0.3 if 'item' in g.flags else 0.06):
        g.flags.discard('long')              # at most one long list per case
        c = g.below(3)
        n = lo + 4 + g.below(60) if c == 0 else max(lo, dictionary.size(g, c == 2))
        if g.chance(0.04):
            n = g.pick((100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1001, 1024))
        out = [f(g) for _ in range(min(n, 40))]
        return out + [copy_model(x) if isinstance(x, M) else x for x in (out[i % len(out)] for i in range(len(out), n))]
    out = [f(g) for _ in range(g.count(lo, hi, p))]
    if out and 'twins' in g.flags and g.chance(0.3):
        return twins(g, out)
    return out


def some(g, hi=3):
    """A number of entries of a dictionary"""
    if 'long' in g.flags and g.chance(0.3 if 'item' in g.flags else 0.06):
        g.flags.discard('long')
        return 4 + g.below(40)
    return g.count(0, hi)


def twins(g, out):
    """Repeat an item of the list"""
    x = g.pick(out)
    out.insert(g.below(len(out) + 1), copy_model(x) if isinstance(x, M) else x)
    return out


# ------------------------------------------------------------------ positions and the like

def pos(g, key, angle=False, unlocked=False):
    m = M('common.Position', key, strict=True, noshuffle=True)
    m.P('X', num(g), N)
    m.P('Y', num(g), N)
    if angle and g.opt():
        m.P('angle', num(g), N)
    if unlocked:
        m.B('unlocked', 'unlocked', g.opt(), kind='p')
    return m


def xy(g):
    return pos(g, 'xy')


def pts_node(points, key='pts'):
    return [W(key)] + list(points)


def add_pts(m, attr, points, key='pts'):
    m.a[attr] = list(points)
    m.add([W(key)] + list(points))
    return m


@spec('common.Position')
def position(g):
    return pos(g, 'at', angle=True, unlocked=True)


@spec('common.Coordinate')
def coordinate(g):
    m = M('common.Coordinate', 'xyz', strict=True, noshuffle=True)
    for k in 'XYZ':
        m.P(k, num(g), N)
    return m


COLORS = ((0, 0, 0, 0), (0, 0, 0, 1), (255, 255, 255, 1), (255, 255, 255, 0), (132, 0, 0, 1), (0, 0, 0, 0.5), (0, 0, 0, 1.0),
          (255, 0, 0, 0.25), (1, 1, 1, 1))


@spec('common.ColorRGBA')
def color(g):
    m = M('common.ColorRGBA', 'color', strict=True, noshuffle=True)
    c = g.pick(COLORS) if g.chance(0.25) else None
    for i, k in enumerate('RGBA'):
        m.P(k, c[i] if c else num(g), N)
    return m


STROKES = ('default', 'solid', 'dash', 'dash_dot', 'dash_dot_dot', 'dot')


@spec('common.Stroke')
def stroke(g):
    m = M('common.Stroke', 'stroke')
    m.K('width', 'width', num(g), N)
    m.K('type', 'type', enum(g, STROKES) if g.chance(0.8) else None, W)
    m.S('color', opt(g, color))
    return m


@spec('common.Font')
def font(g):
    m = M('common.Font', 'font')
    m.K('face', 'face', opt(g, text), Q)
    h, w = usual(m.cls, 'height', num(g), N), usual(m.cls, 'width', num(g), N)
    m.a['height'], m.a['width'] = h, w
    m.add([W('size'), N(h), N(w)])
    m.S('color', opt(g, color))
    m.K('thickness', 'thickness', opt(g, num), N)
    m.B('bold', 'bold', g.opt())
    m.B('italic', 'italic', g.opt())
    m.K('line_spacing', 'lineSpacing', opt(g, num), N)
    return m


def justify(g, nonempty=False):
    m = M('common.Justify', 'justify')
    h = g.pick(('left', 'right', 'center')) if g.opt() else None
    v = g.pick(('top', 'bottom')) if g.opt() else None
    mi = g.opt()
    if nonempty or g.chance(0.7):
        if h is None and v is None and not mi:
            h = 'left'
    m.a.update(horizontally=h, vertically=v, mirror=mi)
    for x in (h, v, 'mirror' if mi else None):
        if x is not None:
            m.add(W(x), kind='b')
    return m


@spec('common.Justify')
def some_justify(g):
    return justify(g, nonempty=True)


def empty_justify(m):
    return not m.el


@spec('common.Effects')
def effects(g):
    m = M('common.Effects', 'effects')
    m.S('font', font(g))
    j = justify(g) if g.opt() else M('common.Justify', 'justify')
    m.a['justify'] = j
    if empty_justify(j):
        # a plain justification is not written; a file may still spell it out
        m.add(None, j if g.chance(0.2) else None)
    else:
        m.add(j)
    m.K('href', 'href', opt(g, text), Q)
    m.B('hide', 'hide', g.opt())
    return m


@spec('common.Net')
def net(g):
    m = M('common.Net', 'net')
    m.P('number', int_(g), N)
    m.P('name', text(g), Q)
    return m


@spec('common.Group')
def group(g):
    m = M('common.Group', 'group')
    m.P('name', text(g), Q)
    m.B('locked', 'locked', g.opt())
    i = word(g) if g.chance(0.9) else ''
    m.a['id'] = i
    if i:
        m.add([W('id'), W(i)])
    mem = many(g, word, 4)
    m.a['members'] = mem
    m.add([W('members')] + [W(x) for x in mem])
    return m


@spec('common.PageSettings')
def paper(g):
    m = M('common.PageSettings', 'paper', noshuffle=True)
    size = g.pick(('A4', 'A3', 'A', 'User', 'A0', 'USLetter', 'x y', 'a"b', 'A5', 'B', 'USLegal')) if g.chance(0.9) else text(g)
    if size == 'portrait':
        size = 'user'
    m.P('paperSize', size, Q)
    if size == 'User':
        m.P('width', num(g), N)
        m.P('height', num(g), N)
    m.B('portrait', 'portrait', g.opt())
    return m


@spec('common.TitleBlock')
def title_block(g):
    m = M('common.TitleBlock', 'title_block')
    m.K('title', 'title', opt(g, text), Q)
    m.K('date', 'date', opt(g, text), Q)
    m.K('rev', 'revision', opt(g, text), Q)
    m.K('company', 'company', opt(g, text), Q)
    com = {}
    for n in g.shuffle((1, 2, 3, 9, 4, 5, 6, 7, 8) if g.chance(0.8) else (1, 10, 0, 11, 100, 21, -1, int_(g)))[:g.count(0, 9, 0.6)]:
        com[n] = text(g)
    m.a['comments'] = com
    for n, t in com.items():
        m.add([W('comment'), N(n), Q(t)], grp='c')
    return m


KEYS = ('Reference', 'Value', 'Footprint', 'Datasheet', 'Description', 'Sheetfile', 'Sheetname', 'Sheet name', 'Sheet file',
        'ki_keywords', 'ki_description', 'ki_fp_filters', 'ki_locked', 'Sim.Pins', 'MPN', 'reference', 'REFERENCE', 'Netclass',
        'Intersheet References', 'dnp')


def key(g):
    """The name of a property"""
    return g.pick(KEYS) if g.chance(0.35) else text(g)


@spec('common.Property')
def prop(g, name=None):
    m = M('common.Property', 'property')
    m.P('key', key(g) if name is None else name, Q)
    m.P('value', text(g), Q)
    m.K('id', 'id', opt(g, int_), N)
    m.S('position', pos(g, 'at', angle=True))
    m.F('show_name', 'showName', g.opt())
    m.S('effects', opt(g, effects))
    return m


@spec('common.RenderCachePolygon')
def rc_polygon(g):
    m = M('common.RenderCachePolygon', 'polygon')
    return add_pts(m, 'pts', many(g, xy, 6, lo=0, p=0.7))


@spec('common.RenderCache')
def render_cache(g):
    m = M('common.RenderCache', 'render_cache')
    m.P('text', text(g), Q)
    m.P('id', int_(g), N)
    m.L('polygons', many(g, rc_polygon))
    return m


@spec('common.Fill')
def fill(g):
    m = M('common.Fill', 'fill')
    m.K('type', 'type', enum(g, ('none', 'outline', 'background', 'color')), W)
    m.S('color', opt(g, color))
    return m


@spec('common.Image')
def image(g, with_layer=None):
    m = M('common.Image', 'image')
    m.S('position', pos(g, 'at'))
    if with_layer is None:
        with_layer = g.opt()
    m.K('layer', 'layer', layer(g) if with_layer else None, Q)
    m.K('scale', 'scale', opt(g, num), N)
    m.K('uuid', 'uuid', opt(g, stamp), W)
    d = many(g, b64, 3)
    m.a['data'] = d
    m.add([W('data')] + [W(x) for x in d])
    return m


B64CH = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
B64 = ('iVBORw0KGgoAAAANSUhEUgAA', 'AAAA', '==', '=', 'A=', '/', '+A', 'abc/def+ghi==', 'R0lGODlhAQABAIAAAAUEBA==', 'x1y2z3', '/9j/4AAQ')


def b64(g):
    if g.chance(0.15):
        return B64CH[g.below(64)] * (1 + g.below(76)) + 'Q=='[g.below(3):]
    return g.pick(B64)


# ------------------------------------------------------------------ schematic items

@spec('sch.Junction')
def junction(g):
    m = M('sch.Junction', 'junction')
    m.S('position', pos(g, 'at'))
    m.K('diameter', 'diameter', num(g), N)
    m.S('color', color(g))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    return m


@spec('sch.NoConnect')
def no_connect(g):
    m = M('sch.NoConnect', 'no_connect')
    m.S('position', pos(g, 'at'))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    return m


@spec('sch.BusEntry')
def bus_entry(g):
    m = M('sch.BusEntry', 'bus_entry')
    m.S('position', pos(g, 'at'))
    m.S('size', pos(g, 'size'))
    m.S('stroke', stroke(g))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    return m


@spec('sch.BusAlias')
def bus_alias(g):
    m = M('sch.BusAlias', 'bus_alias', strict=True, noshuffle=True)
    m.P('name', text(g), Q)
    mem = many(g, text, 4)
    m.a['members'] = mem
    m.add([W('members')] + [Q(x) for x in mem])
    return m


@spec('sch.Connection')
def connection(g):
    t = g.pick(('wire', 'bus'))
    m = M('sch.Connection', t)
    m.a['type'] = t
    add_pts(m, 'points', many(g, xy, 4, p=0.7))
    m.S('stroke', stroke(g))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    return m


@spec('sch.PolyLine')
def sch_polyline(g):
    m = M('sch.PolyLine', 'polyline')
    add_pts(m, 'points', many(g, xy, 4, p=0.7))
    m.S('stroke', stroke(g))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    return m


@spec('sch.Text')
def sch_text(g):
    m = M('sch.Text', 'text')
    m.P('text', text(g), Q)
    m.S('position', pos(g, 'at', angle=True))
    m.S('effects', effects(g))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    return m


@spec('sch.TextBox')
def sch_textbox(g):
    m = M('sch.TextBox', 'text_box')
    m.P('text', text(g), Q)
    m.S('position', pos(g, 'at', angle=True))
    m.S('size', pos(g, 'size'))
    m.S('stroke', stroke(g))
    m.S('fill', fill(g))
    m.S('effects', effects(g))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    return m


@spec('sch.LocalLabel')
def label(g):
    m = M('sch.LocalLabel', 'label')
    m.P('text', text(g), Q)
    m.S('position', pos(g, 'at', angle=True))
    m.F('fields_autoplaced', 'fieldsAutoplaced', g.opt())
    m.S('effects', effects(g))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    return m


SHAPES = ('input', 'output', 'bidirectional', 'tri_state', 'passive')


@spec('sch.GlobalLabel')
def global_label(g):
    m = M('sch.GlobalLabel', 'global_label')
    m.P('text', text(g), Q)
    m.K('shape', 'shape', enum(g, SHAPES), W)
    m.S('position', pos(g, 'at', angle=True))
    m.F('fields_autoplaced', 'fieldsAutoplaced', g.opt())
    m.S('effects', effects(g))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    m.L('properties', many(g, prop, 2))
    return m


@spec('sch.HierarchicalLabel')
def hier_label(g):
    m = M('sch.HierarchicalLabel', 'hierarchical_label')
    m.P('text', text(g), Q)
    m.K('shape', 'shape', enum(g, SHAPES), W)
    m.S('position', pos(g, 'at', angle=True))
    m.F('fields_autoplaced', 'fieldsAutoplaced', g.opt())
    m.S('effects', effects(g))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    return m


@spec('sch.SymbolProjectPath')
def sym_path(g):
    m = M('sch.SymbolProjectPath', 'path')
    m.P('sheetInstancePath', text(g), Q)
    m.K('reference', 'reference', text(g), Q)
    m.K('unit', 'unit', int_(g), N)
    return m


@spec('sch.SymbolProjectInstance')
def sym_instance(g):
    m = M('sch.SymbolProjectInstance', 'project')
    m.P('name', text(g), Q)
    m.L('paths', many(g, sym_path))
    return m


NICKS = ('Device', 'lib', 'my lib', 'a"b', 'x-y', 'Ω', '(l)', 'lib_1_2')
ENTRIES = ('R', 'LED', 'R_0402_1005', 'a b', 'x"y', 'LM324', 'C_Polarized', 'n_1', '74HC00', '1', 'Ω',
           'a/b', 'A:B', 'x_y_z', '(e)', 'R_US', '_', 'a_', '_1_1x', 'None')


def name_text(g):
    """A text for identifiers: not empty, one line"""
    s = text(g).replace('\n', '')
    return s if s and not (s.endswith('\\') and 'endings' not in g.flags) else 'x'


def nickname(g):
    if g.chance(0.3):
        s = name_text(g).replace(':', '').rstrip('\\')
        return (s.lstrip(' \t)') if 'endings' in g.flags else s) or 'lib'
    return g.pick(NICKS)


def entry(g):
    if g.chance(0.3):
        return name_text(g)
    return g.pick(ENTRIES)


def lib_parts(g, colon_ok=True):
    """(nickname or None, entry name) that denote each other uniquely"""
    nick = nickname(g) if g.chance(0.5) else None
    e = entry(g)
    if nick is None and ':' in e:
        e = e.replace(':', '').rstrip('\\') or 'x'
    return nick, e


def lib_text(nick, e):
    return f'{nick}:{e}' if nick else e


@spec('sch.SchematicSymbol')
def sch_symbol(g):
    m = M('sch.SchematicSymbol', 'symbol')
    m.K('lib_name', 'libName', opt(g, text), Q)
    nick, e = lib_parts(g)
    m.a.update(libraryNickname=nick, entryName=e)
    m.add([W('lib_id'), Q(lib_text(nick, e))])
    m.S('position', pos(g, 'at', angle=True))
    m.K('mirror', 'mirror', enum(g, ('x', 'y')) if g.opt() else None, W)
    m.K('unit', 'unit', opt(g, int_), N)
    m.YN('in_bom', 'inBom', bool_(g))
    m.YN('on_board', 'onBoard', bool_(g))
    m.YN('dnp', 'dnp', bool_(g) if g.opt() else None)
    m.F('fields_autoplaced', 'fieldsAutoplaced', g.opt())
    u = stamp(g) if g.chance(0.85) else ''
    m.a['uuid'] = u
    if u:
        m.add([W('uuid'), W(u)])
    m.L('properties', many(g, prop, 3))
    pins = {}
    for _ in range(some(g)):
        pins[text(g)] = stamp(g)
    m.a['pins'] = pins
    for k, v in pins.items():
        m.add([W('pin'), Q(k), [W('uuid'), W(v)]], grp='pins', open_=True)
    ins = many(g, sym_instance, 2)
    m.a['instances'] = ins
    if ins:
        m.add([W('instances')] + ins)
    return m


@spec('sch.HierarchicalPin')
def hier_pin(g):
    m = M('sch.HierarchicalPin', 'pin')
    m.P('name', text(g), Q)
    m.P('connectionType', enum(g, SHAPES), W)
    m.S('position', pos(g, 'at', angle=True))
    m.S('effects', effects(g))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    return m


@spec('sch.HierarchicalSheetProjectPath')
def sheet_path(g):
    m = M('sch.HierarchicalSheetProjectPath', 'path')
    m.P('sheetInstancePath', text(g), Q)
    m.K('page', 'page', text(g), Q)
    return m


@spec('sch.HierarchicalSheetProjectInstance')
def sheet_project(g):
    m = M('sch.HierarchicalSheetProjectInstance', 'project')
    m.P('name', text(g), Q)
    m.L('paths', many(g, sheet_path))
    return m


def plain_prop(g):
    m = prop(g)
    if m.a['key'] in ('Sheet name', 'Sheetname', 'Sheet file', 'Sheetfile'):
        m.a['key'] = 'k'
        m.el[0].w = m.el[0].r = Q('k')
    return m


@spec('sch.HierarchicalSheet')
def sheet(g):
    m = M('sch.HierarchicalSheet', 'sheet')
    m.S('position', pos(g, 'at'))
    w, h = num(g), num(g)
    m.a.update(width=w, height=h)
    m.add([W('size'), N(w), N(h)])
    m.F('fields_autoplaced', 'fieldsAutoplaced', g.opt())
    m.S('stroke', stroke(g))
    # sheets are written with four decimals of alpha
    f = M('common.ColorRGBA', 'color', strict=True, noshuffle=True)
    for k in 'RGB':
        f.P(k, int_(g), N)
    a = g.below(10001) / 10000
    f.P('A', a, N)
    f.a['precision'] = 4
    m.a['fill'] = f
    m.add([W('fill'), f])
    m.K('uuid', 'uuid', opt(g, stamp), W)
    m.S('sheetName', prop(g, g.pick(('Sheet name', 'Sheetname'))))
    m.S('fileName', prop(g, g.pick(('Sheet file', 'Sheetfile'))))
    m.L('properties', many(g, plain_prop, 2))
    m.L('pins', many(g, hier_pin, 2))
    ins = many(g, sheet_project, 2)
    m.a['instances'] = ins
    if ins:
        m.add([W('instances')] + ins)
    return m


@spec('sch.HierarchicalSheetInstance')
def sheet_instance(g):
    m = M('sch.HierarchicalSheetInstance', 'path')
    m.P('instancePath', text(g), Q)
    m.K('page', 'page', text(g), Q)
    return m


@spec('sch.SymbolInstance')
def symbol_instance(g):
    m = M('sch.SymbolInstance', 'path')
    m.P('path', text(g), Q)
    m.K('reference', 'reference', text(g), Q)
    m.K('unit', 'unit', int_(g), N)
    m.K('value', 'value', text(g), Q)
    m.K('footprint', 'footprint', text(g), Q)
    return m


def _shape(g, cls, head, geometry):
    m = M(cls, head)
    for kind, key, attr in geometry:
        if kind == 'p':
            m.S(attr, pos(g, key))
        else:
            m.K(key, attr, num(g), N)
    m.S('stroke', stroke(g))
    m.S('fill', fill(g))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    return m


@spec('sch.Rectangle')
def sch_rect(g):
    return _shape(g, 'sch.Rectangle', 'rectangle', [('p', 'start', 'start'), ('p', 'end', 'end')])


@spec('sch.Arc')
def sch_arc(g):
    return _shape(g, 'sch.Arc', 'arc', [('p', 'start', 'start'), ('p', 'mid', 'mid'), ('p', 'end', 'end')])


@spec('sch.Circle')
def sch_circle(g):
    return _shape(g, 'sch.Circle', 'circle', [('p', 'center', 'center'), ('n', 'radius', 'radius')])


@spec('sch.NetclassFlag')
def netclass_flag(g):
    m = M('sch.NetclassFlag', 'netclass_flag')
    m.P('text', text(g), Q)
    m.K('length', 'length', num(g), N)
    m.K('shape', 'shape', enum(g, ('round', 'rectangle', 'dot', 'diamond')), W)
    m.S('position', pos(g, 'at', angle=True))
    m.F('fields_autoplaced', 'fieldsAutoplaced', g.opt())
    m.S('effects', effects(g))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    m.L('properties', many(g, prop, 2))
    return m


@spec('schematic.Schematic')
def schematic(g):
    m = M('schematic.Schematic', 'kicad_sch')
    m.K('version', 'version', version(g, 20211123), N)
    m.K('generator', 'generator', enum(g, ('eeschema', 'kiutils', 'gen-1')), W)
    m.K('uuid', 'uuid', opt(g, stamp), W)
    m.S('paper', paper(g))
    m.S('titleBlock', opt(g, title_block))
    ls = many(g, symbol, 2, p=0.3)
    derive(g, ls)
    m.a['libSymbols'] = ls
    m.add([W('lib_symbols')] + ls)
    m.L('junctions', many(g, junction, 2, p=0.3))
    m.L('noConnects', many(g, no_connect, 2, p=0.3))
    m.L('busEntries', many(g, bus_entry, 2, p=0.3))
    m.L('busAliases', many(g, bus_alias, 2, p=0.3))
    m.L('graphicalItems', many(g, either(connection, sch_polyline), 3, p=0.4))
    m.L('shapes', many(g, either(sch_rect, sch_arc, sch_circle), 3, p=0.4))
    m.L('images', many(g, lambda g: image(g, False), 2, p=0.3))
    m.L('textBoxes', many(g, sch_textbox, 2, p=0.3))
    m.L('texts', many(g, sch_text, 2, p=0.3))
    m.L('labels', many(g, label, 2, p=0.3))
    m.L('globalLabels', many(g, global_label, 2, p=0.3))
    m.L('hierarchicalLabels', many(g, hier_label, 2, p=0.3))
    m.L('netclassFlags', many(g, netclass_flag, 2, p=0.3))
    m.L('schematicSymbols', many(g, sch_symbol, 2, p=0.3))
    m.L('sheets', many(g, sheet, 2, p=0.3))
    si = many(g, sheet_instance, 2, p=0.4)
    m.a['sheetInstances'] = si
    if si:
        m.add([W('sheet_instances')] + si)
    sy = many(g, symbol_instance, 2, p=0.4)
    m.a['symbolInstances'] = sy
    if sy:
        m.add([W('symbol_instances')] + sy)
    return m


# ------------------------------------------------------------------ symbols

@spec('sy.SyArc')
def sy_arc(g):
    m = M('sy.SyArc', 'arc')
    m.B('private', 'private', g.opt())
    m.S('start', pos(g, 'start', angle=True))
    m.S('mid', pos(g, 'mid', angle=True))
    m.S('end', pos(g, 'end', angle=True))
    m.S('stroke', stroke(g))
    m.S('fill', fill(g))
    return m


@spec('sy.SyCircle')
def sy_circle(g):
    m = M('sy.SyCircle', 'circle')
    m.B('private', 'private', g.opt())
    m.S('center', pos(g, 'center'))
    m.K('radius', 'radius', num(g), N)
    m.S('stroke', stroke(g))
    m.S('fill', fill(g))
    return m


@spec('sy.SyCurve')
def sy_curve(g):
    m = M('sy.SyCurve', 'curve')
    add_pts(m, 'points', many(g, xy, 4, p=0.7))
    m.S('stroke', stroke(g))
    m.S('fill', fill(g))
    return m


@spec('sy.SyPolyLine')
def sy_polyline(g):
    m = M('sy.SyPolyLine', 'polyline')
    add_pts(m, 'points', many(g, xy, 4, p=0.7))
    m.S('stroke', stroke(g))
    m.S('fill', fill(g))
    return m


@spec('sy.SyRect')
def sy_rect(g):
    m = M('sy.SyRect', 'rectangle')
    m.B('private', 'private', g.opt())
    m.S('start', pos(g, 'start'))
    m.S('end', pos(g, 'end'))
    m.S('stroke', stroke(g))
    m.S('fill', fill(g))
    return m


@spec('sy.SyText')
def sy_text(g):
    m = M('sy.SyText', 'text')
    m.P('text', text(g), Q)
    m.S('position', pos(g, 'at', angle=True))
    m.S('effects', effects(g))
    return m


@spec('sy.SyTextBox')
def sy_textbox(g):
    m = M('sy.SyTextBox', 'text_box')
    p = g.opt()
    m.B('private', 'private', p, kind='p')
    m.P('text', text(g), Q)
    m.S('position', pos(g, 'at', angle=True))
    m.S('size', pos(g, 'size'))
    m.S('stroke', stroke(g))
    m.S('fill', fill(g))
    m.S('effects', effects(g))
    m.K('uuid', 'uuid', opt(g, stamp), W)
    return m


ELECTRICAL = ('input', 'output', 'bidirectional', 'tri_state', 'passive', 'free', 'unspecified', 'power_in',
              'power_out', 'open_collector', 'open_emitter', 'no_connect')
PINSTYLE = ('line', 'inverted', 'clock', 'inverted_clock', 'input_low', 'clock_low', 'output_low',
            'edge_clock_high', 'non_logic')


@spec('symbol.SymbolAlternativePin')
def alt_pin(g):
    m = M('symbol.SymbolAlternativePin', 'alternate')
    m.P('pinName', text(g), Q)
    m.P('electricalType', enum(g, ELECTRICAL), W)
    m.P('graphicalStyle', enum(g, PINSTYLE), W)
    return m


@spec('symbol.SymbolPin')
def symbol_pin(g):
    m = M('symbol.SymbolPin', 'pin')
    m.P('electricalType', enum(g, ELECTRICAL), W)
    m.P('graphicalStyle', enum(g, PINSTYLE), W)
    m.S('position', pos(g, 'at', angle=True))
    m.K('length', 'length', num(g), N)
    m.B('hide', 'hide', g.opt())
    for key, attr in (('name', 'name'), ('number', 'number')):
        t = text(g)
        e = opt(g, effects)
        m.a[attr] = t
        m.a[attr + 'Effects'] = e
        m.add([W(key), Q(t)] + ([e] if e is not None else []))
    m.L('alternatePins', many(g, alt_pin))
    return m


SYGR = (sy_arc, sy_circle, sy_curve, sy_polyline, sy_rect, sy_text, sy_textbox)


def _symbol_body(g, m, unit):
    m.K('extends', 'extends', opt(g, text) if not unit else None, Q)
    p = g.opt()
    m.a['isPower'] = p
    if p:
        m.add([W('power')])
    hp = g.opt()
    m.a['hidePinNumbers'] = hp
    if hp:
        m.add([W('pin_numbers'), W('hide')])
    pn = g.opt()
    m.a['pinNames'] = pn
    if pn:
        off = opt(g, num)
        h = g.opt()
        m.a.update(pinNamesOffset=off, pinNamesHide=h)
        n = [W('pin_names')]
        if off is not None:
            n.append([W('offset'), N(off)])
        if h:
            n.append(W('hide'))
        m.add(n)
    m.YN('in_bom', 'inBom', bool_(g) if g.opt() else None)
    m.YN('on_board', 'onBoard', bool_(g) if g.opt() else None)


def unit_of(g, entry_name):
    m = M('symbol.Symbol', 'symbol')
    u, s = int_pos(g), int_pos(g)
    m.a.update(libraryNickname=None, entryName=entry_name, unitId=u, styleId=s)
    m.add(Q(f'{entry_name}_{u}_{s}'), kind='p')
    if g.chance(0.15):
        _symbol_body(g, m, True)
    m.L('graphicItems', many(g, either(*SYGR), 3))
    m.L('pins', many(g, symbol_pin, 2))
    return m


def int_pos(g):
    return (1, 0, 2, 3, 10, 123, 9, 11, 26, 27, 99, 100, abs(int_(g)))[g.below(13) if g.chance(0.3) else g.below(6)]


UNIT_ENTRY = ('R', 'LED', 'a b', 'x"y', 'LM324', 'n_1', '74HC00', 'Ω', 'a/b', 'x_y_z', 'R_0402_1005', 'a_1_2', '_')


def unit_like(e):
    """Whether an entry name without nickname is that of a unit"""
    p = e.rsplit('_', 2)
    return len(p) == 3 and p[0] and all(x.isdigit() and x.isascii() and (x == '0' or x[0] != '0') for x in p[1:])


@spec('symbol.Symbol')
def symbol(g):
    m = M('symbol.Symbol', 'symbol')
    nick, e = lib_parts(g)
    if nick is None and unit_like(e):
        e += 'x'
    m.a.update(libraryNickname=nick, entryName=e, unitId=None, styleId=None)
    m.add(Q(lib_text(nick, e)), kind='p')
    _symbol_body(g, m, False)
    m.L('properties', many(g, prop, 3))
    m.L('graphicItems', many(g, either(*SYGR), 3))
    m.L('pins', many(g, symbol_pin, 2))
    m.L('units', many(g, lambda g: unit_of(g, e if g.chance(0.8) and ':' not in e else g.pick(UNIT_ENTRY)), 2))
    return m


@spec('symbol.Symbol/unit')
def symbol_unit(g):
    return unit_of(g, g.pick(UNIT_ENTRY))


@spec('symbol.SymbolLib')
def symbol_lib(g):
    m = M('symbol.SymbolLib', 'kicad_symbol_lib')
    m.K('version', 'version', version(g, 20211014), N)
    m.K('generator', 'generator', enum(g, ('kicad_symbol_editor', 'kiutils', 'x-1')) if g.chance(0.9) else None, W)
    sy = many(g, symbol, 3, p=0.6)
    derive(g, sy)
    m.L('symbols', sy)
    return m


def derive(g, symbols):
    """Now and then symbols extend others of the same library"""
    if len(symbols) > 1 and g.chance(0.35):
        for x in symbols:
            if x.a.get('extends') is not None and g.chance(0.7):
                y = g.pick(symbols)
                for e in x.el:
                    if isinstance(e.w, list) and e.w and e.w[0] == W('extends'):
                        x.a['extends'] = y.a['entryName']
                        e.w = e.r = [W('extends'), Q(y.a['entryName'])]


# ------------------------------------------------------------------ board graphics

def _gr_tail(g, m, fillable=False):
    pass


@spec('gr.GrText')
def gr_text(g):
    m = M('gr.GrText', 'gr_text')
    m.B('locked', 'locked', g.opt(), kind='q')
    m.P('text', text(g), Q)
    m.S('position', pos(g, 'at', angle=True))
    l = layer(g) if g.chance(0.8) else None
    ko = g.opt() if l is not None else False
    m.a.update(layer=l, knockout=ko)
    if l is not None:
        m.add([W('layer'), Q(l)] + ([W('knockout')] if ko else []))
    m.K('tstamp', 'tstamp', opt(g, stamp), W)
    m.S('effects', effects(g))
    m.S('renderCache', opt(g, render_cache))
    return m


def _text_box(g, cls, head):
    m = M(cls, head)
    m.B('locked', 'locked', g.opt(), kind='p')
    m.P('text', text(g), Q)
    kind = g.below(4)
    ang = None
    four = [xy(g) for _ in range(4)]
    start, end = pos(g, 'start'), pos(g, 'end')
    if kind == 1:
        ang = g.pick((0, 90, 180, 270, 90.0))
        four = []
    elif kind == 2:
        ang = g.pick((45, 12.5, 30, 359, -90, 360, 0.5, 89.9, 91, 135, 450, -45, -180, 1))
        start = end = None
    elif kind == 3:
        ang = g.pick((45, 12.5, 0))
    else:
        four = []
    m.a['pts'] = four
    if four:
        m.add([W('pts')] + four)
    m.S('start', start)
    m.S('end', end)
    m.K('angle', 'angle', ang, N)
    m.K('layer', 'layer', layer(g), Q)
    m.K('tstamp', 'tstamp', opt(g, stamp), W)
    m.S('effects', opt(g, effects))
    m.S('stroke', opt(g, stroke))
    m.S('renderCache', opt(g, render_cache))
    return m


@spec('gr.GrTextBox')
def gr_textbox(g):
    return _text_box(g, 'gr.GrTextBox', 'gr_text_box')


def _gr(g, cls, head, geometry, angle=False, fillable=False):
    m = M(cls, head)
    m.B('locked', 'locked', g.opt())
    for key, attr in geometry:
        if key == 'pts':
            add_pts(m, attr, many(g, xy, 5, lo=1, p=0.7))
        else:
            m.S(attr, pos(g, key))
    if angle:
        m.K('angle', 'angle', opt(g, num), N)
    m.K('layer', 'layer', layer(g) if g.chance(0.8) else None, Q)
    m.K('width', 'width', num(g), N)
    if fillable:
        m.K('fill', 'fill', enum(g, ('none', 'solid', 'yes', 'no')) if g.opt() else None, W)
    m.K('tstamp', 'tstamp', opt(g, stamp), W)
    return m


SE = [('start', 'start'), ('end', 'end')]


@spec('gr.GrLine')
def gr_line(g):
    return _gr(g, 'gr.GrLine', 'gr_line', SE, angle=True)


@spec('gr.GrRect')
def gr_rect(g):
    return _gr(g, 'gr.GrRect', 'gr_rect', SE, fillable=True)


@spec('gr.GrCircle')
def gr_circle(g):
    return _gr(g, 'gr.GrCircle', 'gr_circle', [('center', 'center'), ('end', 'end')], fillable=True)


@spec('gr.GrArc')
def gr_arc(g):
    return _gr(g, 'gr.GrArc', 'gr_arc', [('start', 'start'), ('mid', 'mid'), ('end', 'end')])


@spec('gr.GrPoly')
def gr_poly(g):
    return _gr(g, 'gr.GrPoly', 'gr_poly', [('pts', 'coordinates')], fillable=True)


@spec('gr.GrCurve')
def gr_curve(g):
    return _gr(g, 'gr.GrCurve', 'gr_curve', [('pts', 'coordinates')])


GR = (gr_line, gr_text, gr_rect, gr_circle, gr_arc, gr_poly, gr_curve, gr_textbox)


# ------------------------------------------------------------------ footprint items

@spec('fp.FpText')
def fp_text(g):
    m = M('fp.FpText', 'fp_text')
    m.P('type', enum(g, ('reference', 'value', 'user')), W)
    m.P('text', text(g), Q)
    m.S('position', pos(g, 'at', angle=True, unlocked=True))
    l, ko = layer(g), g.opt()
    m.a.update(layer=l, knockout=ko)
    m.add([W('layer'), Q(l)] + ([W('knockout')] if ko else []))
    m.B('hide', 'hide', g.opt())
    m.S('effects', effects(g))
    m.K('tstamp', 'tstamp', opt(g, stamp), W)
    m.S('renderCache', opt(g, render_cache))
    return m


@spec('fp.FpTextBox')
def fp_textbox(g):
    return _text_box(g, 'fp.FpTextBox', 'fp_text_box')


def _fp(g, cls, head, geometry, fillable=False):
    m = M(cls, head)
    for key, attr in geometry:
        if key == 'pts':
            add_pts(m, attr, many(g, xy, 5, lo=1, p=0.7))
        else:
            m.S(attr, pos(g, key))
    m.K('layer', 'layer', layer(g), Q)
    if g.opt():
        m.a['width'] = None
        m.S('stroke', stroke(g))
    else:
        m.a['stroke'] = None
        m.K('width', 'width', num(g), N)
    if fillable:
        m.K('fill', 'fill', enum(g, ('none', 'solid')) if g.opt() else None, W)
    m.B('locked', 'locked', g.opt())
    m.K('tstamp', 'tstamp', opt(g, stamp), W)
    return m


@spec('fp.FpLine')
def fp_line(g):
    return _fp(g, 'fp.FpLine', 'fp_line', SE)


@spec('fp.FpRect')
def fp_rect(g):
    return _fp(g, 'fp.FpRect', 'fp_rect', SE, True)


@spec('fp.FpCircle')
def fp_circle(g):
    return _fp(g, 'fp.FpCircle', 'fp_circle', [('center', 'center'), ('end', 'end')], True)


@spec('fp.FpArc')
def fp_arc(g):
    return _fp(g, 'fp.FpArc', 'fp_arc', [('start', 'start'), ('mid', 'mid'), ('end', 'end')])


@spec('fp.FpPoly')
def fp_poly(g):
    return _fp(g, 'fp.FpPoly', 'fp_poly', [('pts', 'coordinates')], True)


@spec('fp.FpCurve')
def fp_curve(g):
    return _fp(g, 'fp.FpCurve', 'fp_curve', [('pts', 'coordinates')])


FP = (fp_line, fp_text, fp_rect, fp_circle, fp_arc, fp_poly, fp_curve, fp_textbox, lambda g: image(g))


@spec('footprint.Attributes')
def attributes(g, nonempty=True):
    m = M('footprint.Attributes', 'attr')
    t = g.pick(('smd', 'through_hole')) if g.opt() else None
    fl = {a: g.opt() for a in ('boardOnly', 'excludeFromPosFiles', 'excludeFromBom', 'allowMissingCourtyard')}
    if nonempty and t is None and not any(fl.values()):
        t = 'smd'
    m.a['type'] = t
    if t is not None:
        m.add(W(t), kind='p')
    for a, w in (('boardOnly', 'board_only'), ('excludeFromPosFiles', 'exclude_from_pos_files'),
                 ('excludeFromBom', 'exclude_from_bom'), ('allowMissingCourtyard', 'allow_missing_courtyard')):
        m.B(w, a, fl[a])
    return m


@spec('footprint.Model')
def model3d(g):
    m = M('footprint.Model', 'model')
    m.P('path', text(g), Q)
    m.B('hide', 'hide', g.opt(), kind='p')
    m.K('opacity', 'opacity', opt(g, num), N)
    for key, attr in (('offset', 'pos'), ('scale', 'scale'), ('rotate', 'rotate')):
        c = coordinate(g)
        m.a[attr] = c
        m.add([W(key), c])
    return m


@spec('footprint.DrillDefinition')
def drill(g):
    m = M('footprint.DrillDefinition', 'drill', strict=False)
    ov = g.opt()
    m.B('oval', 'oval', ov, kind='p')
    m.P('diameter', num(g), N)
    if ov and g.chance(0.7):
        m.P('width', num(g), N)
    m.S('offset', opt(g, lambda g: pos(g, 'offset')))
    return m


@spec('footprint.PadOptions')
def pad_options(g):
    m = M('footprint.PadOptions', 'options')
    m.K('clearance', 'clearance', enum(g, ('outline', 'convexhull')), W)
    m.K('anchor', 'anchor', enum(g, ('rect', 'circle')), W)
    return m


def plain_layer(g):
    """The name of a single layer"""
    return layer(g).replace('*', '').replace('&', '').rstrip('\\')


PADLAYERS = ('F.Cu', 'B.Cu', '*.Cu', '*.Mask', 'F&B.Cu', 'F.Paste', 'my layer', 'a"b', 'In1.Cu', '', 'R & D', '*.Cu (2)', '&', '&"')


@spec('footprint.Pad')
def pad(g):
    m = M('footprint.Pad', 'pad')
    m.P('number', text(g), Q)
    m.P('type', enum(g, ('smd', 'thru_hole', 'connect', 'np_thru_hole')), W)
    m.P('shape', enum(g, ('rect', 'circle', 'oval', 'trapezoid', 'roundrect', 'custom')), W)
    m.B('locked', 'locked', g.opt())
    m.S('position', pos(g, 'at', angle=True))
    m.S('size', pos(g, 'size'))
    m.S('drill', opt(g, drill))
    m.K('property', 'property', enum(g, ('pad_prop_bga', 'pad_prop_heatsink')) if g.opt() else None, W)
    ls = many(g, lambda g: g.pick(PADLAYERS) if g.chance(0.8) else layer(g), 3, p=0.7)
    m.a['layers'] = ls
    m.add([W('layers')] + [W(x) if ('*.' in x or '&' in x) and not any(c.isspace() or c in '()"' for c in x) else Q(x)
                           for x in ls])
    m.F('remove_unused_layers', 'removeUnusedLayers', g.opt())
    m.F('keep_end_layers', 'keepEndLayers', g.opt())
    m.K('roundrect_rratio', 'roundrectRatio', opt(g, num), N)
    m.K('chamfer_ratio', 'chamferRatio', opt(g, num), N)
    ch = g.shuffle(('top_left', 'top_right', 'bottom_left', 'bottom_right'))[:g.count(0, 4)]
    m.a['chamfer'] = ch
    if ch:
        m.add([W('chamfer')] + [W(x) for x in ch])
    m.K('die_length', 'dieLength', opt(g, num), N)
    m.S('net', opt(g, net))
    m.K('pinfunction', 'pinFunction', opt(g, text), Q)
    m.K('pintype', 'pinType', opt(g, text), Q)
    m.K('solder_mask_margin', 'solderMaskMargin', opt(g, num), N)
    m.K('solder_paste_margin', 'solderPasteMargin', opt(g, num), N)
    m.K('solder_paste_margin_ratio', 'solderPasteMarginRatio', opt(g, num), N)
    m.K('clearance', 'clearance', opt(g, num), N)
    m.K('zone_connect', 'zoneConnect', code(g, 4) if g.opt() else None, N)
    m.K('thermal_width', 'thermalWidth', opt(g, num), N)
    m.K('thermal_gap', 'thermalGap', opt(g, num), N)
    m.S('customPadOptions', opt(g, pad_options))
    pr = many(g, either(*GR), 2, p=0.35)
    m.a['customPadPrimitives'] = pr
    if pr:
        m.add([W('primitives')] + pr)
    m.K('tstamp', 'tstamp', opt(g, stamp), W)
    return m


def str_dict(g, hi=3):
    d = {}
    for _ in range(some(g, hi)):
        d[key(g)] = text(g)
    return d


@spec('footprint.Footprint')
def footprint(g, in_board=None):
    m = M('footprint.Footprint', 'footprint')
    nick, e = lib_parts(g)
    m.a.update(libraryNickname=nick, entryName=e)
    m.add(Q(lib_text(nick, e)), kind='p')
    m.B('locked', 'locked', g.opt())
    m.B('placed', 'placed', g.opt())
    m.K('version', 'version', version(g, 20211014) if g.opt() else None, N)
    m.K('generator', 'generator', enum(g, ('pcbnew', 'kiutils')) if g.opt() else None, W)
    m.K('layer', 'layer', layer(g), Q)
    m.K('tedit', 'tedit', word(g) if g.chance(0.8) else None, W)
    m.K('tstamp', 'tstamp', opt(g, stamp), W)
    m.S('position', opt(g, lambda g: pos(g, 'at', angle=True)))
    m.K('descr', 'description', opt(g, text), Q)
    m.K('tags', 'tags', opt(g, text), Q)
    d = str_dict(g)
    m.a['properties'] = d
    for k, v in d.items():
        m.add([W('property'), Q(k), Q(v)], grp='props')
    m.K('path', 'path', opt(g, text), Q)
    for key, attr, f in (('autoplace_cost90', 'autoplaceCost90', int_), ('autoplace_cost180', 'autoplaceCost180', int_),
                         ('solder_mask_margin', 'solderMaskMargin', num), ('solder_paste_margin', 'solderPasteMargin', num),
                         ('solder_paste_ratio', 'solderPasteRatio', num), ('clearance', 'clearance', num),
                         ('zone_connect', 'zoneConnect', lambda g: code(g, 4)), ('thermal_width', 'thermalWidth', num),
                         ('thermal_gap', 'thermalGap', num)):
        m.K(key, attr, opt(g, f), N)
    if g.chance(0.5):
        m.S('attributes', attributes(g))
    elif g.chance(0.2):
        m.a['attributes'] = M('footprint.Attributes', 'attr')
        m.add(None, [W('attr')])
    pl = many(g, layer, 2)
    m.a['privateLayers'] = pl
    if pl:
        m.add([W('private_layers')] + [Q(x) for x in pl])
    nt = many(g, text, 2)
    m.a['netTiePadGroups'] = nt
    if nt:
        m.add([W('net_tie_pad_groups')] + [Q(x) for x in nt])
    m.L('graphicItems', many(g, either(*FP), 3, p=0.5))
    m.L('pads', many(g, pad, 2, p=0.4))
    m.L('zones', many(g, zone, 2, p=0.25))
    m.L('models', many(g, model3d, 2, p=0.3))
    m.L('groups', many(g, group, 2, p=0.3))
    return m


# ------------------------------------------------------------------ zones

ALLOW = ('allowed', 'not_allowed')


@spec('zones.KeepoutSettings')
def keepout(g):
    m = M('zones.KeepoutSettings', 'keepout')
    for k in ('tracks', 'vias', 'pads', 'copperpour', 'footprints'):
        m.K(k, k, enum(g, ALLOW), W)
    return m


@spec('zones.FillSettings')
def fill_settings(g):
    m = M('zones.FillSettings', 'fill')
    m.B('yes', 'yes', bool_(g))
    m.K('mode', 'mode', enum(g, ('hatch', 'hatched', 'polygon', 'segment')) if g.opt() else None, W)
    m.K('thermal_gap', 'thermalGap', opt(g, num), N)
    m.K('thermal_bridge_width', 'thermalBridgeWidth', opt(g, num), N)
    m.K('smoothing', 'smoothingStyle', enum(g, ('chamfer', 'fillet')) if g.opt() else None, W)
    m.K('radius', 'smoothingRadius', opt(g, num), N)
    m.K('island_removal_mode', 'islandRemovalMode', code(g, 3) if g.opt() else None, N)
    m.K('island_area_min', 'islandAreaMin', opt(g, num), N)
    m.K('hatch_thickness', 'hatchThickness', opt(g, num), N)
    m.K('hatch_gap', 'hatchGap', opt(g, num), N)
    m.K('hatch_orientation', 'hatchOrientation', opt(g, num), N)
    m.K('hatch_smoothing_level', 'hatchSmoothingLevel', code(g, 4) if g.opt() else None, N)
    m.K('hatch_smoothing_value', 'hatchSmoothingValue', opt(g, num), N)
    m.K('hatch_border_algorithm', 'hatchBorderAlgorithm', code(g, 2) if g.opt() else None, N)
    m.K('hatch_min_hole_area', 'hatchMinHoleArea', opt(g, num), N)
    return m


@spec('zones.ZonePolygon')
def zone_polygon(g):
    return add_pts(M('zones.ZonePolygon', 'polygon'), 'coordinates', many(g, xy, 5, lo=1, p=0.7))


@spec('zones.FilledPolygon')
def filled_polygon(g):
    m = M('zones.FilledPolygon', 'filled_polygon')
    m.K('layer', 'layer', layer(g), Q)
    m.F('island', 'island', g.opt())
    return add_pts(m, 'coordinates', many(g, xy, 5, lo=1, p=0.7))


@spec('zones.FillSegments')
def fill_segments(g):
    m = M('zones.FillSegments', 'fill_segments')
    m.K('layer', 'layer', layer(g), Q)
    return add_pts(m, 'coordinates', many(g, xy, 5, lo=1, p=0.7))


@spec('zones.Zone')
def zone(g):
    m = M('zones.Zone', 'zone')
    m.B('locked', 'locked', g.opt())
    m.K('net', 'net', int_(g), N)
    m.K('net_name', 'netName', text(g), Q)
    ls = many(g, lambda g: g.pick(('F.Cu', 'B.Cu', 'F&B.Cu', '*.Cu', 'In1.Cu', 'a"b', 'x y', '*.Mask', 'F&B.Mask', '*Cu', 'F.Cu ')) if g.chance(0.85) else plain_layer(g), 3, lo=1, p=0.4)
    m.a['layers'] = ls
    single = len(ls) == 1 and ls[0] not in ('F&B.Cu', '*.Cu')
    m.add([W('layer' if single else 'layers')] + [Q(x) for x in ls])
    m.K('tstamp', 'tstamp', opt(g, stamp), W)
    m.K('name', 'name', opt(g, text), Q)
    h = M('zones.Hatch', 'hatch', strict=True, noshuffle=True)
    h.P('style', enum(g, ('none', 'edge', 'full')), W)
    h.P('pitch', num(g), N)
    m.S('hatch', h)
    m.K('priority', 'priority', opt(g, int_), N)
    cp = enum(g, ('thru_hole_only', 'full', 'yes', 'no')) if g.opt() else None
    cl = num(g)
    m.a.update(connectPads=cp, clearance=cl)
    m.add([W('connect_pads')] + ([W(cp)] if cp is not None else []) + [[W('clearance'), N(cl)]])
    m.K('min_thickness', 'minThickness', num(g), N)
    m.K('filled_areas_thickness', 'filledAreasThickness', enum(g, ('no', 'yes')) if g.opt() else None, W)
    m.S('keepoutSettings', opt(g, keepout))
    m.S('fillSettings', opt(g, fill_settings))
    m.L('polygons', many(g, zone_polygon, 2))
    m.L('filledPolygons', many(g, filled_polygon, 2))
    m.S('fillSegments', opt(g, fill_segments))
    return m


# ------------------------------------------------------------------ board items

@spec('brd.GeneralSettings')
def general(g):
    m = M('brd.GeneralSettings', 'general')
    m.K('thickness', 'thickness', num(g), N)
    return m


@spec('brd.LayerToken')
def layer_token(g):
    m = M('brd.LayerToken', None, strict=True, noshuffle=True)
    m.P('ordinal', code(g, 64), N)
    m.P('name', layer(g), Q)
    m.P('type', enum(g, ('signal', 'user', 'power', 'mixed', 'jumper')), W)
    if g.opt():
        m.P('userName', text(g), Q)
    return m


@spec('brd.StackupLayer')
def stackup_layer(g):
    m = M('brd.StackupLayer', 'layer')
    m.P('name', text(g), Q)
    m.K('type', 'type', text(g), Q)
    m.K('color', 'color', opt(g, text), Q)
    m.K('thickness', 'thickness', opt(g, num), N)
    m.K('material', 'material', opt(g, text), Q)
    m.K('epsilon_r', 'epsilonR', opt(g, num), N)
    m.K('loss_tangent', 'lossTangent', opt(g, num), N)
    subs = []
    for _ in range(g.count(0, 4, 0.4)):
        s = M('brd.StackupSubLayer', None)
        m.add(W('addsublayer'), kind='x')
        for key, attr, f, leaf in (('thickness', 'thickness', num, N), ('material', 'material', text, Q),
                                   ('epsilon_r', 'epsilonR', num, N), ('loss_tangent', 'lossTangent', num, N)):
            v = usual(s.cls, attr, f(g) if key == 'thickness' or g.opt() else None, leaf)
            s.a[attr] = v
            if v is not None:
                m.add([W(key), leaf(v)], kind='x')
        subs.append(s)
    m.a['subLayers'] = subs
    return m


@spec('brd.Stackup')
def stackup(g):
    m = M('brd.Stackup', 'stackup')
    m.L('layers', many(g, stackup_layer, 3, p=0.6))
    m.K('copper_finish', 'copperFinish', opt(g, text), Q)
    m.K('dielectric_constraints', 'dielectricContraints', enum(g, ('yes', 'no')) if g.opt() else None, W)
    m.K('edge_connector', 'edgeConnector', enum(g, ('yes', 'bevelled')) if g.opt() else None, W)
    for key, attr in (('castellated_pads', 'castellatedPads'), ('edge_plating', 'edgePlating')):
        v = g.opt()
        m.a[attr] = v
        if v:
            m.add([W(key), W('yes')])
    return m


def six(v):
    """What six decimals keep of a number"""
    return float(f'{float(v):.6f}')


@spec('brd.PlotSettings')
def plot_settings(g):
    m = M('brd.PlotSettings', 'pcbplotparams')
    ls = enum(g, ('0x00010fc_ffffffff', '0x0000000_00000000', 'abc')) if g.chance(0.9) else ''
    m.a['layerSelection'] = ls
    if ls:
        m.add([W('layerselection'), W(ls)])
    m.K('plot_on_all_layers_selection', 'plotOnAllLayersSelection', enum(g, ('0x0000000_00000000', 'x1')) if g.opt() else None, W)

    def tf(key, attr, v):
        m.YN(key, attr, v, 'true', 'false')

    def n6(key, attr, v):
        m.a[attr] = v
        if v is not None:
            m.rr[attr] = six(v)
            m.add([W(key), N(six(v))], [W(key), N(v)])

    for key, attr in (('disableapertmacros', 'disableApertMacros'), ('usegerberextensions', 'useGerberExtensions'),
                      ('usegerberattributes', 'useGerberAttributes'),
                      ('usegerberadvancedattributes', 'useGerberAdvancedAttributes'),
                      ('creategerberjobfile', 'createGerberJobFile')):
        tf(key, attr, bool_(g))
    n6('dashed_line_dash_ratio', 'dashedLineDashRatio', opt(g, num))
    n6('dashed_line_gap_ratio', 'dashedLineGapRatio', opt(g, num))
    tf('svguseinch', 'svgUseInch', bool_(g) if g.opt() else None)
    m.K('svgprecision', 'svgPrecision', num(g), N)
    tf('excludeedgelayer', 'excludeEdgeLayer', bool_(g) if g.opt() else None)
    tf('plotframeref', 'plotFameRef', bool_(g))
    tf('viasonmask', 'viasOnMask', bool_(g))
    m.K('mode', 'mode', code(g, 3), N)
    tf('useauxorigin', 'useAuxOrigin', bool_(g))
    m.K('hpglpennumber', 'hpglPenNumber', int_(g), N)
    m.K('hpglpenspeed', 'hpglPenSpeed', int_(g), N)
    n6('hpglpendiameter', 'hpglPenDiameter', num(g))
    for key, attr in (('dxfpolygonmode', 'dxfPolygonMode'), ('dxfimperialunits', 'dxfImperialUnits'),
                      ('dxfusepcbnewfont', 'dxfUsePcbnewFont'), ('psnegative', 'psNegative'),
                      ('psa4output', 'psA4Output'), ('plotreference', 'plotReference'), ('plotvalue', 'plotValue'),
                      ('plotinvisibletext', 'plotInvisibleText'), ('sketchpadsonfab', 'sketchPadsOnFab'),
                      ('subtractmaskfromsilk', 'subtractMaskFromSilk')):
        tf(key, attr, bool_(g))
    m.K('outputformat', 'outputFormat', code(g, 6), N)
    tf('mirror', 'mirror', bool_(g))
    m.K('drillshape', 'drillShape', int_(g), N)
    m.K('scaleselection', 'scaleSelection', int_(g), N)
    m.K('outputdirectory', 'outputDirectory', text(g), Q)
    return m


@spec('brd.SetupData')
def setup_data(g):
    m = M('brd.SetupData', 'setup')
    m.S('stackup', opt(g, stackup))
    m.K('pad_to_mask_clearance', 'packToMaskClearance', num(g), N)
    m.K('solder_mask_min_width', 'solderMaskMinWidth', opt(g, num), N)
    m.K('pad_to_paste_clearance', 'padToPasteClearance', opt(g, num), N)
    m.K('pad_to_paste_clearance_ratio', 'padToPasteClearanceRatio', opt(g, num), N)
    m.S('auxAxisOrigin', opt(g, lambda g: pos(g, 'aux_axis_origin')))
    m.S('gridOrigin', opt(g, lambda g: pos(g, 'grid_origin')))
    m.S('plotSettings', opt(g, plot_settings))
    return m


@spec('brd.Segment')
def segment(g):
    m = M('brd.Segment', 'segment')
    m.B('locked', 'locked', g.opt())
    m.S('start', pos(g, 'start'))
    m.S('end', pos(g, 'end'))
    m.K('width', 'width', num(g), N)
    m.K('layer', 'layer', layer(g), Q)
    m.K('net', 'net', int_(g), N)
    t = stamp(g) if g.chance(0.85) else ''
    m.a['tstamp'] = t
    if t:
        m.add([W('tstamp'), W(t)])
    return m


@spec('brd.Via')
def via(g):
    m = M('brd.Via', 'via')
    m.B(*(lambda t: (t or 'x', 'type', t))(g.pick(('blind', 'micro')) if g.opt() else None))
    m.B('locked', 'locked', g.opt())
    m.S('position', pos(g, 'at'))
    m.K('size', 'size', num(g), N)
    m.K('drill', 'drill', num(g), N)
    ls = many(g, layer, 3, p=0.7)
    m.a['layers'] = ls
    m.add([W('layers')] + [Q(x) for x in ls])
    m.F('remove_unused_layers', 'removeUnusedLayers', g.opt())
    m.F('keep_end_layers', 'keepEndLayers', g.opt())
    m.F('free', 'free', g.opt())
    m.K('net', 'net', int_(g), N)
    m.K('tstamp', 'tstamp', opt(g, stamp), W)
    return m


@spec('brd.Arc')
def trace_arc(g):
    m = M('brd.Arc', 'arc')
    m.B('locked', 'locked', g.opt())
    m.S('start', pos(g, 'start'))
    m.S('mid', pos(g, 'mid'))
    m.S('end', pos(g, 'end'))
    m.K('width', 'width', num(g), N)
    m.K('layer', 'layer', layer(g), Q)
    m.K('net', 'net', int_(g), N)
    m.K('tstamp', 'tstamp', opt(g, stamp), W)
    return m


@spec('brd.Target')
def target(g):
    m = M('brd.Target', 'target')
    m.P('type', enum(g, ('plus', 'x')), W)
    m.S('position', pos(g, 'at'))
    m.K('size', 'size', num(g), N)
    m.K('width', 'width', num(g), N)
    m.K('layer', 'layer', layer(g), Q)
    m.K('tstamp', 'tstamp', opt(g, stamp), W)
    return m


@spec('dim.DimensionFormat')
def dim_format(g):
    m = M('dim.DimensionFormat', 'format')
    m.K('prefix', 'prefix', opt(g, text), Q)
    m.K('suffix', 'suffix', opt(g, text), Q)
    m.K('units', 'units', code(g, 4), N)
    m.K('units_format', 'unitsFormat', code(g, 3), N)
    m.K('precision', 'precision', code(g, 8), N)
    m.K('override_value', 'overrideValue', opt(g, text), Q)
    m.B('suppress_zeroes', 'suppressZeroes', g.opt())
    return m


@spec('dim.DimensionStyle')
def dim_style(g):
    m = M('dim.DimensionStyle', 'style')
    m.K('thickness', 'thickness', num(g), N)
    m.K('arrow_length', 'arrowLength', num(g), N)
    m.K('text_position_mode', 'textPositionMode', code(g, 3), N)
    m.K('extension_height', 'extensionHeight', opt(g, num), N)
    m.K('text_frame', 'textFrame', code(g, 4) if g.opt() else None, N)
    m.K('extension_offset', 'extensionOffset', opt(g, num), N)
    m.B('keep_text_aligned', 'keepTextAligned', g.opt())
    return m


@spec('dim.Dimension')
def dimension(g):
    m = M('dim.Dimension', 'dimension')
    m.B('locked', 'locked', g.opt())
    m.K('type', 'type', enum(g, ('aligned', 'leader', 'center', 'orthogonal', 'radial')), W)
    m.K('layer', 'layer', layer(g), Q)
    m.K('tstamp', 'tstamp', opt(g, stamp), W)
    add_pts(m, 'pts', many(g, xy, 4, lo=1, p=0.6))
    m.K('height', 'height', opt(g, num), N)
    m.K('orientation', 'orientation', opt(g, num), N)
    m.K('leader_length', 'leaderLength', opt(g, num), N)
    m.S('grText', opt(g, gr_text))
    m.S('format', opt(g, dim_format))
    m.S('style', dim_style(g))
    return m


@spec('board.Board')
def board(g):
    m = M('board.Board', 'kicad_pcb')
    m.K('version', 'version', version(g, 20211014), N)
    m.K('generator', 'generator', enum(g, ('pcbnew', 'kiutils')), W)
    m.S('general', general(g))
    m.S('paper', paper(g))
    m.S('titleBlock', opt(g, title_block))
    ls = many(g, layer_token, 3, p=0.6)
    m.a['layers'] = ls
    m.add([W('layers')] + ls)
    m.S('setup', setup_data(g))
    d = str_dict(g)
    m.a['properties'] = d
    for k, v in d.items():
        m.add([W('property'), Q(k), Q(v)], grp='props')
    m.L('nets', many(g, net, 3, p=0.5))
    m.L('footprints', many(g, footprint, 2, p=0.25))
    m.L('graphicItems', many(g, either(*GR, image), 3, p=0.5))
    m.L('dimensions', many(g, dimension, 2, p=0.3))
    m.L('targets', many(g, target, 2, p=0.3))
    m.L('traceItems', many(g, either(segment, via, trace_arc), 3, p=0.5))
    m.L('zones', many(g, zone, 2, p=0.3))
    m.L('groups', many(g, group, 2, p=0.3))
    return m


# ------------------------------------------------------------------ worksheets

@spec('wks.WksFontSize')
def wks_font_size(g):
    m = M('wks.WksFontSize', 'size', strict=True, noshuffle=True)
    m.P('width', num(g), N)
    m.P('height', num(g), N)
    return m


@spec('wks.WksFont')
def wks_font(g, nonempty=True):
    m = M('wks.WksFont', 'font')
    m.K('linewidth', 'linewidth', opt(g, num), N)
    m.S('size', opt(g, wks_font_size))
    m.B('bold', 'bold', g.opt())
    b = g.opt()
    if nonempty and not m.el:
        b = True
    m.B('italic', 'italic', b)
    return m


def wks_pos(g, key):
    m = M('wks.WksPosition', key, strict=True, noshuffle=True)
    m.P('X', num(g), N)
    m.P('Y', num(g), N)
    if g.opt():
        m.P('corner', enum(g, ('ltcorner', 'lbcorner', 'rtcorner', 'rbcorner')), W)
    return m


@spec('wks.WksPosition')
def wks_position(g):
    return wks_pos(g, 'pos')


def _option(g, m):
    m.K('option', 'option', enum(g, ('notonpage1', 'page1only')) if g.opt() else None, W)


def _repeat(g, m):
    m.K('repeat', 'repeat', opt(g, int_), N)
    m.K('incrx', 'incrx', opt(g, num), N)
    m.K('incry', 'incry', opt(g, num), N)


def _wks_line(g, cls, head):
    m = M(cls, head)
    m.K('name', 'name', text(g), Q)
    m.S('start', wks_pos(g, 'start'))
    m.S('end', wks_pos(g, 'end'))
    _option(g, m)
    m.K('linewidth', 'lineWidth', opt(g, num), N)
    _repeat(g, m)
    m.K('comment', 'comment', opt(g, text), Q)
    return m


@spec('wks.Line')
def wks_line(g):
    return _wks_line(g, 'wks.Line', 'line')


@spec('wks.Rect')
def wks_rect(g):
    return _wks_line(g, 'wks.Rect', 'rect')


PNG = ('89 50 4E 47 0D 0A 1A 0A ', '00 ', 'FF D8 FF E0 00 10 4A 46 ', '')


@spec('wks.Bitmap')
def wks_bitmap(g):
    m = M('wks.Bitmap', 'bitmap')
    m.K('name', 'name', text(g), Q)
    m.S('position', wks_pos(g, 'pos'))
    _option(g, m)
    m.K('scale', 'scale', num(g), N)
    _repeat(g, m)
    m.K('comment', 'comment', opt(g, text), Q)
    d = many(g, lambda g: g.pick(PNG) if g.chance(0.85) else ''.join('%02X ' % g.below(256) for _ in range(1 + g.below(40))), 3)
    m.a['pngdata'] = d
    m.add([W('pngdata')] + [[W('data'), Q(x)] for x in d])
    return m


@spec('wks.TbText')
def wks_tbtext(g):
    m = M('wks.TbText', 'tbtext')
    m.P('text', text(g), Q)
    m.K('name', 'name', text(g), Q)
    m.S('position', wks_pos(g, 'pos'))
    _option(g, m)
    m.K('rotate', 'rotate', opt(g, num), N)
    if g.opt():
        m.S('font', wks_font(g))
    else:
        m.a['font'] = M('wks.WksFont', 'font')
    m.S('justify', justify(g, nonempty=True) if g.opt() else None)
    m.K('maxlen', 'maxlen', opt(g, num), N)
    m.K('maxheight', 'maxheight', opt(g, num), N)
    _repeat(g, m)
    m.K('incrlabel', 'incrlabel', opt(g, int_), N)
    m.K('comment', 'comment', opt(g, text), Q)
    return m


@spec('wks.TextSize')
def wks_textsize(g):
    m = M('wks.TextSize', 'textsize', strict=True, noshuffle=True)
    m.P('width', num(g), N)
    m.P('height', num(g), N)
    return m


@spec('wks.Setup')
def wks_setup(g):
    m = M('wks.Setup', 'setup')
    m.S('textSize', wks_textsize(g))
    for key, attr in (('linewidth', 'lineWidth'), ('textlinewidth', 'textLineWidth'), ('left_margin', 'leftMargin'),
                      ('right_margin', 'rightMargin'), ('top_margin', 'topMargin'), ('bottom_margin', 'bottomMargin')):
        m.K(key, attr, num(g), N)
    return m


@spec('wks.WorkSheet')
def worksheet(g):
    m = M('wks.WorkSheet', 'kicad_wks')
    m.K('version', 'version', version(g, 20210606), N)
    m.K('generator', 'generator', enum(g, ('pl_editor', 'kiutils')), W)
    m.S('setup', wks_setup(g))
    m.L('drawingObjects', many(g, either(wks_line, wks_rect, wks_tbtext, wks_bitmap), 5, p=0.7))
    return m


# ------------------------------------------------------------------ design rules, library tables

CONSTRAINTS = ('annular_width', 'clearance', 'courtyard_clearance', 'diff_pair_gap', 'disallow', 'edge_clearance',
               'length', 'hole_clearance', 'hole_size', 'silk_clearance', 'skew', 'track_width', 'via_count')
ELEMENTS = ('via', 'buried_via', 'micro_via', 'graphic', 'hole', 'pad', 'text', 'track', 'zone')


@spec('dru.Constraint')
def constraint(g):
    m = M('dru.Constraint', 'constraint')
    m.P('type', enum(g, CONSTRAINTS), W)
    m.K('min', 'min', opt(g, dist), Q)
    m.K('opt', 'opt', opt(g, dist), Q)
    m.K('max', 'max', opt(g, dist), Q)
    e = g.shuffle(ELEMENTS)[:g.count(0, 4)]
    m.a['elements'] = e
    for x in e:
        m.add(W(x), kind='b', grp='el')
    return m


def dist(g):
    return g.pick(('0.2mm', '10mil', '5', '0.5 mm', '1.50', 'a"b', '', '1in', '${X}')) if g.chance(0.7) else text(g)


@spec('dru.Rule')
def rule(g):
    m = M('dru.Rule', 'rule')
    m.P('name', text(g), Q)
    m.K('layer', 'layer', opt(g, text), Q)
    m.L('constraints', many(g, constraint))
    m.K('condition', 'condition', text(g), Q)
    m.K('severity', 'severity', enum(g, ('warning', 'error', 'exclusion', 'ignore')) if g.opt() else None, W)
    return m


@spec('dru.DesignRules')
def design_rules(g):
    m = M('dru.DesignRules', None, noshuffle=True)
    m.a['version'] = 1 + g.below(3) if g.chance(0.7) else version(g, 20200101)
    m.add([W('version'), N(m.a['version'])], kind='p')
    m.L('rules', many(g, rule, 4, p=0.6))
    return m


@spec('libraries.Library')
def library(g):
    m = M('libraries.Library', 'lib')
    m.K('name', 'name', text(g), Q)
    m.K('type', 'type', text(g), Q)
    m.K('uri', 'uri', text(g), Q)
    m.K('options', 'options', text(g), Q)
    m.K('descr', 'description', text(g), Q)
    a = not g.opt()
    m.a['active'] = a
    if not a:
        m.add([W('disabled')])
    return m


@spec('libraries.LibTable')
def lib_table(g):
    t = g.pick(('sym_lib_table', 'fp_lib_table'))
    m = M('libraries.LibTable', t)
    m.a['type'] = t
    m.L('libs', many(g, library, 4, p=0.6))
    return m


# classes whose whole text is a list without keyword, or which have no text of their own
NO_WRITE = {'common.Position', 'wks.WksPosition'}
DOCUMENTS = ('board.Board', 'footprint.Footprint', 'schematic.Schematic', 'symbol.SymbolLib', 'wks.WorkSheet',
             'dru.DesignRules', 'libraries.LibTable')

# which file format a class belongs to
FAMILY = {}
for _n in SPECS:
    _p = _n.split('.')[0]
    FAMILY[_n] = {'brd': 'board', 'board': 'board', 'gr': 'board', 'dim': 'board', 'zones': 'board', 'fp': 'footprint',
                  'footprint': 'footprint', 'sch': 'schematic', 'schematic': 'schematic', 'sy': 'symbol',
                  'symbol': 'symbol', 'wks': 'wks', 'dru': 'rules', 'libraries': 'rules', 'common': 'common'}[_p]
