"""C17: new documents"""
from .common import *
from harness import graph
from harness.model import M, cmp_val, conv
from harness.sx import W, Q, N
from harness.values import text as any_text

TITLE = 'New documents are as documented, valid, and independent of earlier ones'
RULE = ('Histories of creating new documents of every kind with drawn arguments (identifiers, texts, types), of which some are '
        'altered everywhere, some are filled with generated items, and all are saved and loaded: each new document is written '
        'as the documented empty document with exactly the given arguments, whatever happened to earlier ones; unsupported '
        'footprint types are refused; filled documents are read back with the initial content plus the added items. '
        'Non-trivial: at least two documents or one with arguments; distinct by arguments and contents.')
ASSUMPTIONS = [TRUST, DOMAIN, 'The time of last edit of a new footprint is the current time and is not compared']

LAYERS = [(0, 'F.Cu', 'signal', None), (31, 'B.Cu', 'signal', None), (32, 'B.Adhes', 'user', 'B.Adhesive'),
          (33, 'F.Adhes', 'user', 'F.Adhesive'), (34, 'B.Paste', 'user', None), (35, 'F.Paste', 'user', None),
          (36, 'B.SilkS', 'user', 'B.Silkscreen'), (37, 'F.SilkS', 'user', 'F.Silkscreen'), (38, 'B.Mask', 'user', None),
          (39, 'F.Mask', 'user', None), (40, 'Dwgs.User', 'user', 'User.Drawings'), (41, 'Cmts.User', 'user', 'User.Comments'),
          (42, 'Eco1.User', 'user', 'User.Eco1'), (43, 'Eco2.User', 'user', 'User.Eco2'), (44, 'Edge.Cuts', 'user', None),
          (45, 'Margin', 'user', None), (46, 'B.CrtYd', 'user', 'B.Courtyard'), (47, 'F.CrtYd', 'user', 'F.Courtyard'),
          (48, 'B.Fab', 'user', None), (49, 'F.Fab', 'user', None)] + [(50 + i, f'User.{i + 1}', 'user', None) for i in range(9)]
VG = [[W('version'), N(20211014)], [W('generator'), W('kiutils')]]


def board_tree():
    ls = [[N(o), Q(n), W(t)] + ([Q(u)] if u else []) for o, n, t, u in LAYERS]
    return [W('kicad_pcb')] + VG + [[W('general'), [W('thickness'), N(1.6)]], [W('paper'), Q('A4')], [W('layers')] + ls,
                                    [W('setup'), [W('pad_to_mask_clearance'), N(0)]], [W('net'), N(0), Q('')]]


def schematic_tree():
    return [W('kicad_sch')] + VG + [[W('paper'), Q('A4')], [W('lib_symbols')],
                                    [W('sheet_instances'), [W('path'), Q('/'), [W('page'), Q('1')]]]]


def wks_tree():
    return [W('kicad_wks')] + VG + [[W('setup'), [W('textsize'), N(1.5), N(1.5)], [W('linewidth'), N(0.15)],
                                     [W('textlinewidth'), N(0.15)]] +
                                    [[W(k), N(10)] for k in ('left_margin', 'right_margin', 'top_margin', 'bottom_margin')]]


def footprint_tree(ident, value, typ, ref):
    out = [W('footprint'), Q(ident)] + VG + [[W('layer'), Q('F.Cu')]]
    if typ != 'other':
        out.append([W('attr'), W(typ)])
    for k, t, y, l in (('reference', ref, -0.5, 'F.SilkS'), ('value', value, 1, 'F.Fab'), ('user', '${REFERENCE}', 2.5, 'F.Fab')):
        out.append([W('fp_text'), W(k), Q(t), [W('at'), N(0), N(y), W('unlocked')], [W('layer'), Q(l)],
                    [W('effects'), [W('font'), [W('size'), N(1), N(1)], [W('thickness'), N(0.15)]]]])
    return out


def symbol_tree(ident, ref, value, fp, sheet):
    out = [W('symbol'), Q(ident), [W('in_bom'), W('yes')], [W('on_board'), W('yes')]]
    for i, (k, v, hide) in enumerate((('Reference', ref, 0), ('Value', value, 0), ('Footprint', fp, 1), ('Datasheet', sheet, 1))):
        out.append([W('property'), Q(k), Q(v), [W('id'), N(i)], [W('at'), N(0), N(0), N(0)],
                    [W('effects'), [W('font'), [W('size'), N(1.27), N(1.27)]]] + ([W('hide')] if hide else [])])
    return out


def ident(g):
    nick, e = specs.lib_parts(g)
    if nick is None and specs.unit_like(e):
        e += 'x'
    return specs.lib_text(nick, e)


def create(g):
    """(document name or 'symbol', arguments, object, tree)"""
    K = model.CLASSES
    c = g.below(8)
    if c == 0:
        return 'board.Board', (), ops.guarded('Board.create_new', K['board.Board'].create_new), board_tree()
    if c == 1:
        return 'schematic.Schematic', (), ops.guarded('create_new', K['schematic.Schematic'].create_new), schematic_tree()
    if c == 2:
        return 'wks.WorkSheet', (), ops.guarded('create_new', K['wks.WorkSheet'].create_new), wks_tree()
    if c == 3:
        return 'dru.DesignRules', (), ops.guarded('create_new', K['dru.DesignRules'].create_new), [[W('version'), N(1)]]
    if c == 4:
        t = g.pick((None, 'sym_lib_table', 'fp_lib_table'))
        f = K['libraries.LibTable'].create_new
        o = ops.guarded('create_new', f) if t is None else ops.guarded('create_new', f, t)
        return 'libraries.LibTable', (t,), o, [W(t or 'sym_lib_table')]
    if c in (5, 6):
        i, v, t = ident(g), any_text(g), g.pick(('smd', 'through_hole', 'other', None))
        r = any_text(g) if g.chance(0.5) else None
        kw = {}
        if t is not None:
            kw['type'] = t
        if r is not None:
            kw['reference'] = r
        o = ops.guarded('Footprint.create_new', K['footprint.Footprint'].create_new, i, v, **kw)
        o.tedit = None
        return 'footprint.Footprint', (i, v, t, r), o, footprint_tree(i, v, t or 'other', 'REF**' if r is None else r)
    i, r, v = ident(g), any_text(g), any_text(g)
    fp = any_text(g) if g.chance(0.5) else None
    ds = any_text(g) if g.chance(0.5) else None
    kw = {}
    if fp is not None:
        kw['footprint'] = fp
    if ds is not None:
        kw['datasheet'] = ds
    o = ops.guarded('Symbol.create_new', K['symbol.Symbol'].create_new, i, r, v, **kw)
    return 'symbol.Symbol', (i, r, v, fp, ds), o, symbol_tree(i, r, v, fp or '', ds or '')


def check_new(kind, o, tree, ctx):
    if kind == 'symbol.Symbol':
        got, text = ops.written(o)
        ops.check_tree(got, tree, 'a new symbol', text)
        again = ops.from_sexpr(type(o), ops.parse(text))
        ops.check_equal(o, again, 'a new symbol, read back', text)
        return
    if o.filePath is not None:
        raise Violation(f'a new {kind} already has the file path {o.filePath!r}')
    p = f'{ctx.scratch()}/n{ops.SUFFIX[kind]}'
    ops.save(o, p)
    t = ops.get(p)
    m = M(kind, None)
    ops.check_tree(ops.file_tree(m, t), tree, f'a new {kind}', t)
    again = ops.load(type(o), p)
    ops.save(again, p)
    ops.check_tree(ops.file_tree(m, ops.get(p)), tree, f'a new {kind}, loaded and saved', t)
    again.filePath = None
    for a in ('version', 'generator'):
        if hasattr(again, a) and str(getattr(again, a)) != str(getattr(o, a)):
            raise Violation(f'a new {kind}: {a} {getattr(o, a)!r} is read back as {getattr(again, a)!r}')
        if hasattr(again, a):
            setattr(again, a, getattr(o, a))
    ops.check_equal(o, again, f'a new {kind}, read back', t)


def histories(g, ctx):
    start(g)
    log = []
    for _ in range(1 + g.count(0, 4, 0.6)):
        kind, args, o, tree = create(g)
        check_new(kind, o, tree, ctx)
        log.append((kind, args))
        if g.chance(0.7):
            graph.wreck(o)
    return log, len(log) > 1 or bool(log[0][1]), str(log)


def filled(g, ctx):
    """New documents with items added"""
    start(g)
    kind, args, o, tree = create(g)
    if kind == 'symbol.Symbol':
        raise Discard()
    m = specs.SPECS[kind](g)
    base = {}
    for attr, v in m.a.items():
        if isinstance(v, list) and all(isinstance(x, M) for x in v):
            base[attr] = len(getattr(o, attr))
            getattr(o, attr).extend(conv(v))
    p = f'{ctx.scratch()}/n{ops.SUFFIX[kind]}'
    ops.save(o, p)
    t = ops.get(p)
    again = ops.load(type(o), p)
    for attr, n in base.items():
        got = getattr(again, attr)
        if len(got) != n + len(m.a[attr]):
            raise Violation(f'{kind}.{attr}: {n} + {len(m.a[attr])} items were saved, {len(got)} loaded', text=t)
        r = cmp_val(got[n:], m.a[attr], f'{kind}.{attr}', True)
        if r:
            raise Violation(f'a filled new document reads back differently: {r}', text=t)
        got[:], mine = got[:n], None
    kind2 = M(kind, None)
    ops.save(again, p)
    ops.check_tree(ops.file_tree(kind2, ops.get(p)), tree, 'a new document after adding and removing items', ops.get(p))
    return (kind, args, t), any(len(m.a[a]) for a in base), f'{kind} {args} + { {a: len(m.a[a]) for a in base} }'


def refused(g, ctx):
    t = g.pick(('SMD', '', 'tht', 'throughhole', None, 'virtual', 5, 'others', 'through-hole', 'smd ', 'x'))
    try:
        r = model.CLASSES['footprint.Footprint'].create_new('a:b', 'v', t)
    except Exception:
        return t, False, ''
    raise Violation(f'a footprint of the unsupported type {t!r} was created')


STREAMS = [Stream('histories', histories, 20000, 400000), Stream('filled', filled, 6000, 150000),
           Stream('refused', refused, 30, 30)]
