"""C21: indentation and line end of written items"""
from .common import *

TITLE = 'Indentation and line-end options change white space only, as requested'
RULE = ('Models of every class are written with the default options and with drawn indentation widths (0 to 40) and both line '
        'end settings, by keyword or by position, and with the layout options of footprints and polygons. The default is what the '
        'documented default values give. The token sequence is the same each time, the text starts with exactly the '
        'requested blanks, it ends with exactly one line break if one was asked for and with none otherwise (classes documented '
        'to always end a line excepted), the same options give the same text, and the text with a line break is the text without '
        'it plus the break. Non-trivial: at least 4 tokens; distinct by class, options and text.')
ASSUMPTIONS = [TRUST, DOMAIN, 'Zone polygons and fill segments always end their line; rule files end with a line break of their '
               'own']
# documented default values of ``indent`` and ``newline``
BY_DEFAULT = {
    (0, False): (
        'brd.StackupSubLayer common.ColorRGBA common.Coordinate common.Font common.Justify common.Net dru.DesignRules '
        'footprint.Attributes footprint.DrillDefinition footprint.PadOptions wks.Polygon wks.TextSize wks.WksFont '
        'wks.WksFontSize zones.FillSettings zones.KeepoutSettings'
    ),
    (0, None): (
        'dru.Rule'
    ),
    (0, True): (
        'board.Board common.Effects footprint.Footprint libraries.LibTable schematic.Schematic symbol.SymbolLib '
        'wks.WorkSheet'
    ),
    (2, True): (
        'brd.Arc brd.GeneralSettings brd.Segment brd.SetupData brd.Target brd.Via common.Group common.Image '
        'common.PageSettings common.Stroke common.TitleBlock dim.Dimension dru.Constraint footprint.Model footprint.Pad '
        'fp.FpArc fp.FpCircle fp.FpCurve fp.FpLine fp.FpPoly fp.FpRect fp.FpText fp.FpTextBox gr.GrArc gr.GrCircle '
        'gr.GrCurve gr.GrLine gr.GrPoly gr.GrRect gr.GrText gr.GrTextBox libraries.Library sch.Arc sch.BusAlias '
        'sch.BusEntry sch.Circle sch.Connection sch.GlobalLabel sch.HierarchicalLabel sch.HierarchicalSheet '
        'sch.HierarchicalSheetProjectInstance sch.Junction sch.LocalLabel sch.NetclassFlag sch.NoConnect sch.PolyLine '
        'sch.Rectangle sch.SchematicSymbol sch.SymbolProjectInstance sch.Text sch.TextBox sy.SyTextBox symbol.Symbol '
        'wks.Bitmap wks.Line wks.Rect wks.Setup wks.TbText zones.Zone'
    ),
    (4, True): (
        'brd.LayerToken brd.PlotSettings brd.Stackup common.Fill common.Property common.RenderCache dim.DimensionFormat '
        'dim.DimensionStyle sch.HierarchicalPin sch.HierarchicalSheetInstance sch.HierarchicalSheetProjectPath '
        'sch.SymbolInstance sch.SymbolProjectPath symbol.SymbolPin zones.FillSegments zones.FilledPolygon '
        'zones.ZonePolygon'
    ),
    (6, True): (
        'brd.StackupLayer common.RenderCachePolygon sy.SyArc sy.SyCircle sy.SyCurve sy.SyPolyLine sy.SyRect sy.SyText'
    ),
    (8, True): (
        'symbol.SymbolAlternativePin'
    ),
}
BY_DEFAULT = {n: k for k, v in BY_DEFAULT.items() for n in v.split()}
NAMES = [n for n in specs.SPECS if n not in specs.NO_WRITE]
ALWAYS = ('zones.ZonePolygon', 'zones.FilledPolygon', 'zones.FillSegments')
NO_NEWLINE = ('dru.Rule',)


def values(text):
    return [t[:2] for t in sx.scan(text)]


def tail(text):
    return text[len(text.rstrip(' \t\n')):]


def items(g, ctx):
    start(g, *(('soup',) if g.chance(0.2) else ()))
    name, m = draw(g, NAMES)
    if m.a.get('subLayers') and m.cls == 'brd.StackupLayer' and g.chance(0.5):
        m = g.pick(m.a['subLayers'])
    obj = ops.make(m)
    base = ops.to_sexpr(obj)
    exp = values(base)
    indent, newline = BY_DEFAULT[m.cls]
    t = ops.to_sexpr(obj, indent=indent, **({} if newline is None else {'newline': newline}))
    if t != base:
        raise Violation(f'{m.cls} is written differently by default and with the documented defaults', text=t, default=base)
    opt = {'gr.GrPoly': 'pts_newline', 'footprint.Footprint': 'layerInFirstLine'}.get(m.cls)
    if opt and g.chance(0.3):
        # where the tokens are put, and nothing else
        plain = ops.to_sexpr(obj, **{opt: False})
        t = ops.to_sexpr(obj, **{opt: True})
        if plain != base:
            raise Violation(f'{m.cls} is written differently by default and with {opt}=False', text=plain, default=base)
        x, y = sx.tokenize_one(plain, 'the text'), sx.tokenize_one(t, 'the text')
        if sorted(map(repr, x)) != sorted(map(repr, y)):
            raise Violation(f'{m.cls}: {opt}=True changes the tokens', text=t, default=base)
    k = g.pick((0, 2, 1, 3, 4, 6, 8, 17, 40))
    out = {}
    for nl in ((None,) if m.cls in NO_NEWLINE else (False, True)):
        if nl is None:
            t = ops.to_sexpr(obj, indent=k)
        elif g.chance(0.3):
            t = ops.guarded('writing', obj.to_sexpr, k, nl)
        else:
            t = ops.to_sexpr(obj, indent=k, newline=nl)
        what = f'{m.cls} written with indent={k}, newline={nl}'
        d = dict(text=t, default=base)
        if values(t) != exp:
            raise Violation(f'{what}: the tokens differ from those written by default', **d)
        lead = t[:len(t) - len(t.lstrip(' \t\n'))]
        if exp and lead != ' ' * k:
            raise Violation(f'{what}: the text starts with {lead!r}', **d)
        if m.cls in ALWAYS:
            want = '\n'
        elif m.cls == 'dru.DesignRules':
            want = None
        else:
            want = '' if nl is False else '\n'
        if want is not None and tail(t) != want:
            raise Violation(f'{what}: the text ends in {tail(t)!r}', **d)
        out[nl] = t
    if len(out) == 2 and m.cls not in ALWAYS and out[True] != out[False] + '\n':
        raise Violation(f'{m.cls}: asking for a line end changes more than that', with_it=out[True], without=out[False],
                        where=first_difference(out[True], out[False] + '\n'))
    again = ops.to_sexpr(obj)
    if again != base:
        raise Violation(f'{m.cls}: the default text changed', first=base, second=again)
    return (name, k, base), len(exp) >= 6, f'{name} indent={k}: {out[next(iter(out))][:400]}'


STREAMS = [Stream('items', items, 90000, 2500000)]
