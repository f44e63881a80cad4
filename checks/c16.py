"""C16: library identifiers"""
from .common import *

TITLE = 'Library identifiers split, join and propagate consistently'
RULE = ('Identifiers are assembled from nicknames, entry names and unit/style numbers (with colons, underscores, digits and '
        'leading zeros at every place), set on footprints, placed symbols and library symbols with units, edited in part, and '
        'read back as a whole, in parts, from the units and through files. Non-trivial: a nickname, a colon, an underscore or '
        'units are involved; distinct by identifiers.')
ASSUMPTIONS = [DOMAIN, 'Identifiers are non-empty and contain no line break']
CH = ('a', 'R', '1', '0', '_', ':', ' ', '-', '.', 'Ω', '"', '(', ')', '/', '_1', '_0', '_1_1', '0402', '_0402_1005', '12',
      '_10_2', '_01', '+', '~', '{', '}', '&')


def part(g, colon=False):
    if g.chance(0.3):
        return g.pick(specs.NICKS + specs.ENTRIES[:12])
    if g.chance(0.15):
        s = specs.name_text(g)
        return s if colon else s.replace(':', '').rstrip('\\') or 'x'
    s = ''.join(g.pick(CH) for _ in range(1 + g.count(0, 5, 0.6)))
    if not colon:
        s = s.replace(':', '')
    return s or 'x'


def expected(ident, units):
    """(nickname, entry, unit, style) of an identifier, by an independent reading of the documented format"""
    k = ident.find(':', 1)
    if k > 0 and k < len(ident) - 1:
        return ident[:k], ident[k + 1:], None, None
    if units:
        p = ident.rsplit('_', 2)
        if len(p) == 3 and p[0] and all(canonical(x) for x in p[1:]):
            return None, p[0], int(p[1]), int(p[2])
    return None, ident, None, None


def canonical(x):
    return x != '' and all(c in '0123456789' for c in x) and (x == '0' or x[0] != '0')


def parts(o):
    return (o.libraryNickname, o.entryName, getattr(o, 'unitId', None), getattr(o, 'styleId', None))


def setid(o, ident):
    def f():
        o.libId = ident
    ops.guarded('setting an identifier', f)


def getid(o):
    return ops.guarded('getting an identifier', lambda: o.libId)


def identifier(g):
    c = g.below(4)
    if c == 0:
        return part(g)
    if c == 1:
        return f'{part(g)}:{part(g, True)}'
    if c == 2:
        return f'{part(g)}_{g.pick((0, 1, 2, 10, 123))}_{g.pick((0, 1, 2, 10))}'
    return part(g, True)


def new(kind):
    return model.CLASSES[kind]()


def whole(g, ctx):
    """Setting and getting an identifier on one object, repeatedly"""
    kind = g.pick(('footprint.Footprint', 'sch.SchematicSymbol', 'symbol.Symbol'))
    o = new(kind)
    ids = [identifier(g) for _ in range(1 + g.count(0, 3))]
    for ident in ids:
        setid(o, ident)
        got = getid(o)
        if got != ident:
            raise Violation(f'{kind}: set {ident!r}, got back {got!r}')
        exp = expected(ident, kind == 'symbol.Symbol')
        if parts(o) != exp:
            raise Violation(f'{kind}: {ident!r} was split into {parts(o)}, expected {exp}')
    return (kind, tuple(ids)), any(c in ids[-1] for c in ':_'), f'{kind} {ids}'


def assembled(g, ctx):
    """Setting the parts and getting the whole"""
    kind = g.pick(('footprint.Footprint', 'sch.SchematicSymbol', 'symbol.Symbol'))
    o = new(kind)
    nick = part(g) if g.chance(0.6) else g.pick((None, ''))
    e = part(g, bool(nick))
    o.libraryNickname, o.entryName = nick, e
    exp = f'{nick}:{e}' if nick else e
    if getid(o) != exp:
        raise Violation(f'{kind}: nickname {nick!r} and entry {e!r} give {getid(o)!r}')
    if g.chance(0.5):
        n2 = part(g)
        o.libraryNickname = n2
        if getid(o) != f'{n2}:{e}':
            raise Violation(f'{kind}: after changing the nickname to {n2!r}, the identifier is {getid(o)!r}')
        o.libraryNickname = None
        if getid(o) != e:
            raise Violation(f'{kind}: after removing the nickname, the identifier is {getid(o)!r}, expected {e!r}')
    return (kind, nick, e), bool(nick), f'{kind} {nick!r} {e!r}'


def add_unit(g, s, loose, nick):
    u = new('symbol.Symbol')
    a, b = g.pick((0, 1, 2, 12)), g.pick((0, 1, 2))
    if loose:
        a = b = None
        u.entryName = g.pick(('old', 'unit', ''))
        u.libraryNickname = nick
    elif g.chance(0.5):
        setid(u, f'old_{a}_{b}')
    else:
        u.entryName, u.unitId, u.styleId = 'old', a, b
    s.units.append(u)
    return a, b


def units(g, ctx):
    """Renaming a symbol renames its units; everything is read back from a library"""
    start(g)
    lib = new('symbol.SymbolLib')
    lib.version = 20211014
    lib.generator = 'kiutils'
    state = []
    loose = g.chance(0.1)           # units that have no numbers (yet)
    nick = g.pick(specs.NICKS) if loose and g.chance(0.3) else None     # and belong to a library
    for _ in range(1 + g.count(0, 2)):
        s = new('symbol.Symbol')
        first = f'{part(g)}:{part(g)}' if g.chance(0.5) else plain_entry(g)
        us = []
        if g.chance(0.3):           # units found under another name in a file
            if not loose:
                us = [(g.pick((0, 1, 2, 12)), g.pick((0, 1, 2))) for _ in range(g.count(0, 3, 0.7))]
            inner = ' '.join(f'(symbol "old_{a}_{b}")' for a, b in us)
            s = ops.from_sexpr(type(s), ops.parse(f'(symbol {sx.quote(g.pick((first, "other")))} {inner} )'))
        elif g.chance(0.2):
            setid(s, g.pick((first, 'other')))
        for _ in range(g.count(0, 3, 0.7)):
            us.append(add_unit(g, s, loose, nick))
        setid(s, first)
        lib.symbols.append(s)
        state.append([s, first, us])
    gone = []
    for _ in range(g.count(0, 4)):
        k = g.pick(state)
        s = k[0]
        c = g.below(8)
        if c == 1:
            k[2].append(add_unit(g, s, loose, nick))
        elif c == 2 and s.units:
            g.pick(s.units).entryName = g.pick(('stray', 'old', 'x_1_1'))
        elif c == 3:
            s.entryName = g.pick(('stray', 'x'))
        elif c == 4:
            s.libraryNickname = g.pick((None, 'stray'))
        elif c == 5 and s.units:
            i = g.below(len(s.units))
            u = s.units.pop(i)
            gone.append((u, getid(u)))
            k[2].pop(i)
        if c == 0 or g.chance(0.5):
            k[1] = f'{part(g)}:{part(g)}' if g.chance(0.4) else plain_entry(g)
        setid(s, k[1])

    def check(symbols, when):
        if len(symbols) != len(state):
            raise Violation(f'{when}: {len(symbols)} symbols instead of {len(state)}')
        for s, (_, ident, us) in zip(symbols, state):
            if getid(s) != ident:
                raise Violation(f'{when}: symbol {ident!r} is called {getid(s)!r}')
            e = expected(ident, False)[1]
            names = [getid(u) for u in s.units]
            if names != [f'{e}_{a}_{b}' if a is not None else f'{nick}:{e}' if nick else e for a, b in us]:
                raise Violation(f'{when}: units of {ident!r} are called {names}, expected unit/style {us}')
            if [(u.unitId, u.styleId) for u in s.units] != us:
                raise Violation(f'{when}: units of {ident!r} have ids {[(u.unitId, u.styleId) for u in s.units]}, expected {us}')
    check(lib.symbols, 'after renaming')
    for u, name in gone:
        if getid(u) != name:
            raise Violation(f'a unit that was taken out as {name!r} is called {getid(u)!r} now')
    if loose:
        key = [(i, us) for _, i, us in state]
        return key, any(us for _, us in key), str(key)
    p = f'{ctx.scratch()}/a.kicad_sym'
    ops.save(lib, p)
    names = [t[1][1] for t in sx.tokenize_one(ops.get(p))[3:]]
    if names != [i for _, i, _ in state]:
        raise Violation(f'the library names its symbols {names}, expected {[i for _, i, _ in state]}')
    check(ops.load(model.CLASSES['symbol.SymbolLib'], p).symbols, 'after saving and loading')
    key = [(i, us) for _, i, us in state]
    return key, any(us for _, us in key), str(key)


def plain_entry(g):
    """An entry name that is no unit identifier"""
    e = part(g)
    return e if expected(e, True)[2] is None else e + 'x'


def read(g, ctx):
    """Identifiers of items read from text"""
    kind = g.below(3)
    ident = identifier(g)
    if kind == 0:
        if g.chance(0.2):
            n = g.below(100000)
            text, ident = f'({g.pick(("footprint", "module"))} {n} (layer "F.Cu"))', str(n)
        else:
            text = f'(footprint {sx.quote(ident)} (layer "F.Cu"))'
        o = ops.from_sexpr(model.CLASSES['footprint.Footprint'], ops.parse(text))
        exp = expected(ident, False)
    elif kind == 1:
        text = f'(symbol (lib_id {sx.quote(ident)}) (at 1 2 0) (unit 1) (in_bom yes) (on_board yes) (uuid u))'
        o = ops.from_sexpr(model.CLASSES['sch.SchematicSymbol'], ops.parse(text))
        exp = expected(ident, False)
    else:
        ident = plain_entry(g) if g.chance(0.5) else f'{part(g)}:{part(g)}'
        text = f'(symbol {sx.quote(ident)} (in_bom yes))'
        o = ops.from_sexpr(model.CLASSES['symbol.Symbol'], ops.parse(text))
        exp = expected(ident, False)
    if getid(o) != ident or str(o.entryName) != exp[1] or o.libraryNickname != exp[0]:
        raise Violation(f'{text} was read as {getid(o)!r}: {parts(o)}')
    return text, any(c in ident for c in ':_'), text


def lookalike(g, ctx):
    """Top level symbols named like units: a symbol that has properties or units of its own is not a unit"""
    name = f'{part(g)}_{g.pick((0, 1, 2, 10, 402, 1005))}_{g.pick((0, 1, 2, 1005))}'
    props, subs = g.count(0, 2), [(g.pick((0, 1, 2, 12)), g.pick((0, 1, 2))) for _ in range(g.count(0, 3))]
    body = ''.join(f' (property "k{i}" "v" (id {i}) (at 0 0 0))' for i in range(props))
    body += ''.join(f' (symbol {sx.quote(f"{name}_{a}_{b}")})' for a, b in subs)
    text = f'(symbol {sx.quote(name)} (in_bom yes){body})'
    c = g.below(3)
    if c == 0:
        o = ops.from_sexpr(model.CLASSES['symbol.Symbol'], ops.parse(text))
    elif c == 1:
        p = f'{ctx.scratch()}/b.kicad_sym'
        ops.put(p, f'(kicad_symbol_lib (version 20211014) (generator x) {text})\n')
        o = ops.load(model.CLASSES['symbol.SymbolLib'], p).symbols[0]
    else:
        p = f'{ctx.scratch()}/b.kicad_sch'
        ops.put(p, f'(kicad_sch (version 20211014) (generator x) (lib_symbols {text}))\n')
        o = ops.load(model.CLASSES['schematic.Schematic'], p).libSymbols[0]
    exp = (None, name, None, None) if props or subs else expected(name, True)
    if parts(o) != exp or getid(o) != name:
        raise Violation(f'{text} was read as {parts(o)}, expected {exp}')
    got = [(getid(u),) + parts(u) for u in o.units]
    want = [(f'{name}_{a}_{b}', None, name, a, b) for a, b in subs]
    if got != want:
        raise Violation(f'{text}: units were read as {got}, expected {want}')
    if props or subs:
        k = plain_entry(g)
        setid(o, k)
        if [getid(u) for u in o.units] != [f'{k}_{a}_{b}' for a, b in subs]:
            raise Violation(f'{text}: renamed to {k!r}, the units are called {[getid(u) for u in o.units]}')
    return (c, text), bool(props or subs), text


def content(g, ctx):
    """Renaming a complete object changes its identifier (and those of its units), and nothing else of what is written"""
    start(g)
    name = g.pick(('footprint.Footprint', 'sch.SchematicSymbol', 'symbol.Symbol', 'symbol.Symbol'))
    m = specs.SPECS[name](g)
    o = ops.make(m) if g.chance(0.6) else ops.read_text(m, sx.render(m.tree('r', g), g))
    if g.chance(0.3):
        for u in getattr(o, 'units', ()):
            u.extends = None if g.chance(0.5) else part(g)
    before, _ = ops.written(o)
    ids = [f'{part(g)}:{part(g)}' if g.chance(0.5) else plain_entry(g) for _ in range(1 + g.count(0, 3))]
    for ident in ids:
        setid(o, ident)
    got, text = ops.written(o)
    exp = rename(before, ids[-1], name)
    ops.check_tree(got, exp, f'after renaming to {ids}', text)
    again = ops.from_sexpr(type(o), ops.parse(text))
    ops.check_tree(ops.written(again)[0], exp, f'after renaming to {ids}, writing and reading', text)
    return (text, tuple(ids)), any(c in ids[-1] for c in ':_'), f'{name} {ids}'


def rename(tree, ident, name):
    """The tree of an object whose identifier is another one"""
    out = list(tree)
    if name == 'sch.SchematicSymbol':
        k = [i for i, t in enumerate(out) if isinstance(t, list) and t[0] == ('s', 'lib_id')]
        out[k[0]] = [out[k[0]][0], ('q', ident)]
        return out
    out[1] = ('q', ident)
    if name == 'symbol.Symbol':
        e = expected(ident, False)[1]
        for i, t in enumerate(out):
            if isinstance(t, list) and t[0] == ('s', 'symbol'):
                a, b = t[1][1].rsplit('_', 2)[1:]
                out[i] = [t[0], ('q', f'{e}_{a}_{b}')] + t[2:]
    return out


STREAMS = [Stream('content', content, 15000, 400000), Stream('whole', whole, 40000, 1000000), Stream('assembled', assembled, 20000, 500000),
           Stream('units', units, 15000, 400000), Stream('read', read, 20000, 500000),
           Stream('lookalike', lookalike, 15000, 400000)]
