"""C14: reading and writing have no side effects, objects share nothing"""
import copy
from .common import *
from harness import graph

TITLE = 'Reading and writing have no side effects and objects share no state'
RULE = ('For models of every class: writing twice gives the same text and leaves the object as it was (stream write); reading '
        'leaves the parsed expression as it was, reading it twice gives equal objects that share no mutable part, and changing '
        'one everywhere (no part of it being shared by two of its places) changes neither the other, nor the expression, nor newly made objects; the same for two expressions parsed from the same text (stream read); the same for '
        'default and newly created objects (stream fresh); random histories of reading, writing, creating and changing over a '
        'pool of objects leave every other object with the text it had (stream histories). Non-trivial: the object holds '
        'nested objects or lists, histories have at least 4 steps; distinct by text.')
ASSUMPTIONS = [TRUST, DOMAIN]
NAMES = [n for n in specs.SPECS if n not in specs.NO_WRITE]


def unchanged(before, obj, what, text=''):
    after = graph.fingerprint(obj)
    if before != after:
        raise Violation(f'{what}: {graph.difference(before, after)}', text=text)


def write(g, ctx):
    start(g)
    name, m = draw(g, NAMES)
    obj = ops.make(m) if g.chance(0.5) else ops.read_text(m, sx.render(m.tree('r', g), g))
    before = graph.fingerprint(obj)
    kw = {} if g.chance(0.6) else {'indent': g.below(9)}
    t1 = ops.to_sexpr(obj, **kw)
    unchanged(before, obj, 'writing changed the object', t1)
    if g.chance(0.4):
        ops.to_sexpr(obj, indent=g.below(7))
    t2 = ops.to_sexpr(obj, **kw)
    if t1 != t2:
        raise Violation('writing the same object twice gives different texts', first=t1, second=t2,
                        where=first_difference(t1, t2))
    unchanged(before, obj, 'writing changed the object', t1)
    return t1, len(list(graph.children(obj))) > 0, ops.describe(m, t1)


def check_fresh(clsname):
    cls = model.CLASSES[clsname]
    o = ops.guarded(f'constructing a {clsname}', cls)
    d = model.compare(o, model.M(clsname, None), clsname.split('.')[1])
    if d:
        raise Violation(f'a newly made object is affected by changes to another one: {d}')


def shared(a, b, what):
    ca, cb = graph.containers(a), graph.containers(b)
    for i, p in ca.items():
        if i in cb:
            raise Violation(f'{what} share {p} / {cb[i]}')


def alone(o, what, text=''):
    """No part of the object is also another part of it"""
    r = graph.twice(o)
    if r:
        raise Violation(f'{what}: {r} are the same object', text=text)


def read(g, ctx):
    start(g)
    name, m = draw(g, list(specs.SPECS))
    text = sx.render(m.tree('r', g), g)
    cls = ops.cls_of(m)
    exp = ops.parse(text)
    keep = copy.deepcopy(exp)
    a = ops.from_sexpr(cls, exp)
    if repr(exp) != repr(keep):
        raise Violation('reading changed the parsed expression it was given', text=text, after=repr(exp))
    b = ops.from_sexpr(cls, exp)
    fa, fb = graph.fingerprint(a), graph.fingerprint(b)
    if fa != fb:
        raise Violation(f'reading the same expression twice gives different objects: {graph.difference(fa, fb)}', text=text)
    alone(a, 'two parts of an object that was read', text)
    shared(a, b, 'two objects read from the same expression')
    shared(a, exp, 'an object and the expression it was read from')
    types = {type(o).__name__ for o in graph.all_objects(a)}
    graph.wreck(a)
    unchanged(fb, b, 'changing one object changed another one read from the same expression', text)
    if repr(exp) != repr(keep):
        raise Violation('changing the object changed the expression it was read from', text=text)
    for n in model.DEFAULTS:
        if n.split('.')[1] in types and n != 'zones.Hatch':
            check_fresh(n)
    c = ops.from_sexpr(cls, exp)
    unchanged(fb, c, 'after changing an object, the same expression is read differently', text)
    again = ops.parse(text)
    if repr(again) != repr(keep):
        raise Violation('parsing the same text again gives another expression', text=text, after=repr(again)[:2000])
    shared(exp, again, 'two expressions parsed from the same text')
    alone(exp, 'two parts of a parsed expression', text)
    graph.wreck(exp)
    if repr(again) != repr(keep):
        raise Violation('changing a parsed expression changed another one parsed from the same text', text=text,
                        after=repr(again)[:2000])
    unchanged(fb, b, 'changing the expression changed an object read from it', text)
    third = ops.parse(text)
    if repr(third) != repr(keep):
        raise Violation('after changing a parsed expression, the same text is parsed differently', text=text,
                        after=repr(third)[:2000])
    return text, len(types) > 1 or len(graph.containers(b)) > 1, ops.describe(m, text)


def _creator(g):
    c = g.below(7)
    K = model.CLASSES
    if c == 0:
        t = g.pick(('smd', 'through_hole', 'other'))
        return f'Footprint.create_new({t})', lambda: K['footprint.Footprint'].create_new('lib:x', 'v', t)
    if c == 1:
        return 'Symbol.create_new', lambda: K['symbol.Symbol'].create_new('x', 'R', 'v')
    name = ('board.Board', 'schematic.Schematic', 'wks.WorkSheet', 'dru.DesignRules', 'libraries.LibTable')[c - 2]
    return f'{name}.create_new', K[name].create_new


CONSTRUCTIBLE = sorted(model.DEFAULTS)


def fresh(g, ctx):
    if g.chance(0.35):
        what, f = _creator(g)
    else:
        name = g.pick(CONSTRUCTIBLE)
        what, f = name, model.CLASSES[name]
    a = ops.guarded(what, f)
    b = ops.guarded(what, f)
    fb = graph.fingerprint(b)
    strip = {'tedit'}
    alone(a, f'two parts of a new object ({what})')
    shared(a, b, f'two new objects ({what})')
    types = {type(o).__name__ for o in graph.all_objects(a)}
    graph.wreck(a)
    unchanged(fb, b, f'changing one new object changed another one ({what})')
    for n in model.DEFAULTS:
        if n.split('.')[1] in types:
            check_fresh(n)
    c = ops.guarded(what, f)
    if hasattr(b, 'tedit'):
        b.tedit = c.tedit = None
    unchanged(graph.fingerprint(b), c, f'changing one new object changed those made later ({what})')
    return what, len(types) > 1, what


HIST = [n for n in NAMES if n != 'dru.DesignRules']


def histories(g, ctx):
    """Operations on one object do not affect the others"""
    start(g)
    pool = []          # [object, text]
    log = []
    for _ in range(2 + g.count(0, 10, 0.8)):
        c = g.below(5) if pool else g.below(2)
        if c == 0:
            name, m = draw(g, HIST)
            o = ops.make(m)
            pool.append([o, ops.to_sexpr(o)])
            log.append(f'build {m.cls}')
        elif c == 1:
            name, m = draw(g, HIST)
            o = ops.read_text(m, sx.render(m.tree('r', g), g))
            pool.append([o, ops.to_sexpr(o)])
            log.append(f'read {m.cls}')
        elif c == 2:
            o, t = g.pick(pool)
            o2 = ops.from_sexpr(type(o), ops.parse(t))
            pool.append([o2, ops.to_sexpr(o2)])
            log.append(f'reread {type(o).__name__}')
        elif c == 3:
            i = g.below(len(pool))
            graph.wreck(pool[i][0])
            log.append(f'change {type(pool[i][0]).__name__}')
            del pool[i]
        else:
            o = pool[g.below(len(pool))]
            ops.to_sexpr(o[0], indent=g.below(5))
            log.append('write')
        for o, t in pool:
            now = ops.to_sexpr(o)
            if now != t:
                raise Violation(f'after {log}, an object that was not touched is written differently', first=t, second=now,
                                where=first_difference(t, now))
    return tuple(log) + tuple(t for _, t in pool), len(log) >= 4, str(log)


STREAMS = [Stream('write', write, 30000, 800000), Stream('read', read, 30000, 800000),
           Stream('fresh', fresh, 8000, 50000), Stream('histories', histories, 5000, 120000)]
