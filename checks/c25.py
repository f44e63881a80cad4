"""C25: objects are values - construction, comparison, copies, subclasses"""
import copy
import math
import pickle
from .common import *
from harness import graph
from harness.model import DEFAULTS, conv

TITLE = 'Objects are values: construction, comparison and copies go by content'
RULE = ('Models of every class are turned into objects by keyword or positional arguments of the constructor, and compared '
        'attribute by attribute with the model (stream construct); two objects of the same model, and copies (copy, deepcopy, '
        'pickle, from another read) have to be equal and written alike, and must not be equal any more when a single attribute '
        'or list item at a drawn depth is changed, until that is undone; a deep copy stays as it is when the original is '
        'changed everywhere (stream compare); reading and creating through a subclass gives objects of the subclass with the same '
        'content (stream subclass). Non-trivial: at least 3 attributes set; distinct by class and text.')
ASSUMPTIONS = [TRUST, DOMAIN, 'Only public attributes count; the remembered file path is not part of the comparison']
NAMES = list(specs.SPECS)


def construct(m, g):
    """The object of a model, through the constructors"""
    def val(v):
        if isinstance(v, model.M):
            return construct(v, g)
        if isinstance(v, list):
            return [val(x) for x in v]
        return conv(v)
    fields = list(DEFAULTS[m.cls])
    a = {k: val(v) for k, v in m.a.items() if k in fields}
    rest = {k: v for k, v in m.a.items() if k not in fields}
    pos = []
    if g.chance(0.5):
        for k in fields:
            if k not in a:
                break
            pos.append(a.pop(k))
    o = ops.guarded(f'constructing a {m.cls} with arguments', model.CLASSES[m.cls], *pos, **a)
    for k, v in rest.items():
        setattr(o, k, conv(v))
    return o


def made(g, ctx):
    start(g)
    name, m = draw(g, NAMES)
    o = construct(m, g)
    ops.check_object(o, m, 'made by the constructor')
    o2 = ops.make(m)
    ops.check_equal(o, o2, 'made by the constructor and by setting the attributes')
    if name in specs.NO_WRITE:
        text = repr(m.tree('w'))
    else:
        text = ops.to_sexpr(o)
        if text != ops.to_sexpr(o2):
            raise Violation('an object made by the constructor is written differently', first=text, second=ops.to_sexpr(o2))
        got, _ = ops.written(o)
        ops.check_tree(got, m.tree('w'), 'what is written differs from the object', text)
    return (name, text), len(m.a) >= 3, ops.describe(m, text)


SKIP = ('filePath',)


def spots(o):
    """Every place of a graph that holds a value: (container, key, value)"""
    out = []

    def go(v):
        if graph.is_obj(v):
            parts = [(k, x) for k, x in graph.attributes(v) if k not in SKIP]
        elif isinstance(v, list):
            parts = list(enumerate(v))
        elif isinstance(v, dict):
            parts = list(v.items())
        else:
            return
        for k, x in parts:
            out.append((v, k, x))
            go(x)
    go(o)
    return out


def setter(c, k, v):
    if graph.is_obj(c):
        setattr(c, k, v)
    else:
        c[k] = v


def other(v, g):
    """A value that differs from v, as little as possible"""
    if isinstance(v, bool):
        return g.pick((not v, None))
    if isinstance(v, int):
        return g.pick((v + 1, v - 1, -v or 5, None, v + 0.5 if abs(v) < 1 << 50 else v + 1, str(v)))
    if isinstance(v, float):
        return g.pick((math.nextafter(v, math.inf), math.nextafter(v, -math.inf), -v or 5, None))
    if isinstance(v, str):
        c = [v + ' ', v + 'x', None] + ([v[:-1], ''] if v else [])
        return g.pick(c + [x for x in (v.upper(), v.lower(), v.strip()) if x != v])
    if v is None:
        return g.pick(('', 0, False, 'x', []))
    if isinstance(v, list):
        c = [v + ['x'], None]
        if v:
            c += [v[:-1], v[1:], v + v[:1]]
            if v[0] != v[-1]:
                c.append(v[::-1])
        return g.pick(c)
    if isinstance(v, dict):
        return g.pick(({**v, 'x': 'y'}, None))
    return None


def compare(g, ctx):
    start(g)
    name, m = draw(g, NAMES)
    writable = name not in specs.NO_WRITE
    a = ops.make(m)
    c = g.below(5)
    if c == 0:
        b, what = ops.make(m), 'two objects with the same content'
    elif c == 1:
        b, what = ops.guarded('copying', copy.deepcopy, a), 'an object and its deep copy'
    elif c == 2:
        b, what = ops.guarded('pickling', lambda: pickle.loads(pickle.dumps(a, g.below(6)))), 'an object and its pickled copy'
    elif c == 3:
        b, what = ops.guarded('copying', copy.copy, a), 'an object and its copy'
    else:
        exp = ops.parse(sx.render(m.tree('r', g), g))
        a = ops.from_sexpr(ops.cls_of(m), exp)
        b, what = ops.from_sexpr(ops.cls_of(m), exp), 'two objects read from the same expression'
    text = ops.to_sexpr(a) if writable else repr(a)
    if type(a) is not type(b):
        raise Violation(f'{what} have different types')

    def equal(x, y):
        e, n = ops.guarded('comparing', lambda: (x == y, x != y))
        if e is not True and e is not False or n is e:
            raise Violation(f'{what}: == gives {e!r}, != gives {n!r}', text=text)
        return e
    d = graph.difference(graph.fingerprint(a), graph.fingerprint(b))
    if d:
        raise Violation(f'{what} differ: {d}', text=text)
    if not equal(a, b) or not equal(b, a):
        raise Violation(f'{what} are not equal', text=text)
    if writable and ops.to_sexpr(b) != text:
        raise Violation(f'{what} are written differently', first=text, second=ops.to_sexpr(b))
    if c == 3:
        if graph.attributes(a):
            k, v = g.pick(graph.attributes(a))
            if k not in SKIP:
                setattr(a, k, other(v, g))
                if getattr(b, k) is not v or equal(a, b):
                    raise Violation(f'{what}: setting .{k} of one sets that of the other', text=text)
        return (name, text), len(m.a) >= 3, ops.describe(m, text)
    graph.containers(a)
    pa, pb = graph.containers(a), graph.containers(b)
    both = [p for i, p in pa.items() if i in pb]
    if both:
        raise Violation(f'{what} share {both[0]}', text=text)
    sp = spots(b)
    for _ in range(min(len(sp), 3)):
        owner, k, v = sp[g.below(len(sp))]
        w = other(v, g)
        if type(w) is type(v) and w == v or not w and not v and w == v:
            continue
        setter(owner, k, w)
        if equal(a, b):
            raise Violation(f'objects are equal although {type(owner).__name__} [{k}] is {v!r:.100} in one and {w!r:.100} in the '
                            'other', text=text)
        if isinstance(v, (int, float)) and not isinstance(v, bool) and float(v) == v:
            # the same number, in another type
            setter(owner, k, int(v) if isinstance(v, float) and v == int(v) else float(v))
            if not equal(a, b):
                raise Violation(f'objects differ although {type(owner).__name__} [{k}] is {v!r} in one and as a {type(getattr(owner, k, v)).__name__} '
                                'in the other', text=text)
        setter(owner, k, v)
        if not equal(a, b):
            raise Violation(f'{what} are not equal any more after a change was undone', text=text)
    name2, m2 = draw(g, NAMES)
    if m2.cls != m.cls:
        x = ops.make(m2)
        if ops.guarded('comparing', lambda: a == x) is True:
            raise Violation(f'a {m.cls} equals a {m2.cls}', text=text)
    for x in (None, 'x', 5, [], {}):
        if ops.guarded('comparing', lambda: a == x) is not False:
            raise Violation(f'a {m.cls} equals {x!r}', text=text)
    before = graph.fingerprint(b)
    graph.wreck(a)
    if graph.fingerprint(b) != before:
        raise Violation(f'{what}: changing one changes the other: {graph.difference(before, graph.fingerprint(b))}', text=text)
    return (name, text), len(m.a) >= 3, ops.describe(m, text)


SUBS = {}


def sub_of(cls):
    if cls not in SUBS:
        # found under its name, so that it can be pickled
        name = 'My' + cls.__module__.replace('.', '_') + cls.__name__
        SUBS[cls] = globals()[name] = type(name, (cls,), {'extra': 'mine', '__module__': __name__})
    return SUBS[cls]


def content(o):
    return graph.fingerprint(o)[1:]


def subclass(g, ctx):
    start(g)
    c = g.below(4)
    if c == 0:
        doc = specs.document_of(g, list(specs.DOCUMENTS))
        cls = model.CLASSES[doc]
        sub = sub_of(cls)
        m = specs.SPECS[doc](g)
        d = ctx.scratch()
        p = f'{d}/a{ops.SUFFIX[doc]}'
        text = ops.file_text(m, m.tree('r', g), g)
        ops.put(p, text)
        a, b = ops.load(cls, p), ops.load(sub, p)
    else:
        name, m = draw(g, NAMES)
        cls = ops.cls_of(m)
        sub = sub_of(cls)
        text = sx.render(m.tree('r', g), g)
        a, b = ops.read_text(m, text), ops.from_sexpr(sub, ops.parse(text))
    if type(a) is not cls or type(b) is not sub:
        raise Violation(f'reading through {sub.__name__} gives a {type(b).__name__}', text=text)
    if content(a) != content(b):
        raise Violation(f'reading through a subclass gives other content: {graph.difference(content(a), content(b))}', text=text)
    if m.cls not in specs.NO_WRITE and ops.to_sexpr(a) != ops.to_sexpr(b):
        raise Violation('an object of a subclass is written differently', first=ops.to_sexpr(a), second=ops.to_sexpr(b))
    how, f = g.pick((('copy', copy.copy), ('deep copy', copy.deepcopy), ('pickled copy', lambda x: pickle.loads(pickle.dumps(x)))))
    k = ops.guarded('copying', f, b)
    if type(k) is not sub or content(k) != content(b) or ops.guarded('comparing', lambda: k == b) is not True:
        raise Violation(f'the {how} of an object of a subclass differs from it', text=text, copy=repr(k)[:1000])
    return (m.cls, text), len(m.a) >= 3, ops.describe(m, text)


STREAMS = [Stream('construct', made, 20000, 500000), Stream('compare', compare, 30000, 800000),
           Stream('subclass', subclass, 15000, 400000)]
