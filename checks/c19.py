"""C19: a failed save destroys nothing"""
import os
from .common import *
from .c22 import places as slots

TITLE = 'A save that fails leaves existing files as they were'
RULE = ('A generated document is saved; then one of its nested objects, at a drawn depth, is made impossible to write (replaced '
        'by an object whose text cannot be generated, or by something that is no such object; plain values likewise), or a mandatory part is removed, or the target cannot be opened, or the '
        'encoding is unknown or cannot represent the text. Saving, over an existing file or to a new path, has to raise, every '
        'file keeps its bytes and no file appears; after undoing the damage the save succeeds. Non-trivial: the damage lies below the top level; distinct by '
        'document and place.')
ASSUMPTIONS = [TRUST, 'Failures while writing the bytes themselves (disk full) are outside of the property']


ERRORS = (ValueError, TypeError, AttributeError, KeyError, IndexError, RuntimeError, NotImplementedError, Exception, OSError,
          AssertionError, ZeroDivisionError, UnicodeError, StopIteration, LookupError, ArithmeticError, RecursionError)


class Boom:
    """Stands for an object whose text cannot be generated: whatever is done to get it raises the error"""
    def __init__(self, error):
        self.__dict__['_error'] = error

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise self.__dict__['_error']('boom')

    def __str__(self):
        raise self.__dict__['_error']('boom')

    __repr__ = __str__
    __format__ = lambda self, spec: str(self)


def written(m, out):
    """The parts of a model that the file holds"""
    def walk(x):
        if isinstance(x, model.M):
            written(x, out)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    out.add(id(m))
    for e in m.el:
        walk(e.w)
    return out


def places(m):
    """(path of the owner, attribute, index or None) of every nested part that the file holds"""
    known = written(m, set())
    out = []
    for s in slots(m):
        if s.kind == 'single':
            if id(s.items()) in known:
                out.append((s.path, s.attr, None))
        else:
            out += [(s.path, s.attr, i) for i, x in enumerate(s.items()) if id(x) in known]
    return out


def value_places(m, path=(), known=None):
    """The same for plain values"""
    known = known or written(m, set())
    out = [(path, k, None) for k in sorted(m.lv) if k not in m.rr and type(m.a[k]) in (str, int, float)] if id(m) in known else []
    for attr, v in m.a.items():
        if isinstance(v, model.M):
            out += value_places(v, path + (attr,), known)
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, model.M):
                    out += value_places(x, path + (attr, i), known)
    return out


def snapshot(d):
    out = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), 'rb') as h:
            out[f] = h.read()
    return out


def situation(g, d, p, o):
    """What is at the target before: the document itself, something else, or nothing"""
    c = g.below(3)
    if c == 0:
        ops.save(o, p)
    elif c == 1:
        ops.put(p, 'something else')
    if g.chance(0.3):
        ops.put(f'{d}/neighbour', 'precious')
    if g.chance(0.5):
        o.filePath = p


def broken(g, ctx):
    start(g)
    doc = specs.document_of(g, specs.DOCUMENTS)
    m = specs.SPECS[doc](g)
    d = ctx.scratch()
    p = f'{d}/a{ops.SUFFIX[doc]}'
    o = ops.make(m)
    situation(g, d, p, o)
    where = places(m)
    values = value_places(m)
    if not where and not values:
        raise Discard()
    scalar = bool(values) and (not where or g.chance(0.35))
    path, key, i = g.pick(values if scalar else where)
    depth = len(path)
    owner = model.follow(o, path)
    old = getattr(owner, key)
    keep = list(old) if isinstance(old, list) else old
    bad = Boom(g.pick(ERRORS))
    if not scalar and g.chance(0.3):
        bad = g.pick((None, 7, 'text', object()) if i is not None else (7, 'text', object()))
    if i is None:
        setattr(owner, key, bad)
    elif g.chance(0.5):
        old[i] = bad
    else:
        old.insert(g.pick((i, len(old))), bad)
    before = snapshot(d)
    remembered = o.filePath
    target = None if remembered else p
    if g.chance(0.3):
        target = f'{d}/a{ops.SUFFIX[doc]}'
    try:
        o.to_file(target, encoding='utf-8') if target else o.to_file(encoding='utf-8')
    except Exception:
        pass
    else:
        raise Violation(f'saving a {doc} whose {type(owner).__name__}.{key} cannot be written succeeded')
    after = snapshot(d)
    if after != before:
        raise Violation(f'a failed save of a {doc} ({type(owner).__name__}.{key} cannot be written) changed files: '
                        f'{ {k: v[:60] for k, v in after.items()} }', before=repr(before)[:1500])
    if o.filePath != remembered:
        raise Violation(f'a failed save of a {doc} changed its path from {remembered!r} to {o.filePath!r}')
    if i is None:
        setattr(owner, key, keep)
    else:
        old[:] = keep
    ops.save(o, p)
    t = ops.get(p)
    ops.check_tree(ops.file_tree(m, t), m.tree('w'), 'after the failed save, the repaired document', t)
    return (t, type(owner).__name__, key, i), depth > 0, f'{doc} {type(owner).__name__}.{key}[{i}] depth {depth}'


def mandatory(g, ctx):
    """Documented errors: parts that have to be there"""
    start(g)
    K = model.CLASSES
    c = g.below(4)
    if c == 0:
        m = specs.SPECS['board.Board'](g)
        z = specs.SPECS['zones.Zone'](g)
        o = ops.make(m)
        bad = ops.make(z)
        bad.layers = []
        o.zones.append(bad)
        what = 'a zone without layers'
    elif c == 1:
        m = specs.SPECS['board.Board'](g)
        o = ops.make(m)
        bad = ops.make(specs.SPECS['dim.Dimension'](g))
        bad.pts = []
        o.dimensions.append(bad)
        what = 'a dimension without points'
    elif c == 2:
        m = specs.SPECS[g.pick(('board.Board', 'schematic.Schematic'))](g)
        o = ops.make(m)
        o.paper.paperSize, o.paper.width, o.paper.height = 'User', g.pick((None, 5)), None
        what = 'a user defined paper without size'
    else:
        m = specs.SPECS['board.Board'](g)
        o = ops.make(m)
        bad = ops.make(specs.SPECS['gr.GrTextBox'](g))
        bad.angle, bad.start = 0, None
        o.graphicItems.append(bad)
        what = 'a text box without start'
    d = ctx.scratch()
    p = f'{d}/x'
    if g.chance(0.6):
        ops.put(p, 'precious')
    before = snapshot(d)
    try:
        o.to_file(p)
    except Exception:
        pass
    else:
        raise Discard()
    if snapshot(d) != before:
        raise Violation(f'refusing to save {what} changed the existing file', now=repr(snapshot(d))[:500])
    return (m.cls, what, str(len(g.rec))), True, f'{m.cls}: {what}'


def unreachable(g, ctx):
    """Targets that cannot be opened"""
    start(g)
    doc = specs.document_of(g, specs.DOCUMENTS)
    m = specs.SPECS[doc](g)
    o = ops.make(m)
    d = ctx.scratch()
    ops.put(f'{d}/x', 'precious')
    os.mkdir(f'{d}/dir')
    target = g.pick((f'{d}/dir', f'{d}/no/such/file', f'{d}/x/y', ''))
    try:
        o.to_file(target)
    except Exception:
        pass
    else:
        raise Violation(f'saving to {target!r}, which cannot be opened, succeeded')
    if sorted(os.listdir(d)) != ['dir', 'x'] or os.listdir(f'{d}/dir') or ops.get(f'{d}/x') != 'precious':
        raise Violation(f'a failed save to {target!r} changed files', listing=str(os.listdir(d)))
    return (doc, target[len(d):], len(g.rec)), True, f'{doc} to {target[len(d):]}'


ENCODINGS = ('ascii', 'latin-1', 'cp1252', 'cp437', 'iso8859-15', 'koi8-r', 'shift_jis', 'gb2312', 'utf-8', 'utf-16',
             'no-such-encoding', 'utf-7x', 'rot13', 'base64', None)


def encoding(g, ctx):
    """Encodings that are unknown or cannot represent the text"""
    start(g)
    doc = specs.document_of(g, specs.DOCUMENTS)
    m = specs.SPECS[doc](g)
    o = ops.make(m)
    e = g.pick(ENCODINGS)
    repair = lambda: None
    if g.chance(0.25):
        # half of a surrogate pair: no encoding has it
        where = [(path, k) for path, k, _ in value_places(m) if isinstance(getattr(model.follow(o, path), k), str)]
        if where:
            path, k = g.pick(where)
            owner = model.follow(o, path)
            old = getattr(owner, k)
            setattr(owner, k, old + '\ud83d')
            repair = lambda: setattr(owner, k, old)
    text = o.to_sexpr()
    try:
        wanted = 'x'.encode(e or 'utf-8') and text.encode(e or 'utf-8')
    except Exception:
        wanted = None
    d = ctx.scratch()
    p = f'{d}/a{ops.SUFFIX[doc]}'
    try:
        situation(g, d, p, o)
    except Violation:
        if wanted is not None:
            raise
        ops.put(p, 'old')
    before = snapshot(d)
    target = None if o.filePath else p
    try:
        o.to_file(target, encoding=e) if target else o.to_file(encoding=e)
    except Exception:
        if wanted is not None:
            raise
        if snapshot(d) != before:
            raise Violation(f'a failed save of a {doc} in the encoding {e} changed files: '
                            f'{ {k: v[:60] for k, v in snapshot(d).items()} }', before=repr(before)[:1500])
        repair()
        text = o.to_sexpr()
        ops.save(o, p)
        if ops.get(p) != text:
            raise Violation(f'after the failed save in the encoding {e}, saving in UTF-8 gives another text')
    else:
        if wanted is None:
            raise Violation(f'saving a {doc} whose text cannot be encoded in {e} succeeded', text=text)
        before[os.path.basename(p)] = wanted
        if snapshot(d) != before:
            raise Violation(f'saving a {doc} in the encoding {e} wrote something else')
    return (text, e), wanted is None, f'{doc} in {e}'


STREAMS = [Stream('broken', broken, 12000, 300000), Stream('mandatory', mandatory, 2000, 40000),
           Stream('unreachable', unreachable, 2000, 20000), Stream('encoding', encoding, 4000, 80000)]
