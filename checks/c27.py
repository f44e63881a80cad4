"""C27: concurrent and failed operations do not influence others"""
from .common import *
from .c19 import Boom, ERRORS
from .c21 import BY_DEFAULT
from harness import graph
from harness.threads import Schedule

TITLE = 'Concurrent and failed operations never influence other operations'
RULE = ('Two to four threads parse, read, write, load and save generated items and documents (distinct ones, and the same '
        'object written by several threads), under a schedule that is drawn line by line (or instruction by instruction) of the library code; in 40 % of the cases all threads do the same to objects of the same kind; every result has '
        'to be the one the model states, as without other threads (stream threads). Operations that fail (unbalanced texts, '
        'incomplete expressions, objects that cannot be written, missing files) are interleaved with operations that have to '
        'succeed and give what the model states (stream failures). Non-trivial: the schedule switched threads at least 5 times; '
        'at least one operation failed; distinct by schedule and texts.')
ASSUMPTIONS = [TRUST, DOMAIN, 'Threads switch between lines of the library, in 15 % of the cases between instructions; no object is '
               'changed by one thread while another one uses it']
NAMES = [n for n in specs.SPECS if n not in specs.NO_WRITE]
INDENTED = set(BY_DEFAULT)


def job(g, ctx, d, i, shared, like=None):
    """(description, function, check of its result); like: (operation, kind) if all are to be alike"""
    c, same = like or (g.below(6), None)
    if c == 5 and shared:
        o, want, what = g.pick(shared)
        return f'write the same {what}', o.to_sexpr, lambda r: r == want or f'{r!r:.600} instead of {want!r:.600}'
    if c in (0, 4):
        name, m = draw(g, [same] if same else list(specs.SPECS))
        text = sx.render(m.tree('r', g), g)
        cls = ops.cls_of(m)
        parse = ops.parser()

        def read():
            return cls.from_sexpr(parse(text))
        return f'read {name}', read, lambda o: not (x := model.compare(o, m, name)) or x
    if c == 1:
        name, m = draw(g, [same] if same else NAMES)
        o = ops.make(m)
        if name in INDENTED and g.chance(0.4):
            n = g.below(9)
            want = ops.guarded('writing', o.to_sexpr, indent=n)
            return f'write {name} indented by {n}', lambda: o.to_sexpr(indent=n), lambda r: r == want or f'{r!r:.600} instead of {want!r:.600}'
        want = ops.to_sexpr(o)
        shared.append((o, want, name))
        return f'write {name}', o.to_sexpr, lambda r: r == want or f'{r!r:.600} instead of {want!r:.600}'
    doc = same or specs.document_of(g, list(specs.DOCUMENTS))
    g.flags.add('focus')
    m = specs.SPECS[doc](g)
    cls = ops.cls_of(m)
    p = f'{d}/{i}{ops.SUFFIX[doc]}'
    if c == 2:
        text = ops.file_text(m, m.tree('r', g), g)
        ops.put(p, text)
        m.a['filePath'] = p
        return f'load {doc}', lambda: cls.from_file(p, encoding='utf-8'), lambda o: not (x := model.compare(o, m, doc)) or x
    o = ops.make(m)
    want = ops.to_sexpr(o)

    def save():
        o.to_file(p, encoding='utf-8')
        return ops.get(p)
    return f'save {doc}', save, lambda r: r == want or f'{r!r:.600} instead of {want!r:.600}'


def threads(g, ctx):
    start(g)
    g.flags -= {'long'}
    if g.dense > 0.6:
        g.dense = 0.3
    d = ctx.scratch()
    shared = []
    like = None
    if g.chance(0.4):
        c = g.below(4)
        like = c, specs.document_of(g, list(specs.DOCUMENTS)) if c > 1 else specs.steered(g, (list(specs.SPECS), NAMES)[c])
    jobs = [job(g, ctx, d, i, shared, like) for i in range(2 + g.count(0, 2, 0.3))]
    s = Schedule(g, [f for _, f, _ in jobs], g.chance(0.15))
    results = s.run()
    log = [w for w, _, _ in jobs]
    for i, ((what, _, check), r) in enumerate(zip(jobs, results)):
        if r is None:
            raise Violation(f'thread {i} ({what}) of {log} did not finish')
        if r[0] == 'raised':
            raise Violation(f'with threads {log}, thread {i} raised {type(r[1]).__name__}: {str(r[1])[:300]}')
        v = check(r[1])
        if v is not True:
            raise Violation(f'with threads {log}, thread {i} ({what}) gave: {v}')
    for i, (what, f, check) in enumerate(jobs):
        if what.startswith('write'):
            v = check(f())
            if v is not True:
                raise Violation(f'after threads {log}, {what} gives: {v}')
    return (log, s.steps, s.switches, len(g.rec)), s.switches >= 5, f'{log}: {s.steps} lines, {s.switches} switches'


BROKEN = ('(a (b)', '(a))', ')', '(', '', '   ', '("a (b)', '(a "b" (c) 1.5', '((((((((((', '(kicad_pcb (version 1) (net 0 "")', '"')


def failing(g, d):
    """An operation that usually raises"""
    c = g.below(6)
    if c == 0:
        t = g.pick(BROKEN)
        return f'parse {t!r}', lambda: ops.parser()(t)
    if c == 1:
        name, m = draw(g, list(specs.SPECS))
        exp = sx.to_parsed(m.tree('r', g))

        def cut(x, depth=0):
            subs = [y for y in x if isinstance(y, list)]
            if subs and g.chance(0.6):
                return cut(g.pick(subs), depth + 1)
            n = g.below(len(x)) if x else 0
            del x[max(1 if depth == 0 else 0, n):]
        cut(exp)
        return f'read a damaged {name}', lambda: ops.cls_of(m).from_sexpr(exp)
    if c == 2:
        name, m = draw(g, NAMES)
        o = ops.make(m)
        objs = graph.all_objects(o)
        x = g.pick(objs)
        ks = [k for k, _ in graph.attributes(x)]
        if ks:
            k = g.pick(ks)
            v = getattr(x, k)
            b = Boom(g.pick(ERRORS))
            if isinstance(v, list):
                v.append(b)
            else:
                setattr(x, k, b)
        return f'write a broken {name}', o.to_sexpr
    if c == 3:
        cls = model.CLASSES[specs.document_of(g, list(specs.DOCUMENTS))]
        return 'load a missing file', lambda: cls.from_file(f'{d}/missing')
    if c == 4:
        doc = specs.document_of(g, list(specs.DOCUMENTS))
        o = ops.make(specs.SPECS[doc](g))
        return f'save a {doc} where it cannot be', lambda: o.to_file(f'{d}/no/such/dir')
    cls = model.CLASSES[g.pick(sorted(model.DEFAULTS))]
    exp = g.pick(([], ['x'], None, ['footprint'], ['kicad_pcb', ['version']], [[]], ['symbol'], ['at', 1], ['paper', 'User']))
    return f'read {exp!r} as {cls.__name__}', lambda: cls.from_sexpr(exp)


def failures(g, ctx):
    start(g)
    d = ctx.scratch()
    log, failed = [], 0
    for i in range(2 + g.count(0, 6, 0.7)):
        if g.chance(0.55):
            what, f = failing(g, d)
            try:
                f()
                log.append(what)
            except Exception as e:
                failed += 1
                log.append(f'{what} (raises)')
        else:
            what, f, check = job(g, ctx, d, i, [])
            try:
                v = check(f())
            except Exception as e:
                v = f'{type(e).__name__}: {str(e)[:300]}'
            if v is not True:
                raise Violation(f'after {log}, {what} gives: {v}')
            log.append(what)
    return (log, len(g.rec)), failed > 0, str(log)


STREAMS = [Stream('threads', threads, 8000, 160000), Stream('failures', failures, 15000, 300000)]
