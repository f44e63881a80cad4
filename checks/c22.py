"""C22: histories of edits"""
import copy
from .common import *

TITLE = 'After any history of edits, a save holds exactly the edited document'
RULE = ('Histories over one or two documents of a drawn kind: insert, delete, replace, duplicate, repeat (the same object twice), move and reorder items of any '
        'list at any depth, exchange single parts, overwrite an item in place attribute by attribute, copy items from one '
        'document to the other, interleaved with writing, saving, loading and going on with the loaded document. A model of '
        'each document takes the same steps; whatever is written has to be the model and nothing else, for the edited document '
        'and for the other one. Non-trivial: at least 3 edits of which one follows a load or precedes a second save; distinct '
        'by the history and the final text.')
ASSUMPTIONS = [TRUST, DOMAIN]
DOCS = ('board.Board', 'footprint.Footprint', 'schematic.Schematic', 'symbol.SymbolLib', 'wks.WorkSheet',
        'dru.DesignRules', 'libraries.LibTable')


# parts whose shape depends on another attribute of their owner; the owner is exchanged as a whole
TIED = {('fp.FpTextBox', 'pts'), ('gr.GrTextBox', 'pts')}


def places(m):
    return [s for s in model.slots(m) if (s.owner.cls, s.attr) not in TIED]


def verify(doc, log, objs):
    for i, (o, m) in enumerate(objs):
        text = ops.to_sexpr(o)
        ops.check_tree(ops.file_tree(m, text), m.tree('w'), f'after {log}, document {i} is written differently', text)


def edit(g, obj, m, donor, log, who):
    """One edit of the document, on the object and on the model.  False if it does not apply"""
    sl = places(m)
    s = place_of(g, sl)
    pool = [d for d in places(donor) if d.key == s.key]
    owner = model.follow(obj, s.path)
    name = f'{who}:{"/".join(str(p) for p in s.path)}.{s.attr}'
    if s.kind == 'single':
        if not pool:
            return False
        new = model.copy_model(g.pick(pool).items())
        if not isinstance(new, model.M):
            return False
        old = s.items()
        if g.chance(0.5) and set(new.a) == set(old.a) and new.cls == old.cls:
            part = getattr(owner, s.attr)
            for k, v in new.a.items():
                setattr(part, k, model.conv(v))
            log.append(f'update {name}')
        else:
            setattr(owner, s.attr, ops.make(new))
            log.append(f'set {name}')
        s.put(new)
        return True
    items = list(s.items())
    real = getattr(owner, s.attr)
    fresh = [x for d in pool for x in d.items()]
    c = g.below(8)
    i = g.below(len(items)) if items else 0
    if c == 0 and fresh:
        j = g.below(len(items) + 1)
        new = model.copy_model(g.pick(fresh))
        items.insert(j, new)
        real.insert(j, ops.make(new))
        log.append(f'insert {name}[{j}]')
    elif c == 1 and items and (s.kind == 'list' or len(items) > 1):
        del items[i]
        del real[i]
        log.append(f'delete {name}[{i}]')
    elif c == 2 and items and fresh:
        new = model.copy_model(g.pick(fresh))
        items[i] = new
        real[i] = ops.make(new)
        log.append(f'replace {name}[{i}]')
    elif c == 3 and items and fresh:
        new = model.copy_model(g.pick(fresh))
        if new.cls != items[i].cls or set(new.a) != set(items[i].a) or model.occurrences(m, items[i]) > 1:
            return False
        items[i] = new
        for k, v in new.a.items():
            setattr(real[i], k, model.conv(v))
        log.append(f'update {name}[{i}]')
    elif c == 4 and items:
        items.append(model.copy_model(items[i]))
        real.append(copy.deepcopy(real[i]))
        log.append(f'duplicate {name}[{i}]')
    elif c == 5 and len(items) > 1:
        order = g.shuffle(range(len(items)))
        items = [items[x] for x in order]
        setattr(owner, s.attr, [real[x] for x in order])
        log.append(f'reorder {name} {order}')
    elif c == 6 and fresh:
        new = [model.copy_model(x) for x in fresh]
        items = new
        setattr(owner, s.attr, [ops.make(x) for x in new])
        log.append(f'refill {name}')
    elif c == 7 and items:
        items.append(items[i])
        real.append(real[i])
        log.append(f'repeat {name}[{i}]')
    else:
        return False
    s.put(items)
    return True


def transfer(g, objs, log):
    """Copy an item of one document to the other"""
    (o1, m1), (o2, m2) = objs if g.chance(0.5) else objs[::-1]
    src = [s for s in places(m1) if s.kind == 'list' and s.items()]
    if not src:
        return False
    s = g.pick(src)
    dst = [d for d in places(m2) if d.kind == 'list' and d.key == s.key]
    if not dst:
        return False
    d = g.pick(dst)
    i = g.below(len(s.items()))
    real = getattr(model.follow(o1, s.path), s.attr)[i]
    getattr(model.follow(o2, d.path), d.attr).append(copy.deepcopy(real))
    d.put(d.items() + [model.copy_model(s.items()[i])])
    log.append(f'copy {s.key[-1]}[{i}] over')
    return True


def histories(g, ctx):
    start(g, *(('soup',) if g.chance(0.15) else ()))
    doc = specs.document_of(g, DOCS)
    d = ctx.scratch()
    objs = []
    for i in range(1 + g.chance(0.35)):
        m = specs.SPECS[doc](g)
        objs.append([ops.make(m), m])
    donor = specs.SPECS[doc](g)
    log = []
    edits = loads = saves = after = 0
    for _ in range(4 + g.count(0, 16, 0.9)):
        c = g.below(8)
        k = g.pick(objs)
        n = objs.index(k)
        p = f'{d}/{n}{ops.SUFFIX[doc]}'
        if c < 5:
            if any(edit(g, k[0], k[1], donor, log, n) for _ in range(4)):
                edits += 1
                after += 1 if loads or saves else 0
        elif c == 5:
            if len(objs) == 2 and transfer(g, objs, log):
                edits += 1
                after += 1 if loads or saves else 0
            else:
                donor = specs.SPECS[doc](g)
        elif c == 6:
            verify(doc, log, objs)
            log.append('write')
        else:
            ops.save(k[0], p)
            text = ops.get(p)
            ops.check_tree(ops.file_tree(k[1], text), k[1].tree('w'), f'after {log}, the file differs', text)
            saves += 1
            log.append(f'save {n}')
            if g.chance(0.6):
                k[0] = ops.load(ops.cls_of(k[1]), p)
                ops.check_loaded(k[0], k[1], p, f'after {log}, and loading', True, text)
                loads += 1
                model.unalias(k[1])
                log.append(f'load {n}')
    verify(doc, log, objs)
    p = f'{d}/end'
    ops.save(objs[0][0], p)
    text = ops.get(p)
    ops.check_tree(ops.file_tree(objs[0][1], text), objs[0][1].tree('w'), f'after {log}, the file differs', text)
    ops.check_loaded(ops.load(ops.cls_of(objs[0][1]), p), objs[0][1], p, f'after {log}, and loading', True, text)
    return (tuple(log), text), edits >= 3 and after > 0, f'{doc} {log}: {text[:300]}'


STREAMS = [Stream('histories', histories, 20000, 500000)]
