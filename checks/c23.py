"""C23: locality of edits"""
from .c22 import places
from .common import *

TITLE = 'Editing one item changes only the lines of that item in the saved file'
RULE = ('A generated document is saved; one item of a drawn list at a drawn depth is then replaced, deleted, inserted or moved '
        'to another place, or a single part exchanged, and the document is saved again. The two files have to agree byte for '
        'byte before and after the place of the edit: the text of every other item, of its ancestors and siblings is unchanged, '
        'and undoing the edit restores the first file exactly. The place is found with the reference tokenizer. Non-trivial: '
        'the untouched rest of the document has at least 6 tokens and the texts differ; distinct by both texts.')
ASSUMPTIONS = [TRUST, DOMAIN, 'Points of a render cache are laid out in rows of four: only replaced, not inserted or deleted; '
               'a list is not emptied and nothing is put into an empty one (blank lines around blocks of items)']
DOCS = ('board.Board', 'footprint.Footprint', 'schematic.Schematic', 'symbol.SymbolLib', 'wks.WorkSheet',
        'dru.DesignRules', 'libraries.LibTable', 'board.Board', 'schematic.Schematic', 'board.Board', 'schematic.Schematic',
        'footprint.Footprint', 'symbol.SymbolLib')


def child_path(m, target):
    """Indices of the nested lists that lead to a model within the text of another"""
    if m is target:
        return []
    return _within([e.w for e in m.el if e.w is not None], target)


def _within(nodes, target):
    n = 0
    for x in nodes:
        if isinstance(x, model.M):
            p = child_path(x, target)
        elif isinstance(x, list):
            p = _within(x, target)
        else:
            continue
        if p is not None:
            return [n] + p
        n += 1
    return None


def place(text, doc, path):
    """(end of the token before, start, end, start of the token after) of a nested list"""
    node = sx.spans(text)
    if doc != 'dru.DesignRules':
        path = [0] + path
    for i in path[:-1]:
        node = node[i][3]
    start, end = node[path[-1]][:2]
    toks = sx.scan(text)
    prev = max((t[3] for t in toks if t[3] <= start), default=0)
    nxt = min((t[2] for t in toks if t[2] >= end), default=len(text))
    return prev, start, end, nxt


def without(text, where):
    """The text without an item: with the white space before it, or with that after it"""
    prev, start, end, nxt = where
    return text[:prev] + text[end:], text[:start] + text[nxt:]


def resize(g, m):
    """One list gets a size near one that occurs in the code"""
    lists = [s for s in places(m) if s.kind == 'list' and s.items()]
    if not lists:
        return
    s = place_of(g, lists)
    items = list(s.items())
    n = min(dictionary.size(g, g.chance(0.5)), 100)
    s.put((items + [model.copy_model(items[i % len(items)]) for i in range(n - len(items))])[:n])


def edits(g, ctx):
    start(g, *(('soup',) if g.chance(0.15) else ()), *(('focus',) if g.chance(0.4) else ()))
    doc = specs.document_of(g, DOCS)
    m = specs.SPECS[doc](g)
    donor = specs.SPECS[doc](g)
    if g.chance(0.08):
        resize(g, m)
    obj = ops.make(m)
    d = ctx.scratch()
    p = f'{d}/a{ops.SUFFIX[doc]}'
    ops.save(obj, p)
    before = ops.get(p)
    where = [x for x in places(m) if x.kind == 'single' or x.items()]
    if g.chance(0.4):
        where = [x for x in where if not x.path and x.kind != 'single'] or where
    if not where:
        raise Discard()
    s = place_of(g, where)
    pool = [x for x in places(donor) if x.key == s.key]
    if not pool or g.chance(0.3):
        pool += [x for x in places(m) if x.key == s.key]
    owner = model.follow(obj, s.path)
    old_real = getattr(owner, s.attr)
    if s.kind == 'single':
        new = [x.items() for x in pool if isinstance(x.items(), model.M)]
        if not new:
            raise Discard()
        n = model.copy_model(g.pick(new))
        what = f'exchanging {s.key}'
        kind, path1 = 'replace', child_path(m, s.items())
        setattr(owner, s.attr, ops.make(n))
        s.put(n)
    else:
        items = list(s.items())
        fresh = [y for x in pool for y in x.items()]
        i = g.below(len(items))
        c = 0 if (s.owner.cls, s.attr) == ('common.RenderCachePolygon', 'pts') else g.below(3)
        if c == 0:
            if not fresh:
                raise Discard()
            n = model.copy_model(g.pick(fresh))
            setattr(owner, s.attr, old_real[:i] + [ops.make(n)] + old_real[i + 1:])
            kind, path1 = 'replace', child_path(m, items[i])
            items[i] = n
            what = f'replacing item {i} of {s.key}'
        elif c == 1:
            if not fresh:
                raise Discard()
            n = model.copy_model(g.pick(fresh))
            i = g.below(len(items) + 1)
            setattr(owner, s.attr, old_real[:i] + [ops.make(n)] + old_real[i:])
            items.insert(i, n)
            kind = 'insert'
            what = f'inserting item {i} of {s.key}'
        else:
            if len(items) < 2:
                raise Discard()
            setattr(owner, s.attr, old_real[:i] + old_real[i + 1:])
            kind, path1 = 'delete', child_path(m, items[i])
            del items[i]
            what = f'deleting item {i} of {s.key}'
        s.put(items)
    ops.save(obj, p)
    after = ops.get(p)
    tree2 = m.tree('w')
    ops.check_tree(ops.file_tree(m, after), tree2, f'{what}: the file is not the edited document', after)
    d = dict(before=before, after=after)
    if kind == 'replace':
        p1, s1, e1, n1 = place(before, doc, path1)
        p2, s2, e2, n2 = place(after, doc, child_path(m, n))
        if before[:s1] != after[:s2]:
            raise Violation(f'{what}: the text before it changed', where=first_difference(before[:s1], after[:s2]), **d)
        if before[e1:] != after[e2:]:
            raise Violation(f'{what}: the text after it changed', where=first_difference(before[e1:], after[e2:]), **d)
        rest = before[:s1] + before[e1:]
    else:
        long, short, path = (after, before, child_path(m, n)) if kind == 'insert' else (before, after, path1)
        rest = short
        if short not in without(long, place(long, doc, path)):
            raise Violation(f'{what}: more than the item itself changed',
                            where=first_difference(short, without(long, place(long, doc, path))[0]), **d)
    setattr(owner, s.attr, old_real)
    ops.save(obj, p)
    if ops.get(p) != before:
        raise Violation(f'{what} and undoing it: the file is not the first one', before=before, after=ops.get(p),
                        where=first_difference(before, ops.get(p)))
    return before + after, before != after and len(sx.scan(rest)) >= 6, f'{doc}: {what}: {before[:300]}'


STREAMS = [Stream('edits', edits, 80000, 1500000)]
