"""Building blocks shared by the checks"""
from harness import dictionary, model, ops, specs, sx, values
from harness.core import Violation, Discard
from harness.runner import Stream

FLAG_DENSITY = 'The rate of optional parts is drawn per case (4 % to 97 %)'
DOMAIN = ('Texts ending in a backslash, carriage returns, non-finite numbers and texts that cannot be encoded are not '
          'generated (the first is a recorded finding, see DESIGN.md)')
TRUST = 'The attribute and token tables in harness/specs.py and the hand written reference tokenizer in harness/sx.py'


def start(g, *flags):
    g.set_density()
    if g.chance(0.15):
        g.flags.add('long')
    if g.chance(0.15):
        g.flags.add('twins')
    if g.chance(0.25):
        g.flags.add('focus')
    if g.chance(0.1):
        g.flags.add('usual')
    g.flags.update(flags)
    values.pools(g)
    model.CASE[0] = g


def draw(g, names):
    name = specs.steered(g, names)
    if name not in specs.DOCUMENTS:
        g.flags.add('item')
    else:
        g.flags.discard('item')
    return name, document(g, name)


def document(g, name):
    m = specs.SPECS[name](g)
    if g.chance(0.06):
        model.equalise(g, m)
    return m


def place_of(g, places):
    """One of several places of a document, preferably one that concerns a class that changed"""
    if dictionary.HOT and g.chance(0.4):
        def concerned(s):
            items = s.items()
            return s.owner.cls in dictionary.HOT or any(x.cls in dictionary.HOT for x in (items if isinstance(items, list) else [items])
                                                        if isinstance(x, model.M))
        places = [s for s in places if concerned(s)] or places
    return g.pick(places)


def weighted(names, docs):
    """Item classes once, documents of the format more often"""
    return list(names)


def std(m, tree, text, least=4):
    """Key, triviality and sample of a case given by a model"""
    return text, ops.size(tree) >= least, ops.describe(m, text)


# ---------------------------------------------------------------- round trips

def item_round_trip(g, names):
    """object -> text -> object"""
    name, m = draw(g, names)
    if name in specs.NO_WRITE:
        raise Discard()
    obj = ops.make(m, g.chance(0.1))
    got, text = ops.written(obj)
    exp = m.tree('w')
    ops.check_tree(got, exp, 'what is written differs from the object', text)
    again = ops.read_text(m, text if m.cls != 'dru.DesignRules' else f'({text})')
    ops.check_object(again, m, 'after writing and reading again', True, text)
    if not has_rr(m):
        ops.check_equal(obj, again, 'after writing and reading again', text)
    return std(m, exp, text)


def has_rr(m):
    if m.rr:
        return True
    for v in m.a.values():
        for x in (v if isinstance(v, list) else [v]):
            if isinstance(x, model.M) and has_rr(x):
                return True
    return False


def document_round_trip(g, ctx, doc):
    """Built in memory -> file -> object -> file, through the file interface"""
    m = document(g, doc)
    obj = ops.make(m, g.chance(0.1))
    d = ctx.scratch()
    p1, p2 = f'{d}/a{ops.SUFFIX[doc]}', f'{d}/b{ops.SUFFIX[doc]}'
    ops.save(obj, p1)
    t1 = ops.get(p1)
    exp = m.tree('w')
    ops.check_tree(ops.file_tree(m, t1), exp, 'the saved file differs from the object', t1)
    again = ops.load(ops.cls_of(m), p1)
    ops.check_loaded(again, m, p1, 'after saving and loading again', True, t1)
    ops.save(again, p2)
    t2 = ops.get(p2)
    ops.check_tree(ops.file_tree(m, t2), exp, 'saving the reloaded document gives different content', t1)
    return t1, ops.size(exp) >= 12, ops.describe(m, t1)


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'offset {i}: {a[max(0, i - 40):i + 40]!r} / {b[max(0, i - 40):i + 40]!r}'
    return f'one is a prefix of the other: {a[len(b):][:60]!r} / {b[len(a):][:60]!r}'


def document_from_file(g, ctx, doc, shuffle=False):
    """A file in some layout -> object -> file: nothing lost, nothing added"""
    m = document(g, doc)
    d = ctx.scratch()
    p1, p2 = f'{d}/a{ops.SUFFIX[doc]}', f'{d}/b{ops.SUFFIX[doc]}'
    src = ops.file_text(m, m.tree('r', g), g)
    ops.put(p1, src)
    obj = ops.load(ops.cls_of(m), p1)
    ops.check_loaded(obj, m, p1, 'after loading', False, src)
    ops.save(obj, p2)
    t2 = ops.get(p2)
    exp = m.tree('w')
    ops.check_tree(ops.file_tree(m, t2), exp, 'the saved file differs from the loaded one', src + '\n=>\n' + t2)
    return src, ops.size(exp) >= 12, ops.describe(m, src)


SIZES = (70, 20, 140, 270, 600, 1100, 2300)          # kB


def big_document(g, ctx, doc):
    """A document with very many items, or a very large text: file -> object -> file"""
    start(g)
    g.flags -= {'focus', 'long'}
    target = SIZES[g.below(len(SIZES))] * 1000
    for _ in range(8):
        m = document(g, doc)
        lists = [s for s in model.slots(m) if s.kind == 'list' and s.items()]
        if lists:
            break
    else:
        raise Discard()
    s = g.pick(lists)
    items = list(s.items())
    one = sum(len(sx.render(x.tree('w'))) + 3 for x in items)
    n = min(20000, max(2, target // one))
    # all the same but the last
    last = model.copy_model(items[-1])
    s.put([x for _ in range(n) for x in items] + [last])
    d = ctx.scratch()
    p1, p2 = f'{d}/a{ops.SUFFIX[doc]}', f'{d}/b{ops.SUFFIX[doc]}'
    src = ops.file_text(m, m.tree('w'))
    ops.put(p1, src)
    obj = ops.load(ops.cls_of(m), p1)
    ops.check_loaded(obj, m, p1, f'after loading {len(src)} characters', True)
    ops.save(obj, p2)
    t2 = ops.get(p2)
    exp = m.tree('w')
    ops.check_tree(ops.file_tree(m, t2), exp, f'the saved file differs from the loaded one of {len(src)} characters')
    return (len(src), src[:2000]), len(src) > 30000, f'{m.cls}: {len(src)} characters, {n} times {s.attr}'


def round_trip_streams(doc, families, quick_items, quick_docs, extra=()):
    """Streams of the round trip check of one file format"""
    names = [n for n in ops.names_of(*families) if n != doc] + list(extra)

    def items(g, ctx):
        start(g)
        return item_round_trip(g, names)

    def documents(g, ctx):
        start(g)
        return document_round_trip(g, ctx, doc)

    def files(g, ctx):
        start(g)
        return document_from_file(g, ctx, doc)

    def big(g, ctx):
        return big_document(g, ctx, doc)

    return [Stream('items', items, quick_items, quick_items * 25), Stream('big', big, 48, 1200),
            Stream('documents', documents, quick_docs, quick_docs * 25),
            Stream('files', files, quick_docs, quick_docs * 25)]
