"""C03: texts survive verbatim"""
from .common import *

TITLE = 'Every text field survives saving and loading verbatim'
RULE = ('Models of every class and of whole documents whose texts are drawn from quotes, brackets, backslashes, blanks, line '
        'breaks, keywords of the format, numbers in disguise, control characters and arbitrary Unicode. Stream items writes '
        'and reads in memory, stream files through files. The written token must be one quoted string denoting the text, and '
        'reading it must give the text back. Non-trivial: contains a text with a quote, bracket, backslash, blank or '
        'non-ASCII character; distinct by text of the file.')
ASSUMPTIONS = [TRUST, DOMAIN]
SPECIAL = set('"()\\ \n\t')


def hostile(tree):
    for x in tree:
        if isinstance(x, list):
            if hostile(x):
                return True
        elif x[0] == 'q' and any(c in SPECIAL or ord(c) > 126 or ord(c) < 32 for c in x[1]):
            return True
    return False


def leading(tree):
    """Whether a text starts with a blank or closing bracket"""
    for x in tree:
        if isinstance(x, list):
            if leading(x):
                return True
        elif x[0] == 'q' and x[1] and (x[1][0].isspace() or x[1][0] == ')'):
            return True
    return False


NAMES = [n for n in specs.SPECS if n not in specs.NO_WRITE and n not in specs.DOCUMENTS]


def items(g, ctx):
    start(g, 'soup', 'memory')
    name, m = draw(g, NAMES)
    obj = ops.make(m)
    got, text = ops.written(obj)
    exp = m.tree('w')
    ops.check_tree(got, exp, 'what is written differs from the object', text)
    again = ops.read_text(m, text)
    ops.check_object(again, m, 'after writing and reading again', True, text)
    if not hostile(exp):
        return text, False, ''
    return text, True, ops.describe(m, text)


def files(g, ctx):
    start(g, 'soup')
    doc = specs.document_of(g, specs.DOCUMENTS)
    k, nt, s = (document_round_trip if g.chance(0.5) else document_from_file)(g, ctx, doc)
    return k, nt and '"' in k, s


def endings(g, ctx):
    """Texts ending in backslashes, while no text starts with a blank or closing bracket (see the recorded finding)"""
    start(g, 'endings')
    name, m = draw(g, list(NAMES) + 6 * list(specs.DOCUMENTS))
    if leading(m.tree('w')):
        raise Discard()
    obj = ops.make(m)
    text = ops.to_sexpr(obj)
    if name == 'dru.DesignRules' or name in specs.DOCUMENTS and g.chance(0.5):
        path = ctx.scratch() + '/file'
        ops.guarded('saving', obj.to_file, path, encoding='utf-8')
        again = ops.guarded('loading', type(obj).from_file, path, encoding='utf-8')
        again.filePath = None
    else:
        again = ops.read_text(m, text)
    ops.check_object(again, m, 'after writing and reading again', True, text)
    return text, '\\"' in text, ops.describe(m, text)


STREAMS = [Stream('items', items, 80000, 2000000), Stream('files', files, 12000, 300000),
           Stream('endings', endings, 12000, 300000)]



def probe_backslash(ctx):
    """True while the finding is there"""
    import kiutils.items.common as c
    t = c.TitleBlock(title='C:\\', date=' x')
    try:
        r = c.TitleBlock.from_sexpr(ops.parser()(t.to_sexpr()))
        return not (r.title == 'C:\\' and r.date == ' x')
    except Exception:
        return True


def probe_carriage(ctx):
    """True while the finding is there"""
    import kiutils.items.common as c
    import kiutils.schematic as s
    doc = s.Schematic.create_new()
    doc.titleBlock = c.TitleBlock(title='a\rb')
    path = ctx.scratch() + '/carriage'
    try:
        doc.to_file(path, encoding='utf-8')
        return s.Schematic.from_file(path, encoding='utf-8').titleBlock.title != 'a\rb'
    except Exception:
        return True


PROBES = {'backslash': probe_backslash, 'carriage': probe_carriage}
