"""C02: unbalanced brackets are rejected"""
from .common import *
from harness import envs, sxgen
import os

TITLE = 'Text with unbalanced brackets is rejected, never half-read'
RULE = ('Well formed expressions and whole generated documents get one or more brackets removed or added outside of quoted '
        'text, or are cut off between two tokens with at least one list open, so that the brackets do '
        'not balance; parsing the text (streams expressions, documents) or loading the file (stream files) has to raise, and the file on disk stays as it was. Non-trivial: at least 5 tokens '
        'remain; distinct by text. Batches of such texts are also given to a process without assertions (python -O, stream '
        'optimised). A control case, the uncorrupted text, has to parse.')
ASSUMPTIONS = ['Cuts lie between tokens, not inside of a quoted string, and the text ends with a line break']


def balanced(toks):
    depth = 0
    for t in toks:
        if isinstance(t, str):
            depth += (t == '(') - (t == ')')
            if depth < 0:
                return False
    return depth == 0


def balance_broken(toks, g):
    """A corrupted copy and a description: one damage, or several that do not make up for each other"""
    out, what = damage(toks, g)
    if g.chance(0.25):
        for _ in range(8):
            two, more = damage(out, g)
            if len(two) > 1 and not balanced(two):
                out, what = two, f'{what}, {more}'
                if g.chance(0.6):
                    break
    return out, what


def damage(toks, g):
    brackets = [i for i, t in enumerate(toks) if t in ('(', ')') and isinstance(t, str)]
    c = g.below(4) if len(toks) > 1 else 1 + g.below(2)
    out = list(toks)
    if c == 0 and brackets:
        i = g.pick(brackets)
        del out[i]
        what = f'bracket {i} removed'
    elif c < 2:
        i = g.below(len(toks) + 1)
        out.insert(i, '(')
        what = f'( added at {i}'
    elif c == 2:
        i = g.below(len(toks) + 1)
        out.insert(i, ')')
        what = f') added at {i}'
    else:
        i = 1 + g.below(len(toks) - 1)
        out = out[:i]
        what = f'cut after token {i}'
    return out, what


def reject(f, text, what):
    try:
        r = f()
    except Exception:
        return
    raise Violation(f'unbalanced text is accepted ({what})', text=text, result=repr(r)[:1000])


def expressions(g, ctx):
    t = sxgen.tree(g)
    toks, what = balance_broken(sxgen.tokens(t), g)
    text = sxgen.spell(toks, g) + '\n'
    reject(lambda: ops.parser()(text), text, what)
    return text, len(toks) >= 5, f'{what}: {text[:300]}'


def lit(t):
    if isinstance(t, list):
        return [lit(x) for x in t]
    return sxgen.Lit(t[0], t[1], sx.leaf_text(t))


def _document(g):
    start(g)
    name, m = draw(g, specs.DOCUMENTS)
    toks = sxgen.tokens(lit(m.tree('r', g)))
    return m, toks


def documents(g, ctx):
    m, toks = _document(g)
    out, what = balance_broken(toks, g)
    text = sxgen.spell(out, g) + '\n'
    reject(lambda: ops.parser()(text), text, what)
    return text, len(out) >= 5, f'{m.cls} {what}: {text[:300]}'


def files(g, ctx):
    m, toks = _document(g)
    out, what = balance_broken(toks, g)
    text = sxgen.spell(out, g) + '\n'
    good = sxgen.spell(toks, g) + '\n'
    if m.cls == 'dru.DesignRules':
        # such files carry no outer brackets: only corruptions inside of them are of interest
        inner = toks[1:-1]
        if not inner:
            raise Discard()
        out, what = balance_broken(inner, g)
        if balanced(out):
            raise Discard()
        text = sxgen.spell(out, g) + '\n'
        good = sxgen.spell(inner, g) + '\n'
    d = ctx.scratch()
    p = f'{d}/x{ops.SUFFIX[m.cls]}'
    cls = ops.cls_of(m)
    ops.put(p, good)
    ops.load(cls, p)
    ops.put(p, text)
    reject(lambda: cls.from_file(p, encoding='utf-8'), text, what)
    if ops.get(p) != text or os.listdir(d) != [os.path.basename(p)]:
        raise Violation('rejecting the file changed it or its directory', text=text)
    return text, len(out) >= 5, f'{m.cls} {what}: {text[:300]}'


def optimised(g, ctx):
    d = ctx.scratch()
    tasks, log = [], []
    for i in range(40):
        if g.chance(0.3):
            m, toks = _document(g)
        else:
            m, toks = None, sxgen.tokens(sxgen.tree(g))
        out, what = balance_broken(toks, g)
        text = sxgen.spell(out, g) + '\n'
        if m is not None and m.cls != 'dru.DesignRules' and g.chance(0.5):
            p = f'{d}/{i}'
            ops.put(p, text)
            tasks.append(('file', envs.where(m.cls), p, p + 'out', 'utf-8'))
        else:
            tasks.append(('parse', text))
        log.append((text, what))
    for r, (text, what) in zip(envs.run(tasks, [g.pick(('-O', '-OO'))], {}, d), log):
        if r[0] != 'raised':
            raise Violation(f'unbalanced text is accepted by an optimised process ({what})', text=text, result=repr(r)[:1000])
    return log, True, str(log[0])[:300]


STREAMS = [Stream('expressions', expressions, 60000, 1500000), Stream('documents', documents, 8000, 200000),
           Stream('files', files, 6000, 150000),
           Stream('optimised', optimised, 50, 1000)]
