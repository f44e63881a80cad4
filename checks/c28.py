"""C28: results do not depend on the process environment"""
import os
from .common import *
from .c02 import balance_broken, lit
from .c15 import ANY_HEAD, heads_of
from harness import envs, envworker, sxgen
from harness.core import Gen

TITLE = 'Results do not depend on the environment the library runs in'
RULE = ('Batches of 70 operations (reading and writing items, loading and saving files, parsing texts, constructing objects, '
        'unbalanced texts and expressions of another kind that have to be refused) are done in this process, judged by the '
        'models, and again in a process with drawn hash seed, locale, time zone, optimisation level (-O, -OO), text mode and '
        'working directory: attributes, texts and bytes have to be the same, refusals too, and no file may be left behind. '
        'Non-trivial: at least 60 distinct operations; distinct by texts and environment.')
ASSUMPTIONS = [TRUST, DOMAIN, 'Files are read and written with an explicit encoding, or hold ASCII only',
               'The time of last edit of a new footprint is not compared']
N = 70
OTHERS = [n for n in specs.SPECS if n not in ANY_HEAD]


def task(g, d, i):
    """(task, expected status or None, sample)"""
    c = g.below(9)
    if c == 8:
        c = 4
    if c == 0:
        doc = specs.document_of(g, list(specs.DOCUMENTS))
        m = specs.SPECS[doc](g)
        src, dst = f'{d}/{i}a{ops.SUFFIX[doc]}', f'{d}/{i}b{ops.SUFFIX[doc]}'
        text = ops.file_text(m, m.tree('r', g), g)
        enc = g.pick(('utf-8', 'utf-16'))
        if text.isascii() and g.chance(0.5):
            enc = None
        ops.put(src, text, enc or 'ascii')
        return ('file', envs.where(doc), src, dst, enc), 'ok', m
    if c == 1:
        t = sxgen.tree(g)
        toks, _ = balance_broken(sxgen.tokens(t), g)
        return ('parse', sxgen.spell(toks, g) + '\n'), 'raised', None
    if c == 2:
        name, m = draw(g, list(specs.DOCUMENTS))
        toks, _ = balance_broken(sxgen.tokens(lit(m.tree('r', g))), g)
        p = f'{d}/{i}c'
        if m.cls == 'dru.DesignRules':
            return ('parse', sxgen.spell(toks, g) + '\n'), 'raised', None
        ops.put(p, sxgen.spell(toks, g) + '\n')
        return ('file', envs.where(m.cls), p, p + 'out', 'utf-8'), 'raised', None
    if c == 3:
        return ('new', envs.where(specs.steered(g, sorted(model.DEFAULTS)))), 'ok', None
    if c == 4:
        a, m = draw(g, list(specs.SPECS))
        other = specs.SPECS[specs.steered(g, OTHERS)](Gen(src=[]))
        if m.head is None or m.head in heads_of(other):
            return ('parse', '(a'), 'raised', None
        return ('read', envs.where(other.cls), sx.render(m.tree('r', g)), False), 'raised', None
    name, m = draw(g, list(specs.SPECS))
    return ('read', envs.where(m.cls), sx.render(m.tree('r', g), g), name not in specs.NO_WRITE), 'ok', m


def batches(g, ctx):
    d = ctx.scratch()
    flags, env, what = envs.environment(g)
    tasks, wanted = [], []
    for i in range(N):
        g.flags.clear()
        start(g)
        if 'long' in g.flags and g.chance(0.6):
            g.flags.discard('long')
        t, want, m = task(g, d, i)
        tasks.append(t)
        wanted.append((want, m))
    here = [envworker.perform(t) for t in tasks]
    for t, (want, m), r in zip(tasks, wanted, here):
        if r[0] != want:
            raise Violation(f'{t[0]}: {r[0]} {str(r[1])[:200]} instead of {want}', task=repr(t)[:2000])
        if m is not None and t[0] == 'read' and t[3] and m.cls != 'dru.DesignRules':
            ops.check_tree(sx.tokenize_one(r[2], 'what is written'), m.tree('w'), 'what is written', t[2])
    for t in tasks:
        if t[0] == 'file' and os.path.exists(t[3]):
            os.unlink(t[3])
    there = envs.run(tasks, flags, env, d)
    for t, a, b in zip(tasks, here, there):
        if a[0] != b[0] or a[0] == 'ok' and a != b:
            raise Violation(f'with {what}, {t[0]} gives another result: {first_difference(repr(b), repr(a))}',
                            task=repr(t)[:3000], here=repr(a)[:2000], there=repr(b)[:2000])
    return (what, tasks), len(set(map(repr, tasks))) >= 60, f'{what}: ' + ', '.join(sorted({f'{t[0]} {t[1]!r:.40}' for t in tasks}))


STREAMS = [Stream('batches', batches, 400, 12000)]
