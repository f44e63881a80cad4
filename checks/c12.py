"""C12: the layout of saved files"""
import os
from harness import layout
from .common import *

TITLE = 'Files keep KiCad\'s layout: what KiCad wrote is saved back byte for byte'
RULE = ('Stream samples: real KiCad files (copied to corpus/) are varied while keeping their layout (numbers, texts and '
        'identifiers exchanged, items of a block deleted, repeated and reordered), loaded and saved: the bytes have to be the '
        'same. Stream generated: generated documents are saved and the white space before every token is compared with the '
        'recorded layout of that place (chain of three keywords and neighbouring tokens; indentation relative to the '
        'surrounding line). Non-trivial: a sample with at least one variation; a generated document of at least 20 tokens; '
        'distinct by text.')
ASSUMPTIONS = ['The layout of each place is recorded in harness/layout.json; places that were never generated when it was '
               'recorded are not judged', 'corpus/ holds sample files of the repository\'s test data that the library saves '
               'back unchanged', DOMAIN]

CORPUS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus')
KIND = {'board': 'board.Board', 'footprint': 'footprint.Footprint', 'schematic': 'schematic.Schematic',
        'symbol': 'symbol.SymbolLib', 'wks': 'wks.WorkSheet', 'dru': 'dru.DesignRules', 'libraries': 'libraries.LibTable'}
_SAMPLES = []


class Node:
    """A list of a sample file, or one of its leaves, with the white space before it"""
    __slots__ = ('gap', 'kind', 'raw', 'kids', 'end')

    def __init__(self, gap, kind, raw):
        self.gap, self.kind, self.raw, self.kids, self.end = gap, kind, raw, [], ''

    def copy(self):
        n = Node(self.gap, self.kind, self.raw)
        n.end = self.end
        n.kids = [k.copy() for k in self.kids]
        return n

    def write(self, out):
        out.append(self.gap)
        if self.kind == '(':
            out.append('(')
            for k in self.kids:
                k.write(out)
            out.append(self.end + ')')
        else:
            out.append(self.raw)

    @property
    def head(self):
        return self.kids[0].raw if self.kind == '(' and self.kids else None


def parse(text):
    root = Node('', '(', '')
    stack, last = [root], 0
    for k, v, a, b in sx.scan(text):
        gap, last = text[last:a], b
        if k == ')':
            stack[-1].end = gap
            stack.pop()
            continue
        n = Node(gap, k, text[a:b])
        stack[-1].kids.append(n)
        if k == '(':
            stack.append(n)
    root.end = text[last:]
    return root


def samples():
    if not _SAMPLES:
        for kind in sorted(KIND):
            for f in sorted(os.listdir(f'{CORPUS}/{kind}')):
                with open(f'{CORPUS}/{kind}/{f}', encoding='utf-8', newline='') as h:
                    _SAMPLES.append((KIND[kind], f, parse(h.read())))
    return _SAMPLES


# lists whose values are part of the layout or of an identity
FROZEN = ('version', 'pcbplotparams', 'comment', 'paper', 'data', 'pngdata', 'private_layers', 'attr', 'image', 'angle')
# repeated tokens that are kept by name: no repetitions of the same
NAMED = ('property', 'pin', 'comment')
# texts with a structure of their own
SPECIAL = ('symbol', 'lib_id', 'lib_name', 'footprint', 'property', 'extends', 'pin', 'type')


def runs(n):
    """Blocks of siblings with the same keyword on lines of their own: [first, last) of the children"""
    out = []
    i = 1
    while i < len(n.kids):
        j = i + 1
        if n.kids[i].kind == '(':
            while j < len(n.kids) and n.kids[j].kind == '(' and n.kids[j].head == n.kids[i].head \
                    and n.kids[j].gap == n.kids[min(i + 1, len(n.kids) - 1)].gap and '\n' in n.kids[j].gap:
                j += 1
            if j - i > 1:
                out.append((i, j))
        i = j
    return out


def vary(n, g, log, rate, up=''):
    """Change the content of a sample without changing its layout"""
    head = n.head
    if head in FROZEN:
        return
    for i, j in reversed(runs(n)):
        block = n.kids[i:j]
        gap = block[1].gap
        h = block[0].head
        if (h == 'xy' and (up.endswith('text_box') or up == 'polygon')) or (h == 'property' and head == 'sheet'):
            continue
        c = g.below(4)
        if len(block) > 12 or (c == 1 and g.chance(rate)):
            keep = [block[0]] + [x for x in block[1:] if g.chance(0.3)]
            log.append(f'{h} -{len(block) - len(keep)}')
            block = keep
        elif c == 2 and g.chance(rate) and h not in NAMED and not (h == 'layer' and head == 'kicad_pcb'):
            x = g.pick(block).copy()
            x.gap = gap
            block = block + [x]
            log.append(f'{h} +1')
        elif c == 3 and g.chance(rate) and h != 'comment':
            first = block[0].gap
            block = g.shuffle(block)
            for x in block:
                x.gap = gap
            block[0].gap = first
            log.append(f'{h} reordered')
        n.kids[i:j] = block
    for k, x in enumerate(n.kids):
        if x.kind == '(':
            vary(x, g, log, rate, head)
        elif k and g.chance(rate):
            new = leaf(x, head, k, g)
            if new != x.raw:
                log.append(f'{head} {new[:20]}')
                x.raw = new


HEX = '0123456789abcdef'


def leaf(x, head, k, g):
    raw = x.raw
    if x.kind == 'n':
        v = sx.number_value(raw)
        if v == 0 or str(v) != raw:
            return raw
        if isinstance(v, int):
            return str((1 + g.below(99)) * (1 if v > 0 else -1))
        return str((1 if v > 0 else -1) * (g.below(99999) * 10 + 1 + g.below(9)) / 10 ** (1 + g.below(5)))
    if x.kind == 'q':
        if raw == '""' or (head in SPECIAL and k == 1) or head in ('symbol', 'extends', 'layers'):
            return raw
        t = specs.text(g) or 'a'
        if (len(t) >= 50) != (len(raw[1:-1].replace('\\"', '"')) >= 50) or (head == 'layer' and t in ('*.Cu', 'F&B.Cu')):
            return raw
        return sx.quote(t)
    if len(raw) == 36 and all(c in HEX + '-' for c in raw):
        return raw[:24] + ''.join(HEX[g.below(16)] for _ in range(12))
    return raw


def sampled(g, ctx):
    doc, name, root = g.pick(samples())
    root = root.copy()
    log = []
    rate = (0.3, 0.03, 0.0, 0.8)[g.below(4)]
    for n in root.kids:
        if n.kind == '(':
            vary(n, g, log, rate)
    out = []
    for n in root.kids:
        n.write(out)
    src = ''.join(out) + root.end
    d = ctx.scratch()
    p1, p2 = f'{d}/a{ops.SUFFIX[doc]}', f'{d}/b{ops.SUFFIX[doc]}'
    ops.put(p1, src)
    obj = ops.load(ops.cls_of(doc), p1)
    ops.save(obj, p2)
    got = ops.get(p2)
    if got != src:
        raise Violation(f'{name} ({", ".join(log[:8])}): the saved file differs from the loaded one',
                        where=first_difference(src, got), loaded=src, saved=got)
    return src, bool(log), f'{name}: {log[:12]}'


def generated(g, ctx):
    start(g)
    doc = specs.document_of(g, specs.DOCUMENTS)
    m = specs.SPECS[doc](g)
    if g.chance(0.5):
        obj = ops.make(m)
    else:
        src = ops.file_text(m, m.tree('r', g), g)
        if doc == 'dru.DesignRules':
            src = f'({src})'
        obj = ops.read_text(m, src)
    d = ctx.scratch()
    p = f'{d}/a'
    ops.save(obj, p)
    text = ops.get(p)
    ops.check_tree(ops.file_tree(m, text), m.tree('w'), 'the saved file differs from the object', text)
    tab = layout.table()[doc]
    seen = 0
    for where, gap in layout.walk(text):
        want = tab.get(where)
        if want is not None and want != gap:
            raise Violation(f'{doc}: the white space at "{where}" is {gap}, recorded is {want} (blanks; n..:x is a line break, '
                            f'x relative to the surrounding line)', text=text)
        seen += 1
    return text, seen >= 20, ops.describe(m, text)


STREAMS = [Stream('samples', sampled, 12000, 300000), Stream('generated', generated, 15000, 400000)]
