"""White space of written documents, relative to the structure they are written with.

``walk(text)`` yields (place, gap) for the white space before every token: the place is the chain of the last three keywords
and the kinds of the neighbouring tokens, the gap is given relative to the indentation of the line the surrounding list
starts on.  ``layout.json`` records the gap of every place; it was recorded once (tools/record_layout.py).
"""
import json
import os

from . import sx

CHAIN = 3
PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'layout.json')


class Node:
    __slots__ = ('head', 'base', 'n', 'prev', 'flag', 'open')

    def __init__(self, base, open_):
        self.head, self.base, self.n, self.prev, self.flag, self.open = '', base, 0, '', '', open_


def norm(gap, base, inline):
    if '\n' not in gap:
        return f'{len(gap) - base}i' if inline else f'{len(gap)}'
    lines = gap.split('\n')
    return 'n' + ','.join(str(len(x)) for x in lines[:-1]) + f':{len(lines[-1]) - base}'


def closings(toks):
    """Index of the closing bracket of every opening one"""
    out, stack = {}, []
    for i, t in enumerate(toks):
        if t[0] == '(':
            stack.append(i)
        elif t[0] == ')':
            out[stack.pop()] = i
    return out


def walk(text):
    toks = sx.scan(text)
    close = closings(toks)
    stack = []
    last, indent = 0, 0
    top = ''

    def chain():
        return '/'.join(x.head for x in stack[-CHAIN:])

    for i, (k, v, a, b) in enumerate(toks):
        gap = text[last:a]
        last = b
        if '\n' in gap:
            indent = len(gap) - gap.rfind('\n') - 1
        if k == ')':
            s = stack[-1]
            yield f'{chain()}{s.flag} {s.prev} )', norm(gap, s.base, False)
            stack.pop()
            continue
        kind = 'atom'
        if k == '(':
            kind = '(' + str(toks[i + 1][1]) if toks[i + 1][0] == 's' else '(' + toks[i + 1][0]
        if stack:
            s = stack[-1]
            if s.n == 0 and k != '(':
                s.head = v if k == 's' else k
                kind = 'head'
                inner = toks[s.open:close[s.open]]
                if s.head == 'pin':
                    s.flag = '!' if any(t[0] == 's' and t[1] == 'effects' and inner[j - 1][0] == '('
                                        for j, t in enumerate(inner) if j) else ''
                elif s.head == 'text' and len(inner) > 2 and inner[2][0] == 'q':
                    s.flag = '!' if len(inner[2][1]) >= 50 else ''
            where = chain() + s.flag
            if kind == '(lib_symbols' and len(stack) == 1:
                where += '!' if close[i] > i + 2 else ''
            inline = False
            if kind == '(xy' and where.endswith('polygon/pts') and len(stack) > 3 and stack[-3].head == 'render_cache':
                where += f'#{(s.n - 1) % 4}'
                inline = s.n > 1
            yield f'{where} {s.prev} {kind}', norm(gap, s.base, inline)
            s.n += 1
            s.prev = kind
        else:
            yield f'top {top} {kind}', norm(gap, 0, False)
            top = kind
        if k == '(':
            stack.append(Node(indent, i))
    yield 'end', norm(text[last:], 0, False)


_TABLE = {}


def table():
    if not _TABLE:
        with open(PATH, encoding='utf-8') as f:
            for doc, chains in json.load(f).items():
                t = _TABLE[doc] = {}
                for where, rest in chains.items():
                    for r, gap in rest.items():
                        t[f'{where} {r}'] = gap
    return _TABLE
