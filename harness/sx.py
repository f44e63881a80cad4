"""Reference S-expressions: an independent tokenizer, a renderer and tree comparison.

Leaves are tuples ('s', word), ('q', text), ('n', value); lists are Python lists.
The tokenizer is a hand written character scanner that shares no code or regular expression with
the code under test.
"""
from .core import Violation

WS = ' \t\n\r\x0b\x0c'
DIG = '0123456789'


def W(text): return ('s', text)
def Q(text): return ('q', text)
def N(v): return ('n', v)


def number_value(word):
    """The numeric value of an unquoted word, or None if it is not a number.

    Grammar:  [+-]? digits '.' digits exp?   |   -? digits exp?      with exp = e [+-] digits
    """
    i, n = 0, len(word)
    sign = ''
    if i < n and word[i] in '+-':
        sign = word[i]
        i += 1
    j = i
    while j < n and word[j] in DIG:
        j += 1
    if j == i:
        return None
    frac = False
    if j < n and word[j] == '.':
        k = j + 1
        while k < n and word[k] in DIG:
            k += 1
        if k == j + 1:
            return None
        frac = True
        j = k
    exp = False
    if j < n and word[j] == 'e':
        k = j + 1
        if k >= n or word[k] not in '+-':
            return None
        k += 1
        m = k
        while m < n and word[m] in DIG:
            m += 1
        if m == k:
            return None
        exp = True
        j = m
    if j != n:
        return None
    if sign == '+' and not frac:
        return None
    if frac or exp:
        return float(word)
    return int(word)


class TokenError(Exception):
    pass


def tokenize(text):
    """List of top level nodes of ``text``.  Raises TokenError when it is not well formed"""
    stack, out = [], []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
        elif c == '(':
            stack.append(out)
            out = []
            i += 1
        elif c == ')':
            if not stack:
                raise TokenError(f'unmatched ) at {i}')
            t, out = out, stack.pop()
            out.append(t)
            i += 1
        elif c == '"':
            j = i + 1
            buf = []
            while True:
                if j >= n:
                    raise TokenError(f'unterminated string at {i}: {text[i:i+40]!r}')
                d = text[j]
                if d == '\\' and j + 1 < n and text[j + 1] == '"':
                    buf.append('"')
                    j += 2
                elif d == '"':
                    break
                else:
                    buf.append(d)
                    j += 1
            j += 1
            if j < n and not (text[j].isspace() or text[j] == ')'):
                raise TokenError(f'garbage after string at {j}: {text[i:j+10]!r}')
            out.append(('q', ''.join(buf)))
            i = j
        else:
            j = i
            while j < n and not text[j].isspace() and text[j] not in '()':
                j += 1
            word = text[i:j]
            if '"' in word:
                raise TokenError(f'quote inside of word {word!r} at {i}')
            v = number_value(word)
            out.append(('s', word) if v is None else ('n', v))
            i = j
    if stack:
        raise TokenError('unclosed (')
    return out


def tokenize_one(text, what='output'):
    try:
        top = tokenize(text)
    except TokenError as e:
        raise Violation(f'{what} is not a well formed S-expression: {e}', text=text[:2000])
    if len(top) != 1 or not isinstance(top[0], list):
        raise Violation(f'{what} is not a single S-expression list but {len(top)} top level items', text=text[:2000])
    return top[0]


# ---------------------------------------------------------------- rendering

def quote(s):
    return '"' + s.replace('"', '\\"') + '"'


def plain_word(s):
    """Can this text be written without quotes and mean the same?"""
    if s == '' or number_value(s) is not None:
        return False
    return all(not c.isspace() and c not in '()"\\' for c in s)


def leaf_text(t, g=None, style=False):
    k, v = t
    if k == 'n':
        s = str(v)
        if style and g is not None and g.chance(0.15):
            return num_style(v, g)
        return s
    if k == 'q':
        if style and g is not None and plain_word(v) and g.chance(0.1):
            return v
        return quote(v)
    if style and g is not None and g.chance(0.1) and plain_word(v):
        return quote(v)
    return v


def num_style(v, g):
    """Another literal with exactly the same value"""
    c = g.below(4)
    if isinstance(v, int):
        if c == 3 and v == 0:
            return ('-0', '-0.0', '0e+00', '0.00')[g.below(4)]
        if c == 3 and abs(v) < 10**15:
            return f'{v}e+0' if v % 10 else f'{v // 10}e+01' if v > 0 else str(v)
        if c == 0 and abs(v) < 10**15:
            return f'{v}.0'
        if c == 1 and abs(v) < 10**15:
            return f'{v}.000000'
        return str(v)
    s = repr(v)
    if 'e' in s or 'n' in s:
        return s
    if c == 0:
        return s + '0'
    if c == 3:
        e = f'{v:.17e}'
        return e if float(e) == v else s
    if c == 1 and v >= 0 and not s.startswith('-'):
        return '+' + s
    return s + '000'


SEPS = (' ', '\n', '\t', '  ', '\n\n  ', ' \n\t ', '\r\n')


def render(node, g=None):
    """Text for a tree.  With a Gen, whitespace and literal style are drawn; otherwise canonical"""
    parts = []
    if g is None:
        _render(node, parts, None, 0)
    else:
        _render(node, parts, g, g.below(4))
    return ''.join(parts)


def _render(node, parts, g, mode):
    # mode 0: single blanks; 1: newline before lists; 2: random separators; 3: no optional blanks
    parts.append('(')
    first = True
    prev_list = False
    for x in node:
        is_list = isinstance(x, list)
        if not first or (mode == 2 and g.chance(0.1)):
            if mode == 0:
                parts.append(' ')
            elif mode == 1:
                parts.append('\n  ' if is_list else ' ')
            elif mode == 2:
                parts.append(SEPS[g.below(len(SEPS))])
            elif not (is_list and prev_list):
                parts.append(' ')
        if is_list:
            _render(x, parts, g, mode)
        else:
            parts.append(leaf_text(x, g, style=(g is not None and not first)))
        prev_list = is_list
        first = False
    if mode == 2 and g.chance(0.15):
        parts.append(SEPS[g.below(len(SEPS))])
    parts.append(')')


def to_parsed(node):
    """The plain nested list the documented parser yields for a tree"""
    return [to_parsed(x) if isinstance(x, list) else x[1] for x in node]


# ---------------------------------------------------------------- comparison

def leaf_eq(a, b):
    return a[0] == b[0] and a[1] == b[1]


def diff(exp, got, path='') -> str:
    """'' if equal, else a description of the first difference"""
    if isinstance(exp, list) != isinstance(got, list):
        return f'at {path}: expected {brief(exp)}, got {brief(got)}'
    if not isinstance(exp, list):
        if exp[0] != got[0] or exp[1] != got[1]:
            return f'at {path}: expected {exp!r}, got {got!r}'
        return ''
    head = exp[0][1] if exp and not isinstance(exp[0], list) else '?'
    here = f'{path}/{head}'
    for i, (a, b) in enumerate(zip(exp, got)):
        d = diff(a, b, f'{here}[{i}]')
        if d:
            return d
    if len(exp) != len(got):
        if len(exp) > len(got):
            return f'at {here}: missing {brief(exp[len(got)])}'
        return f'at {here}: unexpected extra {brief(got[len(exp)])}'
    return ''


def brief(x):
    s = render(x) if isinstance(x, list) else repr(x)
    return s if len(s) < 300 else s[:300] + '...'


# ---------------------------------------------------------------- positions and layout

def scan(text):
    """Flat tokens with their place: (kind, value, start, end); kind is '(' , ')' , 's', 'q' or 'n'"""
    out = []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
        elif c in '()':
            out.append((c, c, i, i + 1))
            i += 1
        elif c == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == '\\' and j + 1 < n and text[j + 1] == '"' else 1
            if j >= n:
                raise TokenError(f'unterminated string at {i}')
            out.append(('q', text[i + 1:j].replace('\\"', '"'), i, j + 1))
            i = j + 1
        else:
            j = i
            while j < n and not text[j].isspace() and text[j] not in '()':
                j += 1
            v = number_value(text[i:j])
            out.append(('s', text[i:j], i, j) if v is None else ('n', v, i, j))
            i = j
    return out


def gaps(text):
    """The white space before every token, and after the last one"""
    last, out = 0, []
    for t in scan(text):
        out.append(text[last:t[2]])
        last = t[3]
    out.append(text[last:])
    return out


def spans(text):
    """Tree of (start, end, head, children) of the lists of a text"""
    root, stack = [], []
    cur = root
    for k, v, a, b in scan(text):
        if k == '(':
            node = [a, None, None, []]
            cur.append(node)
            stack.append((cur, node))
            cur = node[3]
        elif k == ')':
            cur, node = stack.pop()
            node[1] = b
        elif stack and stack[-1][1][2] is None and not stack[-1][1][3]:
            stack[-1][1][2] = v
    return root
