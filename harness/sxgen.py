"""Arbitrary S-expressions (for the parser properties)"""
from .sx import W, Q, number_value, plain_word
from .values import text, soup, WORDS

WORDCH = 'abcxyzABCXYZ0123456789_-+.*/:;,~!?$%&{}[]<>|@#^=\'`\\äΩ日'
NEARNUM = ('1e5', '+5', '.5', '5.', '1.2.3', '0x10', '1-2', '--1', '-', '+', '.', '-.5', '1_000', '1e+5x', '1.5e3',
           '1E+5', '1.0E-3', '+-1', '1,5', 'e+5', '1e', '1e+', '1.e+5', '-x', '12ab', '5c0ffee', '1.2e+', 'inf', 'nan',
           '1e5-3', '0.5mm', '-1e', '+1e+5', '9-9-9', '5f', 'NaN', '1e+-5')


def word(g):
    c = g.below(10)
    if c < 3:
        return g.pick(WORDS)
    if c < 6:
        return g.pick(NEARNUM)
    s = ''.join(g.pick(WORDCH) for _ in range(1 + g.count(0, 12, 0.7)))
    return s if number_value(s) is None else 'w' + s


def digits(g, hi=12, p=0.6):
    return ''.join('0123456789'[g.below(10)] for _ in range(1 + g.count(0, hi, p)))


def number(g):
    """A literal of the number grammar"""
    c = g.below(8)
    exp = ''
    if g.chance(0.25):
        exp = 'e' + g.pick('+-') + str(g.below((25, 300)[g.below(2)]))
    if c < 3:
        return ('-' if g.chance(0.4) else '') + digits(g) + exp
    if c == 3:
        return ('-' if g.chance(0.4) else '') + digits(g, 40, 0.93) + (exp if g.chance(0.2) else '')
    frac = digits(g, 18, 0.75)
    if c == 4:
        frac = '0' * (1 + g.below(6))
    if c == 5:
        frac = frac + '000'
    return g.pick(('', '-', '+', '')) + digits(g, 9) + '.' + frac + exp


class Lit(tuple):
    """A leaf with the literal text it is spelled as"""
    def __new__(cls, kind, value, lit):
        t = tuple.__new__(cls, (kind, value))
        t.lit = lit
        return t


def leaf(g):
    c = g.below(10)
    if c < 3:
        w = word(g)
        return Lit('s', w, w)
    if c < 6:
        lit = number(g)
        return Lit('n', number_value(lit), lit)
    s = soup(g) if g.chance(0.3) else text(g)
    return Lit('q', s, '"' + s.replace('"', '\\"') + '"')


def tree(g, depth=0, budget=None):
    """A nested list; lists may be empty, and may start with anything"""
    if budget is None:
        budget = [120]
    out = []
    n = g.count(0, 8, 0.72)
    for _ in range(n):
        budget[0] -= 1
        if budget[0] < 0:
            break
        if depth < 7 and g.chance(0.33):
            out.append(tree(g, depth + 1, budget))
        else:
            out.append(leaf(g))
    return out


SEPS = (' ', '\n', '\t', '  ', '\n  ', '\n\n', ' \n\t ', '\t\t', '\n        ', '\r\n', '\r\n  ')


def tokens(t):
    """Flat token list: '(' , ')' and leaves"""
    out = ['(']
    for x in t:
        if isinstance(x, list):
            out += tokens(x)
        else:
            out.append(x)
    out.append(')')
    return out


def spell(toks, g):
    """Text of a token list; blanks are optional next to brackets except between a number or quoted text and '('"""
    mode = g.below(4)
    out = []
    prev = None
    for t in toks:
        cur = t if isinstance(t, str) else 'w' if t[0] == 's' else 'a'
        if prev is not None:
            need = prev in 'aw' and cur in 'aw' or prev == 'a' and cur == '('
            if mode == 0:
                if need or cur != ')' and prev != '(':
                    out.append(' ')
            elif mode == 1:
                if need:
                    out.append(' ')
            elif mode == 2:
                if need or g.chance(0.4):
                    out.append(SEPS[g.below(len(SEPS))])
            else:
                if need:
                    out.append('\n')
                elif cur == '(':
                    out.append('\n  ')
        out.append(t if isinstance(t, str) else t.lit)
        prev = cur
    s = ''.join(out)
    if g.chance(0.2):
        s = g.pick(SEPS) + s
    if g.chance(0.3):
        s = s + g.pick(SEPS)
    return s
