"""Value generators: numbers, texts, words.  Choice 0 is always the simplest value."""
from . import dictionary

NUMS = (1, 0, 0.5, -1, 2.54, 1.27, -0.254, 0.12, 90, 180, 45, 270, 100, 0.0, 1.0, -2.0, 10.16,
        0.000001, 1e-07, -1e-05, 123456.789012, 1e16, 1e22, -123456789, 2147483648,
        12345678901234567890, 0.1 + 0.2, 3.14159265358979, 1e-12, 99.99, 5, 8, 16, 0.8)

INTS = (1, 0, 2, 3, 4, 5, 10, -1, 31, 44, 100, 65535, 2147483648, 20171130, 20211014, 20211123, 20220914, 20221018,
        20230121, 20231120, 20240108, 20200000)


def any_num(g):
    """Numbers over the whole range of magnitudes and precisions"""
    c = g.below(6)
    if c == 0:
        return g.below(1 << 62) * (1 if g.chance(0.5) else -1)
    if c == 1:
        m = g.below(10 ** (1 + g.below(17)))
        return float(f'{"-" if g.chance(0.5) else ""}{m}e-{g.below(25)}')
    if c == 2:
        m = g.below(10 ** 17)
        return float(f'{m}e{g.below(290)}')
    if c == 3:
        return g.below(1 << 53) / (1 << g.below(80))
    if c == 4:
        return -g.below(1 << 53) / 10 ** g.below(22)
    return g.below(10 ** (1 + g.below(40)))


POOL_NUMS = (0, 1, -1, 0.5, 1.27, 90, 180, 255, 0.0, 1.0, 2, 100)


def pools(g):
    """Now and then all numbers (texts, words) of a case come from very few values, so that coincidences are common"""
    if g.chance(0.1):
        g.pool['num'] = [g.pick(POOL_NUMS) if g.chance(0.7) else num(g) for _ in range(1 + g.below(3))]
    if g.chance(0.08):
        g.pool['text'] = [text(g) for _ in range(1 + g.below(3))]
    if g.chance(0.08):
        g.pool['word'] = [word(g) for _ in range(1 + g.below(3))]


def num(g):
    if 'num' in g.pool and g.chance(0.9):
        return g.pick(g.pool['num'])
    if 'numsoup' in g.flags and g.chance(0.6):
        return any_num(g)
    new = 12 if dictionary.NEW_NUMS else 0
    c = g.below(len(NUMS) + 16 + new)
    if c < len(NUMS):
        v = NUMS[c]
    elif c >= len(NUMS) + 16:
        v = dictionary.num(g, True)
    else:
        v = some_num(g, c - len(NUMS))
    g.nums.append(v)
    return v


def some_num(g, k):
    if k >= 14:
        return g.nums[-1 - g.below(min(4, len(g.nums)))] if g.nums else 1
    if k >= 12:
        return dictionary.num(g)
    if k < 4:
        return (g.below(2000001) - 1000000) / 10 ** (k + 1)
    if k < 7:
        return g.below(20001) - 10000
    if k < 9:
        return (g.below(2000001) - 1000000) / 1000000
    if k == 9:
        return (g.below(1 << 30) - (1 << 29)) / 7.0
    if k == 10:
        return float(g.below(2001) - 1000)
    return g.below(1 << 40)


def int_(g):
    if 'num' in g.pool and g.chance(0.9):
        return int(g.pick(g.pool['num']))
    new = 6 if dictionary.NEW_NUMS else 0
    c = g.below(len(INTS) + 4 + new)
    if c < len(INTS):
        return INTS[c]
    if c == len(INTS):
        return int(dictionary.num(g))
    if c >= len(INTS) + 4:
        return int(dictionary.num(g, True))
    return g.below(100000)


TEXTS = ('a', '', 'b c', '"', 'x"y', '"q"', 'a" b', 'a") (b', '(', ')', '()', '(x', 'y)', '(a b)',
         'locked', 'hide', 'yes', 'no', 'None', 'True', 'private', 'unlocked', 'knockout', 'mirror',
         'portrait', '0', '1', '-5', '1.0', '1.50', '1e5', '007', ' lead', 'trail ', ' ', '  ',
         'tab\tin', 'line\nbreak', '\n', '\\n', 'C:\\dir\\file', 'back\\slash', '\\x', 'a\\"b', '\\" "',
         'ü', 'Ω', 'µ', '日本', '\U0001f600', '\u00a0', '\u2028', 'é\u0301', "it's", "'", '`', ';', '#', '#c',
         '%', '${REF}', '${KIPRJMOD}/a', '$HOME/x', '~/x', '$USER', '${LANG}', '%USER%', '~{RESET}', '{brace}', '[x]', '/', '/abc/def', '*.Cu', 'F&B.Cu', 'a:b', ':',
         'R_0402_1005', 'name_1_2', 'Sheet_name', 'x' * 60, 'word ' * 12, 'x' * 49, 'x' * 50, '"' * 26, 'ü' * 49, '" "', '")', '")\n(', '""',
         '|', '$', '^', '&amp;', '<b>', ',', '=', '+1', '+1.5', '--', '.', '..', '-', '@', '!', '?', '~',
         'e\u0301', '\u2126', '\u212b', '\ufb01', '\uff21', '\u00b5', '\u03bc', '\u00df', '\u0130', 'a\u200bb', '\u00ad',
         '%s', '%d', '%%', '{}', '{0}', '{{', '$$', '$1', '\\1', '\\t', '\\u00e9', '&', '&lt;', '<', '\'x\'', 'x\ty', 'a  b', 'A', 'TRUE',
         'null', 'nil', 'NaN', 'inf', '0.0', '-0', '1.', '1,5', '1e+5', '0x1F', '1_000', '2022-01-31', '20220131', '12:30',
         '(at 1 2)', '(uuid x)', 'layer', 'at', 'end', 'A.B-C_D', '3D', '5V', '+3V3', '1k5')
PIECES = ('a', 'Z', '0', ' ', '"', '(', ')', '\\', '\n', '\t', 'ä', '.', '-', ':', '_', '/', "'", ',',
          '\\"', '" ', '")', '\\n', '€', 'x1', ';', '#', '{', '}', '\u3000')


def text(g):
    """Any text a quoted field can hold (texts ending in a backslash are a recorded finding)"""
    s = _text(g)
    if 'endings' in g.flags:
        # texts may end in backslashes, as long as none starts with a blank or closing bracket
        while s and (s[0].isspace() or s[0] == ')'):
            s = s[1:]
        if g.chance(0.4):
            s += '\\' * (1 + g.count(0, 3, 0.3))
    return s


def _text(g):
    if 'text' in g.pool and g.chance(0.85):
        return g.pick(g.pool['text'])
    if 'soup' in g.flags and g.chance(0.6):
        return soup(g)
    new = 40 if dictionary.NEW_TEXTS or dictionary.NEW_LENGTHS else 0
    c = g.below(len(TEXTS) + 60 + new)
    if c < len(TEXTS):
        s = TEXTS[c]
    elif c >= len(TEXTS) + 60:
        if dictionary.NEW_LENGTHS and (not dictionary.NEW_TEXTS or c % 4 == 0):
            s = sized(g, dictionary.length(g))
        else:
            s = dictionary.text(g, True)
    else:
        s = some_text(g, c - len(TEXTS))
    g.texts.append(s)
    return s


LENGTHS = (127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 4095, 4096, 4097,
           5000, 8192, 10000, 16384, 32768, 65535, 65536)


def sized(g, n):
    """A text of a given length"""
    c = g.below(4)
    return ('x' * n, 'ab cd ' * (n // 6) + 'z' * (n % 6), 'ü' * n, '"' * n)[c]


def some_text(g, k):
    if k >= 50:
        return g.texts[-1 - g.below(min(6, len(g.texts)))] if g.texts else 'a'
    if k >= 32:
        return dictionary.text(g)
    if k >= 30:
        return sized(g, g.pick(LENGTHS) if g.chance(0.04) else 1 + g.below(100))
    s = ''.join(g.pick(PIECES) for _ in range(1 + g.count(0, 12, 0.75)))
    while s.endswith('\\'):
        s = s[:-1]
    return s


SOUP = '"\\() \n\tab0;#\'`{}[]~^%$&|<>=+-*/.,:_\x01\x08\x0b\x0c\x1b\x1f\x7f\x85\xa0\u2028\u3000\ufeff'


def soup(g):
    """Text made of the characters that matter to a tokenizer, and of arbitrary characters"""
    out = []
    n = 1 + g.count(0, 30, 0.85)
    chars = SOUP + '\r\0' if 'memory' in g.flags else SOUP
    if g.chance(0.01):
        n = 200 + g.below(3000)
    for _ in range(n):
        c = g.below(len(chars) + 20)
        if c < len(chars):
            out.append(chars[c])
        elif c < len(chars) + 8:
            out.append(g.pick(('\\"', '" ', '")', '"\n', '\\\\"', '(a "', '") (b "', '\\n')))
        elif c < len(chars) + 14:
            out.append(chr(32 + g.below(95)))
        else:
            k = 0x80 + g.below(0x10ff00 - 0x80)
            out.append(chr(k) if not 0xd800 <= k < 0xe000 else 'S')
    s = ''.join(out)
    while s.endswith('\\'):
        s = s[:-1]
    return s


WORDS = ('a', 'default', 'solid', 'b1', 'x-y', 'A_b', 'none', 'yes', 'no', 'locked', 'hide', 'F.Cu',
         '5c0ffee1', '00000000-0000-0000-0000-00005a1b2c3d', 'e63e39d7-6ac0-4ffd-8aa3-1841a4541b55',
         '1e5', '0x00010fc_ffffffff', '12ab', '1-2', '1.2.3', '-x', '+', '*.Cu', 'F&B.Cu', '5f', '^x',
         'None', 'true', 'ü', "it's", '#1', '%R', 'a:b', 'a/b', '2.5mm', '0.2mm', '1e10x', 'deadbeef',
         '~', '{x}', '$y', 'a,b', '7e', '61A7B5C2', '３', '1३', '٣.５', '-２', '１e+２', '²', '½')


def word(g):
    """A non numeric text that is written without quotes"""
    if 'word' in g.pool and g.chance(0.85):
        return g.pick(g.pool['word'])
    new = 10 if dictionary.NEW_TEXTS else 0
    c = g.below(len(WORDS) + 14 + new)
    if c < len(WORDS):
        w = WORDS[c]
    elif c >= len(WORDS) + 14:
        w = dictionary.word(g, True)
    elif c >= len(WORDS) + 12:
        w = g.words[-1 - g.below(min(4, len(g.words)))] if g.words else 'a'
    elif c >= len(WORDS) + 8:
        w = dictionary.word(g)
    else:
        w = some_word(g, c)
    g.words.append(w)
    return w


def some_word(g, c):
    h = '0123456789abcdef'
    s = ''.join(h[g.below(16)] for _ in range(7))
    return 'u' + s if c % 2 else s[:4] + '-' + s[4:] + 'f'


def stamp(g):
    """tstamp / uuid"""
    return word(g)


def bool_(g):
    return g.chance(0.5)


LAYERS = ('F.Cu', 'B.Cu', 'F.SilkS', 'In1.Cu', 'Edge.Cuts', 'User.1', 'Dwgs.User', 'a"b', 'my layer', '')


def layer(g):
    c = g.below(len(LAYERS) + 2)
    return LAYERS[c] if c < len(LAYERS) else text(g)


def opt(g, f):
    return f(g) if g.opt() else None


FLAGS = ('locked', 'hide', 'portrait', 'unlocked', 'placed', 'island', 'private')


def enum(g, options):
    """A word of an enumeration; sometimes a word the format does not list"""
    if g.chance(0.07):
        w = word(g)
        return w if w not in FLAGS else options[0]
    return g.pick(options)


def code(g, n):
    """A number of an enumeration; sometimes a number the format does not list"""
    return int_(g) if g.chance(0.12) else g.below(n)


VERSIONS = (20171130, 20200101, 20200829, 20210606, 20211014, 20211123, 20211232, 20220914, 20221018, 20221206, 20230121,
            20231014, 20231120, 20240108, 20240706, 20241229, 20250114, 4, 1)


def version(g, base):
    """A file format version: the usual one, an earlier or later one, any other"""
    c = g.below(20)
    if c < 8:
        return base + c % 3
    if c < 14:
        return g.pick(VERSIONS)
    if c < 18:
        return 20000000 + g.below(30) * 10000 + (1 + g.below(12)) * 100 + 1 + g.below(28)
    return abs(int_(g))
