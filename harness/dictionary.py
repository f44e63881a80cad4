"""Fuzzing dictionary: the words and numbers that occur in the code under test.

``dictionary.json`` holds those of the tree the harness was written for; words and numbers that occur in the
current working tree only are drawn more often, as a change of behaviour is likely to depend on them.
So do those of statements that the tree the harness was written for does not have, and classes with such (or without some)
statements are drawn more often (``HOT``).
All this only steers the generation of inputs: no verdict depends on it.
"""
import ast
import hashlib
import json
import os
import re

from . import sut
from .model import SHORT

HERE = os.path.dirname(os.path.abspath(__file__))
PATH = os.path.join(HERE, 'dictionary.json')
PLAIN = re.compile(r"[A-Za-z_][A-Za-z0-9_.\-]*\Z")


def sources(src):
    """(module name, syntax tree) of all Python files below a directory"""
    for d, dirs, files in os.walk(src):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(d, f), encoding='utf-8') as h:
                    tree = ast.parse(h.read())
            except (OSError, SyntaxError, ValueError):
                continue
            yield os.path.relpath(os.path.join(d, f), src)[:-3].replace(os.sep, '.'), tree


def harvest(src):
    """(texts, numbers) among the constants of all Python files below a directory, doc strings left out"""
    texts, nums = set(), set()
    for _, tree in sources(src):
        docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
        for n in ast.walk(tree):
            constants(n, docs, texts, nums)
    return texts, nums


def constants(n, docs, texts, nums):
    v = folded(n) if isinstance(n, (ast.BinOp, ast.UnaryOp)) else None
    if not (isinstance(v, int) or isinstance(n, ast.Constant) and id(n) not in docs):
        return
    v = n.value if v is None else v
    if isinstance(v, bool):
        return
    if isinstance(v, str):
        for s in [v] + re.findall(r'[A-Za-z_][\w.\-]*', v):
            if 0 < len(s) <= 30 and ok(s):
                texts.add(s)
    elif isinstance(v, int) and abs(v) < 1 << 70:
        nums.add(v)
    elif isinstance(v, float) and v == v and abs(v) < 1e300:
        nums.add(v)


def pieces(tree, where=''):
    """(class, digest, node) of every simple statement, and of the head of every compound one"""
    for n in getattr(tree, 'body', ()):
        yield from piece(n, where)


def piece(n, where):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
        return
    subs = [x for f in ('body', 'orelse', 'finalbody', 'handlers') for x in (getattr(n, f, None) or ())
            if isinstance(getattr(n, f), list)]
    if isinstance(n, ast.ClassDef):
        heads, where = n.decorator_list + n.bases, where or n.name
    elif subs:
        heads = [v for f, v in ast.iter_fields(n) if f not in ('body', 'orelse', 'finalbody', 'handlers')]
        heads = [x for v in heads for x in (v if isinstance(v, list) else [v]) if isinstance(x, ast.AST)]
    else:
        heads = [n]
    for h in heads:
        yield where, hashlib.sha1(ast.dump(h).encode()).hexdigest()[:8], h
    for x in subs:
        yield from piece(x, where)


def statements(src):
    """module -> class -> digests"""
    out = {}
    for mod, tree in sources(src):
        for where, digest, _ in pieces(tree):
            out.setdefault(mod, {}).setdefault(where, []).append(digest)
    return {m: {w: ' '.join(sorted(v)) for w, v in d.items()} for m, d in out.items()}


def changed(src, base):
    """(texts and numbers of new statements, classes with new or without old statements as module.class)"""
    texts, nums, hot = set(), set(), set()
    for mod, tree in sources(src):
        old = base.get(mod, {})
        known = {x for v in old.values() for x in v.split()}
        now = {}
        for where, digest, node in pieces(tree):
            now.setdefault(where, []).append(digest)
            if digest not in known:
                for n in ast.walk(node):
                    constants(n, (), texts, nums)
        short = SHORT.get(mod, mod)
        hot |= {f'{short}.{w}' for w in set(now) | set(old) if w and ' '.join(sorted(now.get(w, ()))) != old.get(w, '')}
    return texts, nums, sorted(hot)


def folded(n):
    """Value of an expression of whole numbers such as 1 << 16 or 4 * 1024, or None"""
    if isinstance(n, ast.Constant):
        return n.value if type(n.value) is int else None
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = folded(n.operand)
        return None if v is None else -v
    if not isinstance(n, ast.BinOp):
        return None
    a, b = folded(n.left), folded(n.right)
    if a is None or b is None or abs(a) > 1 << 40 or abs(b) > 1 << 40:
        return None
    if isinstance(n.op, ast.Add):
        return a + b
    if isinstance(n.op, ast.Sub):
        return a - b
    if isinstance(n.op, ast.Mult):
        return a * b
    if isinstance(n.op, ast.LShift) and 0 <= b < 64:
        return a << b
    if isinstance(n.op, ast.Pow) and abs(a) < 1000 and 0 <= b < 20:
        return a ** b
    return None


def ok(s):
    return not s.endswith('\\') and '\r' not in s and '\x00' not in s and not any(0xd800 <= ord(c) < 0xe000 for c in s)


def _load():
    try:
        with open(PATH, encoding='utf-8') as f:
            d = json.load(f)
    except OSError:
        d = dict(texts=[], nums=[])
    top = os.path.join(sut.SRC, 'kiutils')
    texts, nums = harvest(top)
    t, n, hot = changed(top, d['statements']) if 'statements' in d else (set(), set(), [])
    return (d['texts'], sorted(texts - set(d['texts']) | t),
            d['nums'], sorted(nums - set(d['nums']) | n), hot)


TEXTS, NEW_TEXTS, NUMS, NEW_NUMS, HOT = _load()
SIZES, NEW_SIZES, NEW_LENGTHS = [], [], []        # of lists; of texts


def state():
    return [TEXTS, NEW_TEXTS, NUMS, NEW_NUMS, HOT]


def restore(st):
    for have, want in zip((TEXTS, NEW_TEXTS, NUMS, NEW_NUMS, HOT), st + [[]]):
        have[:] = want
    index()


def index():
    SIZES[:] = sorted({int(n) + d for n in NUMS for d in (-1, 0, 1) if n == int(n) and 2 <= n + d <= 120})
    NEW_SIZES[:] = sorted({int(n) + d for n in NEW_NUMS for d in (-1, 0, 1) if n == int(n) and 2 <= n + d <= 1200})
    NEW_LENGTHS[:] = sorted({int(n) + d for n in NEW_NUMS for d in (-1, 0, 1) if n == int(n) and 2 <= n + d <= 70000})


index()

VARIANTS = (
    lambda s: s,
    lambda s: s,
    lambda s: s.lower(),
    lambda s: s.upper(),
    lambda s: s.capitalize(),
    lambda s: s + '1',
    lambda s: s + ' x',
    lambda s: 'x' + s,
    lambda s: s + 's',
    lambda s: s[:-1],
    lambda s: s.swapcase(),
    lambda s: s.replace('_', ' ') if '_' in s else s.replace(' ', '_') if ' ' in s else '_' + s,
    lambda s: s.replace(' ', '').replace('_', ''),
    lambda s: ' ' + s,
    lambda s: s + ':' + s,
    lambda s: s.title(),
)


def text(g, new=False):
    pool = NEW_TEXTS if new and NEW_TEXTS else TEXTS
    if not pool:
        return 'a'
    s = g.pick(pool)
    t = g.pick(VARIANTS)(s)
    return t if ok(t) else s


def word(g, new=False):
    t = text(g, new)
    return t if PLAIN.match(t) else 'w'


def num(g, new=False):
    pool = NEW_NUMS if new and NEW_NUMS else NUMS
    if not pool:
        return 1
    n = g.pick(pool)
    c = g.below(6)
    return (n, n, n + 1, n - 1, -n, n + 0.5)[c]


def size(g, new=False):
    pool = NEW_SIZES if new and NEW_SIZES else SIZES
    return g.pick(pool) if pool else 4


def length(g):
    return g.pick(NEW_LENGTHS) if NEW_LENGTHS else 4


if __name__ == '__main__':
    t, n = harvest(os.path.join(sut.SRC, 'kiutils'))
    with open(PATH, 'w', encoding='utf-8') as f:
        json.dump(dict(texts=sorted(t), nums=sorted(n), statements=statements(os.path.join(sut.SRC, 'kiutils'))), f, indent=0)
        f.write('\n')
