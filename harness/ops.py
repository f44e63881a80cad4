"""Calls into the code under test.  Any exception it raises for an input of the domain is a violation."""
import os
import traceback

from . import model, specs, sx
from .core import Violation
from .model import M, build, compare


def guarded(what, f, *args, **kw):
    try:
        return f(*args, **kw)
    except Violation:
        raise
    except Exception as e:
        tb = traceback.format_exc(limit=-3)
        raise Violation(f'{what} raised {type(e).__name__}: {str(e)[:300]}', traceback=tb) from None


def parser():
    from kiutils.utils.sexpr import parse_sexp
    return parse_sexp


def parse(text):
    return guarded('parsing', parser(), text)


def cls_of(m):
    return model.CLASSES[m.cls if isinstance(m, M) else m]


def from_sexpr(cls, exp):
    return guarded(f'reading a {cls.__name__}', cls.from_sexpr, exp)


def read_text(m, text):
    """What a user gets for the text of an item or document (as a whole S-expression)"""
    return from_sexpr(cls_of(m), parse(text))


def make(m, shared=False):
    return guarded(f'constructing a {m.cls}', build, m, {} if shared else None)


def to_sexpr(obj, **kw):
    s = guarded(f'writing a {type(obj).__name__}', obj.to_sexpr, **kw)
    if not isinstance(s, str):
        raise Violation(f'to_sexpr of a {type(obj).__name__} gave a {type(s).__name__}')
    return s


def written(obj, **kw):
    """The tree an object is written as"""
    s = to_sexpr(obj, **kw)
    if type(obj).__name__ == 'DesignRules':
        return sx.tokenize_one('(' + s + ')', 'what is written'), s
    return sx.tokenize_one(s, 'what is written'), s


def is_document(m):
    return m.cls in specs.DOCUMENTS


def file_text(m, tree, g=None):
    """Text of a document file for a tree"""
    if m.cls == 'dru.DesignRules':
        return '\n'.join(sx.render(x, g) for x in tree) + '\n'
    return sx.render(tree, g) + ('\n' if g is None or g.chance(0.7) else '')


SUFFIX = {'board.Board': '.kicad_pcb', 'footprint.Footprint': '.kicad_mod', 'schematic.Schematic': '.kicad_sch',
          'symbol.SymbolLib': '.kicad_sym', 'wks.WorkSheet': '.kicad_wks', 'dru.DesignRules': '.kicad_dru',
          'libraries.LibTable': ''}


def put(path, text, encoding='utf-8'):
    with open(path, 'w', encoding=encoding, newline='') as f:
        f.write(text)


def get(path, encoding='utf-8'):
    with open(path, 'rb') as f:
        b = f.read()
    try:
        return b.decode(encoding)
    except UnicodeDecodeError as e:
        raise Violation(f'the saved file is not valid {encoding}: {e}')


def load(cls, path, encoding='utf-8'):
    return guarded(f'loading a {cls.__name__} file', cls.from_file, path, encoding=encoding)


def save(obj, path=None, encoding='utf-8'):
    if path is None:
        guarded(f'saving a {type(obj).__name__} file', obj.to_file, encoding=encoding)
    else:
        guarded(f'saving a {type(obj).__name__} file', obj.to_file, path, encoding=encoding)


def file_tree(m, text):
    if m.cls == 'dru.DesignRules':
        try:
            return sx.tokenize(text)
        except sx.TokenError as e:
            raise Violation(f'the saved file is not well formed: {e}', text=text[:2000])
    return sx.tokenize_one(text, 'the saved file')


# ---------------------------------------------------------------- oracles

def check_object(obj, m, what, reread=False, text=None):
    d = compare(obj, m, m.cls.split('.')[1], reread)
    if d:
        raise Violation(f'{what}: {d}', **({'text': text} if text is not None else {}))


def check_loaded(obj, m, path, what, reread=False, text=None):
    """As check_object, for a document loaded from a file"""
    old = dict(m.a)
    m.a['filePath'] = path
    try:
        check_object(obj, m, what, reread, text)
    finally:
        m.a = old


def check_tree(got, exp, what, text=None):
    d = sx.diff(exp, got)
    if d:
        raise Violation(f'{what}: {d}', **({'text': text} if text is not None else {}))


def check_equal(a, b, what, text=None):
    """The library's own equality of two objects"""
    if not guarded('comparing two objects', lambda: a == b):
        raise Violation(f'{what}: the objects are not equal', **({'text': text} if text is not None else {}))


def size(tree):
    return sum(size(x) if isinstance(x, list) else 1 for x in tree)


def depth(tree):
    return 1 + max((depth(x) for x in tree if isinstance(x, list)), default=0)


def names_of(*families):
    return [n for n in specs.SPECS if specs.FAMILY[n] in families]


def describe(m, text):
    return f'{m.cls}: {text[:500]}'
