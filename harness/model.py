"""Models: what an object means, as attributes and as the S-expression it is written as.

A model ``M`` is drawn by a spec function.  It knows
  * the class it describes and the value of every attribute            (``a``)
  * the canonical tree a writer has to produce for it                  (``tree('w')``)
  * trees a reader has to understand in the same way                   (``tree('r', g)``)
  * attribute values after writing and reading again, where these are
    documented to be normalised                                        (``rr``)
"""
import json
import os
from .core import Violation
from .sx import W, Q, N

HERE = os.path.dirname(os.path.abspath(__file__))
DEFAULTS = {}
_path = os.path.join(HERE, 'defaults.json')
if os.path.exists(_path):
    with open(_path, encoding='utf-8') as f:
        DEFAULTS = json.load(f)

CLASSES = {}          # spec name -> class; filled by load_classes()

MODULES = ('board', 'dru', 'footprint', 'libraries', 'schematic', 'symbol', 'wks',
           'items.brditems', 'items.common', 'items.dimensions', 'items.fpitems', 'items.gritems',
           'items.schitems', 'items.syitems', 'items.zones')
SHORT = {'items.brditems': 'brd', 'items.common': 'common', 'items.dimensions': 'dim',
         'items.fpitems': 'fp', 'items.gritems': 'gr', 'items.schitems': 'sch',
         'items.syitems': 'sy', 'items.zones': 'zones'}


def load_classes():
    """The public classes under the modules they are documented in, wherever they are defined"""
    import importlib
    long = {v: k for k, v in SHORT.items()}
    for key in DEFAULTS:
        mod, name = key.split('.')
        CLASSES[key] = getattr(importlib.import_module('kiutils.' + long.get(mod, mod)), name)


class Elem:
    __slots__ = ('w', 'r', 'kind', 'grp', 'open')

    def __init__(self, w, r, kind, grp, open_=False):
        self.w = w          # node, M, or None (not written)
        self.r = r          # node, M, or None (not part of the input)
        self.kind = kind    # 'p' positional, 'q' first but read anywhere, 'f' free keyed token, 'b' bare flag, 'x' fixed
        self.grp = grp
        self.open = open_   # a list that may have unknown lists at its end


_SAME = object()
CASE = [None]         # the generator of the current case
KEEP = {('common.PageSettings', 'paperSize'), ('common.Property', 'key')}      # other parts depend on these


def usual(cls, attr, val, leaf):
    """Now and then (flag 'usual') a value is explicitly the documented default of its attribute"""
    g = CASE[0]
    if g is None or 'usual' not in g.flags or val is None or (cls, attr) in KEEP:
        return val
    d = DEFAULTS[cls].get(attr)
    if isinstance(d, str) and isinstance(val, str) and (d or leaf is Q) or \
            isinstance(d, (int, float)) and isinstance(val, (int, float)) and not isinstance(d, bool):
        return d if g.chance(0.6) else val
    return val


class M:
    __slots__ = ('cls', 'head', 'a', 'rr', 'el', 'strict', 'bare', 'libid', 'wrap_r', 'noshuffle', 'wm', 'lv')

    def __init__(self, cls, head, strict=False, noshuffle=False):
        self.cls = cls
        self.head = head
        self.a = {}
        self.rr = {}
        self.el = []
        self.strict = strict          # unknown tokens are not part of the domain
        self.noshuffle = noshuffle    # reordering is not part of the domain
        self.wm = None
        self.lv = set()               # attributes that are written as a value

    # -- building blocks -------------------------------------------------
    def add(self, w, r=_SAME, kind='f', grp=None, open_=False):
        self.el.append(Elem(w, w if r is _SAME else r, kind, grp, open_))
        return self

    def P(self, attr, val, leaf):
        """Positional leaf"""
        val = usual(self.cls, attr, val, leaf)
        self.a[attr] = val
        self.lv.add(attr)
        return self.add(leaf(val), kind='p')

    def K(self, key, attr, val, leaf, grp=None):
        """``(key value)``; left out when val is None"""
        val = usual(self.cls, attr, val, leaf)
        self.a[attr] = val
        if val is not None:
            self.lv.add(attr)
            self.add([W(key), leaf(val)], grp=grp, open_=True)
        return self

    def B(self, word, attr, val, kind='b'):
        """Bare flag word"""
        self.a[attr] = val
        if val:
            self.add(W(word), kind=kind)
        return self

    def F(self, key, attr, val):
        """``(key)`` flag"""
        self.a[attr] = val
        if val:
            self.add([W(key)], open_=True)
        return self

    def YN(self, key, attr, val, yes='yes', no='no'):
        """``(key yes|no)``; left out when None"""
        self.a[attr] = val
        if val is not None:
            self.add([W(key), W(yes if val else no)], open_=True)
        return self

    def S(self, attr, sub, grp=None):
        """Sub object"""
        self.a[attr] = sub
        if sub is not None:
            self.add(sub, grp=grp)
        return self

    def L(self, attr, subs, grp=None):
        """List of sub objects, written one after the other"""
        self.a[attr] = list(subs)
        self.add(None, grp=grp or ('L:' + attr))       # marks the place of the list
        for s in subs:
            self.add(s, grp=grp or ('L:' + attr))
        return self

    # -- trees ------------------------------------------------------------
    def tree(self, mode='w', g=None):
        out = [W(self.head)] if self.head is not None else []
        if mode == 'w':
            for e in self.el:
                if e.w is not None:
                    out.append(_node(e.w, 'w', None))
            return out
        els = [e for e in self.el if e.r is not None]
        if g is not None and 'shuffle' in g.flags and not self.noshuffle:
            els = _permute(els, g)
        extra = g is not None and 'unknown' in g.flags and not self.strict
        seen_free = words = False
        for e in els:
            if e.kind in 'fx':
                seen_free = True
            if extra and seen_free and g.chance(0.12):
                out.append(unknown(g, words))
            if e.kind == 'f' and self.cls not in NO_WORDS:
                words = True
            out.append(_node(e.r, 'r', g))
            if extra and e.open and g.chance(0.04):
                out[-1] = out[-1] + [unknown(g)]
        if extra and g.chance(0.2):
            out.append(unknown(g, words))
        return out

    def __repr__(self):
        return f'<M {self.cls} {self.a}>'


NO_WORDS = ('footprint.DrillDefinition', 'dru.Constraint', 'gr.GrText', 'dru.DesignRules')      # words are values there
UNKNOWN = ('zz_future_token', 'zz_ext', 'zz_new_feature')


def unknown(g, words=False):
    if words and g.chance(0.15):
        return W(g.pick(('zz_word', 'zz', 'ZZ_FLAG')))
    from . import dictionary
    head = g.pick(UNKNOWN)
    if g.chance(0.25):
        w = dictionary.word(g, g.chance(0.5))
        head = g.pick((w + '_zz', 'zz_' + w, w[:-1] + 'zz', w.upper() + 'ZZ'))
    n = [W(head)]
    for _ in range(g.count(0, 3)):
        c = g.below(7)
        if c < 4:
            n.append((W('zz_word'), N(7), Q('zz text'), [W('zz_sub'), N(1)])[c])
        else:
            w = dictionary.word(g, g.chance(0.5))
            n.append((W(w), Q(w), [W(w), g.pick((N(1), W('yes'), Q('zz'), N(90), W('none')))])[c - 4])
    return n


def _node(x, mode, g):
    if isinstance(x, M):
        return x.tree(mode, g)
    if isinstance(x, list):
        return [_node(y, mode, g) for y in x]
    return x


def _permute(els, g):
    """Reorder free tokens; positional parts stay in front, members of a group keep their order"""
    move = [e for e in els if e.kind == 'q' and g.chance(0.5)]
    lead = [e for e in els if e.kind in 'pq' and e not in move]
    rest = move + [e for e in els if e.kind not in 'pq']
    if any(e.kind == 'x' for e in rest) or len(rest) < 2:
        return els
    groups = {}
    for i, e in enumerate(rest):
        groups.setdefault(e.grp if e.grp is not None else i, []).append(e)
    slots = g.shuffle([k for k, v in groups.items() for _ in v])
    its = {k: iter(v) for k, v in groups.items()}
    return lead + [next(its[k]) for k in slots]


# ---------------------------------------------------------------- objects

def build(m, memo=None):
    """A real object with the attributes of the model, made through the public attributes.

    With a memo, equal parts are one and the same object."""
    key = None if memo is None else repr(m)
    if key is not None and key in memo:
        return memo[key]
    obj = CLASSES[m.cls]()
    for k, v in m.a.items():
        setattr(obj, k, conv(v, memo))
    if key is not None:
        memo[key] = obj
    return obj


def conv(v, memo=None):
    if isinstance(v, M):
        return build(v, memo)
    if isinstance(v, list):
        return [conv(x, memo) for x in v]
    if isinstance(v, dict):
        return {k: conv(x, memo) for k, x in v.items()}
    return v


def unalias(m):
    """Give every item of a list that occurs in it repeatedly a copy of its own"""
    while True:
        for s in slots(m):
            if s.kind != 'single' and len({id(x) for x in s.items()}) < len(s.items()):
                seen, out = set(), []
                for x in s.items():
                    if id(x) in seen:
                        x = copy_model(x)
                    seen.add(id(x))
                    out.append(x)
                s.put(out)
                break
        else:
            return


def occurrences(m, part):
    n = 0
    for v in m.a.values():
        for x in v if isinstance(v, list) else (v,):
            if isinstance(x, M):
                n += (x is part) + occurrences(x, part)
    return n


def copy_model(m):
    """An independent copy"""
    memo = {}

    def cp(x):
        if isinstance(x, M):
            if id(x) not in memo:
                n = M(x.cls, x.head, x.strict, x.noshuffle)
                memo[id(x)] = n
                n.a = {k: cp(v) for k, v in x.a.items()}
                n.rr = {k: cp(v) for k, v in x.rr.items()}
                for e in x.el:
                    w = cp(e.w)
                    n.el.append(Elem(w, w if e.r is e.w else cp(e.r), e.kind, e.grp, e.open))
                n.lv = set(x.lv)
            return memo[id(x)]
        if isinstance(x, list):
            return [cp(y) for y in x]
        if isinstance(x, dict):
            return {k: cp(v) for k, v in x.items()}
        return x
    return cp(m)


class Slot:
    """A place in a model where items can be exchanged: a list of items, or a single item"""
    __slots__ = ('owner', 'attr', 'kind', 'path', 'key', 'elem')

    def __init__(self, owner, attr, kind, path, key, elem=None):
        self.owner, self.attr, self.kind, self.path, self.key, self.elem = owner, attr, kind, path, key, elem

    def items(self):
        return self.owner.a[self.attr]

    def put(self, new):
        """Exchange the items (a list of models) or the item (a model) of the slot"""
        o = self.owner
        o.a[self.attr] = new
        if self.kind == 'list':
            grp = 'L:' + self.attr
            at = next(i for i, e in enumerate(o.el) if e.grp == grp)
            rest = [e for e in o.el if e.grp != grp or e.w is None]
            o.el = rest[:at + 1] + [Elem(x, x, 'f', grp) for x in new] + rest[at + 1:]
        elif self.kind == 'wrapped':
            self.elem.w = self.elem.r = [self.elem.w[0]] + new
        elif isinstance(self.elem, tuple):
            lst, i = self.elem
            lst[i] = new
        else:
            self.elem.w = self.elem.r = new


def _inside(x, part):
    """(list, index) of a part within nested lists"""
    for i, y in enumerate(x):
        if y is part:
            return x, i
        if isinstance(y, list):
            r = _inside(y, part)
            if r:
                return r
    return None


def slots(m, path=(), key=()):
    """All places of a model where items can be exchanged without touching anything else"""
    out = []
    key = key + (m.cls,)
    for attr, v in m.a.items():
        if attr in m.rr:
            continue
        k = key + (attr,)
        if isinstance(v, M):
            e = [e for e in m.el if e.w is v and e.r is v]
            if len(e) == 1:
                out.append(Slot(m, attr, 'single', path, k, e[0]))
            elif not e:
                e = [r for r in (_inside(e.w, v) for e in m.el if isinstance(e.w, list) and e.w is e.r) if r]
                if len(e) == 1:
                    out.append(Slot(m, attr, 'single', path, k, e[0]))
            out += slots(v, path + (attr,), k)
        elif isinstance(v, list) and all(isinstance(x, M) for x in v):
            grp = 'L:' + attr
            e = [e for e in m.el if e.grp == grp]
            if e:
                if [id(x.w) for x in e if x.w is not None] == [id(x) for x in v] and all(x.w is x.r for x in e):
                    out.append(Slot(m, attr, 'list', path, k))
            elif v:
                e = [e for e in m.el if isinstance(e.w, list) and [id(x) for x in e.w[1:]] == [id(x) for x in v]]
                if len(e) == 1 and e[0].w is e[0].r:
                    out.append(Slot(m, attr, 'wrapped', path, k, e[0]))
            for i, x in enumerate(v):
                out += slots(x, path + (attr, i), k)
    return out


def equalise(g, m):
    """Make some parts of the model equal to others of the same kind within the same item"""
    groups = {}
    for s in slots(m):
        if s.kind == 'single':
            v = s.items()
            if (s.owner.cls, v.cls) == ('sch.HierarchicalSheet', 'common.Property'):
                continue                # told apart by their keys
            groups.setdefault((id(s.owner), v.cls, tuple(sorted(v.a))), []).append(s)
        elif len(s.items()) > 1 and g.chance(0.5):
            x = g.pick(s.items())
            s.put([y if y is x else copy_model(x) for y in s.items()])
    for ss in groups.values():
        if len(ss) > 1 and g.chance(0.7):
            x = g.pick(ss).items()
            for s in ss:
                if s.items() is not x:
                    n = copy_model(x)
                    n.head = s.items().head
                    s.put(n)


def follow(obj, path):
    for p in path:
        obj = obj[p] if isinstance(p, int) else getattr(obj, p)
    return obj


def known_attrs(cls):
    return DEFAULTS[cls]


def compare(obj, m, path, reread=False):
    """'' if the object carries exactly the model's attributes, else the first difference"""
    if type(obj).__name__ != m.cls.split('.')[1]:
        return f'{path}: expected a {m.cls}, got {type(obj).__name__}'
    for k, d in known_attrs(m.cls).items():
        if reread and k in m.rr:
            exp = m.rr[k]
        elif k in m.a:
            exp = m.a[k]
        else:
            exp = from_default(d)
        if exp is IGNORE:
            continue
        try:
            got = getattr(obj, k)
        except AttributeError:
            return f'{path}.{k}: attribute is missing'
        r = cmp_val(got, exp, f'{path}.{k}', reread)
        if r:
            return r
    return ''


IGNORE = object()


def cmp_val(got, exp, path, reread=False):
    if isinstance(exp, M):
        return compare(got, exp, path, reread)
    if isinstance(exp, DefObj):
        return compare_default(got, exp, path)
    if isinstance(exp, list):
        if not isinstance(got, (list, tuple)):
            return f'{path}: expected a list, got {got!r}'
        for i, (a, b) in enumerate(zip(got, exp)):
            r = cmp_val(a, b, f'{path}[{i}]', reread)
            if r:
                return r
        if len(got) != len(exp):
            return f'{path}: expected {len(exp)} items, got {len(got)}'
        return ''
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return f'{path}: expected a dict, got {got!r}'
        if list(got.items()) != list(exp.items()):
            return f'{path}: expected {exp!r}, got {got!r}'
        return ''
    if exp is None or isinstance(exp, bool):
        ok = got is exp
    elif isinstance(exp, (int, float)):
        ok = isinstance(got, (int, float)) and not isinstance(got, bool) and got == exp
    else:
        ok = isinstance(got, str) and got == exp
    if not ok:
        return f'{path}: expected {exp!r}, got {short(got)}'
    return ''


def short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + '...'


# ---------------------------------------------------------------- defaults

class DefObj:
    __slots__ = ('cls', 'a')

    def __init__(self, cls, a):
        self.cls = cls
        self.a = a


def from_default(d):
    if isinstance(d, dict) and '$obj' in d:
        return DefObj(d['$obj'], d['a'])
    if isinstance(d, dict) and '$ignore' in d:
        return IGNORE
    if isinstance(d, dict) and '$dict' in d:
        return {}
    return d


def compare_default(obj, d, path):
    if type(obj).__name__ != d.cls:
        return f'{path}: expected a default {d.cls}, got {short(obj)}'
    for k, x in d.a.items():
        exp = from_default(x)
        if exp is IGNORE:
            continue
        r = cmp_val(getattr(obj, k, '<missing>'), exp, f'{path}.{k}')
        if r:
            return r
    return ''


def snapshot_defaults():
    """Used once, when the harness was written, to record the documented defaults"""
    import dataclasses

    def enc(v):
        if dataclasses.is_dataclass(v):
            return {'$obj': type(v).__name__, 'a': {f.name: enc(getattr(v, f.name)) for f in dataclasses.fields(v)}}
        if isinstance(v, dict):
            assert not v
            return {'$dict': 1}
        if isinstance(v, list):
            assert not v
            return []
        assert v is None or isinstance(v, (str, int, float, bool)), v
        return v
    out = {}
    for name, c in sorted(CLASSES.items()):
        try:
            o = c()
        except TypeError:
            continue
        out[name] = {f.name: enc(getattr(o, f.name)) for f in dataclasses.fields(o)}
    out['footprint.Footprint']['tedit'] = {'$ignore': 1}
    return out
