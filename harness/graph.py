"""Walking over real object graphs"""
import dataclasses


def is_obj(v):
    return dataclasses.is_dataclass(v) and not isinstance(v, type)


def attributes(v):
    """Public attributes of an object (what an object keeps for itself is judged by what it does)"""
    own = getattr(v, '__dict__', None) or {f.name: getattr(v, f.name) for f in dataclasses.fields(v)}
    return [(k, x) for k, x in own.items() if not k.startswith('_')]


def fingerprint(v, seen=None):
    """A value that is equal for two graphs exactly if they carry the same data (types included)"""
    if is_obj(v):
        return (type(v).__name__,) + tuple((k, fingerprint(x)) for k, x in sorted(attributes(v)))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(fingerprint(x) for x in v)
    if isinstance(v, dict):
        return ('dict',) + tuple((fingerprint(k), fingerprint(x)) for k, x in v.items())
    return (type(v).__name__, repr(v))


def difference(a, b, path=''):
    """Where two fingerprints differ"""
    if a == b:
        return ''
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and len(a) > 0:
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                p = path
                if isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], str) and len(x) == 2:
                    p = f'{path}.{x[0]}'
                return difference(x, y, p)
    return f'{path}: {str(a)[:200]} / {str(b)[:200]}'


def children(v):
    """Directly contained objects, as (owner, setter key, value)"""
    for k, x in attributes(v):
        if is_obj(x):
            yield v, k, None, x
        elif isinstance(x, list):
            for i, y in enumerate(x):
                if is_obj(y):
                    yield v, k, i, y


def all_objects(v):
    out = [v]
    for _, _, _, x in children(v):
        out += all_objects(x)
    return out


def containers(v, out=None, path=''):
    """Every mutable part of a graph: id -> path"""
    out = {} if out is None else out
    if is_obj(v):
        if id(v) in out:
            return out
        out[id(v)] = path or type(v).__name__
        for k, x in attributes(v):
            containers(x, out, f'{path}.{k}')
    elif isinstance(v, list):
        out[id(v)] = path
        for i, x in enumerate(v):
            containers(x, out, f'{path}[{i}]')
    elif isinstance(v, dict):
        out[id(v)] = path
        for k, x in v.items():
            containers(x, out, f'{path}[{k!r}]')
    return out


def twice(v, path='', seen=None):
    """'' if every mutable part of a graph is reached in one way only, else two ways to one part"""
    seen = {} if seen is None else seen
    if is_obj(v):
        parts = [(f'{path}.{k}', x) for k, x in attributes(v)]
    elif isinstance(v, list):
        parts = [(f'{path}[{i}]', x) for i, x in enumerate(v)]
    elif isinstance(v, dict):
        parts = [(f'{path}[{k!r}]', x) for k, x in v.items()]
    else:
        return ''
    if id(v) in seen:
        return f'{seen[id(v)]} and {path}'
    seen[id(v)] = path
    for p, x in parts:
        r = twice(x, p, seen)
        if r:
            return r
    return ''


def wreck(v):
    """Change every attribute, list and dictionary of a graph in place"""
    if is_obj(v):
        for k, x in attributes(v):
            if is_obj(x) or isinstance(x, (list, dict)):
                wreck(x)
            elif isinstance(x, bool):
                setattr(v, k, not x)
            elif isinstance(x, (int, float)):
                setattr(v, k, x + 17)
            elif isinstance(x, str):
                setattr(v, k, x + 'WRECK')
            else:
                setattr(v, k, 'WRECK')
    elif isinstance(v, list):
        for x in v:
            wreck(x)
        v.append('WRECK')
    elif isinstance(v, dict):
        for x in v.values():
            wreck(x)
        v['WRECK'] = 'WRECK'
