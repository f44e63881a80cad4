"""Runs tasks in a process of its own: task list (pickle) on standard input, results (pickle) to the file named first"""
import os
import pickle
import sys


def describe(o):
    import dataclasses
    if dataclasses.is_dataclass(o):
        return (type(o).__name__,) + tuple((f.name, describe(getattr(o, f.name))) for f in dataclasses.fields(o))
    if isinstance(o, list):
        return [describe(x) for x in o]
    if isinstance(o, dict):
        return [(k, describe(v)) for k, v in o.items()]
    return (type(o).__name__, repr(o))


def perform(task):
    import importlib
    kind, args = task[0], task[1:]
    try:
        from kiutils.utils.sexpr import parse_sexp
        if kind == 'parse':
            return 'ok', describe(parse_sexp(args[0]))
        mod, name = args[0]
        cls = getattr(importlib.import_module('kiutils.' + mod), name)
        if kind == 'read':
            o = cls.from_sexpr(parse_sexp(args[1]))
            return 'ok', describe(o), o.to_sexpr() if args[2] else ''
        if kind == 'new':
            o = cls()
            if hasattr(o, 'tedit'):
                o.tedit = None              # the current time
            return 'ok', describe(o)
        if kind == 'file':
            src, dst, enc = args[1:]
            kw = {} if enc is None else {'encoding': enc}
            o = cls.from_file(src, **kw)
            o.to_file(dst, **kw)
            with open(dst, 'rb') as f:
                return 'ok', f.read()
        raise SystemExit('harness: unknown task')
    except Exception as e:
        return 'raised', type(e).__name__


if __name__ == '__main__':
    out, src, cwd = sys.argv[1:4]
    data = sys.stdin.buffer.read()
    os.chdir(cwd)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/pycache'
    sys.path.insert(0, src)
    res = [perform(t) for t in pickle.loads(data)]
    with open(out, 'wb') as f:
        pickle.dump(res, f)
