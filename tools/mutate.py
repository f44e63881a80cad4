"""Systematic mutants of the code under test: which survive the repository's tests, and which of those the checks miss.

    python3-vt tools/mutate.py WORKDIR [--checks C04,C11] [--scale 0.2] [--sample N] [--file board.py]

Works on scratch copies below WORKDIR (outside of /repo and /verif); prints the surviving mutants.
"""
import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FORMAT = {'board.py': 'C04', 'brditems.py': 'C04', 'gritems.py': 'C04', 'dimensions.py': 'C04', 'zones.py': 'C04', 'footprint.py': 'C05',
          'fpitems.py': 'C05', 'schematic.py': 'C06', 'schitems.py': 'C06', 'symbol.py': 'C07', 'syitems.py': 'C07', 'wks.py': 'C08',
          'dru.py': 'C09', 'libraries.py': 'C09'}


def is_doc(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)


def sites(tree):
    """(description, function that applies the mutation to a copy of the tree)"""
    nodes = list(ast.walk(tree))
    docs = {id(n.value) for n in nodes if is_doc(n)}
    messages = {id(v) for n in nodes if isinstance(n, ast.Raise) for v in ast.walk(n)}
    injoined = {id(v) for n in nodes if isinstance(n, ast.JoinedStr) for v in n.values}
    out = []

    def at(i, desc, fn):
        out.append((i, f'{getattr(nodes[i], "lineno", 0)}: {desc}', fn))

    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            if isinstance(n.ops[0], ast.IsNot):
                at(i, f'truthiness {ast.unparse(n)}', lambda m: ('replace', m.left))
            if isinstance(n.ops[0], (ast.Gt, ast.GtE, ast.Lt, ast.LtE)):
                at(i, f'compare+1 {ast.unparse(n)}', lambda m: m.comparators.__setitem__(0, ast.BinOp(m.comparators[0], ast.Add(), ast.Constant(1))))
            if isinstance(n.ops[0], ast.Eq):
                at(i, f'negate {ast.unparse(n)}', lambda m: m.ops.__setitem__(0, ast.NotEq()))
                if isinstance(n.comparators[0], ast.Constant) and isinstance(n.comparators[0].value, str):
                    at(i, f'other word {ast.unparse(n)}', lambda m: setattr(m.comparators[0], 'value', m.comparators[0].value + 'x'))
        if isinstance(n, ast.BoolOp):
            at(i, f'and/or {ast.unparse(n)[:60]}', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                at(i, f'drop operand {k} {ast.unparse(n)[:60]}', lambda m, k=k: m.values.pop(k) if len(m.values) > 2 else ('replace', m.values[1 - k]))
        if isinstance(n, ast.Raise):
            at(i, 'no raise', lambda m: ('replace', ast.Pass()))
        if isinstance(n, ast.Assert):
            at(i, 'no assert', lambda m: ('replace', ast.Pass()))
        if isinstance(n, (ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
            at(i, f'drop {ast.unparse(n)[:70]}', lambda m: ('replace', ast.Pass()))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            at(i, f'drop {ast.unparse(n)[:70]}', lambda m: ('replace', ast.Pass()))
            if isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'append':
                at(i, f'prepend {ast.unparse(n)[:70]}', lambda m: (setattr(m.value.func, 'attr', 'insert'), m.value.args.insert(0, ast.Constant(0)))[:0])
                at(i, f'unique {ast.unparse(n)[:70]}', unique)
        if isinstance(n, ast.Continue):
            at(i, 'continue->break', lambda m: ('replace', ast.Break()))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'dequote':
            at(i, f'no escape {ast.unparse(n)}', lambda m: ('replace', m.args[0]))
            at(i, f'strip {ast.unparse(n)}', lambda m: ('replace', ast.Call(ast.Attribute(m, 'strip'), [], [])))
            at(i, f'lower {ast.unparse(n)}', lambda m: ('replace', ast.Call(ast.Attribute(m, 'lower'), [], [])))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if isinstance(n.slice.lower, ast.Constant):
                at(i, f'slice+1 {ast.unparse(n)}', lambda m: setattr(m.slice.lower, 'value', m.slice.lower.value + 1))
            at(i, f'slice upper {ast.unparse(n)}', lambda m: setattr(m.slice, 'upper', ast.Constant(-1)) if m.slice.upper is None else setattr(m.slice, 'upper', None))
        if isinstance(n, ast.Constant) and id(n) in injoined and isinstance(n.value, str):
            v = n.value
            if '\n' in v:
                at(i, f'no line break {v!r:.50}', lambda m: setattr(m, 'value', m.value.replace('\n', ' ', 1)))
            if ' ' in v:
                at(i, f'two blanks {v!r:.50}', lambda m: setattr(m, 'value', m.value.replace(' ', '  ', 1)))
                at(i, f'no blank {v!r:.50}', lambda m: setattr(m, 'value', m.value.replace(' ', '', 1)))
            if ')' in v:
                at(i, f'no bracket {v!r:.50}', lambda m: setattr(m, 'value', m.value.replace(')', '', 1)))
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, bool):
                at(i, f'flip {n.value}', lambda m: setattr(m, 'value', not m.value))
            elif isinstance(n.value, (int, float)):
                at(i, f'number {n.value}+1', lambda m: setattr(m, 'value', m.value + 1))
            elif id(n) in messages:
                pass
            elif n.value is None:
                at(i, 'None->0', lambda m: setattr(m, 'value', 0))
            elif isinstance(n.value, str) and n.value not in ('', ' ', '\n'):
                at(i, f'text {n.value!r:.40}', lambda m: setattr(m, 'value', m.value + '_'))
        if isinstance(n, ast.FormattedValue) and isinstance(n.value, ast.Attribute):
            at(i, f'round {ast.unparse(n.value)}', lambda m: setattr(m, 'value', ast.Call(ast.Name('_round'), [m.value], [])))
        if isinstance(n, ast.keyword) and n.arg == 'default_factory' and isinstance(n.value, ast.Lambda):
            at(i, f'shared {ast.unparse(n.value)}', lambda m: setattr(m, 'value', ast.Lambda(m.value.args, ast.Call(ast.Name('_shared'), [ast.Constant(ast.unparse(m.value.body)), m.value.body], []))))
        if isinstance(n, ast.IfExp):
            at(i, f'ifexp always {ast.unparse(n)[:60]}', lambda m: ('replace', m.body))
            at(i, f'ifexp never {ast.unparse(n)[:60]}', lambda m: ('replace', m.orelse))
        if isinstance(n, ast.If):
            at(i, f'if always {ast.unparse(n.test)[:60]}', lambda m: setattr(m, 'test', ast.Constant(True)))
            at(i, f'if never {ast.unparse(n.test)[:60]}', lambda m: setattr(m, 'test', ast.Constant(False)))
    return out


def subtle(tree):
    """Mutants that need a coincidence: as sites()"""
    rnd = random.Random(7)
    out = []
    nodes = list(ast.walk(tree))
    index = {id(n): i for i, n in enumerate(nodes)}
    expr = lambda t: ast.parse(t, mode='eval').body

    def at(n, desc, fn):
        out.append((index[id(n)], f'{getattr(n, "lineno", 0)}: {desc}', fn))

    for c in nodes:
        if not isinstance(c, ast.ClassDef):
            continue
        names = [f.target.id for f in c.body if isinstance(f, ast.AnnAssign) and isinstance(f.target, ast.Name)]
        flags = [f.target.id for f in c.body if isinstance(f, ast.AnnAssign) and ast.unparse(f.annotation) == 'bool']
        opts = [f.target.id for f in c.body if isinstance(f, ast.AnnAssign) and 'Optional' in ast.unparse(f.annotation)]
        lists = [f.target.id for f in c.body if isinstance(f, ast.AnnAssign) and 'List' in ast.unparse(f.annotation)]
        for fn in c.body:
            if not isinstance(fn, ast.FunctionDef) or fn.name not in ('to_sexpr', 'from_sexpr'):
                continue
            me = 'self' if fn.name == 'to_sexpr' else 'object'

            def twist(a):
                """A condition that seldom is true"""
                k = rnd.randrange(6)
                others = [x for x in names if x != a]
                pick = lambda p: rnd.choice([x for x in p if x != a] or others or [a])
                if k == 0:
                    return f'{me}.{a} == {me}.{pick(others)}' if me == 'self' else f'len(exp) == {rnd.randrange(5, 12)}'
                if k == 1:
                    return f'{me}.{pick(flags + opts)} and {me}.{pick(flags + opts)}'
                if k == 2:
                    return f'len({me}.{pick(lists)}) > {rnd.choice((2, 3, 5, 8))}' if lists else f'{me}.{pick(opts)} == 0'
                if k == 3:
                    return f'{me}.{pick(opts)} in (0, "", "none", "default")'
                if k == 4:
                    return f'{me}.{pick(flags + opts)} and not {me}.{pick(flags + opts)} and {me}.{pick(opts + lists)}'
                return f'{me}.{pick(opts)} is None and {me}.{pick(flags + lists)} and {me}.{pick(flags + lists + opts)}'
            for n in ast.walk(fn):
                if me == 'self' and isinstance(n, (ast.If, ast.IfExp)):
                    at_ = [x.attr for x in ast.walk(n.test) if isinstance(x, ast.Attribute) and x.attr in names]
                    if at_:
                        t = twist(at_[0])
                        at(n, f'write {at_[0]} not if {t}', lambda m, t=t: setattr(m, 'test', ast.BoolOp(ast.And(), [m.test, ast.UnaryOp(ast.Not(), expr(t))])))
                if me == 'object' and isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and ast.unparse(n.test).startswith('item'):
                    a = [x.attr for b in n.body for x in ast.walk(b) if isinstance(x, ast.Attribute) and x.attr in names]
                    if a:
                        t = twist(a[0])
                        at(n, f'read {a[0]} not if {t}', lambda m, t=t: setattr(m, 'test', ast.BoolOp(ast.And(), [m.test, ast.UnaryOp(ast.Not(), expr(t))])))
                if me == 'self' and isinstance(n, ast.For) and isinstance(n.iter, ast.Attribute):
                    t = rnd.choice(('{x}[:40]', 'sorted({x}, key=id) if len({x}) > 6 else {x}', '[i for k, i in enumerate({x}) if not k or i != {x}[k - 1] or len({x}) > 3]',
                                    '{x}[:7] + {x}[8:]', '[i for k, i in enumerate({x}) if i not in {x}[:k]]')).replace('{x}', ast.unparse(n.iter))
                    at(n, f'loop over {t}', lambda m, t=t: setattr(m, 'iter', expr(t)))
                if isinstance(n, ast.FormattedValue) and isinstance(n.value, ast.Attribute):
                    t = rnd.choice(('_round9({x})', '_abs({x})', '_turn({x})', '_word({x})', '_big({x})')).replace('{x}', ast.unparse(n.value))
                    at(n, f'write {t}', lambda m, t=t: setattr(m, 'value', expr(t)))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'dequote':
                    t = rnd.choice(('_tab({x})', '_end({x})', '_esc({x})', '_ctl({x})', '_two({x})')).replace('{x}', ast.unparse(n.args[0]))
                    at(n, f'write {t}', lambda m, t=t: ('replace', expr(t)))
    return out


def unique(m):
    call = m.value
    return ('replace', ast.If(ast.Compare(call.args[0], [ast.NotIn()], [call.func.value]), [copy.deepcopy(m)], []))


HELP = '''
def _round(x):
    return round(x, 4) if isinstance(x, float) else x
_cache = {}
def _shared(k, v):
    return _cache.setdefault(k, v)
def _round9(x):
    return round(x, 9) if isinstance(x, float) else x
def _abs(x):
    return 0 if x == 0 else x if not isinstance(x, float) or abs(x) > 1e-4 else 0.0
def _turn(x):
    return x if not isinstance(x, (int, float)) or -360 <= x <= 3600 or isinstance(x, bool) else x % 3600
def _word(x):
    return x if not isinstance(x, str) else x.lower() if x.isupper() and len(x) < 4 else x
def _big(x):
    return x if not isinstance(x, int) or x < 2 ** 31 else float(x)
def _q(x):
    return str(x).replace('"', chr(92) + '"')
def _tab(x):
    return _q(x).replace(chr(9), ' ')
def _end(x):
    return _q(x).rstrip(chr(10))
def _esc(x):
    return _q(str(x).replace(chr(92) + '"', '"'))
def _ctl(x):
    return _q(x) if str(x).isprintable() or chr(10) in str(x) else ''.join(c for c in _q(x) if c.isprintable())
def _two(x):
    return _q(x) if '""' not in str(x) else _q(str(x).replace('""', '"'))
'''


def mutant(path, k):
    """Source of mutant k of a file, or None"""
    with open(path, encoding='utf-8') as f:
        tree = ast.parse(f.read())
    i, desc, fn = (subtle if k < 0 else sites)(tree)[abs(k) - 1 if k < 0 else k]
    nodes = list(ast.walk(tree))
    target = nodes[i]
    r = fn(target)
    if isinstance(r, tuple) and r and r[0] == 'replace':
        class T(ast.NodeTransformer):
            def visit(self, node):
                return r[1] if node is target else self.generic_visit(node)
        # the replacement may hold the target's children, so replace in the parent by hand
        for p in nodes:
            for f, v in ast.iter_fields(p):
                if v is target:
                    setattr(p, f, r[1])
                elif isinstance(v, list):
                    for j, x in enumerate(v):
                        if x is target and p is not r[1]:
                            v[j] = r[1]
    src = ast.unparse(ast.fix_missing_locations(tree))
    head, sep, rest = src.partition('from __future__ import annotations\n')
    return (head + sep + HELP + rest) if sep else HELP + src


def work(job):
    base, f, k, desc, checks, scale = job
    w = os.path.join(base, f'w{os.getpid()}')
    if not os.path.exists(w):
        subprocess.run(['git', 'clone', '-q', REPO, w], check=True)
    path = os.path.join(w, 'src', 'kiutils', f)
    with open(path, encoding='utf-8') as h:
        old = h.read()
    try:
        new = mutant(os.path.join(REPO, 'src', 'kiutils', f), k)
        with open(path, 'w', encoding='utf-8') as h:
            h.write(new)
        env = dict(os.environ, PYTHONPATH=w + '/src', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=w,
                               env=env, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return f, k, desc, 'tests', ''
        subprocess.run(['git', 'checkout', '-q', '--', 'tests'], cwd=w)
        subprocess.run(['git', 'clean', '-fdq', 'tests'], cwd=w)
        if r.returncode:
            return f, k, desc, 'tests', ''
        env = dict(os.environ, VERIF_REPO=w, VERIF_PROCS='1')
        got = []
        for c in checks:
            r = subprocess.run(['python3-vt', os.path.join(ROOT, 'run_check.py'), c, '--fast', '--scale', str(scale)], cwd=w, env=env,
                               capture_output=True, text=True)
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return f, k, desc, 'caught', c
            if r.returncode:
                got.append(f'{c}={r.returncode}')
        return f, k, desc, 'SURVIVED', ' '.join(got)
    finally:
        with open(path, 'w', encoding='utf-8') as h:
            h.write(old)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('work')
    ap.add_argument('--checks')
    ap.add_argument('--scale', type=float, default=0.1)
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--file')
    ap.add_argument('--subtle', action='store_true', help='mutants that need a coincidence, judged by the check of the format')
    ap.add_argument('--again', help='log of an earlier run: only its survivors')
    a = ap.parse_args()
    checks = a.checks.split(',') if a.checks else [f'C{i:02d}' for i in
                                                   (11, 10, 12, 3, 13, 21, 15, 14, 1, 2, 16, 17, 18, 19, 20, 22, 23, 24, 25, 26)]
    jobs = []
    top = os.path.join(REPO, 'src', 'kiutils')
    for d, _, files in os.walk(top):
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(d, f), top)
            if not f.endswith('.py') or f == '__init__.py' or (a.file and rel != a.file):
                continue
            with open(os.path.join(d, f), encoding='utf-8') as h:
                tree = ast.parse(h.read())
                if a.subtle:
                    for k, (i, desc, fn) in enumerate(subtle(tree)):
                        jobs.append((a.work, rel, -1 - k, desc, checks if a.checks else [FORMAT.get(os.path.basename(f), f'C0{4 + k % 4}')], a.scale))
                else:
                    for k, (i, desc, fn) in enumerate(sites(tree)):
                        jobs.append((a.work, rel, k, desc, checks, a.scale))
    if a.again:
        with open(a.again) as h:
            keep = {(x.split()[1], x.split(' ', 3)[3].strip()) for x in h if x.startswith('SURVIVED')}
        jobs = [j for j in jobs if (j[1], j[3].strip()) in keep]
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[:a.sample]
    os.makedirs(a.work, exist_ok=True)
    tally = {}
    with mp.Pool(8) as pool:
        for n, (f, k, desc, st, by) in enumerate(pool.imap_unordered(work, jobs)):
            tally[st] = tally.get(st, 0) + 1
            if st == 'caught':
                tally[by] = tally.get(by, 0) + 1
            if st == 'SURVIVED':
                print(f'SURVIVED {f} #{k} {desc} {by}', flush=True)
            if n % 200 == 199:
                print(f'-- {n + 1} of {len(jobs)}: {json.dumps(tally)}', flush=True)
    print(json.dumps(tally))
    shutil.rmtree(a.work, ignore_errors=True)


if __name__ == '__main__':
    main()
