"""The code under test in other processes: other hash seeds, locales, optimisation levels, working directories"""
import os
import pickle
import re
import subprocess
import sys

from . import dictionary, model, sut
from .core import Violation

NAME = re.compile(r'[A-Z][A-Z0-9_]{2,}\Z')
HERE = os.path.dirname(os.path.abspath(__file__))
LONG = {v: k for k, v in model.SHORT.items()}


def where(cls):
    mod, name = cls.split('.')
    return LONG.get(mod, mod), name


def environment(g):
    """(interpreter flags, environment variables, description)"""
    flags = list(g.pick(((), ('-O',), ('-OO',), ('-X', 'dev'), ('-X', 'utf8=0'), ('-b',))))
    env = {'PYTHONHASHSEED': str(g.pick((1, 0, 7, 42, 12345, 4294967295)))}
    if g.chance(0.6):
        env['LC_ALL'] = g.pick(('C', 'POSIX', 'C.UTF-8', 'en_US.ISO-8859-1', 'tr_TR.UTF-8'))
        if g.chance(0.5):
            env['PYTHONCOERCECLOCALE'] = '0'
    if g.chance(0.3):
        env['TZ'] = g.pick(('UTC', 'Asia/Kolkata', 'America/New_York', 'XYZ+12'))
    if g.chance(0.3):
        env['PYTHONINTMAXSTRDIGITS'] = '4300'
    if g.chance(0.3):
        env['HOME'] = '/nonexistent'
    for k in ('DEBUG', 'CI', 'KIUTILS_DEBUG', 'KICAD6_SYMBOL_DIR', 'KIPRJMOD', 'COLUMNS', 'USER', 'LANG', 'PYTEST_CURRENT_TEST'):
        if g.chance(0.15):
            env[k] = '1'
    for k in dictionary.NEW_TEXTS:          # names of environment variables, perhaps
        if NAME.match(k) and k not in env and g.chance(0.5):
            env[k] = g.pick(('1', '0', 'x'))
    return flags, env, ' '.join(flags + [f'{k}={v}' for k, v in env.items()])


def run(tasks, flags, env, d):
    """Results of the tasks in such a process"""
    out = os.path.join(d, 'results.pickle')
    e = {'PATH': os.environ.get('PATH', '')}
    e.update(env)
    cwd = os.path.join(d, 'cwd')
    os.makedirs(cwd, exist_ok=True)
    r = subprocess.run([sys.executable, *flags, os.path.join(HERE, 'envworker.py'), out, sut.SRC, cwd], env=e,
                       input=pickle.dumps(tasks), capture_output=True, timeout=100)
    if r.returncode or not os.path.exists(out):
        raise Violation(f'a process with {flags} {env} failed: exit {r.returncode}', stderr=r.stderr[-2000:].decode('utf-8', 'replace'))
    if os.listdir(cwd):
        raise Violation(f'reading and writing left files in the working directory: {os.listdir(cwd)}')
    with open(out, 'rb') as f:
        res = pickle.load(f)
    os.unlink(out)
    return res
