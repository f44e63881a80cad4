"""Runs the streams of one check over all cores, shrinks a failure, writes replay and evidence."""
import argparse
import errno
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import dictionary, model, sut
from .core import Gen, Violation, Discard, case_rng, shrink

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_S = 120
BUDGET_S = {'quick': 420, 'thorough': 6 * 3600}   # a slow machine explores less instead of giving no answer
TROUBLE = (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT, errno.EIO, errno.EROFS)


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


class Ctx:
    """What a case may use besides its Gen: a scratch directory of its own"""
    def __init__(self, base):
        self.base = base
        self.tier = 'quick'
        self._n = 0

    def scratch(self):
        d = os.path.join(self.base, f'p{os.getpid()}')
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        return d


class Stream:
    """One family of generated cases of a check.

    ``fn(g, ctx)`` returns ``(key, nontrivial, sample)`` or raises Violation / Discard.
    """
    def __init__(self, name, fn, quick, thorough, weight=1):
        self.name, self.fn = name, fn
        self.n = {'quick': quick, 'thorough': thorough}


_S = {}


def _init(modname, seed, base, tier):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sut.load()
    mod = importlib.import_module(modname)
    ctx = Ctx(base)
    ctx.tier = tier
    _S.update(mod=mod, seed=seed, streams={s.name: s for s in mod.STREAMS}, ctx=ctx, history=[])


def run_case(stream, g, ctx):
    """(status, payload): ok -> (key, nontrivial, sample); bad -> message, detail"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_S)
    model.CASE[0] = None
    try:
        return 'ok', stream.fn(g, ctx)
    except Discard:
        return 'discard', None
    except Violation as e:
        return 'bad', (e.msg, {k: str(v)[:4000] for k, v in e.detail.items()})
    except Exception as e:
        # raised by the code under test at a place the case did not guard
        if any(sut.inside(f.filename) for f in traceback.extract_tb(e.__traceback__)):
            return 'bad', (f'{type(e).__name__}: {str(e)[:300]}', {'traceback': traceback.format_exc(limit=-4)})
        # raised by the check because of what the code under test gave it (never on a tree where the property holds),
        # unless the sandbox or the check itself is in trouble
        if isinstance(e, MemoryError) or str(e).startswith('harness') or getattr(e, 'errno', None) in TROUBLE:
            raise
        return 'bad', (f'unexpected result: {type(e).__name__}: {str(e)[:300]}', {'traceback': traceback.format_exc(limit=-4)})
    except Hang:
        return 'bad', (f'the operation did not finish within {HANG_S} s', {})
    finally:
        signal.alarm(0)


def _chunk(job):
    name, lo, hi = job
    _S['history'].append(job)
    try:
        stream = _S['streams'][name]
        n = ok = disc = 0
        keys = set()
        samples = []
        for i in range(lo, hi):
            g = Gen(case_rng(_S['seed'], name, i))
            st, p = run_case(stream, g, _S['ctx'])
            n += 1
            if st == 'bad':
                return dict(name=name, n=n, disc=disc, keys=keys, samples=samples,
                            bad=dict(i=i, choices=g.rec, msg=p[0], detail=p[1], history=_S['history'][:-1] + [(name, lo, i)]))
            if st == 'discard':
                disc += 1
                continue
            key, nontrivial, sample = p
            if nontrivial:
                keys.add(hash64(key))
                if len(samples) < 1 and i >= lo + (hi - lo) // 2:
                    samples.append(str(sample)[:700])
        return dict(name=name, n=n, disc=disc, keys=keys, samples=samples, bad=None)
    except BaseException:
        return dict(name=name, error=traceback.format_exc(), at=(name, lo, hi))


def hash64(key):
    return int.from_bytes(hashlib.blake2b(str(key).encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big')


def find_check(pid):
    name = 'checks.' + pid.lower()
    return name, importlib.import_module(name)


def known_findings(pid, mod, ctx):
    """The findings listed in known_findings.json for this property that are still there"""
    with open(os.path.join(ROOT, 'known_findings.json'), encoding='utf-8') as f:
        listed = json.load(f)['findings']
    return [k['what'] for k in listed if k['property'] == pid and mod.PROBES[k['probe']](ctx)]


def forked(fn):
    """The result of fn() in a process of its own, so that it depends on no earlier case; None if that process dies"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def again(mod, seed, ctx, before, stream, choices):
    """Runs the cases `before` and then the one given by its choices: (recorded choices, status, payload)"""
    streams = {s.name: s for s in mod.STREAMS}
    for name, i in before:
        run_case(streams[name], Gen(case_rng(seed, name, i)), ctx)
    g = Gen(src=choices)
    st, p = run_case(stream, g, ctx)
    return g.rec, st, p if st == 'bad' else None


def minimise(mod, seed, ctx, stream, b):
    """Smallest found (cases run before, choices of the failing case) that fails in a fresh process"""
    def fails(choices, before=()):
        r = forked(lambda: again(mod, seed, ctx, before, stream, choices))
        return r[0] if r and r[1] == 'bad' else None

    rec = fails(b['choices'])
    if rec is not None:
        final, n = shrink(fails, rec)
        return [], final
    # depends on what ran before it in the same process
    before = [(name, i) for name, lo, hi in b['history'] for i in range(lo, hi)]
    before = [c for c in before[-2000:]]
    if fails(b['choices'], before) is None:
        return None, b['choices']
    t0 = time.time()
    size = max(1, len(before) // 2)
    while size and time.time() - t0 < 40:
        i = 0
        while i < len(before) and time.time() - t0 < 40:
            cand = before[:i] + before[i + size:]
            if fails(b['choices'], cand) is not None:
                before = cand
            else:
                i += size
        size //= 2
    final, n = shrink(lambda c: fails(c, before), b['choices'], 600, 15.0) if len(before) < 50 else (b['choices'], 0)
    return before, final


def replay(pid, path, base):
    with open(path, encoding='utf-8') as f:
        r = json.load(f)
    if 'dictionary' in r:
        dictionary.restore(r['dictionary'])
    _, mod = find_check(pid)
    stream = {s.name: s for s in mod.STREAMS}[r['stream']]
    ctx = Ctx(base)
    streams = {s.name: s for s in mod.STREAMS}
    for name, i in r.get('before') or ():
        run_case(streams[name], Gen(case_rng(r['seed'], name, i)), ctx)
    g = Gen(src=r['choices'])
    st, p = run_case(stream, g, ctx)
    print(f'stream {stream.name}: {st}')
    if st == 'bad':
        print(p[0])
        for k, v in p[1].items():
            print(f'--- {k}\n{v}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if st == 'ok':
        print(str(p[2])[:4000])
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--only')
    ap.add_argument('--fast', action='store_true', help='do not minimise a failure')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = a.property
    t0 = time.time()
    base = tempfile.mkdtemp(prefix='kiverif-')
    try:
        sut.load()
        if a.replay:
            return replay(pid, a.replay, base)
        return run(pid, a, seed, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run(pid, a, seed, base, t0):
    modname, mod = find_check(pid)
    streams = [s for s in mod.STREAMS if not a.only or s.name == a.only]
    procs = int(os.environ.get('VERIF_PROCS') or min(8, os.cpu_count() or 1))
    jobs = []
    for s in streams:
        n = max(1, int(s.n[a.tier] * a.scale))
        size = max(1, min(400, n // (procs * 6) or 1))
        jobs += [(s.name, lo, min(n, lo + size)) for lo in range(0, n, size)]
    # interleave the streams so that a failure of any of them is seen early
    jobs.sort(key=lambda j: (j[1] / max(1, next(s for s in streams if s.name == j[0]).n[a.tier]), j[0]))
    stats = {s.name: dict(cases=0, discarded=0, distinct_nontrivial=0) for s in streams}
    keys = {s.name: set() for s in streams}
    samples = {s.name: [] for s in streams}
    bad, err, early = [], None, False
    with mp.get_context('fork').Pool(procs, _init, (modname, seed, base, a.tier)) as pool:
        results = pool.imap_unordered(_chunk, jobs)
        while True:
            left = BUDGET_S[a.tier] - (time.time() - t0)
            try:
                if left <= 0:
                    raise mp.TimeoutError
                r = results.next(timeout=left)
            except StopIteration:
                break
            except mp.TimeoutError:
                early = True
                break
            if 'error' in r:
                err = r
                break
            st = stats[r['name']]
            st['cases'] += r['n']
            st['discarded'] += r['disc']
            keys[r['name']] |= r['keys']
            if len(samples[r['name']]) < 3:
                samples[r['name']] += r['samples']
            if r['bad']:
                bad.append((r['name'], r['bad']))
                break
        pool.terminate()
    if err is not None and not bad:
        print(f'error of the check in {err["at"]}:\n{err["error"]}', file=sys.stderr)
        return 3
    extra = {}
    known = []
    if not bad and not a.only:
        known = known_findings(pid, mod, Ctx(base))
        for k in known:
            print(f'KNOWN-FINDING: property={pid} {k}')
    path = None
    if bad:
        name, b = bad[0]
        stream = next(s for s in streams if s.name == name)
        ctx = Ctx(base)

        before, final = minimise(mod, seed, ctx, stream, b) if not a.fast else (None, b['choices'])
        if before is None:
            b['detail']['note'] = 'did not fail again in a process of its own, nor after the cases that ran before it'
        else:
            r = forked(lambda: again(mod, seed, ctx, before, stream, final))
            if r and r[1] == 'bad':
                b['msg'], b['detail'] = r[2]
            if before:
                b['detail']['note'] = f'needs {len(before)} earlier cases in the same process'
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{pid}-{hash64((name, tuple(final))):016x}.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(dict(property=pid, stream=name, seed=seed, case=b['i'], choices=final, before=before, message=b['msg'],
                           detail=b['detail'], dictionary=dictionary.state(),
                           run=f'python3-vt /verif/run_check.py {pid} --replay {path}'), f, indent=1)
        print(f'{pid} {mod.TITLE}')
        print(f'stream {name}, case {b["i"]} (seed {seed}), shrunk from {len(b["choices"])} to {len(final)} choices')
        print(b['msg'])
        for k, v in b['detail'].items():
            print(f'--- {k}\n{v[:1500]}')
    total = sum(s['cases'] for s in stats.values())
    for s in streams:
        stats[s.name]['distinct_nontrivial'] = len(keys[s.name])
    ev = dict(property=pid, tier=a.tier, seed=seed, level='exploration',
              coverage=dict(evaluations=total,
                            distinct_nontrivial=sum(len(k) for k in keys.values()),
                            rule=mod.RULE,
                            samples=[f'[{n}] {x}' for n, xs in samples.items() for x in xs][:12],
                            streams=stats, **extra),
              assumptions=mod.ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    if early:
        ev['coverage']['stopped_after_s'] = BUDGET_S[a.tier]
    if known:
        ev['coverage']['known_findings'] = known
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    if bad:
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print(f'{pid} held on {total} cases ({ev["coverage"]["distinct_nontrivial"]} distinct non-trivial) '
          f'in {ev["wall_s"]} s')
    return 0
