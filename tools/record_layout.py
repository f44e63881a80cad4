"""Records harness/layout.json from the working tree: the white space at every place of the documents written.

Run by hand once, when the layout had been reviewed; no check runs it.  Only places with a single layout are recorded."""
import collections
import json
import multiprocessing as mp
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, layout, specs, sut          # noqa: E402
from harness.model import build                       # noqa: E402


def job(a):
    doc, lo, hi = a
    sut.load()
    tab = collections.defaultdict(dict)
    for i in range(lo, hi):
        g = core.Gen(core.case_rng('layout', doc, i))
        g.set_density()
        if i % 7 == 0:
            g.flags.add('long')
        text = build(specs.SPECS[doc](g)).to_sexpr()
        for k, v in layout.walk(text):
            tab[k].setdefault(v, text[:0])
    return doc, {k: sorted(v) for k, v in tab.items()}


if __name__ == '__main__':
    n = int(sys.argv[1])
    jobs = [(d, lo, lo + 250) for d in specs.DOCUMENTS for lo in range(0, n, 250)]
    tabs = {d: collections.defaultdict(set) for d in specs.DOCUMENTS}
    with mp.Pool(8) as p:
        for doc, t in p.imap_unordered(job, jobs):
            for k, v in t.items():
                tabs[doc][k].update(v)
    out = {}
    for doc, t in tabs.items():
        o = {}
        for k, v in sorted(t.items()):
            if len(v) > 1:
                print('ambiguous', doc, repr(k), v)
                continue
            where, _, rest = k.partition(' ')
            o.setdefault(where, {})[rest] = next(iter(v))
        out[doc] = o
        print(doc, len(t))
    with open(layout.PATH, 'w', encoding='utf-8') as f:
        json.dump(out, f, indent=0, sort_keys=True)
