#!/usr/bin/env python3
"""Writes vf/data/threads.json.gz: a fixed sample of the cases the other checks generate, for X01.  Run by hand when the case formats change."""
import gzip, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import url, css, encoding, html, selectors, infra

got = {}
PROP = None


class FakeBuild:
    def binary(self, name, harness, libs=(), link=(), **kw):
        return harness


class Done(Exception):
    pass


def fake(c, exe, cases, line, *a, label="", **kw):
    if label:
        return
    r = random.Random(PROP)
    cs = list(cases)
    pick = cs if len(cs) < 4000 else r.sample(cs, 4000)
    ls = [line(x) for x in pick]
    ls = [x for x in ls if len(x) < 1500 and "\n" not in x]
    got[PROP] = [exe, r.sample(ls, min(1200, len(ls)))]
    raise Done


for mod, props in ((url, "U01 U02 U03 U04 U05"), (css, "C01 C02"), (encoding, "E01 E02 E03"), (html, "H01 H02 H04"), (selectors, "Q01 Q02"), (infra, "I01")):
    mod.compare, mod.Build = fake, FakeBuild
    for p in props.split():
        PROP = p
        try:
            mod.check(p, "quick")
        except Done:
            pass
        print(p, got[p][0], len(got[p][1]), flush=True)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vf", "data", "threads.json.gz")
with gzip.GzipFile(out, "wb", mtime=0) as f:
    f.write(json.dumps(got).encode())
print(os.path.getsize(out))
