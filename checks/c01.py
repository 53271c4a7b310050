"""C01: collections are invisible (Heap.tla, HoldEnum.tla, and programs of the other models under collection schedules)."""
from vp.common import *
from vp import gc, langsrc


def run(c):
    # pending computations holding objects through a collection
    recs = c.tlc("HoldEnum", constants={"DEPTH": 1, "PAIRS": "FALSE"}, sample=None)
    recs += c.tlc("HoldEnum", constants={"DEPTH": 2, "PAIRS": "TRUE"}, sample=None if c.thorough else 3000)
    recs += c.tlc("HoldEnum", constants={"DEPTH": 5, "PAIRS": "TRUE"}, init="SimInit", nxt="SimNext", simulate=2000 if c.thorough else 60, depth=100, sample=None if c.thorough else 800)
    cases = [gc.hold(r) for r in recs]
    for every in (None, 1) if not c.thorough else (None, 1, 2, 3, 13):
        cs = list(zip(recs, cases))
        if every:
            # compiling passes thousands of safepoints
            slow = {"env", "deepenv", "quote", "fnlit"}
            cs = [(r, s) for r, s in cs if every > 9 or not (r["leaf"] in ("compile", "deep") or any(h in slow or t == "code" for h, t in r["fr"]))]
            cs = c.cap(cs, 700)
        for (r, s), g in zip(cs, c.run_cases([x[1] for x in cs], prelude=gc.HOLD_PRELUDE, gc=every)):
            c.compare(s, s, spec(r["v"]), g, exp_trace=[])
    # histories of the heap model, collections added at every step
    for every in ((1, 5) if not c.thorough else (1, 2, 3, 7)):
        gc.heap_histories(c, 3, 6, 25, 6000 if c.thorough else 800, every=every)
    # programs of the language model
    for mode in ("plain", "throw"):
        recs = c.tlc("LangEnum", constants={"MODE": '"%s"' % mode, "DEPTH": 2}, sample=6000 if c.thorough else 500)
        for every in (1, 3, 11) if c.thorough else (1,):
            langsrc.replay(c, recs, gc=every)
