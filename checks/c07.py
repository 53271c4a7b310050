"""C07: calls bind arguments by position, however they are made, as CallEnum.tla says."""
from vp.common import *
from vp import langsrc


def run(c):
    for mode in ("fn", "nat", "gap"):
        recs = c.tlc("CallEnum", constants={"MODE": '"%s"' % mode, "MAXARGS": 6 if c.thorough and mode == "fn" else 5, "DEPTH": 2}, sample=None)
        c.notes["calls_enumerated_" + mode] = c.emitted
        langsrc.replay(c, recs)
    recs = c.tlc("CallEnum", constants={"MODE": '"fn"', "MAXARGS": 5, "DEPTH": 3}, init="SimInit", nxt="SimNext", simulate=400 if c.thorough else 60, depth=100)
    c.notes["call_trees_simulated"] = c.emitted
    langsrc.replay(c, recs)
