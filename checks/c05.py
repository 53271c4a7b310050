"""C05: programs mean what Lang.tla says."""
from vp.common import *
from vp import langsrc


def run(c):
    n = 0
    recs = c.tlc("LangEnum", constants={"MODE": '"plain"', "DEPTH": 2}, sample=None)
    c.notes["programs_enumerated"] = c.emitted
    langsrc.replay(c, recs)
    recs = c.tlc("LangEnum", constants={"MODE": '"plain"', "DEPTH": 5}, init="SimInit", nxt="SimNext", simulate=400 if c.thorough else 12, depth=100)
    c.notes["programs_simulated"] = c.emitted
    langsrc.replay(c, recs)
