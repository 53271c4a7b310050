"""C08: arithmetic rule table (Arith.tla) against every evaluation path."""
from fractions import Fraction
from vp.common import *
import math

PRELUDE = r'''
(def mk/buf (buffer/allocate 8))
(def mk/s64 (:s64 mk/buf))
(def mk/f64 (:f64 mk/buf))
(defn mkf (bits) (set! mk/s64 0 bits) (ref mk/f64 0))
(defn vt (f) (try (fn (e) (list :exc (car e))) (f)))
'''
OTH = {"nil": "#nil", "str": '"ab"', "str2": '"abc"', "key": ":ab", "key2": ":abc", "sym": "'ab", "true": "#t", "false": "#f", "list": "(list 1)",
       "str0": '""', "str127": '"ab\x7f"', "stre": '"\u00e9"', "strx": '"\u4e16"', "keye": ":\u00e9", "sym2": "'abc", "syme": "'\u00e9"}
OTHV = {"nil": ["n"], "str": ["s", "ab"], "str2": ["s", "abc"], "key": ["k", "ab"], "key2": ["k", "abc"], "sym": ["y", "ab"], "true": ["b", 1], "false": ["b", 0],
        "list": ["l", [["i", 1]], ["n"]], "str0": ["s", ""], "str127": ["s", "ab\x7f"],
        "stre": ["s", "\u00e9"], "strx": ["s", "\u4e16"], "keye": ["k", "\u00e9"], "sym2": ["y", "abc"], "syme": ["y", "\u00e9"]}


def i64(b):
    return int.from_bytes(bytes(b), "little", signed=True)


def dy(t):
    return Fraction(t[0]) * Fraction(2) ** t[1]


def src(a):
    """(literal or None, expression)"""
    if a["k"] == "int":
        v = i64(a["b"])
        s = str(v)
        if len(s.lstrip("-")) > 18:
            s = "#x%016X" % (v % 2 ** 64)
        return s, s
    if a["k"] == "flt":
        f = float(dy((a["m"], a["e"])))
        bits = struct.unpack("<q", struct.pack("<d", f))[0]
        lit = None
        if f == int(f) and abs(f) < 1e6 or (abs(f) < 1e4 and a["e"] >= -10):
            lit = "%.12f" % f
            lit = lit.rstrip("0")
            if lit.endswith("."):
                lit += "0"
        return lit, "(mkf #x%016X)" % (bits % 2 ** 64)
    return OTH[a["k"]], OTH[a["k"]]


def val(a):
    if a["k"] == "int":
        return ["i", i64(a["b"])]
    if a["k"] == "flt":
        return ["f", float(dy((a["m"], a["e"])))]
    return OTHV[a["k"]]


def rnd(fr):
    try:
        return ["f", float(fr)]
    except OverflowError:
        return ["exc"]


def fun(op, args):
    """a double next to the value of the function, and how many doubles away a library may be"""
    try:
        x = [float(dy(a)) for a in args]
        if op == "cbrt":
            v = math.copysign(abs(x[0]) ** (1 / 3), x[0])
            for _ in range(3):
                if v:
                    v -= (v - x[0] / v / v) / 3
            return ["ulp", v, 2]
        if op == "sqrt":
            return ["ulp", math.sqrt(x[0]), 0]
        v = getattr(math, op)(*x)
        return ["exc"] if math.isinf(v) or math.isnan(v) else ["ulp", v, 1]
    except (OverflowError, ValueError):
        return ["exc"]


def near(e, v):
    if v[0] != "f":
        return False
    d = v[1] if isinstance(v[1], float) else float(v[1])
    lo = hi = e[1]
    for _ in range(e[2]):
        lo, hi = math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf)
    return lo <= d <= hi


def expected(r):
    t = r[0]
    if t == "fn":
        return fun(r[1], r[2])
    if t == "I":
        return ["i", i64(r[1])]
    if t == "b":
        return ["b", 1 if r[1] else 0]
    if t == "n":
        return ["n"]
    if t == "e":
        return ["exc"]
    if t == "is":
        return val(r[1])
    if t == "R":
        return rnd(sum(dy(x) for x in r[1:]))
    a, b = dy(r[1]), dy(r[2])
    if t == "X":
        return rnd(a * b)
    if t == "Q":
        return rnd(a / b)
    q = a / b
    return rnd(a - b * int(q))


def paths(op, args):
    lits = [src(a)[0] for a in args]
    exps = [src(a)[1] for a in args]
    names = ["a", "b", "c", "d"][:len(args)]
    ps = []
    if all(l is not None for l in lits):
        ps.append("(vt (fn () (%s %s)))" % (op, " ".join(lits)))                                   # folded
    ps.append("(vt (fn () ((fn (%s) (%s %s)) %s)))" % (" ".join(names), op, " ".join(names), " ".join(exps)))   # variables
    if len(args) == 2 and lits[1] is not None:
        ps.append("(vt (fn () ((fn (a) (%s a %s)) %s)))" % (op, lits[1], exps[0]))
        ps.append("(vt (fn () (let ((a %s)) (car (list (%s a %s))))))" % (exps[0], op, lits[1]))
    if len(args) <= 2:
        ps.append("(vt (fn () (let ((f %s)) (f %s))))" % (op, " ".join(exps)))                        # function value
        ps.append("(vt (fn () (apply %s (list %s))))" % (op, " ".join(exps)))                         # apply
    return ps


def run(c):
    ok, out = c.tlc("Arith", constants={"PART": '"bin"'}, init="InitLaws", nxt="NextLaws", constraints=(), invariants=["LawsHold"], expect_violation=True)
    if ok:
        raise MachineryError("integer laws fail: " + out[-800:])
    caps = dict(bin=50000, cmp=30000, un=10 ** 6, nary=2500, pow=10 ** 6, fun=10 ** 6)
    for part in ("un", "pow", "fun", "cmp", "bin", "nary"):
        recs = c.tlc("Arith", constants={"PART": '"%s"' % part})
        recs = c.cap(recs, caps[part], 10 ** 7)
        cases, exps, nps = [], [], []
        for r in recs:
            op, args = r["op"], r["args"]
            ps = paths(op, args)
            cases.append("(list %s)" % " ".join(ps))
            exps.append(expected(r["res"]))
            nps.append(len(ps))
        res = c.run_cases(cases, prelude=PRELUDE)
        for s, e, n, g in zip(cases, exps, nps, res):
            c.evaluations += n
            c.distinct.add(s)
            if len(c.samples) < 8:
                c.samples.append({"case": short(s), "expected": e, "got": short(g)})
            if g[0] != "ok" or g[1][0] != "l" or len(g[1][1]) != n:
                c.violate(s, s, e, g)
                continue
            for v in g[1][1]:
                isx = v[0] == "l" and v[1][0] == ["k", "exc"]
                if (e[0] == "exc") != isx or (not isx and not (near(e, v) if e[0] == "ulp" else matches(e, v))):
                    c.violate(s, s, e, g)
                    break
        c.notes["cases_" + part] = len(cases)
    c.assumptions = ["operands: 40 integers including all width boundaries, 25 floats from 2^-1074 to 2^1023, 9 other values; operations sampled by seed in the quick tier",
                     "nearest double of an exact rational computed by Python's Fraction"]
