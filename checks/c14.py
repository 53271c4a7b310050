"""C14: arrays after histories of operations, as ArrEnum.tla says."""
from vp.common import *

PROXY = {1000000: "4294967296", 1000001: "2147483648", 1000002: "#x7FFFFFFFFFFFFFFF", 1000003: "4294967297", -1000000: "#x8000000000000000", -1000001: "-4294967296"}
PRELUDE = """
(def vp/fs (list (fn (x) (tr x) 1) (fn (x) (tr x) (if (int? x) (+ x 1) :k)) (fn (x) (tr x) x) (fn (x) (tr x) (if x #nil #f))))
(def vp/ps (list (fn (x) (tr x) (int? x)) (fn (x) (tr x) (nil? x)) (fn (x) (tr x) x) (fn (x) (tr x) #f) (fn (x) (tr x) #t)))
(defn vp/rec (v) (if (array? v) :o3 v))
"""
FN = {1: 1, 2: 2, 3: 3, 4: 4}


def num(n):
    return PROXY.get(n, str(n))


def val(v):
    return {0: "#nil", -1: "#f", -2: ":k", -3: '"s"', -9: "o3"}.get(v) or str(v - 50)


def cval(v, o3):
    if v == -9:
        return ["a", [cval(x, None) for x in o3]]
    return {0: ["n"], -1: ["b", 0], -2: ["k", "k"], -3: ["s", "s"]}.get(v) or ["i", v - 50]


def form(op, k):
    n, o = op[0], "o%d" % op[1]
    if n == "ref":
        return "(ref %s %s)" % (o, num(op[2])) if k % 2 else "(%s %s)" % ("(fn (a i) (ref a i))", o + " " + num(op[2]))
    if n == "has":
        return "(:has? %s %s)" % (o, num(op[2]))
    if n == "set":
        return "(set! %s %s %s)" % (o, num(op[2]), val(op[3]))
    if n == "len":
        return "(:length %s)" % o
    if n == "len!":
        return "(:length! %s %s)" % (o, num(op[2]))
    if n == "push":
        return "(array/push %s %s)" % (o, val(op[2]))
    if n == "swap":
        return "(array/swap %s %s %s)" % (o, num(op[2]), num(op[3]))
    if n == "fill":
        return "(array/fill! %s %s)" % (o, val(op[2]))
    if n == "append":
        return "(array/append %s o%d)" % (o, op[2])
    if n == "dup":
        return "(array/dup %s)" % o
    if n == "cut":
        return "(%s %s %s %s)" % (["array/cut", "cut"][k % 2], o, num(op[2]), num(op[3]))
    if n == "map":
        return "(%s %s (ref vp/fs %d))" % (["array/map", "map"][k % 2], o, op[2] - 1)
    if n == "filter":
        return "(%s %s (ref vp/ps %d))" % (["array/filter", "filter"][k % 2], o, op[2] - 1)
    if n == "count":
        return "(count %s (ref vp/ps %d))" % (o, op[2] - 1)
    if n == "every":
        return "(not (not (every? %s (ref vp/ps %d))))" % (o, op[2] - 1)
    if n == "reduce":
        return "(%s %s (fn (a v) (cons v a)) #nil)" % (["array/reduce", "reduce"][k % 2], o)
    if n == "sort":
        return "(%s %s)" % (["array/sort", "sort", "array/heap-sort"][k % 3], o)
    if n == "equal":
        return "(%s %s o%d)" % (["array/equal?", "equal?"][k % 2], o, op[2])
    if n == "add":
        return "(array/++ %s %s)" % (o, num(op[2])) if op[3] == 1 else "(array/+= %s %s %d)" % (o, num(op[2]), op[3])
    if n == "alloc":
        return "(:alloc Array %s)" % num(op[2])
    if n == "apply":
        return "(reverse (reduce %s (fn (a v) (cons v a)) #nil))" % o
    raise MachineryError(op)


def traced(op, before):
    """the elements a function was applied to, in order"""
    if op[0] in ("map", "filter", "count"):
        return list(before)
    return []


def lit(d, k):
    vs = "".join(" " + val(v) for v in d)
    if k % 4 == 0:
        return "[%s]" % vs.strip()
    if k % 4 == 1:
        return "(array/new%s)" % vs
    if k % 4 == 2:
        return "(apply array/new (list%s))" % vs
    return "(let ((a (:alloc Array %d))) %s a)" % (len(d), " ".join("(set! a %d %s)" % (i, val(v)) for i, v in enumerate(d)))


def render(r, k):
    nobj = 3
    steps, exp = [], []
    o3 = r["os"][2]
    for i, (op, res) in enumerate(zip(r["ops"], r["rs"])):
        f, t = form(op, k + i), res[0]
        if t == "err":
            f, e = "(do %s :no)" % f, ["k", "err"]
        elif t == "self":
            f, e = "(= %s o%d)" % (f, op[1]), ["b", 1]
        elif t == "new":
            nobj += 1
            f, e = "(do (set! o%d %s) (not (or %s)))" % (nobj, f, " ".join("(= o%d o%d)" % (nobj, j) for j in range(1, nobj))), ["b", 1]
        elif t == "val":
            e = cval(res[1], None) if res[1] != -9 else ["b", 1]
            if res[1] == -9:
                f = "(= %s o3)" % f
        elif t == "bool":
            e = ["b", 1 if res[1] else 0]
        elif t == "num":
            e = ["i", res[1]]
        elif t == "list":
            f = "(map %s vp/rec)" % f
            e = [["k", "o3"] if v == -9 else cval(v, None) for v in res[1]]
            e = ["l", e, ["n"]] if e else ["n"]
        else:
            raise MachineryError(res)
        steps.append("(def r%d (try (fn (e) :err) %s))" % (i, f))
        exp.append(e)
    start = ["(o%d %s)" % (j, lit(r["start"][j - 1], k // 7)) for j in (3, 1, 2)] + ["(o%d #nil)" % j for j in range(4, nobj + 1)]
    objs = [["a", [cval(v, o3) for v in o]] for o in r["os"]]
    src = "(let (%s) %s (list (list %s) (list %s)))" % (" ".join(start), " ".join(steps), " ".join("r%d" % i for i in range(len(steps))),
                                                        " ".join("o%d" % (j + 1) for j in range(nobj)))
    return src, ["l", [["l", exp, ["n"]], ["l", objs, ["n"]]], ["n"]]


def run(c):
    inv = dict(properties=("ErrKeeps", "OneChanges"))

    def replay(recs, label):
        cs = [render(r, k) for k, r in enumerate(recs)]
        for r, (s, e), g in zip(recs, cs, c.run_cases([x[0] for x in cs], prelude=PRELUDE)):
            tr = None if -9 in r["tr"] else [cval(v, None) for v in r["tr"]]
            c.compare(str(len(r["start"][0])) + "|".join(str(o) for o in r["ops"]), s, e, g, exp_trace=tr)
        c.notes[label] = len(recs)
    replay(c.tlc("ArrEnum", constants={"DEPTH": 2}, sample=120000 if c.thorough else 22000, **inv), "histories_enumerated")
    replay(c.tlc("ArrEnum", constants={"DEPTH": 25}, init="SimInit", nxt="SimNext", simulate=4000 if c.thorough else 400, depth=60, **inv), "histories_simulated")

