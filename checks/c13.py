"""C13: bytes of buffers, strings and typed views after histories of operations, as BufEnum.tla says."""
from vp.common import *

PROXY = {1000000: "4294967296", 1000001: "2147483648", 1000002: "#x7FFFFFFFFFFFFFFF", 1000003: "4294967297", -1000000: "#x8000000000000000", -1000001: "-4294967296"}
TYPES = ["", "u8", "s8", "u16", "s16", "u32", "s32", "s64", "f32", "f64"]
PRELUDE = """
(defn vp/same (a b) (= a b))
(defn vp/dumpo (o v) (list (:type-name o) (:immutable? o) (:length o) v))
"""
VALS = None


def num(n):
    return PROXY.get(n, str(n))


def args(*xs):
    xs = list(xs)
    while xs and xs[-1] == -9:
        xs.pop()
    return "".join(" #nil" if x in (-8, -9) else " " + num(x) for x in xs)


def imm(i):
    return {0: " #f", 1: " #t", -9: ""}[i]


def form(op, vals):
    k = op[0]
    o = "o%d" % op[1]
    if k == "ref":
        return "(ref %s %s)" % (o, num(op[2]))
    if k == "set":
        return "(set! %s %s %s)" % (o, num(op[2]), vals[op[3] - 1])
    if k == "view":
        return "(:%s %s%s)" % (TYPES[op[2]], o, imm(op[3]))
    if k == "copy":
        return "(buffer/copy %s o%d%s)" % (o, op[2], args(op[3], op[4]))
    if k == "cut":
        return "(:cut %s%s)" % (o, args(op[2], op[3]))
    if k == "clone":
        return "(:clone %s%s)" % (o, imm(op[2]))
    if k == "grow":
        return "(:length! %s%s)" % (o, args(op[2]))
    if k == "str":
        return "(buffer->string %s%s)" % (o, args(op[2], op[3]))
    if k == "text":
        return "(:string %s)" % o
    if k == "make":
        return "(buffer/allocate%s)" % args(op[1])
    if k == "bufof":
        return "(:buffer %s)" % o
    raise MachineryError(op)


def num_of(r):
    if r[0] == "i":
        return ["i", int.from_bytes(bytes(r[1]), "little", signed=True)]
    f = struct.unpack("<f" if len(r[1]) == 4 else "<d", bytes(r[1]))[0]
    return ["f", f] if f == f and abs(f) != float("inf") else ["any"]


def render(r, vals, k):
    nobj = 3
    steps, exp = [], []
    for op, res in zip(r["ops"], r["rs"]):
        f = form(op, vals)
        t = res[0]
        if t == "err":
            f, e = "(do %s :no)" % f, ["k", "err"]
        elif t == "self":
            f, e = "(vp/same %s o%d)" % (f, op[1]), ["b", 1]
        elif t == "new":
            nobj += 1
            f, e = "(do (set! o%d %s) :new)" % (nobj, f), ["k", "new"]
        elif t == "is":
            # comparing by content and by an update through the other name
            f, e = "(vp/same %s o%d)" % (f, res[1]), ["b", 1]
        else:
            e = num_of(res)
            if e == ["any"]:    # infinities and NaN are outside the table
                f = "(do %s :x)" % f
        steps.append("(def r%d (try (fn (e) :err) %s))" % (len(steps), f))
        exp.append(e)
    start = []
    for i, o in enumerate(r["start"]):
        if o["k"] == "str":
            start.append('(o%d (vp/str%s))' % (i + 1, "".join(" %d" % b for b in o["d"])))
        elif o["imm"] and k % 2:
            start.append("(o%d #m%s)" % (i + 1, bytes(o["d"]).hex().upper()) if o["d"] else "(o%d (:clone (buffer/allocate 0) #t))" % (i + 1))
        else:
            start.append("(o%d (vp/buf %s%s))" % (i + 1, "#t" if o["imm"] else "#f", "".join(" %d" % b for b in o["d"])))
    for j in range(4, nobj + 1):
        start.append("(o%d #nil)" % j)
    dump, dexp = [], []
    for j, o in enumerate(r["os"]):
        d = o["d"]
        if o["k"] == "view":
            n, v = "buffer-view", ["v", [num_of(x) for x in d]]
        elif o["k"] == "str":
            n, v = "string", ["s", bts(d)]
        else:
            n, v = "buffer", ["u", list(d)]
        # whether a string counts as an immutable buffer is not specified, only that it never changes
        nan = o["k"] == "view" and ["any"] in v[1]
        dump.append("(vp/dumpo o%d %s)" % (j + 1, "#f" if nan else "o%d" % (j + 1)))
        dexp.append(["l", [["k", n], ["b", 1 if o["imm"] else 0] if o["k"] != "str" else ["any"], ["i", len(d)], ["b", 0] if nan else v], ["n"]])
    src = "(let (%s) %s (list (list %s) (list %s)))" % (" ".join(start), " ".join(steps), " ".join("r%d" % i for i in range(len(steps))), " ".join(dump))
    return src, ["l", [["l", exp, ["n"]], ["l", dexp, ["n"]]], ["n"]]


PRELUDE += """
(defn vp/fill (b bytes) (def i 0) (while (pair? bytes) (set! b i (car bytes)) (set! i (+ i 1)) (set! bytes (cdr bytes))) b)
(defn vp/len (l) (def n 0) (while (pair? l) (set! n (+ n 1)) (set! l (cdr l))) n)
(defn vp/buf (imm . bytes) (def b (vp/fill (buffer/allocate (vp/len bytes)) bytes)) (if imm (:clone b #t) b))
(defn vp/str bytes (buffer->string (vp/fill (buffer/allocate (vp/len bytes)) bytes)))
"""


def run(c):
    text = open(SPEC + "/BufEnum.tla").read()
    vals = [json.loads('"%s"' % x) for x in re.findall(r'\[t \|-> "((?:[^"\\]|\\.)*)"', text)]
    inv = dict(invariants=("ByteOK", "ViewOK"), properties=("Frozen", "ErrKeeps", "Kept"))

    def replay(recs, label):
        cs = [render(r, vals, k) for k, r in enumerate(recs)]
        for r, (s, e), g in zip(recs, cs, c.run_cases([x[0] for x in cs], prelude=PRELUDE)):
            c.compare("%d%d" % (r["n"], r["imm"]) + "|".join(str(o) for o in r["ops"]), s, e, g)
        c.notes[label] = len(recs)
    replay(c.tlc("BufEnum", constants={"DEPTH": 2}, sample=150000 if c.thorough else 25000, **inv), "histories_enumerated")
    replay(c.tlc("BufEnum", constants={"DEPTH": 14}, init="SimInit", nxt="SimNext", simulate=3000 if c.thorough else 2500, depth=20, **inv), "histories_simulated")
