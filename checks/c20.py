"""C20: string functions and formatted text, as Strings.tla and Fmt.tla define them."""
from vp.common import *
from checks.c12 import build, m

PRELUDE = """
(defn vp/st (b) (buffer->string b))
(defn vp/symb (b) (:symbol (buffer->string b)))
(defn vp/keyw (b) (:keyword (buffer->string b)))
(defmacro vp/e (x) `(try (fn (e) :vp-error) ~x))
(defn vp/neg (x) (if (< x 0) -1 x))
"""
PLAIN = set(range(32, 127)) - {34, 92}


def st(b, k):
    """an expression for a string: a literal or one made at run time"""
    if k % 2 and all(c in PLAIN for c in b):
        return '"%s"' % bytes(b).decode()
    return "(vp/st %s)" % m(b)


def lit(b):
    """a string literal for any bytes but line feeds written as such"""
    e = {10: b"\\n", 34: b'\\"', 92: b"\\\\", 0: b"\\0", 13: b"\\r"}
    return '"%s"' % b"".join(e.get(c, bytes([c])) for c in b).decode("utf-8", "surrogateescape")


def opt(o):
    return "" if o[0] == "n" else " %d" % o[1]


def expect(v):
    t = v[0]
    if t == "e":
        return ["k", "vp-error"]
    if t == "s":
        return ["s", bts(v[1])]
    if t == "i":
        return ["i", int.from_bytes(bytes(v[1]), "little", signed=True)]
    if t == "b":
        return ["b", 1 if v[1] else 0]
    if t == "l" and not v[1]:
        return ["n"]
    if t == "l":
        return ["l", [expect(x) for x in v[1]], ["n"]]
    raise MachineryError(v)


def forms(r, k):
    """(arguments by name, expressions) of an application"""
    f, a = r["f"], r["a"]
    if f == "cut":
        return [("x", st(a[0], k))], ["(:cut x %d%s)" % (a[1], opt(a[2]))]
    if f in ("index", "last"):
        return [("x", st(a[0], k)), ("y", st(a[1], k // 2))], ["(vp/neg (:%s x y%s))" % ("index-of" if f == "index" else "last-index-of", opt(a[2]))]
    if f in ("split", "split2"):
        return [("x", st(a[0], k)), ("y", st(a[1], k // 2))], ["(split x y)"]
    if f == "trim":
        return [("x", st(a[0], k))], ["(trim x)"]
    if f == "case":
        return [("x", st(a[0], k))], ["(upper-case x)", "(lower-case x)", "(capitalize x)"]
    if f in ("pad", "padi"):
        x = build(a[0]) if f == "padi" else st(a[0], k)
        y = [("y", st(a[2][1], k // 2))] if a[2][0] == "s" else []
        return [("x", x)] + y, ["(pad-%s x %d%s)" % (w, a[1], " y" if y else "") for w in ("start", "end", "middle")]
    if f == "path":
        return [("x", st(a[0], k))], ["(path/%s x)" % w for w in ("extension", "without-extension", "dirname", "basename")]
    if f == "ext?":
        e = [st(b, k) for b in a[1]]
        return [("x", st(a[0], k))], ["(not (not ((path/ext?! %s) x)))" % (e[0] if len(e) == 1 else "(list %s)" % " ".join(e))]
    if f == "round":
        return [("x", st(a[0], k))], ["(string/round x %d)" % a[1]]
    if f == "ref":
        return [("x", st(a[0], k))], ["(ref x %d)" % a[1]]
    if f == "bases":
        return [("x", build(a[0]))], ["(int->string x)"] + ["(int->string/%s x)" % w for w in ("binary", "octal", "HEX", "hex")]
    if f == "join":
        y = [("y", build(a[1]))] if a[1][0] == "s" else []
        return [("x", "(list %s)" % " ".join(build(v) for v in a[0]))] + y, ["(join x%s)" % (" y" if y else "")]
    if f == "cat":
        return [], ["(apply cat (list %s))" % " ".join(build(v) for v in a[0]) if k % 2 and a[0] else "(cat %s)" % " ".join(build(v) for v in a[0])]
    if f == "codes":
        return [], ["(from-char-code %s)" % " ".join(map(str, a[0])) if k % 2 and len(a[0]) < 9 else "(apply from-char-code '(%s))" % " ".join(map(str, a[0])) if a[0] else "(from-char-code)"]
    if f == "eq":
        return [("x", st(a[0], k)), ("y", st(a[1], k // 2))], ["(= x y)"]
    if f in ("fmt1", "fmt2", "fmtraw"):
        return [("a", "5"), ("b", '"vw"')], ["(fmt %s %s)" % (lit(a[0]), " ".join("(trk %d %s)" % (i, build(v)) for i, v in enumerate(a[1])))]
    raise MachineryError(f)


def render(r, k):
    args, fs = forms(r, k)
    v = r["v"]
    vs = v[1] if v[0] == "l" and r["f"] in ("case", "pad", "padi", "path", "bases") else [v]
    fmt = r["f"].startswith("fmt")
    if fmt and v[0] == "e":
        # may also be rejected when it is compiled
        fs = ["(vp/e (eval '(let (%s) %s)))" % (" ".join("(%s %s)" % x for x in args), fs[0])]
        args = []
    s = "(let (%s) (list %s %s))" % (" ".join("(%s %s)" % x for x in args), " ".join(fs if fmt else ["(vp/e %s)" % x for x in fs]), " ".join(n for n, _ in args))
    e = [expect(x) for x in vs]
    back = {"x": None, "y": None, "a": ["i", 5], "b": ["s", "vw"]}
    return s, ["l", e + [back[n] or ["any"] for n, _ in args], ["n"]]


def kept(r, args, e):
    """the arguments are returned too: they must be what they were"""
    a = r["a"]
    n = len(e[1]) - len(args)
    for i, (name, _) in enumerate(args):
        if r["f"] in ("join",):
            continue
        v = a[0] if name == "x" else a[1] if name == "y" and not r["f"].startswith("pad") else a[2][1] if name == "y" else None
        if v is not None:
            e[1][n + i] = expect(v) if v and isinstance(v[0], str) else ["s", bts(v)]


OPS = {"cat": "(cat s%d s%d s%d)", "trim": "(trim s%d)", "upper": "(upper-case s%d)", "lower": "(lower-case s%d)", "capitalize": "(capitalize s%d)"}


def history(r):
    n = len(r["ss"]) - len(r["ops"])
    s = "(let* " + " ".join("(def s%d (vp/st %s))" % (i, m(b)) for i, b in enumerate(r["ss"][:n]))
    for k, op in enumerate(r["ops"]):
        o, x = op[0], op[1] - 1
        if o == "cut":
            f = "(:cut s%d %d%s)" % (x, op[2], opt(op[3]))
        elif o == "cat":
            f = OPS[o] % (x, op[2] - 1, x)
        elif o in OPS:
            f = OPS[o] % x
        elif o == "rejoin":
            f = "(join (split s%d (vp/st %s)) (vp/st %s))" % (x, m(op[2]), m(op[3]))
        elif o.startswith("pad"):
            f = "(%s s%d %d (vp/st %s))" % (o, x, op[2], m(op[3]))
        elif o in ("index", "last"):
            f = "(:string (vp/neg (:%s s%d (vp/st %s) %d)))" % ("index-of" if o == "index" else "last-index-of", x, m(op[2]), op[3])
        elif o == "fmt":
            f = '(fmt "<{}|{:^9}{0}" s%d s%d)' % (x, op[2] - 1)
        elif o == "path":
            f = '(fmt "{}|{}|{}" (path/basename s%d) (path/dirname s%d) (path/extension s%d))' % (x, x, x)
        s += " (def s%d %s)" % (n + k, f)
    return s + " (list %s))" % " ".join("s%d" % i for i in range(len(r["ss"]))), ["l", [["s", bts(b)] for b in r["ss"]], ["n"]]


def run(c):
    t = c.thorough
    fam = {}
    for r in c.tlc("StrEnum", constants={"MODE": 1}, invariants=("Lawful",)):
        fam.setdefault(r["f"], []).append(r)
    recs = [r for f in sorted(fam) for r in c.cap(fam[f], 10**9 if t else 4500 if f == "fmt1" else 1500)]
    cs = []
    for k, r in enumerate(recs):
        s, e = render(r, k)
        kept(r, forms(r, k)[0] if not (r["f"].startswith("fmt") and r["v"][0] == "e") else [], e)
        cs.append((s, e, r))

    def go(cs, label, **kw):
        for (s, e, r), g in zip(cs, c.run_cases([x[0] for x in cs], prelude=PRELUDE, **kw)):
            tr = None
            if r["f"].startswith("fmt") and r["v"][0] == "s":
                tr = [["i", i] for i in range(len(r["a"][1]))]
            c.compare("%s|%s" % (r["f"], s), s, e, g, exp_trace=tr)
        c.notes[label] = len(cs)
    go(cs, "applications_enumerated")
    native = [x for x in cs if x[2]["f"] in ("cut", "index", "last", "split2", "ref", "eq", "cat")]
    go(c.cap(native, 40000 if t else 2500), "applications_under_address_sanitizer", kind="asan")
    sim = c.tlc("StrEnum", constants={"MODE": 1}, init="SimInit", nxt="SimNext", simulate=6000 if t else 500, depth=16, constraints=("SimEmit",))
    hs = [history(r) for r in sim]
    for label, sub, kw in (("histories_simulated", hs, {}), ("histories_collecting_often", c.cap(hs, 1000 if t else 60), {"gc": 50})):
        for (s, e), g in zip(sub, c.run_cases([x[0] for x in sub], prelude=PRELUDE, **kw)):
            c.compare(s, s, e, g)
        c.notes[label] = len(sub)
