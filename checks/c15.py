"""C15: list and collection functions, as ListEnum.tla defines them."""
from vp.common import *

PRELUDE = """
(def vp/fs (list (fn (x) (tr x) (if (int? x) (+ (* x 2) 1) x)) (fn (x) (tr x) #nil) (fn (x) (tr x) (list x x)) (fn (x) (tr x) (nil? x))))
(def vp/ps (list (fn (x) (tr x) (int? x)) (fn (x) (tr x) (nil? x)) (fn (x) (tr x) x) (fn (x) (tr x) #f) (fn (x) (tr x) #t) (fn (x) (tr x) (and (int? x) (< x 2)))))
(defn vp/snoc (a v) (tr v) (cons v a))
(defn vp/copy (l) (def r #nil) (while l (set! r (cons (car l) r)) (set! l (cdr l))) (def q #nil) (while r (set! q (cons (car r) q)) (set! r (cdr r))) q)
"""


def src(v):
    t = v[0]
    if t == "n":
        return "#nil"
    if t == "i":
        return str(v[1])
    if t == "k":
        return ":" + v[1]
    if t == "b":
        return "#t" if v[1] else "#f"
    if t == "l":
        return "(list %s)" % " ".join(src(x) for x in v[1])
    if t == "a":
        return "[%s]" % " ".join(src(x) for x in v[1])
    if t == "t":
        return "(tree/new %s)" % " ".join(":%s %s" % (k, src(x)) for k, x in v[1])
    raise MachineryError(v)


def form(op, x, k, sized):
    o = op[0]
    f = lambda: "(ref vp/fs %d)" % (op[1] - 1)
    p = lambda: "(ref vp/ps %d)" % (op[1] - 1)
    kind = {"l": "list", "a": "array", "t": "tree"}.get(x[0])
    g = lambda name: "%s/%s" % (kind, name) if kind and k % 2 and (kind, name) in (("list", "map"), ("list", "filter"), ("list", "reduce"), ("array", "map"), ("array", "filter"), ("array", "reduce"),
                                                                                 ("tree", "reduce"), ("tree", "filter"), ("list", "cut"), ("list", "sort"), ("array", "sort")) else name
    if o == "map":
        return "(%s x %s)" % (g(o), f())
    if o == "filter":
        return "(%s x %s)" % (g(o), p())
    if o in ("remove", "count"):
        return "(%s x %s)" % (o, p())
    if o == "every?":
        return "(not (not (every? x %s)))" % p()
    if o == "delete":
        return "(delete x %s)" % src(op[1])
    if o == "reduce":
        return "(%s x vp/snoc #nil)" % g(o)
    if o == "for-each":
        return "(for-each x %s)" % f()
    if o == "doseq":
        return "(do (def n 0) (doseq (e x n) (tr e) (set! n (+ n 1))))"
    if o == "count-all":
        return "(count x)"
    if o == "length":
        return "(:length x)"
    if o in ("append", "equal?"):
        return "(%s x y)" % ("list/equal?" if o == "equal?" and k % 2 and x[0] == "l" else o)
    if o == "nreverse":
        return "(nreverse (vp/copy x))"
    if o == "except-last":
        return "(except-last-pair x)"
    if o == "ref":
        return "(ref x %d)" % op[1]
    if o in ("take", "drop"):
        return "(list-%s x %d)" % (o, op[1])
    if o == "cut":
        return "(%s x %d %d)" % (g(o), op[1], op[2])
    if o == "sort":
        return "(%s x)" % g(o)
    if o == "sort-by":
        return "(%s x >)" % ["list/sort", "list-merge-sort"][k % 2]
    if o == "replace":
        return "(list/replace x %s %s)" % (src(op[1]), src(op[2]))
    if o == "zip":
        return "(tree/zip x y)"
    if o == "merge":
        return "(tree/merge x y)"
    if o == "tree+=":
        return "(tree/+= x :%s %d)" % (op[1], op[2])
    if o == "range":
        e, s, d = op[1:]
        return "(range %d)" % e if s == 0 and d == 1 and k % 2 else "(range %d %d)" % (e, s) if d == 1 else "(range %d %d %d)" % (e, s, d)
    if o in ("min", "max"):
        return "(apply %s x)" % o if k % 2 or sized else "(%s %s)" % (o, " ".join(src(v) for v in x[1]))
    return "(%s x)" % o


def render(r, k):
    x = r["x"]
    op = r["op"]
    f = form(op, x, k, len(x) > 1 and isinstance(x[1], list) and len(x[1]) > 30)
    s = "(let ((x %s) (y %s)) (def r (try (fn (e) :vp-error) %s)) (list r x y))" % (src(x), src(r["y"]), f)
    e = ["k", "vp-error"] if r["v"][0] == "e" else spec(r["v"])
    return s, ["l", [e, spec(r["xx"]), spec(r["y"])], ["n"]], [spec(v) for v in r["s"]]


def run(c):
    def replay(recs, label, cap):
        recs = c.cap(recs, cap)
        cs = [render(r, k) for k, r in enumerate(recs)]
        for r, (s, e, t), g in zip(recs, cs, c.run_cases([x[0] for x in cs], prelude=PRELUDE)):
            # trees are visited in an order of their own
            tr = t if r["x"][0] != "t" else None
            if r["x"][0] == "t" and r["op"][0] == "reduce":
                e[1][0] = ["any"]
            if r["op"][0] == "flatten" and "'t'" in str(r["x"]):
                pass
            c.compare("%s|%s|%s" % (r["op"], r["x"], r["y"]), s, e, g, exp_trace=tr)
        c.notes[label] = len(recs)
    replay(c.tlc("ListEnum", constants={"MODE": 1}, invariants=("Laws",)), "applications_enumerated", 45000)
    replay(c.tlc("ListEnum", constants={"MODE": 1}, init="SimInit", nxt="SimNext", invariants=("Laws",), simulate=600 if c.thorough else 60, depth=150), "applications_simulated", 10**9)
