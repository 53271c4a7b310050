"""C02: unreachable cells are reclaimed, all of them, and none is handed out twice (Heap.tla, Churn.tla)."""
from vp.common import *
from vp import gc

# what one request allocates: m cells of one heap at once, without a safepoint in between
TEXT = {"pair": "1", "array": "##()", "tree": "#@(:a 1)", "string": '\\"x\\"', "buffer": "#m0A ", "symbol": None}
HEAPS = {"array": 1 << 14, "closure": 1 << 17, "tree": 1 << 18, "root": 1 << 15, "code": 1 << 14, "buffer": 1 << 15, "view": 1 << 14, "pair": 1 << 18, "symbol": 1 << 14}
PRELUDE = gc.PRELUDE + """
(def vp/keep #nil)
(defn vp/clos (n) (fn () n))
(def vp/kb (buffer/allocate 8))
(defn vp/repeat (s n) (def r #nil) (while (> n 0) (set! r (cons s r)) (set! n (- n 1))) (join r " "))
(defn vp/syms (i n) (def r #nil) (while (> n 0) (set! r (cons (cat "vp--z" i "-" n) r)) (set! n (- n 1))) (cat "(" (join r " ") ")"))
(defn vp/port (i) (let ((o (:new StringOutputPort))) (:block-write o (cat "x" i)) (:return-string o)))
(def vp/code (compile '(fn () 1)))
(defn vp/fat (i) (list %s))
(:add-method Int :vp/fat (fn (i) (list %s)))
""" % (" i" * 240, " i" * 240)
ONE = {"array": "(array/new i)", "closure": "(vp/clos i)", "tree": "(tree/new :a i :b i)", "root": "(tree/new)", "code": "(:bytecode-array (:array vp/code) (:literals vp/code))",
       "buffer": "(buffer/allocate 4)", "view": "(:u8 vp/kb)", "pair": "(cons i i)", "symbol": "(:symbol (cat \"vp--y\" i))", "env": "(vp/mk-env i i i)", "string": "(cat \"s\" i)", "float": "(* i 1.5)",
       "try": "(try (fn (e) e) (throw (list :e i)))", "apply": "(apply list (list i i))", "rest": "(vp/resta i i i)", "method": "(:string i)", "keys": "(:keys {:a 1 :b 2})", "gensym": "(gensym)",
       "let": "(let ((a i) (b i)) (+ a b))", "keyword": "(:keyword (cat \"vp--x\" i))", "doseq": "(doseq (q '(1 2 3)) q)", "read": "(read/single \"(1 2 (3))\")", "write": "(string/write '(1 (2) :a \"b\"))",
       "sort": "(sort (list 3 1 2))", "clone": "(:clone {:a 1 :b 2})", "cut": "(:cut \"abcdef\" 1 3)", "map": "(map (list 1 2 3) vp/clos)", "eval": "(bytecode-eval* vp/code (current-closure))", "split": "(split \"a b c d\" \" \")",
       "serialize": "(image/deserialize (image/serialize {:a 1 :b '(1 2)}))", "port": "(vp/port i)"}


STRAIGHT = {"call": "(vp/fat 1)", "method": "(:vp/fat 1)", "apply": "(apply vp/fat '(1))", "handler": "(try vp/fat (throw 1))", "let": "(let ((a (vp/fat 1))) (vp/fat a))", "through": "((car (list vp/fat)) 2)"}


def calibrate(c):
    """Cells each kind of object takes: measured with one and with three of them alive."""
    forms = []
    for k in gc.KINDS:
        n = lambda i: gc.make(k, i, "bb" if k == "view" else "#nil", "#nil")
        forms.append("(do (def bb (vp/mk-buf 9)) (def a #nil) (def b #nil) (def d #nil) (vp/base) (set! a %s) (vp/note) (set! b %s) (set! d %s) (vp/note) (set! a #nil) (set! b #nil) (vp/note) (set! d #nil) (vp/note) (vp/get-notes))" % (n(1), n(2), n(3)))
    res = c.run_cases(forms, prelude=gc.PRELUDE)
    unit = {}
    for k, f, g in zip(gc.KINDS, forms, res):
        ok = g[0] == "ok" and g[1][0] == "l" and len(g[1][1]) == 36
        if ok:
            v = [x[1] for x in g[1][1]]
            u = v[:9]
            unit[k] = u
            ok = v[9:18] == [3 * x for x in u] and v[18:27] == u and v[27:] == [0] * 9 and sum(u) > 0 and min(u) >= 0 and not g[2]
        c.evaluations += 1
        c.distinct.add("unit|" + k)
        if not ok:
            c.violate("unit|" + k, f, "the same cells for every object of the kind, all reclaimed", g)
    c.notes["cells_per_object"] = unit
    return unit if len(unit) == len(gc.KINDS) else None


def churn(c):
    """Allocate several times the size of each heap; once with hardly anything alive, once with a large part of it in use."""
    cases = []
    for k, f in ONE.items():
        n = int(1.2 * HEAPS.get(k, 60000)) * (3 if c.thorough else 1)
        if k in ("serialize", "port", "eval"):
            n = 20000
        for live in (0, 1, 2) if k in HEAPS else (0,):
            m = [0, HEAPS.get(k, 0) // 4, HEAPS.get(k, 0) * 7 // 10][live]
            if k == "closure":
                m //= 3
            if k == "pair":
                m //= 2
            if k == "tree":
                m = min(m, 24000) // 2
            if m and k not in ("pair", "array", "closure"):
                m = min(m, 100000)
            if m == 0:
                cases.append("(do (def i 0) (while (< i %d) %s (set! i (+ i 1))) (vp/measure vp/h1) i)" % (n, f))
            else:
                cases.append("(do (def i 0) (while (< i %d) (set! vp/keep (cons %s vp/keep)) (set! i (+ i 1))) (set! i 0) (while (< i %d) %s (set! i (+ i 1))) (set! vp/keep #nil) (vp/measure vp/h1) i)" % (m, f, n, f))
            c.evaluations += 0
    # whole requests: texts read at once
    for k, t in TEXT.items():
        for part in (64, 16, 8):
            m = HEAPS[k] // part if k != "string" else HEAPS["buffer"] // part
            if k == "tree":
                m = HEAPS["root"] // part
            rounds = part * 2 + 3
            if k == "symbol":
                cases.append("(do (def i 0) (while (< i %d) (read/single (vp/syms i %d)) (set! i (+ i 1))) (vp/measure vp/h1) %d)" % (rounds, m // 2, m))
                continue
            cases.append('(do (def i 0) (def t (vp/repeat "%s" %d)) (while (< i %d) (read t) (set! i (+ i 1))) (vp/measure vp/h1) %d)' % (t, m, rounds, m))
    # straight-line programs: no loops, every step is a call
    for k, f in STRAIGHT.items():
        n = 700 if k == "let" else 2500
        cases.append("(do %s %d)" % (" ".join([f] * n), n))
    res = c.run_cases(cases, prelude=PRELUDE)
    for s, g in zip(cases, res):
        want = int(re.search(r"(\d+)\)$", s).group(1)) if s[-2].isdigit() and "(< i" not in s or s[-2].isdigit() and "vp/measure" in s else int(re.findall(r"\(< i (\d+)\)", s)[-1])
        c.compare(s, s, ["i", want], g, exp_trace=[])
    c.notes["churn_programs"] = len(cases)


LIMIT = 450 << 20
PAYLOAD_PRELUDE = """
(def vl/b (buffer/allocate 4096))
(dotimes (i 4096) (set! vl/b i (+ 97 (rem i 20))))
(def vl/s (buffer->string vl/b))
(def vl/w (cat vl/s " " vl/s))
(def vl/a (:alloc Array 256))
(def vl/ops (:alloc Array 4096))
(dotimes (i 4096) (set! vl/ops i 1))
(def vl/image (image/serialize (list vl/s vl/b)))
(def vl/q (string/write vl/s))
(def vl/hex (cat "#m" (join (map (split vl/s "") (fn (x) (if (= x "") "" "A5"))) "")))
(def vl/arr (cat "##(" (:cut (cat vl/w) 0 10) " 1 2 3)"))
(spit "vl.tmp" vl/s)
(def vl/text (cat "(fn () (list " vl/q " 1))"))
(defn vl/port () (let ((o (:new StringOutputPort))) (:block-write o vl/s) (:return-string o)))
(defn vl/go (n r f) (def ring (:alloc Array r)) (def i 0) (while (< i n) (set! ring (rem i r) (f i)) (set! i (+ i 1))) (def d 0) (dotimes (j r) (when (ref ring j) (set! d (+ d 1)))) d)
"""
# what to do, and how often: in all several times the memory that the process may have
PAYLOAD = {"buffer": ("(buffer/allocate 4096)", 300000), "fixed": ("(:clone vl/b #t)", 300000), "string": ("(cat vl/s i)", 120000), "cut": ("(:cut vl/s 1 4090)", 300000), "tostr": ("(buffer->string vl/b)", 300000),
           "tobuf": ("(:clone vl/s #f)", 300000), "bufgrow": ("(:length! (buffer/allocate 8) 4096)", 300000), "array": ("(:alloc Array 256)", 300000), "arrgrow": ("(:length! (array/new i) 256)", 300000),
           "code": ("(:bytecode-array vl/ops vl/a)", 60000), "serialize": ("(image/serialize vl/s)", 200000), "deserialize": ("(image/deserialize vl/image)", 150000),
           "readstr": ("(read/single vl/q)", 100000), "readbuf": ("(read/single vl/hex)", 100000), "readarr": ("(read/single vl/arr)", 300000), "join": ("(join (list vl/s vl/s) i)", 20000),
           "split": ("(split vl/w \" \")", 40000), "port": ("(vl/port)", 60000), "slurp": ("(slurp \"vl.tmp\")", 100000), "symstr": ("(:string 'a-rather-long-symbol-name-that-becomes-a-string)", 300000),
           "compile": ("(eval (read/single vl/text))", 1500), "viewed": ("(:u16 (buffer/allocate 4096))", 300000)}


def payload(c):
    """Programs whose contents in all are several times the memory the process may have."""
    recs = c.tlc("Payload", constants={"CELLS": 3, "RING": 2, "SIZES": "{0, 1, 3}", "LEN": 9}, invariants=("Accounted", "Bounded", "KeepsHeld"))
    cs = []
    for r in recs:
        f, n = PAYLOAD[r["w"]]
        if r["ring"] > n:
            continue
        cs.append("(vl/go %d %d (fn (i) %s))" % (n * (3 if c.thorough else 1), r["ring"], f))
    for s, g in zip(cs, c.run_cases(cs, prelude=PAYLOAD_PRELUDE, limit=LIMIT)):
        c.compare(s, s, ["i", int(s.split()[2])], g, exp_trace=[])
    c.notes["payload_programs"] = len(cs)


def run(c):
    unit = calibrate(c)
    if not unit:
        return
    for (n, l, b) in ((24, 4, 6), (24, 12, 6), (24, 16, 4), (32, 16, 8)) + (((64, 40, 12), (96, 48, 24)) if c.thorough else ()):
        c.tlc("Churn", constants={"N": n, "LIVE": l, "BURST": b}, invariants=("NeverOut", "Worth", "Sane"), constraints=(), expect_emit=False)
    c.tlc("Heap", constants={"N": 3, "NV": 2, "LEN": 4 if c.thorough else 3}, invariants=gc.HEAP_INV, properties=("KeepsContents",), constraints=(), expect_emit=False)
    for (nv, n, ln, num) in ((3, 6, 25, 1500), (4, 12, 60, 600)):
        gc.heap_histories(c, nv, n, ln, num * (15 if c.thorough else 1), unit=unit)
    churn(c)
    payload(c)
