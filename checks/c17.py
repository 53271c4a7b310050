"""C17: which method a call finds after a history of definitions, as ClassEnum.tla says."""
from vp.common import *

VALUES = ["Nil", "Int", "Float", "Bool", "Keyword", "Symbol", "String", "Buffer", "BufferView", "Pair", "Array", "Tree", "Lambda", "NativeFunc",
          "Macro", "Environment", "BytecodeArr", "Type"]
PRELUDE = """
(def vp/vals (list #nil 5 1.5 #t :kw 'sym "str" (buffer/allocate 3) (:u8 (buffer/allocate 3)) (list 1 2) [1] {:z 1} (fn (a) a) buffer/allocate
  when ((fn () (current-closure))) (:bytecode-array [0] [1]) Array))
(defn vp/probe (way m v f)
  (try (fn (e) (list :exc (car e) (cadr e)))
    (def r (if (= way 0) (m v 7 8) (if (= way 1) (apply m (list v 7 8)) (f v))))
    (if (int? r) r (list (car r) (= (cadr r) v) (caddr r)))))
(defn vp/all (way m f vs)
  (def r #nil)
  (while vs (set! r (cons (vp/probe way m (car vs) f) r)) (set! vs (cdr vs)))
  (nreverse r))
"""


def op(o, i, mn):
    kind, a, b, tag = o
    f = "(fn (self . r) (list %d self r))" % tag
    if i % 3 == 1:
        f = "(fn (self a b) (list %d self (if b (list a b) (if a (list a) a))))" % tag
    if kind == "add":
        return ("(:add-method %s :%s %s)" if i % 2 else "(apply :add-method (list %s ':%s %s))") % (a, mn(b), f)
    if kind == "own":
        return "(set! o%d :%s %s)" % (a, mn(b), f)
    return "(set! o%d :prototype* %s)" % (a, "o%d" % b if b else ["#nil", "5", "\"no tree\""][i % 3])


def render(r, k):
    mn = lambda m: m if m == "length" else "%s/%d" % (m, k)
    way = lambda j: (k + j) % 3
    obs, exp = [], []
    for j, (m, vs, os_) in enumerate((("m1", r["v1"], r["o1"]), ("m2", r["v2"], r["o2"]))):
        w = way(j)
        args = {0: [7, 8], 1: [7, 8], 2: [7]}[w]
        obs.append("(vp/all %d :%s (fn (v) (:%s v 7)) (append vp/vals (list o1 o2 o3)))" % (w, mn(m), mn(m)))
        exp.append(["l", [["l", [["i", t], ["b", 1], ["l", [["i", x] for x in args], ["n"]]], ["n"]] if t else
                          ["l", [["k", "exc"], ["k", "type-error"], ["s", "Unknown method"]], ["n"]] for t in vs + os_], ["n"]])
    for o in (1, 2, 3):
        w = way(o)
        obs.append("(vp/probe %d :length o%d (fn (v) (:length v 7)))" % (w, o))
        t = r["len"][o - 1]
        args = {0: [7, 8], 1: [7, 8], 2: [7]}[w]
        exp.append(["i", t[1]] if t[0] == "n" else ["l", [["i", t[1]], ["b", 1], ["l", [["i", x] for x in args], ["n"]]], ["n"]])
    src = "(let ((o1 {:id 1}) (o2 {:id 2}) (o3 {:id 3})) %s (list %s))" % (" ".join(op(o, i, mn) for i, o in enumerate(r["ops"])), " ".join(obs))
    return src, ["l", exp, ["n"]]


def replay(c, recs):
    for i in range(0, len(recs), 3000):      # method tables live as long as the process
        part = recs[i:i + 3000]
        cs = [render(r, k) for k, r in enumerate(part)]
        for r, (s, e), g in zip(part, cs, c.run_cases([x[0] for x in cs], prelude=PRELUDE)):
            c.compare("|".join(str(o) for o in r["ops"]), s, e, g)


def run(c):
    replay(c, c.tlc("ClassEnum", constants={"DEPTH": 2}, invariants=("TypeOK",)))
    replay(c, c.tlc("ClassEnum", constants={"DEPTH": 3}, sample=60000 if c.thorough else 4000))
    c.notes["histories_enumerated"] = c.emitted
    recs = c.tlc("ClassEnum", constants={"DEPTH": 12}, constraints=("SimEmit",), simulate=200 if c.thorough else 24, depth=14, sample=20000 if c.thorough else 2000)
    replay(c, recs)
