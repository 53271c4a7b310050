"""Rendering of heap histories (Heap.tla) and of holder nestings (HoldEnum.tla) into programs."""
from vp.common import *

KINDS = ["pair", "arr", "tree", "clo", "env", "str", "buf", "view", "sym"]
NHEAP = 9

PRELUDE = """
(def vp/every verif/gc-every)
(def vp/heap verif/heap)
(def vp/gcn (if vp/gc (read/single vp/gc) 0))
(defn vp/collect (x)
  (vp/every 1 1)
  (if x (vp/every vp/gcn vp/gcn) (vp/every vp/gcn vp/gcn)))
(defn vp/clo (n x y)
  (fn (op v) (if (= op 0) n (if (= op 1) x (if (= op 2) y (if (= op -1) (set! x v) (set! y v)))))))
(defn vp/mk-env (n x y) (current-closure))
(defn vp/mk-buf (n) (let ((b (buffer/allocate 4)) (v #nil)) (set! v (:u32 b)) (set! v 0 n) b))
(defn vp/mk-sym (n) (:symbol (cat "vp--sym-" n)))
(defn vp/sym-id (s) (let ((t (:string s))) (if (= 0 (:index-of t "vp--sym-" 0)) (read/single (:cut t 8 20)) t)))
(defn vp/str-id (s) (if (= 0 (:index-of s "vp--str-" 0)) (read/single (:cut s 8 20)) s))
(def vp/h0 (array/new))
(:length! vp/h0 9)
(def vp/h1 (array/new))
(:length! vp/h1 9)
(def vp/notes (array/new))
(:length! vp/notes 900)
(def vp/note-p 0)
(defn vp/measure (to)
  (vp/collect #t)
  (vp/collect #t)
  (let ((r (vp/heap to)))
    (when r (tr r))
    #t))
(defn vp/base () (set! vp/note-p 0) (vp/measure vp/h0) #t)
(defn vp/note ()
  (vp/measure vp/h1)
  (dotimes (i 9)
    (set! vp/notes (+ vp/note-p i) (- (ref vp/h1 i) (ref vp/h0 i))))
  (set! vp/note-p (+ vp/note-p 9))
  #t)
(defn vp/get-notes ()
  (def r #nil)
  (def i (- vp/note-p 1))
  (while (>= i 0) (set! r (cons (ref vp/notes i) r)) (set! i (- i 1)))
  r)
(:add-method Nil :vp-held1 vp/clo) (:add-method Nil :vp-held2 vp/clo) (:add-method Nil :vp-held3 vp/clo) (:add-method Nil :vp-held4 vp/clo)
(defn vp/second (a b) b)
(defn vp/first (a b) a)
(defn vp/resta r (car r))
"""

MK = {"pair": "(cons %s (cons %s %s))", "arr": "(array/new %s %s %s)", "tree": "(tree/new :id %s :x %s :y %s)", "clo": "(vp/clo %s %s %s)", "env": "(vp/mk-env %s %s %s)"}
GET = {"pair": ("(car (cdr %s))", "(cdr (cdr %s))"), "arr": ("(ref %s 1)", "(ref %s 2)"), "tree": ("(ref %s :x)", "(ref %s :y)"), "clo": ("(%s 1 #nil)", "(%s 2 #nil)"),
       "env": ("(ref (:data %s) :x)", "(ref (:data %s) :y)"), "view": ("(:buffer %s)",)}
SET = {"arr": ("(set! %s 1 %s)", "(set! %s 2 %s)"), "tree": ("(set! %s :x %s)", "(set! %s :y %s)"), "clo": ("(%s -1 %s)", "(%s -2 %s)")}
ID = {"pair": "(car %s)", "arr": "(ref %s 0)", "tree": "(ref %s :id)", "clo": "(%s 0 #nil)", "env": "(ref (:data %s) :n)", "str": "(vp/str-id %s)", "buf": "(ref (:u32 %s) 0)", "view": "(ref %s 0)", "sym": "(vp/sym-id %s)"}


def var(x):
    return "#nil" if x == 0 else "v%d" % x


def make(k, n, x, y):
    if k in MK:
        return MK[k] % (n, x, y)
    if k == "str":
        return '(cat "vp--str-" %d)' % n
    if k == "buf":
        return "(vp/mk-buf %d)" % n
    if k == "sym":
        return "(vp/mk-sym %d)" % n
    return "(:u32 %s)" % x


PUSH = {   # how: (opening, closing); the operations in between run while only the frame holds the object
    "local": ("(let ((held v{v})) (set! v{v} #nil)", " held)"),
    "arg": ("(vp/first v{v} (do (set! v{v} #nil)", " #nil))"),
    "rest": ("(vp/resta v{v} (do (set! v{v} #nil)", " #nil) 3)"),
    "array": ("(ref (array/new v{v} (do (set! v{v} #nil)", " 1)) 0)"),
    "tree": ("(ref (tree/new :q v{v} :r (do (set! v{v} #nil)", " 1)) :q)"),
    "list": ("(car (list v{v} (do (set! v{v} #nil)", " 1)))"),
    "handler": ("(try (let ((held v{v})) (fn (e) held)) (set! v{v} #nil)", " (throw (list :h 1)))"),
    "thrown": ("(try (fn (e)", " (cadr e)) (let ((held v{v})) (set! v{v} #nil) (throw (list :h held))))"),
    "capture": ("(let ((g ((fn (x) (fn () x)) v{v}))) (set! v{v} #nil)", " (g))"),
    "callarg": ("((fn (held) (set! v{v} #nil)", " held) v{v})"),
    "method": ("(do (:add-method Nil :vp-held{k} (let ((held v{v})) (fn (self) held))) (set! v{v} #nil)", " (let ((h (:vp-held{k} #nil))) (:add-method Nil :vp-held{k} vp/clo) h))"),
    "eval": ("(do (set! held{k} (compile (list 'quote v{v}))) (set! v{v} #nil)", " (let ((h (bytecode-eval* held{k} (current-closure)))) (set! held{k} #nil) h))"),
    "loop": ("(do (doseq (held (list v{v})) (set! v{v} #nil)", " (set! r{k} held)) (let ((h r{k})) (set! r{k} #nil) h))"),
    "literal": ("(car (cons v{v} (do (set! v{v} #nil)", " 1)))"),
    "or": ("(or (and (do (set! q{k} v{v}) (set! v{v} #nil)", " #f) 1) (let ((h q{k})) (set! q{k} #nil) h))"),
}


def history(h):
    """-> body text, number of accounting points"""
    out = []
    n = 0
    notes = 0
    stack = []
    k = 0
    for op in h:
        o = op[0]
        if o == "new":
            n += 1
            out.append("(set! v%d %s)" % (op[1], make(op[2], n, var(op[3]), var(op[4]))))
        elif o == "set":
            out.append(SET[op[2]][op[3] - 1] % (var(op[1]), var(op[4])))
        elif o == "get":
            out.append("(set! v%d %s)" % (op[1], GET[op[2]][op[4] - 1] % var(op[3])))
        elif o == "copy":
            out.append("(set! v%d v%d)" % (op[1], op[2]))
        elif o == "clear":
            out.append("(set! v%d #nil)" % op[1])
        elif o == "push":
            k = len(stack) + 1
            stack.append(k)
            out.append("(set! v%d %s" % (op[1], PUSH[op[2]][0].format(v=op[1], k=k)))
        elif o == "pop":
            out.append(PUSH[op[2]][1].format(v=op[1], k=stack.pop()) + ")")
        elif op[1] == 0:
            out.append("(vp/collect #t)")
        else:
            out.append("(vp/note)")
            notes += 1
    assert not stack
    return " ".join(out), notes


def graph(r):
    """Expressions describing the objects reachable at the end, and their expected values."""
    kind, f, ser, vs = r["kind"], r["f"], r["ser"], r["var"]
    path = {}
    order = []
    exprs, exp = [], []
    for i, c in enumerate(vs):
        if c == 0:
            exprs.append("v%d" % (i + 1))
            exp.append(["n"])
        elif c not in path:
            path[c] = "v%d" % (i + 1)
            order.append(c)
        else:
            exprs.append("(= v%d %s)" % (i + 1, path[c]))
            exp.append(["b", 1])
    for c in order:
        k = kind[c - 1]
        p = path[c]
        exprs.append("(:type-name %s)" % p)
        exp.append(["k", {"pair": "pair", "arr": "array", "tree": "tree", "clo": "lambda", "env": "environment", "str": "string", "buf": "buffer", "view": "buffer-view", "sym": "symbol"}[k]])
        if k == "view":
            b = f[c - 1][0]
            exprs.append(ID[k] % p)
            exp.append(["i", ser[b - 1]])
        else:
            exprs.append(ID[k] % p)
            exp.append(["i", ser[c - 1]])
        for i, g in enumerate(GET.get(k, ())):
            t = f[c - 1][i]
            e = g % p
            if t == 0:
                exprs.append(e)
                exp.append(["n"])
            elif t in path:
                exprs.append("(= %s %s)" % (e, path[t]))
                exp.append(["b", 1])
            elif len(e) < 400:
                path[t] = e
                order.append(t)
    return "(list %s)" % " ".join(exprs), exp

# ---------------------------------------------------------------- HoldEnum.tla
HOLD_PRELUDE = PRELUDE + """
(defn vp/s-id (x) x)
(defn vp/s-call (x) (x))
(defn vp/s-env (x) (list (ref (:data x) :n) (ref (:data x) :s)))
(defn vp/s-macro (x) (apply x #nil))
(defn vp/s-code (x) (bytecode-eval* x (current-closure)))
(defn vp/s-keys (x) (list (:length x) x))
(defn vp/mk-clo (n) (let ((s (cat "c" n))) (fn () (list n s))))
(defn vp/mk-env2 (n) (def s (cat "e" n)) (current-closure))
(defn vp/mk-code (n) (compile (list 'list n (cat "code" n))))

(defn vp/mk-view (n) (let ((b (buffer/allocate 4)) (v #nil)) (set! v (:u8 b)) (set! v 0 n) v))
(defn vp/mk-fview (n) (let ((b (buffer/allocate 8)) (v #nil)) (set! v (:f64 b)) (set! v 0 (/ n 2.0)) v))
(defn vp/mk-rope (n) (let ((r #nil) (i 40)) (while (> i 0) (set! r (cons (+ n i) r)) (set! i (- i 1))) r))
(defn vp/mk-keys (n) (let ((t (tree/new))) (set! t (:keyword (cat "vp--x" n)) 1) (set! t (:keyword (cat "vp--y" n)) 2) t))
(:add-method Int :vp-m (fn (self s a b) (list (s a) b)))
(:add-method Nil :vp-c1 (fn (self) 1))
(:add-method Nil :vp-c2 (fn (self) 1))
(:add-method Nil :vp-c3 (fn (self) 1))
(:add-method Nil :vp-c4 (fn (self) 1))
(:add-method Nil :vp-c5 (fn (self) 1))
(:add-method Nil :vp-c6 (fn (self) 1))
(defn vp/h2 (s a b) (list (s a) b))
(defn vp/deep (n) (if (= n 0) (vp/churn) (+ 1 (vp/deep (- n 1)))))
(def vp/garbage #nil)
; create and drop objects of every kind, so that cells freed before are in use again
(defn vp/churn ()
  (vp/collect #t)
  (vp/every 0 0)
  (dotimes (i 40)
    (set! vp/garbage (list (array/new i i) (tree/new :zz i :zy i) (cat "garbage" i) (vp/mk-buf i) (vp/mk-view i) (vp/mk-clo i) (vp/mk-env2 i) (:symbol (cat "vp--g" i)) (vp/mk-keys i) (list i i i i)))
    (try (fn (e) 1) (throw (list :garbage i))))
  (set! vp/garbage #nil)
  (vp/collect #t)
  1)
(defn vp/leaf-gc () (vp/collect #t) 4711)
(defn vp/leaf-churn () (vp/churn) 4711)
(defn vp/leaf-throw () (try (fn (e) (vp/churn) 4711) (vp/collect #t) (throw (list :x (cat "y" 1)))))
(defn vp/leaf-deep () (vp/deep 60) 4711)
(defn vp/leaf-compile () (vp/collect #t) (eval '(let ((a 1)) (vp/collect #t) (vp/churn) 4711)))
(defn vp/leaf-big () (vp/collect #t) (vp/every 0 0) (let ((a (array/new))) (:length! a 1000) (array/fill! a 7) (read (string/write a)) (vp/collect #t) 4711))
(defn vp/leaf-loop () (doseq (l (list 1 2 3)) (map (list l l) (fn (x) (vp/collect #t) (cons x x)))) (vp/churn) 4711)
(defn vp/mk-wide (n) (let ((a (:alloc Array 70000))) (set! a 3 7) (set! a 65535 (cat "w" n)) (set! a 65536 (cat "x" n)) (set! a 69999 (cat "y" n)) a))
(defn vp/s-wide (a) (list (:length a) (list (ref a 65535) (ref a 65536) (ref a 69999) (ref a 3))))
; what the interpreter itself holds
(defn vp/describe ()
  (def r #nil)
  (doseq (s (:keys (:data root-closure)))
    (def v (ref root-closure s))
    (when (= (:type-name v) :native-function) (set! r (cons (cat (:string s) (string/write (:arguments v)) (string/write (list (:meta v :name) (:meta v :documentation) (:meta v :cat) (:meta v :type) (:meta v :pure)))) r))))
  (join r " "))
(def vp/described (vp/describe))
(defn vp/s-native (x) (vp/every 0 0) (= vp/described (vp/describe)))
; put something else into every cell that is free
(defn vp/flood ()
  (vp/collect #t)
  (vp/every 0 0)
  (def i 0)
  (while (< i 265000) (cons i :garbage) (set! i (+ i 1)))
  (set! i 0)
  (while (< i 17000) (array/new i) (set! i (+ i 1)))
  (set! i 0)
  (while (< i 34000) (cat "garbage" i) (tree/new :gx i) (set! i (+ i 1)))
  (set! i 0)
  (while (< i 140000) ((fn () #nil)) (set! i (+ i 1)))
  (set! i 0)
  (while (< i 17000) (vp/mk-view 1) (set! i (+ i 1)))
  (vp/collect #t))
(defn vp/leaf-flood () (vp/flood) 4711)
(defn vp/leaf-symbols () (vp/every 0 0) (dotimes (i 300) (:keyword (cat "vp--q" i)) (:symbol (cat "vp--p" i))) (vp/collect #t) (vp/every 0 0) (dotimes (i 300) (:keyword (cat "vp--r" i)) (read (cat "(vp--t" i " vp--u" i ")"))) (vp/collect #t) 4711)
"""
HTYPES = {
    "pair": ('(list {n} (list (cat "p" {n}) :q))', "vp/s-id"), "array": ('(array/new {n} (array/new (cat "a" {n})) #nil)', "vp/s-id"),
    "tree": ("(tree/new :vpa {n} :vpb (list {n} {n}))", "vp/s-id"), "string": ('(cat "str-" {n})', "vp/s-id"), "buffer": ("(vp/mk-buf {n})", "vp/s-id"),
    "view": ("(vp/mk-view {n})", "vp/s-id"), "fview": ("(vp/mk-fview {n})", "vp/s-id"), "clo": ("(vp/mk-clo {n})", "vp/s-call"), "env": ("(vp/mk-env2 {n})", "vp/s-env"),
    "symbol": ('(:symbol (cat "vp--s" {n}))', "vp/s-id"), "keyword": ('(:keyword (cat "vp--k" {n}))', "vp/s-id"), "code": ("(vp/mk-code {n})", "vp/s-code"),
    "macro": ('(let ((y (:symbol (cat "vp--m" {n})))) (fn () (list {n} y)))', "vp/s-call"),
    "nested": ('(list (array/new (tree/new :vpa (list {n} (array/new (cat "n" {n}))))))', "vp/s-id"),
    "empty": ('(array/new (array/new) (cat) (tree/new) (buffer/allocate 0))', "vp/s-id"), "rope": ("(vp/mk-rope {n})", "vp/s-id"), "keys": ("(vp/mk-keys {n})", "vp/s-keys"),
    "wide": ("(vp/mk-wide {n})", "vp/s-wide"), "native": ("+", "vp/s-native"),
}
HOWS = {
    "let": "(let ((x {X})) (let ((r {H})) (list ({S} x) r)))",
    "def": "((fn () (def x {X}) (def r {H}) (list ({S} x) r)))",
    "arg": "((fn (a b) (list ({S} a) b)) {X} {H})",
    "arg2": "(vp/h2 {S} {X} {H})",
    "rest": "((fn r (list ({S} (car r)) (cadr r))) {X} {H})",
    "apply": "(apply (fn (a b) (list ({S} a) b)) (list {X} {H}))",
    "array": "(let ((q (array/new {X} {H}))) (list ({S} (ref q 0)) (ref q 1)))",
    "tree": "(let ((q (tree/new :vpx {X} :vpy {H}))) (list ({S} (ref q :vpx)) (ref q :vpy)))",
    "cons": "(let ((q (cons {X} {H}))) (list ({S} (car q)) (cdr q)))",
    "list": "(let ((q (list {X} {H}))) (list ({S} (car q)) (cadr q)))",
    "method": "(:vp-m 1 {S} {X} {H})",
    "handler": "(try (let ((x {X})) (fn (e) (list ({S} x) (cadr e)))) (throw (list :e {H})))",
    "thrown": "(try (fn (e) (let ((r {H})) (list ({S} (cadr e)) r))) (throw (list :e {X})))",
    "rethrow": "(try (fn (e) (let ((r {H})) (list ({S} (cadr e)) r))) (try (fn (e) (vp/collect #t) (throw (list :f (cadr e)))) (throw (list :e {X}))))",
    "capture": "(let ((g ((fn (x) (fn () x)) {X}))) (let ((r {H})) (list ({S} (g)) r)))",
    "curry": "(let ((g ((((fn (x) (fn () (fn () (fn () x)))) {X}))))) (let ((r {H})) (list ({S} (g)) r)))",
    "set": "(let ((x #nil)) (set! x {X}) (let ((r {H})) (list ({S} x) r)))",
    "setarg": "((fn (x) (set! x {X}) (let ((r {H})) (list ({S} x) r))) 1)",
    "env": "(let ((env (let ((vpx {X})) (current-closure)))) (let ((r {H})) (list ({S} (bytecode-eval* (compile 'vpx) env)) r)))",
    "deepenv": "(let ((env (let ((vpx {X})) (let ((vpz 1)) (let ((vpq 2)) (current-closure)))))) (let ((r {H})) (list ({S} (bytecode-eval* (compile 'vpx) env)) r)))",
    "quote": "(eval (list 'vp/h2 '{S} (list 'quote {X}) '{H}))",
    "fnlit": "(let ((f (eval (list 'fn '() (list 'quote {X}))))) (let ((r {H})) (list ({S} (f)) r)))",
    "doseq": "(do (def r{d} #nil) (doseq (x (list {X})) (set! r{d} (let ((q {H})) (list ({S} x) q)))) r{d})",
    "while": "(do (def r{d} #nil) (def i{d} {X}) (while i{d} (set! r{d} (let ((q {H})) (list ({S} i{d}) q))) (set! i{d} #nil)) r{d})",
    "map": "(car (map (list {X}) (fn (x) (let ((q {H})) (list ({S} x) q)))))",
    "mapclo": "(car (map (list 1) (let ((x {X})) (fn (y) (let ((q {H})) (list ({S} x) q))))))",
    "amap": "(ref (map (array/new {X}) (fn (x) (let ((q {H})) (list ({S} x) q)))) 0)",
    "reduce": "(reduce (list 1) (fn (a b) (let ((q {H})) (list ({S} a) q))) {X})",
    "classm": "(do (:add-method Nil :vp-c{d} (let ((x {X})) (fn (self) x))) (let ((r {H})) (list ({S} (:vp-c{d} #nil)) r)))",
    "proto": "(let ((o (tree/new :prototype* (tree/new :vp-v (let ((x {X})) (fn (self) x)))))) (let ((r {H})) (list ({S} (:vp-v o)) r)))",
    "meta": "(let ((f (fn (vp-m) \"vp-doc-{d}\" vp-m))) (:meta! f :vp-x {X}) (let ((r {H})) (list ({S} (:meta f :vp-x)) r)))",
    "ret": "(vp/h2 {S} ((fn () (return {X}))) {H})",
    "or": "(vp/h2 {S} (or #f {X}) {H})",
    "if": "(vp/h2 {S} (if {H} {X} 1) {H})",
    "callee": "((let ((x {X})) (fn () (let ((r {H})) (list ({S} x) r)))))",
    "prog": "(let ((x {X})) (def y x) (set! x #nil) (let ((r {H})) (set! x 1) (list ({S} y) r)))",
    "treekey": "(let ((t (tree/new))) (set! t :vp-k {X}) (set! t :vp-j 1) (let ((r {H})) (set! t :vp-l 2) (list ({S} (ref t :vp-k)) r)))",
    "case": "(let ((x {X})) (case 3 (1 #nil) (3 (let ((r {H})) (list ({S} x) r))) (otherwise 1)))",
}


def hold(r):
    s = "(vp/leaf-%s)" % r["leaf"]
    # objects are numbered from the outermost frame on
    for d in range(len(r["fr"]), 0, -1):
        how, t = r["fr"][d - 1]
        x, show = HTYPES[t]
        s = HOWS[how].replace("{X}", x.replace("{n}", str(d))).replace("{S}", show).replace("{d}", str(d)).replace("{H}", s)
    return s


HEAP_INV = ("FreeListExact", "NoDangling", "NoneHandedOutTwice", "Exact")


def heap_histories(c, nv, n, ln, num, every=None, unit=None):
    """Random histories of Heap.tla replayed; with unit, also the number of cells in use compared after collections."""
    recs = c.tlc("Heap", constants={"N": n, "NV": nv, "LEN": ln}, init="Init", nxt="SimNext", invariants=HEAP_INV, simulate=num, depth=ln + 10)
    cases, exps = [], []
    for r in recs:
        h = [o if unit or o[0] != "gc" else ["gc", 0] for o in r["h"]]
        body, notes = history(h)
        g, e = graph(r)
        defs = " ".join("(def v%d #nil)" % (i + 1) for i in range(nv))
        tmp = " ".join("(def %s%d #nil)" % (p, i) for p in ("held", "r", "q") for i in range(1, 5))
        cases.append("(do %s %s (vp/base) %s (list %s (vp/get-notes)))" % (defs, tmp, body, g))
        acc = []
        for o in h:
            if o[0] == "gc" and o[1] != 0:
                acc += [sum(o[1][k] * unit[k][i] for k in KINDS) for i in range(NHEAP)]
        exps.append(["l", [["l", e, ["n"]], ["l", [["i", a] for a in acc], ["n"]] if acc else ["n"]], ["n"]])
    for s, e, g in zip(cases, exps, c.run_cases(cases, prelude=PRELUDE, gc=every)):
        c.compare("%s|%s" % (every, s), s, e, g, exp_trace=[])
    c.notes["heap_histories"] = c.notes.get("heap_histories", 0) + len(cases)
