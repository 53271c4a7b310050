"""C16: templates and macro programs of Macro.tla, evaluated directly, through eval and through macroexpand*."""
from vp.common import *
import random

LITS = {"arr": ("##(1 (unquote va))", ["a", [["i", 1], ["l", [["y", "unquote"], ["y", "va"]], ["n"]]]]), "tree": ("#@(a: 1)", None), "arr0": ("##()", ["a", []]), "float": ("1.5", ["f", 1.5])}
PRELUDE = r"""
(defn vx/same? (a b)
  (while (and (pair? a) (pair? b))
    (when-not (vx/same? (car a) (car b)) (return #f))
    (set! a (cdr a)) (set! b (cdr b)))
  (or (= a b) (and (nil? a) (nil? b)) (= (string/write a) (string/write b))))
(defn vx/macro? (x env)
  (case (:type-name x)
    (:macro #t)
    (:symbol (and (resolves? x env) (= (:type-name (ref env x)) :macro)))
    (otherwise #f)))
(defn vx/left (x env)
  (when (and (pair? x) (not= (car x) 'quote) (not= (car x) quote))
    (when (vx/macro? (car x) env) (return (car x)))
    (while (pair? x)
      (def r (vx/left (car x) env))
      (when r (return r))
      (set! x (cdr x))))
  #f)
(defn vx/expanded (form env)
  (def x (macroexpand* form env))
  (def left (vx/left x env))
  (when left (throw (list :vp-macro-left left)))
  (when-not (vx/same? x (macroexpand* x env)) (throw (list :vp-not-final)))
  (bytecode-eval* (compile* x env) env))
"""


def text(v, rnd=None):
    t = v[0]
    if t == "l":
        es, tail = v[1], v[2]
        if rnd and len(es) == 2 and tail[0] == "n" and es[0][0] == "y" and es[0][1] in ("quote", "quasiquote", "unquote", "unquote-splicing") and rnd.random() < 0.8:
            return {"quote": "'", "quasiquote": "`", "unquote": "~", "unquote-splicing": "~@"}[es[0][1]] + text(es[1], rnd)
        return "(" + " ".join(text(e, rnd) for e in es) + (" . " + text(tail, rnd) if tail[0] != "n" else "") + ")"
    return {"n": lambda: "#nil", "i": lambda: str(v[1]), "b": lambda: "#t" if v[1] else "#f", "k": lambda: ":" + v[1], "y": lambda: v[1].replace("#", "_"), "s": lambda: '"%s"' % v[1], "x": lambda: LITS[v[1]][0]}[t]()


def value(v):
    if v[0] == "l":
        return ["l", [value(e) for e in v[1]], value(v[2])]
    if v[0] == "x":
        return LITS[v[1]][1] or ["t", [["a", ["i", 1]]]]
    return ["n"] if v[0] == "n" else ["s", v[1]] if v[0] == "s" else list(v)


def defmacro(name, m, rnd=None):
    ps = " ".join(m["ps"])
    args = "(" + ps + (" . " + m["r"] if m["r"] else "") + ")" if m["ps"] else (m["r"] or "()")
    return "(defmacro %s %s %s)" % (name, args, text(m["b"], rnd))


VARS = "(va 7) (vb '(1 2)) (vc '((unquote va) unquote-splicing va ((unquote-splicing vb)))) (vd #f) (vn #nil) (vs 'va)"


def run(c):
    macros = c.tlc("Macro", constants={"DEPTH": 1, "WIDTH": 1}, init="MacInit", nxt="MacNext", constraints=("MacEmit",))[0]["macros"]
    rnd = random.Random(c.seed)
    prelude = PRELUDE + "\n".join("(eval-in root-closure '%s)" % defmacro(n, m, rnd) for n, m in sorted(macros.items()))

    def replay(recs, modes, gc=None):
        cases, todo = [], []
        for r in recs:
            for mode in modes:
                own = r["m"]["b"][0] != "n"
                e = text(r["e"], rnd)
                if own and mode in ("direct", "fn"):
                    mode = "evalfn" if mode == "fn" else "eval"
                s = {"direct": "(let (%s) %s)", "fn": "(let (%s) ((fn () %s)))", "evalfn": "(let (%s) %%s(eval '((fn () %s))))", "eval": "(let (%s) %%s(eval '%s))", "expand": "(let (%s) %%s(vx/expanded '%s (current-closure)))"}[mode] % (VARS, e)
                if mode in ("eval", "evalfn", "expand"):
                    s = s % ("(eval-in root-closure '%s) " % defmacro("vmown", r["m"], rnd) if own else "")
                cases.append(s)
                todo.append(r)
        for r, s, g in zip(todo, cases, c.run_cases(cases, prelude=prelude, gc=gc)):
            exp = value(r["v"]) if r["o"] == "v" else ["e", ""]
            c.compare(s, s, exp, g, exp_trace=[value(x) for x in r["tr"]])
    big = c.thorough
    replay(c.tlc("Macro", constants={"DEPTH": 2, "WIDTH": 3 if big else 1}, nxt="NextForms", invariants=("Sane",), sample=None if big else 1200), ("direct", "expand"))
    replay(c.tlc("Macro", constants={"DEPTH": 3, "WIDTH": 16 if big else 5}, nxt="NextTemplates", invariants=("Sane",), sample=None if big else 2500), ("direct",))
    for depth, num in ((2, 800), (3, 1200), (4, 1200), (5, 600)):
        recs = c.tlc("Macro", constants={"DEPTH": depth, "WIDTH": 60}, init="Init", nxt="SimNext", simulate=10 if not big else 100, depth=200, invariants=("Sane",), sample=num * (10 if big else 1))
        replay(recs, ("fn", "expand") if depth < 4 else ("direct",))
