"""C04: trees are maps.  AvlTree.tla is checked exhaustively against the map it refines; behaviours of
Trees.tla are replayed into the interpreter, every result and the final contents are compared."""
import math
from vp.common import *

PRELUDE = r'''
(defn tt/depth (t) (if t (let ((l (tt/depth (:left* t))) (r (tt/depth (:right* t)))) (+ 1 (if (> l r) l r))) 0))
(defn tt/state (t) (list (:length t) (:keys t) (:values t) (if (= (:length t) 0) 0 (tt/depth t))))
'''


def key(k):
    return "tk%d" % k


def ksrc(v):
    return lit(spec(v))


def case_of(rec, names):
    """Nujel source of a behaviour, and the list of expected trace items."""
    src, exp = ["(def a (tree/new))", "(def b (tree/new))"], []
    K = lambda k: names[k]
    for st in rec["h"]:
        op, res = st["op"], st["res"]
        o = op[0]
        if o == "set":
            e = "(set! %s :%s %s)" % (op[1], K(op[2]), ksrc(op[3]))
        elif o == "inc":
            e = "(tree/++ %s :%s)" % (op[1], K(op[2]))
        elif o == "clone":
            e = "(do (set! %s (:clone %s)) (:length %s))" % (op[2], op[1], op[2])
        elif o == "alias":
            e = "(do (set! %s %s) (:length %s))" % (op[2], op[1], op[2])
        elif o == "merge":
            e = "(set! %s (tree/merge %s %s))" % (op[1], op[1], op[2])
        elif o == "filter":
            e = "(set! %s (tree/filter %s (fn (x) (not (nil? x)))))" % (op[2], op[1])
        elif o == "lit":
            e = "(do (set! %s #@(%s)) (:length %s))" % (op[1], " ".join("%s: %s" % (K(k), ksrc(v)) for k, v in op[2]), op[1])
        elif o == "new":
            e = "(do (set! %s {%s}) (:length %s))" % (op[1], " ".join(":%s %s" % (K(k), ksrc(v)) for k, v in op[2]), op[1])
        elif o == "ref":
            e = "(ref %s :%s)" % (op[1], K(op[2]))
        elif o == "has":
            e = "(:has? %s :%s)" % (op[1], K(op[2]))
        elif o == "equal":
            e = "(equal? a b)"
        elif o == "badkey":
            e = "(set! %s 5 1)" % op[1]
        if res[0] == "e":
            src.append("(tr (try (fn (e) (list :err (car e))) %s))" % e)
            exp.append(["l", [["k", "err"], ["k", res[1]]], ["n"]])
        elif res[0] == "tree":
            src.append("(tr %s)" % e if o != "inc" else "(do %s (tr %s))" % (e, op[1]))
            exp.append("LIVE")
        else:
            src.append("(tr %s)" % e)
            exp.append(spec(res))
    src.append("(list (tt/state a) (tt/state b))")
    return "(do " + " ".join(src) + ")", exp


def check_state(c, want, got, names):
    """want: entries [[k, v]...]; got: dumped (len keys values depth)"""
    if got[0] != "l" or len(got[1]) != 4:
        return "bad state"
    ln, ks, vs, dep = got[1]
    n = len(want)
    if ln != ["i", n]:
        return "length %s, want %d" % (ln, n)
    kl = [] if ks[0] == "n" else ks[1]
    vl = [] if vs[0] == "n" else vs[1]
    if len(kl) != n or len(vl) != n:
        return "keys/values length"
    m = {names[k]: spec(v) for k, v in want}
    seen = set()
    for k, v in zip(kl, vl):
        if k[0] != "k" or k[1] not in m or k[1] in seen:
            return "key %s unexpected" % (k,)
        seen.add(k[1])
        if not matches(m[k[1]], v):
            return "value of %s: %s, want %s" % (k[1], v, m[k[1]])
    if dep[1] > 1.4405 * math.log2(n + 2) - 0.3277 + 1e-9:
        return "depth %d for %d keys" % (dep[1], n)
    return None


def replay(c, recs, tag, names, kind="verif", gc=None, quick=15000):
    recs = c.cap(recs, quick, 80000)
    cases, exps = [], []
    for r in recs:
        s, e = case_of(r, names)
        cases.append(s)
        exps.append(e)
    res = c.run_cases(cases, kind=kind, prelude=PRELUDE, gc=gc)
    for r, s, e, g in zip(recs, cases, exps, res):
        c.evaluations += 1
        c.distinct.add(s)
        if len(c.samples) < 4:
            c.samples.append({"behaviour": short(s), "observed": short(g)})
        bad = None
        if g[0] != "ok" or g[1][0] == "x":
            bad = "did not finish"
        else:
            # LIVE results are the live tree object: it is dumped at the end, so only its being a tree is compared
            if len(g[2]) != len(e):
                bad = "number of results"
            else:
                for i, (x, y) in enumerate(zip(e, g[2])):
                    if x == "LIVE":
                        if y[0] != "t":
                            bad = "operation %d: not a tree: %s" % (i, y)
                            break
                    elif not matches(x, y):
                        bad = "operation %d: %s, want %s" % (i, y, x)
                        break
            if not bad:
                bad = check_state(c, r["f"]["a"], g[1][1][0], names) or check_state(c, r["f"]["b"], g[1][1][1], names)
        if bad:
            c.violate(s, s, {"final": r["f"], "why": bad}, g)


def run(c):
    names = {k: key(k) for k in range(1, 400)}
    # names in an order unrelated to symbol creation, so that address order is not numeric order
    perm = list(range(1, 400))
    c.rng.shuffle(perm)
    # 1. design: AVL insertion refines a map, exhaustively
    c.tlc("AvlTree", constants={"N": 6 if c.thorough else 5}, invariants=["RefinesMap", "Sorted", "BalancedInv"], constraints=())
    # 2. exhaustive short histories
    ops = '{"set","clone","alias","ref"}'
    replay(c, c.tlc("Trees", constants={"K": 2, "D": 4, "NK": 2, "OPS": ops}, invariants=["TypeOK", "SameOK"], properties=["LastWriteWins", "ImmutableKeeps"]), "hist", names)
    replay(c, c.tlc("Trees", constants={"K": 2, "D": 4 if c.thorough else 3, "NK": 2, "OPS": '{"set","clone","alias","merge","lit","new","inc","has","equal","badkey","filter"}'},
                    invariants=["TypeOK", "SameOK"], properties=["ImmutableKeeps"]), "hist2", names)
    replay(c, c.tlc("Trees", constants={"K": 2, "D": 2, "NK": 0, "OPS": '{"given","set","clone","merge"}'}, invariants=["TypeOK", "SameOK"], properties=["ImmutableKeeps"]), "given", names, quick=5000)
    # 3. every insertion order
    replay(c, c.tlc("Trees", constants={"K": 7 if c.thorough else 6, "D": 7 if c.thorough else 6, "NK": 1, "OPS": '{"perm"}'}), "perm", names)
    # 4. long random histories over many keys, with keys created in random order
    for i, (k, d, num) in enumerate([(200, 100, 6), (40, 60, 14), (12, 60, 20)] if not c.thorough else [(390, 350, 150), (200, 160, 200), (40, 60, 2000), (12, 60, 2000)]):
        recs = c.tlc("Trees", constants={"K": k, "D": d, "NK": 3, "OPS": '{"set1","draw"}' if i == 0 else '{"set","set1","clone","alias","merge","inc","ref","has","equal","filter","draw"}'}, simulate=num, depth=d + 2)
        replay(c, recs, "rand", {a: key(b) for a, b in zip(range(1, 400), perm)})
    L = 300 if c.thorough else 140
    for mode in ("up", "down", "perm"):
        recs = c.tlc("Trees", constants={"K": L, "D": L, "NK": 1, "OPS": '{"perm","draw"}'}, simulate=1, depth=L + 2) if mode == "perm" else \
            [dict(h=[dict(op=["set", "a", k, ["i", k]], res=["tree", []]) for k in (range(1, L + 1) if mode == "up" else range(L, 0, -1))],
                  f=dict(a=[[k, ["i", k]] for k in range(1, L + 1)], b=[]))]
        replay(c, recs, mode, {a: key(b) for a, b in zip(range(1, 400), perm)} if mode == "perm" else names)
