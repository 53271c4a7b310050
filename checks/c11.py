"""C11: what reading a text gives, as Reader.tla says."""
from vp.common import *

PRELUDE = """
(defn vp/rd (b) (read (buffer->string b)))
(defn vp/rd1 (b) (read/single (buffer->string b)))
(defn vp/rep (s n)
  (if (<= n 0) ""
      (if (not-zero? (bit-and n 1)) (cat (vp/rep s (- n 1)) s)
          (let ((h (vp/rep s (bit-shift-right n 1)))) (cat h h)))))
(defn vp/big (pre piece n mid post end)
  (try (fn (e) :err)
    (read (cat (buffer->string pre) (vp/rep (buffer->string piece) n) (buffer->string mid) (vp/rep (buffer->string post) n) end))))
(defn vp/only (r f) (if (= r :err) r (if (and (pair? r) (nil? (cdr r))) (f (car r)) :not-one)))
(defn vp/len (l) (def n 0) (while (pair? l) (set! n (+ n 1)) (set! l (cdr l))) n)
(defn vp/deep (v next) (def n 0) (while (or (pair? v) (array? v)) (set! n (+ n 1)) (set! v (next v))) n)
(defn vp/buf-eq (b n x) (def i 0) (while (< i n) (when-not (= (ref b i) x) (return #f)) (set! i (+ i 1))) #t)
"""


def big(r):
    """a big text and what is known about the value"""
    b, n, k = r["b"], r["n"], r["b"]["k"]
    m = lambda x: "#m" + bytes(x).hex().upper()
    f = {"str": '(= v (cat (buffer->string %s) (vp/rep (buffer->string %s) %d)))' % (m(r["head"]), m(b["val"]), n),
         "buf": "(and (= (:length v) %d) (vp/buf-eq v %d 241))" % (n, n),
         "sym": "(and (symbol? v) (= (:string v) (cat \"a\" (vp/rep \"b\" %d))))" % n,
         "key": "(and (keyword? v) (= (:string v) (cat \"a\" (vp/rep \"b\" %d))))" % n,
         "list": "(= (vp/len v) %d)" % (n + (1 if len(b["pre"]) > 1 else 0)),
         "arr": "(= (:length v) %d)" % n,
         "nest": "(= (vp/deep v car) %d)" % n,
         "nesta": "(= (vp/deep v (fn (a) (ref a 0))) %d)" % n,
         "quote": "(= (vp/deep v cadr) %d)" % n,
         "chain": "(= (vp/deep v cadr) %d)" % n,
         "one": "(= v 'b)", "open": "#f"}[k]
    s = "(vp/only (vp/big %s %s %d %s %s \"%s\") (fn (v) %s))" % (m(b["pre"]), m(b["piece"]), n, m(b["mid"]), m(b["post"]), "b" if k == "one" else "", f)
    e = ["k", "err"] if k == "open" else ["b", 1]
    return s, e, r["may"]


def val(v):
    """canonical form of a value of Reader.tla"""
    t = v[0]
    if t == "i":
        return ["i", int.from_bytes(bytes(v[1]), "little", signed=True)]
    if t == "f":
        n = fractions.Fraction(int("".join(map(str, v[2])) or "0")) + fractions.Fraction(int("".join(map(str, v[3])) or "0"), 10 ** len(v[3]))
        return ["fl", -n if v[1] else n, 10 ** len(v[3])]
    if t in ("s", "y", "k"):
        return [t, bts(v[1])]
    if t == "u":
        return ["u", list(v[1])]
    if t == "b":
        return ["b", v[1]]
    if t == "n":
        return ["n"]
    if t == "a":
        return ["a", [val(x) for x in v[1]]]
    if t == "l":
        items, tail = [val(x) for x in v[1]], val(v[2])
        return ["l", items + tail[1], tail[2]] if tail[0] == "l" else ["l", items, tail]
    if t == "t":
        d = {}
        for k, x in v[1]:
            d[bts(k)] = val(x)
        return ["t", sorted([[k, x] for k, x in d.items()], key=lambda e: e[0])]
    raise MachineryError(v)


def same(e, g):
    """like matches, with decimal fractions compared to within their last places"""
    t = e[0]
    if t == "fl":
        if g[0] != "f" or g[1] != g[1] or abs(g[1]) == float("inf"):
            return False
        if len(str(e[1].numerator)) <= 15 and e[1].denominator < 10 ** 15 and abs(e[1]) * e[2] < 10 ** 15:
            return g[1] == float(e[1])      # exactly the nearest number
        x = fractions.Fraction(g[1])
        return abs(x - e[1]) <= max(abs(e[1]), abs(x)) * fractions.Fraction(1, 2 ** 50)
    if t == "l":
        return g[0] == "l" and len(e[1]) == len(g[1]) and all(same(a, b) for a, b in zip(e[1], g[1])) and same(e[2], g[2])
    if t == "a":
        return g[0] == "a" and len(e[1]) == len(g[1]) and all(same(a, b) for a, b in zip(e[1], g[1]))
    if t == "t":
        return g[0] == "t" and [k for k, _ in e[1]] == [k for k, _ in g[1]] and all(same(a[1], b[1]) for a, b in zip(e[1], g[1]))
    return e == g if t in ("k", "y") else matches(e, g)


def sourcelit(b):
    """the text as a string literal of the case itself, None if it cannot be one"""
    try:
        s = b.decode("utf-8")
    except UnicodeDecodeError:
        return None
    if any(ord(ch) < 32 and ch not in "\n\r\t" for ch in s):
        return None
    return nstr(s)


def render(x, k):
    b = bytes(x)
    lit_ = sourcelit(b) if k % 4 == 0 or not b else None
    return "(read %s)" % lit_ if lit_ is not None else "(vp/rd #m%s)" % b.hex().upper()


def expect(r):
    if r["t"] == "ok":
        v = [val(x) for x in r["v"]]
        return ["l", v, ["n"]]
    return {"err": ["e", ""], "any": ["any"], "one": ["one"]}[r["t"]]


def cmp_(e, g):
    if e[0] == "one":       # an element that is too long: one value or an error, not two
        return g[0] == "x" or (g[0] == "l" and len(g[1]) == 1)
    return same(e, g)


def run(c):
    def replay(recs, label, kind="verif"):
        cases = [render(r["x"], k) for k, r in enumerate(recs)]
        for r, s, g in zip(recs, cases, c.run_cases(cases, prelude=PRELUDE, kind=kind)):
            e = expect(r["r"])
            c.compare(s, "%s ; %r" % (s, bytes(r["x"])), e, g, cmp=cmp_, nontrivial=e[0] != "any")
        c.notes[label] = len(recs)
    t = c.thorough
    inv = dict(invariants=("Piecewise",))
    sim = dict(init="SimInit", nxt="SimNext", constraints=("SimEmit",))
    replay(c.tlc("ReadEnum", constants={"MODE": '"chars"', "DEPTH": 4 if t else 3}, sample=200000 if t else 30000), "texts_of_characters")
    recs = c.tlc("ReadEnum", constants={"MODE": '"tokens"', "DEPTH": 3 if t else 2}, sample=200000 if t else 30000, **inv)
    replay(recs, "texts_of_tokens")
    recs = recs0 = c.tlc("ReadEnum", constants={"MODE": '"tokens"', "DEPTH": 24}, simulate=4000 if t else 1200, depth=40, invariants=("SimPiecewise",), **sim)
    replay(recs, "texts_simulated")
    for m, n in (("chars", None), ("nums", 6000), ("names", None), ("shorts", 12000)):
        replay(c.tlc("ReadEnum", constants={"MODE": '"%s"' % m, "DEPTH": 0}, init="TabInit", nxt="TabNext", constraints=("TabEmit",), sample=None if t else n), "table_" + m)
    recs = c.tlc("ReadEnum", constants={"MODE": '"big"', "DEPTH": 0}, init="BigInit", nxt="BigNext", constraints=("BigEmit",), invariants=("BigOk",))
    cs = [big(r) for r in recs]
    # refusing is fine where it may; a name that is cut is not one of its kind any more
    for (s, e, may), g in zip(cs, c.run_cases([x[0] for x in cs], prelude=PRELUDE)):
        c.compare(s, s, e, g, cmp=lambda e, g: matches(e, g) or (may and (g == ["k", "err"] or ("symbol?" in s or "keyword?" in s) and g == ["b", 0])))
    c.notes["big_texts"] = len(cs)
    small = [x for x, r in zip(cs, recs) if r["n"] < 1100]
    for (s, e, may), g in zip(small, c.run_cases([x[0] for x in small], prelude=PRELUDE, kind="asan")):
        c.compare("asan " + s, s, ["any"], g)
    replay(recs0[:4000 if t else 1500], "texts_under_asan", kind="asan")
