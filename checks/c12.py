"""C12: values, written by the interpreter: the text reads back, there and in Reader.tla."""
from vp.common import *
from checks import c11

PRELUDE = """
(defn vp/st (b) (buffer->string b))
(defn vp/symb (b) (:symbol (buffer->string b)))
(defn vp/keyw (b) (:keyword (buffer->string b)))
(defn vp/ck (v)
  (def w (string/write v))
  (def d (string/display v))
  (list w d (read w)))
"""


def m(b):
    return "#m" + bytes(b).hex().upper() if b else "(buffer/allocate 0)"


def build(v):
    """an expression that makes the value without reading it"""
    t = v[0]
    if t in ("n", "b"):
        return "#nil" if t == "n" else "#t" if v[1] else "#f"
    if t == "i":
        return "(+ #x%X 0)" % int.from_bytes(bytes(v[1]), "little")
    if t == "f":
        n = int("".join(map(str, v[2 + 0])) + "".join(map(str, v[3])))
        return "(/ (+ 0.0 %d) (+ 0.0 %d))" % (-n if v[1] else n, 10 ** len(v[3]))
    if t == "s":
        return "(vp/st %s)" % m(v[1])
    if t == "y":
        return "(vp/symb %s)" % m(v[1])
    if t == "k":
        return "(vp/keyw %s)" % m(v[1])
    if t == "u":
        return m(v[1])
    if t == "a":
        return "(array/new %s)" % " ".join(build(x) for x in v[1])
    if t == "t":
        return "(tree/new %s)" % " ".join("(vp/keyw %s) %s" % (m(k), build(x)) for k, x in v[1])
    if t == "l":
        r = build(v[2])
        for x in reversed(v[1]):
            r = "(cons %s %s)" % (build(x), r)
        return r
    raise MachineryError(v)


def kinds(v):
    if v[0] == "a":
        return {"a"}.union(*[kinds(x) for x in v[1]])
    if v[0] == "l":
        return {"l"}.union(kinds(v[2]), *[kinds(x) for x in v[1]])
    if v[0] == "t":
        return {"t" if len(v[1]) < 2 else "tt"}.union(*[kinds(x) for _, x in v[1]])
    return {v[0]}


def exact(e, g):
    if e[0] == "fl":
        return g == ["f", float(e[1])]
    if e[0] in ("l", "a", "t"):
        return g[0] == e[0] and len(g[1]) == len(e[1]) and all(exact(a, b) if e[0] != "t" else a[0] == b[0] and exact(a[1], b[1]) for a, b in zip(e[1], g[1])) and (e[0] != "l" or exact(e[2], g[2]))
    return e == g


def run(c):
    back = []

    def replay(recs, label, **kw):
        cases = ["(vp/ck %s)" % build(r["v"]) for r in recs]
        for r, s, g in zip(recs, cases, c.run_cases(cases, prelude=PRELUDE, **kw)):
            ks = kinds(r["v"])
            # what is displayed is known for values without buffers and inner nils; the order of keys is not
            d = ["s", bts(r["d"])] if not ks & {"u", "tt"} else ["any"]
            e = ["l", [["any"], d, ["l", [c11.val(r["v"])], ["n"]]], ["n"]]
            ok = c.compare(s, s, e, g, cmp=lambda e, g: g[0] == "l" and len(g[1]) == 3 and matches(d, g[1][1]) and exact(e[1][2], g[1][2]))
            if ok:
                t = g[1][1][0][1]
                back.append(dict(x=list(bytes.fromhex(t[2:]) if t.startswith("\\x") else t.encode("utf-8")), v=r["v"], s=s))
        c.notes[label] = len(recs)
    t = c.thorough
    f = os.path.join(c.work, "back.json")
    open(f, "w").write("[]")
    replay(c.tlc("Printer", constants={"DEPTH": 2 if t else 1}, invariants=("RoundTrip",), extra_files=(f,), sample=100000 if t else 12000), "values_enumerated")
    replay(c.tlc("Printer", constants={"DEPTH": 0}, init="SimInit", nxt="SimNext", simulate=3000 if t else 90, depth=8, constraints=("SimEmit",), invariants=("RoundTrip",), extra_files=(f,)), "values_simulated")
    # the other way round: the recorded texts, read by the specification
    json.dump([dict(x=b["x"], v=b["v"]) for b in back], open(f, "w"))
    bad = c.tlc("Printer", constants={"DEPTH": 0}, init="BackInit", nxt="BackNext", constraints=("BackEmit",), extra_files=(f,), expect_emit=False)
    c.notes["written_texts_checked_by_the_specification"] = len(back)
    for r in bad:
        b = back[r["n"] - 1]
        c.violate(b["s"], b["s"], {"value": c11.val(b["v"])}, ["text", bts(b["x"])])
