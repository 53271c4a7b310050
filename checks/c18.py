"""C18: programs of several files importing from each other, as Modules.tla says."""
from vp.common import *

DIRS = ["", "d/", "d/e/", "f/", "", "d/"]


def stmt(m, s):
    k = s["k"]
    fn = lambda n: {"inc": "inc", "get": "get"}[n[0]] if n[0] != "i" else str(n[1])
    if k == "exp":
        return "(export %s %s)" % (s["n1"], fn(s["v"]))
    if k == "see":
        return '(see %d (current-closure) "%s")' % (m, s["n1"])
    if k == "fail":
        return "(throw (list :vp-fail))"
    p = '"%s"' % s["path"]
    form = {"one": "(import %s %s)" % ((s["n1"], p) if k == "imp" else ("(%s)" % s["n1"], p)), "as": "(import (%s :as vpx) %s)" % (s["n1"], p),
            "two": "(import (%s %s :as vpx) %s)" % (s["n1"], s["n2"], p), "use": "(use %s)" % p, "req": "(require %s)" % p}[s["f"]]
    if k == "imp":
        return form
    return "(look %d (try (fn (e) :vp-err) %s %s))" % (m, form, s["n1"])


def files(r, d):
    out = {d + "/log.nuj": """
(def entries #nil)
(defn note (m v) (set! entries (cons (list m v) entries)) v)
(defn look (m v) (note m (if (= (:type-name v) :lambda) (v) v)))
(defn see (m env name) (look m (try (fn (e) :vp-unbound) (ref env (:symbol name)))))
(defn all () (reverse entries))
(export note note) (export look look) (export see see) (export all all)
"""}
    for i, f in enumerate(r["P"]):
        m = i + 1
        ups = "../" * DIRS[i].count("/")
        body = "\n".join(stmt(m, s) for s in f["body"])
        src = """(import (note look see) "%slog")
(note %d :vp-load)
(def p %d)
(def vpq%d %d)
(defn inc () (set! p (+ p 1)) p)
(defn get () p)
%s
""" % (ups, m, m * 100, m, m, body)
        if f["broken"]:
            src = src.rstrip()[:-1] + "\n(def x (list 1 2"
        out["%s/%sm%d.nuj" % (d, DIRS[i], m)] = src
    return out


def expected(r):
    tag = {"load": ["k", "vp-load"], "unbound": ["k", "vp-unbound"], "err": ["k", "vp-err"]}
    ents = [["l", [["i", m], tag[v[0]] if v[0] in tag else ["i", v[1]]], ["n"]] for m, v in r["r"]["log"]]
    return ["l", [["k", "ok" if r["r"]["ok"] else "err"], ["l", ents, ["n"]] if ents else ["n"]], ["n"]]


def run(c):
    def replay(recs, tag, gc=None):
        todo = {}
        cases = []
        for i, r in enumerate(recs):
            d = "c%s%d" % (tag, i)
            todo.update(files(r, d))
            # the two forms of asking for the main file: as a module, and once more afterwards
            cases.append('(do (def r (try (fn (e) :err) (module/load "%s/m1" (current-closure)) %s :ok)) (list r ((module/import (module/load "%s/log" (current-closure)) (quote all)))))'
                         % (d, '(module/load "./%s/../%s/m1" (current-closure))' % (d, d) if r["r"]["ok"] else "", d))

        def setup(dir):
            for p, s in todo.items():
                p = os.path.join(dir, p)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(s)
        for d in {os.path.dirname(p) for p in todo}:
            pass
        for r, s, g in zip(recs, cases, c.run_cases(cases, setup=setup, gc=gc)):
            key = json.dumps([[f["broken"], [[x["k"], x["f"], x["n1"], x["n2"], x["path"]] for x in f["body"]]] for f in r["P"]], separators=(",", ":"))
            c.compare(key, s + "   ; files: " + json.dumps(files(r, "c")), expected(r), g)
    laws = ("Laws", "SpellLaw")
    replay(c.tlc("Modules", constants={"NM": 2, "LEN": 1}, invariants=laws, sample=None), "e")
    replay(c.tlc("Modules", constants={"NM": 3, "LEN": 1}, invariants=laws, sample=6000 if c.thorough else 700), "g")
    for nm, ln, num in ((3, 3, 700), (5, 4, 700), (6, 6, 400)):
        replay(c.tlc("Modules", constants={"NM": nm, "LEN": ln}, init="SimInit", nxt="SimNext", simulate=20 if not c.thorough else 200, depth=60, invariants=laws, sample=num * (10 if c.thorough else 1)), "s%d" % nm)
