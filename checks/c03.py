"""C03: symbols by name: the index of SymTab.tla, and its histories with real names."""
from vp.common import *

PRELUDE = r"""
(def vp/names #nil)
(def vp/h #nil)
(def vp/kind 0)
(def vp/bad #nil)
(def vp/uniq 0)
(defn vp/nm (i) (buffer->string (ref vp/names i)))
(defn vp/make (i how)
  (def n (vp/nm i))
  (cond ((= how 0) (:symbol n))
        ((= how 1) (:symbol (:keyword n)))
        ((= how 2) (car (read n)))
        ((= how 3) (car (image/deserialize (image/serialize (list (:symbol n))))))
        (#t (:symbol (car (read (cat n ":")))))))
(defn vp/ok (name x) (when-not x (set! vp/bad (cons name vp/bad))))
(defn vp/put (i s) (set! vp/h i (cond ((= vp/kind 0) s) ((= vp/kind 1) (fn () s)) (#t (tree/new s i)))))
(defn vp/get (i) (def v (ref vp/h i)) (if v (cond ((= vp/kind 0) v) ((= vp/kind 1) (v)) (#t (:symbol (car (:keys v))))) #nil))
(defn vp/hold (i how) (def s (vp/make i how)) (if (vp/get i) (vp/ok :hold (= s (vp/get i))) (vp/put i s)))
(defn vp/again (i how) (def s (vp/make i how)) (if (vp/get i) (vp/ok :make (= s (vp/get i))) (vp/ok :make-name (= (:string s) (vp/nm i)))))
(defn vp/drop (i) (set! vp/h i #nil))
(defn vp/none () #nil)
(defn vp/collect () (verif/gc-every 1 1) (vp/none) (vp/none) (verif/gc-every 0 0))
(defn vp/churn (k) (dotimes (i k) (:symbol (cat "vpc" (:string (set! vp/uniq (+ vp/uniq 1)))))))
(defn vp/wave (k)
  (def l #nil)
  (def from vp/uniq)
  (dotimes (i k) (set! l (cons (:symbol (cat "vpw" (:string (set! vp/uniq (+ vp/uniq 1))))) l)))
  (def n vp/uniq)
  (while l
    (def name (cat "vpw" (:string n)))
    (vp/ok :wave (= (car l) (:symbol name)))
    (vp/ok :wave-name (= (:string (car l)) name))
    (set! n (- n 1))
    (set! l (cdr l)))
  (vp/ok :wave-count (= n from)))
(defn vp/gen ()
  (def g (gensym))
  (def g2 (gensym "vp"))
  (vp/ok :gensym (not (= g g2)))
  (vp/ok :gensym-name (= g (:symbol (:string g))))
  (dotimes (i (:length vp/h)) (vp/ok :gensym-old (not (= g (vp/get i))))))
(defn vp/final (hows)
  (def t (tree/new))
  (def n (:length vp/h))
  (dotimes (i n) (when (vp/get i) (set! t (vp/get i) i)))
  (dotimes (i n)
    (def s (vp/get i))
    (dotimes (j n) (vp/ok :different (or (= i j) (not s) (not (= s (vp/get j))))))
    (if s
        (do (vp/ok :name (= (:string s) (vp/nm i)))
            (vp/ok :keyword (= (:keyword (vp/nm i)) (:keyword s)))
            (vp/ok :keyword-name (= (:string (:keyword s)) (vp/nm i)))
            (vp/ok :key (= i (ref t s)))
            (doseq (how (ref hows i)) (vp/ok :same (= s (vp/make i how))) (vp/ok :lookup (= i (ref t (vp/make i how))))))
        (do (dotimes (j n) (vp/ok :distinct (not (= (vp/get j) (vp/make i 0)))))
            (vp/ok :fresh (not (ref t (vp/make i 0))))
            (vp/ok :fresh-name (= (:string (vp/make i 0)) (vp/nm i))))))
  (vp/ok :count (= (:length (:keys t)) (count vp/h (fn (x) x)))))
"""
M = (1 << 64) - 1


def slot(b):
    """where a name goes in the index (as far as the code computes it like this; only used to choose names)"""
    m = 0x880355f21e6d1965
    h = 0x5b0a159d9eac0381 ^ (len(b) * m & M)

    def mix(h):
        h ^= h >> 23
        h = h * 0x2127599bf4325c37 & M
        return h ^ (h >> 47)
    for i in range(0, len(b) // 8 * 8, 8):
        h = (h ^ mix(int.from_bytes(b[i:i + 8], "little"))) * m & M
    if len(b) % 8:
        h = (h ^ mix(int.from_bytes(b[len(b) // 8 * 8:], "little"))) * m & M
    h = mix(h)
    return ((h - (h >> 32)) & 0xffffffff) % 16384


HOMES = [0, 0, 0, 2, 2, 1, 3, 4, 4, 4]      # as Home(n) of SymTab.tla, counted from N - 2


def families(rng, n):
    bases = [16381, 16382, 16383, 0] + [rng.randrange(16384) for _ in range(n)]
    want = {(b + d) % 16384: [] for b in bases for d in range(5)}
    for i in range(120000):
        b = b"s%x" % (i * 2654435761 % (1 << 32)) + b"z" * (i % 3)
        s = slot(b)
        if s in want:
            want[s].append(b)
    fam = []
    for b in bases:
        take = {}
        f = []
        for d in HOMES:
            s = (b + d) % 16384
            k = take.get(s, 0)
            take[s] = k + 1
            f.append(want[s][k] if k < len(want[s]) else b"f%d" % len(f))
        if len(set(f)) == len(f):
            fam.append(f)
    p92 = bytes(97 + i % 26 for i in range(92))
    fam += [[p92 + b"a", p92 + b"b", p92, p92[:91], b"a" + p92, p92[::-1] + b"q", p92[:91] + b"zz", p92[1:], b"z" * 93, b"z" * 92],
            [b"a", b"b", b"aa", b"ab", b"ba", b"A", b"aaa", b"aaaa", b"abababab", b"abababa"],
            [b"", b" ", b"  ", b"(", b"()", b"\n", b'"', b";", b":", b"::"],
            [bytes([200]), bytes([200, 201]), "ä".encode(), "λ".encode(), bytes([255]) * 93, bytes([255]) * 92, bytes([1]), bytes([127]), b"#t", b"12"],
            [b"a%d" % i for i in range(10)], [b"quote", b"Quote", b"quot", b"quote ", b"ref", b"code", b"data", b"name", b"nil", b"#nil"]]
    return fam


def plain(b):
    return b[:1].isalpha() and b.isalnum() and b.isascii()


def render(h, held, fam, kind, rng, chk=True):
    hows = [[0, 1, 2, 3, 4] if plain(b) else [0, 1, 3] for b in fam]
    s = "(do (set! vp/bad #nil) (set! vp/kind %d) (set! vp/names [%s]) (set! vp/h (array/fill! (:alloc Array %d) #nil))" % (
        kind, " ".join("#m" + b.hex().upper() if b else "(buffer/allocate 0)" for b in fam), len(fam))
    for op, n in h:
        i = n - 1
        if op in ("hold", "make"):
            s += " (vp/%s %d %d)" % ("hold" if op == "hold" else "again", i, rng.choice(hows[i]))
        elif op == "gc":
            s += " (vp/collect)"
        elif op == "gensym":
            s += " (vp/gen)"
        elif op == "drop":
            s += " (vp/drop %d)" % i
        else:
            s += " (vp/%s %d)" % (op, n)
    s += " (vp/final '(%s))" % " ".join("(%s)" % " ".join(map(str, x)) for x in hows)
    alive = " ".join("(not (not (vp/get %d)))" % i for i in range(len(fam)))
    return s + " (list vp/bad %s))" % alive, ["l", [["n"]] + [["b", 1 if held[i] else 0] for i in range(len(fam))], ["n"]]


def run(c):
    t = c.thorough
    inv = ("Faithful", "Once", "Kept", "Room")
    for n, names in ((4, 5), (5, 6)) if not t else ((4, 5), (5, 6), (6, 7)):
        c.tlc("SymTab", constants={"N": n, "NAMES": names, "HIST": "FALSE", "DEPTH": 0}, invariants=inv, constraints=(), expect_emit=False)
    fam = families(c.rng, 6)
    cases = []
    recs = c.tlc("SymTab", constants={"N": 4, "NAMES": 3, "HIST": "TRUE", "DEPTH": 7 if t else 6}, nxt="HNext", invariants=inv, sample=30000 if t else 4000)
    for k, r in enumerate(recs):
        f = fam[k % len(fam)]
        o = c.rng.choice([0, 0, 3]) if k % len(fam) < len(fam) - 6 else c.rng.randrange(0, 8)
        sub = f[o:o + 3]
        cases.append(render(r["h"], r["held"], sub, k % 3, c.rng))
    c.notes["histories_enumerated"] = len(cases)
    sim = c.tlc("SymTab", constants={"N": 8, "NAMES": 10, "HIST": "TRUE", "DEPTH": 40}, nxt="SimNext", invariants=inv, constraints=("SimEmit",), simulate=1500 if t else 110, depth=42)
    for k, r in enumerate(sim):
        cases.append(render(r["h"], r["held"], fam[k % len(fam)], k % 3, c.rng))
    c.notes["histories_simulated"] = len(sim)
    p93 = "".join(chr(97 + i % 26) for i in range(93))
    for x in ("x", "xyz" * 20):
        cases.append(('(let* (def a (:symbol "%s")) (def b (:symbol "%s")) (vp/collect) (list (= a b) (= a (:symbol (:string b))) (= (:string a) (:string b)) (:length (:string b))))' % (p93, p93 + x),
                      ["l", [["b", 1], ["b", 1], ["b", 1], ["i", 93]], ["n"]]))
    for (s, e), g in zip(cases, c.run_cases([x[0] for x in cases], prelude=PRELUDE)):
        c.compare(s, s, e, g)
