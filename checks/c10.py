"""C10: saving and loading object graphs as in Image.tla, big values as in ImgBig.tla, functions of Lang.tla loaded from images."""
from vp.common import *
from vp import langsrc

LONG = ("vp-quite-a-long-symbol-name-" * 7)[:93]
# number k of the model, source text, expected (the first WORDS ones can be part of a literal)
ATOMS = [("#nil", ["n"])]
WORDS = 30


def _i(n):
    return (str(n) if abs(n) < 10**18 else "#x%016X" % (n & (2**64 - 1)), ["i", n])


for _n in [0, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32 + 5, 2**63 - 1, -2**63, 0x123456789ABCDEF]:
    ATOMS.append(_i(_n))
ATOMS += [("#t", ["b", 1]), ("#f", ["b", 0]), (":kw", ["k", "kw"]), ("1.5", ["f", 1.5]), ("0.1", ["f", 0.1]), ("-1000000.25", ["f", -1000000.25]), (":a-longer-keyword", ["k", "a-longer-keyword"])]
assert len(ATOMS) == WORDS
ATOMS += [("'sy", ["y", "sy"]), ('(:keyword "%s")' % LONG, ["k", LONG]), ('(:symbol "%s")' % LONG[:92], ["y", LONG[:92]]),
          ('(:keyword "")', ["k", ""]), ('(:symbol "")', ["y", ""]),
          ("(/ 1.0 3.0)", ["f", 1.0 / 3.0]), 
          ("+", ["l", [["k", "native"], ["y", "+"]], ["n"]]), ("image/serialize", ["l", [["k", "native"], ["y", "image/serialize"]], ["n"]]),
          ("read", ["l", [["k", "native"], ["y", "read"]], ["n"]]),
          ("Int", ["l", [["k", "type"], ["k", "int"]], ["n"]])]
KEYS = ["a", "bb", "a-longer-key", "z"]
VIEWTYPES = {"u8": "B", "s8": "b", "u16": "H", "s16": "h", "u32": "I", "s32": "i", "s64": "q", "f32": "f", "f64": "d"}

PRELUDE = r"""
(def vg/seen #nil)
(def vg/n 0)
(def vg/out #nil)
(defn vg/emit (x) (set! vg/out (cons x vg/out)))
(defn vg/kind (v)
  (def t (:type-name v))
  (cond ((= t :pair) :pair) ((= t :array) :arr) ((= t :tree) :tree) ((= t :buffer) :buf) ((= t :string) :str) ((= t :buffer-view) :view)
        ((= t :bytecode-array) :code) ((= t :lambda) :fn) ((= t :macro) :mac) ((= t :environment) :env) (#t #f)))
(defn vg/img? (v) (and (> (:length v) 3) (:immutable? v) (= (ref v 0) 78) (= (ref v 1) 117) (= (ref v 2) 106) (= (ref v 3) 73)))
(defn vg/find (k v)
  (def l vg/seen)
  (def r #f)
  (def id (val->id v))
  (while (and l (not r))
    (def e (car l))
    (when (= (ref e 0) k)
      (when (if (= k :pair) (= (ref e 1) v) (= (ref e 2) id)) (set! r (ref e 3))))
    (set! l (cdr l)))
  r)
(defn vg/bytes (b) (def r #nil) (dotimes (i (:length b)) (set! r (cons (ref b i) r))) (nreverse r))
(defn vg/can-set? (t)
  (def k (car (:keys t)))
  (if k (try (fn (e) #f) (set! t (:symbol k) (ref t k)) #t) #t))
(defn vg/walk (v kind)
  (def k (or kind (vg/kind v)))
  (if (not k)
      (vg/emit (cond ((= (:type-name v) :native-function) (list :native (:meta v :name))) ((= (:type-name v) :type) (list :type (:name v))) (#t v)))
      (do
        (when (and (= k :buf) (vg/img? v)) (set! k :img))
        (def old (vg/find k v))
        (if old
            (vg/emit (list :r old))
            (do
              (set! vg/n (+ vg/n 1))
              (def n vg/n)
              (set! vg/seen (cons (array/new k v (val->id v) n) vg/seen))
              (cond ((= k :pair) (vg/emit (list :pair n)) (vg/walk (car v) #f) (vg/walk (cdr v) #f))
                    ((= k :arr) (vg/emit (list :arr n (if (= 0 (:length v)) #t (try (fn (e) #f) (set! v 0 (ref v 0)) #t)) (:length v))) (dotimes (i (:length v)) (vg/walk (ref v i) #f)))
                    ((= k :tree)
                      (vg/emit (list :tree n (vg/can-set? v) (map vg/keys (fn (s) (:has? v s))) (:length v)))
                      (doseq (s vg/keys) (when (:has? v s) (vg/walk (ref v s) #f))))
                    ((= k :buf) (vg/emit (list :buf n (not (:immutable? v)) (vg/bytes v))))
                    ((= k :str) (vg/emit (list :str n #f (vg/bytes v))))
                    ((= k :view) (vg/emit (list :view n (not (:immutable? v)) (vg/bytes v))) (vg/walk (:buffer v) #f))
                    ((= k :fn) (vg/emit (list :fn n)) (vg/walk (:parent v) :env))
                    ((= k :mac) (vg/emit (list :mac n)) (vg/walk (:parent v) :env))
                    ((= k :env) (vg/emit (list :env n)) (vg/walk (ref v 'vg/x) #f))
                    ((= k :code) (vg/emit (list :code n (vg/bytes (:array v)))) (vg/walk (:literals v) #f))
                    ((= k :img) (vg/emit (list :img n)))))))))
(def vg/keys '(a bb a-longer-key z))
(defn vg/dump vs
  (set! vg/seen #nil) (set! vg/n 0) (set! vg/out #nil)
  (doseq (v vs) (vg/walk v #f))
  (set! vg/seen #nil)
  (def r (nreverse vg/out))
  (set! vg/out #nil)
  r)
(defn vg/mk (vg/x)
  (array/new (fn (op) (if op (do (set! vg/x (car op)) vg/x) vg/x))
             (fn (op) (if op (do (set! vg/x (car op)) vg/x) vg/x))
             (do (defmacro vg/mac (a) (list 'list a vg/x)) vg/mac)
             (current-closure)))
(defn vg/fill (b bytes) (def i 0) (while (pair? bytes) (set! b i (car bytes)) (set! i (+ i 1)) (set! bytes (cdr bytes))) b)
(defn vg/len (l) (def n 0) (while (pair? l) (set! n (+ n 1)) (set! l (cdr l))) n)
(defn vg/buf (imm . bytes) (def b (vg/fill (buffer/allocate (vg/len bytes)) bytes)) (if imm (:clone b #t) b))
(defn vg/str bytes (buffer->string (vg/fill (buffer/allocate (vg/len bytes)) bytes)))
(defn vg/save (v) (image/serialize v))
(defn vg/load (i) (image/deserialize i))
"""

BIG = r"""
(defn vb/mix (i) (- (* (rem i 30000) 65537) 1000))
(defn vb/byte (i) (rem (* i 7) 256))
(defn vb/array (n f) (def a (:alloc Array n)) (dotimes (i n) (set! a i (f i))) a)
(defn vb/buffer (n) (def b (buffer/allocate n)) (dotimes (i n) (set! b i (vb/byte i))) b)
(defn vb/name (i) (:symbol (cat "vpk" (:string i))))
(defn vb/add (i) (fn () (+ i 7)))
(defn vb/wrap (inner i) (fn (k) (if (= k 0) i (inner (- k 1)))))
(defn vb/code (n) (def c #nil) (dotimes (i n) (set! c (cons (list (list '= 'x i) (+ i 7)) c))) (eval (list 'fn '(x) (cons 'cond (nreverse c)))))
(defn vb/down (n v f) (dotimes (i n) (set! v (f v (+ i 1)))) v)
(defn vb/same (n f s) (vb/array n (fn (i) s)))
(defn vb/make (f n)
  (case f
    (:list (def l #nil) (dotimes (i n) (set! l (cons (vb/mix (- (- n 1) i)) l))) l)
    (:array (vb/array n vb/mix))
    (:array64 (vb/array n (fn (i) (* (vb/mix i) 4294967296))))
    (:tree (def t (tree/new #nil)) (dotimes (i n) (set! t (vb/name i) (vb/mix i))) t)
    (:keys (def t (tree/new #nil)) (dotimes (i n) (set! t (vb/name i) (cons (vb/mix i) (vb/name i)))) t)
    (:string (buffer->string (vb/buffer n)))
    (:buffer (vb/buffer n))
    (:fixed (:clone (vb/buffer n) #t))
    (:words (def v (:u16 (buffer/allocate (* 2 n)))) (dotimes (i n) (set! v i (rem i 30000))) v)
    (:floats (def v (:f64 (buffer/allocate (* 8 n)))) (dotimes (i n) (set! v i (rem i 30000))) v)
    (:pairs (vb/array n (fn (i) (cons i (- n i)))))
    (:shared (def s (array/new 1 2)) (vb/array n (fn (i) s)))
    (:texts (vb/array n (fn (i) (cat "text" (:string i)))))
    (:symbols (vb/array n vb/name))
    (:oneview (def b (buffer/allocate 8)) (vb/array n (fn (i) (:u8 b))))
    (:closures (vb/array n vb/add))
    (:code (vb/code n))
    (:deeplist (vb/down n #nil (fn (v i) (cons v i))))
    (:deeparray (vb/down n #nil (fn (v i) (array/new i v))))
    (:deeptree (vb/down n #nil (fn (v i) (tree/new 'i i 'in v))))
    (:deepclosure (vb/down n #nil vb/wrap))))
(defn vb/inner (v i next) (dotimes (k i) (set! v (next v))) v)
(defn vb/see (f n v i)
  (case f
    (:list (car (vb/inner v i cdr)))
    (:tree (ref v (vb/name i)))
    (:keys (if (= (cdr (ref v (vb/name i))) (vb/name i)) (car (ref v (vb/name i))) :wrong))
    (:array64 (if (= 0 (bit-and (ref v i) 4294967295)) (div/int (ref v i) 4294967296) :wrong))
    (:pairs (+ (car (ref v i)) (* 3 (cdr (ref v i)))))
    (:shared (if (and (= (val->id (ref v i)) (val->id (ref v 0))) (= 2 (ref (ref v i) 1))) 1 :wrong))
    (:texts (if (and (= (ref v i) (cat "text" (:string i))) (= (:symbol (ref v i)) (:symbol (cat "text" (:string i))))) 1 :wrong))
    (:symbols (if (= (ref v i) (vb/name i)) 1 :wrong))
    (:oneview (if (and (= (val->id (:buffer (ref v i))) (val->id (:buffer (ref v 0)))) (= 8 (:length (ref v i)))) 1 :wrong))
    (:closures ((ref v i)))
    (:code (v i))
    (:deeplist (cdr (vb/inner v i car)))
    (:deeparray (ref (vb/inner v i (fn (x) (ref x 1))) 0))
    (:deeptree (ref (vb/inner v i (fn (x) (ref x 'in))) 'i))
    (:deepclosure (v i))
    (otherwise (int (ref v i)))))
(defn vb/count (f n v)
  (case f
    (:code n)
    (:deeplist (def c 0) (while v (set! c (+ c 1)) (set! v (car v))) c)
    (:deeparray (def c 0) (while v (set! c (+ c 1)) (set! v (ref v 1))) c)
    (:deeptree (def c 0) (while v (set! c (+ c 1)) (set! v (ref v 'in))) c)
    (:deepclosure n)
    (otherwise (:length v))))
(defn vb/digest (f n v)
  (def d 0)
  (def add (fn (i x) (set! d (rem (+ (* d 31) (+ i x)) 1000000007))))
  (case f
    (:list (def i 0) (doseq (x v) (add i x) (set! i (+ i 1))))
    (:deeplist (while v (add 0 (cdr v)) (set! v (car v))))
    (:deeparray (while v (add 0 (ref v 0)) (set! v (ref v 1))))
    (:deeptree (while v (add 0 (ref v 'i)) (set! v (ref v 'in))))
    (:deepclosure #nil)
    (:code #nil)
    (otherwise (dotimes (i n) (add i (vb/see f n v i)))))
  d)
(defn vb/go (f n rounds spots)
  (def v (vb/make f n))
  (def w v)
  (dotimes (i rounds) (set! w (image/deserialize (image/serialize w))))
  (list (:type-name w) (vb/count f n w) (= (vb/digest f n v) (vb/digest f n w)) (map spots (fn (i) (vb/see f n w i)))))
"""
FUN = """
(defn vi/run (f)
  (set! vp/trace #nil)
  (def pack (image/deserialize (image/serialize (list f (fn () vp/trace)))))
  (def exc #f)
  (def r (try (fn (e) (set! exc #t) e) ((car pack))))
  (set! vp/trace ((cadr pack)))
  (if exc (throw r) r))
"""
BIGTYPE = dict(list="pair", array="array", array64="array", tree="tree", keys="tree", string="string", buffer="buffer", fixed="buffer", words="buffer-view", floats="buffer-view",
               pairs="array", shared="array", texts="array", symbols="array", oneview="array", closures="array", code="lambda", deeplist="pair", deeparray="array", deeptree="tree", deepclosure="lambda")


def big(r):
    f, n = r["f"], r["n"]
    src = "(vb/go :%s %d %d %s)" % (f, n, r["r"], "'(%s)" % " ".join(str(s[0]) for s in r["spots"]) if r["spots"] else "#nil")
    t = "nil" if f == "list" and n == 0 else BIGTYPE[f]
    return src, lst([["k", t], ["i", n], ["b", 1], lst([["i", s[1]] for s in r["spots"]])])


def arg(a):
    return "r%d" % a[1] if a[0] == "reg" else ATOMS[a[1] - 1][0]


def form(op):
    k, d = op[0], op[1]
    put = lambda s: "(set! r%d %s)" % (d, s)
    if k == "cons":
        return put("(cons %s %s)" % (arg(op[2]), arg(op[3])))
    if k == "arr":
        return put("(array/new %s)" % " ".join([arg(op[2]), arg(op[3]), arg(op[2])][:op[4]]))
    if k == "tree":
        if op[6]:
            return put("(tree/new #nil)")
        return put("(tree/new '%s %s '%s %s)" % (KEYS[op[4] - 1], arg(op[2]), KEYS[op[5] - 1], arg(op[3])))
    if k == "treei":
        return put("(car (read \"#@(%s: %s)\"))" % (KEYS[op[3] - 1], ATOMS[op[2] - 1][0]))   # read afresh: equal literals in one program may be one object
    if k == "buf":
        return put("(vg/buf %s%s)" % ("#t" if op[3] else "#f", "".join(" %d" % b for b in op[2])))
    if k == "str":
        return put("(vg/str%s)" % "".join(" %d" % b for b in op[2]))
    if k == "view":
        return put("(:%s r%d%s)" % (op[3], op[2], " #t" if op[4] else " #f"))
    if k == "clos":
        i = {"fn": 1, "mac": 2, "env": 3}[op[4]]
        if op[2] == d:
            return put("(ref (vg/mk %s) 0)" % arg(op[3]))
        return "(do (def mk (vg/mk %s)) (set! r%d (ref mk 0)) (set! r%d (ref mk %d)))" % (arg(op[3]), d, op[2], i)
    if k == "grow":
        return "(:length! r%d %d)" % (d, op[2])
    if k == "code":
        return put("(:bytecode-array (array/new%s) r%d)" % ("".join(" %d" % b for b in op[3]), op[2]))
    if k == "setb":
        return "(set! r%d %d %d)" % (d, op[3] - 1, op[4])
    if k == "set":
        v, i = arg(op[4]), op[3]
        return {"arr": "(set! r%d %d %s)" % (d, i - 1, v),
                "tree": "(set! r%d '%s %s)" % (d, KEYS[min(i, 4) - 1], v), "env": "(set! r%d 'vg/x %s)" % (d, v), "fn": "(r%d (list %s))" % (d, v)}[op[2]]
    if k == "get":
        s, i = op[2], op[4]
        return put({"pair": "(%s r%d)" % (["car", "cdr"][i - 1] if i < 3 else "", s), "arr": "(ref r%d %d)" % (s, i - 1), "tree": "(ref r%d '%s)" % (s, KEYS[min(i, 4) - 1]),
                    "env": "(ref r%d 'vg/x)" % s, "fn": "(r%d #nil)" % s, "view": "(:buffer r%d)" % s, "code": "(:literals r%d)" % s}[op[3]])
    if k == "save":
        return put("(vg/save r%d)" % op[2])
    if k == "load":
        return put("(vg/load r%d)" % op[2])
    raise MachineryError(op)


def lst(xs):
    return ["l", xs, ["n"]] if xs else ["n"]


def token(t):
    k = t[0]
    if k == "a":
        return ATOMS[t[1] - 1][1]
    n = ["i", t[1]]
    if k == "tree":
        return lst([["k", k], n, ["b", int(t[2])], lst([["b", int(x)] for x in t[3]]), ["i", sum(t[3])]])
    if k == "arr":
        return lst([["k", k], n, ["b", int(t[2])], ["i", t[3]]])
    if k == "code":
        return lst([["k", k], n, lst([["i", b] for b in t[2]])])
    if k in ("buf", "str"):
        return lst([["k", k], n, ["b", int(t[2])], lst([["i", b] for b in t[3]])])
    if k == "view":
        f = VIEWTYPES[t[3]["t"]]
        w = struct.calcsize(f)
        d = bytes(t[3]["d"])
        vs = [struct.unpack("<" + f, d[i:i + w])[0] for i in range(0, len(d) - w + 1, w)]
        return lst([["k", k], n, ["b", int(t[2])], lst([["any"] if v != v or abs(v) == float("inf") else ["f", v] if f in "fd" else ["i", v] for v in vs])])
    return lst([["k", k], n])


def odd(r):
    return any(t[0] == "view" and any(x == ["any"] for x in (token(t)[1][3][1] if token(t)[1][3] != ["n"] else [])) for t in r["dump"])


def graph(r):
    steps = ["(def s%d (try (fn (e) :err) %s :ok))" % (i, form(s["op"])) for i, s in enumerate(r["log"])]
    src = "(let ((r1 #nil) (r2 #nil) (r3 #nil) (r4 #nil)) %s (list (list %s) (vg/dump r1 r2 r3 r4)))" % (" ".join(steps), " ".join("s%d" % i for i in range(len(steps))))
    return src, lst([lst([["k", "ok" if s["ok"] else "err"] for s in r["log"]]), lst([token(t) for t in r["dump"]])])


def base_images(c, recs, gc=None):
    """The program is a function loaded with --base-image in a process of its own; it sees the graph made in the first process, and its arguments."""
    cs = []
    for i, r in enumerate(recs):
        src, exp = graph(r)
        k = src.index("(list (list ")
        body = src[k + len("(list "):src.rindex("))")]
        ok, dump = body[:body.index("(vg/dump")], body[body.index("(vg/dump"):]
        src = src[:k] + '(spit "b%d.img" (image/serialize (fn vg/args (vp/gc-on) (def vg/r %s) (vp/gc-off) (println (cat "@" (vp/dump (list vg/args vg/r) 0)))))) %s)' % (i, dump, ok)
        cs.append((src, exp, i))
    work = tempfile.mkdtemp(prefix="base-", dir=c.work)
    srcs = [s.replace('(spit "b', '(spit "%s/b' % work) for s, _, _ in cs]
    res = c.run_cases(srcs, prelude=PRELUDE, gc=gc)
    binp = c.build("verif")

    def second(t):
        i, (s, e, _) = t
        args = ["a%d" % i, "--flag", "x y"][:i % 4]
        cmd = args[:i % 2] + ["--base-image", "b%d.img" % i] + args[i % 2:]
        try:
            p = subprocess.run([binp] + cmd, cwd=work, capture_output=True, timeout=60, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return ["hang"]
        l = [x for x in p.stdout.split(b"\n") if x.startswith(b"@")]
        if p.returncode != 0 or not l:
            return ["crash", p.returncode, p.stderr.decode("utf-8", "replace")[-300:]]
        return ["ok", canon(json.loads(l[0][1:].decode("utf-8", "surrogateescape"))), []], [binp] + args
    with ThreadPoolExecutor(NPROC) as ex:
        out = list(ex.map(second, enumerate(cs)))
    for (s, e, i), g, o in zip(cs, res, out):
        if c.compare("base 1: " + s, s, e[1][0], g):
            v, args = o if isinstance(o, tuple) else (o, [])
            c.compare("base 2: " + s, s, lst([lst([["s", a] for a in args]), e[1][1]]), v)
    shutil.rmtree(work)


def run(c):
    laws = ("Faithful", "Closed", "ImageOf")
    recs = c.tlc("Image", constants={"STEPS": 5, "NATOMS": len(ATOMS), "WORDS": WORDS, "MODE": '"every"'}, invariants=laws)
    cs = [graph(r) for r in recs if not odd(r)]
    for (s, e), g in zip(cs, c.run_cases([x[0] for x in cs], prelude=PRELUDE)):
        c.compare(s, s, e, g)
    for steps, num in ((5, 1500), (9, 3000), (16, 1500)) if not c.thorough else ((5, 6000), (9, 16000), (16, 16000), (30, 3000)):
        recs = c.tlc("Image", constants={"STEPS": steps, "NATOMS": len(ATOMS), "WORDS": WORDS, "MODE": '"some"'}, simulate=num // 3, depth=steps + 2, invariants=laws, sample=num)
        recs = [r for r in recs if not odd(r)]
        for kind, gc in (("verif", None), ("verif", 3)) + ((("asan", None),) if c.thorough else ()) if steps == 9 else (("verif", None),):
            cs = [graph(r) for r in (recs if (kind, gc) == ("verif", None) else recs[:200])]
            for (s, e), g in zip(cs, c.run_cases([x[0] for x in cs], kind=kind, prelude=PRELUDE, gc=gc)):
                c.compare(s, s, e, g)
        if steps == 9:
            base_images(c, recs[:2000 if c.thorough else 160])
            base_images(c, recs[200:1000 if c.thorough else 260], gc=5)
    recs = c.tlc("ImgBig", constants={"MAXPARTS": 70000}, invariants=("Law",))
    recs = c.cap(recs, 330)
    cs = [big(r) for r in recs]
    for (s, e), g in zip(cs, c.run_cases([x[0] for x in cs], prelude=BIG)):
        c.compare(s, s, e, g)
    # functions behave as before: the program is a function loaded from an image
    recs = []
    for m in ("plain", "throw"):
        recs += c.tlc("LangEnum", constants={"MODE": '"%s"' % m, "DEPTH": 2}, sample=6000 if c.thorough else 350)
    cs = ["(vi/run (fn () %s))" % langsrc.src(r["p"]) for r in recs]
    for r, s, g in zip(recs, cs, c.run_cases(cs, prelude=FUN)):
        v, t = langsrc.expected(r["r"])
        c.compare(s, s, v, g, exp_trace=t)
