"""C19: files, streams and ports (Files.tla), replayed in a scratch directory."""
from vp.common import *

PRELUDE = r'''
(defn vp/byte (s i) (cond ((= s 0) 0) ((= s 9) 10) (#t (bit-and (+ (* i 7) (* s 31) (* 3 (div/int i 256))) 255))))
(def vp/masters (map (array/new 0 1 2 3) (fn (s) (def b (buffer/allocate 24000)) (dotimes (i 24000) (set! b i (vp/byte s i))) b)))
(def vp/nl (let ((b (buffer/allocate 24000))) (dotimes (i 24000) (set! b i 10)) b))
(defn vp/buf (s f n) (:cut (if (= s 9) vp/nl (ref vp/masters s)) f (+ f n)))
(defn vp/str (s f n) (buffer->string (vp/buf s f n)))
(defn vp/over (b i) (cond ((not= 0 (rem (:length b) 8)) (if (= 0 (rem (:length b) 2)) (case (rem i 3) (0 (:u16 b)) (1 (:s16 b)) (otherwise (:u8 b))) (:s8 b)))
  (#t (case (rem i 6) (0 (:u16 b)) (1 (:s64 b)) (2 (:f64 b)) (3 (:f32 b)) (4 (:s32 b)) (otherwise (:u32 b))))))
(defn vp/view (s f n) (vp/over (vp/buf s f n) (+ s f)))
(defmacro vp/op (x) (list 'tr (list 'try '(fn (e) :err) x)))
(defn vp/rd (h n bs off) (def b (buffer/allocate bs)) (def r (file/read* h b n off)) (list r (:cut b off (+ off r))))
(defn vp/rdv (h n bs off) (def b (buffer/allocate bs)) (def r (file/read* h (vp/over b (+ n off)) n off)) (list r (:cut b off (+ off r))))
(defn vp/rdp (p n bs) (def b (buffer/allocate bs)) (def r (:block-read p b n)) (if (int? r) (list r (:cut b 0 r)) r))
(defn vp/line (p) (def b (buffer/allocate 128)) (def n (read-line/raw p b)) (and n (buffer->string b n)))
(defn vp/rfix (h k) (def b (vp/buf 1 0 6)) (def c (cond ((< k 4) b) (#t (:clone b #t))))
  (def t (case k (1 (set! c (:clone b #t)) c) (2 (set! c (vp/str 1 0 6)) c) (3 (:u16 b #t)) (4 (:u8 c #t)) (otherwise c)))
  (list (try (fn (e) :err) (file/read* h t 3) :done) (if (string? c) (buffer/copy (buffer/allocate 6) c 0) c)))
(defn vp/clean () (doseq (f '("a" "b" "d/a")) (rm f)) (rmdir "d") #nil)
(defn vp/in? (l x) (def r #f) (doseq (y l) (when (= x y) (set! r #t))) r)
(defn vp/ls () (def l (ls "."))
  (list (vp/in? l "a") (vp/in? l "b") (vp/in? l "d") (vp/in? l "c") (vp/b (file/dir? "d")) (vp/b (file/file? "a")) (vp/b (and (file/dir? "d") (vp/in? (ls "d") "a")))))
(defn vp/b (x) (if x #t #f))
'''


def byte(s, i):
    return 0 if s == 0 else 10 if s == 9 else (i * 7 + s * 31 + i // 256 * 3) % 256


def expand(rope):
    return [byte(s, f + i) for s, f, n in rope for i in range(n)]


def piece(s, f, n, kind):
    return "(vp/%s %d %d %d)" % ({"s": "str", "b": "buf", "v": "view"}[kind], s, f, n)


def render(log):
    """the history as a program, and what it has to note"""
    out, exp = [], []
    K = lambda s: ["k", s]
    raw = {}

    def note(r, ok=None, kind="s"):
        t = r[0]
        exp.append(ok if t == "ok" else K("err") if t == "err" else ["n"] if t == "n" else ["i", r[1]] if t == "i" else ["b", int(r[1])] if t == "b" else
                   ["b", 0] if t == "no" else K("end-of-file") if t == "eof" else K("file-handle") if t == "h" else
                   [kind, bts(expand(r[1])) if kind == "s" else expand(r[1])] if t == "c" else ["l", [["i", r[1]], ["u", expand(r[2])]], ["n"]] if t == "rd" else
                   ["l", [K("err"), ["u", expand(r[1])]], ["n"]] if t == "rf" else
                   ["l", [["i", r[1]]], ["s", bts(expand(r[2]))]] if t == "po" else
                   ["l", [["b", int(z)] for z in ("a" in r[1], "b" in r[1], "d" in r[1], False, "d" in r[1])] + [["b", int("a" in r[1])], ["b", int(r[2])]], ["n"]] if t == "ls" else None)
    for e in log:
        o, i, x, r = e["o"], e["i"], e["x"], e["r"]
        port = i in raw and raw[i] == "port"
        hd = "h%d" % i
        ok = "(do %s :ok)"
        if o in ("open-in", "open-out"):
            p, a = x[0], x[-1]
            m = "" if o == "open-in" or x[1] == "none" else " :" + x[1]
            src = "(file/open-%s* \"%s\"%s)" % ("input" if o == "open-in" else "output", p, m)
            if r[0] == "h":
                raw[i] = a
                out.append("(def %s %s)" % (hd, src))
                out.append("(tr (:type-name %s))" % hd)
                if a == "port":
                    out.append("(def p%d (:new %s %s))" % (i, "InputPort" if o == "open-in" else "OutputPort", hd))
            else:
                out.append("(vp/op %s)" % src)
            note(r)
            continue
        if o == "write":
            s, f, n, kind, sz, off = x
            d = piece(s, f, n, kind)
            if port and off == 0 and sz < 0:
                src = ok % ("(:%s p%d %s)" % (("block-write", "write")[n % 2], i, d))
            elif port and off == 0:
                src = ok % ("(:block-write p%d %s %d)" % (i, d, sz))
            else:
                src = ok % ("(file/write* %s %s %s%s)" % (hd, d, sz if sz >= 0 or off else "#nil", " %d" % off if off else ""))
        elif o == "char-write":
            src = ok % ("(:char-write p%d %d)" % (i, byte(*x[0])))
        elif o == "read":
            n, bs, off = x
            if port and off == 0:
                src = "(vp/rdp p%d %d %d)" % (i, n, bs)
            else:
                src = "(vp/%s %s %d %d %d)" % ("rdv" if (n + len(out)) % 2 else "rd", hd, n, bs, off)
                if r[0] == "eof":
                    r = ["rd", 0, []]
        elif o == "read-fixed":
            src = "(vp/rfix %s %d)" % (hd, x[0])
        elif o == "char-read":
            src = "(:char-read p%d)" % i
        elif o == "read-line":
            src = "(vp/line p%d)" % i
        elif o == "write-in":
            src = "(file/write* %s \"abc\")" % hd
        elif o == "read-out":
            src = "(file/read* %s (buffer/allocate 3) 3)" % hd
        elif o == "seek":
            n, w = x
            src = ok % ("(:position! p%d %d)" % (i, n) if port else "(file/seek* %s %d %d)" % (hd, n, w))
        elif o == "tell":
            src = "(:position p%d)" % i if port else "(file/tell* %s)" % hd
        elif o == "eof":
            src = "(file/eof*? %s)" % hd
        elif o == "flush":
            src = ok % ("(:flush-output p%d)" % i if port else "(file/flush* %s)" % hd)
        elif o == "close":
            src = ok % ("(:close! p%d)" % i if port else "(file/close* %s)" % hd)
        elif o == "spit":
            p, s, f, n, kind = x
            src = "(spit \"%s\" %s)" % (p, piece(s, f, n, kind))
        elif o == "spit-bad":
            src = "(spit \"%s\" 42)" % x[0]
        elif o == "slurp":
            src = "(slurp/buffer \"%s\")" % x[0] if len(out) % 2 else "(slurp \"%s\")" % x[0]
        elif o == "size":
            src = "(ref (file/stat \"%s\") :size)" % x[0]
        elif o == "rm":
            src = ok % ("(rm \"%s\")" % x[0])
        elif o == "copy":
            src = "(file/copy \"%s\" \"%s\")" % tuple(x)
        elif o == "popen":
            src = '(popen "cat %s; exit %d")' % tuple(x)
        elif o == "ls":
            src = "(vp/ls)"
        elif o in ("mkdir", "rmdir"):
            src = '(%s "d")' % o
        elif o == "new-str":
            out.append("(def s%d (:new StringOutputPort))" % i)
            continue
        elif o == "str-write":
            s, f, n, kind, sz = x
            d = piece(s, f, n, kind)
            src = ok % ("(:%s s%d %s%s)" % ("block-write" if sz >= 0 or n % 2 else "write", i, d, " %d" % sz if sz >= 0 else ""))
        elif o == "str-char":
            src = ok % ("(:char-write s%d %d)" % (i, byte(*x[0])))
        elif o == "str-pos":
            src = "(:position s%d)" % i
        elif o == "str-seek":
            src = ok % ("(:position! s%d %d)" % (i, x[0]))
        elif o == "str-get":
            src = "(:return-string s%d)" % i
        else:
            raise MachineryError("no source for %r" % o)
        out.append("(vp/op %s)" % src)
        note(r, K("ok"), "u" if src.startswith("(slurp/buffer") else "s")
    for i in raw:
        out.append("(try (fn () #nil) (file/close* h%d))" % i)
    return "(do (vp/clean) %s (vp/clean) :done)" % " ".join(out), exp


def replay(c, recs):
    cs = [render(r["log"]) for r in recs]
    res = c.run_cases([s for s, _ in cs], prelude=PRELUDE)
    for (s, exp), g in zip(cs, res):
        c.compare(s, s, ["k", "done"], g, exp_trace=exp)


def run(c):
    inv = ("Sane",)
    recs = c.tlc("Files", constants={"PATHS": '{"a", "d/a"}', "SIZES": "{0, 1, 17}", "LEN": 4 if c.thorough else 3, "HANDLES": 2}, invariants=inv, properties=("AppendOnly",))
    c.notes["histories_enumerated"] = c.emitted
    replay(c, c.cap(recs, 4000, 60000))
    recs = c.tlc("Files", constants={"PATHS": '{"a", "b", "d/a"}', "SIZES": "{0, 1, 2, 15, 16, 17, 127, 128, 129, 200, 4095, 4096, 4097, 9000}", "LEN": 24, "HANDLES": 4},
                 nxt="SimNext", invariants=inv, simulate=1000 if c.thorough else 60, depth=30)
    c.notes["histories_simulated"] = c.emitted
    replay(c, recs)
