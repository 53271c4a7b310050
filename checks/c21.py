"""C21: runs of the interpreter as a process (Process.tla), each in a scratch directory of its own."""
import ctypes, resource, signal, socket, threading
from vp.common import *

PROGRAM = r'''
(def vp/notes (file/open-output* "notes" :replace))
(def vp/many-names (fn (k) (:symbol (cat "VP_MANY_" (:string k)))))
(defn vp/name bytes (def b (buffer/allocate (:length bytes))) (def i 0) (doseq (c bytes) (set! b i c) (set! i (+ i 1))) (:symbol (buffer->string b)))
(defn vp/text bytes (def b (buffer/allocate (:length bytes))) (def i 0) (doseq (c bytes) (set! b i c) (set! i (+ i 1))) b)
(defn vp/bytes (s) (def p (:new StringOutputPort)) (def n (:length s)) (dotimes (i n) (:block-write p " ") (:block-write p (:string (ref s i)))) (:return-string p))
(defn vp/enc (v) (case (:type-name v)
  ((:string :buffer) (cat "s" (vp/bytes v)))
  (:int (cat "i " (:string v)))
  (:nil "n")
  (:bool (if v "b 1" "b 0"))
  ((:symbol :keyword) (cat "k " (:string v)))
  (:pair (cat "( " (vp/enc (car v)) " . " (vp/enc (cdr v)) " )"))
  (otherwise (cat "? " (string/write v)))))
(defn vp/note (v) (file/write* vp/notes (cat (vp/enc v) "\n")) (file/flush* vp/notes))
(defn vp/stat (x) (def t (file/stat x)) (if (ref t :error?) (list (ref t :error-number)) (list 0 (ref t :character-device?) (ref t :named-pipe?) (ref t :regular-file?) (ref t :directory?) (ref t :block-device?) (ref t :size))))
'''
KINDS = ["character-device?", "named-pipe?", "regular-file?", "directory?", "block-device?"]
E = "e" * 220     # the name of the inner directory
libc = ctypes.CDLL(None, use_errno=True)


def carr(xs):
    return (ctypes.c_char_p * (len(xs) + 1))(*(list(xs) + [None]))


class Peers:
    """what there is to connect to on the loopback interface"""

    def __init__(self, sent):
        self.socks = {}
        for k in ("echo", "source", "nobody"):
            q = socket.socket()
            q.bind(("127.0.0.1", 0))
            if k != "nobody":
                q.listen(64)
                threading.Thread(target=self.serve, args=(q, k, sent), daemon=True).start()
            self.socks[k] = q

    def serve(self, q, k, sent):
        while True:
            try:
                c, _ = q.accept()
            except OSError:
                return
            threading.Thread(target=self.talk, args=(c, k, sent), daemon=True).start()

    def talk(self, c, k, sent):
        try:
            c.settimeout(60)
            if k == "source":
                c.sendall(sent)
            else:
                while True:
                    b = c.recv(4096)
                    if not b:
                        break
                    c.sendall(b)
        except OSError:
            pass
        c.close()

    def port(self, k):
        return self.socks[k].getsockname()[1]


class World:
    """one run: command, environment, program and what it has to show"""

    def __init__(self, pools, r, binary, image):
        self.P = pools
        self.w, self.s = r["w"], r["s"]
        self.bin, self.image = binary, image
        self.code = max(0, self.s["code"])    # the end of the program
        self.base = 2    # the entries every run has
        self.inp = bytes(pools["inp"][self.w["inp"] - 1])

    def text(self, rope):
        o = b""
        for p in rope:
            o += bytes(p[1]) if p[0] == "l" else self.inp[p[1]:p[1] + p[2]] if p[0] == "in" else bytes(self.P[p[0]][p[1] - 1])
        return o

    def env(self):
        e = [b"LANG=C.UTF-8", b"PATH=/usr/bin:/bin"]
        for n, v in self.w["env"]:
            e.append(b"VPNOPAIR" if n == 0 else bytes(self.P["name"][n - 1]) + b"=" + bytes(self.P["val"][v - 1]))
        return e + [b"VP_MANY_%d=%d" % (k, k) for k in range(1, self.w["many"] + 1)]

    def argv(self):
        out = [self.bin.encode()]
        for t in self.w["argv"]:
            k, n, o = t["t"], t["n"], t["o"]
            if k == "x":
                out.append(b"-x")
            elif k == "expr":
                out.append(("(print %d)" % n if o == "ok" else "(do (print %d) (throw (list :failed)))" % n if o == "fail" else "(do (print %d) (exit %d))" % (n, n)).encode())
            elif k == "long":
                out.append(b"--" + o.encode())
            elif k == "short":
                out.append(b"-" + o.encode() + b"q")
            elif k == "image":
                out.append(b"--base-image")
            elif k == "file":
                out.append(self.image.encode())
            elif k == "script":
                out.append({"": "prog.nuj", "deep": "d/" + E + "/prog.nuj"}.get(o, o + ".nuj").encode())
            else:
                out.append(bytes(self.P["arg"][n - 1]))
        return out

    def name(self, n):
        return "(vp/name%s)" % "".join(" %d" % b for b in self.P["name"][n - 1])

    def prog(self):
        out, exp = [], []
        sh = lambda b: "".join("\\\\%03o" % c for c in b)

        def enc(r):
            t = r[0]
            if t == "n":
                return "n"
            if t == "now":
                return "now"
            if t == "s":
                return "s" + "".join(" %d" % b for b in self.text(r[1]))
            if t in "ik":
                return "%s %s" % (t, r[1])
            if t == "b":
                return "b %d" % r[1]
            if t == "l":
                return cons([enc(x) for x in r[1]], "n")
            if t == "po":
                return cons(["i %d" % r[1]], "s" + "".join(" %d" % b for b in self.text(r[2])))
            if t == "d":
                return "s" + "".join(" %d" % b for b in os.fsencode("/".join([self.dir] + [E if x == "e" else x for x in r[1]])))
            if t == "st":
                return cons(["i %d" % r[1]] if r[1] else ["i 0"] + ["b %d" % (k == r[2]) for k in KINDS] + ["i %d" % r[3] if r[3] >= 0 else "*"], "n")
            raise MachineryError(r)

        def cons(items, tail):
            for i in reversed(items):
                tail = "( %s . %s )" % (i, tail)
            return tail
        for e in self.s["log"]:
            o, x, r = e["o"], e["x"], e["r"]
            note = True
            if o == "args":
                f = "vp/args"
            elif o == "opt":
                f = "(:has? init/options :%s)" % x[0]
            elif o == "time":
                f = '(let ((t (time/milliseconds))) (popen "sleep 0.05") (- (time/milliseconds) t))'
            elif o == "env":
                f = "(ref System/Environment %s)" % self.name(x[0])
            elif o == "envhas":
                f = "(:has? System/Environment %s)" % self.name(x[0])
            elif o == "envcount":
                f = "(- (:length (:keys System/Environment)) %d)" % self.base
            elif o == "envmany":
                f, note = "(vp/note (let ((v (ref System/Environment (vp/many-names %d)))) (and v (car (read v)))))" % x[0], False
                if r[0] == "n":
                    f = "(vp/note (ref System/Environment (vp/many-names %d)))" % x[0]
                exp.append(enc(r))
            elif o == "line":
                f = "(read-line)"
            elif o == "readline":
                f = '(readline "")'
            elif o == "char":
                f = "(:char-read stdin)"
            elif o == "block":
                f = "(let ((b (buffer/allocate %d))) (def n (:block-read stdin b %d)) (if (int? n) (:cut b 0 n) n))" % (x[0] + 1, x[0])
            elif o == "put":
                k, fd, b = x
                b = self.text(b)
                port = ["stdout", "stderr"][fd - 1]
                if k in ("raw", "block") and len(b) < 200:
                    arg = "(vp/text%s)" % "".join(" %d" % q for q in b)
                else:
                    arg = '"%s"' % b.decode().replace("\\", "\\\\").replace('"', '\\"')
                if k == "raw":
                    f = "(file/write* %s* %s)" % (port, arg)
                elif k == "block":
                    f = "(:block-write %s %s)" % (port, arg)
                elif k == "newline":
                    f = "(newline %s)" % port
                elif k == "error":
                    f = "(error %s)" % arg if fd == 2 else "(display %s stdout)" % arg
                elif k == "errorln":
                    f = "(errorln %s)" % arg
                elif k == "println" and fd == 2:
                    f = "(do (print %s stderr) (newline stderr))" % arg
                elif k == "println":
                    f = "(println %s)" % arg
                else:
                    f = "(%s %s%s)" % (k, arg, "" if fd == 1 else " " + port)
                note = False
            elif o in ("child", "childerr"):
                f = '(popen "printf \'%s\'%s; exit %d")' % (sh(self.text(x[0])), " >&2" if o == "childerr" else "", x[1])
            elif o == "childenv":
                f = '(popen "printf %%s \\"$%s\\"")' % bytes(self.P["name"][x[0] - 1]).decode()
            elif o == "childself":
                f = '(popen "%s -x \'(println (cat \\"%s\\"))\' -x \'(exit %d)\'")' % (self.bin, self.text(x[1]).decode(), x[0])
            elif o == "cd":
                f = '(cd "%s")' % (E if x[0] == "e" else x[0])
            elif o == "cwd":
                f = "(cwd)"
            elif o == "childcwd":
                f = '(trim (cdr (popen "pwd -P")))'
            elif o == "stat":
                f = '(vp/stat "%s")' % ("/dev/null" if x[0] == "null" else E if x[0] == "e" else x[0])
            elif o == "connect":
                f = '(do (def vp/c%d (socket/connect "127.0.0.1" %d)) (vp/note (if vp/c%d #t #f)))' % (x[1], self.peers.port(x[0]), x[1])
                exp.append(enc(r))
                note = False
            elif o == "badconnect":
                f = "(try car (socket/connect %s))" % (":host 80" if x[0] == "host" else '"127.0.0.1" ' + x[0])
            elif o == "repeat":
                g = {"nobody": '(socket/connect "127.0.0.1" %d)' % self.peers.port("nobody"), "ls": '(ls "./d")', "popen": '(popen ":")', "slurp": '(slurp "g")', "spit": '(spit "many" "x")',
                     "close": '(let ((h (socket/connect "127.0.0.1" %d))) (file/close* h) h)' % self.peers.port("echo")}[x[0]]
                f = "(do (dotimes (i 100) %s) (if %s #t #f))" % (g, g)
            elif o == "sockwrite":
                b = self.text(x[1])
                f = "(do (file/write* vp/c%d (vp/text%s))%s)" % (x[0], "".join(" %d" % q for q in b), " (file/flush* vp/c%d)" % x[0] if x[2] else "")
                note = False
            elif o == "sockread":
                f = "(let ((b (buffer/allocate %d))) (:cut b 0 (file/read* vp/c%d b %d)))" % (x[1] + 1, x[0], x[1])
            elif o == "sockclose":
                f, note = "(file/close* vp/c%d)" % x[0], False
            elif o == "readclosed":
                f = "(try car (file/read* vp/c%d (buffer/allocate 4) 1))" % x[0]
            elif o == "exit":
                f, note = "(exit %s)" % ("" if x[0] == 5000 and len(self.s["log"]) % 2 else ":k" if x[0] == 5000 else x[0]), False
            elif o in ("throw", "caught"):
                f = ["(throw :boom)", "(throw (list :boom 1 2))", "(+ 1 :a)", "(list vp/not-bound)"][x[0] - 1]
                note = o == "caught"
                if note:
                    f = "(try (fn (e) :caught) %s)" % f
            else:
                raise MachineryError(o)
            if note:
                f = "(vp/note %s)" % f
                exp.append(enc(r))
            out.append("  " + f)
        return PROGRAM + "(defn main (vp/args) :export\n%s\n  #nil)\n" % "\n".join(out), exp

    def expected_out(self):
        """patterns for the bytes on each stream; anything may be printed about an uncaught exception"""
        def pat(fds):
            o = b""
            for fd, b in self.s["out"]:
                o += b".*" if fd == 0 else re.escape(self.text(b)) if fd in fds else b""
            return o
        if self.s["p"]["code"] in (124, 125):
            return (b"", b".*", b".*")
        return pat((1,)), pat((2,)), pat((1, 2))


def run_one(wd, d):
    os.makedirs(d + "/d/" + E)
    os.mkfifo(d + "/f")
    with open(d + "/g", "w") as f:
        f.write("five\n")
    wd.dir = os.path.realpath(d)
    prog, exp = wd.prog()
    with open(d + "/prog.nuj", "w") as f:
        f.write(prog)
    for name, text in (("d/" + E + "/prog", prog), ("empty", ""), ("broken", "(print 7) (list 1"), ("fails", "(throw :boom)")):
        with open(d + "/" + name + ".nuj", "w") as f:
            f.write(text)
    argv, envp = wd.argv(), wd.env()
    with open(d + "/in", "wb") as f:
        f.write(wd.inp)
    ca, ce, path = carr(argv), carr(envp), argv[0]
    fin = subprocess.PIPE if wd.w["one"] else open(d + "/in", "rb")
    t0 = time.time()

    def start():
        resource.setrlimit(resource.RLIMIT_NOFILE, (64, 64))
        libc.execve(path, ca, ce)
    p = subprocess.Popen(["/bin/false"], stdin=fin, stdout=subprocess.PIPE, stderr=subprocess.STDOUT if wd.w["one"] else subprocess.PIPE,
                         cwd=d, start_new_session=True, preexec_fn=start)
    try:
        o, e = p.communicate(wd.inp if wd.w["one"] else None, timeout=30)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return "no end", prog, exp, None
    try:
        with open(d + "/notes") as f:
            notes = f.read().split("\n")[:-1]
    except OSError:
        notes = []
    t1 = time.time()

    def same(x, n):
        if x == "now":
            return re.fullmatch(r"i \d+", n) and 49 <= int(n[2:]) <= (t1 - t0) * 1000 + 1
        return re.fullmatch(re.escape(x).replace(r"\*", ".*"), n)
    po, pe, pb = wd.expected_out()
    bad = None
    if p.returncode != wd.code:
        bad = "exit code %d instead of %d" % (p.returncode, wd.code)
    elif wd.w["one"] and not re.fullmatch(pb, o, re.S):
        bad = "output %r instead of %r" % (o[:300], pb[:300])
    elif not wd.w["one"] and not (re.fullmatch(po, o, re.S) and re.fullmatch(pe, e, re.S)):
        bad = "output %r and %r instead of %r and %r" % (o[:200], e[:200], po[:200], pe[:200])
    elif len(notes) != len(exp) or not all(same(x, n) for x, n in zip(exp, notes)):
        i = next((i for i, (x, n) in enumerate(zip(exp, notes)) if not same(x, n)), min(len(exp), len(notes)))
        bad = "note %d: %s instead of %s" % (i, (notes + ["none"])[i][:200] if i <= len(notes) else "none", (exp + ["none"])[i][:200])
    return bad, prog, exp, notes


def replay(c, recs, pools):
    b = c.build("verif")
    image = os.path.join(os.path.dirname(b), "tmp", "init.nuji")
    if not os.path.exists(image):
        raise MachineryError("no image")
    top = tempfile.mkdtemp(prefix="c21-", dir=c.work)
    t0 = time.time()

    hung = [0]
    peers = Peers(bytes(pools["inp"][6]))

    def go(i):
        if hung[0] > 8:    # enough is known
            return None, (None,) * 4
        d = os.path.join(top, str(i))
        try:
            wd = World(pools, recs[i], b, image)
            wd.peers = peers
            r = run_one(wd, d)
            hung[0] += r[0] == "no end"
            return wd, r
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(NPROC) as ex:
        for i, (wd, (bad, prog, exp, notes)) in enumerate(ex.map(go, range(len(recs)))):
            if wd is None:
                continue
            c.evaluations += 1
            key = json.dumps([recs[i]["w"], [[e["o"], e["x"]] for e in recs[i]["s"]["log"]]], sort_keys=True)
            c.distinct.add(zlib.crc32(key.encode()))
            if len(c.samples) < 3 and i % 97 == 0:
                c.samples.append(dict(case=short(prog[len(PROGRAM):]), expected=short(str(exp))))
            if bad and any(t["o"] == "deep" for t in recs[i]["w"]["argv"]):
                key = "deep script: " + bad
            if bad:
                case = "argv %r\nenv %r\ninput %r\n%s" % ([a[:80] for a in wd.argv()[1:]], [a[:80] for a in wd.env()], wd.inp[:80], prog[len(PROGRAM):])
                c.violate(key, case, dict(code=wd.code, notes=exp), bad)
    c.dbg("ran %d processes: %.1fs" % (len(recs), time.time() - t0))


def run(c):
    inv, props = ("Sane",), ("Ended", "Appends")
    pools = None

    def go(recs, q, t):
        nonlocal pools
        for r in recs:
            if "pools" in r:
                pools = r["pools"]
        replay(c, c.cap([r for r in recs if "w" in r], q, t), pools)
    go(c.tlc("Process", constants={"LEN": 1}, invariants=inv, properties=props), 1200, 10**9)
    c.notes["single_steps"] = c.emitted
    go(c.tlc("Process", constants={"LEN": 2}, init="CmdInit", nxt="CmdNext", invariants=inv, properties=props), 700, 10**9)
    c.notes["command_lines"] = c.emitted
    go(c.tlc("Process", constants={"LEN": 1}, init="OddInit", nxt="CmdNext", invariants=inv, properties=props), 200, 10**9)
    go(c.tlc("Process", constants={"LEN": 1}, init="DeepInit", nxt="DeepNext", invariants=inv, properties=props), 200, 10**9)
    go(c.tlc("Process", constants={"LEN": 4 if c.thorough else 3}, init="DirInit", nxt="DirNext", invariants=inv, properties=props), 600, 10**9)
    c.notes["directory_histories"] = c.emitted
    go(c.tlc("Process", constants={"LEN": 4 if c.thorough else 3}, init="InInit", nxt="InNext", invariants=inv, properties=props), 900, 10**9)
    c.notes["input_histories"] = c.emitted
    go(c.tlc("Process", constants={"LEN": 5}, init="DirInit", nxt="SockNext", invariants=inv, properties=props), 500, 6000)
    c.notes["connection_histories"] = c.emitted
    go(c.tlc("Process", constants={"LEN": 1}, init="DirInit", nxt="SockNext", invariants=inv, properties=props), 500, 6000)
    go(c.tlc("Process", constants={"LEN": 14}, init="SimInit", nxt="SimNext", invariants=inv, simulate=3000 if c.thorough else 100, depth=16, sample=None), 800, 20000)
    c.notes["histories_simulated"] = c.emitted
