"""Shared machinery of the checks: build the tree under test, run TLC, replay
cases into the real interpreter, compare, and write evidence."""
import glob, json, os, re, resource, shutil, struct, zlib, subprocess, sys, tempfile, time, fractions, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))
WARN = "-Wall -Wextra -Wshadow -Wcast-align -Wno-missing-braces"


class MachineryError(Exception):
    pass


class Check:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
            self.tier = sys.argv[2]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(self.seed * 7919 + 13)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known_hit = []
        self.notes = {}
        self.assumptions = []
        self.known = load_known(pid)
        self.budget = float(os.environ.get("VP_BUDGET", "0")) or (600 if self.thorough else 240)
        self._bins = {}

    # ------------------------------------------------------------- building
    def copy_repo(self, name="repo"):
        dst = os.path.join(self.work, name)
        ign = shutil.ignore_patterns(".git", "*.o", "*.no", "tmp", "_build", "nujel", "future-nujel", "*.a", "*.d")
        shutil.copytree(REPO, dst, ignore=ign, symlinks=True)
        return dst

    def build(self, kind="verif"):
        """kind: verif (hooks on), plain (hooks off), asan (hooks on, AddressSanitizer)."""
        if kind in self._bins:
            return self._bins[kind]
        if kind == "asan":
            base = os.path.dirname(self.build("verif"))
            out = os.path.join(base, "asan-nujel")
            srcs = glob.glob(base + "/lib/*.c") + glob.glob(base + "/bin/*.c") + [base + "/tmp/image.c"]
            odir = os.path.join(base, "asan-o")
            os.makedirs(odir)
            flags = "-g -O1 -D_GNU_SOURCE -DNUJEL_VERIF -fsanitize=address -fno-omit-frame-pointer -std=c99 -w".split()

            def cc(s):
                o = os.path.join(odir, os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s) + ".o")
                return o, subprocess.run(["gcc", "-c", "-o", o, s] + flags, cwd=base, capture_output=True, text=True)
            with ThreadPoolExecutor(NPROC) as ex:
                rs = list(ex.map(cc, srcs))
            for o, r in rs:
                if r.returncode:
                    raise MachineryError("asan build failed: " + r.stderr[-2000:])
            r = subprocess.run(["gcc", "-o", out] + [o for o, _ in rs] + ["-fsanitize=address", "-lm", "-lrt"], cwd=base, capture_output=True, text=True)
            if r.returncode:
                raise MachineryError("asan link failed: " + r.stderr[-2000:])
            self._bins[kind] = out
            return out
        d = self.copy_repo("repo-" + kind)
        cflags = "-g -D_GNU_SOURCE" + (" -DNUJEL_VERIF" if kind != "plain" else "")
        r = subprocess.run(["make", "-j%d" % NPROC, "--eval=.DELETE_ON_ERROR:", "CC=gcc", "CFLAGS=" + cflags,
                            "WARNINGS=" + WARN, "nujel", "future-nujel"], cwd=d, capture_output=True, text=True, timeout=600)
        out = os.path.join(d, "future-nujel")
        if r.returncode or not os.path.exists(out):
            raise MachineryError("build failed: " + (r.stdout + r.stderr)[-3000:])
        self._bins[kind] = out
        return out

    def cc_harness(self, src, kind="verif", extra=()):
        """Compile a C harness of /verif against lib/*.c of the tree under test."""
        base = os.path.dirname(self.build(kind))
        out = os.path.join(self.work, os.path.basename(src)[:-2])
        objs = [o for o in glob.glob(base + "/lib/*.o")]
        r = subprocess.run(["gcc", "-g", "-O1", "-D_GNU_SOURCE", "-DNUJEL_VERIF", "-std=gnu99", "-w", "-I", base + "/lib", "-o", out, src]
                           + objs + list(extra) + [base + "/tmp/image.c", "-lm", "-lrt"], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("harness build failed: " + r.stderr[-3000:])
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, constants=None, init="Init", nxt="Next", invariants=(), constraints=("Emit",),
            properties=(), simulate=None, depth=None, timeout=600, workers=None, spec=None, extra_files=(), postcondition=None, view=None,
            seed=None, expect_violation=False, action_constraints=(), xss="64m", expect_emit=True, sample=None):
        """Run TLC on spec/<module>.tla and return the records it printed (lines that start with @)."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        t0 = time.time()
        for f in glob.glob(SPEC + "/*.tla"):
            shutil.copy(f, d)
        for f in extra_files:
            shutil.copy(f, d)
        lines = []
        if cfg:
            lines.append(cfg)
        if constants:
            lines.append("CONSTANTS")
            for k, v in constants.items():
                lines.append("  %s = %s" % (k, v) if not str(v).startswith("<-") else "  %s %s" % (k, v))
        if spec:
            lines.append("SPECIFICATION " + spec)
        else:
            lines += ["INIT " + init, "NEXT " + nxt]
        for i in invariants:
            lines.append("INVARIANT " + i)
        for i in properties:
            lines.append("PROPERTY " + i)
        for i in constraints:
            lines.append("CONSTRAINT " + i)
        for i in action_constraints:
            lines.append("ACTION_CONSTRAINT " + i)
        if postcondition:
            lines.append("POSTCONDITION " + postcondition)
        if view:
            lines.append("VIEW " + view)
        lines.append("CHECK_DEADLOCK FALSE")
        open(os.path.join(d, "M.cfg"), "w").write("\n".join(lines) + "\n")
        w = workers or NPROC
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx8g", "-Xss" + xss, "-cp", TLAJAR, "tlc2.TLC", "-workers", str(w), "-metadir", d + "/md",
               "-config", d + "/M.cfg", "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            cmd += ["-seed", str(seed if seed is not None else self.seed)]
            cmd += ["-depth", str(depth or 50)]
        cmd.append(module + ".tla")
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as fo:
            try:
                r = subprocess.run(cmd, cwd=d, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise MachineryError("TLC timed out on %s" % module)
        recs = []
        tail = []
        st = tr = 0
        raw = set()
        for line in open(outp, errors="replace"):
            if line.startswith('"@'):
                raw.add(line)
                continue
            tail.append(line)
            m = re.match(r"(\d+) states generated, (\d+) distinct", line)
            if m:
                tr, st = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                tr = st = int(m.group(1))
        # TLC's workers print in no fixed order: order and sample by content
        raw = sorted(raw, key=lambda l: zlib.crc32(l.encode(), self.seed & 0xffffffff))
        self.emitted = len(raw)
        if sample is not None and len(raw) > sample:
            raw = raw[:sample]
        recs = [json.loads(json.loads(l.strip())[1:]) for l in raw]
        self.states += st
        self.transitions += tr
        self.dbg("tlc %s: %d records, %.1fs" % (module, len(recs), time.time() - t0))
        text = "".join(tail)
        ok = r.returncode == 0
        if expect_violation:
            shutil.rmtree(d, ignore_errors=True)
            return (not ok), text
        if not ok:
            raise MachineryError("TLC failed on %s (%d):\n%s" % (module, r.returncode, text[max(0, text.find("Error:")):][:2500]))
        if expect_emit and constraints and not recs:
            raise MachineryError("TLC emitted nothing for %s:\n%s" % (module, text[-2000:]))
        shutil.rmtree(d, ignore_errors=True)
        return recs

    def cap(self, recs, quick, thorough=10**9):
        """All records when there are few, otherwise a seeded sample."""
        n = thorough if self.thorough else quick
        return recs if len(recs) <= n else [recs[i] for i in sorted(self.rng.sample(range(len(recs)), n))]

    # ------------------------------------------------------- running cases
    def run_cases(self, cases, kind="verif", gc=None, prelude="", driver="driver.nuj", timeout=120, env=None, setup=None, nproc=None, limit=None):
        """Run every case (a one-line form) in the real interpreter; returns a list of results:
        ["ok", value, trace] | ["crash", code, stderr-tail] | ["hang"]"""
        binp = self.build(kind)
        n = len(cases)
        t0 = time.time()
        res = [None] * n
        np_ = nproc or NPROC
        chunks = [list(range(i, n, np_)) for i in range(np_)]
        chunks = [c for c in chunks if c]

        def work(ci):
            idx = chunks[ci]
            d = tempfile.mkdtemp(prefix="run-", dir=self.work)
            src = open(os.path.join(VERIF, "vp", driver)).read()
            if prelude:
                src = src.replace("(vp/main)", "", 1) if False else src
                k = src.rindex("(vp/main)")
                src = src[:k] + prelude + "\n" + src[k:]
            open(d + "/driver.nuj", "w").write(src)
            if setup:
                setup(d)
            with open(d + "/cases.txt", "w", encoding="utf-8", errors="surrogateescape") as f:
                for i in idx:
                    assert "\n" not in cases[i], cases[i]
                    f.write(cases[i] + "\n")
            frm = 0
            noprog = 0
            while frm < len(idx):
                e = dict(os.environ, VP_CASES="cases.txt", VP_FROM=str(frm), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=512", LC_ALL="C.UTF-8", HOME=d)
                if gc:
                    e["VP_GC"] = str(gc)
                if env:
                    e.update(env)
                hang = False
                with open(d + "/out", "wb") as fo, open(d + "/err", "wb") as fe:
                    p = subprocess.Popen([binp, "driver.nuj"], cwd=d, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=e,
                                         preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (limit, limit))) if limit else None)
                    last = -1
                    lastt = time.time()
                    while True:
                        try:
                            rc = p.wait(timeout=5 if timeout > 10 else 1)
                            break
                        except subprocess.TimeoutExpired:
                            sz = os.path.getsize(d + "/out")
                            if sz != last:
                                last = sz
                                lastt = time.time()
                            elif time.time() - lastt > timeout:
                                p.kill()
                                p.wait()
                                hang = True
                                rc = -9
                                break
                done = False
                got = frm - 1
                for line in open(d + "/out", "rb"):
                    if not line.startswith(b"@"):
                        continue
                    if line.startswith(b"@done"):
                        done = True
                        break
                    try:
                        k, _, payload = line.decode("utf-8", "surrogateescape")[1:].strip().partition(" ")
                        v = json.loads(payload)
                        k = int(k)
                    except Exception:
                        continue
                    if k < len(idx):
                        res[idx[k]] = ["ok", canon(v[0]), [canon(x) for x in v[1]]]
                        got = k
                if done:
                    break
                nxt = got + 1
                if nxt >= len(idx):
                    break
                errt = open(d + "/err", "rb").read()[-1500:].decode("utf-8", "replace")
                outt = open(d + "/out", "rb").read()[-300:].decode("utf-8", "replace")
                if nxt == 0 and frm == 0 and rc != 0 and not hang and noprog == 0:
                    noprog = 1
                res[idx[nxt]] = ["hang"] if hang else ["crash", rc, errt, outt]
                frm = nxt + 1
            shutil.rmtree(d, ignore_errors=True)
        with ThreadPoolExecutor(np_) as ex:
            list(ex.map(work, range(len(chunks))))
        for i in range(n):
            if res[i] is None:
                res[i] = ["crash", "no result"]
        self.dbg("ran %d cases: %.1fs" % (n, time.time() - t0))
        return res

    def dbg(self, s):
        if os.environ.get("VP_DEBUG"):
            print("[%.1f] %s" % (time.time() - self.t0, s), file=sys.stderr)

    # ------------------------------------------------------------- results
    def compare(self, key, case, expected, got, exp_trace=None, nontrivial=True, cmp=None):
        """One conformance verdict. key identifies the case in known-findings."""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(key)
        if len(self.samples) < 6 or (self.evaluations % 9973 == 0 and len(self.samples) < 12):
            self.samples.append({"case": short(case), "expected": short(expected), "got": short(got)})
        ok = got[0] == "ok" and (cmp or matches)(expected, got[1]) and (exp_trace is None or tracematch(exp_trace, got[2]))
        if not ok:
            self.violate(key, case, {"value": expected, "trace": exp_trace}, got)
        return ok

    def violate(self, key, case, expected, got):
        if key in self.known:
            if key not in [k for k, _ in self.known_hit]:
                self.known_hit.append((key, self.known[key]))
            return
        self.violations.append(dict(key=key, case=case, expected=expected, got=got))

    def finish(self, level="model_checking", extra=None, exhaustive=None):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces or self.evaluations,
                   evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), samples=self.samples[:12])
        cov.update(self.notes)
        if extra:
            cov.update(extra)
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations), assumptions=self.assumptions or ["bounds and alphabets as given in spec/ and DESIGN.md"])
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % self.id, "w"), indent=1, default=str)
        for k, d in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.id, d))
        rc = 0
        if self.violations:
            rd = VERIF + "/evidence/replay"
            os.makedirs(rd, exist_ok=True)
            path = "%s/%s.json" % (rd, self.id)
            json.dump(self.violations[:200], open(path, "w"), indent=1, default=str)
            for v in self.violations[:5]:
                print("MISMATCH %s" % short(v["case"], 600))
                print("  expected %s" % short(v["expected"], 600))
                print("  got      %s" % short(v["got"], 600))
            print("%d violations in %d evaluations" % (len(self.violations), self.evaluations))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            rc = 1
        else:
            print("OK property=%s evaluations=%d distinct=%d states=%d wall=%.1fs" % (self.id, self.evaluations, len(self.distinct), self.states, time.time() - self.t0))
        self.cleanup()
        sys.stdout.flush()
        os._exit(rc)

    def cleanup(self):
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)


def load_known(pid):
    r = {}
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=<<(.*)>> (.*)$", line.rstrip("\n"))
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r


def short(x, n=300):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


def bts(l):
    """bytes given as a list of numbers -> str (latin-1 for what is not UTF-8)"""
    b = bytes(l)
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        return "\\x" + b.hex()


def canon(v):
    """Canonical form of what the driver printed."""
    t = v[0]
    if t in ("n", "deep"):
        return [t]
    if t in ("i", "b"):
        return [t, v[1]]
    if t == "fb":
        return ["f", struct.unpack("<d", struct.pack("<q", v[1]))[0]]
    if t in ("k", "y", "s", "o"):
        return [t, bts(v[1])]
    if t == "u":
        return ["u", v[1]]
    if t == "v" or t == "a":
        return [t, [canon(x) for x in v[1]]]
    if t == "l":
        return ["l", [canon(x) for x in v[1]], canon(v[2])]
    if t == "t":
        return ["t", sorted([[bts(k), canon(x)] for k, x in v[1]], key=lambda e: e[0])]
    if t in ("x", "readerr"):
        return [t, canon(v[1])]
    raise MachineryError("bad dump %r" % (v,))


def spec(v):
    """Canonical form of a value printed by TLC: same tags; lists ["l", items], floats ["f", num, den]."""
    t = v[0]
    if t == "n":
        return ["n"]
    if t == "f":
        return ["f", float(fractions.Fraction(int(v[1]), int(v[2])) if len(v) > 2 else v[1])]
    if t == "i":
        return ["i", int(v[1])]
    if t == "b":
        return ["b", 1 if v[1] else 0]
    if t == "s" and isinstance(v[1], list):
        return ["s", bts(v[1])]
    if t in ("k", "y", "s", "o", "x*"):
        return [t, v[1]]
    if t == "u":
        return ["u", list(v[1])]
    if t in ("a", "v", "xl"):
        return [t, [spec(x) for x in v[1]]]
    if t in ("fn", "nat"):
        return ["o", ""]
    if t == "l":
        items = [spec(x) for x in v[1]]
        tail = spec(v[2]) if len(v) > 2 else ["n"]
        if not items:
            return tail
        if tail[0] == "l":
            return ["l", items + tail[1], tail[2]]
        return ["l", items, tail]
    if t == "t":
        return ["t", sorted([[k, spec(x)] for k, x in v[1]], key=lambda e: e[0])]
    if t == "x":      # exception with exactly known leading elements
        return ["x", [spec(x) for x in v[1]]]
    if t == "e":      # built-in error of a kind
        return ["e", v[1]]
    if t == "any":
        return ["any"]
    raise MachineryError("bad spec value %r" % (v,))


def matches(e, g):
    """e expected (canonical), g got (canonical)"""
    t = e[0]
    if t == "any":
        return True
    if t == "e":
        # an error: kind "" accepts every kind, a set of alternatives is separated by |
        if g[0] != "x":
            return False
        if not e[1]:
            return True
        return g[1][0] == "l" and g[1][1][0][0] == "k" and g[1][1][0][1] in e[1].split("|")
    if t == "x":
        if g[0] != "x" or g[1][0] != "l":
            return False
        items = g[1][1]
        if len(items) < len(e[1]):
            return False
        if not all(matches(a, b) for a, b in zip(e[1], items)):
            return False
        # anything after the thrown elements may only be stack traces (of built-in errors nothing more is specified)
        if ["any"] in e[1]:
            return True
        return all(is_trace(x) for x in items[len(e[1]):])
    if t == "xl":     # a caught exception value seen as data: thrown elements, then traces only
        if g[0] != "l" or len(g[1]) < len(e[1]):
            return False
        return all(matches(a, b) for a, b in zip(e[1], g[1])) and (["any"] in e[1] or all(is_trace(x) for x in g[1][len(e[1]):]))
    if t == "k" and g[0] == "k" and "|" in e[1]:
        return g[1] in e[1].split("|")
    if t == "o":
        return g[0] == "o" and (e[1] == "" or g[1] == e[1])
    if t != g[0]:
        return False
    if t == "f":
        return e[1] == g[1] and struct.pack("<d", e[1]) == struct.pack("<d", g[1]) or (e[1] == 0 and g[1] == 0)
    if t in ("a", "v"):
        return len(e[1]) == len(g[1]) and all(matches(a, b) for a, b in zip(e[1], g[1]))
    if t == "l":
        return len(e[1]) == len(g[1]) and all(matches(a, b) for a, b in zip(e[1], g[1])) and matches(e[2], g[2])
    if t == "t":
        return [k for k, _ in e[1]] == [k for k, _ in g[1]] and all(matches(a[1], b[1]) for a, b in zip(e[1], g[1]))
    return e == g


def is_trace(x):
    return x[0] == "n" or (x[0] == "l" and all(i[0] == "o" for i in x[1]))


def tracematch(e, g):
    return len(e) == len(g) and all(matches(a, b) for a, b in zip(e, g))


def nstr(s):
    """A Nujel string literal"""
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") + '"'


def lit(v):
    """Source text of a (spec canonical) value used as data in a quoted/literal position that evaluates to itself."""
    t = v[0]
    if t == "n":
        return "#nil"
    if t == "i":
        return str(v[1])
    if t == "b":
        return "#t" if v[1] else "#f"
    if t == "f":
        return repr(v[1])
    if t == "k":
        return ":" + v[1]
    if t == "y":
        return "'" + v[1]
    if t == "s":
        return nstr(v[1])
    if t == "a":
        return "[" + " ".join(lit(x) for x in v[1]) + "]"
    if t == "l":
        r = "#nil" if v[2][0] == "n" else lit(v[2])
        if v[2][0] == "n":
            return "(list " + " ".join(lit(x) for x in v[1]) + ")"
        for x in reversed(v[1]):
            r = "(cons %s %s)" % (lit(x), r)
        return r
    if t == "t":
        return "{" + " ".join(":%s %s" % (k, lit(x)) for k, x in v[1]) + "}"
    raise MachineryError("no literal for %r" % (v,))


def main(fn, pid):
    c = Check(pid)
    try:
        fn(c)
    except MachineryError as e:
        print("MACHINERY ERROR: %s" % e, file=sys.stderr)
        c.cleanup()
        sys.stdout.flush(); sys.stderr.flush()
        os._exit(3)
    c.finish()
