"""Renders program trees of Lang.tla as Nujel source."""
from vp.common import spec, lit, MachineryError


def fnlist(n, rest):
    if rest:
        return "(%s . %s)" % (" ".join(n), rest) if n else rest
    return "(%s)" % " ".join(n)


def qlit(v):
    """text of a value inside quoted data"""
    if v[0] == "l":
        return "(%s%s)" % (" ".join(qlit(y) for y in v[1]), "" if v[2][0] == "n" else " . " + qlit(v[2]))
    return v[1] if v[0] == "y" else lit(v)


def src(x, m=None):
    """m: the number of parts a repetition stands for (Size.tla)"""
    k, n, v, a = x["k"], x["n"], x["v"], x["a"]
    if m is not None:
        r = sized(x, m)
        if r is not None:
            return r
    return src1(k, n, v, a, lambda y: src(y, m))


def sized(x, m):
    k, n, v, a = x["k"], x["n"], x["v"], x["a"]
    if k == "c" and v == ["i", "NN"]:
        return str(m)
    if k == "rep" and isinstance(m, tuple):   # three sizes of units, m of each
        t = src(a[0])
        return " ".join([t] * m[0 if len(t) > 100 else 1 if "nil?" in t else 2])
    if k == "rep":
        t = src(a[0], m) if len(a) == 1 else "(%s %s)" % (src(a[0], m), src(a[1], m))
        return " ".join(t.replace("QQ", str(i)) for i in range(1, m + 1))
    if k == "nest":
        pre, post = src(a[0], m).split("HH")
        return "".join(pre.replace("QQ", str(i)) for i in range(1, m + 1)) + src(a[1], m) + "".join(post.replace("QQ", str(i)) for i in range(m, 0, -1))
    if k in ("let", "fn") and "z*" in n:
        assert n == ["z*"]
        if k == "fn":
            return "(fn (%s) %s)" % (" ".join("z%d" % i for i in range(1, m + 1)), " ".join(src(y, m) for y in a))
        t = src(a[0]["a"][0], m)
        return "(let (%s) %s)" % (" ".join("(z%d %s)" % (i, t.replace("QQ", str(i))) for i in range(1, m + 1)), " ".join(src(y, m) for y in a[1:]))
    if k == "cond":
        i, out = 0, []
        while i < len(a):
            if a[i]["k"] == "rep":
                out.append(src(a[i], m))
                i += 1
            else:
                out.append("(%s %s)" % (src(a[i], m), src(a[i + 1], m)))
                i += 2
        return "(cond %s)" % " ".join(out)
    return None


def src1(k, n, v, a, src):
    S = lambda xs: " ".join(src(y) for y in xs)
    if k == "c":
        return lit(spec(v))
    if k in ("v", "nat"):
        return n
    if k == "p":
        return "(%s%s)" % (n, "".join(" " + src(y) for y in a))
    if k in ("do", "if", "when", "and", "or", "while", "try", "apply"):
        return "(%s %s)" % (k, S(a))
    if k == "whennot":
        return "(when-not %s)" % S(a)
    if k == "cond":
        return "(cond %s)" % " ".join("(%s %s)" % (src(a[i]), src(a[i + 1])) for i in range(0, len(a), 2))
    if k == "case":
        cl = []
        for keys, body in zip(v, a[1:]):
            ks = "otherwise" if not keys else lit(spec(keys[0])) if len(keys) == 1 else "(%s)" % " ".join(lit(spec(q)) for q in keys)
            cl.append("(%s %s)" % (ks, src(body)))
        return "(case %s %s)" % (src(a[0]), " ".join(cl))
    if k == "def":
        return "(def %s %s)" % (n, src(a[0]))
    if k == "set":
        return "(set! %s %s)" % (n, src(a[0]))
    if k == "let":
        return "(let (%s) %s)" % (" ".join("(%s %s)" % (q, src(y)) for q, y in zip(n, a)), S(a[len(n):]))
    if k == "dotimes":
        return "(dotimes (%s %s) %s)" % (n, src(a[0]), S(a[1:]))
    if k == "doseq":
        return "(doseq (%s %s) %s)" % (n, src(a[0]), S(a[1:]))
    if k == "fn":
        return "(fn %s %s)" % (fnlist(n, v), S(a))
    if k == "call":
        return "(%s)" % S(a)
    if k == "q":
        return "'" + qlit(spec(v))
    if k == "meth":
        return "(:%s {:%s %s}%s)" % (n, n, src(a[0]), "".join(" " + src(y) for y in a[1:]))
    if k == "methproto":
        return "(:%s {:prototype* {:%s %s}}%s)" % (n, n, src(a[0]), "".join(" " + src(y) for y in a[1:]))
    if k == "methkw":
        return "(let ((kw :%s)) (kw {:%s %s}%s))" % (n, n, src(a[0]), "".join(" " + src(y) for y in a[1:]))
    if k == "methapply":
        return "(apply :%s (list {:%s %s}%s))" % (n, n, src(a[0]), "".join(" " + src(y) for y in a[1:]))
    if k == "res":
        return "(resolves? '%s)" % n
    if k == "has":
        return "(:has? (current-closure) '%s)" % n
    if k == "cref":
        return "(ref (current-closure) '%s)" % n
    if k == "ret":
        return "(return %s)" % src(a[0])
    if k == "eval":
        return "(eval '%s)" % src(a[0])
    raise MachineryError("no source for %r" % k)


def expected(r):
    """(value, trace) the interpreter must show for a result of Run"""
    v = spec(r["v"])
    if r["o"] == "t":
        v = ["x", v[1]]
    return v, [spec(t) for t in r["tr"]]


def replay(c, recs, **kw):
    """Run the programs and compare values and traces."""
    cases = [src(r["p"]) for r in recs]
    res = c.run_cases(cases, **kw)
    for r, s, g in zip(recs, cases, res):
        v, t = expected(r["r"])
        c.compare(s, s, v, g, exp_trace=t)
    return res
