"""C09: the meaning of code does not depend on its size (Size.tla)."""
from vp.common import *
from vp import langsrc

GROUPS = {1: "long", 2: "wide", 3: "args", 4: "deep", 5: "calls", 6: "rounds", 7: "consts", 8: "operands"}
# sizes up to MUST have to work; beyond it a program may also be refused
MUST = {1: 600, 2: 700, 3: 254, 4: 400, 5: 5000, 6: 100000, 7: 100, 8: 200}
SIZES = {1: [60, 127, 128, 200, 254, 255, 256, 257, 258, 300, 513, 1000, 2000],
         2: [127, 128, 200, 253, 254, 255, 256, 257, 258, 300, 511, 513, 700, 1500],
         3: [17, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300],
         4: [31, 100, 128, 257, 400],
         5: [127, 256, 1000, 3000, 5000],
         6: [300, 1000, 33000, 100000],
         7: [6, 7, 52, 102, 103, 205],
         8: [20, 60, 200, 400]}
HUGE = {1: [3300, 4090, 4700, 5500, 6600], 2: [1800], 4: [1000], 5: [9000], 6: [140000]}
# rethrowing an exception at every level appends a stack trace as long as the stack at each
CLOSURES = {(5, 14): 3000}   # as many scopes at once as there can be
RETHROW = {(4, 8), (5, 5), (5, 6)}
REFUSED = ("out-of-bounds", "arity-error", "read-error", "invalid-bc-op", "stack-overflow", "heap-exhausted")


def run(c):
    recs = c.tlc("Size", constants={"NS": "{2, 3}", "RND": "TRUE"}, invariants=("Law",))
    c.notes["constructs_checked"] = c.emitted
    if c.thorough:
        c.tlc("Size", constants={"NS": "{257}", "RND": "TRUE"}, init="SimInit", nxt="SimNext", invariants=("Law",), simulate=20, depth=12, expect_emit=False)
    # every construct, in some context; sizes drawn per record
    by = {}
    for r in recs:
        by.setdefault((r["id"]["g"], r["id"]["k"]), []).append(r)
    cases, rs, ns = [], [], []

    def add(r, n):
        cases.append(langsrc.src(r["p"], n))
        rs.append(r)
        ns.append(n)
    fine = {k for g, k in by if g == 1 and k % 6 == 0}   # the filling that boundary() uses
    for (g, k), l in sorted(by.items()):
        if g == 1 and k in fine:
            continue
        for n in SIZES[g]:
            want = 4 if c.thorough else 1
            if g == 1 and not c.thorough and c.rng.random() < (0.97 if n >= 1000 else 0.75):
                continue
            for r in c.rng.sample(l, min(want, len(l))):
                add(r, n)
    order = sorted(range(len(cases)), key=lambda i: len(cases[i]))
    cases, rs, ns = [cases[i] for i in order], [rs[i] for i in order], [ns[i] for i in order]
    c.notes["largest_program_bytes"] = len(cases[-1])
    res = c.run_cases(cases)
    for r, s, n, g in zip(rs, cases, ns, res):
        judge(c, r, s, n, g)
    hc, hr, hn = [], [], []
    for (g, k), l in sorted(by.items()):
        if g == 1 and k in fine:
            continue
        for n in HUGE.get(g, []):
            if g == 1 and not c.thorough and c.rng.random() < 0.965:
                continue
            r = c.rng.choice(l)
            hc.append(langsrc.src(r["p"], n))
            hr.append(r)
            hn.append(n)
    c.notes["huge_programs"] = len(hc)
    res = c.run_cases(hc)
    ref = 0
    for r, s, n, g in zip(hr, hc, hn, res):
        ok = judge(c, r, s, n, g)
        ref += not ok
        if os.environ.get("VP_DEBUG"):
            print("huge", r["id"], n, len(s), "ok" if ok else "refused %s" % json.dumps(g)[:150])
    c.notes["huge_programs_refused"] = ref
    boundary(c, by)


# places of Long with a jump over the filling
JUMPS = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23]


def boundary(c, by):
    """Jumps of just the largest and smallest distances that can be encoded: found by having a larger one
    refused, with how far it would have been."""
    def units(size):
        n = max(0, size // 203 - 1)
        rest = size - 203 * n
        b = next(b for b in range(7) if (rest - 5 * b) % 7 == 0)
        return (n, (rest - 5 * b) // 7, b)
    todo = [(r, 34000) for k in (JUMPS if c.thorough else [3, 6, 10, 15, 16, 17, 19])
            for r in c.rng.sample(by[(1, 6 * k)], 6 if k == 16 else 3 if c.thorough else 1)]
    exact = 0
    for rnd in range(4):
        cases = [langsrc.src(r["p"], units(s)) for r, s in todo]
        nxt = []
        for (r, s), text, g in zip(todo, cases, c.run_cases(cases)):
            m = re.search(r"doesn't fit into 16 bits[^\]]*\], \[\"i\", (-?\d+)\]", json.dumps(g))
            if os.environ.get("VP_DEBUG"):
                print("boundary", r["id"], s, m and m.group(1), json.dumps(g)[:100])
            if m and rnd < 3:
                off = int(m.group(1))
                over = off - 32767 if off > 0 else -32768 - off
                # the largest that fits, and its neighbours
                nxt += [(r, s - over + d) for d in ((-1, 0, 1) if over > 2 else ())]
            elif not m:
                exact += 1
            if not m:
                judge(c, r, text, 1, g)
            else:
                c.evaluations += 1
        todo = nxt
    c.notes["jumps_at_the_limit"] = exact


def refused(g):
    if g[0] == "crash":
        return g[1] in (111, 123) and "exhausted" in " ".join(str(x) for x in g[2:])
    if g[0] != "ok":
        return False
    v = g[1]
    try:
        return v[0] in ("x", "readerr") and any(k in json.dumps(v)[:400] for k in REFUSED)
    except Exception:
        return False


def judge(c, r, s, n, g):
    """True when it ran as the law says; a size beyond the limits may be refused"""
    gi, k = r["id"]["g"], r["id"]["k"]
    v, t = langsrc.expected(r["r"])
    key = "%s/%d n=%d ctx=%d %s" % (GROUPS[gi], k, n, r["id"]["c"], langsrc.src(r["p"], 1))
    if n > (256 if (gi, k) in RETHROW else CLOSURES.get((gi, k), MUST[gi])) and refused(g):
        c.evaluations += 1
        return False
    c.compare(key, s[:3000], v, g, exp_trace=t)
    return True
