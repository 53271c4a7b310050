#!/usr/bin/env python3
"""Rewrites the fixed: lines of known-findings.txt from /repo's fix: commits (MAP gives the property)."""
import os, subprocess
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("exception handler on the value stack", "C06"), ("append the stack trace to the thrown", "C06"), ("stack depth of pending calls", "C09"), ("stacks can hold all operands", "C09"),
       ("heights of a right rotated", "C04"), ("compare trees by their entries", "C04"), ("expand macros of the given environment", "C16"), ("compile arguments in the same", "C05"),
       ("apply calls with surplus", "C07"), ("arithmetic instructions give", "C08"), ("operands of the integer functions", "C08"), ("bit shift instructions", "C08"), ("inc/int is applied", "C08"),
       ("compare equal floats", "C08"), ("float doesn't fit", "C08"), ("negative odd numbers", "C08"), ("argument of an inlined function", "C05"), ("let* bodies and (do)", "C05"),
       ("remaining clauses of cond", "C05"), ("assigning an unbound variable in functions", "C09"), ("work as first-class functions", "C07"), ("branch offset doesn't fit", "C09")]
p = D + "/known-findings.txt"
old = open(p, encoding="utf-8").read().split("\n") if os.path.exists(p) else []
keep = [l for l in old if l.startswith("known:")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep", "^fix:"], capture_output=True, text=True).stdout.strip().split("\n")
out = []
for l in log:
    h, s = l.split(" ", 1)
    m = [i for t, i in MAP if t in s]
    if not m and " [C" in s:
        m = [s[s.rindex("[") + 1:-1]]
    if not m:
        print("no property for", l)
        continue
    out.append("fixed: property=%s %s %s" % (m[0], h, s[5:]))
open(p, "w", encoding="utf-8").write("\n".join(out + keep) + "\n")
