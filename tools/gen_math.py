#!/usr/bin/env python3
"""Wrote harness/math_tab.h from the libm headers and the exceptions math.c tests for (once; the
table then serves as the specification of which exceptions each function reports)."""
import re, subprocess
src = '#include <picotm/math.h>\n#include <picotm/complex.h>\n'
i = subprocess.run("gcc -D_GNU_SOURCE -fno-builtin -E -P -DHAVE_CONFIG_H -Ibuild/asan/gen -Ibuild/asan/gen/inc -include config.h -I/repo/include -I/repo/modules/tm/include -I/repo/modules/libm/include -xc -".split(),
                   input=src, capture_output=True, text=True, cwd="/verif").stdout
mc = open("/repo/modules/libm/src/math.c").read() + open("/repo/modules/libm/src/math-tm.c").read()
T = {"double": "d", "float": "f", "long double": "l", "int": "i", "long int": "L", "long": "L", "long long int": "Q", "long long": "Q",
     "double _Complex": "D", "float _Complex": "F", "long double _Complex": "Z"}
out = []
skip = {"load", "store", "loadstore", "privatize"}
for m in re.finditer(r"^\s*((?:(?:long|double|float|int|_Complex)[ ]*)+)\n\s*(\w+)_tx ?\(([^)]*)\);", i, re.M):
    ret, name, args = m[1].strip(), m[2], m[3]
    if name in skip: continue
    at = [re.sub(r"\s+", " ", a.strip()) for a in args.split(",")]
    tys = [re.sub(r"\s*\b\w+$", "", a) if a not in T else a for a in at]
    if "*" in args: continue
    body = re.search(r"^%s_t[xm]\(.*?\n}" % name, mc, re.M | re.S)
    mask = re.search(r"MATHERR\(.*?,\s*([A-Z_| \n]+)\)\s*;", body[0], re.S) if body else None
    mask = re.sub(r"\s+", " ", mask[1]).strip() if mask else "-1"
    sig = "".join(T[t] for t in tys)
    ctn = {v: k for k, v in T.items() if k not in ("long", "long long")}
    out.append("M%d(%s, %s, %s, %s)" % (len(tys), name, T[ret], ", ".join(sig), mask.replace("-1", "NOERR")))
print("/* name, result, arguments, floating-point exceptions that are errors (written by tools/gen_math.py) */")
print("\n".join(out))
