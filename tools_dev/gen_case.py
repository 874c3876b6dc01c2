"""Writes sim/scn/case_table.hpp: full case mappings from Python's Unicode database, as reference for M04."""
import sys
rows = {"upper": [], "lower": []}
for c in range(0x80, 0x110000):
    if 0xD800 <= c < 0xE000:
        continue
    for k in rows:
        r = getattr(chr(c), k)()
        if r != chr(c):
            rows[k].append((c, [ord(x) for x in r] + [0] * (3 - len(r))))
with open("/verif/sim/scn/case_table.hpp", "w") as f:
    f.write("// Generated by tools_dev/gen_case.py from Python's Unicode database.\n#pragma once\n#include <stdint.h>\n")
    f.write("struct CaseRow {\n    uint32_t cp, to[3];\n};\n")
    for k in rows:
        f.write("static const CaseRow ref_%s[] = {\n" % k)
        for i in range(0, len(rows[k]), 6):
            f.write("".join("{%d,{%d,%d,%d}}," % (c, *t) for c, t in rows[k][i:i + 6]) + "\n")
        f.write("};\n")
